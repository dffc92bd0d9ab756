// Hostile contents: any bytes on the device must be handled without crash, hang or undefined behaviour.
// Crashes, sanitizer reports, aborts and timeouts are found by the engine; this file generates.
#include "mutate.h"
#include "fstpl.h"
extern "C" {
#include <parted/disk.h>
PedDiskType *ped_disk_type_get_next(PedDiskType const *);
}

static void guard(World &w, Ctx &c, const char *id, const char *what) {
    if (w.m->limit_hit) c.fail(fmt("%s:endless", id).c_str(), "%s: more than %llu device operations", what, (unsigned long long)w.m->read_limit);
    if (w.m->oob_write && (g_policy == EXC_CANCEL || g_policy == EXC_UNHANDLED)) c.fail(fmt("%s:oob-write", id).c_str(), "%s: write outside the device", what);
}

// 32-bit fields worth extreme values, as byte offsets in the first sectors of each label
static void field_damage(World &w, Ctx &c, const std::string &lab, const std::vector<PedSector> &sect) {
    if (sect.empty()) return;
    PedSector s = sect[c.draw(std::min<size_t>(sect.size() - 1, 5))];
    std::vector<int> offs;
    if (lab == "gpt") {
        static const int H[] = {8, 12, 24, 28, 32, 36, 40, 44, 48, 52, 72, 76, 80, 84};
        static const int E[] = {32, 36, 40, 44, 48, 160, 164, 168, 172};
        s = c.pickl<PedSector>({1, 2, w.m->length - 1, 0});
        if (s == 2) offs.assign(E, E + 9);
        else if (s) offs.assign(H, H + 14);
        else offs = {446, 450, 454, 458, 462, 466, 470, 474};
    } else if (lab == "msdos") {
        for (int i = 0; i < 2; i++) for (int o : {0, 4, 8, 12}) offs.push_back(446 + 16 * i + o);
    } else if (lab == "amiga") {
        offs = {4, 12, 16, 28, 32, 36, 44, 64, 68, 72, 128, 132, 136, 140, 144, 148, 152, 36, 140, 148, 164, 168};
    } else if (lab == "mac") {
        offs = {0, 2, 4, 8, 12, 16, 18, 20, 24, 48, 80, 84, 88, 92, 96};
        s = c.draw(3);
    } else if (lab == "sun") {
        offs = {128, 140, 142, 144, 146, 150, 420, 422, 428, 432, 436, 438, 440, 444, 448, 452, 456, 460, 464};
        s = 0;
    } else if (lab == "dvh") {
        offs = {4, 6, 8, 24, 72, 80, 84, 88, 96, 100, 312, 316, 320, 324, 328, 332, 408, 412, 416};
        s = 0;
    } else if (lab == "bsd") {
        offs = {64 + 40, 64 + 44, 64 + 132, 64 + 136, 64 + 138, 64 + 148, 64 + 152, 64 + 160, 64 + 164, 64 + 168};
        s = 0;
    } else if (lab == "pc98") {
        offs = {0, 2, 4, 8, 10, 12, 14, 16};
        for (int i = 8; i > 0; i--) offs.push_back(32 + offs[i - 1]);
        s = 1;
    } else if (lab == "atari") {
        for (int o : {0x1c2, 0x1c6, 0x1ca, 0x1ce, 0x1d2, 0x1d6, 0x1da, 0x156, 0x15a, 0x15e, 0x1f6, 0x1fa}) offs.push_back(o);
    } else
        return;
    auto b = w.m->read(s);
    int n = 1 + (int)c.draw(2);
    for (int k = 0; k < n; k++) {
        int o = offs[c.draw(offs.size() - 1)];
        uint32_t old = 0;
        memcpy(&old, &b[o], 4);
        uint32_t L = (uint32_t)w.m->length, v;
        bool bige = lab != "gpt" && lab != "msdos" && lab != "bsd" && lab != "pc98";
        switch (c.draw(3)) {
        case 0: v = c.pickl<uint32_t>({0, 1, 2, 0xffffffffu, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0x10000u, 0xffffu, 3, 511, 512}); break;
        case 1: v = L + (uint32_t)c.range(-2, 2); break;
        case 2: v = (bige ? __builtin_bswap32(old) : old) + (uint32_t)c.range(-2, 2); break;
        default: v = (uint32_t)c.draw(0xffffffff); break;
        }
        if (bige) v = __builtin_bswap32(v);
        if (c.chance(1, 3)) memcpy(&b[o], &v, 2); else memcpy(&b[o], &v, 4);
        c.note("field %d of sector %lld: %08x -> %08x", o, (long long)s, old, v);
    }
    w.m->put(s, b.data());
}

// extended boot records that refer to each other in any way: loops, shared tails, empty records
static void ebr_graph(World &w, Ctx &c, std::vector<PedSector> &sect) {
    MemDev *m = w.m;
    std::vector<uint8_t> b(m->ss);
    PedSector s = c.range(1, 64);
    int k = 1 + (int)c.draw(c.chance(1, 4) ? 60 : 6);
    b[510] = 0x55; b[511] = 0xaa;
    uint8_t *q = &b[446];
    q[4] = c.pickl({5, 0x0f, 0x85});
    p32(q + 8, s);
    p32(q + 12, m->length - s);
    m->put(0, b.data());
    sect = {0};
    int style = (int)c.draw(2);
    for (int i = 0; i < k; i++) {
        std::vector<uint8_t> x(m->ss);
        x[510] = 0x55; x[511] = 0xaa;
        for (int e = 0; e < 4; e++) {
            uint8_t *p = &x[446 + 16 * e];
            int kind = style == 0 ? (int)c.draw(2) : style == 1 ? (e < 2 ? 2 : 0) : c.weighted({4, 1, 2});
            if (kind == 0) continue;
            if (kind == 1) {
                p[4] = 0x83;
                p32(p + 8, c.biased(0, m->length));
                p32(p + 12, c.biased(0, m->length));
            } else {
                p[4] = c.pickl({5, 0x0f, 0x85});
                p32(p + 8, style == 1 && !c.chance(1, 8) ? i + 1 : c.draw(k));
                p32(p + 12, c.biased(0, m->length));
            }
        }
        if (s + i < m->length) { m->put(s + i, x.data()); sect.push_back(s + i); }
    }
    c.note("%d extended boot records from sector %lld, style %d", k, (long long)s, style);
}

static void use_table(World &w, Ctx &c, const char *id) {
    w.label = w.disk->type->name;
    exc_clear();
    snap(w.disk);
    ped_disk_check(w.disk);
    guard(w, c, id, "looking at the table");
    PedDisk *d = ped_disk_duplicate(w.disk);
    if (d) {
        snap(d);
        ped_disk_destroy(d);
    }
    for (PedPartition *p : w.active()) {
        PedConstraint *k = ped_constraint_any(w.dev);
        PedGeometry *g = ped_disk_get_max_partition_geometry(w.disk, p, k);
        if (g) ped_geometry_destroy(g);
        ped_constraint_destroy(k);
        char *path = ped_partition_get_path(p);
        free(path);
        if (c.chance(1, 2)) break;
    }
    guard(w, c, id, "queries");
    for (int i = (int)c.draw(5); i > 0; i--) {
        w.op();
        guard(w, c, id, "editing");
    }
    if (c.chance(2, 3)) {
        exc_clear();
        int ok = w.commit();
        c.note("commit %d %s", ok, exc_dump().c_str());
        guard(w, c, id, "commit");
        if (c.chance(1, 2)) {
            w.reopen();
            if (w.load()) { snap(w.disk); c.note("reloaded"); }
            guard(w, c, id, "reload");
        }
    }
}

// ---------------------------------------------------------------- C09
static void c09(Ctx &c) {
    World w(c);
    static const std::vector<std::string> labels = {"gpt", "msdos", "mac", "amiga", "atari", "dvh", "sun", "bsd", "pc98", "loop"};
    std::string lab = c.pick(labels);
    if (!start_world(w, c, lab)) c.discard();
    std::vector<PedSector> sect;
    bool base = !c.chance(1, 10);
    if (base) {
        bool foreign = (lab == "gpt" || lab == "msdos") && c.chance(1, 5);
        if (foreign) {
            if (!(lab == "gpt" ? foreign_gpt(w, c) : foreign_dos(w, c))) c.discard();
            sect = {0, 1, 2, w.m->length - 1};
        } else {
            for (Steps st(c, 5); st.next();) w.op();
            w.m->resetlog();
            if (!w.commit()) c.discard();
            sect = written(*w.m);
            if (lab != "loop") {
                ParseOpts po;
                po.fresh = false;
                Parsed P = parse_label(*w.m, lab, po);
                sect.assign(P.tables.begin(), P.tables.end());
            }
        }
    }
    bool graph = lab == "msdos" && c.chance(1, 5);
    if (graph) ebr_graph(w, c, sect);
    switch (graph ? (c.chance(1, 3) ? 0 : 4) : !base ? 3 : c.weighted({4, 4, 2, 1})) {
    case 0: damage(w, c, sect, 1 + (int)c.draw(3)); break;
    case 4: break;
    case 1: for (int i = 1 + (int)c.draw(2); i > 0; i--) field_damage(w, c, lab, sect); break;
    case 2: damage(w, c, sect, 1); field_damage(w, c, lab, sect); break;
    default:
        for (int i = 0; i < 4; i++) {
            std::vector<uint8_t> b(w.m->ss);
            for (auto &x : b) x = c.chance(1, 3) ? (uint8_t)c.draw(255) : 0;
            PedSector s = c.chance(2, 3) ? i : c.biased(0, w.m->length - 1);
            static const struct { int off, n; const char *p; } S[] = {{510, 2, "\x55\xaa"}, {0, 4, "RDSK"}, {0, 4, "\x0b\xe5\xa9\x41"}, {64, 4, "\x57\x45\x56\x82"},
                                                                     {508, 2, "\xda\xbe"}, {0, 2, "ER"}, {0, 8, "EFI PART"}, {4, 4, "IPL1"}, {0, 4, "\xc9\xc2\xd4\xc1"}};
            auto &t = S[c.draw(8)];
            memcpy(&b[t.off], t.p, t.n);
            w.m->put(s, b.data());
        }
        c.note("noise with a signature");
    }
    if (c.chance(2, 3)) fix_sums(w, c, lab, sect);
    if (c.chance(1, 6)) {
        PedSector n = c.chance(1, 2) ? w.m->length + c.biased(1, 1 << 20) : c.biased(1, w.m->length);
        if (!(lab == "atari" && n > INT32_MAX)) { set_len(w.m, n); c.note("device resized to %lld", (long long)n); }
    }
    w.m->read_limit = 3000000;
    g_policy = c.pickl({EXC_CANCEL, EXC_AGREE, EXC_IGNORE, EXC_UNHANDLED});
    struct R { ~R() { g_policy = EXC_CANCEL; } } rr;
    w.reopen();
    exc_clear();
    PedDiskType *t = ped_disk_probe(w.dev);
    c.note("policy %d: probed %s", g_policy, t ? t->name : "-");
    guard(w, c, "C09", "probe");
    bool got = w.load();
    c.note("load %d %s", got, exc_dump().c_str());
    guard(w, c, "C09", "ped_disk_new");
    c.cls(fmt("%s->%s", lab.c_str(), got ? w.disk->type->name : t ? "refused" : "unrecognised"));
    if (got) {
        c.nontrivial = true;
        use_table(w, c, "C09");
    } else if (t)
        c.nontrivial = true;
    if (c.chance(1, 6)) {
        // wipe or relabel what is there
        w.reopen();
        std::string nl = gen_label(c);
        if ((nl == "pc98" || nl == "atari") && w.m->ss != 512) return;
        c.note("relabel as %s", nl.c_str());
        if (w.make_label(nl)) { w.commit(); guard(w, c, "C09", "relabel"); }
    }
}


// ---------------------------------------------------------------- C30
extern "C" {
#include <parted/filesys.h>
uint32_t __efi_crc32(const void *, unsigned long, uint32_t);
PedFileSystem *ped_file_system_open(PedGeometry *);
int ped_file_system_close(PedFileSystem *);
PedConstraint *ped_file_system_get_resize_constraint(const PedFileSystem *);
}
static void c30(Ctx &c) {
    if (g_tpl.empty()) load_templates();
    static bool once = (memarch_install(), exc_install(), true);
    (void)once;
    const Template &t = c.pick(g_tpl);
    long long ss = c.weighted({6, 1, 1, 2}) ;
    ss = 512ll << ss;
    long long k = ss / 512;
    PedSector need = (t.total + k - 1) / k;
    PedSector start = c.chance(1, 4) ? 0 : c.biased(0, 70000);
    MemDev *m = mem_new(start + need + c.biased(0, 5000), ss);
    struct Free { ~Free() { mem_free_all(); } } fr;
    m->bg = c.chance(1, 3) ? 7 : 0;
    uint64_t s0 = start * k;
    if (m->bg) for (uint64_t i = 0; i < std::min<uint64_t>(t.total, 400); i++) { std::vector<uint8_t> z(512); put512(m, s0 + i, z.data()); }
    std::vector<uint64_t> secs;
    for (auto &x : t.sec) { put512(m, s0 + x.first, x.second.data()); secs.push_back(x.first); }
    bool rdb = k == 1 && c.chance(1, t.name == "affs" || t.name == "apfs" || t.name == "asfs" || t.name == "amufs" ? 2 : 30) && start > 20;
    PedSector rdbat = 0;
    auto wbe = [](std::vector<uint8_t> &b, int o, uint32_t v) { b[o] = v >> 24; b[o + 1] = v >> 16; b[o + 2] = v >> 8; b[o + 3] = v; };
    auto amsum = [&](std::vector<uint8_t> &b) {
        wbe(b, 8, 0);
        uint32_t z = 0, n = std::min<uint32_t>(128, (uint32_t)b[4] << 24 | b[5] << 16 | b[6] << 8 | b[7]);
        for (uint32_t i = 0; i < n; i++) z += (uint32_t)b[4 * i] << 24 | b[4 * i + 1] << 16 | b[4 * i + 2] << 8 | b[4 * i + 3];
        wbe(b, 8, -z);
    };
    if (rdb) {
        // an RDB with one partition block per candidate, describing this region
        rdbat = c.range(0, 15);
        std::vector<uint8_t> r(512), q(512);
        memcpy(&r[0], "RDSK", 4);
        wbe(r, 4, 64); wbe(r, 16, 512); wbe(r, 24, ~0u); wbe(r, 28, rdbat + 1); wbe(r, 32, ~0u);
        memcpy(&q[0], "PART", 4);
        wbe(q, 4, 64); wbe(q, 16, c.chance(1, 6) ? (uint32_t)c.biased(0, m->length) : ~0u);
        wbe(q, 132, c.pickl<uint32_t>({128, 256, 512, 1024, 0, 1, 64, 0x80000000u, 0xffffffffu, 0x10000}));   // de_SizeBlock
        wbe(q, 140, 1); wbe(q, 144, c.pickl<uint32_t>({1, 2, 4, 0, 8, 0x01000000, 0xffffffffu}));              // surfaces, sectors per block
        wbe(q, 148, 1);                                                                                     // blocks per track
        wbe(q, 152, c.pickl<uint32_t>({2, 0, 1, 16, 0xffffffffu, 0x7fffffffu}));                              // reserved
        wbe(q, 164, start); wbe(q, 168, start + t.total - 1);
        for (auto b : {&r, &q}) amsum(*b);
        put512(m, rdbat, r.data());
        put512(m, rdbat + 1, q.data());
        c.note("RDB at %lld with a partition block", (long long)rdbat);
    }
    int nm = c.weighted({1, 6, 3, 2});
    c.note("%s (%llu sectors) at %lld, sector size %lld", t.name.c_str(), (unsigned long long)t.total, (long long)start, ss);
    for (int i = 0; i < nm; i++) {
        uint64_t sec = secs[c.chance(3, 4) ? c.draw(std::min<size_t>(secs.size() - 1, 3)) : c.draw(secs.size() - 1)];
        if (c.chance(1, 16)) sec = c.draw(t.total - 1);
        auto b = get512(m, s0 + sec);
        int w = c.pickl({4, 2, 8, 1});
        int o = (int)c.draw((c.chance(1, 2) ? 128 : 512) / w - 1) * w;
        if (c.chance(1, 4)) o = (int)c.draw(512 - w);
        uint64_t old = 0, v;
        memcpy(&old, &b[o], w);
        switch (c.weighted({3, 2, 2, 2})) {
        case 0: v = c.pickl<uint64_t>({0, 1, ~0ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x7fffffff, 0x80000000, 0xffffffff, 0x8000, 0xffff, 2, 3, 0x100000000ull, 511, 513}); break;
        case 1: v = old + c.range(-3, 3); break;
        case 2: v = c.draw(~0ull); break;
        default: v = old ^ 1ull << c.draw(8 * w - 1); break;
        }
        if (c.chance(1, 2) && w > 1) v = __builtin_bswap64(v) >> (64 - 8 * w);
        memcpy(&b[o], &v, w);
        put512(m, s0 + sec, b.data());
        c.mix(sec); c.mix(o); c.mix(v);
        c.note("  sector %llu+%d: %0*llx -> %0*llx", (unsigned long long)sec, o, 2 * w, (unsigned long long)old, 2 * w, (unsigned long long)(w < 8 ? v & ((1ull << 8 * w) - 1) : v));
    }
    if (t.name == "nilfs2" && c.chance(2, 3))
        for (uint64_t s : {(uint64_t)2, (uint64_t)((t.total - 8) & ~7ull)}) {
            std::vector<uint8_t> b = get512(m, s0 + s), b2 = get512(m, s0 + s + 1);
            b.insert(b.end(), b2.begin(), b2.end());
            uint32_t seed, bytes = b[10 - 2] | b[11 - 2] << 8;
            memcpy(&seed, &b[12], 4);
            if (bytes > 1024 || bytes < 20) continue;
            memset(&b[16], 0, 4);
            uint32_t crc = __efi_crc32(b.data(), bytes, seed);
            memcpy(&b[16], &crc, 4);
            put512(m, s0 + s, b.data());
            put512(m, s0 + s + 1, &b[512]);
        }
    if (k == 1 && (t.name == "affs" || t.name == "amufs") && c.chance(2, 3)) {
        uint64_t root = s0 + (t.total - 2 - 1) / 2 + 2;
        auto b = get512(m, root);
        uint32_t z = 0;
        wbe(b, 20, 0);
        for (int i = 0; i < 128; i++) z += (uint32_t)b[4 * i] << 24 | b[4 * i + 1] << 16 | b[4 * i + 2] << 8 | b[4 * i + 3];
        wbe(b, 20, -z);
        put512(m, root, b.data());
    }
    PedSector len = need;
    switch (c.weighted({6, 2, 1, 1})) {
    case 0: break;
    case 1: len = c.biased(1, m->length - start); break;
    case 2: len = m->length - start; break;
    default: start = std::max<PedSector>(0, std::min<PedSector>(m->length - 1, start + c.range(-3, 3))); len = std::min(len, m->length - start); break;
    }
    c.mix(&t - &g_tpl[0]); c.mix(start); c.mix(len); c.mix(ss);
    c.note("region [%lld +%lld] of %lld", (long long)start, (long long)len, (long long)m->length);
    g_policy = c.pickl({EXC_CANCEL, EXC_AGREE, EXC_IGNORE, EXC_UNHANDLED});
    struct R { ~R() { g_policy = EXC_CANCEL; } } rr;
    PedDevice *dev = mem_open(m);
    if (!ped_device_open(dev)) c.discard();
    m->read_limit = 3000000;
    exc_clear();
    auto chk = [&](const char *what) {
        if (m->limit_hit) c.fail("C30:endless", "%s: too many device operations", what);
        if (m->nwrite && g_policy != EXC_AGREE) c.fail("C30:write", "%s wrote to the device", what);
        if (m->oob_write) c.fail("C30:oob", "%s: access outside the device", what);
    };
    auto geomok = [&](PedGeometry *g, const char *what) {
        if (g->start < 0 || g->length < 1 || g->end != g->start + g->length - 1 || g->dev != dev) c.fail("C30:geometry", "%s: reported region [%lld,%lld] length %lld", what, (long long)g->start, (long long)g->end, (long long)g->length);
    };
    PedGeometry *g = ped_geometry_new(dev, start, len);
    if (!g) c.fail("C30:geom", "no geometry");
    PedFileSystemType *ft = ped_file_system_probe(g);
    chk("ped_file_system_probe");
    c.note("probed %s %s", ft ? ft->name : "-", exc_dump().c_str());
    c.cls(fmt("%s->%s", t.name.c_str(), ft ? ft->name : "-"));
    if (ft) c.nontrivial = true;
    for (PedFileSystemType *f = nullptr; (f = ped_file_system_type_get_next(f));) {
        PedGeometry *r = ped_file_system_probe_specific(f, g);
        if (r) {
            c.nontrivial = true;
            geomok(r, f->name);
            ped_geometry_destroy(r);
        }
    }
    chk("ped_file_system_probe_specific");
    if (ft && (!strncmp(ft->name, "fat", 3) || !strncmp(ft->name, "hfs", 3)) || c.chance(1, 8)) {
        PedFileSystem *fs = ped_file_system_open(g);
        c.note("open %s %s", fs ? fs->type->name : "-", exc_dump().c_str());
        chk("ped_file_system_open");
        if (fs) {
            c.cls(fmt("open %s", fs->type->name));
            PedConstraint *k2 = ped_file_system_get_resize_constraint(fs);
            if (k2) ped_constraint_destroy(k2);
            chk("ped_file_system_get_resize_constraint");
            ped_file_system_close(fs);
        }
    }
    ped_geometry_destroy(g);
    ped_device_close(dev);
    mem_close(dev);
}

static std::vector<Prop> props = {
    {"C09", c09, 40000, 400000, "a label was recognised on the damaged device"},
    {"C30", c30, 60000, 400000, "some file system type was recognised in the region", load_templates},
};
int main(int argc, char **argv) { return main_(argc, argv, props); }
