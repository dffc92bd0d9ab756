#include "world.h"
#include <clocale>
using pbt::Ctx;
using pbt::fmt;

std::string hex(const void *p, size_t n) {
    std::string s;
    for (size_t i = 0; i < n; i++) s += fmt("%02x", ((const uint8_t *)p)[i]);
    return s;
}

PSnap psnap(const PedPartition *p) {
    PSnap r;
    r.num = p->num;
    r.type = p->type;
    r.s = p->geom.start;
    r.e = p->geom.end;
    r.fs = p->fs_type ? p->fs_type->name : "";
    const PedDiskType *t = p->disk->type;
    if (!ped_partition_is_active(p)) return r;
    if (ped_disk_type_check_feature(t, PED_DISK_TYPE_PARTITION_NAME)) {
        const char *n = ped_partition_get_name(p);
        r.has_name = true;
        if (n) r.name = n;
    }
    for (int f = PED_PARTITION_FIRST_FLAG; f <= PED_PARTITION_LAST_FLAG; f++)
        if (ped_partition_is_flag_available(p, (PedPartitionFlag)f)) {
            r.avail |= 1u << f;
            if (ped_partition_get_flag(p, (PedPartitionFlag)f)) r.flags |= 1u << f;
        }
    if (ped_disk_type_check_feature(t, PED_DISK_TYPE_PARTITION_TYPE_ID)) r.type_id = ped_partition_get_type_id(p);
    if (ped_disk_type_check_feature(t, PED_DISK_TYPE_PARTITION_TYPE_UUID)) {
        uint8_t *u = ped_partition_get_type_uuid(p);
        if (u) r.type_uuid = hex(u, 16);
        free(u);
    }
    if (ped_disk_type_check_feature(t, PED_DISK_TYPE_PARTITION_UUID)) {
        uint8_t *u = ped_partition_get_uuid(p);
        if (u) r.uuid = hex(u, 16);
        free(u);
    }
    return r;
}

DSnap snap(const PedDisk *d) {
    DSnap r;
    r.label = d->type->name;
    r.len = d->dev->length;
    for (int f = PED_DISK_FIRST_FLAG; f <= PED_DISK_LAST_FLAG; f++)
        if (ped_disk_is_flag_available(d, (PedDiskFlag)f)) {
            r.davail |= 1u << f;
            if (ped_disk_get_flag(d, (PedDiskFlag)f)) r.dflags |= 1u << f;
        }
    if (ped_disk_type_check_feature(d->type, PED_DISK_TYPE_DISK_UUID)) {
        uint8_t *u = ped_disk_get_uuid(d);
        if (u) r.uuid = hex(u, 16);
        free(u);
    }
    size_t guard = 0;
    for (PedPartition *p = nullptr; (p = ped_disk_next_partition(d, p));) {
        bool inner = (p->type & PED_PARTITION_LOGICAL) != 0;
        r.raw.push_back({p->num, p->type, p->geom.start, p->geom.end, inner});
        if (ped_partition_is_active(p)) r.parts.push_back(psnap(p));
        if (++guard > 100000) throw pbt::Fail{"list-cycle", "partition list does not end"};
    }
    return r;
}

std::string show(const PSnap &p) {
    std::string s = fmt("#%d type=%d [%lld,%lld]", p.num, p.type, (long long)p.s, (long long)p.e);
    if (p.has_name) s += " name='" + p.name + "'";
    if (p.flags) s += fmt(" flags=%x", p.flags);
    if (p.type_id >= 0) s += fmt(" id=%02x", p.type_id);
    if (!p.type_uuid.empty()) s += " tuuid=" + p.type_uuid;
    if (!p.uuid.empty()) s += " uuid=" + p.uuid;
    if (!p.fs.empty()) s += " fs=" + p.fs;
    return s;
}
std::string show(const DSnap &d, bool raw) {
    std::string s = fmt("%s len=%lld dflags=%x {", d.label.c_str(), (long long)d.len, d.dflags);
    for (auto &p : d.parts) s += "\n   " + show(p);
    if (raw)
        for (auto &p : d.raw)
            s += fmt("\n     raw #%d t=%d [%lld,%lld]", p.num, p.type, (long long)p.s, (long long)p.e);
    return s + "}";
}
static std::string pdiff(const PSnap &a, const PSnap &b, bool fs) {
    if (a.num != b.num) return fmt("number %d vs %d", a.num, b.num);
    if (a.type != b.type) return fmt("#%d kind %d vs %d", a.num, a.type, b.type);
    if (a.s != b.s || a.e != b.e)
        return fmt("#%d geometry [%lld,%lld] vs [%lld,%lld]", a.num, (long long)a.s, (long long)a.e, (long long)b.s, (long long)b.e);
    if (a.has_name != b.has_name || a.name != b.name) return fmt("#%d name '%s' vs '%s'", a.num, a.name.c_str(), b.name.c_str());
    if (a.avail != b.avail) return fmt("#%d available flags %x vs %x", a.num, a.avail, b.avail);
    if (a.flags != b.flags) return fmt("#%d flags %x vs %x", a.num, a.flags, b.flags);
    if (a.type_id != b.type_id) return fmt("#%d type id %x vs %x", a.num, a.type_id, b.type_id);
    if (a.type_uuid != b.type_uuid) return fmt("#%d type uuid %s vs %s", a.num, a.type_uuid.c_str(), b.type_uuid.c_str());
    if (a.uuid != b.uuid) return fmt("#%d uuid %s vs %s", a.num, a.uuid.c_str(), b.uuid.c_str());
    if (fs && a.fs != b.fs) return fmt("#%d fs '%s' vs '%s'", a.num, a.fs.c_str(), b.fs.c_str());
    return "";
}
std::string diff(const DSnap &a, const DSnap &b, bool fs, bool raw) {
    if (a.label != b.label) return "label " + a.label + " vs " + b.label;
    if (a.davail != b.davail) return fmt("available disk flags %x vs %x", a.davail, b.davail);
    if (a.dflags != b.dflags) return fmt("disk flags %x vs %x", a.dflags, b.dflags);
    if (a.uuid != b.uuid) return "disk uuid " + a.uuid + " vs " + b.uuid;
    if (a.parts.size() != b.parts.size()) return fmt("%zu partitions vs %zu", a.parts.size(), b.parts.size());
    for (size_t i = 0; i < a.parts.size(); i++) {
        auto s = pdiff(a.parts[i], b.parts[i], fs);
        if (!s.empty()) return s;
    }
    if (raw && !(a.raw == b.raw)) {
        for (size_t i = 0; i < std::max(a.raw.size(), b.raw.size()); i++) {
            if (i >= a.raw.size() || i >= b.raw.size()) return fmt("list length %zu vs %zu", a.raw.size(), b.raw.size());
            if (!(a.raw[i] == b.raw[i]))
                return fmt("list entry %zu: t=%d [%lld,%lld] vs t=%d [%lld,%lld]", i, a.raw[i].type, (long long)a.raw[i].s, (long long)a.raw[i].e,
                           b.raw[i].type, (long long)b.raw[i].s, (long long)b.raw[i].e);
        }
    }
    return "";
}

const std::vector<std::string> &writable_labels() {
    static std::vector<std::string> v = {"gpt", "msdos", "bsd", "sun", "mac", "dvh", "amiga", "pc98", "atari", "loop"};
    return v;
}
std::string gen_label(Ctx &c) {
    static const int w[] = {20, 26, 8, 8, 10, 10, 8, 8, 8, 2};
    int tot = 0;
    for (int x : w) tot += x;
    int v = (int)c.draw(tot - 1);
    for (int i = 0; i < 10; i++) {
        if (v < w[i]) return writable_labels()[i];
        v -= w[i];
    }
    return "gpt";
}

void World::reset() {
    setlocale(LC_ALL, "C.UTF-8");
    exc_install();
    exc_clear();
    g_policy = EXC_CANCEL;
    while (ped_exception) ped_exception_catch();
    mem_free_all();
    det_rng() = 42;
    memarch_install();
    ped_unit_set_default(PED_UNIT_COMPACT);
}
void World::close() {
    if (disk) ped_disk_destroy(disk);
    disk = nullptr;
    if (dev) ped_device_destroy(dev);
    dev = nullptr;
}

static PedSector minlen(const std::string &l, long long ss) {
    (void)ss;
    if (l == "gpt") return 80;
    if (l == "mac") return 300;
    return 300;
}

void World::gen_device(const std::string &lab) {
    label = lab;
    long long ss = 512;
    if (label != "pc98" && label != "atari") ss = (long long[]){512, 512, 4096, 2048, 1024}[c.draw(4)];
    static const std::map<std::string, PedSector> lim = {{"msdos", 1ll << 32}, {"mac", 1ll << 32}, {"dvh", 1ll << 32}, {"bsd", 1ll << 32},
                                                         {"amiga", 1ll << 32}, {"pc98", 1ll << 32}, {"sun", 1ll << 32}, {"atari", 1ll << 31},
                                                         {"gpt", 1ll << 33}, {"loop", 1ll << 33}};
    PedSector L = lim.at(label), len, lo = minlen(label, ss);
    if (tiny && c.chance(1, 20)) { lo = 1; len = c.biased(label == "msdos" ? 128 : 1, 400); }
    else switch (c.weighted({5, 5, 3, 1})) {
    case 0: len = c.range(2000, 40000); break;
    case 1: len = c.biased(lo, 1 << 26); break;
    case 2: len = c.range(1 << 20, L); break;
    default: len = L + c.range(-3, label == "gpt" || label == "loop" ? 1ll << 52 : 1ll << 34); break;
    }
    if (len < lo) len = lo;
    len = std::min<PedSector>(len, (1ll << 62) / ss);
    if (label == "atari" && len > INT32_MAX) len = INT32_MAX;
    m = mem_new(len, ss);
    if (c.chance(1, 3)) m->pss = ss * (1 << c.draw(3));
    m->bg = c.chance(1, 2) ? 7 : 0;
    int heads = 4, sects = 32;
    switch (c.weighted({4, 3, 2, 2})) {
    case 0: break;
    case 1: heads = 255; sects = 63; break;
    case 2: heads = 16; sects = 63; break;
    default: heads = 1 + c.draw(254); sects = 1 + c.draw(62); break;
    }
    if (len < 2 * heads * sects) heads = 4, sects = 32;
    if (len / (heads * sects) > INT32_MAX) heads = 255, sects = 63;
    PedSector cyl = len / (heads * sects);
    m->geom = {(int)std::min<PedSector>(cyl, INT32_MAX), heads, sects};
    if (c.chance(1, 4)) {
        m->min_io = 1ll << c.draw(6);
        m->opt_io = m->min_io << c.draw(6);
        m->align_off = c.chance(1, 4) ? c.draw(m->min_io - 1) : 0;
    }
    c.note("device label=%s len=%lld ss=%lld pss=%lld chs=%d/%d/%d bg=%u align=%d+%lld/%lld", label.c_str(), (long long)len, ss, m->pss,
           m->geom.cylinders, m->geom.heads, m->geom.sectors, m->bg, m->align_off, m->min_io, m->opt_io);
    c.mix(len);
    c.mix(ss);
    c.mix(label.data(), label.size());
    dev = mem_open(m);
}

bool World::make_label(const std::string &lab) {
    PedDiskType *t = ped_disk_type_get(lab.c_str());
    if (!t) c.fail("no-such-label", "label type %s is not registered", lab.c_str());
    disk = ped_disk_new_fresh(dev, t);
    if (!disk) {
        c.cls("fresh-refused:" + lab);
        return false;
    }
    label = lab;
    return true;
}

bool World::load() {
    if (disk) ped_disk_destroy(disk);
    disk = ped_disk_new(dev);
    return disk != nullptr;
}
void World::reopen() {
    close();
    dev = mem_open(m);
}

bool ConsSpec::ok(PedSector s, PedSector e) const {
    auto al = [](PedSector x, PedSector o, PedSector g) { return g ? ((x - o) % g) == 0 : x == o; };
    return al(s, so, sg) && al(e, eo, eg) && s >= ss && s <= se && e >= es && e <= ee && e - s + 1 >= min && e - s + 1 <= max;
}
std::string ConsSpec::str() const {
    return fmt("start=%lld mod %lld in [%lld,%lld], end=%lld mod %lld in [%lld,%lld], size [%lld,%lld]", (long long)so, (long long)sg, (long long)ss,
               (long long)se, (long long)eo, (long long)eg, (long long)es, (long long)ee, (long long)min, (long long)max);
}

static ConsSpec spec_of(const PedConstraint *k) {
    ConsSpec s;
    s.so = k->start_align->offset;
    s.sg = k->start_align->grain_size;
    s.eo = k->end_align->offset;
    s.eg = k->end_align->grain_size;
    s.ss = k->start_range->start;
    s.se = k->start_range->end;
    s.es = k->end_range->start;
    s.ee = k->end_range->end;
    s.min = k->min_size;
    s.max = k->max_size;
    return s;
}

ConsSpec World::gen_cons(PedSector s, PedSector e) {
    PedSector len = dev->length;
    PedConstraint *k = nullptr;
    ConsSpec r;
    switch (c.weighted({6, 4, 2, 2, 3})) {
    case 0: k = ped_constraint_any(dev); break;
    case 1: {
        PedGeometry g;
        if (ped_geometry_init(&g, dev, s, e - s + 1)) k = ped_constraint_exact(&g);
        break;
    }
    case 2: k = ped_device_get_optimal_aligned_constraint(dev); break;
    case 3: k = ped_device_get_minimal_aligned_constraint(dev); break;
    default: {
        r.sg = c.chance(1, 2) ? 1 : c.biased(1, 4096);
        r.so = c.chance(1, 2) ? 0 : c.range(0, r.sg);
        r.eg = c.chance(1, 2) ? 1 : c.biased(1, 4096);
        r.eo = c.chance(1, 2) ? 0 : c.range(0, r.eg);
        PedSector slack = c.biased(0, len / 4 + 1);
        r.ss = std::max<PedSector>(0, s - slack);
        r.se = std::min<PedSector>(len - 1, s + slack);
        slack = c.biased(0, len / 4 + 1);
        r.es = std::max<PedSector>(0, e - slack);
        r.ee = std::min<PedSector>(len - 1, e + slack);
        r.min = c.chance(1, 2) ? 1 : c.biased(1, std::max<PedSector>(1, e - s + 1));
        r.max = c.chance(1, 2) ? len : c.biased(r.min, len);
        return r;
    }
    }
    if (!k) {
        r.ss = 0; r.se = len - 1; r.es = 0; r.ee = len - 1; r.max = len;
        return r;
    }
    r = spec_of(k);
    ped_constraint_destroy(k);
    return r;
}
PedConstraint *World::make(const ConsSpec &k) {
    PedAlignment a, b;
    PedGeometry gs, ge;
    if (!ped_alignment_init(&a, k.so, k.sg) || !ped_alignment_init(&b, k.eo, k.eg)) return nullptr;
    if (!ped_geometry_init(&gs, dev, k.ss, k.se - k.ss + 1) || !ped_geometry_init(&ge, dev, k.es, k.ee - k.es + 1)) return nullptr;
    return ped_constraint_new(&a, &b, &gs, &ge, k.min, k.max);
}

std::vector<PedPartition *> World::active() {
    std::vector<PedPartition *> v;
    for (PedPartition *p = nullptr; (p = ped_disk_next_partition(disk, p));)
        if (ped_partition_is_active(p)) v.push_back(p);
    return v;
}
PedPartition *World::pick_active() {
    auto v = active();
    return v.empty() ? nullptr : v[c.draw(v.size() - 1)];
}

std::string World::gen_name() {
    static const char *const some[] = {"data", "", "a", "EFI system partition", "Linux", "swap", "root", "DH0", "untitled", "GEM", "Apple_Free"};
    int k = c.weighted({6, 4, 2, 1, 1});
    if (k == 0) return some[c.draw(sizeof some / sizeof *some - 1)];
    std::string s;
    if (k == 1) {
        int n = c.range(0, 16);
        for (int i = 0; i < n; i++) s += (char)c.range('a', 'z');
    } else if (k == 2) {
        int n = c.range(0, 80);
        for (int i = 0; i < n; i++) s += (char)c.range(' ', '~');
    } else if (k == 3) {
        int n = c.range(0, 40);
        static const char *const u[] = {"é", "ß", "日", "本", "Ω", "a", "😀"};
        for (int i = 0; i < n; i++) s += u[c.draw(6)];
    } else {
        int n = c.range(0, 12);
        for (int i = 0; i < n; i++) s += (char)c.range(1, 255);
    }
    return s;
}

const PedFileSystemType *World::gen_fs() {
    static const char *const n[] = {"ext2", "fat16", "fat32", "ntfs", "linux-swap(v1)", "hfs", "hfs+", "xfs", "ext4", "reiserfs", "btrfs",
                                    "affs1", "asfs", "apfs1", "sun-ufs", "hp-ufs", "jfs", "udf", "linux-swap(v0)", "freebsd-ufs", "affs7", "swsusp"};
    if (c.chance(1, 4) || label == "loop") return nullptr;   // on loop the contents decide
    return ped_file_system_type_get(n[c.draw(sizeof n / sizeof *n - 1)]);
}

OpRes World::op(std::initializer_list<int> w) {
    static const int dflt[OP_N] = {30, 10, 4, 8, 8, 14, 5, 4, 3, 2, 3, 0};
    int wt[OP_N], tot = 0, i = 0;
    for (i = 0; i < OP_N; i++) wt[i] = dflt[i];
    i = 0;
    for (int x : w) wt[i++] = x;
    for (i = 0; i < OP_N; i++) tot += wt[i];
    int v = (int)c.draw(tot - 1), k = 0;
    while (v >= wt[k]) v -= wt[k++];
    auto act = active();
    if (act.empty() && k != OP_DISKFLAG && k != OP_MINEXT && k != OP_DELALL) k = OP_ADD;
    bool hasname = ped_disk_type_check_feature(disk->type, PED_DISK_TYPE_PARTITION_NAME);
    if (k == OP_NAME && !hasname) k = OP_FLAG;
    OpRes r;
    r.kind = (OpKind)k;
    r.before = snap(disk);
    exc_clear();
    PedPartition *p = nullptr;
    if (k != OP_ADD && k != OP_DISKFLAG && k != OP_MINEXT && k != OP_DELALL) {
        p = act[c.draw(act.size() - 1)];
        r.part = p;
        r.target_before = psnap(p);
    }
    switch (k) {
    case OP_ADD: {
        int type = PED_PARTITION_NORMAL;
        bool hasext = ped_disk_type_check_feature(disk->type, PED_DISK_TYPE_EXTENDED);
        PedPartition *ext = hasext ? ped_disk_extended_partition(disk) : nullptr;
        if (hasext) {
            int t = ext ? c.weighted({5, 7, 1}) : c.weighted({5, 1, 4});
            type = t == 0 ? PED_PARTITION_NORMAL : t == 1 ? PED_PARTITION_LOGICAL : PED_PARTITION_EXTENDED;
        }
        r.req_type = type;
        // a free region of the right kind, or arbitrary sectors
        std::vector<std::pair<PedSector, PedSector>> fr;
        for (auto &x : r.before.raw)
            if ((x.type & PED_PARTITION_FREESPACE) && ((x.type & PED_PARTITION_LOGICAL) != 0) == (type == PED_PARTITION_LOGICAL))
                fr.push_back({x.s, x.e});
        PedSector s, e;
        if (!fr.empty() && !c.chance(1, 8)) {
            // prefer large regions
            size_t bi = c.draw(fr.size() - 1);
            size_t b2 = c.draw(fr.size() - 1);
            if (fr[b2].second - fr[b2].first > fr[bi].second - fr[bi].first) bi = b2;
            PedSector a = fr[bi].first, b = fr[bi].second;
            switch (c.weighted({4, 3, 3, 2, 2})) {
            case 0: {   // a slice of the region
                s = a + c.range(0, (b - a) / 3);
                e = s + c.biased(0, (b - s) / 2);
                break;
            }
            case 1: s = a; e = b; break;
            case 2: s = c.biased(a, b); e = c.biased(s, b); break;
            case 3: s = a; e = c.biased(a, b); break;
            default: {  // cylinder or MiB multiples
                PedSector u = c.chance(1, 2) ? (PedSector)m->geom.heads * m->geom.sectors : std::max<PedSector>(1, 1048576 / m->ss);
                s = (a + u - 1) / u * u;
                if (s > b) s = a;
                PedSector n = (b - s + 1) / u;
                e = n > 0 ? s + u * c.range(1, n) - 1 : b;
                break;
            }
            }
        } else {
            s = c.biased(0, dev->length - 1);
            e = c.biased(s, dev->length - 1);
        }
        r.rs = s;
        r.re = e;
        r.cons = gen_cons(s, e);
        const PedFileSystemType *fs = type == PED_PARTITION_EXTENDED ? nullptr : gen_fs();
        r.desc = fmt("add type=%d [%lld,%lld] fs=%s cons{%s}", type, (long long)s, (long long)e, fs ? fs->name : "-", r.cons.str().c_str());
        c.note("%s", r.desc.c_str());
        PedConstraint *con = make(r.cons);
        PedPartition *np = ped_partition_new(disk, (PedPartitionType)type, fs, s, e);
        if (np) {
            ped_partition_set_system(np, fs);
            r.has_cons = con != nullptr;
            r.ok = con && ped_disk_add_partition(disk, np, con);
            if (r.ok) {
                p = r.part = np;
            } else
                ped_partition_destroy(np);
        }
        if (con) ped_constraint_destroy(con);
        break;
    }
    case OP_RESIZE: {
        // partitions read from a damaged table may lie far outside the device
        PedSector s = std::min<PedSector>(p->geom.start, 1ll << 61), e = std::min<PedSector>(p->geom.end, 1ll << 61);
        switch (c.weighted({4, 3, 2, 2})) {
        case 0: e = c.biased(s, std::min<PedSector>(dev->length - 1, e + std::min<PedSector>(e - s + 1000, 1ll << 40))); break;
        case 1: s = c.biased(std::max<PedSector>(0, s - 1000), e); break;
        case 2: s = c.biased(0, dev->length - 1); e = c.biased(s, dev->length - 1); break;
        default: s = std::max<PedSector>(0, s + c.range(-300, 300)); e = std::min<PedSector>(dev->length - 1, e + c.range(-300, 300)); break;
        }
        if (e < s) e = s;
        if (s >= dev->length) s = e = dev->length - 1;
        r.rs = s;
        r.re = e;
        r.cons = gen_cons(s, e);
        r.has_cons = true;
        r.desc = fmt("resize #%d to [%lld,%lld] cons{%s}", p->num, (long long)s, (long long)e, r.cons.str().c_str());
        c.note("%s", r.desc.c_str());
        PedConstraint *con = make(r.cons);
        if (con) {
            r.ok = ped_disk_set_partition_geom(disk, p, con, s, e);
            ped_constraint_destroy(con);
        } else
            r.has_cons = false;
        break;
    }
    case OP_MAXIMIZE: {
        r.cons = gen_cons(p->geom.start, p->geom.end);
        r.has_cons = true;
        r.desc = fmt("maximize #%d cons{%s}", p->num, r.cons.str().c_str());
        c.note("%s", r.desc.c_str());
        PedConstraint *con = make(r.cons);
        if (con) {
            r.ok = ped_disk_maximize_partition(disk, p, con);
            ped_constraint_destroy(con);
        } else
            r.has_cons = false;
        break;
    }
    case OP_DELETE:
        r.desc = fmt("delete #%d", p->num);
        c.note("%s", r.desc.c_str());
        r.ok = ped_disk_delete_partition(disk, p);
        if (r.ok) p = r.part = nullptr;
        break;
    case OP_NAME: {
        r.name = gen_name();
        r.desc = fmt("name #%d '%s'", p->num, r.name.c_str());
        c.note("%s", r.desc.c_str());
        r.ok = ped_partition_set_name(p, r.name.c_str());
        break;
    }
    case OP_FLAG: {
        std::vector<int> av;
        for (int f = PED_PARTITION_FIRST_FLAG; f <= PED_PARTITION_LAST_FLAG; f++)
            if (r.target_before.avail & (1u << f)) av.push_back(f);
        r.flag = av.empty() || c.chance(1, 8) ? (int)c.range(PED_PARTITION_FIRST_FLAG, PED_PARTITION_LAST_FLAG) : c.pick(av);
        r.state = !c.chance(1, 3);
        r.desc = fmt("flag #%d %s=%d", p->num, ped_partition_flag_get_name((PedPartitionFlag)r.flag), r.state);
        c.note("%s", r.desc.c_str());
        r.ok = ped_partition_set_flag(p, (PedPartitionFlag)r.flag, r.state);
        break;
    }
    case OP_SYSTEM: {
        const PedFileSystemType *fs = p->type & PED_PARTITION_EXTENDED ? nullptr : gen_fs();
        r.desc = fmt("set_system #%d %s", p->num, fs ? fs->name : "-");
        c.note("%s", r.desc.c_str());
        r.ok = ped_partition_set_system(p, fs);
        break;
    }
    case OP_TYPEID: {
        if (!ped_disk_type_check_feature(disk->type, PED_DISK_TYPE_PARTITION_TYPE_ID)) { r.desc = "nop"; break; }
        static const int ids[] = {0x83, 0x82, 0x8e, 0xfd, 0x07, 0x0b, 0x0c, 0x0e, 0x06, 0xef, 0x41, 0xf0, 0x12, 0x27, 0x84, 0x17, 0x1b, 0xea, 0xa5, 0x04, 0x01, 0x11, 0x14, 0x16, 0x1c, 0x1e};
        int id = c.chance(3, 4) ? ids[c.draw(sizeof ids / sizeof *ids - 1)] : (int)c.range(0, 255);
        if (id == 0xee) id = 0xed;   // would make it a GPT protective table, by request
        r.desc = fmt("type_id #%d %02x", p->num, id);
        c.note("%s", r.desc.c_str());
        r.ok = ped_partition_set_type_id(p, id);
        r.state = id;
        break;
    }
    case OP_TYPEUUID: {
        if (!ped_disk_type_check_feature(disk->type, PED_DISK_TYPE_PARTITION_TYPE_UUID)) { r.desc = "nop"; break; }
        uint8_t u[16];
        for (auto &x : u) x = (uint8_t)c.draw(255);
        bool nz = false;
        for (auto x : u) nz |= x != 0;
        if (!nz) u[3] = 1;
        r.desc = fmt("type_uuid #%d %s", p->num, hex(u, 16).c_str());
        c.note("%s", r.desc.c_str());
        r.ok = ped_partition_set_type_uuid(p, u);
        r.name = hex(u, 16);
        break;
    }
    case OP_DISKFLAG: {
        r.flag = (int)c.range(PED_DISK_FIRST_FLAG, PED_DISK_LAST_FLAG);
        r.state = (int)c.draw(1);
        r.desc = fmt("disk_flag %d=%d", r.flag, r.state);
        c.note("%s", r.desc.c_str());
        r.ok = ped_disk_set_flag(disk, (PedDiskFlag)r.flag, r.state);
        break;
    }
    case OP_MINEXT:
        r.desc = "minimize_extended";
        c.note("%s", r.desc.c_str());
        r.ok = ped_disk_minimize_extended_partition(disk);
        break;
    case OP_DELALL:
        r.desc = "delete_all";
        c.note("%s", r.desc.c_str());
        r.ok = ped_disk_delete_all(disk);
        break;
    }
    r.nexc = g_exc.size();
    c.note("   -> %s %s", r.ok ? "ok" : "refused", exc_dump().c_str());
    if (r.part) r.target_after = psnap(r.part);
    r.after = snap(disk);
    if (r.ok && r.kind <= OP_RESIZE) c.note("   now #%d [%lld,%lld]", r.target_after.num, (long long)r.target_after.s, (long long)r.target_after.e);
    c.mix(k);
    c.mix(r.ok);
    c.mix(r.target_after.s);
    c.mix(r.target_after.e);
    c.cls(fmt("%s:%s:%s", label.c_str(),
              (const char *[]){"add", "resize", "maximize", "delete", "name", "flag", "system", "typeid", "typeuuid", "diskflag", "minext", "delall"}[k],
              r.ok ? "ok" : "no"));
    return r;
}

// ----------------------------------------------------------------- C02
std::string tiling_error(const PedDisk *d) {
    struct E { PedSector s, e; int type; int num; };
    std::vector<E> top, inner;
    const PedPartition *ext = nullptr;
    int guard = 0;
    std::set<int> nums;
    // walk the raw lists, checking the links
    const PedPartition *prev = nullptr;
    for (const PedPartition *p = d->part_list; p; prev = p, p = p->next) {
        if (++guard > 200000) return "list does not end";
        if (p->prev != prev) return fmt("broken prev link at [%lld,%lld]", (long long)p->geom.start, (long long)p->geom.end);
        if (p->disk != d) return "partition belongs to another disk";
        if (p->type & PED_PARTITION_LOGICAL) return "logical partition in the top-level list";
        if (p->geom.length != p->geom.end - p->geom.start + 1) return "inconsistent geometry";
        if (p->geom.dev != d->dev) return "geometry on another device";
        top.push_back({p->geom.start, p->geom.end, p->type, p->num});
        if (p->type & PED_PARTITION_EXTENDED) {
            if (ext) return "two extended partitions";
            ext = p;
            const PedPartition *ip = nullptr;
            for (const PedPartition *q = p->part_list; q; ip = q, q = q->next) {
                if (++guard > 200000) return "inner list does not end";
                if (q->prev != ip) return "broken prev link inside extended";
                if (q->disk != d) return "logical belongs to another disk";
                if (!(q->type & PED_PARTITION_LOGICAL)) return fmt("non-logical entry inside extended (t=%d)", q->type);
                if (q->geom.length != q->geom.end - q->geom.start + 1) return "inconsistent geometry";
                inner.push_back({q->geom.start, q->geom.end, q->type, q->num});
            }
        } else if (p->part_list)
            return "non-extended partition has an inner list";
    }
    auto check = [&](std::vector<E> &v, PedSector lo, PedSector hi, bool strict, const char *what) -> std::string {
        PedSector at = lo;
        int lastfree = 0;
        for (auto &x : v) {
            if (x.e < x.s) return fmt("%s: empty or negative entry [%lld,%lld]", what, (long long)x.s, (long long)x.e);
            if (x.s < at) return fmt("%s: entry t=%d [%lld,%lld] overlaps what precedes it (next free sector %lld)", what, x.type, (long long)x.s, (long long)x.e, (long long)at);
            if (x.s > at && strict) return fmt("%s: sectors [%lld,%lld] are not accounted for", what, (long long)at, (long long)x.s - 1);
            if (x.e > hi) return fmt("%s: entry t=%d [%lld,%lld] ends beyond %lld", what, x.type, (long long)x.s, (long long)x.e, (long long)hi);
            bool fr = (x.type & PED_PARTITION_FREESPACE) != 0;
            if (fr && lastfree) return fmt("%s: adjacent free entries at %lld", what, (long long)x.s);
            lastfree = fr;
            at = x.e + 1;
            strict = true;
            if (!(x.type & (PED_PARTITION_FREESPACE | PED_PARTITION_METADATA))) {
                if (x.num < 0) return fmt("%s: active partition without a number [%lld,%lld]", what, (long long)x.s, (long long)x.e);
                if (!nums.insert(x.num).second) return fmt("%s: number %d used twice", what, x.num);
            }
        }
        if (at != hi + 1) return fmt("%s: sectors [%lld,%lld] at the end are not accounted for", what, (long long)at, (long long)hi);
        return "";
    };
    auto s = check(top, 0, d->dev->length - 1, true, "disk");
    if (!s.empty()) return s;
    // the first sector of an extended partition holds its own table and may be unlisted
    if (ext) {
        if (inner.empty() && ext->geom.length == 1) return "";
        if (!inner.empty() && inner[0].s > ext->geom.start + 1) return fmt("extended: sectors before %lld are not accounted for", (long long)inner[0].s);
        if (!inner.empty() && inner[0].s < ext->geom.start) return fmt("extended: entry at %lld lies before the extended partition", (long long)inner[0].s);
        if (inner.empty()) return "extended: no entries";
        s = check(inner, ext->geom.start, ext->geom.end, false, "extended");
        if (!s.empty()) return s;
    }
    // counts and lookups
    int prim = 0, last = -1;
    for (auto &x : top)
        if (!(x.type & (PED_PARTITION_FREESPACE | PED_PARTITION_METADATA))) { prim++; last = std::max(last, x.num); }
    for (auto &x : inner)
        if (!(x.type & (PED_PARTITION_FREESPACE | PED_PARTITION_METADATA))) last = std::max(last, x.num);
    if (ped_disk_get_primary_partition_count(d) != prim) return fmt("primary count reported %d, listed %d", ped_disk_get_primary_partition_count(d), prim);
    int mp = ped_disk_get_max_primary_partition_count(d);
    if (prim > mp) return fmt("%d primary partitions, label allows %d", prim, mp);
    if (ped_disk_get_last_partition_num(d) != last) return fmt("last number reported %d, listed %d", ped_disk_get_last_partition_num(d), last);
    struct Open { PedDevice *d; Open(PedDevice *d) : d(d) { ped_device_open(d); } ~Open() { ped_device_close(d); } } op(d->dev);
    int sup;
    if (ped_disk_get_max_supported_partition_count(d, &sup) && last > sup + (!strcmp(d->type->name, "dvh") ? 15 : 0) /* boot files */) return fmt("partition number %d, label supports %d", last, sup);
    for (auto *v : {&top, &inner})
        for (auto &x : *v) {
            if (x.type & (PED_PARTITION_FREESPACE | PED_PARTITION_METADATA)) continue;
            PedPartition *q = ped_disk_get_partition(d, x.num);
            if (!q || q->geom.start != x.s) return fmt("lookup of number %d finds something else", x.num);
        }
    return "";
}
