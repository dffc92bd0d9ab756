// C20: file systems made by the standard tools (with random parameters) are recognised, wherever
// they lie.  The tools run on a scratch file; its contents are then placed on an in-memory device.
#include "hist.h"
#include "fstpl.h"
#include "tool.h"

struct Img {
    std::string expect;                  // name of the type, empty for none
    std::string desc;
    uint64_t bytes = 0;
    std::map<uint64_t, std::vector<uint8_t>> sec;   // 512-byte units
    bool exact = false;                  // the file system depends on the size of its partition
    int64_t lo = 0, hi = 0;              // bytes the reported extent may have
};

static std::string word(Ctx &c, int max) {
    std::string s;
    int n = (int)c.draw(max);
    for (int i = 0; i < n; i++) s += (char)c.pickl<int>({'a', 'B', '7', '_', 'z', 'Q', 'x', '-'});
    if (!s.empty() && s[0] == '-') s[0] = 'a';
    return s;
}

static bool mkfs(Ctx &c, Scratch &sc, long long ss, Img &im) {
    const uint64_t M = 1 << 20;
    std::vector<std::string> a;
    auto add = [&](std::initializer_list<std::string> l) { a.insert(a.end(), l); };
    std::string lbl;
    int kind = c.weighted({4, 4, 5, 2, 2, 4, 2, 2, 2, 2, 3, 6, 3, 2, 2});
    static const char *K[] = {"ext2", "ext3", "ext4", "btrfs", "f2fs", "xfs", "jfs", "nilfs2", "reiserfs", "udf", "swap", "fat", "hfs", "hfsplus", "hfsx"};
    std::string k = K[kind];
    if (ss != 512 && k.compare(0, 3, "hfs") == 0) k = "fat";
    if (ss != 512 && ss != 4096 && k == "f2fs") k = "jfs";
    uint64_t sz = 0;
    std::string s = fmt("%lld", ss);
    im.lo = 1;
    if (k == "ext2" || k == "ext3" || k == "ext4") {
        long long bs = c.pickl<long long>({1024, 2048, 4096});
        if (bs < ss) bs = ss;
        sz = c.biased(100, 20000) * bs + 512 * c.draw(7);
        if (k != "ext2" && sz < 3000 * (uint64_t)bs) sz += 3000 * bs;
        add({"mke2fs", "-F", "-q", "-t", k, "-b", fmt("%lld", bs)});
        if (c.chance(1, 3)) add({"-I", c.pickl<const char *>({"128", "256"})});
        if (c.chance(1, 3)) add({"-m", fmt("%d", (int)c.draw(20))});
        if (c.chance(1, 4)) add({"-g", fmt("%lld", 8 * (long long)c.range(32, bs))});
        if (c.chance(1, 4)) add({"-N", fmt("%d", (int)c.range(16, 2000))});
        if (k == "ext4" && c.chance(1, 2)) {
            std::string f;
            static const char *F[] = {"extent", "64bit", "flex_bg", "huge_file", "uninit_bg", "dir_nlink"};
                        for (auto x : F) { if (c.chance(1, 2)) f += std::string(",^") + x; }
            if (!f.empty()) {
                // leave nothing to the defaults
                f.clear();
                int keep = (int)c.range(1, 63);
                for (int i = 0; i < 6; i++) f += std::string(keep >> i & 1 ? "," : ",^") + F[i];
                f += ",^metadata_csum";
                if (!(keep & 1)) f += ",^64bit";
                if (!(keep & ~3)) f += ",huge_file";
            }
            if (c.chance(1, 3)) f += ",^has_journal";
            if (c.chance(1, 4)) f += ",^resize_inode";
            if (!f.empty()) add({"-O", f.substr(1)});
        } else if (k != "ext4" && c.chance(1, 2)) {
            std::string f;
            for (auto x : {"dir_index", "sparse_super", "resize_inode", "filetype", "large_file", "ext_attr"}) if (c.chance(1, 2)) f += std::string(c.chance(1, 2) ? "," : ",^") + x;
            if (!f.empty()) add({"-O", f.substr(1)});
        }
        if (k == "ext2" && c.chance(1, 8)) add({"-r", "0"});
        lbl = word(c, 16);
        if (!lbl.empty()) add({"-L", lbl});
        if (sz > 32 * M) sz = 32 * M;
        im.lo = sz / 2;
        im.expect = k;
    } else if (k == "btrfs") {
        sz = c.range(112, 260) * M + 4096 * c.draw(9);
        add({"mkfs.btrfs", "-q", "-f"});
        if (c.chance(1, 3)) add({"-M", "-n", "4096"});
        else if (c.chance(1, 2)) add({"-n", c.pickl<const char *>({"4096", "16384", "65536"})});
        if (c.chance(1, 3)) add({"--csum", c.pickl<const char *>({"crc32c", "xxhash", "sha256", "blake2"})});
        lbl = word(c, 20);
        if (!lbl.empty()) add({"-L", lbl});
        im.expect = "btrfs";
    } else if (k == "f2fs") {
        sz = c.range(48, 200) * M + 512 * c.draw(9);
        add({"mkfs.f2fs", "-q", "-f"});
        if (ss == 4096) add({"-w", "4096"});
        if (c.chance(1, 3)) add({"-s", fmt("%d", (int)c.range(1, 2))});
        if (c.chance(1, 3)) add({"-o", fmt("%d", (int)c.range(5, 20))});
        if (c.chance(1, 3)) add({"-O", "extra_attr,inode_checksum,sb_checksum"});
        lbl = word(c, 20);
        if (!lbl.empty()) add({"-l", lbl});
        im.expect = "f2fs";
    } else if (k == "xfs") {
        sz = c.range(300, 500) * M + 4096 * c.draw(100);
        long long bs = c.pickl<long long>({4096, 1024, 2048, 512, 8192});
        if (bs < ss) bs = ss;
        add({"mkfs.xfs", "-q", "-f", "-s", "size=" + s});
        bool crc = bs >= 1024 && c.chance(2, 3);
        if (!crc) add({"-m", "crc=0", "-b", fmt("size=%lld", bs)});
        else add({"-m", fmt("crc=1,finobt=%d", (int)c.draw(1)), "-b", fmt("size=%lld", bs)});
        if (c.chance(1, 3)) add({"-d", fmt("agcount=%d", (int)c.range(2, 12))});
        lbl = word(c, 12);
        if (!lbl.empty()) add({"-L", lbl});
        im.lo = sz / 4 * 3;
        im.expect = "xfs";
    } else if (k == "jfs") {
        sz = c.range(16, 80) * M + 512 * c.draw(100);
        add({"mkfs.jfs", "-q", "-f"});
        if (c.chance(1, 3)) add({"-s", fmt("%d", (int)c.range(1, 4))});
        if (c.chance(1, 4)) add({"-O"});
        lbl = word(c, 11);
        if (!lbl.empty()) add({"-L", lbl});
        im.lo = sz / 2;
        im.expect = "jfs";
    } else if (k == "nilfs2") {
        sz = c.range(130, 200) * M + 512 * c.draw(100);
        long long bs = c.pickl<long long>({4096, 1024, 2048});
        if (bs < ss) bs = ss;
        add({"mkfs.nilfs2", "-q", "-f", "-b", fmt("%lld", bs)});
        if (c.chance(1, 3)) add({"-B", fmt("%d", 16 << c.draw(4))});
        lbl = word(c, 20);
        if (!lbl.empty()) add({"-L", lbl});
        im.exact = true;
        im.expect = "nilfs2";
    } else if (k == "reiserfs") {
        sz = c.range(34, 60) * M + 512 * c.draw(100);
        long long bs = c.pickl<long long>({4096, 1024, 2048, 8192});
        if (bs < ss) bs = ss;
        add({"mkfs.reiserfs", "-q", "-f", "-f", "-b", fmt("%lld", bs)});
        if (c.chance(1, 3)) add({"--format", "3.5"});
        lbl = word(c, 15);
        if (!lbl.empty()) add({"-l", lbl});
        im.lo = sz / 4 * 3;
        im.expect = "reiserfs";
    } else if (k == "udf") {
        sz = c.range(3, 20) * M + 512 * c.draw(100);
        long long bs = c.pickl<long long>({512, 2048, 4096, 1024, 8192, 16384, 32768});
        if (bs < ss) bs = ss;
        // the end of media of fewer blocks is not searched for an anchor
        if (sz < 600 * (uint64_t)bs) sz += 600 * bs;
        sz = sz / bs * bs;
        add({"mkudffs", "-b", fmt("%lld", bs)});
        if (c.chance(1, 2)) add({"-m", "hd"});
        if (c.chance(1, 2)) add({"-r", c.pickl<const char *>({"2.01", "1.02", "1.50", "2.50", "2.60"})});
        lbl = word(c, 12);
        if (!lbl.empty()) add({"-l", lbl});
        im.exact = c.chance(1, 2);
        im.expect = "udf";
    } else if (k == "swap") {
        sz = c.biased(10, 50000) * 4096 + 512 * c.draw(9);
        add({"mkswap"});
        lbl = word(c, 15);
        if (!lbl.empty()) add({"-L", lbl});
        im.lo = (int64_t)(sz / 4096 - 1) * 4096;
        im.expect = "linux-swap(v1)";
    } else if (k == "fat") {
        int f = (int)c.pickl<int>({16, 32, 12});
        long long cs = 1ll << c.draw(5);
        long long cl = f == 12 ? c.biased(20, 4080) : f == 16 ? c.biased(4100, 65500) : c.biased(65600, 130000);
        if (c.chance(1, 3)) cl = f == 12 ? 4084 - c.draw(30) : f == 16 ? (c.chance(1, 2) ? 4090 + c.draw(60) : 65524 - c.draw(300)) : 65530 + c.draw(300);
        if (ss > 512 && cs > 8) cs = 8;
        sz = cl * cs * ss + 40 * ss + cl * 4 + 512 * c.draw(9);
        if (sz > 1200 * M) sz = 1200 * M;
        add({"mkfs.fat", "-F", fmt("%d", f), "-s", fmt("%lld", cs), "-S", s});
        if (c.chance(1, 3)) add({"-f", fmt("%d", (int)c.range(1, 4))});
        if (c.chance(1, 3)) add({"-R", fmt("%d", (int)c.range(f == 32 ? 8 : 1, 64))});
        if (f != 32 && c.chance(1, 3)) add({"-r", fmt("%d", 16 * (int)c.range(2, 60))});
        if (c.chance(1, 4)) add({"-g", fmt("%d/%d", c.pickl<int>({255, 16, 64, 2}), c.pickl<int>({63, 32, 17}))});
        if (c.chance(1, 4)) add({"-a"});
        if (c.chance(1, 4)) add({"-h", fmt("%d", (int)c.draw(100000))});
        lbl = word(c, 11);
        if (!lbl.empty()) add({"-n", lbl});
        im.lo = sz / 4 * 3;
        im.expect = f == 12 ? "" : f == 16 ? "fat16" : "fat32";
    } else {
        sz = c.range(1, 40) * M + 512 * c.draw(20);
        if (k == "hfs") add({"mkfs.hfs", "-h"});
        else add({"mkfs.hfsplus"});
        if (k == "hfsx") add({"-s"});
        if (k != "hfs" && c.chance(1, 3)) add({"-b", c.pickl<const char *>({"512", "1024", "4096", "8192"})});
        if (k != "hfs" && c.chance(1, 4)) add({"-J"});
        if (k == "hfs" && c.chance(1, 3)) add({"-b", fmt("%d", 512 * (int)c.range(1 + sz / 65000 / 512, 1 + sz / 65000 / 512 + 20))});
        if (k != "hfs" && c.chance(1, 4)) add({"-n", c.pickl<const char *>({"c=8192", "e=4096", "c=4096,e=1024"})});
        lbl = word(c, 20);
        if (!lbl.empty()) add({"-v", lbl});
        im.lo = sz / 4 * 3;
        im.expect = k == "hfs" ? "hfs" : k == "hfsx" ? "hfsx" : "hfs+";
    }
    a.push_back(sc.file);
    im.bytes = sz;
    im.hi = sz;
    im.desc = fmt("%llu bytes:", (unsigned long long)sz);
    for (size_t i = 0; i + 1 < a.size(); i++) im.desc += " " + a[i];
    int fd = open(sc.file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, sz)) { if (fd >= 0) close(fd); return false; }
    std::string out;
    int r = run_tool(a, &out);
    struct stat st;
    bool ok = r == 0 && !fstat(fd, &st) && (uint64_t)st.st_size == sz;
    c.cls(k + (ok ? "" : ": tool refused"));
    if (ok) load_sparse(fd, sz, im.sec);
    else
        c.note("%s -> %d %s", im.desc.c_str(), r, out.substr(0, 200).c_str());
    close(fd);
    unlink(sc.file.c_str());
    return ok;
}

static void w32(std::vector<uint8_t> &b, size_t o, uint32_t v, bool big) { for (int i = 0; i < 4; i++) b[o + i] = v >> (big ? 24 - 8 * i : 8 * i); }
// formats for which no tool is installed, written from their descriptions
static void synth(Ctx &c, long long ss, Img &im) {
    auto S = [&](uint64_t s) -> std::vector<uint8_t> & { auto &v = im.sec[s]; if (v.empty()) v.assign(512, 0); return v; };
    int k = ss == 512 ? c.weighted({3, 2, 2, 3, 3, 3, 2, 2}) : c.weighted({3, 2, 2, 3, 3});
    uint64_t n;   // sectors
    im.lo = 1;
    if (k == 0) {   // ntfs: the volume is followed by the spare boot sector
        n = c.biased(100, 1 << 24);
        auto &b = S(0);
        memcpy(&b[0], "\xeb\x52\x90NTFS    ", 11);
        b[11] = ss & 255; b[12] = ss >> 8; b[13] = 1 << c.draw(6);
        b[21] = 0xf8; b[24] = 63; b[26] = 255; w32(b, 0x24, 0x800080, false);
        w32(b, 0x28, (uint32_t)(n - 1), false); w32(b, 0x2c, (n - 1) >> 32, false);
        for (int i = 0x54; i < 510; i++) b[i] = (uint8_t)c.pickl<int>({0xfa, 0x33, 0x8e, 0x41, 0, 0x7c});
        b[510] = 0x55; b[511] = 0xaa;
        if (ss == 512) S(n - 1) = b;
        im.lo = (n - 1) * ss;
        im.expect = "ntfs";
    } else if (k == 1 || k == 2) {
        n = c.biased(10, 50000) * (4096 / ss);
        auto &b = S(7);
        memcpy(&b[502], k == 1 ? "SWAP-SPACE" : "S1SUSPEND\0", 10);
        if (k == 1) for (int i = 0; i < 500; i++) b[i] = 0xff;
        im.expect = k == 1 ? "linux-swap(v0)" : "swsusp";
        if (k == 2) { auto &h = S(2); w32(h, 0, 1, false); w32(h, 4, n * ss / 4096 - 1, false); }
    } else if (k == 3 || k == 4) {
        bool big = c.chance(1, 2);
        uint32_t fsz = c.pickl<int>({1024, 512, 2048, 4096}), frag = c.pickl<int>({8, 4, 2, 1}), nf;
        while (fsz * frag < 4096) frag *= 2;
        if (frag > 8) { frag = 8; }
        nf = c.range(64, 30000) / frag * frag;
        n = (uint64_t)nf * fsz / ss;
        if (n * ss < 16384) n = 16384 / ss;
        auto &b = S(16);
        w32(b, 36, nf, big); w32(b, 48, fsz * frag, big); w32(b, 52, fsz, big); w32(b, 56, frag, big);
        w32(S(18), 1372 - 1024, k == 3 ? 0x011954 : c.pickl<uint32_t>({0x095014, 0x195612, 0x05231994}), big);
        im.expect = k == 3 ? "sun-ufs" : "hp-ufs";
        if (nf && fsz >= (uint32_t)ss) im.lo = (int64_t)nf * fsz;
    } else if (k == 5) {
        n = c.biased(10, 100000);
        bool amu = c.chance(1, 3);
        int v = (int)c.draw(amu ? 6 : 7);
        static const uint32_t A[] = {0x6d754653, 0x6d754600, 0x6d754601, 0x6d754602, 0x6d754603, 0x6d754604, 0x6d754605};
        static const char *N[] = {"amufs", "amufs0", "amufs1", "amufs2", "amufs3", "amufs4", "amufs5"};
        w32(S(0), 0, amu ? A[v] : 0x444f5300 + v, true);
        uint64_t root = (2 + n - 1) / 2;
        auto &b = S(root);
        w32(b, 0, 2, true); w32(b, 12, 72, true); w32(b, 508, 1, true); w32(b, 312, 0xffffffff, true);
        std::string nm = word(c, 30);
        b[432] = nm.size(); memcpy(&b[433], nm.data(), nm.size());
        uint32_t s = 0;
        for (int i = 0; i < 512; i += 4) s += (uint32_t)b[i] << 24 | b[i + 1] << 16 | b[i + 2] << 8 | b[i + 3];
        w32(b, 20, -s, true);
        im.expect = amu ? N[v] : fmt("affs%d", v);
        im.exact = true;
    } else if (k == 6) {
        n = c.biased(10, 100000);
        int v = 1 + (int)c.draw(1);
        w32(S(0), 0, 0x50463100 + v, true);
        w32(S(2), 0, 0x50463100 + v, true);
        im.expect = fmt("apfs%d", v);
    } else {
        n = c.biased(10, 100000);
        im.expect = "asfs";
        im.exact = true;
        // two root blocks that name the byte range of the partition: filled in on placement
        S(0); S(n - 1);
    }
    im.bytes = n * ss;
    im.hi = im.bytes;
    im.desc = fmt("%s of %llu sectors, written from its description", im.expect.c_str(), (unsigned long long)n);
    c.cls(im.expect.substr(0, 4) + " (synthetic)");
}

static void plant(MemDev *m, PedSector at, const std::map<uint64_t, std::vector<uint8_t>> &sec) {
    for (auto &x : sec) put512(m, at * (m->ss / 512) + x.first, x.second.data());
}

static std::string name_of(const PedFileSystemType *t) { return t ? t->name : ""; }

static void check(World &w, Ctx &c, const Img &im, PedSector at, PedSector len) {
    PedGeometry *g = ped_geometry_new(w.dev, at, len);
    if (!g) c.fail("C20:geometry", "no geometry %lld+%lld", (long long)at, (long long)len);
    std::string got = name_of(ped_file_system_probe(g));
    std::string all, x;
    PedFileSystemType *t = nullptr;
    while ((t = ped_file_system_type_get_next(t))) {
        ped_exception_fetch_all();
        PedGeometry *r = ped_file_system_probe_specific(t, g);
        ped_exception_catch();
        ped_exception_leave_all();
        if (!r) continue;
        all += fmt(" %s:%lld+%lld", t->name, (long long)(r->start - at), (long long)r->length);
        bool mine = im.expect == t->name;
        PedSector s = r->start, e = r->end;
        ped_geometry_destroy(r);
        if (!mine && x.empty()) x = fmt("it is also taken for %s", t->name);
        if (s < at || e > at + len - 1) x = fmt("the reported extent [%lld, %lld] of %s is not within the partition", (long long)(s - at), (long long)(e - at), t->name);
        else if (mine && s != at) x = fmt("it starts at %lld in its partition", (long long)(s - at));
        else if (mine && ((e - s + 1) * w.m->ss < im.lo || ((e - s + 1) * w.m->ss > im.hi && im.lo > 1)))
            x = fmt("the reported extent of %lld bytes is not that of the file system (%lld to %lld bytes)", (long long)(e - s + 1) * w.m->ss, (long long)im.lo, (long long)im.hi);
    }
    ped_geometry_destroy(g);
    c.note("  at %lld+%lld of %lld: '%s' (specific:%s)", (long long)at, (long long)len, (long long)w.dev->length, got.c_str(), all.c_str());
    if (got != im.expect) c.fail(fmt("C20:name:%s:%s:%lld", im.expect.c_str(), got.c_str(), w.m->ss).c_str(), "'%s' is taken for '%s' (%s)", im.expect.c_str(), got.c_str(), im.desc.c_str());
    if (!x.empty()) c.fail(fmt("C20:extent:%s:%lld", im.expect.c_str(), w.m->ss).c_str(), "%s: %s (%s)", im.expect.c_str(), x.c_str(), im.desc.c_str());
}

static const Template &tpl(Ctx &c) { return g_tpl[c.draw(18)]; }

static void place(World &w, Ctx &c, Img im, long long ss) {
    w.reset();
    PedSector n = (im.bytes + ss - 1) / ss;
    PedSector slack = im.exact || c.chance(1, 2) ? 0 : c.biased(0, c.chance(1, 4) ? 4 * n : 5000);
    if (im.exact) n = im.bytes / ss;
    PedSector len = n + slack;
    int lk = im.desc.find(" label") != std::string::npos ? 0 : c.weighted({4, 3, 3});   // no label, gpt, msdos
    const PedSector MIN = lk == 1 ? (ss == 512 ? 34 : 34) : lk == 2 ? 1 : 0;
    PedSector at = c.biased(MIN, 100000);
    if (c.chance(1, 6)) at += (PedSector)c.pickl<long long>({0x7fffffff, 0xffffff00, 0x3fffffff, 1ll << 33});
    if (c.chance(1, 6)) at = MIN;
    if (lk == 2 && at + len > 0xfffffff0) lk = 1;
    if (lk == 1 && at < 34) at = 34;
    PedSector after = c.chance(1, 3) ? (lk == 1 ? 33 : 0) : c.biased(lk == 1 ? 33 : 0, 100000);
    MemDev *m = w.m = mem_new(at + len + after, ss);
    m->bg = c.chance(1, 2) ? 1 + c.draw(1000) : 0;
    m->zlo = at;
    m->zhi = at + len;
    // noise in the part of the partition the file system does not use
    if (m->bg && slack && c.chance(1, 2)) m->zhi = at + n;
    w.dev = mem_open(m);
    if (!w.dev) c.fail("no-device", "could not open the memory device");
    c.note("%lld sectors of %lld, label %d, partition %lld+%lld, bg %u", (long long)m->length, ss, lk, (long long)at, (long long)len, m->bg);
    if (lk) {
        PedDisk *d = ped_disk_new_fresh(w.dev, ped_disk_type_get(lk == 1 ? "gpt" : "msdos"));
        if (!d) { c.cls("device too small for the label"); return; }
        static const char *T[] = {nullptr, "ext2", "fat32", "linux-swap(v1)", "hfs", "ntfs"};
        const char *ft = T[c.draw(5)];
        PedPartition *p = ped_partition_new(d, PED_PARTITION_NORMAL, ft ? ped_file_system_type_get(ft) : nullptr, at, at + len - 1);
        PedConstraint *k = ped_constraint_exact(&p->geom);
        int ok = ped_disk_add_partition(d, p, k);
        ped_constraint_destroy(k);
        if (!ok) ped_partition_destroy(p);
        if (!ok || !ped_disk_commit_to_dev(d)) { ped_disk_destroy(d); c.note("not possible with this label: %s", exc_dump().c_str()); c.cls("not possible with this label"); return; }
        ped_disk_destroy(d);
        exc_clear();
    }
    // other file systems before and after the partition
    if (c.chance(1, 3)) {
        auto &t = tpl(c);
        PedSector tn = t.total * 512 / ss;
        if (at - MIN > tn && ss == 512) { plant(m, at - tn, t.sec); c.note("%s ends right before", t.name.c_str()); }
    }
    if (c.chance(1, 3)) {
        auto &t = tpl(c);
        if (after > (lk == 1 ? 33 : 0) && ss == 512) {
            auto s = t.sec;
            s.erase(s.lower_bound(after - (lk == 1 ? 33 : 0)), s.end());
            plant(m, at + len, s);
            c.note("%s begins right after", t.name.c_str());
        }
    }
    if (im.expect == "asfs")
        for (int i = 0; i < 2; i++) {
            std::vector<uint8_t> b(512);
            uint64_t s = (uint64_t)at * 512, e = (uint64_t)(at + len) * 512;
            w32(b, 0, 0x53465300, true); w32(b, 8, i ? (uint32_t)(len - 1) : 0, true); w32(b, 32, s >> 32, true); w32(b, 36, (uint32_t)s, true); w32(b, 40, e >> 32, true); w32(b, 44, (uint32_t)e, true);
            uint32_t x = 1;
            for (int j = 0; j < 512; j += 4) x += (uint32_t)b[j] << 24 | b[j + 1] << 16 | b[j + 2] << 8 | b[j + 3];
            w32(b, 4, -x, true);
            im.sec[i ? len - 1 : 0] = b;
        }
    plant(m, at, im.sec);
    check(w, c, im, at, len);
    if (lk) {
        PedDisk *d = ped_disk_new(w.dev);
        if (!d) c.fail("C20:label", "the label is not readable any more: %s", exc_dump().c_str());
        PedPartition *p = ped_disk_get_partition(d, 1);
        if (!p) c.fail("C20:label", "the partition is gone");
        std::string got = name_of(p->fs_type);
        ped_disk_destroy(d);
        if (got != im.expect) c.fail("C20:table", "the table shows '%s' for '%s' (%s)", got.c_str(), im.expect.c_str(), im.desc.c_str());
        c.cls("through a label");
    }
}

static void none(World &w, Ctx &c, long long ss) {
    Img im;
    im.bytes = c.biased(1, 200000) * ss;
    PedSector n = im.bytes / ss;
    int k = c.weighted({1, 2, 3, 3});
    if (k == 0) im.desc = "zeros";
    else if (k == 1) {
        im.desc = "a repeated byte";
        uint8_t v = (uint8_t)c.draw(255);
        for (uint64_t i = 0; i < std::min<uint64_t>(im.bytes / 512, 300); i++) im.sec[i].assign(512, v);
    } else if (k == 2) {
        im.desc = "random bytes";
        uint64_t st = c.draw(1u << 30);
        for (uint64_t i = 0; i < std::min<uint64_t>(im.bytes / 512, 300); i++) {
            auto &b = im.sec[i];
            b.resize(512);
            for (int j = 0; j < 512; j += 8) { uint64_t v = splitmix(st); memcpy(&b[j], &v, 8); }
        }
    } else {
        // a table, as on a whole disk or in an extended partition
        w.reset();
        std::string l = gen_label(c);
        if (ss != 512 && (l == "pc98" || l == "atari")) l = "gpt";
        w.m = mem_new(n, ss);
        w.dev = mem_open(w.m);
        PedDisk *d = ped_disk_new_fresh(w.dev, ped_disk_type_get(l.c_str()));
        if (d && ped_disk_commit_to_dev(d))
            for (auto &x : w.m->data) for (int i = 0; i < ss / 512; i++) im.sec[x.first * (ss / 512) + i].assign(x.second.begin() + 512 * i, x.second.begin() + 512 * i + 512);
        if (d) ped_disk_destroy(d);
        w.close();
        im.desc = "a " + l + " label";
        im.exact = true;
    }
    c.note("%s, %lld sectors of %lld", im.desc.c_str(), (long long)n, ss);
    c.cls("none");
    place(w, c, im, ss);
}

// several file systems in one region, each made over the remains of the one before: the one whose
// extent is clearly nearest to the region is named, or none if no one is
static void mixed(World &w, Ctx &c) {
    w.reset();
    int n = (int)c.range(2, 3);
    std::vector<const Template *> ts;
    for (int i = 0; i < n; i++) ts.push_back(&g_tpl[c.draw((int)g_tpl.size() - 1)]);
    PedSector at = c.biased(0, 5000), len = ts[c.draw(n - 1)]->total;
    if (c.chance(1, 2)) len += c.pickl<int>({1, 100, 2000, 4095, 4096, 4097, 9000, 40000});
    if (c.chance(1, 6)) len = std::max<PedSector>(8, len - c.biased(0, 9000));
    if (len < 8) c.discard();
    MemDev *m = w.m = mem_new(at + len + c.biased(0, 5000), 512);
    w.dev = mem_open(m);
    if (!w.dev) c.discard();
    std::string desc;
    for (auto t : ts) {
        auto s = t->sec;
        s.erase(s.lower_bound(len), s.end());
        plant(m, at, s);
        desc += fmt(" %s(%llu)", t->name.c_str(), (unsigned long long)t->total);
    }
    c.mix(desc.data(), desc.size());
    c.note("region %lld+%lld:%s", (long long)at, (long long)len, desc.c_str());
    PedGeometry *g = ped_geometry_new(w.dev, at, len);
    if (!g) c.fail("C20:geometry", "no geometry");
    std::string got = name_of(ped_file_system_probe(g)), all;
    std::vector<std::pair<PedSector, std::string>> found;
    PedFileSystemType *t = nullptr;
    while ((t = ped_file_system_type_get_next(t))) {
        ped_exception_fetch_all();
        PedGeometry *r = ped_file_system_probe_specific(t, g);
        ped_exception_catch();
        ped_exception_leave_all();
        if (!r) continue;
        PedSector e = std::llabs(r->start - at) + std::llabs(r->end - (at + len - 1));
        if (r->start < at || r->end > at + len - 1) c.cls("extent beyond the region");
        all += fmt(" %s:%lld+%lld", t->name, (long long)(r->start - at), (long long)r->length);
        found.push_back({e, t->name});
        ped_geometry_destroy(r);
    }
    ped_geometry_destroy(g);
    std::string want;
    size_t best = 0;
    for (size_t i = 1; i < found.size(); i++) if (found[i].first < found[best].first) best = i;
    if (!found.empty()) {
        want = found[best].second;
        for (size_t i = 0; i < found.size(); i++) if (i != best && found[i].first - found[best].first < std::max<PedSector>(4096, len / 100)) want = "";
    }
    c.note("  '%s' of%s", got.c_str(), all.c_str());
    c.cls(fmt("remains: %d recognised%s", (int)found.size(), found.size() > 1 ? want.empty() ? ", no clear one" : ", one clearly best" : ""));
    if (got != want) c.fail("C20:remains", "the region is taken for '%s', not '%s' (recognised:%s; its length %lld)", got.c_str(), want.c_str(), all.c_str(), (long long)len);
    if (found.size() > 1) c.nontrivial = true;
}

static void c20(Ctx &c) {
    World w(c);
    long long ss = c.pickl<long long>({512, 512, 512, 512, 4096, 4096, 2048, 1024});
    int k = c.weighted({6, 3, 2, 4});
    Img im;
    if (k == 3) { mixed(w, c); return; }
    if (k == 2) { none(w, c, ss); return; }
    if (k == 1) synth(c, ss, im);
    else {
        Scratch sc;
        if (!mkfs(c, sc, ss, im)) c.discard();
    }
    c.note("%s", im.desc.c_str());
    c.mix(im.desc.data(), im.desc.size());
    int n = 1 + (int)c.draw(3);
    for (int i = 0; i < n; i++) { place(w, c, im, ss); w.close(); }
    if (!im.expect.empty()) c.nontrivial = true;
    if (ss != 512) c.cls(fmt("sector size %lld", ss));
    // names
    PedFileSystemType *t = nullptr;
    while ((t = ped_file_system_type_get_next(t))) {
        std::string u = t->name;
        for (auto &ch : u) ch = toupper(ch);
        if (ped_file_system_type_get(t->name) != t || ped_file_system_type_get(u.c_str()) != t) c.fail("C20:type-name", "type %s is not found by its name", t->name);
    }
}
static void setup() { load_templates(); }
int main(int argc, char **argv) {
    return main_(argc, argv, {{"C20", c20, 8000, 100000, "a file system made by its tool or from its description", setup}});
}
