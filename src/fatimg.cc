#include "fatimg.h"
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
using namespace pbt;
typedef std::vector<uint8_t> Bytes;
static void p16(uint8_t *p, uint32_t v) { p[0] = v; p[1] = v >> 8; }
static void p32(uint8_t *p, uint32_t v) { p16(p, v); p16(p + 2, v >> 16); }
static uint32_t g16(const uint8_t *p) { return p[0] | p[1] << 8; }
static uint32_t g32(const uint8_t *p) { return g16(p) | g16(p + 2) << 16; }

std::string FatEnt::str() const {
    std::string s;
    for (unsigned char ch : path) s += ch >= 32 && ch < 127 ? std::string(1, ch) : fmt("\\x%02x", ch);
    s += fmt(" %s size %u meta ", label ? "label" : dir ? "dir" : "file", size);
    for (unsigned char ch : meta) s += fmt("%02x", ch);
    s += fmt(" lfn %zu content %016llx first cluster %u", lfn.size() / 2, (unsigned long long)hash, first);
    return s;
}
static uint8_t lfn_sum(const uint8_t *n) {
    uint8_t s = 0;
    for (int i = 0; i < 11; i++) s = ((s & 1) << 7) + (s >> 1) + n[i];
    return s;
}
static void fnv(uint64_t &h, const uint8_t *p, size_t n) {
    while (n >= 8) { uint64_t v; memcpy(&v, p, 8); h = (h ^ v) * 0x100000001b3ull; h ^= h >> 31; p += 8; n -= 8; }
    while (n--) h = (h ^ *p++) * 0x100000001b3ull;
}

// ---------------------------------------------------------------- reading
namespace {
struct Rd {
    const MemDev &m;
    FatTree &t;
    std::vector<uint32_t> fat;
    std::vector<bool> seen;
    bool die(const char *f, ...) {
        if (t.err.empty()) { va_list ap; va_start(ap, f); t.err = vfmt(f, ap); va_end(ap); }
        return false;
    }
    bool eof(uint32_t v) { return t.g.fat32 ? (v & 0xfffffff) >= 0xffffff8 : v >= 0xfff8; }
    bool isbad(uint32_t v) { return t.g.fat32 ? (v & 0xfffffff) == 0xffffff7 : v == 0xfff7; }
    bool chain(const std::string &what, uint32_t c, std::vector<uint32_t> &out) {
        for (;;) {
            if (c < 2 || c >= t.g.clusters + 2) return die("%s: cluster %u is outside the file system", what.c_str(), c);
            if (seen[c]) return die("%s: cluster %u belongs to two chains", what.c_str(), c);
            seen[c] = true;
            t.used++;
            out.push_back(c);
            uint32_t v = fat[c];
            if (eof(v)) return true;
            if (isbad(v)) return die("%s: cluster %u is marked bad", what.c_str(), c);
            if (!v) return die("%s: chain ends in a free cluster after %u", what.c_str(), c);
            c = t.g.fat32 ? v & 0xfffffff : v;
        }
    }
    Bytes clus(uint32_t c) { return m.read(t.g.csec(c), t.g.spc); }
    bool dir(const std::string &path, const Bytes &b, uint32_t self, uint32_t parent, bool root, int depth) {
        std::string lfn;
        int want = 0;
        uint8_t sum = 0;
        int n = b.size() / 32;
        for (int i = 0; i < n; i++) {
            const uint8_t *e = &b[i * 32];
            if (e[0] == 0) break;
            if (e[0] == 0xe5) { if (want) return die("%s: a deleted entry within a long name", path.c_str()); lfn.clear(); want = 0; continue; }
            if ((e[11] & 0x3f) == 0x0f) {
                std::string part;
                for (int k : {1, 3, 5, 7, 9, 14, 16, 18, 20, 22, 24, 28, 30}) part.append((const char *)e + k, 2);
                if (e[0] & 0x40) { if (want) return die("%s: long name entries out of order", path.c_str()); lfn.clear(); want = e[0] & 0x3f; sum = e[13]; }
                if ((e[0] & 0x3f) != want || !want || e[13] != sum) return die("%s: long name entries out of order", path.c_str());
                want--;
                lfn = part + lfn;
                continue;
            }
            FatEnt x;
            std::string nm((const char *)e, 11);
            if (want) return die("%s: long name without its entry", path.c_str());
            if (!lfn.empty() && lfn_sum(e) != sum) return die("%s: long name of another entry", path.c_str());
            x.lfn = lfn;
            lfn.clear();
            uint32_t first = g16(e + 26) | (t.g.fat32 ? g16(e + 20) << 16 : 0);
            x.path = path + "/" + nm;
            x.meta.assign((const char *)e + 11, 9);
            x.meta.append((const char *)e + 22, 4);
            x.dir = e[11] & 0x10;
            x.label = e[11] & 8;
            x.size = g32(e + 28);
            x.first = first;
            if (e[0] == '.') {
                if (root) return die("a dot entry in the root directory");
                if (nm == ".          ") { if (first != self || i != 0) return die("%s: '.' is cluster %u, not %u", path.c_str(), first, self); }
                else if (nm == "..         ") { if (first != parent || i != 1) return die("%s: '..' is cluster %u, not %u", path.c_str(), first, parent); }
                else return die("%s: odd name", path.c_str());
                if (!x.dir) return die("%s: dot entry is no directory", path.c_str());
                t.ents.push_back(x);
                continue;
            }
            if (!root && i < 2) return die("%s: no dot entries", path.c_str());
            if (x.label) {
                if (!root) return die("%s: volume label", path.c_str());
                if (first) return die("%s: volume label with clusters", path.c_str());
                t.ents.push_back(x);
                continue;
            }
            if (x.dir) {
                if (depth > 40) return die("%s: nested too deeply", path.c_str());
                if (!chain(x.path, first, x.chain)) return false;
                t.dirclusters += x.chain.size();
                Bytes d;
                for (auto k : x.chain) { auto v = clus(k); d.insert(d.end(), v.begin(), v.end()); }
                t.ents.push_back(x);
                if (!dir(x.path, d, first, root ? 0 : self, false, depth + 1)) return false;
                continue;
            }
            uint64_t cs = (uint64_t)t.g.spc * 512, need = (x.size + cs - 1) / cs;
            if (!x.size) { if (first) return die("%s: empty file with cluster %u", x.path.c_str(), first); }
            else {
                if (!chain(x.path, first, x.chain)) return false;
                if (x.chain.size() != need) return die("%s: %zu clusters for %u bytes", x.path.c_str(), x.chain.size(), x.size);
                x.hash = 0xcbf29ce484222325ull;
                uint64_t left = x.size;
                uint8_t buf[512];
                for (auto k : x.chain)
                    for (int s = 0; s < t.g.spc && left; s++) {
                        m.get(t.g.csec(k) + s, buf);
                        size_t l = std::min<uint64_t>(512, left);
                        fnv(x.hash, buf, l);
                        left -= l;
                    }
            }
            t.ents.push_back(x);
        }
        if (want || !lfn.empty()) return die("%s: long name without its entry", path.c_str());
        return true;
    }
    bool run(PedSector start, PedSector len) {
        FatGeo &g = t.g;
        g.start = start;
        g.len = len;
        Bytes b = m.read(start);
        if (b[510] != 0x55 || b[511] != 0xaa) return die("no boot sector signature");
        if (g16(&b[11]) != 512) return die("sector size %u", g16(&b[11]));
        g.spc = b[13];
        g.reserved = g16(&b[14]);
        g.nfats = b[16];
        g.rootents = g16(&b[17]);
        g.media = b[21];
        g.tot = g16(&b[19]) ? g16(&b[19]) : g32(&b[32]);
        g.fat32 = g16(&b[22]) == 0;
        g.fatsz = g.fat32 ? g32(&b[36]) : g16(&b[22]);
        if (!g.spc || (g.spc & (g.spc - 1)) || !g.reserved || !g.nfats || !g.fatsz) return die("boot sector makes no sense");
        if (g16(&b[19]) && g32(&b[32]) && g16(&b[19]) != g32(&b[32])) return die("two different sizes");
        if (g.tot > len) return die("the boot sector says %lld sectors, there are %lld", (long long)g.tot, (long long)len);
        if (g.fat32 != !g.rootents) return die("root directory of %d entries in a FAT%d", g.rootents, g.fat32 ? 32 : 16);
        if (g.rootents % 16) return die("root directory is not whole sectors");
        if (g.data() + g.spc > g.tot) return die("the tables do not fit");
        g.clusters = (g.tot - g.data()) / g.spc;
        g.serial = g32(&b[g.fat32 ? 67 : 39]);
        if (b[g.fat32 ? 66 : 38] != 0x29) return die("no extended boot signature");
        if (memcmp(&b[g.fat32 ? 82 : 54], g.fat32 ? "FAT32   " : "FAT16   ", 8)) return die("type string is not FAT%d", g.fat32 ? 32 : 16);
        if (!g.fat32 && (g.clusters < 4085 || g.clusters >= 65525)) return die("FAT16 with %u clusters", g.clusters);
        if ((uint64_t)(g.clusters + 2) * (g.fat32 ? 4 : 2) > (uint64_t)g.fatsz * 512) return die("FAT of %u sectors for %u clusters", g.fatsz, g.clusters);
        g.label.assign((const char *)&b[g.fat32 ? 71 : 43], 11);
        if (b[0] != 0xeb && b[0] != 0xe9) return die("no jump instruction");
        Bytes f = m.read(start + g.reserved, g.fatsz);
        for (int i = 1; i < g.nfats; i++) {
            Bytes o = m.read(start + g.reserved + (PedSector)i * g.fatsz, g.fatsz);
            size_t es = g.fat32 ? 4 : 2;
            if (memcmp(o.data(), f.data(), (g.clusters + 2) * es)) return die("the copies of the FAT differ");
        }
        fat.resize(g.clusters + 2);
        for (size_t i = 0; i < fat.size(); i++) fat[i] = g.fat32 ? g32(&f[i * 4]) : g16(&f[i * 2]);
        if ((fat[0] & 0xff) != (uint32_t)g.media) return die("media %02x in the FAT, %02x in the boot sector", fat[0] & 0xff, g.media);
        seen.assign(g.clusters + 2, false);
        if (g.fat32) {
            g.root = g32(&b[44]);
            g.infosec = g16(&b[48]);
            g.backup = g16(&b[50]);
            if (g16(&b[42])) return die("file system version %04x", g16(&b[42]));
            std::vector<uint32_t> ch;
            if (!chain("root directory", g.root, ch)) return false;
            t.dirclusters += ch.size();
            Bytes d;
            for (auto k : ch) { auto v = clus(k); d.insert(d.end(), v.begin(), v.end()); }
            if (!dir("", d, g.root, g.root, true, 0)) return false;
            if (g.backup) {
                if (g.backup >= g.reserved) return die("backup boot sector outside the reserved area");
                if (m.read(start + g.backup) != b) return die("the backup boot sector differs");
            }
        } else {
            Bytes d = m.read(start + g.reserved + (PedSector)g.nfats * g.fatsz, g.rootsecs());
            if (!dir("", d, 0, 0, true, 0)) return false;
        }
        uint32_t free = 0;
        for (uint32_t i = 2; i < g.clusters + 2; i++) {
            uint32_t v = g.fat32 ? fat[i] & 0xfffffff : fat[i];
            if (isbad(v)) t.bad.insert(i);
            else if (!v) free++;
            else if (!seen[i]) return die("cluster %u is allocated but belongs to no file", i);
        }
        if (g.fat32 && g.infosec) {
            if (g.infosec >= g.reserved) return die("info sector outside the reserved area");
            Bytes i = m.read(start + g.infosec);
            if (g32(&i[0]) != 0x41615252 || g32(&i[484]) != 0x61417272 || g16(&i[510]) != 0xaa55) return die("the info sector has wrong signatures");
            if (g32(&i[488]) != 0xffffffff && g32(&i[488]) != free) return die("the info sector says %u free clusters, there are %u", g32(&i[488]), free);
            if (g32(&i[492]) != 0xffffffff && g32(&i[492]) >= g.clusters + 2) return die("the info sector's next free cluster is %u", g32(&i[492]));
        }
        return true;
    }
};
}  // namespace
FatTree fat_read(const MemDev &m, PedSector start, PedSector len) {
    FatTree t;
    Rd r{m, t, {}, {}};
    r.run(start, len);
    return t;
}

// ---------------------------------------------------------------- writing
namespace {
struct Wr {
    Ctx &c;
    MemDev &m;
    FatGeo &g;
    std::vector<uint32_t> fat;
    std::vector<uint32_t> pool;      // order in which clusters are handed out
    size_t next = 0;
    int strategy = 0;
    int nfiles = 0, ndirs = 0, maxdepth = 0;
    int budget_ents = 60;
    uint64_t budget_clusters = 0;
    bool junk_after_end = false;
    std::string vol = "NO NAME    ";
    uint32_t eofv() { return g.fat32 ? c.pickl<uint32_t>({0x0fffffff, 0x0ffffff8}) : c.pickl<uint32_t>({0xffff, 0xfff8}); }
    uint32_t take() {
        for (; next < pool.size(); next++) if (!fat[pool[next]]) { uint32_t r = pool[next++]; return r; }
        return 0;
    }
    bool alloc(uint64_t n, std::vector<uint32_t> &out) {
        for (uint64_t i = 0; i < n; i++) {
            uint32_t k = take();
            if (!k) return false;
            fat[k] = 0xfffffff;   // taken
            out.push_back(k);
        }
        return true;
    }
    void link(const std::vector<uint32_t> &ch) {
        for (size_t i = 0; i < ch.size(); i++) fat[ch[i]] = i + 1 < ch.size() ? ch[i + 1] : eofv();
    }
    void undo(const std::vector<uint32_t> &ch) { for (auto k : ch) fat[k] = 0; }
    void stamp(uint8_t *e) {
        e[12] = c.pickl<int>({0, 0, 8, 16, 24});
        e[13] = c.draw(199);
        p16(e + 14, c.draw(0xffff));
        p16(e + 16, 0x21 + c.draw(0x5000));
        p16(e + 18, 0x21 + c.draw(0x5000));
        p16(e + 22, c.draw(0xffff));
        p16(e + 24, 0x21 + c.draw(0x5000));
    }
    // all entries of one directory, dot entries included
    bool dir(Bytes &out, uint32_t self, uint32_t parent, bool root, int depth, size_t maxents) {
        auto push = [&](const uint8_t *e) { out.insert(out.end(), e, e + 32); };
        auto room = [&](size_t n) { return out.size() / 32 + n <= maxents; };
        maxdepth = std::max(maxdepth, depth);
        if (!root) {
            for (int i = 0; i < 2; i++) {
                uint8_t e[32] = {};
                memset(e, ' ', 11);
                memset(e, '.', i + 1);
                e[11] = 0x10;
                stamp(e);
                e[12] = 0;
                uint32_t cl = i ? parent : self;
                p16(e + 26, cl);
                if (g.fat32) p16(e + 20, cl >> 16);
                push(e);
            }
        } else if (c.chance(1, 3)) {
            uint8_t e[32] = {};
            memcpy(e, "VOLUME 7   ", 11);
            vol = "VOLUME 7   ";
            e[11] = 8;
            p16(e + 22, c.draw(0xffff));
            p16(e + 24, 0x21);
            push(e);
        }
        std::set<std::string> names;
        int n = root ? (int)c.range(0, 14) : (int)c.biased(0, 40);
        if (c.chance(1, 12)) n = 5 + c.draw(g.spc * 16 + 20);   // more than a cluster of entries
        for (int i = 0; i < n && budget_ents > 0; i++) {
            budget_ents--;
            int k = c.weighted({8, 4, 2, 1});
            uint8_t e[32] = {};
            if (k == 2) {   // deleted
                if (!room(1)) break;
                e[0] = 0xe5;
                memcpy(e + 1, "LDFILE TXT", 10);
                e[11] = 0x20;
                p16(e + 26, c.draw(0xffff));
                p32(e + 28, c.draw(100000));
                push(e);
                continue;
            }
            std::string nm;
            static const char cs[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_~!#$%&'()-@^`{}";
            int l = 1 + c.draw(7), xl = c.draw(3);
            for (int j = 0; j < 8; j++) nm += j < l ? cs[c.draw(sizeof cs - 2)] : ' ';
            for (int j = 0; j < 3; j++) nm += j < xl ? cs[c.draw(sizeof cs - 2)] : ' ';
            if (c.chance(1, 40)) nm[0] = c.pickl<int>({0x05, 0x80, 0xf6, 0xff, 0xe4});
            if (!names.insert(nm).second) continue;
            memcpy(e, nm.data(), 11);
            stamp(e);
            int nl = c.chance(1, 3) ? (int)c.pickl<int>({1, 2, 3, 5, 20}) : 0;
            if (!room(1 + nl)) break;
            for (int j = nl; j > 0; j--) {
                uint8_t v[32] = {};
                v[0] = j | (j == nl ? 0x40 : 0);
                v[11] = 0x0f;
                v[13] = lfn_sum(e);
                int pos = 0;
                bool end = false;
                int stop = j == nl ? (int)c.range(1, 13) : 13;
                for (int q : {1, 3, 5, 7, 9, 14, 16, 18, 20, 22, 24, 28, 30}) {
                    if (pos >= stop) { p16(v + q, end ? 0xffff : 0); end = true; }
                    else p16(v + q, c.chance(1, 8) ? 0x100 + c.draw(0xd000) : 'a' + c.draw(25));
                    pos++;
                }
                push(v);
            }
            if (k == 1 && depth < 6) {
                e[11] = 0x10 | c.pickl<int>({0, 0, 1, 2, 4});
                ndirs++;
                std::vector<uint32_t> ch;
                if (!alloc(1, ch)) return false;
                Bytes sub;
                if (!dir(sub, ch[0], root ? 0 : self, false, depth + 1, 4000)) return false;
                size_t cb = (size_t)g.spc * 512;
                bool exact = sub.size() % cb == 0 && c.chance(1, 2);   // no terminator
                size_t need = (sub.size() + (exact ? 0 : 32) + cb - 1) / cb;
                need += c.chance(1, 8);
                if (need > 1 && !alloc(need - 1, ch)) { return false; }
                link(ch);
                size_t used = sub.size();
                sub.resize(need * cb, 0);
                if (junk_after_end && used + 96 <= sub.size() && c.chance(1, 2)) {
                    // (only deleted entries: readers differ in whether they look further)
                    memcpy(&sub[used + 32], "\xe5LD     TXT\x20", 12);
                    p16(&sub[used + 32 + 26], c.draw(g.clusters - 1));
                    memcpy(&sub[used + 64], "\xe5TALE   TXT\x20", 12);
                }
                for (size_t q = 0; q < ch.size(); q++) m.write(g.csec(ch[q]), Bytes(sub.begin() + q * cb, sub.begin() + (q + 1) * cb));
                p16(e + 26, ch[0]);
                if (g.fat32) p16(e + 20, ch[0] >> 16);
            } else {
                e[11] = c.pickl<int>({0x20, 0, 0x21, 0x22, 0x26, 0x27});
                uint64_t cb = (uint64_t)g.spc * 512;
                uint64_t lim = std::min<uint64_t>(budget_clusters * cb, 0xffffffff);
                uint64_t sz;
                switch (c.weighted({3, 4, 2, 2})) {
                case 0: sz = c.draw(3) ? c.draw(cb * 3) : 0; break;
                case 1: sz = c.draw(std::min<uint64_t>(lim, cb * 40)); break;
                case 2: sz = cb * c.draw(20); break;
                default: sz = c.draw(lim); break;
                }
                sz = std::min(sz, lim);
                uint64_t need = (sz + cb - 1) / cb;
                std::vector<uint32_t> ch;
                if (need && !alloc(need, ch)) { undo(ch); ch.clear(); sz = 0; }
                budget_clusters -= ch.size();
                link(ch);
                p32(e + 28, sz);
                if (!ch.empty()) { p16(e + 26, ch[0]); if (g.fat32) p16(e + 20, ch[0] >> 16); }
                nfiles++;
            }
            push(e);
        }
        return true;
    }
};
}  // namespace

bool fat_make(Ctx &c, MemDev &m, PedSector start, PedSector len, std::string *desc, FatGeo *geo) {
    FatGeo &g = *geo;
    g.start = start;
    g.len = len;
    g.media = c.chance(1, 8) ? c.pickl<int>({0xf0, 0xf9, 0xff, 0xfa}) : 0xf8;
    g.nfats = c.chance(1, 10) ? c.pickl<int>({1, 3, 4}) : 2;
    if (g.fat32) {
        g.reserved = c.chance(1, 3) ? (int)c.range(8, 80) : 32;
        if (c.chance(1, 12)) { g.backup = c.chance(1, 3) ? 0 : (int)c.range(2, 7); }
        if (c.chance(1, 12)) { g.infosec = (int)c.range(1, 7); if (g.infosec == g.backup) g.infosec = g.backup == 1 ? 2 : 1; }
        g.rootents = 0;
    } else {
        g.reserved = c.chance(1, 4) ? (int)c.range(1, 70) : c.pickl<int>({1, 4, g.spc});
        g.rootents = c.chance(1, 4) ? 16 * (int)(c.chance(1, 8) ? c.range(1, 4095) : c.range(1, 64)) : 512;
    }
    // size of the FAT
    g.tot = len - (c.chance(1, 12) ? (int)c.draw(40) : 0);
    int es = g.fat32 ? 4 : 2;
    for (g.fatsz = 1;; g.fatsz++) {
        PedSector d = g.tot - g.data();
        if (d < g.spc) return false;
        if ((d / g.spc + 2) * es <= (PedSector)g.fatsz * 512) break;
        PedSector need = ((d / g.spc + 2) * es + 511) / 512;
        if (need > g.fatsz + 1) g.fatsz = need - (need - g.fatsz) / 8 - 2 > g.fatsz ? need - (need - g.fatsz) / 8 - 2 : g.fatsz;
    }
    if (c.chance(1, 6)) g.fatsz += c.draw(20);
    if (!g.fat32 && g.fatsz > 0xffff) return false;
    g.clusters = (g.tot - g.data()) / g.spc;
    if (!g.fat32 && (g.clusters < 4087 || g.clusters > 65524)) return false;
    if (g.fat32 && g.clusters > 3000000) return false;
    if (g.fat32 && g.clusters < 100) return false;
    g.serial = c.draw(0xffffffff);
    Wr w{c, m, g};
    w.fat.assign(g.clusters + 2, 0);
    w.junk_after_end = c.chance(1, 6);
    // where files live
    w.strategy = c.weighted({3, 3, 3, 3, 2});
    auto &P = w.pool;
    uint32_t N = g.clusters;
    uint64_t maxuse = std::min<uint64_t>(N, 200 + 400000 / g.spc / 8);
    if (maxuse > 4000) maxuse = 4000;
    static const char *sn[] = {"from the start", "from the end", "scattered", "in pieces", "backwards"};
    uint32_t base = 0;
    switch (w.strategy) {
    case 0: for (uint32_t i = 0; i < N && P.size() < maxuse * 2; i++) P.push_back(2 + i); break;
    case 1: { uint32_t n = std::min<uint64_t>(N, maxuse * 2); for (uint32_t i = N - n; i < N; i++) P.push_back(2 + i); break; }
    case 2: {
        uint64_t st = c.draw(0xffffffff) + 1;
        std::vector<bool> dup(N, false);
        for (uint32_t i = 0; i < maxuse * 2 && i < N * 3 / 4; i++) { uint32_t k = splitmix(st) % N; if (!dup[k]) { dup[k] = true; P.push_back(2 + k); } }
        break;
    }
    case 3: {
        uint64_t st = c.draw(0xffffffff) + 1;
        std::vector<bool> dup(N, false);
        int runs = 1 + c.draw(20);
        for (int r = 0; r < runs; r++) {
            uint32_t b = c.chance(1, 3) ? (c.chance(1, 2) ? N - 1 - std::min<uint64_t>(N - 1, c.draw(200)) : c.draw(200)) % N : splitmix(st) % N, l = 1 + splitmix(st) % (1 + maxuse / 4);
            for (uint32_t i = b; i < b + l && i < N; i++) if (!dup[i]) { dup[i] = true; P.push_back(2 + i); }
        }
        break;
    }
    default: { uint32_t n = std::min<uint64_t>(N, maxuse * 2); base = c.chance(1, 2) ? N : n; for (uint32_t i = 0; i < n; i++) P.push_back(2 + base - 1 - i); break; }
    }
    w.budget_clusters = std::min<uint64_t>(maxuse, P.size());
    if (c.chance(1, 3)) w.budget_clusters = std::min<uint64_t>(w.budget_clusters, 100);
    w.budget_ents = c.chance(1, 6) ? 300 : 60;
    int nbad = c.chance(1, 6) ? 1 + c.draw(8) : 0;
    for (int i = 0; i < nbad; i++) w.fat[2 + c.draw(N - 1)] = g.fat32 ? 0xffffff7 : 0xfff7;
    // clear the reserved area and write the root
    for (int i = 0; i < g.reserved; i++) m.write(start + i, Bytes(512, c.chance(1, 8) ? 0xf6 : 0));
    Bytes root;
    std::vector<uint32_t> rch;
    if (g.fat32) {
        if (!w.alloc(1, rch)) return false;
        g.root = rch[0];
    }
    if (!w.dir(root, g.fat32 ? g.root : 0, 0, true, 0, g.fat32 ? 4000 : g.rootents)) return false;
    if (g.fat32) {
        size_t cb = (size_t)g.spc * 512, need = (root.size() + 32 + cb - 1) / cb;
        if (need > 1 && !w.alloc(need - 1, rch)) return false;
        w.link(rch);
        root.resize(need * cb, 0);
        for (size_t q = 0; q < rch.size(); q++) m.write(g.csec(rch[q]), Bytes(root.begin() + q * cb, root.begin() + (q + 1) * cb));
    } else {
        root.resize((size_t)g.rootents * 32, 0);
        m.write(start + g.reserved + (PedSector)g.nfats * g.fatsz, root);
    }
    // the FATs
    w.fat[0] = g.fat32 ? 0x0fffff00 | g.media : 0xff00 | g.media;
    w.fat[1] = g.fat32 ? 0x0fffffff : 0xffff;
    Bytes f((size_t)g.fatsz * 512, 0);
    uint32_t free = 0, used = 0;
    for (uint32_t i = 0; i < w.fat.size(); i++) {
        uint32_t v = w.fat[i];
        if (i >= 2) { if (!v) free++; else used++; }
        if (g.fat32) p32(&f[i * 4], v); else p16(&f[i * 2], v);
    }
    for (int i = 0; i < g.nfats; i++) m.write(start + g.reserved + (PedSector)i * g.fatsz, f);
    // boot sector
    Bytes b(512, 0);
    std::fill(b.begin(), b.end(), 0x90);
    memcpy(&b[0], g.fat32 ? "\xeb\x58\x90" : "\xeb\x3c\x90", 3);
    memcpy(&b[3], c.chance(1, 2) ? "MSDOS5.0" : "mkfs.fat", 8);
    p16(&b[11], 512);
    b[13] = g.spc;
    p16(&b[14], g.reserved);
    b[16] = g.nfats;
    p16(&b[17], g.rootents);
    bool small = g.tot < 0x10000 && !g.fat32;
    p16(&b[19], small ? g.tot : 0);
    b[21] = g.media;
    p16(&b[22], g.fat32 ? 0 : g.fatsz);
    p16(&b[24], c.pickl<int>({63, 32, 1, 17}));
    p16(&b[26], c.pickl<int>({255, 16, 1, 64}));
    p32(&b[28], start);
    p32(&b[32], small ? 0 : g.tot);
    int x = 36;
    if (g.fat32) {
        p32(&b[36], g.fatsz);
        p16(&b[40], 0);
        p16(&b[42], 0);
        p32(&b[44], g.root);
        p16(&b[48], g.infosec);
        p16(&b[50], g.backup);
        memset(&b[52], 0, 12);
        x = 64;
    }
    b[x] = 0x80;
    b[x + 1] = 0;
    b[x + 2] = 0x29;
    p32(&b[x + 3], g.serial);
    memcpy(&b[x + 7], w.vol.data(), 11);
    memcpy(&b[x + 18], g.fat32 ? "FAT32   " : "FAT16   ", 8);
    b[510] = 0x55;
    b[511] = 0xaa;
    m.write(start, b);
    if (g.fat32) {
        if (g.backup) m.write(start + g.backup, b);
        Bytes i(512, 0);
        p32(&i[0], 0x41615252);
        p32(&i[484], 0x61417272);
        p32(&i[488], c.chance(1, 4) ? 0xffffffff : free);
        p32(&i[492], c.chance(1, 4) ? 0xffffffff : 2);
        p32(&i[508], 0xaa550000);
        m.write(start + g.infosec, i);
    }
    *desc = fmt("FAT%d, %lld sectors at %lld, %d sectors per cluster, %u clusters, %d FATs of %u, %d reserved, %d root entries, %d files %d directories in %u clusters %s, %d bad%s",
                g.fat32 ? 32 : 16, (long long)g.tot, (long long)start, g.spc, g.clusters, g.nfats, g.fatsz, g.reserved, g.rootents, w.nfiles, w.ndirs, used, sn[w.strategy], nbad,
                w.junk_after_end ? ", remains after the end of directories" : "");
    c.cls(fmt("FAT%d %s", g.fat32 ? 32 : 16, sn[w.strategy]));
    return true;
}

void dump_image(const MemDev &m, PedSector start, PedSector len, const char *path) {
    int fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, len * 512)) _exit(3);
    for (auto &x : m.data)
        if (x.first >= start && x.first < start + len)
            if (pwrite(fd, x.second.data(), 512, (x.first - start) * 512) != 512) _exit(3);
    close(fd);
}
