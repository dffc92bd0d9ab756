#include "parsers.h"
using pbt::fmt;
typedef std::vector<uint8_t> Buf;
static uint16_t le16(const uint8_t *p) { return p[0] | p[1] << 8; }
static uint32_t le32(const uint8_t *p) { return le16(p) | (uint32_t)le16(p + 2) << 16; }
static uint64_t le64(const uint8_t *p) { return le32(p) | (uint64_t)le32(p + 4) << 32; }
static uint16_t be16(const uint8_t *p) { return p[0] << 8 | p[1]; }
static uint32_t be32(const uint8_t *p) { return (uint32_t)be16(p) << 16 | be16(p + 2); }
static uint32_t crc32(const uint8_t *p, size_t n) {
    uint32_t c = ~0u;
    for (size_t i = 0; i < n; i++) {
        c ^= p[i];
        for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xedb88320u : c >> 1;
    }
    return ~c;
}
uint32_t ref_crc32(const uint8_t *p, size_t n) { return crc32(p, n); }
static std::string guid(const uint8_t *p) {   // to the textual (big-endian) order
    uint8_t u[16];
    u[0] = p[3]; u[1] = p[2]; u[2] = p[1]; u[3] = p[0];
    u[4] = p[5]; u[5] = p[4]; u[6] = p[7]; u[7] = p[6];
    memcpy(u + 8, p + 8, 8);
    return hex(u, 16);
}
static bool zero(const uint8_t *p, size_t n) {
    for (size_t i = 0; i < n; i++) if (p[i]) return false;
    return true;
}
#define BAD(...) do { P.err = fmt(__VA_ARGS__); return P; } while (0)

// ------------------------------------------------------------------ GPT (UEFI 5.3)
static Parsed p_gpt(const MemDev &m, const ParseOpts &o) {
    Parsed P;
    auto L = [](PedSector x) { return (long long)x; };
    Buf b = m.read(0);
    if (b[510] != 0x55 || b[511] != 0xaa) BAD("protective MBR has no signature");
    int ee = -1;
    for (int i = 0; i < 4; i++) {
        const uint8_t *e = &b[446 + 16 * i];
        if (e[4] == 0xee) { if (ee >= 0) BAD("two protective entries"); ee = i; }
        else if (!zero(e, 16)) BAD("protective MBR slot %d is not empty", i);
    }
    if (ee < 0) BAD("no protective entry");
    const uint8_t *pe = &b[446 + 16 * ee];
    if (le32(pe + 8) != 1) BAD("protective entry starts at %u", le32(pe + 8));
    uint64_t want = std::min<uint64_t>(m.length - 1, 0xffffffffu);
    if (le32(pe + 12) != want) BAD("protective entry has %u sectors, should be %llu", le32(pe + 12), (unsigned long long)want);
    if (pe[1] != 0 || pe[2] != 2 || pe[3] != 0) BAD("protective entry start CHS is %02x%02x%02x", pe[1], pe[2], pe[3]);
    if (pe[0] != 0 && pe[0] != 0x80) BAD("protective boot indicator %02x", pe[0]);
    P.bootflag = pe[0] == 0x80;
    P.tables.insert(0);
    Buf arr[2], hd[2];
    uint64_t my[2] = {1, 0}, fu[2], lu[2], el[2];
    uint32_t n = 0, sz = 0;
    for (int k = 0; k < 2; k++) {
        const char *w = k ? "backup" : "primary";
        hd[k] = m.read(my[k]);
        Buf &h = hd[k];
        if (memcmp(h.data(), "EFI PART", 8)) BAD("%s header: no signature at %llu", w, (unsigned long long)my[k]);
        if (le32(&h[8]) != 0x10000) BAD("%s header: revision %x", w, le32(&h[8]));
        uint32_t hs = le32(&h[12]);
        if (hs < 92 || hs > (uint32_t)m.ss) BAD("%s header: size %u", w, hs);
        Buf t(h.begin(), h.begin() + hs);
        memset(&t[16], 0, 4);
        if (crc32(t.data(), hs) != le32(&h[16])) BAD("%s header: wrong CRC", w);
        if (le32(&h[20])) BAD("%s header: reserved field not zero", w);
        if (!zero(&h[92], m.ss - 92)) BAD("%s header: rest of the block is not zero", w);
        if (le64(&h[24]) != my[k]) BAD("%s header: MyLBA %llu at %llu", w, (unsigned long long)le64(&h[24]), (unsigned long long)my[k]);
        uint64_t alt = le64(&h[32]);
        if (k == 0) {
            if (alt >= (uint64_t)m.length) BAD("primary header: alternate at %llu is off the device", (unsigned long long)alt);
            my[1] = alt;
        } else if (alt != 1) BAD("backup header: alternate is %llu", (unsigned long long)alt);
        fu[k] = le64(&h[40]); lu[k] = le64(&h[48]); el[k] = le64(&h[72]);
        n = le32(&h[80]); sz = le32(&h[84]);
        if (sz != 128) BAD("%s header: entry size %u", w, sz);
        if (n == 0 || n > 8192) BAD("%s header: %u entries", w, n);
        uint64_t es = ((uint64_t)n * sz + m.ss - 1) / m.ss;
        if (el[k] >= (uint64_t)m.length || es > m.length - el[k]) BAD("%s entries off the device", w);
        arr[k] = m.read(el[k], es);
        if (crc32(arr[k].data(), (size_t)n * sz) != le32(&h[88])) BAD("%s entries: wrong CRC", w);
        for (uint64_t i = 0; i < es; i++) P.tables.insert(el[k] + i);
        P.tables.insert(my[k]);
        if (el[k] <= my[k] && el[k] + es > my[k]) BAD("%s entries overlap the header", w);
        if (fu[k] <= lu[k] + 1 && el[k] + es > fu[k] && el[k] <= lu[k]) BAD("%s entries lie in the usable range", w);
        if (my[k] >= fu[k] && my[k] <= lu[k]) BAD("%s header lies in the usable range", w);
    }
    if (my[1] != (uint64_t)m.length - 1) BAD("backup header at %llu, last sector is %lld", (unsigned long long)my[1], L(m.length - 1));
    if (o.fresh && el[0] != 2) BAD("primary entries at %llu", (unsigned long long)el[0]);
    for (int f : {8, 40, 48, 56, 80, 84, 88})
        if (memcmp(&hd[0][f], &hd[1][f], f == 56 ? 16 : f == 8 || f >= 80 ? 4 : 8)) BAD("headers differ at offset %d", f);
    if (arr[0] != arr[1]) BAD("entry arrays differ");
    if (o.fresh && (uint64_t)n * sz < 16384) BAD("entry array of %u entries is below the minimum size", n);
    P.uuid = guid(&hd[0][56]);
    if (zero(&hd[0][56], 16)) BAD("disk GUID is zero");
    std::set<std::string> uu;
    for (uint32_t i = 0; i < n; i++) {
        const uint8_t *e = &arr[0][(size_t)i * sz];
        if (zero(e, 16)) { if (!zero(e, 128)) BAD("unused entry %u is not zero", i + 1); continue; }
        RP r{(int)i + 1, (PedSector)le64(e + 32), (PedSector)le64(e + 40)};
        r.ptype = guid(e);
        r.uuid = guid(e + 16);
        if (!uu.insert(r.uuid).second || zero(e + 16, 16)) BAD("partition GUID of entry %u is not unique", i + 1);
        if (r.s > r.e || (uint64_t)r.s < fu[0] || (uint64_t)r.e > lu[0])
            BAD("entry %u [%lld,%lld] outside the usable range [%llu,%llu]", i + 1, L(r.s), L(r.e), (unsigned long long)fu[0], (unsigned long long)lu[0]);
        r.attr = le64(e + 48);
        bool end = false;
        for (int k = 0; k < 36; k++) {
            unsigned u = le16(e + 56 + 2 * k);
            if (!u) { end = true; continue; }
            if (end) BAD("entry %u: text after the end of the name", i + 1);
            if (u >= 0xd800 && u < 0xdc00 && k < 35) {
                unsigned v = le16(e + 58 + 2 * k);
                if (v >= 0xdc00 && v < 0xe000) { u = 0x10000 + ((u - 0xd800) << 10) + (v - 0xdc00); k++; }
            }
            if (u < 0x80) r.name += (char)u;
            else if (u < 0x800) { r.name += (char)(0xc0 | u >> 6); r.name += (char)(0x80 | (u & 63)); }
            else if (u < 0x10000) { r.name += (char)(0xe0 | u >> 12); r.name += (char)(0x80 | (u >> 6 & 63)); r.name += (char)(0x80 | (u & 63)); }
            else { r.name += (char)(0xf0 | u >> 18); r.name += (char)(0x80 | (u >> 12 & 63)); r.name += (char)(0x80 | (u >> 6 & 63)); r.name += (char)(0x80 | (u & 63)); }
        }
        for (auto &o : P.parts) if (o.s <= r.e && r.s <= o.e) BAD("entries %d and %d overlap", o.num, r.num);
        P.parts.push_back(r);
    }
    return P;
}

// ------------------------------------------------------------------ MBR
static std::string chs_err(const uint8_t *c, PedSector lba, const PedCHSGeometry &g) {
    int cyl = c[2] | (c[1] & 0xc0) << 2, h = c[0], s = c[1] & 63;
    if (s == 0) return "sector 0";
    PedSector wc = lba / ((PedSector)g.heads * g.sectors);
    // the top cylinders may be saturated like those out of range
    if (wc > 1021 && cyl == 1023 && h == g.heads - 1 && s == g.sectors) return "";
    if (wc > 1023) return cyl == 1023 ? "" : fmt("cylinder %d for LBA %lld beyond the CHS range", cyl, (long long)lba);
    PedSector got = ((PedSector)cyl * g.heads + h) * g.sectors + s - 1;
    if (got != lba) return fmt("CHS %d/%d/%d is sector %lld, LBA is %lld", cyl, h, s, (long long)got, (long long)lba);
    return "";
}
static bool is_ext(int t) { return t == 5 || t == 0x0f || t == 0x85; }
static Parsed p_msdos(const MemDev &m, const ParseOpts &o) {
    Parsed P;
    Buf b = m.read(0);
    if (b[510] != 0x55 || b[511] != 0xaa) BAD("MBR has no signature");
    P.sig = le32(&b[440]);
    if (!P.sig) BAD("MBR has no disk signature");
    P.tables.insert(0);
    RP *ext = nullptr;
    P.parts.reserve(300);
    for (int i = 0; i < 4; i++) {
        const uint8_t *e = &b[446 + 16 * i];
        if (zero(e, 16)) continue;
        RP r{i + 1, le32(e + 8), (PedSector)le32(e + 8) + le32(e + 12) - 1};
        r.tid = e[4];
        if (!le32(e + 12)) BAD("slot %d: no sectors", i + 1);
        if (!r.tid) BAD("slot %d: type 0 in an entry that is not empty", i + 1);
        if (e[0] != 0 && e[0] != 0x80) BAD("slot %d: boot indicator %02x", i + 1, e[0]);
        r.boot = e[0] == 0x80;
        r.ext = is_ext(e[4]);
        r.ebr = 0;
        if (r.s == 0 || r.e >= m.length) BAD("slot %d: [%lld,%lld] is not on the device", i + 1, (long long)r.s, (long long)r.e);
        for (auto &q : P.parts) if (q.s <= r.e && r.s <= q.e) BAD("slots %d and %d overlap", q.num, r.num);
        if (o.chs) {
            auto x = chs_err(e + 1, r.s, o.geom);
            if (!x.empty()) BAD("slot %d start: %s", i + 1, x.c_str());
            x = chs_err(e + 5, r.e, o.geom);
            if (!x.empty()) BAD("slot %d end: %s", i + 1, x.c_str());
        }
        P.parts.push_back(r);
        if (r.ext) { if (ext) BAD("two extended partitions"); ext = &P.parts.back(); }
    }
    if (!ext) return P;
    PedSector xs = ext->s, xe = ext->e, at = xs, le = xe;
    int num = 5;
    std::set<PedSector> seen;
    for (;;) {
        if (at < xs || at > xe) BAD("EBR at %lld is outside the extended partition", (long long)at);
        if (!seen.insert(at).second) BAD("EBR chain loops at %lld", (long long)at);
        for (auto &q : P.parts) if (q.logical && at >= q.s && at <= q.e) BAD("EBR at %lld lies in logical %d", (long long)at, q.num);
        P.tables.insert(at);
        Buf x = m.read(at);
        if (x[510] != 0x55 || x[511] != 0xaa) BAD("EBR at %lld has no signature", (long long)at);
        const uint8_t *e0 = &x[446], *e1 = e0 + 16;
        if (!zero(e1 + 16, 32)) BAD("EBR at %lld: slots 3 and 4 are not empty", (long long)at);
        if (zero(e0, 16)) {
            if (!zero(e1, 16)) BAD("EBR at %lld describes nothing but links on", (long long)at);
            break;
        }
        RP r{num++, at + (PedSector)le32(e0 + 8), at + (PedSector)le32(e0 + 8) + le32(e0 + 12) - 1};
        r.tid = e0[4];
        if (!r.tid) BAD("EBR at %lld: type 0 in an entry that is not empty", (long long)at);
        r.logical = true;
        r.ebr = at;
        if (e0[0] != 0 && e0[0] != 0x80) BAD("EBR at %lld: boot indicator %02x", (long long)at, e0[0]);
        r.boot = e0[0] == 0x80;
        if (r.s <= at || r.e > xe || r.e < r.s) BAD("logical %d [%lld,%lld] is not between its EBR at %lld and the end of the extended partition", r.num, (long long)r.s, (long long)r.e, (long long)at);
        for (auto &q : P.parts) if (q.logical && q.s <= r.e && r.s <= q.e) BAD("logicals %d and %d overlap", q.num, r.num);
        for (PedSector t : P.tables) if (t >= r.s && t <= r.e) BAD("logical %d covers the EBR at %lld", r.num, (long long)t);
        if (o.chs) {
            auto y = chs_err(e0 + 1, r.s, o.geom);
            if (!y.empty()) BAD("logical %d start: %s", r.num, y.c_str());
            y = chs_err(e0 + 5, r.e, o.geom);
            if (!y.empty()) BAD("logical %d end: %s", r.num, y.c_str());
        }
        if (r.e > le) BAD("logical %d ends at %lld, after the end %lld of the link to it", r.num, (long long)r.e, (long long)le);
        P.parts.push_back(r);
        if (zero(e1, 16)) break;
        if (!is_ext(e1[4])) BAD("EBR at %lld: link has type %02x", (long long)at, e1[4]);
        PedSector nx = xs + (PedSector)le32(e1 + 8), ne = nx + le32(e1 + 12) - 1;
        if (nx > xe || ne > xe || ne < nx) BAD("EBR at %lld: link [%lld,%lld] leaves the extended partition", (long long)at, (long long)nx, (long long)ne);
        if (o.chs) {
            auto y = chs_err(e1 + 1, nx, o.geom);
            if (!y.empty()) BAD("link at %lld start: %s", (long long)at, y.c_str());
        }
        at = nx;
        le = ne;
    }
    return P;
}

// ------------------------------------------------------------------ BSD disklabel
static Parsed p_bsd(const MemDev &m, const ParseOpts &o) {
    Parsed P;
    Buf b = m.read(0);
    const uint8_t *l = &b[64];
    if (le32(l) != 0x82564557 || le32(l + 132) != 0x82564557) BAD("magic numbers %08x %08x", le32(l), le32(l + 132));
    int n = le16(l + 138);
    if (n > 22) BAD("%d partitions", n);
    if (n > 8) BAD("%d partitions announced, the label has room for 8", n);
    uint16_t x = 0;
    for (int i = 0; i < 148 + 16 * n; i += 2) x ^= le16(l + i);
    if (x) BAD("wrong label checksum (%04x over %d partitions)", x, n);
    uint64_t sum = 0;
    for (int i = 0; i < 63; i++) sum += le64(&b[8 * i]);
    if (sum != le64(&b[504])) BAD("wrong boot block checksum");
    if (o.fresh && le32(l + 40) != (uint32_t)m.ss) BAD("sector size %u", le32(l + 40));
    P.tables.insert(0);
    for (int i = 0; i < 8; i++) {
        const uint8_t *e = l + 148 + 16 * i;
        if (!le32(e)) { if (!zero(e, 16)) BAD("unused slot %d is not empty", i + 1); continue; }
        if (i >= n) BAD("slot %d is used but only %d are announced", i + 1, n);
        RP r{i + 1, le32(e + 4), (PedSector)le32(e + 4) + le32(e) - 1};
        r.tid = e[12];
        if (!r.tid) { if (o.fresh) BAD("slot %d has no type", i + 1); continue; }
        if (r.e >= m.length) BAD("slot %d ends at %lld", i + 1, (long long)r.e);
        P.parts.push_back(r);
    }
    return P;
}

// ------------------------------------------------------------------ Sun
static Parsed p_sun(const MemDev &m, const ParseOpts &o) {
    Parsed P;
    Buf b = m.read(0);
    if (be16(&b[508]) != 0xdabe) BAD("magic %04x", be16(&b[508]));
    uint16_t x = 0;
    for (int i = 0; i < 512; i += 2) x ^= be16(&b[i]);
    if (x) BAD("wrong checksum");
    if (be32(&b[128]) != 1 || be16(&b[140]) != 8 || be32(&b[188]) != 0x600ddeee) BAD("VTOC version %u, %u partitions, sanity %08x", be32(&b[128]), be16(&b[140]), be32(&b[188]));
    unsigned heads = be16(&b[436]), sect = be16(&b[438]), ncyl = be16(&b[432]), pcyl = be16(&b[422]);
    if (!heads || !sect || !ncyl) BAD("geometry %u/%u/%u", ncyl, heads, sect);
    if (pcyl < ncyl + be16(&b[434])) BAD("%u physical cylinders, %u data cylinders", pcyl, ncyl);
    PedSector cs = (PedSector)heads * sect, len = m.length / cs * cs;
    if (o.fresh && (heads != (unsigned)m.geom.heads || sect != (unsigned)m.geom.sectors || ncyl != std::min<PedSector>(m.length / cs, 65535)))
        BAD("geometry %u/%u/%u", ncyl, heads, sect);
    P.tables.insert(0);
    for (int i = 0; i < 8; i++) {
        unsigned st = be32(&b[444 + 8 * i]), n = be32(&b[448 + 8 * i]);
        int id = be16(&b[142 + 4 * i]);
        if (!n) { if (st || id) BAD("unused slot %d is not empty", i + 1); continue; }
        if (i == 2 && id == 5) {
            if (st || n != std::min<PedSector>(len, 0xffffffffll)) BAD("whole-disk slot covers %u sectors from cylinder %u, disk has %lld", n, st, (long long)len);
            continue;
        }
        if (!id || id == 5 || id > 255) BAD("slot %d: tag %d", i + 1, id);
        RP r{i + 1, (PedSector)st * cs, (PedSector)st * cs + n - 1};
        r.tid = id;
        if (r.e >= m.length) BAD("slot %d ends at %lld", i + 1, (long long)r.e);
        P.parts.push_back(r);
    }
    return P;
}

// ------------------------------------------------------------------ Apple
static std::string cstr(const uint8_t *p, size_t n) { return std::string((const char *)p, strnlen((const char *)p, n)); }
static Parsed p_mac(const MemDev &m, const ParseOpts &o) {
    Parsed P;
    Buf b = m.read(0);
    if (be16(&b[0]) != 0x4552) BAD("driver descriptor signature %04x", be16(&b[0]));
    unsigned bs = be16(&b[2]);
    if (bs != (unsigned)m.ss) BAD("block size %u", bs);
    const PedSector mlen = std::min<PedSector>(m.length, 0xffffffffll);   // blocks a 32-bit map can describe
    if (be32(&b[4]) != (uint32_t)mlen) BAD("block count %u", be32(&b[4]));
    P.tables.insert(0);
    Buf f = m.read(1);
    if (be16(&f[0]) != 0x504d) BAD("no partition map at block 1");
    uint32_t n = be32(&f[4]);
    if (n == 0 || n > 1u << 20 || n >= m.length) BAD("map of %u entries", n);
    std::vector<std::pair<PedSector, PedSector>> all;
    int map = 0;
    PedSector mape = 0;
    for (uint32_t i = 1; i <= n; i++) {
        Buf e = m.read(i);
        if (be16(&e[0]) != 0x504d) BAD("map entry %u has signature %04x", i, be16(&e[0]));
        if (be32(&e[4]) != n) BAD("map entry %u says %u entries, the first says %u", i, be32(&e[4]), n);
        RP r{(int)i, be32(&e[8]), (PedSector)be32(&e[8]) + be32(&e[12]) - 1};
        r.name = cstr(&e[16], 32);
        r.ptype = cstr(&e[48], 32);
        r.attr = be32(&e[88]);
        if (r.ptype == "Apple_Void") continue;
        if (!be32(&e[12])) BAD("map entry %u is empty", i);
        if (r.e >= m.length) BAD("map entry %u ends at %lld", i, (long long)r.e);
        if ((PedSector)be32(&e[80]) + be32(&e[84]) > (PedSector)be32(&e[12])) BAD("map entry %u: data area is larger than the partition", i);
        if (o.fresh && be32(&e[84]) != be32(&e[12])) BAD("map entry %u: data area %u of %u", i, be32(&e[84]), be32(&e[12]));
        all.push_back({r.s, r.e});
        if (!strcasecmp(r.ptype.c_str(), "Apple_Extra") || (!strcasecmp(r.ptype.c_str(), "Apple_Void"))) BAD("map entry %u of type %s", i, r.ptype.c_str());
        if (!strcasecmp(r.ptype.c_str(), "Apple_Free") && !r.name.empty() && r.name != "Extra") BAD("map entry %u: free space with a name", i);   // some take it for a partition
        if (strcasecmp(r.ptype.c_str(), "Apple_Free") == 0 && r.ptype != "Apple_Free") BAD("map entry %u of type %s", i, r.ptype.c_str());
        if (r.ptype == "Apple_Free") continue;
        if (r.ptype == "Apple_partition_map") {
            map++;
            mape = r.e;
            if (r.s > 1 || r.e < n) BAD("the partition map covers [%lld,%lld] but has %u entries", (long long)r.s, (long long)r.e, n);
            if (r.e > 1 << 16) BAD("the partition map covers %lld sectors", (long long)r.e);
            for (PedSector k = 1; k <= r.e; k++) P.tables.insert(k);
        }
        P.parts.push_back(r);
    }
    if (map != 1) BAD("%d partition map entries", map);
    (void)mape;
    std::sort(all.begin(), all.end());
    PedSector at = 1;
    for (auto &x : all) {
        if (x.first < at && !(x.first == 0 && at == 1)) BAD("map entries overlap at %lld", (long long)x.first);
        if (x.first > at) BAD("blocks [%lld,%lld] are in no map entry", (long long)at, (long long)x.first - 1);
        at = x.second + 1;
    }
    if (at < mlen) BAD("blocks from %lld on are in no map entry", (long long)at);
    return P;
}

// ------------------------------------------------------------------ SGI volume header
static Parsed p_dvh(const MemDev &m, const ParseOpts &o) {
    Parsed P;
    Buf b = m.read(0);
    if (be32(&b[0]) != 0x0be5a941) BAD("magic %08x", be32(&b[0]));
    uint32_t s = 0;
    for (int i = 0; i < 512; i += 4) s += be32(&b[i]);
    if (s) BAD("wrong checksum");
    P.tables.insert(0);
    std::string bootfile = cstr(&b[8], 16);
    int root = (int16_t)be16(&b[4]), swap = (int16_t)be16(&b[6]);
    PedSector hs = 0, he = -1;
    for (int i = 0; i < 16; i++) {
        const uint8_t *e = &b[312 + 12 * i];
        uint32_t n = be32(e), st = be32(e + 4);
        int t = be32(e + 8);
        if (i == 10) {
            if (n != (uint32_t)m.length || st || t != 6) BAD("volume slot: %u blocks from %u, type %d", n, st, t);
            continue;
        }
        if (!n) { if (st || t) BAD("unused slot %d is not empty", i + 1); continue; }
        RP r{i + 1, st, (PedSector)st + n - 1};
        r.tid = t;
        r.ext = t == 0;
        if (r.ext) { hs = r.s; he = r.e; }
        if (root == i) r.attr |= 1;
        if (swap == i) r.attr |= 2;
        if (r.e >= m.length) BAD("slot %d ends at %lld", i + 1, (long long)r.e);
        P.parts.push_back(r);
    }
    std::set<std::string> names;
    for (int i = 0; i < 15; i++) {
        const uint8_t *e = &b[72 + 16 * i];
        uint32_t n = be32(e + 12);
        if (!n) { if (!zero(e, 16)) BAD("unused directory slot %d is not empty", i + 1); continue; }
        RP r{17 + i, be32(e + 8), (PedSector)be32(e + 8) + ((PedSector)n + 511) / 512 - 1};
        r.logical = true;
        r.name = cstr(e, 8);
        r.boot = !bootfile.empty() && bootfile == r.name;
        if (r.s < hs || r.e > he) BAD("boot file %d [%lld,%lld] outside the volume header [%lld,%lld]", r.num, (long long)r.s, (long long)r.e, (long long)hs, (long long)he);
        P.parts.push_back(r);
    }
    (void)o;
    return P;
}

// ------------------------------------------------------------------ Amiga RDB
static bool amisum(const Buf &b) {
    uint32_t n = be32(&b[4]), s = 0;
    if (n < 3 || n > b.size() / 4) return false;
    for (uint32_t i = 0; i < n; i++) s += be32(&b[4 * i]);
    return s == 0;
}
static Parsed p_amiga(const MemDev &m, const ParseOpts &o) {
    Parsed P;
    Buf b;
    for (int i = 0; i < 16 && P.loc < 0; i++) {
        b = m.read(i);
        if (!memcmp(b.data(), "RDSK", 4) && amisum(b)) P.loc = i;
    }
    if (P.loc < 0) BAD("no valid RDSK block");
    uint32_t sect = be32(&b[68]), heads = be32(&b[72]), hi = be32(&b[132]);
    if (be32(&b[16]) != (uint32_t)m.ss) BAD("block size %u", be32(&b[16]));
    if (!sect || !heads) BAD("geometry %u/%u", heads, sect);
    PedSector cyl = (PedSector)sect * heads;
    if (be32(&b[144]) != cyl) BAD("%u blocks per cylinder, geometry says %lld", be32(&b[144]), (long long)cyl);
    if (o.fresh && (heads != (uint32_t)m.geom.heads || sect != (uint32_t)m.geom.sectors)) BAD("geometry %u/%u", heads, sect);
    PedSector locyl = be32(&b[136]);
    if (locyl * cyl <= hi) BAD("partitionable area starts at %lld, reserved blocks end at %u", (long long)(locyl * cyl), hi);
    P.tables.insert(P.loc);
    uint32_t at = be32(&b[28]), last = P.loc;
    int num = 1;
    std::set<uint32_t> seen;
    while (at != 0xffffffffu) {
        if (at <= (uint32_t)P.loc || at > hi) BAD("partition block at %u outside the reserved area [0,%u]", at, hi);
        if (!seen.insert(at).second) BAD("partition list loops at %u", at);
        Buf p = m.read(at);
        if (memcmp(p.data(), "PART", 4)) BAD("no PART block at %u", at);
        if (!amisum(p)) BAD("wrong checksum of the partition block at %u", at);
        P.tables.insert(at);
        last = std::max(last, at);
        PedSector c = (PedSector)be32(&p[128 + 12]) * be32(&p[128 + 20]);   // surfaces * blocks per track
        if (!c || c > INT_MAX) BAD("partition block at %u has no geometry", at);
        RP r{num++, (PedSector)be32(&p[128 + 36]) * c, ((PedSector)be32(&p[128 + 40]) + 1) * c - 1};
        if (be32(&p[128]) < 16) BAD("environment of %u longs", be32(&p[128]));
        uint8_t l = p[36];
        if (l > 31) BAD("drive name of %u characters", l);
        r.name = std::string((char *)&p[37], l);
        if (r.name.find('\0') != std::string::npos) BAD("drive name with a NUL");
        r.attr = be32(&p[20]);
        r.tid = be32(&p[128 + 64]);
        if (r.s <= hi || r.e >= m.length || r.e < r.s) BAD("partition %d [%lld,%lld] is not in the partitionable area", r.num, (long long)r.s, (long long)r.e);
        P.parts.push_back(r);
        at = be32(&p[16]);
    }
    if (be32(&b[152]) < last) BAD("highest used block is %u, recorded %u", last, be32(&b[152]));
    return P;
}

// ------------------------------------------------------------------ PC98
static Parsed p_pc98(const MemDev &m, const ParseOpts &) {
    Parsed P;
    Buf b = m.read(0, 2);
    if (b[510] != 0x55 || b[511] != 0xaa) BAD("no signature");
    P.tables.insert(0);
    P.tables.insert(1);
    PedSector H = m.geom.heads, S = m.geom.sectors;
    for (int i = 0; i < 16; i++) {
        const uint8_t *e = &b[512 + 32 * i];
        if (zero(e, 32)) continue;
        auto dec = [&](const uint8_t *p) { return ((PedSector)le16(p + 2) * H + p[1]) * S + p[0]; };
        RP r{i + 1, dec(e + 8), dec(e + 12)};
        if (e[8] >= S || e[9] >= H || e[12] > S || e[13] >= H) BAD("slot %d: CHS fields out of range", i + 1);
        // the head and sector fields of the end are often zero: the last cylinder is meant
        if (!e[12] && !e[13]) r.e = ((PedSector)le16(e + 14) + 1) * H * S - 1;
        PedSector ipl = dec(e + 4);
        if (ipl < r.s || ipl > r.e) BAD("slot %d: boot loader at %lld outside the partition", i + 1, (long long)ipl);
        r.boot = e[0] & 0x80;
        r.attr = !(e[1] & 0x80);   // hidden
        r.tid = (e[0] & 0x7f) << 8 | (e[1] & 0x7f);
        if (!r.tid) BAD("slot %d: no system id", i + 1);
        r.name = std::string((char *)e + 16, strnlen((char *)e + 16, 16));
        while (!r.name.empty() && r.name.back() == ' ') r.name.pop_back();
        if (r.s < H * S) BAD("slot %d starts in the first cylinder", i + 1);
        if (r.e >= m.length || r.e < r.s) BAD("slot %d: [%lld,%lld]", i + 1, (long long)r.s, (long long)r.e);
        P.parts.push_back(r);
    }
    return P;
}

// ------------------------------------------------------------------ Atari AHDI/ICD/XGM
static Parsed p_atari(const MemDev &m, const ParseOpts &) {
    Parsed P;
    Buf b = m.read(0);
    if (be16(&b[510]) == 0x55aa) BAD("root sector looks like an MBR");
    if (be32(&b[0x1c2]) != (uint32_t)m.length) BAD("disk size %u", be32(&b[0x1c2]));
    P.tables.insert(0);
    int num = 1;
    bool used = false, xgm = false;
    auto idok = [](const uint8_t *p) { return isalnum(p[0]) && isalnum(p[1]) && isalnum(p[2]); };
    for (int t = 0; t < 2; t++)
        for (int i = 0; i < (t ? 8 : 4); i++) {
            const uint8_t *e = &b[(t ? 0x156 : 0x1c6) + 12 * i];
            if (!(e[0] & 1)) continue;
            // ICD entries only count without an extended partition and if the first one looks like an entry
            if (t && (xgm || !used || !(b[0x156] & 1) || !idok(&b[0x157]))) break;
            if (!idok(e + 1)) BAD("slot %d: id %02x%02x%02x", i + 1, e[1], e[2], e[3]);
            used = true;
            RP r{0, be32(e + 4), (PedSector)be32(e + 4) + be32(e + 8) - 1};
            r.ptype = std::string((char *)e + 1, 3);
            r.attr = e[0];
            if (!r.s || r.e >= m.length || r.e < r.s) BAD("slot %d: [%lld,%lld]", i + 1, (long long)r.s, (long long)r.e);
            if (r.ptype == "XGM") {
                if (t) BAD("extended partition in the ICD table");
                r.ext = xgm = true;
                P.parts.push_back(r);
                PedSector xs = r.s, xe = r.e, at = xs;
                std::set<PedSector> seen;
                for (;;) {
                    if (at < xs || at > xe) BAD("auxiliary root sector at %lld outside the extended partition", (long long)at);
                    if (!seen.insert(at).second) BAD("chain loops at %lld", (long long)at);
                    P.tables.insert(at);
                    Buf x = m.read(at);
                    const uint8_t *e0 = &x[0x1c6], *e1 = e0 + 12;
                    if (!(e0[0] & 1)) break;
                    RP l{num++, at + (PedSector)be32(e0 + 4), at + (PedSector)be32(e0 + 4) + be32(e0 + 8) - 1};
                    l.logical = true;
                    l.ptype = std::string((char *)e0 + 1, 3);
                    l.attr = e0[0];
                    if (l.s <= at || l.e > xe || l.e < l.s) BAD("logical [%lld,%lld] outside", (long long)l.s, (long long)l.e);
                    P.parts.push_back(l);
                    if (!(e1[0] & 1)) break;
                    if (memcmp(e1 + 1, "XGM", 3)) BAD("link at %lld is not XGM", (long long)at);
                    at = xs + be32(e1 + 4);
                }
            } else {
                r.num = num++;
                P.parts.push_back(r);
            }
        }
    if (!used && memcmp(&b[0x1c7], "PARTEDATARI", 11)) BAD("empty table without its mark");
    return P;
}

Parsed parse_label(const MemDev &m, const std::string &l, const ParseOpts &o) {
    if (l == "gpt") return p_gpt(m, o);
    if (l == "msdos") return p_msdos(m, o);
    if (l == "bsd") return p_bsd(m, o);
    if (l == "sun") return p_sun(m, o);
    if (l == "mac") return p_mac(m, o);
    if (l == "dvh") return p_dvh(m, o);
    if (l == "amiga") return p_amiga(m, o);
    if (l == "pc98") return p_pc98(m, o);
    if (l == "atari") return p_atari(m, o);
    Parsed P;
    P.err = "no parser";
    return P;
}

static std::string gpt_flags(const PSnap &x, const RP &r) {
    static const struct { int flag; const char *g; } T[] = {
        {PED_PARTITION_BOOT, "c12a7328f81f11d2ba4b00a0c93ec93b"}, {PED_PARTITION_ESP, "c12a7328f81f11d2ba4b00a0c93ec93b"},
        {PED_PARTITION_RAID, "a19d880f05fc4d3ba006743f0f84911e"}, {PED_PARTITION_LVM, "e6d6d379f50744c2a23c238f2a3df928"},
        {PED_PARTITION_HPSERVICE, "e2a1e72832e311d6a6827b03a0000000"}, {PED_PARTITION_PREP, "9e1a2d38c6124316aa268b49521e5a8b"},
        {PED_PARTITION_MSFT_RESERVED, "e3c9e3160b5c4db8817df92df00215ae"}, {PED_PARTITION_BIOS_GRUB, "2168614864496e6f744e656564454649"},
        {PED_PARTITION_APPLE_TV_RECOVERY, "5265636f766511aaaa1100306543ecac"}, {PED_PARTITION_DIAG, "de94bba406d14d40a16abfd50179d6ac"},
        {PED_PARTITION_MSFT_DATA, "ebd0a0a2b9e5443387c068b6b72699c7"}, {PED_PARTITION_IRST, "d3bfe2de3daf11dfba40e3a556d89593"},
        {PED_PARTITION_SWAP, "0657fd6da4ab43c484e50933c84b4f4f"}, {PED_PARTITION_CHROMEOS_KERNEL, "fe3a2a5d4f3241a7b725accc3285a309"},
        {PED_PARTITION_BLS_BOOT, "bc13c2ff59e64262a352b275fd6f7172"}, {PED_PARTITION_LINUX_HOME, "933ac7e12eb44f13b8440e14e2aef915"}};
    for (auto &t : T)
        if (!!(x.flags >> t.flag & 1) != (r.ptype == t.g))
            return fmt("flag %s is %d, type GUID is %s", ped_partition_flag_get_name((PedPartitionFlag)t.flag), x.flags >> t.flag & 1, r.ptype.c_str());
    static const struct { int flag, bit; } A[] = {{PED_PARTITION_HIDDEN, 0}, {PED_PARTITION_LEGACY_BOOT, 2}, {PED_PARTITION_NO_AUTOMOUNT, 63}};
    for (auto &a : A)
        if ((x.flags >> a.flag & 1) != (r.attr >> a.bit & 1)) return fmt("flag %d but attributes %llx", a.flag, (unsigned long long)r.attr);
    return "";
}

std::string compare(const Parsed &P, const DSnap &d, const MemDev &m) {
    std::vector<PSnap> a = d.parts;
    const std::string &L = d.label;
    std::vector<RP> b = P.parts;
    if (L == "amiga") {
        std::sort(a.begin(), a.end(), [](const PSnap &x, const PSnap &y) { return x.num < y.num; });
        int n = 1;
        for (auto &x : a) x.num = n++;
    }
    if (L == "atari") {
        for (auto &x : a) if (x.type & PED_PARTITION_EXTENDED) x.num = 0;
    }
    if (a.size() != b.size()) return fmt("%zu partitions in memory, %zu on disk", a.size(), b.size());
    auto key = [](auto &x, auto &y) { return std::make_pair(x.num, x.s) < std::make_pair(y.num, y.s); };
    std::sort(a.begin(), a.end(), key);
    std::sort(b.begin(), b.end(), key);
    if (L == "gpt") {
        if (!d.uuid.empty() && d.uuid != P.uuid) return "disk GUID " + P.uuid + " vs " + d.uuid;
        if (!!(d.dflags & 1u << PED_DISK_GPT_PMBR_BOOT) != P.bootflag) return "pmbr_boot";
    }
    for (size_t i = 0; i < a.size(); i++) {
        auto &x = a[i];
        auto &r = b[i];
        std::string who = fmt("partition %d: ", x.num);
        if (x.num != r.num) return fmt("partition number %d vs %d on disk", x.num, r.num);
        if (x.s != r.s || x.e != r.e) return who + fmt("[%lld,%lld] in memory, [%lld,%lld] on disk", (long long)x.s, (long long)x.e, (long long)r.s, (long long)r.e);
        if (!!(x.type & PED_PARTITION_EXTENDED) != r.ext || !!(x.type & PED_PARTITION_LOGICAL) != r.logical) return who + "kind differs";
        auto fl = [&](int f) { return (x.flags >> f & 1) != 0; };
        if (L == "gpt") {
            if (x.type_uuid != r.ptype) return who + "type " + x.type_uuid + " vs " + r.ptype;
            if (x.uuid != r.uuid) return who + "uuid " + x.uuid + " vs " + r.uuid;
            if (x.name != r.name) return who + "name '" + x.name + "' vs '" + r.name + "'";
            auto e = gpt_flags(x, r);
            if (!e.empty()) return who + e;
        } else if (L == "msdos") {
            if (x.type_id != r.tid) return who + fmt("type %02x vs %02x on disk", x.type_id, r.tid);
            if (fl(PED_PARTITION_BOOT) != r.boot) return who + fmt("boot flag %d, indicator %d", fl(PED_PARTITION_BOOT), r.boot);
            static const struct { int f; std::set<int> t; } T[] = {
                {PED_PARTITION_RAID, {0xfd}}, {PED_PARTITION_LVM, {0x8e, 0xfe}}, {PED_PARTITION_PALO, {0xf0}}, {PED_PARTITION_PREP, {0x41}},
                {PED_PARTITION_ESP, {0xef}}, {PED_PARTITION_IRST, {0x84}}, {PED_PARTITION_BLS_BOOT, {0xea}}, {PED_PARTITION_SWAP, {0x82}},
                {PED_PARTITION_DIAG, {0x12, 0x27, 0xde}}};
            for (auto &t : T)
                if (fl(t.f) && !t.t.count(r.tid)) return who + fmt("flag %s with type %02x", ped_partition_flag_get_name((PedPartitionFlag)t.f), r.tid);
        } else if (L == "mac" || L == "amiga") {
            if (x.name != r.name) return who + "name '" + x.name + "' vs '" + r.name + "'";
            if (L == "amiga") {
                int f = (fl(PED_PARTITION_BOOT) ? 1 : 0) | (fl(PED_PARTITION_HIDDEN) ? 2 : 0) | (fl(PED_PARTITION_RAID) ? 4 : 0) | (fl(PED_PARTITION_LVM) ? 8 : 0);
                if ((r.attr & 15) != (unsigned)f) return who + fmt("flags %x vs %llx", f, (unsigned long long)r.attr);
            }
        } else if (L == "dvh") {
            if (x.has_name && x.name != r.name && (x.type & PED_PARTITION_LOGICAL)) return who + "name '" + x.name + "' vs '" + r.name + "'";
            if (!r.logical && fl(PED_PARTITION_ROOT) != !!(r.attr & 1)) return who + "root flag";
            if (!r.logical && fl(PED_PARTITION_SWAP) != !!(r.attr & 2)) return who + "swap flag";
        } else if (L == "pc98") {
            std::string n = x.name.empty() ? x.fs : x.name;
            while (!n.empty() && n.back() == ' ') n.pop_back();
            if (n != r.name) return who + "name '" + n + "' vs '" + r.name + "'";
            if (fl(PED_PARTITION_BOOT) != r.boot) return who + "boot flag";
            if (fl(PED_PARTITION_HIDDEN) != !!r.attr) return who + "hidden flag";
        } else if (L == "sun") {
            static const struct { int f, id; } T[] = {{PED_PARTITION_BOOT, 1}, {PED_PARTITION_ROOT, 2}, {PED_PARTITION_LVM, 0x8e}, {PED_PARTITION_RAID, 0xfd}};
            for (auto &t : T)
                if (fl(t.f) != (r.tid == t.id)) return who + fmt("flag %d with tag %x", t.f, r.tid);
        } else if (L == "atari") {
            if (x.has_name) return who + "unexpected name";
            if (fl(PED_PARTITION_BOOT) != !!(r.attr & 0xfe)) return who + "boot flag";
        }
    }
    (void)m;
    return "";
}
