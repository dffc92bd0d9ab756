// Generated contents: tables other tools could have written, damage, file-system signatures.
#pragma once
#include "hist.h"
#include "parsers.h"
inline bool in(PedSector x, PedSector s, PedSector e) { return x >= s && x <= e; }
inline void set_len(MemDev *m, PedSector n) {
    m->length = n;
    m->geom.cylinders = (int)std::min<PedSector>(n / ((PedSector)m->geom.heads * m->geom.sectors), INT32_MAX);
}
inline void wsect(MemDev *m, PedSector s, const std::vector<uint8_t> &v) { m->put(s, v.data()); }

// ---------------------------------------------------------------- foreign tables
inline void p16(uint8_t *p, unsigned v) { p[0] = v; p[1] = v >> 8; }
inline void p32(uint8_t *p, uint32_t v) { p16(p, v); p16(p + 2, v >> 16); }
inline void p64(uint8_t *p, uint64_t v) { p32(p, v); p32(p + 4, v >> 32); }
// A conforming GPT that another tool could have written: other entry counts and array places.
inline bool foreign_gpt(World &w, Ctx &c) {
    MemDev *m = w.m;
    int n = c.pickl({128, 4, 16, 130, 256, 512, 100});
    PedSector es = ((PedSector)n * 128 + m->ss - 1) / m->ss;
    PedSector room = std::max<PedSector>(es, (16384 + m->ss - 1) / m->ss);   // UEFI: at least 16 KiB are reserved
    PedSector gap = c.chance(1, 2) ? 0 : c.range(0, 100);
    PedSector el = 2 + gap, fu = el + room + (c.chance(1, 2) ? 0 : c.range(0, 2000)), lu = m->length - 2 - room - (c.chance(1, 2) ? 0 : c.range(0, 50));
    if (lu - fu < 20) return false;
    std::vector<uint8_t> arr(es * m->ss), h(m->ss), b(m->ss);
    int k = (int)c.range(0, std::min(n, 8));
    PedSector at = fu;
    std::set<int> used;
    for (int i = 0; i < k && at <= lu; i++) {
        PedSector s = at + c.biased(0, (lu - at) / 2), e = s + c.biased(0, (lu - s) / 2);
        int slot;
        do slot = (int)c.draw(n - 1); while (used.count(slot) && used.size() < (size_t)n);
        if (!used.insert(slot).second) break;
        uint8_t *p = &arr[slot * 128];
        for (int j = 0; j < 32; j++) p[j] = (uint8_t)(c.draw(255) | 1);
        p[16] = i + 1; p[17] = slot;
        p64(p + 32, s); p64(p + 40, e);
        p64(p + 48, c.pickl<uint64_t>({0, 1, 4, 5, 1ull << 63, 2, 1ull << 60, 1ull << 48}));
        int len = (int)c.range(0, 36);
        for (int j = 0; j < len; j++) p16(p + 56 + 2 * j, c.chance(1, 8) ? c.pickl<unsigned>({0xe9, 0x65e5, 0x3a9}) : (unsigned)c.range(' ', '~'));
        c.note("foreign gpt entry %d [%lld,%lld]", slot + 1, (long long)s, (long long)e);
        at = e + 1;
    }
    int hs = 92;
    memcpy(&h[0], "EFI PART", 8);
    p32(&h[8], 0x10000); p32(&h[12], hs);
    p64(&h[24], 1); p64(&h[32], m->length - 1); p64(&h[40], fu); p64(&h[48], lu);
    for (int j = 0; j < 16; j++) h[56 + j] = (uint8_t)(c.draw(255) | 1);
    p64(&h[72], el); p32(&h[80], n); p32(&h[84], 128);
    p32(&h[88], ref_crc32(arr.data(), (size_t)n * 128));
    p32(&h[16], 0); p32(&h[16], ref_crc32(h.data(), hs));
    m->put(1, h.data());
    for (PedSector i = 0; i < es; i++) m->put(el + i, &arr[i * m->ss]);
    PedSector bel = m->length - 1 - es;
    p64(&h[24], m->length - 1); p64(&h[32], 1); p64(&h[72], bel);
    p32(&h[16], 0); p32(&h[16], ref_crc32(h.data(), hs));
    m->put(m->length - 1, h.data());
    for (PedSector i = 0; i < es; i++) m->put(bel + i, &arr[i * m->ss]);
    uint8_t *e = &b[446];
    e[2] = 2; e[4] = 0xee; e[5] = e[6] = e[7] = 0xff;
    p32(e + 8, 1); p32(e + 12, (uint32_t)std::min<uint64_t>(m->length - 1, 0xffffffffu));
    b[510] = 0x55; b[511] = 0xaa;
    m->put(0, b.data());
    c.note("foreign gpt: %d entries at %lld, usable [%lld,%lld]", n, (long long)el, (long long)fu, (long long)lu);
    return true;
}
// A DOS table as other tools write it: EBRs far from their partitions, unused slots between used ones.
inline bool foreign_dos(World &w, Ctx &c) {
    MemDev *m = w.m;
    PedSector L = std::min<PedSector>(m->length, 1ll << 32);
    if (L < 2000) return false;
    int np = (int)c.range(0, 3), nl = (int)c.range(0, 5);
    std::vector<uint8_t> b(m->ss);
    for (int i = 0; i < 440; i++) b[i] = (uint8_t)(i * 3 + 1);
    memcpy(&b[0x36], "\x01\x02\x03", 3);
    memcpy(&b[0x52], "\x01\x02\x03", 3);
    p32(&b[440], (uint32_t)c.range(1, 0xffffffffll));
    b[510] = 0x55; b[511] = 0xaa;
    std::vector<int> slots = {0, 1, 2, 3};
    for (int i = 3; i > 0; i--) std::swap(slots[i], slots[c.draw(i)]);
    int total = np + (nl ? 1 : 0);
    PedSector at = 1;
    auto chs = [&](uint8_t *p) { p[0] = 0xfe; p[1] = 0xff; p[2] = 0xff; };
    static const int ids[] = {0x83, 0x07, 0x82, 0x0b, 0x0c, 0x8e, 0xfd, 0x06, 0x17, 0xa5};
    for (int i = 0; i < total; i++) {
        bool ext = nl && i == total - 1;
        PedSector room = (L - 1 - at) / (total - i);
        if (room < 200) return false;
        PedSector s = at + c.range(0, room / 4), e = s + c.range(100, room / 2);
        uint8_t *p = &b[446 + 16 * slots[i]];
        p[0] = c.chance(1, 4) && !ext ? 0x80 : 0;
        chs(p + 1); chs(p + 5);
        p[4] = ext ? c.pickl({5, 0x0f, 0x85}) : ids[c.draw(9)];
        p32(p + 8, s); p32(p + 12, e - s + 1);
        c.note("foreign dos slot %d type %02x [%lld,%lld]", slots[i] + 1, p[4], (long long)s, (long long)e);
        if (ext) {
            PedSector ebr = s, pos = s + 1;
            int k = (int)std::min<PedSector>(nl, (e - s) / 40);
            for (int j = 0; j < k; j++) {
                std::vector<uint8_t> x(m->ss);
                x[510] = 0x55; x[511] = 0xaa;
                PedSector r2 = (e - pos) / (k - j);
                if (r2 < 12) { if (j == 0) wsect(m, ebr, x); break; }
                PedSector ls = pos + c.range(0, r2 / 4), le = ls + c.range(1, r2 / 2);
                uint8_t *q = &x[446];
                chs(q + 1); chs(q + 5);
                q[4] = ids[c.draw(9)];
                p32(q + 8, ls - ebr); p32(q + 12, le - ls + 1);
                c.note("  logical by EBR %lld type %02x [%lld,%lld]", (long long)ebr, q[4], (long long)ls, (long long)le);
                PedSector next = le + 1 + c.range(0, 3);
                if (j + 1 < k && (e - next) / (k - j - 1) >= 14) {
                    uint8_t *t = q + 16;
                    chs(t + 1); chs(t + 5);
                    t[4] = 5;
                    p32(t + 8, next - s); p32(t + 12, e - next + 1);   // reaches to the end, as some tools write it
                    wsect(m, ebr, x);
                    ebr = next;
                    pos = next + 1;
                } else {
                    wsect(m, ebr, x);
                    break;
                }
            }
            if (!k) { std::vector<uint8_t> x(m->ss); x[510] = 0x55; x[511] = 0xaa; wsect(m, ebr, x); }
        }
        at = e + 1;
    }
    m->put(0, b.data());
    return true;
}

// a world whose table may come from another tool, or (grow) be a GPT on a device that grew and
// whose owner declined to move the backup
inline bool start_any(World &w, Ctx &c, const std::string &lab, bool grow) {
    if (!start_world(w, c, lab)) return false;
    if (lab != "gpt" && lab != "msdos") return true;
    if (c.chance(1, 6)) {
        if (!(lab == "gpt" ? foreign_gpt(w, c) : foreign_dos(w, c))) return false;
        w.reopen();
        exc_clear();
        if (!w.load() || lab != w.disk->type->name) c.fail("harness:foreign", "the table another tool made is not read: %s", exc_dump().c_str());
        w.foreign = true;
        c.cls("foreign");
    }
    if (grow && lab == "gpt" && c.chance(1, 6)) {
        if (!w.commit()) return false;
        set_len(w.m, w.m->length + c.biased(1, 1ll << 24));
        w.reopen();
        c.note("device grows to %lld", (long long)w.m->length);
        g_policy = EXC_IGNORE;
        bool ok = w.load();
        g_policy = EXC_CANCEL;
        if (!ok || lab != w.disk->type->name) c.fail("harness:grown", "the table on the grown device is not read: %s", exc_dump().c_str());
        w.foreign = true;
        c.cls("grown");
    }
    exc_clear();
    return true;
}

// ---------------------------------------------------------------- damage
// every sector the committed table was written to
inline std::vector<PedSector> written(const MemDev &m) {
    std::set<PedSector> s;
    for (auto &x : m.log) if (!x.sync) for (PedSector i = 0; i < x.count && i < 64; i++) s.insert(x.start + i);
    return {s.begin(), s.end()};
}
inline void damage(World &w, Ctx &c, const std::vector<PedSector> &sect, int n) {
    for (int k = 0; k < n && !sect.empty(); k++) {
        PedSector s = c.chance(2, 3) ? sect[c.draw(std::min<size_t>(sect.size() - 1, 3))] : sect[c.draw(sect.size() - 1)];
        auto b = w.m->read(s);
        switch (c.weighted({5, 3, 2, 1, 1})) {
        case 0: { size_t o = c.draw(b.size() - 1); b[o] ^= 1 << c.draw(7); c.note("flip sector %lld byte %zu", (long long)s, o); break; }
        case 1: { size_t o = c.draw(b.size() / 4 - 1) * 4; uint32_t v = c.pickl<uint32_t>({0, 1, 0xffffffff, 0x7fffffff, 0x80000000, 2, 0x100}); memcpy(&b[o], &v, 4); c.note("word %zu of sector %lld = %x", o, (long long)s, v); break; }
        case 2: { size_t o = c.draw(b.size() - 1); b[o] = (uint8_t)c.draw(255); c.note("sector %lld byte %zu = %02x", (long long)s, o, b[o]); break; }
        case 3: std::fill(b.begin(), b.end(), 0); c.note("zero sector %lld", (long long)s); break;
        default: { PedSector t = sect[c.draw(sect.size() - 1)]; b = w.m->read(t); c.note("copy sector %lld to %lld", (long long)t, (long long)s); break; }
        }
        w.m->put(s, b.data());
    }
}
// plausible file-system superblocks
inline void plant_fs(World &w, Ctx &c, PedSector s, PedSector len) {
    struct Sig { const char *name; int off; const char *bytes; int n; };
    static const Sig T[] = {{"ext2", 1024 + 56, "\x53\xef", 2}, {"ntfs", 3, "NTFS    ", 8}, {"xfs", 0, "XFSB", 4}, {"swap", 4086, "SWAPSPACE2", 10},
                            {"swap-old", 4086, "SWAP-SPACE", 10}, {"fat", 510, "\x55\xaa", 2}, {"hfs", 1024, "BD", 2}, {"hfs+", 1024, "H+\0\4", 4},
                            {"reiserfs", 65536 + 52, "ReIsEr2Fs", 9}, {"jfs", 32768, "JFS1", 4}, {"btrfs", 65536 + 64, "_BHRfS_M", 8}, {"f2fs", 1024, "\x10\x20\xf5\xf2", 4},
                            {"nilfs2", 1024 + 6, "\x34\x34", 2}, {"udf", 32769, "BEA01", 5}, {"apfs", 32, "NXSB", 4}, {"amiga", 0, "DOS\1", 4}};
    auto &t = T[c.draw(sizeof T / sizeof *T - 1)];
    PedSector at = s + t.off / w.m->ss;
    int o = t.off % w.m->ss;
    if (at >= s + len || at >= w.m->length) return;
    auto b = w.m->read(at);
    for (int i = 0; i < t.n && o + i < (int)b.size(); i++) b[o + i] = (uint8_t)t.bytes[i];
    w.m->put(at, b.data());
    c.note("%s signature at sector %lld", t.name, (long long)s);
}

// make the checksums of a damaged table match again, so that the damage is looked at
inline void fix_sums(World &w, Ctx &c, const std::string &l, const std::vector<PedSector> &sect) {
    MemDev *m = w.m;
    c.note("checksums recomputed");
    auto be = [](const uint8_t *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; };
    auto pbe = [](uint8_t *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; };
    auto sum32 = [&](std::vector<uint8_t> &b, size_t words, int at) {
        words = std::min(words, b.size() / 4);
        pbe(&b[at], 0);
        uint32_t s = 0;
        for (size_t i = 0; i < words; i++) s += be(&b[4 * i]);
        pbe(&b[at], -s);
    };
    if (l == "gpt") {
        for (PedSector hs : {(PedSector)1, m->length - 1}) {
            auto h = m->read(hs);
            uint64_t el; uint32_t n, z, hsz;
            memcpy(&hsz, &h[12], 4); memcpy(&el, &h[72], 8); memcpy(&n, &h[80], 4); memcpy(&z, &h[84], 4);
            uint32_t bytes = n * z;   // as a 32-bit reader would
            if (el < (uint64_t)m->length && bytes && bytes <= 1u << 20) {
                auto a = m->read(el, (bytes + m->ss - 1) / m->ss);
                p32(&h[88], ref_crc32(a.data(), bytes));
            }
            if (hsz <= h.size()) { p32(&h[16], 0); p32(&h[16], ref_crc32(h.data(), hsz)); }
            m->put(hs, h.data());
        }
    } else if (l == "sun") {
        auto b = m->read(0);
        uint8_t x0 = 0, x1 = 0;
        for (int i = 0; i < 510; i += 2) { x0 ^= b[i]; x1 ^= b[i + 1]; }
        b[510] = x0; b[511] = x1;
        m->put(0, b.data());
    } else if (l == "dvh") {
        auto b = m->read(0);
        sum32(b, 128, 504);
        m->put(0, b.data());
    } else if (l == "amiga") {
        for (PedSector s : sect) {
            auto b = m->read(s);
            if (!memcmp(b.data(), "RDSK", 4) || !memcmp(b.data(), "PART", 4)) { sum32(b, std::min<uint32_t>(be(&b[4]), 128), 8); m->put(s, b.data()); }
        }
    } else if (l == "bsd") {
        auto b = m->read(0);
        uint64_t sum = 0, v;
        for (int i = 0; i < 63; i++) { memcpy(&v, &b[8 * i], 8); sum += v; }
        memcpy(&b[504], &sum, 8);
        m->put(0, b.data());
    }
}
