// Real file-system images (data/fs, made by tools/mkfstemplates.py) and synthetic super blocks.
#pragma once
#include "memdev.h"
struct Template {
    std::string name;
    uint64_t total = 0;   // 512-byte sectors
    std::map<uint64_t, std::vector<uint8_t>> sec;
};
static std::vector<Template> g_tpl;
static void load_templates() {
    static const char *names[] = {"ext2", "ext3", "ext4", "btrfs", "f2fs", "xfs", "jfs", "nilfs2", "reiserfs", "udf", "udf2k", "swap", "fat12", "fat16", "fat32", "hfs", "hfsplus", "hfsx", "minix"};
    const char *root = getenv("VERIF_ROOT");
    for (auto n : names) {
        FILE *f = fopen((std::string(root ? root : "/verif") + "/data/fs/" + n).c_str(), "rb");
        if (!f) { fprintf(stderr, "no template %s\n", n); exit(3); }
        Template t;
        t.name = n;
        uint64_t s;
        if (fread(&t.total, 8, 1, f) != 1) exit(3);
        while (fread(&s, 8, 1, f) == 1) {
            std::vector<uint8_t> b(512);
            if (fread(b.data(), 512, 1, f) != 1) exit(3);
            t.sec[s] = b;
        }
        fclose(f);
        g_tpl.push_back(t);
    }
    auto synth = [&](const char *n, uint64_t total, std::initializer_list<std::pair<uint64_t, std::string>> w) {
        Template t;
        t.name = n;
        t.total = total;
        for (auto &x : w) {
            auto &b = t.sec[x.first / 512];
            b.resize(512);
            for (size_t i = 0; i < x.second.size(); i++) b[x.first % 512 + i] = (uint8_t)x.second[i];
        }
        g_tpl.push_back(t);
    };
    auto be = [](uint32_t v) { return std::string{(char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v}; };
    auto le = [](uint32_t v) { return std::string{(char)v, (char)(v >> 8), (char)(v >> 16), (char)(v >> 24)}; };
    synth("ntfs", 4096, {{3, "NTFS    "}, {0x28, le(4095)}, {0x2c, le(0)}});
    synth("swap-v0", 4096, {{4086, "SWAP-SPACE"}});
    synth("swsusp", 4096, {{4086, "S1SUSPEND"}});
    synth("ufs-sun", 8192, {{8192 + 1372, be(0x00011954)}, {8192 + 48, be(8192)}, {8192 + 52, be(1024)}, {8192 + 36, be(500)}});
    synth("ufs-hp", 8192, {{8192 + 1372, be(0x00095014)}, {8192 + 48, be(8192)}, {8192 + 52, be(1024)}, {8192 + 36, be(500)}});
    synth("ufs-hp-le", 8192, {{8192 + 1372, le(0x00195612)}, {8192 + 48, le(8192)}, {8192 + 52, le(1024)}, {8192 + 36, le(500)}});
    auto affs = [&](const char *n, uint32_t kind, uint64_t total) {
        uint64_t root = (total - 2 - 1) / 2 + 2;
        synth(n, total, {{0, be(kind)}, {root * 512, be(2)}, {root * 512 + 508, be(1)}, {root * 512 + 20, be(-3u)}});
    };
    affs("affs", 0x444f5301, 4000);
    affs("amufs", 0x6d754604, 1760);
    synth("apfs", 2000, {{0, be(0x50463101)}, {1024, be(0x50463101)}});
    synth("asfs", 2000, {{0, be(0x53465300)}, {40, be(0)}, {44, be(2000 * 512)}});
}
static void put512(MemDev *m, uint64_t s, const uint8_t *p) {   // byte-addressed
    uint64_t at = s * 512;
    PedSector ds = at / m->ss;
    if (ds >= m->length) return;
    auto b = m->read(ds);
    memcpy(&b[at % m->ss], p, 512);
    m->put(ds, b.data());
}
static std::vector<uint8_t> get512(MemDev *m, uint64_t s) {
    std::vector<uint8_t> r(512);
    uint64_t at = s * 512;
    PedSector ds = at / m->ss;
    if (ds >= m->length) return r;
    auto b = m->read(ds);
    memcpy(r.data(), &b[at % m->ss], 512);
    return r;
}
