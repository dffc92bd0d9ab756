// FAT16 / FAT32: an independent writer of populated file systems and an independent reader that
// checks one and reports what it holds.  Written from the published on-disk format.
#pragma once
#include "memdev.h"
#include <functional>
#include <map>
#include <set>

struct FatGeo {
    bool fat32 = false;
    PedSector start = 0, len = 0;
    int spc = 4, reserved = 1, nfats = 2, rootents = 512, media = 0xf8;
    uint32_t fatsz = 0, clusters = 0, root = 0, serial = 0;
    int infosec = 1, backup = 6;
    PedSector tot = 0;
    std::string label;     // in the boot sector
    PedSector rootsecs() const { return rootents * 32 / 512; }
    PedSector data() const { return reserved + (PedSector)nfats * fatsz + rootsecs(); }
    PedSector csec(uint32_t c) const { return start + data() + (PedSector)(c - 2) * spc; }
};
struct FatEnt {
    std::string path;      // raw short names
    std::string meta;      // attributes, times, size
    std::string lfn;
    bool dir = false, label = false;
    uint32_t size = 0, first = 0;
    uint64_t hash = 0;
    std::vector<uint32_t> chain;
    bool operator==(const FatEnt &o) const { return path == o.path && meta == o.meta && lfn == o.lfn && dir == o.dir && label == o.label && size == o.size && hash == o.hash; }
    std::string str() const;
};
struct FatTree {
    FatGeo g;
    std::string err;       // why it is not consistent
    std::vector<FatEnt> ents;   // in directory order, depth first
    std::set<uint32_t> bad;
    uint32_t used = 0;
    uint32_t dirclusters = 0;
};
FatTree fat_read(const MemDev &m, PedSector start, PedSector len);
// populate [start, start+len) of the device; false if the parameters give no such file system
bool fat_make(pbt::Ctx &c, MemDev &m, PedSector start, PedSector len, std::string *desc, FatGeo *geo);
void dump_image(const MemDev &m, PedSector start, PedSector len, const char *path);
