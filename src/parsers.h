// Parsers of the on-disk formats, written from the format descriptions and independent of
// libparted's code.  They check conformance and return the partitions they see.
#pragma once
#include "world.h"
struct RP {
    int num;
    PedSector s, e;
    bool ext = false, logical = false;
    int tid = -1;             // type byte / tag
    bool boot = false;
    std::string name, ptype, uuid;
    uint64_t attr = 0;
    PedSector ebr = -1;       // sector that describes it
};
struct Parsed {
    std::string err;
    std::vector<RP> parts;
    std::set<PedSector> tables;   // sectors that hold table structures
    std::string uuid;
    bool bootflag = false;
    uint32_t sig = 0;
    int loc = -1;                 // where the label block was found
};
struct ParseOpts {
    bool chs = false;             // CHS fields must match geom
    bool fresh = true;            // created by libparted (geometry fields are ours)
    PedCHSGeometry geom{0, 0, 0};
};
uint32_t ref_crc32(const uint8_t *p, size_t n);
Parsed parse_label(const MemDev &m, const std::string &label, const ParseOpts &o);
// "" if the parsed table is the table in memory
std::string compare(const Parsed &p, const DSnap &d, const MemDev &m);
