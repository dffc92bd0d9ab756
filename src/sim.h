// A simulated kernel for libparted/arch/linux.c: the system calls it makes are intercepted at
// link time (--wrap).  One disk (regular file or block device) with its partition devices, its
// sysfs directory and the mount tables; every call can be made to fail, stop short or be
// interrupted by the harness.
#pragma once
#include "pbt.h"
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

enum SimKind { S_OPEN, S_READ, S_WRITE, S_SEEK, S_FSYNC, S_CLOSE, S_IOCTL, S_FOPEN, S_STAT, S_BLKPG };
struct SimCall {
    SimKind kind;
    std::string path;      // of the object
    int part = 0;          // partition number, 0 = the whole disk
    uint64_t off = 0, len = 0;
    uint64_t req = 0;      // ioctl request or BLKPG operation
    int pno = 0;
    int flags = 0;
};
struct SimPart { uint64_t start, len; bool busy = false; };
struct SimDisk {
    std::string path;
    bool blk = true;
    int major = 202, minor = 0;
    int ss = 512, pss = 512;
    uint64_t min_io = 0, opt_io = 0, align_off = 0;
    bool topo = true;
    uint64_t size = 0;                                   // bytes
    std::unordered_map<uint64_t, std::vector<uint8_t>> data;   // 4096-byte pages
    std::map<int, SimPart> parts;                        // bytes
    int ext_range = 256;                                 // -1: no such file
    bool getgeo = true, blkpg = true, getsize64 = true, ssz = true, ident = true;
    void rd(uint64_t off, uint64_t n, uint8_t *out) const;
    void wr(uint64_t off, uint64_t n, const uint8_t *in);
    std::string part_path(int n) const;
};
struct Sim {
    std::vector<SimDisk> disks;
    std::map<std::string, std::string> files;            // /proc/mounts and the like
    std::set<std::string> hidden;                        // files that cannot be opened
    std::map<std::string, std::string> links;            // symbolic links
    std::function<int(SimCall &)> fault;                 // >0 errno, -1 transfers nothing, 0 go on (len may be lowered)
    uint64_t slept = 0;                                  // microseconds
    uint64_t calls = 0, call_limit = 0;
    bool limit_hit = false;
    std::vector<std::string> log;                        // BLKPG calls
    int nopen = 0;                                       // open descriptors
    int badfd = 0;                                       // calls on closed descriptors
    SimDisk &d() { return disks[0]; }
    SimDisk *find(const std::string &path, int &part);
    void reset();
};
extern Sim sim;
struct SimExc { int type, options, answer; std::string msg; };
extern std::vector<SimExc> sim_exc;
extern std::function<int(int type, int options, const std::string &)> sim_answer;
void sim_exc_install();
std::string sim_exc_dump();
