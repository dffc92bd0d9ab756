// In-memory device back end for libparted: sparse, any size, with a log of every write and
// injectable failures.  Installed by replacing libparted's architecture table.
#pragma once
#include <parted/parted.h>
#include <string>
#include <unordered_map>
#include <vector>
#include <memory>
#include "pbt.h"

struct WriteOp {
    bool sync;
    PedSector start, count;
    std::vector<uint8_t> data;
};

struct MemDev {
    std::string path;
    PedSector length = 0;
    long long ss = 512, pss = 512;
    PedCHSGeometry geom{1, 4, 32};
    bool read_only = false;
    PedDeviceType type = PED_DEVICE_FILE;
    std::string model = "mem";
    std::unordered_map<PedSector, std::vector<uint8_t>> data;
    uint32_t bg = 0;   // background: 0 zeros, otherwise a per-sector pattern
    PedSector zlo = 0, zhi = 0;   // [zlo, zhi): zeros instead of the pattern
    int align_off = 0; long long min_io = 0, opt_io = 0;  // reported alignment (sectors), 0 = none

    std::vector<WriteOp> log;
    bool logging = true;
    uint64_t nread = 0, nwrite = 0, nsync = 0, nops = 0;
    uint64_t sectors_read = 0;
    uint64_t oob = 0;              // accesses outside the device
    uint64_t oob_write = 0;
    uint64_t read_limit = 0;       // operations before the device complains (hang guard), 0 = none
    bool limit_hit = false;
    int64_t fail_op = -1;          // index (over reads+writes+syncs) of the operation that fails
    int fail_kind = 0;             // 0 any, 1 read, 2 write, 3 sync: count only these
    uint64_t kind_ops[4] = {0, 0, 0, 0};
    bool fail_sticky = false;
    int fired = 0;
    std::vector<PedSector> badw;   // sectors that cannot be written
    int opens = 0;
    // kernel-side view
    uint64_t os_commits = 0;
    std::vector<int> busy;         // numbers of busy partitions

    void get(PedSector s, uint8_t *out) const;
    void put(PedSector s, const uint8_t *in);
    std::vector<uint8_t> read(PedSector s, PedSector n = 1) const;
    void write(PedSector s, const std::vector<uint8_t> &v);
    void bgfill(PedSector s, uint8_t *out) const;
    bool same(const MemDev &o, PedSector *where = nullptr) const;
    void resetlog() { log.clear(); }
    void nofault() { fail_op = -1; fail_sticky = false; fail_kind = 0; for (auto &k : kind_ops) k = 0; fired = 0; nops = 0; }
};

void memarch_install();
MemDev *mem_new(PedSector length, long long ss, const char *path = nullptr);
void mem_free_all();
MemDev *mem_of(const PedDevice *d);
PedDevice *mem_open(MemDev *m);     // fresh PedDevice (never a cached one)
void mem_close(PedDevice *d);

// exceptions
struct ExcRec {
    int type, options, answer;
    std::string msg;
};
extern std::vector<ExcRec> g_exc;
enum ExcPolicy { EXC_CANCEL, EXC_AGREE, EXC_IGNORE, EXC_UNHANDLED };
extern ExcPolicy g_policy;
extern PedExceptionOption (*g_exc_hook)(PedException *e);
void exc_install();
void exc_clear();
std::string exc_dump();
extern bool g_bug_seen;
uint64_t &det_rng();                // state of the deterministic uuid/time source
