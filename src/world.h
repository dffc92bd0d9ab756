// A generated world: one in-memory device, one table, and random operations on it through
// libparted's public API, with snapshots for the oracles.
#pragma once
#include "memdev.h"
#include <algorithm>
#include <tuple>

struct PSnap {
    int num, type;
    PedSector s, e;
    bool has_name = false;
    std::string name;
    uint32_t avail = 0, flags = 0;
    int type_id = -1;
    std::string type_uuid, uuid;
    std::string fs;
    bool operator==(const PSnap &o) const {
        return num == o.num && type == o.type && s == o.s && e == o.e && has_name == o.has_name && name == o.name &&
               avail == o.avail && flags == o.flags && type_id == o.type_id && type_uuid == o.type_uuid && uuid == o.uuid && fs == o.fs;
    }
};
struct RawPart {
    int num, type;
    PedSector s, e;
    bool inner;   // listed inside the extended partition
    bool operator==(const RawPart &o) const { return num == o.num && type == o.type && s == o.s && e == o.e && inner == o.inner; }
};
struct DSnap {
    std::string label;
    PedSector len = 0;
    uint32_t davail = 0, dflags = 0;
    std::string uuid;
    std::vector<PSnap> parts;
    std::vector<RawPart> raw;
};
std::string hex(const void *p, size_t n);
PSnap psnap(const PedPartition *p);
DSnap snap(const PedDisk *d);
std::string show(const PSnap &p);
std::string show(const DSnap &d, bool raw = false);
// empty if equal; fs: compare fs types; raw: compare free/metadata lists; attrs: everything else
std::string diff(const DSnap &a, const DSnap &b, bool fs, bool raw);

enum OpKind { OP_ADD, OP_RESIZE, OP_MAXIMIZE, OP_DELETE, OP_NAME, OP_FLAG, OP_SYSTEM, OP_TYPEID, OP_TYPEUUID, OP_DISKFLAG, OP_MINEXT, OP_DELALL, OP_N };
struct ConsSpec {   // what the caller asked for, kept as plain numbers
    PedSector so = 0, sg = 1, eo = 0, eg = 1;
    PedSector ss = 0, se = 0, es = 0, ee = 0, min = 1, max = 0;
    bool ok(PedSector s, PedSector e) const;
    std::string str() const;
};
struct OpRes {
    OpKind kind;
    bool ok = false;
    bool has_cons = false, range_in_cons = false;
    ConsSpec cons;
    PedPartition *part = nullptr;  // target, if still alive
    PSnap target_before;           // for operations on an existing partition
    PSnap target_after;
    int flag = 0, state = 0;
    std::string name;
    PedSector rs = 0, re = 0;      // requested geometry
    int req_type = 0;
    DSnap before, after;
    std::string desc;
    size_t nexc = 0;
};

struct World {
    pbt::Ctx &c;
    MemDev *m = nullptr;
    PedDevice *dev = nullptr;
    PedDisk *disk = nullptr;
    std::string label;
    bool tiny = true;                   // devices of a few sectors too
    bool foreign = false;               // the table is not one libparted made
    World(pbt::Ctx &c) : c(c) {}
    ~World() { close(); }
    void close();
    void reset();                       // library-global state
    void gen_device(const std::string &label);
    bool make_label(const std::string &label);   // fresh table in memory; false if not possible
    bool load();                        // (re)read the table from the device
    void reopen();                      // forget everything in memory, open the device again
    int commit() { return ped_disk_commit_to_dev(disk); }
    OpRes op(std::initializer_list<int> w = {});
    ConsSpec gen_cons(PedSector s, PedSector e);
    PedConstraint *make(const ConsSpec &k);
    std::vector<PedPartition *> active();
    PedPartition *pick_active();
    std::string gen_name();
    const PedFileSystemType *gen_fs();
};
const std::vector<std::string> &writable_labels();
std::string gen_label(pbt::Ctx &c);
std::string tiling_error(const PedDisk *d);
