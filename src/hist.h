// Shared by the history-based harnesses: what a format can store, starting a world, commit logs.
#pragma once
#include "world.h"
using namespace pbt;
// What a label cannot store on disk (so a round trip may not preserve it).  Everything else must
// survive commit + reopen.
inline void storable(DSnap &d) {
    // amiga: a partition's number is its position in the list of partition blocks
    if (d.label == "amiga") {
        std::vector<int> nums;
        for (auto &p : d.parts) nums.push_back(p.num);
        std::sort(nums.begin(), nums.end());
        for (auto &p : d.parts) p.num = std::lower_bound(nums.begin(), nums.end(), p.num) - nums.begin() + 1;
    }
    // cylinder alignment is a property of the session, not of the label
    d.dflags &= ~(1u << PED_DISK_CYLINDER_ALIGNMENT);
    // a loop label is the absence of a table: nothing but the whole device can be stored
    if (d.label == "loop") d.parts.clear();
    for (auto &p : d.parts) {
        // pc98: a partition without a name is stored under the name of its file system
        if (d.label == "pc98" && p.name.empty()) p.name = p.fs;
        // bsd partition entries hold a type byte only; the flags exist in memory only
        if (d.label == "bsd") p.flags = 0;
        // mac: root and swap are stored as the partition's name, on Apple_UNIX_SVR2 partitions only
        if (d.label == "mac") p.flags &= ~(1u << PED_PARTITION_ROOT | 1u << PED_PARTITION_SWAP);
        // dvh: the file to boot is stored by name, so it needs a name of its own
        if (d.label == "dvh" && (p.type & PED_PARTITION_LOGICAL)) {
            int same = 0;
            for (auto &q : d.parts) same += (q.type & PED_PARTITION_LOGICAL) && q.name == p.name;
            if (p.name.empty() || same > 1) p.flags &= ~(1u << PED_PARTITION_BOOT);
        }
    }
}
inline std::string rt_diff(DSnap a, DSnap b, bool raw) {
    storable(a);
    storable(b);
    return diff(a, b, false, raw);
}

// A dvh label without its volume header partition is offered for repair on every read.
inline bool readable(const DSnap &d) {
    if (d.label != "dvh") return true;
    for (auto &p : d.parts) if (p.type & PED_PARTITION_EXTENDED) return true;
    return false;
}
inline bool start_world(World &w, Ctx &c, const std::string &lab) {
    w.reset();
    w.gen_device(lab);
    if (!w.dev) c.fail("no-device", "could not open the memory device");
    return w.make_label(lab);
}
// a history of operations: "one more?" is asked before each, so that shrinking can drop any of them
struct Steps {
    Ctx &c;
    int avg, i = 0;
    Steps(Ctx &c, int avg) : c(c), avg(c.thorough ? avg * 2 : avg) {}
    bool next() { return i++ == 0 || (i < 6 * avg && c.chance(avg - 1, avg)); }
};

inline std::vector<WriteOp> commit_log(World &w, PedDisk *d, int &ok) {
    auto saved = w.m->data;
    w.m->resetlog();
    ok = ped_disk_commit_to_dev(d);
    auto l = w.m->log;
    w.m->data = saved;
    return l;
}
inline std::map<PedSector, std::vector<uint8_t>> final_image(World &w, const std::vector<WriteOp> &l) {
    std::map<PedSector, std::vector<uint8_t>> r;
    for (auto &x : l)
        for (PedSector i = 0; i < x.count; i++)
            r[x.start + i] = std::vector<uint8_t>(x.data.begin() + i * w.m->ss, x.data.begin() + (i + 1) * w.m->ss);
    return r;
}
