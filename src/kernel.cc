// C26: what the kernel knows about partitions after a commit, against a simulated kernel.
#include "sim.h"
#include <parted/parted.h>
#include <cerrno>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <getopt.h>
#include <unistd.h>
#include <linux/blkpg.h>
#include <linux/fs.h>
#include <linux/hdreg.h>
extern "C" int partprobe_main(int argc, char **argv);
using namespace pbt;

struct Ent { PedSector start, len; bool ext; };
typedef std::map<int, Ent> Table;
static Table table_of(PedDisk *d) {
    Table t;
    for (PedPartition *p = nullptr; (p = ped_disk_next_partition(d, p));)
        if (p->num >= 1) t[p->num] = {p->geom.start, p->geom.length, p->type == PED_PARTITION_EXTENDED};
    return t;
}
static std::string tshow(const Table &t) {
    std::string s;
    for (auto &e : t) s += fmt("%d:%lld+%lld%s ", e.first, (long long)e.second.start, (long long)e.second.len, e.second.ext ? "x" : "");
    return s.empty() ? "(none)" : s;
}
static std::string kshow(const SimDisk &k) {
    std::string s;
    for (auto &e : k.parts) s += fmt("%d:%llu+%llu%s ", e.first, (unsigned long long)e.second.start / k.ss, (unsigned long long)e.second.len / k.ss, e.second.busy ? " busy" : "");
    return s.empty() ? "(none)" : s;
}
// what the kernel makes of a table when it scans it itself
static uint64_t ext_len(const SimDisk &k, const Table &t, int num) {
    const Ent &x = t.at(num);
    uint64_t l = k.ss == 512 && x.len > 1 ? 2 : 1;
    for (auto &o : t)
        if (o.first != num && o.second.start == x.start + 1) l = 1;
    return l * k.ss;
}
static void scan(SimDisk &k, const Table &t) {
    k.parts.clear();
    for (auto &e : t)
        if (e.first < 256) k.parts[e.first] = {(uint64_t)e.second.start * k.ss, e.second.ext ? ext_len(k, t, e.first) : (uint64_t)e.second.len * k.ss};
}
static void build(Ctx &c, PedDisk *d, int n) {
    PedDevice *dev = d->dev;
    bool exts = ped_disk_type_check_feature(d->type, PED_DISK_TYPE_EXTENDED);
    for (int i = 0; i < n; i++) {
        int ty = PED_PARTITION_NORMAL;
        PedPartition *x = exts ? ped_disk_extended_partition(d) : nullptr;
        if (exts && !x && c.chance(1, 3)) ty = PED_PARTITION_EXTENDED;
        else if (x && c.chance(2, 3)) ty = PED_PARTITION_LOGICAL;
        PedSector lo = 1, hi = dev->length - 2;
        if (ty == PED_PARTITION_LOGICAL) lo = x->geom.start + 1, hi = x->geom.end;
        PedSector s = lo + (PedSector)((hi - lo) * (double)c.draw(1000) / 1000);
        PedSector l = ty == PED_PARTITION_EXTENDED ? std::max<PedSector>(100, (hi - lo) / 2) : c.chance(1, 4) ? c.range(1, 8) : c.range(1, std::max<PedSector>(1, (hi - lo) / (4 + i)));
        PedSector e = std::min(hi, s + l - 1);
        PedPartition *p = ped_partition_new(d, (PedPartitionType)ty, nullptr, s, e);
        if (!p) continue;
        PedConstraint *k = ped_device_get_constraint(dev);
        bool okay = ped_disk_add_partition(d, p, k);
        if (!okay) ped_partition_destroy(p);
        ped_constraint_destroy(k);
    }
}
static bool g_ignored, g_cancelled, g_setup;
static void answers(Ctx *c) {
    g_ignored = g_cancelled = false;
    if (!c) sim_answer = [](int, int o, const std::string &) {
        return g_setup && o & PED_EXCEPTION_IGNORE ? PED_EXCEPTION_IGNORE : o & PED_EXCEPTION_CANCEL ? PED_EXCEPTION_CANCEL : o & PED_EXCEPTION_OK ? PED_EXCEPTION_OK : o & PED_EXCEPTION_IGNORE ? PED_EXCEPTION_IGNORE : PED_EXCEPTION_UNHANDLED; };
    else sim_answer = [c](int, int o, const std::string &) {
        std::vector<int> can;
        if (o & PED_EXCEPTION_CANCEL) can.push_back(PED_EXCEPTION_CANCEL);
        if (o & PED_EXCEPTION_OK) can.push_back(PED_EXCEPTION_OK);
        can.push_back(PED_EXCEPTION_UNHANDLED);
        if (o & PED_EXCEPTION_IGNORE) can.push_back(PED_EXCEPTION_IGNORE);
        int a = can[c->draw(can.size() - 1)];
        if (a == PED_EXCEPTION_IGNORE) g_ignored = true;
        else g_cancelled = true;
        return a; };
    sim_exc.clear();
}
static std::string logs() {
    std::string s;
    for (auto &l : sim.log) s += l + "; ";
    return s;
}
// the partitions of the kernel compared with a table: empty = equal
static std::string differ(const SimDisk &k, const Table &t, int range) {
    for (auto &e : t) {
        if (e.first > range) continue;
        auto i = k.parts.find(e.first);
        if (i == k.parts.end()) return fmt("partition %d is unknown to the kernel", e.first);
        if (i->second.start != (uint64_t)e.second.start * k.ss) return fmt("partition %d starts at %llu for the kernel, at %lld in the table", e.first, (unsigned long long)i->second.start / k.ss, (long long)e.second.start);
        if (e.second.ext) {
            if (i->second.len > std::max<uint64_t>(1024, k.ss)) return fmt("extended partition %d has %llu bytes for the kernel", e.first, (unsigned long long)i->second.len);
        } else if (i->second.len != (uint64_t)e.second.len * k.ss)
            return fmt("partition %d has %llu sectors for the kernel, %lld in the table", e.first, (unsigned long long)i->second.len / k.ss, (long long)e.second.len);
    }
    for (auto &p : k.parts)
        if (!t.count(p.first)) return fmt("the kernel still has partition %d, which the table does not", p.first);
    return "";
}
static void mounts(Ctx &c, SimDisk &k, std::set<int> &mounted) {
    std::string text[3];
    auto line = [&](int which, const std::string &dev) {
        text[which] += which == 1 ? dev + " partition 1000 0 -2\n" : dev + fmt(" /mnt/%d ext4 rw,relatime 0 0\n", (int)text[which].size());
    };
    text[0] = "proc /proc proc rw 0 0\ntmpfs /run tmpfs rw 0 0\n";
    text[1] = "Filename Type Size Used Priority\n";
    if (c.chance(1, 4)) text[0] += "overlay / overlay rw," + std::string(c.range(300, 900), 'x') + " 0 0\n";
    line(0, "/dev/nodevice1");
    for (auto &p : k.parts)
        if (p.second.busy) {
            mounted.insert(p.first);
            std::string path = k.part_path(p.first);
            if (c.chance(1, 4)) {
                std::string al = fmt("/dev/disk/by-id/%d", p.first);
                sim.links[al] = path;
                path = al;
            }
            line((int)c.draw(2), path);
        }
    if (c.chance(1, 12)) { mounted.insert(0); line((int)c.draw(2), k.path); }
    sim.files["/proc/mounts"] = text[0];
    sim.files["/proc/swaps"] = text[1];
    if (!text[2].empty() || c.chance(1, 2)) sim.files["/etc/mtab"] = text[2];
}
static void c26(Ctx &c) {
    sim.reset();
    sim_exc_install();
    answers(nullptr);
    sim.call_limit = 3000000;
    static const struct { const char *p; int ma; } T[] = {{"/dev/xvdz", 202}, {"/dev/mmcblk7", 179}, {"/dev/nvme3n1", 259}, {"/dev/loop9", 7}, {"/dev/md12", 9}, {"/dev/sdq", 8}, {"/dev/vdq", 253}, {"/dev/hdq", 3}, {"/dev/pmem4", 259}};
    auto &ty = T[c.draw(8)];
    {
        SimDisk &k = sim.d();
        k.path = ty.p; k.major = ty.ma; k.minor = 0;
        k.ss = c.pickl({512, 512, 512, 1024, 2048, 4096});
        k.pss = std::max(k.ss, c.pickl({512, 4096}));
        k.size = (uint64_t)c.range(20000, 90000) * k.ss;
        k.ext_range = c.pickl({256, 256, 256, 256, 64, 16, -1, 1, 0});
        k.ident = !c.chance(1, 6);
    }
    SimDisk &k = sim.d();
    sim.files["/proc/devices"] = "Character devices:\n  1 mem\n253 notvirtblk\n\nBlock devices:\n  8 sd\n253 virtblk\n259 blkext\n";
    g_setup = true;
    PedDevice *dev = ped_device_get(k.path.c_str());
    g_setup = false;
    if (!dev) c.fail("C26:get", "the device cannot be used: %s", sim_exc_dump().c_str());
    if (dev->sector_size != k.ss || (uint64_t)dev->length * k.ss != k.size)
        c.fail("C26:size", "%s: sector size %lld and length %lld reported, device has %d and %llu", ty.p, dev->sector_size, (long long)dev->length, k.ss, (unsigned long long)k.size / k.ss);
    if (!ped_device_open(dev)) c.fail("C26:open", "open fails");
    std::vector<const char *> types = {"gpt", "msdos", "msdos", "gpt", "mac", "sun", "bsd"};
    if (k.ss == 512) types.insert(types.end(), {"pc98", "amiga"});
    auto fresh = [&](const char *t) { PedDisk *d = ped_disk_new_fresh(dev, ped_disk_type_get(t)); if (!d) c.discard(); return d; };
    PedDisk *a = fresh(types[c.draw(types.size() - 1)]);
    build(c, a, (int)c.range(0, c.chance(1, 8) ? 40 : 8));
    Table ta = table_of(a);
    scan(k, ta);
    // the kernel may know less, more or other things than the old table says
    int drift = c.weighted({4, 1, 1});
    if (drift == 1) for (auto i = k.parts.begin(); i != k.parts.end();) { if (c.chance(1, 3)) i = k.parts.erase(i); else ++i; }
    if (drift == 2) {
        int n = (int)c.range(1, c.chance(1, 4) ? 60 : 3);
        for (int i = 0; i < n; i++) {
            uint64_t s = c.range(1, dev->length - 10), l = c.range(1, 200);
            int num = (int)(c.chance(1, 2) ? c.range(1, 40) : c.range(1, 255));
            if (s + l > (uint64_t)dev->length) continue;
            bool hit = k.parts.count(num);
            for (auto &p : k.parts) if (s * k.ss < p.second.start + p.second.len && p.second.start < (s + l) * k.ss) hit = true;
            if (!hit) k.parts[num] = {s * k.ss, l * k.ss};
        }
    }
    k.blkpg = !c.chance(1, 24);
    if (!k.blkpg) k.parts.clear();   // such a device has no partition devices
    int krange = k.ext_range < 0 ? 64 : std::max(1, k.ext_range);
    for (auto i = k.parts.begin(); i != k.parts.end();) { if (i->first >= krange) i = k.parts.erase(i); else ++i; }
    if (c.chance(1, 2)) for (auto &p : k.parts) if (c.chance(1, 3)) p.second.busy = true;
    c.note("%s (%s), %lld sectors of %d, ext_range %d; old table: %s; kernel: %s", k.path.c_str(), a->type->name, (long long)dev->length, k.ss, k.ext_range, tshow(ta).c_str(), kshow(k).c_str());
    // use, as reported
    std::set<int> mounted;
    mounts(c, k, mounted);
    {
        bool any = !mounted.empty();
        if (!!ped_device_is_busy(dev) != any) c.fail("C26:device-busy", "the device is reported as %s; mounted: %s", any ? "not in use" : "in use", (sim.files["/proc/mounts"] + sim.files["/proc/swaps"] + sim.files["/etc/mtab"]).c_str());
        for (PedPartition *p = nullptr; (p = ped_disk_next_partition(a, p));) {
            if (p->num < 1) continue;
            bool want = mounted.count(p->num);
            if (p->type == PED_PARTITION_EXTENDED)
                for (PedPartition *q = p->part_list; q; q = q->next) if (q->num > 0 && mounted.count(q->num)) want = true;
            if (!!ped_partition_is_busy(p) != want) c.fail("C26:partition-busy", "partition %d is reported as %s", p->num, want ? "not in use" : "in use");
        }
    }
    // the new table
    PedDisk *b = a;
    if (c.chance(1, 4)) {
        b = fresh(c.chance(1, 8) ? "loop" : types[c.draw(types.size() - 1)]);
        build(c, b, (int)c.range(0, 6));
    } else {
        int n = (int)c.range(0, 6);
        for (int i = 0; i < n; i++) {
            std::vector<PedPartition *> ps;
            for (PedPartition *p = nullptr; (p = ped_disk_next_partition(a, p));) if (p->num >= 1) ps.push_back(p);
            int what = c.weighted({3, 2, 2});
            if (what == 2 || ps.empty()) { build(c, a, 1); continue; }
            PedPartition *p = ps[c.draw(ps.size() - 1)];
            bool busy = k.parts.count(p->num) && k.parts[p->num].busy;
            if (p->type == PED_PARTITION_EXTENDED && what == 1)
                for (PedPartition *q = p->part_list; q; q = q->next) if (q->num > 0 && k.parts.count(q->num) && k.parts[q->num].busy) busy = true;
            if (what == 1) {
                if (busy && !c.chance(1, 6)) continue;
                ped_disk_delete_partition(a, p);
            } else {
                PedSector s = p->geom.start, e = p->geom.end;
                if (!(busy && !c.chance(1, 8)) && c.chance(1, 3)) s += c.range(0, 400) - 200;
                e += c.chance(1, 2) ? c.range(1, 400) : -c.range(1, 400);
                PedConstraint *q = ped_device_get_constraint(dev);
                if (s >= 0 && e < dev->length && s <= e) ped_disk_set_partition_geom(a, p, q, s, e);
                ped_constraint_destroy(q);
            }
        }
    }
    Table tb = table_of(b);
    c.note("new table (%s): %s", b->type->name, tshow(tb).c_str());
    bool loop = !strcmp(b->type->name, "loop");
    if (loop) tb.clear();
    // faults
    int range = k.ext_range < 0 ? 64 : k.ext_range > 1 ? k.ext_range : 0;
    int lmax = 0;
    ped_disk_get_max_supported_partition_count(b, &lmax);
    bool sysfs = c.chance(5, 6);
    if (!sysfs) { k.getgeo = c.chance(2, 3); k.getsize64 = c.chance(4, 5); }
    std::map<int, int> transient;
    if (c.chance(1, 4)) for (auto &p : k.parts) if (!p.second.busy && c.chance(1, 3)) transient[p.first] = (int)c.range(1, 60);
    int budget = c.chance(1, 3) ? (int)c.range(1, 4) : 0, faults = 0;
    if (budget) c.note("up to %d failing calls", budget);
    if (!transient.empty()) c.note("%zu partitions are busy for a moment", transient.size());
    if (!sysfs) c.note("no partition directories in sysfs%s%s", k.getgeo ? "" : ", no HDIO_GETGEO", k.getsize64 ? "" : ", no BLKGETSIZE64");
    sim.fault = [&](SimCall &x) -> int {
        if (x.kind == S_FOPEN && !sysfs && x.path.compare(0, 11, "/sys/block/") == 0 && x.path.find("ext_range") == std::string::npos) return ENOENT;
        if (x.kind == S_BLKPG && x.req == BLKPG_DEL_PARTITION && !k.parts.count(x.pno)) return 0;
        if (x.kind == S_BLKPG && x.req == BLKPG_DEL_PARTITION && transient.count(x.pno) && transient[x.pno]-- > 0) return EBUSY;
        if (budget > 0 && c.chance(1, 4)) {
            bool part = x.path != k.path;
            int e = x.kind == S_BLKPG ? c.pickl({EIO, ENOMEM, EACCES, EINTR})
                    : x.kind == S_FOPEN && x.path.find("ext_range") == std::string::npos ? c.pickl({ENOENT, EMFILE})
                    : x.kind == S_OPEN && part ? EACCES
                    : x.kind == S_IOCTL && part && x.req != BLKFLSBUF ? ENOTTY : 0;
            // beyond what the new label or the kernel can number, only use keeps a partition in place
            if (x.kind == S_BLKPG && x.req == BLKPG_DEL_PARTITION && (loop || x.pno > std::min(range, lmax))) e = 0;
            if (e) { budget--; faults++; return e; }
        }
        return 0;
    };
    auto before = k.parts;
    auto writes = k.data;
    answers(&c);
    sim.log.clear();
    sim.slept = 0;
    bool infofail = !sysfs && !(k.getgeo && k.getsize64);
    int ret = ped_disk_commit_to_os(b);
    bool told = !sim_exc.empty();
    sim.fault = nullptr;
    c.note("kernel calls: %s", logs().c_str());
    c.note("commit_to_os: %s%s; kernel: %s", ret ? "ok" : "fails", told ? fmt(" (%s)", sim_exc_dump().c_str()).c_str() : "", kshow(k).c_str());
    c.cls(b->type->name);
    if (faults) c.cls("failing calls");
    if (k.data != writes) c.fail("C26:write", "updating the kernel's view writes to the device");
    for (auto &e : sim_exc) if (e.type == PED_EXCEPTION_BUG && !infofail && !faults) c.fail("C26:bug", "%s", e.msg.c_str());
    // in use: still there, not moved
    int busyconf = 0;
    bool beyond = false;
    for (auto &p : before)
        if (p.second.busy) {
            auto i = k.parts.find(p.first);
            if (i == k.parts.end()) c.fail("C26:busy-removed", "partition %d is in use and was removed", p.first);
            if (i->second.start != p.second.start) c.fail("C26:busy-moved", "partition %d is in use and was moved", p.first);
            bool same = tb.count(p.first) && (uint64_t)tb[p.first].start * k.ss == p.second.start;
            if (i->second.len != p.second.len && !(same && (tb[p.first].ext || i->second.len == (uint64_t)tb[p.first].len * k.ss)))
                c.fail("C26:busy-resized", "partition %d is in use and its size was changed to %llu, which the table does not say", p.first, (unsigned long long)i->second.len / k.ss);
            if (!same) busyconf++;
        }
    for (auto &e : tb) if (e.first >= krange || e.first > std::min(range, 255)) beyond = true;
    std::string df = differ(k, tb, range);
    if (ret && !g_ignored && !df.empty()) c.fail("C26:view", "success is reported, but %s; %s", df.c_str(), logs().c_str());
    if (!ret && !told && !(range == 0 && lmax < 1)) c.fail("C26:silent-failure", "failure is reported without a message");
    bool feasible = !busyconf && !faults && k.blkpg && !infofail && !beyond;
    if (feasible && range == 0 && !before.empty()) feasible = false;
    if (feasible) {
        if (!ret || told) c.fail("C26:spurious", "nothing is in the way, yet the kernel's view cannot be updated: %s; %s", sim_exc_dump().c_str(), logs().c_str());
        if (!df.empty()) c.fail("C26:view", "nothing is in the way, yet %s; %s", df.c_str(), logs().c_str());
    }
    if (!infofail && !faults)
        for (auto &p : before)
            if (tb.count(p.first) && !tb[p.first].ext && p.first < std::min(range, lmax ? lmax : range) && (uint64_t)tb[p.first].start * k.ss == p.second.start && (uint64_t)tb[p.first].len * k.ss == p.second.len)
                for (auto &l : sim.log)
                    if (l.compare(0, fmt("del %d ", p.first).size(), fmt("del %d ", p.first)) == 0) c.fail("C26:needless", "partition %d is unchanged and was removed: %s", p.first, logs().c_str());
    if (sim.slept > 1200000ull * (busyconf + transient.size() + (infofail || faults ? before.size() : 0) + 1)) c.fail("C26:slow", "%llu microseconds of waiting", (unsigned long long)sim.slept);
    c.mix(before.size()); c.mix(tb.size()); c.mix(logs().data(), logs().size());
    if (!sim.log.empty()) c.nontrivial = true;
    if (busyconf) c.cls("partition in use in the way");
    // once more: nothing left to do
    if (df.empty() && feasible) {
        answers(&c);
        sim.log.clear();
        ret = ped_disk_commit_to_os(b);
        for (auto &l : sim.log) if (l.compare(0, 6, "resize")) c.fail("C26:again", "informing the kernel a second time does: %s", logs().c_str());
        if (!ret || !sim_exc.empty()) c.fail("C26:again", "informing the kernel a second time fails: %s", sim_exc_dump().c_str());
        df = differ(k, tb, range);
        if (!df.empty()) c.fail("C26:again", "after informing the kernel a second time, %s", df.c_str());
        c.cls("synchronised");
    }
    // partprobe: the same from the table on the disk
    if (c.chance(1, 8) && !loop && k.blkpg && (k.ident || k.major != 8)) {
        answers(nullptr);
        int w = ped_disk_commit_to_dev(b);
        ped_disk_destroy(b);
        if (a != b) ped_disk_destroy(a);
        a = b = nullptr;
        PedDisk *r = w ? ped_disk_new(dev) : nullptr;
        if (r) {
            tb = table_of(r);
            ped_disk_destroy(r);
            for (auto &p : k.parts) p.second.busy = false;
            if (c.chance(1, 2)) k.parts.clear();
            bool dry = c.chance(1, 6);
            ped_device_destroy(dev);
            dev = nullptr;
            auto pre = k.parts;
            auto data = k.data;
            int fl = memfd_create("pp", 0), fo = memfd_create("po", 0);
            fflush(stdout);
            fflush(stderr);
            pid_t pid = fork();
            if (pid == 0) {
                dup2(fo, 1);
                dup2(fo, 2);
                for (int s : {SIGINT, SIGTERM, SIGALRM, SIGPROF, SIGVTALRM}) signal(s, SIG_DFL);
                struct itimerval off = {};
                setitimer(ITIMER_PROF, &off, nullptr);
                setitimer(ITIMER_VIRTUAL, &off, nullptr);
                setitimer(ITIMER_REAL, &off, nullptr);
                alarm(20);
                ped_exception_set_handler(nullptr);
                optind = 0;
                std::string path = k.path;
                char *av[] = {(char *)"partprobe", (char *)(dry ? "-ds" : "-s"), path.data(), nullptr};
                int rc = partprobe_main(3, av);
                fflush(stdout);
                std::string o;
                o += (char)(k.data != data);
                for (auto &p : k.parts) o += fmt("%d %llu %llu\n", p.first, (unsigned long long)p.second.start, (unsigned long long)p.second.len);
                if (write(fl, o.data(), o.size()) < 0) {}
                _exit(rc);
            }
            int st = 0;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            char buf[65536];
            lseek(fl, 0, SEEK_SET);
            ssize_t n = read(fl, buf, sizeof buf);
            std::string got(buf, n > 0 ? n : 0);
            lseek(fo, 0, SEEK_SET);
            n = read(fo, buf, sizeof buf - 1);
            std::string out(buf, n > 0 ? n : 0);
            close(fl);
            close(fo);
            c.note("partprobe %s: status %d: %s", dry ? "-ds" : "-s", st, out.c_str());
            if (!WIFEXITED(st) || got.empty()) c.fail("C26:partprobe-crash", "partprobe dies: %s", out.c_str());
            if (got[0]) c.fail("C26:partprobe-write", "partprobe writes to the device");
            k.parts.clear();
            char *q = strtok(got.data() + 1, "\n");
            for (; q; q = strtok(nullptr, "\n")) {
                int num; unsigned long long s, l;
                if (sscanf(q, "%d %llu %llu", &num, &s, &l) == 3) k.parts[num] = {s, l};
            }
            bool bey = false;
            for (auto &e : tb) if (e.first >= krange || e.first > std::min(range, 255)) bey = true;
            bool feas = !infofail && !bey && !(range == 0 && !pre.empty());
            if (dry) {
                bool eq = pre.size() == k.parts.size();
                for (auto &p : pre) eq = eq && k.parts.count(p.first) && k.parts[p.first].start == p.second.start && k.parts[p.first].len == p.second.len;
                if (!eq) c.fail("C26:partprobe-dry", "partprobe --dry-run changes the kernel's view");
            } else {
                df = differ(k, tb, range);
                if (WEXITSTATUS(st) == 0 && !df.empty()) c.fail("C26:partprobe", "partprobe succeeds, but %s", df.c_str());
                if (WEXITSTATUS(st) != 0 && feas) c.fail("C26:partprobe", "partprobe fails: %s", out.c_str());
            }
            c.cls("partprobe");
        }
    }
    if (a) ped_disk_destroy(a);
    if (b && b != a) ped_disk_destroy(b);
    if (dev) ped_device_destroy(dev);
    if (sim.badfd) c.fail("C26:badfd", "%d calls on closed descriptors", sim.badfd);
}

int main(int argc, char **argv) {
    return main_(argc, argv, {{"C26", c26, 18000, 200000, "at least one change of the kernel's partitions was needed"}});
}
