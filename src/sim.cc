#include "sim.h"
#include <parted/parted.h>
#include <cerrno>
#include <cstdarg>
#include <dirent.h>
#include <fcntl.h>
#include <linux/fs.h>
#include <linux/blkpg.h>
#include <linux/hdreg.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <unistd.h>

Sim sim;
static const int FD0 = 500000;
struct Fd { bool used = false; std::string path; int disk = -1, part = 0; uint64_t pos = 0; int flags = 0; std::string text; };
static std::vector<Fd> fds;

void SimDisk::rd(uint64_t off, uint64_t n, uint8_t *out) const {
    while (n) {
        uint64_t pg = off / 4096, o = off % 4096, k = std::min<uint64_t>(n, 4096 - o);
        auto it = data.find(pg);
        if (it == data.end()) memset(out, 0, k);
        else memcpy(out, it->second.data() + o, k);
        off += k; out += k; n -= k;
    }
}
void SimDisk::wr(uint64_t off, uint64_t n, const uint8_t *in) {
    while (n) {
        uint64_t pg = off / 4096, o = off % 4096, k = std::min<uint64_t>(n, 4096 - o);
        auto &v = data[pg];
        if (v.empty()) v.resize(4096);
        memcpy(v.data() + o, in, k);
        off += k; in += k; n -= k;
    }
}
std::string SimDisk::part_path(int n) const {
    return path + (isdigit((unsigned char)path.back()) ? "p" : "") + std::to_string(n);
}
void Sim::reset() {
    disks.clear(); files.clear(); hidden.clear(); links.clear(); log.clear();
    fault = nullptr;
    slept = calls = call_limit = 0;
    limit_hit = false;
    nopen = badfd = 0;
    fds.clear();
    disks.emplace_back();
}
SimDisk *Sim::find(const std::string &p, int &part) {
    auto l = links.find(p);
    std::string path = l == links.end() ? p : l->second;
    for (auto &k : disks) {
        part = 0;
        if (k.path == path) return &k;
        if (!k.blk) continue;
        for (auto &q : k.parts)
            if (k.part_path(q.first) == path) { part = q.first; return &k; }
    }
    return nullptr;
}
static bool ours(const char *p) {
    if (sim.disks.empty() || sim.disks[0].path.empty()) return false;
    std::string s = p;
    if (sim.links.count(s) || sim.files.count(s)) return true;
    for (auto &k : sim.disks)
        if (s.compare(0, k.path.size(), k.path) == 0) return true;
    for (const char *x : {"/dev/sd", "/dev/hd", "/dev/xvd", "/dev/mapper", "/dev/md", "/sys/block", "/proc/mounts", "/proc/swaps", "/proc/devices", "/proc/partitions", "/etc/mtab"})
        if (s.compare(0, strlen(x), x) == 0) return true;
    return false;
}
static int tick(SimCall &c) {
    sim.calls++;
    if (sim.call_limit && sim.calls > sim.call_limit) {
        if (sim.calls > sim.call_limit * 2) { fprintf(stderr, "endless system calls\n"); abort(); }
        sim.limit_hit = true;
        return EIO;
    }
    return sim.fault ? sim.fault(c) : 0;
}
// text of a simulated file
static bool text_of(const std::string &p, std::string &out) {
    if (sim.hidden.count(p)) return false;
    auto f = sim.files.find(p);
    if (f != sim.files.end()) { out = f->second; return true; }
    for (auto &k : sim.disks) {
        if (!k.blk) continue;
        size_t sl = k.path.rfind('/');
        std::string base = k.path.substr(sl + 1), pre = "/sys/block/" + base + "/";
        if (p.compare(0, pre.size(), pre)) continue;
        std::string r = p.substr(pre.size());
        if (r == "ext_range") {
            if (k.ext_range < 0) return false;
            out = std::to_string(k.ext_range) + "\n";
            return true;
        }
        size_t q = r.find('/');
        if (q == std::string::npos) return false;
        std::string pn = r.substr(0, q), e = r.substr(q + 1);
        for (auto &x : k.parts) {
            std::string pp = k.part_path(x.first);
            if (pp.substr(pp.rfind('/') + 1) != pn) continue;
            if (e == "start") { out = std::to_string(x.second.start / 512) + "\n"; return true; }
            if (e == "size") { out = std::to_string(x.second.len / 512) + "\n"; return true; }
        }
    }
    return false;
}
static Fd *fd_of(int fd) {
    int i = fd - FD0;
    if (i < 0 || i >= (int)fds.size()) return nullptr;
    if (!fds[i].used) { sim.badfd++; return nullptr; }
    return &fds[i];
}
#define ISSIM(fd) ((fd) >= FD0)

extern "C" {
int __real_open(const char *, int, ...);
int __real_close(int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
off_t __real_lseek(int, off_t, int);
int __real_fsync(int);
int __real_ioctl(int, unsigned long, ...);
int __real_stat(const char *, struct stat *);
FILE *__real_fopen(const char *, const char *);
DIR *__real_opendir(const char *);
struct dirent *__real_readdir(DIR *);
int __real_closedir(DIR *);
int __real_usleep(useconds_t);
char *__real_canonicalize_file_name(const char *);

int __wrap_open(const char *p, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int mode = flags & O_CREAT ? va_arg(ap, int) : 0;
    va_end(ap);
    if (!ours(p)) return __real_open(p, flags, mode);
    SimCall c{S_OPEN, p};
    c.flags = flags;
    int part = 0;
    SimDisk *k = sim.find(p, part);
    std::string txt;
    c.part = part;
    if (!k && !text_of(p, txt)) { errno = ENOENT; return -1; }
    int e = tick(c);
    if (e > 0) { errno = e; return -1; }
    Fd f;
    f.used = true; f.path = p; f.flags = flags; f.part = part; f.text = txt;
    f.disk = k ? int(k - &sim.disks[0]) : -1;
    sim.nopen++;
    for (size_t i = 0; i < fds.size(); i++)
        if (!fds[i].used) { fds[i] = f; return FD0 + (int)i; }
    fds.push_back(f);
    return FD0 + (int)fds.size() - 1;
}
int __wrap_close(int fd) {
    if (!ISSIM(fd)) return __real_close(fd);
    Fd *f = fd_of(fd);
    if (!f) { errno = EBADF; return -1; }
    SimCall c{S_CLOSE, f->path, f->part};
    int e = tick(c);
    f->used = false;
    sim.nopen--;
    if (e > 0) { errno = e; return -1; }
    return 0;
}
static void bounds(Fd *f, uint64_t &base, uint64_t &size) {
    SimDisk &k = sim.disks[f->disk];
    base = 0; size = k.size;
    if (f->part) {
        auto it = k.parts.find(f->part);
        if (it == k.parts.end()) size = 0;
        else base = it->second.start, size = it->second.len;
    }
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
    if (!ISSIM(fd)) return __real_read(fd, b, n);
    Fd *f = fd_of(fd);
    if (!f) { errno = EBADF; return -1; }
    if (f->disk < 0) {
        size_t k = f->pos >= f->text.size() ? 0 : std::min(n, f->text.size() - f->pos);
        memcpy(b, f->text.data() + f->pos, k);
        f->pos += k;
        return k;
    }
    uint64_t base, size;
    bounds(f, base, size);
    SimCall c{S_READ, f->path, f->part};
    c.off = base + f->pos;
    c.len = f->pos >= size ? 0 : std::min<uint64_t>(n, size - f->pos);
    if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    int e = tick(c);
    if (e > 0) { errno = e; return -1; }
    if (e < 0) return 0;
    sim.disks[f->disk].rd(c.off, c.len, (uint8_t *)b);
    f->pos += c.len;
    return c.len;
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    if (!ISSIM(fd)) return __real_write(fd, b, n);
    Fd *f = fd_of(fd);
    if (!f || f->disk < 0) { errno = EBADF; return -1; }
    if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    uint64_t base, size;
    bounds(f, base, size);
    SimDisk &k = sim.disks[f->disk];
    SimCall c{S_WRITE, f->path, f->part};
    c.off = base + f->pos;
    c.len = n;
    if (k.blk) {
        if (n && f->pos >= size) { errno = ENOSPC; return -1; }
        c.len = std::min<uint64_t>(n, size - f->pos);
    }
    int e = tick(c);
    if (e > 0) { errno = e; return -1; }
    if (e < 0) return 0;
    k.wr(c.off, c.len, (const uint8_t *)b);
    if (c.off + c.len > k.size) k.size = c.off + c.len;
    f->pos += c.len;
    return c.len;
}
off_t __wrap_lseek(int fd, off_t o, int wh) {
    if (!ISSIM(fd)) return __real_lseek(fd, o, wh);
    Fd *f = fd_of(fd);
    if (!f) { errno = EBADF; return -1; }
    SimCall c{S_SEEK, f->path, f->part};
    c.off = o;
    int e = tick(c);
    if (e > 0) { errno = e; return -1; }
    uint64_t base = 0, size = f->text.size();
    if (f->disk >= 0) bounds(f, base, size);
    off_t n = wh == SEEK_SET ? o : wh == SEEK_CUR ? (off_t)f->pos + o : (off_t)size + o;
    if (n < 0 || (f->disk >= 0 && sim.disks[f->disk].blk && (uint64_t)n > size)) { errno = EINVAL; return -1; }
    f->pos = n;
    return n;
}
int __wrap_fsync(int fd) {
    if (!ISSIM(fd)) return __real_fsync(fd);
    Fd *f = fd_of(fd);
    if (!f) { errno = EBADF; return -1; }
    SimCall c{S_FSYNC, f->path, f->part};
    int e = tick(c);
    if (e > 0) { errno = e; return -1; }
    return 0;
}
static int blkpg(SimDisk &k, blkpg_ioctl_arg *a) {
    blkpg_partition p = *(blkpg_partition *)a->data;
    SimCall c{S_BLKPG, k.path};
    c.req = a->op;
    c.pno = p.pno;
    c.off = p.start;
    c.len = p.length;
    if (!k.blkpg) { errno = ENOTTY; return -1; }
    int e = tick(c);
    const char *nm = a->op == BLKPG_ADD_PARTITION ? "add" : a->op == BLKPG_DEL_PARTITION ? "del" : "resize";
    auto ret = [&](int er) {
        if (!(er == ENXIO && a->op == BLKPG_DEL_PARTITION))
            sim.log.push_back(pbt::fmt("%s %d %llu+%llu%s", nm, p.pno, (unsigned long long)p.start, (unsigned long long)p.length, er ? pbt::fmt(": %s", strerror(er)).c_str() : ""));
        errno = er;
        return er ? -1 : 0;
    };
    if (e > 0) return ret(e);
    if (p.pno <= 0) return ret(EINVAL);
    auto it = k.parts.find(p.pno);
    if (a->op == BLKPG_DEL_PARTITION) {
        if (it == k.parts.end()) return ret(ENXIO);
        if (it->second.busy) return ret(EBUSY);
        k.parts.erase(it);
        return ret(0);
    }
    if (p.start < 0 || p.length <= 0 || p.start % k.ss || p.length % k.ss) return ret(EINVAL);
    if ((uint64_t)p.start >= k.size || (uint64_t)p.length > k.size - p.start) return ret(EINVAL);
    auto overlap = [&](int skip) {
        for (auto &q : k.parts)
            if (q.first != skip && (uint64_t)p.start < q.second.start + q.second.len && q.second.start < (uint64_t)p.start + p.length) return true;
        return false;
    };
    if (a->op == BLKPG_ADD_PARTITION) {
        if (p.pno >= (k.ext_range < 0 ? 256 : std::max(k.ext_range, 1))) return ret(EINVAL);
        if (overlap(0)) return ret(EBUSY);
        if (it != k.parts.end()) return ret(EBUSY);
        k.parts[p.pno] = {(uint64_t)p.start, (uint64_t)p.length};
        return ret(0);
    }
    if (a->op == BLKPG_RESIZE_PARTITION) {
        if (it == k.parts.end()) return ret(ENXIO);
        if (it->second.start != (uint64_t)p.start) return ret(EINVAL);
        if (overlap(p.pno)) return ret(EBUSY);
        it->second.len = p.length;
        return ret(0);
    }
    return ret(EINVAL);
}
int __wrap_ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (!ISSIM(fd)) return __real_ioctl(fd, req, arg);
    Fd *f = fd_of(fd);
    if (!f) { errno = EBADF; return -1; }
    if (f->disk < 0 || !sim.disks[f->disk].blk) { errno = ENOTTY; return -1; }
    SimDisk &k = sim.disks[f->disk];
    if (req == BLKPG) return blkpg(k, (blkpg_ioctl_arg *)arg);
    SimCall c{S_IOCTL, f->path, f->part};
    c.req = req;
    int e = tick(c);
    if (e > 0) { errno = e; return -1; }
    uint64_t base, size;
    bounds(f, base, size);
    switch (req) {
    case BLKFLSBUF: return 0;
    case BLKSSZGET:
        if (!k.ssz) break;
        *(int *)arg = k.ss;
        return 0;
    case BLKGETSIZE64:
        if (!k.getsize64) break;
        *(uint64_t *)arg = size;
        return 0;
    case BLKGETSIZE: *(unsigned long *)arg = size / 512; return 0;
    case 0x5382: {   // SCSI_IOCTL_GET_IDLUN
        if (!k.ident || k.major != 8) break;
        uint32_t v[2] = {0x01000002, 7};
        memcpy(arg, v, 8);
        return 0;
    }
    case HDIO_GETGEO: {
        if (!k.getgeo) break;
        hd_geometry *g = (hd_geometry *)arg;
        g->heads = 16; g->sectors = 63; g->cylinders = 0;
        g->start = base / 512;
        return 0;
    }
    }
    errno = ENOTTY;
    return -1;
}
int __wrap_stat(const char *p, struct stat *st) {
    if (!ours(p)) return __real_stat(p, st);
    SimCall c{S_STAT, p};
    int part = 0;
    SimDisk *k = sim.find(p, part);
    c.part = part;
    if (!k) { errno = ENOENT; return -1; }
    int e = tick(c);
    if (e > 0) { errno = e; return -1; }
    memset(st, 0, sizeof *st);
    st->st_mode = (k->blk ? S_IFBLK : S_IFREG) | 0600;
    st->st_size = k->blk ? 0 : k->size;
    if (k->blk) st->st_rdev = part ? makedev(259, 4096 * (k - &sim.disks[0] + 1) + part) : makedev(k->major, k->minor);
    st->st_dev = makedev(0, 5);
    return 0;
}
FILE *__wrap_fopen(const char *p, const char *m) {
    if (!ours(p)) return __real_fopen(p, m);
    SimCall c{S_FOPEN, p};
    std::string t;
    if (!text_of(p, t)) { errno = ENOENT; return nullptr; }
    int e = tick(c);
    if (e > 0) { errno = e; return nullptr; }
    int fd = memfd_create("sim", 0);
    FILE *f = fd < 0 ? nullptr : fdopen(fd, "w+");
    if (!f) return nullptr;
    fwrite(t.data(), 1, t.size(), f);
    rewind(f);
    return f;
}
struct SimDir { uint64_t magic; size_t at; dirent de; std::vector<std::string> names; };
static SimDir *g_dir;
DIR *__wrap_opendir(const char *p) {
    if (!ours(p)) return __real_opendir(p);
    if (std::string(p) != "/sys/block" || sim.hidden.count(p)) { errno = ENOENT; return nullptr; }
    delete g_dir;
    g_dir = new SimDir();
    g_dir->names = {".", ".."};
    for (auto &k : sim.disks)
        if (k.blk) {
            std::string b = k.path.substr(5);
            for (auto &ch : b) if (ch == '/') ch = '!';
            g_dir->names.push_back(b);
        }
    return (DIR *)g_dir;
}
struct dirent *__wrap_readdir(DIR *d) {
    if ((SimDir *)d != g_dir || !g_dir) return __real_readdir(d);
    if (g_dir->at >= g_dir->names.size()) return nullptr;
    snprintf(g_dir->de.d_name, sizeof g_dir->de.d_name, "%s", g_dir->names[g_dir->at++].c_str());
    return &g_dir->de;
}
int __wrap_closedir(DIR *d) {
    if ((SimDir *)d != g_dir || !g_dir) return __real_closedir(d);
    delete g_dir;
    g_dir = nullptr;
    return 0;
}
int __wrap_usleep(useconds_t us) { sim.slept += us; return 0; }
char *__wrap_canonicalize_file_name(const char *p) {
    if (!ours(p)) return __real_canonicalize_file_name(p);
    auto l = sim.links.find(p);
    if (l != sim.links.end()) return strdup(l->second.c_str());
    int part;
    if (!sim.find(p, part)) { errno = ENOENT; return nullptr; }
    return strdup(p);
}
// libblkid's view of the topology
static int g_probe_fd;
void *__wrap_blkid_new_probe() { return &g_probe_fd; }
void __wrap_blkid_free_probe(void *) {}
int __wrap_blkid_probe_set_device(void *, int fd, long long, long long) { g_probe_fd = fd; return ISSIM(fd) ? 0 : -1; }
static SimDisk *topo_disk() {
    Fd *f = ISSIM(g_probe_fd) && g_probe_fd - FD0 < (int)fds.size() ? &fds[g_probe_fd - FD0] : nullptr;
    return f && f->disk >= 0 ? &sim.disks[f->disk] : nullptr;
}
void *__wrap_blkid_probe_get_topology(void *) { SimDisk *k = topo_disk(); return k && k->topo ? k : nullptr; }
unsigned long __wrap_blkid_topology_get_alignment_offset(void *t) { return ((SimDisk *)t)->align_off; }
unsigned long __wrap_blkid_topology_get_minimum_io_size(void *t) { return ((SimDisk *)t)->min_io; }
unsigned long __wrap_blkid_topology_get_optimal_io_size(void *t) { return ((SimDisk *)t)->opt_io; }
unsigned long __wrap_blkid_topology_get_physical_sector_size(void *t) { return ((SimDisk *)t)->pss; }
}

std::vector<SimExc> sim_exc;
std::function<int(int, int, const std::string &)> sim_answer;
static PedExceptionOption handler(PedException *e) {
    std::string m = e->message ? e->message : "";
    int a = PED_EXCEPTION_UNHANDLED;
    if (sim_answer) a = sim_answer(e->type, e->options, m);
    if (e->type == PED_EXCEPTION_BUG) fprintf(stderr, "BUG exception: %s\n", m.c_str());
    if (sim_exc.size() < 10000) sim_exc.push_back({(int)e->type, (int)e->options, a, m});
    return (PedExceptionOption)a;
}
void sim_exc_install() { ped_exception_set_handler(handler); sim_exc.clear(); }
std::string sim_exc_dump() {
    std::string s;
    for (auto &e : sim_exc) s += pbt::fmt("[%d/%x->%x] %s; ", e.type, e.options, e.answer, e.msg.c_str());
    return s;
}
