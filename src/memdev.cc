#include "memdev.h"
extern "C" {
struct PedArchitecture_ { PedDiskArchOps *disk_ops; PedDeviceArchOps *dev_ops; };
extern const PedArchitecture_ *ped_architecture;
}
#include <sys/time.h>
#include <cerrno>

static std::unordered_map<std::string, std::unique_ptr<MemDev>> g_devs;
static int g_next;

void MemDev::bgfill(PedSector s, uint8_t *out) const {
    if (!bg || (s >= zlo && s < zhi)) { memset(out, 0, ss); return; }
    uint64_t st = (uint64_t)s * 0x9e3779b97f4a7c15ull + bg;
    for (long long i = 0; i < ss; i += 8) {
        // printable-ish pattern without magic numbers: bytes 0x21..0x2f only
        uint64_t v = pbt::splitmix(st) & 0x0e0e0e0e0e0e0e0eull;
        v |= 0x2121212121212121ull;
        memcpy(out + i, &v, 8);
    }
}
void MemDev::get(PedSector s, uint8_t *out) const {
    auto it = data.find(s);
    if (it == data.end()) bgfill(s, out);
    else memcpy(out, it->second.data(), ss);
}
void MemDev::put(PedSector s, const uint8_t *in) { data[s].assign(in, in + ss); }
std::vector<uint8_t> MemDev::read(PedSector s, PedSector n) const {
    std::vector<uint8_t> v(n * ss);
    for (PedSector i = 0; i < n; i++) get(s + i, v.data() + i * ss);
    return v;
}
void MemDev::write(PedSector s, const std::vector<uint8_t> &v) {
    for (size_t i = 0; i < v.size() / ss; i++) put(s + i, v.data() + i * ss);
}
bool MemDev::same(const MemDev &o, PedSector *where) const {
    std::vector<uint8_t> a(ss), b(ss);
    for (const MemDev *x : {this, &o})
        for (auto &k : x->data) {
            get(k.first, a.data());
            o.get(k.first, b.data());
            if (a != b) {
                if (where) *where = k.first;
                return false;
            }
        }
    return true;
}

MemDev *mem_of(const PedDevice *d) { return (MemDev *)d->arch_specific; }

static bool count_op(MemDev *m, int kind) {
    m->nops++;
    if (m->read_limit && m->nops > m->read_limit) m->limit_hit = true;
    uint64_t idx = m->fail_kind ? m->kind_ops[kind] : m->kind_ops[0];
    m->kind_ops[kind]++;
    m->kind_ops[0]++;
    if (m->fail_op < 0) return false;
    if (m->fail_kind && m->fail_kind != kind) return false;
    bool hit = m->fail_sticky ? idx >= (uint64_t)m->fail_op : idx == (uint64_t)m->fail_op;
    if (hit) m->fired++;
    return hit;
}

// what the linux back end does on a hard error: throw, and fail unless the user says ignore/retry
static int io_error(const MemDev *m, const char *what, bool &retry) {
    retry = false;
    PedExceptionOption o = ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_RETRY_IGNORE_CANCEL,
                                               "Input/output error during %s on %s", what, m->path.c_str());
    if (o == PED_EXCEPTION_IGNORE) return 1;
    return 0;
}

static PedDevice *m_new(const char *path) {
    auto it = g_devs.find(path);
    if (it == g_devs.end()) return nullptr;
    MemDev *m = it->second.get();
    PedDevice *d = (PedDevice *)ped_malloc(sizeof *d);
    memset(d, 0, sizeof *d);
    d->path = strdup(path);
    d->model = strdup(m->model.c_str());
    d->type = m->type;
    d->sector_size = m->ss;
    d->phys_sector_size = m->pss;
    d->length = m->length;
    d->read_only = m->read_only;
    d->bios_geom = d->hw_geom = m->geom;
    d->arch_specific = m;
    return d;
}
static void m_destroy(PedDevice *d) {
    free(d->path);
    free(d->model);
    free(d);
}
static int m_busy(PedDevice *d) { return !mem_of(d)->busy.empty(); }
static int m_open(PedDevice *d) { mem_of(d)->opens++; return 1; }
static int m_close(PedDevice *d) { mem_of(d)->opens--; return 1; }
static int m_refresh(PedDevice *) { return 1; }
// the mac label may change dev->sector_size: the device is then addressed in those units
static bool to_native(const PedDevice *d, PedSector &start, PedSector &count, size_t &head) {
    MemDev *m = mem_of(d);
    __int128 b = (__int128)start * d->sector_size, e = b + (__int128)count * d->sector_size;
    __int128 lim = (__int128)m->length * m->ss;
    if (start < 0 || count < 0 || b > lim || e > lim) return false;
    head = (size_t)(b % m->ss);
    start = (PedSector)(b / m->ss);
    count = (PedSector)((e + m->ss - 1) / m->ss) - start;
    return true;
}
static int m_write(PedDevice *d, const void *buf, PedSector start, PedSector count);
static int m_read(const PedDevice *d, void *buf, PedSector start, PedSector count) {
    MemDev *m = mem_of(d);
    if (d->sector_size != m->ss) {
        PedSector s = start, n = count;
        size_t head;
        bool retry;
        if (!to_native(d, s, n, head)) { m->oob++; return io_error(m, "seek/read past the end", retry); }
        m->nread++;
        if (count_op(m, 1)) {
            if (!io_error(m, "read", retry)) return 0;
            memset(buf, 0, count * d->sector_size);
            return 1;
        }
        std::vector<uint8_t> v = m->read(s, n);
        memcpy(buf, v.data() + head, count * d->sector_size);
        return 1;
    }
    m->nread++;
    m->sectors_read += count;
    bool retry;
    if (count_op(m, 1)) {
        if (!io_error(m, "read", retry)) return 0;
        memset(buf, 0, count * m->ss);
        return 1;
    }
    if (start < 0 || count < 0 || start > m->length || count > m->length - start) {
        m->oob++;
        return io_error(m, "seek/read past the end", retry);
    }
    for (PedSector i = 0; i < count; i++) m->get(start + i, (uint8_t *)buf + i * m->ss);
    return 1;
}
static int m_write(PedDevice *d, const void *buf, PedSector start, PedSector count) {
    MemDev *m = mem_of(d);
    m->nwrite++;
    bool retry;
    std::vector<uint8_t> conv;
    if (d->sector_size != m->ss) {
        size_t head, n = count * d->sector_size;
        if (!to_native(d, start, count, head)) { m->oob++; return io_error(m, "write past the end", retry); }
        conv = m->read(start, count);
        memcpy(conv.data() + head, buf, n);
        buf = conv.data();
    }
    if (d->read_only) return io_error(m, "write (read-only)", retry);
    if (count_op(m, 2)) return io_error(m, "write", retry);
    if (start < 0 || count < 0 || start > m->length || count > m->length - start) {
        m->oob++;
        m->oob_write++;
        return io_error(m, "write past the end", retry);
    }
    for (PedSector b : m->badw) if (b >= start && b < start + count) { m->fired++; return io_error(m, "write", retry); }
    if (m->logging) {
        WriteOp w{false, start, count, {}};
        w.data.assign((const uint8_t *)buf, (const uint8_t *)buf + count * m->ss);
        m->log.push_back(std::move(w));
    }
    d->dirty = 1;
    for (PedSector i = 0; i < count; i++) m->put(start + i, (const uint8_t *)buf + i * m->ss);
    return 1;
}
static int m_sync(PedDevice *d) {
    MemDev *m = mem_of(d);
    m->nsync++;
    bool retry;
    if (count_op(m, 3)) return io_error(m, "sync", retry);
    if (m->logging) m->log.push_back(WriteOp{true, 0, 0, {}});
    return 1;
}
static PedSector m_check(PedDevice *, void *, PedSector, PedSector count) { return count; }
static void m_probe_all() {
    for (auto &k : g_devs) _ped_device_probe(k.first.c_str());
}
static PedAlignment *m_minal(const PedDevice *d) {
    MemDev *m = mem_of(d);
    if (!m->min_io) return nullptr;
    return ped_alignment_new(m->align_off, m->min_io);
}
static PedAlignment *m_optal(const PedDevice *d) {
    MemDev *m = mem_of(d);
    if (!m->opt_io) return nullptr;
    return ped_alignment_new(m->align_off, m->opt_io);
}
static char *m_ppath(const PedPartition *p) {
    return strdup(pbt::fmt("%s%d", p->disk->dev->path, p->num).c_str());
}
static int m_pbusy(const PedPartition *p) {
    for (int b : mem_of(p->disk->dev)->busy)
        if (b == p->num) return 1;
    return 0;
}
static int m_commit(PedDisk *disk) {
    mem_of(disk->dev)->os_commits++;
    return 1;
}

static PedDeviceArchOps mem_dev_ops = {m_new, m_destroy, m_busy, m_open, m_refresh, m_close, m_refresh,
                                       m_read, m_write, m_sync, m_sync, m_check, m_probe_all, m_minal, m_optal};
static PedDiskArchOps mem_disk_ops = {m_ppath, m_pbusy, m_commit};
static PedArchitecture_ mem_arch = {&mem_disk_ops, &mem_dev_ops};

void memarch_install() { ped_architecture = &mem_arch; }

MemDev *mem_new(PedSector length, long long ss, const char *path) {
    auto m = std::make_unique<MemDev>();
    m->path = path ? path : pbt::fmt("/mem/%d", g_next++);
    m->length = length;
    m->ss = m->pss = ss;
    PedSector cyl = length / (4 * 32);
    m->geom = {(int)(cyl > INT32_MAX ? INT32_MAX : cyl), 4, 32};
    MemDev *r = m.get();
    g_devs[r->path] = std::move(m);
    return r;
}
void mem_free_all() {
    ped_device_free_all();
    g_devs.clear();
    g_next = 0;
}
PedDevice *mem_open(MemDev *m) {
    // never hand out a cached device
    PedDevice *d = nullptr, *n;
    for (d = ped_device_get_next(nullptr); d; d = n) {
        n = ped_device_get_next(d);
        if (m->path == d->path) { ped_device_destroy(d); break; }
    }
    return ped_device_get(m->path.c_str());
}
void mem_close(PedDevice *d) { ped_device_destroy(d); }

// ------------------------------------------------------------------ exceptions
std::vector<ExcRec> g_exc;
ExcPolicy g_policy = EXC_CANCEL;
bool g_bug_seen;

PedExceptionOption (*g_exc_hook)(PedException *e);
static PedExceptionOption handler(PedException *e) {
    PedExceptionOption a = PED_EXCEPTION_UNHANDLED;
    if (g_exc_hook && (a = g_exc_hook(e)) != PED_EXCEPTION_UNHANDLED) { g_exc.push_back({(int)e->type, (int)e->options, (int)a, e->message}); return a; }
    int o = e->options;
    auto has = [&](int x) { return (o & x) != 0; };
    switch (g_policy) {
    case EXC_CANCEL:
        a = has(PED_EXCEPTION_CANCEL) ? PED_EXCEPTION_CANCEL
            : has(PED_EXCEPTION_NO)   ? PED_EXCEPTION_NO
            : has(PED_EXCEPTION_OK)   ? PED_EXCEPTION_OK
            : has(PED_EXCEPTION_IGNORE) ? PED_EXCEPTION_IGNORE
                                      : PED_EXCEPTION_UNHANDLED;
        break;
    case EXC_AGREE:
        a = has(PED_EXCEPTION_FIX)   ? PED_EXCEPTION_FIX
            : has(PED_EXCEPTION_YES) ? PED_EXCEPTION_YES
            : has(PED_EXCEPTION_OK)  ? PED_EXCEPTION_OK
            : has(PED_EXCEPTION_IGNORE) ? PED_EXCEPTION_IGNORE
            : has(PED_EXCEPTION_CANCEL) ? PED_EXCEPTION_CANCEL
                                     : PED_EXCEPTION_UNHANDLED;
        break;
    case EXC_IGNORE:
        a = has(PED_EXCEPTION_IGNORE) ? PED_EXCEPTION_IGNORE
            : has(PED_EXCEPTION_NO)   ? PED_EXCEPTION_NO
            : has(PED_EXCEPTION_OK)   ? PED_EXCEPTION_OK
            : has(PED_EXCEPTION_CANCEL) ? PED_EXCEPTION_CANCEL
                                      : PED_EXCEPTION_UNHANDLED;
        break;
    case EXC_UNHANDLED: a = PED_EXCEPTION_UNHANDLED; break;
    }
    if (e->type == PED_EXCEPTION_BUG || e->type == PED_EXCEPTION_FATAL) g_bug_seen = true;
    if (e->type == PED_EXCEPTION_BUG) fprintf(stderr, "BUG exception: %s\n", e->message);
    if (g_exc.size() < 10000) g_exc.push_back({e->type, e->options, a, e->message ? e->message : ""});
    return a;
}
void exc_install() { ped_exception_set_handler(handler); }
void exc_clear() { g_exc.clear(); g_bug_seen = false; }
std::string exc_dump() {
    std::string s;
    for (auto &e : g_exc) s += pbt::fmt("[%d/%x->%x] %s; ", e.type, e.options, e.answer, e.msg.c_str());
    return s;
}

// ------------------------------------------------------------------ determinism
uint64_t &det_rng() {
    static uint64_t s;
    return s;
}
extern "C" void uuid_generate(unsigned char *out) {
    for (int i = 0; i < 16; i += 8) {
        uint64_t v = pbt::splitmix(det_rng());
        memcpy(out + i, &v, 8);
    }
    out[6] = (out[6] & 0x0f) | 0x40;
    out[8] = (out[8] & 0x3f) | 0x80;
}
