// C21: device reads, writes, checks and syncs against a simulated kernel whose calls stop short,
// are interrupted or fail.
#include "sim.h"
#include <parted/parted.h>
#include <cerrno>
#include <fcntl.h>
extern "C" {
int ptt_write_sector(PedDisk const *disk, void const *buf, size_t buflen);
int ptt_read_sectors(PedDevice const *dev, PedSector start, PedSector n, void **buf);
int ptt_read_sector(PedDevice const *dev, PedSector n, void **buf);
int ptt_clear_sectors(PedDevice *dev, PedSector start, PedSector n);
int ptt_geom_clear_sectors(PedGeometry *geom, PedSector start, PedSector n);
int ped_geometry_read_alloc(const PedGeometry *geom, void **buffer, PedSector offset, PedSector count);
}
using namespace pbt;
typedef std::vector<uint8_t> Bytes;

static Bytes pattern(Ctx &c, uint64_t n) {
    uint64_t s = c.draw(255) + 1;
    Bytes v(n);
    for (size_t i = 0; i < n; i += 8) {
        uint64_t x = splitmix(s);
        memcpy(&v[i], &x, std::min<size_t>(8, n - i));
    }
    return v;
}
struct Faults {
    Ctx &c;
    int rate = 0;            // of 16
    int left = 0;            // faults still to give
    int given = 0, shorts = 0, hard = 0;
    bool fsync_failed_last = false, seek_fault = false;
    uint64_t bad0 = 0, bad1 = 0;   // bytes that cannot be read (persistently)
    int operator()(SimCall &k) {
        if (k.kind == S_FSYNC) fsync_failed_last = false;
        if (k.kind == S_READ && bad1 > bad0 && k.len && k.off < bad1 && k.off + k.len > bad0) {
            if (k.off >= bad0) { hard++; return EIO; }
            k.len = bad0 - k.off;
            shorts++;
        }
        if (left <= 0 || !rate || (int)c.draw(15) < 16 - rate) return 0;
        left--;
        switch (k.kind) {
        case S_READ: case S_WRITE: {
            int w = c.weighted({6, 3, 3, 1});
            if (w == 0 && k.len > 1) {
                uint64_t m = c.chance(1, 2) ? 1 + c.draw(k.len - 2) : std::max<uint64_t>(1, k.len / 512 * c.draw(7) / 8 * 512);
                if (m >= k.len) return 0;
                k.len = m;
                given++; shorts++;
                return 0;
            }
            given++; hard++;
            if (w == 3 && k.len) return -1;
            return w == 1 ? EINTR : k.kind == S_WRITE && c.chance(1, 3) ? ENOSPC : EIO;
        }
        case S_SEEK: given++; hard++; seek_fault = true; return EIO;
        case S_FSYNC: given++; hard++; fsync_failed_last = true; return c.chance(1, 2) ? EIO : EINTR;
        case S_CLOSE: return 0;
        case S_OPEN: return 0;
        default: return 0;
        }
    }
};
static const char *ans(int a) {
    return a == PED_EXCEPTION_RETRY ? "retry" : a == PED_EXCEPTION_IGNORE ? "ignore" : a == PED_EXCEPTION_CANCEL ? "cancel" : a == PED_EXCEPTION_OK ? "ok" : "unhandled";
}
static void c21(Ctx &c) {
    sim.reset();
    sim_exc_install();
    sim.call_limit = 200000;
    SimDisk &k = sim.d();
    bool blk = c.chance(1, 2);
    k.blk = blk;
    int ss = c.pickl({512, 512, 1024, 2048, 4096, 8192});
    k.ss = ss; k.pss = ss;
    PedSector len = c.range(1, c.chance(1, 4) ? 300 : 40);
    k.size = (uint64_t)len * ss;
    if (!blk && c.chance(1, 6)) k.size += c.range(1, ss - 1);   // a file need not be whole sectors
    if (blk) {
        static const struct { const char *p; int ma; } T[] = {{"/dev/xvdz", 202}, {"/dev/mmcblk7", 179}, {"/dev/loop9", 7}, {"/dev/md12", 9}, {"/dev/ubdz", 98}, {"/dev/ram3", 1}};
        auto &t = T[c.draw(5)];
        k.path = t.p;
        k.major = t.ma;
        for (int i = 0; i < 2; i++)
            if (c.chance(1, 3)) k.parts[i + 1] = {(uint64_t)ss * (len / 2) * i, (uint64_t)ss * (len / 2)};
    } else {
        k.path = "/dev/sdsim-image";
        char b[16];
        snprintf(b, sizeof b, "%d", ss);
        setenv("PARTED_SECTOR_SIZE", b, 1);
    }
    Bytes ref = pattern(c, k.size);
    k.wr(0, ref.size(), ref.data());
    sim_answer = [](int, int o, const std::string &) { return o & PED_EXCEPTION_OK ? PED_EXCEPTION_OK : PED_EXCEPTION_CANCEL; };
    PedDevice *d = ped_device_get(k.path.c_str());
    if (!d) c.fail("C21:get", "the device cannot be opened: %s", sim_exc_dump().c_str());
    unsetenv("PARTED_SECTOR_SIZE");
    if (d->sector_size != ss || d->length != len)
        c.fail("C21:size", "sector size %lld and length %lld reported, device has %d and %lld", d->sector_size, (long long)d->length, ss, (long long)len);
    c.note("%s %s: %lld sectors of %d bytes", blk ? "block device" : "file", k.path.c_str(), (long long)len, ss);
    Faults F{c};
    bool ignored = false, cancelled = false;
    int asked = 0, asked_error = 0;
    sim_answer = [&](int, int o, const std::string &m) {
        int a = PED_EXCEPTION_UNHANDLED;
        asked++;
        std::vector<int> can;
        if (o & PED_EXCEPTION_RETRY && asked < 30) { can.push_back(PED_EXCEPTION_RETRY); can.push_back(PED_EXCEPTION_RETRY); }
        if (o & PED_EXCEPTION_CANCEL) can.push_back(PED_EXCEPTION_CANCEL);
        if (o & PED_EXCEPTION_OK) can.push_back(PED_EXCEPTION_OK);
        if (o & PED_EXCEPTION_IGNORE) can.push_back(PED_EXCEPTION_IGNORE);
        if (c.chance(7, 8) && !can.empty()) a = can[c.draw(can.size() - 1)];
        c.note("   ? %s -> %s", m.c_str(), ans(a));
        if (a == PED_EXCEPTION_IGNORE) ignored = true;
        if (a == PED_EXCEPTION_CANCEL || a == PED_EXCEPTION_UNHANDLED) cancelled = true;
        return a;
    };
    sim.fault = [&](SimCall &x) { return F(x); };
    // opening
    bool ro = false;
    {
        int how = c.weighted({6, 1, 1});   // fine, no write permission, none at all
        bool first = true;
        sim.fault = [&](SimCall &x) -> int {
            if (x.kind == S_OPEN && x.path == k.path) {
                if (how == 2 && first) { if ((x.flags & O_ACCMODE) == O_RDONLY) first = false; return EBUSY; }
                if (how == 1 && (x.flags & O_ACCMODE) != O_RDONLY) return EROFS;
            }
            return 0;
        };
        ignored = cancelled = false;
        size_t e0 = sim_exc.size();
        int r = ped_device_open(d);
        if (how && sim_exc.size() == e0) c.fail("C21:open-silent", "opening failed (%s) and nothing was said", how == 1 ? "read-write" : "altogether");
        if (how == 2 && cancelled && r) c.fail("C21:open", "the device cannot be opened, but success is reported");
        if (how != 2 && !r) c.fail("C21:open", "the device can be opened, but failure is reported");
        if (how == 1 && r && !d->read_only) c.fail("C21:open", "opened read-only, but not marked so");
        if (how == 0 && r && d->read_only) c.fail("C21:open", "opened read-write, but marked read-only");
        c.note("open: %s", r ? d->read_only ? "read-only" : "read-write" : "fails");
        if (!r) {
            c.cls("unopened");
            sim.fault = nullptr;
            ped_device_destroy(d);
            return;
        }
        ro = d->read_only;
        sim.fault = [&](SimCall &x) { return F(x); };
    }
    PedDisk fake;
    memset(&fake, 0, sizeof fake);
    fake.dev = d;
    auto image = [&]() { Bytes v(k.size); k.rd(0, v.size(), v.data()); return v; };
    int nops = (int)c.range(1, c.thorough ? 14 : 8);
    for (int op = 0; op < nops; op++) {
        PedSector st, n;
        if (c.chance(1, 8)) { st = c.range(0, len + 4); n = c.range(1, len + 4); }   // may leave the device
        else { st = c.range(0, len - 1); n = c.range(1, len - st); }
        bool inside = st + n <= len;
        int what = c.weighted({5, 5, 2, 2, 2, 2, 2, 2, 2, 1, 2, 1});
        F.rate = c.pickl({0, 2, 4, 8});
        F.left = (int)c.range(0, 12);
        F.given = F.shorts = F.hard = 0;
        F.bad0 = F.bad1 = 0;
        F.seek_fault = false;
        ignored = cancelled = false;
        asked = 0;
        size_t e0 = sim_exc.size();
        size_t mis = c.weighted({3, 1});   // misaligned buffer
        Bytes store;
        // a buffer of exactly the right size, at the end of its allocation
        auto buf = [&](PedSector k2) { store.assign(mis + (size_t)(k2 * ss), 0xA5); store.shrink_to_fit(); return store.data() + mis; };
        auto common = [&](const char *name, int r, bool isread) {
            bool told = sim_exc.size() > e0;
            c.note("%s(%lld, %lld)%s: %s%s", name, (long long)st, (long long)n, mis ? " unaligned" : "", r ? "ok" : "fails", F.given ? fmt(" (%d short, %d failed calls)", F.shorts, F.hard).c_str() : "");
            if (!r && !told) c.fail("C21:silent-failure", "%s(%lld, %lld) fails without saying why", name, (long long)st, (long long)n);
            if (r && cancelled && !ignored) c.fail("C21:error-lost", "%s(%lld, %lld) reports success although an error was not to be ignored: %s", name, (long long)st, (long long)n, sim_exc_dump().c_str());
            if (!r && !cancelled) c.fail("C21:spurious", "%s(%lld, %lld) fails although every error was retried or ignored", name, (long long)st, (long long)n);
            if (!told && F.hard == 0 && inside && !r) c.fail("C21:spurious", "%s fails", name);
            if (told && F.hard == 0 && inside && !(ro && !isread)) c.fail("C21:spurious-error", "%s(%lld, %lld): nothing failed, yet: %s", name, (long long)st, (long long)n, sim_exc_dump().c_str());
            if (F.given) { c.nontrivial = true; c.cls(fmt("%s with faults", name)); } else c.cls(name);
        };
        auto must_be = [&](const Bytes &want, const char *name) {
            Bytes got = image();
            if (got.size() != want.size()) c.fail("C21:grown", "%s changed the size of the file from %zu to %zu", name, want.size(), got.size());
            for (size_t i = 0; i < got.size(); i++)
                if (got[i] != want[i]) c.fail("C21:written", "%s(%lld, %lld) changed byte %zu (sector %zu)", name, (long long)st, (long long)n, i, i / ss);
        };
        // after a write of `data` at byte b: exact on success, old or new inside, untouched outside
        auto after_write = [&](const char *name, uint64_t b, const Bytes &data, int r) {
            Bytes got = image();
            bool exact = r && !ignored;
            if (!blk && b + data.size() > ref.size()) ref.resize(std::max<size_t>(ref.size(), got.size()));
            if (got.size() > ref.size()) c.fail("C21:grown", "%s enlarged the file", name);
            for (size_t i = 0; i < got.size(); i++) {
                bool in = i >= b && i < b + data.size();
                if (!in && got[i] != ref[i]) c.fail("C21:outside", "%s(%lld, %lld) changed byte %zu of sector %zu, outside the range", name, (long long)st, (long long)n, i % ss, i / ss);
                if (in && got[i] != data[i - b] && (exact || got[i] != ref[i]))
                    c.fail("C21:lost-write", "%s(%lld, %lld) %s, but byte %zu of sector %zu does not hold the data%s", name, (long long)st, (long long)n, r ? "reports success" : "fails", i % ss, i / ss, exact ? "" : " nor what it held before");
            }
            if (exact && b + data.size() > got.size()) c.fail("C21:lost-write", "%s(%lld, %lld) reports success, but the device ends before", name, (long long)st, (long long)n);
            ref = got;
        };
        if (what == 0 || what == 2 || what == 8) {
            // reading: device, pt-tools, geometry
            if (c.chance(1, 8)) { F.bad0 = (uint64_t)c.range(0, len - 1) * ss; F.bad1 = F.bad0 + ss * c.range(1, 3); }
            int r;
            uint8_t *p = nullptr;
            void *q = nullptr;
            const char *name = "read";
            if (what == 0) { p = buf(n); r = ped_device_read(d, p, st, n); }
            else if (what == 2) {
                name = "ptt_read_sectors";
                if (n == 1 && c.chance(1, 2)) r = ptt_read_sector(d, st, &q);
                else r = ptt_read_sectors(d, st, n, &q);
                p = (uint8_t *)q;
            } else {
                name = "geometry_read";
                if (!inside || st + n > len) { st = 0; n = len; }
                inside = true;
                PedSector off = c.range(0, n - 1), cnt = c.range(1, n - off);
                bool over = c.chance(1, 6);
                if (over) cnt = n - off + c.range(1, 3);
                PedGeometry g;
                if (!ped_geometry_init(&g, d, st, n)) c.fail("C21:geometry", "a region of the device is refused");
                bool alloc = c.chance(1, 3);
                if (alloc) r = ped_geometry_read_alloc(&g, &q, off, cnt), p = (uint8_t *)q;
                else p = buf(cnt), r = ped_geometry_read(&g, p, off, cnt);
                if (over) {
                    c.note("geometry_read beyond the end of the region: %d", r);
                    if (r) c.fail("C21:geometry-bounds", "reading %lld sectors at %lld of a region of %lld is not refused", (long long)cnt, (long long)off, (long long)n);
                    if (sim.calls && sim_exc.size() == e0 && F.hard) {}
                    must_be(ref, name);
                    continue;
                }
                st += off; n = cnt;
            }
            common(name, r, true);
            if (r && !ignored) {
                Bytes want(n * ss);
                if ((uint64_t)(st + n) * ss > ref.size()) c.fail("C21:short-read", "%s(%lld, %lld) reports success beyond the end of the device", name, (long long)st, (long long)n);
                memcpy(want.data(), ref.data() + st * ss, n * ss);
                for (size_t i = 0; i < want.size(); i++)
                    if (p[i] != want[i]) c.fail("C21:wrong-data", "%s(%lld, %lld) reports success, but byte %zu of sector %zu differs from the device", name, (long long)st, (long long)n, i % ss, st + i / ss);
            }
            if (q && r) free(q);
            must_be(ref, name);
        } else if (what == 1 || what == 3 || what == 4 || what == 5) {
            if (what == 1 || what == 4) {
                const char *name = "write";
                Bytes data;
                int r;
                if (what == 1) {
                    data = pattern(c, n * ss);
                    uint8_t *p = buf(n);
                    memcpy(p, data.data(), data.size());
                    r = ped_device_write(d, p, st, n);
                    if (memcmp(p, data.data(), data.size())) c.fail("C21:buffer", "writing changed the caller's buffer");
                } else {
                    name = "geometry_write";
                    st = c.range(0, len - 1);
                    n = c.range(1, len - st);
                    inside = true;
                    PedGeometry g;
                    if (!ped_geometry_init(&g, d, st, n)) c.fail("C21:geometry", "a region of the device is refused");
                    PedSector off = c.range(0, n - 1), cnt = c.range(1, n - off);
                    bool over = c.chance(1, 5);
                    if (over) cnt = n - off + c.range(1, 3);
                    data = pattern(c, cnt * ss);
                    uint8_t *p = buf(cnt);
                    memcpy(p, data.data(), data.size());
                    r = ped_geometry_write(&g, p, off, cnt);
                    if (over) {
                        c.note("geometry_write beyond the end of the region: %d", r);
                        if (r && !ignored) c.fail("C21:geometry-bounds", "writing %lld sectors at %lld of a region of %lld is not refused", (long long)cnt, (long long)off, (long long)n);
                        if (sim_exc.size() == e0) c.fail("C21:silent-failure", "writing outside of the region is not reported");
                        must_be(ref, name);
                        continue;
                    }
                    st += off; n = cnt;
                }
                common(name, r, false);
                if (ro) { must_be(ref, name); if (r && !ignored) c.fail("C21:read-only", "writing to a device opened read-only reports success"); }
                else after_write(name, (uint64_t)st * ss, data, r);
            } else if (what == 3) {
                if (!inside) { st = 0; n = len; inside = true; }
                if (c.chance(1, 3)) n = c.range(0, n);
                bool geo = c.chance(1, 2);
                int r;
                if (geo) {
                    PedGeometry g;
                    PedSector gs = c.range(0, st);
                    ped_geometry_init(&g, d, gs, len - gs);
                    r = ptt_geom_clear_sectors(&g, st - gs, n);
                } else r = ptt_clear_sectors(d, st, n);
                common("clear", r, n == 0);
                Bytes z(n * ss, 0);
                if (ro) must_be(ref, "clear");
                else after_write("clear", (uint64_t)st * ss, z, r);
            } else {
                st = 0; n = 1; inside = true;
                size_t bl = c.range(1, ss);
                Bytes data = pattern(c, bl), full(ss, 0);
                std::copy(data.begin(), data.end(), full.begin());
                data.shrink_to_fit();
                int r = ptt_write_sector(&fake, data.data(), bl);
                common("ptt_write_sector", r, false);
                if (ro) must_be(ref, "ptt_write_sector");
                else after_write("ptt_write_sector", 0, full, r);
            }
        } else if (what == 6) {
            // ped_device_check: how many sectors can be read
            if (!inside) { st = c.range(0, len - 1); n = c.range(1, len - st); inside = true; }
            F.left = 0;
            bool bad = c.chance(2, 3), shorts = c.chance(1, 2);
            PedSector b = c.range(0, len - 1);
            if (bad) { F.bad0 = (uint64_t)b * ss; F.bad1 = F.bad0 + ss * c.range(1, 3); }
            PedSector want = !bad ? n : F.bad1 <= (uint64_t)st * ss ? n : b < st ? 0 : std::min(n, b - st);
            int budget = shorts ? 6 : 0;
            sim.fault = [&](SimCall &x) -> int {
                if (x.kind == S_READ && budget > 0 && x.len > 1 && c.chance(1, 2)) { budget--; F.given++; x.len = 1 + c.draw(x.len - 2); }
                return F(x);
            };
            // a file that is truncated underneath ends early
            uint8_t *p = buf(n);
            bool beyond = c.chance(1, 6);
            PedSector n2 = n;
            if (beyond && !bad) { n2 = len - st + c.range(1, 3); p = buf(n2); want = std::min<PedSector>(n2, ref.size() / ss - st); }
            PedSector got = ped_device_check(d, p, st, n2);
            c.note("check(%lld, %lld)%s: %lld sectors are fine", (long long)st, (long long)n2, bad ? fmt(" with sectors %lld-%lld bad", (long long)b, (long long)(F.bad1 / ss - 1)).c_str() : "", (long long)got);
            if (got != want) c.fail("C21:check", "check(%lld, %lld) says that %lld sectors are fine, the first %lld can be read", (long long)st, (long long)n2, (long long)got, (long long)want);
            if (bad || F.given) c.nontrivial = true;
            c.cls("check");
            sim.fault = [&](SimCall &x) { return F(x); };
            must_be(ref, "check");
        } else if (what == 7) {
            // ped_geometry_check: the first bad granule
            F.left = 0;
            PedSector gs = c.range(0, len - 1), gl = c.range(1, len - gs);
            PedGeometry g;
            ped_geometry_init(&g, d, gs, gl);
            PedSector off = c.range(0, gl - 1), cnt = c.range(1, gl - off);
            PedSector gran = c.range(1, std::min<PedSector>(cnt, 5));
            PedSector bs = gran * c.range(1, 6);
            if (c.chance(1, 4)) bs += c.range(0, gran - 1);
            bool bad = c.chance(3, 4), once = c.chance(1, 5);
            PedSector b = gs + off + c.range(0, cnt - 1);
            if (bad) { F.bad0 = (uint64_t)b * ss; F.bad1 = F.bad0 + ss; }
            PedSector want = bad ? off + (b - gs - off) / gran * gran : 0;
            if (once) { bad = false; F.bad0 = F.bad1 = 0; F.left = 1; F.rate = 8; want = 0; }
            uint8_t *p = buf(bs);
            uint64_t rd0 = UINT64_MAX, rd1 = 0;
            sim.fault = [&](SimCall &x) -> int {
                if (x.kind == S_READ) { rd0 = std::min(rd0, x.off); rd1 = std::max(rd1, x.off + x.len); }
                if (x.kind == S_READ && x.len && once && F.left > 0 && c.chance(1, 3)) { F.left = 0; F.given++; return EIO; }
                if (once) return 0;
                return F(x);
            };
            PedTimer *t = ped_timer_new([](PedTimer *, void *) {}, nullptr);
            PedSector got = ped_geometry_check(&g, p, bs, off, gran, cnt, t);
            ped_timer_destroy(t);
            ped_exception_catch();
            c.note("geometry_check(%lld+%lld, buffer %lld, offset %lld, granularity %lld, count %lld)%s: %lld", (long long)gs, (long long)gl, (long long)bs, (long long)off, (long long)gran, (long long)cnt,
                   bad ? fmt(" sector %lld bad", (long long)(b - gs)).c_str() : once && F.given ? " one read fails once" : "", (long long)got);
            if (got != want && !(once && F.given)) c.fail("C21:geometry-check", "the first bad granule is %lld, %lld is reported", (long long)want, (long long)got);
            if (rd1 > rd0 && (rd0 < (uint64_t)(gs + off) * ss || rd1 > (uint64_t)(gs + off + cnt) * ss))
                c.fail("C21:geometry-check-range", "sectors outside of the requested range are read");
            c.nontrivial = c.nontrivial || bad || F.given;
            c.cls("geometry_check");
            sim.fault = [&](SimCall &x) { return F(x); };
            must_be(ref, "geometry_check");
        } else if (what == 9) {
            // access from outside
            F.left = 0;
            if (!ped_device_begin_external_access(d)) c.fail("C21:external", "external access is refused");
            if (sim.nopen) c.fail("C21:external", "the device stays open during external access");
            Bytes data = pattern(c, ss);
            k.wr(0, ss, data.data());
            std::copy(data.begin(), data.end(), ref.begin());
            if (!ped_device_end_external_access(d)) c.fail("C21:external", "the device cannot be opened again");
            ro = d->read_only;
            c.note("external access");
            must_be(ref, "external access");
        } else {
            // sync
            bool fast = what == 11;
            F.fsync_failed_last = false;
            bool last = false;
            int nf = 0;
            sim.fault = [&](SimCall &x) -> int {
                if (x.kind != S_FSYNC || x.part) return 0;
                int e = F(x);
                nf++;
                last = e == 0;
                return e;
            };
            int r = fast ? ped_device_sync_fast(d) : ped_device_sync(d);
            bool told = sim_exc.size() > e0;
            c.note("sync%s: %s (%d fsyncs)", fast ? "_fast" : "", r ? "ok" : "fails", nf);
            if (!ro) {
                if (r && !ignored && !last) c.fail("C21:sync", "sync reports success, but the device was not flushed (%d fsync calls)", nf);
                if (!r && !cancelled) c.fail("C21:sync", "sync fails although nothing failed for good");
                if (r && cancelled && !ignored) c.fail("C21:sync", "sync reports success although the error was not to be ignored");
                if (F.hard && !told) c.fail("C21:silent-failure", "a failing flush is not reported");
            }
            if (F.given) c.nontrivial = true;
            c.cls("sync");
            sim.fault = [&](SimCall &x) { return F(x); };
            must_be(ref, "sync");
        }
        c.mix(st); c.mix(n); c.mix(what);
        if (sim.limit_hit) c.fail("C21:endless", "endless system calls");
    }
    // closing flushes
    F.left = 0;
    bool ffail = c.chance(1, 6), said;
    size_t e0 = sim_exc.size();
    int nf = 0, bad = 0;
    sim.fault = [&](SimCall &x) -> int {
        if (x.kind == S_FSYNC && x.path == k.path) { nf++; if (ffail && nf == 1) { bad++; return EIO; } }
        return 0;
    };
    asked = 0;
    int r = ped_device_close(d);
    said = sim_exc.size() > e0;
    if (!ro && !nf) c.fail("C21:close", "closing a device does not flush it");
    if (bad && !said) c.fail("C21:silent-failure", "a failing flush on closing is not reported");
    (void)r;
    sim.fault = nullptr;
    Bytes got = image();
    if (got != ref) c.fail("C21:close", "closing changed the device");
    if (sim.badfd) c.fail("C21:badfd", "%d calls on a closed descriptor", sim.badfd);
    ped_device_destroy(d);
}

int main(int argc, char **argv) {
    return main_(argc, argv, {{"C21", c21, 30000, 400000, "at least one call stopped short, was interrupted or failed, or the device has unreadable sectors"}});
}
