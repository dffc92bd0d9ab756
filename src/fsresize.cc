// C27: resizing a file system keeps every file.
#include "world.h"
#include "tool.h"
#include "fatimg.h"
using namespace pbt;
static Ctx *g_c;
static bool g_bug;
static std::string g_bugmsg;
static int g_asked;
// a user who wants no data lost: agrees to conversions (mostly), never ignores an error
static PedExceptionOption answer(PedException *e) {
    if (e->type == PED_EXCEPTION_BUG) { g_bug = true; g_bugmsg = e->message ? e->message : ""; return PED_EXCEPTION_CANCEL; }
    int o = e->options;
    if ((o & PED_EXCEPTION_YES) && (o & PED_EXCEPTION_NO)) {
        g_asked++;
        int k = g_c->weighted({5, 5, 1});
        if (k == 2 && (o & PED_EXCEPTION_CANCEL)) return PED_EXCEPTION_CANCEL;
        return k ? PED_EXCEPTION_YES : PED_EXCEPTION_NO;
    }
    if (o & PED_EXCEPTION_OK) {
        g_asked++;
        return g_c->chance(1, 10) && (o & PED_EXCEPTION_CANCEL) ? PED_EXCEPTION_CANCEL : PED_EXCEPTION_OK;
    }
    if (o & PED_EXCEPTION_CANCEL) return PED_EXCEPTION_CANCEL;
    return PED_EXCEPTION_UNHANDLED;
}
struct HookGuard {
    HookGuard() { g_exc_hook = answer; g_bug = false; g_asked = 0; }
    ~HookGuard() { g_exc_hook = nullptr; }
};
static void compare(Ctx &c, const char *what, const FatTree &a, const FatTree &b) {
    size_t n = std::max(a.ents.size(), b.ents.size());
    auto skipdots = [](const FatEnt &e) { return e.path.size() >= 11 && e.path[e.path.size() - 11] == '.'; };
    (void)skipdots;
    for (size_t i = 0; i < n; i++) {
        if (i >= a.ents.size()) c.fail("C27:extra-entry", "%s: an entry that was not there: %s", what, b.ents[i].str().c_str());
        if (i >= b.ents.size()) c.fail("C27:lost-entry", "%s: an entry is gone: %s", what, a.ents[i].str().c_str());
        if (!(a.ents[i] == b.ents[i])) c.fail(a.ents[i].path == b.ents[i].path && a.ents[i].meta == b.ents[i].meta ? "C27:content" : "C27:entry-changed", "%s: an entry changed\n  before: %s\n  after:  %s", what, a.ents[i].str().c_str(), b.ents[i].str().c_str());
    }
}
static void fsck(Ctx &c, const char *what, const MemDev &m, PedSector start, PedSector len) {
    Scratch sc;
    dump_image(m, start, len, sc.file.c_str());
    std::string out;
    int r = run_tool({"fsck.fat", "-n", sc.file}, &out);
    if (r) c.fail(what[0] == 'b' ? "C27:HARNESS-base" : "C27:fsck", "fsck.fat exits %d on the file system %s:\n%s", r, what, out.c_str());
}
static void fat_case(Ctx &c, World &w) {
    FatGeo g;
    g.fat32 = c.weighted({5, 3}) == 1;
    PedSector clusters, len;
    if (g.fat32) {
        g.spc = c.pickl<int>({8, 8, 8, 16, 16, 32, 64, 128, 4, 1, 2});
        clusters = c.weighted({6, 2, 1}) == 0 ? c.range(65525, 80000) : c.chance(1, 3) ? c.range(2000, 65524) : c.range(65525, 180000);
    } else {
        g.spc = c.pickl<int>({2, 2, 4, 4, 8, 16, 32, 64, 128, 1});
        clusters = c.chance(1, 4) ? c.range(4100, 32760) : c.biased(32760, 65524);
    }
    len = clusters * g.spc + clusters * (g.fat32 ? 8 : 4) / 512 + 40 + c.draw(300);
    // where it may go
    PedSector before = c.chance(1, 5) ? 0 : c.biased(0, c.chance(1, 3) ? len : 5000), after = c.chance(1, 6) ? 0 : c.biased(0, c.chance(1, 2) ? len * 3 : 20000);
    PedSector total = before + len + after;
    if (c.chance(1, 3) && total < 67000 * 8 + 2000) total = 67000 * 8 + 2000 + c.draw(400000);   // room for FAT32
    w.reset();
    w.m = mem_new(total, 512);
    w.m->bg = 1 + c.draw(0xfffffff);
    w.m->geom = PedCHSGeometry{(int)(total / (255 * 63)), 255, 63};
    w.m->logging = false;
    std::string desc;
    if (!fat_make(c, *w.m, before, len, &desc, &g)) c.discard();
    c.note("%s on %lld sectors", desc.c_str(), (long long)total);
    c.mix(desc.data(), desc.size());
    FatTree t0 = fat_read(*w.m, before, len);
    if (!t0.err.empty()) c.fail("C27:HARNESS-base", "the generated file system is not consistent: %s", t0.err.c_str());
    bool tool = c.chance(1, c.thorough ? 6 : 10) && g.nfats <= 2 && g.backup;
    if (tool) fsck(c, "before", *w.m, before, len);
    std::vector<std::vector<uint8_t>> keep;
    w.m->logging = true;
    w.m->resetlog();
    w.dev = mem_open(w.m);
    if (!w.dev) c.fail("C27:HARNESS-open", "cannot open");
    HookGuard hg;
    g_c = &c;
    exc_clear();
    PedGeometry *og = ped_geometry_new(w.dev, before, len);
    PedFileSystem *fs = ped_file_system_open(og);
    if (!fs) {
        c.note("not opened: %s", exc_dump().c_str());
        bool reason = g.tot != len || g.spc == 1 || g.clusters < 4087;
        if (!w.m->log.empty()) c.fail("C27:open-writes", "opening the file system wrote to it");
        if (!reason) c.fail("C27:open-refused", "a consistent FAT%d of %u clusters is not opened: %s", g.fat32 ? 32 : 16, g.clusters, exc_dump().c_str());
        ped_geometry_destroy(og);
        c.cls("not opened");
        return;
    }
    if (!w.m->log.empty()) c.fail("C27:open-writes", "opening the file system wrote to it");
    PedConstraint *k = ped_file_system_get_resize_constraint(fs);
    if (!k) c.fail("C27:no-constraint", "no resize constraint for an open file system");
    // the new extent
    PedSector ns = before, nl = len;
    auto meta = [&](PedSector cl, bool f32) { return cl * (f32 ? 8 : 4) / 512 + (f32 ? 32 : 33) + 4; };
    switch (c.weighted({4, 3, 2, 2, 2})) {
    case 0: {   // a number of clusters that FAT16 can have
        int s = g.spc;
        while (s > 2 && c.chance(1, 3)) s /= 2;
        PedSector n = c.biased(32760, 65520);
        nl = n * s + meta(n, false) + g.spc + c.range(-20, 100);
        break;
    }
    case 1: {   // that FAT32 can have
        int s = g.spc;
        while (s > 8 && c.chance(1, 3)) s /= 2;
        PedSector n = c.range(65520, 120000);
        nl = n * s + meta(n, true) + g.spc + c.range(-20, 100);
        break;
    }
    case 2: nl = len + c.biased(-2000, 2000); break;
    case 3: nl = k->min_size + c.biased(0, len); break;
    default: nl = c.biased(1, total); break;
    }
    switch (c.weighted({6, 3, 2, 2, 1})) {
    case 0: break;
    case 1: ns = before + c.range(-300, 300); break;
    case 2: ns = before + g.spc * c.range(-100, 100); break;
    case 3: ns = c.biased(0, total - 1); break;
    default: ns = c.chance(1, 2) ? before - nl : before + len; break;   // elsewhere, like a copy
    }
    if (c.chance(1, 12)) { ns = before; nl = len; }
    if (c.chance(1, 10)) { nl = before + len - ns; }   // keep the end
    ns = std::max<PedSector>(0, std::min(ns, total - 1));
    nl = std::max<PedSector>(1, std::min(nl, total - ns));
    PedGeometry *ng = ped_geometry_new(w.dev, ns, nl);
    if (!ng) c.fail("C27:HARNESS-geom", "cannot make a geometry %lld+%lld", (long long)ns, (long long)nl);
    bool inside = ped_constraint_is_solution(k, ng);
    c.note("resize %lld+%lld -> %lld+%lld (%s the constraint, minimum %lld)", (long long)before, (long long)len, (long long)ns, (long long)nl, inside ? "in" : "outside", (long long)k->min_size);
    c.mix(ns);
    c.mix(nl);
    // Sectors of the old data area that nothing uses and that turn out not to be writable: the
    // library is to put its data elsewhere.
    std::set<PedSector> used0;
    if (c.chance(1, 6)) {
        for (auto &e : t0.ents) for (auto q : e.chain) used0.insert(q);
        PedSector lo = std::max(ns + 40 + (nl / 100), before + g.data()), hi = std::min(ns + nl, before + len);
        int nb = 1 + c.draw(3);
        for (int i = 0; i < nb && lo < hi; i++) {
            PedSector s = lo + c.biased(0, std::min<PedSector>(hi - lo - 1, 6000));
            uint32_t cl = (s - before - g.data()) / g.spc + 2;
            if (cl < 2 || cl >= g.clusters + 2 || used0.count(cl) || (g.fat32 && cl == g.root)) continue;
            w.m->badw.push_back(s);
            c.note("sector %lld cannot be written", (long long)s);
        }
    }
    exc_clear();
    int ok = ped_file_system_resize(fs, ng, nullptr);
    std::string exc = exc_dump();
    c.note("-> %d, %zu writes%s%s", ok, w.m->log.size(), exc.empty() ? "" : ", ", exc.c_str());
    if (g_bug) c.fail("C27:bug", "the library reports a bug in itself: %s", g_bugmsg.c_str());
    if (w.m->oob) c.fail("C27:outside-device", "access outside the device");
    for (auto &o : w.m->log) {
        if (o.sync) continue;
        for (PedSector s = o.start; s < o.start + o.count; s++)
            if (!(s >= before && s < before + len) && !(s >= ns && s < ns + nl))
                c.fail("C27:outside", "sector %lld is written; it belongs neither to the old nor to the new extent", (long long)s);
    }
    ped_constraint_destroy(k);
    if (!ped_file_system_close(fs)) c.fail("C27:close", "closing the file system failed");
    ped_geometry_destroy(ng);
    ped_geometry_destroy(og);
    if (w.m->fired) c.cls(ok ? "resized around sectors that cannot be written" : "refused after a write error");
    if (!ok) {
        FatTree t = fat_read(*w.m, before, len);
        if (!t.err.empty()) c.fail("C27:refused-damaged", "the resize was refused, and the old file system is damaged: %s", t.err.c_str());
        compare(c, "refused", t0, t);
        c.cls(w.m->log.empty() ? "refused" : "refused after writing to free space");
        return;
    }
    FatTree t = fat_read(*w.m, ns, nl);
    if (!t.err.empty() && c.verbose) {
        for (size_t i = 0; i < std::max(t0.ents.size(), t.ents.size()); i++) {
            if (i < t0.ents.size()) c.note("  before: %s", t0.ents[i].str().c_str());
            if (i < t.ents.size()) c.note("  after:  %s", t.ents[i].str().c_str());
        }
    }
    if (!t.err.empty()) c.fail("C27:inconsistent", "the new file system is not consistent: %s", t.err.c_str());
    if (t.g.tot != nl) c.fail("C27:size", "the new file system has %lld sectors, not %lld", (long long)t.g.tot, (long long)nl);
    if (t.g.serial != g.serial) c.fail("C27:serial", "the serial number changed from %08x to %08x", g.serial, t.g.serial);
    if (t.g.label != t0.g.label) c.fail("C27:label", "the volume label in the boot sector changed from '%s' to '%s'", t0.g.label.c_str(), t.g.label.c_str());
    compare(c, "resized", t0, t);
    // data stays off sectors known to be bad
    if (!t0.bad.empty()) {
        std::vector<std::pair<PedSector, PedSector>> bad;
        for (auto b : t0.bad) bad.push_back({t0.g.csec(b), t0.g.csec(b) + t0.g.spc - 1});
        for (auto &e : t.ents)
            for (auto k2 : e.chain)
                for (auto &b : bad)
                    if (t.g.csec(k2) <= b.second && t.g.csec(k2) + t.g.spc - 1 >= b.first)
                        c.fail("C27:bad-cluster", "%s: is stored on sectors %lld-%lld, which were marked bad", e.str().c_str(), (long long)b.first, (long long)b.second);
    }
    // and the library recognizes it
    PedGeometry *pg = ped_geometry_new(w.dev, ns, nl);
    PedFileSystemType *ft = ped_file_system_probe(pg);
    const char *want = t.g.fat32 ? "fat32" : "fat16";
    if (!ft || strcmp(ft->name, want)) c.fail("C27:probe", "the new file system is recognized as %s", ft ? ft->name : "nothing");
    PedGeometry *xg = ped_file_system_probe_specific(ft, pg);
    if (!xg || xg->start != ns || xg->length != nl) c.fail("C27:probe-extent", "the new file system is seen at %lld+%lld", xg ? (long long)xg->start : -1, xg ? (long long)xg->length : -1);
    ped_geometry_destroy(xg);
    ped_geometry_destroy(pg);
    if (tool) fsck(c, "after", *w.m, ns, nl);
    c.nontrivial = true;
    c.cls(fmt("FAT%d to FAT%d%s%s%s", g.fat32 ? 32 : 16, t.g.fat32 ? 32 : 16, t.g.spc < g.spc ? ", smaller clusters" : "", ns < before ? ", start moved left" : ns > before ? ", start moved right" : "", nl < len ? ", shrunk" : nl > len ? ", grown" : ""));
}
static void c27(Ctx &c) {
    World w(c);
    fat_case(c, w);
}
int main(int argc, char **argv) {
    return main_(argc, argv, {{"C27", c27, 3000, 60000, "a resize that is carried out", nullptr}});
}
