// Properties that look at the bytes on the device: format conformance, write confinement, purity,
// crash consistency, recovery, relabelling, device faults and limits.
#include "mutate.h"

// ---------------------------------------------------------------- boot code
// bytes of sector 0 that belong to a boot loader, per label
static std::vector<std::pair<int, int>> boot_area(const std::string &l) {
    if (l == "msdos" || l == "gpt") return {{0, 446}};
    if (l == "pc98") return {{0, 510}};
    if (l == "bsd") return {{0, 64}, {340, 504}};
    if (l == "atari") return {{0, 0x156}};
    return {};
}
static std::vector<uint8_t> plant_boot(World &w, Ctx &c) {
    auto b = w.m->read(0);
    bool zerofirst = c.chance(1, 4);
    uint8_t x = (uint8_t)c.range(1, 255);
    for (auto &r : boot_area(w.label))
        for (int i = r.first; i < r.second; i++) b[i] = (uint8_t)(x + i * 7 + (i >> 3)) | 1;
    if (zerofirst && w.label != "msdos") b[0] = 0;   // parted takes a zero first byte for a table without boot code
    if (w.label == "msdos" || w.label == "gpt") {
        // boot loaders of other operating systems use words that some readers take for signatures
        if (w.label == "gpt") memset(&b[440], 0, 6);
        b[444] = b[445] = 0;
        memcpy(&b[0x36], "\x01\x02\x03\x04\x05", 5);
        memcpy(&b[0x52], "\x01\x02\x03\x04\x05", 5);
    }
    if (w.label == "pc98") { memcpy(&b[4], "IPL1", 4); b[0] = 0xeb; }
    if (w.label == "bsd") {
        // the boot block checksum covers the boot code
        uint64_t sum = 0, v;
        for (int i = 0; i < 63; i++) { memcpy(&v, &b[8 * i], 8); sum += v; }
        memcpy(&b[504], &sum, 8);
    }
    if (w.label == "atari") { memset(&b[0x156], 0, 96); }
    w.m->put(0, b.data());
    c.note("boot code %02x%s", x, zerofirst ? " (first byte 0)" : "");
    return b;
}
static void check_boot(World &w, Ctx &c, const std::vector<uint8_t> &b, const char *id) {
    if (b.empty()) return;
    auto n = w.m->read(0);
    for (auto &r : boot_area(w.label))
        for (int i = r.first; i < r.second; i++)
            if (b[i] != n[i]) c.fail(fmt("%s:boot-code", id).c_str(), "byte %d of the boot code changed from %02x to %02x", i, b[i], n[i]);
}

// ---------------------------------------------------------------- C12 C13 C14
static void conform(Ctx &c, const char *id, const std::string &label) {
    World w(c);
    if (!start_world(w, c, label)) c.discard();
    ParseOpts o;
    o.chs = true;
    o.geom = w.dev->bios_geom;
    std::vector<uint8_t> boot;
    bool foreign = (label == "gpt" || label == "msdos") && c.chance(1, 4);
    if (foreign) {
        if (!(label == "gpt" ? foreign_gpt(w, c) : foreign_dos(w, c))) c.discard();
        w.reopen();
        o.chs = o.fresh = false;
        exc_clear();
        Parsed P = parse_label(*w.m, label, o);
        if (!P.err.empty()) { c.note("foreign table: %s", P.err.c_str()); c.fail("harness:foreign", "the harness wrote a bad table: %s", P.err.c_str()); }
        if (!w.load()) c.fail(fmt("%s:foreign-refused", id).c_str(), "a conforming table is refused: %s", exc_dump().c_str());
        if (label != w.disk->type->name) c.fail(fmt("%s:foreign-type", id).c_str(), "a conforming %s table is taken for %s", label.c_str(), w.disk->type->name);
        DSnap d = snap(w.disk);
        auto e = compare(P, d, *w.m);
        if (!e.empty()) c.fail(fmt("%s:foreign-read", id).c_str(), "a conforming table is misread: %s\n%s", e.c_str(), show(d).c_str());
        auto b = w.m->read(0);
        if (label == "msdos") boot = b;
        c.cls("foreign");
    }
    int rounds = 1 + (int)c.draw(2);
    for (int r = 0; r < rounds; r++) {
        for (Steps st(c, 10); st.next();) w.op();
        exc_clear();
        DSnap want = snap(w.disk);
        if (!w.commit()) { c.cls("commit-refused"); c.note("refused: %s", exc_dump().c_str()); return; }
        c.note("commit");
        Parsed P = parse_label(*w.m, label, o);
        if (!P.err.empty()) c.fail(fmt("%s:format", id).c_str(), "committed %s table: %s\n%s", label.c_str(), P.err.c_str(), show(want).c_str());
        auto e = compare(P, want, *w.m);
        if (!e.empty()) c.fail(fmt("%s:differs", id).c_str(), "committed %s table on disk: %s\n%s", label.c_str(), e.c_str(), show(want).c_str());
        check_boot(w, c, boot, id);
        if (want.parts.size() >= 2) c.nontrivial = true;
        c.cls(fmt("%s:parts:%zu", label.c_str(), std::min<size_t>(want.parts.size(), 9)));
        if (r + 1 < rounds) {
            if (!readable(want)) return;
            if (c.chance(1, 2) && !boot_area(label).empty()) boot = plant_boot(w, c);
            w.reopen();
            exc_clear();
            if (!w.load()) c.fail(fmt("%s:reread", id).c_str(), "table cannot be read back: %s\n%s", exc_dump().c_str(), show(want).c_str());
            o.chs = false;
        }
    }
}
// A table with some bytes changed that still conforms, as the independent reader sees it, and that the
// library accepts without a word, must be the same table to both.
static void conform_changed(Ctx &c, const char *id, const std::string &label) {
    World w(c);
    if (!start_world(w, c, label)) c.discard();
    for (Steps st(c, 8); st.next();) w.op();
    w.m->resetlog();
    if (!w.commit() || !readable(snap(w.disk))) c.discard();
    ParseOpts o;
    o.fresh = false;
    auto sect = written(*w.m);
    if (!parse_label(*w.m, label, o).err.empty()) c.discard();   // judged elsewhere
    auto base = w.m->data;
    for (int i = 0; i < 12; i++) {
        w.close();
        w.m->data = base;
        damage(w, c, sect, 1 + (int)c.draw(2));
        fix_sums(w, c, label, sect);
        Parsed P = parse_label(*w.m, label, o);
        if (!P.err.empty()) { c.cls("not-conforming"); continue; }
        w.reopen();
        exc_clear();
        if (!w.load() || !g_exc.empty() || label != w.disk->type->name) { c.cls("not-accepted"); continue; }
        DSnap d = snap(w.disk);
        auto e = compare(P, d, *w.m);
        if (!e.empty()) c.fail(fmt("%s:changed-read", id).c_str(), "a conforming table is misread: %s\n%s", e.c_str(), show(d).c_str());
        c.cls("changed-and-accepted");
        if (c.chance(1, 2)) {   // and writing it, edited or not, keeps it right
            for (int k = (int)c.draw(2); k > 0; k--) w.op();
            DSnap want = snap(w.disk);
            exc_clear();
            if (!w.commit()) { if (g_exc.empty()) c.fail(fmt("%s:changed-silent", id).c_str(), "the commit fails without a message"); c.cls("changed-commit-refused"); continue; }
            c.note("commit");
            P = parse_label(*w.m, label, o);
            if (!P.err.empty()) c.fail(fmt("%s:changed-format", id).c_str(), "the committed table does not conform: %s\n%s", P.err.c_str(), show(want).c_str());
            e = compare(P, want, *w.m);
            if (!e.empty()) c.fail(fmt("%s:changed-written", id).c_str(), "the committed table on disk: %s\n%s", e.c_str(), show(want).c_str());
        }
        c.nontrivial |= d.parts.size() >= 1;
    }
}
static void c12(Ctx &c) {
    if (c.chance(1, 5)) conform_changed(c, "C12", "gpt");
    else conform(c, "C12", "gpt");
}
static void c13(Ctx &c) {
    if (c.chance(1, 5)) conform_changed(c, "C13", "msdos");
    else conform(c, "C13", "msdos");
}
static void c14(Ctx &c) {
    static const std::vector<std::string> v = {"sun", "bsd", "mac", "dvh", "amiga", "pc98", "atari"};
    const std::string &l = c.pick(v);
    if (c.chance(1, 4)) conform_changed(c, "C14", l);
    else conform(c, "C14", l);
}


// ---------------------------------------------------------------- C04
struct Zones {
    std::vector<std::pair<PedSector, PedSector>> v;
    void add(PedSector s, PedSector e) { v.push_back({s, e}); }
    bool has(PedSector x) const { for (auto &z : v) if (in(x, z.first, z.second)) return true; return false; }
};
// sectors that hold metadata of the table, as the library itself accounts for them plus the fixed
// places of each format
static void meta_zones(const DSnap &d, const MemDev &m, Zones &z) {
    for (auto &r : d.raw)
        if (r.type & PED_PARTITION_METADATA) z.add(r.s, r.e);
    for (auto &p : d.parts) {
        if (p.type & PED_PARTITION_EXTENDED && d.label != "dvh") z.add(p.s, p.s);    // first EBR
        if (d.label == "mac" && p.num == 1 && p.s <= 1) z.add(p.s, p.e);             // the map describes itself
    }
    if (d.label != "gpt") z.add(0, 0);
    if (d.label == "mac") z.add(0, 1);
    (void)m;
}
// the contents of partitions
static void content_zones(const DSnap &d, Zones &z) {
    for (auto &p : d.parts) {
        if (p.type & PED_PARTITION_EXTENDED) continue;
        if (d.label == "mac" && p.num == 1 && p.s <= 1) continue;
        if (d.label == "loop") continue;
        PedSector s = p.s, e = p.e;
        // these labels live in the first sector of the disk, which a partition may cover
        if (s == 0) s = 1;
        if (s <= e) z.add(s, e);
    }
}
static void c04(Ctx &c) {
    World w(c);
    if (!start_any(w, c, gen_label(c), true)) c.discard();
    w.m->bg = 7;
    PedSector ncl = std::max<PedSector>(9 * 1024 / w.m->ss + 1, 16), L = w.m->length;
    if (c.chance(1, 8)) {
        // wiping alone touches both ends only
        w.m->resetlog();
        if (ped_disk_clobber(w.dev))
            for (auto &x : w.m->log)
                for (PedSector i = x.start; i < x.start + x.count; i++)
                    if (i > ncl && i < L - ncl) c.fail("C04:clobber", "clobber writes to sector %lld of %lld", (long long)i, (long long)L);
        if (w.m->oob) c.fail("C04:outside", "access outside the device");
    }
    std::vector<uint8_t> boot;
    DSnap old;
    int rounds = 1 + (int)c.draw(3);
    for (int r = 0; r < rounds; r++) {
        for (Steps st(c, 8); st.next();) w.op();
        if (c.chance(1, 6)) {
            PedDisk *d = ped_disk_duplicate(w.disk);
            if (d) { ped_disk_destroy(w.disk); w.disk = d; c.note("commit a duplicate"); }
        }
        DSnap want = snap(w.disk);
        w.m->resetlog();
        w.m->oob = w.m->oob_write = 0;
        bool ok = w.commit();
        c.note("commit %d, %zu writes", ok, w.m->log.size());
        Zones meta, cont;
        meta_zones(want, *w.m, meta);
        if (r) meta_zones(old, *w.m, meta);
        content_zones(want, cont);
        if (ok && w.label != "loop") {
            ParseOpts o;
            o.fresh = false;
            Parsed P = parse_label(*w.m, w.label, o);
            for (PedSector t : P.tables) meta.add(t, t);
        }
        if (w.m->oob_write) c.fail("C04:outside", "%llu writes outside the device\n%s", (unsigned long long)w.m->oob_write, show(want).c_str());
        for (auto &x : w.m->log) {
            if (x.sync) continue;
            for (PedSector i = x.start; i < x.start + x.count; i++) {
                bool end = r == 0 && (i <= ncl || i >= L - ncl);   // a new label erases both ends
                if (end) continue;
                if (cont.has(i)) c.fail("C04:contents", "commit writes to sector %lld, which is inside a partition\n%s", (long long)i, show(want, true).c_str());
                if (!meta.has(i)) c.fail("C04:stray", "commit writes to sector %lld, which is not accounted for as metadata\nold %s\nnew %s", (long long)i, show(old, true).c_str(), show(want, true).c_str());
            }
        }
        if (ok) check_boot(w, c, boot, "C04");
        if (!ok) return;
        if (want.parts.size() >= 2 && r) c.nontrivial = true;
        if (!readable(want)) return;
        if (boot.empty() && !boot_area(w.label).empty() && c.chance(1, 2)) boot = plant_boot(w, c);
        w.reopen();
        if (!w.load()) {
            if (!boot.empty()) c.fail("C04:reload", "table with boot code cannot be read: %s", exc_dump().c_str());
            return;
        }
        if (w.label != w.disk->type->name) c.fail("C04:retyped", "%s with boot code is read as %s", w.label.c_str(), w.disk->type->name);
        old = snap(w.disk);
    }
}

// ---------------------------------------------------------------- C05
static void c05(Ctx &c) {
    World w(c);
    std::string lab = gen_label(c);
    if (!start_any(w, c, lab, false)) c.discard();
    for (Steps st(c, 6); st.next();) w.op();
    w.m->resetlog();
    if (!w.commit()) c.discard();
    auto sect = written(*w.m);
    if (c.chance(1, 8)) {
        // nothing but noise
        for (int i = 0; i < 20; i++) {
            std::vector<uint8_t> b(w.m->ss);
            for (auto &x : b) x = (uint8_t)c.draw(255);
            w.m->put(c.biased(0, w.m->length - 1), b.data());
        }
        c.note("noise");
    }
    int dam = c.weighted({2, 3, 2, 1});
    damage(w, c, sect, dam * 2);
    if (c.chance(1, 6)) {
        PedSector g = c.chance(1, 2) ? w.m->length + c.biased(1, 100000) : std::max<PedSector>(300, w.m->length - c.biased(1, 2000));
        if (!(lab == "atari" && g > INT32_MAX)) { set_len(w.m, g); c.note("device resized to %lld", (long long)g); }
    }
    for (int i = (int)c.draw(2); i > 0; i--) plant_fs(w, c, c.biased(0, w.m->length - 1), w.m->length);
    w.reopen();
    w.m->resetlog();
    ExcPolicy pol = c.pickl({EXC_CANCEL, EXC_IGNORE, EXC_UNHANDLED});
    g_policy = pol;
    exc_clear();
    struct R { ~R() { g_policy = EXC_CANCEL; } } rr;
    auto check = [&](const char *what) {
        for (auto &x : w.m->log)
            if (!x.sync) c.fail("C05:write", "%s writes to sector %lld (policy %d)\n%s", what, (long long)x.start, pol, exc_dump().c_str());
    };
    PedDiskType *t = ped_disk_probe(w.dev);
    c.note("probe: %s (policy %d)", t ? t->name : "-", pol);
    c.cls(t ? t->name : "none");
    check("ped_disk_probe");
    {
        PedGeometry g;
        PedSector s = c.biased(0, w.m->length - 1);
        ped_geometry_init(&g, w.dev, s, w.m->length - s);
        ped_file_system_probe(&g);
        check("ped_file_system_probe");
    }
    bool got = w.load();
    check("ped_disk_new");
    c.note("load: %d %s", got, exc_dump().c_str());
    if (got) {
        w.label = w.disk->type->name;
        snap(w.disk);
        ped_disk_check(w.disk);
        check("looking at the table");
        PedDisk *d = ped_disk_duplicate(w.disk);
        check("ped_disk_duplicate");
        if (d) ped_disk_destroy(d);
        for (int i = (int)c.draw(5); i > 0; i--) {
            OpRes r = w.op();
            check(r.desc.c_str());
        }
        if (!w.active().empty()) {
            PedPartition *p = w.pick_active();
            ped_file_system_probe(&p->geom);
            PedConstraint *k = ped_constraint_any(w.dev);
            PedGeometry *g = ped_disk_get_max_partition_geometry(w.disk, p, k);
            if (g) ped_geometry_destroy(g);
            ped_constraint_destroy(k);
            check("queries");
        }
        c.nontrivial = true;
    }
    w.close();
    check("closing");
    if (dam) c.nontrivial = true;
}

// ---------------------------------------------------------------- C10
static void c10(Ctx &c) {
    World w(c);
    if (!start_world(w, c, "gpt")) c.discard();
    for (Steps st(c, 5); st.next();) w.op();
    w.m->bg = 0;
    bool foreign = c.chance(1, 6);
    if (foreign) {
        if (!foreign_gpt(w, c)) c.discard();
    } else if (!w.commit())
        c.discard();
    c.note("committed");
    w.reopen();
    if (!w.load()) c.fail("C10:reread", "cannot read the committed table: %s", exc_dump().c_str());
    DSnap old = snap(w.disk);
    for (Steps st(c, 5); st.next();) w.op();
    DSnap nw = snap(w.disk);
    auto base = w.m->data;
    w.m->resetlog();
    if (!w.commit()) c.discard();
    auto log = w.m->log;
    bool differ = !diff(old, nw, false, false).empty();
    auto restore = [&] { w.m->data = base; };
    auto judge = [&](const char *what, size_t k) {
        w.reopen();
        w.m->logging = false;
        exc_clear();
        g_policy = EXC_AGREE;
        bool ok = w.load();
        g_policy = EXC_CANCEL;
        w.m->logging = true;
        if (!ok) c.fail("C10:lost", "crash %s write %zu of %zu: the table cannot be read: %s\nold %s\nnew %s", what, k, log.size(), exc_dump().c_str(), show(old).c_str(), show(nw).c_str());
        if (strcmp(w.disk->type->name, "gpt")) c.fail("C10:type", "crash %s write %zu: read as %s", what, k, w.disk->type->name);
        DSnap g = snap(w.disk);
        g.dflags = old.dflags;   // the protective MBR is a separate sector
        DSnap n2 = nw;
        n2.dflags = old.dflags;
        auto a = diff(old, g, false, false), b = diff(n2, g, false, false);
        if (!a.empty() && !b.empty())
            c.fail("C10:mixed", "crash %s write %zu of %zu: neither the old table (%s) nor the new one (%s)\nold %s\nnew %s\ngot %s", what, k, log.size(), a.c_str(), b.c_str(), show(old).c_str(), show(nw).c_str(), show(g).c_str());
        c.cls(a.empty() && !b.empty() ? "old" : b.empty() && !a.empty() ? "new" : "same");
        // and agreeing to the repair, then committing, makes it whole
        if (c.chance(1, 4)) {
            if (!ped_disk_commit_to_dev(w.disk)) c.fail("C10:repair-failed", "commit after the repair failed: %s", exc_dump().c_str());
            ParseOpts o;
            o.fresh = !foreign;
            Parsed P = parse_label(*w.m, "gpt", o);
            if (!P.err.empty()) c.fail("C10:repair", "repaired table does not conform: %s", P.err.c_str());
        }
    };
    size_t nw_ = 0;
    for (size_t k = 0; k <= log.size(); k++) {
        // all writes before k, optionally part of write k
        restore();
        for (size_t i = 0; i < k; i++)
            if (!log[i].sync)
                for (PedSector j = 0; j < log[i].count; j++) w.m->put(log[i].start + j, &log[i].data[j * w.m->ss]);
        auto at_k = w.m->data;
        judge("before", k);
        if (k < log.size() && !log[k].sync) {
            nw_++;
            int tries = log[k].count > 1 ? 3 : 2;
            for (int t = 0; t < tries; t++) {
                w.m->data = at_k;
                PedSector full = log[k].count > 1 ? c.range(0, log[k].count - 1) : 0;
                for (PedSector j = 0; j < full; j++) w.m->put(log[k].start + j, &log[k].data[j * w.m->ss]);
                if (c.chance(1, 2) || !full) {
                    // a torn sector
                    auto b = w.m->read(log[k].start + full);
                    size_t cut = c.chance(1, 2) ? c.range(1, b.size() - 1) : c.range(1, 128);
                    memcpy(b.data(), &log[k].data[full * w.m->ss], cut);
                    w.m->put(log[k].start + full, b.data());
                    c.note("tear write %zu at sector %lld byte %zu", k, (long long)full, cut);
                } else
                    c.note("tear write %zu after %lld sectors", k, (long long)full);
                judge("inside", k);
            }
        }
    }
    c.nontrivial = differ;
}

// ---------------------------------------------------------------- C11
static void c11(Ctx &c) {
    World w(c);
    if (!start_world(w, c, "gpt")) c.discard();
    bool foreign = c.chance(1, 5);
    int n = 128;
    if (foreign) {
        if (!foreign_gpt(w, c)) c.discard();
    } else {
        for (Steps st(c, 6); st.next();) w.op();
        if (!w.commit()) c.discard();
    }
    w.reopen();
    if (!w.load()) c.fail("C11:reread", "cannot read the committed table: %s", exc_dump().c_str());
    DSnap want = snap(w.disk);
    auto h = w.m->read(1);
    uint64_t el;
    uint32_t nn;
    memcpy(&el, &h[72], 8);
    memcpy(&nn, &h[80], 4);
    n = nn;
    PedSector last = w.m->length - 1, bel;
    auto hb = w.m->read(last);
    memcpy(&bel, &hb[72], 8);
    int mode = c.weighted({6, 6, 3, 3, 2});   // 0 primary, 1 backup, 2 both, 3 grow, 4 shrink
    auto hurt = [&](bool backup) {
        PedSector hs = backup ? last : 1, es = backup ? bel : (PedSector)el;
        auto b = w.m->read(hs);
        int kind = c.weighted({4, 4, 2, 2, 3});
        if (kind == 1) {   // entries
            size_t o = c.draw((size_t)n * 128 - 1);
            PedSector s = es + o / w.m->ss;
            auto e = w.m->read(s);
            uint8_t v = (uint8_t)c.range(1, 255);
            e[o % w.m->ss] ^= v;
            w.m->put(s, e.data());
            c.note("%s: entry array byte %zu ^ %02x", backup ? "backup" : "primary", o, v);
            return;
        }
        if (kind == 2) { std::fill(b.begin(), b.end(), 0); c.note("%s: header zeroed", backup ? "backup" : "primary"); }
        else if (kind == 3) { for (auto &x : b) x = (uint8_t)c.draw(255); b[0] = 'X'; c.note("%s: header is noise", backup ? "backup" : "primary"); }
        else if (kind == 4) {
            // a wrong field under a right checksum
            static const struct { int off, len; } F[] = {{24, 8}, {84, 4}, {12, 4}, {72, 8}, {88, 4}};
            auto &f = F[c.draw(4)];
            uint64_t v = 0;
            memcpy(&v, &b[f.off], f.len);
            uint64_t o = v;
            v = c.pickl<uint64_t>({v + 1, v - 1, 0, 0xffffffffffffffffull, v ^ 0x100, v << 1, v + 0x80000000ull});
            if (f.off == 84 && v % 8 == 0) v |= 4;
            memcpy(&b[f.off], &v, f.len);
            uint64_t now = 0;
            memcpy(&now, &b[f.off], f.len);
            uint32_t hsz;
            memcpy(&hsz, &b[12], 4);
            if (now == o) b[0] ^= 1;
            else if (f.off == 72) { b[0] ^= 1; }
            else if (hsz >= 92 && hsz <= (uint32_t)w.m->ss) {
                if (f.off == 12) b[0] ^= 1;   // a larger header is legal
                p32(&b[16], 0);
                p32(&b[16], ref_crc32(b.data(), hsz));
            }
            c.note("%s: header field at %d %llx -> %llx with a matching checksum", backup ? "backup" : "primary", f.off, (unsigned long long)o, (unsigned long long)now);
        } else {
            size_t o = c.draw(91);
            uint8_t v = (uint8_t)c.range(1, 255);
            b[o] ^= v;
            c.note("%s: header byte %zu ^ %02x", backup ? "backup" : "primary", o, v);
        }
        w.m->put(hs, b.data());
    };
    if (mode == 0) hurt(false);
    else if (mode == 1) hurt(true);
    else if (mode == 2) { hurt(false); hurt(true); }
    else if (mode == 3) { set_len(w.m, w.m->length + c.biased(1, 1ll << 24)); c.note("device grows to %lld", (long long)w.m->length); }
    else {
        PedSector maxe = 0;
        for (auto &p : want.parts) maxe = std::max(maxe, p.e);
        PedSector lo = std::max<PedSector>(maxe + 2, 100);
        if (lo >= last) c.discard();
        set_len(w.m, c.range(lo, last));
        c.note("device shrinks to %lld", (long long)w.m->length);
    }
    // without agreement: the same table, or a refusal with a message
    w.reopen();
    exc_clear();
    ExcPolicy pol = c.pickl({EXC_CANCEL, EXC_IGNORE, EXC_UNHANDLED});
    g_policy = pol;
    w.m->resetlog();
    bool ok = w.load();
    g_policy = EXC_CANCEL;
    c.note("not agreeing (%d): %d %s", pol, ok, exc_dump().c_str());
    for (auto &x : w.m->log) if (!x.sync) c.fail("C11:unasked", "repaired without agreement");
    if (ok && !strcmp(w.disk->type->name, "gpt")) {
        DSnap g = snap(w.disk);
        auto e = diff(want, g, false, false);
        if (mode >= 3 && g.len != want.len) e = "";
        if (mode == 2) c.fail("C11:invented", "both copies are damaged but a table is read\nwas %s\nnow %s", show(want).c_str(), show(g).c_str());
        if (!e.empty()) c.fail("C11:differs", "the surviving copy is misread: %s\nwas %s\nnow %s", e.c_str(), show(want).c_str(), show(g).c_str());
    } else if (ok)
        c.fail("C11:retyped", "damaged gpt is read as %s", w.disk->type->name);
    else if (g_exc.empty() && mode != 4)
        c.fail("C11:silent", "damaged gpt refused without a message");
    // agreeing
    w.reopen();
    exc_clear();
    g_policy = EXC_AGREE;
    ok = w.load();
    g_policy = EXC_CANCEL;
    c.note("agreeing: %d %s", ok, exc_dump().c_str());
    if (mode == 2) {
        if (ok) c.fail("C11:invented", "both copies are damaged but a %s table is read", w.disk->type->name);
        c.nontrivial = true;
        c.cls("both");
        return;
    }
    if (!ok) {
        // a shorter device may not leave room for the backup
        if (mode == 4) { c.cls("shrunk-refused"); return; }
        c.fail("C11:lost", "one good copy is left but the table cannot be read: %s\n%s", exc_dump().c_str(), show(want).c_str());
    }
    if (strcmp(w.disk->type->name, "gpt")) c.fail("C11:retyped", "read as %s", w.disk->type->name);
    DSnap g = snap(w.disk);
    DSnap w2 = want;
    w2.len = g.len;
    if (mode == 0 || mode == 3 || mode == 4) w2.dflags = g.dflags;
    auto e = diff(w2, g, false, false);
    if (!e.empty()) c.fail("C11:differs", "after the repair: %s\nwas %s\nnow %s", e.c_str(), show(want).c_str(), show(g).c_str());
    exc_clear();
    bool com = ped_disk_commit_to_dev(w.disk);
    if (!com && mode == 4) { if (g_exc.empty()) c.fail("C11:silent", "commit failed without a message"); c.cls("shrunk-commit-refused"); return; }
    if (!com) c.fail("C11:commit", "commit after the repair failed: %s", exc_dump().c_str());
    ParseOpts o;
    o.fresh = !foreign && mode != 4;
    Parsed P = parse_label(*w.m, "gpt", o);
    if (!P.err.empty() && mode != 4) c.fail("C11:not-restored", "both copies should be good after the commit: %s", P.err.c_str());
    if (P.err.empty()) {
        e = compare(P, g, *w.m);
        if (!e.empty()) c.fail("C11:restored-differs", "%s", e.c_str());
    }
    c.nontrivial = want.parts.size() >= 1;
    c.cls((const char *[]){"primary", "backup", "both", "grown", "shrunk"}[mode]);
}

// ---------------------------------------------------------------- C15
static void c15(Ctx &c) {
    World w(c);
    std::string lab = gen_label(c), first = lab;
    if (!start_any(w, c, lab, true)) c.discard();
    if ((lab == "gpt" || lab == "msdos") && c.chance(1, 5)) {
        if (!(lab == "gpt" ? foreign_gpt(w, c) : foreign_dos(w, c))) c.discard();
        c.note("foreign %s", lab.c_str());
    } else {
        for (Steps st(c, 4); st.next();) w.op();
        w.m->resetlog();
        if (!w.commit()) c.discard();
        c.note("commit");
    }
    auto sect = written(*w.m);
    if (c.chance(1, 4)) damage(w, c, sect, 1 + (int)c.draw(4));
    int rounds = 1 + (int)c.draw(1);
    for (int r = 0; r < rounds; r++) {
        std::string next = gen_label(c);
        PedDiskType *t = ped_disk_type_get(next.c_str());
        if (next != "gpt" && w.m->length < 300) c.discard();   // too small to hold a cylinder and the label
        bool stale = c.chance(1, 3);   // the program may still hold the device open
        if (!stale) w.reopen();
        else if (w.disk) { ped_disk_destroy(w.disk); w.disk = nullptr; }
        exc_clear();
        PedDisk *d = ped_disk_new_fresh(w.dev, t);
        if (!d) {
            if (g_exc.empty()) c.fail("C15:silent", "%s cannot be created, without a message", next.c_str());
            c.discard();
        }
        w.disk = d;
        w.label = next;
        c.note("new label %s (over %s)", next.c_str(), lab.c_str());
        for (int i = (int)c.draw(4); i > 0; i--) w.op();
        exc_clear();
        DSnap want = snap(w.disk);
        if (!w.commit()) {
            if (g_exc.empty()) c.fail("C15:silent", "commit failed without a message\n%s", show(want).c_str());
            c.discard();
        }
        if (!readable(want)) c.discard();
        w.reopen();
        exc_clear();
        PedDiskType *p = ped_disk_probe(w.dev);
        if (next == "pc98" && w.m->ss != 512) {
            // tests/t9050 and others want this label to be creatable there
            if (known("C15:pc98-sector-size")) { c.cls("known"); c.discard(); }
            if (!p || next != p->name) c.fail("C15:pc98-sector-size", "pc98 created on sectors of %lld bytes is recognised as %s", (long long)w.m->ss, p ? p->name : "nothing");
        }
        if (!p || next != p->name)
            c.fail("C15:probe", "%s created over %s is recognised as %s (%s)\n%s", next.c_str(), lab.c_str(), p ? p->name : "nothing", exc_dump().c_str(), show(want).c_str());
        if (lab != next && lab != "loop") {
            // not even the prober of the old label may find it any more, once the remains are looked at alone
            PedDiskType *ot = ped_disk_type_get(lab.c_str());
            ped_device_open(w.dev);
            ped_exception_fetch_all();
            int still = ot->ops->probe(w.dev);
            ped_exception_catch();
            ped_exception_leave_all();
            ped_device_close(w.dev);
            if (still) c.fail("C15:remains", "%s created over %s still passes for %s", next.c_str(), lab.c_str(), lab.c_str());
        }
        exc_clear();
        if (!w.load()) c.fail("C15:reread", "%s created over %s cannot be read: %s\n%s", next.c_str(), lab.c_str(), exc_dump().c_str(), show(want).c_str());
        if (!g_exc.empty()) c.fail("C15:complaint", "reading %s created over %s complains: %s", next.c_str(), lab.c_str(), exc_dump().c_str());
        auto e = rt_diff(want, snap(w.disk), false);
        if (!e.empty()) c.fail("C15:differs", "%s created over %s: %s\nwanted %s\ngot %s", next.c_str(), lab.c_str(), e.c_str(), show(want).c_str(), show(snap(w.disk)).c_str());
        if (lab != next) c.nontrivial = true;
        c.cls(lab + "->" + next);
        lab = next;
    }
}

// ---------------------------------------------------------------- C22
static void c22(Ctx &c) {
    World w(c);
    if (!start_any(w, c, gen_label(c), true)) c.discard();
    for (Steps st(c, 5); st.next();) w.op();
    bool fresh = c.chance(1, 3);
    if (!fresh) {
        if (!w.commit()) c.discard();
        c.note("commit");
        if (!readable(snap(w.disk))) c.discard();
        w.reopen();
        if (!w.load()) c.discard();
        for (Steps st(c, 3); st.next();) w.op();
    }
    DSnap want = snap(w.disk);
    if (!readable(want)) c.discard();
    auto base = w.m->data;
    auto geo = w.dev->bios_geom;
    uint64_t rng = det_rng();
    auto run = [&](int64_t k, int kind, bool sticky, int &rc) {
        w.m->data = base;
        w.dev->bios_geom = geo;
        det_rng() = rng;
        w.m->nofault();
        PedDisk *d = ped_disk_duplicate(w.disk);
        if (!d) c.discard();
        exc_clear();
        w.m->fail_op = k;
        w.m->fail_kind = kind;
        w.m->fail_sticky = sticky;
        rc = ped_disk_commit_to_dev(d);
        return d;
    };
    int rc;
    PedDisk *d = run(-1, 0, false, rc);
    uint64_t total[4];
    for (int i = 0; i < 4; i++) total[i] = w.m->kind_ops[i];
    DSnap dw = snap(d);
    ped_disk_destroy(d);
    if (!rc) c.discard();
    auto full = w.m->data;
    auto image_eq = [&] {
        MemDev a, b;
        a.length = b.length = w.m->length; a.ss = b.ss = w.m->ss; a.bg = b.bg = w.m->bg;
        a.data = full; b.data = w.m->data;
        return a.same(b);
    };
    int tries = c.thorough ? 12 : 5;
    for (int t = 0; t < tries && total[0]; t++) {
        int kind = c.weighted({4, 1, 2, 2});
        if (!total[kind]) continue;
        int64_t k = c.draw(total[kind] - 1);
        bool sticky = c.chance(1, 4);
        d = run(k, kind, sticky, rc);
        c.note("commit with %s %lld of %llu failing%s: %d %s", (const char *[]){"operation", "read", "write", "sync"}[kind], (long long)k, (unsigned long long)total[kind], sticky ? " for good" : "", rc, exc_dump().c_str());
        struct G { PedDisk *d; ~G() { ped_disk_destroy(d); } } g{d};
        int fired = w.m->fired;
        if (!fired) { if (!rc) c.fail("C22:spurious", "commit failed without an error"); continue; }
        if (rc && (!image_eq() || kind == 3)) c.fail("C22:commit-success", "commit claims success although a device operation failed\n%s", show(want).c_str());
        if (!rc && g_exc.empty()) c.fail("C22:commit-silent", "commit failed without a message\n%s", show(want).c_str());
        c.cls(rc ? "commit-harmless" : "commit-reported");
        auto e = diff(dw, snap(d), true, true);
        if (!e.empty()) c.fail("C22:memory", "the failed commit changed the table in memory: %s\n%s", e.c_str(), show(want).c_str());
        w.m->nofault();
        exc_clear();
        det_rng() = rng;
        if (!ped_disk_commit_to_dev(d)) c.fail("C22:retry", "commit fails although the device works again: %s\n%s", exc_dump().c_str(), show(want).c_str());
        c.nontrivial = true;
        // what is there now is the committed table
        PedDevice *dev = w.dev;
        PedDisk *n = ped_disk_new(dev);
        if (!n) c.fail("C22:retry-reread", "table cannot be read after the retry: %s", exc_dump().c_str());
        auto e2 = rt_diff(want, snap(n), false);
        ped_disk_destroy(n);
        if (!e2.empty() && w.label != "loop") c.fail("C22:retry-differs", "after the retry: %s\n%s", e2.c_str(), show(want).c_str());
    }
    // reading
    w.m->data = full;
    w.m->nofault();
    w.reopen();
    exc_clear();
    if (!w.load()) c.fail("C22:reread", "cannot read the committed table: %s", exc_dump().c_str());
    DSnap good = snap(w.disk);
    for (int i = 0; i < 4; i++) total[i] = w.m->kind_ops[i];
    for (int t = 0; t < tries && total[1]; t++) {
        int64_t k = c.draw(total[1] - 1);
        bool sticky = c.chance(1, 4);
        w.reopen();
        w.m->nofault();
        w.m->fail_op = k;
        w.m->fail_kind = 1;
        w.m->fail_sticky = sticky;
        exc_clear();
        bool ok = w.load();
        int fired = w.m->fired;
        c.note("load with read %lld of %llu failing%s: %d %s", (long long)k, (unsigned long long)total[1], sticky ? " for good" : "", ok, exc_dump().c_str());
        w.m->nofault();
        if (!fired) continue;
        if (ok) {
            auto e = diff(good, snap(w.disk), false, false);
            // msdos and pc98 share their signature, and an unreadable sector makes pc98 step back for msdos
            bool twin = w.label == "pc98" && !strcmp(w.disk->type->name, "msdos");
            const char *sg = twin ? "C22:load-pc98-as-msdos" : "C22:load-stale";
            if (!e.empty() && twin && known(sg)) { c.cls("known"); c.discard(); }
            if (!e.empty()) c.fail(sg, "loading claims success with something else: %s\nis %s\ngot %s", e.c_str(), show(good).c_str(), show(snap(w.disk)).c_str());
            c.cls("load-harmless");
        } else {
            if (g_exc.empty()) c.fail("C22:load-silent", "loading failed without a message\n%s", show(good).c_str());
            c.cls("load-reported");
        }
        exc_clear();
        if (!w.load()) c.fail("C22:load-retry", "loading fails although the device works again: %s\n%s", exc_dump().c_str(), show(good).c_str());
        auto e = diff(good, snap(w.disk), true, true);
        if (!e.empty()) c.fail("C22:load-retry-differs", "loading again: %s", e.c_str());
        c.nontrivial = true;
    }
}

// ---------------------------------------------------------------- C28
static void c28(Ctx &c) {
    World w(c);
    std::string lab = gen_label(c);
    if (lab == "loop") lab = "msdos";
    w.reset();
    w.gen_device(lab);
    // the numbers at which some field of some format is full
    PedSector cyl = (PedSector)w.m->geom.heads * w.m->geom.sectors;
    static const int sh[] = {16, 24, 31, 32, 33};
    auto limit = [&]() -> PedSector {
        PedSector b = 1ll << sh[c.draw(4)];
        if (c.chance(1, 3)) b = std::min<PedSector>((c.chance(1, 2) ? 65536 : 1024) * cyl, 1ll << 50);
        if (c.chance(1, 8)) b = (1ll << 32) / (w.m->ss / 512);
        return b;
    };
    if (c.chance(3, 4)) {
        PedSector L = limit() + (c.chance(1, 2) ? c.range(-3, 3) : c.biased(0, 1ll << 33));
        if (c.chance(1, 3)) L = limit() + limit() + c.range(-2, 2000);
        if (lab == "atari") L = std::min<PedSector>(L, INT32_MAX);
        L = std::max<PedSector>(L, 2000);
        set_len(w.m, L);
        if (L / cyl > INT32_MAX) w.m->geom = {(int)(L / (255 * 63)), 255, 63};
        else w.m->geom.cylinders = (int)std::max<PedSector>(1, L / cyl);
        cyl = (PedSector)w.m->geom.heads * w.m->geom.sectors;
        c.note("length %lld, chs %d/%d/%d", (long long)L, w.m->geom.cylinders, w.m->geom.heads, w.m->geom.sectors);
        c.mix(L);
        w.reopen();
    }
    exc_clear();
    if (!w.dev) c.discard();
    if (!w.make_label(lab)) {
        if (g_exc.empty()) c.fail("C28:fresh-silent", "%s cannot be created, without a message", lab.c_str());
        c.discard();
    }
    PedSector len = w.m->length;
    bool hasname = ped_disk_type_check_feature(w.disk->type, PED_DISK_TYPE_PARTITION_NAME);
    for (Steps st(c, 6); st.next();) {
        int k = c.weighted({6, 3, 2, hasname ? 4 : 0});
        if (k == 1) { w.op(); continue; }
        if (k == 2) {
            // as many as will go
            int have = 0;
            for (PedPartition *p = nullptr; (p = ped_disk_next_partition(w.disk, p));) have += ped_partition_is_active(p);
            if (have > 60) continue;
            PedSector at = c.biased(cyl, len / 2), step = std::max<PedSector>(cyl, 8);
            int n = (int)c.pickl({5, 9, 17, 70, 140}), done = 0;
            PedPartition *ext = ped_disk_type_check_feature(w.disk->type, PED_DISK_TYPE_EXTENDED) ? ped_disk_extended_partition(w.disk) : nullptr;
            if (ext && w.label == "msdos") at = ext->geom.start;
            for (int i = 0; i < n && at + 2 * step < len; i++, at += 2 * step) {
                PedPartition *p = ped_partition_new(w.disk, ext && w.label == "msdos" ? PED_PARTITION_LOGICAL : PED_PARTITION_NORMAL, nullptr, at, at + step - 1);
                if (!p) break;
                ped_partition_set_system(p, nullptr);
                PedConstraint *a = ped_constraint_any(w.dev);
                int ok = ped_disk_add_partition(w.disk, p, a);
                ped_constraint_destroy(a);
                if (!ok) { ped_partition_destroy(p); break; }
                done++;
            }
            c.note("added %d of %d partitions", done, n);
            continue;
        }
        if (k == 3) {
            PedPartition *p = w.pick_active();
            if (!p) continue;
            std::string nm;
            int want = (int)c.pickl({0, 1, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 35, 36, 37, 71, 72, 73, 200, 600});
            int mode = c.weighted({5, 2, 1});
            static const char *const u[] = {"é", "日", "😀", "ß"};
            while ((int)nm.size() < want) nm += mode == 0 || c.chance(1, 2) ? std::string(1, (char)c.range(mode == 2 ? ' ' : 'a', mode == 2 ? '~' : 'z')) : mode == 1 ? u[c.draw(3)] : "\"";
            exc_clear();
            PSnap b = psnap(p);
            int ok = ped_partition_set_name(p, nm.c_str());
            const char *g = ped_partition_get_name(p);
            c.note("name #%d '%s': %d -> '%s' %s", p->num, nm.c_str(), ok, g ? g : "-", exc_dump().c_str());
            if (!ok && g_exc.empty()) c.fail("C28:name-silent", "name '%s' refused without a message", nm.c_str());
            if (!ok && psnap(p).name != b.name) c.fail("C28:name-changed", "a refused name changed the name");
            if (ok && nm != g && nm.compare(0, strlen(g), g) && g_exc.empty()) c.fail("C28:name-mangled", "name '%s' became '%s'", nm.c_str(), g);
            continue;
        }
        PedSector s, e;
        switch (c.weighted({3, 3, 2})) {
        case 0: s = limit() + c.range(-2, 2); e = s + c.biased(0, std::max<PedSector>(0, len - s)); break;
        case 1: s = c.biased(1, len - 1); e = s + limit() - 1 + c.range(-2, 2); break;
        default: s = c.biased(1, len - 1); e = limit() + c.range(-3, 2); break;
        }
        if (c.chance(1, 3)) s = s / cyl * cyl;
        if (c.chance(1, 3)) e = e / cyl * cyl - 1;
        if (s < 0 || e < s || e >= len) { if (s < 0 || s >= len) continue; e = len - 1; }
        int type = 0;
        if (ped_disk_type_check_feature(w.disk->type, PED_DISK_TYPE_EXTENDED))
            type = ped_disk_extended_partition(w.disk) ? (c.chance(2, 3) ? PED_PARTITION_LOGICAL : 0) : c.chance(1, 3) ? PED_PARTITION_EXTENDED : 0;
        PedPartition *p = ped_partition_new(w.disk, (PedPartitionType)type, nullptr, s, e);
        if (!p) continue;
        ped_partition_set_system(p, nullptr);
        PedConstraint *k2;
        if (c.chance(1, 2)) k2 = ped_constraint_exact(&p->geom);
        else k2 = ped_constraint_any(w.dev);
        exc_clear();
        int ok = ped_disk_add_partition(w.disk, p, k2);
        ped_constraint_destroy(k2);
        c.note("add type %d [%lld,%lld]: %d -> [%lld,%lld] %s", type, (long long)s, (long long)e, ok, ok ? (long long)p->geom.start : 0, ok ? (long long)p->geom.end : 0, exc_dump().c_str());
        c.mix(s); c.mix(e); c.mix(ok);
        if (!ok) ped_partition_destroy(p);
    }
    exc_clear();
    DSnap want = snap(w.disk);
    if (!w.commit()) {
        c.note("commit refused: %s", exc_dump().c_str());
        if (g_exc.empty()) c.fail("C28:commit-silent", "commit failed without a message\n%s", show(want).c_str());
        c.cls("refused");
        return;
    }
    c.note("commit %s", exc_dump().c_str());
    ParseOpts o;
    o.geom = w.dev->bios_geom;
    Parsed P = parse_label(*w.m, lab, o);
    if (!P.err.empty()) c.fail("C28:format", "committed %s table: %s\n%s", lab.c_str(), P.err.c_str(), show(want).c_str());
    auto e = compare(P, want, *w.m);
    if (!e.empty()) c.fail("C28:truncated", "on disk: %s\n%s", e.c_str(), show(want).c_str());
    if (!readable(want)) return;
    w.reopen();
    if (!w.load()) c.fail("C28:reread", "table cannot be read back: %s\n%s", exc_dump().c_str(), show(want).c_str());
    e = rt_diff(want, snap(w.disk), false);
    if (!e.empty()) c.fail("C28:differs", "read back: %s\n%s", e.c_str(), show(want).c_str());
    PedSector far = 0;
    for (auto &p : want.parts) far = std::max(far, p.e);
    if (far > 65536 || want.parts.size() > 4) c.nontrivial = true;
    c.cls(fmt("%s:2^%d", lab.c_str(), far ? 64 - __builtin_clzll(far) : 0));
}

static std::vector<Prop> props = {
    {"C04", c04, 8000, 150000, "an existing table with at least two partitions was edited and committed"},
    {"C05", c05, 18000, 150000, "a table was read, or the device held a damaged one"},
    {"C10", c10, 4000, 20000, "the old and the new table differ"},
    {"C11", c11, 7000, 150000, "the table has partitions, or both copies are damaged"},
    {"C12", c12, 18000, 200000, "a committed table with at least two partitions was parsed"},
    {"C13", c13, 20000, 200000, "a committed table with at least two partitions was parsed"},
    {"C15", c15, 40000, 100000, "the new label replaced one of another type"},
    {"C22", c22, 2500, 30000, "a device operation failed during a commit or a load"},
    {"C28", c28, 18000, 200000, "the committed table reaches beyond sector 65536 or has more than four partitions"},
    {"C14", c14, 30000, 200000, "a committed table with at least two partitions was parsed"},
};
int main(int argc, char **argv) { return main_(argc, argv, props); }
