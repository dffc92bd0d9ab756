// Label properties on generated histories of table edits (in-memory devices).
#include "mutate.h"

// ---------------------------------------------------------------- C01
static void c01(Ctx &c) {
    World w(c);
    if (!start_any(w, c, gen_label(c), false)) c.discard();
    int rounds = 1 + (int)c.draw(2);
    for (int r = 0; r < rounds; r++) {
        for (Steps st(c, 10); st.next();) w.op();
        exc_clear();
        DSnap want = snap(w.disk);
        int ok = w.commit();
        if (!ok) {
            c.cls("commit-refused:" + w.label);
            c.note("commit refused: %s", exc_dump().c_str());
            if (g_exc.empty()) c.fail("C01:silent-commit-failure", "commit failed without any announcement\n%s", show(want).c_str());
            return;
        }
        c.note("commit");
        if (!readable(want)) { c.cls("dvh-without-header"); return; }
        DSnap mem = snap(w.disk);
        auto e = diff(want, mem, true, true);
        if (!e.empty()) c.fail("C01:commit-changes-memory", "commit changed the table in memory: %s", e.c_str());
        w.reopen();
        exc_clear();
        PedDiskType *t = ped_disk_probe(w.dev);
        if (!t || w.label != t->name)
            c.fail("C01:probe", "committed %s, probed as %s (%s)\n%s", w.label.c_str(), t ? t->name : "nothing", exc_dump().c_str(), show(want).c_str());
        if (!w.load()) c.fail("C01:reread", "table cannot be read back: %s\n%s", exc_dump().c_str(), show(want).c_str());
        DSnap got = snap(w.disk);
        e = rt_diff(want, got, false);
        if (!e.empty()) c.fail("C01:diff", "committed vs read back: %s\ncommitted %s\nread back %s", e.c_str(), show(want).c_str(), show(got).c_str());
        if (!g_exc.empty() && !w.foreign) c.fail("C01:complaint", "reading a committed table complains: %s\n%s", exc_dump().c_str(), show(want).c_str());
        c.cls(fmt("parts:%zu", std::min<size_t>(want.parts.size(), 9)));
        if (want.parts.size() >= 2) c.nontrivial = true;
    }
}

// ---------------------------------------------------------------- C02
static void c02(Ctx &c) {
    World w(c);
    if (!start_any(w, c, gen_label(c), true)) c.discard();
    auto e = tiling_error(w.disk);
    if (!e.empty()) c.fail("C02:fresh", "fresh table: %s", e.c_str());
    int okc = 0;
    for (Steps st(c, 12); st.next();) {
        OpRes r = w.op({30, 14, 6, 8, 1, 3, 3, 1, 1, 3, 5, 1});
        e = tiling_error(w.disk);
        if (!e.empty())
            c.fail("C02:tiling", "after %s (%s): %s\n%s", r.desc.c_str(), r.ok ? "succeeded" : "failed", e.c_str(), show(r.after, true).c_str());
        okc += r.ok && r.kind <= OP_DELETE;
        if (c.chance(1, 12)) {
            if (w.commit()) {
                w.reopen();
                if (!w.load()) c.discard();
                c.note("commit+reload");
                e = tiling_error(w.disk);
                if (!e.empty()) c.fail("C02:tiling-reload", "after reload: %s\n%s", e.c_str(), show(snap(w.disk), true).c_str());
            }
        } else if (c.chance(1, 12)) {
            PedDisk *d = ped_disk_duplicate(w.disk);
            if (d) {
                e = tiling_error(d);
                if (!e.empty()) c.fail("C02:tiling-dup", "duplicate: %s\n%s", e.c_str(), show(snap(d), true).c_str());
                ped_disk_destroy(w.disk);
                w.disk = d;
                c.note("continue on a duplicate");
            }
        }
    }
    if (okc >= 2) c.nontrivial = true;
}

// ---------------------------------------------------------------- C03
static void c03(Ctx &c) {
    World w(c);
    if (!start_any(w, c, gen_label(c), true)) c.discard();
    int okc = 0, bad = 0;
    for (Steps st(c, 12); st.next();) {
        OpRes r = w.op({34, 20, 8, 5, 3, 4, 3, 2, 2, 2, 2, 0});
        if (r.has_cons) {
            if (r.ok) {
                if (!r.cons.ok(r.target_after.s, r.target_after.e))
                    c.fail("C03:constraint", "%s succeeded with [%lld,%lld], which does not satisfy the constraint", r.desc.c_str(),
                           (long long)r.target_after.s, (long long)r.target_after.e);
                okc++;
            } else
                bad++;
        }
        if (!r.ok) {
            auto e = diff(r.before, r.after, true, true);
            if (!e.empty())
                c.fail("C03:atomic", "%s failed but changed the table: %s\nbefore %s\nafter %s", r.desc.c_str(), e.c_str(), show(r.before, true).c_str(),
                       show(r.after, true).c_str());
        }
    }
    if (okc && bad) c.nontrivial = true;
}

// ---------------------------------------------------------------- C08
static void c08(Ctx &c) {
    World w(c);
    if (!start_any(w, c, gen_label(c), true)) c.discard();
    bool many = false;
    for (Steps st(c, 12); st.next();) {
        OpRes r = w.op();
        if (!r.ok || r.kind == OP_DELALL) continue;
        // match the other partitions by their geometry before and after
        auto is_target = [&](const PSnap &p, bool after) {
            if (r.kind == OP_ADD) return after && p.num == r.target_after.num && p.s == r.target_after.s;
            if (r.kind == OP_DELETE) return !after && p.num == r.target_before.num && p.s == r.target_before.s;
            if (r.kind == OP_MINEXT || r.kind == OP_DISKFLAG) return false;
            return after ? p.num == r.target_after.num && p.s == r.target_after.s : p.num == r.target_before.num && p.s == r.target_before.s;
        };
        std::vector<PSnap> b, a;
        for (auto &p : r.before.parts) if (!is_target(p, false)) b.push_back(p);
        for (auto &p : r.after.parts) if (!is_target(p, true)) a.push_back(p);
        bool ext_deleted = r.kind == OP_DELETE && (r.target_before.type & PED_PARTITION_EXTENDED);
        if (ext_deleted)
            b.erase(std::remove_if(b.begin(), b.end(), [](const PSnap &p) { return p.type & PED_PARTITION_LOGICAL; }), b.end());
        if (r.kind == OP_MINEXT) {
            auto isx = [](const PSnap &p) { return (p.type & PED_PARTITION_EXTENDED) != 0; };
            b.erase(std::remove_if(b.begin(), b.end(), isx), b.end());
            a.erase(std::remove_if(a.begin(), a.end(), isx), a.end());
        }
        if (a.size() != b.size())
            c.fail("C08:count", "%s: number of other partitions changed %zu -> %zu\nbefore %s\nafter %s", r.desc.c_str(), b.size(), a.size(), show(r.before).c_str(), show(r.after).c_str());
        if (b.size() >= 2) many = true;
        auto byS = [](const PSnap &x, const PSnap &y) { return std::make_pair(x.s, x.type) < std::make_pair(y.s, y.type); };
        std::sort(a.begin(), a.end(), byS);
        std::sort(b.begin(), b.end(), byS);
        for (size_t k = 0; k < a.size(); k++) {
            PSnap x = b[k], y = a[k];
            // atari numbers are positions in the table
            if (w.label == "atari") x.num = y.num = 0;
            if ((x.type & PED_PARTITION_LOGICAL) && (y.type & PED_PARTITION_LOGICAL)) x.num = y.num = 0;
            // a flag that only one partition may carry moves
            if (r.kind == OP_FLAG && r.state == 1 && (r.flag == PED_PARTITION_BOOT || r.flag == PED_PARTITION_ROOT || r.flag == PED_PARTITION_SWAP)) {
                uint32_t bit = 1u << r.flag;
                if ((x.flags & bit) && !(y.flags & bit)) { x.flags &= ~bit; }
            }
            if (!(x == y))
                c.fail("C08:interference", "%s changed another partition:\n  was %s\n  now %s\nbefore %s\nafter %s", r.desc.c_str(), show(x).c_str(), show(y).c_str(),
                       show(r.before).c_str(), show(r.after).c_str());
        }
        // the target keeps what the operation does not concern
        if (r.part && r.kind != OP_ADD) {
            PSnap x = r.target_before, y = r.target_after;
            bool geo = r.kind == OP_RESIZE || r.kind == OP_MAXIMIZE;
            if (!geo && (x.s != y.s || x.e != y.e)) c.fail("C08:geometry", "%s changed the geometry\n  was %s\n  now %s", r.desc.c_str(), show(x).c_str(), show(y).c_str());
            if (r.kind != OP_NAME && x.name != y.name && w.label != "pc98" &&
                !(w.label == "mac" && (r.kind == OP_FLAG || r.kind == OP_SYSTEM)))  // mac keeps root and swap in the name
                c.fail("C08:name", "%s changed the name\n  was %s\n  now %s", r.desc.c_str(), show(x).c_str(), show(y).c_str());
            if (x.type != y.type) c.fail("C08:kind", "%s changed the kind", r.desc.c_str());
            if (x.uuid != y.uuid) c.fail("C08:uuid", "%s changed the partition UUID", r.desc.c_str());
            if (geo || r.kind == OP_NAME)
                if (x.flags != y.flags || x.type_id != y.type_id || x.type_uuid != y.type_uuid || x.fs != y.fs)
                    c.fail("C08:attr", "%s changed attributes\n  was %s\n  now %s", r.desc.c_str(), show(x).c_str(), show(y).c_str());
        }
        if (w.label == "atari") {
            std::set<int> l;
            for (auto &p : r.after.parts) if (!(p.type & PED_PARTITION_EXTENDED)) l.insert(p.num);
            int k = 1;
            for (int x : l) if (x != k++) c.fail("C08:atari-numbers", "%s: numbers are not consecutive\n%s", r.desc.c_str(), show(r.after).c_str());
        }
        // logical numbers stay consecutive
        if (w.label == "msdos") {
            std::set<int> l;
            for (auto &p : r.after.parts) if (p.type & PED_PARTITION_LOGICAL) l.insert(p.num);
            int k = 5;
            for (int x : l) if (x != k++) c.fail("C08:logical-numbers", "%s: logical numbers are not consecutive\n%s", r.desc.c_str(), show(r.after).c_str());
        }
    }
    c.nontrivial = many;
}

// ---------------------------------------------------------------- C06
static void c06(Ctx &c) {
    World w(c);
    if (!start_any(w, c, gen_label(c), true)) c.discard();
    for (Steps st(c, 10); st.next();) w.op();
    if (c.chance(1, 3) && w.commit()) {
        w.reopen();
        if (!w.load()) c.discard();
        c.note("commit+reload");
        int k = (int)c.draw(4);
        for (int i = 0; i < k; i++) w.op();
    }
    DSnap s = snap(w.disk);
    exc_clear();
    PedDisk *d = ped_disk_duplicate(w.disk);
    if (!d) c.fail("C06:dup-failed", "table cannot be duplicated: %s\n%s", exc_dump().c_str(), show(s).c_str());
    struct Guard { PedDisk *d; ~Guard() { if (d) ped_disk_destroy(d); } } gd{d};
    DSnap s2 = snap(d), s1 = snap(w.disk);
    auto e = diff(s, s1, true, true);
    if (!e.empty()) c.fail("C06:dup-changes-original", "duplicating changed the original: %s", e.c_str());
    e = diff(s, s2, true, true);
    if (!e.empty()) c.fail("C06:unequal", "duplicate differs: %s\noriginal %s\nduplicate %s", e.c_str(), show(s, true).c_str(), show(s2, true).c_str());
    // both commit the same bytes
    int ok1, ok2;
    uint64_t rng = det_rng();
    auto geo1 = w.dev->bios_geom;
    auto l1 = commit_log(w, w.disk, ok1);
    // one-off identifiers (the msdos signature) are created by the first commit: give both the same source
    det_rng() = rng;
    w.dev->bios_geom = geo1;
    auto l2 = commit_log(w, d, ok2);
    if (ok1 != ok2) c.fail("C06:commit-outcome", "original commit %d, duplicate commit %d (%s)\n%s", ok1, ok2, exc_dump().c_str(), show(s).c_str());
    auto f1 = final_image(w, l1), f2 = final_image(w, l2);
    if (ok1 && f1 != f2) {
        std::string where;
        for (auto &k : f1) {
            auto it = f2.find(k.first);
            if (it == f2.end()) { where += fmt(" sector %lld not written by the duplicate;", (long long)k.first); continue; }
            for (size_t i = 0; i < k.second.size(); i++)
                if (k.second[i] != it->second[i]) { where += fmt(" sector %lld byte %zu %02x/%02x;", (long long)k.first, i, k.second[i], it->second[i]); break; }
        }
        for (auto &k : f2) if (!f1.count(k.first)) where += fmt(" sector %lld only written by the duplicate;", (long long)k.first);
        c.fail("C06:commit-bytes", "commits differ:%s\n%s", where.substr(0, 600).c_str(), show(s).c_str());
    }
    // independence
    bool editdup = c.chance(1, 2);
    PedDisk *other = editdup ? w.disk : d, *ed = editdup ? d : w.disk;
    DSnap so = snap(other);
    PedDisk *keep = w.disk;
    w.disk = ed;
    int k = 1 + (int)c.draw(6);
    c.note("edit the %s", editdup ? "duplicate" : "original");
    for (int i = 0; i < k; i++) {
        w.op();
        auto e2 = diff(so, snap(other), true, true);
        if (!e2.empty()) { w.disk = keep; c.fail("C06:aliased", "editing one table changed the other: %s", e2.c_str()); }
    }
    w.disk = keep;
    // destroy one, use the other
    if (c.chance(1, 2)) {
        ped_disk_destroy(w.disk);
        w.disk = gd.d;
        gd.d = nullptr;
    } else {
        ped_disk_destroy(gd.d);
        gd.d = nullptr;
    }
    DSnap a = snap(w.disk);
    w.op();
    ped_disk_commit_to_dev(w.disk);
    c.nontrivial = s.parts.size() >= 2;
    c.cls(fmt("parts:%zu", std::min<size_t>(s.parts.size(), 9)));
}

// ---------------------------------------------------------------- C07
static void c07(Ctx &c) {
    World w(c);
    if (!start_any(w, c, gen_label(c), false)) c.discard();
    for (Steps st(c, 10); st.next();) w.op();
    DSnap s = snap(w.disk);
    if (!readable(s)) c.discard();
    if (!w.commit()) c.discard();
    MemDev first = *w.m;
    PedSector at = 0;
    if (c.chance(1, 2)) {
        if (!w.commit()) c.fail("C07:second-commit", "second commit of the same table failed: %s", exc_dump().c_str());
        if (!first.same(*w.m, &at)) c.fail("C07:recommit", "committing twice changed sector %lld\n%s", (long long)at, show(s).c_str());
    }
    w.reopen();
    exc_clear();
    if (!w.load()) c.fail("C07:reread", "cannot read back: %s", exc_dump().c_str());
    DSnap s2 = snap(w.disk);
    if (!w.commit()) c.fail("C07:rewrite-failed", "rewriting the unmodified table failed: %s\n%s", exc_dump().c_str(), show(s2).c_str());
    if (!first.same(*w.m, &at)) {
        auto x = first.read(at), y = w.m->read(at);
        size_t k = 0;
        while (k < x.size() && x[k] == y[k]) k++;
        c.fail("C07:rewrite", "read + commit changed sector %lld at byte %zu (%02x -> %02x)\n%s\n%s", (long long)at, k, x[k], y[k], show(s).c_str(), show(s2).c_str());
    }
    c.nontrivial = s.parts.size() >= 2;
}

// ---------------------------------------------------------------- C19
static void c19(Ctx &c) {
    World w(c);
    if (!start_any(w, c, gen_label(c), true)) c.discard();
    for (Steps st(c, 4); st.next();) w.op({40, 0, 0, 0, 2, 4, 4, 1, 1, 0, 0, 0});
    if (w.active().empty()) c.discard();
    int sets = 0;
    for (Steps steps(c, 7); steps.next();) {
        PedPartition *p = w.pick_active();
        int f = (int)c.range(PED_PARTITION_FIRST_FLAG, PED_PARTITION_LAST_FLAG);
        if (c.chance(3, 4)) {
            std::vector<int> av;
            for (int g = PED_PARTITION_FIRST_FLAG; g <= PED_PARTITION_LAST_FLAG; g++)
                if (ped_partition_is_flag_available(p, (PedPartitionFlag)g)) av.push_back(g);
            if (!av.empty()) f = c.pick(av);
        }
        int st = !c.chance(2, 5);
        const char *fn = ped_partition_flag_get_name((PedPartitionFlag)f);
        if (!fn || !*fn || ped_partition_flag_get_by_name(fn) != (PedPartitionFlag)f) c.fail("C19:name", "flag %d name does not convert back", f);
        PSnap b = psnap(p);
        exc_clear();
        bool avail = ped_partition_is_flag_available(p, (PedPartitionFlag)f) != 0;
        int r = ped_partition_set_flag(p, (PedPartitionFlag)f, st);
        c.note("#%d %s=%d -> %d %s", p->num, fn, st, r, exc_dump().c_str());
        PSnap a = psnap(p);
        c.mix(f); c.mix(st); c.mix(a.flags);
        c.cls(fmt("%s:%s=%d:%s", w.label.c_str(), fn, st, !avail ? "unavailable" : r ? "ok" : "refused"));
        if (!avail) {
            if (r) c.fail("C19:unavailable-set", "%s: unavailable flag %s was set", w.label.c_str(), fn);
            if (!(a == b)) c.fail("C19:unavailable-changes", "%s: refused flag %s changed the partition\n was %s\n now %s", w.label.c_str(), fn, show(b).c_str(), show(a).c_str());
            continue;
        }
        if (!r) {
            if (g_exc.empty()) c.fail("C19:silent", "%s: %s=%d failed without a message", w.label.c_str(), fn, st);
            if (!(a == b)) c.fail("C19:failed-changes", "%s: failed %s=%d changed the partition\n was %s\n now %s", w.label.c_str(), fn, st, show(b).c_str(), show(a).c_str());
            continue;
        }
        sets++;
        // clearing a flag that is kept as a type gives the partition the type of its file system
        bool same = (f == PED_PARTITION_SWAP && b.fs.rfind("linux-swap", 0) == 0) || (f == PED_PARTITION_MSFT_DATA && (b.fs.rfind("fat", 0) == 0 || b.fs == "ntfs" || b.fs == "udf"));
        if (!st && same) continue;
        if (!!(a.flags & (1u << f)) != st)
            c.fail("C19:no-effect", "%s: %s=%d reported success but reads back %d\n was %s\n now %s", w.label.c_str(), fn, st, !st, show(b).c_str(), show(a).c_str());
        if (a.avail != b.avail && w.label != "msdos")  // one type byte: a new type has its own hidden and lba variants
            c.fail("C19:avail", "%s: availability changed from %x to %x", w.label.c_str(), b.avail, a.avail);
        // idempotent
        r = ped_partition_set_flag(p, (PedPartitionFlag)f, st);
        PSnap a2 = psnap(p);
        if (!r || !(a2 == a)) c.fail("C19:idempotent", "%s: setting %s=%d again: %d\n was %s\n now %s", w.label.c_str(), fn, st, r, show(a).c_str(), show(a2).c_str());
        // another setting that changes nothing else than flags
        if (a.s != b.s || a.e != b.e || a.num != b.num || (a.name != b.name && w.label != "pc98" && w.label != "mac"))
            c.fail("C19:side-effect", "%s: %s=%d changed more than flags\n was %s\n now %s", w.label.c_str(), fn, st, show(b).c_str(), show(a).c_str());
        // partition types are a single field: two type-like flags never coexist
        uint32_t excl = 0;
        auto bit = [](int x) { return 1u << x; };
        if (w.label == "gpt")
            excl = bit(PED_PARTITION_BOOT) | bit(PED_PARTITION_RAID) | bit(PED_PARTITION_LVM) | bit(PED_PARTITION_HPSERVICE) | bit(PED_PARTITION_PREP) |
                   bit(PED_PARTITION_MSFT_RESERVED) | bit(PED_PARTITION_BIOS_GRUB) | bit(PED_PARTITION_APPLE_TV_RECOVERY) | bit(PED_PARTITION_DIAG) |
                   bit(PED_PARTITION_MSFT_DATA) | bit(PED_PARTITION_IRST) | bit(PED_PARTITION_SWAP) | bit(PED_PARTITION_CHROMEOS_KERNEL) |
                   bit(PED_PARTITION_BLS_BOOT) | bit(PED_PARTITION_LINUX_HOME);
        else if (w.label == "msdos")
            excl = bit(PED_PARTITION_RAID) | bit(PED_PARTITION_LVM) | bit(PED_PARTITION_PALO) | bit(PED_PARTITION_PREP) | bit(PED_PARTITION_DIAG) |
                   bit(PED_PARTITION_IRST) | bit(PED_PARTITION_ESP) | bit(PED_PARTITION_BLS_BOOT) | bit(PED_PARTITION_SWAP);
        else if (w.label == "sun")
            excl = bit(PED_PARTITION_BOOT) | bit(PED_PARTITION_ROOT) | bit(PED_PARTITION_LVM) | bit(PED_PARTITION_RAID) | bit(PED_PARTITION_SWAP);
        uint32_t x = a.flags & excl;
        if (x & (x - 1)) c.fail("C19:exclusive", "%s: exclusive flags set together: %x\n%s", w.label.c_str(), x, show(a).c_str());
        // clearing undoes setting
        if (st && c.chance(1, 3)) {
            r = ped_partition_set_flag(p, (PedPartitionFlag)f, 0);
            PSnap u = psnap(p);
            if (r && (u.flags & bit(f)) && !same) c.fail("C19:clear", "%s: clearing %s has no effect\n%s", w.label.c_str(), fn, show(u).c_str());
            if (!r && u.flags & bit(f) && g_exc.empty()) c.fail("C19:clear-silent", "%s: clearing %s fails silently", w.label.c_str(), fn);
        }
    }
    // disk flags
    for (int f = PED_DISK_FIRST_FLAG; f <= PED_DISK_LAST_FLAG; f++) {
        const char *fn = ped_disk_flag_get_name((PedDiskFlag)f);
        if (!fn || ped_disk_flag_get_by_name(fn) != (PedDiskFlag)f) c.fail("C19:disk-name", "disk flag %d name does not convert back", f);
        for (int st : {1, 0, 1}) {
            int av = ped_disk_is_flag_available(w.disk, (PedDiskFlag)f);
            int r = ped_disk_set_flag(w.disk, (PedDiskFlag)f, st);
            if (!av && r) c.fail("C19:disk-unavailable", "unavailable disk flag %s set", fn);
            if (av && (!r || !!ped_disk_get_flag(w.disk, (PedDiskFlag)f) != st)) c.fail("C19:disk-effect", "disk flag %s=%d: result %d, reads %d", fn, st, r, ped_disk_get_flag(w.disk, (PedDiskFlag)f));
        }
    }
    // persistence
    DSnap want = snap(w.disk);
    if (readable(want) && w.commit()) {
        w.reopen();
        if (w.load()) {
            DSnap got = snap(w.disk);
            auto e = rt_diff(want, got, false);
            if (!e.empty()) c.fail("C19:persist", "flags after reopening: %s\ncommitted %s\nread back %s", e.c_str(), show(want).c_str(), show(got).c_str());
        }
    }
    c.nontrivial = sets >= 2;
}

// ---------------------------------------------------------------- C29
static void c29(Ctx &c) {
    World w(c);
    if (!start_world(w, c, gen_label(c))) c.discard();
    for (Steps st(c, 8); st.next();) w.op({40, 8, 0, 6, 0, 2, 2, 0, 0, 3, 2, 0});
    for (int round = 0; round < 3; round++) {
        PedPartition *p = w.pick_active();
        if (!p) c.discard();
        if (p->type & PED_PARTITION_EXTENDED && p->part_list && round < 2) continue;
        DSnap b = snap(w.disk);
        PSnap pb = psnap(p);
        ConsSpec k = w.gen_cons(p->geom.start, p->geom.end);
        PedConstraint *con = w.make(k);
        if (!con) continue;
        struct G { PedConstraint *x; ~G() { ped_constraint_destroy(x); } } gg{con};
        exc_clear();
        PedGeometry *g = ped_disk_get_max_partition_geometry(w.disk, p, con);
        c.note("max geometry of #%d [%lld,%lld] cons{%s} -> %s", pb.num, (long long)pb.s, (long long)pb.e, k.str().c_str(),
               g ? fmt("[%lld,%lld]", (long long)g->start, (long long)g->end).c_str() : "none");
        auto e = diff(b, snap(w.disk), true, true);
        if (!e.empty()) c.fail("C29:query-changes", "asking for the maximal geometry changed the table: %s\nbefore %s\nafter %s", e.c_str(), show(b, true).c_str(), show(snap(w.disk), true).c_str());
        bool any = k.sg == 1 && k.eg == 1 && k.ss == 0 && k.es == 0 && k.se == w.dev->length - 1 && k.ee == k.se && k.min == 1 && k.max >= w.dev->length;
        if (!g) {
            c.cls("none");
            // extended partitions keep two sectors of room before their first logical partition
            bool tight = false;
            if (pb.type & PED_PARTITION_EXTENDED) for (auto &x : b.parts) tight |= (x.type & PED_PARTITION_LOGICAL) && x.s < pb.s + 2 * (PedSector)w.m->geom.sectors;
            if (any && !tight && exc_dump().find("-imposed maximum") == std::string::npos) c.fail("C29:none", "no maximal geometry under the unconstrained constraint for %s: %s\n%s", show(pb).c_str(), exc_dump().c_str(), show(b, true).c_str());
            continue;
        }
        PedSector gs = g->start, ge = g->end;
        ped_geometry_destroy(g);
        c.cls("found");
        if (gs < 0 || ge >= w.dev->length || ge < gs) c.fail("C29:outside", "[%lld,%lld] is not on the device", (long long)gs, (long long)ge);
        if (!k.ok(gs, ge)) c.fail("C29:constraint", "[%lld,%lld] does not satisfy the constraint %s", (long long)gs, (long long)ge, k.str().c_str());
        for (auto &x : b.parts) {
            if (x.num == pb.num) continue;
            bool same_level = (x.type & PED_PARTITION_LOGICAL) == (pb.type & PED_PARTITION_LOGICAL);
            if (same_level && x.s <= ge && x.e >= gs) c.fail("C29:overlap", "[%lld,%lld] overlaps %s", (long long)gs, (long long)ge, show(x).c_str());
        }
        // msdos prefers cylinder boundaries over sectors, even where the constraint has a grain of its own
        bool cyl = w.label == "sun" || (w.label == "msdos" && ped_disk_get_flag(w.disk, PED_DISK_CYLINDER_ALIGNMENT));
        PedSector slack = cyl ? 2 * (PedSector)w.m->geom.heads * w.m->geom.sectors : 0;
        // a binding maximum size and an alignment together are solved from the first possible start on
        if (k.max < w.dev->length) slack += k.sg + k.eg;
        if (k.ok(pb.s, pb.e) && !(cyl && (k.sg != 1 || k.eg != 1)) && ge - gs + slack < pb.e - pb.s)
            c.fail("C29:smaller", "maximal geometry [%lld,%lld] is smaller than the current [%lld,%lld], which satisfies the constraint", (long long)gs, (long long)ge, (long long)pb.s, (long long)pb.e);
        // it can be applied
        int r = ped_disk_maximize_partition(w.disk, p, con);
        PSnap pa = psnap(p);
        if (!r) c.fail("C29:apply", "maximizing to the offered geometry fails: %s", exc_dump().c_str());
        if (pa.s != gs || pa.e != ge) c.fail("C29:apply-differs", "offered [%lld,%lld], maximizing gave [%lld,%lld]", (long long)gs, (long long)ge, (long long)pa.s, (long long)pa.e);
        DSnap a = snap(w.disk);
        if (a.parts.size() != b.parts.size()) c.fail("C29:others", "maximizing changed the number of partitions");
        for (auto &x : b.parts) {
            bool found = x.num == pb.num;
            for (auto &y : a.parts) if (x == y) found = true;
            if (!found) c.fail("C29:others", "maximizing #%d changed %s\nafter %s", pb.num, show(x).c_str(), show(a).c_str());
        }
        // nothing larger is possible
        for (int t = 0; t < 4; t++) {
            PedSector cyl = (PedSector)w.m->geom.heads * w.m->geom.sectors;
            PedSector d = c.pickl<PedSector>({1, 2, cyl, std::max<PedSector>(1, 1048576 / w.m->ss), 63, 128});
            bool soft = w.label != "gpt" && w.label != "loop" && !(w.label == "msdos" && !ped_disk_get_flag(w.disk, PED_DISK_CYLINDER_ALIGNMENT));
            // labels that prefer cylinder boundaries may leave a part of a cylinder unused
            if (soft) d = cyl;
            PedSector s2 = gs, e2 = ge;
            if (c.chance(1, 2)) s2 -= d; else e2 += d;
            if (soft && (s2 != gs ? s2 % cyl != 0 : (e2 + 1) % cyl != 0)) continue;
            if (s2 < 0 || e2 >= w.dev->length) continue;
            if (!k.ok(s2, e2)) continue;
            PedGeometry ng;
            ped_geometry_init(&ng, w.dev, s2, e2 - s2 + 1);
            PedConstraint *ex = ped_constraint_exact(&ng);
            int rr = ped_disk_set_partition_geom(w.disk, p, ex, s2, e2);
            ped_constraint_destroy(ex);
            if (rr) c.fail("C29:not-maximal", "maximal geometry was [%lld,%lld] but [%lld,%lld] is accepted\n%s", (long long)gs, (long long)ge, (long long)p->geom.start, (long long)p->geom.end, show(b, true).c_str());
        }
        if (pa.s != pb.s || pa.e != pb.e) c.nontrivial = true;
    }
}

static std::vector<Prop> props = {
    {"C01", c01, 12000, 200000, "a committed table with at least two partitions was read back"},
    {"C02", c02, 18000, 200000, "at least two geometry operations succeeded"},
    {"C03", c03, 40000, 200000, "the history has a constrained operation that succeeded and one that failed"},
    {"C06", c06, 12000, 200000, "the duplicated table has at least two partitions"},
    {"C07", c07, 40000, 200000, "the rewritten table has at least two partitions"},
    {"C08", c08, 40000, 200000, "an operation succeeded while at least two other partitions existed"},
    {"C19", c19, 40000, 200000, "at least two flag changes succeeded"},
    {"C29", c29, 40000, 200000, "a maximal geometry different from the current one was applied"},
};
int main(int argc, char **argv) { return main_(argc, argv, props); }
