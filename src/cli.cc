// C23 reports, C24 scripts, C25 placement, C31 rescue: the parted program itself.
#include "cli.h"
#include "fstpl.h"
#include "mutate.h"
#include <math.h>
extern "C" {
#include <uuid/uuid.h>
}

// ---------------------------------------------------------------- strict JSON
struct J {
    enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL;
    std::string s;
    std::vector<J> a;
    std::vector<std::string> keys;   // of an object; the values are in a
    const J *get(const char *n) const {
        for (size_t i = 0; i < keys.size(); i++) if (keys[i] == n) return &a[i];
        return nullptr;
    }
};
struct JP {
    const std::string &t;
    size_t i = 0;
    std::string err;
    bool bad(const char *m) { if (err.empty()) err = fmt("%s at byte %zu", m, i); return false; }
    void ws() { while (i < t.size() && strchr(" \t\r\n", t[i]) && t[i]) i++; }
    bool str(std::string &o) {
        if (i >= t.size() || t[i] != '"') return bad("string expected");
        for (i++; i < t.size() && t[i] != '"'; i++) {
            unsigned char ch = t[i];
            if (ch < 0x20) return bad("control character in a string");
            if (ch != '\\') { o += ch; continue; }
            if (++i >= t.size()) return bad("end in an escape");
            static const char *e = "\"\\/bfnrt", *v = "\"\\/\b\f\n\r\t";
            const char *p = t[i] ? strchr(e, t[i]) : nullptr;
            if (p) { o += v[p - e]; continue; }
            if (t[i] != 'u') return bad("unknown escape");
            unsigned cp = 0;
            for (int k = 0; k < 4; k++) {
                if (++i >= t.size() || !isxdigit((unsigned char)t[i])) return bad("\\u without four hexadecimal digits");
                cp = cp * 16 + (isdigit((unsigned char)t[i]) ? t[i] - '0' : (t[i] | 32) - 'a' + 10);
            }
            if (cp < 0x80) o += (char)cp;
            else if (cp < 0x800) { o += (char)(0xc0 | cp >> 6); o += (char)(0x80 | (cp & 63)); }
            else { o += (char)(0xe0 | cp >> 12); o += (char)(0x80 | (cp >> 6 & 63)); o += (char)(0x80 | (cp & 63)); }
        }
        if (i >= t.size()) return bad("unterminated string");
        i++;
        return true;
    }
    bool val(J &j, int depth = 0) {
        if (depth > 20) return bad("too deep");
        ws();
        if (i >= t.size()) return bad("value expected");
        char ch = t[i];
        if (ch == '{' || ch == '[') {
            j.k = ch == '{' ? J::OBJ : J::ARR;
            char end = ch == '{' ? '}' : ']';
            i++;
            ws();
            if (i < t.size() && t[i] == end) { i++; return true; }
            for (;;) {
                ws();
                std::string key;
                J v;
                if (ch == '{') {
                    if (!str(key)) return false;
                    if (j.get(key.c_str())) return bad(fmt("duplicate key %s", key.c_str()).c_str());
                    ws();
                    if (i >= t.size() || t[i] != ':') return bad("colon expected");
                    i++;
                }
                if (!val(v, depth + 1)) return false;
                if (ch == '{') j.keys.push_back(key);
                j.a.push_back(v);
                ws();
                if (i < t.size() && t[i] == ',') { i++; continue; }
                if (i < t.size() && t[i] == end) { i++; return true; }
                return bad("comma or end expected");
            }
        }
        if (ch == '"') { j.k = J::STR; return str(j.s); }
        for (auto w : {"true", "false", "null"})
            if (t.compare(i, strlen(w), w) == 0) { j.k = *w == 'n' ? J::NUL : J::BOOL; j.s = w; i += strlen(w); return true; }
        size_t b = i;
        if (t[i] == '-') i++;
        if (i >= t.size() || !isdigit((unsigned char)t[i])) return bad("value expected");
        if (t[i] == '0' && i + 1 < t.size() && isdigit((unsigned char)t[i + 1])) return bad("leading zero");
        while (i < t.size() && (isdigit((unsigned char)t[i]) || strchr(".eE+-", t[i])) && t[i]) i++;
        j.k = J::NUM;
        j.s = t.substr(b, i - b);
        return true;
    }
};

// ---------------------------------------------------------------- C23
static const PedUnit UNITS[] = {PED_UNIT_SECTOR, PED_UNIT_BYTE, PED_UNIT_KILOBYTE, PED_UNIT_MEGABYTE, PED_UNIT_GIGABYTE, PED_UNIT_TERABYTE,
                                PED_UNIT_COMPACT, PED_UNIT_CYLINDER, PED_UNIT_CHS, PED_UNIT_PERCENT, PED_UNIT_KIBIBYTE, PED_UNIT_MEBIBYTE, PED_UNIT_GIBIBYTE, PED_UNIT_TEBIBYTE};
static std::string take(char *s) { std::string r = s ? s : "(null)"; free(s); return r; }
struct Row {
    int num, type;
    bool free_;
    PedSector s, e;
    std::string start, end, size, fs, name, type_name, type_id, type_uuid, uuid;
    std::vector<std::string> flags;
    std::string flagstr() const { std::string r; for (auto &f : flags) r += (r.empty() ? "" : ", ") + f; return r; }
};
struct Table_ {
    bool has_ext, has_name, has_tid, has_tuuid, has_puuid, has_duuid;
    std::string label, disk_uuid, total, cyl;
    std::vector<std::string> dflags;
    PedCHSGeometry chs;
    int maxp;
    std::vector<Row> rows;
    std::string dflagstr() const { std::string r; for (auto &f : dflags) r += (r.empty() ? "" : ", ") + f; return r; }
};
static std::string uuidstr(uint8_t *u) {
    if (!u) return "";
    char b[40];
    uuid_unparse_lower(u, b);
    free(u);
    return b;
}
static Table_ expected(PedDisk *d, PedUnit u, bool with_free) {
    Table_ t;
    const PedDevice *dev = d->dev;
    auto has = [&](PedDiskTypeFeature f) { return ped_disk_type_check_feature(d->type, f) != 0; };
    t.has_ext = has(PED_DISK_TYPE_EXTENDED);
    t.has_name = has(PED_DISK_TYPE_PARTITION_NAME);
    t.has_tid = has(PED_DISK_TYPE_PARTITION_TYPE_ID);
    t.has_tuuid = has(PED_DISK_TYPE_PARTITION_TYPE_UUID);
    t.has_puuid = has(PED_DISK_TYPE_PARTITION_UUID);
    t.has_duuid = has(PED_DISK_TYPE_DISK_UUID);
    t.label = d->type->name;
    if (t.has_duuid) t.disk_uuid = uuidstr(ped_disk_get_uuid(d));
    ped_unit_set_default(u);
    t.total = take(ped_unit_format_byte(dev, dev->length * dev->sector_size - (u == PED_UNIT_CHS || u == PED_UNIT_CYLINDER)));
    t.chs = dev->bios_geom;
    t.cyl = take(ped_unit_format_custom(dev, t.chs.heads * t.chs.sectors, PED_UNIT_KILOBYTE));
    t.maxp = ped_disk_get_max_primary_partition_count(d);
    for (int f = PED_DISK_FIRST_FLAG; f <= PED_DISK_LAST_FLAG; f++)
        if (ped_disk_get_flag(d, (PedDiskFlag)f)) t.dflags.push_back(ped_disk_flag_get_name((PedDiskFlag)f));
    for (PedPartition *p = ped_disk_next_partition(d, nullptr); p; p = ped_disk_next_partition(d, p)) {
        if (p->type & PED_PARTITION_METADATA) continue;
        bool fr = (p->type & PED_PARTITION_FREESPACE) != 0;
        if (fr && !with_free) continue;
        Row r;
        r.free_ = fr;
        r.num = p->num;
        r.type = p->type;
        r.s = p->geom.start;
        r.e = p->geom.end;
        r.start = take(ped_unit_format(dev, r.s));
        r.end = take(ped_unit_format_byte(dev, (r.e + 1) * dev->sector_size - 1));
        r.size = take(ped_unit_format(dev, p->geom.length));
        r.type_name = ped_partition_type_get_name(p->type);
        if (!fr) {
            if (p->fs_type) r.fs = p->fs_type->name;
            if (t.has_name) r.name = ped_partition_get_name(p);
            if (t.has_tid) r.type_id = fmt("0x%02x", ped_partition_get_type_id(p));
            if (t.has_tuuid) r.type_uuid = uuidstr(ped_partition_get_type_uuid(p));
            if (t.has_puuid) r.uuid = uuidstr(ped_partition_get_uuid(p));
            for (int f = PED_PARTITION_FIRST_FLAG; f <= PED_PARTITION_LAST_FLAG; f++)
                if (ped_partition_is_flag_available(p, (PedPartitionFlag)f) && ped_partition_get_flag(p, (PedPartitionFlag)f)) r.flags.push_back(ped_partition_flag_get_name((PedPartitionFlag)f));
        }
        t.rows.push_back(r);
    }
    ped_unit_set_default(PED_UNIT_COMPACT);
    return t;
}
static const char *TRANSPORT[] = {"unknown", "scsi", "ide", "dac960", "cpqarray", "file", "ataraid", "i2o", "ubd", "dasd", "viodasd", "sx8", "dm", "xvd", "sd/mmc", "virtblk", "aoe", "md", "loopback", "nvme", "brd", "pmem"};

static void check_json(Ctx &c, const std::string &out, const Table_ &t, MemDev *m, PedUnit u, bool with_free) {
    J root;
    JP p{out};
    if (!p.val(root)) c.fail("C23:json-syntax", "the JSON report is not valid: %s\n%s", p.err.c_str(), out.substr(0, 3000).c_str());
    p.ws();
    if (p.i != out.size()) c.fail("C23:json-syntax", "the JSON report has trailing text: %s", out.substr(p.i, 200).c_str());
    const J *d = root.get("disk");
    if (!d || d->k != J::OBJ) c.fail("C23:json", "no disk object in %s", out.substr(0, 500).c_str());
    auto str = [&](const J *o, const char *k, const std::string &want, const char *what) {
        const J *v = o->get(k);
        if (!v || v->k != J::STR || v->s != want) c.fail("C23:json", "%s: \"%s\" is %s, not \"%s\"\n%s", what, k, v ? ("\"" + v->s + "\"").c_str() : "missing", want.c_str(), out.substr(0, 3000).c_str());
    };
    auto num = [&](const J *o, const char *k, long long want, const char *what) {
        const J *v = o->get(k);
        if (!v || v->k != J::NUM || v->s != fmt("%lld", want)) c.fail("C23:json", "%s: \"%s\" is %s, not %lld\n%s", what, k, v ? v->s.c_str() : "missing", want, out.substr(0, 3000).c_str());
    };
    auto opt = [&](const J *o, const char *k, bool there, const std::string &want, const char *what) {
        if (there) str(o, k, want, what);
        else if (o->get(k)) c.fail("C23:json", "%s: unexpected \"%s\"", what, k);
    };
    auto flags = [&](const J *o, const std::vector<std::string> &f, const char *what) {
        const J *v = o->get("flags");
        bool ok = f.empty() ? !v || (v->k == J::ARR && v->a.empty()) : v && v->k == J::ARR && v->a.size() == f.size();
        for (size_t i = 0; ok && i < f.size(); i++) ok = v->a[i].k == J::STR && v->a[i].s == f[i];
        if (!ok) c.fail("C23:json", "%s: flags differ\n%s", what, out.substr(0, 3000).c_str());
    };
    str(d, "path", m->path, "disk");
    str(d, "size", t.total, "disk");
    str(d, "model", m->model, "disk");
    str(d, "transport", TRANSPORT[m->type], "disk");
    num(d, "logical-sector-size", m->ss, "disk");
    num(d, "physical-sector-size", m->pss, "disk");
    str(d, "label", t.label, "disk");
    opt(d, "uuid", t.has_duuid, t.disk_uuid, "disk");
    num(d, "max-partitions", t.maxp, "disk");
    flags(d, t.dflags, "disk");
    if (u == PED_UNIT_CHS || u == PED_UNIT_CYLINDER) str(d, "geometry", fmt("%d,%d,%d %s", t.chs.cylinders, t.chs.heads, t.chs.sectors, t.cyl.c_str()), "disk");
    const J *ps = d->get("partitions");
    if (!ps || ps->k != J::ARR || ps->a.size() != t.rows.size()) c.fail("C23:json", "%zu partitions are listed, not %zu\n%s", ps ? ps->a.size() : 0, t.rows.size(), out.substr(0, 3000).c_str());
    for (size_t i = 0; i < t.rows.size(); i++) {
        const J *o = &ps->a[i];
        const Row &r = t.rows[i];
        std::string w = fmt("partition %d [%lld,%lld]", r.num, (long long)r.s, (long long)r.e);
        if (!r.free_) num(o, "number", r.num, w.c_str());
        str(o, "start", r.start, w.c_str());
        str(o, "end", r.end, w.c_str());
        opt(o, "size", u != PED_UNIT_CHS, r.size, w.c_str());
        str(o, "type", r.type_name, w.c_str());
        opt(o, "type-id", !r.free_ && t.has_tid, r.type_id, w.c_str());
        opt(o, "type-uuid", !r.free_ && t.has_tuuid, r.type_uuid, w.c_str());
        opt(o, "uuid", !r.free_ && t.has_puuid, r.uuid, w.c_str());
        opt(o, "name", !r.name.empty(), r.name, w.c_str());
        opt(o, "filesystem", !r.fs.empty(), r.fs, w.c_str());
        flags(o, r.flags, w.c_str());
    }
}
static void check_machine(Ctx &c, const std::string &out, const Table_ &t, MemDev *m, PedUnit u) {
    std::vector<std::vector<std::string>> recs;
    std::vector<std::string> rec(1);
    size_t i = 0;
    size_t nf = u == PED_UNIT_CHS ? 6 : 7;
    auto complete = [&](const std::vector<std::string> &r, size_t n) {
        if (n == 0) return r.size() == 8;
        if (n == 1 && (u == PED_UNIT_CHS || u == PED_UNIT_CYLINDER)) return r.size() == 4;
        return r.size() == nf || (r.size() == nf - 2 && r.back() == "free");
    };
    std::string first = u == PED_UNIT_CHS ? "CHS;\n" : u == PED_UNIT_CYLINDER ? "CYL;\n" : "BYT;\n";
    auto bad = [&](const std::string &why) { c.fail("C23:machine", "%s\n%s", why.c_str(), out.substr(0, 3000).c_str()); };
    if (out.compare(0, first.size(), first)) bad("the machine report does not begin with " + first);
    for (i = first.size(); i < out.size(); i++) {
        if (out[i] == '\\' && i + 1 < out.size()) rec.back() += out[++i];
        else if (out[i] == ':') rec.push_back("");
        else if (out[i] == ';' && i + 1 < out.size() && out[i + 1] == '\n' && complete(rec, recs.size())) { recs.push_back(rec); rec.assign(1, ""); i++; }
        else rec.back() += out[i];
    }
    if (rec != std::vector<std::string>(1)) bad("the machine report does not end with a complete record");
    auto same = [&](const std::vector<std::string> &got, const std::vector<std::string> &want, size_t from = 0) {
        bool ok = got.size() == want.size();
        for (size_t k = from; ok && k < got.size(); k++) ok = got[k] == want[k];
        if (!ok) {
            std::string g, w;
            for (auto &x : got) g += "<" + x + ">";
            for (auto &x : want) w += "<" + x + ">";
            bad("record " + g + " instead of " + w);
        }
    };
    if (recs.empty()) bad("no disk record");
    same(recs[0], {m->path, t.total, TRANSPORT[m->type], fmt("%lld", m->ss), fmt("%lld", m->pss), t.label, m->model, t.dflagstr()});
    size_t k = 1;
    if (u == PED_UNIT_CHS || u == PED_UNIT_CYLINDER) {
        if (recs.size() < 2) bad("no geometry record");
        same(recs[k++], {fmt("%d", t.chs.cylinders), fmt("%d", t.chs.heads), fmt("%d", t.chs.sectors), t.cyl});
    }
    if (recs.size() - k != t.rows.size()) bad(fmt("%zu partitions are listed, not %zu", recs.size() - k, t.rows.size()));
    for (auto &r : t.rows) {
        std::vector<std::string> want = {fmt("%d", r.num), r.start, r.end};
        if (u != PED_UNIT_CHS) want.push_back(r.size);
        if (r.free_) want.push_back("free");
        else { want.push_back(r.fs); want.push_back(r.name); want.push_back(r.flagstr()); }
        same(recs[k++], want, r.free_ ? 1 : 0);
    }
}
static bool valid_utf8(const std::string &s) {
    mbstate_t st = {};
    const char *p = s.c_str();
    return mbsrtowcs(nullptr, &p, 0, &st) != (size_t)-1;
}
static int dispw(const std::string &s) {
    std::wstring w(s.size() + 1, 0);
    size_t n = mbstowcs(&w[0], s.c_str(), w.size());
    if (n == (size_t)-1) return -1;
    return wcswidth(w.c_str(), n);
}
static void check_human(Ctx &c, const std::string &out, const Table_ &t, MemDev *m, PedUnit u) {
    auto bad = [&](const std::string &why) { c.fail("C23:human", "%s\n%s", why.c_str(), out.substr(0, 4000).c_str()); };
    auto line = [&](const std::string &l) { if (("\n" + out).find("\n" + l + "\n") == std::string::npos) bad("no line \"" + l + "\""); };
    line(fmt("Model: %s (%s)", m->model.c_str(), TRANSPORT[m->type]));
    line(fmt("Disk %s: %s", m->path.c_str(), t.total.c_str()));
    line(fmt("Sector size (logical/physical): %lldB/%lldB", m->ss, m->pss));
    line("Partition Table: " + t.label);
    line("Disk Flags: " + t.dflagstr());
    if (u == PED_UNIT_CHS || u == PED_UNIT_CYLINDER) line(fmt("BIOS cylinder,head,sector geometry: %d,%d,%d.  Each cylinder is %s.", t.chs.cylinders, t.chs.heads, t.chs.sectors, t.cyl.c_str()));
    std::vector<std::vector<std::string>> tab;
    std::vector<std::string> h = {"Number", "Start", "End"};
    if (u != PED_UNIT_CHS) h.push_back("Size");
    if (t.has_ext) h.push_back("Type");
    h.push_back("File system");
    if (t.has_name) h.push_back("Name");
    h.push_back("Flags");
    tab.push_back(h);
    bool printable = true;
    for (auto &r : t.rows) {
        std::vector<std::string> v = {r.num >= 0 ? fmt("%2d ", r.num) : "   ", r.start, r.end};
        if (u != PED_UNIT_CHS) v.push_back(r.size);
        if (t.has_ext) v.push_back(r.free_ ? "" : r.type_name);
        v.push_back(r.free_ ? "Free Space" : r.fs);
        if (t.has_name) v.push_back(r.name);
        v.push_back(r.flagstr());
        for (auto &x : v) printable &= dispw(x) >= 0;
        tab.push_back(v);
    }
    if (printable) {
        std::vector<int> w(h.size(), 0);
        for (auto &v : tab) for (size_t i = 0; i < v.size(); i++) w[i] = std::max(w[i], dispw(v[i]));
        std::string want;
        for (auto &v : tab) {
            std::string l;
            for (size_t i = 0; i < v.size(); i++) {
                l += v[i];
                if (i + 1 < v.size()) l += std::string(w[i] - dispw(v[i]) + 2, ' ');
            }
            while (!l.empty() && l.back() == ' ') l.pop_back();
            want += l + "\n";
        }
        if (("\n" + out).find("\n" + want) == std::string::npos) bad("the table is not\n" + want);
    } else {
        size_t at = out.find("Number");
        for (auto &v : tab)
            for (auto x : v) {
                while (!x.empty() && x.back() == ' ') x.pop_back();
                while (!x.empty() && x[0] == ' ') x.erase(0, 1);
                if (!valid_utf8(x)) continue;
                size_t k = out.find(x, at);
                if (k == std::string::npos) bad("cell \"" + x + "\" is missing or out of order");
                at = k + x.size();
            }
        c.cls("unprintable");
    }
}
static void c23(Ctx &c) {
    World w(c);
    if (!start_any(w, c, gen_label(c), true)) return;
    MemDev *m = w.m;
    if (c.chance(1, 3)) m->type = (PedDeviceType)c.draw(sizeof TRANSPORT / sizeof *TRANSPORT - 1);
    if (c.chance(1, 3)) m->model = c.pickl<const char *>({"Acme: Disk", "back\\slash", "a;b", "\"quoted\"", "modèle", "", "tab\there", "Virtio Block Device"});
    Steps st(c, 6);
    while (st.next()) w.op();
    if (c.chance(1, 3))   // names that need escaping
        for (auto p : w.active())
            if (c.chance(1, 2) && ped_disk_type_check_feature(w.disk->type, PED_DISK_TYPE_PARTITION_NAME)) {
                static const char *const ns[] = {"a:b", "x\\", "semi;", "q\"q", "new\nline", "tab\t", "日本", "e\xcc\x81", "\x01\x02", "a;\nb", "::", "  two  ", "é", "\xef\xbf\xbd", "del\x7f", "\xc2\x85nel"};
                std::string n = c.chance(1, 4) ? w.gen_name() : ns[c.draw(sizeof ns / sizeof *ns - 1)];
                c.note("name #%d '%s'", p->num, n.c_str());
                ped_partition_set_name(p, n.c_str());
            }
    if (!readable(snap(w.disk))) c.discard();
    if (!w.commit()) c.discard();
    bool cyl = c.chance(1, 4);
    w.reopen();
    exc_clear();
    if (!w.load()) c.discard();   // C01 decides that a committed label can be read
    if (!g_exc.empty()) c.discard();
    // put file systems where partitions are, so that there is something to report
    if (c.chance(1, 2)) {
        if (g_tpl.empty()) load_templates();
        for (auto p : w.active()) {
            if ((p->type & PED_PARTITION_EXTENDED) || !c.chance(1, 2)) continue;
            const Template &t = c.pick(g_tpl);
            long long k = m->ss / 512;
            if (w.label == "loop" || p->geom.start == 0 || (PedSector)t.total > p->geom.length * k) continue;
            if ((w.label == "msdos" && (p->type & PED_PARTITION_LOGICAL) && false)) continue;
            c.note("file system %s in #%d", t.name.c_str(), p->num);
            for (auto &x : t.sec) put512(m, p->geom.start * k + x.first, x.second.data());
        }
        w.reopen();
        exc_clear();
        if (!w.load() || !g_exc.empty()) c.discard();
    }
    if (ped_disk_is_flag_available(w.disk, PED_DISK_CYLINDER_ALIGNMENT)) ped_disk_set_flag(w.disk, PED_DISK_CYLINDER_ALIGNMENT, cyl);
    struct Q { PedUnit u; bool fr; int mode; };
    std::vector<Q> qs;
    int n = c.thorough ? 6 : 3;
    for (int i = 0; i < n; i++) qs.push_back({c.pickl<PedUnit>({PED_UNIT_SECTOR, PED_UNIT_BYTE, PED_UNIT_COMPACT, PED_UNIT_KILOBYTE, PED_UNIT_MEGABYTE, PED_UNIT_GIGABYTE, PED_UNIT_TERABYTE, PED_UNIT_CYLINDER, PED_UNIT_CHS, PED_UNIT_PERCENT, PED_UNIT_KIBIBYTE, PED_UNIT_MEBIBYTE, PED_UNIT_GIBIBYTE, PED_UNIT_TEBIBYTE}), c.chance(1, 2), (int)((i + c.draw(2)) % 3)});
    std::vector<Table_> ts;
    bool utf = true;
    for (auto &q : qs) ts.push_back(expected(w.disk, q.u, q.fr));
    for (auto &r : ts[0].rows) utf &= valid_utf8(r.name);
    std::string path = m->path;
    DSnap s0 = snap(w.disk);
    if (!s0.parts.empty()) c.nontrivial = true;
    if (ts[0].total.empty()) c.discard();
    w.close();
    for (size_t i = 0; i < qs.size(); i++) {
        auto &q = qs[i];
        std::vector<std::string> a = {"-s"};
        if (q.mode == 1) a.push_back("-m");
        if (q.mode == 2) a.push_back("-j");
        if (cyl) a.push_back("-acyl");
        a.insert(a.end(), {path, "unit", ped_unit_get_name(q.u), "print"});
        if (q.fr) a.push_back("free");
        CliRun r = cli_run(c, {m}, a);
        cli_alive(c, "C23", r);
        if (r.status) c.fail("C23:print-fails", "print of a readable table exits with %d: %s%s", r.status, r.err.c_str(), utf ? "" : " (a name is not valid in the locale's encoding)");
        if (!r.err.empty()) c.fail("C23:print-complains", "print of a readable table complains: %s", r.err.c_str());
        if (r.writes) c.fail("C23:print-writes", "print writes to the device");
        if (q.mode == 2) check_json(c, r.out, ts[i], m, q.u, q.fr);
        else if (q.mode == 1) check_machine(c, r.out, ts[i], m, q.u);
        else check_human(c, r.out, ts[i], m, q.u);
        if (q.u == PED_UNIT_SECTOR && q.mode == 1) {   // the numbers themselves, without ped_unit_format
            std::string want, got;
            for (auto &x : ts[i].rows) want += fmt("%llds:%llds:%llds ", (long long)x.s, (long long)x.e, (long long)(x.e - x.s + 1));
            for (auto &x : ts[i].rows) got += x.start + ":" + x.end + ":" + x.size + " ";
            if (got != want) c.fail("C23:sectors", "sector positions %s instead of %s", got.c_str(), want.c_str());
        }
        c.cls(q.mode == 2 ? "json" : q.mode == 1 ? "machine" : "human");
    }
}

// ---------------------------------------------------------------- C25
struct Loc {          // a location the user asks for
    std::string text;
    bool ok = false;  // parses
    PedSector sec = 0, lo = 0, hi = 0;
    bool iec = false; // an end in these units means "up to here"
    bool exact = false;
    PedSector want = -1;  // computed here, when the text is exact
};
static const struct { const char *n; __int128 b; bool iec; } SUF[] = {{"kB", 1000, false}, {"MB", 1000000, false}, {"GB", 1000000000, false}, {"TB", 1000000000000ll, false},
                                                        {"KiB", 1ll << 10, true}, {"MiB", 1ll << 20, true}, {"GiB", 1ll << 30, true}, {"TiB", 1ll << 40, true}};
static Loc gen_loc(Ctx &c, const PedDevice *d, PedSector t, PedUnit dflt, PedSector span, const char *cname = nullptr, double cbytes = 0) {
    Loc l;
    long long ss = d->sector_size;
    t = std::min(std::max<PedSector>(t, 0), d->length - 1);
    __int128 byte = (__int128)t * ss;
    int kind = cname ? 9 : c.weighted({6, 2, 5, 3, 2, 2, 1, 1, 2});
    bool wild = c.chance(1, 8);   // units may be too coarse for the place
    auto unit = [&](int from, int n) {
        int k = c.draw(n - 1);
        while (!wild && k % 4 && SUF[from + k].b * 2 > (__int128)span * ss) k--;
        return &SUF[from + k];
    };
    __int128 room = (__int128)span * ss;
    if (!wild && ((kind == 4 && span < d->length / 40) || (kind == 6 && span < 4ll * d->bios_geom.heads * d->bios_geom.sectors) ||
                  ((kind == 2 || kind == 3) && room < 4096) || (kind == 8 && (dflt == PED_UNIT_COMPACT ? room < 4000000 : dflt != PED_UNIT_CHS && room < 2 * (__int128)ped_unit_get_size(d, dflt))))) kind = 0;
    switch (kind) {
    case 0: l.text = fmt("%llds", (long long)t); l.want = t; break;
    case 1: l.text = fmt("%lldB", (long long)byte + (c.chance(1, 3) ? c.range(0, ss - 1) : 0)); if (!(byte >> 52)) l.want = t; break;   // through a double
    case 2: case 3: {
        auto &u = *unit(kind == 2 ? 4 : 0, 4);
        if (c.chance(1, 3)) { l.text = fmt("%.*f%s", (int)c.range(1, 3), (double)byte / (double)u.b, u.n); break; }
        __int128 v = byte / u.b;
        if (c.chance(1, 3) && (v + 1) * u.b < (__int128)d->length * ss) v++;
        l.text = fmt("%lld%s", (long long)v, u.n);
        if (u.iec) l.want = (PedSector)(v * u.b / ss);
        break;
    }
    case 4: l.text = c.chance(1, 2) ? fmt("%d%%", (int)((__int128)t * 100 / d->length) + (int)c.draw(1)) : fmt("%.2f%%", 100.0 * t / d->length); break;
    case 5: {
        PedSector back = d->length - t;
        if (c.chance(1, 2)) { l.text = fmt("-%llds", (long long)back); l.want = t; }
        else { auto &u = *unit(c.draw(1) * 4, 4); l.text = fmt("-%lld%s", (long long)((__int128)back * ss / u.b), u.n); }
        break;
    }
    case 6: l.text = fmt("%lldcyl", (long long)(t / ((long long)d->bios_geom.heads * d->bios_geom.sectors))); break;
    case 7: {
        long long H = d->bios_geom.heads, S = d->bios_geom.sectors;
        l.text = fmt("%lld,%lld,%lld", (long long)(t / (H * S)), (long long)(t / S % H), (long long)(t % S));
        break;
    }
    case 9: l.text = fmt("%.*f%s", (int)c.range(1, 3), (double)byte / cbytes, cname); break;
    default: {   // the session's unit
        long long us = ped_unit_get_size(d, dflt);
        if (us <= 0 || dflt == PED_UNIT_COMPACT) us = 1000000;
        if (dflt == PED_UNIT_CHS) us = ss;
        l.text = c.chance(1, 3) ? fmt("%.2f", (double)byte / us) : fmt("%lld", (long long)(byte / us));
    }
    }
    ped_unit_set_default(dflt);
    PedGeometry *r = nullptr;
    exc_clear();
    l.ok = ped_unit_parse(l.text.c_str(), (PedDevice *)d, &l.sec, &r) && r;
    ped_unit_set_default(PED_UNIT_COMPACT);
    if (r) { l.lo = r->start; l.hi = r->end; ped_geometry_destroy(r); }
    std::string suf = l.text.substr(l.text.find_last_of("0123456789") + 1);
    if (suf.empty()) l.iec = dflt == PED_UNIT_KIBIBYTE || dflt == PED_UNIT_MEBIBYTE || dflt == PED_UNIT_GIBIBYTE || dflt == PED_UNIT_TEBIBYTE;
    else l.iec = suf == "KiB" || suf == "MiB" || suf == "GiB" || suf == "TiB";
    if (l.ok && l.want >= 0 && l.sec != l.want) c.fail("C25:location", "\"%s\" means sector %lld, not %lld", l.text.c_str(), (long long)l.sec, (long long)l.want);
    l.exact = l.ok && l.lo == l.hi;
    if (l.ok && l.want >= 0 && !l.exact && (kind == 0 || (kind == 5 && l.text.back() == 's'))) c.fail("C25:location", "\"%s\" is an exact sector but has the range [%lld,%lld]", l.text.c_str(), (long long)l.lo, (long long)l.hi);
    return l;
}
static void as_end(Loc &e, PedSector start) {
    if (e.ok && e.iec && start != e.sec) { e.sec--; e.lo--; e.hi--; }
}
static bool lib_can_add(World &w, int type, PedSector s, PedSector e) {
    // on a scratch reading of the table
    w.reopen();
    exc_clear();
    bool ok = false;
    if (w.load() && s >= 0 && s <= e && e < w.dev->length) {
        if (ped_disk_is_flag_available(w.disk, PED_DISK_CYLINDER_ALIGNMENT)) ped_disk_set_flag(w.disk, PED_DISK_CYLINDER_ALIGNMENT, 0);
        PedGeometry g;
        PedPartition *p = ped_partition_new(w.disk, (PedPartitionType)type, nullptr, s, e);
        if (p && ped_geometry_init(&g, w.dev, s, e - s + 1)) {
            PedConstraint *k = ped_constraint_exact(&g);
            ok = k && ped_disk_add_partition(w.disk, p, k) && p->geom.start == s && p->geom.end == e;
            ped_constraint_destroy(k);
            if (!ok && p->num <= 0) ped_partition_destroy(p);
        }
    }
    exc_clear();
    w.close();
    return ok;
}
static DSnap reread(World &w, Ctx &c, const char *id) {
    w.reopen();
    exc_clear();
    if (!w.load()) c.fail(fmt("%s:unreadable", id).c_str(), "the label cannot be read afterwards: %s", exc_dump().c_str());
    if (!g_exc.empty()) c.fail(fmt("%s:complaint", id).c_str(), "reading the label afterwards complains: %s", exc_dump().c_str());
    std::string te = tiling_error(w.disk);
    if (!te.empty()) c.fail(fmt("%s:tiling", id).c_str(), "%s", te.c_str());
    DSnap s = snap(w.disk);
    w.close();
    return s;
}
static bool clean_world(World &w, Ctx &c, int ops) {
    // a committed table that reads back without complaint
    std::string lab = c.weighted({3, 3, 4}) == 0 ? "gpt" : c.chance(1, 2) ? "msdos" : gen_label(c);
    if (!start_any(w, c, lab, false)) return false;
    Steps st(c, ops);
    if (c.chance(5, 6)) while (st.next()) w.op();
    if (!readable(snap(w.disk)) || !w.commit()) return false;
    w.reopen();
    exc_clear();
    if (!w.load() || !g_exc.empty()) return false;
    return true;
}
static std::string strip_unstored(DSnap a, DSnap b) { return rt_diff(a, b, false); }
static void c25(Ctx &c) {
    World w(c);
    if (!clean_world(w, c, 4)) c.discard();
    MemDev *m = w.m;
    DSnap before = snap(w.disk);
    bool hasext = ped_disk_type_check_feature(w.disk->type, PED_DISK_TYPE_EXTENDED);
    bool hasname = ped_disk_type_check_feature(w.disk->type, PED_DISK_TYPE_PARTITION_NAME);
    struct Al { const char *opt; int kind; };
    Al al = c.pickl<Al>({{"-anone", 0}, {"-aopt", 2}, {"", 2}, {"-amin", 1}, {"-acyl", 3}});
    PedUnit dflt = c.chance(1, 2) ? PED_UNIT_COMPACT : UNITS[c.draw(13)];
    int cmd = c.weighted({6, 3, 1});
    std::vector<std::string> args = {"-s"};
    if (*al.opt) args.push_back(al.opt);
    args.insert(args.end(), {"--", m->path});
    if (dflt != PED_UNIT_COMPACT) args.insert(args.end(), {"unit", ped_unit_get_name(dflt)});
    auto frees = [&]() {
        std::vector<std::pair<PedSector, PedSector>> v;
        for (auto &r : before.raw) if (r.type & PED_PARTITION_FREESPACE) v.push_back({r.s, r.e});
        return v;
    }();
    auto lg = m->data;
    if (cmd == 2) {   // align-check
        if (before.parts.empty()) c.discard();
        auto &p = c.pick(before.parts);
        bool opt = c.chance(1, 2);
        PedSector grain = opt ? m->opt_io : m->min_io, off = m->align_off;
        if (!m->min_io) { off = 0; grain = opt ? 1048576 / m->ss : m->pss / m->ss; }
        else if (opt && !m->opt_io) { off = 0; grain = 1048576 / m->ss; }
        if (!grain) c.discard();
        off %= grain;
        bool want = p.s % grain == off;
        w.close();
        args.insert(args.end(), {"align-check", opt ? "optimal" : "minimal", fmt("%d", p.num)});
        bool script = c.chance(2, 3);
        if (!script) args[0] = "---pretend-input-tty";
        CliRun r = cli_run(c, {m}, args);
        cli_alive(c, "C25", r);
        if (r.writes) c.fail("C25:align-check-writes", "align-check writes");
        std::string text = want ? fmt("%d aligned\n", p.num) : fmt("%d not aligned: %llds %% %llds != %llds\n", p.num, (long long)p.s, (long long)grain, (long long)off);
        if (script ? (r.status == 0) != want || r.status > 1 : r.status != 0 || r.out.find(text) == std::string::npos)
            c.fail("C25:align-check", "partition %d starts at %lld, grain %lld, offset %lld: exit %d, output %s", p.num, (long long)p.s, (long long)grain, (long long)off, r.status, r.out.c_str());
        c.cls(want ? "aligned" : "not-aligned");
        c.nontrivial = true;
        return;
    }
    if (cmd == 1) {   // resizepart
        std::vector<PSnap> ps;
        for (auto &p : before.parts) ps.push_back(p);
        if (ps.empty() || w.label == "loop") c.discard();   // a loop label stores no geometry
        PSnap p = c.pick(ps);
        PedSector lim = w.dev->length - 1;
        for (auto &q : before.parts)
            if (q.s > p.e) lim = std::min(lim, q.s - 1);
        PedSector t = c.weighted({4, 2, 1}) == 0 ? c.biased(p.e, std::max(lim, p.e)) : c.chance(2, 3) ? c.range(p.s, p.e) : c.biased(0, w.dev->length - 1);
        if (c.chance(1, 6)) t = lim;
        if (c.chance(1, 8)) t = p.e;
        Loc e = gen_loc(c, w.dev, t, dflt, std::max<PedSector>(p.e - p.s, lim - p.e));
        if (p.e && c.chance(1, 8)) { ped_unit_set_default(dflt); e.text = take(ped_unit_format(w.dev, p.e)); ped_unit_set_default(PED_UNIT_COMPACT); }
        ped_unit_set_default(dflt);
        if (p.e && take(ped_unit_format(w.dev, p.e)) == e.text) { e.ok = true; e.sec = e.lo = e.hi = p.e; c.cls("current-end"); }   // the default answer keeps the end
        else as_end(e, p.s);
        ped_unit_set_default(PED_UNIT_COMPACT);
        w.close();
        int answer = c.weighted({2, 2, 1});   // script, yes, no
        if (answer) args[0] = "---pretend-input-tty";
        args.insert(args.end(), {"resizepart", fmt("%d", p.num), e.text});
        CliRun r = cli_run(c, {m}, args, answer == 1 ? "Yes\n" : answer == 2 ? "No\n" : "");
        cli_alive(c, "C25", r);
        if (r.status > 1) c.fail("C25:status", "exit status %d", r.status);
        if (r.status == 0) {
            DSnap after = reread(w, c, "C25");
            DSnap a = before, b = after;
            PSnap *n = nullptr;
            for (auto &x : b.parts) if (x.num == p.num) n = &x;
            if (!n) c.fail("C25:resize-lost", "partition %d is gone", p.num);
            if (n->s != p.s) c.fail("C25:resize-start", "resizepart moved the start from %lld to %lld", (long long)p.s, (long long)n->s);
            if (!e.ok) c.fail("C25:resize-unparsed", "\"%s\" is not a location, but the resize succeeds", e.text.c_str());
            if (n->e < e.lo || n->e > e.hi) c.fail("C25:resize-end", "end \"%s\" means %lld in [%lld,%lld], the partition ends at %lld", e.text.c_str(), (long long)e.sec, (long long)e.lo, (long long)e.hi, (long long)n->e);
            if (n->e < p.e && answer != 1) c.fail("C25:shrink-unasked", "the partition was shrunk without consent");
            for (auto &x : a.parts) if (x.num == p.num) x.e = n->e;
            std::string d = strip_unstored(a, b);
            if (!d.empty()) c.fail("C25:resize-others", "resizing %d changed something else: %s", p.num, d.c_str());
            c.cls(n->e < p.e ? "shrunk" : n->e > p.e ? "grown" : "same-size");
            c.nontrivial = true;
        } else {
            if (m->data != lg) {
                MemDev old = *m;
                old.data = lg;
                PedSector at;
                if (!m->same(old, &at)) c.fail("C25:failed-writes", "the failed resizepart changed sector %lld", (long long)at);
            }
            if (r.err.empty()) c.fail("C25:silent", "resizepart fails without a message");
            c.cls("resize-refused");
            // an exact growth the library can do must not be refused
            if (e.ok && e.exact && e.sec > p.e && al.kind != 3) {
                w.reopen();
                if (w.load()) {
                    if (ped_disk_is_flag_available(w.disk, PED_DISK_CYLINDER_ALIGNMENT)) ped_disk_set_flag(w.disk, PED_DISK_CYLINDER_ALIGNMENT, 0);
                    PedPartition *q = ped_disk_get_partition(w.disk, p.num);
                    PedGeometry g;
                    bool can = false;
                    if (q && ped_geometry_init(&g, w.dev, p.s, e.sec - p.s + 1)) {
                        PedConstraint *k = ped_constraint_exact(&g);
                        can = ped_disk_set_partition_geom(w.disk, q, k, p.s, e.sec);
                        ped_constraint_destroy(k);
                    }
                    if (can) c.fail("C25:resize-refused", "growing to the free sector %lld is refused: %s", (long long)e.sec, r.err.c_str());
                }
                w.close();
            }
        }
        return;
    }
    // mkpart
    int type = 0;
    bool anyext = false;
    PSnap ext;
    for (auto &p : before.parts) if (p.type & PED_PARTITION_EXTENDED) { anyext = true; ext = p; }
    if (hasext) {
        type = c.weighted({anyext ? 4 : 8, anyext ? 1 : 4, anyext ? 8 : 1});
        type = type == 0 ? 0 : type == 1 ? PED_PARTITION_EXTENDED : PED_PARTITION_LOGICAL;
    }
    std::pair<PedSector, PedSector> fr = frees.empty() ? std::make_pair<PedSector, PedSector>(0, w.dev->length - 1) : c.pick(frees);
    if (type == PED_PARTITION_LOGICAL && anyext && c.chance(7, 8)) {   // free space inside the extended partition
        std::vector<std::pair<PedSector, PedSector>> in;
        for (auto &r : before.raw) if ((r.type & PED_PARTITION_FREESPACE) && r.inner) in.push_back({r.s, r.e});
        if (!in.empty()) fr = c.pick(in);
    }
    PedSector s, e;
    switch (c.weighted({4, 3, 1})) {
    case 0: s = c.biased(fr.first, fr.second); e = c.biased(s, std::max(s, fr.second)); break;
    case 1: s = c.range(fr.first, fr.first + (fr.second - fr.first) / 2); e = c.range(s + (fr.second - s) / 2, fr.second); break;
    default: s = c.biased(0, w.dev->length - 1); e = c.biased(0, w.dev->length - 1);
    }
    if (c.chance(1, 3)) { PedSector g = 1048576 / m->ss; s = (s + g - 1) / g * g; if (c.chance(1, 2)) e = (e / g) * g - c.range(0, 1); }
    // both ends within their tolerance of one boundary between regions
    const char *cname = nullptr;
    double cbytes = 0;
    if (c.chance(1, 5)) {
        int k = c.weighted({3, 3, 1, 2, 2});
        __int128 total = (__int128)w.dev->length * m->ss;
        cname = k == 0 ? "MB" : k == 1 ? "kB" : k == 2 ? "GB" : k == 3 ? "%" : "cyl";
        cbytes = k == 0 ? 1e6 : k == 1 ? 1e3 : k == 2 ? 1e9 : k == 3 ? (double)total / 100 : (double)ped_unit_get_size(w.dev, PED_UNIT_CYLINDER);
        PedSector b = c.chance(1, 2) ? fr.first : fr.second + 1, far = std::max<PedSector>(1, (PedSector)(cbytes / m->ss * 5 / 8));
        s = b - c.range(0, far);
        e = b + c.range(-1, far);
        s = std::min(std::max<PedSector>(s, 0), w.dev->length - 1);
        e = std::min(std::max<PedSector>(e, s), w.dev->length - 1);
        c.cls("around-a-boundary");
    }
    PedSector span = std::min(e > s ? e - s : 1, fr.second - fr.first + 1);
    Loc ls = gen_loc(c, w.dev, s, dflt, span, cname, cbytes), le = gen_loc(c, w.dev, e, dflt, span, cname, cbytes);
    if (c.chance(1, 20)) { ls.text = "0%"; le.text = "100%"; ls.ok = le.ok = false; }
    else if (ls.ok && le.ok) as_end(le, ls.sec);
    bool pct = ls.text == "0%" && le.text == "100%" && !ls.ok;
    w.close();
    args.push_back("mkpart");
    if (hasext) args.push_back(type == 0 ? "primary" : type == PED_PARTITION_EXTENDED ? "extended" : "logical");
    std::string name;
    bool takes_name = hasname && !(before.label == "dvh" && type != PED_PARTITION_LOGICAL);
    if (takes_name) {
        name = c.pickl<const char *>({"data", "a", "x y", "", "p1"});
        args.push_back(cli_quote(name));
    }
    static const char *const fss[] = {"ext2", "fat32", "ntfs", "linux-swap", "hfs", "xfs"};
    std::string fs = c.chance(1, 3) && type != PED_PARTITION_EXTENDED ? fss[c.draw(5)] : "";
    if (!fs.empty()) args.push_back(fs);
    args.push_back(ls.text);
    args.push_back(le.text);
    CliRun r = cli_run(c, {m}, args);
    cli_alive(c, "C25", r);
    if (r.status > 1) c.fail("C25:status", "exit status %d", r.status);
    if (r.status == 0) {
        DSnap after = reread(w, c, "C25");
        PSnap n;
        int found = 0;
        for (auto &x : after.parts) {
            bool old = false;
            for (auto &y : before.parts) old |= x.s == y.s && x.e == y.e && (x.type & ~PED_PARTITION_PROTECTED) == (y.type & ~PED_PARTITION_PROTECTED);
            if (!old) { n = x; found++; }
        }
        if (found != 1 || after.parts.size() != before.parts.size() + 1) c.fail("C25:mkpart-count", "mkpart succeeds and %d new partitions exist (%zu before, %zu after)", found, before.parts.size(), after.parts.size());
        if (((n.type ^ type) & (PED_PARTITION_LOGICAL | PED_PARTITION_EXTENDED))) c.fail("C25:mkpart-type", "a partition of type %d was asked for and one of type %d made", type, n.type);
        c.note("   made #%d [%lld,%lld]", n.num, (long long)n.s, (long long)n.e);
        if (!pct) {
            if (!ls.ok || !le.ok) c.fail("C25:mkpart-unparsed", "\"%s\" \"%s\" are not locations, but mkpart succeeds", ls.text.c_str(), le.text.c_str());
            if (n.s < ls.lo || n.s > ls.hi) c.fail("C25:mkpart-start", "start \"%s\" means %lld in [%lld,%lld], the partition starts at %lld", ls.text.c_str(), (long long)ls.sec, (long long)ls.lo, (long long)ls.hi, (long long)n.s);
            if (n.e < le.lo || n.e > le.hi) c.fail("C25:mkpart-end", "end \"%s\" means %lld in [%lld,%lld], the partition ends at %lld", le.text.c_str(), (long long)le.sec, (long long)le.lo, (long long)le.hi, (long long)n.e);
        }
        DSnap rest = after, bef = before;
        if (hasext) {
            // logical partitions are numbered by position: compare without numbers
            for (auto *d : {&rest, &bef}) for (auto &x : d->parts) if (x.type & PED_PARTITION_LOGICAL) x.num = 0;
        }
        rest.parts.erase(std::remove_if(rest.parts.begin(), rest.parts.end(), [&](const PSnap &x) { return x.s == n.s && x.e == n.e && x.type == n.type; }), rest.parts.end());
        if (before.label == "amiga" || before.label == "loop") for (auto *d : {&rest, &bef}) for (auto &x : d->parts) x.num = 0;
        if (before.label != "dvh" && before.label != "amiga") {
            std::string d = strip_unstored(bef, rest);
            if (!d.empty()) c.fail("C25:mkpart-others", "mkpart changed something else: %s", d.c_str());
        }
        // alignment: an unaligned result only where no aligned place lies within what was asked for
        PedSector grain = al.kind == 2 ? m->opt_io : m->min_io, off = m->align_off;
        if (!m->min_io || !grain) { off = 0; grain = al.kind == 2 ? 1048576 / m->ss : m->pss / m->ss; }
        if ((al.kind == 1 || al.kind == 2) && grain > 1 && !pct && n.s % grain != off % grain) {
            auto up = [&](PedSector x, PedSector o) { PedSector k = ((x - o) % grain + grain) % grain; return k ? x + grain - k : x; };
            int tries = 0;
            for (PedSector s2 : {up(ls.lo, off), up(ls.sec - grain + 1, off), up(ls.sec, off)})
                for (PedSector e2 : {up(le.lo, off - 1), up(le.sec - grain + 1, off - 1), up(le.sec, off - 1)}) {
                    if (s2 < ls.lo || s2 > ls.hi || e2 < le.lo || e2 > le.hi || e2 < s2 || tries++ > 4) continue;
                    auto now = m->data;
                    m->data = lg;
                    bool can = lib_can_add(w, type, s2, e2);
                    m->data = now;
                    if (can) c.fail("C25:mkpart-unaligned", "the partition is at [%lld,%lld], but [%lld,%lld] is aligned to %lld and within what was asked for", (long long)n.s, (long long)n.e, (long long)s2, (long long)e2, (long long)grain);
                }
            c.cls("unaligned");
        } else c.cls("placed");
        if (takes_name && ped_disk_type_get(before.label.c_str())) {
            std::string want = name;
            DSnap x = after;
            if (before.label == "gpt" && n.name != want) c.fail("C25:mkpart-name", "the partition is called \"%s\", not \"%s\"", n.name.c_str(), want.c_str());
        }
        c.nontrivial = true;
    } else {
        MemDev old = *m;
        old.data = lg;
        PedSector at;
        if (!m->same(old, &at)) c.fail("C25:failed-writes", "the failed mkpart changed sector %lld", (long long)at);
        if (r.err.empty()) c.fail("C25:silent", "mkpart fails without a message");
        { std::string e = r.err.substr(0, 60); for (auto &ch : e) if (ch == '\n') ch = '/'; c.cls("mkpart-refused:" + e); }
        if (!pct && ls.ok && le.ok && ls.exact && le.exact && al.kind == 0 && lib_can_add(w, type, ls.sec, le.sec))
            c.fail("C25:mkpart-refused", "[%lld,%lld] can be added to the table, but mkpart refuses: %s", (long long)ls.sec, (long long)le.sec, r.err.c_str());
    }
}

// ---------------------------------------------------------------- C24
enum CmdKind { K_PRINT, K_UNIT, K_MKLABEL, K_MKPART, K_RM, K_NAME, K_SET, K_DSET, K_TYPE, K_RESIZE, K_ALIGN, K_INFO, K_BAD };
struct Cmd {
    CmdKind kind = K_PRINT;
    std::vector<std::string> w;
    bool valid = true;      // the words are as the command wants them
    bool toggle = false;
    int num = 0, flag = 0, state = 0;
    std::string arg;
    bool ro() const { return kind == K_PRINT || kind == K_UNIT || kind == K_ALIGN || kind == K_INFO || kind == K_BAD; }
};
static std::string junk_word(Ctx &c) {
    switch (c.weighted({4, 2, 2, 1, 1})) {
    case 0: return c.pickl<const char *>({"0", "1", "2", "-1", "99999999999999999999", "4294967297", "1.5", "0%", "100%", "1s", "-1s", "1,2,3", "1KiB", "1e3", "off", "on", "boot", "ext2", "free", "all", "gpt", "primary", "logical", "s", "compact", "0x83", "frobnicate", "x"});
    case 1: return "";
    case 2: { std::string r; for (int i = c.draw(6); i >= 0; i--) r += (char)c.range(33, 126); return r; }
    case 3: { std::string r; for (int i = c.draw(4); i >= 0; i--) r += (char)c.range(1, 255); return r; }
    default: return std::string(c.biased(1, 400), c.chance(1, 2) ? '9' : 'a');
    }
}
static Cmd gen_cmd(Ctx &c, World &w, const DSnap *cur, PedUnit unit) {
    Cmd k;
    auto num = [&]() {
        if (cur && !cur->parts.empty() && c.chance(9, 10)) k.num = c.pick(cur->parts).num;
        else k.num = (int)c.pickl<int>({1, 2, 5, 0, 200});
        return fmt("%d", k.num);
    };
    auto part = [&]() -> const PSnap * {
        if (cur) for (auto &p : cur->parts) if (p.num == k.num) return &p;
        return nullptr;
    };
    bool bad = c.chance(1, 10);
    k.kind = (CmdKind)c.weighted({2, 1, 2, 6, 3, 3, 5, 1, 2, 2, 1, 1, 1});
    switch (k.kind) {
    case K_PRINT:
        k.w = {"print"};
        if (c.chance(1, 2)) k.w.push_back(c.pickl<const char *>({"free", "all", "list", "devices", "print"}));
        break;
    case K_UNIT: k.w = {"unit", bad ? junk_word(c) : ped_unit_get_name(UNITS[c.draw(13)])}; break;
    case K_MKLABEL: k.w = {c.chance(1, 2) ? "mklabel" : "mktable", k.arg = bad ? junk_word(c) : gen_label(c)}; break;
    case K_MKPART: {
        k.w = {"mkpart"};
        std::string lab = cur ? cur->label : "msdos";
        PedDiskType *t = ped_disk_type_get(lab.c_str());
        bool ext = t && ped_disk_type_check_feature(t, PED_DISK_TYPE_EXTENDED), name = t && ped_disk_type_check_feature(t, PED_DISK_TYPE_PARTITION_NAME);
        bool hasext = false;
        if (cur) for (auto &p : cur->parts) hasext |= !!(p.type & PED_PARTITION_EXTENDED);
        std::string ty = c.pickl<const char *>({"primary", "logical", "extended"});
        if (!hasext && ty == "logical") ty = "primary";
        if (ext) k.w.push_back(ty);
        if (name && !(lab == "dvh" && ty != "logical")) k.w.push_back(c.pickl<const char *>({"data", "a b", "z"}));
        if (c.chance(1, 3)) k.w.push_back(c.pickl<const char *>({"ext2", "fat32", "linux-swap", "hfs+", "ntfs"}));
        std::vector<std::pair<PedSector, PedSector>> v;
        if (cur) for (auto &r : cur->raw) if ((r.type & PED_PARTITION_FREESPACE) && (r.inner == (ty == "logical")) ) v.push_back({r.s, r.e});
        auto f = v.empty() ? std::make_pair<PedSector, PedSector>(0, w.m->length - 1) : c.pick(v);
        PedSector s = c.biased(f.first, f.second), e = c.biased(s, f.second);
        long long us = ped_unit_get_size(w.dev, unit);
        for (PedSector x : {s, e})
            k.w.push_back(c.chance(2, 3) || us <= 0 ? fmt("%llds", (long long)x) : c.chance(1, 2) ? fmt("%.2f%%", 100.0 * x / w.m->length) : fmt("%lld", (long long)((__int128)x * w.m->ss / us)));
        if (bad) { k.w[1 + c.draw(k.w.size() - 2)] = junk_word(c); k.valid = false; }
        break;
    }
    case K_RM: k.w = {"rm", num()}; break;
    case K_NAME: k.w = {"name", num(), k.arg = c.chance(1, 4) ? w.gen_name() : c.pickl<const char *>({"data", "root fs", "", "q\"uote", "back\\slash", "swap"})}; break;
    case K_SET: {
        std::string n = num();
        const PSnap *p = part();
        std::vector<int> fl;
        for (int f = 1; f < 32; f++) if (p && (p->avail >> f & 1) && ped_partition_flag_get_name((PedPartitionFlag)f)) fl.push_back(f);
        if (fl.empty() || c.chance(1, 15)) k.flag = 1 + c.draw(15); else k.flag = c.pick(fl);
        const char *fn = ped_partition_flag_get_name((PedPartitionFlag)k.flag);
        k.toggle = c.chance(1, 3);
        k.state = c.chance(2, 3);
        k.w = {k.toggle ? "toggle" : "set", n, fn ? fn : "boot"};
        if (!k.toggle) k.w.push_back(k.state ? "on" : "off");
        break;
    }
    case K_DSET: {
        k.flag = c.pickl<int>({PED_DISK_GPT_PMBR_BOOT, PED_DISK_CYLINDER_ALIGNMENT});
        k.toggle = c.chance(1, 3);
        k.state = c.chance(2, 3);
        k.w = {k.toggle ? "disk_toggle" : "disk_set", ped_disk_flag_get_name((PedDiskFlag)k.flag)};
        if (!k.toggle) k.w.push_back(k.state ? "on" : "off");
        break;
    }
    case K_TYPE: {
        std::string n = num();
        if (!cur || cur->label == "gpt" ? c.chance(7, 8) : c.chance(1, 8)) {
            uint8_t u[16];
            for (auto &x : u) x = (uint8_t)c.draw(255);
            if (c.chance(1, 3)) uuid_parse(c.pickl<const char *>({"0fc63daf-8483-4772-8e79-3d69d8477de4", "c12a7328-f81f-11d2-ba4b-00a0c93ec93b", "EBD0A0A2-B9E5-4433-87C0-68B6B72699C7"}), u);
            char b[40];
            uuid_unparse(u, b);
            k.arg = c.chance(1, 20) ? "00000000-0000-0000-0000-000000000000" : b;
        } else if (c.chance(1, 12)) k.arg = c.pickl<const char *>({"100000083", "0x1ff", "0", "-1", "zz", "ffffffffffffffff83", "10000000000000083"});
        else k.arg = fmt(c.chance(1, 2) ? "0x%02x" : "%x", (int)c.range(0, 255));
        k.w = {"type", n, k.arg};
        break;
    }
    case K_RESIZE: {
        std::string n = num();
        const PSnap *p = part();
        PedSector e = p ? c.biased(p->e, w.m->length - 1) : w.m->length / 2;
        k.w = {"resizepart", n, bad ? junk_word(c) : fmt("%llds", (long long)e)};
        k.valid = !bad;
        break;
    }
    case K_ALIGN: k.w = {"align-check", c.chance(1, 2) ? "optimal" : "minimal", num()}; break;
    case K_INFO: k.w = {c.pickl<const char *>({"version", "help"})}; if (k.w[0] == "help") k.w.push_back("print"); break;
    case K_BAD: {
        std::string x = junk_word(c);
        k.w = {"no" + x};   // no command starts like this
        k.valid = false;
        break;
    }
    }
    return k;
}
// the same command through the library; -1: not mirrored
static int lib_cmd(World &w, const Cmd &k) {
    if (k.kind == K_MKLABEL) {
        const PedDiskType *t = ped_disk_type_get(k.arg.c_str());
        if (!t) return -1;
        ped_exception_fetch_all();
        PedDisk *old = ped_disk_new(w.dev);
        if (!old) ped_exception_catch();
        ped_exception_leave_all();
        PedDisk *d = ped_disk_new_fresh(w.dev, t);
        int ok = d && ped_disk_commit(d);
        if (old) ped_disk_destroy(old);
        if (d) ped_disk_destroy(d);
        return ok;
    }
    if (k.kind == K_MKPART || k.kind == K_RESIZE) return -1;
    if (!w.load()) return 0;
    if (k.kind == K_DSET) {
        PedDiskFlag f = (PedDiskFlag)k.flag;
        if (!ped_disk_is_flag_available(w.disk, f)) return 0;
        return ped_disk_set_flag(w.disk, f, k.toggle ? !ped_disk_get_flag(w.disk, f) : k.state) && ped_disk_commit(w.disk);
    }
    PedPartition *p = ped_disk_get_partition(w.disk, k.num);
    if (!p) return 0;
    switch (k.kind) {
    case K_RM: return ped_disk_delete_partition(w.disk, p) && ped_disk_commit(w.disk);
    case K_NAME:
        if (!valid_utf8(k.arg)) return -1;
        if (w.disk->type->name == std::string("dvh") && !(p->type & PED_PARTITION_LOGICAL) && !k.arg.empty()) return 0;   // only boot files have names
        if (!ped_disk_type_check_feature(w.disk->type, PED_DISK_TYPE_PARTITION_NAME) || !ped_partition_set_name(p, k.arg.c_str())) return 0;
        if (k.arg.find_first_not_of(' ') != std::string::npos && !*ped_partition_get_name(p)) return 0;   // cannot be translated
        return ped_disk_commit(w.disk);
    case K_SET: {
        PedPartitionFlag f = (PedPartitionFlag)k.flag;
        if (!ped_partition_is_flag_available(p, f)) return 0;
        return ped_partition_set_flag(p, f, k.toggle ? !ped_partition_get_flag(p, f) : k.state) && ped_disk_commit(w.disk);
    }
    case K_TYPE:
        if (ped_disk_type_check_feature(w.disk->type, PED_DISK_TYPE_PARTITION_TYPE_ID)) {
            std::string x = k.arg;
            if (x.size() > 2 && x.compare(0, 2, "0x") == 0) x = x.substr(2);
            if (x.empty() || x.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) return x.find('-', 1) == std::string::npos ? 0 : -1;
            while (x.size() > 1 && x[0] == '0') x = x.substr(1);
            if (x.size() > 2 || x == "0") return 0;
            if (!ped_partition_set_type_id(p, (uint8_t)strtol(x.c_str(), nullptr, 16))) return 0;
        } else if (ped_disk_type_check_feature(w.disk->type, PED_DISK_TYPE_PARTITION_TYPE_UUID)) {
            uuid_t u;
            if (uuid_parse(k.arg.c_str(), u) || uuid_is_null(u)) return 0;
            if (!ped_partition_set_type_uuid(p, u)) return 0;
        } else return 0;
        p->fs_type = ped_file_system_probe(&p->geom);
        return ped_disk_commit(w.disk);
    default: return -1;
    }
}
static std::string no_uuid(DSnap a, DSnap b) {
    for (DSnap *d : {&a, &b}) { d->uuid.clear(); for (auto &p : d->parts) p.uuid.clear(); }
    return rt_diff(a, b, false);
}
// align-check in script mode answers with its exit status alone
static bool only_status(const std::vector<std::string> &w) {
    for (auto &x : w) if (x.compare(0, 2, "al") == 0) return true;
    return false;
}
static void c24_common(Ctx &c, const CliRun &r, const std::vector<std::string> &w, bool fault = false) {
    cli_alive(c, "C24", r);
    if (r.asked) c.fail("C24:asks", "in script mode, standard input was read: %s", r.out.substr(0, 400).c_str());
    if (r.status > 1) c.fail("C24:status", "exit status %d", r.status);
    if (r.status == 0 && r.err.find("Error:") != std::string::npos && r.err.find("partition name to :") == std::string::npos && !fault && std::find(w.begin(), w.end(), "all") == w.end() && std::find(w.begin(), w.end(), "list") == w.end()) c.fail("C24:error-success", "an error is reported, but the exit status is 0: %s", r.err.c_str());
    if (r.status == 1 && !only_status(w) && r.err.empty() && r.out.find("Usage") == std::string::npos && r.out.find("make sense") == std::string::npos)
        c.fail("C24:silent", "exit status 1 without a message; output: %s", r.out.substr(0, 300).c_str());
}
static std::vector<std::string> quoted(const std::vector<std::string> &w) {
    std::vector<std::string> r;
    for (auto &x : w) r.push_back(cli_quote(x));
    return r;
}
static void c24_history(Ctx &c) {
    World w(c);
    bool have = !c.chance(1, 8);
    if (have) { if (!clean_world(w, c, 3)) c.discard(); }
    else { w.reset(); w.gen_device("msdos"); if (!w.dev) c.discard(); }
    MemDev *m = w.m;
    DSnap cur;
    if (have) cur = snap(w.disk);
    auto img0 = m->data;
    uint64_t rng0 = det_rng();
    std::vector<std::string> opts = {"-s"}, all;
    if (c.chance(1, 3)) opts.push_back(c.pickl<const char *>({"-anone", "-amin", "-acyl", "-m", "-j"}));
    opts.insert(opts.end(), {"--", m->path});
    PedUnit unit = PED_UNIT_COMPACT;
    int status = 0, ran = 0;
    for (Steps st(c, 4); st.next();) {
        if (!w.dev) w.reopen();
        Cmd k = gen_cmd(c, w, have ? &cur : nullptr, unit);
        w.close();
        auto pre = m->data;
        uint64_t pre_rng = det_rng();
        auto words = quoted(k.w);
        auto a = opts;
        if (unit != PED_UNIT_COMPACT) a.insert(a.end(), {"unit", ped_unit_get_name(unit)});
        a.insert(a.end(), words.begin(), words.end());
        if (k.kind == K_MKLABEL && m->length < 4ll * m->geom.heads * m->geom.sectors && k.arg != "gpt" && k.arg != "msdos" && k.arg != "loop") c.discard();   // no cylinder to put anything in
        CliRun r = cli_run(c, {m}, a, "yes\nyes\n1\n");
        c24_common(c, r, a);
        ran++;
        MemDev old = *m;
        old.data = pre;
        PedSector at;
        bool leftover = k.kind != K_BAD && r.out.find("Usage") != std::string::npos;   // a first command was carried out
        if (leftover) c.discard();
        if (r.status && !m->same(old, &at)) c.fail("C24:failed-writes", "the failed command changed sector %lld", (long long)at);
        if (k.ro() && r.writes) c.fail("C24:read-only-writes", "%s writes to the device", k.w[0].c_str());
        if (k.kind == K_BAD && !r.status) c.fail("C24:unknown-command", "an unknown command is a success");
        if (k.kind == K_PRINT && have && r.status) c.fail("C24:print-fails", "print of a readable table exits with %d: %s", r.status, r.err.c_str());
        if (k.kind == K_INFO && r.status) c.fail("C24:info-fails", "%s exits with %d", k.w[0].c_str(), r.status);
        if (k.kind == K_UNIT) {
            int u = -1;
            for (auto x : UNITS) if (k.w[1] == ped_unit_get_name(x)) u = x;
            if (u >= 0 && r.status) c.fail("C24:unit-fails", "unit %s is refused", k.w[1].c_str());
            if (!r.status && u >= 0) unit = (PedUnit)u;
            if (!r.status && u < 0) c.discard();   // an abbreviation
        }
        if (!k.ro()) {   // the library's own answer
            auto post = m->data;
            uint64_t post_rng = det_rng();
            m->data = pre;
            det_rng() = pre_rng;
            g_policy = EXC_UNHANDLED;
            w.reopen();
            exc_clear();
            int ok = lib_cmd(w, k);
            std::string ex = exc_dump();
            w.close();
            g_policy = EXC_CANCEL;
            if (ok >= 0) {
                if (ok != !r.status) c.fail(ok ? "C24:refused" : "C24:accepted", "%s exits with %d, the library call %s\n%s", k.w[0].c_str(), r.status, ok ? "succeeds" : "fails", ex.c_str());
                MemDev lib = *m;
                m->data = post;
                if (ok && !m->same(lib, &at)) c.fail("C24:differs", "%s leaves another image than the library call (sector %lld)", k.w[0].c_str(), (long long)at);
                c.cls(fmt("%s:%s", k.w[0].c_str(), ok ? "done" : "refused"));
            } else c.cls(fmt("%s:%s", k.w[0].c_str(), r.status ? "failed" : "done"));
            m->data = post;
            det_rng() = post_rng;
            if (!r.status) c.nontrivial = true;
        } else c.cls(k.kind == K_BAD ? "unknown" : k.w[0]);
        all.insert(all.end(), words.begin(), words.end());
        std::string told = k.kind == K_MKLABEL ? k.arg : have ? cur.label : "";
        status = r.status;
        w.reopen();
        exc_clear();
        have = w.load();
        bool complained = !g_exc.empty();
        if (have) { cur = snap(w.disk); w.label = cur.label; }
        // from here the program with the table in memory may know more than one that reads it
        if (status || (have && (complained || !readable(cur) || cur.label != told || (cur.label == "loop" && !k.ro()))) || (!have && !k.ro())) break;
    }
    w.close();
    if (ran < 2) return;
    for (auto &x : all) if (!valid_utf8(x)) return;   // the whole command line is translated first
    auto split = m->data;
    m->data = img0;
    det_rng() = rng0;
    auto a = opts;
    a.insert(a.end(), all.begin(), all.end());
    CliRun r = cli_run(c, {m}, a, "yes\nyes\n1\n");
    c24_common(c, r, a);
    if (r.status != status) c.fail("C24:combined-status", "one by one the commands end with exit status %d, together with %d: %s", status, r.status, r.err.c_str());
    MemDev one = *m;
    one.data = split;
    PedSector at;
    if (!m->same(one, &at)) {
        DSnap s[2];
        bool ok[2];
        auto both = m->data;
        for (int i = 0; i < 2; i++) {
            m->data = i ? both : split;
            w.reopen();
            if ((ok[i] = w.load())) s[i] = snap(w.disk);
            w.close();
        }
        std::string d = ok[0] != ok[1] ? "one of them cannot be read" : ok[0] ? no_uuid(s[0], s[1]) : "";
        if (!d.empty()) c.fail("C24:combined", "the commands given together do not do what they do one by one: %s", d.c_str());
        c.cls("bytes-differ");
    }
    c.cls(fmt("%d commands, %s", ran, status ? "last fails" : "all succeed"));
}
static void c24_fault(Ctx &c) {
    World w(c);
    if (!clean_world(w, c, 3)) c.discard();
    MemDev *m = w.m;
    DSnap cur = snap(w.disk);
    Cmd k = gen_cmd(c, w, &cur, PED_UNIT_COMPACT);
    if (k.ro()) c.discard();
    if (k.kind == K_MKLABEL && m->length < 4ll * m->geom.heads * m->geom.sectors) c.discard();
    w.close();
    std::vector<std::string> a = {"-s", "--", m->path};
    for (auto &x : quoted(k.w)) a.push_back(x);
    auto pre = m->data;
    uint64_t rng = det_rng();
    CliRun dry = cli_run(c, {m}, a);
    c24_common(c, dry, a);
    if (dry.status) c.discard();
    size_t nw = 0, ns = 0;
    for (auto &x : m->log) (x.sync ? ns : nw)++;
    MemDev good = *m;
    m->data = pre;
    det_rng() = rng;
    m->nofault();
    m->fail_kind = c.weighted({0, 1, 5, 1});
    size_t n = m->fail_kind == 2 ? nw : m->fail_kind == 3 ? ns : 60;
    if (!n) c.discard();
    m->fail_op = c.draw(n - 1);
    m->fail_sticky = c.chance(1, 3);
    c.note("%s %lld fails%s", m->fail_kind == 1 ? "read" : m->fail_kind == 2 ? "write" : "sync", (long long)m->fail_op, m->fail_sticky ? " for good" : "");
    int kind = m->fail_kind;
    CliRun r = cli_run(c, {m}, a, "yes\nyes\n1\n");
    m->nofault();
    c24_common(c, r, a, true);
    if (r.fired && !r.status) {
        if (kind != 1) c.fail("C24:fault-success", "a %s failed, but %s exits with 0; messages: %s", kind == 2 ? "write" : "sync", k.w[0].c_str(), r.err.c_str());
        PedSector at;
        if (k.kind != K_MKLABEL && !m->same(good, &at)) c.fail("C24:fault-wrong", "a read failed, and %s exits with 0 but leaves another image (sector %lld)", k.w[0].c_str(), (long long)at);
    }
    if (r.fired) { c.cls(fmt("%s:fault", k.w[0].c_str())); c.nontrivial = true; }
}
static void c24_junk(Ctx &c) {
    World w(c);
    std::string lab = gen_label(c);
    w.reset();
    w.gen_device(lab);
    if (!w.dev) c.discard();
    int state = c.weighted({3, 2, 1});
    DSnap cur;
    bool have = false;
    if (state < 2) {
        if (!w.make_label(lab)) c.discard();
        for (Steps st(c, 3); st.next();) w.op();
        w.m->resetlog();
        if (!w.commit()) c.discard();
        cur = snap(w.disk);
        have = true;
        auto sect = written(*w.m);
        if (state == 1) {
            damage(w, c, sect, 1 + c.draw(3));
            if (c.chance(1, 2)) fix_sums(w, c, lab, sect);
        }
    }
    MemDev *m = w.m;
    MemDev *m2 = mem_new(4096, 512);
    std::vector<std::string> a;
    if (c.chance(9, 10)) a.push_back("-s");
    bool script = !a.empty();
    while (c.chance(1, 4)) a.push_back(c.pickl<const char *>({"-m", "-j", "-f", "--fix", "-anone", "-acyl", "-aopt", "-amin", "-l", "-v", "-h", "--align=bogus", "--bogus", "-a", "--json", "--machine", "--script", "--list"}));
    bool dashes = c.chance(3, 4);
    if (dashes) a.push_back("--");
    a.push_back(m->path);
    bool ro = true;
    int ncmd = 0;
    for (Steps st(c, 3); st.next(); ncmd++) {
        std::vector<std::string> ws;
        if (c.chance(1, 4)) {
            ws = {c.pickl<const char *>({"print", "unit", "mklabel", "mkpart", "rm", "name", "set", "toggle", "disk_set", "disk_toggle", "type", "resizepart", "align-check", "version", "help", "quit", "select", "resize", "rescue", "p", "mk", "s", "?"})};
            ro = false;
        } else {
            Cmd k = gen_cmd(c, w, have ? &cur : nullptr, PED_UNIT_COMPACT);
            ro &= k.ro();
            ws = k.w;
        }
        while (c.chance(1, 4)) {
            size_t at = c.draw(ws.size());
            switch (c.draw(2)) {
            case 0: ws.insert(ws.begin() + at, junk_word(c)); ro = false; break;
            case 1: if (ws.size() > 1 && at < ws.size()) { ws.erase(ws.begin() + at); if (at == 0) ro = false; } break;
            default: if (at < ws.size()) { ws[at] = junk_word(c); ro = false; }
            }
        }
        if (!ws.empty() && ws[0] == "rescue" && m->length > 6000) ws[0] = "print";   // minutes of probing
        if (ws.size() && ws[0] == "select") { ws.resize(1); ws.push_back(c.pickl<std::string>({m2->path, m->path})); }
        bool raw = c.chance(1, 6);
        for (auto &x : ws) { bool hasnul = false; (void)hasnul; a.push_back(raw ? x : cli_quote(x)); }
    }
    w.close();
    for (auto &x : a) x = x.substr(0, x.find('\0'));
    auto pre = m->data;
    CliRun r = cli_run(c, {m, m2}, a, "yes\nno\n1\n\nFix\nIgnore\n", 60);
    cli_alive(c, "C24", r);
    if (script && r.asked) c.fail("C24:asks", "in script mode, standard input was read: %s", r.out.substr(0, 400).c_str());
    if (r.status > 1) c.fail("C24:status", "exit status %d", r.status);
    if (r.status == 1 && !only_status(a) && r.err.empty() && r.out.find("Usage") == std::string::npos && r.out.find("make sense") == std::string::npos)
        c.fail("C24:silent", "exit status 1 without a message; output: %s", r.out.substr(0, 300).c_str());
    bool fix = false;
    for (auto &x : a) fix |= x == "-f" || x == "--fix";
    if (script && ro && !fix && r.writes) c.fail("C24:read-only-writes", "nothing but reports was asked for, but the device is written");
    c.cls(r.status ? "junk:failed" : "junk:accepted");
    if (r.writes) c.cls("junk:wrote");
    c.nontrivial = true;
}
static void c24(Ctx &c) {
    switch (c.weighted({5, 3, 4})) {
    case 0: c24_history(c); break;
    case 1: c24_fault(c); break;
    default: c24_junk(c);
    }
}

// ---------------------------------------------------------------- C31
struct Offer { PedSector s, e; };
static std::vector<Offer> offers(const std::string &t) {
    std::vector<Offer> v;
    for (size_t p = 0; (p = t.find("was found at ", p)) != std::string::npos;) {
        long long a, b;
        p += 13;
        if (sscanf(t.c_str() + p, "%llds -> %llds", &a, &b) == 2) v.push_back({a, b});
    }
    return v;
}
static void c31(Ctx &c) {
    if (g_tpl.empty()) load_templates();
    World w(c);
    std::string lab = c.weighted({4, 4, 2}) == 0 ? "msdos" : c.chance(1, 2) ? "gpt" : c.pickl<const char *>({"mac", "bsd", "msdos", "gpt"});
    w.reset();
    w.gen_device(lab);
    MemDev *m = w.m;
    static const std::set<std::string> own = {"ext2", "ext3", "ext4", "fat16", "fat32", "hfs", "hfsplus", "hfsx", "jfs", "ntfs", "reiserfs", "xfs", "swap", "ufs-sun", "ufs-hp", "minix"};
    bool any = c.chance(1, 20);
    std::vector<const Template *> ts;
    for (auto &x : g_tpl) if (any || own.count(x.name)) ts.push_back(&x);
    const Template &t = *c.pick(ts);
    long long k = m->ss / 512;
    PedSector need = (t.total + k - 1) / k, len = need + c.range(700, 900) + c.biased(0, 3000);
    if (need > 100000) c.discard();
    m->bg = 0;
    w.close();
    set_len(m, len);
    c.note("device of %lld sectors, file system %s of %lld", (long long)len, t.name.c_str(), (long long)need);
    w.reopen();
    if (!w.make_label(lab)) c.discard();
    PedSector s = c.biased(lab == "gpt" ? 34 : 1, len - need - (lab == "gpt" ? 34 : 1));
    // what is around it
    bool logical = false;
    bool hasext = ped_disk_type_check_feature(w.disk->type, PED_DISK_TYPE_EXTENDED) && lab == "msdos";
    if (ped_disk_is_flag_available(w.disk, PED_DISK_CYLINDER_ALIGNMENT)) ped_disk_set_flag(w.disk, PED_DISK_CYLINDER_ALIGNMENT, 0);
    auto add = [&](int type, PedSector a, PedSector b) -> PedPartition * {
        PedPartition *p = ped_partition_new(w.disk, (PedPartitionType)type, nullptr, a, b);
        if (!p) return nullptr;
        PedGeometry g;
        ped_geometry_init(&g, w.dev, a, b - a + 1);
        PedConstraint *x = ped_constraint_exact(&g);
        bool ok = ped_disk_add_partition(w.disk, p, x) && p->geom.start == a && p->geom.end == b;
        ped_constraint_destroy(x);
        if (!ok) {
            if (p->num > 0) ped_disk_delete_partition(w.disk, p); else ped_partition_destroy(p);
            return nullptr;
        }
        return p;
    };
    if (hasext && c.chance(1, 2)) {
        PedSector a = c.range(std::max<PedSector>(1, s - 300), s - 1), b = c.range(s + need - 1, std::min<PedSector>(len - 1, s + need + 400));
        if (a >= 1 && a < s) logical = add(PED_PARTITION_EXTENDED, a, b) != nullptr;
    }
    for (auto &x : t.sec) put512(m, s * k + x.first, x.second.data());
    PedGeometry g;
    ped_geometry_init(&g, w.dev, s, len - s);
    const PedFileSystemType *ft = ped_file_system_probe(&g);
    if (!ft) c.discard();
    PedGeometry *pr = ped_file_system_probe_specific(ft, &g);
    if (!pr) c.discard();
    PedSector e = pr->end;
    bool atstart = pr->start == s;
    ped_geometry_destroy(pr);
    if (!atstart || e == len - 1 || e >= s + need + 8) c.discard();   // records no extent of its own
    ped_geometry_init(&g, w.dev, s, e - s + 1);
    if (ped_file_system_probe(&g) != ft || !(pr = ped_file_system_probe_specific(ft, &g))) c.discard();
    bool exact = pr->start == s && pr->end == e;
    ped_geometry_destroy(pr);
    if (!exact) c.discard();
    // neighbours
    PedPartition *target = add(logical ? PED_PARTITION_LOGICAL : 0, s, e);
    if (!target) { c.cls("not-addable:" + lab); c.discard(); }
    ped_partition_set_system(target, ft);
    if (s > 40 && c.chance(1, 2)) { PedSector a = c.range(s / 2, s - 5); add(logical ? PED_PARTITION_LOGICAL : 0, a, c.range(a, s - 2)); }
    if (e + 40 < len && c.chance(1, 2)) { PedSector a = c.range(e + 2, e + 5 + (len - e) / 3); if (a + 2 < len) add(logical && c.chance(1, 2) ? PED_PARTITION_LOGICAL : 0, a, c.range(a, std::min(len - 2, a + 100))); }
    int num = target->num, ptype = target->type;
    if (!readable(snap(w.disk)) || !w.commit()) c.discard();
    for (auto &x : t.sec) put512(m, s * k + x.first, x.second.data());
    w.reopen();
    exc_clear();
    if (!w.load() || !g_exc.empty()) c.discard();
    target = ped_disk_get_partition(w.disk, num);
    if (!target || target->geom.start != s || target->geom.end != e) c.discard();
    if (!ped_disk_delete_partition(w.disk, target) || !w.commit()) c.discard();
    for (auto &x : t.sec) put512(m, s * k + x.first, x.second.data());   // a file system is not damaged by its deletion: the label's traces are not its business
    w.reopen();
    exc_clear();
    if (!w.load() || !g_exc.empty()) c.discard();
    DSnap before = snap(w.disk);
    {   // still recognised as the same, seen from its start to the end of the free space around it
        PedPartition *fp = ped_disk_get_partition_by_sector(w.disk, s);
        if (!fp || !(fp->type & PED_PARTITION_FREESPACE) || fp->geom.end < e) c.discard();
        ped_geometry_init(&g, w.dev, s, fp->geom.end - s + 1);
        if (ped_file_system_probe(&g) != ft || !(pr = ped_file_system_probe_specific(ft, &g))) c.discard();
        exact = pr->start == s && pr->end == e;
        ped_geometry_destroy(pr);
        if (!exact) c.discard();
    }
    w.close();
    auto img = m->data;
    // the range around the old boundaries: 16 MB either way
    PedSector fuzz = 1000000 / m->ss * 16;
    bool fast = len > 20000;
    PedSector S, E;
    if (fast) {   // start searching shortly before it
        S = std::min(s + fuzz - c.range(0, 60), len - 1);
        if (S - fuzz > s) c.discard();
        if (S - fuzz < s - 200 && s > 200) c.discard();
    } else S = c.chance(1, 2) ? s : c.range(std::max<PedSector>(0, s - fuzz + 1), std::min<PedSector>(len - 1, s + fuzz));
    E = c.chance(1, 2) ? e : c.range(std::max<PedSector>(e - fuzz + 1, 0), std::min<PedSector>(len - 1, e + fuzz));
    if (E < S) { if (S <= e) E = e; else E = S; }
    if (c.chance(1, 4) && !fast) { S = 0; E = len - 1; }
    if (!(S - fuzz <= s && s < S + fuzz && E + fuzz > e)) c.discard();
    if (logical && c.chance(1, 1)) { if ((S + E) / 2 < s || (S + E) / 2 > e) { S = fast ? S : s; E = e; if ((S + E) / 2 < s) c.discard(); } }
    else if (hasext) {   // the middle of the range says whether a logical partition is looked for
        for (auto &p : before.parts) if ((p.type & PED_PARTITION_EXTENDED) && (S + E) / 2 >= p.s && (S + E) / 2 <= p.e && !(ptype & PED_PARTITION_LOGICAL)) c.discard();
    }
    std::vector<std::string> a = {"---pretend-input-tty", "--", m->path, "unit", "s", "rescue", fmt("%llds", (long long)S), fmt("%llds", (long long)E)};
    c.note("lost: [%lld,%lld]", (long long)s, (long long)e);
    auto unchanged = [&](const char *what) {
        MemDev old = *m;
        old.data = img;
        PedSector at;
        if (!m->same(old, &at)) c.fail("C31:declined-writes", "%s, but sector %lld changed", what, (long long)at);
    };
    size_t idx = 0;
    if (!fast) {
        std::string no;
        for (int i = 0; i < 400; i++) no += "no\n";
        CliRun r = cli_run(c, {m}, a, no, 120);
        cli_alive(c, "C31", r);
        unchanged("every offer was declined");
        auto o = offers(r.out + r.err);
        if (r.status && o.size() < 390) c.fail("C31:declined-fails", "every offer was declined, and rescue exits with %d: %s", r.status, r.err.c_str());
        for (; idx < o.size(); idx++) if (o[idx].s == s && o[idx].e == e) break;
        if (idx == o.size()) c.fail("C31:not-offered", "the lost partition [%lld,%lld] is not offered (%zu offers): %s%s", (long long)s, (long long)e, o.size(), r.out.substr(0, 600).c_str(), r.err.substr(0, 600).c_str());
        for (auto &x : o)
            for (auto &p : before.parts)
                if (!(p.type & PED_PARTITION_EXTENDED) && x.s <= p.e && x.e >= p.s) c.fail("C31:overlap", "[%lld,%lld] is offered, which overlaps partition %d", (long long)x.s, (long long)x.e, p.num);
        if (idx) c.cls("offers-before");
        if (c.chance(1, 6)) {
            r = cli_run(c, {m}, a, "cancel\n", 120);
            cli_alive(c, "C31", r);
            unchanged("the offer was cancelled");
            c.cls("cancelled");
        }
    }
    std::string ans;
    for (size_t i = 0; i < idx; i++) ans += "no\n";
    CliRun r = cli_run(c, {m}, a, ans + "yes\n", 120);
    cli_alive(c, "C31", r);
    auto o = offers(r.out + r.err);
    if (fast && !o.empty() && o[0].s != s) { c.cls("something-else-first"); c.discard(); }
    if (r.status) c.fail("C31:fails", "rescue exits with %d: %s", r.status, r.err.c_str());
    DSnap after = reread(w, c, "C31");
    PSnap *n = nullptr;
    DSnap x = after;
    for (size_t i = 0; i < after.parts.size(); i++) if (after.parts[i].s == s && after.parts[i].e == e && !(after.parts[i].type & PED_PARTITION_EXTENDED)) { n = &after.parts[i]; }
    if (!n) c.fail("C31:not-restored", "no partition at [%lld,%lld] afterwards: %s", (long long)s, (long long)e, show(after).c_str());
    if (n->type != ptype) c.fail("C31:type", "the partition had type %d, now %d", ptype, n->type);
    if (after.parts.size() != before.parts.size() + 1) c.fail("C31:count", "%zu partitions before, %zu afterwards", before.parts.size(), after.parts.size());
    for (auto &p : before.parts) {
        bool found = false;
        for (auto &q : after.parts) if (q.s == p.s && q.e == p.e && q.type == p.type && (q.num == p.num || (p.type & PED_PARTITION_LOGICAL)) && q.name == p.name && q.type_id == p.type_id && q.type_uuid == p.type_uuid && q.uuid == p.uuid) found = true;
        if (!found) c.fail("C31:others", "partition %d [%lld,%lld] is not as it was", p.num, (long long)p.s, (long long)p.e);
    }
    c.cls(std::string(ptype & PED_PARTITION_LOGICAL ? "logical:" : "primary:") + ft->name);
    c.cls("label:" + lab);
    c.mix(s); c.mix(e); c.mix(S); c.mix(E); c.mix(m->ss);
    c.nontrivial = true;
}

int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {
        {"C24", c24, 6000, 120000, "a command succeeded in changing the device, an injected fault was hit, or a malformed command line was run"},
        {"C31", c31, 400, 12000, "the lost partition was restored", load_templates},
        {"C25", c25, 9000, 100000, "a partition was made or resized, or an alignment judged"},
        {"C23", c23, 4000, 60000, "the listed table has at least one partition", load_templates},
    });
}
