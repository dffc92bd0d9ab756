// C16 arithmetic, C17 constraints, C18 units, C32 exceptions: the pure parts of the library
// against reference implementations (brute force, 128-bit arithmetic, exact decimal text).
#include "hist.h"
#include <ctype.h>
#include <math.h>
#include <numeric>
#include <unistd.h>
typedef __int128 i128;
typedef long double ld;
static std::string s128(i128 v) {
    if (!v) return "0";
    bool n = v < 0;
    std::string r;
    for (unsigned __int128 u = n ? -(unsigned __int128)v : v; u; u /= 10) r.insert(r.begin(), (char)('0' + (int)(u % 10)));
    return (n ? "-" : "") + r;
}
static i128 fdiv(i128 a, i128 b) { i128 q = a / b; return a % b && (a < 0) != (b < 0) ? q - 1 : q; }
static i128 fmod_(i128 a, i128 b) { return a - fdiv(a, b) * b; }
static PedDevice *pure_dev(Ctx &c, PedSector len, long long ss) {
    memarch_install();
    exc_install();
    mem_free_all();
    exc_clear();
    MemDev *m = mem_new(len, ss);
    m->geom = {1, (int)c.pickl({1, 16, 255, 3}), (int)c.pickl({1, 63, 32, 7})};
    m->geom.cylinders = (int)std::min<PedSector>(std::max<PedSector>(1, len / (m->geom.heads * m->geom.sectors)), INT32_MAX);
    return mem_open(m);
}
struct DevGuard { PedDevice *d; ~DevGuard() { mem_close(d); } };

// ---------------------------------------------------------------- C16
static i128 ref_up(i128 s, i128 g) { return -fdiv(-s, g) * g; }
static i128 ref_down(i128 s, i128 g) { return fdiv(s, g) * g; }
// smallest aligned >= s / largest aligned <= s
static i128 ref_next(const PedAlignment &a, i128 s) { return ref_up(s - a.offset, a.grain_size) + a.offset; }
static i128 ref_prev(const PedAlignment &a, i128 s) { return ref_down(s - a.offset, a.grain_size) + a.offset; }

static void round_part(Ctx &c) {
    const int64_t M = 1ll << 61;
    PedSector s = c.chance(1, 3) ? c.range(-40, 40) : c.biased(0, M) * (c.chance(1, 3) ? -1 : 1);
    PedSector g = c.chance(1, 2) ? c.range(1, 30) : c.biased(1, M);
    PedSector u = ped_round_up_to(s, g), d = ped_round_down_to(s, g), n = ped_round_to_nearest(s, g);
    c.note("round %lld to %lld: up %lld down %lld nearest %lld", (long long)s, (long long)g, (long long)u, (long long)d, (long long)n);
    c.mix(s); c.mix(g);
    if (ref_up(s, g) != u) c.fail("C16:round-up", "%lld up to a multiple of %lld is %lld, not %s", (long long)s, (long long)g, (long long)u, s128(ref_up(s, g)).c_str());
    if (ref_down(s, g) != d) c.fail("C16:round-down", "%lld down to a multiple of %lld is %lld, not %s", (long long)s, (long long)g, (long long)d, s128(ref_down(s, g)).c_str());
    i128 best = std::min<i128>((i128)u - s, (i128)s - d), dist = n > s ? (i128)n - s : (i128)s - n;
    if ((n != u && n != d) || dist != best) c.fail("C16:round-nearest", "%lld to a multiple of %lld gives %lld", (long long)s, (long long)g, (long long)n);
    PedSector a = s < 0 ? -s : s;
    PedSector k = ped_greatest_common_divisor(a, g);
    if (k != std::gcd(a, g)) c.fail("C16:gcd", "gcd(%lld,%lld) = %lld", (long long)a, (long long)g, (long long)k);
    if (g > 1 && s % g) c.nontrivial = true;
    c.cls("rounding");
}
static PedAlignment gen_align(Ctx &c, bool big) {
    PedAlignment a;
    PedSector g = c.chance(1, 8) ? 0 : big ? c.biased(1, 1ll << c.range(2, 62)) : c.range(1, 24);
    PedSector o = big ? c.biased(0, 1ll << c.range(2, 62)) : c.range(0, 40);
    if (g && c.chance(1, 4)) o = -o;
    if (!ped_alignment_init(&a, o, g)) c.fail("C16:align-init", "ped_alignment_init(%lld,%lld) fails", (long long)o, (long long)g);
    if (a.grain_size != g || (g ? a.offset != fmod_(o, g) : a.offset != o)) c.fail("C16:align-init", "ped_alignment_init(%lld,%lld) gives (%lld,%lld)", (long long)o, (long long)g, (long long)a.offset, (long long)a.grain_size);
    c.mix(a.offset); c.mix(a.grain_size);
    return a;
}
static bool in_al(const PedAlignment *a, i128 s) { return a && (a->grain_size ? fmod_(s - a->offset, a->grain_size) == 0 : s == a->offset); }
static void intersect_part(Ctx &c) {
    bool big = c.chance(1, 2);
    PedAlignment a = gen_align(c, big), b = gen_align(c, big);
    if (c.chance(1, 3) && a.grain_size && b.grain_size) {   // make it solvable
        PedSector g = std::gcd(a.grain_size, b.grain_size);
        b.offset = (PedSector)fmod_((i128)a.offset + (i128)g * c.range(0, 1000), b.grain_size);
    }
    PedAlignment *r = ped_alignment_intersect(&a, &b);
    c.note("(%lld mod %lld) and (%lld mod %lld) -> %s", (long long)a.offset, (long long)a.grain_size, (long long)b.offset, (long long)b.grain_size, r ? fmt("(%lld mod %lld)", (long long)r->offset, (long long)r->grain_size).c_str() : "none");
    struct G { PedAlignment *r; ~G() { ped_alignment_destroy(r); } } gd{r};
    auto bad = [&](const char *why) { c.fail("C16:intersect", "(%lld mod %lld) and (%lld mod %lld) give %s: %s", (long long)a.offset, (long long)a.grain_size, (long long)b.offset, (long long)b.grain_size, r ? fmt("(%lld mod %lld)", (long long)r->offset, (long long)r->grain_size).c_str() : "none", why); };
    if (!big) {
        for (PedSector s = 0; s < 1300; s++)
            if ((in_al(&a, s) && in_al(&b, s)) != (r && ped_alignment_is_aligned(r, nullptr, s))) bad(fmt("differs at %lld", (long long)s).c_str());
        if (a.grain_size > 1 && b.grain_size > 1) c.nontrivial = true;
    } else {
        if (r && (!in_al(&a, r->offset) || !in_al(&b, r->offset))) bad("its offset is not in both");
        if (r && r->offset < 0) bad("negative offset");
        if (!a.grain_size || !b.grain_size) {
            PedSector s = a.grain_size ? b.offset : a.offset;
            bool both = in_al(&a, s) && in_al(&b, s);
            if (both != (r != nullptr)) bad("wrong about the only candidate");
            if (r && (r->grain_size || r->offset != s)) bad("not the only candidate");
        } else {
            PedSector g = std::gcd(a.grain_size, b.grain_size);
            i128 lcm = (i128)a.grain_size / g * b.grain_size;
            bool solvable = fmod_((i128)a.offset - b.offset, g) == 0;
            if (!solvable && r) bad("there is no solution");
            if (solvable) {
                // Chinese remainder by 128-bit arithmetic: x = a.o + a.g*t, t = (b.o-a.o)/g * inv(a.g/g) mod b.g/g
                i128 m = b.grain_size / g, ag = fmod_(a.grain_size / g, m), t0 = 0, t1 = 1, r0 = m, r1 = ag;
                while (r1) { i128 q = r0 / r1; i128 x = r0 - q * r1; r0 = r1; r1 = x; x = t0 - q * t1; t0 = t1; t1 = x; }
                i128 t = m == 1 ? 0 : fmod_(fmod_(((i128)b.offset - a.offset) / g, m) * fmod_(t0, m), m);
                i128 x = (i128)a.offset + (i128)a.grain_size * t;   // smallest >= a.offset, below a.offset + lcm
                x = fmod_(x, lcm);
                if (x <= INT64_MAX && !r) bad(("misses " + s128(x)).c_str());
                if (x > INT64_MAX && r) bad("no solution is a sector number");
                if (r && fmod_((i128)r->offset - x, lcm)) bad("wrong residue");
                if (r && r->offset != x) bad("a smaller solution is missed");
                if (r && r->grain_size != lcm && !(r->grain_size == 0 && x + lcm > INT64_MAX)) bad(("period is " + s128(lcm)).c_str());
                c.nontrivial = true;
            }
        }
    }
    c.cls(big ? "intersect-big" : "intersect-small");
}
static void align_part(Ctx &c) {
    bool big = c.chance(1, 2);
    PedSector L = big ? c.biased(1, 1ll << 62) : c.range(1, 60);
    PedDevice *d = pure_dev(c, L, 512);
    DevGuard dg{d};
    PedAlignment a;
    PedSector g = c.chance(1, 8) ? 0 : big ? c.biased(1, 1ll << 61) : c.range(1, 30);
    ped_alignment_init(&a, big ? c.biased(0, 1ll << 61) : c.range(0, 70), g);
    PedSector gs = c.biased(0, L - 1), ge = c.biased(gs, L - 1), s = big ? c.biased(0, 1ll << 62) : c.range(0, 80);
    PedGeometry geom;
    ped_geometry_init(&geom, d, gs, ge - gs + 1);
    c.mix(a.offset); c.mix(a.grain_size); c.mix(gs); c.mix(ge); c.mix(s);
    PedSector up = ped_alignment_align_up(&a, &geom, s), dn = ped_alignment_align_down(&a, &geom, s), ne = ped_alignment_align_nearest(&a, &geom, s);
    c.note("align %lld to (%lld mod %lld) in [%lld,%lld]: up %lld down %lld nearest %lld", (long long)s, (long long)a.offset, (long long)a.grain_size, (long long)gs, (long long)ge, (long long)up, (long long)dn, (long long)ne);
    // the aligned sectors of the range
    i128 first, last;
    if (a.grain_size) { first = ref_next(a, gs); last = ref_prev(a, ge); }
    else { first = last = a.offset; if (a.offset < gs || a.offset > ge) last = first - 1; }
    bool none = first > last || first > ge || last < gs;
    auto bad = [&](const char *f, PedSector got, i128 want) { c.fail("C16:align", "%s(%lld; %lld mod %lld; [%lld,%lld]) = %lld, not %s", f, (long long)s, (long long)a.offset, (long long)a.grain_size, (long long)gs, (long long)ge, (long long)got, s128(want).c_str()); };
    i128 wu = -1, wd = -1;
    if (!none && !a.grain_size) wu = wd = a.offset;
    else if (!none) {
        wu = ref_next(a, std::max<i128>(s, gs)); if (wu > ge) wu = last;
        wd = ref_prev(a, std::min<i128>(s, ge)); if (wd < gs) wd = first;
    }
    if (up != wu) bad("align_up", up, wu);
    if (dn != wd) bad("align_down", dn, wd);
    if (none ? ne != -1 : ne != wu && ne != wd) bad("align_nearest", ne, wu);
    if (!none) {
        auto dist = [&](i128 x) { return x > s ? x - s : s - x; };
        if (dist(ne) > std::min(dist(wu), dist(wd))) bad("align_nearest", ne, dist(wu) < dist(wd) ? wu : wd);
        c.nontrivial = true;
    }
    for (PedSector x : {s, up, dn, ne}) if (x >= 0) {
        if (!!ped_alignment_is_aligned(&a, &geom, x) != (in_al(&a, x) && x >= gs && x <= ge)) c.fail("C16:is-aligned", "wrong about %lld", (long long)x);
        if (!!ped_alignment_is_aligned(&a, nullptr, x) != in_al(&a, x)) c.fail("C16:is-aligned", "wrong about %lld without range", (long long)x);
    }
    if (a.grain_size) {   // without a range
        PedSector q = ped_alignment_align_up(&a, nullptr, s), p = ped_alignment_align_down(&a, nullptr, s);
        if (q != ref_next(a, s)) bad("align_up without range", q, ref_next(a, s));
        if (p != ref_prev(a, s)) bad("align_down without range", p, ref_prev(a, s));
    }
    c.cls(none ? "align-none" : "align");
}
static void geom_part(Ctx &c) {
    bool big = c.chance(1, 3);
    PedSector L = big ? c.biased(4, INT64_MAX / 512) : c.range(1, 40);
    PedDevice *d = pure_dev(c, L, 512);
    DevGuard dg{d};
    auto gen = [&](PedGeometry *g) {
        PedSector s = c.biased(0, L - 1), n = c.biased(1, L - s);
        if (!ped_geometry_init(g, d, s, n)) c.fail("C16:geom-init", "[%lld,+%lld] refused", (long long)s, (long long)n);
        if (g->start != s || g->length != n || g->end != s + n - 1 || g->dev != d) c.fail("C16:geom-init", "[%lld,+%lld] stored as [%lld,%lld] length %lld", (long long)s, (long long)n, (long long)g->start, (long long)g->end, (long long)g->length);
        c.mix(s); c.mix(n);
    };
    PedGeometry a, b;
    gen(&a); gen(&b);
    c.note("a=[%lld,%lld] b=[%lld,%lld] on %lld", (long long)a.start, (long long)a.end, (long long)b.start, (long long)b.end, (long long)L);
    PedSector lo = std::max(a.start, b.start), hi = std::min(a.end, b.end);
    PedGeometry *x = ped_geometry_intersect(&a, &b);
    if ((x != nullptr) != (lo <= hi) || (x && (x->start != lo || x->end != hi || x->length != hi - lo + 1 || x->dev != d)))
        c.fail("C16:geom-intersect", "[%lld,%lld] and [%lld,%lld] give %s", (long long)a.start, (long long)a.end, (long long)b.start, (long long)b.end, x ? fmt("[%lld,%lld]", (long long)x->start, (long long)x->end).c_str() : "nothing");
    if (x) ped_geometry_destroy(x);
    if (!!ped_geometry_test_overlap(&a, &b) != (lo <= hi)) c.fail("C16:geom-overlap", "[%lld,%lld] and [%lld,%lld]", (long long)a.start, (long long)a.end, (long long)b.start, (long long)b.end);
    if (!!ped_geometry_test_inside(&a, &b) != (b.start >= a.start && b.end <= a.end)) c.fail("C16:geom-inside", "[%lld,%lld] around [%lld,%lld]", (long long)a.start, (long long)a.end, (long long)b.start, (long long)b.end);
    if (!!ped_geometry_test_equal(&a, &b) != (b.start == a.start && b.end == a.end)) c.fail("C16:geom-equal", "[%lld,%lld] and [%lld,%lld]", (long long)a.start, (long long)a.end, (long long)b.start, (long long)b.end);
    PedSector p = c.biased(0, L - 1);
    if (!!ped_geometry_test_sector_inside(&a, p) != (p >= a.start && p <= a.end)) c.fail("C16:geom-sector-inside", "%lld in [%lld,%lld]", (long long)p, (long long)a.start, (long long)a.end);
    // a sector of b as b counts, told as a counts
    PedSector rel = c.biased(0, b.length - 1), abs = b.start + rel;
    PedSector want = abs >= a.start && abs <= a.end ? abs - a.start : -1, got = ped_geometry_map(&a, &b, rel);
    if (got != want) c.fail("C16:geom-map", "sector %lld of [%lld,%lld] is %lld of [%lld,%lld], said to be %lld", (long long)rel, (long long)b.start, (long long)b.end, (long long)want, (long long)a.start, (long long)a.end, (long long)got);
    got = ped_geometry_map(&a, &b, b.length + c.range(0, 3));
    if (got != -1) c.fail("C16:geom-map", "a sector after the end of [%lld,%lld] is said to be %lld of [%lld,%lld]", (long long)b.start, (long long)b.end, (long long)got, (long long)a.start, (long long)a.end);
    // changes
    PedGeometry *t = ped_geometry_duplicate(&a);
    if (!t || !ped_geometry_test_equal(t, &a)) c.fail("C16:geom-duplicate", "duplicate differs");
    PedSector v = c.biased(0, L - 1);
    exc_clear();
    bool set_start = c.chance(1, 2);
    int ok = set_start ? ped_geometry_set_start(t, v) : ped_geometry_set_end(t, v);
    bool legal = set_start ? v <= a.end : v >= a.start;
    PedSector ws = legal && set_start ? v : a.start, we = legal && !set_start ? v : a.end;
    if (!!ok != legal || t->start != ws || t->end != we || t->length != we - ws + 1)
        c.fail("C16:geom-set", "set %s of [%lld,%lld] to %lld: %d, now [%lld,%lld] length %lld", set_start ? "start" : "end", (long long)a.start, (long long)a.end, (long long)v, ok, (long long)t->start, (long long)t->end, (long long)t->length);
    if (!ok && g_exc.empty()) c.fail("C16:geom-set-silent", "refused without a message");
    ped_geometry_destroy(t);
    if (lo <= hi && !(a.start == b.start && a.end == b.end)) c.nontrivial = true;
    c.cls("geometry");
}
static void c16(Ctx &c) {
    for (Steps st(c, 6); st.next();)
        switch (c.weighted({2, 3, 3, 3})) {
        case 0: round_part(c); break;
        case 1: intersect_part(c); break;
        case 2: align_part(c); break;
        default: geom_part(c);
        }
}

// ---------------------------------------------------------------- C17
struct Cons {
    PedAlignment sa, ea;
    PedGeometry sr, er;
    PedSector min, max;
    bool ok(i128 s, i128 e) const {
        return in_al(&sa, s) && in_al(&ea, e) && s >= sr.start && s <= sr.end && e >= er.start && e <= er.end && e - s + 1 >= min && e - s + 1 <= max;
    }
    std::string str() const {
        return fmt("start %lld mod %lld in [%lld,%lld], end %lld mod %lld in [%lld,%lld], size [%lld,%lld]", (long long)sa.offset, (long long)sa.grain_size, (long long)sr.start, (long long)sr.end,
                   (long long)ea.offset, (long long)ea.grain_size, (long long)er.start, (long long)er.end, (long long)min, (long long)max);
    }
};
static Cons gen_cons(Ctx &c, PedDevice *d, bool big) {
    Cons k;
    PedSector L = d->length;
    auto al = [&](PedAlignment *a) {
        PedSector g = c.chance(1, 10) ? 0 : c.chance(1, 3) ? 1 : big ? (c.chance(1, 2) ? c.pickl<PedSector>({8, 63, 2048, 16065}) : c.biased(1, L)) : c.range(1, 12);
        ped_alignment_init(a, g ? c.biased(0, g - 1) : c.biased(0, L - 1), g);
    };
    auto rg = [&](PedGeometry *r) {
        PedSector s = c.chance(1, 3) ? 0 : c.biased(0, L - 1), e = c.chance(1, 3) ? L - 1 : c.biased(s, L - 1);
        ped_geometry_init(r, d, s, e - s + 1);
    };
    al(&k.sa); al(&k.ea);
    rg(&k.sr); rg(&k.er);
    k.min = c.chance(1, 2) ? 1 : c.biased(1, L);
    k.max = c.chance(1, 2) ? L : c.biased(k.min, L);
    for (PedSector v : {k.sa.offset, k.sa.grain_size, k.ea.offset, k.ea.grain_size, k.sr.start, k.sr.end, k.er.start, k.er.end, k.min, k.max}) c.mix(v);
    return k;
}
static void c17(Ctx &c) {
    bool big = c.chance(1, 3);
    PedSector L = big ? c.biased(100, 1ll << 50) : c.range(1, 48);
    PedDevice *d = pure_dev(c, L, 512);
    DevGuard dg{d};
    Cons a = gen_cons(c, d, big), b = gen_cons(c, d, big);
    c.note("device of %lld sectors", (long long)L);
    c.note("a: %s", a.str().c_str());
    PedConstraint *ka = ped_constraint_new(&a.sa, &a.ea, &a.sr, &a.er, a.min, a.max);
    PedConstraint *kb = ped_constraint_new(&b.sa, &b.ea, &b.sr, &b.er, b.min, b.max);
    if (!ka || !kb) c.fail("C17:new", "constraint refused: %s", a.str().c_str());
    PedConstraint *kd = ped_constraint_duplicate(ka), *ki = ped_constraint_intersect(ka, kb);
    struct G { std::vector<PedConstraint *> v; ~G() { for (auto k : v) ped_constraint_destroy(k); } } g{{ka, kb, kd, ki}};
    auto is = [](PedConstraint *k, PedGeometry *q) { return k && ped_constraint_is_solution(k, q); };
    auto each = [&](PedSector s, PedSector e) {
        PedGeometry q;
        ped_geometry_init(&q, d, s, e - s + 1);
        if (!!is(ka, &q) != a.ok(s, e)) c.fail("C17:is-solution", "[%lld,%lld] and %s", (long long)s, (long long)e, a.str().c_str());
        if (is(kd, &q) != is(ka, &q)) c.fail("C17:duplicate", "the duplicate disagrees on [%lld,%lld]: %s", (long long)s, (long long)e, a.str().c_str());
        if (!!is(ki, &q) != (a.ok(s, e) && b.ok(s, e))) c.fail("C17:intersect", "[%lld,%lld] and %s and %s: intersection %s", (long long)s, (long long)e, a.str().c_str(), b.str().c_str(), ki ? "disagrees" : "is empty");
    };
    auto solve = [&](PedConstraint *k, const Cons &w, PedSector s, PedSector e, const char *who) {
        PedGeometry q;
        ped_geometry_init(&q, d, s, e - s + 1);
        exc_clear();
        PedGeometry *r = ped_constraint_solve_nearest(k, &q);
        PedSector rs = r ? r->start : -1, re = r ? r->end : -1;
        if (r) ped_geometry_destroy(r);
        c.note("%s nearest [%lld,%lld] -> [%lld,%lld]", who, (long long)s, (long long)e, (long long)rs, (long long)re);
        if (rs >= 0 && !w.ok(rs, re)) c.fail("C17:unsound", "solution [%lld,%lld] of %s", (long long)rs, (long long)re, w.str().c_str());
        if (w.ok(s, e) && (rs != s || re != e)) c.fail("C17:identity", "[%lld,%lld] satisfies %s, but becomes [%lld,%lld]", (long long)s, (long long)e, w.str().c_str(), (long long)rs, (long long)re);
        return std::make_pair(rs, re);
    };
    if (!big) {
        for (PedSector s = 0; s < L; s++) for (PedSector e = s; e < L; e++) each(s, e);
        bool room = a.ea.grain_size == 0 || a.max - a.min + 1 >= a.ea.grain_size;
        // starts that have some end
        std::map<PedSector, std::vector<PedSector>> sol;
        for (PedSector s = 0; s < L; s++) for (PedSector e = s; e < L; e++) if (a.ok(s, e)) sol[s].push_back(e);
        for (int i = 0; i < 4; i++) {
            PedSector s = c.range(0, L - 1), e = c.range(s, L - 1);
            auto r = solve(ka, a, s, e, "a");
            if (room && (r.first < 0) != sol.empty()) c.fail("C17:incomplete", "%s near [%lld,%lld]: %s, but %s", a.str().c_str(), (long long)s, (long long)e, r.first < 0 ? "no solution found" : "a solution", sol.empty() ? "there is none" : fmt("[%lld,%lld] is one", (long long)sol.begin()->first, (long long)sol.begin()->second[0]).c_str());
            if (room && r.first >= 0) {
                PedSector bs = L * 2, be = L * 2;
                for (auto &x : sol) bs = std::min(bs, llabs(x.first - s));
                for (auto y : sol[r.first]) be = std::min(be, llabs(y - e));
                if (llabs(r.first - s) != bs) c.fail("C17:nearest-start", "%s near [%lld,%lld]: [%lld,%lld], but a start at distance %lld is possible", a.str().c_str(), (long long)s, (long long)e, (long long)r.first, (long long)r.second, (long long)bs);
                if (llabs(r.second - e) != be) c.fail("C17:nearest-end", "%s near [%lld,%lld]: [%lld,%lld], but an end at distance %lld is possible", a.str().c_str(), (long long)s, (long long)e, (long long)r.first, (long long)r.second, (long long)be);
            }
        }
        if (!sol.empty() && (sol.size() > 1 || sol.begin()->second.size() > 1)) c.nontrivial = true;
        c.cls(sol.empty() ? "small-empty" : room ? "small-room" : "small-tight");
    } else {
        for (int i = 0; i < 12; i++) {
            PedSector s = c.biased(0, L - 1), e = c.biased(s, L - 1);
            if (c.chance(1, 2) && a.sa.grain_size) s = std::min<PedSector>(L - 1, (PedSector)ref_prev(a.sa, s) < 0 ? s : (PedSector)ref_prev(a.sa, s));
            if (e < s) e = s;
            if (c.chance(1, 2) && a.ea.grain_size && ref_prev(a.ea, e) >= s) e = (PedSector)ref_prev(a.ea, e);
            each(s, e);
            auto r = solve(ka, a, s, e, "a");
            if (r.first >= 0) {
                each(r.first, r.second);
                solve(ka, a, r.first, r.second, "a again");
                c.nontrivial = true;
            }
        }
        c.cls("big");
    }
    if (ki) {
        PedGeometry *r = ped_constraint_solve_max(ki);
        if (r) {
            if (!a.ok(r->start, r->end) || !b.ok(r->start, r->end)) c.fail("C17:intersect-unsound", "[%lld,%lld] solves the intersection of %s and %s", (long long)r->start, (long long)r->end, a.str().c_str(), b.str().c_str());
            ped_geometry_destroy(r);
        }
    }
    // the named constructors
    PedGeometry mx, mn;
    PedSector s = c.biased(0, L - 1), e = c.biased(s, L - 1), s2 = c.biased(s, e), e2 = c.biased(s2, e);
    ped_geometry_init(&mx, d, s, e - s + 1);
    ped_geometry_init(&mn, d, s2, e2 - s2 + 1);
    PedConstraint *k1 = ped_constraint_new_from_max(&mx), *k2 = ped_constraint_new_from_min(&mn), *k3 = ped_constraint_new_from_min_max(&mn, &mx), *k4 = ped_constraint_exact(&mx), *k5 = ped_constraint_any(d);
    for (auto k : {k1, k2, k3, k4, k5}) { if (!k) c.fail("C17:constructor", "a constructor failed on [%lld,%lld] in [%lld,%lld] of %lld", (long long)s2, (long long)e2, (long long)s, (long long)e, (long long)L); g.v.push_back(k); }
    for (int i = 0; i < 20; i++) {
        PedSector x = i == 0 ? s : i == 1 ? s2 : c.biased(0, L - 1), y = i == 0 ? e : i == 1 ? e2 : c.biased(x, L - 1);
        if (i > 1 && c.chance(1, 2)) { x = std::min<PedSector>(L - 1, std::max<PedSector>(0, c.pickl({s, s2}) + c.range(-1, 1))); y = std::max(x, std::min<PedSector>(L - 1, std::max<PedSector>(0, c.pickl({e, e2}) + c.range(-1, 1)))); }
        PedGeometry q;
        ped_geometry_init(&q, d, x, y - x + 1);
        bool inmax = x >= s && y <= e, overmin = x <= s2 && y >= e2;
        if (!!is(k1, &q) != inmax) c.fail("C17:from-max", "[%lld,%lld] for max [%lld,%lld]", (long long)x, (long long)y, (long long)s, (long long)e);
        if (!!is(k2, &q) != overmin) c.fail("C17:from-min", "[%lld,%lld] for min [%lld,%lld]", (long long)x, (long long)y, (long long)s2, (long long)e2);
        if (!!is(k3, &q) != (inmax && overmin)) c.fail("C17:from-min-max", "[%lld,%lld] for min [%lld,%lld] max [%lld,%lld]", (long long)x, (long long)y, (long long)s2, (long long)e2, (long long)s, (long long)e);
        if (!!is(k4, &q) != (x == s && y == e)) c.fail("C17:exact", "[%lld,%lld] for exactly [%lld,%lld]", (long long)x, (long long)y, (long long)s, (long long)e);
        if (!is(k5, &q)) c.fail("C17:any", "[%lld,%lld] on %lld sectors", (long long)x, (long long)y, (long long)L);
    }
}

// ---------------------------------------------------------------- C18
static const struct { PedUnit u; const char *name; long long size; bool exact; } U[] = {
    {PED_UNIT_SECTOR, "s", 0, true}, {PED_UNIT_BYTE, "B", 1, true}, {PED_UNIT_KILOBYTE, "kB", 1000, false}, {PED_UNIT_MEGABYTE, "MB", 1000000, false},
    {PED_UNIT_GIGABYTE, "GB", 1000000000, false}, {PED_UNIT_TERABYTE, "TB", 1000000000000, false}, {PED_UNIT_KIBIBYTE, "kiB", 1024, true}, {PED_UNIT_MEBIBYTE, "MiB", 1 << 20, true},
    {PED_UNIT_GIBIBYTE, "GiB", 1 << 30, true}, {PED_UNIT_TEBIBYTE, "TiB", 1ll << 40, true}, {PED_UNIT_PERCENT, "%", -1, false}, {PED_UNIT_CYLINDER, "cyl", -2, false},
    {PED_UNIT_COMPACT, "compact", -3, false}, {PED_UNIT_CHS, "chs", -4, true}};
static i128 usize(PedDevice *d, int i) {
    if (U[i].size > 0) return U[i].size;
    if (!U[i].size || U[i].size == -4) return d->sector_size;
    if (U[i].size == -1) return (i128)d->length * d->sector_size / 100;
    if (U[i].size == -2) return (i128)d->bios_geom.heads * d->bios_geom.sectors * d->sector_size;
    return 0;
}
static void parse_part(Ctx &c, PedDevice *d) {
    PedSector L = d->length;
    long long ss = d->sector_size;
    int ui = (int)c.draw(11), def = (int)c.draw(12);
    ped_unit_set_default(U[def].u);
    if (ped_unit_get_default() != U[def].u) c.fail("C18:default", "default unit not kept");
    i128 us = usize(d, ui);
    std::string suffix = U[ui].name;
    if (c.chance(1, 4)) for (auto &ch : suffix) ch = c.chance(1, 2) ? toupper(ch) : tolower(ch);
    if (c.chance(1, 6) && suffix.size() == 2) suffix.pop_back();      // "5M"
    if (c.chance(1, 6) && suffix.size() == 3 && ui != 11) suffix.pop_back();      // "5Mi"
    if (c.chance(1, 5)) {   // no suffix: the unit passed, or the default one
        suffix = "";
        if (c.chance(1, 2)) { ui = def; if (def == 12) ui = 3; us = usize(d, ui); }   // compact stands for megabytes
        else ui = ui;
    }
    bool plain = suffix.empty();
    // the number
    i128 mag;
    int frac = c.chance(1, 3) ? (int)c.range(1, 4) : 0;
    i128 pow = 1;
    for (int i = 0; i < frac; i++) pow *= 10;
    i128 total = (i128)L * ss;
    if (!us) us = 1;
    i128 atend = total * pow / us;
    switch (c.weighted({3, 3, 2, 1})) {
    case 0: mag = c.biased(0, (int64_t)std::min<i128>(atend, INT64_MAX / 4)); break;
    case 1: mag = atend + c.range(-3, 3); if (mag < 0) mag = 0; break;
    case 2: mag = c.biased(0, 2000) * (c.chance(1, 2) ? pow : 1); break;
    default: mag = (i128)c.biased(0, INT64_MAX) * c.pickl<int64_t>({1, 10, 1000000007, 1ll << 40});
    }
    mag = std::min<i128>(mag, ((i128)1 << 120) / us);
    bool neg = c.chance(1, 4);
    std::string num = s128(mag / pow);
    if (frac) { std::string f = s128(mag % pow); while ((int)f.size() < frac) f.insert(f.begin(), '0'); num += "." + f; }
    if (neg) num = "-" + num;
    std::string text = num + suffix, sp;
    if (c.chance(1, 4)) {
        for (size_t i = 0; i < text.size(); i++) { if (i == 0 || i == num.size()) for (int k = (int)c.draw(2); k > 0; k--) sp += c.pickl({' ', '\t'}); sp += text[i]; }
        for (int k = (int)c.draw(2); k > 0; k--) sp += ' ';
        text = sp;
    }
    c.note("parse \"%s\" (unit %s, default %s) on %lld sectors of %lld", text.c_str(), plain ? U[ui].name : "-", U[def].name, (long long)L, ss);
    c.mix(text.data(), text.size()); c.mix(L); c.mix(ss);
    PedSector got = -7;
    PedGeometry *r = (PedGeometry *)8;
    exc_clear();
    int ok = plain && ui == (def == 12 ? 3 : def) && c.chance(1, 2) ? ped_unit_parse(text.c_str(), d, &got, &r)
                   : ped_unit_parse_custom(text.c_str(), d, plain ? U[ui].u : c.chance(1, 2) ? U[ui].u : PED_UNIT_COMPACT, &got, &r);
    PedSector rs = ok && r ? r->start : -1, re = ok && r ? r->end : -1;
    if (ok && r) ped_geometry_destroy(r);
    std::string what = fmt("\"%s\" on %lld sectors of %lld (chs %d/%d/%d)", text.c_str(), (long long)L, ss, d->bios_geom.cylinders, d->bios_geom.heads, d->bios_geom.sectors) + fmt(" -> %d %lld [%lld,%lld] %s", ok, (long long)got, (long long)rs, (long long)re, exc_dump().c_str());
    c.note(" -> %d %lld [%lld,%lld] %s", ok, (long long)got, (long long)rs, (long long)re, exc_dump().c_str());
    us = usize(d, ui);
    i128 off = mag * us / (pow * ss);      // sectors, truncated
    i128 want = neg ? (i128)L - off : off;
    // doubles carry 53 bits; a fraction of a unit or a percentage may be off by one
    i128 tol = (frac || ui == 10 ? 1 : 0) + (off > (1ll << 50) / ss ? (off >> 50) + 1 : 0);
    i128 half = U[ui].exact ? 0 : (us + ss - 1) / ss / 2;
    if (!ok) {
        if (g_exc.empty()) c.fail("C18:silent", "refused without a message: %s", what.c_str());
        if (got != 0 || r != nullptr) c.fail("C18:refused-result", "refused, but with a result: %s", what.c_str());
    }
    bool below1 = mag > 0 && mag < pow;
    if (below1) {
        if (!neg && ok) c.fail("C18:below-one", "a value below one is documented to be refused: %s", what.c_str());
        return;
    }
    if (want - tol >= 0 && want + tol < L) {
        if (!ok) c.fail("C18:refused", "names sector %s, but is refused: %s", s128(want).c_str(), what.c_str());
        i128 dlt = got > want ? got - want : want - got;
        if (dlt > tol) c.fail("C18:sector", "names sector %s: %s", s128(want).c_str(), what.c_str());
        if (rs > got || re < got || rs < 0 || re >= L) c.fail("C18:range", "the range does not hold the sector: %s", what.c_str());
        if (U[ui].exact && (rs != got || re != got)) c.fail("C18:exact", "an exact unit gets a range: %s", what.c_str());
        if (rs < got - half || re > got + half) c.fail("C18:wide", "the range is wider than half a unit (%s): %s", s128(half).c_str(), what.c_str());
        i128 lo = std::max<i128>(0, got - (half - 2)), hi = std::min<i128>(L - 1, got + (half - 2));
        if (!U[ui].exact && half > 2 && (rs > lo || re < hi)) c.fail("C18:narrow", "the range is narrower than half a unit (%s): %s", s128(half).c_str(), what.c_str());
        c.nontrivial = true;
        c.cls("parsed");
    } else if (want - tol > L - 1 + half + 1 || want + tol < -half - 1) {
        if (ok) c.fail("C18:outside", "names sector %s, outside the device, but is accepted: %s", s128(want).c_str(), what.c_str());
        c.cls("outside");
    } else if (ok && (rs < 0 || re >= L || got < 0 || got >= L)) c.fail("C18:range", "result outside the device: %s", what.c_str());
    // without a range wanted
    PedSector g2 = -7;
    if (ok && ped_unit_parse_custom(text.c_str(), d, U[ui].u, &g2, nullptr) != 1) c.fail("C18:no-range", "refused without a range: %s", what.c_str());
    if (ok && g2 != got) c.fail("C18:no-range", "without a range it is sector %lld: %s", (long long)g2, what.c_str());
}
static void chs_part(Ctx &c, PedDevice *d) {
    int64_t cy = c.chance(1, 8) ? c.biased(0, INT64_MAX) : c.biased(0, d->length / std::max(1, d->bios_geom.heads * d->bios_geom.sectors) + 1), h = c.biased(0, d->bios_geom.heads), s = c.biased(0, d->bios_geom.sectors);
    char p = c.pickl({',', '.', ':', '/'}), q = c.chance(3, 4) ? p : c.pickl({',', ';', '-'});
    std::string t = fmt("%lld%c%lld%c%lld", (long long)cy, p, (long long)h, q, (long long)s);
    if (c.chance(1, 5)) t = " " + t;
    i128 want = ((i128)cy * d->bios_geom.heads + h) * d->bios_geom.sectors + s;
    bool legal = h < d->bios_geom.heads && s < d->bios_geom.sectors && want < d->length;
    PedSector got = -7;
    PedGeometry *r = (PedGeometry *)8;
    exc_clear();
    int ok = ped_unit_parse_custom(t.c_str(), d, PED_UNIT_SECTOR, &got, &r);
    c.note("parse chs \"%s\" -> %d %lld %s", t.c_str(), ok, (long long)got, exc_dump().c_str());
    c.mix(t.data(), t.size());
    PedSector rs = ok && r ? r->start : -1, re = ok && r ? r->end : -1;
    if (ok && r) ped_geometry_destroy(r);
    if (!!ok != legal) c.fail("C18:chs", "\"%s\" on %d/%d/%d: %s", t.c_str(), d->bios_geom.cylinders, d->bios_geom.heads, d->bios_geom.sectors, ok ? "accepted" : "refused");
    if (ok && (got != want || rs != want || re != want)) c.fail("C18:chs", "\"%s\" on %d/%d/%d is sector %lld [%lld,%lld], not %s", t.c_str(), d->bios_geom.cylinders, d->bios_geom.heads, d->bios_geom.sectors, (long long)got, (long long)rs, (long long)re, s128(want).c_str());
    if (!ok && (g_exc.empty() || r)) c.fail("C18:chs", "\"%s\" refused badly", t.c_str());
    c.cls(legal ? "chs" : "chs-outside");
    c.nontrivial = c.nontrivial || legal;
}
static void junk_part(Ctx &c, PedDevice *d) {
    static const char al[] = "0123456789.,-- sBkMGTi%xe+/";
    std::string t;
    for (int i = (int)c.draw(9); i > 0; i--) t += al[c.draw(sizeof al - 2)];
    std::string u;
    for (char ch : t) if (!isspace((unsigned char)ch)) u += ch;
    int punct = 0;
    for (char ch : u) punct += ispunct((unsigned char)ch) != 0;
    size_t n = 0;
    while (n < u.size() && strchr("0123456789.,-", u[n])) n++;
    std::string num = u.substr(0, n);
    // -?(d+(.d*)?|.d+)
    size_t i = 0, d1 = 0, d2 = 0;
    if (i < num.size() && num[i] == '-') i++;
    while (i < num.size() && isdigit(num[i])) i++, d1++;
    if (i < num.size() && num[i] == '.') { i++; while (i < num.size() && isdigit(num[i])) i++, d2++; }
    bool wf = i == num.size() && d1 + d2 > 0;
    PedSector got = -7;
    PedGeometry *r = (PedGeometry *)8;
    exc_clear();
    int ok = ped_unit_parse_custom(t.c_str(), d, PED_UNIT_MEGABYTE, &got, &r);
    c.note("parse \"%s\" -> %d %lld %s", t.c_str(), ok, (long long)got, exc_dump().c_str());
    c.mix(t.data(), t.size());
    PedSector rs = ok && r ? r->start : -1, re = ok && r ? r->end : -1;
    if (ok && r) ped_geometry_destroy(r);
    if (ok && (got < 0 || got >= d->length || rs < 0 || re >= d->length || rs > got || re < got)) c.fail("C18:range", "\"%s\" gives %lld [%lld,%lld] on %lld sectors", t.c_str(), (long long)got, (long long)rs, (long long)re, (long long)d->length);
    if (!ok && (g_exc.empty() || r || got)) c.fail("C18:refused-result", "\"%s\" refused badly", t.c_str());
    if (!wf && punct != 2 && ok) c.fail("C18:malformed", "\"%s\" is not a number, but accepted as %lld", t.c_str(), (long long)got);
    c.cls(wf ? "wellformed" : "malformed");
}
static void format_part(Ctx &c, PedDevice *d) {
    int ui = (int)c.draw(13);
    PedSector sec = c.biased(0, d->length - 1);
    long long ss = d->sector_size;
    i128 byte = (i128)sec * ss;
    bool raw = c.chance(1, 4);
    if (raw) byte = (i128)sec * ss + c.range(0, ss - 1);
    bool viadef = c.chance(1, 3);
    char *p;
    if (viadef) { ped_unit_set_default(U[ui].u); p = raw ? ped_unit_format_byte(d, (PedSector)byte) : ped_unit_format(d, sec); }
    else p = raw ? ped_unit_format_custom_byte(d, (PedSector)byte, U[ui].u) : ped_unit_format_custom(d, sec, U[ui].u);
    if (!p) c.fail("C18:format", "no text");
    std::string t = p;
    free(p);
    c.note("format byte %s as %s: \"%s\" (%lld sectors of %lld)", s128(byte).c_str(), U[ui].name, t.c_str(), (long long)d->length, ss);
    c.mix((uint64_t)byte); c.mix(ui);
    auto bad = [&](const char *why) { c.fail("C18:format", "byte %s as %s is \"%s\" (%lld sectors of %lld, chs %d/%d/%d): %s", s128(byte).c_str(), U[ui].name, t.c_str(), (long long)d->length, ss, d->bios_geom.cylinders, d->bios_geom.heads, d->bios_geom.sectors, why); };
    size_t n = 0;
    while (n < t.size() && (isdigit(t[n]) || t[n] == '.' || t[n] == ',' || t[n] == '-')) n++;
    std::string num = t.substr(0, n), suf = t.substr(n);
    int u = ui;
    if (ui == 12) {
        for (u = 0; u < 12; u++) if (suf == U[u].name) break;
        if (u == 12 || u == 0 || u > 5) bad("odd unit");
        if (u > 1 && byte < (i128)10 * U[u].size) bad("less than ten of the unit");
        if (u < 5 && byte >= (i128)10 * U[u + 1].size) bad("a larger unit would do");
    }
    i128 us = usize(d, u);
    if (ui == 13) {
        i128 s = byte / ss;
        if (t != s128(s / d->bios_geom.sectors / d->bios_geom.heads) + "," + s128(s / d->bios_geom.sectors % d->bios_geom.heads) + "," + s128(s % d->bios_geom.sectors)) bad("wrong");
    } else if (u == 0 || (u == 1 && ui != 12) || u == 11) {
        if (t != s128(byte / us) + U[u].name) bad("wrong");
    } else {
        if (suf != U[u].name) bad("wrong unit");
        size_t dot = num.find('.');
        int prec = dot == std::string::npos ? 0 : (int)(num.size() - dot - 1);
        ld v = strtold(num.c_str(), nullptr), step = powl(10, -prec);
        if (us) {
            if (prec != (v < 10 ? 2 : v < 100 ? 1 : 0)) bad("wrong number of digits");
            ld err = fabsl(v * (ld)us - (ld)byte);
            if (err > 0.5L * step * (ld)us * (1 + 1e-6L) + (ld)byte * 0x1p-50L) bad("rounded wrongly");
        }
    }
    // back
    if (raw || !us) return;
    ld v = strtold(num.c_str(), nullptr);
    if (ui != 13 && v > 0 && v < 1) return;
    PedSector got;
    PedGeometry *r = nullptr;
    exc_clear();
    int ok = ped_unit_parse_custom(t.c_str(), d, PED_UNIT_SECTOR, &got, &r);
    PedSector rs = ok && r ? r->start : -1, re = ok && r ? r->end : -1;
    if (ok && r) ped_geometry_destroy(r);
    if (u == 0 || ui == 13 || (u == 1 && ui == 1)) {
        // numbers pass through a double
        bool approx = (ss & (ss - 1)) && byte >> 52;
        if (!ok || (approx ? got > sec + 4 || got < sec - 4 : got != sec)) c.fail("C18:roundtrip", "sector %lld is formatted as \"%s\", which reads back as %d %lld (%s)", (long long)sec, t.c_str(), ok, (long long)got, exc_dump().c_str());
        c.nontrivial = true;
    } else if (u == 11) {
        PedSector slack = byte >> 52 ? 4 : 0;
        if (!ok || got > sec + slack || sec - got >= us / ss + slack) c.fail("C18:roundtrip", "sector %lld is formatted as \"%s\", which reads back as %d %lld (%s)", (long long)sec, t.c_str(), ok, (long long)got, exc_dump().c_str());
        c.nontrivial = true;
    } else {
        size_t dot = num.find('.');
        int prec = dot == std::string::npos ? 0 : (int)(num.size() - dot - 1);
        ld maxd = 0.5L * powl(10, -prec) * (ld)us / ss + 2 + (ld)sec * 0x1p-50L;
        bool inside = v * (ld)us / ss < d->length - 1;
        if (inside || ok) {
            if (!ok || fabsl((ld)got - sec) > maxd) c.fail("C18:roundtrip", "sector %lld is formatted as \"%s\", which reads back as %d %lld (%s)", (long long)sec, t.c_str(), ok, (long long)got, exc_dump().c_str());
            if (!U[u].exact && fabsl(v * (ld)us / ss - sec) <= (ld)us / ss / 2 - 3 && (sec < rs || sec > re)) c.fail("C18:roundtrip-range", "sector %lld is formatted as \"%s\", whose range is [%lld,%lld]", (long long)sec, t.c_str(), (long long)rs, (long long)re);
            c.nontrivial = true;
        }
    }
    c.cls("format");
}
static void c18(Ctx &c) {
    long long ss = c.pickl({512, 512, 1024, 2048, 4096, 520});
    PedSector L = c.chance(1, 2) ? c.biased(1, 1ll << 32) : c.biased(1, (1ll << 62) / ss);
    if (c.chance(1, 6)) L = c.range(1, 300);
    PedDevice *d = pure_dev(c, L, ss);
    DevGuard dg{d};
    for (auto &u : U) {
        if (ped_unit_get_by_name(u.name) != u.u || strcmp(ped_unit_get_name(u.u), u.name)) c.fail("C18:names", "unit %s", u.name);
        int i = (int)(&u - U);
        if (i != 12 && ped_unit_get_size(d, u.u) != (long long)usize(d, i)) c.fail("C18:size", "one %s is %lld bytes on %lld sectors of %lld", u.name, ped_unit_get_size(d, u.u), (long long)L, ss);
    }
    for (Steps st(c, 6); st.next();)
        switch (c.weighted({4, 1, 1, 4})) {
        case 0: parse_part(c, d); break;
        case 1: chs_part(c, d); break;
        case 2: junk_part(c, d); break;
        default: format_part(c, d);
        }
    ped_unit_set_default(PED_UNIT_COMPACT);
}

// ---------------------------------------------------------------- C32
static int h_calls, h_answer, h_type, h_options;
static std::string h_msg;
static PedExceptionOption h_fn(PedException *e) {
    h_calls++;
    h_type = e->type;
    h_options = e->options;
    h_msg = e->message;
    return (PedExceptionOption)h_answer;
}
static PedExceptionOption h_fn2(PedException *e) { h_calls += 1000; h_type = e->type; h_options = e->options; h_msg = e->message; return (PedExceptionOption)h_answer; }
static void throws_part(Ctx &c) {
    int level = 0, handler = 1;      // 0 default, 1 h_fn, 2 h_fn2
    bool pending = false;
    int ptype = 0, popt = 0;
    std::string pmsg;
    ped_exception_set_handler(h_fn);
    fflush(stderr);
    struct G { int &l; ~G() { while (l > 0) { ped_exception_leave_all(); l--; } ped_exception_catch(); exc_install(); } } g{level};
    auto check = [&](const char *op, int ret, int wopt, int wtype, const std::string &wmsg) {
        int want_calls = level ? 0 : handler == 0 ? 0 : handler == 1 ? 1 : 1000;
        if (h_calls != want_calls) c.fail("C32:handler-calls", "%s at fetch level %d with handler %d: handler ran %d times", op, level, handler, h_calls);
        if (level) {
            if (ret != PED_EXCEPTION_UNHANDLED) c.fail("C32:fetched", "%s while fetching returns %d", op, ret);
            if (!ped_exception) c.fail("C32:fetched", "%s while fetching leaves no exception pending", op);
            pending = true; ptype = wtype; popt = wopt; pmsg = wmsg;
        } else {
            int want = handler ? h_answer : wopt == PED_EXCEPTION_OK || wopt == PED_EXCEPTION_CANCEL || wopt == PED_EXCEPTION_IGNORE ? wopt : PED_EXCEPTION_UNHANDLED;
            if (ret != want) c.fail("C32:answer", "%s with options %d and handler %d returns %d instead of %d", op, wopt, handler, ret, want);
            if (handler && (h_type != wtype || h_options != wopt || h_msg != wmsg)) c.fail("C32:content", "%s: handler saw type %d options %d \"%.60s\" (%zu), thrown %d %d \"%.60s\" (%zu)", op, h_type, h_options, h_msg.c_str(), h_msg.size(), wtype, wopt, wmsg.c_str(), wmsg.size());
            if (ped_exception) c.fail("C32:left", "%s: a handled exception is still pending", op);
            pending = false;
        }
    };
    for (Steps st(c, 12); st.next();) {
        int k = c.weighted({5, 3, 3, 2, 2, 2});
        h_calls = 0;
        h_answer = 1 << c.draw(6);
        if (k == 0) {
            static const int opts[] = {PED_EXCEPTION_OK, PED_EXCEPTION_CANCEL, PED_EXCEPTION_IGNORE, PED_EXCEPTION_FIX, PED_EXCEPTION_YES, PED_EXCEPTION_NO, PED_EXCEPTION_RETRY,
                                       PED_EXCEPTION_OK_CANCEL, PED_EXCEPTION_YES_NO, PED_EXCEPTION_YES_NO_CANCEL, PED_EXCEPTION_IGNORE_CANCEL, PED_EXCEPTION_RETRY_CANCEL, PED_EXCEPTION_RETRY_IGNORE_CANCEL, 127};
            int type = 1 + (int)c.draw(5), o = c.chance(2, 3) ? opts[c.draw(13)] : 1 + (int)c.draw(126);
            // messages of every length around the buffer size
            int n = (int)(c.chance(1, 3) ? c.range(985, 1030) : c.chance(1, 8) ? c.range(0, 20000) : c.range(0, 60));
            std::string m;
            for (int i = 0; i < n; i++) m += (char)('a' + i % 26);
            if (n && c.chance(1, 3)) m[n / 2] = '%';
            int num = (int)c.draw(1000);
            std::string want = m + fmt(":%d", num);
            int r = ped_exception_throw((PedExceptionType)type, (PedExceptionOption)o, "%s:%d", m.c_str(), num);
            c.note("throw type %d options %d, %d characters, level %d -> %d", type, o, n, level, r);
            c.mix(type); c.mix(o); c.mix(n); c.mix(level * 4 + handler);
            check("throw", r, o, type, want);
        } else if (k == 1) {
            ped_exception_fetch_all();
            level++;
            c.note("fetch_all -> %d", level);
        } else if (k == 2) {
            if (!level) continue;
            ped_exception_leave_all();
            level--;
            c.note("leave_all -> %d", level);
        } else if (k == 3) {
            ped_exception_catch();
            c.note("catch");
            if (ped_exception) c.fail("C32:catch", "caught, but still pending");
            pending = false;
        } else if (k == 4) {
            if (!pending) continue;
            int r = ped_exception_rethrow();
            c.note("rethrow at level %d -> %d", level, r);
            int t = ptype, o = popt;
            std::string m = pmsg;
            check("rethrow", r, o, t, m);
            c.nontrivial = true;
        } else {
            handler = (int)c.draw(2);
            ped_exception_set_handler(handler == 0 ? nullptr : handler == 1 ? h_fn : h_fn2);
            c.note("handler %d", handler);
            if (handler && ped_exception_get_handler() != (handler == 1 ? h_fn : h_fn2)) c.fail("C32:get-handler", "not the handler that was set");
            if (!ped_exception_get_handler()) c.fail("C32:get-handler", "none");
        }
        if (k == 1 || k == 2) if (!!ped_exception != pending) c.fail("C32:pending", "pending is %d after changing the level, not %d", ped_exception, pending);
        if (level > 1) c.nontrivial = true;
    }
    static const char *const on[] = {"Fix", "Yes", "No", "OK", "Retry", "Ignore", "Cancel"};
    for (int i = 0; i < 7; i++) if (strcmp(ped_exception_get_option_string((PedExceptionOption)(1 << i)), on[i])) c.fail("C32:option-string", "%d", i);
    static const char *const tn[] = {"Information", "Warning", "Error", "Fatal", "Bug", "No Implementation"};
    for (int i = 0; i < 6; i++) if (strcmp(ped_exception_get_type_string((PedExceptionType)(i + 1)), tn[i])) c.fail("C32:type-string", "%d", i);
    c.cls("sequence");
}
// whatever the library does, it leaves the fetch level as it found it and nothing pending, and a
// failure has been announced
static int lv_calls;
static PedExceptionOption lv_fn(PedException *) { lv_calls++; return PED_EXCEPTION_CANCEL; }
static void library_part(Ctx &c) {
    World w(c);
    if (!start_world(w, c, gen_label(c))) c.discard();
    auto level0 = [&](const char *after) {
        if (ped_exception) c.fail("C32:left-pending", "an exception is still pending after %s", after);
        auto h = ped_exception_get_handler();
        ped_exception_set_handler(lv_fn);
        lv_calls = 0;
        int r = ped_exception_throw(PED_EXCEPTION_ERROR, PED_EXCEPTION_CANCEL, "x");
        ped_exception_set_handler(h);
        if (lv_calls != 1 || r != PED_EXCEPTION_CANCEL) c.fail("C32:left-fetching", "exceptions no longer reach the handler after %s", after);
    };
    int failed = 0;
    for (Steps st(c, 8); st.next();) {
        OpRes r = w.op();
        level0(r.desc.c_str());
        bool tried = r.desc != "nop" && (r.has_cons || (r.kind != OP_ADD && r.kind != OP_RESIZE && r.kind != OP_MAXIMIZE));
        if (!r.ok && !r.nexc && tried) {
            c.cls("silent:" + w.label + ":" + std::to_string(r.kind));
            c.fail(("C32:silent:" + w.label + ":" + std::to_string(r.kind)).c_str(), "%s failed without a message", r.desc.c_str());
        }
        failed += !r.ok;
        if (c.chance(1, 6)) {
            if (c.chance(1, 3)) { w.m->nofault(); w.m->fail_op = c.draw(6); w.m->fail_sticky = c.chance(1, 2); }
            exc_clear();
            int ok = w.commit();
            c.note("commit -> %d", ok);
            level0("commit");
            if (!ok && g_exc.empty()) c.fail("C32:silent-commit", "the commit failed without a message");
            w.m->nofault();
            failed += !ok;
        }
        if (c.chance(1, 8)) {
            if (!w.commit()) c.discard();
            if (c.chance(1, 2)) { w.m->nofault(); w.m->fail_op = c.draw(40); w.m->fail_sticky = c.chance(1, 2); }
            w.reopen();
            if (!w.dev) c.discard();
            exc_clear();
            bool ok = w.load();
            c.note("load -> %d", ok);
            level0("load");
            if (!ok && g_exc.empty()) c.fail("C32:silent-load", "loading failed without a message");
            w.m->nofault();
            if (!ok && !w.load()) c.discard();
        }
    }
    if (failed) c.nontrivial = true;
    c.cls("library");
}
static void c32(Ctx &c) {
    memarch_install();
    exc_install();
    if (c.chance(1, 2)) throws_part(c);
    else library_part(c);
}

static std::vector<Prop> props = {
    {"C16", c16, 1000000, 6000000, "a value that is not already a multiple, a solvable intersection, a range with an aligned sector, or overlapping different geometries"},
    {"C17", c17, 400000, 1500000, "the constraint has more than one solution"},
    {"C18", c18, 800000, 5000000, "a text naming a sector of the device was parsed, or a formatted sector was read back"},
    {"C32", c32, 80000, 400000, "fetch nesting above one, a rethrow, or a failing library operation"},
};
int main(int argc, char **argv) { return main_(argc, argv, props); }
