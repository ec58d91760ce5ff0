// C02: solve_csp on every set of initially available nodes of small grids; on larger grids every restriction of one pixel
// (or of two corner pixels) of a full or thresholded graph, so that removals have to travel far and against the scan.
#include "glue.hpp"
#include "probes.hpp"

static void check(const Problem& p, double thr, const Real& r, const Constraints& k, const Avail& a, ConstraintGraph& c, bool far = false)
{
    set_avail(c, p, a);
    Avail want = far ? k.gfp_swept(a) : k.gfp(a);
    if (far && p.w * p.h < 120 && want != k.gfp(a)) { fprintf(stderr, "gfp\n"); _exit(2); }
    mc::state();
    bool ret = solve_csp(&c);
    mc::step();
    Avail got = get_avail(c, p);
    MC_CHECK(got == want, "solving %s with threshold %g leaves %s instead of %s; %s",
        ref::show(p, a).c_str(), thr, ref::show(p, got).c_str(), ref::show(p, want).c_str(), p.show().c_str());
    MC_CHECK(ret == ref::any(want), "solving %s with threshold %g reports %d; %s", ref::show(p, a).c_str(), thr, (int)ret, p.show().c_str());
    MC_CHECK((bool)check_nodes_left(&c) == ref::any(want), "check_nodes_left is wrong after solving %s", ref::show(p, a).c_str());
    if (a != want)
    {
        bool again = solve_csp(&c);
        mc::step();
        MC_CHECK(again == ret && get_avail(c, p) == want, "solving again changes the result for %s with threshold %g; %s", ref::show(p, a).c_str(), thr, p.show().c_str());
        mc::count("removing_cases");
    }
    mc::count(ref::any(want) ? "solvable" : "unsolvable");
    mc::trace();
    mc::sample([&] { return p.show() + fmt(" thr=%g ", thr) + ref::show(p, a) + " -> " + ref::show(p, want); });
}

struct Config { double c, s; int rep; double thr; };
static const Config K[] = {
    {1, 1, 0, 0}, {1, 1, 0, 1}, {1, 1, 0, 4}, {1, 0, 0, 0}, {1, 1, 0, 100}, {1, 0.5, 2, 1}, {1, 1, 3, 2}, {2, 2, 4, 3.25}, {1, 0.25, 5, 4}, {1, 1, 6, 0.5},
};
static const unsigned NK = sizeof K / sizeof *K;

static void subsets(i64 w, i64 h, i64 D, unsigned k0, unsigned k1)
{
    u64 n = node_count(w, h, D);
    const u64 CHUNK = 64;
    u64 masks = 1ull << n, chunks = (masks + CHUNK - 1) / CHUNK;
    mc::space(fmt("subsets%s_k%u-%u", shape(w, h, D).c_str(), k0, k1), {k1 - k0, chunks}, [=](const Digits& g) {
        const Config& f = K[k0 + g[0]];
        Problem p = problem(w, h, D, f.c, f.s, 3);
        pattern(p, 2);
        reparam(p, f.rep);
        Real r(p);
        Constraints k(p, f.thr);
        ConstraintGraph c(&r.g, &r.l, f.thr);
        auto nodes = node_list(p);
        for (u64 m = g[1] * CHUNK; m < masks && m < (g[1] + 1) * CHUNK; ++m) check(p, f.thr, r, k, from_mask(p, nodes, m), c);
    });
}
// one pixel (any) restricted to any interval of its levels, everything else available
static void perturb(i64 w, i64 h, i64 D, std::vector<Config> conf)
{
    mc::space("perturb" + shape(w, h, D), {conf.size(), (u64)(w * h), (u64)(D + 1)}, [=](const Digits& g) {
        const Config& f = conf[g[0]];
        Problem p = problem(w, h, D, f.c, f.s, 3);
        pattern(p, 2);
        reparam(p, f.rep);
        Real r(p);
        Constraints k(p, f.thr);
        ConstraintGraph c(&r.g, &r.l, f.thr);
        i64 x = g[1] % w, y = g[1] / w, lo = g[2];
        if (lo > p.levels(x)) return;
        for (i64 hi = lo; hi <= p.levels(x); ++hi)
        {
            Avail a((size_t)(w * h * D), 0);
            for (i64 v = 0; v < h; ++v) for (i64 u = 0; u < w; ++u) for (i64 d = 0; d < p.levels(u); ++d)
                a[p.ix(u, v, d)] = (u == x && v == y) ? (d >= lo && d < hi) : 1;
            check(p, f.thr, r, k, a, c);
            if (lo == hi && lo > 0) break;
        }
    });
}
// newly built graphs (availability by threshold) of all candidate thresholds
static void built(i64 w, i64 h, i64 D, u64 patterns, u64 reps)
{
    mc::space("built" + shape(w, h, D), {patterns, reps}, [=](const Digits& g) {
        Problem p = problem(w, h, D, 1, 1, 5);
        pattern(p, (int)g[0]);
        reparam(p, (int)g[1]);
        Real r(p);
        for (double t : p.candidates())
        {
            Constraints k(p, t);
            ConstraintGraph c(&r.g, &r.l, t);
            check(p, t, r, k, k.nodeOk, c);
        }
    });
}

static void scales(i64 w, i64 h, i64 D, u64 patterns, u64 reps)
{
    mc::space("scales" + shape(w, h, D), {SCALES, patterns, reps}, [=](const Digits& g) {
        Problem p = problem(w, h, D, 1, 1, 5);
        pattern(p, (int)g[1]);
        reparam(p, (int)g[2]);
        rescale(p, g[0]);
        Real r(p);
        for (double t : p.candidates())
        {
            Constraints k(p, t);
            ConstraintGraph c(&r.g, &r.l, t);
            check(p, t, r, k, k.nodeOk, c);
        }
    });
}

// sizes which don't fit in a byte: a staircase of single nodes from the highest level down to zero, whole or with one
// node missing; the same besides all nodes of level 0; everything, with the top node alone in the first pixel
static void large(const char* name, std::vector<u64> shapes)
{
    mc::space(name, {shapes.size(), 6, 2}, [=](const Digits& g) {
        Problem p = big(shapes[g[0]], g[2] ? 2 : 0);
        const double thr = g[2] ? 1e4 : 1;
        Real r(p);
        Constraints k(p, thr);
        ConstraintGraph c(&r.g, &r.l, thr);
        Avail a((size_t)(p.w * p.h * p.D), 0);
        for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x)
            for (i64 d = 0; d < p.levels(x); ++d)
                a[p.ix(x, y, d)] = d == p.levels(x) - 1 || (g[1] == 3 && d == 0) || (g[1] == 4 && (x || y)) || (g[1] == 5 && (x < p.w - 2 || y < p.h - 1));
        if (g[1] == 1) a[p.ix(p.w - 1, p.h - 1, 0)] = 0;
        if (g[1] == 2) a[p.ix(0, 0, p.D - 1)] = 0;
        if (g[1] == 3 && p.w > 3) a[p.ix(p.w - 3, p.h - 1, p.levels(p.w - 3) - 1)] = 0;
        check(p, thr, r, k, a, c);
    });
}
// two levels and any relation on each edge; any node (any two, with `pairs`) missing at the start
static void related(i64 w, i64 h, bool pairs)
{
    all_relations(pairs ? "related_pairs" : "related", w, h, 0x5a5a, [=](const Problem& p, const std::vector<u64>& kinds) {
        check_relations(p, kinds, 0x5a5a);
        Real r(p);
        Constraints k(p, RELATIONS_THRESHOLD);
        ConstraintGraph c(&r.g, &r.l, RELATIONS_THRESHOLD);
        auto nodes = node_list(p);
        for (size_t i = 0; i < nodes.size(); ++i) for (size_t j = pairs ? 0 : i; j <= i; ++j)
        {
            Avail a = k.nodeOk;
            a[nodes[i]] = a[nodes[j]] = 0;
            check(p, RELATIONS_THRESHOLD, r, k, a, c);
        }
    });
}
// sets which take many passes to fall apart: more than there are pixels
static void spirals(const char* name, std::vector<std::array<i64, 3>> shapes)
{
    mc::space(name, {shapes.size(), 2, 8}, [=](const Digits& g) {
        auto& f = shapes[g[0]];
        Spiral s{f[0], f[1], f[2], (i64)(g[2] % 2), (bool)g[1], (int)g[2]};
        Problem p = spiral_problem(s);
        Real r(p);
        Constraints k(p, 1);
        ConstraintGraph c(&r.g, &r.l, 1);
        check(p, 1, r, k, spiral(p, s), c, true);
    });
}
// 254 to 258 nodes of one pixel vanish in the first pass and nothing else, and the second one has to remove more
static void bytes()
{
    mc::space("bytes", {2, 5}, [=](const Digits& g) {
        Problem p = problem(264, 1, 260, 1, g[0] ? 0 : 1, 9);
        Real r(p);
        const double thr = 1e6;
        Constraints k(p, thr);
        ConstraintGraph c(&r.g, &r.l, thr);
        Avail a((size_t)(p.w * p.h * p.D), 0);
        for (i64 x = 0; x < p.w; ++x) for (i64 d = 0; d < p.levels(x); ++d)
            a[p.ix(x, 0, d)] = x < 4 ? d < 256 + (i64)g[1] : d == 0;
        check(p, thr, r, k, a, c);
    });
}
void mc::register_spaces()
{
    spirals("spirals", {{20, 4, 3}, {40, 6, 3}, {30, 3, 5}, {2, 8, 2}, {3, 10, 3}, {60, 10, 5}});
    bytes();
    probes::in_place({probes::SOLVE});
    related(3, 2, true);
    related(5, 1, true);
    related(2, 5, true);
    related(3, 3, false);
    related(4, 2, false);
    large("large", {0, 1, 2, 4});
    large("large_levels", {3});
    scales(4, 3, 4, 8, 3);
    scales(3, 5, 3, 8, 3);
    subsets(2, 1, 2, 0, NK);
    subsets(3, 1, 2, 0, NK);
    subsets(3, 1, 3, 0, NK);
    subsets(2, 2, 2, 0, NK);
    subsets(4, 1, 3, 0, NK);
    subsets(4, 1, 4, 0, NK);
    subsets(2, 3, 2, 0, NK);
    subsets(3, 2, 2, 0, NK);
    subsets(3, 2, 3, 0, NK);
    subsets(2, 4, 2, 0, NK);
    subsets(5, 1, 3, 0, NK);
    subsets(3, 3, 2, 0, 2);
    const std::vector<Config> far = {{1, 1, 0, 0}, {1, 1, 0, 1}, {1, 1, 0, 1000}};
    perturb(40, 1, 12, {{1, 1, 0, 1000}});
    perturb(40, 1, 40, {{1, 1, 0, 1}});
    perturb(12, 3, 5, far);
    perturb(5, 12, 4, far);
    perturb(2, 40, 2, far);
    perturb(9, 9, 3, {{1, 1, 0, 1}, {1, 1, 3, 2}});
    built(6, 4, 4, 12, 4);
    built(4, 6, 3, 12, 4);
    built(9, 2, 9, 6, 3);
    if (mc::thorough())
    {
        spirals("spirals_more", {{60, 12, 3}, {25, 25, 3}, {100, 4, 9}, {2, 40, 2}, {20, 6, 20}, {150, 5, 3}, {120, 20, 5}, {80, 20, 7}});
        related(3, 3, true);
        related(4, 2, true);
        subsets(3, 3, 2, 2, NK);
        subsets(4, 2, 3, 0, NK);
        subsets(2, 5, 2, 0, NK);
        subsets(6, 1, 3, 0, NK);
        subsets(5, 1, 5, 0, NK);
        subsets(4, 2, 4, 0, 4);
        subsets(3, 3, 3, 0, 3);
        perturb(100, 2, 60, {{1, 1, 0, 1}, {1, 1, 0, 1000}});
        perturb(3, 70, 3, far);
        perturb(16, 16, 6, far);
        built(10, 8, 6, 40, 6);
    }
}
MC_MAIN
