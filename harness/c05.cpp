// C05: find_labeling against the greedy labeling by definition (every decision justified by brute-force search).
#include "glue.hpp"
#include "probes.hpp"
using namespace sp::labeling::finder;

// statistics: would always taking the cheapest node left by solving run into a dead end?
static bool first_choices_fail(const Problem& p, const Constraints& k, Avail a)
{
    for (i64 x = 0; x < p.w; ++x) for (i64 y = 0; y < p.h; ++y)
    {
        i64 m = -1;
        for (i64 d = 0; d < p.levels(x); ++d) if (a[p.ix(x, y, d)] && (m < 0 || p.nodePenalty(x, y, d) < p.nodePenalty(x, y, m))) m = d;
        if (m < 0) return true;
        for (i64 d = 0; d < p.levels(x); ++d) a[p.ix(x, y, d)] = d == m;
        a = k.gfp(a);
    }
    return !ref::any(a);
}
static void check(const Problem& p, double thr, const Constraints& k, ConstraintGraph& c, const Avail& a, const std::vector<int>* known = nullptr)
{
    set_avail(c, p, a);
    mc::state();
    ConstraintGraph* f = find_labeling(&c);
    mc::step();
    MC_CHECK(f == nullptr || f == &c, "labeling returned another graph");
    auto where = [&] { return ref::show(p, a) + fmt(", threshold %g; ", thr) + p.show(); };
    const std::vector<int> want = known ? *known : k.greedy(a);
    mc::trace();
    if (f == nullptr)
    {
        MC_CHECK(!p.rep.empty() || want.empty(), "no labeling found although one exists: %s", where().c_str());
        if (!want.empty()) mc::count("reparametrized_solvable_not_found");
        mc::count(want.empty() ? "no_labeling_exists" : "reparametrized_not_found");
        return;
    }
    Avail b = get_avail(c, p);
    MC_CHECK(!want.empty(), "labeling %s found although none exists: %s", ref::show(p, b).c_str(), where().c_str());
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x)
    {
        int n = 0;
        for (i64 d = 0; d < p.levels(x); ++d) if (b[p.ix(x, y, d)])
        {
            n++;
            MC_CHECK(a[p.ix(x, y, d)], "chosen node %lld,%lld:%lld was not available: %s", x, y, d, where().c_str());
            MC_CHECK(d == want[y * p.w + x], "pixel %lld,%lld got disparity %lld instead of %d: %s -> %s", x, y, d, want[y * p.w + x], where().c_str(), ref::show(p, b).c_str());
        }
        MC_CHECK(n == 1, "pixel %lld,%lld is left with %d nodes: %s -> %s", x, y, n, where().c_str(), ref::show(p, b).c_str());
    }
    mc::count("labelings");
    if (first_choices_fail(p, k, a)) mc::count("first_choice_is_dead_end");
    mc::sample([&] { return where() + " -> " + ref::show(p, b); });
}

struct Config { double c, s; int rep, pat; double thr; };
static const Config K[] = {
    {1, 1, 0, 0, 100}, {1, 1, 0, 1, 1}, {1, 1, 0, 2, 1}, {1, 1, 0, 3, 4}, {1, 1, 0, 4, 0}, {0, 1, 0, 1, 1}, {1, 0.5, 2, 2, 1}, {1, 1, 3, 1, 2}, {2, 2, 4, 2, 3.25}, {1, 0.25, 5, 3, 9},
};
static const unsigned NK = sizeof K / sizeof *K;

static void subsets(i64 w, i64 h, i64 D, std::vector<unsigned> ks)
{
    u64 n = node_count(w, h, D);
    const u64 CHUNK = 32;
    u64 masks = 1ull << n, chunks = (masks + CHUNK - 1) / CHUNK;
    std::string name = "subsets" + shape(w, h, D) + "_k";
    for (auto k : ks) name += fmt("%u", k);
    mc::space(name, {ks.size(), chunks}, [=](const Digits& g) {
        const Config& f = K[ks[g[0]]];
        Problem p = problem(w, h, D, f.c, f.s, 3);
        pattern(p, f.pat);
        reparam(p, f.rep);
        Real r(p);
        Constraints k(p, f.thr);
        ConstraintGraph c(&r.g, &r.l, f.thr);
        auto nodes = node_list(p);
        for (u64 m = g[1] * CHUNK; m < masks && m < (g[1] + 1) * CHUNK; ++m) check(p, f.thr, k, c, from_mask(p, nodes, m));
    });
}
// dead ends need a cycle of pixels with gaps in their levels: the 2x2 pixels in the left columns of a wider image take all
// non-empty sets of n levels out of D, the others keep everything
static void cycles(i64 w, i64 h, i64 D, i64 n, std::vector<unsigned> pats, double thr)
{
    u64 sets = (1ull << n) - 1;
    mc::space(fmt("cycles%s_n%lld_t%g", shape(w, h, D).c_str(), n, thr), {pats.size(), sets, sets}, [=](const Digits& g) {
        Problem p = problem(w, h, D, 1, 1, 5);
        pattern(p, (int)pats[g[0]]);
        Real r(p);
        Constraints k(p, thr);
        ConstraintGraph c(&r.g, &r.l, thr);
        for (u64 s2 = 1; s2 <= sets; ++s2) for (u64 s3 = 1; s3 <= sets; ++s3)
        {
            u64 s[2][2] = {{g[1] + 1, g[2] + 1}, {s2, s3}};
            Avail a((size_t)(w * h * D), 0);
            for (i64 y = 0; y < h; ++y) for (i64 x = 0; x < w; ++x) for (i64 d = 0; d < p.levels(x); ++d)
                a[p.ix(x, y, d)] = (x < 2 && y < 2) ? (d < n ? s[y][x] >> d & 1 : 0) : 1;
            // only the interesting ones go through brute force: solvable by local consistency
            if (!ref::any(k.gfp(a))) { mc::count("skipped_unsolvable"); continue; }
            check(p, thr, k, c, a);
        }
    });
}
// newly built graphs for every candidate threshold
static void built(i64 w, i64 h, i64 D, u64 pats, u64 reps, unsigned long maxv)
{
    mc::space("built" + shape(w, h, D) + fmt("_max%lu", maxv), {pats, reps}, [=](const Digits& g) {
        Problem p = problem(w, h, D, 1, 1, maxv);
        pattern(p, (int)g[0]);
        reparam(p, (int)g[1]);
        Real r(p);
        for (double t : p.candidates())
        {
            Constraints k(p, t);
            ConstraintGraph c(&r.g, &r.l, t);
            check(p, t, k, c, k.nodeOk);
        }
    });
}

static void scales(i64 w, i64 h, i64 D, u64 pats, u64 reps, unsigned long maxv)
{
    mc::space("scales" + shape(w, h, D) + fmt("_max%lu", maxv), {SCALES, pats, reps}, [=](const Digits& g) {
        Problem p = problem(w, h, D, 1, 1, maxv);
        pattern(p, (int)g[1]);
        reparam(p, (int)g[2]);
        rescale(p, g[0]);
        Real r(p);
        for (double t : p.candidates())
        {
            Constraints k(p, t);
            ConstraintGraph c(&r.g, &r.l, t);
            check(p, t, k, c, k.nodeOk);
        }
    });
}

// sizes which don't fit in a byte: a staircase of nodes from the highest level down to zero, alone, besides level 0 and
// with a node missing
static void large(std::vector<u64> shapes)
{
    mc::space("large", {shapes.size(), 4, 3}, [=](const Digits& g) {
        Problem p = big(shapes[g[0]], g[2]);
        const double thr = g[2] == 2 ? 1e4 : 1;
        Real r(p);
        Constraints k(p, thr);
        ConstraintGraph c(&r.g, &r.l, thr);
        Avail a((size_t)(p.w * p.h * p.D), 0);
        for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) { a[p.ix(x, y, p.levels(x) - 1)] = 1; if (g[1] >= 2) a[p.ix(x, y, 0)] = 1; }
        if (g[1] == 1) a[p.ix(p.w - 1, p.h - 1, 0)] = 0;
        if (g[1] == 3) a[p.ix(p.w - 2, p.h - 1, 0)] = 0;
        check(p, thr, k, c, a);
    });
}
// two levels and any relation on each edge
static void related(i64 w, i64 h)
{
    u64 n = relation_count(w, h), all = 1, prefers = std::min<u64>(1ull << (w - 1) * h, 64);
    for (u64 i = 0; i < n; ++i) all *= RELATIONS;
    mc::space(fmt("related%lldx%lld", w, h), {all / RELATIONS, RELATIONS}, [=](const Digits& g) {
        std::vector<u64> kinds{g[1]};
        for (u64 i = 1, r = g[0]; i < n; ++i, r /= RELATIONS) kinds.push_back(r % RELATIONS);
        for (u64 f = 0; f < prefers; ++f)
        {
            Problem p = relations(w, h, kinds, f);
            check_relations(p, kinds, f);
            Real r(p);
            Constraints k(p, RELATIONS_THRESHOLD);
            ConstraintGraph c(&r.g, &r.l, RELATIONS_THRESHOLD);
            check(p, RELATIONS_THRESHOLD, k, c, k.nodeOk);
        }
    });
}
// many nodes of a pixel, one after the other, are dead ends
static void spirals(const char* name, std::vector<std::array<i64, 3>> shapes)
{
    mc::space(name, {shapes.size(), 2, 3, 5}, [=](const Digits& g) {
        auto& f = shapes[g[0]];
        Spiral s{f[0], f[1], f[2], (i64)g[2], (bool)g[1], g[3] == 1 ? 1 : g[3] == 2 ? 2 : 0};
        Problem p = spiral_problem(s);
        for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x)
        {
            // nodes in the middle of the winding are cheaper than its ends; or the higher the cheaper; or all the same
            i64 z = x - g[2], mid = (p.D - 1) / 2;
            p.L[y * p.w + x] = (unsigned long)(g[3] == 3 ? std::max<i64>(0, p.w - x) : g[3] == 4 ? 7 : 2 * std::llabs(z - mid) + (z < mid));
        }
        Real r(p);
        Constraints k(p, 1);
        ConstraintGraph c(&r.g, &r.l, 1);
        Avail a = spiral(p, s);
        auto want = greedy_by_sets(p, k, a);
        check(p, 1, k, c, a, &want);
    });
}
void mc::register_spaces()
{
    spirals("spirals", {{2, 3, 2}, {2, 5, 2}, {2, 8, 2}, {3, 4, 3}});
    if (mc::thorough()) spirals("spirals_more", {{2, 20, 2}, {4, 10, 4}, {8, 5, 5}, {3, 12, 3}});
    probes::in_place({probes::LABEL});
    related(3, 2);
    related(4, 1);
    related(2, 4);
    large({0, 1, 2, 3, 4});
    scales(4, 2, 4, 8, 2, 5);
    scales(3, 3, 3, 8, 2, 5);
    std::vector<unsigned> all;
    for (unsigned i = 0; i < NK; ++i) all.push_back(i);
    subsets(2, 1, 2, all);
    subsets(3, 1, 3, all);
    subsets(2, 2, 2, all);
    subsets(4, 1, 4, all);
    subsets(2, 3, 2, all);
    subsets(3, 2, 2, all);
    subsets(3, 2, 3, all);
    subsets(2, 4, 2, all);
    subsets(5, 1, 3, all);
    subsets(3, 3, 2, {0, 2, 6});
    cycles(5, 2, 4, 4, {1, 2}, 4);
    cycles(6, 2, 6, 4, {5}, 1);
    built(4, 3, 4, 40, 2, 5);
    built(6, 2, 6, 60, 2, 3);
    built(3, 5, 3, 20, 2, 9);
    if (mc::thorough())
    {
        related(3, 3);
        related(4, 2);
        subsets(3, 3, 2, all);
        subsets(4, 2, 3, {0, 1, 2, 3, 6, 7});
        subsets(2, 5, 2, all);
        subsets(6, 1, 3, all);
        subsets(5, 1, 4, all);
        cycles(6, 2, 5, 5, {1, 2, 5}, 1);
        cycles(6, 2, 5, 5, {2, 6}, 4);
        cycles(5, 3, 4, 4, {1, 7}, 1);
        built(6, 2, 6, 3000, 1, 3);
        built(8, 2, 8, 500, 1, 3);
        built(5, 4, 5, 100, 2, 7);
    }
}
MC_MAIN
