// Problems for single runs of a backend for graphics processors, by its entry point: more of them, and larger ones, than
// can be explored under every schedule.  Included by harnesses which define straight(problem, threshold, start, how).
#pragma once
#include "glue.hpp"

// expected: the disparities of a labeling, none if there is no labeling; the reference is asked without it
static void straight(const Problem& p, double t, const Avail* start, const char* how, const std::vector<i64>* expected = nullptr);

struct LinearConfig { double c, s; int rep; double thr; int image; };
static const LinearConfig LINEAR[] = {{1, 1, 0, 1, 2}, {1, 1, 0, 0, 4}, {0, 1, 0, 1, 2}, {1, 0, 0, 0, 4}, {0, 1, 2, 2, 5}, {1, 0, 4, 3, 5}, {0.5, 0.25, 2, 1, 6}, {2, 1, 3, 4, 3},
    {1, 4, 0, 4, 7}, {0.25, 8, 5, 0.5, 2}, {1, 1, 6, 100, 8}, {3, 0.5, 7, 0.75, 4}};
enum { LINEAR_CONFIGS = 12 };

// every set of nodes as the start of a labeling
static void linear_subsets(i64 w, i64 h, i64 D)
{
    mc::space("linear_subsets" + shape(w, h, D), {LINEAR_CONFIGS, 1ull << node_count(w, h, D)}, [=](const Digits& g) {
        const LinearConfig& f = LINEAR[g[0]];
        Problem p = problem(w, h, D, f.c, f.s, 3);
        pattern(p, f.image);
        reparam(p, f.rep);
        Avail a = from_mask(p, node_list(p), g[1]);
        straight(p, f.thr, &a, "any set of nodes, one schedule");
    });
}

// Two levels.  Only edges between equal disparities are available, except towards the last column: the other columns are
// all 0 or all 1, and each pixel but the first one prefers what the first one does not: whatever is not propagated to
// some pixel leads to another labeling.
static Problem chain(i64 w, i64 h, bool first_prefers_1)
{
    Problem p = problem(w, h, 2, 4, 1, 1);
    for (i64 y = 0; y < h; ++y) for (i64 x = 0; x < w; ++x)
    {
        p.L[y * w + x] = x % 2;
        // 1 is preferred where the pixel looks like its right neighbour
        bool first = !x && !y, one = first == first_prefers_1;
        p.R[y * w + x] = one ? (x + 1) % 2 : x % 2;
    }
    p.rep.assign((size_t)(w * h * 2 * 4), 0.0);
    for (i64 y = 0; y < h; ++y) p.rep[p.ix(w - 2, y, 1) * 4 + 0] = 1;      // the edge to the last column is free
    return p;
}
// 0: nothing else, 1: the preferred node of the first pixel is in no labeling, 2: no node is
static void linear_chains(const char* name, std::vector<std::array<i64, 2>> shapes, unsigned kinds = 3)
{
    mc::space(name, {shapes.size(), 2, kinds}, [=](const Digits& g) {
        i64 w = shapes[g[0]][0], h = shapes[g[0]][1];
        Problem p = chain(w, h, g[1]);
        Avail a(w * h * 2, 0);
        for (size_t i : node_list(p)) a[i] = 1;
        if (g[2] >= 1) a[p.ix(w - 2, h - 1, g[1] ? 1 : 0)] = 0;
        if (g[2] == 2) a[p.ix(w - 2, h - 1, g[1] ? 0 : 1)] = 0;
        // the expected end is known; the reference needs too long for it where it is large
        std::vector<i64> want;
        i64 d = g[2] == 1 ? !g[1] : g[1];
        if (g[2] < 2) for (i64 i = 0; i < w * h; ++i) want.push_back(i % w == w - 1 ? 0 : d);
        if (w * h <= 40)
        {
            auto found = Constraints(p, 0).greedy(a);
            if (want != std::vector<i64>(found.begin(), found.end())) { fprintf(stderr, "chain: %s\n", p.show().c_str()); _exit(2); }
        }
        straight(p, 0, &a, "large problem, one schedule", &want);
    });
}
static std::vector<std::array<i64, 2>> chain_shapes()
{
    std::vector<std::array<i64, 2>> r;
    for (i64 n = 2; n <= 70; ++n) { r.push_back({2, n}); r.push_back({n, 1}); }
    for (i64 n = 3; n <= 16; ++n) { r.push_back({3, n}); r.push_back({n, 2}); r.push_back({n, 3}); r.push_back({n, n}); }
    for (i64 n : {127, 128, 129, 255, 256, 257}) { r.push_back({2, n}); r.push_back({n, 1}); r.push_back({n, 2}); }
    return r;
}
// every relation between the pixels of a square, the others are free: the first choices of its pixels can turn out to
// be wrong, after choices in the free pixels which come first
static void linear_relations(i64 w, i64 h, i64 left, i64 top, bool all_free)
{
    mc::space(fmt("linear_relations%lldx%lld_at%lld_%lld", w, h, left, top) + (all_free ? "" : "_linked"), {4, RELATIONS, RELATIONS, RELATIONS, RELATIONS, all_free ? 1 : RELATIONS}, [=](const Digits& g) {
        static const u64 prefers[] = {~0ull, 0, 0x5555, 0x9999};
        std::vector<u64> kinds;
        for (i64 y = 0; y < h; ++y) for (i64 x = 0; x < w - 2; ++x)
            kinds.push_back(x == left && (y == top || y == top + 1) ? g[1 + (y - top)] : g[5]);
        for (i64 y = 0; y < h - 1; ++y) for (i64 x = 0; x < w - 1; ++x)
            kinds.push_back(y == top && (x == left || x == left + 1) ? g[3 + (x - left)] : g[5]);
        Problem p = relations(w, h, kinds, prefers[g[0]]);
        straight(p, RELATIONS_THRESHOLD, nullptr, "relations, one schedule");
    });
}
// the reference by sets, for large problems without reparametrization
static void by_sets(const Problem& p, double t, const Avail& a, const char* how)
{
    auto found = greedy_by_sets(p, Constraints(p, t), a);
    std::vector<i64> want(found.begin(), found.end());
    straight(p, t, &a, how, &want);
}
// problems which take very many passes, or have many dead ends in a row
static void linear_spirals(const char* name, std::vector<std::array<i64, 3>> shapes)
{
    mc::space(name, {shapes.size(), 2, 3, 3}, [=](const Digits& g) {
        Spiral s{shapes[g[0]][0], shapes[g[0]][1], shapes[g[0]][2], (i64)(g[2] == 2 ? 3 : g[2]), (bool)g[1], (int)g[3]};
        Problem p = spiral_problem(s);
        const i64 mid = (p.D - 1) / 2;
        for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x)
            p.L[y * p.w + x] = (unsigned long)(2 * std::llabs(x - s.x0 - mid) + (x - s.x0 < mid));
        by_sets(p, 1, spiral(p, s), "winding problem, one schedule");
    });
}
// images with more pixels in a row or column than fit in a byte, in which the choices matter for the neighbours
static void linear_wide(const char* name, std::vector<std::array<i64, 3>> shapes, u64 kinds)
{
    mc::space(name, {shapes.size(), kinds}, [=](const Digits& g) {
        Problem p = problem(shapes[g[0]][0], shapes[g[0]][1], shapes[g[0]][2], 1.0 / 1024, 1, 9);
        pattern(p, 20 + (int)g[1]);
        const double t = g[1] % 3 == 2 ? 4 : 1;
        Avail a((size_t)(p.w * p.h * p.D), 0);
        for (size_t i : node_list(p)) a[i] = 1;
        by_sets(p, t, a, "wide or high image, one schedule");
    });
}
// constraints under which sets of nodes may look consistent and contain no labeling: labeling has to fail in the same way
// as the sequential one, late
static void linear_against_host(i64 w, i64 h, i64 D, u64 seeds)
{
    mc::space("linear_against_host" + shape(w, h, D), {seeds, 4}, [=](const Digits& g) {
        Problem p = problem(w, h, D, 1, 1, 3);
        pattern(p, 3 + (int)(g[0] % 7));
        p.rep.assign((size_t)(w * h * D * 4), 0.0);
        for (size_t i = 0; i < p.rep.size(); ++i) p.rep[i] = (double)(mc::mix(g[0] * 7919 + i) % 16) / 2 * (double)(1 + g[1] % 2);
        Real r(p);
        double t = sp::labeling::finder::calculate_minimal_consistent_threshold(&r.l, &r.g, sp::labeling::finder::fetch_available_penalties(&r.l)) + (g[1] > 1 ? 0.5 : 0);
        ConstraintGraph c(&r.g, &r.l, t);
        std::vector<i64> want;
        if (sp::labeling::finder::find_labeling(&c))
        {
            Avail a = get_avail(c, p);
            for (i64 y = 0; y < h; ++y) for (i64 x = 0; x < w; ++x) for (i64 d = 0; d < D; ++d) if (a[p.ix(x, y, d)]) want.push_back(d);
            if (want.size() != (size_t)(w * h)) return;      // other checks look into this
        }
        mc::count(want.empty() ? "late_failures_of_the_sequential_labeling" : "successes_of_the_sequential_labeling");
        straight(p, t, nullptr, "against the sequential labeling", &want);
    });
}
static void linear_spaces()
{
    linear_against_host(4, 2, 3, 200);
    linear_against_host(5, 3, 3, 200);
    linear_against_host(6, 4, 4, 60);
    linear_wide("linear_long", {{1056, 1, 2}}, 2);
    linear_spirals("linear_spirals", {{2, 3, 2}, {2, 5, 2}, {3, 4, 3}});
    linear_wide("linear_wide", {{262, 1, 3}, {3, 260, 3}, {40, 7, 20}}, 3);
    linear_relations(3, 2, 0, 0, true);
    linear_relations(3, 3, 0, 1, true);
    linear_relations(4, 2, 1, 0, true);
    linear_relations(5, 2, 2, 0, true);
    linear_relations(5, 3, 2, 1, true);
    linear_subsets(3, 2, 2);
    linear_subsets(2, 3, 2);
    linear_subsets(4, 1, 3);
    linear_chains("linear_chains", chain_shapes());
    linear_chains("linear_chains_large", {{2, 513}, {513, 1}, {23, 23}, {600, 1}});
    if (mc::thorough())
    {
        linear_spirals("linear_spirals_more", {{60, 10, 5}, {2, 12, 2}, {20, 6, 4}});
        linear_wide("linear_wider", {{300, 3, 4}, {520, 1, 5}, {5, 300, 5}, {70, 20, 60}}, 6);
        linear_subsets(3, 2, 3);
        linear_relations(3, 3, 0, 1, false);
        linear_relations(4, 2, 1, 0, false);
        linear_relations(4, 3, 1, 1, false);
        linear_subsets(3, 3, 2);
        linear_subsets(2, 4, 2);
        linear_chains("linear_chains_larger", {{2, 1023}, {1023, 1}, {2, 1024}, {1024, 1}, {2, 1025}, {1025, 1}, {513, 2}, {33, 33}, {2049, 1}, {1025, 2}});
    }
}
