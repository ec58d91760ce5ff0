// The same call with the same arguments, before and after everything it looks at has been replaced in place: results
// must follow the current contents only.  Every check runs the functions of its own property this way.
#pragma once
#include "glue.hpp"

namespace probes
{
using namespace sp::labeling::finder;
using namespace sp::graph::lowest_penalties;
using namespace sp::indexing;
using namespace sp::indexing::checks;

enum Kind
{
    POSITION, NODE_PENALTY, EDGE_PENALTY, LOWEST_PIXEL, LOWEST_EDGE, STORED, EXISTENCE, AVAILABLE, EDGE_AVAILABLE, CHOOSE, STEP, ITERATION,   // for all nodes
    FETCH_PIXEL, FETCH_EDGE, FETCH_ALL, VALID, LEFT, SOLVE, LABEL, SEARCH, MAP, BUILD, KINDS
};
inline bool for_nodes(int k) { return k <= ITERATION || k == FETCH_PIXEL || k == FETCH_EDGE; }

// a problem with everything expected of it
struct Content
{
    Problem p;
    double thr = 0, best = 0;
    std::vector<double> list;
    std::unique_ptr<Constraints> k;
    Avail a, solved;
    std::vector<int> map;
    std::unique_ptr<Real> r;
    std::unique_ptr<ConstraintGraph> c;
};
static const u64 CONTENTS = 40;
inline const Content& content(u64 i)
{
    static std::map<u64, Content> cache;
    Content& q = cache[i];
    if (q.r) return q;
    static const i64 S[8][3] = {{2, 1, 2}, {3, 1, 3}, {2, 2, 2}, {3, 2, 2}, {3, 2, 3}, {2, 3, 2}, {4, 1, 4}, {4, 2, 3}};
    const u64 s = i % 8, v = i / 8;          // variants: as it is; other images; reparametrized; other weights; fewer nodes
    Problem& p = q.p;
    p = problem(S[s][0], S[s][1], S[s][2], v == 3 ? 0.5 : 1, v == 3 ? 3 : 1, 9);
    pattern(p, v == 1 ? 8 : 6);
    reparam(p, v == 2 ? 2 : 0);
    auto set = p.candidates();
    q.list.assign(set.begin(), set.end());
    for (double t : q.list) { Constraints k(p, t); if (ref::any(k.gfp(k.nodeOk))) { q.best = t; break; } }
    q.thr = q.list[std::min(q.list.size() - 1, (size_t)(std::find(q.list.begin(), q.list.end(), q.best) - q.list.begin() + 1))];
    q.k.reset(new Constraints(p, q.thr));
    q.a = q.k->nodeOk;
    if (v == 4) for (size_t n = 0; n < q.a.size(); ++n) if (mc::mix(n + i) % 5 == 0) q.a[n] = 0;
    q.solved = q.k->gfp(q.a);
    q.map = q.k->greedy(q.a);
    q.r.reset(new Real(p));
    q.c.reset(new ConstraintGraph(&q.r->g, &q.r->l, q.thr));
    return q;
}
// the place where contents live one after another
struct Place
{
    DisparityGraph g;
    LowestPenalties l;
    ConstraintGraph c;
    explicit Place(const Content& q) : g(q.r->g), l(q.r->l), c(*q.c) { set(q, POSITION); }
    void set(const Content& q, int kind)
    {
        g = q.r->g;
        l = q.r->l;
        l.graph = &g;
        c = *q.c;
        c.disparity_graph = &g;
        c.lowest_penalties = &l;
        if (kind == EDGE_AVAILABLE) return;
        set_avail(c, q.p, q.a);
        if (kind == MAP && !q.map.empty())
            for (i64 y = 0; y < q.p.h; ++y) for (i64 x = 0; x < q.p.w; ++x) for (i64 d = 0; d < q.p.levels(x); ++d)
                if (d == q.map[y * q.p.w + x]) make_node_available(&c, N_(x, y, d));
                else make_node_unavailable(&c, N_(x, y, d));
    }
};
template <class A> inline std::vector<double> doubles(const A& a) { return std::vector<double>(a.begin(), a.end()); }

inline void run(int kind, const Content& q, Place& s, i64 x, i64 y, i64 d, const std::string& how)
{
    const Problem& p = q.p;
    mc::step();
    auto eq = [&](double got, double want, const char* what) {
        MC_CHECK(got == want, "%s of %lld,%lld:%lld is %g instead of %g after %s; %s", what, x, y, d, got, want, how.c_str(), p.show().c_str());
    };
    const double low = for_nodes(kind) ? p.lowestNode(x, y) : 0;
    switch (kind)
    {
        case POSITION:
            eq(pixel_value(&s.g.right, P_(x, y)), p.R[y * p.w + x], "intensity");
            eq(pixel_value(&s.g.left, P_(x + d, y)), p.L[y * p.w + x + d], "left intensity");
            for (int n = 0; n < 4; ++n)
            {
                eq(reparametrization_value_fast(&s.g, N_(x, y, d), n), p.phi(x, y, d, n), "reparametrization element");
                i64 u = x + ref::dir(n).x, v = y + ref::dir(n).y;
                if (!p.px(u, v)) continue;
                eq(reparametrization_value(&s.g, N_(x, y, d), P_(u, v)), p.phi(x, y, d, n), "reparametrization element (by pixel)");
                eq(reparametrization_value_slow(&s.g, E_(x, y, d, u, v, 0)), p.phi(x, y, d, n), "reparametrization element (by edge)");
                UL i = neighborhood_index_fast(&s.g, P_(x, y), n);
                eq(neighborhood_index(&s.g, P_(x, y), P_(u, v)), i, "position of neighbourhood (by pixel)");
                eq(neighborhood_index_slow(&s.g, E_(x, y, d, u, v, 0)), i, "position of neighbourhood (by edge)");
                MC_CHECK(i < s.l.neighborhoods.size(), "position of a neighbourhood is out of range after %s; %s", how.c_str(), p.show().c_str());
            }
            MC_CHECK(node_index(&s.g, N_(x, y, d)) < s.c.nodes_availability.size() && pixel_index(&s.g.right, P_(x, y)) < s.g.right.data.size(), "position is out of range after %s; %s", how.c_str(), p.show().c_str());
            break;
        case NODE_PENALTY: eq(node_penalty(&s.g, N_(x, y, d)), p.nodePenalty(x, y, d), "penalty"); break;
        case LOWEST_PIXEL: eq(calculate_lowest_pixel_penalty(&s.g, P_(x, y)), low, "lowest penalty"); break;
        case AVAILABLE: eq((bool)is_node_available(&s.c, N_(x, y, d)), (bool)q.a[p.ix(x, y, d)], "availability"); break;
        case FETCH_PIXEL:
        {
            auto want = p.nodeDeviations(x, y, low);
            MC_CHECK(doubles(fetch_pixel_available_penalties(&s.g, P_(x, y), low)) == doubles(want), "other deviations of pixel %lld,%lld after %s; %s", x, y, how.c_str(), p.show().c_str());
            break;
        }
        case CHOOSE:
        {
            i64 m = -1;
            for (i64 e = 0; e < p.levels(x); ++e) if (q.a[p.ix(x, y, e)] && (m < 0 || p.nodePenalty(x, y, e) < p.nodePenalty(x, y, m))) m = e;
            Avail want = q.a;
            for (i64 e = 0; e < p.levels(x); ++e) want[p.ix(x, y, e)] = e == m;
            bool found = choose_best_node(&s.c, P_(x, y)) != nullptr;
            Avail b = get_avail(s.c, p);
            MC_CHECK(found == (m >= 0) && (!found || b == want), "choice in %lld,%lld leaves %s instead of %s after %s; %s", x, y, ref::show(p, b).c_str(), ref::show(p, want).c_str(), how.c_str(), p.show().c_str());
            break;
        }
        case STEP: case ITERATION:
        {
            bool changed = kind == STEP ? csp_process_pixel(&s.c, P_(x, y)) : csp_solution_iteration(&s.c, p.h, y);
            Avail b = get_avail(s.c, p);
            bool less = false, sound = true;
            for (size_t i = 0; i < b.size(); ++i) { sound = sound && (!b[i] || q.a[i]) && (b[i] || !q.solved[i]); less = less || b[i] != q.a[i]; }
            MC_CHECK(sound && changed == less, "a step leaves %s of %s (change reported: %d) after %s; %s", ref::show(p, b).c_str(), ref::show(p, q.a).c_str(), (int)changed, how.c_str(), p.show().c_str());
            bool stable = true;
            for (i64 e = 0; e < p.levels(x); ++e) stable = stable && (!q.a[p.ix(x, y, e)] || q.k->supported(q.a, x, y, e));
            if (kind == STEP) MC_CHECK(changed == !stable, "a step reports %d at %lld,%lld of %s after %s; %s", (int)changed, x, y, ref::show(p, q.a).c_str(), how.c_str(), p.show().c_str());
            break;
        }
        case EDGE_PENALTY: case LOWEST_EDGE: case STORED: case EXISTENCE: case EDGE_AVAILABLE: case FETCH_EDGE:
            if (kind == STORED) eq(lowest_pixel_penalty(&s.l, P_(x, y)), low, "stored lowest penalty");
            if (kind == EXISTENCE) eq(node_exists(&s.g, N_(x, y, d)), p.node(x, y, d), "existence");
            for (int n = 0; n < 4; ++n)
            {
                i64 u = x + ref::dir(n).x, v = y + ref::dir(n).y;
                if (kind == EXISTENCE)
                {
                    eq((bool)neighborhood_exists_fast(&s.g, P_(x, y), n), p.px(u, v), "existence of neighbour");
                    eq((bool)neighborhood_exists(&s.g, P_(x, y), P_(u, v)), p.px(u, v), "existence of neighbouring pixel");
                }
                if (!p.px(u, v)) continue;
                if (kind == LOWEST_EDGE)
                {
                    double want = p.lowestEdge(x, y, u, v);
                    eq(calculate_lowest_neighborhood_penalty(&s.g, P_(x, y), P_(u, v)), want, "lowest penalty of neighbourhood");
                    eq(calculate_lowest_neighborhood_penalty_slow(&s.g, P_(x, y), n), want, "lowest penalty of neighbourhood (by number)");
                    eq(calculate_lowest_neighborhood_penalty_fast(&s.g, E_(x, y, 0, u, v, 0)), want, "lowest penalty of neighbourhood (by edge)");
                    continue;
                }
                if (kind == STORED)
                {
                    double want = p.lowestEdge(x, y, u, v);
                    eq(lowest_neighborhood_penalty_fast(&s.l, P_(x, y), P_(u, v)), want, "stored lowest penalty of neighbourhood");
                    eq(lowest_neighborhood_penalty(&s.l, E_(x, y, d, u, v, 0)), want, "stored lowest penalty of neighbourhood (by edge)");
                    continue;
                }
                if (kind == FETCH_EDGE)
                {
                    double l = p.lowestEdge(x, y, u, v);
                    MC_CHECK(doubles(fetch_edge_available_penalties(&s.g, E_(x, y, 0, u, v, 0), l)) == doubles(p.edgeDeviations(x, y, u, v, l)), "other deviations of neighbourhood %lld,%lld-%lld,%lld after %s; %s", x, y, u, v, how.c_str(), p.show().c_str());
                    continue;
                }
                for (i64 e = 0; e < p.levels(u); ++e)
                {
                    if (kind == EDGE_PENALTY) eq(edge_penalty(&s.g, E_(x, y, d, u, v, e)), p.edgePenalty(x, y, d, u, v, e), "penalty of an edge");
                    if (kind == EXISTENCE) eq((bool)edge_exists(&s.g, E_(x, y, d, u, v, e)), p.edge(x, y, d, u, v, e), "existence of an edge");
                    if (kind == EDGE_AVAILABLE)
                        eq((bool)is_edge_available(&s.c, E_(x, y, d, u, v, e)), q.k->nodeOk[p.ix(x, y, d)] && q.k->nodeOk[p.ix(u, v, e)] && q.k->edge(x, y, d, n, e), "availability of an edge");
                }
            }
            break;
        case FETCH_ALL: MC_CHECK(doubles(fetch_available_penalties(&s.l)) == q.list, "other candidates after %s; %s", how.c_str(), p.show().c_str()); break;
        case VALID: MC_CHECK(image_valid(&s.g.left) && image_valid(&s.g.right), "an image is called invalid after %s; %s", how.c_str(), p.show().c_str()); break;
        case LEFT: MC_CHECK((bool)check_nodes_left(&s.c) == ref::any(q.a), "it is reported wrongly whether nodes are left after %s; %s", how.c_str(), p.show().c_str()); break;
        case SOLVE:
        {
            bool ok = solve_csp(&s.c);
            MC_CHECK(ok == ref::any(q.solved) && get_avail(s.c, p) == q.solved, "solving %s leaves %s instead of %s after %s; %s", ref::show(p, q.a).c_str(), ref::show(p, get_avail(s.c, p)).c_str(), ref::show(p, q.solved).c_str(), how.c_str(), p.show().c_str());
            break;
        }
        case LABEL: case MAP:
        {
            if (kind == LABEL)
            {
                bool found = find_labeling(&s.c) != nullptr;
                MC_CHECK(!found || !q.map.empty(), "an impossible labeling is found after %s; %s", how.c_str(), p.show().c_str());
                MC_CHECK(found || q.map.empty() || !p.rep.empty(), "no labeling is found after %s; %s", how.c_str(), p.show().c_str());
                if (!found) return;
            }
            bool single = kind == LABEL || !q.map.empty(), got = true;
            if (!single)
            {
                single = true;
                for (i64 v = 0; v < p.h; ++v) for (i64 u = 0; u < p.w; ++u) { int n = 0; for (i64 e = 0; e < p.levels(u); ++e) n += q.a[p.ix(u, v, e)]; single = single && n == 1; }
            }
            try
            {
                Image m = build_disparity_map(&s.c);
                if (!q.map.empty()) MC_CHECK(std::vector<int>(m.data.begin(), m.data.end()) == q.map, "another map after %s; %s", how.c_str(), p.show().c_str());
            }
            catch (const std::logic_error&) { got = false; }
            MC_CHECK(got == single, "a map is %sbuilt after %s; %s", got ? "" : "not ", how.c_str(), p.show().c_str());
            break;
        }
        case SEARCH:
        {
            double t = calculate_minimal_consistent_threshold(&s.l, &s.g, sp::types::FLOAT_ARRAY(q.list.begin(), q.list.end()));
            MC_CHECK(t == q.best, "threshold %g instead of %g after %s; %s", t, q.best, how.c_str(), p.show().c_str());
            break;
        }
        case BUILD:
        {
            ConstraintGraph n(&s.g, &s.l, q.thr);
            MC_CHECK(get_avail(n, p) == q.k->nodeOk, "a new graph has other nodes after %s; %s", how.c_str(), p.show().c_str());
            break;
        }
    }
}
// every pair of contents, one after the other in the same place
inline void in_place(std::vector<int> kinds)
{
    mc::space("in_place", {CONTENTS, CONTENTS}, [=](const Digits& g) {
        const Content &A = content(g[0]), &B = content(g[1]);
        Place s(A);
        mc::state();
        for (int kind : kinds)
        {
            auto turn = [&](i64 x, i64 y, i64 d) {
                for (const Content* q : {&A, &B, &A})
                {
                    s.set(*q, kind);
                    run(kind, *q, s, x, y, d, q == &A ? "another problem had been or is to be in its place" : "another problem had been in its place");
                }
                mc::trace();
            };
            if (!for_nodes(kind)) { turn(0, 0, 0); continue; }
            for (i64 y = 0; y < A.p.h && y < B.p.h; ++y) for (i64 x = 0; x < A.p.w && x < B.p.w; ++x) for (i64 d = 0; d < std::min(A.p.levels(x), B.p.levels(x)); ++d)
                turn(x, y, d);
        }
    });
}
}
