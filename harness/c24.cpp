// C24: everything the library offers on all shapes, under AddressSanitizer, UndefinedBehaviorSanitizer and checked containers.
// The oracle is the absence of reports; results are the business of the other checks.
#include "glue.hpp"
#include <pgm_io.hpp>
#include <sstream>
using namespace sp::labeling::finder;
using namespace sp::indexing;
using namespace sp::indexing::checks;

static volatile double sink;
static const UL BIG = ~0ul;
static std::vector<UL> axis(i64 n)
{
    std::vector<UL> r;
    for (i64 i = 0; i <= n + 1; ++i) r.push_back((UL)i);
    for (UL v : {BIG, BIG - 1, 1ul << 63, (1ul << 63) - 1, 1ul << 32}) r.push_back(v);
    return r;
}
static void queries(const Problem& p, const Real& r, const ConstraintGraph& c, bool outside)
{
    // existing nodes: everything; arbitrary ones: what checks existence itself
    std::vector<UL> X = axis(p.w), Y = axis(p.h), D = axis(p.D);
    u64 n = 0;
    for (UL x : X) for (UL y : Y)
    {
        Pixel q{x, y};
        for (UL d : D) n += node_exists(&r.g, Node{q, d});
        for (UL k = 0; k < 6; ++k) n += neighborhood_exists_fast(&r.g, q, k);
        if (!p.px((i64)x, (i64)y)) continue;
        sink = lowest_pixel_penalty(&r.l, q);
        for (i64 d = 0; d < p.levels(x); ++d)
        {
            Node v = N_(x, y, d);
            sink = node_penalty(&r.g, v);
            n += is_node_available(&c, v);
            n += should_remove_node(&c, v);
            for (UL k = 0; k < 4; ++k) sink = reparametrization_value_fast(&r.g, v, k);
        }
        sink = sp::graph::lowest_penalties::calculate_lowest_pixel_penalty(&r.g, q);
        for (auto v : fetch_pixel_available_penalties(&r.g, q, 0)) sink = v;
        for (UL k = 0; k < 4; ++k) if (neighborhood_exists_fast(&r.g, q, k))
        {
            Pixel u = neighbor_by_index(q, k);
            Edge e{{q, 0}, {u, 0}};
            sink = lowest_neighborhood_penalty(&r.l, e);
            sink = lowest_neighborhood_penalty_fast(&r.l, q, u);
            sink = sp::graph::lowest_penalties::calculate_lowest_neighborhood_penalty(&r.g, q, u);
            sink = sp::graph::lowest_penalties::calculate_lowest_neighborhood_penalty_slow(&r.g, q, k);
            for (auto v : fetch_edge_available_penalties(&r.g, e, 0)) sink = v;
            for (i64 d = 0; d < p.levels(x); ++d) for (i64 b = 0; b < p.levels(u.x); ++b)
            {
                Edge f{{q, (UL)d}, {u, (UL)b}};
                if (edge_exists(&r.g, f)) sink = edge_penalty(&r.g, f);
            }
        }
    }
    // pairs of arbitrary pixels
    for (UL x : X) for (UL y : Y) for (UL u : X) for (UL v : Y)
    {
        if (!outside && (x > 100 || y > 100 || u > 100 || v > 100)) continue;
        n += neighborhood_exists(&r.g, Pixel{x, y}, Pixel{u, v});
        for (UL d : {0ul, 1ul, (UL)p.D - 1, (UL)p.D, BIG}) for (UL e : {0ul, 1ul, (UL)p.D - 1, (UL)p.D, BIG})
        {
            Edge f{{{x, y}, d}, {{u, v}, e}};
            n += edge_exists(&r.g, f);
            n += is_edge_available(&c, f);
            mc::step();
        }
    }
    sink = (double)n;
}
static void pipeline(const Problem& p)
{
    Real r(p);
    mc::state();
    auto list = fetch_available_penalties(&r.l);
    double t = calculate_minimal_consistent_threshold(&r.l, &r.g, list);
    mc::step(3);
    for (double thr : {t, list.back(), list.front(), -1.0})
    {
        ConstraintGraph c(&r.g, &r.l, thr);
        queries(p, r, c, thr == t);
        bool ok = solve_csp(&c);
        mc::step();
        if (thr == t) queries(p, r, c, false);
        ConstraintGraph* f = find_labeling(&c);
        mc::step();
        if (f) { Image m = build_disparity_map(f); sink = (double)m.data[0]; std::ostringstream o; o << sp::image::PGM_IO(std::make_shared<Image>(m)); }
        else try { build_disparity_map(&c); } catch (const std::logic_error&) {}
        mc::step();
        mc::count(ok ? "solved" : "unsolvable");
    }
    mc::trace();
    mc::sample([&] { return p.show(); });
}
static const double W[][2] = {{1, 1}, {0, 1}, {1, 0}, {1e300, 1e300}};
void mc::register_spaces()
{
    const bool T = mc::thorough();
    const i64 SW = T ? 7 : 5, SH = T ? 5 : 3;
    mc::space("pipeline", {(u64)(SW - 1), (u64)SH, (u64)(SW - 1), 4, 3, 3}, [=](const Digits& g) {
        i64 w = 2 + g[0], h = 1 + g[1], D = 2 + g[2];
        if (D > w) return;
        Problem p = problem(w, h, D, W[g[3]][0], W[g[3]][1], 7);
        pattern(p, (int)g[4] * 2);
        reparam(p, g[5] == 0 ? 0 : g[5] == 1 ? 2 : 3);
        pipeline(p);
    });
    // partial steps with any number of jobs
    mc::space("jobs", {4, 4, 3, 8, 8, 4}, [=](const Digits& g) {
        i64 w = 2 + g[0], h = 1 + g[1], D = 2 + g[2];
        if (D > w) return;
        static const UL J[8] = {1, 2, 3, 4, 5, 7, 1000, BIG};
        static const UL N[8] = {0, 1, 2, 3, 4, 6, 999, BIG};
        Problem p = problem(w, h, D, 1, 1, 7);
        pattern(p, 2);
        Real r(p);
        ConstraintGraph c(&r.g, &r.l, g[5] == 3 ? -1 : (double)g[5] * 2);
        for (int i = 0; i < 3; ++i) csp_solution_iteration(&c, J[g[3]], N[g[4]]);
        for (i64 x = 0; x < w; ++x) for (i64 y = 0; y < h; ++y) csp_process_pixel(&c, P_(x, y));
        for (i64 x = 0; x < w; ++x) for (i64 y = 0; y < h; ++y) choose_best_node(&c, P_(x, y));
        mc::state();
        mc::step(3 + 2 * w * h);
        mc::trace();
    });
    // marks: every subset through solving and labeling
    mc::space("subsets", {5, 64, 64}, [](const Digits& g) {
        static const i64 s[5][3] = {{2, 1, 2}, {2, 2, 2}, {3, 1, 3}, {3, 2, 2}, {2, 4, 2}};
        Problem p = problem(s[g[0]][0], s[g[0]][1], s[g[0]][2], 1, 1, 3);
        pattern(p, 2);
        auto nodes = node_list(p);
        u64 m = g[1] * 64 + g[2];
        if (m >> nodes.size()) return;
        Real r(p);
        ConstraintGraph c(&r.g, &r.l, 2);
        set_avail(c, p, from_mask(p, nodes, m));
        solve_csp(&c);
        set_avail(c, p, from_mask(p, nodes, m));
        find_labeling(&c);
        mc::state();
        mc::step(2);
        mc::trace();
    });
    // wide and tall problems, intensities at the limits
    mc::space("large", {6, 3}, [](const Digits& g) {
        static const i64 s[6][3] = {{40, 1, 40}, {2, 40, 2}, {20, 3, 20}, {12, 12, 3}, {33, 2, 32}, {17, 4, 9}};
        static const unsigned long mx[3] = {1, 65536, 0x7fffffff};
        Problem p = problem(s[g[0]][0], s[g[0]][1], s[g[0]][2], 1, 1, mx[g[1]]);
        pattern(p, 5);
        Real r(p);
        auto list = fetch_available_penalties(&r.l);
        double t = calculate_minimal_consistent_threshold(&r.l, &r.g, list);
        ConstraintGraph c(&r.g, &r.l, t);
        if (solve_csp(&c) && find_labeling(&c)) sink = (double)build_disparity_map(&c).data[0];
        mc::state();
        mc::step(5);
        mc::trace();
    });
    // the threshold search on short lists
    mc::space("lists", {3, 5}, [](const Digits& g) {
        Problem p = problem(3, 2, 3, 1, 1, 7);
        pattern(p, 1 + (int)g[0]);
        Real r(p);
        sp::types::FLOAT_ARRAY l;
        for (u64 i = 0; i <= g[1]; ++i) l.push_back((double)i * 40);
        sink = calculate_minimal_consistent_threshold(&r.l, &r.g, l);
        mc::state();
        mc::step();
        mc::trace();
    });
}
MC_MAIN
