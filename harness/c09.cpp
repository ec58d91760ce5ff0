// C09: lowest penalties of all problems of small shapes, all forms of the lookup, snapshot semantics.
#include <memory>
#include "glue.hpp"
#include "probes.hpp"
using namespace sp::graph::lowest_penalties;

static void eq(double got, double want, const char* what, const std::string& where, const Problem& p)
{
    MC_CHECK(got == want, "%s%s is %g instead of %g for %s", what, where.c_str(), got, want, p.show().c_str());
    mc::step();
}
static void stored(const LowestPenalties& l, const Problem& p)
{
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x)
    {
        eq(lowest_pixel_penalty(&l, P_(x, y)), p.lowestNode(x, y), "stored lowest penalty of pixel", fmt(" %lld,%lld", x, y), p);
        for (int n = 0; n < 4; ++n)
        {
            i64 u = x + ref::dir(n).x, v = y + ref::dir(n).y;
            if (!p.px(u, v)) continue;
            double want = p.lowestEdge(x, y, u, v);
            std::string w = fmt(" %lld,%lld-%lld,%lld", x, y, u, v);
            eq(lowest_neighborhood_penalty_fast(&l, P_(x, y), P_(u, v)), want, "stored lowest penalty of neighbourhood", w, p);
            eq(lowest_neighborhood_penalty(&l, E_(x, y, 0, u, v, 0)), want, "stored lowest penalty of edge's neighbourhood", w, p);
            eq(lowest_neighborhood_penalty(&l, E_(x, y, p.levels(x) - 1, u, v, p.levels(u) - 1)), want, "stored lowest penalty of edge's neighbourhood", w, p);
        }
    }
}
static void check(const Problem& p)
{
    mc::state();
    Real r(p);
    stored(r.l, p);
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x)
    {
        eq(calculate_lowest_pixel_penalty(&r.g, P_(x, y)), p.lowestNode(x, y), "calculated lowest penalty of pixel", fmt(" %lld,%lld", x, y), p);
        for (int n = 0; n < 4; ++n)
        {
            i64 u = x + ref::dir(n).x, v = y + ref::dir(n).y;
            if (!p.px(u, v)) continue;
            double want = p.lowestEdge(x, y, u, v);
            std::string w = fmt(" %lld,%lld-%lld,%lld", x, y, u, v);
            eq(calculate_lowest_neighborhood_penalty(&r.g, P_(x, y), P_(u, v)), want, "calculated lowest penalty (pixels)", w, p);
            eq(calculate_lowest_neighborhood_penalty_slow(&r.g, P_(x, y), n), want, "calculated lowest penalty (number)", w, p);
            for (i64 d = 0; d < p.levels(x); ++d) for (i64 e = 0; e < p.levels(u); ++e)
                if (p.edge(x, y, d, u, v, e))
                    eq(calculate_lowest_neighborhood_penalty_fast(&r.g, E_(x, y, d, u, v, e)), want, "calculated lowest penalty (edge)", w, p);
        }
    }
    // the stored values are a snapshot
    for (auto& v : r.g.reparametrization) v += 3.5;
    stored(r.l, p);
    for (auto& v : r.g.reparametrization) v = -v * 2;
    stored(r.l, p);
    LowestPenalties copy = r.l;
    stored(copy, p);
    mc::trace();
    mc::sample([&] { return p.show(); });
}
static const double W[][2] = {{1, 1}, {0, 1}, {1, 0}, {2, 0.5}};
static void images(i64 w, i64 h, unsigned k)
{
    u64 im = mc::ipow(k, w * h);
    mc::space("images" + shape(w, h, 0) + fmt("_v%u", k), {(u64)(w - 1), 4, im, im}, [=](const Digits& g) {
        Problem p = problem(w, h, 2 + (i64)g[0], W[g[1]][0], W[g[1]][1], k - 1);
        std::vector<unsigned long> al;
        for (unsigned i = 0; i < k; ++i) al.push_back(i);
        fill_image(p.L, g[2], al);
        fill_image(p.R, g[3], al);
        check(p);
    });
}
static void reps(i64 w, i64 h, i64 D, std::vector<double> values)
{
    u64 n = (u64)(w * h * D * 4);
    mc::space("elements" + shape(w, h, D) + fmt("_%g", values[0]), {values.size(), n, n}, [=](const Digits& g) {
        if (g[1] > g[2]) return;
        Problem p = problem(w, h, D, 1, 1, 3);
        pattern(p, 2);
        reparam(p, 1);
        p.rep.assign(p.rep.size(), 0.0);
        auto exists = [&](u64 i) { i64 q = (i64)i / 4 / D; return (i64)i / 4 % D < p.levels(q % w); };
        if (!exists(g[1]) || !exists(g[2])) return;
        p.rep[g[1]] += values[g[0]];
        p.rep[g[2]] += values[(g[0] + 1) % values.size()];
        check(p);
    });
}
static void shapes(i64 W_, i64 H, u64 pats, u64 rp, unsigned long maxv)
{
    mc::space(fmt("shapes%lldx%lld_p%llu_r%llu_max%lu", W_, H, pats, rp, maxv), {(u64)(W_ - 1), (u64)H, (u64)(W_ - 1), 4, pats, rp}, [=](const Digits& g) {
        i64 w = 2 + (i64)g[0], h = 1 + (i64)g[1], D = 2 + (i64)g[2];
        if (D > w) return;
        Problem p = problem(w, h, D, W[g[3]][0], W[g[3]][1], maxv);
        pattern(p, (int)g[4]);
        reparam(p, (int)g[5]);
        check(p);
    });
}
static void scales(i64 W_, i64 H, u64 pats, u64 rp, unsigned long maxv)
{
    mc::space(fmt("scales%lldx%lld_p%llu_r%llu_max%lu", W_, H, pats, rp, maxv), {(u64)(W_ - 1), (u64)H, (u64)(W_ - 1), SCALES, pats, rp}, [=](const Digits& g) {
        i64 w = 2 + (i64)g[0], h = 1 + (i64)g[1], D = 2 + (i64)g[2];
        if (D > w) return;
        Problem p = problem(w, h, D, 1, 1, maxv);
        pattern(p, (int)g[4]);
        reparam(p, (int)g[5]);
        rescale(p, g[3]);
        check(p);
    });
}
static void large(const char* name, std::vector<u64> shapes)
{
    mc::space(name, {shapes.size(), 3, 2}, [=](const Digits& g) {
        Problem p = big(shapes[g[0]], g[1]);
        if (g[1] == 2) { p.maxv = 65536; pattern(p, 5); }
        reparam(p, g[2] ? 3 : 0);
        check(p);
    });
}
// the lowest penalty belongs to any one of very many levels
static void levels(i64 D)
{
    mc::space(fmt("levels%lld", D), {2, (u64)D}, [=](const Digits& g) {
        Problem p = problem(D, g[0] ? 2 : 1, D, 1, 1, 9);
        p.rep.assign((size_t)(p.w * p.h * D * 4), 0.0);
        const i64 d = (i64)g[1], y = p.h - 1;
        for (int n = 0; n < 4; ++n) p.rep[p.ix(0, y, d) * 4 + n] = -100;
        DisparityGraph graph = real_graph(p);
        // storing takes long, as it looks at all edges
        std::unique_ptr<LowestPenalties> l;
        if (D < 30 || (d % 64 < 2 && !g[0]) || d >= D - 1) l.reset(new LowestPenalties(&graph));
        mc::state();
        const double lowest = p.lowestNode(0, y);
        if (l) eq(lowest_pixel_penalty(l.get(), P_(0, y)), lowest, "stored lowest penalty of pixel", fmt(" 0,%lld", y), p);
        eq(calculate_lowest_pixel_penalty(&graph, P_(0, y)), lowest, "calculated lowest penalty of pixel", fmt(" 0,%lld", y), p);
        for (int n = 0; n < 4; ++n) for (int from = 0; from < 2; ++from)
        {
            i64 x = 0, v = y, u = ref::dir(n).x, z = y + ref::dir(n).y;
            if (!p.px(u, z)) continue;
            if (from) { std::swap(x, u); std::swap(v, z); }
            const double want = p.lowestEdge(x, v, u, z);
            std::string w = fmt(" %lld,%lld-%lld,%lld", x, v, u, z);
            if (l) eq(lowest_neighborhood_penalty_fast(l.get(), P_(x, v), P_(u, z)), want, "stored lowest penalty of neighbourhood", w, p);
            eq(calculate_lowest_neighborhood_penalty(&graph, P_(x, v), P_(u, z)), want, "calculated lowest penalty (pixels)", w, p);
        }
    });
}
// edges which would be the cheapest ones don't exist, as their levels are too far apart
static void apart(i64 D)
{
    mc::space(fmt("apart%lld", D), {2, (u64)D, 3}, [=](const Digits& g) {
        Problem p = problem(D + 1, 1, D, 1, 1.0 / 1048576, 1);
        p.rep.assign((size_t)(p.w * p.h * D * 4), 0.0);
        const i64 d = (i64)g[1], e = g[2] == 0 ? 0 : g[2] == 1 ? d / 2 : D - 1;
        p.rep[p.ix(0, 0, d) * 4 + 0] = 100;
        p.rep[p.ix(1, 0, e) * 4 + 1] = 100;
        DisparityGraph graph = real_graph(p);
        mc::state();
        const i64 x = (i64)g[0], u = 1 - x;
        eq(calculate_lowest_neighborhood_penalty(&graph, P_(x, 0), P_(u, 0)), p.lowestEdge(x, 0, u, 0), "calculated lowest penalty (pixels)", fmt(" %lld,0-%lld,0", x, u), p);
    });
}
void mc::register_spaces()
{
    levels(20);
    apart(20);
    apart(262);
    levels(262);
    probes::in_place({probes::LOWEST_PIXEL, probes::LOWEST_EDGE, probes::STORED});
    large("large", {0, 1, 2, 4});
    scales(5, 3, 6, 4, 9);
    images(2, 1, 6);
    images(3, 1, 4);
    images(2, 2, 3);
    images(4, 1, 2);
    images(3, 2, 2);
    reps(3, 2, 3, {5, -5, 100});
    reps(4, 1, 4, {5, -5, -100});
    reps(2, 3, 2, {3, -30});
    shapes(6, 4, 8, 8, 5);
    shapes(8, 2, 6, 6, 65536);
    if (mc::thorough())
    {
        images(4, 1, 3);
        images(2, 3, 2);
        images(5, 1, 2);
        images(4, 2, 2);
        reps(4, 2, 4, {5, -5, 100});
        reps(3, 3, 3, {5, -5, 100});
        reps(6, 1, 6, {4, -9});
        shapes(9, 6, 30, 12, 15);
    }
}
MC_MAIN
