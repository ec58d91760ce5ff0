// C08: candidate thresholds of all problems of small shapes.
#include "glue.hpp"
#include "probes.hpp"
using namespace sp::labeling::finder;

static std::string list(const std::vector<double>& v) { std::string s; for (double d : v) s += fmt("%g ", d); return s; }
static void same(const char* what, const sp::types::FLOAT_ARRAY& got, const std::set<double>& want, const Problem& p, const std::string& where)
{
    std::vector<double> g(got.begin(), got.end()), w(want.begin(), want.end());
    MC_CHECK(g == w, "%s%s are [%s] instead of [%s] for %s", what, where.c_str(), list(g).c_str(), list(w).c_str(), p.show().c_str());
    mc::step();
}
static void check(const Problem& p)
{
    mc::state();
    Real r(p);
    auto all = fetch_available_penalties(&r.l);
    same("candidates", all, p.candidates(), p, "");
    MC_CHECK(!all.empty() && all[0] == 0, "candidates don't start with zero for %s", p.show().c_str());
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x)
    {
        for (double low : {p.lowestNode(x, y), 0.0, -1.5})
            same("deviations of pixel", fetch_pixel_available_penalties(&r.g, P_(x, y), low), p.nodeDeviations(x, y, low), p, fmt(" %lld,%lld from %g", x, y, low));
        for (int n = 0; n < 4; ++n)
        {
            i64 u = x + ref::dir(n).x, v = y + ref::dir(n).y;
            if (!p.px(u, v)) continue;
            for (double low : {p.lowestEdge(x, y, u, v), 0.0, 2.25})
                same("deviations of neighbourhood", fetch_edge_available_penalties(&r.g, E_(x, y, 0, u, v, 0), low), p.edgeDeviations(x, y, u, v, low), p, fmt(" %lld,%lld-%lld,%lld from %g", x, y, u, v, low));
        }
    }
    mc::trace();
    mc::sample([&] { return p.show() + " -> [" + list(std::vector<double>(all.begin(), all.end())) + "]"; });
}
static const double W[][2] = {{1, 1}, {0, 1}, {1, 0}, {2, 0.5}};
static void images(i64 w, i64 h, unsigned k)
{
    u64 im = mc::ipow(k, w * h);
    mc::space("images" + shape(w, h, 0) + fmt("_v%u", k), {(u64)(w - 1), 4, im, im}, [=](const Digits& g) {
        Problem p = problem(w, h, 2 + (i64)g[0], W[g[1]][0], W[g[1]][1], k - 1);
        std::vector<unsigned long> al;
        for (unsigned i = 0; i < k; ++i) al.push_back(i);
        fill_image(p.L, g[2], al);
        fill_image(p.R, g[3], al);
        check(p);
    });
}
// every reparametrization with up to two elements from {-1, 0.5, 2} (all positions)
static void reps(i64 w, i64 h, i64 D)
{
    u64 n = (u64)(w * h * D * 4);
    mc::space("elements" + shape(w, h, D), {4, n, n}, [=](const Digits& g) {
        if (g[1] > g[2]) return;
        Problem p = problem(w, h, D, 1, 1, 3);
        pattern(p, (int)g[0]);
        reparam(p, 1);
        p.rep.assign(p.rep.size(), 0.0);
        auto exists = [&](u64 i) { i64 q = (i64)i / 4 / D; return (i64)i / 4 % D < p.levels(q % w); };
        if (!exists(g[1]) || !exists(g[2])) return;
        p.rep[g[1]] += g[0] % 2 ? -1 : 2;
        p.rep[g[2]] += 0.5;
        check(p);
    });
}
static void shapes(i64 W_, i64 H, u64 pats, u64 rp, unsigned long maxv)
{
    mc::space(fmt("shapes%lldx%lld_p%llu_r%llu_max%lu", W_, H, pats, rp, maxv), {(u64)(W_ - 1), (u64)H, (u64)(W_ - 1), 4, pats, rp}, [=](const Digits& g) {
        i64 w = 2 + (i64)g[0], h = 1 + (i64)g[1], D = 2 + (i64)g[2];
        if (D > w) return;
        Problem p = problem(w, h, D, W[g[3]][0], W[g[3]][1], maxv);
        pattern(p, (int)g[4]);
        reparam(p, (int)g[5]);
        check(p);
    });
}
static void scales(i64 W_, i64 H, u64 pats, u64 rp, unsigned long maxv)
{
    mc::space(fmt("scales%lldx%lld_p%llu_r%llu_max%lu", W_, H, pats, rp, maxv), {(u64)(W_ - 1), (u64)H, (u64)(W_ - 1), SCALES, pats, rp}, [=](const Digits& g) {
        i64 w = 2 + (i64)g[0], h = 1 + (i64)g[1], D = 2 + (i64)g[2];
        if (D > w) return;
        Problem p = problem(w, h, D, 1, 1, maxv);
        pattern(p, (int)g[4]);
        reparam(p, (int)g[5]);
        rescale(p, g[3]);
        check(p);
    });
}
static void large(const char* name, std::vector<u64> shapes)
{
    mc::space(name, {shapes.size(), 3}, [=](const Digits& g) {
        Problem p = big(shapes[g[0]], g[1]);
        if (g[1] == 2) { p.maxv = 65536; pattern(p, 5); }
        check(p);
    });
}
// many levels, of which some are too far apart for an edge
static void apart(i64 D)
{
    mc::space(fmt("apart%lld", D), {2, 8, 4}, [=](const Digits& g) {
        Problem p = problem(D + 1, 1, D, 1, 1.0 / 1048576, 1);
        p.rep.assign((size_t)(p.w * p.h * D * 4), 0.0);
        const i64 d = std::max<i64>(0, D - 1 - (i64)g[1]), e = (i64)g[2];
        p.rep[p.ix(0, 0, d) * 4 + 0] = 100;
        p.rep[p.ix(1, 0, e) * 4 + 1] = 100;
        DisparityGraph graph = real_graph(p);
        mc::state();
        const i64 x = (i64)g[0], u = 1 - x;
        const double low = p.lowestEdge(x, 0, u, 0);
        same("deviations of neighbourhood", fetch_edge_available_penalties(&graph, E_(x, 0, 0, u, 0, 0), low), p.edgeDeviations(x, 0, u, 0, low), p, fmt(" %lld,0-%lld,0 from %g", x, u, low));
    });
}
void mc::register_spaces()
{
    apart(20);
    apart(262);
    probes::in_place({probes::FETCH_PIXEL, probes::FETCH_EDGE, probes::FETCH_ALL});
    large("large", {0, 1, 2, 4});
    large("large_levels", {3});
    scales(5, 3, 6, 3, 9);
    images(2, 1, 6);
    images(3, 1, 4);
    images(2, 2, 3);
    images(4, 1, 2);
    images(3, 2, 2);
    reps(3, 2, 3);
    reps(4, 1, 4);
    reps(2, 3, 2);
    shapes(6, 4, 8, 6, 5);
    shapes(8, 2, 6, 4, 65536);
    if (mc::thorough())
    {
        images(4, 1, 3);
        images(2, 3, 2);
        images(5, 1, 2);
        images(4, 2, 2);
        reps(4, 2, 4);
        reps(3, 3, 3);
        reps(6, 1, 6);
        shapes(9, 6, 30, 12, 15);
    }
}
MC_MAIN
