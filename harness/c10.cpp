// C10: penalties by definition, symmetry, and invariance of the energy of every map under every reparametrization tried.
#include "glue.hpp"
#include "probes.hpp"

static void definition(const Problem& p)
{
    DisparityGraph g = real_graph(p);
    mc::state();
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) for (i64 d = 0; d < p.levels(x); ++d)
    {
        double got = node_penalty(&g, N_(x, y, d)), want = p.nodePenalty(x, y, d);
        mc::step();
        MC_CHECK(got == want, "penalty of node %lld,%lld:%lld is %g instead of %g for %s", x, y, d, got, want, p.show().c_str());
        for (int n = 0; n < 4; ++n)
        {
            i64 u = x + ref::dir(n).x, v = y + ref::dir(n).y;
            if (!p.px(u, v)) continue;
            for (i64 e = 0; e < p.levels(u); ++e)
            {
                double a = edge_penalty(&g, E_(x, y, d, u, v, e)), b = edge_penalty(&g, E_(u, v, e, x, y, d)), w = p.edgePenalty(x, y, d, u, v, e);
                mc::step(2);
                MC_CHECK(a == w && b == w, "penalty of edge %lld,%lld:%lld-%lld,%lld:%lld is %g (reversed %g) instead of %g for %s", x, y, d, u, v, e, a, b, w, p.show().c_str());
            }
        }
    }
    mc::trace();
    mc::sample([&] { return p.show(); });
}
static double energy(const DisparityGraph& g, const Problem& p, const std::vector<i64>& m)
{
    double s = 0;
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x)
    {
        s += node_penalty(&g, N_(x, y, m[y * p.w + x]));
        if (x + 1 < p.w) s += edge_penalty(&g, E_(x, y, m[y * p.w + x], x + 1, y, m[y * p.w + x + 1]));
        if (y + 1 < p.h) s += edge_penalty(&g, E_(x, y + 1, m[(y + 1) * p.w + x], x, y, m[y * p.w + x]));
    }
    mc::step();
    return s;
}
// every map (each pixel any existing level), energy with and without reparametrization
static void invariance(Problem p)
{
    Problem q = p;
    q.rep.clear();
    DisparityGraph g = real_graph(p), g0 = real_graph(q);
    std::vector<i64> m((size_t)(p.w * p.h), 0);
    mc::state();
    for (;;)
    {
        double a = energy(g, p, m), b = energy(g0, q, m);
        if (a != b)
        {
            std::string s;
            for (auto v : m) s += std::to_string(v) + " ";
            mc::fail(fmt("energy of map %sis %g, but %g without reparametrization, %s", s.c_str(), a, b, p.show().c_str()));
        }
        mc::trace();
        size_t i = 0;
        for (; i < m.size(); ++i) { if (++m[i] < p.levels(i % p.w)) break; m[i] = 0; }
        if (i == m.size()) break;
    }
}
static const double W[][2] = {{1, 1}, {0, 1}, {1, 0}, {2, 0.5}, {0.25, 16}};
static void images(i64 w, i64 h, std::vector<unsigned long> al)
{
    u64 im = mc::ipow(al.size(), w * h);
    unsigned long mx = *std::max_element(al.begin(), al.end());
    mc::space("images" + shape(w, h, 0) + fmt("_v%zu_max%lu", al.size(), mx), {(u64)(w - 1), 5, im, im}, [=](const Digits& g) {
        Problem p = problem(w, h, 2 + (i64)g[0], W[g[1]][0], W[g[1]][1], mx);
        fill_image(p.L, g[2], al);
        fill_image(p.R, g[3], al);
        definition(p);
    });
}
// every single element, and every pair of elements of the reparametrization
static void elements(i64 w, i64 h, i64 D, bool maps)
{
    u64 n = (u64)(w * h * D * 4);
    mc::space((maps ? "energy" : "elements") + shape(w, h, D), {n, n}, [=](const Digits& g) {
        if (g[0] > g[1]) return;
        Problem p = problem(w, h, D, 1, 1, 5);
        pattern(p, 2);
        reparam(p, 1);
        p.rep.assign(p.rep.size(), 0.0);
        for (u64 i : {g[0], g[1]})
        {
            i64 q = (i64)i / 4 / D, x = q % w, y = q / w;
            if ((i64)i / 4 % D >= p.levels(x)) return;
            if (maps && !p.px(x + ref::dir(i % 4).x, y + ref::dir(i % 4).y)) return;
        }
        p.rep[g[0]] += 1.25;
        p.rep[g[1]] -= 7.5;
        if (maps) invariance(p); else definition(p);
    });
}
static void shapes(i64 W_, i64 H, u64 pats, u64 rp, unsigned long maxv, bool maps)
{
    mc::space(fmt("%s%lldx%lld_p%llu_r%llu_max%lu", maps ? "maps" : "shapes", W_, H, pats, rp, maxv), {(u64)(W_ - 1), (u64)H, (u64)(W_ - 1), 5, pats, rp}, [=](const Digits& g) {
        i64 w = 2 + (i64)g[0], h = 1 + (i64)g[1], D = 2 + (i64)g[2];
        if (D > w) return;
        Problem p = problem(w, h, D, W[g[3]][0], W[g[3]][1], maxv);
        pattern(p, (int)g[4]);
        reparam(p, (int)g[5], maps);
        if (maps) { if (p.w * p.h <= 6) invariance(p); }
        else definition(p);
    });
}
static void scales(i64 W_, i64 H, u64 pats, u64 rp, unsigned long maxv)
{
    mc::space(fmt("scales%lldx%lld_p%llu_r%llu_max%lu", W_, H, pats, rp, maxv), {(u64)(W_ - 1), (u64)H, (u64)(W_ - 1), SCALES, pats, rp}, [=](const Digits& g) {
        i64 w = 2 + (i64)g[0], h = 1 + (i64)g[1], D = 2 + (i64)g[2];
        if (D > w) return;
        Problem p = problem(w, h, D, 1, 1, maxv);
        pattern(p, (int)g[4]);
        reparam(p, (int)g[5]);
        rescale(p, g[3]);
        definition(p);
    });
}
static void large()
{
    mc::space("large", {5, 3, 2}, [=](const Digits& g) {
        Problem p = big(g[0], g[1]);
        if (g[1] == 2) { p.maxv = 65536; pattern(p, 5); }
        reparam(p, g[2] ? 3 : 0);
        definition(p);
    });
}
void mc::register_spaces()
{
    probes::in_place({probes::NODE_PENALTY, probes::EDGE_PENALTY});
    large();
    scales(5, 3, 6, 4, 9);
    images(2, 1, {0, 1, 2, 3, 255, 65535, 65536});
    images(3, 1, {0, 1, 7, 300});
    images(2, 2, {0, 2, 65536});
    images(3, 2, {0, 3});
    elements(3, 2, 3, false);
    elements(2, 3, 2, false);
    elements(4, 1, 4, false);
    elements(3, 2, 3, true);
    elements(2, 3, 2, true);
    shapes(6, 5, 6, 8, 9, false);
    shapes(4, 3, 6, 8, 65536, false);
    shapes(4, 3, 3, 8, 9, true);
    if (mc::thorough())
    {
        images(3, 1, {0, 1, 2, 255, 65535, 65536});
        images(4, 1, {0, 1, 3, 65536});
        images(2, 3, {0, 5});
        elements(3, 3, 3, false);
        elements(4, 2, 4, false);
        elements(5, 1, 5, false);
        elements(3, 2, 2, true);
        elements(4, 1, 4, true);
        shapes(9, 7, 10, 14, 300, false);
        shapes(6, 4, 6, 14, 9, true);
    }
}
MC_MAIN
