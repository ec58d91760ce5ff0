// C22: which nodes are available in a new graph, and which edges are available for which marks and thresholds.
#include "glue.hpp"
#include "probes.hpp"

static std::vector<double> thresholds(const Problem& p)
{
    std::set<double> c = p.candidates();
    std::set<double> t;
    for (double v : c)
    {
        t.insert(v);
        // far apart from rounding, close in proportion
        double unit = std::max(p.c, p.s);
        t.insert(v + unit / 1024);
        t.insert(v - unit / 1024);
        if (p.rep.empty() && v < 1024 * unit) { t.insert(v + std::ldexp(unit, -40)); t.insert(v - std::ldexp(unit, -40)); }
        auto n = c.upper_bound(v);
        t.insert(n == c.end() ? v + std::max(p.c, p.s) : (v + *n) / 2);
    }
    t.insert(-1);
    t.insert(1e9);
    return {t.begin(), t.end()};
}
// all coordinates from -1 (wrapped) to one past the end, for both ends
static void edges(const Problem& p, const ConstraintGraph& c, const Avail& a, double thr, bool outside, std::vector<char>* result = nullptr)
{
    i64 lo = outside ? -1 : 0, k = outside ? 1 : 0;
    size_t pos = 0;
    std::vector<double> le((size_t)(p.w * p.h * 4), 0);
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) for (int n = 0; n < 4; ++n)
        if (p.px(x + ref::dir(n).x, y + ref::dir(n).y)) le[(y * p.w + x) * 4 + n] = p.lowestEdge(x, y, x + ref::dir(n).x, y + ref::dir(n).y);
    for (i64 y = lo; y < p.h + k; ++y) for (i64 x = lo; x < p.w + k; ++x) for (i64 d = lo; d < p.D + k; ++d)
        for (i64 v = std::max(lo, y - 2); v < std::min(p.h + k, y + 3); ++v) for (i64 u = std::max(lo, x - 2); u < std::min(p.w + k, x + 3); ++u) for (i64 e = lo; e < p.D + k; ++e)
        {
            bool want = false;
            if (p.edge(x, y, d, u, v, e) && a[p.ix(x, y, d)] && a[p.ix(u, v, e)])
                want = p.edgePenalty(x, y, d, u, v, e) - le[(y * p.w + x) * 4 + Problem::number(x, y, u, v)] <= thr;
            bool got = is_edge_available(&c, E_(x, y, d, u, v, e));
            mc::step();
            MC_CHECK(got == want, "edge %lld,%lld:%lld - %lld,%lld:%lld is reported as %savailable: threshold %.17g, %s of %s", x, y, d, u, v, e, got ? "" : "not ", thr, ref::show(p, a).c_str(), p.show().c_str());
            if (result)
            {
                if (result->size() <= pos) result->push_back(0);
                MC_CHECK(got || !(*result)[pos], "edge %lld,%lld:%lld - %lld,%lld:%lld disappears with a larger threshold %.17g: %s", x, y, d, u, v, e, thr, p.show().c_str());
                (*result)[pos++] = got;
            }
        }
}
static void check(const Problem& p, bool outside)
{
    Real r(p);
    Avail before;
    std::vector<char> edgesBefore;
    for (double t : thresholds(p))
    {
        ConstraintGraph c(&r.g, &r.l, t);
        mc::state();
        mc::step();
        MC_CHECK(c.threshold == t && c.disparity_graph == &r.g && c.lowest_penalties == &r.l, "fields of the graph differ from what was given");
        Avail want((size_t)(p.w * p.h * p.D), 0);
        for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x)
        {
            double low = p.lowestNode(x, y);
            for (i64 d = 0; d < p.levels(x); ++d) want[p.ix(x, y, d)] = p.nodePenalty(x, y, d) - low <= t;
        }
        Avail got = get_avail(c, p);
        MC_CHECK(got == want, "available: %s instead of %s with threshold %.17g: %s", ref::show(p, got).c_str(), ref::show(p, want).c_str(), t, p.show().c_str());
        MC_CHECK((bool)check_nodes_left(&c) == ref::any(want), "nodes left is wrong with threshold %.17g: %s", t, p.show().c_str());
        if (!before.empty()) for (size_t i = 0; i < got.size(); ++i) MC_CHECK(got[i] || !before[i], "a node disappears with a larger threshold");
        before = got;
        edges(p, c, got, t, outside, &edgesBefore);
        mc::trace();
    }
    mc::sample([&] { return p.show() + fmt(": %zu thresholds", thresholds(p).size()); });
}
static const double W[][2] = {{1, 1}, {0, 1}, {1, 0}, {2, 0.5}};
static void images(i64 w, i64 h, unsigned k)
{
    std::vector<unsigned long> al;
    for (unsigned i = 0; i < k; ++i) al.push_back(i);
    u64 im = mc::ipow(k, w * h);
    mc::space("images" + shape(w, h, 0) + fmt("_v%u", k), {(u64)(w - 1), 4, im, im}, [=](const Digits& g) {
        Problem p = problem(w, h, 2 + (i64)g[0], W[g[1]][0], W[g[1]][1], k);
        fill_image(p.L, g[2], al);
        fill_image(p.R, g[3], al);
        check(p, g[2] == g[3]);
    });
}
static void shapes(i64 W_, i64 H, u64 pats, u64 reps, unsigned long maxv)
{
    mc::space(fmt("shapes%lldx%lld_p%llu_r%llu_max%lu", W_, H, pats, reps, maxv), {(u64)(W_ - 1), (u64)H, (u64)(W_ - 1), 4, pats, reps}, [=](const Digits& g) {
        i64 w = 2 + g[0], h = 1 + g[1], D = 2 + g[2];
        if (D > w) return;
        Problem p = problem(w, h, D, W[g[3]][0], W[g[3]][1], maxv);
        pattern(p, (int)g[4]);
        reparam(p, (int)g[5]);
        check(p, g[3] == 0);
    });
}
// one or two elements of the reparametrization at every position
static void elements(i64 w, i64 h, i64 D)
{
    u64 n = w * h * D * 4;
    mc::space("elements" + shape(w, h, D), {3, n, n}, [=](const Digits& g) {
        Problem p = problem(w, h, D, 1, 1, 3);
        pattern(p, 2);
        static const double v[3] = {-3, 0.25, 2};
        p.rep.assign(n, 0);
        p.rep[g[1]] += v[g[0]];
        p.rep[g[2]] += 1.5;
        for (u64 i = 0; i < n; ++i) if (p.rep[i] != 0) { i64 d = i / 4 % D, x = i / 4 / D % w, y = i / 4 / D / w; if (!p.node(x, y, d)) p.rep[i] = 0; }
        check(p, false);
    });
}
// marks: all subsets x thresholds
static void marks(i64 w, i64 h, i64 D, u64 confs)
{
    u64 n = node_count(w, h, D), masks = 1ull << n;
    const u64 CHUNK = 64;
    mc::space("marks" + shape(w, h, D) + fmt("_c%llu", confs), {confs, (masks + CHUNK - 1) / CHUNK}, [=](const Digits& g) {
        Problem p = problem(w, h, D, 1, 1, 3);
        pattern(p, (int)g[0] % 5);
        reparam(p, (int)g[0] % 4);
        Real r(p);
        auto nodes = node_list(p);
        auto c0 = p.candidates();
        std::vector<double> c(c0.begin(), c0.end());
        double t = c[(g[0] * 7 + 3) % c.size()];
        ConstraintGraph cg(&r.g, &r.l, t);
        for (u64 m = g[1] * CHUNK; m < masks && m < (g[1] + 1) * CHUNK; ++m)
        {
            Avail a = from_mask(p, nodes, m);
            set_avail(cg, p, a);
            mc::state();
            edges(p, cg, a, t, m % 16 == 0);
            MC_CHECK(get_avail(cg, p) == a, "asking about edges changed the marks");
            mc::trace();
        }
    });
}
static void scales(i64 W_, i64 H, u64 pats, u64 rp, unsigned long maxv)
{
    mc::space(fmt("scales%lldx%lld_p%llu_r%llu_max%lu", W_, H, pats, rp, maxv), {(u64)(W_ - 1), (u64)H, (u64)(W_ - 1), SCALES, pats, rp}, [=](const Digits& g) {
        i64 w = 2 + (i64)g[0], h = 1 + (i64)g[1], D = 2 + (i64)g[2];
        if (D > w) return;
        Problem p = problem(w, h, D, 1, 1, maxv);
        pattern(p, (int)g[4]);
        reparam(p, (int)g[5]);
        rescale(p, g[3]);
        check(p, false);
    });
}
static void large()
{
    mc::space("large", {4, 3, 3}, [=](const Digits& g) {
        Problem p = big(g[0] == 3 ? 4 : g[0], g[1]);
        if (g[1] == 2) { p.maxv = 65536; pattern(p, 5); }
        Real r(p);
        static const double T[] = {0, 1, 1e5};
        ConstraintGraph c(&r.g, &r.l, T[g[2]]);
        Avail want((size_t)(p.w * p.h * p.D), 0);
        for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) { double low = p.lowestNode(x, y); for (i64 d = 0; d < p.levels(x); ++d) want[p.ix(x, y, d)] = p.nodePenalty(x, y, d) - low <= T[g[2]]; }
        mc::state();
        MC_CHECK(get_avail(c, p) == want, "available nodes are wrong with threshold %g: %s", T[g[2]], p.show().c_str());
        edges(p, c, want, T[g[2]], true);
        mc::trace();
    });
}
void mc::register_spaces()
{
    probes::in_place({probes::BUILD, probes::EDGE_AVAILABLE});
    large();
    scales(4, 2, 5, 2, 9);
    images(2, 1, 3); images(3, 1, 2); images(2, 2, 2); images(4, 1, 2); images(3, 1, 3);
    shapes(5, 3, 4, 3, 6);
    shapes(4, 3, 2, 5, 255);
    elements(2, 2, 2); elements(3, 1, 2); elements(3, 1, 3);
    marks(2, 1, 2, 20); marks(2, 2, 2, 20); marks(3, 1, 3, 20); marks(3, 2, 2, 8); marks(3, 2, 3, 4);
    if (mc::thorough())
    {
        images(3, 2, 2); images(2, 3, 2); images(2, 2, 3); images(5, 1, 2); images(4, 1, 3);
        shapes(7, 5, 3, 3, 9);
        shapes(6, 4, 5, 7, 65536);
        elements(3, 2, 2); elements(3, 2, 3); elements(2, 3, 2);
        marks(3, 2, 3, 20); marks(4, 1, 4, 20); marks(2, 4, 2, 10); marks(3, 3, 2, 3); marks(4, 2, 2, 3);
    }
}
MC_MAIN
