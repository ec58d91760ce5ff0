// C01: whole pipeline on all images of small shapes, against brute force.
#include "glue.hpp"
using namespace sp::labeling::finder;

static const double W[][2] = {{1, 1}, {0, 1}, {1, 0}, {2, 0.5}, {0.25, 4}, {1, 16}};

// optimum by definition: smallest candidate deviation for which some map stays within
static double optimum(const Problem& p)
{
    for (double t : p.candidates())
    {
        Constraints k(p, t);
        if (k.labelable(k.nodeOk)) return t;
    }
    return -1;
}
// the same for problems with many candidates: no consistent set of nodes for the candidate below, a map for this one
static double optimum_of_many(const Problem& p)
{
    auto s = p.candidates();
    std::vector<double> v(s.begin(), s.end());
    size_t from = 0, to = v.size();       // the first one with a consistent set
    while (from < to)
    {
        size_t m = (from + to) / 2;
        Constraints k(p, v[m]);
        if (ref::any(k.gfp(k.nodeOk))) to = m; else from = m + 1;
    }
    if (from == v.size()) return -1;
    Constraints k(p, v[from]);
    Avail a = k.gfp(k.nodeOk);
    std::vector<i64> map;
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) { i64 d = 0; while (d < p.D && !a[p.ix(x, y, d)]) ++d; map.push_back(d); }
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) for (int n = 0; n < 4; n += 2)
    {
        i64 u = x + ref::dir(n).x, w = y + ref::dir(n).y;
        if (p.px(u, w) && !k.edge(x, y, map[y * p.w + x], n, map[w * p.w + u])) { fprintf(stderr, "no witness: %s\n", p.show().c_str()); _exit(2); }
    }
    mc::count("problems_with_many_candidates");
    return v[from];
}
static void check(const Problem& p, bool many = false)
{
    const double best = many ? optimum_of_many(p) : optimum(p);
    MC_CHECK(best >= 0, "reference found no map for %s", p.show().c_str());
    mc::state();

    Real r(p);
    auto list = fetch_available_penalties(&r.l);
    double t = calculate_minimal_consistent_threshold(&r.l, &r.g, list);
    mc::step();
    MC_CHECK(t == best, "threshold %g instead of %g for %s", t, best, p.show().c_str());
    ConstraintGraph c(&r.g, &r.l, t);
    bool solved = solve_csp(&c);
    mc::step();
    MC_CHECK(solved, "not solved with threshold %g for %s", t, p.show().c_str());
    ConstraintGraph* f = find_labeling(&c);
    mc::step();
    MC_CHECK(f == &c, "no labeling with threshold %g for %s", t, p.show().c_str());
    Image m = build_disparity_map(f);
    mc::step();
    MC_CHECK(m.width == (UL)p.w && m.height == (UL)p.h && m.data.size() == (size_t)(p.w * p.h), "map has wrong size for %s", p.show().c_str());
    std::string shown;
    for (auto v : m.data) shown += std::to_string(v) + " ";
    double worst = 0;
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x)
    {
        i64 d = (i64)m.data[y * p.w + x];
        MC_CHECK(p.node(x, y, d), "disparity %lld of pixel %lld,%lld doesn't exist in map %s of %s", d, x, y, shown.c_str(), p.show().c_str());
        worst = std::max(worst, p.nodePenalty(x, y, d) - p.lowestNode(x, y));
        for (int n = 0; n < 4; n += 2)
        {
            i64 u = x + ref::dir(n).x, v = y + ref::dir(n).y;
            if (!p.px(u, v)) continue;
            i64 e = (i64)m.data[v * p.w + u];
            MC_CHECK(p.edge(x, y, d, u, v, e), "map %s of %s is not consistent at %lld,%lld", shown.c_str(), p.show().c_str(), x, y);
            worst = std::max(worst, p.edgePenalty(x, y, d, u, v, e) - p.lowestEdge(x, y, u, v));
        }
    }
    MC_CHECK(worst == best, "largest deviation %g of map %s instead of %g for %s", worst, shown.c_str(), best, p.show().c_str());
    mc::trace();
    mc::sample([&] { return p.show() + " -> threshold " + fmt("%g", t) + ", map " + shown; });
}

// all images over `values` intensities, all levels, given weights
static void add(i64 w, i64 h, unsigned values, int weights, std::vector<unsigned long> alphabet = {}, i64 Dmin = 2, i64 Dmax = 100)
{
    if (alphabet.empty()) for (unsigned i = 0; i < values; ++i) alphabet.push_back(i);
    Dmax = std::min(Dmax, w);
    u64 im = mc::ipow(alphabet.size(), w * h);
    std::string al;
    for (auto v : alphabet) al += "_" + std::to_string(v);
    mc::space(fmt("images%s_D%lld-%lld%s", shape(w, h, 0).c_str(), Dmin, Dmax, al.c_str()), {(u64)(Dmax - Dmin + 1), (u64)weights, im, im}, [=](const Digits& g) {
        Problem p = problem(w, h, Dmin + (i64)g[0], W[g[1]][0], W[g[1]][1], *std::max_element(alphabet.begin(), alphabet.end()));
        fill_image(p.L, g[2], alphabet);
        fill_image(p.R, g[3], alphabet);
        check(p);
    });
}
// pseudo-random fixed images of larger shapes: a fixed finite list, not part of the exhaustiveness claim
static void more(i64 w, i64 h, u64 n, unsigned long maxv)
{
    mc::space(fmt("list%s_max%lu", shape(w, h, 0).c_str(), maxv), {(u64)(w - 1), 3, n}, [=](const Digits& g) {
        Problem p = problem(w, h, 2 + (i64)g[0], W[g[1]][0], W[g[1]][1], maxv);
        pattern(p, (int)g[2]);
        check(p);
    });
}

static void scales(i64 W_, i64 H, u64 pats, u64 rp, unsigned long maxv)
{
    mc::space(fmt("scales%lldx%lld_p%llu_r%llu_max%lu", W_, H, pats, rp, maxv), {(u64)(W_ - 1), (u64)H, (u64)(W_ - 1), SCALES, pats, rp}, [=](const Digits& g) {
        i64 w = 2 + (i64)g[0], h = 1 + (i64)g[1], D = 2 + (i64)g[2];
        if (D > w) return;
        Problem p = problem(w, h, D, 1, 1, maxv);
        pattern(p, (int)g[4]);
        reparam(p, (int)g[5]);
        rescale(p, g[3]);
        check(p);
    });
}
// sizes which don't fit in a byte
static void large(const char* name, u64 from, u64 to, u64 kinds)
{
    mc::space(name, {to - from, kinds}, [=](const Digits& g) { check(big(from + g[0], g[1])); });
}
// many candidates
static void ranges(const char* name, std::vector<std::array<i64, 3>> shapes, u64 pats)
{
    mc::space(name, {shapes.size(), pats, 4}, [=](const Digits& g) {
        static const unsigned long M[4] = {255, 1000, 65536, 31};
        Problem p = problem(shapes[g[0]][0], shapes[g[0]][1], shapes[g[0]][2], W[g[1] % 6][0], W[g[1] % 6][1], M[g[2]]);
        pattern(p, 20 + (int)g[1]);
        check(p, true);
    });
}
// many candidates with the optimum among the last ones: a smoothness so high that the map has to be flat
static void high_ranges(const char* name, std::vector<std::array<i64, 3>> shapes, u64 pats)
{
    mc::space(name, {shapes.size(), pats}, [=](const Digits& g) {
        Problem p = problem(shapes[g[0]][0], shapes[g[0]][1], shapes[g[0]][2], 1, std::ldexp(1.0, 33), 65535);
        pattern(p, 20 + (int)g[1]);
        check(p, true);
        mc::count("optimum_above_most_candidates");
    });
}
void mc::register_spaces()
{
    high_ranges("high_ranges", {{10, 6, 8}, {30, 10, 8}, {50, 1, 50}, {40, 12, 9}, {2, 60, 2}}, 3);
    if (mc::thorough()) high_ranges("high_ranges_more", {{60, 20, 12}, {100, 1, 80}, {12, 80, 12}}, 10);
    ranges("ranges", {{10, 6, 8}, {14, 8, 10}, {20, 5, 12}, {6, 20, 6}, {30, 1, 30}, {2, 60, 2}}, 12);
    if (mc::thorough()) ranges("ranges_more", {{10, 6, 8}, {14, 8, 10}, {20, 5, 12}, {6, 20, 6}, {30, 1, 30}, {2, 60, 2}, {24, 24, 6}, {40, 12, 9}, {12, 40, 12}}, 100);
    large("large", 0, 3, 3);
    large("large_levels", 3, 4, 2);
    scales(5, 3, 6, 1, 5);
    add(2, 1, 5, 6);
    add(2, 2, 3, 4);
    add(3, 1, 4, 6);
    add(4, 1, 3, 4);
    add(5, 1, 2, 6);
    add(3, 2, 2, 4);
    add(2, 3, 2, 4);
    add(2, 4, 2, 2);
    add(4, 2, 2, 1);
    add(3, 1, 0, 3, {0, 1, 255, 65536});
    more(6, 2, 60, 3);
    more(5, 3, 40, 9);
    more(7, 1, 60, 65536);
    more(3, 6, 60, 4);
    more(9, 3, 8, 15);
    if (mc::thorough())
    {
        add(6, 1, 2, 6);
        add(5, 1, 3, 3);
        add(6, 1, 3, 1, {}, 4, 6);
        add(3, 3, 2, 3);
        add(4, 2, 2, 6, {0, 3});
        add(2, 2, 4, 6, {0, 1, 2, 5});
        add(2, 3, 3, 2);
        add(3, 2, 3, 2);
        more(6, 2, 3000, 3);
        more(8, 2, 1500, 2);
        more(8, 4, 200, 7);
        more(12, 3, 60, 30);
    }
}
MC_MAIN
