// C11: existence checks for every combination of coordinates in and around the images, and far outside (all word boundaries).
#include "glue.hpp"
#include "probes.hpp"
using namespace sp::indexing;
using namespace sp::indexing::checks;

typedef unsigned long C;
// a coordinate is inside of the reference only if it is a small number
static i64 ref_of(C v) { return v < 1000000 ? (i64)v : -1000; }

static std::vector<C> axis(C n)
{
    std::vector<C> r;
    for (C i = 0; i <= n + 1; ++i) r.push_back(i);
    for (C v : {C(255), C(256), C(65535), C(65536), C(0x7fffffff), C(0x80000000), C(0xffffffff), C(0x100000000), C(0x100000001), C(0x7fffffffffffffff), C(0x8000000000000000), C(0) - 2, C(0) - 1}) r.push_back(v);
    for (C k = 1; k <= n; ++k) r.push_back(C(0) - k - 2);
    return r;
}
static DisparityGraph sized(i64 w, i64 h, i64 D)
{
    Problem p = problem(w, h, D, 1, 1, 1);
    return real_graph(p);
}
static void nodes(i64 W_, i64 H)
{
    mc::space(fmt("nodes%lldx%lld", W_, H), {(u64)(W_ - 1), (u64)H, (u64)(W_ - 1)}, [=](const Digits& g) {
        i64 w = 2 + (i64)g[0], h = 1 + (i64)g[1], D = 2 + (i64)g[2];
        if (D > w) return;
        Problem p = problem(w, h, D, 1, 1, 1);
        DisparityGraph r = sized(w, h, D);
        for (C x : axis(w)) for (C y : axis(h)) for (C d : axis(D))
        {
            bool got = node_exists(&r, Node{{x, y}, d}), want = p.node(ref_of(x), ref_of(y), ref_of(d));
            mc::step();
            MC_CHECK(got == want, "existence of node %lu,%lu:%lu in %s is reported as %d", x, y, d, shape(w, h, D).c_str(), (int)got);
        }
        mc::state(axis(w).size() * axis(h).size() * axis(D).size());
        for (C x : axis(w)) for (C y : axis(h))
        {
            for (C n : {C(0), C(1), C(2), C(3), C(4), C(5), C(255), C(256), C(0xffffffff), C(0x100000000), C(0) - 1})
            {
                i64 rx = ref_of(x), ry = ref_of(y);
                bool want = p.px(rx, ry) && n < 4 && p.px(rx + ref::dir(n % 4).x, ry + ref::dir(n % 4).y);
                bool got = neighborhood_exists_fast(&r, Pixel{x, y}, n);
                mc::step();
                MC_CHECK(got == want, "existence of neighbour %lu of %lu,%lu in %s is reported as %d", n, x, y, shape(w, h, D).c_str(), (int)got);
                if (n < 4)
                {
                    Pixel q = neighbor_by_index(Pixel{x, y}, n);
                    MC_CHECK(q.x == x + (C)ref::dir(n).x && q.y == y + (C)ref::dir(n).y, "neighbour %lu of %lu,%lu is %lu,%lu", n, x, y, q.x, q.y);
                    C back = neighbor_index(Pixel{x, y}, q);
                    MC_CHECK(back == n, "neighbour %lu of %lu,%lu converts back to number %lu", n, x, y, back);
                    MC_CHECK((bool)neighborhood_exists(&r, Pixel{x, y}, q) == want, "neighbourhood %lu,%lu-%lu,%lu in %s: wrong existence", x, y, q.x, q.y, shape(w, h, D).c_str());
                    mc::step(3);
                }
            }
        }
        mc::trace();
        mc::sample([&] { return "all coordinates of " + shape(w, h, D); });
    });
}
static void pairs(i64 W_, i64 H)
{
    mc::space(fmt("pairs%lldx%lld", W_, H), {(u64)(W_ - 1), (u64)H, axis(W_).size()}, [=](const Digits& g) {
        i64 w = 2 + (i64)g[0], h = 1 + (i64)g[1];
        Problem p = problem(w, h, 2, 1, 1, 1);
        DisparityGraph r = sized(w, h, 2);
        if (g[2] >= axis(w).size()) return;
        C x = axis(w)[g[2]];
        for (C y : axis(h)) for (C u : axis(w)) for (C v : axis(h))
        {
            mc::state();
            bool want = p.adjacent(ref_of(x), ref_of(y), ref_of(u), ref_of(v));
            bool got = neighborhood_exists(&r, Pixel{x, y}, Pixel{u, v}), rev = neighborhood_exists(&r, Pixel{u, v}, Pixel{x, y});
            mc::step(2);
            MC_CHECK(got == want && rev == want, "neighbourhood %lu,%lu-%lu,%lu in %s is reported as %d, reversed %d", x, y, u, v, shape(w, h, 2).c_str(), (int)got, (int)rev);
            C n = neighbor_index(Pixel{x, y}, Pixel{u, v});
            C wantn = 4;
            for (C k = 0; k < 4; ++k) if (x + (C)ref::dir(k).x == u && y + (C)ref::dir(k).y == v) wantn = k;
            MC_CHECK(n == wantn, "number of neighbour %lu,%lu of %lu,%lu is %lu instead of %lu", u, v, x, y, n, wantn);
        }
        mc::trace();
    });
}
static void edges(i64 W_, i64 H)
{
    mc::space(fmt("edges%lldx%lld", W_, H), {(u64)(W_ - 1), (u64)H, (u64)(W_ - 1), (u64)(W_ + 4)}, [=](const Digits& g) {
        i64 w = 2 + (i64)g[0], h = 1 + (i64)g[1], D = 2 + (i64)g[2];
        if (D > w) return;
        Problem p = problem(w, h, D, 1, 1, 1);
        DisparityGraph r = sized(w, h, D);
        auto some = [](C n) { std::vector<C> a; for (C i = 0; i <= n; ++i) a.push_back(i); a.push_back(C(0) - 1); a.push_back(0x100000000); a.push_back(0xffffffff); return a; };
        std::vector<C> X = some(w), Y = some(h), L = some(D);
        L.push_back(C(0) - 2);
        if (g[3] >= X.size()) return;
        C x = X[g[3]];
        for (C y : Y) for (C u : X) for (C v : Y) for (C d : L) for (C e : L)
        {
            bool want = p.edge(ref_of(x), ref_of(y), ref_of(d), ref_of(u), ref_of(v), ref_of(e));
            bool got = edge_exists(&r, Edge{{{x, y}, d}, {{u, v}, e}}), rev = edge_exists(&r, Edge{{{u, v}, e}, {{x, y}, d}});
            MC_CHECK(got == want && rev == want, "edge %lu,%lu:%lu-%lu,%lu:%lu in %s is reported as %d, reversed %d", x, y, d, u, v, e, shape(w, h, D).c_str(), (int)got, (int)rev);
            mc::state();
        }
        mc::step(2 * Y.size() * X.size() * Y.size() * L.size() * L.size());
        mc::trace();
    });
}
// sizes beyond all word boundaries: the checks look at the sizes only, so that no images are needed
static void huge()
{
    static const std::vector<C> N = {2, 3, 255, 256, 257, 32768, 65535, 65536, 65537, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001, C(1) << 40};
    mc::space("huge", {N.size(), N.size(), N.size()}, [](const Digits& g) {
        const C w = N[g[0]], h = N[g[1]], D = N[g[2]];
        if (D > w) return;
        DisparityGraph r;
        r.left.width = r.right.width = w;
        r.left.height = r.right.height = h;
        r.left.max_value = r.right.max_value = 1;
        r.disparity_levels = D;
        auto around = [&](C n) {
            std::set<C> s = {0, 1, 2, n / 2, n - 2, n - 1, n, n + 1, C(0) - 1, C(0) - 2};
            for (C b : {C(256), C(65536), C(0x80000000), C(0x100000000)}) for (C v : {b - 1, b, b + 1, b + n - 1, b + n}) s.insert(v);
            return s;
        };
        auto inside = [&](C x, C y) { return x < w && y < h; };
        auto node = [&](C x, C y, C d) { return inside(x, y) && d < D && d < w - x; };
        for (C x : around(w)) for (C y : {C(0), h - 1, h, h / 2, C(0) - 1})
        {
            std::set<C> levels = {0, 1, D / 2, D - 1, D, D + 1, C(0) - 1, C(0) - x, w - x - 1, w - x, w - x + 1};
            for (C d : levels)
            {
                bool got = node_exists(&r, Node{{x, y}, d});
                mc::step();
                MC_CHECK(got == node(x, y, d), "existence of node %lu,%lu:%lu in %lux%lud%lu is reported as %d", x, y, d, w, h, D, (int)got);
            }
            for (int n = 0; n < 4; ++n)
            {
                bool want = inside(x, y) && (n == 0 ? x + 1 < w : n == 1 ? x > 0 : n == 2 ? y + 1 < h : y > 0);
                Pixel q = neighbor_by_index(Pixel{x, y}, n);
                bool got = neighborhood_exists_fast(&r, Pixel{x, y}, n), pair = neighborhood_exists(&r, Pixel{x, y}, q);
                mc::step(2);
                MC_CHECK(got == want && pair == want, "existence of neighbour %d of %lu,%lu in %lux%lud%lu is reported as %d and %d", n, x, y, w, h, D, (int)got, (int)pair);
                for (C d : levels) for (C e : {d - 2, d - 1, d, d + 1, d + 2, D - 1})
                {
                    bool edge = want && node(x, y, d) && node(q.x, q.y, e) && (n == 0 ? d <= e + 1 : n == 1 ? e <= d + 1 : true);
                    bool is = edge_exists(&r, Edge{{{x, y}, d}, {q, e}}), back = edge_exists(&r, Edge{{q, e}, {{x, y}, d}});
                    mc::step(2);
                    MC_CHECK(is == edge && back == edge, "edge %lu,%lu:%lu-%lu,%lu:%lu in %lux%lud%lu is reported as %d, reversed %d", x, y, d, q.x, q.y, e, w, h, D, (int)is, (int)back);
                }
            }
        }
        mc::state();
        mc::trace();
    });
}
void mc::register_spaces()
{
    probes::in_place({probes::EXISTENCE});
    huge();
    nodes(8, 5);
    pairs(5, 4);
    edges(5, 3);
    if (mc::thorough())
    {
        nodes(20, 9);
        pairs(9, 8);
        edges(8, 5);
    }
}
MC_MAIN
