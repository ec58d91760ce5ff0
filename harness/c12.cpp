// C12: positions of all elements of all sizes are unique, in range, and all lookup forms agree.
#include "glue.hpp"
#include "probes.hpp"
using namespace sp::indexing;

static void all(i64 W_, i64 H)
{
    mc::space(fmt("sizes%lldx%lld", W_, H), {(u64)(W_ - 1), (u64)H, (u64)(W_ - 1)}, [=](const Digits& g) {
        i64 w = 2 + (i64)g[0], h = 1 + (i64)g[1], D = 2 + (i64)g[2];
        if (D > w) return;
        std::string s = shape(w, h, D);
        Problem p = problem(w, h, D, 1, 1, 1000000);
        for (size_t i = 0; i < p.L.size(); ++i) { p.L[i] = i + 1; p.R[i] = 5000 + i; }
        DisparityGraph r = real_graph(p);
        LowestPenalties l(&r);
        ConstraintGraph c(&r, &l, 0);
        for (size_t i = 0; i < r.reparametrization.size(); ++i) r.reparametrization[i] = (double)i;
        for (size_t i = 0; i < l.neighborhoods.size(); ++i) l.neighborhoods[i] = (double)i;
        for (size_t i = 0; i < l.pixels.size(); ++i) l.pixels[i] = (double)i;
        std::set<UL> px, nd, nb, rp;
        auto uniq = [&](std::set<UL>& set, UL pos, size_t size, const char* what) {
            mc::state();
            mc::step();
            MC_CHECK(pos < size, "position %lu of a %s is out of the array of %zu for %s", pos, what, size, s.c_str());
            MC_CHECK(set.insert(pos).second, "position %lu is shared by two %ss for %s", pos, what, s.c_str());
        };
        for (i64 y = 0; y < h; ++y) for (i64 x = 0; x < w; ++x)
        {
            UL i = pixel_index(&r.left, P_(x, y));
            uniq(px, i, r.left.data.size(), "pixel");
            MC_CHECK(pixel_index(&r.right, P_(x, y)) == i, "positions of a pixel differ in the images");
            MC_CHECK(pixel_value(&r.left, P_(x, y)) == p.L[y * w + x] && pixel_value(&r.right, P_(x, y)) == p.R[y * w + x], "value of pixel %lld,%lld is wrong for %s", x, y, s.c_str());
            MC_CHECK(lowest_pixel_penalty(&l, P_(x, y)) >= 0 && i < l.pixels.size(), "lowest penalty of pixel");
            for (i64 d = 0; d < D; ++d) uniq(nd, node_index(&r, N_(x, y, d)), c.nodes_availability.size(), "node");
            for (int n = 0; n < 4; ++n)
            {
                UL k = neighborhood_index_fast(&r, P_(x, y), n);
                uniq(nb, k, l.neighborhoods.size(), "neighbourhood");
                i64 u = x + ref::dir(n).x, v = y + ref::dir(n).y;
                bool in = p.px(u, v);
                if (in)
                {
                    MC_CHECK(neighborhood_index(&r, P_(x, y), P_(u, v)) == k, "position of neighbourhood by pixel differs for %s", s.c_str());
                    MC_CHECK(neighborhood_index_slow(&r, E_(x, y, 0, u, v, 0)) == k && neighborhood_index_slow(&r, E_(x, y, D - 1, u, v, 1)) == k, "position of neighbourhood by edge differs for %s", s.c_str());
                    MC_CHECK(lowest_neighborhood_penalty_fast(&l, P_(x, y), P_(u, v)) == (double)k && lowest_neighborhood_penalty(&l, E_(x, y, 1, u, v, 0)) == (double)k, "lowest penalty of neighbourhood is looked up at a wrong position for %s", s.c_str());
                    mc::step(5);
                }
                for (i64 d = 0; d < D; ++d)
                {
                    UL q = reparametrization_index_fast(&r, N_(x, y, d), n);
                    uniq(rp, q, r.reparametrization.size(), "reparametrization element");
                    MC_CHECK(reparametrization_value_fast(&r, N_(x, y, d), n) == (double)q, "value of reparametrization by number differs for %s", s.c_str());
                    // neighbouring pixels outside of the images (if they have coordinates at all) are still distinct
                    Pixel o{(UL)u, (UL)v};
                    MC_CHECK(reparametrization_index(&r, N_(x, y, d), o) == q && reparametrization_index_slow(&r, Edge{N_(x, y, d), {o, 0}}) == q, "position of reparametrization by pixel or edge differs for %s", s.c_str());
                    MC_CHECK(reparametrization_value(&r, N_(x, y, d), o) == (double)q && reparametrization_value_slow(&r, Edge{N_(x, y, d), {o, (UL)(D - 1)}}) == (double)q, "value of reparametrization by pixel or edge differs for %s", s.c_str());
                    mc::step(5);
                }
            }
        }
        // availability marks of different nodes live in different places
        for (i64 y = 0; y < h; ++y) for (i64 x = 0; x < w; ++x) for (i64 d = 0; d < p.levels(x); ++d)
        {
            make_all_nodes_unavailable(&c);
            make_node_available(&c, N_(x, y, d));
            size_t marks = 0;
            for (size_t i = 0; i < c.nodes_availability.size(); ++i) if (c.nodes_availability[i]) { marks++; MC_CHECK(i == node_index(&r, N_(x, y, d)), "mark of a node at position %zu for %s", i, s.c_str()); }
            MC_CHECK(marks == 1, "%zu marks set for one node", marks);
        }
        mc::trace();
        mc::sample([&] { return s + fmt(": %zu pixels, %zu nodes, %zu neighbourhoods, %zu elements", px.size(), nd.size(), nb.size(), rp.size()); });
    });
}
// sizes which can't be allocated here: index arithmetic only, on all combinations of boundary coordinates
static void huge()
{
    static const UL S[][3] = {{70000, 70000, 2}, {65536, 65537, 65536}, {100000, 3, 99999}, {3, 1000000, 3}, {1u << 20, 1u << 20, 1u << 16}, {46341, 46341, 300}, {300, 300, 300}, {257, 255, 256}};
    mc::space("huge", {sizeof S / sizeof *S}, [](const Digits& g) {
        UL w = S[g[0]][0], h = S[g[0]][1], D = S[g[0]][2];
        DisparityGraph r;
        r.left.width = r.right.width = w;
        r.left.height = r.right.height = h;
        r.left.max_value = r.right.max_value = 1;
        r.disparity_levels = D;
        auto ends = [](UL n) { std::set<UL> s; for (UL v : {UL(0), UL(1), n / 2, n / 3, n - 2, n - 1}) if (v < n) s.insert(v); return s; };
        std::set<UL> px, nd, nb, rp;
        auto uniq = [&](std::set<UL>& set, UL pos, __uint128_t size, const char* what) {
            mc::state();
            mc::step();
            MC_CHECK(pos < size, "position %lu of a %s is out of the array for %lux%lud%lu", pos, what, w, h, D);
            MC_CHECK(set.insert(pos).second, "position %lu is shared by two %ss for %lux%lud%lu", pos, what, w, h, D);
        };
        for (UL x : ends(w)) for (UL y : ends(h))
        {
            uniq(px, pixel_index(&r.right, Pixel{x, y}), (__uint128_t)w * h, "pixel");
            for (UL d : ends(D)) uniq(nd, node_index(&r, Node{{x, y}, d}), (__uint128_t)w * h * D, "node");
            for (UL n = 0; n < 4; ++n)
            {
                uniq(nb, neighborhood_index_fast(&r, Pixel{x, y}, n), (__uint128_t)w * h * 4, "neighbourhood");
                for (UL d : ends(D)) uniq(rp, reparametrization_index_fast(&r, Node{{x, y}, d}, n), (__uint128_t)w * h * D * 4, "reparametrization element");
            }
        }
        mc::trace();
    });
}
void mc::register_spaces()
{
    probes::in_place({probes::POSITION});
    all(8, 6);
    huge();
    if (mc::thorough()) all(16, 12);
}
MC_MAIN
