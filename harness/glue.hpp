// Connects the reference model with the real code through its public headers only.
#pragma once
#include <constraint_graph.hpp>
#include <disparity_graph.hpp>
#include <image.hpp>
#include <indexing.hpp>
#include <indexing_checks.hpp>
#include <labeling_finder.hpp>
#include <lowest_penalties.hpp>
#include <types.hpp>

#include "mc.hpp"
#include "ref.hpp"

#include <memory>
#include <stdexcept>

using ref::Avail;
using ref::Constraints;
using ref::i64;
using ref::Problem;
using mc::Digits;
using mc::fmt;
using mc::u64;
using sp::graph::constraint::ConstraintGraph;
using sp::graph::disparity::DisparityGraph;
using sp::graph::lowest_penalties::LowestPenalties;
using sp::image::Image;
using sp::types::Edge;
using sp::types::Node;
using sp::types::Pixel;
typedef sp::types::ULONG UL;

inline Pixel P_(i64 x, i64 y) { return Pixel{(UL)x, (UL)y}; }
inline Node N_(i64 x, i64 y, i64 d) { return Node{{(UL)x, (UL)y}, (UL)d}; }
inline Edge E_(i64 x, i64 y, i64 d, i64 u, i64 v, i64 e) { return Edge{N_(x, y, d), N_(u, v, e)}; }

inline DisparityGraph real_graph(const Problem& p)
{
    Image l{(UL)p.w, (UL)p.h, (UL)p.maxv, sp::types::ULONG_ARRAY(p.L.begin(), p.L.end())};
    Image r{(UL)p.w, (UL)p.h, (UL)p.maxv, sp::types::ULONG_ARRAY(p.R.begin(), p.R.end())};
    DisparityGraph g{l, r, (UL)p.D, p.c, p.s};
    if (!p.rep.empty())
        for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) for (i64 d = 0; d < p.D; ++d) for (int n = 0; n < 4; ++n)
            if (p.phi(x, y, d, n) != 0)
                g.reparametrization[sp::indexing::reparametrization_index_fast(&g, N_(x, y, d), n)] = p.phi(x, y, d, n);
    return g;
}

// A real problem with everything the later stages need; addresses are stable.
struct Real
{
    DisparityGraph g;
    LowestPenalties l;
    explicit Real(const Problem& p) : g(real_graph(p)), l(&g) {}
    Real(const Real&) = delete;
};

inline void set_avail(ConstraintGraph& c, const Problem& p, const Avail& a)
{
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) for (i64 d = 0; d < p.levels(x); ++d)
        if (a[p.ix(x, y, d)]) make_node_available(&c, N_(x, y, d));
        else make_node_unavailable(&c, N_(x, y, d));
}
inline Avail get_avail(const ConstraintGraph& c, const Problem& p)
{
    Avail a((size_t)(p.w * p.h * p.D), 0);
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) for (i64 d = 0; d < p.levels(x); ++d)
        a[p.ix(x, y, d)] = is_node_available(&c, N_(x, y, d)) ? 1 : 0;
    return a;
}
// all existing nodes in a fixed order, to index subsets by bit masks
inline std::vector<size_t> node_list(const Problem& p)
{
    std::vector<size_t> r;
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) for (i64 d = 0; d < p.levels(x); ++d) r.push_back(p.ix(x, y, d));
    return r;
}
inline Avail from_mask(const Problem& p, const std::vector<size_t>& nodes, u64 mask)
{
    Avail a((size_t)(p.w * p.h * p.D), 0);
    for (size_t i = 0; i < nodes.size(); ++i) if (mask >> i & 1) a[nodes[i]] = 1;
    return a;
}
inline u64 node_count(i64 w, i64 h, i64 D) { u64 n = 0; for (i64 x = 0; x < w; ++x) n += std::min(D, w - x); return n * h; }

inline Problem problem(i64 w, i64 h, i64 D, double c, double s, unsigned long maxv)
{
    Problem p;
    p.w = w; p.h = h; p.D = D; p.c = c; p.s = s; p.maxv = maxv;
    p.L.assign((size_t)(w * h), 0);
    p.R.assign((size_t)(w * h), 0);
    return p;
}
// images from an index: every pixel takes one of k values (given by the alphabet)
inline void fill_image(std::vector<unsigned long>& im, u64 idx, const std::vector<unsigned long>& alphabet)
{
    for (auto& v : im) { v = alphabet[idx % alphabet.size()]; idx /= alphabet.size(); }
}
// deterministic patterns used where images are not the enumerated dimension
inline void pattern(Problem& p, int k)
{
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x)
    {
        u64 m = p.maxv + 1;
        unsigned long l = 0, r = 0;
        switch (k)
        {
            case 0: break;
            case 1: l = (x + y) % m; r = (x + y + 1) % m; break;
            case 2: l = (x * x + 2 * y) % m; r = (2 * x + y * y + 1) % m; break;
            case 3: l = x % 2 ? p.maxv : 0; r = (x + y) % 2 ? 0 : p.maxv; break;
            default: l = mc::mix(k * 1000 + x * 31 + y * 7) % m; r = mc::mix(k * 1000 + 500 + x * 31 + y * 7) % m;
        }
        p.L[y * p.w + x] = l;
        p.R[y * p.w + x] = r;
    }
}
// deterministic reparametrizations (all dyadic): 0 none, 1 one element, 2.. pseudo-random quarter steps, sparse or dense
inline void reparam(Problem& p, int k, bool inner_only = false)
{
    p.rep.clear();
    if (k == 0) return;
    p.rep.assign((size_t)(p.w * p.h * p.D * 4), 0.0);
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) for (i64 d = 0; d < p.levels(x); ++d) for (int n = 0; n < 4; ++n)
    {
        if (inner_only && !p.px(x + ref::dir(n).x, y + ref::dir(n).y)) continue;
        u64 r = mc::mix(k * 7919 + ((x * 64 + y) * 64 + d) * 4 + n);
        double v = 0;
        if (k == 1) v = (x == 0 && y == 0 && d == 0 && n == 0) ? -1.5 : 0;
        else if (k % 2 == 0) v = ((double)(r % 17) - 8) / 4;       // dense
        else v = r % 5 == 0 ? ((double)(r / 5 % 33) - 16) / 2 : 0; // sparse, larger
        p.rep[p.ix(x, y, d) * 4 + n] = v;
    }
}
// shapes which don't fit in a byte, and three kinds of images for them: black; every pixel fits the rightmost column
// only, so that the only map without large deviations falls by one from column to column; something irregular
static const i64 SHAPES_BIG[][3] = {{300, 1, 2}, {2, 300, 2}, {3, 258, 3}, {257, 1, 257}, {260, 2, 7}};
inline Problem big(u64 shape, u64 kind)
{
    Problem p = problem(SHAPES_BIG[shape][0], SHAPES_BIG[shape][1], SHAPES_BIG[shape][2], 1, 1, 9);
    if (kind == 1)
    {
        for (auto& v : p.R) v = 9;
        for (i64 y = 0; y < p.h; ++y) p.L[y * p.w + p.w - 1] = 9;
    }
    if (kind == 2) pattern(p, 2);
    return p;
}
inline std::string shape(i64 w, i64 h, i64 D) { return fmt("%lldx%lldd%lld", w, h, D); }
// the same problem at other magnitudes: everything stays exact in double precision, but no absolute tolerance fits all
static const u64 SCALES = 9;
inline void rescale(Problem& p, u64 k)
{
    auto all = [&](int e) { p.c = std::ldexp(p.c, e); p.s = std::ldexp(p.s, e); for (auto& v : p.rep) v = std::ldexp(v, e); };
    switch (k)
    {
        case 0: all(-50); break;
        case 1: all(-30); break;
        case 2: all(-18); break;
        case 3: all(20); break;
        case 4: all(60); break;
        case 5: p.c = std::ldexp(p.c, -34); break;             // weights of different magnitude
        case 6: p.s = std::ldexp(p.s, -34); break;
        case 7: p.s += std::ldexp(1.0, -30); break;            // nearly equal deviations of large size
        case 8: p.c += std::ldexp(1.0, -27); break;
    }
}
// Two levels, and any relation on every edge but those to the last column, which has one level: 0 none, 1 the second
// pixel must be 1 if the first one is, 2 the first one must be if the second is, 3 one of them must be 1, 4 one of them
// must be 0.  A bit of prefer for each pixel tells whether 1 is the cheaper node.  All of it is meant for the threshold
// RELATIONS_THRESHOLD.  Edges are listed from left to right and from top to bottom, the horizontal ones first.
static const double RELATIONS_THRESHOLD = 3.5;
static const u64 RELATIONS = 5;
inline u64 relation_count(i64 w, i64 h) { return (u64)((w - 2) * h + (w - 1) * (h - 1)); }
inline Problem relations(i64 w, i64 h, const std::vector<u64>& kinds, u64 prefer)
{
    static const double A[RELATIONS][2][2] = {{{0, 0}, {0, 0}}, {{0, 4}, {0, -4}}, {{0, -4}, {0, 4}}, {{1, -1}, {1, -1}}, {{-1, 1}, {-1, 1}}};
    Problem p = problem(w, h, 2, 1, 1, 40);
    p.rep.assign((size_t)(w * h * 2 * 4), 0.0);
    size_t i = 0;
    auto edge = [&](i64 x, i64 y, i64 u, i64 v) {
        for (int d = 0; d < 2; ++d)
        {
            p.rep[p.ix(x, y, d) * 4 + Problem::number(x, y, u, v)] = -A[kinds[i]][0][d];
            p.rep[p.ix(u, v, d) * 4 + Problem::number(u, v, x, y)] = -A[kinds[i]][1][d];
        }
        i++;
    };
    for (i64 y = 0; y < h; ++y) for (i64 x = 0; x < w - 2; ++x) edge(x, y, x + 1, y);
    for (i64 y = 0; y < h - 1; ++y) for (i64 x = 0; x < w - 1; ++x) edge(x, y, x, y + 1);
    if (i != kinds.size()) { fprintf(stderr, "relations: %zu edges\n", i); _exit(2); }
    for (i64 y = 0; y < h; ++y) for (i64 x = 0; x < w; ++x) p.L[y * w + x] = 20 + x % 2;
    i64 bit = 0;
    for (i64 x = 0; x < w; ++x) for (i64 y = 0; y < h; ++y)
    {
        i64 r = 20;
        if (x < w - 1)
        {
            double sum = 0;       // the images make up for the reparametrization
            for (int n = 0; n < 4; ++n) sum += p.phi(x, y, 1, n) - p.phi(x, y, 0, n);
            i64 want = (prefer >> bit++ & 1 ? -1 : 1) - (i64)sum;
            r += x % 2 ? (want + 1) / 2 : (1 - want) / 2;
        }
        p.R[y * w + x] = (unsigned long)r;
    }
    return p;
}
// checks the above itself
inline void check_relations(const Problem& p, const std::vector<u64>& kinds, u64 prefer)
{
    Constraints k(p, RELATIONS_THRESHOLD);
    size_t i = 0;
    bool ok = true;
    auto edge = [&](i64 x, i64 y, int n) {
        for (int d = 0; d < 2; ++d) for (int e = 0; e < 2; ++e)
        {
            u64 r = kinds[i];
            bool allowed = r == 0 || (r == 1 && (!d || e)) || (r == 2 && (!e || d)) || (r == 3 && (d || e)) || (r == 4 && !(d && e));
            ok = ok && k.edge(x, y, d, n, e) == allowed;
        }
        i++;
    };
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w - 2; ++x) edge(x, y, 0);
    for (i64 y = 0; y < p.h - 1; ++y) for (i64 x = 0; x < p.w - 1; ++x) edge(x, y, 2);
    i64 bit = 0;
    for (i64 x = 0; x < p.w - 1; ++x) for (i64 y = 0; y < p.h; ++y)
        ok = ok && k.nodeOk[p.ix(x, y, 0)] && k.nodeOk[p.ix(x, y, 1)] && (p.nodePenalty(x, y, 1) < p.nodePenalty(x, y, 0)) == (bool)(prefer >> bit++ & 1);
    if (!ok) { fprintf(stderr, "relations: %s\n", p.show().c_str()); _exit(2); }
}
// a space of all problems of this kind: f is called for each one, as(problem, kinds)
template <class F> inline void all_relations(const std::string& name, i64 w, i64 h, u64 prefer, F f)
{
    u64 n = relation_count(w, h), all = mc::ipow(RELATIONS, (int)n - 1);
    mc::space(fmt("%s%lldx%lld", name.c_str(), w, h), {all, RELATIONS}, [=](const Digits& g) {
        std::vector<u64> kinds{g[1]};
        for (u64 i = 1, r = g[0]; i < n; ++i, r /= RELATIONS) kinds.push_back(r % RELATIONS);
        Problem p = relations(w, h, kinds, prefer);
        f(p, kinds);
    });
}

// Sets of available nodes which fall apart slowly: along a ring of pixels (columns x0 .. x0+cols-1 of the first and the
// last row and whatever is between the ends) the available disparities wind upwards by 3 with each round, in steps of at
// most one, and next to them stays a flat labeling at the bottom and one at the top.  The pixels outside of the ring keep
// everything.  Meant for smoothness 1 and threshold 1, that is for neighbouring disparities which differ by one at most.
// cut: interruptions, a sum of 1 for the top labeling, 2 for the bottom one, 4 for the middle of the winding
struct Spiral { i64 cols, rounds, rows, x0; bool turned; int cut; };
inline Problem spiral_problem(const Spiral& s)
{
    Problem p = problem(s.x0 + s.cols + 3 * s.rounds + 2, s.rows, 3 * s.rounds + 1, 1, 1, 400);
    return p;
}
inline Avail spiral(const Problem& p, const Spiral& s)
{
    std::vector<ref::XY> ring;
    for (i64 x = 0; x < s.cols; ++x) ring.push_back({s.x0 + x, 0});
    for (i64 y = 1; y < s.rows - 1; ++y) ring.push_back({s.x0 + s.cols - 1, y});
    for (i64 x = s.cols - 1; x >= 0; --x) ring.push_back({s.x0 + x, s.rows - 1});
    for (i64 y = s.rows - 2; y > 0; --y) ring.push_back({s.x0, y});
    if (s.turned) std::reverse(ring.begin(), ring.end());
    const i64 n = (i64)ring.size(), top = 3 * s.rounds;
    Avail a((size_t)(p.w * p.h * p.D), 0);
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) for (i64 d = 0; d < p.levels(x); ++d) a[p.ix(x, y, d)] = 1;
    for (i64 i = 0; i < n; ++i)
    {
        auto q = ring[(size_t)i];
        for (i64 d = 0; d < p.levels(q.x); ++d)
        {
            const i64 step = std::max<i64>(0, i - (n - 3));       // 0 ... 0 1 2 within a round
            bool on = (d % 3 == step && d < top && !((s.cut & 4) && i == n / 2 && d / 3 == s.rounds / 2))
                || d == 0 || (d == top && !((s.cut & 1) && i == n / 3));
            if (d == 0 && (s.cut & 2) && i == n / 2) on = false;
            a[p.ix(q.x, q.y, d)] = on;
        }
    }
    return a;
}
// the greedy labeling of a problem without reparametrization, in which the disparities allowed besides a given one form a
// range whose ends don't fall when that one rises: then the smallest nodes of a consistent set are a labeling, which is verified
inline bool labelable_by_sets(const Problem& p, const Constraints& k, const Avail& a)
{
    Avail b = k.gfp_swept(a);
    if (!ref::any(b)) return false;
    std::vector<i64> m;
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) { i64 d = 0; while (d < p.D && !b[p.ix(x, y, d)]) ++d; m.push_back(d); }
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) for (int n = 0; n < 4; n += 2)
    {
        i64 u = x + ref::dir(n).x, v = y + ref::dir(n).y;
        if (p.px(u, v) && !k.edge(x, y, m[y * p.w + x], n, m[v * p.w + u])) { fprintf(stderr, "no witness\n"); _exit(2); }
    }
    return true;
}
inline std::vector<int> greedy_by_sets(const Problem& p, const Constraints& k, Avail a)
{
    std::vector<int> r((size_t)(p.w * p.h), -1);
    if (!labelable_by_sets(p, k, a)) return {};
    for (i64 x = 0; x < p.w; ++x) for (i64 y = 0; y < p.h; ++y)
    {
        std::vector<std::pair<double, i64>> order;
        for (i64 d = 0; d < p.levels(x); ++d) if (a[p.ix(x, y, d)]) order.push_back({p.nodePenalty(x, y, d), d});
        std::sort(order.begin(), order.end());
        for (auto& o : order)
        {
            Avail b = a;
            for (i64 d = 0; d < p.levels(x); ++d) b[p.ix(x, y, d)] = d == o.second;
            if (labelable_by_sets(p, k, b)) { a = k.gfp_swept(b); r[(size_t)(y * p.w + x)] = (int)o.second; break; }
            mc::count("rejected_choices");
        }
    }
    return r;
}
