// Boring reference model of stereo-parallel.  Own types, own layouts, no shortcuts, signed coordinates.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace ref
{
typedef long long i64;
struct XY { i64 x, y; };

// neighbour directions: 0 right, 1 left, 2 below, 3 above (public numbering, see indexing.hpp)
inline XY dir(int n) { static const XY d[4] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}}; return d[n]; }

struct Problem
{
    i64 w = 0, h = 0, D = 0;
    double c = 1, s = 1;
    unsigned long maxv = 1;
    std::vector<unsigned long> L, R;      // row-major
    std::vector<double> rep;              // ((y*w+x)*D+d)*4+n, empty means zero

    bool px(i64 x, i64 y) const { return x >= 0 && y >= 0 && x < w && y < h; }
    bool node(i64 x, i64 y, i64 d) const { return px(x, y) && d >= 0 && d < D && x + d < w; }
    // number of nodes of a pixel in column x
    i64 levels(i64 x) const { return std::min(D, w - x); }
    bool adjacent(i64 x, i64 y, i64 u, i64 v) const
    {
        return px(x, y) && px(u, v) && std::llabs(x - u) + std::llabs(y - v) == 1;
    }
    bool edge(i64 x, i64 y, i64 d, i64 u, i64 v, i64 e) const
    {
        if (!adjacent(x, y, u, v) || !node(x, y, d) || !node(u, v, e)) return false;
        if (y != v) return true;
        return x < u ? d <= e + 1 : e <= d + 1;
    }
    size_t ix(i64 x, i64 y, i64 d) const { return (size_t)((y * w + x) * D + d); }
    double phi(i64 x, i64 y, i64 d, int n) const { return rep.empty() ? 0.0 : rep[ix(x, y, d) * 4 + n]; }
    static int number(i64 x, i64 y, i64 u, i64 v)
    {
        for (int n = 0; n < 4; ++n) if (x + dir(n).x == u && y + dir(n).y == v) return n;
        return 4;
    }
    double nodePenalty(i64 x, i64 y, i64 d) const
    {
        double diff = (double)R[y * w + x] - (double)L[y * w + x + d];
        double p = c * (diff * diff);
        for (int n = 0; n < 4; ++n) p += phi(x, y, d, n);
        return p;
    }
    double edgePenalty(i64 x, i64 y, i64 d, i64 u, i64 v, i64 e) const
    {
        double diff = (double)d - (double)e;
        return s * (diff * diff) - phi(x, y, d, number(x, y, u, v)) - phi(u, v, e, number(u, v, x, y));
    }
    double lowestNode(i64 x, i64 y) const
    {
        double m = std::numeric_limits<double>::infinity();
        for (i64 d = 0; d < D; ++d) if (node(x, y, d)) m = std::min(m, nodePenalty(x, y, d));
        return m;
    }
    double lowestEdge(i64 x, i64 y, i64 u, i64 v) const
    {
        double m = std::numeric_limits<double>::infinity();
        for (i64 d = 0; d < D; ++d)
            for (i64 e = 0; e < D; ++e)
                if (edge(x, y, d, u, v, e)) m = std::min(m, edgePenalty(x, y, d, u, v, e));
        return m;
    }
    std::set<double> nodeDeviations(i64 x, i64 y, double low) const
    {
        std::set<double> r;
        for (i64 d = 0; d < D; ++d) if (node(x, y, d)) r.insert(nodePenalty(x, y, d) - low);
        return r;
    }
    std::set<double> edgeDeviations(i64 x, i64 y, i64 u, i64 v, double low) const
    {
        std::set<double> r;
        for (i64 d = 0; d < D; ++d)
            for (i64 e = 0; e < D; ++e)
                if (edge(x, y, d, u, v, e)) r.insert(edgePenalty(x, y, d, u, v, e) - low);
        return r;
    }
    std::set<double> candidates() const
    {
        std::set<double> r;
        for (i64 y = 0; y < h; ++y)
            for (i64 x = 0; x < w; ++x)
            {
                for (double v : nodeDeviations(x, y, lowestNode(x, y))) r.insert(v);
                for (int n = 0; n < 4; ++n)
                {
                    XY q{x + dir(n).x, y + dir(n).y};
                    if (!px(q.x, q.y)) continue;
                    for (double v : edgeDeviations(x, y, q.x, q.y, lowestEdge(x, y, q.x, q.y))) r.insert(v);
                }
            }
        return r;
    }
    std::string fmt_shape() const { return std::to_string(w) + "x" + std::to_string(h) + " D=" + std::to_string(D); }
    std::string show() const
    {
        if (w * h > 200) return fmt_shape();
        auto num = [](double v) { char b[40]; snprintf(b, sizeof b, "%g", v); if (strtod(b, nullptr) != v) snprintf(b, sizeof b, "%.17g", v); return std::string(b); };
        std::string r = std::to_string(w) + "x" + std::to_string(h) + " D=" + std::to_string(D)
            + " c=" + num(c) + " s=" + num(s) + " max=" + std::to_string(maxv) + " L=";
        for (auto v : L) r += std::to_string(v) + " ";
        r += "R=";
        for (auto v : R) r += std::to_string(v) + " ";
        if (!rep.empty())
        {
            r += "rep:";
            for (i64 y = 0; y < h; ++y) for (i64 x = 0; x < w; ++x) for (i64 d = 0; d < D; ++d) for (int n = 0; n < 4; ++n)
                if (phi(x, y, d, n) != 0)
                    r += " (" + std::to_string(x) + "," + std::to_string(y) + ",d" + std::to_string(d) + ",n" + std::to_string(n) + ")=" + num(phi(x, y, d, n));
        }
        return r;
    }
};

typedef std::vector<char> Avail;          // by Problem::ix

// Allowed edges of a problem for a threshold, precomputed for speed (still by definition).
struct Constraints
{
    const Problem* p;
    std::vector<char> nodeOk;             // exists and within the threshold
    std::vector<char> edgeOk;             // [ix(x,y,d)*4+n]*D+e : exists and within the threshold
    Constraints(const Problem& q, double thr) : p(&q)
    {
        nodeOk.assign((size_t)(q.w * q.h * q.D), 0);
        edgeOk.assign((size_t)(q.w * q.h * q.D * 4 * q.D), 0);
        for (i64 y = 0; y < q.h; ++y) for (i64 x = 0; x < q.w; ++x)
        {
            double ln = q.lowestNode(x, y);
            for (i64 d = 0; d < q.D; ++d) if (q.node(x, y, d) && q.nodePenalty(x, y, d) - ln <= thr) nodeOk[q.ix(x, y, d)] = 1;
            for (int n = 0; n < 4; ++n)
            {
                XY v{x + dir(n).x, y + dir(n).y};
                if (!q.px(v.x, v.y)) continue;
                double le = q.lowestEdge(x, y, v.x, v.y);
                for (i64 d = 0; d < q.D; ++d) for (i64 e = 0; e < q.D; ++e)
                    if (q.edge(x, y, d, v.x, v.y, e) && q.edgePenalty(x, y, d, v.x, v.y, e) - le <= thr)
                        edgeOk[(q.ix(x, y, d) * 4 + n) * q.D + e] = 1;
            }
        }
    }
    bool edge(i64 x, i64 y, i64 d, int n, i64 e) const { return edgeOk[(p->ix(x, y, d) * 4 + n) * p->D + e]; }
    bool supported(const Avail& a, i64 x, i64 y, i64 d) const
    {
        for (int n = 0; n < 4; ++n)
        {
            XY v{x + dir(n).x, y + dir(n).y};
            if (!p->px(v.x, v.y)) continue;
            bool ok = false;
            for (i64 e = 0; e < p->D && !ok; ++e) ok = p->node(v.x, v.y, e) && a[p->ix(v.x, v.y, e)] && edge(x, y, d, n, e);
            if (!ok) return false;
        }
        return true;
    }
    // greatest fixpoint: remove unsupported nodes, all at once, until stable
    Avail gfp(Avail a) const
    {
        for (;;)
        {
            Avail b = a;
            for (i64 y = 0; y < p->h; ++y) for (i64 x = 0; x < p->w; ++x) for (i64 d = 0; d < p->D; ++d)
                if (p->node(x, y, d) && a[p->ix(x, y, d)] && !supported(a, x, y, d)) b[p->ix(x, y, d)] = 0;
            if (a == b) return a;
            a = b;
        }
    }
    // the same set, found faster when removals travel far: in place, forwards and backwards by turns
    Avail gfp_swept(Avail a) const
    {
        const i64 n = p->w * p->h * p->D;
        for (bool changed = true, back = false; changed; back = !back)
        {
            changed = false;
            for (i64 j = 0; j < n; ++j)
            {
                const i64 i = back ? n - 1 - j : j, d = i % p->D, x = i / p->D % p->w, y = i / p->D / p->w;
                if (a[(size_t)i] && p->node(x, y, d) && !supported(a, x, y, d)) { a[(size_t)i] = 0; changed = true; }
            }
        }
        return a;
    }
    // is there a consistent labeling with these nodes? depth-first search, column by column.
    bool labelable(const Avail& a, std::vector<int>* result = nullptr) const
    {
        std::vector<int> lab((size_t)(p->w * p->h), -1);
        bool r = dfs(a, lab, 0);
        if (r && result) *result = lab;
        return r;
    }
    bool dfs(const Avail& a, std::vector<int>& lab, i64 pos) const
    {
        if (pos == p->w * p->h) return true;
        i64 x = pos / p->h, y = pos % p->h;
        for (i64 d = 0; d < p->D; ++d)
        {
            if (!p->node(x, y, d) || !a[p->ix(x, y, d)]) continue;
            if (x > 0 && !edge(x, y, d, 1, lab[y * p->w + x - 1])) continue;
            if (y > 0 && !edge(x, y, d, 3, lab[(y - 1) * p->w + x])) continue;
            lab[y * p->w + x] = (int)d;
            if (dfs(a, lab, pos + 1)) return true;
        }
        lab[y * p->w + x] = -1;
        return false;
    }
    // Labeling by definition: columns from the left, each from the top, lowest penalty (then lowest disparity)
    // which still has a consistent labeling. Empty if there is none.
    std::vector<int> greedy(Avail a) const
    {
        std::vector<int> lab((size_t)(p->w * p->h), -1);
        if (!labelable(a)) return {};
        for (i64 x = 0; x < p->w; ++x) for (i64 y = 0; y < p->h; ++y)
        {
            std::vector<std::pair<double, i64>> order;
            for (i64 d = 0; d < p->D; ++d) if (p->node(x, y, d) && a[p->ix(x, y, d)]) order.push_back({p->nodePenalty(x, y, d), d});
            std::sort(order.begin(), order.end());
            for (auto& o : order)
            {
                Avail b = a;
                for (i64 d = 0; d < p->D; ++d) b[p->ix(x, y, d)] = d == o.second;
                if (labelable(b)) { a = b; lab[y * p->w + x] = (int)o.second; break; }
            }
        }
        return lab;
    }
};

inline bool any(const Avail& a) { for (char c : a) if (c) return true; return false; }
inline std::string show(const Problem& p, const Avail& a)
{
    if (p.w * p.h > 200) return "...";
    std::string r;
    for (i64 y = 0; y < p.h; ++y)
    {
        for (i64 x = 0; x < p.w; ++x)
        {
            r += "{";
            bool f = true;
            for (i64 d = 0; d < p.D; ++d) if (a[p.ix(x, y, d)]) { if (!f) r += ","; r += std::to_string(d); f = false; }
            r += "}";
        }
        if (y + 1 < p.h) r += "/";
    }
    return r;
}
}
