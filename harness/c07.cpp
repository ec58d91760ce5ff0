// C07: threshold search on every ascending list of candidates with a feasible element.
#include "glue.hpp"
#include "probes.hpp"
using namespace sp::labeling::finder;

static void check(const Problem& p, Real& r, const Real& orig, const std::vector<double>& list, const std::vector<char>& feasible)
{
    size_t want = 0;
    while (want < list.size() && !feasible[want]) want++;
    if (want == list.size()) return;
    mc::state();
    double t = calculate_minimal_consistent_threshold(&r.l, &r.g, sp::types::FLOAT_ARRAY(list.begin(), list.end()));
    mc::step();
    if (t != list[want])
    {
        std::string s;
        for (size_t i = 0; i < list.size(); ++i) s += fmt("%g%s ", list[i], feasible[i] ? "" : "(unsolvable)");
        mc::fail(fmt("search returns %g instead of %g from [%s] for %s", t, list[want], s.c_str(), p.show().c_str()));
    }
    MC_CHECK(r.g.left.data == orig.g.left.data && r.g.right.data == orig.g.right.data && r.g.reparametrization == orig.g.reparametrization
        && r.g.disparity_levels == orig.g.disparity_levels && r.g.cleanness == orig.g.cleanness && r.g.smoothness == orig.g.smoothness
        && r.l.pixels == orig.l.pixels && r.l.neighborhoods == orig.l.neighborhoods && r.l.graph == &r.g,
        "search changed the problem %s", p.show().c_str());
    mc::trace();
    mc::sample([&] { return p.show() + fmt(" list of %zu, result %g at %zu", list.size(), t, want); });
}
static char solvable(const Problem& p, double t) { Constraints k(p, t); return ref::any(k.gfp(k.nodeOk)); }

// all sublists (up to 2^limit) of candidates, optionally with extra values between, below and above them
static void sublists(i64 w, i64 h, i64 D, unsigned long maxv, u64 pats, u64 reps, unsigned limit, u64 scales = 1)
{
    mc::space((scales > 1 ? "scaled" : "sublists") + shape(w, h, D) + fmt("_max%lu", maxv), {pats, reps, 2, scales}, [=](const Digits& g) {
        Problem p = problem(w, h, D, 1, 1, maxv);
        pattern(p, (int)g[0]);
        reparam(p, (int)g[1]);
        if (scales > 1) rescale(p, g[3]);
        double unit = scales > 1 ? std::max(p.c, p.s) : 1;
        std::set<double> cand = p.candidates();
        if (g[2])
        {
            std::set<double> more = cand;
            for (double v : cand) { more.insert(v + unit / 8); more.insert(v - unit / 8); }
            more.insert(-5 * unit);
            more.insert(1e6 * unit);
            cand = more;
        }
        // keep those around the boundary of solvability
        std::vector<double> all(cand.begin(), cand.end());
        size_t b = 0;
        while (b < all.size() && !solvable(p, all[b])) b++;
        size_t from = b > limit / 2 ? b - limit / 2 : 0;
        std::vector<double> some(all.begin() + from, all.begin() + std::min(all.size(), from + limit));
        std::vector<char> ok;
        for (double v : some) ok.push_back(solvable(p, v));
        Real r(p), orig(p);
        for (u64 m = 1; m < (1ull << some.size()); ++m)
        {
            std::vector<double> l;
            std::vector<char> f;
            for (size_t i = 0; i < some.size(); ++i) if (m >> i & 1) { l.push_back(some[i]); f.push_back(ok[i]); }
            check(p, r, orig, l, f);
        }
        std::vector<char> okall;
        for (double v : all) okall.push_back(solvable(p, v));
        check(p, r, orig, all, okall);
    });
}
// all positions of the first solvable element in lists of all lengths
static void positions(u64 maxlen)
{
    mc::space(fmt("positions%llu", maxlen), {3, maxlen}, [=](const Digits& g) {
        Problem p = problem(4, 2, 3, 1, 1, 3);
        pattern(p, (int)g[0] + 1);
        Real r(p), orig(p);
        std::set<double> cand = p.candidates();
        std::vector<double> all(cand.begin(), cand.end());
        size_t b = 0;
        while (!solvable(p, all[b])) b++;
        double T = all[b], below = b ? all[b - 1] : -1;
        u64 n = g[1] + 1;
        for (u64 pos = 0; pos < n; ++pos)
        {
            std::vector<double> l;
            std::vector<char> f;
            for (u64 i = 0; i < n; ++i)
            {
                // pos values strictly below T, then T and above
                if (i < pos) { l.push_back(below + (T - below) * (double)i / 1024); f.push_back(0); }
                else { l.push_back(T + (double)(i - pos)); f.push_back(1); }
            }
            for (size_t i = 0; i < l.size(); ++i) MC_CHECK(solvable(p, l[i]) == f[i], "harness: bad list");
            check(p, r, orig, l, f);
        }
    });
}
// lists whose lengths don't fit in 8 or 16 bits (and beyond), with the first solvable element around all such boundaries
static void lengths()
{
    static const std::vector<u64> N = {255, 256, 257, 511, 512, 1000, 32767, 32768, 65535, 65536, 65537, 100000, 1000000};
    mc::space("lengths", {3, N.size(), N.size() + 2}, [](const Digits& g) {
        Problem p = problem(4, 2, 3, 1, 1, 3);
        pattern(p, (int)g[0] + 1);
        static const Real* r[3];
        if (!r[g[0]]) r[g[0]] = new Real(p);
        std::set<double> cand = p.candidates();
        double T = 0, below = -1;
        for (double v : cand) { if (solvable(p, v)) { T = v; break; } below = v; }
        u64 n = N[g[1]], pos = g[2] == N.size() ? 0 : g[2] == N.size() + 1 ? n - 1 : N[g[2]];
        if (pos >= n) return;
        std::vector<double> l(n);
        std::vector<char> f(n);
        for (u64 i = 0; i < n; ++i)
        {
            l[i] = i < pos ? below + (T - below) * (double)i / 2097152 : T + (double)(i - pos);
            f[i] = i >= pos;
        }
        Real q(p);
        check(p, q, *r[g[0]], l, f);
    });
}
void mc::register_spaces()
{
    probes::in_place({probes::SEARCH});
    lengths();
    positions(40);
    sublists(3, 2, 3, 3, 8, 3, 7, SCALES);
    sublists(4, 2, 4, 5, 8, 2, 7, SCALES);
    sublists(3, 2, 3, 3, 12, 3, 9);
    sublists(2, 2, 2, 4, 12, 3, 9);
    sublists(4, 1, 4, 5, 12, 3, 9);
    sublists(5, 2, 3, 7, 8, 2, 8);
    sublists(3, 4, 3, 9, 8, 2, 8);
    if (mc::thorough())
    {
        positions(140);
        sublists(3, 2, 3, 7, 60, 6, 12);
        sublists(6, 1, 6, 9, 40, 6, 12);
        sublists(5, 4, 5, 9, 30, 4, 10);
        sublists(8, 3, 6, 9, 20, 3, 9);
    }
}
MC_MAIN
