// C25: all operation sequences on two instances (and on copies) up to a depth; after every operation both instances are
// compared with their own reference model, including everything the operation must not change.
#include "glue.hpp"
#include "probes.hpp"
#include "pgm.hpp"
#include <pgm_io.hpp>
#include <sstream>
using namespace sp::labeling::finder;

struct Inst
{
    Problem p;
    std::unique_ptr<Real> r;
    std::unique_ptr<ConstraintGraph> c;
    std::unique_ptr<Constraints> k;
    double thr = 0;
    Avail a;
    sp::image::PGM_IO io;
    pgm::Parsed held;
    std::vector<double> low, lowEdges;
    int kind;

    explicit Inst(int kind_) : kind(kind_) { make(0); build(0); }
    void make(int variant)
    {
        static const i64 S[4][3] = {{3, 2, 3}, {2, 3, 2}, {3, 2, 2}, {2, 1, 2}};
        p = problem(S[kind][0], S[kind][1], S[kind][2], 1, kind == 1 ? 0.5 : 1, 5);
        pattern(p, 10 + kind * 3 + variant);
        c.reset();
        r.reset(new Real(p));
        snapshot();
    }
    void snapshot()
    {
        low.clear(); lowEdges.clear();
        for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x)
        {
            low.push_back(p.lowestNode(x, y));
            for (int n = 0; n < 4; ++n) if (p.px(x + ref::dir(n).x, y + ref::dir(n).y)) lowEdges.push_back(p.lowestEdge(x, y, x + ref::dir(n).x, y + ref::dir(n).y));
        }
    }
    void build(int i)
    {
        auto s = p.candidates();
        std::vector<double> v(s.begin(), s.end());
        thr = v[i == 0 ? v.size() - 1 : v.size() / 2];
        k.reset(new Constraints(p, thr));
        c.reset(new ConstraintGraph(&r->g, &r->l, thr));
        a = k->nodeOk;
    }
    enum { BUILD, BUILD2, SOLVE, LABEL, MAP, SEARCH, CHOOSE, REMOVE, COPY, READ, READBAD, RECREATE, OPS };
    static const char* name(u64 o)
    {
        static const char* n[] = {"build", "build2", "solve", "label", "map", "search", "choose", "remove", "copy", "read", "readbad", "recreate"};
        return n[o];
    }
    void apply(u64 o, const std::string& how)
    {
        mc::step();
        switch (o)
        {
            case BUILD: build(0); break;
            case BUILD2: build(1); break;
            case SOLVE:
            {
                a = k->gfp(a);
                bool ok = solve_csp(c.get());
                MC_CHECK(ok == ref::any(a), "%s: solving reported %d", how.c_str(), ok);
                break;
            }
            case LABEL:
            {
                auto want = k->greedy(a);
                ConstraintGraph* f = find_labeling(c.get());
                MC_CHECK((f == nullptr) == want.empty(), "%s: labeling %s", how.c_str(), f ? "found" : "not found");
                if (!f) { set_avail(*c, p, Avail(a.size(), 0)); a.assign(a.size(), 0); break; }
                a.assign(a.size(), 0);
                for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) a[p.ix(x, y, want[y * p.w + x])] = 1;
                break;
            }
            case MAP:
            {
                bool ok = true;
                for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) { int n = 0; for (i64 d = 0; d < p.levels(x); ++d) n += a[p.ix(x, y, d)]; ok = ok && n == 1; }
                bool got = true;
                try
                {
                    Image m = build_disparity_map(c.get());
                    for (i64 y = 0; y < p.h && ok; ++y) for (i64 x = 0; x < p.w; ++x) MC_CHECK(a[p.ix(x, y, (i64)m.data[y * p.w + x])], "%s: wrong map", how.c_str());
                }
                catch (const std::logic_error&) { got = false; }
                MC_CHECK(got == ok, "%s: map is %sbuilt", how.c_str(), got ? "" : "not ");
                break;
            }
            case SEARCH:
            {
                auto want = p.candidates();
                auto l = fetch_available_penalties(&r->l);
                MC_CHECK(std::vector<double>(l.begin(), l.end()) == std::vector<double>(want.begin(), want.end()), "%s: other candidates", how.c_str());
                double t = calculate_minimal_consistent_threshold(&r->l, &r->g, l), best = -1;
                for (double v : want) { Constraints q(p, v); if (ref::any(q.gfp(q.nodeOk))) { best = v; break; } }
                MC_CHECK(t == best, "%s: threshold %g instead of %g", how.c_str(), t, best);
                break;
            }
            case CHOOSE:
            {
                i64 m = -1, x = p.w - 2, y = p.h - 1;
                for (i64 d = 0; d < p.levels(x); ++d) if (a[p.ix(x, y, d)] && (m < 0 || p.nodePenalty(x, y, d) < p.nodePenalty(x, y, m))) m = d;
                for (i64 d = 0; d < p.levels(x); ++d) a[p.ix(x, y, d)] = d == m;
                ConstraintGraph* f = choose_best_node(c.get(), P_(x, y));
                MC_CHECK(f == (m < 0 ? nullptr : c.get()), "%s: choice is reported wrongly", how.c_str());
                break;
            }
            case REMOVE:
            {
                // the first available node of the last pixel with several, else the first available one
                i64 pos = -1;
                for (size_t i = 0; i < a.size(); ++i) if (a[i]) { pos = (i64)i; break; }
                if (pos < 0) break;
                a[pos] = 0;
                make_node_unavailable(c.get(), N_(pos / p.D % p.w, pos / p.D / p.w, pos % p.D));
                break;
            }
            case COPY:
            {
                // goes on with a copy; the original is changed and destroyed
                std::unique_ptr<ConstraintGraph> d(new ConstraintGraph(*c));
                make_all_nodes_unavailable(c.get());
                c.swap(d);
                break;
            }
            case READ: case READBAD:
            {
                std::string t = fmt("P2\n%lld %lld\n9 ", p.w, p.h);
                for (i64 i = 0; i < p.w * p.h; ++i) t += fmt("%lld ", i + kind);
                if (o == READBAD) t += "7";
                std::istringstream in(t);
                in >> io;
                MC_CHECK(in.fail() == (o == READBAD), "%s: reading", how.c_str());
                if (o == READ) held = pgm::parse(t);
                break;
            }
            case RECREATE: make(1); build(0); break;
        }
    }
    void compare(const std::string& how) const
    {
        auto who = [&] { return how + " (instance " + shape(p.w, p.h, p.D) + ")"; };
        Avail b = get_avail(*c, p);
        MC_CHECK(b == a, "%s: available %s instead of %s", who().c_str(), ref::show(p, b).c_str(), ref::show(p, a).c_str());
        MC_CHECK(c->threshold == thr && c->disparity_graph == &r->g && c->lowest_penalties == &r->l, "%s: the graph's parameters changed", who().c_str());
        const DisparityGraph& g = r->g;
        MC_CHECK(g.left.width == (UL)p.w && g.left.height == (UL)p.h && g.left.max_value == p.maxv && g.right.width == (UL)p.w && g.right.height == (UL)p.h && g.right.max_value == p.maxv
            && std::equal(p.L.begin(), p.L.end(), g.left.data.begin(), g.left.data.end()) && std::equal(p.R.begin(), p.R.end(), g.right.data.begin(), g.right.data.end())
            && g.disparity_levels == (UL)p.D && g.cleanness == p.c && g.smoothness == p.s, "%s: the problem changed", who().c_str());
        for (double v : g.reparametrization) MC_CHECK(v == 0, "%s: the reparametrization changed", who().c_str());
        size_t i = 0, j = 0;
        for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x)
        {
            MC_CHECK(lowest_pixel_penalty(&r->l, P_(x, y)) == low[i++], "%s: lowest penalty of %lld,%lld changed", who().c_str(), x, y);
            for (int n = 0; n < 4; ++n)
            {
                i64 u = x + ref::dir(n).x, v = y + ref::dir(n).y;
                if (p.px(u, v)) MC_CHECK(lowest_neighborhood_penalty(&r->l, E_(x, y, 0, u, v, 0)) == lowEdges[j++], "%s: lowest penalty of a neighbourhood changed", who().c_str());
            }
        }
        auto im = io.get_image();
        MC_CHECK((im != nullptr) == held.ok, "%s: the reader's image", who().c_str());
        if (im) MC_CHECK(im->width == held.w && im->height == held.h && im->max_value == held.mx && std::equal(held.data.begin(), held.data.end(), im->data.begin(), im->data.end()), "%s: the reader's image changed", who().c_str());
    }
};
static void sequences(int depth, int kindA, int kindB)
{
    const u64 L = 2 * Inst::OPS;
    mc::space(fmt("two%d%d_%d", kindA, kindB, depth), {mc::ipow(L, depth)}, [=](const Digits& g) {
        Inst A(kindA), B(kindB);
        std::string how;
        u64 v = g[0];
        for (int i = 0; i < depth; ++i)
        {
            u64 o = v % L;
            v /= L;
            how += std::string(o < Inst::OPS ? " A." : " B.") + Inst::name(o % Inst::OPS);
            (o < Inst::OPS ? A : B).apply(o % Inst::OPS, how);
            A.compare(how);
            B.compare(how);
            mc::state();
        }
        mc::trace();
        mc::sample([&] { return how; });
    });
}
// long runs of two instances: all interleavings of two fixed sequences
static void interleavings(int kindA, int kindB)
{
    static const std::vector<std::vector<u64>> S = {
        {Inst::SEARCH, Inst::BUILD, Inst::SOLVE, Inst::LABEL, Inst::MAP, Inst::MAP},
        {Inst::BUILD2, Inst::SOLVE, Inst::REMOVE, Inst::SOLVE, Inst::CHOOSE, Inst::LABEL},
        {Inst::READ, Inst::SOLVE, Inst::RECREATE, Inst::READBAD, Inst::SOLVE, Inst::SEARCH},
        {Inst::COPY, Inst::CHOOSE, Inst::COPY, Inst::SOLVE, Inst::LABEL, Inst::LABEL},
    };
    std::vector<u64> orders;
    for (u64 m = 0; m < 1 << 12; ++m) if (__builtin_popcountll(m) == 6) orders.push_back(m);
    mc::space(fmt("interleavings%d%d", kindA, kindB), {S.size(), S.size(), orders.size()}, [=](const Digits& g) {
        Inst A(kindA), B(kindB);
        size_t i = 0, j = 0;
        std::string how;
        for (int n = 0; n < 12; ++n)
        {
            bool first = orders[g[2]] >> n & 1;
            u64 o = first ? S[g[0]][i++] : S[g[1]][j++];
            how += std::string(first ? " A." : " B.") + Inst::name(o);
            (first ? A : B).apply(o, how);
            A.compare(how);
            B.compare(how);
            mc::state();
        }
        mc::trace();
    });
}
// a problem, its copies and two graphs of it (one the copy of the other)
static void copies(int depth)
{
    mc::space(fmt("copies_%d", depth), {mc::ipow(12, depth)}, [=](const Digits& g) {
        Problem p = problem(3, 2, 2, 1, 1, 5);
        pattern(p, 12);
        Real r(p);
        DisparityGraph other(r.g);
        std::vector<double> rep(other.reparametrization.begin(), other.reparametrization.end());
        double thr = 9;
        Constraints k(p, thr);
        ConstraintGraph c[2] = {ConstraintGraph(&r.g, &r.l, thr), ConstraintGraph(&r.g, &r.l, thr)};
        Avail a[2] = {k.nodeOk, k.nodeOk};
        std::string how;
        u64 v = g[0];
        for (int i = 0; i < depth; ++i)
        {
            u64 o = v % 12;
            v /= 12;
            int n = (int)(o & 1);
            static const char* names[] = {"solve", "label", "choose", "remove", "assign", "change the copied problem"};
            how += fmt(" %s%d", names[o / 2], n);
            mc::step();
            switch (o / 2)
            {
                case 0: a[n] = k.gfp(a[n]); MC_CHECK((bool)solve_csp(&c[n]) == ref::any(a[n]), "%s: result", how.c_str()); break;
                case 1:
                {
                    auto want = k.greedy(a[n]);
                    bool f = find_labeling(&c[n]) != nullptr;
                    MC_CHECK(f == !want.empty(), "%s: labeling", how.c_str());
                    a[n].assign(a[n].size(), 0);
                    if (!f) set_avail(c[n], p, a[n]);
                    else for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) a[n][p.ix(x, y, want[y * p.w + x])] = 1;
                    break;
                }
                case 2:
                {
                    i64 m = -1;
                    for (i64 d = 0; d < p.levels(1); ++d) if (a[n][p.ix(1, 1, d)] && (m < 0 || p.nodePenalty(1, 1, d) < p.nodePenalty(1, 1, m))) m = d;
                    for (i64 d = 0; d < p.levels(1); ++d) a[n][p.ix(1, 1, d)] = d == m;
                    choose_best_node(&c[n], P_(1, 1));
                    break;
                }
                case 3:
                    for (size_t q = 0; q < a[n].size(); ++q) if (a[n][q]) { a[n][q] = 0; make_node_unavailable(&c[n], N_(q / p.D % p.w, q / p.D / p.w, q % p.D)); break; }
                    break;
                case 4: c[n] = c[1 - n]; a[n] = a[1 - n]; break;
                case 5: if (n) { other.reparametrization[5] += 1; rep[5] += 1; } else { DisparityGraph third(other); third.reparametrization[3] = 7; third.left.data[0] = 0; other = third; other.reparametrization[3] = rep[3] = 2; } break;
            }
            for (int q = 0; q < 2; ++q)
            {
                Avail b = get_avail(c[q], p);
                MC_CHECK(b == a[q], "%s: graph %d has %s instead of %s", how.c_str(), q, ref::show(p, b).c_str(), ref::show(p, a[q]).c_str());
            }
            for (double x : r.g.reparametrization) MC_CHECK(x == 0, "%s: the problem changed", how.c_str());
            MC_CHECK(std::equal(p.L.begin(), p.L.end(), r.g.left.data.begin(), r.g.left.data.end()), "%s: the problem's image changed", how.c_str());
            MC_CHECK(std::equal(rep.begin(), rep.end(), other.reparametrization.begin(), other.reparametrization.end()), "%s: the copied problem", how.c_str());
            mc::state();
        }
        mc::trace();
    });
}
// whole computations one after another, stage by stage: each pair (triple) of problems of different shapes, sizes and
// numbers of candidates, living at the same addresses one after another or side by side
static const int VARIETY = 48;
static Problem various(u64 i)
{
    static const i64 S[12][3] = {{2, 1, 2}, {3, 1, 3}, {3, 1, 2}, {2, 2, 2}, {2, 4, 2}, {4, 1, 4}, {4, 2, 3}, {3, 3, 3}, {5, 1, 5}, {6, 2, 4}, {2, 7, 2}, {5, 3, 2}};
    static const double W[4][2] = {{1, 1}, {0, 1}, {1, 0}, {0.25, 4}};
    Problem p = problem(S[i % 12][0], S[i % 12][1], S[i % 12][2], W[i / 12 % 4][0], W[i / 12 % 4][1], i % 5 ? 7 : 60);
    pattern(p, i % 7 ? (int)(i + 5) : 0);
    return p;
}
struct Whole
{
    Problem p;
    std::unique_ptr<Real> r;
    std::unique_ptr<ConstraintGraph> c;
    std::unique_ptr<Constraints> k;
    std::vector<double> list;
    double t = 0;
    Avail a;
    enum { STAGES = 5 };
    void stage(int n, const char* how)
    {
        mc::step();
        switch (n)
        {
            case 0: r.reset(new Real(p)); break;
            case 1:
            {
                auto want = p.candidates();
                auto l = fetch_available_penalties(&r->l);
                list.assign(l.begin(), l.end());
                MC_CHECK(list == std::vector<double>(want.begin(), want.end()), "%s: other candidates; %s", how, p.show().c_str());
                break;
            }
            case 2:
            {
                double best = -1;
                t = calculate_minimal_consistent_threshold(&r->l, &r->g, sp::types::FLOAT_ARRAY(list.begin(), list.end()));
                for (double v : list) { Constraints q(p, v); if (ref::any(q.gfp(q.nodeOk))) { best = v; break; } }
                MC_CHECK(t == best, "%s: threshold %g instead of %g; %s", how, t, best, p.show().c_str());
                break;
            }
            case 3:
                k.reset(new Constraints(p, t));
                c.reset(new ConstraintGraph(&r->g, &r->l, t));
                a = k->gfp(k->nodeOk);
                MC_CHECK(solve_csp(c.get()) && get_avail(*c, p) == a, "%s: solving; %s", how, p.show().c_str());
                break;
            case 4:
            {
                auto want = k->greedy(a);
                MC_CHECK(find_labeling(c.get()) == c.get(), "%s: no labeling; %s", how, p.show().c_str());
                Image m = build_disparity_map(c.get());
                MC_CHECK(std::vector<int>(m.data.begin(), m.data.end()) == want, "%s: another map; %s", how, p.show().c_str());
            }
        }
    }
};
static void whole()
{
    // all orders of the stages of two computations
    std::vector<u64> orders;
    for (u64 m = 0; m < 1 << (2 * Whole::STAGES); ++m) if (__builtin_popcountll(m) == Whole::STAGES) orders.push_back(m);
    mc::space("whole_pairs", {VARIETY, VARIETY, mc::thorough() ? orders.size() : 63}, [=](const Digits& g) {
        // in the quick tier: one after the other, in turns, and several between
        const u64 order = mc::thorough() ? orders[g[2]] : orders[g[2] * 4 + g[2] % 4];
        Whole A, B;
        A.p = various(g[0]);
        B.p = various(g[1]);
        int i = 0, j = 0;
        for (int n = 0; n < 2 * Whole::STAGES; ++n)
            if (order >> n & 1) A.stage(i++, "side by side");
            else B.stage(j++, "side by side");
        mc::trace();
    });
    // an instance is destroyed before the next one is made, again and again
    mc::space("whole_in_turn", {VARIETY, VARIETY, VARIETY}, [](const Digits& g) {
        for (u64 i : {g[0], g[1], g[2], g[0]})
        {
            Whole A;
            A.p = various(i);
            for (int n = 0; n < Whole::STAGES; ++n) A.stage(n, "one after another");
            // an ill-formed problem between them
            if (i % 3 == 0)
            {
                Problem bad = A.p;
                bad.D = bad.w + 1;
                bool refused = false;
                try { DisparityGraph x(real_graph(bad)); }
                catch (const std::exception&) { refused = true; }
                MC_CHECK(refused, "an ill-formed problem is accepted: %s", bad.show().c_str());
            }
        }
        mc::trace();
    });
}
void mc::register_spaces()
{
    {
        std::vector<int> kinds;
        for (int k = 0; k < probes::KINDS; ++k) kinds.push_back(k);
        probes::in_place(kinds);
    }
    whole();
    for (int d = 1; d <= 3; ++d) { sequences(d, 0, 1); sequences(d, 0, 0); sequences(d, 3, 2); }
    interleavings(0, 1);
    interleavings(2, 0);
    for (int d = 1; d <= 4; ++d) copies(d);
    if (mc::thorough())
    {
        sequences(4, 0, 1); sequences(4, 3, 3); sequences(4, 3, 1);
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (!(i == 0 && j == 1) && !(i == 2 && j == 0)) interleavings(i, j);
        copies(5); copies(6);
    }
}
MC_MAIN
