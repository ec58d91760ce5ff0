// C03: the OpenMP build's solver under every interleaving.  States, transitions: see fibers.hpp; the code is the library
// itself, compiled with OpenMP on; its threads are fibers.
#include "glue.hpp"
#include "omp.hpp"
#include "omp_selftest.hpp"

struct Config { double c, s; int rep; double thr; };
static const Config K[] = {{1, 1, 0, 0}, {1, 1, 0, 1}, {1, 1, 0, 100}, {1, 0.5, 2, 1}, {1, 1, 3, 2}, {2, 2, 4, 3.25}};

static void explore(const Problem& p, double thr, const Constraints& k, ConstraintGraph& c, const Avail& a, int threads, int granted = 0)
{
    set_avail(c, p, a);
    Avail want = k.gfp(a);
    bool result = false;
    std::set<std::string> seen;
    fib::Explorer e;
    e.width = (unsigned)threads;
    omp::threads = threads;
    omp::granted = granted;
    omp::attach();
    e.body = [&] { result = solve_csp(&c); };
    e.finished = [&] {
        Avail b = get_avail(c, p);
        MC_CHECK(b == want, "%d threads leave %s instead of %s, starting with %s, threshold %g; %s", threads,
            ref::show(p, b).c_str(), ref::show(p, want).c_str(), ref::show(p, a).c_str(), thr, p.show().c_str());
        MC_CHECK(result == ref::any(want), "%d threads report %d, left is %s, starting with %s, threshold %g; %s", threads,
            (int)result, ref::show(p, b).c_str(), ref::show(p, a).c_str(), thr, p.show().c_str());
    };
    try { e.run(); }
    catch (mc::Violation& v)
    {
        if (v.what.find("threshold") == std::string::npos)
            v.what = fmt("%d threads, starting with %s, threshold %g; %s: ", threads, ref::show(p, a).c_str(), thr, p.show().c_str()) + v.what;
        throw;
    }
    mc::state(e.states);
    mc::stats().transitions += e.transitions;
    mc::trace(e.ends);
    mc::count("ends_of_executions_checked", e.ends);
    mc::count("explorations_restarted_for_sharing", e.restarts);
    mc::count("transitions_to_known_states", e.merged);
    mc::count("problems_with_cycles_checked_for_fairness", e.cyclic);
    mc::count("shared_granules", e.shared_granules);
    mc::count(ref::any(want) ? "problems_solvable" : "problems_unsolvable");
    if (e.capped) mc::count("problems_cut_at_the_limit_of_states");
    mc::sample([&] { return p.show() + fmt(" thr=%g threads=%d start ", thr, threads) + ref::show(p, a)
        + fmt(": %llu states, %llu transitions, %llu ends", e.states, e.transitions, e.ends); });
}

// the explorer on programs with known outcomes; a difference means that this check is broken
static void selftest_one(const char* name, void (*f)(), int threads, const std::string& want)
{
    std::set<int> seen;
    std::string got;
    fib::Explorer e;
    e.width = (unsigned)threads;
    omp::threads = threads;
    omp::granted = 0;
    omp::attach();
    e.body = [&] { f(); };
    e.finished = [&] { seen.insert(selftest::x); };
    try { e.run(); for (int v : seen) got += fmt("%d ", v); }
    catch (const mc::Violation& v) { got = v.what.substr(0, v.what.find(':')); }
    if (got != want) { fprintf(stderr, "self-test %s with %d threads: %s instead of %s\n", name, threads, got.c_str(), want.c_str()); exit(2); }
    mc::count("selftest_states", e.states);
}
static void selftests()
{
    mc::space("selftest", {1}, [](const Digits&) {
        using namespace selftest;
        selftest_one("lost update", lost_update, 2, "1 2 ");
        selftest_one("lost update", lost_update, 3, "1 2 3 ");
        selftest_one("critical", critical, 3, "3 ");
        selftest_one("reduction", reduction, 3, "15 ");
        selftest_one("barrier", barrier, 3, "3330 ");
        selftest_one("dynamic loop", dynamic_loop, 2, "0 1 10 11 100 101 110 111 ");
        selftest_one("crossed locks", crossed_locks, 2, "deadlock");
        selftest_one("waiting", waiting, 2, "0 ");
        selftest_one("too polite", too_polite, 2, "endless repetition");
        selftest_one("store buffering", store_buffering, 2, "1 10 11 ");
        selftest_one("tasks", tasks, 2, "0 1 10 11 ");
        selftest_one("racing tasks", tasks_race, 2, "10 20 ");
        selftest_one("taskloop", taskloop, 2, "6 ");
    });
}

// labeling retries solving: the whole of it under all interleavings
static void labelings(i64 w, i64 h, i64 D, int threads, u64 images)
{
    mc::space("labeling" + shape(w, h, D) + fmt("_n%d", threads), {6, images}, [=](const Digits& g) {
        const Config& f = K[g[0]];
        Problem p = problem(w, h, D, f.c, f.s, 3);
        pattern(p, 2 + (int)g[1]);
        reparam(p, f.rep);
        Real r(p);
        Constraints k(p, f.thr);
        ConstraintGraph c(&r.g, &r.l, f.thr);
        Avail a = get_avail(c, p);
        auto want = k.greedy(a);
        bool result = false;
        fib::Explorer e;
        e.width = (unsigned)threads;
        omp::threads = threads;
        omp::granted = 0;
        omp::attach();
        auto* pc = &c;
        e.body = [&] { result = sp::labeling::finder::find_labeling(pc) != nullptr; };
        e.finished = [&] {
            Avail b = get_avail(c, p), l((size_t)(w * h * D), 0);
            for (i64 y = 0; y < h && !want.empty(); ++y) for (i64 x = 0; x < w; ++x) l[p.ix(x, y, want[y * w + x])] = 1;
            MC_CHECK(result == !want.empty(), "labeling with %d threads %s, threshold %g; %s", threads, result ? "finds an impossible one" : "finds none", f.thr, p.show().c_str());
            MC_CHECK(!result || b == l, "labeling with %d threads leaves %s instead of %s, threshold %g; %s", threads, ref::show(p, b).c_str(), ref::show(p, l).c_str(), f.thr, p.show().c_str());
        };
        e.run();
        mc::state(e.states);
        mc::stats().transitions += e.transitions;
        mc::trace(e.ends);
        mc::count(want.empty() ? "labelings_impossible" : "labelings_found");
        if (e.capped) mc::count("problems_cut_at_the_limit_of_states");
    });
}

// every set of nodes as the start
static void subsets(i64 w, i64 h, i64 D, unsigned configs, int threads, u64 chunk, u64 limit = 0, int granted = 0)
{
    u64 n = node_count(w, h, D), masks = 1ull << n, chunks = (masks + chunk - 1) / chunk;
    mc::space("subsets" + shape(w, h, D) + fmt("_k%u_n%d", configs, threads) + (granted ? fmt("_of%d", granted) : ""), {configs, limit ? std::min(limit, chunks) : chunks}, [=](const Digits& g) {
        const Config& f = K[g[0]];
        Problem p = problem(w, h, D, f.c, f.s, 3);
        pattern(p, 2);
        reparam(p, f.rep);
        Real r(p);
        Constraints k(p, f.thr);
        ConstraintGraph c(&r.g, &r.l, f.thr);
        auto nodes = node_list(p);
        u64 step = limit && limit < chunks ? chunks / limit : 1;
        const u64 at = g[1] * step + (step > 1 ? mc::mix(g[1] + 1) % step : 0);
        for (u64 m = at * chunk; m < masks && m < (at + 1) * chunk; ++m) explore(p, f.thr, k, c, from_mask(p, nodes, m), threads, granted);
    });
}
// larger shapes: from the nodes within the threshold, one pixel restricted to one of its levels or to none
static void perturb(i64 w, i64 h, i64 D, Config f, int threads)
{
    mc::space("perturb" + shape(w, h, D) + fmt("_t%g_n%d", f.thr, threads), {(u64)(w * h), (u64)(D + 1)}, [=](const Digits& g) {
        Problem p = problem(w, h, D, f.c, f.s, 3);
        pattern(p, 2);
        reparam(p, f.rep);
        i64 x = (i64)g[0] % w, y = (i64)g[0] / w, keep = (i64)g[1];
        if (keep >= p.levels(x) && keep != D) return;
        Real r(p);
        Constraints k(p, f.thr);
        ConstraintGraph c(&r.g, &r.l, f.thr);
        Avail a((size_t)(w * h * D), 0);
        for (i64 v = 0; v < h; ++v) for (i64 u = 0; u < w; ++u) for (i64 d = 0; d < p.levels(u); ++d)
            a[p.ix(u, v, d)] = (u == x && v == y) ? d == keep : 1;
        explore(p, f.thr, k, c, a, threads);
    });
}

// more threads and more rows than can be explored under all schedules: two schedules each, as well as all orders in which
// few threads can take turns without interruptions
static void teams(i64 w, i64 rows, int most)
{
    mc::space(fmt("teams%lldx%lld_n%d", w, rows, most), {(u64)rows, (u64)most, 4, 3}, [=](const Digits& g) {
        const i64 h = 1 + (i64)g[0];
        const int threads = 1 + (int)g[1];
        static const Config only_equal{0, 1, 0, 0};
        const Config& f = g[2] ? K[g[2]] : only_equal;
        Problem p = problem(w, h, 2, f.c, f.s, 3);
        pattern(p, 2 + (int)g[3]);
        reparam(p, f.rep);
        Real r(p);
        Constraints k(p, f.thr);
        ConstraintGraph c(&r.g, &r.l, f.thr);
        const Avail all = get_avail(c, p);
        for (i64 y = -1; y < h; ++y) for (int keep = 0; keep < 3; ++keep)
        {
            Avail a = all;
            if (y < 0 && keep) break;
            // one pixel of a row is restricted to one of its levels, or to none
            if (y >= 0) { a[p.ix(0, y, 0)] &= keep == 0; a[p.ix(0, y, 1)] &= keep == 1; }
            Avail want = k.gfp(a);
            for (int granted : {0, threads - 1})
            {
                if (granted && granted >= threads) continue;
                if (granted && y >= 0) continue;
                for (int highest = 0; highest < 2; ++highest)
                {
                    set_avail(c, p, a);
                    bool result = false;
                    fib::Explorer e;
                    omp::threads = threads;
                    omp::granted = granted;
                    omp::attach();
                    e.body = [&] { result = solve_csp(&c); };
                    e.finished = [&] {
                        Avail b = get_avail(c, p);
                        MC_CHECK(b == want, "%d threads, one schedule, leave %s instead of %s, starting with %s, threshold %g; %s", threads,
                            ref::show(p, b).c_str(), ref::show(p, want).c_str(), ref::show(p, a).c_str(), f.thr, p.show().c_str());
                        MC_CHECK(result == ref::any(want), "%d threads, one schedule, report %d, starting with %s, threshold %g; %s", threads, (int)result, ref::show(p, a).c_str(), f.thr, p.show().c_str());
                    };
                    e.run_linear(highest);
                    mc::count("whole_runs");
                }
            }
        }
        omp::granted = 0;
    });
}

void mc::register_spaces()
{
    selftests();
    teams(2, 20, 14);
    teams(3, 9, 9);
    labelings(2, 2, 2, 2, 8);
    labelings(3, 2, 2, 2, 4);
    labelings(2, 2, 2, 3, 4);
    for (int n = 1; n <= 4; ++n) subsets(2, 1, 2, 6, n, 1);
    subsets(2, 2, 2, 6, 1, 8);
    subsets(2, 2, 2, 6, 2, 1);
    subsets(2, 2, 2, 6, 3, 1);
    subsets(2, 2, 2, 6, 2, 8, 0, 1);       // teams smaller than asked for
    subsets(2, 3, 2, 1, 3, 1, 0, 2);
    subsets(3, 1, 3, 6, 2, 1);
    subsets(2, 3, 2, 3, 2, 1);
    subsets(3, 2, 2, 3, 2, 1);
    perturb(3, 3, 3, K[1], 2);
    subsets(2, 3, 2, 1, 3, 1, 128);
    perturb(2, 3, 2, K[1], 3);
    perturb(2, 4, 2, K[1], 2);
    perturb(2, 4, 2, K[1], 3);
    perturb(2, 5, 2, K[1], 2);
    if (mc::thorough())
    {
        subsets(2, 2, 2, 6, 4, 1);
        subsets(2, 2, 2, 3, 5, 1, 16);
        subsets(2, 3, 2, 2, 3, 1);
        subsets(2, 3, 2, 1, 4, 1, 32);
        subsets(3, 2, 3, 3, 2, 1);
        subsets(2, 4, 2, 1, 2, 1);
        perturb(2, 4, 2, K[1], 4);
        subsets(3, 2, 2, 3, 3, 1);
        perturb(3, 3, 2, K[1], 3);
        perturb(3, 3, 3, K[1], 3);
        perturb(4, 4, 3, K[1], 2);
        perturb(4, 5, 4, K[0], 2);
        perturb(6, 2, 4, K[3], 2);
        perturb(2, 4, 2, K[4], 3);
        labelings(3, 3, 3, 2, 4);
        labelings(2, 3, 2, 3, 4);
    }
}
MC_MAIN
