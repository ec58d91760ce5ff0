// C19: labeling by the OpenCL backend under every interleaving.  The host code of /repo runs on fiber 0 against a stand-in
// for OpenCL (fakecl.hpp), the kernels are compiled from the very source which the host code hands over for compilation;
// every work item is a fiber.
#include <gpu_csp.hpp>
#include "glue.hpp"
#include "fakecl.hpp"
#include "gpu_linear.hpp"


struct Config { double c, s; int rep; double thr; };
static const Config K[] = {{1, 1, 0, 0}, {1, 1, 0, 1}, {1, 1, 0, 100}, {1, 0.5, 2, 1}, {1, 1, 3, 2}, {2, 2, 4, 3.25}, {1, 1, 0, 4}, {1, 0.25, 0, 2}};

static void prepare()
{
    static bool once = false;
    if (once) return;
    once = true;
    fakecl::source_dir = getenv("MC_REPO") ? getenv("MC_REPO") : "/repo";
    fakecl::scratch = getenv("MC_BUILD") ? getenv("MC_BUILD") : "/tmp";
    if (chdir(fakecl::source_dir.c_str())) exit(2);     // the sources are looked up relative to the root of the repository
    fib::guard = fakecl::guard;
}

template <class W> static void check_end(const Problem& p, const Config& f, ConstraintGraph& c, const W& want, bool result, const char* how)
{
    MC_CHECK(result == !want.empty(), "labeling %s, %s: %s; threshold %g; %s", result ? "found although there is none" : "not found", how, ref::show(p, get_avail(c, p)).c_str(), f.thr, p.show().c_str());
    if (!result) return;
    Avail b = get_avail(c, p), l(b.size(), 0);
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) l[p.ix(x, y, want[y * p.w + x])] = 1;
    MC_CHECK(b == l, "labeling leaves %s instead of %s, %s; threshold %g; %s", ref::show(p, b).c_str(), ref::show(p, l).c_str(), how, f.thr, p.show().c_str());
}

// start: restrictions of the available nodes; labeling begins with what solving leaves of them, or without solving
static void one(const Problem& p, const Config& f, const Avail* start, bool solved, int preemptions)
{
    prepare();
    Real r(p);
    Constraints k(p, f.thr);
    ConstraintGraph c(&r.g, &r.l, f.thr);
    Avail a = start ? *start : get_avail(c, p);
    if (solved) a = k.gfp(a);
    set_avail(c, p, a);
    auto want = k.greedy(a);
    bool dead_end = false;                   // does the node which looks best lead nowhere for some pixel?
    if (!want.empty())
    {
        Avail b = a;
        for (i64 x = 0; x < p.w; ++x) for (i64 y = 0; y < p.h; ++y)
        {
            i64 best = -1;
            for (i64 d = 0; d < p.D; ++d) if (p.node(x, y, d) && b[p.ix(x, y, d)] && (best < 0 || p.nodePenalty(x, y, d) < p.nodePenalty(x, y, best))) best = d;
            if (best != want[y * p.w + x]) dead_end = true;
            for (i64 d = 0; d < p.D; ++d) if (d != want[y * p.w + x]) b[p.ix(x, y, d)] = 0;
            b = k.gfp(b);
        }
        mc::count(dead_end ? "labelings_with_a_dead_end" : "labelings_without_dead_ends");
    }
    const ConstraintGraph before = c;
    {
        gpu::Problem g;
        gpu::build_csp_program(&g);
        gpu::prepare_problem(&c, &g);
        for (u64 local = p.w * p.h; local > 0; --local)
        {
            if ((u64)(p.w * p.h) % local) continue;
            if (local != (u64)(p.w * p.h) && !fakecl::groups_matter) break;   // no way to tell how items are grouped
            fakecl::configured_local = local;
            bool result = false;
            fib::Explorer e;
            e.width = (unsigned)(p.w * p.h + 1);
            e.preemptions = preemptions;
            fakecl::attach();
            c.nodes_availability = before.nodes_availability;
            e.body = [&] { result = gpu::csp_solution_cl(&c, &g); };
            e.finished = [&] { check_end(p, f, c, want, result, "groups of all sizes"); };
            e.run();
            mc::state(e.states);
            mc::stats().transitions += e.transitions;
            mc::trace(e.ends);
            mc::count("ends_of_executions_checked", e.ends);
            mc::count("shared_granules", e.shared_granules);
            mc::count("explorations_restarted_for_sharing", e.restarts);
            mc::count("problems_with_cycles_checked_for_fairness", e.cyclic);
            if (preemptions >= 0) mc::count("interruptions_beyond_the_bound", e.skipped);
            if (e.capped) mc::count("problems_cut_at_the_limit_of_states");
            mc::sample([&] { return p.show() + fmt(" thr=%g start ", f.thr) + ref::show(p, a)
                + fmt(": %llu states, %llu transitions, %llu ends", e.states, e.transitions, e.ends); });
        }
    }
    // the entry point used by the program, in two orders
    for (int high = 0; high < 2; ++high)
    {
        c.nodes_availability = before.nodes_availability;
        bool result = false;
        fib::Explorer e;
        fakecl::attach();
        fakecl::configured_local = 0;
        e.body = [&] { result = sp::labeling::finder::find_labeling_cl(&c) != nullptr; };
        e.finished = [&] { check_end(p, f, c, want, result, "entry point of the program"); };
        e.run_linear(high);
        mc::count("whole_runs");
    }
    fakecl::reset();
    mc::count(want.empty() ? "labelings_impossible" : "labelings_found");
    mc::count(fakecl::groups_matter ? "problems_with_all_sizes_of_groups" : "problems_not_depending_on_groups");
}

static void images(i64 w, i64 h, i64 D, unsigned configs, u64 kinds, bool solved, int preemptions = -1)
{
    mc::space("images" + shape(w, h, D) + (solved ? "_solved" : "_raw") + (preemptions < 0 ? "" : fmt("_p%d", preemptions)) + fmt("_i%llu", kinds), {configs, kinds}, [=](const Digits& g) {
        const Config& f = K[g[0]];
        Problem p = problem(w, h, D, f.c, f.s, 3);
        pattern(p, (int)g[1]);
        reparam(p, f.rep);
        one(p, f, nullptr, solved, preemptions);
    });
}

// every set of nodes as the start
static void subsets(i64 w, i64 h, i64 D, unsigned configs, int preemptions = -1, u64 every = 1)
{
    u64 n = node_count(w, h, D);
    mc::space("subsets" + shape(w, h, D) + fmt("_k%u", configs) + (preemptions < 0 ? "" : fmt("_p%d", preemptions)), {configs, (1ull << n) / every}, [=](const Digits& g) {
        const Config& f = K[g[0]];
        Problem p = problem(w, h, D, f.c, f.s, 3);
        pattern(p, 2);
        reparam(p, f.rep);
        Avail a = from_mask(p, node_list(p), g[1] * every + every - 1);
        one(p, f, &a, false, preemptions);
    });
}

// weights which single precision cannot hold exactly, the smallest threshold, as the program does it (known findings)
static void precision()
{
    static const double weights[][2] = {{1, 0.1}, {0.1, 0.1}, {0.7, 0.2}};
    mc::space("precision", {3}, [](const Digits& g) {
        prepare();
        Problem p = problem(6, 1, 4, weights[g[0]][0], weights[g[0]][1], 5);
        p.L = {5, 0, 0, 0, 3, 2};
        p.R = {5, 3, 2, 1, 0, 0};        // the pixels are shifted by 0 and then 3 columns
        Real r(p);
        const double t = sp::labeling::finder::calculate_minimal_consistent_threshold(&r.l, &r.g, sp::labeling::finder::fetch_available_penalties(&r.l));
        const Config f{p.c, p.s, 0, t};
        ConstraintGraph c(&r.g, &r.l, t);
        sp::graph::constraint::solve_csp(&c);
        Constraints k(p, t);
        auto found = k.greedy(get_avail(c, p));
        std::vector<int> want(found.begin(), found.end());
        bool result = false;
        fib::Explorer e;
        fakecl::attach(); fakecl::configured_local = 0;
        e.body = [&] { result = sp::labeling::finder::find_labeling_cl(&c) != nullptr; };
        e.finished = [&] { check_end(p, f, c, want, result, "weights and penalties which single precision cannot hold"); };
        e.run_linear(false);
        mc::count("whole_runs");
    });
}

// one schedule, the entry point used by the program
static void straight(const Problem& p, double t, const Avail* start, const char* how, const std::vector<i64>* expected)
{
    prepare();
    Real r(p);
    Constraints k(p, t);
    ConstraintGraph c(&r.g, &r.l, t);
    if (start) set_avail(c, p, *start);
    std::vector<i64> want;
    if (expected) want = *expected;
    else { auto found = k.greedy(get_avail(c, p)); want.assign(found.begin(), found.end()); }
    bool result = false;
    fib::Explorer e;
    fakecl::attach(); fakecl::configured_local = 0;
    e.body = [&] { result = sp::labeling::finder::find_labeling_cl(&c) != nullptr; };
    e.finished = [&] { check_end(p, {p.c, p.s, 0, t}, c, want, result, how); };
    e.run_linear(false);
    fakecl::reset();
    mc::count("whole_runs");
    mc::count(want.empty() ? "labelings_impossible" : "labelings_found");
}

// intensities and weights of other magnitudes, all exact in single precision, one schedule
static void values(i64 w, i64 h, i64 D)
{
    static const unsigned long M[] = {128, 256, 32768, 65534, 65536, 1 << 20};
    static const double T[] = {0, 0.25, 1, 1e3};
    u64 n = 1;
    for (i64 i = 0; i < w * h * 2; ++i) n *= 2;
    mc::space("values" + shape(w, h, D), {6, 8, 4, n}, [=](const Digits& g) {
        Problem p = problem(w, h, D, 1, 1, M[g[0]]);
        std::vector<unsigned long> both(w * h * 2);
        fill_image(both, g[3], {0, M[g[0]]});
        p.L.assign(both.begin(), both.begin() + w * h);
        p.R.assign(both.begin() + w * h, both.end());
        double t = T[g[2]];
        if (g[1] == 7) t *= (double)M[g[0]] * (double)M[g[0]];
        else { rescale(p, g[1]); t *= p.c; }
        straight(p, t, nullptr, "values of large or small magnitude");
    });
}

// sizes which don't fit in a byte, one schedule: all images are black, so all nodes of the same disparity fit together;
// the best nodes are missing in some column, and in the end there is a labeling or there is none
static void sizes(const char* name, std::vector<std::array<i64, 3>> shapes)
{
    mc::space(name, {shapes.size(), 2}, [=](const Digits& g) {
        Problem p = problem(shapes[g[0]][0], shapes[g[0]][1], shapes[g[0]][2], 1, 1, 3);
        Avail a(p.w * p.h * p.D, 0);
        // a staircase, which begins with the highest disparity
        for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) a[p.ix(x, y, p.levels(x) - 1)] = 1;
        if (g[1]) a[p.ix(p.w - 1, p.h - 1, 0)] = 0;
        straight(p, 1, &a, "large image");
    });
}

// the same gpu::Problem for one graph after another, and for the first one again
static void reused()
{
    mc::space("reused", {12, 12, 3}, [](const Digits& g) {
        prepare();
        Problem q[2];
        for (int i = 0; i < 2; ++i)
        {
            q[i] = g[2] == 2 && i ? problem(4, 1, g[i] % 3 ? 2 : 3, 1, 1, 3) : problem(3, 2, g[i] % 3 ? 2 : 3, 1, i && g[2] ? 0.25 : 1, 3);
            pattern(q[i], 1 + (int)g[i]);
            reparam(q[i], (int)g[i] % 3);
        }
        {
            gpu::Problem shared;
            gpu::build_csp_program(&shared);
            for (int i : {0, 1, 0})
            {
                const Problem& p = q[i];
                Real r(p);
                const double t = p.s;
                Constraints k(p, t);
                ConstraintGraph c(&r.g, &r.l, t);
                auto found = k.greedy(get_avail(c, p));
                std::vector<i64> want(found.begin(), found.end());
                bool result = false;
                fib::Explorer e;
                fakecl::attach(); fakecl::configured_local = 0;
                gpu::prepare_problem(&c, &shared);
                e.body = [&] { result = gpu::csp_solution_cl(&c, &shared); };
                e.finished = [&] { check_end(p, {p.c, p.s, 0, t}, c, want, result, "memory of the device used again"); };
                e.run_linear(false);
                mc::count("whole_runs");
            }
        }
        fakecl::reset();
    });
}

void mc::register_spaces()
{
    reused();
    precision();
    values(2, 1, 2);
    values(3, 1, 3);
    sizes("sizes", {{257, 1, 257}, {2, 257, 2}, {300, 1, 2}});
    images(2, 1, 2, 8, 16, true);
    images(3, 1, 3, 8, 16, true);
    images(4, 1, 3, 8, 8, true);
    images(2, 2, 2, 8, 16, true);
    images(2, 2, 2, 8, 16, false);
    subsets(2, 1, 2, 8);
    subsets(3, 1, 3, 8);
    subsets(2, 2, 2, 8);
    images(3, 2, 2, 8, 8, true, 1);
    images(2, 3, 2, 8, 8, false, 1);
    images(3, 3, 3, 8, 4, false, 0);
    linear_spaces();
    if (mc::thorough())
    {
        values(2, 2, 2);
        images(2, 2, 2, 8, 64, false);
        images(5, 1, 3, 8, 8, false);
        images(3, 2, 2, 8, 16, false, 2);
        images(2, 3, 2, 8, 16, false, 2);
        images(3, 2, 3, 8, 16, false, 1);
        images(3, 3, 2, 8, 8, false, 1);
        images(4, 2, 3, 8, 8, false, 1);
        subsets(3, 2, 2, 4, 1);
        subsets(2, 3, 2, 4, 1);
        subsets(4, 1, 3, 8);
        images(3, 2, 2, 4, 4, true);
        images(2, 3, 2, 4, 4, true);
    }
}
MC_MAIN
