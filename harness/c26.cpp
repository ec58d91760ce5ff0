// C26: no failure of a device becomes a labeling.  The host code of both device backends runs against the stand-ins for
// OpenCL and CUDA; every operation of every run fails once, alone and together with everything after it.
#include "glue.hpp"
#include "endings.hpp"
#include "fakecl.hpp"
#include "fakecuda.hpp"
#include <sys/wait.h>

struct Config { double c, s; int rep; double thr; };
static const Config K[] = {{1, 1, 0, 0}, {1, 1, 0, 1}, {1, 1, 0, 100}, {1, 0.5, 2, 1}, {1, 1, 3, 2}, {2, 2, 4, 3.25}};

static void prepare(bool cuda)
{
    static bool once = false;
    if (!once)
    {
        once = true;
        fakecl::source_dir = getenv("MC_REPO") ? getenv("MC_REPO") : "/repo";
        fakecl::scratch = getenv("MC_BUILD") ? getenv("MC_BUILD") : "/tmp";
        if (chdir(fakecl::source_dir.c_str())) exit(2);
        fakecuda::load((fakecl::scratch + "/device.so").c_str());
    }
    fib::guard = cuda ? fakecuda::guard : fakecl::guard;
}

enum Outcome { LABELED, NO_LABELING, EXCEPTION, ENDED, ENDED_WELL };
static const char* const NAMES[] = {"returns a labeling", "reports that there is no labeling", "ends with an exception", "ends the program with a failing status", "ends the program with status 0"};

struct Run { Outcome outcome; long calls; std::string call; };
static Run run(ConstraintGraph& c, bool cuda, long fail_at, bool for_good)
{
    Outcome o = ENDED;
    fib::pods.clear();
    fib::pods.push_back({&fakecl::st, sizeof fakecl::st});
    fib::pods.push_back({&fakecuda::st, sizeof fakecuda::st});
    endings::happened = false;
    fakecl::calls = fakecuda::calls = 0;
    fakecl::failed_call.clear(); fakecuda::failed_call.clear();
    fakecl::for_good = fakecuda::for_good = for_good;
    fakecl::fail_at = cuda ? -1 : fail_at;
    fakecuda::fail_at = cuda ? fail_at : -1;
    fib::Explorer e;
    e.body = [&] {
        try { o = (cuda ? sp::labeling::finder::find_labeling_cuda(&c) : sp::labeling::finder::find_labeling_cl(&c)) ? LABELED : NO_LABELING; }
        catch (...) { o = EXCEPTION; }
    };
    e.finished = [] {};
    e.run_linear(false);
    mc::step((mc::u64)(cuda ? fakecuda::calls : fakecl::calls));
    fakecl::fail_at = fakecuda::fail_at = -1;
    if (endings::happened) o = endings::status ? ENDED : ENDED_WELL;
    if (!cuda) fakecl::reset();
    return {o, cuda ? fakecuda::calls : fakecl::calls, cuda ? fakecuda::failed_call : fakecl::failed_call};
}

static void one(const Problem& p, const Config& f, bool cuda, const Avail* start)
{
    prepare(cuda);
    Real r(p);
    Constraints k(p, f.thr);
    ConstraintGraph c(&r.g, &r.l, f.thr);
    Avail a = start ? *start : k.gfp(get_avail(c, p));
    set_avail(c, p, a);
    auto found = k.greedy(a);
    Avail l(a.size(), 0);
    if (!found.empty()) for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) l[p.ix(x, y, found[y * p.w + x])] = 1;
    const ConstraintGraph before = c;
    const char* backend = cuda ? "CUDA" : "OpenCL";
    static bool warm[2];                     // devices and contexts are created once
    if (!warm[cuda]) run(c, cuda, -1, false);
    warm[cuda] = true;
    c.nodes_availability = before.nodes_availability;
    Run free_ = run(c, cuda, -1, false);
    MC_CHECK(free_.outcome == (found.empty() ? NO_LABELING : LABELED), "%s without failures %s; %s threshold %g", backend, NAMES[free_.outcome], p.show().c_str(), f.thr);
    mc::state(1);
    for (int for_good = 0; for_good < 2; ++for_good)
        for (long i = 0; i < free_.calls; ++i)
        {
            c.nodes_availability = before.nodes_availability;
            Run x = run(c, cuda, i, for_good);
            mc::trace();
            mc::state(1);
            mc::count("failures_injected");
            mc::count(std::string("failing_") + backend + "_" + x.call);
            mc::count(std::string("outcome: ") + NAMES[x.outcome]);
            if (x.call.empty()) { mc::count("failures_not_reached"); continue; }
            std::string what = fmt("operation %ld of %ld (%s) fails%s, %s %s; %s threshold %g", i, free_.calls, x.call.c_str(), for_good ? " and all later ones" : "", backend, NAMES[x.outcome], p.show().c_str(), f.thr);
            MC_CHECK(x.outcome != ENDED_WELL, "%s", what.c_str());
            if (x.outcome == LABELED) MC_CHECK(!found.empty() && get_avail(c, p) == l, "%s with %s instead of %s", what.c_str(), ref::show(p, get_avail(c, p)).c_str(), found.empty() ? "none" : ref::show(p, l).c_str());
        }
    mc::sample([&] { return std::string(backend) + " " + p.show() + fmt(" thr=%g: each of %ld operations fails", f.thr, free_.calls); });
}

// the first use in a process, which also looks for devices: a process of its own for every failing operation
static void first_use()
{
    mc::space("first_use", {2, 12, 2}, [=](const Digits& g) {
        bool cuda = g[0], for_good = g[2];
        const Config& f = K[1];
        Problem p = problem(2, 1, 2, f.c, f.s, 3);
        pattern(p, 2);
        Real r(p);
        Constraints k(p, f.thr);
        ConstraintGraph c(&r.g, &r.l, f.thr);
        set_avail(c, p, k.gfp(get_avail(c, p)));
        auto found = k.greedy(get_avail(c, p));
        Avail l(c.nodes_availability.size(), 0);
        if (!found.empty()) for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) l[p.ix(x, y, found[y * p.w + x])] = 1;
        fflush(nullptr);
        pid_t child = fork();
        if (child == 0)
        {
            int code = 50;
            try
            {
                prepare(cuda);
                Run x = run(c, cuda, (long)g[1], for_good);
                code = 10 + x.outcome;
                if (x.call.empty()) code = 20;
                else if (x.outcome == LABELED && (found.empty() || get_avail(c, p) != l)) code = 21;
            }
            catch (...) { code = 51; }
            _exit(code);
        }
        int status = 0;
        if (child < 0 || waitpid(child, &status, 0) != child) { fprintf(stderr, "fork\n"); exit(2); }
        std::string what = fmt("operation %llu of the first use fails%s, %s ", (unsigned long long)g[1], for_good ? " and all later ones" : "", cuda ? "CUDA" : "OpenCL");
        mc::trace();
        mc::state(1);
        if (!WIFEXITED(status)) { mc::count("outcome: ends the program with a signal"); return; }
        int code = WEXITSTATUS(status);
        if (code == 2) exit(2);
        if (code == 20) { mc::count("operations_not_reached_at_the_first_use"); return; }
        mc::count("failures_injected");
        MC_CHECK(code != 21, "%sreturns a wrong labeling", what.c_str());
        if (code < 10 || code > 10 + ENDED_WELL) mc::fail(what + fmt("ends strangely (%d)", code));
        mc::count(std::string("outcome: ") + NAMES[code - 10]);
        MC_CHECK(code != 10 + ENDED_WELL, "%s%s", what.c_str(), NAMES[ENDED_WELL]);
    });
}
static void images(i64 w, i64 h, i64 D, unsigned configs, u64 kinds)
{
    mc::space("images" + shape(w, h, D) + fmt("_i%llu", kinds), {2, configs, kinds}, [=](const Digits& g) {
        const Config& f = K[g[1]];
        Problem p = problem(w, h, D, f.c, f.s, 3);
        pattern(p, (int)g[2]);
        reparam(p, f.rep);
        one(p, f, g[0], nullptr);
    });
}
static void subsets(i64 w, i64 h, i64 D, unsigned configs)
{
    u64 n = node_count(w, h, D);
    mc::space("subsets" + shape(w, h, D) + fmt("_k%u", configs), {2, configs, 1ull << n}, [=](const Digits& g) {
        const Config& f = K[g[1]];
        Problem p = problem(w, h, D, f.c, f.s, 3);
        pattern(p, 2);
        reparam(p, f.rep);
        Avail a = from_mask(p, node_list(p), g[2]);
        one(p, f, g[0], &a);
    });
}

// first choices which turn out to be wrong, in the first pixel or in a later one: operations of further attempts fail
static void wrong_choices()
{
    mc::space("wrong_choices", {2, 3, 4}, [](const Digits& g) {
        // the second pixel of a square and the third one must be 1 if the first one is, but the fourth can't be both
        static const u64 ends[4][4] = {{1, 1, 1, 4}, {1, 4, 1, 1}, {4, 1, 1, 4}, {2, 2, 3, 3}};
        const i64 w = g[1] == 2 ? 4 : 3, h = g[1] == 1 ? 3 : 2, left = w - 3, top = h - 2;
        std::vector<u64> kinds;
        for (i64 y = 0; y < h; ++y) for (i64 x = 0; x < w - 2; ++x) kinds.push_back(x == left && y >= top ? ends[g[2]][y - top] : 0);
        for (i64 y = 0; y < h - 1; ++y) for (i64 x = 0; x < w - 1; ++x) kinds.push_back(y == top && x >= left ? ends[g[2]][2 + x - left] : 0);
        Problem p = relations(w, h, kinds, g[2] == 3 ? 0 : ~0ull);
        one(p, {p.c, p.s, 0, RELATIONS_THRESHOLD}, g[0], nullptr);
    });
}
void mc::register_spaces()
{
    wrong_choices();
    first_use();
    images(2, 1, 2, 6, 4);
    images(2, 2, 2, 6, 4);
    images(3, 1, 3, 6, 4);
    images(3, 2, 2, 6, 2);
    subsets(2, 1, 2, 2);
    subsets(3, 1, 3, 1);
    subsets(2, 2, 2, 1);
    if (mc::thorough())
    {
        images(2, 2, 2, 6, 16);
        images(3, 3, 3, 6, 16);
        subsets(2, 1, 2, 6);
        images(4, 3, 4, 6, 8);
        images(3, 2, 3, 6, 16);
        subsets(3, 1, 3, 6);
        subsets(2, 2, 2, 6);
        subsets(3, 2, 2, 2);
        subsets(4, 1, 3, 2);
    }
}
MC_MAIN
