// C04: the state graph of partial solving steps. States are all sets of available nodes, transitions are the real steps
// (one worker's share for every worker count and number, one pixel, the removal test of one node).
#include "glue.hpp"
#include "probes.hpp"

static void one_state(const Problem& p, double thr, const Constraints& k, ConstraintGraph& c, const Avail& a, bool probe_all)
{
    Avail fix = k.gfp(a);
    mc::state();
    auto after = [&](const std::string& what, bool ret) {
        mc::step();
        Avail b = get_avail(c, p);
        for (size_t i = 0; i < a.size(); ++i)
        {
            MC_CHECK(!(b[i] && !a[i]), "%s made a node available: %s -> %s, threshold %g; %s", what.c_str(), ref::show(p, a).c_str(), ref::show(p, b).c_str(), thr, p.show().c_str());
            MC_CHECK(!(fix[i] && !b[i]), "%s removed a node of the largest consistent set: %s -> %s, threshold %g; %s", what.c_str(), ref::show(p, a).c_str(), ref::show(p, b).c_str(), thr, p.show().c_str());
        }
        MC_CHECK(ret == (a != b), "%s reports %d: %s -> %s, threshold %g; %s", what.c_str(), (int)ret, ref::show(p, a).c_str(), ref::show(p, b).c_str(), thr, p.show().c_str());
        mc::count(ret ? "changing_steps" : "quiet_steps");
        mc::trace();
        return ret;
    };
    for (i64 jobs = 1; jobs <= p.h + 2; ++jobs)
    {
        bool all_quiet = true;
        for (i64 j = 0; j < jobs; ++j)
        {
            set_avail(c, p, a);
            bool ret = csp_solution_iteration(&c, (UL)jobs, (UL)j);
            if (after(fmt("step of worker %lld of %lld", j, jobs), ret)) all_quiet = false;
        }
        MC_CHECK(!all_quiet || a == fix, "all %lld workers are quiet at %s although %s is the largest consistent set, threshold %g; %s",
            jobs, ref::show(p, a).c_str(), ref::show(p, fix).c_str(), thr, p.show().c_str());
    }
    bool all_quiet = true;
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x)
    {
        set_avail(c, p, a);
        for (i64 d = 0; d < p.levels(x); ++d)
        {
            bool rm = should_remove_node(&c, N_(x, y, d));
            bool want = a[p.ix(x, y, d)] && !k.supported(a, x, y, d);
            MC_CHECK(rm == want, "removal test of node %lld,%lld:%lld says %d at %s, threshold %g; %s", x, y, d, (int)rm, ref::show(p, a).c_str(), thr, p.show().c_str());
        }
        MC_CHECK(get_avail(c, p) == a, "removal test changed availability at %s", ref::show(p, a).c_str());
        bool ret = csp_process_pixel(&c, P_(x, y));
        if (after(fmt("step of pixel %lld,%lld", x, y), ret)) all_quiet = false;
    }
    MC_CHECK(!all_quiet || a == fix, "all pixels are quiet at %s, threshold %g; %s", ref::show(p, a).c_str(), thr, p.show().c_str());
    if (probe_all)
    {
        // every round-robin history by every number of workers reaches the largest consistent set and stops
        for (i64 jobs = 1; jobs <= p.h + 1; ++jobs) for (i64 first = 0; first < jobs; ++first)
        {
            set_avail(c, p, a);
            u64 limit = 2 * a.size() + 4, rounds = 0;
            for (bool changed = true; changed; ++rounds)
            {
                MC_CHECK(rounds < limit, "%lld workers starting with %lld never become quiet at %s, threshold %g; %s", jobs, first, ref::show(p, a).c_str(), thr, p.show().c_str());
                changed = false;
                for (i64 i = 0; i < jobs; ++i) { if (csp_solution_iteration(&c, (UL)jobs, (UL)((first + i) % jobs))) changed = true; mc::step(); }
            }
            Avail b = get_avail(c, p);
            MC_CHECK(b == fix, "%lld workers starting with %lld reach %s instead of %s from %s, threshold %g; %s", jobs, first, ref::show(p, b).c_str(), ref::show(p, fix).c_str(), ref::show(p, a).c_str(), thr, p.show().c_str());
            mc::trace();
        }
    }
    mc::sample([&] { return p.show() + fmt(" thr=%g state ", thr) + ref::show(p, a) + " fixpoint " + ref::show(p, fix); });
}

struct Config { double c, s; int rep; double thr; };
static const Config K[] = {{1, 1, 0, 0}, {1, 1, 0, 1}, {1, 1, 0, 100}, {1, 0.5, 2, 1}, {1, 1, 3, 2}, {2, 2, 4, 3.25}};

static void states(i64 w, i64 h, i64 D, unsigned configs, bool probe)
{
    u64 n = node_count(w, h, D);
    const u64 CHUNK = 32;
    u64 masks = 1ull << n, chunks = (masks + CHUNK - 1) / CHUNK;
    mc::space("states" + shape(w, h, D) + fmt("_k%u", configs), {configs, chunks}, [=](const Digits& g) {
        const Config& f = K[g[0]];
        Problem p = problem(w, h, D, f.c, f.s, 3);
        pattern(p, 2);
        reparam(p, f.rep);
        Real r(p);
        Constraints k(p, f.thr);
        ConstraintGraph c(&r.g, &r.l, f.thr);
        auto nodes = node_list(p);
        for (u64 m = g[1] * CHUNK; m < masks && m < (g[1] + 1) * CHUNK; ++m) one_state(p, f.thr, k, c, from_mask(p, nodes, m), probe);
    });
}
// larger shapes: all restrictions of one pixel to one of its levels (or to none)
static void perturb(i64 w, i64 h, i64 D, Config f)
{
    mc::space("perturb" + shape(w, h, D) + fmt("_t%g", f.thr), {(u64)(w * h), (u64)(D + 1)}, [=](const Digits& g) {
        Problem p = problem(w, h, D, f.c, f.s, 3);
        pattern(p, 2);
        reparam(p, f.rep);
        i64 x = g[0] % w, y = g[0] / w, keep = (i64)g[1];
        if (keep >= p.levels(x) && keep != D) return;
        Real r(p);
        Constraints k(p, f.thr);
        ConstraintGraph c(&r.g, &r.l, f.thr);
        Avail a((size_t)(w * h * D), 0);
        for (i64 v = 0; v < h; ++v) for (i64 u = 0; u < w; ++u) for (i64 d = 0; d < p.levels(u); ++d)
            a[p.ix(u, v, d)] = (u == x && v == y) ? d == keep : 1;
        one_state(p, f.thr, k, c, a, true);
    });
}

// sizes which don't fit in a byte: single steps, with as many workers as rows or just a few
static void large(std::vector<u64> shapes)
{
    mc::space("large", {shapes.size(), 3, 3}, [=](const Digits& g) {
        Problem p = big(shapes[g[0]], g[2]);
        Real r(p);
        Constraints k(p, 1);
        ConstraintGraph c(&r.g, &r.l, 1);
        Avail a = k.nodeOk;
        if (g[1]) for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) for (i64 d = 0; d < p.levels(x); ++d) a[p.ix(x, y, d)] = d == p.levels(x) - 1 || (g[1] == 2 && (x + y) % 3);
        if (g[1]) a[p.ix(p.w - 1, p.h - 1, 0)] = 0;
        one_state(p, 1, k, c, a, false);
    });
}
// two levels and any relation on each edge; any node missing
static void related(i64 w, i64 h)
{
    all_relations("related", w, h, 0x5a5a, [=](const Problem& p, const std::vector<u64>&) {
        Real r(p);
        Constraints k(p, RELATIONS_THRESHOLD);
        ConstraintGraph c(&r.g, &r.l, RELATIONS_THRESHOLD);
        for (size_t i : node_list(p))
        {
            Avail a = k.nodeOk;
            a[i] = 0;
            one_state(p, RELATIONS_THRESHOLD, k, c, a, true);
        }
    });
}
void mc::register_spaces()
{
    probes::in_place({probes::STEP, probes::ITERATION});
    related(3, 2);
    related(5, 1);
    related(2, 5);
    large({0, 1, 2, 3, 4});
    states(2, 1, 2, 6, true);
    states(3, 1, 2, 6, true);
    states(3, 1, 3, 6, true);
    states(2, 2, 2, 6, true);
    states(4, 1, 4, 4, true);
    states(2, 3, 2, 6, true);
    states(3, 2, 2, 6, true);
    states(3, 2, 3, 3, false);
    states(2, 4, 2, 3, false);
    perturb(8, 4, 4, K[1]);
    perturb(3, 7, 3, K[1]);
    perturb(12, 2, 6, K[2]);
    if (mc::thorough())
    {
        related(3, 3);
        related(4, 2);
        states(3, 2, 3, 6, true);
        states(2, 4, 2, 6, true);
        states(3, 3, 2, 6, false);
        states(4, 2, 3, 4, false);
        states(5, 1, 4, 6, true);
        states(2, 5, 2, 4, false);
        perturb(20, 5, 8, K[1]);
        perturb(4, 20, 4, K[1]);
    }
}
MC_MAIN
