// C17: build_disparity_map on all availability subsets.
#include "glue.hpp"
#include "probes.hpp"
using namespace sp::labeling::finder;

static void check(const Problem& p, ConstraintGraph& c, const Avail& a)
{
    set_avail(c, p, a);
    mc::state();
    mc::step();
    mc::trace();
    auto where = [&] { return ref::show(p, a) + " of " + p.show(); };
    bool ok = true;
    std::vector<UL> want;
    for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x)
    {
        int n = 0; UL v = 0;
        for (i64 d = 0; d < p.levels(x); ++d) if (a[p.ix(x, y, d)]) { n++; v = (UL)d; }
        if (n != 1) ok = false;
        want.push_back(v);
    }
    try
    {
        Image m = build_disparity_map(&c);
        MC_CHECK(ok, "a map is built from %s", where().c_str());
        MC_CHECK(m.width == (UL)p.w && m.height == (UL)p.h, "map of size %lux%lu from %s", m.width, m.height, where().c_str());
        MC_CHECK(std::vector<UL>(m.data.begin(), m.data.end()) == want, "wrong map from %s", where().c_str());
        MC_CHECK(sp::image::image_valid(&m), "invalid map (max %lu) from %s", m.max_value, where().c_str());
        mc::count("maps");
    }
    catch (const mc::Violation&) { throw; }
    catch (const std::exception& e)
    {
        MC_CHECK(!ok, "building fails (%s) for %s", e.what(), where().c_str());
        mc::count("errors");
    }
    MC_CHECK(get_avail(c, p) == a, "building changed the graph %s", where().c_str());
    mc::sample([&] { return where() + (ok ? " -> map" : " -> error"); });
}
static void subsets(i64 w, i64 h, i64 D)
{
    const u64 CHUNK = 256;
    u64 n = node_count(w, h, D), masks = 1ull << n;
    mc::space("subsets" + shape(w, h, D), {(masks + CHUNK - 1) / CHUNK}, [=](const Digits& g) {
        Problem p = problem(w, h, D, 1, 1, 1);
        pattern(p, 1);
        Real r(p);
        ConstraintGraph c(&r.g, &r.l, 1);
        auto nodes = node_list(p);
        for (u64 m = g[0] * CHUNK; m < masks && m < (g[0] + 1) * CHUNK; ++m) check(p, c, from_mask(p, nodes, m));
    });
}
// larger shapes: a map, with all labels of one pixel replaced by every subset
static void spoiled(i64 W, i64 H)
{
    mc::space(fmt("spoiled%lldx%lld", W, H), {(u64)(W - 1), (u64)H, (u64)(W - 1), 3}, [=](const Digits& g) {
        i64 w = 2 + g[0], h = 1 + g[1], D = 2 + g[2];
        if (D > w) return;
        Problem p = problem(w, h, D, 1, 1, 1);
        Real r(p);
        ConstraintGraph c(&r.g, &r.l, 1);
        Avail a((size_t)(w * h * D), 0);
        for (i64 y = 0; y < h; ++y) for (i64 x = 0; x < w; ++x)
            a[p.ix(x, y, g[3] == 0 ? 0 : g[3] == 1 ? p.levels(x) - 1 : (x * 3 + y * 5) % p.levels(x))] = 1;
        check(p, c, a);
        for (i64 y = 0; y < h; ++y) for (i64 x = 0; x < w; ++x)
            for (u64 m = 0; m < 1ull << p.levels(x); ++m)
            {
                Avail b = a;
                for (i64 d = 0; d < p.levels(x); ++d) b[p.ix(x, y, d)] = m >> d & 1;
                check(p, c, b);
            }
    });
}
// the largest disparity an intensity can have to hold
static void wide()
{
    mc::space("wide", {4, 3}, [](const Digits& g) {
        static const i64 w[4] = {255, 256, 257, 300};
        Problem p = problem(w[g[0]], 1, w[g[0]], 1, 1, 1);
        Real r(p);
        ConstraintGraph c(&r.g, &r.l, 1);
        Avail a((size_t)(p.w * p.h * p.D), 0);
        for (i64 y = 0; y < p.h; ++y) for (i64 x = 0; x < p.w; ++x) a[p.ix(x, y, g[1] == 0 ? p.levels(x) - 1 : g[1] == 1 ? 0 : x % p.levels(x))] = 1;
        check(p, c, a);
    });
}
void mc::register_spaces()
{
    probes::in_place({probes::MAP});
    subsets(2, 1, 2); subsets(2, 2, 2); subsets(2, 4, 2); subsets(3, 1, 3); subsets(3, 2, 2); subsets(3, 2, 3); subsets(4, 1, 4); subsets(5, 1, 3);
    subsets(4, 2, 2); subsets(3, 3, 2); subsets(5, 1, 5); subsets(2, 5, 2);
    spoiled(6, 4);
    wide();
    if (mc::thorough()) { subsets(4, 2, 3); subsets(3, 3, 3); subsets(6, 1, 6); subsets(5, 2, 2); subsets(6, 1, 4); subsets(4, 3, 2); spoiled(9, 6); }
}
MC_MAIN
