// C13: the constructor's decision for all combinations of parameters, against the predicate of the property.
#include "glue.hpp"
#include <cfloat>
#include <cmath>

struct Im { UL w, h, mx; std::vector<UL> data; };
static bool valid(const Im& i)
{
    if (!i.w || !i.h || !i.mx) return false;
    for (UL v : i.data) if (v > i.mx) return false;
    return true;
}
static std::string show(const Im& i)
{
    std::string r = fmt("%lux%lu max %lu:", i.w, i.h, i.mx);
    for (UL v : i.data) r += fmt(" %lu", v);
    return r;
}
static void check(const Im& l, const Im& r, UL D, double c, double s)
{
    bool negligible = c < DBL_EPSILON && s < DBL_EPSILON;
    bool want = valid(l) && valid(r) && l.w == r.w && l.h == r.h && l.mx == r.mx && D >= 2 && D <= l.w && c >= 0 && s >= 0 && !negligible;
    auto where = [&] { return "left " + show(l) + ", right " + show(r) + fmt(", levels %lu, cleanness %.17g, smoothness %.17g", D, c, s); };
    mc::state();
    mc::step();
    mc::trace();
    try
    {
        DisparityGraph g{Image{l.w, l.h, l.mx, sp::types::ULONG_ARRAY(l.data.begin(), l.data.end())},
            Image{r.w, r.h, r.mx, sp::types::ULONG_ARRAY(r.data.begin(), r.data.end())}, D, c, s};
        MC_CHECK(want, "accepted: %s", where().c_str());
        mc::count("accepted");
        MC_CHECK(g.left.width == l.w && g.left.height == l.h && g.left.max_value == l.mx && std::vector<UL>(g.left.data.begin(), g.left.data.end()) == l.data, "left image changed: %s", where().c_str());
        MC_CHECK(g.right.width == r.w && g.right.height == r.h && g.right.max_value == r.mx && std::vector<UL>(g.right.data.begin(), g.right.data.end()) == r.data, "right image changed: %s", where().c_str());
        MC_CHECK(g.disparity_levels == D && g.cleanness == c && g.smoothness == s, "parameters changed: %s", where().c_str());
        MC_CHECK(g.reparametrization.size() == l.w * l.h * D * 4, "%zu elements of reparametrization: %s", g.reparametrization.size(), where().c_str());
        for (double v : g.reparametrization) MC_CHECK(v == 0, "reparametrization element %g: %s", v, where().c_str());
        mc::sample([&] { return "accepted " + where(); });
    }
    catch (const std::invalid_argument& e)
    {
        MC_CHECK(!want, "refused (%s): %s", e.what(), where().c_str());
        MC_CHECK(std::string(e.what()).size() > 0, "refused without a message: %s", where().c_str());
        mc::count("refused");
    }
    catch (const mc::Violation&) { throw; }
    catch (const std::exception& e) { mc::fail(std::string("unexpected kind of exception (") + e.what() + "): " + where()); }
}
static const std::vector<double> Wt = {1, 0, 0.5, -1, -0.0, DBL_EPSILON, DBL_EPSILON / 2, -DBL_EPSILON / 2, 1e-300, -1e-300, 1e300, -1e300, DBL_EPSILON * 2, 65536, INFINITY, -INFINITY, NAN};
static Im plain(UL w, UL h, UL mx) { return {w, h, mx, std::vector<UL>(w * h, 0)}; }

void mc::register_spaces()
{
    // sizes, levels and maxima of both images independently
    const u64 A = mc::thorough() ? 7 : 5;
    static const std::vector<UL> mxs = {0, 1, 2, 255, 65536, 65537, ~0ul};
    mc::space("sizes", {A, A, A, A, A + 3, 4}, [=](const Digits& g) {
        Im l = plain(g[0], g[1], 3), r = plain(g[2], g[3], 3);
        UL D = g[4] < A + 1 ? g[4] : g[4] == A + 1 ? ~0ul : 1ul << 63;
        static const double w[4][2] = {{1, 1}, {0, 1}, {1, 0}, {0, 0}};
        check(l, r, D, w[g[5]][0], w[g[5]][1]);
    });
    mc::space("maxima", {mxs.size(), mxs.size(), 4, 4}, [=](const Digits& g) {
        Im l = plain(3, 2, mxs[g[0]]), r = plain(3, 2, mxs[g[1]]);
        if (g[2]) l.data[g[2] * 2 - 1] = l.mx;
        if (g[3]) r.data[g[3] * 2 - 2] = r.mx;
        check(l, r, 2, 1, 1);
    });
    // weights
    mc::space("weights", {Wt.size(), Wt.size(), 4}, [=](const Digits& g) { check(plain(3, 2, 3), plain(3, 2, 3), g[2] + 1, Wt[g[0]], Wt[g[1]]); });
    // one (or two) intensities above the maximum, at every position of either image
    mc::space("intensities", {4, 4, 2, 17, 3, 3}, [=](const Digits& g) {
        UL w = g[0] + 1, h = g[1] + 1;
        Im im[2] = {plain(w, h, 2), plain(w, h, 2)};
        if (g[3] < w * h) im[g[2]].data[g[3]] = g[4] == 0 ? 2 : g[4] == 1 ? 3 : ~0ul;
        im[1 - g[2]].data[w * h - 1] = g[5] == 0 ? 0 : g[5] == 1 ? 2 : 3;
        check(im[0], im[1], 2, 1, 1);
    });
    // contents are kept
    mc::space("contents", {mc::ipow(3, 4), mc::ipow(3, 4)}, [=](const Digits& g) {
        Im l = plain(2, 2, 2), r = plain(2, 2, 2);
        std::vector<unsigned long> a(4), b(4);
        fill_image(a, g[0], {0, 1, 2});
        fill_image(b, g[1], {0, 1, 2});
        l.data = a; r.data = b;
        check(l, r, 2, 0.5, 0.25);
    });
    mc::space("fields", {8, 8, 8, 4}, [=](const Digits& g) {
        UL w = g[0] + 1, h = g[1] + 1;
        Im l = plain(w, h, 9), r = plain(w, h, 9);
        for (UL i = 0; i < w * h; ++i) { l.data[i] = (i * 7 + g[3]) % 10; r.data[i] = (i * 3 + 1 + g[3]) % 10; }
        check(l, r, g[2] + 1, 1 + (double)g[3], 3.5);
    });
    // combinations of defects: every subset of ten independent flaws
    mc::space("flaws", {1024}, [=](const Digits& g) {
        u64 f = g[0];
        Im l = plain(f & 1 ? 4 : 3, f & 2 ? 3 : 2, f & 4 ? 5 : 4), r = plain(3, 2, 4);
        if (f & 8) l.data[l.data.size() - 1] = 7;
        if (f & 16) r.data[0] = 5;
        UL D = f & 32 ? 1 : f & 64 ? 5 : 3;
        check(l, r, D, f & 128 ? -1 : f & 512 ? 0 : 1, f & 256 ? -2 : f & 512 ? 0 : 1);
    });
}
MC_MAIN
