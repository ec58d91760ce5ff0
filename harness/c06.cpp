// C06: choose_best_node on every set of available nodes of a pixel and every assignment of penalties from a small alphabet.
#include "glue.hpp"
#include "probes.hpp"
using namespace sp::labeling::finder;

// penalties are set through reparametrization elements of the pixel (images are equal, so penalties start at zero)
static void pixels(i64 w, i64 h, i64 D, std::vector<double> values, int others, int via)
{
    std::string name = fmt("pixels%s_v%zu_o%d_n%d_%g", shape(w, h, D).c_str(), values.size(), others, via, values[0]);
    mc::space(name, {(u64)(w * h), mc::ipow(values.size(), D)}, [=](const Digits& g) {
        i64 x = g[0] % w, y = g[0] / w, n = std::min(D, w - x);
        u64 code = g[1];
        if (code >= mc::ipow(values.size(), n)) return;
        Problem p = problem(w, h, D, 1, 1, 1);
        reparam(p, 1);
        p.rep.assign(p.rep.size(), 0.0);
        std::vector<double> pen;
        for (i64 d = 0; d < n; ++d)
        {
            double v = values[code % values.size()];
            code /= values.size();
            pen.push_back(v);
            // spread over the neighbours: the whole value on one, or halves on two
            if (via < 4) p.rep[p.ix(x, y, d) * 4 + via] = v;
            else { p.rep[p.ix(x, y, d) * 4 + 0] = v * 2; p.rep[p.ix(x, y, d) * 4 + 3] = -v; }
        }
        Real r(p);
        ConstraintGraph c(&r.g, &r.l, 1e9);
        for (u64 set = 0; set < (1ull << n); ++set)
        {
            Avail a((size_t)(w * h * D), 0);
            for (i64 v = 0; v < h; ++v) for (i64 u = 0; u < w; ++u) for (i64 d = 0; d < p.levels(u); ++d)
                a[p.ix(u, v, d)] = (u == x && v == y) ? (set >> d & 1) : others == 2 ? (u + v + d) % 2 : others;
            set_avail(c, p, a);
            mc::state();
            i64 best = -1;
            for (i64 d = 0; d < n; ++d) if ((set >> d & 1) && (best < 0 || pen[d] < pen[best])) best = d;
            Avail want = a;
            for (i64 d = 0; d < n; ++d) want[p.ix(x, y, d)] = d == best;
            ConstraintGraph* f = choose_best_node(&c, P_(x, y));
            mc::step();
            Avail b = get_avail(c, p);
            std::string ps;
            for (double v : pen) ps += fmt("%g ", v);
            auto what = [&] { return fmt("pixel %lld,%lld of %s with penalties %s, %s", x, y, shape(w, h, D).c_str(), ps.c_str(), ref::show(p, a).c_str()); };
            MC_CHECK((f != nullptr) == (best >= 0) && (f == nullptr || f == &c), "choice reports %s: %s", f ? "success" : "failure", what().c_str());
            MC_CHECK(b == want, "choice leaves %s instead of %s: %s", ref::show(p, b).c_str(), ref::show(p, want).c_str(), what().c_str());
            mc::trace();
            mc::sample([&] { return what() + " -> " + ref::show(p, b); });
        }
    });
}
// penalties by intensities
static void images(i64 w, unsigned long maxv)
{
    u64 k = maxv + 1;
    mc::space(fmt("images%lldx1_max%lu", w, maxv), {mc::ipow(k, w), k, 1ull << w}, [=](const Digits& g) {
        Problem p = problem(w, 1, w, 1, 1, maxv);
        u64 code = g[0];
        for (auto& v : p.L) { v = code % k; code /= k; }
        for (auto& v : p.R) v = g[1];
        Real r(p);
        ConstraintGraph c(&r.g, &r.l, 1e9);
        Avail a((size_t)(w * w), 0);
        for (i64 x = 0; x < w; ++x) for (i64 d = 0; d < p.levels(x); ++d) a[p.ix(x, 0, d)] = x == 0 ? (g[2] >> d & 1) : 1;
        set_avail(c, p, a);
        i64 best = -1;
        for (i64 d = 0; d < w; ++d) if (a[p.ix(0, 0, d)] && (best < 0 || p.nodePenalty(0, 0, d) < p.nodePenalty(0, 0, best))) best = d;
        for (i64 d = 0; d < w; ++d) a[p.ix(0, 0, d)] = d == best;
        mc::state();
        ConstraintGraph* f = choose_best_node(&c, P_(0, 0));
        mc::step();
        MC_CHECK((f != nullptr) == (best >= 0), "choice reports %s for %s", f ? "success" : "failure", p.show().c_str());
        MC_CHECK(get_avail(c, p) == a, "choice leaves %s instead of %s for %s", ref::show(p, get_avail(c, p)).c_str(), ref::show(p, a).c_str(), p.show().c_str());
        mc::trace();
    });
}
// a pixel in a large image, with more levels than fit in a byte: every level may be the best one, or equal to the best
static void large()
{
    static const i64 S[][3] = {{258, 2, 258}, {3, 300, 3}, {600, 1, 400}};
    mc::space("large", {3, 3, 400, 3}, [](const Digits& g) {
        i64 w = S[g[0]][0], h = S[g[0]][1], D = S[g[0]][2], x = g[1] == 2 ? w - 2 : g[1], y = g[1] ? h - 1 : 0, best = g[2];
        Problem p = problem(w, h, D, 1, 1, 9);
        if (best >= p.levels(x)) return;
        static std::string cached;
        static std::unique_ptr<Real> r;
        if (cached != shape(w, h, D)) { cached = shape(w, h, D); r.reset(); r.reset(new Real(p)); }
        auto& rep = r->g.reparametrization;
        std::fill(rep.begin(), rep.end(), 0.0);
        rep[sp::indexing::reparametrization_index_fast(&r->g, N_(x, y, best), 2)] = -4;
        if (g[3] == 1 && best + 1 < p.levels(x)) rep[sp::indexing::reparametrization_index_fast(&r->g, N_(x, y, p.levels(x) - 1), 2)] = -4;
        ConstraintGraph c(&r->g, &r->l, 1e9);
        if (g[3] == 2) { make_all_nodes_unavailable(&c); make_node_available(&c, N_(x, y, best)); make_node_available(&c, N_(x ? x - 1 : x + 1, y, 0)); }
        mc::state();
        ConstraintGraph* f = choose_best_node(&c, P_(x, y));
        mc::step();
        MC_CHECK(f == &c, "no choice for %lld,%lld of %s with %lld as the best", x, y, shape(w, h, D).c_str(), best);
        for (i64 v = 0; v < h; ++v) for (i64 u = 0; u < w; ++u) for (i64 d = 0; d < p.levels(u); ++d)
        {
            bool want = u == x && v == y ? d == best : g[3] == 2 ? v == y && u == (x ? x - 1 : x + 1) && d == 0 : true;
            MC_CHECK((bool)is_node_available(&c, N_(u, v, d)) == want, "choice for %lld,%lld of %s with %lld as the best leaves %lld,%lld:%lld %savailable", x, y, shape(w, h, D).c_str(), best, u, v, d, want ? "un" : "");
        }
        mc::trace();
    });
}
void mc::register_spaces()
{
    probes::in_place({probes::CHOOSE});
    large();
    const std::vector<double> v5 = {-2, -1, 0, 1, 2}, v3 = {-1.5, 0, 4}, big = {-1e6, -1, 1e6, 0.25}, v7 = {-3, -2, -1, 0, 1, 2, 3};
    // differences far below any absolute tolerance, and below single precision
    const double u = std::ldexp(1.0, -40);
    pixels(4, 2, 4, {0.0, u, 2 * u, -u}, 2, 4);
    pixels(4, 1, 4, {1.0, 1 + u, 1 + 2 * u, -1.0}, 1, 1);
    pixels(3, 2, 3, {std::ldexp(1.0, -500), std::ldexp(3.0, -500), -std::ldexp(1.0, -500), 0.0, 1e300}, 1, 2);
    pixels(2, 1, 2, v7, 1, 0);
    pixels(3, 2, 3, v5, 1, 4);
    pixels(3, 2, 3, v5, 0, 2);
    pixels(4, 3, 4, v5, 2, 1);
    pixels(4, 2, 4, big, 2, 3);
    pixels(5, 2, 5, v3, 2, 4);
    pixels(6, 1, 6, v3, 2, 0);
    images(4, 3);
    images(6, 1);
    images(3, 7);
    if (mc::thorough())
    {
        pixels(4, 2, 4, v7, 2, 4);
        pixels(5, 1, 5, v5, 2, 0);
        pixels(7, 1, 7, v3, 2, 4);
        pixels(5, 3, 5, v3, 1, 2);
        pixels(6, 1, 6, big, 0, 1);
        images(5, 3);
        images(8, 1);
    }
}
MC_MAIN
