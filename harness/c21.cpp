// C21: marking operations against a set of nodes.  All reachable states of small graphs (every subset) with every operation
// from each, and every operation sequence up to a depth; every node is looked up after every operation.
#include "glue.hpp"
#include "probes.hpp"

struct Model
{
    Problem p;
    Real r;
    ConstraintGraph c;
    std::vector<Node> nodes;
    explicit Model(const Problem& q) : p(q), r(p), c(&r.g, &r.l, 1)
    {
        for (i64 x = 0; x < p.w; ++x) for (i64 y = 0; y < p.h; ++y) for (i64 d = 0; d < p.levels(x); ++d) nodes.push_back(N_(x, y, d));
    }
    void apply(u64 op, std::vector<char>& m)
    {
        size_t n = nodes.size();
        if (op < n) { make_node_available(&c, nodes[op]); m[op] = 1; }
        else if (op < 2 * n) { make_node_unavailable(&c, nodes[op - n]); m[op - n] = 0; }
        else { make_all_nodes_unavailable(&c); std::fill(m.begin(), m.end(), 0); }
        mc::step();
    }
    std::string name(u64 op) const
    {
        size_t n = nodes.size();
        if (op == 2 * n) return "clear";
        const Node& v = nodes[op % n];
        return fmt("%s(%lu,%lu:%lu)", op < n ? "set" : "unset", v.pixel.x, v.pixel.y, v.disparity);
    }
    void compare(const std::vector<char>& m, const std::function<std::string()>& how)
    {
        bool some = false;
        mc::state();
        for (size_t i = 0; i < nodes.size(); ++i)
        {
            bool a = is_node_available(&c, nodes[i]);
            MC_CHECK(a == (bool)m[i], "%s: node %lu,%lu:%lu is %savailable in %lldx%lld with %lld levels", how().c_str(), nodes[i].pixel.x, nodes[i].pixel.y, nodes[i].disparity, a ? "" : "not ", p.w, p.h, p.D);
            some |= a;
        }
        MC_CHECK((bool)check_nodes_left(&c) == some, "%s: nodes left is reported as %d in %lldx%lld with %lld levels", how().c_str(), !some, p.w, p.h, p.D);
    }
};
// every subset, then every operation from it
static void states(i64 w, i64 h, i64 D)
{
    const u64 CHUNK = 64;
    u64 n = node_count(w, h, D), masks = 1ull << n;
    mc::space("states" + shape(w, h, D), {(masks + CHUNK - 1) / CHUNK}, [=](const Digits& g) {
        Problem p = problem(w, h, D, 1, 1, 1);
        Model m(p);
        for (u64 mask = g[0] * CHUNK; mask < masks && mask < (g[0] + 1) * CHUNK; ++mask)
            for (u64 op = 0; op <= 2 * n; ++op)
            {
                std::vector<char> s(n, 0);
                for (u64 i = 0; i < n; ++i) m.apply(mask >> i & 1 ? i : n + i, s);
                m.compare(s, [&] { return fmt("after setting the subset %#llx", mask); });
                m.apply(op, s);
                m.compare(s, [&] { return fmt("after subset %#llx and ", mask) + m.name(op); });
                mc::trace();
                mc::sample([&] { return shape(w, h, D) + fmt(" subset %#llx, then ", mask) + m.name(op); });
            }
    });
}
// every sequence of `depth` operations on a newly built graph (everything available: threshold is large) and on an empty one
static void sequences(i64 w, i64 h, i64 D, int depth)
{
    u64 n = node_count(w, h, D);
    mc::space("sequences" + shape(w, h, D) + fmt("_%d", depth), {2, mc::ipow(2 * n + 1, depth)}, [=](const Digits& g) {
        Problem p = problem(w, h, D, 1, 1, 1);
        Model m(p);
        std::vector<char> s(n, 1);
        if (g[0]) m.apply(2 * n, s);
        u64 v = g[1];
        std::string how = g[0] ? "clear" : "new";
        for (int k = 0; k < depth; ++k)
        {
            u64 op = v % (2 * n + 1);
            v /= 2 * n + 1;
            m.apply(op, s);
            how += " " + m.name(op);
            m.compare(s, [&] { return how; });
        }
        mc::trace();
        mc::sample([&] { return how; });
    });
}
// larger graphs: every pair of (first operation, second operation) from the full and the empty graph, all nodes compared
static void pairs(i64 W, i64 H)
{
    mc::space(fmt("pairs%lldx%lld", W, H), {(u64)(W - 1), (u64)H, (u64)(W - 1), 2}, [=](const Digits& g) {
        i64 w = 2 + g[0], h = 1 + g[1], D = 2 + g[2];
        if (D > w) return;
        Problem p = problem(w, h, D, 1, 1, 1);
        Model m(p);
        u64 n = m.nodes.size();
        std::vector<char> base(n, 1);
        m.compare(base, [&] { return "new"; });
        for (u64 a = 0; a < n; ++a) for (u64 b = 0; b < n; ++b)
        {
            std::vector<char> s(n, 0);
            m.apply(2 * n, s);
            if (g[3]) for (u64 i = 0; i < n; ++i) m.apply(i, s);
            u64 o1 = g[3] ? n + a : a, o2 = (a + b) % 3 == 0 ? n + b : b;
            m.apply(o1, s);
            m.compare(s, [&] { return m.name(o1) + (g[3] ? " on a full graph" : " on an empty graph"); });
            m.apply(o2, s);
            m.compare(s, [&] { return m.name(o1) + " " + m.name(o2) + (g[3] ? " on a full graph" : " on an empty graph"); });
            mc::trace();
        }
    });
}
// graphs with many nodes (several machine words, and more than 2^16 bits): one node at a time
static void many(u64 list, i64 w, i64 h, i64 D)
{
    mc::space("many" + shape(w, h, D), {list, 2}, [=](const Digits& g) {
        Problem p = problem(w, h, D, 1, 1, 1);
        static std::map<std::string, std::unique_ptr<Model>> cache;
        auto& m = cache[shape(w, h, D)];
        if (!m) m.reset(new Model(p));
        u64 n = m->nodes.size();
        u64 i = g[0] * n / list;
        std::vector<char> s(n, 0);
        m->apply(2 * n, s);
        m->compare(s, [&] { return "clear"; });
        if (g[1]) for (u64 k = 0; k < n; ++k) m->apply(k, s);
        m->apply(g[1] ? n + i : i, s);
        m->compare(s, [&] { return m->name(g[1] ? n + i : i) + (g[1] ? " on a full graph" : " on an empty graph"); });
        mc::trace();
    });
}
void mc::register_spaces()
{
    probes::in_place({probes::AVAILABLE, probes::LEFT});
    states(2, 1, 2); states(2, 2, 2); states(3, 1, 3); states(2, 3, 2); states(3, 2, 3); states(4, 1, 4); states(3, 2, 2);
    sequences(2, 1, 2, 6);
    sequences(3, 1, 3, 4);
    sequences(2, 2, 2, 4);
    sequences(4, 1, 2, 3);
    sequences(2, 3, 2, 3);
    pairs(6, 4);
    many(200, 12, 9, 12);
    many(40, 70, 40, 24);
    if (mc::thorough())
    {
        states(5, 1, 5); states(4, 2, 3); states(3, 3, 2); states(2, 5, 2);
        sequences(2, 1, 2, 8);
        sequences(3, 1, 3, 5);
        sequences(2, 2, 2, 5);
        sequences(3, 2, 3, 3);
        pairs(8, 6);
        many(2000, 12, 9, 12);
    }
}
MC_MAIN
