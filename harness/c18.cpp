// C18: command lines and file states, executed with the real program, against a model of the command line.
#include "prog.hpp"
#include <algorithm>
#include <cmath>
#include <memory>
using namespace mc;
using prog::Args;
using ref::Problem;

// ------------------------------------------------------------------------------------------------ input images
struct Pic { long w, h; unsigned long mx; std::vector<unsigned long> d; };
static const std::vector<Pic> PICS = {
    {4, 2, 9, {0, 3, 5, 9, 1, 1, 8, 2}}, {4, 2, 9, {3, 5, 9, 0, 1, 8, 2, 2}}, {4, 2, 9, {7, 7, 1, 0, 4, 0, 9, 6}},
    {4, 1, 9, {0, 3, 5, 9}}, {3, 2, 9, {0, 3, 5, 1, 1, 8}}, {4, 2, 10, {0, 3, 5, 9, 1, 1, 8, 2}},
    {1, 2, 9, {4, 5}},
};
static bool valid(const Pic& p) { for (auto v : p.d) if (v > p.mx) return false; return p.mx > 0; }
// names of files to use as inputs; -1: not an image
struct Input { const char* name; int pic; };
static const std::vector<Input> IN = {
    {"a.pgm", 0}, {"b.pgm", 1}, {"c.pgm", 2}, {"low.pgm", 3}, {"narrow.pgm", 4}, {"max.pgm", 5}, {"column.pgm", 6},
    {"missing.pgm", -1}, {"empty.pgm", -1}, {"folder", -1}, {"magic.pgm", -1}, {"short.pgm", -1}, {"long.pgm", -1}, {"above.pgm", -1}, {"no/such/file.pgm", -1}, {"link.pgm", 0}, {"dangling.pgm", -1}, {"", -1},
    {"comment.pgm", 0}, {"zero.pgm", -1}, {"big.pgm", -1}, {"minus.pgm", -1},
};
static void prepare()
{
    static bool done = false;
    if (done) return;
    done = true;
    for (auto& i : IN) if (i.pic >= 0 && std::string(i.name) != "link.pgm" && std::string(i.name) != "comment.pgm") { auto& p = PICS[i.pic]; prog::put(i.name, prog::pgm_text(p.w, p.h, p.mx, p.d)); }
    prog::put("empty.pgm", "");
    prog::put("magic.pgm", "P5\n4 2\n9\n0 3 5 9 1 1 8 2\n");
    prog::put("short.pgm", "P2\n4 2\n9\n0 3 5 9 1 1 8\n");
    prog::put("long.pgm", "P2\n4 2\n9\n0 3 5 9 1 1 8 2 1\n");
    prog::put("above.pgm", "P2\n4 2\n9\n0 3 5 9 1 1 8 10\n");
    prog::put("zero.pgm", "P2\n4 2\n0\n0 0 0 0 0 0 0 0\n");
    prog::put("big.pgm", "P2\n4 2\n65537\n0 0 0 0 0 0 0 0\n");
    prog::put("minus.pgm", "P2\n4 2\n9\n0 3 -5 9 1 1 8 2\n");
    prog::put("comment.pgm", "P2 #x\n#4 1\n4 2\n9#\n0 3 5 9 1 1 8 2\n#end");
    mkdir((prog::dir() + "/folder").c_str(), 0755);
    if (symlink("a.pgm", (prog::dir() + "/link.pgm").c_str()) || symlink("nowhere", (prog::dir() + "/dangling.pgm").c_str())) {}
}
static Pic EXTRA[2];                      // written by the cases which use them
static const Pic* pic(const std::string& name)
{
    if (name == "first.pgm") return &EXTRA[0];
    if (name == "second.pgm") return &EXTRA[1];
    for (auto& i : IN) if (name == i.name) return i.pic >= 0 ? &PICS[i.pic] : nullptr;
    return nullptr;
}

// --------------------------------------------------------------------------------------------------- the model
enum Fate { MAP, HELP, FAIL, EITHER };    // EITHER: not specified, but status, output and messages must agree
struct Value { bool given = false; std::string text; };
struct Line { bool help = false; Value p, l, r, o, d, s, c; bool malformed = false, vague = false; };

// a weight: plain decimal notation is understood, what isn't a finite number is refused, the rest (hexadecimal, signs,
// spaces) is left open
static int weight(const std::string& t, double& v)
{
    char* end;
    v = strtod(t.c_str(), &end);
    if (t.empty() || *end || end == t.c_str() || !std::isfinite(v)) return FAIL;
    size_t i = 0, digits = 0;
    bool minus = t[0] == '-';
    if (minus) i++;
    for (; i < t.size() && isdigit((unsigned char)t[i]); ++i) digits++;
    if (i < t.size() && t[i] == '.') for (++i; i < t.size() && isdigit((unsigned char)t[i]); ++i) digits++;
    if (!digits) return EITHER;
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E'))
    {
        ++i;
        if (i < t.size() && (t[i] == '-' || t[i] == '+')) ++i;
        for (; i < t.size() && isdigit((unsigned char)t[i]); ++i) {}
    }
    return i == t.size() ? MAP : EITHER;
}
static int levels(const std::string& t, u64& v) { return pgm::number(t, v) ? MAP : FAIL; }

struct Expect { Fate fate = FAIL; std::shared_ptr<Problem> p; bool exact = true; };
static Expect model(const Line& n)
{
    Expect e;
    if (n.malformed) return e;
    if (n.help) { e.fate = HELP; return e; }
    if (!n.l.given || !n.r.given || !n.o.given) return e;
    bool open = false;
    if (n.p.given)
    {
        std::string q = n.p.text;
        for (auto& ch : q) ch = (char)tolower((unsigned char)ch);
        if (q != "cpu" && q != "omp" && q != "openmp") return e;
    }
    const Pic *L = pic(n.l.text), *R = pic(n.r.text);
    if (!L || !R || !valid(*L) || !valid(*R) || L->w != R->w || L->h != R->h || L->mx != R->mx) return e;
    auto p = std::make_shared<Problem>();
    u64 D = (u64)L->w;
    if (n.d.given && levels(n.d.text, D) == FAIL) return e;
    if (D < 2 || D > (u64)L->w) return e;
    p->w = L->w; p->h = L->h; p->maxv = L->mx; p->L = L->d; p->R = R->d; p->D = (ref::i64)D;
    for (auto q : {std::make_pair(&n.c, &p->c), std::make_pair(&n.s, &p->s)})
    {
        *q.second = 1;
        if (!q.first->given) continue;
        int f = weight(q.first->text, *q.second);
        if (f == FAIL) return e;
        if (f == EITHER) open = true;
        if (*q.second < 0) return e;
        // are all penalties exact in double precision?
        bool coarse = *q.second * 1024 == std::floor(*q.second * 1024) && *q.second <= 1e6;
        bool fine = std::ldexp(*q.second, 26) == std::floor(std::ldexp(*q.second, 26)) && *q.second <= 64 && p->maxv <= 100;
        if (!coarse && !fine) e.exact = false;
    }
    if (p->c < 2.3e-16 && p->s < 2.3e-16) return e;
    e.p = p;
    e.fate = open ? EITHER : MAP;
    return e;
}
static const std::vector<int>& expected_map(const Problem& p)
{
    static std::map<std::string, std::vector<int>> cache;
    auto& m = cache[p.show()];
    if (m.empty()) m = prog::map_of(p);
    return m;
}

enum OutState { ABSENT, OLD, LONGER, DIRECTORY, NO_PARENT, FULL, EMPTY_NAME, SAME_AS_LEFT, OUT_STATES };
static std::string out_name(int st)
{
    return st == NO_PARENT ? "no/such/out.pgm" : st == FULL ? "/dev/full" : st == EMPTY_NAME ? "" : st == DIRECTORY ? "outdir" : st == SAME_AS_LEFT ? "inout.pgm" : "out.pgm";
}
static std::string old_text(int st)
{
    std::string s = "previous contents\n";
    if (st == LONGER) for (int i = 0; i < 200; ++i) s += "7 7 7 7 7 7 7 7 7\n";
    return s;
}
// executes and judges one command line; `n` is what it means
static void check(const Args& a, const Line& n, int st = ABSENT)
{
    prepare();
    prog::drop("out.pgm");
    if (st == OLD || st == LONGER) prog::put("out.pgm", old_text(st));
    if (st == DIRECTORY) mkdir((prog::dir() + "/outdir").c_str(), 0755);
    if (st == SAME_AS_LEFT) { auto& p = PICS[0]; prog::put("inout.pgm", prog::pgm_text(p.w, p.h, p.mx, p.d)); }
    std::string before;
    if (st == SAME_AS_LEFT) prog::get("inout.pgm", before);
    Expect e = model(n);
    bool writable = st != DIRECTORY && st != NO_PARENT && st != FULL && st != EMPTY_NAME;
    Fate fate = e.fate;
    if (fate == MAP && !writable) fate = FAIL;
    mc::state(2);
    mc::step();
    mc::trace();
    prog::Result r = prog::run(a);
    std::string cmd = prog::show(a) + fmt(" (output %s)", st == ABSENT ? "absent" : st == OLD || st == LONGER ? "exists" : st == SAME_AS_LEFT ? "is the left image" : "cannot be written");
    MC_CHECK(!r.signaled, "killed by signal %d: %s", r.status - 128, cmd.c_str());
    bool help = r.out.find("--left-image") != std::string::npos && r.out.find("--right-image") != std::string::npos && r.out.find("--output-image") != std::string::npos
        && r.out.find("--disparity-levels") != std::string::npos && r.out.find("--help") != std::string::npos;
    if (fate == EITHER || n.vague)
    {
        // whatever it decides, it has to be consistent
        fate = r.status == 0 ? (n.help ? HELP : MAP) : FAIL;
        if (fate == MAP && n.vague && !e.p) mc::fail("succeeded: " + cmd);
    }
    std::string now;
    if (fate == FAIL || fate == HELP)
    {
        if (st == ABSENT) MC_CHECK(!prog::exists("out.pgm"), "output created: %s", cmd.c_str());
        if (st == OLD || st == LONGER) { prog::get("out.pgm", now); MC_CHECK(now == old_text(st), "existing output changed: %s", cmd.c_str()); }
        if (st == SAME_AS_LEFT) { prog::get("inout.pgm", now); MC_CHECK(now == before, "input changed: %s", cmd.c_str()); }
        if (st == DIRECTORY) MC_CHECK(prog::exists("outdir"), "folder at the output path removed: %s", cmd.c_str());
    }
    if (fate == HELP)
    {
        MC_CHECK(r.status == 0 && help, "help wasn't printed (status %d): %s", r.status, cmd.c_str());
        mc::count("help");
    }
    else if (fate == FAIL)
    {
        MC_CHECK(r.status != 0, "exit status is zero: %s", cmd.c_str());
        MC_CHECK(!r.err.empty(), "no message on the error output, status %d: %s", r.status, cmd.c_str());
        mc::count("failures");
    }
    else
    {
        MC_CHECK(r.status == 0, "status %d (%s): %s", r.status, r.err.c_str(), cmd.c_str());
        std::string t;
        MC_CHECK(prog::get(out_name(st), t), "no output file: %s", cmd.c_str());
        pgm::Parsed m = pgm::parse(t);
        MC_CHECK(m.ok && m.w == (u64)e.p->w && m.h == (u64)e.p->h, "output %s isn't an image of the right size: %s", json_str(t).c_str(), cmd.c_str());
        if (e.exact)
        {
            auto& want = expected_map(*e.p);
            MC_CHECK(std::equal(want.begin(), want.end(), m.data.begin(), [](int x, u64 y) { return (u64)x == y; }), "other map than defined: %s -> %s", cmd.c_str(), json_str(t).c_str());
        }
        else
            for (ref::i64 y = 0; y < e.p->h; ++y) for (ref::i64 x = 0; x < e.p->w; ++x)
            {
                auto v = [&](ref::i64 q) { return (ref::i64)m.data[y * e.p->w + q]; };
                MC_CHECK(e.p->node(x, y, v(x)) && (x + 1 == e.p->w || v(x) <= v(x + 1) + 1), "inconsistent map: %s -> %s", cmd.c_str(), json_str(t).c_str());
            }
        mc::count("maps");
        mc::sample([&] { return cmd + " -> " + json_str(t); });
    }
    if (st == SAME_AS_LEFT) prog::drop("inout.pgm");
}
static Value val(const std::string& s) { Value v; v.given = true; v.text = s; return v; }

void mc::register_spaces()
{
    const bool T = mc::thorough();
    // every combination of present, absent and wrong options
    static const std::vector<std::vector<const char*>> V = {
        {nullptr, ""}, {nullptr, "cpu", "OMP", "gpu"}, {nullptr, "a.pgm", "missing.pgm"}, {nullptr, "b.pgm", "low.pgm"}, {nullptr, "out.pgm"},
        {nullptr, "2", "1", "x"}, {nullptr, "0.5", "-1"}, {nullptr, "2.5", "0", "y"}};
    std::vector<u64> dims;
    for (auto& v : V) dims.push_back(v.size());
    mc::space("subsets", dims, [](const Digits& g) {
        static const char* flag[8] = {"-h", "-p", "-l", "-r", "-o", "-d", "-s", "-c"};
        Args a;
        Line n;
        Value* to[8] = {nullptr, &n.p, &n.l, &n.r, &n.o, &n.d, &n.s, &n.c};
        for (int i = 0; i < 8; ++i)
        {
            const char* v = V[i][g[i]];
            if (!v) continue;
            a.push_back(flag[i]);
            if (i == 0) n.help = true;
            else { a.push_back(v); *to[i] = val(v); }
        }
        if (a.empty()) n.help = true;
        check(a, n);
    });
    // all orders of options, in all notations
    static const char* longs[7] = {"--parallel", "--left-image", "--right-image", "--output-image", "--disparity-levels", "--smoothness", "--cleanness"};
    static const char* shorts[7] = {"-p", "-l", "-r", "-o", "-d", "-s", "-c"};
    static const char* vals[7] = {"OpenMP", "a.pgm", "b.pgm", "out.pgm", "3", "0.25", "4"};
    auto write = [](Args& a, int i, int form, const std::string& v) {
        switch (form)
        {
            case 0: a.push_back(shorts[i]); a.push_back(v); break;
            case 1: a.push_back(longs[i]); a.push_back(v); break;
            case 2: a.push_back(std::string(longs[i]) + "=" + v); break;
            default: a.push_back(shorts[i] + v);
        }
    };
    mc::space("orders", {5040, T ? 4u : 1u}, [=](const Digits& g) {
        if (!mc::thorough() && g[0] % 7) return;
        std::vector<int> o = {0, 1, 2, 3, 4, 5, 6}, perm;
        u64 k = g[0];
        for (int i = 7; i >= 1; --i) { perm.push_back(o[k % i]); o.erase(o.begin() + k % i); k /= i; }
        Args a;
        Line n;
        Value* to[7] = {&n.p, &n.l, &n.r, &n.o, &n.d, &n.s, &n.c};
        for (int i : perm) { write(a, i, (int)(g[1] + g[0] / 7 + i) % 4, vals[i]); *to[i] = val(vals[i]); }
        check(a, n);
    });
    mc::space("notations", {4, 4, 4, 4, T ? 4u : 1u}, [=](const Digits& g) {
        Args a;
        Line n;
        Value* to[7] = {&n.p, &n.l, &n.r, &n.o, &n.d, &n.s, &n.c};
        static const int which[5] = {1, 2, 3, 4, 5};
        for (int i = 0; i < 5; ++i) { write(a, which[i], (int)g[i], vals[which[i]]); *to[which[i]] = val(vals[which[i]]); }
        check(a, n);
    });
    // every pair of input files
    mc::space("inputs", {IN.size(), IN.size(), 2}, [](const Digits& g) {
        Line n;
        n.l = val(IN[g[0]].name); n.r = val(IN[g[1]].name); n.o = val("out.pgm");
        if (g[2]) n.d = val("2");
        Args a = {"--left-image", n.l.text, "--right-image", n.r.text, "-o", "out.pgm"};
        if (n.l.text.empty() || n.r.text.empty()) n.vague = true;
        if (g[2]) { a.push_back("-d"); a.push_back("2"); }
        check(a, n, g[2] ? ABSENT : OLD);
    });
    // every state of the output path, with well and ill formed requests
    mc::space("outputs", {OUT_STATES, 6}, [](const Digits& g) {
        Line n;
        int st = (int)g[0];
        n.l = val("a.pgm"); n.r = val("c.pgm"); n.o = val(out_name(st));
        Args a;
        switch (g[1])
        {
            case 0: break;
            case 1: n.d = val("5"); a = {"-d", "5"}; break;
            case 2: n.c = val("nan"); a = {"-c", "nan"}; break;
            case 3: n.r = val("short.pgm"); break;
            case 4: n.p = val("none"); a = {"-p", "none"}; break;
            case 5: n.help = true; a = {"--help"}; break;
        }
        std::string left = st == SAME_AS_LEFT ? "inout.pgm" : "a.pgm";
        for (auto& s : Args{"-l", left, "-r", n.r.text, "-o", n.o.text}) a.push_back(s);
        check(a, n, st);
    });
    // levels: all strings over an alphabet, and boundaries; weights likewise
    const std::string DA = "0123459+-. x";
    for (int len = 1; len <= (T ? 3 : 2); ++len)
        mc::space(fmt("levels%d", len), {ipow(DA.size(), len)}, [=](const Digits& g) {
            std::string t;
            u64 v = g[0];
            for (int i = 0; i < len; ++i) { t += DA[v % DA.size()]; v /= DA.size(); }
            Line n;
            n.l = val("b.pgm"); n.r = val("a.pgm"); n.o = val("out.pgm"); n.d = val(t);
            check({"--disparity-levels=" + t, "-lb.pgm", "-ra.pgm", "-oout.pgm"}, n);
        });
    static const std::vector<std::string> DV = {"", "2", "4", "002", "5", "00000000000000000000000000003", "4294967298", "4294967299", "18446744073709551615", "18446744073709551616", "18446744073709551618", "18446744073709551619",
        "340282366920938463463374607431768211458", "2.0", "2e0", "0x2", "0b10", "2,", "two", "-2", "+2", " 2", "2 ", "\t3", "3\n", "II", "-18446744073709551614", "-18446744073709551613"};
    mc::space("level_values", {DV.size(), 2}, [](const Digits& g) {
        Line n;
        n.l = val("b.pgm"); n.r = val("a.pgm"); n.o = val("out.pgm"); n.d = val(DV[g[0]]);
        Args a = {"-l", "b.pgm", "-r", "a.pgm", "-o", "out.pgm"};
        if (g[1]) { a.push_back("-d"); a.push_back(DV[g[0]]); }
        else a.push_back("--disparity-levels=" + DV[g[0]]);
        // a separate word starting with a dash may be taken for an option; either way it has to fail
        check(a, n, OLD);
    });
    const std::string WA = "0125.-+ex ";
    for (int len = 1; len <= (T ? 4 : 2); ++len)
        mc::space(fmt("weights%d", len), {ipow(WA.size(), len), 2}, [=](const Digits& g) {
            std::string t;
            u64 v = g[0];
            for (int i = 0; i < len; ++i) { t += WA[v % WA.size()]; v /= WA.size(); }
            Line n;
            n.l = val("c.pgm"); n.r = val("a.pgm"); n.o = val("out.pgm");
            (g[1] ? n.s : n.c) = val(t);
            check({std::string(g[1] ? "--smoothness=" : "--cleanness=") + t, "-lc.pgm", "-ra.pgm", "-oout.pgm"}, n);
        });
    static const std::vector<std::string> WV = {"", "0", "0.0", "1", "0.5", ".5", "5.", "1.25", "2", "8", "64", "0.125", "1e1", "25e-2", "1E2", "1e-20", "1e400", "-1", "-0.5", "-0", "-1e-300", "nan", "inf", "-inf", "NAN", "infinity", "1,5", "1.5x", "0,5", "1.5.5", "1e", "--1", "abc", "0x10", "1 2", "1;", "1/2", "1000", "16384",
        "1e39", "1e-40", "1e100", "0.1", "1e-300", "1.00000001490116119384765625"};
    mc::space("weight_values", {WV.size(), WV.size(), 2}, [](const Digits& g) {
        if (!mc::thorough() && g[0] > 10 && g[1] > 10) return;
        Line n;
        n.l = val("a.pgm"); n.r = val("c.pgm"); n.o = val("out.pgm"); n.c = val(WV[g[0]]); n.s = val(WV[g[1]]);
        if (g[2]) n.d = val("3");
        Args a = {"--cleanness=" + WV[g[0]], "--smoothness=" + WV[g[1]], "-l", "a.pgm", "-r", "c.pgm", "-o", "out.pgm"};
        if (g[2]) { a.push_back("-d"); a.push_back("3"); }
        check(a, n);
    });
    // weights which single precision cannot hold: tiny differences decide between nodes and edges which are as good otherwise
    mc::space("precise_weights", {60, 2, 5}, [](const Digits& g) {
        static const char* W[3] = {"1", "1.00000001490116119384765625", "0.99999998509883880615234375"};
        static const int both[5][2] = {{0, 1}, {0, 2}, {1, 0}, {2, 0}, {1, 2}};
        prepare();
        const int w = 3 + (int)g[0] % 4, h = 1 + (int)g[0] / 4 % 3, mx = 2 + (int)g[0] % 3;
        for (int i = 0; i < 2; ++i)
        {
            Pic& q = EXTRA[i];
            q.w = w; q.h = h; q.mx = mx; q.d.clear();
            for (int k = 0; k < w * h; ++k) q.d.push_back(mc::mix(g[0] * 1000 + i * 500 + k) % (mx + 1));
            prog::put(i ? "second.pgm" : "first.pgm", prog::pgm_text(q.w, q.h, q.mx, q.d));
        }
        Line n;
        n.l = val("first.pgm"); n.r = val("second.pgm"); n.o = val("out.pgm"); n.c = val(W[both[g[2]][0]]); n.s = val(W[both[g[2]][1]]);
        Args a = {"-l", "first.pgm", "-r", "second.pgm", "-o", "out.pgm", "-c", n.c.text, "-s", n.s.text};
        if (g[1]) { n.d = val("3"); a.push_back("-d"); a.push_back("3"); }
        check(a, n);
    });
    // repeated options (same or other value), unknown ones, words without an option, missing values
    mc::space("repeated", {7, 2, 2, 3}, [=](const Digits& g) {
        Line n;
        n.malformed = true;
        Args a;
        int i = (int)g[0];
        static const char* other[7] = {"cpu", "c.pgm", "c.pgm", "other.pgm", "2", "1", "1"};
        if (g[3] == 0) write(a, i, 0, g[1] ? other[i] : vals[i]);
        for (int k = 1; k < 4; ++k) write(a, k, 0, vals[k]);
        if (g[3] == 1) write(a, i, 1, g[1] ? other[i] : vals[i]);
        if (i == 0 || i > 3 || g[3] == 2) write(a, i, g[2] ? 2 : 0, vals[i]);
        if (g[3] == 2) write(a, i, g[2] ? 0 : 1, g[1] ? other[i] : vals[i]);
        check(a, n);
        MC_CHECK(!prog::exists("other.pgm"), "another file was created: %s", prog::show(a).c_str());
    });
    static const std::vector<Args> BAD = {{"--foo"}, {"-x"}, {"--foo=1"}, {"foo"}, {""}, {"-"}, {"-d"}, {"--cleanness"}, {"-p"}, {"--disparity=x"}, {"--help=1"}, {"foo", "bar"}, {"---help"}, {"-z", "1"}, {"--left-images", "a.pgm"}};
    mc::space("unknown", {BAD.size(), 4, 2}, [=](const Digits& g) {
        // in front of, amidst and after a complete request; or alone
        Args a, rest = {"-l", "a.pgm", "-r", "b.pgm", "-o", "out.pgm"};
        if (g[1] == 3) a = BAD[g[0]];
        else for (u64 i = 0; i <= 3; ++i)
        {
            if (i == g[1] || (g[1] == 2 && i == 3)) { if (g[1] != 2 || i == 3) for (auto& s : BAD[g[0]]) a.push_back(s); }
            if (i < 3) { a.push_back(rest[2 * i]); a.push_back(rest[2 * i + 1]); }
        }
        Line n;
        // words which aren't options may be ignored or refused
        n.vague = std::all_of(BAD[g[0]].begin(), BAD[g[0]].end(), [](const std::string& s) { return s.size() < 2 || s[0] != '-'; });
        n.malformed = !n.vague;
        if (n.vague && g[1] != 3) { n.l = val("a.pgm"); n.r = val("b.pgm"); n.o = val("out.pgm"); }
        check(a, n, g[2] ? OLD : ABSENT);
    });
    static const std::vector<Args> HELPS = {{}, {"-h"}, {"--help"}, {"-h", "-d", "2"}, {"-l", "a.pgm", "--help"}, {"--help", "-l", "missing.pgm", "-r", "b.pgm", "-o", "out.pgm"}, {"-l", "a.pgm", "-r", "b.pgm", "-o", "out.pgm", "-h"}, {"-c", "1", "-h"}};
    mc::space("help", {HELPS.size(), 2}, [](const Digits& g) {
        Line n;
        n.help = true;
        check(HELPS[g[0]], n, g[1] ? OLD : ABSENT);
    });
    // the standard output takes nothing: the help is not printed, maps are written all the same
    mc::space("no_output", {2, HELPS.size() + 4}, [](const Digits& g) {
        static const Args more[4] = {{"-l", "a.pgm", "-r", "b.pgm", "-o", "out.pgm"}, {"-l", "a.pgm", "-r", "b.pgm", "-o", "out.pgm", "-p", "omp"},
            {"-l", "a.pgm", "-r", "low.pgm", "-o", "out.pgm", "-p", "omp"}, {"-l", "a.pgm", "-r", "b.pgm", "-p", "cpu"}};
        prepare();
        prog::drop("out.pgm");
        const bool help = g[1] < HELPS.size();
        const u64 k = g[1] - HELPS.size();
        const Args& a = help ? HELPS[g[1]] : more[k];
        std::string cmd = prog::show(a) + (g[0] ? " >&-" : " > /dev/full"), t;
        mc::state(2); mc::step(); mc::trace();
        prog::Result r = prog::run(a, {}, -1, g[0] ? "" : "/dev/full");
        MC_CHECK(!r.signaled, "killed by signal %d: %s", r.status - 128, cmd.c_str());
        if (help || k >= 2)
        {
            MC_CHECK(r.status != 0, "exit status is zero%s: %s", help ? " although the help was not printed" : "", cmd.c_str());
            MC_CHECK(!r.err.empty(), "no message on the error output: %s", cmd.c_str());
            MC_CHECK(!prog::exists("out.pgm"), "output created: %s", cmd.c_str());
            mc::count("failures");
            return;
        }
        MC_CHECK(r.status == 0 && prog::get("out.pgm", t), "status %d (%s): %s", r.status, r.err.c_str(), cmd.c_str());
        Line n;
        n.l = val("a.pgm"); n.r = val("b.pgm"); n.o = val("out.pgm");
        auto want = expected_map(*model(n).p);
        pgm::Parsed m = pgm::parse(t);
        MC_CHECK(m.ok && m.data.size() == want.size() && std::equal(want.begin(), want.end(), m.data.begin(), [](int x, u64 y) { return (u64)x == y; }), "other map than defined: %s -> %s", cmd.c_str(), json_str(t).c_str());
        mc::count("maps");
    });
    // names of the technology
    static const std::vector<std::string> PV = {"cpu", "CPU", "Cpu", "omp", "OMP", "oMp", "openmp", "OpenMP", "OPENMP", "", "cl", "opencl", "cuda", "cp", "cpu ", " cpu", "omp1", "open", "0", "none", "CL", "cpuomp"};
    mc::space("technologies", {PV.size(), 2}, [](const Digits& g) {
        Line n;
        n.l = val("a.pgm"); n.r = val("b.pgm"); n.o = val("out.pgm"); n.p = val(PV[g[0]]);
        check(g[1] ? Args{"-p", PV[g[0]], "-l", "a.pgm", "-r", "b.pgm", "-o", "out.pgm"} : Args{"-l", "a.pgm", "-r", "b.pgm", "-o", "out.pgm", "--parallel=" + PV[g[0]]}, n, OLD);
    });
    // wide images whose matching pixels are as far away as possible, so that each pixel has one node which fits; with as
    // many levels as columns (given or not) the map is known, with fewer there is another one, judged by its bounds
    mc::space("wide", {4, 3, 2}, [](const Digits& g) {
        static const ref::i64 widths[] = {65, 129, 201, 257};
        const ref::i64 w = widths[g[0]], D = g[1] == 2 ? w / 2 : w;
        std::vector<unsigned long> L(w, 0), R(w, 9);
        L[w - 1] = 9;
        prog::put("wl.pgm", prog::pgm_text(w, 1, 9, L));
        prog::put("wr.pgm", prog::pgm_text(w, 1, 9, R));
        prog::drop("out.pgm");
        Args a = {"-l", "wl.pgm", "-r", "wr.pgm", "-o", "out.pgm"};
        if (g[1]) { a.push_back("-d"); a.push_back(std::to_string(D)); }
        if (g[2]) { a.push_back("-p"); a.push_back("omp"); }
        mc::state(2); mc::step(); mc::trace();
        prog::Result r = prog::run(a);
        std::string t;
        MC_CHECK(r.status == 0 && prog::get("out.pgm", t), "status %d (%s), %lld columns: %s", r.status, r.err.c_str(), (long long)w, prog::show(a).c_str());
        pgm::Parsed m = pgm::parse(t);
        MC_CHECK(m.ok && m.w == (u64)w && m.h == 1, "output isn't an image of the right size: %s", prog::show(a).c_str());
        for (ref::i64 x = 0; x < w; ++x)
        {
            ref::i64 v = (ref::i64)m.data[x];
            if (D == w) MC_CHECK(v == w - 1 - x, "%lld instead of %lld in column %lld of %lld: %s", v, w - 1 - x, x, w, prog::show(a).c_str());
            else MC_CHECK(v < D && v + x < w && (x + 1 == w || v <= (ref::i64)m.data[x + 1] + 1) && (x + D < w || v == w - 1 - x), "%lld in column %lld of %lld: %s", v, x, w, prog::show(a).c_str());
        }
        mc::count("maps_of_wide_images");
    });
    // maps: pairs of images, levels and weights
    mc::space("maps", {3, 3, 4, 6, 6}, [](const Digits& g) {
        static const char* w[6] = {nullptr, "0", "0.5", "3", "0.0625", "40"};
        Line n;
        n.l = val(IN[g[0]].name); n.r = val(IN[g[1]].name); n.o = val("out.pgm");
        Args a = {"-l", n.l.text, "-r", n.r.text, "-o", "out.pgm"};
        if (g[2]) { n.d = val(std::to_string(g[2] + 1)); a.push_back("-d"); a.push_back(n.d.text); }
        if (w[g[3]]) { n.c = val(w[g[3]]); a.push_back("-c"); a.push_back(w[g[3]]); }
        if (w[g[4]]) { n.s = val(w[g[4]]); a.push_back("-s"); a.push_back(w[g[4]]); }
        check(a, n, g[2] % 2 ? LONGER : ABSENT);
    });
}
MC_MAIN
