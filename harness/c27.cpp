// C27: the program as built with OpenMP, OpenCL, CUDA and the latter two, from its command line: the technology chosen does
// not change the result, and nothing which goes wrong with a device becomes a result.
#include "prog.hpp"
using namespace mc;
using prog::Args;
using ref::Problem;

enum Build { OMP, CL, CUDA, BOTH, BUILDS };
static const char* const BUILD[] = {"omp", "cl", "cuda", "both"};
enum Tech { CPU_, CL_, CUDA_, NONE_ };
static const char* const TECH[] = {"the CPU", "OpenCL", "CUDA", "nothing"};
struct Way { Build build; const char* name; Tech tech; };
// every way to run the program, by a plain name
static const std::vector<Way> WAYS = {{OMP, "omp", CPU_}, {CL, "cl", CL_}, {CUDA, "cuda", CUDA_}, {BOTH, "cl", CL_}, {BOTH, "cuda", CUDA_}, {CL, "cpu", CPU_}, {CUDA, "omp", CPU_}, {BOTH, nullptr, CPU_}, {OMP, nullptr, CPU_}};

static Tech meaning(Build b, const std::string& name)
{
    std::string n = name;
    for (char& c : n) c = (char)tolower((unsigned char)c);
    if (n == "cpu" || n == "omp" || n == "openmp") return CPU_;
    if ((n == "cl" || n == "opencl") && (b == CL || b == BOTH)) return CL_;
    if (n == "cuda" && (b == CUDA || b == BOTH)) return CUDA_;
    return NONE_;
}
struct How { long fail = -1; bool for_good = false; int threads = 2; bool highest = false; const char* where = nullptr; };
struct Seen { prog::Result r; long calls = 0; u64 cl = 0, cuda = 0; std::string text; };
static std::string source() { return getenv("MC_REPO") ? getenv("MC_REPO") : "/repo"; }

static Seen run(Build b, const Args& args, const How& how = {})
{
    prog::name = std::string("program_") + BUILD[b];
    const std::string& d = prog::dir();
    std::string build = getenv("MC_BUILD") ? getenv("MC_BUILD") : "/tmp";
    std::vector<std::string> env = {"MC_BUILD=" + build, "MC_REPO=" + source(), "MC_WHERE=" + (how.where ? d + how.where : source()), "MC_REPORT=" + d + "/report",
        fmt("MC_THREADS=%d", how.threads), fmt("MC_FAIL=%ld", how.fail), fmt("MC_FOR_GOOD=%d", how.for_good), fmt("MC_HIGHEST=%d", how.highest)};
    prog::drop("report");
    Seen s;
    s.r = prog::run(args, env);
    std::string report;
    const bool has_report = prog::get("report", report);
    const std::string& e = s.r.err;
    if (s.r.status >= 124 && s.r.status <= 126) { fprintf(stderr, "%s could not run: %s %s\n", BUILD[b], report.c_str(), e.c_str()); if (report.find_first_not_of("0123456789 \n") == std::string::npos) exit(2); }
    if (e.find("this check") != std::string::npos || e.find("the stand-in lacks") != std::string::npos || e.find("no code for the kernel") != std::string::npos) { fprintf(stderr, "%s", e.c_str()); exit(2); }
    if (has_report)
    {
        char* at;
        s.calls = strtol(report.c_str(), &at, 10);
        s.cl = strtoull(at, &at, 10);
        s.cuda = strtoull(at, &at, 10);
        while (*at == ' ') ++at;
        s.text = at;
        while (!s.text.empty() && s.text.back() == '\n') s.text.pop_back();
    }
    return s;
}
static std::string path(const char* name) { return prog::dir() + "/" + name; }
static Args line(const Problem& p, const char* name, bool defaults = false)
{
    Args a = {"-l", path("l.pgm"), "-r", path("r.pgm"), "-o", path("o.pgm")};
    if (name) { a.push_back("-p"); a.push_back(name); }
    if (defaults) return a;
    for (auto& q : {std::make_pair("-d", fmt("%lld", (long long)p.D)), std::make_pair("-c", fmt("%.17g", p.c)), std::make_pair("-s", fmt("%.17g", p.s))}) { a.push_back(q.first); a.push_back(q.second); }
    return a;
}
static const char* const OLD = "not a map, and longer than any of the maps which are computed here: 0123456789012345678901234567890123456789012345678901234567890\n";
static void inputs(const Problem& p, bool old_output)
{
    prog::put("l.pgm", prog::pgm_text(p.w, p.h, p.maxv, p.L));
    prog::put("r.pgm", prog::pgm_text(p.w, p.h, p.maxv, p.R));
    prog::drop("o.pgm");
    if (old_output) prog::put("o.pgm", OLD);
}
// is the output what it was?
static bool untouched(bool old_output)
{
    std::string t;
    return old_output ? prog::get("o.pgm", t) && t == OLD : !prog::exists("o.pgm");
}
static const std::vector<int>& expected(const Problem& p)
{
    static std::map<std::string, std::vector<int>> known;
    auto i = known.find(p.show());
    if (i == known.end()) i = known.emplace(p.show(), prog::map_of(p)).first;
    return i->second;
}
// what the CPU writes
static const std::string& text_of(const Args& args)
{
    static std::map<std::string, std::string> known;
    Args a;
    for (size_t i = 0; i < args.size(); ++i)
    {
        if (args[i] == "-p" || args[i] == "--parallel") { ++i; continue; }
        if (args[i].compare(0, 11, "--parallel=") && args[i].compare(0, 2, "-p")) a.push_back(args[i]);
    }
    std::string key, l, r;
    prog::get("l.pgm", l); prog::get("r.pgm", r);
    for (auto& x : a) key += x + "\n";
    key += l + r;
    auto i = known.find(key);
    if (i != known.end()) return i->second;
    for (auto& x : a) if (x == path("o.pgm")) x = path("cpu.pgm");
    prog::drop("cpu.pgm");
    std::string t;
    if (run(OMP, a).r.status == 0) prog::get("cpu.pgm", t);
    return known[key] = t;
}
enum Want { MAP, FAIL, AGREE };                 // AGREE: either of them
static void judge(const Seen& s, Want want, const Problem& p, bool old_output, const std::string& what, const Args& a)
{
    mc::state(1);
    mc::step((u64)s.calls + s.cl + s.cuda);
    MC_CHECK(s.text.empty(), "%s: %s", what.c_str(), s.text.c_str());
    if (want == MAP) MC_CHECK(s.r.status == 0, "%s: ends with %d: %s", what.c_str(), s.r.status, s.r.err.c_str());
    if (want == FAIL) MC_CHECK(s.r.status != 0, "%s: ends with success", what.c_str());
    if (s.r.status != 0)
    {
        mc::count("refused_or_failed");
        MC_CHECK(!s.r.err.empty(), "%s: fails without a message", what.c_str());
        MC_CHECK(untouched(old_output), "%s: fails, but the output has changed", what.c_str());
        return;
    }
    mc::count("maps");
    std::string text;
    pgm::Parsed o;
    MC_CHECK(prog::get("o.pgm", text) && (o = pgm::parse(text)).ok, "%s: succeeds, but there is no map: %s", what.c_str(), json_str(text).c_str());
    MC_CHECK(o.w == (u64)p.w && o.h == (u64)p.h, "%s: a map of %llux%llu", what.c_str(), o.w, o.h);
    const std::vector<int>& e = expected(p);
    for (size_t i = 0; i < e.size(); ++i) MC_CHECK(o.data[i] == (u64)e[i], "%s: pixel %zu of the map is %llu instead of %d", what.c_str(), i, (u64)o.data[i], e[i]);
    MC_CHECK(text == text_of(a), "%s: the output differs from what the CPU writes: %s instead of %s", what.c_str(), json_str(text).c_str(), json_str(text_of(a)).c_str());
}
static std::string describe(Build b, const Args& a) { std::string r = std::string("built with ") + BUILD[b] + ":"; for (auto& x : a) { size_t k = x.rfind('/'); r += " " + (k == std::string::npos ? x : x.substr(k + 1)); } return r; }

static Problem problem(ref::i64 w, ref::i64 h, ref::i64 D, double c, double s, unsigned long mx)
{
    Problem p;
    p.w = w; p.h = h; p.D = D; p.c = c; p.s = s; p.maxv = mx;
    p.L.assign((size_t)(w * h), 0); p.R = p.L;
    return p;
}
static void pattern(Problem& p, u64 k)
{
    for (size_t i = 0; i < p.L.size(); ++i) { p.L[i] = mix(k * 1000 + i) % (p.maxv + 1); p.R[i] = mix(k * 1000 + 500 + i) % (p.maxv + 1); }
}
// the k-th pattern for which neither the first nor the best node of every pixel, by itself, gives the map (or only the
// former, for two levels: the latter always does)
static void hard(Problem& p, u64 k)
{
    for (u64 seed = 1; seed < 4000; ++seed)
    {
        pattern(p, seed);
        for (double t : p.candidates())
        {
            ref::Constraints c(p, t);
            ref::Avail a = c.gfp(c.nodeOk);
            if (!ref::any(a)) continue;
            std::vector<int> map = c.greedy(a), first(map.size()), best(map.size());
            if (map.empty()) continue;
            for (ref::i64 y = 0; y < p.h; ++y) for (ref::i64 x = 0; x < p.w; ++x)
            {
                size_t i = (size_t)(y * p.w + x);
                first[i] = best[i] = -1;
                for (ref::i64 d = 0; d < p.D; ++d)
                {
                    if (!p.node(x, y, d) || !a[p.ix(x, y, d)]) continue;
                    if (first[i] < 0) first[i] = (int)d;
                    if (best[i] < 0 || p.nodePenalty(x, y, d) < p.nodePenalty(x, y, best[i])) best[i] = (int)d;
                }
            }
            if (map == first || (p.D > 2 && map == best)) break;
            if (k-- == 0) return;
            break;
        }
    }
    fprintf(stderr, "no hard problem of this kind: %s\n", p.show().c_str());
    exit(2);
}
struct Weights { double c, s; };
static const Weights WEIGHTS[] = {{1, 1}, {1, 0.25}, {0.5, 4}, {0, 1}, {1, 0}, {3, 2}, {0.0625, 16}, {8, 0.125}};

// names of technologies, each in every build, with every way to give them; what was not built in is refused
static const std::vector<std::string> NAMES = {"cpu", "CPU", "omp", "OMP", "openmp", "OpenMP", "Openmp", "cl", "CL", "Cl", "cL", "opencl", "OpenCL", "OPENCL", "cuda", "CUDA", "Cuda", "cUDA", "", "c", "o", "open", "clcl", "cl ", " cl",
    "cudacuda", "cud", "gpu", "OpenCL 1.2", "opencuda", "cl,cuda", "ompcl", "0", "1", "2", "none", "serial", "threads"};
static void names()
{
    mc::space("names", {BUILDS, NAMES.size() + 1, 4, 2}, [](const Digits& g) {
        const Build b = (Build)g[0];
        const bool given = g[1] < NAMES.size(), old = g[3];
        if (!given && g[2]) return;
        const std::string n = given ? NAMES[g[1]] : "";
        // every relation of pixels is possible everywhere: there is something to choose
        Problem p = problem(3, 2, 3, 1, 1, 3);
        if (old) pattern(p, 5);
        inputs(p, old);
        Args a = line(p, nullptr);
        if (given) switch (g[2])
        {
            case 0: a.push_back("-p"); a.push_back(n); break;
            case 1: a.insert(a.begin(), {"--parallel", n}); break;
            case 2: a.push_back("--parallel=" + n); break;
            default: if (n.empty()) return; a.insert(a.begin() + 2, "-p" + n); break;
        }
        const Tech t = given ? meaning(b, n) : CPU_;
        // other spellings of empty values are left open
        const Want w = t == NONE_ ? FAIL : MAP;
        Seen s = run(b, a);
        const std::string what = describe(b, a) + fmt(" (-p %s)", json_str(n).c_str());
        judge(s, w, p, old, what, a);
        mc::count(std::string("name_means_") + TECH[t]);
        if (t == NONE_) return;
        if (t == CPU_)
        {
            MC_CHECK(!s.cl && !s.cuda, "%s: starts %llu kernels", what.c_str(), s.cl + s.cuda);
            if (b == OMP) return;
            // and it needs no device at all
            inputs(p, old);
            How h;
            h.fail = 0; h.for_good = true;
            judge(run(b, a, h), MAP, p, old, what + " without any device", a);
        }
        else
        {
            MC_CHECK(!(t == CL_ ? s.cuda : s.cl), "%s: uses another technology than %s", what.c_str(), TECH[t]);
            if (!old) MC_CHECK(t == CL_ ? s.cl : s.cuda, "%s: starts no kernel of %s", what.c_str(), TECH[t]);
        }
    });
}
// the name is given twice, or with other things which must be refused
static void refused()
{
    mc::space("refused", {WAYS.size(), 14, 2}, [](const Digits& g) {
        const Way& v = WAYS[g[0]];
        const bool old = g[2];
        Problem p = problem(3, 2, 2, 1, 1, 9);
        pattern(p, 3);
        inputs(p, old);
        prog::drop("other.pgm");
        Args a = line(p, v.name);
        auto change = [&](const char* o, const std::string& x) { for (size_t i = 0; i + 1 < a.size(); ++i) if (a[i] == o) a[i + 1] = x; };
        switch (g[1])
        {
            case 0: if (!v.name) return; a.push_back("-p"); a.push_back(v.name); break;
            case 1: change("-d", "1"); break;
            case 2: change("-d", "4"); break;
            case 3: change("-d", "0"); break;
            case 4: change("-d", "two"); break;
            case 5: change("-c", "-1"); break;
            case 6: change("-s", "-0.5"); break;
            case 7: change("-s", "x"); break;
            case 8: change("-c", "0"); change("-s", "0"); break;
            case 9: change("-l", path("no.pgm")); break;
            case 10: prog::put("other.pgm", "P2\n3 2\n9\n1 2 3 4 5\n"); change("-r", path("other.pgm")); break;
            case 11: prog::put("other.pgm", "P2\n2 3\n9\n1 2 3 4 5 6\n"); change("-r", path("other.pgm")); break;
            case 12: prog::put("other.pgm", "P2\n3 2\n8\n1 2 3 4 5 6\n"); change("-r", path("other.pgm")); break;
            default: change("-o", path("no/such/directory/o.pgm")); break;
        }
        judge(run(v.build, a), FAIL, p, old, describe(v.build, a), a);
    });
}
static void one(const Way& v, const Problem& p, bool old, const How& how, bool defaults = false)
{
    inputs(p, old);
    Args a = line(p, v.name, defaults);
    std::string what = describe(v.build, a) + " " + p.show() + fmt(" threads %d", how.threads);
    judge(run(v.build, a, how), expected(p).empty() ? FAIL : MAP, p, old, what, a);
    mc::trace();
    mc::count(std::string("computed_by_") + TECH[v.tech]);
    mc::sample([&] { return what; });
}
// every pair of images
static void all_images(ref::i64 w, ref::i64 h, unsigned long mx, u64 weights)
{
    const u64 n = ipow(mx + 1, (u64)(2 * w * h));
    mc::space(fmt("all_images%lldx%lldm%lu", (long long)w, (long long)h, mx), {WAYS.size(), (u64)(w - 1), weights, n}, [=](const Digits& g) {
        const Weights& k = WEIGHTS[g[2]];
        Problem p = problem(w, h, (ref::i64)g[1] + 2, k.c, k.s, mx);
        u64 x = g[3];
        for (auto* i : {&p.L, &p.R}) for (auto& q : *i) { q = x % (mx + 1); x /= mx + 1; }
        How how;
        how.threads = 1 + (int)(g[3] % 4);
        how.highest = g[3] / 4 % 2;
        one(WAYS[g[0]], p, g[3] / 8 % 2, how);
    });
}
// larger images and values
static void images(ref::i64 w, ref::i64 h, ref::i64 D, unsigned long mx, u64 kinds)
{
    mc::space(fmt("images%lldx%lldd%lldm%lu", (long long)w, (long long)h, (long long)D, mx), {WAYS.size(), 8, kinds}, [=](const Digits& g) {
        const Weights& k = WEIGHTS[g[1]];
        Problem p = problem(w, h, D, k.c, k.s, mx);
        pattern(p, g[2] + 1);
        How how;
        how.threads = 1 + (int)(g[2] % 4);
        one(WAYS[g[0]], p, g[2] % 2, how);
    });
}
// what is chosen in one pixel matters for the others
static void hard_images(ref::i64 w, ref::i64 h, ref::i64 D, u64 kinds)
{
    mc::space(fmt("hard_images%lldx%lldd%lld", (long long)w, (long long)h, (long long)D), {WAYS.size(), kinds}, [=](const Digits& g) {
        Problem p = problem(w, h, D, 1, 1, 3);
        hard(p, g[1]);
        How how;
        how.threads = 1 + (int)(g[1] % 4);
        one(WAYS[g[0]], p, g[1] % 2, how);
    });
}
// levels and weights which aren't given: as many levels as columns, both weights are 1
static void defaults(u64 kinds)
{
    mc::space("defaults", {WAYS.size(), 4, 3, kinds}, [=](const Digits& g) {
        Problem p = problem((ref::i64)g[1] + 2, (ref::i64)g[2] + 1, (ref::i64)g[1] + 2, 1, 1, 15);
        pattern(p, g[3] + 40);
        one(WAYS[g[0]], p, g[3] % 2, How(), true);
    });
}
// every operation of the device fails once, alone or together with everything after it
static void failures(u64 kinds)
{
    mc::space(fmt("failures%llu", kinds), {4, 3, 2, kinds}, [](const Digits& g) {
        const Way& v = WAYS[1 + g[0]];
        static const ref::i64 shapes[3][3] = {{2, 2, 2}, {3, 2, 3}, {4, 2, 3}};
        const ref::i64* q = shapes[g[1]];
        Problem p = problem(q[0], q[1], q[2], 1, 1, 3);
        hard(p, g[3]);
        const bool old = (g[0] + g[1] + g[2] + g[3]) % 2;
        const Args a = line(p, v.name);
        inputs(p, old);
        Seen whole = run(v.build, a);
        judge(whole, MAP, p, old, describe(v.build, a) + " " + p.show(), a);
        for (long i = 0; i < whole.calls; ++i)
        {
            inputs(p, old);
            How h;
            h.fail = i; h.for_good = g[2];
            Seen s = run(v.build, a, h);
            judge(s, AGREE, p, old, describe(v.build, a) + " " + p.show() + fmt(", device operation %ld of %ld fails%s", i, whole.calls, g[2] ? " and all after it" : ""), a);
            mc::count("failures_injected");
            mc::trace();
        }
    });
}
// the program runs where the sources of its kernels are not
static void elsewhere()
{
    mc::space("elsewhere", {WAYS.size(), 2, 2}, [](const Digits& g) {
        const Way& v = WAYS[g[0]];
        mkdir((prog::dir() + "/away").c_str(), 0755);
        Problem p = problem(3, 2, 3, 1, 1, 3);
        if (g[1]) pattern(p, 9);
        inputs(p, g[2]);
        How h;
        h.where = "/away";
        Args a = line(p, v.name);
        judge(run(v.build, a, h), v.tech == CL_ ? AGREE : MAP, p, g[2], describe(v.build, a) + " in another directory", a);
    });
}
void mc::register_spaces()
{
    names();
    refused();
    elsewhere();
    failures(mc::thorough() ? 4 : 2);
    defaults(mc::thorough() ? 40 : 6);
    all_images(2, 1, 1, 2);
    all_images(3, 1, 1, 1);
    images(4, 3, 3, 255, mc::thorough() ? 40 : 4);
    images(3, 4, 2, 9, mc::thorough() ? 40 : 4);
    images(8, 5, 6, 255, mc::thorough() ? 20 : 1);
    hard_images(3, 3, 3, mc::thorough() ? 60 : 12);
    hard_images(4, 3, 3, mc::thorough() ? 60 : 12);
    hard_images(6, 4, 4, mc::thorough() ? 60 : 12);
    if (mc::thorough())
    {
        all_images(2, 1, 3, 8);
        all_images(3, 1, 1, 8);
        all_images(2, 2, 1, 8);
        images(12, 9, 12, 4095, 8);
        images(5, 5, 5, 1, 40);
    }
}
MC_MAIN
