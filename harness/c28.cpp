// C28: every fault of opening and reading the images, and every failing allocation, with the real program.
#include "trace.hpp"
using namespace mc;
using ref::Problem;
using sys::Fault;

struct Job { Problem p; std::vector<int> map; prog::Args args; std::set<std::string> inputs; };
static const char* OUT = "out.pgm";
static const char* OLD = "kept\n";
static const u64 JOBS = 4;
static Job& job(u64 k)
{
    static std::map<u64, Job> jobs;
    auto it = jobs.find(k);
    if (it != jobs.end()) return it->second;
    Job& j = jobs[k];
    static const long SIZE[JOBS][3] = {{2, 1, 2}, {4, 3, 3}, {3, 2, 2}, {3, 2, 3}};
    Problem& p = j.p;
    p.w = SIZE[k][0]; p.h = SIZE[k][1]; p.D = SIZE[k][2]; p.maxv = k >= 2 ? 65535 : 9;
    for (long i = 0; i < p.w * p.h; ++i)
    {
        p.L.push_back(mix((long)k * 100 + i) % (p.maxv + 1)); p.R.push_back(mix((long)k * 100 + 50 + i) % (p.maxv + 1));
    }
    std::string l = "l" + std::to_string(k), r = "r" + std::to_string(k), lt = prog::pgm_text(p.w, p.h, p.maxv, p.L), rt = prog::pgm_text(p.w, p.h, p.maxv, p.R);
    if (k == 2) { lt = "P2 # comment\n#\n" + lt.substr(3) + "# the end"; rt.pop_back(); }
    // the end of the first buffer is within the numbers, and then within a comment
    if (k == 3) { lt = "P2\n#" + std::string(8155, 'c') + lt.substr(2) + "#" + std::string(9000, 'c') + "\n"; rt = "P2\n3 2 #" + std::string(8182, 'c') + rt.substr(6); }
    prog::put(l, lt);
    prog::put(r, rt);
    j.inputs = {l, r};
    j.args = {"-l", l, "-r", r, "-o", OUT, "-d", std::to_string(p.D)};
    if (k == 2) { j.args.insert(j.args.end(), {"-c", "0.5", "-s", "2"}); p.c = 0.5; p.s = 2; }
    j.map = prog::map_of(p);
    return j;
}
static const char* WRONG = "a wrong map";
static bool right(Job& j, std::string& why)
{
    std::string text;
    if (!prog::get(OUT, text)) { why = "no output"; return false; }
    pgm::Parsed r = pgm::parse(text);
    if (!r.ok || (long)r.w != j.p.w || (long)r.h != j.p.h) { why = "an incomplete output of " + std::to_string(text.size()) + " bytes"; return false; }
    std::vector<int> m(r.data.begin(), r.data.end());
    if (m != j.map) { why = WRONG; return false; }
    return true;
}
static void judge(Job& j, const prog::Result& r, bool failed, bool reading, const std::string& what)
{
    std::string why;
    MC_CHECK(!r.signaled, "%s: the program died of signal %d, %s", what.c_str(), r.status - 128, r.err.c_str());
    if (r.status == 0)
    {
        MC_CHECK(!failed, "%s: the program exited with zero although an image couldn't be read", what.c_str());
        bool ok = right(j, why);
        // without memory, streams of the standard library cut their text silently
        if (!ok && !reading && why != WRONG) return count("memory exhausted: incomplete output");
        MC_CHECK(ok, "%s: exit status 0 with %s", what.c_str(), why.c_str());
        count("ended with zero: right map");
    }
    else
    {
        MC_CHECK(!r.err.empty(), "%s: exit status %d without any message on the error output", what.c_str(), r.status);
        std::string text;
        if (reading) MC_CHECK(prog::get(OUT, text) && text == OLD, "%s: exit status %d, but the output path was touched", what.c_str(), r.status);
        count("ended with non-zero and a message");
    }
}
struct Mode { sys::Kind kind; long value; };
static std::vector<Mode> modes(sys::Call c)
{
    using namespace sys;
    std::vector<Mode> m;
    if (c == OPEN) for (long e : {ENOENT, EACCES, EMFILE, ENFILE, EIO, ENOMEM, EINTR}) m.push_back({FAIL, e});
    else if (c == READ)
    {
        for (long e : {EIO, EINTR, EISDIR, EAGAIN, ENOMEM}) m.push_back({FAIL, e});
        for (long s : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 4095, 4096}) m.push_back({SHORT, s});
    }
    else m.push_back({FAIL, EIO});
    return m;
}
static const u64 CALLS = 32, MODES = 21;
static sys::Outcome once(u64 k, const std::vector<Fault>& plan)
{
    Job& j = job(k);
    prog::put(OUT, OLD);
    sys::Outcome o = sys::run(j.args, plan, j.inputs);
    state(1 + o.calls.size());
    trace(1);
    bool failed = false;
    for (auto& s : o.calls) failed |= s.injected && s.call == sys::READ && s.result < 0 && s.result != -EINTR;
    std::string what = "problem " + j.p.show().substr(0, 16) + ", faults:";
    for (auto& f : plan) what += fmt(" call %ld %s %ld;", f.at, f.kind == sys::FAIL ? "errno" : "short", f.value);
    what += " calls" + sys::show(o.calls);
    sample([&] { return what + " -> " + std::to_string(o.r.status); });
    judge(j, o.r, failed, true, what);
    if (plan.empty()) MC_CHECK(o.r.status == 0, "without faults: exit status %d, %s", o.r.status, o.r.err.c_str());
    return o;
}
static const sys::Outcome& clean_run(u64 k)
{
    static std::map<u64, sys::Outcome> runs;
    auto it = runs.find(k);
    return it != runs.end() ? it->second : runs[k] = once(k, {});
}
static void explore(u64 k, std::vector<Fault> plan, int left)
{
    sys::Outcome o = once(k, plan);
    if (!left) return;
    for (long i = plan.back().at + 1; i < (long)std::min<u64>(o.calls.size(), CALLS); ++i)
        for (auto& m : modes(o.calls[i].call))
        {
            auto next = plan;
            next.push_back({i, m.kind, m.value});
            explore(k, next, left - 1);
        }
}
static void faults(u64 k, int bound, u64 call, u64 mode)
{
    const auto& base = clean_run(k);
    if (call >= base.calls.size()) return;
    auto m = modes(base.calls[call].call);
    if (mode >= m.size()) return;
    explore(k, {{(long)call, m[mode].kind, m[mode].value}}, bound - 1);
}
// a file of another kind in the place of an image
static void kinds(u64 which, u64 kind)
{
    Job& j = job(1);
    clean_run(1);
    static const char* P[] = {"folder", "missing", "dangling", "loop", "empty", "l1/x", "", "/dev/null"};
    mkdir((prog::dir() + "/folder").c_str(), 0755);
    if (symlink("nowhere", (prog::dir() + "/dangling").c_str()) || symlink("loop", (prog::dir() + "/loop").c_str())) {}
    prog::put("empty", "");
    auto a = j.args;
    a[which ? 3 : 1] = P[kind];
    prog::put(OUT, OLD);
    auto r = prog::run(a);
    state(); step(); trace();
    judge(j, r, true, true, fmt("`%s` instead of image %llu", P[kind], which));
}
// the allocation `at` of the program fails (mode 0), it and all later ones (1)
static u64 allocations(u64 k)
{
    static std::map<u64, u64> n;
    auto it = n.find(k);
    if (it != n.end()) return it->second;
    Job& j = job(k);
    std::string so = std::string(getenv("MC_BUILD")) + "/preload.so", why;
    prog::put(OUT, OLD);
    prog::put("allocations", "");
    auto r = prog::run(j.args, {"LD_PRELOAD=" + so, "FAIL_COUNT=" + prog::dir() + "/allocations"});
    std::string text;
    prog::get("allocations", text);
    if (r.status != 0 || text.empty()) { fprintf(stderr, "allocations cannot be counted\n"); exit(2); }
    MC_CHECK(right(j, why), "without faults: %s", why.c_str());
    return n[k] = strtoull(text.c_str(), nullptr, 10);
}
static void memory(u64 k, u64 at, u64 mode)
{
    u64 n = allocations(k);
    if (at >= n) return;
    Job& j = job(k);
    std::string so = std::string(getenv("MC_BUILD")) + "/preload.so";
    prog::put(OUT, OLD);
    auto r = prog::run(j.args, {"LD_PRELOAD=" + so, "FAIL_AT=" + std::to_string(at), "FAIL_MODE=" + std::to_string(mode)});
    state(); step(); trace();
    std::string what = fmt("allocation %llu of %llu fails%s, problem %llu", at, n, mode == 1 ? " and all later ones" : "", k);
    sample([&] { return what + " -> " + std::to_string(r.status); });
    judge(j, r, false, false, what);
}

void mc::register_spaces()
{
    for (u64 k = 0; k < 3; ++k)
    {
        int bound = thorough() ? 3 : 2;
        space(fmt("reading/problem%llu/bound%d", k, bound), {CALLS, MODES}, [=](const Digits& d) { faults(k, bound, d[0], d[1]); });
    }
    space("reading/two-buffers", {CALLS, MODES}, [=](const Digits& d) { faults(3, 2, d[0], d[1]); });
    space("kinds", {2, 8}, [=](const Digits& d) { kinds(d[0], d[1]); });
    for (u64 k = 0; k < JOBS; ++k)
        space(fmt("memory/problem%llu", k), {20000, 2}, [=](const Digits& d) { memory(k, d[0], d[1]); });
}
MC_MAIN
