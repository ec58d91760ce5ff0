// C23: every fault (and pair of faults) of opening, writing, flushing and closing the output, with the real program.
#include "trace.hpp"
using namespace mc;
using ref::Problem;
using sys::Fault;

struct Job { Problem p; std::string expected; prog::Args args; };
static Problem make(long w, long h, long D, unsigned long mx, int k)
{
    Problem p;
    p.w = w; p.h = h; p.D = D; p.maxv = mx;
    for (long i = 0; i < w * h; ++i) { p.L.push_back(mix(k * 100 + i) % (mx + 1)); p.R.push_back(mix(k * 100 + 50 + i) % (mx + 1)); }
    return p;
}
static const char* OUT = "out.pgm";
static void clean() { prog::drop(OUT); }
// what was read from a text which is complete: the grammar, the size and the values
static bool complete(const Problem& p, const std::string& text, std::vector<int>& map)
{
    pgm::Parsed r = pgm::parse(text);
    if (!r.ok || (long)r.w != p.w || (long)r.h != p.h) return false;
    map.assign(r.data.begin(), r.data.end());
    return true;
}
static Job& job(u64 k)
{
    static std::map<u64, Job> jobs;
    auto it = jobs.find(k);
    if (it != jobs.end()) return it->second;
    Job& j = jobs[k];
    if (k == 0) j.p = make(2, 1, 2, 3, 1);
    else if (k == 1) j.p = make(4, 3, 3, 9, 2);
    else if (k == 2) j.p = make(5, 9, 2, 5, 3);
    else
    {
        // more than one buffer of output
        j.p = make(2, 2060, 2, 1, 4);
        for (long y = 0; y < 2060; ++y) { j.p.L[2 * y] = j.p.R[2 * y] = 1; j.p.L[2 * y + 1] = j.p.R[2 * y + 1] = (y / 700) % 2; }
    }
    prog::put("l.pgm", prog::pgm_text(j.p.w, j.p.h, j.p.maxv, j.p.L));
    prog::put("r.pgm", prog::pgm_text(j.p.w, j.p.h, j.p.maxv, j.p.R));
    std::string tag = std::to_string(k);
    prog::put("l" + tag, prog::pgm_text(j.p.w, j.p.h, j.p.maxv, j.p.L));
    prog::put("r" + tag, prog::pgm_text(j.p.w, j.p.h, j.p.maxv, j.p.R));
    j.args = {"-l", "l" + tag, "-r", "r" + tag, "-o", OUT, "-d", std::to_string(j.p.D)};
    return j;
}
// the fault-free run, compared with the reference where that is feasible
static const sys::Outcome& clean_run(u64 k)
{
    static std::map<u64, sys::Outcome> runs;
    auto it = runs.find(k);
    if (it != runs.end()) return it->second;
    Job& j = job(k);
    clean();
    sys::Outcome o = sys::run(j.args, {});
    std::string text;
    std::vector<int> map;
    MC_CHECK(o.r.status == 0 && prog::get(OUT, text) && complete(j.p, text, map), "without faults: exit status %d, %zu bytes of output, %s", o.r.status, text.size(), o.r.err.c_str());
    if (j.p.w * j.p.h <= 20) { auto m = prog::map_of(j.p); MC_CHECK(map == m, "without faults the map differs from the reference"); }
    j.expected = text;
    return runs[k] = o;
}
struct Mode { sys::Kind kind; long value; };
static std::vector<Mode> modes(sys::Call c)
{
    using namespace sys;
    std::vector<Mode> m;
    switch (c)
    {
        case OPEN: for (long e : {EACCES, ENOSPC, EMFILE, EIO, EROFS, ENOENT, EDQUOT}) m.push_back({FAIL, e}); break;
        case WRITE:
            for (long e : {ENOSPC, EIO, EDQUOT, EFBIG, EINTR}) m.push_back({FAIL, e});
            for (long s : {0, 1, 2}) m.push_back({SHORT, s});
            m.push_back({FULL, 0});
            break;
        case CLOSE: for (long e : {EIO, ENOSPC, EDQUOT, EINTR}) m.push_back({FAIL, e}); break;
        case SYNC: for (long e : {EIO, ENOSPC, EINTR}) m.push_back({FAIL, e}); break;
        case RENAME: for (long e : {EIO, ENOSPC, EXDEV}) m.push_back({FAIL, e}); break;
        default: m.push_back({FAIL, EIO});
    }
    return m;
}
static void judge(const Job& j, const prog::Result& r, bool error, const std::string& what)
{
    std::string text;
    bool have = prog::get(OUT, text);
    MC_CHECK(!r.signaled, "%s: the program died of signal %d", what.c_str(), r.status - 128);
    if (r.status == 0)
    {
        MC_CHECK(!error, "%s: the program exited with zero although its output failed", what.c_str());
        std::vector<int> a, b;
        MC_CHECK(have && complete(j.p, text, a) && complete(j.p, j.expected, b) && a == b, "%s: exit status 0, but the output of %zu bytes (of %zu) isn't the complete map", what.c_str(), text.size(), j.expected.size());
        count("ended with zero: complete map");
    }
    else
    {
        MC_CHECK(!r.err.empty(), "%s: exit status %d without any message on the error output", what.c_str(), r.status);
        count("ended with non-zero and a message");
    }
}
static std::string describe(u64 k, const std::vector<Fault>& plan, const sys::Outcome& o)
{
    std::string s = "map " + job(k).p.show().substr(0, 12) + ", faults:";
    for (auto& f : plan) s += fmt(" call %ld %s %ld;", f.at, f.kind == sys::FAIL ? "errno" : f.kind == sys::SHORT ? "short" : "full", f.value);
    return s + " calls" + sys::show(o.calls);
}
static const u64 CALLS = 24, MODES = 9;
// explores all continuations of a plan with at most `left` more faults at later calls
static void explore(u64 k, std::vector<Fault> plan, int left)
{
    Job& j = job(k);
    clean();
    sys::Outcome o = sys::run(j.args, plan);
    state(1 + o.calls.size()); trace(1);
    std::string what = describe(k, plan, o);
    sample([&] { return what + " -> " + std::to_string(o.r.status); });
    judge(j, o.r, o.error, what);
    if (!left) return;
    long from = plan.empty() ? 0 : plan.back().at + 1;
    for (long i = from; i < (long)std::min<u64>(o.calls.size(), CALLS); ++i)
        for (auto& m : modes(o.calls[i].call))
        {
            auto next = plan;
            next.push_back({i, m.kind, m.value});
            explore(k, next, left - 1);
        }
}
// first fault from the digits, the rest explored
static void faults(u64 k, int bound, u64 call, u64 mode)
{
    const auto& base = clean_run(k);
    if (call >= base.calls.size()) return;
    auto m = modes(base.calls[call].call);
    if (mode >= m.size()) return;
    explore(k, {{(long)call, m[mode].kind, m[mode].value}}, bound - 1);
}
static void limited(u64 k, long limit)
{
    const auto& base = clean_run(k);
    (void)base;
    Job& j = job(k);
    if (limit > (long)j.expected.size()) return;
    clean();
    auto r = prog::run(j.args, {}, limit);
    state(); step(); trace();
    judge(j, r, limit < (long)j.expected.size(), fmt("file size limit of %ld bytes for a map of %zu", limit, j.expected.size()));
}
static void places(u64 k, u64 place)
{
    clean_run(k);
    Job& j = job(k);
    static const char* P[] = {"/dev/full", "tofull", "folder", "nofolder/out.pgm", "dangling", "l.pgm/out.pgm", "", "folder/", "out.pgm", "deep/out.pgm", "fresh", "/dev/null"};
    mkdir((prog::dir() + "/folder").c_str(), 0755);
    mkdir((prog::dir() + "/deep").c_str(), 0755);
    if (symlink("/dev/full", (prog::dir() + "/tofull").c_str()) || symlink("nofolder/x", (prog::dir() + "/dangling").c_str()) || symlink("deep/target", (prog::dir() + "/fresh").c_str())) {}
    auto a = j.args;
    a[5] = P[place];
    std::string target = P[place];
    bool bad = place < 8;
    if (place == 8) prog::put(OUT, std::string(j.expected.size() * 3, '7'));      // a longer file is replaced
    auto r = prog::run(a);
    state(); step(); trace();
    std::string what = "output path `" + target + "`";
    MC_CHECK(!r.signaled, "%s: the program died of signal %d", what.c_str(), r.status - 128);
    if (bad) MC_CHECK(r.status != 0 && !r.err.empty(), "%s: exit status %d, %zu bytes of messages", what.c_str(), r.status, r.err.size());
    else
    {
        MC_CHECK(r.status == 0, "%s: exit status %d, %s", what.c_str(), r.status, r.err.c_str());
        if (place < 11)
        {
            std::string text;
            std::vector<int> x, y;
            MC_CHECK(prog::get(target, text) && complete(j.p, text, x) && complete(j.p, j.expected, y) && x == y, "%s: exit status 0 without the complete map", what.c_str());
            if (target == "deep/out.pgm") prog::drop(target);
        }
    }
}

void mc::register_spaces()
{
    int bound = thorough() ? 3 : 2;
    for (u64 k = 0; k < 3; ++k)
        space(fmt("faults/map%llu/bound%d", k, bound), {CALLS, MODES}, [=](const Digits& d) { faults(k, bound, d[0], d[1]); });
    // more than one buffer of output. A writer which flushes every line makes more calls than can be covered here (and the
    // smaller maps show all its behaviour); then only the last ones fail, and the first ones in the thorough tier
    const u64 n = thorough() ? CALLS : 12;
    space("faults/two-buffers/first", {n, MODES}, [=](const Digits& d) { if (clean_run(3).calls.size() <= n || thorough()) faults(3, 1, d[0], d[1]); });
    space("faults/two-buffers/last", {thorough() ? n : 3, MODES}, [=](const Digits& d) {
        u64 calls = clean_run(3).calls.size();
        if (calls > d[0]) faults(3, 1, calls - 1 - d[0], d[1]);
    });
    for (u64 k = 0; k < 3; ++k)
        space(fmt("size-limit/map%llu", k), {200}, [=](const Digits& d) { limited(k, (long)d[0]); });
    space("places", {3, 12}, [=](const Digits& d) { places(d[0], d[1]); });
}
MC_MAIN
