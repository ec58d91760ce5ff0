// Minimal exhaustive-enumeration runtime shared by all harnesses.
//
// A harness registers named spaces.  A space is a mixed-radix product of digits; every element is executed
// exactly once over all shards.  A failed check throws Violation; the driver (run.py) replays it alone.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <chrono>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace mc
{
typedef unsigned long long u64;
typedef std::vector<u64> Digits;

struct Violation { std::string what; };

// shared with the driver through a mapped file: which case is running, and a heartbeat
struct Progress { volatile u64 beat; volatile u64 index; volatile char space[112]; };

struct Stats
{
    u64 cases = 0, states = 0, transitions = 0, traces = 0;
    std::vector<std::string> samples;
    std::map<std::string, u64> extra;
    std::set<std::string> notes;
};

inline Stats& stats() { static Stats s; return s; }
inline Progress*& progress() { static Progress* p = nullptr; return p; }
inline bool& thorough() { static bool t = false; return t; }
inline bool& verbose() { static bool v = false; return v; }

inline void beat() { if (progress()) progress()->beat = progress()->beat + 1; }
inline void state(u64 n = 1) { stats().states += n; }
inline void step(u64 n = 1) { stats().transitions += n; beat(); }
inline void trace(u64 n = 1) { stats().traces += n; }
inline void count(const std::string& key, u64 n = 1) { stats().extra[key] += n; }
template <class F> void sample(F f) { if (stats().samples.size() < 2) stats().samples.push_back(f()); }

inline std::string fmt(const char* f, ...)
{
    char buf[4096];
    va_list a;
    va_start(a, f);
    vsnprintf(buf, sizeof buf, f, a);
    va_end(a);
    return buf;
}
[[noreturn]] inline void fail(const std::string& s) { throw Violation{s}; }
#define MC_CHECK(cond, ...) do { if (!(cond)) mc::fail(mc::fmt(__VA_ARGS__)); } while (0)

struct Space
{
    std::string name;
    std::vector<u64> dims;
    std::function<void(const Digits&)> run;
    u64 size() const { u64 s = 1; for (u64 d : dims) s *= d; return s; }
};
inline std::vector<Space>& spaces() { static std::vector<Space> v; return v; }
inline void space(const std::string& name, const std::vector<u64>& dims, std::function<void(const Digits&)> run)
{
    for (auto& s : spaces()) if (s.name == name) { fprintf(stderr, "duplicate space %s\n", name.c_str()); exit(2); }
    spaces().push_back({name, dims, run});
}
inline Digits decode(const Space& s, u64 idx)
{
    Digits d(s.dims.size());
    for (size_t i = s.dims.size(); i-- > 0;) { d[i] = idx % s.dims[i]; idx /= s.dims[i]; }
    return d;
}
inline u64 ipow(u64 b, u64 e) { u64 r = 1; while (e--) r *= b; return r; }
inline u64 mix(u64 x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 32); }

inline std::string json_str(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
        else r += c;
    }
    return r + "\"";
}

void register_spaces();   // provided by each harness

// cases which are listed as known findings (by the driver, "space/index" separated by commas)
inline bool known(const std::string& where)
{
    static const std::string list = std::string(",") + (getenv("MC_KNOWN") ? getenv("MC_KNOWN") : "") + ",";
    return list.find("," + where + ",") != std::string::npos;
}

// 0: all fine; 10: violation found (described on stdout)
inline int run_case(const Space& s, u64 idx)
{
    if (progress())
    {
        strncpy((char*)progress()->space, s.name.c_str(), sizeof progress()->space - 1);
        progress()->index = idx;
        beat();
    }
    try
    {
        stats().cases++;
        s.run(decode(s, idx));
        return 0;
    }
    catch (const Violation& v)
    {
        if (known(fmt("%s/%llu", s.name.c_str(), idx)))
        {
            printf("KNOWN %s/%llu %s\n", s.name.c_str(), idx, json_str(v.what).c_str());
            fflush(stdout);
            count("known_findings_which_still_fail");
            return 0;
        }
        printf("FOUND %s %llu %s\n", s.name.c_str(), idx, json_str(v.what).c_str());
    }
    catch (const std::exception& e)
    {
        printf("FOUND %s %llu %s\n", s.name.c_str(), idx, json_str(std::string("unexpected exception: ") + e.what()).c_str());
    }
    fflush(stdout);
    return 10;
}

inline int main_(int argc, char** argv)
{
    u64 shard = 0, shards = 1, replay_index = 0;
    std::string replay_space, out;
    bool list = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--shard") { shard = std::stoull(next()); shards = std::stoull(next()); }
        else if (a == "--thorough") thorough() = true;
        else if (a == "--replay") { replay_space = next(); replay_index = std::stoull(next()); verbose() = true; }
        else if (a == "--out") out = next();
        else if (a == "--list") list = true;
        else if (a == "--progress")
        {
            int fd = open(next().c_str(), O_RDWR);
            if (fd >= 0) progress() = (Progress*)mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (progress() == MAP_FAILED) progress() = nullptr;
        }
    }
    register_spaces();
    if (list) { for (auto& s : spaces()) printf("%s %llu\n", s.name.c_str(), s.size()); return 0; }
    int rc = 0;
    std::string times;
    for (auto& s : spaces())
    {
        if (!replay_space.empty())
        {
            if (s.name != replay_space) continue;
            rc = run_case(s, replay_index);
            printf(rc ? "replay: violated\n" : "replay: held\n");
            return rc;
        }
        auto t0 = std::chrono::steady_clock::now();
        u64 n = s.size(), salt = mix(std::hash<std::string>()(s.name));
        for (u64 i = 0; i < n; ++i)
        {
            if (shards > 1 && mix(i + salt) % shards != shard) continue;
            rc = run_case(s, i);
            if (rc) break;
        }
        times += fmt("%s\"%s\": %.2f", times.empty() ? "" : ", ", s.name.c_str(),
            std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
        if (rc) break;
    }
    if (!replay_space.empty()) { fprintf(stderr, "no space %s\n", replay_space.c_str()); return 2; }
    if (!out.empty())
    {
        FILE* f = fopen(out.c_str(), "w");
        if (!f) return 2;
        Stats& t = stats();
        fprintf(f, "{\"cases\": %llu, \"states\": %llu, \"transitions\": %llu, \"traces\": %llu,\n \"samples\": [", t.cases, t.states, t.transitions, t.traces);
        for (size_t i = 0; i < t.samples.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", json_str(t.samples[i]).c_str());
        fprintf(f, "],\n \"extra\": {");
        bool first = true;
        for (auto& e : t.extra) { fprintf(f, "%s%s: %llu", first ? "" : ", ", json_str(e.first).c_str(), e.second); first = false; }
        fprintf(f, "},\n \"times\": {%s}}\n", times.c_str());
        fclose(f);
    }
    return rc;
}
}
#define MC_MAIN int main(int argc, char** argv) { return mc::main_(argc, argv); }
