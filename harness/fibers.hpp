// Explicit-state model checking of real, multi-threaded code.
//
// The code under test is compiled with -fsanitize=thread and linked against the callbacks below instead of libtsan.
// Its threads are fibers of one process.  A fiber is stopped before every access to memory which another fiber
// accesses too, one of the two writing ("shared"); everything between two stops is private to the fiber.  Which
// 8-byte granules are shared is found out while exploring: as soon as another one shows up, the exploration of the
// problem starts over.  A state is the used part of all stacks, everything written outside of the stacks, and the state
// of the runtime; states met before are not explored again.  All choices at all states are tried.
#pragma once
#include "mc.hpp"

#include <functional>
#include <string>
#include <sys/mman.h>
#include <unordered_map>
#include <vector>

namespace fib
{
using mc::u64;
#ifndef FIB_STACK
#define FIB_STACK (1 << 16)
#endif
enum { MAXF = 16, STACK = FIB_STACK, ARENA = 1 << 17, UNIT = 64 };
enum Status { UNUSED, LOCAL, READY, BLOCKED, DONE };

struct Fiber
{
    void* sp = nullptr;
    int status = UNUSED;
    u64 waits = 0;
    void (*fn)(void*) = nullptr;
    void* arg = nullptr;
};
struct Machine { Fiber f[MAXF]; unsigned char used[ARENA / UNIT]; unsigned short len[ARENA / UNIT]; };

inline Machine m;
inline char* stacks;                 // MAXF stacks with a guard page below each
inline char* arena;
inline int cur = -1;                 // running fiber, -1: the explorer
inline void* explorer_sp;
inline bool racing = false;          // more than one fiber alive: accesses are observed
inline std::string error;            // found while a fiber was running
static const char* const TOO_LARGE = "too many threads wait for each other";      // given up, not an error of the code
inline bool grown = false;
inline bool linear = false;          // one schedule only, nothing is undone: memory comes from the heap
inline size_t high;                  // units of the arena used so far
inline void (*guard)(const void*, size_t, bool);   // judges accesses
inline unsigned private_steps;       // accesses since the fiber was resumed
struct Pod { void* p; size_t n; };
inline std::vector<Pod> pods;        // further parts of the runtime's state

inline char* stack_top(int f) { return stacks + (size_t)(f + 1) * (STACK + 4096); }
inline const char* crew_low, * crew_high;      // stack of the running member of a crew
inline int stack_of(const void* a)   // fiber whose stack holds the address
{
    if ((const char*)a >= crew_low && (const char*)a < crew_high) return cur;
    size_t o = (size_t)((const char*)a - stacks);
    return o < (size_t)MAXF * (STACK + 4096) ? (int)(o / (STACK + 4096)) : -1;
}

// ---- what was accessed ----
struct Granule { u64 key; unsigned readers, writers; bool shared; int dirty; };
struct Table
{
    std::vector<Granule> t;
    size_t n = 0;
    Table() : t(1024) {}
    Granule& at(u64 key)
    {
        size_t i = mc::mix(key) & (t.size() - 1);
        while (t[i].key && t[i].key != key) i = (i + 1) & (t.size() - 1);
        if (t[i].key) return t[i];
        if (2 * ++n > t.size())
        {
            std::vector<Granule> old(4 * t.size());
            old.swap(t);
            n = 0;
            for (auto& g : old) if (g.key) at(g.key) = g;
            return at(key);
        }
        t[i] = Granule{key, 0, 0, false, -1};
        return t[i];
    }
};
inline Table table;
struct Dirty { u64* p; u64 original; };
inline std::vector<Dirty> dirty;

// ---- switching ----
extern "C" void fib_switch(void** save, void* load);
asm(R"(
.text
.globl fib_switch
fib_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
)");
inline void yield_(int status, u64 waits = 0)
{
    Fiber& f = m.f[cur];
    f.status = status;
    f.waits = waits;
    fib_switch(&f.sp, explorer_sp);
}
// a visible operation of the runtime itself (taking a chunk, a lock)
inline void point() { if (cur >= 0) yield_(READY); }
inline void block(u64 object) { yield_(BLOCKED, object); }
inline void wake(u64 object, int status) { for (auto& f : m.f) if (f.status == BLOCKED && f.waits == object) f.status = status; }

inline void entry()
{
    int me = cur;
    try { m.f[me].fn(m.f[me].arg); }
    catch (const std::exception& e) { if (error.empty()) error = mc::fmt("thread %d ended with an exception: %s", me, e.what()); }
    catch (...) { if (error.empty()) error = mc::fmt("thread %d ended with an exception", me); }
    yield_(DONE);
    abort();
}
// ---- more threads than fibers, one schedule: threads run one after another, each until it ends or waits ----
namespace crew
{
enum { MOST = 8192 };
struct Member { void* sp; char* stack; u64 item, waits; bool done, ready; };
inline std::vector<char*> pool;
inline std::vector<Member*> waiting;
inline Member* me;
inline void* back;
inline void (*body)(u64);
inline u64 started;

inline void entry()
{
    body(me->item);
    me->done = true;
    fib_switch(&me->sp, back);
    abort();
}
inline void step(Member* x)
{
    me = x;
    crew_low = x->stack;
    crew_high = x->stack + STACK;
    fib_switch(&back, x->sp);
    me = nullptr;
    crew_low = crew_high = nullptr;
}
// calls fn for every item; false if that has been given up
inline bool run(u64 items, void (*fn)(u64))
{
    body = fn;
    for (auto* x : waiting) { pool.push_back(x->stack); delete x; }
    waiting.clear();
    for (u64 i = 0; i < items; ++i)
    {
        if (waiting.size() >= MOST) { if (error.empty()) error = TOO_LARGE; return false; }
        if (pool.empty())
        {
            char* s = (char*)mmap(0, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (s == (char*)MAP_FAILED) { fprintf(stderr, "no memory for a stack\n"); exit(2); }
            mprotect(s, 4096, PROT_NONE);
            pool.push_back(s + 4096);
        }
        Member* x = new Member{nullptr, pool.back(), i, 0, false, false};
        pool.pop_back();
        void** s = (void**)(x->stack + STACK - 64);
        *--s = nullptr;
        *--s = (void*)&entry;
        for (int k = 0; k < 6; ++k) *--s = nullptr;
        x->sp = s;
        step(x);
        if (x->done) { pool.push_back(x->stack); delete x; }
        else waiting.push_back(x);
        if (!error.empty()) return false;
        mc::beat();
    }
    while (!waiting.empty())
    {
        bool moved = false;
        for (size_t i = 0; i < waiting.size(); ++i)
        {
            Member* x = waiting[i];
            if (!x->ready) continue;
            x->ready = false;
            moved = true;
            step(x);
            if (!error.empty()) return false;
            mc::beat();
        }
        size_t n = 0;
        for (auto* x : waiting) if (x->done) { pool.push_back(x->stack); delete x; } else waiting[n++] = x;
        waiting.resize(n);
        if (!moved) { error = "threads wait for each other forever"; return false; }
    }
    return true;
}
inline void wait_for(u64 object) { me->waits = object; fib_switch(&me->sp, back); }
inline void wake(u64 object) { for (auto* x : waiting) if (x->waits == object) { x->waits = 0; x->ready = true; } }
}
inline void spawn(int id, void (*fn)(void*), void* arg)
{
    Fiber& f = m.f[id];
    void** s = (void**)(stack_top(id) - 64);
    *--s = nullptr;                  // return address of entry: never used; keeps the alignment
    *--s = (void*)&entry;
    for (int i = 0; i < 6; ++i) *--s = nullptr;
    f.sp = s;
    f.status = LOCAL;
    f.waits = 0;
    f.fn = fn;
    f.arg = arg;
}

// ---- accesses ----
inline void granule(u64 key, bool write, bool atomic)
{
    Granule& g = table.at(key);
    unsigned bit = 1u << cur;
    if (racing)
    {
        if (write) g.writers |= bit; else g.readers |= bit;
        unsigned all = g.readers | g.writers;
        if (!g.shared && g.writers && (all & (all - 1))) { g.shared = true; grown = true; }
    }
    if (write && g.dirty < 0 && stack_of((void*)(key << 3)) < 0 && (key << 3) - (u64)arena >= ARENA)
    {
        g.dirty = (int)dirty.size();
        dirty.push_back({(u64*)(key << 3), *(u64*)(key << 3)});
    }
}
inline bool access(const void* a, size_t n, bool write, bool atomic = false)
{
    if (cur < 0 || !n) return false;
    if (guard) guard(a, n, write);
    u64 lo = (u64)a >> 3, hi = ((u64)a + n - 1) >> 3;
    bool stop = false;
    if (!linear) for (u64 k = lo; k <= hi; ++k) { granule(k, write, atomic); if (racing && table.at(k).shared) stop = true; }
    // a fiber which does not reach any shared access for long: others may have to move
    if (++private_steps > 20000) stop = true;
    if (stop) yield_(READY);
    return stop;
}
// operations on ranges are a sequence of accesses of at most eight bytes
template <class F> inline void ranged(void* dst, size_t n, F piece)
{
    size_t i = 0;
    while (i < n)
    {
        size_t k = 8 - (((u64)dst + i) & 7);
        if (k > n - i) k = n - i;
        piece(i, k);
        i += k;
    }
}

// ---- memory allocated while fibers run ----
inline void* allocate(size_t n)
{
    if (cur < 0 || linear) return malloc(n ? n : 1);
    size_t units = (n + UNIT - 1) / UNIT;
    if (!units) units = 1;
    for (size_t i = 0; i + units <= ARENA / UNIT; ++i)
    {
        size_t k = 0;
        while (k < units && !m.used[i + k]) ++k;
        if (k < units) { i += k; continue; }
        for (k = 0; k < units; ++k) m.used[i + k] = 1;
        m.len[i] = (unsigned short)units;
        if (high < i + units) high = i + units;
        char* p = arena + i * UNIT;
        return p;
    }
    fprintf(stderr, "the arena of the explorer is too small\n");
    exit(2);
}
inline void release(void* p)
{
    if (!p) return;
    size_t o = (size_t)((char*)p - arena);
    if (o >= ARENA) { if (cur < 0 || linear) free(p); return; }   // blocks from before the exploration stay: they come back with the next state
    size_t i = o / UNIT;
    for (size_t k = 0; k < m.len[i]; ++k) m.used[i + k] = 0;
    memset(p, 0, (size_t)m.len[i] * UNIT);
    m.len[i] = 0;
}

// ---- exploration ----
inline void init()
{
    if (stacks) return;
    stacks = (char*)mmap(0, (size_t)MAXF * (STACK + 4096), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < MAXF; ++i) mprotect(stacks + (size_t)i * (STACK + 4096), 4096, PROT_NONE);
    arena = (char*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
}

typedef std::vector<char> Snap;
struct Hash { u64 a, b; bool operator==(const Hash& o) const { return a == o.a && b == o.b; } };

struct Explorer
{
    std::function<void()> body;                   // runs on fiber 0
    std::function<void()> finished;               // at every end: throws mc::Violation
    std::function<void()> each_state;             // optional, at every state
    u64 max_states = 30000000;
    int preemptions = -1;                         // at most so many times a fiber which could go on is interrupted; -1: any number
    unsigned width = MAXF;                        // number of fibers at most
    // results
    u64 states = 0, transitions = 0, skipped = 0, ends = 0, restarts = 0, merged = 0, cyclic = 0, shared_granules = 0;
    bool capped = false;

    std::vector<u64> slots_a, slots_b;
    std::vector<unsigned> slots_i;
    size_t filled = 0;
    std::vector<unsigned> edges;                  // [state * width + fiber], ~0u: not enabled; ~1u: ends
    std::vector<unsigned> parent;
    std::vector<unsigned char> by;
    std::vector<unsigned char> on_stack;

    Snap take()
    {
        Snap s;
        auto put = [&](const void* p, size_t n) { s.insert(s.end(), (const char*)p, (const char*)p + n); };
        size_t total = sizeof m + 8 + 8 * dirty.size();
        for (auto& p : pods) total += p.n;
        s.reserve(total + 4096);
        put(m.f, sizeof m.f);
        put(&racing, sizeof racing);
        put(&high, sizeof high);
        put(m.used, high);
        put(m.len, high * sizeof m.len[0]);
        put(arena, high * UNIT);
        for (auto& p : pods) put(p.p, p.n);
        u64 n = dirty.size();
        put(&n, 8);
        for (auto& d : dirty) put(d.p, 8);
        for (int i = 0; i < MAXF; ++i)
            if (m.f[i].status != UNUSED && m.f[i].status != DONE)
                put(m.f[i].sp, (size_t)(stack_top(i) - (char*)m.f[i].sp));
        return s;
    }
    void restore(const Snap& s)
    {
        const char* q = s.data();
        auto get = [&](void* p, size_t n) { memcpy(p, q, n); q += n; };
        get(m.f, sizeof m.f);
        get(&racing, sizeof racing);
        size_t h;
        get(&h, sizeof h);
        get(m.used, h);
        get(m.len, h * sizeof m.len[0]);
        get(arena, h * UNIT);
        if (h < high) { memset(m.used + h, 0, high - h); memset(m.len + h, 0, (high - h) * sizeof m.len[0]); memset(arena + h * UNIT, 0, (high - h) * UNIT); }
        for (auto& p : pods) get(p.p, p.n);
        u64 n;
        get(&n, 8);
        for (u64 i = 0; i < dirty.size(); ++i)
            if (i < n) get(dirty[i].p, 8); else *dirty[i].p = dirty[i].original;
        for (int i = 0; i < MAXF; ++i)
            if (m.f[i].status != UNUSED && m.f[i].status != DONE)
            {
                size_t k = (size_t)(stack_top(i) - (char*)m.f[i].sp);
                get(m.f[i].sp, k);
                // whatever earlier calls left below the stack pointer must not distinguish states
                memset((char*)m.f[i].sp - 1024, 0, 1024);
            }
    }
    static void stir(Hash& h, u64 v)
    {
        h.a = (h.a ^ v) * 0x9E3779B97F4A7C15ull;
        h.a ^= h.a >> 32;
        h.b = (h.b + v) * 0xC2B2AE3D27D4EB4Full;
        h.b ^= h.b >> 29;
    }
    Hash hash()
    {
        Hash h{racing ? 3u : 1u, 2};
        for (unsigned i = 0; i < width; ++i)
        {
            Fiber& f = m.f[i];
            stir(h, (u64)f.status);
            if (f.status == UNUSED || f.status == DONE) continue;
            stir(h, (u64)f.sp);
            stir(h, f.waits);
            for (u64* p = (u64*)f.sp; p < (u64*)stack_top(i); ++p) stir(h, *p);
        }
        for (auto& p : pods)
            for (size_t i = 0; i + 8 <= p.n; i += 8) stir(h, *(u64*)((char*)p.p + i));
        for (size_t i = 0; i < high; ++i)
            if (m.used[i])
            {
                stir(h, i * 65536 + m.len[i]);
                for (u64* p = (u64*)(arena + i * UNIT); p < (u64*)(arena + (i + 1) * UNIT); ++p) stir(h, *p);
            }
        for (size_t i = 0; i < dirty.size(); ++i)
            if (*dirty[i].p != dirty[i].original) { stir(h, i); stir(h, *dirty[i].p); }
        return h;
    }
    void grow()
    {
        size_t cap = slots_i.empty() ? 4096 : slots_i.size() * 2;
        std::vector<u64> a(cap), b(cap);
        std::vector<unsigned> i(cap, ~0u);
        for (size_t k = 0; k < slots_i.size(); ++k)
        {
            if (slots_i[k] == ~0u) continue;
            size_t j = slots_a[k] & (cap - 1);
            while (i[j] != ~0u) j = (j + 1) & (cap - 1);
            a[j] = slots_a[k]; b[j] = slots_b[k]; i[j] = slots_i[k];
        }
        slots_a.swap(a); slots_b.swap(b); slots_i.swap(i);
    }
    // index of the state; fresh says whether it is new
    unsigned intern(const Hash& h, bool& fresh)
    {
        if (2 * (filled + 1) > slots_i.size()) grow();
        size_t j = h.a & (slots_i.size() - 1);
        while (slots_i[j] != ~0u)
        {
            if (slots_a[j] == h.a && slots_b[j] == h.b) { fresh = false; return slots_i[j]; }
            j = (j + 1) & (slots_i.size() - 1);
        }
        slots_a[j] = h.a; slots_b[j] = h.b; slots_i[j] = (unsigned)filled;
        fresh = true;
        return (unsigned)filled++;
    }
    void resume(int f)
    {
        cur = f;
        m.f[f].status = LOCAL;
        private_steps = 0;
        fib_switch(&explorer_sp, m.f[f].sp);
        cur = -1;
    }
    // runs fibers which have nothing visible to do next
    void settle()
    {
        for (bool again = true; again && error.empty();)
        {
            again = false;
            for (int i = 0; i < MAXF; ++i) if (m.f[i].status == LOCAL) { resume(i); again = true; if (!error.empty()) return; }
        }
    }
    std::string schedule(unsigned s, int last)
    {
        std::vector<int> v;
        if (last >= 0) v.push_back(last);
        while (s != ~0u && parent[s] != ~0u) { v.push_back(by[s]); s = parent[s]; }
        std::string r;
        for (size_t i = v.size(); i > 0;)
        {
            size_t k = i;
            while (k > 0 && v[k - 1] == v[i - 1]) --k;
            r += mc::fmt("%s%d*%zu", r.empty() ? "" : " ", v[i - 1], i - k);
            i = k;
        }
        return r.size() > 700 ? r.substr(0, 700) + "..." : r;
    }
    [[noreturn]] void bad(unsigned s, int last, const std::string& what)
    {
        cleanup();
        mc::fail(what + "; schedule (thread*steps): " + schedule(s, last));
    }
    Snap first;
    void cleanup()
    {
        for (auto& d : dirty) *d.p = d.original;
        memset(&m, 0, sizeof m);
        memset(arena, 0, high * UNIT);
        high = 0;
        cur = -1;
        racing = false;
    }
    void run()
    {
        init();
        table = Table();
        for (bool again = true; again; )
        {
            // sharing found so far is kept
            dirty.clear();
            for (auto& g : table.t) g.dirty = -1;
            grown = false;
            again = !once();
            if (again) restarts++;
            cleanup();
        }
        for (auto& g : table.t) if (g.key && g.shared) shared_granules++;
    }
    bool once()
    {
        slots_a.clear(); slots_b.clear(); slots_i.clear();
        filled = 0;
        edges.clear(); parent.clear(); by.clear(); on_stack.clear();
        states = transitions = ends = merged = skipped = 0;
        capped = false;
        error.clear();
        memset(&m, 0, sizeof m);
        racing = false;
        for (auto& p : pods) memset(p.p, 0, p.n);
        bool cycle = false;
        struct Frame { Snap s; unsigned id; int next; int last, spent; };
        std::vector<Frame> st;
        // adds the present state; true if it has to be explored
        auto arrive = [&](unsigned from, int f, int spent) -> unsigned {
            bool fresh;
            Hash h = hash();
            if (preemptions >= 0) stir(h, (u64)spent * 256 + (u64)(m.f[f].status == READY ? f : 255));
            unsigned id = intern(h, fresh);
            if (!fresh) { merged++; if (on_stack[id]) cycle = true; return id; }
            states++;
            parent.push_back(from);
            by.push_back((unsigned char)f);
            on_stack.push_back(1);
            edges.resize(edges.size() + width, ~0u);
            st.push_back({take(), id, 0, f, spent});
            if (each_state) each_state();
            return id;
        };
        spawn(0, [](void* p) { (*(std::function<void()>*)p)(); }, &body);
        settle();
        if (grown) return false;
        if (!error.empty()) bad(~0u, -1, error);
        if (m.f[0].status == DONE) { ends++; end_(~0u, -1); return true; }
        arrive(~0u, 0, 0);
        while (!st.empty())
        {
            Frame& fr = st.back();
            unsigned id = fr.id;
            if (fr.next == 0)
            {
                const Fiber* f = (const Fiber*)fr.s.data();
                bool some = false;
                for (int i = 0; i < MAXF; ++i) some |= f[i].status == READY;
                if (!some)
                {
                    std::string who;
                    for (int i = 0; i < MAXF; ++i) if (f[i].status == BLOCKED) who += mc::fmt(" %d", i);
                    bad(id, -1, "deadlock: threads wait for ever:" + who);
                }
            }
            int f = fr.next;
            while (f < (int)width && ((const Fiber*)fr.s.data())[f].status != READY) ++f;
            if (f == (int)width) { on_stack[id] = 0; st.pop_back(); continue; }
            fr.next = f + 1;
            int spent = fr.spent;
            if (preemptions >= 0 && f != fr.last && ((const Fiber*)fr.s.data())[fr.last].status == READY && ++spent > preemptions) { skipped++; continue; }
            restore(fr.s);
            transitions++;
            mc::beat();
            resume(f);
            settle();
            if (grown) return false;
            if (!error.empty()) bad(id, f, error);
            if (m.f[0].status == DONE) { edges[(size_t)id * width + f] = ~1u; ends++; end_(id, f); continue; }
            unsigned to = arrive(id, f, spent);
            edges[(size_t)id * width + f] = to;
            if (states >= max_states) { capped = true; break; }
        }
        if (cycle && !capped && preemptions < 0) { cyclic++; livelock(); }
        return true;
    }
    // one schedule: the lowest (or highest) fiber which can go on moves
    void run_linear(bool highest)
    {
        init();
        table = Table();
        dirty.clear();
        error.clear();
        memset(&m, 0, sizeof m);
        racing = false;
        for (auto& p : pods) memset(p.p, 0, p.n);
        linear = true;
        spawn(0, [](void* p) { (*(std::function<void()>*)p)(); }, &body);
        for (;;)
        {
            settle();
            if (!error.empty() || m.f[0].status == DONE) break;
            int f = -1;
            for (int i = 0; i < MAXF; ++i) if (m.f[i].status == READY && (f < 0 || highest)) f = i;
            if (f < 0) { error = "deadlock"; break; }
            if (++transitions > 2000000) { error = "endless repetition"; break; }
            mc::beat();
            resume(f);
        }
        linear = false;
        std::string e = error;
        dirty.clear();
        cleanup();
        if (e == TOO_LARGE) { mc::count("large_runs_given_up_for_barriers"); return; }
        if (!e.empty()) mc::fail(e);
        ends++;
        finished();
    }
    void end_(unsigned id, int f)
    {
        try { finished(); }
        catch (const mc::Violation& v) { bad(id, f, v.what); }
    }
    // a strongly connected part in which every fiber either moves or is disabled somewhere: a fair schedule never ends
    void livelock()
    {
        size_t n = filled;
        std::vector<unsigned> num(n, 0), low(n, 0), comp(n, ~0u), tarjan;
        std::vector<std::pair<unsigned, unsigned>> call;
        unsigned counter = 0, comps = 0;
        for (unsigned root = 0; root < n; ++root)
        {
            if (num[root]) continue;
            call.push_back({root, 0});
            while (!call.empty())
            {
                unsigned v = call.back().first;
                unsigned& e = call.back().second;
                if (e == 0) { num[v] = low[v] = ++counter; tarjan.push_back(v); }
                bool down = false;
                while (e < width)
                {
                    unsigned to = edges[(size_t)v * width + e];
                    ++e;
                    if (to >= ~1u) continue;
                    if (!num[to]) { call.push_back({to, 0}); down = true; break; }
                    if (comp[to] == ~0u && num[to] < low[v]) low[v] = num[to];
                }
                if (down) continue;
                if (low[v] == num[v])
                {
                    std::vector<unsigned> part;
                    for (;;)
                    {
                        unsigned w = tarjan.back();
                        tarjan.pop_back();
                        comp[w] = comps;
                        part.push_back(w);
                        if (w == v) break;
                    }
                    unsigned steps = 0, off = 0;
                    for (unsigned w : part)
                        for (unsigned f = 0; f < width; ++f)
                        {
                            unsigned to = edges[(size_t)w * width + f];
                            if (to == ~0u) off |= 1u << f;
                            else if (to < ~1u && comp[to] == comps) steps |= 1u << f;
                        }
                    if (steps && ((steps | off) & ((1u << width) - 1)) == (1u << width) - 1)
                        bad(v, -1, mc::fmt("endless repetition: a fair schedule goes through %zu states for ever", part.size()));
                    ++comps;
                }
                unsigned lv = low[v];
                call.pop_back();
                if (!call.empty()) { unsigned u = call.back().first; if (comp[v] == ~0u && lv < low[u]) low[u] = lv; }
            }
        }
    }
};
}

// ---- callbacks of -fsanitize=thread ----
extern "C"
{
#define FIB_UNUSED __attribute__((used))
FIB_UNUSED void __tsan_init() {}
FIB_UNUSED void __tsan_func_entry(void*) {}
FIB_UNUSED void __tsan_func_exit() {}
FIB_UNUSED void __tsan_vptr_update(void** a, void*) { fib::access(a, 8, true); }
FIB_UNUSED void __tsan_vptr_read(void** a) { fib::access(a, 8, false); }
FIB_UNUSED void __tsan_read_range(void* a, unsigned long n) { fib::ranged(a, n, [&](size_t i, size_t k) { fib::access((char*)a + i, k, false); }); }
FIB_UNUSED void __tsan_write_range(void* a, unsigned long n) { fib::ranged(a, n, [&](size_t i, size_t k) { fib::access((char*)a + i, k, true); }); }
#define FIB_RW(n) \
    FIB_UNUSED void __tsan_read##n(void* a) { fib::access(a, n, false); } \
    FIB_UNUSED void __tsan_write##n(void* a) { fib::access(a, n, true); } \
    FIB_UNUSED void __tsan_unaligned_read##n(void* a) { fib::access(a, n, false); } \
    FIB_UNUSED void __tsan_unaligned_write##n(void* a) { fib::access(a, n, true); } \
    FIB_UNUSED void __tsan_volatile_read##n(void* a) { fib::access(a, n, false); } \
    FIB_UNUSED void __tsan_volatile_write##n(void* a) { fib::access(a, n, true); }
FIB_RW(1) FIB_RW(2) FIB_RW(4) FIB_RW(8) FIB_RW(16)
FIB_UNUSED void* fib_memset(void* d, int c, size_t n);
FIB_UNUSED void* fib_memcpy(void* d, const void* s, size_t n);
FIB_UNUSED void* fib_memmove(void* d, const void* s, size_t n);
FIB_UNUSED void* __tsan_memset(void* d, int c, size_t n) { return fib_memset(d, c, n); }
FIB_UNUSED void* __tsan_memcpy(void* d, const void* s, size_t n) { return fib_memcpy(d, s, n); }
FIB_UNUSED void* __tsan_memmove(void* d, const void* s, size_t n) { return fib_memmove(d, s, n); }
FIB_UNUSED void __tsan_atomic_thread_fence(int) {}
FIB_UNUSED void __tsan_atomic_signal_fence(int) {}
#define FIB_ATOMIC(bits, T) \
    FIB_UNUSED T __tsan_atomic##bits##_load(const volatile T* a, int) { fib::access((const void*)a, sizeof(T), false, true); return *a; } \
    FIB_UNUSED void __tsan_atomic##bits##_store(volatile T* a, T v, int) { fib::access((void*)a, sizeof(T), true, true); *a = v; } \
    FIB_UNUSED T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { fib::access((void*)a, sizeof(T), true, true); T r = *a; *a = v; return r; } \
    FIB_UNUSED T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { fib::access((void*)a, sizeof(T), true, true); T r = *a; *a = (T)(r + v); return r; } \
    FIB_UNUSED T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { fib::access((void*)a, sizeof(T), true, true); T r = *a; *a = (T)(r - v); return r; } \
    FIB_UNUSED T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { fib::access((void*)a, sizeof(T), true, true); T r = *a; *a = (T)(r & v); return r; } \
    FIB_UNUSED T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { fib::access((void*)a, sizeof(T), true, true); T r = *a; *a = (T)(r | v); return r; } \
    FIB_UNUSED T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { fib::access((void*)a, sizeof(T), true, true); T r = *a; *a = (T)(r ^ v); return r; } \
    FIB_UNUSED T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { fib::access((void*)a, sizeof(T), true, true); T r = *a; *a = (T)~(r & v); return r; } \
    FIB_UNUSED int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { fib::access((void*)a, sizeof(T), true, true); T r = *a; if (r == *c) { *a = v; return 1; } *c = r; return 0; } \
    FIB_UNUSED int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { fib::access((void*)a, sizeof(T), true, true); T r = *a; if (r == *c) { *a = v; return 1; } *c = r; return 0; } \
    FIB_UNUSED T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { fib::access((void*)a, sizeof(T), true, true); T r = *a; if (r == c) *a = v; return r; }
#define FIB_CALLS(bytes, bits, T) \
    FIB_UNUSED bool fib_atomic_compare_exchange_##bytes(volatile void* a, void* c, T v, int, int) { return __tsan_atomic##bits##_compare_exchange_strong((volatile T*)a, (T*)c, v, 5, 5); } \
    FIB_UNUSED T fib_atomic_load_##bytes(const volatile void* a, int) { return __tsan_atomic##bits##_load((const volatile T*)a, 5); } \
    FIB_UNUSED void fib_atomic_store_##bytes(volatile void* a, T v, int) { __tsan_atomic##bits##_store((volatile T*)a, v, 5); } \
    FIB_UNUSED T fib_atomic_exchange_##bytes(volatile void* a, T v, int) { return __tsan_atomic##bits##_exchange((volatile T*)a, v, 5); } \
    FIB_UNUSED T fib_atomic_fetch_add_##bytes(volatile void* a, T v, int) { return __tsan_atomic##bits##_fetch_add((volatile T*)a, v, 5); } \
    FIB_UNUSED T fib_atomic_fetch_sub_##bytes(volatile void* a, T v, int) { return __tsan_atomic##bits##_fetch_sub((volatile T*)a, v, 5); } \
    FIB_UNUSED T fib_atomic_fetch_and_##bytes(volatile void* a, T v, int) { return __tsan_atomic##bits##_fetch_and((volatile T*)a, v, 5); } \
    FIB_UNUSED T fib_atomic_fetch_or_##bytes(volatile void* a, T v, int) { return __tsan_atomic##bits##_fetch_or((volatile T*)a, v, 5); } \
    FIB_UNUSED T fib_atomic_fetch_xor_##bytes(volatile void* a, T v, int) { return __tsan_atomic##bits##_fetch_xor((volatile T*)a, v, 5); }
FIB_ATOMIC(8, unsigned char) FIB_ATOMIC(16, unsigned short) FIB_ATOMIC(32, unsigned) FIB_ATOMIC(64, unsigned long)
FIB_CALLS(1, 8, unsigned char) FIB_CALLS(2, 16, unsigned short) FIB_CALLS(4, 32, unsigned) FIB_CALLS(8, 64, unsigned long)

// library calls of the code under test, redirected with objcopy
FIB_UNUSED void* fib_memset(void* d, int c, size_t n)
{
    if (fib::cur < 0) return memset(d, c, n);
    fib::ranged(d, n, [&](size_t i, size_t k) { fib::access((char*)d + i, k, true); memset((char*)d + i, c, k); });
    return d;
}
static void* fib_move(void* d, const void* s, size_t n)
{
    if (fib::cur < 0) return memmove(d, s, n);
    if (n > 4096) { fib::access(s, n, false); fib::access(d, n, true); return memmove(d, s, n); }
    char tmp[4096];
    fib::ranged((void*)s, n, [&](size_t i, size_t k) { fib::access((const char*)s + i, k, false); memcpy(tmp + i, (const char*)s + i, k); });
    fib::ranged(d, n, [&](size_t i, size_t k) { fib::access((char*)d + i, k, true); memcpy((char*)d + i, tmp + i, k); });
    return d;
}
FIB_UNUSED void* fib_memcpy(void* d, const void* s, size_t n) { return fib_move(d, s, n); }
FIB_UNUSED void* fib_memmove(void* d, const void* s, size_t n) { return fib_move(d, s, n); }
FIB_UNUSED int fib_memcmp(const void* a, const void* b, size_t n)
{
    if (fib::cur >= 0) { fib::ranged((void*)a, n, [&](size_t i, size_t k) { fib::access((const char*)a + i, k, false); }); fib::ranged((void*)b, n, [&](size_t i, size_t k) { fib::access((const char*)b + i, k, false); }); }
    return memcmp(a, b, n);
}
FIB_UNUSED void* fib_new(size_t n) { return fib::allocate(n); }
FIB_UNUSED void* fib_new_array(size_t n) { return fib::allocate(n); }
FIB_UNUSED void fib_delete_array(void* p) { fib::release(p); }
FIB_UNUSED void fib_delete2_array(void* p, size_t) { fib::release(p); }
FIB_UNUSED void fib_delete(void* p) { fib::release(p); }
FIB_UNUSED void fib_delete2(void* p, size_t) { fib::release(p); }
}
