// The part of libgomp which code under test may use, on fibers.
#pragma once
#include "fibers.hpp"

namespace omp
{
using mc::u64;
struct Work { u64 ordinal, next, end, step, chunk; };
struct Per { int num, size, level, nested; u64 works, singles; Work own; short again, inside; };
struct Task { void (*fn)(void*); void* data; };
enum { TASKS = 12 };
struct State
{
    Per per[fib::MAXF];
    u64 size, left, arrived, critical[8], singles, tasks, running;
    Work work[4];
    Task task[TASKS];                // those not started yet
};
inline State st;
inline int threads = 2;              // of a team whose size is not given
inline int granted = 0;              // a runtime may start less threads than asked for; 0: all
inline Per& me() { static Per none{0, 1, 0, 0, 0, 0, {}, 0, 0}; return fib::cur < 0 ? none : st.per[fib::cur]; }

inline void attach() { fib::pods.clear(); fib::pods.push_back({&st, sizeof st}); }

// the oldest of the tasks which were not started is taken by whichever thread gets there
inline void drain()
{
    while (st.tasks)
    {
        fib::point();
        if (!st.tasks) return;
        Task t = st.task[0];
        --st.tasks;
        for (u64 i = 0; i < st.tasks; ++i) st.task[i] = st.task[i + 1];
        st.task[st.tasks] = Task{};
        ++st.running;
        ++me().inside;
        t.fn(t.data);
        --me().inside;
        fib::release(((void**)t.data)[-2]);
        if (--st.running == 0) fib::wake(3, fib::READY);
    }
}
inline void taskwait()
{
    if (me().inside) return;         // tasks of tasks are executed at once
    drain();
    while (st.running) { fib::block(3); drain(); }
}
inline void task(void (*fn)(void*), void* data, void (*copy)(void*, void*), long size, long align, bool deferred)
{
    // the argument, aligned, behind the address of its memory
    char* memory = (char*)fib::allocate((size_t)size + (size_t)align + 32);
    char* arg = (char*)(((u64)memory + 16 + (u64)align + 15) & ~(u64)((align > 16 ? align : 16) - 1));
    ((void**)arg)[-2] = memory;
    if (copy) copy(arg, data); else memcpy(arg, data, (size_t)size);
    if (!deferred || me().size < 2 || me().inside || st.tasks == TASKS)
    {
        fn(arg);
        fib::release(memory);
        return;
    }
    fib::point();
    st.task[st.tasks++] = Task{fn, arg};
    for (u64 i = 0; i < fib::MAXF; ++i) if (fib::m.f[i].status == fib::BLOCKED && fib::m.f[i].waits == 2) { st.per[i].again = 1; --st.arrived; }
    fib::wake(2, fib::READY);
}

struct Start { void (*fn)(void*); void* data; };
inline Start start;                  // constant while a team is alive
inline void worker(void* p)
{
    start.fn(start.data);
    drain();
    if (--st.left == 0) fib::wake(1, fib::LOCAL);
}
inline void barrier()
{
    if (me().size < 2) return;
    for (;;)
    {
        drain();
        if (++st.arrived == (u64)me().size)
        {
            st.arrived = 0;
            fib::wake(2, fib::LOCAL);
            return;
        }
        fib::block(2);
        if (!me().again) return;
        me().again = 0;              // only called to execute tasks
    }
}
inline void lock(u64 which)
{
    if (fib::cur < 0) return;
    fib::point();
    while (st.critical[which % 8]) fib::block(16 + which % 8);
    st.critical[which % 8] = 1;
}
// locks and names in the order of their first use
inline u64 slot(const void* p)
{
    static std::vector<const void*> known;
    for (size_t i = 0; i < known.size(); ++i) if (known[i] == p) return 2 + i % 6;
    known.push_back(p);
    return 2 + (known.size() - 1) % 6;
}
inline void unlock(u64 which)
{
    if (fib::cur < 0) return;
    st.critical[which % 8] = 0;
    fib::wake(16 + which % 8, fib::READY);
}
inline bool next(u64* lo, u64* hi)
{
    fib::point();
    Work& w = me().size < 2 ? me().own : st.work[me().works % 4];
    if (w.next >= w.end) return false;
    u64 n = (w.end - w.next + w.step - 1) / w.step;
    u64 k = w.chunk < n ? w.chunk : n;
    *lo = w.next;
    *hi = w.next + k * w.step;
    if (*hi > w.end) *hi = w.end;
    w.next += k * w.step;
    return true;
}
inline void begin(u64 lo, u64 hi, u64 step, u64 chunk)
{
    Per& p = me();
    p.works++;
    Work& w = p.size < 2 ? p.own : st.work[p.works % 4];
    if (p.size < 2 || w.ordinal != p.works) w = Work{p.works, lo, hi, step, chunk ? chunk : 1};
}
inline void parallel(void (*fn)(void*), void* data, unsigned n, const Work* work = nullptr)
{
    Per saved = me();
    if (fib::cur < 0) { fn(data); return; }
    fib::point();
    if (!n) n = (unsigned)threads;
    if (saved.nested) n = 1;
    if (granted && n > (unsigned)granted) n = (unsigned)granted;
    if (n > (unsigned)fib::MAXF - 1) n = fib::MAXF - 1;
    Per& p = me();
    p.num = 0;
    p.size = (int)n;
    p.level++;
    p.works = 0;
    if (n == 1)
    {
        if (work) p.own = *work;
        fn(data);
    }
    else
    {
        p.nested = 1;
        start = Start{fn, data};
        st.left = n - 1;
        st.size = n;
        st.arrived = 0;
        st.singles = 0;
        p.singles = 0;
        for (auto& w : st.work) w = Work{};
        if (work) { st.work[0] = *work; st.work[0].ordinal = 0; }
        for (unsigned i = 1; i < n; ++i)
        {
            st.per[i] = p;
            st.per[i].num = (int)i;
            fib::spawn((int)i, worker, nullptr);
        }
        fib::racing = true;
        fn(data);
        drain();
        if (st.left) fib::block(1);
        fib::racing = false;
        for (unsigned i = 1; i < n; ++i) fib::m.f[i] = fib::Fiber{};
        for (unsigned i = 1; i < n; ++i) st.per[i] = Per{};
        for (auto& w : st.work) w = Work{};
    }
    st.per[fib::cur] = saved;
}
}

extern "C"
{
#define OMP_F __attribute__((used))
OMP_F void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { omp::parallel(fn, data, n); }
OMP_F void GOMP_barrier() { omp::barrier(); }
OMP_F void GOMP_critical_start() { omp::lock(0); }
OMP_F void GOMP_critical_end() { omp::unlock(0); }
OMP_F void GOMP_critical_name_start(void** p) { omp::lock(omp::slot(p)); }
OMP_F void GOMP_critical_name_end(void** p) { omp::unlock(omp::slot(p)); }
OMP_F void GOMP_atomic_start() { omp::lock(1); }
OMP_F void GOMP_atomic_end() { omp::unlock(1); }
OMP_F bool GOMP_single_start()
{
    fib::point();
    omp::Per& p = omp::me();
    if (p.size < 2) return true;
    if (p.singles++ < omp::st.singles) return false;
    omp::st.singles++;
    return true;
}
OMP_F void GOMP_loop_end() { omp::barrier(); }
OMP_F void GOMP_loop_end_nowait() {}
OMP_F void GOMP_sections_end() { omp::barrier(); }
OMP_F void GOMP_sections_end_nowait() {}
OMP_F unsigned GOMP_sections_next() { omp::u64 a, b; return omp::next(&a, &b) ? (unsigned)a : 0; }
OMP_F unsigned GOMP_sections_start(unsigned n) { omp::begin(1, n + 1, 1, 1); return GOMP_sections_next(); }
#define OMP_LOOPS(kind) \
    OMP_F bool GOMP_loop_##kind##_start(long lo, long hi, long step, long chunk, long* a, long* b) \
    { omp::begin((omp::u64)lo, (omp::u64)hi, (omp::u64)step, (omp::u64)chunk); return omp::next((omp::u64*)a, (omp::u64*)b); } \
    OMP_F bool GOMP_loop_##kind##_next(long* a, long* b) { return omp::next((omp::u64*)a, (omp::u64*)b); } \
    OMP_F bool GOMP_loop_ull_##kind##_start(bool, omp::u64 lo, omp::u64 hi, omp::u64 step, omp::u64 chunk, omp::u64* a, omp::u64* b) \
    { omp::begin(lo, hi, step, chunk); return omp::next(a, b); } \
    OMP_F bool GOMP_loop_ull_##kind##_next(omp::u64* a, omp::u64* b) { return omp::next(a, b); } \
    OMP_F void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long lo, long hi, long step, long chunk, unsigned) \
    { omp::Work w{0, (omp::u64)lo, (omp::u64)hi, (omp::u64)step, (omp::u64)(chunk ? chunk : 1)}; omp::parallel(fn, data, n, &w); }
OMP_LOOPS(static) OMP_LOOPS(dynamic) OMP_LOOPS(guided) OMP_LOOPS(nonmonotonic_dynamic) OMP_LOOPS(nonmonotonic_guided)
#define OMP_RUNTIME(kind) \
    OMP_F bool GOMP_loop_##kind##_start(long lo, long hi, long step, long* a, long* b) \
    { omp::begin((omp::u64)lo, (omp::u64)hi, (omp::u64)step, 1); return omp::next((omp::u64*)a, (omp::u64*)b); } \
    OMP_F bool GOMP_loop_##kind##_next(long* a, long* b) { return omp::next((omp::u64*)a, (omp::u64*)b); } \
    OMP_F bool GOMP_loop_ull_##kind##_start(bool, omp::u64 lo, omp::u64 hi, omp::u64 step, omp::u64* a, omp::u64* b) \
    { omp::begin(lo, hi, step, 1); return omp::next(a, b); } \
    OMP_F bool GOMP_loop_ull_##kind##_next(omp::u64* a, omp::u64* b) { return omp::next(a, b); } \
    OMP_F void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long lo, long hi, long step, unsigned) \
    { omp::Work w{0, (omp::u64)lo, (omp::u64)hi, (omp::u64)step, 1}; omp::parallel(fn, data, n, &w); }
OMP_RUNTIME(runtime) OMP_RUNTIME(maybe_nonmonotonic_runtime) OMP_RUNTIME(nonmonotonic_runtime)
OMP_F void GOMP_task(void (*fn)(void*), void* data, void (*copy)(void*, void*), long size, long align, bool deferred, unsigned flags, void**, int, void*)
{
    if (flags & 8) { omp::taskwait(); deferred = false; }        // with dependences: in their order
    omp::task(fn, data, copy, size, align, deferred);
}
#define OMP_TASKLOOP(name, T, UP) \
    OMP_F void name(void (*fn)(void*), void* data, void (*copy)(void*, void*), long size, long align, unsigned flags, unsigned long, int, T lo, T hi, T step) \
    { \
        for (T i = lo; (UP) ? i < hi : i > hi; i += step) \
        { \
            ((T*)data)[0] = i; ((T*)data)[1] = i + step; \
            omp::task(fn, data, copy, size, align, true); \
        } \
        if (!(flags & (1 << 11))) omp::taskwait(); \
    }
OMP_TASKLOOP(GOMP_taskloop, long, step > 0) OMP_TASKLOOP(GOMP_taskloop_ull, omp::u64, flags & (1 << 8))
OMP_F void GOMP_taskwait() { omp::taskwait(); }
OMP_F void GOMP_taskyield() { fib::point(); }
OMP_F void GOMP_taskgroup_start() {}
OMP_F void GOMP_taskgroup_end() { omp::taskwait(); }
OMP_F bool GOMP_cancel(int, bool) { return false; }              // OMP_CANCELLATION is not set
OMP_F bool GOMP_cancellation_point(int) { return false; }
OMP_F bool GOMP_barrier_cancel() { omp::barrier(); return false; }
OMP_F bool GOMP_loop_end_cancel() { omp::barrier(); return false; }
OMP_F bool GOMP_sections_end_cancel() { omp::barrier(); return false; }
OMP_F int omp_test_lock(void* l)
{
    if (fib::cur < 0) return 1;
    fib::point();
    auto& held = omp::st.critical[omp::slot(l) % 8];
    if (held) return 0;
    return (int)(held = 1);
}
OMP_F int omp_get_num_threads() { return omp::me().size > 0 ? omp::me().size : 1; }
OMP_F int omp_get_thread_num() { return omp::me().num; }
OMP_F int omp_get_max_threads() { return omp::threads; }
OMP_F int omp_get_num_procs() { return omp::threads; }
OMP_F int omp_get_thread_limit() { return 1 << 20; }
OMP_F int omp_in_parallel() { return omp::me().nested; }
OMP_F int omp_get_level() { return omp::me().level; }
OMP_F int omp_get_active_level() { return omp::me().nested; }
OMP_F int omp_get_dynamic() { return 0; }
OMP_F void omp_set_dynamic(int) {}
OMP_F int omp_get_nested() { return 0; }
OMP_F void omp_set_nested(int) {}
OMP_F int omp_get_max_active_levels() { return 1; }
OMP_F void omp_set_max_active_levels(int) {}
OMP_F void omp_set_num_threads(int) {}          // the number of threads is what is enumerated
OMP_F double omp_get_wtime() { return 0; }
OMP_F double omp_get_wtick() { return 1; }
OMP_F void omp_init_lock(void* l) { *(int*)l = 0; }
OMP_F void omp_destroy_lock(void*) {}
OMP_F void omp_set_lock(void* l) { omp::lock(omp::slot(l)); }
OMP_F void omp_unset_lock(void* l) { omp::unlock(omp::slot(l)); }
}
