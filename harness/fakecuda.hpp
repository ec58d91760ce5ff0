// A stand-in for the CUDA runtime.  Kernels are compiled for this machine from the device side of the sources; device
// threads are fibers.  Everything goes through one stream: launches return at once, whatever else is asked of the
// device waits for its turn.
#pragma once
#include "endings.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <map>

namespace fakecuda
{
using mc::u64;
enum { ARGS = 32, BYTES = 512, LIMIT = 1024 };
struct Mem { size_t size; char* p; Mem* next; u64 managed; };
struct Dim { unsigned x, y, z; };
struct State
{
    u64 left, items;                        // threads of the running kernel
    Dim grid, block;
    u64 size;                               // threads per block
    u64 cooperative;
    void (*run)(void**);
    u64 args[BYTES / 8], at[ARGS], n;       // copied arguments
    u64 arrived[fib::MAXF], finished[fib::MAXF], grid_arrived, grid_finished;
    u64 last_error;
    Mem* mems;
};
inline State st;
inline u64 sequence = ~0ull;                // thread which runs if threads are not fibers
inline long fail_at = -1, calls;            // the call which fails (all later ones too, if for_good), calls so far
inline bool for_good;
inline std::string failed_call;
inline u64 total_launches, most_threads;
inline void* device;
inline bool has_shared;
inline char device_file[512];

inline void attach() { sequence = ~0ull; fib::pods.clear(); fib::pods.push_back({&st, sizeof st}); fail_at = -1; calls = 0; for_good = false; failed_call.clear(); }
inline void load(const char* path)
{
    if (device) return;
    device = dlopen(path, RTLD_NOW | RTLD_LOCAL);
    if (!device) { fprintf(stderr, "%s\n", dlerror()); exit(2); }
    snprintf(device_file, sizeof device_file, "%s", path);
    has_shared = dlsym(device, "fibcu_has_shared") != nullptr;
}
// does the operation fail?
inline bool faulty(const char* name)
{
    long k = calls++;
    if (fail_at < 0 || (for_good ? k < fail_at : k != fail_at)) return false;
    if (failed_call.empty()) failed_call = name;
    return true;
}
inline void wait() { if (fib::cur >= 0) while (st.left) fib::block(3); }

inline u64 thread() { return sequence != ~0ull ? sequence : (u64)(fib::cur - 1); }
inline u64 block() { return thread() / st.size; }
inline void arguments(void** a) { for (u64 i = 0; i < st.n; ++i) a[i] = (char*)st.args + st.at[i]; }
inline std::vector<u64> large_arrived, large_finished;      // blocks of a grid whose threads are no fibers
inline u64& arrived() { return sequence != ~0ull ? large_arrived[block()] : st.arrived[block()]; }
inline u64& finished() { return sequence != ~0ull ? large_finished[block()] : st.finished[block()]; }
inline void item_done()
{
    finished()++;
    st.grid_finished++;
    if (arrived() && fib::error.empty()) fib::error = mc::fmt("threads of block %llu wait for thread %llu which has finished", block(), thread());
    if (st.grid_arrived && fib::error.empty()) fib::error = mc::fmt("threads of the grid wait for thread %llu which has finished", thread());
}
inline void item_main(void*)
{
    static void* a[ARGS];
    arguments(a);
    st.run(a);
    item_done();
    if (--st.left == 0)
    {
        fib::racing = false;
        fib::wake(3, fib::LOCAL);
    }
}
inline void crew_item(u64 i)
{
    static void* a[ARGS];
    sequence = i;
    arguments(a);
    st.run(a);
    item_done();
}
inline void sequential_main(void*)
{
    large_arrived.assign(st.items / st.size, 0);
    large_finished.assign(st.items / st.size, 0);
    bool ok = fib::crew::run(st.items, crew_item);
    sequence = ~0ull;
    if (!ok) fib::block(98);
    st.left = 0;
    fib::racing = false;
    fib::wake(3, fib::LOCAL);
}
inline std::string kernel_name(const void* f)
{
    Dl_info d;
    char* name = nullptr;
    if (dladdr(f, &d) && d.dli_sname) name = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, nullptr);
    std::string n = name ? name : "";
    free(name);
    n = n.substr(0, n.find('('));
    if (n.empty()) { fprintf(stderr, "no name of a kernel\n"); exit(2); }
    return n;
}
inline int launch(const void* f, Dim grid, Dim blk, bool cooperative)
{
    wait();
    if (fib::cur < 0) return 719;
    if (faulty("kernel launch")) return 719;
    u64 size = (u64)blk.x * blk.y * blk.z, blocks = (u64)grid.x * grid.y * grid.z;
    if (!size || !blocks || size > 1024 || blk.x > 1024 || blk.y > 1024 || blk.z > 64 || grid.x > 0x7fffffffu || grid.y > 65535 || grid.z > 65535) return 9;
    std::string n = kernel_name(f);
    static std::map<std::string, void*> known;
    void*& run = known[n];
    if (!run) run = dlsym(device, ("fibk_" + n).c_str());
    if (!run) { fprintf(stderr, "no code for the kernel %s\n", n.c_str()); exit(2); }
    st.run = (void (*)(void**))run;
    st.items = size * blocks;
    st.size = size;
    st.grid = grid;
    st.block = blk;
    st.cooperative = cooperative;
    st.grid_arrived = st.grid_finished = 0;
    memset(st.arrived, 0, sizeof st.arrived);
    memset(st.finished, 0, sizeof st.finished);
    if (has_shared && blocks > 1) { fprintf(stderr, "memory shared by a block isn't supported by this check if there are several blocks\n"); exit(2); }
    total_launches++;
    if (st.items > most_threads) most_threads = st.items;
    if (fib::linear && st.items > (u64)fib::MAXF - 1)
    {
        st.left = 1;
        fib::spawn(1, sequential_main, nullptr);
        return 0;
    }
    if (st.items > (u64)fib::MAXF - 1) { fprintf(stderr, "too many threads for this check: %llu\n", st.items); exit(2); }
    st.left = st.items;
    for (u64 i = 0; i < st.items; ++i) fib::spawn((int)i + 1, item_main, nullptr);
    fib::racing = true;
    return 0;
}
inline void rest(u64 object)
{
    if (sequence == ~0ull) { fib::block(object); return; }
    u64 t = sequence;
    fib::crew::wait_for(object);
    sequence = t;
}
inline void wake(u64 object)
{
    if (sequence == ~0ull) fib::wake(object, fib::LOCAL);
    else fib::crew::wake(object);
}
inline void sync_block()
{
    u64 b = block();
    if (finished() && fib::error.empty()) fib::error = mc::fmt("thread %llu waits for others of its block which have finished", thread());
    if (++arrived() == st.size) { arrived() = 0; wake(100 + b); return; }
    rest(100 + b);
}
inline void sync_grid()
{
    if (!st.cooperative && fib::error.empty()) fib::error = "threads wait for the whole grid, but it isn't launched so that all blocks run together";
    if (st.grid_finished && fib::error.empty()) fib::error = mc::fmt("thread %llu waits for others which have finished", thread());
    if (++st.grid_arrived == st.items) { st.grid_arrived = 0; wake(99); return; }
    rest(99);
}
inline Mem* find(const void* a, size_t n)
{
    for (Mem* b = st.mems; b; b = b->next) if ((const char*)a >= b->p && (const char*)a + n <= b->p + b->size) return b;
    return nullptr;
}
inline bool touches(const void* a, size_t n)
{
    for (Mem* b = st.mems; b; b = b->next) if ((const char*)a < b->p + b->size && (const char*)a + n > b->p) return true;
    return false;
}
inline void guard(const void* a, size_t n, bool write)
{
    if (fib::cur < 0) return;
    if (fib::stack_of(a) == fib::cur) return;
    if (fib::cur == 0)
    {
        Mem* b = st.mems;
        while (b && !((const char*)a < b->p + b->size && (const char*)a + n > b->p)) b = b->next;
        if (!b) return;
        if (!b->managed && fib::error.empty()) fib::error = "the host accesses memory of the device";
        if (st.left && fib::error.empty()) fib::error = "the host accesses memory while the device uses it";
        return;
    }
    if (find(a, n)) return;
    static std::map<u64, int> known;         // variables and constants of the device's code
    u64 page = (u64)a >> 12;
    auto it = known.find(page);
    if (it == known.end())
    {
        Dl_info d;
        int k = dladdr(a, &d) == 0 ? 0 : !strcmp(d.dli_fname, device_file) ? 2 : 1;
        it = known.emplace(page, k).first;
    }
    if (it->second < 1 + (write ? 1 : 0) && fib::error.empty())
        fib::error = mc::fmt("thread %llu of %llu %s %zu bytes outside of all device memory", thread(), st.items, write ? "writes" : "reads", n);
}
inline int remember(int e) { if (e) st.last_error = e; return e; }
inline int copy(void* d, const void* s, size_t n, int kind)
{
    wait();
    bool dd = kind == 1 || kind == 3, sd = kind == 2 || kind == 3;
    if (kind == 4) { dd = touches(d, n); sd = touches(s, n); }
    if (kind < 0 || kind > 4) return 21;
    if (!n) return 0;
    if (dd ? !find(d, n) : touches(d, n)) return 1;
    if (sd ? !find(s, n) : touches(s, n)) return 1;
    // the memory of the device is invisible to the guard for the host
    if (dd && sd) memmove(d, s, n);
    else if (dd) memcpy(d, s, n);
    else if (sd)
    {
        auto g = fib::guard;
        fib::guard = nullptr;
        fib_memmove(d, s, n);
        fib::guard = g;
    }
    else fib_memmove(d, s, n);
    return 0;
}
}

extern "C"
{
#define FCU __attribute__((used))
typedef void* fcu_stream;
struct FcuIdx { unsigned x, y, z; };
static int take(const void* f, fakecuda::Dim grid, fakecuda::Dim block, void** args, const size_t* sizes, int n, bool together)
{
    fakecuda::wait();
    fakecuda::st.n = n;
    memset(fakecuda::st.args, 0, sizeof fakecuda::st.args);
    size_t off = 0;
    for (int i = 0; i < n; ++i)
    {
        fakecuda::st.at[i] = off;
        if (n > fakecuda::ARGS || off + sizes[i] > fakecuda::BYTES) { fprintf(stderr, "too many arguments for this check\n"); exit(2); }
        memcpy((char*)fakecuda::st.args + off, args[i], sizes[i]);
        off += (sizes[i] + 7) / 8 * 8;
    }
    return fakecuda::remember(fakecuda::launch(f, grid, block, together));
}
FCU int fibcu_launch(const void* f, fakecuda::Dim grid, fakecuda::Dim block, void** args, const size_t* sizes, int n) { return take(f, grid, block, args, sizes, n, false); }
static int fcu_launch(const void* f, fakecuda::Dim grid, fakecuda::Dim block, void** args, bool together)
{
    fakecuda::wait();
    std::string n = fakecuda::kernel_name(f);
    const int* count = (const int*)dlsym(fakecuda::device, ("fibn_" + n).c_str());
    const size_t* const* sizes = (const size_t* const*)dlsym(fakecuda::device, ("fibs_" + n).c_str());
    if (!count || *count > fakecuda::ARGS) { fprintf(stderr, "no code for the kernel %s\n", n.c_str()); exit(2); }
    return take(f, grid, block, args, *sizes, *count, together);
}
FCU int cudaLaunchKernel(const void* f, fakecuda::Dim grid, fakecuda::Dim block, void** args, size_t, fcu_stream) { return fcu_launch(f, grid, block, args, false); }
FCU int cudaLaunchCooperativeKernel(const void* f, fakecuda::Dim grid, fakecuda::Dim block, void** args, size_t, fcu_stream) { return fcu_launch(f, grid, block, args, true); }
static int fcu_malloc(void** p, size_t n, bool managed)
{
    if (fakecuda::faulty("allocation")) return fakecuda::remember(2);
    if (!n) { *p = nullptr; return 0; }
    fakecuda::Mem* b = (fakecuda::Mem*)fib::allocate(sizeof(fakecuda::Mem));
    b->size = n;
    b->p = (char*)fib::allocate(n);
    b->managed = managed;
    b->next = fakecuda::st.mems;
    memset(b->p, 0xA5, n);
    fakecuda::st.mems = b;
    *p = b->p;
    return 0;
}
FCU int cudaMalloc(void** p, size_t n) { return fcu_malloc(p, n, false); }
FCU int cudaMallocManaged_(void** p, size_t n) { return fcu_malloc(p, n, true); }
FCU int cudaFree(void* p)
{
    fakecuda::wait();
    if (fakecuda::faulty("release")) return fakecuda::remember(719);
    if (!p) return 0;
    fakecuda::Mem** l = &fakecuda::st.mems;
    while (*l && (*l)->p != p) l = &(*l)->next;
    if (!*l) return fakecuda::remember(17);
    fakecuda::Mem* b = *l;
    *l = b->next;
    fib::release(b->p);
    fib::release(b);
    return 0;
}
FCU int cudaMemcpy(void* d, const void* s, size_t n, int kind) { fakecuda::wait(); if (fakecuda::faulty("copy")) return fakecuda::remember(719); return fakecuda::remember(fakecuda::copy(d, s, n, kind)); }
FCU int cudaMemcpyAsync(void* d, const void* s, size_t n, int kind, fcu_stream) { return cudaMemcpy(d, s, n, kind); }
FCU int cudaMemset(void* d, int v, size_t n)
{
    fakecuda::wait();
    if (fakecuda::faulty("fill")) return fakecuda::remember(719);
    if (!fakecuda::find(d, n)) return fakecuda::remember(1);
    memset(d, v, n);
    return 0;
}
FCU int cudaMemsetAsync(void* d, int v, size_t n, fcu_stream) { return cudaMemset(d, v, n); }
FCU int cudaDeviceSynchronize() { fakecuda::wait(); if (fakecuda::faulty("synchronization")) return fakecuda::remember(719); return 0; }
FCU int cudaThreadSynchronize() { return cudaDeviceSynchronize(); }
FCU int cudaStreamSynchronize(fcu_stream) { return cudaDeviceSynchronize(); }
FCU int cudaGetLastError() { int e = (int)fakecuda::st.last_error; fakecuda::st.last_error = 0; return e; }
FCU int cudaPeekAtLastError() { return (int)fakecuda::st.last_error; }
FCU const char* cudaGetErrorString(int e) { return e ? "failure" : "no error"; }
FCU const char* cudaGetErrorName(int e) { return e ? "failure" : "no error"; }
FCU int cudaGetDeviceCount(int* n) { *n = 1; return 0; }
FCU int cudaGetDevice(int* n) { *n = 0; return 0; }
FCU int cudaSetDevice(int n) { return n ? 101 : 0; }
FCU int cudaDeviceReset() { fakecuda::wait(); return 0; }

// ---- what device code asks for ----
FCU FcuIdx fibcu_thread() { mc::u64 t = fakecuda::thread() % fakecuda::st.size; return {(unsigned)(t % fakecuda::st.block.x), (unsigned)(t / fakecuda::st.block.x % fakecuda::st.block.y), (unsigned)(t / fakecuda::st.block.x / fakecuda::st.block.y)}; }
FCU FcuIdx fibcu_block() { mc::u64 t = fakecuda::block(); return {(unsigned)(t % fakecuda::st.grid.x), (unsigned)(t / fakecuda::st.grid.x % fakecuda::st.grid.y), (unsigned)(t / fakecuda::st.grid.x / fakecuda::st.grid.y)}; }
FCU FcuIdx fibcu_block_dim() { return {fakecuda::st.block.x, fakecuda::st.block.y, fakecuda::st.block.z}; }
FCU FcuIdx fibcu_grid_dim() { return {fakecuda::st.grid.x, fakecuda::st.grid.y, fakecuda::st.grid.z}; }
FCU void fibcu_sync_block() { fakecuda::sync_block(); }
FCU void fibcu_sync_grid() { fakecuda::sync_grid(); }
FCU void fibcu_step(const void* p, size_t n) { fib::access(p, n, true, true); }
}
