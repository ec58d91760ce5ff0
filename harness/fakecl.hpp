// A stand-in for an OpenCL 1.2 implementation.  Programs are compiled by clang for this machine when the code under
// test builds them; work items are fibers; commands of a queue run in order, different queues are independent.
#pragma once
#include <CL/cl.h>
#include "fibers.hpp"

#include <dlfcn.h>
#include <fstream>
#include <sstream>
#include <unistd.h>

namespace fakecl
{
using mc::u64;
struct Context { int refs; };
struct Device { int refs; };
struct Queue { int refs; };
struct Mem { int refs; size_t size; char* p; bool mine; Mem* next; };
struct Kernel;
struct Compiled { void* so; std::map<std::string, std::vector<std::string>> kernels; std::string log; bool ok; };
struct Program { int refs; Compiled* code; const std::string* source; };
enum { ARGS = 32 };
struct Kernel { int refs; void (*run)(void**); int n; unsigned char ptr[ARGS], set[ARGS]; u64 value[ARGS]; size_t local[ARGS]; size_t size[ARGS]; };

inline Context the_context;
inline Device the_device;
inline cl_platform_id the_platform = (cl_platform_id)0x10;
inline cl_event the_event = (cl_event)0x20;
inline std::string source_dir, scratch;     // where relative includes start; where programs are compiled
inline bool keep;                           // compiled programs stay there for other processes

// state of the device, part of the explored state
struct State
{
    Queue* queue;                           // which one is running a kernel
    u64 left, local, items;
    void (*run)(void**);
    u64 args[ARGS];
    u64 arrived[fib::MAXF], finished[fib::MAXF];   // per group
    Mem* mems;                              // buffers created while exploring
};
inline State st;
inline Mem* outer_mems;                     // buffers created before
inline u64 configured_local = 0;            // size of groups if the host leaves the choice; 0: all items together
inline bool groups_matter = false;          // something which depends on the size of groups was asked for
inline u64 total_launches;
inline long fail_at = -1, calls;            // the call which fails (all later ones too, if for_good), calls so far
inline bool for_good;
inline std::string failed_call;
inline bool faulty(const char* name)
{
    long k = calls++;
    if (fail_at < 0 || (for_good ? k < fail_at : k != fail_at)) return false;
    if (failed_call.empty()) failed_call = name;
    return true;
}
// forgets everything created outside of explorations
inline void reset()
{
    while (outer_mems) { Mem* b = outer_mems; outer_mems = b->next; free(b->p); free(b); }
}
inline void attach() { fib::pods.clear(); fib::pods.push_back({&st, sizeof st}); }

inline std::string command(const std::string& c)
{
    std::string r;
    FILE* f = popen((c + " 2>&1").c_str(), "r");
    if (!f) return "cannot run";
    char b[4096];
    while (size_t k = fread(b, 1, sizeof b, f)) r.append(b, k);
    if (pclose(f) == 0) return "";
    return r.empty() ? "failed" : r;
}
inline Compiled* compile(const std::string& source, const std::string& options)
{
    static std::map<std::string, Compiled*> cache;
    Compiled*& c = cache[options + "\n" + source];
    if (c) return c;
    c = new Compiled{nullptr, {}, "", false};
    static int number = 0;
    std::string base = scratch + mc::fmt("/cl%d_%d", (int)getpid(), number++);
    const std::string kept = scratch + mc::fmt("/kept%llx", (u64)std::hash<std::string>()(options + "\n" + source));
    if (keep)
    {
        std::ifstream f(kept + ".kinds");
        std::string name;
        for (size_t n; f >> name >> n;)
        {
            std::vector<std::string>& kinds = c->kernels[name];
            for (std::string k; n && f >> k; --n) kinds.push_back(k);
        }
        if (f.eof() && (c->so = dlopen((kept + ".so").c_str(), RTLD_NOW | RTLD_LOCAL))) { c->ok = true; return c; }
        c->kernels.clear();
    }
    { std::ofstream f(base + ".cl"); f << source; }
    std::string cl = "cd '" + source_dir + "' && clang -x cl " + options + " -Xclang -finclude-default-header -target x86_64-unknown-linux-gnu -fPIC -O1 -w -fgnu89-inline -Wno-error ";
    c->log = command(cl + "-S -emit-llvm -o " + base + ".ll " + base + ".cl");
    if (c->log.empty()) c->log = command(cl + "-fsanitize=thread -c -o " + base + ".o " + base + ".cl");
    if (c->log.empty())
    {
        std::ifstream f(base + ".ll");
        std::string line, w;
        while (std::getline(f, line))
        {
            if (line.compare(0, 7, "define ") || line.find(" spir_kernel ") == std::string::npos) continue;
            size_t a = line.find('@'), b = line.find('(', a);
            std::string name = line.substr(a + 1, b - a - 1), types, call;
            std::vector<std::string> kinds;
            int depth = 1;
            std::string part;
            auto flush = [&] {
                std::istringstream is(part);
                std::string t;
                is >> t;
                if (!t.empty()) kinds.push_back(t);
                part.clear();
            };
            for (size_t i = b + 1; i < line.size() && depth; ++i)
            {
                if (line[i] == '(') ++depth;
                if (line[i] == ')' && --depth == 0) break;
                if (line[i] == ',' && depth == 1) { flush(); continue; }
                part += line[i];
            }
            flush();
            for (size_t i = 0; i < kinds.size(); ++i)
            {
                std::string& k = kinds[i];
                std::string ct = k == "ptr" ? "void*" : k == "i64" ? "unsigned long" : k == "i32" ? "unsigned" : k == "i16" ? "unsigned short" : k == "i8" ? "unsigned char" : k == "float" ? "float" : k == "double" ? "double" : "";
                if (ct.empty()) c->log = "argument type not supported by this check: " + k;
                types += (i ? ", " : "") + ct;
                call += (i ? ", " : "") + ("*(" + ct + "*)a[" + std::to_string(i) + "]");
            }
            c->kernels[name] = kinds;
            w += "extern void " + name + "(" + types + ");\nvoid fibk_" + name + "(void** a) { " + name + "(" + call + "); }\n";
        }
        std::ofstream(base + ".c") << w;
    }
    if (c->log.empty()) c->log = command("clang -w -O1 -fPIC -c -o " + base + "w.o " + base + ".c && clang -shared -o " + base + ".so " + base + ".o " + base + "w.o");
    if (c->log.empty())
    {
        c->so = dlopen((base + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!c->so)
        {
            // built-in functions of the language have mangled names: anything else is declared by the program and defined nowhere
            std::string e = dlerror() ?: "", u = "undefined symbol: ";
            size_t at = e.find(u);
            if (at == std::string::npos || e.compare(at + u.size(), 1, "_") == 0) { fprintf(stderr, "the stand-in lacks something: %s\n", e.c_str()); exit(2); }
            c->log = e.substr(at);
        }
        if (c->so && keep)
        {
            { std::ofstream f(base + ".kinds"); for (auto& k : c->kernels) { f << k.first << " " << k.second.size(); for (auto& x : k.second) f << " " << x; f << "\n"; } }
            rename((base + ".kinds").c_str(), (kept + ".kinds").c_str());
            rename((base + ".so").c_str(), (kept + ".so").c_str());
        }
    }
    for (const char* e : {".cl", ".ll", ".o", ".c", "w.o", ".so"}) unlink((base + e).c_str());
    c->ok = c->log.empty();
    return c;
}
// the host waits until earlier commands of the queue are done
inline void wait(Queue* q)
{
    if (fib::cur >= 0) while (st.left && st.queue == q) fib::block(3);
}
inline void wait_all() { if (fib::cur >= 0) while (st.left) fib::block(3); }

struct Item { u64 id; };
inline u64 sequence = ~0ull;                // work item of a large range, which run one after another
inline int item() { return sequence != ~0ull ? (int)sequence : fib::cur - 1; }
inline u64 group() { return (u64)item() / st.local; }
inline std::vector<u64> large_arrived, large_finished;      // groups of a range whose items are no fibers
inline u64& arrived() { return sequence != ~0ull ? large_arrived[group()] : st.arrived[group()]; }
inline u64& finished() { return sequence != ~0ull ? large_finished[group()] : st.finished[group()]; }
inline void run_item()
{
    static void* a[ARGS];                    // read before the kernel starts
    for (int i = 0; i < ARGS; ++i) a[i] = &st.args[i];
    st.run(a);
    finished()++;
    if (arrived() && fib::error.empty())
        fib::error = mc::fmt("work items of group %llu wait at a barrier which item %d never reaches", group(), item());
}
inline void item_main(void*)
{
    run_item();
    if (--st.left == 0)
    {
        fib::racing = false;
        fib::wake(3, fib::LOCAL);
    }
}
// ranges with more items than fibers: one after another, in whole runs only
inline void crew_item(u64 i) { sequence = i; run_item(); }
inline void sequential_main(void*)
{
    large_arrived.assign(st.items / st.local, 0);
    large_finished.assign(st.items / st.local, 0);
    bool ok = fib::crew::run(st.items, crew_item);
    sequence = ~0ull;
    if (!ok) fib::block(98);
    st.left = 0;
    fib::racing = false;
    fib::wake(3, fib::LOCAL);
}
inline void barrier_()
{
    groups_matter = true;
    u64 g = group(), t = sequence;
    if (finished() && fib::error.empty())
        fib::error = mc::fmt("work item %d waits at a barrier which others of its group never reach", item());
    if (++arrived() == st.local)
    {
        arrived() = 0;
        if (t == ~0ull) fib::wake(100 + g, fib::LOCAL);
        else fib::crew::wake(100 + g);
        return;
    }
    if (t == ~0ull) { fib::block(100 + g); return; }
    fib::crew::wait_for(100 + g);
    sequence = t;
}
inline int launch(Queue* q, Kernel* k, u64 items, u64 local)
{
    sequence = ~0ull;
    wait_all();                              // one kernel at a time; only later commands of other queues overlap with it
    if (fib::cur < 0) return CL_INVALID_OPERATION;   // kernels are only started while exploring
    for (int i = 0; i < k->n; ++i) if (!k->set[i]) return CL_INVALID_KERNEL_ARGS;
    if (!items) return CL_INVALID_GLOBAL_WORK_SIZE;
    if (local && (items % local || local > items)) return CL_INVALID_WORK_GROUP_SIZE;
    const bool sequential = items > (u64)fib::MAXF - 1;
    if (sequential && !fib::linear) { fprintf(stderr, "too many work items for this check\n"); exit(2); }
    if (!local) local = configured_local && items % configured_local == 0 ? configured_local : items;
    st.queue = q;
    st.left = st.items = items;
    st.local = local;
    st.run = k->run;
    total_launches++;
    memset(st.arrived, 0, sizeof st.arrived);
    memset(st.finished, 0, sizeof st.finished);
    for (int i = 0; i < ARGS; ++i)
        st.args[i] = i < k->n ? (k->ptr[i] && k->value[i] ? (u64)((Mem*)k->value[i])->p : k->value[i]) : 0;
    if (sequential) fib::spawn(1, sequential_main, nullptr);
    else for (u64 i = 0; i < items; ++i) fib::spawn((int)i + 1, item_main, nullptr);
    fib::racing = true;
    return CL_SUCCESS;
}
// device memory is only accessible inside of buffers
inline bool within(const void* a, size_t n)
{
    for (Mem* lists : {st.mems, outer_mems})
        for (Mem* b = lists; b; b = b->next)
            if ((const char*)a >= b->p && (const char*)a + n <= b->p + b->size) return true;
    return false;
}
inline void guard(const void* a, size_t n, bool write)
{
    if (fib::cur <= 0) return;
    if (fib::stack_of(a) == fib::cur || within(a, n)) return;
    static std::map<u64, bool> known;        // constants of the compiled program
    u64 page = (u64)a >> 12;
    auto it = known.find(page);
    if (it == known.end())
    {
        Dl_info d;
        it = known.emplace(page, dladdr(a, &d) != 0 && !write).first;
    }
    if (!it->second && fib::error.empty())
        fib::error = mc::fmt("work item %d of %llu %s %zu bytes outside of all buffers", item(), st.items, write ? "writes" : "reads", n);
}
template <class T> inline T* object()
{
    T* p = (T*)fib::allocate(sizeof(T));
    memset(p, 0, sizeof(T));
    p->refs = 1;
    return p;
}
inline int give(const void* v, size_t n, size_t size, void* out, size_t* ret)
{
    if (ret) *ret = n;
    if (out) { if (size < n) return CL_INVALID_VALUE; memcpy(out, v, n); }
    return CL_SUCCESS;
}
inline int give_text(const char* s, size_t size, void* out, size_t* ret) { return give(s, strlen(s) + 1, size, out, ret); }
// the host copies from or to the device
inline void copy(void* d, const void* s, size_t n) { fib_memmove(d, s, n); }
}

extern "C"
{
#define FCL __attribute__((used))
using namespace fakecl;
FCL cl_int clGetPlatformIDs(cl_uint n, cl_platform_id* p, cl_uint* k) { if (faulty("clGetPlatformIDs")) { if (k) *k = 0; return CL_OUT_OF_HOST_MEMORY; } if (p && n) p[0] = the_platform; if (k) *k = 1; return CL_SUCCESS; }
FCL cl_int clGetPlatformInfo(cl_platform_id, cl_platform_info i, size_t size, void* out, size_t* ret)
{
    return give_text(i == CL_PLATFORM_VERSION ? "OpenCL 1.2 explorer" : i == CL_PLATFORM_PROFILE ? "FULL_PROFILE" : i == CL_PLATFORM_EXTENSIONS ? "" : "explorer", size, out, ret);
}
FCL cl_int clGetDeviceIDs(cl_platform_id, cl_device_type t, cl_uint n, cl_device_id* d, cl_uint* k)
{ if (faulty("clGetDeviceIDs")) { if (k) *k = 0; return CL_DEVICE_NOT_AVAILABLE; }
    (void)t;
    if (d && n) d[0] = (cl_device_id)&the_device;
    if (k) *k = 1;
    return CL_SUCCESS;
}
FCL cl_int clGetDeviceInfo(cl_device_id, cl_device_info i, size_t size, void* out, size_t* ret)
{
    switch (i)
    {
        case CL_DEVICE_NAME: case CL_DEVICE_VENDOR: return give_text("explorer", size, out, ret);
        case CL_DEVICE_VERSION: return give_text("OpenCL 1.2 explorer", size, out, ret);
        case CL_DRIVER_VERSION: return give_text("1.2", size, out, ret);
        case CL_DEVICE_PROFILE: return give_text("FULL_PROFILE", size, out, ret);
        case CL_DEVICE_OPENCL_C_VERSION: return give_text("OpenCL C 1.2", size, out, ret);
        case CL_DEVICE_EXTENSIONS: return give_text("", size, out, ret);
        case CL_DEVICE_TYPE: { cl_device_type t = CL_DEVICE_TYPE_GPU; return give(&t, sizeof t, size, out, ret); }
        case CL_DEVICE_PLATFORM: return give(&the_platform, sizeof the_platform, size, out, ret);
        case CL_DEVICE_MAX_WORK_GROUP_SIZE: { size_t v = 256; return give(&v, sizeof v, size, out, ret); }
        case CL_DEVICE_MAX_COMPUTE_UNITS: { cl_uint v = 4; return give(&v, sizeof v, size, out, ret); }
        case CL_DEVICE_AVAILABLE: case CL_DEVICE_COMPILER_AVAILABLE: { cl_bool v = 1; return give(&v, sizeof v, size, out, ret); }
        case CL_DEVICE_GLOBAL_MEM_SIZE: case CL_DEVICE_MAX_MEM_ALLOC_SIZE: { cl_ulong v = 1 << 20; return give(&v, sizeof v, size, out, ret); }
        default: { if (ret) *ret = size ? size : 8; if (out) memset(out, 0, size); return CL_SUCCESS; }
    }
}
FCL cl_int clRetainDevice(cl_device_id) { return CL_SUCCESS; }
FCL cl_int clReleaseDevice(cl_device_id) { return CL_SUCCESS; }
FCL cl_context clCreateContext(const cl_context_properties*, cl_uint, const cl_device_id*, void (CL_CALLBACK*)(const char*, const void*, size_t, void*), void*, cl_int* e)
{ if (faulty("clCreateContext")) { if (e) *e = CL_DEVICE_NOT_AVAILABLE; return nullptr; } if (e) *e = CL_SUCCESS; return (cl_context)&the_context; }
FCL cl_int clRetainContext(cl_context) { return CL_SUCCESS; }
FCL cl_int clReleaseContext(cl_context) { return CL_SUCCESS; }
FCL cl_int clGetContextInfo(cl_context, cl_context_info i, size_t size, void* out, size_t* ret)
{
    if (i == CL_CONTEXT_NUM_DEVICES) { cl_uint n = 1; return give(&n, sizeof n, size, out, ret); }
    if (i == CL_CONTEXT_DEVICES) { void* d = &the_device; return give(&d, sizeof d, size, out, ret); }
    cl_uint one = 1;
    return give(&one, sizeof one, size, out, ret);
}
FCL cl_command_queue clCreateCommandQueue(cl_context, cl_device_id, cl_command_queue_properties, cl_int* e)
{ if (faulty("clCreateCommandQueue")) { if (e) *e = CL_OUT_OF_RESOURCES; return nullptr; } if (e) *e = CL_SUCCESS; return (cl_command_queue)object<Queue>(); }
FCL cl_command_queue clCreateCommandQueueWithProperties(cl_context c, cl_device_id d, const cl_queue_properties*, cl_int* e) { return clCreateCommandQueue(c, d, 0, e); }
FCL cl_int clSetKernelArgSVMPointer(cl_kernel, cl_uint, const void*) { return CL_INVALID_OPERATION; }
FCL cl_int clRetainCommandQueue(cl_command_queue q) { ((Queue*)q)->refs++; return CL_SUCCESS; }
FCL cl_int clReleaseCommandQueue(cl_command_queue q)
{
    Queue* p = (Queue*)q;
    if (--p->refs > 0) return CL_SUCCESS;
    wait(p);
    if ((size_t)((char*)p - fib::arena) < fib::ARENA) fib::release(p);
    return CL_SUCCESS;
}
FCL cl_int clGetCommandQueueInfo(cl_command_queue, cl_command_queue_info i, size_t size, void* out, size_t* ret)
{
    void* p = i == CL_QUEUE_CONTEXT ? (void*)&the_context : i == CL_QUEUE_DEVICE ? (void*)&the_device : nullptr;
    return give(&p, sizeof p, size, out, ret);
}
FCL cl_mem clCreateBuffer(cl_context, cl_mem_flags f, size_t n, void* host, cl_int* e)
{ if (faulty("clCreateBuffer")) { if (e) *e = CL_MEM_OBJECT_ALLOCATION_FAILURE; return nullptr; }
    if (!n) { if (e) *e = CL_INVALID_BUFFER_SIZE; return nullptr; }
    Mem* b = object<Mem>();
    b->size = n;
    b->p = (char*)fib::allocate(n);
    memset(b->p, 0xA5, n);
    if (host && (f & (CL_MEM_COPY_HOST_PTR | CL_MEM_USE_HOST_PTR))) memcpy(b->p, host, n);
    Mem*& list = fib::cur < 0 || fib::linear ? outer_mems : st.mems;
    b->next = list;
    list = b;
    if (e) *e = CL_SUCCESS;
    return (cl_mem)b;
}
FCL cl_int clRetainMemObject(cl_mem m) { ((Mem*)m)->refs++; return CL_SUCCESS; }
FCL cl_int clReleaseMemObject(cl_mem m)
{
    Mem* b = (Mem*)m;
    if (--b->refs > 0) return CL_SUCCESS;
    wait_all();
    if (fib::cur < 0 || fib::linear) return CL_SUCCESS;   // freed by reset()
    Mem** l = &st.mems;
    while (*l && *l != b) l = &(*l)->next;
    if (!*l) return CL_SUCCESS;              // created before the exploration: stays
    *l = b->next;
    fib::release(b->p);
    fib::release(b);
    return CL_SUCCESS;
}
FCL cl_int clGetMemObjectInfo(cl_mem m, cl_mem_info i, size_t size, void* out, size_t* ret)
{
    Mem* b = (Mem*)m;
    if (i == CL_MEM_SIZE) return give(&b->size, sizeof b->size, size, out, ret);
    if (i == CL_MEM_CONTEXT) { void* c = &the_context; return give(&c, sizeof c, size, out, ret); }
    if (i == CL_MEM_TYPE) { cl_mem_object_type t = CL_MEM_OBJECT_BUFFER; return give(&t, sizeof t, size, out, ret); }
    if (i == CL_MEM_FLAGS) { cl_mem_flags t = CL_MEM_READ_WRITE; return give(&t, sizeof t, size, out, ret); }
    void* z = nullptr;
    return give(&z, size < sizeof z ? size : sizeof z, size, out, ret);
}
FCL cl_program clCreateProgramWithSource(cl_context, cl_uint n, const char** s, const size_t* len, cl_int* e)
{ if (faulty("clCreateProgramWithSource")) { if (e) *e = CL_OUT_OF_HOST_MEMORY; return nullptr; }
    Program* p = object<Program>();
    static std::set<std::string> known;
    std::string text;
    for (cl_uint i = 0; i < n; ++i) text.append(s[i], len && len[i] ? len[i] : strlen(s[i]));
    p->source = &*known.insert(text).first;
    if (e) *e = CL_SUCCESS;
    return (cl_program)p;
}
FCL cl_int clBuildProgram(cl_program q, cl_uint, const cl_device_id*, const char* options, void (CL_CALLBACK*)(cl_program, void*), void*)
{ if (faulty("clBuildProgram")) return CL_BUILD_PROGRAM_FAILURE;
    Program* p = (Program*)q;
    p->code = compile(*p->source, options ? options : "");
    return p->code->ok ? CL_SUCCESS : CL_BUILD_PROGRAM_FAILURE;
}
FCL cl_int clRetainProgram(cl_program p) { ((Program*)p)->refs++; return CL_SUCCESS; }
FCL cl_int clReleaseProgram(cl_program q) { ((Program*)q)->refs--; return CL_SUCCESS; }
FCL cl_int clGetProgramInfo(cl_program q, cl_program_info i, size_t size, void* out, size_t* ret)
{
    if (i == CL_PROGRAM_CONTEXT) { void* c = &the_context; return give(&c, sizeof c, size, out, ret); }
    if (i == CL_PROGRAM_NUM_DEVICES) { cl_uint n = 1; return give(&n, sizeof n, size, out, ret); }
    if (i == CL_PROGRAM_DEVICES) { void* d = &the_device; return give(&d, sizeof d, size, out, ret); }
    if (i == CL_PROGRAM_SOURCE) return give_text(((Program*)q)->source->c_str(), size, out, ret);
    return CL_INVALID_VALUE;
}
FCL cl_int clGetProgramBuildInfo(cl_program q, cl_device_id, cl_program_build_info i, size_t size, void* out, size_t* ret)
{
    Program* p = (Program*)q;
    if (i == CL_PROGRAM_BUILD_STATUS) { cl_build_status s = p->code && p->code->ok ? CL_BUILD_SUCCESS : CL_BUILD_ERROR; return give(&s, sizeof s, size, out, ret); }
    return give_text(p->code ? p->code->log.c_str() : "", size, out, ret);
}
FCL cl_kernel clCreateKernel(cl_program q, const char* name, cl_int* e)
{ if (faulty("clCreateKernel")) { if (e) *e = CL_OUT_OF_HOST_MEMORY; return nullptr; }
    Program* p = (Program*)q;
    if (!p->code || !p->code->ok) { if (e) *e = CL_INVALID_PROGRAM_EXECUTABLE; return nullptr; }
    auto it = p->code->kernels.find(name);
    if (it == p->code->kernels.end()) { if (e) *e = CL_INVALID_KERNEL_NAME; return nullptr; }
    Kernel* k = object<Kernel>();
    k->n = (int)it->second.size();
    k->run = (void (*)(void**))dlsym(p->code->so, ("fibk_" + it->first).c_str());
    for (int i = 0; i < k->n; ++i)
    {
        const std::string& t = it->second[i];
        k->ptr[i] = t == "ptr";
        k->size[i] = t == "ptr" || t == "i64" || t == "double" ? 8 : t == "i32" || t == "float" ? 4 : t == "i16" ? 2 : 1;
    }
    if (e) *e = CL_SUCCESS;
    return (cl_kernel)k;
}
FCL cl_int clRetainKernel(cl_kernel k) { ((Kernel*)k)->refs++; return CL_SUCCESS; }
FCL cl_int clReleaseKernel(cl_kernel q)
{
    Kernel* k = (Kernel*)q;
    if (--k->refs > 0) return CL_SUCCESS;
    if ((size_t)((char*)k - fib::arena) < fib::ARENA || fib::linear) fib::release(k);
    return CL_SUCCESS;
}
FCL cl_int clGetKernelInfo(cl_kernel q, cl_kernel_info i, size_t size, void* out, size_t* ret)
{
    Kernel* k = (Kernel*)q;
    if (i == CL_KERNEL_NUM_ARGS) { cl_uint n = (cl_uint)k->n; return give(&n, sizeof n, size, out, ret); }
    void* c = &the_context;
    return give(&c, sizeof c, size, out, ret);
}
FCL cl_int clSetKernelArg(cl_kernel q, cl_uint i, size_t size, const void* v)
{ if (faulty("clSetKernelArg")) return CL_OUT_OF_RESOURCES;
    Kernel* k = (Kernel*)q;
    if ((int)i >= k->n) return CL_INVALID_ARG_INDEX;
    if (!v) return CL_INVALID_ARG_VALUE;
    if (size != k->size[i]) return CL_INVALID_ARG_SIZE;
    k->value[i] = 0;
    memcpy(&k->value[i], v, size);
    k->set[i] = 1;
    return CL_SUCCESS;
}
static cl_int done(cl_event* e) { if (e) *e = the_event; return CL_SUCCESS; }
FCL cl_int clEnqueueCopyBuffer(cl_command_queue q, cl_mem s, cl_mem d, size_t so, size_t d0, size_t n, cl_uint, const cl_event*, cl_event* e)
{ if (faulty("clEnqueueCopyBuffer")) return CL_OUT_OF_RESOURCES;
    wait((Queue*)q);
    if (so + n > ((Mem*)s)->size || d0 + n > ((Mem*)d)->size) return CL_INVALID_VALUE;
    copy(((Mem*)d)->p + d0, ((Mem*)s)->p + so, n);
    return done(e);
}
FCL cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool, size_t o, size_t n, void* p, cl_uint, const cl_event*, cl_event* e)
{ if (faulty("clEnqueueReadBuffer")) return CL_OUT_OF_RESOURCES;
    wait((Queue*)q);
    if (o + n > ((Mem*)m)->size) return CL_INVALID_VALUE;
    copy(p, ((Mem*)m)->p + o, n);
    return done(e);
}
FCL cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool, size_t o, size_t n, const void* p, cl_uint, const cl_event*, cl_event* e)
{ if (faulty("clEnqueueWriteBuffer")) return CL_OUT_OF_RESOURCES;
    wait((Queue*)q);
    if (o + n > ((Mem*)m)->size) return CL_INVALID_VALUE;
    copy(((Mem*)m)->p + o, p, n);
    return done(e);
}
FCL cl_int clEnqueueFillBuffer(cl_command_queue q, cl_mem m, const void* v, size_t vn, size_t o, size_t n, cl_uint, const cl_event*, cl_event* e)
{ if (faulty("clEnqueueFillBuffer")) return CL_OUT_OF_RESOURCES;
    wait((Queue*)q);
    if (o + n > ((Mem*)m)->size) return CL_INVALID_VALUE;
    for (size_t i = 0; i + vn <= n; i += vn) copy(((Mem*)m)->p + o + i, v, vn);
    return done(e);
}
FCL void* clEnqueueMapBuffer(cl_command_queue q, cl_mem m, cl_bool, cl_map_flags, size_t o, size_t n, cl_uint, const cl_event*, cl_event* e, cl_int* err)
{ if (faulty("clEnqueueMapBuffer")) { if (err) *err = CL_MAP_FAILURE; return nullptr; }
    wait((Queue*)q);
    (void)n;
    if (e) *e = the_event;
    if (err) *err = CL_SUCCESS;
    return ((Mem*)m)->p + o;
}
FCL cl_int clEnqueueUnmapMemObject(cl_command_queue q, cl_mem, void*, cl_uint, const cl_event*, cl_event* e) { if (faulty("clEnqueueUnmapMemObject")) return CL_OUT_OF_RESOURCES; wait((Queue*)q); return done(e); }
FCL cl_int clEnqueueTask(cl_command_queue q, cl_kernel k, cl_uint, const cl_event*, cl_event* e)
{ if (faulty("clEnqueueTask")) return CL_OUT_OF_RESOURCES;
    int r = launch((Queue*)q, (Kernel*)k, 1, 1);
    return r ? r : done(e);
}
FCL cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t* off, const size_t* global, const size_t* local, cl_uint, const cl_event*, cl_event* e)
{ if (faulty("clEnqueueNDRangeKernel")) return CL_OUT_OF_RESOURCES;
    if (dim != 1 || (off && off[0])) { fprintf(stderr, "this check supports one-dimensional ranges only\n"); exit(2); }
    int r = launch((Queue*)q, (Kernel*)k, global[0], local ? local[0] : 0);
    return r ? r : done(e);
}
FCL cl_int clFinish(cl_command_queue q) { if (faulty("clFinish")) return CL_OUT_OF_RESOURCES; wait((Queue*)q); return CL_SUCCESS; }
FCL cl_int clFlush(cl_command_queue) { return CL_SUCCESS; }
FCL cl_int clWaitForEvents(cl_uint, const cl_event*) { wait_all(); return CL_SUCCESS; }
FCL cl_int clRetainEvent(cl_event) { return CL_SUCCESS; }
FCL cl_int clReleaseEvent(cl_event) { return CL_SUCCESS; }
FCL cl_int clGetEventInfo(cl_event, cl_event_info, size_t size, void* out, size_t* ret)
{ cl_int s = fakecl::st.left ? CL_RUNNING : CL_COMPLETE; return give(&s, sizeof s, size, out, ret); }

// ---- functions of the kernels' language, by their mangled names ----
FCL unsigned long _Z13get_global_idj(unsigned d) { return d ? 0 : (unsigned long)item(); }
FCL unsigned long _Z15get_global_sizej(unsigned d) { return d ? 1 : st.items; }
FCL unsigned long _Z17get_global_offsetj(unsigned) { return 0; }
FCL unsigned _Z12get_work_dimv() { return 1; }
FCL unsigned long _Z12get_local_idj(unsigned d) { groups_matter = true; return d ? 0 : (unsigned long)item() % st.local; }
FCL unsigned long _Z14get_local_sizej(unsigned d) { groups_matter = true; return d ? 1 : st.local; }
FCL unsigned long _Z12get_group_idj(unsigned d) { groups_matter = true; return d ? 0 : group(); }
FCL unsigned long _Z14get_num_groupsj(unsigned d) { groups_matter = true; return d ? 1 : st.items / st.local; }
FCL void _Z7barrierj(unsigned) { barrier_(); }
FCL void _Z9mem_fencej(unsigned) {}
FCL void _Z14read_mem_fencej(unsigned) {}
FCL void _Z15write_mem_fencej(unsigned) {}
static int cl_at(volatile void* p, int (*f)(int, int), int v) { fib::access((const void*)p, 4, true, true); int r = *(volatile int*)p; *(volatile int*)p = f(r, v); return r; }
#define FCL_ATOMIC(len, name, expr) \
    FCL int _Z##len##name##PU8CLglobalVii(volatile int* p, int v) { return cl_at(p, [](int a, int b) { (void)a; (void)b; return (int)(expr); }, v); } \
    FCL int _Z##len##name##PU8CLglobalVjj(volatile int* p, int v) { return cl_at(p, [](int a, int b) { (void)a; (void)b; return (int)(expr); }, v); } \
    FCL int _Z##len##name##PU7CLlocalVii(volatile int* p, int v) { return cl_at(p, [](int a, int b) { (void)a; (void)b; return (int)(expr); }, v); } \
    FCL int _Z##len##name##PVU8CLglobalii(volatile int* p, int v) { return cl_at(p, [](int a, int b) { (void)a; (void)b; return (int)(expr); }, v); } \
    FCL int _Z##len##name##PVU7CLlocalii(volatile int* p, int v) { return cl_at(p, [](int a, int b) { (void)a; (void)b; return (int)(expr); }, v); }
FCL_ATOMIC(10, atomic_add, a + b) FCL_ATOMIC(10, atomic_sub, a - b) FCL_ATOMIC(11, atomic_xchg, b) FCL_ATOMIC(9, atomic_or, a | b)
FCL_ATOMIC(10, atomic_and, a & b) FCL_ATOMIC(10, atomic_xor, a ^ b) FCL_ATOMIC(10, atomic_min, a < b ? a : b) FCL_ATOMIC(10, atomic_max, a > b ? a : b)
FCL int _Z10atomic_incPU8CLglobalVi(volatile int* p) { return cl_at(p, [](int a, int) { return a + 1; }, 0); }
FCL int _Z10atomic_decPU8CLglobalVi(volatile int* p) { return cl_at(p, [](int a, int) { return a - 1; }, 0); }
FCL int _Z10atomic_incPU8CLglobalVj(volatile int* p) { return cl_at(p, [](int a, int) { return a + 1; }, 0); }
FCL int _Z10atomic_decPU8CLglobalVj(volatile int* p) { return cl_at(p, [](int a, int) { return a - 1; }, 0); }
FCL int _Z14atomic_cmpxchgPU8CLglobalVjjj(volatile int* p, int c, int v) { fib::access((const void*)p, 4, true, true); int r = *p; if (r == c) *p = v; return r; }
FCL int _Z10atomic_incPVU8CLglobali(volatile int* p) { return cl_at(p, [](int a, int) { return a + 1; }, 0); }
FCL int _Z10atomic_decPVU8CLglobali(volatile int* p) { return cl_at(p, [](int a, int) { return a - 1; }, 0); }
FCL int _Z14atomic_cmpxchgPU8CLglobalViii(volatile int* p, int c, int v) { fib::access((const void*)p, 4, true, true); int r = *p; if (r == c) *p = v; return r; }
FCL int _Z14atomic_cmpxchgPVU8CLglobaliii(volatile int* p, int c, int v) { fib::access((const void*)p, 4, true, true); int r = *p; if (r == c) *p = v; return r; }
}
