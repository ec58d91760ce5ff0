// C27: the process in which the real program runs, linked into every configuration of it.  The program's main() is called
// on a fiber, with stand-ins for OpenMP, OpenCL and CUDA; threads run under one schedule.
#define FIB_STACK (1 << 20)
#ifdef SHELL_OMP
#include "omp.hpp"
#endif
#ifdef USE_OPENCL
#include "fakecl.hpp"
#endif
#ifdef USE_CUDA
#include "fakecuda.hpp"
#endif
#include <unistd.h>

int program_main(int, char**) asm("program_main");
void mc::register_spaces() {}

// device operations so far and launches so far, and what is wrong with the use of a device, for the check which started this process
static std::string wrong;
static void report()
{
    long calls = 0;
    mc::u64 cl = 0, cuda = 0;
#ifdef USE_OPENCL
    calls += fakecl::calls; cl = fakecl::total_launches;
#endif
#ifdef USE_CUDA
    calls += fakecuda::calls; cuda = fakecuda::total_launches;
#endif
    const char* path = getenv("MC_REPORT");
    FILE* f = path ? fopen(path, "w") : nullptr;
    if (!f) _exit(125);
    fprintf(f, "%ld %llu %llu %s\n", calls, cl, cuda, wrong.c_str());
    fclose(f);
}
#if defined(USE_OPENCL) || defined(USE_CUDA)
static void guard_device(const void* a, size_t n, bool write)
{
#if defined(USE_OPENCL)
    if (fakecl::st.left) return fakecl::guard(a, n, write);
#endif
#if defined(USE_CUDA)
    if (fakecuda::st.left) return fakecuda::guard(a, n, write);
#endif
}
#endif
static long number(const char* name, long otherwise) { const char* v = getenv(name); return v ? atol(v) : otherwise; }

int main(int argc, char** argv)
{
    const char* build = getenv("MC_BUILD");
    fib::pods.clear();
#ifdef USE_OPENCL
    fakecl::source_dir = getenv("MC_REPO");
    fakecl::scratch = build;
    fakecl::keep = true;
    fakecl::fail_at = number("MC_FAIL", -1);
    fakecl::for_good = number("MC_FOR_GOOD", 0);
    fib::pods.push_back({&fakecl::st, sizeof fakecl::st});
#endif
#ifdef USE_CUDA
    fakecuda::fail_at = number("MC_FAIL", -1);
    fakecuda::for_good = number("MC_FOR_GOOD", 0);
    fib::pods.push_back({&fakecuda::st, sizeof fakecuda::st});
    fakecuda::load((std::string(build) + "/device.so").c_str());
#endif
#if defined(USE_OPENCL) || defined(USE_CUDA)
    fib::guard = guard_device;
#endif
#ifdef SHELL_OMP
    fib::pods.push_back({&omp::st, sizeof omp::st});
    omp::threads = (int)number("MC_THREADS", 2);
#endif
    if (chdir(getenv("MC_WHERE"))) return 125;
    atexit(report);
    int status = 124;
    fib::Explorer e;
    e.body = [&] { status = program_main(argc, argv); };
    e.finished = [] {};
    try { e.run_linear(number("MC_HIGHEST", 0)); }
    catch (const mc::Violation& v) { wrong = v.what; for (char& c : wrong) if (c == '\n') c = ' '; }
    return status;
}
