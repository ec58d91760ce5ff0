// Runs the real program under system call supervision: every call which creates, writes, flushes, closes or renames a
// file opened for writing is a fault point, decided by a plan. Or, if inputs are named: every call which opens, reads, maps
// or closes one of them.
#pragma once
#include "prog.hpp"
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/user.h>

namespace sys
{
using mc::u64;
enum Call { OPEN, WRITE, CLOSE, SYNC, RENAME, OTHER, READ };
enum Kind { FAIL, SHORT, FULL };                     // FULL: this and all later writes fail
struct Fault { long at = -1; Kind kind = FAIL; long value = 0; };   // value: errno, or kind of shortening
struct Seen { Call call; long nr; u64 size; long result; bool injected; };
struct Outcome { prog::Result r; std::vector<Seen> calls; bool error = false; };

inline bool writing(u64 flags) { return (flags & O_ACCMODE) != O_RDONLY; }
inline long shorten(u64 n, long how) { long r = how == 0 ? 1 : how == 1 ? (long)n / 2 : (long)n - 1; return r < 1 ? 1 : r; }

inline std::string text_at(pid_t pid, u64 at)
{
    std::string s;
    for (;; at += sizeof(long))
    {
        errno = 0;
        long v = ptrace(PTRACE_PEEKDATA, pid, at, 0);
        if (errno) return s;
        for (size_t i = 0; i < sizeof v; ++i) { char c = (char)(v >> 8 * i); if (!c || s.size() > 4096) return s; s += c; }
    }
}
inline Outcome run(const prog::Args& args, const std::vector<Fault>& plan, const std::set<std::string>& inputs = {})
{
    static int out = memfd_create("out", 0), err = memfd_create("err", 0);
    if (ftruncate(out, 0) || ftruncate(err, 0)) exit(2);
    lseek(out, 0, SEEK_SET); lseek(err, 0, SEEK_SET);
    std::string bin = prog::binary();
    std::vector<char*> a{(char*)bin.c_str()};
    for (auto& s : args) a.push_back((char*)s.c_str());
    a.push_back(nullptr);
    static char path[] = "PATH=/usr/bin:/bin", lc[] = "LC_ALL=C";
    char* env[] = {path, lc, nullptr};
    prog::dir();
    pid_t pid = fork();
    if (pid == 0)
    {
        dup2(out, 1); dup2(err, 2);
        int null = open("/dev/null", O_RDONLY);
        if (null >= 0) dup2(null, 0);
        if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(125);
        raise(SIGSTOP);
        execve(bin.c_str(), a.data(), env);
        _exit(126);
    }
    Outcome o;
    int st = 0;
    if (pid < 0 || waitpid(pid, &st, 0) != pid || !WIFSTOPPED(st)) { fprintf(stderr, "cannot supervise the program\n"); exit(2); }
    if (ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL)) { fprintf(stderr, "cannot supervise the program\n"); exit(2); }
    std::set<long> tracked;
    bool entry = true, full = false;
    struct { bool on; Call call; long nr; u64 a0, a1, a2; bool injected, faked; long ret; bool wr; } c{};
    int deliver = 0;
    for (;;)
    {
        if (ptrace(PTRACE_SYSCALL, pid, 0, deliver)) break;
        deliver = 0;
        if (waitpid(pid, &st, 0) != pid) break;
        if (WIFEXITED(st) || WIFSIGNALED(st)) break;
        if (WSTOPSIG(st) != (SIGTRAP | 0x80)) { int s = WSTOPSIG(st); if (s != SIGTRAP && s != SIGSTOP) deliver = s; continue; }
        struct user_regs_struct r;
        if (ptrace(PTRACE_GETREGS, pid, 0, &r)) break;
        if (entry)
        {
            c = {};
            c.nr = (long)r.orig_rax;
            c.a0 = r.rdi; c.a1 = r.rsi; c.a2 = r.rdx;
            long fd = (long)(int)r.rdi;
            bool known = tracked.count(fd);
            u64 size = 0;
            if (!inputs.empty()) switch (c.nr)
            {
                case SYS_open: c.on = inputs.count(text_at(pid, r.rdi)); c.call = OPEN; break;
                case SYS_openat: c.on = inputs.count(text_at(pid, r.rsi)); c.call = OPEN; break;
                case SYS_read: case SYS_pread64: c.on = known; c.call = READ; size = r.rdx; break;
                case SYS_readv: case SYS_preadv: c.on = known; c.call = READ; size = 1; break;
                case SYS_mmap: c.on = tracked.count((long)(int)r.r8); c.call = READ; break;
                case SYS_close: c.on = known; c.call = CLOSE; break;
            }
            else switch (c.nr)
            {
                case SYS_open: c.on = writing(r.rsi); c.call = OPEN; break;
                case SYS_openat: c.on = writing(r.rdx); c.call = OPEN; break;
                case SYS_creat: c.on = true; c.call = OPEN; break;
                case SYS_write: case SYS_pwrite64: c.on = known; c.call = WRITE; size = r.rdx; break;
                case SYS_writev: case SYS_pwritev: c.on = known; c.call = WRITE; size = 1; break;
                case SYS_close: c.on = known; c.call = CLOSE; break;
                case SYS_fsync: case SYS_fdatasync: c.on = known; c.call = SYNC; break;
                case SYS_ftruncate: case SYS_fallocate: case SYS_lseek: case SYS_fchmod: c.on = known; c.call = OTHER; break;
                case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_link: case SYS_linkat: c.on = true; c.call = RENAME; break;
            }
            if (c.on)
            {
                long n = (long)o.calls.size();
                bool fail = full && c.call == WRITE;
                long code = ENOSPC;
                for (auto& f : plan)
                    if (f.at == n)
                    {
                        if (f.kind == FAIL) { fail = true; code = f.value; }
                        else if (f.kind == FULL) { if (c.call == WRITE) { fail = true; full = true; code = ENOSPC; } }
                        else if (size > 1 && ((c.call == WRITE && c.nr == SYS_write) || (c.call == READ && size < (u64)1 << 31))) { r.rdx = (u64)(c.call == READ ? f.value : shorten(size, f.value)); c.injected = true; ptrace(PTRACE_SETREGS, pid, 0, &r); }
                    }
                if (fail)
                {
                    c.injected = c.faked = true;
                    c.ret = -code;
                    if (code != EINTR && c.call != OTHER) o.error = true;
                    if (c.call != CLOSE) { r.orig_rax = (u64)-1; ptrace(PTRACE_SETREGS, pid, 0, &r); }   // a failed close does close
                }
                o.calls.push_back({c.call, c.nr, size, 0, c.injected});
                mc::step();
            }
        }
        else if (c.on)
        {
            if (c.faked) { r.rax = (u64)c.ret; ptrace(PTRACE_SETREGS, pid, 0, &r); }
            long res = (long)r.rax;
            o.calls.back().result = res;
            if (c.call == OPEN && res >= 0) tracked.insert(res);
            if (c.call == CLOSE) tracked.erase((long)(int)c.a0);
        }
        entry = !entry;
    }
    if (WIFSTOPPED(st)) { kill(pid, SIGKILL); waitpid(pid, &st, 0); fprintf(stderr, "supervision failed: %s\n", strerror(errno)); exit(2); }
    mc::beat();
    o.r.signaled = WIFSIGNALED(st);
    o.r.status = o.r.signaled ? 128 + WTERMSIG(st) : WEXITSTATUS(st);
    o.r.out = prog::slurp(out);
    o.r.err = prog::slurp(err);
    if (!o.r.signaled && (o.r.status == 125 || o.r.status == 126)) { fprintf(stderr, "cannot start the program\n"); exit(2); }
    return o;
}
inline std::string show(const std::vector<Seen>& v)
{
    static const char* n[] = {"open", "write", "close", "sync", "rename", "other", "read"};
    std::string r;
    for (auto& s : v) r += mc::fmt(" %s%s=%ld", n[s.call], s.injected ? "!" : "", s.result);
    return r;
}
}
