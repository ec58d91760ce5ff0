// Runs the real program in a scratch directory and observes it.
#pragma once
#include "mc.hpp"
#include "pgm.hpp"
#include "ref.hpp"
#include <cerrno>
#include <dirent.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

namespace prog
{
using mc::u64;
struct Result { int status = -1; bool signaled = false; std::string out, err; };
typedef std::vector<std::string> Args;

inline std::string& dir()
{
    static std::string d;
    if (d.empty())
    {
        const char* b = getenv("MC_BUILD");
        d = std::string(b ? b : "/tmp") + "/work" + std::to_string(getpid());
        mkdir(d.c_str(), 0755);
        if (chdir(d.c_str()) != 0) { fprintf(stderr, "no scratch directory %s\n", d.c_str()); exit(2); }
    }
    return d;
}
inline std::string name = "program";         // which of the programs of the build runs
inline std::string binary() { const char* b = getenv("MC_BUILD"); return std::string(b ? b : ".") + "/" + name; }
inline void put(const std::string& name, const std::string& text)
{
    std::string p = dir() + "/" + name;
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t)text.size()) { fprintf(stderr, "cannot prepare %s\n", p.c_str()); exit(2); }
    close(fd);
}
inline bool get(const std::string& name, std::string& text)
{
    text.clear();
    int fd = open((dir() + "/" + name).c_str(), O_RDONLY);
    if (fd < 0) return false;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd, buf, sizeof buf)) > 0) text.append(buf, (size_t)n);
    close(fd);
    return n == 0;
}
inline bool exists(const std::string& name) { struct stat s; return lstat((dir() + "/" + name).c_str(), &s) == 0; }
inline void drop(const std::string& name) { std::string p = dir() + "/" + name; if (unlink(p.c_str()) != 0 && (errno == EISDIR || errno == EPERM)) rmdir(p.c_str()); }

inline std::string slurp(int fd)
{
    std::string r;
    char buf[65536];
    ssize_t n;
    off_t pos = 0;
    while ((n = pread(fd, buf, sizeof buf, pos)) > 0) { r.append(buf, (size_t)n); pos += n; }
    return r;
}
inline Result run(const Args& args, const std::vector<std::string>& env = {}, long limit = -1, const char* output = nullptr)
{
    static int out = memfd_create("out", 0), err = memfd_create("err", 0);
    if (ftruncate(out, 0) || ftruncate(err, 0)) exit(2);
    lseek(out, 0, SEEK_SET);
    lseek(err, 0, SEEK_SET);
    std::string bin = binary();
    std::vector<char*> a{(char*)bin.c_str()}, e;
    for (auto& s : args) a.push_back((char*)s.c_str());
    a.push_back(nullptr);
    for (auto& s : env) e.push_back((char*)s.c_str());
    static char path[] = "PATH=/usr/bin:/bin", lc[] = "LC_ALL=C", omp[] = "OMP_NUM_THREADS=2";
    e.push_back(path); e.push_back(lc); e.push_back(omp);
    e.push_back(nullptr);
    dir();
    int tube[2] = {-1, -1};
    if (limit >= 0 && pipe2(tube, O_CLOEXEC)) exit(2);      // the limit would hit a file of messages, too
    pid_t pid = vfork();
    if (pid == 0)
    {
        dup2(out, 1);
        if (output)                          // "": closed
        {
            close(1);
            if (*output && open(output, O_WRONLY) != 1) _exit(126);
        }
        dup2(limit >= 0 ? tube[1] : err, 2);
        int null = open("/dev/null", O_RDONLY);
        if (null >= 0) dup2(null, 0);
        if (limit >= 0)
        {
            struct rlimit r = {(rlim_t)limit, (rlim_t)limit};
            setrlimit(RLIMIT_FSIZE, &r);
            signal(SIGXFSZ, SIG_IGN);
        }
        execve(bin.c_str(), a.data(), e.data());
        _exit(126);
    }
    int st = 0;
    if (pid < 0 || waitpid(pid, &st, 0) != pid) { fprintf(stderr, "cannot run the program\n"); exit(2); }
    if (limit >= 0) signal(SIGXFSZ, SIG_DFL);
    mc::beat();
    Result r;
    r.signaled = WIFSIGNALED(st);
    r.status = r.signaled ? 128 + WTERMSIG(st) : WEXITSTATUS(st);
    r.out = slurp(out);
    if (limit >= 0)
    {
        close(tube[1]);
        char buf[4096];
        ssize_t n;
        while ((n = read(tube[0], buf, sizeof buf)) > 0) r.err.append(buf, (size_t)n);
        close(tube[0]);
    }
    else r.err = slurp(err);
    return r;
}
inline std::string show(const Args& a)
{
    std::string r = "stereo_parallel";
    for (auto& s : a) r += " " + (s.empty() || s.find_first_of(" \n\t'\"") != std::string::npos ? mc::json_str(s) : s);
    return r;
}
inline std::string pgm_text(ref::i64 w, ref::i64 h, unsigned long mx, const std::vector<unsigned long>& d)
{
    std::string s = "P2\n" + std::to_string(w) + " " + std::to_string(h) + "\n" + std::to_string(mx) + "\n";
    for (size_t i = 0; i < d.size(); ++i) s += std::to_string(d[i]) + ((i + 1) % (size_t)w ? " " : "\n");
    return s;
}
// the disparity map by definition: lowest threshold, then greedy labeling. Empty if the problem is to be refused.
inline std::vector<int> map_of(const ref::Problem& p)
{
    for (double t : p.candidates())
    {
        ref::Constraints k(p, t);
        if (!ref::any(k.gfp(k.nodeOk))) continue;
        auto g = k.greedy(k.gfp(k.nodeOk));
        if (!g.empty()) return g;
    }
    return {};
}
}
