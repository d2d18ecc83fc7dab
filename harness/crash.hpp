// Killing a process at a chosen system call. The driver executes itself as a
// child that runs commands over a scratch database; the file calls of the
// whole process are counted, and the N-th one ends it (before the call, half
// way through it, or after it).
#ifndef VERIF_CRASH_HPP
#define VERIF_CRASH_HPP
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <spawn.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <atomic>
#include "common.hpp"

namespace vf {

static std::atomic<long> calls{0};
static long kill_at = -1;
static int kill_mode = 0;  // 0 before, 1 half way (writes), 2 after
static bool armed = false;

inline void die() {
    syscall(SYS_kill, (long)getpid(), (long)SIGKILL);
    for (;;) pause();
}

struct Gate {
    bool last;
    Gate() : last{false} {
        if (!armed) return;
        last = ++calls == kill_at;
        if (last && kill_mode == 0) die();
    }
    bool half() const { return last && kill_mode == 1; }
    ~Gate() {
        if (last) die();
    }
};

}  // namespace vf

extern "C" {
ssize_t write(int fd, const void* b, size_t n) {
    vf::Gate g;
    return syscall(SYS_write, fd, b, g.half() ? n / 2 : n);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
    vf::Gate g;
    return syscall(SYS_pwrite64, fd, b, g.half() ? n / 2 : n, o);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int n) {
    vf::Gate g;
    return syscall(SYS_writev, fd, v, n);
}
int rename(const char* a, const char* b) __THROW {
    vf::Gate g;
    return syscall(SYS_rename, a, b);
}
int unlink(const char* a) __THROW {
    vf::Gate g;
    return syscall(SYS_unlink, a);
}
int link(const char* a, const char* b) __THROW {
    vf::Gate g;
    return syscall(SYS_link, a, b);
}
int mkdir(const char* a, mode_t m) __THROW {
    vf::Gate g;
    return syscall(SYS_mkdir, a, m);
}
int ftruncate(int fd, off_t n) __THROW {
    vf::Gate g;
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off_t n) __THROW { return ftruncate(fd, n); }
static int vf_open(const char* a, int f, mode_t m) {
    if (f & O_CREAT) {
        vf::Gate g;
        return syscall(SYS_openat, AT_FDCWD, a, f, m);
    }
    return syscall(SYS_openat, AT_FDCWD, a, f, m);
}
int open(const char* a, int f, ...) {
    va_list l;
    va_start(l, f);
    mode_t m = f & O_CREAT ? va_arg(l, int) : 0;
    va_end(l);
    return vf_open(a, f, m);
}
int open64(const char* a, int f, ...) {
    va_list l;
    va_start(l, f);
    mode_t m = f & O_CREAT ? va_arg(l, int) : 0;
    va_end(l);
    return vf_open(a, f, m);
}
// Only the death of the process is studied: what was written stays written.
int fsync(int) { return 0; }
int fdatasync(int) { return 0; }
int sync_file_range(int, off64_t, off64_t, unsigned) { return 0; }
int fallocate(int, int, off_t, off_t) { return 0; }
int fallocate64(int, int, off64_t, off64_t) { return 0; }
}

namespace vf {

static std::string scratch;  // all databases of this run live under here

inline void wipe(const std::string& dir) {
    if (scratch.empty() || dir.compare(0, scratch.size(), scratch) != 0) return;
    DIR* d = opendir(dir.c_str());
    if (!d) return;
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = dir + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
            wipe(p);
        else
            unlink(p.c_str());
    }
    closedir(d);
    rmdir(dir.c_str());
}

inline void make_scratch() {
    std::string base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : ".";
    scratch = base + "/vf-" + std::to_string(getpid()) + "-" + std::to_string(time(nullptr));
    mkdir(scratch.c_str(), 0700);
}

// crash <N> <mode> <cmd>^<cmd>^...   (spaces within a command spelled as ',')
// answer: <done|killed> <calls made> <answer>^<answer>^...
inline std::string crash(const Tokens& t, const std::string& dir) {
    std::string cmds = scratch + "/cmds-" + std::to_string(getpid());
    {
        std::ofstream f(cmds);
        for (auto& c : split(t[3], '^')) f << c << "\n";
    }
    int p[2];
    if (pipe(p)) return "TOOL pipe";
    std::string fd = std::to_string(p[1]);
    fcntl(p[0], F_SETFD, FD_CLOEXEC);
    const char* argv[] = {"/proc/self/exe", "--child", t[1].c_str(), t[2].c_str(),
                          cmds.c_str(), dir.c_str(), fd.c_str(), nullptr};
    pid_t pid;
    if (posix_spawn(&pid, "/proc/self/exe", nullptr, nullptr, (char**)argv, environ)) return "TOOL spawn";
    ::close(p[1]);
    std::string got;
    char b[4096];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) got.append(b, n);
    ::close(p[0]);
    int ws = 0;
    waitpid(pid, &ws, 0);
    unlink(cmds.c_str());
    std::string r, calls = "-";
    size_t at = 0;
    bool done = false;
    while (true) {
        size_t e = got.find('\n', at);
        if (e == std::string::npos) break;
        std::string l = got.substr(at, e - at);
        at = e + 1;
        if (l.compare(0, 5, "DONE ") == 0) {
            done = true;
            calls = l.substr(5);
        } else {
            r += (r.empty() ? "" : "^") + l;
        }
    }
    if (!done && !(WIFSIGNALED(ws) && WTERMSIG(ws) == SIGKILL)) {
        // the code under test failed by itself
        if (WIFSIGNALED(ws)) {
            signal(WTERMSIG(ws), SIG_DFL);
            raise(WTERMSIG(ws));
        }
        _exit(97);
    }
    return std::string(done ? "done" : "killed") + " " + calls + " " + (r.empty() ? "-" : r);
}

inline int child(char** v, Handler h) {
    kill_at = std::stol(v[2]);
    kill_mode = std::stoi(v[3]);
    std::ifstream f(v[4]);
    int fd = std::stoi(v[6]);
    std::vector<std::string> lines;
    std::string l;
    while (std::getline(f, l)) lines.push_back(l);
    armed = true;
    for (auto& c : lines) {
        alarm(30);
        std::string a = h(split(c, ',')) + "\n";
        size_t at = 0;
        while (at < a.size()) at += syscall(SYS_write, fd, a.data() + at, a.size() - at);
    }
    armed = false;
    std::string e = "DONE " + std::to_string(calls) + "\n";
    syscall(SYS_write, fd, e.data(), e.size());
    _exit(0);
}

}  // namespace vf
#endif
