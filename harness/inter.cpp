#include "inter.h"
#include "core.h"
#include <cryptopp/filters.h>
#include <cryptopp/randpool.h>
#include <cstdarg>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/xattr.h>
#include <time.h>
#include <unistd.h>

namespace vf
{
const char* const kSysNames[] = {"open", "pwrite", "write", "ftruncate", "unlink", "rmdir", "rename", "mkdir",
                                 "symlink", "link", "chmod", "chown", "utimens", "setxattr", "removexattr",
                                 "fsync", "flock", "pread", "read", "fstat", "stat", "readlink", "opendir",
                                 "readdir", "getxattr", "listxattr", "fcntl", "statvfs", "close"};
SysAction (*g_sys_hook)(const SysInfo&) = nullptr;
void (*g_sys_after)(const SysInfo&, long) = nullptr;
void (*g_close_hook)(int) = nullptr;
bool (*g_sleep_hook)(int64_t) = nullptr;
int g_shape_ids = -1;
bool g_real_random = false;
static thread_local int t_nohook = 0;
NoHook::NoHook() { ++t_nohook; }
NoHook::~NoHook() { --t_nohook; }

static thread_local uint64_t t_rng = 0x9e3779b97f4a7c15ull;
void reseed(uint64_t s) { t_rng = s * 0x9e3779b97f4a7c15ull + 0x1234567; }
int64_t g_virtual_now_ns = -1;
bool g_no_sleep = false;

static SysCounter* s_counter;
static int s_k, s_err, s_seen;
static long s_tn, s_td;
static bool s_only_mut, s_fired;
static std::string s_fired_name;
void hook_off() { g_sys_hook = nullptr; }
void hook_count(SysCounter* c)
{
    s_counter = c;
    *c = {};
    g_sys_hook = [](const SysInfo& i) -> SysAction
    {
        s_counter->all++;
        s_counter->mutating += i.mutating;
        if (i.mutating)
        {
            if (s_counter->trace.size() < 400)
                s_counter->trace += std::string(s_counter->trace.empty() ? "" : " ") + kSysNames[i.id];
        }
        return {};
    };
}
void hook_crash(int k, long n, long d)
{
    s_k = k;
    s_tn = n;
    s_td = d;
    s_seen = 0;
    g_sys_hook = [](const SysInfo& i) -> SysAction
    {
        if (!i.mutating || s_seen++ != s_k)
            return {};
        SysAction a;
        a.kind = SysAction::kTornExit;
        a.n = s_tn && i.len > 0 ? i.len * s_tn / s_td : 0;
        return a;
    };
}
void hook_fail(int k, int err, bool only_mut)
{
    s_k = k;
    s_err = err;
    s_only_mut = only_mut;
    s_seen = 0;
    s_fired = false;
    s_fired_name.clear();
    g_sys_hook = [](const SysInfo& i) -> SysAction
    {
        // Giving up a lock and closing do not fail.
        if (i.id == kClose || (i.id == kFlock && (i.off & LOCK_UN)))
            return {};
        SysAction a;
        if (s_err == kShortWrite)
        {
            if ((i.id != kPwrite && i.id != kWrite) || i.fd <= 2 || i.len < 2 || s_seen++ != s_k)
                return {};
            s_fired = true;
            s_fired_name = "short write";
            a.kind = SysAction::kShort;
            a.n = i.len / 2;
            return a;
        }
        if (s_err == kDiskFull)
        {
            // From call k on whatever needs space fails.
            bool needs = ((i.id == kPwrite || i.id == kWrite) && i.fd > 2) || (i.id == kOpen && (i.off & O_CREAT)) || i.id == kMkdir || i.id == kSymlink || i.id == kLink || i.id == kSetxattr;
            if (!needs || s_seen++ < s_k)
                return {};
            s_fired = true;
            s_fired_name = std::string("disk full at ") + kSysNames[i.id];
            a.kind = SysAction::kFail;
            a.err = ENOSPC;
            return a;
        }
        if ((s_only_mut && !i.mutating) || s_seen++ != s_k)
            return {};
        s_fired = true;
        s_fired_name = kSysNames[i.id];
        a.kind = SysAction::kFail;
        a.err = s_err;
        return a;
    };
}
bool hook_fired() { return s_fired; }
std::string hook_fired_name() { return s_fired_name; }
}    // namespace vf
using namespace vf;

// ---- randomness ----
namespace CryptoPP
{
void RandomPool::GenerateIntoBufferedTransformation(BufferedTransformation& target,
                                                    const std::string& channel,
                                                    lword size)
{
    if (g_real_random)
    {
        using F = void (RandomPool*, BufferedTransformation&, const std::string&, lword);
        static auto real = (F*)dlsym(RTLD_NEXT, "_ZN8CryptoPP10RandomPool34GenerateIntoBufferedTransformationERNS_22BufferedTransformationERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEm");
        if (!real)
            abort();
        return real(this, target, channel, size);
    }
    bool shape = size == 32 && g_shape_ids >= 0;
    while (size)
    {
        t_rng += 0x9e3779b97f4a7c15ull;
        uint64_t z = t_rng;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        z ^= z >> 31;
        size_t n = size < 8 ? size : 8;
        if (shape)
            z = (z & ~255ull) | g_shape_ids;
        shape = false;
        target.ChannelPut(channel, (const byte*)&z, n);
        size -= n;
    }
}
}    // namespace CryptoPP

// ---- system calls ----
#define REAL(ret, name, ...)                                                                       \
    static auto real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, name);
static inline bool enter(const SysInfo& i, SysAction& a)
{
    if (__builtin_expect(!g_sys_hook || t_nohook, 1))
        return false;
    ++t_nohook;
    a = g_sys_hook(i);
    --t_nohook;
    return a.kind != SysAction::kProceed;
}
static inline void after(const SysInfo& i, long rc)
{
    if (__builtin_expect(g_sys_after && !t_nohook, 0))
    {
        int e = errno;
        ++t_nohook;
        g_sys_after(i, rc);
        --t_nohook;
        errno = e;
    }
}
// For calls without a partial effect.
#define SIMPLE(ret, sym, params, args, id, mut, fd, path, len, off)                                \
    extern "C" ret sym params                                                                      \
    {                                                                                              \
        static auto real = (ret(*) params)dlsym(RTLD_NEXT, #sym);                                  \
        SysInfo info{id, mut, fd, path, (long)(len), (long)(off)};                                 \
        SysAction a;                                                                               \
        if (enter(info, a))                                                                        \
        {                                                                                          \
            if (a.kind == SysAction::kTornExit)                                                    \
                _exit(77);                                                                         \
            errno = a.err;                                                                         \
            return (ret)-1;                                                                        \
        }                                                                                          \
        ret rc = real args;                                                                        \
        after(info, (long)rc);                                                                     \
        return rc;                                                                                 \
    }
#define SIMPLE2(ret, sym, params, args, id, mut, fd, path, len, off, fd2_, path2_)                   \
    extern "C" ret sym params                                                                      \
    {                                                                                              \
        static auto real = (ret(*) params)dlsym(RTLD_NEXT, #sym);                                  \
        SysInfo info{id, mut, fd, path, (long)(len), (long)(off), fd2_, path2_};                   \
        SysAction a;                                                                               \
        if (enter(info, a))                                                                        \
        {                                                                                          \
            if (a.kind == SysAction::kTornExit)                                                    \
                _exit(77);                                                                         \
            errno = a.err;                                                                         \
            return (ret)-1;                                                                        \
        }                                                                                          \
        ret rc = real args;                                                                        \
        after(info, (long)rc);                                                                     \
        return rc;                                                                                 \
    }
#define WRITELIKE(sym, params, args, torn_args, id, fd, len, off)                                  \
    extern "C" ssize_t sym params                                                                  \
    {                                                                                              \
        static auto real = (ssize_t(*) params)dlsym(RTLD_NEXT, #sym);                              \
        SysInfo info{id, fd > 2, fd, nullptr, (long)(len), (long)(off)};                           \
        SysAction a;                                                                               \
        if (enter(info, a))                                                                        \
        {                                                                                          \
            if (a.kind == SysAction::kTornExit)                                                    \
            {                                                                                      \
                size_t tn = a.n;                                                                   \
                if (tn > 0)                                                                        \
                    (void)!real torn_args;                                                         \
                _exit(77);                                                                         \
            }                                                                                      \
            if (a.kind == SysAction::kShort)                                                       \
            {                                                                                      \
                size_t tn = a.n;                                                                   \
                return real torn_args;                                                             \
            }                                                                                      \
            errno = a.err;                                                                         \
            return -1;                                                                             \
        }                                                                                          \
        ssize_t rc = real args;                                                                    \
        after(info, rc);                                                                           \
        return rc;                                                                                 \
    }
WRITELIKE(pwrite, (int f, const void* b, size_t n, off_t o), (f, b, n, o), (f, b, tn, o), kPwrite, f, n, o)
WRITELIKE(pwrite64, (int f, const void* b, size_t n, off64_t o), (f, b, n, o), (f, b, tn, o), kPwrite, f, n, o)
WRITELIKE(write, (int f, const void* b, size_t n), (f, b, n), (f, b, tn), kWrite, f, n, 0)

#define OPENLIKE(sym, params, path, flags, last, real_args, dirfd)                                 \
    extern "C" int sym params                                                                      \
    {                                                                                              \
        static auto real = (int (*) params)dlsym(RTLD_NEXT, #sym);                                 \
        mode_t mode = 0;                                                                           \
        if (flags & (O_CREAT | O_TMPFILE))                                                         \
        {                                                                                          \
            va_list ap;                                                                            \
            va_start(ap, last);                                                                    \
            mode = va_arg(ap, unsigned);                                                           \
            va_end(ap);                                                                            \
        }                                                                                          \
        SysInfo info{kOpen, (flags & (O_CREAT | O_TRUNC)) != 0, dirfd, path, 0, flags};            \
        SysAction a;                                                                               \
        if (enter(info, a))                                                                        \
        {                                                                                          \
            if (a.kind == SysAction::kTornExit)                                                    \
                _exit(77);                                                                         \
            errno = a.err;                                                                         \
            return -1;                                                                             \
        }                                                                                          \
        int rc = real real_args;                                                                   \
        after(info, rc);                                                                           \
        return rc;                                                                                 \
    }
OPENLIKE(open, (const char* p, int fl, ...), p, fl, fl, (p, fl, mode), -1)
OPENLIKE(open64, (const char* p, int fl, ...), p, fl, fl, (p, fl, mode), -1)
OPENLIKE(openat, (int d, const char* p, int fl, ...), p, fl, fl, (d, p, fl, mode), d)
OPENLIKE(openat64, (int d, const char* p, int fl, ...), p, fl, fl, (d, p, fl, mode), d)

SIMPLE(int, ftruncate, (int f, off_t n) noexcept, (f, n), kFtruncate, true, f, nullptr, 0, n)
SIMPLE(int, ftruncate64, (int f, off64_t n) noexcept, (f, n), kFtruncate, true, f, nullptr, 0, n)
SIMPLE(int, unlink, (const char* p) noexcept, (p), kUnlink, true, -1, p, 0, 0)
SIMPLE(int, unlinkat, (int d, const char* p, int fl) noexcept, (d, p, fl), (fl& AT_REMOVEDIR) ? kRmdir : kUnlink, true, d, p, 0, fl)
SIMPLE(int, rmdir, (const char* p) noexcept, (p), kRmdir, true, -1, p, 0, 0)
SIMPLE2(int, rename, (const char* a1, const char* b1) noexcept, (a1, b1), kRename, true, -1, b1, 0, 0, -1, a1)
SIMPLE2(int, renameat, (int d1, const char* a1, int d2, const char* b1) noexcept, (d1, a1, d2, b1), kRename, true, d2, b1, 0, 0, d1, a1)
SIMPLE2(int, renameat2, (int d1, const char* a1, int d2, const char* b1, unsigned fl) noexcept, (d1, a1, d2, b1, fl), kRename, true, d2, b1, 0, 0, d1, a1)
SIMPLE(int, mkdir, (const char* p, mode_t m) noexcept, (p, m), kMkdir, true, -1, p, 0, 0)
SIMPLE(int, mkdirat, (int d, const char* p, mode_t m) noexcept, (d, p, m), kMkdir, true, d, p, 0, 0)
SIMPLE(int, symlink, (const char* t, const char* p) noexcept, (t, p), kSymlink, true, -1, p, 0, 0)
SIMPLE(int, symlinkat, (const char* t, int d, const char* p) noexcept, (t, d, p), kSymlink, true, d, p, 0, 0)
SIMPLE2(int, link, (const char* t, const char* p) noexcept, (t, p), kLink, true, -1, p, 0, 0, -1, t)
SIMPLE2(int, linkat, (int d1, const char* t, int d2, const char* p, int fl) noexcept, (d1, t, d2, p, fl), kLink, true, d2, p, 0, 0, d1, t)
SIMPLE(int, chmod, (const char* p, mode_t m) noexcept, (p, m), kChmod, true, -1, p, 0, 0)
SIMPLE(int, fchmod, (int f, mode_t m) noexcept, (f, m), kChmod, true, f, nullptr, 0, 0)
SIMPLE(int, fchmodat, (int d, const char* p, mode_t m, int fl) noexcept, (d, p, m, fl), kChmod, true, d, p, 0, 0)
SIMPLE(int, fchown, (int f, uid_t u, gid_t g) noexcept, (f, u, g), kChown, true, f, nullptr, 0, 0)
SIMPLE(int, fchownat, (int d, const char* p, uid_t u, gid_t g, int fl) noexcept, (d, p, u, g, fl), kChown, true, d, p, 0, 0)
SIMPLE(int, utimensat, (int d, const char* p, const timespec* t, int fl) noexcept, (d, p, t, fl), kUtimens, true, d, p, 0, 0)
SIMPLE(int, futimens, (int f, const timespec* t) noexcept, (f, t), kUtimens, true, f, nullptr, 0, 0)
SIMPLE(int, setxattr, (const char* p, const char* n, const void* v, size_t s, int fl) noexcept, (p, n, v, s, fl), kSetxattr, true, -1, p, 0, 0)
SIMPLE(int, lsetxattr, (const char* p, const char* n, const void* v, size_t s, int fl) noexcept, (p, n, v, s, fl), kSetxattr, true, -1, p, 0, 0)
SIMPLE(int, fsetxattr, (int f, const char* n, const void* v, size_t s, int fl) noexcept, (f, n, v, s, fl), kSetxattr, true, f, nullptr, 0, 0)
SIMPLE(int, removexattr, (const char* p, const char* n) noexcept, (p, n), kRemovexattr, true, -1, p, 0, 0)
SIMPLE(int, lremovexattr, (const char* p, const char* n) noexcept, (p, n), kRemovexattr, true, -1, p, 0, 0)
SIMPLE(int, fremovexattr, (int f, const char* n) noexcept, (f, n), kRemovexattr, true, f, nullptr, 0, 0)
SIMPLE(int, fsync, (int f), (f), kFsync, true, f, nullptr, 0, 0)
SIMPLE(int, fdatasync, (int f), (f), kFsync, true, f, nullptr, 0, 0)
SIMPLE(int, flock, (int f, int op) noexcept, (f, op), kFlock, false, f, nullptr, 0, op)
SIMPLE(ssize_t, pread, (int f, void* b, size_t n, off_t o), (f, b, n, o), kPread, false, f, nullptr, n, o)
SIMPLE(ssize_t, pread64, (int f, void* b, size_t n, off64_t o), (f, b, n, o), kPread, false, f, nullptr, n, o)
SIMPLE(ssize_t, read, (int f, void* b, size_t n), (f, b, n), kRead, false, f, nullptr, n, 0)
SIMPLE(int, fstat, (int f, struct stat* s) noexcept, (f, s), kFstat, false, f, nullptr, 0, 0)
SIMPLE(int, fstat64, (int f, struct stat64* s) noexcept, (f, s), kFstat, false, f, nullptr, 0, 0)
SIMPLE(int, fstatat, (int d, const char* p, struct stat* s, int fl) noexcept, (d, p, s, fl), kStat, false, d, p, 0, fl)
SIMPLE(int, fstatat64, (int d, const char* p, struct stat64* s, int fl) noexcept, (d, p, s, fl), kStat, false, d, p, 0, fl)
SIMPLE(int, stat, (const char* p, struct stat* s) noexcept, (p, s), kStat, false, -1, p, 0, 0)
SIMPLE(int, stat64, (const char* p, struct stat64* s) noexcept, (p, s), kStat, false, -1, p, 0, 0)
SIMPLE(int, lstat, (const char* p, struct stat* s) noexcept, (p, s), kStat, false, -1, p, 0, 0)
SIMPLE(int, lstat64, (const char* p, struct stat64* s) noexcept, (p, s), kStat, false, -1, p, 0, 0)
SIMPLE(ssize_t, readlinkat, (int d, const char* p, char* b, size_t n) noexcept, (d, p, b, n), kReadlink, false, d, p, 0, 0)
SIMPLE(ssize_t, readlink, (const char* p, char* b, size_t n) noexcept, (p, b, n), kReadlink, false, -1, p, 0, 0)
SIMPLE(ssize_t, fgetxattr, (int f, const char* n, void* v, size_t s) noexcept, (f, n, v, s), kGetxattr, false, f, nullptr, 0, 0)
SIMPLE(ssize_t, lgetxattr, (const char* p, const char* n, void* v, size_t s) noexcept, (p, n, v, s), kGetxattr, false, -1, p, 0, 0)
SIMPLE(ssize_t, flistxattr, (int f, char* v, size_t s) noexcept, (f, v, s), kListxattr, false, f, nullptr, 0, 0)
SIMPLE(ssize_t, llistxattr, (const char* p, char* v, size_t s) noexcept, (p, v, s), kListxattr, false, -1, p, 0, 0)
SIMPLE(int, fstatvfs, (int f, struct statvfs* s) noexcept, (f, s), kStatvfs, false, f, nullptr, 0, 0)
SIMPLE(int, fstatvfs64, (int f, struct statvfs64* s) noexcept, (f, s), kStatvfs, false, f, nullptr, 0, 0)

extern "C" DIR* opendir(const char* p)
{
    static auto real = (DIR * (*)(const char*)) dlsym(RTLD_NEXT, "opendir");
    SysInfo info{kOpendir, false, -1, p, 0, 0};
    SysAction a;
    if (enter(info, a))
    {
        errno = a.err;
        return nullptr;
    }
    DIR* d = real(p);
    after(info, d ? 0 : -1);
    return d;
}
#define READDIR(sym, T)                                                                            \
    extern "C" T* sym(DIR* d)                                                                      \
    {                                                                                              \
        static auto real = (T * (*)(DIR*)) dlsym(RTLD_NEXT, #sym);                                 \
        SysInfo info{kReaddir, false, dirfd(d), nullptr, 0, 0};                                          \
        SysAction a;                                                                               \
        if (enter(info, a))                                                                        \
        {                                                                                          \
            errno = a.err;                                                                         \
            return nullptr;                                                                        \
        }                                                                                          \
        T* e = real(d);                                                                            \
        after(info, 0);                                                                            \
        return e;                                                                                  \
    }
READDIR(readdir, struct dirent)
READDIR(readdir64, struct dirent64)
#define FCNTL(sym)                                                                                 \
    extern "C" int sym(int f, int cmd, ...)                                                        \
    {                                                                                              \
        static auto real = (int (*)(int, int, ...))dlsym(RTLD_NEXT, #sym);                         \
        va_list ap;                                                                                \
        va_start(ap, cmd);                                                                         \
        void* p = va_arg(ap, void*);                                                               \
        va_end(ap);                                                                                \
        SysInfo info{kFcntl, false, f, nullptr, 0, cmd};                                           \
        SysAction a;                                                                               \
        if ((cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK) && enter(info, a))               \
        {                                                                                          \
            if (a.kind == SysAction::kTornExit)                                                    \
                _exit(77);                                                                         \
            errno = a.err;                                                                         \
            return -1;                                                                             \
        }                                                                                          \
        int rc = real(f, cmd, p);                                                                  \
        if (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK)                                   \
            after(info, rc);                                                                       \
        return rc;                                                                                 \
    }
FCNTL(fcntl)
FCNTL(fcntl64)

extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept
{
    static auto real = (int (*)(clockid_t, timespec*))dlsym(RTLD_NEXT, "clock_gettime");
    if (g_virtual_now_ns >= 0 && c == CLOCK_REALTIME && !t_nohook)
    {
        t->tv_sec = g_virtual_now_ns / 1000000000;
        t->tv_nsec = g_virtual_now_ns % 1000000000;
        return 0;
    }
    return real(c, t);
}

static bool slept(int64_t ns) { return g_sleep_hook ? g_sleep_hook(ns) : g_no_sleep; }
extern "C" int usleep(useconds_t us)
{
    static auto real = (int (*)(useconds_t))dlsym(RTLD_NEXT, "usleep");
    return slept(us * 1000ll) ? 0 : real(us);
}
extern "C" int nanosleep(const timespec* a, timespec* b)
{
    static auto real = (int (*)(const timespec*, timespec*))dlsym(RTLD_NEXT, "nanosleep");
    return slept(a->tv_sec * 1000000000ll + a->tv_nsec) ? 0 : real(a, b);
}
extern "C" int clock_nanosleep(clockid_t c, int fl, const timespec* a, timespec* b)
{
    static auto real = (int (*)(clockid_t, int, const timespec*, timespec*))dlsym(RTLD_NEXT, "clock_nanosleep");
    int64_t ns = a->tv_sec * 1000000000ll + a->tv_nsec;
    if ((fl & TIMER_ABSTIME) && g_virtual_now_ns >= 0)
        ns -= g_virtual_now_ns;
    return slept(ns) ? 0 : real(c, fl, a, b);
}
extern "C" unsigned sleep(unsigned s)
{
    static auto real = (unsigned (*)(unsigned))dlsym(RTLD_NEXT, "sleep");
    return slept(s * 1000000000ll) ? 0 : real(s);
}
extern "C" int close(int fd)
{
    static auto real = (int (*)(int))dlsym(RTLD_NEXT, "close");
    if (g_close_hook && !t_nohook)
    {
        ++t_nohook;
        g_close_hook(fd);
        --t_nohook;
    }
    return real(fd);
}
