// Interposition of system calls, the clock, randomness and the FUSE context for the code under check.
#pragma once
#include <cstdint>
#include <string>
#include <sys/types.h>

namespace vf
{
enum SysId
{
    kOpen, kPwrite, kWrite, kFtruncate, kUnlink, kRmdir, kRename, kMkdir, kSymlink, kLink, kChmod, kChown,
    kUtimens, kSetxattr, kRemovexattr, kFsync, kFlock, kPread, kRead, kFstat, kStat, kReadlink, kOpendir,
    kReaddir, kGetxattr, kListxattr, kFcntl, kStatvfs, kClose, kNumSys
};
extern const char* const kSysNames[];
struct SysInfo
{
    SysId id;
    bool mutating;    // changes the storage
    int fd;           // or dirfd
    const char* path; // or null
    long len;         // bytes, for writes
    long off;
    int fd2 = -1;
    const char* path2 = nullptr;    // the other name of a rename or link
};
struct SysAction
{
    enum Kind { kProceed, kFail, kTornExit, kShort } kind = kProceed;
    int err = 0;
    long n = 0;    // for kTornExit: bytes really written before the process dies; for kShort: bytes written and returned
};
// Called before every interposed call while set (and while the calling thread has not disabled it).
extern SysAction (*g_sys_hook)(const SysInfo&);
extern void (*g_sys_after)(const SysInfo&, long rc);
// Before descriptors are closed, and instead of sleeping (true: slept).
extern void (*g_close_hook)(int fd);
extern bool (*g_sleep_hook)(int64_t ns);
// When set, the first byte of every random string of 32 bytes (object identifiers).
extern int g_shape_ids;
// Random bytes come from the real generator.
extern bool g_real_random;
// Every thread counts its own suspensions; the harness's own I/O runs suspended.
struct NoHook
{
    NoHook();
    ~NoHook();
};

// Deterministic randomness: restarts the stream of this thread.
void reseed(uint64_t s);
// When >=0 the wall clock shown to the code under check.
extern int64_t g_virtual_now_ns;
// Sleeping returns at once.
extern bool g_no_sleep;

// Crash and fault drivers built on the hook.
struct SysCounter
{
    int mutating = 0, all = 0;
    std::string trace;    // names, for samples
};
void hook_count(SysCounter* c);
// The process exits with status 77 instead of performing mutating call number k (0-based); with
// torn>0, that many bytes of it, if it is a write, are written first.
void hook_crash(int k, long torn_num, long torn_den);
// Call number k (over all calls) fails with the error; kShortWrite: the k-th write of more than a byte does
// half of it and says so; kDiskFull: from the k-th call that needs space on, each of those fails with ENOSPC.
enum { kShortWrite = 2000, kDiskFull = 2001 };
void hook_fail(int k, int err, bool only_mutating = false);
bool hook_fired();
std::string hook_fired_name();
void hook_off();
}    // namespace vf
