// See mc.h. Compiled without instrumentation and without the mutex stand-ins.
#include "core.h"
#include "inter.h"
#include "mc.h"
#include <algorithm>
#include <cstdarg>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace vf;
void (*vrt_self_deadlock_hook)() = nullptr;

namespace
{
constexpr int kMax = 6;              // threads
constexpr int kMaxSteps = 30000;
constexpr int kKeys = 5;
enum Kind : uint8_t { kStart, kOp, kLock, kSys, kAtomic, kCreate, kBlocked, kExit, kBound, kSleep };

struct Acc
{
    uint64_t key;
    uint8_t type;
};
struct Step
{
    uint8_t cur, chosen, cur_enabled, kind, nkeys;
    uint16_t alts;
    Acc k[kKeys];
};
struct Shared
{
    int status;    // 0 running, 1 fine, 2 violation, 3 harness error, 4 diverged
    char msg[6000];
    uint64_t outcome;
    int nsteps;
    int nforced;
    struct
    {
        int step, tid;
    } forced[64];
    Step steps[kMaxSteps];
};
Shared* S;

struct VC
{
    uint32_t c[kMax] = {};
    void join(const VC& o)
    {
        for (int i = 0; i < kMax; ++i)
            c[i] = std::max(c[i], o.c[i]);
    }
};
struct Thr
{
    sem_t sem;
    VC vc;
    enum { None, Ready, Done, Dead } state = None;
    McCond* cond = nullptr;
    int64_t deadline = INT64_MAX;
    bool timed_out = false;
    bool daemon = false;
    int held = 0;
    long last_acquire = -1;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    pthread_t pt{};
    std::vector<Acc> pend;
};
Thr g_thr[kMax];
int g_nthr = 0;
bool g_active = false;
thread_local int t_tid = -1;
thread_local int t_ignore = 0;
sem_t g_main_sem;
pthread_key_t g_exit_key;
int g_forced_pos = 0;
bool controlled() { return g_active && t_tid >= 0; }
// Library code used here may be the instrumented copy.
struct Ign
{
    Ign() { ++t_ignore; }
    ~Ign() { --t_ignore; }
};

template <class T, class... A>
T real_fn(const char* name)
{
    return (T)dlsym(RTLD_NEXT, name);
}
#define REALF(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)

std::string where(const void* pc)
{
    Dl_info i;
    if (!pc || !dladdr(pc, &i) || !i.dli_sname)
        return "?";
    int st;
    char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    std::string s = d ? d : i.dli_sname;
    free(d);
    auto p = s.find('(');
    return s.substr(0, p == std::string::npos || p == 0 ? 100 : std::min<size_t>(p, 100));
}
[[noreturn]] void finish_child(int status, const std::string& msg)
{
    g_active = false;
    size_t n = std::min(msg.size(), sizeof S->msg - 1);
    memcpy(S->msg, msg.data(), n);
    S->msg[n] = 0;
    S->status = status;
    _exit(0);
}
int g_cmd[2] = {-1, -1}, g_reply[2] = {-1, -1};
pid_t g_runner = 0;
const McProgram* g_runner_prog = nullptr;
long g_runner_runs = 0;

}    // namespace
namespace vf
{
bool g_mc_time_free = false;
void (*g_mc_sys)(const SysInfo&) = nullptr;
bool g_mc_order_all = false;
}
namespace
{
// ---------------------------------------------------------------- scheduling
bool enabled(int t)
{
    auto& x = g_thr[t];
    if (x.state != Thr::Ready)
        return false;
    if (!x.cond)
        return x.deadline == INT64_MAX || g_virtual_now_ns >= x.deadline;
    return x.cond->ok() || (x.deadline != INT64_MAX && g_virtual_now_ns >= x.deadline);
}
bool finished_all()
{
    for (int i = 0; i < g_nthr; ++i)
        if (g_thr[i].state == Thr::Ready && !g_thr[i].daemon)
            return false;
    return true;
}
std::string thread_states()
{
    std::string s;
    for (int i = 0; i < g_nthr; ++i)
        s += fmt(" T%d:%s", i, g_thr[i].state == Thr::Done ? "done" : g_thr[i].state == Thr::Dead ? "dead" : g_thr[i].held ? "waiting with locks held" : "waiting");
    return s;
}
// The calling thread (or -1 for the main one) is at a decision. Returns when it may go on.
void decide(int me, Kind kind)
{
    ++t_ignore;
    int n = S->nsteps;
    if (n >= kMaxSteps)
        finish_child(2, "the execution does not end (more than 30000 steps)");
    Step& st = S->steps[n];
    st.cur = me < 0 ? 255 : me;
    st.kind = kind;
    st.nkeys = 0;
    if (me >= 0)
    {
        auto& p = g_thr[me].pend;
        st.nkeys = std::min<size_t>(p.size(), kKeys);
        for (int i = 0; i < st.nkeys; ++i)
            st.k[i] = p[i];
        p.clear();
    }
    uint16_t en = 0, timed = 0;
    for (int i = 0; i < g_nthr; ++i)
        if (enabled(i))
            en |= 1 << i;
        else if (g_thr[i].state == Thr::Ready && g_thr[i].deadline != INT64_MAX && (!g_thr[i].cond || g_thr[i].deadline < INT64_MAX))
            timed |= 1 << i;
    int pick = -1;
    if (!en && (!timed || finished_all()))
    {
        if (finished_all())
        {
            --t_ignore;
            sem_post(&g_main_sem);
            return;
        }
        finish_child(2, "deadlock:" + thread_states());
    }
    st.cur_enabled = me >= 0 && (en >> me & 1);
    // Unless the program is about time, it passes only while nobody can run.
    st.alts = en | (g_mc_time_free ? timed : 0);
    int first = -1;
    for (int i = 0; i < g_nthr; ++i)
        if ((timed >> i & 1) && (first < 0 || g_thr[i].deadline < g_thr[first].deadline))
            first = i;
    if (!st.alts)
        st.alts = 1 << first;
    if (g_forced_pos < S->nforced && S->forced[g_forced_pos].step == n)
    {
        pick = S->forced[g_forced_pos++].tid;
        if (!(st.alts >> pick & 1))
            finish_child(4, fmt("step %d: thread %d cannot run", n, pick));
    }
    else if (st.cur_enabled)
        pick = me;
    else if (en)
        pick = __builtin_ctz(en);
    else
        pick = first;
    st.chosen = pick;
    S->nsteps = n + 1;
    if (!(en >> pick & 1))
        g_virtual_now_ns = std::max(g_virtual_now_ns, g_thr[pick].deadline);
    auto& x = g_thr[pick];
    x.timed_out = x.cond && !x.cond->ok();
    x.cond = nullptr;
    x.deadline = INT64_MAX;
    --t_ignore;
    if (pick == me)
        return;
    sem_post(&x.sem);
    if (me >= 0 && g_thr[me].state != Thr::Done)
        while (sem_wait(&g_thr[me].sem))
            ;
}
void point(Kind kind, std::initializer_list<Acc> keys)
{
    if (!controlled())
        return;
    g_thr[t_tid].pend.assign(keys);
    decide(t_tid, kind);
}
// Waits until the condition holds (or the deadline has passed); true if it holds.
bool wait_for(Kind kind, McCond* c, int64_t deadline, std::initializer_list<Acc> keys)
{
    auto& x = g_thr[t_tid];
    x.cond = c;
    x.deadline = deadline;
    x.pend.assign(keys);
    decide(t_tid, kind);
    return !x.timed_out;
}

// ---------------------------------------------------------------- happens-before
std::map<uint64_t, VC>* g_sync;
VC& sync_of(uint64_t k) { return (*g_sync)[k]; }
void hb_acquire(uint64_t k)
{
    Ign ig;
    if (controlled())
        g_thr[t_tid].vc.join(sync_of(k));
}
void hb_release(uint64_t k, bool add = true)
{
    Ign ig;
    if (!controlled())
        return;
    auto& v = sync_of(k);
    if (!add)
        v = VC();
    v.join(g_thr[t_tid].vc);
    ++g_thr[t_tid].vc.c[t_tid];
}

struct Cell
{
    uint32_t wclk;
    uint8_t wtid, wmask, freed, pad;
    uint32_t rclk[kMax];
    uint8_t rmask[kMax];
    uint16_t pad2;
    const void* wpc;
    const void* rpc;
};
constexpr size_t kChunkBits = 7, kTop = 1 << 16, kPool = 1 << 14;
struct Top
{
    uint64_t key;
    Cell* cells;
};
Top* g_top;
Cell* g_pool;
size_t g_pool_used;
uint32_t* g_top_used;
size_t g_top_used_n;
Cell* cell(uint64_t addr, bool make)
{
    uint64_t k = (addr >> (3 + kChunkBits)) + 1;
    size_t h = (k * 0x9e3779b97f4a7c15ull) >> 48;
    while (g_top[h].key && g_top[h].key != k)
        h = (h + 1) & (kTop - 1);
    if (!g_top[h].key)
    {
        if (!make || g_pool_used == kPool)
            return nullptr;
        g_top[h].key = k;
        g_top[h].cells = g_pool + (g_pool_used++ << kChunkBits);
        g_top_used[g_top_used_n++] = h;
    }
    return g_top[h].cells + ((addr >> 3) & ((1 << kChunkBits) - 1));
}
bool g_any_freed = false;
constexpr size_t kQuarantine = 1 << 18;
void** g_quarantine;
size_t g_quarantine_n;
template <class T>
T* map_pages(size_t n)
{
    return (T*)mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
extern "C" void __libc_free(void*);
void shadow_init()
{
    if (!g_top)
    {
        g_top = map_pages<Top>(kTop);
        g_pool = map_pages<Cell>(kPool << kChunkBits);
        g_quarantine = map_pages<void*>(kQuarantine);
        g_top_used = map_pages<uint32_t>(kPool);
    }
    for (size_t i = 0; i < g_top_used_n; ++i)
        g_top[g_top_used[i]] = {};
    memset(g_pool, 0, (g_pool_used << kChunkBits) * sizeof(Cell));
    g_top_used_n = g_pool_used = 0;
    for (size_t i = 0; i < g_quarantine_n; ++i)
        __libc_free(g_quarantine[i]);
    g_quarantine_n = 0;
    g_any_freed = false;
}
void access1(uint64_t addr, unsigned mask, bool write, const void* pc)
{
    Cell* c = cell(addr, true);
    if (!c)
        return;
    auto& me = g_thr[t_tid];
    if (c->freed & mask)
        finish_child(2, fmt("use after release: %s touches memory released by %s", where(pc).c_str(), where(c->wpc).c_str()));
    if ((c->wmask & mask) && c->wtid != t_tid && c->wclk > me.vc.c[c->wtid])
        finish_child(2, fmt("data race: %s by T%d and write in %s by T%d", where(pc).c_str(), t_tid, where(c->wpc).c_str(), c->wtid));
    if (write)
    {
        for (int i = 0; i < g_nthr; ++i)
            if (i != t_tid && (c->rmask[i] & mask) && c->rclk[i] > me.vc.c[i])
                finish_child(2, fmt("data race: write in %s by T%d and read in %s by T%d", where(pc).c_str(), t_tid, where(c->rpc).c_str(), i));
        if (c->wtid != t_tid || c->wclk != me.vc.c[t_tid])
            c->wmask = mask;
        else
            c->wmask |= mask;
        c->wtid = t_tid;
        c->wclk = me.vc.c[t_tid];
        c->wpc = pc;
    }
    else
    {
        if (c->rclk[t_tid] != me.vc.c[t_tid])
            c->rmask[t_tid] = mask;
        else
            c->rmask[t_tid] |= mask;
        c->rclk[t_tid] = me.vc.c[t_tid];
        c->rpc = pc;
    }
}
void access(const void* p, size_t n, bool write, const void* pc)
{
    if (!g_active)
    {
        if (g_any_freed && S)
        {
            uint64_t a = (uint64_t)p;
            for (uint64_t g = a & ~7ull; g < a + n; g += 8)
                if (Cell* c = cell(g, false))
                    if (c->freed)
                        finish_child(2, fmt("use after release: %s touches memory released by %s", where(pc).c_str(), where(c->wpc).c_str()));
        }
        return;
    }
    if (t_tid < 0 || t_ignore)
        return;
    uint64_t a = (uint64_t)p, e = a + n;
    while (a < e)
    {
        uint64_t g = a & ~7ull;
        uint64_t to = std::min(e, g + 8);
        unsigned mask = ((1u << (to - a)) - 1) << (a - g);
        access1(g, mask, write, pc);
        a = to;
    }
}
// The memory has another owner from now on.
void forget(void* p, size_t n)
{
    for (uint64_t a = (uint64_t)p & ~7ull; a < (uint64_t)p + n;)
    {
        Cell* c = cell(a, false);
        if (!c)
        {
            a = ((a >> (3 + kChunkBits)) + 1) << (3 + kChunkBits);
            continue;
        }
        memset(c, 0, sizeof *c);
        a += 8;
    }
}
void release_memory(void* p, const void* pc)
{
    size_t n = malloc_usable_size(p);
    ++t_ignore;
    --t_ignore;
    if (!t_ignore)
    {
        access(p, n, true, pc);
        for (uint64_t a = (uint64_t)p & ~7ull; a < (uint64_t)p + n; a += 8)
            if (Cell* c = cell(a, true))
            {
                c->freed = 255;
                c->wpc = pc;
            }
        g_any_freed = true;
        memset(p, 0xdd, n);
        if (g_quarantine_n < kQuarantine)
            g_quarantine[g_quarantine_n++] = p;
    }
}

// ---------------------------------------------------------------- locks
struct LockSt
{
    int owner = -1, shared = 0;
    int sh[kMax] = {};
    bool recursive = false;
    int depth = 0;
};
std::map<void*, LockSt>* g_locks;
LockSt& lock_of(void* m) { return (*g_locks)[m]; }
int g_held_free = 0;    // outside of executions
[[noreturn]] void stuck()
{
    if (vrt_self_deadlock_hook)
        vrt_self_deadlock_hook();
    if (S)
        finish_child(2, "a lock is taken twice by the same thread");
    fprintf(stderr, "SELF-DEADLOCK\n");
    abort();
}
struct LockCond : McCond
{
    LockSt* l;
    int me;
    bool sh;
    LockCond(LockSt* l, int me, bool sh) : l(l), me(me), sh(sh) {}
    bool ok() override { return sh ? l->owner == -1 : (l->owner == -1 && l->shared == 0); }
};
bool grab(LockSt& l, int me, bool sh)
{
    if (l.owner != -1 || (!sh && l.shared))
        return false;
    if (sh)
    {
        ++l.shared;
        if (me >= 0)
            ++l.sh[me];
    }
    else
        l.owner = me < 0 ? 1000 : me;
    return true;
}
void lock_impl(void* m, bool sh)
{
    Ign ig;
    auto& l = lock_of(m);
    if (!controlled())
    {
        if (!grab(l, -1, sh))
            stuck();
        ++g_held_free;
        return;
    }
    auto& me = g_thr[t_tid];
    LockCond c(&l, t_tid, sh);
    wait_for(kLock, &c, INT64_MAX, {{(uint64_t)m, (uint8_t)(sh ? kMcRead : kMcWrite)}});
    if (!grab(l, t_tid, sh))
        finish_child(3, "scheduler: lock not available");
    ++me.held;
    me.last_acquire = S->nsteps;
    hb_acquire((uint64_t)m);
}
bool trylock_impl(void* m, bool sh)
{
    Ign ig;
    auto& l = lock_of(m);
    if (!controlled())
    {
        bool r = grab(l, -1, sh);
        g_held_free += r;
        return r;
    }
    point(kLock, {{(uint64_t)m, (uint8_t)(sh ? kMcRead : kMcWrite)}});
    if (!grab(l, t_tid, sh))
        return false;
    ++g_thr[t_tid].held;
    g_thr[t_tid].last_acquire = S->nsteps;
    hb_acquire((uint64_t)m);
    return true;
}
void unlock_impl(void* m, bool sh)
{
    Ign ig;
    auto& l = lock_of(m);
    if (!controlled())
    {
        if (sh ? l.shared == 0 : l.owner == -1)
            return;
        if (sh)
            --l.shared;
        else
            l.owner = -1;
        --g_held_free;
        return;
    }
    if (sh ? l.shared == 0 : (l.owner != t_tid && l.owner != 1000))
        finish_child(2, fmt("T%d releases a lock it does not hold", t_tid));
    hb_release((uint64_t)m);
    if (sh)
    {
        --l.shared;
        if (l.sh[t_tid])
            --l.sh[t_tid];
    }
    else
        l.owner = -1;
    --g_thr[t_tid].held;
}
struct AwaitCond : McCond
{
    LockSt* l;
    bool (*fn)(void*);
    void* arg;
    bool ok() override { return l->owner == -1 && l->shared == 0 && fn(arg); }
};
struct FreeCond : McCond
{
    LockSt* l;
    bool ok() override { return l->owner == -1 && l->shared == 0; }
};
std::map<void*, std::set<int>>* g_cv_woken;
std::map<void*, std::vector<int>>* g_cv_waiters;
struct CvCond : McCond
{
    void* cv;
    int me;
    LockSt* l;
    bool ok() override { return (*g_cv_woken)[cv].count(me) && (!l || (l->owner == -1 && l->shared == 0)); }
};
bool cv_wait(void* cv, void* m, int64_t deadline)
{
    Ign ig;
    auto& l = lock_of(m);
    unlock_impl(m, false);
    (*g_cv_waiters)[cv].push_back(t_tid);
    CvCond c;
    c.cv = cv;
    c.me = t_tid;
    c.l = &l;
    bool ok = wait_for(kBlocked, &c, deadline, {{(uint64_t)cv, kMcWrite}});
    auto& w = (*g_cv_waiters)[cv];
    w.erase(std::remove(w.begin(), w.end(), t_tid), w.end());
    (*g_cv_woken)[cv].erase(t_tid);
    if (!ok)
    {
        FreeCond f;
        f.l = &l;
        wait_for(kLock, &f, INT64_MAX, {{(uint64_t)m, kMcWrite}});
    }
    grab(l, t_tid, false);
    ++g_thr[t_tid].held;
    g_thr[t_tid].last_acquire = S->nsteps;
    hb_acquire((uint64_t)m);
    hb_acquire((uint64_t)cv);
    return ok;
}
void cv_signal(void* cv, int n)
{
    Ign ig;
    point(kLock, {{(uint64_t)cv, kMcWrite}});
    hb_release((uint64_t)cv);
    auto& w = (*g_cv_waiters)[cv];
    auto& k = (*g_cv_woken)[cv];
    for (int t : w)
        if (n != 0 && !k.count(t))
        {
            k.insert(t);
            --n;
        }
}
void reset_tables()
{
    g_sync = new std::map<uint64_t, VC>();
    if (!g_locks)
        g_locks = new std::map<void*, LockSt>();
    g_cv_woken = new std::map<void*, std::set<int>>();
    g_cv_waiters = new std::map<void*, std::vector<int>>();
}
struct InitLocks
{
    InitLocks() { reset_tables(); }
};
void ensure()
{
    if (!g_locks)
        reset_tables();
}

// ---------------------------------------------------------------- storage
uint64_t mix(uint64_t a, uint64_t b)
{
    a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
    a *= 0xff51afd7ed558ccdull;
    return a ^ (a >> 33);
}
uint64_t ino_key(const struct stat& s) { return mix(0x11, mix(s.st_dev, s.st_ino)) | 1ull << 63; }
std::set<int>* g_db_fds;
std::map<uint64_t, std::map<int, int>>* g_flocks;    // inode -> descriptor -> mode
std::map<int, uint64_t>* g_fd_ino;
std::map<int, int>* g_fd_owner;
struct FlockCond : McCond
{
    uint64_t ino;
    int fd, op;
    bool ok() override
    {
        for (auto& [f, m] : (*g_flocks)[ino])
            if (f != fd && (m == LOCK_EX || op == LOCK_EX))
                return false;
        return true;
    }
};
bool is_db_name(const char* p)
{
    if (!p)
        return false;
    size_t n = strlen(p);
    return (n > 3 && !strcmp(p + n - 3, ".db")) || (n > 8 && !strcmp(p + n - 8, "-journal")) || (n > 4 && !strcmp(p + n - 4, "-wal"));
}
void path_keys(std::vector<Acc>& k, int dirfd, const char* path, bool mut, bool namespace_change, bool follow)
{
    std::string p = path, d, b;
    while (p.size() > 1 && p.back() == '/')
        p.pop_back();
    auto s = p.rfind('/');
    d = s == std::string::npos ? "." : s == 0 ? "/" : p.substr(0, s);
    b = s == std::string::npos ? p : p.substr(s + 1);
    int df = dirfd >= 0 ? dirfd : AT_FDCWD;
    struct stat st;
    if (syscall(SYS_newfstatat, df, d.c_str(), &st, 0) == 0)
    {
        uint64_t dk = ino_key(st);
        k.push_back({mix(dk, hash_str(b)) | 1, (uint8_t)(namespace_change ? kMcWrite : kMcRead)});
        if (namespace_change)
            k.push_back({mix(dk, 7) | 1, kMcAdd});
    }
    if (syscall(SYS_newfstatat, df, path, &st, follow ? 0 : AT_SYMLINK_NOFOLLOW) == 0)
        k.push_back({ino_key(st), (uint8_t)(mut ? kMcWrite : kMcRead)});
}
SysAction sys_hook_inner(const SysInfo& i);
SysAction sys_hook(const SysInfo& i)
{
    auto r = sys_hook_inner(i);
    if (g_mc_sys && controlled())
    {
        Ign ig;
        g_mc_sys(i);
    }
    return r;
}
SysAction sys_hook_inner(const SysInfo& i)
{
    Ign ig;
    if (!controlled())
        return {};
    auto& p = g_thr[t_tid].pend;
    std::vector<Acc> k;
    bool db = is_db_name(i.path) || (i.fd >= 0 && !i.path && g_db_fds->count(i.fd));
    switch (i.id)
    {
    case kFlock:
    {
        struct stat st;
        if (syscall(SYS_fstat, i.fd, &st))
            return {};
        uint64_t ino = ino_key(st);
        int op = i.off & ~LOCK_NB;
        FlockCond c;
        c.ino = ino;
        c.fd = i.fd;
        c.op = op;
        if (op == LOCK_UN || (i.off & LOCK_NB))
            point(kSys, {{mix(ino, 3), kMcWrite}});
        else
        {
            // Changing the kind of a lock gives the old one up first.
            wait_for(kSys, &c, INT64_MAX, {{mix(ino, 3), kMcWrite}});
            g_thr[t_tid].last_acquire = S->nsteps;
        }
        return {};
    }
    case kFcntl:
        // SQLite's locks on its file.
        if (i.fd >= 0)
        {
            struct stat st;
            if (syscall(SYS_fstat, i.fd, &st) == 0)
                point(kSys, {{mix(ino_key(st), 4), kMcWrite}});
        }
        return {};
    case kPwrite: case kWrite: case kFtruncate: case kFsync: case kPread: case kRead: case kFstat: case kGetxattr: case kListxattr: case kSetxattr: case kRemovexattr: case kChmod: case kChown: case kUtimens:
    {
        if (db)
            return {};
        if (i.fd >= 0 && !i.path)
        {
            if (i.fd <= 2)
                return {};
            struct stat st;
            if (syscall(SYS_fstat, i.fd, &st))
                return {};
            if (!S_ISREG(st.st_mode) && !S_ISDIR(st.st_mode))
                return {};
            if (i.id == kFsync)
                return {};
            if (i.mutating && g_mc_order_all)
                point(kSys, {{ino_key(st), kMcWrite}, {0x7777, kMcWrite}});
            else
                point(kSys, {{ino_key(st), (uint8_t)(i.mutating ? kMcWrite : kMcRead)}});
            return {};
        }
        if (i.path)
            path_keys(k, i.fd, i.path, i.mutating, false, false);
        break;
    }
    case kReaddir: case kOpendir:
    {
        struct stat st;
        if (i.path ? syscall(SYS_newfstatat, AT_FDCWD, i.path, &st, 0) : i.fd >= 0 ? syscall(SYS_fstat, i.fd, &st) : -1)
            return {};
        k.push_back({mix(ino_key(st), 7) | 1, kMcRead});
        break;
    }
    case kOpen: case kStat: case kReadlink:
        if (!i.path || !strncmp(i.path, "/dev/", 5) || !strncmp(i.path, "/proc/", 6) || !strncmp(i.path, "/etc/", 5))
            return {};
        if (i.id == kOpen && (i.off & O_CREAT))
            path_keys(k, i.fd, i.path, true, true, true);
        else
            path_keys(k, i.fd, i.path, i.mutating, false, i.id == kOpen);
        break;
    case kUnlink: case kRmdir: case kMkdir: case kSymlink:
        path_keys(k, i.fd, i.path, true, true, false);
        if (i.id == kRmdir)
        {
            // Depends on what is in it.
            struct stat st;
            if (syscall(SYS_newfstatat, i.fd >= 0 ? i.fd : AT_FDCWD, i.path, &st, AT_SYMLINK_NOFOLLOW) == 0)
                k.push_back({mix(ino_key(st), 7) | 1, kMcRead});
        }
        break;
    case kRename: case kLink:
        path_keys(k, i.fd, i.path, true, true, false);
        if (i.path2)
        {
            std::vector<Acc> k2;
            path_keys(k2, i.fd2, i.path2, true, i.id == kRename, false);
            k.insert(k.end(), k2.begin(), k2.end());
        }
        break;
    default: return {};
    }
    if (i.mutating && g_mc_order_all)
        k.push_back({0x7777, kMcWrite});
    p = k;
    decide(t_tid, kSys);
    return {};
}
void sys_after(const SysInfo& i, long rc)
{
    Ign ig;
    if (!g_active)
        return;
    if (i.id == kOpen && rc >= 0)
    {
        if (is_db_name(i.path))
            g_db_fds->insert(rc);
        else
            g_db_fds->erase(rc);
        (*g_fd_owner)[rc] = t_tid;
    }
    if (i.id == kFlock && rc == 0)
    {
        struct stat st;
        if (syscall(SYS_fstat, i.fd, &st))
            return;
        int op = i.off & ~LOCK_NB;
        auto& m = (*g_flocks)[ino_key(st)];
        if (op == LOCK_UN)
            m.erase(i.fd);
        else
            m[i.fd] = op;
    }
}
void close_hook(int fd)
{
    Ign ig;
    if (!g_active)
        return;
    struct stat st;
    if (!g_db_fds->count(fd) && syscall(SYS_fstat, fd, &st) == 0)
    {
        auto k = ino_key(st);
        auto it = g_flocks->find(k);
        if (it != g_flocks->end() && it->second.count(fd))
        {
            if (controlled())
                point(kSys, {{mix(k, 3), kMcWrite}});
            it->second.erase(fd);
        }
    }
    g_db_fds->erase(fd);
    g_fd_owner->erase(fd);
}
struct NeverCond : McCond
{
    bool ok() override { return false; }
};
bool sleep_hook(int64_t ns)
{
    if (!controlled())
        return g_no_sleep;
    NeverCond c;
    wait_for(kSleep, &c, g_virtual_now_ns + std::max<int64_t>(ns, 1), {});
    return true;
}

// ---------------------------------------------------------------- one execution
void thread_gone(void*)
{
    if (t_tid < 0)
        return;
    int me = t_tid;
    auto& x = g_thr[me];
    if (x.held)
        finish_child(2, fmt("thread %d ends with a lock held", me));
    hb_release(mix(0x77, me));
    x.state = Thr::Done;
    decide(me, kExit);
    t_tid = -1;
}
void* thread_main(void* a)
{
    int me = (int)(intptr_t)a;
    while (sem_wait(&g_thr[me].sem))
        ;
    t_tid = me;
    {
        Ign ig;
        pthread_attr_t at;
        void* lo;
        size_t n;
        if (pthread_getattr_np(pthread_self(), &at) == 0)
        {
            // Another thread's stack may have been here.
            if (pthread_attr_getstack(&at, &lo, &n) == 0)
                forget(lo, n);
            pthread_attr_destroy(&at);
        }
    }
    pthread_setspecific(g_exit_key, (void*)1);
    return g_thr[me].fn(g_thr[me].arg);
}
int new_thread(void* (*fn)(void*), void* arg)
{
    if (g_nthr >= kMax)
        finish_child(3, "too many threads");
    int id = g_nthr++;
    auto& x = g_thr[id];
    sem_init(&x.sem, 0, 0);
    x.fn = fn;
    x.arg = arg;
    x.state = Thr::Ready;
    x.vc.c[id] = 1;
    return id;
}
void* run_thread_fn(void* a)
{
    try
    {
        (*(const std::function<void()>*)a)();
    }
    catch (const Failure& e)
    {
        finish_child(2, e.what());
    }
    catch (const HarnessError& e)
    {
        finish_child(3, e.what());
    }
    catch (const std::exception& e)
    {
        finish_child(2, std::string("exception out of a thread: ") + e.what());
    }
    return nullptr;
}
std::string g_outcome;
int64_t g_start_time = -1;
// One execution; returns normally when it is fine.
void run_once(const McProgram& p)
{
    alarm(30);
    try
    {
        ensure();
        g_nthr = 0;
        g_forced_pos = 0;
        g_held_free = 0;
        t_ignore = 0;
        t_tid = -1;
        for (auto& x : g_thr)
        {
            x.~Thr();
            new (&x) Thr();
        }
        for (auto it = g_locks->begin(); it != g_locks->end();)
            it = it->second.owner == -1 && !it->second.shared ? g_locks->erase(it) : ++it;
        g_outcome.clear();
        delete g_sync;
        g_sync = new std::map<uint64_t, VC>();
        delete g_flocks;
        g_flocks = new std::map<uint64_t, std::map<int, int>>();
        delete g_fd_owner;
        g_fd_owner = new std::map<int, int>();
        delete g_db_fds;
        g_db_fds = new std::set<int>();
        g_cv_woken->clear();
        g_cv_waiters->clear();
        static bool once = false;
        if (!once)
        {
            pthread_key_create(&g_exit_key, thread_gone);
            sem_init(&g_main_sem, 0, 0);
            once = true;
        }
        shadow_init();
        if (g_start_time < 0)
            g_start_time = g_virtual_now_ns < 0 ? 1700000000000000000ll : g_virtual_now_ns;
        g_virtual_now_ns = g_start_time;
        if (p.setup)
            p.setup();
        if (g_held_free)
            finish_child(3, "locks held after the setup");
        // Descriptors opened so far.
        for (int fd = 3; fd < 100; ++fd)
        {
            char l[600], n[40];
            snprintf(n, sizeof n, "/proc/self/fd/%d", fd);
            ssize_t r = syscall(SYS_readlink, AT_FDCWD, n, l, sizeof l - 1);
            if (r > 0)
            {
                l[r] = 0;
                if (is_db_name(l))
                    g_db_fds->insert(fd);
            }
        }
        for (auto& t : p.threads)
            new_thread(run_thread_fn, (void*)&t);
        for (int d : p.daemons)
            g_thr[d].daemon = true;
        static auto real_create = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
        for (int i = 0; i < g_nthr; ++i)
            if (real_create(&g_thr[i].pt, nullptr, thread_main, (void*)(intptr_t)i))
                finish_child(3, "pthread_create");
        g_sys_hook = sys_hook;
        g_sys_after = sys_after;
        g_close_hook = close_hook;
        g_sleep_hook = sleep_hook;
        g_active = true;
        decide(-1, kStart);
        while (sem_wait(&g_main_sem))
            ;
        g_active = false;
        g_sys_hook = nullptr;
        g_sys_after = nullptr;
        g_close_hook = nullptr;
        g_sleep_hook = nullptr;
        for (size_t i = 0; i < p.threads.size(); ++i)
            if (g_thr[i].state == Thr::Done)
                pthread_join(g_thr[i].pt, nullptr);
        g_held_free = 0;
        if (p.finish)
            p.finish();
        S->outcome = hash_str(g_outcome);
        for (int i = 0; i < g_nthr; ++i)
            if (g_thr[i].state != Thr::Done)
                finish_child(1, "");    // it would stay around
    }
    catch (const Failure& e)
    {
        finish_child(2, e.what());
    }
    catch (const HarnessError& e)
    {
        finish_child(3, e.what());
    }
    catch (const std::exception& e)
    {
        finish_child(2, std::string("exception: ") + e.what());
    }
}
void run_child(const McProgram& p)
{
    bool first = true;
    for (;;)
    {
        char c;
        if (read(g_cmd[0], &c, 1) != 1)
            _exit(0);
        if (first && !p.fresh)
        {
            // What is done once per process is done now.
            int n = S->nforced;
            S->nforced = 0;
            run_once(p);
            S->nforced = n;
            S->nsteps = 0;
        }
        first = false;
        run_once(p);
        S->status = 1;
        if (p.fresh)
            _exit(0);
        if (write(g_reply[1], &c, 1) != 1)
            _exit(0);
    }
}
void stop_runner()
{
    if (!g_runner)
        return;
    close(g_cmd[1]);
    close(g_reply[0]);
    int st;
    while (waitpid(g_runner, &st, 0) < 0 && errno == EINTR)
        ;
    g_runner = 0;
}
void start_runner(const McProgram& p)
{
    if (pipe2(g_cmd, O_CLOEXEC) || pipe2(g_reply, O_CLOEXEC))
        throw HarnessError("pipe");
    fflush(nullptr);
    g_runner = fork();
    if (g_runner < 0)
        throw HarnessError("fork");
    if (g_runner == 0)
    {
        close(g_cmd[1]);
        close(g_reply[0]);
        run_child(p);
    }
    close(g_cmd[0]);
    close(g_reply[1]);
    g_runner_prog = &p;
    g_runner_runs = 0;
}
struct Sched
{
    std::vector<std::pair<int, int>> sw;
    int cost = 0;
};
std::string sched_str(const Sched& s)
{
    std::string r;
    for (auto& [a, b] : s.sw)
        r += (r.empty() ? "" : ",") + fmt("%d:%d", a, b);
    return r.empty() ? "-" : r;
}
Sched parse_sched(const std::string& s)
{
    Sched r;
    if (s != "-")
        for (auto& x : split(s, ','))
            r.sw.push_back({atoi(x.c_str()), atoi(x.substr(x.find(':') + 1).c_str())});
    return r;
}
// Throws the failure of the execution.
void execute(const McProgram& p, const Sched& s)
{
    if (!S)
        S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    S->status = 0;
    S->msg[0] = 0;
    S->nsteps = 0;
    S->outcome = 0;
    S->nforced = s.sw.size();
    for (size_t i = 0; i < s.sw.size(); ++i)
        S->forced[i] = {s.sw[i].first, s.sw[i].second};
    if (g_runner && (g_runner_prog != &p || g_runner_runs > 3000))
        stop_runner();
    if (!g_runner)
        start_runner(p);
    ++g_runner_runs;
    char c = 0;
    (void)!write(g_cmd[1], &c, 1);
    ssize_t r;
    while ((r = read(g_reply[0], &c, 1)) < 0 && errno == EINTR)
        ;
    if (r == 1)
        return;
    int st;
    while (waitpid(g_runner, &st, 0) < 0 && errno == EINTR)
        ;
    g_runner = 0;
    close(g_cmd[1]);
    close(g_reply[0]);
    if (S->status == 1)
        return;
    if (S->status == 2)
        throw Failure(S->msg);
    if (S->status == 3)
        throw HarnessError(S->msg);
    if (S->status == 4)
        throw HarnessError(std::string("the execution is not deterministic: ") + S->msg);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
        throw HarnessError("an execution hangs outside of the scheduler's control");
    if (WIFSIGNALED(st))
        throw Failure(fmt("the process dies of signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))));
    throw HarnessError(fmt("the execution ends unexpectedly, status %d", st));
}
}    // namespace

namespace vf
{
bool mc_active() { return controlled(); }
int mc_self() { return t_tid; }
long mc_step() { return S ? S->nsteps : 0; }
long mc_last_acquire() { return g_thr[t_tid].last_acquire; }
void mc_boundary()
{
    if (controlled())
        point(kBound, {});
}
void mc_point(uint64_t key, McAccess a) { point(kOp, {{key, (uint8_t)a}}); }
void mc_release(uint64_t k)
{
    Ign ig;
    if (controlled())
        hb_release(k);
}
void mc_acquire(uint64_t k)
{
    Ign ig;
    if (controlled())
        hb_acquire(k);
}
void mc_block(McCond& c, uint64_t key)
{
    if (controlled())
        wait_for(kOp, &c, INT64_MAX, {{key, kMcWrite}});
}
int mc_held() { return t_tid >= 0 ? g_thr[t_tid].held : g_held_free; }
void mc_violation(const std::string& w) { finish_child(2, w); }
void mc_harness_error(const std::string& w) { finish_child(3, w); }
void mc_note(const std::string& s) { Ign ig; g_outcome += s + ";"; }
void mc_kill(int t)
{
    Ign ig;
    if (g_thr[t].state != Thr::Ready)
        return;
    g_thr[t].state = Thr::Dead;
    // The kernel closes its files.
    std::vector<int> fds;
    for (auto& [f, o] : *g_fd_owner)
        if (o == t)
            fds.push_back(f);
    for (int f : fds)
    {
        for (auto& [i, m] : *g_flocks)
            m.erase(f);
        g_fd_owner->erase(f);
        g_db_fds->erase(f);
        syscall(SYS_flock, f, LOCK_UN);
        syscall(SYS_close, f);
    }
}
bool mc_dead(int t) { return g_thr[t].state == Thr::Dead; }
void mc_run_one(const McProgram& p, const std::string& s)
{
    execute(p, parse_sched(s));
    stop_runner();
}
void mc_explore(const McProgram& p, const McConfig& c, const std::string& prefix)
{
    std::vector<Sched> todo(1);
    long n = 0;
    while (!todo.empty())
    {
        Sched s = std::move(todo.back());
        todo.pop_back();
        if (++n > c.max_executions)
            throw HarnessError(prefix + ": more executions than the limit");
        std::string cs = prefix + "|" + sched_str(s);
        bool ok = false;
        begin_case(cs);
        guarded(cs, [&]
                {
                    execute(p, s);
                    ok = true;
                });
        count(kEval);
        count(kTransitions, S->nsteps);
        if (ok && distinct(mix(hash_str(prefix), S->outcome)))
            count(kStates);
        // What else could have been done, after the last forced switch.
        int N = S->nsteps;
        std::map<uint64_t, std::pair<uint32_t, uint32_t>> who;    // key -> per thread bits of reads, writes/adds
        struct W
        {
            uint16_t r = 0, w = 0, a = 0;
        };
        std::map<uint64_t, W> use;
        for (int i = 0; i < N; ++i)
        {
            auto& st = S->steps[i];
            if (st.cur == 255)
                continue;
            for (int j = 0; j < st.nkeys; ++j)
            {
                auto& u = use[st.k[j].key];
                (st.k[j].type == kMcRead ? u.r : st.k[j].type == kMcWrite ? u.w : u.a) |= 1 << st.cur;
            }
        }
        uint64_t th = 0;
        std::vector<Sched> next;
        int from = s.sw.empty() ? 0 : s.sw.back().first + 1;
        for (int i = 0; i < N; ++i)
        {
            auto& st = S->steps[i];
            bool conflict = st.kind == kStart || st.kind == kCreate || st.kind == kBound;
            for (int j = 0; j < st.nkeys && !conflict; ++j)
            {
                auto& u = use[st.k[j].key];
                uint16_t me = ~(1 << st.cur);
                uint8_t t = st.k[j].type;
                conflict = t == kMcRead ? ((u.w | u.a) & me) : t == kMcAdd ? ((u.w | u.r) & me) : ((u.w | u.a | u.r) & me);
            }
            if (conflict)
                th = mix(th, mix(i, st.chosen));
            if (i < from)
                continue;
            bool forced_choice = st.cur == 255 || !st.cur_enabled;
            if (!forced_choice && !conflict)
                continue;
            int cost = s.cost + (forced_choice ? 0 : 1);
            if (cost > c.preemptions)
                continue;
            if (s.sw.size() >= 60)
                continue;
            for (int t = 0; t < kMax; ++t)
                if ((st.alts >> t & 1) && t != st.chosen)
                {
                    Sched x = s;
                    x.sw.push_back({i, t});
                    x.cost = cost;
                    next.push_back(x);
                }
        }
        if (distinct(mix(th, hash_str(prefix) + 1)))
            count(kNontrivial);
        if (s.sw.empty() && c.of > 1)
        {
            std::vector<Sched> mine;
            for (size_t i = c.part; i < next.size(); i += c.of)
                mine.push_back(next[i]);
            next = mine;
        }
        todo.insert(todo.end(), next.rbegin(), next.rend());
    }
    stop_runner();
}
}    // namespace vf

// ---------------------------------------------------------------- hooks of the code under check
extern "C"
{
    void vrt_mutex_lock(void* m, int sh)
    {
        ensure();
        lock_impl(m, sh);
    }
    int vrt_mutex_trylock(void* m, int sh)
    {
        ensure();
        return trylock_impl(m, sh);
    }
    void vrt_mutex_unlock(void* m, int sh)
    {
        ensure();
        unlock_impl(m, sh);
    }
    void vrt_mutex_destroy(void* m)
    {
        Ign ig;
        ensure();
        auto it = g_locks->find(m);
        if (it == g_locks->end())
            return;
        if (controlled() && (it->second.owner != -1 || it->second.shared))
            finish_child(2, "a lock is destroyed while it is held");
        g_locks->erase(it);
        if (g_sync)
            g_sync->erase((uint64_t)m);
    }
    int vrt_mutex_await(void* m, bool (*cond)(void*), void* arg, int64_t deadline)
    {
        Ign ig;
        auto& l = lock_of(m);
        if (!controlled())
        {
            if (cond(arg))
                return 1;
            if (deadline == INT64_MAX)
                stuck();
            return cond(arg);
        }
        ++t_ignore;
        bool now = cond(arg);
        --t_ignore;
        if (now || g_virtual_now_ns >= deadline)
        {
            return now;
        }
        unlock_impl(m, false);
        AwaitCond c;
        c.l = &l;
        c.fn = cond;
        c.arg = arg;
        bool ok = wait_for(kLock, &c, deadline, {{(uint64_t)m, kMcWrite}});
        if (!ok && !(l.owner == -1 && l.shared == 0))
        {
            FreeCond f;
            f.l = &l;
            wait_for(kLock, &f, INT64_MAX, {{(uint64_t)m, kMcWrite}});
        }
        grab(l, t_tid, false);
        ++g_thr[t_tid].held;
        g_thr[t_tid].last_acquire = S->nsteps;
        hb_acquire((uint64_t)m);
        ++t_ignore;
        now = cond(arg);
        --t_ignore;
        return now;
    }
    int vrt_cv_wait(void* cv, void* m, int64_t deadline)
    {
        if (!controlled())
            return 1;
        return !cv_wait(cv, m, deadline);
    }
    void vrt_cv_signal(void* cv, int n)
    {
        if (controlled())
            cv_signal(cv, n);
    }
    int vrt_locks_held() { return mc_held(); }

    // Compiler-inserted calls.
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_ignore_thread_begin() { ++t_ignore; }
    void __tsan_ignore_thread_end() { --t_ignore; }
#define PC __builtin_return_address(0)
#define RW(n)                                                                                      \
    void __tsan_read##n(void* p) { access(p, n, false, PC); }                                      \
    void __tsan_write##n(void* p) { access(p, n, true, PC); }                                      \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); }                            \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }                            \
    void __tsan_read_write##n(void* p) { access(p, n, true, PC); }                                 \
    void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, PC); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
    void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
    void __tsan_vptr_update(void** p, void* v)
    {
        if (*p != v)
            access(p, 8, true, PC);
    }
    void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
    void* __tsan_memcpy(void* d, const void* s, size_t n)
    {
        access(s, n, false, PC);
        access(d, n, true, PC);
        return memcpy(d, s, n);
    }
    void* __tsan_memmove(void* d, const void* s, size_t n)
    {
        access(s, n, false, PC);
        access(d, n, true, PC);
        return memmove(d, s, n);
    }
    void* __tsan_memset(void* d, int c, size_t n)
    {
        access(d, n, true, PC);
        return memset(d, c, n);
    }
}
namespace
{
// Reference counts of standard pointers do not need their own scheduling points.
bool boring_atomic(const void* pc)
{
    Ign ig;
    static std::map<const void*, bool>* m = new std::map<const void*, bool>();
    auto it = m->find(pc);
    if (it != m->end())
        return it->second;
    Dl_info i;
    bool b = dladdr(pc, &i) && i.dli_sname
        && (!strncmp(i.dli_sname, "_ZNSt", 5) || !strncmp(i.dli_sname, "_ZNKSt", 6) || !strncmp(i.dli_sname, "_ZN9__gnu_cxx", 13) || !strncmp(i.dli_sname, "_ZSt", 4))
        && !strstr(i.dli_sname, "atomic");
    (*m)[pc] = b;
    return b;
}
// Inlining is off, so the accessor of std::atomic is the caller: look one frame up is not needed.
void atomic_pre(const volatile void* a, size_t n, bool write, const void* pc)
{
    if (!controlled() || t_ignore)
    {
        if (!g_active)
            access((const void*)a, n, false, pc);
        return;
    }
    if (!boring_atomic(pc))
        point(kAtomic, {{(uint64_t)a, (uint8_t)(write ? kMcWrite : kMcRead)}});
    Cell* c = cell((uint64_t)a & ~7ull, true);
    if (!c)
        return;
    unsigned mask = ((1u << n) - 1) << ((uint64_t)a & 7);
    auto& me = g_thr[t_tid];
    if (c->freed & mask)
        finish_child(2, fmt("use after release: %s touches memory released by %s", where(pc).c_str(), where(c->wpc).c_str()));
    if ((c->wmask & mask) && c->wtid != t_tid && c->wclk > me.vc.c[c->wtid])
        finish_child(2, fmt("data race: atomic access in %s by T%d and write in %s by T%d", where(pc).c_str(), t_tid, where(c->wpc).c_str(), c->wtid));
}
bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
void hb_op(const volatile void* a, int mo, bool load, bool store)
{
    if (!controlled() || t_ignore)
        return;
    if (load && acq(mo))
        hb_acquire((uint64_t)a);
    if (store)
    {
        if (rel(mo))
            hb_release((uint64_t)a, load);
        else if (!load)
        {
            Ign ig;
            sync_of((uint64_t)a) = VC();
        }
    }
}
}    // namespace
#define ATOMICS(n, T)                                                                              \
    extern "C" T __tsan_atomic##n##_load(const volatile T* a, int mo)                              \
    {                                                                                              \
        atomic_pre(a, sizeof(T), false, PC);                                                       \
        T r = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                \
        hb_op(a, mo, true, false);                                                                 \
        return r;                                                                                  \
    }                                                                                              \
    extern "C" void __tsan_atomic##n##_store(volatile T* a, T v, int mo)                           \
    {                                                                                              \
        atomic_pre(a, sizeof(T), true, PC);                                                        \
        hb_op(a, mo, false, true);                                                                 \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                  \
    }                                                                                              \
    extern "C" T __tsan_atomic##n##_exchange(volatile T* a, T v, int mo)                           \
    {                                                                                              \
        atomic_pre(a, sizeof(T), true, PC);                                                        \
        hb_op(a, mo, true, true);                                                                  \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                        \
    }                                                                                              \
    extern "C" T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int mo, int)     \
    {                                                                                              \
        atomic_pre(a, sizeof(T), true, PC);                                                        \
        T e = c;                                                                                   \
        bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);\
        hb_op(a, mo, true, ok);                                                                    \
        return e;                                                                                  \
    }                                                                                              \
    extern "C" int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int f) \
    {                                                                                              \
        T o = *c, r = __tsan_atomic##n##_compare_exchange_val(a, o, v, mo, f);                     \
        *c = r;                                                                                    \
        return r == o;                                                                             \
    }                                                                                              \
    extern "C" int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int f) \
    {                                                                                              \
        return __tsan_atomic##n##_compare_exchange_strong(a, c, v, mo, f);                         \
    }
#define RMW(n, T, name, fn)                                                                        \
    extern "C" T __tsan_atomic##n##_##name(volatile T* a, T v, int mo)                             \
    {                                                                                              \
        atomic_pre(a, sizeof(T), true, PC);                                                        \
        hb_op(a, mo, true, true);                                                                  \
        return fn(a, v, __ATOMIC_SEQ_CST);                                                         \
    }
#define ALL(n, T)                                                                                  \
    ATOMICS(n, T)                                                                                  \
    RMW(n, T, fetch_add, __atomic_fetch_add)                                                       \
    RMW(n, T, fetch_sub, __atomic_fetch_sub)                                                       \
    RMW(n, T, fetch_and, __atomic_fetch_and)                                                       \
    RMW(n, T, fetch_or, __atomic_fetch_or)                                                         \
    RMW(n, T, fetch_xor, __atomic_fetch_xor)                                                       \
    RMW(n, T, fetch_nand, __atomic_fetch_nand)
ALL(8, uint8_t)
ALL(16, uint16_t)
ALL(32, uint32_t)
ALL(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- memory
extern "C" void free(void* p)
{
    // Memory of libraries: what they do with it is not seen, but it may come back to us.
    if (p && g_active)
        forget(p, malloc_usable_size(p));
    __libc_free(p);
}
static void* alloc(size_t n, size_t al = 0)
{
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
static void dealloc(void* p, const void* pc)
{
    if (!p)
        return;
    if (controlled() && !t_ignore)
        release_memory(p, pc);
    else if (!g_active || t_tid < 0)
        free(p);
}
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void* operator new(size_t n, std::align_val_t a) { return alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return alloc(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { dealloc(p, PC); }
void operator delete[](void* p) noexcept { dealloc(p, PC); }
void operator delete(void* p, size_t) noexcept { dealloc(p, PC); }
void operator delete[](void* p, size_t) noexcept { dealloc(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { dealloc(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { dealloc(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { dealloc(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { dealloc(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { dealloc(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { dealloc(p, PC); }

// ---------------------------------------------------------------- threads, system mutexes, guards
namespace
{
struct DoneCond : McCond
{
    int t;
    bool ok() override { return g_thr[t].state == Thr::Done; }
};
// A lock operation of the code under check itself, not of a library it uses.
extern "C" char __executable_start, etext;
bool own_code(const void* pc)
{
    return (const char*)pc >= &__executable_start && (const char*)pc < &etext;
}
struct SysMutexCond : McCond
{
    LockSt* l;
    int me;
    bool ok() override { return (l->owner == -1 && l->shared == 0) || (l->recursive && l->owner == me); }
};
// Locks of the C library while an execution runs. Those taken before or outside of it are not seen.
void sys_lock(void* m, bool sh, const void* pc, bool recursive)
{
    Ign ig;
    auto& l = lock_of(m);
    l.recursive = recursive;
    if (!sh && l.owner == t_tid && recursive)
    {
        ++l.depth;
        return;
    }
    bool own = own_code(pc);
    if (own)
    {
        lock_impl(m, sh);
        return;
    }
    LockCond c(&l, t_tid, sh);
    if (!c.ok())
        wait_for(kBlocked, &c, INT64_MAX, {});
    grab(l, t_tid, sh);
    hb_acquire((uint64_t)m);
    ++g_thr[t_tid].held;
}
bool sys_unlock(void* m)
{
    Ign ig;
    auto it = g_locks->find(m);
    if (it == g_locks->end())
        return false;
    auto& l = it->second;
    if (l.owner == t_tid && l.depth)
    {
        --l.depth;
        return true;
    }
    if (l.owner == t_tid)
    {
        unlock_impl(m, false);
        return true;
    }
    if (l.shared && l.sh[t_tid])
    {
        unlock_impl(m, true);
        return true;
    }
    return false;
}
bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int64_t abs_ns(const timespec* t) { return t->tv_sec * 1000000000ll + t->tv_nsec; }
}    // namespace
extern "C"
{
    int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
    {
        REALF(pthread_create);
        if (!controlled())
            return real(t, a, fn, arg);
        int id = new_thread(fn, arg);
        ++t_ignore;
        int rc = real(&g_thr[id].pt, a, thread_main, (void*)(intptr_t)id);
        --t_ignore;
        if (rc)
            finish_child(3, "pthread_create");
        *t = g_thr[id].pt;
        g_thr[id].vc.join(g_thr[t_tid].vc);
        ++g_thr[t_tid].vc.c[t_tid];
        point(kCreate, {});
        return 0;
    }
    int pthread_join(pthread_t t, void** r)
    {
        REALF(pthread_join);
        if (controlled())
            for (int i = 0; i < g_nthr; ++i)
                if (g_thr[i].state != Thr::None && pthread_equal(g_thr[i].pt, t))
                {
                    DoneCond c;
                    c.t = i;
                    wait_for(kBlocked, &c, INT64_MAX, {});
                    hb_acquire(mix(0x77, i));
                }
        return real(t, r);
    }
    int pthread_mutex_lock(pthread_mutex_t* m)
    {
        REALF(pthread_mutex_lock);
        if (!controlled() || t_ignore)
            return real(m);
        sys_lock(m, false, PC, is_recursive(m));
        return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t* m)
    {
        REALF(pthread_mutex_trylock);
        if (!controlled() || t_ignore)
            return real(m);
        Ign ig;
        auto& l = lock_of(m);
        if (l.owner == t_tid && is_recursive(m))
        {
            ++l.depth;
            return 0;
        }
        return trylock_impl(m, false) ? 0 : EBUSY;
    }
    int pthread_mutex_unlock(pthread_mutex_t* m)
    {
        REALF(pthread_mutex_unlock);
        if (!controlled() || t_ignore)
            return real(m);
        return sys_unlock(m) ? 0 : real(m);
    }
    int pthread_mutex_destroy(pthread_mutex_t* m)
    {
        REALF(pthread_mutex_destroy);
        if (controlled() && !t_ignore)
            vrt_mutex_destroy(m);
        return real(m);
    }
    int pthread_rwlock_rdlock(pthread_rwlock_t* m)
    {
        REALF(pthread_rwlock_rdlock);
        if (!controlled() || t_ignore)
            return real(m);
        sys_lock(m, true, PC, false);
        return 0;
    }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m)
    {
        REALF(pthread_rwlock_wrlock);
        if (!controlled() || t_ignore)
            return real(m);
        sys_lock(m, false, PC, false);
        return 0;
    }
    int pthread_rwlock_unlock(pthread_rwlock_t* m)
    {
        REALF(pthread_rwlock_unlock);
        if (!controlled() || t_ignore)
            return real(m);
        return sys_unlock(m) ? 0 : real(m);
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        REALF(pthread_cond_wait);
        if (!controlled())
            return real(c, m);
        cv_wait(c, m, INT64_MAX);
        return 0;
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
    {
        REALF(pthread_cond_timedwait);
        if (!controlled())
            return real(c, m, t);
        return cv_wait(c, m, abs_ns(t)) ? 0 : ETIMEDOUT;
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t)
    {
        REALF(pthread_cond_clockwait);
        if (!controlled())
            return real(c, m, k, t);
        return cv_wait(c, m, abs_ns(t)) ? 0 : ETIMEDOUT;
    }
    int pthread_cond_signal(pthread_cond_t* c)
    {
        REALF(pthread_cond_signal);
        if (!controlled())
            return real(c);
        cv_signal(c, 1);
        return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t* c)
    {
        REALF(pthread_cond_broadcast);
        if (!controlled())
            return real(c);
        cv_signal(c, -1);
        return 0;
    }
    int __cxa_guard_acquire(__cxxabiv1::__guard* g)
    {
        volatile uint8_t* b = (volatile uint8_t*)g;
        if (b[0])
            return 0;
        if (controlled())
        {
            struct C : McCond
            {
                volatile uint8_t* b;
                bool ok() override { return !b[1]; }
            } c;
            c.b = b;
            if (b[1])
                wait_for(kBlocked, &c, INT64_MAX, {});
            if (b[0])
            {
                hb_acquire((uint64_t)g);
                return 0;
            }
        }
        b[1] = 1;
        return 1;
    }
    void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept
    {
        volatile uint8_t* b = (volatile uint8_t*)g;
        hb_release((uint64_t)g);
        b[1] = 0;
        b[0] = 1;
    }
    void __cxa_guard_abort(__cxxabiv1::__guard* g) noexcept { ((volatile uint8_t*)g)[1] = 0; }

    // Cryptographic objects are used by one thread at a time.
#define CRYPTO(sym, params, args, self)                                                            \
    void sym params                                                                                \
    {                                                                                              \
        static auto real = (void(*) params)dlsym(RTLD_NEXT, #sym);                                 \
        access(self, 8, true, PC);                                                                 \
        real args;                                                                                 \
    }
    CRYPTO(_ZN8CryptoPP8GCM_Base6ResyncEPKhm, (void* t, const void* a, size_t n), (t, a, n), t)
    CRYPTO(_ZN8CryptoPP31AuthenticatedSymmetricCipherBase6UpdateEPKhm, (void* t, const void* a, size_t n), (t, a, n), t)
    CRYPTO(_ZN8CryptoPP31AuthenticatedSymmetricCipherBase14TruncatedFinalEPhm, (void* t, void* a, size_t n), (t, a, n), t)
    CRYPTO(_ZN8CryptoPP31AuthenticatedSymmetricCipherBase11ProcessDataEPhPKhm, (void* t, void* o, const void* a, size_t n), (t, o, a, n), t)
    CRYPTO(_ZN8CryptoPP9CMAC_Base6UpdateEPKhm, (void* t, const void* a, size_t n), (t, a, n), t)
    CRYPTO(_ZN8CryptoPP9CMAC_Base14TruncatedFinalEPhm, (void* t, void* a, size_t n), (t, a, n), t)
    CRYPTO(_ZN8CryptoPP14CTR_ModePolicy19CipherResynchronizeEPhPKhm, (void* t, void* o, const void* a, size_t n), (t, o, a, n), t)
}
