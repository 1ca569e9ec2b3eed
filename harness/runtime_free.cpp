// Plain implementation of the vrt_* lock runtime for the harnesses without controlled scheduling. They have
// one thread (and the timer's, where a mount has an idle limit). Locking a mutex the same thread already
// holds would block forever: reported instead of hanging.
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <dirent.h>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include <unistd.h>

void (*vrt_self_deadlock_hook)() = nullptr;
namespace
{
struct St
{
    int waiters = 0;
    bool excl = false;
    std::thread::id owner;
    std::multiset<std::thread::id> shared;
    bool free() const { return !excl && shared.empty(); }
};
// Unlocked mutexes nobody waits for have no entry. Never destroyed: objects of static lifetime lock too.
std::map<void*, St>& tab()
{
    static auto* t = new std::map<void*, St>();
    return *t;
}
std::mutex& gm()
{
    static auto* m = new std::mutex();
    return *m;
}
std::condition_variable& gc()
{
    static auto* c = new std::condition_variable();
    return *c;
}
using Lk = std::unique_lock<std::mutex>;
[[noreturn]] void stuck()
{
    if (vrt_self_deadlock_hook)
        vrt_self_deadlock_hook();
    fprintf(stderr, "SELF-DEADLOCK: a lock is taken twice by the same thread\n");
    abort();
}
bool alone()
{
    DIR* d = opendir("/proc/self/task");
    if (!d)
        return true;
    int n = 0;
    while (auto* e = readdir(d))
        n += e->d_name[0] != '.';
    closedir(d);
    return n <= 1;
}
bool can(const St& s, int shared) { return !s.excl && (shared || s.shared.empty()); }
void take(St& s, int shared)
{
    auto me = std::this_thread::get_id();
    if (shared)
        s.shared.insert(me);
    else
    {
        s.excl = true;
        s.owner = me;
    }
}
void drop(void* m, int shared)
{
    auto it = tab().find(m);
    if (it == tab().end())
        return;
    auto& s = it->second;
    if (shared)
    {
        auto k = s.shared.find(std::this_thread::get_id());
        if (k == s.shared.end())
            k = s.shared.begin();
        if (k != s.shared.end())
            s.shared.erase(k);
    }
    else
        s.excl = false;
    if (s.free() && !s.waiters)
        tab().erase(it);
    gc().notify_all();
}
void lock_in(Lk& lk, void* m, int shared)
{
    auto* s = &tab()[m];
    auto me = std::this_thread::get_id();
    if (!can(*s, shared))
    {
        if ((s->excl && s->owner == me) || s->shared.count(me))
        {
            lk.unlock();
            stuck();
        }
        ++s->waiters;
        gc().wait(lk, [&] { return can(*s, shared); });
        --s->waiters;
    }
    take(*s, shared);
}
int64_t now_ns()
{
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    return t.tv_sec * 1000000000ll + t.tv_nsec;
}
void pause_unlocked(Lk& lk, void* m)
{
    drop(m, 0);
    gc().wait_for(lk, std::chrono::milliseconds(5));
    lock_in(lk, m, 0);
}
}    // namespace
extern "C"
{
    void vrt_mutex_lock(void* m, int shared)
    {
        Lk lk(gm());
        lock_in(lk, m, shared);
    }
    int vrt_mutex_trylock(void* m, int shared)
    {
        Lk lk(gm());
        auto& s = tab()[m];
        if (!can(s, shared))
            return 0;
        take(s, shared);
        return 1;
    }
    void vrt_mutex_unlock(void* m, int shared)
    {
        Lk lk(gm());
        drop(m, shared);
    }
    void vrt_mutex_destroy(void* m)
    {
        Lk lk(gm());
        tab().erase(m);
    }
    int vrt_mutex_await(void* m, bool (*cond)(void*), void* arg, int64_t deadline)
    {
        for (;;)
        {
            if (cond(arg))
                return 1;
            if (deadline != INT64_MAX && now_ns() >= deadline)
                return 0;
            if (alone())
            {
                if (deadline == INT64_MAX)
                    stuck();
                return 0;
            }
            Lk lk(gm());
            pause_unlocked(lk, m);
        }
    }
    int vrt_cv_wait(void*, void* m, int64_t)
    {
        if (!alone())
        {
            Lk lk(gm());
            pause_unlocked(lk, m);
        }
        return 1;
    }
    void vrt_cv_signal(void*, int) {}
    // Number of locks held now: after every completed operation it must be zero.
    int vrt_locks_held()
    {
        Lk lk(gm());
        int n = 0;
        for (auto& [m, s] : tab())
            n += !s.free();
        return n;
    }
}
