// Controlled scheduler: runs real threads one at a time, explores their interleavings, detects data
// races, uses of freed memory and deadlocks. Programs run in a forked child per execution.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vf
{
struct McProgram
{
    std::function<void()> setup;                        // in the child, before the threads
    std::vector<std::function<void()>> threads;
    std::function<void()> finish;                       // in the child, after the threads; throws Failure
    std::vector<int> daemons;                           // threads that need not finish
    bool fresh = false;                                 // a new process for every execution
};
struct McConfig
{
    int preemptions = 2;
    long max_executions = 2000000;
    int part = 0, of = 1;
};
// Explores every schedule with at most that many preemptions. Each execution is a case
// "<prefix>|<schedule>". Failures are thrown through guarded().
void mc_explore(const McProgram& p, const McConfig& c, const std::string& prefix);
// Runs one schedule and throws its failure.
void mc_run_one(const McProgram& p, const std::string& schedule);

// Deadlines may pass at any time, however slow the others are (otherwise only when nobody can run).
extern bool g_mc_time_free;

// Called right before every interposed system call of a thread, when set.
struct SysInfo;
extern void (*g_mc_sys)(const SysInfo&);
// When set, the order of all modifying system calls matters.
extern bool g_mc_order_all;

// Inside an execution.
bool mc_active();
int mc_self();                  // thread number, or -1
long mc_step();                 // number of scheduling decisions so far
long mc_last_acquire();         // step at which this thread last obtained a lock
void mc_boundary();             // a place where a switch is always considered
enum McAccess { kMcRead, kMcWrite, kMcAdd };
void mc_point(uint64_t key, McAccess a);    // an operation on a harness object is about to happen
struct McCond
{
    virtual bool ok() = 0;
};
void mc_release(uint64_t key);    // what this thread did so far happened before
void mc_acquire(uint64_t key);    // what others do after this
void mc_block(McCond& c, uint64_t key);     // waits until it holds
int mc_held();                  // locks held by this thread
[[noreturn]] void mc_violation(const std::string& what);
[[noreturn]] void mc_harness_error(const std::string& what);
void mc_note(const std::string& s);         // part of the outcome: distinct outcomes are counted
// A thread stops for good: what it holds in the kernel is released by the caller.
void mc_kill(int tid);
bool mc_dead(int tid);
}    // namespace vf
