// Reference model of a POSIX tree and the interpreter that drives the file system under check and
// the model with the same operations, the way the kernel and libfuse would.
#pragma once
#include "fs.h"
#include <set>

namespace vf
{
struct MNode
{
    char type = 'f';
    mode_t mode = 0644;
    uid_t uid = 0;
    gid_t gid = 0;
    int nlink = 1, opens = 0;
    std::string data, target;
    std::map<std::string, int> kids;
    std::map<std::string, std::string> xa;
    // Allowed values, ns; kKernelNow stands for any recent time.
    std::set<int64_t> at, mt, ct;
};
constexpr int64_t kKernelNow = -1;
// "create a" ... Words of an operation are separated by one space; names are abbreviated:
// a component "@c" is c repeated 150 times, "@@c" 255 times, "#c" 256 times, "%c" 200 times,
// "~c" 100 times.
std::string expand_path(const std::string& p);
std::string pattern(int tag, size_t n, off_t off = 0);
extern int g_pattern_shift;    // gives all of them other bytes

class Model
{
public:
    explicit Model(const FsConfig& c);
    FsConfig cfg;
    std::map<int, MNode> n;
    int root = 1, next = 2;
    std::string base_cfg;
    std::string key(const std::string& name) const;      // equal for equivalent names
    std::string shown(const std::string& name) const;
    int* kid(int dir, const std::string& name);
    void erase_kid(int dir, const std::string& name);
    void set_kid(int dir, const std::string& name, int id);
    int64_t now = 0;                  // time shown to the code during the current operation
    uid_t creator_uid = 0;
    gid_t creator_gid = 0;
    struct Slot
    {
        int node = 0;
        bool rd = true, wr = true;
        std::string path;    // expanded; empty when the name is gone
    };
    Slot slots[4];
    Slot dirs[2];    // open directories

    // Looks a path up without following links; 0 when absent.
    int lookup(const std::string& path) const;
    int parent_of(const std::string& path, std::string* last) const;
    bool too_long(const std::string& name) const;
    // What the operation must return. kSkip: the kernel never passes it on. kAny: not specified.
    static constexpr int kSkip = 1000000;
    int apply(const std::string& op);    // changes the model; returns rc
    std::map<std::string, std::string> dump(const DumpOptions& o) const;
    int live_objects() const;    // reachable or open
    bool gate = false;           // what the kernel refuses gives an error instead of kSkip
    std::string last_read;       // expected data of the last read operation
    struct
    {
        bool valid = false;
        char type;
        long size;
        int nlink;
        mode_t mode;
        uid_t uid;
        gid_t gid;
    } last_stat;

    bool exact_times() const { return cfg.full && cfg.store_time; }
    int64_t clock() const { return exact_times() ? now : kKernelNow; }
    void touched(int id, const char* which, bool maybe = false);

private:
    int apply_inner(const std::vector<std::string>& w);
    void touch_by(const Model& before, const std::vector<std::string>& w, int rc);
    void dump_rec(const std::string& p, int id, const DumpOptions& o, std::map<int, std::string>& seen, std::map<std::string, std::string>& out) const;
    void drop(int id);
    void retarget(const std::string& from, const std::string& to);
    bool is_ancestor(int a, const std::string& path) const;
};

class FsRun
{
public:
    FsRun(const FsConfig& c, const std::string& dir, bool fresh = true);
    FsRun(const FsConfig& c, const std::string& dir, std::unique_ptr<Mount> mounted) : cfg(c), dir(dir), m(std::move(mounted)), model(c) {}
    ~FsRun();
    FsConfig cfg;
    std::string dir;
    std::unique_ptr<Mount> m;
    Model model;
    DumpOptions dopt;
    bool check_storage = false, check_times = false;
    void compare_times(const char* when);
    uint64_t fh[4] = {}, dh[2] = {};
    // Runs one operation on both; throws Failure when the results differ. Returns the model's rc.
    int step(const std::string& op);
    // Runs it on the file system only, without judging.
    int raw(const std::string& op, std::string* data = nullptr);
    void compare(const char* when);
    void close_all();
    void remount();
    void finish(bool with_remount = true);    // closes, compares, remounts, compares
    void storage_accounting(const char* when);
    int nsteps = 0;
};
// Runs a whole case "cfg|op;op;...".
void run_ops_case(const std::string& c, const DumpOptions& o, bool storage, bool remount);
// Enumerates all sequences over the alphabet up to the depth whose model results allow at most
// max_fail failing operations before the last one, calling f with the operations.
struct SeqEnum
{
    FsConfig cfg;
    std::vector<std::string> setup;       // run first, not enumerated
    std::vector<std::string> alphabet;
    int depth = 3, max_fail = 1;
    // For splitting over workers: only sequences starting with this symbol (-1: all).
    int first = -1;
    std::function<void(const std::vector<std::string>&)> f;
    void run();

private:
    void rec(const Model& m, std::vector<std::string>& ops, int d, int fails);
};
std::string join_ops(const std::vector<std::string>& v);
extern int (*g_locks_held)();
}    // namespace vf
