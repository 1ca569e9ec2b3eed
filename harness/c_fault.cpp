// Exhaustive kill points and failing system calls over all short operation sequences.
//   K<s>|cfg|ops|k|n/d   the mount is killed instead of modifying system call k (n/d of a large write done)
//   E<s>|cfg|ops|k|err   system call k of the last operation fails with err
//   M<s>|cfg|k|err       system call k of mounting fails
//   U<s>|cfg|ops|k|err   system call k of unmounting after the operations fails
#include "dirx.h"
#include "judge.h"
#include "myutils.h"
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" int vrt_locks_held();
using namespace vf;
namespace
{
using V = std::vector<std::string>;
struct Scenario
{
    std::string name;
    V cfgs, setup, alphabet;
    int depth_quick = 1, depth_thorough = 2;
    V prefixes = {""};    // operations run before the enumerated ones, in the same mount
    bool virgin = false;    // the repository has never been mounted
};
std::vector<Scenario> g_sc;
bool g_kill, g_err;

struct Sh
{
    std::atomic<int> progress;    // 0 mounting, i: i operations done and the next running, 1000: unmounting
    int all, mut;
    int all_at[40], mut_at[40];    // call counters at the start of each operation (last: unmounting)
    long len[20000];
    int rcs[40];
    char file[20000][80];    // storage object each modifying call writes to, relative to the repository
    char name[32], why[4000];
};
Sh* S;

std::vector<Scenario> scenarios(const std::string& prop)
{
    std::vector<Scenario> r;
    V lite_al = {"create a",        "create @a",       "create d/@a",    "mkdir e",          "mkdir @e",       "unlink f",        "unlink @f",     "unlink d/@v",
                 "rmdir z",         "rmdir y",         "rmdir @z",       "rename f a",       "rename f @a",    "rename @f a",     "rename @f @a",  "rename @f d/@a",
                 "rename f @f",     "rename @f f",     "rename @f d/@v", "rename z y",       "rename z @z",    "rename y z",      "rename d @d",   "link f @b",
                 "link f b",        "link @f d/@b",    "symlink t @s",   "symlink t s",      "write f 10 20 5", "write f 100 200 5", "write f 300 10 5", "write f 60 10 5",
                 "trunc f 70",      "trunc f 0",       "trunc f 400",    "trunc f 150",      "setx f user.n 9 1", "setx f user.new 9 1", "rmx f user.n", "chmod f 600",
                 "rename @f @g", "open f 0 t"};
    V lite_setup = {"create w", "write w 0 150 1", "setx w user.w 20 3", "mkdir d", "create d/v", "write d/v 0 100 2", "create d/@v", "write d/@v 0 50 3", "create @w", "write @w 0 70 4",
                    "create f", "write f 0 150 6", "setx f user.n 30 3", "create @f", "write @f 0 90 7", "create @g", "mkdir z", "mkdir @z", "mkdir y", "create y/@t", "unlink y/@t",
                    "symlink target ws", "symlink target @ws"};
    V full_al = {"create a",          "create d/a",        "mkdir e",        "mkdir d/e",       "unlink f",          "unlink d/v",        "rmdir z",      "rename f a",
                 "rename f d/a",      "rename d/v f",      "rename d/v d/u", "rename z e",      "rename z d/e",      "rename f h",        "link f b",     "link f d/b",
                 "symlink t s",       "symlink t d/s",     "write f 10 20 5", "write f 100 200 5", "write f 300 10 5", "trunc f 70",        "trunc f 0",    "trunc f 400",
                 "trunc f 150",       "setx f user.n 9 1", "setx f user.new 9 1", "rmx f user.n", "chmod f 600",       "chmod d 700",       "unlink h",     "unlink g",
                 "write d/v 0 30 5"};
    V full_setup = {"create w", "write w 0 150 1", "setx w user.w 20 3", "mkdir d", "create d/v", "write d/v 0 100 2", "mkdir x", "create x/w", "write x/w 0 130 3", "create f",
                    "write f 0 150 6", "setx f user.n 30 3", "create g", "write g 0 20 8", "link g h", "mkdir z", "symlink target ws", "symlink target x/ws"};
    if (prop == "C19")
    {
        r.push_back({"lite kill", {"lite:b64:t128:s.ll", "lite:b64:t128:p60"}, lite_setup, lite_al, 1, 2, {"", "create @q", "unlink @w"}});
        r.push_back({"lite kill, legacy and plain names", {"lite:b64", "lite:b64:plain"},
                     {"create w", "write w 0 150 1", "mkdir d", "create d/v", "write d/v 0 100 2", "create f", "write f 0 150 6", "setx f user.n 30 3", "mkdir z", "symlink target ws"},
                     {"create a", "mkdir e", "unlink f", "rmdir z", "rename f a", "rename f d/v", "rename z e", "link f b", "symlink t s", "write f 10 20 5", "write f 100 200 5", "trunc f 70", "trunc f 400", "setx f user.n 9 1", "chmod f 600"},
                     1, 2, {""}});
    }
    if (prop == "C20")
    {
        r.push_back({"full kill", {"full:b64:i12", "full:b64:v1", "full:b64:time", "full:b64:p60"}, full_setup, full_al, 1, 2, {"", "create q", "write w 0 20 9", "open w 0;hw 0 0 20 9;hw 0 140 80 4;hsync 0", "open x/w 0;ht 0 30;hw 0 60 9 4;hflush 0"}});
        r.push_back({"first mount", {"full:b64:i12", "full:b64:v1", "full:b64:time"}, {}, {"create a", "mkdir d", "symlink t s"}, 1, 2, {""}, true});
    }
    if (prop == "C21")
    {
        V rd = {"read f 0 400", "read w 70 10", "stat f", "ls /", "ls /d", "stat nosuch"};
        V la = lite_al, fa = full_al;
        la.insert(la.end(), rd.begin(), rd.end());
        fa.insert(fa.end(), rd.begin(), rd.end());
        fa.push_back("open f 0 t");
        V lh = {"hw 0 10 20 5", "hw 0 100 200 5", "hw 0 300 10 5", "ht 0 70", "ht 0 0", "ht 0 400", "hr 0 0 400", "hs 0", "hflush 0", "hsync 0", "close 0", "unlink f", "rename f a", "create a"};
        r.push_back({"lite error", {"lite:b64:t128:s.ll", "lite:b64:t128:p60"}, lite_setup, la, 1, 2, {"", "create @q", "unlink @w"}});
        r.push_back({"full error", {"full:b64:i12", "full:b64:v1", "full:b64:time", "full:b64:p60"}, full_setup, fa, 1, 2, {"", "write w 0 20 9", "create q", "unlink h"}});
        r.push_back({"lite handle error", {"lite:b64:t128:s.ll"}, lite_setup, lh, 1, 2, {"open f 0", "open f 0;hw 0 0 20 9", "open f 0;hw 0 140 80 4;ht 0 30"}});
        r.push_back({"full handle error", {"full:b64:i12", "full:b64:time"}, full_setup, lh, 1, 2, {"open f 0", "open f 0;hw 0 0 20 9", "open f 0;hw 0 140 80 4;ht 0 30"}});
    }
    return r;
}

std::string base_dir(int s, const std::string& cfg)
{
    std::string d = worker_dir() + fmt("/base%d.", s) + cfg;
    if (!file_exists(d))
    {
        NoHook nh;
        reseed(11);
        if (g_sc[s].virgin)
        {
            mkdir(d.c_str(), 0755);
            return d;
        }
        FsRun r(FsConfig::parse(cfg), d);
        for (auto& op : g_sc[s].setup)
            if (r.step(op) < 0)
                throw HarnessError("setup failed: " + op);
        r.m.reset();
    }
    return d;
}
Model setup_model(int s, const std::string& cfg)
{
    Model m(FsConfig::parse(cfg));
    for (auto& op : g_sc[s].setup)
        if (m.apply(op) < 0)
            throw HarnessError("setup impossible: " + op);
    return m;
}
std::string fresh_copy(int s, const std::string& cfg)
{
    std::string b = base_dir(s, cfg), d = worker_dir() + "/fs";
    rm_rf(d);
    copy_tree(b, d);
    return d;
}
[[noreturn]] void child(int s, const std::string& cfg, const V& ops, const std::string& dir, int k, long tn, long td)
{
    reseed(101);
    g_virtual_now_ns = 1700000000000000000ll;
    if (k < 0)
    {
        static Sh* sh = S;
        g_sys_hook = [](const SysInfo& i) -> SysAction
        {
            sh->all++;
            if (i.mutating)
            {
                if (sh->mut >= 20000)
                    _exit(80);
                sh->len[sh->mut] = i.id == kPwrite ? i.len : 0;
                char* f = sh->file[sh->mut];
                f[0] = 0;
                if (i.fd >= 0 && !i.path)
                {
                    char link[32], buf[4096];
                    snprintf(link, sizeof link, "/proc/self/fd/%d", i.fd);
                    ssize_t n = readlink(link, buf, sizeof buf - 1);
                    size_t skip = worker_dir().size() + 4;    // "/fs/"
                    if (n > (ssize_t)skip && n - skip < sizeof sh->file[0])
                    {
                        buf[n] = 0;
                        strcpy(f, buf + skip);
                    }
                }
                sh->mut++;
            }
            return {};
        };
    }
    else
        hook_crash(k, tn, td);
    try
    {
        FsRun r(FsConfig::parse(cfg), dir, false);
        r.model = setup_model(s, cfg);
        int i = 0;
        for (auto& op : ops)
        {
            S->all_at[i] = S->all;
            S->mut_at[i] = S->mut;
            S->progress = i + 1;
            g_virtual_now_ns += 10000000000ll;
            S->rcs[i] = r.raw(op);
            r.model.apply(op);
            ++i;
        }
        S->all_at[i] = S->all;
        S->mut_at[i] = S->mut;
        S->progress = 1000;
        r.m.reset();
        S->progress = 2000;
    }
    catch (const std::exception& e)
    {
        fprintf(stderr, "child: %s\n", e.what());
        _exit(79);
    }
    _exit(78);
}
// Returns the exit status.
int run_child(int s, const std::string& cfg, const V& ops, const std::string& dir, int k, long tn, long td)
{
    S->progress = 0;
    S->all = S->mut = 0;
    pid_t p = fork();
    if (p == 0)
        child(s, cfg, ops, dir, k, tn, td);
    int st;
    if (waitpid(p, &st, 0) != p)
        throw HarnessError("waitpid");
    if (WIFSIGNALED(st))
        fail("the mount died of signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    return WEXITSTATUS(st);
}

// What one sequence of operations does to the storage, from an undisturbed run.
struct Plan
{
    std::string key;
    int from_last = 0, total = 0;
    std::vector<int> start;    // first modifying call of each operation, then of unmounting
    std::vector<long> len;
    V file;
    std::map<uint64_t, std::set<int>> nodes;    // inode number -> model nodes
};
Plan g_plan;
void add_nodes(const std::map<std::string, Obs>& o, const Model& m)
{
    for (auto& [p, x] : o)
        if (int id = m.lookup(p); id && x.type != 'E')
            g_plan.nodes[x.ino].insert(id);
}
void make_plan(int s, const std::string& cfg, const V& ops)
{
    std::string key = fmt("%d|", s) + cfg + "|" + join_ops(ops);
    if (g_plan.key == key)
        return;
    g_plan = {};
    std::string dir = fresh_copy(s, cfg);
    int st = run_child(s, cfg, ops, dir, -1, 0, 1);
    if (st != 78)
        throw HarnessError(fmt("counting run exited with %d", st));
    g_plan.total = S->mut;
    g_plan.len.assign(S->len, S->len + S->mut);
    for (int i = 0; i < S->mut; ++i)
        g_plan.file.push_back(S->file[i]);
    g_plan.start.assign(S->mut_at, S->mut_at + ops.size() + 1);
    FsConfig c = FsConfig::parse(cfg);
    if (c.full)
    {
        Model after = setup_model(s, cfg), before = after;
        for (auto& op : ops)
            after.apply(op);
        reseed(500);
        add_nodes(observe(*std::make_unique<Mount>(dir, c), c.block), after);
        if (!g_sc[s].virgin)
            add_nodes(observe(*std::make_unique<Mount>(fresh_copy(s, cfg), c), c.block), before);
    }
    g_plan.key = key;
}
// The storage object (as inode number) a file of the full format belongs to.
bool object_of(const std::string& f, uint64_t* ino)
{
    std::string hex;
    for (char ch : f)
        if (ch == '.')
            break;
        else if (ch != '/')
            hex += ch;
    if (hex.size() != 64 || hex.find_first_not_of("0123456789abcdef") != std::string::npos)
        return false;
    securefs::id_type id;
    for (int i = 0; i < 32; ++i)
        id.data()[i] = strtol(hex.substr(2 * i, 2).c_str(), nullptr, 16);
    *ino = securefs::to_inode_number(id);
    return true;
}
// Nodes whose storage is being written: between the first and the last write to it within the
// operation during which call k happens. part: some of call k is done.
std::set<int> being_written(int k, bool part)
{
    auto& st = g_plan.start;
    int lo = 0, hi = g_plan.total;
    for (int b : st)
        (b <= k ? lo : hi) = b <= k ? b : std::min(hi, b);
    std::map<uint64_t, std::pair<int, int>> span;
    for (int i = lo; i < hi; ++i)
    {
        uint64_t ino;
        if (g_plan.file[i].empty() || !object_of(g_plan.file[i], &ino))
            continue;
        if (!span.count(ino))
            span[ino] = {i, i};
        span[ino].second = i;
    }
    std::set<int> r;
    for (auto& [ino, ab] : span)
        if ((ab.first < k || (part && ab.first == k)) && ab.second >= k)
        {
            auto it = g_plan.nodes.find(ino);
            if (it == g_plan.nodes.end())
                r.insert(-1);    // not part of the tree before or after
            else
                r.insert(it->second.begin(), it->second.end());
        }
    return r;
}

// Long names must still be creatable in every directory that can be listed.
void still_works(Mount& m, const std::map<std::string, Obs>& o, const char* when)
{
    for (auto& [p, x] : o)
        if (x.type == 'd' && !x.list_err)
        {
            std::string n = (p == "/" ? "" : p) + "/" + std::string(m.cfg.full || m.cfg.plain || m.cfg.threshold < 0 ? 40 : 180, 'Z');
            uint64_t fh;
            std::string back;
            int rc = m.create(n, 0644, &fh);
            if (rc)
                fail("%s: creating a new file in %s returns %d", when, cescape(p).c_str(), rc);
            std::string data = pattern(77, 100);
            rc = m.write(n, fh, data, 0);
            if (rc != 100)
                fail("%s: writing a new file in %s returns %d", when, cescape(p).c_str(), rc);
            rc = m.read(n, fh, &back, 200, 0);
            if (rc != 100 || back != data)
                fail("%s: a new file in %s does not read back (%d)", when, cescape(p).c_str(), rc);
            m.flush(n, fh);
            m.release(n, fh);
            std::vector<DirEnt> e;
            rc = m.readdir(p, &e);
            bool seen = false;
            for (auto& y : e)
                seen |= y.name == n.substr(n.rfind('/') + 1);
            if (rc || !seen)
                fail("%s: a new file in %s is not listed (%d)", when, cescape(p).c_str(), rc);
        }
}

void kill_case(int s, const std::string& cfg, const V& ops, int k, long tn, long td)
{
    make_plan(s, cfg, ops);
    std::string dir = fresh_copy(s, cfg);
    int st = run_child(s, cfg, ops, dir, k, tn, td);
    if (st == 78)
        throw HarnessError("the kill point was not reached");
    if (st != 77)
        throw HarnessError(fmt("child exited with %d", st));
    int prog = S->progress;
    Model before = setup_model(s, cfg), after = before;
    std::string op = "remount";
    FsConfig c = FsConfig::parse(cfg);
    std::set<int> busy = c.full ? being_written(k, tn > 0) : std::set<int>();
    for (int i = 0; i < (int)ops.size() && i < prog; ++i)
    {
        op = ops[i];
        before = after;
        after.apply(op);
    }
    if (prog == 1000)
    {
        // every operation is complete
        before = after;
    }
    JudgeOptions j;
    j.busy = c.full ? &busy : nullptr;
    j.block = c.block;
    j.allow_block_errors = tn > 0;
    reseed(500);
    const char* when = prog == 0 ? "killed while mounting" : prog == 1000 ? "killed while unmounting" : "killed";
    std::unique_ptr<Mount> m;
    try
    {
        m = std::make_unique<Mount>(dir, c);
    }
    catch (const std::exception& e)
    {
        fail("%s: the repository does not mount%s: %s", when, busy.count(before.root) ? " (the root directory was being written)" : "", e.what());
    }
    auto o = observe(*m, c.block);
    uint64_t h = prog * 7;
    for (auto& [p, x] : o)
        h = hash_str(p + describe(x) + x.data, h);
    if (c.full)
    {
        j.damage_touched = j.damage_touched_dirs = true;
        judge_objects(o, before, after, busy, j, when);
    }
    else
    {
        judge_either(o, before, after, op, j, when);
        // What the interruption left must not be in the way of removing everything at once, either.
        m.reset();
        std::string other = worker_dir() + "/killed";
        {
            NoHook nh;
            rm_rf(other);
            copy_tree(dir, other);
        }
        m = std::make_unique<Mount>(other, c);
        remove_everything(*m, when);
        m.reset();
        m = std::make_unique<Mount>(dir, c);
        still_works(*m, o, when);
        m.reset();
        m = std::make_unique<Mount>(dir, c);
        remove_everything(*m, when);
        m.reset();
        for (auto& f : list_storage(dir))
            // SQLite's own files of the root directory stay with it
            if (f.compare(0, 14, ".long_names.db") || f.find('/') != std::string::npos)
                fail("%s: after removing everything the storage still has %s", when, f.c_str());
    }
    m.reset();
    if (c.full)
    {
        m = std::make_unique<Mount>(dir, c);
        judge_objects(observe(*m, c.block), before, after, busy, j, "mounted a second time");
        m.reset();
    }
    if (distinct(h))
    {
        count(kNontrivial);
        sample(cfg + "|" + join_ops(ops) + fmt("|%d", k));
    }
    count(kExtra0);
}
bool is_read_op(const std::string& op) { return op.compare(0, 4, "read") == 0 || op.compare(0, 4, "stat") == 0 || op.compare(0, 2, "ls") == 0 || op.compare(0, 2, "hr") == 0 || op.compare(0, 2, "hs") == 0; }

bool error_case(int s, const std::string& cfg, const V& ops, int k, int err)
{
    std::string dir = fresh_copy(s, cfg);
    FsConfig c = FsConfig::parse(cfg);
    reseed(101);
    FsRun r(c, dir, false);
    r.model = setup_model(s, cfg);
    for (size_t i = 0; i + 1 < ops.size(); ++i)
        r.step(ops[i]);
    std::string op = ops.back(), data;
    Model before = r.model, after = before;
    int want = after.apply(op);
    std::string want_read = after.last_read;
    hook_fail(k, err);
    int got;
    try
    {
        got = r.raw(op, &data);
    }
    catch (...)
    {
        hook_off();
        throw;
    }
    hook_off();
    if (!hook_fired())
        return false;
    std::string who = fmt("%s failing with %d", hook_fired_name().c_str(), err);
    const char* when = who.c_str();
    if (got >= 0 && want >= 0 && got != want && op.compare(0, 2, "ls"))
        fail("%s: \"%s\" returned %d, complete success is %d", when, op.c_str(), got, want);
    if (got >= 0 && want < 0)
        fail("%s: \"%s\" returned %d although it cannot succeed", when, op.c_str(), got);
    if (got >= 0 && hook_fired_name() == "fsync" && op.compare(0, 5, "hsync") == 0)
        fail("%s: \"%s\" returned %d", when, op.c_str(), got);
    // A failure is not an answer to the question what is there.
    for (int answer : {ENOENT, EEXIST, ENOTEMPTY, ENODATA, ENOTDIR, EISDIR})
        if (got == -answer && want != got && err != answer)
            fail("%s: \"%s\" returned %d, as if that were so", when, op.c_str(), got);
    if (got >= 0 && op.compare(0, 4, "read") == 0 && data != want_read)
        fail("%s: \"%s\" succeeded with wrong data", when, op.c_str());
    if (vrt_locks_held())
        fail("%s: \"%s\" returned %d with a lock held", when, op.c_str(), got);
    r.model = got >= 0 ? after : before;
    auto touched = touched_nodes(before, after, op);
    JudgeOptions j;
    j.block = c.block;
    uint64_t h = got;
    for (int round = 0; round < 2; ++round)
    {
        std::string w = who + (round ? ", after remounting" : ", afterwards") + fmt(" (the call returned %d)", got);
        auto o = observe(*r.m, c.block);
        for (auto& [p, x] : o)
            h = hash_str(p + describe(x) + x.data, h);
        if (is_read_op(op))
            touched.clear();
        if (c.full)
        {
            if (got >= 0)
                judge_objects(o, after, after, {}, j, w.c_str());
            else
            {
                j.damage_touched = true;
                judge_objects(o, before, after, touched, j, w.c_str());
            }
        }
        else
        {
            j.exact_after = got >= 0;
            j.allow_block_errors = got < 0;
            judge_either(o, got >= 0 ? after : before, after, got >= 0 ? "remount" : op, j, w.c_str());
        }
        if (round == 0)
        {
            for (int i = 0; i < 4; ++i)
                if (r.fh[i])
                {
                    r.m->release("", r.fh[i]);
                    r.fh[i] = 0;
                }
            r.m.reset();
            r.m = std::make_unique<Mount>(dir, c);
        }
        else
        {
            still_works(*r.m, o, w.c_str());
            remove_everything(*r.m, w.c_str());
        }
    }
    r.m.reset();
    for (auto& f : list_storage(dir))
    {
        if (f.compare(0, 14, ".long_names.db") == 0 || f == ".securefs.lock")
            continue;
        if (c.full && hook_fired_name() == "unlink")
            continue;    // the storage could not be removed
        if (c.full && f.size() > 60 && f.substr(0, 2) == "00" && f.find_first_not_of("0/meta.") == std::string::npos)
            continue;
        if (c.full && got < 0)
        {
            count(kExtra3);
            continue;    // an object of the failed operation may be left over
        }
        fail("%s: after removing everything the storage still has %s", when, f.c_str());
    }
    if (distinct(h))
    {
        count(kNontrivial);
        sample(cfg + "|" + join_ops(ops) + fmt("|%d %s -> %d", k, hook_fired_name().c_str(), got));
    }
    count(kExtra1);
    return true;
}
// A fault while mounting or unmounting.
bool edge_case(bool unmount, int s, const std::string& cfg, const V& ops, int k, int err)
{
    std::string dir = fresh_copy(s, cfg);
    FsConfig c = FsConfig::parse(cfg);
    reseed(101);
    Model after = setup_model(s, cfg), before = after;
    for (auto& op : ops)
        after.apply(op);
    S->rcs[0] = 0;
    S->name[0] = 0;
    pid_t pid = fork();
    if (pid == 0)
    {
        // Nothing may escape into the copy of the explorer.
        try
        {
        std::unique_ptr<Mount> m;
        try
        {
            if (!unmount)
                hook_fail(k, err);
            m = std::make_unique<Mount>(dir, c);
        }
        catch (const std::exception&)
        {
        }
        if (!unmount)
            hook_off();
        if (m)
        {
            FsRun r(c, dir, std::move(m));
            r.model = before;
            if (!unmount)
            {
                try
                {
                    judge_objects(observe(*r.m, c.block), after, after, {}, JudgeOptions(), "mounted in spite of the fault");
                }
                catch (const Failure& e)
                {
                    snprintf(S->why, sizeof S->why, "%s", e.what());
                    _exit(76);
                }
            }
            for (auto& op : ops)
                r.step(op);
            if (unmount)
                hook_fail(k, err);
            r.m.reset();
            hook_off();
        }
        S->rcs[0] = hook_fired();
        snprintf(S->name, sizeof S->name, "%s", hook_fired_name().c_str());
        _exit(vrt_locks_held() ? 75 : 78);
        }
        catch (const std::exception& e)
        {
            snprintf(S->why, sizeof S->why, "%s", e.what());
        }
        _exit(76);
    }
    int st;
    waitpid(pid, &st, 0);
    std::string w = fmt("%s of %s failing", unmount ? "unmounting" : "mounting", S->name);
    if (WIFSIGNALED(st))
        fail("%s kills the process with signal %d", w.c_str(), WTERMSIG(st));
    if (WEXITSTATUS(st) == 76)
        fail("%s", S->why);
    if (WEXITSTATUS(st) == 75)
        fail("%s leaves a lock held", w.c_str());
    if (WEXITSTATUS(st) != 78)
        fail("%s: exit status %d", w.c_str(), WEXITSTATUS(st));
    if (!S->rcs[0])
        return false;
    reseed(500);
    auto m = std::make_unique<Mount>(dir, c);
    auto o = observe(*m, c.block);
    JudgeOptions j;
    judge_objects(o, after, after, {}, j, w.c_str());
    still_works(*m, o, w.c_str());
    m.reset();
    count(kExtra2);
    if (distinct(hash_str(cfg + S->name + fmt("%d", k))))
        count(kNontrivial);
    return true;
}

// False when the fault point does not exist (any more).
bool run_case1(const std::string& c)
{
    auto f = split(c, '|');
    int s = atoi(f[0].c_str() + 1);
    V ops = f[2].empty() ? V{} : split(f[2], ';');
    if (f[0][0] == 'K')
    {
        auto t = split(f[4], '/');
        kill_case(s, f[1], ops, atoi(f[3].c_str()), atol(t[0].c_str()), atol(t[1].c_str()));
    }
    else if (f[0][0] == 'E')
        return error_case(s, f[1], ops, atoi(f[3].c_str()), atoi(f[4].c_str()));
    else
        return edge_case(f[0][0] == 'U', s, f[1], ops, atoi(f[3].c_str()), atoi(f[4].c_str()));
    return true;
}
void run_case(const std::string& c)
{
    auto bar = c.find('|');
    if (is_dir_case(c.substr(0, bar)))
        return run_dir_case(c.substr(0, bar), c.substr(bar + 1));
    if (!run_case1(c))
        throw HarnessError("the fault point was not reached");
}
bool one(const std::string& c)
{
    begin_case(c);
    bool r = true;
    guarded(c, [&] { r = run_case1(c); });
    if (r)
        count(kEval);
    return r;
}
void explore(int s, const std::string& cfg, const V& ops, bool first_level)
{
    std::string tail = cfg + "|" + join_ops(ops) + "|";
    if (g_kill)
    {
        make_plan(s, cfg, ops);
        int L = ops.size();
        int from = first_level ? 0 : g_plan.start[L - 1], to = g_plan.total;
        auto len = g_plan.len;
        for (int k = from; k < to; ++k)
        {
            one(fmt("K%d|", s) + tail + fmt("%d|0/1", k));
            if (len[k] > 8 && FsConfig::parse(cfg).full)
                one(fmt("K%d|", s) + tail + fmt("%d|1/2", k));
            else if (len[k] > 100)
                for (const char* t : {"1/3", "1/2", "4/5"})
                    one(fmt("K%d|", s) + tail + fmt("%d|", k) + t);
        }
    }
    if (g_err)
    {
        for (int e : {EIO, ENOSPC, (int)kShortWrite, (int)kDiskFull})
            for (int k = 0; one(fmt("E%d|", s) + tail + fmt("%d|%d", k, e)); ++k)
                ;
        // What an open handle still has to write is lost when unmounting fails.
        bool open = false;
        for (auto& op : ops)
            open |= op.compare(0, 5, "open ") == 0;
        for (int e : {EIO, (int)kShortWrite})
            for (int k = 0; !open && one(fmt("U%d|", s) + tail + fmt("%d|%d", k, e)); ++k)
                ;
        if (first_level)
            for (int e : {EIO, (int)kShortWrite, (int)kDiskFull})
                for (int k = 0; one(fmt("M%d|", s) + cfg + "||" + fmt("%d|%d", k, e)); ++k)
                    ;
    }
}
}    // namespace

int main(int argc, char** argv)
{
    CheckDef d;
    d.level = "fault_enumeration";
    d.worker_init = []
    {
        umask(0);
        g_no_sleep = true;
        g_virtual_now_ns = 1800000000000000000ll;
        S = (Sh*)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    };
    d.setup = []
    {
        umask(0);
        g_sc = scenarios(g_args.prop);
        g_kill = g_args.prop != "C21";
        g_err = !g_kill;
    };
    d.rule = "an execution counts as non-trivial when the tree observed after the kill or fault (with the result) differs from every other execution's";
    d.run_case = run_case;
    d.shards = []
    {
        std::vector<Shard> sh;
        std::string note;
        for (int s = 0; s < (int)g_sc.size(); ++s)
        {
            auto& sc = g_sc[s];
            for (auto& cfg : sc.cfgs)
            {
                int depth = g_args.thorough() ? sc.depth_thorough : sc.depth_quick;
                note += fmt("[%s %s: %zu ops after %zu, prefixes %zu, depth %d, every call] ", sc.name.c_str(), cfg.c_str(), sc.alphabet.size(), sc.setup.size(), sc.prefixes.size(), depth);
                for (auto& pre : sc.prefixes)
                    for (size_t a = 0; a < sc.alphabet.size(); ++a)
                        sh.push_back({sc.name,
                                      [=]
                                      {
                                          SeqEnum e;
                                          e.cfg = FsConfig::parse(cfg);
                                          e.setup = g_sc[s].setup;
                                          size_t ns = e.setup.size();
                                          if (!pre.empty())
                                              for (auto& op : split(pre, ';'))
                                                  e.setup.push_back(op);
                                          e.alphabet = g_sc[s].alphabet;
                                          e.depth = depth;
                                          e.max_fail = 0;
                                          e.first = a;
                                          e.f = [&](const V& all)
                                          {
                                              V ops(all.begin() + ns, all.end());
                                              explore(s, cfg, ops, pre.empty() && ops.size() == 1 && a == 0);
                                          };
                                          e.run();
                                      }});
            }
        }
        if (g_err)
            add_dir_fault_shards(sh, note);
        set_bounds_note(note);
        return sh;
    };
    d.extra_coverage = []
    {
        return std::vector<std::string>{fmt("\"kill_points\":%lld", (long long)counter(kExtra0)),
                                        fmt("\"failing_calls\":%lld", (long long)counter(kExtra1)),
                                        fmt("\"directory_stream_faults\":%lld", (long long)counter(kExtra3)),
                                        fmt("\"mount_unmount_faults\":%lld", (long long)counter(kExtra2)),
                                        fmt("\"known_findings_hit\":%lld", (long long)counter(kExtra5))};
    };
    d.assumptions = {
        "a kill is modelled between system calls and, for writes longer than 100 bytes, part way through (scaled-down pages)",
        "one system call fails at a time, with EIO or ENOSPC, or a write is done in part only, or the disk stays full from one call on",
        "the kernel keeps what completed system calls wrote (process kill, not power loss)",
    };
    return check_main(argc, argv, d);
}
