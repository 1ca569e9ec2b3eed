// C22-C27: all interleavings, up to a preemption bound, of small concurrent programs on the real code.
#include "fuse_hook.h"
#include "full_format.h"
#include "logger.h"
#include "c_mc.h"
#include "model.h"
#include "platform.h"
#include "resettable_timer.h"
#include "thread_local.h"
#include <algorithm>
#include <atomic>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <memory>
#include <mutex>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sys/syscall.h>
#include <unistd.h>

using namespace vf;

namespace
{
// ================================================================ file system programs
struct Prog
{
    std::string cfg, flags, setup;
    std::vector<std::string> threads;    // "[2:]op;op"
    std::string str() const
    {
        std::string t;
        for (auto& x : threads)
            t += (t.empty() ? "" : "&&") + x;
        return "fs~" + cfg + "~" + (flags.empty() ? "-" : flags) + "~" + setup + "~" + t;
    }
};
Prog parse_prog(const std::string& s)
{
    auto f = split(s, '~');
    if (f.size() != 5)
        throw HarnessError("bad program " + s);
    Prog p{f[1], f[2] == "-" ? "" : f[2], f[3], {}};
    std::string r = f[4];
    size_t q;
    while ((q = r.find("&&")) != std::string::npos)
    {
        p.threads.push_back(r.substr(0, q));
        r = r.substr(q + 2);
    }
    p.threads.push_back(r);
    return p;
}
struct Rec
{
    std::string op;
    int tid;
    long inv = 0, ret = -1;
    int rc = 0;
    std::string data;
};
long g_clock;
bool g_two_mounts;

// Exclusion by the kernel and by libfuse: a directory whose names an operation changes is locked by
// the kernel, the names on the path of an operation by libfuse.
std::map<std::string, std::pair<int, int>>* g_klocks;    // writers, readers
struct KNeed
{
    std::map<std::string, bool> need;    // true: exclusive
    void add(const std::string& k, bool w) { need[k] = need.count(k) ? need[k] || w : w; }
    void path(const std::string& p, bool w_last)
    {
        std::string cur;
        auto parts = split(p, '/');
        for (size_t i = 1; i < parts.size(); ++i)
        {
            cur += "/" + parts[i];
            add("N" + cur, w_last && i + 1 == parts.size());
        }
    }
    static std::string dir(const std::string& p)
    {
        auto s = p.rfind('/');
        return s == 0 ? "/" : p.substr(0, s);
    }
};
KNeed kernel_needs(const std::string& op)
{
    auto w = split(op, ' ');
    auto& k = w[0];
    KNeed n;
    auto P = [&](int i) { return w.at(i); };
    if (k == "create" || k == "ocreate" || k == "mkdir" || k == "symlink")
    {
        std::string p = k == "symlink" ? P(2) : P(1);
        n.add("D" + KNeed::dir(p), true);
        n.path(p, false);
    }
    else if (k == "unlink" || k == "rmdir")
    {
        n.add("D" + KNeed::dir(P(1)), true);
        n.add("D" + P(1), true);
        n.path(P(1), true);
    }
    else if (k == "rename")
    {
        n.add("D" + KNeed::dir(P(1)), true);
        n.add("D" + KNeed::dir(P(2)), true);
        n.add("D" + P(2), true);
        if (KNeed::dir(P(1)) != KNeed::dir(P(2)))
            n.add("R", true);
        n.path(P(1), true);
        n.path(P(2), true);
    }
    else if (k == "link")
    {
        n.add("D" + KNeed::dir(P(2)), true);
        n.add("D" + P(1), true);
        n.path(P(1), false);
        n.path(P(2), false);
    }
    else if (k == "ls")
    {
        n.add("D" + P(1), false);
        n.path(P(1), false);
    }
    else if (k == "open" || k == "stat" || k == "chmod" || k == "trunc" || k == "setx" || k == "rmx" || k == "utimens" || k == "chown")
        n.path(P(1), false);
    return n;
}
struct KCond : McCond
{
    KNeed* n;
    bool ok() override
    {
        for (auto& [k, w] : n->need)
        {
            auto& s = (*g_klocks)[k];
            if (s.first || (w && s.second))
                return false;
        }
        return true;
    }
};
struct KGuard
{
    KNeed n;
    KGuard(const std::string& op)
    {
        n = kernel_needs(op);
        KCond c;
        c.n = &n;
        if (n.need.empty())
            return;
        mc_block(c, 0x4b4b);
        for (auto& [k, w] : n.need)
            w ? ++(*g_klocks)[k].first : ++(*g_klocks)[k].second;
    }
    ~KGuard()
    {
        for (auto& [k, w] : n.need)
            w ? --(*g_klocks)[k].first : --(*g_klocks)[k].second;
    }
};
// What the kernel, having looked the names up under its locks, answers by itself.
int kernel_refuses(FsRun& r, const std::string& op)
{
    auto w = split(op, ' ');
    auto& k = w[0];
    auto type = [&](int i) -> char
    {
        std::string d;
        if (r.raw("stat " + w.at(i), &d))
            return 0;
        struct stat st;
        memcpy(&st, d.data(), sizeof st);
        return S_ISDIR(st.st_mode) ? 'd' : S_ISREG(st.st_mode) ? 'f' : 'l';
    };
    for (size_t i = 1; i < w.size() && i < 3; ++i)
        if (w[i][0] == '/')
        {
            auto d = KNeed::dir(w[i]);
            if (d != "/" && r.raw("stat " + d))
                return -ENOENT;
        }
    if (k == "unlink")
        return type(1) == 'd' ? -EISDIR : 0;
    if (k == "rmdir")
    {
        char t = type(1);
        return t && t != 'd' ? -ENOTDIR : 0;
    }
    if (k == "rename")
    {
        char a = type(1), b = a ? type(2) : 0;
        return !a || !b || (a == 'd') == (b == 'd') ? 0 : a == 'd' ? -ENOTDIR : -EISDIR;
    }
    if (k == "open" || k == "trunc")
        return type(1) == 'd' ? -EISDIR : 0;
    if (k == "link")
        return type(1) == 'd' ? -EPERM : 0;
    return 0;
}
bool uses_closed_handle(FsRun& r, const std::string& op)
{
    auto w = split(op, ' ');
    return (w[0] == "close" || (w[0][0] == 'h' && w[0] != "hook")) && !r.fh[atoi(w[1].c_str())];
}
bool rc_matches(const std::string& op, int want, int got)
{
    if (want == got)
        return true;
    if (want == -ENOTEMPTY && got == -EEXIST)
        return true;
    if (op.compare(0, 3, "ls ") == 0)
        return (want < 0) == (got < 0);
    return want == -ENOENT && got == -ENAMETOOLONG;
}
std::string model_ls(const Model& m, const std::string& dir)
{
    std::string r;
    int id = m.lookup(expand_path(dir));
    if (id)
    {
        std::vector<std::string> names;
        for (auto& [k, v] : m.n.at(id).kids)
            names.push_back(k);
        std::sort(names.begin(), names.end());
        for (auto& x : names)
            r += x + "/";
    }
    return r;
}
bool result_matches(const Model& m, const Rec& r, int want)
{
    if (!rc_matches(r.op, want, r.rc))
    {
        // The other mount's kernel may still know a directory that is gone; the kind of error is open.
        auto w = split(r.op, ' ');
        bool gone = false;
        for (size_t i = 1; i < w.size() && i < 3; ++i)
            gone |= w[i][0] == '/' && !m.lookup(expand_path(KNeed::dir(w[i])));
        // So may it know the former kind of an object: it would have refused by itself.
        bool kind = g_two_mounts && (want == -ENOTDIR || want == -EISDIR);
        return ((gone && want == -ENOENT) || kind) && r.rc < 0;
    }
    auto k = r.op.substr(0, r.op.find(' '));
    if ((k == "hr" || k == "read") && r.rc >= 0)
        return r.data == m.last_read;
    if (k == "ls" && r.rc == 0)
        return r.data == model_ls(m, r.op.substr(3));
    if ((k == "hs" || k == "stat") && r.rc == 0)
    {
        struct stat st;
        memcpy(&st, r.data.data(), sizeof st);
        auto& l = m.last_stat;
        char t = S_ISDIR(st.st_mode) ? 'd' : S_ISREG(st.st_mode) ? 'f' : 'l';
        return t == l.type && (l.size < 0 || st.st_size == l.size) && (t != 'f' || (int)st.st_nlink == l.nlink) && (t == 'l' || (st.st_mode & 0777) == (l.mode & 0777));
    }
    return true;
}
std::string show(const Rec& r)
{
    std::string s = fmt("T%d \"%s\" -> %d", r.tid, r.op.c_str(), r.rc);
    auto k = r.op.substr(0, r.op.find(' '));
    if (k == "ls")
        s += " [" + cescape(r.data) + "]";
    else if ((k == "hr" || k == "read") && r.rc >= 0)
        s += " [" + cescape(r.data.substr(0, 12)) + fmt("..#%08x]", (unsigned)hash_str(r.data));
    else if ((k == "hs" || k == "stat") && r.rc == 0)
    {
        struct stat st;
        memcpy(&st, r.data.data(), sizeof st);
        s += fmt(" [mode %o size %ld nlink %d]", st.st_mode, (long)st.st_size, (int)st.st_nlink);
    }
    return s;
}
// All models after an order of the operations that explains the results.
void orders(const Model& m, const std::vector<std::vector<Rec>>& h, std::vector<size_t>& pos, std::vector<Model>& out, int& tried)
{
    bool done = true;
    for (size_t t = 0; t < h.size(); ++t)
        done &= pos[t] == h[t].size();
    if (done)
    {
        out.push_back(m);
        return;
    }
    for (size_t t = 0; t < h.size(); ++t)
    {
        if (pos[t] == h[t].size())
            continue;
        auto& r = h[t][pos[t]];
        // Nothing that has returned before it began may come after it.
        bool ok = true;
        for (size_t u = 0; u < h.size() && ok; ++u)
            if (u != t && pos[u] < h[u].size() && h[u][pos[u]].ret < r.inv)
                ok = false;
        if (!ok)
            continue;
        ++tried;
        Model m2 = m;
        int want = m2.apply(r.op);
        if (want == Model::kSkip)
        {
            // Nobody would have asked for it here.
            continue;
        }
        if (!result_matches(m2, r, want))
        {
            // What another mount adds and removes while a directory is being listed may be seen or not.
            if (g_two_mounts && r.op.compare(0, 3, "ls ") == 0 && !want && !r.rc)
            {
                auto names = [&](const Model& x)
                {
                    auto v = split(model_ls(x, r.op.substr(3)), '/');
                    return std::set<std::string>(v.begin(), v.end());
                };
                auto must = names(m), may = must;
                for (size_t u = 0; u < h.size(); ++u)
                {
                    Model m3 = m;
                    for (size_t q = pos[u]; u != t && q < h[u].size() && h[u][q].inv < r.ret; ++q)
                    {
                        m3.apply(h[u][q].op);
                        auto now = names(m3);
                        for (auto& x : now)
                            may.insert(x);
                        for (auto& x : std::set<std::string>(must))
                            if (!now.count(x))
                                must.erase(x);
                    }
                }
                auto v = split(r.data, '/');
                std::set<std::string> got(v.begin(), v.end());
                if (got.size() != v.size() || !std::includes(got.begin(), got.end(), must.begin(), must.end()) || !std::includes(may.begin(), may.end(), got.begin(), got.end()))
                    continue;
                ++pos[t];
                orders(m2, h, pos, out, tried);
                --pos[t];
                continue;
            }
            // Status by path takes no lock in the lite format: it may see a change of size under way.
            if (r.op.compare(0, 5, "stat ") != 0 || m.cfg.full || want || r.rc)
                continue;
            struct stat st;
            memcpy(&st, r.data.data(), sizeof st);
            int id = m.lookup(expand_path(r.op.substr(5)));
            bool between = false;
            for (size_t u = 0; u < h.size(); ++u)
                if (u != t && pos[u] < h[u].size() && h[u][pos[u]].inv < r.ret)
                {
                    Model m3 = m;
                    if (m3.apply(h[u][pos[u]].op) == Model::kSkip || !m3.n.count(id))
                        continue;
                    long a = m.n.at(id).data.size(), b = m3.n.at(id).data.size();
                    between |= st.st_size >= std::min(a, b) && st.st_size <= std::max(a, b);
                }
            if (!between)
                continue;
        }
        ++pos[t];
        orders(m2, h, pos, out, tried);
        --pos[t];
    }
}
struct FsState
{
    Prog p;
    FsConfig cfg;
    std::vector<std::unique_ptr<FsRun>> runs;
    std::vector<std::vector<Rec>> hist;
    std::vector<int> mount_of;
    bool kernel = false;
};
McProgram fs_program(const std::string& spec)
{
    auto st = std::make_shared<FsState>();
    st->p = parse_prog(spec);
    st->cfg = FsConfig::parse(st->p.cfg);
    McProgram mp;
    mp.setup = [st]
    {
        auto& p = st->p;
        st->runs.clear();
        st->hist.clear();
        st->mount_of.clear();
        delete g_klocks;
        g_klocks = new std::map<std::string, std::pair<int, int>>();
        g_two_mounts = p.flags.find('2') != std::string::npos;
        st->kernel = p.flags.find('K') != std::string::npos;
        g_shape_ids = p.flags.find('S') != std::string::npos ? 0xff : -1;
        reseed(7);
        st->runs.push_back(std::make_unique<FsRun>(st->cfg, worker_dir() + "/fs"));
        auto& r = *st->runs[0];
        r.dopt.xattr = true;
        for (auto& op : split(p.setup, ';'))
        {
            if (op.empty())
                continue;
            if (op.compare(0, 5, "fill ") == 0)
            {
                // Many objects in one cache.
                for (int i = 0; i < atoi(op.c_str() + 5); ++i)
                    if (r.step(fmt("create /z%d", i)))
                        throw HarnessError("setup");
                continue;
            }
            int rc = r.step(op);
            if (rc < 0 || rc == Model::kSkip)
                throw HarnessError(fmt("setup operation %s: %d", op.c_str(), rc));
        }
        if (p.flags.find('2') != std::string::npos)
        {
            st->runs.push_back(std::make_unique<FsRun>(st->cfg, worker_dir() + "/fs", false));
            // Handles of the setup belong to the first one.
        }
        st->hist.resize(p.threads.size());
        for (size_t t = 0; t < p.threads.size(); ++t)
        {
            std::string s = p.threads[t];
            st->mount_of.push_back(s.compare(0, 2, "2:") == 0 ? 1 : 0);
            if (st->mount_of[t])
                s = s.substr(2);
            for (auto& op : split(s, ';'))
                st->hist[t].push_back({op, (int)t});
        }
        g_clock = 0;
    };
    for (size_t t = 0; t < st->p.threads.size(); ++t)
        mp.threads.push_back([st, t]
                             {
                                 reseed(1000 + t);
                                 auto& r = *st->runs[st->mount_of[t]];
                                 bool first = true;
                                 for (auto& rec : st->hist[t])
                                 {
                                     if (!first)
                                         mc_boundary();
                                     first = false;
                                     rec.inv = ++g_clock;
                                     if (uses_closed_handle(r, rec.op))
                                         rec.rc = -EBADF;
                                     else if (st->kernel)
                                     {
                                         KGuard k(rec.op);
                                         rec.rc = kernel_refuses(r, rec.op);
                                         if (!rec.rc)
                                             rec.rc = r.raw(rec.op, &rec.data);
                                     }
                                     else
                                         rec.rc = r.raw(rec.op, &rec.data);
                                     rec.ret = ++g_clock;
                                     if (mc_held())
                                         mc_violation(fmt("\"%s\" left %d locks held", rec.op.c_str(), mc_held()));
                                 }
                             });
    mp.finish = [st]
    {
        auto& r0 = *st->runs[0];
        std::string hs;
        for (auto& h : st->hist)
            for (auto& r : h)
            {
                hs += " " + show(r);
                mc_note(show(r));
            }
        std::vector<Model> cands, same;
        std::vector<size_t> pos(st->hist.size());
        int tried = 0;
        r0.model.gate = true;
        orders(r0.model, st->hist, pos, cands, tried);
        if (cands.empty())
            fail("no sequential order explains the results:%s", hs.c_str());
        auto got = dump_tree(*r0.m, r0.dopt);
        std::string d;
        for (auto& c : cands)
        {
            auto x = diff_dumps(c.dump(r0.dopt), got);
            if (x.empty())
                same.push_back(c);
            else
                d = x;
        }
        if (same.empty())
            fail("no sequential order explains the final tree:%s; results:%s", d.c_str(), hs.c_str());
        for (auto& [k, v] : got)
            mc_note(k + v);
        if (st->runs.size() > 1)
        {
            auto got2 = dump_tree(*st->runs[1]->m, r0.dopt);
            auto x = diff_dumps(got, got2);
            if (!x.empty())
                fail("the two mounts show different trees:%s; results:%s", x.c_str(), hs.c_str());
        }
        // Handles of threads on the second mount.
        for (auto& run : st->runs)
            for (int i = 0; i < 4; ++i)
                if (run->fh[i])
                {
                    bool open = false;
                    for (auto& c : same)
                        open |= c.slots[i].node != 0;
                    if (!open)
                        continue;
                    int rc = run->raw(fmt("close %d", i));
                    if (rc)
                        fail("closing a handle at the end returned %d; results:%s", rc, hs.c_str());
                }
        for (auto& c : same)
            for (int i = 0; i < 4; ++i)
                if (c.slots[i].node)
                    c.apply(fmt("close %d", i));
        st->runs.resize(1);
        auto storage = [&](const char* when)
        {
            if (!st->cfg.full)
                return;
            std::string err;
            for (auto& c : same)
            {
                r0.model = c;
                try
                {
                    r0.storage_accounting(when);
                    return;
                }
                catch (const Failure& e)
                {
                    err = e.what();
                }
            }
            fail("%s; results:%s", err.c_str(), hs.c_str());
        };
        storage("after closing everything");
        r0.m.reset();
        storage("after unmounting");
        r0.m = std::make_unique<Mount>(r0.dir, st->cfg);
        got = dump_tree(*r0.m, r0.dopt);
        bool ok = false;
        for (auto& c : same)
        {
            auto x = diff_dumps(c.dump(r0.dopt), got);
            if (x.empty())
                ok = true;
            else
                d = x;
        }
        if (!ok)
            fail("after remounting the tree differs:%s; results:%s", d.c_str(), hs.c_str());
        st->runs.clear();
        if (mc_held())
            fail("%d locks held at the end", mc_held());
    };
    return mp;
}

// ================================================================ processes and the repository lock
// "proc~lock|mount~T0&&T1&&...": each thread stands for a process with its own number. Actions: m mounts
// (or takes the lock), c creates a file, u unmounts, pN continues as another process, number N; kN ends
// process N wherever it is.
const char kLock[] = "/.securefs.lock";
struct ProcState
{
    bool mount = false, users = false;
    std::vector<std::vector<std::string>> acts;
    std::string dir;
    FsConfig cfg = FsConfig::parse("full:b512");
    std::vector<int> pid;
    std::vector<bool> alive, holding, refused_ok;
    std::vector<int> session;                  // of the attempt under way, per thread
    std::vector<int> writes;                   // sessions, in the order in which they wrote
    std::vector<std::set<std::string>> maybe;  // names that may exist
    std::set<std::string> sure;
    std::map<int, std::string> fd_path;
    std::vector<bool> seen;                    // somebody else was there during the attempt
    int next_session = 0;
    bool killed = false;
};
ProcState* g_proc;
int pid_of(int t) { return g_proc && t >= 0 && t < (int)g_proc->pid.size() ? g_proc->pid[t] : 0; }
void proc_sys(const SysInfo& i)
{
    int t = mc_self();
    if (getenv("VF_DEBUG"))
        fprintf(stderr, "%ld T%d %s %s fd %d off %ld\n", mc_step(), t, kSysNames[i.id], i.path ? i.path : "", i.fd, i.off);
    if (!i.mutating || t < 0 || t >= (int)g_proc->session.size() || g_proc->session[t] < 0)
        return;
    std::string p = i.path ? i.path : "";
    if (p.empty() && i.fd >= 0)
    {
        char b[4096], l[64];
        snprintf(l, sizeof l, "/proc/self/fd/%d", i.fd);
        long n = syscall(SYS_readlinkat, AT_FDCWD, l, b, sizeof b - 1);
        if (n > 0)
            p.assign(b, n);
        auto d = p.find(" (deleted)");
        if (d != std::string::npos)
            p.resize(d);
    }
    if (p.size() >= sizeof kLock - 1 && p.substr(p.size() - (sizeof kLock - 1)) == kLock)
        return;
    if (p == std::string(kLock).substr(1))
        return;
    for (size_t o = 0; o < g_proc->holding.size(); ++o)
        if ((int)o != t && g_proc->holding[o] && g_proc->alive[o])
            mc_violation(fmt("process %d does %s of %s while process %d has the repository mounted for writing", t, kSysNames[i.id], p.c_str(), (int)o));
    if (getenv("VF_DEBUG"))
        fprintf(stderr, "T%d session %d %s %s\n", t, g_proc->session[t], kSysNames[i.id], p.c_str());
    g_proc->writes.push_back(g_proc->session[t]);
}
McProgram proc_program(const std::string& spec)
{
    auto st = std::make_shared<ProcState>();
    auto f = split(spec, '~');
    if (f.size() != 3)
        throw HarnessError("bad program " + spec);
    st->mount = f[1] == "mount";
    st->users = f[1] == "users";
    std::string r = f[2];
    size_t q;
    while ((q = r.find("&&")) != std::string::npos)
    {
        st->acts.push_back(split(r.substr(0, q), ';'));
        r = r.substr(q + 2);
    }
    st->acts.push_back(split(r, ';'));
    McProgram mp;
    mp.setup = [st]
    {
        reseed(7);
        securefs::global_logger.reset();
        st->dir = worker_dir() + "/proc";
        reset_dir(st->dir);
        size_t n = st->acts.size();
        st->pid.clear();
        for (size_t t = 0; t < n; ++t)
            st->pid.push_back(40000 + t);
        st->alive.assign(n, true);
        st->holding.assign(n, false);
        st->session.assign(n, -1);
        st->maybe.assign(n, {});
        st->sure.clear();
        st->writes.clear();
        st->next_session = 0;
        st->seen.assign(n, false);
        st->killed = false;
        if (st->mount)
        {
            Mount m(st->dir, st->cfg);
            uint64_t h;
            if (m.create("/first", 0644, &h) || m.release("/first", h))
                throw HarnessError("setup");
        }
        g_proc = st.get();
        g_mc_sys = proc_sys;
        g_mc_order_all = true;
    };
    for (size_t t = 0; t < st->acts.size(); ++t)
        mp.threads.push_back(
            [st, t]
            {
                reseed(1000 + t);
                auto& P = *st;
                std::unique_ptr<Mount> m;
                std::unique_ptr<securefs::full_format::RepoLocker> l;
                bool first = true;
                for (auto& a : P.acts[t])
                {
                    if (!first)
                        mc_boundary();
                    first = false;
                    if (a == "m")
                    {
                        if (m || l)
                            continue;
                        P.session[t] = P.next_session++;
                        P.seen[t] = false;
                        for (size_t o = 0; o < P.session.size(); ++o)
                            if (o != t && P.session[o] >= 0 && P.alive[o])
                                P.seen[t] = P.seen[o] = true;
                        size_t before = P.writes.size();
                        try
                        {
                            if (P.mount)
                                m = std::make_unique<Mount>(P.dir, P.cfg);
                            else
                                l = std::make_unique<securefs::full_format::RepoLocker>(std::make_shared<securefs::OSService>(P.dir), securefs::StrongType<bool, securefs::tReadOnly>(false));
                            for (size_t o = 0; o < P.holding.size(); ++o)
                                if (o != t && P.holding[o] && P.alive[o])
                                    mc_violation(fmt("processes %d and %d both have the repository mounted for writing", (int)o, (int)t));
                            P.holding[t] = true;
                            mc_note(fmt("%d mounts", (int)t));
                        }
                        catch (const securefs::VFSException& e)
                        {
                            if (e.error_number() == EEXIST && !P.seen[t])
                            {
                                // Has another process the number of a killed one?
                                bool reused = false;
                                for (size_t o = 0; o < P.pid.size(); ++o)
                                    for (size_t q = 0; q < P.pid.size(); ++q)
                                        reused |= o != q && !P.alive[o] && P.alive[q] && P.pid[o] == P.pid[q] && q != t;
                                mc_violation(fmt("process %d is refused although nobody else has the repository mounted%s", (int)t, reused ? " (an unrelated process has got the number of a killed one)" : ""));
                            }
                            // What a kill while writing does to the contents is the subject of C20.
                            if (e.error_number() != EEXIST && !(P.mount && P.killed))
                                mc_violation(fmt("process %d cannot mount: %s", (int)t, e.what()));
                            for (size_t k = before; k < P.writes.size(); ++k)
                                if (P.writes[k] == P.session[t])
                                    mc_violation(fmt("process %d, which is refused, has changed the repository", (int)t));
                            P.session[t] = -1;
                            mc_note(fmt("%d refused", (int)t));
                        }
                        catch (const std::exception& e)
                        {
                            if (!(P.mount && P.killed))
                                mc_violation(fmt("process %d cannot mount: %s", (int)t, e.what()));
                            P.session[t] = -1;
                        }
                    }
                    else if (a == "c")
                    {
                        if (!P.holding[t])
                            continue;
                        std::string name = fmt("/n%d", (int)t);
                        P.maybe[t].insert(name);
                        if (!m)
                            continue;
                        uint64_t h;
                        int rc = m->create(name, 0644, &h);
                        if (!rc)
                            rc = m->release(name, h);
                        if (rc && rc != -EEXIST && !P.killed)
                            mc_violation(fmt("process %d: creating returned %d", (int)t, rc));
                    }
                    else if (a == "w")
                    {
                        // Something is left to be written when it unmounts.
                        if (!P.holding[t] || !m)
                            continue;
                        std::string name = fmt("/w%d", (int)t);
                        P.maybe[t].insert(name);
                        uint64_t h;
                        int rc = m->create(name, 0644, &h);
                        if (rc && rc != -EEXIST && !P.killed)
                            mc_violation(fmt("process %d: creating returned %d", (int)t, rc));
                        if (!rc)
                            m->write(name, h, "0123456789", 0);
                    }
                    else if (a == "u")
                    {
                        if (!P.holding[t])
                            continue;
                        P.holding[t] = false;
                        m.reset();
                        l.reset();
                        P.session[t] = -1;
                        for (auto& x : P.maybe[t])
                            P.sure.insert(x);
                    }
                    else if (a[0] == 'p')
                    {
                        P.pid[t] = 40000 + atoi(a.c_str() + 1);
                        P.alive[t] = true;
                    }
                    else if (a[0] == 'k')
                    {
                        int v = atoi(a.c_str() + 1);
                        mc_point(0x6b6b, kMcWrite);
                        P.alive[v] = false;
                        P.killed = true;
                        mc_kill(v);
                    }
                    else
                        throw HarnessError("unknown action " + a);
                    if (mc_held())
                        mc_violation(fmt("process %d holds %d locks after \"%s\"", (int)t, mc_held(), a.c_str()));
                }
                mc_point(0x6b6b, kMcWrite);
                P.alive[t] = false;
            });
    mp.finish = [st]
    {
        auto& P = *st;
        g_mc_sys = nullptr;
        g_mc_order_all = false;
        // Sessions must not take turns writing.
        std::set<int> over;
        for (size_t i = 1; i < P.writes.size(); ++i)
            if (P.writes[i] != P.writes[i - 1])
            {
                over.insert(P.writes[i - 1]);
                if (over.count(P.writes[i]))
                    fail("two mounts wrote to the repository in turns");
            }
        for (auto w : P.writes)
            mc_note(fmt("%d", w));
        // Whoever is left comes as yet another process, and everybody else is gone.
        g_proc = nullptr;
        try
        {
            if (P.mount)
            {
                Mount m(P.dir, P.cfg);
                if (P.killed)
                    return;
                DumpOptions o;
                auto d = dump_tree(m, o);
                std::set<std::string> all{"/", "/first"};
                for (auto& x : P.maybe)
                    all.insert(x.begin(), x.end());
                P.sure.insert("/first");
                for (auto& x : P.sure)
                    if (!d.count(x))
                        fail("%s is missing at the end", x.c_str());
                for (auto& [k, v] : d)
                    if (!all.count(k))
                        fail("%s has appeared", k.c_str());
            }
            else
                securefs::full_format::RepoLocker l(std::make_shared<securefs::OSService>(P.dir), securefs::StrongType<bool, securefs::tReadOnly>(false));
        }
        catch (const Failure&)
        {
            throw;
        }
        catch (const std::exception& e)
        {
            auto v = dynamic_cast<const securefs::VFSException*>(&e);
            if ((v && v->error_number() == EEXIST) || !P.killed || !P.mount)
                fail("nobody has the repository mounted, but mounting it fails: %s", e.what());
        }
    };
    return mp;
}
}    // namespace
extern "C"
{
    pid_t getpid()
    {
        int v = g_proc ? pid_of(mc_self()) : 0;
        return v ? v : syscall(SYS_getpid);
    }
    int kill(pid_t p, int sig)
    {
        if (sig || p < 30000 || !(g_proc || p >= 40000))
            return syscall(SYS_kill, p, sig);
        if (g_proc && mc_self() >= 0)
        {
            // Whether it is still alive is decided now.
            mc_point(0x6b6b, kMcRead);
            for (size_t t = 0; t < g_proc->pid.size(); ++t)
                if (g_proc->pid[t] == p && g_proc->alive[t])
                {
                    // The process of another user is there, but cannot be signalled.
                    if (!g_proc->users || (int)t == mc_self())
                        return 0;
                    errno = EPERM;
                    return -1;
                }
        }
        errno = ESRCH;
        return -1;
    }
}
namespace
{
// ================================================================ what is explored
using V = std::vector<std::string>;
// "$" is the thread's own handle.
std::string own(const std::string& op, int t)
{
    std::string r;
    for (char c : op)
        if (c == '$')
            r += std::to_string(t + 1);
        else
            r += c;
    return r;
}
void add(std::vector<Job>& j, const std::string& cfg, const std::string& flags, const std::string& setup, const V& threads, int preempt, int parts = 1)
{
    Prog p{cfg, flags, setup, {}};
    for (size_t t = 0; t < threads.size(); ++t)
        p.threads.push_back((t > 0 && flags.find('2') != std::string::npos ? "2:" : "") + own(threads[t], t));
    j.push_back({p.str(), preempt, parts});
}
// Every pair of the operations, in both places unless they are the same.
void add_pairs(std::vector<Job>& j, const std::string& cfg, const std::string& flags, const std::string& setup, const V& ops, int preempt)
{
    for (size_t x = 0; x < ops.size(); ++x)
        for (size_t y = x; y < ops.size(); ++y)
            add(j, cfg, flags, setup, {ops[x], ops[y]}, preempt);
}
void add_cross(std::vector<Job>& j, const std::string& cfg, const std::string& flags, const std::string& setup, const V& a, const V& b, int preempt)
{
    for (auto& x : a)
        for (auto& y : b)
            add(j, cfg, flags, setup, {x, y}, preempt);
}
void add_triples(std::vector<Job>& j, const std::string& cfg, const std::string& flags, const std::string& setup, const V& ops, int preempt)
{
    for (size_t x = 0; x < ops.size(); ++x)
        for (size_t y = x; y < ops.size(); ++y)
            for (size_t z = y; z < ops.size(); ++z)
                add(j, cfg, flags, setup, {ops[x], ops[y], ops[z]}, preempt);
}
V seqs2(const V& ops)
{
    V r;
    for (auto& x : ops)
        for (auto& y : ops)
            r.push_back(x + ";" + y);
    return r;
}
// Distinct data per thread.
V tagged(const V& ops, int t)
{
    V r;
    for (auto& o : ops)
        r.push_back(o.compare(0, 2, "hw") == 0 ? o + fmt(" %d", 2 + t) : o);
    return r;
}
void data_jobs(std::vector<Job>& j, bool th, const V& cfgs, const std::string& flags)
{
    V ops = {"hw $ 100 50", "hw $ 400 700", "hw $ 1200 900", "hr $ 300 900", "ht $ 200", "ht $ 2000", "hs $", "hsync $", "hflush $",
             "close $", "trunc /a 150", "trunc /a 1700", "open /a 3 rt", "stat /a"};
    V few = {"hw $ 400 700", "hw $ 1290 300", "hr $ 300 1500", "ht $ 200", "ht $ 2000", "hs $"};
    V tri = {"hw $ 100 50", "hw $ 400 700", "hw $ 1250 500", "hr $ 0 2000", "ht $ 200", "ht $ 2000", "hs $", "trunc /a 600", "stat /a"};
    bool two = flags.find('2') != std::string::npos;
    for (auto& cfg : cfgs)
    {
        std::string open = "create /a;write /a 0 1300 1";
        // On the second mount the threads open the file themselves.
        std::string own1 = open + (two ? ";open /a 1" : ";open /a 1;open /a 2;open /a 3");
        auto fix = [&](V v, int t)
        {
            v = tagged(v, t);
            for (auto& x : v)
            {
                if (two && t > 0 && x.find('$') != std::string::npos)
                    x = "open /a $;" + x;
                if (x == "open /a 3 rt" && t == 1)
                    x = "open /a 0 rt";
                if (x == "open /a 3 rt")
                    x = t == 0 ? "open /a 0 rt" : "open /a 3 rt";
            }
            return v;
        };
        for (auto& x : fix(ops, 0))
            for (auto& y : fix(ops, 1))
                if (!(x == "open /a 0 rt" && y == "open /a 0 rt"))
                    add(j, cfg, flags, own1, {x, y}, th ? 4 : 2);
        // several operations each
        for (auto& x : seqs2(few))
            for (auto& y : two ? few : seqs2(few))
                add(j, cfg, flags, own1, {fix({split(x, ';')[0]}, 0)[0] + ";" + fix({split(x, ';')[1]}, 0)[0], two ? fix({y}, 1)[0] : fix({split(y, ';')[0]}, 1)[0] + ";" + fix({split(y, ';')[1]}, 1)[0]},
                    th ? 2 : 1);
        if (two)
            continue;
        // three callers
        for (size_t x = 0; x < tri.size(); ++x)
            for (size_t y = x; y < tri.size(); ++y)
                for (size_t z = y; z < tri.size(); ++z)
                    add(j, cfg, flags, own1, {tagged(tri, 0)[x], tagged(tri, 1)[y], tagged(tri, 2)[z]}, th ? 2 : 1);
        // one handle for all
        auto shared = [](V v, int t)
        {
            for (auto& x : v)
                for (auto& c : x)
                    if (c == '$')
                        c = '1';
            return tagged(v, t);
        };
        V sh(ops.begin(), ops.begin() + 9);
        for (size_t x = 0; x < sh.size(); ++x)
            for (size_t y = x; y < sh.size(); ++y)
                add(j, cfg, flags, own1, {shared(sh, 0)[x], shared(sh, 1)[y]}, th ? 4 : 2);
        for (size_t x = 0; x < 6; ++x)
            for (size_t y = x; y < 6; ++y)
                for (size_t z = y; z < 6; ++z)
                    add(j, cfg, flags, own1, {shared(few, 0)[x], shared(few, 1)[y], shared(few, 2)[z]}, th ? 2 : 1);
    }
}
std::vector<Job> jobs_c22(bool th)
{
    std::vector<Job> j;
    data_jobs(j, th, {"lite:b512:t60", "full:b512", "lite:b512:t60:p40", "full:b512:p20:time"}, "");
    return j;
}
// Both use the shared handle 0 and one of them closes it: nobody does that.
bool closes_shared(const std::string& a, const std::string& b)
{
    auto uses = [](const std::string& x)
    {
        for (auto& o : split(x, ';'))
        {
            auto w = split(o, ' ');
            if (w.size() > 1 && w[1] == "0")
                return true;
            if (w.size() > 2 && w[2] == "0" && (w[0] == "open" || w[0] == "ocreate"))
                return true;
        }
        return false;
    };
    auto closes = [](const std::string& x) { return (";" + x + ";").find(";close 0;") != std::string::npos; };
    return (closes(a) && uses(b)) || (closes(b) && uses(a));
}
std::vector<Job> jobs_c23(bool th)
{
    std::vector<Job> j;
    std::string setup = "mkdir /d;mkdir /e;create /a;write /a 0 700 1;link /a /b;create /d/x;symlink a /l;ocreate /o 0;hw 0 0 100 5";
    V ops = {"create /n",       "mkdir /n",        "symlink a /n",    "create /d/n",     "ocreate /n $",  "unlink /a",        "unlink /b",     "unlink /o",   "unlink /d/x",
             "rmdir /e",        "rmdir /d",        "rename /a /n",    "rename /a /d/x",  "rename /d/x /a", "rename /d /e",     "rename /e /d",  "rename /a /b", "rename /b /d/n",
             "rename /e /n",    "rename /o /a",    "rename /e /d/y",  "link /a /n",      "link /a /d/n",   "ls /",             "ls /d",         "stat /a",     "stat /d/x",
             "open /a $",       "open /o $",       "trunc /a 100",    "chmod /a 600",    "setx /a k 5 3",  "utimens /a 5 6",   "hw 0 50 100 9",   "hr 0 0 200",  "ht 0 50",
             "close 0",         "open /a $ rt",    "hsync 0"};
    V seqs = {"open /a $;hr $ 0 700;close $",
              "open /a $;hw $ 650 100 7;close $",
              "open /o $;close $",
              "open /o $;close 0",
              "create /n;unlink /n",
              "unlink /a;unlink /b",
              "unlink /a;create /a",
              "rename /a /n;rename /n /a",
              "rename /d/x /n;rename /n /d/x",
              "rmdir /e;mkdir /e",
              "link /a /n;unlink /a",
              "rename /d /e;create /e/n",
              "unlink /d/x;rmdir /d",
              "ls /;stat /a",
              "ls /d;ls /e",
              "ocreate /n $;unlink /n",
              "ocreate /d/n $;hw $ 0 600 9;close $",
              "close 0;unlink /o"};
    V tri = {"create /n", "mkdir /n", "unlink /a", "rename /a /n", "rename /d/x /a", "rename /d /e", "rmdir /e", "link /a /d/n", "ls /", "open /a $", "close 0", "unlink /o"};
    if (!th)
        tri = {"create /n", "unlink /a", "rename /a /n", "rename /d/x /a", "rmdir /e", "ls /", "open /a $", "close 0"};
    V cfgs = {"full:b512"};
    if (th)
        cfgs.push_back("full:b4096:p16:time:v1");
    for (auto& cfg : cfgs)
    {
        for (size_t x = 0; x < ops.size(); ++x)
            for (size_t y = x; y < ops.size(); ++y)
                if (!closes_shared(ops[x], ops[y]))
                    add(j, cfg, "K", setup, {ops[x], ops[y]}, th ? 3 : 2);
        for (auto& x : seqs)
            for (auto& y : ops)
                if (!closes_shared(x, y))
                    add(j, cfg, "K", setup, {x, y}, th ? 2 : 1);
        for (size_t x = 0; x < seqs.size(); ++x)
            for (size_t y = x; y < seqs.size(); ++y)
                if (!closes_shared(seqs[x], seqs[y]))
                    add(j, cfg, "K", setup, {seqs[x], seqs[y]}, th ? 2 : 1);
        for (size_t x = 0; x < tri.size(); ++x)
            for (size_t y = x; y < tri.size(); ++y)
                for (size_t z = y; z < tri.size(); ++z)
                    if (!closes_shared(tri[x], tri[y]) && !closes_shared(tri[x], tri[z]) && !closes_shared(tri[y], tri[z]))
                        add(j, cfg, "K", setup, {tri[x], tri[y], tri[z]}, th ? 2 : 1);
    }
    // Objects leave the cache while others are looked up: one shard full of closed objects.
    V ev = {"stat /z0", "open /z0 $;close $", "open /z45 $;hw $ 0 20 3;close $", "create /n", "unlink /z0", "unlink /z1;create /z1", "rename /z0 /z1", "ls /", "stat /z30;stat /z31;stat /z32", "trunc /z0 100"};
    for (size_t x = 0; x < ev.size(); ++x)
        for (size_t y = x; y < ev.size(); ++y)
            add(j, "full:b512", "KS", "fill 49", {ev[x], ev[y]}, th ? 3 : 1);
    return j;
}
std::vector<Job> jobs_c24(bool th)
{
    std::vector<Job> j;
    // a and h are short names in the storage, @b and @x long ones.
    std::string setup = "mkdir /d;mkdir /@a;create /a;write /a 0 700 1;create /@b;write /@b 0 700 2;create /d/@x;symlink a /l;link /a /h";
    V ops = {"create /n",         "create /@n",      "mkdir /n",        "mkdir /@n",       "symlink a /@n",   "unlink /a",        "unlink /@b",     "unlink /d/@x",    "rmdir /@a",
             "rmdir /d",          "rename /a /n",    "rename /a /@n",   "rename /@b /n",   "rename /@b /@n",  "rename /@b /a",    "rename /a /@b",  "rename /@b /d/@b", "rename /d/@x /@n",
             "rename /d/@x /d/@y", "rename /d /@a",  "rename /@a /@n",  "link /a /@n",     "link /@b /@n",    "link /@b /d/@n",   "ls /",           "ls /d",           "stat /@b",
             "stat /a",           "open /@b $",      "open /a $",       "trunc /@b 100",   "chmod /@b 600",   "setx /@b k 5 3",   "utimens /@b 5 6", "write /a 600 200 9", "read /@b 0 700"};
    V seqs = {"create /@n;unlink /@n", "mkdir /@n;rmdir /@n",  "unlink /@b;create /@b",      "rename /@b /@n;rename /@n /@b", "link /@b /@n;unlink /@b", "open /@b $;hr $ 0 700;close $",
              "open /@b $;hw $ 650 100 7;close $", "ls /;stat /@b", "rename /d/@x /@n;rmdir /d", "ocreate /@n $;hw $ 0 600 8;close $"};
    V tri = {"create /@n", "unlink /@b", "rename /@b /@n", "rename /a /@n", "link /@b /@n", "mkdir /@n", "ls /", "rename /d/@x /@n", "unlink /a"};
    if (!th)
        tri.resize(6);
    V core = {"create /@n", "unlink /@b", "rename /@b /@n", "rename /a /@n", "link /@b /@n", "rename /@b /n", "ls /", "rename /d/@x /@n"};
    std::string cfg = "lite:b512:t60";
    for (auto& f : V{"K", "2"})
    {
        for (size_t x = 0; x < ops.size(); ++x)
            for (size_t y = f == "2" ? 0 : x; y < ops.size(); ++y)
                add(j, cfg, f, setup, {ops[x], ops[y]}, th ? 3 : f == "2" ? 1 : 2);
        for (size_t x = 0; f == "2" && !th && x < core.size(); ++x)
            for (size_t y = x; y < core.size(); ++y)
                add(j, cfg, f, setup, {core[x], core[y]}, 2);
        for (auto& x : seqs)
            for (auto& y : th || f == "K" ? ops : core)
            {
                add(j, cfg, f, setup, {x, y}, th ? 2 : 1);
                if (f == "2" && th)
                    add(j, cfg, f, setup, {y, x}, 2);
            }
        for (size_t x = 0; x < seqs.size(); ++x)
            for (size_t y = x; y < seqs.size(); ++y)
                add(j, cfg, f, setup, {seqs[x], seqs[y]}, th ? 2 : 1);
    }
    for (size_t x = 0; x < tri.size(); ++x)
        for (size_t y = x; y < tri.size(); ++y)
            for (size_t z = y; z < tri.size(); ++z)
                add(j, cfg, "K", setup, {tri[x], tri[y], tri[z]}, th ? 2 : 1);
    data_jobs(j, th, {"lite:b512:t60"}, "2");
    // With padding the size is known only from the contents.
    V pad = {"create /n", "ocreate /n $;hw $ 0 600 8", "stat /n", "stat /a", "open /a $;hw $ 100 700 9", "trunc /a 0", "trunc /a 1700", "open /a $ rt", "open /n $;hs $", "unlink /a;create /a", "rename /a /n"};
    for (auto& f : V{"K", "2"})
        for (size_t x = 0; x < pad.size(); ++x)
            for (size_t y = f == "2" ? 0 : x; y < pad.size(); ++y)
                add(j, "lite:b512:t60:p40", f, "create /a;write /a 0 1300 1", {pad[x], pad[y]}, th ? 4 : 2);
    return j;
}
std::vector<Job> jobs_c25(bool th)
{
    std::vector<Job> j;
    auto A = [&](const char* kind, const std::string& threads, int p) { j.push_back({std::string("proc~") + kind + "~" + threads, p, 8}); };
    V procs = {"m;u", "m;u;m;u"};
    for (auto& x : procs)
        for (auto& y : procs)
        {
            A("lock", x + "&&" + y, th ? 5 : 3);
            A("users", x + "&&" + y, th ? 4 : 2);
            A("users", x + "&&" + y + "&&k0", th ? 4 : 2);
            A("lock", x + "&&" + y + "&&k0", th ? 4 : 3);
            A("lock", x + "&&" + y + "&&k0;k1", th ? 4 : 2);
            for (auto& z : procs)
                A("lock", x + "&&" + y + "&&" + z, th ? 3 : 2);
        }
    A("lock", "m;u&&m;u&&m;u", th ? 4 : 3);
    A("lock", "m;u&&m;u&&m;u&&k0", th ? 3 : 2);
    A("lock", "m;u&&k0;p0;m;u", th ? 4 : 3);
    A("lock", "m;u&&k0;p0;m;u&&m;u", th ? 4 : 2);
    V mounts = {"m;c;u", "m;u;m;w;u"};
    for (auto& x : mounts)
        for (auto& y : mounts)
        {
            A("mount", x + "&&" + y, th ? 3 : 2);
            A("mount", x + "&&" + y + "&&k0", th ? 3 : 2);
        }
    A("mount", "m;c;u&&m;c;u&&m;c;u", th ? 2 : 1);
    A("mount", "m;c;u&&m;c;u&&m;c;u&&k0", th ? 2 : 1);
    A("mount", "m;c;u&&k0;p0;m;c;u", th ? 3 : 2);
    return j;
}
std::vector<Job> jobs()
{
    if (g_args.prop == "C25")
        return jobs_c25(g_args.thorough());
    if (g_args.prop == "C24")
        return jobs_c24(g_args.thorough());
    if (g_args.prop == "C23")
        return jobs_c23(g_args.thorough());
    if (g_args.prop == "C22")
        return jobs_c22(g_args.thorough());
    if (g_args.prop == "C26")
        return jobs_c26(g_args.thorough());
    if (g_args.prop == "C27")
        return jobs_c27(g_args.thorough());
    throw HarnessError("unknown property");
}
McProgram program_of(const std::string& spec)
{
    if (spec.compare(0, 3, "fs~") == 0)
        return fs_program(spec);
    if (spec.compare(0, 5, "proc~") == 0)
        return proc_program(spec);
    if (spec.compare(0, 6, "timer~") == 0)
        return timer_program(spec);
    if (spec.compare(0, 5, "idle~") == 0)
        return idle_program(spec);
    if (spec.compare(0, 4, "tls~") == 0)
        return tls_program(spec);
    throw HarnessError("unknown program " + spec);
}
}    // namespace

int main(int argc, char** argv)
{
    CheckDef d;
    d.setup = [] { umask(0); };
    d.rule = "an execution counts as non-trivial when the order of its conflicting steps differs from that of every other execution of the same program";
    d.shards = []
    {
        std::vector<Shard> sh;
        std::map<int, int> n;
        for (auto& j : jobs())
        {
            if (getenv("VF_ONLY") && j.prog.find(getenv("VF_ONLY")) == std::string::npos)
                continue;    // development
            ++n[j.preempt];
            for (int i = 0; i < j.parts; ++i)
                sh.push_back({"mc", [=]
                              {
                                  McConfig c;
                                  c.preemptions = j.preempt;
                                  c.part = i;
                                  c.of = j.parts;
                                  auto p = program_of(j.prog);
                                  mc_explore(p, c, j.prog);
                              }});
        }
        std::string note;
        for (auto& [p, k] : n)
            note += fmt("[%d programs: every schedule with up to %d preemptions] ", k, p);
        set_bounds_note(note);
        return sh;
    };
    d.run_case = [](const std::string& c)
    {
        auto q = c.rfind('|');
        auto p = program_of(c.substr(0, q));
        mc_run_one(p, c.substr(q + 1));
    };
    d.extra_coverage = []
    {
        return std::vector<std::string>{
            fmt("\"schedules\":%lld", (long long)counter(kEval)),
            fmt("\"scheduling_points\":%lld", (long long)counter(kTransitions)),
            fmt("\"distinct_outcomes\":%lld", (long long)counter(kStates)),
        };
    };
    d.assumptions = {
        "memory is sequentially consistent between scheduling points (data races are detected and reported instead)",
        "switches happen at lock operations, atomics, conflicting system calls and operation boundaries",
    };
    return check_main(argc, argv, d);
}
