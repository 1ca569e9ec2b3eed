// C26, C27: the timer, idleness and per-thread objects.
#include "c_mc.h"
#include "fs.h"
#include "fuse_hook.h"
#include "logger.h"
#include "model.h"
#include "resettable_timer.h"
#include "thread_local.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <memory>
#include <set>
#include <time.h>

namespace vf
{
namespace
{
constexpr int64_t kSec = 1000000000ll;
constexpr int64_t kNever = INT64_MAX;

std::vector<std::vector<std::string>> parse_threads(const std::string& t)
{
    std::vector<std::vector<std::string>> v;
    std::string r = t;
    size_t q;
    while ((q = r.find("&&")) != std::string::npos)
    {
        v.push_back(split(r.substr(0, q), ';'));
        r = r.substr(q + 2);
    }
    v.push_back(split(r, ';'));
    return v;
}
std::string show_time(int64_t ns) { return ns == kNever ? "never" : fmt("%gs", (ns - 1700000000 * kSec) / 1e9); }
// One setting of the timer, or one operation.
struct Ev
{
    int tid;
    long inv, ret = LONG_MAX;         // steps
    int64_t t_inv, t_ret = kNever;    // virtual time
    int64_t due;                      // the time set
};
struct Fire
{
    long step;
    int64_t t;
};
struct TimerState
{
    bool idle = false, free_time = false, callback_sets = false;
    int64_t base = 0, limit = 0;
    std::vector<std::vector<std::string>> acts;
    std::unique_ptr<securefs::ResettableTimer> timer;
    std::unique_ptr<securefs::IdleShutdownHook> hook;
    std::unique_ptr<Mount> mount;
    std::vector<Ev> evs;
    std::vector<Fire> fires;
    size_t done = 0;
    bool ready = false, destroying = false, destroyed = false;
    bool must = false;
    std::map<std::string, uint64_t> fh;
    fuse_file_info dirinfo{};
    std::string dir;
    FsConfig cfg;
    bool later_than_fire = false;
};
TimerState* g_timer;
struct DoneCond : McCond
{
    TimerState* s;
    size_t n;
    bool ok() override { return s->done >= n; }
};
struct FiredCond : McCond
{
    TimerState* s;
    bool ok() override { return !s->fires.empty(); }
};
struct ReadyCond : McCond
{
    TimerState* s;
    bool ok() override { return s->ready; }
};
constexpr uint64_t kKey = 0x71e5;

// May the timer have gone off at this moment, at the latest?
bool justified(const TimerState& s, const Fire& f, size_t nth)
{
    for (auto& i : s.evs)
    {
        if (i.inv > f.step || i.due == kNever)
            continue;
        // A second time needs a new setting.
        if (nth > 0 && i.ret < s.fires[nth - 1].step)
            continue;
        // It was in force at the latest until a setting that came after it returned.
        long end = f.step;
        int64_t t = f.t;
        for (auto& j : s.evs)
            if (j.inv > i.ret && j.ret < end)
            {
                end = j.ret;
                t = j.t_ret;
            }
        if (i.inv <= end && i.due <= t && (s.free_time || f.t <= std::max(i.due, i.t_ret == kNever ? f.t : i.t_ret)))
            return true;
    }
    return false;
}
// No operation for that long: there is a moment such that every operation that had returned by then
// had begun that long before.
bool justified_idle(const TimerState& s, const Fire& f)
{
    std::vector<std::pair<long, int64_t>> moments{{f.step, f.t}};
    for (auto& j : s.evs)
        if (j.ret <= f.step)
            moments.push_back({j.ret, j.t_ret});
    for (auto& [step, t] : moments)
    {
        bool ok = true, any = false, exact = false;
        for (auto& j : s.evs)
        {
            if (j.ret < step)
                ok &= j.t_inv + s.limit <= t;
            if (j.inv < step)
            {
                any |= j.t_inv + s.limit <= t;
                exact |= j.t_inv + s.limit == f.t;
            }
        }
        if (ok && any && (s.free_time || exact))
            return true;
    }
    return false;
}
std::string history(const TimerState& s)
{
    std::string r;
    for (auto& e : s.evs)
        r += fmt("T%d %s at %s..%s; ", e.tid, s.idle ? "operation" : ("set to " + show_time(e.due)).c_str(), show_time(e.t_inv).c_str(), show_time(e.t_ret).c_str());
    return r;
}
void fired()
{
    mc_point(kKey, kMcWrite);
    auto& s = *g_timer;
    Fire f{mc_step(), g_virtual_now_ns};
    if (s.destroyed)
        mc_violation("the callback runs after the timer has been destroyed");
    if (mc_held())
        mc_violation("the callback runs with the timer's lock held");
    bool ok = s.idle ? justified_idle(s, f) && s.fires.empty() : justified(s, f, s.fires.size());
    if (!ok)
        mc_violation(fmt("%s at %s: %s", s.idle ? "the mount shuts down" : "the callback runs", show_time(f.t).c_str(), history(s).c_str()));
    s.fires.push_back(f);
    mc_note("fire");
    if (s.callback_sets && s.timer)
        s.timer->setTimePoint(absl::FromUnixNanos(s.base + 1000 * kSec));
}
// Does something have to happen without further calls?
bool must_fire(const TimerState& s)
{
    if (s.idle)
        return true;
    if (!s.fires.empty())
        return false;
    bool any = false;
    for (auto& i : s.evs)
    {
        bool last = true;
        for (auto& j : s.evs)
            last &= !(j.inv > i.ret);
        if (!last)
            continue;
        any = true;
        if (i.due == kNever)
            return false;
    }
    return any;
}
void sleep_for(double sec)
{
    timespec t{(time_t)sec, (long)(std::fmod(sec, 1) * 1e9)};
    nanosleep(&t, nullptr);
}
size_t begin_ev(TimerState& s, size_t t, int64_t due)
{
    mc_point(kKey, kMcWrite);
    s.evs.push_back({(int)t, mc_step(), LONG_MAX, g_virtual_now_ns, kNever, due});
    return s.evs.size() - 1;
}
void end_ev(TimerState& s, size_t e)
{
    mc_point(kKey, kMcWrite);
    s.evs[e].ret = mc_step();
    s.evs[e].t_ret = g_virtual_now_ns;
}
// One operation of the mount; 0 or an error.
int fs_op(TimerState& s, const std::string& o)
{
    auto& m = *s.mount;
    struct stat st;
    struct statvfs sv;
    std::string out;
    uint64_t h;
    timespec ts[2] = {{5, 0}, {6, 0}};
    std::vector<DirEnt> ents;
    fuse_file_info info{};
    auto raw = [&]
    {
        m.getattr("/", &st);    // sets the context
    };
    (void)raw;
    if (o == "getattr") return m.getattr("/a", &st);
    if (o == "getattr0") return m.getattr("/none", &st) == -ENOENT ? 0 : -1;
    if (o == "fgetattr") return m.fgetattr("/a", s.fh["a"], &st);
    if (o == "statfs") return m.statfs("/", &sv);
    if (o == "create")
    {
        int rc = m.create("/c", 0644, &h);
        s.fh["c"] = h;
        return rc;
    }
    if (o == "open")
    {
        int rc = m.open("/a", 2, &h);
        s.fh["b"] = h;
        return rc;
    }
    if (o == "release") return m.release("/a", s.fh["a"]);
    if (o == "read") return m.read("/a", s.fh["a"], &out, 10, 0) >= 0 ? 0 : -1;
    if (o == "write") return m.write("/a", s.fh["a"], "hello", 0) == 5 ? 0 : -1;
    if (o == "flush") return m.flush("/a", s.fh["a"]);
    if (o == "fsync") return m.fsync("/a", s.fh["a"]);
    if (o == "ftruncate") return m.ftruncate("/a", s.fh["a"], 3);
    if (o == "truncate") return m.truncate("/a", 7);
    if (o == "unlink") return m.unlink("/b");
    if (o == "mkdir") return m.mkdir("/e", 0755);
    if (o == "rmdir") return m.rmdir("/d");
    if (o == "rename") return m.rename("/b", "/n");
    if (o == "link")
    {
        int rc = m.link("/a", "/h");
        return rc;
    }
    if (o == "symlink") return m.symlink("a", "/s");
    if (o == "readlink") return m.readlink("/l", &out);
    if (o == "chmod") return m.chmod("/a", 0600);
    if (o == "chown") return m.chown("/a", 0, 0);
    if (o == "utimens") return m.utimens("/a", ts);
    if (o == "setxattr") return m.setxattr("/a", "user.z", "v", 0);
    if (o == "getxattr") return m.getxattr("/a", "user.x", &out, 100, false) >= 0 ? 0 : -1;
    if (o == "listxattr") return m.listxattr_raw("/a", nullptr, 0) >= 0 ? 0 : -1;
    if (o == "removexattr") return m.removexattr("/a", "user.x");
    // The parts of listing a directory.
    if (o == "opendir" || o == "readdir" || o == "releasedir")
    {
        t_fuse_private = m.impl.get();
        if (o == "opendir")
            return m.ops.opendir("/d", &s.dirinfo);
        if (o == "releasedir")
            return m.ops.releasedir("/d", &s.dirinfo);
        return m.ops.readdir("/d", nullptr, [](void*, const char*, const struct stat*, off_t) { return 0; }, 0, &s.dirinfo);
    }
    throw HarnessError("unknown operation " + o);
}
void prepare_mount(TimerState& s)
{
    auto& m = *s.mount;
    uint64_t h;
    int rc = m.create("/a", 0644, &h);
    s.fh["a"] = h;
    rc |= m.create("/b", 0644, &h) | m.release("/b", h) | m.mkdir("/d", 0755) | m.symlink("a", "/l");
    if (m.ops.setxattr)
        rc |= m.setxattr("/a", "user.x", "w", 0);
    if (rc)
        throw HarnessError("setup");
}
McProgram make_timer_program(const std::string& spec, bool idle)
{
    auto f = split(spec, '~');
    if (f.size() != (idle ? 4 : 3))
        throw HarnessError("bad program " + spec);
    auto st = std::make_shared<TimerState>();
    st->idle = idle;
    st->free_time = f[1].find('F') != std::string::npos;
    st->callback_sets = f[1].find('C') != std::string::npos;
    st->limit = 10 * kSec;
    if (idle && f[2] != "-")
        st->cfg = FsConfig::parse(f[2]);
    bool mounted = idle && f[2] != "-";
    st->acts = parse_threads(f.back());
    McProgram mp;
    mp.setup = [st, mounted]
    {
        auto& s = *st;
        reseed(7);
        securefs::global_logger.reset();
        g_mc_time_free = s.free_time;
        g_timer = st.get();
        s.base = g_virtual_now_ns;
        s.evs.clear();
        s.fires.clear();
        s.done = 0;
        s.ready = s.destroying = s.destroyed = s.must = false;
        s.fh.clear();
        if (!s.idle)
        {
            s.timer = std::make_unique<securefs::ResettableTimer>([] { fired(); });
            s.ready = true;
        }
        if (mounted)
        {
            s.dir = worker_dir() + "/idle";
            reset_dir(s.dir);
        }
    };
    for (size_t t = 0; t < st->acts.size(); ++t)
        mp.threads.push_back(
            [st, t, mounted]
            {
                auto& s = *st;
                reseed(1000 + t);
                if (s.idle && t == 0)
                {
                    auto e = begin_ev(s, t, 0);
                    if (mounted)
                    {
                        s.mount = std::make_unique<Mount>(s.dir, s.cfg);
                        end_ev(s, e);
                        e = begin_ev(s, t, 0);
                        prepare_mount(s);
                    }
                    else
                        s.hook = std::make_unique<securefs::IdleShutdownHook>(absl::Nanoseconds(s.limit));
                    end_ev(s, e);
                    mc_release(kKey);
                    s.ready = true;
                }
                if (!s.ready)
                {
                    ReadyCond c;
                    c.s = &s;
                    mc_block(c, kKey);
                }
                mc_acquire(kKey);
                for (auto& a : s.acts[t])
                {
                    mc_boundary();
                    if (a[0] == 'w')
                        sleep_for(atof(a.c_str() + 2));
                    else if (a[0] == 's' || a[0] == 'r' || a == "x")
                    {
                        int64_t due = a == "x" ? kNever : (a[0] == 's' ? s.base : g_virtual_now_ns) + (int64_t)(atof(a.c_str() + 2) * 1e9);
                        auto e = begin_ev(s, t, due);
                        s.timer->setTimePoint(due == kNever ? absl::InfiniteFuture() : absl::FromUnixNanos(due));
                        end_ev(s, e);
                    }
                    else if (a == "n")
                    {
                        auto e = begin_ev(s, t, 0);
                        s.hook->notify_activity();
                        end_ev(s, e);
                    }
                    else if (a.compare(0, 2, "o ") == 0)
                    {
                        auto e = begin_ev(s, t, 0);
                        int rc = fs_op(s, a.substr(2));
                        end_ev(s, e);
                        if (rc)
                            mc_violation(fmt("%s returned %d", a.c_str() + 2, rc));
                    }
                    else if (a == "k")
                    {
                        if (!s.fires.empty())
                            mc_violation("the mount has shut down");
                    }
                    else if (a == "d" || a == "q")
                    {
                        DoneCond c;
                        c.s = &s;
                        c.n = s.acts.size() - 1;
                        if (!c.ok())
                            mc_block(c, kKey);
                        mc_acquire(kKey + 1);
                        if (a == "q" && must_fire(s))
                        {
                            FiredCond w;
                            w.s = &s;
                            mc_block(w, kKey);
                        }
                        else if (a == "q")
                            sleep_for(2000);
                        mc_point(kKey, kMcWrite);
                        int64_t before = g_virtual_now_ns;
                        s.destroying = true;
                        s.timer.reset();
                        s.hook.reset();
                        s.mount.reset();
                        mc_point(kKey, kMcWrite);
                        s.destroyed = true;
                        if (!s.free_time && g_virtual_now_ns != before)
                            mc_violation(fmt("destroying the timer took %gs", (g_virtual_now_ns - before) / 1e9));
                        mc_note(fmt("%zu fires", s.fires.size()));
                    }
                    else
                        throw HarnessError("unknown action " + a);
                    if (mc_held())
                        mc_violation(fmt("thread %d holds a lock after \"%s\"", (int)t, a.c_str()));
                }
                mc_point(kKey, kMcWrite);
                mc_release(kKey + 1);
                ++s.done;
            });
    mp.finish = [st]
    {
        g_timer = nullptr;
        g_mc_time_free = false;
        st->timer.reset();
        st->hook.reset();
        st->mount.reset();
    };
    return mp;
}
}    // namespace

McProgram timer_program(const std::string& spec) { return make_timer_program(spec, false); }
McProgram idle_program(const std::string& spec) { return make_timer_program(spec, true); }

std::vector<Job> jobs_c26(bool th)
{
    std::vector<Job> j;
    using V = std::vector<std::string>;
    auto A = [&](const std::string& flags, const std::string& threads, int p, int parts = 1) { j.push_back({"timer~" + flags + "~" + threads, p, parts}); };
    for (auto& fl : V{"-", "F"})
    {
        V end = {"d", "q"};
        V sets = {"s 10", "s 20", "s 5", "s -1", "r 10", "x", "s 0.000001"};
        V waits = {"", "w 3;", "w 10;", "w 15;"};
        bool F = fl == "F";
        for (auto& e : end)
        {
            A(fl, e, 3);
            for (auto& a : sets)
            {
                A(fl, a + ";" + e, th ? 6 : 4);
                for (auto& b : sets)
                    for (auto& w : waits)
                    {
                        A(fl, a + ";" + w + b + ";" + e, th ? 5 : F ? 2 : 3);
                        if (w != "w 15;")
                            A(fl, a + ";" + e + "&&" + w + b, th ? 4 : F ? 1 : 2);
                        for (auto& c : V{"s 12", "x", "r 1"})
                        {
                            A(fl, a + ";" + w + b + ";" + c + ";" + e, th ? 4 : F ? 1 : 2);
                            if ((w == "w 3;" || w == "") && (th || (e == "q" && a != "s 20" && b != "s 20")))
                                A(fl, a + ";" + e + "&&" + w + b + "&&" + c, th ? 3 : F ? 0 : 1);
                        }
                    }
            }
        }
        A(fl + "C", "s 5;q", 3);
        A(fl + "C", "s 5;d", 3);
        A(fl + "C", "s 5;r 3;q&&w 4;s 6", th ? 3 : 2);
    }
    auto I = [&](const std::string& flags, const std::string& cfg, const std::string& threads, int p, int parts = 1) { j.push_back({"idle~" + flags + "~" + cfg + "~" + threads, p, parts}); };
    for (auto& fl : V{"-", "F"})
    {
        bool F = fl == "F";
        for (auto& e : V{"d", "q"})
        {
            I(fl, "-", e, 3);
            for (auto& a : V{"n", "w 9;n", "w 4;n;w 9;n", "w 9;n;w 9;n", "w 11;n"})
            {
                I(fl, "-", a + ";" + e, th ? 5 : F ? 2 : 3);
                for (auto& b : V{"n", "w 9;n", "w 5;n;w 6;n", "w 10;n"})
                {
                    bool big = a.size() > 6 && b.size() > 6;
                    I(fl, "-", a + ";" + e + "&&" + b, th ? (F && big ? 2 : 3) : F ? (big ? 0 : 1) : 2);
                    if (F && a.size() + b.size() > 8)
                        continue;
                    if (th || (e == "q" && b != "n" && !F))
                        I(fl, "-", a + ";" + e + "&&" + b + "&&w 8;n", th ? 2 : F ? 0 : 1);
                }
            }
        }
    }
    // Every operation counts.
    for (auto& cfg : V{"full:b512:idle10:t60", "lite:b512:t60:idle10", "lite:b512:t60:idle10:sens"})
    {
        for (auto& o : V{"getattr", "getattr0", "fgetattr", "statfs", "create", "open", "release", "read", "write", "flush", "fsync", "ftruncate", "truncate", "unlink", "mkdir", "rmdir", "rename",
                         "link", "symlink", "readlink", "chmod", "chown", "utimens", "setxattr", "getxattr", "listxattr", "removexattr"})
        {
            I("-", cfg, "w 9;o " + o + ";w 9;k;q", th ? 2 : 1);
            I("-", cfg, "o " + o + ";q", 0);
        }
        I("-", cfg, "w 9;o opendir;w 9;o readdir;w 9;o releasedir;w 9;k;q", 1);
        I("-", cfg, "w 9;o opendir;q", 0);
        I("-", cfg, "q", 1);
        I("-", cfg, "d", 1);
    }
    return j;
}
// ================================================================ per-thread objects
namespace
{
constexpr uint64_t kTls = 0x7715;
struct TlsState;
uint64_t slot_key(const std::string& s) { return hash_str("slot" + s); }
TlsState* g_tls;
struct Obj
{
    uint64_t magic = 0x1234567890abcdefull;
    int owner, tid, kind;
    long serial;
    uint64_t payload[4];
    Obj(int o, int k);
    ~Obj();
};
template <int K>
struct KindObj : Obj
{
    explicit KindObj(int o) : Obj(o, K) {}
    ~KindObj()
    {
        if (g_tls && tid >= 0 && kind != K)
            mc_violation("an instance is destroyed as one of another type");
    }
    char more[8 * (K + 1)];
};
struct Owner
{
    int id, kind;
    std::unique_ptr<securefs::ThreadLocal<KindObj<0>>> a;
    std::unique_ptr<securefs::ThreadLocal<KindObj<1>>> b;
    Obj& get() { return kind ? (Obj&)b->get() : (Obj&)a->get(); }
};
struct TlsState
{
    std::vector<std::vector<std::string>> acts;
    std::map<std::string, std::unique_ptr<Owner>> owners;
    std::map<std::string, int> users;    // callers inside
    std::map<std::string, int> building;
    int next_owner = 0;
    long next_serial = 0;
    std::set<int> dead;                            // owners
    std::map<std::pair<int, int>, long> seen;      // thread, owner -> instance
    std::map<long, std::pair<int, int>> live;      // instance -> thread, owner
    std::vector<bool> ending;
    bool throwing = false;
    std::set<int> throws;    // threads whose next initializer fails
    std::string nested;
    size_t done = 0;
    bool freeing = false;
};
Obj::Obj(int o, int k) : owner(o), tid(mc_self()), kind(k)
{
    auto& s = *g_tls;
    serial = s.next_serial++;
    for (auto& p : payload)
        p = serial;
    for (auto& [i, to] : s.live)
        if (to == std::make_pair(tid, owner))
            mc_violation(fmt("thread %d gets a second instance for the same object", tid));
    s.live[serial] = {tid, owner};
}
Obj::~Obj()
{
    if (!g_tls || tid < 0)    // the main thread stays
        return;
    auto& s = *g_tls;
    if (magic != 0x1234567890abcdefull)
        mc_violation("something that is not a live instance is destroyed");
    magic = 0xdead;
    if (mc_self() != tid)
        mc_violation(fmt("thread %d's instance is destroyed by thread %d", tid, mc_self()));
    if (!s.live.erase(serial))
        mc_violation("an instance is destroyed twice");
    if (tid >= 0 && !s.ending[tid] && !s.dead.count(owner))
        mc_violation(fmt("thread %d's instance is destroyed although both are alive", tid));
}
std::unique_ptr<Owner> make_owner(TlsState& s, const std::string& slot, int kind)
{
    auto o = std::make_unique<Owner>();
    int id = o->id = s.next_owner++;
    o->kind = kind;
    auto init = [&s, id, slot]
    {
        // What an initializer may do: fail, or use another per-thread object.
        if (s.throwing && mc_self() == 0)
        {
            s.throwing = false;
            throw std::runtime_error("initializer");
        }
        if (s.throws.erase(mc_self()))
            throw std::runtime_error("initializer");
        if (!s.nested.empty() && s.nested != slot && s.owners.count(s.nested) && s.owners[s.nested])
        {
            mc_acquire(slot_key(s.nested));
            Obj& x = s.owners[s.nested]->get();
            if (x.tid != mc_self())
                mc_violation("another thread's instance");
        }
    };
    if (kind)
        o->b = std::make_unique<securefs::ThreadLocal<KindObj<1>>>([=] { init(); return std::make_unique<KindObj<1>>(id); });
    else
        o->a = std::make_unique<securefs::ThreadLocal<KindObj<0>>>([=] { init(); return std::make_unique<KindObj<0>>(id); });
    return o;
}
struct UserCond : McCond
{
    TlsState* s;
    std::string slot;
    bool ok() override { return s->users[slot] == 0; }
};
void use(TlsState& s, const std::string& slot)
{
    Owner* o = s.owners[slot].get();
    Obj* x;
    try
    {
        x = &o->get();
    }
    catch (const std::runtime_error& e)
    {
        if (strcmp(e.what(), "initializer"))
            throw;
        mc_note("init fails");
        return;
    }
    int t = mc_self();
    if (x->magic != 0x1234567890abcdefull || !s.live.count(x->serial))
        mc_violation(fmt("thread %d gets something that is not a live instance", t));
    if (x->owner != o->id)
        mc_violation(fmt("thread %d gets an instance of another object", t));
    if (x->tid != t)
        mc_violation(fmt("thread %d gets thread %d's instance", t, x->tid));
    if (x->kind != o->kind)
        mc_violation(fmt("thread %d gets an instance of another type", t));
    for (auto p : x->payload)
        if (p != (uint64_t)x->serial)
            mc_violation("an instance has been overwritten");
    auto [it, fresh] = s.seen.insert({{t, o->id}, x->serial});
    if (!fresh && it->second != x->serial)
        mc_violation(fmt("thread %d gets a different instance than before", t));
}
}    // namespace
McProgram tls_program(const std::string& spec)
{
    auto f = split(spec, '~');
    if (f.size() != 3)
        throw HarnessError("bad program " + spec);
    auto st = std::make_shared<TlsState>();
    std::string flags = f[1];
    st->acts = parse_threads(f[2]);
    McProgram mp;
    mp.setup = [st, flags]
    {
        auto acts = std::move(st->acts);
        *st = TlsState();
        st->acts = std::move(acts);
        g_tls = st.get();
        auto& s = *st;
        s.ending.assign(s.acts.size(), false);
        s.throwing = flags.find('T') != std::string::npos;
        if (flags.find('N') != std::string::npos)
            s.nested = "B";
        // Others that exist all along.
        int n = flags.find('L') != std::string::npos ? 254 : flags.find('M') != std::string::npos ? 3 : 0;
        for (int i = 0; i < n; ++i)
            s.owners[fmt("o%d", i)] = make_owner(s, "o", i % 2);
    };
    for (size_t t = 0; t < st->acts.size(); ++t)
        mp.threads.push_back(
            [st, t]
            {
                auto& s = *st;
                for (auto& a : s.acts[t])
                {
                    mc_boundary();
                    std::string slot = a.substr(1);
                    if (a[0] == 'n' || a[0] == 'm')
                    {
                        mc_point(kTls, kMcWrite);
                        if (s.owners.count(slot))
                            continue;
                        s.owners[slot] = nullptr;    // being made
                        std::unique_ptr<Owner> o;
                        try
                        {
                            o = make_owner(s, slot, a[0] == 'm');
                        }
                        catch (const std::exception& e)
                        {
                            size_t n = s.owners.size() - 1;
                            if (n < 255)
                                mc_violation(fmt("a per-thread object cannot be made although there are only %zu: %s", n, e.what()));
                            mc_point(kTls, kMcWrite);
                            s.owners.erase(slot);
                            mc_note("no more");
                            continue;
                        }
                        mc_point(kTls, kMcWrite);
                        mc_release(slot_key(slot));
                        s.owners[slot] = std::move(o);
                    }
                    else if (a[0] == 'd')
                    {
                        mc_point(kTls, kMcWrite);
                        if (!s.owners.count(slot) || !s.owners[slot])
                            continue;
                        UserCond c;
                        c.s = &s;
                        c.slot = slot;
                        if (!c.ok())
                            mc_block(c, kTls);
                        if (!s.owners.count(slot) || !s.owners[slot])
                            continue;
                        mc_acquire(slot_key(slot));
                        auto o = std::move(s.owners[slot]);
                        s.owners.erase(slot);
                        s.dead.insert(o->id);
                        o.reset();
                    }
                    else if (a[0] == 'g')
                    {
                        mc_point(kTls, kMcWrite);
                        if (!s.owners.count(slot) || !s.owners[slot])
                        {
                            mc_note(fmt("%d none", (int)t));
                            continue;
                        }
                        ++s.users[slot];
                        if (!s.nested.empty())
                            ++s.users[s.nested];
                        mc_acquire(slot_key(slot));
                        use(s, slot);
                        mc_point(kTls, kMcWrite);
                        mc_release(slot_key(slot));
                        --s.users[slot];
                        if (!s.nested.empty())
                        {
                            mc_release(slot_key(s.nested));
                            --s.users[s.nested];
                        }
                        mc_note(fmt("%d got", (int)t));
                    }
                    else if (a == "t")
                    {
                        mc_point(kTls, kMcWrite);
                        s.throws.insert(t);
                    }
                    else
                        throw HarnessError("unknown action " + a);
                    if (mc_held())
                        mc_violation(fmt("thread %d holds a lock after \"%s\"", (int)t, a.c_str()));
                }
                mc_point(kTls, kMcWrite);
                s.ending[t] = true;
            });
    mp.finish = [st]
    {
        auto& s = *st;
        for (auto& [i, to] : s.live)
            fail("thread %d has ended but its instance remains", to.first);
        // Everything is free again: that many fit, and each is new.
        s.owners.clear();
        s.throwing = false;
        s.throws.clear();
        s.nested.clear();
        std::vector<std::unique_ptr<Owner>> all;
        for (int i = 0; i < 16; ++i)
            all.push_back(make_owner(s, "z", i % 2));
        for (auto& o : all)
        {
            Obj& x = o->get();
            if (x.owner != o->id || x.tid != -1)
                fail("a new object gives an instance of another one");
        }
        for (auto& o : all)
            s.dead.insert(o->id);
        all.clear();
        g_tls = nullptr;
    };
    return mp;
}
std::vector<Job> jobs_c27(bool th)
{
    std::vector<Job> j;
    using V = std::vector<std::string>;
    auto A = [&](const std::string& flags, const std::string& threads, int p, int parts = 1) { j.push_back({"tls~" + flags + "~" + threads, p, parts}); };
    V ops = {"nA", "mA", "dA", "gA", "nB", "dB", "gB", "t"};
    // Every script of that many steps for the first thread that starts by making something.
    auto scripts = [&](size_t n)
    {
        V r{""};
        for (size_t i = 0; i < n; ++i)
        {
            V x;
            for (auto& s : r)
                for (auto& o : ops)
                    if (!s.empty() || o[0] == 'n')
                        x.push_back(s.empty() ? o : s + ";" + o);
            r = x;
        }
        return r;
    };
    // one thread: every sequence
    for (auto& s : scripts(th ? 7 : 5))
        A("-", s, 0);
    // two threads
    V second = {"gA", "gA;gA", "gA;gB", "nB;gB;dB", "dA;nA;gA", "nB;gB;gA;dB;gB", "gA;dA;mA;gA", "nC;dC;nC;gC;dC", "gA;gB;gA", "gA;dA;mA;t;gA;gA"};
    for (auto& s : scripts(th ? 4 : 3))
        for (auto& t : second)
            A("-", s + ";gA&&" + t, th ? 4 : 2);
    for (auto& x : second)
        for (auto& y : second)
            for (auto& s : V{"nA;gA", "nA;gA;dA;nB;gB", "nA;nB;gA;gB;dB;mA;gA", "nA;gA;dA;mA;gA;gA"})
            {
                A("-", s + "&&" + x + "&&" + y, th ? 3 : x.size() + y.size() < 14 ? 2 : 1);
                A("M", s + "&&" + x + "&&" + y, th ? 2 : 1);
            }
    for (auto& fl : V{"T", "N", "TN", "M"})
        for (auto& s : V{"nA;gA;gA", "nA;nB;gA;gA", "nA;gA;dA;nA;gA", "nB;nA;gA;gB;dA;nC;gC"})
            for (auto& t : second)
                A(fl, s + "&&" + t, th ? 4 : 2);
    // the registry is full
    for (auto& s : V{"nA;nB;nC;gA;gB", "nA;nB;dA;nC;gC;gB", "nA;gA;dA;nB;gB;nC;gC;dB;nC"})
        for (auto& t : second)
            A("L", s + "&&" + t, th ? 3 : 1);
    return j;
}
}    // namespace vf

extern "C"
{
    // securefs::clean_exit_fuse(), by the linker
    void __wrap__ZN8securefs15clean_exit_fuseEv()
    {
        if (vf::g_timer)
            vf::fired();
    }
}
