// The real BtreeDirectory over in-memory streams, compared with an ordered map.
//  T|ops            replay of one operation list (see parse)
//  A|n:s:t:keep:len an affine order: n names added in the order i*s mod n, removed in the order i*t mod n
//                   down to keep, added again
//  X|ops|k          as T, the last operation with its k-th storage call failing
// ops: a<i> add a name at rank i; r<i> remove rank i; f flush; o flush and reopen; u<i> add an existing name;
//      g<n> add n names in ascending order; G<n> in descending order
#include "dirx.h"
#include "btree_dir.h"
#include "memstream.h"
#include "mystring.h"
#include <algorithm>
#include <deque>
#include <set>
#include <unordered_map>

namespace vf
{
namespace
{
using namespace securefs;
using Mem = std::shared_ptr<MemStream>;
#pragma clang diagnostic ignored "-Wthread-safety-analysis"

struct Entry
{
    std::string name;
    id_type id;
    int type;
};

// Reads the stored pages independently of the directory code.
class Probe final : public FileBase
{
public:
    using FileBase::FileBase;
    struct Audit
    {
        uint64_t pages = 0, nodes = 0, free = 0;
        std::string shape;
        int depth = 0;
    };
    Audit audit(const std::vector<Entry>& model, bool leaks_allowed)
    {
        Audit r;
        std::set<uint32_t> used;
        std::vector<std::string> names;
        if (m_stream->size() % 4096)
            fail("the directory's contents are %llu bytes, not whole pages", (unsigned long long)m_stream->size());
        r.pages = m_stream->size() / 4096;
        if (get_root_page() != INVALID_PAGE)
            walk(get_root_page(), used, names, r, 1, true);
        r.nodes = used.size();
        if (names.size() != model.size())
            fail("the stored tree has %zu names, there should be %zu", names.size(), model.size());
        for (size_t i = 0; i < names.size(); ++i)
            if (names[i] != model[i].name)
                fail("the stored tree has %s at position %zu, it should have %s", names[i].c_str(), i, model[i].name.c_str());
        uint32_t pg = get_start_free_page();
        while (pg != INVALID_PAGE)
        {
            if (pg >= r.pages)
                fail("the free list has page %u of %llu", pg, (unsigned long long)r.pages);
            if (!used.insert(pg).second)
                fail("page %u is on the free list while in use or twice", pg);
            ++r.free;
            pg = word(pg, 4);
        }
        if (r.free != get_num_free_page())
            fail("%llu pages are on the free list, %u are recorded", (unsigned long long)r.free, get_num_free_page());
        if (!leaks_allowed && used.size() != r.pages)
            fail("%llu of %llu pages are neither in use nor free", (unsigned long long)(r.pages - used.size()), (unsigned long long)r.pages);
        r.shape += fmt("/%llu", (unsigned long long)r.free);
        return r;
    }

private:
    byte buf[4096];
    uint32_t word(uint32_t pg, int at)
    {
        if (m_stream->read(buf, uint64_t(pg) * 4096, 4096) != 4096)
            fail("page %u cannot be read", pg);
        return from_little_endian<uint32_t>(buf + at);
    }
    void walk(uint32_t pg, std::set<uint32_t>& used, std::vector<std::string>& names, Audit& r, int depth, bool root)
    {
        if (depth > 20)
            fail("the stored tree is deeper than 20 levels");
        if (pg >= r.pages)
            fail("the stored tree uses page %u of %llu", pg, (unsigned long long)r.pages);
        if (!used.insert(pg).second)
            fail("page %u is used twice", pg);
        uint32_t flag = word(pg, 0);
        if (!flag)
        {
            if (root)
            {
                r.shape += "0";
                return;    // an allocated page never written: no entries
            }
            fail("page %u of the stored tree is not a node", pg);
        }
        std::string b((const char*)buf, sizeof(buf));
        auto u16 = [&](int o) { return (unsigned char)b[o] | (unsigned char)b[o + 1] << 8; };
        int nc = u16(4), ne = u16(6);
        if (nc && nc != ne + 1)
            fail("page %u has %d children and %d names", pg, nc, ne);
        if (ne > 13 || (!root && ne < 1))
            fail("page %u has %d names", pg, ne);
        size_t at = 8 + 4 * nc;
        r.shape += nc ? "(" : fmt("%d", ne);
        for (int i = 0; i <= ne; ++i)
        {
            if (nc)
            {
                uint32_t c;
                memcpy(&c, b.data() + 8 + 4 * i, 4);
                if (i)
                    r.shape += ",";
                walk(c, used, names, r, depth + 1, false);
            }
            if (i < ne)
                names.push_back(b.data() + at + i * (256 + 32 + 4));
        }
        if (nc)
            r.shape += ")";
        r.depth = std::max(r.depth, depth);
    }
};

key_type master_key()
{
    key_type k;
    for (size_t i = 0; i < k.size(); ++i)
        k.data()[i] = byte(i * 37 + 11);
    return k;
}

// A string strictly between a and b (b empty: no bound), over the digits b..y.
std::string between(const std::string& a, const std::string& b)
{
    std::string r;
    bool bounded = !b.empty();
    for (size_t i = 0;; ++i)
    {
        int lo = i < a.size() ? a[i] : 'a', hi = bounded ? (i < b.size() ? b[i] : 'a') : 'z';
        if (hi - lo >= 2)
        {
            r += char((lo + hi) / 2);
            return r;
        }
        r += char(lo);
        if (hi - lo == 1)
            bounded = false;
    }
}

struct Snapshot
{
    std::string data, meta;
    std::vector<Entry> model;
    int next_id = 1;
};

struct Dir
{
    Mem data = std::make_shared<MemStream>(), meta = std::make_shared<MemStream>();
    StreamFaults faults;
    std::unique_ptr<BtreeDirectory> d;
    std::vector<Entry> model;    // sorted by name
    int next_id = 1;
    bool leaks_allowed = false;    // a failed operation may leave a page unused
    id_type id;

    Dir() { memset(id.data(), 7, id.size()); }
    explicit Dir(const Snapshot& s) : Dir()
    {
        data->buf = s.data;
        meta->buf = s.meta;
        model = s.model;
        next_id = s.next_id;
        open();
    }
    template <class T, class... A>
    std::unique_ptr<T> make(Mem a, Mem b, A&&... args)
    {
        return std::make_unique<T>(std::forward<A>(args)...,
                                   a,
                                   b,
                                   StrongType<key_type, tMasterKey>(master_key()),
                                   id,
                                   StrongType<bool, tVerify>(true),
                                   StrongType<unsigned, tBlockSize>(4096u),
                                   StrongType<unsigned, tIvSize>(12u),
                                   StrongType<unsigned, tMaxPaddingSize>(0u),
                                   StrongType<bool, tStoreTimeWithinFs>(false));
    }
    void open()
    {
        bool fresh = meta->buf.empty();
        d = make<BtreeDirectory>(data, meta, Directory::DirNameComparison{&binary_compare});
        if (fresh)
        {
            d->initialize_empty(S_IFDIR | 0755, 0, 0);
            d->flush();
        }
        data->faults = meta->faults = &faults;
    }
    Snapshot snap()
    {
        d->flush();
        return {data->buf, meta->buf, model, next_id};
    }
    Entry fresh(const std::string& n)
    {
        Entry e{n, id_type(), next_id % 3 ? S_IFREG >> 12 : S_IFDIR >> 12};
        memset(e.id.data(), 0, e.id.size());
        memcpy(e.id.data(), &next_id, sizeof(next_id));
        e.id.data()[31] = byte(next_id * 7);
        ++next_id;
        return e;
    }
    static bool less(const Entry& e, const std::string& n) { return e.name < n; }
    void check_one(const Entry& e, const char* when)
    {
        id_type i;
        int t = -1;
        auto r = d->get_entry(e.name, i, t);
        if (!r)
            fail("%s: name %s is not found", when, e.name.c_str());
        if (*r != e.name || i != e.id || t != e.type)
            fail("%s: name %s leads to another object", when, e.name.c_str());
    }
    void check_absent(const std::string& n, const char* when)
    {
        id_type i;
        int t;
        if (d->get_entry(n, i, t))
            fail("%s: name %s is found, but was never added or was removed", when, n.c_str());
    }
    void check_list(const char* when)
    {
        std::vector<Entry> got;
        d->iterate_over_entries([&](const std::string& n, const id_type& i, int t) { got.push_back({n, i, t}); });
        std::sort(got.begin(), got.end(), [](auto& a, auto& b) { return a.name < b.name; });
        if (got.size() != model.size())
            fail("%s: %zu names are listed, there should be %zu", when, got.size(), model.size());
        for (size_t i = 0; i < got.size(); ++i)
            if (got[i].name != model[i].name || got[i].id != model[i].id || got[i].type != model[i].type)
                fail("%s: %s is listed where %s should be", when, got[i].name.c_str(), model[i].name.c_str());
        if (d->empty() != model.empty())
            fail("%s: the directory with %zu names says it is %s", when, model.size(), d->empty() ? "empty" : "not empty");
    }
    void check_all(const char* when)
    {
        for (auto& e : model)
        {
            check_one(e, when);
            // no name ends in \1
            check_absent(e.name.size() < 255 ? e.name + "\1" : e.name.substr(0, 254) + "\1", when);
        }
        check_absent("", when);
        check_list(when);
    }
    Probe::Audit audit() { return make<Probe>(data, meta)->audit(model, leaks_allowed); }
    void add_name(const std::string& n)
    {
        auto e = fresh(n);
        auto it = std::lower_bound(model.begin(), model.end(), n, less);
        bool have = it != model.end() && it->name == n;
        bool rc = d->add_entry(n, e.id, e.type);
        if (rc == have)
            fail("adding %s returned %d", n.c_str(), rc);
        if (!have)
            model.insert(it, e);
    }
    void remove_name(const std::string& n)
    {
        auto it = std::lower_bound(model.begin(), model.end(), n, less);
        bool have = it != model.end() && it->name == n;
        id_type i;
        int t = -1;
        bool rc = d->remove_entry(n, i, t);
        if (rc != have)
            fail("removing %s returned %d", n.c_str(), rc);
        if (have)
        {
            if (i != it->id || t != it->type)
                fail("removing %s reported another object", n.c_str());
            model.erase(it);
        }
    }
    std::string gap(size_t i) const
    {
        return between(i ? model[i - 1].name : "", i < model.size() ? model[i].name : "");
    }
    // False when the operation has no meaning here.
    bool op(const std::string& o)
    {
        size_t i = atoi(o.c_str() + 1);
        switch (o[0])
        {
        case 'a':
            if (i > model.size())
                return false;
            add_name(gap(i));
            return true;
        case 'u':
            if (i >= model.size())
                return false;
            add_name(std::string(model[i].name));
            return true;
        case 'r':
            if (i >= model.size())
                return false;
            remove_name(std::string(model[i].name));
            return true;
        case 'x':
            remove_name(gap(std::min(i, model.size())));
            return true;
        case 'f':
            d->flush();
            return true;
        case 'o':
            d->flush();
            d.reset();
            open();
            return true;
        case 'g':
            for (; i; --i)
                add_name(gap(model.size()));
            return true;
        case 'G':
            for (; i; --i)
                add_name(gap(0));
            return true;
        }
        throw HarnessError("operation " + o);
    }
    void settle(const char* when)
    {
        d->flush();
        audit();
        d.reset();
        open();
        check_all(when);
    }
};

// ---- every reachable shape ----
struct State
{
    std::string shape, ops;
    Snapshot s;
    int level = 0;
};
struct Graph
{
    std::vector<State> states;
    std::unordered_map<std::string, int> index;
    int64_t transitions = 0;
};
// All shapes reachable from the empty directory (or `seed`) with at most n names and at most `nfree` free pages.
void explore(Graph& g, const std::string& seed, size_t lo, size_t hi, int nfree, size_t max_states)
{
    auto add = [&](Dir& d, const std::string& ops, int level)
    {
        auto s = d.snap();
        auto a = d.audit();
        if (a.free > (uint64_t)nfree)
            return;
        if (g.index.emplace(a.shape, g.states.size()).second)
            g.states.push_back({a.shape, ops, std::move(s), level});
    };
    {
        begin_case("T|" + seed);
        Dir d;
        d.open();
        if (!seed.empty())
            for (auto& o : split(seed, ','))
                d.op(o);
        add(d, seed, 0);
    }
    for (size_t k = 0; k < g.states.size() && g.states.size() < max_states; ++k)
    {
        size_t n = g.states[k].s.model.size();
        for (int rem = 0; rem < 2; ++rem)
            for (size_t i = 0; i < n + !rem; ++i)
            {
                if (rem ? n - 1 < lo : n + 1 > hi)
                    continue;
                std::string ops = g.states[k].ops + (g.states[k].ops.empty() ? "" : ",") + fmt("%c%zu,f", rem ? 'r' : 'a', i);
                begin_case("T|" + ops);
                Dir d(g.states[k].s);
                d.op(fmt("%c%zu", rem ? 'r' : 'a', i));
                d.check_list("after one operation");
                ++g.transitions;
                add(d, ops, g.states[k].level + 1);
            }
    }
}

// Every operation, and every pair of operations, from one state: with the directory kept open, and reopened.
void expand(const State& st, bool pairs, bool all_pairs)
{
    size_t n = st.s.model.size();
    auto positions = [&](size_t n, size_t near, bool all)
    {
        std::vector<size_t> r;
        for (size_t i = 0; i < n; ++i)
            if (all || i + 2 >= n || i < 2 || (i + 2 >= near && i <= near + 2))
                r.push_back(i);
        return r;
    };
    auto run = [&](const std::vector<std::string>& ops)
    {
        std::string tail;
        for (auto& o : ops)
            tail += "," + o;
        begin_case("T|" + (st.ops.empty() ? tail.substr(1) : st.ops + tail));
        Dir d(st.s);
        for (auto& o : ops)
            if (!d.op(o))
                return;
        d.check_all("with the directory kept open");
        d.settle("after reopening");
        count(kEval);
        count(kTransitions, ops.size());
        if (distinct(hash_str(st.shape + tail)))
            count(kNontrivial);
    };
    for (int r1 = 0; r1 < 2; ++r1)
        for (size_t i = 0; i < n + !r1; ++i)
        {
            std::string o1 = fmt("%c%zu", "ar"[r1], i);
            run({o1});
            if (i < n)
                run({fmt("u%zu", i)});
            run({fmt("x%zu", i)});
            if (!pairs)
                continue;
            size_t m = r1 ? n - 1 : n + 1;
            for (int r2 = 0; r2 < 2; ++r2)
                for (size_t j : positions(m + !r2, i, all_pairs))
                    run({o1, fmt("%c%zu", "ar"[r2], j)});
        }
}

// ---- whole lifetimes in affine orders ----
std::string affine_name(int i, int n, int kind)
{
    // All orders of length matter little to the tree, but page contents and comparisons depend on it.
    std::string s = fmt("%06d", i);
    switch (kind)
    {
    case 1:
        return s + std::string(249, 'x');
    case 2:
        return std::string(249, 'y') + s;
    case 3:
    {
        std::string u;
        for (char c : s)
            u += std::string("\xc3") + char(0xa0 + (c - '0'));
        return u;
    }
    case 4:
        return s.substr(0, 1 + i % 6) + std::string(i % 7, 'q') + fmt("_%d", i);
    }
    return s;
}
void run_affine(const std::string& spec)
{
    auto p = split(spec, ':');
    int n = atoi(p.at(0).c_str()), s = atoi(p.at(1).c_str()), t = atoi(p.at(2).c_str()), keep = atoi(p.at(3).c_str()),
        kind = atoi(p.at(4).c_str());
    Dir d;
    d.open();
    auto nm = [&](int64_t i) { return affine_name(int(i % n), n, kind); };
    int step = std::max(16, n / 12);
    uint64_t top = 0;
    auto tick = [&](int i, const char* when)
    {
        if (i % 61 == 60)
            d.op("f");
        if (i % 97 == 96)
            d.op("o");
        if (i % step == 0)
        {
            d.check_list(when);
            d.d->flush();
            d.audit();
        }
    };
    for (int64_t i = 0; i < n; ++i)
    {
        d.add_name(nm(i * s));
        d.check_one(*std::lower_bound(d.model.begin(), d.model.end(), nm(i * s), Dir::less), "after adding");
        tick(i, "while adding");
    }
    d.settle("after adding all");
    top = d.audit().pages;
    int64_t i = 0;
    for (; (int)d.model.size() > keep; ++i)
    {
        d.remove_name(nm(i * t));
        d.check_absent(nm(i * t), "after removing");
        tick(i, "while removing");
    }
    d.settle("after removing");
    for (int64_t j = 0; j < i; ++j)
    {
        d.add_name(nm(j * t));
        tick(j, "while adding again");
    }
    d.settle("after adding again");
    // Nothing but the order of additions differs: the storage cannot have grown much.
    auto a = d.audit();
    if (a.pages > top * 5 / 2 + 8)
        fail("%llu pages hold what %llu held before the removals", (unsigned long long)a.pages, (unsigned long long)top);
    for (int64_t j = 0; j < n; ++j)
    {
        d.remove_name(nm(j * s));
        tick(j, "while emptying");
    }
    d.settle("after emptying");
    a = d.audit();
    if (a.pages > 16)
        fail("%llu pages are kept by an empty directory", (unsigned long long)a.pages);
    count(kEval);
    count(kTransitions, 2 * n + 2 * i);
    if (distinct(hash_str(spec)))
        count(kNontrivial);
}

// ---- failing storage calls ----
// The k-th storage call of the last operation fails; false when there are fewer.
bool run_fault(const std::string& ops, int k, bool wo)
{
    auto v = split(ops, ',');
    Dir d;
    d.open();
    for (size_t i = 0; i + 1 < v.size(); ++i)
        d.op(v[i]);
    auto before = d.model;
    int nid = d.next_id;
    // What the operation would do.
    auto after = before;
    {
        Dir e(d.snap());
        d.d.reset();
        d.open();
        e.op(v.back());
        after = e.model;
    }
    d.next_id = nid;
    d.faults = {};
    d.faults.write_only = wo;
    d.faults.fail_at = k;
    bool threw = false;
    try
    {
        d.op(v.back());
    }
    catch (const Failure&)
    {
        throw;
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    bool hit = d.faults.calls > k;
    d.leaks_allowed = true;
    d.faults = {};
    if (!hit)
        return false;
    auto settle = [&](const std::vector<Entry>& m, const char* when)
    {
        d.model = m;
        d.check_all(when);
        d.op("a0");
        d.op(fmt("a%zu", d.model.size()));
        d.op(fmt("r%zu", d.model.size() / 2));
        d.check_all("after more operations");
        d.settle("after reopening");
    };
    if (!threw)
    {
        settle(after, "after a failure that was not reported");
        return true;
    }
    // Before or after, but nothing else.
    std::vector<Entry> got;
    d.d->iterate_over_entries([&](const std::string& n, const id_type& i, int t) { got.push_back({n, i, t}); });
    settle(got.size() == after.size() && after.size() != before.size() ? after : before, "after a failure that was reported");
    return true;
}
}    // namespace

bool is_dir_case(const std::string& h) { return h == "T" || h == "A" || h == "X"; }

void run_dir_case(const std::string& head, const std::string& rest)
{
    if (head == "A")
        return run_affine(rest);
    if (head == "X")
    {
        auto p = split(rest, '|');
        run_fault(p.at(0), atoi(p.at(1).c_str()), p.at(2) == "w");
        return;
    }
    Dir d;
    d.open();
    auto v = split(rest, ',');
    for (size_t i = 0; i < v.size(); ++i)
    {
        if (v[i].empty() || !d.op(v[i]))
            continue;
        if (i + 3 >= v.size())
            d.check_all("with the directory kept open");
    }
    d.settle("after reopening");
}

void add_dir_shards(std::vector<Shard>& sh, std::string& note)
{
    bool th = g_args.thorough();
    int parts = 32;
    // Every shape, in full, of small trees.
    size_t cap = th ? 34 : 27;
    int nfree = th ? 3 : 2;
    note += fmt("[every tree shape with at most %zu names and %d free pages reachable from the empty directory, every operation%s from each, "
                "directory kept open and reopened] ",
                cap, nfree, th ? " and every pair of operations" : " and pairs of nearby operations");
    for (int p = 0; p < parts; ++p)
        sh.push_back({"shapes",
                      [=]
                      {
                          static Graph g;
                          if (g.states.empty())
                              explore(g, "", 0, cap, nfree, 1000000);
                          for (size_t i = p; i < g.states.size(); i += parts)
                          {
                              expand(g.states[i], true, th);
                              count(kStates);
                          }
                      }});
    // Larger trees at the point of gaining or losing a level: everything around them.
    struct Seed
    {
        const char* ops;
        int n;
    };
    static const Seed seeds[] = {{"g97", 97}, {"g98", 98}, {"G104", 104}, {"g105", 105}, {"g182", 182}, {"g60,G60", 120}, {"g110,o", 110}};
    int nseed = sizeof(seeds) / sizeof(*seeds);
    note += fmt("[%d trees of 97 to 182 names around the third level, every operation from each and from each neighbour] ", nseed);
    for (int k = 0; k < nseed; ++k)
        for (int p = 0; p < 4; ++p)
            sh.push_back({"third level",
                          [=]
                          {
                              Graph g;
                              explore(g, seeds[k].ops, seeds[k].n - 2, seeds[k].n + 2, 4, th ? 400 : 40);
                              for (size_t i = p; i < g.states.size() && i < (th ? 200u : 12u); i += 4)
                              {
                                  expand(g.states[i], th && i < 24, false);
                                  count(kStates);
                              }
                          }});
    // A tree of five and more levels.
    for (auto spec : th ? std::vector<std::string>{"20011:1:1:0:0", "20011:20010:1:0:0", "20011:7919:20010:4002:4", "60013:1:60012:0:0", "60013:60012:7919:0:3"}
                        : std::vector<std::string>{"20011:1:1:0:0", "20011:20010:7919:4002:0"})
        sh.push_back({"lifetimes", [=]
                      {
                          begin_case("A|" + spec);
                          run_affine(spec);
                      }});
    note += th ? "[lifetimes of 20011 and 60013 names: 5 orders] " : "[lifetimes of 20011 names: 2 orders] ";
    // Whole lifetimes.
    std::vector<int> sizes = th ? std::vector<int>{53, 97, 199, 401, 1009, 2503} : std::vector<int>{53, 199, 1009};
    for (int n : sizes)
    {
        std::vector<int> strides;
        // n is prime: every stride is a different order.
        int max_strides = n < 60 ? n : n < 250 ? (th ? 99 : 12) : n < 600 ? 24 : th ? 10 : 4;
        for (int i = 1; i < n && (int)strides.size() < max_strides; i += std::max(1, (n - 1) / max_strides))
            strides.push_back(i);
        strides.push_back(n - 1);
        note += fmt("[lifetimes of %d names: %zu x %zu orders of adding and removing, 5 kinds of names] ", n, strides.size(), strides.size());
        for (size_t a = 0; a < strides.size(); ++a)
            sh.push_back({"lifetimes",
                          [=]
                          {
                              for (size_t b = 0; b < strides.size(); ++b)
                              {
                                  auto spec = fmt("%d:%d:%d:%d:%d", n, strides[a], strides[b], int((a + b) % 3) * n / 5, int(a * 3 + b) % 5);
                                  begin_case("A|" + spec);
                                  run_affine(spec);
                              }
                          }});
    }
}

void add_dir_fault_shards(std::vector<Shard>& sh, std::string& note)
{
    bool th = g_args.thorough();
    // Histories that end just before a split, a merge, a rotation, a new or a lost level, a compaction.
    std::vector<std::string> base = {"a0", "g12", "g13", "g13,o", "g14", "g19", "g20", "g20,o", "g20,f", "g27,o", "g34,o", "g97,o", "g98,o", "g98"};
    std::string all;
    for (int i = 0; i < 60; ++i)
        all += ",r0";
    base.push_back("g70" + all);
    base.push_back("g70,o" + all);
    note += fmt("[directories of 1 to 98 names at the points of splitting, merging and compaction: every operation, each storage call failing] ");
    for (auto& b : base)
        sh.push_back({"directory", [=]
                      {
                          Dir d;
                          d.open();
                          for (auto& o : split(b, ','))
                              d.op(o);
                          size_t n = d.model.size();
                          std::vector<std::string> ops = {"f"};
                          for (size_t i = 0; i <= n; ++i)
                          {
                              if (!th && n > 40 && i > 8 && i + 8 < n && i % 7)
                                  continue;
                              ops.push_back(fmt("a%zu", i));
                              ops.push_back(fmt("r%zu", i));
                          }
                          for (auto& o : ops)
                              for (int wo = 0; wo < (o == "f" ? 2 : 1); ++wo)
                                  for (int k = 0;; ++k)
                                  {
                                      auto c = fmt("X|%s,%s|%d|%s", b.c_str(), o.c_str(), k, wo ? "w" : "a");
                                      begin_case(c);
                                      bool more = true;
                                      guarded(c, [&] { more = run_fault(b + "," + o, k, wo); });
                                      if (!more)
                                          break;
                                      count(kEval);
                                      count(kExtra3);
                                  }
                      }});
}
}    // namespace vf
