// Every small alteration of a stored repository, judged by what the mounted file system then shows (C10, C11).
//  <base>|<alteration>|<action>
// alterations (files are indices into the sorted listing of the storage):
//  B:f:off:bit flip   Z:f:off:len zero   T:f:len truncate   E:f:len append zeros   F:f:len append 0xff
//  C:f:off:g:off2:len copy from f to g   S:f:g exchange two files' contents   P:f:g exchange the objects' files pairwise
//  O:f:k the file as it was at mark k    D:f delete
//  N:f:pos:c replace a character of the stored name (c=00: delete it)   A:f:c append to the stored name
//  X:f:attr:off:bit flip in an attribute value   Y:f:attr:len truncate it   V:f:attr:pos:c change the stored attribute name
//  W:f:a:g:b the value of f's attribute a (and what authenticates it) put in place of g's attribute b
//  L:f:pos:c change a character of the stored link target   M:f:len truncate the target
// actions: - look; p<path>:<off> write one byte first; t<path>:<len> truncate first; n<dir> create a name first
#include "judge.h"
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <sys/xattr.h>
#include <unistd.h>

using namespace vf;
namespace
{
using V = std::vector<std::string>;
struct Base
{
    std::string cfg;
    V ops;
    bool far = false;    // only blocks moved over distances
    bool big = false;    // only long attribute values and long targets
};
std::vector<Base> g_bases;

struct SNode
{
    char type = 'f';
    std::string data;    // contents or target
    std::map<std::string, std::string> xa;
    bool operator==(const SNode& o) const { return type == o.type && data == o.data && xa == o.xa; }
};
using Image = std::map<std::string, SNode>;

void load_rec(const std::string& root, const std::string& rel, Image& im)
{
    std::string p = root + "/" + rel;
    struct stat st;
    if (lstat(p.c_str(), &st))
        throw HarnessError("lstat " + p);
    SNode n;
    n.type = S_ISDIR(st.st_mode) ? 'd' : S_ISLNK(st.st_mode) ? 'l' : 'f';
    if (n.type == 'f')
        n.data = read_file(p);
    else if (n.type == 'l')
    {
        char b[8192];
        ssize_t k = readlink(p.c_str(), b, sizeof b);
        n.data.assign(b, std::max<ssize_t>(k, 0));
    }
    if (n.type != 'l')
    {
        std::string l(65536, 0);
        ssize_t k = listxattr(p.c_str(), &l[0], l.size());
        for (ssize_t i = 0; i < k; i += strlen(&l[i]) + 1)
        {
            std::string v(65536, 0);
            ssize_t m = getxattr(p.c_str(), &l[i], &v[0], v.size());
            v.resize(std::max<ssize_t>(m, 0));
            n.xa[&l[i]] = v;
        }
    }
    if (!rel.empty())
        im[rel] = n;
    if (n.type == 'd')
    {
        auto* d = opendir(p.c_str());
        V names;
        while (auto* e = readdir(d))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
                names.push_back(e->d_name);
        closedir(d);
        for (auto& x : names)
            load_rec(root, rel.empty() ? x : rel + "/" + x, im);
    }
}
Image load(const std::string& root)
{
    NoHook nh;
    Image im;
    load_rec(root, "", im);
    return im;
}
// Makes the directory hold exactly this; `cur` is what it holds now.
void store(const std::string& root, const Image& im)
{
    NoHook nh;
    reset_dir(root);
    for (auto& [rel, n] : im)
    {
        std::string p = root + "/" + rel;
        int rc = 0;
        if (n.type == 'd')
            rc = mkdir(p.c_str(), 0755);
        else if (n.type == 'l')
            rc = symlink(n.data.c_str(), p.c_str());
        else
            write_file(p, n.data);
        for (auto& [k, v] : n.xa)
            rc |= lsetxattr(p.c_str(), k.c_str(), v.data(), v.size(), 0);
        if (rc)
            throw HarnessError("cannot store " + p);
    }
}

struct Built
{
    FsConfig cfg;
    Image image;
    std::vector<Image> marks;
    V files;    // storage paths
    // Everything each visible path legitimately was.
    std::map<std::string, std::vector<MNode>> legit;
    std::map<std::string, std::vector<std::set<std::string>>> listings;
    std::map<std::string, std::set<int>> ids;    // the objects which were at a path
    std::map<int, std::vector<MNode>> states;
    Model final{FsConfig()};
};
void paths_of(const Model& m, int id, const std::string& p, Built& b)
{
    auto& n = m.n.at(id);
    auto same = [](const MNode& x, const MNode& y)
    {
        return x.type == y.type && x.mode == y.mode && x.uid == y.uid && x.gid == y.gid && x.nlink == y.nlink && x.data == y.data && x.target == y.target
            && x.xa == y.xa;
    };
    auto& v = b.states[id];
    b.ids[p].insert(id);
    if (std::none_of(v.begin(), v.end(), [&](auto& x) { return same(x, n); }))
        v.push_back(n);
    if (n.type == 'd')
    {
        std::set<std::string> names;
        for (auto& [nm, kid] : n.kids)
        {
            names.insert(nm);
            paths_of(m, kid, p == "/" ? "/" + nm : p + "/" + nm, b);
        }
        auto& l = b.listings[p];
        if (std::find(l.begin(), l.end(), names) == l.end())
            l.push_back(names);
    }
}
std::map<int, Built> g_built;
Built& built(int i)
{
    auto it = g_built.find(i);
    if (it != g_built.end())
        return it->second;
    auto& base = g_bases.at(i);
    Built b;
    b.cfg = FsConfig::parse(base.cfg);
    reseed(11);
    std::string dir = worker_dir() + "/base";
    {
        FsRun r(b.cfg, dir);
        paths_of(r.model, r.model.root, "/", b);
        for (auto& op : base.ops)
        {
            if (op == "MARK")
            {
                r.remount();
                b.marks.push_back(load(dir));
                continue;
            }
            int rc = r.step(op);
            (void)rc;
            paths_of(r.model, r.model.root, "/", b);
        }
        r.close_all();
        b.final = r.model;
    }
    for (auto& [p, ids] : b.ids)
        for (int id : ids)
            b.legit[p].insert(b.legit[p].end(), b.states[id].begin(), b.states[id].end());
    b.image = load(dir);
    for (auto& [p, n] : b.image)
        b.files.push_back(p);
    return g_built[i] = std::move(b);
}

// ---- applying an alteration ----
// False when it changes nothing.
bool alter(const Built& b, const std::string& t, Image& im)
{
    auto w = split(t, ':');
    auto I = [&](int i) { return atol(w.at(i).c_str()); };
    const std::string& path = b.files.at(I(1));
    auto& n = im.at(path);
    auto rename_to = [&](const std::string& np)
    {
        if (np == path || im.count(np))
            return false;
        // With everything below.
        Image out;
        for (auto& [p, x] : im)
            out[p == path ? np : p.compare(0, path.size() + 1, path + "/") == 0 ? np + p.substr(path.size()) : p] = x;
        im = out;
        return true;
    };
    auto edit = [&](std::string s, int pos, const std::string& c)
    {
        int v = strtol(c.c_str(), nullptr, 16);
        if (!v)
            s.erase(pos, 1);
        else
            s[pos] = char(v);
        return s;
    };
    size_t slash = path.rfind('/');
    std::string dir = slash == std::string::npos ? "" : path.substr(0, slash + 1), name = path.substr(dir.size());
    switch (t[0])
    {
    case 'B':
        n.data.at(I(2)) ^= 1 << I(3);
        return true;
    case 'Z':
    {
        auto old = n.data;
        std::fill(n.data.begin() + I(2), n.data.begin() + I(2) + I(3), 0);
        return n.data != old;
    }
    case 'T':
    case 'E':
    case 'F':
        if (t[0] == 'T')
            n.data.resize(I(2));
        else
            n.data.append(I(2), t[0] == 'E' ? '\0' : '\xff');
        return true;
    case 'C':
    {
        auto src = b.image.at(path).data.substr(I(2), I(5));
        auto& d = im.at(b.files.at(I(3))).data;
        auto old = d;
        if (d.size() < (size_t)I(4) + src.size())
            d.resize(I(4) + src.size());
        d.replace(I(4), src.size(), src);
        return d != old;
    }
    case 'S':
        std::swap(n.data, im.at(b.files.at(I(2))).data);
        return n.data != im.at(b.files.at(I(2))).data;
    case 'P':
    {
        auto other = b.files.at(I(2));
        std::swap(n, im.at(other));
        std::swap(im.at(path + ".meta"), im.at(other + ".meta"));
        return true;
    }
    case 'O':
    {
        auto& old = b.marks.at(I(2));
        auto it = old.find(path);
        if (it == old.end() || it->second == n)
            return false;
        n = it->second;
        return true;
    }
    case 'D':
        im.erase(path);
        return true;
    case 'N':
        return rename_to(dir + edit(name, I(2), w.at(3)));
    case 'A':
        return rename_to(dir + name + char(strtol(w.at(2).c_str(), nullptr, 16)));
    case 'X':
    {
        auto it = std::next(n.xa.begin(), I(2));
        it->second.at(I(3)) ^= 1 << I(4);
        return true;
    }
    case 'Y':
        std::next(n.xa.begin(), I(2))->second.resize(I(3));
        return true;
    case 'V':
    {
        auto it = std::next(n.xa.begin(), I(2));
        auto nn = edit(it->first, I(3), w.at(4));
        if (n.xa.count(nn) || nn.compare(0, 5, "user.") || nn.size() == 5)
            return false;
        n.xa[nn] = it->second;
        n.xa.erase(it);
        return true;
    }
    case 'W':
    {
        auto other = b.files.at(I(3));
        bool done = false;
        for (auto suffix : {"", ".meta"})
            if (im.count(path + suffix) && im.count(other + suffix))
            {
                auto& from = b.image.at(path + suffix).xa;
                auto& to = im.at(other + suffix).xa;
                auto &x = std::next(b.image.at(path).xa.begin(), I(2))->first, &y = std::next(b.image.at(other).xa.begin(), I(4))->first;
                if (from.count(x) && to.count(y) && to[y] != from.at(x))
                {
                    to[y] = from.at(x);
                    done = true;
                }
            }
        return done;
    }
    case 'L':
        n.data = edit(n.data, I(2), w.at(3));
        return !n.data.empty();
    case 'M':
        n.data.resize(I(2));
        return !n.data.empty();
    }
    throw HarnessError("alteration " + t);
}

// ---- judging ----
std::string short_of(const std::string& p)
{
    return p.size() > 60 ? p.substr(0, 30) + "..." + p.substr(p.size() - 10) : p;
}
void judge(const Built& b, std::map<std::string, std::vector<MNode>> legit, const std::map<std::string, Obs>& seen, bool zero_run, const std::string& extra_name)
{
    for (auto& [p, o] : seen)
    {
        auto it = legit.find(p);
        const char* n = p.c_str();
        if (it == legit.end())
        {
            if (!extra_name.empty() && p == extra_name)
                continue;
            fail("the name %s was never there", cescape(short_of(p)).c_str());
        }
        if (o.type == 'E')
            continue;
        auto& v = it->second;
        bool any_type = false;
        std::string why = "nothing it ever was";
        bool ok = false;
        auto readable_eq = [&](const MNode& x)
        {
            if (o.open_err)
                return true;
            for (size_t i = 0; i < o.data.size(); ++i)
                if (!o.bad[i] && (i >= x.data.size() || o.data[i] != x.data[i]))
                    return false;
            // A size is authenticated together with the last block.
            if (o.data.size() != x.data.size() && (o.bad.empty() || !o.bad.back()))
                return false;
            return true;
        };
        for (auto& x : v)
        {
            if (x.type != o.type)
                continue;
            any_type = true;
            if (o.type == 'l')
            {
                ok |= o.link_err < 0 || o.target == x.target;
                // The legacy format protects each component of a target by itself.
                if (!b.cfg.full && b.cfg.threshold <= 0 && !o.target.empty() && !x.target.compare(0, o.target.size(), o.target))
                    ok |= o.target.back() == '/' || x.target[o.target.size()] == '/';
                continue;
            }
            if (b.cfg.full)
            {
                // One whole state of the object.
                if ((o.mode & 0777) != (x.mode & 0777) || o.uid != x.uid || o.gid != x.gid)
                    continue;
                if (o.type == 'f')
                {
                    if (o.nlink != x.nlink || !readable_eq(x))
                        continue;
                }
                ok = true;
            }
        }
        if (!any_type)
            fail("%s has type %c", short_of(p).c_str(), o.type);
        if (!b.cfg.full && o.type == 'f')
        {
            // Every byte one that was at this place.
            ok = true;
            size_t longest = 0;
            for (auto& x : v)
                longest = std::max(longest, x.data.size());
            for (size_t i = 0; i < o.data.size() && ok; ++i)
                if (!o.bad[i])
                {
                    bool found = zero_run && o.data[i] == 0;
                    for (auto& x : v)
                        found |= x.type == 'f' && i < x.data.size() && x.data[i] == o.data[i];
                    if (!found)
                    {
                        ok = false;
                        why = fmt("byte %zu reads as %02x, which was never there (its longest content has %zu bytes)", i, (unsigned char)o.data[i], longest);
                    }
                }
        }
        else if (!b.cfg.full && o.type == 'd')
            ok = true;
        if (!ok)
            fail("%s is [%s]: %s", short_of(n).c_str(), describe(o).c_str(), why.c_str());
        for (auto& [k, val] : o.xa)
        {
            bool found = false;
            for (auto& x : v)
            {
                auto a = x.xa.find(k);
                found |= a != x.xa.end() && a->second == val;
            }
            if (!found)
                fail("attribute %s of %s has a value it never had", cescape(k).c_str(), short_of(p).c_str());
        }
        if (b.cfg.full && o.type == 'd' && o.list_err == 0)
        {
            std::set<std::string> names;
            std::string pre = p == "/" ? "/" : p + "/";
            for (auto& [q, oo] : seen)
                if (q != "/" && q.compare(0, pre.size(), pre) == 0 && q.find('/', pre.size()) == std::string::npos && q != extra_name)
                    names.insert(q.substr(pre.size()));
            auto& l = b.listings.at(p);
            if (std::find(l.begin(), l.end(), names) == l.end())
                fail("directory %s lists %zu names, a set it never had", short_of(p).c_str(), names.size());
        }
    }
}
bool has_zero_run(const Image& im, const Image& orig)
{
    // The format reads a stored block of zeros as zeros.
    for (auto& [p, n] : im)
    {
        auto it = orig.find(p);
        if (n.type != 'f' || (it != orig.end() && it->second.data == n.data))
            continue;
        size_t run = 0;
        for (char c : n.data)
        {
            run = c ? 0 : run + 1;
            if (run >= 29)
                return true;
        }
    }
    return false;
}
uint64_t obs_hash(const std::map<std::string, Obs>& s)
{
    uint64_t h = 7;
    for (auto& [p, o] : s)
        h = hash_str(p + describe(o) + fmt("%d %d %d", o.open_err, o.link_err, o.list_err) + o.bad, h);
    return h;
}

void run_case(const std::string& c)
{
    auto w = split(c, '|');
    auto& b = built(atoi(w.at(0).c_str()));
    Image im = b.image;
    if (w.at(1) != "0" && !alter(b, w.at(1), im))
        return;
    bool zero = !b.cfg.full && has_zero_run(im, b.image);
    std::string dir = worker_dir() + "/fs", act = w.at(2);
    store(dir, im);
    reseed(23);
    auto legit = b.legit;
    std::string extra;
    std::map<std::string, Obs> seen;
    for (int round = 0; round < (act == "-" ? 1 : 2); ++round)
    {
        std::unique_ptr<Mount> m;
        try
        {
            m = std::make_unique<Mount>(dir, b.cfg);
        }
        catch (const HarnessError&)
        {
            throw;
        }
        catch (const std::exception&)
        {
            // Refusing the whole repository is an error, too.
            count(kExtra1);
            if (w.at(1) == "0")
                fail("the untouched repository cannot be mounted");
            return;
        }
        if (!round && act != "-")
        {
            auto col = act.find(':');
            std::string path = act.substr(1, col - 1);
            long at = col == std::string::npos ? 0 : atol(act.c_str() + col + 1);
            // What the action makes of each legitimate content, under every name of the file.
            auto edited = [&](const std::function<void(std::string&)>& f)
            {
                for (auto& [p, v] : legit)
                    if (p == path || (b.final.lookup(p) && b.final.lookup(p) == b.final.lookup(path)))
                        for (auto& x : std::vector<MNode>(v))
                            if (x.type == 'f')
                            {
                                f(x.data);
                                v.push_back(x);
                            }
            };
            if (act[0] == 'p')
            {
                uint64_t fh;
                if (m->open(path, O_RDWR, &fh) == 0)
                {
                    int rc = m->write(path, fh, "!", at);
                    m->flush(path, fh);
                    m->release(path, fh);
                    if (rc == 1)
                        edited([&](std::string& data)
                               {
                                   if ((long)data.size() <= at)
                                       data.resize(at + 1);
                                   data[at] = '!';
                               });
                }
            }
            else if (act[0] == 't')
            {
                if (m->truncate(path, at) == 0)
                    edited([&](std::string& data) { data.resize(at); });
            }
            else
            {
                extra = path == "/" ? "/new" : path + "/new";
                uint64_t fh;
                if (m->create(extra, 0600, &fh) == 0)
                {
                    m->flush(extra, fh);
                    m->release(extra, fh);
                }
            }
        }
        seen = observe(*m, 16);
        judge(b, legit, seen, zero, extra);
    }
    bool err = false;
    for (auto& [p, o] : seen)
        err |= o.type == 'E' || o.open_err || o.link_err || o.list_err || o.bad.find('\1') != std::string::npos || !o.xa_err.empty();
    if (w.at(1) == "0" && act == "-" && (err || seen.size() != b.legit.size() - (b.legit.size() - seen.size())))
        fail("the untouched repository reports errors");
    if (err)
        count(kExtra0);
    if (distinct(obs_hash(seen)))
        count(kNontrivial);
}
void one(const std::string& c)
{
    begin_case(c);
    guarded(c, [&] { run_case(c); });
    count(kEval);
}

// ---- enumeration ----
bool is_db(const std::string& p) { return p.find(".long_names.db") != std::string::npos; }
// Alterations with, for content files, what to do afterwards.
void enumerate(int bi, const std::function<void(const std::string&)>& emit)
{
    auto& b = built(bi);
    bool th = g_args.thorough();
    auto E = [&](const std::string& t, const std::string& act = "-") { emit(fmt("%d|", bi) + t + "|" + act); };
    E("0");
    int nf = b.files.size();
    unsigned bs = b.cfg.block;
    bool only_big = g_bases.at(bi).big;
    if (g_bases.at(bi).far)
    {
        for (int f = 0; f < nf; ++f)
        {
            auto& n = b.image.at(b.files[f]);
            bool meta = b.files[f].size() > 5 && b.files[f].substr(b.files[f].size() - 5) == ".meta";
            if (n.type != 'f' || is_db(b.files[f]) || n.data.size() < 4096)
                continue;
            long u = !b.cfg.full ? bs + b.cfg.iv + 16 : meta ? b.cfg.iv + 16 : bs;
            long start = !b.cfg.full ? 16 : meta ? 32 + b.cfg.iv + 16 + 32 : 0, blocks = ((long)n.data.size() - start) / u;
            for (long d = 1; d < blocks; d *= 2)
                for (long i : {0l, 1l, 2l, blocks / 2, blocks - 1 - d})
                    if (i >= 0 && i + d < blocks)
                    {
                        E(fmt("C:%d:%ld:%d:%ld:%ld", f, start + i * u, f, start + (i + d) * u, u));
                        E(fmt("C:%d:%ld:%d:%ld:%ld", f, start + (i + d) * u, f, start + i * u, u));
                    }
        }
        return;
    }
    for (int f = 0; f < nf; ++f)
    {
        auto& path = b.files[f];
        auto& n = b.image.at(path);
        size_t slash = path.rfind('/');
        std::string name = slash == std::string::npos ? path : path.substr(slash + 1);
        bool lock = b.cfg.full && path.size() < 20 && path.find(".meta") == std::string::npos && n.data.size() < 40 && path[0] == '.';
        if (lock)
            continue;
        if (n.type == 'f' && !only_big)
        {
            size_t sz = n.data.size();
            bool big = sz > 1500;
            for (size_t o = 0; o < sz; ++o)
            {
                if (is_db(path) && !n.data[o] && !th)
                    continue;
                if (big && !th)
                {
                    if (o < 300 || sz - o < 60 || o % 4 == 0)
                        E(fmt("B:%d:%zu:%zu", f, o, o % 8));
                    continue;
                }
                for (int k = 0; k < 8; ++k)
                    E(fmt("B:%d:%zu:%d", f, o, k));
            }
            if (is_db(path))
                continue;
            size_t step = big && !th ? 37 : 1;
            for (size_t l = 0; l < sz; l += step)
                E(fmt("T:%d:%zu", f, l));
            for (int l : {1, 12, 16, 28, 29, (int)bs, (int)bs + 27, (int)bs + 28, (int)bs + 29, 2 * (int)bs})
            {
                E(fmt("E:%d:%d", f, l));
                E(fmt("F:%d:%d", f, l));
            }
            for (size_t o = 0; o + 4 <= sz; o += big ? 16 : 4)
                for (int l : {4, 12, 16, 28, 32, 64, 92})
                    if (o + l <= sz)
                        E(fmt("Z:%d:%zu:%d", f, o, l));
            E(fmt("D:%d", f));
            for (size_t k = 0; k < b.marks.size(); ++k)
                E(fmt("O:%d:%zu", f, k));
            // Blocks and their metadata, within and across files.
            for (int g = 0; g < nf; ++g)
            {
                auto& m = b.image.at(b.files[g]);
                if (m.type != 'f' || is_db(b.files[g]))
                    continue;
                if (f < g)
                {
                    // Exchanging two whole files of a lite repository renames them, which the format cannot see.
                    if (b.cfg.full)
                        E(fmt("S:%d:%d", f, g));
                    if (b.cfg.full && b.image.count(path + ".meta") && b.image.count(b.files[g] + ".meta"))
                        E(fmt("P:%d:%d", f, g));
                }
                std::vector<std::pair<long, long>> units;    // size, start
                if (b.cfg.full)
                {
                    bool meta = path.size() > 5 && path.substr(path.size() - 5) == ".meta", gm = b.files[g].size() > 5 && b.files[g].substr(b.files[g].size() - 5) == ".meta";
                    if (meta != gm)
                        continue;
                    long hdr = 32 + b.cfg.iv + 16 + (b.cfg.store_time ? 80 : 32);
                    if (meta)
                        units = {{b.cfg.iv + 16, hdr}, {32, 0}, {hdr - 32, 32}};
                    else
                        units = {{bs, 0}};
                }
                else
                {
                    long unit = bs + b.cfg.iv + 16;
                    long h1 = -1;
                    // The header's length, from the content size.
                    for (auto* mm : {&n, &m})
                    {
                        long content = -1;
                        for (auto& [id, x] : b.final.n)
                        {
                            (void)id;
                            if (x.type != 'f')
                                continue;
                            long s = x.data.size(), st = s / bs * unit + (s % bs ? s % bs + b.cfg.iv + 16 : 0);
                            long h = (long)mm->data.size() - st;
                            if (h >= 16 && h <= 16 + (long)b.cfg.padding)
                                content = h;
                        }
                        if (content < 0)
                            content = 16;
                        if (h1 >= 0 && h1 != content)
                            units.push_back({unit, content});
                        h1 = content;
                        units.push_back({unit, content});
                    }
                }
                for (auto [u, start] : units)
                {
                    long cap = th ? 200 : 8;
                    for (long i = 0; start + i * u < (long)sz && i < cap; ++i)
                        for (long j = 0; start + j * u <= (long)m.data.size() && j < cap; ++j)
                            if (f != g || i != j)
                            {
                                // One whole lite file, header and all, over another is a rename; parts are not.
                                E(fmt("C:%d:%ld:%d:%ld:%ld", f, start + i * u, g, start + j * u, std::min<long>(u, sz - start - i * u)));
                            }
                }
            }
        }
        // Stored names.
        if (!only_big && !b.cfg.full && !b.cfg.plain && !is_db(path) && name[0] != '.')
        {
            for (size_t i = 0; i < name.size(); ++i)
                for (int c : {0, 65, 55, 98, 90, 61, 48, 45, 0xff, (int)(unsigned char)(name[i] ^ 1), (int)(unsigned char)(name[i] ^ 2)})
                    if (c != (unsigned char)name[i] && c != '/')
                        E(fmt("N:%d:%zu:%02x", f, i, c));
            for (int c : {'A', '2', '=', '.', '~'})
                E(fmt("A:%d:%02x", f, c));
        }
        int ai = 0;
        for (auto& [k, val] : n.xa)
        {
            if (k.compare(0, 5, "user.") == 0)
            {
                size_t step = std::max<size_t>(1, val.size() / (th ? 4000 : 400));
                for (size_t o = 0; o < val.size(); o += step)
                    for (int bit = 0; bit < 8; bit += only_big ? 8 : 1)
                        E(fmt("X:%d:%d:%zu:%d", f, ai, o, only_big ? int(o % 8) : bit));
                for (size_t l = 0; l < val.size(); l += step)
                    E(fmt("Y:%d:%d:%zu", f, ai, l));
                if (only_big)
                {
                    ++ai;
                    continue;
                }
                for (size_t i = 5; i < k.size(); ++i)
                    for (int c : {0, (int)'A', (int)'b', (int)(k[i] ^ 1), (int)(k[i] ^ 4)})
                        if (c != k[i])
                            E(fmt("V:%d:%d:%zu:%02x", f, ai, i, c));
            }
            // A lite value is bound to nothing but the repository.
            if (b.cfg.full)
                for (int g = 0; g < nf; ++g)
                    for (int gi = 0; gi < (int)b.image.at(b.files[g]).xa.size(); ++gi)
                        if ((g != f || gi != ai) && b.image.count(path + ".meta") && b.image.count(b.files[g] + ".meta"))
                            E(fmt("W:%d:%d:%d:%d", f, ai, g, gi));
            ++ai;
        }
        if (n.type == 'l' && !b.cfg.plain)
        {
            for (size_t i = 0; i < n.data.size(); ++i)
                for (int c : {0, (int)'A', (int)'b', (int)'=', (int)(n.data[i] ^ 1), (int)(n.data[i] ^ 2)})
                    if (c != n.data[i] && (!only_big || th || c == (n.data[i] ^ 1)))
                        E(fmt("L:%d:%zu:%02x", f, i, c));
            for (size_t l = 1; l < n.data.size(); ++l)
                E(fmt("M:%d:%zu", f, l));
        }
    }
    if (only_big)
        return;
    // Working on a damaged file must not make the damage look genuine.
    for (int f = 0; f < nf; ++f)
    {
        auto& n = b.image.at(b.files[f]);
        if (n.type != 'f' || is_db(b.files[f]) || n.data.empty())
            continue;
        size_t sz = n.data.size(), step = std::max<size_t>(1, sz / (th ? 200 : 40));
        for (size_t o = 0; o < sz; o += step)
        {
            for (auto& [p, v] : b.legit)
            {
                auto id = b.final.lookup(p);
                if (!id)
                    continue;
                auto& x = b.final.n.at(id);
                if (x.type == 'f' && !x.data.empty())
                {
                    for (size_t at = bs / 2; at < x.data.size() + bs; at += bs)
                        E(fmt("B:%d:%zu:%zu", f, o, o % 8), fmt("p%s:%zu", p.c_str(), at));
                    for (size_t at : {(size_t)7, (size_t)bs + 7, x.data.size() - 1, x.data.size() + 9})
                        E(fmt("B:%d:%zu:%zu", f, o, o % 8), fmt("t%s:%zu", p.c_str(), at));
                }
                if (x.type == 'd')
                    E(fmt("B:%d:%zu:%zu", f, o, o % 8), "n" + p);
            }
        }
    }
}
}    // namespace

int main(int argc, char** argv)
{
    CheckDef d;
    d.worker_init = []
    {
        umask(0);
        g_no_sleep = true;
        g_virtual_now_ns = 1800000000000000000ll;
    };
    d.setup = []
    {
        umask(0);
        V ops = {"create a", "write a 0 200 1", "mkdir d", "create d/x", "write d/x 0 70 2", "symlink d/x l", "setx a user.one 20 1", "setx d user.two 5 2", "MARK",
                 "write a 64 30 3", "trunc d/x 100", "create @n", "write @n 0 10 4", "chmod a 600", "setx a user.one 21 5", "create e", "create d/y", "unlink d/y", "MARK",
                 "write a 10 3 6", "rename e d/e", "link a b", "setx a user.two 9 7"};
        V far = {"create a"}, farther = {"create a", "write a 0 200 1", "write a 4194304 200 2"};
        for (int i = 0; i < 20; ++i)
            far.push_back(fmt("write a %d 2000 %d", i * 2000, i + 1));
        if (g_args.prop == "C10")
            for (auto cfg : {"lite:b64:t128:s.ll", "lite:b64:p40", "lite:b64:i16:plain"})
                g_bases.push_back({cfg, ops});
        else
            for (auto cfg : {"full:b64", "full:b64:time:p30", "full:b64:v1:i16:ci"})
                g_bases.push_back({cfg, ops});
        g_bases.push_back({g_args.prop == "C10" ? "lite:b64:t60" : "full:b64", far, true});
        if (g_args.prop == "C10")
            g_bases.push_back({"lite:b64:t60", farther, true});
        // Long attribute values and a long target.
        g_bases.push_back({g_args.prop == "C10" ? "lite:b64:t128:s.ll" : "full:b64",
                           {"create a", "setx a user.one 5000 1", "mkdir d", "setx d user.two 40000 2", "symlink @@a/@@b/@@c/@@d/@@e l", "symlink " + std::string(1100, 'q') + " m"},
                           false,
                           true});
    };
    d.rule = "an alteration counts as non-trivial when what the file system shows afterwards (contents, attributes, which bytes fail) differs from every other alteration's";
    d.run_case = [](const std::string& c) { run_case(c); };
    d.shards = []
    {
        std::vector<Shard> sh;
        int parts = 48;
        std::string note;
        for (int b = 0; b < (int)g_bases.size(); ++b)
        {
            note += fmt("[%s: %s of a repository made by %zu operations] ", g_bases[b].cfg.c_str(), g_bases[b].far   ? "every move of a block over a distance that is a power of two"
                            : g_bases[b].big ? "alterations all along the long attribute values and targets"
                                           : "every alteration of each kind", g_bases[b].ops.size());
            for (int p = 0; p < parts; ++p)
                sh.push_back({g_bases[b].cfg,
                              [=]
                              {
                                  int64_t i = 0;
                                  begin_case(fmt("%d|0|-", b));
                                  enumerate(b, [&](const std::string& c) {
                                      if (i++ % parts == p)
                                          one(c);
                                  });
                              }});
        }
        set_bounds_note(note);
        return sh;
    };
    d.extra_coverage = []
    {
        return std::vector<std::string>{fmt("\"detected_with_errors\":%lld", (long long)counter(kExtra0)), fmt("\"mount_refused\":%lld", (long long)counter(kExtra1)),
                                        fmt("\"known_findings_hit\":%lld", (long long)counter(kExtra5))};
    };
    d.assumptions = {
        "the repository is altered while not mounted",
        "alterations: one flip, cut, extension, zeroed range, moved or copied block, exchanged or restored file, changed stored name, target or attribute; not arbitrary combinations",
        "exchanging whole stored objects of a lite repository, or giving one the stored name of another, is renaming and outside what the format promises",
    };
    return check_main(argc, argv, d);
}
