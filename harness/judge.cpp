#include "judge.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>

namespace vf
{
// Names with long runs, shortened.
static std::string sp(const std::string& p)
{
    std::string r;
    for (size_t i = 0; i < p.size();)
    {
        size_t e = i;
        while (e < p.size() && p[e] == p[i])
            ++e;
        if (e - i > 20)
            r += fmt("%c{%zu}", p[i], e - i);
        else
            r += cescape(p.substr(i, e - i));
        i = e;
    }
    return r;
}
static void obs_rec(Mount& m, const std::string& p, std::map<std::string, Obs>& out, int chunk, int depth)
{
    Obs o;
    struct stat st;
    int rc = m.getattr(p, &st);
    if (rc)
    {
        o.type = 'E';
        o.err = rc;
        out[p] = o;
        return;
    }
    o.type = S_ISDIR(st.st_mode) ? 'd' : S_ISREG(st.st_mode) ? 'f' : S_ISLNK(st.st_mode) ? 'l' : '?';
    o.mode = st.st_mode & 0777;
    o.uid = st.st_uid;
    o.gid = st.st_gid;
    o.nlink = st.st_nlink;
    o.ino = st.st_ino;
    o.size = st.st_size;
    if (o.type == 'f')
    {
        uint64_t fh;
        rc = m.open(p, O_RDONLY, &fh);
        if (rc)
            o.open_err = rc;
        else
        {
            for (long off = 0; off < o.size; off += chunk)
            {
                size_t want = std::min<long>(chunk, o.size - off);
                std::string part;
                rc = m.read(p, fh, &part, want, off);
                if (rc < 0)
                {
                    o.data.append(want, '?');
                    o.bad.append(want, 1);
                }
                else
                {
                    if ((size_t)rc != want)
                        fail("reading %s at %ld: %d bytes of %zu although the size is %ld", p.c_str(), off, rc, want, o.size);
                    o.data += part;
                    o.bad.append(part.size(), 0);
                }
            }
            m.flush(p, fh);
            m.release(p, fh);
        }
    }
    if (o.type == 'l')
        o.link_err = m.readlink(p, &o.target);
    if (o.type != 'l' && m.ops.listxattr)
    {
        std::vector<std::string> names;
        rc = m.listxattr(p, &names);
        if (rc < 0)
            o.xa_err[""] = rc;
        for (auto& n : names)
        {
            std::string v;
            rc = m.getxattr(p, n, nullptr, 0, true);
            if (rc >= 0)
                rc = m.getxattr(p, n, &v, std::max(rc, 1), false);
            if (rc < 0)
                o.xa_err[n] = rc;
            else
                o.xa[n] = v;
        }
    }
    std::vector<DirEnt> real;
    if (o.type == 'd')
    {
        if (depth > 12)
            fail("directory nesting at %s exceeds anything created", p.c_str());
        std::vector<DirEnt> ents;
        o.list_err = m.readdir(p, &ents);
        std::set<std::string> seen;
        if (o.list_err == 0)
            for (auto& e : ents)
                if (e.name != "." && e.name != "..")
                {
                    if (!seen.insert(e.name).second)
                        fail("readdir(%s) lists %s twice", p.c_str(), sp(e.name).c_str());
                    real.push_back(e);
                }
    }
    out[p] = o;
    for (auto& e : real)
        obs_rec(m, p == "/" ? "/" + e.name : p + "/" + e.name, out, chunk, depth + 1);
}
std::map<std::string, Obs> observe(Mount& m, int chunk)
{
    std::map<std::string, Obs> r;
    obs_rec(m, "/", r, chunk, 0);
    return r;
}
std::string describe(const Obs& o)
{
    if (!o.type)
        return "absent";
    if (o.type == 'E')
        return fmt("getattr error %d", o.err);
    std::string s = fmt("%c mode %o %d:%d n%d", o.type, o.mode, o.uid, o.gid, o.nlink);
    if (o.type == 'f')
    {
        s += fmt(" size %ld", o.size);
        if (o.open_err)
            s += fmt(" open error %d", o.open_err);
        size_t nbad = std::count(o.bad.begin(), o.bad.end(), 1);
        if (nbad)
            s += fmt(" %zu unreadable bytes from %zu", nbad, o.bad.find(1));
    }
    if (o.type == 'l')
        s += o.link_err ? fmt(" readlink error %d", o.link_err) : " ->" + sp(o.target);
    if (o.list_err)
        s += fmt(" readdir error %d", o.list_err);
    for (auto& [n, v] : o.xa)
        s += fmt(" @%s(%zu)", sp(n).c_str(), v.size());
    for (auto& [n, e] : o.xa_err)
        s += fmt(" @%s error %d", sp(n).c_str(), e);
    return s;
}

std::set<int> touched_nodes(const Model& b, const Model& a, const std::string& op)
{
    std::set<int> r;
    auto w = split(op, ' ');
    auto& k = w[0];
    auto add_path = [&](const std::string& p, bool parent)
    {
        std::string last;
        for (auto* m : {&b, &a})
        {
            int id = m->lookup(p);
            if (id)
                r.insert(id);
            if (parent)
            {
                int q = m->parent_of(p, &last);
                if (q)
                    r.insert(q);
            }
        }
    };
    auto slot = [&](int i)
    {
        for (auto* m : {&b, &a})
            if (m->slots[i].node)
                r.insert(m->slots[i].node);
    };
    if (k == "create" || k == "ocreate" || k == "mkdir" || k == "unlink" || k == "rmdir")
        add_path(expand_path(w[1]), true);
    else if (k == "symlink")
        add_path(expand_path(w[2]), true);
    else if (k == "rename" || k == "link")
    {
        add_path(expand_path(w[1]), k == "rename");
        add_path(expand_path(w[2]), true);
        if (k == "rename")
        {
            // a moved directory keeps its own contents untouched
            int id = b.lookup(expand_path(w[1]));
            if (id && b.n.at(id).type == 'd')
                r.erase(id);
        }
    }
    else if (k == "write" || k == "trunc" || k == "chmod" || k == "chown" || k == "setx" || k == "rmx" || k == "open")
        add_path(expand_path(w[1]), false);
    else if (k == "hw" || k == "ht" || k == "close" || k == "hflush" || k == "hsync")
        slot(atoi(w[1].c_str()));
    return r;
}

static const MNode* node_at(const Model& m, const std::string& p, int* id)
{
    *id = m.lookup(p);
    return *id ? &m.n.at(*id) : nullptr;
}
static void all_paths(const Model& m, const std::string& p, int id, std::set<std::string>& out)
{
    out.insert(p);
    for (auto& [k, c] : m.n.at(id).kids)
        all_paths(m, p == "/" ? "/" + k : p + "/" + k, c, out);
}
// Everything but contents.
static std::string meta_diff(const Model& m, const MNode& x, const Obs& o, bool xattr)
{
    if (o.type != x.type)
        return o.type == 'E' ? fmt("getattr error %d", o.err) : fmt("type %c for %c", o.type, x.type);
    std::string d;
    if (x.type != 'l' && o.mode != (x.mode & 0777))
        d += fmt(" mode %o for %o", o.mode, x.mode & 0777);
    uid_t wu = m.cfg.uid >= 0 ? m.cfg.uid : x.uid;
    gid_t wg = m.cfg.gid >= 0 ? m.cfg.gid : x.gid;
    if (o.uid != wu || o.gid != wg)
        d += fmt(" owner %d:%d for %d:%d", o.uid, o.gid, wu, wg);
    if (x.type != 'd' && o.nlink != x.nlink)
        d += fmt(" nlink %d for %d", o.nlink, x.nlink);
    if (x.type == 'l' && (o.link_err || o.target != x.target))
        d += " link target " + (o.link_err ? fmt("error %d", o.link_err) : sp(o.target)) + " for " + sp(x.target);
    if (o.list_err)
        d += fmt(" readdir error %d", o.list_err);
    if (xattr && x.type != 'l' && (o.xa != x.xa || !o.xa_err.empty()))
        d += " attributes differ";
    return d;
}
static std::string data_diff(const MNode& x, const Obs& o)
{
    if (x.type != 'f')
        return "";
    if (o.open_err)
        return fmt(" open error %d", o.open_err);
    if (o.data.size() != x.data.size())
        return fmt(" size %zu for %zu", o.data.size(), x.data.size());
    for (size_t i = 0; i < o.data.size(); ++i)
        if (o.bad[i])
            return fmt(" byte %zu unreadable", i);
        else if (o.data[i] != x.data[i])
            return fmt(" byte %zu is %02x for %02x", i, (unsigned char)o.data[i], (unsigned char)x.data[i]);
    return "";
}
// Contents in the middle of a data operation on the node.
static std::string data_between(const MNode& b, const MNode& a, const Obs& o, long lo, long hi, bool shrink, const JudgeOptions& j)
{
    // Shrinking rewrites the last remaining block before cutting the file.
    long sb = b.data.size(), sa = a.data.size();
    if (o.open_err)
        return fmt(" open error %d", o.open_err);
    long n = o.data.size();
    if (n < std::min(sb, sa) || n > std::max(sb, sa))
        return fmt(" size %ld outside [%ld,%ld]", n, std::min(sb, sa), std::max(sb, sa));
    for (long i = 0; i < n; ++i)
    {
        bool in_blocks = i >= lo / j.block * j.block && i < (hi + j.block - 1) / j.block * j.block;
        if (o.bad[i])
        {
            bool last_block = shrink && lo % j.block && i / j.block == lo / j.block;
            if (!(j.allow_block_errors && in_blocks) && !last_block)
                return fmt(" byte %ld unreadable", i);
            continue;
        }
        bool old_ok = i < sb && o.data[i] == b.data[i], new_ok = i < sa && o.data[i] == a.data[i], zero_ok = o.data[i] == 0 && i >= lo && i < hi && i >= sb;
        if (!(old_ok || new_ok || zero_ok))
            return fmt(" byte %ld is %02x, neither old nor new", i, (unsigned char)o.data[i]);
        if (!(i >= lo && i < hi) && i < sb && i < sa && !old_ok)
            return fmt(" byte %ld changed outside the range", i);
    }
    return "";
}
static bool data_range(const Model& before, const Model& after, const std::string& op, int* id, long* lo, long* hi)
{
    auto w = split(op, ' ');
    std::string k = w[0];
    if (k == "write" || k == "trunc")
        *id = before.lookup(expand_path(w[1]));
    else if (k == "hw" || k == "ht")
        *id = before.slots[atoi(w[1].c_str())].node;
    else
        return false;
    if (!*id || !after.n.count(*id))
        return false;
    long sb = before.n.at(*id).data.size(), sa = after.n.at(*id).data.size();
    if (k == "write" || k == "hw")
    {
        *lo = std::min(sb, atol(w[2].c_str()));
        *hi = atol(w[2].c_str()) + atol(w[3].c_str());
    }
    else
    {
        *lo = std::min(sb, sa);
        *hi = std::max(sb, sa);
    }
    return true;
}
void judge_either(const std::map<std::string, Obs>& o, const Model& before, const Model& after, const std::string& op, const JudgeOptions& j, const char* when)
{
    int did = 0;
    long lo = 0, hi = 0;
    bool data_op = data_range(before, after, op, &did, &lo, &hi);
    std::string why[2];
    const Model* ms[2] = {&before, &after};
    for (int v = 0; v < 2; ++v)
    {
        if ((v == 0 && j.exact_after) || (v == 1 && j.exact_before))
            continue;
        std::set<std::string> paths;
        all_paths(*ms[v], "/", ms[v]->root, paths);
        std::string d;
        for (auto& p : paths)
        {
            int id;
            auto* x = node_at(*ms[v], p, &id);
            auto it = o.find(p);
            if (it == o.end())
            {
                d += " missing " + sp(p);
                continue;
            }
            std::string e = meta_diff(*ms[v], *x, it->second, j.xattr);
            if (data_op && id == did)
                e += data_between(before.n.at(did), after.n.at(did), it->second, lo, hi, op.compare(0, 5, "trunc") == 0 || op.compare(0, 2, "ht") == 0, j);
            else
                e += data_diff(*x, it->second);
            if (!e.empty())
                d += " " + sp(p) + ":" + e;
        }
        for (auto& [p, x] : o)
            if (!paths.count(p))
                d += " unexpected " + sp(p) + " [" + describe(x) + "]";
        if (d.empty())
            return;
        why[v] = d;
    }
    fail("%s: not as before \"%s\" [%s] nor as after it [%s]", when, op.c_str(), why[0].substr(0, 500).c_str(), why[1].substr(0, 500).c_str());
}

void judge_objects(const std::map<std::string, Obs>& o, const Model& before, const Model& after, const std::set<int>& touched, const JudgeOptions& j, const char* when)
{
    std::set<std::string> paths;
    all_paths(before, "/", before.root, paths);
    all_paths(after, "/", after.root, paths);
    for (auto& [p, x] : o)
        if (!paths.count(p))
            fail("%s: unexpected %s [%s]", when, sp(p).c_str(), describe(x).c_str());
    std::string deferred;
    for (auto& p : paths)
    {
        int ib, ia;
        auto *b = node_at(before, p, &ib), *a = node_at(after, p, &ia);
        auto it = o.find(p);
        // The nearest observed ancestor decides whether the entry is reachable.
        std::string par = p == "/" ? "" : p.substr(0, std::max<size_t>(1, p.rfind('/')));
        bool par_seen = p == "/" || (o.count(par) && o.at(par).type == 'd' && !o.at(par).list_err);
        auto is_touched = [&](int id) { return id && touched.count(id); };
        if (it == o.end())
        {
            if (!b || !a)
                continue;    // only in one of the states
            if (par_seen)
                fail("%s: %s disappeared", when, sp(p).c_str());
            // Unreachable: some ancestor reports errors. That one is judged at its own path.
            continue;
        }
        auto& x = it->second;
        bool touch = is_touched(ib) || is_touched(ia);
        std::string d[2];
        bool ok = false;
        const MNode* n[2] = {b, a};
        const Model* ms[2] = {&before, &after};
        for (int v = 0; v < 2 && !ok; ++v)
        {
            if (!n[v])
                continue;
            d[v] = meta_diff(*ms[v], *n[v], x, j.xattr) + data_diff(*n[v], x);
            ok = d[v].empty();
        }
        if (ok)
            continue;
        if (j.busy && touch && it->second.type && (x.type == 'E' || x.list_err) && ((b && b->type == 'd') || (a && a->type == 'd')))
        {
            if (deferred.empty())
                deferred = fmt("%s: directory %s is unusable (it was being written) [%s]", when, sp(p).c_str(), describe(x).c_str());
            continue;
        }
        if (!touch)
            fail(j.busy ? "%s: %s, which was not being written, is [%s]:%s" : "%s: %s, which the operation does not touch, is [%s]:%s", when, sp(p).c_str(), describe(x).c_str(), d[b ? 0 : 1].c_str());
        if (x.type == 'E' || (x.type == 'f' && x.open_err))
        {
            if (!j.damage_touched)
                fail("%s: %s is unusable [%s]", when, sp(p).c_str(), describe(x).c_str());
            const MNode* any = b ? b : a;
            if (any->type == 'd' && !j.damage_touched_dirs)
                fail("%s: directory %s is unusable [%s]", when, sp(p).c_str(), describe(x).c_str());
            continue;
        }
        // A mixture: each aspect old or new.
        std::string w;
        bool type_ok = (b && b->type == x.type) || (a && a->type == x.type);
        if (!type_ok)
            w += " type";
        auto either = [&](auto f) { return (b && f(*b)) || (a && f(*a)); };
        if (x.type != 'l' && !either([&](auto& q) { return (q.mode & 0777) == x.mode; }))
            w += fmt(" mode %o", x.mode);
        if (x.type != 'd' && !either([&](auto& q) { return q.nlink == x.nlink; }) && !(x.nlink >= 0 && x.nlink <= 4))
            w += fmt(" nlink %d", x.nlink);
        if (x.type == 'l' && !x.link_err && !either([&](auto& q) { return q.target == x.target || x.target.empty(); }))
            w += " target " + sp(x.target);
        if (x.type == 'd' && x.list_err && !j.damage_touched_dirs)
            w += fmt(" readdir error %d", x.list_err);
        for (auto& [k, v] : x.xa)
            if (j.xattr && !either([&](auto& q) { auto f = q.xa.find(k); return f != q.xa.end() && f->second == v; }))
                w += " attribute " + sp(k);
        if (j.xattr && x.type != 'l' && !x.xa_err.count("") && b && a)
            for (auto& [k, v] : b->xa)
                if (a->xa.count(k) && !x.xa.count(k) && !x.xa_err.count(k))
                    w += " lost attribute " + sp(k);
        if (x.type == 'f')
        {
            size_t mx = std::max(b ? b->data.size() : 0, a ? a->data.size() : 0), mn = std::min(b ? b->data.size() : 0, a ? a->data.size() : 0);
            if (x.data.size() > mx || x.data.size() < mn)
                w += fmt(" size %zu outside [%zu,%zu]", x.data.size(), mn, mx);
            for (size_t i = 0; i < x.data.size() && w.empty(); ++i)
                if (x.bad[i])
                {
                    if (!j.damage_touched)
                        w += fmt(" byte %zu unreadable", i);
                }
                else if (!either([&](auto& q) { return i < q.data.size() && q.data[i] == x.data[i]; }) && !(x.data[i] == 0 && b && i >= b->data.size()))
                    w += fmt(" byte %zu is %02x, neither old nor new", i, (unsigned char)x.data[i]);
        }
        if (!w.empty())
            fail("%s: %s is [%s]:%s", when, sp(p).c_str(), describe(x).c_str(), w.c_str());
    }
    if (!deferred.empty())
        fail("%s", deferred.c_str());
}
static void remove_rec(Mount& m, const std::string& p, const char* when)
{
    std::vector<DirEnt> ents;
    int rc = m.readdir(p, &ents);
    if (rc)
        fail("%s: cleaning up: readdir(%s) returned %d", when, sp(p).c_str(), rc);
    for (auto& e : ents)
    {
        if (e.name == "." || e.name == "..")
            continue;
        std::string c = p == "/" ? "/" + e.name : p + "/" + e.name;
        struct stat st;
        rc = m.getattr(c, &st);
        if (rc)
            fail("%s: cleaning up: getattr(%s) returned %d", when, sp(c).c_str(), rc);
        if (S_ISDIR(st.st_mode))
        {
            remove_rec(m, c, when);
            rc = m.rmdir(c);
        }
        else
            rc = m.unlink(c);
        if (rc)
            fail("%s: cleaning up: removing %s returned %d", when, sp(c).c_str(), rc);
    }
}
void remove_everything(Mount& m, const char* when)
{
    remove_rec(m, "/", when);
    std::vector<DirEnt> ents;
    int rc = m.readdir("/", &ents);
    if (rc || ents.size() != 2)
        fail("%s: after removing everything readdir returns %d with %zu entries", when, rc, ents.size());
}
}    // namespace vf
