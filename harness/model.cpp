#include "model.h"
#include <dirent.h>
#include <algorithm>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <sys/xattr.h>
#include <unistd.h>

extern "C" int vrt_locks_held();
namespace vf
{
namespace
{
// Equivalent names, computed with Python's unicodedata: token, name, NFC, NFD, and the case folded
// forms of those three.
struct UName
{
    char token;
    const char *raw, *nfc, *nfd, *cf_raw, *cf_nfc, *cf_nfd;
};
const UName kUNames[] = {
    {'a', "\xc3\xa9", "\xc3\xa9", "\x65\xcc\x81", "\xc3\xa9", "\xc3\xa9", "\x65\xcc\x81"},
    {'b', "\x65\xcc\x81", "\xc3\xa9", "\x65\xcc\x81", "\x65\xcc\x81", "\xc3\xa9", "\x65\xcc\x81"},
    {'c', "\xc3\x89", "\xc3\x89", "\x45\xcc\x81", "\xc3\xa9", "\xc3\xa9", "\x65\xcc\x81"},
    {'d', "\x45\xcc\x81", "\xc3\x89", "\x45\xcc\x81", "\x65\xcc\x81", "\xc3\xa9", "\x65\xcc\x81"},
    {'s', "\xc3\x9f", "\xc3\x9f", "\xc3\x9f", "\x73\x73", "\x73\x73", "\x73\x73"},
    {'S', "\xe1\xba\x9e", "\xe1\xba\x9e", "\xe1\xba\x9e", "\x73\x73", "\x73\x73", "\x73\x73"},
    {'t', "\x73\x73", "\x73\x73", "\x73\x73", "\x73\x73", "\x73\x73", "\x73\x73"},
    {'T', "\x53\x53", "\x53\x53", "\x53\x53", "\x73\x73", "\x73\x73", "\x73\x73"},
    {'k', "\xe2\x84\xaa", "\x4b", "\x4b", "\x6b", "\x6b", "\x6b"},
    {'K', "\x4b", "\x4b", "\x4b", "\x6b", "\x6b", "\x6b"},
    {'j', "\x6b", "\x6b", "\x6b", "\x6b", "\x6b", "\x6b"},
    {'f', "\xef\xac\x81", "\xef\xac\x81", "\xef\xac\x81", "\x66\x69", "\x66\x69", "\x66\x69"},
    {'g', "\x66\x69", "\x66\x69", "\x66\x69", "\x66\x69", "\x66\x69", "\x66\x69"},
    {'o', "\xcf\x83", "\xcf\x83", "\xcf\x83", "\xcf\x83", "\xcf\x83", "\xcf\x83"},
    {'O', "\xcf\x82", "\xcf\x82", "\xcf\x82", "\xcf\x83", "\xcf\x83", "\xcf\x83"},
    {'P', "\xce\xa3", "\xce\xa3", "\xce\xa3", "\xcf\x83", "\xcf\x83", "\xcf\x83"},
    {'i', "\xc4\xb0", "\xc4\xb0", "\x49\xcc\x87", "\x69\xcc\x87", "\x69\xcc\x87", "\x69\xcc\x87"},
    {'n', "\x69\xcc\x87", "\x69\xcc\x87", "\x69\xcc\x87", "\x69\xcc\x87", "\x69\xcc\x87", "\x69\xcc\x87"},
    {'m', "\xc4\xb1", "\xc4\xb1", "\xc4\xb1", "\xc4\xb1", "\xc4\xb1", "\xc4\xb1"},
    {'A', "\xe2\x84\xab", "\xc3\x85", "\x41\xcc\x8a", "\xc3\xa5", "\xc3\xa5", "\x61\xcc\x8a"},
    {'B', "\xc3\x85", "\xc3\x85", "\x41\xcc\x8a", "\xc3\xa5", "\xc3\xa5", "\x61\xcc\x8a"},
    {'C', "\xc3\xa5", "\xc3\xa5", "\x61\xcc\x8a", "\xc3\xa5", "\xc3\xa5", "\x61\xcc\x8a"},
    {'J', "\x4a\xcc\x8c", "\x4a\xcc\x8c", "\x4a\xcc\x8c", "\x6a\xcc\x8c", "\x6a\xcc\x8c", "\x6a\xcc\x8c"},
    {'l', "\xc7\xb0", "\xc7\xb0", "\x6a\xcc\x8c", "\x6a\xcc\x8c", "\x6a\xcc\x8c", "\x6a\xcc\x8c"},
    {'h', "\xea\xb0\x80", "\xea\xb0\x80", "\xe1\x84\x80\xe1\x85\xa1", "\xea\xb0\x80", "\xea\xb0\x80", "\xe1\x84\x80\xe1\x85\xa1"},
    {'H', "\xe1\x84\x80\xe1\x85\xa1", "\xea\xb0\x80", "\xe1\x84\x80\xe1\x85\xa1", "\xe1\x84\x80\xe1\x85\xa1", "\xea\xb0\x80", "\xe1\x84\x80\xe1\x85\xa1"},
    {'z', "\xe4\xb8\xad", "\xe4\xb8\xad", "\xe4\xb8\xad", "\xe4\xb8\xad", "\xe4\xb8\xad", "\xe4\xb8\xad"},
};
}    // namespace
std::string expand_path(const std::string& p)
{
    if (p == "/")
        return p;
    std::string r;
    for (auto& c : split(p, '/'))
    {
        if (c.empty())
            continue;
        r += '/';
        if (c.size() == 2 && c[0] == '@')
            r += std::string(150, c[1]);
        else if (c.size() == 3 && c[0] == '@' && c[1] == '@')
            r += std::string(255, c[2]);
        else if (c.size() == 2 && c[0] == '#')
            r += std::string(256, c[1]);
        else if (c.size() == 2 && c[0] == '%')
            r += std::string(200, c[1]);
        else if (c.size() == 2 && c[0] == '~')
            r += std::string(100, c[1]);
        else if (c.size() == 2 && c[0] == '=')
        {
            for (auto& u : kUNames)
                if (u.token == c[1])
                    r += u.raw;
        }
        else
            r += c;
    }
    return r;
}
int g_pattern_shift = 0;
std::string pattern(int tag, size_t n, off_t off)
{
    tag += g_pattern_shift;
    std::string s(n, 0);
    for (size_t i = 0; i < n; ++i)
    {
        uint64_t x = (off + i) * 2654435761u + tag * 40503u;
        s[i] = (char)('A' + (x >> 7) % 53);
    }
    return s;
}
std::string join_ops(const std::vector<std::string>& v)
{
    std::string r;
    for (auto& x : v)
        r += (r.empty() ? "" : ";") + x;
    return r;
}

std::string Model::key(const std::string& name) const
{
    bool fold = cfg.full ? cfg.ci : cfg.fold, norm = cfg.full ? cfg.uni : cfg.nfc;
    if (cfg.plain || (!fold && !norm))
        return name;
    for (auto& u : kUNames)
        if (name == u.raw)
            return fold ? (!norm ? u.cf_raw : cfg.full ? u.cf_nfd : u.cf_nfc) : cfg.full ? u.nfd : u.nfc;
    std::string r = name;
    if (fold)
        for (auto& c : r)
            c = tolower((unsigned char)c);
    return r;
}
// What a directory lists for a name it was given.
std::string Model::shown(const std::string& name) const { return cfg.full ? name : key(name); }
int* Model::kid(int dir, const std::string& name)
{
    auto& k = n.at(dir).kids;
    for (auto& [nm, id] : k)
        if (key(nm) == key(name))
            return &id;
    return nullptr;
}
void Model::erase_kid(int dir, const std::string& name)
{
    auto& k = n.at(dir).kids;
    for (auto it = k.begin(); it != k.end(); ++it)
        if (key(it->first) == key(name))
        {
            k.erase(it);
            return;
        }
}
void Model::set_kid(int dir, const std::string& name, int id)
{
    if (int* p = kid(dir, name))
        *p = id;
    else
        n.at(dir).kids[shown(name)] = id;
}
Model::Model(const FsConfig& c) : cfg(c)
{
    MNode r;
    r.type = 'd';
    r.mode = 0755;
    n[root] = r;
}
int Model::lookup(const std::string& path) const
{
    int cur = root;
    for (auto& c : split(path, '/'))
    {
        if (c.empty())
            continue;
        auto& k = n.at(cur);
        if (k.type != 'd')
            return 0;
        const int* id = const_cast<Model*>(this)->kid(cur, c);
        if (!id)
            return 0;
        cur = *id;
    }
    return cur;
}
int Model::parent_of(const std::string& path, std::string* last) const
{
    auto pos = path.rfind('/');
    *last = path.substr(pos + 1);
    int p = lookup(path.substr(0, pos));
    return p && n.at(p).type == 'd' ? p : 0;
}
bool Model::too_long(const std::string& name) const
{
    if (cfg.full || cfg.plain)
        return name.size() > 255;
    if (cfg.threshold < 0 || cfg.threshold == 0)
        return name.size() > 143;
    return false;
}
void Model::drop(int id)
{
    auto& k = n.at(id);
    --k.nlink;
    if (k.nlink <= 0 && k.opens == 0)
        n.erase(id);
}
void Model::retarget(const std::string& from, const std::string& to)
{
    // The kernel and libfuse follow names of open files.
    for (auto* group : {slots, slots + 1, slots + 2, slots + 3, dirs, dirs + 1})
    {
        auto& s = *group;
        if (!s.node)
            continue;
        if (s.path == to || s.path.compare(0, to.size() + 1, to + "/") == 0)
            s.path.clear();
        else if (from.empty())
            continue;
        else if (s.path == from)
            s.path = to;
        else if (s.path.compare(0, from.size() + 1, from + "/") == 0)
            s.path = to + s.path.substr(from.size());
    }
}
void Model::touched(int id, const char* which, bool maybe)
{
    auto it = n.find(id);
    if (it == n.end())
        return;
    for (const char* c = which; *c; ++c)
    {
        auto& s = *c == 'a' ? it->second.at : *c == 'm' ? it->second.mt : it->second.ct;
        if (!maybe)
            s.clear();
        s.insert(clock());
    }
}
int Model::apply(const std::string& op)
{
    auto w = split(op, ' ');
    if (now == 0)
        return apply_inner(w);
    Model before = *this;
    int rc = apply_inner(w);
    if (rc != kSkip)
        touch_by(before, w, rc);
    return rc;
}
// What the operation does to timestamps.
void Model::touch_by(const Model& before, const std::vector<std::string>& w, int rc)
{
    auto& k = w[0];
    auto P = [&](int i) { return expand_path(w.at(i)); };
    std::string last;
    auto parent_touched = [&](const std::string& p, bool maybe)
    { touched(before.parent_of(p, &last), "mc", maybe); };
    if (rc < 0)
    {
        // the name space operation may have got as far as the directory
        for (size_t i = 1; i < w.size() && i < 3; ++i)
            if (w[i].find_first_not_of("0123456789") != std::string::npos)
                parent_touched(P(i), true);
        return;
    }
    if (k == "create" || k == "ocreate" || k == "mkdir" || k == "symlink")
    {
        std::string p = k == "symlink" ? P(2) : P(1);
        touched(lookup(p), "amc");
        parent_touched(p, false);
    }
    else if (k == "unlink" || k == "rmdir")
    {
        touched(before.lookup(P(1)), "c");
        parent_touched(P(1), false);
    }
    else if (k == "rename")
    {
        int a = before.lookup(P(1)), b = before.lookup(P(2));
        parent_touched(P(1), a == b);
        parent_touched(P(2), a == b);
        touched(a, "c", true);
        if (b && a != b)
            touched(b, "c");
    }
    else if (k == "link")
    {
        touched(lookup(P(1)), "c");
        parent_touched(P(2), false);
    }
    else if (k == "hw" || k == "ht" || k == "write" || k == "trunc" || k == "open")
    {
        int id = k == "hw" || k == "ht" ? slots[atoi(w[1].c_str())].node : lookup(P(1));
        if (k == "open" && (w.size() < 4 || w[3].find('t') == std::string::npos))
            return;
        if (!n.count(id))
            return;
        bool same = (k == "ht" || k == "trunc" || k == "open") && before.n.at(id).data.size() == n[id].data.size();
        bool none = (k == "hw" || k == "write") && rc == 0;
        touched(id, "mc", same || none);
        // A partly overwritten block is read first; only stored times hide that.
        if (!exact_times())
            touched(id, "a", true);
    }
    else if (k == "hr" || k == "read" || k == "readlink")
        touched(k == "hr" ? slots[atoi(w[1].c_str())].node : lookup(P(1)), "a", true);
    else if (k == "chmod" || k == "chown")
    {
        int id = lookup(P(1));
        auto& x = before.n.at(id);
        auto& y = n[id];
        touched(id, "c", x.mode == y.mode && x.uid == y.uid && x.gid == y.gid);
    }
    else if (k == "setx" || k == "rmx")
        touched(lookup(P(1)), "c", true);
    else if (k == "utimens")
    {
        int id = lookup(P(1));
        touched(id, "c");
        if (w.size() > 3)
        {
            n[id].at = {atoll(w[2].c_str())};
            n[id].mt = {atoll(w[3].c_str())};
        }
        else
            touched(id, "am");
    }
}
int Model::apply_inner(const std::vector<std::string>& w)
{
    auto& k = w[0];
    last_read.clear();
    last_stat.valid = false;
    auto P = [&](int i) { return expand_path(w.at(i)); };
    std::string last;
    if (k == "remount" || k == "compare")
        return 0;
    if (k == "remountas")
    {
        for (auto& sl : slots)
            if (sl.node)
                return kSkip;
        cfg = FsConfig::parse((base_cfg.empty() ? (base_cfg = cfg.str()) : base_cfg) + (w[1] == "none" ? "" : ":" + w[1]));
        return 0;
    }
    if (k == "ls")
    {
        int id = lookup(P(1));
        return !id ? -ENOENT : n[id].type == 'd' ? 0 : -ENOTDIR;
    }
    if (k == "create" || k == "ocreate" || k == "mkdir" || k == "symlink")
    {
        std::string p = k == "symlink" ? P(2) : P(1);
        int par = parent_of(p, &last);
        if (!par)
            return gate ? -ENOENT : kSkip;
        if (k == "ocreate" && slots[atoi(w[2].c_str())].node)
            return kSkip;
        if (kid(par, last))
            return -EEXIST;
        if (too_long(last))
            return -ENAMETOOLONG;
        MNode nn;
        nn.uid = creator_uid;
        nn.gid = creator_gid;
        nn.type = k == "mkdir" ? 'd' : k == "symlink" ? 'l' : 'f';
        nn.mode = k == "mkdir" ? 0755 : 0644;
        if (k == "create" && w.size() > 2)
            nn.mode = strtol(w[2].c_str(), nullptr, 8);
        if (k == "mkdir" && w.size() > 2)
            nn.mode = strtol(w[2].c_str(), nullptr, 8);
        if (k == "symlink")
            nn.target = w[1];
        int id = next++;
        if (k == "ocreate")
        {
            auto& s = slots[atoi(w[2].c_str())];
            s.node = id;
            s.path = p;
            s.rd = s.wr = true;
            nn.opens = 1;
        }
        n[id] = nn;
        set_kid(par, last, id);
        return 0;
    }
    if (k == "dopen")
    {
        int id = lookup(P(1));
        auto& s = dirs[atoi(w[2].c_str())];
        if (s.node || !id || n[id].type != 'd')
            return kSkip;
        n[id].opens++;
        s.node = id;
        s.path = P(1);
        return 0;
    }
    if (k == "dls" || k == "dclose")
    {
        auto& s = dirs[atoi(w[1].c_str())];
        if (!s.node)
            return kSkip;
        auto& x = n.at(s.node);
        if (k == "dls")
        {
            if (x.nlink <= 0)
                return kSkip;    // the kernel lists a removed directory itself
            for (auto& [nm, id] : x.kids)
                last_read += nm + "/";
            return 0;
        }
        if (--x.opens == 0 && x.nlink <= 0)
            n.erase(s.node);
        s.node = 0;
        return 0;
    }
    if (k == "open")
    {
        int id = lookup(P(1));
        auto& s = slots[atoi(w[2].c_str())];
        if (s.node)
            return kSkip;
        if (!id)
            return gate ? -ENOENT : kSkip;
        if (n[id].type != 'f')
            return gate ? -EISDIR : kSkip;
        if (w.size() > 3 && w[3].find('t') != std::string::npos)
            n[id].data.clear();
        n[id].opens++;
        s.rd = w.size() < 4 || w[3].find('w') == std::string::npos;
        s.wr = w.size() < 4 || w[3].find('r') == std::string::npos;
        s.node = id;
        s.path = P(1);
        return 0;
    }
    if (k == "close")
    {
        auto& s = slots[atoi(w[1].c_str())];
        if (!s.node)
            return gate ? -EBADF : kSkip;
        auto& x = n.at(s.node);
        if (--x.opens == 0 && x.nlink <= 0)
            n.erase(s.node);
        s.node = 0;
        return 0;
    }
    auto do_write = [&](MNode& x, size_t off, size_t len, int tag) -> int
    {
        if (len && x.data.size() < off + len)
            x.data.resize(off + len, '\0');
        std::string d = pattern(tag, len, off);
        std::copy(d.begin(), d.end(), x.data.begin() + (len ? off : 0));
        return (int)len;
    };
    auto do_read = [&](MNode& x, size_t off, size_t len) -> int
    {
        last_read = off >= x.data.size() ? "" : x.data.substr(off, len);
        return (int)last_read.size();
    };
    if (k == "hw" || k == "hr" || k == "ht" || k == "hs" || k == "hflush" || k == "hsync")
    {
        auto& s = slots[atoi(w[1].c_str())];
        if (!s.node)
            return gate ? -EBADF : kSkip;
        auto& x = n.at(s.node);
        if ((k == "hr" && !s.rd) || ((k == "hw" || k == "ht") && !s.wr))
            return kSkip;
        if (k == "hw")
            return do_write(x, atol(w[2].c_str()), atol(w[3].c_str()), atoi(w[4].c_str()));
        if (k == "hr")
            return do_read(x, atol(w[2].c_str()), atol(w[3].c_str()));
        if (k == "ht")
            x.data.resize(atol(w[2].c_str()), '\0');
        if (k == "hs")
        {
            last_stat = {true, 'f', (long)x.data.size(), std::max(0, x.nlink), x.mode, cfg.uid >= 0 ? (uid_t)cfg.uid : x.uid, cfg.gid >= 0 ? (gid_t)cfg.gid : x.gid};
        }
        return 0;
    }
    if (k == "write" || k == "read" || k == "trunc")
    {
        int id = lookup(P(1));
        if (!id)
            return k == "trunc" || gate ? -ENOENT : kSkip;
        auto& x = n[id];
        if (x.type != 'f')
            return gate ? -EISDIR : kSkip;
        if (k == "write")
            return do_write(x, atol(w[2].c_str()), atol(w[3].c_str()), atoi(w[4].c_str()));
        if (k == "read")
            return do_read(x, atol(w[2].c_str()), atol(w[3].c_str()));
        x.data.resize(atol(w[2].c_str()), '\0');
        return 0;
    }
    if (k == "stat")
    {
        int id = lookup(P(1));
        if (!id)
            return -ENOENT;
        auto& x = n[id];
        long sz = x.type == 'f' ? x.data.size() : x.type == 'l' ? x.target.size() : -1;
        last_stat = {true, x.type, sz, x.nlink, x.mode, cfg.uid >= 0 ? (uid_t)cfg.uid : x.uid, cfg.gid >= 0 ? (gid_t)cfg.gid : x.gid};
        return 0;
    }
    if (k == "unlink")
    {
        std::string p = P(1);
        int par = parent_of(p, &last), id = lookup(p);
        if (!par)
            return gate ? -ENOENT : kSkip;
        if (!id)
            return -ENOENT;
        if (n[id].type == 'd')
            return gate ? -EISDIR : kSkip;
        erase_kid(par, last);
        retarget("", p);
        drop(id);
        return 0;
    }
    if (k == "rmdir")
    {
        std::string p = P(1);
        int par = parent_of(p, &last), id = lookup(p);
        if (!par || p == "/")
            return gate ? -ENOENT : kSkip;
        if (!id)
            return -ENOENT;
        if (n[id].type != 'd')
            return gate ? -ENOTDIR : kSkip;
        if (!n[id].kids.empty())
            return -ENOTEMPTY;
        erase_kid(par, last);
        retarget("", p);
        drop(id);
        return 0;
    }
    if (k == "rename")
    {
        std::string a = P(1), b = P(2), la, lb;
        int pa = parent_of(a, &la), pb = parent_of(b, &lb), ia = lookup(a), ib = lookup(b);
        if (a == b || a == "/" || b == "/")
            return kSkip;
        if (!pa || !pb)
            return gate ? -ENOENT : kSkip;
        if (!ia)
            return -ENOENT;
        if (b.compare(0, a.size() + 1, a + "/") == 0 || a.compare(0, b.size() + 1, b + "/") == 0)
            return kSkip;
        if (ib)
        {
            if ((n[ia].type == 'd') != (n[ib].type == 'd'))
                return !gate ? kSkip : n[ia].type == 'd' ? -ENOTDIR : -EISDIR;
            if (n[ib].type == 'd' && !n[ib].kids.empty())
                return -ENOTEMPTY;
            if (ia == ib && (pa != pb || key(la) != key(lb)))
            {
                // Two names of one file both stay; the full format lists them as spelled here.
                erase_kid(pa, la);
                erase_kid(pb, lb);
                set_kid(pa, la, ia);
                set_kid(pb, lb, ia);
                return 0;
            }
            if (ia == ib)
            {
                // another spelling of the same name
                erase_kid(pa, la);
                set_kid(pb, lb, ia);
                retarget(a, b);
                return 0;
            }
        }
        else if (too_long(lb))
            return -ENAMETOOLONG;
        erase_kid(pa, la);
        // A replaced name takes the new spelling.
        erase_kid(pb, lb);
        set_kid(pb, lb, ia);
        retarget(a, b);
        if (ib)
            drop(ib);
        return 0;
    }
    if (k == "link")
    {
        std::string a = P(1), b = P(2), lb;
        int ia = lookup(a), pb = parent_of(b, &lb), ib = lookup(b);
        if (!pb || !ia)
            return gate ? -ENOENT : kSkip;
        if (n[ia].type != 'f' && !(n[ia].type == 'l' && !cfg.full && !gate))
            return gate ? -EPERM : kSkip;
        if (ib)
            return -EEXIST;
        if (too_long(lb))
            return -ENAMETOOLONG;
        set_kid(pb, lb, ia);
        n[ia].nlink++;
        return 0;
    }
    if (k == "chmod" || k == "chown")
    {
        int id = lookup(P(1));
        if (!id)
            return -ENOENT;
        if (n[id].type == 'l' && k == "chmod")
            return kSkip;
        if (k == "chmod")
            n[id].mode = cfg.full ? strtol(w[2].c_str(), nullptr, 8) & 0777 : strtol(w[2].c_str(), nullptr, 8);
        else
        {
            int u = atoi(w[2].c_str()), g = atoi(w[3].c_str());
            if (u >= 0)
                n[id].uid = u;
            if (g >= 0)
                n[id].gid = g;
        }
        return 0;
    }
    if (k == "utimens")
        return lookup(P(1)) ? 0 : -ENOENT;
    if (k == "as")
    {
        // Files of a lite repository belong to the user running it.
        if (cfg.full)
        {
            creator_uid = atoi(w[1].c_str());
            creator_gid = atoi(w[2].c_str());
        }
        return 0;
    }
    if (k == "setx" || k == "rmx")
    {
        int id = lookup(P(1));
        if (!id)
            return cfg.xattr ? -ENOENT : -ENOSYS;
        if (n[id].type == 'l')
            return kSkip;
        if (!cfg.xattr)
            return -ENOSYS;
        auto& xa = n[id].xa;
        bool has = xa.count(w[2]);
        if (k == "rmx")
        {
            if (!has)
                return -ENODATA;
            xa.erase(w[2]);
            return 0;
        }
        int fl = w.size() > 5 ? atoi(w[5].c_str()) : 0;
        if ((fl & XATTR_CREATE) && has)
            return -EEXIST;
        if ((fl & XATTR_REPLACE) && !has)
            return -ENODATA;
        xa[w[2]] = pattern(atoi(w[4].c_str()), atol(w[3].c_str()));
        return 0;
    }
    throw HarnessError("unknown operation " + k);
}
void Model::dump_rec(const std::string& p,
                     int id,
                     const DumpOptions& o,
                     std::map<int, std::string>& seen,
                     std::map<std::string, std::string>& out) const
{
    auto& x = n.at(id);
    std::string d(1, x.type);
    if (o.mode && x.type != 'l')
        d += fmt(" %o", x.mode & 07777);
    if (o.owner)
        d += fmt(" %d:%d", cfg.uid >= 0 ? cfg.uid : (int)x.uid, cfg.gid >= 0 ? cfg.gid : (int)x.gid);
    if (x.type != 'd')
    {
        auto it = seen.find(id);
        if (it == seen.end())
            seen[id] = p;
        else
            d += " =" + it->second;
        if (o.nlink)
            d += fmt(" n%d", x.nlink);
    }
    if (x.type == 'f' && o.content)
        d += fmt(" s%zu ", x.data.size()) + (x.data.size() <= 48 ? cescape(x.data) : fmt("#%016llx", (unsigned long long)hash_str(x.data)));
    else if (x.type == 'f')
        d += fmt(" s%zu", x.data.size());
    if (x.type == 'l')
        d += " ->" + cescape(x.target);
    if (o.xattr && cfg.xattr && x.type != 'l')
        for (auto& [k, v] : x.xa)
            d += " @" + cescape(k) + "=" + (v.size() <= 32 ? cescape(v) : fmt("#%zu:%016llx", v.size(), (unsigned long long)hash_str(v)));
    out[p] = d;
    for (auto& [k, c] : x.kids)
        dump_rec(p == "/" ? "/" + k : p + "/" + k, c, o, seen, out);
}
std::map<std::string, std::string> Model::dump(const DumpOptions& o) const
{
    std::map<std::string, std::string> out;
    std::map<int, std::string> seen;
    dump_rec("/", root, o, seen, out);
    return out;
}
int Model::live_objects() const { return (int)n.size(); }

FsRun::FsRun(const FsConfig& c, const std::string& d, bool fresh) : cfg(c), dir(d), model(c)
{
    if (fresh)
        reset_dir(d);
    m = std::make_unique<Mount>(d, c);
}
FsRun::~FsRun() {}

int FsRun::raw(const std::string& op, std::string* data)
{
    auto w = split(op, ' ');
    auto& k = w[0];
    auto P = [&](int i) { return expand_path(w.at(i)); };
    auto S = [&](int i) { return atoi(w.at(i).c_str()); };
    uint64_t h = 0;
    int rc;
    if (k == "create")
    {
        rc = m->create(P(1), w.size() > 2 ? strtol(w[2].c_str(), nullptr, 8) : 0644, &h);
        if (rc)
            return rc;
        rc = m->flush(P(1), h);
        int rc2 = m->release(P(1), h);
        return rc ? rc : rc2;
    }
    if (k == "ocreate")
    {
        rc = m->create(P(1), 0644, &h);
        if (!rc)
            fh[S(2)] = h;
        return rc;
    }
    if (k == "open")
    {
        bool t = w.size() > 3 && w[3].find('t') != std::string::npos;
        bool ro = w.size() > 3 && w[3].find('r') != std::string::npos;
        bool wo = w.size() > 3 && w[3].find('w') != std::string::npos;
        rc = m->open(P(1), (ro ? O_RDONLY : wo ? O_WRONLY : O_RDWR) | (t ? O_TRUNC : 0), &h);
        if (!rc)
            fh[S(2)] = h;
        return rc;
    }
    if (k == "close")
    {
        // close(2) of the last descriptor: flush, then release
        rc = m->flush(model.slots[S(1)].path, fh[S(1)]);
        int rc2 = m->release(model.slots[S(1)].path, fh[S(1)]);
        fh[S(1)] = 0;
        return rc ? rc : rc2;
    }
    if (k == "hw")
        return m->write(model.slots[S(1)].path, fh[S(1)], pattern(S(4), S(3), S(2)), S(2));
    if (k == "hr")
    {
        std::string out;
        rc = m->read(model.slots[S(1)].path, fh[S(1)], &out, S(3), S(2));
        if (data)
            *data = out;
        return rc;
    }
    if (k == "ht")
        return m->ftruncate(model.slots[S(1)].path, fh[S(1)], S(2));
    if (k == "hflush")
        return m->flush(model.slots[S(1)].path, fh[S(1)]);
    if (k == "hsync")
        return m->fsync(model.slots[S(1)].path, fh[S(1)]);
    if (k == "hs" || k == "stat")
    {
        struct stat st;
        rc = k == "hs" ? m->fgetattr(model.slots[S(1)].path, fh[S(1)], &st) : m->getattr(P(1), &st);
        if (rc == 0 && data)
            *data = std::string((char*)&st, sizeof st);
        return rc;
    }
    if (k == "write" || k == "read")
    {
        rc = m->open(P(1), k == "write" ? O_WRONLY : O_RDONLY, &h);
        if (rc)
            return rc;
        if (k == "write")
            rc = m->write(P(1), h, pattern(S(4), S(3), S(2)), S(2));
        else
        {
            std::string out;
            rc = m->read(P(1), h, &out, S(3), S(2));
            if (data)
                *data = out;
        }
        int rc2 = m->flush(P(1), h), rc3 = m->release(P(1), h);
        return rc < 0 ? rc : rc2 < 0 ? rc2 : rc3 < 0 ? rc3 : rc;
    }
    if (k == "trunc")
        return m->truncate(P(1), S(2));
    if (k == "mkdir")
        return m->mkdir(P(1), w.size() > 2 ? strtol(w[2].c_str(), nullptr, 8) : 0755);
    if (k == "unlink")
        return m->unlink(P(1));
    if (k == "rmdir")
        return m->rmdir(P(1));
    if (k == "rename")
        return m->rename(P(1), P(2));
    if (k == "link")
        return m->link(P(1), P(2));
    if (k == "symlink")
        return m->symlink(w[1], P(2));
    if (k == "chmod")
        return m->chmod(P(1), strtol(w[2].c_str(), nullptr, 8));
    if (k == "chown")
        return m->chown(P(1), S(2), S(3));
    if (k == "as")
    {
        m->uid = S(1);
        m->gid = S(2);
        return 0;
    }
    if (k == "utimens")
    {
        timespec ts[2];
        if (w.size() > 3)
            for (int i = 0; i < 2; ++i)
            {
                int64_t v = atoll(w[2 + i].c_str());
                { ts[i] = {v / 1000000000, v % 1000000000}; if (ts[i].tv_nsec < 0) { --ts[i].tv_sec; ts[i].tv_nsec += 1000000000; } }
            }
        return m->utimens(P(1), w.size() > 3 ? ts : nullptr);
    }
    if (k == "setx")
        return m->setxattr(P(1), w[2], pattern(S(4), S(3)), w.size() > 5 ? S(5) : 0);
    if (k == "rmx")
        return m->removexattr(P(1), w[2]);
    if (k == "dopen")
    {
        rc = m->opendir(P(1), &h);
        if (!rc)
            dh[S(2)] = h;
        return rc;
    }
    if (k == "dclose")
    {
        rc = m->releasedir(model.dirs[S(1)].path, dh[S(1)]);
        dh[S(1)] = 0;
        return rc;
    }
    if (k == "ls" || k == "dls")
    {
        std::vector<DirEnt> e;
        rc = k == "ls" ? m->readdir(P(1), &e) : m->readdir(model.dirs[S(1)].path, dh[S(1)], &e);
        if (data)
        {
            std::vector<std::string> names;
            for (auto& x : e)
                if (x.name != "." && x.name != "..")
                    names.push_back(x.name);
            std::sort(names.begin(), names.end());
            for (auto& x : names)
                *data += x + "/";
        }
        return rc;
    }
    throw HarnessError("unknown operation " + op);
}
int FsRun::step(const std::string& op)
{
    if (op == "remount")
    {
        remount();
        return 0;
    }
    if (op.compare(0, 10, "remountas ") == 0)
    {
        if (model.apply(op) == Model::kSkip)
            return Model::kSkip;
        cfg = model.cfg;
        remount();
        return 0;
    }
    if (op == "compare")
    {
        compare("during");
        return 0;
    }
    if (check_times)
    {
        g_virtual_now_ns += 1000000007;
        model.now = g_virtual_now_ns;
    }
    // The paths of the handles the operation uses are those before it.
    Model before = model;
    int want = model.apply(op);
    if (want == Model::kSkip)
    {
        model = before;
        return want;
    }
    auto after = std::move(model);
    model = std::move(before);
    std::string data;
    int got = raw(op, &data);
    model = std::move(after);
    ++nsteps;
    if (got != want)
    {
        bool ok = false;
        if (want == -ENOTEMPTY && got == -EEXIST)
            ok = true;
        if (op.compare(0, 3, "ls ") == 0 && (want < 0) == (got < 0))
            ok = true;
        // absent and too long to exist
        if ((want == -ENOENT && got == -ENAMETOOLONG) || (want == -EEXIST && got == -EEXIST))
            ok = true;
        if (!ok)
            fail("operation %d \"%s\" returned %d, expected %d", nsteps, op.c_str(), got, want);
    }
    auto k = op.substr(0, op.find(' '));
    if (k == "dls" && data != model.last_read)
        fail("operation %d \"%s\" listed \"%s\", expected \"%s\"", nsteps, op.c_str(), cescape(data).c_str(), cescape(model.last_read).c_str());
    if ((k == "hr" || k == "read") && data != model.last_read)
        fail("operation %d \"%s\" read wrong bytes: %s expected %s",
             nsteps,
             op.c_str(),
             cescape(data.substr(0, 80)).c_str(),
             cescape(model.last_read.substr(0, 80)).c_str());
    if ((k == "hs" || k == "stat") && got == 0)
    {
        struct stat st;
        memcpy(&st, data.data(), sizeof st);
        auto& l = model.last_stat;
        char t = S_ISDIR(st.st_mode) ? 'd' : S_ISREG(st.st_mode) ? 'f' : 'l';
        if (t != l.type || (l.size >= 0 && st.st_size != l.size) || (t == 'f' && (int)st.st_nlink != l.nlink)
            || (t != 'l' && (st.st_mode & 07777) != (l.mode & 07777)))
            fail("operation %d \"%s\": type %c size %ld nlink %d mode %o, expected %c %ld %d %o",
                 nsteps,
                 op.c_str(),
                 t,
                 (long)st.st_size,
                 (int)st.st_nlink,
                 st.st_mode & 07777,
                 l.type,
                 l.size,
                 l.nlink,
                 l.mode & 07777);
        if (st.st_uid != l.uid || st.st_gid != l.gid)
            fail("operation %d \"%s\": owner %d:%d, expected %d:%d", nsteps, op.c_str(), (int)st.st_uid, (int)st.st_gid, (int)l.uid, (int)l.gid);
    }
    if (vrt_locks_held() != 0)
        fail("operation %d \"%s\" left %d locks held", nsteps, op.c_str(), vrt_locks_held());
    return want;
}
void FsRun::compare_times(const char* when)
{
    g_virtual_now_ns += 1000000007;
    model.now = g_virtual_now_ns;
    std::function<void(const std::string&, int)> rec = [&](const std::string& p, int id)
    {
        auto& x = model.n.at(id);
        struct stat st;
        int rc = m->getattr(p, &st);
        if (rc)
            fail("%s: getattr(%s) returned %d", when, p.c_str(), rc);
        auto ns = [](const timespec& t) { return t.tv_sec * 1000000000ll + t.tv_nsec; };
        auto check = [&](const char* what, const std::set<int64_t>& ok, int64_t got)
        {
            if (ok.empty() || ok.count(got) || (ok.count(kKernelNow) && got > 1600000000ll * 1000000000))
                return;
            std::string s;
            for (auto v : ok)
                s += fmt(" %lld", (long long)v);
            fail("%s: %s of %s is %lld, allowed:%s", when, what, p.c_str(), (long long)got, s.c_str());
        };
        // Without stored times those of directories and links are the storage's own.
        if (model.exact_times() || !cfg.full || x.type == 'f')
            check("mtime", x.mt, ns(st.st_mtim));
        if (x.type == 'f')
            check("atime", x.at, ns(st.st_atim));
        if (model.exact_times())
            check("ctime", x.ct, ns(st.st_ctim));
        for (auto& [k, c] : x.kids)
            rec(p == "/" ? "/" + k : p + "/" + k, c);
    };
    rec("/", model.root);
    // What follows reads everything.
    for (auto& [id, x] : model.n)
        x.at.insert(model.clock());
}
void FsRun::compare(const char* when)
{
    if (check_times)
        compare_times(when);
    auto want = model.dump(dopt);
    auto got = dump_tree(*m, dopt);
    auto d = diff_dumps(want, got);
    if (!d.empty())
        fail("%s: the tree differs:%s", when, d.c_str());
    if (vrt_locks_held() != 0)
        fail("%s: locks held after reading the tree", when);
}
void FsRun::close_all()
{
    for (int i = 0; i < 4; ++i)
        if (model.slots[i].node)
            step(fmt("close %d", i));
    for (int i = 0; i < 2; ++i)
        if (model.dirs[i].node)
            step(fmt("dclose %d", i));
}
void FsRun::remount()
{
    close_all();
    m.reset();
    m = std::make_unique<Mount>(dir, cfg);
    m->uid = model.creator_uid;
    m->gid = model.creator_gid;
}
void FsRun::storage_accounting(const char* when)
{
    if (!cfg.full)
        return;
    std::set<std::string> data, meta;
    for (auto& f : list_storage(dir))
    {
        if (f[0] == '.')
            continue;
        if (f.size() > 5 && f.compare(f.size() - 5, 5, ".meta") == 0)
            meta.insert(f.substr(0, f.size() - 5));
        else
            data.insert(f);
    }
    if (!cfg.legacy_io)
    {
        // Objects are kept in directories that go with the last of them.
        NoHook nh;
        std::set<std::string> used;
        for (auto& d : data)
            used.insert(d.substr(0, d.find('/')));
        if (DIR* top = opendir(dir.c_str()))
        {
            std::vector<std::string> names;
            while (auto* e = readdir(top))
                if (strlen(e->d_name) == 2 && isxdigit(e->d_name[0]) && isxdigit(e->d_name[1]))
                    names.push_back(e->d_name);
            closedir(top);
            for (auto& x : names)
                if (!used.count(x))
                    fail("%s: the storage keeps the empty directory %s", when, x.c_str());
        }
    }
    for (auto& d : data)
        if (!meta.count(d))
            fail("%s: storage object %s has no metadata", when, d.c_str());
    for (auto& d : meta)
        if (!data.count(d))
            fail("%s: storage object %s has only metadata", when, d.c_str());
    if ((int)data.size() != model.live_objects())
        fail("%s: %d objects in storage, %d reachable or open", when, (int)data.size(), model.live_objects());
}
void FsRun::finish(bool with_remount)
{
    compare("at the end");
    if (check_storage)
        storage_accounting("at the end");
    close_all();
    if (check_storage)
        storage_accounting("after closing everything");
    if (with_remount)
    {
        remount();
        compare("after remounting");
        if (check_storage)
            storage_accounting("after remounting");
    }
    m.reset();
    if (check_storage)
        storage_accounting("after unmounting");
}
void run_ops_case(const std::string& c, const DumpOptions& o, bool storage, bool with_remount)
{
    auto bar = c.find('|');
    FsConfig cfg = FsConfig::parse(c.substr(0, bar));
    reseed(7);
    FsRun r(cfg, worker_dir() + "/fs");
    r.dopt = o;
    r.check_storage = storage;
    std::string ops = c.substr(bar + 1);
    if (!ops.empty())
        for (auto& op : split(ops, ';'))
            r.step(op);
    r.finish(with_remount);
}
void SeqEnum::rec(const Model& m, std::vector<std::string>& ops, int d, int fails)
{
    if (!alphabet.empty() && d > 0)
        f(ops);
    if (d == depth)
        return;
    for (size_t i = 0; i < alphabet.size(); ++i)
    {
        if (d == 0 && first >= 0 && (int)i != first)
            continue;
        Model m2 = m;
        int rc = m2.apply(alphabet[i]);
        if (rc == Model::kSkip)
            continue;
        int nf = fails + (rc < 0);
        ops.push_back(alphabet[i]);
        if (rc < 0 && fails >= max_fail)
            f(ops);    // run it, but do not extend it
        else
            rec(m2, ops, d + 1, nf);
        ops.pop_back();
    }
}
void SeqEnum::run()
{
    Model m(cfg);
    std::vector<std::string> ops;
    for (auto& s : setup)
    {
        if (m.apply(s) == Model::kSkip)
            throw HarnessError("setup operation impossible: " + s);
        ops.push_back(s);
    }
    // f sees the setup too
    rec(m, ops, 0, 0);
}
}    // namespace vf
