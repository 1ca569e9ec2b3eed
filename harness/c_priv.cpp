#include <regex>
// What the underlying storage (C12) and the log (C13) reveal.
//  C12:  S|cfg|ops            histories full of recognizable secrets; the storage is searched after every step
//        K|...                 configuration files made by the commands
//        R|cfg                 the same history in processes with the real random generator
//  C13:  L|cfg|level|ops      histories with the log at a level
//        X|cfg|level|file:off  reading a repository with one stored byte altered
//        M|format|flags        the log of a mount command
#include "cli.h"
#include "memstream.h"
#include "model.h"
#include "mystring.h"
#include "params_io.h"
#include "logger.h"
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/xattr.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

using namespace vf;
using securefs::DecryptedSecurefsParams;
using securefs::EncryptedSecurefsParams;
namespace
{
using V = std::vector<std::string>;

// ---------------------------------------------------------------- searching
uint64_t load8(const char* p)
{
    uint64_t x;
    memcpy(&x, p, 8);
    return x;
}
struct Windows
{
    int w;
    std::vector<uint64_t> bloom = std::vector<uint64_t>(1 << 12);
    std::unordered_map<uint64_t, int> s;
    explicit Windows(int n) : w(n) {}
    uint64_t h(const char* p) const
    {
        uint64_t x;
        if (w == 6)
        {
            x = 0;
            memcpy(&x, p, 6);
        }
        else if (w == 8)
            x = load8(p);
        else
            x = load8(p) * 0x9e3779b97f4a7c15ull ^ (load8(p + w - 8) * 0xc2b2ae3d27d4eb4full);
        return x;
    }
    static uint32_t bit(uint64_t x) { return (x * 0x9e3779b97f4a7c15ull) >> 46; }
    void add(const char* p, int who)
    {
        uint64_t x = h(p);
        bloom[bit(x) >> 6] |= 1ull << (bit(x) & 63);
        s.emplace(x, who);
    }
    int find(const char* p) const
    {
        uint64_t x = h(p);
        if (!(bloom[bit(x) >> 6] >> (bit(x) & 63) & 1))
            return -1;
        auto it = s.find(x);
        return it == s.end() ? -1 : it->second;
    }
    void clear()
    {
        s.clear();
        std::fill(bloom.begin(), bloom.end(), 0);
    }
};
int variety(const char* p, int n)
{
    int d = 0;
    for (int i = 0; i < n; ++i)
        d += !memchr(p, p[i], i);
    return d;
}
std::string lower(std::string s)
{
    for (auto& c : s)
        c = c >= 'A' && c <= 'Z' ? c + 32 : c;
    return s;
}
std::string b64(const std::string& s)
{
    static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r;
    for (size_t i = 0; i + 2 < s.size(); i += 3)
    {
        uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8 | (uint8_t)s[i + 2];
        for (int k = 18; k >= 0; k -= 6)
            r += a[v >> k & 63];
    }
    return r;
}
std::string b32own(const std::string& s)
{
    std::string r;
    securefs::base32_encode((const unsigned char*)s.data(), s.size(), r);
    return lower(r);
}
std::string b32rfc(const std::string& s)
{
    static const char* a = "abcdefghijklmnopqrstuvwxyz234567";
    std::string r;
    uint64_t v = 0;
    int bits = 0;
    for (uint8_t c : s)
    {
        v = v << 8 | c;
        bits += 8;
        while (bits >= 5)
            r += a[v >> (bits -= 5) & 31];
    }
    return r;
}

// Everything secret, and the search for it in any of the usual spellings.
struct Secrets
{
    V names;    // what each one is
    Windows raw{6}, low{6}, hexw{12}, b64w{12}, b32w{16};
    std::unordered_set<std::string> have;
    void clear()
    {
        names.clear();
        have.clear();
        for (auto* w : {&raw, &low, &hexw, &b64w, &b32w})
            w->clear();
    }
    void add(const std::string& v, const std::string& what)
    {
        if (v.size() < 6 || !have.insert(v).second)
            return;
        int id = names.size();
        names.push_back(what);
        std::string l = lower(v), hx = hex(v.data(), v.size());
        for (size_t i = 0; i + 6 <= v.size(); ++i)
        {
            if (variety(&v[i], 6) < 4)
                continue;
            raw.add(&v[i], id);
            low.add(&l[i], id);
            hexw.add(&hx[2 * i], id);
            if (i + 9 <= v.size())
                b64w.add(b64(v.substr(i, 9)).data(), id);
            if (i + 10 <= v.size())
            {
                b32w.add(b32own(v.substr(i, 10)).data(), id);
                b32w.add(b32rfc(v.substr(i, 10)).data(), id);
            }
        }
    }
    // Returns a description of the first hit.
    std::string find(const std::string& d) const
    {
        if (d.size() < 6)
            return "";
        std::string l = lower(d), u = d;
        for (auto& c : u)
            c = c == '-' ? '+' : c == '_' ? '/' : c;
        auto hit = [&](const Windows& w, const std::string& t, const char* how) -> std::string
        {
            for (size_t i = 0; i + w.w <= t.size(); ++i)
            {
                int k = w.find(&t[i]);
                if (k >= 0)
                    return fmt("%s (%s at offset %zu: %s)", names[k].c_str(), how, i, cescape(t.substr(i, 24)).c_str());
            }
            return "";
        };
        std::string r;
        if (!(r = hit(raw, d, "as it is")).empty() || !(r = hit(low, l, "but for case")).empty() || !(r = hit(hexw, l, "in hexadecimal")).empty()
            || !(r = hit(b64w, u, "in base64")).empty() || !(r = hit(b32w, l, "in base32")).empty())
            return r;
        return "";
    }
};

// ---------------------------------------------------------------- the storage, in pieces
struct Piece
{
    std::string where;    // path (and attribute)
    std::string bytes;
    char kind;            // 'f' contents, 'x' attribute value, 'l' link target
};
struct Image
{
    std::map<std::string, Piece> pieces;            // by object identity
    std::map<std::string, std::string> by_path;     // path -> piece identity
    std::map<std::string, V> xnames;                // path -> stored attribute names
};
bool own_file(const std::string& name)
{
    return name.compare(0, 11, ".long_names") == 0 || name.compare(0, 9, ".securefs") == 0 || name.compare(0, 7, ".config") == 0;
}
void load_rec(const std::string& root, const std::string& rel, Image& im)
{
    std::string p = root + "/" + rel;
    struct stat st;
    if (lstat(p.c_str(), &st))
        throw HarnessError("lstat " + p);
    std::string id = fmt("%llu", (unsigned long long)st.st_ino);
    Piece n;
    n.where = rel;
    n.kind = S_ISDIR(st.st_mode) ? 'd' : S_ISLNK(st.st_mode) ? 'l' : 'f';
    if (n.kind == 'f')
        n.bytes = read_file(p);
    else if (n.kind == 'l')
    {
        char b[8192];
        ssize_t k = readlink(p.c_str(), b, sizeof b);
        n.bytes.assign(b, std::max<ssize_t>(k, 0));
    }
    if (!rel.empty())
    {
        im.pieces[id] = n;
        im.by_path[rel] = id;
    }
    if (n.kind != 'l')
    {
        std::string l(8192, 0);
        ssize_t k = llistxattr(p.c_str(), &l[0], l.size());
        for (ssize_t i = 0; i < k; i += strlen(&l[i]) + 1)
        {
            std::string v(65536, 0);
            ssize_t m = lgetxattr(p.c_str(), &l[i], &v[0], v.size());
            v.resize(std::max<ssize_t>(m, 0));
            im.pieces[id + "/" + &l[i]] = {rel + " attribute " + &l[i], v, 'x'};
            im.xnames[rel].push_back(&l[i]);
        }
    }
    if (n.kind == 'd')
    {
        auto* d = opendir(p.c_str());
        V names;
        while (auto* e = readdir(d))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
                names.push_back(e->d_name);
        closedir(d);
        for (auto& x : names)
            load_rec(root, rel.empty() ? x : rel + "/" + x, im);
    }
}
Image load(const std::string& root)
{
    NoHook nh;
    Image im;
    load_rec(root, "", im);
    return im;
}

Secrets g_secrets;
// Searches everything that is stored.
void search(const Image& im, const char* when)
{
    for (auto& [id, p] : im.pieces)
    {
        auto r = g_secrets.find(p.bytes);
        if (!r.empty())
            fail("%s: %s %s reveals %s", when, p.kind == 'l' ? "the stored link target of" : p.kind == 'x' ? "the stored value of" : "the stored contents of", cescape(p.where).c_str(), r.c_str());
    }
    for (auto& [path, id] : im.by_path)
    {
        auto r = g_secrets.find(path);
        if (!r.empty())
            fail("%s: the stored name %s reveals %s", when, cescape(path).c_str(), r.c_str());
    }
    for (auto& [path, xs] : im.xnames)
        for (auto& x : xs)
        {
            auto r = g_secrets.find(x);
            if (!r.empty())
                fail("%s: the stored attribute name %s reveals %s", when, cescape(x).c_str(), r.c_str());
        }
}

// Nothing that is encrypted ever looks like something that was encrypted before.
struct Freshness
{
    std::unordered_map<uint64_t, int> seen;    // window -> piece it was first seen in
    V pieces;
    std::set<std::string> paths;    // full format: every storage path there ever was
    std::set<std::string> attr_nonces;
    Image prev;
    bool full;
    int block, iv, padding, header;
    int repo = 0;

    void restart(const FsConfig& c)
    {
        prev = {};
        full = c.full;
        block = c.block;
        iv = c.iv;
        padding = c.padding;
        header = c.store_time ? 80 : 32;
        ++repo;
    }
    void step(const Image& im, const char* when)
    {
        for (auto& [id, p] : im.pieces)
        {
            if ((p.kind != 'f' && p.kind != 'x') || own_file(p.where.substr(p.where.rfind('/') + 1)))
                continue;
            auto it = prev.pieces.find(id);
            static const std::string none;
            const std::string& old = it == prev.pieces.end() ? none : it->second.bytes;
            if (old == p.bytes)
                continue;
            int me = pieces.size();
            pieces.push_back(fmt("repository %d, %s", repo, p.where.c_str()));
            auto& b = p.bytes;
            // The code over an object's metadata comes back when the metadata does.
            size_t from = full && p.kind == 'f' && b.size() > 32 && p.where.compare(p.where.size() - 5, 5, ".meta") == 0 ? 32 : 0;
            for (size_t i = from; i + 8 <= b.size(); ++i)
            {
                int zeros = 0, changed = 0;
                for (size_t k = i; k < i + 8; ++k)
                {
                    zeros += b[k] == 0;
                    changed += k >= old.size() || b[k] != old[k];
                }
                if (zeros > 2 || changed < 7 || variety(&b[i], 8) < 5)
                    continue;
                auto [j, fresh] = seen.emplace(load8(&b[i]), me);
                if (!fresh)
                    fail("%s: eight stored bytes of %s at offset %zu (%s) are those stored before in %s", when, cescape(p.where).c_str(), i, hex(&b[i], 8).c_str(), cescape(pieces[j->second]).c_str());
            }
        }
        nonces(im, when);
        if (full)
        {
            for (auto& [path, id] : im.by_path)
                if (!prev.by_path.count(path) && im.pieces.at(id).kind == 'f' && !own_file(path) && path.find("000000000000") == std::string::npos
                    && !paths.insert(path).second)
                    fail("%s: the identifier of object %s was used before", when, path.c_str());
        }
        prev = im;
    }
    static bool null_iv(const std::string& s)
    {
        return s.find_first_not_of('\0') == std::string::npos;
    }
    // The nonce of a unit stays only while the unit does.
    void nonces(const Image& im, const char* when)
    {
        auto sub = [](const std::string& s, size_t o, size_t n) { return o < s.size() ? s.substr(o, n) : std::string(); };
        // Attribute values have nonces of their own however short they are.
        for (auto& [id, p] : im.pieces)
        {
            if (p.kind != 'x')
                continue;
            auto o = prev.pieces.find(id);
            if (o != prev.pieces.end() && o->second.bytes == p.bytes)
                continue;
            size_t slash = p.where.find(" attribute ");
            bool meta = slash >= 5 && p.where.compare(slash - 5, 5, ".meta") == 0;
            if (full && !meta)
                continue;
            auto n = p.bytes.substr(0, full ? 16 : iv);
            if (n.size() < 12 || std::count(n.begin(), n.end(), 0) > 5)
                fail("%s: the nonce of %s is %s", when, cescape(p.where).c_str(), hex(n.data(), n.size()).c_str());
            if (!attr_nonces.insert(n).second)
                fail("%s: the nonce of %s was used before", when, cescape(p.where).c_str());
        }
        for (auto& [path, id] : im.by_path)
        {
            auto o = prev.pieces.find(id);
            auto& p = im.pieces.at(id);
            if (o == prev.pieces.end() || p.kind != 'f' || own_file(path.substr(path.rfind('/') + 1)))
                continue;
            const std::string &a = o->second.bytes, &b = p.bytes;
            if (!full)
            {
                if (padding)
                    continue;
                size_t unit = iv + block + 16;
                for (size_t k = 16; k < a.size() && k < b.size(); k += unit)
                {
                    auto x = sub(a, k, unit), y = sub(b, k, unit);
                    if (x != y && x.substr(0, iv) == y.substr(0, iv) && !null_iv(x.substr(0, iv)))
                        fail("%s: block %zu of %s was encrypted again under the same nonce", when, (k - 16) / unit, path.c_str());
                }
                continue;
            }
            if (path.size() < 5 || path.compare(path.size() - 5, 5, ".meta"))
                continue;
            std::string data = path.substr(0, path.size() - 5);
            if (!im.by_path.count(data) || !prev.by_path.count(data))
                continue;
            const std::string &da = prev.pieces.at(prev.by_path.at(data)).bytes, &db = im.pieces.at(im.by_path.at(data)).bytes;
            size_t h = 32;
            auto hx = sub(a, h, iv + 16 + header), hy = sub(b, h, iv + 16 + header);
            if (hx != hy && hx.substr(0, iv) == hy.substr(0, iv) && !null_iv(hx.substr(0, iv)))
                fail("%s: the header of %s was encrypted again under the same nonce", when, path.c_str());
            size_t at = h + iv + 16 + header;
            for (size_t k = 0; at + k * (iv + 16) < a.size() && at + k * (iv + 16) < b.size(); ++k)
            {
                auto x = sub(a, at + k * (iv + 16), iv), y = sub(b, at + k * (iv + 16), iv);
                auto cx = sub(da, k * block, block), cy = sub(db, k * block, block);
                if (x == y && !null_iv(x) && cx != cy)
                    fail("%s: block %zu of %s was encrypted again under the same nonce", when, k, data.c_str());
            }
        }
    }
};
Freshness g_fresh;

// ---------------------------------------------------------------- C12: histories
const std::string A = "/Zebra-Quartz-Hkw-One", B = "/Walnut_Fjord_Vqx_Two.TXT", D = "/Obsidian-Lynx-Folder",
                  L = "/Longest-Marigold-Holding-Plenty-Of-Differing-Glyphs-0123456789-Forcing-It-Through-The-Lookup-Juniper-Kestrel-Topaz-Umber-Vellum-Wicker-Yucca-Zinnia-Bramble",
                  S = "/Symbolic-Pelican-Entry", T = "relative/Heliotrope-Gneiss-Target", N = "user.Attribute-Marzipan-Kiln", N2 = "user.Second-Rhubarb-Label";

void collect(const std::string& op, bool plain_names)
{
    auto w = split(op, ' ');
    if (!plain_names)
        for (size_t i = 1; i < w.size(); ++i)
            if (w[i].size() > 6 && (w[i][0] == '/' || w[i].find('/') != std::string::npos))
                for (auto& part : split(expand_path(w[i]), '/'))
                    g_secrets.add(part, "the name " + part.substr(0, 30));
    if ((w[0] == "setx" || w[0] == "rmx") && w.size() > 2)
        g_secrets.add(w[2].substr(w[2].find('.') + 1), "the attribute name " + w[2]);
    if (w[0] == "setx")
        g_secrets.add(pattern(atoi(w[4].c_str()), atoi(w[3].c_str())), "an attribute value");
    if (w[0] == "write" || w[0] == "hw")
        g_secrets.add(pattern(atoi(w[4].c_str()), atoi(w[3].c_str()), atoi(w[2].c_str())), "file contents");
}
const std::string* g_running_op;
// Data that is written and then overwritten within one operation counts as well.
void watch(const SysInfo& i, long rc)
{
    if (rc < 0)
        return;
    std::string what;
    if ((i.id == kPwrite || i.id == kWrite) && i.fd > 2)
    {
        what.resize(std::min<long>(rc, 1 << 20));
        long off = i.id == kPwrite ? i.off : lseek(i.fd, 0, SEEK_CUR) - rc;
        int r = open(fmt("/proc/self/fd/%d", i.fd).c_str(), O_RDONLY | O_CLOEXEC);
        if (r < 0)
            return;
        ssize_t k = pread(r, &what[0], what.size(), off);
        close(r);
        what.resize(std::max<ssize_t>(k, 0));
    }
    else if (i.mutating)
    {
        if (i.path)
            what = i.path;
        if (i.path2)
            what += std::string(1, 0) + i.path2;
    }
    if (what.empty())
        return;
    auto r = g_secrets.find(what);
    if (!r.empty())
        fail("during %s: a %s call passes %s to the storage", g_running_op->c_str(), kSysNames[i.id], r.c_str());
}
std::set<std::string> stored_names(const Image& im)
{
    std::set<std::string> r;
    for (auto& [p, id] : im.by_path)
        if (!own_file(p.substr(p.rfind('/') + 1)))
        {
            r.insert(p.substr(p.rfind('/') + 1));
            if (im.pieces.at(id).kind == 'l')
                r.insert(im.pieces.at(id).bytes);
        }
    for (auto& [p, xs] : im.xnames)
        for (auto& x : xs)
            r.insert(x);
    return r;
}
void run_history(const FsConfig& cfg, const V& ops, int seed, const std::string& dir, Image* out)
{
    reseed(seed * 10000019ull);    // neighbouring seeds give shifted streams
    g_fresh.restart(cfg);
    FsRun r(cfg, dir);
    uint64_t h = 0;
    auto look = [&](const char* when)
    {
        auto im = load(dir);
        search(im, when);
        g_fresh.step(im, when);
        *out = std::move(im);
    };
    auto go = [&](const std::string& op)
    {
        collect(op, cfg.plain);
        g_running_op = &op;
        g_sys_after = watch;
        int rc;
        try
        {
            rc = r.step(op);
        }
        catch (...)
        {
            g_sys_after = nullptr;
            throw;
        }
        g_sys_after = nullptr;
        h = h * 31 + (rc < 0 ? -rc : 0);
        look(("after " + op).c_str());
    };
    for (auto& op : ops)
        go(op);
    static const std::string end = "the end";
    g_running_op = &end;
    r.close_all();
    r.m.reset();
    look("after unmounting");
    uint64_t d = 0;
    for (auto& [p, id] : out->by_path)
        d = d * 1000003 + out->pieces.at(id).bytes.size() + hash_str(p);
    if (distinct(h * 7919 + d + hash_str(cfg.str())))
        count(kNontrivial);
}
void case_storage(const std::string& cfgs, const V& ops, bool twice)
{
    FsConfig cfg = FsConfig::parse(cfgs);
    g_secrets.clear();
    g_fresh.seen.clear();
    g_fresh.pieces.clear();
    g_fresh.paths.clear();
    g_fresh.attr_nonces.clear();
    g_fresh.repo = 0;
    g_secrets.add(cfg.full ? cfg.params().full_format_params().master_key() : cfg.params().lite_format_params().name_key(), "the key");
    if (!cfg.full)
        g_secrets.add(cfg.params().lite_format_params().content_key(), "the content key");
    Image one, two;
    run_history(cfg, ops, 7, worker_dir() + "/fs", &one);
    if (!twice)
        return;
    // The same again: another repository under the same keys.
    run_history(cfg, ops, 8, worker_dir() + "/fs2", &two);
    // And under other keys, where not even the names may be alike.
    cfg.key_variant += 1;
    run_history(cfg, ops, 9, worker_dir() + "/fs3", &two);
    if (!cfg.plain)
    {
        auto x = stored_names(one), y = stored_names(two);
        for (auto& n : x)
            if (n.size() > 6 && n.find("0000000000") == std::string::npos && y.count(n) && n.compare(0, 11, "user.system"))
                fail("two repositories with different keys both store the name %s", cescape(n).c_str());
    }
}
const V kStorageCfgs = {"full:b256", "lite:b256:t60", "lite:b256", "full:b256:time:p40", "full:b256:v1:i16", "full:b256:ci", "full:b256:uni:ci:time", "lite:b256:t60:p40", "lite:b256:plain", "lite:b256:p40:i16",
                        "lite:b256:nfc:fold:t60", "lite:b256:t60:s.long", "full:b256:sens:noverify", "full:b256:i32:p200"};
V storage_alphabet(const FsConfig& c, bool wide)
{
    V r = {"create " + A, "write " + A + " 0 700 1", "write " + A + " 0 700 2", "write " + B + " 0 700 1", "write " + A + " 300 20 3", "trunc " + A + " 100", "trunc " + A + " 0",
           "rename " + A + " " + B, "unlink " + A, "mkdir " + D, "create " + D + A, "rename " + B + " " + D + B, "setx " + A + " " + N + " 40 5", "setx " + B + " " + N + " 40 5",
           "symlink " + T + " " + S, "create " + L, "rename " + L + " " + A, "hw 0 256 30 4", "remount"};
    if (wide)
    {
        V more = {"setx " + A + " " + N2 + " 40 6", "rmx " + A + " " + N, "rename " + A + " " + L, "unlink " + L, "write " + L + " 0 300 1", "trunc " + A + " 600", "unlink " + S, "rename " + D + " " + D + "2",
                  "rename " + S + " " + D + S, "hflush 0", "ht 0 256", "close 0", "open " + A + " 0", "rmdir " + D, "mkdir " + L + "d", "create " + L + "d/" + B.substr(1)};
        r.insert(r.end(), more.begin(), more.end());
        if (c.full)
            r.push_back("link " + A + " " + D + "/Linked-Otter");
    }
    return r;
}
const V kStorageSetup = {"create " + A, "write " + A + " 0 400 1", "create " + B, "setx " + A + " user.Minute-Property 1 5", "setx " + B + " user.Minute-Property 1 5", "ocreate /Opened-Cormorant-File 0", "hw 0 0 600 7"};

// ---------------------------------------------------------------- C12: the real random generator
// One history in a process of its own, reporting everything random about the storage.
const V kRealOps = {"create " + A, "write " + A + " 0 700 1", "mkdir " + D, "create " + D + B, "write " + D + B + " 0 700 1", "setx " + A + " " + N + " 40 5", "create " + L, "write " + L + " 0 300 1"};
int real_child(const char* cfg, const char* dir)
{
    g_real_random = true;
    FsRun r(FsConfig::parse(cfg), dir, false);
    for (auto& op : kRealOps)
        r.step(op);
    r.close_all();
    r.m.reset();
    return 0;
}
std::string clean_dir(const std::string& name)
{
    std::string d = worker_dir() + "/" + name;
    reset_dir(d);
    return d;
}
void case_real(const std::string& cfgs)
{
    FsConfig cfg = FsConfig::parse(cfgs);
    g_secrets.clear();
    g_fresh.seen.clear();
    g_fresh.pieces.clear();
    g_fresh.paths.clear();
    g_fresh.attr_nonces.clear();
    g_fresh.repo = 0;
    for (auto& op : kRealOps)
        collect(op, cfg.plain);
    for (int k = 0; k < 3; ++k)
    {
        std::string d = clean_dir(fmt("real%d", k));
        pid_t p = fork();
        if (!p)
        {
            execl("/proc/self/exe", "priv", "--real-random", cfgs.c_str(), d.c_str(), (char*)nullptr);
            _exit(99);
        }
        int st;
        while (waitpid(p, &st, 0) != p)
            if (errno != EINTR)
                throw HarnessError("waitpid");
        if (!WIFEXITED(st) || WEXITSTATUS(st))
            fail("a process running the plain history ends with status %x", st);
        g_fresh.restart(cfg);
        auto im = load(d);
        search(im, "a process with the real random generator");
        g_fresh.step(im, "a process with the real random generator");
        count(kTransitions, kRealOps.size());
        if (distinct(hash_str(cfgs) + k))
            count(kNontrivial);
    }
}

// ---------------------------------------------------------------- C12: configuration files
const std::string kPw = "Passphrase-Tangerine-Osprey!", kPw2 = "Another-Cinnabar-Walrus-Phrase", kKey = "Keyfile-Contents-Basalt-Heron-0123456789-abcdefghij";
bool open_conf(const std::string& conf, const std::string& pw, const std::string& key, DecryptedSecurefsParams* out)
{
    MemStream ks;
    ks.buf = key;
    try
    {
        *out = securefs::decrypt(conf, {(const unsigned char*)pw.data(), pw.size()}, key.empty() ? nullptr : &ks);
        return true;
    }
    catch (const std::exception&)
    {
        return false;
    }
}
void add_keys(const DecryptedSecurefsParams& p)
{
    if (p.has_full_format_params())
        g_secrets.add(p.full_format_params().master_key(), "the master key");
    else
    {
        auto& l = p.lite_format_params();
        for (auto* k : {&l.name_key(), &l.content_key(), &l.xattr_key(), &l.padding_key()})
            g_secrets.add(*k, "a master key");
    }
}
struct FieldSet
{
    std::map<uint64_t, std::string> seen;
    void add(const std::string& v, const std::string& what)
    {
        std::set<uint64_t> mine;
        for (size_t i = 0; i + 8 <= v.size(); ++i)
            if (variety(&v[i], 8) < 4)
                fail("%s is not random: %s", what.c_str(), hex(v.data(), v.size()).c_str());
            else
            {
                mine.insert(load8(&v[i]));
                auto it = seen.find(load8(&v[i]));
                if (it != seen.end())
                    fail("%s and %s share eight bytes", what.c_str(), it->second.c_str());
            }
        for (auto x : mine)
            seen[x] = what;
    }
    // Salt, nonce and ciphertext of a configuration.
    void config(const std::string& conf, const std::string& what)
    {
        EncryptedSecurefsParams e;
        if (!e.ParseFromString(conf))
            fail("%s does not parse", what.c_str());
        if (e.salt().size() < 16)
            fail("the salt of %s is only %zu bytes", what.c_str(), e.salt().size());
        add(e.salt(), "the salt of " + what);
        add(e.iv(), "the nonce of " + what);
        add(e.ciphertext(), "the ciphertext of " + what);
        add(e.mac(), "the code of " + what);
    }
    void keys(const DecryptedSecurefsParams& p, const std::string& what)
    {
        if (p.has_full_format_params())
            add(p.full_format_params().master_key(), "the master key of " + what);
        else
        {
            auto& l = p.lite_format_params();
            add(l.name_key(), "the name key of " + what);
            add(l.content_key(), "the content key of " + what);
            add(l.xattr_key(), "the attribute key of " + what);
            add(l.padding_key(), "the padding key of " + what);
        }
    }
};
struct KeyMode
{
    const char* name;
    bool pw, key;
};
const KeyMode kModes[] = {{"password", true, false}, {"keyfile", false, true}, {"both", true, true}};
V secret_args(const KeyMode& m, const char* pwopt, const char* keyopt, const std::string& pw)
{
    V r;
    if (m.pw)
        r = r + V{pwopt, pw};
    if (m.key)
        r = r + V{keyopt, worker_dir() + "/the.key"};
    return r;
}
std::string effective(const KeyMode& m, const std::string& pw) { return m.pw ? pw : " "; }
// K|format|mode|newmode : the life of a configuration, each step scanned at every crash point
void case_config(const std::string& format, int mi, int ni)
{
    auto &m = kModes[mi], &n = kModes[ni];
    g_secrets.clear();
    g_secrets.add(kPw, "the password");
    g_secrets.add(kPw2, "the new password");
    g_secrets.add(kKey, "the key file");
    write_file(worker_dir() + "/the.key", kKey);
    FieldSet fs;
    auto run = [&](const V& args, int seed, int crash = -1)
    {
        CliOptions o;
        o.seed = seed * 10000019ull;
        o.crash = crash;
        count(kTransitions);
        return cli(args, o);
    };
    auto opt = [&](int k) { return clean_dir(fmt("conf%d", k)); };
    for (int k = 0; k < 2; ++k)
    {
        std::string d = opt(k), conf = d + "/.config.pb";
        V create = V{"create", "-f", format, d} + secret_args(m, "--pass", "--keyfile", kPw) + kCheap;
        auto r = run(create, 10 + k);
        if (!r.ok())
            fail("create fails: %s", r.err.substr(0, 200).c_str());
        DecryptedSecurefsParams p, q;
        if (!open_conf(read_file(conf), effective(m, kPw), m.key ? kKey : "", &p))
            fail("the created configuration does not open");
        add_keys(p);
        fs.keys(p, fmt("repository %d", k));
        fs.config(read_file(conf), fmt("the configuration of repository %d", k));
        search(load(d), "after create");
        // The same command killed on the way leaves nothing readable either.
        for (int c = 0; c < r.mutating; ++c)
        {
            reset_dir(d);
            run(create, 10 + k, c);
            search(load(d), fmt("create killed in its modifying call %d", c).c_str());
        }
        reset_dir(d);
        run(create, 10 + k);
        std::string before = read_file(conf);
        // To a new secret, and to the very same one again.
        V ch = V{"chpass", d} + secret_args(m, "--oldpass", "--oldkeyfile", kPw) + secret_args(n, "--newpass", "--newkeyfile", kPw2) + kCheap;
        r = run(ch, 20 + k);
        if (!r.ok())
            fail("chpass fails: %s", r.err.substr(0, 200).c_str());
        fs.config(read_file(conf), fmt("the changed configuration of repository %d", k));
        search(load(d), "after chpass");
        if (!open_conf(read_file(conf), effective(n, kPw2), n.key ? kKey : "", &q))
            fail("the changed configuration does not open");
        V again = V{"chpass", d} + secret_args(n, "--oldpass", "--oldkeyfile", kPw2) + secret_args(n, "--newpass", "--newkeyfile", kPw2) + kCheap;
        r = run(again, 30 + k);
        if (!r.ok())
            fail("chpass to the same secret fails: %s", r.err.substr(0, 200).c_str());
        fs.config(read_file(conf), fmt("the configuration of repository %d under the same secret again", k));
        write_file(conf, before);
        r = run(ch, 40 + k);
        for (int c = 0; c < r.mutating; ++c)
        {
            reset_dir(d);
            write_file(conf, before);
            run(ch, 40 + k, c);
            search(load(d), fmt("chpass killed in its modifying call %d", c).c_str());
        }
        // A mounted repository holds nothing else.
        reset_dir(d);
        write_file(conf, before);
        CliOptions o;
        o.seed = (50 + k) * 10000019ull;
        o.cfg.full = format == "full";
        o.cfg.threshold = 60;
        V ops = {"create " + A, "write " + A + " 0 700 1", "mkdir " + D, "symlink " + T + " " + D + S, "setx " + A + " " + N + " 40 5", "create " + L};
        for (auto& op : ops)
            collect(op, false);
        o.on_mount = [&](Mount& mnt)
        {
            FsRun fr(o.cfg, d, std::unique_ptr<Mount>(new Mount(mnt.ops, mnt.impl.get(), mnt.cfg)));
            for (auto& op : ops)
                fr.step(op);
            fr.close_all();
            fr.m.reset();
        };
        auto res = cli(V{"mount", d, worker_dir() + "/mnt"} + secret_args(m, "--pass", "--keyfile", kPw), o);
        if (!res.mounted)
            fail("mount fails: %s", res.err.substr(0, 200).c_str());
        search(load(d), "after a mount with the command");
        if (distinct(hash_str(format) + mi * 10 + ni * 100 + k * 1000))
            count(kNontrivial);
    }
}

// ---------------------------------------------------------------- C13
struct Call
{
    const char* name;
    int rc;
    long from, to;    // of the log
};
std::vector<Call> g_calls;
fuse_operations g_orig;
std::string g_log;
long log_size()
{
    NoHook nh;
    struct stat st;
    return g_log.empty() || stat(g_log.c_str(), &st) ? 0 : st.st_size;
}
template <int K, class F>
struct Tramp;
template <int K, class... X>
struct Tramp<K, int (*)(X...)>
{
    static inline const char* name;
    static inline int (*orig)(X...);
    static int f(X... x)
    {
        long a = log_size();
        int rc = orig(x...);
        g_calls.push_back({name, rc, a, log_size()});
        return rc;
    }
    static void install(int (*&p)(X...), const char* n)
    {
        if (!p || p == &f)
            return;
        name = n;
        orig = p;
        p = &f;
    }
};
void instrument(Mount& m)
{
#define T(f) Tramp<__COUNTER__, decltype(m.ops.f)>::install(m.ops.f, #f);
    T(getattr) T(fgetattr) T(opendir) T(readdir) T(releasedir) T(create) T(open) T(release) T(read) T(write) T(flush) T(ftruncate) T(unlink) T(mkdir) T(rmdir) T(chmod)
    T(chown) T(symlink) T(link) T(readlink) T(rename) T(fsync) T(truncate) T(utimens) T(listxattr) T(getxattr) T(setxattr) T(removexattr) T(statfs)
#undef T
}
// Everything an observer could turn the log's text back into.
std::string unescape(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] != '\\' || i + 1 >= s.size())
        {
            r += s[i];
            continue;
        }
        char c = s[++i];
        static const char from[] = "ntrabfv", to[] = "\n\t\r\a\b\f\v";
        if (auto* p = strchr(from, c); p && c)
            r += to[p - from];
        else if (c == 'x')
        {
            int v = 0, k = 0;
            while (k < 2 && i + 1 < s.size() && isxdigit(s[i + 1]))
                v = v * 16 + (s[++i] <= '9' ? s[i] - '0' : (s[i] | 32) - 'a' + 10), ++k;
            r += (char)v;
        }
        else if (c >= '0' && c <= '7')
        {
            int v = c - '0', k = 1;
            while (k < 3 && i + 1 < s.size() && s[i + 1] >= '0' && s[i + 1] <= '7')
                v = v * 8 + s[++i] - '0', ++k;
            r += (char)v;
        }
        else
            r += c;
    }
    return r;
}
// Bytes listed as numbers, decimal or hexadecimal, with anything but letters and digits in between.
std::string numbers(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size();)
    {
        if (!isalnum((uint8_t)s[i]))
        {
            ++i;
            continue;
        }
        size_t j = i;
        while (j < s.size() && isalnum((uint8_t)s[j]))
            ++j;
        std::string t = s.substr(i, j - i);
        char* e;
        long v = strtol(t.c_str(), &e, t.size() == 2 || t.compare(0, 2, "0x") == 0 ? 16 : 10);
        if (!*e && v >= 0 && v < 256)
            r += (char)v;
        else
            r += '\0';
        i = j;
    }
    return r;
}
std::string decimals(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size();)
    {
        if (!isdigit((uint8_t)s[i]))
        {
            ++i;
            continue;
        }
        long v = 0;
        while (i < s.size() && isdigit((uint8_t)s[i]))
            v = std::min(v * 10 + s[i++] - '0', 100000l);
        r += v < 256 ? (char)v : '\0';
    }
    return r;
}
void search_log(const std::string& log, const char* where)
{
    for (auto& t : {log, unescape(log), numbers(log), decimals(log)})
    {
        auto r = g_secrets.find(t);
        if (!r.empty())
        {
            // Which line?
            std::string line;
            for (auto& l : split(log, '\n'))
                if (!g_secrets.find(l).empty() || !g_secrets.find(unescape(l)).empty() || !g_secrets.find(numbers(l)).empty())
                {
                    line = l;
                    break;
                }
            fail("%s reveals %s in: %s", where, r.c_str(), cescape(line.substr(0, 400)).c_str());
        }
    }
}
const char* const kLevels[] = {"trace", "verbose", "info", "warning", "error", "off"};
void start_log(int level)
{
    securefs::global_logger.reset();
    g_log.clear();
    if (level == 5)
        return;
    g_log = worker_dir() + "/the.log";
    NoHook nh;
    unlink(g_log.c_str());
    securefs::global_logger = securefs::Logger::create_file_logger(g_log);
    securefs::global_logger->set_level((securefs::LoggingLevel)level);
}
std::string stop_log()
{
    securefs::global_logger.reset();
    NoHook nh;
    return g_log.empty() ? "" : read_file(g_log);
}
// What the log says about every call that was made.
void judge_calls(const std::string& log, int level)
{
    for (auto& c : g_calls)
    {
        std::string t = log.substr(std::min<size_t>(c.from, log.size()), c.to - c.from);
        static const std::string key = "return code ";
        int n = 0;
        for (size_t i = t.find(key); i != std::string::npos; i = t.find(key, i + 1))
        {
            ++n;
            long v = strtol(t.c_str() + i + key.size(), nullptr, 10);
            if (v != c.rc)
                fail("%s returns %d but the log says %ld: %s", c.name, c.rc, v, cescape(t.substr(0, 600)).c_str());
        }
        if (level != 0)
            continue;
        if (n != 1)
            fail("with tracing on, the log gives %d results for one call of %s: %s", n, c.name, cescape(t.substr(0, 600)).c_str());
        if (t.find(std::string("[") + c.name + ":") == std::string::npos)
            fail("with tracing on, the log does not name a call of %s: %s", c.name, cescape(t.substr(0, 600)).c_str());
    }
}
// Calls carrying buffers, in every way that succeeds or fails.
std::string battery(Mount& m, const V& paths, FsConfig& cfg)
{
    std::string r;
    auto note = [&](int rc, const std::string& out = "")
    {
        r += fmt("%d:%zu:%llx ", rc, out.size(), (unsigned long long)hash_str(out));
    };
    std::string buf;
    for (auto& p : paths)
    {
        for (auto& n : {N, N2, std::string("user.absent")})
        {
            buf.clear();
            note(m.getxattr(p, n, &buf, 0, true));
            buf.clear();
            note(m.getxattr(p, n, &buf, 8, false), buf);
            buf.clear();
            note(m.getxattr(p, n, &buf, 40, false), buf);
            buf.clear();
            note(m.getxattr(p, n, &buf, 300, false), buf);
        }
        char lb[512];
        memset(lb, 0, sizeof lb);
        note(m.listxattr_raw(p, nullptr, 0));
        note(m.listxattr_raw(p, lb, 8));
        int k = m.listxattr_raw(p, lb, sizeof lb);
        note(k, std::string(lb, std::max(k, 0)));
        g_secrets.add(pattern(61, 40), "an attribute value that was not accepted");
        note(m.setxattr(p, N, pattern(61, 40), 1));                 // exists already, or not
        note(m.setxattr(p, "user.absent", pattern(61, 40), 2));     // is not there
        note(m.removexattr(p, "user.absent"));
        uint64_t h = 0;
        int rc = m.open(p, O_RDWR, &h);
        note(rc);
        if (rc == 0)
        {
            buf.clear();
            note(m.read(p, h, &buf, 1000, 0), buf);
            buf.clear();
            note(m.read(p, h, &buf, 50, 20), buf);
            buf.clear();
            note(m.read(p, h, &buf, 50, 100000), buf);
            g_secrets.add(pattern(62, 90, 5), "file contents");
            note(m.write(p, h, pattern(62, 90, 5), 5));
            note(m.fsync(p, h));
            note(m.release(p, h));
        }
        buf.clear();
        rc = m.readlink(p, &buf);
        note(rc);
        struct stat st;
        note(m.getattr(p, &st));
        std::vector<DirEnt> e;
        note(m.readdir(p, &e));
    }
    struct statvfs sv;
    note(m.statfs("/", &sv) < 0);
    return r;
}
struct LogRun
{
    std::string log, results, storage;
    std::vector<Call> calls;
};
// The order in which a full-format mount writes its files at the end is not fixed: only their sizes.
std::string digest(const std::string& dir, bool full)
{
    auto im = load(dir);
    uint64_t h = 0;
    for (auto& [p, id] : im.by_path)
    {
        auto& x = im.pieces.at(id);
        if (!own_file(p.substr(p.rfind('/') + 1)))
            h = h * 1000003 + hash_str(p) * 31 + (full ? x.bytes.size() : hash_str(x.bytes));
    }
    for (auto& [id, x] : im.pieces)
        if (x.kind == 'x')
            h += hash_str(x.where) * 7 + (full ? x.bytes.size() : hash_str(x.bytes));
    return fmt("%llx", (unsigned long long)h);
}
LogRun logged(const FsConfig& cfg, int level, const V& ops)
{
    g_quiet = false;
    g_calls.clear();
    g_virtual_now_ns = 1700000000ll * 1000000000;
    reseed(7);
    LogRun lr;
    std::string dir = worker_dir() + "/fs";
    start_log(level);
    {
        FsRun r(cfg, dir);
        r.model.now = g_virtual_now_ns;
        r.dopt.xattr = cfg.xattr;
        for (auto& op : ops)
        {
            instrument(*r.m);
            auto w = split(op, ' ');
            if (w[0] == "setx")
                g_secrets.add(pattern(atoi(w[4].c_str()), atoi(w[3].c_str())), "an attribute value");
            if (w[0] == "write" || w[0] == "hw")
                g_secrets.add(pattern(atoi(w[4].c_str()), atoi(w[3].c_str()), atoi(w[2].c_str())), "file contents");
            lr.results += fmt("%d ", r.step(op));
        }
        instrument(*r.m);
        r.compare("at the end");
        lr.results += battery(*r.m, {A, B, D, S, "/Absent-File"}, r.cfg);
        r.close_all();
        r.m.reset();
    }
    lr.log = stop_log();
    lr.calls = g_calls;
    for (auto& c : g_calls)
        lr.results += fmt("%s=%d ", c.name, c.rc);
    lr.storage = digest(dir, cfg.full);
    return lr;
}
const V kLogCfgs = {"full:b64:t60", "lite:b64:t60", "lite:b64:plain", "full:b64:time:ci", "lite:b64:noxattr", "lite:b64:nfc:fold:p20:t60", "full:b64:sens", "lite:b64:t60:sens", "full:b64:noverify:uni"};
V log_alphabet(const FsConfig& c)
{
    V r = {"write " + A + " 0 100 1", "write " + B + " 30 200 2", "read " + A + " 0 100", "create " + B, "create " + A, "unlink " + A, "mkdir " + D, "rmdir " + D, "rename " + A + " " + B, "rename " + A + " " + D + A,
           "symlink " + T + " " + S, "trunc " + A + " 50", "chmod " + A + " 600", "utimens " + A, "ls /", "ls " + D, "hw 0 0 80 9", "hr 0 0 80", "ht 0 20", "hflush 0", "hsync 0", "close 0", "create " + L, "write " + L + " 0 90 3"};
    if (c.xattr)
        for (auto& x : V{"setx " + A + " " + N + " 40 5", "setx " + A + " " + N2 + " 60 6", "setx " + B + " " + N + " 40 7 1", "setx " + A + " " + N + " 40 8 2", "rmx " + A + " " + N, "setx " + D + " " + N + " 50 9"})
            r.push_back(x);
    if (c.full)
        r.push_back("link " + A + " " + D + "/Linked-Otter");
    return r;
}
const V kLogSetup = {"create " + A, "write " + A + " 0 150 11", "ocreate /Opened-Cormorant-File 0", "hw 0 0 70 12"};
// The lines of a log without what differs from run to run: addresses, the storage's own times and
// inode numbers.
V comparable(const std::string& log)
{
    static const std::regex noise("(0x)+[0-9a-fA-F]+|[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9:.+-]*|st_(ino|blocks)=[0-9]+");
    V r;
    for (auto& l : split(log, '\n'))
        r.push_back(l.find("statfs:") == std::string::npos ? std::regex_replace(l, noise, "~") : "statfs");
    return r;
}
void case_log(const std::string& cfgs, int level, const V& ops)
{
    FsConfig cfg = FsConfig::parse(cfgs);
    g_secrets.clear();
    auto base = logged(cfg, 5, ops);
    auto check = [&](int l)
    {
        auto r = logged(cfg, l, ops);
        if (!cfg.sensitive)
            search_log(r.log, fmt("the log at level %s", kLevels[l]).c_str());
        g_calls = r.calls;
        judge_calls(r.log, l);
        if (r.results != base.results)
            fail("with the log at level %s the results are not the same: %s against %s", kLevels[l], r.results.c_str(), base.results.c_str());
        if (r.storage != base.storage)
            fail("with the log at level %s the storage is not the same", kLevels[l]);
        if (l == 0 && r.log.size() < 100)
            fail("with tracing on, nothing is logged");
        if (!cfg.sensitive)
        {
            // Nothing in the log depends on the bytes.
            g_pattern_shift = 1000;
            auto other = logged(cfg, l, ops);
            g_pattern_shift = 0;
            auto x = comparable(r.log), y = comparable(other.log);
            if (x != y)
            {
                // What runs with the same bytes do not agree on tells nothing.
                V x2, y2;
                auto masked = [&](V& x, bool shifted)
                {
                    for (int k = 0; k < 3; ++k)
                    {
                        g_pattern_shift = shifted ? 1000 : 0;
                        auto again = comparable(logged(cfg, l, ops).log);
                        again.resize(x.size());
                        for (size_t i = 0; i < x.size(); ++i)
                            if (again[i] != x[i])
                                x[i].clear();
                    }
                    g_pattern_shift = 0;
                };
                masked(x, false);
                masked(y, true);
                for (size_t i = 0; i < std::max(x.size(), y.size()); ++i)
                {
                    std::string none = "(nothing)", a = i < x.size() ? x[i] : none, b = i < y.size() ? y[i] : none;
                    if (a != b && !a.empty() && !b.empty())
                        fail("the log at level %s depends on the contents: %s or else %s", kLevels[l], cescape(a.substr(0, 400)).c_str(), cescape(b.substr(0, 400)).c_str());
                }
            }
        }
        count(kTransitions, r.calls.size());
        if (distinct(hash_str(r.results) + l * 7919 + hash_str(cfgs)))
            count(kNontrivial);
    };
    check(level);
}
// One stored byte is wrong.
const V kDamageOps = {"create " + A, "write " + A + " 0 300 1", "mkdir " + D, "create " + D + B, "write " + D + B + " 0 100 2", "setx " + A + " " + N + " 40 5", "symlink " + T + " " + S};
std::map<std::string, std::pair<std::string, V>> g_damage;    // cfg -> directory, files
const std::pair<std::string, V>& damage_base(const std::string& cfgs)
{
    auto it = g_damage.find(cfgs);
    if (it != g_damage.end())
        return it->second;
    FsConfig cfg = FsConfig::parse(cfgs);
    reseed(7);
    std::string dir = worker_dir() + fmt("/dmg%zu", g_damage.size());
    g_quiet = true;
    FsRun r(cfg, dir);
    for (auto& op : kDamageOps)
        if (cfg.xattr || op.compare(0, 4, "setx"))
            r.step(op);
    r.close_all();
    r.m.reset();
    V files;
    for (auto& f : list_storage(dir))
    {
        struct stat st;
        if (!own_file(f.substr(f.rfind('/') + 1)) && lstat((dir + "/" + f).c_str(), &st) == 0 && S_ISREG(st.st_mode))
            files.push_back(f);
    }
    std::sort(files.begin(), files.end());
    return g_damage[cfgs] = {dir, files};
}
void case_damage(const std::string& cfgs, int level, size_t file, long off)
{
    auto& b = damage_base(cfgs);
    FsConfig cfg = FsConfig::parse(cfgs);
    std::string dir = worker_dir() + "/fs";
    {
        NoHook nh;
        reset_dir(dir);
        copy_tree(b.first, dir);
        std::string p = dir + "/" + b.second.at(file), d = read_file(p);
        if (off < 0)
        {
            // an attribute of it
            std::string l(4096, 0);
            ssize_t k = listxattr(p.c_str(), &l[0], l.size());
            for (ssize_t i = 0; i < k; i += strlen(&l[i]) + 1)
            {
                std::string v(4096, 0);
                ssize_t m = getxattr(p.c_str(), &l[i], &v[0], v.size());
                if (m > -off - 1)
                {
                    v.resize(m);
                    v[-off - 1] ^= 1;
                    setxattr(p.c_str(), &l[i], v.data(), v.size(), 0);
                }
            }
        }
        else
        {
            if ((size_t)off >= d.size())
                return;
            d[off] ^= 1;
            write_file(p, d);
        }
    }
    g_secrets.clear();
    for (auto& op : kDamageOps)
    {
        auto w = split(op, ' ');
        if (w[0] == "setx")
            g_secrets.add(pattern(atoi(w[4].c_str()), atoi(w[3].c_str())), "an attribute value");
        if (w[0] == "write")
            g_secrets.add(pattern(atoi(w[4].c_str()), atoi(w[3].c_str()), atoi(w[2].c_str())), "file contents");
    }
    g_quiet = false;
    g_calls.clear();
    start_log(level);
    std::string results;
    try
    {
        Mount m(dir, cfg);
        instrument(m);
        DumpOptions o;
        o.xattr = cfg.xattr;
        o.tolerate_errors = true;
        try
        {
            dump_tree(m, o);
        }
        catch (const Failure&)
        {
        }
        results = battery(m, {A, D + B, D, S}, cfg);
    }
    catch (const Failure&)
    {
        throw;
    }
    catch (const HarnessError&)
    {
        throw;
    }
    catch (const std::exception&)
    {
        // The repository is refused altogether.
    }
    auto log = stop_log();
    search_log(log, fmt("the log at level %s of a damaged repository", kLevels[level]).c_str());
    judge_calls(log, level);
    count(kTransitions, g_calls.size());
    if (distinct(hash_str(results) + level * 7919 + hash_str(cfgs) + file * 131))
        count(kNontrivial);
}
const V kDamageCfgs = {"full:b64", "lite:b64:t60", "lite:b64:t60:p20", "full:b64:time:noverify", "lite:b64:noverify"};

// The mount command
void case_mount_log(const std::string& format, const std::string& flags)
{
    std::string d = clean_dir("mlog"), log = worker_dir() + "/mount.log";
    {
        NoHook nh;
        unlink(log.c_str());
    }
    CliOptions o;
    auto r = cli(V{"create", "-f", format, d, "--pass", kPw} + kCheap, o);
    if (!r.ok())
        fail("create fails: %s", r.err.substr(0, 200).c_str());
    bool sens = flags.find('s') != std::string::npos, file = flags.find('f') != std::string::npos;
    int level = flags.find('t') != std::string::npos ? 0 : flags.find('v') != std::string::npos ? 1 : 2;
    V args = {"mount", d, worker_dir() + "/mnt", "--pass", kPw};
    if (level == 0)
        args.push_back("--trace");
    if (level == 1)
        args.push_back("--verbose");
    if (sens)
        args.push_back("--allow-sensitive-logging");
    if (file)
        args = args + V{"--log", log};
    V ops = {"create " + A, "write " + A + " 0 150 1", "read " + A + " 0 100", "setx " + A + " " + N + " 40 5", "mkdir " + D, "symlink " + T + " " + S};
    g_secrets.clear();
    for (auto& op : ops)
    {
        auto w = split(op, ' ');
        if (w[0] == "setx")
            g_secrets.add(pattern(atoi(w[4].c_str()), atoi(w[3].c_str())), "an attribute value");
        if (w[0] == "write")
            g_secrets.add(pattern(atoi(w[4].c_str()), atoi(w[3].c_str()), atoi(w[2].c_str())), "file contents");
    }
    g_secrets.add(pattern(61, 40), "an attribute value that was not accepted");
    g_secrets.add(pattern(62, 90, 5), "file contents");
    if (!sens)
        g_secrets.add(kPw, "the password");
    o.cfg.full = format == "full";
    int calls = 0;
    o.on_mount = [&](Mount& mnt)
    {
        g_log = file ? log : worker_dir() + "/cli.err";
        instrument(mnt);
        FsRun fr(o.cfg, d, std::unique_ptr<Mount>(new Mount(mnt.ops, mnt.impl.get(), mnt.cfg)));
        for (auto& op : ops)
            fr.step(op);
        battery(*fr.m, {A, D, S, "/Absent-File"}, fr.cfg);
        fr.close_all();
        fr.m.reset();
        std::string t = read_file(g_log);
        judge_calls(t, level);
        if (level == 0 && g_calls.empty())
            throw HarnessError("no calls recorded");
    };
    auto res = cli(args, o);
    (void)calls;
    if (!res.mounted)
        fail("mount fails: %s", res.err.substr(0, 200).c_str());
    if (file && !file_exists(log))
        fail("--log makes no log");
    for (auto& t : {res.out, res.err, file ? read_file(log) : std::string()})
        if (!sens)
            search_log(t, "the log of a mount command");
    count(kTransitions);
    if (distinct(hash_str(format + flags)))
        count(kNontrivial);
}

// ---------------------------------------------------------------- dispatch
V ops_of(const std::string& s) { return s.empty() ? V{} : split(s, ';'); }
void run_case(const std::string& c)
{
    auto f = split(c, '|');
    if (f[0] == "S")
    {
        auto ops = ops_of(f.at(2));
        case_storage(f.at(1), ops, f.size() > 3);
    }
    else if (f[0] == "R")
        case_real(f.at(1));
    else if (f[0] == "K")
        case_config(f.at(1), atoi(f.at(2).c_str()), atoi(f.at(3).c_str()));
    else if (f[0] == "L")
        case_log(f.at(1), atoi(f.at(2).c_str()), ops_of(f.at(3)));
    else if (f[0] == "X")
        case_damage(f.at(1), atoi(f.at(2).c_str()), atoi(f.at(3).c_str()), atol(f.at(4).c_str()));
    else if (f[0] == "M")
        case_mount_log(f.at(1), f.at(2));
    else
        throw HarnessError("bad case " + c);
}
void one(const std::string& c)
{
    begin_case(c);
    guarded(c, [&] { run_case(c); });
    sample(c);
    count(kEval);
}
}    // namespace

int main(int argc, char** argv)
{
    if (argc == 4 && !strcmp(argv[1], "--real-random"))
    {
        umask(0);
        return real_child(argv[2], argv[3]);
    }
    CheckDef d;
    d.worker_init = [] { umask(0); };
    d.rule = "an execution counts as non-trivial when its results and the shape of what it stored (or logged, per level) differ from every other execution of this run";
    d.run_case = run_case;
    d.shards = []
    {
        std::vector<Shard> sh;
        std::string note;
        bool th = g_args.thorough();
        if (g_args.prop == "C12")
        {
            for (auto& f : {"full", "lite"})
                for (int m = 0; m < 3; ++m)
                    for (int n = 0; n < 3; ++n)
                        sh.push_back({"configurations", [=] { one(fmt("K|%s|%d|%d", f, m, n)); }});
            for (size_t i = 0; i < kStorageCfgs.size(); ++i)
                sh.push_back({"real randomness", [=] { one("R|" + kStorageCfgs[i]); }});
            for (size_t i = 0; i < kStorageCfgs.size(); ++i)
            {
                auto cfgs = kStorageCfgs[i];
                FsConfig cfg = FsConfig::parse(cfgs);
                // A broad alphabet for short histories, a narrower one for longer ones.
                for (int pass = 0; pass < 2; ++pass)
                {
                    auto al = storage_alphabet(cfg, pass == 0);
                    int depth = pass == 0 ? (th ? 3 : 2) : th ? 4 : 3;
                    if (!depth)
                        continue;
                    note += fmt("[%s: %zu operations after %zu, depth %d] ", cfgs.c_str(), al.size(), kStorageSetup.size(), depth);
                    for (size_t a = 0; a < al.size(); ++a)
                        sh.push_back({cfgs,
                                      [=]
                                      {
                                          SeqEnum e;
                                          e.cfg = cfg;
                                          e.setup = kStorageSetup;
                                          e.alphabet = al;
                                          e.depth = depth;
                                          e.max_fail = 0;
                                          e.first = a;
                                          e.f = [&](const V& ops)
                                          {
                                              bool twice = ops.size() <= kStorageSetup.size() + 1;
                                              count(kTransitions, ops.size());
                                              one("S|" + cfgs + "|" + join_ops(ops) + (twice ? "|2" : ""));
                                          };
                                          e.run();
                                      }});
                }
            }
        }
        else
        {
            for (auto& f : {"full", "lite"})
                for (auto& fl : V{"", "v", "t", "tf", "vf", "f", "tsf", "ts"})
                    sh.push_back({"mount command", [=] { one(std::string("M|") + f + "|" + fl); }});
            for (auto& cfgs : kDamageCfgs)
                for (int l : {0, 1, 4})
                    for (int part = 0; part < 4; ++part)
                        sh.push_back({"damaged repositories",
                                      [=]
                                      {
                                          auto& b = damage_base(cfgs);
                                          int stride = th ? 1 : l == 0 ? 3 : 11;
                                          for (size_t f = 0; f < b.second.size(); ++f)
                                          {
                                              long n = read_file(b.first + "/" + b.second[f]).size();
                                              for (long o = part * stride; o < n; o += 4 * stride)
                                                  one(fmt("X|%s|%d|%zu|%ld", cfgs.c_str(), l, f, o));
                                              for (long o = -1 - part * 9; o > -70; o -= 36)
                                                  one(fmt("X|%s|%d|%zu|%ld", cfgs.c_str(), l, f, o));
                                          }
                                      }});
            for (size_t i = 0; i < kLogCfgs.size(); ++i)
            {
                auto cfgs = kLogCfgs[i];
                FsConfig cfg = FsConfig::parse(cfgs);
                auto al = log_alphabet(cfg);
                for (int l = 0; l < 5; ++l)
                {
                    int depth = th ? (l == 0 ? 3 : 2) : l == 0 ? 2 : l == 1 && i < 2 ? 2 : 1;
                    note += fmt("[%s at %s: %zu operations after %zu, depth %d] ", cfgs.c_str(), kLevels[l], al.size(), kLogSetup.size(), depth);
                    for (size_t a = 0; a < al.size(); ++a)
                        sh.push_back({cfgs,
                                      [=]
                                      {
                                          SeqEnum e;
                                          e.cfg = cfg;
                                          e.setup = kLogSetup;
                                          e.alphabet = al;
                                          e.depth = depth;
                                          e.max_fail = depth;
                                          e.first = a;
                                          e.f = [&](const V& ops) { one(fmt("L|%s|%d|", cfgs.c_str(), l) + join_ops(ops)); };
                                          e.run();
                                      }});
                }
            }
        }
        set_bounds_note(note);
        return sh;
    };
    d.extra_coverage = [] { return V{fmt("\"operations_executed\":%lld", (long long)counter(kTransitions))}; };
    d.assumptions = {
        "a secret counts as revealed when six consecutive bytes of it are found as they are, regardless of case, or in hexadecimal, base64 or base32 (nine or ten bytes for the latter two)",
        "operations reach the file system as the Linux kernel and libfuse pass them",
        "the strength of the ciphers, key derivation functions and of the system's random generator itself is not examined",
    };
    return check_main(argc, argv, d);
}
