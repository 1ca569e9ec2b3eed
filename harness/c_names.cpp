// The translation between the names users see and the names stored (C14).
//  T|<translator>|<hex name>             one name: legal stored form, round trip, depends on the key
//  I|<translator>|<hex name>|<hex name>  two names: same stored form exactly when equivalent
//  P|<translator>|<hex path>             a path is the sequence of its components
//  L|<translator>|<hex target>           a link target survives the round trip
//  R|<translator>|<hex stored>           a stored name which is not a genuine encryption is refused
//  D|<cfg>|<hex name>,<hex name>...      a directory of a mounted file system with all these names
//  W|<cfg>|<length>                      a mounted file system: a name of this length
#include "judge.h"
#include "lite_format.h"
#include "model.h"
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <unordered_map>
#include <unistd.h>

using namespace vf;
using namespace securefs;
using namespace securefs::lite_format;
namespace
{
using V = std::vector<std::string>;
std::string unhex(const std::string& h)
{
    std::string r;
    for (size_t i = 0; i + 1 < h.size(); i += 2)
        r.push_back(char(strtol(h.substr(i, 2).c_str(), nullptr, 16)));
    return r;
}
std::string hx(const std::string& s) { return hex(s.data(), s.size()); }

struct Forms
{
    std::string nfc, fold, nfc_fold;
};
std::unordered_map<std::string, Forms> g_forms;
V g_names;     // all of the table, shortest first
V g_raw;       // names which need not be text

// Translator descriptions: l (legacy), n<threshold>[s<suffix>], x (none); then +f fold, +c nfc, +k other key
struct Tr
{
    std::string desc;
    bool legacy = false, none = false, fold = false, nfc = false, other_key = false;
    unsigned threshold = 0;
    std::string suffix;
    std::shared_ptr<NameTranslator> t;
};
Tr parse_tr(const std::string& d)
{
    Tr r;
    r.desc = d;
    auto w = split(d, '+');
    if (w[0] == "l")
        r.legacy = true;
    else if (w[0] == "x")
        r.none = true;
    else
    {
        auto s = w[0].find('s');
        r.threshold = atoi(w[0].substr(1, s == std::string::npos ? s : s - 1).c_str());
        if (s != std::string::npos)
            r.suffix = w[0].substr(s + 1);
    }
    for (size_t i = 1; i < w.size(); ++i)
    {
        r.fold |= w[i] == "f";
        r.nfc |= w[i] == "c";
        r.other_key |= w[i] == "k";
    }
    key_type key;
    for (size_t i = 0; i < key.size(); ++i)
        key.data()[i] = (unsigned char)(i * 37 + 11 + (r.other_key && i == 5));
    NameNormalizationFlags f{};
    f.no_op = r.none;
    f.should_case_fold = r.fold;
    f.should_normalize_nfc = r.nfc;
    f.long_name_threshold = r.threshold;
    f.long_name_suffix = r.suffix;
    r.t = make_name_translator(f, StrongType<key_type, tNameMasterKey>(key));
    return r;
}
Tr& tr(const std::string& d)
{
    static std::map<std::string, Tr> cache;
    auto it = cache.find(d);
    return it != cache.end() ? it->second : cache.emplace(d, parse_tr(d)).first->second;
}
std::string canon(const Tr& t, const std::string& n)
{
    if (t.none || (!t.fold && !t.nfc))
        return n;
    auto it = g_forms.find(n);
    if (it == g_forms.end())
    {
        // Long names in the checks are repetitions of pieces whose forms do not interact.
        std::string r;
        for (size_t i = 0; i < n.size();)
        {
            size_t k = 1;
            while (i + k < n.size() && (n[i + k] & 0xc0) == 0x80)
                ++k;
            auto p = g_forms.find(n.substr(i, k));
            if (p == g_forms.end())
            {
                r += t.fold ? std::string(1, (char)tolower(n[i])) : n.substr(i, k);
            }
            else
                r += t.fold ? (t.nfc ? p->second.nfc_fold : p->second.fold) : p->second.nfc;
            i += k;
        }
        return r;
    }
    return t.fold ? (t.nfc ? it->second.nfc_fold : it->second.fold) : it->second.nfc;
}
// The stored form of one name in the root directory.
std::string stored(const Tr& t, const std::string& n, std::string* full = nullptr)
{
    std::string out;
    auto p = t.t->encrypt_full_path("/" + n, &out);
    if (full)
        *full = out;
    if (p.compare(0, 2, "./") == 0)
        p.erase(0, 2);
    while (!p.empty() && p[0] == '/')
        p.erase(0, 1);
    return p;
}
std::string decoded(const Tr& t, const std::string& s)
{
    auto v = t.t->decrypt_path_component(s);
    if (auto* p = std::get_if<std::string>(&v))
        return *p;
    return std::holds_alternative<LongNameTag>(v) ? "\1LONG" : "\1BAD";
}
bool fits(const Tr& t, const std::string& c)
{
    return t.none ? c.size() <= 255 : t.threshold && c.size() > t.threshold ? true : (c.size() + 16) * 8 <= 255 * 5;
}
void check_name(const Tr& t, const std::string& n)
{
    std::string full, c = canon(t, n), s = stored(t, n, &full);
    if (s.empty() || s.find('/') != std::string::npos || s.find('\0') != std::string::npos)
        fail("the stored form of %s, %s, is not one file name", cescape(n).c_str(), cescape(s).c_str());
    if (fits(t, c) && s.size() > 255)
        fail("the stored form of a name of %zu bytes has %zu bytes", n.size(), s.size());
    if (!t.none && s[0] == '.')
        fail("the stored form of %s, %s, is a name the repository keeps for itself", cescape(n).c_str(), cescape(s).c_str());
    if (s != stored(t, n))
        fail("the stored form of %s changes", cescape(n).c_str());
    bool lng = t.threshold && c.size() > t.threshold;
    if (lng)
    {
        if (decoded(t, s) != "\1LONG")
            fail("the stored form of the long name %s is not recognized as one", cescape(n).c_str());
        if (decoded(t, full) != c)
            fail("the table entry of the long name %s decodes to %s", cescape(n).c_str(), cescape(decoded(t, full)).c_str());
    }
    else
    {
        if (!full.empty())
            fail("the short name %s gets a table entry", cescape(n).c_str());
        auto d = decoded(t, s);
        if (d != c)
            fail("%s decodes to %s", cescape(n).c_str(), cescape(d).c_str());
    }
    if (!t.none && !t.other_key)
    {
        auto& o = tr(t.desc + "+k");
        if (stored(o, n) == s)
            fail("the stored form of %s does not depend on the key", cescape(n).c_str());
        bool refused;
        try
        {
            auto d = decoded(o, s);
            refused = d == "\1BAD" || d == "\1LONG";
        }
        catch (const std::exception&)
        {
            refused = true;
        }
        if (!refused)
            fail("the stored form of %s under another key is accepted", cescape(n).c_str());
    }
    if (!t.none && s.find(n) != std::string::npos && n.size() > 3)
        fail("the stored form of %s contains it", cescape(n).c_str());
}
void check_pair(const Tr& t, const std::string& a, const std::string& b)
{
    bool same = canon(t, a) == canon(t, b), st = stored(t, a) == stored(t, b);
    if (same != st)
        fail("%s and %s are %s but have %s stored form", cescape(a).c_str(), cescape(b).c_str(), same ? "equivalent" : "different", st ? "the same" : "a different");
}
void check_path(const Tr& t, const std::string& p)
{
    std::string last, want, want_last;
    auto got = t.t->encrypt_full_path(p, &last);
    for (auto& c : split(p.substr(1), '/'))
        want += "/" + stored(t, c, &want_last);
    auto norm = [](std::string s)
    {
        if (s.compare(0, 2, "./") == 0)
            s.erase(0, 2);
        while (!s.empty() && s[0] == '/')
            s.erase(0, 1);
        return s;
    };
    if (norm(got) != norm(want) || last != want_last)
        fail("the stored path of %s is not made of the stored forms of its components", cescape(p).c_str());
    if (got.empty() || got[0] == '/')
        fail("the stored path of %s leaves the repository", cescape(p).c_str());
}
void check_root(const Tr& t)
{
    std::string last;
    auto got = t.t->encrypt_full_path("/", &last);
    while (got.size() > 1 && got.back() == '/')
        got.pop_back();
    if (got != "." || !last.empty())
        fail("the stored path of the root is %s", cescape(got).c_str());
}
void check_target(const Tr& t, const std::string& x)
{
    auto s = t.t->encrypt_path_for_symlink(x);
    if (s.find('\0') != std::string::npos || (s.empty() && !x.empty()))
        fail("the stored form of the target %s is not a legal target", cescape(x).c_str());
    auto d = t.t->decrypt_path_from_symlink(s);
    if (d != x)
        fail("the target %s comes back as %s", cescape(x.substr(0, 40)).c_str(), cescape(d.substr(0, 40)).c_str());
    if (!t.none && x.find("Bb") != std::string::npos && s.find(x) != std::string::npos)
        fail("the stored form of the target %s contains it", cescape(x.substr(0, 40)).c_str());
    if (!t.none && x.size() > 1 && !t.other_key && t.t->encrypt_path_for_symlink(x) != s)
        fail("the stored form of a target changes");
}
// Canonical base 32, upper case, without the bits past the last whole byte.
std::string b32_bytes(const std::string& s, bool* ok)
{
    std::string r;
    unsigned acc = 0, bits = 0;
    *ok = true;
    for (char ch : s)
    {
        int v = -1;
        const char* A = "ABCDEFGHIJKMNPQRSTUVWXYZ23456789";
        const char* p = ch ? strchr(A, toupper((unsigned char)ch)) : nullptr;
        if (p)
            v = int(p - A);
        if (v < 0)
        {
            *ok = false;
            return r;
        }
        acc = acc << 5 | v;
        bits += 5;
        if (bits >= 8)
        {
            bits -= 8;
            r.push_back(char(acc >> bits));
            acc &= (1u << bits) - 1;
        }
    }
    return r;
}
void check_refused(const Tr& t, const std::string& s)
{
    std::string d;
    try
    {
        d = decoded(t, s);
    }
    catch (const std::exception&)
    {
        return;
    }
    if (d == "\1BAD" || d == "\1LONG")
        return;
    if (t.threshold && d.size() == 32 && decoded(t, s + t.suffix) == "\1LONG" && s.size() == 77)
        fail("the stored form of a long name, cut of its suffix, is shown as a name");
    // Accepted: it has to be the encryption of that very name, spelled in the stored alphabet.
    auto& plain = tr(t.legacy ? "l" : fmt("n%u", 60000));
    auto g = stored(plain, d);
    bool ok1, ok2;
    if (b32_bytes(g, &ok1) != b32_bytes(s, &ok2) || !ok1 || !ok2)
        fail("the stored name %s, which is not a genuine encryption, is shown as %s", cescape(s).c_str(), cescape(d).c_str());
}

// ---- on a mounted file system ----
void check_dir(const std::string& cfg, const V& names)
{
    auto c = FsConfig::parse(cfg);
    std::string dir = worker_dir() + "/fs";
    reset_dir(dir);
    reseed(3);
    Model mm(c);
    std::map<std::string, std::string> want;    // key -> first spelling, as shown
    std::map<std::string, std::string> content;
    auto t = [&]() -> Tr
    {
        Tr r;
        r.none = c.plain;
        r.fold = c.full ? c.ci : c.fold;
        r.nfc = c.full ? c.uni : c.nfc;
        return r;
    }();
    for (int round = 0; round < 2; ++round)
    {
        Mount m(dir, c);
        if (!round)
            for (auto& n : names)
            {
                auto k = canon(t, n);
                uint64_t fh;
                struct stat st;
                bool there = want.count(k);
                int rc = m.getattr("/" + n, &st);
                if (rc != (there ? 0 : -ENOENT))
                    fail("%s: getattr returned %d while %s", cescape(n).c_str(), rc, there ? "an equivalent name exists" : "no equivalent name exists");
                if (there)
                    continue;
                rc = m.create("/" + n, 0644, &fh);
                if (rc)
                    fail("%s cannot be created: %d", cescape(n).c_str(), rc);
                m.write("/" + n, fh, hx(n), 0);
                m.flush("/" + n, fh);
                m.release("/" + n, fh);
                want[k] = c.full ? n : k;
                content[k] = hx(n);
            }
        std::set<std::string> w, g;
        for (auto& [k, s] : want)
            w.insert(s);
        std::vector<DirEnt> ents;
        if (m.readdir("/", &ents))
            fail("the directory cannot be listed");
        for (auto& e : ents)
            if (e.name != "." && e.name != "..")
            {
                if (!g.insert(e.name).second)
                    fail("%s is listed twice", cescape(e.name).c_str());
            }
        // With plain-text names the repository's own files are visible.
        if (c.plain)
            for (auto own : {".securefs.lock", ".securefs.json", ".config.pb"})
                if (!w.count(own))
                    g.erase(own);
        if (w != g)
        {
            for (auto& x : w)
                if (!g.count(x))
                    fail("%s is not listed", cescape(x).c_str());
            for (auto& x : g)
                if (!w.count(x))
                    fail("%s is listed", cescape(x).c_str());
        }
        for (auto& n : names)
        {
            int err = 0;
            auto d = read_all(m, "/" + n, &err);
            if (err || d != content[canon(t, n)])
                fail("%s has the content of another name (%d)", cescape(n).c_str(), err);
        }
    }
}
std::string long_name(int len) { return std::string(len - 1, 'q') + "7"; }
void check_len(const std::string& cfg, int len)
{
    auto c = FsConfig::parse(cfg);
    std::string dir = worker_dir() + "/fs";
    reset_dir(dir);
    reseed(3);
    auto n = "/" + long_name(len);
    bool must = len <= (c.full ? 255 : c.plain ? 255 : c.threshold > 0 ? 255 : 143);
    bool may = c.full || c.plain ? len <= 255 : c.threshold > 0 ? true : len <= 143;
    bool ok = false;
    for (int round = 0; round < 2; ++round)
    {
        Mount m(dir, c);
        uint64_t fh;
        struct stat st;
        if (!round)
        {
            int rc = m.create(n, 0644, &fh);
            ok = rc == 0;
            if (ok)
                m.release(n, fh);
            if (rc && rc != -ENAMETOOLONG)
                fail("creating a name of %d bytes returned %d", len, rc);
            if (ok ? !may : must)
                fail("creating a name of %d bytes returned %d", len, rc);
        }
        std::vector<DirEnt> e;
        if (m.readdir("/", &e))
            fail("listing failed");
        int seen = 0;
        for (auto& x : e)
            if (x.name != "." && x.name != ".." && x.name[0] != '.')
            {
                ++seen;
                if ("/" + x.name != n)
                    fail("listed as %s", cescape(x.name).c_str());
            }
        if (seen != ok)
            fail("%d names listed", seen);
        int rc = m.getattr(n, &st);
        if (ok ? rc : rc >= 0)
            fail("getattr of a name of %d bytes returned %d", len, rc);
        if (round)
        {
            if (ok && m.rename(n, "/x"))
                fail("renaming failed");
            if (ok && (rc = m.rename("/x", n)))
                fail("renaming back failed %d", rc);
            if (ok && m.unlink(n))
                fail("unlink failed");
            if (m.mkdir(n, 0755) != (ok ? 0 : -ENAMETOOLONG))
                fail("mkdir differs");
            if (ok && m.rmdir(n))
                fail("rmdir failed");
        }
    }
    for (auto& p : list_storage(dir))
    {
        auto slash = p.rfind('/');
        std::string b = slash == std::string::npos ? p : p.substr(slash + 1);
        if (!c.full && b[0] != '.')
            fail("%s is left in the storage", b.c_str());
    }
}

void run_case(const std::string& c)
{
    auto w = split(c, '|');
    auto& k = w.at(0);
    if (k == "D")
    {
        V names;
        for (auto& h : split(w.at(2), ','))
            names.push_back(unhex(h));
        return check_dir(w[1], names);
    }
    if (k == "W")
        return check_len(w[1], atoi(w[2].c_str()));
    auto& t = tr(w.at(1));
    if (k == "0")
        check_root(t);
    else if (k == "T")
        check_name(t, unhex(w.at(2)));
    else if (k == "I")
        check_pair(t, unhex(w.at(2)), unhex(w.at(3)));
    else if (k == "P")
        check_path(t, unhex(w.at(2)));
    else if (k == "L")
        check_target(t, unhex(w.at(2)));
    else if (k == "R")
        check_refused(t, unhex(w.at(2)));
    else
        throw HarnessError("bad case " + c);
}
void one(const std::string& c)
{
    begin_case(c);
    guarded(c, [&] { run_case(c); });
    count(kEval);
}
bool textual(const Tr& t) { return t.fold || t.nfc; }

// Every name of the set, each alone and against all others.
void names_shard(const std::string& d, const V& names)
{
    auto& t = tr(d);
    one("0|" + d);
    std::unordered_map<std::string, std::string> by_stored, by_canon;
    for (auto& n : names)
    {
        if (n == "." || n == "..")
            continue;
        one("T|" + d + "|" + hx(n));
        auto s = stored(t, n), c = canon(t, n);
        auto [i, new_s] = by_stored.emplace(s, n);
        auto [j, new_c] = by_canon.emplace(c, n);
        if (!new_s)
            one("I|" + d + "|" + hx(i->second) + "|" + hx(n));
        if (!new_c)
            one("I|" + d + "|" + hx(j->second) + "|" + hx(n));
        if (new_s)
            count(kNontrivial);
    }
    // Also against names of any letter case on a file system which folds case.
    std::unordered_map<std::string, std::string> by_upper;
    for (auto& [s, n] : by_stored)
    {
        std::string u = s;
        for (auto& ch : u)
            ch = toupper((unsigned char)ch);
        auto [i, fresh] = by_upper.emplace(u, n);
        if (!fresh && !t.none && t.threshold == 0)
        {
            begin_case("I|" + d + "|" + hx(i->second) + "|" + hx(n));
            fail("%s and %s have stored forms differing only in letter case", cescape(n).c_str(), cescape(i->second).c_str());
        }
    }
}
void lengths_shard(const std::string& d)
{
    V names;
    for (std::string unit : {"a", "A", "\xc3\xa9", "\xe4\xb8\xad", "\xff"})
    {
        auto& t = tr(d);
        if (unit == "\xff" && textual(t))
            continue;
        for (int len = 1; len <= 300; ++len)
        {
            std::string n;
            while (n.size() + unit.size() <= (size_t)len)
                n += unit;
            n.resize(len, 'z');
            names.push_back(n);
        }
    }
    // FUSE passes on names of up to 1024 bytes, and where long names go to the table all of it counts.
    if (tr(d).threshold)
        for (int len : {255, 256, 257, 300, 400, 511, 512, 513, 700, 900, 1000, 1023, 1024})
            for (int at = 0; at < len; at += at < 4 || at > len - 6 ? 1 : 13)
            {
                std::string n(len, 'k');
                n[at] = 'm';
                names.push_back(n);
            }
    std::sort(names.begin(), names.end());
    names.erase(std::unique(names.begin(), names.end()), names.end());
    names_shard(d, names);
}
void paths_shard(const std::string& d)
{
    V comp = {"a", "B", "aa", ".x", "\xc3\x89", std::string(130, 'c'), std::string(130, 'd'), std::string(255, 'E')};
    auto& t = tr(d);
    V small;
    for (auto& c : comp)
        if (fits(t, c))
            small.push_back(c);
    int n = small.size();
    for (int k = 1; k <= 3; ++k)
    {
        int tot = 1;
        for (int i = 0; i < k; ++i)
            tot *= n;
        for (int x = 0; x < tot; ++x)
        {
            std::string p;
            for (int i = 0, y = x; i < k; ++i, y /= n)
                p += "/" + small[y % n];
            one("P|" + d + "|" + hx(p));
            count(kNontrivial);
        }
    }
}
void targets_shard(const std::string& d)
{
    V pieces = {"a", "/", "..", ".", "Bb", "\xff", "\xc3\xa9", "long-component", " "};
    int n = pieces.size(), depth = g_args.thorough() ? 5 : 4;
    bool th = g_args.thorough();
    std::unordered_map<std::string, std::string> seen;
    auto& t = tr(d);
    auto go = [&](const std::string& x)
    {
        // Without a threshold a component of the target is protected by itself, and "." is what "/" is stored as.
        one("L|" + d + "|" + hx(x));
        auto [i, fresh] = seen.emplace(t.t->encrypt_path_for_symlink(x), x);
        if (!fresh && i->second != x)
        {
            begin_case("L|" + d + "|" + hx(x));
            fail("the targets %s and %s have the same stored form", cescape(i->second).c_str(), cescape(x).c_str());
        }
        count(kNontrivial);
    };
    for (int k = 1; k <= depth; ++k)
    {
        int tot = 1;
        for (int i = 0; i < k; ++i)
            tot *= n;
        for (int x = 0; x < tot; ++x)
        {
            std::string s;
            for (int i = 0, y = x; i < k; ++i, y /= n)
                s += pieces[y % n];
            if (k == 1 || !seen.count(s))
                go(s);
        }
    }
    // What the base file system's limit of 4095 leaves room for.
    int longest = t.none ? 4095 : 2500;
    for (int l = 1; l <= (t.none || t.threshold ? longest : 2000); l += l < 1500 ? 1 : th ? 1 : 5)    // a component by itself has at most 2000
        go(std::string(l - 1, 'x') + "y");
    for (int l = 1; l <= longest; l += l < 1500 ? 1 : th ? 1 : 5)
    {
        std::string s;
        for (int i = 0; i < l; ++i)
            s += i % 9 == 8 ? '/' : char('a' + i % 20);
        go(s);
    }
}
void refuse_shard(const std::string& d)
{
    auto& t = tr(d);
    V genuine;
    for (std::string n : {"a", "B", "ab", "abc", "abcd", "abcde", "abcdef", "file name.txt", "zzzzzzzzzzzzzzzzzzzzzzzz", "this name is longer than the largest of the thresholds at which names count as long, so that it is stored as a hash, and the table has it too"})
    {
        std::string full;
        if (!fits(t, n))
            continue;
        genuine.push_back(stored(t, n, &full));
        if (!full.empty())
            genuine.push_back(full);
    }
    for (auto& g : genuine)
    {
        one("R|" + d + "|" + hx(g));
        for (size_t i = 0; i < g.size(); ++i)
        {
            for (int c = 1; c < 256; ++c)
                if (c != '/')
                {
                    auto s = g;
                    s[i] = char(c);
                    one("R|" + d + "|" + hx(s));
                }
            auto s = g;
            s.erase(i, 1);
            one("R|" + d + "|" + hx(s));
            one("R|" + d + "|" + hx(g.substr(0, i)));
            for (size_t j = i + 1; j < g.size(); ++j)
            {
                s = g;
                std::swap(s[i], s[j]);
                one("R|" + d + "|" + hx(s));
            }
        }
        for (int c = 1; c < 256; ++c)
        {
            one("R|" + d + "|" + hx(g + char(c)));
            one("R|" + d + "|" + hx(g + char(c) + "A"));
            one("R|" + d + "|" + hx(char(c) + g));
        }
        for (auto& h : genuine)
            if (g != h)
            {
                one("R|" + d + "|" + hx(g + h));
                for (size_t i = 0; i < std::min(g.size(), h.size()); ++i)
                    one("R|" + d + "|" + hx(g.substr(0, i) + h.substr(i)));
            }
    }
    // Everything short.
    std::string A = "AZa29=.~/ \xff";
    A.erase(A.find('/'), 1);
    for (int k = 1; k <= 4; ++k)
    {
        int tot = 1, n = A.size();
        for (int i = 0; i < k; ++i)
            tot *= n;
        for (int x = 0; x < tot; ++x)
        {
            std::string s;
            for (int i = 0, y = x; i < k; ++i, y /= n)
                s += A[y % n];
            one("R|" + d + "|" + hx(s));
        }
    }
    for (int l = 5; l <= 300; ++l)
        for (char c : {'A', 'B', '9'})
            one("R|" + d + "|" + hx(std::string(l, c)));
    count(kNontrivial);
}
}    // namespace

int main(int argc, char** argv)
{
    CheckDef d;
    d.worker_init = []
    {
        umask(0);
        g_no_sleep = true;
    };
    d.setup = []
    {
        umask(0);
        std::string self = __FILE__;
        std::string cmd = "python3 " + self.substr(0, self.rfind('/')) + "/gen_names.py " + (g_args.thorough() ? "4" : "3");
        FILE* f = popen(cmd.c_str(), "r");
        char a[400], b[400], c[400], e[400];
        while (f && fscanf(f, "%399s %399s %399s %399s", a, b, c, e) == 4)
        {
            auto n = unhex(a);
            if (g_forms.emplace(n, Forms{unhex(b), unhex(c), unhex(e)}).second)
                g_names.push_back(n);
        }
        if (!f || pclose(f) || g_names.size() < 1000)
            throw HarnessError("gen_names.py failed");
        V pieces = {"a", "A", ".", "-", "\x01", "\x7f", "\xff", "\xc3", "\x80", "\n", "=", "\\", "~"};
        int n = pieces.size();
        for (int k = 1, tot = n; k <= (g_args.thorough() ? 4 : 3); ++k, tot *= n)
            for (int x = 0; x < tot; ++x)
            {
                std::string s;
                for (int i = 0, y = x; i < k; ++i, y /= n)
                    s += pieces[y % n];
                g_raw.push_back(s);
            }
        for (int b = 1; b < 256; ++b)
            if (b != '/')
                for (auto s : {std::string(1, char(b)), "x" + std::string(1, char(b)), std::string(1, char(b)) + "x"})
                    g_raw.push_back(s);
        for (auto own : {".securefs.json", ".securefs.lock", ".long_names.db", ".long_names.db-journal", ".config.pb", "...", "a...", "a.ll", "....", ".ll"})
            g_raw.push_back(own);
        std::set<std::string> u(g_raw.begin(), g_raw.end());
        g_raw.assign(u.begin(), u.end());
    };
    d.rule = "a name counts as non-trivial when it is not equivalent to any earlier one; a path or target when it differs from the others";
    d.run_case = [](const std::string& c) { run_case(c); };
    d.shards = []
    {
        std::vector<Shard> sh;
        V trs = {"l", "n128s.ll", "n128", "n1s.ll", "n2", "n3s.x", "n8s.ll", "n143s.ll", "x"};
        V norm = {"l+f", "l+c", "l+f+c", "n128s.ll+f", "n128s.ll+c", "n128s.ll+f+c", "n3+f+c"};
        for (auto& d : trs)
        {
            sh.push_back({"names " + d, [=] { names_shard(d, g_raw); }});
            sh.push_back({"text names " + d, [=] { names_shard(d, g_names); }});
        }
        for (auto& d : norm)
            sh.push_back({"text names " + d, [=] { names_shard(d, g_names); }});
        for (auto& d : trs)
            sh.push_back({"lengths " + d, [=] { lengths_shard(d); }});
        for (auto& d : norm)
            sh.push_back({"lengths " + d, [=] { lengths_shard(d); }});
        for (auto& d : {"l", "n128s.ll", "n2", "x", "l+f+c", "n128s.ll+c"})
        {
            sh.push_back({std::string("paths ") + d, [=] { paths_shard(d); }});
            sh.push_back({std::string("targets ") + d, [=] { targets_shard(d); }});
        }
        for (auto& d : {"l", "n128s.ll", "n2s.x", "n128s.ll+f+c"})
            sh.push_back({std::string("refusals ") + d, [=] { refuse_shard(d); }});
        // Mounted: directories with many names at once, and every length.
        V fs = {"lite:b64:t128:s.ll", "lite:b64", "lite:b64:t3", "full:b64", "lite:b64:plain", "lite:b64:t128:s.ll:fold", "lite:b64:nfc", "lite:b64:fold:nfc", "full:b64:ci",
                "full:b64:uni", "full:b64:ci:uni"};
        for (auto& c : fs)
        {
            auto fc = FsConfig::parse(c);
            bool text = c.find("fold") != std::string::npos || c.find("nfc") != std::string::npos || c.find("ci") != std::string::npos || c.find("uni") != std::string::npos;
            V pool;
            for (auto& n : text ? g_names : g_raw)
                if (n != "." && n != "..")
                    pool.push_back(n);
            if (!text)
                for (auto& n : g_names)
                    if (n != "." && n != ".." && n.size() <= 4)
                        pool.push_back(n);
            std::set<std::string> seen;
            V uniq;
            for (auto& n : pool)
                if (seen.insert(n).second && !(fc.plain && n.compare(0, 9, ".securefs") == 0))
                    uniq.push_back(n);
            size_t chunk = 150, most = g_args.thorough() ? 6000 : 1500;
            for (size_t i = 0; i < uniq.size() && i < most; i += chunk)
            {
                std::string list;
                for (size_t j = i; j < uniq.size() && j < i + chunk; ++j)
                    list += (list.empty() ? "" : ",") + hx(uniq[j]);
                sh.push_back({"directory " + c, [=] {
                                  one("D|" + c + "|" + list);
                                  count(kNontrivial);
                              }});
            }
        }
        for (auto& c : {"lite:b64:t128:s.ll", "lite:b64", "lite:b64:t143:s.ll", "lite:b64:t5", "full:b64", "lite:b64:plain"})
            sh.push_back({std::string("name lengths ") + c, [=] {
                              for (int l = 1; l <= 260; ++l)
                              {
                                  one(fmt("W|%s|%d", c, l));
                                  count(kNontrivial);
                              }
                          }});
        set_bounds_note(fmt("[every name of up to %d pieces out of 18 textual and 13 byte pieces, every byte, every length up to 300, and to 1024 with the difference at many places] [17 translators] [every path of up to 3 components] "
                            "[every target of up to %d pieces and of every length up to 1500, and to 2500 in steps of 5 or less] [every single-character change, cut, extension, exchange and splice of stored names] "
                            "[mounted directories holding 150 of the names at once] [every name length up to 260 on a mount]",
                            g_args.thorough() ? 4 : 3, g_args.thorough() ? 5 : 4));
        return sh;
    };
    d.assumptions = {
        "names are valid UTF-8 when case folding or normalization is requested",
        "the forms names are compared by come from Python's Unicode tables",
        "letter case and the unused last bits of the stored spelling of a genuine encryption are not checked",
    };
    return check_main(argc, argv, d);
}
