#include "families.h"

namespace vf
{
namespace
{
using V = std::vector<std::string>;
V operator+(V a, const V& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
const V kLite = {"lite:t128:s.ll", "lite"};

Family ns(const char* name, V cfgs, V setup, V alphabet, int q, int t)
{
    Family f;
    f.name = name;
    f.cfgs = cfgs;
    f.setup = setup;
    f.alphabet = alphabet;
    f.depth_quick = q;
    f.depth_thorough = t;
    f.dopt.xattr = false;
    return f;
}
}    // namespace

std::vector<Family> families_for(const std::string& prop)
{
    std::vector<Family> r;
    // ---- contents ----
    if (prop == "C01" || prop == "C02" || prop == "C16")
    {
        V cfgs;
        if (prop == "C01")
            cfgs = {"lite:b64:i12:t128", "lite:b64:i12:p100:t128"};
        else if (prop == "C02")
            cfgs = {"full:b64:i12", "full:b64:i16:p50:time"};
        else
            cfgs = {"lite:b64:i12:p70:t128", "lite:b64:i16:p1:t128", "full:b64:i12:p70"};
        V io = {"hw 0 0 10 1", "hw 0 60 10 2", "hw 0 100 30 3", "hw 0 64 64 4", "hw 0 5 0 5",
                "ht 0 0",      "ht 0 30",      "ht 0 64",       "ht 0 130",    "hr 0 0 300",
                "hr 0 50 20",  "hs 0",         "hflush 0",      "hsync 0"};
        Family f = ns("one handle", cfgs, {"ocreate a 0"}, io + V{"remount", "open a 0", "open a 0 t"}, 3, 4);
        r.push_back(f);
        // two handles and path operations on one file
        Family g = ns("two handles",
                      cfgs,
                      {"ocreate a 0", "hw 0 0 100 9"},
                      {"hw 0 90 20 1", "hw 1 0 70 2", "ht 1 64", "ht 0 200", "trunc a 40", "hr 0 0 300", "hr 1 60 80",
                       "open a 1", "close 0", "close 1", "stat a", "hs 1", "open a 0 r", "open a 1 w", "open a 1 t"},
                      3,
                      4);
        r.push_back(g);
        Family h = ns("path operations",
                      cfgs,
                      {},
                      {"create a", "create b", "write a 0 64 1", "write a 128 1 2", "write a 63 2 3", "write b 0 200 4", "trunc a 65",
                       "trunc a 63", "trunc a 0", "read a 0 500", "read b 60 70", "stat a", "rename a b", "unlink b", "link a b", "remount"},
                      4,
                      5);
        r.push_back(h);
        if (prop == "C16")
        {
            for (auto& x : r)
                x.sizes = true;
            auto w = ns("names and sizes", cfgs, {"create a", "write a 0 70 1"},
                        {"mkdir d", "create d/x", "create d/@y", "symlink target/x l", "symlink t d/l", "unlink l", "unlink d/@y", "rmdir d", "rename a d/x", "rename d/x a", "link a b",
                         "trunc a 0", "trunc a 128", "write a 0 1 2", "open a 0 t", "hw 0 3 9 4", "close 0", "unlink a", "remount"}, 3, 4);
            w.sizes = true;
            r.push_back(w);
        }
    }
    // ---- names, lite ----
    if (prop == "C03")
    {
        r.push_back(ns("flat",
                       {"lite:t128:s.ll", "lite", "lite:plain"},
                       {},
                       {"create a", "create b", "mkdir a", "mkdir b", "unlink a", "unlink b", "rmdir a", "rmdir b", "rename a b",
                        "rename b a", "link a b", "link b a", "symlink x/../y a", "symlink /abs b", "write a 0 5 1"},
                       4,
                       5));
        r.push_back(ns("links to links",
                       {"lite:t128:s.ll", "lite", "lite:plain"},
                       {"symlink x/../y l", "create a"},
                       {"link l m", "link l @m", "unlink l", "unlink m", "rename l m", "rename m a", "symlink l m", "link m d/x", "mkdir d", "stat l", "stat m", "remount"},
                       4,
                       5));
        r.push_back(ns("unusual names",
                       {"lite:t128:s.ll", "lite", "lite:plain", "lite:t8:s.ll"},
                       {"mkdir .d"},
                       {"create .x", "create ...", "mkdir ..a", "create .d/.y", "create -", "rename .x .d/.z", "rename .d/.y ...", "unlink .x", "rmdir ..a", "link .x .hidden", "ls .d", "ls /", "remount"},
                       3,
                       4));
        r.push_back(ns("directories which had long names",
                       {"lite:t128:s.ll", "lite:t8:s.ll:fold"},
                       {"mkdir d", "create d/@x", "mkdir @e", "create @e/@y"},
                       {"unlink d/@x", "unlink @e/@y", "rename d @e", "rename @e d", "rename d/@x @e/@y", "rmdir d", "rmdir @e", "mkdir d", "create d/@x", "rename d/@x @x", "mkdir d/@s", "rename @e d/@s", "remount"},
                       4,
                       5));
        r.push_back(ns("nested",
                       {"lite:t128:s.ll", "lite"},
                       {"mkdir d", "create d/x", "mkdir e"},
                       {"create d/y", "create e/x", "mkdir d/s", "mkdir e/s", "create d/s/z", "unlink d/x", "unlink e/x", "rmdir d", "rmdir e",
                        "rmdir d/s", "rename d e", "rename e d", "rename d/x e/x", "rename d/s e/s", "rename e/s d/s", "rename d/x d/y", "link d/x e/x",
                        "symlink d e/l", "write d/x 0 9 1", "rename d e/s"},
                       3,
                       4));
        r.push_back(ns("long names",
                       {"lite:t128:s.ll"},
                       {},
                       {"create a", "create @a", "create @b", "mkdir @a", "unlink a", "unlink @a", "unlink @b", "rmdir @a", "rename a @a",
                        "rename @a @b", "rename @b @a", "rename @a a", "link a @b", "link @a @b", "symlink t @a", "create @a/@x", "create @a/y",
                        "unlink @a/@x", "rename @a/@x @b", "stat @a", "stat @b"},
                       3,
                       4));
        r.push_back(ns("name limits",
                       {"lite:t128:s.ll", "lite", "lite:plain", "lite:t8:s.ll"},
                       {"create k", "mkdir d"},
                       {"create #a", "mkdir #a", "symlink t #a", "rename k #a", "link k #a", "create @@a", "rename k @@a", "rename @@a k", "unlink @@a",
                        "unlink #a", "rename #a k", "rename d #a", "rename k ~b", "create ~b", "unlink ~b", "create d/#c", "rmdir d"},
                       3,
                       4));
        std::string t1 = "symlink " + std::string(1999, 'w') + " ", t2 = "symlink @@a/@@b/@@c/@@d/@@e/@@f/@@g ", t3 = "symlink /" + std::string(900, 'v') + "/../" + std::string(95, 'u') + " ";
        r.push_back(ns("long link targets",
                       {"lite:t128:s.ll", "lite", "lite:plain", "lite:t128:s.ll:fold"},
                       {"mkdir d"},
                       {t1 + "a", t2 + "b", t3 + "@c", t3 + "d/x", "rename a @c", "rename b a", "rename @c b", "link a d/y", "unlink a", "remount"},
                       3,
                       4));
        r.push_back(ns("open files",
                       {"lite:t128:s.ll"},
                       {"ocreate a 0", "create b"},
                       {"unlink a", "rename a b", "rename b a", "link a c", "rename a @l", "unlink @l", "hw 0 0 20 1", "hr 0 0 50", "hs 0", "close 0", "unlink b",
                        "open b 1", "hw 1 3 4 2", "create a", "open a 1 rt"},
                       3,
                       4));
        r.push_back(ns("open directories",
                       {"lite:t128:s.ll", "lite"},
                       {"mkdir d", "create d/x", "create d/y", "mkdir e"},
                       {"dopen d 0", "dopen d 1", "dopen e 0", "dopen / 1", "dls 0", "dls 1", "dclose 0", "create d/z", "unlink d/x", "rename d/x d/w", "rename d/x e/x",
                        "mkdir d/s", "rename d f", "rename f d", "rename d e/d", "rename e/d d", "create e/q", "rename e d/s", "unlink d/y", "rmdir d", "rmdir e",
                        "rename e d"},
                       3,
                       4));
        r.push_back(ns("open directories with long names",
                       {"lite:t128:s.ll"},
                       {"mkdir d", "create d/@x", "mkdir e"},
                       {"dopen d 0", "dopen e 0", "dls 0", "dclose 0", "create d/@z", "unlink d/@x", "rename d/@x d/@w", "rename d/@x e/@x", "rename d/@x x", "create e/@q",
                        "rename d f", "rename e d/s", "mkdir d/@s", "rmdir d/@s"},
                       4,
                       5));
    }
    // ---- names, full ----
    if (prop == "C04")
    {
        V full = {"full:b64:i12"};
        r.push_back(ns("flat",
                       {"full", "full:time:p30", "full:v1"},
                       {},
                       {"create a", "create b", "mkdir a", "mkdir b", "unlink a", "unlink b", "rmdir a", "rmdir b", "rename a b",
                        "rename b a", "link a b", "link b a", "symlink x/../y a", "symlink /abs b", "write a 0 5 1"},
                       4,
                       5));
        r.push_back(ns("nested",
                       {"full", "full:v1:ci"},
                       {"mkdir d", "create d/x", "mkdir e"},
                       {"create d/y", "create e/x", "mkdir d/s", "mkdir e/s", "create d/s/z", "unlink d/x", "unlink e/x", "rmdir d", "rmdir e",
                        "rmdir d/s", "rename d e", "rename e d", "rename d/x e/x", "rename d/s e/s", "rename e/s d/s", "rename d/x d/y", "link d/x e/x",
                        "symlink d e/l", "write d/x 0 9 1", "rename d e/s"},
                       3,
                       4));
        r.push_back(ns("unusual names",
                       {"full", "full:v1", "full:ci:uni"},
                       {"mkdir .d"},
                       {"create .x", "create ...", "mkdir ..a", "create .d/.y", "create -", "rename .x .d/.z", "rename .d/.y ...", "unlink .x", "rmdir ..a", "link .x .hidden", "ls .d", "ls /", "remount"},
                       3,
                       4));
        r.push_back(ns("many hard links",
                       full,
                       {"create a", "mkdir d", "link a b", "link a c", "link a d/e", "link a d/f"},
                       {"link a g", "link b d/h", "unlink a", "unlink b", "unlink c", "unlink d/e", "unlink d/f", "rename b c", "rename d/e a", "write c 0 9 1", "remount"},
                       4,
                       5));
        r.push_back(ns("hard links",
                       full,
                       {"create a", "mkdir d", "link a d/h"},
                       {"unlink a", "unlink d/h", "rename a d/h", "rename d/h a", "link a b", "link d/h b", "unlink b", "rename b a", "write a 0 5 1",
                        "write b 3 70 2", "trunc d/h 2", "create b", "create a", "stat a", "stat b", "stat d/h", "rmdir d"},
                       3,
                       4));
        r.push_back(ns("name limits",
                       {"full", "full:ci:uni"},
                       {"create k", "mkdir d"},
                       {"create #a", "mkdir #a", "symlink t #a", "rename k #a", "link k #a", "create @@a", "rename k @@a", "rename @@a k", "unlink @@a",
                        "unlink #a", "rename #a k", "rename d #a", "create d/#c", "rmdir d", "rename d/@@a k", "create d/@@a"},
                       3,
                       4));
        r.push_back(ns("open files",
                       full,
                       {"ocreate a 0", "create b"},
                       {"unlink a", "rename a b", "rename b a", "link a c", "hw 0 0 20 1", "hr 0 0 50", "hs 0", "close 0", "unlink b", "open b 1",
                        "hw 1 3 4 2", "create a", "unlink c", "open a 1 rt"},
                       3,
                       4));
        r.push_back(ns("open directories",
                       {"full:b64:i12", "full:v1:ci"},
                       {"mkdir d", "create d/x", "create d/y", "mkdir e"},
                       {"dopen d 0", "dopen d 1", "dopen e 0", "dopen / 1", "dls 0", "dls 1", "dclose 0", "create d/z", "unlink d/x", "rename d/x d/w", "rename d/x e/x",
                        "mkdir d/s", "rename d f", "rename f d", "rename d e/d", "rename e/d d", "create e/q", "rename e d/s", "unlink d/y", "rmdir d", "rmdir e",
                        "rename e d"},
                       3,
                       4));
    }
    // ---- remount in the middle of every history ----
    if (prop == "C06")
    {
        V al = {"create a",      "mkdir d",        "create d/x",  "unlink a",     "rmdir d",      "rename a d/x", "rename d e",  "link a b",
                "symlink t/u l", "write a 0 70 1", "trunc a 10",  "chmod a 600",  "chown a 5 6",  "setx a user.n 9 1", "rmx a user.n", "create @n",
                "rename a @n",   "unlink @n",      "remount"};
        auto f = ns("everything", {"lite:b64:t128:s.ll", "full:b64:time", "full:b64:ci:uni:p20"}, {"create a", "remount"}, al, 3, 4);
        f.dopt.xattr = true;
        r.push_back(f);
        auto g = ns("everything from empty", {"lite:b64:plain", "full:b64:v1", "lite:b64:p40"}, {}, al, 3, 4);
        g.dopt.xattr = true;
        r.push_back(g);
    }
    // ---- objects and storage ----
    if (prop == "C07")
    {
        V al = {"ocreate a 0", "open a 0", "open a 1", "open b 1", "close 0", "close 1", "unlink a", "unlink b", "rename a b", "rename b a",
                "link a b", "create a", "create b", "hw 0 0 70 1", "hr 0 0 99", "hr 1 0 99", "hw 1 5 5 2", "hs 0", "open a 1 t", "remount"};
        auto f = ns("open and removed files", {"full:b64", "full:b64:v1", "lite:b64:t128:s.ll"}, {"create a", "write a 0 30 7"}, al, 3, 4);
        f.storage = true;
        r.push_back(f);
        auto g = ns("directories, links, failures",
                    {"full:b64", "full:b64:v1"},
                    {"create a", "mkdir d", "create d/x"},
                    {"mkdir e", "rmdir e", "rmdir d", "rename d e", "rename e d", "create d/x", "create #n", "mkdir #n", "symlink t #n", "rename a #n",
                     "link a #n", "symlink t l", "unlink l", "unlink d/x", "rename a d/x", "symlink t a", "link a d/x", "mkdir a", "mkdir d/x", "unlink a",
                     "rename a l", "rename l a", "rename l d/x", "mkdir d/s", "rename e d/s", "rename d/s e", "rmdir d/s"},
                    3,
                    4);
        g.storage = true;
        r.push_back(g);
        auto h = ns("open directories",
                    {"full:b64", "full:b64:v1"},
                    {"mkdir d", "create d/x", "mkdir e"},
                    {"dopen d 0", "dopen e 0", "dopen e 1", "dls 0", "dclose 0", "dclose 1", "unlink d/x", "rmdir d", "rmdir e", "rename d e", "rename e d", "rename d e/d", "mkdir d", "mkdir e",
                     "create e/y", "symlink t l", "remount"},
                    3,
                    4);
        h.storage = true;
        r.push_back(h);
    }
    // ---- directories of many names, through the file system ----
    if (prop == "C05")
    {
        auto many = [](const char* dir, int n, const char* suffix)
        {
            V r;
            for (int i = 0; i < n; ++i)
                r.push_back(fmt("create %s%c%s", dir, "aCeGiKmOqSuWyB"[i % 14] , (std::to_string(i) + suffix).c_str()));
            return r;
        };
        for (int n : {12, 13, 27})
        {
            auto setup = V{"mkdir d"} + many("d/", n, "");
            V al;
            for (int i : {0, 1, n / 2, n - 1})
            {
                auto p = setup[1 + i].substr(7);
                al = al + V{"unlink " + p, "rename " + p + " d/k_", "rename " + p + " d/Zz", "rename " + p + " top", "link " + p + " d/0", "stat " + p};
            }
            al = al + V{"create d/k", "mkdir d/K_", "create d/zzz", "rmdir d", "remount", "rename d e", "create d/@x"};
            auto f = ns("a directory of many names", {"full", "full:ci:uni", "full:v1:time"}, setup, al, n == 13 ? 3 : 2, 3);
            f.storage = true;
            r.push_back(f);
        }
    }
    if (prop == "C15")
    {
        V al = {"create @a", "create @b", "mkdir @a", "mkdir @d", "create @d/@x", "create @d/y", "unlink @a", "unlink @b", "unlink @d/@x", "rmdir @a",
                "rmdir @d", "rename @a @b", "rename @b @a", "rename @a s", "rename s @a", "rename @a @d/@x", "rename @d/@x @a", "rename @d @b",
                "link @a @b", "link @a @d/@x", "symlink t @b", "rename @d/y @d/@x"};
        auto f = ns("long names", {"lite:t128:s.ll", "lite:t128"}, {}, al, 3, 4);
        f.long_table = true;
        r.push_back(f);
        auto g = ns("long names in use", {"lite:t128:s.ll"}, {"create @a", "mkdir @d", "create @d/@x", "link @a @b"}, al, 3, 4);
        g.long_table = true;
        r.push_back(g);
        auto h = ns("directory with only its table", {"lite:t128:s.ll"}, {"mkdir d", "create d/@x"},
                    {"unlink d/@x", "rename d/@x @x", "rename @x d/@x", "rmdir d", "mkdir e", "rename d e", "rename e d", "rmdir e", "create d/@y",
                     "mkdir d/@y", "rmdir d/@y", "symlink t d/@y", "unlink d/@y", "create e/@x", "unlink e/@x"},
                    3, 5);
        h.long_table = true;
        r.push_back(h);
        auto i = ns("threshold edges", {"lite:t100:s.ll", "lite:t99:s.ll"}, {},
                    {"create ~a", "create %a", "rename ~a %a", "rename %a ~a", "rename %a %b", "unlink ~a", "unlink %a", "unlink %b", "link ~a %b", "mkdir %b", "rmdir %b",
                     "create #c", "rename %a #c", "unlink #c"}, 3, 5);
        i.long_table = true;
        r.push_back(i);
    }
    if (prop == "C08")
    {
        V al = {"setx a user.n 0 1", "setx a user.n 9 2", "setx a user.n 300 3", "setx a user.n 3000 8", "setx a user.n 40000 9", "setx a user.n 0 4 1", "setx a user.n 0 4 2", "setx a user.n 9 4 1", "setx a user.n 9 5 2", "rmx a user.n",
                "setx a user.other 5 1", "rmx a user.other", "setx d user.n 4 1", "rmx d user.n", "rename a b", "rename b a", "link a b",
                "setx b user.n 7 6", "rmx b user.n", "unlink a", "create a", "symlink b l", "rename l b", "remount", "compare", "setx a user.m:with.dots-and_more=x 11 7"};
        auto f = ns("attributes", {"lite:t128:s.ll", "full", "lite:i16:plain", "full:time:i16"}, {"create a", "mkdir d"}, al, 3, 4);
        f.dopt.xattr = true;
        r.push_back(f);
    }
    if (prop == "C28")
    {
        V eq = {"full:b64:ci", "full:b64:ci:uni", "lite:t128:s.ll:fold", "lite:fold:nfc"};
        r.push_back(ns("case", eq, {},
                       {"create a", "create A", "mkdir d", "create d/x", "create D/X", "stat A", "unlink A", "unlink a", "rename a A", "rename A b", "rename B a", "link a B",
                        "rmdir D", "rmdir d", "rename D e", "write A 0 5 1", "trunc a 3", "symlink t A", "rename d/X Y", "remount"}, 3, 4));
        r.push_back(ns("long names and case", {"lite:t128:s.ll:fold"}, {"create @a"},
                       {"create @A", "unlink @A", "unlink @a", "rename @A @B", "rename @b @a", "rename @A s", "rename S @A", "mkdir @D", "create @d/@X", "unlink @D/@x", "rmdir @d",
                        "link @A @b", "stat @A", "remount"}, 3, 4));
        V ueq = {"full:b64:ci", "full:b64:uni", "full:b64:ci:uni", "lite:t128:s.ll:fold", "lite:nfc", "lite:t128:fold:nfc", "full:b64", "lite:t128"};
        V names = {"=a", "=b", "=c", "=d", "=s", "=S", "=t", "=T", "=k", "=K", "=j", "=f", "=g", "=o", "=O", "=P", "=i", "=n", "=m", "=A", "=B", "=C", "=J", "=l", "=h", "=H", "=z"};
        V al;
        for (auto& n : names)
            al.push_back("create " + n);
        r.push_back(ns("pairs of names", ueq, {}, al, 2, 2));
        V al2;
        for (auto& n : names)
        {
            al2.push_back("stat " + n);
            al2.push_back("unlink " + n);
            al2.push_back("rename =a " + n);
            al2.push_back("link =s " + n);
        }
        r.push_back(ns("lookups of equivalent names", ueq, {"create =a", "create =s", "mkdir =A", "create =A/=i", "create =O"}, al2, 1, 2));
        V gen = {"create a",      "mkdir d",        "create d/x",  "unlink a",     "rmdir d",      "rename a d/x", "rename d e",  "link a b",
                 "symlink t/u l", "write a 0 70 1", "write a 60 9 2", "trunc a 10",  "chmod a 600",  "setx a user.n 9 1", "rmx a user.n", "create @n", "unlink @n", "read a 0 99", "trunc a 500", "write a 400 9 3", "read a 0 600"};
        auto f = ns("options that change nothing else", {"full:b64:noverify", "lite:b64:t128:s.ll:noverify", "full:b64:sens", "lite:b64:p30:t128:noverify:sens", "full:b64:p30:time:noverify"},
                    {"create a"}, gen + V{"remount"}, 3, 4);
        f.dopt.xattr = true;
        r.push_back(f);
        auto g = ns("options changing between mounts", {"full:b64", "lite:b64:t128:s.ll", "full:b64:time"}, {"create a", "write a 0 70 1", "setx a user.n 9 1"},
                    V{"remountas noverify", "remountas noxattr", "remountas sens", "remountas u7:g8", "remountas none", "remountas noverify:noxattr:u9"}
                        + V{"create b", "write a 60 9 2", "trunc a 10", "setx a user.n 5 2", "rmx a user.n", "chmod a 600", "chown a 5 6", "link a c", "unlink a", "rename a b", "mkdir d", "create @n"},
                    3, 4);
        g.dopt.xattr = true;
        r.push_back(g);
    }
    if (prop == "C09")
    {
        const std::string T1 = "1000000000123456789 1100000000000000001", T2 = "1200000000999999999 900000000000000000";
        V al = {"chmod a 600", "chmod a 000", "chmod a 777", "chmod d 700", "chown a 5 6", "chown a 7 -1", "chown a -1 8", "chown d 3 4", "utimens a " + T1,
                "utimens a " + T2, "utimens a 5000000000123456789 6000000000000000001", "utimens a", "utimens d " + T1, "write a 0 70 1", "trunc a 10", "read a 0 20", "link a b", "unlink a", "unlink b",
                "create c 640", "mkdir e 750", "rename a d/z", "create d/x 400", "as 11 12", "remount", "compare"};
        V cfgs = {"full:b64:time", "full:b64", "lite:t128:s.ll"};
        auto f = ns("attributes of files and directories", cfgs, {"create a", "mkdir d"}, al, 3, 4);
        f.times = true;
        r.push_back(f);
        auto g = ns("through handles and links", {"full:b64:time", "lite"}, {"ocreate a 0", "link a b", "symlink a l"},
                    {"hw 0 0 70 1", "hw 0 10 0 1", "ht 0 3", "ht 0 0", "hr 0 0 99", "hs 0", "hflush 0", "hsync 0", "utimens b " + T1, "utimens b -1000000000000000001 -5", "chmod b 604", "chown a 1 2", "unlink a", "unlink b",
                     "rename b a", "rename a c", "setx a user.n 5 1", "rmx a user.n", "utimens l " + T2, "chown l 3 4", "rename l b", "close 0", "open b 0 t", "stat b", "compare", "remount"},
                    3, 4);
        g.times = true;
        r.push_back(g);
        auto x = ns("bits beyond the permissions", {"lite:t128:s.ll", "lite:plain"}, {"create a", "mkdir d"},
                    {"chmod a 4711", "chmod a 2755", "chmod d 1777", "chmod d 2770", "create d/x", "stat a", "stat d", "rename a b", "write b 0 5 1", "remount"}, 3, 4);
        r.push_back(x);
        auto h = ns("owner override", {"full:b64:time:u33:g44", "full:b64:u33", "lite:u33:g44", "lite:g44", "full:b64:u0:g0", "lite:u0"}, {"create a", "mkdir d", "chown a 15 16"},
                    {"ocreate c 0", "hs 0", "stat a", "stat d", "chown a 5 6", "chown d 7 8", "chmod a 600", "create d/x", "as 11 12", "mkdir e", "symlink t l", "unlink a", "rename a b", "remount", "compare"}, 3, 4);
        h.times = true;
        r.push_back(h);
    }
    return r;
}
}    // namespace vf
