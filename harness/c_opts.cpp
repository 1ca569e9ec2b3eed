// Part of C28: every option of the create and mount commands reaches the file system, with exactly
// the effect its documentation states, and values that are not documented are refused.
// Cases start with '@'.
#include "cli.h"
#include "memstream.h"
#include "model.h"
#include "params_io.h"
#include <algorithm>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <google/protobuf/util/json_util.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

using namespace vf;
using securefs::DecryptedSecurefsParams;
namespace
{
using V = std::vector<std::string>;
const std::string kPass = "secret word";

// Spelling bits.
enum
{
    kShort = 1,       // one-letter options where there are any
    kExplicit = 2,    // defaults are spelt out
    kFirst = 4,       // options before the directories
    kBackground = 8,  // mounted by a process in the background
};
void opt(V& v, const std::string& name, const std::string& val, bool is_default, int sp)
{
    if (!is_default || (sp & kExplicit))
    {
        v.push_back(name);
        v.push_back(val);
    }
}
V create_opts(const FsConfig& c, int sp)
{
    V v;
    opt(v, sp & kShort ? "-f" : "--format", c.full ? "full" : "lite", !c.full, sp);
    opt(v, "--block-size", fmt("%u", c.block), c.block == 4096, sp);
    opt(v, "--iv-size", fmt("%u", c.iv), c.iv == 12, sp);
    opt(v, "--max-padding", fmt("%u", c.padding), c.padding == 0, sp);
    if (c.full)
    {
        opt(v, "--case", c.ci ? "insensitive" : "sensitive", !c.ci, sp);
        opt(v, "--uninorm", c.uni ? "insensitive" : "sensitive", !c.uni, sp);
    }
    else
    {
        opt(v, "--long-name-threshold", fmt("%d", std::max(0, c.threshold)), c.threshold == 128, sp);
        opt(v, "--long-name-suffix", c.suffix, c.suffix == ".ll", sp);
    }
    return v;
}
V mount_opts(const FsConfig& c, int sp)
{
    V v;
    if (c.noverify)
        v.push_back(sp & kShort ? "-i" : "--insecure");
    if (!c.xattr)
        v.push_back(sp & kShort ? "-x" : "--noxattr");
    opt(v, "--uid-override", fmt("%d", c.uid), c.uid == -1, sp);
    opt(v, "--gid-override", fmt("%d", c.gid), c.gid == -1, sp);
    if (c.sensitive)
        v.push_back("--allow-sensitive-logging");
    opt(v, "--normalization", c.fold && c.nfc ? "casefold+nfc" : c.fold ? "casefold" : c.nfc ? "nfc" : "none", !c.fold && !c.nfc, sp);
    if (c.plain)
        v.push_back("--plain-text-names");
    opt(v, "--max-idle-seconds", fmt("%d", c.idle), c.idle == 0, sp);
    if (sp & kBackground)
        v.push_back("--background");
    return v;
}
V with_dirs(const std::string& cmd, const V& dirs, const V& opts, int sp)
{
    return sp & kFirst ? V{cmd} + opts + dirs : V{cmd} + dirs + opts;
}
void expect_ok(const CliResult& r, const char* what)
{
    if (!r.ok())
        fail("%s fails with code %d: %s", what, r.code, r.err.substr(0, 300).c_str());
}
void strip_keys(DecryptedSecurefsParams& p)
{
    if (p.has_full_format_params())
        p.mutable_full_format_params()->clear_master_key();
    if (p.has_lite_format_params())
    {
        auto* l = p.mutable_lite_format_params();
        l->clear_name_key();
        l->clear_content_key();
        l->clear_xattr_key();
        l->clear_padding_key();
    }
}
DecryptedSecurefsParams opened(const std::string& conf)
{
    return securefs::decrypt(read_file(conf), {(const unsigned char*)kPass.data(), kPass.size()}, nullptr);
}
void check_same(DecryptedSecurefsParams got, DecryptedSecurefsParams want, bool keys, const char* what)
{
    if (!keys)
    {
        strip_keys(got);
        strip_keys(want);
    }
    if (got.SerializeAsString() != want.SerializeAsString())
        fail("%s: %s instead of %s", what, got.ShortDebugString().c_str(), want.ShortDebugString().c_str());
}
// Directory, created for the configuration; its parameters.
std::string created(const FsConfig& c, int sp, const V& extra = {})
{
    std::string d = worker_dir() + "/repo";
    rm_rf(d);
    rm_rf(worker_dir() + "/mnt");
    CliOptions o;
    expect_ok(cli(with_dirs(sp & kShort ? "c" : "create", {d}, V{"--pass", kPass} + create_opts(c, sp) + kCheap + extra, sp), o), "create");
    return d;
}
std::unique_ptr<FsRun> run_on(Mount& m, const FsConfig& c, const std::string& d)
{
    auto mm = std::make_unique<Mount>(m.ops, (void*)m.impl.get(), c);
    mm->dir = d;
    return std::make_unique<FsRun>(c, d, std::move(mm));
}
const V kBattery = {"create a",       "write a 0 5000 1", "create A",        "create =a",    "create =b",   "stat =b",     "stat =B",       "mkdir d",
                    "create d/@n",    "rename d/@n d/@M", "stat d/@m",       "setx a user.n 9 1", "symlink t/u l", "trunc a 4100", "write a 4090 20 2",
                    "read a 0 9999",  "link a e",         "unlink A",        "stat a",       "create d/~q", "rename d/~q ~r", "create d/=s",  "stat d/=S", "rmdir d", "chmod a 600", "chown e 5 6", "chown d 7 8"};
// Sizes of the stored regular files: what the block size, nonce size and padding imply.
void check_sizes(const FsConfig& c, const std::string& d, size_t content, const std::string& when)
{
    std::vector<size_t> sizes;
    for (auto& p : list_storage(d))
    {
        struct stat st;
        if (stat((d + "/" + p).c_str(), &st) == 0 && S_ISREG(st.st_mode) && p.find(".config") == std::string::npos && p.find(".long_names") == std::string::npos)
            sizes.push_back(st.st_size);
    }
    size_t blocks = (content + c.block - 1) / c.block;
    auto has = [&](size_t base)
    {
        for (auto s : sizes)
            if (s >= base && s <= base + c.padding)
                return true;
        return false;
    };
    std::string all;
    for (auto s : sizes)
        all += fmt(" %zu", s);
    if (!c.full && !has(16 + content + blocks * (c.iv + 16)))
        fail("%s: no stored file has a size that %zu bytes in blocks of %u with nonces of %u need:%s", when.c_str(), content, c.block, c.iv, all.c_str());
    if (c.full && !has(content))
        fail("%s: no stored data file has the size of %zu bytes:%s", when.c_str(), content, all.c_str());
    // HMAC, header nonce, header MAC, header, then one nonce and MAC for each block.
    if (c.full && content % c.block && !c.padding && !has(32 + c.iv + 16 + 32 + blocks * (c.iv + 16)))
        fail("%s: no stored metadata file has the size %zu blocks with nonces of %u need:%s", when.c_str(), blocks, c.iv, all.c_str());
    if (c.padding == 0)
        return;
    bool exact = false;
    for (auto s : sizes)
        exact |= !c.full && s == 16 + content + blocks * (c.iv + 16);
    (void)exact;    // a padding of zero is possible
}
void check_names(const FsConfig& c, const std::string& d, const Model& m)
{
    std::set<std::string> comps;
    for (auto& p : list_storage(d))
        for (auto& x : split(p, '/'))
            comps.insert(x);
    bool suffix_seen = false, db = false;
    for (auto& x : comps)
    {
        if (!c.suffix.empty() && x.size() > c.suffix.size() && x.compare(x.size() - c.suffix.size(), std::string::npos, c.suffix) == 0)
            suffix_seen = true;
        db |= x.compare(0, 11, ".long_names") == 0;
    }
    bool want_long = !c.full && !c.plain && c.threshold >= 0;
    if (want_long != (suffix_seen && db))
        fail("long names are %sstored through the table (suffix %s)", want_long ? "not " : "", c.suffix.c_str());
    bool plain = comps.count("e") && comps.count(expand_path("@M").substr(1));
    if (plain != (!c.full && c.plain))
        fail("names are %sstored as they are", plain ? "" : "not ");
    (void)m;
}
// O|cfg|options of the second mount|spelling
void case_options(const std::string& body)
{
    auto f = split(body, '|');
    FsConfig c = FsConfig::parse(f.at(0));
    int sp = atoi(f.at(2).c_str());
    std::string mnt = worker_dir() + "/mnt";
    // With names stored as they are, the repository's own files show up among them.
    std::string conf = (sp & kShort) || c.plain ? worker_dir() + "/elsewhere.conf" : "";
    V where = conf.empty() ? V{} : V{"--config", conf};
    unlink((worker_dir() + "/elsewhere.conf").c_str());
    std::string d = created(c, sp, where);
    if (file_exists(d + "/.config.pb") != conf.empty())
        fail("the configuration is %s", conf.empty() ? "not in the data directory" : "in the data directory although --config names another place");
    if (conf.empty())
        conf = d + "/.config.pb";
    auto p = opened(conf);
    check_same(p, c.params(), false, "parameters of the new repository");
    // The keys of a new repository are its own.
    std::set<std::string> keys;
    size_t nkeys = 0;
    for (auto& k : c.full ? V{p.full_format_params().master_key()}
                          : V{p.lite_format_params().name_key(), p.lite_format_params().content_key(), p.lite_format_params().xattr_key(), p.lite_format_params().padding_key()})
    {
        keys.insert(k);
        ++nkeys;
        if (k.size() != 32 || std::count(k.begin(), k.end(), k[0]) == 32)
            fail("a key of the new repository is %s", hex(k.data(), k.size()).c_str());
    }
    if (keys.size() != nkeys)
        fail("two keys of the new repository are the same");
    for (bool unmask : {false, true})
    {
        auto r = cli(with_dirs(sp & kShort ? "i" : "info", {d}, V{"--pass", kPass} + where + (unmask ? V{"--unmask"} : V{}), sp), {});
        expect_ok(r, "info");
        DecryptedSecurefsParams q;
        if (!google::protobuf::util::JsonStringToMessage(r.out, &q).ok())
            fail("info does not print JSON: %s", r.out.substr(0, 200).c_str());
        auto want = p;
        if (!unmask)
            strip_keys(want);
        check_same(q, want, true, unmask ? "info --unmask" : "info");
    }
    FsConfig base = c;
    base.noverify = base.sensitive = false;
    base.xattr = true;
    base.uid = base.gid = -1;
    base.idle = 0;
    V ops = kBattery;
    V done;
    CliOptions o;
    o.cfg = c;
    bool used = false;
    o.on_mount = [&](Mount& m)
    {
        auto r = run_on(m, c, d);
        r->model.base_cfg = base.str();
        r->dopt.xattr = true;
        for (auto& op : ops)
        {
            count(kTransitions);
            r->step(op);
        }
        r->finish(false);
    };
    auto res = cli(with_dirs(sp & kShort ? "m" : "mount", {d, mnt}, V{"--pass", kPass} + where + mount_opts(c, sp), sp), o);
    used = res.mounted;
    if (!used)
        fail("mount fails with code %d: %s", res.code, res.err.substr(0, 300).c_str());
    Model model(c);
    model.base_cfg = base.str();
    for (auto& op : ops)
        model.apply(op);
    int id = model.lookup("e");
    if (!id)
        throw HarnessError("the battery lost its file");
    check_sizes(c, d, model.n[id].data.size(), "after the first mount");
    check_names(c, d, model);
    // Mounted again with other options: the same tree, with the effect of these options.
    if (model.apply("remountas " + f.at(1)) == Model::kSkip)
        throw HarnessError("remount");
    FsConfig c2 = model.cfg;
    o.seed = 20000038;
    V ops2 = {"write a 100 7 3", "setx a user.m 5 2", "chown a 3 4", "create z", "read a 0 9999", "stat z"};
    o.cfg = c2;
    o.on_mount = [&](Mount& m)
    {
        auto r = run_on(m, c2, d);
        r->model = model;
        r->dopt.xattr = true;
        r->compare("mounted with other options");
        for (auto& op : ops2)
        {
            count(kTransitions);
            r->step(op);
        }
        r->finish(false);
    };
    res = cli(with_dirs("mount", {d, mnt}, V{"--pass", kPass} + where + mount_opts(c2, sp ^ kExplicit), sp), o);
    if (!res.mounted)
        fail("the second mount fails with code %d: %s", res.code, res.err.substr(0, 300).c_str());
}
// A|format|words : what libfuse is asked for
const std::vector<std::pair<std::string, V>>& fuse_flags()
{
    static const std::vector<std::pair<std::string, V>> v = {
        {"s", {"-s"}},
        {"S", {"--single"}},
        {"t0", {"--attr-timeout", "0"}},
        {"t7", {"--attr-timeout", "7"}},
        {"n", {"--fsname", "some name"}},
        {"y", {"--fssubtype", "other"}},
        {"ia", {"--use-ino", "auto"}},
        {"it", {"--use-ino", "true"}},
        {"if", {"--use-ino", "false"}},
        {"o", {"-o", "allow_other"}},
        {"O", {"--opt", "ro", "--opt", "max_read=4096"}},
        {"d", {"--skip-dot-dot"}},
        {"v", {"-v"}},
        {"b", {"--background"}},
    };
    return v;
}
void case_fuse_args(const std::string& body)
{
    auto f = split(body, '|');
    FsConfig c = FsConfig::parse(f.at(0));
    V opts;
    std::set<std::string> on;
    for (auto& w : split(f.at(1), ','))
        for (auto& [n, v] : fuse_flags())
            if (n == w)
            {
                opts = opts + v;
                on.insert(w);
            }
    std::string d = created(c, 0), mnt = worker_dir() + "/mnt";
    auto res = cli(V{"mount", d, mnt, "--pass", kPass} + opts, {});
    if (!res.mounted)
        fail("mount fails with code %d: %s", res.code, res.err.substr(0, 300).c_str());
    auto& a = res.fuse_args;
    std::multiset<std::string> o;
    std::set<std::string> flags;
    V rest;
    for (size_t i = 1; i < a.size(); ++i)
    {
        if (a[i] == "-o" && i + 1 < a.size())
            o.insert(a[++i]);
        else if (a[i].size() > 2 && a[i].compare(0, 2, "-o") == 0)
            o.insert(a[i].substr(2));
        else if (a[i][0] == '-')
            flags.insert(a[i]);
        else
            rest.push_back(a[i]);
    }
    std::string shown;
    for (auto& x : a)
        shown += " " + x;
    auto need = [&](bool has, bool want, const char* what)
    {
        if (has != want)
            fail("%s is %s libfuse:%s", what, has ? "passed to" : "not passed to", shown.c_str());
    };
    const char* t = on.count("t0") ? "0" : on.count("t7") ? "7" : "30";
    for (auto k : {"entry_timeout=", "attr_timeout=", "negative_timeout="})
    {
        need(o.count(std::string(k) + t), true, k);
        for (auto& x : o)
            if (x.compare(0, strlen(k), k) == 0 && x != std::string(k) + t)
                fail("the time out is passed as %s", x.c_str());
    }
    need(o.count("hard_remove"), true, "hard_remove");
    need(o.count("atomic_o_trunc"), true, "atomic_o_trunc");
    need(o.count(std::string("fsname=") + (on.count("n") ? "some name" : "securefs")), true, "the name");
    need(o.count(std::string("subtype=") + (on.count("y") ? "other" : "securefs")), true, "the subtype");
    need(o.count("allow_other"), on.count("o"), "allow_other");
    need(o.count("ro"), on.count("O"), "ro");
    need(o.count("max_read=4096"), on.count("O"), "max_read");
    need(flags.count("-s"), on.count("s") || on.count("S"), "single-threaded mode");
    need(flags.count("-f"), true, "foreground mode");
    bool ino = o.count("use_ino");
    if (on.count("it") || on.count("if"))
        need(ino, on.count("it"), "use_ino");
    else if (c.full)
        need(ino, true, "use_ino");
    std::set<std::string> known = {"hard_remove", "atomic_o_trunc", "use_ino", "big_writes", "allow_other", "ro", "max_read=4096"};
    for (auto& x : o)
        if (!known.count(x) && x.find("_timeout=") == std::string::npos && x.compare(0, 7, "fsname=") && x.compare(0, 8, "subtype="))
            fail("libfuse is passed the option %s nobody asked for", x.c_str());
    if (rest.size() != 1 || rest[0] != mnt)
        fail("the mount point is not passed to libfuse:%s", shown.c_str());
}
// V|n : values that are not documented
struct Bad
{
    const char* cmd;
    V args;
};
const std::vector<Bad>& bad_values()
{
    static const std::vector<Bad> v = {
        {"create", {"--format", "fulll"}},
        {"create", {"--format", ""}},
        {"create", {"--format", "full", "--case", "Insensitive"}},
        {"create", {"--format", "full", "--uninorm", "nfc"}},
        {"create", {"--format", "lite", "--block-size", "many"}},
        {"create", {"--no-such-option"}},
        {"mount", {"--normalization", "NFC"}},
        {"mount", {"--normalization", "nfc+casefold"}},
        {"mount", {"--normalization", "fold"}},
        {"mount", {"--normalization", ""}},
        {"mount", {"--use-ino", "yes"}},
        {"mount", {"--attr-timeout", "long"}},
        {"mount", {"--max-idle-seconds", "1m"}},
        {"mount", {"--uid-override", "root"}},
        {"mount", {"--no-such-option"}},
        {"info", {"--no-such-option"}},
    };
    return v;
}
void case_bad(const std::string& body)
{
    auto f = split(body, '|');
    auto& b = bad_values().at(atoi(f.at(1).c_str()));
    FsConfig c = FsConfig::parse(f.at(0));
    std::string d = worker_dir() + "/repo";
    if (std::string(b.cmd) != "create")
        d = created(c, 0);
    else
        rm_rf(d);
    bool mounted = false;
    auto res = cli(V{b.cmd, d} + (std::string(b.cmd) == "mount" ? V{worker_dir() + "/mnt"} : V{}) + V{"--pass", kPass} + b.args + (std::string(b.cmd) == "create" ? kCheap : V{}), {});
    mounted = res.mounted;
    std::string shown;
    for (auto& a : b.args)
        shown += " " + a;
    if (mounted || res.ok())
        fail("%s accepts%s", b.cmd, shown.c_str());
    if (res.err.empty() && res.out.empty())
        fail("%s refuses%s without a word", b.cmd, shown.c_str());
    if (std::string(b.cmd) == "create" && file_exists(d + "/.config.pb"))
        fail("create refuses%s but leaves a configuration", shown.c_str());
}
// I|cfg|offset from the end : --insecure reads a damaged file, otherwise the damage is reported
void case_insecure(const std::string& body)
{
    auto f = split(body, '|');
    FsConfig c = FsConfig::parse(f.at(0));
    long off = atol(f.at(1).c_str());
    std::string d = created(c, 0), mnt = worker_dir() + "/mnt";
    CliOptions o;
    o.cfg = c;
    o.on_mount = [&](Mount& m)
    {
        auto r = run_on(m, c, d);
        r->step("create a");
        r->step("write a 0 200 1");
        r->finish(false);
    };
    if (!cli(V{"mount", d, mnt, "--pass", kPass}, o).mounted)
        fail("mount fails");
    // The file with the content: the only regular one (lite), or the one of that size (full).
    std::string victim;
    for (auto& p : list_storage(d))
    {
        struct stat st;
        if (stat((d + "/" + p).c_str(), &st) == 0 && S_ISREG(st.st_mode) && p[0] != '.' && (!c.full || st.st_size == 200))
            victim = d + "/" + p;
    }
    if (victim.empty())
        fail("the content is not found in the storage");
    std::string bytes = read_file(victim);
    bytes.at(bytes.size() - 1 - off) ^= 0x10;
    write_file(victim, bytes);
    for (bool insecure : {false, true})
    {
        o.on_mount = [&](Mount& m)
        {
            int err = 0;
            std::string data = read_all(m, "/a", &err);
            count(kTransitions);
            if (insecure && (err || data.size() != 200))
                fail("with --insecure a damaged file cannot be read (%d, %zu bytes)", err, data.size());
            if (!insecure && !err && data != pattern(1, 200))
                fail("without --insecure a damaged file is read as if it were genuine");
            if (!insecure && !err)
                fail("without --insecure the damage goes unnoticed");
        };
        if (!cli(V{"mount", d, mnt, "--pass", kPass} + (insecure ? V{"--insecure"} : V{}), o).mounted)
            fail("mount fails");
    }
}
// F|cfg|0 or 1 (2, 3: in the background) : --noflock
int g_flocks;
void case_noflock(const std::string& body)
{
    auto f = split(body, '|');
    FsConfig c = FsConfig::parse(f.at(0));
    bool off = atoi(f.at(1).c_str()) & 1, bg = atoi(f.at(1).c_str()) & 2;
    std::string d = created(c, 0), mnt = worker_dir() + "/mnt";
    CliOptions o;
    o.cfg = c;
    o.hooks_on_mount = true;
    o.on_mount = [&](Mount& m)
    {
        g_flocks = 0;
        g_sys_hook = [](const SysInfo& i)
        {
            g_flocks += i.id == kFlock;
            return SysAction{};
        };
        auto r = run_on(m, c, d);
        for (auto op : {"ocreate a 0", "hw 0 0 90 1", "hr 0 0 90", "ht 0 10", "close 0", "trunc a 3", "read a 0 9"})
            r->step(op);
        g_sys_hook = nullptr;
        r->finish(false);
        if (off && g_flocks)
            fail("with --noflock files are locked (%d calls)", g_flocks);
        if (!off && !c.full && !g_flocks)
            fail("without --noflock files of a lite repository are not locked");
    };
    if (!cli(V{"mount", d, mnt, "--pass", kPass} + (off ? V{"--noflock", "-s"} : V{}) + (bg ? V{"--background"} : V{}), o).mounted)
        fail("mount fails");
}
// B|n : what is in the repository decides which configuration is used
void case_which(const std::string& body)
{
    (void)body;
    FsConfig c = FsConfig::parse("lite:t128:s.ll");
    std::string d = created(c, 0), mnt = worker_dir() + "/mnt";
    // Without any, and with a --config that does not exist.
    rename((d + "/.config.pb").c_str(), (worker_dir() + "/moved.conf").c_str());
    if (cli(V{"mount", d, mnt, "--pass", kPass}, {}).ok())
        fail("a directory without a configuration is mounted");
    if (cli(V{"mount", d, mnt, "--pass", kPass, "--config", worker_dir() + "/absent.conf"}, {}).ok())
        fail("a configuration that does not exist is used");
    if (!cli(V{"mount", d, mnt, "--pass", kPass, "--config", worker_dir() + "/moved.conf"}, {}).mounted)
        fail("the configuration named by --config is not used");
}
// Whether the process has been asked to shut down: libfuse's stand-in is called with the pipe for that set up.
bool shutdown_asked()
{
    for (int fd = 3; fd < 200; ++fd)
    {
        struct stat st;
        struct pollfd pf = {fd, POLLIN, 0};
        if (fstat(fd, &st) == 0 && S_ISFIFO(st.st_mode) && poll(&pf, 1, 0) == 1 && (pf.revents & POLLIN))
            return true;
    }
    return false;
}
// T|cfg|seconds : --max-idle-seconds (the timing itself is C26)
void case_idle(const std::string& body)
{
    auto f = split(body, '|');
    FsConfig c = FsConfig::parse(f.at(0));
    int secs = atoi(f.at(1).c_str());
    std::string d = created(c, 0), mnt = worker_dir() + "/mnt";
    auto virt = g_virtual_now_ns;
    g_virtual_now_ns = -1;
    CliOptions o;
    o.cfg = c;
    o.on_mount = [&](Mount& m)
    {
        struct stat st;
        m.getattr("/", &st);
        int limit = secs ? 200 : 25, i = 0;
        for (; i < limit && !shutdown_asked(); ++i)
            usleep(100000);
        if (secs && i == limit)
            fail("20 seconds after the last operation, a mount with --max-idle-seconds %d is still running", secs);
        if (!secs && i < limit)
            fail("a mount without idle limit is shut down");
    };
    bool mounted = cli(V{"mount", d, mnt, "--pass", kPass} + (secs ? V{"--max-idle-seconds", fmt("%d", secs)} : V{}), o).mounted;
    g_virtual_now_ns = virt;
    if (!mounted)
        fail("mount fails");
}

// S|cfg[|1: in the background] : what --allow-sensitive-logging lets into the log, with the other options of the configuration
void case_sensitive(const std::string& body)
{
    auto f = split(body, '|');
    FsConfig c = FsConfig::parse(f.at(0));
    bool bg = f.size() > 1;
    std::string d = created(c, 0), mnt = worker_dir() + "/mnt", log = worker_dir() + "/opts.log";
    unlink(log.c_str());
    auto virt = g_virtual_now_ns;
    if (c.idle)
        g_virtual_now_ns = -1;
    CliOptions o;
    o.cfg = c;
    o.on_mount = [&](Mount& m)
    {
        uint64_t fh = 0;
        std::string got;
        int rc = m.create("/file", 0644, &fh);
        rc |= m.write("/file", fh, "Content-Of-Osprey", 0) != 17;
        rc |= m.read("/file", fh, &got, 17, 0) != 17;
        rc |= m.release("/file", fh);
        if (c.xattr)
        {
            rc |= m.setxattr("/file", "user.a", "Value-Of-Osprey", 0);
            rc |= m.getxattr("/file", "user.a", &got, 40, false) != 15;
        }
        if (rc)
            fail("operations fail");
    };
    if (!cli(V{"mount", d, mnt, "--pass", kPass, "--trace", "--log", log} + mount_opts(c, bg ? kBackground : 0), o).mounted)
        fail("mount fails");
    g_virtual_now_ns = virt;
    auto text = read_file(log);
    auto times = [&](const char* w)
    {
        int n = 0;
        for (size_t at = 0; (at = text.find(w, at)) != std::string::npos; ++at)
            ++n;
        return n;
    };
    int a = times("Content-Of-Osprey"), b = times("Value-Of-Osprey");
    count(kTransitions, 5);
    if (!times("getxattr") && c.xattr)
        fail("--trace logs nothing");
    if (!c.sensitive && (a || b))
        fail("without --allow-sensitive-logging contents or values are logged");
    if (c.sensitive && (!a || (c.xattr && !b)))
        fail("with --allow-sensitive-logging and tracing, contents are logged %d times and values %d times", a, b);
}

bool run_one(const std::string& c)
{
    if (c.compare(0, 1, "@"))
        return false;
    std::string body = c.substr(3);
    switch (c[1])
    {
    case 'O': case_options(body); return true;
    case 'A': case_fuse_args(body); return true;
    case 'V': case_bad(body); return true;
    case 'I': case_insecure(body); return true;
    case 'F': case_noflock(body); return true;
    case 'B': case_which(body); return true;
    case 'T': case_idle(body); return true;
    case 'S': case_sensitive(body); return true;
    }
    return false;
}
}    // namespace

int main(int argc, char** argv)
{
    CheckDef d;
    d.setup = [] { umask(0); };
    d.worker_init = [] { umask(0); g_virtual_now_ns = 1700000000000000000ll; };
    d.rule = "executions are distinct when the options differ";
    d.assumptions = {"libfuse does what its arguments say"};
    d.run_case = [](const std::string& c)
    {
        if (!run_one(c))
            throw HarnessError("bad case");
    };
    d.shards = []
    {
        std::vector<Shard> sh;
        V cases;
        bool th = g_args.thorough();
        V creates, mounts = {""}, lmounts;
        for (auto b : {"", ":b64", ":b512"})
            for (auto i : {"", ":i16", ":i32"})
                for (auto p : {"", ":p30"})
                {
                    for (auto x : {"", ":ci", ":uni", ":ci:uni"})
                        creates.push_back(std::string("full") + b + i + p + x);
                    for (auto x : {"", ":t128:", ":t40:"})
                        for (auto s : {"s.ll", "s.long"})
                            creates.push_back(std::string("lite") + b + i + p + (*x ? x : ":") + s);
                }
        for (auto n : {":noverify", ":noxattr", ":sens", ":u33", ":g44", ":u0:g0"})
        {
            V more = mounts;
            for (auto& m : mounts)
                if (std::string(n) != ":u0:g0" || m.find(":u") + m.find(":g") == 2 * std::string::npos)
                    more.push_back(m + n);
            mounts = more;
        }
        for (auto& m : mounts)
            for (auto n : {"", ":fold", ":nfc", ":fold:nfc", ":plain", ":plain:fold"})
                lmounts.push_back(m + n);
        V second = {"none", "noverify", "u0:g0", "noxattr", "u7:g8", "u0", "noverify:noxattr:u9:sens", "g0:sens", "u3:g0"};
        size_t k = 0;
        auto O = [&](const std::string& cfg)
        {
            for (int sp = 0; sp < (th ? 16 : 1); ++sp)
                cases.push_back(fmt("@O|%s|%s|%zu", cfg.c_str(), second[k % second.size()].c_str(), th ? (size_t)sp : k * 11 / 8 % 16)), ++k;
        };
        for (auto& c : creates)
            for (auto m : {"", ":noverify:u33"})
                O(c + m);
        for (auto& m : mounts)
            for (auto c : th ? V{"full", "full:b64:i16:p30", "full:ci:uni"} : V{"full", "full:b64:ci"})
                O(c + m);
        for (auto& m : lmounts)
            for (auto c : th ? V{"lite:t128:s.ll", "lite:s.ll", "lite:b64:i16:p30:t40:s.long"} : V{"lite:t128:s.ll"})
                O(c + m);
        // Options that have no effect on the other format are accepted there.
        auto& ff = fuse_flags();
        for (auto c : {"full", "lite:t128:s.ll"})
        {
            cases.push_back(fmt("@A|%s|", c));
            for (size_t i = 0; i < ff.size(); ++i)
            {
                cases.push_back(fmt("@A|%s|%s", c, ff[i].first.c_str()));
                for (size_t j = 0; j < ff.size(); ++j)
                    if (i != j && ff[i].second[0] != ff[j].second[0] && (th || i < j) && !(ff[i].first + ff[j].first == "sS" || ff[i].first + ff[j].first == "Ss"))
                        cases.push_back(fmt("@A|%s|%s,%s", c, ff[i].first.c_str(), ff[j].first.c_str()));
            }
            for (size_t i = 0; i < bad_values().size(); ++i)
                cases.push_back(fmt("@V|%s|%zu", c, i));
            for (auto n : {0, 1, 2, 3})
                cases.push_back(fmt("@F|%s|%d", c, n));
        }
        for (auto c : {"full:b64", "full", "lite:b64:t128:s.ll", "lite:t128:s.ll", "lite:b64:p30:t128:s.ll"})
            for (int off = 0; off < 200; off += th ? 1 : 9)
                cases.push_back(fmt("@I|%s|%d", c, off));
        cases.push_back("@B|0");
        for (auto c : {"full", "lite:t128:s.ll"})
            for (int n : {0, 1})
                cases.push_back(fmt("@T|%s|%d", c, n));
        for (auto c : {"full", "full:ci", "lite:t128:s.ll", "lite:t128:s.ll:fold"})
            for (auto x : {"", ":noxattr"})
                for (auto y : {"", ":noverify", ":u5"})
                    for (auto z : {"", ":idle1000"})
                        for (auto w : {"", ":sens"})
                            for (auto b : {"", "|1"})
                                cases.push_back(std::string("@S|") + c + x + y + z + w + b);
        size_t per = 6;
        for (size_t i = 0; i < cases.size(); i += per)
        {
            V part(cases.begin() + i, cases.begin() + std::min(cases.size(), i + per));
            sh.push_back({"options", [part]
                          {
                              for (auto& c : part)
                                  guarded(c, [&]
                                          {
                                              begin_case(c);
                                              run_one(c);
                                              count(kEval);
                                              if (distinct(hash_str(c)))
                                                  count(kNontrivial);
                                              if (counter(kEval) % 97 == 1)
                                                  sample(c);
                                          });
                          }});
        }
        set_bounds_note(fmt("the command line: %zu ways to create a repository, %zu and %zu sets of mount options for the two formats, each with a second mount under other options; "
                            "every pair of the options passed on to libfuse; %zu undocumented values; damage with and without --insecure; --noflock; --background with all of these; --config; what tracing logs with and without --allow-sensitive-logging under 24 other sets of options",
                            creates.size(), mounts.size(), lmounts.size(), bad_values().size()));
        return sh;
    };
    return check_main(argc, argv, d);
}
