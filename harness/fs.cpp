#include "fs.h"
#include "fuse_high_level_ops_base.h"
#include "logger.h"
#include "platform.h"
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fuse.h>
#include <sys/statvfs.h>
#include <sys/xattr.h>
#include <unistd.h>

namespace vf
{
thread_local void* t_fuse_private;
thread_local uid_t t_fuse_uid, t_fuse_gid;
}
extern "C" struct fuse_context* fuse_get_context()
{
    static thread_local struct fuse_context c;
    c.private_data = vf::t_fuse_private;
    c.uid = vf::t_fuse_uid;
    c.gid = vf::t_fuse_gid;
    c.pid = 1;
    c.umask = 022;
    return &c;
}

namespace vf
{
static std::string key(int variant, int which, size_t n = 32)
{
    std::string s(n, 0);
    uint64_t x = 0x1000193 * (which + 1) + 7919 * variant;
    for (auto& c : s)
    {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        c = (char)(x >> 56);
    }
    return s;
}
securefs::DecryptedSecurefsParams FsConfig::params() const
{
    securefs::DecryptedSecurefsParams p;
    p.mutable_size_params()->set_block_size(block);
    p.mutable_size_params()->set_iv_size(iv);
    p.mutable_size_params()->set_max_padding_size(padding);
    if (full)
    {
        auto* f = p.mutable_full_format_params();
        f->set_master_key(key(key_variant, 0));
        f->set_store_time(store_time);
        f->set_legacy_file_table_io(legacy_io);
        f->set_case_insensitive(ci);
        f->set_unicode_normalization_agnostic(uni);
    }
    else
    {
        auto* l = p.mutable_lite_format_params();
        l->set_name_key(key(key_variant, 1));
        l->set_content_key(key(key_variant, 2));
        l->set_xattr_key(key(key_variant, 3));
        l->set_padding_key(key(key_variant, 4));
        if (threshold >= 0)
            l->set_long_name_threshold(threshold);
        l->set_long_name_suffix(suffix);
    }
    return p;
}
securefs::MountOptions FsConfig::options() const
{
    securefs::MountOptions o;
    o.set_read_only(ro);
    o.set_disable_verification(noverify);
    if (uid >= 0)
        o.set_uid_override(uid);
    if (gid >= 0)
        o.set_gid_override(gid);
    o.set_enable_xattr(xattr);
    o.set_case_fold(fold);
    o.set_unicode_normalize_nfc(nfc);
    o.set_plain_text_names(plain);
    o.set_allow_sensitive_logging(sensitive);
    o.set_max_idle_seconds(idle);
    return o;
}
std::string FsConfig::str() const
{
    std::string s = full ? "full" : "lite";
    s += fmt(":b%u:i%u:p%u", block, iv, padding);
    if (threshold >= 0)
        s += fmt(":t%d", threshold);
    if (!suffix.empty())
        s += ":s" + suffix;
    if (nfc)
        s += ":nfc";
    if (fold)
        s += ":fold";
    if (plain)
        s += ":plain";
    if (store_time)
        s += ":time";
    if (legacy_io)
        s += ":v1";
    if (ci)
        s += ":ci";
    if (uni)
        s += ":uni";
    if (noverify)
        s += ":noverify";
    if (ro)
        s += ":ro";
    if (!xattr)
        s += ":noxattr";
    if (sensitive)
        s += ":sens";
    if (uid >= 0)
        s += fmt(":u%d", uid);
    if (gid >= 0)
        s += fmt(":g%d", gid);
    if (idle)
        s += fmt(":idle%d", idle);
    if (key_variant)
        s += fmt(":k%d", key_variant);
    return s;
}
FsConfig FsConfig::parse(const std::string& str)
{
    FsConfig c;
    for (auto& t : split(str, ':'))
    {
        if (t == "full") c.full = true;
        else if (t == "lite") c.full = false;
        else if (t == "nfc") c.nfc = true;
        else if (t == "fold") c.fold = true;
        else if (t == "plain") c.plain = true;
        else if (t == "time") c.store_time = true;
        else if (t == "v1") c.legacy_io = true;
        else if (t == "ci") c.ci = true;
        else if (t == "uni") c.uni = true;
        else if (t == "noverify") c.noverify = true;
        else if (t == "noxattr") c.xattr = false;
        else if (t == "ro") c.ro = true;
        else if (t == "sens") c.sensitive = true;
        else if (t.compare(0, 4, "idle") == 0) c.idle = atoi(t.c_str() + 4);
        else if (t[0] == 'b') c.block = atoi(t.c_str() + 1);
        else if (t[0] == 'i') c.iv = atoi(t.c_str() + 1);
        else if (t[0] == 'p') c.padding = atoi(t.c_str() + 1);
        else if (t[0] == 't') c.threshold = atoi(t.c_str() + 1);
        else if (t[0] == 's') c.suffix = t.substr(1);
        else if (t[0] == 'u') c.uid = atoi(t.c_str() + 1);
        else if (t[0] == 'g') c.gid = atoi(t.c_str() + 1);
        else if (t[0] == 'k') c.key_variant = atoi(t.c_str() + 1);
        else throw HarnessError("bad config token " + t);
    }
    return c;
}

bool g_quiet = true;
Mount::Mount(const std::string& d, const FsConfig& c) : cfg(c), dir(d)
{
    if (g_quiet)
        securefs::global_logger.reset();
    impl = securefs::make_fuse_high_level_ops(
        std::make_shared<securefs::OSService>(d), c.params(), c.options());
    ops = securefs::FuseHighLevelOpsBase::build_ops(impl.get());
}
Mount::Mount(const fuse_operations& o, void* priv, const FsConfig& c) : ops(o), cfg(c)
{
    impl.reset((securefs::FuseHighLevelOpsBase*)priv, [](auto*) {});
}
Mount::~Mount() {}
void Mount::enter()
{
    t_fuse_private = impl.get();
    t_fuse_uid = uid;
    t_fuse_gid = gid;
}
// libfuse passes no path for an open file whose name is gone.
static const char* cp(const std::string& p) { return p.empty() ? nullptr : p.c_str(); }
#define NEED(f)                                                                                    \
    if (!ops.f)                                                                                    \
        return -ENOSYS;                                                                            \
    enter();
int Mount::getattr(const std::string& p, struct stat* st)
{
    NEED(getattr)
    memset(st, 0, sizeof *st);
    return ops.getattr(p.c_str(), st);
}
int Mount::fgetattr(const std::string& p, uint64_t fh, struct stat* st)
{
    NEED(fgetattr)
    memset(st, 0, sizeof *st);
    fuse_file_info i{};
    i.fh = fh;
    return ops.fgetattr(cp(p), st, &i);
}
int Mount::create(const std::string& p, mode_t mode, uint64_t* fh)
{
    NEED(create)
    fuse_file_info i{};
    i.flags = O_RDWR | O_CREAT;
    int rc = ops.create(p.c_str(), S_IFREG | mode, &i);
    *fh = i.fh;
    return rc;
}
int Mount::open(const std::string& p, int flags, uint64_t* fh)
{
    NEED(open)
    fuse_file_info i{};
    i.flags = flags & ~(O_CREAT | O_EXCL);
    int rc = ops.open(p.c_str(), &i);
    *fh = i.fh;
    return rc;
}
int Mount::release(const std::string& p, uint64_t fh)
{
    NEED(release)
    fuse_file_info i{};
    i.fh = fh;
    return ops.release(cp(p), &i);
}
int Mount::read(const std::string& p, uint64_t fh, std::string* out, size_t n, off_t off)
{
    NEED(read)
    fuse_file_info i{};
    i.fh = fh;
    // Canaries around the buffer: the operation must stay inside it.
    std::string buf(n + 16, '\x5a');
    int rc = ops.read(cp(p), &buf[8], n, off, &i);
    if (rc > (int)n)
        fail("read returned %d for a request of %zu", rc, n);
    for (int k = 0; k < 8; ++k)
        if (buf[k] != '\x5a' || buf[n + 8 + k] != '\x5a')
            fail("read wrote outside the caller's buffer");
    if (rc >= 0)
        *out = buf.substr(8, rc);
    return rc;
}
int Mount::write(const std::string& p, uint64_t fh, const std::string& d, off_t off)
{
    NEED(write)
    fuse_file_info i{};
    i.fh = fh;
    return ops.write(cp(p), d.data(), d.size(), off, &i);
}
int Mount::flush(const std::string& p, uint64_t fh)
{
    NEED(flush)
    fuse_file_info i{};
    i.fh = fh;
    return ops.flush(cp(p), &i);
}
int Mount::fsync(const std::string& p, uint64_t fh)
{
    NEED(fsync)
    fuse_file_info i{};
    i.fh = fh;
    return ops.fsync(cp(p), 0, &i);
}
int Mount::ftruncate(const std::string& p, uint64_t fh, off_t n)
{
    NEED(ftruncate)
    fuse_file_info i{};
    i.fh = fh;
    return ops.ftruncate(cp(p), n, &i);
}
int Mount::truncate(const std::string& p, off_t n){NEED(truncate) return ops.truncate(p.c_str(), n);}
int Mount::unlink(const std::string& p){NEED(unlink) return ops.unlink(p.c_str());}
int Mount::mkdir(const std::string& p, mode_t m){NEED(mkdir) return ops.mkdir(p.c_str(), m);}
int Mount::rmdir(const std::string& p){NEED(rmdir) return ops.rmdir(p.c_str());}
int Mount::rename(const std::string& a, const std::string& b){NEED(rename) return ops.rename(a.c_str(), b.c_str());}
int Mount::link(const std::string& a, const std::string& b){NEED(link) return ops.link(a.c_str(), b.c_str());}
int Mount::symlink(const std::string& t, const std::string& p){NEED(symlink) return ops.symlink(t.c_str(), p.c_str());}
int Mount::readlink(const std::string& p, std::string* out)
{
    NEED(readlink)
    std::vector<char> b(4097, 'Z');    // what libfuse passes
    int rc = ops.readlink(p.c_str(), b.data(), b.size());
    if (rc == 0)
        *out = std::string(b.data(), strnlen(b.data(), b.size()));
    return rc;
}
int Mount::chmod(const std::string& p, mode_t m){NEED(chmod) return ops.chmod(p.c_str(), m);}
int Mount::chown(const std::string& p, uid_t u, gid_t g){NEED(chown) return ops.chown(p.c_str(), u, g);}
int Mount::utimens(const std::string& p, const timespec* ts){NEED(utimens) return ops.utimens(p.c_str(), ts);}
static int filler(void* buf, const char* name, const struct stat* st, off_t)
{
    ((std::vector<DirEnt>*)buf)->push_back({name, st ? st->st_mode & S_IFMT : 0});
    return 0;
}
int Mount::readdir(const std::string& p, std::vector<DirEnt>* out)
{
    NEED(opendir)
    fuse_file_info i{};
    int rc = ops.opendir(p.c_str(), &i);
    if (rc)
        return rc;
    rc = ops.readdir(p.c_str(), out, filler, 0, &i);
    int rc2 = ops.releasedir(p.c_str(), &i);
    return rc ? rc : rc2;
}
int Mount::opendir(const std::string& p, uint64_t* fh)
{
    NEED(opendir)
    fuse_file_info i{};
    int rc = ops.opendir(p.c_str(), &i);
    *fh = i.fh;
    return rc;
}
int Mount::readdir(const std::string& p, uint64_t fh, std::vector<DirEnt>* out)
{
    NEED(readdir)
    fuse_file_info i{};
    i.fh = fh;
    return ops.readdir(p.c_str(), out, filler, 0, &i);
}
int Mount::releasedir(const std::string& p, uint64_t fh)
{
    NEED(releasedir)
    fuse_file_info i{};
    i.fh = fh;
    return ops.releasedir(p.c_str(), &i);
}
int Mount::readdir_twice(const std::string& p, std::vector<DirEnt>* out)
{
    uint64_t fh = 0;
    int rc = opendir(p, &fh);
    if (rc)
        return rc;
    rc = readdir(p, fh, out);
    if (!rc)
    {
        std::vector<DirEnt> again;
        rc = readdir(p, fh, &again);
        auto names = [](const std::vector<DirEnt>& v)
        {
            std::multiset<std::string> r;
            for (auto& e : v)
                r.insert(e.name);
            return r;
        };
        if (!rc && names(again) != names(*out))
        {
            releasedir(p, fh);
            fail("readdir(%s) lists %zu names, and %zu when repeated through the same handle", p.c_str(), out->size(), again.size());
        }
    }
    int rc2 = releasedir(p, fh);
    return rc ? rc : rc2;
}
int Mount::setxattr(const std::string& p, const std::string& n, const std::string& v, int flags)
{
    NEED(setxattr)
    return ops.setxattr(p.c_str(), n.c_str(), v.data(), v.size(), flags);
}
int Mount::getxattr(const std::string& p, const std::string& n, std::string* v, size_t size, bool probe)
{
    NEED(getxattr)
    if (probe)
        return ops.getxattr(p.c_str(), n.c_str(), nullptr, 0);
    std::string buf(size + 16, '\x5a');
    int rc = ops.getxattr(p.c_str(), n.c_str(), &buf[8], size);
    if (rc > (int)size)
        fail("getxattr returned %d for a buffer of %zu", rc, size);
    for (int k = 0; k < 8; ++k)
        if (buf[k] != '\x5a' || buf[size + 8 + k] != '\x5a')
            fail("getxattr wrote outside the caller's buffer");
    if (rc >= 0)
        *v = buf.substr(8, rc);
    return rc;
}
int Mount::listxattr_raw(const std::string& p, char* buf, size_t n)
{
    NEED(listxattr)
    return ops.listxattr(p.c_str(), buf, n);
}
int Mount::listxattr(const std::string& p, std::vector<std::string>* names)
{
    NEED(listxattr)
    int rc = ops.listxattr(p.c_str(), nullptr, 0);
    if (rc < 0)
        return rc;
    std::string b(rc + 16, '\x5a');
    int rc2 = ops.listxattr(p.c_str(), &b[8], rc);
    if (rc == 0)
        return 0;
    if (rc2 < 0)
        return rc2;
    if (rc2 > rc)
        fail("listxattr returned %d for a buffer of %d", rc2, rc);
    for (int k = 0; k < 8; ++k)
        if (b[k] != '\x5a' || b[rc + 8 + k] != '\x5a')
            fail("listxattr wrote outside the caller's buffer");
    std::string s = b.substr(8, rc2);
    size_t i = 0;
    while (i < s.size())
    {
        auto e = s.find('\0', i);
        if (e == std::string::npos)
            fail("listxattr returned an unterminated name");
        names->push_back(s.substr(i, e - i));
        i = e + 1;
    }
    return rc2;
}
int Mount::removexattr(const std::string& p, const std::string& n){NEED(removexattr) return ops.removexattr(p.c_str(), n.c_str());}
int Mount::statfs(const std::string& p, struct statvfs* s){NEED(statfs) return ops.statfs(p.c_str(), s);}

std::string read_all(Mount& m, const std::string& path, int* err)
{
    uint64_t fh;
    *err = 0;
    int rc = m.open(path, O_RDONLY, &fh);
    if (rc < 0)
    {
        *err = rc;
        return {};
    }
    std::string out, part;
    while (true)
    {
        rc = m.read(path, fh, &part, 65536, out.size());
        if (rc <= 0)
            break;
        out += part;
    }
    if (rc < 0)
        *err = rc;
    rc = m.release(path, fh);
    if (rc < 0 && !*err)
        *err = rc;
    return out;
}

static void dump_rec(Mount& m,
                     const std::string& p,
                     const DumpOptions& o,
                     std::map<std::string, std::string>& out,
                     std::map<uint64_t, std::string>& inodes,
                     int depth)
{
    struct stat st;
    int rc = m.getattr(p, &st);
    if (rc)
    {
        if (o.tolerate_errors)
        {
            out[p] = fmt("getattr-error %d", rc);
            return;
        }
        fail("getattr(%s) of a listed name returned %d", p.c_str(), rc);
    }
    std::string d;
    char t = S_ISDIR(st.st_mode) ? 'd' : S_ISREG(st.st_mode) ? 'f' : S_ISLNK(st.st_mode) ? 'l' : '?';
    d += t;
    if (o.mode && t != 'l')
        d += fmt(" %o", st.st_mode & 07777);
    if (o.owner)
        d += fmt(" %d:%d", (int)st.st_uid, (int)st.st_gid);
    if (t != 'd')
    {
        auto it = inodes.find(st.st_ino);
        if (it == inodes.end())
            inodes[st.st_ino] = p;
        else
            d += " =" + it->second;
        if (o.nlink)
            d += fmt(" n%d", (int)st.st_nlink);
    }
    if (o.times)
        d += fmt(" a%ld.%09ld m%ld.%09ld",
                 (long)st.st_atim.tv_sec,
                 (long)st.st_atim.tv_nsec,
                 (long)st.st_mtim.tv_sec,
                 (long)st.st_mtim.tv_nsec);
    if (t == 'f' && o.content)
    {
        int err;
        std::string c = read_all(m, p, &err);
        if (err)
        {
            if (!o.tolerate_errors)
                fail("reading %s returned %d", p.c_str(), err);
            d += fmt(" read-error %d", err);
        }
        else
        {
            if ((size_t)st.st_size != c.size())
            {
                if (!o.tolerate_errors)
                    fail("%s: reported size %lld but %zu bytes readable", p.c_str(), (long long)st.st_size, c.size());
                d += " size-mismatch";
            }
            d += fmt(" s%zu ", c.size()) + (c.size() <= 48 ? cescape(c) : fmt("#%016llx", (unsigned long long)hash_str(c)));
        }
    }
    else if (t == 'f')
        d += fmt(" s%lld", (long long)st.st_size);
    if (t == 'l')
    {
        std::string target;
        rc = m.readlink(p, &target);
        if (rc)
        {
            if (!o.tolerate_errors)
                fail("readlink(%s) returned %d", p.c_str(), rc);
            d += fmt(" readlink-error %d", rc);
        }
        else
        {
            if ((size_t)st.st_size != target.size() && m.cfg.full == false)
            {
                if (!o.tolerate_errors)
                    fail("symlink %s: size %lld, target %zu bytes", p.c_str(), (long long)st.st_size, target.size());
            }
            d += " ->" + cescape(target);
        }
    }
    if (o.xattr && m.cfg.xattr && t == 'l' && !o.tolerate_errors)
    {
        std::vector<std::string> names;
        rc = m.listxattr(p, &names);
        if (rc < 0 || !names.empty())
            fail("listxattr(%s) of a link returned %d and %zu names", p.c_str(), rc, names.size());
    }
    if (o.xattr && m.cfg.xattr && t != 'l')
    {
        std::vector<std::string> names;
        rc = m.listxattr(p, &names);
        if (rc < 0)
        {
            if (!o.tolerate_errors)
                fail("listxattr(%s) returned %d", p.c_str(), rc);
            d += fmt(" listxattr-error %d", rc);
        }
        std::sort(names.begin(), names.end());
        for (auto& n : names)
        {
            std::string v;
            rc = m.getxattr(p, n, nullptr, 0, true);
            if (rc >= 0)
                rc = rc == 0 ? 0 : m.getxattr(p, n, &v, rc, false);
            if (rc < 0)
            {
                if (!o.tolerate_errors)
                    fail("getxattr(%s,%s) returned %d", p.c_str(), n.c_str(), rc);
                d += fmt(" @%s error %d", cescape(n).c_str(), rc);
            }
            else
                d += " @" + cescape(n) + "=" + (v.size() <= 32 ? cescape(v) : fmt("#%zu:%016llx", v.size(), (unsigned long long)hash_str(v)));
        }
    }
    out[p] = d;
    if (t == 'd')
    {
        if (depth > 12)
            fail("directory nesting at %s exceeds anything created", p.c_str());
        std::vector<DirEnt> ents;
        rc = m.readdir_twice(p, &ents);
        if (rc)
        {
            if (!o.tolerate_errors)
                fail("readdir(%s) returned %d", p.c_str(), rc);
            out[p] += fmt(" readdir-error %d", rc);
            return;
        }
        int dot = 0, dotdot = 0;
        std::set<std::string> seen;
        std::vector<DirEnt> real;
        for (auto& e : ents)
        {
            if (e.name == ".")
                ++dot;
            else if (e.name == "..")
                ++dotdot;
            else
            {
                if (!seen.insert(e.name).second)
                    fail("readdir(%s) lists %s twice", p.c_str(), cescape(e.name).c_str());
                real.push_back(e);
            }
        }
        if (dot != 1 || dotdot != 1)
            fail("readdir(%s) lists . %d times and .. %d times", p.c_str(), dot, dotdot);
        std::sort(real.begin(), real.end(), [](auto& a, auto& b) { return a.name < b.name; });
        for (auto& e : real)
        {
            std::string cp = p == "/" ? "/" + e.name : p + "/" + e.name;
            dump_rec(m, cp, o, out, inodes, depth + 1);
            if (e.type)
            {
                struct stat s2;
                if (m.getattr(cp, &s2) == 0 && (s2.st_mode & S_IFMT) != e.type)
                    fail("readdir reports type %o for %s, getattr %o", e.type, cp.c_str(), s2.st_mode & S_IFMT);
            }
        }
    }
}
std::map<std::string, std::string> dump_tree(Mount& m, const DumpOptions& o)
{
    std::map<std::string, std::string> out;
    std::map<uint64_t, std::string> inodes;
    dump_rec(m, "/", o, out, inodes, 0);
    return out;
}
std::string diff_dumps(const std::map<std::string, std::string>& want,
                       const std::map<std::string, std::string>& got)
{
    std::string r;
    for (auto& [k, v] : want)
    {
        auto it = got.find(k);
        if (it == got.end())
            r += " missing " + cescape(k) + " [" + v + "];";
        else if (it->second != v)
            r += " " + cescape(k) + " expected [" + v + "] got [" + it->second + "];";
    }
    for (auto& [k, v] : got)
        if (!want.count(k))
            r += " unexpected " + cescape(k) + " [" + v + "];";
    return r;
}

static void list_rec(const std::string& base, const std::string& rel, std::vector<std::string>& out)
{
    std::string p = rel.empty() ? base : base + "/" + rel;
    DIR* d = opendir(p.c_str());
    if (!d)
        return;
    std::vector<std::pair<std::string, bool>> names;
    while (auto* e = ::readdir(d))
    {
        std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        names.push_back({n, e->d_type == DT_DIR});
    }
    closedir(d);
    std::sort(names.begin(), names.end());
    for (auto& [n, isdir] : names)
    {
        std::string r = rel.empty() ? n : rel + "/" + n;
        if (isdir)
            list_rec(base, r, out);
        else
            out.push_back(r);
    }
}
std::vector<std::string> list_storage(const std::string& dir)
{
    NoHook nh;
    std::vector<std::string> r;
    list_rec(dir, "", r);
    return r;
}
static void copy_xattrs(const std::string& a, const std::string& b)
{
    char names[65536];
    ssize_t n = llistxattr(a.c_str(), names, sizeof names);
    for (ssize_t i = 0; i < n;)
    {
        std::string nm = names + i;
        i += nm.size() + 1;
        static char v[70000];
        ssize_t k = lgetxattr(a.c_str(), nm.c_str(), v, sizeof v);
        if (k >= 0)
            lsetxattr(b.c_str(), nm.c_str(), v, k, 0);
    }
}
static void copy_rec(const std::string& a, const std::string& b, std::map<ino_t, std::string>& links)
{
    struct stat st;
    if (lstat(a.c_str(), &st))
        throw HarnessError("copy_tree: " + a);
    if (S_ISDIR(st.st_mode))
    {
        ::mkdir(b.c_str(), 0755);
        DIR* d = opendir(a.c_str());
        std::vector<std::string> names;
        while (auto* e = ::readdir(d))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
                names.push_back(e->d_name);
        closedir(d);
        for (auto& n : names)
            copy_rec(a + "/" + n, b + "/" + n, links);
        copy_xattrs(a, b);
        ::chmod(b.c_str(), st.st_mode & 07777);
    }
    else if (S_ISLNK(st.st_mode))
    {
        char t[8192];
        ssize_t n = ::readlink(a.c_str(), t, sizeof t - 1);
        t[n] = 0;
        (void)!::symlink(t, b.c_str());
    }
    else
    {
        if (st.st_nlink > 1)
        {
            auto it = links.find(st.st_ino);
            if (it != links.end())
            {
                (void)!::link(it->second.c_str(), b.c_str());
                return;
            }
            links[st.st_ino] = b;
        }
        write_file(b, read_file(a));
        copy_xattrs(a, b);
        ::chmod(b.c_str(), st.st_mode & 07777);
    }
}
void copy_tree(const std::string& from, const std::string& to)
{
    NoHook nh;
    std::map<ino_t, std::string> links;
    copy_rec(from, to, links);
}
void reset_dir(const std::string& dir)
{
    NoHook nh;
    rm_rf(dir);
    if (::mkdir(dir.c_str(), 0755))
        throw HarnessError("mkdir " + dir + ": " + strerror(errno));
}
}    // namespace vf

// absl::Now() interpolates by the processor's cycle counter; it is to follow the clock.
static int64_t clock_ns()
{
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    return t.tv_sec * 1000000000ll + t.tv_nsec;
}
namespace absl
{
ABSL_NAMESPACE_BEGIN
Time Now() { return FromUnixNanos(clock_ns()); }
int64_t GetCurrentTimeNanos() { return clock_ns(); }
ABSL_NAMESPACE_END
}    // namespace absl
