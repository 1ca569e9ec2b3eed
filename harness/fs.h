// Access to the file system under check: mounting a data directory in-process, calling the FUSE
// operation table the way the kernel and libfuse do, and observing the visible tree.
#pragma once
#include "core.h"
#include "inter.h"
#include "internal_mount.h"
#include "params.pb.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/stat.h>
#include <vector>

namespace vf
{
struct FsConfig
{
    bool full = false;
    unsigned block = 4096, iv = 12, padding = 0;
    // lite
    int threshold = -1;    // -1: absent (legacy names)
    std::string suffix;
    bool nfc = false, fold = false, plain = false;
    // full
    bool store_time = false, legacy_io = false, ci = false, uni = false;
    // mount
    bool noverify = false, ro = false, xattr = true, sensitive = false;
    int uid = -1, gid = -1;
    int idle = 0;
    int key_variant = 0;

    securefs::DecryptedSecurefsParams params() const;
    securefs::MountOptions options() const;
    std::string str() const;
    static FsConfig parse(const std::string& s);
};

struct DirEnt
{
    std::string name;
    mode_t type;
};

// One in-process mount.
class Mount
{
public:
    Mount(const std::string& dir, const FsConfig& cfg);
    // A mount set up by somebody else.
    Mount(const fuse_operations& ops, void* private_data, const FsConfig& cfg);
    ~Mount();
    fuse_operations ops{};
    std::shared_ptr<securefs::FuseHighLevelOpsBase> impl;
    FsConfig cfg;
    std::string dir;
    uid_t uid = 0;
    gid_t gid = 0;

    // Direct calls: each sets the FUSE context and returns what the operation returns.
    int getattr(const std::string& p, struct stat* st);
    int fgetattr(const std::string& p, uint64_t fh, struct stat* st);
    int create(const std::string& p, mode_t mode, uint64_t* fh);
    int open(const std::string& p, int flags, uint64_t* fh);
    int release(const std::string& p, uint64_t fh);
    int read(const std::string& p, uint64_t fh, std::string* out, size_t n, off_t off);
    int write(const std::string& p, uint64_t fh, const std::string& data, off_t off);
    int flush(const std::string& p, uint64_t fh);
    int fsync(const std::string& p, uint64_t fh);
    int ftruncate(const std::string& p, uint64_t fh, off_t n);
    int truncate(const std::string& p, off_t n);
    int unlink(const std::string& p);
    int mkdir(const std::string& p, mode_t m);
    int rmdir(const std::string& p);
    int rename(const std::string& a, const std::string& b);
    int link(const std::string& a, const std::string& b);
    int symlink(const std::string& target, const std::string& p);
    int readlink(const std::string& p, std::string* out);
    int chmod(const std::string& p, mode_t m);
    int chown(const std::string& p, uid_t u, gid_t g);
    int utimens(const std::string& p, const timespec* ts);
    int readdir(const std::string& p, std::vector<DirEnt>* out);    // opendir+readdir+releasedir
    int opendir(const std::string& p, uint64_t* fh);
    int readdir(const std::string& p, uint64_t fh, std::vector<DirEnt>* out);
    int releasedir(const std::string& p, uint64_t fh);
    // Lists twice through one handle, as a program using rewinddir does; the listings must agree.
    int readdir_twice(const std::string& p, std::vector<DirEnt>* out);
    int setxattr(const std::string& p, const std::string& n, const std::string& v, int flags);
    int getxattr(const std::string& p, const std::string& n, std::string* v, size_t size, bool probe);
    int listxattr(const std::string& p, std::vector<std::string>* names);
    int listxattr_raw(const std::string& p, char* buf, size_t n);
    int removexattr(const std::string& p, const std::string& n);
    int statfs(const std::string& p, struct statvfs* s);

private:
    void enter();
};
// Mounting switches the log off unless this is cleared.
extern bool g_quiet;
extern thread_local void* t_fuse_private;
extern thread_local uid_t t_fuse_uid, t_fuse_gid;

struct DumpOptions
{
    bool content = true, mode = true, owner = true, nlink = true, xattr = false, times = false;
    bool tolerate_errors = false;    // errors become part of the dump instead of failing
};
// A canonical description of everything visible, one line per path, hard links identified by the
// first path with the same inode. Fails (as an oracle) when the tree is not readable consistently.
std::map<std::string, std::string> dump_tree(Mount& m, const DumpOptions& o);
std::string diff_dumps(const std::map<std::string, std::string>& want,
                       const std::map<std::string, std::string>& got);
std::string read_all(Mount& m, const std::string& path, int* err);

// Storage-level observation.
std::vector<std::string> list_storage(const std::string& dir);    // relative paths of all files
void copy_tree(const std::string& from, const std::string& to);   // files, dirs, symlinks, xattrs
void reset_dir(const std::string& dir);
}    // namespace vf
