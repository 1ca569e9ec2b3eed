#include "cli.h"
#include "commands.h"
#include "logger.h"
#include "platform.h"
#include <algorithm>
#include <argon2.h>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <fuse.h>
#include <optional>
#include <set>
#include <spawn.h>
#include <sys/socket.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace securefs
{
int commands_main(int argc, const char* const* argv);
}
namespace vf
{
namespace
{
struct Sh
{
    bool mounted, fired;
    char fired_name[32];
    int all, mut;
    long lens[5000];
    char failure[8000];
    bool failed, harness;
    int nargs;
    char args[64][600];
    char unsynced[600];
};
Sh* S;
const CliOptions* g_opt;
// Inodes of files with written but unsynced data (within the child).
std::set<ino_t> g_dirty;
ino_t ino_of_fd(int fd)
{
    struct stat st;
    return fstat(fd, &st) == 0 && S_ISREG(st.st_mode) ? st.st_ino : 0;
}
void copy(char* to, size_t n, const std::string& s)
{
    snprintf(to, n, "%s", s.c_str());
}
int g_seen_mut, g_seen_all;
SysAction hook(const SysInfo& i)
{
    SysAction a;
    bool storage = !(i.fd >= 0 && i.fd <= 2);
    if (i.mutating && storage)
    {
        if (S->mut < 5000)
            S->lens[S->mut] = i.id == kPwrite || i.id == kWrite ? i.len : 0;
        S->mut++;
        if (g_opt->crash >= 0 && g_seen_mut++ == g_opt->crash)
        {
            a.kind = SysAction::kTornExit;
            a.n = g_opt->torn_num && i.len > 0 ? i.len * g_opt->torn_num / g_opt->torn_den : 0;
            return a;
        }
    }
    if (!(i.id == kClose || (i.id == kFlock && (i.off & 8)) || !storage))
    {
        S->all++;
        if (g_opt->err == kShortWrite)
        {
            // Counted over the modifying calls.
            if (g_opt->fail >= 0 && i.mutating && S->mut - 1 == g_opt->fail && i.len > 1)
            {
                S->fired = true;
                copy(S->fired_name, sizeof S->fired_name, "short write");
                a.kind = SysAction::kShort;
                a.n = i.len / 2;
            }
        }
        else if (g_opt->fail >= 0 && g_seen_all++ == g_opt->fail)
        {
            S->fired = true;
            copy(S->fired_name, sizeof S->fired_name, kSysNames[i.id]);
            a.kind = SysAction::kFail;
            a.err = g_opt->err;
        }
    }
    return a;
}
void after(const SysInfo& i, long rc)
{
    if (rc < 0)
        return;
    if ((i.id == kPwrite || i.id == kWrite || i.id == kFtruncate) && i.fd > 2)
    {
        if (ino_t n = ino_of_fd(i.fd))
            g_dirty.insert(n);
    }
    else if (i.id == kFsync)
        g_dirty.erase(ino_of_fd(i.fd));
    else if ((i.id == kRename || i.id == kLink) && i.path)
    {
        struct stat st;
        if (fstatat(i.fd >= 0 ? i.fd : AT_FDCWD, i.path, &st, AT_SYMLINK_NOFOLLOW) == 0 && g_dirty.count(st.st_ino))
            copy(S->unsynced, sizeof S->unsynced, i.path);
    }
}
}    // namespace
const std::vector<std::string> kCheap = {"--argon2-t", "1", "--argon2-m", "8", "--argon2-p", "1"};
std::vector<std::string> operator+(std::vector<std::string> a, const std::vector<std::string>& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
}    // namespace vf
using namespace vf;

// libfuse's session set-up: what the mount command passes is recorded, the mount is used in-process,
// and the command is told that mounting is over.
extern "C" struct fuse* fuse_setup(int argc, char* argv[], const struct fuse_operations* op, size_t, char** mp, int* mt, void* user)
{
    std::optional<NoHook> nh;
    if (!g_opt->hooks_on_mount)
        nh.emplace();
    auto h = g_sys_hook;
    g_sys_hook = nullptr;
    g_sys_after = nullptr;
    S->mounted = true;
    for (int i = 0; i < argc && i < 64; ++i)
        copy(S->args[S->nargs++], sizeof S->args[0], argv[i]);
    if (g_opt->on_mount)
    {
        try
        {
            Mount m(*op, user, g_opt->cfg);
            g_opt->on_mount(m);
        }
        catch (const HarnessError& e)
        {
            S->harness = true;
            copy(S->failure, sizeof S->failure, e.what());
        }
        catch (const std::exception& e)
        {
            S->failed = true;
            copy(S->failure, sizeof S->failure, e.what());
        }
    }
    g_sys_hook = h;
    return nullptr;
}
// A process the command starts (mounting in the background). The harness cannot be executed anew with
// its captured state, so the new process is one that was forked before the command ran: it knows
// nothing of what the command did, takes over its file descriptors, and runs the command it is given.
struct SpawnMsg
{
    int nfds, nacts;
    int fds[200];
    struct
    {
        int tag, a, b;
    } acts[16];
    int nargs;
    char args[8][600];
};
static int g_spawn_sock = -1;
static pid_t g_spawn_pid = -1;
static void spawned()
{
    static SpawnMsg m;
    union
    {
        char buf[CMSG_SPACE(sizeof(int) * 200)];
        cmsghdr align;
    } c;
    iovec v = {&m, sizeof m};
    msghdr h = {};
    h.msg_iov = &v;
    h.msg_iovlen = 1;
    h.msg_control = &c;
    h.msg_controllen = sizeof c;
    if (recvmsg(g_spawn_sock, &h, MSG_WAITALL) != sizeof m)
        _exit(0);
    cmsghdr* ch = CMSG_FIRSTHDR(&h);
    // Out of the way of the numbers they are to get.
    static int high[200];
    if (m.nfds && (!ch || ch->cmsg_len != CMSG_LEN(sizeof(int) * m.nfds)))
        _exit(82);
    for (int i = 0; i < m.nfds; ++i)
    {
        int fd;
        memcpy(&fd, CMSG_DATA(ch) + i * sizeof(int), sizeof fd);
        high[i] = fcntl(fd, F_DUPFD, 700);
    }
    for (int fd = 0; fd < 700; ++fd)
        close(fd);
    for (int i = 0; i < m.nfds; ++i)
    {
        dup2(high[i], m.fds[i]);
        close(high[i]);
    }
    for (int i = 0; i < m.nacts; ++i)
        if (m.acts[i].tag == 0)
            close(m.acts[i].a);
        else if (m.acts[i].a != m.acts[i].b && dup2(m.acts[i].a, m.acts[i].b) < 0)
            _exit(127);
    std::vector<const char*> argv;
    for (int i = 0; i < m.nargs; ++i)
        argv.push_back(m.args[i]);
    argv.push_back(nullptr);
    securefs::global_logger = securefs::Logger::create_stderr_logger();
    g_sys_hook = hook;
    g_sys_after = after;
    int rc;
    try
    {
        rc = securefs::commands_main(m.nargs, argv.data());
    }
    catch (...)
    {
        abort();
    }
    g_sys_hook = nullptr;
    g_sys_after = nullptr;
    fflush(stdout);
    fflush(stderr);
    securefs::global_logger.reset();
    _exit(rc);
}
extern "C" int posix_spawnp(pid_t* pid, const char* file, const posix_spawn_file_actions_t* fa, const posix_spawnattr_t*, char* const argv[], char* const[])
{
    (void)file;
    if (g_spawn_pid < 0)
        return ENOSYS;
    // As in glibc.
    struct Act
    {
        int tag, pad, a, b;
        char rest[16];
    };
    static SpawnMsg m;
    auto acts = reinterpret_cast<const Act*>(fa->__actions);
    static_assert(sizeof(Act) == 32);
    for (m.nacts = 0; m.nacts < fa->__used && m.nacts < 16; ++m.nacts)
        m.acts[m.nacts] = {acts[m.nacts].tag, acts[m.nacts].a, acts[m.nacts].b};
    for (m.nargs = 0; argv[m.nargs] && m.nargs < 8; ++m.nargs)
        copy(m.args[m.nargs], sizeof m.args[0], argv[m.nargs]);
    m.nfds = 0;
    for (int fd = 0; fd < 700 && m.nfds < 200; ++fd)
    {
        int fl = fcntl(fd, F_GETFD);
        if (fl >= 0 && !(fl & FD_CLOEXEC))
            m.fds[m.nfds++] = fd;
    }
    union
    {
        char buf[CMSG_SPACE(sizeof(int) * 200)];
        cmsghdr align;
    } c;
    iovec v = {&m, sizeof m};
    msghdr h = {};
    h.msg_iov = &v;
    h.msg_iovlen = 1;
    h.msg_control = &c;
    h.msg_controllen = CMSG_SPACE(sizeof(int) * m.nfds);
    auto ch = CMSG_FIRSTHDR(&h);
    ch->cmsg_level = SOL_SOCKET;
    ch->cmsg_type = SCM_RIGHTS;
    ch->cmsg_len = CMSG_LEN(sizeof(int) * m.nfds);
    memcpy(CMSG_DATA(ch), m.fds, sizeof(int) * m.nfds);
    if (sendmsg(g_spawn_sock, &h, 0) != sizeof m)
        return EIO;
    close(g_spawn_sock);
    *pid = g_spawn_pid;
    g_spawn_pid = -1;
    return 0;
}
// Costs altered by a flipped bit could ask for terabytes or years; such a derivation fails here instead.
extern "C" int argon2id_hash_raw(const uint32_t t, const uint32_t m, const uint32_t p, const void* pwd, const size_t pwdlen, const void* salt, const size_t saltlen, void* hash, const size_t hashlen)
{
    static auto real = (decltype(&argon2id_hash_raw))dlsym(RTLD_NEXT, "argon2id_hash_raw");
    if (t > 64 || m > (1 << 20) || p > 64 || (uint64_t)t * m > (1 << 22))
        return ARGON2_MEMORY_ALLOCATION_ERROR;
    return real(t, m, p, pwd, pwdlen, salt, saltlen, hash, hashlen);
}

namespace vf
{
CliResult cli(const std::vector<std::string>& args, const CliOptions& o)
{
    if (!S)
        S = (Sh*)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    S->mounted = S->fired = S->failed = S->harness = false;
    S->all = S->mut = S->nargs = 0;
    S->fired_name[0] = S->failure[0] = S->unsynced[0] = 0;
    std::string in = worker_dir() + "/cli.in", out = worker_dir() + "/cli.out", err = worker_dir() + "/cli.err";
    write_file(in, o.input);
    pid_t p = fork();
    if (p == 0)
    {
        int i = open(in.c_str(), O_RDONLY), u = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600),
            e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(i, 0);
        dup2(u, 1);
        dup2(e, 2);
        close(i);
        close(u);
        close(e);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        for (auto& [k, v] : o.env)
            setenv(k.c_str(), v.c_str(), 1);
        if (chdir(worker_dir().c_str()))
            _exit(81);
        securefs::global_logger = securefs::Logger::create_stderr_logger();
        g_opt = &o;
        reseed(o.seed);
        if (std::count(args.begin(), args.end(), "--background"))
        {
            int sv[2];
            if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv))
                _exit(83);
            securefs::global_logger.reset();
            g_spawn_pid = fork();
            if (g_spawn_pid == 0)
            {
                g_spawn_sock = fcntl(sv[1], F_DUPFD, 720);
                close(sv[0]);
                close(sv[1]);
                spawned();
            }
            close(sv[1]);
            g_spawn_sock = sv[0];
            securefs::global_logger = securefs::Logger::create_stderr_logger();
        }
        std::vector<const char*> argv = {"securefs"};
        for (auto& a : args)
            argv.push_back(a.c_str());
        argv.push_back(nullptr);
        g_sys_hook = hook;
        g_sys_after = after;
        int rc;
        try
        {
            rc = securefs::commands_main(argv.size() - 1, argv.data());
        }
        catch (...)
        {
            // What main() would do with it: terminate.
            abort();
        }
        g_sys_hook = nullptr;
        g_sys_after = nullptr;
        fflush(stdout);
        fflush(stderr);
        securefs::global_logger.reset();
        _exit(rc);
    }
    int st;
    while (waitpid(p, &st, 0) != p)
        if (errno != EINTR)
            throw HarnessError("waitpid");
    CliResult r;
    if (WIFSIGNALED(st))
        r.signal = WTERMSIG(st);
    else
        r.code = WEXITSTATUS(st);
    r.mounted = S->mounted;
    r.fired = S->fired;
    r.fired_name = S->fired_name;
    r.all = S->all;
    r.mutating = S->mut;
    r.lens.assign(S->lens, S->lens + std::min(S->mut, 5000));
    r.out = read_file(out);
    r.err = read_file(err);
    r.unsynced = S->unsynced;
    for (int i = 0; i < S->nargs; ++i)
        r.fuse_args.push_back(S->args[i]);
    if (S->harness)
        throw HarnessError(S->failure);
    if (S->failed)
        throw Failure(S->failure);
    if (r.signal)
        fail("securefs %s died of signal %d (%s): %s", args[0].c_str(), r.signal, strsignal(r.signal), r.err.substr(0, 300).c_str());
    return r;
}
}    // namespace vf
