#include "core.h"
#include <algorithm>
#include <cstdarg>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <regex>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace vf
{
Args g_args;
int g_case_limit_s = 60;

namespace
{
constexpr int kMaxJobs = 64, kCaseMax = 16384, kMaxViol = 16, kMaxSamples = 12;
constexpr size_t kBits = 1u << 27;    // distinct-outcome filter: 16 MB
struct Viol
{
    char kase[kCaseMax];
    char what[8192];
};
struct Worker
{
    std::atomic<int64_t> started_ms;    // 0 = idle
    char kase[kCaseMax];
};
struct Shared
{
    std::atomic<int64_t> counters[kNumCounters];
    std::atomic<int> next_shard, nviol, nsamples, nharness_err, shards_done;
    Worker w[kMaxJobs];
    Viol viol[kMaxViol];
    char samples[kMaxSamples][1024];
    char harness_err[2048];
    char bounds[4096];
    std::atomic<uint64_t> bits[kBits / 64];
};
Shared* sh;
int g_me = 0;
bool g_replay = false;
std::string g_wdir;
int64_t now_ms()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000LL + t.tv_nsec / 1000000;
}
void add_violation(const std::string& kase, const std::string& what)
{
    int i = sh->nviol.fetch_add(1);
    if (i < kMaxViol)
    {
        snprintf(sh->viol[i].kase, kCaseMax, "%s", kase.c_str());
        snprintf(sh->viol[i].what, sizeof(sh->viol[i].what), "%s", what.c_str());
    }
}
std::string json_str(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += c;
    }
    return r + "\"";
}
}    // namespace

std::string fmt(const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    char* p = nullptr;
    int n = vasprintf(&p, f, ap);
    va_end(ap);
    std::string s(p, n);
    free(p);
    return s;
}
void fail(const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    char* p = nullptr;
    int n = vasprintf(&p, f, ap);
    va_end(ap);
    std::string s(p, n);
    free(p);
    throw Failure(s);
}
std::string hex(const void* p, size_t n)
{
    std::string r;
    for (size_t i = 0; i < n; ++i)
    {
        char b[3];
        snprintf(b, 3, "%02x", ((const unsigned char*)p)[i]);
        r += b;
    }
    return r;
}
std::string cescape(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c > 32 && c < 127 && c != '\\' && c != '"')
            r += c;
        else
        {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
    }
    return r;
}
void count(Counter c, int64_t n) { sh->counters[c].fetch_add(n, std::memory_order_relaxed); }
int64_t counter(Counter c) { return sh->counters[c].load(); }
uint64_t hash_str(const std::string& s, uint64_t h)
{
    for (unsigned char c : s)
    {
        h ^= c;
        h *= 1099511628211ull;
    }
    h ^= h >> 29;
    h *= 0xbf58476d1ce4e5b9ull;
    h ^= h >> 32;
    return h;
}
bool distinct(uint64_t h)
{
    size_t b = h % kBits;
    uint64_t m = 1ull << (b % 64);
    return !(sh->bits[b / 64].fetch_or(m) & m);
}
void begin_case(const std::string& c)
{
    auto& w = sh->w[g_me];
    size_t n = std::min<size_t>(c.size(), kCaseMax - 1);
    memcpy(w.kase, c.data(), n);
    w.kase[n] = 0;
    w.started_ms.store(now_ms());
    static int begun = 0;    // each worker's first, then its 100th
    if (++begun == 1 || begun == 100)
        sample(c);
}
void sample(const std::string& s)
{
    if (sh->nsamples.load() >= kMaxSamples)
        return;
    int i = sh->nsamples.fetch_add(1);
    if (i < kMaxSamples)
        snprintf(sh->samples[i], sizeof sh->samples[i], "%s", s.c_str());
}
const std::string& worker_dir() { return g_wdir; }
void guarded(const std::string& c, const std::function<void()>& f)
{
    static std::vector<std::regex>* known = nullptr;
    try
    {
        f();
    }
    catch (const Failure& e)
    {
        if (!known)
        {
            known = new std::vector<std::regex>();
            std::ifstream in(g_args.findings);
            std::string line, pre = "finding: property=" + g_args.prop + " match=/";
            while (std::getline(in, line))
                if (line.compare(0, pre.size(), pre) == 0)
                    known->emplace_back(line.substr(pre.size(), line.find("/ ", pre.size()) - pre.size()));
        }
        std::string t = (c + " :: " + e.what()).substr(0, 3000);
        for (auto& r : *known)
            if (std::regex_search(t, r))
            {
                count(kExtra5);
                return;
            }
        throw;
    }
}
bool is_replay() { return g_replay; }
void set_bounds_note(const std::string& s) { snprintf(sh->bounds, sizeof sh->bounds, "%s", s.c_str()); }
void for_sequences(int n, int len, int first, const std::function<void(const std::vector<int>&)>& f)
{
    std::vector<int> v(len, 0);
    if (len && first >= 0)
        v[0] = first;
    while (true)
    {
        f(v);
        int i = len - 1;
        while (i >= (first >= 0 ? 1 : 0) && ++v[i] == n)
            v[i--] = 0;
        if (i < (first >= 0 ? 1 : 0))
            return;
    }
}
std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> r;
    size_t p = 0;
    while (true)
    {
        auto q = s.find(c, p);
        r.push_back(s.substr(p, q == std::string::npos ? q : q - p));
        if (q == std::string::npos)
            return r;
        p = q + 1;
    }
}
std::vector<int> parse_ints(const std::string& s)
{
    std::vector<int> r;
    if (s.empty())
        return r;
    for (auto& x : split(s, ','))
        r.push_back(atoi(x.c_str()));
    return r;
}
std::string join_ints(const std::vector<int>& v)
{
    std::string r;
    for (int x : v)
        r += (r.empty() ? "" : ",") + std::to_string(x);
    return r;
}
static void rm_rf_impl(const std::string& p)
{
    struct stat st;
    if (lstat(p.c_str(), &st) < 0)
        return;
    if (S_ISDIR(st.st_mode))
    {
        chmod(p.c_str(), 0700);
        if (DIR* d = opendir(p.c_str()))
        {
            std::vector<std::string> names;
            while (auto* e = readdir(d))
                if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
                    names.push_back(e->d_name);
            closedir(d);
            for (auto& n : names)
                rm_rf_impl(p + "/" + n);
        }
        rmdir(p.c_str());
    }
    else
        unlink(p.c_str());
}
void rm_rf(const std::string& p)
{
    if (g_args.scratch.size() < 8 || p.compare(0, g_args.scratch.size(), g_args.scratch) != 0
        || p.find("/../") != std::string::npos)
        throw HarnessError("rm_rf outside the scratch directory: " + p);
    rm_rf_impl(p);
}
void write_file(const std::string& p, const std::string& data)
{
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || write(fd, data.data(), data.size()) != (ssize_t)data.size())
        throw HarnessError("cannot write " + p + ": " + strerror(errno));
    close(fd);
}
std::string read_file(const std::string& p)
{
    int fd = open(p.c_str(), O_RDONLY);
    if (fd < 0)
        throw HarnessError("cannot read " + p + ": " + strerror(errno));
    std::string r;
    char b[65536];
    ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0)
        r.append(b, n);
    close(fd);
    return r;
}
bool file_exists(const std::string& p)
{
    struct stat st;
    return lstat(p.c_str(), &st) == 0;
}

void make_worker_dir(int i)
{
    g_wdir = g_args.scratch + "/w" + std::to_string(i) + "." + std::to_string(getpid());
    mkdir(g_wdir.c_str(), 0755);
}
namespace
{
[[noreturn]] void worker_main(int me, const CheckDef& def, std::vector<Shard>& shards, int resume)
{
    (void)resume;
    g_me = me;
    make_worker_dir(me);
    try
    {
        if (def.worker_init)
            def.worker_init();
        while (sh->nviol.load() < def.max_violations)
        {
            int s = sh->next_shard.fetch_add(1);
            if (s >= (int)shards.size())
                break;
            try
            {
                shards[s].run();
            }
            catch (const Failure& e)
            {
                add_violation(sh->w[me].kase, e.what());
            }
            catch (const HarnessError&)
            {
                throw;
            }
            catch (const std::exception& e)
            {
                add_violation(sh->w[me].kase, fmt("exception escaped the code under check: %s", e.what()));
            }
            sh->w[me].started_ms.store(0);
            sh->shards_done.fetch_add(1);
        }
    }
    catch (const std::exception& e)
    {
        if (sh->nharness_err.fetch_add(1) == 0)
            snprintf(sh->harness_err, sizeof sh->harness_err, "%s [case %.600s]", e.what(), sh->w[me].kase);
        _exit(0);
    }
    fflush(nullptr);
    _exit(0);
}
std::string status_text(int st)
{
    if (WIFSIGNALED(st))
        return fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    return fmt("exited with status %d", WEXITSTATUS(st));
}
}    // namespace

int check_main(int argc, char** argv, CheckDef def)
{
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop")
            g_args.prop = v;
        else if (k == "--tier")
            g_args.tier = v;
        else if (k == "--evidence")
            g_args.evidence = v;
        else if (k == "--scratch")
            g_args.scratch = v;
        else if (k == "--findings")
            g_args.findings = v;
        else if (k == "--replay")
            g_args.replay = v;
        else if (k == "--seed")
            g_args.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--jobs")
            g_args.jobs = std::min(kMaxJobs, std::max(1, atoi(v.c_str())));
    }
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    signal(SIGPIPE, SIG_IGN);
    umask(022);
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED)
        return 2;
    int64_t t0 = now_ms();
    if (!g_args.replay.empty())
    {
        // Replay in a child, so that crashes and hangs are seen here too.
        std::string kase = read_file(g_args.replay);
        while (!kase.empty() && (kase.back() == '\n'))
            kase.pop_back();
        g_replay = true;
        g_me = 0;
        make_worker_dir(0);
        if (def.setup)
            def.setup();
        pid_t p = fork();
        if (p == 0)
        {
            try
            {
                if (def.worker_init)
                    def.worker_init();
                begin_case(kase);
                def.run_case(kase);
            }
            catch (const Failure& e)
            {
                add_violation(kase, e.what());
            }
            catch (const HarnessError& e)
            {
                fprintf(stderr, "HARNESS ERROR: %s\n", e.what());
                _exit(3);
            }
            catch (const std::exception& e)
            {
                add_violation(kase, fmt("exception escaped the code under check: %s", e.what()));
            }
            _exit(0);
        }
        int st = 0;
        while (waitpid(p, &st, WNOHANG) == 0)
        {
            usleep(2000);
            if (now_ms() - t0 > 4000LL * g_case_limit_s)
            {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                printf("REPRODUCED hang: %s\n", kase.c_str());
                return 1;
            }
        }
        if (sh->nviol.load())
        {
            printf("REPRODUCED %s\n  %s\n", sh->viol[0].kase, sh->viol[0].what);
            return 1;
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3)
            return 2;
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
        {
            printf("REPRODUCED crash (%s): %s\n", status_text(st).c_str(), kase.c_str());
            return 1;
        }
        printf("NOT REPRODUCED\n");
        return 0;
    }
    std::vector<Shard> shards;
    try
    {
        if (def.setup)
            def.setup();
        shards = def.shards();
    }
    catch (const std::exception& e)
    {
        fprintf(stderr, "HARNESS ERROR in setup: %s\n", e.what());
        return 2;
    }
    fflush(nullptr);
    int jobs = std::min<int>(g_args.jobs, std::max<size_t>(1, shards.size()));
    std::vector<pid_t> pids(jobs, -1);
    auto spawn = [&](int i)
    {
        sh->w[i].started_ms.store(0);
        pid_t p = fork();
        if (p == 0)
            worker_main(i, def, shards, 0);
        pids[i] = p;
    };
    for (int i = 0; i < jobs; ++i)
        spawn(i);
    int live = jobs;
    while (live > 0)
    {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0)
        {
            int i = std::find(pids.begin(), pids.end(), p) - pids.begin();
            if (i >= jobs)
                continue;
            pids[i] = -1;
            --live;
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
            {
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && sh->w[i].started_ms.load() == 0)
                {
                    // ended by the sandbox (memory) between cases
                    sh->nharness_err.fetch_add(1);
                    snprintf(sh->harness_err, sizeof sh->harness_err, "worker killed");
                }
                else
                    add_violation(sh->w[i].kase, "process " + status_text(st));
                if (sh->nviol.load() < def.max_violations)
                {
                    spawn(i);
                    ++live;
                }
            }
            continue;
        }
        usleep(3000);
        if (getenv("VF_STOP_S") && now_ms() - t0 > 1000LL * atoi(getenv("VF_STOP_S")))
        {
            // Development: how far does it get in that time?
            for (int i = 0; i < jobs; ++i)
                if (pids[i] > 0)
                {
                    fprintf(stderr, "at %s\n", sh->w[i].kase);
                    kill(pids[i], SIGKILL);
                }
            break;
        }
        for (int i = 0; i < jobs; ++i)
        {
            int64_t s = sh->w[i].started_ms.load();
            if (pids[i] > 0 && s && now_ms() - s > 1000LL * g_case_limit_s)
            {
                add_violation(sh->w[i].kase, "hang: the case did not finish");
                sh->w[i].started_ms.store(0);
                kill(pids[i], SIGKILL);
                int st2;
                waitpid(pids[i], &st2, 0);
                pids[i] = -1;
                --live;
                if (sh->nviol.load() < def.max_violations)
                {
                    spawn(i);
                    ++live;
                }
            }
        }
    }
    double wall = (now_ms() - t0) / 1000.0;
    int nv = std::min(sh->nviol.load(), kMaxViol);
    // Violations go to files for the driver, one each.
    for (int i = 0; i < nv; ++i)
    {
        write_file(g_args.scratch + "/viol." + std::to_string(i) + ".case", std::string(sh->viol[i].kase) + "\n");
        write_file(g_args.scratch + "/viol." + std::to_string(i) + ".what", std::string(sh->viol[i].what) + "\n");
    }
    std::string j = "{";
    j += fmt("\"property\":%s,\"tier\":%s,\"seed\":%llu,\"level\":%s,",
             json_str(g_args.prop).c_str(),
             json_str(g_args.tier).c_str(),
             (unsigned long long)g_args.seed,
             json_str(def.level).c_str());
    j += "\"coverage\":{";
    std::string samples;
    for (int i = 0; i < std::min(sh->nsamples.load(), kMaxSamples); ++i)
        samples += (i ? "," : "") + json_str(sh->samples[i]);
    if (def.level == "model_checking")
        j += fmt("\"states\":%lld,\"transitions\":%lld,\"traces_validated_against_impl\":%lld,",
                 (long long)counter(kStates),
                 (long long)counter(kTransitions),
                 (long long)counter(kEval));
    else
        j += fmt("\"evaluations\":%lld,\"distinct_nontrivial\":%lld,",
                 (long long)counter(kEval),
                 (long long)counter(kNontrivial));
    j += "\"rule\":" + json_str(def.rule) + ",\"samples\":[" + samples + "]";
    if (sh->bounds[0])
        j += ",\"bounds\":" + json_str(sh->bounds);
    if (def.extra_coverage)
        for (auto& e : def.extra_coverage())
            j += "," + e;
    bool complete = sh->shards_done.load() == (int)shards.size() && nv == 0 && sh->nharness_err.load() == 0;
    j += fmt(",\"shards\":%d,\"shards_completed\":%d", (int)shards.size(), sh->shards_done.load());
    j += fmt(",\"exhaustive\":%s}", complete && def.exhaustive ? "true" : "false");
    j += ",\"assumptions\":[";
    for (size_t i = 0; i < def.assumptions.size(); ++i)
        j += (i ? "," : "") + json_str(def.assumptions[i]);
    j += fmt("],\"wall_s\":%.2f,\"violations\":%d}", wall, nv);
    write_file(g_args.evidence, j + "\n");
    printf("%s %s: evaluations=%lld nontrivial=%lld states=%lld transitions=%lld extra=%lld,%lld,%lld,%lld shards=%d/%d wall=%.1fs violations=%d\n",
           g_args.prop.c_str(),
           g_args.tier.c_str(),
           (long long)counter(kEval),
           (long long)counter(kNontrivial),
           (long long)counter(kStates),
           (long long)counter(kTransitions),
           (long long)counter(kExtra0),
           (long long)counter(kExtra1),
           (long long)counter(kExtra2),
           (long long)counter(kExtra3),
           sh->shards_done.load(),
           (int)shards.size(),
           wall,
           nv);
    fflush(stdout);
    if (sh->nharness_err.load())
    {
        fprintf(stderr, "HARNESS ERROR: %s\n", sh->harness_err);
        if (nv == 0)
            return 2;
    }
    if (nv)
        return 1;
    if (counter(kEval) < def.min_eval || !complete)
    {
        fprintf(stderr, "HARNESS ERROR: exploration incomplete\n");
        return 2;
    }
    return 0;
}
}    // namespace vf

// Memory and undefined-behaviour checking, in the targets built with it: any report ends the execution.
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_odr_violation=0:"
           "malloc_context_size=5:quarantine_size_mb=16:symbolize=0:alloc_dealloc_mismatch=0";
}
extern "C" const char* __ubsan_default_options() { return "abort_on_error=1:halt_on_error=1:print_stacktrace=0"; }
