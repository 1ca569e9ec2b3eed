// Runs securefs commands (the real command line entry point) in child processes, with injected kills
// and failing calls, capturing what a mount command hands to libfuse.
#pragma once
#include "fs.h"
#include "inter.h"
#include <functional>

namespace vf
{
struct CliOptions
{
    std::string input;                       // standard input
    int crash = -1;                          // kill before (or in) this modifying call
    long torn_num = 0, torn_den = 1;
    int fail = -1, err = 0;                  // this call fails with err
    std::function<void(Mount&)> on_mount;    // runs in the child when the command mounts
    bool hooks_on_mount = false;             // on_mount may set system call hooks
    FsConfig cfg;                            // of the mount
    uint64_t seed = 1;
    std::map<std::string, std::string> env;
};
struct CliResult
{
    int code = 0;            // exit code; 77: killed as ordered
    int signal = 0;
    bool mounted = false;    // the command got as far as starting the FUSE session
    bool fired = false;      // the ordered failure took place
    std::string fired_name;
    int all = 0, mutating = 0;
    std::vector<long> lens;            // of the modifying calls, 0 if not a write
    std::string out, err;              // standard output and error
    std::vector<std::string> fuse_args;
    std::string unsynced;    // a file that was renamed into place, or left behind, with unsynced data
    bool ok() const { return signal == 0 && (mounted || code == 0); }
};
// Throws Failure when on_mount does, when the process dies of a signal or prints nothing on failure.
CliResult cli(const std::vector<std::string>& args, const CliOptions& o = {});
// "--argon2-t 1 --argon2-m 64 --argon2-p 1" and similar cheap settings.
extern const std::vector<std::string> kCheap;
std::vector<std::string> operator+(std::vector<std::string> a, const std::vector<std::string>& b);
}    // namespace vf
