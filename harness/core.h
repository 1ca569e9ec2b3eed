// Common frame of every check: argument parsing, parallel enumeration in forked workers, detection
// of crashes and hangs, violation and evidence output, replay of one case.
#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace vf
{
struct Args
{
    std::string prop, tier = "quick", evidence, scratch, replay, findings;
    uint64_t seed = 1;
    int jobs = 8;
    bool thorough() const { return tier == "thorough"; }
};
extern Args g_args;

// Thrown by an oracle: the property is broken by the case being run.
struct Failure : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Thrown when the harness itself cannot do its work (not a statement about the code).
struct HarnessError : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const void* p, size_t n);
std::string cescape(const std::string& s);    // printable, no spaces or quotes

// Counters live in memory shared by all workers.
enum Counter
{
    kEval,           // executions run
    kNontrivial,     // distinct non-trivial ones (see rule)
    kStates,
    kTransitions,
    kExtra0,
    kExtra1,
    kExtra2,
    kExtra3,
    kExtra4,
    kExtra5,
    kNumCounters
};
void count(Counter c, int64_t n = 1);
int64_t counter(Counter c);
// Global progress bits shared by workers: set a bit in a hashed set, true when it was new. Used to
// count distinct outcomes.
bool distinct(uint64_t hash);
uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull);

// Marks the case now running. Everything thrown, crashed or hung from here on is charged to it.
void begin_case(const std::string& c);
// Limit on one case, seconds (default 60).
extern int g_case_limit_s;
void sample(const std::string& s);    // keeps the first few for the evidence file

struct Shard
{
    std::string name;
    std::function<void()> run;    // enumerates cases; a Failure ends the shard
};

// What a check provides.
struct CheckDef
{
    std::string level = "exploration";    // evidence level
    std::string rule;
    std::vector<std::string> assumptions;
    // All shards of the exploration, simplest first.
    std::function<std::vector<Shard>()> shards;
    // Runs exactly one case, throwing Failure when it violates the property.
    std::function<void(const std::string& c)> run_case;
    // More evidence fields, as JSON members ("\"x\":1").
    std::function<std::vector<std::string>()> extra_coverage;
    // Called in the parent before forking.
    std::function<void()> setup;
    // Runs in the process with the shards; called at worker start (own scratch directory is ready).
    std::function<void()> worker_init;
    // A run that explored less than this many evaluations is an error of the harness.
    int64_t min_eval = 1;
    bool exhaustive = true;
    int max_violations = 5;
};
// Runs one case of an enumeration: a Failure listed as a known finding is counted (kExtra5) and the
// enumeration goes on; any other one is rethrown.
void guarded(const std::string& c, const std::function<void()>& f);
int check_main(int argc, char** argv, CheckDef def);

// The running worker's own empty directory (inside the scratch directory the driver removes).
const std::string& worker_dir();
void make_worker_dir(int worker);
bool is_replay();
void set_bounds_note(const std::string& s);

// Small helpers for enumeration.
// Calls f on every sequence over [0,n) of length 1..d in length order whose first symbol is `first`
// (first<0: any). f returns false to prune the extensions of that sequence.
void for_sequences(int n, int len, int first, const std::function<void(const std::vector<int>&)>& f);
std::vector<int> parse_ints(const std::string& s);
std::string join_ints(const std::vector<int>& v);
std::vector<std::string> split(const std::string& s, char c);
void rm_rf(const std::string& path);    // only below the scratch directory
void write_file(const std::string& p, const std::string& data);
std::string read_file(const std::string& p);
bool file_exists(const std::string& p);
}    // namespace vf
