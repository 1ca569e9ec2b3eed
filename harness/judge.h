// Observation of a mounted tree after a crash or fault, and its comparison with what the model allows.
#pragma once
#include "model.h"
namespace vf
{
struct Obs
{
    char type = 0;    // 'f' 'd' 'l', or 'E': getattr failed
    int err = 0;
    mode_t mode = 0;
    uid_t uid = 0;
    gid_t gid = 0;
    int nlink = 0;
    uint64_t ino = 0;
    long size = 0;
    std::string data;        // as far as readable
    std::string bad;         // per byte of data: 1 when reading it failed
    int open_err = 0;
    std::string target;
    int link_err = 0, list_err = 0;
    std::map<std::string, std::string> xa;
    std::map<std::string, int> xa_err;
};
std::map<std::string, Obs> observe(Mount& m, int chunk = 64);
std::string describe(const Obs& o);
// Objects an operation works on: the named nodes, the directories whose entries it changes and the
// replaced or removed target, as node numbers of `before` or `after`.
std::set<int> touched_nodes(const Model& before, const Model& after, const std::string& op);
struct JudgeOptions
{
    bool damage_touched = false;     // touched objects may report errors
    bool damage_touched_dirs = false; // also directories among them
    bool bounded_range = true;       // data operations may only change their own range
    int block = 64;
    bool allow_block_errors = false; // errors inside the blocks of the range are acceptable
    const std::set<int>* busy = nullptr;    // after a kill: exactly these objects were being written
    bool xattr = true;
    bool exact_before = false, exact_after = false;
};
// Lite: the whole tree must be that of one of the two models (data operations: in between).
void judge_either(const std::map<std::string, Obs>& o, const Model& before, const Model& after, const std::string& op, const JudgeOptions& j, const char* when);
// Full: object by object.
void judge_objects(const std::map<std::string, Obs>& o, const Model& before, const Model& after, const std::set<int>& touched, const JudgeOptions& j, const char* when);
// Removes everything and checks that the storage is empty apart from the repository's own files.
void remove_everything(Mount& m, const char* when);
}    // namespace vf
