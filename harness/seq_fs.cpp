#include "model.h"
#include "seq.h"
#include "streamx.h"
#include <sqlite3.h>
#include <dirent.h>

namespace vf
{
namespace
{
// Every directory's table holds exactly one entry for each long stored name present.
void check_long_tables(const std::string& dir, const FsConfig& cfg, const char* when)
{
    NoHook nh;
    std::string suffix = cfg.suffix.empty() ? "..." : cfg.suffix;
    std::vector<std::string> dirs;
    std::set<std::string> longs;
    bool table = false;
    DIR* d = opendir(dir.c_str());
    while (auto* e = ::readdir(d))
    {
        std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        if (n == ".long_names.db")
        {
            table = true;
            continue;
        }
        if (n[0] == '.')
            fail("%s: stray file %s in a directory of the repository", when, n.c_str());
        if (n.size() > suffix.size() && n.compare(n.size() - suffix.size(), suffix.size(), suffix) == 0)
            longs.insert(n);
        if (e->d_type == DT_DIR)
            dirs.push_back(dir + "/" + n);
    }
    closedir(d);
    std::set<std::string> rows;
    if (table)
    {
        sqlite3* db = nullptr;
        if (sqlite3_open_v2((dir + "/.long_names.db").c_str(), &db, SQLITE_OPEN_READONLY, nullptr) != SQLITE_OK)
            fail("%s: the long name table cannot be opened", when);
        sqlite3_stmt* st = nullptr;
        if (sqlite3_prepare_v2(db, "select keyed_hash, encrypted_name from encrypted_mappings", -1, &st, nullptr) == SQLITE_OK)
            while (sqlite3_step(st) == SQLITE_ROW)
                rows.insert((const char*)sqlite3_column_text(st, 0));
        sqlite3_finalize(st);
        sqlite3_close(db);
    }
    for (auto& n : longs)
        if (!rows.count(n))
            fail("%s: long name %s has no entry in its table", when, n.c_str());
    for (auto& n : rows)
        if (!longs.count(n))
            fail("%s: the table has an entry for %s, which does not exist", when, n.c_str());
    for (auto& s : dirs)
        check_long_tables(s, cfg, when);
}
}    // namespace

void seq_worker_init() {}
void run_family_case(const Family& f, const std::string& body)
{
    auto bar = body.find('|');
    FsConfig cfg = FsConfig::parse(body.substr(0, bar));
    reseed(7);
    uint64_t h = 0;
    g_virtual_now_ns = f.times ? 1700000000ll * 1000000000 : -1;
    FsRun r(cfg, worker_dir() + "/fs");
    if ((r.check_times = f.times))
        r.model.now = g_virtual_now_ns;
    r.dopt = f.dopt;
    r.check_storage = f.storage;
    std::string ops = body.substr(bar + 1);
    SizeWatch sizes(r);
    if (f.sizes)
        sizes.look("at first");
    if (!ops.empty())
        for (auto& op : split(ops, ';'))
        {
            int rc = r.step(op);
            h = h * 1000003 + (rc < 0 ? -rc : 0);
            if (f.sizes)
                sizes.look(("after " + op).c_str());
        }
    if (f.sizes)
    {
        r.close_all();
        sizes.look("after closing everything");
        r.remount();
        r.compare("after remounting");
        sizes.look("after remounting");
    }
    if (f.long_table)
        check_long_tables(worker_dir() + "/fs", cfg, "at the end");
    for (auto& [k, v] : r.model.dump(f.dopt))
        h = hash_str(k + v, h);
    r.finish(f.remount);
    if (f.long_table)
        check_long_tables(worker_dir() + "/fs", cfg, "after remounting");
    if (distinct(h))
    {
        count(kNontrivial);
        sample(body);
    }
}
}    // namespace vf
