// Exhaustive exploration of operation sequences on the mounted file system, against the model.
#include "families.h"
#include "model.h"
#include "seq.h"
#include <sys/stat.h>

using namespace vf;
namespace
{
std::vector<Family> g_fams;

void run_case(const std::string& c)
{
    // "<family>|cfg|ops" or an extra engine's own form
    auto bar = c.find('|');
    std::string head = c.substr(0, bar), rest = c.substr(bar + 1);
    if (run_extra_case(head, rest))
        return;
    int i = atoi(head.c_str() + 1);
    auto& fam = g_fams.at(i);
    run_family_case(fam, rest);
}
}    // namespace

int main(int argc, char** argv)
{
    CheckDef d;
    d.worker_init = [] { umask(0); seq_worker_init(); };
    d.setup = []
    {
        umask(0);
        g_fams = families_for(g_args.prop);
    };
    d.rule = "an execution counts as non-trivial when its sequence of operation results and the digest of the "
             "final tree differ from every other execution of this run";
    d.run_case = run_case;
    d.shards = []
    {
        std::vector<Shard> sh;
        std::string note;
        for (size_t fi = 0; fi < g_fams.size(); ++fi)
        {
            auto& fam = g_fams[fi];
            for (auto& cfg : fam.cfgs)
            {
                int depth = g_args.thorough() ? fam.depth_thorough : fam.depth_quick;
                if (depth <= 0)
                    continue;
                note += fmt("[%s %s: %zu ops after %zu, depth %d] ", fam.name.c_str(), cfg.c_str(), fam.alphabet.size(), fam.setup.size(), depth);
                for (size_t a = 0; a < fam.alphabet.size(); ++a)
                    sh.push_back({fam.name,
                                  [=]
                                  {
                                      SeqEnum e;
                                      e.cfg = FsConfig::parse(cfg);
                                      e.setup = fam.setup;
                                      e.alphabet = fam.alphabet;
                                      e.depth = depth;
                                      e.max_fail = fam.max_fail;
                                      e.first = a;
                                      e.f = [&](const std::vector<std::string>& ops)
                                      {
                                          std::string body = cfg + "|" + join_ops(ops);
                                          std::string c = fmt("F%zu|", fi) + body;
                                          begin_case(c);
                                          run_family_case(fam, body);
                                          count(kEval);
                                          count(kTransitions, ops.size());
                                      };
                                      e.run();
                                  }});
            }
        }
        add_extra_shards(sh, note);
        set_bounds_note(note);
        return sh;
    };
    d.extra_coverage = []
    {
        return std::vector<std::string>{fmt("\"operations_executed\":%lld", (long long)counter(kTransitions)),
                                        fmt("\"stream_sequences\":%lld", (long long)counter(kExtra0))};
    };
    d.assumptions = {
        "operations reach the file system as the Linux kernel and libfuse pass them (calls the kernel rejects itself are not made)",
        "at most the stated number of failing operations before the last one in a sequence",
        "the underlying file system is tmpfs",
    };
    return check_main(argc, argv, d);
}
