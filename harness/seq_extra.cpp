#include "dirx.h"
#include "streamx.h"
#include "seq.h"
namespace vf
{
bool run_extra_case(const std::string& head, const std::string& rest)
{
    if (is_dir_case(head))
        run_dir_case(head, rest);
    else if (is_stream_case(head))
        run_stream_case(head, rest);
    else
        return false;
    return true;
}
void add_extra_shards(std::vector<Shard>& sh, std::string& note)
{
    if (g_args.prop == "C05")
        add_dir_shards(sh, note);
    add_stream_shards(sh, note);
}
}
