// Stored sizes under padding (C16) and files beyond 4 GiB (C01, C02).
#pragma once
#include "model.h"
#include "seq.h"
namespace vf
{
// Follows the stored size of every object of a run: what it holds in excess of its unpadded size
// stays the same for good and within the configured maximum.
class SizeWatch
{
public:
    explicit SizeWatch(FsRun& r) : r(r) {}
    void look(const char* when);

private:
    FsRun& r;
    std::map<uint64_t, int> node_of;    // by inode number of the stored file
    std::map<int, long> pad;
};
void run_stream_case(const std::string& head, const std::string& rest);
bool is_stream_case(const std::string& head);
void add_stream_shards(std::vector<Shard>& sh, std::string& note);
}
