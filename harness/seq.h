#pragma once
#include "core.h"
#include "families.h"
namespace vf
{
void run_family_case(const Family& f, const std::string& body);
// Engines below the file system (streams, directories) that belong to the same property.
bool run_extra_case(const std::string& head, const std::string& rest);
void add_extra_shards(std::vector<Shard>& sh, std::string& note);
void seq_worker_init();
}
