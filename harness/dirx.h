// Exploration of the B-tree directory itself (C05, and its part of C21).
#pragma once
#include "seq.h"
namespace vf
{
void run_dir_case(const std::string& head, const std::string& rest);
bool is_dir_case(const std::string& head);
void add_dir_shards(std::vector<Shard>& sh, std::string& note);
void add_dir_fault_shards(std::vector<Shard>& sh, std::string& note);
}
