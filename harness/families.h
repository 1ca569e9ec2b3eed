// What is enumerated per property: configurations, starting histories, operation alphabets, depths.
#pragma once
#include "fs.h"
namespace vf
{
struct Family
{
    std::string name;
    std::vector<std::string> cfgs, setup, alphabet;
    int depth_quick = 3, depth_thorough = 4, max_fail = 1;
    DumpOptions dopt;
    bool storage = false, remount = true, long_table = false, times = false, sizes = false;
};
std::vector<Family> families_for(const std::string& prop);
}
