// Programs of the interleaving checks.
#pragma once
#include "mc.h"
#include <string>
#include <vector>

namespace vf
{
struct Job
{
    std::string prog;
    int preempt = 1, parts = 1;
};
// C26, C27
McProgram timer_program(const std::string& spec);
McProgram idle_program(const std::string& spec);
McProgram tls_program(const std::string& spec);
std::vector<Job> jobs_c26(bool thorough);
std::vector<Job> jobs_c27(bool thorough);
}    // namespace vf
