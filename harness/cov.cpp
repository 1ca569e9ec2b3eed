// Development only (VERIF_COV=1): which basic blocks of the repository a check executes, over all its processes.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
namespace
{
struct Pc
{
    uintptr_t pc, flags;
};
const Pc *g_beg, *g_end;
uint8_t* g_hit;
uint32_t g_n;
int g_pid;
extern "C" char __executable_start;
void dump()
{
    if (getpid() != g_pid || !getenv("VERIF_COV_OUT"))
        return;
    FILE* f = fopen(getenv("VERIF_COV_OUT"), "w");
    if (!f)
        return;
    unsigned long b = (unsigned long)&__executable_start;
    for (uint32_t i = 0; i < (uint32_t)(g_end - g_beg); ++i)
        fprintf(f, "%d %lx %d\n", (int)g_hit[i + 1], (unsigned long)g_beg[i].pc - b, (int)g_beg[i].flags);
    fclose(f);
}
}    // namespace
std::vector<std::pair<const Pc*, const Pc*>>* g_mods;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
{
    if (start == stop || *start)
        return;
    if (!g_hit)
    {
        g_hit = (uint8_t*)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        g_pid = getpid();
        atexit(dump);
    }
    for (uint32_t* p = start; p < stop; ++p)
        *p = ++g_n;
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t* beg, const uintptr_t* end)
{
    g_beg = (const Pc*)beg;
    g_end = (const Pc*)end;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g)
{
    if (g_hit)
        g_hit[*g] = 1;
}
