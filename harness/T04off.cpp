// the same call sites with logging switched off
#define CE_USER_LOG_LEVEL 0
#define SITES_NAMESPACE sites_off
#include "sites.h"
namespace
{
    typedef std::vector<std::pair<std::string, std::string>> Pairs;
    struct Want { int level = -1; Pairs kv; std::vector<int> hits; void add(char const* k, std::string v) { kv.push_back({ k, v }); } };
    struct Site { void (*run)(); void (*want)(Want&); };
}
namespace sites_off
{
#include "logs.inc"
}
size_t off_count() { return sizeof sites_off::sites / sizeof *sites_off::sites; }
void off_run(size_t i) { sites_off::sites[i].run(); }
