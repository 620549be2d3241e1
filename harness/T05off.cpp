// the same call sites with assertions disabled
#define CE_USER_ERROR_LEVEL 0
#define SITES_NAMESPACE sites_off
#include "sites.h"
struct Want
{
    std::string kind, what, file, more;
    std::vector<std::string> values;
    std::vector<int> hits;
    void add(std::string v) { values.push_back(v); }
};
struct Site { int (*run)(); void (*want)(Want&); };
namespace sites_off
{
#include "checks.inc"
}
size_t off_count() { return sizeof sites_off::sites / sizeof *sites_off::sites; }
int off_run(size_t i) { return sites_off::sites[i].run(); }
void off_want(size_t i, Want& w) { sites_off::sites[i].want(w); }
