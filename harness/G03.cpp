// G03: generated units of one program, each with its own headers, order and version of the language, agree.
#include "kit.h"
#include "ce/ce.h"
#include "work_host.h"
using kit::Case;

struct Unit { void (*run)(unsigned long long); char const* what; };
#include "units.inc"

struct Seen { uint64_t value; int unit; char const* when; };
struct Conflict { std::string text; };
struct State { std::map<std::pair<std::string, uint64_t>, Seen> seen; std::vector<std::string> conflicts; uint64_t reports = 0; std::map<std::string, uint64_t> whens, names; bool over = false; };
static State& state() { static State& s = *new State; return s; }

extern "C" void w_seen(int unit, char const* name, unsigned long long from, unsigned long long value, char const* when)
{
    auto& s = state();
    ++s.reports, ++s.whens[when], ++s.names[name];
    auto at = s.seen.emplace(std::make_pair(std::string(name), from), Seen{ value, unit, when });
    Seen const& f = at.first->second;
    if (f.value == value) return;
    auto what = [](int u) { return u >= 0 && u < int(sizeof units / sizeof *units) ? units[u].what : "?"; };
    std::string t = kit::fmt("%s of %llu is %016llx %s in the unit with %s, and %016llx %s in the one with %s", name, from, value, when, what(unit), (unsigned long long)f.value, f.when, what(f.unit));
    s.conflicts.push_back(t);
    if (s.over) { fprintf(stderr, "KIT-FAIL after-main:0 [differs] %s\n", t.c_str()); fflush(stderr); __builtin_trap(); }
}

void kit_main(kit::K& k)
{
    size_t n = sizeof units / sizeof *units;
    k.section_exact("before-main", 1, [&](Case& c)
    {
        for (auto& x : state().conflicts) { c.fail("differs", "%s", x.c_str()); break; }
        c.ev(state().reports);
        if (!state().whens["before main"]) c.fail("early", "nothing was seen before main");
        c.distinct(1);
    });
    k.section("units", 400, [&](Case& c)
    {
        state().seen.clear(), state().conflicts.clear(), state().reports = 0, state().names.clear();
        uint64_t from = c.rng.next();
        for (size_t i = 0; i < n; ++i) { units[i].run(from); c.cover("units", i); }
        for (auto& x : state().conflicts) { c.fail("differs", "%s", x.c_str()); break; }
        c.ev(state().reports);
        for (auto& x : state().names) { c.cover("kinds_of_work", kit::hash_bytes(x.first.data(), x.first.size())); }
        for (auto& x : state().seen) c.digest(x.second.value), c.distinct(kit::hash_bytes(x.first.first.data(), x.first.first.size(), x.first.second) ^ x.second.value);
        if (c.index < 2) c.sample("%zu units did %zu pieces of work each, in all %llu reports agree; e.g. meshes of %llu: %016llx", n, state().names.size(), (unsigned long long)state().reports, (unsigned long long)from, (unsigned long long)state().seen[{ "meshes", from }].value);
    });
    // from here on the units' static objects end
    state().seen.clear();
    state().over = true;
}
