// T04: a log call reports its level, one pair per argument (the argument's source text and its value), in order, evaluating each once;
// a disabled log evaluates nothing; the default hook writes one line with all of it.
#include "sites.h"
using kit::Case;

namespace shared
{
    int v[6];
    char const* s[3];
    long long wide;
    int arr[8];
    std::vector<int> trace;
    bool flag;
    int tests;
}
typedef std::vector<std::pair<std::string, std::string>> Pairs;
struct Want { int level = -1; Pairs kv; std::vector<int> hits; void add(char const* k, std::string v) { kv.push_back({ k, v }); } };
struct Site { void (*run)(); void (*want)(Want&); };

namespace sites_on
{
#include "logs.inc"
}

// ---- what was logged
struct Record { int level; Pairs kv; bool closed; };
static std::vector<Record> g_records;
static std::string g_out;
static void capture(int level, int argc, char const* argv[][2])
{
    Record r{ level, { }, false };
    for (int i = 0; i < argc; ++i) r.kv.push_back({ argv[i][0] ? argv[i][0] : "(null)", argv[i][1] ? argv[i][1] : "(null)" });
    r.closed = argv[argc][0] == nullptr && argv[argc][1] == nullptr;
    g_records.push_back(r);
}
// the harness stands in for the platform's output
void ce::os::debug_out(char const text[]) { g_out += text ? text : ""; }

static std::string show(Pairs const& p) { std::string s; for (auto& x : p) s += kit::quote(x.first) + "=" + kit::quote(x.second) + " "; return s; }

static std::string line(int level, Pairs const& kv)
{
    std::string s(1, "FEWNIDSM"[level < 0 ? 0 : level > 7 ? 7 : level]);
    s += ": {";
    char const* sep = " ";
    for (auto& x : kv) s += sep + ("\"" + x.first) + "\": \"" + x.second + "\"", sep = ", ";
    return s + " }\n";
}

size_t off_count();
void off_run(size_t i);
void os_run(int i, std::string& out, std::string& want);
int os_count();

void kit_main(kit::K& k)
{
    kit::g_log = capture;
    size_t n = sizeof sites_on::sites / sizeof *sites_on::sites;
    k.section_exact("sites", n * k.pick(6, 6), [&](Case& c)
    {
        size_t i = c.index % n;
        std::vector<std::string> keep;
        vary(c.rng, keep);
        Want w;
        sites_on::sites[i].want(w);
        g_records.clear();
        shared::trace.clear();
        sites_on::sites[i].run();
        c.ev();
        auto got = shared::trace;
        std::sort(got.begin(), got.end());
        std::sort(w.hits.begin(), w.hits.end());
        if (g_records.size() != 1) return c.fail("calls", "site %zu: the hook was called %zu times", i, g_records.size());
        auto& r = g_records[0];
        if (r.level != w.level) c.fail("level", "site %zu: level %d, not %d", i, r.level, w.level);
        if (r.kv != w.kv) c.fail("pairs", "site %zu: %s, not %s", i, show(r.kv).c_str(), show(w.kv).c_str());
        if (!r.closed) c.fail("end", "site %zu: the pairs are not closed by nulls", i);
        if (got != w.hits) c.fail("evaluated", "site %zu: %zu evaluations, not %zu", i, got.size(), w.hits.size());
        c.cover("sites", i);
        c.cover("arguments", w.kv.size());
        c.cover("levels", uint64_t(w.level));
        c.count("evaluations_counted", w.hits.size());
        for (auto& p : w.kv) c.distinct(kit::hash_bytes(p.first.data(), p.first.size()));
        // the default hook's line
        std::vector<char const*> flat;
        std::vector<std::pair<char const*, char const*>> a;
        for (auto& p : w.kv) a.push_back({ p.first.c_str(), p.second.c_str() });
        g_out.clear();
        ce::os::log(w.level, int(a.size()), reinterpret_cast<char const*(*)[2]>(a.data()));
        if (g_out != line(w.level, w.kv)) c.fail("line", "%s, not %s", kit::quote(g_out).c_str(), kit::quote(line(w.level, w.kv)).c_str());
        c.sample("%s", kit::quote(line(w.level, w.kv)).c_str());
    });
    k.section_exact("disabled", off_count(), [&](Case& c)
    {
        std::vector<std::string> keep;
        vary(c.rng, keep);
        g_records.clear();
        g_out.clear();
        off_run(c.index);
        c.ev();
        if (!shared::trace.empty()) c.fail("disabled-evaluates", "disabled site %llu evaluates its arguments", (unsigned long long)c.index);
        if (!g_records.empty() || !g_out.empty()) c.fail("disabled-logs", "disabled site %llu logs", (unsigned long long)c.index);
        c.count("disabled");
    });
    // random pairs straight to the default hook, any level
    k.section("lines", 20000 * k.pick(1, 10), [&](Case& c)
    {
        Pairs kv;
        auto word = [&] { std::string s; for (size_t m = c.rng.chance(1, 20) ? c.rng.below(3000) : c.rng.below(20); s.size() < m;) s += char(1 + c.rng.below(255)); return s; };
        for (size_t m = c.rng.below(12); kv.size() < m;) kv.push_back({ word(), word() });
        int level = int(c.rng.chance(1, 3) ? c.rng.swide(32) : c.rng.range(-2, 10));
        // exactly sized copies
        std::vector<char*> mem;
        auto copy = [&](std::string const& s) { mem.push_back(static_cast<char*>(malloc(s.size() + 1))); memcpy(mem.back(), s.c_str(), s.size() + 1); return mem.back(); };
        auto a = static_cast<char const*(*)[2]>(malloc(sizeof(char const*[2]) * kv.size() + !kv.size()));
        for (size_t i = 0; i < kv.size(); ++i) a[i][0] = copy(kv[i].first), a[i][1] = copy(kv[i].second);
        g_out.clear();
        ce::os::log(level, int(kv.size()), a);
        c.ev();
        if (g_out != line(level, kv)) c.fail("line", "level %d: %s, not %s", level, kit::quote(g_out).c_str(), kit::quote(line(level, kv)).c_str());
        c.cover("line_levels", uint64_t(level < 0 ? 8 : level > 7 ? 9 : level));
        for (auto p : mem) free(p);
        free(a);
        c.distinct(kit::hash_bytes(g_out.data(), g_out.size()));
    });
    // without a user hook, a log call goes to the default one
    k.section_exact("default_hook", uint64_t(os_count()), [&](Case& c)
    {
        std::string want;
        g_out.clear();
        os_run(int(c.index), g_out, want);
        c.ev();
        if (g_out != want) c.fail("default-hook", "%s, not %s", kit::quote(g_out).c_str(), kit::quote(want).c_str());
        c.count("default_hook");
    });
}
