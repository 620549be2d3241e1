// T05: an assertion evaluates its test once and reports only a failure: kind, place, text of the test and of the arguments, and each argument's
// value evaluated once; first to the log, then to the error handler; and it stops in the debugger exactly when the handler asks for it.
#include "sites.h"
using kit::Case;

namespace shared
{
    int v[6];
    char const* s[3];
    long long wide;
    int arr[8];
    std::vector<int> trace;
    bool flag;
    int tests;
}
struct Want
{
    std::string kind, what, file, more;
    std::vector<std::string> values;
    std::vector<int> hits;
    void add(std::string v) { values.push_back(v); }
};
struct Site { int (*run)(); void (*want)(Want&); };

namespace sites_on
{
#include "checks.inc"
}

typedef std::vector<std::pair<std::string, std::string>> Pairs;
struct Event { char type; int level; Pairs kv; bool closed; };
static std::vector<Event> g_events;
static bool g_answer;
static std::string g_out;
static Event record(char type, int level, int argc, char const* argv[][2])
{
    Event r{ type, level, { }, false };
    for (int i = 0; i < argc; ++i) r.kv.push_back({ argv[i][0] ? argv[i][0] : "(null)", argv[i][1] ? argv[i][1] : "(null)" });
    r.closed = argv[argc][0] == nullptr && argv[argc][1] == nullptr;
    return r;
}
static void on_log(int level, int argc, char const* argv[][2]) { g_events.push_back(record('L', level, argc, argv)); }
static bool on_error(int level, int argc, char const* argv[][2]) { g_events.push_back(record('E', level, argc, argv)); return g_answer; }
static void on_break() { g_events.push_back({ 'B', 0, { }, true }); }
void ce::os::debug_out(char const text[]) { g_out += text ? text : "(null)"; }

static std::string show(Pairs const& p) { std::string s; for (auto& x : p) s += kit::quote(x.first) + "=" + kit::quote(x.second) + " "; return s; }

size_t off_count();
int off_run(size_t i);
void off_want(size_t i, Want& w);
void os_run(int i, std::string& out, std::string& want);
int os_count();

static void one(Case& c, size_t i, bool enabled, int (*run)(size_t), Want w)
{
    bool is_error = w.kind == "CE_ERROR";
    bool flag = c.rng.chance(1, 2);
    g_answer = c.rng.chance(1, 2);
    bool fails = is_error || enabled && (w.kind == "CE_REJECT" ? flag : !flag);
    shared::flag = flag;
    shared::tests = 0;
    g_events.clear();
    g_out.clear();
    shared::trace.clear();
    int r = run(i);
    c.ev();
    auto got = shared::trace;
    std::sort(got.begin(), got.end());
    std::sort(w.hits.begin(), w.hits.end());
    if (!fails) w.hits.clear();
    auto name = w.kind.c_str();
    if (shared::tests != (is_error ? 0 : 1)) c.fail("test-evaluated", "site %zu: %s evaluated its test %d times", i, name, shared::tests);
    if ((w.kind == "CE_VERIFY" || w.kind == "CE_REJECT") && r != int(flag)) c.fail("value", "site %zu: %s of %d gave %d (the handler answered %d)", i, name, flag, r, g_answer);
    if (got != w.hits) c.fail("evaluated", "site %zu: %s: %zu argument evaluations, not %zu", i, name, got.size(), w.hits.size());
    std::string order, expect;
    for (auto& e : g_events) order += e.type;
    if (fails) expect = "LE";
    if (is_error || fails && g_answer) expect += 'B';
    if (order != expect) return c.fail("events", "site %zu: %s, test %d, handler answering %d: events %s, not %s", i, name, flag, g_answer, order.c_str(), expect.c_str());
    Pairs want{ { w.kind, w.file }, { w.what, w.more } };
    for (auto& v : w.values) want.push_back({ "...", v });
    for (auto& e : g_events)
        if (e.type != 'B')
        {
            if (e.kv != want) c.fail("pairs", "site %zu (%c): %s, not %s", i, e.type, show(e.kv).c_str(), show(want).c_str());
            if (e.level != 0) c.fail("level", "site %zu: level %d", i, e.level);
            if (!e.closed) c.fail("end", "site %zu: the pairs are not closed by nulls", i);
        }
    c.cover("sites", i * 2 + enabled);
    c.cover("kind_test_answer_enabled", (is_error ? 0 : w.kind == "CE_ASSERT" ? 1 : w.kind == "CE_VERIFY" ? 2 : 3) * 8 + flag * 4 + g_answer * 2 + enabled);
    c.cover("arguments", w.values.size());
    if (fails) c.count("failures_reported"), c.count("evaluations_counted", w.hits.size());
    else c.count("silent");
    c.distinct(kit::hash_bytes(w.more.data(), w.more.size(), i * 8 + flag * 4 + g_answer * 2 + enabled));
    if (fails) c.sample("%s", show(want).c_str());
}

void kit_main(kit::K& k)
{
    kit::g_log = on_log;
    kit::g_error = on_error;
    kit::g_break = on_break;
    size_t n = sizeof sites_on::sites / sizeof *sites_on::sites;
    k.section_exact("sites", n * 12, [&](Case& c)
    {
        std::vector<std::string> keep;
        vary(c.rng, keep);
        size_t i = c.index % n;
        Want w;
        sites_on::sites[i].want(w);
        one(c, i, true, [](size_t j) { return sites_on::sites[j].run(); }, w);
    });
    k.section_exact("disabled", off_count() * 6, [&](Case& c)
    {
        std::vector<std::string> keep;
        vary(c.rng, keep);
        Want w;
        size_t i = c.index % off_count();
        off_want(i, w);
        one(c, i, false, off_run, w);
        c.count("disabled");
    });
    // random reports straight to the default handler
    k.section("reports", 20000 * k.pick(1, 10), [&](Case& c)
    {
        Pairs kv;
        auto word = [&] { std::string s; for (size_t m = c.rng.chance(1, 20) ? c.rng.below(3000) : c.rng.below(20); s.size() < m;) s += char(1 + c.rng.below(255)); return s; };
        for (size_t m = 2 + c.rng.below(12); kv.size() < m;) kv.push_back({ word(), word() });
        if (c.rng.chance(1, 20)) kv.resize(c.rng.below(2));
        int level = int(c.rng.chance(1, 3) ? 0 : c.rng.chance(1, 2) ? c.rng.swide(32) : c.rng.range(-2, 10));
        std::vector<char*> mem;
        auto copy = [&](std::string const& s) { mem.push_back(static_cast<char*>(malloc(s.size() + 1))); memcpy(mem.back(), s.c_str(), s.size() + 1); return mem.back(); };
        auto a = static_cast<char const*(*)[2]>(malloc(sizeof(char const*[2]) * kv.size() + !kv.size()));
        for (size_t i = 0; i < kv.size(); ++i) a[i][0] = copy(kv[i].first), a[i][1] = copy(kv[i].second);
        std::string want = "******** FAILED ********\n";
        if (kv.size() > 1)
        {
            want += kv[0].second + ": " + kv[0].first + ": " + kv[1].first + ": (" + kv[1].second + ") = (";
            for (size_t i = 2; i < kv.size(); ++i) want += (i > 2 ? ", " : "") + kv[i].second;
            want += ")\n";
        }
        g_out.clear();
        bool r = ce::os::error(level, int(kv.size()), kv.empty() && c.rng.chance(1, 2) ? nullptr : a);
        c.ev();
        if (g_out != want) c.fail("report", "%s, not %s", kit::quote(g_out).c_str(), kit::quote(want).c_str());
        if (r != (level == 0)) c.fail("answer", "level %d: %s", level, r ? "break" : "continue");
        c.cover("pairs", kv.size());
        for (auto p : mem) free(p);
        free(a);
        c.distinct(kit::hash_bytes(g_out.data(), g_out.size()));
    });
    k.section_exact("default_hooks", uint64_t(os_count()), [&](Case& c)
    {
        std::string out, want;
        g_events.clear();
        os_run(int(c.index), out, want);
        for (auto& e : g_events) out += e.type;
        c.ev();
        if (out != want) c.fail("default-hooks", "%s, not %s", kit::quote(out).c_str(), kit::quote(want).c_str());
        c.count("default_hooks");
    });
}
