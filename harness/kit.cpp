#include "kit.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include "hooks.h"

namespace kit
{
    std::atomic<long> g_asserts{ 0 };
    char g_assert_text[512];
    bool (*g_error)(int, int, char const* argv[][2]) = nullptr;
    void (*g_log)(int, int, char const* argv[][2]) = nullptr;
    void (*g_break)() = nullptr;

    bool on_error(int level, int argc, char const* argv[][2])
    {
        if (g_error)
            return g_error(level, argc, argv);
        ++g_asserts;
        if (g_assert_text[0] == 0 && argc >= 2)
            snprintf(g_assert_text, sizeof g_assert_text, "%s(%s) at %s", argv[0][0] ? argv[0][0] : "", argv[1][0] ? argv[1][0] : "", argv[0][1] ? argv[0][1] : "");
        return false;
    }
    void on_log(int level, int argc, char const* argv[][2])
    {
        if (g_log)
            g_log(level, argc, argv);
    }
    void on_break()
    {
        if (g_break)
            return g_break();
        g_asserts++;
    }

    std::string fmt(char const* f, ...)
    {
        char b[4096];
        va_list a;
        va_start(a, f);
        vsnprintf(b, sizeof b, f, a);
        va_end(a);
        return b;
    }

    std::string quote(void const* p, size_t n)
    {
        std::string r = "\"";
        for (size_t i = 0; i < n && i < 300; ++i)
        {
            unsigned char c = static_cast<unsigned char const*>(p)[i];
            if (c >= ' ' && c < 127 && c != '"' && c != '\\')
                r += char(c);
            else
                r += fmt("\\x%02x", c);
        }
        return r + (n > 300 ? "...\"" : "\"");
    }

    // shared with the runner: which case is being executed
    struct Progress { char section[64]; uint64_t index; uint64_t started; };
    static Progress* g_progress;
    static Progress g_local_progress;
    static double g_case_cpu_limit = 40;
    static std::atomic<double> g_case_start_cpu{ 0 };

    static double cpu_now()
    {
        timespec t;
        clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
        return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
    }

    static void on_vtalrm(int)
    {
        if (cpu_now() - g_case_start_cpu > g_case_cpu_limit)
        {
            static char const m[] = "KIT: case exceeded its cpu time limit\n";
            if (write(2, m, sizeof m - 1)) { }
            _exit(77);
        }
    }

    void Case::fail(char const* key, char const* f, ...)
    {
        char b[3000];
        va_list a;
        va_start(a, f);
        vsnprintf(b, sizeof b, f, a);
        va_end(a);
        failed = true;
        auto n = ++k.fail_counts[key];
        if (n <= 5)
        {
            k.failures.push_back({ key, section, b, index });
            fprintf(stderr, "KIT-FAIL %s:%llu [%s] %s\n", section, (unsigned long long)index, key, b);
        }
    }
    void Case::distinct(uint64_t h)
    {
        if (k.seen.size() < 4000000)
            k.seen.insert(h);
        else
            k.seen_full = true;
    }
    void Case::sample(char const* f, ...)
    {
        if (k.samples.size() >= 24 || ++k.sample_counts[section] > 3)
            return;
        char b[600];
        va_list a;
        va_start(a, f);
        vsnprintf(b, sizeof b, f, a);
        va_end(a);
        k.samples.push_back(fmt("%s:%llu: ", section, (unsigned long long)index) + b);
    }
    void Case::ev(uint64_t n) { k.evaluations += n; }
    void Case::count(char const* name, uint64_t n) { k.counters[name] += n; }
    void Case::cover(char const* name, uint64_t bucket) { auto& s = k.covers[name]; if (s.size() < 2000000) s.insert(bucket); }
    void Case::digest(uint64_t v) { k.digest = mix(k.digest ^ v); }

    void K::section(char const* name, uint64_t base, std::function<void(Case&)> const& f)
    {
        auto n = uint64_t(double(base) * scale);
        run_section(name, n < 1 ? 1 : n, f);
    }

    void K::run_section(char const* name, uint64_t n, std::function<void(Case&)> const& f)
    {
        if (!only_section.empty() && only_section != name)
            return;
        uint64_t sh = hash_bytes(name, strlen(name));
        for (uint64_t i = 0; i < n; ++i)
        {
            if (only_index >= 0 ? uint64_t(only_index) != i : i % shards != shard)
                continue;
            snprintf(g_progress->section, sizeof g_progress->section, "%s", name);
            g_progress->index = i;
            g_progress->started++;
            g_case_start_cpu = cpu_now();
            long asserts = g_asserts;
            Case c{ *this, name, i, Rng{ mix(seed) ^ mix(sh) ^ mix(i * 0x100000001b3ull + 7) } };
            f(c);
            section_cases[name]++;
            if (g_asserts != asserts)
                c.fail("library-assert", "library assertion failed: %s", g_assert_text), g_assert_text[0] = 0;
            size_t total = 0;
            for (auto& q : fail_counts) total += q.second;
            if (total > 2000)
                break;
        }
    }

    static std::string json(std::string const& s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
            else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
            else r += char(c);
        }
        return r + "\"";
    }

    static void write_result(K& k, char const* path)
    {
        FILE* o = fopen(path, "w");
        if (!o) { perror(path); _exit(3); }
        fprintf(o, "{\"evaluations\": %llu, \"distinct\": %llu, \"distinct_capped\": %s, \"digest\": \"%016llx\",\n", (unsigned long long)k.evaluations, (unsigned long long)k.seen.size(), k.seen_full ? "true" : "false", (unsigned long long)k.digest);
        fprintf(o, "\"sections\": {");
        char const* p = "";
        for (auto& q : k.section_cases) fprintf(o, "%s%s: %llu", p, json(q.first).c_str(), (unsigned long long)q.second), p = ", ";
        fprintf(o, "},\n\"counters\": {");
        p = "";
        for (auto& q : k.counters) fprintf(o, "%s%s: %llu", p, json(q.first).c_str(), (unsigned long long)q.second), p = ", ";
        fprintf(o, "},\n\"covers\": {");
        p = "";
        for (auto& q : k.covers)
        {
            fprintf(o, "%s%s: ", p, json(q.first).c_str()), p = ", ";
            if (q.second.size() > 4096) { fprintf(o, "%llu", (unsigned long long)q.second.size()); continue; }
            char const* c = "[";
            for (auto v : q.second) fprintf(o, "%s%llu", c, (unsigned long long)v), c = ",";
            fprintf(o, "]");
        }
        fprintf(o, "},\n\"samples\": [");
        p = "";
        for (auto& q : k.samples) fprintf(o, "%s%s", p, json(q).c_str()), p = ",\n ";
        fprintf(o, "],\n\"notes\": [");
        p = "";
        for (auto& q : k.notes) fprintf(o, "%s%s", p, json(q).c_str()), p = ",\n ";
        fprintf(o, "],\n\"fail_counts\": {");
        p = "";
        for (auto& q : k.fail_counts) fprintf(o, "%s%s: %llu", p, json(q.first).c_str(), (unsigned long long)q.second), p = ", ";
        fprintf(o, "},\n\"failures\": [");
        p = "";
        for (auto& q : k.failures)
            fprintf(o, "%s{\"key\": %s, \"section\": %s, \"index\": %llu, \"detail\": %s}", p, json(q.key).c_str(), json(q.section).c_str(), (unsigned long long)q.index, json(q.detail).c_str()), p = ",\n ";
        fprintf(o, "]}\n");
        fclose(o);
    }
}

int main(int argc, char** argv)
{
    kit::K k;
    char const* out = "result.json";
    char const* progress = nullptr;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&] { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") k.seed = strtoull(val(), nullptr, 0);
        else if (a == "--thorough") k.thorough = true;
        else if (a == "--scale") k.scale = atof(val());
        else if (a == "--out") out = val();
        else if (a == "--progress") progress = val();
        else if (a == "--case-cpu") kit::g_case_cpu_limit = atof(val());
        else if (a == "--shard")
        {
            std::string s = val();
            k.shard = strtoull(s.c_str(), nullptr, 0);
            k.shards = strtoull(s.c_str() + s.find('/') + 1, nullptr, 0);
        }
        else if (a == "--only")
        {
            std::string s = val();
            auto p = s.find(':');
            k.only_section = s.substr(0, p);
            if (p != std::string::npos) k.only_index = strtoll(s.c_str() + p + 1, nullptr, 0);
        }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }

    rlimit no_core{ 0, 0 };
    setrlimit(RLIMIT_CORE, &no_core);

    kit::g_progress = &kit::g_local_progress;
    if (progress)
    {
        int fd = open(progress, O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(kit::Progress)) != 0) { perror(progress); return 3; }
        void* m = mmap(nullptr, sizeof(kit::Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) { perror("mmap"); return 3; }
        kit::g_progress = static_cast<kit::Progress*>(m);
        close(fd);
    }

    kit::g_case_start_cpu = kit::cpu_now();
    signal(SIGVTALRM, kit::on_vtalrm);
    itimerval it{ { 0, 500000 }, { 0, 500000 } };
    setitimer(ITIMER_VIRTUAL, &it, nullptr);

    kit_main(k);

    itimerval off{ };
    setitimer(ITIMER_VIRTUAL, &off, nullptr);
    snprintf(kit::g_progress->section, sizeof kit::g_progress->section, "%s", "(done)");
    kit::write_result(k, out);
    return 0;
}
