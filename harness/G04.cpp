// G04: the library as WebAssembly modules, and natively, does the same work alike.
#include "kit.h"
#include "ce/cdt.h"
#include "ce/clock.h"
#include "ce/dictionary.h"
#include "ce/io.h"
#include "ce/lziii.h"
#include "ce/math.h"
#include "ce/nameof.h"
#include "ce/pool.h"
#include "ce/sort.h"
#include "ce/zorder.h"
#include "work_host.h"
#include "wasm/all.h"
#define W_SEED 4711ull
#include "work.h"
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <unistd.h>
using kit::Case;

// a module run by node, asked over pipes
struct Module
{
    std::string name;
    FILE* to = nullptr;
    FILE* from = nullptr;
    std::vector<std::string> items;

    [[noreturn]] void broken(char const* what) { fprintf(stderr, "%s: %s\n", name.c_str(), what); exit(3); }
    std::string line()
    {
        char b[4096];
        if (!fgets(b, sizeof b, from)) broken("no answer");
        b[strcspn(b, "\n")] = 0;
        return b;
    }
    void start()
    {
        int a[2], b[2];
        if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) broken("no pipe");
        std::string file = KIT_GEN "/" + name + ".wasm", host = KIT_HARNESS "/wasm/host.mjs";
        std::vector<char const*> args{ "node" };
        if (name.find("64") != std::string::npos) args.push_back("--experimental-wasm-memory64");
        args.push_back("--no-warnings"), args.push_back(host.c_str()), args.push_back(file.c_str()), args.push_back(nullptr);
        posix_spawn_file_actions_t f;
        posix_spawn_file_actions_init(&f);
        posix_spawn_file_actions_adddup2(&f, a[0], 0);
        posix_spawn_file_actions_adddup2(&f, b[1], 1);
        pid_t pid;
        if (posix_spawnp(&pid, "node", &f, nullptr, const_cast<char**>(args.data()), environ)) broken("node does not start");
        close(a[0]), close(b[1]);
        to = fdopen(a[1], "w"), from = fdopen(b[0], "r");
        std::string l = line();
        for (char* t = strtok(&l[0], " "); t; t = strtok(nullptr, " ")) items.push_back(t);
        if (items.size() < 3 || items[0] != "items") broken("no items");
        items.erase(items.begin(), items.begin() + 2);
    }
    void ask(unsigned item, uint64_t from_seed) { fprintf(to, "%u %llx\n", item, (unsigned long long)from_seed); }
};

void kit_main(kit::K& k)
{
    constexpr unsigned n = sizeof work::items / sizeof *work::items;
    std::vector<Module> ms;
    auto modules = [&]() -> std::vector<Module>&
    {
        if (ms.empty())
            for (char const* t : { "wasm32-O2", "wasm32-trap", "wasm64-O2", "wasm64-trap" }) { Module m; m.name = t; m.start(); ms.push_back(m); }
        for (auto& m : ms)
            if (m.items.size() != n) m.broken("other items");
        return ms;
    };
    auto is = [](Case& c, Module& m, char const* item, uint64_t from, uint64_t want)
    {
        std::string l = m.line();
        c.ev();
        if (l.compare(0, 5, "trap ") == 0) { c.fail("trap", "%s of %llu ends with a trap as %s: %s", item, (unsigned long long)from, m.name.c_str(), l.c_str() + 5); return; }
        uint64_t v = strtoull(l.c_str(), nullptr, 16);
        if (v != want) c.fail("differs", "%s of %llu is %016llx as %s and %016llx natively", item, (unsigned long long)from, (unsigned long long)v, m.name.c_str(), (unsigned long long)want);
    };
    k.section_exact("folded", 1, [&](Case& c)
    {
        for (auto& m : modules())
        {
            fprintf(m.to, "folded\n"), fflush(m.to);
            unsigned seen = 0;
            for (std::string l; (l = m.line()) != "done"; ++seen)
            {
                char name[64];
                unsigned long long from, value;
                if (sscanf(l.c_str(), "folded %63s %llx %llx", name, &from, &value) != 3) m.broken("what is folded?");
                for (auto& i : work::foldeds)
                    if (i.from == from && !strcmp(i.name, name))
                    {
                        c.ev();
                        if (value != i.value) c.fail("folded", "%s of %llu is %016llx when compiled for %s and %016llx natively", name, from, value, m.name.c_str(), (unsigned long long)i.value);
                    }
            }
            if (seen != sizeof work::foldeds / sizeof *work::foldeds) c.fail("folded", "%u values", seen);
        }
        c.distinct(1);
    });
    k.section("work", 3000, [&](Case& c)
    {
        uint64_t from = c.rng.chance(1, 8) ? c.rng.below(1000) : c.rng.next();
        for (auto& m : modules())
        {
            for (unsigned i = 0; i < n; ++i) m.ask(i, from);
            fflush(m.to);
        }
        uint64_t want[n];
        for (unsigned i = 0; i < n; ++i)
        {
            want[i] = work::items[i].run(from);
            c.digest(want[i]);
            c.distinct(kit::hash_bytes(work::items[i].name, strlen(work::items[i].name), want[i]));
            c.cover("kinds_of_work", i);
        }
        for (auto& m : modules())
        {
            for (unsigned i = 0; i < n; ++i)
                if (m.items[i] != work::items[i].name) m.broken("other items");
                else is(c, m, work::items[i].name, from, want[i]);
            c.cover("modules", kit::hash_bytes(m.name.data(), m.name.size()));
        }
        if (c.index < 2) c.sample("all of %u kinds of work from seed %llu alike in %zu modules and natively, e.g. sorted: %016llx", n, (unsigned long long)from, modules().size(), (unsigned long long)want[10]);
    });
}
