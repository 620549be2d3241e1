// the work of work.h as a WebAssembly module: exports count(), name(i), run(i, from) and what the units tell each other
#include "ce/cdt.h"
#include "ce/clock.h"
#include "ce/dictionary.h"
#include "ce/io.h"
#include "ce/lziii.h"
#include "ce/math.h"
#include "ce/nameof.h"
#include "ce/pool.h"
#include "ce/sort.h"
#include "ce/zorder.h"
#include "wasm/all.h"
#define W_SEED 4711ull
#include "work.h"

namespace { unsigned long long size, now = 12345; }
extern "C"
{
    char heard[65536];
    unsigned long long w_heard()
    {
        unsigned long long h = size;
        for (unsigned i = 0; i < size; ++i) h = h * 31 + static_cast<unsigned char>(heard[i]);
        size = 0;
        return h;
    }
    void w_pass(unsigned long long t) { now += t; }
    void w_break() { for (char const* t = "<break>"; *t && size < sizeof heard; ++t) heard[size++] = *t; }

    __attribute__((export_name("count"))) int count() { return int(sizeof work::items / sizeof *work::items); }
    __attribute__((export_name("name"))) char const* name(int i) { return work::items[i].name; }
    __attribute__((export_name("work"))) unsigned long long run(int i, unsigned long long from) { return work::items[i].run(from); }
    __attribute__((export_name("folds"))) int folds() { return int(sizeof work::foldeds / sizeof *work::foldeds); }
    __attribute__((export_name("folded_name"))) char const* folded_name(int i) { return work::foldeds[i].name; }
    __attribute__((export_name("folded_from"))) unsigned long long folded_from(int i) { return work::foldeds[i].from; }
    __attribute__((export_name("folded"))) unsigned long long folded(int i) { return work::foldeds[i].value; }
}
namespace ce
{
    namespace os
    {
        void debug_out(char const t[]) { if (t) for (; *t && size < sizeof heard; ++t) heard[size++] = *t; }
        uint64_t monotonic_timestamp() { return now; }
        uint64_t monotonic_frequency() { return 10000000; }
    }
}
