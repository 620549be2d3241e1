// W01: the Windows services: files are mapped byte for byte and never changed, every failure of the system is reported and leaves
// an empty result and nothing open, sleeps ask for no less than was asked, readings are passed on whole.
// The Win32 interface is a stand-in with the documented contract, which keeps account of files, handles, mappings, views and memory.
#include "kit.h"
#include "ce/ce.h"
#include "win/windows.h"
#include <sys/mman.h>
using kit::Case;
namespace os = ce::os;
typedef unsigned __int128 u128;

struct File { std::vector<uint8_t> bytes; uint64_t size; bool readonly, exclusive, read_elsewhere; };
struct Handle { int kind; std::u16string path; uint64_t size; bool write; }; // 1 file, 2 mapping
struct View { uint8_t* base; uint64_t size; std::u16string path; };

struct World
{
    std::map<std::u16string, File> files;
    std::map<uintptr_t, Handle> handles;
    std::map<uintptr_t, View> views;
    std::map<uintptr_t, size_t> memory;
    std::vector<void*> stack; // what _alloca handed out
    uintptr_t next = 0x40;
    unsigned fault = 0; // of 16
    kit::Rng* rng = nullptr;
    uint64_t faults = 0, calls = 0;
    std::string wrong, debug;
    std::u16string asked;
    bool changed = false;
    u128 slept = 0; // in ns; infinite: 2^100
    uint64_t sleeps = 0, counter = 0, frequency = 0;
    bool fails() { ++calls; bool f = rng && fault && rng->below(16) < fault; faults += f; return f; }
    void complain(char const* s) { if (wrong.empty()) wrong = s; }
};
static World w;
static DWORD g_error;

extern "C"
{
    void* _alloca(size_t n) { void* p = malloc(n ? n : 1); memset(p, 0xa5, n); w.stack.push_back(p); return p; }
    DWORD GetLastError() { return g_error; }
    void SetLastError(DWORD e) { g_error = e; }
    void OutputDebugStringA(LPCSTR s) { ++w.calls; w.debug += s; }
    BOOL QueryPerformanceCounter(LARGE_INTEGER* n) { ++w.calls; n->QuadPart = LONGLONG(w.counter); return 1; }
    BOOL QueryPerformanceFrequency(LARGE_INTEGER* n) { ++w.calls; n->QuadPart = LONGLONG(w.frequency); return 1; }
    DWORD SleepEx(DWORD ms, BOOL alertable)
    {
        ++w.sleeps;
        if (alertable && w.rng && w.rng->chance(1, 2))
        {
            // woken early by a completion
            w.slept += u128(w.rng->below(uint64_t(ms) + 1)) * 1000000u;
            return WAIT_IO_COMPLETION;
        }
        w.slept += ms == INFINITE ? u128(1) << 100 : u128(ms) * 1000000u;
        return 0;
    }
    void Sleep(DWORD ms) { SleepEx(ms, FALSE); }

    HANDLE CreateFileW(LPCWSTR path, DWORD access, DWORD share, LPSECURITY_ATTRIBUTES, DWORD how, DWORD flags, HANDLE)
    {
        std::u16string p;
        for (auto s = reinterpret_cast<char16_t const*>(path); *s; ++s) p += *s; // an unterminated one ends at the red zone
        w.asked = p;
        if (w.fails()) { g_error = 5; return INVALID_HANDLE_VALUE; }
        auto f = w.files.find(p);
        if (how != OPEN_EXISTING) { w.complain("a file may be created or emptied by opening it"); w.changed = true; }
        if (flags & FILE_FLAG_DELETE_ON_CLOSE) w.complain("a file opened would be deleted");
        if (f == w.files.end()) { g_error = ERROR_FILE_NOT_FOUND; return INVALID_HANDLE_VALUE; }
        if (f->second.exclusive || (f->second.readonly && access & GENERIC_WRITE) || (f->second.read_elsewhere && !(share & FILE_SHARE_READ)) || (f->second.read_elsewhere && access & GENERIC_WRITE)) { g_error = 32; return INVALID_HANDLE_VALUE; }
        for (auto& h : w.handles) if (h.second.kind == 1 && h.second.path == p && (!(share & FILE_SHARE_READ) || access & GENERIC_WRITE)) { g_error = 32; return INVALID_HANDLE_VALUE; }
        w.handles[w.next] = Handle{ access & GENERIC_READ ? 1 : 3, p, f->second.size, (access & GENERIC_WRITE) != 0 };
        HANDLE h = HANDLE(w.next);
        w.next += 4 + 4 * (w.rng ? w.rng->below(3) : 0);
        return h;
    }
    BOOL CloseHandle(HANDLE h)
    {
        ++w.calls;
        if (h == INVALID_HANDLE_VALUE) return 1; // the pseudo handle of this process
        if (!w.handles.erase(uintptr_t(h))) { if (h) w.complain("a handle which is not open was closed"); g_error = 6; return 0; }
        return 1;
    }
    BOOL GetFileSizeEx(HANDLE h, PLARGE_INTEGER n)
    {
        auto i = w.handles.find(uintptr_t(h));
        n->QuadPart = 0x5a5a5a5a5a5a5a5all;
        if (w.fails() || i == w.handles.end() || i->second.kind == 2) { g_error = 6; return 0; }
        n->QuadPart = LONGLONG(i->second.size);
        return 1;
    }
    DWORD GetFileSize(HANDLE h, LPDWORD high)
    {
        LARGE_INTEGER n;
        if (!GetFileSizeEx(h, &n)) return INVALID_FILE_SIZE;
        if (high) *high = DWORD(n.HighPart);
        g_error = 0;
        return n.LowPart;
    }
    HANDLE CreateFileMappingW(HANDLE h, LPSECURITY_ATTRIBUTES, DWORD protect, DWORD high, DWORD low, LPCWSTR name)
    {
        auto i = w.handles.find(uintptr_t(h));
        uint64_t size = uint64_t(high) << 32 | low;
        if (w.fails() || i == w.handles.end() || i->second.kind != 1) { g_error = 6; return nullptr; }
        if (name) w.complain("a mapping private to the program has a name others see");
        if (protect != PAGE_READONLY && protect != PAGE_WRITECOPY && !(protect == PAGE_READWRITE && i->second.write)) { g_error = 5; return nullptr; }
        if (size == 0) size = i->second.size;
        if (size == 0 || (size > i->second.size && protect != PAGE_READWRITE)) { g_error = 1006; return nullptr; }
        if (size > i->second.size) w.changed = true;
        w.handles[w.next] = Handle{ 2, i->second.path, size, protect == PAGE_READWRITE };
        HANDLE m = HANDLE(w.next);
        w.next += 4;
        return m;
    }
    LPVOID MapViewOfFile(HANDLE h, DWORD access, DWORD high, DWORD low, SIZE_T n)
    {
        auto i = w.handles.find(uintptr_t(h));
        uint64_t at = uint64_t(high) << 32 | low;
        if (w.fails() || i == w.handles.end() || i->second.kind != 2) { g_error = 6; return nullptr; }
        if (access & FILE_MAP_WRITE && !i->second.write) { g_error = 5; return nullptr; }
        if (access == FILE_MAP_WRITE || access == FILE_MAP_ALL_ACCESS) w.complain("a read only view can be written");
        if (at & 0xffff || at > i->second.size) { g_error = 1132; return nullptr; }
        if (n == 0) n = i->second.size - at;
        if (n > i->second.size - at) { g_error = 5; return nullptr; }
        auto& f = w.files[i->second.path];
        uint8_t* p;
        if (f.bytes.size() < f.size)
        {
            // too big to hold: reserved
            p = static_cast<uint8_t*>(mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (p == MAP_FAILED) { g_error = 8; ++w.faults; return nullptr; }
        }
        else
        {
            p = static_cast<uint8_t*>(malloc(n)); // exactly sized
            memcpy(p, f.bytes.data() + at, n);
        }
        w.views[uintptr_t(p)] = View{ p, n, i->second.path };
        return p;
    }
    BOOL UnmapViewOfFile(LPCVOID p)
    {
        auto i = w.views.find(uintptr_t(p));
        if (i == w.views.end()) { if (p) w.complain("what is not a view was unmapped"); g_error = 487; return 0; }
        if (w.fails()) { g_error = 487; return 0; }
        auto& f = w.files[i->second.path];
        if (f.bytes.size() < f.size) munmap(i->second.base, i->second.size); else free(i->second.base);
        w.views.erase(i);
        return 1;
    }
    LPVOID VirtualAlloc(LPVOID where, SIZE_T n, DWORD type, DWORD protect)
    {
        if (w.fails() || n == 0 || where) { g_error = 87; return nullptr; }
        n = (n + 4095) & ~SIZE_T(4095);
        if (!n || n > SIZE_T(1) << 46) { g_error = 8; return nullptr; }
        bool commit = type & MEM_COMMIT;
        int prot = !commit || protect == PAGE_NOACCESS ? PROT_NONE : protect == PAGE_READONLY ? PROT_READ : protect == PAGE_READWRITE ? PROT_READ | PROT_WRITE : PROT_NONE;
        void* p = mmap(nullptr, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { ++w.faults; return nullptr; }
        w.memory[uintptr_t(p)] = n;
        return p;
    }
    BOOL VirtualFree(LPVOID p, SIZE_T, DWORD)
    {
        auto i = w.memory.find(uintptr_t(p));
        if (i == w.memory.end()) return 0;
        munmap(p, i->second);
        w.memory.erase(i);
        return 1;
    }
}

// ---- code points by the definition of either encoding
static void add8(std::string& s, uint32_t c)
{
    if (c < 0x80) s += char(c);
    else if (c < 0x800) s += char(0xc0 | c >> 6), s += char(0x80 | (c & 63));
    else if (c < 0x10000) s += char(0xe0 | c >> 12), s += char(0x80 | (c >> 6 & 63)), s += char(0x80 | (c & 63));
    else s += char(0xf0 | c >> 18), s += char(0x80 | (c >> 12 & 63)), s += char(0x80 | (c >> 6 & 63)), s += char(0x80 | (c & 63));
}
static void add16(std::u16string& s, uint32_t c)
{
    if (c < 0x10000) s += char16_t(c);
    else s += char16_t(0xd800 + ((c - 0x10000) >> 10)), s += char16_t(0xdc00 + ((c - 0x10000) & 1023));
}
static uint32_t code_point(kit::Rng& g)
{
    static const uint32_t edges[] = { 1, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10fff, 0xfffff, 0x100000, 0x10ffff, '\\', '/', ':', 0x3b1, 0x20ac, 0x1f600 };
    switch (g.below(6))
    {
    case 0: return g.pick(edges);
    case 1: return uint32_t(g.range(0x80, 0x7ff));
    case 2: { uint32_t c = uint32_t(g.range(0x800, 0xffff)); return c >= 0xd800 && c < 0xe000 ? c - 0x800 : c; }
    case 3: return uint32_t(g.range(0x10000, 0x10ffff));
    default: return uint32_t(g.range(0x20, 0x7e));
    }
}
struct Path { std::string u8; std::u16string u16; };
static Path path_of(kit::Rng& g, unsigned max)
{
    Path p;
    for (uint64_t n = g.chance(1, 12) ? g.below(400) : g.range(1, max); n--;) { uint32_t c = code_point(g); add8(p.u8, c), add16(p.u16, c); }
    return p;
}
// an exactly sized copy: reading past the terminator is caught
struct Text { char* p; Text(std::string const& s) { p = static_cast<char*>(malloc(s.size() + 1)); memcpy(p, s.c_str(), s.size() + 1); } ~Text() { free(p); } };

static void clear_stack() { for (auto p : w.stack) free(p); w.stack.clear(); }
static void clean()
{
    clear_stack();
    for (auto& v : w.views) { auto& f = w.files[v.second.path]; if (f.bytes.size() < f.size) munmap(v.second.base, v.second.size); else free(v.second.base); }
    for (auto& m : w.memory) munmap((void*)m.first, m.second);
    w = World{};
}
static bool can_open(File const& f) { return !f.exclusive; }

template<class T> static bool items(Case& c, ce::span<T const> s, File const* f, bool may, char const* what)
{
    c.ev();
    if (!s.data || !s.size)
    {
        if (s.size || (s.data && !may)) { c.fail("not-empty", "%s failed but shows %zu items at %p", what, s.size, (void const*)s.data); return false; }
        return s.data != nullptr;
    }
    if (!f) { c.fail("claims", "%s of nothing shows %zu items", what, s.size); return false; }
    if (s.size != f->size / sizeof(T)) { c.fail("size", "%s of %llu bytes shows %zu items of %zu", what, (unsigned long long)f->size, s.size, sizeof(T)); return false; }
    if (f->bytes.size() == f->size && memcmp(s.data, f->bytes.data(), s.size * sizeof(T))) { c.fail("bytes", "%s of %llu bytes shows others", what, (unsigned long long)f->size); return false; }
    return true;
}
struct Big { char c[24]; };

static void history(Case& c)
{
    w = World{};
    w.rng = &c.rng;
    unsigned rate = c.rng.chance(1, 3) ? 0 : unsigned(c.rng.range(1, 6));
    std::vector<Path> names;
    for (uint64_t n = c.rng.range(1, 4); n--;)
    {
        Path p = path_of(c.rng, 12);
        // relatives of one another: one more character, one less, another in the middle
        if (!names.empty() && c.rng.chance(1, 2)) { p = names[c.rng.below(names.size())]; uint32_t x = code_point(c.rng); add8(p.u8, x), add16(p.u16, x); }
        names.push_back(p);
        if (c.rng.chance(1, 5)) continue; // no such file
        File f{};
        f.size = c.rng.chance(1, 10) ? 0 : c.rng.chance(1, 60) ? (uint64_t(1) << 32) + c.rng.below(3) * 0x80000000ull + c.rng.below(100) : c.rng.wide(unsigned(c.rng.range(1, 14)));
        f.readonly = c.rng.chance(1, 3), f.exclusive = c.rng.chance(1, 10), f.read_elsewhere = c.rng.chance(1, 4);
        if (f.size < 1u << 20) { f.bytes.resize(f.size); for (auto& b : f.bytes) b = uint8_t(c.rng.next()); }
        w.files[p.u16] = f;
    }
    auto const files = w.files;
    struct Open { os::file_t f; std::u16string path; bool ok; };
    struct Mapped { ce::span<uint8_t const> s; std::u16string path; };
    std::vector<Open> open;
    std::vector<Mapped> maps;
    uint64_t h = kit::mix(c.index);
    auto held = [&] { size_t n = 0; for (auto& o : open) n += o.ok; return n; };
    auto file_of = [&](std::u16string const& p) -> File const* { auto i = files.find(p); return i == files.end() ? nullptr : &i->second; };
    const int n = int(c.rng.range(1, 24));
    for (int i = 0; i < n && !c.failed; ++i)
    {
        auto& p = names[c.rng.below(names.size())];
        Text text(p.u8);
        File const* f = file_of(p.u16);
        ce::span<uint8_t const> s{ size_t(c.rng.wide(64)), (uint8_t const*)uintptr_t(c.rng.wide(64)) };
        w.fault = rate;
        uint64_t before = w.faults;
        unsigned op = unsigned(c.rng.below(8));
        c.ev();
        h = kit::mix(h ^ op << 8 ^ (f ? 1 : 0));
        auto faulty = [&] { return w.faults != before; };
        auto check_map = [&](bool ok, bool expect, File const* what, char const* call)
        {
            if (!ok)
            {
                if (s.size || s.data) c.fail("not-empty", "%s failed but shows %zu bytes at %p", call, s.size, (void const*)s.data);
                else if (expect && !faulty()) c.fail("refused", "%s of a file of %llu bytes failed without reason", call, (unsigned long long)what->size);
                return;
            }
            if (!expect || faulty()) { c.fail("claims", "%s succeeded although %s", call, faulty() ? "a call of the system failed" : "there is nothing to map"); return; }
            if (s.size != what->size || !s.data) { c.fail("size", "%s of %llu bytes shows %zu", call, (unsigned long long)what->size, s.size); return; }
            if (what->bytes.size() == what->size && memcmp(s.data, what->bytes.data(), s.size)) { c.fail("bytes", "%s of %zu bytes shows others", call, s.size); return; }
            if (what->size > 0xffffffffu) { volatile uint8_t x = s.data[s.size - 1] + s.data[0]; (void)x; c.count("beyond_4GB"); }
            c.count("mapped");
        };
        switch (op)
        {
        case 0:
        {
            os::file_t file{ (void*)uintptr_t(c.rng.wide(64)) };
            bool ok = os::open_file(file, text.p);
            if (w.asked != p.u16) { c.fail("path", "%s was looked up under another name (%zu units, not %zu)", p.u8.c_str(), w.asked.size(), p.u16.size()); break; }
            bool want = f && can_open(*f) && !faulty();
            if (ok != want) { c.fail("open", "opening %s file gives %d", f ? can_open(*f) ? "an existing" : "a locked" : "a missing", ok); break; }
            open.push_back({ file, p.u16, ok });
            c.count(ok ? "opened" : "not_opened");
            break;
        }
        case 1:
        {
            if (open.empty()) break;
            size_t k = c.rng.below(open.size());
            bool was = open[k].ok, ok = os::close_file(open[k].f);
            if (was && !ok) { c.fail("close", "closing an open file failed"); break; }
            if (was) c.count("closed");
            if (c.rng.chance(1, 2))
            {
                // and again: harmless
                os::close_file(open[k].f);
                ce::span<uint8_t const> t{ 7, (uint8_t const*)8 };
                if (os::map_span(t, open[k].f) || t.size || t.data) { c.fail("closed", "a closed file maps to %zu bytes", t.size); break; }
                c.count("closed_again");
            }
            open.erase(open.begin() + long(k));
            break;
        }
        case 2:
        {
            if (open.empty()) break;
            auto& o = open[c.rng.below(open.size())];
            File const* q = file_of(o.path);
            bool ok = os::map_span(s, o.f);
            check_map(ok, o.ok && q && q->size, q, "mapping an open file");
            if (ok) maps.push_back({ s, o.path });
            break;
        }
        case 3: case 4:
        {
            bool ok = os::map_span(s, text.p);
            if (w.asked != p.u16) { c.fail("path", "%s was looked up under another name", p.u8.c_str()); break; }
            check_map(ok, f && can_open(*f) && f->size, f, "mapping a path");
            if (ok) maps.push_back({ s, p.u16 });
            c.count("paths");
            break;
        }
        case 5: case 6:
        {
            if (maps.empty())
            {
                ce::span<uint8_t const> none{ 0, nullptr };
                if (os::unmap_span(none) || none.size || none.data) c.fail("unmap", "nothing was unmapped");
                break;
            }
            size_t k = c.rng.below(maps.size());
            File const* q = file_of(maps[k].path);
            // the bytes stay until then, whatever was closed since
            if (q->bytes.size() == q->size && memcmp(maps[k].s.data, q->bytes.data(), q->size)) { c.fail("bytes", "a view of %llu bytes has changed", (unsigned long long)q->size); break; }
            if (maps[k].s.size != q->size) { c.fail("size", "a view has changed"); break; }
            w.fault = 0; // a failed unmapping is beyond repair
            bool ok = os::unmap_span(maps[k].s);
            if (!ok || maps[k].s.size || maps[k].s.data) { c.fail("unmap", "unmapping gives %d and leaves %zu bytes at %p", ok, maps[k].s.size, (void const*)maps[k].s.data); break; }
            if (c.rng.chance(1, 3) && os::unmap_span(maps[k].s)) { c.fail("unmap", "unmapped twice"); break; }
            maps.erase(maps.begin() + long(k));
            c.count("unmapped");
            break;
        }
        default:
        {
            // as items; the view is found by its address
            bool by_path = open.empty() || c.rng.chance(1, 2);
            Open* o = by_path ? nullptr : &open[c.rng.below(open.size())];
            File const* q = by_path ? f && can_open(*f) ? f : nullptr : o->ok ? file_of(o->path) : nullptr;
            void const* at = nullptr;
            switch (c.rng.below(4))
            {
            case 0: { auto t = by_path ? os::map_span<uint8_t>(text.p) : os::map_span<uint8_t>(o->f); items(c, t, q, false, "mapping"); at = t.data; break; }
            case 1: { auto t = by_path ? os::map_span<uint32_t>(text.p) : os::map_span<uint32_t>(o->f); items(c, t, q, true, "mapping"); at = t.data; break; }
            case 2: { auto t = by_path ? os::map_span<uint64_t const>(text.p) : os::map_span<uint64_t const>(o->f); items(c, t, q, true, "mapping"); at = t.data; break; }
            default: { auto t = by_path ? os::map_span<Big>(text.p) : os::map_span<Big>(o->f); items(c, t, q, true, "mapping"); at = t.data; break; }
            }
            if (c.failed) break;
            bool want = q && q->size && !faulty();
            if (want != (at != nullptr)) { c.fail("claims", "mapping items %s", at ? "shows some of nothing" : "failed without reason"); break; }
            if (at) { w.fault = 0; if (!UnmapViewOfFile(at)) c.fail("bytes", "items are not where the view is"); }
            c.count("items");
            break;
        }
        }
        clear_stack();
        if (!w.wrong.empty()) c.fail("misuse", "%s", w.wrong.c_str());
        if (w.changed) c.fail("changed", "a file is changed by reading it");
        if (w.handles.size() != held()) c.fail("leak", "%zu handles are open, %zu files are (call %u, %llu faults)", w.handles.size(), held(), op, (unsigned long long)(w.faults - before));
        if (w.views.size() != maps.size()) c.fail("leak", "%zu views exist, %zu are known (call %u, %llu faults)", w.views.size(), maps.size(), op, (unsigned long long)(w.faults - before));
        if (faulty()) c.count("faults"), c.cover("fault_in_call", op * 16 + std::min<uint64_t>(w.faults - before, 3));
        c.cover("call_and_file", op * 8 + (f ? 1 + (f->size == 0) + (f->exclusive ? 2 : 0) : 0));
    }
    if (!c.failed && w.files.size() != files.size()) c.fail("changed", "%zu files before, %zu after", files.size(), w.files.size());
    c.distinct(h);
    clean();
}

void kit_main(kit::K& k)
{
    k.section("files", 40000 * k.pick(1, 20), history);

    // every code point, between two others
    k.section_exact("names", 0x110, [](Case& c)
    {
        w = World{};
        for (uint32_t x = uint32_t(c.index) << 12, e = x + 4096; x < e && !c.failed; x += c.k.thorough ? 1 : 1 + (x & 15 ? 2 : 0))
        {
            if (x == 0 || (x >= 0xd800 && x < 0xe000)) continue;
            std::string s; std::u16string t;
            uint32_t a = code_point(c.rng), b = code_point(c.rng);
            if (c.rng.chance(1, 2)) add8(s, a), add16(t, a);
            add8(s, x), add16(t, x);
            if (c.rng.chance(1, 2)) add8(s, b), add16(t, b);
            Text text(s);
            os::file_t f;
            os::open_file(f, text.p);
            c.ev();
            if (w.asked != t) c.fail("path", "U+%04x between others is asked for as %zu units, not %zu", x, w.asked.size(), t.size());
            clear_stack();
        }
        c.count("code_points", 4096);
        c.distinct(kit::mix(c.index));
        clean();
    });
    k.section("empty-name", 1, [](Case& c)
    {
        w = World{};
        Text text("");
        os::file_t f{ (void*)8 };
        w.asked = u"x";
        c.ev();
        if (os::open_file(f, text.p) || !w.asked.empty()) c.fail("path", "no name is asked for as %zu units", w.asked.size());
        clean();
    });
    k.section("sleeps", 100000 * k.pick(1, 20), [](Case& c)
    {
        uint64_t ns = c.rng.chance(1, 3) ? c.rng.below(70) * 1000000u + uint64_t(c.rng.range(-2, 2)) : c.rng.chance(1, 6) ? (uint64_t(1) << 32) * 1000000u + uint64_t(c.rng.range(-3000000, 3000000)) : c.rng.wide(64);
        if (int64_t(ns) < 0 && c.rng.chance(1, 2)) ns = 0;
        w = World{};
        w.rng = &c.rng;
        os::sleep_ns(ns);
        c.ev();
        if (w.slept < ns) return c.fail("short-sleep", "asked for %llu ns, the system for %llu ms", (unsigned long long)ns, (unsigned long long)(w.slept / 1000000u));
        if (w.slept >= u128(ns) + 1000000u && ns < u128(0xfffffffe) * 1000000u) return c.fail("long-sleep", "asked for %llu ns, the system for %llu ms", (unsigned long long)ns, (unsigned long long)(w.slept / 1000000u));
        c.cover("magnitudes", uint64_t(64 - __builtin_clzll(ns | 1)));
        c.distinct(kit::mix(ns));
        if (w.slept >> 99) c.count("for_ever");
        clean();
    });
    k.section("readings", 20000 * k.pick(1, 20), [](Case& c)
    {
        w = World{};
        w.counter = c.rng.wide(63), w.frequency = c.rng.wide(40);
        c.ev();
        if (os::monotonic_timestamp() != w.counter) return c.fail("reading", "the counter is %llu, the reading %llu", (unsigned long long)w.counter, (unsigned long long)os::monotonic_timestamp());
        if (os::monotonic_frequency() != w.frequency) return c.fail("reading", "the frequency is %llu, not %llu", (unsigned long long)w.frequency, (unsigned long long)os::monotonic_frequency());
        c.distinct(kit::mix(w.counter) ^ w.frequency);
    });
    k.section("memory", 20000 * k.pick(1, 10), [](Case& c)
    {
        w = World{};
        w.rng = &c.rng, w.fault = c.rng.chance(1, 3) ? 8 : 0;
        size_t n = c.rng.chance(1, 10) ? size_t(c.rng.wide(64)) : size_t(c.rng.wide(22));
        uint8_t* p = os::virtual_alloc(n);
        c.ev();
        bool want = w.faults == 0 && n && n <= size_t(1) << 46;
        if (!p) { if (want) c.fail("memory", "%zu bytes were not to be had", n); c.count("refused"); clean(); return; }
        auto m = w.memory.find(uintptr_t(p));
        if (m == w.memory.end() || m->second < n) c.fail("memory", "%zu bytes asked for, %zu got", n, m == w.memory.end() ? size_t(0) : m->second);
        else
            for (int i = 0; i < 12; ++i)
            {
                size_t at = i == 0 ? 0 : i == 1 ? n - 1 : c.rng.below(n);
                if (p[at] != 0 && (i == 0 || (i == 1 && at))) { c.fail("memory", "fresh memory is not zero"); break; }
                p[at] = 1;
            }
        c.count("allocated");
        c.distinct(kit::mix(n));
        clean();
    });
    k.section("debug", 5000 * k.pick(1, 10), [](Case& c)
    {
        w = World{};
        std::string all;
        for (uint64_t i = c.rng.range(1, 5); i--;)
        {
            std::string s;
            for (uint64_t n = c.rng.wide(12); n--;) s += char(1 + c.rng.below(255));
            Text t(s);
            os::debug_out(t.p);
            all += s;
            c.ev();
        }
        if (w.debug != all) c.fail("debug", "%zu bytes were put out, %zu arrived", all.size(), w.debug.size());
        c.distinct(kit::hash_bytes(all.data(), all.size()));
    });
}
