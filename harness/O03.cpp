// O03: services this platform does not offer fail closed; debug output is exactly the text given, on standard error.
#include "kit.h"
#include "ce/ce.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
using kit::Case;
namespace os = ce::os;

static int open_fds()
{
    int n = 0;
    if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); }
    return n;
}
static long maps_of(char const* name)
{
    long n = 0;
    if (FILE* f = fopen("/proc/self/maps", "r")) { char l[4096]; while (fgets(l, sizeof l, f)) if (strstr(l, name)) ++n; fclose(f); }
    return n;
}

// standard error replaced by a fresh file while `f` runs
template<class F> static std::string captured(F&& f)
{
    fflush(stderr);
    int keep = dup(2), to = memfd_create("err", 0);
    dup2(to, 2);
    f();
    fflush(stderr);
    dup2(keep, 2);
    close(keep);
    off_t n = lseek(to, 0, SEEK_END);
    std::string s(size_t(n < 0 ? 0 : n), 0);
    size_t at = 0;
    while (at < s.size()) { ssize_t r = pread(to, &s[at], s.size() - at, off_t(at)); if (r <= 0) break; at += size_t(r); }
    close(to);
    return s;
}
template<class F> static std::string captured_stdout(F&& f)
{
    fflush(stdout);
    int keep = dup(1), to = memfd_create("out", 0);
    dup2(to, 1);
    f();
    fflush(stdout);
    dup2(keep, 1);
    close(keep);
    off_t n = lseek(to, 0, SEEK_END);
    std::string s(size_t(n < 0 ? 0 : n), 0);
    if (!s.empty()) (void)!pread(to, &s[0], s.size(), 0);
    close(to);
    return s;
}

template<class T> static bool mapped(Case& c, char const* path, os::file_t f, bool by_path)
{
    ce::span<T const> s = by_path ? os::map_span<T>(path) : os::map_span<T>(f);
    c.ev();
    if (s.size != 0) { c.fail("not-empty", "a failed mapping of %zu byte items shows %zu of them", sizeof(T), s.size); return false; }
    if (s.data != nullptr) { c.fail("not-empty", "a failed mapping of %zu byte items is at %p", sizeof(T), (void const*)s.data); return false; }
    return true;
}
struct Big { char c[24]; };

void kit_main(kit::K& k)
{
    char dir[] = "/tmp/ce_o03_XXXXXX";
    if (!mkdtemp(dir)) { fprintf(stderr, "no scratch directory\n"); _exit(3); }
    std::string base = dir, file = base + "/some file", none = base + "/none", empty = base + "/empty";
    { FILE* f = fopen(file.c_str(), "w"); for (int i = 0; i < 10000; ++i) fputc(i & 255, f); fclose(f); fclose(fopen(empty.c_str(), "w")); }

    k.section("services", 20000 * k.pick(1, 20), [&](Case& c)
    {
        std::string other = base + "/" + std::string(size_t(c.rng.below(300)), char('a' + c.rng.below(26)));
        std::string weird; for (uint64_t n = c.rng.below(40); n--;) weird += char(1 + c.rng.below(255));
        if (!weird.empty() && weird[0] == '/') weird[0] = '.';
        weird = base + "/" + weird; // nothing outside the scratch directory
        char const* paths[] = { file.c_str(), none.c_str(), empty.c_str(), base.c_str(), "", other.c_str(), weird.c_str(), "/dev/null", nullptr };
        int fds = open_fds();
        int fd = -1;
        uint64_t h = 0;
        // a handle of any content: nothing, garbage, or a descriptor's number
        if (c.rng.chance(1, 4)) fd = open(file.c_str(), O_RDONLY);
        os::file_t f{ c.rng.chance(1, 3) ? nullptr : fd >= 0 ? (void*)intptr_t(fd) : (void*)uintptr_t(c.rng.wide(64)) };
        int n = int(c.rng.range(1, 12));
        for (int i = 0; i < n && !c.failed; ++i)
        {
            unsigned p = unsigned(c.rng.below(sizeof paths / sizeof *paths));
            char const* path = paths[p];
            ce::span<uint8_t const> s{ size_t(c.rng.wide(64)), (uint8_t const*)uintptr_t(c.rng.wide(64)) };
            unsigned op = unsigned(c.rng.below(9));
            h = kit::mix(h ^ (op * 64 + p));
            c.ev();
            c.cover("call_and_path", op * 64 + p);
            switch (op)
            {
            case 0: if (os::open_file(f, path)) c.fail("claims", "opened %s", path ? path : "(null)"); break;
            case 1: if (os::close_file(f)) c.fail("claims", "closed a file never opened"); break;
            case 2: if (os::map_span(s, f)) c.fail("claims", "mapped a file never opened"); goto is_empty;
            case 3: if (os::map_span(s, path)) c.fail("claims", "mapped %s", path ? path : "(null)"); goto is_empty;
            case 4: if (os::unmap_span(s)) c.fail("claims", "unmapped what was not mapped");
            is_empty:
                if (s.size || s.data) c.fail("not-empty", "call %u failed but left %zu bytes at %p", op, s.size, (void const*)s.data);
                break;
            case 5: { uint8_t* m = os::virtual_alloc(size_t(c.rng.wide(64))); if (m) c.fail("claims", "allocated at %p", (void*)m); break; }
            case 6: mapped<uint8_t>(c, path, f, c.rng.chance(1, 2)); break;
            case 7: mapped<uint32_t>(c, path, f, c.rng.chance(1, 2)); break;
            case 8: mapped<Big>(c, path, f, c.rng.chance(1, 2)); break;
            }
        }
        if (fd >= 0)
        {
            if (fcntl(fd, F_GETFD) < 0) c.fail("side-effect", "a descriptor of somebody else's was closed");
            else close(fd);
        }
        if (c.index % 64 == 0 || c.failed)
        {
            if (open_fds() != fds) c.fail("side-effect", "%d open descriptors before, %d after", fds, open_fds());
            if (maps_of(dir)) c.fail("side-effect", "a file stays mapped");
            struct stat st;
            if (stat(file.c_str(), &st) || st.st_size != 10000 || stat(none.c_str(), &st) == 0 || stat(empty.c_str(), &st) || st.st_size != 0) c.fail("side-effect", "files were changed");
        }
        c.distinct(h);
    });
    k.section("output", 20000 * k.pick(1, 10), [&](Case& c)
    {
        int n = int(c.rng.range(1, 6));
        std::string want, out;
        std::vector<std::string> parts;
        std::vector<int> null;
        for (int i = 0; i < n; ++i)
        {
            size_t len = size_t(c.rng.wide(c.rng.chance(1, 40) ? 18 : 9));
            std::string s;
            static const char some[] = "\n\r\t %sdn\\\"\x1b\x7f\x80\xff\xc3\xa9\x01";
            int style = int(c.rng.below(3));
            for (size_t j = 0; j < len; ++j) s += style == 0 ? char('a' + j % 26) : style == 1 ? char(1 + c.rng.below(255)) : some[c.rng.below(sizeof some - 1)];
            bool nothing = c.rng.chance(1, 8);
            null.push_back(nothing);
            parts.push_back(s);
            if (!nothing) want += s;
        }
        std::string so;
        std::string se = captured([&] { so = captured_stdout([&]
        {
            for (int i = 0; i < n; ++i)
            {
                // exactly sized copies, so that reading on is seen
                char* t = null[size_t(i)] ? nullptr : strdup(parts[size_t(i)].c_str());
                os::debug_out(t);
                free(t);
            }
        }); });
        c.ev(uint64_t(n));
        if (se != want)
        {
            size_t at = 0; while (at < se.size() && at < want.size() && se[at] == want[at]) ++at;
            return c.fail("text", "%d texts of %zu bytes came out as %zu bytes, different from byte %zu on", n, want.size(), se.size(), at);
        }
        if (!so.empty()) return c.fail("elsewhere", "%zu bytes on standard output", so.size());
        c.cover("length_bits", want.empty() ? 0 : uint64_t(64 - __builtin_clzll(want.size())));
        for (int i = 0; i < n; ++i) c.count(null[size_t(i)] ? "nothing" : "texts");
        c.distinct(kit::hash_bytes(want.data(), want.size()));
    });
    unlink(file.c_str()); unlink(empty.c_str());
    if (rmdir(dir)) k.section_exact("left", 1, [&](Case& c) { c.fail("side-effect", "files were left in %s", dir); });
}
