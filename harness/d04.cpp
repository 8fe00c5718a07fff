// D04: memory files over histories of opening and closing with injected
// failures, watching contents, mappings and descriptors.
#include "h.hpp"
#include <lexertl/memory_file.hpp>
#include <algorithm>
#include <cerrno>
#include <memory>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/mman.h>
using namespace h;

// Failures to inject into the next calls: counted down by the stand-ins below,
// which the linker puts between the library and the system.
static int fail_open, fail_stat, fail_map;
extern "C"
{
    int __real_open(const char*, int, ...);
    int __real_fstat(int, struct stat*);
    void* __real_mmap(void*, size_t, int, int, int, off_t);
    int __wrap_open(const char* p, int f, mode_t m)
    {
        if (fail_open) { --fail_open; errno = EMFILE; return -1; }
        return __real_open(p, f, m);
    }
    int __wrap_fstat(int fd, struct stat* s)
    {
        if (fail_stat) { --fail_stat; errno = EIO; return -1; }
        return __real_fstat(fd, s);
    }
    void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o)
    {
        if (fail_map && fd >= 0) { --fail_map; errno = ENOMEM; return MAP_FAILED; }
        return __real_mmap(a, n, p, f, fd, o);
    }
}
namespace
{
    struct Map { u64 b, e; std::string perms, path; };
    // the mappings of files below dir
    std::vector<Map> maps(const std::string& dir)
    {
        std::ifstream f("/proc/self/maps");
        std::string l;
        std::vector<Map> v;
        while (std::getline(f, l))
        {
            const auto at = l.find(dir);
            if (at == std::string::npos) continue;
            Map m;
            char perms[8];
            if (std::sscanf(l.c_str(), "%lx-%lx %7s", &m.b, &m.e, perms) != 3) continue;
            m.perms = perms;
            m.path = l.substr(at);
            v.push_back(m);
        }
        return v;
    }
    // number -> inode of every descriptor
    std::map<int, std::pair<u64, u64>> fds()
    {
        std::map<int, std::pair<u64, u64>> m;
        for (int i = 0; i < 64; ++i)
        {
            struct stat s;
            if (!__real_fstat(i, &s)) m[i] = {s.st_dev, s.st_ino};
        }
        return m;
    }
    struct File { std::string path; bool readable; std::string bytes; };
    std::vector<File> files;
    std::string dir;
    void make(Ctx& c)
    {
        if (!files.empty()) return;
        dir = c.scratch + "/mf";
        if (mkdir(dir.c_str(), 0755) && errno != EEXIST) { std::perror("mkdir"); std::exit(2); }
        Rng g(c.seed);
        for (std::size_t n : {0, 1, 2, 3, 4, 5, 7, 8, 100, 4093, 4095, 4096, 4097, 4099, 4100, 8191, 8192, 8193, 16384, 16385, 40001, 65536, 100003})
        {
            File f{dir + "/f" + std::to_string(n), true, ""};
            for (std::size_t i = 0; i < n; ++i) f.bytes += static_cast<char>(g.next());
            std::ofstream o(f.path, std::ios::binary);
            o << f.bytes;
            files.push_back(f);
        }
        files.push_back({dir + "/missing", false, ""});
        files.push_back({dir + "/missing/below", false, ""});
        files.push_back({dir, false, ""});
        files.push_back({dir + "/" + std::string(300, 'n'), false, ""});
        files.push_back({"", false, ""});
        const std::string loop = dir + "/loop";
        if (symlink("loop", loop.c_str())) {}
        files.push_back({loop, false, ""});
        files.push_back({"/dev/null", true, ""});
    }
    template<class Ch> void history(Ctx& c, Rng& g)
    {
        using M = lexertl::basic_memory_file<Ch>;
        make(c);
        // now and then descriptor 0 is free
        const bool low = g.chance(1, 2);
        int saved = -1;
        if (low) { saved = dup(0); close(0); }
        const auto start_fds = fds();
        std::vector<int> canaries;
        const unsigned slots = 1 + static_cast<unsigned>(g.below(3));
        std::vector<std::unique_ptr<M>> mf(slots);
        std::vector<const File*> shows(slots, nullptr); // file shown, or none
        std::string log;
        u64 hash = sizeof(Ch) * 2 + low;
        auto fail = [&](const std::string& sig, const std::string& d)
        {
            fail_open = fail_stat = fail_map = 0;
            const std::string l = log;
            for (int f : canaries) close(f);
            if (low) { dup2(saved, 0); close(saved); }
            c.fail(sig, d + " after" + l + (low ? " (descriptor 0 free)" : "") + " char size " + std::to_string(sizeof(Ch)));
        };
        auto look = [&](unsigned i, const std::string& at)
        {
            const M* p = mf[i].get();
            if (!p) return;
            if (!shows[i] || shows[i]->bytes.empty())
            {
                if (p->size() || (p->data() && !shows[i])) fail("view-not-empty", at + " size " + std::to_string(p->size()));
                return;
            }
            const std::string& b = shows[i]->bytes;
            if (p->size() != b.size() / sizeof(Ch)) fail("wrong-size", at + " " + std::to_string(p->size()) + " for " + std::to_string(b.size()) + " bytes");
            if (p->size() && !p->data()) fail("no-data", at);
            if (p->size() && std::memcmp(p->data(), b.data(), p->size() * sizeof(Ch))) fail("wrong-bytes", at);
            c.count("views_compared");
        };
        const unsigned ops = 2 + static_cast<unsigned>(g.below(14));
        for (unsigned op = 0; op < ops; ++op)
        {
            const unsigned i = static_cast<unsigned>(g.below(slots)), what = static_cast<unsigned>(g.below(10));
            std::string at = " ";
            if (what < 7)
            {
                const File& f = g.chance(1, 3) ? files[g.below(6)] : g.chance(1, 3) ? files[files.size() - 1 - g.below(7)] : g.pick(files);
                fail_open = fail_stat = fail_map = 0;
                const unsigned inj = static_cast<unsigned>(g.below(12));
                if (inj == 0) fail_open = 1; else if (inj == 1) fail_stat = 1; else if (inj == 2) fail_map = 1;
                at += "open" + std::to_string(i) + "(" + (f.path.size() > 60 ? f.path.substr(0, 60) : f.path) + (inj == 0 ? ",open fails" : inj == 1 ? ",stat fails" : inj == 2 ? ",map fails" : "") + ")";
                log += at;
                c.note(log);
                const bool construct = !mf[i] || what == 0;
                if (construct && mf[i]) { mf[i].reset(); }
                if (construct && what < 3) mf[i].reset(new M(f.path.c_str()));
                else { if (!mf[i]) mf[i].reset(new M()); mf[i]->open(f.path.c_str()); }
                const bool injected = (inj == 0 && !fail_open) || (inj == 1 && !fail_stat) || (inj == 2 && !fail_map);
                fail_open = fail_stat = fail_map = 0;
                if (injected) c.count("failures_injected");
                shows[i] = f.readable && !injected ? &f : nullptr;
                if (shows[i]) c.count("opened"); else c.count("refused");
                hash = mix(hash, hash_str(f.path.substr(dir.size() < f.path.size() ? dir.size() : 0)) + inj * 8 + i);
            }
            else if (what < 9) { at += "close" + std::to_string(i); log += at; c.note(log); if (mf[i]) { mf[i]->close(); shows[i] = nullptr; c.count("closed"); } hash = mix(hash, 100 + i); }
            else { at += "destroy" + std::to_string(i); log += at; c.note(log); mf[i].reset(); shows[i] = nullptr; hash = mix(hash, 200 + i); }
            for (unsigned k = 0; k < slots; ++k) look(k, at);
            // descriptors taken over by others must stay theirs
            if (g.chance(1, 3) && canaries.size() < 6) { const int f = __real_open((dir + "/f100").c_str(), O_RDONLY); if (f >= 0) canaries.push_back(f); }
            const auto now = fds();
            for (auto& s : start_fds) if (!now.count(s.first) || now.at(s.first) != s.second) fail("foreign-descriptor-closed", at + " " + std::to_string(s.first));
            for (int f : canaries) if (!now.count(f)) fail("foreign-descriptor-closed", at + " " + std::to_string(f));
            // no more than one descriptor and one mapping for each open view
            std::size_t views = 0;
            for (unsigned k = 0; k < slots; ++k) if (mf[k]) ++views;
            if (now.size() > start_fds.size() + canaries.size() + views) fail("descriptor-left", at + " " + std::to_string(now.size()) + " open");
            const auto ms = maps(dir);
            std::vector<std::string> want, got;
            for (unsigned k = 0; k < slots; ++k)
                if (shows[k] && !shows[k]->bytes.empty()) want.push_back(shows[k]->path + " " + std::to_string((shows[k]->bytes.size() + 4095) / 4096));
            u64 pages = 0, want_pages = 0;
            for (auto& m : ms) { pages += (m.e - m.b) / 4096; if (m.perms.substr(0, 3) != "r--") fail("not-read-only", at + " " + m.perms); }
            for (unsigned k = 0; k < slots; ++k) if (shows[k]) want_pages += (shows[k]->bytes.size() + 4095) / 4096;
            if (pages > want_pages) fail("mapping-left", at + " " + std::to_string(pages) + " pages mapped, views need " + std::to_string(want_pages));
            c.count("states_inspected");
        }
        for (unsigned i = 0; i < slots; ++i)
        {
            if (mf[i] && g.chance(1, 2))
            {
                mf[i]->close();
                if (g.chance(1, 4)) mf[i]->close();
                shows[i] = nullptr;
                log += " close" + std::to_string(i);
                look(i, " close");
            }
            log += " destroy" + std::to_string(i);
            mf[i].reset();
        }
        if (!maps(dir).empty()) fail("mapping-left", "at the end");
        const auto now = fds();
        if (now.size() != start_fds.size() + canaries.size()) fail(now.size() > start_fds.size() + canaries.size() ? "descriptor-left" : "foreign-descriptor-closed", "at the end " + std::to_string(now.size()) + " open");
        for (int f : canaries) close(f);
        if (low) { dup2(saved, 0); close(saved); }
        c.nontrivial(hash);
    }
    // every file once, each next to every other
    template<class Ch> void every(Ctx& c)
    {
        make(c);
        const auto before = fds().size();
        for (auto& a : files) for (auto& b : files)
        {
            c.note(a.path + " then " + b.path);
            {
                lexertl::basic_memory_file<Ch> m(a.path.c_str());
                if (m.size() != a.bytes.size() / sizeof(Ch)) c.fail("wrong-size", a.path);
                m.open(b.path.c_str());
                if (m.size() != b.bytes.size() / sizeof(Ch)) c.fail("wrong-size", b.path + " after " + a.path);
                if (m.size() && std::memcmp(m.data(), b.bytes.data(), m.size() * sizeof(Ch))) c.fail("wrong-bytes", b.path + " after " + a.path);
                c.count("views_compared");
            }
            if (!maps(dir).empty()) c.fail("mapping-left", a.path + " then " + b.path);
            if (fds().size() != before) c.fail("descriptor-left", a.path + " then " + b.path);
            c.count("pairs");
        }
    }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {{"every-char", every<char>}, {"every-wide", every<wchar_t>}, {"every-16", every<char16_t>}, {"every-32", every<char32_t>}},
        {{"histories", [](Ctx& c, u64 i, Rng& g)
            {
                switch (i % 4) { case 0: history<char>(c, g); break; case 1: history<wchar_t>(c, g); break; case 2: history<char16_t>(c, g); break; default: history<char32_t>(c, g); }
            }}});
}
