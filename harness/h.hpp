// Common driver: deterministic cases, per-case timeout, recorded failures,
// measured coverage. One process runs one shard of the cases of one workload.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>
#include <vector>

namespace h
{
    using u8 = std::uint8_t;
    using u32 = std::uint32_t;
    using u64 = std::uint64_t;

    struct Rng
    {
        u64 s;
        explicit Rng(u64 seed) : s(seed) { next(); next(); }
        u64 next()
        {
            u64 z = (s += 0x9e3779b97f4a7c15ULL);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
            return z ^ (z >> 31);
        }
        // [0, n)
        u64 below(u64 n) { return n ? next() % n : 0; }
        // [a, b]
        u64 in(u64 a, u64 b) { return a + below(b - a + 1); }
        bool chance(unsigned num, unsigned den) { return below(den) < num; }
        template<class C> auto& pick(C& c) { return c[below(c.size())]; }
        template<class C> const auto& pick(const C& c) { return c[below(c.size())]; }
    };

    inline u64 mix(u64 a, u64 b)
    {
        u64 z = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c15ULL + (a << 6) + (a >> 2));
        z = (z ^ (z >> 31)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 29);
    }

    inline u64 hash_bytes(const void* p, std::size_t n, u64 h0 = 1469598103934665603ULL)
    {
        const auto* b = static_cast<const unsigned char*>(p);
        for (std::size_t i = 0; i < n; ++i) { h0 ^= b[i]; h0 *= 1099511628211ULL; }
        return h0;
    }
    inline u64 hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

    inline std::string json_escape(const std::string& s)
    {
        std::string o;
        char b[8];
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
            else if (c == '\n') o += "\\n";
            else if (c < 32 || c >= 127) { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += static_cast<char>(c);
        }
        return o;
    }

    // Printable form of narrow text
    inline std::string vis(const std::string& s)
    {
        std::string o = "\"";
        char b[8];
        for (unsigned char c : s)
        {
            if (c == '\n') o += "\\n";
            else if (c == '\r') o += "\\r";
            else if (c == '\t') o += "\\t";
            else if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
            else if (c < 32 || c >= 127) { std::snprintf(b, sizeof b, "\\x%02x", c); o += b; }
            else o += static_cast<char>(c);
        }
        return o + "\"";
    }
    template<class S>
    std::string visw(const S& s)
    {
        std::string o = "\"";
        char b[16];
        for (auto cc : s)
        {
            const u32 c = static_cast<u32>(cc);
            if (c == '\n') o += "\\n";
            else if (c == '\r') o += "\\r";
            else if (c >= 32 && c < 127) { if (c == '"' || c == '\\') o += '\\'; o += static_cast<char>(c); }
            else { std::snprintf(b, sizeof b, "\\x{%x}", c); o += b; }
        }
        return o + "\"";
    }

    // Thrown by check() helpers to end the current case.
    struct CaseFailed {};

    struct Failure { std::string sig; std::string kase; std::string detail; };

    struct Ctx
    {
        std::string workload;
        u64 seed = 1;
        u64 cases = 100;
        unsigned shard = 0, shards = 1;
        long long only = -1;
        bool thorough = false;
        std::string out;
        std::string scratch;
        unsigned case_seconds = 60;
        u64 evaluations = 0;
        std::map<std::string, u64> counters;
        std::set<u64> distinct;
        std::vector<std::string> samples;
        std::vector<Failure> failures;
        std::string cur;          // current case label
        int progress_fd = -1;

        void count(const std::string& k, u64 n = 1) { counters[k] += n; }
        void maxc(const std::string& k, u64 n) { auto& v = counters["max_" + k]; if (n > v) v = n; }
        void nontrivial(u64 hash) { distinct.insert(hash); }
        void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s.substr(0, 600)); }
        void record(const std::string& sig, const std::string& detail)
        {
            if (failures.size() < 40) failures.push_back({sig, cur, detail});
            std::fprintf(stderr, "FAIL sig=%s case=%s %s\n", sig.c_str(), cur.c_str(), detail.substr(0, 3000).c_str());
        }
        [[noreturn]] void fail(const std::string& sig, const std::string& detail)
        {
            record(sig, detail);
            throw CaseFailed();
        }
        void progress(const std::string& what)
        {
            cur = what;
            if (progress_fd >= 0)
            {
                std::string s = what;
                s.resize(200, ' ');
                s += '\n';
                if (pwrite(progress_fd, s.data(), s.size(), 0) < 0) {}
            }
        }
        // More precise location, reported if the process dies.
        void note(const std::string& what)
        {
            if (progress_fd >= 0)
            {
                std::string s = what.substr(0, 3500);
                s += '\n';
                s.append(3600 - (s.size() < 3600 ? s.size() : 3600), ' ');
                if (pwrite(progress_fd, s.data(), s.size(), 201) < 0) {}
            }
        }
        void write() const
        {
            std::ofstream o(out);
            o << "{\"evaluations\":" << evaluations << ",\"counters\":{";
            bool first = true;
            for (auto& c : counters) { o << (first ? "" : ",") << '"' << json_escape(c.first) << "\":" << c.second; first = false; }
            o << "},\"failures\":[";
            first = true;
            for (auto& f : failures)
            {
                o << (first ? "" : ",") << "{\"sig\":\"" << json_escape(f.sig) << "\",\"case\":\"" << json_escape(f.kase) <<
                    "\",\"detail\":\"" << json_escape(f.detail.substr(0, 4000)) << "\"}";
                first = false;
            }
            o << "],\"samples\":[";
            first = true;
            for (auto& s : samples) { o << (first ? "" : ",") << '"' << json_escape(s) << '"'; first = false; }
            o << "]}\n";
            std::ofstream d(out + ".hashes", std::ios::binary);
            for (u64 v : distinct) d.write(reinterpret_cast<const char*>(&v), 8);
        }
    };

    inline void arm(unsigned seconds)
    {
        // CPU time, so that a loaded machine cannot turn a slow case into a hang.
        itimerval t{};
        t.it_value.tv_sec = seconds;
        setitimer(ITIMER_PROF, &t, nullptr);
    }

    struct Workload
    {
        std::string name;
        // number of cases is given by the runner; fn runs one
        std::function<void(Ctx&, u64 index, Rng&)> fn;
    };
    struct Fixed
    {
        std::string name;
        std::function<void(Ctx&)> fn;
    };

    // Fixed cases (regressions, exhaustive tables, known findings) run on
    // shard (position % shards); random ones on index % shards.
    inline int run(int argc, char** argv, const std::vector<Fixed>& fixed,
        const std::vector<Workload>& loads)
    {
        Ctx c;
        std::string only_fixed;
        for (int i = 1; i + 1 < argc; i += 2)
        {
            const std::string a = argv[i], v = argv[i + 1];
            if (a == "--seed") c.seed = std::strtoull(v.c_str(), nullptr, 10);
            else if (a == "--workload") c.workload = v;
            else if (a == "--cases") c.cases = std::strtoull(v.c_str(), nullptr, 10);
            else if (a == "--shard") c.shard = static_cast<unsigned>(std::atoi(v.c_str()));
            else if (a == "--shards") c.shards = static_cast<unsigned>(std::atoi(v.c_str()));
            else if (a == "--only") c.only = std::atoll(v.c_str());
            else if (a == "--fixed") only_fixed = v;
            else if (a == "--tier") c.thorough = v == "thorough";
            else if (a == "--out") c.out = v;
            else if (a == "--scratch") c.scratch = v;
            else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
        }
        if (!c.out.empty()) c.progress_fd = open((c.out + ".progress").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        auto guarded = [&](const std::function<void()>& f)
        {
            arm(c.case_seconds);
            try { f(); }
            catch (const CaseFailed&) {}
            catch (const std::exception& e)
            {
                c.record("unexpected-exception", std::string(typeid(e).name()) + ": " + e.what());
            }
            catch (...) { c.record("unexpected-exception", "not a std::exception"); }
            arm(0);
        };
        bool found = false;
        if (c.workload.empty() || c.workload == "fixed")
        {
            found = true;
            for (std::size_t i = 0; i < fixed.size(); ++i)
            {
                if (!only_fixed.empty() ? fixed[i].name != only_fixed : i % c.shards != c.shard) continue;
                c.progress("fixed:" + fixed[i].name);
                ++c.evaluations;
                guarded([&] { fixed[i].fn(c); });
            }
        }
        for (auto& w : loads)
        {
            if (c.workload != w.name) continue;
            found = true;
            for (u64 i = c.shard; i < c.cases; i += c.shards)
            {
                if (c.only >= 0) { if (i != c.shard) break; i = static_cast<u64>(c.only); }
                c.progress(w.name + ":" + std::to_string(i));
                ++c.evaluations;
                Rng r(mix(mix(c.seed, hash_str(w.name)), i));
                guarded([&] { w.fn(c, i, r); });
                if (c.failures.size() >= 40 || c.only >= 0) break;
            }
        }
        if (!found) { std::fprintf(stderr, "no workload %s\n", c.workload.c_str()); return 2; }
        if (!c.out.empty()) c.write();
        return c.failures.empty() ? 0 : 1;
    }
}
