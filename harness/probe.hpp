// Which single characters does a regex match? Observed through lookups.
#pragma once
#include "lx.hpp"
namespace lx
{
    // The characters of cand (in order) that the regex matches as one-character texts.
    template<class Ch, class RCh = Ch>
    std::vector<bool> probe(Ctx& c, const std::basic_string<RCh>& re, const std::vector<u32>& cand, std::size_t flags = LENIENT,
        const std::locale* loc = nullptr)
    {
        using R = lexertl::basic_rules<RCh, Ch, std::uint16_t>;
        using S = lexertl::basic_state_machine<Ch, std::uint16_t>;
        R lr(flags);
        if (loc) lr.imbue(*loc);
        S sm;
        lr.push(re, 1);
        lexertl::basic_generator<R, S>::build(lr, sm);
        std::vector<Ch> in(cand.size());
        for (std::size_t i = 0; i < cand.size(); ++i) in[i] = static_cast<Ch>(cand[i]);
        std::vector<bool> out(cand.size());
        lexertl::match_results<const Ch*, std::uint16_t> r(in.data(), in.data() + in.size());
        for (std::size_t i = 0; i < cand.size(); ++i)
        {
            lexertl::lookup(sm, r);
            if (r.first != in.data() + i || r.second != r.first + 1 || (r.id != 1 && r.id != r.npos()))
                c.fail("not-one-character", "at character " + std::to_string(cand[i]) + ": id " + std::to_string(r.id) + " length " +
                    std::to_string(r.second - r.first));
            out[i] = r.id == 1;
        }
        c.count("characters_probed", cand.size());
        return out;
    }
    inline std::string hex(u32 v) { char b[16]; std::snprintf(b, sizeof b, "%x", v); return b; }
    // Compares with the expected set.
    inline void expect_set(Ctx& c, const std::string& sig, const std::vector<bool>& got, const std::vector<u32>& cand, const ref::CS& want,
        const std::string& what)
    {
        std::string d;
        int n = 0;
        for (std::size_t i = 0; i < cand.size(); ++i)
            if (got[i] != want.has(cand[i]) && n++ < 8) d += hex(cand[i]) + (got[i] ? " matched; " : " not matched; ");
        if (n) c.fail(sig, what + ": " + std::to_string(n) + " wrong: " + d);
    }
    inline std::vector<u32> all_of(u32 max)
    {
        std::vector<u32> v(static_cast<std::size_t>(max) + 1);
        for (u32 i = 0; i <= max; ++i) v[i] = i;
        return v;
    }
    // Every border of the sets and its neighbourhood, the same shifted by
    // bytes and planes, and random points.
    inline std::vector<u32> around(Rng& g, const std::vector<ref::CS>& sets, u32 max, unsigned random = 200)
    {
        std::set<u32> s;
        auto put = [&](long x) { if (x >= 0 && x <= static_cast<long>(max)) s.insert(static_cast<u32>(x)); };
        for (auto& c : sets)
            for (std::size_t i = 0; i < c.r.size(); ++i)
            {
                if (c.r.size() > 200 && !g.chance(200, static_cast<unsigned>(c.r.size()))) continue;
                for (u32 v : {c.r[i].first, c.r[i].second})
                    for (long d : {-0x10000L, -0x100L, -1L, 0L, 1L, 0x100L, 0x10000L}) put(static_cast<long>(v) + d);
                put(c.r[i].first + static_cast<long>(g.below(c.r[i].second - c.r[i].first + 1)));
            }
        for (long e : {0L, 9L, 10L, 13L, 32L, 0x7eL, 0x7fL, 0x80L, 0xffL, 0x100L, 0xd7ffL, 0xd800L, 0xdfffL, 0xe000L, 0xffffL, 0x10000L, 0x10ffffL}) put(e);
        for (unsigned i = 0; i < random; ++i) put(static_cast<long>(g.below(static_cast<u64>(max) + 1)));
        return std::vector<u32>(s.begin(), s.end());
    }
}
