// R04: Unicode properties against the shipped data.
#include "probe.hpp"
#include "ucd.hpp"
using namespace lx;
namespace
{
    template<class RCh>
    void one(Ctx& c, const std::string& name, Rng& g, bool neg_class, bool exhaustive)
    {
        const u32 max = 0x10ffff;
        const ref::CS is = ucd::prop(name);
        const ref::CS want = neg_class ? is.inv(max) : is;
        static const std::vector<u32> everything = all_of(max);
        const std::vector<u32> cand = exhaustive ? everything : around(g, {is}, max, 3000);
        const std::string re = neg_class ? "[^\\p{" + name + "}]" : g.chance(1, 2) ? "\\p{" + name + "}" : "[\\p{" + name + "}]";
        c.note(re);
        if (want.empty()) return;
        expect_set(c, "wrong-property", probe<char32_t, RCh>(c, std::basic_string<RCh>(re.begin(), re.end()), cand), cand, want, re);
        c.count("properties_checked");
        c.maxc("ranges_in_a_property", is.r.size());
        c.nontrivial(h::hash_str(re + (exhaustive ? "x" : "")));
        if (c.samples.size() < 3) c.sample(re + ": " + std::to_string(want.size()) + " code points in " + std::to_string(want.r.size()) + " ranges");
    }
    // every name, over every code point
    void every(Ctx& c, u64 i, Rng& g)
    {
        static const auto names = ucd::names();
        if (i >= names.size() * 2) return;
        const auto& n = names[(i / 2) % names.size()];
        // negation over all code points for the categories, over the borders for the many blocks and scripts
        one<char32_t>(c, n, g, i & 1, c.thorough || !(i & 1) || n.size() <= 2);
    }
    void unknown_names(Ctx& c)
    {
        // names that are not in the data are rejected
        static const char* bad[] = {"", "X", "Lx", "lu", "LU", "L&", "InNowhere", "IsNowhere", "In", "Is", "Lu ", " Lu", "Latin", "BasicLatin", "InBasic Latin", "Cn_", "Luu"};
        for (const char* b : bad)
        {
            std::u32string re = U"\\p{";
            for (const char* p = b; *p; ++p) re += static_cast<char32_t>(*p);
            re += U"}";
            bool threw = false;
            try { Rules<char32_t> lr; lr.push(re, 1); } catch (const lexertl::runtime_error&) { threw = true; }
            if (!threw) c.fail("unknown-property-accepted", std::string("\\p{") + b + "}");
            c.count("bad_names_rejected");
        }
        for (auto& b : ucd::near_names())
        {
            bool threw = false;
            try { Rules<char32_t> lr; lr.push(U"\\p{" + std::u32string(b.begin(), b.end()) + U"}", 1); } catch (const lexertl::runtime_error&) { threw = true; }
            if (!threw) c.fail("unknown-property-accepted", "\\p{" + b + "}");
            c.count("bad_names_rejected");
        }
    }
    void mixed(Ctx& c, u64 i, Rng& g)
    {
        // unions inside brackets, wchar_t and narrow rule text
        static const auto names = ucd::names();
        const u32 max = 0x10ffff;
        ref::CS want;
        std::string re = "[";
        const bool neg = g.chance(1, 3);
        if (neg) re += '^';
        std::vector<ref::CS> parts;
        for (u64 k = 0, n = g.in(1, 4); k < n; ++k)
        {
            if (g.chance(1, 4))
            {
                u32 a = static_cast<u32>(g.below(max)), b = g.chance(1, 2) ? a : static_cast<u32>(g.in(a, max));
                re += "\\x" + hex(a) + "-\\x" + hex(b);
                parts.push_back(ref::CS(a, b));
            }
            else
            {
                const auto& n2 = g.pick(names);
                re += "\\p{" + n2 + "}";
                parts.push_back(ucd::prop(n2));
            }
            want.add(parts.back());
        }
        re += ']';
        if (neg) want = want.inv(max);
        c.note(re);
        if (want.empty()) return;
        const auto cand = around(g, parts, max, 500);
        std::vector<bool> got;
        if (i % 3 == 0) got = probe<char32_t, char>(c, re, cand);
        else if (i % 3 == 1) got = probe<wchar_t>(c, std::wstring(re.begin(), re.end()), cand);
        else got = probe<char32_t>(c, std::u32string(re.begin(), re.end()), cand);
        expect_set(c, "wrong-union", got, cand, want, re);
        c.nontrivial(h::hash_str(re));
    }
}
int main(int argc, char** argv) { return h::run(argc, argv, {{"unknown-names", unknown_names}}, {{"every", every}, {"mixed", mixed}}); }
