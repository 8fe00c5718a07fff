// L03: line anchors.
#include "lexgen.hpp"
using namespace lx;
namespace
{
    template<class Ch>
    void anchors(Ctx& c, u64 i, Rng& g, u32 max, bool nl_sets = false, bool either = false)
    {
        Cfg f;
        f.max = max;
        f.bol = i % 3 != 0;
        f.eol = i % 3 != 1;
        f.nl_rules = true;
        f.nl_sets = nl_sets;
        f.branches = g.chance(1, 3);
        if (either) { f.nl_or_end = true; f.eol = false; f.bol = g.chance(1, 2); }
        f.skip = g.chance(1, 4);
        f.noid = g.chance(1, 5);
        f.states = g.chance(1, 4) ? 2 : 1;
        f.jumps = f.states > 1;
        f.o.alphabet = g.chance(2, 3) ? ref::CS::of("ab") : ref::CS::of("abc_$^");
        if (max > 0xff && g.chance(1, 2)) f.o.alphabet.add(0x0a0a, 0x0a0d);
        if (nl_sets) { f.o.alphabet.add('\n', '\n'); f.o.alphabet.add('\r', '\r'); }
        f.o.max = max;
        f.o.depth = 2;
        Set s = gen_rules(g, f);
        f.o.alphabet.add('\n', '\n'); // inputs
        check_set<Ch, std::uint16_t>(c, g, s, f, 14, 30, true, [&](const Text& in, const std::vector<Tok>& want, const Stat& x)
        {
            // anchored rules that took part: they would match somewhere here
            u64 at_bol = 0, at_eol = 0, blocked = 0;
            for (std::size_t p = 0; p < in.size(); ++p)
                for (auto& r : s.flat)
                {
                    if (!r.bol && !r.eol) continue;
                    Rule free = r;
                    free.bol = free.eol = false;
                    std::size_t e1 = 0, e2 = 0;
                    if (!ref::rule_end(free, in, p, true, e1)) continue;
                    const bool bol = p == 0 || in[p - 1] == '\n';
                    if (ref::rule_end(r, in, p, bol, e2)) { if (r.bol) ++at_bol; if (r.eol) ++at_eol; }
                    else ++blocked;
                }
            c.count("bol_rule_matches", at_bol);
            c.count("eol_rule_matches", at_eol);
            c.count("anchor_blocked_matches", blocked);
            if (either) for (std::size_t k = 0; k < want.size(); ++k)
                if (want[k].id == s.pushed[0].id && !s.pushed[0].noid && want[k].e > want[k].b) c.count(in[want[k].e - 1] == '\n' ? "line_end_taken" : want[k].e == in.size() ? "end_of_input_instead" : "line_end_not_taken");
            return x.winners >= 2 && at_bol + at_eol > 0 && blocked > 0;
        });
    }
    void narrow_case(Ctx& c, u64 i, Rng& g) { anchors<char>(c, i, g, 0xff); }
    void wide_case(Ctx& c, u64 i, Rng& g) { if (i & 1) anchors<char16_t>(c, i / 2, g, 0xffff); else anchors<char32_t>(c, i / 2, g, 0x10ffff); }
    // Sets that contain line ends: text may run on over a line end where a $
    // rule also matches; the longest still wins.
    void across_case(Ctx& c, u64 i, Rng& g)
    {
        if (i % 3 == 0) anchors<char>(c, i / 3, g, 0xff, true);
        else if (i % 3 == 1) anchors<char16_t>(c, i / 3, g, 0xffff, true);
        else anchors<char32_t>(c, i / 3, g, 0x10ffff, true);
    }
    // A rule that takes the line end or, failing that, needs one to follow.
    void either_case(Ctx& c, u64 i, Rng& g)
    {
        if (i % 3 == 0) anchors<char>(c, i / 3, g, 0xff, false, true);
        else if (i % 3 == 1) anchors<char16_t>(c, i / 3, g, 0xffff, false, true);
        else anchors<char32_t>(c, i / 3, g, 0x10ffff, false, true);
    }
}
namespace
{
    template<class Ch>
    void one_rule(Ctx& c, const char32_t* regex, const Text& in, std::size_t end)
    {
        Rules<Ch> lr;
        Sm<Ch> sm;
        lr.push(ref::to<Ch>(regex), 1);
        build(lr, sm);
        Exact<Ch> x(in);
        auto v = lex_plain(sm, x.begin(), x.end(), 4);
        if (v.empty() || v[0].id != 1 || v[0].b != 0 || v[0].e != end) c.fail("token-mismatch", h::visw(std::u32string(regex)) + " on " + h::visw(in));
        c.count("eol_rule_matches");
    }
    // $ needs the zero bytes of a wide line end although no rule has them
    void wide_eol_only(Ctx& c)
    {
        one_rule<char16_t>(c, U"[\x100-\x1ff]$", U"\x123\n", 1);
        one_rule<char32_t>(c, U"[\x10101-\x1ffff]+$", U"\x12345\x12345\r", 2);
        one_rule<char32_t>(c, U"[\x10101-\x1ffff]+$", U"\x12345", 1);
    }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {{"wide_eol_only", wide_eol_only}}, {{"narrow", narrow_case}, {"wide", wide_case}, {"across", across_case}, {"either", either_case}});
}
