// L02: tokens tile the input, lexing advances and ends. The monitor uses no
// matching model: it reconstructs the input from what the lexer reports.
#include "lexgen.hpp"
#include <deque>
using namespace lx;
namespace
{
    struct Flow { bool noid, skip; };

    template<class S, class Res, class It>
    void tile(Ctx& c, const S& sm, Res& r, const It& b, const It& e, const Text& in, const Flow& f, const std::string& desc)
    {
        const std::size_t n = in.size();
        const auto npos = S::traits::npos();
        std::size_t pos = 0, lookups = 0, gaps = 0, unknown = 0, tokens = 0;
        auto bad = [&](const char* what)
        {
            c.fail("not-tiled", std::string(what) + " after " + std::to_string(pos) + " characters; rules: " + desc + " input: " + h::visw(in));
        };
        for (;;)
        {
            if (lookups++ > n + 1) bad("more lookups than characters");
            try { lexertl::lookup(sm, r); }
            catch (const lexertl::runtime_error&) { c.count("underflows"); return; }
            const auto fb = static_cast<std::size_t>(std::distance(b, r.first));
            const auto fe = static_cast<std::size_t>(std::distance(b, r.second));
            if (fb > fe || fe > n) bad("token bounds reversed or outside the input");
            if (fb < pos) bad("token overlaps the previous one");
            if (fb > pos)
            {
                // only skipped text or a continuation cut short by an unknown character may be left out
                if (!f.skip && !(f.noid && r.id == npos)) bad("text left out between tokens");
                ++gaps;
            }
            if (r.id == 0)
            {
                if (fe != n) bad("end of input reported early");
                if (fb != fe && !f.noid) bad("end of input token is not empty");
                break;
            }
            if (fe == fb) bad("empty token");
            if (r.id == npos) { if (fe != fb + 1) bad("unknown token is not one character"); ++unknown; }
            else ++tokens;
            pos = fe;
        }
        if (!(r.first == r.second) || !(r.second == r.eoi)) if (!f.noid) bad("end of input bounds");
        // the end stays the end
        for (int i = 0; i < 3; ++i)
        {
            lexertl::lookup(sm, r);
            if (r.id != 0 || !(r.first == e) || !(r.second == e) || r.user_id != npos) bad("end of input did not repeat");
        }
        c.count("lookups", lookups);
        c.count("unknown_tokens", unknown);
        c.count("matched_tokens", tokens);
        c.count("gaps", gaps);
        if (unknown && tokens) c.nontrivial(h::mix(h::hash_str(desc), h::hash_bytes(in.data(), n * 4, 5)));
    }

    template<class Ch, class S, class It>
    void both(Ctx& c, Rng& g, const S& sm, const It& b, const It& e, const Text& in, const Flow& f, const std::string& desc, bool rec)
    {
        using Id = typename S::id_type;
        if (rec || g.chance(1, 4))
        {
            lexertl::recursive_match_results<It, Id> r(b, e);
            tile(c, sm, r, b, e, in, f, desc);
        }
        else
        {
            lexertl::match_results<It, Id> r(b, e);
            tile(c, sm, r, b, e, in, f, desc);
        }
        // results that track only what this machine uses
        if (sm.data()._features == 0)
        {
            lexertl::match_results<It, Id, +lexertl::feature_bit::advance> r(b, e);
            tile(c, sm, r, b, e, in, f, desc);
            c.count("minimal_results");
        }
    }

    template<class Ch>
    void run(Ctx& c, u64 i, Rng& g, u32 max)
    {
        Cfg f;
        f.max = max;
        f.bol = g.chance(1, 4);
        f.eol = g.chance(1, 4);
        f.nl_sets = f.eol;
        f.skip = g.chance(1, 3);
        f.noid = g.chance(1, 4);
        f.states = g.chance(1, 3) ? static_cast<int>(g.in(2, 3)) : 1;
        f.jumps = f.states > 1;
        f.pushes = f.states > 1 && g.chance(1, 3);
        f.o.alphabet = i % 4 == 0 ? ref::CS(0, max) : i % 4 == 1 ? ref::CS::of("ab") : ref::CS::of("abc\n");
        if (i % 4 == 2) f.o.alphabet.add(0, 0);
        if (i % 4 == 3) f.o.alphabet.add(max - 1, max);
        f.o.max = max;
        f.o.depth = 3;
        Set s = gen_rules(g, f);
        Rules<Ch> lr(LENIENT);
        Sm<Ch> sm;
        push_set(g, lr, s, max);
        const std::string desc = show_rules(s.pushed);
        c.note(desc);
        build(lr, sm);
        c.count("machines");
        const bool rec = (sm.data()._features & +lexertl::feature_bit::recursive) != 0;
        Flow fl{false, false};
        for (auto& r : s.flat) { fl.noid = fl.noid || r.noid; fl.skip = fl.skip || r.skip; }
        // text hidden by a pop to a continuation state extends a token as well
        if (rec) fl.noid = true;
        ref::CS all = f.o.alphabet;
        all.add(0, 0); all.add('\n', '\n'); all.add('\r', '\r'); all.add(max, max); all.add(0x7f, 0x80);
        for (unsigned k = 0; k < 12; ++k)
        {
            Text in = ref::gen_input(g, s.res, all, k == 0 ? 0 : k == 1 ? 400 : 50, true);
            if (k == 2) for (auto& ch : in) ch = static_cast<char32_t>(g.below(static_cast<u64>(max) + 1));
            Exact<Ch> x(in);
            c.maxc("input_length", in.size());
            switch (g.below(6))
            {
            case 0: { const std::basic_string<Ch> t(x.begin(), x.end()); both<Ch>(c, g, sm, t.begin(), t.end(), in, fl, desc, rec); break; }
            case 1: { const std::list<Ch> t(x.begin(), x.end()); both<Ch>(c, g, sm, t.begin(), t.end(), in, fl, desc, rec); break; }
            case 2: { std::deque<Ch> t(x.begin(), x.end()); both<Ch>(c, g, sm, t.begin(), t.end(), in, fl, desc, rec); break; }
            case 3: both<Ch>(c, g, sm, x.begin(), x.end(), in, fl, desc, rec); break;
            default:
            {
                Checked<Ch> b{x.begin(), x.begin(), x.end()}, e{x.end(), x.begin(), x.end()};
                both<Ch>(c, g, sm, b, e, in, fl, desc, rec);
                break;
            }
            }
        }
        c.counters["checked_reads"] = Checked<Ch>::reads();
    }
    void narrow_case(Ctx& c, u64 i, Rng& g) { run<char>(c, i, g, 0xff); }
    void wide_case(Ctx& c, u64 i, Rng& g) { if (i & 1) run<wchar_t>(c, i / 2, g, 0x10ffff); else run<char16_t>(c, i / 2, g, 0xffff); }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {}, {{"narrow", narrow_case}, {"wide", wide_case}});
}
