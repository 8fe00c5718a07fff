// L04: wide lexers match by code point, and agree with narrow ones.
#include "lexgen.hpp"
using namespace lx;
namespace
{
    // Alphabets concentrated on byte and plane boundaries.
    ref::CS alphabet(Rng& g, u32 max)
    {
        static const u32 edges[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x1ff, 0x200, 0x2ff, 0xa0a, 0xd0d, 0xd7ff, 0xdfff, 0xfeff, 0xff00, 0xfffe, 0xffff,
            0x10000, 0x10001, 0x100ff, 0x10100, 0x1ffff, 0x20000, 0x2fffd, 0x30000, 0xeffff, 0xf0000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 0x10a0a, 0xa0a0a};
        ref::CS a;
        for (u64 k = 0, n = g.in(2, 7); k < n; ++k)
        {
            u32 x = g.chance(2, 3) ? edges[g.below(sizeof edges / sizeof *edges)] : static_cast<u32>(g.below(static_cast<u64>(max) + 1));
            if (x > max) x &= 0xffff;
            a.add(x, x);
            if (g.chance(1, 3) && x < max) a.add(x + 1, x + 1);
            if (g.chance(1, 3) && x > 0) a.add(x - 1, x - 1);
        }
        return a;
    }
    ref::P widen(const ref::P& p, Rng& g, u32 max)
    {
        auto n = std::make_shared<ref::Re>(*p);
        if (n->k == ref::Re::SET && g.chance(1, 3))
        {
            // a range between two arbitrary points
            u32 a = n->cs.any(g), b = g.chance(1, 2) ? static_cast<u32>(g.below(static_cast<u64>(max) + 1)) : n->cs.any(g);
            if (a > b) std::swap(a, b);
            n->cs.add(a, b);
        }
        for (auto& k : n->kids) k = widen(k, g, max);
        return n;
    }
    template<class Ch>
    void wide(Ctx& c, u64 i, Rng& g, u32 max)
    {
        Cfg f;
        f.max = max;
        f.bol = i % 4 == 0;
        f.eol = i % 4 == 1;
        f.skip = g.chance(1, 5);
        f.o.alphabet = alphabet(g, max);
        f.o.max = max;
        f.o.depth = 2;
        f.max_weight = 16;
        f.max_rules = 5;
        Set s = gen_rules(g, f);
        if (!f.eol)
        {
            s.flat.clear(); s.res.clear();
            for (auto& p : s.parts) for (auto& r : p) { r.re = widen(r.re, g, max); s.flat.push_back(r); s.res.push_back(r.re); }
        }
        // neighbours of every border make wrong bounds visible
        ref::CS near = f.o.alphabet;
        for (auto& r : s.flat)
            for (auto& q : ref::all_chars(r.re).r)
            {
                for (long d = -257; d <= 257; d += 257) for (u32 v : {q.first, q.second})
                {
                    const long x = static_cast<long>(v) + d;
                    if (x >= 0 && x <= static_cast<long>(max)) near.add(static_cast<u32>(x), static_cast<u32>(x));
                }
                if (q.first > 0) near.add(q.first - 1, q.first);
                if (q.second < max) near.add(q.second, q.second + 1);
                if (q.first + 0x10000 <= max) near.add(q.first + 0x10000, q.first + 0x10000);
            }
        f.o.alphabet = near;
        check_set<Ch, std::uint16_t>(c, g, s, f, 12, 40, true, [&](const Text& in, const std::vector<Tok>&, const Stat& x)
        {
            std::set<u32> planes;
            for (char32_t ch : in) planes.insert(static_cast<u32>(ch) >> 16);
            c.maxc("planes_in_input", planes.size());
            return x.winners >= 1 && x.unknown >= 1 && in.size() > 3;
        });
    }
    void w16(Ctx& c, u64 i, Rng& g) { wide<char16_t>(c, i, g, 0xffff); }
    void w32(Ctx& c, u64 i, Rng& g) { if (i & 1) wide<char32_t>(c, i / 2, g, 0x10ffff); else wide<wchar_t>(c, i / 2, g, 0x10ffff); }

    // Same rules and text, narrow and wide.
    template<class Ch>
    std::vector<Tok> lex_as(Rng& g, Set& s, const std::vector<std::u32string>& texts, const Text& in, bool bol)
    {
        Rules<Ch> lr(LENIENT);
        Sm<Ch> sm;
        for (int i = 1; i < s.states; ++i) lr.push_state(nm<Ch>(state_name(i)).c_str());
        for (std::size_t i = 0; i < texts.size(); ++i) push_rule(lr, s.pushed[i], texts[i], s.multi, false);
        build(lr, sm);
        Exact<Ch> x(in);
        return lex_any<Ch>(g, sm, x.begin(), x.end(), 2 * in.size() + 4, bol, 0);
    }
    void same(Ctx& c, u64 i, Rng& g)
    {
        Cfg f;
        f.bol = g.chance(1, 3); f.eol = g.chance(1, 3); f.skip = g.chance(1, 3); f.noid = g.chance(1, 4);
        f.states = g.chance(1, 3) ? 2 : 1;
        f.jumps = f.states > 1;
        f.pushes = f.states > 1 && g.chance(1, 2);
        f.nl_rules = true;
        f.o.alphabet = i & 1 ? ref::CS(0, 0x7f) : ref::CS::of("abcz09");
        f.o.max = f.max = 0x7f; // sets spelled without reference to the largest character
        Set s = gen_rules(g, f);
        std::vector<std::u32string> texts;
        for (std::size_t k = 0; k < s.pushed.size(); ++k)
        {
            ref::Spell sp{g, 0x7f, false};
            sp.icase = true; // no negated spelling: those depend on the largest character
            std::u32string t;
            for (std::size_t q = 0; q < s.parts[k].size(); ++q)
            {
                const bool anch = s.parts[k][q].bol || s.parts[k][q].eol;
                if (s.parts[k][q].bol) t += U'^';
                t += sp.re(s.parts[k][q].re, anch ? 1 : 0);
                if (s.parts[k][q].eol) t += U'$';
            }
            s.pushed[k].text = h::visw(t);
            texts.push_back(t);
        }
        const std::string desc = show_rules(s.pushed);
        c.note(desc);
        for (int k = 0; k < 3; ++k)
        {
            const Text in = ref::gen_input(g, s.res, f.o.alphabet, 60, true);
            const bool bol = g.chance(1, 2);
            const auto n = lex_as<char>(g, s, texts, in, bol);
            compare(c, "wide-differs-from-narrow", lex_as<char16_t>(g, s, texts, in, bol), n, desc, h::visw(in));
            compare(c, "wide-differs-from-narrow", lex_as<char32_t>(g, s, texts, in, bol), n, desc, h::visw(in));
            const Stat x = stat_of(n, Sm<char>::traits::npos());
            c.count("narrow_wide_comparisons", 2);
            if (x.winners >= 2) c.nontrivial(h::mix(h::hash_str(desc), h::hash_bytes(in.data(), in.size() * 4, 7)));
        }
    }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {}, {{"w16", w16}, {"w32", w32}, {"same", same}});
}
