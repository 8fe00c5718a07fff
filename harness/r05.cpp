// R05: case-insensitive matching adds exactly the other case of each letter.
#include "setgen.hpp"
using namespace lx;
namespace
{
    constexpr std::size_t IC = static_cast<std::size_t>(lexertl::regex_flags::icase);
    // a regex under the option, given globally or inline, possibly turned off inside
    std::u32string scoped(Rng& g, const std::u32string& t, bool on, std::size_t& flags)
    {
        flags = LENIENT;
        switch (g.below(4))
        {
        case 0: if (on) flags |= IC; return t;
        case 1: if (!on) flags |= IC; return on ? U"(?i:" + t + U")" : U"(?-i:" + t + U")";
        case 2: return on ? U"(?-i:(?i:" + t + U"))" : U"(?i:(?-i:" + t + U"))";
        default: return on ? U"(?i:" + t + U")" : U"(?i:(?-i:" + t + U"))";
        }
    }
    template<class Ch>
    void sets(Ctx& c, u64, Rng& g, u32 max)
    {
        for (int k = 0; k < 5; ++k)
        {
            SetGen s(g, max);
            s.props = max > 0xffff;
            s.icase = !g.chance(1, 5);
            if (max == 0xff && g.chance(1, 2)) s.loc = &latin();
            ref::CS want;
            if (!s.expression(want)) continue;
            std::size_t flags = 0;
            const auto re = scoped(g, s.t, s.icase, flags);
            const std::string what = h::visw(re) + (flags & IC ? " icase" : "") + (s.loc ? " latin" : "");
            c.note(what);
            std::vector<u32> cand = max == 0xff ? all_of(0xff) : around(g, {want}, max);
            if (max > 0xff)
            {
                std::vector<u32> more;
                for (u32 x : cand) { auto it = ucd::get().fold.find(x); if (it != ucd::get().fold.end() && it->second <= max) { more.push_back(it->second); more.push_back(it->second + 1); } }
                for (u32 x : more) if (x <= max) cand.push_back(x);
            }
            expect_set(c, "wrong-case-set", probe<Ch>(c, ref::to<Ch>(re), cand, flags, s.loc), cand, want, what);
            c.count("expressions_checked");
            if (want.size() > 1) c.nontrivial(h::hash_str(what));
            c.sample(what);
        }
    }
    void narrow(Ctx& c, u64 i, Rng& g) { sets<char>(c, i, g, 0xff); }
    void w16(Ctx& c, u64 i, Rng& g) { sets<char16_t>(c, i, g, 0xffff); }
    void w32(Ctx& c, u64 i, Rng& g) { if (i & 1) sets<wchar_t>(c, i, g, 0x10ffff); else sets<char32_t>(c, i, g, 0x10ffff); }

    // Every cased letter, alone and in a range with its neighbours.
    template<class Ch>
    void letters_of(Ctx& c, u64 i, Rng& g, u32 max)
    {
        static const std::vector<u32> keys = [] { std::vector<u32> v; for (auto& p : ucd::get().fold) v.push_back(p.first); return v; }();
        if (i >= keys.size()) return;
        const u32 x = keys[i];
        if (x > max) return;
        for (int kind = 0; kind < 3; ++kind)
        {
            u32 a = x, b = x;
            if (kind) { a -= static_cast<u32>(g.below(std::min<u32>(x, kind == 1 ? 3 : 60) + 1)); b += static_cast<u32>(g.below(kind == 1 ? 3 : 60)); if (b > max) b = max; }
            std::u32string t = kind ? U"[" : U"";
            auto put = [&](u32 v) { t += U"\\x"; for (char q : hex(v)) t += static_cast<char32_t>(q); };
            put(a);
            if (kind) { t += U"-"; put(b); t += U"]"; }
            const ref::CS raw(a, b);
            const ref::CS want = ucd::folded(raw);
            std::set<u32> s;
            for (u32 v = a > 4 ? a - 4 : 0; v <= b + 4 && v <= max; ++v)
            {
                s.insert(v);
                auto it = ucd::get().fold.find(v);
                if (it != ucd::get().fold.end()) for (long d = -2; d <= 2; ++d) { const long q = static_cast<long>(it->second) + d; if (q >= 0 && q <= static_cast<long>(max)) s.insert(static_cast<u32>(q)); }
            }
            const std::vector<u32> cand(s.begin(), s.end());
            c.note(h::visw(t));
            expect_set(c, "wrong-case-set", probe<Ch>(c, ref::to<Ch>(t), cand, LENIENT | IC), cand, want, h::visw(t) + " icase");
            c.count("letters_checked");
            c.nontrivial(h::mix(x, static_cast<u64>(kind) + max));
        }
    }
    void letters(Ctx& c, u64 i, Rng& g) { if (i & 1) letters_of<char16_t>(c, i / 2, g, 0xffff); else letters_of<char32_t>(c, i / 2, g, 0x10ffff); }

    // Whole regexes: two rules, one of them under the option, lexed against
    // the reference on input of mixed case.
    ref::P fold_re(const ref::P& p, const SetGen& s)
    {
        auto n = std::make_shared<ref::Re>(*p);
        if (n->k == ref::Re::SET) n->cs = s.fold(n->cs);
        for (auto& k : n->kids) k = fold_re(k, s);
        return n;
    }
    template<class Ch>
    void texts_of(Ctx& c, u64 i, Rng& g, u32 max)
    {
        SetGen s(g, max);
        s.icase = true;
        ref::GenOpt o;
        o.max = max;
        o.alphabet = ref::CS::of("abAB9");
        if (max > 0xff) { o.alphabet.add(0x3b1, 0x3b2); o.alphabet.add(0x391, 0x391); o.alphabet.add(0x1c4, 0x1c6); o.alphabet.add(0x100, 0x103); }
        std::vector<Rule> rules;
        std::vector<ref::P> res;
        const bool global = i & 1;
        Rules<Ch> lr(LENIENT | (global ? IC : 0));
        Sm<Ch> sm;
        for (u64 k = 0, n = g.in(1, 4); k < n; ++k)
        {
            Rule r;
            r.id = k + 1;
            r.uid = k;
            // sequence of parts, each with or without the option
            std::vector<ref::P> parts;
            std::u32string t;
            for (u64 q = 0, m = g.in(1, 3); q < m; ++q)
            {
                ref::P p = ref::gen(g, o, 2);
                const bool on = g.chance(1, 2);
                ref::Spell sp{g, max, max > 0xff};
                sp.icase = true;
                const std::u32string x = sp.re(p, 0);
                const std::u32string opt = on ? U"(?i:" : U"(?-i:";
                std::u32string y = on == global && g.chance(1, 2) ? U"(" + x + U")" : opt + x + U")";
                if (g.chance(1, 3)) y = (on ? U"(?-i:" : U"(?i:") + opt + x + U"))";
                t += y;
                parts.push_back(on ? fold_re(p, s) : p);
            }
            r.re = ref::cat(parts);
            if (ref::nullable(r.re)) { r.re = ref::cat({r.re, ref::chr('9')}); t += U"9"; }
            r.text = h::visw(t);
            push_rule(lr, r, t, false, false);
            rules.push_back(r);
            res.push_back(r.re);
        }
        const std::string desc = show_rules(rules) + (global ? " icase" : "");
        c.note(desc);
        build(lr, sm);
        ref::CS alpha = o.alphabet;
        alpha.add(s.fold(o.alphabet));
        for (int k = 0; k < 5; ++k)
        {
            const Text in = ref::gen_input(g, res, alpha, 40);
            Exact<Ch> x(in);
            ref::Lexer L(rules, in, Sm<Ch>::traits::npos());
            auto want = L.all();
            for (auto& t : want) { t.bol = false; t.state = 0; }
            auto got = lex_plain(sm, x.begin(), x.end(), in.size() + 3);
            for (auto& t : got) { t.bol = false; t.state = 0; }
            compare(c, "token-mismatch", got, want, desc, h::visw(in));
            c.count("lookups", want.size());
            if (want.size() > 3) c.nontrivial(h::mix(h::hash_str(desc), h::hash_bytes(in.data(), in.size() * 4)));
        }
    }
    void texts(Ctx& c, u64 i, Rng& g) { switch ((i / 2) % 3) { case 0: texts_of<char>(c, i, g, 0xff); break; case 1: texts_of<char16_t>(c, i, g, 0xffff); break; default: texts_of<char32_t>(c, i, g, 0x10ffff); } }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {}, {{"narrow", narrow}, {"w16", w16}, {"w32", w32}, {"letters", letters}, {"texts", texts}});
}
