// R07: reversed rules match the mirror image.
#include "lexgen.hpp"
using namespace lx;
namespace
{
    Set mirrored(const Set& s)
    {
        Set m = s;
        for (auto* v : {&m.pushed, &m.flat}) for (auto& r : *v) { if (r.re) r.re = ref::mirror(r.re); std::swap(r.bol, r.eol); }
        m.res.clear();
        for (auto& r : m.flat) m.res.push_back(r.re);
        return m;
    }
    template<class Ch>
    void body(Ctx& c, u64 i, Rng& g, u32 max)
    {
        Cfg f;
        f.max = max;
        f.o.max = max;
        f.o.alphabet = i % 2 ? ref::CS::of("ab") : ref::CS::of("abc1");
        if (max > 0xff) { f.o.alphabet.add(0x100, 0x100); f.o.alphabet.add(max, max); }
        f.o.depth = 4;
        f.states = g.chance(1, 3) ? static_cast<int>(g.in(2, 3)) : 1;
        f.jumps = f.states > 1;
        f.skip = g.chance(1, 3);
        f.max_rules = 4;
        f.max_weight = 40;
        const unsigned kind = static_cast<unsigned>(g.below(4));
        f.bol = kind == 1 || kind == 3;
        f.eol = kind == 2 || kind == 3;
        // both kinds of anchor appear after the reversal
        Set s = gen_rules(g, f);
        if (f.bol && !f.eol)
            for (auto* v : {&s.pushed, &s.flat}) for (auto& r : *v) r.re = strip_nl(r.re, false);
        s.res.clear();
        for (std::size_t k = 0; k < s.parts.size(); ++k) for (auto& r : s.parts[k]) { if (f.bol && !f.eol) r.re = strip_nl(r.re, false); s.res.push_back(r.re); }
        Rules<Ch> lr(LENIENT), orig(LENIENT);
        const Rng at = g;
        push_set(g, lr, s, f.max);
        Rng same = at;
        Set s2 = s;
        push_set(same, orig, s2, f.max);
        const std::string desc = show_rules(s.pushed);
        c.note(desc);
        const Set m = mirrored(s);
        lr.reverse();
        Sm<Ch> rev, twice, once;
        build(lr, rev);
        lr.reverse();
        build(lr, twice);
        build(orig, once);
        c.count("machines");
        bool bols = false, eols = false;
        for (auto& r : s.flat) { bols |= r.bol; eols |= r.eol; }
        for (int k = 0; k < 6; ++k)
        {
            for (int d = 0; d < 2; ++d)
            {
                const Set& want_set = d ? s : m;
                const Sm<Ch>& sm = d ? twice : rev;
                Text in = ref::gen_input(g, want_set.res, f.o.alphabet, 40, true);
                const bool bol = !g.chance(1, 4);
                const int st = g.chance(1, 4) ? static_cast<int>(g.below(static_cast<u64>(f.states))) : 0;
                ref::Lexer L(want_set.flat, in, Sm<Ch>::traits::npos(), bol, st);
                auto want = L.all(2 * in.size() + 4);
                const Rng r0 = g;
                auto got = lex_kind<Ch>(g, sm, in, bol, static_cast<u64>(st));
                Rng r1 = r0;
                // the value of bol is only kept up when some rule has ^
                auto fix = [&](std::vector<Tok>& v, const Sm<Ch>& x) { if (!(x.data()._features & +lexertl::feature_bit::bol)) for (auto& t : v) t.bol = false; };
                if (d)
                {
                    auto o = lex_kind<Ch>(r1, once, in, bol, static_cast<u64>(st));
                    auto g2 = got;
                    compare(c, "reversed-twice-differs", g2, o, desc, h::visw(in));
                    c.count("double_reversals");
                }
                fix(want, sm); fix(got, sm);
                compare(c, d ? "twice-token-mismatch" : "mirror-token-mismatch", got, want, desc, h::visw(in) + (bol ? " bol" : " mid-line") + " from state " + std::to_string(st));
                const Stat x = stat_of(want, Sm<Ch>::traits::npos());
                c.count("matched_tokens", x.tokens);
                c.count("unknown_tokens", x.unknown);
                if (d == 0 && bols && x.tokens) c.count("was_bol_inputs");
                if (d == 0 && eols && x.tokens) c.count("was_eol_inputs");
                if (d == 0 && x.tokens && x.winners) c.nontrivial(h::mix(h::hash_str(desc), h::hash_bytes(in.data(), in.size() * 4, static_cast<u64>(st) * 2 + bol)));
            }
        }
    }
    void narrow(Ctx& c, u64 i, Rng& g) { body<char>(c, i, g, 0xff); }
    void wide(Ctx& c, u64 i, Rng& g) { if (i & 1) body<char16_t>(c, i / 2, g, 0xffff); else body<char32_t>(c, i / 2, g, 0x10ffff); }

    // Whole texts: the reversed rule takes w exactly when the rule takes the
    // mirror image of w, for every text over a small alphabet, with macros,
    // quoted text and non-greedy operators.
    void every(Ctx& c, u64, Rng& g)
    {
        static const char* bodies[] = {"a|bc", "ab", "[ab]", "c(a|b)", "a*b", "b+"};
        ref::GenOpt o;
        o.alphabet = ref::CS::of("abc");
        for (int k = 0; k < 4; ++k)
        {
            Rules<char> a(LENIENT), b(LENIENT);
            std::string desc, t;
            const std::string m = bodies[g.below(6)], n = bodies[g.below(6)];
            for (auto* r : {&a, &b}) { r->insert_macro("m", m.c_str()); r->insert_macro("n", ("x*({m}" + n + "){1,2}").c_str()); }
            ref::P p;
            do p = ref::gen(g, o, 3); while (ref::weight(p) > 24);
            ref::Spell sp{g, 0xff, false};
            sp.scopes = true;
            const auto sw = sp.re(p, 1);
            const std::string s(sw.begin(), sw.end());
            static const char* forms[] = {"%{m}", "{n}%", "({m}|%){2}", "\"ab\"%{n}?", "%c{m}+", "({n}{m})*a%", "((%)|b{m}c)"};
            t = forms[g.below(7)];
            t.replace(t.find('%'), 1, s);
            const bool bol = g.chance(1, 4), eol = g.chance(1, 4);
            // group: ^ and $ would belong to an alternative only
            std::string full = (bol ? "^(" : "(") + t + (eol ? ")$" : ")");
            desc = "m=" + m + " n=x*({m}" + n + "){1,2} rule=" + full;
            c.note(desc);
            Sm<char> sa, sb, sc;
            try { a.push(full, 1); b.push(full, 1); build(a, sa); } catch (const lexertl::runtime_error&) { c.count("empty_matching"); continue; }
            b.reverse();
            build(b, sb);
            b.reverse();
            b.push("{n}y", 2);
            a.push("{n}y", 2);
            build(a, sa);
            build(b, sc);
            c.count("macro_rules");
            u64 yes = 0;
            for (u64 len = 1; len <= 6; ++len)
            {
                u64 total = 1;
                for (u64 q = 0; q < len; ++q) total *= 3;
                for (u64 v = 0; v < total; ++v)
                {
                    std::string w;
                    for (u64 q = 0, x = v; q < len; ++q, x /= 3) w += static_cast<char>('a' + x % 3);
                    std::string mir(w.rbegin(), w.rend());
                    auto takes = [](const Sm<char>& sm, const std::string& x)
                    {
                        lexertl::match_results<const char*> r(x.data(), x.data() + x.size());
                        lexertl::lookup(sm, r);
                        return r.id == 1 && r.second == x.data() + x.size();
                    };
                    const bool fw = takes(sa, w), bw = takes(sb, mir), tw = takes(sc, w);
                    if (fw != bw) c.fail("mirror-differs", desc + " text " + w + (fw ? " matched" : " not matched") + " but its mirror image " + (bw ? "matched" : "not matched") + " when reversed");
                    if (fw != tw) c.fail("reversed-twice-differs", desc + " text " + w);
                    yes += fw;
                    c.count("texts");
                }
            }
            c.count("texts_matched", yes);
            if (yes) c.nontrivial(h::hash_str(desc));
        }
    }
    // A rule with non-greedy operators, reversed, is the rule written backwards.
    void lazy(Ctx& c, u64, Rng& g)
    {
        struct Two { std::string t, m; };
        static const char* atoms[] = {"a", "b", "c", "[ab]", "[^c]", "\\141", "x"};
        static const char* ops[] = {"", "", "?", "*", "+", "{2}", "{1,3}", "{2,}", "??", "*?", "+?", "{2}?", "{1,3}?", "{2,}?", "{0,2}?"};
        std::function<Two(int)> make = [&](int depth) -> Two
        {
            Two r;
            for (u64 k = 0, n = g.in(1, 3); k < n; ++k)
            {
                Two x;
                if (depth && g.chance(1, 3))
                {
                    x = make(depth - 1);
                    if (g.chance(1, 2)) { const Two y = make(depth - 1); x = {x.t + "|" + y.t, y.m + "|" + x.m}; }
                    x = {"(" + x.t + ")", "(" + x.m + ")"};
                }
                else x.t = x.m = atoms[g.below(7)];
                const std::string op = ops[g.below(15)];
                r = {r.t + x.t + op, x.m + op + r.m};
            }
            return r;
        };
        Rules<char> a(LENIENT), b(LENIENT), d(LENIENT);
        std::string desc;
        bool any = false;
        for (u64 k = 0, n = g.in(1, 3); k < n; ++k)
        {
            // the ends are plain, as nothing non-greedy may end a rule
            Two x;
            do x = make(2); while (x.t.size() > 28);
            const std::string f(1, "abxy"[g.below(4)]), l(1, "abxy"[g.below(4)]);
            x = {f + x.t + l, l + x.m + f};
            any |= x.t.find("??") != x.t.npos || x.t.find("*?") != x.t.npos || x.t.find("+?") != x.t.npos || x.t.find("}?") != x.t.npos;
            desc += x.t + "  ";
            for (auto* r : {&a, &d}) r->push(x.t, static_cast<std::uint16_t>(k + 1));
            b.push(x.m, static_cast<std::uint16_t>(k + 1));
        }
        c.note(desc);
        d.reverse();
        Sm<char> sa, sb, sd, se;
        build(a, sa);
        build(b, sb);
        build(d, sd);
        d.reverse();
        build(d, se);
        c.count("lazy_sets", any);
        auto show_all = [&](const Sm<char>& sm, const std::string& in) { return show(lex_plain(sm, in.begin(), in.end(), in.size() + 4, true, 0), 0); };
        u64 matched = 0;
        for (int k = 0; k < 40; ++k)
        {
            std::string in;
            for (u64 q = 0, n = g.in(1, 30); q < n; ++q) in += "abcxy"[g.below(5)];
            const std::string x = show_all(sb, in), y = show_all(sd, in);
            if (x != y) { c.fail("lazy-mirror-differs", desc + " input " + h::vis(in) + " reversed: " + y + " written backwards: " + x); break; }
            const std::string p = show_all(sa, in), q = show_all(se, in);
            if (p != q) { c.fail("lazy-reversed-twice-differs", desc + " input " + h::vis(in) + " reversed twice: " + q + " at first: " + p); break; }
            c.count("lazy_inputs");
            matched += x.find("id=1") != x.npos;
        }
        if (matched && any) c.nontrivial(h::hash_str(desc));
    }
    // Anchored once each, at both ends of the line.
    void anchors(Ctx& c)
    {
        struct T { const char* re; const char* in; bool bol; bool want; };
        static const T t[] = {{"^ab", "ba", false, true}, {"^ab", "bax", true, false}, {"^ab", "ba\n", false, true}, {"ab$", "ba", true, true}, {"ab$", "ba", false, false},
            {"ab$", "bax", true, true}, {"^ab$", "ba", true, true}, {"^ab$", "bax", true, false}, {"^ab$", "ba", false, false}, {"^a+b?", "bba", true, false}, {"^a+b?", "baa", false, true}};
        for (auto& x : t)
        {
            for (int multi = 0; multi < 2; ++multi)
            {
                Rules<char> lr;
                if (multi) { lr.push_state("S"); lr.push("S", "z", 2, "."); lr.push("*", x.re, 1, "."); }
                else lr.push(x.re, 1);
                lr.reverse();
                Sm<char> sm;
                build(lr, sm);
                const std::string in = x.in;
                const auto v = lex_plain(sm, in.begin(), in.end(), 10, x.bol, static_cast<u64>(multi));
                const bool got = v[0].id == 1 && v[0].b == 0;
                c.count("anchor_cases");
                if (got != x.want) c.fail("mirror-anchor", std::string(x.re) + " reversed on " + h::vis(in) + (x.bol ? " at line start" : " mid line") + ": got " + show(v, 0));
            }
        }
    }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {{"anchors", anchors}}, {{"narrow", narrow}, {"wide", wide}, {"every", every}, {"lazy", lazy}});
}
