// R06: a macro means its parenthesised definition.
#include "lexgen.hpp"
using namespace lx;
namespace
{
    constexpr std::size_t NL = static_cast<std::size_t>(lexertl::regex_flags::dot_not_newline);
    constexpr std::size_t ICASE = static_cast<std::size_t>(lexertl::regex_flags::icase);
    constexpr std::size_t WS = static_cast<std::size_t>(lexertl::regex_flags::skip_ws);
    constexpr std::size_t SUP = static_cast<std::size_t>(lexertl::regex_flags::allow_suppressed_rules);

    struct Macro
    {
        std::string name;
        ref::P re;            // what it means
        bool single = false;  // exactly one set
        std::u32string text;  // its definition as given
        std::u32string flat;  // the definition without macros
    };
    std::u32string w(const std::string& s) { return std::u32string(s.begin(), s.end()); }

    struct Gen
    {
        Rng& g;
        ref::GenOpt o;
        std::vector<Macro> macros;
        u64 uses = 0, diffs = 0;
        bool diff_ok = true;

        // a leaf that is a use of a macro (or a set difference of macros)
        ref::P use()
        {
            ++uses;
            const Macro& m = g.pick(macros);
            auto n = std::make_shared<ref::Re>(*m.re);
            n->raw = U"{" + w(m.name) + U"}";
            if (!m.single || !diff_ok || g.chance(1, 2)) return n;
            // {m}{-}[..], [..]{+}{m}, {m}{-}{n}
            ref::CS a = m.re->cs, b;
            std::u32string bt;
            std::vector<std::size_t> singles;
            for (std::size_t i = 0; i < macros.size(); ++i) if (macros[i].single) singles.push_back(i);
            if (g.chance(1, 2)) { const Macro& q = macros[g.pick(singles)]; b = q.re->cs; bt = U"{" + w(q.name) + U"}"; }
            else { b = ref::gen_set(g, o); ref::Spell sp{g, o.max, o.max > 0xff}; bt = sp.bracket(b); }
            std::u32string at = U"{" + w(m.name) + U"}";
            if (g.chance(1, 2)) { std::swap(a, b); std::swap(at, bt); }
            ref::CS r = a.minus(b);
            bool minus = g.chance(1, 2);
            if (r.empty()) minus = false;
            if (!minus) { r = a; r.add(b); }
            auto s = std::make_shared<ref::Re>();
            s->k = ref::Re::SET;
            s->cs = r;
            s->raw = at + (minus ? U"{-}" : U"{+}") + bt;
            ++diffs;
            return s;
        }
        ref::P put(const ref::P& p, bool top)
        {
            auto n = std::make_shared<ref::Re>(*p);
            if (n->k == ref::Re::SET ? g.chance(1, 3) : (!top && g.chance(1, 12))) return use();
            for (auto& k : n->kids) k = put(k, false);
            return n;
        }
    };
    // The same tree with every macro use replaced by what it stands for.
    std::u32string unfold(const std::u32string& t, const std::vector<Macro>& macros)
    {
        std::u32string o;
        for (std::size_t i = 0; i < t.size(); ++i)
        {
            if (t[i] == U'\\' && i + 1 < t.size()) { o += t[i]; o += t[++i]; } // an escaped brace opens nothing
            else if (t[i] == U'{' && i + 1 < t.size() && (t[i + 1] == U'_' || (t[i + 1] < 128 && std::isalpha(static_cast<int>(t[i + 1])))))
            {
                const auto e = t.find(U'}', i);
                const auto nme = t.substr(i + 1, e - i - 1);
                for (auto& m : macros) if (w(m.name) == nme) o += m.single ? U"\"\"" + m.flat + U"\"\"" : U"(" + m.flat + U")";
                i = e;
            }
            else o += t[i];
        }
        return o;
    }
    template<class Ch>
    void body(Ctx& c, u64 i, Rng& g, u32 max)
    {
        static const char* names[] = {"m", "N", "_a", "x-1", "long_name", "d", "digit"};
        ref::GenOpt o;
        o.max = max;
        o.alphabet = i % 2 ? ref::CS::of("abc") : ref::CS::of("ab1 -^$\n");
        if (max > 0xff) { o.alphabet.add(0x100, 0x101); if (g.chance(1, 3)) o.alphabet.add(max, max); }
        o.depth = 3;
        o.max_rep = 3;
        const bool xm = g.chance(1, 4);
        Rules<Ch> lr(NL | SUP | (xm ? WS : 0)), inl(NL | SUP | (xm ? WS : 0));
        Gen G{g, o, {}};
        std::string desc;
        for (u64 k = 0, n = g.in(1, 5); k < n; ++k)
        {
            Macro m;
            m.name = names[k];
            ref::P p;
            const bool single = g.chance(1, 3);
            do
            {
                p = single ? ref::set(ref::gen_set(g, o)) : ref::gen(g, o, static_cast<unsigned>(g.in(0, 2)));
                if (!G.macros.empty() && !single) p = G.put(p, true);
            } while (ref::weight(p) > 16 || (ref::nullable(p) && g.chance(2, 3)));
            // a macro text of its own starting or ending in an anchor character
            // is a different matter; the printer escapes those
            ref::Spell sp{g, max, max > 0xff};
            sp.xmode = xm;
            m.text = sp.re(p, 0);
            m.re = std::make_shared<ref::Re>(*p);
            const_cast<ref::Re&>(*m.re).raw.clear();
            m.single = p->k == ref::Re::SET && (p->raw.empty() || p->raw.find(U"{-}") != p->raw.npos || p->raw.find(U"{+}") != p->raw.npos);
            // printed with redundant groups or fillers it is still one set only
            // if nothing but the set was printed
            if (m.single && p->raw.empty() && (m.text.find(U'(') != m.text.npos || m.text.find(U'"') != m.text.npos || xm)) { ref::Spell q{g, max, max > 0xff}; q.plain = true; m.text = q.re(p, 0); }
            // (a set operation inside another's operand needs the resulting set)
            if (m.single && !p->raw.empty()) { ref::Spell q{g, max, max > 0xff}; q.plain = true; m.flat = q.bracket(p->cs); }
            else m.flat = unfold(m.text, G.macros);
            lr.insert_macro(nm<Ch>(m.name).c_str(), ref::to<Ch>(m.text));
            desc += m.name + "=" + h::visw(m.text) + " ";
            G.macros.push_back(m);
            c.count("macros");
        }
        std::vector<Rule> rules;
        std::vector<ref::P> res;
        for (u64 k = 0, n = g.in(1, 3); k < n; ++k)
        {
            Rule r;
            r.id = k + 1;
            r.uid = k;
            do r.re = G.put(ref::gen(g, o, static_cast<unsigned>(g.in(0, 3))), false); while (ref::nullable(r.re) || ref::weight(r.re) > 60);
            ref::Spell sp{g, max, max > 0xff};
            sp.xmode = xm;
            const auto t = sp.re(r.re, 0);
            r.text = h::visw(t);
            c.note(desc + r.text + " inline " + h::visw(unfold(t, G.macros)));
            if (std::getenv("DBG")) std::fprintf(stderr, "%s\n", (desc + r.text + " inline " + h::visw(unfold(t, G.macros))).c_str());
            if (g.chance(1, 4)) lr.push(nm<Ch>("INITIAL").c_str(), ref::to<Ch>(t), static_cast<std::uint16_t>(r.id), nm<Ch>(".").c_str(), static_cast<std::uint16_t>(r.uid));
            else lr.push(ref::to<Ch>(t), static_cast<std::uint16_t>(r.id), static_cast<std::uint16_t>(r.uid));
            inl.push(ref::to<Ch>(unfold(t, G.macros)), static_cast<std::uint16_t>(r.id), static_cast<std::uint16_t>(r.uid));
            rules.push_back(r);
            res.push_back(r.re);
        }
        c.count("macro_uses", G.uses);
        c.count("macro_set_operations", G.diffs);
        desc += show_rules(rules);
        c.note(desc);
        if (g.chance(1, 3))
        {
            // refused definitions leave no trace
            auto bad = [&](const std::string& nme, const std::string& t)
            {
                bool threw = false;
                try { lr.insert_macro(nm<Ch>(nme).c_str(), nm<Ch>(t)); } catch (const lexertl::runtime_error&) { threw = true; }
                if (!threw) c.fail("bad-macro-accepted", nme + "=" + t);
                c.count("refused_macros");
            };
            bad(G.macros[g.below(G.macros.size())].name, "z");
            bad("nu", "a{nu}");
            bad("nu", "(a");
            bad("nu", "{unheard_of}");
            bad("9", "a");
            bool threw = false;
            try { lr.push(nm<Ch>("{nu}"), 9); } catch (const lexertl::runtime_error&) { threw = true; }
            if (!threw) c.fail("refused-macro-left-behind", desc);
        }
        Sm<Ch> sm, sm2;
        build(lr, sm);
        build(inl, sm2);
        for (int k = 0; k < 6; ++k)
        {
            const Text in = ref::gen_input(g, res, o.alphabet, 40);
            ref::Lexer L(rules, in, Sm<Ch>::traits::npos());
            auto want = L.all();
            Exact<Ch> x(in);
            auto got = lex_plain(sm, x.begin(), x.end(), in.size() + 3);
            auto got2 = lex_plain(sm2, x.begin(), x.end(), in.size() + 3);
            for (auto* v : {&want, &got, &got2}) for (auto& t : *v) { t.bol = false; t.state = 0; }
            compare(c, "macro-meaning", got, want, desc, h::visw(in));
            compare(c, "macro-differs-from-text", got, got2, desc, h::visw(in));
            const Stat s = stat_of(want, Sm<Ch>::traits::npos());
            c.count("matched_tokens", s.tokens);
            c.count("unknown_tokens", s.unknown);
            if (s.tokens && G.uses) c.nontrivial(h::mix(h::hash_str(desc), h::hash_bytes(in.data(), in.size() * 4)));
        }
    }
    void narrow(Ctx& c, u64 i, Rng& g) { body<char>(c, i, g, 0xff); }
    void wide(Ctx& c, u64 i, Rng& g) { if (i & 1) body<char16_t>(c, i / 2, g, 0xffff); else body<char32_t>(c, i / 2, g, 0x10ffff); }

    // The options in force where the macro is defined apply to it.
    void options(Ctx& c, u64, Rng& g)
    {
        ref::GenOpt o;
        o.alphabet = ref::CS::of("aBc.\n ");
        for (int k = 0; k < 6; ++k)
        {
            struct Opt { std::size_t f; } defs[2], uses;
            auto opt = [&] { return Opt{SUP | (g.chance(1, 2) ? ICASE : 0) | (g.chance(1, 2) ? NL : 0) | (g.chance(1, 3) ? WS : 0)}; };
            defs[0] = opt(); defs[1] = opt(); uses = opt();
            const char* bodies[] = {"a|B.", "[a-c]+", ".c", "B c", "(a(?i:b)c)+", "[^a]"};
            const char* texts[] = {"{m}c{n}", "({m}|a{n})+", "a{n}*B", "{n}{m}", "(?i:{m})c", "(?-i:{n}B)"};
            const std::string bm = bodies[g.below(6)], bn = bodies[g.below(6)];
            std::string t = texts[g.below(6)];
            auto scoped = [](const std::string& s, std::size_t f)
            {
                return std::string("(?") + (f & ICASE ? "" : "-") + "i" + (f & NL ? "-" : "") + "s" + (f & WS ? "" : "-") + "x:" + s + ")";
            };
            Rules<char> lr(defs[0].f), inl(NL | SUP);
            lr.insert_macro("m", bm.c_str());
            lr.flags(defs[1].f);
            lr.insert_macro("n", bn.c_str());
            lr.flags(uses.f);
            lr.push(t, 1);
            std::string e = t;
            // the definition under its own options, the rest under those of use
            for (std::size_t q; (q = e.find("{m}")) != e.npos;) e.replace(q, 3, scoped(bm, defs[0].f));
            for (std::size_t q; (q = e.find("{n}")) != e.npos;) e.replace(q, 3, scoped(bn, defs[1].f));
            e = scoped(e, uses.f);
            inl.push(e, 1);
            Sm<char> a, b;
            build(lr, a);
            build(inl, b);
            const std::string d = "m=" + bm + " n=" + bn + " rule=" + t + " inline=" + e;
            c.note(d);
            for (int q = 0; q < 8; ++q)
            {
                const Text in = ref::gen_input(g, {ref::lit("aBc"), ref::lit("Abc"), ref::lit("B c")}, ref::CS::of("abcABC \n"), 20);
                Exact<char> x(in);
                auto va = lex_plain(a, x.begin(), x.end(), 40), vb = lex_plain(b, x.begin(), x.end(), 40);
                compare(c, "macro-options", va, vb, d, h::visw(in));
                c.count("option_inputs");
                if (va.size() > 2) c.nontrivial(h::mix(h::hash_str(d), h::hash_bytes(in.data(), in.size() * 4)));
            }
        }
    }
    // Macros with anchors: at the beginning (end) of the rule that uses them
    // they anchor it, anywhere else ^ and $ stand for themselves, as in a rule.
    void anchors(Ctx& c, u64, Rng& g)
    {
        struct Part { std::string inner; bool bol = false, eol = false; }; // inner is a sequence
        static const char* insides[] = {"a", "(a|b)", "[^\\r\\n^$]+", "ab", "(a|b)c", "\"^\"", "[$a]", "b+", "a{2}", "(ab|c)*"};
        for (int k = 0; k < 6; ++k)
        {
            Rules<char> lr(NL | SUP), inl(NL | SUP);
            std::map<std::string, Part> macros;
            std::string defs;
            // text that uses macros, and the same text with them written out
            auto text = [&](bool whole, std::string& plain, Part* out)
            {
                std::string t;
                const u64 n = g.in(1, 3);
                bool bol = false, eol = false, cut = false;
                plain.clear();
                if (g.chance(1, 6)) { t = "^"; bol = true; }
                for (u64 q = 0; q < n; ++q)
                {
                    if (whole && q && !cut && g.chance(1, 6)) { t += "|"; plain += "|"; cut = true; }
                    const bool first = t.empty(), last = q + 1 == n;
                    if (!macros.empty() && g.chance(2, 3))
                    {
                        auto m = std::next(macros.begin(), static_cast<long>(g.below(macros.size())));
                        t += "{" + m->first + "}";
                        const bool group = g.chance(1, 8);
                        if (group) { t.insert(t.size() - m->first.size() - 2, "("); t += ")"; }
                        if (m->second.bol) { if (first && !group) bol = true; else plain += "\\^"; c.count(first && !group ? "macro_anchors" : "macro_carets"); }
                        plain += m->second.inner;
                        if (m->second.eol) { if (last && !group) eol = true; else plain += "\\$"; c.count(last && !group ? "macro_anchors" : "macro_dollars"); }
                    }
                    else { const std::string x = insides[g.below(10)]; t += x; plain += x; }
                }
                if (!eol && g.chance(1, 8)) { t += "$"; eol = true; }
                if (out) { out->inner = plain; out->bol = bol; out->eol = eol; }
                plain = (bol ? "^" : "") + plain + (eol ? "$" : "");
                return t;
            };
            for (u64 q = 0, n = g.in(1, 4); q < n; ++q)
            {
                const std::string nme(1, static_cast<char>('p' + q));
                Part m;
                std::string t, unused;
                if (q && g.chance(1, 3)) t = text(false, unused, &m);
                else
                {
                    m.bol = g.chance(1, 2); m.eol = g.chance(1, 2);
                    m.inner = g.chance(1, 6) && (m.bol || m.eol) ? "" : insides[g.below(10)];
                    t = (m.bol ? "^" : "") + m.inner + (m.eol ? "$" : "");
                }
                lr.insert_macro(nme.c_str(), t.c_str());
                macros[nme] = m;
                defs += nme + "=" + t + " ";
            }
            for (unsigned r = 1; r < 4; ++r)
            {
                std::string plain;
                const std::string t = text(true, plain, nullptr);
                defs += "rule=" + t + " inline=" + plain + " ";
                c.note(defs);
                lr.push(t, r);
                inl.push(plain, r);
            }
            bool ra = false, rb = false;
            Sm<char> a, b;
            try { build(lr, a); } catch (const lexertl::runtime_error&) { ra = true; }
            try { build(inl, b); } catch (const lexertl::runtime_error&) { rb = true; }
            if (ra != rb) c.fail("macro-changes-acceptance", defs);
            if (ra) continue;
            for (int q = 0; q < 6; ++q)
            {
                const Text in = ref::gen_input(g, {ref::lit("^ab$"), ref::lit("a\n"), ref::lit("b\r\n^a"), ref::lit("abc\n")}, ref::CS::of("abc^$\n"), 24);
                Exact<char> x(in);
                const bool bol = g.chance(1, 2);
                auto va = lex_plain(a, x.begin(), x.end(), 40, bol), vb = lex_plain(b, x.begin(), x.end(), 40, bol);
                compare(c, "macro-anchor", va, vb, defs, h::visw(in));
                c.count("anchor_inputs");
                if (va.size() > 2) c.nontrivial(h::mix(h::hash_str(defs), h::hash_bytes(in.data(), in.size() * 4)));
            }
        }
    }
    // Non-greedy operators in and around macros.
    void lazy(Ctx& c, u64, Rng& g)
    {
        for (int k = 0; k < 6; ++k)
        {
            const char* bodies[] = {"[^b]", "(a|c)", "\"/*\"", "b", ".{1,2}", "ab|c", "a+", "c*?b", "\"*/\"", "x[ab]*?c|b", "b|x[ab]+?c", "a??b|c|x", "(a*?b|x)c", "a{1,2}?|b", "(a*?|b)c", "x(ab?" "?|c)"};
            const char* ops[] = {"*?", "+?", "??", "{1,3}?", "*", "+", "", "{2}?"};
            std::string t, e, defs;
            Rules<char> lr(NL | SUP), inl(NL | SUP);
            for (u64 q = 0, n = g.in(1, 4); q < n; ++q)
            {
                const std::string nme(1, static_cast<char>('p' + q)), b = bodies[g.below(16)], op = ops[g.below(8)];
                lr.insert_macro(nme.c_str(), b.c_str());
                defs += nme + "=" + b + " ";
                if (q && g.chance(1, 6)) { t += "|"; e += "|"; }
                t += "{" + nme + "}" + op;
                e += "(" + b + ")" + op;
                if (g.chance(1, 3)) { t += "x"; e += "x"; }
            }
            // through another macro
            if (g.chance(1, 4)) { lr.insert_macro("z", t.c_str()); t = "{z}"; e = "(" + e + ")"; if (g.chance(1, 2)) { t += "a"; e += "a"; } }
            defs += "rule=" + t;
            c.note(defs);
            bool ra = false, rb = false;
            Sm<char> a, b;
            try { lr.push(t, 1); build(lr, a); } catch (const lexertl::runtime_error&) { ra = true; }
            try { inl.push(e, 1); build(inl, b); } catch (const lexertl::runtime_error&) { rb = true; }
            if (ra != rb) c.fail("macro-changes-acceptance", defs);
            if (ra) continue;
            for (int q = 0; q < 6; ++q)
            {
                const Text in = ref::gen_input(g, {ref::lit("/*a*/"), ref::lit("abcx"), ref::lit("ccb")}, ref::CS::of("abcx/*"), 24);
                Exact<char> x(in);
                auto va = lex_plain(a, x.begin(), x.end(), 40), vb = lex_plain(b, x.begin(), x.end(), 40);
                compare(c, "macro-non-greedy", va, vb, defs, h::visw(in));
                c.count("lazy_inputs");
                if (va.size() > 2) c.nontrivial(h::mix(h::hash_str(defs), h::hash_bytes(in.data(), in.size() * 4)));
            }
        }
    }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {}, {{"narrow", narrow}, {"wide", wide}, {"options", options}, {"lazy", lazy}, {"anchors", anchors}});
}
