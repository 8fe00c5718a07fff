// R03: any text given as a regex, macro, state name or exit state is taken or
// refused cleanly; texts outside the grammar are refused; what is taken works.
#include <limits>
#include "lexgen.hpp"
#include "ucd.hpp"
using namespace lx;
namespace
{
    constexpr std::size_t NL = static_cast<std::size_t>(lexertl::regex_flags::dot_not_newline);
    constexpr std::size_t WS = static_cast<std::size_t>(lexertl::regex_flags::skip_ws);
    constexpr std::size_t ZERO = static_cast<std::size_t>(lexertl::regex_flags::match_zero_len);
    constexpr std::size_t SUP = static_cast<std::size_t>(lexertl::regex_flags::allow_suppressed_rules);

    // ------------------------------------------------- the documented grammar
    struct Bad {};
    struct Gram
    {
        const Text& t;
        u32 max;
        bool x;                   // white space and C comments ignored
        bool dot_all = false;
        std::size_t p = 0;
        bool instr = false;
        bool unspecified = false; // meaning (not validity) left open
        bool lazy = false;

        Gram(const Text& s, u32 m, bool xm) : t(s), max(m), x(xm) {}
        bool eos() const { return p >= t.size(); }
        u32 cur() const { return t[p]; }
        static bool dig(u32 c) { return c >= '0' && c <= '9'; }
        static bool hex(u32 c) { return dig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
        bool at(const char* s) const
        {
            for (std::size_t i = 0; s[i]; ++i) if (p + i >= t.size() || t[p + i] != static_cast<unsigned char>(s[i])) return false;
            return true;
        }
        // everything that stands between tokens
        void gap()
        {
            for (;;)
            {
                if (!eos() && cur() == '"') { instr = !instr; ++p; quoted = true; continue; }
                if (instr) return;
                if (at("(?#"))
                {
                    std::size_t depth = 1;
                    p += 3;
                    for (;; ++p)
                    {
                        if (eos()) throw Bad();
                        if (cur() == '(') ++depth;
                        if (cur() == ')' && --depth == 0) { ++p; break; }
                    }
                    continue;
                }
                if (x && at("/*"))
                {
                    p += 2;
                    while (!at("*/")) { if (eos()) throw Bad(); ++p; }
                    p += 2;
                    continue;
                }
                if (x && !eos() && (cur() == ' ' || (cur() >= '\t' && cur() <= '\r'))) { ++p; continue; }
                return;
            }
        }
        bool quoted = false;      // a quote was crossed by the last gap()

        ref::CS shorthand(u32 c)
        {
            ref::CS s;
            switch (c | 32)
            {
            case 'd': s = ref::CS('0', '9'); break;
            case 's': s = ref::CS::of(" \t\n\r\f\v"); break;
            default: s = ref::CS('0', '9'); s.add('a', 'z'); s.add('A', 'Z'); s.add('_', '_'); break;
            }
            return c & 32 ? s : s.inv(max);
        }
        // after the backslash; set tells whether it denotes a set
        ref::CS escape(bool& set)
        {
            set = false;
            if (eos()) throw Bad();
            const u32 c = t[p++];
            auto one = [&](u64 v) { if (v > max) throw Bad(); return ref::CS(static_cast<u32>(v), static_cast<u32>(v)); };
            switch (c)
            {
            case 'd': case 'D': case 's': case 'S': case 'w': case 'W': set = true; return shorthand(c);
            case 'p': case 'P': throw Bad(); // the texts here hold no property name
            case 'a': return one('\a');
            case 'b': return one('\b');
            case 'e': return one(27);
            case 'f': return one('\f');
            case 'n': return one('\n');
            case 'r': return one('\r');
            case 't': return one('\t');
            case 'v': return one('\v');
            case 'c':
            {
                if (eos()) throw Bad();
                const u32 d = t[p++];
                if (d == '@') return one(0);
                if (d >= 'a' && d <= 'z') return one(d - 'a' + 1);
                if (d >= 'A' && d <= 'Z') return one(d - 'A' + 1);
                throw Bad();
            }
            case 'x':
            {
                if (eos() || !hex(cur())) throw Bad();
                u64 v = 0;
                while (!eos() && hex(cur()))
                {
                    const u32 d = t[p++];
                    v = v * 16 + (dig(d) ? d - '0' : (d | 32) - 'a' + 10);
                    if (v > 0xffffffffu) v = 0xffffffffu;
                }
                return one(v);
            }
            default:
                if (c >= '0' && c <= '7')
                {
                    u64 v = c - '0';
                    for (int i = 0; i < 2 && !eos() && cur() >= '0' && cur() <= '7'; ++i) v = v * 8 + (t[p++] - '0');
                    return one(v);
                }
                return one(c);
            }
        }
        ref::CS bracket()
        {
            ref::CS s;
            bool neg = false;
            if (!eos() && cur() == '^') { neg = true; ++p; }
            bool first = true;
            for (;; first = false)
            {
                if (eos()) throw Bad();
                if (cur() == ']' && !first) { ++p; break; }
                if (at("[:")) throw Bad(); // no class names in these texts
                bool set = false;
                ref::CS a;
                if (cur() == '\\') { ++p; a = escape(set); } else { a = ref::CS(cur(), cur()); ++p; }
                if (!eos() && cur() == '-' && p + 1 < t.size() && t[p + 1] != ']')
                {
                    if (set) throw Bad();
                    ++p;
                    bool set2 = false;
                    ref::CS b;
                    if (at("[:")) throw Bad();
                    if (cur() == '\\') { ++p; b = escape(set2); } else { b = ref::CS(cur(), cur()); ++p; }
                    if (set2 || b.r[0].first < a.r[0].first) throw Bad();
                    a = ref::CS(a.r[0].first, b.r[0].first);
                }
                s.add(a);
            }
            if (neg) s = s.inv(max);
            if (s.empty()) throw Bad();
            return s;
        }
        // one atom that is a set, or fails
        bool set_ahead()
        {
            gap();
            if (eos()) return false;
            if (instr) return true;
            return !(cur() < 128 && std::strchr("()|*+?{/", static_cast<int>(cur())));
        }
        ref::CS one_set()
        {
            if (cur() == '\\') { ++p; bool s; return escape(s); }
            if (!instr && cur() == '[') { ++p; return bracket(); }
            if (!instr && cur() == '.')
            {
                ++p;
                return dot_all ? ref::CS(0, max) : ref::CS(0, max).minus(ref::CS('\n', '\n'));
            }
            const u32 c = t[p++];
            if (c > max) { unspecified = true; }
            return ref::CS(c, c);
        }
        ref::P atom()
        {
            if (!instr && cur() == '(')
            {
                ++p;
                const bool x0 = x, d0 = dot_all;
                if (!eos() && cur() == '?')
                {
                    ++p;
                    bool neg = false;
                    for (;; ++p)
                    {
                        if (eos()) throw Bad();
                        if (cur() == ':') { ++p; break; }
                        if (cur() == '-') { neg = !neg; unspecified |= false; continue; }
                        if (cur() == 'x') x = !neg;
                        else if (cur() == 's') dot_all = !neg;
                        else if (cur() == 'i') { if (!neg) unspecified = true; }
                        else throw Bad();
                        neg = false;
                    }
                }
                ref::P a = alternation();
                if (eos() || instr || cur() != ')') throw Bad();
                ++p;
                x = x0;
                dot_all = d0;
                return a;
            }
            if (!set_ahead()) throw Bad();
            ref::CS s = one_set();
            quoted = false;
            gap();
            while (!instr && (at("{-") || at("{+")))
            {
                const bool minus = t[p + 1] == '-';
                p += 2;
                if (eos() || cur() != '}') throw Bad();
                ++p;
                gap();
                if (!set_ahead()) throw Bad();
                if (at("{-") || at("{+")) throw Bad();
                const ref::CS b = one_set();
                s = minus ? s.minus(b) : [&] { s.add(b); return s; }();
                if (s.empty()) throw Bad();
                quoted = false;
                gap();
                ++diffs;
                // a second operator needs a set before it, which the result is
            }
            return ref::set(s);
        }
        u64 diffs = 0;
        u64 number()
        {
            u64 n = 0;
            if (eos() || !dig(cur())) throw Bad();
            while (!eos() && dig(cur()))
            {
                const u64 d = static_cast<u64>(t[p++] - '0');
                if (n > (std::numeric_limits<u64>::max() - d) / 10) throw Bad(); // no such count
                n = n * 10 + d;
            }
            return n;
        }
        ref::P repeat()
        {
            ref::P a = atom();
            gap();
            if (eos() || instr) return a;
            int lo, hi;
            const std::size_t op = p;
            if (cur() == '*') { lo = 0; hi = -1; ++p; }
            else if (cur() == '+') { lo = 1; hi = -1; ++p; }
            else if (cur() == '?') { lo = 0; hi = 1; ++p; }
            else if (cur() == '{')
            {
                ++p;
                if (eos() || !dig(cur())) throw Bad(); // or an unknown macro
                const u64 n = number();
                u64 m = n;
                bool open = false;
                if (!eos() && cur() == ',')
                {
                    ++p;
                    if (!eos() && cur() == '}') open = true; else m = number();
                }
                if (eos() || cur() != '}') throw Bad();
                ++p;
                if (!open && (m == 0 || m < n)) throw Bad();
                lo = static_cast<int>(n);
                hi = open ? -1 : static_cast<int>(m);
            }
            else return a;
            (void)op;
            if (!eos() && cur() == '?') { lazy = true; ++p; }
            if (quoted) unspecified = true; // "ab"*: not said which part repeats
            return ref::rep(a, lo, hi);
        }
        ref::P sequence()
        {
            std::vector<ref::P> v;
            for (;;)
            {
                quoted = false;
                gap();
                if (eos()) { if (instr) throw Bad(); break; }
                if (!instr && (cur() == '|' || cur() == ')')) break;
                if (!instr && cur() < 128 && std::strchr("*+?{/", static_cast<int>(cur()))) throw Bad();
                v.push_back(repeat());
            }
            if (v.empty()) throw Bad();
            return ref::cat(v);
        }
        ref::P alternation()
        {
            std::vector<ref::P> v{sequence()};
            while (!eos() && cur() == '|') { ++p; v.push_back(sequence()); }
            return ref::alt(v);
        }
        ref::P whole()
        {
            ref::P a = alternation();
            if (!eos()) throw Bad();
            return a;
        }
    };

    const std::vector<const char*>& chunks()
    {
        static const std::vector<const char*> c{
            "a", "b", "a", "b", "(", ")", "(", ")", "|", "*", "+", "?", "*?", "??", "{2}", "{1,3}", "{0,2}", "{2,}", "{0,}", "{", "}", ",", "2", "{-}", "{+}",
            "[ab]", "[^a]", "[", "]", "^", "-", ".", "\"", "\"", "\\", "\\x", "\\x6", "61", "\\c", "\\14", "\\d", "\\S", "\\n", "[a-b]", "[b-a]", "[]a]", "[-a]", "[a\\]-]",
            "(?", "(?i:", "(?x:", "(?-x:", "(?s:", ":", "(?#", "(?#b)", " ", "\t", "\v", "\f", "\r\n", "/* */", "/*", "*/", "/", "#", "$", "a{-}b", "[ab]{-}a", "x", "1", "{0}", "{3,1}", "{2}?", "{1,2}?", "{0,1}?", "{18446744073709551616000002}", "{0,18446744073709551616000001}", "{18446744073709551616000003,4}?", "\x7f", "0", "{a}"};
        return c;
    }
    // counts that would take long to build; one of more than 24 digits is to be refused at once
    bool long_number(const Text& t)
    {
        int n = 0, longs = 0;
        for (u32 c : t) { n = Gram::dig(c) ? n + 1 : 0; if (n == 3) ++longs; if (n == 25) --longs; }
        return longs != 0;
    }
    Text random_text(Rng& g, u32 max, bool any_chars)
    {
        Text t;
        if (g.chance(1, 3))
        {
            // a valid regex, damaged
            ref::GenOpt o;
            o.max = max;
            o.alphabet = ref::CS::of("ab1-]");
            ref::Spell sp{g, max, max > 0xff};
            sp.xmode = g.chance(1, 4);
            sp.scopes = true;
            t = sp.re(ref::gen_nonnull(g, o, 20), 0);
            for (u64 k = 0, n = g.below(3); k < n && !t.empty(); ++k)
            {
                const std::size_t i = g.below(t.size());
                switch (g.below(4))
                {
                case 0: t.erase(i, 1); break;
                case 1: t.insert(i, 1, t[g.below(t.size())]); break;
                case 2: std::swap(t[i], t[g.below(t.size())]); break;
                default: { const std::string s = g.pick(chunks()); t.insert(i, Text(s.begin(), s.end())); break; }
                }
            }
        }
        else
        {
            for (u64 k = 0, n = g.in(1, 9); k < n; ++k)
            {
                if (any_chars && g.chance(1, 6)) { t += static_cast<char32_t>(g.chance(1, 2) ? g.below(256) : g.below(static_cast<u64>(max) + 1)); continue; }
                const std::string s = g.pick(chunks());
                t += Text(s.begin(), s.end());
            }
        }
        return t;
    }
    // Copies the text into storage of exactly its size.
    template<class R, class F>
    bool clean(Ctx& c, const F& f)
    {
        try { f(); return true; }
        catch (const lexertl::runtime_error& e) { c.count("refused"); if (!*e.what()) c.fail("error-without-text", ""); return false; }
    }

    template<class Ch>
    void grammar_body(Ctx& c, Rng& g, u32 max)
    {
        for (int k = 0; k < 40; ++k)
        {
            Text t = random_text(g, max, false);
            bool xm = g.chance(1, 3);
            if (t.empty() || long_number(t)) continue;
            // anchors are outside this oracle
            if (t[0] == '^') t.insert(t.begin(), U'b');
            if (t.back() == '$') t += U'a';
            Gram gr(t, max, xm);
            ref::P p;
            bool valid = true;
            try { p = gr.whole(); } catch (const Bad&) { valid = false; }
            if (valid && ref::weight(p) > 400) continue;
            std::string names = h::visw(t);
            if (names.find("p") != std::string::npos || names.find("P") != std::string::npos) continue;
            c.note(names);
            Rules<Ch> lr(NL | SUP | (xm ? WS : 0));
            Sm<Ch> sm;
            bool took = true;
            const auto s = ref::to<Ch>(t);
            c.count("texts");
            took = clean<Ch>(c, [&] { lr.push(s, 1); build(lr, sm); });
            const std::string d = names + (xm ? " (skip_ws)" : "");
            if (!valid)
            {
                if (took) c.fail("invalid-text-accepted", d);
                c.count("invalid_texts");
                c.nontrivial(h::hash_str(d));
                continue;
            }
            c.count("valid_texts");
            if (ref::nullable(p))
            {
                if (took && !gr.lazy) c.fail("empty-matching-text-accepted", d);
                continue;
            }
            if (!took) c.fail("valid-text-refused", d);
            c.nontrivial(h::hash_str(d));
            if (gr.lazy || gr.unspecified) continue;
            // and it means what the grammar says
            std::vector<Rule> rules(1);
            rules[0].re = p;
            rules[0].id = 1;
            rules[0].uid = Sm<Ch>::traits::npos();
            ref::CS al = ref::CS::of("ab1\n");
            ref::CS mine = ref::all_chars(p);
            for (int q = 0; q < 3; ++q) { const u32 ch = mine.any(g); al.add(ch, ch); }
            for (int q = 0; q < 3; ++q)
            {
                const Text in = ref::gen_input(g, {p}, al, 24);
                ref::Lexer L(rules, in, Sm<Ch>::traits::npos());
                auto want = L.all();
                Exact<Ch> x(in);
                auto got = lex_plain(sm, x.begin(), x.end(), in.size() + 3);
                for (auto* v : {&want, &got}) for (auto& tk : *v) { tk.bol = false; tk.state = 0; }
                compare(c, "meaning-differs", got, want, d, h::visw(in));
                c.count("inputs_compared");
            }
        }
    }
    void grammar(Ctx& c, u64 i, Rng& g)
    {
        switch (i % 4)
        {
        case 0: grammar_body<char32_t>(c, g, 0x10ffff); break;
        case 1: grammar_body<char16_t>(c, g, 0xffff); break;
        default: grammar_body<char>(c, g, 0xff); break;
        }
    }

    // ------------------------------------------------------- anything anywhere
    template<class Ch>
    std::basic_string<Ch> name_text(Rng& g, bool exits)
    {
        static const char* good[] = {"INITIAL", "A", "B_b", "_x-1", "m", "n"};
        std::basic_string<Ch> s;
        auto name = [&]
        {
            if (g.chance(3, 4)) { const std::string n = good[g.below(6)]; s.append(n.begin(), n.end()); }
            else for (u64 k = 0, n = g.below(5); k < n; ++k) { const char* a = "A_-19. ,:<>*\x80\xff"; s += static_cast<Ch>(a[g.below(14)]); }
        };
        if (exits && g.chance(1, 2)) s += static_cast<Ch>("><.:"[g.below(4)]);
        name();
        if (g.chance(1, 4)) { s += static_cast<Ch>(exits ? ':' : ','); name(); }
        if (g.chance(1, 10)) s = nm<Ch>("*");
        if (g.chance(1, 10)) s = nm<Ch>("<");
        if (g.chance(1, 8)) s = nm<Ch>(".");
        return s;
    }
    template<class RCh, class Ch>
    void any_body(Ctx& c, Rng& g, u32 max)
    {
        using R = lexertl::basic_rules<RCh, Ch>;
        using S = lexertl::basic_state_machine<Ch>;
        const std::size_t flags = g.chance(1, 3) ? g.below(64) : NL | SUP;
        R lr(flags);
        const u32 rmax = static_cast<u32>(std::min<u64>(max, sizeof(RCh) == 1 ? 0xff : max));
        std::string desc = "flags=" + std::to_string(flags);
        std::vector<Text> texts;
        u64 took = 0;
        for (u64 k = 0, n = g.in(1, 7); k < n; ++k)
        {
            Text t = random_text(g, rmax, true);
            if (g.chance(1, 8)) t.insert(0, U"^");
            if (g.chance(1, 8)) t += U'$';
            if (g.chance(1, 6)) t += U"{m}";
            if (g.chance(1, 12)) t.insert(0, U"{n}{-}");
            if (long_number(t)) continue;
            // bound the size of what may have to be built
            unsigned ops = 0;
            for (std::size_t q = 0; q + 1 < t.size(); ++q) if (t[q] == '{' && Gram::dig(t[q + 1])) ++ops;
            if (ops > 4) continue;
            const auto s = ref::to<RCh>(t);
            std::unique_ptr<RCh[]> ex(new RCh[s.size()]);
            std::copy(s.begin(), s.end(), ex.get());
            const unsigned how = static_cast<unsigned>(g.below(10));
            const auto a = name_text<RCh>(g, false), b = name_text<RCh>(g, true);
            const std::uint16_t id = static_cast<std::uint16_t>(g.chance(1, 12) ? g.below(65536) : g.chance(1, 8) ? R::skip() : g.in(1, 5));
            desc += " #" + std::to_string(how) + " " + h::visw(t) + (how > 3 ? " " + h::visw(a) + "," + h::visw(b) : "");
            c.note(desc);
            c.count("operations");
            took += clean<R>(c, [&]
            {
                switch (how)
                {
                case 0: lr.push(ex.get(), ex.get() + s.size(), id, static_cast<std::uint16_t>(g.below(9))); break;
                case 1: lr.push(s.c_str(), id); break;
                case 2: case 3: lr.push(s, id); break;
                case 4: lr.push(a.c_str(), s, b.c_str()); break;
                case 5: lr.push(a.c_str(), ex.get(), ex.get() + s.size(), id, b.c_str()); break;
                case 6: lr.push(a.c_str(), s, id, b.c_str(), std::uint16_t{7}); break;
                case 7: lr.insert_macro(a.c_str(), s); break;
                case 8: lr.insert_macro(g.chance(1, 2) ? nm<RCh>("m").c_str() : nm<RCh>("n").c_str(), ex.get(), ex.get() + s.size()); break;
                default: lr.push_state(a.c_str()); break;
                }
            });
            ref::CS cs = ref::CS::of("ab1 \n\r\"*");
            texts.push_back(ref::gen_input(g, {ref::set(cs)}, cs, 12, true));
            if (how == 9 && g.chance(1, 6)) lr.clear(static_cast<std::uint16_t>(g.below(3)));
            if (g.chance(1, 30)) lr.reverse();
        }
        S sm;
        const bool built = clean<R>(c, [&] { lexertl::basic_generator<R, S>::build(lr, sm); });
        if (!built) return;
        c.count("machines");
        // an empty match that is skipped or continued repeats forever, which is
        // what match_zero_len asks for
        if ((flags & ZERO) && (sm.data()._features & (+lexertl::feature_bit::skip | +lexertl::feature_bit::again | +lexertl::feature_bit::recursive))) return;
        if (took) c.nontrivial(h::hash_str(desc));
        ref::CS al = ref::CS::of("ab1 \n\r\"*$^");
        al.add(0, 0); al.add(rmax, rmax); al.add(max, max); al.add(0x80, 0x82);
        texts.push_back(U"");
        for (int k = 0; k < 4; ++k) texts.push_back(ref::gen_input(g, {ref::set(al)}, al, 30, true));
        for (auto& in : texts)
        {
            Exact<Ch> x(in);
            Checked<Ch> b{x.begin(), x.begin(), x.end()}, e{x.end(), x.begin(), x.end()};
            const bool zero = (flags & ZERO) != 0;
            // zero length matches do not advance
            const std::size_t lim = zero ? 6 : 2 * in.size() + 4;
            std::vector<Tok> v;
            const auto st = g.below(sm.data()._dfa.size());
            if (sm.data()._features & +lexertl::feature_bit::recursive) v = lex_rec(sm, b, e, lim, g.chance(1, 2), st);
            else v = lex_plain(sm, b, e, lim, g.chance(1, 2), st);
            if (!zero && v.size() == lim) c.fail("no-end", desc + " on " + h::visw(in));
            c.count("tokens", v.size());
        }
    }
    void anything(Ctx& c, u64 i, Rng& g)
    {
        for (int k = 0; k < 12; ++k)
            switch ((i + static_cast<u64>(k)) % 6)
            {
            case 0: any_body<char16_t, char16_t>(c, g, 0xffff); break;
            case 1: any_body<char32_t, char32_t>(c, g, 0x10ffff); break;
            case 2: any_body<char, char32_t>(c, g, 0x10ffff); break;
            case 3: any_body<wchar_t, wchar_t>(c, g, 0x10ffff); break;
            default: any_body<char, char>(c, g, 0xff); break;
            }
    }

    // Names: letters, digits, underscore, minus; not starting with the last two
    // kinds of non-letters.
    bool good_name(const std::string& s)
    {
        if (s.empty()) return false;
        for (std::size_t i = 0; i < s.size(); ++i)
        {
            const unsigned char ch = static_cast<unsigned char>(s[i]);
            const bool alpha = (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || ch == '_';
            if (!alpha && (i == 0 || !((ch >= '0' && ch <= '9') || ch == '-'))) return false;
        }
        return true;
    }
    void names(Ctx& c, u64, Rng& g)
    {
        for (int k = 0; k < 60; ++k)
        {
            std::string s;
            const char* a = "aZ_-09.: ,<*\x80\xc1{";
            for (u64 q = 0, n = g.below(4); q < n; ++q) s += a[g.below(g.chance(2, 3) ? 6 : 15)];
            Rules<char> lr(NL);
            const bool ok = good_name(s);
            c.count("names");
            c.note(s);
            if (clean<char>(c, [&] { lr.push_state(s.c_str()); }) != ok) c.fail("state-name", h::vis(s));
            if (clean<char>(c, [&] { lr.insert_macro(s.c_str(), "a"); }) != ok) c.fail("macro-name", h::vis(s));
            if (clean<char>(c, [&] { lr.push((s + "{1}").insert(0, "{").insert(s.size() + 1, "}").c_str(), 1); }) != ok) c.fail("macro-use", h::vis(s));
            Rules<char> two(NL);
            two.push_state("Q");
            auto exit = [&](const std::string& e) { return clean<char>(c, [&] { two.push("Q", "a", 1, e.c_str()); }); };
            if (!good_name(s) || s == "Q" || s == "INITIAL") continue;
            // well formed but unknown
            for (const char* f : {"%", ">%", ">Q:%", ">%:Q"})
            {
                std::string e = f;
                e.replace(e.find('%'), 1, s);
                if (exit(e)) c.fail("unknown-exit-state", e);
            }
            if (clean<char>(c, [&] { two.push(s.c_str(), "a", 1, "Q"); })) c.fail("unknown-state", s);
            if (clean<char>(c, [&] { two.push(("Q," + s).c_str(), "a", 1, "Q"); })) c.fail("unknown-state", s);
            if (clean<char>(c, [&] { two.push("Q", ("{" + s + "}").c_str(), 1, "."); })) c.fail("unknown-macro", s);
            if (!two.regexes()[1].empty()) c.fail("refused-rule-kept", s);
            two.push_state(s.c_str());
            for (const char* f : {"%", ">%", ">Q:%", ">%:Q"})
            {
                std::string e = f;
                e.replace(e.find('%'), 1, s);
                if (!exit(e)) c.fail("known-exit-state-refused", e);
            }
            if (exit(s + ":Q")) c.fail("push-state-without-push", s);
            c.nontrivial(h::hash_str(s));
        }
    }
    // -------------------------------------------------- what a refusal says
    // number after the word, or -1
    long long number_after(const std::string& s, const std::string& word)
    {
        const auto at = s.rfind(word);
        if (at == s.npos || at + word.size() >= s.size() || !Gram::dig(static_cast<unsigned char>(s[at + word.size()]))) return -1;
        return std::atoll(s.c_str() + at + word.size());
    }
    struct Said { bool refused = false; std::string text, name; long long index = -1; u64 id = 0; };
    template<class Ch>
    Said say(const Text& t, unsigned how, std::size_t flags, u64 id, const std::string& name)
    {
        Rules<Ch> lr(flags);
        Said r;
        r.id = id;
        r.name = name;
        const auto s = ref::to<Ch>(t);
        try
        {
            lr.push_state(nm<Ch>("S").c_str());
            lr.insert_macro(nm<Ch>("one").c_str(), nm<Ch>("[ab]").c_str());
            lr.insert_macro(nm<Ch>("two").c_str(), nm<Ch>("a[bc]").c_str());
            switch (how)
            {
            case 0: lr.push(s, static_cast<std::uint16_t>(id)); break;
            case 1: lr.push(nm<Ch>("S").c_str(), s, static_cast<std::uint16_t>(id), nm<Ch>("INITIAL").c_str()); break;
            default: lr.insert_macro(nm<Ch>(name).c_str(), s); break;
            }
        }
        catch (const lexertl::runtime_error& e) { r.refused = true; r.text = e.what(); r.index = number_after(r.text, "index "); }
        return r;
    }
    // Which rule or macro, and where.
    void names_it(Ctx& c, const Said& r, unsigned how, const Text& t, const std::string& d)
    {
        c.count("refusals");
        const bool about_macro = r.text.find("MACRO name '") != r.text.npos; // not defined
        if (how < 2) { if (!about_macro && number_after(r.text, "rule id ") != static_cast<long long>(r.id)) c.fail("rule-not-named", d + " as rule " + std::to_string(r.id) + ": " + h::vis(r.text)); }
        else if (!about_macro && r.text.find("'" + r.name + "'") == r.text.npos && r.text.find("macro " + r.name) == r.text.npos) c.fail("macro-not-named", d + " as macro " + r.name + ": " + h::vis(r.text));
        if (r.index < 0) return;
        c.count("positions");
        if (static_cast<std::size_t>(r.index) > t.size()) c.fail("position-outside", d + ": " + h::vis(r.text));
    }
    template<class Ch>
    void messages_body(Ctx& c, Rng& g, u32 max)
    {
        // Text refused wherever it stands (and what may follow it).
        struct Wrong { const char* text; bool tail; };
        static const std::vector<Wrong> wrong{
            {"{3,2}", true}, {"{0}", true}, {"{0,0}", true}, {"{2;", true}, {"{2,x}", true}, {"{1,2;", true}, {"[b-a]", true}, {"[a-\\d]", true}, {"[\\d-z]", true}, {"[a-[:alpha:]]", true},
            {"[[:alpah:]]", true}, {"[[:alpha-]]", true}, {"[[:xalpha:]]", true}, {"[b[:digits:]]", true}, {"\\xg", true}, {"\\c1", true}, {"\\c ", true}, {"[\\c*]", true}, {"(?q:a)", true}, {"(?i-z:a)", true}, {"(?=a)", true}, {"(?!a)", true},
            {")", true}, {"{-x", true}, {"{.}", true}, {"{na me}", true}, {"{name,}", true}, {"||", true}, {"(|a)", true}, {"(*a)", true}, {"(a|)", true}, {"**", true}, {"()", true}, {"({-}", true}, {"({+}[b]", true}, {"|*", true},
            {"{-}[ab]", false}, {"[a]{-}{two}", true}, {"[a]{+}{two}", true}, {"{two}{-}[a]", true}, {"{two}{+}[a]", true}, {"{one}{-}{two}", true}, {"{two}{+}{one}", true}, {"{one}{-}{one}", true}, {"[a]{-}{one}", true}, {"{one}{-}[^c]", true}, {"{one}{-}(", true}, {"{one}{+}|", true}, {"{one}{-}*", true}, {"[a]{-}{-}[b]", true}, {"{one}{+}{+}[b]", true},
            {"a{2,", false}, {"a{2,3", false}, {"\\p", false}, {"\\p{", false}, {"\\p{^", false}, {"[[:", false}, {"[[:blan:]]", true}, {"[[:cntr:]]", true}, {"[[:lowe:]]", true}, {"[[:graf:]]", true}, {"[[:alnums:]]", true}, {"[[:xdigi:]]", true}, {"[[:prinz:]]", true}, {"[[:puncs:]]", true}, {"[[:spaces:]]", true}, {"[[:uppr:]]", true}, {"/", true}, {"\\pL", true}, {"[[:alpha:", false}, {"(?i", false}, {"(?i-", false}, {"[\\", false}, {"[a-", false}, {"[^", false}, {"[", false}, {"a{", false}, {"{name", false}, {"\\p{Lu", false}, {"[[:^", false}, {"[a-b", false}, {"\"\\", false}, {"[\\x", false},
            {"[^\\x0-\\xff]x{99999999999999999999}", true}, {"\\p{Foo}", true}, {"\\p{L", false}, {"[[:alpha", false}, {"[ab", false}, {"\"ab", false}, {"(?#ab", false}, {"(a", false}, {"a{2", false}, {"a{nam", false}, {"\\", false}};
        ref::GenOpt o;
        o.max = max;
        o.alphabet = ref::CS::of("abcd12-]\"*");
        const std::string names[] = {"m", "a_long-name1", "N"};
        for (int k = 0; k < 60; ++k)
        {
            const unsigned how = static_cast<unsigned>(g.below(3));
            const u64 id = g.chance(1, 2) ? g.in(1, 9) : g.in(10, 60000);
            const std::string name = names[g.below(3)];
            const std::size_t flags = NL | SUP;
            if (g.chance(1, 3))
            {
                const Text t = random_text(g, max, true);
                if (t.empty() || long_number(t)) continue;
                const Said r = say<Ch>(t, how, flags, id, name);
                if (!r.refused) continue;
                const std::string d = h::visw(t);
                c.note(d);
                names_it(c, r, how, t, d);
                c.nontrivial(h::hash_str(d) + how);
                continue;
            }
            auto good = [&]
            {
                ref::Spell sp{g, max, max > 0xff};
                Text s;
                do { sp.tail = ref::Spell::NONE; s = sp.re(ref::gen_nonnull(g, o, 8), 1); } while (s.empty());
                return U"(" + s + U")";
            };
            const Wrong& w = wrong[g.below(wrong.size())];
            const std::string ws = w.text;
            const Text bad(ws.begin(), ws.end());
            Text before;
            const u64 open = ws == ")" || ws.substr(0, 2) == "**" ? 0 : g.below(3);
            for (u64 q = 0; q < open; ++q) before += (g.chance(1, 2) ? good() : Text()) + U"(" ;
            before += good();
            if (ws == "**" || ws[0] == '{' ) before += U"a";
            Text after;
            if (w.tail) { if (g.chance(1, 2)) after = good(); else after = random_text(g, max, true); if (g.chance(1, 4)) after.clear(); }
            // a repeat or a bracket is read together with what follows it
            if (!after.empty() && (after[0] == '?' || after[0] == '*') && (ws.back() == '*' || ws.back() == '(')) after.insert(0, U"a");
            const Text t = before + bad + after;
            if (long_number(after) || long_number(before)) continue;
            const std::string d = h::visw(before) + " then wrong " + ws + " then " + h::visw(after);
            c.note(d);
            const Said r = say<Ch>(t, how, flags, id, name);
            if (!r.refused) c.fail("invalid-text-accepted", d);
            names_it(c, r, how, t, d);
            c.nontrivial(h::hash_str(d) + how);
            if (r.index < 0) continue;
            // where it is in the simplest of texts
            static std::map<std::string, Said> alone;
            const std::string key = ws + static_cast<char>(sizeof(Ch)) + static_cast<char>(how);
            const std::string first = std::string(ws == "**" || ws[0] == '{' ? "(a)a" : "(a)");
            if (!alone.count(key)) alone[key] = say<Ch>(Text(first.begin(), first.end()) + bad, how, flags, id, name);
            const Said& s = alone[key];
            const long long at = r.index - static_cast<long long>(before.size());
            if (at < 0 || at > static_cast<long long>(bad.size())) c.fail("position-elsewhere", d + ": " + h::vis(r.text));
            if (s.index - static_cast<long long>(first.size()) != at) c.fail("position-differs", d + ": " + h::vis(r.text) + ", and where it follows " + first + " only: " + h::vis(s.text));
            c.count("positions_placed");
        }
    }
    // What is almost the name of a property is refused.
    void near_names(Ctx& c)
    {
        unsigned k = 0;
        for (auto& b : ucd::near_names())
        {
            const std::string t = std::string(++k % 2 ? "a" : "[ab") + "\\p{" + (k % 3 ? "" : "^") + b + "}" + (k % 2 ? "" : "]");
            bool refused = false;
            c.note(t);
            try { Rules<char> lr(NL | SUP); lr.push(t, 1); } catch (const lexertl::runtime_error&) { refused = true; }
            if (!refused) c.fail("unknown-property-accepted", t);
            c.count("wrong_property_names");
        }
    }
    // Two repeats in a row, however they come to stand next to each other, are refused.
    void repeats(Ctx& c)
    {
        const char* ops[] = {"*", "+", "?", "{2}", "{2,}", "{1,3}", "{0,2}", "*?", "+?", "??", "{2}?", "{2,}?", "{1,3}?"};
        const char* gaps[] = {" ", "\t", "\n", " (?#c)", "(?#*)", "/**/", " /* + */ "};
        const char* heads[] = {"a", "(a)", "[ab]", "\"a\"", "(a|b)", "x(a"};
        const char* tails[] = {"", "b", "|b", "(c)", " ", "$"};
        for (auto* x : ops) for (auto* y : ops) for (auto* hd : heads) for (auto* tl : tails)
        {
            const std::string close = std::string(hd) == "x(a" ? ")" : "";
            for (int k = 0; k < 9; ++k)
            {
                Rules<char> lr(NL | SUP | WS);
                std::string t;
                bool refused = false;
                try
                {
                    if (k < 7) t = std::string(hd) + x + gaps[k] + y + close + tl;
                    else
                    {
                        // one that anchors is not bracketed
                        const std::string m = k == 7 ? std::string("^") + hd + x + close : std::string("^b|") + hd + x + close;
                        if (close.size()) continue;
                        lr.insert_macro("m", m.c_str());
                        t = std::string("{m}") + y + tl;
                    }
                    c.note(t);
                    lr.push(t, 1);
                }
                catch (const lexertl::runtime_error& e)
                {
                    refused = true;
                    if (std::string(e.what()).find("Internal") != std::string::npos) c.fail("internal-error", t + ": " + e.what());
                }
                if (!refused) c.fail("two-repeats-accepted", std::string(hd) + x + " " + y + " as " + t);
                c.count("two_repeats");
            }
        }
    }
    void messages(Ctx& c, u64 i, Rng& g)
    {
        switch (i % 4)
        {
        case 0: messages_body<char32_t>(c, g, 0x10ffff); break;
        case 1: messages_body<char16_t>(c, g, 0xffff); break;
        default: messages_body<char>(c, g, 0xff); break;
        }
    }
    void ids(Ctx& c)
    {
        Rules<char> lr(NL);
        for (std::uint16_t id : {std::uint16_t{0}, std::uint16_t{65535}})
        {
            if (clean<char>(c, [&] { lr.push("a", id); }) && id == 65535) c.fail("reserved-id", std::to_string(id));
            if (clean<char>(c, [&] { lr.push("INITIAL", "a", id, "."); })) c.fail("reserved-id", std::to_string(id));
        }
        if (clean<char>(c, [&] { lr.insert_macro("m", "{m}"); })) c.fail("macro-uses-itself", "");
        lr.insert_macro("m", "a");
        if (clean<char>(c, [&] { lr.insert_macro("m", "b"); })) c.fail("macro-redefined", "");
        // long names, deep nesting and long texts must not exhaust anything
        const std::string longname(5000, 'n');
        lr.push_state(longname.c_str());
        lr.insert_macro(longname.c_str(), "b");
        lr.push(longname.c_str(), "{" + longname + "}", 3, longname.c_str());
        std::string deep(2000, '(');
        deep += "ab" + std::string(2000, ')') + "c";
        lr.push(deep, 4);
        lr.push(std::string(3000, 'z'), 5);
        std::string alts = "q0";
        for (int k = 0; k < 1500; ++k) alts += "|" + std::string(1, static_cast<char>('b' + k % 20)) + "x";
        lr.push(alts, 6);
        Sm<char> sm;
        build(lr, sm);
        const std::string in = "abc" + std::string(3000, 'z') + "q0";
        const auto v = lex_plain(sm, in.begin(), in.end(), 10);
        if (v.size() != 4 || v[0].id != 4 || v[1].id != 5 || v[2].id != 6) c.fail("large-rules", show(v, 0));
    }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {{"ids", ids}, {"repeats", repeats}, {"near-names", near_names}}, {{"grammar", grammar}, {"anything", anything}, {"names", names}, {"messages", messages}});
}
