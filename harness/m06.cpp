// M06: the dump of a set of rules, read back as the same rules.
#include "anyset.hpp"
#include <lexertl/debug.hpp>
using namespace lx;
namespace
{
    using U = std::u32string;
    struct Bad { std::string why; };
    template<class Ch> constexpr u32 top() { return static_cast<u32>(lexertl::basic_char_traits<Ch>::max_val()); }
    template<class S> U wide(const S& s) { U u; for (auto ch : s) u += static_cast<char32_t>(static_cast<typename std::make_unsigned<typename lexertl::basic_char_traits<typename S::value_type>::index_type>::type>(ch)); return u; }
    U wd(const std::string& s) { return U(s.begin(), s.end()); }
    bool starts(const U& s, const U& p) { return s.compare(0, p.size(), p) == 0; }

    struct Line { U state, text, push, begin; bool pushes = false, pop = false; u64 id = 0; };
    struct File { std::vector<U> states; std::vector<std::pair<U, U>> macros; std::vector<Line> rules; };

    U word(const U& s, std::size_t& at, char32_t end)
    {
        const auto e = s.find(end, at);
        if (e == s.npos || e == at) throw Bad{"name expected"};
        U n = s.substr(at, e - at);
        at = e + 1;
        return n;
    }
    // The first space that is neither escaped nor in a set.
    std::size_t blank(const U& s, std::size_t at)
    {
        for (bool in = false; at < s.size(); ++at)
        {
            if (s[at] < 32 || s[at] > 126) throw Bad{"unprintable character"};
            if (s[at] == '\\') ++at;
            else if (s[at] == '[') in = true;
            else if (s[at] == ']') in = false;
            else if (s[at] == ' ' && !in) return at;
        }
        throw Bad{"no space"};
    }
    File read(const U& t)
    {
        File f;
        int part = 0;
        std::size_t b = 0;
        if (t.empty() || t.back() != '\n') throw Bad{"no newline at the end"};
        while (b < t.size())
        {
            const auto e = t.find(U'\n', b);
            U l = t.substr(b, e - b);
            b = e + 1;
            try
            {
            if (part == 3) throw Bad{"text after the end"};
            if (l == U"%%") { ++part; continue; }
            if (part == 0)
            {
                if (!starts(l, U"%x ") || !f.states.empty()) throw Bad{"declaration expected"};
                l += U' ';
                for (std::size_t at = 3; at < l.size();) f.states.push_back(word(l, at, U' '));
            }
            else if (part == 1)
            {
                std::size_t at = 0;
                U n = word(l, at, U' ');
                if (at == l.size()) throw Bad{"empty macro"};
                f.macros.push_back({n, l.substr(at)});
            }
            else
            {
                Line r;
                std::size_t at = 0;
                if (starts(l, U"<")) { at = 1; r.state = word(l, at, U'>'); }
                const auto e2 = blank(l, at);
                r.text = l.substr(at, e2 - at);
                U a = l.substr(e2);
                if (!starts(a, U" {") || a.size() < 4 || a.substr(a.size() - 2) != U" }") throw Bad{"action expected"};
                a = a.substr(2, a.size() - 4);
                auto eat = [&](const U& what)
                {
                    std::size_t k = 0;
                    while (k < a.size() && a[k] == ' ') ++k;
                    if (a.compare(k, what.size(), what)) return false;
                    a.erase(0, k + what.size());
                    return true;
                };
                auto arg = [&] { std::size_t k = 0; U n = word(a, k, U')'); a.erase(0, k); if (!eat(U";")) throw Bad{"semicolon expected"}; return n; };
                if (eat(U"BEGIN(")) r.begin = arg();
                if (eat(U"yy_push_state(")) { r.push = arg(); r.pushes = true; }
                else if (eat(U"yy_pop_state(")) { r.pop = true; if (!eat(U");")) throw Bad{"semicolon expected"}; if (!r.begin.empty()) throw Bad{"jump and pop"}; }
                if (eat(U"return"))
                {
                    while (!a.empty() && a[0] == ' ') a.erase(0, 1);
                    std::size_t k = 0;
                    for (; k < a.size() && a[k] >= '0' && a[k] <= '9'; ++k) r.id = r.id * 10 + (a[k] - '0');
                    if (!k) throw Bad{"number expected"};
                    a.erase(0, k);
                    if (!eat(U";")) throw Bad{"semicolon expected"};
                    if (!r.id) throw Bad{"returned nothing"};
                }
                if (a.find_first_not_of(U' ') != a.npos) throw Bad{"text left over"};
                f.rules.push_back(r);
            }
            }
            catch (const Bad& w) { throw Bad{w.why + " in line " + h::visw(l)}; }
        }
        if (part != 3) throw Bad{"part missing"};
        return f;
    }
    template<class Ch, class Id>
    void push(Ctx& c, Rules<Ch, Id>& lr, const File& f)
    {
        for (auto& s : f.states) lr.push_state(ref::to<Ch>(s).c_str());
        for (auto& m : f.macros) lr.insert_macro(ref::to<Ch>(m.first).c_str(), ref::to<Ch>(m.second));
        for (auto& r : f.rules)
        {
            const auto t = ref::to<Ch>(r.text);
            if (r.state.empty())
            {
                if (!r.begin.empty() || r.pushes || r.pop) throw Bad{"action without a state"};
                if (r.id) lr.push(t, static_cast<Id>(r.id));
                else lr.push(nm<Ch>("INITIAL").c_str(), t, nm<Ch>(".").c_str());
                continue;
            }
            U exit;
            if (r.pop) exit = U"<";
            else if (r.pushes) exit = U">" + r.push + U":" + (r.begin.empty() ? r.state : r.begin);
            else exit = r.begin.empty() ? U"." : r.begin;
            const auto st = ref::to<Ch>(r.state), x = ref::to<Ch>(exit);
            if (r.id) lr.push(st.c_str(), t, static_cast<Id>(r.id), x.c_str());
            else lr.push(st.c_str(), t, x.c_str());
        }
        c.count("rules_read", f.rules.size());
        c.count("macros_read", f.macros.size());
    }
    template<class Ch, class Id>
    U dump(Rules<Ch, Id>& lr, Ctx& c, Rng& g)
    {
        std::basic_ostringstream<Ch> o;
        if (g.chance(1, 3)) o.imbue(grouping());
        const World w(c, g);
        lexertl::basic_debug<Sm<Ch, Id>, Ch, Id>::dump(lr, o);
        return wide(o.str());
    }
    // The rules as dumped and read; nothing if the machine cannot be built.
    template<class Ch, class Id>
    bool again(Ctx& c, Rng& g, Rules<Ch, Id>& lr, const std::string& desc, Sm<Ch, Id>& a, Sm<Ch, Id>& b, File& f)
    {
        const U t = dump(lr, c, g);
        if (t != dump(lr, c, g)) c.fail("dump-not-repeatable", desc);
        try { f = read(t); }
        catch (const Bad& w) { c.fail("unreadable-dump", desc + ": " + w.why); }
        Rules<Ch, Id> back(LENIENT);
        try { push(c, back, f); }
        catch (const Bad& w) { c.fail("unreadable-dump", desc + ": " + w.why); }
        catch (const lexertl::runtime_error& w) { c.fail("dump-refused", desc + ": " + w.what() + " dump " + h::visw(t)); }
        bool ra = false, rb = false;
        try { build(lr, a); } catch (const lexertl::runtime_error&) { ra = true; }
        try { build(back, b); } catch (const lexertl::runtime_error&) { rb = true; }
        if (ra != rb) c.fail("dump-changes-acceptance", desc + " dump " + h::visw(t));
        if (f.states.size() + 1 != lr.statemap().size()) c.fail("states-differ", desc);
        for (std::size_t i = 0; i < f.states.size(); ++i)
            if (f.states[i] != wide(std::basic_string<Ch>(lr.state(static_cast<Id>(i + 1))))) c.fail("state-name", desc);
        // each rule, its id and lexer states
        std::size_t n = 0;
        for (std::size_t s = 0; s < lr.ids().size(); ++s)
            for (std::size_t k = 0; k < lr.ids()[s].size(); ++k, ++n)
            {
                if (n >= f.rules.size()) c.fail("rules-missing", desc);
                if (f.rules[n].id != static_cast<u64>(lr.ids()[s][k])) c.fail("id-differs", desc + " dump " + h::visw(t));
                if (s >= back.ids().size() || k >= back.ids()[s].size() || back.next_dfas()[s][k] != lr.next_dfas()[s][k] || back.pushes()[s][k] != lr.pushes()[s][k] || back.pops()[s][k] != lr.pops()[s][k])
                    c.fail("exit-differs", desc + " dump " + h::visw(t));
            }
        if (n != f.rules.size()) c.fail("rules-added", desc + " dump " + h::visw(t));
        c.count("dumps_read");
        return !ra;
    }
    template<class Ch, class Id>
    void lex(Ctx& c, const Sm<Ch, Id>& a, const Sm<Ch, Id>& b, const Text& in, bool bol, u64 st, const std::string& desc, u64 salt)
    {
        auto x = lex_of(a, in, bol, st), y = lex_of(b, in, bol, st);
        for (auto* v : {&x, &y}) for (auto& t : *v) { t.uid = 0; }
        compare(c, "dumped-rules-differ", y, x, desc, h::visw(in) + (bol ? " bol" : " mid-line") + " from state " + std::to_string(st));
        const Stat s = stat_of(x, Sm<Ch, Id>::traits::npos());
        c.count("matched_tokens", s.tokens);
        if (s.tokens) c.nontrivial(h::mix(h::hash_str(desc), h::hash_bytes(in.data(), in.size() * 4, salt)));
    }
    template<class Ch, class Id>
    void any(Ctx& c, Rng& g)
    {
        Rules<Ch, Id> lr(LENIENT);
        Any a = any_rules(g, lr, top<Ch>());
        c.note(a.desc);
        Sm<Ch, Id> x, y;
        File f;
        if (!again(c, g, lr, a.desc, x, y, f)) { c.count("not_built"); return; }
        if (a.s.states > 1) c.count("several_states");
        if (a.f.pushes) c.count("pushing_sets");
        for (int k = 0; k < 5; ++k) lex(c, x, y, any_input(g, a, 50), g.chance(1, 2), g.below(static_cast<u64>(a.s.states)), a.desc, static_cast<u64>(k));
    }
    void any_narrow(Ctx& c, u64 i, Rng& g) { if (i % 3) any<char, std::uint16_t>(c, g); else any<char, std::uint8_t>(c, g); }
    void any_wide(Ctx& c, u64 i, Rng& g)
    {
        switch (i % 4)
        {
        case 0: any<wchar_t, std::uint16_t>(c, g); break;
        case 1: any<char32_t, std::uint32_t>(c, g); break;
        default: any<char32_t, std::uint16_t>(c, g); break;
        }
    }
    // Macros: named where their tokens are found, and defined above.
    template<class Ch>
    void with_macros(Ctx& c, Rng& g)
    {
        static const char* names[] = {"m", "N", "_a", "x-1", "long_name", "d", "digit"};
        ref::GenOpt o;
        o.max = top<Ch>();
        o.alphabet = g.chance(1, 2) ? ref::CS::of("abc") : ref::CS::of("ab1 -^$\n{}|\"");
        if (o.max > 0xff) o.alphabet.add(0x100, 0x101);
        o.depth = 2;
        o.max_rep = 3;
        Rules<Ch> lr(LENIENT);
        std::vector<std::string> used;
        std::vector<ref::P> res{ref::lit("ab")};
        std::string desc;
        auto spell = [&](const ref::P& p)
        {
            ref::Spell sp{g, o.max, o.max > 0xff};
            U t = sp.re(p, 1);
            return t;
        };
        // text with some uses of the macros so far
        // (an alternative that is only a group of non-greedy alternatives is a
        // recorded finding, see nested_split: such texts have one or the other)
        const bool alike = g.chance(1, 3), counts = g.chance(1, 2), lazies = g.chance(1, 2), anchors = g.chance(1, 3);
        if (anchors) { for (const char* s : {"\n", "^ab$", "\r\n"}) res.push_back(ref::lit(s)); c.count("with_anchors"); }
        bool in_rule = false;
        if (alike) for (const char* s : {"aab", "ccb", "(aab)", "ab", "aaab", "b", "cb"}) res.push_back(ref::lit(s));
        // repeats written out, machines grow quickly: the size of what is built is bounded
        std::vector<u64> size;
        u64 grown = 0;
        auto text = [&](unsigned pieces)
        {
            U t;
            grown = 0;
            for (unsigned k = 0; k < pieces; ++k)
            {
                if (k && g.chance(1, 4) && (in_rule || !lazies)) t += U"|";
                // pieces that differ from each other in one token
                if (alike && g.chance(in_rule ? 1 : 3, 4))
                {
                    static const char* ops[] = {"*", "+", "?", "", "*?", "+?", "|", "{2}", "{3}", "{1,2}", "{2,3}", "{2,}"};
                    static const char* ends[] = {"(", ")", "\\(", "\\)"};
                    const bool plain = in_rule && g.chance(1, 4);
                    t += wd(std::string(in_rule ? ends[plain ? 2 : 0] : "") + (g.chance(3, 4) ? "a" : "c") + ops[counts ? g.in(7, 11) : g.below(7)] + "b" + (in_rule ? ends[plain ? 3 : 1] : ""));
                    c.count("pieces_alike");
                }
                else if (const u64 m = used.empty() ? 0 : g.below(used.size()); !used.empty() && g.chance(1, 2) && grown + 2 * size[m] < 25)
                {
                    t += U"{" + wd(used[m]) + U"}";
                    grown += 2 * size[m];
                    static const char* ops[] = {"", "", "", "*", "+", "?", "{2}", "{1,2}", "+?", "*?"};
                    const std::string op = ops[g.below(alike ? 6 : lazies ? 10 : 8)];
                    t += wd(op);
                    // a non-greedy repeat that ends an alternative is dropped, and what
                    // is left may then be taken for top level alternatives
                    if (op.size() == 2) t += U"a";
                    c.count("macro_uses");
                }
                else
                {
                    ref::P p;
                    do p = g.chance(1, 2) ? ref::set(ref::gen_set(g, o)) : ref::gen(g, o, 2); while (ref::weight(p) > 12 || ref::nullable(p));
                    res.push_back(p);
                    grown += ref::weight(p);
                    t += U"(" + spell(p) + U")";
                }
            }
            return t;
        };
        for (u64 k = 0, n = g.in(1, alike ? 3 : 5); k < n; ++k)
        {
            U t;
            grown = 1;
            if (g.chance(1, alike ? 8 : 3)) { ref::P p = ref::set(ref::gen_set(g, o)); ref::Spell q{g, o.max, o.max > 0xff}; q.plain = true; t = q.bracket(p->cs); }
            else t = text(alike ? 1 : static_cast<unsigned>(g.in(1, 3)));
            if (anchors && g.chance(1, 3)) t = U"^" + t;
            if (anchors && g.chance(1, 3)) t += U"$";
            // one that anchors is not bracketed where it is used
            try { lr.insert_macro(nm<Ch>(names[k]).c_str(), ref::to<Ch>(t)); }
            catch (const lexertl::runtime_error&) { if (!anchors) throw; c.count("refused"); continue; }
            used.push_back(names[k]);
            size.push_back(grown + 1);
            desc += std::string(names[k]) + "=" + h::visw(t) + " ";
        }
        in_rule = true;
        for (u64 k = 0, n = g.in(1, 4); k < n; ++k)
        {
            U t = text(static_cast<unsigned>(g.in(1, 4)));
            if (anchors && g.chance(1, 5)) t = U"^" + t;
            if (anchors && g.chance(1, 5)) t += U"$";
            desc += "rule " + h::visw(t) + " ";
            try { lr.push(ref::to<Ch>(t), static_cast<std::uint16_t>(k + 1)); }
            catch (const lexertl::runtime_error&) { c.count("refused"); }
        }
        c.note(desc);
        if (lr.empty()) return;
        Sm<Ch> x, y;
        File f;
        const bool built = again(c, g, lr, desc, x, y, f);
        std::set<U> have, want;
        for (auto& m : f.macros) have.insert(m.first);
        for (auto& m : used) want.insert(wd(m));
        if (have != want) c.fail("macros-differ", desc);
        for (auto& r : f.rules) for (auto& m : used) if (r.text.find(U"{" + wd(m) + U"}") != U::npos) c.count("macros_named_in_rules");
        if (!built) { c.count("not_built"); return; }
        for (int k = 0; k < 5; ++k) lex(c, x, y, ref::gen_input(g, res, o.alphabet, 40), g.chance(1, 2), 0, desc, static_cast<u64>(k));
    }
    void macros(Ctx& c, u64 i, Rng& g) { if (i % 3) with_macros<char>(c, g); else if (i & 1) with_macros<wchar_t>(c, g); else with_macros<char32_t>(c, g); }

    // Alternatives within alternatives
    void nested_split(Ctx& c)
    {
        Rng g(11);
        Rules<char> lr(LENIENT);
        lr.push("(a{1,2}|a*?b)|c", 1);
        Sm<char> x, y;
        File f;
        if (!again(c, g, lr, "(a{1,2}|a*?b)|c", x, y, f)) c.fail("not-built", "(a{1,2}|a*?b)|c");
        lex(c, x, y, U"aaab", false, 0, "(a{1,2}|a*?b)|c", 1);
    }
    // Every pair of characters as the text of a rule and every range of characters.
    template<int part>
    void pairs(Ctx& c)
    {
        Rng g(7);
        for (int a = part; a < 256; a += 8)
        {
            Rules<char> lr, lr2;
            auto hex = [](int v) { char s[8]; std::snprintf(s, sizeof s, "[\\x%x]", v); return std::string(s); };
            auto hx = [](int v) { char s[8]; std::snprintf(s, sizeof s, "\\x%x", v); return std::string(s); };
            for (int b = 0; b < 256; ++b)
            {
                lr.push(hex(a) + hex(b), static_cast<std::uint16_t>(b + 1));
                // sets of two, or a range of them, told apart by a further character
                const std::string s = b < a ? hx(b) + "-" + hx(a) : hx(a) + hx(b);
                lr2.push(hex(b) + "[" + s + "]", static_cast<std::uint16_t>(b + 1));
            }
            Sm<char> x, y, p, q;
            File f;
            const std::string d = "pairs with " + std::to_string(a);
            if (!again(c, g, lr, d, x, y, f) || !again(c, g, lr2, d + " in sets", p, q, f)) c.fail("not-built", d);
            for (int b = 0; b < 256; ++b)
            {
                const Text t{static_cast<char32_t>(a), static_cast<char32_t>(b)};
                const auto v = lex_of(y, t, true, 0);
                if (v.size() != 2 || v[0].id != static_cast<u64>(b + 1) || v[0].e != 2) c.fail("pair-differs", d + " " + std::to_string(b) + " " + show(v, 0));
                lex(c, x, y, t, true, 0, d, 1);
                for (int k : {0, a - 1, a, a + 1, b - 1, b, b + 1, 255})
                {
                    if (k < 0 || k > 255) continue;
                    const Text u{static_cast<char32_t>(b), static_cast<char32_t>(k)};
                    const auto w = lex_of(q, u, true, 0);
                    const bool in = b < a ? k >= b && k <= a : k == a || k == b;
                    if ((w[0].id == static_cast<u64>(b + 1) && w[0].e == 2) != in) c.fail("set-differs", d + " " + std::to_string(b) + " " + std::to_string(k) + " " + show(w, 0));
                }
            }
        }
        c.count("pairs", 65536 / 8);
    }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {{"pairs0", pairs<0>}, {"pairs1", pairs<1>}, {"pairs2", pairs<2>}, {"pairs3", pairs<3>}, {"pairs4", pairs<4>}, {"pairs5", pairs<5>}, {"pairs6", pairs<6>}, {"pairs7", pairs<7>}, {"nested-split", nested_split}}, {{"any-narrow", any_narrow}, {"any-wide", any_wide}, {"macros", macros}});
}
