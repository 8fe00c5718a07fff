// R02: equivalent spellings of a regex give equivalent lexers.
#include "lexgen.hpp"
using namespace lx;
namespace
{
    constexpr std::size_t NL = static_cast<std::size_t>(lexertl::regex_flags::dot_not_newline);
    constexpr std::size_t CRLF = static_cast<std::size_t>(lexertl::regex_flags::dot_not_cr_lf);
    constexpr std::size_t WS = static_cast<std::size_t>(lexertl::regex_flags::skip_ws);
    constexpr std::size_t SUP = static_cast<std::size_t>(lexertl::regex_flags::allow_suppressed_rules);

    ref::P dots(const ref::P& p, Rng& g, u32 max)
    {
        auto n = std::make_shared<ref::Re>(*p);
        if (n->k == ref::Re::SET && g.chance(1, 6))
        {
            n->cs = ref::CS(0, max);
            if (g.chance(2, 3)) n->cs = n->cs.minus(ref::CS('\n', '\n'));
            if (g.chance(1, 4)) n->cs = n->cs.minus(ref::CS('\r', '\r'));
        }
        for (auto& k : n->kids) k = dots(k, g, max);
        return n;
    }
    template<class Ch>
    void body(Ctx& c, u64 i, Rng& g, u32 max)
    {
        ref::GenOpt o;
        o.max = max;
        o.alphabet = i % 3 == 0 ? ref::CS::of("ab \n") : i % 3 == 1 ? ref::CS::of("a1-\"\\*/#{[(.") : ref::CS::of("abc0f789gG");
        if (max > 0xff && g.chance(1, 2)) { o.alphabet.add(0x100, 0x101); o.alphabet.add(max, max); }
        o.depth = 4;
        std::vector<Rule> rules;
        std::vector<ref::P> res;
        for (u64 k = 0, n = g.in(1, 3); k < n; ++k)
        {
            Rule r;
            r.id = k + 1;
            r.uid = k;
            do r.re = dots(ref::gen(g, o, static_cast<unsigned>(g.in(1, 4))), g, max); while (ref::nullable(r.re) || ref::weight(r.re) > 24);
            rules.push_back(r);
            res.push_back(r.re);
        }
        std::vector<Text> ins;
        ref::CS alpha = o.alphabet;
        alpha.add('\r', '\r'); alpha.add('\n', '\n');
        for (int k = 0; k < 4; ++k) ins.push_back(ref::gen_input(g, res, alpha, 50));
        std::vector<std::vector<Tok>> want;
        for (auto& in : ins)
        {
            ref::Lexer L(rules, in, Sm<Ch>::traits::npos());
            want.push_back(L.all());
            for (auto& t : want.back()) { t.bol = false; t.state = 0; }
        }
        // several spellings, each under its own global options
        for (int v = 0; v < 4; ++v)
        {
            std::size_t flags = SUP;
            bool dot_nl = false, dot_crlf = false, xm = false;
            switch (g.below(4))
            {
            case 0: dot_nl = true; break;
            case 1: flags |= CRLF; dot_crlf = true; break;
            default: flags |= NL; break;
            }
            if (g.chance(1, 3)) { flags |= WS; xm = true; }
            Rules<Ch> lr(flags);
            Sm<Ch> sm;
            for (auto& r : rules)
            {
                ref::Spell sp{g, max, max > 0xff};
                sp.dot_nl = dot_nl; sp.dot_crlf = dot_crlf; sp.xmode = xm;
                sp.scopes = true;
                sp.plain = v == 0;
                const auto t = sp.re(r.re, 0);
                c.count("scoped_groups", sp.used_scopes);
                c.count("quoted_runs", sp.used_strings);
                r.text = h::visw(t);
                push_rule(lr, r, t, false, false);
            }
            const std::string desc = show_rules(rules) + " flags=" + std::to_string(flags);
            c.note(desc);
            build(lr, sm);
            c.count("spellings");
            for (std::size_t k = 0; k < ins.size(); ++k)
            {
                Exact<Ch> x(ins[k]);
                auto got = lex_plain(sm, x.begin(), x.end(), ins[k].size() + 3);
                for (auto& t : got) { t.bol = false; t.state = 0; }
                compare(c, "spelling-changed-meaning", got, want[k], desc, h::visw(ins[k]));
                const Stat s = stat_of(want[k], Sm<Ch>::traits::npos());
                c.count("matched_tokens", s.tokens);
                c.count("unknown_tokens", s.unknown);
                if (s.tokens && s.unknown) c.nontrivial(h::mix(h::hash_str(desc), h::hash_bytes(ins[k].data(), ins[k].size() * 4)));
            }
        }
    }
    void narrow(Ctx& c, u64 i, Rng& g) { body<char>(c, i, g, 0xff); }
    void wide(Ctx& c, u64 i, Rng& g) { if (i & 1) body<char16_t>(c, i / 2, g, 0xffff); else body<char32_t>(c, i / 2, g, 0x10ffff); }

    // Operators and precedence spelled out by hand.
    void precedence(Ctx& c)
    {
        struct T { const char* re; const char* yes; const char* no; };
        static const T t[] = {
            {"ab|cd", "ab;cd", "a;b;abd;acd;abcd"}, {"ab*", "a;ab;abb", "b;abab"}, {"(ab)*c", "c;abc;ababc", "ac;abbc"},
            {"a|b*c", "a;c;bc;bbc", "ac;abc"}, {"ab{2}", "abb", "ab;abab;abbb"}, {"(ab){2}", "abab", "abb;ab"}, {"ab{2,}", "abb;abbb", "ab"},
            {"ab{2,3}", "abb;abbb", "ab;abbbb"}, {"ab{0,1}", "a;ab", "abb"}, {"ab{0,2}", "a;ab;abb", "abbb"}, {"ab{0,}c", "ac;abc;abbc", "a"}, {"ab?c", "ac;abc", "abbc"}, {"ab+c", "abc;abbc", "ac"},
            {"a|b|cd+", "a;b;cd;cdd", "ad;cdcd"}, {"(a|b)(c|d)", "ac;ad;bc;bd", "ab;cd;a"}, {"((a)|(bc))?d", "d;ad;bcd", "abcd"},
            {"\"a|b\"", "a|b", "a;b"}, {"\"a*\"b", "a*b", "aab;b"}, {"a(?#x|y)b", "ab", "a;b;axb"}, {"(?x:a b | c)", "ab;c", "a b;a"}, {"(?x:a\\ b)", "a b", "ab"},
            {"(?x:a /* c|d */ b)", "ab", "a;b;c"}, {"(?x:\"a b\")", "a b", "ab"}, {"(?x:[ ])", " ", "a"}, {"(?i:a)b", "ab;Ab", "aB;AB"}, {"a(?i:b(?-i:c)d)e", "abcde;aBcDe", "abCde;Abcde;abcdE"},
            {"(?s:.)a.", "\na.;bab", "\na\n;ba\n"}, {"(?-s:.)", "a", "\n"}, {"(a)b(?i:c)d", "abcd;abCd", "abcD;aBcd"}, {"((?i:a)b)c", "abc;Abc", "aBc;abC"},
            {"\\*+", "*;**", "a"}, {"a\"\"b", "ab", "a"}, {"\"\"a", "a", "\""}, {"[*+?]", "*;+;?", "a"}, {"(a{2}){2}", "aaaa", "aa;aaa;aaaaa"}, {"(a|bc){2}", "aa;abc;bca;bcbc", "a;bc;aaa"},
            {"(a?b){2,3}", "bb;abb;abab;bbb;ababab", "b;bbbb"}, {"x(a|)y", nullptr, nullptr}, {"()", nullptr, nullptr}, {"a||b", nullptr, nullptr}, {"|a", nullptr, nullptr}, {"a|", nullptr, nullptr},
            {"a**", nullptr, nullptr}, {"*a", nullptr, nullptr}, {"(a", nullptr, nullptr}, {"a)", nullptr, nullptr}, {"a{0}", nullptr, nullptr}, {"a{0,0}", nullptr, nullptr}, {"a{2,1}", nullptr, nullptr},
            {"a{", nullptr, nullptr}, {"a{1", nullptr, nullptr}, {"a{1,", nullptr, nullptr}, {"a{,1}", nullptr, nullptr}, {"\"a", nullptr, nullptr}, {"(?q:a)", nullptr, nullptr}, {"(?i:a", nullptr, nullptr},
            {"(?#a", nullptr, nullptr}, {"a/b", nullptr, nullptr}, {"(?x:/* a", nullptr, nullptr}, {"?", nullptr, nullptr}, {"(*a)", nullptr, nullptr}, {"a|*b", nullptr, nullptr}, {"{2}", nullptr, nullptr}, {"a+*", nullptr, nullptr}, {"a?{2}", nullptr, nullptr}};
        static const T xt[] = { // extended mode
            {"(?x:a/***/b)", "ab", "a;b"}, {"(?x:a /* one **/ b /* two */ c)", "abc", "ab;ac;a"}, {"(?x:a/* /* */b)", "ab", "a"}, {"(?x:a/*/b*/c)", "ac", "abc;a"}, {"(?x:a/****/b)", "ab", "a"},
            {"(?x:a/**/b)", "ab", "a"}, {"(?x:a /* x *//* y **/ b)", "ab", "a"}, {"(?x:a /* * / */ b)", "ab", "a"}, {"(?x:/* ) */a)", "a", ")a"}, {"(?x:a/*\n*/b)", "ab", "a"}, {"(?x:a/*\"*/b)", "ab", "a"},
            {"(?x:[/*a*/]b)", "/b;*b;ab", "b"}, {"(?x:\"/*\"a)", "/*a", "a"}, {"(?x:\\/*a)", "a;/a;//a", "/*a"}, {"(?x:a/*)", nullptr, nullptr}, {"(?x:a/*/)", nullptr, nullptr}, {"(?x:a/* *)", nullptr, nullptr},
            {"a(?#)b", "ab", "a"}, {"a(?#(x)y)b", "ab", "a;ayb"}, {"a(?#*)b", "ab", "a"}, {"(?#x)a", "a", "x"}, {"a(?#x)", "a", "x"}, {"(?#x)", nullptr, nullptr}, {"a(?#(x)b", nullptr, nullptr}, {"[(?#a)]b", "(b;?b;#b;ab;)b", "b"},
            {"a(?#x)*b", "b;aab", "a"}, {"(?x:a * b)", "b;aab", "a;a b"}, {"(?x:a /* x */ +b)", "ab;aab", "b"}, {"(?x: ( a | b ) {2} c)", "abc;bbc", "ac;ab c"}, {"(?x:a) b", "a b", "ab"}, {"(?x:a(?-x: b) c)", "a bc", "abc;a b c"}};
        std::vector<T> all(std::begin(t), std::end(t));
        all.insert(all.end(), std::begin(xt), std::end(xt));
        for (auto& x : all)
        {
            Rules<char> lr(static_cast<std::size_t>(lexertl::regex_flags::dot_not_newline));
            Sm<char> sm;
            bool threw = false;
            try { lr.push(x.re, 1); build(lr, sm); } catch (const lexertl::runtime_error&) { threw = true; }
            c.count("hand_written");
            if (threw != (x.yes == nullptr)) c.fail(threw ? "valid-regex-rejected" : "invalid-regex-accepted", x.re);
            if (threw) continue;
            for (int w = 0; w < 2; ++w)
            {
                std::stringstream s(w ? x.no : x.yes);
                std::string e;
                while (std::getline(s, e, ';'))
                {
                    const auto v = lex_plain(sm, e.data(), e.data() + e.size(), 50);
                    const bool whole = v.size() == 2 && v[0].id == 1;
                    if (whole == (w == 1)) c.fail("wrong-meaning", std::string(x.re) + (w ? " matches " : " does not match ") + h::vis(e));
                }
            }
        }
    }
    // Repeat counts of every size.
    void counts(Ctx& c, u64 i, Rng& g)
    {
        auto some = [&] { const int at[] = {1, 2, 3, 4, 8, 10, 16, 63, 99, 127, 128, 254, 255, 256, 257, 299, 300, 511, 512}; return at[g.below(i % 8 ? 8 : 19)] + static_cast<int>(g.below(2)); };
        int lo = g.chance(1, 6) ? 0 : some(), hi = g.chance(1, 4) ? -1 : g.chance(1, 4) ? lo : g.chance(3, 4) ? lo + static_cast<int>(g.in(1, 4)) : static_cast<int>(g.below(24));
        // a wide gap is slow to build
        if (i < 4) { const int wide[][2] = {{1, 257}, {2, 258}, {45, 301}, {0, 256}}; lo = wide[i][0]; hi = wide[i][1]; }
        const bool bad = (hi >= 0 && hi < lo) || hi == 0;
        const bool group = lo < 100 && hi < 100 && g.chance(1, 3);
        const std::string unit = group ? "ab" : "a", z(g.below(3), '0');
        std::string re = (group ? "(ab)" : "a") + std::string("{") + z + std::to_string(lo);
        if (hi < 0) re += ",";
        else if (hi != lo || g.chance(1, 2)) re += "," + z + std::to_string(hi);
        re += "}";
        const bool tail = lo == 0 || g.chance(1, 2);
        if (tail) re += "c";
        c.note(re);
        Rules<char> lr;
        Sm<char> sm;
        bool threw = false;
        try { lr.push(re, 1); } catch (const lexertl::runtime_error&) { threw = true; }
        if (threw != bad) c.fail(bad ? "invalid-regex-accepted" : "valid-regex-rejected", re);
        c.count("counts");
        if (bad) return;
        build(lr, sm);
        std::set<int> ns;
        for (int b : {0, lo, hi < 0 ? lo + 40 : hi}) for (int d = -2; d <= 2; ++d) if (b + d >= 0) ns.insert(b + d);
        for (int k = 0; k < 4; ++k) ns.insert(static_cast<int>(g.below(static_cast<u64>((hi < 0 ? lo : hi) + 10))));
        for (int n : ns)
        {
            std::string in;
            for (int k = 0; k < n; ++k) in += unit;
            if (tail) in += 'c';
            if (in.empty()) continue;
            const bool want = n >= lo && (hi < 0 || n <= hi);
            const auto v = lex_plain(sm, in.data(), in.data() + in.size(), 1);
            if ((v[0].id == 1 && v[0].e == in.size()) != want) c.fail("wrong-count", re + (want ? " does not match " : " matches ") + std::to_string(n));
            c.count("counts_probed");
        }
        c.nontrivial(h::hash_str(re));
    }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {{"precedence", precedence}}, {{"narrow", narrow}, {"wide", wide}, {"counts", counts}});
}
