// L06: skip and continuation rules.
#include "lexgen.hpp"
using namespace lx;
namespace
{
    template<class Ch>
    void flow(Ctx& c, u64 i, Rng& g, u32 max)
    {
        Cfg f;
        f.max = f.o.max = max;
        f.states = i % 3 == 0 ? 1 : static_cast<int>(g.in(2, 3));
        f.jumps = f.states > 1;
        f.pushes = f.states > 1 && g.chance(1, 3);
        f.skip = i % 2 == 0 || g.chance(1, 2);
        f.noid = i % 2 == 1 || g.chance(1, 2);
        f.bol = g.chance(1, 3);
        f.eol = g.chance(1, 4);
        f.nl_rules = g.chance(1, 2);
        f.min_rules = 2;
        f.max_rules = 7;
        f.max_weight = 12;
        f.o.alphabet = g.chance(1, 2) ? ref::CS::of("ab") : ref::CS::of("abc ");
        f.o.depth = 2;
        Set s = gen_rules(g, f);
        check_set<Ch, std::uint16_t>(c, g, s, f, 16, 50, true, [&](const Text&, const std::vector<Tok>& want, const Stat& x)
        {
            u64 gaps = 0, joined = 0;
            for (std::size_t k = 1; k < want.size(); ++k)
                if (want[k].b > want[k - 1].e) ++gaps;
            for (auto& t : want) if (!t.underflow && t.e - t.b > 1) ++joined;
            c.count("skipped_stretches", gaps);
            return x.tokens >= 2 && (gaps || joined);
        });
    }
    void narrow_case(Ctx& c, u64 i, Rng& g) { flow<char>(c, i, g, 0xff); }
    void wide_case(Ctx& c, u64 i, Rng& g) { flow<char16_t>(c, i, g, 0xffff); }

    // The usual idiom: a string or comment collected piece by piece.
    void comment(Ctx& c, u64, Rng& g)
    {
        std::vector<Rule> rules;
        auto add = [&](ref::P re, u64 id, std::vector<int> st) -> Rule&
        {
            Rule r; r.re = re; r.id = id; r.uid = id + 10; r.states = st; if (!id) { r.noid = true; r.uid = 0; }
            rules.push_back(r);
            return rules.back();
        };
        ref::CS any(0, 0xff);
        const bool skip = g.chance(1, 2);
        add(ref::lit("/*"), 0, {0}).exit = 1;
        if (g.chance(1, 2)) add(ref::rep(ref::set(any.minus(ref::CS('*', '*'))), 1, -1), 0, {1});
        add(ref::set(any), 0, {1});
        { Rule& r = add(ref::lit("*/"), 5, {1}); r.exit = 0; if (skip) { r.skip = true; r.id = 0; } }
        add(ref::rep(ref::set(ref::CS::of("ab*/")), 1, g.chance(1, 2) ? -1 : 1), 6, {0});
        { Rule& r = add(ref::rep(ref::set(ref::CS::of(" \n")), 1, -1), 7, {0}); if (g.chance(2, 3)) { r.skip = true; r.id = 0; } }
        Rules<char> lr(LENIENT);
        Sm<char> sm;
        lr.push_state(state_name(1).c_str());
        for (auto& r : rules)
        {
            const auto t = ref::spell(r.re, g, 0xff, false);
            r.text = h::visw(t);
            push_rule(lr, r, t, true, false);
        }
        build(lr, sm);
        const std::string desc = show_rules(rules);
        const ref::CS alpha = ref::CS::of("ab */\n");
        for (int k = 0; k < 20; ++k)
        {
            const Text in = ref::gen_input(g, {ref::lit("/*"), ref::lit("*/"), ref::lit("a b"), ref::lit("**")}, alpha, 60, true);
            ref::Lexer L(rules, in, Sm<char>::traits::npos());
            const auto want = L.all(2 * in.size() + 4);
            const auto got = lex_kind<char>(g, sm, in, true, 0);
            std::vector<Tok> a = got, b = want;
            for (auto* v : {&a, &b}) for (auto& t : *v) t.bol = false;
            compare(c, "token-mismatch", a, b, desc, h::visw(in));
            const Stat x = stat_of(want, Sm<char>::traits::npos());
            c.count("lookups", want.size());
            c.count("matched_tokens", x.tokens);
            if (x.tokens > 1) c.nontrivial(h::mix(h::hash_str(desc), h::hash_bytes(in.data(), in.size() * 4, 3)));
        }
    }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {}, {{"narrow", narrow_case}, {"wide", wide_case}, {"comment", comment}});
}
