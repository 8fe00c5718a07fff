// L05: lexer states, pushes, pops.
#include "lexgen.hpp"
using namespace lx;
namespace
{
    template<class Ch, class Id>
    void states(Ctx& c, u64 i, Rng& g, u32 max)
    {
        Cfg f;
        f.max = f.o.max = max;
        f.states = static_cast<int>(g.in(2, 5));
        f.jumps = true;
        f.pushes = i % 3 != 0;
        f.skip = g.chance(1, 4);
        f.noid = g.chance(1, 3);
        f.bol = g.chance(1, 5);
        f.min_rules = 3;
        f.max_rules = 10;
        f.max_weight = 8;
        f.o.alphabet = g.chance(1, 2) ? ref::CS::of("ab") : ref::CS::of("abc<>");
        f.o.depth = 1;
        Set s = gen_rules(g, f);
        check_set<Ch, Id>(c, g, s, f, 14, 50, true, [&](const Text&, const std::vector<Tok>& want, const Stat& x)
        {
            // how deep the stack got and what happened, by replaying the model
            c.count("tokens_changing_state", [&] { u64 n = 0; for (std::size_t k = 1; k < want.size(); ++k) n += want[k].state != want[k - 1].state; return n; }());
            return x.states >= 2 && x.tokens >= 3;
        });
    }
    void narrow_case(Ctx& c, u64 i, Rng& g)
    {
        if (i % 5 == 4) states<char, std::uint32_t>(c, i / 5, g, 0xff);
        else states<char, std::uint16_t>(c, i, g, 0xff);
    }
    void wide_case(Ctx& c, u64 i, Rng& g) { states<char32_t, std::uint16_t>(c, i, g, 0x10ffff); }

    // Nested brackets: the stack depth must be exact.
    void nesting(Ctx& c, u64, Rng& g)
    {
        std::vector<Rule> rules;
        auto add = [&](const char* re, u64 id, std::vector<int> st) -> Rule&
        {
            Rule r; r.re = ref::lit(re); r.id = id; r.uid = id + 10; r.states = st;
            rules.push_back(r);
            return rules.back();
        };
        // INITIAL ( ALPHA [ B_2, each closing pops; x everywhere
        { Rule& r = add("(", 1, {0, 1, 2}); r.push = true; r.exit = 1; }
        { Rule& r = add("[", 2, {0, 1, 2}); r.push = true; r.exit = 2; if (g.chance(1, 2)) r.push_state = static_cast<int>(g.below(3)); }
        { Rule& r = add(")", 3, {1}); r.pop = true; }
        { Rule& r = add("]", 4, {2}); r.pop = true; }
        if (g.chance(1, 2)) { Rule& r = add("}", 5, {0, 1, 2}); r.pop = true; }
        { Rule& r = add("{", 0, {0, 1, 2}); r.noid = true; r.uid = 0; r.push = true; r.exit = static_cast<int>(g.below(3)); }
        add("x", 7, {0, 1, 2});
        add("y", 8, {static_cast<int>(g.below(3))}).exit = static_cast<int>(g.below(3));
        Rules<char> lr(LENIENT);
        Sm<char> sm;
        for (int i = 1; i < 3; ++i) lr.push_state(state_name(i).c_str());
        for (auto& r : rules)
        {
            const auto t = ref::spell(r.re, g, 0xff, false);
            r.text = h::visw(t);
            push_rule(lr, r, t, true, r.states.size() == 3 && g.chance(1, 2));
        }
        build(lr, sm);
        const std::string desc = show_rules(rules);
        for (int k = 0; k < 20; ++k)
        {
            Text in;
            int depth = 0, deepest = 0;
            const u64 len = g.in(1, 200);
            while (in.size() < len)
            {
                const char* alpha = g.chance(1, 2) ? "([x{" : g.chance(1, 8) ? ")]}yz" : ")]x";
                const char ch = alpha[g.below(std::strlen(alpha))];
                in += static_cast<char32_t>(ch);
                depth += ch == '(' || ch == '[' || ch == '{' ? 1 : 0;
                deepest = std::max(deepest, depth);
            }
            ref::Lexer L(rules, in, Sm<char>::traits::npos());
            const auto want = L.all(2 * in.size() + 4);
            Exact<char> x(in);
            lexertl::recursive_match_results<const char*> r(x.begin(), x.end());
            const auto got = lex_with(sm, r, x.begin(), 2 * in.size() + 4);
            std::vector<Tok> a = got, b = want;
            for (auto* v : {&a, &b}) for (auto& t : *v) t.bol = false;
            compare(c, "token-mismatch", a, b, desc, h::visw(in));
            if (!want.empty() && !want.back().underflow)
            {
                // the stack holds exactly the pushed and not yet popped states
                if (r.stack.size() != L.stack.size()) c.fail("stack-depth", desc + " " + h::visw(in) + " depth " + std::to_string(r.stack.size()) + " expected " + std::to_string(L.stack.size()));
                for (std::size_t d = L.stack.size(); d > 0; --d)
                {
                    if (r.stack.top().first != L.stack[d - 1].first) c.fail("stack-state", desc + " " + h::visw(in));
                    r.stack.pop();
                }
                c.maxc("stack_depth", L.stack.size());
            }
            else c.count("underflows");
            c.count("lookups", want.size());
            if (want.size() > 5) c.nontrivial(h::mix(h::hash_str(desc), h::hash_bytes(in.data(), in.size() * 4, 3)));
        }
    }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {}, {{"narrow", narrow_case}, {"wide", wide_case}, {"nesting", nesting}});
}
