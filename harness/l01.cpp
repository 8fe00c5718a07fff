// L01: longest match, earliest rule (narrow characters, greedy rules).
#include "lx.hpp"
#include <list>
using namespace lx;

namespace
{
    struct Gen
    {
        std::vector<Rule> rules;
        ref::GenOpt o;
    };

    template<class Id>
    void check_set(Ctx& c, Rng& g, std::vector<Rule>& rules, const ref::CS& alphabet, unsigned inputs, std::size_t maxlen)
    {
        Rules<char, Id> lr(LENIENT);
        Sm<char, Id> sm;
        u64 hsh = 0;
        std::vector<ref::P> res;
        for (auto& r : rules)
        {
            const auto t = ref::spell(r.re, g, 0xff, false, false, g.chance(1, 3));
            r.text = h::visw(t);
            hsh = h::mix(hsh, h::hash_str(r.text));
            res.push_back(r.re);
            push_rule(lr, r, t, false, false);
        }
        const std::string desc = show_rules(rules);
        c.note(desc);
        build(lr, sm);
        c.maxc("dfa_rows", sm.data()._dfa[0].size() / sm.data()._dfa_alphabet[0]);
        c.count("machines");
        for (unsigned k = 0; k < inputs; ++k)
        {
            const Text in = ref::gen_input(g, res, alphabet, maxlen, true);
            Exact<char> x(in);
            ref::Lexer L(rules, in, Sm<char, Id>::traits::npos());
            const auto want = L.all();
            std::vector<Tok> got;
            switch (k % 3)
            {
            case 0: got = lex_plain(sm, x.begin(), x.end(), in.size() + 2); break;
            case 1: { const std::string s(x.begin(), x.end()); got = lex_plain(sm, s.begin(), s.end(), in.size() + 2); break; }
            default: { const std::list<char> s(x.begin(), x.end()); got = lex_plain(sm, s.begin(), s.end(), in.size() + 2); break; }
            }
            compare(c, "token-mismatch", got, want, desc, h::visw(in));
            u64 unknown = 0, known = 0, winners = 0;
            std::set<u64> ids;
            for (auto& t : want) { if (t.id == L.npos) ++unknown; else if (t.id) { ++known; ids.insert(t.id); } }
            winners = ids.size();
            c.count("lookups", want.size());
            c.count("unknown_tokens", unknown);
            c.count("matched_tokens", known);
            if (winners >= 2) c.nontrivial(h::mix(hsh, h::hash_bytes(in.data(), in.size() * 4)));
            if (winners >= 3) c.sample(desc + " input " + h::visw(in) + " -> " + std::to_string(want.size()) + " tokens");
        }
    }

    void random_small(Ctx& c, u64 i, Rng& g)
    {
        ref::GenOpt o;
        o.alphabet = i % 3 == 0 ? ref::CS::of("ab") : i % 3 == 1 ? ref::CS::of("abcd") : ref::CS::of("a\n0-\xff");
        o.depth = 3;
        std::vector<Rule> rules;
        for (u64 k = 0, n = g.in(1, 6); k < n; ++k)
        {
            Rule r;
            r.re = ref::gen_nonnull(g, o);
            r.id = g.in(1, 4);       // ids may repeat
            r.uid = g.in(0, 3);
            rules.push_back(r);
        }
        check_set<std::uint16_t>(c, g, rules, o.alphabet, 12, 40);
    }
    // Whole byte range, large sets.
    void random_bytes(Ctx& c, u64 i, Rng& g)
    {
        ref::GenOpt o;
        o.alphabet = ref::CS(0, 255);
        o.depth = 2;
        std::vector<Rule> rules;
        for (u64 k = 0, n = g.in(1, 8); k < n; ++k)
        {
            Rule r;
            r.re = ref::gen_nonnull(g, o);
            r.id = k + 1;
            r.uid = 1000 + k;
            rules.push_back(r);
        }
        if (i & 1) check_set<std::uint32_t>(c, g, rules, o.alphabet, 8, 60);
        else check_set<std::uint64_t>(c, g, rules, o.alphabet, 8, 60);
    }
    // Many keywords, identifiers, numbers, operators: large tables, prefixes
    // of one another, overlapping classes.
    void keywords(Ctx& c, u64, Rng& g)
    {
        std::vector<Rule> rules;
        const u64 n = g.in(20, 90);
        std::set<std::string> seen;
        ref::CS letters('a', 'f'), all(32, 126);
        for (u64 k = 0; k < n; ++k)
        {
            std::string w;
            for (u64 j = 0, m = g.in(1, 7); j < m; ++j) w += static_cast<char>('a' + g.below(6));
            if (!seen.empty() && g.chance(1, 2)) { auto it = seen.begin(); std::advance(it, g.below(seen.size())); w = it->substr(0, g.in(1, it->size())) + w; }
            seen.insert(w);
            Rule r; r.re = ref::lit(w); r.id = 1 + k; r.uid = k;
            rules.push_back(r);
        }
        auto add = [&](ref::P p, u64 id) { Rule r; r.re = p; r.id = id; r.uid = 9; rules.insert(rules.begin() + static_cast<long>(g.below(rules.size() + 1)), r); };
        ref::CS idc('a', 'z'); ref::CS idn = idc; idn.add('0', '9'); idn.add('_', '_');
        if (g.chance(2, 3)) add(ref::cat({ref::set(idc), ref::rep(ref::set(idn), 0, -1)}), 500);
        if (g.chance(2, 3)) add(ref::rep(ref::set(ref::CS('0', '9')), 1, -1), 501);
        if (g.chance(2, 3)) add(ref::cat({ref::rep(ref::set(ref::CS('0', '9')), 1, -1), ref::chr('.'), ref::rep(ref::set(ref::CS('0', '9')), 0, -1)}), 502);
        if (g.chance(2, 3)) add(ref::cat({ref::chr('/'), ref::chr('*'), ref::rep(ref::set(ref::CS('*', '*').inv(0xff)), 0, -1), ref::chr('*'), ref::chr('/')}), 503);
        if (g.chance(2, 3)) add(ref::alt({ref::lit("<"), ref::lit("<="), ref::lit("<<="), ref::lit("<<")}), 504);
        check_set<std::uint16_t>(c, g, rules, all, 6, 200);
    }
    // Rules that differ only late: counted repeats and shared prefixes.
    void deep(Ctx& c, u64, Rng& g)
    {
        std::vector<Rule> rules;
        ref::CS ab = ref::CS::of("ab");
        for (u64 k = 0, n = g.in(2, 5); k < n; ++k)
        {
            Rule r;
            const int lo = static_cast<int>(g.in(1, 12)), hi = g.chance(1, 3) ? -1 : lo + static_cast<int>(g.below(8));
            ref::P body = g.chance(1, 2) ? ref::chr('a') : g.chance(1, 2) ? ref::set(ab) : ref::lit("ab");
            std::vector<ref::P> v{ref::rep(body, lo, hi)};
            if (g.chance(1, 2)) v.push_back(ref::set(g.chance(1, 2) ? ab : ref::CS('b', 'b')));
            if (g.chance(1, 3)) v.insert(v.begin(), ref::rep(ref::set(ab), 0, g.chance(1, 2) ? -1 : 3));
            r.re = ref::cat(v);
            r.id = k + 1;
            rules.push_back(r);
        }
        check_set<std::uint16_t>(c, g, rules, ab, 10, 60);
    }
}

int main(int argc, char** argv)
{
    return h::run(argc, argv, {}, {{"small", random_small}, {"bytes", random_bytes}, {"keywords", keywords}, {"deep", deep}});
}
