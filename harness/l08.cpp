// L08: results that track only what the machine needs; characters left to the caller.
#include "lexgen.hpp"
using namespace lx;
namespace
{
    constexpr std::size_t ADV = +lexertl::feature_bit::advance, REC = +lexertl::feature_bit::recursive,
        BOL = +lexertl::feature_bit::bol;

    std::set<u64>& seen() { static std::set<u64> s; return s; }
    struct Out { std::vector<Tok> v; std::size_t left = 0; };

    // Lexes to the end; without `advance` it is the caller who passes a character no rule matches.
    template<bool advance, class S, class Res, class It>
    Out drive(Ctx& c, const S& sm, Res& r, const It& b, std::size_t limit, const std::string& what)
    {
        Out o;
        while (o.v.size() < limit)
        {
            const std::size_t from = static_cast<std::size_t>(std::distance(b, r.second));
            Tok t = one(sm, r, b);
            if (!t.underflow && t.id == Res::npos() && !advance)
            {
                if (t.b != t.e || r.first != r.second || t.b < from) c.fail("not-left-to-the-caller", what + " " + ref::show(t));
                if (r.second == r.eoi) c.fail("unknown-at-the-end", what);
                ++r.second;
                ++t.e;
                ++o.left;
            }
            o.v.push_back(t);
            if (t.underflow || t.id == 0) break;
        }
        return o;
    }

    template<std::size_t F, class S, class It>
    Out plain(Ctx& c, const S& sm, const It& b, const It& e, bool bol, u64 st, std::size_t limit, const std::string& what)
    {
        lexertl::match_results<It, typename S::id_type, F> r(b, e, bol, static_cast<typename S::id_type>(st));
        return drive<(F & ADV) != 0>(c, sm, r, b, limit, what);
    }
    template<std::size_t F, class S, class It>
    Out stacked(Ctx& c, const S& sm, const It& b, const It& e, bool bol, u64 st, std::size_t limit, const std::string& what)
    {
        lexertl::recursive_match_results<It, typename S::id_type, F> r(b, e, bol, static_cast<typename S::id_type>(st));
        return drive<(F & ADV) != 0>(c, sm, r, b, limit, what);
    }
    template<class S, class It>
    using Fn = Out (*)(Ctx&, const S&, const It&, const It&, bool, u64, std::size_t, const std::string&);

    // Results with a stack track the lexer state too. Number k: bits 0-4 the features, bit 5 advance.
    template<class S, class It, std::size_t... k>
    std::pair<std::vector<Fn<S, It>>, std::vector<Fn<S, It>>> table(std::index_sequence<k...>)
    {
        return {{&plain<(k & 31) | (k & 32 ? ADV : 0), S, It>...}, {&stacked<(k & 31) | (k & 32 ? ADV : 0) | REC | +lexertl::feature_bit::multi_state, S, It>...}};
    }

    template<class Ch>
    void run(Ctx& c, u64 i, Rng& g, u32 max)
    {
        using S = Sm<Ch>;
        using It = const Ch*;
        static const auto T = table<S, It>(std::make_index_sequence<64>());
        Cfg f;
        f.max = f.o.max = max;
        f.bol = i & 1;
        f.eol = i & 2;
        f.nl_sets = f.eol;
        f.skip = i & 4;
        f.noid = i & 8;
        f.states = i & 16 ? static_cast<int>(g.in(2, 3)) : 1;
        f.jumps = f.states > 1;
        f.pushes = f.states > 1 && (i & 32);
        f.o.alphabet = g.chance(1, 2) ? ref::CS::of("ab") : ref::CS::of("abc\n");
        f.o.depth = 2;
        f.min_rules = 2;
        Set s = gen_rules(g, f);
        Rules<Ch> lr(LENIENT);
        S sm;
        push_set(g, lr, s, max);
        const std::string desc = show_rules(s.pushed);
        c.note(desc);
        build(lr, sm);
        const std::size_t M = sm.data()._features;
        const bool rec = (M & REC) != 0;
        c.count("machines");
        u64 hs = h::hash_str(desc);
        for (unsigned k = 0; k < 4; ++k)
        {
            const Text in = ref::gen_input(g, s.res, f.o.alphabet, 40, true);
            const bool bol = !g.chance(1, 4);
            const int st = g.chance(1, 4) ? static_cast<int>(g.below(static_cast<u64>(f.states))) : 0;
            const std::size_t limit = 2 * in.size() + 4;
            ref::Lexer L(s.flat, in, S::traits::npos(), bol, st);
            const auto want = L.all(limit);
            Exact<Ch> x(in);
            const std::string where = h::visw(in) + (bol ? " bol" : " mid-line") + " from state " + std::to_string(st);
            u64 tokens = 0, left = 0;
            for (std::size_t F = 0; F < 64; ++F)
            {
                if ((F & 31 & M) != (M & 31)) continue;
                // the plain results, and those with a stack
                for (int kind = rec; kind < 2; ++kind)
                {
                    const std::string how = (kind ? "stack, features " : "features ") + std::to_string(F & 31) + (F & 32 ? ", advancing " : ", not advancing ");
                    Out o = (kind ? T.second : T.first)[F](c, sm, x.begin(), x.end(), bol, static_cast<u64>(st), limit, desc + how + where);
                    auto a = want;
                    const bool tracked = (F & M & BOL) != 0;
                    if (!tracked) for (auto* v : {&a, &o.v}) for (auto& t : *v) t.bol = false;
                    if (f.states == 1) for (auto& t : a) t.state = o.v.empty() ? 0 : t.state;
                    compare(c, "token-mismatch", o.v, a, desc, how + where);
                    c.count(kind ? "stack_runs" : "plain_runs");
                    if ((F & 31) == (M & 31)) c.count("exact_feature_runs");
                    for (auto& t : o.v) tokens += t.id && t.id != S::traits::npos();
                    left += o.left;
                    seen().insert(h::mix(F * 2 + kind, 99));
                }
            }
            c.count("matched_tokens", tokens);
            c.count("characters_left_to_the_caller", left);
            if (tokens && left) c.nontrivial(h::mix(hs, h::hash_bytes(in.data(), in.size() * 4, 31)));
        }
        c.maxc("feature_sets_and_kinds", seen().size());
    }
    void narrow_case(Ctx& c, u64 i, Rng& g) { run<char>(c, i, g, 0xff); }
    void wide_case(Ctx& c, u64 i, Rng& g) { run<char16_t>(c, i, g, 0xffff); }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {}, {{"narrow", narrow_case}, {"wide", wide_case}});
}
