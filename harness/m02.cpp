// M02: the character machine agrees with the table machine.
#include "anyset.hpp"
#include <lexertl/sm_to_csm.hpp>
using namespace lx;
namespace
{
    template<class Csm>
    void disjoint(Ctx& c, const Csm& m, const std::string& desc)
    {
        for (auto& d : m._sm_vector)
            for (auto& s : d._states)
            {
                std::vector<std::pair<u64, u64>> all;
                for (auto& t : s._transitions)
                {
                    if (t.first >= d._states.size()) c.fail("transition-out-of-range", desc);
                    if (t.second._ranges.empty()) c.fail("empty-transition", desc);
                    for (auto& r : t.second._ranges) { if (r.first > r.second) c.fail("reversed-range", desc); all.push_back({r.first, r.second}); }
                }
                std::sort(all.begin(), all.end());
                for (std::size_t i = 1; i < all.size(); ++i) if (all[i].first <= all[i - 1].second) c.fail("overlapping-transitions", desc);
                if (s._eol_index != Csm::npos() && s._eol_index >= d._states.size()) c.fail("eol-out-of-range", desc);
                c.count("states_inspected");
            }
    }
    template<class Ch>
    void body(Ctx& c, u64, Rng& g, u32 max)
    {
        using Csm = lexertl::basic_char_state_machine<Ch, std::uint16_t>;
        Rules<Ch> lr(LENIENT);
        AnyOpt o;
        Any a = any_rules(g, lr, max, o);
        c.note(a.desc);
        Sm<Ch> sm;
        bool built = true, cbuilt = true;
        Csm cm, conv;
        try { build(lr, sm); } catch (const lexertl::runtime_error&) { built = false; }
        try { lexertl::basic_generator<Rules<Ch>, Csm>::build(lr, cm); } catch (const lexertl::runtime_error&) { cbuilt = false; }
        if (built != cbuilt) c.fail("only-one-builds", a.desc);
        if (!built) { c.count("not_built"); return; }
        c.count("machines");
        if (cm._sm_vector.size() != sm.data()._dfa.size()) c.fail("state-count", a.desc);
        disjoint(c, cm, a.desc);
        if (sizeof(Ch) == 1) { lexertl::sm_to_csm(sm, conv); disjoint(c, conv, a.desc); if (conv._sm_vector.size() != sm.data()._dfa.size()) c.fail("state-count", a.desc); }
        for (int k = 0; k < 8; ++k)
        {
            const Text in = any_input(g, a, 60);
            for (int st = 0; st < a.s.states; ++st)
            {
                const bool bol = g.chance(1, 2);
                const auto want = lex_of(sm, in, bol, static_cast<u64>(st));
                const std::string what = h::visw(in) + (bol ? " bol" : " mid-line") + " from state " + std::to_string(st);
                compare(c, "generated-differs", lex_csm(cm, in, bol, static_cast<u64>(st)), want, a.desc, what);
                if (sizeof(Ch) == 1) compare(c, "converted-differs", lex_csm(conv, in, bol, static_cast<u64>(st)), want, a.desc, what);
                const Stat x = stat_of(want, Sm<Ch>::traits::npos());
                c.count("matched_tokens", x.tokens);
                c.count("unknown_tokens", x.unknown);
                c.count("underflows", x.underflow);
                if (x.winners > 1) c.nontrivial(h::mix(h::hash_str(a.desc), h::hash_bytes(in.data(), in.size() * 4, static_cast<u64>(st) * 2 + bol)));
            }
        }
    }
    // The non-deterministic form: the paths spelling a text end in accepting
    // states exactly when some rule matches it, every one of them carries the
    // id of a rule that does, and one of them that of the first such rule.
    template<class Ch>
    void paths(Ctx& c, Rng& g, u32 max)
    {
        using Csm = lexertl::basic_char_state_machine<Ch, std::uint16_t, false>;
        Rules<Ch> lr(LENIENT);
        AnyOpt o;
        o.lazy = o.icase = o.noid = o.pushes = o.skip = o.bol = o.eol = false;
        Any a = any_rules(g, lr, max, o);
        c.note(a.desc);
        Csm m;
        lexertl::basic_generator<Rules<Ch>, Csm>::build(lr, m);
        c.count("path_machines");
        if (m._sm_vector.size() != static_cast<std::size_t>(a.s.states)) c.fail("state-count", a.desc);
        for (int k = 0; k < 8; ++k)
        {
            const Text in = any_input(g, a, 14);
            for (int st = 0; st < a.s.states; ++st)
                for (std::size_t from = 0; from < in.size(); from += 1 + g.below(4))
                {
                    std::set<std::size_t> at{0};
                    const auto& d = m._sm_vector[static_cast<std::size_t>(st)];
                    std::vector<ref::Pos> ends;
                    for (auto& r : a.s.flat) ends.push_back(std::find(r.states.begin(), r.states.end(), st) == r.states.end() ? ref::Pos() : ref::ends_at(r.re, in, from));
                    std::size_t ways = 0;
                    for (std::size_t p = from; p < in.size() && !at.empty(); ++p)
                    {
                        std::set<std::size_t> to;
                        for (auto q : at) for (auto& t : d._states.at(q)._transitions) for (auto& r : t.second._ranges) if (in[p] >= static_cast<u32>(r.first) && in[p] <= static_cast<u32>(r.second)) to.insert(t.first);
                        at = to;
                        ways = std::max(ways, at.size());
                        std::set<u64> ids, got;
                        long first = -1;
                        for (std::size_t i = 0; i < a.s.flat.size(); ++i) if (ends[i].test(p + 1)) { ids.insert(a.s.flat[i].id); if (first < 0) first = static_cast<long>(a.s.flat[i].id); }
                        for (auto q : at) if (d._states.at(q)._end_state) got.insert(d._states.at(q)._id);
                        const std::string what = a.desc + " text " + h::visw(Text(in.begin() + static_cast<long>(from), in.begin() + static_cast<long>(p) + 1)) + " from state " + std::to_string(st);
                        if (got.empty() != ids.empty()) c.fail(got.empty() ? "path-lost" : "path-too-many", what);
                        for (auto i : got) if (!ids.count(i)) c.fail("path-to-another-rule", what + " id " + std::to_string(i));
                        if (first >= 0 && !got.count(static_cast<u64>(first))) c.fail("path-of-first-rule-lost", what);
                        c.count("path_prefixes");
                        if (!got.empty()) c.count("path_accepts");
                    }
                    if (ways > 1) { c.count("branching_texts"); c.nontrivial(h::mix(h::hash_str(a.desc), h::hash_bytes(in.data() + from, (in.size() - from) * 4, 5))); }
                }
        }
    }
    void narrow(Ctx& c, u64 i, Rng& g) { body<char>(c, i, g, 0xff); }
    void wide(Ctx& c, u64 i, Rng& g) { if (i & 1) body<char16_t>(c, i, g, 0xffff); else body<char32_t>(c, i, g, 0x10ffff); }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {}, {{"narrow", narrow}, {"wide", wide},
        {"paths", [](Ctx& c, u64 i, Rng& g) { if (i % 3) paths<char>(c, g, 0xff); else paths<char32_t>(c, g, 0x10ffff); }}});
}
