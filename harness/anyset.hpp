// Random machines using any mixture of features, for properties that compare
// a machine with something derived from it.
#pragma once
#include "lexgen.hpp"

namespace lx
{
    inline ref::P lazify(const ref::P& p, Rng& g)
    {
        auto n = std::make_shared<ref::Re>(*p);
        if (n->k == ref::Re::REP && g.chance(1, 2)) n->greedy = false;
        for (auto& k : n->kids) k = lazify(k, g);
        return n;
    }

    struct Any
    {
        Set s;
        Cfg f;
        std::string desc;
        bool lazy = false;
        std::size_t flags = 0;
    };
    struct AnyOpt
    {
        bool pushes = true, noid = true, states = true, lazy = true, eol = true, bol = true, skip = true, icase = true;
        unsigned max_rules = 5;
        u64 weight = 24;
        bool controls = true;  // control and high characters in the alphabet
    };

    // Fills the rules; the caller builds. Every feature is present in about half
    // of the sets.
    template<class R>
    Any any_rules(Rng& g, R& lr, u32 max, const AnyOpt& o = AnyOpt())
    {
        Any a;
        Cfg& f = a.f;
        f.max = max;
        f.o.max = max;
        switch (g.below(4))
        {
        case 0: f.o.alphabet = ref::CS::of("ab"); break;
        case 1: f.o.alphabet = ref::CS::of("abcd01"); break;
        case 2: f.o.alphabet = o.controls ? ref::CS::of(std::string("a \t\"\\'?%-]^\x7f\0z", 14)) : ref::CS::of("a-z?"); break;
        default: f.o.alphabet = ref::CS('a', 'z'); f.o.alphabet.add('A', 'Z'); break;
        }
        if (o.controls && g.chance(1, 4)) { f.o.alphabet.add(0x80, 0x81); f.o.alphabet.add(0xfe, 0xff); }
        if (max > 0xff) { f.o.alphabet.add(0xff, 0x102); if (g.chance(1, 2)) f.o.alphabet.add(max - 1, max); if (max > 0xffff && g.chance(1, 2)) f.o.alphabet.add(0xffff, 0x10001); }
        f.bol = o.bol && g.chance(1, 2);
        f.eol = o.eol && g.chance(1, 2);
        f.states = o.states && g.chance(1, 2) ? static_cast<int>(g.in(2, 4)) : 1;
        f.jumps = f.states > 1;
        f.pushes = o.pushes && g.chance(1, 2);
        f.skip = o.skip && g.chance(1, 2);
        f.noid = o.noid && g.chance(1, 3);
        f.nl_rules = g.chance(1, 2);
        f.nl_sets = g.chance(1, 3);
        f.branches = g.chance(1, 3);
        f.max_rules = o.max_rules;
        f.max_weight = o.weight;
        if (f.nl_sets) f.o.alphabet.add('\n', '\n');
        a.s = gen_rules(g, f);
        a.lazy = o.lazy && g.chance(1, 4);
        if (a.lazy)
            for (auto& p : a.s.parts) for (auto& r : p) if (g.chance(1, 2)) r.re = ref::cat({lazify(r.re, g), ref::set(ref::CS('a', 'a'))});
        a.flags = LENIENT;
        if (o.icase && g.chance(1, 6)) a.flags |= static_cast<std::size_t>(lexertl::regex_flags::icase);
        lr.flags(a.flags);
        const Rng at = g;
        // the other case of all characters can leave a negated set empty
        try { push_set(g, lr, a.s, f.max); }
        catch (const lexertl::runtime_error&)
        {
            if (a.flags == LENIENT) throw;
            g = at;
            a.flags = LENIENT;
            lr.clear();
            lr.flags(a.flags);
            push_set(g, lr, a.s, f.max);
        }
        a.desc = show_rules(a.s.pushed) + " flags=" + std::to_string(a.flags);
        f.o.alphabet.add('\n', '\n');
        return a;
    }
    inline Text any_input(Rng& g, const Any& a, std::size_t maxlen)
    {
        return ref::gen_input(g, a.s.res, a.f.o.alphabet, maxlen, true);
    }

    template<class S>
    std::vector<Tok> lex_of(const S& sm, const Text& in, bool bol, u64 st)
    {
        using Ch = typename S::traits::input_char_type;
        Exact<Ch> x(in);
        const bool rec = (sm.data()._features & +lexertl::feature_bit::recursive) != 0;
        const std::size_t lim = 2 * in.size() + 4;
        return rec ? lex_rec(sm, x.begin(), x.end(), lim, bol, st) : lex_plain(sm, x.begin(), x.end(), lim, bol, st);
    }

    // A lexer driven by a character machine, written from the meaning of its
    // fields: transitions by set, _eol_index taken before a line end or the end
    // without consuming it, _bol_index in place of the first state at line starts.
    template<class Csm>
    struct CsmLexer
    {
        const Csm& m;
        const Text& t;
        std::size_t pos = 0;
        bool bol;
        u64 state;
        std::vector<std::pair<u64, u64>> stack;
        CsmLexer(const Csm& csm, const Text& text, bool b, u64 st) : m(csm), t(text), bol(b), state(st) {}
        using St = typename Csm::state;
        static bool has(const typename St::string_token& s, u32 ch)
        {
            for (auto& r : s._ranges) if (ch >= r.first && ch <= r.second) return true;
            return false;
        }
        Tok next()
        {
            const u64 npos = Csm::npos();
            std::size_t begin = pos;
            for (;;)
            {
                Tok o;
                if (pos == t.size()) { o.id = 0; o.uid = npos; o.b = begin; o.e = pos; o.bol = bol; o.state = state; return o; }
                const auto& d = m._sm_vector.at(state);
                u64 at = bol && d._bol_index != Csm::npos() ? d._bol_index : 0;
                const St* hit = nullptr;
                std::size_t p = pos, end = pos;
                for (;;)
                {
                    const St* s = &d._states.at(at);
                    if (s->_eol_index != Csm::npos() && (p == t.size() || t[p] == '\r' || t[p] == '\n'))
                    {
                        at = s->_eol_index;
                        s = &d._states.at(at);
                        if (s->_end_state) { hit = s; end = p; }
                        if (s->_eol_index != Csm::npos()) break; // cannot be followed twice
                    }
                    if (p == t.size()) break;
                    bool moved = false;
                    for (auto& tr : s->_transitions)
                        if (has(tr.second, t[p])) { at = tr.first; moved = true; break; }
                    if (!moved) break;
                    ++p;
                    if (d._states.at(at)._end_state) { hit = &d._states.at(at); end = p; }
                }
                if (!hit)
                {
                    o.id = npos; o.uid = npos; o.b = pos; o.e = pos + 1;
                    bol = t[pos] == '\n';
                    ++pos;
                    o.bol = bol; o.state = state;
                    return o;
                }
                bool more = hit->_id == 0;
                using PP = typename St::push_pop_dfa;
                state = hit->_next_dfa;
                if (hit->_push_pop_dfa == PP::pop_dfa)
                {
                    if (stack.empty()) { o.underflow = true; return o; }
                    state = stack.back().first;
                    stack.pop_back();
                    if (!stack.empty() && stack.back().second == 0) more = true;
                }
                else if (hit->_push_pop_dfa == PP::push_dfa) stack.push_back({hit->_push_dfa, hit->_id});
                pos = end;
                bol = t[pos - 1] == '\n';
                if (hit->_id == static_cast<u64>(Csm::skip())) { begin = pos; continue; }
                if (more) continue;
                o.id = hit->_id; o.uid = hit->_user_id; o.b = begin; o.e = pos; o.bol = bol; o.state = state;
                return o;
            }
        }
        std::vector<Tok> all(std::size_t limit)
        {
            std::vector<Tok> v;
            while (v.size() < limit)
            {
                v.push_back(next());
                if (v.back().underflow || v.back().id == 0) break;
            }
            return v;
        }
    };
    template<class Csm>
    std::vector<Tok> lex_csm(const Csm& m, const Text& in, bool bol, u64 st)
    {
        CsmLexer<Csm> l(m, in, bol, st);
        return l.all(2 * in.size() + 4);
    }
    template<class S>
    std::string tables(const S& sm)
    {
        std::ostringstream o;
        auto& d = sm.data();
        o << +d._eoi << ' ' << +d._features << '\n';
        for (auto x : d._dfa_alphabet) o << +x << ' ';
        o << '\n';
        for (auto* v : {&d._lookup, &d._dfa}) for (auto& r : *v) { for (auto x : r) o << +x << ' '; o << '\n'; }
        return o.str();
    }
}
