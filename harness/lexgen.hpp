// Random rule sets with anchors, lexer states, skip and continuation rules, and
// the comparison of a real machine with the reference lexer over many inputs.
#pragma once
#include "lx.hpp"
#include <deque>
#include <list>

namespace lx
{
    // A forward iterator that aborts on any access outside its range.
    template<class Ch>
    struct Checked
    {
        using value_type = Ch;
        using difference_type = std::ptrdiff_t;
        using pointer = const Ch*;
        using reference = const Ch&;
        using iterator_category = std::forward_iterator_tag;
        const Ch* p = nullptr;
        const Ch* b = nullptr;
        const Ch* e = nullptr;
        static u64& reads() { static u64 n = 0; return n; }
        reference operator*() const
        {
            if (!b || p < b || p >= e) { std::fprintf(stderr, "Assertion: dereference outside the input at offset %td of %td\n", p - b, e - b); std::abort(); }
            ++reads();
            return *p;
        }
        Checked& operator++()
        {
            if (!b || p >= e) { std::fprintf(stderr, "Assertion: increment past the end of the input\n"); std::abort(); }
            ++p;
            return *this;
        }
        Checked operator++(int) { Checked t = *this; ++*this; return t; }
        bool operator==(const Checked& o) const { return p == o.p; }
        bool operator!=(const Checked& o) const { return p != o.p; }
    };

    struct Cfg
    {
        ref::GenOpt o;
        u32 max = 0xff;
        bool bol = false, eol = false;
        int states = 1;
        bool jumps = false, pushes = false, skip = false, noid = false;
        unsigned min_rules = 1, max_rules = 6;
        u64 max_weight = 30;
        bool nl_rules = false;   // add rules for line ends
        bool branches = false;   // anchors on one alternative of a rule
        bool nl_sets = false;    // sets may contain line ends beside $ rules
        bool nl_or_end = false;  // the first rule ends with a line end or before one
    };

    // One pushed rule may stand for several reference rules (its alternatives).
    struct Set
    {
        std::vector<Rule> pushed;               // re unused when parts > 1
        std::vector<std::vector<Rule>> parts;   // reference rules of each
        std::vector<Rule> flat;
        std::vector<ref::P> res;
        int states = 1;
        bool multi = false;
    };

    // No rule text may consume a line terminator at a place where another can
    // require one to follow: sets lose \r and \n when there are $ rules.
    inline ref::P strip_nl(const ref::P& p, bool allow)
    {
        auto n = std::make_shared<ref::Re>(*p);
        if (n->k == ref::Re::SET && allow)
        {
            // a rule naming exactly the line end is a declared clash with $
            ref::CS nl('\r', '\r'); nl.add('\n', '\n');
            if (n->cs.minus(nl).empty()) n->cs.add('a', 'a');
        }
        else if (n->k == ref::Re::SET)
        {
            ref::CS nl('\r', '\r'); nl.add('\n', '\n');
            ref::CS c = n->cs.minus(nl);
            if (c.empty()) c = ref::CS('a', 'a');
            n->cs = c;
        }
        for (auto& k : n->kids) k = strip_nl(k, allow);
        return n;
    }

    inline Set gen_rules(Rng& g, const Cfg& f)
    {
        Set s;
        s.states = f.states;
        s.multi = f.states > 1 || f.jumps || f.pushes || f.noid;
        const u64 n = g.in(f.min_rules, f.max_rules);
        std::vector<bool> seen(static_cast<std::size_t>(f.states));
        auto meta = [&](Rule& r, u64 k)
        {
            r.id = g.chance(3, 4) ? k + 1 : g.in(1, 3);
            r.uid = g.chance(1, 2) ? 100 + k : g.chance(1, 3) ? ~u64{0} : g.in(0, 2); // all ones: none given
            if (s.multi)
            {
                r.states.clear();
                for (int i = 0; i < f.states; ++i) if (g.chance(1, f.states > 2 ? 2 : 1) || f.states == 1) r.states.push_back(i);
                if (r.states.empty()) r.states.push_back(static_cast<int>(g.below(static_cast<u64>(f.states))));
                if (f.states > 1 && g.chance(1, 3)) { r.states = {static_cast<int>(g.below(static_cast<u64>(f.states)))}; }
                for (std::size_t i = r.states.size(); i > 1; --i) std::swap(r.states[i - 1], r.states[g.below(i)]);
                if (f.noid && g.chance(1, 4)) { r.noid = true; r.id = 0; r.uid = 0; }
                if (f.jumps && g.chance(1, 2)) r.exit = static_cast<int>(g.below(static_cast<u64>(f.states)));
                if (f.pushes)
                {
                    switch (g.below(4))
                    {
                    case 0: r.pop = true; r.exit = -1; break;
                    case 1: r.push = true; if (r.exit < 0) r.exit = static_cast<int>(g.below(static_cast<u64>(f.states))); break;
                    case 2: r.push = true; if (r.exit < 0) r.exit = static_cast<int>(g.below(static_cast<u64>(f.states)));
                        r.push_state = static_cast<int>(g.below(static_cast<u64>(f.states))); break;
                    default: break;
                    }
                }
            }
            if (f.skip && !r.noid && g.chance(1, 4)) { r.skip = true; r.id = 0; }
            for (int st : r.states) seen[static_cast<std::size_t>(st)] = true;
        };
        auto add = [&](Rule r, std::vector<Rule> parts)
        {
            s.pushed.push_back(r);
            s.parts.push_back(parts);
        };
        for (u64 k = 0; k < n; ++k)
        {
            Rule r;
            auto one = [&] { ref::P p = ref::gen_nonnull(g, f.o, f.max_weight); return f.eol ? strip_nl(p, f.nl_sets) : p; };
            meta(r, k);
            std::vector<Rule> parts;
            const u64 np = f.branches ? g.in(1, 3) : 1;
            const bool b = f.bol && g.chance(2, 5), e = f.eol && g.chance(2, 5);
            for (u64 q = 0; q < np; ++q)
            {
                Rule x = r;
                x.re = one();
                x.bol = b && q == 0;
                x.eol = e && q + 1 == np;
                parts.push_back(x);
            }
            if (k == 0 && f.nl_or_end)
            {
                static const char* ends[] = {"\n", "\r\n"};
                const ref::P body = strip_nl(ref::gen_nonnull(g, f.o, f.max_weight), false);
                std::vector<ref::P> v{body};
                switch (g.below(3))
                {
                case 0: v.push_back(ref::lit(ends[g.below(2)])); break;
                case 1: v.push_back(ref::rep(ref::lit("\r"), 0, 1)); v.push_back(ref::lit("\n")); break;
                default: v.push_back(ref::alt({ref::lit(ends[0]), ref::lit(ends[1])})); break;
                }
                Rule x = r, y = r;
                x.re = ref::cat(v);
                y.re = body;
                y.eol = true;
                parts.insert(parts.begin() + static_cast<std::ptrdiff_t>(g.in(parts[0].bol ? 1 : 0, parts.size())), x);
                for (auto& q : parts) q.eol = false;
                parts.push_back(y);
            }
            else if (np == 1) { r.re = parts[0].re; r.bol = b; r.eol = e; }
            add(r, parts);
        }
        if (f.nl_rules)
        {
            static const char* nls[] = {"\n", "\r\n", "\r"};
            for (int i = 0; i < (f.nl_sets ? 1 : 3); ++i)
            {
                if (!g.chance(1, 2)) continue;
                Rule r;
                meta(r, n + static_cast<u64>(i));
                r.re = ref::lit(nls[i]);
                if (!f.nl_sets && g.chance(1, 4)) r.re = ref::rep(r.re, 1, -1);
                if (f.bol && g.chance(1, 6)) r.bol = true;
                add(r, {r});
            }
        }
        for (int i = 0; i < f.states; ++i)
            if (!seen[static_cast<std::size_t>(i)])
            {
                Rule r;
                r.re = ref::set(ref::CS(f.o.alphabet.any(g), f.max).meet(f.o.alphabet));
                if (f.eol) r.re = strip_nl(r.re, false);
                r.id = 50 + static_cast<u64>(i);
                r.states = {i};
                add(r, {r});
            }
        for (auto& p : s.parts) for (auto& r : p) { s.flat.push_back(r); s.res.push_back(r.re); }
        return s;
    }

    // Spelling of one pushed rule: [^]branch|branch[$]
    inline std::u32string spell_rule(Rng& g, const std::vector<Rule>& parts, u32 max, bool wide, bool plain = false)
    {
        std::u32string t;
        for (std::size_t q = 0; q < parts.size(); ++q)
        {
            ref::Spell sp{g, max, wide};
            sp.plain = plain;
            const bool anchored = parts[q].bol || parts[q].eol;
            std::u32string x = sp.re(parts[q].re, anchored ? 1 : 0);
            if (q) t += U'|';
            if (parts[q].bol) t += U'^';
            t += x;
            if (parts[q].eol) t += U'$';
        }
        return t;
    }

    template<class R>
    void push_set(Rng& g, R& lr, Set& s, u32 max)
    {
        using Ch = typename R::rules_char_type;
        for (int i = 1; i < s.states; ++i) lr.push_state(nm<Ch>(state_name(i)).c_str());
        for (std::size_t i = 0; i < s.pushed.size(); ++i)
        {
            const auto t = spell_rule(g, s.parts[i], max, sizeof(Ch) > 1, g.chance(1, 3));
            s.pushed[i].text = h::visw(t);
            std::vector<bool> in(static_cast<std::size_t>(s.states));
            for (int st : s.pushed[i].states) in[static_cast<std::size_t>(st)] = true;
            bool all = s.states > 1;
            for (bool b : in) all = all && b;
            push_rule(lr, s.pushed[i], t, s.multi, all && g.chance(1, 2));
        }
    }

    template<class Ch, class It, class S>
    std::vector<Tok> lex_any(Rng& g, const S& sm, const It& b, const It& e, std::size_t lim, bool bol, u64 st)
    {
        const bool rec = (sm.data()._features & +lexertl::feature_bit::recursive) != 0;
        return rec || g.chance(1, 4) ? lex_rec(sm, b, e, lim, bol, st) : lex_plain(sm, b, e, lim, bol, st);
    }

    template<class Ch, class S>
    std::vector<Tok> lex_kind(Rng& g, const S& sm, const Text& in, bool bol, u64 st)
    {
        const std::size_t lim = 2 * in.size() + 4;
        Exact<Ch> x(in);
        switch (g.below(5))
        {
        case 0: { const std::basic_string<Ch> s(x.begin(), x.end()); return lex_any<Ch>(g, sm, s.begin(), s.end(), lim, bol, st); }
        case 1: { const std::list<Ch> s(x.begin(), x.end()); return lex_any<Ch>(g, sm, s.begin(), s.end(), lim, bol, st); }
        case 2:
        {
            Checked<Ch> b{x.begin(), x.begin(), x.end()}, e{x.end(), x.begin(), x.end()};
            return lex_any<Ch>(g, sm, b, e, lim, bol, st);
        }
        default: return lex_any<Ch>(g, sm, x.begin(), x.end(), lim, bol, st);
        }
    }

    struct Stat
    {
        u64 tokens = 0, unknown = 0, underflow = 0, winners = 0, states = 0;
    };
    inline Stat stat_of(const std::vector<Tok>& v, u64 npos)
    {
        Stat s;
        std::set<u64> w, st;
        for (auto& t : v)
        {
            if (t.underflow) { ++s.underflow; continue; }
            if (t.id == npos) ++s.unknown;
            else if (t.id) { ++s.tokens; w.insert(t.id); }
            st.insert(t.state);
        }
        s.winners = w.size();
        s.states = st.size();
        return s;
    }

    // Builds the set and compares it with the reference on random inputs.
    // on_input(in, want) may count what is of interest and tells whether the
    // case was non-trivial for the property.
    template<class Ch, class Id, class F>
    void check_set(Ctx& c, Rng& g, Set& s, const Cfg& f, unsigned inputs, std::size_t maxlen, bool newlines, F on_input)
    {
        Rules<Ch, Id> lr(LENIENT);
        Sm<Ch, Id> sm;
        push_set(g, lr, s, f.max);
        const std::string desc = show_rules(s.pushed);
        c.note(desc);
        build(lr, sm);
        c.count("machines");
        const u64 npos = Sm<Ch, Id>::traits::npos();
        u64 hs = h::hash_str(desc);
        for (unsigned k = 0; k < inputs; ++k)
        {
            const Text in = ref::gen_input(g, s.res, f.o.alphabet, maxlen, newlines);
            const bool bol = !g.chance(1, 4);
            const int st = g.chance(1, 4) ? static_cast<int>(g.below(static_cast<u64>(f.states))) : 0;
            ref::Lexer L(s.flat, in, npos, bol, st);
            auto want = L.all(2 * in.size() + 4);
            auto got = lex_kind<Ch>(g, sm, in, bol, static_cast<u64>(st));
            const bool tracked = (sm.data()._features & +lexertl::feature_bit::bol) != 0;
            if (!tracked) for (auto* v : {&want, &got}) for (auto& t : *v) t.bol = false;
            for (auto& t : want) if (!t.underflow && f.states == 1) t.state = got.empty() ? 0 : t.state;
            compare(c, "token-mismatch", got, want, desc, h::visw(in) + (bol ? " bol" : " mid-line") + " from state " + std::to_string(st));
            const Stat x = stat_of(want, npos);
            c.count("lookups", want.size());
            c.count("matched_tokens", x.tokens);
            c.count("unknown_tokens", x.unknown);
            c.count("underflows", x.underflow);
            c.maxc("states_visited", x.states);
            if (on_input(in, want, x)) c.nontrivial(h::mix(hs, h::hash_bytes(in.data(), in.size() * 4, static_cast<u64>(st) * 2 + bol + 77)));
        }
    }
}
