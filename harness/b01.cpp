// B01: empty-matching and unreachable rules are reported exactly.
#include "lexgen.hpp"
#include "nfa.hpp"
using namespace lx;
namespace
{
    struct Part { ref::P re; bool bol, eol; int rule; };
    struct Facts
    {
        std::set<std::pair<int, int>> empty;      // (state, rule) matching the empty text
        std::set<std::pair<int, int>> never;      // (state, rule) that never wins
        std::map<std::pair<int, int>, std::pair<Text, bool>> witness; // text on its own, at line start
        bool complete = true;
    };
    // Decides everything about every rule of every state. zero: the empty text counts.
    Facts facts(const Set& s, u32 max, bool zero)
    {
        Facts f;
        for (int st = 0; st < s.states; ++st)
        {
            std::vector<Part> parts;
            std::vector<ref::P> res;
            std::set<int> here;
            for (std::size_t i = 0; i < s.pushed.size(); ++i)
            {
                auto& in = s.pushed[i].states;
                if (std::find(in.begin(), in.end(), st) == in.end()) continue;
                here.insert(static_cast<int>(i));
                for (auto& r : s.parts[i])
                {
                    parts.push_back({r.re, r.bol, r.eol, static_cast<int>(i)});
                    res.push_back(r.re);
                    if (ref::nullable(r.re)) f.empty.insert({st, static_cast<int>(i)});
                }
            }
            std::set<int> won;
            const bool ok = nfa::explore(res, max, 6000, [&](const std::vector<bool>& acc, const Text& w)
            {
                if (w.empty() && !zero) return;
                for (int bol = 0; bol < 2; ++bol)
                {
                    int plain = -1, eol = -1;
                    for (std::size_t k = parts.size(); k-- > 0;)
                    {
                        if (!acc[k] || (parts[k].bol && !bol)) continue;
                        (parts[k].eol ? eol : plain) = parts[k].rule;
                    }
                    for (int r : {plain, eol})
                    {
                        if (r < 0) continue;
                        won.insert(r);
                        // what wins when nothing follows: $ comes first
                        if (r == (eol >= 0 ? eol : plain) && !w.empty()) f.witness.emplace(std::make_pair(st, r), std::make_pair(w, bol != 0));
                    }
                }
            });
            f.complete = f.complete && ok;
            for (int r : here) if (!won.count(r)) f.never.insert({st, r});
        }
        return f;
    }
    const std::string ZERO = "The following regex can match zero chars: ", NEVER = "The following regex cannot be matched: ";

    // Rules that hide each other, partly or wholly.
    ref::P related(Rng& g, const Cfg& f, const std::vector<ref::P>& before)
    {
        if (!before.empty() && g.chance(3, 5))
        {
            ref::P p = g.pick(before);
            switch (g.below(7))
            {
            case 0: return p;
            case 1: { Text t; ref::sample_into(p, g, t, 12); if (t.empty()) break; std::vector<ref::P> v; for (char32_t ch : t) v.push_back(ref::chr(ch)); return ref::cat(v); }
            case 2: return ref::alt({p, ref::gen(g, f.o, 2)});
            case 3: return ref::rep(p, 1, g.chance(1, 2) ? -1 : 2);
            case 4: return ref::cat({p, ref::gen(g, f.o, 1)});
            case 5: if (!p->kids.empty()) return g.pick(p->kids); break;
            default: { std::vector<ref::P> v; for (auto& k : before) v.push_back(k); return ref::alt(v); }
            }
        }
        return ref::gen(g, f.o, static_cast<unsigned>(g.below(4)));
    }
    template<class Ch, bool Chars>
    void body(Ctx& c, u64 i, Rng& g, u32 max)
    {
        using R = Rules<Ch>;
        Cfg f;
        f.max = max;
        f.o.max = max;
        f.o.alphabet = i % 2 ? ref::CS::of("ab") : ref::CS::of("abc");
        if (max > 0xff && g.chance(1, 2)) { f.o.alphabet.add(0x100, 0x101); f.o.alphabet.add(max - 1, max); }
        f.o.max_rep = 3;
        f.states = g.chance(1, 4) ? static_cast<int>(g.in(2, 3)) : 1;
        f.jumps = f.states > 1;
        f.skip = g.chance(1, 3);
        const unsigned kind = static_cast<unsigned>(g.below(4));
        f.bol = kind & 1;
        f.eol = (kind & 2) && !Chars;
        f.max_rules = 4;
        Set s;
        for (;;)
        {
            s = gen_rules(g, f);
            std::vector<ref::P> before;
            bool big = false, nullable = false;
            for (std::size_t k = 0; k < s.pushed.size(); ++k)
            {
                const std::size_t n = g.chance(1, 4) ? 2 : 1;
                std::vector<Rule> parts;
                for (std::size_t q = 0; q < n; ++q)
                {
                    Rule r = s.pushed[k];
                    r.re = g.chance(1, 4) ? s.parts[k][0].re : related(g, f, before);
                    if (ref::nullable(r.re) && !g.chance(1, 3)) r.re = ref::cat({r.re, ref::set(ref::gen_set(g, f.o))});
                    if (f.eol) r.re = strip_nl(r.re, false);
                    r.bol = f.bol && q == 0 && g.chance(1, 3);
                    r.eol = f.eol && q + 1 == n && g.chance(1, 3);
                    nullable = nullable || ref::nullable(r.re);
                    big = big || ref::weight(r.re) > 24;
                    before.push_back(r.re);
                    parts.push_back(r);
                }
                s.parts[k] = parts;
            }
            if (!big) break;
        }
        s.flat.clear();
        // told apart by id, or some sharing one: whose token it is must not matter
        const u64 ids = g.chance(1, 2) ? s.pushed.size() : g.in(1, 2);
        for (std::size_t k = 0; k < s.pushed.size(); ++k)
        {
            auto& r = s.pushed[k];
            r.id = ids == s.pushed.size() ? k + 1 : g.in(1, ids);
            r.skip = false;
            for (auto& x : s.parts[k]) { x.id = r.id; x.skip = false; s.flat.push_back(x); }
        }
        // all four option combinations, and others that must not matter
        const Rng at = g;
        for (unsigned opt = 0; opt < 4; ++opt)
        {
            g = at;
            std::size_t flags = 2;
            const bool zero_ok = opt & 1, never_ok = opt & 2;
            if (zero_ok) flags |= static_cast<std::size_t>(lexertl::regex_flags::match_zero_len);
            if (never_ok) flags |= static_cast<std::size_t>(lexertl::regex_flags::allow_suppressed_rules);
            const Facts x = facts(s, max, zero_ok);
            if (!x.complete) { c.count("too_large"); return; }
            R lr(flags);
            push_set(g, lr, s, f.max);
            const std::string desc = show_rules(s.pushed) + " options " + std::to_string(flags);
            c.note(desc);
            // which rule texts are reported rightly
            std::set<std::string> zero_texts, never_texts;
            for (int st = 0; st < s.states; ++st)
            {
                std::size_t pos = 0;
                for (std::size_t k = 0; k < s.pushed.size(); ++k)
                {
                    auto& in = s.pushed[k].states;
                    if (std::find(in.begin(), in.end(), st) == in.end()) continue;
                    const std::string& t = lr.regex_strings()[static_cast<std::size_t>(st)][pos++];
                    if (x.empty.count({st, static_cast<int>(k)})) zero_texts.insert(t);
                    if (x.never.count({st, static_cast<int>(k)})) never_texts.insert(t);
                }
            }
            const bool want_zero = !zero_ok && !zero_texts.empty(), want_never = !never_ok && !never_texts.empty();
            std::string err;
            Sm<Ch> sm;
            try
            {
                if constexpr (Chars) { lexertl::basic_char_state_machine<Ch, std::uint16_t> cs; lexertl::basic_generator<R, decltype(cs)>::build(lr, cs); }
                else build(lr, sm);
            }
            catch (const lexertl::runtime_error& e) { err = e.what(); }
            c.count("builds");
            const bool is_zero = err.compare(0, ZERO.size(), ZERO) == 0, is_never = err.compare(0, NEVER.size(), NEVER) == 0;
            if (!err.empty() && !is_zero && !is_never) c.fail("other-error", desc + ": " + err);
            if (is_zero || is_never)
            {
                auto& ok = is_zero ? zero_texts : never_texts;
                if (!(is_zero ? want_zero : want_never)) c.fail("refused-without-cause", desc + ": " + err);
                // the message ends at a character that narrows to NUL
                bool named = false;
                for (auto& t : ok) { const std::string full = (is_zero ? ZERO : NEVER) + t + "\n("; named = named || err.compare(0, std::strlen(full.c_str()), full.c_str()) == 0; }
                if (!named) c.fail("wrong-rule-named", desc + ": " + err);
                c.count(is_zero ? "empty_matching_reported" : "unreachable_reported");
                c.nontrivial(h::mix(h::hash_str(desc), 1));
                continue;
            }
            if (want_zero || want_never) c.fail(want_zero ? "empty-matching-not-reported" : "unreachable-not-reported", desc + " rule " + (want_zero ? *zero_texts.begin() : *never_texts.begin()));
            c.count("accepted_sets");
            if (s.pushed.size() > 1) c.nontrivial(h::mix(h::hash_str(desc), 2));
            if (Chars || zero_ok) continue;
            // every reachable rule wins on its witness, and never the others
            for (auto& w : x.witness)
            {
                Exact<Ch> in(w.second.first);
                const auto v = lex_plain(sm, in.begin(), in.end(), 1, w.second.second, static_cast<u64>(w.first.first));
                c.count("witnesses");
                if (v[0].id != s.pushed[static_cast<std::size_t>(w.first.second)].id || v[0].e != w.second.first.size())
                    c.fail("witness-lost", desc + " state " + std::to_string(w.first.first) + " text " + h::visw(w.second.first) + " got " + show(v, 0));
            }
        }
    }
    void narrow(Ctx& c, u64 i, Rng& g) { body<char, false>(c, i, g, 0xff); }
    void wide(Ctx& c, u64 i, Rng& g) { if (i & 1) body<char16_t, false>(c, i, g, 0xffff); else body<char32_t, false>(c, i, g, 0x10ffff); }
    void chars(Ctx& c, u64 i, Rng& g) { if (i & 1) body<char, true>(c, i, g, 0xff); else body<char32_t, true>(c, i, g, 0x10ffff); }

    // Empty states, non-greedy rules and other combinations.
    void hand(Ctx& c)
    {
        struct T { std::vector<std::string> re; std::size_t flags; char want; const char* name; };
        const std::size_t Z = 16, S = 32;
        static const T t[] = {
            {{"a", "a"}, 0, 'n', "a"}, {{"a", "a"}, S, 'o', ""}, {{"a", "a"}, Z, 'n', "a"}, {{"a*"}, 0, 'z', "a*"}, {{"a*"}, S, 'z', "a*"}, {{"a*"}, Z, 'o', ""},
            {{"^"}, 0, 'z', "^"}, {{"^a*"}, 0, 'z', "^a*"}, {{"a*$"}, 0, 'z', "a*$"}, {{"^a*$"}, 0, 'z', "^a*$"}, {{"b|a?"}, 0, 'z', "b|a?"}, {{"(a?b?)+"}, 0, 'z', "(a?b?)+"},
            {{"a{0,3}"}, 0, 'z', "a{0,3}"}, {{"()"}, 0, 'e', ""}, {{"a{0,0}"}, 0, 'e', ""}, {{"[a-z]+", "if"}, 0, 'n', "if"}, {{"if", "[a-z]+"}, 0, 'o', ""},
            {{"a+", "aa*"}, 0, 'n', "aa*"}, {{"(ab)+", "ab|abab"}, 0, 'n', "ab|abab"}, {{"a$", "a"}, 0, 'o', ""}, {{"a", "a$"}, 0, 'o', ""}, {{"^a", "a"}, 0, 'o', ""},
            {{"a", "^a"}, 0, 'n', "^a"}, {{"a$", "^a$"}, 0, 'n', "^a$"}, {{"^a$", "a$"}, 0, 'o', ""}, {{"x[ab]*?b", "xbb"}, 0, 'n', "xbb"}, {{"x[ab]*?bb", "x[ab]*?b"}, 0, 'n', "x[ab]*?bb"},
            {{"x[ab]*?b", "x[ab]*?bb"}, 0, 'n', "x[ab]*?bb"}, {{"xbb", "x[ab]*?b"}, 0, 'o', ""}, {{"a+?", "a"}, 0, 'n', "a"}, {{"a*?"}, 0, 'e', ""},
            {{"a??b", "ab|b"}, 0, 'n', "ab|b"}, {{"a(b|c)", "ab", "ac"}, 0, 'n', "ab"}, {{"[^a]", "b", "a"}, 0, 'n', "b"}, {{".", "\\n"}, 2, 'o', ""}, {{".", "\\n"}, 0, 'n', "\\n"},
            {{"(?i:A)", "a"}, 0, 'n', "a"}, {{"A", "a"}, 1, 'n', "a"}, {{"A", "a"}, 0, 'o', ""}, {{"a", "a*"}, 16, 'o', ""}, {{"a+", "a*"}, 16, 'o', ""}, {{"a*", "a+"}, 16, 'n', "a+"},
            // a rule spelling out the line end clashes with a $ rule, unless in one rule
            {{"a$", "a\\n"}, 0, 'n', "a\\n"}, {{"a\\n", "a$"}, 0, 'n', "a$"}, {{"a$", "a\\r\\n"}, 0, 'n', "a\\r\\n"}, {{"a\\r\\n", "a$"}, 0, 'n', "a$"},
            {{"a$", "a\\nb"}, 0, 'o', ""}, {{"a\\nb", "a$"}, 0, 'o', ""}, {{"a$", "a[\\n;]"}, 0, 'o', ""}, {{"a[\\n;]", "a$"}, 0, 'o', ""},
            {{"a\\n|a$"}, 0, 'o', ""}, {{"a\\n|a$", "a"}, 0, 'o', ""}, {{"a\\n|a$", "a\\n"}, 0, 'n', "a\\n"}, {{"a\\n|a$", "a$"}, 0, 'n', "a$"},
            {{"a\\r\\n|a$", "a\\r\\n"}, 0, 'n', "a\\r\\n"}, {{"b|a\\r?\\n|a$", "ab"}, 0, 'o', ""}};
        for (auto& x : t)
            for (int extra = 0; extra < 6; ++extra)
            {
                // the same rules in a later state, behind an unrelated rule or with one id change nothing
                Rules<char> lr(x.flags);
                std::string all, err;
                bool bad = false;
                if (extra % 3 == 1) { lr.push_state("T"); lr.push("z", 90); }
                if (extra % 3 == 2) lr.push("zz", 91);
                std::uint16_t id = 1;
                try
                {
                    for (auto& re : x.re) { all += re + " "; if (extra % 3 == 1) lr.push("T", re, id, "."); else lr.push(re, id); if (extra < 3) ++id; }
                }
                catch (const lexertl::runtime_error&) { bad = true; }
                c.count("hand_written");
                if (bad != (x.want == 'e')) c.fail("rule-refused", all);
                if (bad) continue;
                Sm<char> sm;
                try { build(lr, sm); } catch (const lexertl::runtime_error& e) { err = e.what(); }
                const std::string want = x.want == 'z' ? ZERO + x.name + "\n" : x.want == 'n' ? NEVER + x.name + "\n" : "";
                if (err.substr(0, want.size()) != want || err.empty() != want.empty()) c.fail("hand-written", all + " flags " + std::to_string(x.flags) + ": " + (err.empty() ? "built" : err));
            }
        // a state without rules
        for (int k = 0; k < 3; ++k)
        {
            Rules<char> lr;
            for (int i = 0; i < 2; ++i) lr.push_state(i ? "B" : "A");
            for (int i = 0; i < 3; ++i) if (i != k) lr.push(i == 0 ? "INITIAL" : i == 1 ? "A" : "B", "a", 1, ".");
            Sm<char> sm;
            std::string err;
            try { build(lr, sm); } catch (const lexertl::runtime_error& e) { err = e.what(); }
            if (err.find("no rules") == std::string::npos || err.find("lexer state " + std::to_string(k)) == std::string::npos) c.fail("empty-state", err);
        }
    }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {{"hand", hand}}, {{"narrow", narrow}, {"wide", wide}, {"chars", chars}});
}
