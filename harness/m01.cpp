// M01: minimising a machine preserves its behaviour.
#include "anyset.hpp"
using namespace lx;
namespace
{
    template<class S> std::size_t rows(const S& sm)
    {
        std::size_t n = 0;
        for (std::size_t i = 0; i < sm.data()._dfa.size(); ++i) n += sm.data()._dfa[i].size() / sm.data()._dfa_alphabet[i];
        return n;
    }
    template<class Csm> std::size_t states(const Csm& m) { std::size_t n = 0; for (auto& d : m._sm_vector) n += d._states.size(); return n; }
    template<class Csm> bool same(const Csm& a, const Csm& b)
    {
        if (a._sm_vector.size() != b._sm_vector.size()) return false;
        for (std::size_t i = 0; i < a._sm_vector.size(); ++i)
            if (a._sm_vector[i]._bol_index != b._sm_vector[i]._bol_index || !(a._sm_vector[i]._states == b._sm_vector[i]._states)) return false;
        return true;
    }
    // Rows (other than the first, where nothing matches) that are copies of others
    template<class S> std::size_t row_copies(const S& sm)
    {
        std::size_t n = 0;
        for (std::size_t i = 0; i < sm.data()._dfa.size(); ++i)
        {
            using V = std::decay_t<decltype(sm.data()._dfa[i])>;
            std::set<V> seen;
            const auto& d = sm.data()._dfa[i];
            const std::size_t w = sm.data()._dfa_alphabet[i];
            for (std::size_t r = w; r < d.size(); r += w)
                n += !seen.emplace(d.begin() + static_cast<std::ptrdiff_t>(r), d.begin() + static_cast<std::ptrdiff_t>(r + w)).second;
        }
        return n;
    }
    template<class Csm> std::size_t state_copies(const Csm& m)
    {
        std::size_t n = 0;
        for (auto& d : m._sm_vector)
            for (std::size_t a = 0; a < d._states.size(); ++a)
                for (std::size_t b = a + 1; b < d._states.size(); ++b)
                {
                    const auto& x = d._states[a];
                    const auto& y = d._states[b];
                    if (x._end_state == y._end_state && x._push_pop_dfa == y._push_pop_dfa && x._id == y._id && x._user_id == y._user_id && x._push_dfa == y._push_dfa &&
                        x._next_dfa == y._next_dfa && x._eol_index == y._eol_index && x._transitions == y._transitions) { ++n; break; }
                }
        return n;
    }
    template<class Ch>
    void body(Ctx& c, u64, Rng& g, u32 max)
    {
        using Csm = lexertl::basic_char_state_machine<Ch, std::uint16_t>;
        Rules<Ch> lr(LENIENT);
        AnyOpt o;
        Any a = any_rules(g, lr, max, o);
        c.note(a.desc);
        Sm<Ch> sm;
        try { build(lr, sm); } catch (const lexertl::runtime_error&) { c.count("not_built"); return; }
        Sm<Ch> mini = sm;
        mini.minimise();
        c.count("machines");
        const std::size_t before = rows(sm), after = rows(mini);
        if (after > before) c.fail("more-rows", a.desc);
        c.count("rows", before);
        c.count("rows_removed", before - after);
        if (row_copies(mini)) c.fail("equal-rows-left", a.desc);
        if (mini.data()._lookup != sm.data()._lookup || mini.data()._dfa_alphabet != sm.data()._dfa_alphabet || mini.data()._features != sm.data()._features ||
            mini.data()._dfa.size() != sm.data()._dfa.size() || mini.data()._eoi != sm.data()._eoi) c.fail("other-tables-changed", a.desc);
        Sm<Ch> again = mini;
        again.minimise();
        if (tables(again) != tables(mini)) c.fail("not-idempotent", a.desc);
        Csm cm, cmini;
        lexertl::basic_generator<Rules<Ch>, Csm>::build(lr, cm);
        cmini = cm;
        cmini.minimise();
        const std::size_t cb = states(cm), ca = states(cmini);
        if (ca > cb) c.fail("more-states", a.desc);
        c.count("states_removed", cb - ca);
        if (state_copies(cmini)) c.fail("equal-states-left", a.desc);
        Csm cagain = cmini;
        cagain.minimise();
        if (!same(cagain, cmini)) c.fail("character-machine-not-idempotent", a.desc);
        for (int k = 0; k < 8; ++k)
        {
            const Text in = any_input(g, a, 60);
            for (int st = 0; st < a.s.states; ++st)
            {
                const bool bol = g.chance(1, 2);
                const auto want = lex_of(sm, in, bol, static_cast<u64>(st));
                const std::string what = h::visw(in) + (bol ? " bol" : " mid-line") + " from state " + std::to_string(st);
                compare(c, "tokens-changed", lex_of(mini, in, bol, static_cast<u64>(st)), want, a.desc, what);
                compare(c, "character-machine-changed", lex_csm(cmini, in, bol, static_cast<u64>(st)), lex_csm(cm, in, bol, static_cast<u64>(st)), a.desc, what);
                const Stat x = stat_of(want, Sm<Ch>::traits::npos());
                c.count("matched_tokens", x.tokens);
                c.count("underflows", x.underflow);
                if (before != after && x.tokens) c.nontrivial(h::mix(h::hash_str(a.desc), h::hash_bytes(in.data(), in.size() * 4, static_cast<u64>(st) * 2 + bol)));
            }
        }
    }
    void narrow(Ctx& c, u64 i, Rng& g) { body<char>(c, i, g, 0xff); }
    void wide(Ctx& c, u64 i, Rng& g) { if (i & 1) body<char16_t>(c, i, g, 0xffff); else body<char32_t>(c, i, g, 0x10ffff); }
    // Machines with many equal rows, far apart and chained
    void merge(Ctx& c, u64 i, Rng& g)
    {
        Rules<char> lr(LENIENT);
        std::string desc;
        const u64 kinds = g.in(1, 3);
        std::vector<std::string> words;
        const std::string tail[] = {"xyz", "x(y|z)*w", "[0-9]{2,4}q", "end$", "w?v"};
        for (u64 k = 0, n = g.in(3, 12); k < n; ++k)
        {
            std::string w;
            for (u64 q = 0, l = g.in(1, 5); q < l; ++q) w += static_cast<char>('a' + g.below(4));
            words.push_back(w);
            const std::string re = (g.chance(1, 5) ? "^" : "") + w + tail[g.below(5)];
            lr.push(re, static_cast<std::uint16_t>(1 + g.below(kinds)), static_cast<std::uint16_t>(g.below(2)));
            desc += re + " ";
        }
        c.note(desc);
        Sm<char> sm;
        build(lr, sm);
        Sm<char> mini = sm;
        mini.minimise();
        if (rows(mini) > rows(sm)) c.fail("more-rows", desc);
        c.count("rows_removed", rows(sm) - rows(mini));
        for (int k = 0; k < 40; ++k)
        {
            Text in;
            for (u64 q = 0, l = g.in(1, 5); q < l; ++q)
            {
                static const char* t[] = {"xyz", "xyzyw", "xw", "00q", "123q", "end\n", "end", "wv", "v", "\n"};
                const std::string s = (g.chance(1, 8) ? "" : g.pick(words)) + t[g.below(10)];
                in += Text(s.begin(), s.end());
            }
            const auto want = lex_of(sm, in, true, 0);
            compare(c, "tokens-changed", lex_of(mini, in, true, 0), want, desc, h::visw(in));
            const Stat x = stat_of(want, 65535);
            c.count("matched_tokens", x.tokens);
            if (x.tokens > 1 && rows(mini) < rows(sm)) c.nontrivial(h::mix(h::hash_str(desc), h::hash_bytes(in.data(), in.size() * 4, i)));
        }
    }
    // Rules that differ in one respect only: identifier, user identifier, action, anchors or one transition
    template<class Ch>
    void twins_of(Ctx& c, Rng& g)
    {
        using Csm = lexertl::basic_char_state_machine<Ch, std::uint16_t>;
        Rules<Ch> lr(LENIENT);
        std::string desc;
        auto str = [](const std::string& t) { return std::basic_string<Ch>(t.begin(), t.end()); };
        lr.push_state(str("S1").c_str());
        lr.push_state(str("S2").c_str());
        lr.push_state(str("S3").c_str());
        static const char* to[] = {".", "S1", "S2", "S3", "<", ">S1", ">S2", ">S3", ">S1:S1", ">S1:S2", ">S1:S3", ">S2:S1", ">S2:S2", ">S2:S3", ">S3:S1"};
        static const char* ends[] = {"", "xy?", "[0-9]z", "[0-8]z", "(q|rq)+", "w*"};
        const std::string from[] = {"INITIAL", "S1", "S2", "S3"};
        for (int s = 0; s < 4; ++s)
        {
            // A base, and rules that each differ from the base in at most two respects
            const std::string end0 = ends[g.below(6)];
            const bool pushes = g.chance(1, 2);
            const u64 id0 = g.in(1, 3), uid0 = g.below(2), to0 = pushes ? 8 + g.below(6) : g.below(15);
            const u64 n = g.in(3, 9);
            for (u64 k = 0; k < n; ++k)
            {
                std::string e = end0;
                u64 id = id0, uid = uid0, t = to0;
                bool b = false, d = false;
                if (k)
                    for (u64 q = 0, m = g.below(3); q < m; ++q)
                        switch (g.below(7))
                        {
                        case 0: e = ends[g.below(6)]; break;
                        case 1: id = g.in(1, 3); break;
                        case 2: uid = g.below(2); break;
                        case 3: b = true; break;
                        case 4: d = true; break;
                        default: t = pushes ? (t - 8) / 3 * 3 + 8 + g.below(3) : g.below(15); break;
                        }
                const std::string re = std::string(b ? "^" : "") + static_cast<char>('a' + k) + e + (d ? "$" : "");
                lr.push(str(from[s]).c_str(), str(re), static_cast<std::uint16_t>(id), str(to[t]).c_str(), static_cast<std::uint16_t>(uid));
                desc += from[s] + " " + re + " " + std::to_string(id) + " " + to[t] + " " + std::to_string(uid) + "\n";
            }
        }
        c.note(desc);
        Sm<Ch> sm;
        build(lr, sm);
        Sm<Ch> mini = sm;
        mini.minimise();
        Csm cm, cmini;
        lexertl::basic_generator<Rules<Ch>, Csm>::build(lr, cm);
        cmini = cm;
        cmini.minimise();
        c.count("twin_rows_removed", rows(sm) - rows(mini));
        c.count("twin_states_removed", states(cm) - states(cmini));
        for (int k = 0; k < 30; ++k)
        {
            Text in;
            for (u64 q = 0, l = g.in(2, 8); q < l; ++q)
            {
                static const char* t[] = {"", "", "x", "xy", "8z", "9z", "q", "rq", "qrq", "w", "ww", "\n"};
                std::string s;
                if (g.chance(9, 10)) s += static_cast<char>('a' + g.below(9));
                s += t[g.below(12)];
                in += Text(s.begin(), s.end());
            }
            for (u64 st = 0; st < 4; ++st)
            {
                const bool bol = g.chance(1, 2);
                const auto want = lex_of(sm, in, bol, st);
                const std::string what = h::visw(in) + (bol ? " bol" : " mid-line") + " from state " + std::to_string(st);
                compare(c, "twin-tokens-changed", lex_of(mini, in, bol, st), want, desc, what);
                compare(c, "twin-character-machine-changed", lex_csm(cmini, in, bol, st), lex_csm(cm, in, bol, st), desc, what);
                const Stat x = stat_of(want, 65535);
                c.count("matched_tokens", x.tokens);
                if (x.tokens > 1 && states(cm) != states(cmini)) c.nontrivial(h::mix(h::hash_str(desc), h::hash_bytes(in.data(), in.size() * 4, st * 2 + bol)));
            }
        }
    }
    void twins(Ctx& c, u64 i, Rng& g) { if (i % 3) twins_of<char>(c, g); else twins_of<char32_t>(c, g); }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {}, {{"narrow", narrow}, {"wide", wide}, {"merge", merge}, {"twins", twins}});
}
