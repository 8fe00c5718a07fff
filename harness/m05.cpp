// M05: text and graph dumps, read back as automata.
#include "anyset.hpp"
#include <lexertl/debug.hpp>
#include <lexertl/dot.hpp>
#include <lexertl/sm_to_csm.hpp>
using namespace lx;
namespace
{
    using U = std::u32string;
    struct Bad { std::string why; };
    template<class S> U wide(const S& s) { U u; for (auto ch : s) u += static_cast<char32_t>(static_cast<typename std::make_unsigned<typename lexertl::basic_char_traits<typename S::value_type>::index_type>::type>(ch)); return u; }
    U operator""_u(const char* s, std::size_t n) { return U(s, s + n); }
    std::vector<U> lines(const U& t)
    {
        std::vector<U> v;
        std::size_t b = 0;
        for (std::size_t i = 0; i < t.size(); ++i) if (t[i] == '\n') { v.push_back(t.substr(b, i - b)); b = i + 1; }
        if (b != t.size()) throw Bad{"no newline at the end"};
        return v;
    }
    bool starts(const U& s, const U& p) { return s.compare(0, p.size(), p) == 0; }
    u64 number(const U& s, std::size_t& at)
    {
        u64 v = 0;
        const std::size_t b = at;
        while (at < s.size() && s[at] >= '0' && s[at] <= '9') v = v * 10 + (s[at++] - '0');
        if (at == b) throw Bad{"number expected"};
        return v;
    }
    void want(const U& s, std::size_t& at, const U& what)
    {
        if (s.compare(at, what.size(), what)) throw Bad{"expected " + h::visw(what)};
        at += what.size();
    }
    // One character of a set as escaped by the dumps: \\0 \\a ... \\xHEX, \\ before
    // anything else that would mean something.
    u32 one_char(const U& s, std::size_t& at)
    {
        if (at >= s.size()) throw Bad{"character expected"};
        if (s[at] != '\\')
        {
            if (s[at] < 32 || s[at] > 126) throw Bad{"unprintable character"};
            return s[at++];
        }
        if (++at >= s.size()) throw Bad{"character expected after backslash"};
        const char32_t e = s[at++];
        switch (e)
        {
        case '0': return 0;
        case 'a': return 7;
        case 'b': return 8;
        case 't': return 9;
        case 'n': return 10;
        case 'v': return 11;
        case 'f': return 12;
        case 'r': return 13;
        case 'x':
        {
            u64 v = 0;
            const std::size_t b = at;
            for (; at < s.size(); ++at)
            {
                const char32_t d = s[at];
                if (d >= '0' && d <= '9') v = v * 16 + (d - '0');
                else if (d >= 'a' && d <= 'f') v = v * 16 + (d - 'a' + 10);
                else if (d >= 'A' && d <= 'F') v = v * 16 + (d - 'A' + 10);
                else break;
                if (v > 0xffffffffULL) throw Bad{"hex escape too large"};
            }
            if (at == b) throw Bad{"hex digits expected"};
            return static_cast<u32>(v);
        }
        default:
            if ((e >= 'a' && e <= 'z') || (e >= 'A' && e <= 'Z') || (e >= '0' && e <= '9')) throw Bad{"unknown escape"};
            return e;
        }
    }
    ref::CS items(const U& s, std::size_t& at, u32 max)
    {
        ref::CS cs;
        bool neg = false;
        if (at < s.size() && s[at] == '^') { neg = true; ++at; }
        while (at < s.size() && s[at] != ']')
        {
            if (s[at] == '-') throw Bad{"dash without a beginning"};
            const u32 a = one_char(s, at);
            u32 b = a;
            if (at < s.size() && s[at] == '-') { ++at; if (at >= s.size() || s[at] == ']') throw Bad{"range without an end"}; b = one_char(s, at); }
            if (b < a) throw Bad{"reversed range"};
            if (b > max) throw Bad{"character beyond the alphabet"};
            cs.add(a, b);
        }
        if (at >= s.size()) throw Bad{"set not closed"};
        ++at;
        return neg ? cs.inv(max) : cs;
    }
    ref::CS charset(const U& s, std::size_t& at, u32 max)
    {
        if (at < s.size() && s[at] == '[') { ++at; return items(s, at, max); }
        const u32 ch = one_char(s, at);
        return ref::CS(ch, ch);
    }
    template<class Csm> ref::CS set_of(const typename Csm::string_token& t) { ref::CS cs; for (auto& r : t._ranges) cs.r.push_back({r.first, r.second}); return cs; }

    // The text dump as a machine again, with the names of its lexer states.
    template<class Csm>
    Csm read_text(const U& t, u32 max, std::vector<U>& names)
    {
        using St = typename Csm::state;
        using Id = typename Csm::id_type;
        Csm m;
        typename Csm::dfa* d = nullptr;
        St* s = nullptr;
        for (const U& l : lines(t))
        {
            std::size_t at = 0;
            try
            {
            if (l.empty()) continue;
            if (starts(l, "Lexer state: "_u)) { m._sm_vector.emplace_back(0); d = &m._sm_vector.back(); s = nullptr; names.push_back(l.substr(13)); continue; }
            if (!d) throw Bad{"line before the first lexer state"};
            if (starts(l, "State: "_u))
            {
                at = 7;
                if (number(l, at) != d->_states.size() || at != l.size()) throw Bad{"state out of order"};
                d->_states.emplace_back();
                s = &d->_states.back();
                continue;
            }
            if (!s) throw Bad{"line outside a state"};
            auto id = [&] { const u64 v = number(l, at); if (v > Csm::npos()) throw Bad{"number too large"}; return static_cast<Id>(v); };
            auto place = [&] { const Id v = id(); if (v == Csm::npos()) throw Bad{"line for a transition that is not there"}; return v; };
            if (starts(l, "  END STATE"_u))
            {
                if (s->_end_state) throw Bad{"two end state lines"};
                at = 11;
                s->_end_state = true;
                if (starts(l.substr(at), ", PUSH "_u)) { at += 7; s->_push_pop_dfa = St::push_pop_dfa::push_dfa; s->_push_dfa = id(); }
                else if (starts(l.substr(at), ", POP"_u)) { at += 5; s->_push_pop_dfa = St::push_pop_dfa::pop_dfa; }
                want(l, at, ", Id = "_u); s->_id = id();
                want(l, at, ", User Id = "_u); s->_user_id = id();
                want(l, at, ", dfa = "_u); s->_next_dfa = id();
            }
            else if (starts(l, "  BOL -> "_u)) { at = 9; if (d->_states.size() != 1 || d->_bol_index != Csm::npos()) throw Bad{"misplaced BOL"}; d->_bol_index = place(); }
            else if (starts(l, "  EOL -> "_u)) { at = 9; if (s->_eol_index != Csm::npos()) throw Bad{"two EOL lines"}; s->_eol_index = place(); }
            else
            {
                want(l, at, "  "_u);
                const ref::CS cs = charset(l, at, max);
                want(l, at, " -> "_u);
                auto& t = s->_transitions[id()];
                if (!t._ranges.empty()) throw Bad{"two transitions to one state"};
                for (auto& r : cs.r) t._ranges.push_back({r.first, r.second});
            }
            if (at != l.size()) throw Bad{"text left over"};
            }
            catch (const Bad& b) { throw Bad{b.why + " in line " + h::visw(l) + " at " + std::to_string(at)}; }
        }
        return m;
    }
    template<class Csm>
    std::string text_of(const Csm& m)
    {
        std::ostringstream o;
        for (auto& d : m._sm_vector)
        {
            o << "dfa bol=" << +d._bol_index << "\n";
            for (auto& s : d._states)
            {
                o << s._end_state << ' ';
                if (s._end_state) o << static_cast<int>(s._push_pop_dfa) << ' ' << (s._push_pop_dfa == Csm::state::push_pop_dfa::push_dfa ? +s._push_dfa : 0) << ' ' << +s._id << ' ' << +s._user_id << ' ' << +s._next_dfa;
                o << " eol=" << +s._eol_index;
                for (auto& t : s._transitions) { o << " " << +t.first << ":"; for (auto& r : t.second._ranges) o << static_cast<u64>(r.first) << '-' << static_cast<u64>(r.second) << ','; }
                o << '\n';
            }
        }
        return o.str();
    }
    // What the graph shows of a machine: nodes and edges.
    struct Graph { std::map<std::pair<u64, u64>, std::string> nodes; std::map<std::string, std::string> edges; };
    std::string key(u64 a, u64 b, u64 c, u64 d) { return std::to_string(a) + "." + std::to_string(b) + ">" + std::to_string(c) + "." + std::to_string(d); }
    std::string cs_text(const ref::CS& cs) { std::string s; for (auto& r : cs.r) s += std::to_string(r.first) + "-" + std::to_string(r.second) + ","; return s; }
    template<class Csm, class R>
    Graph expected_graph(const Csm& m, const R& rules)
    {
        Graph g;
        for (u64 d = 0; d < m._sm_vector.size(); ++d)
        {
            auto& dfa = m._sm_vector[d];
            for (u64 i = 0; i < dfa._states.size(); ++i)
            {
                auto& s = dfa._states[i];
                using Str = std::basic_string<std::remove_const_t<std::remove_pointer_t<decltype(rules.state(static_cast<typename Csm::id_type>(0)))>>>;
                g.nodes[{d, i}] = i == 0 ? "circle " + h::visw(wide(Str(rules.state(static_cast<typename Csm::id_type>(d))))) : s._end_state ? "doublecircle id=" + std::to_string(s._id) : "circle";
                for (auto& t : s._transitions) g.edges[key(d, i, d, t.first)] += "on " + cs_text(set_of<Csm>(t.second));
                if (m._sm_vector.size() > 1 && s._end_state) g.edges[key(d, i, s._next_dfa, 0)] += "next ";
            }
        }
        return g;
    }
    Graph read_graph(const U& t, u32 max)
    {
        Graph g;
        const auto ls = lines(t);
        if (ls.size() < 3 || ls[0] != "digraph DFAs {"_u || ls[1] != "    rankdir = LR;"_u || ls.back() != "}"_u) throw Bad{"no graph"};
        for (std::size_t n = 2; n + 1 < ls.size(); ++n)
        {
            const U& l = ls[n];
            if (l.empty()) continue;
            std::size_t at = 0;
            try
            {
            auto node = [&] { want(l, at, "L"_u); const u64 d = number(l, at); want(l, at, "_S"_u); return std::pair<u64, u64>(d, number(l, at)); };
            want(l, at, "    "_u);
            const auto from = node();
            if (starts(l.substr(at), " [shape = "_u))
            {
                at += 10;
                std::string v;
                if (starts(l.substr(at), "circle"_u)) { v = "circle"; at += 6; }
                else { want(l, at, "doublecircle"_u); v = "doublecircle"; }
                if (starts(l.substr(at), ", xlabel=\""_u))
                {
                    at += 10;
                    U label;
                    while (at < l.size() && l[at] != '"') label += l[at++];
                    want(l, at, "\""_u);
                    std::size_t z = 5;
                    if (v == "doublecircle") { if (!starts(label, "id = "_u)) throw Bad{"label"}; v += " id=" + std::to_string(number(label, z)); if (z != label.size()) throw Bad{"label"}; }
                    else v += " " + h::visw(label);
                }
                want(l, at, "];"_u);
                if (!g.nodes.emplace(from, v).second) throw Bad{"node declared twice"};
            }
            else
            {
                want(l, at, " -> "_u);
                const auto to = node();
                std::string& e = g.edges[key(from.first, from.second, to.first, to.second)];
                if (starts(l.substr(at), " [style = \"dashed\"];"_u)) { at += 20; e += "next "; }
                else
                {
                    want(l, at, " [label = <<TABLE BORDER=\"0\" CELLBORDER=\"0\"><TR><TD>["_u);
                    const U tail = "</TD></TR></TABLE>>];"_u;
                    if (l.size() < at + tail.size() || l.substr(l.size() - tail.size()) != tail) throw Bad{"label not closed"};
                    // HTML text first, then doubled backslashes
                    U html = l.substr(at, l.size() - tail.size() - at), s;
                    for (std::size_t i = 0; i < html.size();)
                    {
                        if (html[i] == '<' || html[i] == '>') throw Bad{"markup in a label"};
                        if (html[i] == '&')
                        {
                            const std::size_t z = html.find(U";", i);
                            const U name = z == U::npos ? U() : html.substr(i + 1, z - i - 1);
                            if (name == "lt"_u) s += '<'; else if (name == "gt"_u) s += '>'; else if (name == "amp"_u) s += '&'; else if (name == "quot"_u) s += '"'; else throw Bad{"bare ampersand"};
                            i = z + 1;
                        }
                        else if (html[i] == '\\')
                        {
                            if (i + 1 >= html.size() || html[i + 1] != '\\') throw Bad{"single backslash"};
                            s += '\\';
                            i += 2;
                        }
                        else s += html[i++];
                    }
                    std::size_t z = 0;
                    const ref::CS cs = items(s, z, max);
                    if (z != s.size()) throw Bad{"text left over in label"};
                    e += "on " + cs_text(cs);
                    at = l.size();
                }
            }
            if (at != l.size()) throw Bad{"text left over"};
            }
            catch (const Bad& b) { throw Bad{b.why + " in line " + h::visw(l) + " at " + std::to_string(at)}; }
        }
        return g;
    }
    template<class Ch> constexpr u32 top() { return static_cast<u32>(lexertl::basic_char_traits<Ch>::max_val()); }
    // Names of the lexer states come from the rules.
    template<class Ch>
    void dumps(Ctx& c, const lexertl::basic_char_state_machine<Ch, std::uint16_t>& m, const Rules<Ch>& lr, const Sm<Ch>* sm, const std::string& desc)
    {
        using Csm = lexertl::basic_char_state_machine<Ch, std::uint16_t>;
        using Debug = lexertl::basic_debug<Sm<Ch>, Ch>;
        using Dot = lexertl::basic_dot<Sm<Ch>, Ch>;
        auto copy = lr;
        h::Rng wg(h::hash_str(desc));
        const World w(c, wg);
        for (int k = 0; k < (sm ? 4 : 2); ++k)
        {
            std::basic_ostringstream<Ch> o;
            const bool named = k % 2 == 0;
            if (k == 0) Debug::dump(m, copy, o);
            else if (k == 1) Debug::dump(m, o);
            else if (k == 2) Debug::dump(*sm, copy, o);
            else Debug::dump(*sm, o);
            const U text = wide(o.str());
            std::vector<U> names;
            try
            {
                const Csm back = read_text<Csm>(text, top<Ch>(), names);
                if (text_of(back) != text_of(m)) c.fail("text-dump-differs", desc + " read " + text_of(back) + " machine " + text_of(m) + " dump " + h::visw(text));
            }
            catch (const Bad& b) { c.fail("text-dump-unreadable", desc + ": " + b.why); }
            for (std::size_t i = 0; i < names.size(); ++i)
                if (names[i] != (named ? wide(std::basic_string<Ch>(copy.state(static_cast<std::uint16_t>(i)))) : wide(std::to_string(i)))) c.fail("state-name", desc + " " + h::visw(names[i]));
            c.count("text_dumps_read");
        }
        for (int k = 0; k < (sm ? 2 : 1); ++k)
        {
            std::basic_ostringstream<Ch> o;
            if (k) Dot::dump(*sm, copy, o); else Dot::dump(m, copy, o);
            const U text = wide(o.str());
            try
            {
                const Graph got = read_graph(text, top<Ch>()), exp = expected_graph(m, copy);
                if (got.nodes != exp.nodes) c.fail("graph-nodes-differ", desc + " " + h::visw(text));
                for (auto& e : exp.edges) { auto it = got.edges.find(e.first); if (it == got.edges.end() || it->second != e.second) c.fail("graph-edges-differ", desc + " " + e.first + " expected " + e.second + " got " + (it == got.edges.end() ? "nothing" : it->second)); }
                if (got.edges.size() != exp.edges.size()) c.fail("graph-edges-added", desc + " " + h::visw(text));
            }
            catch (const Bad& b) { c.fail("graph-unreadable", desc + ": " + b.why); }
            c.count("graphs_read");
        }
        for (auto& d : m._sm_vector) for (auto& s : d._states) { c.count("states_shown"); c.count("transitions_shown", s._transitions.size()); if (s._end_state) c.count("end_states_shown"); }
    }
    template<class Ch>
    void built(Ctx& c, Rng& g)
    {
        using Csm = lexertl::basic_char_state_machine<Ch, std::uint16_t>;
        Rules<Ch> lr(LENIENT);
        Any a = any_rules(g, lr, sizeof(Ch) == 1 ? 0xff : sizeof(Ch) == 2 ? 0xffff : 0x10ffff);
        c.note(a.desc);
        Sm<Ch> sm;
        Csm m;
        try { build(lr, sm); } catch (const lexertl::runtime_error&) { c.count("not_built"); return; }
        lexertl::sm_to_csm(sm, m);
        dumps<Ch>(c, m, lr, &sm, a.desc);
        // interpreting the dump gives the tokens of the machine
        if (sizeof(Ch) == 1)
        {
            std::basic_ostringstream<Ch> o;
            lexertl::basic_debug<Sm<Ch>, Ch>::dump(sm, o);
            std::vector<U> names;
            const Csm back = read_text<Csm>(wide(o.str()), top<Ch>(), names);
            for (int k = 0; k < 4; ++k)
            {
                const Text in = any_input(g, a, 50);
                const u64 st = g.below(static_cast<u64>(a.s.states));
                const bool bol = g.chance(1, 2);
                const auto w = lex_of(sm, in, bol, st);
                compare(c, "dump-lexes-differently", lex_csm(back, in, bol, st), w, a.desc, h::visw(in));
                c.count("matched_tokens", stat_of(w, Sm<Ch>::traits::npos()).tokens);
            }
        }
        Csm direct;
        try { lexertl::basic_generator<Rules<Ch>, Csm>::build(lr, direct); } catch (const lexertl::runtime_error&) { return; }
        dumps<Ch>(c, direct, lr, nullptr, a.desc + " direct");
        c.nontrivial(h::hash_str(a.desc));
    }
    void built_narrow(Ctx& c, u64, Rng& g) { built<char>(c, g); }
    void built_wide(Ctx& c, u64 i, Rng& g) { if (i & 1) built<wchar_t>(c, g); else built<char32_t>(c, g); }

    // Machines made of nothing but awkward sets and numbers.
    template<class Ch>
    void made(Ctx& c, Rng& g)
    {
        using Csm = lexertl::basic_char_state_machine<Ch, std::uint16_t>;
        Rules<Ch> lr;
        static const Ch name[] = {'O', 'n', 'e', 0}, name2[] = {'T', 'w', 'o', 0};
        const u64 dfas = g.in(1, 3);
        if (dfas > 1) lr.push_state(name);
        if (dfas > 2) lr.push_state(name2);
        Csm m;
        const std::string nasty = "[]^-\\<>&;\"'/|(){}*+?.$ #09afAFxnZ~";
        auto any_ch = [&]() -> u32
        {
            switch (g.below(6))
            {
            case 0: return static_cast<u32>(g.below(33));
            case 1: return static_cast<u32>(g.in(0x7e, 0x81));
            case 2: { const u32 t = top<Ch>(); return t - static_cast<u32>(g.below(3)); }
            case 3: return sizeof(Ch) == 1 ? static_cast<u32>(g.below(256)) : g.chance(1, 2) ? static_cast<u32>(g.in(0xfffe, 0x10001)) : static_cast<u32>(g.below(u64(top<Ch>()) + 1));
            default: return static_cast<unsigned char>(nasty[g.below(nasty.size())]);
            }
        };
        for (u64 d = 0; d < dfas; ++d)
        {
            const u64 n = g.in(1, 6);
            m._sm_vector.emplace_back(n);
            auto& dfa = m._sm_vector.back();
            if (g.chance(1, 2)) dfa._bol_index = static_cast<std::uint16_t>(g.below(n));
            for (auto& s : dfa._states)
            {
                auto num = [&] { return static_cast<std::uint16_t>(g.chance(1, 4) ? Csm::npos() - g.below(3) : g.below(300)); };
                if (g.chance(1, 2))
                {
                    s._end_state = true;
                    s._id = num();
                    s._user_id = num();
                    s._next_dfa = static_cast<std::uint16_t>(g.below(dfas));
                    switch (g.below(3))
                    {
                    case 0: s._push_pop_dfa = Csm::state::push_pop_dfa::push_dfa; s._push_dfa = static_cast<std::uint16_t>(g.below(dfas)); break;
                    case 1: s._push_pop_dfa = Csm::state::push_pop_dfa::pop_dfa; break;
                    default: break;
                    }
                }
                if (g.chance(1, 3)) s._eol_index = static_cast<std::uint16_t>(g.below(n));
                for (u64 k = g.below(4); k; --k)
                {
                    ref::CS cs;
                    for (u64 z = g.in(1, 5); z; --z)
                    {
                        u32 a = any_ch(), b = a;
                        switch (g.below(4)) { case 0: b = any_ch(); break; case 1: b = std::min(a + 1, top<Ch>()); break; case 2: b = std::min(a + 2, top<Ch>()); break; default: break; }
                        cs.add(std::min(a, b), std::max(a, b));
                    }
                    if (g.chance(1, 4)) { const ref::CS inv = cs.inv(top<Ch>()); if (!inv.empty()) cs = inv; }
                    auto& t = s._transitions[static_cast<std::uint16_t>(g.below(n))];
                    t._ranges.clear();
                    for (auto& r : cs.r) t._ranges.push_back({r.first, r.second});
                }
            }
        }
        const std::string desc = text_of(m);
        c.note(desc);
        dumps<Ch>(c, m, lr, nullptr, desc);
        c.nontrivial(h::hash_str(desc));
    }
    void made_narrow(Ctx& c, u64, Rng& g) { made<char>(c, g); }
    void made_wide(Ctx& c, u64 i, Rng& g) { if (i & 1) made<wchar_t>(c, g); else made<char32_t>(c, g); }
    // Every pair and triple of neighbouring awkward characters in one set.
    void pairs(Ctx& c)
    {
        using Csm = lexertl::basic_char_state_machine<char, std::uint16_t>;
        Rules<char> lr;
        for (int a = 0; a < 256; ++a)
        {
            Csm m;
            m._sm_vector.emplace_back(257);
            for (int b = 0; b < 256; ++b)
            {
                ref::CS cs(static_cast<u32>(a), static_cast<u32>(a));
                cs.add(static_cast<u32>(b), static_cast<u32>(b));
                if (b < a) cs = ref::CS(static_cast<u32>(b), static_cast<u32>(a)); // ranges for the other half
                for (auto& r : cs.r) m._sm_vector[0]._states[static_cast<std::size_t>(b)]._transitions[static_cast<std::uint16_t>(b + 1)]._ranges.push_back({static_cast<unsigned char>(r.first), static_cast<unsigned char>(r.second)});
            }
            dumps<char>(c, m, lr, nullptr, "pairs of " + std::to_string(a));
        }
        c.count("pairs", 65536);
    }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {{"pairs", pairs}}, {{"built-narrow", built_narrow}, {"built-wide", built_wide}, {"made-narrow", made_narrow}, {"made-wide", made_wide}});
}
