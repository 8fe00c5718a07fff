// B03: id types too small for a rule set are refused, never silently wrong.
#include "anyset.hpp"
#if defined(B03_BIG)
#define BIG 1
#else
#define BIG 0
#endif
using namespace lx;
namespace
{
    using u16 = std::uint16_t;
    constexpr u64 NP = ~u64(0), SK = NP - 1;
    struct PRule { std::string cur; std::u32string text; u64 id, uid; std::string exit; };
    // A rule set that does not depend on the id type.
    struct Plan
    {
        std::size_t flags = LENIENT;
        std::vector<std::string> states;
        std::vector<PRule> rules;
        std::string desc;
        u64 charsets = 0; // distinct character sets known to be needed in one lexer state
    };
    template<class Id> Id cv(u64 v) { return static_cast<Id>(v); } // NP and SK keep their meaning
    template<class R> void fill(R& r, const Plan& p)
    {
        using Ch = typename R::rules_char_type;
        using Id = typename R::id_type;
        r.flags(p.flags);
        for (auto& s : p.states) r.push_state(nm<Ch>(s).c_str());
        for (auto& q : p.rules)
        {
            std::basic_string<Ch> t;
            for (auto ch : q.text) t += static_cast<Ch>(ch);
            if (q.cur.empty()) r.push(t, cv<Id>(q.id), cv<Id>(q.uid));
            else r.push(nm<Ch>(q.cur).c_str(), t, cv<Id>(q.id), nm<Ch>(q.exit).c_str(), cv<Id>(q.uid));
        }
    }
    struct Facts { u64 rows = 0, alphabet = 0, states = 0; };
    template<class S> Facts facts(const S& sm)
    {
        Facts f;
        auto& d = sm.data();
        f.states = d._dfa.size();
        for (std::size_t i = 0; i < d._dfa.size(); ++i)
        {
            f.alphabet = std::max<u64>(f.alphabet, d._dfa_alphabet[i]);
            f.rows = std::max<u64>(f.rows, d._dfa[i].size() / d._dfa_alphabet[i]);
        }
        return f;
    }
    bool too_small(const std::string& m) { return m.find("id_type") != std::string::npos; }

    template<class Ch, class Id> struct Built
    {
        std::string msg, cmsg;
        Sm<Ch, Id> sm, small;
        lexertl::basic_char_state_machine<Ch, Id> csm;
        explicit Built(const Plan& p)
        {
            using R = Rules<Ch, Id>;
            R r(LENIENT);
            try { fill(r, p); }
            catch (const lexertl::runtime_error& e) { msg = cmsg = std::string("x") + e.what(); return; }
            try { lexertl::basic_generator<R, Sm<Ch, Id>>::build(r, sm); small = sm; small.minimise(); }
            catch (const lexertl::runtime_error& e) { msg = std::string("x") + e.what(); }
            try { lexertl::basic_generator<R, lexertl::basic_char_state_machine<Ch, Id>>::build(r, csm); }
            catch (const lexertl::runtime_error& e) { cmsg = std::string("x") + e.what(); }
        }
        static std::vector<Tok> norm(std::vector<Tok> v)
        {
            const u64 np = static_cast<Id>(~0);
            for (auto& t : v) { if (t.id == np) t.id = NP; if (t.uid == np) t.uid = NP; }
            return v;
        }
        std::vector<Tok> lex(const Text& in, bool bol, u64 st) const { return norm(lex_of(sm, in, bol, st)); }
        std::vector<Tok> lex_small(const Text& in, bool bol, u64 st) const { return norm(lex_of(small, in, bol, st)); }
        std::vector<Tok> lexc(const Text& in, bool bol, u64 st) const { return norm(lex_csm(csm, in, bol, st)); }
    };

    // Texts that lead to every row of a table over single characters.
    template<class S> std::vector<std::pair<u64, Text>> paths(const S& sm, Rng& g, std::size_t most)
    {
        std::vector<std::pair<u64, Text>> out;
        auto& d = sm.data();
        for (std::size_t st = 0; st < d._dfa.size(); ++st)
        {
            const std::size_t a = d._dfa_alphabet[st];
            std::map<u64, u32> cols;
            for (u32 ch = 0; ch < d._lookup[st].size(); ++ch) if (g.chance(1, 3) || !cols.count(d._lookup[st][ch])) cols[d._lookup[st][ch]] = ch;
            std::map<u64, Text> seen{{1, Text()}};
            std::deque<u64> q{1};
            while (!q.empty())
            {
                const u64 row = q.front();
                q.pop_front();
                for (auto& col : cols)
                {
                    const u64 to = d._dfa[st][row * a + col.first];
                    if (!to || seen.count(to)) continue;
                    Text t = seen[row];
                    t.push_back(col.second);
                    seen[to] = t;
                    q.push_back(to);
                }
            }
            for (auto& s : seen) out.push_back({st, s.second});
        }
        for (std::size_t i = out.size(); i > 1; --i) std::swap(out[i - 1], out[g.below(i)]);
        if (out.size() > most) out.resize(most);
        return out;
    }
    struct In { u64 st; Text t; bool bol; };

    template<class Ch, class Id> void against(Ctx& c, const Plan& p, const Built<Ch, u64>& w, const Facts& wf, const std::vector<In>& ins,
        const std::vector<std::vector<Tok>>& want, const std::string& width)
    {
        const u64 most = static_cast<Id>(~0);
        Built<Ch, Id> n(p);
        c.count("narrow_builds");
        const std::string who = width + " " + p.desc;
        const bool big = wf.rows > most || wf.alphabet > most + 1 || p.states.size() + 1 > most || p.charsets > most;
        if (!w.msg.empty() && n.msg.empty()) c.fail("built-what-the-widest-refuses", who + " " + w.msg);
        if (!w.cmsg.empty() && n.cmsg.empty()) c.fail("built-what-the-widest-refuses", who + " " + w.cmsg);
        for (auto* m : {&n.msg, &n.cmsg})
        {
            const std::string& wm = m == &n.msg ? w.msg : w.cmsg;
            if (!m->empty() && wm.empty() && !too_small(*m)) c.fail("another-error", who + " " + *m);
            if (!m->empty() && too_small(*m)) c.count("refused_as_too_small");
            if (!m->empty() && !too_small(*m)) { c.count("refused_alike"); if (*m != wm) c.fail("message-differs", who + " " + *m + " / " + wm); }
        }
        if (w.msg.empty())
        {
            if (big && n.msg.empty()) c.fail("too-big-but-built", who + " rows " + std::to_string(wf.rows) + " alphabet " + std::to_string(wf.alphabet));
            if (wf.rows * 2 < most && wf.alphabet * 2 < most && p.states.size() * 2 < most && p.charsets * 2 < most && too_small(n.msg) && p.rules.size() * 2 < most)
                c.fail("refused-with-room-to-spare", who + " " + n.msg);
        }
        if (n.msg.empty() && w.msg.empty()) c.count("built_alike");
        for (std::size_t i = 0; i < ins.size(); ++i)
        {
            auto& in = ins[i];
            const std::string shown = h::visw(in.t) + " from " + std::to_string(in.st) + (in.bol ? " bol" : "");
            if (n.msg.empty())
            {
                compare(c, "tokens-differ", n.lex(in.t, in.bol, in.st), want[i], who, shown);
                compare(c, "minimised-tokens-differ", n.lex_small(in.t, in.bol, in.st), want[i], who, shown);
                c.count("inputs_compared");
            }
            if (n.cmsg.empty())
            {
                auto v = n.lexc(in.t, in.bol, in.st), x = w.lexc(in.t, in.bol, in.st);
                compare(c, "character-machine-tokens-differ", v, x, who, shown);
                c.count("character_inputs_compared");
            }
        }
    }
    template<class Ch> void check(Ctx& c, const Plan& p, Rng& g, const std::vector<In>& more)
    {
        c.note(p.desc);
        Built<Ch, u64> w(p);
        std::vector<In> ins = more;
        Facts f;
        if (w.msg.empty())
        {
            f = facts(w.sm);
            c.maxc("rows", f.rows);
            if (sizeof(Ch) == 1)
                for (auto& q : paths(w.sm, g, c.thorough ? 600 : 200))
                {
                    In in{q.first, q.second, g.chance(1, 2)};
                    if (g.chance(1, 3)) in.t.push_back('\n');
                    else if (g.chance(1, 2)) for (unsigned k = 0; k < 4; ++k) in.t.push_back(q.second.empty() ? 'a' : q.second[g.below(q.second.size())]);
                    ins.push_back(in);
                }
        }
        std::vector<std::vector<Tok>> want;
        u64 matched = 0;
        if (w.msg.empty()) for (auto& in : ins)
        {
            want.push_back(w.lex(in.t, in.bol, in.st));
            for (auto& t : want.back()) matched += t.id != NP && t.id != 0;
        }
        else { ins.clear(); c.count("refused_by_the_widest"); }
        if (w.cmsg != w.msg) c.fail("forms-disagree", p.desc + " " + w.msg + " / " + w.cmsg);
        c.count("matched_tokens", matched);
        against<Ch, std::uint8_t>(c, p, w, f, ins, want, "8 bit");
        if (g.chance(1, 3)) against<Ch, u16>(c, p, w, f, ins, want, "16 bit");
        if (g.chance(1, 6)) against<Ch, u32>(c, p, w, f, ins, want, "32 bit");
        if (matched) { c.nontrivial(h::hash_str(p.desc)); }
        c.sample(p.desc.substr(0, 400));
    }

    std::u32string u(const std::string& s) { return std::u32string(s.begin(), s.end()); }
    std::u32string lit(u32 ch)
    {
        char b[20];
        if (ch > 0xff) std::snprintf(b, sizeof b, "\\x%x", ch); else std::snprintf(b, sizeof b, "\\%03o", ch);
        return u(b);
    }
    void describe(Plan& p)
    {
        std::ostringstream o;
        o << "flags " << p.flags << " states " << p.states.size() + 1 << " rules " << p.rules.size() << ": ";
        for (auto& r : p.rules)
        {
            o << '[' << (r.cur.size() > 60 ? r.cur.substr(0, 60) + ".." : r.cur) << ' ' << h::visw(r.text) << ' ' << (r.id == SK ? std::string("skip") : std::to_string(r.id)) << ' ' << r.exit << "] ";
            if (o.str().size() > 6000) { o << "..."; break; }
        }
        p.desc = o.str();
    }
    u64 an_id(Rng& g, std::size_t i) { return g.chance(1, 14) ? SK : g.chance(1, 2) ? 1 + i % 250 : static_cast<u64>(g.in(1, 253)); }

    // Many words: about `goal` rows.
    Plan rows(Rng& g, u64 goal, std::vector<In>& ins)
    {
        Plan p;
        std::set<std::string> prefixes;
        std::vector<std::string> words;
        const unsigned letters = 2 + static_cast<unsigned>(g.below(8));
        const u64 longest = g.in(3, 9);
        const bool ends = g.chance(1, 3), begins = g.chance(1, 3);
        u64 extra = 2;
        while (prefixes.size() + extra < goal)
        {
            std::string w;
            for (u64 k = static_cast<u64>(g.in(2, static_cast<long>(longest))); k; --k) w += static_cast<char>('a' + g.below(letters));
            if (!words.empty() && g.chance(1, 3)) w = g.pick(words) + w;
            for (std::size_t k = 1; k <= w.size(); ++k) prefixes.insert(w.substr(0, k));
            words.push_back(w);
            std::u32string t = u(w);
            if (g.chance(1, 10)) { t += U"+"; }
            if (ends && g.chance(1, 6)) { t += U"$"; ++extra; }
            if (begins && g.chance(1, 8)) t = U"^" + t;
            p.rules.push_back({"", t, an_id(g, p.rules.size()), g.chance(1, 2) ? NP : g.below(250), ""});
        }
        if (g.chance(1, 3)) p.rules.push_back({"", U"[a-z]+", 252, NP, ""});
        if (g.chance(1, 3)) p.rules.push_back({"", U"\\n", 251, NP, ""});
        if (g.chance(1, 4)) p.flags = static_cast<std::size_t>(lexertl::regex_flags::dot_not_newline);
        for (unsigned k = 0; k < 8; ++k)
        {
            Text t;
            for (unsigned q = 0; q < 6; ++q) { for (char ch : g.pick(words)) t.push_back(static_cast<u32>(ch)); if (g.chance(1, 3)) t.push_back(g.chance(1, 2) ? '\n' : 'z'); }
            ins.push_back({0, t, g.chance(1, 2)});
        }
        describe(p);
        return p;
    }
    // Many characters, each in a class of its own.
    Plan classes(Rng& g, u64 goal, u32 max, std::vector<In>& ins)
    {
        Plan p;
        std::vector<u32> ch;
        for (u32 k = 0; k <= std::min<u32>(max, 255 + (max > 255 ? 80 : 0)); ++k) ch.push_back(k);
        for (std::size_t k = ch.size(); k > 1; --k) std::swap(ch[k - 1], ch[g.below(k)]);
        if (ch.size() > goal) ch.resize(goal);
        if (max <= 0xff) p.charsets = ch.size(); // wide characters are split into bytes
        const bool eol = g.chance(1, 3), anys = g.chance(1, 3);
        if (eol) p.rules.push_back({"", U"\\n$", 251, NP, ""});
        std::u32string t;
        u64 in_rule = 0;
        for (std::size_t k = 0; k < ch.size(); ++k)
        {
            t += (in_rule ? U"|" : U"") + lit(ch[k]);
            if (++in_rule == 12 || g.chance(1, 8) || k + 1 == ch.size())
            {
                if (g.chance(1, 3)) t = U"(" + t + U")+";
                p.rules.push_back({"", t, an_id(g, p.rules.size()), NP, ""});
                t.clear();
                in_rule = 0;
            }
        }
        if (anys) p.rules.push_back({"", U"(.|\\n)", 252, NP, ""});
        for (unsigned k = 0; k < 12; ++k)
        {
            Text x;
            for (unsigned q = 0; q < 30; ++q) x.push_back(g.chance(1, 20) ? '\n' : g.pick(ch));
            ins.push_back({0, x, true});
        }
        describe(p);
        return p;
    }
    // Many different sets over few characters.
    Plan charsets(Rng& g, u64 goal, std::vector<In>& ins)
    {
        Plan p;
        const u64 letters = static_cast<u64>(g.in(9, 12));
        std::set<u64> used;
        std::vector<std::u32string> sets;
        while (used.size() < goal)
        {
            const u64 bits = 1 + g.below((u64(1) << letters) - 1);
            if (!used.insert(bits).second) continue;
            std::u32string s = U"[";
            for (u64 k = 0; k < letters; ++k) if (bits >> k & 1) s += static_cast<char32_t>('a' + k);
            sets.push_back(s + U"]");
        }
        p.charsets = used.size();
        std::size_t at = 0;
        const u64 per = static_cast<u64>(g.in(1, 20));
        // alternatives of rare sets behind a letter of their own, so each shows in the tokens
        while (at < sets.size())
        {
            std::u32string t;
            for (u64 k = 0; k < per && at < sets.size(); ++k, ++at)
            {
                if (k) t += U"|";
                t += sets[at];
                if (g.chance(1, 3)) t += static_cast<char32_t>('a' + g.below(letters));
            }
            p.rules.push_back({"", t, an_id(g, p.rules.size()), NP, ""});
        }
        if (g.chance(1, 3)) { p.rules.insert(p.rules.begin() + static_cast<long>(g.below(p.rules.size())), {"", U"a$", 251, NP, ""}); p.charsets += 2; }
        if (g.chance(1, 3)) p.rules.insert(p.rules.begin() + static_cast<long>(g.below(p.rules.size())), {"", U"^b", 250, NP, ""});
        for (unsigned k = 0; k < 12; ++k)
        {
            Text x;
            for (unsigned q = 0; q < 30; ++q) x.push_back(g.chance(1, 20) ? '\n' : 'a' + static_cast<u32>(g.below(letters)));
            ins.push_back({0, x, g.chance(1, 2)});
        }
        describe(p);
        return p;
    }
    std::string sn(u64 i) { return i ? "S" + std::to_string(i) : "INITIAL"; }
    // Many lexer states.
    Plan states(Rng& g, u64 goal, std::vector<In>& ins)
    {
        Plan p;
        for (u64 k = 1; k < goal; ++k) p.states.push_back(sn(k));
        const bool pushing = g.chance(1, 2);
        auto any = [&] { return g.chance(1, 3) ? sn(goal - 1 - g.below(std::min<u64>(goal, 8))) : sn(g.below(goal)); };
        for (u64 k = 0; k < goal; ++k)
        {
            p.rules.push_back({sn(k), U"a", 1 + k % 250, k % 250, any()});
            if (g.chance(1, 2)) p.rules.push_back({sn(k), U"b+", 251, NP, any()});
            if (pushing && g.chance(1, 2)) p.rules.push_back({sn(k), U"c", 252, NP, ">" + any() + ":" + any()});
        }
        if (pushing) p.rules.push_back({"*", U"d", 253, NP, "<"});
        if (g.chance(1, 2)) p.rules.push_back({"*", U"e", SK, NP, "."});
        if (g.chance(1, 2)) p.rules.push_back({sn(goal - 1), U"f", 250, NP, sn(0)});
        for (unsigned k = 0; k < 30; ++k)
        {
            Text x;
            for (unsigned q = 0; q < 40; ++q) x.push_back('a' + static_cast<u32>(g.below(pushing ? 7 : 3)));
            ins.push_back({g.below(goal), x, true});
        }
        describe(p);
        return p;
    }
    // Many rules spread over several lexer states, some of which cannot match.
    Plan many(Rng& g, u64 goal, std::vector<In>& ins)
    {
        Plan p;
        const u64 n = static_cast<u64>(g.in(2, 6));
        for (u64 k = 1; k < n; ++k) p.states.push_back(sn(k));
        if (g.chance(3, 4)) p.flags = static_cast<std::size_t>(lexertl::regex_flags::dot_not_newline);
        std::vector<std::vector<std::string>> words(n);
        std::vector<std::set<std::string>> used(n);
        for (u64 k = 0; k < goal; ++k)
        {
            const u64 st = k % n;
            std::string w;
            do { w.clear(); for (unsigned q = 1 + static_cast<unsigned>(g.below(2)) + (g.chance(1, 4)); q; --q) w += static_cast<char>('a' + g.below(9)); } while (!used[st].insert(w).second);
            words[st].push_back(w);
        }
        const unsigned hidden = static_cast<unsigned>(g.below(3));
        for (unsigned k = 0; k < hidden; ++k)
        {
            auto& v = words[g.below(n)];
            const std::size_t from = g.below(v.size());
            v.insert(v.begin() + static_cast<long>(g.in(static_cast<long>(from) + 1, static_cast<long>(v.size()))), v[from]);
        }
        for (u64 st = 0; st < n; ++st)
            for (auto& w : words[st]) p.rules.push_back({sn(st), u(w), an_id(g, p.rules.size()), g.below(250), g.chance(1, 2) ? "." : sn(g.below(n))});
        for (unsigned k = 0; k < 30; ++k)
        {
            Text x;
            for (unsigned q = 0; q < 40; ++q) x.push_back('a' + static_cast<u32>(g.below(9)));
            ins.push_back({g.below(n), x, true});
        }
        describe(p);
        return p;
    }
    template<class Ch> void limits(Ctx& c, u64 i, Rng& g)
    {
        const u32 max = sizeof(Ch) == 1 ? 0xff : 0x10ffff;
        std::vector<In> ins;
        Plan p;
        // half of the sets within a few of the limit
        auto goal = [&](u64 limit) { return g.chance(1, 2) ? limit - 5 + g.below(11) : static_cast<u64>(g.in(static_cast<long>(limit) - 120, static_cast<long>(limit) + 120)); };
        switch (i % 5)
        {
        case 0: p = rows(g, goal(254), ins); c.count("row_sets"); break;
        case 1: p = classes(g, goal(248), max, ins); c.count("class_sets"); break;
        case 2: p = charsets(g, goal(253), ins); c.count("charset_sets"); break;
        case 3: p = states(g, goal(255), ins); c.count("state_sets"); break;
        default: p = many(g, g.chance(1, 3) ? goal(511) : goal(255), ins); c.count("rule_sets");
        }
        check<Ch>(c, p, g, ins);
    }

    // Any features at all, well within the limits of every type.
    template<class Ch, class Id> void random_one(Ctx& c, const Any& a, const Sm<Ch, u64>& w, Rng at, u32 max, const AnyOpt& o, const std::vector<In>& ins,
        const std::vector<std::vector<Tok>>& want, const std::string& width)
    {
        Rules<Ch, Id> r(LENIENT);
        const auto b = any_rules(at, r, max, o);
        if (b.desc != a.desc) throw std::logic_error("rule sets differ: " + a.desc + " / " + b.desc);
        Sm<Ch, Id> sm;
        const Facts f = facts(w);
        c.count("narrow_builds");
        try { build(r, sm); }
        catch (const lexertl::runtime_error& e)
        {
            if (!too_small(e.what()) || (f.rows < 120 && f.alphabet < 120)) c.fail("refused-with-room-to-spare", width + " " + a.desc + " " + e.what());
            c.count("refused_as_too_small");
            return;
        }
        if (f.rows > static_cast<Id>(~0) || f.alphabet > static_cast<Id>(~0)) c.fail("too-big-but-built", width + " " + a.desc);
        c.count("built_alike");
        for (std::size_t i = 0; i < ins.size(); ++i)
        {
            compare(c, "tokens-differ", Built<Ch, Id>::norm(lex_of(sm, ins[i].t, ins[i].bol, ins[i].st)), want[i], width + " " + a.desc, h::visw(ins[i].t));
            c.count("inputs_compared");
        }
    }
    template<class Ch> void random(Ctx& c, u64, Rng& g)
    {
        const u32 max = sizeof(Ch) == 1 ? 0xff : 0x10ffff;
        AnyOpt o;
        o.max_rules = 8;
        const Rng at = g;
        Rules<Ch, u64> r(LENIENT);
        const auto a = any_rules(g, r, max, o);
        c.note(a.desc);
        Sm<Ch, u64> w;
        build(r, w);
        std::vector<In> ins;
        std::vector<std::vector<Tok>> want;
        u64 matched = 0;
        for (unsigned k = 0; k < 12; ++k)
        {
            ins.push_back({g.chance(1, 3) ? g.below(static_cast<u64>(a.f.states)) : 0, any_input(g, a, 40), g.chance(3, 4)});
            want.push_back(Built<Ch, u64>::norm(lex_of(w, ins.back().t, ins.back().bol, ins.back().st)));
            for (auto& t : want.back()) matched += t.id != NP && t.id != 0;
        }
        c.count("matched_tokens", matched);
        random_one<Ch, std::uint8_t>(c, a, w, at, max, o, ins, want, "8 bit");
        random_one<Ch, u16>(c, a, w, at, max, o, ins, want, "16 bit");
        random_one<Ch, u32>(c, a, w, at, max, o, ins, want, "32 bit");
        if (matched) c.nontrivial(h::hash_str(a.desc));
    }

    // The 16-bit limits, from both sides.
    template<class Id, class F> std::string outcome(F f, Sm<char, Id>& sm)
    {
        Rules<char, Id> r(LENIENT);
        try { f(r); lexertl::basic_generator<Rules<char, Id>, Sm<char, Id>>::build(r, sm); return ""; }
        catch (const lexertl::runtime_error& e) { return e.what(); }
    }
    template<class F> void sixteen(Ctx& c, const std::string& what, F f, bool fits, const std::vector<In>& ins)
    {
        Sm<char, u32> w;
        Sm<char, u16> n;
        const std::string wm = outcome<u32>(f, w), nm = outcome<u16>(f, n);
        if (!wm.empty()) c.fail("refused-with-room-to-spare", what + ": " + wm);
        if (fits != nm.empty() || (!fits && !too_small(nm))) c.fail(fits ? "refused-with-room-to-spare" : "too-big-but-built", what + ": " + nm);
        if (fits)
            for (auto& in : ins)
                compare(c, "tokens-differ", Built<char, u16>::norm(lex_of(n, in.t, in.bol, in.st)), Built<char, u32>::norm(lex_of(w, in.t, in.bol, in.st)), what, "");
        c.count("sixteen_bit_limits");
        c.nontrivial(h::hash_str(what));
    }
    void rows16(Ctx& c)
    {
        for (u64 n : {65532, 65533, 65534, 65600})
        {
            std::vector<In> ins{{0, Text(n, 'a'), true}, {0, Text(n + 1, 'a'), true}};
            const std::string s = "a{" + std::to_string(n) + "}";
            // jam row, start row and one for every letter; the last number is taken
            sixteen(c, s, [&](auto& r) { r.push(s, 1); }, n + 2 < 65535, ins);
        }
    }
    void states16(Ctx& c)
    {
        for (u64 n : {65000, 65534, 65535, 65536, 65600})
        {
            std::vector<In> ins;
            for (u64 k : {u64(0), n - 1, n / 2}) ins.push_back({k, {'a', 'a', 'b', 'a'}, true});
            sixteen(c, std::to_string(n) + " lexer states", [&](auto& r)
            {
                for (u64 k = 1; k < n; ++k) r.push_state(sn(k).c_str());
                r.push("*", "a", 1, sn(n - 1).c_str());
                r.push("*", "b", 2, "INITIAL");
            }, n <= 65535, ins);
        }
    }
    void charsets16(Ctx& c)
    {
        for (u64 n : {4000, 65535, 66000})
        {
            std::vector<std::string> sets;
            for (u64 bits = 1; sets.size() < n; ++bits) { std::string s = "["; for (unsigned k = 0; k < 17; ++k) if (bits >> k & 1) s += static_cast<char>('a' + k); sets.push_back(s + "]"); }
            // balanced, as lists of positions are copied at every level
            std::function<std::string(std::size_t, std::size_t)> tree = [&](std::size_t b, std::size_t e)
            { return e - b == 1 ? sets[b] : "(" + tree(b, b + (e - b) / 2) + "|" + tree(b + (e - b) / 2, e) + ")"; };
            const std::string re = tree(0, n);
            auto fill = [&](auto& r) { r.push(re, 1); r.push("z", 2); };
            const std::string what = std::to_string(n) + " character sets";
            if (n == 4000) { sixteen(c, what, fill, true, {{0, {'a', 'q', 'z', 'r'}, true}}); continue; }
            Sm<char, u16> m;
            const std::string msg = outcome<u16>(fill, m);
            if (!too_small(msg)) c.fail("too-big-but-built", what + ": " + msg);
            c.count("sixteen_bit_limits");
        }
    }
    void rules16(Ctx& c)
    {
        // the number of rules is not limited by the ids
        for (u64 n : {65535, 65536, 70000})
            for (bool hidden : {false, true})
            {
                const u64 st = 500;
                auto fill = [&](auto& r)
                {
                    r.flags(static_cast<std::size_t>(lexertl::regex_flags::dot_not_newline));
                    for (u64 k = 1; k < st; ++k) r.push_state(sn(k).c_str());
                    for (u64 k = 0; k < n; ++k)
                    {
                        const u64 q = k / st;
                        std::string w{static_cast<char>('a' + q / 20), static_cast<char>('a' + q % 20)};
                        if (hidden && k == 600) w = "aa";
                        r.push(sn(k % st).c_str(), w, static_cast<std::uint16_t>(1 + k % 1000), ".");
                    }
                };
                Sm<char, u32> w;
                Sm<char, u16> m;
                const std::string wm = outcome<u32>(fill, w), nm = outcome<u16>(fill, m);
                if (wm.empty() == hidden) c.fail("hidden-rule", std::to_string(n) + " rules: " + wm);
                if (hidden && nm.empty()) c.fail("built-what-the-widest-refuses", std::to_string(n) + " rules");
                if (!hidden && nm.empty())
                    for (u64 k : {u64(0), st - 1})
                        compare(c, "tokens-differ", Built<char, u16>::norm(lex_of(m, Text{'a', 'b', 'c', 'd', 'a'}, true, k)), Built<char, u32>::norm(lex_of(w, Text{'a', 'b', 'c', 'd', 'a'}, true, k)), "rules", "");
                c.count("sixteen_bit_limits");
                c.nontrivial(n * 2 + hidden);
            }
    }
}
int main(int argc, char** argv)
{
#if BIG
    return h::run(argc, argv, {{"rows16", rows16}, {"states16", states16}, {"charsets16", charsets16}, {"rules16", rules16}}, {});
#else
    return h::run(argc, argv, {},
        {{"limits", [](Ctx& c, u64 i, Rng& g) { limits<char>(c, i, g); }},
         {"limits-wide", [](Ctx& c, u64 i, Rng& g) { limits<char32_t>(c, i, g); }},
         {"random", [](Ctx& c, u64 i, Rng& g) { if (i % 3) random<char>(c, i, g); else random<char32_t>(c, i, g); }}});
#endif
}
