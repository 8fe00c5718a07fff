// Adapters that drive the real library and record what it delivers.
#pragma once
#include "ref.hpp"
#include <locale>
#include <lexertl/generator.hpp>
#include <lexertl/iterator.hpp>
#include <lexertl/lookup.hpp>
#include <lexertl/match_results.hpp>
#include <lexertl/rules.hpp>
#include <lexertl/state_machine.hpp>

namespace lx
{
    using h::Ctx;
    using h::Rng;
    using h::u32;
    using h::u64;
    using ref::Rule;
    using ref::Text;
    using ref::Tok;

    constexpr std::size_t ALL_FLAGS = +lexertl::feature_bit::bol | +lexertl::feature_bit::eol |
        +lexertl::feature_bit::skip | +lexertl::feature_bit::again | +lexertl::feature_bit::multi_state |
        +lexertl::feature_bit::advance;

    constexpr std::size_t LENIENT = static_cast<std::size_t>(lexertl::regex_flags::dot_not_newline) |
        static_cast<std::size_t>(lexertl::regex_flags::allow_suppressed_rules);

    template<class Ch, class Id = std::uint16_t>
    using Rules = lexertl::basic_rules<Ch, Ch, Id>;
    template<class Ch, class Id = std::uint16_t>
    using Sm = lexertl::basic_state_machine<Ch, Id>;

    // An exactly sized heap copy, so that a read past either end is caught.
    template<class Ch>
    struct Exact
    {
        std::unique_ptr<Ch[]> p;
        std::size_t n;
        explicit Exact(const Text& t) : p(new Ch[t.size()]), n(t.size())
        {
            for (std::size_t i = 0; i < n; ++i) p[i] = static_cast<Ch>(t[i]);
        }
        const Ch* begin() const { return p.get(); }
        const Ch* end() const { return p.get() + n; }
    };

    template<class S, class Res, class It>
    Tok one(const S& sm, Res& r, const It& b)
    {
        Tok t;
        try { lexertl::lookup(sm, r); }
        catch (const lexertl::runtime_error& e)
        {
            if (std::string(e.what()).find("tack underflow") == std::string::npos) throw;
            t.underflow = true;
            return t;
        }
        t.id = r.id;
        t.uid = r.user_id;
        t.b = static_cast<std::size_t>(std::distance(b, r.first));
        t.e = static_cast<std::size_t>(std::distance(b, r.second));
        t.bol = r.bol;
        t.state = r.state;
        return t;
    }

    template<class S, class Res, class It>
    std::vector<Tok> lex_with(const S& sm, Res& r, const It& b, std::size_t limit)
    {
        std::vector<Tok> v;
        while (v.size() < limit)
        {
            v.push_back(one(sm, r, b));
            if (v.back().underflow || v.back().id == 0) break;
        }
        return v;
    }
    template<class S, class It>
    std::vector<Tok> lex_rec(const S& sm, const It& b, const It& e, std::size_t limit, bool bol = true, u64 state = 0)
    {
        using Id = typename S::id_type;
        lexertl::recursive_match_results<It, Id> r(b, e, bol, static_cast<Id>(state));
        return lex_with(sm, r, b, limit);
    }
    template<class S, class It>
    std::vector<Tok> lex_plain(const S& sm, const It& b, const It& e, std::size_t limit, bool bol = true, u64 state = 0)
    {
        using Id = typename S::id_type;
        lexertl::match_results<It, Id> r(b, e, bol, static_cast<Id>(state));
        return lex_with(sm, r, b, limit);
    }

    inline std::string show(const std::vector<Tok>& v, std::size_t around)
    {
        std::string s;
        const std::size_t b = around > 2 ? around - 2 : 0;
        for (std::size_t i = b; i < v.size() && i < around + 3; ++i) s += ref::show(v[i]) + " ";
        if (around >= v.size()) s += "<no more tokens>";
        return s;
    }
    inline long first_diff(const std::vector<Tok>& a, const std::vector<Tok>& b)
    {
        for (std::size_t i = 0; i < a.size() || i < b.size(); ++i)
            if (i >= a.size() || i >= b.size() || !(a[i] == b[i])) return static_cast<long>(i);
        return -1;
    }
    inline std::string show_rules(const std::vector<Rule>& rules)
    {
        std::ostringstream o;
        for (auto& r : rules)
        {
            o << "[";
            for (std::size_t i = 0; i < r.states.size(); ++i) o << (i ? "," : "") << "S" << r.states[i];
            o << " " << r.text << " id=" << (r.noid ? std::string("none") : r.skip ? std::string("skip") : std::to_string(r.id)) << " uid=" << r.uid;
            if (r.exit >= 0) o << " ->S" << r.exit;
            if (r.push) { o << " push"; if (r.push_state >= 0) o << ":S" << r.push_state; }
            if (r.pop) o << " pop";
            o << "] ";
        }
        return o.str();
    }

    // Compares library tokens with the reference; fails the case on a difference.
    inline void compare(Ctx& c, const std::string& sig, const std::vector<Tok>& got, const std::vector<Tok>& want,
        const std::string& rules, const std::string& input)
    {
        const long d = first_diff(got, want);
        if (d < 0) return;
        c.fail(sig, "rules: " + rules + " input: " + input + " at token " + std::to_string(d) +
            " got: " + show(got, static_cast<std::size_t>(d)) + " expected: " + show(want, static_cast<std::size_t>(d)));
    }

    template<class Ch>
    std::string show_text(const Text& t) { return h::visw(t); }

    // Locales that group the digits of numbers, and streams in any state.
    template<class Ch>
    struct Grouping : std::numpunct<Ch>
    {
        Ch do_thousands_sep() const override { return static_cast<Ch>(','); }
        std::string do_grouping() const override { return "\1"; }
    };
    inline std::locale grouping() { return std::locale(std::locale(std::locale::classic(), new Grouping<char>), new Grouping<wchar_t>); }
    struct World
    {
        std::locale old;
        World(Ctx& c, Rng& g)
        {
            if (!g.chance(1, 3)) return;
            std::locale::global(grouping());
            c.count("grouping_locale_cases");
        }
        ~World() { std::locale::global(old); }
    };
    template<class S>
    void dress(S& s, Rng& g)
    {
        if (g.chance(1, 3)) s.imbue(g.chance(1, 2) ? grouping() : std::locale::classic());
        if (!g.chance(1, 3)) return;
        s.setf(g.chance(1, 2) ? std::ios_base::hex : std::ios_base::oct, std::ios_base::basefield);
        if (g.chance(1, 2)) s.setf(std::ios_base::showbase);
        if (g.chance(1, 2)) s.setf(std::ios_base::showpos);
        if (g.chance(1, 2)) s.setf(std::ios_base::uppercase);
        if (g.chance(1, 2)) s.unsetf(std::ios_base::skipws);
    }

    // Name of lexer state i in generated multi-state rules.
    inline std::string state_name(int i)
    {
        if (i == 0) return "INITIAL";
        static const char* n[] = {"", "ALPHA", "B_2", "_c-3", "Dd", "E5"};
        return n[i];
    }
    template<class Ch> std::basic_string<Ch> nm(const std::string& s) { return std::basic_string<Ch>(s.begin(), s.end()); }

    // Pushes one rule given its spelled regex, through one of the overloads.
    template<class R>
    void push_rule(R& rules, const Rule& r, const std::u32string& text, bool multi, bool all_states)
    {
        using Ch = typename R::rules_char_type;
        using Id = typename R::id_type;
        const auto s = ref::to<Ch>(text);
        const Id id = r.skip ? rules.skip() : static_cast<Id>(r.id);
        const Id uid = static_cast<Id>(r.uid);
        u64 form = s.size() + r.id;
        for (auto ch : s) form = form * 31 + static_cast<u64>(ch);
        form = form / 7 % 6;
        const Exact<Ch> whole(text);
        const bool zero = s.find(Ch{}) != s.npos;
        if (!multi)
        {
            if (form == 0) rules.push(whole.begin(), whole.end(), id, uid);
            else if (form == 1 && !zero) rules.push(s.c_str(), id, uid);
            else if (form == 2 && !zero && uid == rules.npos()) rules.push(s.c_str(), id);
            else if (form == 3 && uid == rules.npos()) rules.push(s, id);
            else rules.push(s, id, uid);
            return;
        }
        std::string cur;
        if (all_states) cur = "*";
        else for (std::size_t i = 0; i < r.states.size(); ++i) cur += (i ? "," : "") + state_name(r.states[i]);
        std::string exit;
        if (r.pop) exit = "<";
        else
        {
            if (r.push) exit = ">";
            exit += r.exit < 0 ? "." : state_name(r.exit);
            if (r.push && r.push_state >= 0) exit += ":" + state_name(r.push_state);
        }
        const auto c = nm<Ch>(cur), x = nm<Ch>(exit);
        if (r.noid)
        {
            if (form == 0) rules.push(c.c_str(), whole.begin(), whole.end(), x.c_str());
            else if (form == 1 && !zero) rules.push(c.c_str(), s.c_str(), x.c_str());
            else rules.push(c.c_str(), s, x.c_str());
        }
        else if (form == 0) rules.push(c.c_str(), whole.begin(), whole.end(), id, x.c_str(), uid);
        else if (form == 1 && !zero) rules.push(c.c_str(), s.c_str(), id, x.c_str(), uid);
        else if (form == 2 && !zero && uid == rules.npos()) rules.push(c.c_str(), s.c_str(), id, x.c_str());
        else if (form == 3 && uid == rules.npos()) rules.push(c.c_str(), s, id, x.c_str());
        else if (form == 4 && uid == rules.npos()) rules.push(c.c_str(), whole.begin(), whole.end(), id, x.c_str());
        else rules.push(c.c_str(), s, id, x.c_str(), uid);
    }
    template<class R, class S>
    void build(const R& rules, S& sm)
    {
        lexertl::basic_generator<R, S>::build(rules, sm);
    }
}
