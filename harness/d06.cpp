// D06: the accessors of results, their reuse, token iterators and ranges.
#include "anyset.hpp"
#include <lexertl/range.hpp>
#include <algorithm>
#include <list>
using namespace h;
namespace
{
    template<class It> constexpr bool random_access = std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<It>::iterator_category>;
    template<class R, class = void> struct has_stack : std::false_type {};
    template<class R> struct has_stack<R, std::void_t<decltype(std::declval<R&>().stack)>> : std::true_type {};

    template<class Ch, class C> C container(const lx::Text& t)
    {
        C c;
        for (auto ch : t) c.push_back(static_cast<Ch>(ch));
        return c;
    }
    template<class Res> void accessors(Ctx& c, Rng& g, const Res& r, const std::basic_string<typename Res::char_type>& text, const std::string& at)
    {
        using S = std::basic_string<typename Res::char_type>;
        if (r.str() != text) c.fail("str", at + " gave " + visw(r.str()) + " expected " + visw(text));
        if constexpr (random_access<typename Res::iter_type>)
        {
            if (r.length() != text.size()) c.fail("length", at + " " + std::to_string(r.length()));
            const auto v = r.view();
            if (S(v.begin(), v.end()) != text) c.fail("view", at + " gave " + visw(S(v.begin(), v.end())));
            if (!text.empty() && v.data() != &*r.first) c.fail("view-elsewhere", at);
            for (unsigned k = 0; k < 4; ++k)
            {
                std::size_t a = g.below(text.size() + 1), b = g.below(text.size() - a + 1);
                if (k == 0) a = b = 0;
                if (k == 1) { a = text.size(); b = 0; }
                if (k == 2) { a = 0; b = text.size(); }
                const S want = text.substr(a, text.size() - a - b);
                const std::string off = at + " offsets " + std::to_string(a) + "," + std::to_string(b);
                if (r.substr(a, b) != want) c.fail("substr", off + " gave " + visw(r.substr(a, b)) + " expected " + visw(want));
                const auto w = r.subview(a, b);
                if (S(w.begin(), w.end()) != want) c.fail("subview", off + " gave " + visw(S(w.begin(), w.end())) + " expected " + visw(want));
                if (!want.empty() && w.data() != &*(r.first + static_cast<long>(a))) c.fail("subview-elsewhere", off);
                c.count("offset_pairs");
            }
        }
        c.count("results_read");
    }
    template<class Res> bool fresh_at(const Res& r, const typename Res::iter_type& b, const typename Res::iter_type& e)
    {
        if constexpr (has_stack<Res>::value) if (!r.stack.empty()) return false;
        return r.id == 0 && r.user_id == Res::npos() && r.first == b && r.second == b && r.eoi == e && r.bol && r.state == 0;
    }
    template<class Res> void differs(Ctx& c, const Res& r, const std::string& at)
    {
        Res x(r);
        if (!(x == r)) c.fail("copy-differs", at);
        auto off = [&](const char* what) { if (x == r) c.fail("equal-despite", std::string(what) + " " + at); x = r; if (!(x == r)) c.fail("assigned-differs", at); };
        ++x.id; off("id");
        ++x.user_id; off("user id");
        x.bol = !x.bol; off("bol");
        ++x.state; off("state");
        if (x.first != x.eoi) { ++x.first; off("first"); }
        if (x.second != x.eoi) { ++x.second; off("second"); }
        if (x.eoi != x.first) { x.eoi = x.first; off("end"); }
        c.count("comparisons");
    }
    template<class Ch, class Sm, class C, class Res, class Iter> void drive(Ctx& c, Rng& g, const Sm& sm, const lx::Text& in, const std::vector<lx::Tok>& want, bool bol, u64 st, const std::string& what)
    {
        using It = typename Res::iter_type;
        using Id = typename Sm::id_type;
        const C text = container<Ch, C>(in);
        It b, e;
        if constexpr (std::is_pointer_v<It>) { b = text.data(); e = b + text.size(); }
        else { b = text.begin(); e = text.end(); }
        auto sub = [&](const lx::Tok& t) { std::basic_string<Ch> s; for (std::size_t i = t.b; i < t.e; ++i) s += static_cast<Ch>(in[i]); return s; };
        auto same = [&](const Res& r, const lx::Tok& t) { return r.id == static_cast<Id>(t.id) && r.user_id == static_cast<Id>(t.uid) && static_cast<std::size_t>(std::distance(b, r.first)) == t.b &&
            static_cast<std::size_t>(std::distance(b, r.second)) == t.e && r.bol == t.bol && r.state == static_cast<Id>(t.state) && r.eoi == e; };
        // reuse: used elsewhere first, then reset
        Res r(b, e, bol, static_cast<Id>(st));
        Res fresh(b, e);
        if (!fresh_at(fresh, b, e)) c.fail("constructed", what);
        Res none;
        if (!(none.first == none.second && none.id == 0 && none.user_id == Res::npos() && none.bol && none.state == 0)) c.fail("default-constructed", what);
        if constexpr (random_access<It>) accessors(c, g, none, std::basic_string<Ch>(), "default-constructed");
        const std::size_t stop = g.below(want.size() + 1);
        bool failed = false;
        for (std::size_t i = 0; i < want.size(); ++i)
        {
            const std::string at = what + " token " + std::to_string(i);
            if (i == stop && g.chance(1, 2)) break;
            try { lexertl::lookup(sm, r); }
            catch (const lexertl::runtime_error&) { if (!want[i].underflow) c.fail("threw", at); failed = true; break; }
            if (want[i].underflow || !same(r, want[i])) c.fail("lookup", at);
            accessors(c, g, r, sub(want[i]), at);
            if (g.chance(1, 4)) differs(c, r, at);
        }
        Res kept(r);
        // a life over another text, then over the beginning of this one
        {
            auto elsewhere = in;
            std::reverse(elsewhere.begin(), elsewhere.end());
            elsewhere.resize(elsewhere.size() / 2 + g.below(5), U'a');
            const C text2 = container<Ch, C>(elsewhere);
            It b2, e2;
            if constexpr (std::is_pointer_v<It>) { b2 = text2.data(); e2 = b2 + text2.size(); }
            else { b2 = text2.begin(); e2 = text2.end(); }
            Res u(b2, e2, g.chance(1, 2), static_cast<Id>(st));
            try { for (u64 k = g.below(6); k; --k) lexertl::lookup(sm, u); } catch (const lexertl::runtime_error&) {}
            const std::size_t len = g.chance(1, 2) ? in.size() : g.below(in.size() + 1);
            const It stop_at = std::next(b, static_cast<std::ptrdiff_t>(len));
            u.reset(b, stop_at);
            if (!fresh_at(u, b, stop_at)) c.fail("reset", what + " from another text to " + std::to_string(len));
            u64 k = 0;
            for (auto& t : lx::lex_of(sm, lx::Text(in.begin(), in.begin() + static_cast<std::ptrdiff_t>(len)), true, 0))
            {
                try { lexertl::lookup(sm, u); }
                catch (const lexertl::runtime_error&) { if (!t.underflow) c.fail("threw", what + " after reset from another text"); break; }
                if (t.underflow || u.id != static_cast<Id>(t.id) || u.user_id != static_cast<Id>(t.uid) || static_cast<std::size_t>(std::distance(b, u.first)) != t.b ||
                    static_cast<std::size_t>(std::distance(b, u.second)) != t.e || u.bol != t.bol || u.state != static_cast<Id>(t.state) || u.eoi != stop_at)
                    c.fail("reset-lookup", what + " token " + std::to_string(k) + " after reset from another text to the first " + std::to_string(len));
                ++k;
            }
            c.count("resets_elsewhere");
        }
        if (g.chance(1, 2))
        {
            r.clear();
            if (!fresh_at(r, e, e)) c.fail("cleared", what + (failed ? " after underflow" : ""));
            lexertl::lookup(sm, r);
            if (r.id != 0 || r.first != e || r.second != e) c.fail("cleared-lookup", what);
            c.count("clears");
        }
        // a second life over the same or another text
        {
            Res& u = g.chance(1, 2) ? r : kept;
            u.reset(b, e);
            if (!fresh_at(u, b, e) || !(u == fresh)) c.fail("reset", what);
            u.bol = bol; u.state = static_cast<Id>(st);
            for (std::size_t i = 0; i < want.size(); ++i)
            {
                try { lexertl::lookup(sm, u); }
                catch (const lexertl::runtime_error&) { if (!want[i].underflow) c.fail("threw", what + " after reset"); break; }
                if (want[i].underflow || !same(u, want[i])) c.fail("reset-lookup", what + " token " + std::to_string(i) + " after reset");
            }
            c.count("resets");
        }
        // iterators
        std::size_t n = 0;
        while (n < want.size() && !want[n].underflow && want[n].b < in.size()) ++n;
        const bool under = n < want.size() && want[n].underflow;
        const Iter end;
        auto expect = [&](const Iter& it, std::size_t i, const char* how)
        {
            const std::string at = what + " " + how + " position " + std::to_string(i);
            if ((it == end) != (i == n) || (it != end) != (i != n) || (end == it) != (i == n)) c.fail("end-comparison", at + " of " + std::to_string(n));
            if (i == n) return;
            if (!same(*it, want[i])) c.fail("iterator-result", at);
            if (&*it != it.operator->()) c.fail("iterator-arrow", at);
            if (&it.sm() != &sm) c.fail("iterator-machine", at);
            c.count("iterator_results");
        };
        try
        {
            // at a line start in the first state is what the last arguments say by default
            const bool two = st == 0 && g.chance(1, 2), three = two && bol && g.chance(1, 2);
            Iter it = three ? Iter(b, e, sm) : two ? Iter(b, e, sm, bol) : Iter(b, e, sm, bol, static_cast<Id>(st)), other(b, e, sm, bol, static_cast<Id>(st));
            c.count("arguments_left_out", two + three);
            std::vector<Iter> seen;
            for (std::size_t i = 0;; ++i)
            {
                expect(it, i, "walk");
                if (!(it == other) || it != other) c.fail("twins-differ", what + " position " + std::to_string(i));
                if (i == n) break;
                seen.push_back(it);
                if (g.chance(1, 2)) { const Iter old = it++; expect(old, i, "post-increment"); ++other; }
                else { Iter& x = ++it; if (&x != &it) c.fail("increment-result", what); const Iter o = other; other = o; other++; }
                if (it != end && it == seen.back()) c.fail("positions-equal", what + " position " + std::to_string(i));
            }
            // old copies still show their tokens and go on from there
            for (std::size_t i = 0; i < seen.size(); ++i) { expect(seen[i], i, "kept"); if (g.chance(1, 3)) { Iter x = seen[i]; ++x; expect(x, i + 1, "resumed"); } }
            std::size_t i = 0;
            lexertl::range<Iter> rg(Iter(b, e, sm, bol, static_cast<Id>(st)), Iter());
            for (const auto& x : rg) { if (i >= n || !same(x, want[i])) c.fail("range-result", what + " position " + std::to_string(i)); ++i; }
            if (i != n) c.fail("range-count", what + " " + std::to_string(i) + " of " + std::to_string(n));
            const Iter first(b, e, sm, bol, static_cast<Id>(st));
            if (static_cast<std::size_t>(std::distance(first, end)) != n) c.fail("distance", what);
            const std::vector<Res> all(first, end);
            for (i = 0; i < n; ++i) if (!same(all[i], want[i])) c.fail("copied-results", what + " position " + std::to_string(i));
            if (under) c.fail("underflow-missed", what);
            c.count("iterator_walks");
        }
        catch (const lexertl::runtime_error& x) { if (!under) c.fail("threw", what + " iterator: " + x.what()); c.count("underflows"); }
    }
    template<class Ch, class SM, class SMatch, class CMatch, class SRMatch, class CRMatch, class SI, class CI, class SRI, class CRI>
    void cases(Ctx& c, u64, Rng& g, u32 max)
    {
        lx::Rules<Ch> lr;
        SM sm;
        const auto a = lx::any_rules(g, lr, max);
        lx::build(lr, sm);
        using S = std::basic_string<Ch>;
        using V = std::vector<Ch>;
        using L = std::list<Ch>;
        const bool rec = (sm.data()._features & +lexertl::feature_bit::recursive) != 0;
        for (unsigned k = 0; k < 3; ++k)
        {
            const auto in = lx::any_input(g, a, g.below(40));
            const bool bol = g.chance(1, 2);
            const u64 st = g.below(sm.data()._dfa.size());
            const auto want = lx::lex_of(sm, in, bol, st);
            const std::string what = a.desc + " input " + visw(in) + " state " + std::to_string(st) + (bol ? "" : " bol off");
            c.note(what);
            // recursive results do for every machine
            if (!rec)
            {
                drive<Ch, SM, S, SMatch, SI>(c, g, sm, in, want, bol, st, what + " string");
                drive<Ch, SM, V, CMatch, CI>(c, g, sm, in, want, bol, st, what + " pointer");
                using VM = lexertl::match_results<typename V::const_iterator>;
                drive<Ch, SM, V, VM, lexertl::iterator<typename V::const_iterator, SM, VM>>(c, g, sm, in, want, bol, st, what + " vector");
            }
            drive<Ch, SM, S, SRMatch, SRI>(c, g, sm, in, want, bol, st, what + " string, recursive");
            drive<Ch, SM, V, CRMatch, CRI>(c, g, sm, in, want, bol, st, what + " pointer, recursive");
            using LM = lexertl::recursive_match_results<typename L::const_iterator>;
            drive<Ch, SM, L, LM, lexertl::iterator<typename L::const_iterator, SM, LM>>(c, g, sm, in, want, bol, st, what + " list");
            unsigned won = 0;
            for (auto& t : want) if (!t.underflow && t.id && t.id != SM::npos()) ++won;
            if (won > 1) { c.nontrivial(hash_str(what)); if (won > 6) c.sample(what); }
        }
    }
}
int main(int argc, char** argv)
{
    using namespace lexertl;
    return h::run(argc, argv, {},
        {{"narrow", [](Ctx& c, u64 i, Rng& g) { cases<char, state_machine, smatch, cmatch, srmatch, crmatch, siterator, citerator, sriterator, criterator>(c, i, g, 255); }},
         {"wide", [](Ctx& c, u64 i, Rng& g) { cases<wchar_t, wstate_machine, wsmatch, wcmatch, wsrmatch, wcrmatch, wsiterator, wciterator, wsriterator, wcriterator>(c, i, g, 0x10ffff); }},
         {"wide32", [](Ctx& c, u64 i, Rng& g) { cases<char32_t, u32state_machine, u32smatch, u32cmatch, u32srmatch, u32crmatch, u32siterator, u32citerator, u32sriterator, u32criterator>(c, i, g, 0x10ffff); }}});
}
