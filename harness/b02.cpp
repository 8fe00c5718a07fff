// B02: failed operations change nothing; building is repeatable.
#include "heap.hpp"
#include "anyset.hpp"
#include <lexertl/serialise.hpp>
using namespace lx;
namespace
{
    template<class S> std::string text_of(const S& s) { return h::visw(s); }
    template<class T> std::string tokens_of(const T& v)
    {
        std::ostringstream o;
        for (auto& t : v)
        {
            o << static_cast<int>(t._type) << '/' << text_of(t._extra) << '/';
            for (auto& r : t._str._ranges) o << static_cast<u64>(r.first) << '-' << static_cast<u64>(r.second) << ',';
            o << ' ';
        }
        return o.str();
    }
    // Everything a rules object shows of itself.
    template<class R> std::string snapshot(const R& r)
    {
        std::ostringstream o;
        o << "flags " << r.flags() << " locale " << r.locale().name() << '\n';
        for (auto& s : r.statemap()) o << text_of(s.first) << '=' << +s.second << ' ';
        for (std::size_t i = 0; i <= r.statemap().size(); ++i) { auto* n = r.state(static_cast<typename R::id_type>(i)); o << (n ? text_of(typename R::string(n)) : std::string("-")) << ' '; }
        o << '\n';
        for (auto& m : r.macros()) o << text_of(m.first) << ": " << tokens_of(m.second) << '\n';
        for (auto& d : r.regexes()) { o << "state\n"; for (auto& x : d) o << tokens_of(x) << '\n'; }
        for (auto& d : r.regex_strings()) { o << '|'; for (auto& x : d) o << h::vis(x) << ' '; }
        for (auto& f : r.features()) o << " f" << +f;
        for (auto* v : {&r.ids(), &r.user_ids(), &r.next_dfas(), &r.pushes()}) { o << '\n'; for (auto& d : *v) { o << '|'; for (auto x : d) o << +x << ' '; } }
        o << '\n';
        for (auto& d : r.pops()) { o << '|'; for (bool x : d) o << x; }
        o << (r.empty() ? " empty" : "");
        return o.str();
    }
    // What belongs to one lexer state.
    template<class R> std::string part(const R& r, std::size_t i)
    {
        std::ostringstream o;
        for (auto& x : r.regexes()[i]) o << tokens_of(x) << '\n';
        for (auto& x : r.regex_strings()[i]) o << h::vis(x) << ' ';
        o << " f" << +r.features()[i];
        for (auto* v : {&r.ids(), &r.user_ids(), &r.next_dfas(), &r.pushes()}) { o << '|'; for (auto x : (*v)[i]) o << +x << ' '; }
        for (bool x : r.pops()[i]) o << x;
        return o.str();
    }
    template<class M> std::string csm_tables(const M& m)
    {
        std::ostringstream o;
        for (auto& d : m._sm_vector)
        {
            o << "dfa " << +d._bol_index << '\n';
            for (auto& s : d._states)
            {
                o << +static_cast<u64>(s._end_state) << ' ' << +static_cast<u64>(s._push_pop_dfa) << ' ' << +s._id << ' ' << +s._user_id << ' ' << +s._push_dfa << ' ' << +s._next_dfa << ' ' << +s._eol_index << ':';
                for (auto& t : s._transitions) { o << ' ' << +t.first << '<'; for (auto& r : t.second._ranges) o << static_cast<u64>(r.first) << '-' << static_cast<u64>(r.second) << ','; }
                o << '\n';
            }
        }
        return o.str();
    }

    template<class R> struct Op { std::string desc; std::function<void(R&)> f; };

    template<class R> struct Maker
    {
        using Ch = typename R::rules_char_type;
        using Id = typename R::id_type;
        using S = std::basic_string<Ch>;
        Rng& g;
        u32 max;
        ref::GenOpt o;
        std::vector<std::string> states{"INITIAL"}, names{"A", "B_1", "c-d", "_x", "Zz"}, macros{"M", "N_2", "o-p", "_q"};
        explicit Maker(Rng& r, u32 m) : g(r), max(m) { o.max = m; o.alphabet = ref::CS::of(g.chance(1, 2) ? "ab" : "abc\n0-"); }
        S text(bool whole = true)
        {
            std::u32string t;
            const unsigned pieces = 1 + static_cast<unsigned>(g.below(2));
            for (unsigned i = 0; i < pieces; ++i)
            {
                if (g.chance(1, 3)) { for (char ch : "{" + g.pick(macros) + "}") if (ch) t += static_cast<char32_t>(ch); if (g.chance(1, 3)) t += U"*+?"[g.below(3)]; }
                else { ref::Spell sp{g, max, sizeof(Ch) > 1}; t += sp.re(g.chance(1, 12) ? ref::rep(ref::gen_nonnull(g, o, 4), 0, -1) : ref::gen_nonnull(g, o, 8), 1); }
            }
            if (whole && g.chance(1, 8)) t = U"^" + t;
            if (whole && g.chance(1, 8)) t += U"$";
            if (g.chance(1, 5))
            {
                static const std::u32string bad = U"()[]{}*+?|\\\"^$-<>:/!=isx,0a";
                const unsigned n = 1 + static_cast<unsigned>(g.below(2));
                for (unsigned i = 0; i < n; ++i)
                    if (!t.empty() && g.chance(1, 2)) t.erase(g.below(t.size()), 1);
                    else t.insert(g.below(t.size() + 1), 1, bad[g.below(bad.size())]);
            }
            if (g.chance(1, 30)) t.clear();
            S s;
            for (auto ch : t) s += static_cast<Ch>(ch);
            // repeats of more than two digits only cost memory
            for (std::size_t i = 0, d = 0; i < s.size(); ++i) { d = s[i] >= '0' && s[i] <= '9' ? d + 1 : 0; if (d > 2) { s.erase(i, 1); --i; --d; } }
            return s;
        }
        std::string state()
        {
            if (g.chance(1, 14)) { static const char* b[] = {"NOPE", "1x", "", "A b", "A,", "*", "é", "."}; return b[g.below(8)]; }
            return g.pick(states);
        }
        Id id()
        {
            switch (g.below(14)) { case 0: return 0; case 1: return R::npos(); case 2: return R::skip(); default: return static_cast<Id>(g.in(1, 9)); }
        }
        Op<R> next()
        {
            const unsigned k = static_cast<unsigned>(g.below(24));
            if (k < 6)
            {
                const S t = text();
                const Id i = id(), u = static_cast<Id>(g.below(3));
                const unsigned form = static_cast<unsigned>(g.below(3));
                return {"push(" + h::visw(t) + "," + std::to_string(i) + ")", [=](R& r)
                    { if (form == 0) r.push(t, i, u); else if (form == 1) r.push(t.data(), t.data() + t.size(), i, u); else r.push(t.c_str(), i); }};
            }
            if (k < 14)
            {
                const S t = text();
                const Id i = id(), u = static_cast<Id>(g.below(3));
                std::string cur, ex;
                if (g.chance(1, 4)) cur = "*";
                else { const unsigned n = 1 + static_cast<unsigned>(g.below(3)); for (unsigned q = 0; q < n; ++q) cur += (q ? "," : "") + state(); if (g.chance(1, 30)) cur += ","; }
                switch (g.below(12))
                {
                case 0: case 1: case 2: ex = "."; break;
                case 3: ex = "<"; break;
                case 4: case 5: ex = ">" + state(); break;
                case 6: case 7: ex = ">" + state() + ":" + state(); break;
                case 8: ex = state() + ":" + state(); break;
                case 9: ex = g.chance(1, 2) ? ">" : ":"; break;
                default: ex = state();
                }
                const S c = nm<Ch>(cur), x = nm<Ch>(ex);
                const unsigned form = static_cast<unsigned>(g.below(4));
                return {"push(" + cur + "," + h::visw(t) + "," + std::to_string(i) + "," + ex + ")", [=](R& r)
                {
                    if (form == 0) r.push(c.c_str(), t, x.c_str());
                    else if (form == 1) r.push(c.c_str(), t.data(), t.data() + t.size(), i, x.c_str(), u);
                    else if (form == 2) r.push(c.c_str(), t.c_str(), i, x.c_str(), u);
                    else r.push(c.c_str(), t, i, x.c_str());
                }};
            }
            if (k < 18)
            {
                const std::string n = g.chance(1, 10) ? (g.chance(1, 2) ? "9z" : "") : g.pick(macros);
                const S s = nm<Ch>(n), t = text(false);
                const bool form = g.chance(1, 2);
                return {"macro(" + n + "," + h::visw(t) + ")", [=](R& r) { if (form) r.insert_macro(s.c_str(), t); else r.insert_macro(s.c_str(), t.data(), t.data() + t.size()); }};
            }
            if (k < 21)
            {
                std::string n = g.pick(names);
                if (g.chance(1, 5)) { static const char* b[] = {"", "1", "a b", "*", ".", "a,b", "INITIAL"}; n = b[g.below(7)]; }
                else if (std::find(states.begin(), states.end(), n) == states.end()) states.push_back(n);
                const S s = nm<Ch>(n);
                return {"state(" + n + ")", [=](R& r) { r.push_state(s.c_str()); }};
            }
            if (k == 21)
            {
                const std::size_t f = g.below(128) | (g.chance(1, 2) ? LENIENT : 0);
                return {"flags(" + std::to_string(f) + ")", [=](R& r) { r.flags(f); }};
            }
            if (k == 22)
            {
                if (g.chance(1, 3)) return {"reverse", [](R& r) { r.reverse(); }};
                const Id d = static_cast<Id>(g.below(6));
                return {"clear(" + std::to_string(d) + ")", [=](R& r) { r.clear(d); }};
            }
            return {"fill", [this](R& r) { for (auto& s : r.statemap()) r.push(s.first.c_str(), nm<Ch>("zz"), static_cast<Id>(7), R::dot()); }};
        }
    };

    // message of a failed build, or empty
    template<class R, class S> std::string try_build(const R& r, S& sm)
    {
        try { lexertl::basic_generator<R, S>::build(r, sm); return ""; }
        catch (const lexertl::runtime_error& e) { return std::string("x") + e.what(); }
    }
    std::string diff(const std::string& a, const std::string& b)
    {
        std::size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
        const std::size_t f = i > 60 ? i - 60 : 0;
        return "..." + a.substr(f, 160) + " INSTEAD OF ..." + b.substr(f, 160);
    }
    template<class Ch, class Id> void ops(Ctx& c, u64, Rng& g)
    {
        using R = Rules<Ch, Id>;
        using S = Sm<Ch, Id>;
        using M = lexertl::basic_char_state_machine<Ch, Id>;
        const u32 max = sizeof(Ch) == 1 ? 0xff : sizeof(Ch) == 2 ? 0xffff : 0x10ffff;
        Maker<R> mk(g, max);
        R a(LENIENT), b(LENIENT);
        S target;
        M ctarget;
        std::vector<Op<R>> done{{"flags", [](R& r) { r.flags(LENIENT); }}};
        std::string log;
        u64 refused = 0, built = 0;
        const unsigned n = 8 + static_cast<unsigned>(g.below(30));
        for (unsigned k = 0; k < n; ++k)
        {
            auto op = mk.next();
            log += op.desc + "; ";
            c.note(log);
            const std::string before = snapshot(a);
            bool ok = true;
            try { op.f(a); }
            catch (const lexertl::runtime_error&) { ok = false; }
            if (ok)
            {
                op.f(b);
                done.push_back(op);
                c.count("operations_done");
            }
            else
            {
                ++refused;
                c.count("operations_refused");
                if (snapshot(a) != before) c.fail("rules-changed", log + " " + diff(snapshot(a), before));
            }
            if (snapshot(a) != snapshot(b)) c.fail("copies-differ", log + " " + diff(snapshot(a), snapshot(b)));
            if (!g.chance(1, 4) && k + 1 != n) continue;
            const std::string held = tables(target), cheld = csm_tables(ctarget), rules = snapshot(a);
            const std::string msg = try_build(a, target), cmsg = try_build(a, ctarget);
            if (snapshot(a) != rules) c.fail("build-changed-rules", log);
            if (!msg.empty() && tables(target) != held) c.fail("failed-build-changed-machine", log + " " + msg);
            if (!cmsg.empty() && csm_tables(ctarget) != cheld) c.fail("failed-build-changed-character-machine", log + " " + cmsg);
            c.count(msg.empty() ? "builds" : "failed_builds");
            if (msg.empty()) ++built;
            // again, from copies and from an object cleared and refilled
            R copy(a), moved(std::move(copy)), assigned;
            assigned = b;
            R refilled(a);
            refilled.clear();
            for (auto& d : done) d.f(refilled);
            // lexer states cleared one by one
            {
                R bare, hollow(a);
                for (auto& d : done) if (d.desc.compare(0, 5, "push(") && d.desc.compare(0, 6, "clear(") && d.desc != "fill") d.f(bare);
                for (std::size_t d = 0; d < a.regexes().size(); ++d)
                {
                    R one(a);
                    one.clear(static_cast<Id>(d));
                    hollow.clear(static_cast<Id>(d));
                    for (std::size_t q = 0; q < a.regexes().size(); ++q)
                        if (part(one, q) != part(q == d ? bare : a, q)) c.fail("clearing-a-state", log + " state " + std::to_string(d) + " " + diff(part(one, q), part(q == d ? bare : a, q)));
                    c.count("states_cleared");
                }
                if (snapshot(hollow) != snapshot(bare)) c.fail("all-states-cleared", log + " " + diff(snapshot(hollow), snapshot(bare)));
            }
            unsigned which = 0;
            for (const R* r : std::initializer_list<const R*>{&a, &b, &moved, &assigned, &refilled})
            {
                S s;
                if (g.chance(1, 2)) s = target;
                const std::string m = try_build(*r, s);
                const std::string who = which == 0 ? "the same object" : which == 1 ? "one without the failed operations" : which == 2 ? "a moved copy" : which == 3 ? "an assigned copy" : "a refilled object";
                if (m != msg) c.fail("build-outcome-differs", log + " from " + who + ": " + m + " / " + msg);
                if (msg.empty() && tables(s) != tables(target)) c.fail("tables-differ", log + " from " + who);
                M cs;
                const std::string cm = try_build(*r, cs);
                if (cm != cmsg) c.fail("build-outcome-differs", log + " from " + who + ": " + cm + " / " + cmsg);
                if (cmsg.empty() && csm_tables(cs) != csm_tables(ctarget)) c.fail("character-tables-differ", log + " from " + who);
                ++which;
                c.count("rebuilds");
            }
            if (msg.empty() && g.chance(1, 3))
            {
                // loading what is cut short leaves the target alone
                std::ostringstream o;
                lexertl::save(target, o);
                const std::string data = o.str();
                std::size_t last = data.size();
                while (last && !(data[last - 1] >= '0' && data[last - 1] <= '9')) --last;
                S s = target;
                std::istringstream i(data.substr(0, g.below(last)));
                bool threw = false;
                try { lexertl::load(i, s); } catch (const lexertl::runtime_error&) { threw = true; }
                if (!threw || tables(s) != tables(target)) c.fail("failed-load-changed-machine", log);
                c.count("failed_loads");
            }
        }
        if (refused && built) { c.nontrivial(h::hash_str(log)); c.sample(log); }
    }

    // Every allocation of a build or load failing in turn.
    template<class F> bool with_failure(long at, F f, bool& other)
    {
        bool threw = false;
        heap::failed = false;
        heap::fail_in = at;
        try { f(); }
        catch (const std::bad_alloc&) { threw = true; }
        catch (const lexertl::runtime_error&) { threw = true; other = true; }
        heap::fail_in = -1;
        return threw;
    }
    template<class Ch, class Id> void alloc(Ctx& c, u64, Rng& g)
    {
        using R = Rules<Ch, Id>;
        using S = Sm<Ch, Id>;
        using M = lexertl::basic_char_state_machine<Ch, Id>;
        const u32 max = sizeof(Ch) == 1 ? 0xff : sizeof(Ch) == 2 ? 0xffff : 0x10ffff;
        for (const char* k : {"allocation_failures", "failures_absorbed", "load_failures", "character_machine_failures"}) c.count(k, 0);
        R r(LENIENT), r2(LENIENT);
        AnyOpt o;
        o.weight = 6;
        o.max_rules = 3;
        const auto a = any_rules(g, r, max, o);
        any_rules(g, r2, max, o);
        c.note(a.desc);
        S good, held;
        M cgood, cheld;
        if (!try_build(r, good).empty() || !try_build(r, cgood).empty()) return;
        if (g.chance(2, 3) && try_build(r2, held).empty()) try_build(r2, cheld);
        const std::string want = tables(good), keep = tables(held), cwant = csm_tables(cgood), ckeep = csm_tables(cheld), rules = snapshot(r);
        std::ostringstream os;
        lexertl::save(good, os);
        const std::string data = os.str();
        const std::size_t most = c.thorough ? 600 : 150;
        auto points = [&](std::size_t total)
        {
            std::vector<long> v;
            if (total <= most) for (std::size_t i = 1; i <= total; ++i) v.push_back(static_cast<long>(i));
            else for (std::size_t i = 0; i < most; ++i) v.push_back(static_cast<long>(1 + g.below(total)));
            return v;
        };
        auto counted = [&](auto f) { const std::size_t n = heap::made; f(); return heap::made - n; };
        {
            S s;
            const auto total = counted([&] { lexertl::basic_generator<R, S>::build(r, s); });
            for (long at : points(total))
            {
                bool other = false;
                S t = held;
                const std::size_t live = heap::blocks;
                const bool threw = with_failure(at, [&] { lexertl::basic_generator<R, S>::build(r, t); }, other);
                const std::size_t now = heap::blocks;
                const std::string where = a.desc + " allocation " + std::to_string(at) + " of " + std::to_string(total);
                if (other) c.fail("wrong-exception", where);
                if (!threw && heap::failed) c.count("failures_absorbed");
                if (tables(t) != (threw ? keep : want)) c.fail("machine-after-failed-allocation", where);
                if (threw && now > live) c.fail("blocks-left", where + ": " + std::to_string(now - live));
                if (threw) c.count("allocation_failures");
            }
            if (snapshot(r) != rules) c.fail("build-changed-rules", a.desc);
            S again = held;
            if (!try_build(r, again).empty() || tables(again) != want) c.fail("build-after-failures", a.desc);
        }
        {
            M s;
            const auto total = counted([&] { lexertl::basic_generator<R, M>::build(r, s); });
            for (long at : points(total))
            {
                bool other = false;
                M t = cheld;
                const std::size_t live = heap::blocks;
                const bool threw = with_failure(at, [&] { lexertl::basic_generator<R, M>::build(r, t); }, other);
                const std::size_t now = heap::blocks;
                const std::string where = a.desc + " character machine allocation " + std::to_string(at) + " of " + std::to_string(total);
                if (other) c.fail("wrong-exception", where);
                if (csm_tables(t) != (threw ? ckeep : cwant)) c.fail("character-machine-after-failed-allocation", where);
                if (threw && now > live) c.fail("blocks-left", where + ": " + std::to_string(now - live));
                if (threw) c.count("character_machine_failures");
            }
        }
        {
            S s;
            std::istringstream first(data);
            const auto total = counted([&] { lexertl::load(first, s); });
            for (long at : points(total))
            {
                bool other = false;
                S t = held;
                std::istringstream i(data);
                const std::size_t live = heap::blocks;
                const bool threw = with_failure(at, [&] { lexertl::load(i, t); }, other);
                const std::size_t now = heap::blocks;
                const std::string where = a.desc + " load allocation " + std::to_string(at) + " of " + std::to_string(total);
                if (tables(t) != (threw ? keep : want)) c.fail("machine-after-failed-load", where);
                if (threw && now > live) c.fail("blocks-left", where + ": " + std::to_string(now - live));
                if (threw) c.count("load_failures");
            }
        }
        c.nontrivial(h::hash_str(a.desc));
    }
}
int main(int argc, char** argv)
{
    using u16 = std::uint16_t;
    return h::run(argc, argv, {},
        {{"narrow", [](Ctx& c, u64 i, Rng& g) { if (i % 4) ops<char, u16>(c, i, g); else ops<char, std::uint8_t>(c, i, g); }},
         {"wide", [](Ctx& c, u64 i, Rng& g) { if (i % 3) ops<char32_t, u16>(c, i, g); else ops<wchar_t, u32>(c, i, g); }},
         {"alloc", [](Ctx& c, u64 i, Rng& g) { if (i % 3) alloc<char, u16>(c, i, g); else alloc<char32_t, u16>(c, i, g); }}});
}
