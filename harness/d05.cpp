// D05: every overload of replace against the edit its tokens describe.
#include <lexertl/replace.hpp>
#include "anyset.hpp"
#include <list>
#include <iterator>
using namespace h;
namespace
{
    template<class Ch> using Str = std::basic_string<Ch>;
    // What the callbacks return for a token, by its text alone.
    template<class Ch> Str<Ch> wrap(const Str<Ch>& t)
    {
        Str<Ch> s(1, '<');
        for (auto ch : t) { s += ch; if (t.size() < 4) s += '.'; }
        return s + Str<Ch>(t.size() % 3, '>');
    }
    template<class Ch> Str<Ch> by_iter(typename Str<Ch>::const_iterator& b, typename Str<Ch>::const_iterator& e) { return wrap(Str<Ch>(b, e)); }
    template<class Ch> Str<Ch> by_ptr_str(const Ch* b, const Ch* e) { return wrap(Str<Ch>(b, e)); }
    template<class Ch, class It> const Ch* by_it_cstr(It b, It e)
    {
        static Str<Ch> s;
        s = wrap(Str<Ch>(b, e));
        return s.c_str();
    }
    template<class Ch> Str<Ch> upto(const Str<Ch>& s) { return Str<Ch>(s.c_str()); } // what a C string shows of it
    template<class Ch> std::string show(const Str<Ch>& s) { return visw(s); }

    template<class Ch> struct Job
    {
        Ctx& c;
        Rng& g;
        const lx::Sm<Ch>& sm;
        Str<Ch> in;
        std::vector<lx::Tok> toks;
        Str<Ch> plain;
        std::map<std::uint16_t, Str<Ch>> table;
        std::string what;
        bool underflow = false;

        template<class F> Str<Ch> expect(F f) const
        {
            Str<Ch> o;
            std::size_t last = 0;
            for (auto& t : toks)
            {
                if (t.underflow || t.id == 0) break;
                o.append(in, last, t.b - last);
                o += f(static_cast<std::uint16_t>(t.id), in.substr(t.b, t.e - t.b));
                last = t.e;
            }
            return o + in.substr(last);
        }
        template<class F> void same(const char* name, const Str<Ch>& want, F f)
        {
            Str<Ch> got;
            c.note(std::string(name) + " " + what);
            try { got = f(); }
            catch (const lexertl::runtime_error& e)
            {
                if (!underflow) c.fail("threw", std::string(name) + " " + what + ": " + e.what());
                c.count("underflows");
                return;
            }
            if (underflow) c.fail("underflow-missed", std::string(name) + " " + what);
            if (got != want) c.fail("wrong-result", std::string(name) + " " + what + " gave " + show(got) + " expected " + show(want));
            c.count("calls_compared");
        }
        // all kinds of output and input iterators for one replacement
        template<class Fmt> void ranges(const char* name, const Str<Ch>& want, const Fmt& fmt, bool all_inputs)
        {
            const Ch* b = in.data();
            const Ch* e = b + in.size();
            const std::string n = name;
            same((n + ",pointers,back_inserter").c_str(), want, [&] { Str<Ch> o; lexertl::replace(std::back_inserter(o), b, e, sm, fmt); return o; });
            same((n + ",pointers,returned").c_str(), want + Str<Ch>(1, '!'), [&] { Str<Ch> o; auto r = lexertl::replace(std::back_inserter(o), b, e, sm, fmt); *r++ = '!'; return o; });
            same((n + ",pointers,pointer").c_str(), want, [&]
            {
                std::vector<Ch> o(want.size() + in.size() * 8 + 64, Ch('~'));
                Ch* r = lexertl::replace(o.data(), b, e, sm, fmt);
                const long k = r - o.data();
                if (k < 0 || k > static_cast<long>(o.size())) c.fail("wrong-result", n + " returned position " + std::to_string(k));
                for (std::size_t i = static_cast<std::size_t>(k); i < o.size(); ++i) if (o[i] != Ch('~')) return Str<Ch>(o.data(), o.data() + o.size());
                return Str<Ch>(o.data(), r);
            });
            same((n + ",pointers,vector iterator").c_str(), want, [&]
            {
                std::vector<Ch> o(want.size() + in.size() * 8 + 64);
                auto r = lexertl::replace(o.begin(), b, e, sm, fmt);
                return Str<Ch>(o.begin(), r);
            });
            if constexpr (sizeof(Ch) <= sizeof(wchar_t) && !std::is_same_v<Ch, char32_t>)
                same((n + ",pointers,stream").c_str(), want, [&] { std::basic_ostringstream<Ch> o; lexertl::replace(std::ostreambuf_iterator<Ch>(o), b, e, sm, fmt); return o.str(); });
            if (!all_inputs) return;
            if constexpr (!std::is_same_v<Fmt, std::map<std::uint16_t, const Ch* (*)(const Ch*, const Ch*)>>)
            {
                same((n + ",string,back_inserter").c_str(), want, [&] { Str<Ch> o; lexertl::replace(std::back_inserter(o), in.begin(), in.end(), sm, fmt); return o; });
                same((n + ",list,back_inserter").c_str(), want, [&] { std::list<Ch> l(in.begin(), in.end()), o; lexertl::replace(std::back_inserter(o), l.begin(), l.end(), sm, fmt); return Str<Ch>(o.begin(), o.end()); });
            }
        }
        void all()
        {
            underflow = !toks.empty() && toks.back().underflow;
            using M = std::uint16_t;
            auto from = [&](auto& m, bool cut) { return [&m, cut](M id, const Str<Ch>& t) { auto i = m.find(id); return i == m.end() ? t : cut ? upto(Str<Ch>(i->second)) : Str<Ch>(i->second); }; };
            std::map<M, Str<Ch>> ms = table;
            std::map<M, const Ch*> mc;
            for (auto& x : ms) mc[x.first] = x.second.c_str();
            std::map<M, Str<Ch> (*)(typename Str<Ch>::const_iterator&, typename Str<Ch>::const_iterator&)> fi;
            std::map<M, Str<Ch> (*)(const Ch*, const Ch*)> fs;
            std::map<M, const Ch* (*)(const Ch*, const Ch*)> fc;
            std::map<M, const Ch* (*)(typename Str<Ch>::const_iterator, typename Str<Ch>::const_iterator)> fci;
            for (auto& x : ms)
            {
                fi[x.first] = by_iter<Ch>; fs[x.first] = by_ptr_str<Ch>; fc[x.first] = by_it_cstr<Ch, const Ch*>;
                fci[x.first] = by_it_cstr<Ch, typename Str<Ch>::const_iterator>;
            }
            const Str<Ch> w_plain = expect([&](M, const Str<Ch>&) { return plain; });
            const Str<Ch> w_cplain = expect([&](M, const Str<Ch>&) { return upto(plain); });
            const Str<Ch> w_map = expect(from(ms, false)), w_cmap = expect(from(ms, true));
            const Str<Ch> w_fun = expect([&](M id, const Str<Ch>& t) { return ms.count(id) ? wrap(t) : t; });
            const Str<Ch> w_cfun = expect([&](M id, const Str<Ch>& t) { return ms.count(id) ? upto(wrap(t)) : t; });
            const Ch* cplain = plain.c_str();

            ranges("range,string", w_plain, plain, true);
            ranges("range,map of strings", w_map, ms, true);
            ranges("range,C string", w_cplain, cplain, true);
            ranges("range,map of C strings", w_cmap, mc, true);
            ranges("range,map of C string functions", w_cfun, fc, true);
            same("range,map of functions", w_fun, [&] { Str<Ch> o; lexertl::replace(std::back_inserter(o), in.cbegin(), in.cend(), sm, fi); return o; });
            same("range,map of functions,vector", w_fun, [&] { std::vector<Ch> o(w_fun.size() + in.size() * 8 + 64); auto r = lexertl::replace(o.begin(), in.cbegin(), in.cend(), sm, fi); return Str<Ch>(o.begin(), r); });
            same("range,map of C string functions,string", w_cfun, [&] { Str<Ch> o; lexertl::replace(std::back_inserter(o), in.cbegin(), in.cend(), sm, fci); return o; });

            same("string,string", w_plain, [&] { return lexertl::replace(in, sm, plain); });
            same("string,map of strings", w_map, [&] { return lexertl::replace(in, sm, ms); });
            same("string,map of functions", w_fun, [&] { return lexertl::replace(in, sm, fi); });
            same("string,C string", w_cplain, [&] { return lexertl::replace(in, sm, cplain); });
            same("string,map of C strings", w_cmap, [&] { return lexertl::replace(in, sm, mc); });
            same("string,map of C string functions", w_cfun, [&] { return lexertl::replace(in, sm, fc); });
            if (in.find(Ch(0)) != Str<Ch>::npos) return;
            const Ch* cin = in.c_str();
            same("C string,string", w_plain, [&] { return lexertl::replace(cin, sm, plain); });
            same("C string,map of strings", w_map, [&] { return lexertl::replace(cin, sm, ms); });
            same("C string,map of functions", w_fun, [&] { return lexertl::replace(cin, sm, fs); });
            same("C string,C string", w_cplain, [&] { return lexertl::replace(cin, sm, cplain); });
            same("C string,map of C strings", w_cmap, [&] { return lexertl::replace(cin, sm, mc); });
            same("C string,map of C string functions", w_cfun, [&] { return lexertl::replace(cin, sm, fc); });
            c.count("c_string_inputs");
        }
    };
    template<class Ch> void cases(Ctx& c, u64, Rng& g, u32 max)
    {
        lx::Rules<Ch> lr;
        lx::Sm<Ch> sm;
        lx::AnyOpt o;
        o.bol = g.chance(1, 2); o.pushes = g.chance(1, 2);
        const auto a = lx::any_rules(g, lr, max, o);
        lx::build(lr, sm);
        for (unsigned k = 0; k < 3; ++k)
        {
            auto in = lx::any_input(g, a, g.below(40));
            if (g.chance(1, 2)) in.erase(std::remove(in.begin(), in.end(), 0), in.end());
            Job<Ch> j{c, g, sm, Str<Ch>(), lx::lex_of(sm, in, true, 0), Str<Ch>(), {}, ""};
            for (auto ch : in) j.in += static_cast<Ch>(ch);
            auto text = [&]
            {
                Str<Ch> s;
                const std::size_t n = g.below(5);
                for (std::size_t i = 0; i < n; ++i) s += static_cast<Ch>(g.chance(1, 12) ? 0 : 'P' + g.below(8));
                return s;
            };
            j.plain = text();
            for (auto& t : j.toks) if (!t.underflow && t.id && g.chance(2, 3)) j.table[static_cast<std::uint16_t>(t.id)] = text();
            if (g.chance(1, 4)) j.table[static_cast<std::uint16_t>(60000)] = text();
            if (g.chance(1, 8)) j.table[0] = text(); // never a token's id
            j.what = a.desc + " input " + visw(in) + " replacement " + show(j.plain);
            j.all();
            std::size_t last = 0;
            u64 won = 0;
            for (auto& t : j.toks)
            {
                if (t.underflow) break;
                if (t.b > last) c.count("copied_gaps");
                if (t.id == 0 && t.e > t.b) c.count("unfinished_ends");
                if (t.id == lx::Sm<Ch>::npos()) c.count("unknown_tokens"); else if (t.id) { ++won; c.count("tokens_replaced"); }
                last = t.e;
            }
            if (won > 1) { c.nontrivial(mix(hash_str(a.desc), hash_str(j.what))); if (won > 6) c.sample(j.what); }
            c.count("texts");
        }
    }
    void documented(Ctx& c)
    {
        lexertl::rules rules;
        lexertl::state_machine sm;
        rules.push("[0-9]+", 1);
        rules.push("[a-z]+", 2);
        rules.push("(?s:.)", lexertl::rules::skip());
        lexertl::generator::build(rules, sm);
        std::string input("abc 012 A d 3 e 4");
        const std::string one = "rep rep A rep rep rep rep", two = "word number A word number word number";
        if (lexertl::replace(input, sm, "rep") != one) c.fail("documented", "string");
        if (lexertl::replace(input.c_str(), sm, "rep") != one) c.fail("documented", "C string");
        if (lexertl::replace(input, sm, {{1, "number"}, {2, "word"}}) != two) c.fail("documented", "map");
        if (lexertl::replace(input.c_str(), sm, std::map<std::uint16_t, const char*>{{1, "number"}, {2, "word"}}) != two) c.fail("documented", "map, C string");
        if (input != "abc 012 A d 3 e 4") c.fail("documented", "input changed");
    }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {{"documented", documented}},
        {{"narrow", [](Ctx& c, u64 i, Rng& g) { cases<char>(c, i, g, 255); }},
         {"wide", [](Ctx& c, u64 i, Rng& g) { if (g.chance(1, 2)) cases<wchar_t>(c, i, g, 0x10ffff); else cases<char32_t>(c, i, g, 0x10ffff); }}});
}
