// C01: a built machine and a rules object can be shared by concurrent lexers.
#include "anyset.hpp"
#include <atomic>
#include <list>
#include <sstream>
#include <thread>
#include <time.h>
#include <lexertl/debug.hpp>
#include <lexertl/generate_cpp.hpp>
#include <lexertl/iterator.hpp>
#include <lexertl/replace.hpp>
#include <lexertl/serialise.hpp>
#include <lexertl/stream_shared_iterator.hpp>
using namespace lx;
namespace
{
    // Gives up the processor at random places inside a lookup.
    template<class Ch> struct Yield
    {
        using iterator_category = std::forward_iterator_tag;
        using value_type = Ch;
        using difference_type = std::ptrdiff_t;
        using pointer = const Ch*;
        using reference = const Ch&;
        const Ch* p = nullptr;
        u32* r = nullptr;
        const Ch& operator*() const { return *p; }
        Yield& operator++()
        {
            *r = *r * 1664525u + 1013904223u;
            if (*r >> 28 == 0) std::this_thread::yield();
            ++p;
            return *this;
        }
        Yield operator++(int) { Yield y = *this; ++*this; return y; }
        bool operator==(const Yield& o) const { return p == o.p; }
        bool operator!=(const Yield& o) const { return p != o.p; }
        bool operator<(const Yield& o) const { return p < o.p; }
    };
    std::string show_all(const std::vector<Tok>& v) { std::string s; for (auto& t : v) s += ref::show(t) + " "; return s; }

    template<class Ch> struct World
    {
        using Id = std::uint16_t;
        using R = Rules<Ch, Id>;
        using S = Sm<Ch, Id>;
        using M = lexertl::basic_char_state_machine<Ch, Id>;
        R rules{LENIENT};
        S sm;
        M csm;
        std::vector<Text> texts;
        std::vector<Exact<Ch>> bufs;
        u64 states = 1;
        bool rec = false;
    };
    // What an operation saw, as text.
    template<class Ch> std::string operation(const World<Ch>& w, unsigned op, unsigned arg, u32 seed)
    {
        using W = World<Ch>;
        using S = typename W::S;
        using M = typename W::M;
        using R = typename W::R;
        using Id = typename W::Id;
        const Text& t = w.texts[arg % w.texts.size()];
        const Exact<Ch>& b = w.bufs[arg % w.texts.size()];
        const std::size_t lim = 2 * t.size() + 4;
        const bool bol = (arg >> 8) & 1;
        const u64 st = (arg >> 9) % w.states;
        u32 r = seed;
        switch (op)
        {
        case 0: return show_all(w.rec ? lex_rec(w.sm, b.begin(), b.end(), lim, bol, st) : lex_plain(w.sm, b.begin(), b.end(), lim, bol, st));
        case 1:
        {
            const Yield<Ch> f{b.begin(), &r}, e{b.end(), &r};
            return show_all(w.rec ? lex_rec(w.sm, f, e, lim, bol, st) : lex_plain(w.sm, f, e, lim, bol, st));
        }
        case 2:
        {
            std::list<Ch> l(b.begin(), b.end());
            return show_all(w.rec ? lex_rec(w.sm, l.begin(), l.end(), lim, bol, st) : lex_plain(w.sm, l.begin(), l.end(), lim, bol, st));
        }
        case 3: case 4:
        {
            // token iterators over the shared machine
            using Res = lexertl::recursive_match_results<const Ch*, Id>;
            using It = lexertl::iterator<const Ch*, S, Res>;
            std::ostringstream o;
            try
            {
                It i(b.begin(), b.end(), w.sm, bol, static_cast<Id>(st)), e;
                for (std::size_t k = 0; k < lim && i != e; ++k)
                {
                    o << +i->id << '/' << i->first - b.begin() << '-' << i->second - b.begin() << ' ';
                    if (op == 4) { It j = i++; o << (j == i); } else ++i;
                }
            }
            catch (const lexertl::runtime_error& x) { o << x.what(); }
            return o.str();
        }
        case 5: { S s; build(w.rules, s); return tables(s); }
        case 6:
        {
            M m;
            lexertl::basic_generator<R, M>::build(w.rules, m);
            return show_all(lex_csm(m, t, bol, st)) + std::to_string(m._sm_vector.size());
        }
        case 7: { std::ostringstream o; lexertl::save(w.sm, o); return o.str(); }
        case 8: { std::basic_ostringstream<Ch> o; R names(w.rules); if (arg & 1) lexertl::basic_debug<S, Ch>::dump(w.sm, names, o); else lexertl::basic_debug<S, Ch>::dump(w.csm, names, o); std::string s; for (auto ch : o.str()) s += static_cast<char>(ch); return s; }
        case 9: { std::ostringstream o; lexertl::table_based_cpp::generate("f", w.sm, (arg & 1) != 0, o); return o.str(); }
        case 10: { S s(w.sm); s.minimise(); return show_all(w.rec ? lex_rec(s, b.begin(), b.end(), lim, bol, st) : lex_plain(s, b.begin(), b.end(), lim, bol, st)) + tables(s); }
        case 11:
        {
            std::basic_string<Ch> o;
            std::map<Id, std::basic_string<Ch>> with{{static_cast<Id>(1), std::basic_string<Ch>(2, 'x')}, {static_cast<Id>(2), std::basic_string<Ch>()}};
            std::string s;
            try { lexertl::replace(std::back_inserter(o), b.begin(), b.end(), w.sm, with); }
            catch (const lexertl::runtime_error& x) { s = x.what(); }
            for (auto ch : o) { s += std::to_string(static_cast<u64>(ch)); s += ' '; }
            return s;
        }
        case 12:
        {
            R c(w.rules);
            for (auto& q : w.rules.statemap()) c.push(q.first.c_str(), nm<Ch>("own+"), static_cast<Id>(77), R::dot());
            S s;
            build(c, s);
            return tables(s) + std::to_string(c.macros().size());
        }
        case 13:
        {
            std::ostringstream o;
            for (auto& q : w.rules.statemap()) o << h::visw(q.first) << +q.second << ' ';
            for (std::size_t i = 0; i < w.rules.statemap().size(); ++i) o << h::visw(std::basic_string<Ch>(w.rules.state(static_cast<Id>(i)))) << ' ';
            for (auto& q : w.rules.regex_strings()) for (auto& x : q) o << x << ' ';
            for (auto& q : w.rules.regexes()) for (auto& x : q) o << x.size() << ' ';
            o << w.rules.flags() << w.rules.locale().name() << w.rules.macros().size() << w.rules.features().size() << w.rules.empty() << +w.rules.eoi();
            return o.str();
        }
        case 14:
        {
            // rules of one's own, through every table the library keeps
            R c(LENIENT | (arg & 1 ? +lexertl::regex_flags::icase : 0));
            static const char* re[] = {"[[:alpha:]]+", "\\p{L}{2}x", "\\p{IsGreek}", "[^\\w\\s]", "\\p{BasicLatin}", "\\p{Nd}+(?i:abc)", "[a-z]{-}[m-q]", "\\p{Cyrillic}?q"};
            c.insert_macro(nm<Ch>("M").c_str(), nm<Ch>("[a-c]+"));
            std::string text = re[arg / 2 % 8];
            const Ch x[] = {'{', 'M', '}', 'z', 0};
            c.push(x, 5);
            try { c.push(nm<Ch>(text), 6); } catch (const lexertl::runtime_error& e) { return e.what(); }
            S s;
            build(c, s);
            return tables(s);
        }
        case 15:
        {
            std::basic_string<Ch> text;
            for (auto ch : t) text += static_cast<Ch>(ch);
            std::basic_istringstream<Ch> in(text);
            using It = lexertl::basic_stream_shared_iterator<Ch>;
            It i(in, 8, 4), e;
            lexertl::recursive_match_results<It, Id> res(i, e, bol, static_cast<Id>(st));
            i = It(); // held, it would keep the whole text
            std::string s;
            try
            {
                for (std::size_t k = 0; k < lim; ++k)
                {
                    lexertl::lookup(w.sm, res);
                    s += std::to_string(res.id) + ":" + h::visw(res.str()) + " ";
                    if (res.id == 0) break;
                }
            }
            catch (const lexertl::runtime_error& x) { s += x.what(); }
            return s;
        }
        case 16: return show_all(lex_csm(w.csm, t, bol, st)) + std::to_string(w.csm.empty()) + std::to_string(w.csm.size());
        default: { M m(w.csm); m.minimise(); return show_all(lex_csm(m, t, bol, st)); }
        }
    }
    constexpr unsigned OPS = 18;
    u64 now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<u64>(t.tv_sec) * 1000000000u + static_cast<u64>(t.tv_nsec); }
    struct Event { unsigned op, arg; u64 from, to; std::string saw; bool threw; };
    std::set<u64> pairs;

    template<class Ch> void threads(Ctx& c, u64, Rng& g, bool lookups_only)
    {
        const u32 max = sizeof(Ch) == 1 ? 0xff : sizeof(Ch) == 2 ? 0xffff : 0x10ffff;
        World<Ch> w;
        AnyOpt o;
        o.max_rules = 4;
        o.weight = 12;
        auto a = any_rules(g, w.rules, max, o);
        w.rules.insert_macro(nm<Ch>("MAC").c_str(), nm<Ch>("[x-z]|q+"));
        c.note(a.desc);
        build(w.rules, w.sm);
        lexertl::basic_generator<typename World<Ch>::R, typename World<Ch>::M>::build(w.rules, w.csm);
        if (g.chance(1, 4)) w.sm.minimise();
        w.rec = (w.sm.data()._features & +lexertl::feature_bit::recursive) != 0;
        w.states = static_cast<u64>(a.f.states);
        const unsigned n = static_cast<unsigned>(g.in(2, 6)), each = lookups_only ? 60 : 10;
        for (unsigned k = 0; k < 5; ++k) w.texts.push_back(any_input(g, a, lookups_only ? 120 : 50));
        for (auto& t : w.texts) w.bufs.emplace_back(t);
        std::vector<std::vector<Event>> log(n);
        std::vector<u32> seeds;
        for (auto& l : log)
        {
            seeds.push_back(static_cast<u32>(g.below(~u32(0))));
            for (unsigned k = 0; k < each; ++k)
            {
                unsigned op = lookups_only ? static_cast<unsigned>(g.below(5)) : static_cast<unsigned>(g.below(OPS));
                if (lookups_only && g.chance(1, 10)) op = 15;
                l.push_back({op, static_cast<unsigned>(g.below(1 << 16)), 0, 0, "", false});
            }
        }
        std::atomic<unsigned> ready{0};
        const World<Ch>& shared = w;
        {
            std::vector<std::thread> ts;
            for (unsigned k = 0; k < n; ++k)
                ts.emplace_back([&, k]
                {
                    ready.fetch_add(1, std::memory_order_relaxed);
                    while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
                    for (auto& e : log[k])
                    {
                        e.from = now();
                        try { e.saw = operation(shared, e.op, e.arg, seeds[k]); }
                        catch (const std::exception& x) { e.saw = x.what(); e.threw = true; }
                        e.to = now();
                    }
                });
            for (auto& t : ts) t.join();
        }
        // the same operations alone, afterwards, so that nothing was set up by them before
        std::map<std::pair<unsigned, unsigned>, std::string> alone;
        u64 tokens = 0;
        for (auto& l : log)
            for (auto& e : l)
            {
                auto i = alone.find({e.op, e.arg});
                if (i == alone.end())
                {
                    std::string s;
                    try { s = operation(shared, e.op, e.arg, 1); }
                    catch (const std::exception& x) { s = x.what(); }
                    i = alone.emplace(std::make_pair(e.op, e.arg), s).first;
                }
                if (e.threw) c.fail("exception-in-thread", a.desc + " operation " + std::to_string(e.op) + ": " + e.saw);
                if (e.saw != i->second) c.fail("thread-saw-something-else", a.desc + " operation " + std::to_string(e.op) + " arg " + std::to_string(e.arg) + ": " + e.saw.substr(0, 300) + " INSTEAD OF " + i->second.substr(0, 300));
                c.count("operations");
                if (e.op < 5) tokens += static_cast<u64>(std::count(e.saw.begin(), e.saw.end(), ' '));
            }
        c.count("lookups", tokens);
        c.count("threads", n);
        // which operations really ran at the same time
        u64 overlaps = 0;
        for (unsigned x = 0; x < n; ++x)
            for (unsigned y = x + 1; y < n; ++y)
                for (auto& e : log[x])
                    for (auto& f : log[y])
                        if (e.from < f.to && f.from < e.to) { ++overlaps; pairs.insert(std::min(e.op, f.op) * 100 + std::max(e.op, f.op)); }
        c.count("overlapping_operations", overlaps);
        c.maxc("kinds_of_overlap", pairs.size());
        if (overlaps) { c.nontrivial(h::mix(h::hash_str(a.desc), overlaps)); c.sample(a.desc + " threads " + std::to_string(n)); }
    }
}
int main(int argc, char** argv)
{
    // the standard library's facets fill their own tables on first use
    for (char ch = 0; ch < 127; ++ch) { std::use_facet<std::ctype<char>>(std::locale()).widen(ch); std::use_facet<std::ctype<char>>(std::locale()).narrow(ch, 0); }
    return h::run(argc, argv, {},
        {{"lookups", [](Ctx& c, u64 i, Rng& g) { if (i % 3) threads<char>(c, i, g, true); else threads<char32_t>(c, i, g, true); }},
         {"everything", [](Ctx& c, u64 i, Rng& g) { if (i % 3) threads<char>(c, i, g, false); else threads<wchar_t>(c, i, g, false); }}});
}
