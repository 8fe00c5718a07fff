// M03: a saved machine loads back identical.
#include "anyset.hpp"
#include <lexertl/serialise.hpp>
using namespace lx;
namespace
{
    template<class Ch, class Id>
    bool make(Rng& g, Sm<Ch, Id>& sm, std::string& desc, Any& a, u64 weight)
    {
        Rules<Ch, Id> lr(LENIENT);
        AnyOpt o;
        o.weight = weight;
        o.max_rules = weight < 10 ? 3 : 5;
        a = any_rules(g, lr, sizeof(Ch) == 1 ? 0xff : sizeof(Ch) == 2 ? 0xffff : 0x10ffff, o);
        desc = a.desc;
        try { lexertl::basic_generator<Rules<Ch, Id>, Sm<Ch, Id>>::build(lr, sm); } catch (const lexertl::runtime_error&) { return false; }
        return true;
    }
    template<class Ch, class Id, class SCh>
    void body(Ctx& c, Rng& g)
    {
        using S = Sm<Ch, Id>;
        using Str = std::basic_string<SCh>;
        S sm, other;
        std::string desc, d2;
        Any a, b;
        if (!make(g, sm, desc, a, g.chance(1, 2) ? 6 : 24)) { c.count("not_built"); return; }
        if (!make(g, other, d2, b, 6)) other = S();
        const std::string what = desc + " char=" + std::to_string(sizeof(Ch)) + " id=" + std::to_string(sizeof(Id)) + " stream=" + std::to_string(sizeof(SCh));
        c.note(what);
        const World w(c, g);
        std::basic_ostringstream<SCh> o;
        dress(o, g);
        lexertl::save(sm, o);
        const Str data = o.str();
        auto load_from = [&](const Str& s, S& target) { std::basic_istringstream<SCh> i(s); dress(i, g); const auto fl = i.flags(); lexertl::load(i, target); if (i.flags() != fl) c.fail("stream-flags-changed", what); };
        // whatever the target held
        S fresh, used = other, self = sm;
        for (auto* t : {&fresh, &used, &self})
        {
            load_from(data, *t);
            c.count("loads");
            if (tables(*t) != tables(sm)) c.fail("tables-differ", what);
            std::basic_ostringstream<SCh> o2;
            dress(o2, g);
            lexertl::save(*t, o2);
            if (o2.str() != data) c.fail("saved-again-differs", what);
        }
        // one after another in one stream
        {
            std::basic_stringstream<SCh> ss;
            dress(ss, g);
            lexertl::save(sm, ss);
            lexertl::save(other, ss);
            lexertl::save(sm, ss);
            S x, y, z;
            lexertl::load(ss, x);
            lexertl::load(ss, y);
            lexertl::load(ss, z);
            if (tables(x) != tables(sm) || tables(y) != tables(other) || tables(z) != tables(sm)) c.fail("several-in-one-stream", what);
        }
        for (int k = 0; k < 3; ++k)
        {
            const Text in = any_input(g, a, 40);
            const auto want = lex_of(sm, in, true, 0);
            compare(c, "tokens-differ", lex_of(used, in, true, 0), want, what, h::visw(in));
            const Stat x = stat_of(want, S::traits::npos());
            c.count("matched_tokens", x.tokens);
            if (x.tokens) c.nontrivial(h::mix(h::hash_str(what), h::hash_bytes(in.data(), in.size() * 4, 3)));
        }
        // Damage: every error is the library's own and leaves the target alone.
        const std::string keep = tables(other);
        auto refused = [&](const Str& s, const char* sig, const std::string& how)
        {
            S t = other;
            bool threw = false;
            try { load_from(s, t); } catch (const lexertl::runtime_error&) { threw = true; }
            if (!threw) c.fail(sig, what + " " + how + " was loaded");
            if (tables(t) != keep) c.fail("target-changed-by-failed-load", what + " " + how);
            c.count("refused_loads");
        };
        // the last character that matters is the separator behind the last number
        std::size_t last = data.size();
        while (last && !(data[last - 1] >= '0' && data[last - 1] <= '9')) --last;
        const bool every = last < 1500 || (c.thorough && last < 6000);
        for (std::size_t n = 0; n <= last; n = every ? n + 1 : n + 1 + static_cast<std::size_t>(g.below(last / 40 + 1)))
        { refused(data.substr(0, n), "truncation-undetected", "cut to " + std::to_string(n) + " of " + std::to_string(data.size())); c.count("truncations"); }
        refused(data.substr(0, last), "truncation-undetected", "cut behind the last number");
        for (int k = 0; k < 20; ++k)
        {
            Str s = data;
            // the end of the data before the last number
            std::size_t lim = last;
            while (lim && data[lim - 1] != ' ' && data[lim - 1] != '\n') --lim;
            if (!lim) break;
            const std::size_t p = static_cast<std::size_t>(g.below(lim));
            s[p] = static_cast<SCh>("xyz#\"Z"[g.below(6)]);
            refused(s, "corruption-undetected", "with a letter at " + std::to_string(p));
            c.count("corruptions");
        }
        // header: version, widths
        std::vector<std::size_t> starts{0};
        for (std::size_t p = 0; p < data.size() && starts.size() < 5; ++p) if (data[p] == '\n') starts.push_back(p + 1);
        for (std::size_t line = 0; line < 3; ++line)
            for (const char* v : {"0", "3", "16", "18446744073709551616", "-1", ""})
            {
                const std::size_t e = data.find('\n', starts[line]);
                Str rep(v, v + std::strlen(v));
                if (rep.empty()) rep = Str(1, static_cast<SCh>('q'));
                refused(data.substr(0, starts[line]) + rep + data.substr(e), "header-undetected", "header line " + std::to_string(line) + " = " + v);
            }
        // absurd counts end with an error, not with the memory
        {
            const std::size_t e = data.find('\n', starts[4]);
            for (const char* v : {"18446744073709551615", "9999999999999", "99999999999999999999999"})
                refused(data.substr(0, starts[4]) + Str(v, v + std::strlen(v)) + data.substr(e), "count-undetected", std::string("count ") + v);
        }
    }
    // Data of another character or id width
    template<class Ch, class Id, class Ch2, class Id2>
    void mixed(Ctx& c)
    {
        Rules<Ch, Id> lr;
        Sm<Ch, Id> sm;
        lr.push(nm<Ch>("a[b-d]+").c_str(), 1);
        lexertl::basic_generator<Rules<Ch, Id>, Sm<Ch, Id>>::build(lr, sm);
        std::stringstream ss;
        lexertl::save(sm, ss);
        Sm<Ch2, Id2> t;
        bool threw = false;
        try { lexertl::load(ss, t); } catch (const lexertl::runtime_error&) { threw = true; }
        c.count("mixed_loads");
        if (threw != (sizeof(Ch) != sizeof(Ch2) || sizeof(Id) != sizeof(Id2)))
            c.fail("width-undetected", std::to_string(sizeof(Ch)) + "/" + std::to_string(sizeof(Id)) + " into " + std::to_string(sizeof(Ch2)) + "/" + std::to_string(sizeof(Id2)));
    }
    template<class Ch, class Id>
    void into(Ctx& c)
    {
        mixed<Ch, Id, char, std::uint8_t>(c); mixed<Ch, Id, char, std::uint16_t>(c); mixed<Ch, Id, char, std::uint64_t>(c);
        mixed<Ch, Id, char16_t, std::uint16_t>(c); mixed<Ch, Id, char32_t, std::uint16_t>(c); mixed<Ch, Id, wchar_t, std::uint32_t>(c);
    }
    void widths(Ctx& c) { into<char, std::uint8_t>(c); into<char, std::uint16_t>(c); into<char, std::uint32_t>(c); into<char16_t, std::uint16_t>(c); into<char32_t, std::uint16_t>(c); into<wchar_t, std::uint64_t>(c); }
    void streams(Ctx& c)
    {
        // unusable streams and empty machines
        Sm<char> sm, t;
        std::stringstream ss;
        lexertl::save(sm, ss);
        const std::string d = ss.str();
        lexertl::load(ss, t);
        if (tables(t) != tables(sm)) c.fail("empty-machine", d);
        std::istringstream none;
        bool threw = false;
        try { lexertl::load(none, t); } catch (const lexertl::runtime_error&) { threw = true; }
        if (!threw) c.fail("empty-stream", "loaded");
        std::ifstream missing("/nonexistent/file");
        threw = false;
        try { lexertl::load(missing, t); } catch (const lexertl::runtime_error&) { threw = true; }
        if (!threw) c.fail("closed-stream", "loaded");
        c.count("loads", 3);
    }
    void machines(Ctx& c, u64 i, Rng& g)
    {
        switch (i % 9)
        {
        case 0: body<char, std::uint16_t, char>(c, g); break;
        case 1: body<char, std::uint8_t, char>(c, g); break;
        case 2: body<char, std::uint32_t, char>(c, g); break;
        case 3: body<char, std::uint64_t, char>(c, g); break;
        case 4: body<char16_t, std::uint16_t, char>(c, g); break;
        case 5: body<char32_t, std::uint16_t, char>(c, g); break;
        case 6: body<wchar_t, std::uint16_t, wchar_t>(c, g); break;
        case 7: body<wchar_t, std::uint8_t, char>(c, g); break;
        default: body<char32_t, std::uint32_t, wchar_t>(c, g); break;
        }
    }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {{"widths", widths}, {"streams", streams}}, {{"machines", machines}});
}
