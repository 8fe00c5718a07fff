// D02: UTF iterators against the encoding forms as the standard defines them.
#include "lx.hpp"
#include <list>
#include <lexertl/utf_iterators.hpp>
using namespace h;
namespace
{
    using U = std::u32string;
    bool scalar(u32 v) { return v < 0xd800 || (v > 0xdfff && v < 0x110000); }
    void put8(std::string& s, u32 v)
    {
        if (v < 0x80) s += static_cast<char>(v);
        else if (v < 0x800) { s += static_cast<char>(0xc0 + v / 64); s += static_cast<char>(0x80 + v % 64); }
        else if (v < 0x10000) { s += static_cast<char>(0xe0 + v / 4096); s += static_cast<char>(0x80 + v / 64 % 64); s += static_cast<char>(0x80 + v % 64); }
        else { s += static_cast<char>(0xf0 + v / 262144); s += static_cast<char>(0x80 + v / 4096 % 64); s += static_cast<char>(0x80 + v / 64 % 64); s += static_cast<char>(0x80 + v % 64); }
    }
    template<class S> void put16(S& s, u32 v)
    {
        using C = typename S::value_type;
        if (v < 0x10000) s += static_cast<C>(v);
        else { v -= 0x10000; s += static_cast<C>(0xd800 + v / 1024); s += static_cast<C>(0xdc00 + v % 1024); }
    }
    // What the first character of a byte sequence is: its value and length, an
    // error, or something the iterators need not settle (overlong forms, encoded
    // surrogates, beyond the last code point).
    struct First { enum { GOOD, BAD, OPEN } kind; u32 value; std::size_t len; };
    First first8(const unsigned char* p, std::size_t n)
    {
        const unsigned b = p[0];
        std::size_t len = b < 0x80 ? 1 : b < 0xc0 ? 0 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf8 ? 4 : 0;
        if (!len || len > n) return {First::BAD, 0, 0};
        u32 v = len == 1 ? b : len == 2 ? b - 0xc0 : len == 3 ? b - 0xe0 : b - 0xf0;
        for (std::size_t i = 1; i < len; ++i) { if (p[i] < 0x80 || p[i] > 0xbf) return {First::BAD, 0, 0}; v = v * 64 + (p[i] - 0x80); }
        std::string again;
        if (scalar(v)) put8(again, v);
        return {again.size() == len ? First::GOOD : First::OPEN, v, len};
    }
    template<class C> First first16(const C* p, std::size_t n)
    {
        const u32 a = static_cast<u32>(p[0]);
        if (a < 0xd800 || a > 0xdfff) return {First::GOOD, a, 1};
        if (a > 0xdbff || n < 2) return {First::BAD, 0, 0};
        const u32 b = static_cast<u32>(p[1]);
        if (b < 0xdc00 || b > 0xdfff) return {First::BAD, 0, 0};
        return {First::GOOD, 0x10000 + (a - 0xd800) * 1024 + (b - 0xdc00), 2};
    }
    template<class C> struct Buf
    {
        std::unique_ptr<C[]> p;
        std::size_t n;
        template<class S> explicit Buf(const S& s) : p(new C[s.size()]), n(s.size()) { for (std::size_t i = 0; i < n; ++i) p[i] = static_cast<C>(s[i]); }
        const C* b() const { return p.get(); }
        const C* e() const { return p.get() + n; }
    };
    template<class It, class C> U decode(const C* b, const C* e)
    {
        U u;
        It it(b, e), end(e, e);
        while (it != end) { u += *it; ++it; if (u.size() > static_cast<std::size_t>(e - b)) return U(1, 0xffffffff); }
        return u;
    }
    using I8 = lexertl::cutf8_in_utf32_out_iterator;
    using I16 = lexertl::cutf16_in_utf32_out_iterator;
    using IW = lexertl::cwchar_t_in_utf32_out_iterator;
    template<class Out, class In, class S> S encode(In b, In e, std::size_t limit)
    {
        S s;
        Out it(b, e), end(e, e);
        while (it != end) { s += *it; ++it; if (s.size() > limit) break; }
        return s;
    }
    void code_points(Ctx& c)
    {
        for (u32 v = 0; v < 0x110000; ++v)
        {
            if (!scalar(v)) continue;
            std::string s8;
            std::u16string s16;
            std::wstring sw;
            put8(s8, v); put16(s16, v); put16(sw, v);
            const Buf<char> b8(s8);
            const Buf<char16_t> b16(s16);
            const Buf<wchar_t> bw(sw);
            const std::string at = std::to_string(v);
            if (decode<I8>(b8.b(), b8.e()) != U(1, v)) c.fail("utf8-decode", at);
            if (decode<I16>(b16.b(), b16.e()) != U(1, v)) c.fail("utf16-decode", at);
            if (decode<IW>(bw.b(), bw.e()) != U(1, v)) c.fail("wchar-decode", at);
            const char32_t one[1] = {v};
            if (encode<lexertl::basic_utf8_out_iterator<const char32_t*>, const char32_t*, std::string>(one, one + 1, 8) != s8) c.fail("utf8-encode", at);
            if (encode<lexertl::basic_utf16_out_iterator<const char32_t*, char16_t>, const char32_t*, std::u16string>(one, one + 1, 8) != s16) c.fail("utf16-encode", at);
            if (encode<lexertl::cutf8_in_utf16_out_iterator, I8, std::u16string>(I8(b8.b(), b8.e()), I8(b8.e(), b8.e()), 8) != s16) c.fail("utf8-to-utf16", at);
            if (encode<lexertl::cutf8_in_wchar_t_out_iterator, I8, std::wstring>(I8(b8.b(), b8.e()), I8(b8.e(), b8.e()), 8) != sw) c.fail("utf8-to-wchar", at);
            if (encode<lexertl::cutf16_in_utf8_out_iterator, I16, std::string>(I16(b16.b(), b16.e()), I16(b16.e(), b16.e()), 8) != s8) c.fail("utf16-to-utf8", at);
            if (encode<lexertl::cwchar_t_in_utf8_out_iterator, IW, std::string>(IW(bw.b(), bw.e()), IW(bw.e(), bw.e()), 8) != s8) c.fail("wchar-to-utf8", at);
            c.count("code_points");
            if (v % 64 == 0) c.nontrivial(mix(v, 1));
        }
    }
    // Decoding up to the first error, which must come exactly there.
    template<class It, class C, class F> void decode_any(Ctx& c, const Buf<C>& b, F first, const std::string& what)
    {
        std::size_t pos = 0;
        bool stopped = false;
        std::unique_ptr<It> it;
        while (true)
        {
            First f{First::GOOD, 0, 0};
            if (pos < b.n) f = first(b.b() + pos, b.n - pos);
            bool threw = false;
            try { if (!it) it.reset(new It(b.b(), b.e())); else ++*it; }
            catch (const std::exception&) { threw = true; }
            if (f.kind == First::OPEN) { c.count("left_open"); return; }
            if (f.kind == First::BAD)
            {
                if (!threw) c.fail("ill-formed-accepted", what + " at " + std::to_string(pos));
                c.count("errors_seen");
                stopped = true;
                break;
            }
            if (threw) c.fail("well-formed-refused", what + " at " + std::to_string(pos));
            if (pos == b.n) break;
            if (static_cast<u32>(**it) != f.value) c.fail("wrong-value", what + " at " + std::to_string(pos) + " got " + std::to_string(static_cast<u32>(**it)) + " expected " + std::to_string(f.value));
            pos += f.len;
            c.count("characters_decoded");
        }
        if (!stopped && *it != It(b.e(), b.e())) c.fail("end-not-reached", what);
    }
    std::string hex(const std::string& s) { std::string o; char b[8]; for (unsigned char ch : s) { std::snprintf(b, sizeof b, "%02x ", ch); o += b; } return o; }
    template<class S> std::string hex16(const S& s) { std::string o; char b[16]; for (auto ch : s) { std::snprintf(b, sizeof b, "%x ", static_cast<unsigned>(ch)); o += b; } return o; }
    void bytes(Ctx& c)
    {
        const unsigned rep[] = {0x00, 0x41, 0x7f, 0x80, 0x8f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe1, 0xf1, 0xf8, 0xff};
        auto go = [&](const std::string& s) { decode_any<I8>(c, Buf<char>(s), [](const char* p, std::size_t n) { return first8(reinterpret_cast<const unsigned char*>(p), n); }, hex(s)); c.count("byte_sequences"); };
        for (unsigned a = 0; a < 256; ++a)
        {
            go(std::string(1, static_cast<char>(a)));
            for (unsigned b = 0; b < 256; ++b) go(std::string{static_cast<char>(a), static_cast<char>(b)});
            if (a >= 0x80 || a == 0x41)
                for (unsigned b : rep) for (unsigned d : rep)
                {
                    go(std::string{static_cast<char>(a), static_cast<char>(b), static_cast<char>(d)});
                    for (unsigned e : rep) go(std::string{static_cast<char>(a), static_cast<char>(b), static_cast<char>(d), static_cast<char>(e)});
                }
        }
        auto go16 = [&](const std::u16string& s)
        {
            decode_any<I16>(c, Buf<char16_t>(s), [](const char16_t* p, std::size_t n) { return first16(p, n); }, hex16(s));
            decode_any<IW>(c, Buf<wchar_t>(s), [](const wchar_t* p, std::size_t n) { return first16(p, n); }, hex16(s));
            c.count("unit_sequences");
        };
        for (u32 a = 0; a < 0x10000; ++a) go16(std::u16string(1, static_cast<char16_t>(a)));
        const u32 r16[] = {0, 0x41, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdfff, 0xe000, 0xffff};
        for (u32 a : r16) for (u32 b : r16) for (u32 d : r16) { go16({static_cast<char16_t>(a), static_cast<char16_t>(b)}); go16({static_cast<char16_t>(a), static_cast<char16_t>(b), static_cast<char16_t>(d)}); }
    }
    u32 any_scalar(Rng& g)
    {
        for (;;)
        {
            u32 v = 0;
            switch (g.below(6))
            {
            case 0: v = static_cast<u32>(g.below(0x80)); break;
            case 1: v = static_cast<u32>(g.in(0x7e, 0x82)); break;
            case 2: v = static_cast<u32>(g.in(0x7fe, 0x802)); break;
            case 3: v = static_cast<u32>(g.in(0xfffe, 0x10002)); break;
            case 4: v = static_cast<u32>(g.below(0x10000)); break;
            default: v = static_cast<u32>(g.below(0x110000)); break;
            }
            if (scalar(v)) return v;
        }
    }
    // A walk in both directions over well-formed text.
    template<class It, class B> void walk(Ctx& c, Rng& g, B base, B end, const U& u, const std::vector<std::size_t>& at, const std::string& what)
    {
        const std::size_t n = u.size();
        std::vector<It> places;
        for (It it(base, end); ; ++it) { places.push_back(it); if (it == It(end, end)) break; if (places.size() > n) c.fail("walk-too-long", what); }
        if (places.size() != n + 1) c.fail("walk-length", what);
        std::size_t p = 0;
        It it(base, end);
        for (int i = 0; i < 60; ++i)
        {
            const char* op = "";
            switch (g.below(6))
            {
            case 0: if (p < n) { ++it; ++p; op = "++it"; } break;
            case 1: if (p < n) { const It old = it++; if (!(old == places[p])) c.fail("post-increment", what); ++p; op = "it++"; } break;
            case 2: { const std::size_t k = g.below(n - p + 1); it = it + k; p += k; op = "it + n"; break; }
            case 3: { const std::size_t k = g.below(p + 1); it = it - k; p -= k; op = "it - n"; break; }
            case 4: { const B q = std::next(base, static_cast<std::ptrdiff_t>(at[p])); it = It(q, end); op = "It(p, end)"; break; }
            default: { It copy = it; it = copy; break; }
            }
            if (!(it == places[p]) || it != places[p]) c.fail("boundary-differs", what + " after " + op + " at " + std::to_string(p));
            if (p < n && static_cast<u32>(*it) != u[p]) c.fail("value-after-step", what + " after " + op + " at " + std::to_string(p));
            const std::size_t q = g.below(n + 1);
            if ((it == places[q]) != (p == q) || (it != places[q]) != (p != q)) c.fail("comparison", what);
            c.count("steps");
        }
    }
    // Output positions are all different, and equal to themselves however reached.
    template<class Out, class In, class S> void out_walk(Ctx& c, Rng& g, In b, In e, const S& want, const std::string& what)
    {
        std::vector<Out> places;
        Out it(b, e);
        const Out end(e, e);
        for (std::size_t i = 0; i <= want.size(); ++i)
        {
            places.push_back(it);
            if ((it == end) != (i == want.size()) || (it != end) != (i != want.size())) c.fail("output-end", what + " at " + std::to_string(i));
            if (i == want.size()) break;
            if (*it != want[i]) c.fail("output-value", what + " at " + std::to_string(i));
            if (g.chance(1, 2)) ++it;
            else { const Out old = it++; if (!(old == places[i])) c.fail("output-post-increment", what); }
            c.count("units_encoded");
        }
        for (int k = 0; k < 20; ++k)
        {
            const std::size_t i = g.below(places.size()), j = g.below(places.size());
            if ((places[i] == places[j]) != (i == j)) c.fail("output-comparison", what + " positions " + std::to_string(i) + " " + std::to_string(j));
            if (i < j) { if (S(places[i], places[j]) != want.substr(i, j - i)) c.fail("output-range", what + " " + std::to_string(i) + " " + std::to_string(j)); c.count("output_ranges"); }
        }
    }
    template<class It, class C> struct Flip { std::basic_string<C> s; };
    void texts(Ctx& c, u64, Rng& g)
    {
        U u;
        std::string s8;
        std::u16string s16;
        std::wstring sw;
        std::vector<std::size_t> at8, at16;
        for (std::size_t n = g.below(30); n; --n)
        {
            const u32 v = any_scalar(g);
            at8.push_back(s8.size());
            at16.push_back(s16.size());
            u += v;
            put8(s8, v); put16(s16, v); put16(sw, v);
        }
        at8.push_back(s8.size());
        at16.push_back(s16.size());
        const std::string what = visw(u);
        c.note(what);
        const Buf<char> b8(s8);
        const Buf<char16_t> b16(s16);
        const Buf<wchar_t> bw(sw);
        walk<I8>(c, g, b8.b(), b8.e(), u, at8, what + " utf8");
        walk<I16>(c, g, b16.b(), b16.e(), u, at16, what + " utf16");
        walk<IW>(c, g, bw.b(), bw.e(), u, at16, what + " wchar_t");
        { const std::list<char> l(s8.begin(), s8.end()); walk<lexertl::basic_utf8_in_iterator<std::list<char>::const_iterator, char32_t>>(c, g, l.begin(), l.end(), u, at8, what + " utf8 list"); }
        { const std::vector<unsigned char> l(s8.begin(), s8.end()); walk<lexertl::basic_utf8_in_iterator<std::vector<unsigned char>::const_iterator, wchar_t>>(c, g, l.begin(), l.end(), u, at8, what + " utf8 bytes"); }
        { const std::list<char16_t> l(s16.begin(), s16.end()); walk<lexertl::basic_utf16_in_iterator<std::list<char16_t>::const_iterator, std::uint32_t>>(c, g, l.begin(), l.end(), u, at16, what + " utf16 list"); }
        const Buf<char32_t> b32(u);
        out_walk<lexertl::basic_utf8_out_iterator<const char32_t*>>(c, g, b32.b(), b32.e(), s8, what + " to utf8");
        out_walk<lexertl::basic_utf16_out_iterator<const char32_t*, char16_t>>(c, g, b32.b(), b32.e(), s16, what + " to utf16");
        out_walk<lexertl::cutf8_in_utf16_out_iterator>(c, g, I8(b8.b(), b8.e()), I8(b8.e(), b8.e()), s16, what + " utf8 to utf16");
        out_walk<lexertl::cutf16_in_utf8_out_iterator>(c, g, I16(b16.b(), b16.e()), I16(b16.e(), b16.e()), s8, what + " utf16 to utf8");
        out_walk<lexertl::cutf8_in_wchar_t_out_iterator>(c, g, I8(b8.b(), b8.e()), I8(b8.e(), b8.e()), sw, what + " utf8 to wchar_t");
        out_walk<lexertl::cwchar_t_in_utf8_out_iterator>(c, g, IW(bw.b(), bw.e()), IW(bw.e(), bw.e()), s8, what + " wchar_t to utf8");
        {   // the other byte order
            std::u16string swapped;
            for (char16_t ch : s16) swapped += static_cast<char16_t>((ch >> 8) | ((ch & 0xff) << 8));
            const Buf<char16_t> f(swapped);
            using F = lexertl::basic_flip_iterator<const char16_t*>;
            std::u16string back;
            for (F i(f.b()), e(f.e()); i != e; ) { if (i == e) c.fail("flip-comparison", what); back += *i; if (g.chance(1, 2)) ++i; else { const F old = i++; if (*old != back.back()) c.fail("flip-post-increment", what); } }
            if (back != s16) c.fail("flip-wrong", what);
            std::u32string sw32;
            for (char32_t ch : u) sw32 += static_cast<char32_t>(__builtin_bswap32(ch));
            const Buf<char32_t> f32(sw32);
            using F32 = lexertl::basic_flip_iterator<const char32_t*>;
            U back32;
            for (F32 i(f32.b()), e(f32.e()); i != e; ++i) back32 += *i;
            if (back32 != u) c.fail("flip-wrong", what);
            c.count("flipped", u.size());
        }
        // one unit changed, removed or added, or cut short
        for (int k = 0; k < 6; ++k)
        {
            std::string d8 = s8;
            std::u16string d16 = s16;
            auto damage = [&](auto& s, u64 lo, u64 hi)
            {
                using C = typename std::decay<decltype(s)>::type::value_type;
                const C v = static_cast<C>(g.in(lo, hi));
                const std::size_t p = g.below(s.size() + 1);
                switch (g.below(4))
                {
                case 0: if (p < s.size()) s[p] = v; break;
                case 1: if (p < s.size()) s.erase(p, 1); break;
                case 2: s.insert(p, 1, v); break;
                default: s.resize(p); break;
                }
            };
            damage(d8, 0x70, 0xff);
            damage(d16, 0xd7f0, 0xe010);
            decode_any<I8>(c, Buf<char>(d8), [](const char* p, std::size_t n) { return first8(reinterpret_cast<const unsigned char*>(p), n); }, hex(d8));
            decode_any<I16>(c, Buf<char16_t>(d16), [](const char16_t* p, std::size_t n) { return first16(p, n); }, hex16(d16));
        }
        if (u.size() > 2) c.nontrivial(hash_str(what));
    }
    // Lexing through the iterators gives the tokens of the code points.
    void lexing(Ctx& c, u64, Rng& g)
    {
        static lexertl::u32state_machine sm;
        static bool built = false;
        if (!built)
        {
            lexertl::u32rules lr;
            lr.push(U"[a-z]+", 1);
            lr.push(U"[\\x80-\\x7ff]+", 2);
            lr.push(U"[\\x800-\\xffff]+$", 3);
            lr.push(U"[\\x10000-\\x10ffff]{2,5}", 4);
            lr.push(U"^\\x1f600", 5);
            lr.push(U"[\\r\\n]+", lr.skip());
            lexertl::u32generator::build(lr, sm);
            built = true;
        }
        U u;
        std::string s8;
        std::u16string s16;
        std::vector<std::size_t> at8, at16;
        for (std::size_t n = g.in(1, 40); n; --n)
        {
            const u32 v = g.chance(1, 3) ? static_cast<u32>(g.in('a', 'd')) : g.chance(1, 5) ? '\n' : g.chance(1, 6) ? 0x1f600 : any_scalar(g);
            for (u64 k = g.in(1, 3); k; --k) { at8.push_back(s8.size()); at16.push_back(s16.size()); u += v; put8(s8, v); put16(s16, v); }
        }
        at8.push_back(s8.size());
        at16.push_back(s16.size());
        const std::string what = visw(u);
        c.note(what);
        const Buf<char> b8(s8);
        const Buf<char16_t> b16(s16);
        const Buf<char32_t> b32(u);
        lexertl::match_results<const char32_t*> r(b32.b(), b32.e());
        lexertl::match_results<I8> r8(I8(b8.b(), b8.e()), I8(b8.e(), b8.e()));
        lexertl::match_results<I16> r16(I16(b16.b(), b16.e()), I16(b16.e(), b16.e()));
        do
        {
            lexertl::lookup(sm, r);
            lexertl::lookup(sm, r8);
            lexertl::lookup(sm, r16);
            const auto f = static_cast<std::size_t>(r.first - b32.b()), s = static_cast<std::size_t>(r.second - b32.b());
            if (r8.id != r.id || r8.first != I8(b8.b() + at8[f], b8.e()) || r8.second != I8(b8.b() + at8[s], b8.e()) || r8.bol != r.bol) c.fail("utf8-tokens-differ", what + " at " + std::to_string(f));
            if (r16.id != r.id || r16.first != I16(b16.b() + at16[f], b16.e()) || r16.second != I16(b16.b() + at16[s], b16.e()) || r16.bol != r.bol) c.fail("utf16-tokens-differ", what + " at " + std::to_string(f));
            if (r8.first.get() != b8.b() + at8[f]) c.fail("get", what);
            if (r.id != 0 && r.id != r.npos()) c.count("tokens_compared");
        } while (r.id != 0);
    }
}
int main(int argc, char** argv)
{
    return run(argc, argv, {{"code-points", code_points}, {"bytes", bytes}}, {{"texts", texts}, {"lexing", lexing}});
}
