// Random single-character expressions in every notation, with the set each
// denotes computed independently.
#pragma once
#include "probe.hpp"
#include "ucd.hpp"
#include <locale>
namespace lx
{
    // A narrow locale with case pairs above 127 (as in Latin-1) and its own
    // classification, so that results depend on the locale given to the rules.
    struct Latin : std::ctype<char>
    {
        mask t[table_size];
        Latin() : std::ctype<char>(t)
        {
            const mask* m = std::ctype<char>::classic_table();
            for (std::size_t i = 0; i < table_size; ++i) t[i] = m[i];
            for (int i = 0xc0; i <= 0xde; ++i) if (i != 0xd7) t[i] = upper | alpha | print;
            for (int i = 0xdf; i <= 0xff; ++i) if (i != 0xf7) t[i] = lower | alpha | print;
        }
        char do_toupper(char ch) const override
        {
            const unsigned char u = static_cast<unsigned char>(ch);
            if (u >= 'a' && u <= 'z') return static_cast<char>(u - 32);
            if (u >= 0xe0 && u != 0xf7 && u != 0xff) return static_cast<char>(u - 32);
            return ch;
        }
        char do_tolower(char ch) const override
        {
            const unsigned char u = static_cast<unsigned char>(ch);
            if (u >= 'A' && u <= 'Z') return static_cast<char>(u + 32);
            if (u >= 0xc0 && u <= 0xde && u != 0xd7) return static_cast<char>(u + 32);
            return ch;
        }
    };
    inline const std::locale& latin()
    {
        static const std::locale l(std::locale::classic(), new Latin);
        return l;
    }

    struct SetGen
    {
        Rng& g;
        u32 max;
        bool icase = false;
        const std::locale* loc = nullptr; // narrow
        bool dot_nl = false;              // dot matches newline
        bool props = true;                // \p usable (32 bit characters)
        std::string kinds;                // what was used, for reports
        std::u32string t;
        ref::Spell sp{g, max, max > 0xff};

        SetGen(Rng& r, u32 m) : g(r), max(m) {}
        bool wide() const { return max > 0xff; }
        ref::CS all() const { return ref::CS(0, max); }
        ref::CS fold(const ref::CS& c) const
        {
            if (!icase) return c;
            if (wide()) return ucd::folded(c).meet(all());
            ref::CS o = c;
            const std::locale& l = loc ? *loc : std::locale::classic();
            for (u32 i = 0; i < 256; ++i)
                if (c.has(i))
                {
                    const u32 u = static_cast<unsigned char>(std::toupper(static_cast<char>(i), l)), w = static_cast<unsigned char>(std::tolower(static_cast<char>(i), l));
                    o.add(u, u);
                    o.add(w, w);
                }
            return o;
        }
        ref::CS ct(std::ctype_base::mask m) const
        {
            ref::CS o;
            const std::locale& l = loc ? *loc : std::locale::classic();
            for (u32 i = 0; i < 256; ++i) if (std::use_facet<std::ctype<char>>(l).is(m, static_cast<char>(i))) o.add(i, i);
            return o;
        }
        u32 ch()
        {
            switch (g.below(8))
            {
            case 0: case 1: return static_cast<u32>(g.in(33, 126));
            case 2: return static_cast<u32>(g.below(128));
            case 3: return static_cast<u32>("aAzZkK09_-^]\\[:."[g.below(16)]);
            case 4: { static const u32 e[] = {0, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x10ffff}; u32 x = e[g.below(8)]; return x > max ? max : x; }
            case 5: { if (!wide()) return static_cast<u32>(g.below(256)); auto it = ucd::get().fold.lower_bound(static_cast<u32>(g.below(0x1e940)));
                return it == ucd::get().fold.end() || it->first > max ? 'k' : it->first; }
            case 6: return static_cast<u32>(g.below(wide() ? 0x600 : 256));
            default: return static_cast<u32>(g.below(static_cast<u64>(max) + 1));
            }
        }
        ref::CS posix_set(const std::string& n)
        {
            using B = std::ctype_base;
            if (n == "xdigit") return ref::CS::of("0123456789abcdefABCDEF");
            if (!wide())
            {
                if (n == "alnum") return ct(B::alnum);
                if (n == "alpha") return ct(B::alpha);
                if (n == "lower") return ct(B::lower);
                if (n == "upper") return ct(B::upper);
                if (n == "blank") return ref::CS::of(" \t");
                if (n == "cntrl") { ref::CS c(0, 31); c.add(127, 127); return c; }
                if (n == "digit") return ref::CS('0', '9');
                if (n == "graph") return ref::CS(33, 126);
                if (n == "print") return ref::CS(32, 126);
                if (n == "space") return ref::CS::of(" \t\r\n\v\f");
                ref::CS c(33, 126);
                return c.minus(ref::CS('0', '9')).minus(ref::CS('a', 'z')).minus(ref::CS('A', 'Z'));
            }
            auto u = [&](std::vector<std::string> v) { ref::CS c; for (auto& x : v) c.add(ucd::prop(x)); return c; };
            if (n == "alnum") return u({"Ll", "Lu", "Nd"});
            if (n == "alpha") return u({"Ll", "Lu"});
            if (n == "lower") return u({"Ll"});
            if (n == "upper") return u({"Lu"});
            if (n == "blank") { auto c = u({"Zs"}); c.add(9, 9); return c; }
            if (n == "cntrl") return u({"Cc"});
            if (n == "digit") return u({"Nd"});
            if (n == "graph") return u({"Z", "C"}).inv(max);
            if (n == "print") return u({"C"}).inv(max);
            if (n == "space") { auto c = u({"Z"}); c.add(ref::CS::of("\t\r\n\v\f")); return c; }
            return u({"P", "S"});
        }
        ref::CS shortcut()
        {
            const char k = "dDsSwW"[g.below(6)];
            t += U'\\';
            t += static_cast<char32_t>(k);
            sp.tail = ref::Spell::NONE;
            kinds += k;
            ref::CS c = k == 'd' || k == 'D' ? ref::CS('0', '9') : k == 's' || k == 'S' ? ref::CS::of(" \t\n\r\f\v") : ref::CS::of("_0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ");
            c = fold(c);
            return k < 'a' ? c.inv(max) : c;
        }
        ref::CS property()
        {
            static const auto names = ucd::names();
            const auto& n = g.pick(names);
            for (char x : "\\p{" + n + "}") t += static_cast<char32_t>(x);
            sp.tail = ref::Spell::NONE;
            kinds += 'p';
            return fold(ucd::prop(n));
        }
        ref::CS item(bool first)
        {
            switch (g.below(9))
            {
            case 0: case 1: case 2:
            {
                u32 a = ch(), b = ch();
                if (g.chance(1, 2)) { b = a + static_cast<u32>(g.below(40)); if (b > max) b = max; }
                if (a > b) std::swap(a, b);
                sp.put_char(t, a, true);
                t += U'-';
                sp.tail = ref::Spell::NONE;
                sp.put_char(t, b, true);
                kinds += 'r';
                return fold(ref::CS(a, b));
            }
            case 3:
                kinds += '\\';
                return shortcut();
            case 4:
                if (wide() && !props) break;
                {
                    static const char* n[] = {"alnum", "alpha", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "xdigit"};
                    const std::string name = n[g.below(12)];
                    const bool neg = g.chance(1, 4);
                    for (char x : std::string("[:") + (neg ? "^" : "") + name + ":]") t += static_cast<char32_t>(x);
                    sp.tail = ref::Spell::NONE;
                    kinds += 'P';
                    // sets the library writes as a negation are folded before it
                    const bool inv = wide() && (name == "graph" || name == "print");
                    ref::CS c = posix_set(name);
                    c = inv ? fold(c.inv(max)).inv(max) : fold(c);
                    return neg ? c.inv(max) : c;
                }
            case 5: if (wide() && props) return property(); break;
            case 6:
                if (first && g.chance(1, 2))
                {
                    // special only elsewhere
                    const char32_t c = g.chance(1, 2) ? U']' : U'-';
                    t += c;
                    sp.tail = ref::Spell::NONE;
                    return ref::CS(c, c);
                }
                break;
            default: break;
            }
            const u32 a = ch();
            sp.put_char(t, a, true);
            kinds += 'c';
            return fold(ref::CS(a, a));
        }
        ref::CS bracket()
        {
            t += U'[';
            sp.tail = ref::Spell::NONE;
            const bool neg = g.chance(1, 3);
            if (neg) t += U'^';
            ref::CS c;
            const u64 n = g.in(1, 5);
            for (u64 i = 0; i < n; ++i) c.add(item(i == 0));
            if (g.chance(1, 10)) { t += U'-'; c.add('-', '-'); }
            t += U']';
            sp.tail = ref::Spell::NONE;
            return neg ? c.inv(max) : c;
        }
        ref::CS escape(u32 c)
        {
            // octal and hex with few and many digits
            char b[32];
            if (c < 512 && g.chance(1, 2)) { const char* f[] = {"\\%o", "\\%02o", "\\%03o"}; std::snprintf(b, sizeof b, f[g.below(3)], c); }
            else { const char* f[] = {"\\x%x", "\\x%X", "\\x%04x", "\\x%020x"}; std::snprintf(b, sizeof b, f[g.below(4)], c); }
            for (char* p = b; *p; ++p) t += static_cast<char32_t>(*p);
            sp.tail = ref::Spell::NONE;
            kinds += 'e';
            return fold(ref::CS(c, c));
        }
        ref::CS atom()
        {
            switch (g.below(10))
            {
            case 0: return escape(ch());
            case 1: { const u32 c = ch(); if (c == 0 || c == '"' || c == '\\') return escape(c); t += U'"'; t += static_cast<char32_t>(c); t += U'"'; kinds += 'q'; sp.tail = ref::Spell::NONE; return fold(ref::CS(c, c)); }
            case 2:
            {
                t += U'.';
                kinds += '.';
                sp.tail = ref::Spell::NONE;
                return dot_nl ? all() : all().minus(ref::CS('\n', '\n'));
            }
            case 3: return shortcut();
            case 4: if (wide() && props) return property(); return bracket();
            case 5: { const u32 c = ch(); sp.tail = ref::Spell::NONE; sp.put_char(t, c, false); kinds += 'l'; sp.tail = ref::Spell::NONE; return fold(ref::CS(c, c)); }
            default: return bracket();
            }
        }
        // returns false when some intermediate set is empty (rejected text)
        bool expression(ref::CS& out)
        {
            out = atom();
            if (out.empty()) return false;
            for (u64 n = g.chance(1, 2) ? 0 : g.in(1, 3); n; --n)
            {
                const bool minus = g.chance(1, 2);
                t += minus ? U"{-}" : U"{+}";
                kinds += minus ? '-' : '+';
                const ref::CS b = atom();
                if (b.empty()) return false;
                if (minus) out = out.minus(b); else out.add(b);
                if (out.empty()) return false;
            }
            return true;
        }
    };
}
