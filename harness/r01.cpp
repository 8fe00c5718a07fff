// R01: every notation for a single character denotes exactly its set.
#include "setgen.hpp"
using namespace lx;
namespace
{
    template<class Ch>
    bool rejected(const std::u32string& t, std::size_t flags, const std::locale* loc)
    {
        Rules<Ch> lr(flags);
        if (loc) lr.imbue(*loc);
        try { lr.push(ref::to<Ch>(t), 1); } catch (const lexertl::runtime_error&) { return true; }
        return false;
    }
    template<class Ch>
    void body(Ctx& c, u64, Rng& g, u32 max)
    {
        for (int k = 0; k < 6; ++k)
        {
            SetGen s(g, max);
            s.props = max > 0xffff;
            s.dot_nl = g.chance(1, 3);
            if (max == 0xff && g.chance(1, 3)) s.loc = &latin();
            std::size_t flags = static_cast<std::size_t>(lexertl::regex_flags::allow_suppressed_rules) | (s.dot_nl ? 0 : static_cast<std::size_t>(lexertl::regex_flags::dot_not_newline));
            ref::CS want;
            const bool ok = s.expression(want);
            const std::string what = h::visw(s.t) + (s.dot_nl ? " dot=all" : "") + (s.loc ? " latin" : "");
            c.note(what);
            if (!ok)
            {
                if (!rejected<Ch>(s.t, flags, s.loc)) c.fail("empty-set-accepted", what);
                c.count("empty_sets_rejected");
                continue;
            }
            std::vector<u32> cand = max == 0xff ? all_of(0xff) : around(g, {want, want.inv(max)}, max);
            // also the other case of everything near
            if (max > 0xff)
            {
                std::vector<u32> more;
                for (u32 x : cand) { auto it = ucd::get().fold.find(x); if (it != ucd::get().fold.end() && it->second <= max) more.push_back(it->second); }
                cand.insert(cand.end(), more.begin(), more.end());
            }
            expect_set(c, "wrong-set", probe<Ch>(c, ref::to<Ch>(s.t), cand, flags, s.loc), cand, want, what);
            c.count("expressions_checked");
            for (char x : std::set<char>(s.kinds.begin(), s.kinds.end())) c.count(std::string("notation_") + x);
            if (want.size() > 1 || s.kinds.size() > 1) c.nontrivial(h::hash_str(what));
            c.sample(what);
        }
    }
    void narrow(Ctx& c, u64 i, Rng& g) { body<char>(c, i, g, 0xff); }
    void w16(Ctx& c, u64 i, Rng& g) { body<char16_t>(c, i, g, 0xffff); }
    void w32(Ctx& c, u64 i, Rng& g) { if (i & 1) body<wchar_t>(c, i, g, 0x10ffff); else body<char32_t>(c, i, g, 0x10ffff); }

    // Texts that name no character of the alphabet, or no set at all.
    void reject(Ctx& c, u64 i, Rng& g)
    {
        std::string t;
        const u32 max = i % 3 == 0 ? 0xffu : i % 3 == 1 ? 0xffffu : 0x10ffffu;
        auto big = [&] {
            char b[64];
            switch (g.below(4))
            {
            case 0: std::snprintf(b, sizeof b, "\\x%x", max + 1); break;
            case 1: std::snprintf(b, sizeof b, "\\x%llx", static_cast<unsigned long long>(max + 1 + g.below(1000000))); break;
            case 2: std::snprintf(b, sizeof b, "\\x1%016llx", static_cast<unsigned long long>(g.below(256))); break;
            default: std::snprintf(b, sizeof b, "\\x%llx%016llx%04llx", static_cast<unsigned long long>(g.in(1, 0xffff)), static_cast<unsigned long long>(g.below(256)), static_cast<unsigned long long>(g.below(256))); break;
            }
            std::string s = b;
            if (max == 0xff && g.chance(1, 4)) s = g.chance(1, 2) ? "\\400" : "\\777";
            return s;
        };
        const char a = static_cast<char>(g.in('b', 'y'));
        switch (g.below(9))
        {
        case 0: t = big(); break;
        case 1: t = "[" + big() + "]"; break;
        case 2: t = "[a-" + big() + "]"; break;
        case 3: t = std::string("[") + a + "-" + static_cast<char>(g.in('a', a - 1)) + "]"; break;
        case 4: { const char* cl[] = {"\\d", "\\S", "[:alpha:]", "\\w"}; t = g.chance(1, 2) ? std::string(g.chance(1, 2) ? "[a-" : "[!-") + cl[g.below(4)] + "]" : std::string("[") + cl[g.below(4)] + "-z]"; break; }
        case 5: t = "[^\\x0-\\x" + hex(max) + "]"; break;
        case 6:
        {
            // names that are not quite those of a class
            static const std::vector<std::string> names{"alnum", "alpha", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "xdigit"};
            std::string n = names[g.below(12)];
            const bool neg = g.chance(1, 4);
            std::string end = ":]";
            switch (g.below(7))
            {
            case 5: end = std::string(1, ".=a^]-[ "[g.below(8)]) + (g.chance(1, 2) ? "]" : ":]"); break;
            case 0: n.resize(g.below(n.size())); break;
            case 1: { const std::size_t at = g.below(n.size()); n[at] = static_cast<char>(g.chance(1, 4) ? n[at] - 32 : "abcdefghijklmnopqrstuvwxyz1 "[g.below(28)]); break; }
            case 2: n.insert(g.below(n.size() + 1), 1, "aeilnstx:^"[g.below(10)]); break;
            case 3: n.erase(g.below(n.size()), 1); break;
            case 4: end = g.chance(1, 3) ? ":" : g.chance(1, 2) ? "]" : ""; break;
            default: n = names[g.below(12)] + n; break;
            }
            if (end == ":]" && std::find(names.begin(), names.end(), n) != names.end()) n += "a";
            // "[:^alpha:]" is the opposite class
            if (end == ":]" && !neg && n[0] == '^' && std::find(names.begin(), names.end(), n.substr(1)) != names.end()) n = "^" + n;
            t = std::string("[") + (g.chance(1, 3) ? "^" : "") + (g.chance(1, 3) ? "b" : "") + "[:" + (neg ? "^" : "") + n + end + (g.chance(1, 3) ? "b" : "") + "]";
            c.count("wrong_class_names");
            break;
        }
        case 7: { const char* p[] = {"a{-}a", "[a-c]{-}[a-z]", ".{-}[^\\n]", "ab{-}", "(a){-}b", "{-}b", "a{-}(b)", "a{+}*", "a{-}|b", "[]", "[^]", "a{-", "a{+b}", "a{-}{-}b", "a{+}{-}b"}; t = p[g.below(15)]; break; }
        default: { const char* p[] = {"\\c1", "\\c", "\\xg", "\\x", "\\", "[\\", "[a", "[a-", "[", "[^", "\\c[", "[\\x]"}; t = p[g.below(12)]; break; }
        }
        c.note(t);
        const std::u32string u(t.begin(), t.end());
        const bool r = max == 0xff ? rejected<char>(u, LENIENT, nullptr) : max == 0xffff ? rejected<char16_t>(u, LENIENT, nullptr) : rejected<char32_t>(u, LENIENT, nullptr);
        if (!r) c.fail("invalid-text-accepted", t + " (largest character " + hex(max) + ")");
        c.count("invalid_texts_rejected");
        c.nontrivial(h::hash_str(t) + max);
    }
    // Escapes of every length directly followed by every printable character.
    template<class Ch>
    void followed_body(Ctx& c, u64 i, u32 max)
    {
        static const char* pre[] = {"\\0", "\\1", "\\7", "\\00", "\\01", "\\07", "\\14", "\\17", "\\77", "\\001", "\\101", "\\077", "\\177", "\\377",
            "\\x0", "\\x4", "\\xA", "\\x41", "\\x0a", "\\xfF", "\\x041", "\\cA", "\\cz", "\\c@", "\\a", "\\b", "\\e", "\\f", "\\n", "\\r", "\\t", "\\v", "\\\\", "\\.", "\\8", "\\9", "\\q", "\\\""};
        const std::string e = pre[i % (sizeof pre / sizeof *pre)];
        auto is_oct = [](char x) { return x >= '0' && x <= '7'; };
        auto is_hex = [](char x) { return (x >= '0' && x <= '9') || (x >= 'a' && x <= 'f') || (x >= 'A' && x <= 'F'); };
        // the documented meaning of the whole text: longest escape, then the rest
        auto meaning = [&](const std::string& t)
        {
            Text out;
            for (std::size_t k = 0; k < t.size();)
            {
                if (t[k] != '\\') { out += static_cast<char32_t>(static_cast<unsigned char>(t[k++])); continue; }
                ++k;
                u32 v = 0;
                if (is_oct(t[k])) for (int n = 0; n < 3 && k < t.size() && is_oct(t[k]); ++n) v = v * 8 + static_cast<u32>(t[k++] - '0');
                else if (t[k] == 'x') { ++k; while (k < t.size() && is_hex(t[k])) { v = v * 16 + static_cast<u32>(std::stoi(std::string(1, t[k]), nullptr, 16)); ++k; } }
                else if (t[k] == 'c') { v = t[k + 1] == '@' ? 0 : static_cast<u32>(t[k + 1] & 31); k += 2; }
                else
                {
                    const std::string from = "abefnrtv", to = "\a\b\x1b\f\n\r\t\v";
                    const auto at = from.find(t[k]);
                    v = at == std::string::npos ? static_cast<u32>(static_cast<unsigned char>(t[k])) : static_cast<u32>(to[at]);
                    ++k;
                }
                out += static_cast<char32_t>(v);
            }
            return out;
        };
        for (char f = 33; f < 127; ++f)
            for (int form = 0; form < 3; ++form)
            {
                if (form != 1 && std::strchr("\"\\()?*+{|[/", f)) continue;
                if (form != 2 && f == '$' ) continue;
                if (form == 1 && f == '"') continue;
                if (form == 2 && f == '-') continue;
                if (form == 1 && f == '\\') continue;
                if (form == 0 && f == '.') continue;
                if (form == 2 && f == ']') continue;
                const Text m = meaning(e + f);
                bool big = false;
                for (char32_t x : m) big = big || x > max;
                const std::string re = form == 0 ? e + f : form == 1 ? "\"" + e + f + "\"" : "[" + e + f + "]";
                Rules<Ch> lr(LENIENT);
                Sm<Ch> sm;
                bool bad = false;
                c.note(re);
                try { lr.push(ref::to<Ch>(std::u32string(re.begin(), re.end())), 1); build(lr, sm); } catch (const lexertl::runtime_error&) { bad = true; }
                if (bad != big) c.fail("escape-then-character", re + (bad ? " refused" : " accepted"));
                if (bad) continue;
                if (form < 2)
                {
                    Exact<Ch> x(m);
                    const auto v = lex_plain(sm, x.begin(), x.end(), 3);
                    if (v[0].id != 1 || v[0].e != m.size()) c.fail("escape-then-character", re + " on " + h::visw(m) + " got " + show(v, 0));
                }
                else
                    for (u32 k = 0; k < 256; ++k)
                    {
                        const Text one(1, static_cast<char32_t>(k));
                        Exact<Ch> x(one);
                        const auto v = lex_plain(sm, x.begin(), x.end(), 1);
                        if ((v[0].id == 1) != (m.find(static_cast<char32_t>(k)) != Text::npos)) c.fail("escape-then-character", re + " and " + h::visw(one));
                    }
                c.count("escapes_followed");
            }
        c.nontrivial(h::hash_str(e) + max);
    }
    void followed(Ctx& c, u64 i, Rng&)
    {
        switch (i / 38 % 3) { case 0: followed_body<char>(c, i, 0xff); break; case 1: followed_body<char16_t>(c, i, 0xffff); break; default: followed_body<char32_t>(c, i, 0x10ffff); }
    }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {}, {{"narrow", narrow}, {"w16", w16}, {"w32", w32}, {"reject", reject}, {"followed", followed}});
}
