// Independent reference semantics for regexes and lexers: sets of code points,
// syntax trees evaluated as functions from sets of start positions to sets of
// end positions (no automata), and a printer that spells a tree in the
// library's regex syntax in many equivalent ways.
#pragma once
#include "h.hpp"
#include <algorithm>
#include <bitset>
#include <memory>

namespace ref
{
    using h::u32;
    using h::u64;
    using h::Rng;
    using Text = std::u32string;

    struct CS
    {
        std::vector<std::pair<u32, u32>> r; // sorted, disjoint, non adjacent
        CS() = default;
        CS(u32 a, u32 b) { r.push_back({a, b}); }
        static CS of(const std::string& s) { CS c; for (unsigned char ch : s) c.add(ch, ch); return c; }
        bool empty() const { return r.empty(); }
        bool has(u32 c) const
        {
            auto it = std::upper_bound(r.begin(), r.end(), c, [](u32 v, const std::pair<u32, u32>& p) { return v < p.first; });
            return it != r.begin() && c <= (it - 1)->second;
        }
        void norm()
        {
            std::sort(r.begin(), r.end());
            std::vector<std::pair<u32, u32>> o;
            for (auto& p : r)
            {
                if (!o.empty() && (p.first <= o.back().second || p.first - 1 == o.back().second)) o.back().second = std::max(o.back().second, p.second);
                else o.push_back(p);
            }
            r.swap(o);
        }
        void add(u32 a, u32 b) { r.push_back({a, b}); norm(); }
        void add(const CS& o) { r.insert(r.end(), o.r.begin(), o.r.end()); norm(); }
        CS inv(u32 max) const
        {
            CS o;
            u64 next = 0;
            for (auto& p : r) { if (p.first > next) o.r.push_back({static_cast<u32>(next), p.first - 1}); next = static_cast<u64>(p.second) + 1; }
            if (next <= max) o.r.push_back({static_cast<u32>(next), max});
            return o;
        }
        CS meet(const CS& o) const
        {
            CS x;
            for (auto& a : r) for (auto& b : o.r)
            {
                const u32 lo = std::max(a.first, b.first), hi = std::min(a.second, b.second);
                if (lo <= hi) x.r.push_back({lo, hi});
            }
            x.norm();
            return x;
        }
        CS minus(const CS& o) const { return meet(o.inv(0xffffffffu)); }
        u64 size() const { u64 n = 0; for (auto& p : r) n += static_cast<u64>(p.second) - p.first + 1; return n; }
        u32 nth(u64 k) const { for (auto& p : r) { const u64 n = static_cast<u64>(p.second) - p.first + 1; if (k < n) return p.first + static_cast<u32>(k); k -= n; } return 0; }
        u32 any(Rng& g) const
        {
            // bias to range borders
            auto& p = r[g.below(r.size())];
            switch (g.below(4))
            {
            case 0: return p.first;
            case 1: return p.second;
            default: return p.first + static_cast<u32>(g.below(static_cast<u64>(p.second) - p.first + 1));
            }
        }
        bool operator==(const CS& o) const { return r == o.r; }
        bool operator<(const CS& o) const { return r < o.r; }
    };

    struct Re;
    using P = std::shared_ptr<const Re>;
    struct Re
    {
        enum K { EMPTY, SET, CAT, ALT, REP } k = EMPTY;
        CS cs;
        std::vector<P> kids;
        int lo = 0, hi = -1; // hi < 0: unbounded
        bool greedy = true;
        std::u32string raw;  // spelled exactly like this, if not empty
    };

    inline P empty() { return std::make_shared<Re>(); }
    inline P set(const CS& c) { auto n = std::make_shared<Re>(); n->k = Re::SET; n->cs = c; return n; }
    inline P chr(u32 c) { return set(CS(c, c)); }
    inline P cat(std::vector<P> v)
    {
        if (v.size() == 1) return v[0];
        auto n = std::make_shared<Re>(); n->k = v.empty() ? Re::EMPTY : Re::CAT; n->kids = std::move(v); return n;
    }
    inline P alt(std::vector<P> v)
    {
        if (v.size() == 1) return v[0];
        auto n = std::make_shared<Re>(); n->k = Re::ALT; n->kids = std::move(v); return n;
    }
    inline P rep(P a, int lo, int hi, bool greedy = true)
    {
        auto n = std::make_shared<Re>(); n->k = Re::REP; n->kids = {a}; n->lo = lo; n->hi = hi; n->greedy = greedy; return n;
    }
    inline P lit(const std::string& s) { std::vector<P> v; for (unsigned char c : s) v.push_back(chr(c)); return cat(v); }
    inline bool nullable(const P& p)
    {
        switch (p->k)
        {
        case Re::EMPTY: return true;
        case Re::SET: return false;
        case Re::CAT: for (auto& k : p->kids) if (!nullable(k)) return false; return true;
        case Re::ALT: for (auto& k : p->kids) if (nullable(k)) return true; return false;
        case Re::REP: return p->lo == 0 || nullable(p->kids[0]);
        }
        return false;
    }
    inline P mirror(const P& p)
    {
        auto n = std::make_shared<Re>(*p);
        for (auto& k : n->kids) k = mirror(k);
        if (n->k == Re::CAT) std::reverse(n->kids.begin(), n->kids.end());
        return n;
    }
    inline CS first_set(const P& p)
    {
        CS c;
        switch (p->k)
        {
        case Re::EMPTY: break;
        case Re::SET: c = p->cs; break;
        case Re::CAT: for (auto& k : p->kids) { c.add(first_set(k)); if (!nullable(k)) break; } break;
        default: for (auto& k : p->kids) c.add(first_set(k)); break;
        }
        return c;
    }
    inline CS all_chars(const P& p)
    {
        CS c = p->cs;
        for (auto& k : p->kids) c.add(all_chars(k));
        return c;
    }
    // number of leaf copies after expansion (cost of the built automaton)
    inline u64 weight(const P& p)
    {
        u64 w = p->k == Re::SET ? 1 : 0;
        for (auto& k : p->kids) w += weight(k);
        if (p->k == Re::REP) w *= static_cast<u64>(p->hi > 0 ? p->hi : p->lo + 1);
        return w;
    }
    inline unsigned loops(const P& p)
    {
        unsigned n = p->k == Re::REP && p->hi < 0 ? 1 : 0;
        for (auto& k : p->kids) n += loops(k);
        return n;
    }

    constexpr std::size_t MAXLEN = 512;
    using Pos = std::bitset<MAXLEN + 1>;

    inline Pos ends(const P& p, const Text& t, const Pos& from)
    {
        switch (p->k)
        {
        case Re::EMPTY: return from;
        case Re::SET:
        {
            Pos o;
            for (std::size_t i = from._Find_first(); i < t.size(); i = from._Find_next(i))
                if (p->cs.has(t[i])) o.set(i + 1);
            return o;
        }
        case Re::CAT:
        {
            Pos o = from;
            for (auto& k : p->kids) { if (o.none()) break; o = ends(k, t, o); }
            return o;
        }
        case Re::ALT:
        {
            Pos o;
            for (auto& k : p->kids) o |= ends(k, t, from);
            return o;
        }
        case Re::REP:
        {
            Pos cur = from;
            for (int i = 0; i < p->lo; ++i) cur = ends(p->kids[0], t, cur);
            Pos acc = cur;
            for (int i = p->lo; p->hi < 0 || i < p->hi; ++i)
            {
                cur = ends(p->kids[0], t, cur) & ~acc;
                if (cur.none()) break;
                acc |= cur;
            }
            return acc;
        }
        }
        return {};
    }
    inline Pos ends_at(const P& p, const Text& t, std::size_t at) { Pos f; f.set(at); return ends(p, t, f); }

    // A lexer rule.
    struct Rule
    {
        P re;
        bool bol = false, eol = false;
        u64 id = 0, uid = 0;
        bool noid = false, skip = false;
        bool shortest = false;        // non-greedy: shortest end wins
        CS then;                      // and as many of these as follow it
        std::vector<int> states{0};   // states it is in
        int exit = -1;                // -1: '.', otherwise state index
        bool push = false, pop = false;
        int push_state = -1;          // with push: state to return to, -1 = current
        std::string text;             // as spelled (narrow view, for reports)
    };

    // (longest end, or npos) of one rule at position at.
    inline bool rule_end(const Rule& r, const Text& t, std::size_t at, bool bol, std::size_t& best)
    {
        if (r.bol && !bol) return false;
        Pos e = ends_at(r.re, t, at);
        bool found = false;
        for (std::size_t i = e._Find_first(); i <= t.size(); i = e._Find_next(i))
        {
            if (i == at) continue; // lexertl never accepts the empty text
            if (r.eol && !(i == t.size() || t[i] == '\r' || t[i] == '\n')) continue;
            best = i;
            found = true;
            if (r.shortest) break;
        }
        while (found && best < t.size() && r.then.has(static_cast<u32>(t[best]))) ++best;
        return found;
    }
    struct Win { int rule = -1; std::size_t end = 0; bool eol = false; };
    inline Win best_rule(const std::vector<Rule>& rules, int state, const Text& t, std::size_t at, bool bol)
    {
        Win w;
        for (std::size_t i = 0; i < rules.size(); ++i)
        {
            std::size_t e = 0;
            if (std::find(rules[i].states.begin(), rules[i].states.end(), state) == rules[i].states.end()) continue;
            // The line end that $ requires counts as looked at: for the same text
            // a $ rule is preferred to one without.
            if (rule_end(rules[i], t, at, bol, e) && (w.rule < 0 || e > w.end || (e == w.end && rules[i].eol && !w.eol)))
            { w.rule = static_cast<int>(i); w.end = e; w.eol = rules[i].eol; }
        }
        return w;
    }

    // ---------------------------------------------------------------- tokens
    struct Tok
    {
        u64 id = 0, uid = 0;
        std::size_t b = 0, e = 0;
        bool bol = false;
        u64 state = 0;
        bool underflow = false;
        bool operator==(const Tok& o) const
        {
            return underflow == o.underflow && (underflow || (id == o.id && uid == o.uid && b == o.b && e == o.e && bol == o.bol && state == o.state));
        }
    };
    inline std::string show(const Tok& t)
    {
        std::ostringstream o;
        if (t.underflow) return "<stack underflow>";
        o << "{id=" << t.id << " uid=" << t.uid << " [" << t.b << "," << t.e << ") bol=" << t.bol << " state=" << t.state << "}";
        return o.str();
    }

    // Reference lexer: the delivered tokens, up to and including end of input
    // or a stack underflow. npos: value the library uses for "unknown".
    struct Lexer
    {
        const std::vector<Rule>& rules;
        const Text& t;
        u64 npos;
        std::size_t pos = 0;
        bool bol = true;
        int state = 0;
        std::vector<std::pair<int, u64>> stack;

        Lexer(const std::vector<Rule>& r, const Text& text, u64 np, bool bol0 = true, int st = 0) :
            rules(r), t(text), npos(np), bol(bol0), state(st) {}

        Tok next()
        {
            std::size_t begin = pos;
            for (;;)
            {
                Tok o;
                if (pos == t.size())
                {
                    o.id = 0; o.uid = npos; o.b = begin; o.e = pos; o.bol = bol; o.state = static_cast<u64>(state);
                    return o;
                }
                const Win w = best_rule(rules, state, t, pos, bol);
                if (w.rule < 0)
                {
                    o.id = npos; o.uid = npos; o.b = pos; o.e = pos + 1;
                    bol = t[pos] == '\n';
                    ++pos;
                    o.bol = bol; o.state = static_cast<u64>(state);
                    return o;
                }
                const Rule& r = rules[static_cast<std::size_t>(w.rule)];
                const int cur = state;
                bool more = r.noid;
                if (r.pop)
                {
                    if (stack.empty()) { o.underflow = true; return o; }
                    state = stack.back().first;
                    stack.pop_back();
                    if (!stack.empty() && stack.back().second == 0) more = true;
                }
                else
                {
                    if (r.push) stack.push_back({r.push_state < 0 ? cur : r.push_state, r.noid ? 0 : r.skip ? npos - 1 : r.id});
                    state = r.exit < 0 ? cur : r.exit;
                }
                pos = w.end;
                bol = t[pos - 1] == '\n';
                if (r.skip) { begin = pos; continue; }
                if (more) continue;
                o.id = r.id; o.uid = r.uid == ~u64{0} ? npos : r.uid; o.b = begin; o.e = pos; o.bol = bol; o.state = static_cast<u64>(state);
                return o;
            }
        }
        std::vector<Tok> all(std::size_t limit = 4096)
        {
            std::vector<Tok> v;
            while (v.size() < limit)
            {
                v.push_back(next());
                if (v.back().underflow || (v.back().id == 0)) break;
            }
            return v;
        }
    };

    // ------------------------------------------------------------- generation
    struct GenOpt
    {
        CS alphabet;          // code points to draw from
        u32 max = 0xff;       // largest code point of the character type
        unsigned depth = 3;
        unsigned max_rep = 4;
        bool loops = true;
    };
    inline CS gen_set(Rng& g, const GenOpt& o)
    {
        CS c;
        switch (g.below(6))
        {
        case 0: case 1: case 2: { const u32 x = o.alphabet.any(g); c.add(x, x); break; }
        case 3:
        {
            u32 a = o.alphabet.any(g), b = o.alphabet.any(g);
            if (a > b) std::swap(a, b);
            c.add(a, b);
            c = c.meet(o.alphabet);
            break;
        }
        case 4:
            for (u64 i = 0, n = g.in(2, 4); i < n; ++i)
            {
                u32 a = o.alphabet.any(g);
                c.add(a, a);
            }
            break;
        default:
        {
            const u32 a = o.alphabet.any(g), b = o.alphabet.any(g);
            CS x(a, a); x.add(b, b);
            c = x.inv(o.max);
            break;
        }
        }
        return c;
    }
    inline P gen(Rng& g, const GenOpt& o, unsigned depth)
    {
        const u64 k = depth == 0 ? 0 : g.below(10);
        if (k < 3) return set(gen_set(g, o));
        if (k < 6)
        {
            std::vector<P> v;
            for (u64 i = 0, n = g.in(2, 4); i < n; ++i) v.push_back(gen(g, o, depth - 1));
            return cat(v);
        }
        if (k < 8)
        {
            std::vector<P> v;
            for (u64 i = 0, n = g.in(2, 3); i < n; ++i) v.push_back(gen(g, o, depth - 1));
            return alt(v);
        }
        P a = gen(g, o, depth - 1);
        switch (g.below(o.loops ? 7 : 3))
        {
        case 0: return rep(a, 0, 1);
        case 1: { const int n = static_cast<int>(g.in(1, o.max_rep)); return rep(a, n, n); }
        case 2:
        {
            int lo = static_cast<int>(g.below(o.max_rep)), hi = static_cast<int>(g.in(1, o.max_rep));
            if (lo > hi) std::swap(lo, hi);
            if (hi == 0) hi = 1;
            return rep(a, lo, hi);
        }
        case 3: return rep(a, static_cast<int>(g.below(o.max_rep)), -1);
        case 4: case 5: return rep(a, 0, -1);
        default: return rep(a, 1, -1);
        }
    }
    inline P gen_nonnull(Rng& g, const GenOpt& o, u64 maxw = 40)
    {
        for (;;)
        {
            P p = gen(g, o, static_cast<unsigned>(g.in(0, o.depth)));
            if (!nullable(p) && weight(p) <= maxw) return p;
        }
    }

    // A random text likely to be matched: samples from the language.
    inline void sample_into(const P& p, Rng& g, Text& t, std::size_t cap)
    {
        if (t.size() >= cap) return;
        switch (p->k)
        {
        case Re::EMPTY: break;
        case Re::SET: t += static_cast<char32_t>(p->cs.any(g)); break;
        case Re::CAT: for (auto& k : p->kids) sample_into(k, g, t, cap); break;
        case Re::ALT: sample_into(g.pick(p->kids), g, t, cap); break;
        case Re::REP:
        {
            const u64 extra = p->hi < 0 ? g.below(4) : g.below(static_cast<u64>(p->hi - p->lo) + 1);
            for (u64 i = 0, n = static_cast<u64>(p->lo) + extra; i < n; ++i) sample_into(p->kids[0], g, t, cap);
            break;
        }
        }
    }
    inline Text gen_input(Rng& g, const std::vector<P>& res, const CS& alphabet, std::size_t maxlen, bool newlines = false)
    {
        Text t;
        const std::size_t len = g.in(0, maxlen);
        while (t.size() < len)
        {
            switch (g.below(newlines ? 6 : 5))
            {
            case 0: case 1: case 2:
            {
                Text s;
                sample_into(g.pick(res), g, s, len);
                if (!s.empty() && g.chance(1, 5)) s.pop_back();
                if (!s.empty() && g.chance(1, 6)) s[g.below(s.size())] = static_cast<char32_t>(alphabet.any(g));
                t += s;
                break;
            }
            case 3: case 4: t += static_cast<char32_t>(alphabet.any(g)); break;
            default: t += g.chance(1, 3) ? U"\r\n" : g.chance(1, 5) ? U"\r" : U"\n"; break;
            }
        }
        t.resize(len);
        return t;
    }

    // ---------------------------------------------------------------- printer
    struct Spell
    {
        Rng& g;
        u32 max;                 // largest char of the lexer
        bool wide;               // \x takes many digits
        bool plain = false;      // minimal spelling, no variation
        bool xmode = false;      // skip_ws active: white space must be escaped
        bool dot_nl = false;     // dot matches newline here
        bool icase = false;      // folding in force: sets must be closed already
        bool dot_crlf = false;   // dot excludes carriage return too
        bool scopes = false;     // use scoped options, quoted runs, empty strings
        u64 used_scopes = 0, used_strings = 0;

        static bool meta(u32 c)
        {
            return c < 128 && std::strchr("\\\"()?*+{}|^$.[]/-<>#&~ \t\n\r\f\v", static_cast<int>(c)) != nullptr;
        }
        std::u32string hexs(u32 c, bool upper)
        {
            char b[16];
            std::snprintf(b, sizeof b, upper ? "%X" : "%x", c);
            std::u32string o;
            for (char* p = b; *p; ++p) o += static_cast<char32_t>(*p);
            return o;
        }
        static bool ishex(u32 c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
        static bool isoct(u32 c) { return c >= '0' && c <= '7'; }
        // Last escape emitted was \x.. or \NNN and could absorb the next char.
        enum { NONE, HEX, OCT } tail = NONE;

        void put(std::u32string& o, const std::u32string& s)
        {
            if (s.empty()) return;
            o += s;
            tail = NONE;
        }
        // one character as an escape or literally; in_set: inside [...]
        void put_char(std::u32string& o, u32 c, bool in_set)
        {
            const bool absorb = (tail == HEX && ishex(c)) || (tail == OCT && isoct(c));
            const bool alnum = c < 128 && (std::isalnum(static_cast<int>(c)) || c == '_');
            // NUL cannot be written literally through const char*; other
            // non-printing characters may be.
            bool literal_ok = !absorb && c != 0 && !meta(c) && !(c == ':' && in_set);
            if (literal_ok && (plain || g.chance(3, 4))) { o += static_cast<char32_t>(c); tail = NONE; return; }
            // named escapes
            if (!plain || !literal_ok)
            {
                const char* names = "a\ab\be\x1b" "f\fn\nr\rt\tv\v";
                if (g.chance(1, 2))
                    for (const char* p = names; *p; p += 2)
                        if (static_cast<u32>(static_cast<unsigned char>(p[1])) == c) { o += U'\\'; o += static_cast<char32_t>(*p); tail = NONE; return; }
                if (c >= 1 && c <= 26 && g.chance(1, 4))
                {
                    o += U"\\c";
                    o += static_cast<char32_t>((g.chance(1, 2) ? 'a' : 'A') + c - 1);
                    tail = NONE;
                    return;
                }
                if (c == 0 && g.chance(1, 4)) { o += U"\\c@"; tail = NONE; return; }
            }
            if (!alnum && c >= 33 && c < 127 && !absorb && g.chance(1, 2)) { o += U'\\'; o += static_cast<char32_t>(c); tail = NONE; return; }
            if (c < 256 && c <= 0777 && g.chance(1, 3))
            {
                char b[8];
                std::snprintf(b, sizeof b, "%03o", c);
                o += U'\\';
                for (char* p = b; *p; ++p) o += static_cast<char32_t>(*p);
                tail = NONE; // three digits: complete
                return;
            }
            o += U"\\x";
            if (g.chance(1, 4)) o += U"00";
            o += hexs(c, g.chance(1, 2));
            tail = HEX;
        }
        void put_range(std::u32string& o, u32 a, u32 b)
        {
            if (a == b) { put_char(o, a, true); return; }
            if (b == a + 1 && g.chance(1, 2)) { put_char(o, a, true); put_char(o, b, true); return; }
            put_char(o, a, true);
            o += U'-';
            tail = NONE;
            put_char(o, b, true);
        }
        std::u32string bracket(const CS& c)
        {
            std::u32string o = U"[";
            auto save = tail;
            tail = NONE;
            bool neg = !plain && !icase && g.chance(1, 3);
            CS b = neg ? c.inv(max) : c;
            if (b.empty()) { neg = false; b = c; }
            if (b.r.size() > 40 && c.inv(max).r.size() < b.r.size() && !icase) { neg = !neg; b = neg ? c.inv(max) : c; }
            if (neg) o += U'^';
            std::vector<std::pair<u32, u32>> parts = b.r;
            if (!plain)
            {
                // split and overlap ranges, shuffle
                for (std::size_t i = 0, n = parts.size(); i < n; ++i)
                {
                    auto p = parts[i];
                    if (p.second - p.first >= 2 && g.chance(1, 3))
                    {
                        const u32 m = p.first + static_cast<u32>(g.below(p.second - p.first));
                        const u32 m2 = m - static_cast<u32>(g.below(m - p.first + 1));
                        parts[i].second = m;
                        parts.push_back({g.chance(1, 2) ? m + 1 : m2, p.second});
                    }
                }
                for (std::size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[g.below(i)]);
            }
            for (auto& p : parts) put_range(o, p.first, p.second);
            o += U']';
            tail = save;
            return o;
        }
        std::u32string set_text(const CS& c)
        {
            std::u32string o;
            if (c.size() == 1 && (plain || g.chance(4, 5)))
            {
                if (!plain && g.chance(1, 6) && c.r[0].first != '"' && c.r[0].first != '\\' && c.r[0].first != 0)
                {
                    o += U'"';
                    o += static_cast<char32_t>(c.r[0].first);
                    o += U'"';
                    tail = NONE;
                    return o;
                }
                put_char(o, c.r[0].first, false);
                return o;
            }
            CS dot = CS(0, max);
            if (!dot_nl) dot = dot.minus(CS('\n', '\n'));
            if (!dot_nl && dot_crlf) dot = dot.minus(CS('\r', '\r'));
            if (c == dot && g.chance(1, 2)) { tail = NONE; return U"."; }
            auto t = bracket(c);
            tail = NONE;
            return t;
        }
        std::u32string filler()
        {
            if (plain) return U"";
            if (xmode && g.chance(1, 3))
            {
                static const char32_t* const blank[] = {U" ", U"\t \n", U"/* a|(b) */", U"  /**/ ", U"\v", U"\f", U"\r", U"\n", U"\t",
                    U"/***/", U"/* \" [ \\ (?# */", U"/*/ */", U"/* * / **/ \v/**/"};
                return blank[g.below(sizeof blank / sizeof *blank)];
            }
            if (scopes && g.chance(1, 10)) return U"\"\"";
            if (g.chance(1, 14)) 
            {
                static const char32_t* const note[] = {U"(?# note (x) )", U"(?#)", U"(?# (a(b)c)(d) \" [ )", U"(?#/* \\)", U"(?##)"};
                return note[g.below(sizeof note / sizeof *note)];
            }
            return U"";
        }
        // prec: 0 alternation allowed, 1 concatenation, 2 operand of a repeat
        std::u32string re(const P& p, int prec)
        {
            if (!p->raw.empty()) { tail = NONE; return p->raw; }
            if (scopes && !plain && g.chance(1, 7))
            {
                // the same under options that hold inside a group only
                const bool x0 = xmode, d0 = dot_nl, c0 = dot_crlf;
                std::u32string opt;
                for (u64 k = 0, n = g.in(0, 2); k < n; ++k)
                {
                    const bool off = g.chance(1, 2);
                    if (off) opt += U'-';
                    if (g.chance(1, 2)) { opt += U'x'; xmode = !off; }
                    else { opt += U's'; if (!off) { dot_nl = true; } else if (dot_nl) { dot_nl = false; dot_crlf = false; } }
                }
                tail = NONE;
                const std::u32string in = re(p, 0);
                xmode = x0; dot_nl = d0; dot_crlf = c0;
                tail = NONE;
                ++used_scopes;
                return U"(?" + opt + U":" + in + U")";
            }
            std::u32string o;
            switch (p->k)
            {
            case Re::EMPTY: break;
            case Re::SET: o = set_text(p->cs); break;
            case Re::CAT:
            {
                for (std::size_t i = 0; i < p->kids.size(); ++i)
                {
                    auto f = filler();
                    if (!f.empty()) { o += f; tail = NONE; }
                    if (scopes && !plain && g.chance(1, 3))
                    {
                        // a run of single characters as a quoted string
                        std::size_t n = 0;
                        std::u32string q;
                        const auto before = tail;
                        tail = NONE;
                        while (i + n < p->kids.size() && p->kids[i + n]->k == Re::SET && p->kids[i + n]->raw.empty() && p->kids[i + n]->cs.size() == 1 && (n == 0 || g.chance(4, 5)))
                        {
                            const u32 ch = p->kids[i + n++]->cs.r[0].first;
                            const bool absorb = (tail == HEX && ishex(ch)) || (tail == OCT && isoct(ch));
                            if (ch == 0 || ch == '"' || ch == '\\' || absorb || g.chance(1, 8)) put_char(q, ch, false);
                            else { q += static_cast<char32_t>(ch); tail = NONE; }
                        }
                        if (n)
                        {
                            o += U'"'; o += q; o += U'"';
                            tail = NONE;
                            i += n - 1;
                            ++used_strings;
                            continue;
                        }
                        tail = before;
                    }
                    o += re(p->kids[i], 1);
                }
                if (prec > 1) return group(o);
                break;
            }
            case Re::ALT:
            {
                bool first = true;
                for (auto& k : p->kids)
                {
                    if (!first) { o += U'|'; }
                    tail = NONE;
                    first = false;
                    o += re(k, 0);
                }
                tail = NONE;
                if (prec > 0) return group(o);
                break;
            }
            case Re::REP:
            {
                // a repeat of a repeat is legal without a group only by
                // stacking operators; always group it to keep '?' distinct
                // from a non-greedy marker.
                o = re(p->kids[0], 2);
                if (p->kids[0]->k == Re::REP) o = group(o);
                tail = NONE;
                o += op(*p);
                break;
            }
            }
            if (!plain && g.chance(1, 12)) return group(o);
            return o;
        }
        std::u32string group(const std::u32string& s)
        {
            tail = NONE;
            if (plain) return U"(" + s + U")";
            if (xmode && g.chance(1, 4)) return U"( " + s + (g.chance(1, 3) ? U"\v)" : U" )");
            return U"(" + s + U")";
        }
        std::u32string num(int n)
        {
            std::string s = std::to_string(n);
            if (!plain && g.chance(1, 10)) s = "0" + s;
            return std::u32string(s.begin(), s.end());
        }
        std::u32string op(const Re& r)
        {
            std::u32string o;
            const bool alt = !plain && g.chance(1, 3);
            if (r.lo == 0 && r.hi < 0) o = alt ? U"{" + num(0) + U",}" : U"*";
            else if (r.lo == 1 && r.hi < 0) o = alt ? U"{" + num(1) + U",}" : U"+";
            else if (r.lo == 0 && r.hi == 1) o = alt ? U"{" + num(0) + U"," + num(1) + U"}" : U"?";
            else if (r.hi < 0) o = U"{" + num(r.lo) + U",}";
            else if (r.lo == r.hi) o = alt ? U"{" + num(r.lo) + U"," + num(r.hi) + U"}" : U"{" + num(r.lo) + U"}";
            else o = U"{" + num(r.lo) + U"," + num(r.hi) + U"}";
            if (!r.greedy) o += U'?';
            return o;
        }
    };
    inline std::u32string spell(const P& p, Rng& g, u32 max, bool wide, bool dot_nl = false, bool plain = false, bool xmode = false)
    {
        Spell s{g, max, wide};
        s.plain = plain;
        s.dot_nl = dot_nl;
        s.xmode = xmode;
        return s.re(p, 0);
    }
    template<class Ch>
    std::basic_string<Ch> to(const std::u32string& s)
    {
        std::basic_string<Ch> o;
        for (char32_t c : s) o += static_cast<Ch>(c);
        return o;
    }
}
