// L07: non-greedy repeats match as little as possible.
#include "lexgen.hpp"
using namespace lx;
namespace
{
    // A piece of a rule: text, or a non-greedy repeat of a set
    struct Piece { Text text; ref::CS set; bool repeat = false; std::size_t lo = 0, hi = 0; };
    struct Alt { ref::P re; std::u32string text; bool eol = false; bool ng = false; std::vector<Piece> pieces; int repeats = 0; Text open; ref::CS then; };

    // With several repeats, closing text begun before a match may go on past
    // it; a match is never left for the sake of a repeat alone. True if
    // [from, to) could be matched so.
    bool goes_on(const Alt& a, const Text& t, std::size_t from, std::size_t to)
    {
        using Pos = std::pair<std::size_t, std::size_t>;
        std::set<Pos> live;
        auto add = [&](std::set<Pos>& v, Pos p)
        {
            v.insert(p);
            while (p.first < a.pieces.size() && (a.pieces[p.first].repeat ? p.second >= a.pieces[p.first].lo : p.second == a.pieces[p.first].text.size()))
                v.insert(p = Pos(p.first + 1, 0));
        };
        add(live, Pos(0, 0));
        for (std::size_t i = from; i < to; ++i)
        {
            const bool matched = live.count(Pos(a.pieces.size(), 0)) != 0;
            bool text = false;
            std::set<Pos> next;
            for (const auto& p : live)
            {
                if (p.first == a.pieces.size()) continue;
                const Piece& q = a.pieces[p.first];
                if (q.repeat)
                {
                    if ((p.second == q.hi && p.second >= q.lo) || !q.set.has(static_cast<u32>(t[i]))) continue;
                    text |= p.second < q.lo;
                    add(next, Pos(p.first, q.hi == std::string::npos ? std::min(p.second + 1, q.lo) : p.second + 1));
                }
                else if (p.second < q.text.size() && q.text[p.second] == t[i]) { text = true; add(next, Pos(p.first, p.second + 1)); }
            }
            if (matched && !text) return false;
            live.swap(next);
        }
        return live.count(Pos(a.pieces.size(), 0)) != 0;
    }

    ref::P lits(const Text& t) { std::vector<ref::P> v; for (char32_t c : t) v.push_back(ref::chr(static_cast<u32>(c))); return ref::cat(v); }

    struct Gen
    {
        Rng& g;
        u32 max;
        bool wide;
        ref::CS alpha;
        Text word(u64 lo, u64 hi)
        {
            Text t;
            for (u64 i = 0, n = g.in(lo, hi); i < n; ++i) t += static_cast<char32_t>(alpha.any(g));
            return t;
        }
        ref::Spell S;
        Gen(Rng& r, u32 m, bool w) : g(r), max(m), wide(w), S{r, m, w} {}
        std::u32string sp(const ref::P& p, int prec) { S.plain = g.chance(1, 2); return S.re(p, prec); }
        // after text that is not from sp()
        std::u32string op_end(std::u32string s) { S.tail = ref::Spell::NONE; return s; }
        // a bounded or unbounded repeat: its limits and its spelling without '?'
        std::u32string op(int& lo, int& hi)
        {
            ref::Spell s{g, max, wide};
            ref::Re r;
            r.k = ref::Re::REP;
            switch (g.below(7))
            {
            case 0: case 1: r.lo = 0; r.hi = -1; break;
            case 2: r.lo = 1; r.hi = -1; break;
            case 3: r.lo = 0; r.hi = 1; break;
            case 4: r.lo = static_cast<int>(g.in(1, 3)); r.hi = r.lo; break;
            case 5: r.lo = static_cast<int>(g.in(2, 3)); r.hi = -1; break;
            default: r.lo = static_cast<int>(g.below(3)); r.hi = r.lo + static_cast<int>(g.in(1, 3)); break;
            }
            lo = r.lo; hi = r.hi;
            return s.op(r);
        }
        ref::CS cset()
        {
            switch (g.below(5))
            {
            case 0: return ref::CS(0, max).minus(ref::CS('\n', '\n'));
            case 1: return ref::CS(0, max);
            case 2: { const u32 x = alpha.any(g); return ref::CS(x, x).inv(max); }
            case 3: { const u32 x = alpha.any(g); return ref::CS(x, x); }
            default: { ref::CS c; for (int i = 0; i < 3; ++i) { const u32 x = alpha.any(g); c.add(x, x); } return c; }
            }
        }
        // alternatives of which none is a prefix of the other
        ref::P two_words()
        {
            const Text a = word(1, 2);
            Text b;
            do b = word(1, 2); while (b[0] == a[0]);
            return ref::alt({lits(a), lits(b)});
        }
        // Branches of a group, at most one of which can be taken, each with at
        // most one repeat; before close, or at the end of the rule.
        Alt branches(u32 first)
        {
            Alt a;
            a.ng = true;
            Text open(1, static_cast<char32_t>(first)), close = g.chance(1, 3) ? Text() : word(1, 2);
            std::u32string t = sp(lits(open), 1);
            std::vector<ref::P> all;
            u32 key = '0';
            std::function<std::u32string(int)> group = [&](int depth)
            {
                std::u32string s;
                for (u64 k = 0, n = g.in(2, 3); k < n; ++k)
                {
                    if (k) s = op_end(s + U"|");
                    if (depth && g.chance(1, 4)) { s += group(depth - 1); continue; }
                    std::vector<ref::P> path{lits(open), ref::chr(key)};
                    s += sp(ref::chr(key++), 1);
                    if (g.chance(1, 2)) { const Text w = word(1, 2); path.push_back(lits(w)); s += sp(lits(w), 1); }
                    if (g.chance(2, 3))
                    {
                        int lo = 0, hi = 0;
                        const auto o = op(lo, hi);
                        const Text mid = g.chance(1, 3) ? word(1, 2) : Text();
                        ref::CS c = cset();
                        if (hi > lo) for (char32_t ch : mid + close) { c = c.minus(ref::CS(static_cast<u32>(ch), static_cast<u32>(ch))); if (c.empty()) c = ref::CS('_', '_'); }
                        s += op_end(sp(ref::set(c), 2) + o + U"?");
                        if (!mid.empty()) s += sp(lits(mid), 1);
                        // nothing after it: only what it must match
                        const bool last = mid.empty() && close.empty();
                        if (!last || lo) path.push_back(ref::rep(ref::set(c), lo, last ? lo : hi));
                        if (!mid.empty()) path.push_back(lits(mid));
                    }
                    if (!close.empty()) path.push_back(lits(close));
                    all.push_back(ref::cat(path));
                }
                return op_end(U"(" + s + U")");
            };
            a.open = open;
            t = op_end(t + group(2));
            if (!close.empty()) t += sp(lits(close), 1);
            a.re = ref::alt(all);
            a.text = t;
            return a;
        }
        // one alternative starting with first
        Alt alt(u32 first, bool may_eol)
        {
            if (g.chance(1, 5)) return branches(first);
            Alt a;
            a.ng = true;
            std::vector<ref::P> parts;
            Text open(1, static_cast<char32_t>(first));
            open += word(0, 2);
            auto lit = [&](const Text& w) { parts.push_back(lits(w)); Piece p; p.text = w; a.pieces.push_back(p); };
            auto rpt = [&](const ref::CS& cs, int lo, int hi)
            {
                parts.push_back(ref::rep(ref::set(cs), lo, hi));
                Piece p;
                p.repeat = true; p.set = cs; p.lo = static_cast<std::size_t>(lo);
                p.hi = hi < 0 ? std::string::npos : static_cast<std::size_t>(hi);
                a.pieces.push_back(p);
                ++a.repeats;
            };
            lit(open);
            a.open = open;
            // (in wide lexers see the fixed case wide-greedy-end)
            const bool run = !wide && !may_eol && g.chance(1, 5); // a greedy repeat at the end
            ref::CS then;
            if (run) for (u64 k = g.in(1, 2); k--;) { const u32 x = alpha.any(g); then.add(x, x); }
            std::u32string t = sp(lits(open), 1);
            if (g.chance(1, 4)) t = op_end(U"(" + t + U")");
            bool simple = true;
            const u64 segs = run ? 1 : g.in(g.chance(1, 3) ? 0 : 1, 2);
            const bool to_eol = may_eol && g.chance(1, 3);
            ref::CS nl('\r', '\r'); nl.add('\n', '\n');
            std::vector<ref::CS> befores; // sets of earlier unbounded repeats
            auto limit = [&](ref::CS c, int lo)
            {
                // Line ends inside a repeat compete with $.
                if (to_eol) c = c.minus(nl);
                // What must follow an unbounded repeat is in its set or not.
                if (lo > 0)
                    for (auto& before : befores)
                        if (!(c.meet(before).empty() || c.minus(before).empty())) c = g.chance(1, 2) ? c.meet(before) : c.minus(before);
                return c.empty() ? ref::CS('_', '_') : c;
            };
            for (u64 i = 0; i < segs; ++i)
            {
                int lo = 0, hi = 0;
                const auto o = op(lo, hi);
                const Text close = word(1, 3);
                ref::CS c = limit(cset(), lo);
                // A bounded repeat that overlaps its closing text is a known
                // finding (see the fixed case).
                if (hi > lo) for (char32_t ch : close) { c = c.minus(ref::CS(static_cast<u32>(ch), static_cast<u32>(ch))); if (c.empty()) c = ref::CS('_', '_'); }
                if (hi > lo && run) { c = c.minus(then); if (c.empty()) c = ref::CS('_', '_'); }
                if (hi < 0) befores.push_back(c);
                const bool grp = !run && g.chance(1, 3);
                std::u32string s = op_end(sp(ref::set(c), 2) + o + U"?");
                if (g.chance(1, 6)) s = U"(" + s + U")";
                s += sp(lits(close), 1);
                // the group may have to match several times
                u64 times = 1;
                if (grp)
                {
                    s = op_end(U"(" + s + U")");
                    if (g.chance(1, 2)) { times = g.in(2, 3); s += times == 2 ? U"{2}" : U"{3}"; }
                }
                t += s;
                while (times--) { rpt(c, lo, hi); lit(close); }
            }
            if (run)
            {
                t += op_end(sp(ref::set(then), 2) + U"*");
                a.then = then;
            }
            else if (to_eol)
            {
                int lo = 0, hi = 0;
                const auto o = op(lo, hi);
                const ref::CS c = limit(cset(), lo);
                t += sp(ref::set(c), 2) + o + U"?$";
                rpt(c, lo, hi);
                a.eol = true;
            }
            else if (segs == 0 || g.chance(1, 3))
            {
                int lo = 0, hi = 0;
                const auto o = op(lo, hi);
                const ref::CS bs = limit(cset(), lo);
                const bool one = g.chance(1, 2);
                Text bt;
                const ref::P body = one ? ref::set(bs) : segs || g.chance(1, 2) ? lits(bt = word(2, 3)) :
                    two_words();
                std::u32string pre;
                if (g.chance(1, 3)) { const Text w = word(1, 2); pre = sp(lits(w), 1); lit(w); }
                const bool split = g.chance(1, 4);
                if (split) { pre += U"("; S.tail = ref::Spell::NONE; }
                std::u32string s = op_end(sp(body, 2) + o + U"?");
                if (split) s += U")";
                switch (g.below(4))
                {
                case 0: t += U"(" + pre + s + U")"; break;
                case 1: t += U"(" + pre + s + U")"; break;
                case 2: t += U"(" + pre + U"((" + s + U")))"; break;
                default: t += pre + s; break;
                }
                if (lo > 0)
                {
                    if (one) rpt(bs, lo, lo);
                    else if (!bt.empty()) for (int q = 0; q < lo; ++q) lit(bt);
                    else { parts.push_back(ref::rep(body, lo, lo)); simple = false; }
                }
            }
            a.re = ref::cat(parts);
            // others have to be exact
            if (!simple || a.eol) a.repeats = 0;
            a.text = g.chance(1, 6) && !a.eol ? op_end(U"(" + t + U")") : t;
            return a;
        }
    };

    template<class Ch>
    void body(Ctx& c, u64 i, Rng& g, u32 max)
    {
        Gen G(g, max, sizeof(Ch) > 1);
        G.alpha = i % 2 ? ref::CS::of("ab*/") : ref::CS::of("abc\n");
        if (max > 0xff && g.chance(1, 2)) { G.alpha.add(0x100, 0x101); G.alpha.add(max, max); }
        const bool multi = g.chance(1, 3);
        std::vector<Rule> flat, shown;
        std::vector<Alt> alts;
        std::vector<ref::P> res;
        Rules<Ch> lr(LENIENT);
        Sm<Ch> sm;
        if (multi) lr.push_state(nm<Ch>(state_name(1)).c_str());
        u32 first = 'A';
        bool eol_used = false;
        const u64 n = g.in(1, 3);
        for (u64 k = 0; k < n; ++k)
        {
            Rule r;
            r.id = k + 1;
            r.uid = 10 + k;
            if (multi) { r.states = {0, 1}; if (g.chance(1, 2)) r.exit = static_cast<int>(g.below(2)); if (g.chance(1, 2)) r.states = {static_cast<int>(g.below(2))}; }
            std::u32string t;
            std::vector<Rule> parts;
            std::vector<Alt> part_alts;
            const bool bol = g.chance(1, 5), grd = g.chance(1, 4);
            G.S.tail = ref::Spell::NONE;
            if (grd)
            {
                // an ordinary greedy rule beside them, or text that begins as one
                // of them does
                Rule x = r;
                std::vector<Text> opens;
                for (const auto& al : alts) if (!al.open.empty()) opens.push_back(al.open);
                if (!opens.empty() && g.chance(1, 2))
                {
                    const Text& o = opens[g.below(opens.size())];
                    Text w = o.substr(0, g.in(1, o.size()));
                    if (w.size() < o.size() && g.chance(1, 2)) { const char32_t other = static_cast<char32_t>(G.alpha.any(g)); if (other != o[w.size()]) w += other; }
                    x.re = lits(w);
                    c.count("shared_openings");
                }
                else
                {
                ref::GenOpt o; o.alphabet = G.alpha; o.max = max; o.depth = 1;
                x.re = ref::cat({ref::chr(first++), ref::gen(g, o, 2)});
                }
                t = G.sp(x.re, 0);
                parts.push_back(x);
                part_alts.emplace_back();
            }
            else
            {
                const u64 na = g.chance(1, 2) ? 1 : g.in(2, 3);
                for (u64 q = 0; q < na; ++q)
                {
                    G.S.tail = ref::Spell::NONE;
                    const Alt a = G.alt(first++, q + 1 == na);
                    Rule x = r;
                    x.re = a.re;
                    x.eol = a.eol;
                    x.bol = bol && q == 0;
                    x.shortest = true;
                    x.then = a.then;
                    if (!a.then.empty()) c.count("greedy_ends");
                    eol_used |= a.eol;
                    if (q) t += U'|';
                    // anchors are only anchors at the very ends of the text
                    if (x.bol) t += U'^';
                    t += a.text;
                    parts.push_back(x);
                    part_alts.push_back(a);
                }
                if (na > 1 && !parts.back().eol && !bol && g.chance(1, 6)) t = U"(" + t + U")";
            }
            r.text = h::visw(t);
            push_rule(lr, r, t, multi, false);
            shown.push_back(r);
            for (auto& x : parts) { flat.push_back(x); res.push_back(x.re); }
            alts.insert(alts.end(), part_alts.begin(), part_alts.end());
        }
        if (multi)
            for (int st = 0; st < 2; ++st)
            {
                Rule r; r.id = 40; r.uid = 41; r.re = ref::chr('~'); r.states = {st};
                const auto t = std::u32string(U"~");
                r.text = "~";
                push_rule(lr, r, t, true, false);
                flat.push_back(r); shown.push_back(r);
            }
        const std::string desc = show_rules(shown);
        c.note(desc);
        build(lr, sm);
        ref::CS in_alpha = G.alpha;
        in_alpha.add('A', first - 1);
        in_alpha.add('0', '3');
        if (eol_used) { in_alpha.add('\r', '\r'); in_alpha.add('\n', '\n'); }
        const u64 npos = Sm<Ch>::traits::npos();
        for (int k = 0; k < 16; ++k)
        {
            const Text in = ref::gen_input(g, res, in_alpha, 60, true);
            const bool bol = !g.chance(1, 4);
            ref::Lexer L(flat, in, npos, bol);
            auto want = L.all(2 * in.size() + 4);
            auto got = lex_kind<Ch>(g, sm, in, bol, 0);
            if (!(sm.data()._features & +lexertl::feature_bit::bol)) for (auto* v : {&want, &got}) for (auto& t : *v) t.bol = false;
            for (std::size_t q = 0; q < got.size() && q < want.size(); ++q)
                if (!(got[q] == want[q]))
                {
                    bool on = false;
                    if (got[q].id == want[q].id && got[q].id && got[q].id != npos && got[q].b == want[q].b && got[q].e > want[q].e)
                        for (std::size_t z = 0; z < alts.size(); ++z)
                            on = on || (flat[z].id == got[q].id && alts[z].repeats > 1 && goes_on(alts[z], in, got[q].b, got[q].e));
                    if (on) { c.count("closing_text_went_on"); got.resize(q); want.resize(q); }
                    break;
                }
            compare(c, "token-mismatch", got, want, desc, h::visw(in));
            const Stat x = stat_of(want, npos);
            // how often more could have been matched
            u64 longer = 0;
            for (auto& t : want)
                if (t.id && t.id != npos)
                    for (auto& r : flat)
                        if (r.id == t.id && r.shortest)
                        {
                            Rule gr = r;
                            gr.shortest = false;
                            std::size_t e = 0;
                            if (ref::rule_end(gr, in, t.b, true, e) && e > t.e) ++longer;
                        }
            c.count("lookups", want.size());
            c.count("matched_tokens", x.tokens);
            c.count("matches_with_a_longer_alternative", longer);
            if (longer) c.nontrivial(h::mix(h::hash_str(desc), h::hash_bytes(in.data(), in.size() * 4, 3)));
        }
    }
    void narrow_case(Ctx& c, u64 i, Rng& g) { body<char>(c, i, g, 0xff); }
    void wide_case(Ctx& c, u64 i, Rng& g) { if (i & 1) body<char16_t>(c, i / 2, g, 0xffff); else body<char32_t>(c, i / 2, g, 0x10ffff); }
}
namespace
{
    std::vector<Tok> lex_text(const char* re, const char* in)
    {
        Rules<char> lr;
        Sm<char> sm;
        lr.push(re, 1);
        build(lr, sm);
        const std::string s = in;
        return lex_plain(sm, s.data(), s.data() + s.size(), 50);
    }
    // Bounded repeats overlapping their closing text: the finding above allows
    // closing text begun before the first match to go on, never a new repeat.
    template<class Ch>
    void overlap_body(Ctx& c, u64 i, Rng& g, u32 max)
    {
        Gen G(g, max, sizeof(Ch) > 1);
        G.alpha = i % 2 ? ref::CS::of("ab") : ref::CS::of("abc\n");
        if (max > 0xff && g.chance(1, 2)) { G.alpha.add(0x100, 0x101); G.alpha.add(max, max); }
        const Text open = Text(1, U'A') + G.word(0, 2), close = G.word(1, 3);
        int lo = 0, hi = 0;
        std::u32string o;
        do o = G.op(lo, hi); while (hi <= lo);
        ref::CS set = G.cset();
        const u32 cl = static_cast<u32>(close[g.below(close.size())]);
        set.add(cl, cl);
        G.S.tail = ref::Spell::NONE;
        std::u32string t = G.sp(lits(open), 1);
        std::u32string seg = G.op_end(G.sp(ref::set(set), 2) + o + U"?");
        if (g.chance(1, 6)) seg = U"(" + seg + U")";
        seg += G.sp(lits(close), 1);
        if (g.chance(1, 5)) seg = G.op_end(U"(" + seg + U")");
        t += seg;
        Rules<Ch> lr;
        Sm<Ch> sm;
        lr.push(ref::to<Ch>(t), 1);
        build(lr, sm);
        const std::string desc = h::visw(t);
        c.note(desc);
        for (int k = 0; k < 40; ++k)
        {
            Text in = open;
            for (u64 n = g.in(1, 14); n; --n) if (g.chance(1, 4)) in += close; else in += static_cast<char32_t>(G.alpha.any(g));
            std::size_t first = 0, most = 0;
            std::set<std::size_t> ok;
            for (int pass = 0; pass < 2; ++pass)
                for (int r = 0; r <= hi; ++r)
                {
                    const std::size_t at = open.size() + static_cast<std::size_t>(r), e = at + close.size();
                    if (e > in.size() || (r && !set.has(static_cast<u32>(in[at - 1])))) break;
                    if (r < lo || in.compare(at, close.size(), close) != 0) continue;
                    if (!pass) { if (!first) first = e; most = e; }
                    else if (at <= first) ok.insert(e);
                }
            Exact<Ch> x(in);
            const auto v = lex_plain(sm, x.begin(), x.end(), 1);
            c.count("overlap_lookups");
            if (v.at(0).id != (first ? 1u : Sm<Ch>::traits::npos()) || (first && !ok.count(v[0].e)))
                c.fail("repeat-went-on", desc + " on " + h::visw(in) + " got " + show(v, 0) + " want end " + std::to_string(first));
            if (first && most > first) { c.count("overlap_matches_with_a_longer_alternative"); c.nontrivial(h::mix(h::hash_str(desc), h::hash_bytes(in.data(), in.size() * 4, 3))); }
        }
    }
    void overlap(Ctx& c, u64 i, Rng& g) { switch (i % 3) { case 0: overlap_body<char>(c, i / 3, g, 0xff); break; case 1: overlap_body<char16_t>(c, i / 3, g, 0xffff); break; default: overlap_body<char32_t>(c, i / 3, g, 0x10ffff); } }
    // Branches of a group at the end of a rule that need not match anything: the
    // other branches stay as they are (whether the opening alone matches is the
    // finding recorded as empty-branch).
    void dropped(Ctx& c, u64, Rng& g)
    {
        static const char* ops[] = {"*?", "??", "{0,}?", "{0,2}?", "{,3}?", "{00,1}?"};
        std::vector<std::string> words, parts;
        char key = 'a';
        for (u64 k = 0, n = g.in(1, 4); k < n; ++k)
        {
            std::string w(1, key++);
            for (u64 m = g.below(3); m; --m) w += static_cast<char>(g.in('a', 'f'));
            words.push_back(w);
            parts.push_back(w);
        }
        for (u64 k = 0, n = g.in(1, 3); k < n; ++k)
        {
            std::string e = g.chance(1, 2) ? "x" : g.chance(1, 2) ? "[x-z]" : g.chance(1, 2) ? "(xy)" : g.chance(1, 2) ? "(x+?y)" : "(x*?(y??z)*?x)";
            for (;;)
            {
                std::string o = ops[g.below(6)];
                if (o == "{,3}?") o = "{0,3}?";
                e += o;
                if (g.chance(1, 4)) e = "(" + e + ")";
                if (!g.chance(1, 4)) break;
                e += "y";
            }
            parts.insert(parts.begin() + static_cast<std::ptrdiff_t>(g.below(parts.size() + 1)), e);
        }
        std::function<std::string(std::size_t, std::size_t, int)> group = [&](std::size_t b, std::size_t e, int depth)
        {
            std::string s;
            for (std::size_t k = b; k < e;)
            {
                if (k != b) s += "|";
                const auto n = g.in(1, e - k);
                if (depth && n > 1 && n < e - b) s += group(k, k + n, depth - 1), k += n;
                else s += parts[k++];
            }
            return "(" + s + ")";
        };
        const std::string open(g.in(1, 2), 'O'), t = open + group(0, parts.size(), 2);
        Rules<char> lr;
        Sm<char> sm;
        lr.push(t, 1);
        build(lr, sm);
        const std::string desc = h::vis(t);
        c.note(desc);
        for (auto& w : words)
        {
            const std::string in = open + w + (g.chance(1, 2) ? "_" : "");
            lexertl::match_results<std::string::const_iterator> r(in.begin(), in.end());
            lexertl::lookup(sm, r);
            c.count("kept_branches");
            if (r.id != 1 || static_cast<std::size_t>(r.second - r.first) != open.size() + w.size())
                c.fail("branch-lost", desc + " on \"" + h::vis(in) + "\": id " + std::to_string(r.id) + ", " + std::to_string(r.second - r.first) + " characters");
        }
        c.nontrivial(h::hash_str(desc));
    }
    void empty_branch(Ctx& c)
    {
        const auto v = lex_text("c(a*?|b)", "c");
        if (v.at(0).id != 1) c.fail("no-match", "c(a*?|b) on c: got " + show(v, 0));
    }
    void bounded_overlap(Ctx& c)
    {
        const auto v = lex_text("Ba??a", "Baa");
        if (v.at(0).e != 2) c.fail("longer-match", "Ba?" "?a on Baa: got " + show(v, 0));
    }
    void wide_greedy_end(Ctx& c)
    {
        Rules<char16_t> lr(LENIENT);
        Sm<char16_t> sm;
        lr.push(u"A\\x101*?\\x101[b\\x100]*", 1);
        build(lr, sm);
        const std::u16string in = u"A\x101\x101";
        lexertl::match_results<std::u16string::const_iterator> r(in.begin(), in.end());
        lexertl::lookup(sm, r);
        c.count("wide_greedy_ends");
        if (r.second - r.first != 2) c.fail("longer-match", "A\\x101*?\\x101[b\\x100]* on A\\x101\\x101: got " + std::to_string(r.second - r.first) + " characters");
    }
    void zero_min(Ctx& c)
    {
        const auto v = lex_text("Xa{00,3}?", "Xaa");
        if (v.at(0).e != 1) c.fail("longer-match", "Xa{00,3}? on Xaa: got " + show(v, 0));
    }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {{"bounded-overlap", bounded_overlap}, {"wide-greedy-end", wide_greedy_end}, {"zero-min", zero_min}, {"empty-branch", empty_branch}}, {{"narrow", narrow_case}, {"wide", wide_case}, {"overlap", overlap}, {"dropped", dropped}});
}
