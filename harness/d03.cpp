// D03: stream iterators against the same text in memory, and histories of
// copies, assignments and destructions against a model of positions.
#include <lexertl/stream_shared_iterator.hpp>
#include "anyset.hpp"
#include <lexertl/iterator.hpp>
#include <streambuf>
using namespace h;

// Every heap block alive, so that what the iterators leave behind is seen.
static std::size_t live_blocks, live_bytes, peak_bytes;
static void* take(std::size_t n)
{
    auto* p = static_cast<std::size_t*>(std::malloc(n + 16));
    if (!p) throw std::bad_alloc();
    *p = n;
    ++live_blocks; live_bytes += n;
    if (live_bytes > peak_bytes) peak_bytes = live_bytes;
    return reinterpret_cast<char*>(p) + 16;
}
static void drop(void* q)
{
    if (!q) return;
    auto* p = reinterpret_cast<std::size_t*>(static_cast<char*>(q) - 16);
    --live_blocks; live_bytes -= *p;
    std::free(p);
}
void* operator new(std::size_t n) { return take(n); }
void* operator new[](std::size_t n) { return take(n); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, std::size_t) noexcept { drop(p); }
void operator delete[](void* p, std::size_t) noexcept { drop(p); }

namespace
{
    // A stream source that hands out its text in pieces of random size.
    template<class Ch> struct Pieces : std::basic_streambuf<Ch>
    {
        using T = std::char_traits<Ch>;
        std::vector<Ch> text, now;
        std::size_t pos = 0, piece;
        Rng g;
        Pieces(const std::vector<Ch>& t, std::size_t most, u64 seed) : text(t), piece(most), g(seed) { now.reserve(most); }
        typename T::int_type underflow() override
        {
            if (pos == text.size()) return T::eof();
            const std::size_t n = std::min<std::size_t>(text.size() - pos, 1 + g.below(piece));
            now.assign(text.begin() + static_cast<long>(pos), text.begin() + static_cast<long>(pos + n));
            pos += n;
            this->setg(now.data(), now.data(), now.data() + n);
            return T::to_int_type(now[0]);
        }
    };
    template<class Ch> struct Source
    {
        std::vector<Ch> text;
        Pieces<Ch> buf;
        std::basic_istream<Ch> in;
        Source(const std::vector<Ch>& t, std::size_t piece, u64 seed) : text(t), buf(t, piece, seed), in(&buf) {}
    };
    template<class Ch> using It = lexertl::basic_stream_shared_iterator<Ch>;

    template<class Ch> std::vector<Ch> chars(const lx::Text& t)
    {
        std::vector<Ch> v;
        for (auto ch : t) v.push_back(static_cast<Ch>(ch));
        return v;
    }
    std::size_t some_size(Rng& g) { static const std::size_t n[] = {1, 1, 2, 3, 4, 5, 7, 8, 13, 16, 64, 1024}; return n[g.below(12)]; }

    template<class Ch, class Res, class S> void drive(Ctx& c, Rng& g, const S& sm, const lx::Text& in, bool bol, u64 st, const std::vector<lx::Tok>& want, const std::string& what)
    {
        using Id = typename S::id_type;
        const std::size_t bs = some_size(g), inc = some_size(g), piece = some_size(g);
        const unsigned mode = static_cast<unsigned>(g.below(4));
        Source<Ch> src(chars<Ch>(in), piece, g.next());
        const std::size_t before = live_blocks;
        {
            It<Ch> it(src.in, bs, inc);
            const It<Ch> end;
            std::unique_ptr<It<Ch>> begin;
            if (mode == 0) begin.reset(new It<Ch>(it));
            Res r(it, end, bol, static_cast<Id>(st));
            // results kept alive, with the text they must go on showing
            std::vector<std::pair<Res, std::size_t>> kept;
            std::size_t pos = 0;
            for (std::size_t i = 0; i < want.size(); ++i)
            {
                It<Ch> from = r.second;
                lx::Tok t;
                const std::string at = what + " buffer " + std::to_string(bs) + "+" + std::to_string(inc) + " pieces " + std::to_string(piece) + " mode " + std::to_string(mode) + " token " + std::to_string(i);
                try { lexertl::lookup(sm, r); }
                catch (const lexertl::runtime_error& e)
                {
                    if (std::string(e.what()).find("tack underflow") == std::string::npos) throw;
                    if (!want[i].underflow) c.fail("stream-underflow", at);
                    break;
                }
                if (want[i].underflow) c.fail("stream-no-underflow", at);
                t.id = r.id; t.uid = r.user_id; t.bol = r.bol; t.state = r.state;
                if (begin) { t.b = std::distance(*begin, r.first); t.e = std::distance(*begin, r.second); }
                else { t.b = pos + std::distance(from, r.first); t.e = t.b + std::distance(r.first, r.second); }
                pos = t.e;
                if (!(t == want[i])) c.fail("stream-token", at + " got " + ref::show(t) + " in memory " + ref::show(want[i]));
                const auto s = r.str();
                if (std::vector<Ch>(s.begin(), s.end()) != std::vector<Ch>(src.text.begin() + static_cast<long>(t.b), src.text.begin() + static_cast<long>(t.e))) c.fail("stream-text", at);
                c.count("tokens_compared");
                if (mode >= 2 && g.chance(1, mode == 2 ? 2 : 6)) { kept.emplace_back(r, i); c.count("results_kept"); }
                if (mode == 3 && kept.size() > 2) kept.erase(kept.begin());
                for (auto& k : kept)
                {
                    const auto ks = k.first.str();
                    if (std::vector<Ch>(ks.begin(), ks.end()) != std::vector<Ch>(src.text.begin() + static_cast<long>(want[k.second].b), src.text.begin() + static_cast<long>(want[k.second].e)))
                        c.fail("kept-text", at + " result of token " + std::to_string(k.second));
                    c.count("kept_texts_read");
                }
                if (t.id == 0) break;
            }
            // what the token iterator visits, on a second stream
            if (g.chance(1, 3) && !want.empty() && !want.back().underflow)
            {
                Source<Ch> again(src.text, piece, g.next());
                lexertl::iterator<It<Ch>, S, Res> ti(It<Ch>(again.in, bs, inc), It<Ch>(), sm, bol, static_cast<Id>(st)), te;
                std::size_t i = 0;
                for (; ti != te; ++ti, ++i)
                {
                    const auto s = ti->str();
                    if (i >= want.size() || ti->id != static_cast<Id>(want[i].id) ||
                        std::vector<Ch>(s.begin(), s.end()) != std::vector<Ch>(src.text.begin() + static_cast<long>(want[i].b), src.text.begin() + static_cast<long>(want[i].e)))
                        c.fail("stream-iterator", what + " token " + std::to_string(i));
                    c.count("iterator_tokens");
                }
                std::size_t n = 0;
                while (n < want.size() && want[n].b < in.size()) ++n;
                if (i != n) c.fail("stream-iterator-count", what + " " + std::to_string(i) + " expected " + std::to_string(n));
            }
        }
        if (live_blocks != before) c.fail("left-behind", what + " " + std::to_string(static_cast<long>(live_blocks - before)) + " heap blocks");
    }
    template<class Ch> void lexing(Ctx& c, u64, Rng& g, u32 max)
    {
        for (const char* k : {"tokens_compared", "results_kept", "kept_texts_read", "iterator_tokens"}) c.count(k, 0);
        lx::Rules<Ch> lr;
        lx::Sm<Ch> sm;
        const auto a = lx::any_rules(g, lr, max);
        lx::build(lr, sm);
        unsigned won = 0;
        for (unsigned k = 0; k < 4; ++k)
        {
            const auto in = k == 3 ? lx::Text() : lx::any_input(g, a, 4 + g.below(60));
            const bool bol = g.chance(1, 2);
            const u64 st = g.below(sm.data()._dfa.size());
            const auto want = lx::lex_of(sm, in, bol, st);
            const std::string what = a.desc + " input " + visw(in) + " state " + std::to_string(st) + (bol ? "" : " bol off");
            c.note(what);
            for (auto& t : want) if (!t.underflow && t.id && t.id != lx::Sm<Ch>::npos()) ++won;
            using I = It<Ch>;
            if (sm.data()._features & +lexertl::feature_bit::recursive) drive<Ch, lexertl::recursive_match_results<I>>(c, g, sm, in, bol, st, want, what);
            else drive<Ch, lexertl::match_results<I>>(c, g, sm, in, bol, st, want, what);
        }
        c.count("inputs", 4);
        if (won > 2) { c.nontrivial(hash_str(a.desc)); if (won > 8) c.sample(a.desc); }
    }

    // Positions of iterators under any history.
    enum Kind { NONE, NUL, ENDED, AT, MASTER, UNKNOWN };
    struct Where { Kind k = NONE; int s = -1; std::size_t pos = 0; };
    template<class Ch> u64 history(Ctx& c, u64, Rng& g)
    {
        using I = It<Ch>;
        const unsigned slots = 2 + static_cast<unsigned>(g.below(6));
        std::vector<std::unique_ptr<Source<Ch>>> src;
        std::vector<bool> fresh;
        std::vector<std::unique_ptr<I>> it(slots);
        std::vector<Where> m(slots);
        std::string log;
        log.reserve(1 << 16);
        src.reserve(16);
        fresh.reserve(16);
        u64 hash = 1;
        auto fail = [&](const std::string& sig, const std::string& d) { c.fail(sig, d + " after " + (log.size() > 2500 ? "..." + log.substr(log.size() - 2500) : log)); };
        // where a copy of m is
        auto place = [&](const Where& w) -> Where
        {
            if (w.k != MASTER) return w;
            Where o{AT, w.s, ~std::size_t(0)};
            for (auto& x : m)
            {
                if (x.s != w.s) continue;
                if (x.k == UNKNOWN) return {UNKNOWN, w.s, 0};
                if (x.k == AT && x.pos < o.pos) o.pos = x.pos;
            }
            if (o.pos == ~std::size_t(0)) { if (!fresh[static_cast<std::size_t>(w.s)]) return {UNKNOWN, w.s, 0}; o.pos = 0; }
            if (o.pos >= src[static_cast<std::size_t>(w.s)]->text.size()) o.k = ENDED;
            return o;
        };
        auto step = [&](Where w)
        {
            fresh[static_cast<std::size_t>(w.s)] = false;
            if (++w.pos == src[static_cast<std::size_t>(w.s)]->text.size()) { w.k = ENDED; w.pos = 0; }
            return w;
        };
        const unsigned ops = 10 + static_cast<unsigned>(g.below(c.thorough ? 300 : 120));
        for (unsigned op = 0; op < ops; ++op)
        {
            const unsigned a = static_cast<unsigned>(g.below(slots)), b = static_cast<unsigned>(g.below(slots));
            const unsigned what = static_cast<unsigned>(g.below(24));
            log += " " + std::to_string(what) + ":" + std::to_string(a) + "," + std::to_string(b);
            c.note(log.size() > 3000 ? log.substr(log.size() - 3000) : log);
            hash = mix(hash, what * 64 + a * 8 + b);
            if (what == 0 || (op == 0))
            {
                if (src.size() >= 12) continue;
                std::vector<Ch> t;
                const std::size_t n = g.chance(1, 8) ? 0 : 1 + g.below(60);
                for (std::size_t i = 0; i < n; ++i) t.push_back(static_cast<Ch>(g.chance(1, 10) ? g.next() : 'a' + i % 26));
                it[a].reset();
                m[a] = {};
                src.emplace_back(new Source<Ch>(t, some_size(g), g.next()));
                fresh.push_back(true);
                const std::size_t bs = some_size(g), inc = some_size(g);
                it[a].reset(new I(src.back()->in, bs, inc));
                m[a] = {MASTER, static_cast<int>(src.size()) - 1, 0};
                log += "stream(" + std::to_string(n) + "," + std::to_string(bs) + "," + std::to_string(inc) + ")";
                c.count("streams");
            }
            else if (what == 1) { it[a].reset(new I()); m[a] = {NUL, -1, 0}; }
            else if (what <= 3) { it[a].reset(); m[a] = {}; }
            else if (what <= 7)
            {
                if (m[b].k == NONE || a == b) continue;
                const Where w = place(m[b]);
                std::unique_ptr<I> n(new I(*it[b]));
                it[a] = std::move(n);
                m[a] = w;
                c.count("copies");
            }
            else if (what <= 12)
            {
                if (m[a].k == NONE || m[b].k == NONE) continue;
                // the position of the original as it is before it is overwritten
                const Where w = place(m[b]);
                *it[a] = *it[b];
                if (a != b) m[a] = w;
                c.count("assignments");
            }
            else if (what == 13)
            {
                if (m[a].k == NONE || m[b].k == NONE || a == b || m[a].k == MASTER || m[b].k == MASTER) continue;
                std::swap(*it[a], *it[b]);
                std::swap(m[a], m[b]);
            }
            else if (what <= 20)
            {
                if (m[a].k == NONE) continue;
                if (m[a].k == NUL)
                {
                    bool threw = false;
                    try { if (what & 1) ++*it[a]; else **it[a]; } catch (const lexertl::runtime_error&) { threw = true; }
                    if (!threw) fail("null-moved", "");
                    continue;
                }
                // the lowest known place includes this iterator's own only when live
                const Where w = place(m[a]);
                if (w.k != AT) continue;
                const Where n = step(w);
                if (what == 20 && a != b)
                {
                    std::unique_ptr<I> old(new I((*it[a])++));
                    it[b] = std::move(old);
                    m[b] = w;
                }
                else if (what == 19) (*it[a])++;
                else { I& r = ++*it[a]; if (&r != it[a].get()) fail("increment-result", ""); }
                m[a] = n;
                c.count("steps");
            }
            else if (m[a].k != NONE && m[b].k != NONE)
            {
                const Where x = place(m[a]), y = place(m[b]);
                if (x.k == UNKNOWN || y.k == UNKNOWN) continue;
                bool eq;
                if (x.k == NUL || y.k == NUL) eq = (x.k == NUL || x.k == ENDED) && (y.k == NUL || y.k == ENDED);
                else if (x.s != y.s) { if (x.k == ENDED && y.k == ENDED) continue; eq = false; }
                else eq = x.k == y.k && (x.k == ENDED || x.pos == y.pos);
                if ((*it[a] == *it[b]) != eq || (*it[a] != *it[b]) == eq) fail("equality", std::to_string(a) + " and " + std::to_string(b) + " should " + (eq ? "" : "not ") + "be equal");
                c.count(eq ? "equal_pairs" : "unequal_pairs");
            }
            for (unsigned i = 0; i < slots; ++i)
            {
                if (m[i].k != AT) continue;
                if (**it[i] != src[static_cast<std::size_t>(m[i].s)]->text[m[i].pos]) fail("wrong-character", "slot " + std::to_string(i) + " position " + std::to_string(m[i].pos));
                c.count("characters_read");
            }
        }
        // all copies gone in any order leave nothing
        std::vector<unsigned> order;
        for (unsigned i = 0; i < slots; ++i) order.insert(order.begin() + static_cast<long>(g.below(order.size() + 1)), i);
        for (unsigned i : order) it[i].reset();
        for (auto& s : src) s.reset();
        return hash;
    }
    template<class Ch> void histories(Ctx& c, u64 i, Rng& g)
    {
        for (const char* k : {"streams", "copies", "assignments", "steps", "equal_pairs", "unequal_pairs", "characters_read"}) c.count(k, 0);
        const auto before = live_blocks;
        const u64 hash = history<Ch>(c, i, g);
        if (live_blocks != before) c.fail("left-behind", std::to_string(static_cast<long>(live_blocks - before)) + " heap blocks");
        c.nontrivial(hash);
    }
    // A long stream read through a small buffer, holding no old positions.
    template<class Ch> void bounded(Ctx& c)
    {
        c.maxc("peak_bytes", 1);
        c.count("long_streams", 0);
        lx::Rules<Ch> lr;
        lx::Sm<Ch> sm;
        const Ch w[] = {'[', 'a', '-', 'z', ']', '+', 0}, sp[] = {'[', ' ', '\n', ']', '+', 0};
        lr.push(w, 1);
        lr.push(sp, lr.skip());
        lx::build(lr, sm);
        for (std::size_t bs : {1, 16, 1000})
        {
            std::vector<Ch> t;
            std::size_t words = 0;
            for (std::size_t i = 0; i < 20000; ++i, ++words) { for (std::size_t k = 0; k <= i % 7; ++k) t.push_back(static_cast<Ch>('a' + (i + k) % 26)); t.push_back(i % 5 ? ' ' : '\n'); }
            Source<Ch> src(t, 512, bs);
            const std::size_t before = live_bytes;
            peak_bytes = live_bytes;
            std::size_t n = 0;
            {
                It<Ch> it(src.in, bs, 16), end;
                lexertl::match_results<It<Ch>> r(it, end);
                for (;;) { lexertl::lookup(sm, r); if (!r.id) break; ++n; if (r.id != 1) c.fail("bounded-token", std::to_string(n)); }
            }
            if (n != words) c.fail("bounded-count", std::to_string(n));
            const std::size_t most = peak_bytes - before;
            c.maxc("peak_bytes", most);
            if (most > 4096 + sizeof(Ch) * 8 * (bs + 64)) c.fail("buffer-grows", "buffer " + std::to_string(bs) + " peak " + std::to_string(most) + " bytes for " + std::to_string(t.size()) + " characters");
            if (live_bytes > before) c.fail("left-behind", "after the long stream");
            c.count("long_streams");
        }
    }
    void loops(Ctx& c)
    {
        for (std::size_t n = 0; n < 20; ++n)
            for (std::size_t bs = 1; bs < 8; ++bs)
            {
                std::vector<char> t;
                for (std::size_t i = 0; i < n; ++i) t.push_back(static_cast<char>('a' + i));
                Source<char> src(t, 3, n), src2(t, 3, n);
                It<char> it(src.in, bs, bs), end;
                std::vector<char> got;
                for (; it != end; ++it) { got.push_back(*it); if (got.size() > 50) break; }
                if (got != t) c.fail("plain-loop", std::to_string(n) + " characters, buffer " + std::to_string(bs) + ", got " + std::to_string(got.size()));
                It<char> it2(src2.in, bs, bs);
                const std::string s(it2, end);
                if (std::vector<char>(s.begin(), s.end()) != t) c.fail("string-of-range", std::to_string(n));
                c.count("loops");
            }
    }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {{"loops", loops}, {"bounded", bounded<char>}, {"bounded-wide", bounded<wchar_t>}},
        {{"narrow", [](Ctx& c, u64 i, Rng& g) { lexing<char>(c, i, g, 255); }},
         {"wide", [](Ctx& c, u64 i, Rng& g) { if (g.chance(1, 2)) lexing<wchar_t>(c, i, g, 0x10ffff); else lexing<char32_t>(c, i, g, 0x10ffff); }},
         {"histories", [](Ctx& c, u64 i, Rng& g) { if (g.chance(1, 2)) histories<char>(c, i, g); else histories<wchar_t>(c, i, g); }}});
}
