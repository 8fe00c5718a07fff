// D01: the character set type against sets of points.
#include "h.hpp"
#include <algorithm>
#include <memory>
#include <lexertl/enums.hpp>
#include <lexertl/partition/charset.hpp>
#include <lexertl/string_token.hpp>
using namespace h;
namespace
{
    // A set over 0..top kept as the points at which membership changes: slow,
    // obvious, and built in another way than the ranges under test.
    struct Model
    {
        std::set<u64> flips; // membership changes at each value
        bool has(u64 v) const { return std::distance(flips.begin(), flips.upper_bound(v)) % 2 == 1; }
        void put(u64 a, u64 b, bool value)
        {
            const bool before = a ? has(a - 1) : false, after = has(b + 1);
            flips.erase(flips.lower_bound(a), flips.upper_bound(b + 1));
            if (before != value) flips.insert(a);
            if (value != after) flips.insert(b + 1);
        }
        std::vector<std::pair<u64, u64>> ranges() const
        {
            std::vector<std::pair<u64, u64>> v;
            for (auto it = flips.begin(); it != flips.end();) { const u64 a = *it++; v.push_back({a, *it++ - 1}); }
            return v;
        }
        u64 size() const { u64 n = 0; for (auto& r : ranges()) n += r.second - r.first + 1; return n; }
    };
    Model meet(const Model& a, const Model& b) { Model m; for (auto& x : a.ranges()) for (auto& y : b.ranges()) if (std::max(x.first, y.first) <= std::min(x.second, y.second)) m.put(std::max(x.first, y.first), std::min(x.second, y.second), true); return m; }
    std::string show(const Model& m) { std::string s = "{"; for (auto& r : m.ranges()) s += std::to_string(r.first) + "-" + std::to_string(r.second) + " "; return s + "}"; }
    template<class T> std::string show_t(const T& t) { std::string s = "{"; for (auto& r : t._ranges) s += std::to_string(static_cast<u64>(r.first)) + "-" + std::to_string(static_cast<u64>(r.second)) + " "; return s + "}"; }

    template<class Ch>
    struct Machine
    {
        using T = lexertl::basic_string_token<Ch>;
        using I = typename T::index_type;
        using Range = typename T::range;
        Ctx& c;
        Rng& g;
        u64 top, span; // span: characters used, so that small cases collide often
        u64 low;
        std::vector<T> real;
        std::vector<Model> model;
        std::string log;
        Machine(Ctx& cc, Rng& gg) : c(cc), g(gg), top(static_cast<u64>(lexertl::basic_char_traits<Ch>::max_val()))
        {
            static const u64 spans[] = {6, 12, 40, 256, 0};
            span = spans[g.below(5)];
            if (!span || span > top) span = top + 1;
            switch (g.below(3)) { case 0: low = 0; break; case 1: low = top + 1 - span; break; default: low = g.below(top + 2 - span); break; }
            real.resize(4);
            model.resize(4);
        }
        u64 ch() { if (g.chance(1, 30)) return g.chance(1, 2) ? 0 : top; return low + g.below(span); }
        bool same(const T& t, const Model& m) const
        {
            const auto r = m.ranges();
            if (t._ranges.size() != r.size()) return false;
            for (std::size_t i = 0; i < r.size(); ++i) if (static_cast<u64>(t._ranges[i].first) != r[i].first || static_cast<u64>(t._ranges[i].second) != r[i].second) return false;
            return true;
        }
        void check(std::size_t i, const char* op)
        {
            if (!same(real[i], model[i])) c.fail(std::string(op) + "-wrong", log + " set " + std::to_string(i) + " is " + show_t(real[i]) + " should be " + show(model[i]));
        }
        void step()
        {
            const std::size_t i = g.below(4);
            std::size_t j = g.below(4);
            switch (g.below(13))
            {
            case 0: case 1: case 2:
            {
                u64 a = ch(), b = ch();
                if (g.chance(1, 3)) b = std::min(top, a + g.below(4));
                if (a > b) std::swap(a, b);
                if (g.chance(1, 3) && !real[i]._ranges.empty())
                {   // next to or overlapping what is there
                    const auto& r = real[i]._ranges[g.below(real[i]._ranges.size())];
                    const u64 f = r.first, s = r.second;
                    switch (g.below(4))
                    {
                    case 0: if (s < top) { a = s + 1; b = std::min(top, a + g.below(3)); } break;
                    case 1: if (f) { b = f - 1; a = b - std::min(b, static_cast<u64>(g.below(3))); } break;
                    case 2: a = f; b = s; break;
                    default: a = f - std::min<u64>(f, g.below(2)); b = std::min(top, s + g.below(2)); break;
                    }
                }
                log += " i" + std::to_string(i) + ":" + std::to_string(a) + "-" + std::to_string(b);
                real[i].insert(Range(static_cast<I>(a), static_cast<I>(b)));
                model[i].put(a, b, true);
                check(i, "insert");
                c.count("inserts");
                break;
            }
            case 3:
                log += " I" + std::to_string(i) + std::to_string(j);
                real[i].insert(real[j]);
                for (auto& r : model[j].ranges()) model[i].put(r.first, r.second, true);
                check(i, "insert-set"); check(j, "insert-set-argument");
                c.count("unions");
                break;
            case 4: case 5:
                if (i == j) j = (j + 1) % 4;
                log += " r" + std::to_string(i) + std::to_string(j);
                real[i].remove(real[j]);
                for (auto& r : model[j].ranges()) model[i].put(r.first, r.second, false);
                check(i, "remove"); check(j, "remove-argument");
                c.count("differences");
                break;
            case 6: case 7:
            {
                if (i == j) j = (j + 1) % 4;
                std::size_t k = g.below(4);
                while (k == i || k == j) k = (k + 1) % 4;
                log += " x" + std::to_string(i) + std::to_string(j) + std::to_string(k);
                const bool fresh = g.chance(1, 2);
                if (fresh) { real[k].clear(); model[k] = Model(); }
                const Model both = meet(model[i], model[j]);
                real[i].intersect(real[j], real[k]);
                for (auto& r : both.ranges()) { model[i].put(r.first, r.second, false); model[j].put(r.first, r.second, false); model[k].put(r.first, r.second, true); }
                check(i, "intersect-left"); check(j, "intersect-right"); check(k, "intersect-overlap");
                c.count("intersections");
                if (!both.flips.empty()) c.count("intersections_overlapping");
                break;
            }
            case 8:
            {
                log += " n" + std::to_string(i);
                real[i].negate();
                Model m;
                m.put(0, top, true);
                for (auto& r : model[i].ranges()) m.put(r.first, r.second, false);
                model[i] = m;
                check(i, "negate");
                c.count("negations");
                break;
            }
            case 9:
                if (g.chance(1, 3)) { log += " c" + std::to_string(i); real[i].clear(); model[i] = Model(); check(i, "clear"); }
                else { log += " ="; real[i] = real[j]; model[i] = model[j]; check(i, "copy"); }
                break;
            case 10:
                log += " s" + std::to_string(i) + std::to_string(j);
                real[i].swap(real[j]);
                if (i != j) std::swap(model[i], model[j]);
                check(i, "swap"); check(j, "swap");
                break;
            case 11:
            {
                u64 a = ch(), b = ch();
                if (a > b) std::swap(a, b);
                if (g.chance(1, 2)) b = a;
                log += " m" + std::to_string(i);
                real[i] = a == b && g.chance(1, 2) ? T(static_cast<Ch>(a)) : T(static_cast<Ch>(a), static_cast<Ch>(b));
                model[i] = Model();
                model[i].put(a, b, true);
                check(i, "construct");
                break;
            }
            default:
            {   // the partitioner's pairs of a set and its positions
                if (i == j) j = (j + 1) % 4;
                using CS = lexertl::detail::basic_charset<Ch, std::uint16_t>;
                CS a(real[i], 1), b(real[j], 2), o;
                a._index_set.insert(3); b._index_set.insert(3);
                const Model both = meet(model[i], model[j]);
                Model ma = model[i], mb = model[j];
                for (auto& r : both.ranges()) { ma.put(r.first, r.second, false); mb.put(r.first, r.second, false); }
                a.intersect(b, o);
                log += " p" + std::to_string(i) + std::to_string(j);
                if (!same(a._token, ma) || !same(b._token, mb) || !same(o._token, both)) c.fail("charset-intersect-wrong", log);
                using S = std::set<std::uint16_t>;
                const bool any = !both.flips.empty();
                if (o._index_set != (any ? S{1, 2, 3} : S{}) || a._index_set != (any && ma.flips.empty() ? S{} : S{1, 3}) || b._index_set != (any && mb.flips.empty() ? S{} : S{2, 3})) c.fail("charset-positions-wrong", log);
                if (o.empty() != !any) c.fail("charset-empty-wrong", log);
                c.count("charset_intersections");
                break;
            }
            }
        }
        void queries()
        {
            for (std::size_t i = 0; i < 4; ++i)
            {
                const T& t = real[i];
                const Model& m = model[i];
                if (t.empty() != m.flips.empty()) c.fail("empty-wrong", log);
                if (t.size() != m.ranges().size()) c.fail("size-wrong", log);
                if (t.any() != (m.size() == top + 1)) c.fail("any-wrong", log);
                if (t.negatable() != (m.size() > top / 2)) c.fail("negatable-wrong", log + " " + show(m));
                T twice = t;
                twice.negate();
                twice.negate();
                if (!(twice == t)) c.fail("negate-twice-differs", log);
                for (std::size_t j = 0; j < 4; ++j)
                {
                    const bool eq = m.flips == model[j].flips;
                    if ((t == real[j]) != eq) c.fail("equality-wrong", log);
                    if (t < real[j] && real[j] < t) c.fail("order-not-strict", log);
                    if (!eq && !(t < real[j]) && !(real[j] < t)) c.fail("order-not-total", log);
                    if (eq && t < real[j]) c.fail("order-not-irreflexive", log);
                    for (std::size_t k = 0; k < 4; ++k) if (t < real[j] && real[j] < real[k] && !(t < real[k])) c.fail("order-not-transitive", log);
                    c.count("comparisons");
                }
                c.maxc("ranges", t.size());
                c.nontrivial(hash_str(show_t(t)));
            }
        }
        void run()
        {
            const u64 n = g.in(5, 60);
            for (u64 i = 0; i < n; ++i) { step(); if (g.chance(1, 6)) queries(); }
            queries();
            c.count("steps", n);
        }
    };
    void narrow(Ctx& c, u64, Rng& g) { Machine<char>(c, g).run(); }
    void wide16(Ctx& c, u64, Rng& g) { Machine<char16_t>(c, g).run(); }
    void wide32(Ctx& c, u64 i, Rng& g) { if (i & 1) Machine<wchar_t>(c, g).run(); else Machine<char32_t>(c, g).run(); }

    // Every operation on every pair of subsets of eight characters, at the
    // bottom and at the top of each alphabet.
    template<class Ch>
    void subsets(Ctx& c)
    {
        using T = lexertl::basic_string_token<Ch>;
        using I = typename T::index_type;
        const u64 top = static_cast<u64>(lexertl::basic_char_traits<Ch>::max_val());
        for (u64 base : {u64(0), top - 7})
        {
            auto make = [&](unsigned bits)
            {
                T t;
                for (unsigned i = 0; i < 8; ++i)
                    if (bits >> i & 1) { unsigned k = i; while (k < 7 && (bits >> (k + 1) & 1)) ++k; t._ranges.push_back({static_cast<I>(base + i), static_cast<I>(base + k)}); i = k; }
                return t;
            };
            std::vector<T> all;
            for (unsigned b = 0; b < 256; ++b) all.push_back(make(b));
            for (unsigned a = 0; a < 256; ++a)
                for (unsigned b = 0; b < 256; ++b)
                {
                    T x = all[a];
                    x.insert(all[b]);
                    if (!(x == all[a | b])) c.fail("union-wrong", std::to_string(a) + " " + std::to_string(b) + " " + show_t(x));
                    x = all[a];
                    x.remove(all[b]);
                    if (!(x == all[a & ~b])) c.fail("difference-wrong", std::to_string(a) + " " + std::to_string(b) + " " + show_t(x));
                    x = all[a];
                    T y = all[b], o;
                    x.intersect(y, o);
                    if (!(x == all[a & ~b]) || !(y == all[b & ~a]) || !(o == all[a & b])) c.fail("intersection-wrong", std::to_string(a) + " " + std::to_string(b) + " " + show_t(x) + show_t(y) + show_t(o));
                    if ((all[a] == all[b]) != (a == b)) c.fail("equality-wrong", std::to_string(a) + " " + std::to_string(b));
                    c.count("subset_pairs");
                }
            for (unsigned a = 0; a < 256; ++a)
                for (unsigned f = 0; f < 8; ++f)
                    for (unsigned l = f; l < 8; ++l)
                    {
                        T x = all[a];
                        x.insert(typename T::range(static_cast<I>(base + f), static_cast<I>(base + l)));
                        unsigned want = a;
                        for (unsigned k = f; k <= l; ++k) want |= 1u << k;
                        if (!(x == all[want])) c.fail("insert-wrong", std::to_string(a) + " " + std::to_string(f) + "-" + std::to_string(l) + " " + show_t(x));
                    }
        }
    }
    void all_subsets(Ctx& c) { subsets<char>(c); subsets<char16_t>(c); subsets<char32_t>(c); }
}
int main(int argc, char** argv)
{
    return run(argc, argv, {{"subsets", all_subsets}}, {{"narrow", narrow}, {"wide16", wide16}, {"wide32", wide32}});
}
