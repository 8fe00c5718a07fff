// Simulation of several expressions at once: an exact search over every text
// for one with given properties, independent of the library's construction.
#pragma once
#include "ref.hpp"
#include <queue>

namespace nfa
{
    using h::u32;
    using h::u64;
    using ref::CS;
    using ref::P;
    using ref::Re;
    struct Nfa
    {
        struct Node { std::vector<int> eps; int set = -1; int to = -1; };
        std::vector<Node> n;
        int start = 0, accept = 0;
        int fresh() { n.emplace_back(); return static_cast<int>(n.size()) - 1; }
        // returns the end node
        int add(const P& p, int at, std::vector<CS>& sets)
        {
            switch (p->k)
            {
            case Re::EMPTY: return at;
            case Re::SET:
            {
                const int e = fresh();
                std::size_t k = 0;
                while (k < sets.size() && !(sets[k] == p->cs)) ++k;
                if (k == sets.size()) sets.push_back(p->cs);
                const int m = fresh();
                n[static_cast<std::size_t>(at)].eps.push_back(m);
                n[static_cast<std::size_t>(m)].set = static_cast<int>(k);
                n[static_cast<std::size_t>(m)].to = e;
                return e;
            }
            case Re::CAT: for (auto& k : p->kids) at = add(k, at, sets); return at;
            case Re::ALT:
            {
                const int e = fresh();
                for (auto& k : p->kids) { const int x = add(k, at, sets); n[static_cast<std::size_t>(x)].eps.push_back(e); }
                return e;
            }
            case Re::REP:
            {
                for (int i = 0; i < p->lo; ++i) at = add(p->kids[0], next(at), sets);
                const int e = fresh();
                at = next(at);
                n[static_cast<std::size_t>(at)].eps.push_back(e);
                if (p->hi < 0)
                {
                    const int x = add(p->kids[0], at, sets);
                    n[static_cast<std::size_t>(x)].eps.push_back(at);
                }
                else
                    for (int i = p->lo; i < p->hi; ++i)
                    {
                        at = add(p->kids[0], next(at), sets);
                        n[static_cast<std::size_t>(at)].eps.push_back(e);
                    }
                return e;
            }
            }
            return at;
        }
        // a fresh node behind at, so that loops never lead back into what came before
        int next(int at) { const int m = fresh(); n[static_cast<std::size_t>(at)].eps.push_back(m); return m; }
        void make(const P& p, std::vector<CS>& sets) { start = fresh(); accept = add(p, start, sets); }
        void close(std::vector<int>& s) const
        {
            std::vector<char> seen(n.size());
            for (int x : s) seen[static_cast<std::size_t>(x)] = 1;
            for (std::size_t i = 0; i < s.size(); ++i)
                for (int e : n[static_cast<std::size_t>(s[i])].eps)
                    if (!seen[static_cast<std::size_t>(e)]) { seen[static_cast<std::size_t>(e)] = 1; s.push_back(e); }
            std::sort(s.begin(), s.end());
        }
        bool accepts(const std::vector<int>& s) const { return std::binary_search(s.begin(), s.end(), accept); }
    };
    // One representative of every class of characters that the sets tell apart.
    inline std::vector<u32> classes(const std::vector<CS>& sets, u32 max)
    {
        std::set<u32> cand{0};
        for (auto& s : sets) for (auto& r : s.r) { cand.insert(r.first); if (r.second < max) cand.insert(r.second + 1); }
        std::map<std::vector<bool>, u32> by;
        for (u32 c : cand)
        {
            std::vector<bool> sig;
            for (auto& s : sets) sig.push_back(s.has(c));
            auto it = by.find(sig);
            // printable representatives are easier to read
            if (it == by.end()) by.emplace(sig, c);
            else if ((it->second < 32 || it->second > 126) && c >= 32 && c < 127) it->second = c;
        }
        std::vector<u32> v;
        for (auto& b : by) v.push_back(b.second);
        return v;
    }
    // Calls visit(accepting flags of each expression, text) for every reachable
    // combination of states, shortest texts first. Returns false if there are
    // more than limit combinations.
    template<class F>
    bool explore(const std::vector<P>& res, u32 max, std::size_t limit, F visit)
    {
        std::vector<Nfa> a(res.size());
        std::vector<CS> sets;
        for (std::size_t i = 0; i < res.size(); ++i) a[i].make(res[i], sets);
        const auto cls = classes(sets, max);
        using Key = std::vector<std::vector<int>>;
        struct Item { Key k; long parent; u32 ch; };
        std::vector<Item> items;
        std::map<Key, long> seen;
        Key s(res.size());
        for (std::size_t i = 0; i < res.size(); ++i) { s[i] = {a[i].start}; a[i].close(s[i]); }
        items.push_back({s, -1, 0});
        seen[s] = 0;
        for (std::size_t at = 0; at < items.size(); ++at)
        {
            std::vector<bool> acc;
            for (std::size_t i = 0; i < res.size(); ++i) acc.push_back(a[i].accepts(items[at].k[i]));
            ref::Text w;
            for (long p = static_cast<long>(at); p > 0; p = items[static_cast<std::size_t>(p)].parent) w += static_cast<char32_t>(items[static_cast<std::size_t>(p)].ch);
            std::reverse(w.begin(), w.end());
            visit(acc, w);
            for (u32 c : cls)
            {
                Key k(res.size());
                bool any = false;
                for (std::size_t i = 0; i < res.size(); ++i)
                {
                    for (int x : items[at].k[i])
                    {
                        auto& n = a[i].n[static_cast<std::size_t>(x)];
                        if (n.set >= 0 && sets[static_cast<std::size_t>(n.set)].has(c)) k[i].push_back(n.to);
                    }
                    std::sort(k[i].begin(), k[i].end());
                    k[i].erase(std::unique(k[i].begin(), k[i].end()), k[i].end());
                    a[i].close(k[i]);
                    any = any || !k[i].empty();
                }
                if (!any || seen.count(k)) continue;
                if (items.size() >= limit) return false;
                seen[k] = static_cast<long>(items.size());
                items.push_back({k, static_cast<long>(at), c});
            }
        }
        return true;
    }
}
