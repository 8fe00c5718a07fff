// The Unicode data files shipped with the library, read independently.
#pragma once
#include "ref.hpp"
namespace ucd
{
    using h::u32;
    using ref::CS;
    struct Data
    {
        std::map<std::string, CS> cats;       // Lu, Ll, ...
        std::map<std::string, CS> blocks;     // Basic_Latin
        std::map<std::string, CS> scripts;    // Latin
        std::map<u32, u32> fold;              // simple other case, by category
    };
    inline void collect(std::map<std::string, std::vector<std::pair<u32, u32>>>& m, std::map<std::string, CS>& o)
    {
        for (auto& p : m) { CS c; c.r = p.second; c.norm(); o[p.first] = c; }
    }
    inline std::string trim(std::string s)
    {
        while (!s.empty() && std::isspace(static_cast<unsigned char>(s.back()))) s.pop_back();
        std::size_t i = 0;
        while (i < s.size() && std::isspace(static_cast<unsigned char>(s[i]))) ++i;
        return s.substr(i);
    }
    inline const Data& get()
    {
        static const Data d = [] {
            Data x;
            std::map<std::string, std::vector<std::pair<u32, u32>>> m;
            std::ifstream f(VERIF_REPO "/gen_unicode_hpp/UnicodeData.txt");
            std::string l;
            u32 first = 0;
            while (std::getline(f, l))
            {
                std::vector<std::string> v;
                std::stringstream s(l);
                std::string e;
                while (std::getline(s, e, ';')) v.push_back(trim(e));
                if (v.size() < 3) continue;
                v.resize(15);
                const u32 cp = static_cast<u32>(std::stoul(v[0], nullptr, 16));
                const bool is_first = v[1].size() > 8 && v[1].substr(v[1].size() - 8) == ", First>";
                const bool is_last = v[1].size() > 7 && v[1].substr(v[1].size() - 7) == ", Last>";
                if (is_first) { first = cp; continue; }
                m[v[2]].push_back({is_last ? first : cp, cp});
                // 12: simple upper, 13: simple lower
                if (v[2] == "Ll" && !v[12].empty()) x.fold[cp] = static_cast<u32>(std::stoul(v[12], nullptr, 16));
                if (v[2] == "Lu" && !v[13].empty()) x.fold[cp] = static_cast<u32>(std::stoul(v[13], nullptr, 16));
            }
            collect(m, x.cats);
            for (int which = 0; which < 2; ++which)
            {
                m.clear();
                std::ifstream b(std::string(VERIF_REPO "/gen_unicode_hpp/") + (which ? "Scripts.txt" : "Blocks.txt"));
                while (std::getline(b, l))
                {
                    const auto hash = l.find('#');
                    if (hash != std::string::npos) l.resize(hash);
                    const auto semi = l.find(';');
                    if (semi == std::string::npos) continue;
                    const std::string range = trim(l.substr(0, semi));
                    std::string name = trim(l.substr(semi + 1));
                    for (char& ch : name) if (ch == ' ') ch = '_';
                    const auto dots = range.find("..");
                    const u32 a = static_cast<u32>(std::stoul(range, nullptr, 16));
                    const u32 z = dots == std::string::npos ? a : static_cast<u32>(std::stoul(range.substr(dots + 2), nullptr, 16));
                    m[name].push_back({a, z});
                }
                collect(m, which ? x.scripts : x.blocks);
            }
            return x;
        }();
        return d;
    }
    inline CS major(const std::string& letters)
    {
        CS c;
        for (auto& p : get().cats) if (p.first.compare(0, letters.size(), letters) == 0) c.r.insert(c.r.end(), p.second.r.begin(), p.second.r.end());
        c.norm();
        return c;
    }
    // name as written inside \p{...}
    inline CS prop(const std::string& n)
    {
        auto& d = get();
        if (n == "LC") { CS c = d.cats.at("Ll"); c.add(d.cats.at("Lu")); c.add(d.cats.at("Lt")); return c; }
        if (n.compare(0, 2, "In") == 0) return d.blocks.at(n.substr(2));
        if (n.compare(0, 2, "Is") == 0) return d.scripts.at(n.substr(2));
        return major(n);
    }
    inline std::vector<std::string> names()
    {
        std::vector<std::string> v{"LC"};
        std::set<std::string> maj;
        for (auto& p : get().cats) { v.push_back(p.first); maj.insert(p.first.substr(0, 1)); }
        v.insert(v.end(), maj.begin(), maj.end());
        for (auto& p : get().blocks) v.push_back("In" + p.first);
        for (auto& p : get().scripts) v.push_back("Is" + p.first);
        return v;
    }
    // What is almost a name: cut short or lengthened, a character left out,
    // doubled or in the other case.
    inline std::set<std::string> near_names()
    {
        const auto all = names();
        std::set<std::string> o;
        for (auto& n : all)
        {
            for (std::size_t k = 0; k < n.size(); ++k)
            {
                o.insert(n.substr(0, k));
                o.insert(n.substr(k));
                o.insert(n.substr(0, k) + n.substr(k + 1));
                o.insert(n.substr(0, k + 1) + n.substr(k));
                std::string x = n;
                x[k] = static_cast<char>(std::isupper(static_cast<unsigned char>(x[k])) ? std::tolower(x[k]) : std::toupper(static_cast<unsigned char>(x[k])));
                o.insert(x);
            }
            for (const char* t : {"a", "-A", "_", " ", "}"}) if (*t != '}') o.insert(n + t);
            for (const char* t : {"In", "Is", "^", " "}) if (*t != '^') o.insert(t + n);
        }
        for (auto& n : all) o.erase(n);
        return o;
    }
    // c with the other case of each of its characters
    inline CS folded(const CS& c)
    {
        CS o = c;
        for (auto& p : get().fold) if (c.has(p.first)) o.r.push_back({p.second, p.second});
        o.norm();
        return o;
    }
}
