// M04: generated C++ lexers, compiled and run, against lookup.
#include "anyset.hpp"
#include <dlfcn.h>
#include <list>
#include <lexertl/generate_cpp.hpp>
using namespace lx;
namespace
{
    // What the generated file exports: one entry that lexes with function k.
    using Emit = void (*)(void*, u64, u64, u64, u64, int, u64, int);
    using Run = void (*)(int, const void*, std::size_t, std::size_t, int, u64, Emit, void*);
    const char* const PRELUDE = R"(
#include <lexertl/match_results.hpp>
#include <lexertl/runtime_error.hpp>
#include <iterator>
#include <list>
#include <stdint.h>
typedef uint64_t u64_;
typedef void (*Emit)(void*, u64_, u64_, u64_, u64_, int, u64_, int);
template<class R, class It, class F>
void drive_it(It b, It e, unsigned long limit, int bol, u64_ st, Emit emit, void* ctx, F f)
{
    R r(b, e, bol != 0, static_cast<typename R::id_type>(st));
    for (unsigned long i = 0; i < limit; ++i)
    {
        try { f(r); }
        catch (const lexertl::runtime_error&) { emit(ctx, 0, 0, 0, 0, 0, 0, 1); return; }
        emit(ctx, r.id, r.user_id, std::distance(b, r.first), std::distance(b, r.second), r.bol, r.state, 0);
        if (r.id == 0) return;
    }
}
)";
    struct Job
    {
        std::string source;    // functions
        std::string cases;     // body of the switch
        std::vector<std::function<void(Ctx&, Rng&, Run)>> tests;
        int functions = 0;
    };
    void emit_tok(void* ctx, u64 id, u64 uid, u64 b, u64 e, int bol, u64 st, int under)
    {
        Tok t;
        t.underflow = under != 0;
        if (!under) { t.id = id; t.uid = uid; t.b = b; t.e = e; t.bol = bol != 0; t.state = st; }
        static_cast<std::vector<Tok>*>(ctx)->push_back(t);
    }
    template<class Ch> const char* ch_name()
    {
        return std::is_same<Ch, char>::value ? "char" : std::is_same<Ch, wchar_t>::value ? "wchar_t" :
            std::is_same<Ch, char16_t>::value ? "char16_t" : "char32_t";
    }
    template<class Id> const char* id_name() { return sizeof(Id) == 1 ? "uint8_t" : sizeof(Id) == 2 ? "uint16_t" : sizeof(Id) == 4 ? "uint32_t" : "uint64_t"; }

    Text plain_input(Rng& g, const ref::CS& alphabet, std::size_t maxlen)
    {
        Text t;
        for (std::size_t n = g.below(maxlen + 1); n; --n) t += static_cast<char32_t>(alphabet.any(g));
        return t;
    }
    template<class Ch, class Id>
    void add_machine(Ctx& c, Job& j, const Sm<Ch, Id>& sm, const std::string& desc, const Any& a, Rng& g)
    {
        const bool rec = (sm.data()._features & +lexertl::feature_bit::recursive) != 0;
        const bool list = g.chance(1, 4);
        struct Fn { int k; bool pointers; };
        std::vector<Fn> fns;
        for (bool pointers : {false, true})
        {
            const int k = j.functions++;
            const World w(c, g);
            std::ostringstream o;
            dress(o, g);
            const std::string name = "lexer_" + std::to_string(k);
            lexertl::table_based_cpp::generate(name, sm, pointers, o);
            j.source += o.str() + "\n";
            const std::string it = std::string(list ? "std::list<" : "const ") + ch_name<Ch>() + (list ? ">::const_iterator" : "*");
            const std::string res = std::string("lexertl::") + (rec ? "recursive_" : "") + "match_results<" + it + ", " + id_name<Id>() + ">";
            j.cases += "case " + std::to_string(k) + ": { auto p = static_cast<const " + ch_name<Ch>() + "*>(data); ";
            if (list) j.cases += std::string("std::list<") + ch_name<Ch>() + "> l(p, p + n); drive_it<" + res + ">(l.cbegin(), l.cend(), limit, bol, st, emit, ctx, ";
            else j.cases += "drive_it<" + res + ">(p, p + n, limit, bol, st, emit, ctx, ";
            j.cases += "[](" + res + "& r) { " + name + "<" + it + ", " + id_name<Id>() + ">(r); }); break; }\n";
            fns.push_back({k, pointers});
        }
        c.count(rec ? "machines_recursive" : "machines_plain");
        const auto fe = sm.data()._features;
        const char* names[] = {"bol", "eol", "skip", "again", "multi_state", "recursive"};
        for (int i = 0; i < 6; ++i) if (fe & (1u << i)) c.count(std::string("with_") + names[i]);
        c.maxc("lexer_states", sm.data()._dfa.size());
        auto own = std::make_shared<Sm<Ch, Id>>(sm);
        auto any = std::make_shared<Any>(a);
        j.tests.push_back([=](Ctx& c, Rng& g, Run run)
        {
            const bool tracks = (own->data()._features & +lexertl::feature_bit::bol) != 0;
            for (int i = 0; i < 14; ++i)
            {
                const Text in = i == 13 ? Text() : any->s.res.empty() ? plain_input(g, any->f.o.alphabet, i < 6 ? 8 : 40) : any_input(g, *any, i < 6 ? 8 : 40);
                const bool bol = !g.chance(1, 4);
                const u64 st = g.chance(2, 3) ? 0 : g.below(own->data()._dfa.size());
                auto want = lex_of(*own, in, bol, st);
                if (!tracks) for (auto& t : want) t.bol = false;
                for (auto& f : fns)
                {
                    const std::string what = desc + (f.pointers ? " pointers" : " indices") + (list ? " list" : "") + " bol=" + (bol ? "1" : "0") + " state=" + std::to_string(st);
                    c.note(what + " input=" + h::visw(in));
                    Exact<Ch> x(in);
                    std::vector<Tok> got;
                    run(f.k, x.begin(), x.n, 2 * in.size() + 4, bol, st, emit_tok, &got);
                    if (!tracks) for (auto& t : got) t.bol = false;
                    compare(c, "tokens-differ", got, want, what, h::visw(in));
                    c.count("runs_compared");
                }
                const Stat s = stat_of(want, Sm<Ch, Id>::traits::npos());
                c.count("matched_tokens", s.tokens);
                for (auto& t : want) if (t.underflow) c.count("underflows");
                if (s.tokens) c.nontrivial(h::mix(h::hash_str(desc), h::hash_bytes(in.data(), in.size() * 4, bol + 2 * st)));
            }
        });
    }
    template<class Ch, class Id>
    void make(Ctx& c, Job& j, Rng& g)
    {
        Rules<Ch, Id> lr(LENIENT);
        AnyOpt o;
        o.max_rules = 5;
        Any a = any_rules(g, lr, sizeof(Ch) == 1 ? 0xff : sizeof(Ch) == 2 ? 0xffff : 0x10ffff, o);
        Sm<Ch, Id> sm;
        try { lexertl::basic_generator<Rules<Ch, Id>, Sm<Ch, Id>>::build(lr, sm); } catch (const lexertl::runtime_error&) { c.count("not_built"); return; }
        if (g.chance(1, 3)) sm.minimise();
        add_machine<Ch, Id>(c, j, sm, a.desc + " char=" + ch_name<Ch>() + " id=" + id_name<Id>(), a, g);
    }
    bool compile(const std::string& src, const std::string& so, std::string& err)
    {
        const std::string log = so + ".log";
        const std::string cmd = "clang++ -std=c++17 -w -O0 -g1 -fPIC -shared -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -I" VERIF_REPO "/include " +
            src + " -o " + so + " >" + log + " 2>&1";
        const int rc = std::system(cmd.c_str());
        std::ifstream l(log);
        std::stringstream ss;
        ss << l.rdbuf();
        err = ss.str();
        return rc == 0;
    }
    void write_file(const std::string& f, const Job& j)
    {
        std::ofstream o(f);
        o << PRELUDE << "namespace {\n" << j.source << "}\nextern \"C\" void run(int k, const void* data, unsigned long n, unsigned long limit, int bol, u64_ st, Emit emit, void* ctx)\n{\nswitch (k)\n{\n" <<
            j.cases << "}\n}\n";
    }
    void finish(Ctx& c, Job& j, Rng& g)
    {
        static int serial = 0;
        const std::string base = c.scratch + "/g" + std::to_string(serial++);
        write_file(base + ".cpp", j);
        std::string err;
        if (!compile(base + ".cpp", base + ".so", err))
        {
            // The compiler itself must work before the generated code is blamed.
            write_file(base + "c.cpp", Job());
            std::string e2;
            if (!compile(base + "c.cpp", base + "c.so", e2)) { std::fprintf(stderr, "no working compiler: %s\n", e2.c_str()); std::_Exit(2); }
            c.fail("does-not-compile", err.substr(0, 1500));
        }
        void* lib = dlopen((base + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!lib) { std::fprintf(stderr, "%s\n", dlerror()); std::_Exit(2); }
        const Run run = reinterpret_cast<Run>(dlsym(lib, "run"));
        c.count("files_compiled");
        c.count("functions_compiled", j.functions);
        for (auto& t : j.tests) t(c, g, run);
        dlclose(lib);
        for (const char* s : {".cpp", ".so", ".so.log"}) std::remove((base + s).c_str());
    }
    void batch(Ctx& c, u64, Rng& g)
    {
        Job j;
        for (int i = 0; i < 16; ++i)
            switch (g.below(8))
            {
            case 0: make<char32_t, std::uint16_t>(c, j, g); break;
            case 1: make<char16_t, std::uint32_t>(c, j, g); break;
            case 2: make<wchar_t, std::uint64_t>(c, j, g); break;
            case 3: make<char, std::uint32_t>(c, j, g); break;
            case 4: make<char, std::uint8_t>(c, j, g); break;
            default: make<char, std::uint16_t>(c, j, g); break;
            }
        finish(c, j, g);
    }
    // Machines with shapes the random ones reach rarely.
    void shapes(Ctx& c)
    {
        Rng g(7);
        Job j;
        auto add = [&](const std::string& desc, std::function<void(lexertl::rules&)> fill, const std::string& alphabet)
        {
            lexertl::rules lr(LENIENT);
            fill(lr);
            lexertl::state_machine sm;
            lexertl::generator::build(lr, sm);
            Any a;
            a.f.o.alphabet = ref::CS::of(alphabet);
            a.desc = desc;
            add_machine<char, std::uint16_t>(c, j, sm, desc, a, g);
        };
        add("thirty states", [](lexertl::rules& lr)
        {
            for (int i = 1; i < 30; ++i) lr.push_state(("S" + std::to_string(i)).c_str());
            for (int i = 0; i < 30; ++i)
            {
                const std::string from = i ? "S" + std::to_string(i) : "INITIAL", to = i == 29 ? "INITIAL" : "S" + std::to_string(i + 1);
                lr.push(from.c_str(), "a", static_cast<std::uint16_t>(i + 1), to.c_str());
                lr.push(from.c_str(), i % 3 ? "^b" : "b", 40, ".");
                lr.push(from.c_str(), i % 2 ? "c$" : "c", 41, ".");
            }
        }, "abc\n");
        add("single state with pushes", [](lexertl::rules& lr)
        {
            lr.push("INITIAL", "[(]", 1, ">INITIAL");
            lr.push("INITIAL", "[)]", 2, "<");
            lr.push("INITIAL", "a+", 3, ".");
        }, "()a");
        add("line end only", [](lexertl::rules& lr) { lr.push("a$", 1); lr.push("a", 2); lr.push("ab$", 3); }, "ab\r\n");
        finish(c, j, g);
        // other names and streams in the middle of other output
        Job k;
        finish(c, k, g);
    }
}
int main(int argc, char** argv)
{
    return h::run(argc, argv, {{"shapes", shapes}}, {{"batches", batch}});
}
