#include "h.hpp"
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
#include <sys/wait.h>
#include <fcntl.h>
using namespace H;
using namespace NeoFOAM;
struct Thing { long a; std::string s; bool operator==(const Thing&) const = default; };
static long made = 0;
static bool refuse = false;
struct Refused {};
static std::string& nameOf(int b, int i)
{
    static std::map<std::pair<int, int>, std::string> m;
    auto it = m.find({b, i});
    if (it == m.end()) it = m.emplace(std::pair<int, int> {b, i}, "initial" + std::to_string(i)).first;
    return it->second;
}
static std::string docOf(int b, int i, int what) { return "text " + std::to_string(what) + " of " + std::to_string(b) + "/" + std::to_string(i); }
// what a constructor saw
struct Seen
{
    int b = -1, i = -1;
    std::string s; const void* ps = nullptr; long n = 0; Thing* t = nullptr; Thing v {}; long u = -1;
};
static Seen seen;

template<int B> struct FB : public RuntimeSelectionFactory<FB<B>, Parameters<const std::string&, long, Thing&, Thing>>
{
    FB() {}
    virtual ~FB() {}
    virtual std::pair<int, int> who() const = 0;
    static std::string name() { return "base" + std::to_string(B); }
};
template<int B, int I> struct FD : public FB<B>::template Register<FD<B, I>>
{
    FD(const std::string& s, long n, Thing& t, Thing v)
    {
        ++made;
        if (refuse) throw Refused();
        seen = Seen {B, I, s, &s, n, &t, v, -1};
    }
    std::pair<int, int> who() const override { return {B, I}; }
    static std::string name() { return nameOf(B, I); }
    static std::string doc() { return docOf(B, I, 0); }
    static std::string schema() { return docOf(B, I, 1); }
};
// no arguments
struct GB : public RuntimeSelectionFactory<GB, Parameters<>>
{
    GB() {}
    virtual ~GB() {}
    virtual std::pair<int, int> who() const = 0;
    static std::string name() { return "baseNoArgs"; }
};
template<int I> struct GD : public GB::Register<GD<I>>
{
    GD() { ++made; if (refuse) throw Refused(); seen = Seen {7, I}; }
    std::pair<int, int> who() const override { return {7, I}; }
    static std::string name() { return nameOf(7, I); }
    static std::string doc() { return docOf(7, I, 0); }
    static std::string schema() { return docOf(7, I, 1); }
};
// move-only argument
#ifndef H_BASIC
using Owned = std::unique_ptr<long>;
#else
using Owned = std::shared_ptr<long>;
#endif
struct MB : public RuntimeSelectionFactory<MB, Parameters<Owned, std::string>>
{
    MB() {}
    virtual ~MB() {}
    virtual std::pair<int, int> who() const = 0;
    static std::string name() { return "baseMove"; }
};
template<int I> struct MD : public MB::Register<MD<I>>
{
    MD(Owned u, std::string s)
    {
        ++made;
        if (refuse) throw Refused();
        seen = Seen {8, I};
        seen.u = u ? *u : -1;
        seen.s = s;
    }
    std::pair<int, int> who() const override { return {8, I}; }
    static std::string name() { return nameOf(8, I); }
    static std::string doc() { return docOf(8, I, 0); }
    static std::string schema() { return docOf(8, I, 1); }
};

// nothing is ever registered here
struct EB : public RuntimeSelectionFactory<EB, Parameters<long>>
{
    EB() {}
    virtual ~EB() {}
    static std::string name() { return "baseEmpty"; }
};
using Model = std::map<std::string, int>;
template<class F>
static bool endsWithError(F f)   // in a child process
{
    fflush(stdout);
    pid_t p = fork();
    if (p == 0)
    {
        std::set_terminate(nullptr);
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        dup2(n, 2);
        try { f(); }
        catch (...) { _exit(9); }
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
template<class Base>
static void compare(const Model& m, int b, const std::string& probe)
{
    auto e = Base::entries();
    auto where = " (base " + std::to_string(b) + ", after " + last() + ")";
    CHECK(Base::size() == m.size(), "size is not the number of registered names" + where);
    CHECK(e.size() == m.size(), "entries has " + std::to_string(e.size()) + " instead of " + std::to_string(m.size()) + " names" + where);
    std::set<std::string> s(e.begin(), e.end());
    CHECK(s.size() == m.size(), "entries lists a name twice" + where);
    for (auto& [k, i] : m) CHECK(s.count(k), "entries lacks \"" + esc(k) + "\"" + where);
    auto q = m.find(probe);
    for (int what = 0; what < 2; what++)
    {
        for (int via = 0; via < 2; via++)
        {
            std::string r;
            bool thr = throws<std::out_of_range>([&] {
                r = what == 0 ? (via ? BaseClassDocumentation::doc(Base::name(), probe) : Base::doc(probe)) : (via ? BaseClassDocumentation::schema(Base::name(), probe) : Base::schema(probe));
            });
            CHECK(thr == (q == m.end()), "documentation of \"" + esc(probe) + "\": wrong outcome" + where);
            if (!thr) CHECK(r == docOf(b, q->second, what), "documentation of \"" + esc(probe) + "\" is \"" + esc(r) + "\"" + where);
        }
    }
    auto be = BaseClassDocumentation::entries(Base::name());
    CHECK(be.size() == e.size() && std::set<std::string>(be.begin(), be.end()) == s, "entries through the base class's documentation differ" + where);
}
template<class Base>
static void outcome(const std::function<std::unique_ptr<Base>()>& f, int b, int i)
{
    long before = made;
    refuse = chance(1, 6);
    step(refuse ? "create (the constructor throws)" : "create");
    std::unique_ptr<Base> p;
    bool thr = false;
    try { p = f(); }
    catch (const Refused&) { thr = true; }
    CHECK(thr == refuse, "the constructor's exception is not passed on");
    refuse = false;
    CHECK(made == before + 1, "not exactly one constructor ran but " + std::to_string(made - before));
    if (thr) return;
    CHECK(p != nullptr, "no object was returned");
    CHECK((p->who() == std::pair<int, int> {b, i}), "an object of class " + std::to_string(p->who().second) + " instead of " + std::to_string(i) + " was created");
}
template<int B>
static void fcreate(const std::string& key, int i)
{
    std::string s = rstr();
    const std::string sc = s;
    long n = rint_();
    Thing t {rint_(), rstr()}, v {rint_(), rstr()};
    const Thing t0 = t, v0 = v;
    seen = Seen();
    bool r = false;
    outcome<FB<B>>([&] { auto p = FB<B>::create(key, s, n, t, v); r = true; return p; }, B, i);
    CHECK(s == sc && t == t0 && v == v0, "create changed its caller's arguments");
    if (r) CHECK(seen.s == s && seen.ps == &s && seen.n == n && seen.t == &t && seen.v == v, "the constructor did not get exactly the given arguments");
}
template<int B> static bool addF(int i)
{
    switch (i)
    {
        case 0: return FB<B>::template Register<FD<B, 0>>::addSubType();
        case 1: return FB<B>::template Register<FD<B, 1>>::addSubType();
        case 2: return FB<B>::template Register<FD<B, 2>>::addSubType();
        default: return FB<B>::template Register<FD<B, 3>>::addSubType();
    }
}
static bool addG(int i) { return i % 2 ? GB::Register<GD<1>>::addSubType() : GB::Register<GD<0>>::addSubType(); }
static bool addM(int i) { return i % 2 ? MB::Register<MD<1>>::addSubType() : MB::Register<MD<0>>::addSubType(); }

int main(int argc, char** argv)
{
    // classes registered before main under their initial names
    Model m[3] = {{{"initial0", 0}, {"initial1", 1}, {"initial2", 2}, {"initial3", 3}}, {{"initial0", 0}, {"initial1", 1}}, {{"initial0", 0}, {"initial1", 1}}};
    std::vector<std::string> before = {"base0", "baseNoArgs", "baseMove"};
    init(argc, argv);
    step("before main");
    Model bm;   // base class documentation registered by hand
    {
        Thing t {};
        auto anchor = [&](auto* p) { (void)p; };
        anchor((FD<0, 0>*)0);
        compare<FB<0>>(m[0], 0, "initial2");
        compare<GB>(m[1], 7, "initial1");
        compare<MB>(m[2], 8, "initial0");
    }
    std::vector<std::string> keys {"initial0", "initial1", "initial2", "initial3"};
    long round = 0;
    while (!timeUp())
    {
        begin();
        bool interesting = false;
        for (long o = 1 + rnd(30); o > 0; o--)
        {
            int b = (int)rnd(3);
            static const int code[3] = {0, 7, 8};
            auto k = !keys.empty() && chance(2, 3) ? pick(keys) : rstr();
            int nd = b == 0 ? 4 : 2;
            if (chance(1, m[b].size() > 300 ? 60 : 4))
            {
                int i = (int)rnd(nd);
                keys.push_back(k);
                nameOf(code[b], i) = k;
                step("register class " + std::to_string(i) + " of base " + std::to_string(code[b]) + " as \"" + esc(k) + "\"");
                bool r = b == 0 ? addF<0>(i) : b == 1 ? addG(i) : addM(i);
                CHECK(r, "registration does not report success");
                m[b][k] = i;
                interesting = true;
            }
            else if (m[b].count(k))
            {
                step("\"" + esc(k) + "\" of base " + std::to_string(code[b]));
                int i = m[b][k];
                if (b == 0) fcreate<0>(k, i);
                else if (b == 1) { seen = Seen(); outcome<GB>([&] { return GB::create(k); }, 7, i); }
                else
                {
                    auto s = rstr();
                    long u = rnd(1000);
                    bool r = false;
                    seen = Seen();
                    outcome<MB>([&] { auto p = MB::create(k, Owned(new long(u)), s); r = true; return p; }, 8, i);
                    if (r) CHECK(seen.u == u && seen.s == s, "the constructor did not get exactly the given arguments");
                }
            }
            else if (chance(1, 12))
            {
                step("create unregistered \"" + esc(k) + "\"");
                Thing t {1, "t"};
                bool e = b == 0 ? endsWithError([&] { (void)FB<0>::create(k, k, 1, t, t); }) : b == 1 ? endsWithError([&] { (void)GB::create(k); }) : endsWithError([&] { (void)MB::create(k, nullptr, k); });
                CHECK(e, "creating with an unregistered key did not end with an error");
                if (chance(1, 3))
                {
                    step("create \"" + esc(k) + "\" of a base without classes");
                    CHECK(endsWithError([&] { (void)EB::create(k, 1); }), "creating with an unregistered key did not end with an error");
                    CHECK(EB::size() == 0 && EB::entries().empty(), "names in a factory without registered classes");
                }
                interesting = true;
            }
            else if (chance(1, 2))
            {
                auto q = rstr();
                if (q != "base0" && q != "baseNoArgs" && q != "baseMove" && (bm.count(q) || bm.size() < 200))
                {
                    int id = (int)rnd(1000);
                    step("document base class \"" + esc(q) + "\"");
                    BaseClassDocumentation::registerClass(q, {[id](const std::string& d) { return d + "/d" + std::to_string(id); }, [id](const std::string& d) { return d + "/s" + std::to_string(id); }, [id]() { return std::vector<std::string> {std::to_string(id)}; }});
                    bm[q] = id;
                }
                auto z = !bm.empty() && chance(1, 2) ? std::next(bm.begin(), rnd((long)bm.size()))->first : rstr();
                auto it = bm.find(z);
                if (z != "base0" && z != "baseNoArgs" && z != "baseMove")
                {
                    std::string d, s;
                    std::vector<std::string> e;
                    bool has = it != bm.end();
                    CHECK(throws<std::out_of_range>([&] { d = BaseClassDocumentation::doc(z, k); }) == !has && throws<std::out_of_range>([&] { s = BaseClassDocumentation::schema(z, k); }) == !has
                          && throws<std::out_of_range>([&] { e = BaseClassDocumentation::entries(z); }) == !has, "documentation of base class \"" + esc(z) + "\": wrong outcome");
                    if (has) CHECK(d == k + "/d" + std::to_string(it->second) && s == k + "/s" + std::to_string(it->second) && e == std::vector<std::string> {std::to_string(it->second)}, "documentation of base class \"" + esc(z) + "\" is wrong");
                }
            }
            if (chance(1, 3))
            {
                auto probe = chance(1, 2) && !m[b].empty() ? std::next(m[b].begin(), rnd((long)m[b].size()))->first : k;
                if (b == 0) compare<FB<0>>(m[0], 0, probe);
                else if (b == 1) compare<GB>(m[1], 7, probe);
                else compare<MB>(m[2], 8, probe);
            }
            if (chance(1, 10))
            {
                std::ostringstream os;
                if (b == 0) FB<0>::print(os);
                else if (b == 1) GB::print(os);
                else MB::print(os);
                for (auto& [n, i] : m[b]) CHECK(os.str().find(n) != std::string::npos, "print lacks a registered name");
            }
        }
        nontrivial += interesting;
        if (interesting) sample();
        ++round;
    }
    return finish();
}
