#include "anyval.hpp"
#include "NeoFOAM/core/dictionary.hpp"
using namespace H;
using NeoFOAM::Dictionary;
struct M { Dictionary d; std::map<std::string, Val> m; };

static void compare(M& x, const std::string& probe, const char* when)
{
    const Dictionary& d = x.d;
    CHECK(d.empty() == x.m.empty(), std::string("empty() is wrong ") + when);
    auto ks = d.keys();
    std::set<std::string> s(ks.begin(), ks.end());
    CHECK(s.size() == ks.size(), std::string("keys() lists a key twice ") + when);
    CHECK(s.size() == x.m.size(), std::string("keys() has the wrong number of keys ") + when);
    CHECK(d.getMap().size() == x.m.size(), std::string("getMap() has the wrong size ") + when);
    for (auto& [k, v] : x.m)
    {
        CHECK(d.contains(k), std::string("contains() misses key \"") + esc(k) + "\" " + when);
        CHECK(s.count(k), std::string("keys() misses key \"") + esc(k) + "\" " + when);
        CHECK(v.eq(d[k]), std::string("wrong value under key \"") + esc(k) + "\" " + when);
        CHECK(v.eq(d.getMap().at(k)), std::string("getMap(): wrong value under key \"") + esc(k) + "\" " + when);
    }
    CHECK(d.contains(probe) == (x.m.count(probe) > 0), std::string("contains(\"") + esc(probe) + "\") is wrong " + when);
}
int main(int argc, char** argv)
{
    init(argc, argv);
    while (!timeUp())
    {
        begin();
        std::vector<M> ds(1);
        bool interesting = false;
        if (chance(1, 3))
        {   // construct from a list or a map
            if (chance(1, 2))
            {
                std::vector<std::pair<std::string, std::any>> e;
                std::vector<Val> vs;
                long n = 4;
                for (long i = 0; i < n; i++) { vs.push_back(rval()); e.push_back({rstr(), vs.back().a}); step("list entry \"" + esc(e.back().first) + "\" = " + vs.back().show); }
                std::initializer_list<std::pair<std::string, std::any>> l {e[0], e[1], e[2], e[3]};
                ds[0].d = Dictionary(l);
                for (long i = 0; i < n; i++)
                    if (!ds[0].m.emplace(e[i].first, vs[i]).second) interesting = true;
                step("Dictionary(initializer_list)");
            }
            else
            {
                std::unordered_map<std::string, std::any> e;
                for (long i = rsize(60); i > 0; i--) { auto k = rstr(); auto v = rval(); e[k] = v.a; ds[0].m[k] = v; }
                ds[0].d = Dictionary(e);
                step("Dictionary(map of " + std::to_string(e.size()) + ")");
            }
            compare(ds[0], rstr(), "after construction");
        }
        long ops = chance(1, 30) ? 400 : 1 + rnd(40);
        for (long o = 0; o < ops; o++)
        {
            size_t w = rnd(ds.size());
            std::string key = rstr();
            if (!ds[w].m.empty() && chance(1, 2)) { auto it = ds[w].m.begin(); std::advance(it, rnd(ds[w].m.size())); key = it->first; }
            long op = rnd(12);
            bool had = ds[w].m.count(key);
            if (op < 6)
            {
                Val v = rval();
                step("d" + std::to_string(w) + ".insert(\"" + esc(key) + "\", " + v.show + ")");
                std::string k2 = key;
                std::any a2 = v.a;
                ds[w].d.insert(k2, a2);
                CHECK(k2 == key && v.eq(a2), "insert changed its arguments");
                ds[w].m[key] = v;
                interesting |= had;
            }
            else if (op < 9)
            {
                step("d" + std::to_string(w) + ".remove(\"" + esc(key) + "\")");
                ds[w].d.remove(key);
                ds[w].m.erase(key);
                interesting |= had;
            }
            else if (op == 9 && ds.size() < 4)
            {
                step("copy d" + std::to_string(w));
                M c {Dictionary(ds[w].d), ds[w].m};
                ds.push_back(c);
            }
            else if (op == 10)
            {
                size_t t = rnd(ds.size());
                step("d" + std::to_string(t) + " = d" + std::to_string(w));
                ds[t].d = ds[w].d;
                ds[t].m = ds[w].m;
            }
            else if (op == 11 && had)
            {
                Val v = rval();
                step("d" + std::to_string(w) + "[\"" + esc(key) + "\"] = " + v.show);
                ds[w].d[key] = v.a;
                ds[w].m[key] = v;
                interesting = true;
            }
            for (auto& d : ds) compare(d, rstr(), ("after: " + last()).c_str());
        }
        nontrivial += interesting;
        if (interesting) sample();
    }
    return finish();
}
