#include "anyval.hpp"
#include <memory>
#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"
using namespace H;
using NeoFOAM::StencilDataBase;
int main(int argc, char** argv)
{
    init(argc, argv);
    while (!timeUp())
    {
        begin();
        StencilDataBase d;
        const StencilDataBase& c = d;
        std::map<std::string, Val> m;
        std::vector<std::string> keys;
        bool interesting = false;
        auto all = [&]()
        {
            for (auto& [k, v] : m)
            {
                CHECK(c.contains(k), "contains() misses \"" + esc(k) + "\" after " + last());
                CHECK(v.eq(c[k]) && v.eq(d[k]), "the value under \"" + esc(k) + "\" is not the first one stored, after " + last());
            }
        };
        auto use = [&](auto tag, int kind, const std::string& k, auto value, Val vv)
        {
            using T = decltype(tag);
            bool has = m.count(k);
            long op = rnd(4);
            if (op == 0)
            {
                step("insert \"" + esc(k) + "\" " + vv.show);
                d.insert(k, value);
                if (!has) m[k] = vv;
                interesting |= has;
                return;
            }
            int want = !has ? 2 : m[k].kind == kind ? 1 : 3;
            step("get \"" + esc(k) + "\" as " + vv.show);
            for (int cst = 0; cst < 2; cst++)
            {
                int got = 0;
                const T* p = nullptr;
                try { p = cst ? &c.get<T>(k) : &d.get<T>(k); got = 1; }
                catch (const std::bad_cast&) { got = 3; }
                catch (const std::out_of_range&) { got = 2; }
                CHECK(got == want, "get: outcome " + std::to_string(got) + " instead of " + std::to_string(want));
                if (p) CHECK(p == std::any_cast<T>(&d[k]), "get refers to another value");
            }
            CHECK(c.contains(k) == has, "get changed membership");
            CHECK(throws<std::out_of_range>([&] { (void)d[k]; }) == !has && throws<std::out_of_range>([&] { (void)c[k]; }) == !has, "operator[]: wrong outcome");
            CHECK(c.contains(k) == has, "operator[] changed membership");
            if (want == 1 && chance(1, 3)) { step("write through get"); d.get<T>(k) = value; m[k] = vv; }
        };
        for (long o = 1 + rnd(50); o > 0; o--)
        {
            auto k = !keys.empty() && chance(1, 2) ? pick(keys) : rstr();
            keys.push_back(k);
            long iv = rint_();
            switch (rnd(4))
            {
                case 0: use(int(), KInt, k, (int)iv, mk<int>((int)iv, KInt, "int " + std::to_string(iv))); break;
                case 1: { auto s = rstr(); use(std::string(), KString, k, s, mk<std::string>(s, KString, "string")); break; }
                case 2: { Opaque q {iv, rstr()}; use(Opaque(), KOpaque, k, q, mk<Opaque>(q, KOpaque, "opaque")); break; }
                default: { auto p = std::make_shared<int>((int)iv); use(std::shared_ptr<int>(), 77, k, p, mk<std::shared_ptr<int>>(p, 77, "shared_ptr")); break; }
            }
            all();
        }
        nontrivial += interesting;
        if (interesting) sample();
    }
    return finish();
}
