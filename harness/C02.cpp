#include "anyval.hpp"
#include "NeoFOAM/core/dictionary.hpp"
#include "NeoFOAM/core/tokenList.hpp"
using namespace H;
using NeoFOAM::Dictionary;
using NeoFOAM::TokenList;
static Dictionary* D;
static std::map<std::string, Val>* MM;
static void compare(const char* when)
{
    CHECK(D->getMap().size() == MM->size(), std::string("an access changed the set of keys ") + when);
    for (auto& [k, v] : *MM)
    {
        auto it = D->getMap().find(k);
        CHECK(it != D->getMap().end(), std::string("an access removed a key ") + when);
        CHECK(v.eq(it->second), std::string("an access changed a stored value ") + when);
    }
}
template<class T>
static void access(const std::string& key, int kind, T fresh, Val freshV)
{
    bool has = MM->count(key);
    bool ok = has && (*MM)[key].kind == kind;
    const Dictionary& c = *D;
    for (int cst = 0; cst < 2; cst++)
    {
        int got = 0;   // 1 value, 2 out_of_range, 3 bad_any_cast, 4 other
        const T* p = nullptr;
        try { p = cst ? &c.get<T>(key) : &D->get<T>(key); got = 1; }
        catch (const std::bad_cast& e) { got = 3; }
        catch (const std::out_of_range& e) { got = 2; }
        catch (...) { got = 4; }
        int want = !has ? 2 : ok ? 1 : 3;
        static const char* nm[] = {"", "a value", "out_of_range", "bad_cast", "another exception"};
        CHECK(got == want, std::string(cst ? "const get" : "get") + " of key \"" + esc(key) + "\": " + nm[got] + " instead of " + nm[want]);
        if (ok) CHECK((*MM)[key].eq(std::any(*p)), "get returned a different value");
        if (ok) CHECK(p == std::any_cast<T>(&D->getMap().at(key)), "get does not refer to the stored value");
        compare("(after get)");
    }
    for (int cst = 0; cst < 2; cst++)
    {
        const std::any* p = nullptr;
        bool oor = throws<std::out_of_range>([&] { p = cst ? &c[key] : &(*D)[key]; });
        CHECK(oor == !has, "operator[] must raise out_of_range exactly for missing keys");
        if (has) CHECK(p == &D->getMap().at(key), "operator[] does not refer to the stored value");
        compare("(after operator[])");
    }
    if (ok && chance(1, 2))
    {
        D->get<T>(key) = fresh;
        (*MM)[key] = freshV;
        step("write through get");
        compare("(after a write through get)");
        CHECK(freshV.eq(std::any(c.get<T>(key))), "a write through get is not seen by the next read");
    }
}
int main(int argc, char** argv)
{
    init(argc, argv);
    while (!timeUp())
    {
        begin();
        Dictionary d;
        std::map<std::string, Val> m;
        D = &d;
        MM = &m;
        std::map<std::string, std::pair<std::string, int>> subs;   // key -> entry of the sub dictionary
        std::vector<std::string> keys;
        for (long n = rsize(60); n > 0; n--)
        {
            auto k = rstr();
            keys.push_back(k);
            if (chance(1, 4))
            {
                int x = (int)rint_();
                auto sk = rstr();
                Dictionary s;
                s.insert(sk, x);
                d.insert(k, s);
                Val v;
                v.a = s;
                v.kind = 100;
                v.eq = [sk, x](const std::any& a) { auto p = std::any_cast<Dictionary>(&a); return p && p->getMap().size() == 1 && p->getMap().count(sk) && std::any_cast<int>(p->getMap().at(sk)) == x; };
                v.show = "dict";
                m[k] = v;
                subs[k] = {sk, x};
            }
            else
            {
                auto v = rval();
                d.insert(k, v.a);
                m[k] = v;
                subs.erase(k);
            }
            step("insert \"" + esc(k) + "\" " + m[k].show);
        }
        bool interesting = false;
        for (long n = 1 + rnd(30); n > 0; n--)
        {
            std::string key = !keys.empty() && chance(3, 4) ? pick(keys) : rstr();
            bool has = m.count(key);
            long ty = rnd(8);
            if (has && chance(1, 2) && m[key].kind < 8) ty = m[key].kind;
            long iv = rint_();
            step("access \"" + esc(key) + "\" as type " + std::to_string(ty));
            switch (ty)
            {
                case KInt: access<int>(key, KInt, (int)iv, mk<int>((int)iv, KInt, "int")); break;
                case KDouble: access<double>(key, KDouble, iv * 0.25, mk<double>(iv * 0.25, KDouble, "double")); break;
                case KString: { auto s = rstr(); access<std::string>(key, KString, s, mk<std::string>(s, KString, "string")); break; }
                case KOpaque: { Opaque o {iv, rstr()}; access<Opaque>(key, KOpaque, o, mk<Opaque>(o, KOpaque, "opaque")); break; }
                case KBool: access<bool>(key, KBool, iv & 1, mk<bool>(iv & 1, KBool, "bool")); break;
                case KVec: { std::vector<int> v(rnd(4), (int)iv); access<std::vector<int>>(key, KVec, v, mk<std::vector<int>>(v, KVec, "vec")); break; }
                case KChar: access<char>(key, KChar, (char)iv, mk<char>((char)iv, KChar, "char")); break;
                default: access<size_t>(key, KSize, (size_t)iv, mk<size_t>((size_t)iv, KSize, "size_t")); break;
            }
            interesting |= has;
            const Dictionary& c = d;
            bool isd = has && m[key].kind == 100;
            CHECK(d.isDict(key) == isd, "isDict is wrong for key \"" + esc(key) + "\"");
            compare("(after isDict)");
            for (int cst = 0; cst < 2; cst++)
            {
                const Dictionary* p = nullptr;
                int got = 0;
                try { p = cst ? &c.subDict(key) : &d.subDict(key); got = 1; }
                catch (const std::bad_cast&) { got = 3; }
                catch (const std::out_of_range&) { got = 2; }
                CHECK(got == (isd ? 1 : has ? 3 : 2), "subDict has the wrong outcome for key \"" + esc(key) + "\"");
                compare("(after subDict)");
                if (isd) CHECK(p == std::any_cast<Dictionary>(&d.getMap().at(key)), "subDict does not refer to the stored dictionary");
            }
            if (isd && chance(1, 2))
            {
                int y = (int)rint_();
                auto sk = subs[key].first;
                d.subDict(key).get<int>(sk) = y;
                m[key].eq = [sk, y](const std::any& a) { auto p = std::any_cast<Dictionary>(&a); return p && p->getMap().size() == 1 && p->getMap().count(sk) && std::any_cast<int>(p->getMap().at(sk)) == y; };
                step("write into sub dictionary");
                compare("(after a write into a sub dictionary)");
            }
        }
        nontrivial += interesting;
        if (interesting) sample();
    }
    return finish();
}
