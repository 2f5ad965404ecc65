#include "coll.hpp"
using namespace H;
int main(int argc, char** argv)
{
    init(argc, argv);
    while (!timeUp())
    {
        begin();
        Database db;
        auto nm = rstr();
        ColT col(db, nm);
        const ColT& c = col;
        std::map<std::string, int> tag;
        for (long n = chance(1, 20) ? 500 : rsize(80); n > 0; n--)
        {
            int t = (int)rint_();
            Dictionary in;
            in.insert("tag", t);
            bool ownKey = chance(1, 3);
            if (chance(1, 2)) in.insert("id", rstr());
            DocT d {Document(in)};
            auto key = ownKey ? rstr() : d.id();   // documents may be stored under a key that is not their id
            if (col.put(key, d)) tag[key] = t;
            if (n < 12) step("store \"" + esc(key) + "\" tag " + std::to_string(t));
        }
        auto whole = [&](const char* w)
        {
            CHECK(col.raw().size() == tag.size(), std::string("a query changed the collection: ") + w);
            for (auto& [k, t] : tag) CHECK(col.raw().count(k) && col.raw().at(k).d.get<int>("tag") == t, std::string("a query changed a document: ") + w);
        };
        CHECK(c.size() == tag.size(), "size() is not the number of documents");
        CHECK(c.name() == nm && &c.db() == &db && &col.db() == &db && c.type() == "harnessDoc", "name/db/type");
        auto sk = c.sortedKeys();
        std::vector<std::string> want;
        for (auto& [k, t] : tag) want.push_back(k);
        std::sort(want.begin(), want.end());
        CHECK(sk == want, "sortedKeys() is not the ascending list of stored identifiers");
        whole("sortedKeys");
        for (int i = 0; i < 6; i++)
        {
            auto k = !want.empty() && chance(2, 3) ? pick(want) : rstr();
            bool has = tag.count(k);
            step("doc(\"" + esc(k) + "\")");
            const Document* p = nullptr;
            CHECK(throws<std::out_of_range>([&] { p = &c.doc(k); }) == !has, "const doc(): wrong outcome");
            if (has) CHECK(p == &col.raw().at(k).d, "const doc() returned another document");
            p = nullptr;
            CHECK(throws<std::out_of_range>([&] { p = &col.doc(k); }) == !has, "doc(): wrong outcome");
            if (has) CHECK(p == &col.raw().at(k).d, "doc() returned another document");
            whole("doc");
        }
        for (int i = 0; i < 4; i++)
        {
            long a = rint_(), mod = 1 + rnd(5);
            int kind = (int)rnd(4);
            auto pred = [&](int t) { return kind == 0 ? true : kind == 1 ? false : kind == 2 ? (t % mod) == 0 : t >= a; };
            step("find kind " + std::to_string(kind) + " a " + std::to_string(a) + " mod " + std::to_string(mod));
            auto got = c.find([&](const Document& d) { return pred(d.get<int>("tag")); });
            std::set<std::string> g(got.begin(), got.end()), e;
            for (auto& [k, t] : tag) if (pred(t)) e.insert(k);
            CHECK(g.size() == got.size(), "find() reports an identifier twice");
            for (auto& k : g) CHECK(tag.count(k), "find() reports \"" + esc(k) + "\", which cannot be looked up");
            CHECK(g == e, "find() does not report exactly the matching documents");
            whole("find");
        }
        nontrivial += tag.size() > 1;
        if (tag.size() > 1) sample();
    }
    return finish();
}
