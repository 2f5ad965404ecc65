#include "coll.hpp"
using namespace H;
struct Entry { int kind; const void* obj; int mark; };
int main(int argc, char** argv)
{
    init(argc, argv);
    while (!timeUp())
    {
        begin();
        Database db, other;
        std::map<std::string, Entry> m;
        bool interesting = false;
        auto all = [&]()
        {
            const Database& c = db;
            CHECK(c.size() == m.size(), "size() is wrong after " + last());
            for (auto& [k, e] : m)
            {
                CHECK(c.contains(k), "contains() misses \"" + esc(k) + "\" after " + last());
                const Collection& x = c.at(k);
                CHECK(&x == &db.at(k), "at() const and non-const differ");
                CHECK((int)x.size() == e.mark, "the collection stored under \"" + esc(k) + "\" changed after " + last());
            }
        };
        for (long o = 1 + rnd(chance(1, 20) ? 300 : 30); o > 0; o--)
        {
            std::string k = rstr();
            if (!m.empty() && chance(1, 2)) { auto it = m.begin(); std::advance(it, rnd(m.size())); k = it->first; }
            bool has = m.count(k);
            long op = rnd(10);
            if (op < 4)
            {
                int kind = (int)rnd(2), mark = (int)rnd(1000);
                step("insert \"" + esc(k) + "\" kind " + std::to_string(kind) + " mark " + std::to_string(mark));
                Collection* r;
                if (kind == 0) { Plain<1> p(&db, &other); p.n = mark; r = &db.insert(k, Collection(std::move(p))); }
                else { Plain<2> p(&db, &other); p.n = mark; r = &db.insert(k, Collection(std::move(p))); }
                if (!has) m[k] = {kind, nullptr, mark};
                CHECK(r == &db.at(k), "insert() returned a different collection");
                interesting |= has;
            }
            else if (op < 6)
            {
                step("remove \"" + esc(k) + "\"");
                CHECK(db.remove(k) == has, "remove() reports the wrong presence");
                m.erase(k);
                interesting |= has;
            }
            else
            {
                step("at<> \"" + esc(k) + "\"");
                const Database& c = db;
                CHECK(c.contains(k) == has, "contains() is wrong");
                CHECK(throws<std::out_of_range>([&] { (void)db.at(k); }) == !has, "at(): wrong outcome");
                CHECK(throws<std::out_of_range>([&] { (void)c.at(k); }) == !has, "const at(): wrong outcome");
                int got = 0;
                Plain<1>* p = nullptr;
                try { p = &db.at<Plain<1>>(k); got = 1; }
                catch (const std::bad_cast&) { got = 3; }
                catch (const std::out_of_range&) { got = 2; }
                CHECK(got == (!has ? 2 : m[k].kind == 0 ? 1 : 3), "typed at(): wrong outcome");
                if (got == 1) { CHECK((int)p->n == m[k].mark, "typed at() returned another object"); p->n = ++m[k].mark; }
            }
            all();
        }
        nontrivial += interesting;
        if (interesting) sample();
    }
    return finish();
}
