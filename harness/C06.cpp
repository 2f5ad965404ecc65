#include "coll.hpp"
using namespace H;
template<int N, int O>
static void one()
{
    Database a, b;
    Plain<N> p(&a, &b);
    p.n = rnd(1000);
    p.nm = rstr();
    p.ty = rstr();
    for (long i = rnd(4); i > 0; i--) p.found.push_back(rstr());
    p.m.insert("which", std::string("mutable"));
    p.c.insert("which", std::string("const"));
    auto mId = p.m.id(), cId = p.c.id();
    size_t n = p.n;
    auto nm = p.nm, ty = p.ty;
    auto found = p.found;
    step("wrap Plain<" + std::to_string(N) + "> n " + std::to_string(n));
    Collection col(std::move(p));
    if (chance(1, 2)) { Collection t(std::move(col)); col = std::move(t); step("move handle"); }
    const Collection& cc = col;
    Plain<N>& w = col.template as<Plain<N>>();
    CHECK(&w == &cc.template as<Plain<N>>() && &w == &col.template as<Plain<N>>(), "as() does not always return the same object");
    CHECK(throws<std::bad_cast>([&] { (void)col.template as<Plain<O>>(); }), "as() of another type does not raise bad_cast");
    CHECK(throws<std::bad_cast>([&] { (void)cc.template as<Plain<O>>(); }), "const as() of another type does not raise bad_cast");
    CHECK(throws<std::bad_cast>([&] { (void)cc.template as<ColT>(); }), "const as() of another type does not raise bad_cast");
    CHECK(cc.size() == n && cc.name() == nm && cc.type() == ty, "size/name/type are not those of the wrapped collection");
    CHECK(&col.db() == &a, "db() is not the wrapped collection's");
    CHECK(&cc.db() == &b, "const db() is not the wrapped collection's const answer");
    auto id = rstr();
    bool thr = id == "throw" || chance(1, 5);
    if (thr) id = "throw";
    const Document* d = nullptr;
    CHECK(throws<std::out_of_range>([&] { d = &col.doc(id); }) == thr, "doc() hides the wrapped collection's outcome");
    CHECK(w.askedId == id && (thr || d == &w.m), "doc() is not the wrapped collection's answer");
    w.askedId.clear();
    CHECK(throws<std::out_of_range>([&] { d = &cc.doc(id); }) == thr, "const doc() hides the wrapped collection's outcome");
    CHECK(w.askedId == id && (thr || d == &w.c), "const doc() is not the wrapped collection's const answer");
    if (!thr) { col.doc(id).insert("added", 5); CHECK(w.m.contains("added") && !w.c.contains("added"), "a mutation through doc() is not visible in the wrapped object"); }
    const Document* seen = nullptr;
    auto f = cc.find([&](const Document& x) { seen = &x; return true; });
    CHECK(f == found && seen == &w.c, "find() is not the wrapped collection's answer");
    CHECK(throws<std::logic_error>([&] { (void)cc.find([](const Document&) -> bool { throw std::logic_error("p"); }); }), "an exception of the predicate is lost");
    CHECK(w.n == n && w.nm == nm && w.m.id() == mId && w.c.id() == cId, "a query changed the wrapped collection");
}
int main(int argc, char** argv)
{
    init(argc, argv);
    while (!timeUp())
    {
        begin();
        if (chance(1, 2)) one<1, 2>(); else one<2, 1>();
        {
            Database db;
            ColT c(db, rstr());
            std::vector<std::string> ids;
            for (long i = rnd(5); i > 0; i--) { DocT d {Document()}; ids.push_back(d.id()); c.put(d.id(), d); }
            auto nm = c.name();
            Collection col(std::move(c));
            const Collection& cc = col;
            CHECK(cc.size() == ids.size() && cc.name() == nm && cc.type() == "harnessDoc" && &cc.db() == &db, "a mixin collection is not forwarded");
            for (auto& i : ids) CHECK(&cc.doc(i) == &col.as<ColT>().doc(i), "doc() of a mixin collection");
            CHECK(cc.find([](const Document&) { return true; }).size() == ids.size(), "find() of a mixin collection");
        }
        ++nontrivial;
        sample();
    }
    return finish();
}
