// C24: random sequences of old-time requests on the fields of several collections, against the chains of levels kept beside
#include "reg.hpp"
#include <map>
#include <list>

template<class T> struct Level
{
    VolumeField<T>* f;
    std::vector<T> v, bv;
    std::string name;
    std::int64_t time;
};
template<class T> using Chain = std::vector<Level<T>>;   // the field itself, then its old levels
template<class T> struct Coll
{
    std::string name;
    fvcc::FieldCollection* fc;
    std::list<Chain<T>> chains;
    bool hasOld = false;
};
template<class T> struct Sys
{
    Executor e;
    Mesh m;
    UnstructuredMesh um;
    Database db;
    std::vector<Coll<T>> cs;
    Sys(const Executor& x) : e(x), m(rmesh()), um(build(x, m)) {}
    void check(const std::string& w)
    {
        std::set<const void*> store;
        std::set<std::string> keys;
        for (auto& c : cs)
        {
            std::map<std::string, std::vector<std::string>> docs;   // next -> {previous, current, level}
            size_t nf = 0;
            for (auto& ch : c.chains)
            {
                nf += ch.size();
                for (size_t l = 0; l < ch.size(); l++)
                {
                    auto& x = ch[l];
                    const std::string at = w + ", collection " + c.name + ", level " + std::to_string(l) + " of " + ch[0].name;
                    is(x.f->internalField(), x.v, at + ": values");
                    is(x.f->boundaryField().value(), x.bv, at + ": boundary values");
                    CHECK(x.f->name == x.name, at + ": is called " + x.name + ", not " + x.f->name);
                    CHECK(keys.insert(x.f->key).second, at + ": shares its key with another field");
                    if (m.nC) CHECK(store.insert(x.f->internalField().data()).second, at + ": shares its values with another field");
                    CHECK(x.f->fieldCollectionName == c.name && x.f->registered(), at + ": registration");
                    CHECK(&x.f->db() == &db, at + ": database");
                    auto& d = std::as_const(*c.fc).fieldDoc(x.f->key);
                    CHECK(&d.template field<VolumeField<T>>() == x.f, at + ": its document holds another field");
                    CHECK(d.name() == x.name && d.id() == x.f->key, at + ": its document's name or identifier");
                    CHECK(d.timeIndex() == x.time, at + ": time index " + std::to_string(d.timeIndex()) + " instead of " + std::to_string(x.time));
                    if (l) docs[ch[l - 1].f->key] = {x.f->key, ch[0].f->key, std::to_string(l)};
                }
            }
            CHECK(c.fc->size() == nf, w + ": collection " + c.name + " has " + std::to_string(c.fc->size()) + " fields instead of " + std::to_string(nf));
            CHECK(db.contains(c.name + "_oldTime") == c.hasOld, w + ": the old-time collection of " + c.name);
            if (!c.hasOld) continue;
            auto& oc = fvcc::OldTimeCollection::instance(std::as_const(*c.fc));
            CHECK(oc.size() == docs.size(), w + ": " + std::to_string(oc.size()) + " old-time documents instead of " + std::to_string(docs.size()));
            for (auto& k : oc.sortedKeys())
            {
                auto& d = oc.oldTimeDoc(k);
                CHECK(d.id() == k && oc.contains(k), w + ": identifier of an old-time document");
                auto i = docs.find(d.nextTime());
                CHECK(i != docs.end(), w + ": an old-time document of a field without old level");
                CHECK(d.previousTime() == i->second[0], w + ": an old-time document names another previous field");
                CHECK(d.currentTime() == i->second[1], w + ": an old-time document names another current field");
                CHECK(std::to_string(d.level()) == i->second[2], w + ": an old-time document says level " + std::to_string(d.level()) + " instead of " + i->second[2]);
                CHECK(oc.findNextTime(d.nextTime()) == k && oc.findPreviousTime(d.previousTime()) == k, w + ": an old-time document is not found");
            }
        }
    }
    void set(Level<T>& x)
    {
        x.v = rvec<T>(m.nC), x.bv = rvec<T>(m.nB);
        put(x.f->internalField(), x.v);
        put(x.f->boundaryField().value(), x.bv);
    }
    void run()
    {
        const size_t nc = 1 + rnd(2);
        cs.resize(nc);
        for (size_t i = 0; i < nc; i++)
        {
            cs[i].name = i ? "other" : "fields";
            cs[i].fc = &fvcc::FieldCollection::instance(db, cs[i].name);
        }
        for (long n = 4 + rnd(20); n > 0; n--)
        {
            Coll<T>& c = cs[rnd(nc)];
            if (c.chains.empty() || chance(1, 5))
            {
                if (c.chains.size() > 3) continue;
                const std::string nm = rnd(2) ? "u" : "p";
                step("register " + nm + " in " + c.name);
                auto v = rvec<T>(m.nC);
                auto& f = registerField<T>(*c.fc, nm, um, v);
                c.chains.push_back({Level<T> {&f, v, get(f.boundaryField().value()), nm, 1}});
                set(c.chains.back()[0]);
            }
            else
            {
                auto ci = c.chains.begin();
                std::advance(ci, rnd(c.chains.size()));
                auto& ch = *ci;
                const size_t l = rnd(ch.size());
                const std::string who = "level " + std::to_string(l) + " of " + ch[0].name + " in " + c.name;
                switch (rnd(5))
                {
                case 0: step("set " + who); set(ch[l]); break;
                case 1:
                    if (l + 1 < ch.size())
                    {
                        step("const old-time level of " + who);
                        CHECK(&fvcc::oldTime(std::as_const(*ch[l].f)) == ch[l + 1].f, last() + ": another field");
                    }
                    break;
                case 2:
                {
                    step("the collection of " + who);
                    CHECK(&fvcc::FieldCollection::instance(*ch[l].f) == c.fc && &fvcc::FieldCollection::instance(std::as_const(*ch[l].f)) == c.fc, last() + ": another collection");
                    CHECK(&fvcc::FieldCollection::instance(db, c.name) == c.fc && &fvcc::FieldCollection::instance(std::as_const(db), c.name) == c.fc, last() + ": another collection by name");
                    break;
                }
                default:
                {
                    if (ch.size() > 5) break;
                    step("old-time level of " + who);
                    auto& o = fvcc::oldTime(*ch[l].f);
                    c.hasOld = true;
                    if (l + 1 < ch.size()) { CHECK(&o == ch[l + 1].f, last() + ": another field than before"); }
                    else
                    {
                        is(o.internalField(), ch[l].v, last() + ": the new level's values");
                        CHECK(alt(o.exec()) == alt(e), last() + ": executor");
                        Level<T> x = ch[l];
                        x.f = &o, x.name += "_0", x.time -= 1;
                        ch.push_back(x);
                    }
                }
                }
            }
            check(last());
        }
        VolumeField<T> loose(e, "loose", um, fvcc::createCalculatedBCs<VolumeBoundary<T>>(um));
        bool thrown = false;
        step("old-time level of an unregistered field");
        try { fvcc::oldTime(loose); } catch (const std::runtime_error&) { thrown = true; }
        CHECK(thrown, last() + ": does not raise an error");
        check(last());
    }
};
int main(int argc, char** argv)
{
    H::init(argc, argv);
    do
    {
        begin();
        reseed();
        Executor e = rndExec();
        ++nontrivial;
        if (chance(1, 2)) Sys<double>(e).run(); else Sys<Vector>(e).run();
    } while (!timeUp());
    stats();
}
