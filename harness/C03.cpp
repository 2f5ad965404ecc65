#include "anyval.hpp"
#include "NeoFOAM/core/database/document.hpp"
#include <thread>
#include <optional>
using namespace H;
using namespace NeoFOAM;
int main(int argc, char** argv)
{
    init(argc, argv);
    std::set<std::string> generated;
    auto fresh = [&](const Document& d)
    {
        CHECK(d.contains("id"), "a document has no identifier");
        std::string id = d.id();
        CHECK(generated.insert(id).second, "generated identifier \"" + id + "\" is not unique");
        CHECK(d.get<std::string>("id") == id, "id() is not the stored identifier");
    };
    while (!timeUp())
    {
        begin();
        if (chance(1, 4)) { Document d; step("Document()"); fresh(d); CHECK(d.getMap().size() == 1, "a default document has other entries"); CHECK(d.validate(), "validate"); }
        if (chance(1, 200))
        {   // identifiers from several threads
            std::vector<std::vector<std::string>> ids(4);
            std::vector<std::thread> ts;
            for (int t = 0; t < 4; t++) ts.emplace_back([&, t] { for (int i = 0; i < 50; i++) ids[t].push_back(Document().id()); });
            for (auto& t : ts) t.join();
            step("4 threads x 50 documents");
            for (auto& v : ids) for (auto& i : v) CHECK(generated.insert(i).second, "identifier generated twice by concurrent constructions");
        }
        Dictionary in;
        std::map<std::string, Val> m;
        for (long n = rsize(20); n > 0; n--) { auto k = rstr(); if (k == "id") continue; auto v = rval(); in.insert(k, v.a); m[k] = v; }
        std::optional<std::string> own;
        if (chance(1, 2)) { own = rstr(); in.insert("id", *own); step("supplied id \"" + esc(*own) + "\""); }
        if (chance(1, 2)) { auto s = rstr(); in.insert("name", s); m["name"] = mk<std::string>(s, KString, "name"); }
        auto same = [&](const Dictionary& d, const char* w)
        {
            size_t extra = d.contains("id") ? 1 : 0;
            CHECK(d.getMap().size() == m.size() + extra, std::string("entries appeared or vanished ") + w);
            for (auto& [k, v] : m) { CHECK(d.contains(k), std::string("an entry vanished ") + w); CHECK(v.eq(d[k]), std::string("an entry changed ") + w); }
        };
        long mode = rnd(4);
        const auto given = m;
        long asked = 0;
        bool verdict = true;
        DocumentValidator val = [&](Dictionary d)
        {
            ++asked;
            CHECK(d.contains("id"), "the validator is shown a document without identifier");
            same(d, "in what the validator is shown");
            return verdict;
        };
        step("Document(dict of " + std::to_string(in.getMap().size()) + ", validator " + (mode == 0 ? "default" : mode == 1 ? "rejects" : "accepts") + ")");
        if (mode == 0)
        {
            std::optional<Document> d;
            d.emplace(in);
            same(*d, "in the document");
            if (own) CHECK(d->id() == *own, "a supplied identifier was not kept"); else fresh(*d);
            CHECK(d->validate(), "validate() of a document with an identifier fails");
            d->remove("id");
            CHECK(throws<std::runtime_error>([&] { d->validate(); }), "validate() accepts a document without identifier");
        }
        else
        {
            verdict = mode != 1;
            std::optional<Document> d;
            bool thrown = throws<std::runtime_error>([&] { d.emplace(in, val); });
            CHECK(thrown == !verdict, "construction must fail exactly when the validator rejects");
            CHECK(asked > 0, "the validator was not asked");
            if (d)
            {
                same(*d, "in the document");
                if (own) CHECK(d->id() == *own, "a supplied identifier was not kept"); else fresh(*d);
                for (int i = 0; i < 3; i++)
                {
                    verdict = chance(1, 2);
                    long before = asked;
                    bool r = false;
                    bool t2 = throws<std::runtime_error>([&] { r = d->validate(); });
                    CHECK(t2 == !verdict && (t2 || r) && asked > before, "validate() must return true or raise as the validator decides");
                    same(*d, "by validate()");
                }
                if (m.count("name") && m["name"].kind == KString)
                {
                    Document& w = *d;
                    const Document& c = *d;
                    CHECK(&name(c) == std::any_cast<std::string>(&w.getMap().at("name")), "name() does not refer to the stored entry");
                    auto s = rstr();
                    name(w) = s;
                    CHECK(name(c) == s && c.get<std::string>("name") == s, "writing name() is not seen");
                    m["name"] = mk<std::string>(s, KString, "name");
                    same(*d, "after writing the name");
                    Document cp(c);
                    same(cp, "in a copy");
                    CHECK(cp.id() == c.id(), "a copy has another identifier");
                }
            }
        }
        m = given;
        same(in, "in the caller's dictionary");
        CHECK(in.contains("id") == own.has_value(), "the caller's dictionary gained an identifier");
        nontrivial += own.has_value() || mode == 1;
        if (own) sample();
    }
    return finish();
}
