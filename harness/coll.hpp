#pragma once
#include "anyval.hpp"
#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/core/database/collection.hpp"
#include "NeoFOAM/core/database/document.hpp"
namespace H
{
using namespace NeoFOAM;
struct DocT
{
    Document d;
    DocT(const Document& x) : d(x) {}
    Document& doc() { return d; }
    const Document& doc() const { return d; }
    std::string id() const { return d.id(); }
    static std::string typeName() { return "harnessDoc"; }
};
struct ColT : CollectionMixin<DocT>
{
    ColT(Database& db, std::string n) : CollectionMixin<DocT>(db, n) {}
    bool put(const std::string& key, const DocT& d) { return docs_.emplace(key, d).second; }
    auto& raw() { return docs_; }
};
template<int N>
struct Plain
{
    Document m, c;
    Database* d1;
    Database* d2;
    size_t n = 0;
    std::string nm, ty;
    mutable std::string askedId;
    std::vector<std::string> found;
    Plain(Database* a, Database* b) : d1(a), d2(b) {}
    Document& doc(const std::string& id) { askedId = id; if (id == "throw") throw std::out_of_range("no"); return m; }
    const Document& doc(const std::string& id) const { askedId = id; if (id == "throw") throw std::out_of_range("no"); return c; }
    std::vector<std::string> find(const std::function<bool(const Document&)>& p) const { (void)p(c); return found; }
    size_t size() const { return n; }
    std::string type() const { return ty; }
    std::string name() const { return nm; }
    Database& db() { return *d1; }
    const Database& db() const { return *d2; }
};
}
