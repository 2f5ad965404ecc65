"""behaviour-preserving edits of the core: every check must stay quiet on them (python3-vt tools/benign.py tools/benign_core.py [id...])"""
D, DH = "src/core/dictionary.cpp", "include/NeoFOAM/core/dictionary.hpp"
T, TH = "src/core/tokenList.cpp", "include/NeoFOAM/core/tokenList.hpp"
CH, CC = "include/NeoFOAM/core/database/collection.hpp", "src/core/database/collection.cpp"
OH, OC = "include/NeoFOAM/core/database/document.hpp", "src/core/database/document.cpp"
BH, BC = "include/NeoFOAM/core/database/database.hpp", "src/core/database/database.cpp"
SH, SC = "include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp", "src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"
F = "include/NeoFOAM/core/runtimeSelectionFactory.hpp"
I = "include/NeoFOAM/core/input.hpp"
DICT = ["C01", "C02", "C03", "C10"]
DBS = ["C03", "C04", "C05", "C06"]
EDITS = [
 dict(id="d-keys-iterator", props=DICT, edits=[(D, '''    for (const auto& pair : data_)
    {
        keys.push_back(pair.first);
    }''', '''    keys.reserve(data_.size());
    for (auto it = data_.begin(); it != data_.end(); ++it)
    {
        keys.emplace_back(it->first);
    }''')]),
 dict(id="d-keys-transform", props=DICT, edits=[(D, '''    for (const auto& pair : data_)
    {
        keys.push_back(pair.first);
    }''', '''    std::transform(data_.begin(), data_.end(), std::back_inserter(keys), [](const auto& p) { return p.first; });'''), (D, "#include <numeric>", "#include <numeric>\n#include <algorithm>\n#include <iterator>")]),
 dict(id="d-keys-foreach", props=DICT, edits=[(D, '''    for (const auto& pair : data_)
    {
        keys.push_back(pair.first);
    }''', '''    std::for_each(data_.cbegin(), data_.cend(), [&keys](const auto& p) { keys.push_back(p.first); });'''), (D, "#include <numeric>", "#include <numeric>\n#include <algorithm>")]),
 dict(id="d-keys-binding", props=DICT, edits=[(D, '''    for (const auto& pair : data_)
    {
        keys.push_back(pair.first);
    }''', '''    for (const auto& [key, value] : data_)
    {
        keys.push_back(key);
    }''')]),
 dict(id="d-insert-assign", props=DICT, edits=[(D, "{ data_[key] = value; }", "{ data_.insert_or_assign(key, value); }")]),
 dict(id="d-insert-find", props=DICT, edits=[(D, "{ data_[key] = value; }", '''{
    auto it = data_.find(key);
    if (it != data_.end())
    {
        it->second = value;
        return;
    }
    data_.emplace(key, value);
}''')]),
 dict(id="d-insert-try", props=DICT, edits=[(D, "{ data_[key] = value; }", '''{
    auto [it, isNew] = data_.try_emplace(key, value);
    if (!isNew)
    {
        it->second = value;
    }
}''')]),
 dict(id="d-remove-find", props=DICT, edits=[(D, "{ data_.erase(key); }", '''{
    const auto it = data_.find(key);
    if (it != data_.end())
    {
        data_.erase(it);
    }
}''')]),
 dict(id="d-contains-count", props=DICT, edits=[(D, "{ return data_.find(key) != data_.end(); }", "{ return data_.count(key) != 0; }")]),
 dict(id="d-contains-contains", props=DICT, edits=[(D, "{ return data_.find(key) != data_.end(); }", "{ return data_.contains(key); }")]),
 dict(id="d-ctor-loop", props=DICT, edits=[(D, '''    for (const auto& pair : initList)
    {
        data_.insert(pair);
    }''', '''    for (const auto& [key, value] : initList)
    {
        if (!contains(key))
        {
            data_.emplace(key, value);
        }
    }''')]),
 dict(id="d-ctor-range", props=DICT, edits=[(D, '''    for (const auto& pair : initList)
    {
        data_.insert(pair);
    }''', '''    data_.insert(initList.begin(), initList.end());''')]),
 dict(id="d-idx-helper", props=DICT, edits=[(D, '''std::any& Dictionary::operator[](const std::string& key)
{
    try
    {
        return data_.at(key);
    }
    catch (const std::out_of_range& e)
    {
        logOutRange(e, key, data_);
        throw e;
    }
}

const std::any& Dictionary::operator[](const std::string& key) const
{
    try
    {
        return data_.at(key);
    }
    catch (const std::out_of_range& e)
    {
        logOutRange(e, key, data_);
        throw e;
    }
}
''', '''namespace
{
template<class Map>
auto& lookup(Map& data, const std::string& key)
{
    try
    {
        return data.at(key);
    }
    catch (const std::out_of_range& e)
    {
        logOutRange(e, key, data);
        throw;
    }
}
}

std::any& Dictionary::operator[](const std::string& key) { return lookup(data_, key); }

const std::any& Dictionary::operator[](const std::string& key) const { return lookup(data_, key); }
''')]),
 dict(id="d-idx-constcast", props=DICT, edits=[(D, '''std::any& Dictionary::operator[](const std::string& key)
{
    try
    {
        return data_.at(key);
    }
    catch (const std::out_of_range& e)
    {
        logOutRange(e, key, data_);
        throw e;
    }
}
''', '''std::any& Dictionary::operator[](const std::string& key)
{
    return const_cast<std::any&>(static_cast<const Dictionary&>(*this)[key]);
}
''')]),
 dict(id="d-idx-find", props=DICT, edits=[(D, '''const std::any& Dictionary::operator[](const std::string& key) const
{
    try
    {
        return data_.at(key);
    }
    catch (const std::out_of_range& e)
    {
        logOutRange(e, key, data_);
        throw e;
    }
}
''', '''const std::any& Dictionary::operator[](const std::string& key) const
{
    const auto it = data_.find(key);
    if (it == data_.end())
    {
        const std::out_of_range e("key not found: " + key);
        logOutRange(e, key, data_);
        throw e;
    }
    return it->second;
}
''')]),
 dict(id="d-isdict-find", props=DICT, edits=[(D, "    return contains(key) && std::any_cast<Dictionary>(&data_.at(key));", '''    const auto it = data_.find(key);
    if (it == data_.end())
    {
        return false;
    }
    return it->second.type() == typeid(Dictionary);''')]),
 dict(id="d-isdict-ptr", props=DICT, edits=[(D, "    return contains(key) && std::any_cast<Dictionary>(&data_.at(key));", '''    if (!contains(key)) return false;
    const Dictionary* sub = std::any_cast<Dictionary>(&data_.at(key));
    return sub != nullptr;''')]),
 dict(id="d-subdict-get", props=DICT, edits=[(D, "    return std::any_cast<Dictionary&>(operator[](key));", '''    std::any& value = (*this)[key];
    Dictionary& sub = std::any_cast<Dictionary&>(value);
    return sub;''')]),
 dict(id="d-log-loop", props=DICT, edits=[(D, '''    // TODO use NeoFOAM error here
    std::cerr << "Key not found: " << key << " \\n"
              << "available keys are: \\n"
              << std::accumulate(
                     data.begin(),
                     data.end(),
                     std::string(""),
                     [](const std::string& a, const std::pair<std::string, std::any>& b)
                     { return a + "  - " + b.first + " \\n"; }
                 )
              << e.what() << std::endl;''', '''    std::cerr << "Key not found: " << key << " \\n"
              << "available keys are: \\n";
    for (const auto& [name, value] : data)
    {
        std::cerr << "  - " << name << " \\n";
    }
    std::cerr << e.what() << std::endl;''')]),
 dict(id="d-get-ptr", props=DICT, edits=[(DH, '''        try
        {
            return std::any_cast<const T&>(operator[](key));
        }
        catch (const std::bad_any_cast& e)
        {
            logBadAnyCast<T>(e, key, data_);
            throw;
        }''', '''        const std::any& value = operator[](key);
        if (const T* p = std::any_cast<T>(&value))
        {
            return *p;
        }
        const std::bad_any_cast e;
        logBadAnyCast<T>(e, key, data_);
        throw e;''')]),
 # token list
 dict(id="t-next-post", props=["C08", "C10"], edits=[(TH, '''        ReturnType& retValue = get<ReturnType&>(nextIndex_);
        nextIndex_++;
        return retValue;''', '''        auto& retValue = get<ReturnType>(nextIndex_);
        nextIndex_ = nextIndex_ + 1;
        return retValue;''')]),
 dict(id="t-pop-move", props=["C08", "C10"], edits=[(TH, '''        ReturnType ret(get<ReturnType>(0));
        data_.erase(data_.begin());
        return ret;''', '''        ReturnType ret = std::move(get<ReturnType>(0));
        remove(0);
        return ret;''')]),
 dict(id="t-insert-emplace", props=["C08", "C10"], edits=[(T, "{ data_.push_back(value); }", "{ data_.insert(data_.end(), value); }")]),
 dict(id="t-empty-size", props=["C08", "C10"], edits=[(T, "{ return data_.empty(); }", "{ return size() == 0; }")]),
 dict(id="t-remove-next", props=["C08", "C10"], edits=[(T, "    data_.erase(data_.begin() + static_cast<std::vector<double>::difference_type>(index));", '''    auto pos = data_.begin();
    std::advance(pos, index);
    data_.erase(pos);'''), (T, "#include \"NeoFOAM/core/tokenList.hpp\"", "#include <iterator>\n#include \"NeoFOAM/core/tokenList.hpp\"")]),
 dict(id="t-remove-shift", props=["C08", "C10"], edits=[(T, "    data_.erase(data_.begin() + static_cast<std::vector<double>::difference_type>(index));", '''    for (size_t i = index; i + 1 < data_.size(); i++)
    {
        data_[i] = data_[i + 1];
    }
    data_.pop_back();''')]),
 dict(id="t-get-check", props=["C08", "C10"], edits=[(TH, '''        try
        {
            return std::any_cast<const ReturnType&>(data_.at(idx));
        }
        catch (const std::bad_any_cast& e)
        {
            logBadAnyCast<ReturnType>(e, idx, data_);
            throw e;
        }
        catch (const std::out_of_range& e)
        {
            logOutRange(e, idx, data_);
            throw e;
        }''', '''        return const_cast<TokenList&>(*this).get<ReturnType>(idx);''')]),
 # documents
 dict(id="o-ctor-helper", props=DBS, edits=[(OC, '''Document::Document(const Dictionary& dict, DocumentValidator validator)
    : Dictionary(dict), id_(generateID()), validator_(validator)
{
    if (!contains("id"))
    {
        insert("id", id_);
    }
    validate();''', '''namespace
{
void ensureId(Dictionary& d, const std::string& id)
{
    if (d.contains("id"))
    {
        return;
    }
    d.insert("id", id);
}
}

Document::Document(const Dictionary& dict, DocumentValidator validator)
    : Dictionary(dict), id_(generateID()), validator_(std::move(validator))
{
    ensureId(*this, id_);
    (void)validate();''')]),
 dict(id="o-validate-if", props=DBS, edits=[(OC, '''    if (!validator_(*this))
    {
        throw std::runtime_error("Document validation failed");
    }
    return true;''', '''    const bool valid = validator_(*this);
    if (valid)
    {
        return true;
    }
    throw std::runtime_error("Document validation failed");''')]),
 dict(id="o-genid-fetch", props=DBS, edits=[(OH, '''        return "doc_" + std::to_string(counter++);''', '''        const int number = counter.fetch_add(1);
        std::string result("doc_");
        result += std::to_string(number);
        return result;''')]),
 dict(id="o-genid-start1", props=DBS, edits=[(OH, '''        return "doc_" + std::to_string(counter++);''', '''        return "doc_" + std::to_string(++counter - 1);''')]),
 dict(id="o-id-idx", props=DBS, edits=[(OH, '''{ return get<std::string>("id"); }''', '''{ return std::any_cast<std::string>((*this)["id"]); }''')]),
 # collections
 dict(id="c-find-iter", props=DBS, edits=[(CH, '''        for (const auto& [key, doc] : docs_)
        {
            if (predicate(doc.doc()))
            {
                result.push_back(key);
            }
        }''', '''        for (auto it = docs_.begin(); it != docs_.end(); ++it)
        {
            const Document& candidate = it->second.doc();
            if (!predicate(candidate))
            {
                continue;
            }
            result.push_back(it->first);
        }''')]),
 dict(id="c-find-foreach", props=DBS, edits=[(CH, '''        for (const auto& [key, doc] : docs_)
        {
            if (predicate(doc.doc()))
            {
                result.push_back(key);
            }
        }''', '''        auto test = [&](const auto& entry) { return predicate(entry.second.doc()); };
        for (const auto& entry : docs_)
        {
            if (test(entry)) result.emplace_back(entry.first);
        }''')]),
 dict(id="c-sorted-ranges", props=DBS, edits=[(CH, '''        for (const auto& [key, doc] : docs_)
        {
            result.push_back(key);
        }
        std::sort(result.begin(), result.end());
        return result;''', '''        result.reserve(docs_.size());
        for (const auto& entry : docs_)
        {
            result.push_back(entry.first);
        }
        std::sort(result.begin(), result.end(), [](const std::string& a, const std::string& b) { return a < b; });
        return result;''')]),
 dict(id="c-sorted-less", props=DBS, edits=[(CH, "std::sort(result.begin(), result.end());", "std::sort(result.begin(), result.end(), std::less<std::string>());"), (CH, "#include <algorithm>", "#include <algorithm>\n#include <functional>")]),
 dict(id="c-sorted-set", props=DBS, edits=[(CH, '''        std::vector<std::string> result;
        for (const auto& [key, doc] : docs_)
        {
            result.push_back(key);
        }
        std::sort(result.begin(), result.end());
        return result;''', '''        std::set<std::string> names;
        for (const auto& [key, doc] : docs_)
        {
            names.insert(key);
        }
        return std::vector<std::string>(names.begin(), names.end());'''), (CH, "#include <algorithm>", "#include <algorithm>\n#include <set>")]),
 dict(id="c-doc-find", props=DBS, edits=[(CH, "    const Document& doc(const std::string& id) const { return docs_.at(id).doc(); }", '''    const Document& doc(const std::string& id) const
    {
        const auto it = docs_.find(id);
        if (it == docs_.end())
        {
            throw std::out_of_range("no document " + id);
        }
        return it->second.doc();
    }''')]),
 dict(id="c-as-ref", props=DBS, edits=[(CH, '''    template<typename CollectionType>
    const CollectionType& as() const
    {
        auto derived = dynamic_cast<CollectionModel<CollectionType>*>(impl_.get());
        if (!derived)
        {
            throw std::bad_cast();
        }
        return derived->collection_;
    }''', '''    template<typename CollectionType>
    const CollectionType& as() const
    {
        return dynamic_cast<const CollectionModel<CollectionType>&>(*impl_).collection_;
    }''')]),
 dict(id="c-as-const", props=DBS, edits=[(CH, '''    template<typename CollectionType>
    const CollectionType& as() const
    {
        auto derived = dynamic_cast<CollectionModel<CollectionType>*>(impl_.get());
        if (!derived)
        {
            throw std::bad_cast();
        }
        return derived->collection_;
    }''', '''    template<typename CollectionType>
    const CollectionType& as() const
    {
        return const_cast<Collection*>(this)->as<CollectionType>();
    }''')]),
 dict(id="c-fwd-local", props=DBS, edits=[(CC, "{ return impl_->size(); }", "{\n    const CollectionConcept& wrapped = *impl_;\n    return wrapped.size();\n}")]),
 # database
 dict(id="b-insert-emplace", props=DBS, edits=[(BC, "    return collections_.try_emplace(name, std::move(col)).first->second;", '''    const auto known = collections_.find(name);
    if (known != collections_.end())
    {
        return known->second;
    }
    return collections_.emplace(name, std::move(col)).first->second;''')]),
 dict(id="b-insert-binding", props=DBS, edits=[(BC, "    return collections_.try_emplace(name, std::move(col)).first->second;", '''    auto [it, inserted] = collections_.try_emplace(name, std::move(col));
    (void)inserted;
    return it->second;''')]),
 dict(id="b-remove-find", props=DBS, edits=[(BC, "{ return collections_.erase(name) > 0; }", '''{
    auto it = collections_.find(name);
    if (it == collections_.end())
    {
        return false;
    }
    collections_.erase(it);
    return true;
}''')]),
 dict(id="b-at-find", props=DBS, edits=[(BC, "Collection& Database::at(const std::string& name) { return collections_.at(name); }", '''Collection& Database::at(const std::string& name)
{
    if (!contains(name))
    {
        throw std::out_of_range("no collection " + name);
    }
    return collections_.find(name)->second;
}''')]),
 dict(id="b-contains-find", props=DBS, edits=[(BC, "{ return collections_.contains(name); }", "{ return !(collections_.find(name) == collections_.cend()); }")]),
 # stencil
 dict(id="s-insert-try", props=["C09"], edits=[(SH, "        stencilDB_.emplace(key, value);", "        stencilDB_.try_emplace(key, std::move(value));")]),
 dict(id="s-insert-contains", props=["C09"], edits=[(SH, "        stencilDB_.emplace(key, value);", '''        if (contains(key))
        {
            return;
        }
        stencilDB_[key] = value;''')]),
 dict(id="s-insert-pair", props=["C09"], edits=[(SH, "        stencilDB_.emplace(key, value);", "        stencilDB_.insert({key, std::any(value)});")]),
 dict(id="s-get-idx", props=["C09"], edits=[(SH, '''    T& get(const std::string& key)
    {
        return std::any_cast<T&>(stencilDB_.at(key));''', '''    T& get(const std::string& key)
    {
        std::any& entry = operator[](key);
        return std::any_cast<T&>(entry);''')]),
 # factory
 dict(id="f-entries-iter", props=["C07"], edits=[(F, '''        for (const auto& it : table())
        {
            entries.push_back(it.first);
        }
        return entries;''', '''        const auto& tbl = table();
        entries.reserve(tbl.size());
        for (const auto& [key, creator] : tbl)
        {
            entries.push_back(key);
        }
        return entries;''')]),
 dict(id="f-create-find", props=["C07"], edits=[(F, '''        keyExistsOrError(key);
        auto ptr = table().at(key)(std::forward<Args>(args)...);
        return ptr;''', '''        keyExistsOrError(key);
        const CreatorFunc& creator = table().find(key)->second;
        return creator(std::forward<Args>(args)...);''')]),
 dict(id="f-exists-contains", props=["C07"], edits=[(F, '''        const auto& tbl = table();
        if (tbl.find(name) == tbl.end())
        {
            auto msg''', '''        const auto& tbl = table();
        if (tbl.contains(name))
        {
            return;
        }
        {
            auto msg''')]),
 dict(id="f-add-emplace", props=["C07"], edits=[(F, '''            CreatorFunc func = [](Args... args) -> std::unique_ptr<Base> {
                return static_cast<std::unique_ptr<Base>>(new derivedClass(std::forward<Args>(args
                )...));
            };
            RuntimeSelectionFactory::table()[derivedClass::name()] = func;
''', '''            const std::string key = derivedClass::name();
            RuntimeSelectionFactory::table().insert_or_assign(
                key,
                [](Args... args) -> std::unique_ptr<Base>
                { return std::make_unique<derivedClass>(std::forward<Args>(args)...); }
            );
''')]),
 dict(id="f-add-fnptr", props=["C07"], edits=[(F, '''            childData.doc = []() -> std::string { return derivedClass::doc(); };
            childData.schema = []() -> std::string { return derivedClass::schema(); };''', '''            childData.doc = &derivedClass::doc;
            childData.schema = &derivedClass::schema;''')]),
 dict(id="f-doc-find", props=["C07"], edits=[(F, '''        return docTable().at(derivedClassName).doc();''', '''        const auto it = docTable().find(derivedClassName);
        if (it == docTable().end())
        {
            throw std::out_of_range("no documentation for " + derivedClassName);
        }
        return it->second.doc();''')]),
 dict(id="f-errmsg-helper", props=["C07"], edits=[(F, '''            auto msg = std::string(" Could not find constructor for ") + name + "\\n";
            msg += "valid constructors are: \\n";
            for (const auto& it : tbl)
            {
                msg += " - " + it.first + "\\n";
            }
            NF_ERROR_EXIT(msg);''', '''            std::stringstream msg;
            msg << " Could not find constructor for " << name << "\\n";
            msg << "valid constructors are: \\n";
            for (const auto& it : tbl)
            {
                msg << " - " << it.first << "\\n";
            }
            NF_ERROR_EXIT(msg.str());''')]),
 # input
 dict(id="i-holds", props=["C10"], edits=[(I, "    return std::visit([](const auto& i) { return DataClass::read(i); }, input);", '''    if (std::holds_alternative<Dictionary>(input))
    {
        return DataClass::read(std::get<Dictionary>(input));
    }
    return DataClass::read(std::get<TokenList>(input));''')]),
 dict(id="i-index", props=["C10"], edits=[(I, "    return std::visit([](const auto& i) { return DataClass::read(i); }, input);", '''    if (const auto* dict = std::get_if<Dictionary>(&input))
    {
        return DataClass::read(*dict);
    }
    const TokenList& list = std::get<1>(input);
    return DataClass::read(list);''')]),
 dict(id="i-lambda", props=["C10"], edits=[(I, "    return std::visit([](const auto& i) { return DataClass::read(i); }, input);", '''    auto reader = [](const auto& held) -> DataClass
    {
        return DataClass::read(held);
    };
    DataClass result = std::visit(reader, input);
    return result;''')]),
]
