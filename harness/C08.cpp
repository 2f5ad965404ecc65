#include "anyval.hpp"
#include "NeoFOAM/core/tokenList.hpp"
#include "NeoFOAM/core/dictionary.hpp"
using namespace H;
using NeoFOAM::TokenList;
struct M { TokenList t; std::vector<Val> v; size_t cur = 0; };
static M* X;
static void same(M& x)
{
    const TokenList& c = x.t;
    CHECK(c.size() == x.v.size() && c.empty() == x.v.empty(), "size()/empty() disagree with the sequence after " + last());
    CHECK(x.t.tokens().size() == x.v.size(), "tokens() has the wrong length after " + last());
    for (size_t i = 0; i < x.v.size(); i++) CHECK(x.v[i].eq(x.t.tokens()[i]), "token " + std::to_string(i) + " is wrong after " + last());
}
static Val listVal()
{
    int a = (int)rint_();
    long n = rnd(3);
    std::vector<std::any> in(n, std::any(a));
    Val v;
    v.a = TokenList(in, rnd(3));
    v.kind = 100;
    v.show = "TokenList of " + std::to_string(n);
    v.eq = [n, a](const std::any& x)
    {
        auto p = std::any_cast<TokenList>(&x);
        if (!p || (long)p->size() != n) return false;
        TokenList c(*p);
        for (auto& e : c.tokens()) { auto q = std::any_cast<int>(&e); if (!q || *q != a) return false; }
        return true;
    };
    return v;
}
template<class T>
static void read(int kind, size_t idx, T fresh, Val fv)
{
    M& x = *X;
    const TokenList& c = x.t;
    auto outcome = [&](size_t i) { return i >= x.v.size() ? 2 : x.v[i].kind == kind ? 1 : 3; };
    auto run = [&](auto f, const char* w, int want)
    {
        int got = 0;
        try { f(); got = 1; }
        catch (const std::bad_cast&) { got = 3; }
        catch (const std::out_of_range&) { got = 2; }
        catch (...) { got = 4; }
        CHECK(got == want, std::string(w) + ": outcome " + std::to_string(got) + " instead of " + std::to_string(want) + " (1 value, 2 out of range, 3 bad cast)");
    };
    long op = rnd(5);
    if (op == 0)
    {
        step("get(" + std::to_string(idx) + ")");
        const T* p = nullptr;
        run([&] { p = &x.t.get<T>(idx); }, "get", outcome(idx));
        if (p) { CHECK(p == std::any_cast<T>(&x.t.tokens()[idx]), "get refers to another token"); x.t.get<T>(idx) = fresh; x.v[idx] = fv; }
    }
    else if (op == 1)
    {
        step("get(" + std::to_string(idx) + ") const");
        const T* p = nullptr;
        run([&] { p = &c.get<T>(idx); }, "const get", outcome(idx));
        if (p) CHECK(p == std::any_cast<T>(&x.t.tokens()[idx]), "const get refers to another token");
    }
    else if (op == 2 || op == 3)
    {
        step(op == 2 ? "next()" : "next() const");
        const T* p = nullptr;
        int o = outcome(x.cur);
        run([&] { p = op == 2 ? &x.t.next<T>() : &c.next<T>(); }, "next", o);
        if (p) { CHECK(p == std::any_cast<T>(&x.t.tokens()[x.cur]), "next returned another token"); x.cur++; }
    }
    else
    {
        step("popFront()");
        int o = outcome(0);
        std::any got;
        run([&] { got = std::any(x.t.popFront<T>()); }, "popFront", o);
        if (o == 1) { CHECK(x.v[0].eq(got), "popFront returned something else than the first token"); x.v.erase(x.v.begin()); }
    }
}
int main(int argc, char** argv)
{
    init(argc, argv);
    while (!timeUp())
    {
        begin();
        std::vector<M> xs;
        std::vector<std::any> in;
        std::vector<Val> vs;
        for (long n = rsize(40); n > 0; n--) { auto v = chance(1, 5) ? listVal() : rval(); vs.push_back(v); in.push_back(v.a); }
        long mode = rnd(3);
        if (mode == 0) { size_t c = rnd(4); xs.push_back({TokenList(in, c), vs, c}); step("TokenList(" + std::to_string(in.size()) + " tokens, cursor " + std::to_string(c) + ")"); }
        else if (mode == 1)
        {
            Val a = rval(), b = listVal();
            xs.push_back({TokenList({a.a, b.a}), {a, b}, 0});
            step("TokenList{" + a.show + ", " + b.show + "}");
        }
        else { xs.push_back({TokenList(), {}, 0}); step("TokenList()"); }
        same(xs[0]);
        bool interesting = false;
        for (long o = 1 + rnd(chance(1, 20) ? 200 : 40); o > 0; o--)
        {
            size_t w = rnd(xs.size());
            M& x = xs[w];
            X = &x;
            long op = rnd(10);
            if (op < 3) { Val v = chance(1, 5) ? listVal() : rval(); step("insert " + v.show); x.t.insert(v.a); x.v.push_back(v); }
            else if (op == 3 && !x.v.empty()) { size_t i = rnd(x.v.size()); step("remove(" + std::to_string(i) + ")"); x.t.remove(i); x.v.erase(x.v.begin() + i); interesting = true; }
            else if (op == 4 && xs.size() < 3) { step("copy"); M c {TokenList(x.t), x.v, x.cur}; xs.push_back(c); }
            else
            {
                size_t i = x.v.empty() ? rnd(2) : rnd(x.v.size() + 1);
                size_t aim = chance(1, 3) ? x.cur : chance(1, 2) ? 0 : i;
                int kind = aim < x.v.size() && chance(2, 3) ? x.v[aim].kind : (int)rnd(4);
                long iv = rint_();
                interesting = true;
                switch (kind)
                {
                    case KInt: read<int>(KInt, i, (int)iv, mk<int>((int)iv, KInt, "int")); break;
                    case KDouble: read<double>(KDouble, i, iv * 0.25, mk<double>(iv * 0.25, KDouble, "double")); break;
                    case KString: { auto s = rstr(); read<std::string>(KString, i, s, mk<std::string>(s, KString, "string")); break; }
                    case KOpaque: { Opaque q {iv, rstr()}; read<Opaque>(KOpaque, i, q, mk<Opaque>(q, KOpaque, "opaque")); break; }
                    case KVec: { std::vector<int> q(rnd(4), (int)iv); read<std::vector<int>>(KVec, i, q, mk<std::vector<int>>(q, KVec, "vec")); break; }
                    case 100: { Val v = listVal(); read<TokenList>(100, i, std::any_cast<TokenList>(v.a), v); break; }
                    default: read<size_t>(KSize, i, (size_t)iv, mk<size_t>((size_t)iv, KSize, "size_t")); break;
                }
            }
            for (auto& y : xs) same(y);
        }
        nontrivial += interesting;
        if (interesting) sample();
    }
    return finish();
}
