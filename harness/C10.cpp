#include "anyval.hpp"
#include "NeoFOAM/core/input.hpp"
using namespace H;
using namespace NeoFOAM;
static long reads = 0;
// readers that keep what they are given
struct Both
{
    int from = 0; Dictionary d; TokenList t; long extra = 0;
    static Both read(const Dictionary& i) { ++reads; Both b; b.from = 1; b.d = i; return b; }
    static Both read(const TokenList& i) { ++reads; Both b; b.from = 2; b.t = i; return b; }
};
struct MoveOnly
{
    std::unique_ptr<int> from; Dictionary d; TokenList t;
    static MoveOnly read(const Dictionary& i) { ++reads; MoveOnly b; b.from = std::make_unique<int>(1); b.d = i; return b; }
    static MoveOnly read(const TokenList& i) { ++reads; MoveOnly b; b.from = std::make_unique<int>(2); b.t = i; return b; }
};
struct Odd {};
static int toss = 0;
static void doToss()
{
    switch (toss)
    {
        case 0: throw std::runtime_error("r");
        case 1: throw std::bad_any_cast();
        case 2: throw std::out_of_range("o");
        case 3: throw std::bad_variant_access();
        default: throw Odd();
    }
}
struct Bad { static Bad read(const Dictionary&) { ++reads; doToss(); return {}; } static Bad read(const TokenList&) { ++reads; doToss(); return {}; } };

using DM = std::vector<std::pair<std::string, Val>>;
static void same(const Dictionary& d, const DM& m, const char* what)
{
    CHECK(d.keys().size() == m.size(), std::string(what) + ": other number of entries");
    for (auto& [k, v] : m) CHECK(d.contains(k) && v.eq(d[k]), std::string(what) + ": entry \"" + esc(k) + "\" differs");
}
static void same(TokenList t, const std::vector<Val>& m, const char* what)
{
    CHECK(t.size() == m.size(), std::string(what) + ": other number of tokens");
    for (size_t i = 0; i < m.size(); i++) CHECK(m[i].eq(t.tokens()[i]), std::string(what) + ": token " + std::to_string(i) + " differs");
}
template<class C, class I>
static C doRead(const I& i)
{
    long b = reads;
    C c = chance(1, 3) ? NeoFOAM::read<C>(I(i)) : NeoFOAM::read<C>(i);
    CHECK(reads == b + 1, "not exactly one reader ran but " + std::to_string(reads - b));
    return c;
}
static int from(const Both& b) { return b.from; }
static int from(const MoveOnly& b) { return b.from ? *b.from : 0; }
template<class C, class I>
static void one(const I& in, int alt, const DM& dm, const std::vector<Val>& tm)
{
    C c = doRead<C>(in);
    CHECK(from(c) == alt, "the reader of the other alternative ran");
    if (alt == 1) same(c.d, dm, "the dictionary read");
    else same(c.t, tm, "the token list read");
}
int main(int argc, char** argv)
{
    init(argc, argv);
    while (!timeUp())
    {
        begin();
        Dictionary d;
        TokenList t;
        DM dm;
        std::vector<Val> tm;
        for (long n = rsize(20); n > 0; n--)
        {
            auto k = rstr();
            Val v = rval();
            if (!d.contains(k)) { d.insert(k, v.a); dm.emplace_back(k, v); }
        }
        for (long n = rsize(30); n > 0; n--)
        {
            Val v = rval();
            t.insert(v.a);
            tm.push_back(v);
        }
        bool isD = chance(1, 2);
        step(std::string("read ") + (isD ? "a dictionary with " + std::to_string(dm.size()) + " entries" : "a list of " + std::to_string(tm.size()) + " tokens"));
        Input in = isD ? Input(d) : Input(t);
        switch (rnd(5))
        {
            case 0: one<Both>(in, isD ? 1 : 2, dm, tm); break;
            case 1: one<MoveOnly>(in, isD ? 1 : 2, dm, tm); break;
            case 2: if (isD) one<Both>(d, 1, dm, tm); else one<Both>(t, 2, dm, tm); break;
            case 3:
            {
                long b = reads;
                toss = (int)rnd(5);
                int got = -1;
                try { (void)NeoFOAM::read<Bad>(in); }
                catch (const std::bad_any_cast&) { got = 1; }
                catch (const std::bad_variant_access&) { got = 3; }
                catch (const std::runtime_error&) { got = 0; }
                catch (const std::out_of_range&) { got = 2; }
                catch (const Odd&) { got = 4; }
                catch (...) { got = 9; }
                CHECK(got == toss, "the reader's exception is not passed on");
                CHECK(reads == b + 1, "a failing reader ran " + std::to_string(reads - b) + " times");
                break;
            }
            default: one<Both>(in, isD ? 1 : 2, dm, tm); one<MoveOnly>(in, isD ? 1 : 2, dm, tm);
        }
        CHECK(in.index() == (isD ? 0u : 1u), "the caller's input changed its alternative");
        if (isD) same(std::get<Dictionary>(in), dm, "the caller's input");
        else same(std::get<TokenList>(in), tm, "the caller's input");
        same(d, dm, "the caller's dictionary");
        same(t, tm, "the caller's token list");
        nontrivial++;
        sample();
    }
    return finish();
}
