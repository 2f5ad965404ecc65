// C27: halo buffers of several simulated ranks in one process (MPI replaced by a mailbox), against a byte model
#define NF_DEBUG
#define NF_WITH_MPI_SUPPORT
#include "h.hpp"
#include <complex>
#include <span>
#include "NeoFOAM/core/mpi/fullDuplexCommBuffer.hpp"
#include "src/core/mpi/halfDuplexCommBuffer.cpp"
using namespace H;
using namespace NeoFOAM;
struct Aborted {};
struct Post { bool send; const char* s; char* r; int n, type, from, to, tag; bool done; };
std::vector<Post> posts;
int worldSize = 1;
bool hold = false;          // nothing completes while held
namespace NeoFOAMmpi
{
int MPI_Init(int*, char***) { return 0; }
int MPI_Init_thread(int*, char***, int, int*) { return 0; }
int MPI_Finalize() { return 0; }
int MPI_Abort(MPI_Comm, int) { throw Aborted {}; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = c - 1000; return 0; }
int MPI_Comm_size(MPI_Comm, int* n) { *n = worldSize; return 0; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int to, int tag, MPI_Comm c, MPI_Request* q) { posts.push_back({true, (const char*)b, nullptr, n, t, c - 1000, to, tag, false}); *q = (int)posts.size(); return 0; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int from, int tag, MPI_Comm c, MPI_Request* q) { posts.push_back({false, nullptr, (char*)b, n, t, from, c - 1000, tag, false}); *q = (int)posts.size(); return 0; }
int MPI_Test(MPI_Request* q, int* f, MPI_Status*)
{
    *f = 1;
    if (*q == MPI_REQUEST_NULL) return 0;
    Post& p = posts[*q - 1];
    if (!p.done && !hold && !chance(1, 3))
        for (auto& o : posts)
            if (!o.done && o.send != p.send && o.from == p.from && o.to == p.to && o.tag == p.tag && o.n == p.n)
            {
                Post &s = p.send ? p : o, &r = p.send ? o : p;
                memcpy(r.r, s.s, s.n);
                o.done = p.done = true;
                break;
            }
    *f = p.done;
    if (*f) *q = MPI_REQUEST_NULL;
    return 0;
}
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm) { return 0; }
}
template<class F> bool stops(F f) { try { f(); } catch (Aborted&) { return true; } return false; }
template<class T> T value(uint64_t x) { T t {}; std::vector<unsigned char> b(sizeof(T)); if constexpr (std::is_same_v<T, double>) return (double)(x % 100003); else if constexpr (std::is_same_v<T, Vector>) return Vector(x % 1009, x % 997, x % 13); else return (T)x; }
using Half = mpi::HalfDuplexCommBuffer;

/* the slots of one half: sizes, disjointness, independence */
template<class T, class G>
void slots(G get, const std::vector<size_t>& n, size_t capacity, const std::string& w)
{
    std::vector<std::pair<char*, char*>> r;
    size_t total = 0;
    for (size_t i = 0; i < n.size(); i++)
    {
        std::span<T> s = get(i);
        CHECK(s.size() == n[i], w + ": slot of rank " + std::to_string(i) + " has " + std::to_string(s.size()) + " elements instead of " + std::to_string(n[i]));
        r.push_back({(char*)s.data(), (char*)(s.data() + s.size())});
        total += n[i] * sizeof(T);
    }
    char *lo = nullptr, *hi = nullptr;
    size_t used = 0;
    for (size_t i = 0; i < r.size(); i++)
    {
        if (r[i].first == r[i].second) continue;
        used += r[i].second - r[i].first;
        if (!lo || r[i].first < lo) lo = r[i].first;
        if (!hi || r[i].second > hi) hi = r[i].second;
        for (size_t j = 0; j < i; j++)
            CHECK(r[j].first == r[j].second || r[i].second <= r[j].first || r[j].second <= r[i].first, w + ": slots of ranks " + std::to_string(j) + " and " + std::to_string(i) + " overlap");
    }
    CHECK(used == total && (!lo || (size_t)(hi - lo) == total), w + ": the slots do not use exactly the announced total");
    (void)capacity;
    // writing one changes no other (the address sanitizer watches the block's bounds)
    for (size_t i = 0; i < n.size(); i++) for (size_t k = 0; k < n[i]; k++) get(i)[k] = value<T>(i * 1000 + k);
    for (size_t i = 0; i < n.size(); i++) for (size_t k = 0; k < n[i]; k++) { T e = value<T>(i * 1000 + k); CHECK(memcmp(&get(i)[k], &e, sizeof(T)) == 0, w + ": a slot was changed by writing another"); }
}
std::vector<size_t> sizes(size_t n)
{
    std::vector<size_t> v(n);
    for (auto& x : v) x = chance(1, 4) ? 0 : chance(1, 20) ? rnd(2000) : rnd(9);
    return v;
}
std::string show(const std::vector<size_t>& v) { std::string s = "{"; for (auto x : v) s += std::to_string(x) + " "; return s + "}"; }
template<class F> void withType(int k, F f)
{
    if (k == 0) f(char {}, "char"); else if (k == 1) f(int {}, "int"); else if (k == 2) f(double {}, "double"); else f(Vector(0, 0, 0), "Vector");
}

void single()
{
    worldSize = 1 + rnd(chance(1, 5) ? 40 : 5);
    mpi::MPIEnvironment env(1000 + rnd(worldSize));
    CHECK((int)env.sizeRank() == worldSize, "sizeRank");
    std::vector<size_t> n = sizes(worldSize);
    step("HalfDuplexCommBuffer of " + show(n));
    Half b(env, n);
    bool inited = false;
    int cur = 0;
    for (int k = 0, e = 2 + rnd(8); k < e; k++)
    {
        if (inited)
        {
            CHECK(stops([&] { b.initComm<double>("again"); }), last() + ": re-initialised while under way");
            CHECK(stops([&] { b.setCommRankSize<int>(n); }), last() + ": resized while under way");
            withType((cur + 1 + rnd(3)) % 4, [&](auto t, const char* nm) { CHECK(stops([&] { (void)b.get<decltype(t)>(0); }), last() + ": get<" + nm + "> although another type was initialised"); });
            withType(cur, [&](auto t, const char* nm) {
                using T = decltype(t);
                slots<T>([&](size_t i) { return b.get<T>(i); }, n, 0, last());
                const Half& c = b;
                for (size_t i = 0; i < n.size(); i++) { auto s = c.get<T>(i); CHECK(s.size() == n[i] && (const void*)s.data() == (const void*)b.get<T>(i).data(), last() + ": const get differs"); }
            });
            step("finaliseComm");
            b.finaliseComm();
            CHECK(!b.isCommInit(), "still under way after finaliseComm");
            inited = false;
        }
        else
        {
            CHECK(stops([&] { (void)b.get<char>(0); }) && stops([&] { b.send(); }) && stops([&] { b.receive(); }) && stops([&] { b.finaliseComm(); }) && stops([&] { (void)b.isComplete(); }), last() + ": used before initialisation");
            if (chance(1, 3))
            {
                auto m = sizes(worldSize + 1 + rnd(2));
                CHECK(stops([&] { b.setCommRankSize<double>(m); }), last() + ": accepted a wrong number of sizes");
            }
            if (chance(1, 2))
            {
                n = sizes(worldSize);
                withType(rnd(4), [&](auto t, const char* nm) { step(std::string("setCommRankSize<") + nm + "> " + show(n)); b.setCommRankSize<decltype(t)>(n); });
            }
            cur = rnd(4);
            withType(cur, [&](auto t, const char* nm) { step(std::string("initComm<") + nm + ">"); b.initComm<decltype(t)>("comm" + std::to_string(rnd(1000))); });
            CHECK(b.isCommInit(), last() + ": not under way");
            inited = true;
        }
    }
    if (worldSize > 1) ++nontrivial;
}

void exchange()
{
    worldSize = 1 + rnd(5);
    const int P = worldSize;
    posts.clear();
    std::vector<std::vector<size_t>> n(P);
    for (auto& x : n) x = sizes(P);
    std::vector<mpi::FullDuplexCommBuffer> b;
    for (int r = 0; r < P; r++)
    {
        std::vector<size_t> rec(P);
        for (int q = 0; q < P; q++) rec[q] = n[q][r];
        step("rank " + std::to_string(r) + " sends " + show(n[r]) + " receives " + show(rec));
        b.emplace_back(mpi::MPIEnvironment(1000 + r), n[r], rec);
    }
    for (int round = 0; round < 2; round++)
        withType(rnd(4), [&](auto t, const char* nm) {
            using T = decltype(t);
            step(std::string("exchange of ") + nm);
            for (auto& x : b) x.initComm<T>(std::string("halo ") + nm);
            for (int r = 0; r < P; r++)
            {
                slots<T>([&](size_t i) { return b[r].getSend<T>(i); }, n[r], 0, last() + " send");
                std::vector<size_t> rec(P);
                for (int q = 0; q < P; q++) rec[q] = n[q][r];
                slots<T>([&](size_t i) { return b[r].getReceive<T>(i); }, rec, 0, last() + " receive");
                for (int q = 0; q < P; q++) for (size_t k = 0; k < n[r][q]; k++) b[r].getSend<T>(q)[k] = value<T>(r * 7919 + q * 101 + k);
            }
            hold = true;
            posts.clear();
            for (auto& x : b) x.startComm();
            bool any = false;
            for (int r = 0; r < P; r++)
            {
                bool mine = false;
                for (auto& p : posts) mine |= (p.send ? p.from : p.to) == r;
                any |= mine;
                if (!mine) continue;
                CHECK(!b[r].isComplete(), last() + ": complete while messages are pending");
                auto y = b[r];
                CHECK(stops([&] { y.finaliseComm(); }), last() + ": finalised while messages are pending");
            }
            hold = false;
            for (int k = 0; k < 2000; k++) for (auto& x : b) (void)x.isComplete();
            for (int r = 0; r < P; r++)
            {
                CHECK(b[r].isComplete(), last() + ": some message has no matching partner");
                b[r].waitComplete();
                for (int q = 0; q < P; q++) for (size_t k = 0; k < n[q][r]; k++) { T e = value<T>(q * 7919 + r * 101 + k); CHECK(memcmp(&b[r].getReceive<T>(q)[k], &e, sizeof(T)) == 0, last() + ": rank " + std::to_string(r) + " received something else from rank " + std::to_string(q)); }
                b[r].finaliseComm();
            }
            if (any) ++nontrivial;
        });
}
int main(int argc, char** argv)
{
    H::init(argc, argv);
    do
    {
        begin();
        single();
        begin();
        exchange();
    } while (!timeUp());
    printf("STATS {\"evaluations\": %ld, \"nontrivial\": %ld}\n", evaluations, nontrivial);
}
