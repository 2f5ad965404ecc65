// Replay harness support: real code against an executable model, random histories from a seed plus the literals
// that occur in the code under test.  A failure prints FAIL, writes the failing history and exits 1.
#pragma once
#include <algorithm>
#include <any>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

namespace H
{
inline uint64_t rngState = 1;
inline uint64_t next()
{
    uint64_t z = (rngState += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline long rnd(long n) { return n <= 0 ? 0 : (long)(next() % (uint64_t)n); }
inline bool chance(long num, long den) { return rnd(den) < num; }
inline double runit() { return (double)(next() >> 11) / 9007199254740992.0; }
template<class V>
auto& pick(V& v) { return v[rnd((long)v.size())]; }

inline std::vector<std::string> strs;   // literals of the code
inline std::vector<long> ints;
inline std::vector<std::string> trace;
inline std::string replayOut;
inline long evaluations = 0, nontrivial = 0;
inline double secs = 5;
inline std::chrono::steady_clock::time_point t0;
inline std::vector<std::string> samples;
inline std::streambuf* realCerr = nullptr;
inline std::ostringstream sink;

inline std::string esc(const std::string& s)
{
    std::string o;
    char b[8];
    for (unsigned char c : s)
    {
        if (c < 32 || c > 126 || c == '"' || c == '\\') { snprintf(b, 8, "\\x%02x", c); o += b; }
        else o += (char)c;
    }
    return o.size() > 120 ? o.substr(0, 120) + "...(" + std::to_string(s.size()) + ")" : o;
}
inline void step(const std::string& s) { trace.push_back(s); if (trace.size() > 100000) trace.erase(trace.begin(), trace.begin() + 50000); }
inline void begin() { trace.clear(); }
inline std::string last() { return trace.empty() ? "start" : trace.back(); }
inline void saveTrace()
{
    if (replayOut.empty()) return;
    std::ofstream f(replayOut);
    size_t n = trace.size();
    for (size_t i = n > 400 ? n - 400 : 0; i < n; i++) f << trace[i] << "\n";
}
[[noreturn]] inline void fail(const std::string& w)
{
    saveTrace();
    printf("FAIL %s\n", w.c_str());
    fflush(stdout);
    _exit(1);
}
inline void check(bool ok, const std::string& what)
{
    ++evaluations;
    if (!ok) fail(what);
}
#ifdef CXV_NOCHECK      // a harness that only watches the memory accesses of the code
#define CHECK(c, w) do { ++H::evaluations; (void)(c); } while (0)
#else
#define CHECK(c, w) do { ++H::evaluations; if (!(c)) H::fail(std::string(w)); } while (0)
#endif
inline void onCrash(int)
{
    saveTrace();
    const char m[] = "FAIL the real code crashed\n";
    (void)!write(1, m, sizeof m - 1);
    _exit(1);
}
inline bool timeUp() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs; }
inline std::string unesc(const std::string& s)
{
    std::string o;
    for (size_t i = 0; i < s.size(); i++)
    {
        if (s[i] == '\\' && i + 1 < s.size())
        {
            char c = s[++i];
            if (c == 'n') o += '\n';
            else if (c == 't') o += '\t';
            else if (c == 'x' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
            else o += c;
        }
        else o += s[i];
    }
    return o;
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_set_death_callback(void (*)(void));
#endif
inline void sanDeath()
{
    saveTrace();
    const char m[] = "\nFAIL the sanitizer found undefined behaviour in the run\n";
    (void)!write(1, m, sizeof m - 1);
}
// f must throw exactly E
template<class E, class F>
bool throws(F f)
{
    try { f(); }
    catch (const std::exception& e) { return typeid(e) == typeid(E); }
    catch (...) { return false; }
    return false;
}
inline void init(int argc, char** argv)
{
    std::string lits;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") rngState = strtoull(v.c_str(), 0, 10) * 7919 + 13;
        if (a == "--secs") secs = atof(v.c_str());
        if (a == "--lits") lits = v;
        if (a == "--replay-out") replayOut = v;
    }
    std::ifstream f(lits);
    for (std::string l; std::getline(f, l);)
    {
        if (l.rfind("S ", 0) == 0) strs.push_back(unesc(l.substr(2)));
        if (l.rfind("I ", 0) == 0) ints.push_back(atol(l.c_str() + 2));
    }
    t0 = std::chrono::steady_clock::now();
#if defined(__SANITIZE_ADDRESS__)
    __asan_set_death_callback(sanDeath);
#endif
    setvbuf(stdout, nullptr, _IOLBF, 0);
    realCerr = std::cerr.rdbuf(sink.rdbuf());   // the code logs to std::cerr
    std::set_terminate([] { saveTrace(); printf("FAIL the real code terminated with an unexpected exception\n"); fflush(stdout); _exit(1); });
}
inline int finish()
{
    printf("STATS {\"evaluations\": %ld, \"nontrivial\": %ld, \"samples\": [", evaluations, nontrivial);
    for (size_t i = 0; i < samples.size() && i < 4; i++)
    {
        std::string o;
        for (char c : samples[i]) { if (c == '"' || c == '\\') o += '\\'; o += (c == '\n') ? ' ' : c; }
        printf("%s\"%s\"", i ? ", " : "", o.c_str());
    }
    printf("]}\n");
    return 0;
}
inline void sample()
{
    if (samples.size() >= 4 || trace.empty()) return;
    std::string s;
    for (auto& t : trace) { s += t + "; "; if (s.size() > 400) { s += "..."; break; } }
    samples.push_back(s);
}

// ---- generators
inline std::string rstr()
{
    sink.str("");
    static const std::vector<std::string> pool {
        "", "a", "b", "ab", "A", "id", "name", "key", "key1", "key2", " ", "doc_0", "doc_1", "doc_2", "x y", "a\nb", "0", "-1", "p", "U", "nOldTimes", "0123456789abcdef0123456789abcdef"};
    long k = rnd(20);
    if (k < 9) return pool[rnd((long)pool.size())];
    if (k < 12 && !strs.empty()) return pick(strs);
    if (k < 13 && !strs.empty()) return pick(strs) + pick(strs);
    if (k < 14 && !strs.empty()) return pool[rnd((long)pool.size())] + pick(strs);
    if (k < 15 && !strs.empty()) return pick(strs) + pool[rnd((long)pool.size())];
    if (k < 16 && !ints.empty())
    {
        long n = pick(ints) + rnd(3) - 1;
        return std::string(n < 0 ? 0 : (n > 3000 ? 3000 : n), (char)('a' + rnd(26)));
    }
    if (k < 17) return "k" + std::to_string(rnd(2000));
    std::string s;
    for (long n = rnd(k < 19 ? 6 : 70); n > 0; n--) s += (char)(rnd(8) ? 32 + rnd(95) : rnd(256));
    return s;
}
inline long rint_()
{
    long k = rnd(12);
    if (k < 4) return rnd(8) - 2;
    if (k < 7 && !ints.empty()) return pick(ints) + rnd(3) - 1;
    if (k < 9) return rnd(1000) - 500;
    if (k < 10) return (long)(int32_t)next();
    return rnd(100);
}
// a size: mostly small, sometimes around literals of the code or large
inline long rsize(long big = 300)
{
    long k = rnd(12);
    if (k < 7) return rnd(6);
    if (k < 10 && !ints.empty()) { long v = pick(ints) + rnd(3) - 1; if (v >= 0 && v <= 5000) return v; }
    if (k < 11) return rnd(40);
    return rnd(big);
}
}
