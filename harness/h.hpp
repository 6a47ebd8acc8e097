// Shared by the concrete replay / stand-in harnesses.  Each case is derived from (seed, case number).
#ifndef VERIF_H
#define VERIF_H
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
namespace vh {
    struct rng {
        uint64_t s;
        explicit rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { next(); next(); }
        uint64_t next() {
            s += 0x9E3779B97F4A7C15ULL;
            uint64_t z = s;
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
            return z ^ (z >> 31);
        }
        uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
        bool chance(unsigned pct) { return below(100) < pct; }
        template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    };
    inline std::vector<std::string>& trace() { static std::vector<std::string> t; return t; }
    inline uint64_t& evals() { static uint64_t e = 0; return e; }
    inline uint64_t cur_seed = 0, cur_case = 0;
    inline void log(const std::string& s) { trace().push_back(s); }
    template<class... A> void logf(A... a) { std::ostringstream o; ((o << a << ' '), ...); trace().push_back(o.str()); }
    [[noreturn]] inline void fail(const std::string& what) {
        std::printf("FAIL: %s\n", what.c_str());
        std::printf("CASE: --seed %llu --case %llu\n", (unsigned long long)cur_seed, (unsigned long long)cur_case);
        for(auto& t : trace()) std::printf("  | %s\n", t.c_str());
        std::fflush(stdout);
        std::_Exit(1);
    }
    inline void check(bool c, const std::string& what) { evals()++; if(!c) fail(what); }
    inline int main_loop(int argc, char** argv, const std::function<void(rng&)>& one) {
        uint64_t seed = 1, only = UINT64_MAX; double secs = 5; uint64_t maxc = UINT64_MAX;
        for(int i = 1; i + 1 < argc; i += 2) {
            std::string a = argv[i];
            if(a == "--seed") seed = std::strtoull(argv[i + 1], nullptr, 10);
            if(a == "--case") only = std::strtoull(argv[i + 1], nullptr, 10);
            if(a == "--secs") secs = std::strtod(argv[i + 1], nullptr);
            if(a == "--max") maxc = std::strtoull(argv[i + 1], nullptr, 10);
        }
        cur_seed = seed;
        auto t0 = std::chrono::steady_clock::now();
        uint64_t n = 0;
        std::unordered_set<std::string> distinct;
        std::string sample;
        for(uint64_t c = (only == UINT64_MAX ? 0 : only); c < maxc; c++) {
            cur_case = c;
            trace().clear();
            rng r(seed * 1000003ULL + c);
            one(r);
            n++;
            std::string key;
            for(auto& t : trace()) key += t + ";";
            if(distinct.size() < 200000) distinct.insert(std::to_string(std::hash<std::string>{}(key)));
            if(sample.empty() && c >= 3) sample = key.substr(0, 600);
            if(only != UINT64_MAX) break;
            if(std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
        }
        std::printf("CASES %llu DISTINCT %zu EVALS %llu\nSAMPLE %s\nPASS\n", (unsigned long long)n, distinct.size(), (unsigned long long)evals(), sample.c_str());
        return 0;
    }
}
#endif
