// Common part of the replay harnesses: they run the real code of /repo on
// concrete inputs (exhaustive small ones, then seeded random ones) and compare
// with an independent statement of the property.
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

namespace rp {
inline uint64_t seed = 1;
inline bool thorough = false;
inline double budget = 20;     // seconds
inline uint64_t cases = 0, nontrivial = 0;
inline std::mt19937_64 rng;
inline std::vector<std::string> samples;
inline std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
inline int failures = 0;
inline std::string mode;

inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline bool time_left(double frac = 1.0) { return elapsed() < budget * frac; }
inline uint64_t rnd(uint64_t lo, uint64_t hi) { return lo >= hi ? lo : lo + rng() % (hi - lo + 1); }
inline bool coin(int n = 2) { return rng() % n == 0; }
template<class T> inline const T& pick(const std::vector<T>& v) { return v[rng() % v.size()]; }

inline char at_buf[4096];
// what is being run: reported when the run is ended by a sanitizer
inline void at(const std::string& s) { size_t n = std::min(s.size(), sizeof at_buf - 1); memcpy(at_buf, s.data(), n); at_buf[n] = 0; }
inline void on_death() { if (at_buf[0]) { std::string s = std::string("AT\t") + at_buf + "\n"; (void)!::write(1, s.data(), s.size()); } }
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
inline void hook_death() { __sanitizer_set_death_callback(on_death); }
#else
inline void hook_death() {}
#endif

inline void init(int argc, char** argv)
{
    hook_death();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--thorough") thorough = true;
        else if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
        else if (a == "--budget") budget = atof(argv[++i]);
        else mode = a;
    }
    rng.seed(seed);
}

// a failing input: written once per kind; the first ones are enough
inline void fail(const std::string& what, const std::string& input)
{
    std::cout << "FAIL\t" << what << "\t" << input << std::endl;
    if (++failures >= 5) {
        std::cout << "CASES\t" << cases << "\t" << nontrivial << std::endl;
        std::_Exit(1);
    }
}

inline void sample(const std::string& s) { if (samples.size() < 4) samples.push_back(s); }

inline int finish()
{
    for (auto& s : samples) std::cout << "SAMPLE\t" << s << "\n";
    std::cout << "CASES\t" << cases << "\t" << nontrivial << std::endl;
    return failures ? 1 : 0;
}
} // namespace rp
