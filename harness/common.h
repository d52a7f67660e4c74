#pragma once
#include <atomic>
#include <filesystem>
#include <iostream>
#include <mutex>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
// (huira's headers rely on the above being included first)
#include "rt.h"
#include <algorithm>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <thread>
#include <vector>

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
    char b[2048];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}
inline uint64_t hash64(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}
inline uint64_t hash_str(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}
template <class C> const typename C::value_type& pick(const C& c) { return c[sim::wrand(c.size())]; }
// keeps huira's logger from replacing the signal handlers of a run
struct KeepSignals {
    struct sigaction old[6];
    static constexpr int sig[6] = {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGTERM};
    std::terminate_handler t;
    KeepSignals()
    {
        for (int i = 0; i < 6; ++i)
            sigaction(sig[i], nullptr, &old[i]);
        t = std::get_terminate();
    }
    ~KeepSignals()
    {
        for (int i = 0; i < 6; ++i)
            sigaction(sig[i], &old[i], nullptr);
        std::set_terminate(t);
    }
};
