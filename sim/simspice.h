// Simulated CSPICE: non-reentrant, static error state, kernels in simfs, analytic ephemerides.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace simspice {
void reset();
struct Load {
    std::string given, path; // as passed, and absolute
    bool ok;
    int thread;
    uint64_t seq;
};
const std::vector<Load>& loads();          // every furnsh_c, in order (nested ones too)
std::vector<std::string> loaded();         // kernels currently in force
bool lsk_loaded();
int lsk_offset();                          // of the last LSK loaded
// per simulated thread: outcome of its calls, in order
struct Call {
    std::string fn, error; // error empty: fine
    int thread;
    uint64_t enter, leave;
};
const std::vector<Call>& calls();
size_t calls_of(int thread);
std::string last_error_of(int thread, size_t from); // first error among this thread's calls since `from`, or ""
void raise(const char* shortmsg, const char* longmsg); // leave an error pending, as another user of CSPICE would
bool pending();
std::string action();
void set_action(const char* a);
// builtin truth: what the library answers (no errors), SI conversions left to the caller
bool state_of(const std::string& body, double et, double out[6]);  // km, km/s, J2000, SSB
bool frame_of(const std::string& frame, double et, double R[3][3], double av[3]); // J2000 -> frame, av in J2000
// elements as conics_c takes them: rp, ecc, inc, lnode, argp, m0, t0, mu (km, rad, s)
void conic_of(const double el[8], double et, double out[6]);
double et_of_utc_seconds(double s, int offset);   // seconds past J2000 UTC -> ET
void add_body(const std::string& name, double t0, double t1, double scale_km);
void fail_nth(uint64_t n);                 // the n-th state/orientation query from now fails (0: none)
uint64_t queries();
void kernel(const std::string& path, const std::string& text); // puts a kernel file on the simulated disk
} // namespace simspice
