// Deterministic simulation runtime. See DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace sim {

// ---- randomness streams ------------------------------------------------
uint64_t wrand();                  // workload stream
uint64_t wrand(uint64_t n);        // [0,n)
double wunit();                    // [0,1)
inline int wint(int lo, int hi) { return lo + (int)wrand((uint64_t)(hi - lo + 1)); }
inline bool wcoin(double p = 0.5) { return wunit() < p; }
// Workload operations the minimiser may drop. Call once per generated operation, in order.
bool keep_op();

// A recorded scheduling decision (0 = default), drawn uniformly from [0,n) while searching.
uint32_t choose(const char* kind, uint32_t n);
// As choose, but draws non-zero only with probability p.
uint32_t choose_p(const char* kind, uint32_t n, double p);

// ---- faults ---------------------------------------------------------------
void fault_enable(const char* kind, double p, int max_per_run = 1 << 30);
void fault_nth(const char* kind, uint64_t nth); // the nth decision of this kind from now fires (0: none)
void fault_disable(const char* kind);
void faults_off();                 // all kinds stop firing (ordinals still advance)
void faults_on();
bool fault(const char* kind);      // does it fire here?
uint32_t fault_value(const char* kind, uint32_t n); // 0: no fault, else 1..n
uint64_t fault_count(const char* kind);
uint64_t faults_fired();

// ---- reporting -----------------------------------------------------------
[[noreturn]] void violation(const char* cls, const std::string& msg);
inline void require(bool ok, const char* cls, const std::string& msg)
{
    if (!ok)
        violation(cls, msg);
}
void mix(uint64_t v);              // folds a value into the run's event hash
void mix(const void* p, size_t n);
void mix(const std::string& s);
void probe(const char* name, uint64_t n = 1); // reach counter
void state(uint64_t h);            // a "distinct state" fingerprint (driver counts distinct ones)
void op(const std::string& text);  // human-readable log of workload operations (kept in replay)

// ---- scheduling ------------------------------------------------------------
int self();                        // simulated thread id, 0 = main
void yield();                      // explicit preemption point
void set_workers(int n);           // workers of the simulated parallel-for pool (0 = sequential)
void set_preempt(bool on);         // preemptions on/off (off: runs threads one after another)
void set_rate(uint64_t mean_steps);// mean number of memory accesses between preemptions
void set_race_detect(bool on);
uint64_t steps();
uint64_t switches();
uint64_t now_ns();                 // simulated clock
void advance_ns(uint64_t d);
void set_clock_offset(int64_t ns); // clock jump
uint64_t seq();                    // global event sequence number (increments per call)
bool in_run();
void force_steps(bool on);         // count steps (and allow crashes) even with one busy thread
void crash_at(uint64_t step, int sig); // raise sig in whichever thread runs `step` steps from now
bool crash_pending();
void set_cpu_limit(int seconds);
void set_entropy(uint64_t seed);   // re-seed std::random_device
void set_garbage(uint64_t seed);   // heap-garbage seed
void set_step_cap(uint64_t cap);
uint64_t run_index();
bool replaying();

// disables preemption and race recording for the current thread
struct Quiet {
    Quiet();
    ~Quiet();
};
// an uninstrumented, non-reentrant library: entering while another thread is inside is a violation
struct NonReentrant {
    const char* name;
    int owner = -1;
    int depth = 0;
    const char* fn = "";
    explicit NonReentrant(const char* n) : name(n) {}
    void enter(const char* what);
    void leave();
};

// ---- pool (used by the shadow tbb headers) ---------------------------------
void run_tasks(std::size_t n, const std::function<void(std::size_t)>& task);

// ---- allocation ------------------------------------------------------------
void alloc_fail_at(uint64_t nth);  // the nth operator new from now throws (0: never)
uint64_t alloc_count();            // operator new calls since alloc_count_reset
void alloc_count_reset();
void alloc_limit(size_t bytes);    // a single larger allocation fails (0: none)
bool alloc_failed();               // did alloc_fail_at fire?
size_t alloc_largest();
int64_t live_blocks();             // live operator-new blocks made since track_begin
int64_t live_bytes();
void track_begin();

// allocations of the simulator itself: never failed, never tracked
struct RtAlloc {
    RtAlloc();
    ~RtAlloc();
};

// inside a third-party library: its own allocations are neither counted nor failed
struct LibAlloc {
    LibAlloc();
    ~LibAlloc();
};
bool alloc_point(); // a call into such a library that needs memory: counts as one allocation; true: it fails

// ---- harness ---------------------------------------------------------------
struct Scenario {
    const char* name;
    void (*fn)();
    // called in the parent after the child ended by itself or by a signal; may be null.
    // returns empty if fine, else "class|message".
    std::string (*post)(int wait_status);
    bool own_exit; // the child may die by a signal without this being a violation by itself
};
void add_scenario(const Scenario&);
struct Reg {
    Reg(const char* n, void (*f)(), std::string (*post)(int) = nullptr, bool own_exit = false)
    {
        add_scenario({n, f, post, own_exit});
    }
};
// Runs once in the parent, before the first run (runs are forks of the parent).
struct Prep {
    explicit Prep(void (*f)());
};
// Shared memory that survives the child (for post-mortem checks)
void* shared(size_t bytes);
std::string child_stderr();       // for post: what the child wrote to stderr
int main(int argc, char** argv);
} // namespace sim
