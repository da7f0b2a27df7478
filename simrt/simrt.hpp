// simrt: a deterministic simulator for the vif library.
//
// One run is a pure function of three choice tapes (workload, schedule, faults), each drawn
// from one seed.  The harness calls sim::process() to run code as a simulated process (a forked
// child) in which every thread, lock, atomic, clock, sleep, allocation and file operation goes
// through the simulator.
#ifndef SIMRT_HPP
#define SIMRT_HPP

#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>
#include <string>

namespace sim {
    enum stream_t { WORK = 0, SCHED = 1, FAULT = 2, NSTREAM = 3 };

    // ---- choices ------------------------------------------------------------------------
    /// Draw an integer in [0,n). Zero is always the simplest choice.
    uint32_t draw(stream_t s, uint32_t n);
    inline uint32_t work(uint32_t n) { return draw(WORK, n); }
    /// Draw in [lo,hi] (simplest: lo)
    inline uint32_t work(uint32_t lo, uint32_t hi) { return lo + draw(WORK, hi-lo+1); }
    /// True with probability num/den (simplest: false)
    inline bool chance(uint32_t num, uint32_t den) { return draw(WORK, den) >= den-num; }
    inline bool fault_chance(uint32_t num, uint32_t den) { return draw(FAULT, den) >= den-num; }

    // ---- reporting ----------------------------------------------------------------------
    /// Report a violation of the property and stop the run.
    /// 'cls' identifies the kind of violation, it is kept constant by the minimiser.
    [[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf,2,3)));
    /// Mix something observable in the hash of the history.
    void note(uint64_t v);
    void note(const std::string& s);
    /// Human readable trace, kept only when replaying with --trace.
    void trace(const char* fmt, ...) __attribute__((format(printf,1,2)));
    /// Count how many times a rare condition was reached.
    void probe(const char* name, uint64_t n = 1);
    /// Short textual description of this run's workload (shown as a sample in the evidence)
    void describe(const char* fmt, ...) __attribute__((format(printf,1,2)));
    /// Say that this run exercised the property (the others are counted as trivial).
    void nontrivial();

    // ---- shared memory ------------------------------------------------------------------
    /// Memory shared between the harness and the simulated processes, zeroed at each run.
    void* shared_alloc(std::size_t n);
    template<typename T> T* shared(std::size_t n = 1) { return static_cast<T*>(shared_alloc(n*sizeof(T))); }

    // ---- simulated processes ------------------------------------------------------------
    struct options {
        bool     threads = false;     // simulate threads (scheduler + race detector)
        bool     race = true;         // with threads: report data races
        bool     thread_faults = false; // inject pthread_create() failures
        bool     io = false;          // inject I/O faults
        bool     alloc_faults = false;// inject allocation failures (only inside sim::alloc_armed regions)
        bool     clock_faults = false;// clock jumps
        bool     leak_check = false;  // report operator new leaks at the end of the process
        uint64_t max_steps = 4000000; // bounded liveness
        uint64_t max_io = 200000;
        uint64_t max_mem = 1ull << 30;
        bool     quiet = true;        // drop stdout/stderr
        int      max_preempt = 100;
        int      max_quantum = 0;     // longest time slice, in steps (0: default)
    };

    struct outcome {
        enum kind_t { returned, exited, crashed, signaled } kind = returned;
        int code = 0;                 // exit code or signal
        std::string what;             // text of escaped exception, if any
        bool ok() const { return kind == returned; }
    };

    /// Run 'f' as a simulated process. A violation raised inside stops the run.
    outcome process(const options& o, const std::function<void()>& f);

    // ---- inside simulated processes -----------------------------------------------------
    /// True inside a simulated process.
    bool active();
    uint64_t now_ns();                // simulated time since start
    uint64_t seq();                   // global event sequence number
    int  self();                      // simulated thread id
    void yield();                     // explicit scheduling point
    void sync_point();                // a point where a preemption may happen
    int  live_threads();              // created and not finished, main excluded
    int  peak_threads();
    uint64_t threads_created();
    void step_ns(uint64_t ns);        // simulated cost of one memory access
    /// Inject faults in the allocations made between arm and disarm. Return true if one fired.
    void arm_alloc();
    bool disarm_alloc();
    uint64_t live_blocks();           // operator new blocks currently allocated
    uint64_t live_bytes();
    /// Nothing in this scope is observed by the simulator (used by oracles)
    struct silent { silent(); ~silent(); };
    /// Mark a read or a write of memory that only the simulator can see (used for stand-ins)
    void access(const void* p, std::size_t n, bool write);

    // ---- storage ------------------------------------------------------------------------
    namespace disk {
        extern const char* root;      // scratch directory (absolute); processes start in there
        enum kind_t {
            open_fail, read_eio, read_short, read_eintr, write_eio, write_short, write_eintr,
            disk_full, close_fail, sync_fail, stat_fail, dir_fail, mkdir_fail, remove_fail,
            rename_fail, trunc_fail, seek_fail, crash, readdir_order, no_dtype, intruder, nkind
        };
        extern const char* kind_name[nkind];
        /// Which faults may happen in the next processes (bit mask).
        void allow(uint32_t mask);
        inline uint32_t bit(kind_t k) { return 1u << k; }
        /// Faults fire only between arm() and disarm()
        void arm();
        void disarm();
        /// What another process does to the files when the 'intruder' fault fires (in the middle of an operation)
        void on_intruder(const std::function<void()>& f);
        uint64_t fired(kind_t k);     // number of times this fault fired in this run
        uint64_t fired_any();         // any error fault (not the benign ones)
        uint64_t benign();            // short reads/writes, EINTR
        void reset_fired();
        [[noreturn]] void crash_now(); // kill this process
        uint64_t lost_flush();        // number of calls of fflush() that failed in this process
        int open_files();             // number of open simulated files in this process
        uint64_t ops();               // I/O operations so far
        // Harness-side access to the scratch directory, never faulted
        bool put(const std::string& name, const std::string& content);
        bool get(const std::string& name, std::string& content);
        bool have(const std::string& name);
        bool is_dir(const std::string& name);
        void wipe();                  // empty the scratch directory
    }

    // ---- harness entry points -----------------------------------------------------------
    struct property_t {
        const char* id;
        void (*scenario)();
        const char* rule;             // what a non-trivial run is
        property_t(const char* i, void (*s)(), const char* r);
    };
}

#endif
