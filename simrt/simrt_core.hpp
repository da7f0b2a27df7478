// Internal structures of the simulator
#ifndef SIMRT_CORE_HPP
#define SIMRT_CORE_HPP

#include "simrt.hpp"
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <cstdlib>

namespace sim {
    enum { MAXT = 64, TAPE_CAP = 1 << 16, TRACE_CAP = 1 << 20, ARENA_CAP = 8 << 20, NPROBE = 64 };
    enum { CODE_OK = 90, CODE_VIOLATION = 91, CODE_CRASH = 93, CODE_ERROR = 94, CODE_EXC = 95 };

    // Fault counters that do not belong to the disk
    enum fault_t { F_THREAD_CREATE = disk::nkind, F_ALLOC, F_CLOCK_JUMP, F_SPURIOUS, F_STALL, F_SLEEP_EINTR, F_PREEMPT, NFAULT };
    extern const char* fault_name[NFAULT];

    struct tape_t { uint32_t n, len; uint64_t rng; uint32_t v[TAPE_CAP]; };
    struct probe_t { char name[40]; uint64_t n; };

    struct shared_t {
        tape_t   tape[NSTREAM];
        int      replay;
        int      tracing;
        uint64_t hash;        // observable history
        uint64_t ihash;       // interleaving
        uint64_t steps, syncs, switches, simtime, io_ops, allocs, runs_threads, nproc;
        uint64_t fault[NFAULT];
        int      has_violation;
        char     vclass[64];
        char     vtext[2048];
        char     desc[512];
        char     exc[256];
        int      nontrivial;
        int      live_threads_end;
        int      peak_threads;
        uint32_t ntrace;
        char     trace[TRACE_CAP];
        probe_t  probes[NPROBE];
        size_t   arena_used;
        alignas(64) char arena[ARENA_CAP];
    };

    extern shared_t* sh;

    struct vc_t { uint32_t c[MAXT]; };
    enum tstate { T_FREE, T_RUN, T_BLOCK, T_SLEEP, T_DONE };

    struct thr {
        int      id;
        int      state;
        int      go;             // futex
        uint64_t wake;           // for T_SLEEP or timed T_BLOCK (0: none)
        bool     timed_out;
        void*    obj;            // what it is blocked on
        int      obj_kind;
        vc_t     vc, rel_fence, acq_pending;
        bool     has_rel_fence;
        int      nohook;
        int      in_static;      // initialising static objects (depth)
        bool     joined, detached;
        void*    (*start)(void*);
        void*    arg;
        void*    ret;
        unsigned long real;      // pthread_t
    };

    struct gstate {
        bool     active;
        options  opt;
        thr      t[MAXT];
        int      nthr;
        int      cur;
        int      live;
        int64_t  cd_all, cd_sync;  // countdown to the next planned preemption
        int64_t  quantum, quantum_left;
        int      preempt_left;
        uint32_t gap_scale;
        uint64_t steps, syncs, switches;
        uint64_t now;
        uint64_t ns_per_step;
        int64_t  rt_offset;
        // clock faults
        int      nclk; int64_t clk_gap[4]; int clk_mag[4];
        uint64_t seq;
    };

    extern gstate g;
    extern __thread thr* me;

    void begin_process(const options& o);
    void sync_event();               // scheduling point
    void block_current(int kind, void* obj, uint64_t wake);
    void wake_thread(thr* t);
    void mix(uint64_t& h, uint64_t v);
    void io_begin_process();
    uint32_t fdraw(uint32_t n);
    void count_fault(int k);
    void die(const char* fmt, ...);

    // race detector
    void race_init();
    void race_access(uintptr_t a, size_t n, int kind, uintptr_t pc);
    void race_free(uintptr_t a, size_t n, uintptr_t pc);
    void race_clear(uintptr_t a, size_t n);
    vc_t* sync_var(const void* p, bool create);
    void sync_drop(uintptr_t a, size_t n);
    void hb_acquire(const void* p);
    void hb_release(const void* p, bool join);
}
#endif
