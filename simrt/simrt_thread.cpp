// simrt threads: scheduler, synchronisation primitives, clock, happens-before race detector,
// and the run-time entry points of code compiled with -fsanitize=thread
#include "simrt_core.hpp"
#include <pthread.h>
#include <sched.h>
#include <dlfcn.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <iostream>
#include <new>

namespace sim {
    const char* fault_name[NFAULT] = {
        "open_fail", "read_eio", "read_short", "read_eintr", "write_eio", "write_short", "write_eintr",
        "disk_full", "close_fail", "sync_fail", "stat_fail", "dir_fail", "mkdir_fail", "remove_fail",
        "rename_fail", "trunc_fail", "seek_fail", "crash", "readdir_order", "no_dtype", "intruder",
        "thread_create_fail", "alloc_fail", "clock_jump", "spurious_wakeup", "thread_stall", "sleep_eintr", "preemption"
    };

    // ---- real functions -----------------------------------------------------------------
    template<typename F> static F real_sym(const char* n) {
        void* p = dlsym(RTLD_NEXT, n);
        if (!p) die("cannot find %s", n);
        return (F)p;
    }
#define REAL(ret, name, ...) \
    typedef ret (*name##_fn)(__VA_ARGS__); \
    static name##_fn real_##name() { static name##_fn f = real_sym<name##_fn>(#name); return f; }
    REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void*(*)(void*), void*)
    REAL(int, pthread_join, pthread_t, void**)
    REAL(int, pthread_detach, pthread_t)
    REAL(int, pthread_mutex_lock, pthread_mutex_t*)
    REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
    REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const timespec*)
    REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
    REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*)
    REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const timespec*)
    REAL(int, pthread_cond_signal, pthread_cond_t*)
    REAL(int, pthread_cond_broadcast, pthread_cond_t*)
    REAL(int, pthread_once, pthread_once_t*, void(*)())

    // ---- parking ------------------------------------------------------------------------
    static void park(thr* t) {
        while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) {
            syscall(SYS_futex, &t->go, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
        }
        __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
    }
    static void unpark(thr* t) {
        __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
        syscall(SYS_futex, &t->go, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    }

    enum { B_NONE, B_MUTEX, B_COND, B_JOIN, B_ONCE, B_GUARD };
    static const char* bname[] = {"nothing", "a mutex", "a condition variable", "a thread to finish", "a once flag", "a static initialisation"};

    // ---- planned preemptions ------------------------------------------------------------
    static void plan_preemption() {
        g.cd_all = g.cd_sync = INT64_MAX;
        if (g.preempt_left <= 0 || g.nthr < 2) return;
        // v == 0: no more preemption planned for this time slice
        uint32_t v = draw(SCHED, 5);
        if (v == 0) return;
        if (v <= 2)      g.cd_sync = 1 + draw(SCHED, 12);
        else if (v == 3) g.cd_all = 1 + draw(SCHED, 60);
        else             g.cd_all = 1 + draw(SCHED, g.gap_scale);
    }

    static void budget() {
        if (g.steps > g.opt.max_steps) {
            char b[512]; int n = 0; b[0] = 0;
            for (int i = 0; i < g.nthr && n < 400; ++i) {
                const char* s[] = {"free", "running", "blocked", "sleeping", "finished"};
                n += snprintf(b+n, sizeof b-n, " thread %d %s%s%s;", i, s[g.t[i].state],
                    g.t[i].state == T_BLOCK ? " on " : "", g.t[i].state == T_BLOCK ? bname[g.t[i].obj_kind] : "");
            }
            violation("no-progress", "the run did not finish within %llu steps (%.3f simulated seconds):%s",
                (unsigned long long)g.opt.max_steps, g.now*1e-9, b);
        }
    }

    static void expire() {
        for (int i = 0; i < g.nthr; ++i) {
            thr& t = g.t[i];
            if (t.wake && t.wake <= g.now && (t.state == T_SLEEP || t.state == T_BLOCK)) {
                t.timed_out = t.state == T_BLOCK;
                t.state = T_RUN; t.wake = 0;
            }
        }
    }

    static void transfer(thr* from, thr* to, bool wait) {
        g.cur = to->id;
        g.quantum_left = g.quantum;
        if (from == to) return;
        ++g.switches;
        mix(sh->ihash, uint64_t(from->id)*64 + to->id);
        mix(sh->ihash, g.steps);
        trace("[%llu ns, step %llu] switch thread %d -> %d", (unsigned long long)g.now, (unsigned long long)g.steps, from->id, to->id);
        unpark(to);
        if (wait) park(from);
    }

    // The current thread gives up the processor. If 'must' it cannot continue.
    static void reschedule(bool must, bool planned) {
        thr* c = &g.t[g.cur];
        expire();
        int cand[2*MAXT]; int n = 0;
        for (int k = 1; k < g.nthr; ++k) {
            int i = (c->id + k) % g.nthr;
            if (g.t[i].state == T_RUN) cand[n++] = i;
        }
        int nrun = n;
        if (must && c->state == T_RUN) { cand[n++] = c->id; nrun = n; } // (it was woken by expire())
        // Stall the others: let a sleeper wake up first
        bool sleepers_ok = planned || must;
        if (sleepers_ok) {
            for (int k = 1; k < g.nthr; ++k) {
                int i = (c->id + k) % g.nthr;
                if (g.t[i].wake && (g.t[i].state == T_SLEEP || g.t[i].state == T_BLOCK)) cand[n++] = i;
            }
        }
        thr* next = nullptr;
        if (n == 0) {
            if (!must) return;
        } else if (nrun == 0) {
            // Nobody can run: jump to the next timer
            if (!must) {
                uint32_t v = planned ? draw(SCHED, n+1) : 0;
                if (v == 0) return;
                next = &g.t[cand[v-1]];
            }
        } else {
            uint32_t v;
            if (planned) v = draw(SCHED, n);
            else if (must) {
                // at blocking points: mostly the next one in order, sometimes another one
                v = n > 1 && g.preempt_left > 0 ? draw(SCHED, n) : 0;
            } else v = 0;
            next = &g.t[cand[v]];
            if (planned) { --g.preempt_left; count_fault(F_PREEMPT); }
        }
        if (!next) {
            // earliest timer
            thr* e = nullptr;
            for (int i = 0; i < g.nthr; ++i) {
                thr& t = g.t[i];
                if (t.wake && (t.state == T_SLEEP || t.state == T_BLOCK) && (!e || t.wake < e->wake)) e = &t;
            }
            if (!e) {
                char b[512]; int m = 0; b[0] = 0;
                for (int i = 0; i < g.nthr && m < 400; ++i) if (g.t[i].state == T_BLOCK) {
                    m += snprintf(b+m, sizeof b-m, " thread %d waits for %s;", i, bname[g.t[i].obj_kind]);
                }
                violation("deadlock", "no thread can make progress:%s", b);
            }
            next = e;
        }
        if (next->state != T_RUN) {
            if (nrun > 0) count_fault(F_STALL);
            if (next->wake > g.now) g.now = next->wake;
            expire();
        }
        transfer(c, next, c->state != T_DONE);
        if (c->state != T_DONE) plan_preemption();
    }

    static void tick() {
        ++g.steps;
        g.now += g.ns_per_step;
        if ((g.steps & 1023) == 0) budget();
    }

    static inline void plain_event() {
        tick();
        if (--g.cd_all <= 0) { g.cd_all = INT64_MAX; reschedule(false, true); }
        else if (--g.quantum_left <= 0) { g.quantum_left = g.quantum; budget(); reschedule(false, false); plan_preemption(); }
    }

    void sync_event() {
        if (!me || me->nohook) return;
        tick();
        ++g.syncs;
        bool p = false;
        if (--g.cd_all <= 0) p = true;
        if (--g.cd_sync <= 0) p = true;
        if (p) { g.cd_all = g.cd_sync = INT64_MAX; reschedule(false, true); }
        else if (--g.quantum_left <= 0) { g.quantum_left = g.quantum; budget(); reschedule(false, false); plan_preemption(); }
    }

    void sync_point() { sync_event(); }

    void yield() {
        if (!me || me->nohook) return;
        tick();
        g.quantum_left = g.quantum;
        reschedule(false, false);
        plan_preemption();
    }

    void block_current(int kind, void* obj, uint64_t wake) {
        me->state = T_BLOCK; me->obj = obj; me->obj_kind = kind; me->wake = wake; me->timed_out = false;
        budget();
        tick();
        reschedule(true, false);
        me->obj = nullptr; me->obj_kind = B_NONE; me->wake = 0;
    }

    void wake_thread(thr* t) { t->state = T_RUN; t->wake = 0; }

    static void wake_all(int kind, void* obj) {
        for (int i = 0; i < g.nthr; ++i)
            if (g.t[i].state == T_BLOCK && g.t[i].obj == obj && g.t[i].obj_kind == kind) wake_thread(&g.t[i]);
    }

    static void do_sleep(uint64_t ns) {
        if (ns == 0) { yield(); return; }
        me->state = T_SLEEP; me->wake = g.now + ns;
        budget();
        tick();
        reschedule(true, false);
        me->wake = 0;
    }

    int live_threads() { return g.live; }
    int peak_threads() { return sh->peak_threads; }
    uint64_t threads_created() { return g.nthr-1; }
    void step_ns(uint64_t ns) { g.ns_per_step = ns; }

    void begin_process(const options& o) {
        memset((void*)&g, 0, sizeof g);
        g.opt = o;
        g.nthr = 1; g.cur = 0; g.ns_per_step = 10;
        g.cd_all = g.cd_sync = INT64_MAX;
        g.quantum = g.quantum_left = 3000;
        g.gap_scale = 500;
        g.t[0].id = 0; g.t[0].state = T_RUN; g.t[0].vc.c[0] = 1;
        if (o.threads) {
            static const int q[] = {3000, 3000, 300, 60, 10000};
            static const int np[] = {100, 3, 1, 8, 0, 30};
            static const int gs[] = {500, 100, 2500, 12000};
            g.quantum = g.quantum_left = q[draw(SCHED, 5)];
            if (o.max_quantum && g.quantum > o.max_quantum) g.quantum = g.quantum_left = o.max_quantum;
            g.preempt_left = np[draw(SCHED, 6)];
            if (g.preempt_left > o.max_preempt) g.preempt_left = o.max_preempt;
            g.gap_scale = gs[draw(SCHED, 4)];
            race_init();
        }
        if (o.clock_faults) {
            g.nclk = draw(FAULT, 4);
            for (int i = 0; i < g.nclk; ++i) { g.clk_gap[i] = draw(FAULT, 12); g.clk_mag[i] = draw(FAULT, 12); }
        }
        io_begin_process();
        me = &g.t[0];
        g.active = true;
    }

    // ---- clock --------------------------------------------------------------------------
    static const uint64_t rt_base = 1700000000ull*1000000000ull;

    static void clock_fault() {
        static const double mag[] = {1e-3, -1e-3, 1.0, -1.0, 60.0, -60.0, 3600.0, -3600.0, 86400.0, -86400.0, 3.2e7, -3.2e7};
        for (int i = 0; i < g.nclk; ++i) {
            if (g.clk_gap[i] == 0) {
                g.rt_offset += int64_t(mag[g.clk_mag[i]]*1e9);
                count_fault(F_CLOCK_JUMP);
                trace("wall clock jumps by %g s", mag[g.clk_mag[i]]);
            }
            if (g.clk_gap[i] >= 0) --g.clk_gap[i];
        }
    }

    static void get_clock(clockid_t id, timespec* ts) {
        tick();
        if (!me->nohook && g.opt.clock_faults) clock_fault();
        int64_t n;
        if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) n = int64_t(rt_base + g.now) + g.rt_offset;
        else n = int64_t(g.now) + 1000000000ll*1000;
        ts->tv_sec = n/1000000000; ts->tv_nsec = n%1000000000;
    }

    // ---- happens-before -----------------------------------------------------------------
    enum { K_READ = 1, K_WRITE = 2, K_AREAD = 3, K_AWRITE = 4, K_FREE = 5 };
    struct cell { uint32_t clk, pc; uint8_t tid, mask, kind, pad; };
    struct entry { uint64_t key; cell c[4]; uint8_t rr; uint8_t pad[7]; };
    enum { SHADOW_BITS = 20, SYNC_BITS = 15 };
    static entry* shadow = nullptr;
    static uint64_t shadow_used = 0;
    struct sv { uintptr_t key; int rel_tid; vc_t vc; };
    static sv* svars = nullptr;
    static uint64_t sv_used = 0;
    extern "C" char __executable_start;

    void race_init() {
        size_t n = (size_t(1) << SHADOW_BITS)*sizeof(entry);
        shadow = (entry*)mmap(nullptr, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        n = (size_t(1) << SYNC_BITS)*sizeof(sv);
        svars = (sv*)mmap(nullptr, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        if (shadow == MAP_FAILED || svars == MAP_FAILED) die("mmap");
        shadow_used = sv_used = 0;
    }

    static inline uint64_t shadow_hash(uint64_t k) {
        // keep neighbours together
        return ((k & 0x1ff) | ((((k >> 9)*0x9e3779b97f4a7c15ull) >> 40) << 9)) & ((1ull << SHADOW_BITS)-1);
    }

    static entry* find(uint64_t k, bool create) {
        uint64_t h = shadow_hash(k);
        while (true) {
            entry* e = &shadow[h];
            if (e->key == k) return e;
            if (e->key == 0) {
                if (!create) return nullptr;
                if (shadow_used > (1ull << SHADOW_BITS)*6/10) return nullptr;
                ++shadow_used;
                e->key = k;
                return e;
            }
            h = (h+1) & ((1ull << SHADOW_BITS)-1);
        }
    }

    vc_t* sync_var_(const void* p, bool create, sv** out = nullptr) {
        uintptr_t k = (uintptr_t)p;
        uint64_t h = ((k >> 2)*0x9e3779b97f4a7c15ull) >> (64-SYNC_BITS);
        while (true) {
            sv* e = &svars[h];
            if (e->key == k) { if (out) *out = e; return &e->vc; }
            if (e->key == 0) {
                if (!create) return nullptr;
                if (sv_used > (1ull << SYNC_BITS)*7/10) die("too many synchronisation variables");
                ++sv_used; e->key = k; e->rel_tid = -1;
                if (out) *out = e;
                return &e->vc;
            }
            h = (h+1) & ((1ull << SYNC_BITS)-1);
        }
    }
    vc_t* sync_var(const void* p, bool create) { return sync_var_(p, create); }

    static void vjoin(vc_t& a, const vc_t& b) { for (int i = 0; i < g.nthr; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

    void hb_acquire(const void* p) { if (!svars) return; if (vc_t* v = sync_var(p, false)) vjoin(me->vc, *v); }
    void hb_release(const void* p, bool join) {
        if (!svars) return;
        sv* s; vc_t* v = sync_var_(p, true, &s);
        if (!join) memset(v, 0, sizeof *v);
        vjoin(*v, me->vc);
        s->rel_tid = me->id;
        ++me->vc.c[me->id];
    }

    static const char* kname(int k) {
        static const char* n[] = {"?", "read", "write", "atomic read", "atomic write", "free"};
        return n[k];
    }

    static inline void check_granule(uint64_t k, uint8_t mask, int kind, uint32_t pc) {
        entry* e = find(k, true);
        if (!e) return;
        thr* t = me;
        cell* slot = nullptr; cell* empty = nullptr;
        for (int i = 0; i < 4; ++i) {
            cell& c = e->c[i];
            if (!c.kind) { if (!empty) empty = &c; continue; }
            if (!(c.mask & mask)) continue;
            if (c.kind == K_FREE) {
                violation("use-after-free", "%s at +0x%x by thread %d of memory freed at +0x%x by thread %d",
                    kname(kind), pc, t->id, c.pc, c.tid);
            }
            if (c.tid == t->id) {
                // same thread: keep one cell per kind
                if (c.kind == kind && (c.mask | mask) == mask) slot = &c;
                else if ((kind == K_WRITE) && c.kind == K_READ && (c.mask | mask) == mask) slot = &c;
                else if (kind == K_READ && c.kind == K_WRITE && c.clk == t->vc.c[t->id] && (c.mask & mask) == mask) return;
                continue;
            }
            bool aw = kind == K_WRITE || kind == K_AWRITE || kind == K_FREE;
            bool bw = c.kind == K_WRITE || c.kind == K_AWRITE;
            if (!aw && !bw) continue;
            bool aa = kind == K_AREAD || kind == K_AWRITE;
            bool ba = c.kind == K_AREAD || c.kind == K_AWRITE;
            if (aa && ba) continue;
            if (c.clk > t->vc.c[c.tid]) {
                violation("data-race", "%s at +0x%x by thread %d is concurrent with %s at +0x%x by thread %d",
                    kname(kind), pc, t->id, kname(c.kind), c.pc, c.tid);
            }
        }
        if (!slot) slot = empty;
        if (!slot) { slot = &e->c[e->rr & 3]; ++e->rr; }
        slot->clk = t->vc.c[t->id]; slot->pc = pc; slot->tid = t->id; slot->mask = mask; slot->kind = kind;
    }

    // The standard streams may be used by several threads at once
    static inline bool std_stream(uintptr_t a) {
        return a - (uintptr_t)&std::cout < sizeof(std::cout) || a - (uintptr_t)&std::cerr < sizeof(std::cerr) ||
            a - (uintptr_t)&std::clog < sizeof(std::clog) || a - (uintptr_t)&std::cin < sizeof(std::cin);
    }

    void race_access(uintptr_t a, size_t n, int kind, uintptr_t pc) {
        if (std_stream(a)) return;
        if (!shadow || !g.opt.race || n == 0) return;
        uint32_t p = uint32_t(pc - (uintptr_t)&__executable_start);
        uintptr_t end = a + n;
        while (a < end) {
            uint64_t k = a >> 3;
            unsigned o = a & 7;
            unsigned m = unsigned(end - a < 8 - o ? end - a : 8 - o);
            check_granule(k, uint8_t(((1u << m)-1) << o), kind, p);
            a += m;
        }
    }

    void race_free(uintptr_t a, size_t n, uintptr_t pc) {
        if (!shadow || !g.opt.race) return;
        if (n > 65536) n = 65536;
        race_access(a, n, K_FREE, pc);
        uint32_t p = uint32_t(pc - (uintptr_t)&__executable_start);
        for (uintptr_t x = a & ~uintptr_t(7); x < a+n; x += 8) {
            entry* e = find(x >> 3, true);
            if (!e) return;
            memset(e->c, 0, sizeof e->c);
            e->c[0].kind = K_FREE; e->c[0].mask = 0xff; e->c[0].tid = me->id; e->c[0].pc = p; e->c[0].clk = me->vc.c[me->id];
        }
    }

    void race_clear(uintptr_t a, size_t n) {
        if (!shadow) return;
        for (uintptr_t x = a & ~uintptr_t(7); x < a+n; x += 8) {
            if (entry* e = find(x >> 3, false)) memset(e->c, 0, sizeof e->c);
        }
    }

    void access(const void* p, size_t n, bool write) {
        if (me && !me->nohook) race_access((uintptr_t)p, n, write ? K_WRITE : K_READ, (uintptr_t)__builtin_return_address(0));
    }

    static inline void on_plain(void* p, size_t n, int kind, void* pc) {
        thr* t = me;
        if (!t || t->nohook || t->state == T_DONE) return;
        plain_event();
        if (shadow) race_access((uintptr_t)p, n, kind, (uintptr_t)pc);
    }

    // ---- mutexes ------------------------------------------------------------------------
    struct mx { uintptr_t key; int owner; int count; };
    enum { MX_BITS = 12 };
    static mx mxs[1 << MX_BITS];
    static mx* get_mx(void* p) {
        uintptr_t k = (uintptr_t)p;
        uint64_t h = ((k >> 3)*0x9e3779b97f4a7c15ull) >> (64-MX_BITS);
        for (int i = 0; i < (1 << MX_BITS); ++i) {
            mx* e = &mxs[h];
            if (e->key == k) return e;
            if (e->key == 0) { e->key = k; e->owner = -1; e->count = 0; return e; }
            h = (h+1) & ((1 << MX_BITS)-1);
        }
        die("too many mutexes"); return nullptr;
    }

    static bool simulated() { return g.active && me && !me->nohook && me->state != T_DONE; }

    static int mx_lock(pthread_mutex_t* m, bool tryonly, uint64_t deadline) {
        sync_event();
        mx* x = get_mx(m);
        int kind = m->__data.__kind & 3;
        if (x->owner == me->id) {
            if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++x->count; return 0; }
            if (tryonly) return EBUSY;
            if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
        }
        while (x->owner >= 0) {
            if (tryonly) return EBUSY;
            block_current(B_MUTEX, m, deadline);
            if (me->timed_out && x->owner >= 0) return ETIMEDOUT;
        }
        x->owner = me->id; x->count = 1;
        hb_acquire(m);
        return 0;
    }

    static int mx_unlock(pthread_mutex_t* m) {
        mx* x = get_mx(m);
        if (x->owner != me->id) {
            violation("mutex-misuse", "thread %d unlocks a mutex it does not hold", me->id);
        }
        if (--x->count > 0) return 0;
        x->owner = -1;
        hb_release(m, true);
        wake_all(B_MUTEX, m);
        sync_event();
        return 0;
    }

    static uint64_t to_ns(const timespec* ts, clockid_t id) {
        int64_t n = int64_t(ts->tv_sec)*1000000000 + ts->tv_nsec;
        if (id == CLOCK_REALTIME) n -= int64_t(rt_base) + g.rt_offset;
        else n -= 1000000000ll*1000;
        if (n <= int64_t(g.now)) n = g.now+1;
        return uint64_t(n);
    }

    static int cv_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t wake) {
        sync_event();
        mx* x = get_mx(m);
        if (x->owner != me->id) violation("mutex-misuse", "thread %d waits on a condition with a mutex it does not hold", me->id);
        int cnt = x->count;
        x->owner = -1; x->count = 0;
        hb_release(m, true);
        wake_all(B_MUTEX, m);
        bool to = false;
        if (g.opt.thread_faults && draw(FAULT, 16) == 15) {
            count_fault(F_SPURIOUS);
            yield();
        } else {
            block_current(B_COND, c, wake);
            to = me->timed_out;
        }
        while (x->owner >= 0) block_current(B_MUTEX, m, 0);
        x->owner = me->id; x->count = cnt;
        hb_acquire(m);
        return to ? ETIMEDOUT : 0;
    }

    // ---- threads ------------------------------------------------------------------------
    static void* trampoline(void* a) {
        thr* t = (thr*)a;
        park(t);
        me = t;
        plan_preemption();
        t->ret = t->start(t->arg);
        // finished
        tick();
        t->state = T_DONE;
        --g.live;
        ++t->vc.c[t->id];
        wake_all(B_JOIN, t);
        trace("thread %d finished", t->id);
        reschedule(true, false);
        return t->ret;
    }

    static thr* by_handle(pthread_t h) {
        for (int i = g.nthr-1; i >= 1; --i) if (g.t[i].real == h && !g.t[i].joined) return &g.t[i];
        return nullptr;
    }

    static int thr_create(pthread_t* h, void* (*f)(void*), void* arg) {
        sync_event();
        if (g.opt.thread_faults && fdraw(8) >= 7) {
            count_fault(F_THREAD_CREATE);
            trace("pthread_create fails with EAGAIN");
            note(4242);
            return EAGAIN;
        }
        if (g.nthr >= MAXT) die("too many threads in one run");
        thr* t = &g.t[g.nthr];
        t->id = g.nthr; t->state = T_RUN; t->start = f; t->arg = arg;
        t->vc = me->vc; t->vc.c[t->id] = 1;
        ++me->vc.c[me->id];
        size_t ss = 1 << 20;
        char* stk = (char*)mmap(nullptr, ss + 4096, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_STACK, -1, 0);
        if (stk == MAP_FAILED) die("mmap stack");
        mprotect(stk, 4096, PROT_NONE);
        pthread_attr_t at; pthread_attr_init(&at);
        pthread_attr_setstack(&at, stk+4096, ss);
        pthread_t p;
        if (real_pthread_create()(&p, &at, trampoline, t) != 0) die("pthread_create");
        pthread_attr_destroy(&at);
        t->real = p; *h = p;
        ++g.nthr; ++g.live; ++sh->runs_threads;
        if (g.live > sh->peak_threads) sh->peak_threads = g.live;
        trace("thread %d created by thread %d", t->id, me->id);
        if (g.cd_all == INT64_MAX && g.cd_sync == INT64_MAX) plan_preemption();
        sync_event();
        return 0;
    }

    static int thr_join(pthread_t h, void** r) {
        sync_event();
        thr* t = by_handle(h);
        if (!t) return ESRCH;
        if (t->detached) return EINVAL;
        while (t->state != T_DONE) block_current(B_JOIN, t, 0);
        t->joined = true;
        vjoin(me->vc, t->vc);
        if (r) *r = t->ret;
        real_pthread_join()(h, nullptr);
        return 0;
    }

    static void once_run(pthread_once_t* o, void (*f)()) {
        sync_event();
        while (*o == 1) block_current(B_ONCE, o, 0);
        if (*o == 2) { hb_acquire(o); return; }
        *o = 1;
        try { f(); } catch (...) { *o = 0; wake_all(B_ONCE, o); throw; }
        *o = 2;
        hb_release(o, true);
        wake_all(B_ONCE, o);
    }
}

using namespace sim;

// ---- interposed functions ---------------------------------------------------------------
extern "C" {
    int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
        if (!simulated()) return real_pthread_create()(h, a, f, arg);
        if (!g.opt.threads) die("thread created in a process without simulated threads");
        return thr_create(h, f, arg);
    }
    int pthread_join(pthread_t h, void** r) { return simulated() ? thr_join(h, r) : real_pthread_join()(h, r); }
    int pthread_detach(pthread_t h) {
        if (!simulated()) return real_pthread_detach()(h);
        if (thr* t = by_handle(h)) t->detached = true;
        return real_pthread_detach()(h);
    }
    int pthread_mutex_lock(pthread_mutex_t* m) { return simulated() ? mx_lock(m, false, 0) : g.active ? 0 : real_pthread_mutex_lock()(m); }
    int pthread_mutex_trylock(pthread_mutex_t* m) { return simulated() ? mx_lock(m, true, 0) : g.active ? 0 : real_pthread_mutex_trylock()(m); }
    int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) {
        return simulated() ? mx_lock(m, false, to_ns(ts, CLOCK_REALTIME)) : real_pthread_mutex_timedlock()(m, ts);
    }
    int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts) {
        return simulated() ? mx_lock(m, false, to_ns(ts, c)) : real_pthread_mutex_lock()(m);
    }
    int pthread_mutex_unlock(pthread_mutex_t* m) { return simulated() ? mx_unlock(m) : g.active ? 0 : real_pthread_mutex_unlock()(m); }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return simulated() ? cv_wait(c, m, 0) : real_pthread_cond_wait()(c, m); }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
        return simulated() ? cv_wait(c, m, to_ns(ts, CLOCK_REALTIME)) : real_pthread_cond_timedwait()(c, m, ts);
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const timespec* ts) {
        return simulated() ? cv_wait(c, m, to_ns(ts, id)) : real_pthread_cond_timedwait()(c, m, ts);
    }
    int pthread_cond_signal(pthread_cond_t* c) {
        if (!simulated()) return g.active ? 0 : real_pthread_cond_signal()(c);
        sync_event();
        int w[MAXT], n = 0;
        for (int i = 0; i < g.nthr; ++i) if (g.t[i].state == T_BLOCK && g.t[i].obj == c && g.t[i].obj_kind == 2) w[n++] = i;
        if (n) wake_thread(&g.t[w[draw(SCHED, n)]]);
        return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t* c) {
        if (!simulated()) return g.active ? 0 : real_pthread_cond_broadcast()(c);
        sync_event();
        wake_all(2, c);
        return 0;
    }
    int pthread_once(pthread_once_t* o, void (*f)()) {
        if (!simulated()) return real_pthread_once()(o, f);
        once_run(o, f);
        return 0;
    }
    int sched_yield() { if (simulated()) sim::yield(); else syscall(SYS_sched_yield); return 0; }

    // The reader/writer locks are only used by libraries (never by the code base): they are simulated as mutexes
    int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return simulated() ? mx_lock((pthread_mutex_t*)l, false, 0) : 0; }
    int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return simulated() ? mx_lock((pthread_mutex_t*)l, false, 0) : 0; }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return simulated() ? mx_lock((pthread_mutex_t*)l, true, 0) : 0; }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return simulated() ? mx_lock((pthread_mutex_t*)l, true, 0) : 0; }
    int pthread_rwlock_unlock(pthread_rwlock_t* l) { return simulated() ? mx_unlock((pthread_mutex_t*)l) : 0; }

    int __cxa_guard_acquire(long long* gd) {
        unsigned char* b = (unsigned char*)gd;
        if (!simulated()) {
            if (b[0]) return 0;
            b[1] = 1; return 1;
        }
        sync_event();
        while (b[1] && !b[0]) block_current(5, gd, 0);
        if (b[0]) { hb_acquire(gd); return 0; }
        b[1] = 1;
        ++me->in_static;
        return 1;
    }
    void __cxa_guard_release(long long* gd) {
        unsigned char* b = (unsigned char*)gd;
        b[0] = 1; b[1] = 0;
        if (!simulated()) return;
        --me->in_static;
        hb_release(gd, true);
        wake_all(5, gd);
        sync_event();
    }
    void __cxa_guard_abort(long long* gd) {
        unsigned char* b = (unsigned char*)gd;
        b[1] = 0;
        if (!simulated()) return;
        --me->in_static;
        hb_release(gd, true);
        wake_all(5, gd);
    }

    int nanosleep(const timespec* t, timespec* rem) {
        if (!simulated()) return syscall(SYS_nanosleep, t, rem);
        uint64_t ns = uint64_t(t->tv_sec)*1000000000ull + t->tv_nsec;
        if (g.opt.thread_faults && ns > 1 && draw(FAULT, 32) == 31) {
            count_fault(F_SLEEP_EINTR);
            do_sleep(ns/2);
            if (rem) { rem->tv_sec = (ns-ns/2)/1000000000; rem->tv_nsec = (ns-ns/2)%1000000000; }
            errno = EINTR;
            return -1;
        }
        do_sleep(ns);
        return 0;
    }
    int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* rem) {
        if (!simulated()) return -syscall(SYS_clock_nanosleep, c, fl, t, rem);
        if (fl & TIMER_ABSTIME) { uint64_t w = to_ns(t, c); do_sleep(w > g.now ? w-g.now : 0); return 0; }
        do_sleep(uint64_t(t->tv_sec)*1000000000ull + t->tv_nsec);
        return 0;
    }
    int usleep(useconds_t u) {
        if (!simulated()) { timespec t = {time_t(u/1000000), long(u%1000000)*1000}; return syscall(SYS_nanosleep, &t, nullptr); }
        do_sleep(uint64_t(u)*1000); return 0;
    }
    unsigned sleep(unsigned s) {
        if (!simulated()) { timespec t = {time_t(s), 0}; syscall(SYS_nanosleep, &t, nullptr); return 0; }
        do_sleep(uint64_t(s)*1000000000ull); return 0;
    }
    int clock_gettime(clockid_t id, timespec* ts) {
        if (!g.active || !me || me->state == T_DONE) return syscall(SYS_clock_gettime, id, ts);
        get_clock(id, ts); return 0;
    }
    int gettimeofday(timeval* tv, void*) {
        timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
        tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec/1000; return 0;
    }
    time_t time(time_t* t) {
        timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
        if (t) *t = ts.tv_sec;
        return ts.tv_sec;
    }
    clock_t clock() {
        if (!g.active || !me) return 0;
        return clock_t(g.now/1000);
    }
}

// ---- thread sanitizer entry points ------------------------------------------------------
#define PC __builtin_return_address(0)
extern "C" {
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { on_plain(p, n, K_READ, PC); } \
    void __tsan_write##n(void* p) { on_plain(p, n, K_WRITE, PC); } \
    void __tsan_unaligned_read##n(void* p) { on_plain(p, n, K_READ, PC); } \
    void __tsan_unaligned_write##n(void* p) { on_plain(p, n, K_WRITE, PC); } \
    void __tsan_volatile_read##n(void* p) { on_plain(p, n, K_READ, PC); } \
    void __tsan_volatile_write##n(void* p) { on_plain(p, n, K_WRITE, PC); } \
    void __tsan_read##n##_pc(void* p, void* pc) { on_plain(p, n, K_READ, pc); } \
    void __tsan_write##n##_pc(void* p, void* pc) { on_plain(p, n, K_WRITE, pc); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* p, unsigned long n) { on_plain(p, n, K_READ, PC); }
    void __tsan_write_range(void* p, unsigned long n) { on_plain(p, n, K_WRITE, PC); }
    void __tsan_vptr_update(void** p, void* v) { on_plain(p, 8, *p == v ? K_READ : K_WRITE, PC); }
    void __tsan_vptr_read(void** p) { on_plain(p, 8, K_READ, PC); }

    void* simrt_memcpy(void* d, const void* s, size_t n) {
        if (n) { on_plain((void*)s, n, K_READ, PC); on_plain(d, n, K_WRITE, PC); }
        return __builtin_memcpy(d, s, n);
    }
    void* simrt_memmove(void* d, const void* s, size_t n) {
        if (n) { on_plain((void*)s, n, K_READ, PC); on_plain(d, n, K_WRITE, PC); }
        return __builtin_memmove(d, s, n);
    }
    void* simrt_memset(void* d, int c, size_t n) {
        if (n) on_plain(d, n, K_WRITE, PC);
        return __builtin_memset(d, c, n);
    }
    int simrt_memcmp(const void* a, const void* b, size_t n) {
        if (n) { on_plain((void*)a, n, K_READ, PC); on_plain((void*)b, n, K_READ, PC); }
        return __builtin_memcmp(a, b, n);
    }
}

namespace {
    inline bool is_acq(int m) { return m == __ATOMIC_ACQUIRE || m == __ATOMIC_CONSUME || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
    inline bool is_rel(int m) { return m == __ATOMIC_RELEASE || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }

    inline bool on_atomic(const volatile void* p, size_t n, bool write, void* pc) {
        thr* t = me;
        if (!t || t->nohook || t->state == T_DONE || !g.active) return false;
        sync_event();
        if (shadow) race_access((uintptr_t)p, n, write ? K_AWRITE : K_AREAD, (uintptr_t)pc);
        return shadow != nullptr;
    }
    inline void a_load(const volatile void* p, int mo) {
        sv* s; vc_t* v = sync_var_((const void*)p, false, &s);
        if (!v) return;
        if (is_acq(mo)) vjoin(me->vc, *v); else vjoin(me->acq_pending, *v);
    }
    inline void a_store(const volatile void* p, int mo) {
        sv* s; vc_t* v = sync_var_((const void*)p, true, &s);
        if (is_rel(mo)) {
            memset(v, 0, sizeof *v); vjoin(*v, me->vc); s->rel_tid = me->id; ++me->vc.c[me->id];
        } else {
            // C++11: a relaxed store by the thread that headed the release sequence continues it
            if (s->rel_tid != me->id) { memset(v, 0, sizeof *v); s->rel_tid = -1; }
            if (me->has_rel_fence) { vjoin(*v, me->rel_fence); }
        }
    }
    inline void a_rmw(const volatile void* p, int mo) {
        sv* s; vc_t* v = sync_var_((const void*)p, true, &s);
        if (is_acq(mo)) vjoin(me->vc, *v); else vjoin(me->acq_pending, *v);
        if (is_rel(mo)) { vjoin(*v, me->vc); s->rel_tid = me->id; ++me->vc.c[me->id]; }
        else if (me->has_rel_fence) vjoin(*v, me->rel_fence);
    }
}

#define ATOMIC(bits, T) \
extern "C" { \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { \
        bool s = on_atomic(a, sizeof(T), false, PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (s) a_load(a, mo); return v; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { \
        bool s = on_atomic(a, sizeof(T), true, PC); if (s) a_store(a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { \
        bool s = on_atomic(a, sizeof(T), true, PC); if (s) a_rmw(a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { \
        bool s = on_atomic(a, sizeof(T), true, PC); if (s) a_rmw(a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { \
        bool s = on_atomic(a, sizeof(T), true, PC); if (s) a_rmw(a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { \
        bool s = on_atomic(a, sizeof(T), true, PC); if (s) a_rmw(a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { \
        bool s = on_atomic(a, sizeof(T), true, PC); if (s) a_rmw(a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { \
        bool s = on_atomic(a, sizeof(T), true, PC); if (s) a_rmw(a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { \
        bool s = on_atomic(a, sizeof(T), true, PC); if (s) a_rmw(a, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { \
        bool s = on_atomic(a, sizeof(T), true, PC); T cur = __atomic_load_n(a, __ATOMIC_SEQ_CST); \
        if (cur == *e) { if (s) a_rmw(a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return true; } \
        if (s) { a_load(a, fmo); } \
        *e = cur; return false; } \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { \
        return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { \
        __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); return e; } \
}
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)

extern "C" {
    void __tsan_atomic_thread_fence(int mo) {
        if (!me || me->nohook || !shadow) return;
        sync_event();
        if (is_acq(mo)) vjoin(me->vc, me->acq_pending);
        if (is_rel(mo)) { me->rel_fence = me->vc; me->has_rel_fence = true; ++me->vc.c[me->id]; }
    }
    void __tsan_atomic_signal_fence(int) {}
}
