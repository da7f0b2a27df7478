// T02: background worker, T03: worker pool, T04: parallel loop, T05: thread creation failures
#define HARNESS_THREADS
#include "prelude.hpp"
#include <vif.hpp>

using namespace vif;

namespace {
    enum { MAXI = 4096 };
    struct model_t {
        uint32_t started[MAXI], done[MAXI];
        int32_t  by[MAXI];
        uint64_t when[MAXI];
        uint32_t order[MAXI]; uint32_t norder;
        uint32_t outside;
        uint64_t seq;
        uint32_t armed;     // executing the user function is allowed
        uint32_t late;      // it was called when not allowed
        int32_t  live;
        uint32_t inside, max_inside;
    };
    model_t* M;

    ORACLE void m_begin(uint64_t i) {
        if (!M->armed) ++M->late;
        if (i >= MAXI) { ++M->outside; return; }
        ++M->started[i]; M->by[i] = sim::self(); M->when[i] = ++M->seq;
        if (M->norder < MAXI) M->order[M->norder++] = i;
        ++M->inside; if (M->inside > M->max_inside) M->max_inside = M->inside;
    }
    ORACLE void m_end(uint64_t i) { if (i < MAXI) { ++M->done[i]; --M->inside; } }
    ORACLE void m_arm(bool a) { M->armed = a; }
    ORACLE uint32_t m_done(uint64_t i) { return M->done[i]; }
    ORACLE uint32_t m_started(uint64_t i) { return M->started[i]; }
    ORACLE void m_reset() { memset(M, 0, sizeof *M); }
    ORACLE void m_live(int d) { M->live += d; }

    // Something that takes time, in different ways
    void busy(uint32_t style, uint64_t i) {
        switch (style) {
            case 1: if (i%2) std::this_thread::yield(); break;
            case 2: if (i%3 == 0) thread::sleep_for(1e-4*(1+i%4)); break;
            case 3: { volatile uint_t s = 0; for (uint_t k = 0; k < i%20; ++k) s = s + k; break; }
            default: break;
        }
    }

    struct token { // counts how many copies of a job are alive
        uint64_t* p;
        explicit token(uint64_t i) : p(new uint64_t(i)) { m_live(1); }
        token(const token& t) : p(new uint64_t(*t.p)) { m_live(1); }
        token(token&& t) : p(t.p) { t.p = nullptr; m_live(1); }
        ~token() { delete p; m_live(-1); }
    };

    // ---- T02 ----------------------------------------------------------------------------
    void check_all(uint64_t n, const char* when) {
        for (uint64_t i = 0; i < n; ++i) {
            REQUIRE(m_started(i) > 0, "job-lost", "job %llu of %llu was not executed when %s", (unsigned long long)i, (unsigned long long)n, when);
            REQUIRE(m_started(i) == 1, "job-repeated", "job %llu was executed %u times", (unsigned long long)i, m_started(i));
            REQUIRE(m_done(i) == 1, "job-unfinished", "job %llu is not finished when %s", (unsigned long long)i, when);
        }
    }

    void t02_body() {
        uint64_t b0 = sim::live_blocks();
        {
            uint32_t cycles = sim::work(1, 3);
            vec1u out(200);
            uint64_t n = 0;
            bool last_wait = true;
            m_arm(true);
            {
                thread::worker w;
                if (sim::chance(1, 4)) { w.wait(); sim::probe("wait_unused"); }
                for (uint32_t c = 0; c < cycles; ++c) {
                    uint32_t k = sim::work(0, 8), js = sim::work(4), ps = sim::work(3);
                    sim::describe("%s%u jobs (styles %u/%u)", c ? ", " : "", k, js, ps);
                    for (uint32_t j = 0; j < k; ++j) {
                        uint64_t id = n++;
                        token t(id);
                        w.push([t,id,js,&out]() {
                            m_begin(id);
                            busy(js, id);
                            out[id] = out[id] + *t.p + 1;
                            m_end(id);
                        });
                        if (ps == 1) std::this_thread::yield();
                        if (ps == 2) thread::sleep_for(0.03*(j%4));
                    }
                    if (c+1 < cycles || sim::chance(1, 2)) {
                        w.wait();
                        check_all(n, "wait() returned");
                        for (uint64_t i = 0; i < n; ++i) REQUIRE(out.safe[i] == i+1, "job-effect", "effect of job %llu is not visible after wait()", (unsigned long long)i);
                        REQUIRE(sim::live_threads() == 0, "thread-left", "%d threads still run after wait()", sim::live_threads());
                        if (sim::chance(1, 5)) w.wait();
                    } else last_wait = false;
                }
            }
            m_arm(false);
            check_all(n, last_wait ? "the worker was destroyed (after wait())" : "the worker was destroyed");
            for (uint64_t i = 0; i < n; ++i) REQUIRE(out.safe[i] == i+1, "job-effect", "effect of job %llu is not visible", (unsigned long long)i);
            for (uint64_t i = 0; i < n; ++i) REQUIRE(M->order[i] == i, "job-order", "job %u was executed in position %llu", M->order[i], (unsigned long long)i);
            REQUIRE(M->max_inside <= 1, "job-order", "two jobs of one worker were executed at the same time");
            REQUIRE(sim::live_threads() == 0, "thread-left", "%d threads still run after destruction", sim::live_threads());
            if (n) sim::nontrivial();
        }
        REQUIRE(M->live == 0, "leak", "%d copies of the jobs were not destroyed", M->live);
        REQUIRE(sim::live_blocks() == b0, "leak", "%lld blocks of memory were not released", (long long)(sim::live_blocks()-b0));
    }

    void t02() {
        M = sim::shared<model_t>();
        sim::options o; o.threads = true; o.max_steps = 8000000;
        auto r = sim::process(o, []() { t02_body(); });
        REQUIRE(r.ok(), "abnormal-end", "the process ended abnormally (kind %d code %d %s)", r.kind, r.code, r.what.c_str());
    }
    sim::property_t p02("T02", t02, "A run is a background worker given 0-8 jobs in each of 1-3 cycles, waited for or destroyed; "
        "non-trivial: at least one job was pushed");

    // ---- T03 ----------------------------------------------------------------------------
    struct wspace {
        uint_t seed; uint_t count; vec1u scratch; int owner;
        wspace(uint_t s, uint_t n) : seed(s), count(0), scratch(n), owner(-1) {}
    };
    struct task {
        uint_t id; std::unique_ptr<uint_t> p;
        task() : id(0) {}
        explicit task(uint_t i) : id(i), p(new uint_t(i)) {}
    };

    struct expect_t { uint32_t worker[MAXI]; uint32_t n; };

    template<typename Pool, typename Start>
    void pool_life(Pool& pool, uint32_t nthread, const Start& start) {
        uint32_t gens = sim::work(1, 3);
        uint_t n = 0;
        for (uint32_t gen = 0; gen < gens; ++gen) {
            start(pool);
            REQUIRE(pool.size() == nthread, "pool-size", "the pool has %llu workers, expected %u", (unsigned long long)pool.size(), nthread);
            std::vector<std::vector<uint_t>> sent(nthread);
            uint_t first = n;
            uint32_t rounds = sim::work(1, 2);
            bool all = true;
            uint32_t rr = 0;
            for (uint32_t r = 0; r < rounds; ++r) {
                uint32_t k = sim::work(0, 10), mode = sim::work(3), ps = sim::work(3);
                sim::describe("[%u items mode %u]", k, mode);
                for (uint32_t j = 0; j < k; ++j) {
                    uint_t id = n++;
                    bool targeted = mode == 1 || (mode == 2 && sim::chance(1, 2));
                    uint32_t w;
                    if (targeted) { w = sim::work(nthread); pool.process(w, task(id)); }
                    else { w = rr; rr = (rr+1)%nthread; pool.process(task(id)); }
                    sent[w].push_back(id);
                    if (ps == 1) std::this_thread::yield();
                    if (ps == 2 && j%3 == 0) thread::sleep_for(1e-5);
                    if (sim::chance(1, 6)) {
                        uint_t left = pool.remaining();
                        uint_t maxleft = 0;
                        // Items behind one that is still being processed are certainly waiting
                        uint_t minleft = 0;
                        {
                            sim::silent s; maxleft = n - first;
                            for (auto& q : sent) { bool in = false; for (uint_t i : q) { if (in) ++minleft; if (m_started(i) && !m_done(i)) in = true; } }
                        }
                        if (minleft) sim::probe("remaining_while_busy");
                        REQUIRE(left >= minleft, "remaining-wrong", "remaining() is %llu but at least %llu items are waiting", (unsigned long long)left, (unsigned long long)minleft);
                        REQUIRE(left <= maxleft, "remaining-wrong", "remaining() is %llu but only %llu items were given", (unsigned long long)left, (unsigned long long)maxleft);
                    }
                }
                bool consume = r+1 < rounds || sim::chance(3, 4);
                if (consume) {
                    pool.consume_all();
                    REQUIRE(pool.remaining() == 0, "remaining-wrong", "remaining() is not zero after consume_all()");
                } else if (k) { all = false; sim::probe("join_without_consume"); }
            }
            uint32_t end = gen+1 < gens ? sim::work(2) : 0;
            if (end == 0) {
                pool.join();
                REQUIRE(sim::live_threads() == 0, "thread-left", "%d threads still run after join()", sim::live_threads());
                m_arm(false);
            } else {
                sim::probe("restart_running");
                // starting again without join() must stop the previous workers first
            }
            if (end == 0) {
                for (uint32_t w = 0; w < nthread; ++w) {
                    uint64_t last = 0; bool stopped = false; int by = -1;
                    for (uint_t id : sent[w]) {
                        uint32_t s = m_started(id);
                        REQUIRE(s <= 1, "item-repeated", "item %llu was processed %u times", (unsigned long long)id, s);
                        REQUIRE(s == 1 || !all, "item-lost", "item %llu was not processed after consume_all() and join()", (unsigned long long)id);
                        REQUIRE(s == m_done(id), "item-unfinished", "item %llu is not finished after join()", (unsigned long long)id);
                        REQUIRE(!(s && stopped), "item-order", "item %llu was processed but an earlier one of the same worker was not", (unsigned long long)id);
                        if (!s) { stopped = true; continue; }
                        REQUIRE(M->when[id] > last, "item-order", "item %llu was processed out of order", (unsigned long long)id);
                        last = M->when[id];
                        REQUIRE(by < 0 || by == M->by[id], "item-worker", "item %llu was processed by another worker than the one it was given to", (unsigned long long)id);
                        by = M->by[id];
                    }
                }
                // different workers are different threads
                for (uint32_t a = 0; a < nthread; ++a) for (uint32_t b = a+1; b < nthread; ++b) {
                    for (uint_t i : sent[a]) for (uint_t j : sent[b]) {
                        REQUIRE(!m_started(i) || !m_started(j) || M->by[i] != M->by[j], "item-worker",
                            "items %llu and %llu were given to different workers but processed by the same one", (unsigned long long)i, (unsigned long long)j);
                    }
                }
            }
            if (n > first) sim::nontrivial();
            m_arm(true);
        }
        pool.join();
        REQUIRE(sim::live_threads() == 0, "thread-left", "%d threads still run after join()", sim::live_threads());
        for (uint_t i = 0; i < n; ++i) REQUIRE(m_started(i) <= 1, "item-repeated", "item %llu was processed %u times", (unsigned long long)i, m_started(i));
        REQUIRE(M->late == 0, "late-call", "the processing function was called after join()");
    }

    void t03_body() {
        uint64_t b0 = sim::live_blocks();
        m_arm(true);
        uint32_t nthread = sim::work(1, 4), js = sim::work(4);
        bool wsp = sim::chance(1, 2);
        sim::describe("%u workers %s style %u ", nthread, wsp ? "with workspace" : "", js);
        if (wsp) {
            uint_t sd = sim::work(100);
            thread::worker_pool<task, wspace> pool;
            auto f = [js,sd](wspace& w, task& t) {
                m_begin(t.id);
                REQUIRE(t.p && *t.p == t.id, "item-damaged", "item %llu arrived damaged", (unsigned long long)t.id);
                REQUIRE(w.seed == sd && w.scratch.size() == 8, "workspace-damaged", "the workspace was not built from the arguments");
                if (w.owner < 0) w.owner = sim::self();
                REQUIRE(w.owner == sim::self(), "workspace-shared", "a workspace is used by two threads");
                uint_t c = w.count;
                for (uint_t k = 0; k < 8; ++k) w.scratch[k] += t.id;
                busy(js, t.id);
                w.count = c+1;
                m_end(t.id);
            };
            // The pool keeps a copy of the function: the one given does not outlive the call
            pool_life(pool, nthread, [&](thread::worker_pool<task, wspace>& p) { std::unique_ptr<decltype(f)> g(new decltype(f)(f)); p.start(nthread, *g, sd, 8); });
        } else if (sim::chance(1, 2)) {
            thread::worker_pool<task> pool;
            uint_t nout = MAXI; vec1u out(nout);
            auto f = [js,&out](task& t) {
                m_begin(t.id);
                REQUIRE(t.p && *t.p == t.id, "item-damaged", "item %llu arrived damaged", (unsigned long long)t.id);
                busy(js, t.id);
                out[t.id] += t.id+1;
                m_end(t.id);
            };
            pool_life(pool, nthread, [&](thread::worker_pool<task>& p) { std::unique_ptr<decltype(f)> g(new decltype(f)(f)); p.start(nthread, *g); });
            for (uint_t i = 0; i < MAXI; ++i) {
                REQUIRE(out.safe[i] == (m_started(i) ? i+1 : 0), "item-effect", "the effect of item %llu is wrong", (unsigned long long)i);
            }
        } else {
            // Constructor that starts, destructor that joins
            uint32_t k = sim::work(0, 8);
            bool consume = sim::chance(1, 2);
            {
                thread::worker_pool<task> pool(nthread, [js](task& t) { m_begin(t.id); busy(js, t.id); m_end(t.id); });
                for (uint32_t j = 0; j < k; ++j) pool.process(task(j));
                if (consume) pool.consume_all();
            }
            m_arm(false);
            for (uint32_t j = 0; j < k; ++j) {
                REQUIRE(m_started(j) == m_done(j) && m_started(j) <= 1, "item-unfinished", "item %u is not finished after destruction", j);
                REQUIRE(m_started(j) == 1 || !consume, "item-lost", "item %u was not processed after consume_all() and destruction", j);
            }
            REQUIRE(sim::live_threads() == 0, "thread-left", "%d threads still run after destruction", sim::live_threads());
            if (k) sim::nontrivial();
        }
        REQUIRE(M->late == 0, "late-call", "the processing function was called after join()");
        REQUIRE(sim::live_blocks() == b0, "leak", "%lld blocks of memory were not released", (long long)(sim::live_blocks()-b0));
    }

    void t03() {
        M = sim::shared<model_t>();
        sim::options o; o.threads = true; o.max_steps = 8000000; o.max_quantum = 400;
        auto r = sim::process(o, []() { t03_body(); });
        REQUIRE(r.ok(), "abnormal-end", "the process ended abnormally (kind %d code %d %s)", r.kind, r.code, r.what.c_str());
    }
    sim::property_t p03("T03", t03, "A run is a pool of 1-4 workers started 1-3 times and given 0-10 items per round, by name or in turn; "
        "non-trivial: at least one item was given");

    // ---- T04 ----------------------------------------------------------------------------
    void check_loop(uint_t first, uint_t last, const char* how) {
        REQUIRE(M->outside == 0, "loop-outside", "the function was called with an index far outside of the range (%s)", how);
        for (uint_t i = 0; i < MAXI; ++i) {
            bool in = i >= first && i < last;
            if (!in) { REQUIRE(m_started(i) == 0, "loop-outside", "the function was called for %llu, outside of [%llu,%llu) (%s)",
                (unsigned long long)i, (unsigned long long)first, (unsigned long long)last, how); continue; }
            REQUIRE(m_started(i) > 0, "loop-missed", "the function was not called for %llu of [%llu,%llu) (%s)",
                (unsigned long long)i, (unsigned long long)first, (unsigned long long)last, how);
            REQUIRE(m_started(i) == 1, "loop-repeated", "the function was called %u times for %llu of [%llu,%llu) (%s)",
                m_started(i), (unsigned long long)i, (unsigned long long)first, (unsigned long long)last, how);
            REQUIRE(m_done(i) == 1, "loop-unfinished", "execute() returned before the call for %llu of [%llu,%llu) finished (%s)",
                (unsigned long long)i, (unsigned long long)first, (unsigned long long)last, how);
        }
    }

    void t04_body() {
        uint64_t b0 = sim::live_blocks();
        {
            uint32_t nthread = sim::work(6);
            thread::parallel_for p(nthread);
            REQUIRE(p.size() == nthread, "pool-size", "size() is wrong");
            uint32_t execs = sim::work(1, 3);
            for (uint32_t e = 0; e < execs; ++e) {
                m_reset();
                m_arm(true);
                uint_t first = sim::chance(1, 2) ? sim::work(20) : 0;
                uint_t n = sim::chance(1, 6) ? sim::work(60) : sim::work(14);
                // Ranges far from zero: index i of the model is base+i
                uint_t base = 0;
                switch (sim::chance(1, 4) ? sim::work(4) : 9) {
                    case 0 : base = uint_t(1) << 31; break;
                    case 1 : base = (uint_t(1) << 32)-5; break;
                    case 2 : base = (uint_t(1) << 63)-5; break;
                    case 3 : base = ~uint_t(0)-first-n; break;
                }
                p.verbose = sim::chance(1, 4);
                p.chunk_size = sim::chance(1, 2) ? sim::work(1, 8) : 0;
                p.progress_step = sim::work(1, 4);
                p.update_rate = sim::chance(1, 2) ? 0.1 : 1e-5;
                uint32_t js = sim::work(4);
                char how[128];
                snprintf(how, sizeof how, "%u threads, chunk size %llu%s, execution number %u", nthread, (unsigned long long)p.chunk_size,
                    p.verbose ? ", verbose" : "", e+1);
                sim::describe("%s[%llu,%llu) from %llx, %s", e ? "; " : "", (unsigned long long)first, (unsigned long long)(first+n), (unsigned long long)base, how);
                vec1u out(first+n);
                auto f = [&](uint_t bi) {
                    uint_t i = bi-base;
                    m_begin(i);
                    busy(js, i);
                    if (i < first+n) out[i] = i+1;
                    m_end(i);
                };
                if (first == 0 && base == 0 && sim::chance(1, 2)) p.execute(f, n); else p.execute(f, base+first, base+first+n);
                m_arm(false);
                check_loop(first, first+n, how);
                for (uint_t i = first; i < first+n; ++i) REQUIRE(out.safe[i] == i+1, "loop-effect", "the result of %llu is not visible after execute()", (unsigned long long)i);
                REQUIRE(sim::live_threads() == 0, "thread-left", "%d threads still run after execute()", sim::live_threads());
                REQUIRE(M->late == 0, "late-call", "the function was called after execute() returned");
                REQUIRE(M->max_inside <= std::max(1u, nthread), "too-parallel", "%u calls at the same time with %u threads", M->max_inside, nthread);
                if (n && nthread) sim::nontrivial();
            }
        }
        REQUIRE(sim::live_blocks() == b0, "leak", "%lld blocks of memory were not released", (long long)(sim::live_blocks()-b0));
    }

    void t04() {
        M = sim::shared<model_t>();
        sim::options o; o.threads = true; o.max_steps = 8000000;
        auto r = sim::process(o, []() { t04_body(); });
        REQUIRE(r.ok(), "abnormal-end", "the process ended abnormally (kind %d code %d %s)", r.kind, r.code, r.what.c_str());
    }
    sim::property_t p04("T04", t04, "A run is a parallel loop with 0-5 threads executed 1-3 times over a random index range with random "
        "chunk size and progress display; non-trivial: at least one index and one thread");

    // ---- T05 ----------------------------------------------------------------------------
    // A workspace that cannot always be made
    struct fragile {
        std::unique_ptr<uint_t> p;
        fragile(uint32_t rate) : p(new uint_t(0)) { if (rate && sim::fault_chance(1, rate)) { sim::probe("workspace_failure"); throw std::bad_alloc(); } }
    };
    template<typename F>
    bool attempt(const char* what, uint32_t& nfail, const F& f) {
        try { f(); return true; }
        catch (std::system_error& e) { ++nfail; sim::trace("%s reported: %s", what, e.what()); return false; }
        catch (std::bad_alloc& e) { ++nfail; sim::trace("%s reported: %s", what, e.what()); return false; }
    }

    void t05_body(uint64_t* creations) {
        uint32_t kind = sim::work(4), nthread = sim::work(1, 4), n = sim::work(0, 10), tries = sim::work(1, 3), js = sim::work(4);
        static const char* kinds[] = {"parallel loop", "pool", "worker", "pool with workspaces"};
        sim::describe("%s, %u threads, %u items, %u attempts", kinds[kind], nthread, n, tries);
        uint32_t nfail = 0;
        uint64_t b0 = sim::live_blocks();
        if (kind == 0) {
            thread::parallel_for p(nthread);
            for (uint32_t t = 0; t < tries; ++t) {
                m_reset(); m_arm(true);
                bool ok;
                {
                    std::vector<uint_t> out(n);
                    ok = attempt("execute()", nfail, [&]() {
                        p.execute([&](uint_t i) { m_begin(i); busy(js, i); out.at(i) = i; m_end(i); }, n);
                    });
                }
                // 'out' and the function are gone: nobody may call it any more
                m_arm(false);
                REQUIRE(sim::live_threads() == 0, "thread-left", "%d threads of the loop still run after execute() %s", sim::live_threads(), ok ? "returned" : "failed");
                if (ok) check_loop(0, n, "no failure was reported");
                else for (uint_t i = 0; i < MAXI; ++i) REQUIRE(m_started(i) <= 1 && (m_started(i) == 0 || i < n), "loop-repeated", "wrong calls in a failed execute()");
                thread::sleep_for(1.0);
                REQUIRE(M->late == 0, "late-call", "the function was called after execute() %s", ok ? "returned" : "failed");
            }
        } else if (kind == 1) {
            m_arm(true);
            bool ok;
            {
                thread::worker_pool<uint_t> pool;
                for (uint32_t t = 0; t < tries; ++t) {
                    uint_t b = t*n;
                    ok = attempt("start()", nfail, [&]() { pool.start(nthread, [js](uint_t i) { m_begin(i); busy(js, i); m_end(i); }); });
                    if (!ok) continue;
                    REQUIRE(pool.size() == nthread, "pool-size", "start() succeeded with %llu workers instead of %u", (unsigned long long)pool.size(), nthread);
                    for (uint_t i = 0; i < n; ++i) pool.process(b+i);
                    pool.consume_all();
                    if (sim::chance(1, 2)) {
                        pool.join();
                        for (uint_t i = b; i < b+n; ++i) REQUIRE(m_started(i) == 1 && m_done(i) == 1, "item-lost", "item %llu was processed %u times", (unsigned long long)i, m_started(i));
                    }
                }
            }
            REQUIRE(sim::live_threads() == 0, "thread-left", "%d threads of the pool still run after its destruction", sim::live_threads());
        } else if (kind == 3) {
            m_arm(true);
            bool ok; uint32_t rate = sim::work(4)*3;
            {
                thread::worker_pool<uint_t, fragile> pool;
                for (uint32_t t = 0; t < tries; ++t) {
                    uint_t b = t*n;
                    ok = attempt("start()", nfail, [&]() { pool.start(nthread, [js](fragile& w, uint_t i) { m_begin(i); busy(js, i); ++*w.p; m_end(i); }, rate); });
                    if (!ok) continue;
                    REQUIRE(pool.size() == nthread, "pool-size", "start() succeeded with %llu workers instead of %u", (unsigned long long)pool.size(), nthread);
                    for (uint_t i = 0; i < n; ++i) pool.process(b+i);
                    pool.consume_all();
                    if (sim::chance(1, 2)) {
                        pool.join();
                        for (uint_t i = b; i < b+n; ++i) REQUIRE(m_started(i) == 1 && m_done(i) == 1, "item-lost", "item %llu was processed %u times", (unsigned long long)i, m_started(i));
                    }
                }
            }
            REQUIRE(sim::live_threads() == 0, "thread-left", "%d threads of the pool still run after its destruction", sim::live_threads());
        } else {
            m_arm(true);
            uint32_t pushed = 0;
            {
                thread::worker w;
                for (uint32_t t = 0; t < tries; ++t) {
                    for (uint_t i = 0; i < n && pushed < 200; ++i) {
                        uint32_t id = pushed;
                        if (attempt("push()", nfail, [&]() { w.push([id,js]() { m_begin(id); busy(js, id); m_end(id); }); })) ++pushed;
                    }
                    if (sim::chance(1, 2)) w.wait();
                }
            }
            REQUIRE(sim::live_threads() == 0, "thread-left", "%d threads of the worker still run after its destruction", sim::live_threads());
            for (uint_t i = 0; i < pushed; ++i) {
                REQUIRE(m_started(i) == 1 && m_done(i) == 1, "job-lost", "job %llu was accepted but executed %u times", (unsigned long long)i, m_started(i));
                REQUIRE(M->order[i] == i, "job-order", "job %u was executed in position %llu", M->order[i], (unsigned long long)i);
            }
        }
        if (nfail) { sim::nontrivial(); sim::probe("creation_failure_reported", nfail); }
        REQUIRE(sim::live_blocks() == b0, "leak", "%lld blocks of memory were not released", (long long)(sim::live_blocks()-b0));
    }

    void t05() {
        M = sim::shared<model_t>();
        sim::options o; o.threads = true; o.thread_faults = true; o.max_steps = 8000000; o.max_quantum = 400;
        auto r = sim::process(o, []() { t05_body(nullptr); });
        REQUIRE(r.ok(), "abnormal-end", "the process ended abnormally (kind %d code %d %s)", r.kind, r.code, r.what.c_str());
    }
    sim::property_t p05("T05", t05, "A run is a parallel loop, pool or worker whose thread creations fail at random; non-trivial: at least "
        "one creation failure was reported to the caller");
}
