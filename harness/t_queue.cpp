// T01: single-producer single-consumer queue
#define HARNESS_THREADS
#include "prelude.hpp"
#include <vif.hpp>

using namespace vif;

namespace {
    // What the oracle knows. Written by one thread at a time (the simulator runs one at a time).
    struct model_t {
        uint64_t started, pushed, popped;
        int64_t  live;
        uint64_t base;
    };
    model_t* M;

    ORACLE void m_start() { ++M->started; }
    ORACLE void m_push() { ++M->pushed; }
    ORACLE uint64_t m_pushed() { return M->pushed; }
    ORACLE uint64_t m_started() { return M->started; }
    ORACLE uint64_t m_popped() { return M->popped; }
    // Number of elements that are in the queue for sure (a push that did not return yet may count or not)
    ORACLE uint64_t m_least() { return M->pushed > M->popped ? M->pushed - M->popped : 0; }
    ORACLE void m_pop() { ++M->popped; }
    ORACLE void m_live(int n) { M->live += n; }
    ORACLE int64_t m_get_live() { return M->live; }

    // Elements: what is stored must come out intact
    struct owned {
        uint64_t* p = nullptr;
        owned() { m_live(1); }
        explicit owned(uint64_t i) : p(new uint64_t[3]) { m_live(1); p[0] = i; p[1] = ~i; p[2] = i*31; }
        owned(owned&& o) : p(o.p) { m_live(1); o.p = nullptr; }
        owned& operator = (owned&& o) { if (this != &o) { delete[] p; p = o.p; o.p = nullptr; } return *this; }
        owned(const owned&) = delete;
        ~owned() { delete[] p; m_live(-1); }
        bool is(uint64_t i) const { return p && p[0] == i && p[1] == ~i && p[2] == i*31; }
    };

    template<typename T> struct elem;
    template<> struct elem<uint_t> {
        static uint_t make(uint64_t i) { return i*7+1; }
        static bool is(const uint_t& v, uint64_t i) { return v == i*7+1; }
    };
    template<> struct elem<owned> {
        static owned make(uint64_t i) { return owned(i); }
        static bool is(const owned& v, uint64_t i) { return v.is(i); }
    };
    template<> struct elem<std::string> {
        static std::string make(uint64_t i) { return std::string(i%5 == 0 ? 3 : 40, char('a'+i%26)) + std::to_string(i); }
        static bool is(const std::string& v, uint64_t i) { return v == make(i); }
    };
    template<> struct elem<std::function<uint_t()>> {
        static std::function<uint_t()> make(uint64_t i) {
            std::shared_ptr<uint_t> p(new uint_t(i)); uint_t pad = i*3;
            return [p,pad,i]() { return pad == i*3 ? *p : npos; };
        }
        static bool is(const std::function<uint_t()>& v, uint64_t i) { return v && v() == i; }
    };
    template<> struct elem<vec1u> {
        static vec1u make(uint64_t i) { vec1u v = replicate(i, 1+i%4); return v; }
        static bool is(const vec1u& v, uint64_t i) { return v.size() == 1+i%4 && v.safe[0] == i && v.safe[v.size()-1] == i; }
    };

    template<typename Q>
    void check_size(const Q& q, bool use_empty) {
        uint64_t lo = m_least();
        if (use_empty) {
            bool e = q.empty();
            uint64_t hi = m_started() - m_popped();
            REQUIRE(!(e && lo > 0), "empty-wrong", "empty() is true with at least %llu elements", (unsigned long long)lo);
            REQUIRE(e || hi > 0, "empty-wrong", "empty() is false but the queue has no element");
        } else {
            uint64_t n = q.size();
            uint64_t hi = m_started() - m_popped();
            REQUIRE(n >= lo && n <= hi, "size-wrong", "size() is %llu, expected between %llu and %llu",
                (unsigned long long)n, (unsigned long long)lo, (unsigned long long)hi);
        }
    }

    template<typename T>
    void consume(thread::lock_free_queue<T>& q, uint64_t from, uint64_t n, uint32_t style) {
        uint64_t got = from;
        T t{};
        uint32_t k = 0;
        while (got < from+n) {
            ++k;
            if (style == 1 && k%2) check_size(q, false);
            if (style == 2 && k%2) check_size(q, true);
            uint64_t lo = m_least();
            bool r = q.pop(t);
            if (r) {
                REQUIRE(m_started() > m_popped(), "invented", "pop() returned an element which was not pushed");
                m_pop();
                REQUIRE(elem<T>::is(t, got), "wrong-element", "element number %llu did not come out intact and in order",
                    (unsigned long long)got);
                ++got;
            } else {
                REQUIRE(lo == 0, "missed", "pop() returned false with %llu elements in the queue", (unsigned long long)lo);
                if (style == 3) thread::sleep_for(1e-5);
                else if (style == 4) std::this_thread::yield();
            }
        }
    }

    template<typename T>
    void produce(thread::lock_free_queue<T>& q, uint64_t from, uint64_t n, uint32_t style) {
        for (uint64_t i = from; i < from+n; ++i) {
            m_start();
            q.push(elem<T>::make(i));
            m_push();
            if (style == 1) std::this_thread::yield();
            if (style == 2 && i%3 == 0) thread::sleep_for(1e-6);
        }
    }

    template<typename T>
    void life() {
        uint32_t rounds = sim::work(1, 3);
        sim::describe("%u rounds:", rounds);
        uint64_t blocks0 = sim::live_blocks();
        {
            thread::lock_free_queue<T> q;
            uint64_t next = 0;
            for (uint32_t r = 0; r < rounds; ++r) {
                uint64_t n = sim::work(1, 12);
                uint64_t left = sim::chance(1, 3) ? sim::work((uint32_t)n+1) : 0;
                uint32_t ps = sim::work(3), cs = sim::work(5), role = sim::work(3);
                sim::describe(" push %llu pop %llu (styles %u/%u, roles %u)", (unsigned long long)n,
                    (unsigned long long)(n-left), ps, cs, role);
                if (role == 0) {
                    std::thread c([&]() { consume(q, next, n-left, cs); });
                    produce(q, next, n, ps);
                    c.join();
                } else if (role == 1) {
                    std::thread p([&]() { produce(q, next, n, ps); });
                    consume(q, next, n-left, cs);
                    p.join();
                } else {
                    std::thread p([&]() { produce(q, next, n, ps); });
                    std::thread c([&]() { consume(q, next, n-left, cs); });
                    p.join();
                    c.join();
                }
                check_size(q, false);
                check_size(q, true);
                next += n;
                uint32_t after = sim::work(3);
                if (after == 0 || left == 0 || r+1 == rounds) {
                    if (after == 2 && r+1 == rounds) break; // destroy with elements inside
                    consume(q, next-left, left, 0);
                } else {
                    // clear() when nobody else uses the queue, then use it again
                    q.clear();
                    sim::probe("clear_nonempty");
                    for (uint64_t i = 0; i < left; ++i) m_pop();
                    REQUIRE(q.empty() && q.size() == 0, "clear", "the queue is not empty after clear()");
                    T t{};
                    REQUIRE(!q.pop(t), "clear", "pop() returned an element after clear()");
                }
            }
        }
        REQUIRE(m_get_live() == 0, "leak", "%lld elements were never destroyed, or destroyed twice", (long long)m_get_live());
        REQUIRE(sim::live_blocks() == blocks0, "leak", "%lld blocks of memory were not released",
            (long long)(sim::live_blocks()-blocks0));
        sim::nontrivial();
    }

    // Memory used does not grow with the number of elements that went through
    void steady() {
        uint32_t n = sim::work(60, 200);
        sim::describe("steady state, %u elements", n);
        thread::lock_free_queue<uint_t> q;
        uint64_t worst = 0, b0 = sim::live_blocks();
        for (uint32_t i = 0; i < n; ++i) {
            m_start(); q.push(i); m_push();
            uint_t t; bool r = q.pop(t); m_pop();
            REQUIRE(r && t == i, "wrong-element", "element %u did not come out", i);
            worst = std::max(worst, sim::live_blocks()-b0);
        }
        REQUIRE(worst < 50, "memory-growth", "%llu blocks in use by a queue that never has more than one element",
            (unsigned long long)worst);
        sim::nontrivial();
    }

    void scenario() {
        M = sim::shared<model_t>();
        uint32_t type = sim::work(11);
        sim::options o; o.threads = true; o.thread_faults = false;
        auto r = sim::process(o, [=]() {
            switch (type) {
                case 0: case 1: life<uint_t>(); break;
                case 2: case 3: case 4: life<owned>(); break;
                case 5: case 6: life<std::string>(); break;
                case 7: life<vec1u>(); break;
                case 8: case 9: life<std::function<uint_t()>>(); break;
                default: steady();
            }
        });
        REQUIRE(r.ok(), "abnormal-end", "the process ended abnormally (kind %d code %d %s)", r.kind, r.code, r.what.c_str());
    }

    sim::property_t prop("T01", scenario, "A run is a queue of a random element type used by one producer and one consumer thread "
        "for 1-3 rounds of 1-12 elements under a seeded schedule; non-trivial: reached the end of its workload");
}
