// simrt memory: operator new/delete with quarantine, double free and leak detection, and
// injected allocation failures
#include "simrt_core.hpp"
#include <new>
#include <cstdlib>
#include <malloc.h>

namespace sim {
    struct header { uint64_t magic, size, epoch, once; }; // once: made while initialising a static object
    static const uint64_t M_LIVE = 0x51a7e11be5a11ceull, M_DEAD = 0xdeadb10cdeadb10cull;
    enum { QMAX = 1 << 16, TAIL = 24 };
    static void* quar[QMAX];
    static uint64_t q_head = 0, q_tail = 0, q_bytes = 0;
    static uint64_t n_live = 0, b_live = 0;
    static bool armed = false;
    static int64_t fail_at = -1;
    static bool fired = false, sticky = false;

    uint64_t live_blocks() { return n_live; }
    uint64_t live_bytes() { return b_live; }

    void arm_alloc() {
        armed = true; fired = false; fail_at = -1; sticky = false;
        if (!g.opt.alloc_faults) return;
        // 0: no failure
        uint32_t v = fdraw(4);
        if (v == 0) return;
        fail_at = fdraw(v == 1 ? 3 : v == 2 ? 12 : 60);
        sticky = fdraw(3) == 2;
    }
    bool disarm_alloc() { armed = false; return fired; }

    static void* get(size_t n, bool nothrow, uintptr_t pc) {
        if (g.active && me && !me->nohook) {
            ++sh->allocs;
            if (armed && fail_at >= 0) {
                if (fail_at == 0) {
                    count_fault(F_ALLOC);
                    fired = true;
                    if (!sticky) fail_at = -1;
                    trace("allocation of %zu bytes fails", n);
                    if (nothrow) return nullptr;
                    throw std::bad_alloc();
                }
                --fail_at;
            }
            if (b_live + n > g.opt.max_mem || n > (size_t(1) << 40)) {
                if (nothrow) return nullptr;
                throw std::bad_alloc();
            }
        }
        header* h = (header*)malloc(n + sizeof(header) + TAIL);
        if (!h) { if (nothrow) return nullptr; throw std::bad_alloc(); }
        h->magic = M_LIVE; h->size = n; h->epoch = g.active; h->once = g.active && me && me->in_static > 0;
        memset((char*)(h+1) + n, 0xa5, TAIL);
        if (!h->once) ++n_live;
        b_live += n;
        if (g.active) {
            memset((void*)(h+1), 0xcb, n < (1 << 20) ? n : (1 << 20));
            race_clear((uintptr_t)(h+1), n);
        }
        return h+1;
    }

    static void put(void* p, uintptr_t pc) {
        if (!p) return;
        header* h = (header*)p - 1;
        if (h->magic == M_DEAD) {
            if (g.active) violation("double-free", "memory freed twice, second time at +0x%llx", (unsigned long long)pc);
            die("double free in the harness");
        }
        if (h->magic != M_LIVE) {
            if (g.active) violation("bad-free", "delete of a pointer which was not allocated, or of a corrupted block");
            die("bad free in the harness");
        }
        for (int i = 0; g.active && i < TAIL; ++i) if (((unsigned char*)p)[h->size+i] != 0xa5) {
            violation("heap-overflow", "something was written %d bytes after the end of a block of %llu bytes (freed at +0x%llx)",
                i, (unsigned long long)h->size, (unsigned long long)pc);
        }
        if (!h->once) --n_live;
        b_live -= h->size;
        h->magic = M_DEAD;
        if (!g.active) { h->magic = 0; free(h); return; }
        if (me && !me->nohook && me->state != T_DONE) race_free((uintptr_t)p, h->size, pc);
        memset(p, 0xdd, h->size < 4096 ? h->size : 4096);
        quar[q_head++ % QMAX] = h; q_bytes += h->size;
        while (q_bytes > (32u << 20) || q_head - q_tail >= QMAX) {
            header* o = (header*)quar[q_tail++ % QMAX];
            q_bytes -= o->size;
            race_clear((uintptr_t)(o+1), o->size);
            o->magic = 0;
            free(o);
        }
    }
}

#define PC ((uintptr_t)__builtin_return_address(0))
void* operator new(std::size_t n) { return sim::get(n, false, PC); }
void* operator new[](std::size_t n) { return sim::get(n, false, PC); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim::get(n, true, PC); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim::get(n, true, PC); }
void operator delete(void* p) noexcept { sim::put(p, PC); }
void operator delete[](void* p) noexcept { sim::put(p, PC); }
void operator delete(void* p, std::size_t) noexcept { sim::put(p, PC); }
void operator delete[](void* p, std::size_t) noexcept { sim::put(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::put(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::put(p, PC); }

// Memory given back by C libraries has no history any more
extern "C" {
    void __libc_free(void*);
    void* __libc_realloc(void*, size_t);
    void free(void* p) {
        if (p && sim::g.active) sim::race_clear((uintptr_t)p, malloc_usable_size(p));
        __libc_free(p);
    }
    void* realloc(void* p, size_t n) {
        if (p && sim::g.active) sim::race_clear((uintptr_t)p, malloc_usable_size(p));
        return __libc_realloc(p, n);
    }
}
