// T08: Fourier transforms and convolutions in several threads at once
#define HARNESS_THREADS
#include "prelude.hpp"
#include <vif.hpp>
#include <vif/math/fourier.hpp>
#include <vif/astro/image.hpp>
#include <dlfcn.h>
#include <map>

using namespace vif;
using namespace vif::astro;

// ---- the FFT library, entered through these functions ----------------------------------
namespace {
    struct buffers { const void* in; size_t nin; bool in_lost; const void* out; size_t nout; };
    struct lib_t {
        int inside = -1;          // thread in the planner
        const char* where = "";
        uint64_t plans = 0, made = 0;
        std::map<fftw_plan, buffers> b;
    };
    lib_t* L = nullptr;

    ORACLE void enter(const char* f) {
        sim::sync_point();
        if (L->inside >= 0) sim::violation("planner-overlap", "%s() is called while another thread is inside %s(), which is not thread-safe", f, L->where);
        L->inside = sim::self(); L->where = f;
        sim::sync_point();
    }
    ORACLE void leave() { sim::sync_point(); L->inside = -1; }
    ORACLE fftw_plan made(fftw_plan p, const buffers& b) {
        sim::silent s;
        L->b[p] = b; ++L->plans; ++L->made;
        return p;
    }
    ORACLE buffers find(fftw_plan p) {
        sim::silent s;
        auto it = L->b.find(p);
        if (it == L->b.end()) sim::violation("plan-invalid", "a plan that does not exist (any more) is used");
        return it->second;
    }
    ORACLE void forget(fftw_plan p) {
        sim::silent s;
        if (L->b.erase(p) == 0) sim::violation("plan-invalid", "a plan is destroyed twice");
        --L->plans;
    }
    ORACLE void touch(const buffers& b) {
        sim::access(b.in, b.nin, b.in_lost);
        sim::access(b.out, b.nout, true);
        sim::sync_point();
    }
    struct real_t {
        decltype(&::fftw_plan_dft_r2c) fftw_plan_dft_r2c;
        decltype(&::fftw_plan_dft_c2r) fftw_plan_dft_c2r;
        decltype(&::fftw_plan_dft) fftw_plan_dft;
        decltype(&::fftw_destroy_plan) fftw_destroy_plan;
        decltype(&::fftw_cleanup) fftw_cleanup;
        decltype(&::fftw_execute) fftw_execute;
        decltype(&::fftw_execute_dft_r2c) fftw_execute_dft_r2c;
        decltype(&::fftw_execute_dft_c2r) fftw_execute_dft_c2r;
        decltype(&::fftw_execute_dft) fftw_execute_dft;
        real_t() {
            void* h = dlopen("libfftw3.so.3", RTLD_NOW);
            if (!h) { fprintf(stderr, "cannot load libfftw3\n"); _exit(3); }
            *(void**)&fftw_plan_dft_r2c = dlsym(h, "fftw_plan_dft_r2c");
            *(void**)&fftw_plan_dft_c2r = dlsym(h, "fftw_plan_dft_c2r");
            *(void**)&fftw_plan_dft = dlsym(h, "fftw_plan_dft");
            *(void**)&fftw_destroy_plan = dlsym(h, "fftw_destroy_plan");
            *(void**)&fftw_cleanup = dlsym(h, "fftw_cleanup");
            *(void**)&fftw_execute = dlsym(h, "fftw_execute");
            *(void**)&fftw_execute_dft_r2c = dlsym(h, "fftw_execute_dft_r2c");
            *(void**)&fftw_execute_dft_c2r = dlsym(h, "fftw_execute_dft_c2r");
            *(void**)&fftw_execute_dft = dlsym(h, "fftw_execute_dft");
        }
    };
    const real_t* R = new real_t;
    size_t total(int rank, const int* n, bool half) { size_t t = 1; for (int i = 0; i < rank; ++i) t *= (i == rank-1 && half) ? n[i]/2+1 : n[i]; return t; }
}

extern "C" {
    ORACLE fftw_plan fftw_plan_dft_r2c(int rank, const int* n, double* in, fftw_complex* out, unsigned flags) {
        auto f = R->fftw_plan_dft_r2c;
        enter("fftw_plan_dft_r2c");
        fftw_plan p; { sim::silent s; p = f(rank, n, in, out, flags); }
        leave();
        return made(p, buffers{in, total(rank, n, false)*8, false, out, total(rank, n, true)*16});
    }
    ORACLE fftw_plan fftw_plan_dft_c2r(int rank, const int* n, fftw_complex* in, double* out, unsigned flags) {
        auto f = R->fftw_plan_dft_c2r;
        enter("fftw_plan_dft_c2r");
        fftw_plan p; { sim::silent s; p = f(rank, n, in, out, flags); }
        leave();
        return made(p, buffers{in, total(rank, n, true)*16, true, out, total(rank, n, false)*8});
    }
    ORACLE fftw_plan fftw_plan_dft(int rank, const int* n, fftw_complex* in, fftw_complex* out, int sign, unsigned flags) {
        auto f = R->fftw_plan_dft;
        enter("fftw_plan_dft");
        fftw_plan p; { sim::silent s; p = f(rank, n, in, out, sign, flags); }
        leave();
        return made(p, buffers{in, total(rank, n, false)*16, false, out, total(rank, n, false)*16});
    }
    ORACLE fftw_plan fftw_plan_dft_r2c_2d(int n0, int n1, double* in, fftw_complex* out, unsigned flags) { int n[] = {n0, n1}; return fftw_plan_dft_r2c(2, n, in, out, flags); }
    ORACLE fftw_plan fftw_plan_dft_c2r_2d(int n0, int n1, fftw_complex* in, double* out, unsigned flags) { int n[] = {n0, n1}; return fftw_plan_dft_c2r(2, n, in, out, flags); }
    ORACLE fftw_plan fftw_plan_dft_2d(int n0, int n1, fftw_complex* in, fftw_complex* out, int sign, unsigned flags) { int n[] = {n0, n1}; return fftw_plan_dft(2, n, in, out, sign, flags); }
    ORACLE fftw_plan fftw_plan_dft_r2c_1d(int n0, double* in, fftw_complex* out, unsigned flags) { return fftw_plan_dft_r2c(1, &n0, in, out, flags); }
    ORACLE fftw_plan fftw_plan_dft_c2r_1d(int n0, fftw_complex* in, double* out, unsigned flags) { return fftw_plan_dft_c2r(1, &n0, in, out, flags); }
    ORACLE fftw_plan fftw_plan_dft_1d(int n0, fftw_complex* in, fftw_complex* out, int sign, unsigned flags) { return fftw_plan_dft(1, &n0, in, out, sign, flags); }
    ORACLE void fftw_destroy_plan(fftw_plan p) {
        auto f = R->fftw_destroy_plan;
        enter("fftw_destroy_plan");
        forget(p);
        { sim::silent s; f(p); }
        leave();
    }
    ORACLE void fftw_cleanup(void) {
        auto f = R->fftw_cleanup;
        enter("fftw_cleanup"); { sim::silent s; f(); } leave();
    }
    ORACLE void fftw_execute(const fftw_plan p) {
        auto f = R->fftw_execute;
        touch(find(p));
        sim::silent s; f(p);
    }
    ORACLE void fftw_execute_dft_r2c(const fftw_plan p, double* in, fftw_complex* out) {
        auto f = R->fftw_execute_dft_r2c;
        buffers b = find(p); b.in = in; b.out = out; touch(b);
        sim::silent s; f(p, in, out);
    }
    ORACLE void fftw_execute_dft_c2r(const fftw_plan p, fftw_complex* in, double* out) {
        auto f = R->fftw_execute_dft_c2r;
        buffers b = find(p); b.in = in; b.out = out; touch(b);
        sim::silent s; f(p, in, out);
    }
    ORACLE void fftw_execute_dft(const fftw_plan p, fftw_complex* in, fftw_complex* out) {
        auto f = R->fftw_execute_dft;
        buffers b = find(p); b.in = in; b.out = out; touch(b);
        sim::silent s; f(p, in, out);
    }
}

namespace {
    typedef std::vector<std::complex<double>> cvec;

    ORACLE cvec flat(const vec2d& v) { cvec r; for (auto d : v.data) r.push_back(d); return r; }
    ORACLE cvec flat(const vec2cd& v) { cvec r; for (auto& d : v.data) r.push_back(std::complex<double>(d)); return r; }

    // Straightforward transform
    ORACLE cvec dft(const cvec& v, uint_t nx, uint_t ny, double sign) {
        cvec r(nx*ny);
        for (uint_t u = 0; u < nx; ++u) for (uint_t w = 0; w < ny; ++w) {
            std::complex<long double> s = 0;
            for (uint_t x = 0; x < nx; ++x) for (uint_t y = 0; y < ny; ++y) {
                long double a = sign*2*3.14159265358979323846L*((long double)((u*x)%nx)/nx + (long double)((w*y)%ny)/ny);
                s += std::complex<long double>(v[x*ny+y])*std::complex<long double>(cosl(a), sinl(a));
            }
            r[u*ny+w] = std::complex<double>(s);
        }
        return r;
    }
    // Keep what the real transform stores
    ORACLE cvec half(const cvec& v, uint_t nx, uint_t ny) {
        cvec r(nx*ny);
        uint_t h = ny/2+1;
        for (uint_t x = 0; x < nx; ++x) for (uint_t y = 0; y < h; ++y) if (x*h+y < r.size()) r[x*h+y] = v[x*ny+y];
        return r;
    }
    ORACLE cvec convolved(const vec2d& m, const vec2d& k) {
        int nx = m.dims[0], ny = m.dims[1], kx = k.dims[0], ky = k.dims[1];
        cvec r(nx*ny);
        for (int x = 0; x < nx; ++x) for (int y = 0; y < ny; ++y) for (int i = 0; i < kx; ++i) for (int j = 0; j < ky; ++j) {
            int u = x - (i - kx/2), v = y - (j - ky/2);
            if (u >= 0 && v >= 0 && u < nx && v < ny) r[x*ny+y] += m.data[u*ny+v]*k.data[i*ky+j];
        }
        return r;
    }
    ORACLE bool same(double a, double b, double m) { return a == b || (a != a && b != b) || std::fabs(a-b) <= 1e-9*(1+m); }
    ORACLE bool equal(const cvec& a, const cvec& b, uint_t& where) {
        for (where = 0; where < a.size() && where < b.size(); ++where)
            if (!same(a[where].real(), b[where].real(), std::abs(b[where])) || !same(a[where].imag(), b[where].imag(), std::abs(b[where]))) return false;
        return a.size() == b.size();
    }

    struct op_t { uint32_t kind; uint32_t im[3]; uint32_t kern; };
    enum { FFT, IFFT, FFTC, IFFTC, CONV, PREP, BATCH, MOVED, TRANS, NKIND };
    const char* name[] = {"fft", "ifft", "fft_c2c", "ifft_c2c", "convolve2d", "convolve2d (prepared kernel)", "convolver", "moved convolver", "transition kernel"};

    struct data_t { std::vector<vec2d> im; std::vector<vec2cd> cim; std::vector<vec2d> kern; };

    // Run one operation, give its results
    std::vector<cvec> run_op(const op_t& o, const data_t& d) {
        std::vector<cvec> r;
        const vec2d& m = d.im[o.im[0]]; const vec2cd& c = d.cim[o.im[0]]; const vec2d& k = d.kern[o.kern];
        switch (o.kind) {
            case FFT:   r.push_back(flat(fft(m))); break;
            case IFFT:  r.push_back(flat(ifft(c))); break;
            case FFTC:  r.push_back(flat(fft_c2c(c))); break;
            case IFFTC: r.push_back(flat(ifft_c2c(c))); break;
            case CONV:  r.push_back(flat(convolve2d(m, k))); break;
            case PREP: {
                uint_t hx, hy;
                vec2cd fk = convolve2d_prepare_kernel(m, k, hx, hy);
                r.push_back(flat(convolve2d(m, fk, hx, hy)));
                break;
            }
            case BATCH: case MOVED: {
                auto b = batch_convolve2d(k);
                for (int i = 0; i < 2; ++i) r.push_back(flat(b.convolve(d.im[o.im[i]])));
                if (o.kind == MOVED) {
                    convolver2d e(std::move(b));
                    r.push_back(flat(e.convolve(d.im[o.im[2]])));
                } else {
                    vec2d t = d.im[o.im[2]];
                    b.inplace_convolve(t);
                    r.push_back(flat(t));
                }
                break;
            }
            case TRANS: { vec2d f = m; f.data[0] += 1000.0; r.push_back(flat(make_transition_kernel(f, d.im[o.im[1]]))); break; }
        }
        return r;
    }

    void t08_body() {
        L = new lib_t;
        {
            data_t d;
            uint32_t nx = sim::work(1, 7), ny = sim::work(1, 7), nim = sim::work(1, 3);
            if (sim::chance(1, 3)) ny = nx;
            for (uint32_t i = 0; i < nim; ++i) {
                vec2d m(nx, ny); for (auto& v : m.data) v = sim::work(0, 20) - 10.0;
                vec2cd c(nx, ny); for (auto& v : c.data) v = std::complex<double>(sim::work(0, 20) - 10.0, sim::work(0, 20) - 10.0);
                d.im.push_back(m); d.cim.push_back(c);
            }
            for (uint32_t i = 0; i < 2; ++i) {
                vec2d k(2*sim::work(0, 2)+1, 2*sim::work(0, 2)+1); for (auto& v : k.data) v = sim::work(0, 10)/2.0;
                d.kern.push_back(k);
            }
            uint32_t nt = sim::work(2, 4);
            std::vector<std::vector<op_t>> prog(nt);
            sim::describe("%ux%u images, %u threads:", nx, ny, nt);
            for (auto& p : prog) {
                uint32_t n = sim::work(1, 2);
                for (uint32_t i = 0; i < n; ++i) {
                    op_t o; o.kind = sim::work(NKIND); if (o.kind == TRANS && nx != ny) o.kind = FFT; for (auto& x : o.im) x = sim::work(nim); o.kern = sim::work(2);
                    p.push_back(o);
                    sim::describe(" %s%s", name[o.kind], i+1 == n ? ";" : ",");
                }
            }
            // What each gives alone
            std::vector<std::vector<std::vector<cvec>>> alone(nt), got(nt);
            for (uint32_t t = 0; t < nt; ++t) for (auto& o : prog[t]) {
                alone[t].push_back(run_op(o, d));
                auto& r = alone[t].back();
                uint_t w; std::vector<cvec> e = r;
                { sim::silent s;
                    if (o.kind == FFT) e[0] = half(dft(flat(d.im[o.im[0]]), nx, ny, -1), nx, ny);
                    if (o.kind == FFTC) e[0] = dft(flat(d.cim[o.im[0]]), nx, ny, -1);
                    if (o.kind == IFFTC) e[0] = dft(flat(d.cim[o.im[0]]), nx, ny, 1);
                    if (o.kind == BATCH || o.kind == MOVED) for (int i = 0; i < 3; ++i) e[i] = convolved(d.im[o.im[i]], d.kern[o.kern]);
                }
                for (uint_t i = 0; i < r.size(); ++i) REQUIRE(equal(r[i], e[i], w), "value", "%s: value %llu of result %llu is (%g,%g), expected (%g,%g)", name[o.kind],
                    (unsigned long long)w, (unsigned long long)i, r[i][w].real(), r[i][w].imag(), e[i][w].real(), e[i][w].imag());
            }
            REQUIRE(L->plans == 0, "plan-leak", "%llu plans were not destroyed", (unsigned long long)L->plans);
            for (uint32_t t = 0; t < nt; ++t) got[t].resize(prog[t].size());
            {
                auto pool = thread::pool(nt);
                for (uint32_t t = 0; t < nt; ++t) pool[t].start([&,t]() {
                    for (uint_t i = 0; i < prog[t].size(); ++i) got[t][i] = run_op(prog[t][i], d);
                });
                for (auto& p : pool) p.join();
            }
            for (uint32_t t = 0; t < nt; ++t) for (uint_t k = 0; k < prog[t].size(); ++k) {
                auto& r = got[t][k]; auto& e = alone[t][k]; uint_t w;
                REQUIRE(r.size() == e.size(), "value", "missing results");
                for (uint_t i = 0; i < r.size(); ++i) REQUIRE(equal(r[i], e[i], w), "concurrent-value", "%s: value %llu of result %llu is (%g,%g), while it is (%g,%g) alone", name[prog[t][k].kind],
                    (unsigned long long)w, (unsigned long long)i, r[i][w].real(), r[i][w].imag(), e[i][w].real(), e[i][w].imag());
            }
            REQUIRE(L->plans == 0, "plan-leak", "%llu plans were not destroyed", (unsigned long long)L->plans);
            sim::probe("plans", L->made);
            sim::nontrivial();
        }
        delete L;
    }

    void t08() {
        sim::options o; o.threads = true; o.max_steps = 40000000;
        auto r = sim::process(o, []() { t08_body(); });
        REQUIRE(r.ok(), "abnormal-end", "the process ended abnormally (kind %d code %d %s)", r.kind, r.code, r.what.c_str());
    }
    sim::property_t p08("T08", t08, "A run is 2-4 threads computing 1-2 transforms or convolutions each; all runs are non-trivial");
}
