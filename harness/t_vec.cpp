// T06: vectors shared between threads, T10: re-entrancy of library functions
#define HARNESS_THREADS
#include "prelude.hpp"
#include <vif.hpp>
#include <vif/math/optimize.hpp>
#include <vif/math/convex_hull.hpp>
#include <vif/math/mpfit.hpp>
#include <vif/astro/astro.hpp>
#include <vif/astro/template_fit.hpp>
#include <vif/astro/qstack.hpp>
#include <vif/astro/ds9.hpp>
#include <dlfcn.h>
#include <ctime>

// ---- functions of the C library that keep a hidden state: make it visible -----------------
namespace {
    struct hidden_t { struct tm tm; char text[64]; uint64_t rnd; char* tok; int sig; } H;
    ORACLE void uses(void* p, size_t n) { sim::access(p, n, true); sim::sync_point(); }
}
extern "C" {
    ORACLE struct tm* localtime(const time_t* t) { struct tm r; { sim::silent s; localtime_r(t, &r); } uses(&H.tm, sizeof H.tm); H.tm = r; sim::sync_point(); return &H.tm; }
    ORACLE struct tm* gmtime(const time_t* t) { struct tm r; { sim::silent s; gmtime_r(t, &r); } uses(&H.tm, sizeof H.tm); H.tm = r; sim::sync_point(); return &H.tm; }
    ORACLE char* asctime(const struct tm* t) { uses(H.text, sizeof H.text); asctime_r(t, H.text); sim::sync_point(); return H.text; }
    ORACLE char* ctime(const time_t* t) { uses(H.text, sizeof H.text); ctime_r(t, H.text); sim::sync_point(); return H.text; }
    ORACLE int rand(void) { uses(&H.rnd, sizeof H.rnd); H.rnd = H.rnd*6364136223846793005ull + 1442695040888963407ull; return (H.rnd >> 33) & 0x7fffffff; }
    ORACLE void srand(unsigned s) { uses(&H.rnd, sizeof H.rnd); H.rnd = s; }
    ORACLE long random(void) { return rand(); }
    ORACLE double drand48(void) { return rand()/2147483648.0; }
    ORACLE char* strtok(char* s, const char* d) { uses(&H.tok, sizeof H.tok); char* r = strtok_r(s, d, &H.tok); sim::sync_point(); return r; }
    ORACLE char* setlocale(int, const char*) { uses(&H.sig, sizeof H.sig); return const_cast<char*>("C"); }
}

using namespace vif;

namespace {
    typedef std::string res;

    template<typename T> void put(res& r, const T& t) { std::ostringstream s; s.precision(17); s << t << '|'; r += s.str(); }
    void put(res& r, char c) { r += std::to_string(int(c)); r += '|'; }
    template<std::size_t D, typename T> void put(res& r, const vec<D,T>& v) {
        r += '{'; for (auto d : v.dims) { r += std::to_string(d); r += ','; } r += ':';
        for (uint_t i = 0; i < v.data.size(); ++i) put(r, v.safe[i]);
        r += '}';
    }
    template<typename T, std::size_t N> void put(res& r, const std::array<T,N>& v) { for (auto& e : v) put(r, e); }
    template<typename T, typename U> void put(res& r, const std::pair<T,U>& v) { put(r, v.first); put(r, v.second); }

    // ---- T06: operations on shared vectors ------------------------------------------------
    struct shared_t {
        vec1d x, y; vec2d m; vec1u id; vec1s s; vec1b b; vec1i k; vec3f c; vec1f f;
    };
    typedef void (*op06)(const shared_t&, uint32_t, res&);
    const op06 ops06[] = {
        [](const shared_t& v, uint32_t p, res& r) { put(r, v.x[p%v.x.size()]); put(r, v.m(p%v.m.dims[0], p%v.m.dims[1])); put(r, v.x.safe[0]); put(r, v.x[-1]); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, v.x[v.id]); put(r, v.s[v.id]); put(r, v.x.safe[v.id]); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, v.m(_, p%v.m.dims[1])); put(r, v.m(p%v.m.dims[0], _)); put(r, v.m(_,_)); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, v.x[_]); put(r, v.x[p%v.x.size()-_]); put(r, v.x[_-p%v.x.size()]); put(r, v.x[0-_-p%v.x.size()]); },
        [](const shared_t& v, uint32_t p, res& r) { double t = 0; for (double e : v.x) t += e; for (auto& e : v.m) t -= e; put(r, t); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, v.x + v.y); put(r, v.x*2.0 - v.y/3.0); put(r, -v.m); put(r, v.k*2 + 1); put(r, pow(v.x, 2.0)); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, where(v.x > v.y)); put(r, where(v.b)); put(r, !v.b); put(r, v.x >= 0 && v.b); put(r, count(v.x == v.y)); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, total(v.x)); put(r, mean(v.m)); put(r, min(v.x)); put(r, max(v.m)); put(r, rms(v.x)); put(r, stddev(v.x)); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, median(v.x)); put(r, percentile(v.m, 0.3)); put(r, sort(v.x)); put(r, reverse(v.x)); put(r, mad(v.x)); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, partial_total(0, v.m)); put(r, partial_mean(1, v.m)); put(r, partial_median(0, v.m)); put(r, partial_max(1, v.m)); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, transpose(v.m)); put(r, flatten(v.m)); put(r, reform(v.m, v.m.dims[1], v.m.dims[0])); put(r, v.m.dims); put(r, v.m.size()); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, unique_values(v.k)); put(r, unique_ids(v.x)); put(r, is_any_of(v.k, v.k[v.id])); put(r, is_any_of(v.s[0], v.s)); },
        [](const shared_t& v, uint32_t p, res& r) { vec1u a, b; match(v.k[unique_ids(v.k)], indgen<int_t>(5), a, b); put(r, a); put(r, b); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, to_string_vector(v.x)); put(r, to_upper(v.s)); put(r, collapse(v.s, ",")); put(r, length(v.s)); put(r, v.s + "x"); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, regex_match(v.s, "a+b")); put(r, begins_with(v.s, "a")); put(r, replace(v.s, "a", "zz")); put(r, trim(v.s, "a")); },
        [](const shared_t& v, uint32_t p, res& r) { vec1d c = v.x; c += v.y; c[_] = 1.0; put(r, c); vec1d e = v.x[v.id]; e *= 2; put(r, e); },
        [](const shared_t& v, uint32_t p, res& r) { vec1d c = v.x; append(c, v.y); prepend(c, v.x); inplace_sort(c); put(r, c); put(r, remove(v.x, vec1u{0})); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, v.c(p%v.c.dims[0], _, _)); put(r, v.c(_, _, 0)); for (auto& e : v.m.stride(_, 0)) put(r, e); put(r, v.c(0, 0, _)); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, v.x[where(v.x > -20)][0]); auto w = v.x[v.id]; put(r, w*2); put(r, total(w)); put(r, w[0]); put(r, w.concretise()); put(r, max(w)); },
        [](const shared_t& v, uint32_t p, res& r) { vec2d b = make_bins(-10.0, 10.0, 5); put(r, histogram(v.x, b)); put(r, in_bin(v.x, b, 2)); put(r, histogram(v.x, v.y, b)); },
        [](const shared_t& v, uint32_t p, res& r) { vec1d gx = indgen<double>(v.x.size()); put(r, interpolate(v.x, gx, vec1d{0.5, 1.25})); put(r, interpolate(v.x, gx, 0.75)); put(r, integrate(gx, v.x)); put(r, cumul(gx, v.y)); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, minmax(v.x)); put(r, min_id(v.x)); put(r, max_id(v.m)); put(r, weighted_mean(v.x, abs(v.y)+1.0)); put(r, fraction_of(v.b)); },
        [](const shared_t& v, uint32_t p, res& r) { vec1d o(v.x.dims); for (uint_t i : range(v.x)) o[i] = sqrt(sqr(v.x[i]) + sqr(v.y[i])); put(r, o); put(r, shift(v.x, 1)); put(r, replicate(v.x, 2)); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, v.f + v.k); put(r, floor(v.f)); put(r, vec1d(v.f)); put(r, vec1i(v.x)); put(r, is_finite(v.x)); put(r, abs(v.x)); put(r, cos(v.x)); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, lower_bound(v.y[sort(v.y)].concretise(), 0.5)); put(r, is_sorted(v.y)); put(r, set_union(v.k, v.k)); put(r, complement(v.x, v.id)); },
        [](const shared_t& v, uint32_t p, res& r) { std::ostringstream o; o << v.x << v.m << v.s << v.b << v.x[v.id]; r += o.str(); put(r, to_string(v.k)); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, v.x.front()); put(r, v.x.back()); put(r, v.x.empty()); put(r, flat_id(v.m, 1, 0)); put(r, mult_ids(v.m, 1)); put(r, v.m.pitch(0)); put(r, v.m.raw_data()[0]); },
        [](const shared_t& v, uint32_t p, res& r) { put(r, reduce(0, v.m, [](vec1d z) { return total(z); })); put(r, sigma_clip(v.x, 2.0)); put(r, partial_count(0, v.m > 0)); put(r, partial_percentile(1, v.m, 0.4)); },
    };
    enum { NOP06 = sizeof(ops06)/sizeof(ops06[0]) };

    struct out_t { vec1d a; vec2d r; vec1b b; vec1s s; vec1u u; vec2i q; vec1d w; };

    // Writes of one thread, in its part of the vectors
    void write06(const shared_t& v, out_t& o, uint32_t kind, uint32_t t, uint32_t nt, uint32_t n) {
        switch (kind) {
            case 0: for (uint_t i = 0; i < n; ++i) { o.a[t*n+i] = v.x[i%v.x.size()]*t; o.b[t*n+i] = (i+t)%2; o.u.safe[i*nt+t] = i*7+t; } break;
            case 1: o.r(t,_) = v.x[0]*(t+1); o.s[t] = v.s[t%v.s.size()]+"!"; break;
            case 2: { vec1u ids = reverse(indgen<uint_t>(n) + t*n); o.a[ids] = indgen<double>(n) + t; o.b[ids] = true; } break;
            case 3: o.a[t*n-_-(t*n+n-1)] = 3.0*t; o.q(_, t) = int_t(t); break;
            case 4: for (uint_t i = 0; i < n; ++i) { o.a[t*n+i] += 2; o.a.safe[t*n+i] *= t+1; ++o.u[i*nt+t]; } break;
            case 5: { auto w = o.r(t,_); w = v.x[0]; w += 1.0; for (auto& e : w) e *= 2; } o.b[t*n-_-(t*n+n-1)] = (t % 2 == 0); break;
            case 6: { auto w = o.r(t,_); for (uint_t i : range(w)) w[i] = i*t; inplace_sort(w); o.r(t,_) *= 3.0; } break;
            case 7: for (auto& e : o.q.stride(_, t)) e = 5+t; o.r.safe(t,_) = indgen<double>(o.r.dims[1]); break;
        }
    }

    void t06_body() {
        {
            shared_t v;
            uint32_t n = sim::work(2, 9);
            v.x = vec1d(n); for (auto& e : v.x.data) e = sim::work(0, 20)/2.0 - 5;
            v.y = vec1d(n); for (auto& e : v.y.data) e = sim::work(0, 20)/2.0 - 5;
            v.m = vec2d(sim::work(2, 4), sim::work(2, 4)); for (auto& e : v.m.data) e = sim::work(0, 20) - 10.0;
            v.id = vec1u(sim::work(1, std::min(n, 4u))); for (auto& e : v.id.data) e = sim::work(n);
            v.s = vec1s(n); for (auto& e : v.s.data) { static const char* t[] = {"a", "aab", "a longer string, on the heap", "", "ab ab"}; e = t[sim::work(5)]; }
            v.b = vec1b(n); for (auto& e : v.b.data) e = sim::work(2);
            v.k = vec1i(n); for (auto& e : v.k.data) e = sim::work(5);
            v.f = vec1f(n); for (auto& e : v.f.data) e = sim::work(50)/4.0f;
            v.c = vec3f(2, sim::work(1, 3), 2); for (auto& e : v.c.data) e = sim::work(50)/4.0f;
            uint32_t nt = sim::work(2, 4), nw = sim::work(1, 4);
            struct step { bool write; uint32_t kind, p; };
            std::vector<std::vector<step>> prog(nt);
            sim::describe("%u threads:", nt);
            for (auto& q : prog) {
                uint32_t k = sim::work(1, 4);
                for (uint32_t i = 0; i < k; ++i) {
                    step s; s.write = sim::chance(1, 3); s.kind = s.write ? sim::work(8) : sim::work(NOP06); s.p = sim::work(10);
                    q.push_back(s);
                    sim::describe(" %s%u%s", s.write ? "write" : "read", s.kind, i+1 == k ? ";" : ",");
                }
            }
            auto fresh = [&](out_t& o) {
                o.a = vec1d(nt*nw); o.r = vec2d(nt, nw+1); o.b = vec1b(nt*nw); o.s = vec1s(nt); o.u = vec1u(nt*nw); o.q = vec2i(nw, nt);
            };
            auto play = [&](uint32_t t, out_t& o, std::vector<res>& r) {
                for (auto& s : prog[t]) {
                    r.push_back(res());
                    if (s.write) write06(v, o, s.kind, t, nt, nw); else ops06[s.kind](v, s.p, r.back());
                }
            };
            auto content = [](const out_t& o) { res r; put(r, o.a); put(r, o.r); put(r, o.b); put(r, o.s); put(r, o.u); put(r, o.q); return r; };
            out_t oa, og; fresh(oa); fresh(og);
            std::vector<std::vector<res>> alone(nt), got(nt);
            bool first = sim::chance(1, 2); // (what is initialised once must also be when threads are running)
            if (first) for (uint32_t t = 0; t < nt; ++t) play(t, oa, alone[t]);
            {
                auto pool = thread::pool(nt);
                for (uint32_t t = 0; t < nt; ++t) pool[t].start([&,t]() { play(t, og, got[t]); });
                for (auto& p : pool) p.join();
            }
            if (!first) for (uint32_t t = 0; t < nt; ++t) play(t, oa, alone[t]);
            for (uint32_t t = 0; t < nt; ++t) for (uint_t i = 0; i < prog[t].size(); ++i)
                REQUIRE(got[t][i] == alone[t][i], "concurrent-value", "operation %s%u gives %s, while it gives %s alone", prog[t][i].write ? "write" : "read", prog[t][i].kind,
                    got[t][i].c_str(), alone[t][i].c_str());
            REQUIRE(content(og) == content(oa), "concurrent-write", "the threads wrote %s, while it should be %s", content(og).c_str(), content(oa).c_str());
            sim::nontrivial();
        }
    }

    void t06() {
        sim::options o; o.threads = true; o.max_steps = 40000000;
        auto r = sim::process(o, []() { t06_body(); });
        REQUIRE(r.ok(), "abnormal-end", "the process ended abnormally (kind %d code %d %s)", r.kind, r.code, r.what.c_str());
    }
    sim::property_t p06("T06", t06, "A run is 2-4 threads making 1-4 operations each on shared vectors (reading, or writing distinct elements); all runs are non-trivial");

    // ---- T10: functions on private data ---------------------------------------------------
    struct mine_t { vec1d x, y; vec2d m; std::string s; double d; uint32_t p; };
    typedef void (*op10)(mine_t&, res&);
    matrix::mat2d sym(const mine_t& v) { matrix::mat2d a(3, 3); for (uint_t i : range(3)) for (uint_t j : range(3)) a(i,j) = (i == j ? 6.0+i : 1.0/(1+i+j)); a(0,1) = a(1,0) = v.d*0.1; return a; }
    vec2d grid(const mine_t& v) { vec2d m(6, 6); for (uint_t i : range(m)) m[i] = ((i*7 + v.p*3)%11)*0.5 - 2; return m; }
    struct lib_t { vec2d lam, sed; explicit lib_t(uint32_t p) : lam(2, 12), sed(2, 12) { for (uint_t i : range(2)) for (uint_t k : range(12)) { lam(i,k) = 1.0+k; sed(i,k) = 1.0 + (i+1)*k*0.1 + p*0.01*k*k; } } };
    vec<1,astro::filter_t> bands() {
        vec<1,astro::filter_t> f;
        for (uint_t i : range(3)) { astro::filter_t b; double l = 3.0+2.0*i; b.lam = {l-1, l-0.5, l+0.5, l+1}; b.res = {0.0, 0.7, 0.7, 0.0}; b.rlam = l; f.push_back(b); }
        return f;
    }
    const char* name10[] = {"to_string", "from_string", "today", "time_str", "random", "random pdf", "shuffle", "statistics", "sort", "interpolate", "hull", "matrix", "string", "regex",
        "split", "format", "hash", "path", "coordinates", "distance", "fit", "integrate", "histogram", "minimise", "sets", "vectorize", "sky area",
        "solve", "decompositions", "matrices", "bins", "linear fits", "linear batch fits", "complex", "sequences", "mpfitfun", "minimize_bfgs", "interpolation", "percentiles", "run_dim", "words", "text",
        "searches", "rearrangements", "positions", "cosmology", "field area", "random positions", "spectra", "image shapes", "image transforms", "segmentation", "point spread functions",
        "stacks", "template fits", "multiple template fits", "region masks", "clustered positions"};
    const op10 ops10[] = {
        [](mine_t& v, res& r) { put(r, to_string(v.d)); put(r, to_string(v.x)); put(r, to_string(v.p)); put(r, to_string_vector(v.x)); put(r, to_string(format::scientific(v.d))); put(r, to_string(format::precision(v.d, 3))); },
        [](mine_t& v, res& r) { double d = 0; int_t i = 0; put(r, from_string("3.25", d)); put(r, d); put(r, from_string(v.s, i)); put(r, i); vec1d o; put(r, from_string(vec1s{"1","x","2.5"}, o)); put(r, o); },
        [](mine_t& v, res& r) { put(r, today()); },
        [](mine_t& v, res& r) { put(r, time_str(v.d*v.d*1000 + 1e-5)); put(r, seconds_str(std::fabs(v.d))); },
        [](mine_t& v, res& r) { auto s = make_seed(v.p); put(r, randomn(s)); put(r, randomu(s, 3)); put(r, randomi(s, 0, 100)); put(r, randomn(s, 2, 2)); put(r, randomn(s, 3)); put(r, randomi(s, 1, 6, 4)); put(r, random_coin(s, 0.5, 5)); },
        [](mine_t& v, res& r) { auto s = make_seed(v.p+1); put(r, random_pdf(s, vec1d{0.0,1.0,2.0}, vec1d{1.0,2.0,1.0}, 4)); put(r, random_pdf_discrete(s, vec1d{1.0,2.0,1.0}, 4)); put(r, random_pdf(s, vec1d{0.0,1.0,2.0}, vec1d{1.0,2.0,1.0})); },
        [](mine_t& v, res& r) { auto s = make_seed(v.p+2); put(r, shuffle(s, v.x)); inplace_shuffle(s, v.y); put(r, v.y); },
        [](mine_t& v, res& r) { put(r, mean(v.x)); put(r, median(v.x)); put(r, inplace_median(v.y)); put(r, percentiles(v.x, 0.2, 0.8)); put(r, stddev(v.x)); put(r, weighted_median(v.x, abs(v.x)+1.0)); put(r, optimal_mean(v.x, abs(v.x)+1.0)); put(r, percent_of(v.x > 0)); },
        [](mine_t& v, res& r) { put(r, sort(v.x)); inplace_sort(v.y); put(r, v.y); put(r, sort(v.x, [](double a, double b) { return a > b; })); put(r, unique_values(v.x)); },
        [](mine_t& v, res& r) { vec1d g = indgen<double>(v.x.size()); put(r, interpolate(v.x, g, vec1d{0.25, 1.5})); put(r, interpolate_3spline(v.x, g, vec1d{0.25, 0.5})); put(r, bilinear(v.m, 0.5, 0.25)); put(r, rebin(v.m, vec1d{0.0, 1.0}, vec1d{0.0, 1.0}, vec1d{0.5}, vec1d{0.5})); },
        [](mine_t& v, res& r) { auto h = build_convex_hull(v.x, v.y); put(r, h.x); put(r, h.y); put(r, in_convex_hull(0.1, 0.2, h)); put(r, convex_hull_distance(0.1, 0.2, h)); put(r, in_convex_hull(v.x, v.y, h)); },
        [](mine_t& v, res& r) { matrix::mat2d a(2, 2); a(0,0) = v.d+10; a(0,1) = 1; a(1,0) = 2; a(1,1) = 5; matrix::mat2d b; put(r, matrix::invert(a, b)); put(r, b.base); auto c = a*b; put(r, c.base); put(r, matrix::make_rotation(v.d).base); },
        [](mine_t& v, res& r) { put(r, trim("  "+v.s+" ")); put(r, to_upper(v.s)); put(r, replace(v.s, "a", "bb")); put(r, align_right(v.s, 12, '0')); put(r, align_center(v.s, 9)); put(r, distance(v.s, "abcd")); put(r, keep_first(v.s, 3)); put(r, begins_with(v.s, "a")); put(r, erase_end(v.s+"zz", 2)); },
        [](mine_t& v, res& r) { put(r, regex_match(v.s, "^[a-z]+[0-9]*$")); put(r, regex_extract("a1 b22 c333", "([a-z])([0-9]+)")); put(r, regex_replace("a1 b22", "([a-z])([0-9]+)", [](const vec1s& m) { return m[1]+"-"+m[0]; })); },
        [](mine_t& v, res& r) { put(r, split("a,b,"+v.s, ",")); put(r, split_any_of("a b,c", " ,")); put(r, cut("abcdefgh", 3)); put(r, wrap("some words to be wrapped around", 12)); put(r, collapse(split("a b", " "), "-")); },
        [](mine_t& v, res& r) { std::ostringstream o; o << v.x << " " << v.m; r += o.str(); },
        [](mine_t& v, res& r) { put(r, hash(v.s, v.d, v.x)); put(r, hash("abc")); },
        [](mine_t& v, res& r) { put(r, file::get_basename("a/b/"+v.s)); put(r, file::get_directory("a/b/c")); put(r, file::get_extension("x.tar.gz")); put(r, file::directorize("a")); put(r, file::split_extension("q.fits").first); put(r, file::remove_extension("w.cat")); },
        [](mine_t& v, res& r) { double a, d; put(r, astro::sex2deg("10:30:00", "-02:15:30.5", a, d)); put(r, a); put(r, d); std::string s, t; astro::deg2sex(157.5+v.p, -2.25, s, t); put(r, s); put(r, t); },
        [](mine_t& v, res& r) { put(r, astro::angdist(10.0, 20.0, 10.1+v.d/100, 20.1)); auto cosmo = astro::get_cosmo("std"); put(r, astro::lumdist(1.0+v.p*0.1, cosmo)); put(r, astro::propsize(0.5, cosmo)); },
        [](mine_t& v, res& r) { vec1d e = replicate(1.0, v.x.size()); auto f = linfit(v.x, e, 1.0, indgen<double>(v.x.size())); put(r, f.success); put(r, f.params); put(r, f.chi2); },
        [](mine_t& v, res& r) { put(r, integrate_func([&](double z) { return z*z + v.p; }, 0.0, 1.0)); vec1d g = indgen<double>(v.x.size()); put(r, integrate(g, v.x)); put(r, cumul(g, v.x)); put(r, integrate_gauss(-1.0, 1.0, 0.0, 1.0)); },
        [](mine_t& v, res& r) { vec2d b = make_bins(-5.0, 5.0, 4); put(r, histogram(v.x, b)); put(r, histogram2d(v.x, v.y, b, b)); put(r, bin_center(b)); },
        [](mine_t& v, res& r) { auto f = mpfit([&](const vec1d& p) { return v.x - p[0]; }, vec1d{0.5}); put(r, f.success); put(r, f.params); },
        [](mine_t& v, res& r) { put(r, set_intersection(v.x, v.y)); put(r, set_union(v.x, v.y)); put(r, complement(v.x, vec1u{0})); put(r, is_any_of(v.x, v.y)); put(r, equal_range(vec1d{1.0, 2.0, 2.0, 3.0}, 2.0)); },
        [](mine_t& v, res& r) { auto f = vectorize_lambda([&](double z) { return z*v.d; }); put(r, f(v.x)); put(r, f(2.0)); put(r, clamp(v.x, -1.0, 1.0)); put(r, e10(v.x/10)); },
        [](mine_t& v, res& r) { vec1d ra = {10.0, 10.5, 10.5, 10.0}, de = {0.0, 0.0, 0.5+v.p*0.1, 0.5}; put(r, astro::field_area_hull(ra, de)); put(r, astro::mag2uJy(20.0+v.p)); put(r, astro::uJy2mag(3.0)); },
        // matrices
        [](mine_t& v, res& r) { matrix::mat2d a = sym(v), b; vec1d s, w; put(r, matrix::determinant(a)); put(r, matrix::solve(a, vec1d{1.0, v.d, 2.0}, s)); put(r, s); put(r, matrix::solve_symmetric(a, vec1d{1.0, v.d, 2.0}, s)); put(r, s); put(r, matrix::invert_symmetric(a, b)); matrix::inplace_symmetrize(b); put(r, b.base); put(r, matrix::eigen_symmetric(a, w, b)); put(r, w); put(r, matrix::diagonal(a)); },
        [](mine_t& v, res& r) { matrix::mat2d a = sym(v); matrix::decompose_cholesky c; put(r, c.decompose(a)); put(r, c.log_lower_determinant()); put(r, c.lower_determinant()); put(r, c.lower_inverse().base); put(r, c.substitute_forward(vec1d{1.0, 2.0, v.d})); put(r, c.substitute_backward(vec1d{1.0, 2.0, v.d})); put(r, c.solve(vec1d{1.0, v.d, 2.0})); put(r, c.invert().base); matrix::decompose_lu l; put(r, l.decompose(a)); put(r, l.solve(vec1d{1.0, v.d, 2.0})); put(r, l.determinant()); put(r, l.invert().base); },
        [](mine_t& v, res& r) { put(r, (matrix::make_scale(v.d, 2.0)*matrix::make_translation(1.0, v.d)*matrix::make_identity<double>(3)).base); put(r, matrix::as_diagonal(v.x).base); put(r, matrix::transpose(sym(v)).base); vec1d q = sym(v)*vec1d{1.0, 2.0, v.d}; put(r, q); },
        // bins, cumulated values
        [](mine_t& v, res& r) { vec2d b = make_bins_from_edges(vec1d{-5.0, -1.0, 1.0+v.p, 30.0}); put(r, bin_width(b)); put(r, bin_center(make_bins_from_centers(vec1d{1.0, 2.0, 4.0+v.p}))); put(r, in_bin(v.x, b, 1)); put(r, in_bin_open(v.x, b, 2)); put(r, histogram(v.x, v.y, b)); histogram(v.x, b, [&](uint_t k, const vec1u& i) { put(r, k); put(r, i); }); put(r, cumul(v.x)); put(r, cumul_reverse(v.x)); },
        // linear fits
        [](mine_t& v, res& r) { vec1d e = replicate(1.0, v.x.size()), g = indgen<double>(v.x.size()); auto f = linfit_nn(v.x, e, 1.0, g); put(r, f.success); put(r, f.params); vec2d m(2, g.size()); m(0,_) = 1.0; m(1,_) = g; auto k = linfit_pack(v.x, e, m); put(r, k.params); put(r, k.errors); auto h = linfit_nn_pack(v.x, e, m); put(r, h.params); },
        [](mine_t& v, res& r) { vec1d e = replicate(1.0, v.x.size()), g = indgen<double>(v.x.size()); auto b = linfit_batch(e, 1.0, g); b.fit(v.x); put(r, b.fr.params); b.fit(v.y); put(r, b.fr.params); put(r, b.fr.chi2); b.fit_nochi2(v.x+1.0); put(r, b.fr.params); vec2d m(2, g.size()); m(0,_) = 1.0; m(1,_) = g; auto c = linfit_pack_batch(e, m); c.fit(v.x); put(r, c.fr.params); put(r, c.fr.errors); },
        // complex numbers, convolution, exponentials
        [](mine_t& v, res& r) { vec<1,std::complex<double>> c(3); for (uint_t i : range(c)) c[i] = std::complex<double>(v.d, i+1.0); put(r, real_part(c)); put(r, imag_part(c)); vec1d g = indgen<double>(5); put(r, convolve(g, sqr(g), vec1d{0.0, 1.0, 2.0+v.d, 1.0, 0.0})); put(r, fast_exp(float(v.d))); put(r, invsqr(v.d+10)); put(r, sign(v.d)); },
        [](mine_t& v, res& r) { put(r, rgen(0.0, 1.0+v.p, 5)); put(r, rgen_log(1.0, 10.0+v.p, 4)); put(r, rgen_step(0.0, 3.0, 0.5)); put(r, is_nan(v.x)); put(r, is_finite(v.y)); put(r, round(v.x)); put(r, pow(2.0, v.x)); put(r, atan2(v.x, v.y)); },
        // general fits
        [](mine_t& v, res& r) { vec1d g = indgen<double>(v.x.size()); mpfit_options o(2); o.lower_limit = {-10.0, -10.0}; o.upper_limit = {10.0, 10.0}; auto f = mpfitfun(v.x, 1.0, g, [](const vec1d& x, const vec1d& p) { return p[0] + p[1]*x; }, vec1d{0.5, 0.1}, o); put(r, f.success); put(r, f.params); put(r, f.errors); put(r, f.chi2); put(r, f.covar); },
        [](mine_t& v, res& r) { minimize_params o; auto f = minimize_bfgs(o, vec1d{0.5, v.d}, [&](const vec1d& p, minimize_function_output k) { vec1d d(3); if (k != minimize_function_output::derivatives) d[0] = sqr(p[0]-1) + sqr(p[1]-v.p); if (k != minimize_function_output::value) { d[1] = 2*(p[0]-1); d[2] = 2*(p[1]-v.p); } return d; }); put(r, f.success); put(r, f.params); put(r, f.value); put(r, f.niter); },
        // interpolation
        [](mine_t& v, res& r) { vec1d g = indgen<double>(v.x.size()); auto q = interpolate(v.x, abs(v.y)+1.0, g, vec1d{0.25, 1.5}); put(r, q.first); put(r, q.second); auto w = interpolate_err(1.0, 2.0, 0.1, 0.2, 0.0, 1.0, v.d); put(r, w.first); put(r, w.second); put(r, interpolate_3spline(v.x, vec1d{0.5, 1.2})); put(r, interpolate_3spline(v.x, 0.75)); vec2d m = grid(v); put(r, bilinear_strict(m, 1.25, 2.5, -1.0)); put(r, bicubic_strict(m, 2.25, 2.5, -1.0)); put(r, bilinear(m, 0.5+v.p, 1.5)); put(r, interpolate(v.x, g, 0.5)); },
        // statistics
        [](mine_t& v, res& r) { put(r, weighted_percentile(v.x, abs(v.y)+1.0, 0.3)); vec1d t = v.x; put(r, inplace_percentile(t, 0.4)); t = v.x; put(r, inplace_percentiles(t, 0.1, 0.5, 0.9)); auto q = minmax_ids(v.x); put(r, q.first); put(r, q.second); put(r, rms(v.x)); put(r, mad(v.x)); put(r, sigma_clip(v.x, 2.0)); put(r, fraction_of(v.x > 0)); put(r, weighted_mean(v.x, abs(v.y)+1.0)); uint_t k = 0; put(r, max(v.x, k)); put(r, k); put(r, min(v.x, 0.5)); put(r, percentile(v.x, 0.3)); },
        [](mine_t& v, res& r) { run_dim(0, grid(v), [&](uint_t i, vec1d t) { put(r, i); put(r, total(t)); }); put(r, reduce(1, grid(v), [](vec1d t) { return max(t); })); put(r, partial_mean(0, grid(v))); put(r, partial_median(1, grid(v))); put(r, partial_stddev(0, grid(v))); vec1d g = indgen<double>(v.x.size()); uint_t h = 0; put(r, integrate_hinted(g, v.x, h, 0.25, 1.5)); put(r, integrate(g, v.x, 0.5, 1.75)); put(r, integrate(make_bins_from_edges(vec1d{0.0, 1.0, 2.0}), vec1d{v.d, 2.0})); put(r, integrate_gauss_2d(-1.0, 1.0, -1.0, 1.0+v.p, 0.0, 0.0, 1.0)); },
        // strings
        [](mine_t& v, res& r) { put(r, to_lower("AbC"+v.s)); put(r, align_left(v.s, 12)); put(r, keep_last(v.s, 2)); put(r, ends_with(v.s, "12")); put(r, erase_begin(v.s+"abcd", 2)); put(r, find(v.s, "b")); put(r, find(v.s, "on")); put(r, replace_block("a(b)c(d)", "(", ")", [&](std::string q) { return q+v.s; })); put(r, replace_blocks("a{b|c}d", "{", "|", "}", [&](const vec1s& q) { return collapse(q, v.s); })); put(r, get_word("a b "+v.s, 1, " ")); put(r, length(v.s)); put(r, to_upper(vec1s{v.s, "b"})); },
        [](mine_t& v, res& r) { put(r, regex_match(vec1s{v.s, "ab1"}, "[a-z]+[0-9]")); put(r, trim(vec1s{" "+v.s, "b "}, " ")); put(r, to_string(format::fixed(v.d))); put(r, to_string(format::scientific(v.x))); put(r, to_string(format::precision(v.x, 2))); put(r, pretty_type(v.x)); bool b = false; put(r, from_string("true", b)); put(r, b); },
        // searching, rearranging
        [](mine_t& v, res& r) { vec1d s = v.x; inplace_sort(s); put(r, upper_bound(s, v.d)); put(r, lower_bound(s, v.d)); auto b = bounds(s, v.d); put(r, b[0]); put(r, b[1]); b = bounds(s, -1.0, 1.0); put(r, b[0]); put(r, b[1]); put(r, set_intersection_sorted(s, s)); put(r, set_union_sorted(s, s)); put(r, unique_ids_sorted(s)); put(r, unique_ids(v.x)); put(r, unique_ids(v.x, sort(v.x))); put(r, unique_values_sorted(s)); put(r, where_first(v.x > 0)); put(r, where_last(v.x > 0)); vec1u a, c; match(vec1u{3, 1, v.p}, vec1u{v.p, 2, 3}, a, c); put(r, a); put(r, c); },
        [](mine_t& v, res& r) { vec2b m(4, 5); m(3, 4) = true; m(0, v.p%5) = true; uint_t x = 2, y = 2; put(r, astar_find(m, x, y)); put(r, x); put(r, y); vec1d t = v.x; inplace_remove(t, vec1u{1}); put(r, t); put(r, remove(v.x, vec1u{0, 2})); inplace_shift(t, 1); put(r, t); put(r, shift(v.x, -1)); vec1u i(2), n = {2, 3}; for (uint_t k = 0; k < 4; ++k) { increment_index_list(i, n); put(r, i); } put(r, flat_id(std::array<uint_t,2>{{3, 4}}, 1, 2)); put(r, reform(v.m, 4)); put(r, replicate(v.x, 2)); append(t, v.y); prepend(t, v.y); put(r, t); put(r, mult_ids(v.m, vec1u{1, 2})); },
        // sky
        [](mine_t& v, res& r) { vec1d ra = {10.0, 10.1, 10.2}, de = {1.0, 1.1, 0.9+v.p*0.01}; put(r, astro::angdistr(0.1, 0.2, 0.3, 0.4)); put(r, astro::angdist(ra, de, de, ra)); put(r, astro::angdist(ra, de, 10.0, 1.0)); put(r, astro::angdist_less(ra, de, 10.0, 1.0, 400.0)); astro::move_ra_dec(ra, de, 3.0, 4.0+v.p); put(r, ra); put(r, de); double a = 361.0+v.p, d = 91.0; astro::normalize_coordinates(a, d); put(r, a); put(r, d); vec1s sr, sd; astro::deg2sex(ra, de, sr, sd); put(r, sr); put(r, sd); put(r, astro::sex2deg(sr, sd, ra, de)); put(r, ra); },
        [](mine_t& v, res& r) { auto c = astro::get_cosmo("wmap"); put(r, astro::lookback_time(0.5+v.p, c)); put(r, astro::vuniverse(0.5, c)); put(r, astro::lumdist(vec1d{0.1, 1.0+v.p}, c)); put(r, astro::cosmo_list()); put(r, astro::lsun2uJy(1.0, 2.0, 3.0, 4.0+v.p)); put(r, astro::uJy2lsun(1.0, 2.0, 3.0, 4.0+v.p)); put(r, astro::uJy2cgs(1.0, 2.0+v.p)); put(r, astro::cgs2uJy(1.0, 2.0)); put(r, astro::lsun2mag(2.0, 3.0)); },
        [](mine_t& v, res& r) { vec1d ra = 10.0 + abs(v.x)/100, de = abs(v.y)/100; append(ra, vec1d{10.0, 10.2, 10.2, 10.0}); append(de, vec1d{0.0, 0.0, 0.2, 0.2}); put(r, astro::field_area_hull(ra, de)); put(r, astro::field_area_h2d(ra, de)); put(r, astro::angcorrel(ra, de, ra+0.001, de, make_bins_from_edges(vec1d{1.0, 100.0, 1000.0}))); },
        [](mine_t& v, res& r) { auto s = make_seed(v.p+3); vec1d x, y; astro::randpos_uniform_circle(s, 3, 1.0, 2.0, 0.5, x, y); put(r, x); put(r, y); auto q = astro::randpos_uniform_box(s, 3, vec1d{0.0, 1.0}, vec1d{0.0, 1.0}, x, y, [](double a, double b) { return a + b > 0.5; }); put(r, q.success); put(r, x); astro::randpos_power_options o; o.levels = 2; put(r, astro::randpos_power_circle(s, 0.0, 0.0, 1.0, x, y, [](double a, double b, double t) { return a < 0.9 + t; }, o).success); put(r, x); },
        // spectra
        [](mine_t& v, res& r) { vec1d l = indgen<double>(12)+1.0, f = sqr(l)*0.1 + v.d + 3; astro::filter_t b; b.lam = {3.0, 4.0, 5.0, 6.0}; b.res = {0.0, 1.0, 1.0, 0.0}; b.rlam = 4.5; put(r, astro::sed2flux(b, l, f)); put(r, astro::sed_luminosity(l, f, 2.0, 8.0)); put(r, astro::sed_convert(b, b, 0.1, 10.0, l, f)); uint_t k = npos; put(r, astro::get_band(vec1s{"acs-f606w", "acs-f814w", "wfc3-f160w"}, "f814", k)); put(r, k); },
        // images
        [](mine_t& v, res& r) { using namespace astro; vec2d m = grid(v); put(r, enlarge(m, 1)); put(r, shrink(m, 1)); put(r, translate(m, 0.5, -1.25)); put(r, translate_bicubic(m, 0.5, 0.25)); put(r, flip_x(m)); put(r, flip_y(m)); put(r, subregion(m, {-1, 0, 2, 2})); put(r, shift(m, 1, -1)); put(r, recenter(m, 2, 1, {{3, 3}})); put(r, translate_integer(m, 1, -1)); },
        [](mine_t& v, res& r) { using namespace astro; vec2d m = grid(v); put(r, scale(m, 1.2)); put(r, scale_bicubic(m, 0.8)); put(r, rotate(m, 15.0+v.p)); put(r, rotate_bicubic(m, 15.0)); put(r, circular_mask(m.dims, 1.5+v.p*0.1)); put(r, radial_profile(m, 3)); put(r, gaussian_profile(m.dims, 1.0+v.p)); put(r, generate_img(m.dims, [&](int_t y, int_t x) { return y*v.d + x; })); put(r, boxcar(m, 1, [](const vec1d& t) { return mean(t); })); },
        [](mine_t& v, res& r) { using namespace astro; vec2d m = grid(v); vec2d k = gaussian_profile({{3, 3}}, 0.8); put(r, convolve2d_naive(m, k)); vec2b b(6, 6); b(v.p%6, 2) = true; put(r, mask_inflate(b, 1)); vec2u s = segment(vec2b(m > 0)); put(r, s); segment_deblend_output o; segment_deblend_params q; q.detect_threshold = 1.0; put(r, segment_deblend(m, o, q)); put(r, o.area); put(r, o.flux); vec2d dm; vec2u im; segment_distance(s, dm, im); put(r, s); put(r, dm); },
        [](mine_t& v, res& r) { using namespace astro; vec2d p; put(r, make_psf({{5, 5}}, 2.0, 2.0, "gaussian,1.0,"+to_string(1+v.p), p)); put(r, p); put(r, make_psf({{5, 5}}, 2.0, 2.0, "gaussring,1.0,1.0,2.0,0.2,"+to_string(1+v.p), p)); put(r, p); vec2d m = p*2.0 + v.d; auto f = psffit(m, 1.0, p); put(r, f.flux); put(r, f.bg); put(r, f.chi2); },
        // stacks
        [](mine_t& v, res& r) { using namespace astro; vec3d c(3, 2, 2), w(3, 2, 2); for (uint_t i : range(c)) { c[i] = v.x[i%v.x.size()]+i; w[i] = 1+i%3; } put(r, qstack_mean(c)); put(r, qstack_mean(c, w)); put(r, qstack_median(c)); auto s = make_seed(v.p+1); put(r, qstack_mean_bootstrap(c, 2, 2, s)); put(r, qstack_mean_bootstrap(c, w, 2, 2, s)); put(r, qstack_median_bootstrap(c, 2, 3, s)); qstack_bootstrap(c, 2, 2, s, [&](const vec3d& t) { put(r, total(t)); }); },
        [](mine_t& v, res& r) { using namespace astro; lib_t l(v.p); vec<1,filter_t> f = bands(); auto s = make_seed(v.p+1); template_fit_params p; p.nsim = 2; p.renorm = v.p % 2; p.ulim = v.p % 3 == 0; p.lib_obs = true; vec1d fl = {1.0, 2.0+v.p, 1.5}, er = {0.1, 0.2, p.ulim ? -0.3 : 0.3}; auto q = template_fit(l, s, 1.0, 2.0, fl, er, f, p); put(r, q.bfit); put(r, q.chi2); put(r, q.amp); put(r, q.flux); put(r, q.sed_sim); put(r, q.amp_sim); put(r, template_observed(l, 0.5, 2.0, f)); put(r, limweight(vec1d{-4.0, 0.5, v.d})); },
        [](mine_t& v, res& r) { using namespace astro; std::vector<lib_t> l(2, lib_t(v.p)); vec<1,filter_t> f = bands(); auto s = make_seed(v.p+1); multi_template_fit_params p; p.nsim = 1; p.lib_obs = true; vec1d fl = {1.0, 2.0+v.p, 1.5}, er = {0.1, 0.2, 0.3}; auto q = multi_template_fit(l, s, 1.0, 2.0, fl, er, f, p, [](const vec1u&) { return true; }); put(r, q.bfit); put(r, q.amp); },
        [](mine_t& v, res& r) { using namespace astro; vec2b m(6, 7); ds9::region a; a.type = "circle"; a.params = {2.0, 3.0+v.p*0.1, 1.6}; ds9::mask_region(a, m); put(r, m); a.type = "box"; a.params = {3.0, 3.0, 2.0, 4.0, 10.0*v.p}; ds9::mask_region(a, m); put(r, m); },
        [](mine_t& v, res& r) { using namespace astro; auto s = make_seed(v.p+3); vec1d x, y; randpos_power_options o; o.eta = 2; o.lambda = 1.5; o.levels = 2; randpos_power_base(s, 1.0, 2.0, 0.5, x, y, o); put(r, x); put(r, y); put(r, vernal_angle(10.0, 5.0+v.p)); vec1d a, b; angrot_vernal(x, y, 12.0, a, b); put(r, a); put(r, b); put(r, get_cosmo("plank").H0 + cosmo_std().wL); vec1d l = indgen<double>(12)*100+5, f = l*0.1 + v.p; put(r, lir_8_1000(l, f)); },
    };
    enum { NOP10 = sizeof(ops10)/sizeof(ops10[0]) };

    void t10_body() {
        {
            uint32_t nt = sim::work(2, 4);
            struct prog_t { mine_t v; std::vector<uint32_t> ops; };
            std::vector<prog_t> prog(nt);
            sim::describe("%u threads:", nt);
            uint32_t same = sim::work(0, NOP10); // often the same function in all threads
            for (auto& q : prog) {
                uint32_t n = sim::work(3, 6);
                q.v.x = vec1d(n); for (auto& e : q.v.x.data) e = sim::work(0, 20)/2.0 - 5;
                q.v.y = vec1d(n); for (auto& e : q.v.y.data) e = sim::work(0, 20)/2.0 - 5;
                q.v.m = vec2d(2, 2); for (auto& e : q.v.m.data) e = sim::work(0, 20) - 10.0;
                static const char* t[] = {"a", "12", "a longer string, on the heap", "", "ab12"};
                q.v.s = t[sim::work(5)]; q.v.d = sim::work(0, 40)/8.0 - 2.5; q.v.p = sim::work(10);
                uint32_t k = sim::work(1, 3);
                for (uint32_t i = 0; i < k; ++i) {
                    q.ops.push_back(same > 0 && sim::chance(1, 2) ? same-1 : sim::work(NOP10));
                    sim::describe(" %s%s", name10[q.ops.back()], i+1 == k ? ";" : ",");
                }
            }
            auto play = [&](uint32_t t, std::vector<res>& r) {
                mine_t v = prog[t].v;
                for (uint32_t k : prog[t].ops) { r.push_back(res()); ops10[k](v, r.back()); }
            };
            std::vector<std::vector<res>> alone(nt), got(nt);
            bool first = sim::chance(1, 2); // (what is initialised once must also be when threads are running)
            if (first) for (uint32_t t = 0; t < nt; ++t) play(t, alone[t]);
            {
                auto pool = thread::pool(nt);
                for (uint32_t t = 0; t < nt; ++t) pool[t].start([&,t]() { play(t, got[t]); });
                for (auto& p : pool) p.join();
            }
            if (!first) for (uint32_t t = 0; t < nt; ++t) play(t, alone[t]);
            for (uint32_t t = 0; t < nt; ++t) for (uint_t i = 0; i < prog[t].ops.size(); ++i)
                REQUIRE(got[t][i] == alone[t][i], "concurrent-value", "%s gives %s, while it gives %s alone", name10[prog[t].ops[i]], got[t][i].c_str(), alone[t][i].c_str());
            sim::nontrivial();
        }
    }

    void t10() {
        sim::options o; o.threads = true; o.max_steps = 40000000;
        auto r = sim::process(o, []() { t10_body(); });
        REQUIRE(r.ok(), "abnormal-end", "the process ended abnormally (kind %d code %d %s)", r.kind, r.code, r.what.c_str());
    }
    sim::property_t p10("T10", t10, "A run is 2-4 threads calling 1-3 library functions each, on data of their own; all runs are non-trivial");
}
