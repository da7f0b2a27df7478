// A01: vectors when allocations fail
#include "prelude.hpp"
#include <vif.hpp>

using namespace vif;

namespace {
    // ---- model ----------------------------------------------------------------------------
    template<typename T> struct model {
        std::vector<uint64_t> d; std::vector<T> v;
        bool operator == (const model& o) const { return d == o.d && v == o.v; }
        bool operator != (const model& o) const { return !(*this == o); }
    };
    template<typename T> struct store { typedef T type; };
    template<> struct store<bool> { typedef char type; };
    template<std::size_t D, typename T> std::string wrong(const vec<D,T>& v) {
        uint64_t n = 1; std::string s;
        for (auto e : v.dims) { n *= e; s += (s.empty() ? "" : ", ") + std::to_string(e); }
        if (n != v.data.size()) return "dimensions (" + s + ") but " + std::to_string(v.data.size()) + " elements";
        return "";
    }
    template<std::size_t D, typename T> model<typename store<T>::type> look(const vec<D,T>& v) {
        model<typename store<T>::type> m; m.d.assign(v.dims.begin(), v.dims.end()); m.v.assign(v.data.begin(), v.data.end());
        return m;
    }
    template<typename T> std::string show(const model<T>& m) {
        std::ostringstream o; o << "("; for (auto e : m.d) o << e << ","; o << "){"; for (auto& e : m.v) o << e << ","; o << "}";
        return o.str();
    }

    struct real_t { vec1d a, b; vec2d m, n; vec1s s, u; vec1i k; vec1b l; vec3f c; };
    struct models { model<double> a, b, m, n; model<std::string> s, u; model<int_t> k; model<char> l; model<float> c; };
    template<typename F> void each(real_t& r, models& x, models& y, F f) {
        f("a", r.a, x.a, y.a); f("b", r.b, x.b, y.b); f("m", r.m, x.m, y.m); f("n", r.n, x.n, y.n); f("s", r.s, x.s, y.s); f("u", r.u, x.u, y.u);
        f("k", r.k, x.k, y.k); f("l", r.l, x.l, y.l); f("c", r.c, x.c, y.c);
    }
    struct check_same { const char* op; template<typename V, typename M> void operator()(const char* n, const V& v, M& pre, M& post) const {
        std::string w = wrong(v); REQUIRE(w.empty(), "wrong-dims", "after '%s', vector %s has %s", op, n, w.c_str());
        REQUIRE(look(v) == post, "wrong-value", "after '%s', vector %s is %s instead of %s", op, n, show(look(v)).c_str(), show(post).c_str()); } };
    struct check_valid { const char* op; template<typename V, typename M> void operator()(const char* n, const V& v, M& pre, M& post) const {
        std::string w = wrong(v); REQUIRE(w.empty(), "wrong-dims", "after an allocation failed in '%s', vector %s has %s", op, n, w.c_str());
        if (pre == post) REQUIRE(look(v) == pre, "other-changed", "after an allocation failed in '%s', vector %s, not to be changed, is %s instead of %s", op, n, show(look(v)).c_str(), show(pre).c_str());
        // it can be used
        uint64_t k = 0; for (auto& e : v) { k += sizeof(e); } for (uint_t i = 0; i < v.size(); ++i) { auto t = v.safe[i]; (void)t; } V t = v; t.clear(); REQUIRE(wrong(t).empty(), "wrong-dims", "cleared"); } };
    struct check_strong { const char* op; template<typename V, typename M> void operator()(const char* n, const V& v, M& pre, M& post) const {
        M g = look(v);
        REQUIRE(g == pre || g == post, "half-done", "after an allocation failed in '%s', vector %s is %s, it was %s and should be either unchanged or %s", op, n, show(g).c_str(), show(pre).c_str(), show(post).c_str()); } };
    struct resync { template<typename V, typename M> void operator()(const char*, const V& v, M& pre, M& post) const { pre = look(v); } };

    template<typename T> T some(uint32_t k);
    template<> double some<double>(uint32_t k) { return k*0.5 + 1; }
    template<> float some<float>(uint32_t k) { return k*0.5f + 2; }
    template<> int_t some<int_t>(uint32_t k) { return int_t(k) - 50; }
    template<> char some<char>(uint32_t k) { return k%2; }
    template<> bool some<bool>(uint32_t k) { return k%2; }
    template<> std::string some<std::string>(uint32_t k) { return k%3 == 0 ? std::string() : k%3 == 1 ? std::to_string(k) : "a string which does not fit " + std::to_string(k); }

    template<typename F> struct guard { F f; ~guard() { f(); } };

    struct machine {
        real_t r; models x;
        uint32_t counter = 0;
        std::string op;
        bool failed = false;

        // Run the operation with failing allocations, compare with the model
        template<typename F, typename G> void run(const std::string& name, bool strong, const F& f, const G& g) {
            op = name;
            sim::trace("%s", op.c_str());
            models y = x;
            { sim::silent q; g(y); }
            bool threw = false;
            try { sim::arm_alloc(); f(); sim::disarm_alloc(); }
            catch (const std::bad_alloc&) { threw = true; }
            catch (const std::length_error&) { threw = true; }
            bool fired = sim::disarm_alloc();
            REQUIRE(!threw || fired, "unexpected-failure", "'%s' failed but no allocation did", op.c_str());
            sim::note(op); sim::note(threw);
            sim::silent q;
            if (!threw) { each(r, x, y, check_same{op.c_str()}); x = y; if (fired) sim::probe("recovered_inside"); }
            else {
                sim::probe("failed_operations"); failed = true;
                each(r, x, y, check_valid{op.c_str()});
                if (strong) { each(r, x, y, check_strong{op.c_str()}); sim::probe("failed_strong_operations"); }
                each(r, x, y, resync());
            }
        }
        uint32_t id() { return counter++; }

        // Operations on one-dimensional vectors of any type
        template<typename V, typename M> void one(V& v, V& w, M models::* pv, M models::* pw, const std::string& nv, const std::string& nw) {
            typedef typename V::rtype T; typedef typename store<T>::type S;
            bool num = !std::is_same<T,std::string>::value;
            bool two = &v != &w;
            uint_t n = sim::work(7); T t = some<T>(id());
            switch (sim::work(14)) {
                case 0: run(nv+".resize("+std::to_string(n)+")", true, [&]() { v.resize(n); }, [&](models& y) { (y.*pv).v.resize(n); (y.*pv).d[0] = n; }); break;
                case 1: run(nv+".reserve("+std::to_string(3*n)+")", true, [&]() { v.reserve(3*n); }, [&](models& y) {}); break;
                case 2: run(nv+".push_back()", true, [&]() { v.push_back(t); }, [&](models& y) { (y.*pv).v.push_back(S(t)); ++(y.*pv).d[0]; }); break;
                case 3: if (!two) return; run("append("+nv+","+nw+")", num, [&]() { append(v, w); }, [&](models& y) { auto& p = y.*pv; auto& q = y.*pw; p.v.insert(p.v.end(), q.v.begin(), q.v.end()); p.d[0] += q.d[0]; }); break;
                case 4: if (!two) return; run("prepend("+nv+","+nw+")", true, [&]() { prepend(v, w); }, [&](models& y) { auto& p = y.*pv; auto& q = y.*pw; p.v.insert(p.v.begin(), q.v.begin(), q.v.end()); p.d[0] += q.d[0]; }); break;
                case 5: if (!two) return; run(nv+" = "+nw, num, [&]() { v = w; }, [&](models& y) { y.*pv = y.*pw; }); break;
                case 6: if (!two) return; run(nv+" = move("+nw+")", true, [&]() { v = std::move(w); }, [&](models& y) { y.*pv = y.*pw; (y.*pw).v.clear(); (y.*pw).d[0] = 0; }); break;
                case 7: { T t2 = some<T>(id()); run(nv+" = {}", true, [&]() { v = {t, t2, t}; }, [&](models& y) { (y.*pv).v = {S(t), S(t2), S(t)}; (y.*pv).d[0] = 3; }); break; }
                case 8: { // a view
                    if (w.empty()) return;
                    vec1u ids; for (uint_t i = 0; i < n; ++i) ids.push_back(sim::work(w.size()));
                    run(nv+" = "+nw+"[ids]", num, [&]() { v = w[ids]; }, [&](models& y) { M z; z.d = {ids.size()}; for (auto i : ids) z.v.push_back((y.*pw).v[i]); y.*pv = z; });
                    break; }
                case 9: { if (v.empty()) return; uint_t i0 = sim::work(v.size()); run("inplace_remove("+nv+")", true, [&]() { inplace_remove(v, vec1u{i0}); }, [&](models& y) { auto& p = y.*pv; p.v.erase(p.v.begin()+i0); --p.d[0]; }); break; }
                case 11: { T t2 = t; run(nv+".push_back(move)", true, [&]() { v.push_back(std::move(t2)); }, [&](models& y) { (y.*pv).v.push_back(S(t)); ++(y.*pv).d[0]; }); break; }
                case 12: { // several removed, in any order, some next to each other
                    if (v.size() < 2) return;
                    vec1u ids; for (uint_t i = 0; i < v.size(); ++i) if (sim::chance(1, 2)) ids.push_back(i);
                    if (ids.empty()) return;
                    if (sim::chance(1, 2)) ids = reverse(ids);
                    run("inplace_remove("+nv+", several)", num, [&]() { inplace_remove(v, ids); }, [&](models& y) { auto& p = y.*pv; std::vector<S> q; for (uint_t i = 0; i < p.v.size(); ++i) if (std::find(ids.data.begin(), ids.data.end(), i) == ids.data.end()) q.push_back(p.v[i]); p.v = q; p.d[0] = q.size(); });
                    break; }
                case 10: run(nv+".clear()", true, [&]() { v.clear(); }, [&](models& y) { (y.*pv).v.clear(); (y.*pv).d[0] = 0; }); break;
                default: { // writing through a view
                    if (v.empty()) return;
                    vec1u ids = {sim::work(v.size())}; if (v.size() > 1 && ids[0] > 0) ids.push_back(0);
                    run(nv+"[ids] = scalar", num, [&]() { v[ids] = t; }, [&](models& y) { for (auto i : ids) (y.*pv).v[i] = S(t); });
                    break; }
            }
        }
        void two() {
            uint_t p = sim::work(4), q = sim::work(4);
            auto& y0 = x;
            switch (sim::work(13)) {
                case 0: run("m.resize()", true, [&]() { r.m.resize(p, q); }, [&](models& y) { y.m.v.resize(p*q); y.m.d = {p, q}; }); break;
                case 1: { // add a row
                    uint_t w = x.m.v.empty() ? p : x.m.d[1]; vec1d row(w); for (auto& e : row.data) e = some<double>(id());
                    run("m.push_back(row)", true, [&]() { r.m.push_back(row); }, [&](models& y) { if (y.m.v.empty()) y.m.d = {1, w}; else ++y.m.d[0]; y.m.v.insert(y.m.v.end(), row.data.begin(), row.data.end()); });
                    break; }
                case 2: { // add a row of another one
                    if (x.n.v.empty() || (!x.m.v.empty() && x.m.d[1] != x.n.d[1])) return;
                    uint_t i = sim::work(x.n.d[0]), w = x.n.d[1];
                    run("m.push_back(view)", true, [&]() { r.m.push_back(r.n(i,_)); }, [&](models& y) { if (y.m.v.empty()) y.m.d = {1, w}; else ++y.m.d[0]; y.m.v.insert(y.m.v.end(), y.n.v.begin()+i*w, y.n.v.begin()+(i+1)*w); });
                    break; }
                case 3: case 4: { // append, prepend
                    bool first = sim::work(2), pre = sim::work(2);
                    if (!x.m.v.empty() && !x.n.v.empty() && x.m.d[first ? 1 : 0] != x.n.d[first ? 1 : 0]) return;
                    auto mod = [&](models& y) {
                        if (y.m.v.empty()) { y.m = y.n; return; }
                        if (y.n.v.empty()) return;
                        auto& A = pre ? y.n : y.m; auto& B = pre ? y.m : y.n; model<double> z;
                        if (first) { z.d = {A.d[0]+B.d[0], A.d[1]}; z.v = A.v; z.v.insert(z.v.end(), B.v.begin(), B.v.end()); }
                        else { z.d = {A.d[0], A.d[1]+B.d[1]}; for (uint64_t i = 0; i < A.d[0]; ++i) { for (uint64_t j = 0; j < A.d[1]; ++j) z.v.push_back(A.v[i*A.d[1]+j]); for (uint64_t j = 0; j < B.d[1]; ++j) z.v.push_back(B.v[i*B.d[1]+j]); } }
                        y.m = z;
                    };
                    run(std::string(pre ? "prepend" : "append")+(first ? "<0>" : "<1>")+"(m,n)", true, [&]() {
                        if (first) { if (pre) prepend<0>(r.m, r.n); else append<0>(r.m, r.n); } else { if (pre) prepend<1>(r.m, r.n); else append<1>(r.m, r.n); } }, mod);
                    break; }
                case 5: run("m = n", true, [&]() { r.m = r.n; }, [&](models& y) { y.m = y.n; }); break;
                case 6: run("n = move(m)", true, [&]() { r.n = std::move(r.m); }, [&](models& y) { y.n = y.m; y.m.v.clear(); y.m.d = {0, 0}; }); break;
                case 7: { double t = some<double>(id()); run("n = {{}}", true, [&]() { r.n = {{t, 1.0, 2.0}, {3.0, t, 5.0}}; }, [&](models& y) { y.n.v = {t, 1, 2, 3, t, 5}; y.n.d = {2, 3}; }); break; }
                case 8: run("n = transpose(m)", true, [&]() { r.n = transpose(r.m); }, [&](models& y) { model<double> z; z.d = {y.m.d[1], y.m.d[0]}; for (uint64_t i = 0; i < z.d[0]; ++i) for (uint64_t j = 0; j < z.d[1]; ++j) z.v.push_back(y.m.v[j*y.m.d[1]+i]); y.n = z; }); break;
                case 9: run("a = flatten(m)", true, [&]() { r.a = flatten(r.m); }, [&](models& y) { y.a.v = y.m.v; y.a.d = {y.m.v.size()}; }); break;
                case 10: { if (x.m.v.empty()) return; uint_t i = sim::work(x.m.d[0]), w = x.m.d[1]; run("b = m(i,_)", true, [&]() { r.b = r.m(i,_); }, [&](models& y) { y.b.v.assign(y.m.v.begin()+i*w, y.m.v.begin()+(i+1)*w); y.b.d = {w}; }); break; }
                case 11: { float t = some<float>(id()); run("c.resize()", true, [&]() { r.c.resize(p, 2, q); for (auto& e : r.c) e = t; }, [&](models& y) { y.c.d = {p, 2, q}; y.c.v.assign(p*2*q, t); }); break; }
                default: { // planes of a cube
                    if (x.c.v.empty()) { float t = some<float>(id()); run("c.push_back(plane)", true, [&]() { r.c.push_back(replicate(t, 2, 3)); }, [&](models& y) { y.c.d = {1, 2, 3}; y.c.v.assign(6, t); }); break; }
                    uint_t pl = x.c.d[1]*x.c.d[2];
                    run("c.push_back(view)", true, [&]() { r.c.push_back(r.c(0,_,_).concretise()); }, [&](models& y) { ++y.c.d[0]; auto t = y.c.v; y.c.v.insert(y.c.v.end(), t.begin(), t.begin()+pl); });
                    break; }
            }
        }
        void mixed() {
            switch (sim::work(13)) {
                case 0: run("a = k", true, [&]() { r.a = r.k; }, [&](models& y) { y.a.d = y.k.d; y.a.v.assign(y.k.v.begin(), y.k.v.end()); }); break;
                case 1: if (x.a.v.size() != x.b.v.size()) return; run("a = a*2 + b", true, [&]() { r.a = r.a*2.0 + r.b; }, [&](models& y) { for (size_t i = 0; i < y.a.v.size(); ++i) y.a.v[i] = y.a.v[i]*2 + y.b.v[i]; }); break;
                case 2: if (x.a.v.size() != x.b.v.size()) return; run("a[_] = b", true, [&]() { r.a[_] = r.b; }, [&](models& y) { y.a.v = y.b.v; }); break;
                case 3: if (x.a.v.size() != x.b.v.size()) return; run("a += b", true, [&]() { r.a += r.b; }, [&](models& y) { for (size_t i = 0; i < y.a.v.size(); ++i) y.a.v[i] += y.b.v[i]; }); break;
                case 4: run("inplace_sort(a)", false, [&]() { inplace_sort(r.a); }, [&](models& y) { std::stable_sort(y.a.v.begin(), y.a.v.end()); }); break;
                case 5: run("swap(a, b)", true, [&]() { std::swap(r.a, r.b); }, [&](models& y) { std::swap(y.a, y.b); }); break;
                case 6: run("l = a > 3", true, [&]() { r.l = r.a > 3.0; }, [&](models& y) { y.l.d = y.a.d; y.l.v.clear(); for (double e : y.a.v) y.l.v.push_back(e > 3.0); }); break;
                case 7: run("s += text", false, [&]() { r.s += " and some more text"; }, [&](models& y) { for (auto& e : y.s.v) e += " and some more text"; }); break;
                case 8: run("u = to_upper(s)", false, [&]() { r.u = to_upper(r.s); }, [&](models& y) { y.u = y.s; for (auto& e : y.u.v) for (auto& ch : e) ch = toupper(ch); }); break;
                case 9: if (x.a.v.size() < 2) return; run("a[rev] = a", true, [&]() { r.a[indgen<uint_t>(r.a.size()-1)+1] = r.a[indgen<uint_t>(r.a.size()-1)]; }, [&](models& y) { auto t = y.a.v; for (size_t i = 1; i < t.size(); ++i) y.a.v[i] = t[i-1]; }); break;
                case 10: run("const functions", true, [&]() { // arguments do not change
                    const real_t& z = r; vec1u i = where(z.a > 2.0); vec1d t = z.a[i]; vec1u o = sort(z.s); vec2d w = -z.m; vec1s q = z.s[o]; t = reverse(t); double tot = total(z.a) + total(w);
                    (void)tot; vec1d f = flatten(z.m); vec2d g; if (!t.empty()) g = replicate(t, 3); vec1b e = is_any_of(z.k, z.k); vec1s h = to_upper(z.s); vec1d st = z.a[_]; }, [&](models&) {}); break;
                case 11: run("copies", true, [&]() { vec1d t = r.a; vec2d u = r.m; vec1s v = r.s; vec1d w(r.k); vec3f c = r.c; vec1s z = r.u[_]; std::vector<vec1d> all; all.push_back(t); all.push_back(t); all.push_back(w); t = std::move(all[0]); }, [&](models&) {}); break;
                default: run("k.push_back, l.push_back", true, [&]() { r.k.reserve(r.k.size()+1); r.l.reserve(r.l.size()+1); r.k.push_back(7); r.l.push_back(true); }, [&](models& y) { y.k.v.push_back(7); ++y.k.d[0]; y.l.v.push_back(1); ++y.l.d[0]; }); break;
            }
        }
        void step() {
            switch (sim::work(8)) {
                case 0: one(r.a, r.b, &models::a, &models::b, "a", "b"); break;
                case 1: one(r.s, r.u, &models::s, &models::u, "s", "u"); break;
                case 2: one(r.k, r.k, &models::k, &models::k, "k", "k"); break;
                case 3: one(r.l, r.l, &models::l, &models::l, "l", "l"); break;
                case 4: one(r.u, r.s, &models::u, &models::s, "u", "s"); break;
                case 5: mixed(); break;
                default: two(); break;
            }
        }
    };

    void body(uint32_t nops) {
        uint64_t b0 = sim::live_blocks();
        bool failed;
        {
            machine w; // (the model is allocated in the same process, without faults)
            each(w.r, w.x, w.x, resync());
            for (uint32_t i = 0; i < nops; ++i) w.step();
            failed = w.failed;
        }
        REQUIRE(sim::live_blocks() == b0, "leak", "%lld blocks of memory were not released", (long long)(sim::live_blocks()-b0));
        if (failed) sim::nontrivial();
    }

    void a01() {
        uint32_t nops = sim::work(1, 24);
        sim::describe("%u operations", nops);
        sim::options o; o.alloc_faults = true; o.max_steps = 100000000;
        auto r = sim::process(o, [&]() { body(nops); });
        REQUIRE(r.ok(), "abnormal-end", "the process ended abnormally (kind %d code %d %s)", r.kind, r.code, r.what.c_str());
    }
    sim::property_t p01("A01", a01, "A run is 1-24 operations on nine vectors of numbers and strings of one to three dimensions, allocations failing at random inside them; non-trivial: at least one operation failed");
}
