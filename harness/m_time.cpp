// M01: clocks, progress bars and profiling
#include "prelude.hpp"
#include <vif.hpp>
#include <unistd.h>

using namespace vif;

namespace {
    // ---- parsing of durations (independent of the library) --------------------------------
    struct dur { double lo, hi; }; // [s]
    bool duration(const std::string& s, dur& d) {
        size_t p = 0; double tot = 0; double unit = 0;
        if (s.empty()) return false;
        while (p < s.size()) {
            char* e; double v = strtod(s.c_str()+p, &e); size_t q = e - s.c_str();
            if (q == p) return false;
            std::string u; while (q < s.size() && (isalpha(s[q]))) u += s[q++];
            if (u == "d") unit = 86400; else if (u == "h") unit = 3600; else if (u == "m") unit = 60; else if (u == "s") unit = 1;
            else if (u == "ms") unit = 1e-3; else if (u == "us") unit = 1e-6; else if (u == "ns") unit = 1e-9; else return false;
            tot += v*unit; p = q;
        }
        if (unit >= 1) { if (unit > 1) return false; d.lo = tot; d.hi = tot+1; } // (seconds are always there)
        else { d.lo = tot - 0.5001*unit; d.hi = tot + 0.5001*unit; }
        return true;
    }

    struct shot { uint64_t count; uint64_t percent, dashes, spaces; std::string el, left, total; size_t width; };
    std::string parse_line(const std::string& l, shot& s) {
        size_t p = 0;
        if (l[p] != '[') return "no bar";
        ++p; s.dashes = s.spaces = 0;
        while (p < l.size() && l[p] == '-') ++p, ++s.dashes;
        while (p < l.size() && l[p] == ' ') ++p, ++s.spaces;
        if (p >= l.size() || l[p] != ']') return "bad bar";
        ++p;
        while (p < l.size() && l[p] == ' ') ++p;
        char* e; s.count = strtoull(l.c_str()+p, &e, 10); size_t q = e - l.c_str(); if (q == p) return "no count"; p = q;
        s.percent = strtoull(l.c_str()+p, &e, 10); q = e - l.c_str(); if (q == p || l[q] != '%') return "no percentage"; p = q+3;
        size_t a = l.find(" elapsed, ", p), b = l.find(" left, ", p), c = l.find(" total", p);
        if (a == l.npos || b == l.npos || c == l.npos || a > b || b > c) return "no durations";
        s.el = l.substr(p, a-p); s.left = l.substr(a+10, b-a-10); s.total = l.substr(b+7, c-b-7);
        s.width = l.size();
        return "";
    }

    // Any sequence of values given to print_progress(), even beyond the end
    void scattered(uint64_t n, uint32_t mod) {
        progress_t p = progress_start(n); uint32_t k = sim::work(1, 8); bool over = false;
        for (uint32_t j = 0; j < k; ++j) {
            uint64_t i = sim::work(n + 6); if (sim::chance(1, 10)) i = uint64_t(-1) - sim::work(3);
            usleep(sim::work(5)*1000);
            std::ostringstream buf; std::streambuf* old = std::cout.rdbuf(buf.rdbuf()); bool threw = false; std::string what;
            try { print_progress(p, i, mod); } catch (const std::exception& e) { threw = true; what = e.what(); }
            std::cout.rdbuf(old); std::string out = buf.str();
            REQUIRE(!threw, "throws", "print_progress() of %llu of %llu throws '%s'", (unsigned long long)i, (unsigned long long)n, what.c_str());
            uint64_t c = std::min(i, n-1); bool last = c == n-1;
            if (over) { REQUIRE(out.empty(), "after-end", "print_progress() prints '%s' after the end", out.c_str()); continue; }
            over = last;
            if (!last && c % mod) { REQUIRE(out.empty(), "shown", "print_progress() shows number %llu, not a multiple of %u", (unsigned long long)i, mod); continue; }
            REQUIRE(!out.empty() && out[0] == '\r', "not-shown", "print_progress() does not show number %llu of %llu", (unsigned long long)i, (unsigned long long)n);
            bool newline = out.back() == '\n'; if (newline) out.pop_back();
            REQUIRE(newline == last, "end", "print_progress() %s the line at number %llu of %llu", newline ? "ends" : "does not end", (unsigned long long)i, (unsigned long long)n);
            shot s; std::string err = parse_line(out.substr(1), s);
            REQUIRE(err.empty(), "format", "print_progress() prints '%s': %s", out.c_str(), err.c_str());
            REQUIRE(s.count == c+1, "count", "print_progress() of %llu of %llu shows the count %llu", (unsigned long long)i, (unsigned long long)n, (unsigned long long)s.count);
            REQUIRE(s.dashes == progress_ndash*s.count/n && s.dashes + s.spaces == progress_ndash, "bar", "print_progress() shows a bar with %llu dashes and %llu spaces for %llu of %llu", (unsigned long long)s.dashes, (unsigned long long)s.spaces, (unsigned long long)s.count, (unsigned long long)n);
            dur le; REQUIRE(duration(s.left, le) && le.hi >= 0, "negative", "print_progress() shows the time left '%s'", s.left.c_str());
        }
        sim::probe("scattered");
    }

    enum { PROGRESS, TICK, PRINT, NKIND };
    const char* kind_name[] = {"progress()", "progress_tick()", "print_progress()"};
    double true_now() { return sim::now_ns()*1e-9; }

    void wait_some(uint32_t w) {
        static const double t[] = {0, 1e-6, 3e-5, 2e-3, 0.1, 0.9999, 1.5, 65.2, 4000.0, 90000.0};
        double s = t[w % 10];
        if (s >= 1) sleep(unsigned(s)); 
        if (s > 0) usleep(useconds_t(1e6*(s - (s >= 1 ? std::floor(s) : 0))));
    }

    void bar(int kind, uint64_t n, uint32_t mod, uint64_t calls, bool steady) {
        uint32_t w0 = sim::work(10); bool vary = sim::work(2);
        double tick = sim::work(4)*0.5;
        progress_t p = progress_start(n);
        double t0 = true_now();
        std::vector<uint64_t> shown; size_t ends = 0; double prev_width = 0; bool over = false;
        for (uint64_t i = 0; i < calls; ++i) {
            wait_some(vary ? sim::work(10) : w0);
            std::ostringstream buf; std::streambuf* old = std::cout.rdbuf(buf.rdbuf());
            double before = true_now();
            bool threw = false; std::string what;
            try {
                switch (kind) { case PROGRESS: progress(p, mod); break; case TICK: progress_tick(p, tick); break; default: print_progress(p, i, mod); }
            } catch (const std::exception& e) { threw = true; what = e.what(); }
            std::cout.rdbuf(old);
            double after = true_now();
            std::string out = buf.str();
            REQUIRE(!threw, "throws", "%s number %llu of %llu throws '%s'", kind_name[kind], (unsigned long long)i, (unsigned long long)n, what.c_str());
            sim::silent q;
            if (over) { REQUIRE(out.empty(), "after-end", "%s prints '%s' after the end", kind_name[kind], out.c_str()); continue; }
            bool newline = !out.empty() && out.back() == '\n';
            if (newline) { ++ends; out.pop_back(); over = true; }
            REQUIRE(out.find('\n') == out.npos, "lines", "%s breaks the line: '%s'", kind_name[kind], out.c_str());
            size_t at = 0; 
            while (at < out.size()) {
                REQUIRE(out[at] == '\r', "format", "%s prints '%s'", kind_name[kind], out.c_str());
                size_t e = out.find('\r', at+1); if (e == out.npos) e = out.size();
                std::string l = out.substr(at+1, e-at-1); at = e;
                shot s; std::string err = parse_line(l, s);
                REQUIRE(err.empty(), "format", "%s prints '%s': %s", kind_name[kind], l.c_str(), err.c_str());
                REQUIRE(s.count == i+1, "count", "%s number %llu of %llu shows the count %llu", kind_name[kind], (unsigned long long)i, (unsigned long long)n, (unsigned long long)s.count);
                REQUIRE(s.dashes + s.spaces == progress_ndash && s.dashes == progress_ndash*s.count/n, "bar", "%s shows a bar with %llu dashes and %llu spaces for %llu of %llu", kind_name[kind],
                    (unsigned long long)s.dashes, (unsigned long long)s.spaces, (unsigned long long)s.count, (unsigned long long)n);
                REQUIRE(s.percent == 100*s.count/n || (100*s.count % n == 0 && s.percent+1 == 100*s.count/n), "percent", "%s shows %llu%% for %llu of %llu", kind_name[kind], (unsigned long long)s.percent, (unsigned long long)s.count, (unsigned long long)n);
                REQUIRE(l.size() >= prev_width, "width", "%s leaves characters of the previous line", kind_name[kind]); prev_width = l.size();
                dur el, le, to;
                REQUIRE(duration(s.el, el) && duration(s.left, le) && duration(s.total, to), "duration-format", "%s shows the durations '%s', '%s', '%s'", kind_name[kind], s.el.c_str(), s.left.c_str(), s.total.c_str());
                REQUIRE(le.hi >= 0, "negative", "%s shows a negative time left: %s", kind_name[kind], s.left.c_str());
                if (steady) {
                    double a = before - t0 - 3e-6, b = after - t0 + 3e-6;
                    REQUIRE(el.hi >= a && el.lo <= b, "elapsed", "%s shows %s elapsed, while it is between %.9g and %.9g seconds", kind_name[kind], s.el.c_str(), a, b);
                    double f = double(n - s.count)/s.count;
                    REQUIRE(le.hi >= a*f - 1e-5 && le.lo <= b*f + 1e-5, "left", "%s shows %s left for %llu of %llu in about %.9g seconds", kind_name[kind], s.left.c_str(), (unsigned long long)s.count, (unsigned long long)n, a);
                    REQUIRE(to.hi >= a*(1+f) - 1e-5 && to.lo <= b*(1+f) + 1e-5, "total", "%s shows %s in total for %llu of %llu in about %.9g seconds", kind_name[kind], s.total.c_str(), (unsigned long long)s.count, (unsigned long long)n, a);
                }
                if (shown.empty() || shown.back() != s.count) shown.push_back(s.count);
            }
            REQUIRE(newline == (n == 0 ? kind != PRINT && i == 0 : i+1 == n), "end", "%s %s the line at number %llu of %llu", kind_name[kind], newline ? "ends" : "does not end", (unsigned long long)i, (unsigned long long)n);
            bool due = n > 0 && i < n && (i+1 == n || (kind != TICK ? i % mod == 0 : i < 10));
            if (due) REQUIRE(!shown.empty() && shown.back() == i+1, "not-shown", "%s does not show number %llu of %llu", kind_name[kind], (unsigned long long)i, (unsigned long long)n);
            if (n > 0 && kind != TICK && !due && i < n) REQUIRE(shown.empty() || shown.back() != i+1, "shown", "%s shows number %llu, not a multiple of %u", kind_name[kind], (unsigned long long)i, mod);
        }
        sim::probe(steady ? "bars_steady_clock" : "bars_clock_jumps");
    }

    void prof(bool steady) {
        uint64_t n = sim::work(6); uint32_t w = sim::work(10); uint64_t calls = 0; bool one = sim::work(2);
        double a = true_now();
        double t = one ? profile([&]() { ++calls; wait_some(w); }) : profile([&]() { ++calls; wait_some(w); }, n);
        double b = true_now();
        REQUIRE(calls == (one ? 1 : n), "calls", "profile() called the function %llu times instead of %llu", (unsigned long long)calls, (unsigned long long)(one ? 1 : n));
        if (steady) REQUIRE(t >= -1e-9 && std::fabs(t - (b-a)) < 1e-3*0 + 5e-4 + 1e-6*(b-a), "profile", "profile() gives %.9g seconds instead of %.9g", t, b-a);
    }

    void dates(bool steady) {
        double x = now(); std::string d = today(); double y = now();
        time_t t1 = time_t(x), t2 = time_t(y); struct tm a, b; char u[20], v[20];
        { sim::silent q; gmtime_r(&t1, &a); gmtime_r(&t2, &b); strftime(u, 20, "%Y%m%d", &a); strftime(v, 20, "%Y%m%d", &b); }
        if (steady) REQUIRE(d == u || d == v, "date", "today() is %s while the date is %s", d.c_str(), u);
        REQUIRE(d.size() == 8, "date", "today() is '%s'", d.c_str());
        if (steady) REQUIRE(y >= x, "now", "now() goes back");
    }

    void m01() {
        bool steady = sim::work(2) == 0;
        uint32_t k = sim::work(1, 3);
        sim::describe("%s clock", steady ? "steady" : "jumping");
        sim::options o; o.clock_faults = !steady; o.max_steps = 200000000;
        auto r = sim::process(o, [&]() {
            setenv("TZ", "UTC", 1);
            for (uint32_t i = 0; i < k; ++i) {
                int what = sim::work(8);
                if (what == 0) { prof(steady); continue; }
                if (what == 1) { dates(steady); continue; }
                int kind = sim::work(NKIND);
                static const uint64_t ns[] = {1, 2, 3, 0, 4, 5, 7, 10, 11, 31, 32, 33, 34, 63, 64, 99, 100, 101, 130};
                uint64_t n = ns[sim::work(19)];
                uint32_t mod = sim::work(1, 13); uint64_t calls = n + sim::work(3); if (sim::chance(1, 5)) calls = sim::work(n+1);
                if (n && sim::chance(1, 6)) { sim::describe("; print_progress() of any number of %llu, every %u", (unsigned long long)n, mod); scattered(n, mod); continue; }
                sim::describe("; %s of %llu, every %u, called %llu times", kind_name[kind], (unsigned long long)n, mod, (unsigned long long)calls);
                bar(kind, n, mod, calls, steady);
                sim::nontrivial();
            }
        });
        REQUIRE(r.ok(), "abnormal-end", "the process ended abnormally (kind %d code %d %s)", r.kind, r.code, r.what.c_str());
    }
    sim::property_t p01("M01", m01, "A run is 1-3 loops with a progress bar, profiled functions or dates, with a steady clock or a clock that jumps at random; non-trivial: a progress bar was used");
}
