// T07: threaded cross-matching
#define HARNESS_THREADS
#include "prelude.hpp"
#include <vif.hpp>
#include <vif/astro/qxmatch.hpp>

using namespace vif;
using namespace vif::astro;

namespace {
    struct cat { vec1d ra, dec; };

    // Positions on a grid (ties are frequent) or anywhere in a small field
    void fill(cat& c, uint32_t n, uint32_t style, double ra0, double dec0, double size) {
        c.ra = vec1d(n); c.dec = vec1d(n);
        for (uint32_t i = 0; i < n; ++i) {
            double x, y;
            if (style == 2) { c.ra.safe[i] = sim::work(3600)/10.0; c.dec.safe[i] = sim::work(1801)/10.0 - 90.0; continue; }
            if (style == 0) { x = sim::work(4)/4.0; y = sim::work(4)/4.0; }
            else { x = sim::work(1000)/1000.0; y = sim::work(1000)/1000.0; }
            c.ra.safe[i] = ra0 + x*size; c.dec.safe[i] = dec0 + y*size;
        }
    }

    ORACLE bool same(double a, double b) { return a == b || (a != a && b != b); }

    ORACLE void check_same(const qxmatch_res& r, const qxmatch_res& s, const char* what) {
        REQUIRE(r.id.dims == s.id.dims && r.d.dims == s.d.dims && r.rid.dims == s.rid.dims && r.rd.dims == s.rd.dims, "dims",
            "the dimensions of the result differ from those of the single-threaded cross-match (%s)", what);
        REQUIRE(r.id.size() == r.id.data.size() && r.d.size() == r.d.data.size() && r.rid.size() == r.rid.data.size() && r.rd.size() == r.rd.data.size(), "dims",
            "the dimensions of the result do not match its content (%s)", what);
        uint_t n1 = r.id.dims[1];
        for (uint_t i = 0; i < r.id.size(); ++i) {
            REQUIRE(r.id.safe[i] == s.id.safe[i], "neighbour", "source %llu: neighbour %llu is %lld instead of %lld (%s)", (unsigned long long)(i%n1),
                (unsigned long long)(i/n1), (long long)r.id.safe[i], (long long)s.id.safe[i], what);
            REQUIRE(same(r.d.safe[i], s.d.safe[i]), "distance", "source %llu: distance %llu is %g instead of %g (%s)", (unsigned long long)(i%n1),
                (unsigned long long)(i/n1), r.d.safe[i], s.d.safe[i], what);
        }
        for (uint_t j = 0; j < r.rid.size(); ++j) {
            REQUIRE(r.rid.safe[j] == s.rid.safe[j], "reverse-neighbour", "second catalog, source %llu: neighbour is %lld instead of %lld (%s)", (unsigned long long)j,
                (long long)r.rid.safe[j], (long long)s.rid.safe[j], what);
            REQUIRE(same(r.rd.safe[j], s.rd.safe[j]), "reverse-distance", "second catalog, source %llu: distance is %g instead of %g (%s)", (unsigned long long)j,
                r.rd.safe[j], s.rd.safe[j], what);
        }
    }

    // Distance on the sphere (arcsec) from the vectors, independent of the library
    ORACLE double dist(const cat& a, uint_t i, const cat& b, uint_t j, bool linear) {
        long double x = a.ra.data[i], y = a.dec.data[i], u = b.ra.data[j], v = b.dec.data[j];
        if (linear) return sqrtl((x-u)*(x-u) + (y-v)*(y-v));
        long double k = 3.14159265358979323846264338327950288L/180;
        long double sx = sinl((x-u)*k/2), sy = sinl((y-v)*k/2);
        return 2*asinl(sqrtl(sy*sy + sx*sx*cosl(y*k)*cosl(v*k)))/k*3600;
    }

    // The neighbours are the nearest ones
    ORACLE void check_true(const qxmatch_res& r, const cat& a, const cat& b, const qxmatch_params& p, const char* what) {
        uint_t nth = p.nth < 1 ? 1 : p.nth, n1 = a.ra.size(), n2 = b.ra.size();
        auto close = [](double x, double y) { return fabs(x-y) <= 1e-7*(1.0 + fabs(x)); };
        for (uint_t i = 0; i < n1; ++i) {
            std::vector<double> ds;
            for (uint_t j = 0; j < n2; ++j) if (!(p.self && i == j)) ds.push_back(dist(a, i, b, j, p.linear));
            std::sort(ds.begin(), ds.end());
            std::vector<bool> seen(n2);
            for (uint_t k = 0; k < nth; ++k) {
                uint_t id = r.id.data[k*n1+i]; double d = r.d.data[k*n1+i];
                if (k >= ds.size()) {
                    REQUIRE(id == npos, "neighbour-extra", "source %llu has a neighbour %llu among %llu candidates (%s)", (unsigned long long)i, (unsigned long long)k, (unsigned long long)ds.size(), what);
                    continue;
                }
                REQUIRE(id < n2 && !seen[id] && !(p.self && id == i), "neighbour-id", "source %llu: neighbour %llu is source %lld, repeated or invalid (%s)",
                    (unsigned long long)i, (unsigned long long)k, (long long)id, what);
                seen[id] = true;
                REQUIRE(close(d, dist(a, i, b, id, p.linear)), "neighbour-distance", "source %llu: distance to neighbour %llu (source %llu) is %g, should be %g (%s)",
                    (unsigned long long)i, (unsigned long long)k, (unsigned long long)id, d, dist(a, i, b, id, p.linear), what);
                REQUIRE(close(d, ds[k]), "not-nearest", "source %llu: neighbour %llu is at %g, the nearest is at %g (%s)", (unsigned long long)i, (unsigned long long)k, d, ds[k], what);
            }
        }
        if (p.no_mirror || p.self) return;
        for (uint_t j = 0; j < n2; ++j) {
            double best = 1e300;
            for (uint_t i = 0; i < n1; ++i) best = std::min(best, dist(a, i, b, j, p.linear));
            uint_t id = r.rid.data[j];
            REQUIRE(id < n1 && close(r.rd.data[j], dist(a, id, b, j, p.linear)) && close(r.rd.data[j], best), "not-nearest-reverse",
                "second catalog, source %llu: neighbour %lld at %g, the nearest is at %g (%s)", (unsigned long long)j, (long long)id, r.rd.data[j], best, what);
        }
    }

    void t07_match(bool faults) {
        {
            qxmatch_params p;
            p.thread = sim::work(2, 5);
            p.nth = sim::work(1, 3); if (sim::chance(1, 8)) p.nth += 3;
            p.brute_force = sim::chance(1, 2);
            p.no_mirror = sim::chance(1, 4);
            p.linear = sim::chance(1, 4);
            p.verbose = sim::chance(1, 8);
            bool self = sim::chance(1, 5);
            static const double ra0s[] = {10.0, 150.1, 279.5}, dec0s[] = {0.1, -27.8, 50.0}, sizes[] = {0.1, 0.01, 0.0005};
            double ra0 = ra0s[sim::work(3)], dec0 = dec0s[sim::work(3)], size = sizes[sim::work(3)];
            uint32_t n1 = sim::work(1, 12), n2 = sim::work(1, 12), st = sim::work(p.brute_force && !p.linear ? 3 : 2);
            if (sim::chance(1, 20)) n1 = 0;
            if (sim::chance(1, 20)) n2 = 0;
            cat a, b;
            fill(a, n1, st, ra0, dec0, size);
            if (self) b = a; else fill(b, n2, st, ra0, dec0, size);
            if (!p.brute_force && b.ra.size() && (p.linear || size > 0.001)) {
                // The extent of the second catalog sets the size of the buckets: it must not be degenerate
                b.ra.push_back(ra0); b.dec.push_back(dec0);
                b.ra.push_back(ra0+size); b.dec.push_back(dec0+size);
                if (self) a = b;
            }
            if (!p.brute_force && !self && sim::chance(1, 4)) {
                // The catalogs are far from each other: the search goes through many cells
                double sx = sim::work(14)*size, sy = sim::work(sim::work(2) ? 14 : 3)*size; if (sim::chance(1, 2)) sy = -sy; if (sim::chance(1, 2)) sx = -sx; if (sim::chance(1, 2)) std::swap(sx, sy);
                if (size > 0.05) { sx /= 4; sy /= 4; }
                for (auto& x : a.ra.data) x += sx; for (auto& y : a.dec.data) y += sy;
                sim::probe("distant_catalogs");
            }
            p.self = self;
            char what[160];
            snprintf(what, sizeof what, "%u/%u sources, %llu threads, nth=%llu%s%s%s%s", (unsigned)a.ra.size(), (unsigned)b.ra.size(), (unsigned long long)p.thread,
                (unsigned long long)p.nth, p.brute_force ? ", brute force" : "", p.no_mirror ? ", no mirror" : "", p.linear ? ", linear" : "", self ? ", self" : "");
            sim::describe("%s", what);
            if (p.thread > a.ra.size() || p.thread > b.ra.size()) sim::probe("more_threads_than_sources");

            qxmatch_params q = p; q.thread = 1; q.verbose = false;
            bool own = sim::chance(1, 2); // through the function for one catalog
            qxmatch_res s = self && own ? qxmatch(a, q) : qxmatch(a.ra, a.dec, b.ra, b.dec, q);
            qxmatch_res r;
            bool ok = false;
            try {
                r = self && own ? qxmatch(a, p) : qxmatch(a.ra, a.dec, b.ra, b.dec, p);
                ok = true;
            } catch (std::system_error& e) {
                REQUIRE(faults, "unexpected-failure", "the cross-match failed: %s (%s)", e.what(), what);
                sim::probe("creation_failure_reported");
                sim::nontrivial();
            }
            REQUIRE(sim::live_threads() == 0, "thread-left", "%d threads still run after the cross-match %s", sim::live_threads(), ok ? "returned" : "failed");
            if (!ok) return;
            check_same(r, s, what);
            if (a.ra.size() && b.ra.size()) { check_true(r, a, b, p, what); sim::nontrivial(); }
        }
    }

    void t07_body(bool faults) {
        t07_match(faults);
    }

    void t07() {
        sim::options o; o.threads = true; o.max_steps = 40000000;
        o.thread_faults = sim::chance(1, 5);
        bool faults = o.thread_faults;
        auto r = sim::process(o, [faults]() { t07_body(faults); });
        REQUIRE(r.ok(), "abnormal-end", "the process ended abnormally (kind %d code %d %s)", r.kind, r.code, r.what.c_str());
    }
    sim::property_t p07("T07", t07, "A run is the cross-match of catalogs of 0-12 sources with 2-5 threads, compared with one thread and with an independent search; "
        "non-trivial: both catalogs have sources");
}
