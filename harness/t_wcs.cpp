// T09: world coordinate systems in several threads at once
#define HARNESS_THREADS
#include "prelude.hpp"
#include <wcslib/wcs.h>
#include <wcslib/wcshdr.h>
#include <wcslib/wcserr.h>

// ---- the WCS library, entered through these functions ----------------------------------
namespace {
    struct lib_t { int inside; const char* where; int64_t live; uint64_t calls; };
    lib_t L;
    ORACLE void enter(const char* f) {
        sim::sync_point();
        if (L.inside) sim::violation("parser-overlap", "%s() is called while another thread is inside %s(): they are not thread-safe", f, L.where);
        L.inside = 1; L.where = f; ++L.calls;
        sim::sync_point();
    }
    ORACLE void leave() { sim::sync_point(); L.inside = 0; }
    ORACLE int sim_wcspih(char* h, int n, int relax, int ctrl, int* rej, int* nwcs, struct wcsprm** w) {
        enter("wcspih");
        int r; { sim::silent s; r = wcspih(h, n, relax, ctrl, rej, nwcs, w); }
        if (r == 0 && *w) L.live += *nwcs;
        leave();
        return r;
    }
    ORACLE int sim_wcsset(struct wcsprm* w) {
        enter("wcsset");
        int r; { sim::silent s; r = wcsset(w); }
        leave();
        return r;
    }
    ORACLE int sim_wcsini(int alloc, int naxis, struct wcsprm* w) {
        sim::access(w, sizeof *w, true);
        ++L.live;
        sim::silent s; return wcsini(alloc, naxis, w);
    }
    ORACLE int sim_wcsvfree(int* nwcs, struct wcsprm** w) {
        if (*w) { sim::access(*w, sizeof **w, true); L.live -= *nwcs; }
        if (L.live < 0) sim::violation("double-free", "a WCS structure is released twice");
        sim::silent s; return wcsvfree(nwcs, w);
    }
    // The conversions change the structure
    ORACLE int sim_wcsp2s(struct wcsprm* w, int nc, int ne, const double* p, double* i, double* ph, double* th, double* wo, int* st) {
        sim::access(w, sizeof *w, true); sim::access(p, size_t(nc)*ne*8, false); sim::access(wo, size_t(nc)*ne*8, true); sim::sync_point();
        bool sets = w->flag != 137; // (it then does the work of wcsset())
        if (sets) enter("wcsp2s setting up the structure");
        int r; { sim::silent s; r = wcsp2s(w, nc, ne, p, i, ph, th, wo, st); }
        if (sets) leave();
        return r;
    }
    ORACLE int sim_wcss2p(struct wcsprm* w, int nc, int ne, const double* wo, double* ph, double* th, double* i, double* p, int* st) {
        sim::access(w, sizeof *w, true); sim::access(wo, size_t(nc)*ne*8, false); sim::access(p, size_t(nc)*ne*8, true); sim::sync_point();
        bool sets = w->flag != 137;
        if (sets) enter("wcss2p setting up the structure");
        int r; { sim::silent s; r = wcss2p(w, nc, ne, wo, ph, th, i, p, st); }
        if (sets) leave();
        return r;
    }
}
#define wcspih sim_wcspih
#undef wcsset
#define wcsset sim_wcsset
#define wcsini sim_wcsini
#define wcsvfree sim_wcsvfree
#define wcsp2s sim_wcsp2s
#define wcss2p sim_wcss2p

#include <vif.hpp>
#include <vif/astro/wcs.hpp>

using namespace vif;
using namespace vif::astro;

namespace {
    struct op_t { uint32_t kind, life, scale, ra, dec, nx, ny; };
    enum { SKY, SPECTRAL, BAD, BLANK, CUBE, NKIND };
    const char* name[] = {"sky", "spectral", "invalid header", "by hand", "cube"};
    typedef std::vector<double> res_t;

    std::string card(const std::string& k, const std::string& v) { std::string s = k; s.resize(8, ' '); s += "= "+v; s.resize(80, ' '); return s; }

    // Pass the object through different hands
    wcs lived(wcs w, uint32_t life) {
        if (life == 1) { wcs o(std::move(w)); return o; }
        if (life == 2) { wcs o(3); o = std::move(w); return o; }
        if (life == 3) { std::vector<wcs> v; v.push_back(wcs(2)); v.push_back(std::move(w)); v.push_back(wcs(1)); wcs o = std::move(v[1]); return o; }
        return w;
    }

    fits::header spectral(const op_t& o) {
        fits::header h = card("SIMPLE", "T")+card("NAXIS", "1")+card("NAXIS1", to_string(o.nx))+card("CTYPE1", "'WAVE    '")+card("CUNIT1", o.life % 2 ? "'microns '" : "'um      '")
            +card("CRPIX1", "1.0")+card("CRVAL1", to_string(1+o.scale))+card("CDELT1", "0.25");
        { std::string e = "END"; e.resize(80, ' '); h += e; }
        return h;
    }
    // order of the axes of a cube: 0: RA, 1: Dec, 2: wavelength
    const uint32_t* perm(const op_t& o) { static const uint32_t p[6][3] = {{0,1,2}, {1,0,2}, {0,2,1}, {2,0,1}, {1,2,0}, {2,1,0}}; return p[(o.nx*7 + o.ny) % 6]; }

    res_t run_op(const op_t& o) {
        res_t r;
        double scale = 0.1*(1 + o.scale), ra = 10.0 + 30*o.ra, dec = -60.0 + 20*o.dec;
        if (o.kind == SKY) {
            make_wcs_header_params p;
            p.pixel_scale = scale; p.sky_ref_ra = ra; p.sky_ref_dec = dec;
            p.pixel_ref_x = o.nx/2 + 1; p.pixel_ref_y = o.ny/2 + 1; p.dims_x = o.nx; p.dims_y = o.ny;
            fits::header h;
            bool ok;
            if (o.life % 2) ok = make_wcs_header(p, h);
            else ok = make_wcs_header({"pixel_scale:"+to_string(p.pixel_scale), "sky_ref:"+to_string(p.sky_ref_ra)+","+to_string(p.sky_ref_dec),
                "pixel_ref:"+to_string(p.pixel_ref_x)+","+to_string(p.pixel_ref_y), "dims:"+to_string(p.dims_x)+","+to_string(p.dims_y)}, h);
            r.push_back(ok);
            wcs w = lived(extast(h), o.life);
            r.push_back(w.is_valid());
            if (!w.is_valid()) return r;
            for (auto d : w.dims) r.push_back(d);
            r.push_back(w.axis_count()); r.push_back(w.find_axis("RA")); r.push_back(w.find_axis("dec"));
            double x, y, s, a;
            ad2xy(w, ra, dec, x, y); r.push_back(x); r.push_back(y);
            xy2ad(w, p.pixel_ref_x, p.pixel_ref_y, x, y); r.push_back(x); r.push_back(y);
            r.push_back(get_pixel_size(w, s)); r.push_back(s);
            r.push_back(get_image_rotation(w, a)); r.push_back(a);
            vec1d vx = {1.0, 2.5, 3.0}, vy = {0.5, 1.0, 4.0}, vr, vd, ux, uy;
            xy2ad(w, vx, vy, vr, vd); ad2xy(w, vr, vd, ux, uy);
            for (uint_t i = 0; i < 3; ++i) { r.push_back(vr[i]); r.push_back(vd[i]); r.push_back(ux[i]); r.push_back(uy[i]); }
        } else if (o.kind == SPECTRAL) {
            wcs w = lived(wcs(spectral(o)), o.life);
            r.push_back(w.is_valid());
            if (!w.is_valid()) return r;
            double v;
            x2w(w, 0, 3.0, v, axis_unit::wave_um); r.push_back(v);
            w2x(w, 0, v, v, axis_unit::wave_um); r.push_back(v);
            x2w(w, 0, 1.0, v); r.push_back(v);
            vec1d ax = build_axis(w, 0, axis_unit::wave_nm);
            for (auto d : ax) r.push_back(d);
        } else if (o.kind == BAD) {
            fits::header h = card("SIMPLE", "T")+card("NAXIS", "2")+card("CTYPE1", "'RA---TAN'")+card("CTYPE2", o.scale % 2 ? "'DEC--XXX'" : "'RA---TAN'")
                +card("CRVAL1", "10.0")+card("CRVAL2", "10.0")+card("CRPIX1", "1.0")+card("CRPIX2", "1.0");
            { std::string e = "END"; e.resize(80, ' '); h += e; }
            wcs w = lived(wcs(h), o.life);
            r.push_back(w.is_valid());
        } else if (o.kind == CUBE) {
            // axes in any order
            static const char* ax[] = {"RA---TAN", "DEC--TAN", "WAVE", "RA---SIN", "DEC--SIN"}; static const char* un[] = {"deg", "deg", "m", "deg", "deg"};
            const uint32_t* pm = perm(o);
            fits::header h = card("SIMPLE", "T")+card("NAXIS", "3");
            for (uint32_t i = 0; i < 3; ++i) h += card("NAXIS"+to_string(i+1), to_string(o.nx+10*pm[i]));
            for (uint32_t i = 0; i < 3; ++i) {
                std::string k = to_string(i+1); uint32_t a = pm[i] + (o.scale == 1 && pm[i] < 2 ? 3 : 0);
                std::string ct = ax[a]; ct.resize(8, ' ');
                h += card("CTYPE"+k, "'"+ct+"'");
                h += card("CUNIT"+k, std::string("'")+un[a]+"'");
                h += card("CRPIX"+k, to_string(1.0+i)) + card("CRVAL"+k, pm[i] == 0 ? to_string(ra) : pm[i] == 1 ? to_string(dec) : std::string("1.5E-06")) + card("CDELT"+k, pm[i] == 2 ? "2.5E-07" : "0.001");
            }
            { std::string e = "END"; e.resize(80, ' '); h += e; }
            wcs w = lived(wcs(h), o.life);
            r.push_back(w.is_valid());
            if (!w.is_valid()) return r;
            r.push_back(w.axis_count());
            for (uint_t i = 0; i < 3; ++i) { r.push_back(w.dims[i]); r.push_back(w.has_unit[i]); r.push_back(w.type[i] == axis_type::spatial ? 0 : w.type[i] == axis_type::wave ? 1 : 2); }
            r.push_back(w.ra_axis); r.push_back(w.dec_axis); r.push_back(w.x_axis); r.push_back(w.y_axis);
            r.push_back(w.find_axis("RA")); r.push_back(w.find_axis("DEC")); r.push_back(w.find_axis("wave")); r.push_back(w.find_axis("freq") == npos);
            double x, y; 
            ad2xy(w, ra, dec, x, y); r.push_back(x); r.push_back(y);
            xy2ad(w, x, y, x, y); r.push_back(x); r.push_back(y);
        } else {
            wcs made(2);
            if (o.life == 1) made.flag_dirty();
            double x, y;
            made.w->crval[0] = ra; made.w->crval[1] = dec; made.w->cdelt[0] = -scale/3600; made.w->cdelt[1] = scale/3600; made.w->crpix[0] = 1; made.w->crpix[1] = 2;
            strcpy(made.w->ctype[0], "RA---TAN"); strcpy(made.w->ctype[1], "DEC--TAN");
            if (o.life == 1) made.flag_dirty();
            wcs w = o.life < 2 ? lived(std::move(made), o.scale % 4) : wcs(spectral(o)); // (set up already)
            if (o.life >= 2) w = std::move(made);
            w.update();
            ad2xy(w, ra, dec, x, y); r.push_back(x); r.push_back(y);
            w.w->crpix[0] = 5; w.w->flag = 0; w.flag_dirty(); w.update();
            ad2xy(w, ra, dec, x, y); r.push_back(x); r.push_back(y);
        }
        return r;
    }

    ORACLE bool near(double a, double b) { return fabs(a-b) < 1e-6*(1+fabs(b)); }

    // What must be found in any case
    ORACLE void check(const op_t& o, const res_t& r) {
        if (o.kind == SKY) {
            double ra = 10.0 + 30*o.ra, dec = -60.0 + 20*o.dec, px = o.nx/2 + 1, py = o.ny/2 + 1;
            REQUIRE(r.size() == 27 && r[0] && r[1], "wcs-invalid", "a valid header is refused");
            REQUIRE(r[2] == o.ny && r[3] == o.nx && r[4] == 2, "wcs-dims", "wrong dimensions");
            REQUIRE(near(r[7], px) && near(r[8], py), "wcs-value", "the reference position is at pixel (%g,%g) instead of (%g,%g)", r[7], r[8], px, py);
            REQUIRE(near(r[9], ra) && near(r[10], dec), "wcs-value", "the reference pixel is at (%g,%g) instead of (%g,%g)", r[9], r[10], ra, dec);
            REQUIRE(r[11] == 1 && fabs(r[12] - 0.1*(1+o.scale)) < 1e-4, "wcs-value", "the pixel size is %g", r[12]);
            const double x[] = {1.0, 2.5, 3.0}, y[] = {0.5, 1.0, 4.0};
            for (int i = 0; i < 3; ++i) REQUIRE(near(r[15+4*i+2], x[i]) && near(r[15+4*i+3], y[i]), "wcs-value", "pixel (%g,%g) is converted to (%g,%g) and back", x[i], y[i], r[15+4*i+2], r[15+4*i+3]);
        } else if (o.kind == SPECTRAL) {
            REQUIRE(r.size() == 4 + o.nx && r[0], "wcs-invalid", "a valid header is refused");
            REQUIRE(near(r[1], 1+o.scale + 0.5) && near(r[2], 3.0) && fabs(r[3] - 1e-6*(1+o.scale)) < 1e-12, "wcs-value", "wrong wavelength");
            for (uint32_t i = 0; i < o.nx; ++i) REQUIRE(near(r[4+i], 1e3*(1+o.scale + 0.25*i)), "wcs-value", "wrong wavelength axis");
        } else if (o.kind == BAD) {
            REQUIRE(r.size() == 1 && r[0] == 0, "wcs-valid", "an invalid header is accepted");
        } else if (o.kind == CUBE) {
            const uint32_t* pm = perm(o); uint32_t at[3]; for (uint32_t i = 0; i < 3; ++i) at[pm[i]] = i;
            double ra = 10.0 + 30*o.ra, dec = -60.0 + 20*o.dec;
            REQUIRE(r.size() == 23 && r[0] && r[1] == 3, "wcs-invalid", "a valid header is refused");
            for (uint32_t k = 0; k < 3; ++k) {
                uint32_t a = pm[2-k]; bool unit = true;
                REQUIRE(r[2+3*k] == o.nx + 10*a && r[3+3*k] == unit && r[4+3*k] == (a == 2), "wcs-dims", "axis %u has size %g, %s unit and type %g", k, r[2+3*k], r[3+3*k] ? "a" : "no", r[4+3*k]);
            }
            uint32_t ira = 2-at[0], idec = 2-at[1];
            REQUIRE(r[11] == ira && r[12] == idec && r[13] == std::max(ira, idec) && r[14] == std::min(ira, idec) && r[15] == ira && r[16] == idec && r[17] == 2-at[2] && r[18] == 1, "wcs-axis",
                "the axes of the cube are RA %g, Dec %g, X %g, Y %g instead of %u, %u, %u, %u", r[11], r[12], r[13], r[14], ira, idec, std::max(ira, idec), std::min(ira, idec));
            uint32_t px = std::min(at[0], at[1]) + 1, py = std::max(at[0], at[1]) + 1;
            REQUIRE(near(r[19], px) && near(r[20], py) && near(r[21], ra) && near(r[22], dec), "wcs-value", "the reference position is at pixel (%g,%g) instead of (%u,%u) and back at (%g,%g)", r[19], r[20], px, py, r[21], r[22]);
        } else {
            REQUIRE(r.size() == 4 && near(r[0], 1) && near(r[1], 2) && near(r[2], 5) && near(r[3], 2), "wcs-value", "wrong position for a coordinate system made by hand");
        }
    }

    void t09_body() {
        memset(&L, 0, sizeof L);
        {
            uint32_t nt = sim::work(2, 4);
            std::vector<std::vector<op_t>> prog(nt);
            sim::describe("%u threads:", nt);
            for (auto& p : prog) {
                uint32_t n = sim::work(1, 2);
                for (uint32_t i = 0; i < n; ++i) {
                    op_t o; o.kind = sim::work(NKIND); o.life = sim::work(4); o.scale = sim::work(5); o.ra = sim::work(10); o.dec = sim::work(7); o.nx = sim::work(1, 9); o.ny = sim::work(1, 9);
                    p.push_back(o);
                    sim::describe(" %s%s", name[o.kind], i+1 == n ? ";" : ",");
                }
            }
            std::vector<std::vector<res_t>> alone(nt), got(nt);
            for (uint32_t t = 0; t < nt; ++t) {
                got[t].resize(prog[t].size());
                for (auto& o : prog[t]) { alone[t].push_back(run_op(o)); check(o, alone[t].back()); }
            }
            REQUIRE(L.live == 0, "leak", "%lld WCS structures were not released", (long long)L.live);
            {
                auto pool = thread::pool(nt);
                for (uint32_t t = 0; t < nt; ++t) pool[t].start([&,t]() {
                    for (uint_t i = 0; i < prog[t].size(); ++i) got[t][i] = run_op(prog[t][i]);
                });
                for (auto& p : pool) p.join();
            }
            for (uint32_t t = 0; t < nt; ++t) for (uint_t k = 0; k < prog[t].size(); ++k) {
                auto& r = got[t][k]; auto& e = alone[t][k];
                REQUIRE(r.size() == e.size(), "concurrent-value", "%s: %llu results instead of %llu alone", name[prog[t][k].kind], (unsigned long long)r.size(), (unsigned long long)e.size());
                for (uint_t i = 0; i < r.size(); ++i) REQUIRE(r[i] == e[i] || (r[i] != r[i] && e[i] != e[i]), "concurrent-value", "%s: result %llu is %g, while it is %g alone",
                    name[prog[t][k].kind], (unsigned long long)i, r[i], e[i]);
            }
            REQUIRE(L.live == 0, "leak", "%lld WCS structures were not released", (long long)L.live);
            sim::probe("library_calls", L.calls);
            sim::nontrivial();
        }
    }

    void t09() {
        sim::options o; o.threads = true; o.max_steps = 40000000;
        auto r = sim::process(o, []() { t09_body(); });
        REQUIRE(r.ok(), "abnormal-end", "the process ended abnormally (kind %d code %d %s)", r.kind, r.code, r.what.c_str());
    }
    sim::property_t p09("T09", t09, "A run is 2-4 threads making and using 1-2 coordinate systems each; all runs are non-trivial");
}
