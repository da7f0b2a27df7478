// F11: cutouts and stacks extracted from images on disk
#include "prelude.hpp"
#include "f_cfitsio.hpp"
#include <vif.hpp>
#include <vif/astro/qstack.hpp>
#include "f_common.hpp"
#include "f_fitsmodel.hpp"

using namespace vif;
using namespace vif::astro;
namespace D = sim::disk;

namespace {
    const uint32_t faults = D::bit(D::open_fail)|D::bit(D::read_eio)|D::bit(D::read_short)|D::bit(D::stat_fail);
    const char* cls_(const char* c) { return cf::ignored ? "cfitsio-ignores-error" : c; }

    // ---- the sky ---------------------------------------------------------------------------
    struct image { long nx, ny, ox, oy; int bitpix, extra; std::vector<double> v; double at(long x, long y) const { return v[y*nx + x]; } }; // (ox, oy): position of the first pixel on the plane
    struct source { long x, y; double fx, fy; }; // on the plane, pixel + fraction of pixel
    struct scene { std::vector<image> im, wim; std::vector<source> src; bool mismatch; std::string name, wname; bool list; uint32_t hsize; };
    const double pix = 0.5; // [arcsec]
    bool* impossible = nullptr; // the request makes no sense (shared with the simulated process)

    void put_image(const std::string& name, const image& m, bool with_wcs) {
        mf::file f(1); auto& h = f[0]; h.bitpix = m.bitpix; if (m.extra == 3) h.naxes = {1, m.nx, m.ny}; else { h.naxes = {m.nx, m.ny}; for (int i = 0; i < m.extra; ++i) h.naxes.push_back(1); }
        for (double d : m.v) { if (m.bitpix == -64) mf::put_be(h.data, d); else if (m.bitpix == -32) mf::put_be(h.data, float(d)); else mf::put_be(h.data, short(d)); }
        auto key = [&](const std::string& k, double d) { char b[40]; snprintf(b, sizeof b, "%.12g", d); h.keys.push_back({k, b}); };
        if (with_wcs) {
            const char* kx = m.extra == 3 ? "2" : "1"; const char* ky = m.extra == 3 ? "3" : "2"; auto nm = [](const char* k, const char* n) { return std::string(k)+n; };
            h.keys.push_back({nm("CTYPE",kx), "'RA---TAN'"}); h.keys.push_back({nm("CTYPE",ky), "'DEC--TAN'"}); h.keys.push_back({nm("CUNIT",kx), "'deg     '"}); h.keys.push_back({nm("CUNIT",ky), "'deg     '"});
            key(nm("CRVAL",kx), 150); key(nm("CRVAL",ky), 2); key(nm("CDELT",kx), -pix/3600); key(nm("CDELT",ky), pix/3600); key(nm("CRPIX",kx), 101 - m.ox); key(nm("CRPIX",ky), 101 - m.oy); // pixel 100 of the plane
            h.keys.push_back({"EQUINOX", "2000.0"});
        }
        D::put(name, mf::write(f));
    }
    // sky position of a point of the plane (tangent projection, written here)
    void deproject(double px, double py, double& ra, double& dec) {
        const double r = 3.14159265358979323846/180;
        double xi = -(px - 100)*pix/3600*r, eta = (py - 100)*pix/3600*r, d0 = 2*r;
        ra = 150 + std::atan2(xi, std::cos(d0) - eta*std::sin(d0))/r;
        dec = std::atan2(std::sin(d0) + eta*std::cos(d0), std::sqrt(xi*xi + std::pow(std::cos(d0) - eta*std::sin(d0), 2)))/r;
    }
    void positions(const scene& s, vec1d& ra, vec1d& dec) { ra.resize(s.src.size()); dec.resize(s.src.size()); for (size_t i = 0; i < s.src.size(); ++i) deproject(s.src[i].x + s.src[i].fx, s.src[i].y + s.src[i].fy, ra.safe[i], dec.safe[i]); }

    scene make_scene(bool weights, bool flat = false, bool narrow = false) {
        scene s; s.mismatch = false; uint32_t n = sim::work(1, 3); s.list = n > 1 || sim::work(3) == 1; s.hsize = sim::work(1, 4);
        uint32_t big = sim::work(4); bool nans = sim::work(2);
        for (uint32_t i = 0; i < n; ++i) {
            image m; m.extra = !flat && sim::chance(1, 6) ? sim::work(1, 3) : 0; m.nx = (big == 3 ? 60 : 8) + sim::work(24); m.ny = (big == 3 ? 70 : 8) + sim::work(20); m.ox = i ? long(sim::work(30)) - 10 : 0; m.oy = i ? long(sim::work(30)) - 10 : 0;
            static const int bp[] = {-64, -32, 16}; m.bitpix = bp[sim::work(3)]; if (narrow && m.bitpix == -64) m.bitpix = -32;
            for (long y = 0; y < m.ny; ++y) for (long x = 0; x < m.nx; ++x) m.v.push_back(1 + i*10000 + y*100 + x);
            if (m.bitpix < 0 && nans) for (uint32_t k = sim::work(4); k > 0; --k) { uint32_t x = sim::work(m.nx), y = sim::work(m.ny); m.v[y*m.nx + x] = std::numeric_limits<double>::quiet_NaN(); }
            s.im.push_back(m);
            image w = m; double off = 0.5*(m.bitpix < 0) + 1000; for (double& d : w.v) d += off;
            if (m.bitpix < 0 && nans && sim::work(2)) for (uint32_t k = sim::work(4); k > 0; --k) { uint32_t x = sim::work(m.nx), y = sim::work(m.ny); w.v[y*m.nx + x] = std::numeric_limits<double>::quiet_NaN(); }
            s.wim.push_back(w);
        }
        if (weights && !s.list && sim::chance(1, 12)) {
            // a weight map of the wrong size
            auto& w = s.wim[0]; switch (sim::work(3)) { case 0: if (w.nx != w.ny) { std::swap(w.nx, w.ny); s.mismatch = true; } break; case 1: --w.ny; w.v.resize(w.nx*w.ny); s.mismatch = true; break; default: ++w.nx; w.v.resize(w.nx*w.ny); s.mismatch = true; break; }
            if (s.mismatch) *impossible = true;
        }
        uint32_t ns = sim::work(1, 8);
        for (uint32_t k = 0; k < ns; ++k) {
            source c; auto& m = s.im[sim::work(n)]; static const double f[] = {0, 0.25, -0.25, 0.375};
            c.x = m.ox + long(sim::work(m.nx + 8)) - 4; c.y = m.oy + long(sim::work(m.ny + 8)) - 4; c.fx = f[sim::work(4)]; c.fy = f[sim::work(4)];
            // positions for which the documentation does not tell if the source is covered: the last row or column of pixels
            bool unsure = false; long h = s.hsize;
            for (auto& i : s.im) { long x0 = c.x - h - i.ox, x1 = c.x + h - i.ox, y0 = c.y - h - i.oy, y1 = c.y + h - i.oy; if (x0 == i.nx-1 || y0 == i.ny-1 || (weights && (x1 == i.nx-1 || y1 == i.ny-1))) unsure = true; }
            if (!unsure) s.src.push_back(c);
        }
        // undefined pixels where the sources are
        if (nans) for (auto& c : s.src) if (sim::chance(1, 3)) {
            uint32_t k = sim::work(n); auto& m = weights && sim::work(2) ? s.wim[k] : s.im[k]; long u = c.x - m.ox, v = c.y - m.oy;
            if (m.bitpix < 0 && u >= 0 && v >= 0 && u < m.nx && v < m.ny) m.v[v*m.nx + u] = std::numeric_limits<double>::quiet_NaN();
        }
        s.name = s.list ? "sub/all.sectfits" : "sub/im0.fits"; s.wname = s.list ? "sub/wht.sectfits" : "sub/wht0.fits";
        std::string l, w;
        { sim::silent q; ::mkdir("sub", 0755); }
        for (uint32_t i = 0; i < n; ++i) {
            std::string k = std::to_string(i);
            put_image("sub/im"+k+".fits", s.im[i], true); l += "im"+k+".fits\n";
            if (weights) { put_image("sub/wht"+k+".fits", s.wim[i], s.list || sim::work(2)); w += "wht"+k+".fits\n"; }
        }
        if (s.list) { D::put(s.name, l); if (weights) D::put(s.wname, w); }
        return s;
    }
    // ... and back
    void project(double ra, double dec, double& px, double& py) {
        const double r = 3.14159265358979323846/180; double a = (ra - 150)*r, d = dec*r, d0 = 2*r;
        double c = std::sin(d0)*std::sin(d) + std::cos(d0)*std::cos(d)*std::cos(a);
        px = 100 - std::cos(d)*std::sin(a)/c/r*3600/pix; py = 100 + (std::cos(d0)*std::sin(d) - std::sin(d0)*std::cos(d)*std::cos(a))/c/r*3600/pix;
    }
    // A map of the offsets of the coordinates: the first extension for RA, the second for Dec
    struct distortion { image r, d; };
    distortion put_distortion(const scene& s) {
        distortion t; image& m = t.r; m = s.im[0]; m.extra = 0; m.bitpix = -64; m.nx = 6 + sim::work(40); m.ny = 6 + sim::work(40); m.v.clear(); t.d = m; bool whole = sim::work(2);
        for (long y = 0; y < m.ny; ++y) for (long x = 0; x < m.nx; ++x) { t.r.v.push_back((whole ? 2 : (x*7 + y) % 5 - 2)*pix/3600); t.d.v.push_back((whole ? -3 : (x + y*3) % 7 - 3)*pix/3600); }
        put_image("sub/dist.fits", t.r, true);
        // the same image twice more, as extensions
        std::string bytes; D::get("sub/dist.fits", bytes);
        mf::file f; std::string err; mf::parse(bytes, f, err); f.push_back(f[0]); f.push_back(f[0]); f[2].data.clear(); for (double v : t.d.v) mf::put_be(f[2].data, v);
        D::put("sub/dist.fits", mf::write(f));
        return t;
    }
    typedef std::vector<double> patch; // (2h+1)^2
    // What one image says about a source. 0: not covered, 1: partly, 2: all of it
    int look(const image& m, const source& c, long h, double out, patch& p) {
        p.assign((2*h+1)*(2*h+1), out); int in = 0;
        for (long y = -h; y <= h; ++y) for (long x = -h; x <= h; ++x) {
            long u = c.x + x - m.ox, v = c.y + y - m.oy;
            if (u >= 0 && v >= 0 && u < m.nx && v < m.ny) { p[(y+h)*(2*h+1) + x+h] = m.at(u, v); ++in; }
        }
        return in == 0 ? 0 : in == int(p.size()) ? 2 : 1;
    }
    bool finite(const patch& p) { for (double d : p) if (!std::isfinite(d)) return false; return true; }
    bool eq(double a, double b) { return a == b || (a != a && b != b); }

    struct stack { std::vector<patch> c, w; std::vector<uint32_t> id, sect; };
    stack expected(const scene& s, bool keep_nan, bool weights) {
        stack r; std::vector<int> at(s.src.size(), -1); const double nan = std::numeric_limits<double>::quiet_NaN();
        bool one = weights; // only sources inside of the image are kept
        for (uint32_t k = 0; k < s.im.size(); ++k) for (uint32_t i = 0; i < s.src.size(); ++i) {
            patch p, q;
            int in = look(s.im[k], s.src[i], s.hsize, nan, p); look(s.wim[k], s.src[i], s.hsize, nan, q);
            if (in == 0 || (one && in == 1) || (!keep_nan && (!finite(p) || (weights && !finite(q))))) continue;
            if (at[i] < 0) { at[i] = r.id.size(); r.id.push_back(i); r.sect.push_back(k); r.c.push_back(p); r.w.push_back(q); }
            else for (size_t j = 0; j < p.size(); ++j) { if (!std::isfinite(r.c[at[i]][j])) r.c[at[i]][j] = p[j]; if (!std::isfinite(r.w[at[i]][j])) r.w[at[i]][j] = q[j]; }
        }
        return r;
    }
    template<typename T> void check_cube(const vec<3,T>& cube, const std::vector<patch>& e, uint32_t h, const scene& s, const std::vector<uint32_t>& id, const char* what) {
        uint32_t n = 2*h+1;
        REQUIRE(cube.dims[0] == e.size() && (e.empty() || (cube.dims[1] == n && cube.dims[2] == n)) && cube.data.size() == size_t(cube.dims[0])*cube.dims[1]*cube.dims[2], cls_("wrong-size"), "%s has dimensions %zux%zux%zu instead of %zux%ux%u", what, size_t(cube.dims[0]), size_t(cube.dims[1]), size_t(cube.dims[2]), e.size(), n, n);
        for (size_t k = 0; k < e.size(); ++k) for (size_t j = 0; j < e[k].size(); ++j)
            REQUIRE(eq(double(T(e[k][j])), double(cube.data[k*n*n + j])), cls_("wrong-pixel"), "%s: pixel (%zu,%zu) of source %u is %g instead of %g, with no error", what, j % n, j/n, id[k], double(cube.data[k*n*n + j]), e[k][j]);
    }

    template<typename T> void do_stack(bool weights) {
        scene s = make_scene(weights); vec1d ra, dec; positions(s, ra, dec);
        qstack_params p; p.keep_nan = sim::work(2); p.save_offsets = sim::work(2); p.save_section = sim::work(2); p.verbose = sim::chance(1, 8);
        bool twice = sim::chance(1, 4);
        sim::describe("%s of %zu sources in %zu images%s", weights ? "stacking with weights" : "stacking", s.src.size(), s.im.size(), twice ? ", twice" : "");
        stack e = expected(s, p.keep_nan, weights && !s.list); size_t n0 = e.id.size();
        if (weights && s.list) {
            // the images and the weights are read separately, and must have the same sources in the same order
            scene t = s; t.im = s.wim; stack f = expected(t, p.keep_nan, false);
            if (f.id != e.id) { s.mismatch = true; *impossible = true; sim::probe("different_sources"); } else e.w = f.c;
        }
        vec<3,T> cube, wcube; vec1u ids; qstack_output out; size_t done = 0;
        for (int k = 0; k < (twice ? 2 : 1); ++k) {
            uint64_t f0 = D::fired_any(); std::string msg; bool threw = false;
            try { D::arm(); out = weights ? qstack(ra, dec, s.name, s.wname, s.hsize, cube, wcube, ids, p) : qstack(ra, dec, s.name, s.hsize, cube, ids, p); D::disarm(); }
            catch (const fits::exception& x) { D::disarm(); threw = true; msg = x.what(); }
            REQUIRE(D::open_files() == 0, cls_("file-left-open"), "%d files are still open", D::open_files());
            if (threw) { REQUIRE(D::fired_any() > f0, cls_("unexpected-failure"), "stacking failed but the storage did not: %s", fc::esc(msg, 200).c_str()); sim::probe("failure_reported"); return; }
            REQUIRE(!s.mismatch, "accepted", "a weight map that does not match the image is accepted");
            ++done;
        }
        sim::silent q;
        std::vector<patch> c, w; std::vector<uint32_t> id; for (size_t k = 0; k < done; ++k) { c.insert(c.end(), e.c.begin(), e.c.end()); w.insert(w.end(), e.w.begin(), e.w.end()); id.insert(id.end(), e.id.begin(), e.id.end()); }
        REQUIRE(ids.size() == id.size(), cls_("wrong-sources"), "%zu sources were extracted instead of %zu, with no error", size_t(ids.size()), id.size());
        for (size_t k = 0; k < id.size(); ++k) REQUIRE(ids.data[k] == id[k], cls_("wrong-sources"), "source number %zu is %zu instead of %u", k, size_t(ids.data[k]), id[k]);
        check_cube(cube, c, s.hsize, s, id, "the cube"); if (weights) check_cube(wcube, w, s.hsize, s, id, "the weight cube");
        REQUIRE(out.dx.size() == (p.save_offsets ? n0 : 0) && out.dy.size() == out.dx.size() && out.sect.size() == (p.save_section ? n0 : 0), cls_("wrong-output"), "%zu offsets and %zu sections for %zu sources", size_t(out.dx.size()), size_t(out.sect.size()), n0);
        for (size_t k = 0; k < out.dx.size(); ++k) REQUIRE(std::fabs(out.dx.data[k] - s.src[e.id[k]].fx) < 1e-5 && std::fabs(out.dy.data[k] - s.src[e.id[k]].fy) < 1e-5, cls_("wrong-output"), "the offset of source %u is %g, %g", e.id[k], out.dx.data[k], out.dy.data[k]);
        for (size_t k = 0; k < out.sect.size(); ++k) REQUIRE(out.sect.data[k] == e.sect[k], cls_("wrong-output"), "source %u comes from section %zu instead of %u", e.id[k], size_t(out.sect.data[k]), e.sect[k]);
        sim::note(id.size()); for (auto& x : c) for (double d : x) sim::note(uint64_t(d != d ? 0 : d));
        if (!id.empty()) sim::probe("sources_extracted", id.size());
    }

    template<typename T> void do_cutouts() {
        scene s = make_scene(false, true, sizeof(T) == 4); vec1d ra, dec; positions(s, ra, dec);
        bool defnan = sim::work(2) == 0; double def = defnan ? std::numeric_limits<double>::quiet_NaN() : -5; bool gethdr = sim::work(2);
        bool dist = sim::chance(1, 3); distortion dm; if (dist) dm = put_distortion(s);
        sim::describe("cutouts of %zu sources in %zu images%s", s.src.size(), s.im.size(), dist ? " with distortion" : "");
        uint64_t f0 = D::fired_any(); std::string msg; bool threw = false;
        {
            cutout_extractor ex;
            try { D::arm(); ex.setup_image(s.name); if (dist) ex.setup_distortion("sub/dist.fits"); D::disarm(); } catch (const fits::exception& x) { D::disarm(); threw = true; msg = x.what(); }
            if (threw) { REQUIRE(D::fired_any() > f0, cls_("unexpected-failure"), "opening the images failed but the storage did not: %s", fc::esc(msg, 200).c_str()); sim::probe("failure_reported"); }
            else for (size_t i = 0; i < s.src.size(); ++i) {
                source c = s.src[i]; bool unsure = false;
                if (dist) {
                    sim::silent q; long u = c.x - dm.r.ox, v = c.y - dm.r.oy; 
                    if (u >= 0 && v >= 0 && u < dm.r.nx && v < dm.r.ny) {
                        double x, y; project(ra.safe[i] - dm.r.at(u, v), dec.safe[i] - dm.d.at(u, v), x, y); c.x = std::lround(x); c.y = std::lround(y); c.fx = x - c.x; c.fy = y - c.y;
                        unsure = std::fabs(c.fx) > 0.49 || std::fabs(c.fy) > 0.49; sim::probe("distorted");
                    }
                }
                if (unsure) continue;
                vec<2,T> cut; bool ok = false; threw = false; f0 = D::fired_any(); fits::header hdr; double size = (2*s.hsize - 0.5)*pix;
                try {
                    D::arm();
                    if (defnan) ok = gethdr ? ex.get_cutout(cut, hdr, ra.safe[i], dec.safe[i], size) : ex.get_cutout(cut, ra.safe[i], dec.safe[i], size);
                    else ok = gethdr ? ex.get_cutout(cut, hdr, ra.safe[i], dec.safe[i], size, T(def)) : ex.get_cutout(cut, ra.safe[i], dec.safe[i], size, T(def));
                    D::disarm();
                } catch (const fits::exception& x) { D::disarm(); threw = true; msg = x.what(); }
                if (threw) { REQUIRE(D::fired_any() > f0, cls_("unexpected-failure"), "a cutout failed but the storage did not: %s", fc::esc(msg, 200).c_str()); sim::probe("failure_reported"); break; } // (CFITSIO keeps wrong data in its buffers after an error: only a new object is sure to work)
                sim::silent q;
                patch e; bool any = false; uint32_t first = 0;
                for (uint32_t k = 0; k < s.im.size(); ++k) {
                    patch p; if (!look(s.im[k], c, s.hsize, def, p)) continue;
                    if (!any) { e = p; any = true; first = k; } else for (size_t j = 0; j < p.size(); ++j) if (!std::isfinite(e[j])) e[j] = p[j];
                }
                uint32_t n = 2*s.hsize+1;
                if (!any) e.assign(n*n, def);
                REQUIRE(ok == any, cls_("wrong-coverage"), "source %zu is %scovered, but the function says otherwise, with no error", i, any ? "" : "not ");
                REQUIRE(cut.dims[0] == n && cut.dims[1] == n && cut.data.size() == n*n, cls_("wrong-size"), "the cutout has dimensions %zux%zu instead of %ux%u", size_t(cut.dims[0]), size_t(cut.dims[1]), n, n);
                for (size_t j = 0; j < e.size(); ++j) REQUIRE(eq(double(T(e[j])), double(cut.data[j])), cls_("wrong-pixel"), "pixel (%zu,%zu) of the cutout of source %zu is %g instead of %g, with no error", j % n, j/n, i, double(cut.data[j]), e[j]);
                if (gethdr && any) {
                    double cx = 0, cy = 0, vr = 0, vd = 0; uint_t n1 = 0, n2 = 0;
                    bool all = fits::getkey(hdr, "CRPIX1", cx) && fits::getkey(hdr, "CRPIX2", cy) && fits::getkey(hdr, "CRVAL1", vr) && fits::getkey(hdr, "CRVAL2", vd) && fits::getkey(hdr, "NAXIS1", n1) && fits::getkey(hdr, "NAXIS2", n2);
                    REQUIRE(all && n1 == n && n2 == n && std::fabs(cx - (s.hsize + 1 + c.fx)) < 1e-4 && std::fabs(cy - (s.hsize + 1 + c.fy)) < 1e-4 && std::fabs(vr - ra.safe[i]) < 1e-6 && std::fabs(vd - dec.safe[i]) < 1e-6,
                        cls_("wrong-header"), "the header of the cutout has CRPIX %g, %g, CRVAL %.9g, %.9g and size %zux%zu", cx, cy, vr, vd, size_t(n1), size_t(n2));
                }
                sim::note(any); for (double d : e) sim::note(uint64_t(d != d ? 0 : d));
            }
        }
        REQUIRE(D::open_files() == 0, cls_("file-left-open"), "%d files are still open", D::open_files());
    }

    // Information on images
    void do_info() {
        scene s = make_scene(false, true); uint32_t n = sim::work(1, 4);
        sim::describe("information on %zu images", s.im.size());
        for (uint32_t i = 0; i < n; ++i) {
            uint64_t f0 = D::fired_any(); bool threw = false; std::string msg; uint32_t what = sim::work(4), k = sim::work(s.im.size()); fits::header hdr; bool ok = true; double v = -1;
            try {
                D::arm();
                switch (what) {
                    case 0: ok = get_pixel_size(s.name, v); break;
                    case 1: ok = get_image_rotation(s.name, v); break;
                    case 2: hdr = fits::read_header_sectfits(s.name, k); break;
                    default: hdr = fits::read_header_sectfits_hdu(s.name, k, 0); break;
                }
                D::disarm();
            } catch (const fits::exception& x) { D::disarm(); threw = true; msg = x.what(); }
            REQUIRE(D::open_files() == 0, cls_("file-left-open"), "%d files are still open", D::open_files());
            if (threw || !ok) { REQUIRE(D::fired_any() > f0, cls_("unexpected-failure"), "reading the header failed but the storage did not: %s", fc::esc(msg, 200).c_str()); sim::probe("failure_reported"); cf::ignored = nullptr; continue; }
            sim::silent q;
            if (what == 0) REQUIRE(std::fabs(v - pix) < 1e-6, cls_("wrong-header"), "the pixel size is %g instead of %g, with no error", v, pix);
            else if (what == 1) REQUIRE(std::fabs(v) < 1e-3, cls_("wrong-header"), "the rotation is %g instead of 0, with no error", v);
            else {
                double cx = 0, cy = 0; uint_t n1 = 0, n2 = 0; auto& m = s.im[k];
                bool all = fits::getkey(hdr, "CRPIX1", cx) && fits::getkey(hdr, "CRPIX2", cy) && fits::getkey(hdr, "NAXIS1", n1) && fits::getkey(hdr, "NAXIS2", n2);
                REQUIRE(all && n1 == uint_t(m.nx) && n2 == uint_t(m.ny) && cx == 101 - m.ox && cy == 101 - m.oy, cls_("wrong-header"), "the header of section %u has CRPIX %g, %g and size %zux%zu, with no error", k, cx, cy, size_t(n1), size_t(n2));
            }
        }
    }

    void f11() {
        D::wipe();
        int what = sim::work(7);
        D::allow(sim::fault_chance(5, 6) ? faults : 0);
        sim::options o; o.io = true; o.max_steps = 100000000; o.max_io = 5000000;
        cf::start();
        impossible = sim::shared<bool>();
        sim::outcome r = sim::process(o, [&]() {
            switch (what) { case 0: do_stack<double>(false); break; case 1: do_stack<float>(false); break; case 2: do_stack<double>(true); break; case 3: do_stack<float>(true); break; case 4: do_cutouts<double>(); break; case 5: do_cutouts<float>(); break; default: do_info(); }
        });
        REQUIRE(!cf::died_inside(r), "cfitsio-ignores-error", "killed by signal %d in CFITSIO when the storage failed", r.code);
        if (fc::reported(r)) { REQUIRE(D::fired_any() || *impossible, "unexpected-exit", "the program ended with exit(%d) but the storage did not fail", r.code); sim::probe("program_ended"); }
        REQUIRE(r.kind != sim::outcome::crashed, "abnormal-end", "abnormal end %s", r.what.c_str());
        if (D::fired_any() + D::benign()) sim::nontrivial();
    }
    sim::property_t p11("F11", f11, "A run extracts cutouts of 0-8 sources, or reads headers, inside or at the edges of 1-3 overlapping images, while the storage fails at random; non-trivial: at least one storage fault fired");
}
