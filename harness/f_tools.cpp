// F12: the command line tools, as whole programs
#include "prelude.hpp"
#include "f_cfitsio.hpp"
#include <bits/stdc++.h>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
#include <vif.hpp>
#include <vif/astro/qstack.hpp>
#include <vif/astro/qxmatch.hpp>
#include <vif/astro/ds9.hpp>
#include "f_common.hpp"
#include "f_fitsmodel.hpp"

namespace D = sim::disk;

// The programs themselves (with another name, their main function is called by the library's)
namespace tool_fits2ascii {
#include <../tools/fits2ascii/fits2ascii.cpp>
}
namespace tool_qmask {
#include <../tools/qmask/qmask.cpp>
}
namespace tool_qconvol {
#include <../tools/qconvol/qconvol.cpp>
}
namespace tool_qxmatch2 {
#include <../tools/qxmatch2/qxmatch2.cpp>
}
namespace tool_qregrid {
#include <../tools/qregrid/qregrid.cpp>
}
namespace tool_subsrc {
#include <../tools/subsrc/subsrc.cpp>
}
// (this one gives to its functions the names of functions of the library)
#define vif_main imgtool_main
#include <../tools/imgtool/imgtool.cpp>
#undef vif_main
namespace tool_psffit {
#include <../tools/psffit/psffit.cpp>
}
namespace tool_randsrc {
#include <../tools/randsrc/randsrc.cpp>
}
namespace tool_angcorrel {
#include <../tools/angcorrel/angcorrel.cpp>
}
namespace tool_qstack2 {
#include <../tools/qstack2/qstack2.cpp>
}
namespace tool_catinfo {
#include <../tools/catinfo/catinfo.cpp>
}
namespace tool_radec2pix {
#include <../tools/radec2pix/radec2pix.cpp>
}

namespace {
    const uint32_t faults = D::bit(D::open_fail)|D::bit(D::read_eio)|D::bit(D::read_short)|D::bit(D::stat_fail)
        |D::bit(D::write_eio)|D::bit(D::write_short)|D::bit(D::disk_full)|D::bit(D::mkdir_fail)|D::bit(D::remove_fail)|D::bit(D::crash);
    const char* cls_(const char* c) { return cf::ignored || cf::inside->ignored ? "cfitsio-ignores-error" : c; }
    std::string num(const char* f, double d) { char b[64]; snprintf(b, sizeof b, f, d); return b; }
    bool near(double a, double b, double rel) { return std::fabs(a-b) <= rel*std::max(std::fabs(a), std::fabs(b)) || a == b || (a != a && b != b); }

    typedef std::map<std::string,std::string> files;
    // One command
    struct command {
        const char* tool; int (*main)(int, char*[]);
        std::vector<std::string> args;
        files in;                          // what it reads
        std::vector<std::string> out;      // what it writes
        bool prints = false;               // what it prints is its result
        std::function<void(const files&, const std::string&)> model; // check of the result with no fault
    };

    // ---- input files ------------------------------------------------------------------------
    struct image { long nx, ny; std::vector<double> v; double at(long x, long y) const { return v[y*nx+x]; } };
    const double pix = 0.5; // [arcsec]
    image some_image(long nx, long ny, uint32_t k) { image m; m.nx = nx; m.ny = ny; for (long i = 0; i < nx*ny; ++i) m.v.push_back(((i*37 + k*11) % 101)*0.25 - 3 + (k % 7)); return m; }
    std::string fits_image(const image& m, bool wcs, int bitpix = -64, double scale = pix) {
        mf::file f(1); auto& h = f[0]; h.bitpix = bitpix; h.naxes = {m.nx, m.ny};
        for (double d : m.v) { if (bitpix == -64) mf::put_be(h.data, d); else mf::put_be(h.data, float(d)); }
        auto key = [&](const char* k, double d) { h.keys.push_back({k, num("%.12g", d)}); };
        if (wcs) {
            h.keys.push_back({"CTYPE1", "'RA---TAN'"}); h.keys.push_back({"CTYPE2", "'DEC--TAN'"}); h.keys.push_back({"CUNIT1", "'deg     '"}); h.keys.push_back({"CUNIT2", "'deg     '"});
            key("CRVAL1", 150); key("CRVAL2", 2); key("CDELT1", -scale/3600); key("CDELT2", scale/3600); key("CRPIX1", 11); key("CRPIX2", 11);
            h.keys.push_back({"EQUINOX", "2000.0"});
        }
        return mf::write(f);
    }
    struct table { mf::file f; table() : f(2) { f[1].table = true; f[1].nrows = 1; }
        void doubles(const std::string& n, const std::vector<double>& v) { mf::column c; c.name = n; c.code = 'D'; c.tdim = {long(v.size())}; for (double d : v) mf::put_be(c.data, d); f[1].cols.push_back(c); }
        void floats(const std::string& n, const std::vector<double>& v, long w = 0) { mf::column c; c.name = n; c.code = 'E'; if (w) c.tdim = {w, long(v.size())/w}; else c.tdim = {long(v.size())}; for (double d : v) mf::put_be(c.data, float(d)); f[1].cols.push_back(c); }
        void ints(const std::string& n, const std::vector<double>& v) { mf::column c; c.name = n; c.code = 'J'; c.tdim = {long(v.size())}; for (double d : v) mf::put_be(c.data, int32_t(d)); f[1].cols.push_back(c); }
        void strings(const std::string& n, const std::vector<std::string>& v) { mf::column c; c.name = n; c.code = 'A'; long w = 1; for (auto& s : v) w = std::max(w, long(s.size())); c.tdim = {w, long(v.size())}; for (auto s : v) { s.resize(w, ' '); c.data += s; } f[1].cols.push_back(c); }
        std::string bytes() const { return mf::write(f); } };
    // sky position of a pixel (from 0)
    void deproject(double px, double py, double& ra, double& dec) {
        const double r = 3.14159265358979323846/180;
        double xi = -(px - 10)*pix/3600*r, eta = (py - 10)*pix/3600*r, d0 = 2*r;
        ra = 150 + std::atan2(xi, std::cos(d0) - eta*std::sin(d0))/r;
        dec = std::atan2(std::sin(d0) + eta*std::cos(d0), std::sqrt(xi*xi + std::pow(std::cos(d0) - eta*std::sin(d0), 2)))/r;
    }
    long side() { return sim::work(8, 40); }
    std::string outname() { switch (sim::work(3)) { case 0: return "out.fits"; case 1: return "new/out.fits"; default: return "new/deep/out.fits"; } }
    void positions(uint32_t n, std::vector<double>& ra, std::vector<double>& dec) { uint32_t k = sim::work(50); for (uint32_t i = 0; i < n; ++i) { ra.push_back(150 + 0.001*((i*37 + k) % 101) + 1e-5*i); dec.push_back(2 + 0.001*((i*61 + k) % 97) - 1e-5*i); } }

    // ---- reading of the results
    std::vector<double> image_of(const std::string& b, long& nx, long& ny, const char* tool) {
        mf::file f; std::string err; REQUIRE(mf::parse(b, f, err) && f.size() == 1 && f[0].naxes.size() == 2, "wrong-result", "%s wrote an invalid image: %s", tool, err.c_str());
        nx = f[0].naxes[0]; ny = f[0].naxes[1]; std::vector<double> v;
        for (long i = 0; i < nx*ny; ++i) { size_t w = std::abs(f[0].bitpix)/8; unsigned char x[8]; for (size_t j = 0; j < w; ++j) x[w-1-j] = f[0].data[i*w+j]; if (f[0].bitpix == -64) { double d; memcpy(&d, x, 8); v.push_back(d); } else if (f[0].bitpix == -32) { float d; memcpy(&d, x, 4); v.push_back(d); } else v.push_back(NAN); }
        return v;
    }
    std::vector<std::string> words(const std::string& s) { std::istringstream i(s); std::vector<std::string> r; std::string w; while (i >> w) r.push_back(w); return r; }

    // ---- the commands -----------------------------------------------------------------------
    command do_fits2ascii() {
        command c; c.tool = "fits2ascii"; c.main = tool_fits2ascii::vif_main; c.args = {"cat.fits", "out.cat"}; c.out = {"out.cat"};
        static const uint32_t sizes[] = {3, 1, 12, 90, 600, 2500}; uint32_t n = sizes[sim::work(6)], k = sim::work(20); table t; std::vector<std::vector<std::string>> exp; std::vector<std::string> names; std::vector<bool> text;
        uint32_t nc = sim::work(1, 5); bool two = false;
        for (uint32_t i = 0; i < nc; ++i) {
            std::vector<double> v; std::vector<std::string> s; std::string nm = "COL" + std::to_string(i);
            for (uint32_t j = 0; j < n; ++j) { v.push_back(((j*17 + k + i*5) % 1009)*0.125 - 40); s.push_back("n" + std::to_string((j*31 + k) % 997)); }
            std::vector<std::string> e; int kind = sim::work(5); if (kind == 4 && two) kind = 0;
            if (kind == 2) for (double& d : v) d = std::floor(d);
            if (kind == 4) { two = true; t.floats("FLUX", v.size()*2 < 4000 ? [&]() { std::vector<double> w; for (double d : v) { w.push_back(d); w.push_back(d+0.5); } return w; }() : [&]() { std::vector<double> w; for (double d : v) { w.push_back(d); w.push_back(d+0.5); } return w; }(), 2);
                for (int q = 0; q < 2; ++q) { e.clear(); for (double d : v) e.push_back(num("%.9g", d + 0.5*q)); exp.push_back(e); names.push_back(q ? "f_b" : "f_a"); text.push_back(false); } continue; }
            switch (kind) { case 0: t.doubles(nm, v); break; case 1: t.floats(nm, v); break; case 2: t.ints(nm, v); break; default: t.strings(nm, s); }
            for (uint32_t j = 0; j < n; ++j) e.push_back(kind == 3 ? s[j] : num("%.9g", v[j]));
            exp.push_back(e); names.push_back("col" + std::to_string(i)); text.push_back(kind == 3);
        }
        if (two) c.args.push_back("split=flux:f_:[a,b]");
        c.in["cat.fits"] = t.bytes();
        std::vector<uint32_t> sel; for (uint32_t j = 0; j < n; ++j) sel.push_back(j);
        if (sim::chance(1, 3)) { table d; std::vector<double> id; sel.clear(); for (uint32_t j = 0; j < n; j += 1 + (j % 3)) { id.push_back(j); sel.push_back(j); } d.ints("IDS", id); c.in["sel.fits"] = d.bytes(); c.args.push_back("ids=sel.fits"); }
        c.model = [=](const files& o, const std::string&) {
            const std::string& got = o.at("out.cat"); std::istringstream in(got); std::string l; std::getline(in, l);
            auto h = words(l); h.erase(h.begin()); REQUIRE(h == names, "wrong-result", "the header written by fits2ascii is '%s'", fc::esc(l).c_str());
            std::getline(in, l); std::getline(in, l);
            for (uint32_t r : sel) {
                REQUIRE(bool(std::getline(in, l)), "wrong-result", "fits2ascii wrote too few rows"); auto w = words(l);
                REQUIRE(w.size() == exp.size(), "wrong-result", "fits2ascii wrote '%s'", fc::esc(l).c_str());
                for (size_t i = 0; i < w.size(); ++i) REQUIRE(text[i] ? w[i] == exp[i][r] : near(strtod(w[i].c_str(), nullptr), strtod(exp[i][r].c_str(), nullptr), 1e-5), "wrong-result", "fits2ascii wrote '%s' instead of '%s'", w[i].c_str(), exp[i][r].c_str());
            }
            REQUIRE(!std::getline(in, l), "wrong-result", "fits2ascii wrote too many rows");
        };
        return c;
    }
    command do_qmask() {
        command c; c.tool = "qmask"; c.main = tool_qmask::vif_main; image m = some_image(side(), side(), sim::work(9)); c.in["im.fits"] = fits_image(m, true); c.args = {"im.fits", "r.reg"};
        if (sim::work(2)) { c.args.push_back("mask.fits"); c.out = {"mask.fits"}; } else c.out = {"im_msk.fits"};
        uint32_t n = sim::work(5) == 4 ? 200 : sim::work(6); struct circle { double x, y, r; }; std::vector<circle> l;
        std::string s = "# Region file format: DS9 version 4.1\nfk5\n";
        for (uint32_t i = 0; i < n; ++i) { circle q; q.x = sim::work(m.nx); q.y = sim::work(m.ny); q.r = 2 + sim::work(5); double a, d; deproject(q.x, q.y, a, d); l.push_back(q); s += "circle(" + num("%.9f", a) + "," + num("%.9f", d) + "," + num("%g", q.r*pix) + "\")\n"; }
        c.in["r.reg"] = s; std::string o = c.out[0];
        c.model = [=](const files& f, const std::string&) {
            long nx, ny; auto v = image_of(f.at(o), nx, ny, "qmask"); REQUIRE(nx == m.nx && ny == m.ny, "wrong-result", "the mask has the wrong size");
            for (long y = 0; y < ny; ++y) for (long x = 0; x < nx; ++x) {
                bool in = false, out = true; for (auto& q : l) { double d = std::hypot(x - q.x, y - q.y); if (d < q.r - 1.5) in = true; if (d < q.r + 1.5) out = false; }
                REQUIRE((!in || near(v[y*nx+x], 1, 1e-5)) && (!out || v[y*nx+x] == 0), "wrong-result", "pixel (%ld,%ld) of the mask is %g", x, y, v[y*nx+x]);
            }
        };
        return c;
    }
    command do_qconvol() {
        command c; c.tool = "qconvol"; c.main = tool_qconvol::vif_main; c.in["im.fits"] = fits_image(some_image(side(), side(), sim::work(9)), true); c.args = {"im.fits", "out=o.fits"}; c.out = {"o.fits"};
        switch (sim::work(3)) {
            case 0: { image k; k.nx = k.ny = 5; k.v.assign(25, 0); for (int y = 0; y < 5; ++y) for (int x = 0; x < 5; ++x) k.v[y*5+x] = 1.0/(1 + (x-2)*(x-2) + (y-2)*(y-2)); c.in["k.fits"] = fits_image(k, false); c.args.push_back("kernel=k.fits"); break; }
            case 1: c.args.push_back("radius=0.5"); break;
            default: c.args.push_back("radius=0.4"); c.args.push_back("arcsec"); break;
        }
        return c;
    }
    command do_qxmatch2() {
        command c; c.tool = "qxmatch2"; c.main = tool_qxmatch2::vif_main; uint32_t n1 = sim::work(1, 40), n2 = sim::work(1, 40); std::vector<double> a1, d1, a2, d2; positions(n1, a1, d1); positions(n2, a2, d2);
        a2.push_back(150); d2.push_back(2); a2.push_back(150.11); d2.push_back(2.1); n2 += 2; // (the extent of the second catalog sets the size of the buckets)
        bool self = sim::chance(1, 4); if (self) { a1 = a2; d1 = d2; n1 = n2; }
        table t; t.doubles("RA", a1); t.doubles("DEC", d1); c.in["c1.fits"] = t.bytes(); c.out = {"match.fits"};
        if (self) c.args = {"cats=[c1.fits]", "output=match.fits"};
        else { table u; u.doubles("RA", a2); u.doubles("DEC", d2); c.in["c2.fits"] = u.bytes(); c.args = {"cats=[c1.fits,c2.fits]", "output=match.fits"}; }
        if (sim::work(2)) c.args.push_back("brute");
        if (!self) c.model = [=](const files& o, const std::string&) {
            mf::file f; std::string err; REQUIRE(mf::parse(o.at("match.fits"), f, err) && f.size() == 2 && f[1].table && f[1].cols.size() == 4, "wrong-result", "qxmatch2 wrote an invalid file: %s", err.c_str());
            REQUIRE(f[1].cols[0].name == "ID" && f[1].cols[1].name == "D" && f[1].cols[0].repeat() == long(n1) && f[1].cols[1].repeat() == long(n1) && f[1].cols[1].code == 'D', "wrong-result", "qxmatch2 wrote the wrong columns");
            for (uint32_t i = 0; i < n1; ++i) {
                double best = 1e99; const double r = 3.14159265358979323846/180;
                for (uint32_t j = 0; j < n2; ++j) { double sa = std::sin(0.5*(a2[j]-a1[i])*r), sd = std::sin(0.5*(d2[j]-d1[i])*r); best = std::min(best, 2*std::asin(std::sqrt(sd*sd + std::cos(d1[i]*r)*std::cos(d2[j]*r)*sa*sa))/r*3600); }
                unsigned char x[8]; for (int b = 0; b < 8; ++b) x[7-b] = f[1].cols[1].data[i*8+b]; double d; memcpy(&d, x, 8);
                REQUIRE(std::fabs(d - best) < 1e-6 + 1e-6*best, "wrong-result", "source %u is matched at %g arcsec instead of %g", i, d, best);
            }
        };
        return c;
    }
    command do_qregrid() {
        command c; c.tool = "qregrid"; c.main = tool_qregrid::vif_main; std::string o = outname(); image m = some_image(8 + sim::work(12), 8 + sim::work(12), sim::work(9)); c.in["im.fits"] = fits_image(m, true); c.args = {"im.fits", o}; c.out = {o};
        static const char* me[] = {"drizzle", "nearest", "linear", "cubic"}; int k = sim::work(4); c.args.push_back(std::string("method=") + me[k]);
        switch (sim::work(3)) { case 0: c.args.push_back("ratio=0.5"); break; case 1: c.args.push_back("aspix=0.8"); break; default: { image t = some_image(10, 9, 1); c.in["tpl.fits"] = fits_image(t, true, -32, 0.7); c.args.push_back("template=tpl.fits"); } }
        if (k == 0 && sim::work(2)) { c.args.push_back("weight=wht.fits"); c.out.push_back("wht.fits"); }
        return c;
    }
    command do_subsrc() {
        command c; c.tool = "subsrc"; c.main = tool_subsrc::vif_main; image m = some_image(side(), side(), sim::work(9)); c.in["im.fits"] = fits_image(m, true); uint32_t n = sim::work(1, 8);
        std::vector<double> ra, dec, fl, id; for (uint32_t i = 0; i < n; ++i) { double a, d; deproject(sim::work(m.nx), sim::work(m.ny), a, d); ra.push_back(a); dec.push_back(d); fl.push_back(1 + i); id.push_back(100 + i); }
        if (sim::work(3)) {
            table t; bool pos = sim::chance(1, 3); bool ids = sim::work(2) == 0;
            if (ids) t.ints("ID", id); t.doubles(pos ? "POS.RA" : "RA", ra); t.doubles(pos ? "POS.DEC" : "DEC", dec);
            if (sim::work(2)) { std::vector<double> w; for (double d : fl) { w.push_back(d); w.push_back(10*d); } t.floats("FLUX", w, 2); t.strings("BANDS", {"f160w", "irac1"}); t.strings("NOTES", {"hst", "spitzer"}); c.args = {"im.fits", "src.fits", sim::work(2) ? "bands=irac1" : "bands_notes=spitzer"}; } else { t.floats("FLUX", fl); c.args = {"im.fits", "src.fits"}; }
            c.in["src.fits"] = t.bytes();
            if (ids && sim::work(2)) c.args.push_back(sim::work(2) ? "exclude=[100,102]" : "include=[100]");
        } else { std::string s = "# ra dec flux\n"; for (uint32_t i = 0; i < n; ++i) s += num("%.9f", ra[i]) + " " + num("%.9f", dec[i]) + " " + num("%g", fl[i]) + "\n"; c.in["src.cat"] = s; c.args = {"im.fits", "src.cat"}; }
        if (sim::work(2)) c.args.push_back("psf=gaussian,1,1.5"); else { image k; k.nx = k.ny = 5; for (int y = 0; y < 5; ++y) for (int x = 0; x < 5; ++x) k.v.push_back(1.0/(1 + (x-2)*(x-2) + (y-2)*(y-2))); c.in["k.fits"] = fits_image(k, false); c.args.push_back("psf=file,k.fits"); }
        if (sim::work(2)) { c.args.push_back("out=o.fits"); c.out = {"o.fits"}; } else c.out = {"im_res.fits"};
        if (sim::work(2)) { c.args.push_back("reg=list.txt"); c.out.push_back("list.txt"); }
        return c;
    }
    command do_imgtool() {
        command c; c.tool = "imgtool"; c.main = ::imgtool_main; std::string o = outname(); c.out = {o}; image m = some_image(side(), side(), sim::work(9)); c.in["im.fits"] = fits_image(m, sim::work(2));
        switch (sim::work(3)) {
            case 0: c.args = {"multiply", "im.fits", "2.5", o};
                c.model = [=](const files& f, const std::string&) { long nx, ny; auto v = image_of(f.at(o), nx, ny, "imgtool"); REQUIRE(nx == m.nx && ny == m.ny, "wrong-result", "the image has the wrong size"); for (long i = 0; i < nx*ny; ++i) REQUIRE(near(v[i], 2.5*m.v[i], 1e-12), "wrong-result", "pixel %ld is %g instead of %g", i, v[i], 2.5*m.v[i]); };
                break;
            case 1: c.args = {"rotate", "im.fits", "30", o}; break;
            default: { image k; k.nx = k.ny = 5; k.v.assign(25, 0.04); k.v[12] = 1; c.in["k.fits"] = fits_image(k, false); c.args = {"convolve", "im.fits", "k.fits", o}; if (sim::work(2)) c.args.push_back("normalize"); }
        }
        return c;
    }
    command do_psffit() {
        command c; c.tool = "psffit"; c.main = tool_psffit::vif_main; c.prints = true; image m = some_image(side(), side(), sim::work(9)); c.in["im.fits"] = fits_image(m, false); c.args = {"im.fits", "4", "5", "psf=gaussian,1,1.5"};
        if (sim::work(2)) { image e = m; for (double& d : e.v) d = 0.5; c.in["err.fits"] = fits_image(e, false); c.args.push_back("error=err.fits"); }
        if (sim::work(2)) { c.args.push_back("residual=res.fits"); c.out.push_back("res.fits"); }
        if (sim::work(2)) { c.args.push_back("save"); c.out.push_back("im_flx.fits"); }
        if (sim::work(2)) c.args.push_back("nobg");
        return c;
    }
    command do_randsrc() {
        command c; c.tool = "randsrc"; c.main = tool_randsrc::vif_main; std::vector<double> a, d; positions(sim::work(5, 40), a, d); table t; std::string pos = sim::work(2) ? "POS." : ""; t.doubles(pos + "RA", a); t.doubles(pos + "DEC", d); c.in["cat.fits"] = t.bytes(); c.args = {"cat.fits"};
        if (!pos.empty()) c.args.push_back("pos=pos"); if (sim::work(2)) c.args.push_back("nsrc=30"); if (sim::work(2)) c.args.push_back("seed=7");
        if (sim::work(2)) { std::string o = outname(); c.args.push_back("out=" + o); c.out = {o}; } else c.out = {"cat-rnd.fits"};
        return c;
    }
    command do_angcorrel() {
        command c; c.tool = "angcorrel"; c.main = tool_angcorrel::vif_main; std::vector<double> a, d; positions(sim::work(5, 20), a, d); table t; t.doubles("RA", a); t.doubles("DEC", d); c.in["cat.fits"] = t.bytes();
        table u; u.doubles("RA", {150, 150.1, 150.1, 150}); u.doubles("DEC", {2, 2, 2.1, 2.1}); c.in["ref.fits"] = u.bytes(); c.args = {"cat.fits", "ref.fits", "nbin=3"};
        if (sim::work(2)) { c.args.push_back("out=w.fits"); c.out = {"w.fits"}; } else c.out = {"angcorrel.fits"};
        return c;
    }
    command do_qstack2() {
        command c; c.tool = "qstack2"; c.main = tool_qstack2::vif_main; std::string o = outname(); image m = some_image(20 + sim::work(20), 20 + sim::work(20), sim::work(9)); c.in["im.fits"] = fits_image(m, true, -32); uint32_t n = sim::work(1, 8);
        std::vector<double> ra, dec; for (uint32_t i = 0; i < n; ++i) { double a, d; deproject(5 + sim::work(m.nx - 10), 5 + sim::work(m.ny - 10), a, d); ra.push_back(a); dec.push_back(d); }
        c.args = {"img=im.fits", "hsize=3", "out=" + o}; c.out = {o};
        if (sim::work(3)) { table t; t.doubles("RA", ra); t.doubles("DEC", dec); c.in["cat.fits"] = t.bytes(); c.args.push_back("cat=cat.fits"); }
        else { std::string s = "# ra dec\n"; for (uint32_t i = 0; i < n; ++i) s += num("%.9f", ra[i]) + " " + num("%.9f", dec[i]) + "\n"; c.in["cat.dat"] = s; c.args.push_back("cat=cat.dat"); }
        switch (sim::work(4)) { case 0: break; case 1: c.args.push_back("median"); break; case 2: c.args.push_back("cube"); break; default: { image w = m; for (double& d : w.v) d = 1 + std::fabs(d); c.in["w.fits"] = fits_image(w, true, -32); c.args.push_back(sim::work(2) ? "wht=w.fits" : "err=w.fits"); } }
        if (n > 1 && sim::chance(1, 4)) { c.args.push_back("bstrap"); c.args.push_back("nbstrap=5"); c.out.push_back(o.substr(0, o.size()-5) + "_bs.fits"); }
        return c;
    }
    command do_radec2pix() {
        command c; c.tool = "radec2pix"; c.main = tool_radec2pix::vif_main; c.prints = true; c.in["im.fits"] = fits_image(some_image(20, 20, 1), true); c.args = {"im.fits"}; std::vector<std::pair<double,double>> e;
        for (uint32_t i = 0, n = sim::work(1, 4); i < n; ++i) { double a, d; e.push_back({sim::work(30), sim::work(30)}); deproject(e.back().first, e.back().second, a, d); c.args.push_back(num("%.10f", a)); c.args.push_back(num("%.10f", d)); }
        c.model = [=](const files&, const std::string& s) { auto w = words(s); REQUIRE(w.size() == 2*e.size(), "wrong-result", "radec2pix printed '%s'", fc::esc(s).c_str()); for (size_t i = 0; i < e.size(); ++i) REQUIRE(std::fabs(atof(w[2*i].c_str()) - e[i].first - 1) < 0.01 && std::fabs(atof(w[2*i+1].c_str()) - e[i].second - 1) < 0.01, "wrong-result", "radec2pix printed '%s'", fc::esc(s).c_str()); };
        return c;
    }

    command do_catinfo() {
        command c; c.tool = "catinfo"; c.main = tool_catinfo::vif_main; c.prints = true; table t; auto str = [&](const char* n, const std::string& s) { mf::column q; q.name = n; q.code = 'A'; q.tdim = {long(s.size())}; q.data = s; t.f[1].cols.push_back(q); };
        bool v = sim::work(2); t.doubles("RA", {1, 2, 3}); if (sim::work(2)) str("CATALOGS", "a catalog of sources"); str("COMMENTS", std::string("made by ") + std::string(sim::work(40), 'x') + "me"); str("VERSION", "12.5"); if (sim::work(2)) str("CHANGELOG", "nothing changed");
        c.in["cat.fits"] = t.bytes(); c.args = {"cat.fits"}; if (v) c.args.push_back("version");
        c.model = [=](const files&, const std::string& s) { REQUIRE(s.find(v ? "version: 12.5" : "made by ") != s.npos, "wrong-result", "catinfo printed '%s'", fc::esc(s).c_str()); };
        return c;
    }

    // ---- running one ------------------------------------------------------------------------
    struct result { int code; uint32_t len; bool error; char text[3000]; };
    result* res = nullptr;
    // What the program prints
    struct listen { std::ostringstream o; std::streambuf *b, *e; listen() : b(std::cout.rdbuf(o.rdbuf())), e(std::cerr.rdbuf(o.rdbuf())) {} ~listen() { std::cout.rdbuf(b); std::cerr.rdbuf(e); } };
    sim::outcome launch(const command& c, bool faulty) {
        sim::options o; o.io = true; o.max_steps = 100000000; o.max_io = 5000000;
        // (errors found when a FITS file is closed are out of scope: FITS files are complete when they are flushed)
        D::allow(!faulty ? 0 : c.out.size() == 1 && c.out[0] == "out.cat" ? faults|D::bit(D::close_fail) : faults);
        cf::ignored = nullptr; cf::inside->ignored = false; cf::inside->depth = 0;
        memset(res, 0, sizeof *res); res->code = -1;
        return sim::process(o, [&]() {
            std::vector<std::string> a = {"./" + std::string(c.tool)}; a.insert(a.end(), c.args.begin(), c.args.end());
            std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr);
            listen l; struct at_exit { listen& l; ~at_exit() { D::disarm(); std::string s = l.o.str(); res->error = s.find("error: ") != s.npos; res->len = std::min(s.size(), sizeof res->text); memcpy(res->text, s.data(), res->len); cf::inside->ignored = cf::ignored; } } x{l};
            D::arm(); int r = c.main(int(a.size()), v.data()); D::disarm(); res->code = r;
        });
    }
    std::string printed() { return std::string(res->text, res->len); }

    void f12() {
        D::wipe(); cf::start(); res = sim::shared<result>();
        typedef command (*make)(); static const make all[] = {do_fits2ascii, do_qmask, do_qconvol, do_qxmatch2, do_qregrid, do_subsrc, do_imgtool, do_psffit, do_randsrc, do_qstack2, do_radec2pix, do_catinfo};
        command c = sim::chance(1, 60) ? do_angcorrel() : all[sim::work(12)](); // (this one is slow)
        std::string line = c.tool; for (auto& a : c.args) line += " " + a; sim::describe("%s", line.c_str());
        auto check_inputs = [&](const char* when) { for (auto& f : c.in) { std::string now; bool have = D::get(f.first, now); REQUIRE(have && now == f.second, cls_("input-modified"), "%s modified the file '%s' it should only read (%s): %s", c.tool, f.first.c_str(), when, have ? fc::diff(now, f.second).c_str() : "removed"); } };
        auto put_inputs = [&]() { for (auto& f : c.in) D::put(f.first, f.second); };

        // with no fault
        put_inputs();
        auto r0 = launch(c, false);
        REQUIRE(r0.ok() && res->code == 0 && !res->error, "unexpected-failure", "'%s' failed (exit code %d, '%s'): %s", line.c_str(), r0.ok() ? res->code : r0.code, fc::esc(r0.what).c_str(), fc::esc(printed(), 300).c_str());
        files ref; std::string said = printed();
        for (auto& f : c.out) { REQUIRE(D::get(f, ref[f]), "missing-result", "'%s' succeeded but did not write '%s'", line.c_str(), f.c_str()); sim::note(ref[f]); }
        check_inputs("with no fault");
        if (c.model) c.model(ref, said);

        // with faults
        D::wipe(); put_inputs();
        if (sim::chance(1, 4)) { uint32_t k = sim::work(3); for (auto& f : c.out) if (f.find('/') == f.npos && f.find(".fits") != f.npos) D::put(f, k == 0 ? fits_image(some_image(60, 50, 3), true) : k == 1 ? ref[f] + fc::blob(3000, 5) : ref[f].substr(0, 2880)); }
        auto same = [&](const char* when) {
            for (auto& f : ref) { std::string now; bool have = D::get(f.first, now); REQUIRE(have && now == f.second, cls_("wrong-result"), "'%s' reported no error but the file '%s' is not the expected one (%s): %s", line.c_str(), f.first.c_str(), when, have ? fc::diff(now, f.second).c_str() : "missing"); }
            if (c.prints) REQUIRE(printed() == said, cls_("wrong-result"), "'%s' reported no error but printed '%s' instead of '%s' (%s)", line.c_str(), fc::esc(printed()).c_str(), fc::esc(said).c_str(), when);
        };
        auto r = launch(c, true);
        for (int k = 0; k < 3 && r.ok() && !D::fired_any(); ++k) { if (res->code == 0 && !res->error) same("short transfers"); r = launch(c, true); }
        REQUIRE(!cf::died_inside(r), "cfitsio-ignores-error", "killed by signal %d in CFITSIO when the storage failed", r.code);
        bool crashed = D::fired(D::crash);
        REQUIRE(crashed || r.kind != sim::outcome::signaled, cls_("killed"), "'%s' was killed by signal %d", line.c_str(), r.code);
        bool reported = crashed || r.kind != sim::outcome::returned || res->code != 0 || res->error;
        if (!reported) same("storage faults");
        else { REQUIRE(D::fired_any() || crashed, "unexpected-failure", "'%s' failed (%s) but the storage did not: %s", line.c_str(), fc::esc(r.what).c_str(), fc::esc(printed(), 300).c_str()); sim::probe(crashed ? "killed_in_operation" : "failure_reported"); }
        check_inputs("storage faults");
        // again, once the storage works
        bool any = D::fired_any() || crashed;
        if (any) {
            auto r2 = launch(c, false);
            REQUIRE(r2.ok() && res->code == 0 && !res->error, "not-recoverable", "'%s' failed when run again after a failure (%s): %s", line.c_str(), fc::esc(r2.what).c_str(), fc::esc(printed(), 300).c_str());
            same("run again after a failure"); check_inputs("run again after a failure");
        }
        if (any || D::benign()) sim::nontrivial();
    }
    sim::property_t p12("F12", f12, "A run executes one command of 13 tools three times: without faults, with faults of the storage or a process killed at any point, then again without; non-trivial: at least one storage fault fired");
}
