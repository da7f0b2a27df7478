// F10: text products (DS9 regions, lists of positions, saved arguments, filter databases, lists of sections)
#include "prelude.hpp"
#include <vif.hpp>
#include <vif/astro/ds9.hpp>
#include <map>
#include "f_common.hpp"

using namespace vif;
using namespace vif::astro;
namespace D = sim::disk;

namespace {
    const uint32_t write_faults = D::bit(D::open_fail)|D::bit(D::write_eio)|D::bit(D::write_short)|D::bit(D::write_eintr)|D::bit(D::disk_full)|D::bit(D::close_fail);
    const uint32_t read_faults = D::bit(D::open_fail)|D::bit(D::read_eio)|D::bit(D::read_short)|D::bit(D::read_eintr)|D::bit(D::stat_fail);

    std::string num(const char* f, double d) { char b[64]; snprintf(b, sizeof b, f, d); return b; }
    double back(const std::string& s) { return strtod(s.c_str(), nullptr); }
    bool close_to(double a, double b, double rel) { return std::fabs(a-b) <= rel*std::max(std::fabs(a), std::fabs(b)) || a == b; }
    std::vector<std::string> lines(const std::string& s) {
        std::vector<std::string> l; size_t p = 0;
        while (p < s.size()) { size_t e = s.find('\n', p); if (e == s.npos) e = s.size(); l.push_back(s.substr(p, e-p)); p = e+1; }
        return l;
    }
    std::string squeeze(const std::string& s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == s.npos ? "" : s.substr(a, b-a+1); }
    uint32_t how_many() { switch (sim::work(4)) { case 0: return sim::work(1, 3); case 1: return sim::work(12); case 2: return sim::work(100); default: return sim::work(700); } }

    // What the library printed
    struct listen { std::ostringstream o; std::streambuf* b; listen() : b(std::cout.rdbuf(o.rdbuf())) {} ~listen() { std::cout.rdbuf(b); }
        bool error() const { return o.str().find("error: ") != std::string::npos; } };

    // A region as written in a file
    struct text_region { std::string type, color, text; bool physical; std::vector<std::string> num; };
    text_region some_region(bool physical, uint32_t k) {
        text_region r; r.physical = physical; r.type = sim::chance(1, 3) ? "box" : "circle";
        r.num.push_back(num("%.7g", physical ? 1 + (k*37 % 4000) + 0.25*(k%7) : 150 + 0.01*(k % 100) + 0.0003*(k%11)));
        r.num.push_back(num("%.7g", physical ? 3 + (k*61 % 4000) + 0.125*(k%5) : 2 - 0.01*(k % 57)));
        r.num.push_back(num("%.6g", 0.5 + 0.25*(k%40)));
        if (r.type == "box") { r.num.push_back(num("%.6g", 1.5 + 0.25*(k%31))); r.num.push_back(num("%.6g", double(k % 360))); }
        return r;
    }
    std::string region_text(const text_region& r, uint32_t style) {
        std::string sep = style & 1 ? ", " : ",", q = r.physical ? "" : "\"";
        std::string s = r.type + "(" + r.num[0] + sep + r.num[1] + sep + r.num[2] + q;
        if (r.type == "box") s += sep + r.num[3] + q + sep + r.num[4];
        s += ")";
        if (!r.color.empty() || !r.text.empty()) { s += style & 4 ? "#" : " #"; if (!r.color.empty()) s += " color=" + r.color; if (!r.text.empty()) s += " text=" + r.text; }
        return s;
    }
    std::string show(const ds9::region& r) { std::string s = r.type + (r.physical ? " physical" : " sky") + " color=" + r.color + " text=" + r.text + " {"; for (double d : r.params.data) s += num("%.12g ", d); return s + "}"; }
    fits::header sky() {
        make_wcs_header_params p; p.pixel_scale = 0.5; p.pixel_ref_x = 100; p.pixel_ref_y = 120; p.sky_ref_ra = 150; p.sky_ref_dec = 2; p.dims_x = 200; p.dims_y = 240;
        fits::header h; make_wcs_header(p, h); return h;
    }

    bool* impossible = nullptr; // the request makes no sense (shared with the simulated process)
    void begin() { D::arm(); }
    void finish() { D::disarm(); REQUIRE(D::open_files() == 0, "file-left-open", "%d files are still open", D::open_files()); }

    // ---- writing --------------------------------------------------------------------------
    void do_save_args() {
        std::vector<std::string> a = {"./prog"}; std::string exp = "the_program";
        uint32_t n = how_many();
        for (uint32_t i = 0; i < n; ++i) { a.push_back(i%3 == 0 ? "verbose" : i%3 == 1 ? "name=some_file_"+std::to_string(i)+".fits" : "x=[1,2,"+std::to_string(i)+"]"); exp += " " + a.back(); }
        std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr);
        begin(); save_args("out", "the_program", int(a.size()), v.data()); finish();
        std::string got; REQUIRE(D::get("out", got) && squeeze(got) == exp, "wrong-args", "save_args() returned but the file differs: %s", fc::diff(got, exp).c_str());
    }
    void do_radec() {
        uint32_t n = how_many(); vec1d ra(n), dec(n); for (uint32_t i = 0; i < n; ++i) { ra.safe[i] = 150 + 0.013*i; dec.safe[i] = -2 + 0.007*i; }
        begin(); print_radec("out", ra, dec); finish();
        std::string got; REQUIRE(D::get("out", got), "missing", "print_radec() returned but there is no file");
        auto l = lines(got); REQUIRE(l.size() == n, "wrong-list", "print_radec() wrote %zu lines instead of %u", l.size(), n);
        for (uint32_t i = 0; i < n; ++i) {
            char* e; double x = strtod(l[i].c_str(), &e), y = strtod(e, &e);
            REQUIRE(close_to(x, ra.safe[i], 1e-5) && std::fabs(y - dec.safe[i]) < 2e-5 && *e == 0, "wrong-list", "print_radec() wrote '%s' for %.9g, %.9g", l[i].c_str(), ra.safe[i], dec.safe[i]);
        }
    }
    void do_write_regions() {
        uint32_t n = how_many(); int mode = sim::work(3); // physical without WCS, physical, WCS
        wcs w = mode ? wcs(sky()) : wcs();
        vec<1,ds9::region> regs; std::vector<ds9::region> exp; bool valid = true;
        for (uint32_t i = 0; i < n; ++i) {
            bool ph = sim::work(4) != 1; if (mode == 0 && !ph && sim::work(20)) ph = true;
            text_region t = some_region(ph, i + sim::work(50)); ds9::region r; r.type = t.type; r.physical = ph;
            for (auto& s : t.num) r.params.push_back(back(s));
            if (ph) { r.params[0] = 20 + i%50; r.params[1] = 30 + i%70 + 0.5; }
            if (mode == 0 && !ph) { valid = false; *impossible = true; }
            regs.push_back(r);
            ds9::region e = r;
            if (mode && ph != (mode == 1)) {
                double aspix = 0.5; // (0.5" pixels)
                if (ph) xy2ad(w, r.params[0]+1, r.params[1]+1, e.params[0], e.params[1]); else { ad2xy(w, r.params[0], r.params[1], e.params[0], e.params[1]); }
                e.params[2] *= ph ? aspix : 1/aspix; if (e.type == "box") e.params[3] *= ph ? aspix : 1/aspix;
            } else if (ph) { e.params[0] += 1; e.params[1] += 1; } // files count pixels from 1
            exp.push_back(e);
        }
        sim::describe(" (%u regions, mode %d%s)", n, mode, valid ? "" : ", not possible");
        begin();
        if (mode == 0) ds9::write_regions_physical("out", regs); else if (mode == 1) ds9::write_regions_physical("out", regs, w); else ds9::write_regions_wcs("out", regs, w);
        finish();
        REQUIRE(valid, "accepted", "a region in sky coordinates was written in pixels without knowing the projection");
        std::string got; REQUIRE(D::get("out", got), "missing", "write_regions() returned but there is no file");
        size_t k = 0; std::string frame;
        for (auto& line : lines(got)) {
            std::string s = squeeze(line); if (s.empty() || s[0] == '#' || s.compare(0, 6, "global") == 0) continue;
            size_t p = s.find('('); if (p == s.npos) { REQUIRE(frame.empty() && k == 0, "wrong-regions", "several coordinate systems"); frame = s; continue; }
            REQUIRE(frame == (mode == 2 ? "fk5" : "physical"), "wrong-regions", "the coordinate system is '%s'", frame.c_str());
            REQUIRE(k < n, "wrong-regions", "more regions than asked");
            auto& e = exp[k++]; REQUIRE(s.substr(0, p) == e.type && s.back() == ')', "wrong-regions", "region %zu is '%s'", k-1, s.c_str());
            const char* c = s.c_str() + p + 1; 
            for (size_t i = 0; i < e.params.size(); ++i) {
                char* q; double x = strtod(c, &q);
                REQUIRE(q != c && close_to(x, e.params[i], 1e-10), "wrong-regions", "parameter %zu of region %zu ('%s') should be %.12g", i, k-1, s.c_str(), e.params[i]);
                bool size = i == 2 || (i == 3 && e.type == "box");
                if (mode == 2 && size) { REQUIRE(*q == '"', "wrong-regions", "no unit in '%s'", s.c_str()); ++q; }
                while (*q == ' ') ++q;
                REQUIRE(*q == (i+1 == e.params.size() ? ')' : ','), "wrong-regions", "region %zu is '%s'", k-1, s.c_str()); c = q+1;
            }
        }
        REQUIRE(k == n && !frame.empty(), "wrong-regions", "%zu regions were written instead of %u, with no error", k, n);
        // what was written is what is read
        vec<1,ds9::region> rb; listen L; ds9::read_regions("out", rb);
        REQUIRE(rb.size() == n, "read-back", "%zu regions are read back instead of %u", size_t(rb.size()), n);
        if (mode < 2) for (uint32_t i = 0; i < n; ++i) if (regs[i].physical) for (uint_t j = 0; j < rb[i].params.size(); ++j)
            REQUIRE(rb[i].physical && close_to(rb[i].params[j], regs[i].params[j], 1e-9), "read-back", "region %u: %s written, %s read back", i, show(regs[i]).c_str(), show(rb[i]).c_str());
    }

    // ---- reading --------------------------------------------------------------------------
    void do_read_regions() {
        uint32_t n = how_many(); bool physical = sim::work(2) == 0; uint32_t style = sim::work(8); bool masks = sim::chance(1, 6);
        std::string s = "# Region file format: DS9 version 4.1\n", glob = sim::work(2) ? "red" : "";
        if (!glob.empty()) s += "global color=" + glob + " dashlist=8 3 width=1\n";
        if (sim::chance(1, 4)) s += "\n";
        s += physical ? "physical\n" : "fk5\n";
        std::vector<text_region> t;
        for (uint32_t i = 0; i < n; ++i) {
            text_region r = some_region(physical, i + sim::work(50));
            if (sim::chance(1, 5)) r.color = "blue"; if (sim::chance(1, 5)) r.text = "{src" + std::to_string(i) + "}";
            if (sim::chance(1, 20)) s += "  # comment\n";
            s += region_text(r, style); if (i+1 < n || !(style & 2)) s += "\n";
            if (r.color.empty()) r.color = glob.empty() ? "green" : glob;
            t.push_back(r);
        }
        sim::describe(" (%u regions, %s)", n, physical ? "physical" : "sky");
        { sim::silent q; D::put("in", s); }
        vec<1,ds9::region> regs; vec2b mask(30, 40); bool twice = sim::chance(1, 5); wcs w = wcs(sky()); int how = sim::work(3);
        begin();
        switch (how) {
            case 0: ds9::read_regions("in", regs); break;
            case 1: ds9::read_regions_physical("in", w, regs); break;
            default: if (physical) ds9::read_regions_physical("in", regs); else ds9::read_regions("in", regs); break;
        }
        finish();
        REQUIRE(regs.size() == n, "wrong-regions", "%zu regions were read instead of %u, with no error", size_t(regs.size()), n);
        for (uint32_t i = 0; i < n; ++i) {
            auto& r = regs[i]; auto& e = t[i]; std::vector<double> p; for (auto& x : e.num) p.push_back(back(x));
            bool conv = how == 1 && !physical;
            if (conv) { double x, y; ad2xy(w, p[0], p[1], x, y); p[0] = x; p[1] = y; p[2] *= 2; if (e.type == "box") p[3] *= 2; }
            if (physical || conv) { p[0] -= 1; p[1] -= 1; }
            bool good = r.type == e.type && r.color == e.color && r.text == e.text && r.physical == (physical || conv) && r.params.size() == p.size();
            for (size_t k = 0; good && k < p.size(); ++k) good = close_to(r.params[k], p[k], 1e-12) || (conv && close_to(r.params[k], p[k], 1e-9));
            REQUIRE(good, "wrong-regions", "region %u, '%s' in the file, is read as %s", i, region_text(e, style).c_str(), show(r).c_str());
        }
        if (masks && physical) { sim::silent q; vec2b a(64, 64), b(64, 64); ds9::mask_regions(regs, a); ds9::mask_regions("in", b); REQUIRE(count(a != b) == 0, "mask", "masks differ"); }
    }
    void do_sectfits() {
        uint32_t n = how_many(); std::string dir = sim::work(2) ? "sub/" : ""; std::string s; std::vector<std::string> exp;
        for (uint32_t i = 0; i < n; ++i) { if (sim::chance(1, 10)) s += "# a comment\n"; if (sim::chance(1, 15)) s += "\n"; std::string f = "section_" + std::to_string(i*i) + ".fits"; exp.push_back((dir.empty() ? "./" : dir) + f); s += f; if (i+1 < n || sim::work(2) == 0) s += "\n"; }
        { sim::silent q; ::mkdir("sub", 0755); D::put(dir+"in.sectfits", s); }
        vec1s got; bool threw = false;
        begin(); try { got = fits::read_sectfits(dir+"in.sectfits"); } catch (const fits::exception&) { threw = true; } finish();
        if (threw) { REQUIRE(D::fired_any() || n == 0, "unexpected-failure", "read_sectfits() failed but the storage did not"); sim::probe("failure_reported"); return; }
        REQUIRE(got.size() == n, "wrong-sections", "%zu sections were read instead of %u, with no error", size_t(got.size()), n);
        auto clean = [](std::string f) { return f.compare(0, 2, "./") == 0 ? f.substr(2) : f; };
        for (uint32_t i = 0; i < n; ++i) REQUIRE(clean(got[i]) == clean(exp[i]), "wrong-sections", "section %u is '%s' instead of '%s'", i, got[i].c_str(), exp[i].c_str());
    }
    void do_filter_db() {
        uint32_t n = how_many(); std::string s; std::map<std::string,std::string> exp; std::map<std::string,uint_t> expm; bool map = sim::chance(1, 2);
        for (uint32_t i = 0; i < n; ++i) {
            if (sim::chance(1, 12)) s += "# a comment = 5\n"; if (sim::chance(1, 15)) s += "\n";
            std::string k = "band" + std::to_string((i*7919) % 1000) + "_" + std::to_string(i);
            if (map) { s += k + "=" + std::to_string(i*3); expm[k] = i*3; } else { s += k + "=filter_" + std::to_string(i) + ".dat"; exp[k] = "sub/filter_" + std::to_string(i) + ".dat"; }
            if (i+1 < n || sim::work(2) == 0) s += "\n";
        }
        { sim::silent q; ::mkdir("sub", 0755); D::put("sub/db", s); }
        listen L; bool same; size_t size;
        begin();
        if (map) { filter_map_t db = read_filter_map("sub/db"); same = db == expm; size = db.size(); } else { filter_db_t db = read_filter_db("sub/db"); same = db == exp; size = db.size(); }
        finish();
        if (!same) { REQUIRE(L.error(), "wrong-db", "%zu filters were read instead of %u, with no error", size, n); sim::probe("failure_reported"); }
        if (L.error()) REQUIRE(D::fired_any(), "unexpected-failure", "reading the database failed but the storage did not");
    }
    void do_filter() {
        uint32_t nf = sim::work(1, 3); filter_db_t db; vec1s names; std::vector<std::vector<double>> lam(nf), res(nf);
        for (uint32_t i = 0; i < nf; ++i) {
            uint32_t n = 2 + how_many(); std::string s = "# lam res\n";
            for (uint32_t k = 0; k < n; ++k) { std::string a = num("%.6g", 1 + 0.5*i + 0.001*k), b = num("%.6g", 1 + (k % 5)*0.25); lam[i].push_back(back(a)); res[i].push_back(back(b)); s += a + " " + b + "\n"; }
            std::string nm = "f" + std::to_string(i); sim::silent q; D::put(nm + ".dat", s);
            if (sim::chance(1, 3)) names.push_back(nm + ":file:" + nm + ".dat"); else { db[nm] = nm + ".dat"; names.push_back(nm); }
        }
        filter_bank_t fb; listen L; 
        begin(); bool ok = get_filters(db, names, fb); finish();
        if (!ok) { REQUIRE(D::fired_any(), "unexpected-failure", "get_filters() failed but the storage did not"); sim::probe("failure_reported"); return; }
        REQUIRE(fb.size() == nf, "wrong-filter", "%zu filters were read instead of %u", size_t(fb.size()), nf);
        for (uint32_t i = 0; i < nf; ++i) {
            REQUIRE(fb[i].lam.size() == lam[i].size() && fb[i].res.size() == res[i].size(), "wrong-filter", "filter %u has %zu elements instead of %zu, with no error", i, size_t(fb[i].lam.size()), lam[i].size());
            double e = 0;
            for (size_t k = 0; k < lam[i].size(); ++k) {
                REQUIRE(close_to(fb[i].lam[k], lam[i][k], 1e-6) && close_to(fb[i].res[k], res[i][k], 1e-6), "wrong-filter", "element %zu of filter %u is %g, %g", k, i, double(fb[i].lam[k]), double(fb[i].res[k]));
                if (k) e += 0.5*(lam[i][k]*res[i][k] + lam[i][k-1]*res[i][k-1])*(lam[i][k] - lam[i][k-1]);
            }
            REQUIRE(close_to(fb[i].rlam, e, 1e-3), "wrong-filter", "the reference wavelength of filter %u is %g instead of %g", i, double(fb[i].rlam), e);
        }
    }

    struct op_t { const char* name; void (*f)(); bool writes; };
    const op_t ops[] = {{"save_args()", do_save_args, true}, {"print_radec()", do_radec, true}, {"write_regions()", do_write_regions, true},
        {"read_regions()", do_read_regions, false}, {"read_sectfits()", do_sectfits, false}, {"read_filter_db()", do_filter_db, false}, {"get_filters()", do_filter, false}};

    void f10() {
        const op_t& op = ops[sim::work(7)];
        sim::describe("%s", op.name);
        D::wipe();
        D::allow(sim::fault_chance(5, 6) ? op.writes ? write_faults : read_faults : 0);
        sim::options o; o.io = true; o.max_steps = 100000000; o.max_io = 1000000;
        impossible = sim::shared<bool>();
        auto r = sim::process(o, [&]() { op.f(); });
        // (the library ends the program when it cannot write, or when the request makes no sense)
        if (fc::reported(r)) { REQUIRE(D::fired_any() || *impossible, "unexpected-exit", "%s ended the program, but the storage did not fail", op.name); sim::probe("failure_reported"); }
        REQUIRE(r.kind != sim::outcome::crashed, "abnormal-end", "%s: abnormal end %s", op.name, r.what.c_str());
        if (D::fired_any() + D::benign()) sim::nontrivial();
    }
    sim::property_t p10("F10", f10, "A run writes or reads one file of 0-700 entries (DS9 regions, list of positions, arguments, list of sections, filter database or filters) while the storage fails at random; non-trivial: at least one storage fault fired");
}
