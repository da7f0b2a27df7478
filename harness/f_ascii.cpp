// F01: ASCII tables written completely or the failure is reported; F02: read exactly or the failure is reported
#include "prelude.hpp"
#include <vif.hpp>
#include "f_common.hpp"

using namespace vif;
namespace D = sim::disk;

namespace {
    // ---- the reference: a table is a list of columns of text
    struct table {
        uint32_t rows = 0;
        vec1u u; vec1i i; vec1d d; vec1s s; vec2i v; vec2d w;
        std::vector<std::vector<std::string>> cell; // [row][column]
    };
    typedef std::vector<std::string> line;

    std::string num(long long x) { return std::to_string(x); }

    enum { SHAPES = 6, WSHAPES = 9 };
    std::string dbl(const char* f, double x) { char b[400]; snprintf(b, sizeof(b), f, x); return b; }
    // Columns of each shape, as text
    line row_of(const table& t, uint32_t shape, uint32_t r) {
        line l;
        auto U = [&]() { l.push_back(num(t.u.safe[r])); };
        auto I = [&]() { l.push_back(num(t.i.safe[r])); };
        auto Db = [&]() { l.push_back(num((long long)t.d.safe[r])); };
        auto S = [&]() { l.push_back(t.s.safe[r]); };
        auto V = [&](uint32_t k) { l.push_back(num(t.v.safe(r,k))); };
        auto W = [&](uint32_t k) { l.push_back(num((long long)t.w.safe(r,k))); };
        switch (shape) {
            case 0: U(); break;
            case 1: U(); I(); S(); break;
            case 2: S(); Db(); break;
            case 3: U(); for (uint32_t k = 0; k < t.v.dims[1]; ++k) V(k); break;
            case 4: for (uint32_t k = 0; k < t.v.dims[1]; ++k) { V(k); W(k); } S(); break;
            case 5: I(); for (uint32_t k = 0; k < t.v.dims[1]; ++k) V(k); U(); break;
            // only for writing: formats, and names taken from the code
            case 6: l.push_back(dbl("%e", t.d.safe[r]/7)); for (uint32_t k = 0; k < t.w.dims[1]; ++k) l.push_back(dbl("%.3g", t.w.safe(r,k)/3)); l.push_back(dbl("%f", t.d.safe[r]/11)); S(); break;
            case 7: U(); for (uint32_t k = 0; k < t.v.dims[1]; ++k) V(k); for (uint32_t k = 0; k < t.w.dims[1]; ++k) W(k); S(); l.push_back(dbl("%g", t.d.safe[r]/7)); break;
            case 8: for (uint32_t k = 0; k < t.w.dims[1]; ++k) { l.push_back(dbl("%e", t.w.safe(r,k)/9)); V(k); } break;
        }
        return l;
    }

    void make(table& t, uint32_t rows, uint32_t cols2, bool spaces, bool empties = false, const std::string& pattern = "", bool first = false) {
        t.rows = rows;
        t.u.resize(rows); t.i.resize(rows); t.d.resize(rows); t.s.resize(rows); t.v.resize(rows, cols2); t.w.resize(rows, cols2);
        uint64_t x = 88172645463325252ull + sim::work(1000);
        auto rnd = [&]() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
        for (uint32_t r = 0; r < rows; ++r) {
            t.u.safe[r] = rnd() % (rnd()%2 ? 10 : 1000000000000ull);
            t.i.safe[r] = int((rnd() % (rnd()%2 ? 10 : 1000000))) - int(rnd()%2 ? 0 : 5000);
            t.d.safe[r] = double(int64_t(rnd() % 100000)) - (rnd()%2 ? 0 : 50000);
            std::string s; uint32_t n = 1 + rnd()%9;
            for (uint32_t k = 0; k < n; ++k) s += char(rnd()%3 ? 'a'+rnd()%26 : '0'+rnd()%10);
            if (spaces && n > 3 && rnd()%2) s[n/2] = ' ';
            if (!pattern.empty() && rnd()%3 == 0) s.insert(first ? rnd()%2*(n/2) : 1 + rnd()%n, pattern);
            if (empties && rnd()%4 == 0) s.clear();
            t.s.safe[r] = s;
            for (uint32_t k = 0; k < cols2; ++k) { t.v.safe(r,k) = int(rnd()%2000) - 1000; t.w.safe(r,k) = double(int(rnd()%90000)); }
        }
    }

    std::string right(const std::string& s, size_t w) { return s.size() < w ? std::string(w-s.size(), ' ')+s : s; }

    // What the documentation says the file must be
    std::string expected(const table& t, uint32_t shape, const ascii::output_format& o) {
        std::vector<line> ls;
        for (uint32_t r = 0; r < t.rows; ++r) ls.push_back(row_of(t, shape, r));
        table probe; size_t nc = o.header.size();
        if (!ls.empty()) nc = ls[0].size();
        std::vector<size_t> w(nc, o.min_width);
        if (o.auto_width) {
            for (auto& l : ls) for (size_t k = 0; k < nc; ++k) w[k] = std::max(w[k], l[k].size());
            for (size_t k = 0; k < o.header.size(); ++k) w[k] = std::max(w[k], o.header.safe[k].size() + (k == 0 ? o.header_chars.size() : 0));
        }
        std::string out;
        if (!o.header.empty()) {
            out += o.header_chars;
            for (size_t k = 0; k < o.header.size(); ++k) {
                if (k) out += o.delim;
                size_t hw = w[k]; if (k == 0 && hw >= o.header_chars.size()) hw -= o.header_chars.size();
                out += right(o.header.safe[k], hw);
            }
            out += '\n';
        }
        for (auto& l : ls) {
            for (size_t k = 0; k < nc; ++k) { if (k) out += o.delim; out += right(l[k], w[k]); }
            out += '\n';
        }
        return out;
    }

    void write(const std::string& name, const table& t, uint32_t shape, const ascii::output_format& o) {
        switch (shape) {
            case 0: ascii::write_table(name, o, t.u); break;
            case 1: ascii::write_table(name, o, t.u, t.i, t.s); break;
            case 2: ascii::write_table(name, o, t.s, t.d); break;
            case 3: ascii::write_table(name, o, t.u, t.v); break;
            case 4: ascii::write_table(name, o, ascii::columns(t.v.dims[1], t.v, t.w), t.s); break;
            case 5: ascii::write_table(name, o, t.i, t.v, t.u); break;
            case 6: { vec1d a = t.d/7.0, b = t.d/11.0; vec2d w = t.w/3.0; ascii::write_table(name, o, format::scientific(a), format::precision(w, 3), format::fixed(b), t.s); break; }
            case 7: {
                vec1d quot = t.d/7.0;
                if (o.delim == ascii::output_format::standard().delim && o.min_width == ascii::output_format::standard().min_width && o.auto_width) ascii::write_table(name, ftable(t.u, t.v, t.w, t.s, quot));
                else ascii::write_table(name, o, ftable(t.u, t.v, t.w, t.s, quot));
                break;
            }
            case 8: { vec2d w = t.w/9.0; ascii::write_table(name, o, ascii::columns(t.v.dims[1], format::scientific(w), t.v)); break; }
        }
    }

    uint32_t rows_choice() {
        switch (sim::work(4)) { case 0: return sim::work(4); case 1: return sim::work(30); case 2: return sim::work(300); default: return 600 + sim::work(1200); }
    }

    struct f01_t { uint32_t done; };

    void f01() {
        D::allow(sim::fault_chance(5, 6) ? D::bit(D::open_fail)|D::bit(D::write_eio)|D::bit(D::write_short)|D::bit(D::write_eintr)|D::bit(D::disk_full)|D::bit(D::close_fail)
            |D::bit(D::seek_fail)|D::bit(D::stat_fail) : 0);
        uint32_t nwrite = sim::work(1, 3);
        f01_t* F = sim::shared<f01_t>();
        struct job { table t; uint32_t shape; ascii::output_format o; std::string name, exp; int bad; };
        std::vector<job> js(nwrite);
        for (auto& j : js) {
            j.shape = sim::work(WSHAPES);
            uint32_t c2 = sim::work(1, 4);
            make(j.t, rows_choice(), c2, false);
            switch (sim::work(4)) {
                case 0: j.o = ascii::output_format::standard(); break;
                case 1: j.o = ascii::output_format::csv(); break;
                case 2: j.o.auto_width = sim::chance(1, 2); j.o.min_width = sim::work(12); break;
                default: j.o.delim = sim::chance(1, 2) ? "  | " : "\t"; j.o.header_chars = sim::chance(1, 2) ? "#" : "; "; break;
            }
            uint32_t nc = j.shape == 0 ? 1 : j.shape == 1 ? 3 : j.shape == 2 ? 2 : j.shape == 3 ? 1+c2 : j.shape == 4 ? 2*c2+1 : j.shape == 5 ? 2+c2 : j.shape == 7 ? 3+2*c2 : j.shape == 8 ? 2*c2 : 3+c2;
            bool hdr = sim::chance(1, 2);
            if (j.shape == 7) {
                // the names are those of the variables
                hdr = true; j.o.header.push_back("u");
                for (uint32_t k = 0; k < c2; ++k) j.o.header.push_back("v_"+num(k+1));
                for (uint32_t k = 0; k < c2; ++k) j.o.header.push_back("w_"+num(k+1));
                j.o.header.push_back("s"); j.o.header.push_back("quot");
            } else if (hdr) for (uint32_t k = 0; k < nc; ++k) j.o.header.push_back("col"+std::string(k%3*3, 'x')+num(k));
            j.bad = 0;
            if (sim::chance(1, 10)) {
                // Something is wrong in what is asked: must be reported
                if (hdr && j.shape != 7 && sim::chance(1, 2)) { j.o.header.push_back("extra"); j.bad = 1; }
                else if (j.shape != 0 && j.shape < 6 && j.t.rows >= 2) {
                    j.bad = 2;
                    if (j.shape == 1) j.t.i.resize(sim::chance(1, 2) ? j.t.rows-1 : 0);
                    else if (j.shape == 2) j.t.d.resize(sim::chance(1, 2) ? j.t.rows+2 : 0);
                    else if (j.shape == 4) j.t.s.resize(j.t.rows-1);
                    else if (j.shape == 3) j.t.u.resize(sim::chance(1, 2) ? 0 : j.t.rows+1);
                    else j.t.i.resize(sim::chance(1, 2) ? 0 : j.t.rows-1);
                }
            }
            j.name = sim::chance(1, 3) ? "sub/t.txt" : "t"+num(sim::work(2))+".txt";
            if (!j.bad) j.exp = expected(j.t, j.shape, j.o);
            sim::describe("%s%u rows, shape %u%s%s", &j == &js[0] ? "" : "; ", j.t.rows, j.shape, hdr ? " with header" : "", j.bad ? " (inconsistent)" : "");
        }
        D::put("t0.txt", fc::blob(fc::size_choice(), 7));
        bool dir = sim::chance(3, 4);
        if (!dir) sim::probe("missing_directory");
        sim::options o; o.io = true; o.max_steps = 100000000;
        uint64_t f0 = D::fired_any();
        auto r = sim::process(o, [&]() {
            if (dir) { sim::silent s; ::mkdir("sub", 0755); }
            for (auto& j : js) {
                D::arm();
                write(j.name, j.t, j.shape, j.o);
                D::disarm();
                sim::silent s;
                REQUIRE(!j.bad, "inconsistent-table-accepted", "a table with %s was written without reporting an error", j.bad == 1 ? "the wrong number of names in the header" : "columns of different sizes");
                std::string got;
                REQUIRE(D::get(j.name, got), "table-not-written", "%s does not exist after it was written", j.name.c_str());
                REQUIRE(got == j.exp, "table-incomplete", "%s is wrong after it was written without reporting an error: %s", j.name.c_str(), fc::diff(got, j.exp).c_str());
                REQUIRE(D::open_files() == 0, "file-left-open", "%d files are still open", D::open_files());
                ++F->done;
            }
        });
        if (fc::reported(r)) {
            auto& j = js[F->done];
            bool err = D::fired_any() != f0 || j.bad || (!dir && j.name[0] == 's');
            REQUIRE(err, "failed-without-reason", "writing %s failed but there was no error: %s", j.name.c_str(), r.what.c_str());
            sim::probe("failure_reported");
        } else {
            REQUIRE(r.ok(), "abnormal-end", "kind %d code %d", r.kind, r.code);
            if (D::fired_any() != f0) sim::probe("error_without_effect");
        }
        if (D::fired_any() + D::benign()) sim::nontrivial();
    }
    sim::property_t p01("F01", f01, "A run writes 1-3 tables of 0-1800 rows with random layout while the storage fails at random; "
        "non-trivial: at least one storage fault fired");

    // ---- F02 ----------------------------------------------------------------------------
    struct src_t { std::string text; };

    std::string join(const line& l, const std::string& delim, uint32_t style, uint64_t& x) {
        std::string s;
        if (style & 1) s += "  ";
        for (size_t k = 0; k < l.size(); ++k) {
            if (k) { s += delim; if (style & 2) { x = x*6364136223846793005ull+1; s += std::string((x >> 60)%4, (x >> 50)%2 ? ' ' : '\t'); } }
            s += l[k];
        }
        if (style & 4) s += style & 8 ? " " : "\t";
        return s;
    }

    template<typename T> bool same(const vec<1,T>& a, const vec<1,T>& b) {
        if (a.dims[0] != b.dims[0] || a.data.size() != b.data.size() || a.data.size() != a.dims[0]) return false;
        for (size_t i = 0; i < a.data.size(); ++i) if (!(a.data[i] == b.data[i])) return false;
        return true;
    }
    template<typename T> bool same(const vec<2,T>& a, const vec<2,T>& b) {
        if (a.dims[0] != b.dims[0] || a.dims[1] != b.dims[1] || a.data.size() != b.data.size() || a.data.size() != a.dims[0]*a.dims[1]) return false;
        for (size_t i = 0; i < a.data.size(); ++i) if (!(a.data[i] == b.data[i])) return false;
        return true;
    }

    void read(const std::string& name, const ascii::input_format& o, uint32_t shape, uint32_t how, uint32_t c2, table& t) {
        switch (shape) {
            case 0: ascii::read_table(name, o, t.u); break;
            case 1:
                if (how == 0) ascii::read_table(name, o, t.u, t.i, t.s);
                else if (how == 1) ascii::read_table(name, o, t.u, _, t.s);
                else ascii::read_table(name, o, t.u, t.i);
                break;
            case 2: if (how == 0) ascii::read_table(name, o, t.s, t.d); else ascii::read_table(name, o, _, t.d); break;
            case 3: if (how < 2) ascii::read_table(name, o, t.u, ascii::columns(c2, t.v)); else ascii::read_table(name, o, _, ascii::columns(c2, t.v)); break;
            case 4:
                if (how == 0) ascii::read_table(name, o, ascii::columns(c2, t.v, t.w), t.s);
                else if (how == 1) ascii::read_table(name, o, ascii::columns(c2, _, t.w), t.s);
                else ascii::read_table(name, o, ascii::columns(c2, t.v, _));
                break;
            case 5: if (how == 0) ascii::read_table(name, o, t.i, ascii::columns(c2, t.v), t.u); else ascii::read_table(name, o, t.i, ascii::columns(c2, _), t.u); break;
        }
    }

    // which of the vectors must be filled
    std::string compare(const table& g, const table& e, uint32_t shape, uint32_t how, uint32_t& bad) {
        auto c = [&](bool ok, const char* n) { return ok ? std::string() : std::string(n); };
        std::string r;
        switch (shape) {
            case 0: return c(same(g.u, e.u), "column 1");
            case 1: r = c(same(g.u, e.u), "column 1"); if (r.empty() && how != 1) r = c(same(g.i, e.i), "column 2"); if (r.empty() && how < 2) r = c(same(g.s, e.s), "column 3"); return r;
            case 2: r = c(same(g.d, e.d), "column 2"); if (r.empty() && how == 0) r = c(same(g.s, e.s), "column 1"); return r;
            case 3: r = c(same(g.v, e.v), "columns 2 and following"); if (r.empty() && how < 2) r = c(same(g.u, e.u), "column 1"); return r;
            case 4: if (how != 1) r = c(same(g.v, e.v), "first group of columns"); if (r.empty() && how < 2) r = c(same(g.w, e.w) && same(g.s, e.s), "second group of columns"); return r;
            case 5: r = c(same(g.i, e.i) && same(g.u, e.u), "first and last columns"); if (r.empty() && how == 0) r = c(same(g.v, e.v), "middle columns"); return r;
        }
        return r;
    }

    table head(const table& t, uint32_t first, uint32_t n) {
        table r; r.rows = n;
        r.u.resize(n); r.i.resize(n); r.d.resize(n); r.s.resize(n); r.v.resize(n, t.v.dims[1]); r.w.resize(n, t.v.dims[1]);
        for (uint32_t k = 0; k < n; ++k) {
            r.u.safe[k] = t.u.safe[first+k]; r.i.safe[k] = t.i.safe[first+k]; r.d.safe[k] = t.d.safe[first+k]; r.s.safe[k] = t.s.safe[first+k];
            for (uint32_t c = 0; c < t.v.dims[1]; ++c) { r.v.safe(k,c) = t.v.safe(first+k,c); r.w.safe(k,c) = t.w.safe(first+k,c); }
        }
        return r;
    }

    void f02() {
        uint32_t shape = sim::work(SHAPES), how = sim::work(3), c2 = sim::work(1, 3);
        ascii::input_format fmt;
        std::string delim = " "; bool csv = false;
        switch (sim::work(4)) {
            case 1: fmt = ascii::input_format::csv(); delim = ","; csv = true; break;
            case 2: fmt.delim = ";"; fmt.delim_single = true; delim = ";"; csv = true; break;
            case 3: fmt.skip_pattern = "//"; break;
            default: break;
        }
        uint32_t badness = sim::chance(1, 10) ? 1+sim::work(2) : 0;
        // the characters of comments are not special within a line, nor anywhere if comments are disabled
        fmt.auto_skip = !sim::chance(1, 6);
        std::string pattern = sim::chance(1, 3) ? fmt.skip_pattern : "";
        table t; make(t, rows_choice(), c2, csv, csv && !badness && sim::chance(1, 2), pattern, !fmt.auto_skip);
        uint32_t style = csv ? 0 : sim::work(16);
        uint32_t deco = sim::work(8);      // 1: comments, 2: blank lines, 4: CRLF
        bool noend = sim::chance(1, 4);
        fmt.skip_first = sim::chance(1, 3) ? sim::work(5) : 0;
        int bad = 0; uint32_t bad_row = 0;
        if (badness && t.rows) { bad = badness; bad_row = sim::work(t.rows); }
        uint64_t x = 1;
        std::string text, nl = deco & 4 ? "\r\n" : "\n";
        auto decorate = [&](uint32_t r) {
            if ((deco & 1) && fmt.auto_skip && r%7 == 0) text += fmt.skip_pattern + " comment 1 2 3" + nl;
            if ((deco & 2) && r%5 == 0) text += (r%2 ? "   " : "") + nl;
        };
        auto emit = [&](uint32_t r) {
            line l = row_of(t, shape, r);
            if (bad && r == bad_row && r >= fmt.skip_first) {
                if (bad == 1) l.resize(l.size()-1); else l[shape == 2 ? 1 : 0] = "x"+l[0];
            }
            text += join(l, delim, style, x);
        };
        for (uint32_t r = 0; r < t.rows; ++r) { decorate(r); emit(r); if (r+1 < t.rows || !noend) text += nl; }
        bool bad_seen = false;
        if (bad && bad_row >= fmt.skip_first) {
            // is the bad value in a column that is read?
            if (bad == 1) bad_seen = (shape == 1 && how < 2) || shape == 2 || (shape == 3) || (shape == 4 && how < 2) || shape == 5;
            else bad_seen = shape == 0 || shape == 1 || shape == 2 || (shape == 3 && how < 2) || (shape == 4 && how != 1) || shape == 5;
            if (bad == 1 && shape == 0) bad_seen = false; // an empty line
            if (bad == 1 && shape == 4 && how == 2) bad_seen = false;
        }
        if (bad && !bad_seen) { bad = 0; return; }
        uint32_t first = std::min(fmt.skip_first, uint_t(t.rows));
        table exp = head(t, first, t.rows - first);
        if (fmt.skip_first > t.rows) sim::probe("skip_more_than_there_is");
        // what another process may do to the file meanwhile
        uint32_t intr = sim::work(3);
        std::string more;
        table t2; uint32_t add = 0;
        if (intr == 1 && t.rows && !noend) {
            add = sim::work(1, 3);
            std::string save = text; text.clear();
            for (uint32_t k = 0; k < add; ++k) { emit(k % t.rows); text += nl; }
            more = text; text = save;
        }
        uint32_t mode = sim::work(12); // 0: missing file, 1: a directory
        sim::describe("%u rows, shape %u/%u, skip %llu%s%s", t.rows, shape, how, (unsigned long long)fmt.skip_first, bad ? ", malformed" : "", mode == 0 ? ", missing" : mode == 1 ? ", directory" : "");
        uint32_t mask = D::bit(D::open_fail)|D::bit(D::read_eio)|D::bit(D::read_short)|D::bit(D::read_eintr)|D::bit(D::seek_fail)|D::bit(D::stat_fail);
        if (sim::fault_chance(1, 3)) mask = D::bit(D::intruder)|D::bit(D::read_short);
        if (sim::fault_chance(1, 6)) mask = 0;
        D::allow(mask);
        if (mode >= 2) D::put("in.txt", text);
        uint64_t f0 = D::fired_any();
        sim::options o; o.io = true; o.max_steps = 100000000;
        auto r = sim::process(o, [&]() {
            if (mode == 1) { sim::silent s; ::mkdir("in.txt", 0755); }
            D::on_intruder([&]() {
                std::string cur;
                if (!D::get("in.txt", cur)) return;
                if (intr == 1) D::put("in.txt", cur+more); else if (intr == 2) D::put("in.txt", "");
                else { ::unlink("in.txt"); }
            });
            table got;
            // the vectors may contain something already
            uint32_t pre = sim::work(3);
            got.u.resize(pre); got.i.resize(pre); got.d.resize(pre); got.s.resize(pre); got.v.resize(pre, c2); got.w.resize(pre, c2);
            D::arm();
            read("in.txt", fmt, shape, how, c2, got);
            D::disarm();
            sim::silent s;
            REQUIRE(mode >= 2, "unreadable-accepted", "reading a %s did not report an error", mode ? "directory" : "missing file");
            REQUIRE(!bad || (D::fired(D::intruder) && intr == 2), "malformed-accepted", "reading a table with %s did not report an error", bad == 1 ? "a missing value" : "a value of the wrong type");
            uint32_t k = 0;
            std::string d = bad ? "" : compare(got, exp, shape, how, k);
            if (!d.empty() && D::fired(D::intruder)) {
                // the version of the file after it was modified is fine too
                table e2;
                if (intr == 1) {
                    table tt = t; uint32_t n = t.rows+add;
                    tt = head(t, 0, 0); tt.rows = n;
                    tt.u.resize(n); tt.i.resize(n); tt.d.resize(n); tt.s.resize(n); tt.v.resize(n, c2); tt.w.resize(n, c2);
                    for (uint32_t q = 0; q < n; ++q) {
                        uint32_t z = q < t.rows ? q : (q-t.rows)%t.rows;
                        tt.u.safe[q] = t.u.safe[z]; tt.i.safe[q] = t.i.safe[z]; tt.d.safe[q] = t.d.safe[z]; tt.s.safe[q] = t.s.safe[z];
                        for (uint32_t c = 0; c < c2; ++c) { tt.v.safe(q,c) = t.v.safe(z,c); tt.w.safe(q,c) = t.w.safe(z,c); }
                    }
                    uint32_t fs = std::min(fmt.skip_first, uint_t(n));
                    e2 = head(tt, fs, n-fs);
                } else e2 = head(t, 0, 0);
                d = compare(got, e2, shape, how, k);
            }
            REQUIRE(d.empty(), "table-misread", "the %s read from the table differ from what is in the file, and no error was reported", d.c_str());
            REQUIRE(D::open_files() == 0, "file-left-open", "%d files are still open", D::open_files());
        });
        if (fc::reported(r)) {
            REQUIRE(D::fired_any() != f0 || bad || mode < 2, "failed-without-reason", "reading failed but there was no error: %s", r.what.c_str());
            sim::probe("failure_reported");
        } else {
            REQUIRE(r.ok(), "abnormal-end", "kind %d code %d", r.kind, r.code);
            if (D::fired_any() != f0) sim::probe("error_without_effect");
        }
        if (D::fired_any() + D::benign()) sim::nontrivial();
    }
    sim::property_t p02("F02", f02, "A run reads a table of 0-1800 rows with random layout while the storage fails at random, or while another "
        "process modifies the file; non-trivial: at least one storage fault fired");
}
