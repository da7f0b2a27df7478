// A small independent model of FITS files: writer, parser and comparison (no cfitsio, no vif)
#ifndef F_FITSMODEL_HPP
#define F_FITSMODEL_HPP
#include <map>
#include <cstring>
#include <cmath>
namespace mf {
    typedef std::vector<long> dims_t;
    inline uint64_t prod(const dims_t& d) { uint64_t p = 1; for (long x : d) p *= x; return p; }

    template<typename T> void put_be(std::string& s, T v) {
        unsigned char b[sizeof(T)]; memcpy(b, &v, sizeof(T));
        for (size_t i = 0; i < sizeof(T); ++i) s.push_back(char(b[sizeof(T)-1-i]));
    }

    struct column {
        std::string name; char code = 'D';   // B, S (signed byte: B with offset), I, J, K, E, D, A
        dims_t tdim;                          // FITS order, for A: first is the width
        std::string data;                     // row by row
        long repeat() const { return tdim.empty() ? 1 : (long)prod(tdim); }
        long bytes() const { long r = repeat(); switch (code) { case 'I': return 2*r; case 'J': case 'E': return 4*r; case 'K': case 'D': return 8*r; default: return r; } }
    };
    struct hdu {
        bool table = false, sbyte = false;
        int bitpix = 8; dims_t naxes; std::string data;
        long nrows = 0; std::vector<column> cols;
        std::vector<std::pair<std::string,std::string>> keys;
    };
    typedef std::vector<hdu> file;

    // ---- values of keywords, in a canonical form
    inline std::string canon_num(double d) { char b[64]; snprintf(b, sizeof b, "%.12g", d); return b; }
    inline std::string rtrim(std::string s) { while (!s.empty() && (s.back() == ' ' || s.back() == '\0')) s.pop_back(); return s; }
    inline std::string trim(std::string s) { s = rtrim(s); size_t i = s.find_first_not_of(' '); return i == s.npos ? "" : s.substr(i); }
    inline std::string canon(const std::string& v) {
        std::string t = trim(v);
        if (t.empty()) return t;
        if (t[0] == '\'') {
            size_t e = t.find('\'', 1); if (e == t.npos) return t;
            return "'" + rtrim(t.substr(1, e-1)) + "'";
        }
        size_t e = t.find('/'); if (e != t.npos) t = trim(t.substr(0, e));
        char* end; double d = strtod(t.c_str(), &end);
        if (*end == 0) return canon_num(d);
        return t;
    }

    // ---- writer
    inline std::string card(const std::string& k, const std::string& v) {
        std::string s = k;
        if (k.size() > 8) { s = "HIERARCH " + k + " = " + v; s.resize(80, ' '); return s; }
        s.resize(8, ' '); s += "= ";
        if (v[0] == '\'') { std::string w = v; if (w.size() < 10) { w.pop_back(); w.resize(9, ' '); w += '\''; } s += w; }
        else s += std::string(v.size() < 20 ? 20-v.size() : 0, ' ') + v;
        s.resize(80, ' '); return s;
    }
    inline void pad(std::string& s, char c) { while (s.size() % 2880) s += c; }
    inline std::string tdim_text(const dims_t& d) { std::string s = "'("; for (size_t i = 0; i < d.size(); ++i) s += (i ? "," : "") + std::to_string(d[i]); return s + ")'"; }

    // Data of a table in the order of the file
    inline std::string table_bytes(const hdu& h) {
        std::string s;
        for (long r = 0; r < h.nrows; ++r) for (auto& c : h.cols) s.append(c.data, r*c.bytes(), c.bytes());
        return s;
    }
    inline std::string write(const file& f, std::vector<size_t>* starts = nullptr, size_t only = -1) {
        std::string out;
        for (size_t k = 0; k < f.size(); ++k) {
            const hdu& h = f[k];
            if (starts) starts->push_back(out.size());
            std::string s;
            if (k == 0) s += card("SIMPLE", "T"); else s += card("XTENSION", h.table ? "'BINTABLE'" : "'IMAGE   '");
            if (h.table) {
                long w = 0; for (auto& c : h.cols) w += c.bytes();
                s += card("BITPIX", "8"); s += card("NAXIS", "2"); s += card("NAXIS1", std::to_string(w)); s += card("NAXIS2", std::to_string(h.nrows));
                s += card("PCOUNT", "0"); s += card("GCOUNT", "1"); s += card("TFIELDS", std::to_string(h.cols.size()));
                for (size_t i = 0; i < h.cols.size(); ++i) {
                    auto& c = h.cols[i]; std::string n = std::to_string(i+1);
                    std::string form = std::to_string(c.repeat()) + (c.code == 'S' ? 'B' : c.code);
                    if (c.code == 'A' && c.tdim.size() > 1) form += std::to_string(c.tdim[0]);
                    s += card("TTYPE"+n, "'"+c.name+"'"); s += card("TFORM"+n, "'"+form+"'");
                    if (c.tdim.size() > 1) s += card("TDIM"+n, tdim_text(c.tdim));
                    if (c.code == 'S') { s += card("TZERO"+n, "-128"); s += card("TSCAL"+n, "1"); }
                }
            } else {
                s += card("BITPIX", std::to_string(h.bitpix)); s += card("NAXIS", std::to_string(h.naxes.size()));
                for (size_t i = 0; i < h.naxes.size(); ++i) s += card("NAXIS"+std::to_string(i+1), std::to_string(h.naxes[i]));
                if (k) { s += card("PCOUNT", "0"); s += card("GCOUNT", "1"); } else s += card("EXTEND", "T");
                if (h.sbyte) { s += card("BZERO", "-128"); s += card("BSCALE", "1"); }
            }
            for (auto& kv : h.keys) s += card(kv.first, kv.second);
            s += "END"; pad(s, ' ');
            s += h.table ? table_bytes(h) : h.data;
            pad(s, '\0');
            out += s;
        }
        return out;
    }

    // ---- parser
    inline bool sys_key(const std::string& k) {
        static const char* pre[] = {"NAXIS", "TTYPE", "TFORM", "TDIM", "TZERO", "TSCAL", "TNULL", "TDISP"};
        static const char* full[] = {"SIMPLE", "BITPIX", "EXTEND", "XTENSION", "PCOUNT", "GCOUNT", "TFIELDS", "BZERO", "BSCALE", "THEAP", "COMMENT", "HISTORY", "LONGSTRN", ""};
        for (auto f : full) if (k == f) return true;
        for (auto p : pre) if (k.compare(0, strlen(p), p) == 0) return true;
        return false;
    }
    inline bool parse(const std::string& b, file& f, std::string& err) {
        size_t pos = 0; f.clear();
        while (pos < b.size()) {
            if (!f.empty() && b.compare(pos, 8, "XTENSION") != 0) break; // special records, ignored
            std::map<std::string,std::string> m; hdu h;
            bool end = false;
            while (!end) {
                if (pos + 80 > b.size()) { err = "the header of extension " + std::to_string(f.size()) + " has no end"; return false; }
                std::string c = b.substr(pos, 80); pos += 80;
                std::string k = rtrim(c.substr(0, 8));
                if (k == "END") { end = true; break; }
                if (k == "HIERARCH") {
                    size_t e = c.find('='); if (e == c.npos) continue;
                    h.keys.push_back({trim(c.substr(9, e-9)), canon(c.substr(e+1))});
                    continue;
                }
                if (c[8] != '=') { if (!sys_key(k) && k != "CONTINUE") h.keys.push_back({k, "?"}); continue; }
                std::string v = canon(c.substr(10));
                m[k] = v;
                if (!sys_key(k)) h.keys.push_back({k, v});
            }
            pos = (pos + 2879)/2880*2880;
            auto num = [&](const std::string& k, long d) { auto i = m.find(k); return i == m.end() ? d : strtol(i->second.c_str(), nullptr, 10); };
            if (f.empty() ? m["SIMPLE"] != "T" : !m.count("XTENSION")) { err = "extension " + std::to_string(f.size()) + " has no SIMPLE or XTENSION keyword"; return false; }
            h.table = !f.empty() && m["XTENSION"] == "'BINTABLE'";
            h.bitpix = num("BITPIX", 0);
            long na = num("NAXIS", -1);
            if (na < 0) { err = "no NAXIS in extension " + std::to_string(f.size()); return false; }
            for (long i = 1; i <= na; ++i) h.naxes.push_back(num("NAXIS"+std::to_string(i), -1));
            uint64_t size = na ? prod(h.naxes)*std::abs(h.bitpix)/8 : 0;
            uint64_t heap = num("PCOUNT", 0);
            if (pos + size + heap > b.size()) { err = "the data of extension " + std::to_string(f.size()) + " is truncated (" + std::to_string(b.size()) + " bytes, expected " + std::to_string(pos+size) + ")"; return false; }
            if ((pos + size + heap + 2879)/2880*2880 > b.size()) { err = "the data of extension " + std::to_string(f.size()) + " is not padded"; return false; }
            std::string d = b.substr(pos, size);
            pos = (pos + size + heap + 2879)/2880*2880;
            if (h.table) {
                h.nrows = h.naxes[1]; long w = h.naxes[0], off = 0, nf = num("TFIELDS", 0);
                for (long i = 1; i <= nf; ++i) {
                    column c; std::string n = std::to_string(i);
                    auto unq = [](const std::string& s) { return s.size() >= 2 ? trim(s.substr(1, s.size()-2)) : s; };
                    c.name = unq(m["TTYPE"+n]);
                    std::string form = unq(m["TFORM"+n]); char* e; long rep = strtol(form.c_str(), &e, 10);
                    if (e == form.c_str()) rep = 1;
                    c.code = *e; long aw = c.code == 'A' ? strtol(e+1, nullptr, 10) : 0;
                    if (m.count("TDIM"+n)) { std::string t = unq(m["TDIM"+n]); const char* p = t.c_str()+1; char* q; while (true) { long x = strtol(p, &q, 10); if (q == p) break; c.tdim.push_back(x); p = *q == ',' ? q+1 : q; } }
                    else if (c.code == 'A' && aw && aw != rep) { c.tdim.push_back(aw); c.tdim.push_back(rep/aw); }
                    else c.tdim.push_back(rep);
                    if (c.repeat() != rep) { err = "TDIM"+n+" does not match TFORM"+n; return false; }
                    if (c.code == 'B' && m.count("TZERO"+n)) c.code = 'S';
                    for (long r = 0; r < h.nrows; ++r) c.data.append(d, r*w+off, c.bytes());
                    off += c.bytes();
                    h.cols.push_back(c);
                }
                if (off != w) { err = "the columns of extension " + std::to_string(f.size()) + " do not fill the rows"; return false; }
                h.naxes.clear();
            } else {
                h.sbyte = h.bitpix == 8 && m.count("BZERO");
                h.data = d;
            }
            f.push_back(h);
        }
        if (f.empty()) { err = "the file is empty"; return false; }
        return true;
    }

    // ---- comparison ("" if the same)
    inline std::string norm(const column& c) { // strings: how they are padded does not matter
        if (c.code != 'A') return c.data;
        std::string s = c.data; long w = c.tdim.empty() ? 1 : c.tdim[0];
        if (w <= 0) return s;
        for (size_t i = 0; i + w <= s.size(); i += w) { bool z = false; for (long k = 0; k < w; ++k) { if (!s[i+k]) z = true; if (z) s[i+k] = ' '; } }
        return s;
    }
    inline dims_t norm_dims(const column& c) { dims_t d = c.tdim; if (d.empty()) d.push_back(1); return d; }
    inline std::string compare(const hdu& g, const hdu& e) {
        char b[256];
        if (g.table != e.table) return g.table ? "is a table instead of an image" : "is an image instead of a table";
        if (g.table) {
            if (g.nrows != e.nrows) { snprintf(b, 256, "has %ld rows instead of %ld", g.nrows, e.nrows); return b; }
            if (g.cols.size() != e.cols.size()) { snprintf(b, 256, "has %zu columns instead of %zu", g.cols.size(), e.cols.size()); return b; }
            for (size_t i = 0; i < g.cols.size(); ++i) {
                auto& x = g.cols[i]; auto& y = e.cols[i];
                if (x.name != y.name) return "column " + std::to_string(i+1) + " is named '" + x.name + "' instead of '" + y.name + "'";
                if (x.code != y.code) return "column " + x.name + " has type '" + x.code + "' instead of '" + y.code + "'";
                if (norm_dims(x) != norm_dims(y)) return "column " + x.name + " has dimensions " + tdim_text(x.tdim) + " instead of " + tdim_text(y.tdim);
                std::string p = norm(x), q = norm(y);
                if (p != q) { size_t k = 0; while (k < p.size() && k < q.size() && p[k] == q[k]) ++k; snprintf(b, 256, "column %s differs at byte %zu of %zu/%zu", x.name.c_str(), k, p.size(), q.size()); return b; }
            }
        } else {
            if (g.naxes != e.naxes) return "has dimensions " + tdim_text(g.naxes) + " instead of " + tdim_text(e.naxes);
            if (!g.naxes.empty() && (g.bitpix != e.bitpix || g.sbyte != e.sbyte)) { snprintf(b, 256, "has pixel type %d instead of %d", g.bitpix, e.bitpix); return b; }
            if (g.data != e.data) { size_t k = 0; while (g.data[k] == e.data[k]) ++k; snprintf(b, 256, "the image differs at byte %zu of %zu", k, e.data.size()); return b; }
        }
        if (g.keys != e.keys) {
            for (size_t i = 0; i < std::max(g.keys.size(), e.keys.size()); ++i) {
                if (i >= g.keys.size()) return "keyword " + e.keys[i].first + " is missing";
                if (i >= e.keys.size()) return "there is an unexpected keyword " + g.keys[i].first;
                if (g.keys[i] != e.keys[i]) return "keyword " + g.keys[i].first + "=" + g.keys[i].second + " instead of " + e.keys[i].first + "=" + e.keys[i].second;
            }
        }
        return "";
    }
    inline std::string compare(const file& g, const file& e) {
        if (g.size() != e.size()) return "there are " + std::to_string(g.size()) + " extensions instead of " + std::to_string(e.size());
        for (size_t i = 0; i < g.size(); ++i) { std::string r = compare(g[i], e[i]); if (!r.empty()) return "extension " + std::to_string(i) + ": " + r; }
        return "";
    }
}
#endif
