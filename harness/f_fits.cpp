// F05: FITS written completely or reported, F06: read exactly or reported, F07: flushed data survives a crash,
// F08: life of FITS objects, F09: several objects on one file
#include "prelude.hpp"
#include "f_cfitsio.hpp"
#include <vif.hpp>
#include "f_common.hpp"
#include "f_fitsmodel.hpp"

using namespace vif;
namespace D = sim::disk;

namespace {
    struct rng { uint64_t x; explicit rng(uint64_t s) : x(s*0x9E3779B97F4A7C15ull + 88172645463325252ull) {} uint64_t operator()() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x*0x2545F4914F6CDD1Dull >> 11; } };

    template<bool B> using bool_ = std::integral_constant<bool,B>;
    // ---- values ---------------------------------------------------------------------------
    void fill(double& v, rng& r) { v = r()%9 == 0 ? dnan : double(int64_t(r()%2000000) - 1000000)/(r()%2 ? 1 : 7); }
    void fill(float& v, rng& r) { v = r()%9 == 0 ? fnan : float(int(r()%20000) - 10000)/(r()%2 ? 1 : 3); }
    void fill(int_t& v, rng& r) { v = int_t(r()%(r()%2 ? 100 : 1ull << 52)) - 50; }
    void fill(uint_t& v, rng& r) { v = r()%(r()%2 ? 100 : 1ull << 52); }
    void fill(short& v, rng& r) { v = short(r()); }
    void fill(char& v, rng& r) { v = char(r()%256); }
    void fill(bool& v, rng& r) { v = r()%2; }
    int str_mode = 0; // 1: long strings, 2: only one character
    void fill(std::string& s, rng& r) { s.clear(); uint32_t n = str_mode == 2 ? 1 : r()%4 == 0 ? 0 : r()%(str_mode == 1 ? 150 : 12); for (uint32_t i = 0; i < n; ++i) s += char('a'+r()%26); if (n > 4 && r()%3 == 0) s[2] = ' '; }

    void enc(std::string& s, double v) { mf::put_be(s, v); }
    void enc(std::string& s, float v) { mf::put_be(s, v); }
    void enc(std::string& s, int_t v) { mf::put_be(s, int64_t(v)); }
    void enc(std::string& s, uint_t v) { mf::put_be(s, int64_t(v)); }
    void enc(std::string& s, short v) { mf::put_be(s, v); }
    void enc(std::string& s, char v) { s.push_back(char((unsigned char)v ^ 0x80)); }
    void enc(std::string& s, bool v) { s.push_back(v ? 1 : 0); }
    template<typename T> struct tcode;
    template<> struct tcode<double> { enum { bitpix = -64 }; static const char c = 'D'; };
    template<> struct tcode<float> { enum { bitpix = -32 }; static const char c = 'E'; };
    template<> struct tcode<int_t> { enum { bitpix = 64 }; static const char c = 'K'; };
    template<> struct tcode<uint_t> { enum { bitpix = 64 }; static const char c = 'K'; };
    template<> struct tcode<short> { enum { bitpix = 16 }; static const char c = 'I'; };
    template<> struct tcode<char> { enum { bitpix = 8 }; static const char c = 'S'; };
    template<> struct tcode<bool> { enum { bitpix = 8 }; static const char c = 'B'; };
    template<> struct tcode<std::string> { enum { bitpix = 0 }; static const char c = 'A'; };

    template<std::size_t N, typename T> bool same(const vec<N,T>& a, const vec<N,T>& b) {
        if (a.data.size() != b.data.size()) return false;
        uint64_t n = 1;
        for (std::size_t i = 0; i < N; ++i) { if (a.dims[i] != b.dims[i]) return false; n *= a.dims[i]; }
        if (n != a.data.size()) return false;
        for (std::size_t i = 0; i < a.data.size(); ++i) if (!(a.data[i] == b.data[i]) && !(a.data[i] != a.data[i] && b.data[i] != b.data[i])) return false;
        return true;
    }
    template<typename T> bool same(const T& a, const T& b) { return a == b || (a != a && b != b); }

    // One value of any supported type
    enum kind_t { V1D, V2D, V1F, V1I, V1U, V1B, V1S, V2S, V1H, V1C, V3F, SD, SS, SI, SB, NCOL, V2F = 20, V2I, V2U, V2B, V2H, V2C };
    struct value {
        int kind = V1D;
        vec1d v1d; vec2d v2d; vec1f v1f; vec1i v1i; vec1u v1u; vec1b v1b; vec1s v1s; vec2s v2s; vec<1,short> v1h; vec<1,char> v1c; vec3f v3f;
        double sd; std::string ss; int_t si; bool sb;
        vec2f v2f; vec2i v2i; vec2u v2u; vec2b v2b; vec<2,short> v2h; vec<2,char> v2c;
    };
    template<typename V, typename F> void with(V& v, F&& f) {
        switch (v.kind) {
            case V1D: f(v.v1d); break; case V2D: f(v.v2d); break; case V1F: f(v.v1f); break; case V1I: f(v.v1i); break; case V1U: f(v.v1u); break;
            case V1B: f(v.v1b); break; case V1S: f(v.v1s); break; case V2S: f(v.v2s); break; case V1H: f(v.v1h); break; case V1C: f(v.v1c); break;
            case V3F: f(v.v3f); break; case SD: f(v.sd); break; case SS: f(v.ss); break; case SI: f(v.si); break; case SB: f(v.sb); break;
        }
    }
    template<typename V, typename F> void with_image(V& v, F&& f) {
        switch (v.kind) {
            case V1D: f(v.v1d); break; case V2D: f(v.v2d); break; case V3F: f(v.v3f); break; case V2F: f(v.v2f); break; case V2I: f(v.v2i); break;
            case V2U: f(v.v2u); break; case V2B: f(v.v2b); break; case V2H: f(v.v2h); break; case V2C: f(v.v2c); break;
        }
    }

    struct filler {
        rng& r; std::vector<uint32_t> d; // dimensions to give
        template<std::size_t N, typename T> void operator()(vec<N,T>& v) const {
            uint64_t n = 1; for (std::size_t i = 0; i < N; ++i) { v.dims[i] = i < d.size() ? d[i] : 2; n *= v.dims[i]; }
            v.data.resize(n); T t; for (uint64_t i = 0; i < n; ++i) { fill(t, r); v.data[i] = t; }
        }
        template<typename T> void operator()(T& v) const { fill(v, r); }
    };

    // What the file must contain for this value
    struct to_column {
        mf::column& c; bool row; long& nrows;
        template<std::size_t N, typename T> void operator()(const vec<N,T>& v) const {
            c.code = tcode<T>::c; nrows = row ? v.dims[0] : 1;
            for (std::size_t i = 0; i < N - (row ? 1 : 0); ++i) c.tdim.push_back(v.dims[N-1-i]);
            if (c.tdim.empty()) c.tdim.push_back(1);
            for (auto x : v.data) enc(c.data, (T)x);
        }
        template<std::size_t N> void operator()(const vec<N,std::string>& v) const {
            c.code = 'A'; nrows = row ? v.dims[0] : 1;
            size_t w = 1; for (auto& s : v.data) w = std::max(w, s.size());
            c.tdim.push_back(w);
            for (std::size_t i = 0; i < N - (row ? 1 : 0); ++i) c.tdim.push_back(v.dims[N-1-i]);
            for (auto s : v.data) { s.resize(w, '\0'); c.data += s; }
        }
        void operator()(const std::string& s) const { c.code = 'A'; nrows = 1; c.tdim.push_back(s.size()); c.data = s; }
        template<typename T> void operator()(const T& v) const { c.code = tcode<T>::c; nrows = 1; c.tdim.push_back(1); enc(c.data, v); }
    };
    struct to_image {
        mf::hdu& h;
        template<std::size_t N, typename T> void operator()(const vec<N,T>& v) const {
            h.table = false; h.bitpix = tcode<T>::bitpix; h.sbyte = std::is_same<T,char>::value; h.naxes.clear(); h.data.clear();
            for (std::size_t i = 0; i < N; ++i) h.naxes.push_back(v.dims[N-1-i]);
            for (auto x : v.data) enc(h.data, (T)x);
        }
    };

    uint32_t len() { switch (sim::work(6)) { case 0: case 1: return sim::work(1, 4); case 2: case 3: return sim::work(1, 40); case 4: return sim::work(1, 700); default: return sim::work(1, 9000); } }
    const int image_kinds[] = {V2D, V1D, V2F, V3F, V2I, V2U, V2B, V2H, V2C};
    void make_image(value& v, rng& r) {
        v.kind = image_kinds[sim::work(9)];
        filler f{r, {}}; uint32_t n = len();
        if (v.kind == V1D) f.d = {n}; else { uint32_t a = sim::work(1, 6); f.d = {std::max(1u, n/a), a, sim::work(1, 3)}; }
        with_image(v, f);
    }
    void make_column(value& v, rng& r, bool row, long nrows, bool allow_empty = true) {
        v.kind = sim::work(row ? int(SD) : int(NCOL));
        filler f{r, {}};
        uint32_t n = row && nrows >= 0 ? uint32_t(nrows) : len();
        if (!row && allow_empty && sim::chance(1, 12)) n = 0;
        if (!row && v.kind != V1D && n > 2000) n = 2000;
        f.d = {n, sim::work(1, 4), sim::work(1, 3)};
        str_mode = sim::work(5);
        with(v, f);
        str_mode = 0;
    }

    // ---- histories of one FITS object ----------------------------------------------------------
    enum { OUT_IMAGE, IMAGE, OUT_TABLE, TABLE, OUT_FILE, FILE_, NCLASS };
    const char* class_name[] = {"output_image", "image", "output_table", "table", "output_file", "file"};
    inline bool has_image(int c) { return c == OUT_IMAGE || c == IMAGE || c == OUT_FILE || c == FILE_; }
    inline bool has_table(int c) { return c == OUT_TABLE || c == TABLE || c == OUT_FILE || c == FILE_; }
    inline bool has_update(int c) { return c == IMAGE || c == TABLE || c == FILE_; }

    enum step_t { WRITE_IMG, WRITE_EMPTY, UPDATE_IMG, REACH, KEY_SET, KEY_ADD, KEY_DEL, HEADER, REMOVE_HDU, COL, COLS, ALLOC, REMOVE_COL, UPDATE_COL, UPDATE_ELEM, SET_ROW, FLUSH, FLUSH_BUF, NSTEP };
    const char* step_name[] = {"write image", "write empty", "update image", "reach hdu", "write keyword", "add keyword", "remove keyword", "write header", "remove hdu", "write column",
        "write columns", "allocate column", "remove column", "update column", "update elements", "row format", "flush", "flush buffer"};
    struct state { int cur = -1; bool row = false; };
    struct step {
        int kind = FLUSH; value v, v2; std::string name, name2, text; uint32_t hdu = 0; double num = 0; int ktype = 0; uint32_t i = 0;
        mf::file after; // expected content of the file
        bool inplace = false; uint32_t target = 0; int bad = 0; // bad: a request that cannot be satisfied
        state st; // where the object is afterwards
    };

    void reformat(const mf::file& m, state& s) {
        s.row = false;
        if (s.cur >= 0 && m[s.cur].table && !m[s.cur].cols.empty()) s.row = m[s.cur].nrows != 1;
    }
    // Position after opening an existing file. False if it cannot be opened that way
    bool open_at(int cls, const mf::file& m, state& s) {
        s.cur = -1;
        for (size_t i = 0; i < m.size(); ++i) {
            bool ok = cls == FILE_ || (cls == IMAGE ? !m[i].table && !m[i].naxes.empty() : m[i].table);
            if (ok) { s.cur = i; break; }
        }
        if (s.cur < 0) return false;
        reformat(m, s);
        return true;
    }
    mf::hdu empty_hdu() { mf::hdu h; h.bitpix = -32; return h; }
    void create_table(mf::file& m, state& s) {
        if (m.empty()) { m.push_back(empty_hdu()); mf::hdu t; t.table = true; t.nrows = s.row ? 0 : 1; m.push_back(t); s.cur = 1; return; }
        if (m[s.cur].table) return;
        mf::hdu t; t.table = true; t.nrows = s.row ? 0 : 1;
        if (s.cur == 0) { m[0] = empty_hdu(); m.push_back(t); s.cur = 1; } else m[s.cur] = t;
    }
    void add_column(mf::file& m, state& s, const std::string& name, const value& v) {
        mf::hdu& h = m[s.cur]; mf::column c; c.name = name; long n = 1;
        with(v, to_column{c, s.row, n});
        if (s.row && h.cols.empty()) h.nrows = n;
        h.cols.push_back(c);
    }

    struct planner {
        mf::file m; state s; int cls; rng r; uint32_t ncol = 0, nkey = 0; std::vector<int> only;
        planner(int c, uint64_t seed) : cls(c), r(seed) {}
        bool cur_empty() { return m.empty() || (!m[s.cur].table && m[s.cur].naxes.empty()); }
        bool can_table() { return has_table(cls) && (m.empty() || m[s.cur].table || (cur_empty() && (s.cur != 0 || m.size() == 1))); }
        std::string new_col() { return "COL"+std::to_string(++ncol); }
        // Choose something that is possible now and say what must come out of it
        step next(bool flush_only) {
            step p;
            for (int tries = 0; tries < 60; ++tries) {
                int k = flush_only ? int(FLUSH) : !only.empty() ? only[sim::work(only.size())] : int(sim::work(NSTEP));
                p.kind = k;
                bool hasc = s.cur >= 0 && m[s.cur].table && !m[s.cur].cols.empty();
                switch (k) {
                case FLUSH: case FLUSH_BUF: if (m.empty()) continue; break;
                case WRITE_IMG: {
                    if (!has_image(cls) || !cur_empty()) continue;
                    make_image(p.v, r);
                    if (m.empty()) { m.push_back(empty_hdu()); s.cur = 0; }
                    with_image(p.v, to_image{m[s.cur]});
                    break; }
                case WRITE_EMPTY: if (!has_image(cls) || !m.empty()) continue; m.push_back(empty_hdu()); s.cur = 0; break;
                case UPDATE_IMG: {
                    if (!has_image(cls) || !has_update(cls) || s.cur < 0 || m[s.cur].table || m[s.cur].naxes.size() != 2 || (m[s.cur].bitpix != -64 && m[s.cur].bitpix != -32)) continue;
                    p.v.kind = m[s.cur].bitpix == -64 ? V2D : V2F;
                    filler f{r, {uint32_t(m[s.cur].naxes[1]), uint32_t(m[s.cur].naxes[0])}};
                    with_image(p.v, f); with_image(p.v, to_image{m[s.cur]});
                    p.inplace = true; p.target = s.cur;
                    break; }
                case REACH: {
                    p.hdu = sim::work(std::max<size_t>(m.size()+1, 3)); if (p.hdu > 4) continue;
                    while (m.size() <= p.hdu) m.push_back(empty_hdu());
                    s.cur = p.hdu; reformat(m, s);
                    break; }
                case KEY_SET: case KEY_ADD: {
                    if (m.empty()) continue;
                    p.ktype = sim::work(4);
                    static const char* longn[] = {"LONGKEYWORD1", "ANOTHER LONG ONE"};
                    p.name = sim::chance(1, 8) ? longn[sim::work(2)] : "KEY"+std::to_string(k == KEY_ADD ? 100+nkey++ : sim::work(4));
                    auto& ks = m[s.cur].keys; std::string v;
                    if (k == KEY_ADD && p.name[0] != 'K') continue;
                    switch (p.ktype) {
                        case 0: p.num = double(int(sim::work(20000))-10000)/8; v = mf::canon_num(p.num); break;
                        case 1: p.num = int(sim::work(2000000))-1000000; v = mf::canon_num(p.num); break;
                        case 2: { fill(p.text, r); if (p.text.empty()) p.text = "x"; v = "'"+p.text+"'"; break; }
                        default: p.num = sim::work(2); v = mf::canon_num(p.num); break;
                    }
                    p.inplace = false;
                    bool found = false;
                    if (k == KEY_SET) for (auto& x : ks) if (x.first == p.name) { x.second = v; found = true; break; }
                    if (!found) ks.push_back({p.name, v});
                    p.inplace = found; p.target = s.cur;
                    break; }
                case KEY_DEL: {
                    if (m.empty()) continue;
                    auto& ks = m[s.cur].keys;
                    if (ks.empty() || sim::chance(1, 4)) { p.name = "NOSUCH"; break; }
                    uint32_t j = sim::work(ks.size()); p.name = ks[j].first; ks.erase(ks.begin()+j);
                    break; }
                case HEADER: {
                    if (m.empty()) continue;
                    uint32_t n = sim::work(1, 40);
                    static const char* skip[] = {"SIMPLE", "BITPIX", "NAXIS", "NAXIS1", "EXTEND", "EXTNAME", "PCOUNT", "GCOUNT"};
                    for (uint32_t j = 0; j < n; ++j) {
                        if (sim::chance(1, 6)) { p.text += mf::card(skip[sim::work(8)], "7"); continue; }
                        std::string nm = "H"+std::to_string(++nkey), v = j%2 ? "'val"+std::to_string(j)+"'" : std::to_string(j*3);
                        p.text += mf::card(nm, v);
                        m[s.cur].keys.push_back({nm, mf::canon(v)});
                    }
                    if (sim::chance(1, 2)) { std::string e = "END"; e.resize(80, ' '); p.text += e; }
                    else if (sim::chance(1, 2)) while (p.text.back() == ' ') p.text.pop_back();
                    break; }
                case REMOVE_HDU: {
                    if (m.size() < 2 || s.cur <= 0) continue;
                    m.erase(m.begin()+s.cur);
                    if (s.cur >= int(m.size())) s.cur = m.size()-1;
                    reformat(m, s);
                    break; }
                case COL: case COLS: case ALLOC: case UPDATE_COL: {
                    if (!can_table()) continue;
                    if (k == UPDATE_COL && !has_update(cls)) continue;
                    create_table(m, s);
                    mf::hdu& h = m[s.cur];
                    if (h.cols.size() > 6) continue;
                    long nr = h.cols.empty() ? -1 : h.nrows;
                    if (k == ALLOC) {
                        if (s.row && nr == 0) { k = p.kind = COL; }
                        else {
                            p.i = s.row && nr > 0 ? nr : len(); p.hdu = sim::work(0, 2); p.name = new_col();
                            value z;
                            if (p.hdu) { z.kind = V2D; z.v2d = replicate(0.0, p.i, p.hdu); } else { z.kind = V1F; z.v1f = replicate(0.0f, p.i); }
                            add_column(m, s, p.name, z);
                            break;
                        }
                    }
                    if (k == UPDATE_COL && hasc && sim::chance(2, 3)) {
                        uint32_t j = sim::work(h.cols.size());
                        p.name = h.cols[j].name;
                        h.cols.erase(h.cols.begin()+j);
                        if (h.cols.empty()) { nr = -1; if (s.row) sim::probe("only_column_replaced"); } // it was the only one, so the number of rows can change
                    } else p.name = new_col();
                    if (k == COLS) { p.v.kind = V1D; with(p.v, filler{r, {s.row && nr >= 0 ? uint32_t(nr) : len()}}); }
                    else make_column(p.v, r, s.row, s.row ? nr : -1);
                    add_column(m, s, p.name, p.v);
                    if (k == COLS) { nr = m[s.cur].nrows; p.name2 = new_col(); make_column(p.v2, r, s.row, s.row ? nr : -1); add_column(m, s, p.name2, p.v2); }
                    break; }
                case REMOVE_COL: {
                    if (!has_update(cls) || !has_table(cls) || !hasc) continue;
                    mf::hdu& h = m[s.cur];
                    if (sim::chance(1, 4)) { p.name = "NOSUCH"; break; }
                    if (h.cols.size() < 2) continue;
                    uint32_t j = sim::work(h.cols.size()); p.name = h.cols[j].name; h.cols.erase(h.cols.begin()+j);
                    break; }
                case UPDATE_ELEM: {
                    if (!has_update(cls) || !has_table(cls) || !hasc) continue;
                    mf::hdu& h = m[s.cur]; int j = -1;
                    for (size_t q = 0; q < h.cols.size(); ++q) {
                        auto& c = h.cols[q];
                        if (c.code != 'D' || c.data.empty()) continue;
                        if (s.row ? (c.tdim.size() == 1 && c.tdim[0] > 1) : (c.tdim.size() == 1 || c.tdim.size() == 2)) { j = q; if (sim::chance(1, 2)) break; }
                    }
                    if (j < 0) continue;
                    auto& c = h.cols[j]; p.name = c.name;
                    bool two = s.row || c.tdim.size() == 2;
                    p.i = sim::work(s.row ? h.nrows : c.tdim.back());
                    uint32_t w = two ? c.tdim[0] : 1;
                    p.v.kind = two ? V1D : SD;
                    filler f{r, {w}}; with(p.v, f);
                    mf::column t; long n; with(p.v, to_column{t, false, n});
                    c.data.replace(p.i*w*8, w*8, t.data);
                    p.hdu = two; p.inplace = true; p.target = s.cur;
                    break; }
                case SET_ROW: if (!has_table(cls) || !m.empty() || s.row) continue; s.row = true; break;
                }
                p.after = m; p.st = s;
                return p;
            }
            p.kind = NSTEP; p.after = m;
            return p;
        }
    };

    // A request that cannot be satisfied in this state
    bool bad_step(planner& pl, step& p) {
        mf::file& m = pl.m; state& s = pl.s; int cls = pl.cls;
        if (m.empty() || s.cur < 0) return false;
        mf::hdu& h = m[s.cur]; bool hasc = h.table && !h.cols.empty();
        p = step(); p.after = m; p.st = s;
        for (int tries = 0; tries < 10; ++tries) {
            p.bad = 1 + sim::work(5);
            switch (p.bad) {
                case 1: if (!has_table(cls) || !hasc || !s.row) continue;
                    p.kind = COL; p.name = "WRONG"; make_column(p.v, pl.r, true, sim::chance(1, 2) && h.nrows > 1 ? h.nrows-1 : h.nrows+sim::work(1, 3)); return true;
                case 2: if (!has_image(cls) || pl.cur_empty()) continue;
                    p.kind = WRITE_IMG; make_image(p.v, pl.r); return true;
                case 3: if (!has_image(cls) || !has_update(cls) || h.table || h.naxes.size() != 2 || h.bitpix != -64) continue;
                    { p.kind = UPDATE_IMG; p.v.kind = V2D; uint32_t ny = h.naxes[1], nx = h.naxes[0]; 
                      if (nx != ny && sim::chance(1, 3)) std::swap(nx, ny); else if (sim::chance(1, 2)) ++ny; else ++nx;
                      with_image(p.v, filler{pl.r, {ny, nx}}); }
                    return true;
                case 4: if (!has_table(cls) || h.table || h.naxes.empty()) continue;
                    p.kind = COL; p.name = "WRONG"; make_column(p.v, pl.r, false, -1); return true;
                default: {
                    if (!has_table(cls) || !has_update(cls) || !hasc) continue;
                    auto& c = h.cols[sim::work(h.cols.size())];
                    if (c.code != 'D' || c.data.empty() || s.row || c.tdim.size() != 1 || c.tdim[0] < 2) continue;
                    p.kind = UPDATE_ELEM; p.name = c.name; p.i = c.tdim[0] + sim::work(3); p.v.kind = SD; p.v.sd = 1.25; return true; }
            }
        }
        return false;
    }

    // ---- executing the steps with the library
    template<typename O> struct obj { // (some members are ambiguous in the classes for both images and tables)
        static fits::output_image* img(fits::output_image* o) { return o; }
        static fits::output_image* img(...) { return nullptr; }
        static impl::fits_impl::output_file_base& base(fits::output_image& o) { return o; }
        static impl::fits_impl::output_file_base& base(fits::output_table& o) { return o; }
        static impl::fits_impl::output_file_base& base(fits::output_file& o) { return static_cast<fits::output_image&>(o); }
        static impl::fits_impl::output_file_base& base(fits::file& o) { return static_cast<fits::output_image&>(o); }
    };
    struct f_write { fits::output_image& o; template<typename V> void operator()(const V& v) const { o.write(v); } };
    struct f_update { fits::image& o; template<typename V> void operator()(const V& v) const { o.update(v); } };
    struct f_col { fits::output_table& o; const std::string& n; template<typename V> void operator()(const V& v) const { o.write_column(n, v); } };
    struct f_cols { fits::output_table& o; const std::string& n; const std::string& n2; const vec1d& v1; template<typename W> void operator()(const W& w) const { o.write_columns(n, v1, n2, w); } };
    struct f_upcol { fits::table& o; const std::string& n; template<typename V> void operator()(const V& v) const { o.update_column(n, v); } };

    void img_step(fits::output_image& o, const step& p) { if (p.kind == WRITE_IMG) with_image(p.v, f_write{o}); else o.write_empty(); }
    void img_step(...) { abort(); }
    void tab_step(fits::output_table& o, const step& p) {
        switch (p.kind) {
            case COL: with(p.v, f_col{o, p.name}); break;
            case COLS: with(p.v2, f_cols{o, p.name, p.name2, p.v.v1d}); break;
            case ALLOC: if (p.hdu) o.allocate_column<double>(p.name, p.i, p.hdu); else o.allocate_column<float>(p.name, p.i); break;
            case SET_ROW: o.set_format(fits::table_format::row_oriented); break;
        }
    }
    void uimg_step(fits::image& o, const step& p) { with_image(p.v, f_update{o}); }
    void utab_step(fits::table& o, const step& p) {
        switch (p.kind) {
            case UPDATE_COL: with(p.v, f_upcol{o, p.name}); break;
            case REMOVE_COL: o.remove_column(p.name); break;
            case UPDATE_ELEM:
                if (p.v.kind == SD) o.update_elements(p.name, p.v.sd, fits::at(p.i)); else o.update_elements(p.name, p.v.v1d, fits::at(p.i, _));
                break;
        }
    }
    template<typename O> void do_img(O& o, const step& p, std::true_type) { fits::output_image& x = o; img_step(x, p); }
    template<typename O> void do_tab(O& o, const step& p, std::true_type) { fits::output_table& x = o; tab_step(x, p); }
    template<typename O> void do_uimg(O& o, const step& p, std::true_type) { fits::image& x = o; uimg_step(x, p); }
    template<typename O> void do_utab(O& o, const step& p, std::true_type) { fits::table& x = o; utab_step(x, p); }
    template<typename O> void do_img(O&, const step&, std::false_type) { abort(); }
    template<typename O> void do_tab(O&, const step&, std::false_type) { abort(); }
    template<typename O> void do_uimg(O&, const step&, std::false_type) { abort(); }
    template<typename O> void do_utab(O&, const step&, std::false_type) { abort(); }
    template<typename O> void execute(O& o, const step& p) {
        impl::fits_impl::output_file_base& b = obj<O>::base(o);
        switch (p.kind) {
            case WRITE_IMG: case WRITE_EMPTY: do_img(o, p, bool_<std::is_base_of<fits::output_image,O>::value>()); break;
            case UPDATE_IMG: do_uimg(o, p, bool_<std::is_base_of<fits::image,O>::value>()); break;
            case COL: case COLS: case ALLOC: case SET_ROW: do_tab(o, p, bool_<std::is_base_of<fits::output_table,O>::value>()); break;
            case UPDATE_COL: case REMOVE_COL: case UPDATE_ELEM: do_utab(o, p, bool_<std::is_base_of<fits::table,O>::value>()); break;
            case REACH: b.reach_hdu(p.hdu); break;
            case KEY_SET: case KEY_ADD: {
                bool a = p.kind == KEY_ADD;
                switch (p.ktype) {
                    case 0: a ? b.add_keyword(p.name, p.num) : b.write_keyword(p.name, p.num); break;
                    case 1: a ? b.add_keyword(p.name, int_t(p.num)) : b.write_keyword(p.name, int_t(p.num)); break;
                    case 2: a ? b.add_keyword(p.name, p.text) : b.write_keyword(p.name, p.text); break;
                    default: { bool v = p.num != 0; a ? b.add_keyword(p.name, v) : b.write_keyword(p.name, v); break; }
                }
                break; }
            case KEY_DEL: b.remove_keyword(p.name); break;
            case HEADER: b.write_header(p.text); break;
            case REMOVE_HDU: b.remove_hdu(); break;
            case FLUSH: b.flush(); break;
            case FLUSH_BUF: b.flush_buffer(); break;
        }
    }
    std::string brief(const step& p) {
        std::string s = step_name[p.kind];
        switch (p.kind) { case COL: case COLS: case ALLOC: case UPDATE_COL: case REMOVE_COL: case KEY_SET: case KEY_ADD: case KEY_DEL: case UPDATE_ELEM: s += " "+p.name; break; case REACH: s += " "+std::to_string(p.hdu); break; }
        return s;
    }

    // ---- sessions ----------------------------------------------------------------------------------
    const char* NAME = "x.fits";
    struct session { int cls; std::vector<step> steps; mf::file before; };

    session plan(int cls, const mf::file* from, uint32_t maxsteps, bool bad = false) {
        planner pl(cls, sim::work(1000000));
        if (from) {
            pl.m = *from; if (!open_at(cls, pl.m, pl.s)) { pl.cls = cls = FILE_; open_at(FILE_, pl.m, pl.s); }
            pl.ncol = 50*(1+sim::work(1)); pl.nkey = 200;
        }
        session s; s.cls = cls; if (from) s.before = *from;
        uint32_t n = sim::chance(1, 3) ? sim::work(1, 2) : sim::work(1, maxsteps);
        if (has_table(cls) && sim::chance(1, 2)) {
            // mostly tables, often row-oriented
            if (!from && sim::chance(1, 2)) { pl.only = {SET_ROW}; step p = pl.next(false); if (p.kind != NSTEP) s.steps.push_back(p); }
            pl.only = {COL, COLS, COL, ALLOC, UPDATE_COL, UPDATE_COL, REMOVE_COL, UPDATE_ELEM, FLUSH, KEY_SET};
        }
        for (uint32_t i = 0; i < n; ++i) { step p = pl.next(false); if (p.kind == NSTEP) break; s.steps.push_back(p); }
        if (pl.m.empty()) { step p; p.kind = REACH; p.hdu = 0; pl.m.push_back(empty_hdu()); p.after = pl.m; s.steps.push_back(p); }
        else if (bad && sim::chance(1, 6)) { step p; if (bad_step(pl, p)) s.steps.push_back(p); }
        return s;
    }
    const mf::file& result(const session& s) { return s.steps.empty() ? s.before : s.steps.back().after; }

    // CFITSIO ignores some errors of the storage (known finding)
    const char* cls_(const char* c) { return cf::ignored ? "cfitsio-ignores-error" : c; }

    std::string check_file(const std::string& name, const mf::file& expected) {
        std::string b, err; mf::file g;
        if (!D::get(name, b)) return "the file does not exist";
        if (!mf::parse(b, g, err)) return err;
        return mf::compare(g, expected);
    }
    template<typename O> bool read_back(O& o, const mf::file& m, const state& s, std::string& what);
    // Run the steps. False if it failed and that was reported
    struct f05_t { int bad; }; f05_t* F5 = nullptr;
    template<typename O> bool run_session(const session& s) {
        uint64_t f0 = D::fired_any();
        const char* where = "opening";
        std::string w;
        try {
            D::arm();
            O o(NAME);
            D::disarm();
            for (auto& p : s.steps) {
                w = brief(p); where = w.c_str();
                sim::trace("%s", where);
                if (p.bad && F5) F5->bad = p.bad;
                D::arm(); execute(o, p); D::disarm();
                REQUIRE(!p.bad, cls_("invalid-accepted"), "'%s' is not possible (%d) but was not refused (%s)", brief(p).c_str(), p.bad, class_name[s.cls]);
                if (p.kind == FLUSH) {
                    sim::silent q; std::string e = check_file(NAME, p.after);
                    REQUIRE(e.empty(), cls_("flush-wrong"), "flush() returned normally but %s (%s)", e.c_str(), class_name[s.cls]);
                    sim::probe("flushes_checked");
                }
                // what was written can be read with the same object before it is flushed
                if (sim::work(4) == 1 && !p.after.empty() && p.st.cur >= 0) {
                    w += ", reading"; where = w.c_str(); std::string what;
                    bool ok = read_back(o, p.after, p.st, what);
                    sim::trace("read back: %s", what.c_str());
                    REQUIRE(ok, cls_("read-back"), "after '%s', %s with the same object fails (%s)", brief(p).c_str(), what.c_str(), class_name[s.cls]);
                }
            }
            where = "last flush";
            D::arm(); obj<O>::base(o).flush(); D::disarm();
            { sim::silent q; std::string e = check_file(NAME, result(s)); REQUIRE(e.empty(), cls_("flush-wrong"), "the last flush() returned normally but %s (%s)", e.c_str(), class_name[s.cls]); }
        } catch (const fits::exception& e) {
            D::disarm();
            if (F5 && F5->bad) sim::probe("invalid_request_reported");
            else REQUIRE(D::fired_any() > f0, cls_("unexpected-failure"), "'%s' failed but the storage did not: %s", where, fc::esc(e.what(), 300).c_str());
            sim::probe("failure_reported");
            return false;
        }
        { sim::silent q; std::string e = check_file(NAME, result(s)); REQUIRE(e.empty(), cls_("close-wrong"), "after flush() and close, %s (%s)", e.c_str(), class_name[s.cls]); }
        return true;
    }
    bool run_any(const session& s) {
        switch (s.cls) {
            case OUT_IMAGE: return run_session<fits::output_image>(s);
            case IMAGE: return run_session<fits::image>(s);
            case OUT_TABLE: return run_session<fits::output_table>(s);
            case TABLE: return run_session<fits::table>(s);
            case OUT_FILE: return run_session<fits::output_file>(s);
            default: return run_session<fits::file>(s);
        }
    }
    const int out_classes[] = {OUT_IMAGE, OUT_TABLE, OUT_FILE}, up_classes[] = {IMAGE, TABLE, FILE_};

    // ---- one-line functions -----------------------------------------------------------------------
    enum { L_WRITE, L_WRITE_HDR, L_TABLE, L_UPDATE_TABLE, L_UPDATE_HDU, L_FTABLE, L_UPDATE_FTABLE, NLINE };
    const char* line_name[] = {"write()", "write() with a header", "write_table()", "update_table()", "update_hdu()", "write_table() with ftable()", "update_table() with ftable()"};
    struct oneline { int kind; value v, v2; std::string hdr, name, name2; uint32_t hdu = 0; mf::file after; };
    struct l_write { const oneline& l; template<typename V> void operator()(const V& v) const { if (l.kind == L_WRITE) fits::write(NAME, v); else fits::write(NAME, v, l.hdr); } };
    struct l_table { const oneline& l; template<typename V> void operator()(const V& v) const { fits::write_table(NAME, l.name, l.v2.v1d, l.name2, v); } };
    // (names of the columns are those of the variables)
    struct l_ftable { const oneline& l; template<typename V> void operator()(const V& v) const {
        const V& second = v; const vec1d& first = l.v2.v1d;
        if (l.kind == L_UPDATE_FTABLE) { fits::update_table(NAME, ftable(second, first)); return; }
        fits::write_table(NAME, ftable(first, second)); back(v, bool_<meta::is_vec<V>::value>()); }
        template<typename V> void back(const V& v, std::false_type) const {}
        template<typename V> void back(const V& v, std::true_type) const {
            V second; vec1d first; bool ok;
            fits::read_table(NAME, ftable(first, second));
            { sim::silent q; V t = v; trimmed(t); ok = same(first, l.v2.v1d) && same(second, t); }
            REQUIRE(ok, cls_("line-wrong"), "read_table() with ftable() does not give what was written with write_table()"); }
        template<std::size_t N> static void trimmed(vec<N,std::string>& v) { for (auto& s : v.data) s = mf::trim(s); }
        template<typename V> static void trimmed(V&) {}
    };
    struct l_update { const oneline& l; template<typename V> void operator()(const V& v) const { fits::update_table(NAME, l.name, v, l.name2, l.v2.v1d); } };
    struct l_uphdu { const oneline& l; template<typename V> void operator()(const V& v) const { fits::update_hdu(NAME, v, l.hdu); } };
    bool plan_line(oneline& l, int kind, const mf::file& m0) {
        mf::file m = m0; rng r(sim::work(1000000));
        l.kind = kind;
        switch (kind) {
            case L_WRITE: case L_WRITE_HDR: {
                m.assign(1, empty_hdu()); make_image(l.v, r); with_image(l.v, to_image{m[0]});
                if (kind == L_WRITE_HDR) {
                    uint32_t n = sim::work(60);
                    for (uint32_t j = 0; j < n; ++j) { std::string nm = "H"+std::to_string(j), v = std::to_string(j*7); l.hdr += mf::card(nm, v); m[0].keys.push_back({nm, mf::canon(v)}); }
                    std::string e = "END"; e.resize(80, ' '); l.hdr += e;
                }
                break; }
            case L_TABLE: case L_FTABLE: {
                m.clear(); state s; s.cur = -1; create_table(m, s);
                l.name = "FIRST"; l.name2 = "SECOND"; l.v2.kind = V1D; with(l.v2, filler{r, {len()}}); make_column(l.v, r, false, -1);
                add_column(m, s, l.name, l.v2); add_column(m, s, l.name2, l.v);
                break; }
            case L_UPDATE_TABLE: case L_UPDATE_FTABLE: {
                state s; if (m.empty() || !open_at(TABLE, m, s)) return false;
                mf::hdu& h = m[s.cur]; if (h.cols.empty() || h.cols.size() > 7) return false;
                long nr = s.row ? h.nrows : -1;
                l.name = "FIRST";
                if (kind == L_UPDATE_FTABLE) {
                    l.name = "SECOND"; l.name2 = "FIRST";
                    make_column(l.v, r, s.row, nr); l.v2.kind = V1D; with(l.v2, filler{r, {s.row ? uint32_t(nr) : len()}});
                    for (auto* n : {&l.name, &l.name2}) for (size_t j = 0; j < h.cols.size(); ++j) if (h.cols[j].name == *n) { h.cols.erase(h.cols.begin()+j); break; }
                    add_column(m, s, l.name, l.v); add_column(m, s, l.name2, l.v2);
                    break;
                }
                if (h.cols.size() > 1 && sim::chance(2, 3)) { uint32_t j = sim::work(h.cols.size()); l.name = h.cols[j].name; h.cols.erase(h.cols.begin()+j); }
                make_column(l.v, r, s.row, nr);
                l.name2 = "SECOND"; l.v2.kind = V1D; with(l.v2, filler{r, {s.row ? uint32_t(nr) : len()}});
                add_column(m, s, l.name, l.v); add_column(m, s, l.name2, l.v2);
                break; }
            default: {
                state s; if (m.empty() || !open_at(IMAGE, m, s)) return false;
                l.hdu = sim::work(m.size());
                mf::hdu& h = m[l.hdu];
                if (h.table || h.naxes.size() != 2 || (h.bitpix != -64 && h.bitpix != -32)) return false;
                l.v.kind = h.bitpix == -64 ? V2D : V2F;
                filler f{r, {uint32_t(h.naxes[1]), uint32_t(h.naxes[0])}};
                with_image(l.v, f); with_image(l.v, to_image{h});
            }
        }
        l.after = m;
        return true;
    }
    bool run_line(const oneline& l) {
        uint64_t f0 = D::fired_any();
        try {
            D::arm();
            switch (l.kind) {
                case L_WRITE: case L_WRITE_HDR: with_image(l.v, l_write{l}); break;
                case L_TABLE: with(l.v, l_table{l}); break;
                case L_UPDATE_TABLE: with(l.v, l_update{l}); break;
                case L_FTABLE: case L_UPDATE_FTABLE: with(l.v, l_ftable{l}); break;
                default: with_image(l.v, l_uphdu{l}); break;
            }
            D::disarm();
        } catch (const fits::exception& e) {
            D::disarm();
            REQUIRE(D::fired_any() > f0, cls_("unexpected-failure"), "%s failed but the storage did not: %s", line_name[l.kind], fc::esc(e.what(), 300).c_str());
            sim::probe("failure_reported");
            return false;
        }
        sim::silent q; std::string e = check_file(NAME, l.after);
        REQUIRE(e.empty(), cls_("line-wrong"), "%s returned normally but %s", line_name[l.kind], e.c_str());
        return true;
    }

    // (that errors of close() are ignored is documented; lseek() on a regular file and interrupted file operations do not fail)
    const uint32_t write_faults = D::bit(D::open_fail)|D::bit(D::read_eio)|D::bit(D::read_short)|D::bit(D::write_eio)|D::bit(D::write_short)|D::bit(D::disk_full)
        |D::bit(D::sync_fail)|D::bit(D::stat_fail)|D::bit(D::remove_fail)|D::bit(D::trunc_fail);

    void f05() {
        D::wipe();
        // What is there before
        mf::file start; uint32_t old = sim::work(3);
        std::vector<session> ss; oneline l; l.kind = -1;
        if (old == 1) D::put(NAME, fc::blob(sim::work(20000), 3));
        if (old == 2) { session s = plan(out_classes[sim::work(3)], nullptr, 8); start = result(s); D::put(NAME, mf::write(start)); }
        uint32_t what = sim::work(3);
        if (what == 0 || (what == 2 && start.empty())) {
            bool two = sim::chance(1, 2);
            ss.push_back(plan(out_classes[sim::work(3)], nullptr, 8, !two));
            if (two) ss.push_back(plan(up_classes[sim::work(3)], &result(ss[0]), 8, true));
        } else if (what == 2) {
            ss.push_back(plan(up_classes[sim::work(3)], &start, 8, true));
        } else {
            for (int i = 0; i < 4 && l.kind < 0; ++i) { oneline t; if (plan_line(t, sim::work(NLINE), start)) l = t; }
            if (l.kind < 0) plan_line(l, L_WRITE, start);
        }
        sim::describe("before: %s;", old == 0 ? "nothing" : old == 1 ? "garbage" : "FITS");
        for (auto& s : ss) { sim::describe(" %s:", class_name[s.cls]); for (auto& p : s.steps) sim::describe(" %s,", step_name[p.kind]); }
        if (l.kind >= 0) sim::describe(" %s", line_name[l.kind]);
        value again; { rng r(sim::work(1000)); again.kind = V2D; with_image(again, filler{r, {sim::work(1, 60), sim::work(1, 20)}}); }
        D::allow(write_faults);
        sim::options o; o.io = true; o.max_steps = 100000000; o.max_io = 5000000;
        cf::start();
        F5 = sim::shared<f05_t>();
        sim::outcome r = sim::process(o, [&]() {
            bool ok = true;
            for (auto& s : ss) { ok = run_any(s); if (!ok) break; }
            if (l.kind >= 0) ok = run_line(l);
            REQUIRE(D::open_files() == 0, cls_("file-left-open"), "%d files are still open", D::open_files());
            if (!ok) {
                // Once the storage works again, everything works again
                try { fits::write(NAME, again.v2d); }
                catch (const fits::exception& e) { REQUIRE(false, cls_("no-recovery"), "after a failure, writing the file again fails: %s", fc::esc(e.what(), 300).c_str()); }
                sim::silent q; mf::file m(1, empty_hdu()); with_image(again, to_image{m[0]});
                std::string e = check_file(NAME, m);
                REQUIRE(e.empty(), cls_("recovery-wrong"), "after a failure, writing the file again returns normally but %s", e.c_str());
            }
        });
        REQUIRE(!cf::died_inside(r), "cfitsio-ignores-error", "killed by signal %d in CFITSIO when the storage failed", r.code);
        if (fc::reported(r) && F5->bad) sim::probe("invalid_request_reported");
        else if (fc::reported(r)) REQUIRE(D::fired_any(), "unexpected-exit", "the program ended with exit(%d) but the storage did not fail", r.code);
        REQUIRE(r.kind != sim::outcome::crashed, "abnormal-end", "abnormal end %s", r.what.c_str());
        if (D::fired_any() + D::benign()) sim::nontrivial();
    }
    sim::property_t p05("F05", f05, "A run writes or updates one FITS file with the one-line functions or in one or two sessions of 1-8 operations while the storage fails at random; "
        "non-trivial: at least one storage fault fired");

    // ---- reading -----------------------------------------------------------------------------------
    struct num { int64_t i; double d; bool real; };
    num dec(char code, const char* p) {
        unsigned char b[8]; int w = code == 'D' || code == 'K' ? 8 : code == 'E' || code == 'J' ? 4 : code == 'I' ? 2 : 1;
        for (int k = 0; k < w; ++k) b[k] = p[w-1-k];
        num r{0, 0, false};
        switch (code) {
            case 'D': memcpy(&r.d, b, 8); r.real = true; break;
            case 'E': { float f; memcpy(&f, b, 4); r.d = f; r.real = true; break; }
            case 'K': memcpy(&r.i, b, 8); break;
            case 'J': { int32_t x; memcpy(&x, b, 4); r.i = x; break; }
            case 'I': { int16_t x; memcpy(&x, b, 2); r.i = x; break; }
            case 'S': r.i = int8_t(b[0]^0x80); break;
            default: r.i = b[0];
        }
        return r;
    }
    template<typename T> T get(const num& n) { return n.real ? T(n.d) : T(n.i); }
    char image_code(const mf::hdu& h) { switch (h.bitpix) { case -64: return 'D'; case -32: return 'E'; case 64: return 'K'; case 32: return 'J'; case 16: return 'I'; default: return h.sbyte ? 'S' : 'B'; } }
    int code_size(char c) { return c == 'D' || c == 'K' ? 8 : c == 'E' || c == 'J' ? 4 : c == 'I' ? 2 : 1; }

    // Data that can be read: dimensions and values
    struct content {
        std::vector<uint64_t> d; char code; const std::string* data; std::vector<std::string> text;
        uint64_t n() const { uint64_t p = 1; for (auto x : d) p *= x; return p; }
    };
    content column_content(const mf::hdu& h, const mf::column& c, bool row) {
        content r; r.code = c.code; r.data = &c.data;
        if (row) r.d.push_back(h.nrows);
        bool str = c.code == 'A';
        if (!(row && !str && c.tdim.size() == 1 && c.tdim[0] == 1))
            for (size_t i = c.tdim.size(); i > (str ? 1 : 0); --i) r.d.push_back(c.tdim[i-1]);
        if (str) {
            if (r.d.empty()) r.d.push_back(1);
            long w = c.tdim[0];
            for (uint64_t i = 0; i < r.n(); ++i) { std::string s = w ? c.data.substr(i*w, w) : ""; s = s.substr(0, s.find('\0')); r.text.push_back(mf::trim(s)); }
        }
        return r;
    }
    content image_content(const mf::hdu& h) {
        content r; r.code = image_code(h); r.data = &h.data;
        for (size_t i = h.naxes.size(); i > 0; --i) r.d.push_back(h.naxes[i-1]);
        return r;
    }
    template<std::size_t N, typename T> std::string differ(const vec<N,T>& v, const content& c) {
        char b[160]; uint64_t n = 1;
        for (std::size_t i = 0; i < N; ++i) { n *= v.dims[i]; if (v.dims[i] != c.d[i]) { snprintf(b, 160, "dimension %zu is %zu instead of %llu", i, size_t(v.dims[i]), (unsigned long long)c.d[i]); return b; } }
        if (n != v.data.size()) { snprintf(b, 160, "there are %zu values for %llu elements", v.data.size(), (unsigned long long)n); return b; }
        for (uint64_t i = 0; i < n; ++i) {
            T e = get<T>(dec(c.code, c.data->data() + i*code_size(c.code))); T g = (T)v.data[i];
            if (!same(g, e)) { snprintf(b, 160, "value %llu is %.17g instead of %.17g", (unsigned long long)i, double(g), double(e)); return b; }
        }
        return "";
    }
    template<std::size_t N> std::string differ(const vec<N,std::string>& v, const content& c) {
        char b[200]; uint64_t n = 1;
        for (std::size_t i = 0; i < N; ++i) { n *= v.dims[i]; if (v.dims[i] != c.d[i]) { snprintf(b, 160, "dimension %zu is %zu instead of %llu", i, size_t(v.dims[i]), (unsigned long long)c.d[i]); return b; } }
        if (n != v.data.size()) return "wrong number of values";
        for (uint64_t i = 0; i < n; ++i) if (v.data[i] != c.text[i]) { snprintf(b, 200, "value %llu is '%s' instead of '%s'", (unsigned long long)i, v.data[i].c_str(), c.text[i].c_str()); return b; }
        return "";
    }
    // Types in which such data can be read without narrowing
    enum { T_D, T_F, T_I, T_U, T_H, T_C, T_B, T_S, NT };
    bool convertible(char code, int t) {
        switch (code) {
            case 'D': return t == T_D; case 'E': return t == T_D || t == T_F; case 'K': case 'J': return t == T_D || t == T_F || t == T_I || t == T_U;
            case 'I': return t == T_D || t == T_F || t == T_I || t == T_H; case 'S': return t == T_C || t == T_D || t == T_I; case 'B': return t == T_B || t == T_D || t == T_I; default: return t == T_S;
        }
    }
    bool never(char code, int t) { return (code == 'A') != (t == T_S) || ((code == 'D' || code == 'E') && (t == T_I || t == T_U || t == T_H || t == T_C || t == T_B)) || (code == 'D' && t == T_F) || (code == 'K' && (t == T_H || t == T_C || t == T_B)); }

    enum verdict { GOOD, REPORTED };
    // How one image or one column is read (f: reads in the given vector, returns false if it says that it is not possible)
    template<typename F, std::size_t N> struct by_type {
        template<typename T> static bool one(const F& f, const content& c, bool expect_ok, std::string& why) {
            vec<N,T> v; f.before(v);
            if (!f(v)) return false;
            sim::silent q;
            why = expect_ok ? differ(v, c) : "the data cannot be read in this type";
            return true;
        }
        static bool go(int t, const F& f, const content& c, bool ok, std::string& why) {
            switch (t) {
                case T_D: return one<double>(f, c, ok, why); case T_F: return one<float>(f, c, ok, why); case T_I: return one<int_t>(f, c, ok, why); case T_U: return one<uint_t>(f, c, ok, why);
                case T_H: return one<short>(f, c, ok, why); case T_C: return one<char>(f, c, ok, why); case T_B: return one<bool>(f, c, ok, why); default: return strings(f, c, ok, why, bool_<F::text>());
            }
        }
        static bool strings(const F& f, const content& c, bool ok, std::string& why, std::true_type) { return one<std::string>(f, c, ok, why); }
        static bool strings(const F& f, const content& c, bool ok, std::string& why, std::false_type) { return false; }
    };
    template<typename F> bool read_as(const F& f, int t, uint32_t dim, const content& c, bool ok, std::string& why) {
        if (dim == 1) return by_type<F,1>::go(t, f, c, ok, why);
        if (dim == 2) return by_type<F,2>::go(t, f, c, ok, why);
        return by_type<F,3>::go(t, f, c, ok, why);
    }
    struct dirty { // vectors that are not empty before reading
        bool on; template<std::size_t N, typename T> void before(vec<N,T>& v) const { if (on) { for (auto& d : v.dims) d = 2; v.resize(); } }
    };
    struct r_image : dirty { enum { text = 0 }; fits::input_image& o; r_image(fits::input_image& x, bool d) : dirty{d}, o(x) {} template<typename V> bool operator()(V& v) const { o.read(v); return true; } };
    struct r_line : dirty { enum { text = 0 }; int hdu; std::string* hdr; r_line(int h, std::string* s, bool d) : dirty{d}, hdu(h), hdr(s) {}
        template<typename V> bool operator()(V& v) const {
            if (hdu < 0) { if (hdr) fits::read(NAME, v, *hdr); else fits::read(NAME, v); } else { if (hdr) fits::read_hdu(NAME, v, hdu, *hdr); else fits::read_hdu(NAME, v, hdu); }
            return true; } };
    struct r_col : dirty { enum { text = 1 }; fits::input_table& o; const std::string& n; int mode; r_col(fits::input_table& x, const std::string& s, int m, bool d) : dirty{d}, o(x), n(s), mode(m) {}
        template<typename V> bool operator()(V& v) const {
            switch (mode) {
                case 0: return bool(o.read_column(n, v));
                case 1: return bool(o.read_column(fits::missing, n, v));
                case 2: return bool(o.read_column(fits::narrow, n, v));
                case 4: return bool(o.read_column(fits::flatten, n, v));
                case 5: return bool(o.read_column(fits::dim_promote, n, v));
                case 6: return bool(o.read_column(fits::permissive, n, v));
                case 7: return bool(o.read_column(fits::dim_promote|fits::flatten, n, v));
                default: { vec1d w; o.read_columns(fits::missing, "NOSUCHCOL", w, n, v); return true; }
            } } };
    struct r_table : dirty { enum { text = 1 }; const std::string& n; int mode; r_table(const std::string& s, int m, bool d) : dirty{d}, n(s), mode(m) {}
        template<typename V> bool operator()(V& v) const {
            vec1d w;
            if (mode == 0) fits::read_table(NAME, n, v); else fits::read_table_loose(NAME, "NOSUCHCOL", w, n, v);
            return true; } };

    std::string header_differs(const std::string& hdr, const mf::hdu& h) {
        size_t at = 0;
        for (auto& k : h.keys) {
            std::string c;
            if (k.first.size() > 8) c = "HIERARCH " + k.first + " ="; else { c = k.first; c.resize(8, ' '); c += "="; }
            while (at < hdr.size() && hdr.compare(at, c.size(), c) != 0) at += 80;
            if (at >= hdr.size()) return "keyword " + k.first + " is missing";
            if (mf::canon(hdr.substr(at + c.size(), 80 - c.size())) != k.second) return "keyword " + k.first + " has a wrong value";
            at += 80;
        }
        return hdr.size() % 80 ? "the header is truncated" : "";
    }

    struct view { // an object from which something can be read, and where it is
        fits::input_image* pi = nullptr; fits::input_table* pt = nullptr; impl::fits_impl::file_base* pb = nullptr;
        state s;
        impl::fits_impl::file_base& base() { return *pb; }
        fits::input_image* image() { return pi; }
        fits::input_table* table() { return pt; }
    };
    struct readers : view {
        std::unique_ptr<fits::input_image> i; std::unique_ptr<fits::input_table> t; std::unique_ptr<fits::input_file> f;
        void close() { i.reset(); t.reset(); f.reset(); pi = nullptr; pt = nullptr; pb = nullptr; }
        bool any() { return pb != nullptr; }
        bool open(int cls, const mf::file& m) {
            if (!open_at(cls, m, s)) return false;
            if (cls == IMAGE) { i.reset(new fits::input_image(NAME)); pi = i.get(); pb = i.get(); }
            else if (cls == TABLE) { t.reset(new fits::input_table(NAME)); pt = t.get(); pb = t.get(); }
            else { f.reset(new fits::input_file(NAME)); pi = f.get(); pt = f.get(); pb = f.get(); }
            return true;
        }
    };

    // Read something at random and compare it with what the file contains. 'ops' restricts the choice for repeatability after errors
    // Returns REPORTED if the library reported a failure
    verdict random_read(view& R, const mf::file& m, bool truncated, bool& invalid, std::string& what) {
        std::string why; invalid = false;
        const mf::hdu& h = m[R.s.cur];
        bool dirt = sim::chance(1, 3);
        char b[300];
        for (int tries = 0; tries < 20; ++tries) { switch (sim::work(11)) {
            case 0: case 1: { // image
                fits::input_image* o = R.image();
                if (!o || h.table || h.naxes.empty()) continue;
                content c = image_content(h);
                int ty = sim::work(T_S); uint32_t dim = sim::chance(1, 6) ? sim::work(1, 3) : h.naxes.size();
                bool ok = dim == h.naxes.size() && convertible(c.code, ty);
                if (!ok && dim == h.naxes.size() && !never(c.code, ty)) continue;
                what = "reading an image"; invalid = !ok;
                if (!read_as(r_image(*o, dirt), ty, dim, c, ok, why)) return REPORTED;
                break; }
            case 2: { // part of an image
                fits::input_image* o = R.image();
                if (!o || h.table || h.naxes.size() != 2 || (h.bitpix != -64 && h.bitpix != -32)) continue;
                uint32_t ny = h.naxes[1], nx = h.naxes[0];
                uint32_t y0 = sim::work(ny), y1 = y0 + sim::work(ny-y0), x0 = sim::work(nx), x1 = x0 + sim::work(nx-x0);
                uint32_t out = sim::chance(1, 6) ? 1 + sim::work(3) : 0, mode = sim::work(5);
                vec2d v; what = "reading a part of an image"; invalid = out;
                if (dirt) v.resize(3, 4);
                switch (mode) {
                    case 0: y0 = 0; y1 = ny-1; if (out) { x1 += nx; } o->read_subset(v, _, x0-_-x1); break;
                    case 1: y1 = y0; if (out) y0 = y1 = ny + out; o->read_subset(v, y0, x0-_-x1); break;
                    case 2: y0 = 0; x1 = nx-1; if (out) y1 = ny - 1 + out; o->read_subset(v, _-y1, x0-_); break;
                    case 3: y1 = ny-1; x0 = x1; if (out) x0 = x1 = nx + out; o->read_subset(v, y0-_, x0); break;
                    default: if (out) y1 = ny - 1 + out; o->read_subset(v, y0-_-y1, x0-_-x1); break;
                }
                if (out) { why = "it is outside of the image"; break; }
                sim::silent q;
                content c; std::string data; int w = h.bitpix == -64 ? 8 : 4;
                for (uint32_t y = y0; y <= y1; ++y) data.append(h.data, (uint64_t(y)*nx + x0)*w, (x1-x0+1)*w);
                c.code = w == 8 ? 'D' : 'E'; c.data = &data; c.d = {y1-y0+1, x1-x0+1};
                why = differ(v, c);
                break; }
            case 3: { // one pixel
                fits::input_image* o = R.image();
                if (!o || h.table || h.naxes.empty() || h.bitpix == 8) continue;
                content c = image_content(h);
                vec1u p(c.d.size()); uint64_t at = 0; bool out = sim::chance(1, 6);
                for (size_t k = 0; k < c.d.size(); ++k) { p[k] = sim::work(c.d[k]); at = at*c.d[k] + p[k]; }
                if (out) { uint32_t k = sim::work(c.d.size()); p[k] = c.d[k] + sim::work(3); }
                what = "reading a pixel"; invalid = out;
                double g = o->read_pixel(p);
                double e = out ? 0 : get<double>(dec(c.code, c.data->data() + at*code_size(c.code)));
                if (out) why = "it is outside of the image"; else if (!same(g, e)) { snprintf(b, 300, "it is %.17g instead of %.17g", g, e); why = b; }
                break; }
            case 4: { // geometry
                what = "asking for the geometry";
                uint_t n = R.base().hdu_count(), c = R.base().current_hdu();
                if (n != m.size() && !truncated) { snprintf(b, 300, "there are %zu extensions instead of %zu", size_t(n), m.size()); why = b; break; }
                if (c != uint_t(R.s.cur)) { snprintf(b, 300, "current extension is %zu instead of %d", size_t(c), R.s.cur); why = b; break; }
                auto ty = R.base().hdu_type();
                auto et = h.table ? fits::table_hdu : h.naxes.empty() ? fits::empty_hdu : fits::image_hdu;
                if (ty != et) { snprintf(b, 300, "extension type is %d instead of %d", int(ty), int(et)); why = b; break; }
                if (!h.table) {
                    vec1u d = R.base().image_dims(); uint_t na = R.base().axis_count();
                    sim::silent q; content cc = image_content(h);
                    bool okd = d.size() == cc.d.size() && na == cc.d.size(); for (size_t k = 0; okd && k < cc.d.size(); ++k) okd = d[k] == cc.d[k];
                    if (!okd) why = "wrong dimensions of image";
                }
                break; }
            case 5: { // header
                what = "reading the header";
                std::string hdr = R.base().read_header();
                sim::silent q; why = header_differs(hdr, h);
                break; }
            case 6: { // keywords
                std::string name = "NOSUCH", e; bool has = !h.keys.empty() && sim::chance(4, 5);
                if (has) { uint32_t j = sim::work(h.keys.size()); name = h.keys[j].first; for (auto& k : h.keys) if (k.first == name) { e = k.second; break; } }
                bool str = has && e[0] == '\'';
                if (str) e = mf::trim(e.substr(1, e.size()-2));
                uint32_t mode = sim::work(4); what = "reading keyword " + name;
                if (mode == 0) { bool g = R.base().has_keyword(name); if (!g && has) return REPORTED; if (g && !has) why = "it exists"; invalid = !g; break; }
                if (mode == 1) {
                    std::string g = "before";
                    bool r = R.base().read_keyword(name, g);
                    if (!r) { if (g != "before") { why = "false was returned but the value was changed to '" + fc::esc(g) + "'"; break; } if (has) return REPORTED; invalid = true; break; }
                    if (!has) why = "it exists"; else if (str ? g != e : mf::canon(g) != e) why = "it is '" + g + "' instead of '" + e + "'";
                } else if (mode == 3) {
                    int_t g = -987654321; double x = has && !str ? atof(e.c_str()) : 0; bool whole = has && !str && x == floor(x);
                    bool r = R.base().read_keyword(name, g);
                    if (!r) { if (g != -987654321) { why = "false was returned but the value was changed"; break; } if (whole && name[0] == 'H') return REPORTED; invalid = true; break; } // (it may be written as a real number)
                    if (!has || str) why = has ? "it is not a number" : "it exists"; else if (!whole || double(g) != x) why = "it is " + std::to_string(g) + " instead of " + e;
                } else {
                    double g = 1e99;
                    bool r = R.base().read_keyword(name, g);
                    if (!r) { if (g != 1e99) { why = "false was returned but the value was changed"; break; } if (has && !str) return REPORTED; invalid = true; break; }
                    if (!has || str) { if (!has) why = "it exists"; } else if (mf::canon_num(g) != e) why = "it is " + mf::canon_num(g) + " instead of " + e;
                }
                break; }
            case 7: { // information on columns
                fits::input_table* o = R.table();
                if (!o || !h.table) continue;
                what = "asking for the columns";
                auto v = o->read_columns_info();
                sim::silent q;
                if (v.size() != h.cols.size()) { snprintf(b, 300, "there are %zu columns instead of %zu", size_t(v.size()), h.cols.size()); why = b; break; }
                for (size_t k = 0; k < h.cols.size() && why.empty(); ++k) {
                    auto& c = h.cols[k]; std::vector<uint64_t> d; bool strc = c.code == 'A';
                    if (v[k].name != c.name) why = "column " + c.name + " is named " + v[k].name;
                    if (R.s.row) d.push_back(h.nrows);
                    for (size_t z = c.tdim.size(); z > (strc ? 1 : 0); --z) d.push_back(c.tdim[z-1]);
                    if (strc && c.tdim.size() == 1) d.push_back(1);
                    bool okd = d.size() == v[k].dims.size(); for (size_t z = 0; okd && z < d.size(); ++z) okd = d[z] == v[k].dims[z];
                    if (!okd) why = "wrong dimensions of column " + c.name;
                    if (strc && v[k].length != uint_t(c.tdim[0])) why = "wrong length of the strings of " + c.name;
                    auto ty = v[k].type; typedef fits::column_info ci;
                    bool okt = c.code == 'A' ? ty == ci::string : c.code == 'D' ? ty == ci::float_double : c.code == 'E' ? ty == ci::float_simple : (c.code == 'K' || c.code == 'J' || c.code == 'I') ? ty == ci::integer : (ty == ci::byte || ty == ci::boolean);
                    if (!okt) why = "wrong type of column " + c.name;
                }
                break; }
            case 8: case 9: { // columns
                fits::input_table* o = R.table();
                if (!o || !h.table || h.cols.empty()) continue;
                auto& c = h.cols[sim::work(h.cols.size())];
                content cc = column_content(h, c, R.s.row);
                std::string name = c.name; uint32_t mode = sim::work(8);
                if (sim::chance(1, 2)) for (auto& ch : name) ch = tolower(ch);
                if (sim::chance(1, 10)) { // a column that does not exist
                    what = "reading a column that does not exist"; invalid = true; name = "NOSUCH"; vec1d v = {1.5, 2.5};
                    if (mode != 1) { if (!o->read_column(name, v)) return REPORTED; why = "nothing was reported"; break; }
                    if (!o->read_column(fits::missing, name, v)) why = "it was reported although missing columns are allowed";
                    else if (v.size() != 2 || v[0] != 1.5) why = "the value changed";
                    invalid = false;
                    break;
                }
                int ty = sim::work(NT); uint32_t dim = sim::chance(1, 8) || mode >= 4 ? sim::work(1, 3) : cc.d.size();
                // the dimensions can be adjusted if this is asked for
                if (dim == 1 && cc.d.size() > 1 && c.code != 'A' && (mode == 4 || mode >= 6)) { sim::probe("columns_flattened"); cc.d.assign(1, cc.n()); }
                if (dim > cc.d.size() && dim <= 3 && mode >= 5) { sim::probe("columns_promoted"); while (cc.d.size() < dim) cc.d.insert(cc.d.begin(), 1); }
                bool ok = dim == cc.d.size() && convertible(c.code, ty);
                if (dim < 1 || dim > 3) continue;
                if (mode == 2 && c.code == 'K' && ty == T_H) { // may be too big
                    what = "reading column " + c.name + " in a smaller type"; invalid = true; vec<1,short> v; if (dim != 1 || cc.d.size() != 1) continue;
                    if (!o->read_column(fits::narrow, name, v)) return REPORTED;
                    why = differ(v, cc);
                    break;
                }
                if (!ok && dim == cc.d.size() && (!never(c.code, ty) || mode == 2 || mode == 6)) continue;
                if (!ok && (mode == 3 || dim != cc.d.size()) && (c.code == 'A' || mode == 3)) continue;
                what = "reading column " + c.name; invalid = !ok;
                if (!read_as(r_col(*o, name, mode, dirt), ty, dim, cc, ok, why)) return REPORTED;
                break; }
            default: { // elements of a column
                fits::input_table* o = R.table();
                if (!o || !h.table || h.cols.empty()) continue;
                auto& c = h.cols[sim::work(h.cols.size())];
                content cc = column_content(h, c, R.s.row);
                if (c.code == 'A' || c.code == 'S' || c.code == 'B' || cc.n() == 0 || (R.s.row && c.tdim.size() == 1 && c.tdim[0] == 1)) continue;
                what = "reading elements of column " + c.name;
                if (cc.d.size() == 1) {
                    uint32_t k = sim::work(cc.d[0]); double v;
                    o->read_elements(c.name, v, fits::at(k));
                    double e = get<double>(dec(c.code, c.data.data() + k*code_size(c.code)));
                    if (!same(v, e)) { snprintf(b, 300, "element %u is %.17g instead of %.17g", k, v, e); why = b; }
                } else if (cc.d.size() == 2) {
                    uint32_t k = sim::work(cc.d[0]); vec1d v; std::string data(c.data, k*cc.d[1]*code_size(c.code), cc.d[1]*code_size(c.code));
                    o->read_elements(c.name, v, fits::at(k, _));
                    content e; e.code = c.code; e.data = &data; e.d = {cc.d[1]};
                    why = differ(v, e);
                } else continue;
                break; }
            }
            break;
        }
        if (!why.empty()) { sim::silent q; REQUIRE(false, cls_(invalid ? "invalid-accepted" : "read-wrong"), "%s (extension %d): %s", what.c_str(), R.s.cur, why.c_str()); }
        return GOOD;
    }

    // One call of the one-line functions
    verdict random_line(const mf::file& m, bool truncated, std::string& what) {
        std::string why; char b[300]; state s; bool dirt = sim::chance(1, 3);
        for (int tries = 0; tries < 20; ++tries) { switch (sim::work(7)) {
            case 0: case 1: case 2: { // images
                bool first = sim::work(2) == 0;
                if (!open_at(IMAGE, m, s)) continue;
                if (!first) s.cur = sim::work(m.size());
                const mf::hdu& h = m[s.cur]; if (h.table || h.naxes.empty()) continue;
                content c = image_content(h); int ty = sim::work(T_S); if (!convertible(c.code, ty)) continue;
                std::string hdr; bool wh = sim::chance(1, 2);
                what = first ? "read()" : "read_hdu()";
                if (!read_as(r_line(first ? -1 : s.cur, wh ? &hdr : nullptr, dirt), ty, h.naxes.size(), c, true, why)) return REPORTED;
                if (wh && why.empty()) { sim::silent q; why = header_differs(hdr, h); }
                break; }
            case 3: { // headers
                uint32_t k = sim::work(m.size()); bool first = sim::work(2) == 0; if (first) k = 0;
                what = "read_header()";
                std::string hdr = first ? fits::read_header(NAME) : fits::read_header_hdu(NAME, k);
                sim::silent q; why = header_differs(hdr, m[k]);
                break; }
            case 4: { // dimensions
                if (!open_at(IMAGE, m, s)) continue;
                content c = image_content(m[s.cur]);
                what = "file_dimensions()";
                vec1u d = fits::file_dimensions(NAME); uint_t na = fits::file_axes(NAME);
                bool okd = d.size() == c.d.size() && na == c.d.size(); for (size_t k = 0; okd && k < c.d.size(); ++k) okd = d[k] == c.d[k];
                if (!okd) why = "wrong dimensions of image";
                break; }
            case 5: { // columns
                if (!open_at(TABLE, m, s)) continue;
                what = "read_table_columns()";
                auto v = sim::chance(1, 2) ? fits::read_table_columns(NAME) : fits::read_table_columns(NAME, s.cur);
                if (v.size() != m[s.cur].cols.size()) { snprintf(b, 300, "there are %zu columns instead of %zu", size_t(v.size()), m[s.cur].cols.size()); why = b; break; }
                for (size_t k = 0; k < v.size(); ++k) if (v[k].name != m[s.cur].cols[k].name) why = "wrong name of column " + v[k].name;
                break; }
            default: { // tables
                if (!open_at(TABLE, m, s) || m[s.cur].cols.empty()) continue;
                auto& c = m[s.cur].cols[sim::work(m[s.cur].cols.size())];
                content cc = column_content(m[s.cur], c, s.row); int ty = sim::work(NT);
                if (!convertible(c.code, ty) || cc.d.size() > 3) continue;
                what = "read_table()";
                if (!read_as(r_table(c.name, sim::work(2), dirt), ty, cc.d.size(), cc, true, why)) return REPORTED;
                break; }
            }
            break;
        }
        if (!why.empty()) { sim::silent q; REQUIRE(false, cls_("read-wrong"), "%s: %s", what.c_str(), why.c_str()); }
        return GOOD;
    }

    inline fits::input_image* p_image(fits::input_image* o) { return o; } inline fits::input_image* p_image(void*) { return nullptr; }
    inline fits::input_table* p_table(fits::input_table* o) { return o; } inline fits::input_table* p_table(void*) { return nullptr; }
    template<typename O> bool read_back(O& o, const mf::file& m, const state& s, std::string& what) {
        view R; R.pi = p_image(&o); R.pt = p_table(&o); R.pb = &obj<O>::base(o); R.s = s;
        if (!R.pi && !R.pt) return true;
        bool invalid = false;
        try { if (random_read(R, m, false, invalid, what) == REPORTED && !invalid) return false; }
        catch (const fits::exception& e) { if (!invalid) { what += ": "; what += fc::esc(e.what(), 300); return false; } }
        sim::probe("read_back");
        return true;
    }

    mf::file some_file() {
        mf::file m = result(plan(out_classes[sim::work(3)], nullptr, 10));
        // another extension, sometimes a header that does not fit in the buffers
        if (sim::chance(1, 3)) { mf::file n = result(plan(OUT_TABLE, nullptr, 6)); for (size_t i = 1; i < n.size(); ++i) m.push_back(n[i]); }
        if (sim::chance(1, 12)) { auto& k = m[sim::work(m.size())].keys; for (int i = 0; i < 2500; ++i) k.push_back({"Z"+std::to_string(i), std::to_string(i)}); }
        return m;
    }
    const uint32_t read_faults = D::bit(D::open_fail)|D::bit(D::read_eio)|D::bit(D::read_short);

    // A truncated header is not always refused by CFITSIO, which completes the last block with zeros: only cut data, or before headers
    size_t cut_position(mf::file& m, const std::string& bytes, size_t p) {
        size_t start = 0;
        for (size_t i = 0; i < m.size(); ++i) {
            size_t end = start; while (bytes.compare(end, 8, "END     ") != 0) end += 80;
            end = (end/2880 + 1)*2880;
            if (p >= start && p < end) p = start;
            if (start >= p) { m.resize(std::max<size_t>(i, 1)); return p; }
            start = mf::write(mf::file(m.begin(), m.begin()+i+1)).size();
        }
        return p;
    }

    void f06() {
        D::wipe();
        mf::file m = some_file();
        std::string bytes = mf::write(m);
        bool cut = sim::chance(1, 5);
        if (cut) bytes.resize(cut_position(m, bytes, sim::work(bytes.size())));
        D::put(NAME, bytes);
        uint32_t nop = sim::work(1, 7);
        int cls = up_classes[sim::work(3)];
        bool lines = sim::chance(1, 3);
        sim::describe("%zu extensions, %zu bytes%s, %u operations with %s", m.size(), bytes.size(), cut ? " (truncated)" : "", nop, lines ? "one-line functions" : class_name[cls]);
        D::allow(read_faults);
        sim::options o; o.io = true; o.max_steps = 100000000; o.max_io = 5000000;
        bool* pinvalid = sim::shared<bool>();
        cf::start();
        sim::outcome r = sim::process(o, [&]() {
            uint64_t blocks = sim::live_blocks(); {
            readers R; std::string what;
            bool broken = false; // the storage failed: only a new object is sure to work
            for (uint32_t i = 0; i < nop; ++i) {
                uint64_t f0 = D::fired_any();
                bool invalid = false; verdict v = GOOD; std::string msg; what = "opening";
                try {
                    if (!lines && !R.any()) {
                        D::arm(); bool ok = R.open(cls, m); D::disarm();
                        if (!ok) { // nothing of this kind in the file
                            if (cls == IMAGE || cls == TABLE) cls = FILE_;
                            continue;
                        }
                    }
                    if (!lines && sim::chance(1, 4)) {
                        uint32_t k = sim::work(m.size()); what = "reach_hdu()";
                        D::arm();
                        if (!cut || k < R.base().hdu_count()) { R.base().reach_hdu(k); R.s.cur = k; reformat(m, R.s); }
                        D::disarm();
                    }
                    *pinvalid = true;
                    D::arm();
                    v = lines ? random_line(m, cut, what) : random_read(R, m, cut, invalid, what);
                    D::disarm();
                    *pinvalid = false;
                } catch (const fits::exception& e) { D::disarm(); *pinvalid = false; v = REPORTED; msg = e.what(); }
                sim::trace("%s: %s%s", what.c_str(), v == GOOD ? "good" : "reported", invalid ? " (not possible)" : "");
                if (v == REPORTED) {
                    REQUIRE(invalid || cut || D::fired_any() > f0, cls_("unexpected-failure"), "%s failed but the storage did not: %s", what.c_str(), fc::esc(msg, 300).c_str());
                    if (invalid) sim::probe("invalid_request_reported");
                    if (!invalid || D::fired_any() > f0) { R.close(); sim::probe("failure_reported"); cf::ignored = nullptr; }
                }
                if (cf::ignored && !R.any()) cf::ignored = nullptr;
            }
            R.close();
            REQUIRE(D::open_files() == 0, cls_("file-left-open"), "%d files are still open", D::open_files());
            }
            REQUIRE(sim::live_blocks() == blocks, "leak", "%d blocks of memory were not released", int(sim::live_blocks() - blocks));
        });
        // (a wrong column read through read_columns() or an index out of bounds ends the program)
        REQUIRE(!cf::died_inside(r), "cfitsio-ignores-error", "killed by signal %d in CFITSIO when the storage failed", r.code);
        if (fc::reported(r)) REQUIRE(D::fired_any() || cut, "unexpected-exit", "the program ended with exit(%d) but the storage did not fail", r.code);
        REQUIRE(r.kind != sim::outcome::crashed, "abnormal-end", "abnormal end %s", r.what.c_str());
        if (D::fired_any() + D::benign() || cut) sim::nontrivial();
    }
    sim::property_t p06("F06", f06, "A run reads 1-7 random pieces of a random FITS file, possibly truncated, while the storage fails at random; non-trivial: the file was truncated or at least one storage fault fired");

    // ---- crashes -----------------------------------------------------------------------------------
    struct progress { int flushed; uint32_t started; bool finished; }; // last step that was flushed (-1: none), number of steps started
    template<typename O> void run_to_crash(const session& s, progress* g, uint32_t kill_at, uint32_t arm_from) {
        O o(NAME);
        bool data_only = false; // only values changed since the last complete flush
        for (uint32_t i = 0; i < s.steps.size(); ++i) {
            auto& p = s.steps[i];
            if (i == arm_from) D::arm();
            if (i == kill_at) D::crash_now();
            sim::trace("%s", step_name[p.kind]);
            if (p.kind != FLUSH && p.kind != FLUSH_BUF) { g->started = i+1; if (p.kind != UPDATE_IMG && p.kind != UPDATE_ELEM) data_only = false; }
            execute(o, p);
            if (p.kind == FLUSH) data_only = true;
            if (p.kind == FLUSH || (p.kind == FLUSH_BUF && data_only)) { g->flushed = i; g->started = i+1; }
        }
        if (kill_at == s.steps.size()) D::crash_now();
        o.close();
        D::disarm();
        g->finished = true;
    }
    void f07() {
        D::wipe();
        mf::file start; bool old = sim::chance(1, 2);
        if (old) { session t = plan(out_classes[sim::work(3)], nullptr, 8); start = result(t); D::put(NAME, mf::write(start)); }
        // A session with frequent flushes, and with values changed in place at the end
        session s; s.cls = old ? up_classes[sim::work(3)] : (sim::chance(1, 2) ? out_classes : up_classes)[sim::work(3)];
        planner pl(s.cls, sim::work(1000000));
        if (old) { pl.m = start; if (!open_at(s.cls, pl.m, pl.s)) { pl.cls = s.cls = FILE_; open_at(FILE_, pl.m, pl.s); } pl.ncol = 50; pl.nkey = 200; s.before = start; }
        uint32_t n = sim::work(1, 6);
        for (uint32_t i = 0; i < n; ++i) { step p = pl.next(false); if (p.kind == NSTEP) break; s.steps.push_back(p); if (!pl.m.empty() && sim::chance(1, 3)) s.steps.push_back(pl.next(true)); }
        if (pl.m.empty()) { step p; p.kind = REACH; p.hdu = 0; pl.m.push_back(empty_hdu()); pl.s.cur = 0; p.after = pl.m; s.steps.push_back(p); }
        uint32_t first = s.steps.size();
        {
            s.steps.push_back(pl.next(true));
            pl.only = {UPDATE_IMG, UPDATE_ELEM, UPDATE_IMG, UPDATE_ELEM, REACH, FLUSH, FLUSH_BUF};
            for (uint32_t i = sim::work(5); i > 0; --i) for (uint32_t t = 0; t < 60; ++t) {
                planner save = pl; step p = pl.next(false);
                if (p.kind == UPDATE_IMG || p.kind == UPDATE_ELEM || p.kind == FLUSH || p.kind == FLUSH_BUF || p.kind == REACH) {
                    if (p.kind == REACH && pl.m.size() != save.m.size()) { pl = save; continue; }
                    s.steps.push_back(p); break;
                }
                pl = save;
            }
        }
        uint32_t kill_at = sim::chance(1, 4) ? sim::work(s.steps.size()+1) : 99999, arm_from = sim::chance(2, 3) ? first + sim::work(s.steps.size()-first) : sim::work(s.steps.size());
        sim::describe("%s on %s:", class_name[s.cls], old ? "an existing file" : "a new file"); for (auto& p : s.steps) sim::describe(" %s,", step_name[p.kind]);
        progress* g = sim::shared<progress>(); g->flushed = -1;
        D::allow(D::bit(D::crash)|D::bit(D::write_short)|D::bit(D::read_short));
        sim::options o; o.io = true; o.max_steps = 100000000; o.max_io = 5000000;
        cf::start();
        sim::outcome r = sim::process(o, [&]() {
            switch (s.cls) {
                case OUT_IMAGE: run_to_crash<fits::output_image>(s, g, kill_at, arm_from); break;
                case IMAGE: run_to_crash<fits::image>(s, g, kill_at, arm_from); break;
                case OUT_TABLE: run_to_crash<fits::output_table>(s, g, kill_at, arm_from); break;
                case TABLE: run_to_crash<fits::table>(s, g, kill_at, arm_from); break;
                case OUT_FILE: run_to_crash<fits::output_file>(s, g, kill_at, arm_from); break;
                default: run_to_crash<fits::file>(s, g, kill_at, arm_from); break;
            }
        });
        REQUIRE(r.kind == sim::outcome::returned || r.kind == sim::outcome::crashed, "abnormal-end", "abnormal end (%d, %d) %s", int(r.kind), r.code, r.what.c_str());
        bool crashed = r.kind == sim::outcome::crashed;
        if (g->finished) { std::string e = check_file(NAME, result(s)); REQUIRE(e.empty(), "close-wrong", "the file was closed normally but %s", e.c_str()); }
        if (g->flushed >= 0 && !g->finished) {
            const mf::file& m = s.steps[g->flushed].after;
            std::vector<bool> touched(m.size(), false); bool inplace = true, any = false;
            for (uint32_t i = g->flushed+1; i < g->started; ++i) {
                auto& p = s.steps[i];
                if (p.kind == UPDATE_IMG || p.kind == UPDATE_ELEM) { any = true; touched[p.target] = true; }
                else if (p.kind != REACH || p.after.size() != m.size()) inplace = false;
            }
            if (inplace) {
                if (crashed) sim::nontrivial();
                sim::probe(any ? "crashes_during_changes_in_place" : "crashes_after_flush");
                std::string b, err; mf::file f;
                REQUIRE(D::get(NAME, b), "lost-file", "the file was flushed but it does not exist after the crash");
                REQUIRE(mf::parse(b, f, err), "not-valid", "after a flush and a crash %s the file is not valid: %s", any ? "during changes in place" : "before any other change", err.c_str());
                REQUIRE(f.size() == m.size(), "lost-extension", "after a flush and a crash there are %zu extensions instead of %zu", f.size(), m.size());
                for (size_t i = 0; i < m.size(); ++i) {
                    mf::hdu x = f[i];
                    if (touched[i]) { // the values may be the old or the new ones, everything else is unchanged
                        const mf::hdu* mx = nullptr; mf::hdu y = m[i];
                        if (!x.table) { x.data.clear(); y.data.clear(); }
                        else if (x.cols.size() == y.cols.size()) for (size_t c = 0; c < y.cols.size(); ++c) {
                            for (uint32_t k = g->flushed+1; k < g->started; ++k) if (s.steps[k].kind == UPDATE_ELEM && s.steps[k].target == i && s.steps[k].name == y.cols[c].name) { x.cols[c].data.clear(); y.cols[c].data.clear(); }
                        }
                        std::string e = mf::compare(x, y);
                        REQUIRE(e.empty(), "crash-damage", "a crash while changing values in place of extension %zu changed more than these values: %s", i, e.c_str());
                    } else {
                        std::string e = mf::compare(x, m[i]);
                        REQUIRE(e.empty(), any ? "crash-damage" : "lost-data", "after a flush and a crash %s, extension %zu %s", any ? "while changing another extension" : "before any other change", i, e.c_str());
                    }
                }
            } else sim::probe("crashes_during_structural_changes");
        } else if (crashed) sim::probe("crashes_before_flush");
        // Another process can write the file again, whatever is there, and continue from what was flushed
        D::allow(0);
        value again; { rng q(sim::work(1000)); again.kind = V2D; with_image(again, filler{q, {sim::work(1, 60), sim::work(1, 20)}}); }
        sim::outcome r2 = sim::process(o, [&]() {
            try { fits::write(NAME, again.v2d); }
            catch (const fits::exception& e) { REQUIRE(false, "no-recovery", "after a crash, writing the file again fails: %s", fc::esc(e.what(), 300).c_str()); }
            sim::silent q; mf::file m(1, empty_hdu()); with_image(again, to_image{m[0]});
            std::string e = check_file(NAME, m);
            REQUIRE(e.empty(), "recovery-wrong", "after a crash, writing the file again returns normally but %s", e.c_str());
        });
        REQUIRE(r2.ok(), "no-recovery", "after a crash, the process writing the file again does not end normally");
    }
    sim::property_t p07("F07", f07, "A run writes or updates one FITS file in 1-10 operations and flushes, the process being killed at a random I/O operation (torn writes included) or between operations; "
        "non-trivial: it was killed after a flush with nothing else or only values changed in place since");

    // ---- life of objects ---------------------------------------------------------------------------
    const char* FILES[] = {"a.fits", "b.fits", "new.fits", "garbage.fits", "sub"};
    enum { READ_ONLY, WRITE_ONLY, READ_WRITE };
    struct life { // what is known of an object
        bool open = false; int file = -1; state s; bool dirty = false;
    };
    struct disk_model { bool exists[5]; bool valid[5]; mf::file m[5]; std::string bytes[5]; uint32_t uses; bool unknown[5]; };

    template<typename O> struct traits_of { enum { in = std::is_base_of<fits::input_image,O>::value || std::is_base_of<fits::input_table,O>::value,
        out = std::is_base_of<impl::fits_impl::output_file_base,O>::value || std::is_base_of<fits::output_image,O>::value,
        img = std::is_base_of<fits::input_image,O>::value || std::is_base_of<fits::output_image,O>::value,
        tab = std::is_base_of<fits::input_table,O>::value || std::is_base_of<fits::output_table,O>::value }; };
    inline fits::output_image* q_image(fits::output_image* o) { return o; } inline fits::output_image* q_image(void*) { return nullptr; }
    inline fits::output_table* q_table(fits::output_table* o) { return o; } inline fits::output_table* q_table(void*) { return nullptr; }
    inline fits::image* u_image(fits::image* o) { return o; } inline fits::image* u_image(void*) { return nullptr; }
    inline fits::table* u_table(fits::table* o) { return o; } inline fits::table* u_table(void*) { return nullptr; }

    // Every operation must be refused by an object which is not open
    template<typename O> void use_closed(O& o, const char* how) {
        std::string what; bool threw = false;
        fits::input_image* ii = p_image(&o); fits::input_table* it = p_table(&o); fits::output_image* oi = q_image(&o); fits::output_table* ot = q_table(&o); fits::image* ui = u_image(&o); fits::table* ut = u_table(&o);
        impl::fits_impl::file_base& b = o;
        vec2d v2 = replicate(1.0, 2, 3); vec1d v1 = {1.0, 2.0};
        try {
            switch (sim::work(22)) {
                case 0: what = "read_header()"; b.read_header(); break;
                case 1: what = "has_keyword()"; b.has_keyword("KEY1"); break;
                case 2: { what = "read_keyword()"; double d; b.read_keyword("KEY1", d); break; }
                case 3: what = "hdu_count()"; b.hdu_count(); break;
                case 4: what = "current_hdu()"; b.current_hdu(); break;
                case 5: what = "hdu_type()"; b.hdu_type(); break;
                case 6: what = "reach_hdu()"; b.reach_hdu(sim::work(2)); break;
                case 7: what = "axis_count()"; b.axis_count(); break;
                case 8: what = "image_dims()"; b.image_dims(); break;
                case 9: if (!ii) return; what = "read()"; ii->read(v2); break;
                case 10: { if (!ii) return; what = "read_pixel()"; ii->read_pixel<double>(vec1u{0, 0}); break; }
                case 11: if (!it) return; what = "read_column()"; (void)!!it->read_column("COL1", v1); break;
                case 12: if (!it) return; what = "read_columns_info()"; it->read_columns_info(); break;
                case 13: if (!it) return; what = "read_columns()"; it->read_columns(fits::missing, "COL1", v1); break;
                case 14: if (oi) { what = "write()"; oi->write(v2); break; } if (!ot) return; what = "write_column()"; ot->write_column("COL1", v1); break;
                case 15: if (oi) { what = "write_empty()"; oi->write_empty(); break; } if (!ot) return; what = "allocate_column()"; ot->allocate_column<double>("COL1", 3); break;
                case 16: if (oi) { what = "flush()"; oi->flush(); break; } if (!ot) return; what = "flush_buffer()"; ot->flush_buffer(); break;
                case 17: if (oi) { what = "write_keyword()"; oi->write_keyword("KEY1", 1.0); break; } if (!ot) return; what = "write_header()"; ot->write_header(mf::card("KEY1", "7")); break;
                case 18: if (oi) { what = "remove_keyword()"; oi->remove_keyword("KEY1"); break; } if (!ot) return; what = "remove_hdu()"; ot->remove_hdu(); break;
                case 19: if (ui) { what = "update()"; ui->update(v2); break; } if (!ut) return; what = "update_column()"; ut->update_column("COL1", v1); break;
                case 20: if (!ut) return; what = "remove_column()"; ut->remove_column("COL1"); break;
                default: if (!ut) return; what = "update_elements()"; ut->update_elements("COL1", 1.0, fits::at(0)); break;
            }
        } catch (const fits::exception& e) { threw = true; }
        REQUIRE(threw, "closed-accepted", "%s of an object that %s was not refused", what.c_str(), how);
        sim::probe("uses_of_closed_objects");
    }

    template<typename O> void make_default(std::unique_ptr<O>& o, std::true_type) { o.reset(new O()); }
    template<typename O> void make_default(std::unique_ptr<O>& o, std::false_type) {}

    template<typename O> void write_something(O& o, int cls, disk_model& dm, life& L, std::true_type) {
        planner pl(cls, sim::work(100000)); pl.m = dm.m[L.file]; pl.s = L.s; pl.ncol = pl.nkey = 50 + 50*dm.uses++;
        step p = pl.next(false); if (p.kind == NSTEP) return;
        sim::trace("%s", brief(p).c_str());
        execute(o, p); L.s = pl.s; dm.m[L.file] = pl.m;
        if (pl.m.empty()) return;
        if (L.s.cur >= 0 && sim::chance(1, 2)) { std::string what; bool ok = read_back(o, pl.m, L.s, what); REQUIRE(ok, cls_("read-back"), "after '%s' (%s), %s with the same object fails", brief(p).c_str(), class_name[cls], what.c_str()); }
        obj<O>::base(o).flush(); L.dirty = false;
        sim::silent q; std::string e = check_file(FILES[L.file], pl.m);
        REQUIRE(e.empty(), cls_("write-wrong"), "after '%s' and a flush (%s), %s", brief(p).c_str(), class_name[cls], e.c_str());
        sim::probe("writes_checked");
    }
    template<typename O> void write_something(O& o, int cls, disk_model& dm, life& L, std::false_type) {}
    template<typename O> void use(O& o, int cls, disk_model& dm, life& L, bool read) {
        std::string what = "something";
        try {
            if (traits_of<O>::in && (read || !traits_of<O>::out)) {
                if (dm.m[L.file].empty()) return;
                view R; R.pi = p_image(&o); R.pt = p_table(&o); R.pb = &o; R.s = L.s;
                if (sim::chance(1, 3)) { uint32_t k = sim::work(dm.m[L.file].size()); what = "reach_hdu()"; o.reach_hdu(k); R.s.cur = k; reformat(dm.m[L.file], R.s); L.s = R.s; }
                bool invalid; verdict v = random_read(R, dm.m[L.file], false, invalid, what);
                sim::trace("%s", what.c_str());
                REQUIRE(v == GOOD || invalid, cls_("use-fails"), "%s failed", what.c_str());
                sim::probe("reads_checked");
            } else write_something(o, cls, dm, L, bool_<traits_of<O>::out>());
        } catch (const fits::exception& e) {
            REQUIRE(what.find("part of an image") != std::string::npos || what.find("reading") == 0, cls_("use-fails"), "%s (%s) failed: %s", what.c_str(), class_name[cls], fc::esc(e.what(), 300).c_str());
        }
    }
    // (CFITSIO completes what it believes to be a new file when it closes a file opened for writing of which it could not read the headers: known finding)
    void check_disk(disk_model& dm, const char* when, int except) {
        sim::silent q;
        for (int f = 0; f < 4; ++f) {
            if (f == except || dm.unknown[f]) continue;
            if (!dm.exists[f]) { REQUIRE(!D::have(FILES[f]), cls_("other-file"), "%s, %s exists", when, FILES[f]); continue; }
            if (dm.valid[f]) { if (dm.m[f].empty()) continue; std::string e = check_file(FILES[f], dm.m[f]); REQUIRE(e.empty(), D::fired(D::read_eio) ? "cfitsio-damages-file" : cls_("file-damaged"), "%s, in %s %s", when, FILES[f], e.c_str()); }
            else if (f == 3) { std::string b; REQUIRE(D::get(FILES[f], b) && b == dm.bytes[f], cls_("file-damaged"), "%s, %s has changed", when, FILES[f]); }
        }
    }

    template<typename O> void live(int cls, disk_model& dm, uint32_t nop) {
        std::unique_ptr<O> o; life L; std::unique_ptr<O> old;
        const int rights = !traits_of<O>::out ? READ_ONLY : traits_of<O>::in ? READ_WRITE : WRITE_ONLY;
        const char* how = "was never open";
        bool hit = false;
        auto truthful = [&](const char* when) {
            if (!o) return;
            sim::silent q;
            REQUIRE(o->is_open() == L.open, cls_("state-wrong"), "after %s is_open() returns %d", when, int(o->is_open()));
            REQUIRE((o->cfitsio_ptr() != nullptr) == L.open, cls_("state-wrong"), "after %s the library handle is %s", when, L.open ? "null" : "not null");
            std::string e = L.open ? FILES[L.file] : "";
            REQUIRE(o->filename() == e, cls_("state-wrong"), "after %s filename() is '%s' instead of '%s'", when, o->filename().c_str(), e.c_str());
            int n = D::open_files();
            REQUIRE(L.open ? n == 1 : n == 0, cls_("file-left-open"), "after %s %d files are open", when, n);
        };
        for (uint32_t i = 0; i < nop; ++i) {
            uint32_t k = sim::work(12);
            if (!o && k != 0) k = 1;
            switch (k) {
            case 0: case 1: case 2: { // open
                int f = sim::chance(1, 2) ? sim::work(2) : sim::work(5); uint64_t f0 = D::fired_any();
                bool was_new = !o;
                // what must happen
                bool isdir = f == 4, ok = !isdir, created = false;
                state st;
                if (rights == READ_ONLY) ok = dm.exists[f] && dm.valid[f] && open_at(cls, dm.m[f], st);
                else if (rights == READ_WRITE) { if (dm.exists[f]) ok = dm.valid[f] && open_at(cls, dm.m[f], st); else created = true; }
                else created = !isdir;
                if (dm.unknown[f] && !(rights == WRITE_ONLY)) break; // (nothing was written in it)
                // (opening as an image or a table a file that has none is left to CFITSIO)
                if (!isdir && dm.exists[f] && dm.valid[f] && !ok && rights != WRITE_ONLY) break;
                sim::trace("%s %s", was_new ? "construct with" : "open", FILES[f]);
                std::string msg; bool opened = true;
                if (L.open) { if (L.dirty) { dm.unknown[L.file] = true; } L.open = false; } // closed first in any case
                try { D::arm(); if (was_new) o.reset(new O(FILES[f])); else o->open(FILES[f]); D::disarm(); }
                catch (const fits::exception& e) { D::disarm(); opened = false; msg = e.what(); }
                bool faulted = D::fired_any() > f0;
                hit = hit || faulted;
                if (!faulted) REQUIRE(opened == ok, cls_("open-wrong"), "opening %s (%s) %s: %s", FILES[f], class_name[cls], ok ? "failed" : "did not fail", fc::esc(msg, 300).c_str());
                if (opened) { L.open = true; L.file = f; L.s = st; if (created) { L.s = state(); dm.unknown[f] = false; dm.exists[f] = true; dm.valid[f] = true; dm.m[f].clear(); L.dirty = true; } else L.dirty = false; }
                else {
                    how = "failed to open"; if (o) sim::probe("failed_open");
                    // a failure may have created or emptied a file that had to be created or replaced, never another
                    if (created) { sim::silent q; std::string b; dm.exists[f] = D::get(FILES[f], b); dm.unknown[f] = dm.exists[f]; dm.valid[f] = false; }
                }
                truthful(opened ? "open()" : "a failed open()");
                check_disk(dm, opened ? "after open()" : "after a failed open()", created ? f : -1);
                break; }
            case 3: { // close
                if (L.open && L.dirty) break;
                sim::trace("close"); o->close(); L.open = false; how = "was closed"; truthful("close()");
                break; }
            case 4: { // move
                sim::trace("move");
                old.reset(new O(std::move(*o))); std::swap(o, old);
                truthful("a move");
                { sim::silent q; REQUIRE(!old->is_open(), "state-wrong", "the moved object is still open"); REQUIRE(old->filename().empty(), "state-wrong", "the moved object still has a file name"); }
                if (sim::chance(1, 2)) use_closed(*old, "was moved");
                if (sim::chance(1, 2)) { sim::trace("close the moved object"); old->close(); }
                old.reset();
                truthful("destroying the moved object");
                break; }
            case 5: { // destroy
                if (L.open && L.dirty) break;
                sim::trace("destroy"); o.reset(); L.open = false; how = "was never open";
                { sim::silent q; REQUIRE(D::open_files() == 0, cls_("file-left-open"), "%d files are open after destroying the object", D::open_files()); }
                if (sim::chance(1, 2)) make_default(o, std::is_default_constructible<O>());
                break; }
            default: { // use
                if (!L.open) { use_closed(*o, how); truthful("a refused operation"); break; }
                use(*o, cls, dm, L, sim::chance(1, 2));
                truthful("an operation");
                break; }
            }
        }
        if (o && L.open && L.dirty) use(*o, cls, dm, L, false);
        if (o && L.open && L.dirty) dm.valid[L.file] = false;
        o.reset();
        REQUIRE(D::open_files() == 0, cls_("file-left-open"), "%d files are still open", D::open_files());
        check_disk(dm, "at the end", L.file);
        if (hit) sim::nontrivial();
    }

    void f08() {
        D::wipe();
        int c = sim::work(9);
        disk_model dm = disk_model();
        for (int f = 0; f < 2; ++f) { dm.exists[f] = dm.valid[f] = true; dm.m[f] = some_file(); if (dm.m[f].size() > 6) dm.m[f].resize(6); D::put(FILES[f], mf::write(dm.m[f])); }
        dm.exists[3] = true; dm.bytes[3] = fc::blob(sim::work(9000), 5); D::put(FILES[3], dm.bytes[3]);
        dm.exists[4] = true; { sim::silent q; ::mkdir((std::string(D::root)+"/sub").c_str(), 0755); } D::put("sub/file", "x");
        uint32_t nop = sim::work(2, 14);
        static const char* names[] = {"input_image", "input_table", "input_file", "output_image", "output_table", "output_file", "image", "table", "file"};
        sim::describe("%u operations on the life of one fits::%s", nop, names[c]);
        D::allow(D::bit(D::open_fail)|D::bit(D::read_eio)|D::bit(D::read_short)|D::bit(D::write_eio)|D::bit(D::stat_fail)|D::bit(D::remove_fail));
        sim::options o; o.io = true; o.max_steps = 100000000; o.max_io = 5000000;
        cf::start();
        sim::outcome r = sim::process(o, [&]() {
            uint64_t blocks = sim::live_blocks();
            switch (c) {
                case 0: live<fits::input_image>(IMAGE, dm, nop); break;
                case 1: live<fits::input_table>(TABLE, dm, nop); break;
                case 2: live<fits::input_file>(FILE_, dm, nop); break;
                case 3: live<fits::output_image>(OUT_IMAGE, dm, nop); break;
                case 4: live<fits::output_table>(OUT_TABLE, dm, nop); break;
                case 5: live<fits::output_file>(OUT_FILE, dm, nop); break;
                case 6: live<fits::image>(IMAGE, dm, nop); break;
                case 7: live<fits::table>(TABLE, dm, nop); break;
                default: live<fits::file>(FILE_, dm, nop); break;
            }
        });
        REQUIRE(!cf::died_inside(r), "cfitsio-ignores-error", "killed by signal %d in CFITSIO when the storage failed", r.code);
        if (fc::reported(r)) REQUIRE(D::fired_any(), "unexpected-exit", "the program ended with exit(%d) but the storage did not fail", r.code);
        REQUIRE(r.kind != sim::outcome::crashed, "abnormal-end", "abnormal end %s", r.what.c_str());
    }
    sim::property_t p08("F08", f08, "A run opens, closes, moves, uses and destroys one FITS object of one of the 9 classes on 5 valid, missing and invalid files in 2-14 operations, the storage failing at random while opening; "
        "non-trivial: at least one storage fault fired");

    // ---- several objects on one file ---------------------------------------------------------------
    struct co_reader {
        readers R; uint32_t at = 0; // version of the file
    };
    verdict co_read(readers& R, const mf::file& m, uint32_t who, bool move) {
        std::string what = "something"; bool invalid = false; verdict v = GOOD; std::string msg;
        try {
            if (move) { uint32_t k = sim::work(m.size()); what = "reach_hdu()"; R.base().reach_hdu(k); R.s.cur = k; reformat(m, R.s); }
            v = random_read(R, m, false, invalid, what);
        } catch (const fits::exception& e) { v = REPORTED; msg = e.what(); }
        sim::trace("reader %u: %s", who, what.c_str());
        REQUIRE(v == GOOD || invalid, "co-read-fails", "reader %u: %s failed: %s", who, what.c_str(), fc::esc(msg, 300).c_str());
        sim::probe("reads_checked");
        return v;
    }
    template<typename O> void with_writer(const session& s, uint32_t nread) {
        O o(NAME);
        for (auto& p : s.steps) {
            sim::trace("writer: %s", brief(p).c_str());
            execute(o, p);
            if (p.kind != FLUSH && sim::chance(2, 3)) continue;
            if (p.after.empty()) continue;
            if (p.kind != FLUSH) obj<O>::base(o).flush();
            // what was flushed is what a new object reads
            readers R; int cls = up_classes[sim::work(3)]; state t;
            if (!open_at(cls, p.after, t)) cls = FILE_;
            R.open(cls, p.after);
            for (uint32_t i = 0; i < nread; ++i) co_read(R, p.after, 0, sim::chance(1, 3));
            sim::probe("readers_opened_while_writing");
        }
        // and so is what was closed
        o.close();
        readers R; R.open(FILE_, result(s));
        for (uint32_t i = 0; i < nread; ++i) co_read(R, result(s), 1, sim::chance(1, 3));
    }
    void f09() {
        D::wipe();
        bool writer = sim::chance(1, 2);
        mf::file start = some_file(); D::put(NAME, mf::write(start));
        uint32_t n = sim::work(2, 3), nop = sim::work(2, 16), nread = sim::work(1, 4);
        session s;
        if (writer) {
            bool fresh = sim::chance(1, 2);
            s = plan((fresh ? out_classes : up_classes)[sim::work(3)], fresh ? nullptr : &start, 8);
            sim::describe("a fits::%s writes and %u pieces are read after each flush", class_name[s.cls], nread);
        } else sim::describe("%u readers of %zu extensions, %u operations", n, start.size(), nop);
        D::allow(D::bit(D::read_short)|D::bit(D::write_short));
        sim::options o; o.io = true; o.max_steps = 100000000; o.max_io = 5000000;
        cf::start();
        sim::outcome r = sim::process(o, [&]() {
            D::arm();
            if (writer) switch (s.cls) {
                case OUT_IMAGE: with_writer<fits::output_image>(s, nread); break;
                case IMAGE: with_writer<fits::image>(s, nread); break;
                case OUT_TABLE: with_writer<fits::output_table>(s, nread); break;
                case TABLE: with_writer<fits::table>(s, nread); break;
                case OUT_FILE: with_writer<fits::output_file>(s, nread); break;
                default: with_writer<fits::file>(s, nread); break;
            } else {
                readers R[3];
                for (uint32_t i = 0; i < nop; ++i) {
                    uint32_t k = sim::work(n);
                    if (!R[k].any()) {
                        int cls = up_classes[sim::work(3)]; state t; if (!open_at(cls, start, t)) cls = FILE_;
                        sim::trace("reader %u opens the file (%s)", k, class_name[cls]);
                        try { R[k].open(cls, start); } catch (const fits::exception& e) { REQUIRE(false, "co-open-fails", "reader %u cannot open the file while others read it: %s", k, fc::esc(e.what(), 300).c_str()); }
                    }
                    else if (sim::chance(1, 10)) { sim::trace("reader %u closes", k); R[k].close(); continue; }
                    co_read(R[k], start, k, sim::chance(1, 3));
                }
            }
            D::disarm();
            { sim::silent q; std::string e = check_file(NAME, writer ? result(s) : start); REQUIRE(e.empty(), "co-file-changed", "at the end, %s", e.c_str()); }
        });
        REQUIRE(r.ok(), "abnormal-end", "abnormal end (%d, %d) %s", int(r.kind), r.code, r.what.c_str());
        sim::nontrivial();
    }
    sim::property_t p09("F09", f09, "A run has 2-3 FITS objects reading one file in turn, or one writing it and others opened after each flush, in 2-16 operations; all runs are non-trivial (the order of the operations is what is explored)");
}
