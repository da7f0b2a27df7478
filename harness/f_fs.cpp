// F03: copies and whole-file reads; F04: file system queries and changes against a reference model
#include "prelude.hpp"
#include <vif.hpp>
#include <utime.h>
#include <set>
#include <map>
#include "f_common.hpp"

using namespace vif;
namespace D = sim::disk;

namespace {
    uint64_t errors() { return D::fired_any(); }

    // ---- F03 ----------------------------------------------------------------------------
    void f03() {
        uint32_t mask = D::bit(D::open_fail)|D::bit(D::read_eio)|D::bit(D::read_short)|D::bit(D::read_eintr)|D::bit(D::write_eio)
            |D::bit(D::write_short)|D::bit(D::write_eintr)|D::bit(D::disk_full)|D::bit(D::close_fail)|D::bit(D::seek_fail)|D::bit(D::stat_fail);
        D::allow(sim::fault_chance(6, 7) ? mask : 0);
        sim::options o; o.io = true; o.max_steps = 100000000;
        auto r = sim::process(o, [&]() {
            std::map<std::string,std::string> m; // files
            auto put = [&](const std::string& n, const std::string& c) { sim::silent s; m[n] = c; D::put(n, c); };
            { sim::silent s; ::mkdir("dir", 0755); ::mkdir("dir/sub", 0755); }
            put("a", fc::blob(fc::size_choice(), 1));
            if (sim::chance(1, 2)) put("b", fc::blob(fc::size_choice(), 2));
            if (sim::chance(1, 3)) put("dir/c", std::string(sim::work(3), '\n'));
            const char* names[] = {"a", "b", "dir/c", "dir", "nodir/d", "e", "dir/sub/../../a"};
            uint32_t n = sim::work(1, 4);
            for (uint32_t k = 0; k < n; ++k) {
                bool copy = sim::chance(2, 3);
                std::string from = names[sim::work(7)], to = names[sim::work(7)];
                auto canon = [](const std::string& s) { return s == "dir/sub/../../a" ? std::string("a") : s; };
                bool from_ok = m.count(canon(from));
                uint64_t f0 = errors();
                if (copy) {
                    sim::describe("%scopy(%s,%s)", k ? " " : "", from.c_str(), to.c_str());
                    D::arm();
                    bool ok = file::copy(from, to);
                    D::disarm();
                    sim::silent s;
                    bool err = errors() != f0;
                    bool same = canon(from) == canon(to);
                    bool possible = from_ok && to != "dir" && to != "nodir/d" && !same;
                    std::string got;
                    bool there = D::get(to, got);
                    if (ok) {
                        REQUIRE(from_ok, "copy-from-nothing", "copy(%s,%s) succeeded but %s cannot be read", from.c_str(), to.c_str(), from.c_str());
                        REQUIRE(there, "copy-missing", "copy(%s,%s) succeeded but %s does not exist", from.c_str(), to.c_str(), to.c_str());
                        REQUIRE(got == m[canon(from)], "copy-incomplete", "copy(%s,%s) succeeded but the copy differs: %s", from.c_str(), to.c_str(), fc::diff(got, m[canon(from)]).c_str());
                        m[canon(to)] = got;
                    } else {
                        REQUIRE(!possible || err, "copy-failed", "copy(%s,%s) failed but there was no error", from.c_str(), to.c_str());
                        if (err) sim::probe("copy_failure_reported");
                        if (there && to != "dir" && !same) m[canon(to)] = got;
                    }
                    for (auto& p : m) {
                        std::string c;
                        if (p.first == canon(to) && !same) continue;
                        REQUIRE(D::get(p.first, c) && c == p.second, "file-damaged", "copy(%s,%s) modified %s", from.c_str(), to.c_str(), p.first.c_str());
                    }
                } else {
                    sim::describe("%sto_string(%s)", k ? " " : "", from.c_str());
                    D::arm();
                    std::string got = file::to_string(from);
                    D::disarm();
                    sim::silent s;
                    bool err = errors() != f0;
                    std::string exp = from_ok ? m[canon(from)] : "";
                    REQUIRE(got == exp || (err && got.empty()), err ? "read-wrong" : "read-wrong-without-error", "to_string(%s) is neither the content of the file nor empty: %s", from.c_str(), fc::diff(got, exp).c_str());
                    if (err && got != exp) sim::probe("read_failure_seen");
                }
                REQUIRE(D::open_files() == 0, "file-left-open", "%d files are still open", D::open_files());
            }
        });
        REQUIRE(r.ok(), "abnormal-end", "the process ended abnormally (kind %d code %d %s)", r.kind, r.code, r.what.c_str());
        if (D::fired_any() + D::benign()) sim::nontrivial();
    }
    sim::property_t p03("F03", f03, "A run does 1-4 copies or whole-file reads of files of 0-40000 bytes while the storage fails at random; "
        "non-trivial: at least one storage fault fired");

    // ---- F04 ----------------------------------------------------------------------------
    // The reference: what is really there, as told by raw system calls
    struct node { bool dir; std::string content; };
    typedef std::map<std::string,node> tree;

    void scan(const std::string& d, tree& t) {
        DIR* h; // (the simulator passes these calls through inside a silent scope)
        h = opendir(d.empty() ? "." : d.c_str());
        if (!h) return;
        std::vector<std::string> names;
        while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); }
        closedir(h);
        for (auto& n : names) {
            std::string p = d.empty() ? n : d+"/"+n;
            node x; x.dir = D::is_dir(p);
            if (!x.dir) D::get(p, x.content);
            t[p] = x;
            if (x.dir) scan(p, t);
        }
    }
    bool same(const tree& a, const tree& b, std::string& why) {
        for (auto& p : a) { auto q = b.find(p.first); if (q == b.end() || q->second.dir != p.second.dir || q->second.content != p.second.content) { why = p.first; return false; } }
        for (auto& p : b) if (!a.count(p.first)) { why = p.first; return false; }
        return true;
    }
    std::string parent(const std::string& p) { auto k = p.find_last_of('/'); return k == p.npos ? "" : p.substr(0, k); }
    bool is_dir(const tree& t, const std::string& p) { if (p.empty()) return true; auto q = t.find(p); return q != t.end() && q->second.dir; }
    bool reachable(const tree& t, const std::string& p) { for (std::string q = parent(p); !q.empty(); q = parent(q)) if (!is_dir(t, q)) return false; return true; }
    bool empty_dir(const tree& t, const std::string& p) { for (auto& q : t) if (parent(q.first) == p) return false; return true; }

    std::string pick() {
        static const char* c[] = {"a", "b", "c", ".h", "d1", "d2", "x.txt"};
        std::string p = c[sim::work(7)];
        for (uint32_t k = sim::work(3); k > 0; --k) p += std::string("/") + c[sim::work(7)];
        return p;
    }
    std::string pick_known(const tree& t) {
        if (t.empty() || sim::chance(1, 4)) return pick();
        auto q = t.begin(); std::advance(q, sim::work(t.size())); return q->first;
    }

    void f04() {
        uint32_t mask = D::bit(D::open_fail)|D::bit(D::stat_fail)|D::bit(D::dir_fail)|D::bit(D::mkdir_fail)|D::bit(D::remove_fail)|D::bit(D::rename_fail);
        uint32_t soft = D::bit(D::readdir_order)|D::bit(D::no_dtype);
        D::allow(sim::fault_chance(4, 5) ? mask|soft : soft);
        sim::options o; o.io = true; o.max_steps = 100000000;
        auto r = sim::process(o, [&]() {
            tree t;
            std::string why;
            {
                sim::silent s;
                for (uint32_t k = sim::work(6); k > 0; --k) {
                    std::string p = pick();
                    if (sim::chance(1, 2)) { std::string q; for (size_t i = 0; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') ::mkdir(p.substr(0, i).c_str(), 0755); }
                    else D::put(p, fc::blob(sim::work(40), k));
                }
                scan("", t);
            }
            std::unique_ptr<file::explorer> ex; std::string ex_dir; tree ex_tree; bool ex_open = false; std::multiset<std::string> ex_seen; bool ex_err = false; bool ex_dirty = false;
            std::string ex_pat;
            uint32_t n = sim::work(1, 8);
            for (uint32_t k = 0; k < n; ++k) {
                uint32_t op = sim::work(10);
                std::string p = pick_known(t), q = pick_known(t);
                uint64_t f0 = errors(), st0 = D::fired(D::stat_fail), op0 = D::fired(D::open_fail);
                const char* P = p.c_str(); const char* Q = q.c_str();
                auto err = [&]() { return errors() != f0; };
                auto serr = [&]() { return D::fired(D::stat_fail) != st0; };
                auto unchanged = [&](const char* what) { tree u; scan("", u); REQUIRE(same(t, u, why), "unexpected-change", "%s changed %s", what, why.c_str()); };
                switch (op) {
                case 0: { // exists
                    sim::describe(" exists(%s)", P);
                    D::arm(); bool b = file::exists(p); D::disarm();
                    sim::silent s;
                    bool e = t.count(p);
                    REQUIRE(b == e || (serr() && !b), "exists-wrong", "exists(%s) is %s", P, b ? "true but it does not exist" : "false but it exists");
                    unchanged("exists()");
                    break; }
                case 1: { // mkdir
                    std::string arg = p; if (sim::chance(1, 3)) arg += "/"; if (sim::chance(1, 4)) arg = "./"+arg; if (sim::chance(1, 6)) arg = std::string(D::root)+"/"+arg;
                    sim::describe(" mkdir(%s)", P);
                    D::arm(); bool b = file::mkdir(arg); D::disarm();
                    sim::silent s;
                    tree u; scan("", u);
                    bool blocked = false;
                    for (std::string x = p; !x.empty(); x = parent(x)) if (t.count(x) && !t[x].dir) blocked = true;
                    if (b) REQUIRE(is_dir(u, p) && reachable(u, p), "mkdir-wrong", "mkdir(%s) succeeded but it is not a directory", P);
                    else REQUIRE(err() || blocked, "mkdir-failed", "mkdir(%s) failed but there was no error", P);
                    if (!b && err()) sim::probe("mkdir_failure_reported");
                    tree v = t; // only parents of p may be new
                    for (std::string x = p; !x.empty(); x = parent(x)) if (u.count(x) && !v.count(x)) { REQUIRE(u[x].dir, "mkdir-wrong", "mkdir(%s) created %s which is not a directory", P, x.c_str()); v[x] = u[x]; }
                    REQUIRE(same(v, u, why), "unexpected-change", "mkdir(%s) changed %s", P, why.c_str());
                    t = u; ex_dirty = true;
                    break; }
                case 2: { // remove
                    sim::describe(" remove(%s)", P);
                    D::arm(); bool b = file::remove(p); D::disarm();
                    sim::silent s;
                    tree u; scan("", u);
                    if (b) REQUIRE(!u.count(p), "remove-wrong", "remove(%s) succeeded but it still exists", P);
                    else {
                        REQUIRE(u.count(p), "remove-wrong", "remove(%s) failed but it does not exist%s", P, t.count(p) ? " any more" : "");
                        REQUIRE(err() || (t[p].dir && !empty_dir(t, p)), "remove-failed", "remove(%s) failed but there was no error", P);
                        if (err()) sim::probe("remove_failure_reported");
                    }
                    // nothing else than p and its content may be gone
                    tree v = t; for (auto& x : t) if (!u.count(x.first) && (x.first == p || x.first.compare(0, p.size()+1, p+"/") == 0)) v.erase(x.first);
                    REQUIRE(same(v, u, why), "unexpected-change", "remove(%s) changed %s", P, why.c_str());
                    t = u; ex_dirty = true;
                    break; }
                case 3: { // move
                    sim::describe(" move(%s,%s)", P, Q);
                    bool inside = q == p || q.compare(0, p.size()+1, p+"/") == 0;
                    bool possible = t.count(p) && reachable(t, q) && !inside && (!t.count(q) || (t[q].dir == t[p].dir && (!t[q].dir || empty_dir(t, q))))
                        && !(p.compare(0, q.size()+1, q+"/") == 0);
                    D::arm(); bool b = file::move(p, q); D::disarm();
                    sim::silent s;
                    tree u; scan("", u);
                    tree v = t;
                    if (b && p != q) {
                        REQUIRE(t.count(p), "move-wrong", "move(%s,%s) succeeded but %s does not exist", P, Q, P);
                        tree w;
                        for (auto& x : t) {
                            if (x.first == p || x.first.compare(0, p.size()+1, p+"/") == 0) { w[q + x.first.substr(p.size())] = x.second; v.erase(x.first); }
                        }
                        for (auto& x : w) v[x.first] = x.second;
                        REQUIRE(same(v, u, why), "move-wrong", "move(%s,%s) succeeded but %s is not right", P, Q, why.c_str());
                    } else {
                        REQUIRE(same(v, u, why), "move-wrong", "move(%s,%s) %s but %s changed", P, Q, b ? "did nothing" : "failed", why.c_str());
                        REQUIRE(b || !possible || err(), "move-failed", "move(%s,%s) failed but there was no error", P, Q);
                        if (err()) sim::probe("move_failure_reported");
                    }
                    t = u; ex_dirty = true;
                    break; }
                case 4: case 5: { // list
                    static const char* pats[] = {"*", "*.txt", "d*", "", "?", "x.*"};
                    std::string d = sim::chance(1, 2) ? "" : p, pat = pats[sim::work(6)];
                    bool dirs = op == 5; bool def = sim::chance(1, 3);
                    if (def) pat = "*";
                    sim::describe(" list_%s(%s,%s)", dirs ? "directories" : "files", d.c_str(), pat.c_str());
                    std::string arg = d.empty() ? (sim::chance(1, 2) ? "." : "./") : d;
                    // (the kind of an entry cannot be known when its status cannot be read)
                    uint32_t m0 = mask|soft; D::allow(m0 & ~D::bit(D::stat_fail));
                    D::arm();
                    vec1s l = dirs ? (def ? file::list_directories(arg) : file::list_directories(arg, pat)) : (def ? file::list_files(arg) : file::list_files(arg, pat));
                    D::disarm();
                    D::allow(m0);
                    sim::silent s;
                    std::multiset<std::string> got(l.begin(), l.end()), exp;
                    for (auto& x : t) if (parent(x.first) == d && is_dir(t, d)) {
                        std::string nm = d.empty() ? x.first : x.first.substr(d.size()+1);
                        if (nm[0] == '.' || x.second.dir != dirs) continue;
                        if (!pat.empty() && fnmatch(pat.c_str(), nm.c_str(), 0) != 0) continue;
                        exp.insert(nm);
                    }
                    REQUIRE(l.dims[0] == l.data.size(), "list-wrong", "the list is not consistent");
                    REQUIRE(got == exp || (err() && got.empty()), "list-wrong", "list of %s matching '%s' in '%s' has %zu elements, expected %zu%s", dirs ? "directories" : "files", pat.c_str(), d.c_str(), got.size(), exp.size(), err() ? " (or none)" : "");
                    unchanged("listing");
                    break; }
                case 6: { // older
                    sim::silent* s0 = new sim::silent;
                    int64_t ta = 1000000000 + 10*int(sim::work(5)), tb = 1000000000 + 10*int(sim::work(5));
                    bool pe = t.count(p), qe = t.count(q);
                    utimbuf ub; 
                    if (pe) { ub.actime = ub.modtime = ta; ::utime(P, &ub); }
                    if (qe) { ub.actime = ub.modtime = tb; ::utime(Q, &ub); }
                    if (p == q) ta = tb;
                    delete s0;
                    sim::describe(" is_older(%s,%s)", P, Q);
                    D::arm(); bool b = file::is_older(p, q); D::disarm();
                    sim::silent s;
                    bool e = pe && qe && ta < tb;
                    REQUIRE(b == e || (serr() && !b), "older-wrong", "is_older(%s,%s) is %s, modification times are %lld and %lld (%s)", P, Q, b ? "true" : "false", (long long)ta, (long long)tb, pe && qe ? "both exist" : "one does not exist");
                    unchanged("is_older()");
                    break; }
                default: { // explorer
                    uint32_t what = sim::work(4);
                    if (!ex) { ex.reset(new file::explorer); ex_open = false; }
                    if (what == 0) {
                        ex_dir = sim::chance(1, 2) ? "" : p; ex_pat = sim::chance(1, 3) ? "d*" : "";
                        sim::describe(" open(%s)", ex_dir.c_str());
                        uint32_t m0 = mask|soft; D::allow(m0 & ~D::bit(D::stat_fail));
                        D::arm(); bool b = ex->open(ex_dir.empty() ? "." : ex_dir, ex_pat); D::disarm();
                        D::allow(m0);
                        sim::silent s;
                        bool e = is_dir(t, ex_dir);
                        REQUIRE(b ? e : (!e || err()), "explorer-open-wrong", "open(%s) returned %s", ex_dir.c_str(), b ? "true but it is not a directory" : "false but it is a directory");
                        ex_open = b; ex_seen.clear(); ex_tree = t; ex_err = false; ex_dirty = false;
                    } else if (what == 1) {
                        sim::describe(" close");
                        ex->close(); ex_open = false;
                    } else if (what == 2) {
                        sim::describe(" destroy");
                        ex.reset();
                        ex_open = false;
                    } else {
                        uint32_t cnt = sim::chance(1, 2) ? 1000 : sim::work(4);
                        sim::describe(" next*%u", cnt);
                        file::explorer::file_data fd;
                        bool end = false;
                        for (uint32_t z = 0; z < cnt; ++z) {
                            REQUIRE(z < 999, "explorer-endless", "find_next() does not end");
                            if (!ex->find_next(fd)) { end = true; break; }
                            sim::silent s;
                            REQUIRE(ex_open, "explorer-closed", "find_next() returned true but no directory is open");
                            std::string full = ex_dir.empty() ? fd.name : ex_dir+"/"+fd.name;
                            if (ex_dirty) { ex_seen.insert(fd.name); continue; }
                            REQUIRE(fd.name == "." || fd.name == ".." || t.count(full), "explorer-wrong", "find_next() returned '%s' which is not in the directory", fd.name.c_str());
                            REQUIRE(ex_pat.empty() || fd.name[0] == 'd', "explorer-wrong", "find_next() returned '%s' which does not match the pattern", fd.name.c_str());
                            REQUIRE(!ex_seen.count(fd.name), "explorer-wrong", "find_next() returned '%s' twice", fd.name.c_str());
                            ex_seen.insert(fd.name);
                            if (t.count(full)) {
                                REQUIRE(fd.is_dir == t[full].dir && (t[full].dir || fd.size == t[full].content.size()) && fd.is_hidden == (fd.name[0] == '.'),
                                    "explorer-wrong", "wrong description of '%s'", fd.name.c_str());
                                REQUIRE(fd.full_path == (ex_dir.empty() ? "./" : "") + full, "explorer-wrong", "wrong path '%s'", fd.full_path.c_str());
                            }
                        }
                        sim::silent s;
                        if (end && ex_open && !ex_dirty) {
                            for (auto& x : t) if (parent(x.first) == ex_dir) {
                                std::string nm = ex_dir.empty() ? x.first : x.first.substr(ex_dir.size()+1);
                                REQUIRE(ex_seen.count(nm) || (!ex_pat.empty() && nm[0] != 'd'), "explorer-wrong", "'%s' was never found", nm.c_str());
                            }
                            sim::probe("explored_completely");
                        }
                    }
                    break; }
                }
                sim::silent s;
                int ol = ex && ex_open ? 1 : 0;
                REQUIRE(D::open_files() == ol, "file-left-open", "%d files or directories are open, expected %d", D::open_files(), ol);
            }
            ex.reset();
            REQUIRE(D::open_files() == 0, "file-left-open", "%d files or directories are still open", D::open_files());
        });
        REQUIRE(r.ok(), "abnormal-end", "the process ended abnormally (kind %d code %d %s)", r.kind, r.code, r.what.c_str());
        if (D::fired_any() + D::benign()) sim::nontrivial();
    }
    sim::property_t p04("F04", f04, "A run does 1-8 queries and changes of a small directory tree while the storage fails at random; "
        "non-trivial: at least one storage fault fired or the order of a directory was shuffled");
}
