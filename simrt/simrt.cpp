// simrt core: choice tapes, processes, run/replay/minimise driver
#include "simrt_core.hpp"
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sched.h>
#include <time.h>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <unordered_set>
#include <exception>

namespace sim {
    shared_t* sh = nullptr;
    gstate g;
    __thread thr* me = nullptr;

    struct violation_t {};

    static const property_t* the_props[64];
    static int nprops = 0;

    property_t::property_t(const char* i, void (*s)(), const char* r) : id(i), scenario(s), rule(r) {
        the_props[nprops++] = this;
    }

    void mix(uint64_t& h, uint64_t v) {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        h ^= h >> 32;
    }

    static uint64_t splitmix(uint64_t& s) {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30))*0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27))*0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    void die(const char* fmt, ...) {
        char b[1024];
        va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        syscall(SYS_write, 2, "simrt: internal error: ", 23);
        syscall(SYS_write, 2, b, n); syscall(SYS_write, 2, "\n", 1);
        _exit(CODE_ERROR);
    }

    uint32_t draw(stream_t s, uint32_t n) {
        if (n <= 1) return 0;
        tape_t& t = sh->tape[s];
        uint32_t v;
        if (t.n >= TAPE_CAP) return 0;
        if (sh->replay) {
            v = t.n < t.len ? t.v[t.n] : 0;
            if (v >= n) v = n-1;
        } else {
            v = uint32_t(splitmix(t.rng) % n);
        }
        t.v[t.n++] = v;
        if (!sh->replay) t.len = t.n;
        return v;
    }

    uint32_t fdraw(uint32_t n) { return draw(FAULT, n); }
    void count_fault(int k) { ++sh->fault[k]; }

    void note(uint64_t v) { mix(sh->hash, v); }
    void note(const std::string& s) { for (unsigned char c : s) mix(sh->hash, c); mix(sh->hash, s.size()+77777); }

    static void vtrace(const char* fmt, va_list ap) {
        if (sh->ntrace + 600 > TRACE_CAP) return;
        int n = vsnprintf(sh->trace + sh->ntrace, 500, fmt, ap);
        if (n > 499) n = 499;
        sh->ntrace += n;
        sh->trace[sh->ntrace++] = '\n';
    }

    void trace(const char* fmt, ...) {
        if (!sh->tracing) return;
        va_list ap; va_start(ap, fmt); vtrace(fmt, ap); va_end(ap);
    }

    void describe(const char* fmt, ...) {
        size_t l = strlen(sh->desc);
        if (l+2 >= sizeof sh->desc) return;
        va_list ap; va_start(ap, fmt); vsnprintf(sh->desc+l, sizeof sh->desc-l, fmt, ap); va_end(ap);
    }

    void nontrivial() { sh->nontrivial = 1; }

    void probe(const char* name, uint64_t n) {
        for (int i = 0; i < NPROBE; ++i) {
            if (!sh->probes[i].name[0]) strncpy(sh->probes[i].name, name, sizeof(sh->probes[i].name)-1);
            if (!strncmp(sh->probes[i].name, name, sizeof(sh->probes[i].name)-1)) { sh->probes[i].n += n; return; }
        }
    }

    void* shared_alloc(size_t n) {
        n = (n + 63) & ~size_t(63);
        if (sh->arena_used + n > ARENA_CAP) die("shared arena exhausted");
        void* p = sh->arena + sh->arena_used;
        sh->arena_used += n;
        return p;
    }

    void violation(const char* cls, const char* fmt, ...) {
        if (!sh->has_violation) {
            sh->has_violation = 1;
            strncpy(sh->vclass, cls, sizeof sh->vclass-1);
            va_list ap; va_start(ap, fmt); vsnprintf(sh->vtext, sizeof sh->vtext, fmt, ap); va_end(ap);
            trace("VIOLATION %s: %s", cls, sh->vtext);
        }
        if (g.active) {
            sh->simtime += g.now; sh->steps += g.steps; sh->syncs += g.syncs; sh->switches += g.switches;
            _exit(CODE_VIOLATION);
        }
        throw violation_t();
    }

    bool active() { return g.active; }
    uint64_t now_ns() { return g.now; }
    uint64_t seq() { return ++g.seq; }
    int self() { return me ? me->id : -1; }

    silent::silent() { if (me) ++me->nohook; }
    silent::~silent() { if (me) --me->nohook; }

    static double wall() {
        timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + 1e-9*ts.tv_nsec;
    }

    static int cpu_limit = 20;

    static void finish_child(int code) {
        sh->simtime += g.now; sh->steps += g.steps; sh->syncs += g.syncs; sh->switches += g.switches;
        sh->live_threads_end = g.live;
        _exit(code);
    }

    __attribute__((noinline)) static void scrub_stack() { volatile char b[400000]; for (size_t i = 0; i < sizeof b; ++i) b[i] = 0x33; }

    outcome process(const options& o, const std::function<void()>& f) {
        if (g.active) die("process() called from a simulated process");
        ++sh->nproc;
        pid_t pid = fork();
        if (pid < 0) die("fork failed");
        if (pid == 0) {
            // Child
            rlimit rl; rl.rlim_cur = rl.rlim_max = cpu_limit;
            setrlimit(RLIMIT_CPU, &rl);
            rl.rlim_cur = rl.rlim_max = 0;
            setrlimit(RLIMIT_CORE, &rl);
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            signal(SIGTERM, SIG_DFL); signal(SIGINT, SIG_DFL);
            itimerval it = {{0, 0}, {3*cpu_limit, 0}};
            setitimer(ITIMER_REAL, &it, nullptr);
            if (syscall(SYS_chdir, disk::root) != 0) die("chdir");
            if (o.quiet) {
                int fd = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR);
                dup2(fd, 0); dup2(fd, 1); dup2(fd, 2); syscall(SYS_close, fd);
            }
            sh->exc[0] = 0;
            // Memory never initialised holds the same in all executions
            mallopt(M_PERTURB, 0x5a);
            scrub_stack();
            begin_process(o);
            int code = CODE_OK;
            try {
                f();
            } catch (std::exception& e) {
                if (me) ++me->nohook;
                strncpy(sh->exc, e.what(), sizeof sh->exc-1);
                code = CODE_EXC;
            } catch (...) {
                code = CODE_EXC;
            }
            finish_child(code);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
        outcome r;
        if (WIFEXITED(st)) {
            r.code = WEXITSTATUS(st);
            if (r.code == CODE_OK) { r.kind = outcome::returned; r.code = 0; }
            else if (r.code == CODE_VIOLATION) throw violation_t();
            else if (r.code == CODE_ERROR) die("error in simulated process");
            else if (r.code == CODE_CRASH) r.kind = outcome::crashed;
            else if (r.code == CODE_EXC) { r.kind = outcome::exited; r.what = sh->exc; }
            else r.kind = outcome::exited;
        } else {
            r.kind = outcome::signaled;
            r.code = WTERMSIG(st);
            if (r.code == SIGXCPU || r.code == SIGKILL || r.code == SIGALRM) {
                // the point where it was stopped is not part of the history
                sh->hash = sh->ihash = sh->io_ops = sh->steps = 0;
                violation("no-progress", "the process did not finish within %d s of CPU time", cpu_limit);
            }
        }
        note(uint64_t(r.kind)*1000 + r.code);
        return r;
    }

    // ---- harness side access to the scratch directory -----------------------------------
    namespace disk {
        static char rootbuf[256];
        const char* root = rootbuf;

        static std::string full(const std::string& n) { return n.empty() || n[0] == '/' ? n : std::string(root)+"/"+n; }

        bool put(const std::string& name, const std::string& content) {
            int fd = syscall(SYS_openat, AT_FDCWD, full(name).c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644);
            if (fd < 0) return false;
            size_t o = 0;
            while (o < content.size()) {
                ssize_t r = syscall(SYS_write, fd, content.data()+o, content.size()-o);
                if (r <= 0) die("cannot write in scratch directory");
                o += r;
            }
            syscall(SYS_close, fd);
            return true;
        }

        bool get(const std::string& name, std::string& content) {
            content.clear();
            int fd = syscall(SYS_openat, AT_FDCWD, full(name).c_str(), O_RDONLY);
            if (fd < 0) return false;
            char b[65536]; ssize_t r;
            while ((r = syscall(SYS_read, fd, b, sizeof b)) > 0) content.append(b, r);
            syscall(SYS_close, fd);
            return r == 0;
        }

        static bool rstat(const std::string& name, struct stat& s) {
            return syscall(SYS_newfstatat, AT_FDCWD, full(name).c_str(), &s, 0) == 0;
        }
        bool have(const std::string& name) { struct stat s; return rstat(name, s); }
        bool is_dir(const std::string& name) { struct stat s; return rstat(name, s) && S_ISDIR(s.st_mode); }

        struct linux_dirent64 { uint64_t ino; int64_t off; unsigned short reclen; unsigned char type; char name[]; };

        static void wipe_dir(const std::string& d, bool self) {
            int fd = syscall(SYS_openat, AT_FDCWD, d.c_str(), O_RDONLY|O_DIRECTORY);
            if (fd < 0) return;
            std::vector<std::pair<std::string,int>> e;
            char b[32768]; long n;
            while ((n = syscall(SYS_getdents64, fd, b, sizeof b)) > 0) {
                for (long o = 0; o < n;) {
                    linux_dirent64* p = (linux_dirent64*)(b+o);
                    if (strcmp(p->name, ".") && strcmp(p->name, "..")) e.push_back({p->name, p->type});
                    o += p->reclen;
                }
            }
            syscall(SYS_close, fd);
            for (auto& x : e) {
                std::string f = d+"/"+x.first;
                if (syscall(SYS_unlinkat, AT_FDCWD, f.c_str(), 0) != 0) {
                    syscall(SYS_fchmodat, AT_FDCWD, f.c_str(), 0700);
                    wipe_dir(f, true);
                }
            }
            if (self) syscall(SYS_unlinkat, AT_FDCWD, d.c_str(), AT_REMOVEDIR);
        }

        void wipe() {
            if (strlen(rootbuf) < 10) die("bad scratch root");
            wipe_dir(rootbuf, false);
        }

        static void make_root() {
            const char* bases[] = {getenv("SIM_SCRATCH"), "/dev/shm", "/tmp"};
            for (const char* b : bases) {
                if (!b) continue;
                snprintf(rootbuf, sizeof rootbuf, "%s/vifsim.XXXXXX", b);
                if (mkdtemp(rootbuf)) return;
            }
            die("cannot create a scratch directory");
        }

        static void drop_root() { if (rootbuf[0]) { wipe(); syscall(SYS_unlinkat, AT_FDCWD, rootbuf, AT_REMOVEDIR); } }
    }

    // ---- runs ---------------------------------------------------------------------------
    static void reset_run(bool replay, uint64_t seed) {
        // only clear what was used
        sh->replay = replay;
        for (int s = 0; s < NSTREAM; ++s) {
            sh->tape[s].n = 0;
            if (!replay) sh->tape[s].len = 0;
            uint64_t k = seed*3 + s; splitmix(k);
            sh->tape[s].rng = splitmix(k) ^ (seed << 20);
        }
        sh->hash = 0x1234567; sh->ihash = 0x7654321;
        sh->steps = sh->syncs = sh->switches = sh->simtime = sh->io_ops = sh->allocs = sh->runs_threads = sh->nproc = 0;
        memset(sh->fault, 0, sizeof sh->fault);
        sh->has_violation = 0;
        memset(sh->vclass, 0, sizeof sh->vclass);
        memset(sh->vtext, 0, sizeof sh->vtext);
        memset(sh->desc, 0, sizeof sh->desc);
        sh->exc[0] = 0; sh->nontrivial = 0; sh->live_threads_end = 0; sh->peak_threads = 0; sh->ntrace = 0;
        memset(sh->probes, 0, sizeof sh->probes);
        memset(sh->arena, 0, sh->arena_used);
        sh->arena_used = 0;
        disk::reset_fired();
        disk::allow(0);
        disk::wipe();
    }

    static bool run_once(const property_t& p) {
        try {
            p.scenario();
        } catch (violation_t&) {
        }
        note(sh->has_violation);
        for (char* c = sh->vclass; *c; ++c) note(uint64_t(*c));
        note(sh->steps); note(sh->io_ops); note(sh->ihash);
        return sh->has_violation;
    }

    struct tapes { std::vector<uint32_t> v[NSTREAM]; };

    static tapes save_tapes() {
        tapes t;
        for (int s = 0; s < NSTREAM; ++s) t.v[s].assign(sh->tape[s].v, sh->tape[s].v + sh->tape[s].n);
        return t;
    }

    static void load_tapes(const tapes& t) {
        for (int s = 0; s < NSTREAM; ++s) {
            sh->tape[s].len = std::min<size_t>(t.v[s].size(), TAPE_CAP);
            std::copy(t.v[s].begin(), t.v[s].begin() + sh->tape[s].len, sh->tape[s].v);
        }
    }

    static void trim(tapes& t) {
        for (auto& v : t.v) while (!v.empty() && v.back() == 0) v.pop_back();
    }

    static bool run_tapes(const property_t& p, const tapes& t) {
        reset_run(true, 0);
        load_tapes(t);
        return run_once(p);
    }

    static const char* stream_name[] = {"work", "sched", "fault"};

    static void write_tapes(const char* file, const property_t& p, const tapes& t, uint64_t seed, uint64_t run,
        const char* cls, const char* text, uint64_t hash, const char* tr) {
        FILE* f = fopen(file, "w");
        if (!f) die("cannot write %s", file);
        fprintf(f, "vifsim-replay 1\nproperty %s\nseed %llu run %llu\nclass %s\nhash %016llx\n", p.id,
            (unsigned long long)seed, (unsigned long long)run, cls, (unsigned long long)hash);
        for (int s = 0; s < NSTREAM; ++s) {
            fprintf(f, "%s %zu:", stream_name[s], t.v[s].size());
            for (uint32_t x : t.v[s]) fprintf(f, " %u", x);
            fprintf(f, "\n");
        }
        std::string tx = text; for (char& c : tx) if (c == '\n') c = ' ';
        fprintf(f, "text %s\n", tx.c_str());
        if (tr) fprintf(f, "---- trace of the execution (informative)\n%s", tr);
        fclose(f);
    }

    static bool read_tapes(const char* file, tapes& t, std::string& cls, uint64_t& hash, uint64_t& seed, uint64_t& run) {
        FILE* f = fopen(file, "r");
        if (!f) return false;
        std::vector<char> buf(4 << 20);
        hash = 0;
        while (fgets(buf.data(), buf.size(), f)) {
            char* l = buf.data();
            if (!strncmp(l, "----", 4)) break;
            unsigned long long a, b;
            if (sscanf(l, "seed %llu run %llu", &a, &b) == 2) { seed = a; run = b; }
            if (!strncmp(l, "class ", 6)) { cls = l+6; while (!cls.empty() && cls.back() == '\n') cls.pop_back(); }
            if (!strncmp(l, "hash ", 5)) hash = strtoull(l+5, nullptr, 16);
            for (int s = 0; s < NSTREAM; ++s) {
                size_t n = strlen(stream_name[s]);
                if (!strncmp(l, stream_name[s], n) && l[n] == ' ') {
                    char* c = strchr(l, ':'); if (!c) continue;
                    ++c;
                    char* e;
                    while (true) {
                        unsigned long x = strtoul(c, &e, 10);
                        if (e == c) break;
                        t.v[s].push_back(x); c = e;
                    }
                }
            }
        }
        fclose(f);
        return true;
    }

    // Shrink the three tapes while the same class of violation persists
    static tapes minimise(const property_t& p, tapes best, const std::string& cls, double budget, int& tried) {
        double t0 = wall();
        tried = 0;
        auto test = [&](const tapes& t) {
            ++tried;
            if (!run_tapes(p, t) || cls != sh->vclass) return false;
            return true;
        };
        auto left = [&]() { return wall() - t0 < budget; };
        trim(best);
        bool progress = true;
        int order[] = {FAULT, SCHED, WORK};
        // First try emptying whole streams
        for (int s : order) {
            if (best.v[s].empty()) continue;
            tapes t = best; t.v[s].clear();
            if (test(t)) best = t;
        }
        while (progress && left()) {
            progress = false;
            for (int s : order) {
                // remove chunks
                for (size_t sz = std::max<size_t>(1, best.v[s].size()/2); sz >= 1 && left(); sz /= 2) {
                    for (size_t o = 0; o < best.v[s].size() && left();) {
                        tapes t = best;
                        t.v[s].erase(t.v[s].begin()+o, t.v[s].begin()+std::min(o+sz, t.v[s].size()));
                        trim(t);
                        if (test(t)) { best = t; progress = true; }
                        else o += sz;
                    }
                    if (sz == 1) break;
                }
                // zero chunks
                for (size_t sz = std::max<size_t>(1, best.v[s].size()/2); sz >= 1 && left(); sz /= 2) {
                    for (size_t o = 0; o < best.v[s].size() && left(); o += sz) {
                        tapes t = best; bool any = false;
                        for (size_t i = o; i < std::min(o+sz, t.v[s].size()); ++i) { any = any || t.v[s][i]; t.v[s][i] = 0; }
                        trim(t);
                        if (any && test(t)) { best = t; progress = true; }
                    }
                    if (sz == 1) break;
                }
                // lower values
                for (size_t o = 0; o < best.v[s].size() && left(); ++o) {
                    uint32_t lo = 0;
                    while (o < best.v[s].size() && best.v[s][o] > lo && left()) {
                        uint32_t mid = lo + (best.v[s][o]-lo)/2;
                        tapes t = best; t.v[s][o] = mid; trim(t);
                        if (test(t)) { best = t; progress = true; }
                        else lo = mid+1;
                    }
                }
            }
        }
        return best;
    }

    static std::string json_str(const char* s) {
        std::string r = "\"";
        for (; *s; ++s) {
            unsigned char c = *s;
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r+"\"";
    }

    static const char* opt(int argc, char** argv, const char* k, const char* def) {
        for (int i = 2; i+1 < argc; ++i) if (!strcmp(argv[i], k)) return argv[i+1];
        return def;
    }
    static bool flag(int argc, char** argv, const char* k) {
        for (int i = 2; i < argc; ++i) if (!strcmp(argv[i], k)) return true;
        return false;
    }

    static uint64_t run_seed(uint64_t seed, uint64_t r) {
        uint64_t s = seed*0x9e3779b97f4a7c15ull + r*0xd1342543de82ef95ull + 12345;
        splitmix(s);
        return splitmix(s);
    }

    // The sequence of draws for (seed, run) is the one of fresh streams keyed by run_seed
    static void start_seed(uint64_t seed, uint64_t r) { reset_run(false, run_seed(seed, r)); }

    static int cmd_run(const property_t& p, int argc, char** argv) {
        uint64_t seed = strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
        uint64_t from = strtoull(opt(argc, argv, "--from", "0"), nullptr, 10);
        uint64_t stride = strtoull(opt(argc, argv, "--stride", "1"), nullptr, 10);
        uint64_t maxr = strtoull(opt(argc, argv, "--max", "1000000000"), nullptr, 10);
        double tmax = atof(opt(argc, argv, "--time", "1e9"));
        const char* out = opt(argc, argv, "--out", nullptr);
        const char* vfile = opt(argc, argv, "--vfile", nullptr);
        const char* hfile = opt(argc, argv, "--hashes", nullptr);
        std::set<std::string> known;
        { std::string k = opt(argc, argv, "--known", ""); std::string c;
          for (char ch : k+",") { if (ch == ',') { if (!c.empty()) known.insert(c); c.clear(); } else c += ch; } }

        double t0 = wall();
        uint64_t runs = 0, nontriv = 0, steps = 0, syncs = 0, switches = 0, io = 0, nproc = 0, peak = 0, faulty = 0, nthr = 0, longest = 0;
        double simtime = 0;
        uint64_t faults[NFAULT] = {};
        std::map<std::string,uint64_t> probes, knowns;
        std::unordered_set<uint64_t> distinct, inter;
        std::vector<std::string> samples;
        FILE* hf = hfile ? fopen(hfile, "w") : nullptr;
        bool viol = false; uint64_t vrun = 0;
        uint64_t xhash = 0;
        uint64_t r = from;
        for (; r < maxr; r += stride) {
            if (wall() - t0 > tmax) break;
            start_seed(seed, r);
            bool v = run_once(p);
            ++runs;
            if (hf) { fprintf(hf, "%llu %016llx\n", (unsigned long long)r, (unsigned long long)sh->hash); fflush(hf); } // flushed: the forked processes must not inherit pending output
            uint64_t m = 0; mix(m, r); mix(m, sh->hash); xhash ^= m;
            steps += sh->steps; longest = std::max<uint64_t>(longest, sh->steps); syncs += sh->syncs; switches += sh->switches; io += sh->io_ops; nproc += sh->nproc;
            nthr += sh->runs_threads;
            peak = std::max<uint64_t>(peak, sh->peak_threads);
            simtime += 1e-9*sh->simtime;
            bool anyf = false;
            for (int i = 0; i < NFAULT; ++i) { faults[i] += sh->fault[i]; anyf = anyf || sh->fault[i]; }
            faulty += anyf;
            for (auto& q : sh->probes) if (q.name[0]) probes[q.name] += q.n;
            if (sh->nontrivial) {
                ++nontriv;
                if (distinct.size() < 4000000) distinct.insert(sh->hash);
            }
            if (sh->ihash != 0x7654321 && inter.size() < 4000000) inter.insert(sh->ihash);
            if (sh->desc[0] && samples.size() < 4 && (runs & (runs-1)) == 0 && sh->nontrivial) {
                char b[700]; snprintf(b, sizeof b, "run %llu: %s", (unsigned long long)r, sh->desc);
                samples.push_back(b);
            }
            if (v) {
                if (known.count(sh->vclass)) { ++knowns[sh->vclass]; continue; }
                viol = true; vrun = r;
                if (vfile) write_tapes(vfile, p, save_tapes(), seed, r, sh->vclass, sh->vtext, sh->hash, nullptr);
                break;
            }
        }
        if (hf) fclose(hf);
        double dt = wall() - t0;
        FILE* f = out ? fopen(out, "w") : stdout;
        fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"interleavings\":%zu,\"steps\":%llu,\"syncs\":%llu,"
            "\"switches\":%llu,\"io_ops\":%llu,\"processes\":%llu,\"threads\":%llu,\"peak_threads\":%llu,\"simtime\":%.9g,\"wall\":%.6g,\"faulty_runs\":%llu,"
            "\"longest_run_steps\":%llu,\"xhash\":\"%016llx\",\"violation\":%s,\"vrun\":%llu,\"last\":%llu,\"rule\":%s,",
            (unsigned long long)runs, (unsigned long long)nontriv, distinct.size(), inter.size(), (unsigned long long)steps,
            (unsigned long long)syncs, (unsigned long long)switches, (unsigned long long)io, (unsigned long long)nproc,
            (unsigned long long)nthr, (unsigned long long)peak, simtime, dt, (unsigned long long)faulty, (unsigned long long)longest,
            (unsigned long long)xhash, viol ? json_str(sh->vclass).c_str() : "null",
            (unsigned long long)vrun, (unsigned long long)r, json_str(p.rule).c_str());
        fprintf(f, "\"faults\":{"); bool first = true;
        for (int i = 0; i < NFAULT; ++i) if (faults[i]) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", fault_name[i], (unsigned long long)faults[i]); first = false; }
        fprintf(f, "},\"probes\":{"); first = true;
        for (auto& q : probes) { fprintf(f, "%s%s:%llu", first ? "" : ",", json_str(q.first.c_str()).c_str(), (unsigned long long)q.second); first = false; }
        fprintf(f, "},\"known\":{"); first = true;
        for (auto& q : knowns) { fprintf(f, "%s%s:%llu", first ? "" : ",", json_str(q.first.c_str()).c_str(), (unsigned long long)q.second); first = false; }
        fprintf(f, "},\"samples\":["); first = true;
        for (auto& q : samples) { fprintf(f, "%s%s", first ? "" : ",", json_str(q.c_str()).c_str()); first = false; }
        fprintf(f, "]}\n");
        if (out) fclose(f);
        return viol ? 1 : 0;
    }

    static int cmd_replay(const property_t& p, int argc, char** argv) {
        tapes t; std::string cls; uint64_t hash = 0, seed = 0, run = 0;
        if (!read_tapes(argv[3], t, cls, hash, seed, run)) { fprintf(stderr, "cannot read %s\n", argv[3]); return 2; }
        sh->tracing = flag(argc, argv, "--trace");
        bool v = run_tapes(p, t);
        if (sh->tracing) fwrite(sh->trace, 1, sh->ntrace, stdout);
        printf("replay class=%s hash=%016llx steps=%llu desc=%s\n", v ? sh->vclass : "none", (unsigned long long)sh->hash,
            (unsigned long long)sh->steps, sh->desc);
        if (v) printf("replay text=%s\n", sh->vtext);
        return v ? 1 : 0;
    }

    static int cmd_seed(const property_t& p, int argc, char** argv) {
        uint64_t seed = strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
        uint64_t r = strtoull(opt(argc, argv, "--run", "0"), nullptr, 10);
        sh->tracing = flag(argc, argv, "--trace");
        start_seed(seed, r);
        bool v = run_once(p);
        if (sh->tracing) fwrite(sh->trace, 1, sh->ntrace, stdout);
        printf("run class=%s hash=%016llx desc=%s\n", v ? sh->vclass : "none", (unsigned long long)sh->hash, sh->desc);
        if (v) printf("run text=%s\n", sh->vtext);
        return v ? 1 : 0;
    }

    static int cmd_min(const property_t& p, int argc, char** argv) {
        tapes t; std::string cls; uint64_t hash = 0, seed = 0, run = 0;
        if (!read_tapes(argv[3], t, cls, hash, seed, run)) { fprintf(stderr, "cannot read %s\n", argv[3]); return 2; }
        double budget = atof(opt(argc, argv, "--time", "30"));
        // gate: the original must reproduce in a fresh process with the same hash. Code that writes memory it never
        // initialised gives another hash when other runs came before; fresh processes then have to agree.
        bool again = run_tapes(p, t) && cls == sh->vclass;
        if (!again) {
            fprintf(stderr, "not reproducible: class %s/%s hash %016llx/%016llx\n", cls.c_str(), sh->vclass,
                (unsigned long long)hash, (unsigned long long)sh->hash);
            return 3;
        }
        if (hash && hash != sh->hash) {
            printf("note: the recorded hash was %016llx, a fresh process gives %016llx\n", (unsigned long long)hash, (unsigned long long)sh->hash);
        }
        int tried = 0;
        tapes b = minimise(p, t, cls, budget, tried);
        sh->tracing = 1;
        if (!run_tapes(p, b) || cls != sh->vclass) { fprintf(stderr, "minimised tape does not fail\n"); return 3; }
        uint64_t h = sh->hash;
        std::string text = sh->vtext, tr(sh->trace, sh->ntrace), desc = sh->desc;
        sh->tracing = 0;
        if (!run_tapes(p, b) || cls != sh->vclass) { fprintf(stderr, "minimised tape is not deterministic\n"); return 3; }
        write_tapes(argv[4], p, b, seed, run, cls.c_str(), text.c_str(), h, ("workload: "+desc+"\n"+tr).c_str());
        printf("minimised after %d attempts: work %zu->%zu sched %zu->%zu fault %zu->%zu\n%s\n", tried,
            t.v[0].size(), b.v[0].size(), t.v[1].size(), b.v[1].size(), t.v[2].size(), b.v[2].size(), text.c_str());
        return 1;
    }

    static void on_term(int) { disk::drop_root(); _exit(143); }
}

int main(int argc, char** argv) {
    using namespace sim;
    if (!getenv("SIM_REEXEC")) {
        setenv("SIM_REEXEC", "1", 1);
        int pr = personality(0xffffffff);
        // no per-thread cache: M_PERTURB (see process()) does not cover it
        setenv("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0", 1);
        if (pr != -1) personality(pr | ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    setenv("TZ", "UTC", 1);
    setenv("LC_ALL", "C", 1);
    if (argc < 3) { fprintf(stderr, "usage: %s run|replay|min|seed PROP ...\n", argv[0]); return 2; }
    sh = (shared_t*)mmap(nullptr, sizeof(shared_t), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }
    if (const char* c = getenv("SIM_CPU")) {
        cpu_set_t s; CPU_ZERO(&s); CPU_SET(atoi(c), &s); sched_setaffinity(0, sizeof s, &s);
    }
    if (const char* c = getenv("SIM_CPU_LIMIT")) cpu_limit = atoi(c);
    const property_t* p = nullptr;
    for (int i = 0; i < nprops; ++i) if (!strcmp(the_props[i]->id, argv[2])) p = the_props[i];
    if (!p) { fprintf(stderr, "unknown property %s\n", argv[2]); return 2; }
    signal(SIGTERM, on_term); signal(SIGINT, on_term);
    disk::make_root();
    int rc = 2;
    std::string cmd = argv[1];
    if (cmd == "run") rc = cmd_run(*p, argc, argv);
    else if (cmd == "replay" && argc > 3) rc = cmd_replay(*p, argc, argv);
    else if (cmd == "seed") rc = cmd_seed(*p, argc, argv);
    else if (cmd == "min" && argc > 4) rc = cmd_min(*p, argc, argv);
    disk::drop_root();
    return rc;
}
