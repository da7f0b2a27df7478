# Configuration of the checks: which harness decides which property, for how long, with what real and simulated parts
COMMON_FLAGS = ["-std=c++11", "-O1", "-g1", "-w", "-fsanitize=thread", "-DNO_REFLECTION", "-DNO_LIBUNWIND", "-DNO_LIBDWARF"]

THREAD_STUB = ["thread scheduler, mutexes, condition variables, once flags, sleeps and clocks (simulated)",
               "hardware memory model (interleaving semantics + happens-before race detector honouring memory orders)"]
THREAD_ASSUME = ["The compiler's -fsanitize=thread instrumentation reports every access of the vif code to shared memory",
                 "Code of the C and C++ run-time libraries outside headers is not instrumented",
                 "Bounded runs: at most 64 threads and 4 million steps"]
DISK_STUB = ["system calls and stdio on files (simulated, on top of a scratch directory)", "process crash (simulated by ending the process at an I/O operation)"]
DISK_ASSUME = ["Files are reached only through the interposed C library entry points",
               "Lost data after power failure is modelled at close and sync only; a process crash keeps what reached the system"]

CHECKS = {}


def thread_check(pid, harness, real, what, quick=40, **kw):
    CHECKS[pid] = dict(harness=harness, level="exploration", quick=quick, thorough=900, real=real, stub=THREAD_STUB, assumptions=THREAD_ASSUME,
                       technique="deterministic simulation with fault injection: seeded search over thread schedules (%s), happens-before race detection, "
                                 "reference model checked on each run" % what,
                       note="Seeded search: schedules and workloads are sampled (uniform, PCT-like and quantum schedulers), not enumerated", **kw)


def disk_check(pid, harness, real, what, quick=40, **kw):
    CHECKS[pid] = dict(harness=harness, level="exploration", quick=quick, thorough=900, real=real, stub=DISK_STUB, assumptions=DISK_ASSUME,
                       technique="deterministic simulation with fault injection: seeded search over storage fault sequences (%s), each result compared "
                                 "with an independent reference model" % what,
                       note="Seeded search: fault sequences and workloads are sampled, not enumerated", **kw)


thread_check("T01", "t_queue", ["vif lock-free queue (headers)", "libstdc++ containers"], "producer and consumer")
thread_check("T02", "t_pool", ["vif worker and queue (headers)", "std::thread, std::function"], "caller and worker")
thread_check("T03", "t_pool", ["vif worker pool and queue (headers)", "std::thread, std::function"], "caller and 1-4 workers")
thread_check("T04", "t_pool", ["vif parallel loop and progress bar (headers)", "std::thread"], "caller and 0-6 threads")
thread_check("T05", "t_pool", ["vif parallel loop, pool and worker (headers)", "std::thread"], "with failing thread creations")
ALL_LIBS = ["-lcfitsio", "-lfftw3", "-lwcs", "-lgsl", "-lgslcblas", "-llapack", "-lblas"]
thread_check("T06", "t_vec", ["vif vectors, views, reductions and math functions (headers)"], "2-4 threads reading, or writing distinct elements", libs=ALL_LIBS)
thread_check("T07", "t_xmatch", ["vif cross-matching (headers)", "std::thread"], "caller and 1-6 matching threads, failing thread creations", libs=ALL_LIBS)
thread_check("T08", "t_fft", ["vif Fourier transforms and convolutions (headers)", "FFTW library (installed, entry points observed)"], "2-4 threads", libs=ALL_LIBS)
thread_check("T09", "t_wcs", ["vif world coordinate objects (headers)", "WCSLIB library (installed, entry points observed)"], "2-4 threads", libs=ALL_LIBS)
thread_check("T10", "t_vec", ["vif library functions (headers)"], "2-4 threads calling functions on their own data", libs=ALL_LIBS)
disk_check("F01", "f_ascii", ["vif ASCII table writer (headers)", "libstdc++ streams"], "full disk, EIO, short and interrupted writes, failing open and close")
disk_check("F02", "f_ascii", ["vif ASCII table reader (headers)", "libstdc++ streams"], "EIO, short and interrupted reads, failing open, file modified while read")
disk_check("F03", "f_fs", ["vif file copy and load (headers)", "libstdc++ streams"], "EIO, short transfers, full disk, failing open, close and stat")
disk_check("F04", "f_fs", ["vif file system functions (headers)"], "failing stat, mkdir, remove, rename, opendir, readdir; directory orders")
FITS_REAL = ["vif FITS classes and one-line functions (headers)", "CFITSIO library (installed)"]
disk_check("F05", "f_fits", FITS_REAL, "full disk, EIO, short transfers, failing open, sync, stat, remove and truncate", libs=["-lcfitsio"])
disk_check("F06", "f_fits", FITS_REAL, "EIO, short reads, failing open, truncated files", libs=["-lcfitsio"])
disk_check("F07", "f_fits", FITS_REAL, "process killed at any I/O operation, torn and short writes", libs=["-lcfitsio"])
disk_check("F08", "f_fits", FITS_REAL, "failing open, read, write, stat and remove while opening", libs=["-lcfitsio"])
disk_check("F09", "f_fits", FITS_REAL, "orders of the operations of several objects, short transfers", libs=["-lcfitsio"])
disk_check("F10", "f_misc", ["vif DS9 regions, argument lists, filter databases, section lists (headers)", "libstdc++ streams", "WCSLIB library (installed)"],
           "EIO, short transfers, full disk, failing open, close and stat", libs=ALL_LIBS)
disk_check("F11", "f_stack", ["vif stacking, cutouts and WCS (headers)", "CFITSIO and WCSLIB libraries (installed)"],
           "EIO, short reads, failing open and stat", libs=ALL_LIBS)
disk_check("F12", "f_tools", ["13 command line tools of vif (sources of /repo/tools) and the vif headers they use", "CFITSIO, WCSLIB, FFTW and GSL libraries (installed)"],
           "EIO, short transfers, full disk, failing open, stat, mkdir and remove, process killed at any I/O operation", libs=ALL_LIBS, repo_trees=["tools"])


def other_check(pid, harness, real, stub, assume, tech, note, quick=40, **kw):
    CHECKS[pid] = dict(harness=harness, level="exploration", quick=quick, thorough=900, real=real, stub=stub, assumptions=assume,
                       technique="deterministic simulation with fault injection: " + tech, note=note, **kw)


other_check("A01", "a_vec", ["vif vectors, views and generic functions (headers)", "libstdc++ containers and strings"],
            ["memory allocator (simulated failures of operator new, on top of the real one)"],
            ["Only allocations through operator new fail", "At most 24 operations in a history"],
            "seeded search over histories of vector operations and positions of failing allocations, compared with a reference model",
            "Seeded search: histories and failing allocations are sampled, not enumerated", libs=ALL_LIBS)
other_check("M01", "m_time", ["vif progress bars, profiling and date functions (headers)"],
            ["clocks and sleeps (simulated, with jumps forward and backward)", "standard output (captured)"],
            ["Time is read only through the C library's clock functions"],
            "seeded search over loops, delays and clock jumps, the text shown is parsed and compared with a reference model",
            "Seeded search: loops and clock jumps are sampled, not enumerated", libs=ALL_LIBS)
