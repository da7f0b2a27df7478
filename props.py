# The properties, in one place.  gen.py writes properties.jsonl and MANIFEST.json from here and from checks.py.
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  state=state, observe=observe, na=na))


I = "include/vif/"

# ---- threads ------------------------------------------------------------------------------------------------------
prop("T01", "The shared queue loses, duplicates and reorders nothing",
     "With one producer thread and one consumer thread, every element pushed on the lock-free queue is popped at most once, intact, in the order "
     "it was pushed, and all elements not yet popped are still there to be popped. "
     "The empty and size queries never claim that the queue is empty to the consumer of an element whose push has completed before the query. "
     "Clearing or destroying the queue releases every remaining element exactly once, without memory errors, leaks or data races.",
     ["schedules", "histories"], "All interleavings of one producer and one consumer, all sequences of push, pop, empty, size and clear.",
     "There is no test of the thread utilities; a test would sample one scheduling on a strongly ordered CPU.",
     [I+"utility/thread.hpp", I+"utility/bits/"], [("single divider between consumed and pending nodes", I+"utility/bits/thread-queue.hpp")],
     [("head/first/last", "linked list of consumed and pending nodes", I+"utility/bits/thread-queue.hpp")],
     ["push/pop/empty/size/clear of the queue"])
prop("T02", "A background worker runs every job once, in order, before wait() returns",
     "Every job given to a background worker is executed exactly once, in the order given, never two at the same time, and all of them are finished and "
     "their effects visible when waiting on the worker returns or when the worker is destroyed. "
     "Waiting always returns, no thread is left behind, and the worker can be given jobs again after it was waited for.",
     ["schedules", "histories"], "All interleavings of the giving thread and the worker thread, all sequences of push, wait and destruction.",
     "No test uses the worker; lost wake-ups and early exits need a precise interleaving of the shut-down flag and the last push.",
     [I+"utility/thread.hpp", I+"utility/bits/"], [("worker thread draining its queue before honouring the stop flag", I+"utility/bits/thread-worker.hpp")],
     [("open/queue", "pending jobs and stop request", I+"utility/bits/thread-worker.hpp")], ["jobs executed, wait() and destructor returning"])
prop("T03", "A worker pool processes every item once, on its worker",
     "Each item given to a pool of workers is processed at most once, intact, by a single worker thread (the one it was addressed to, or the next one in "
     "turn), in the order given to that worker, using a workspace that no other thread touches; after all items were consumed and the pool joined, each was "
     "processed exactly once. "
     "The count of remaining items is zero once everything was consumed, never exceeds what was given, and includes at least the items that wait behind one being processed. "
     "Joining, restarting or destroying the pool always ends, leaves no thread running, and the processing function is never called afterwards.",
     ["schedules", "histories"], "All interleavings of the controlling thread and the workers, all sequences of start, process, consume, join and restart.",
     "No test uses the pool; the guarantees depend on the schedule of up to N+1 threads.",
     [I+"utility/thread.hpp", I+"utility/bits/"], [("one queue and one thread per worker, shut-down flag, join", I+"utility/bits/thread-worker-pool.hpp")],
     [("workers/last_push", "one queue, workspace and thread per worker", I+"utility/bits/thread-worker-pool.hpp")], ["items processed, remaining(), join()"])
prop("T04", "A parallel loop calls its function once for each index of the range",
     "For any range of integers (from a first index up to a last one, excluded), any number of threads (zero included), any chunk size, and with or without the progress bar, a parallel loop calls its "
     "function exactly once for each index of the range, never for another index, and not after it returned. "
     "The effects of all the calls are visible to the caller when the loop returns, no thread is left running, the function runs on the calling thread when "
     "no thread was requested, and the same loop object can be used again.",
     ["schedules", "inputs"], "All interleavings, all ranges, numbers of threads, chunk sizes and loop durations.",
     "No test runs a parallel loop; missing or repeated indices appear at chunk boundaries under particular schedules.",
     [I+"utility/thread.hpp", I+"utility/bits/"], [("atomic distribution of chunks of indices", I+"utility/bits/thread-parallel-for.hpp"),
                                 ("progress reporting from the calling thread", I+"utility/time.hpp progress_t")],
     [("iteration counter", "next index to hand out", I+"utility/bits/thread-parallel-for.hpp")], ["calls of the user function"])
prop("T05", "Failing to create a thread is reported and leaves nothing behind",
     "When the system refuses to create a thread (or a workspace of a pool cannot be made), the parallel loop, the worker pool and the background worker report it to the caller with an exception, "
     "with no thread still running their function afterwards, and no item, job or index executed twice; what was accepted before is executed exactly once. "
     "The same object can be used again afterwards and then behaves normally, and destroying it ends without aborting or waiting forever.",
     ["fault_sequences", "schedules", "histories"], "All positions of the failing thread creation, combined with all interleavings.",
     "Thread creation never fails in the tests.",
     [I+"utility/thread.hpp", I+"utility/bits/"], [("join of the threads already created when a creation throws", I+"utility/bits/")])
prop("T06", "Vectors and views shared between threads are free of data races",
     "Threads which only read the same vectors and views (indexing, iterating, filtering, arithmetic, reductions), or which write distinct elements or distinct "
     "rows of one pre-sized vector, do so without data races, each obtaining the value that a single thread would obtain.",
     ["schedules", "programs"], "All interleavings of 2-4 threads, random programs of const operations and disjoint writes.",
     "Tests are single-threaded.",
     [I+"core/vec.hpp", I+"core/vec/", I+"reduce.hpp", I+"math/"], [("const operations do not write to shared state", I+"core/vec.hpp")])
prop("T07", "Threaded cross-matching gives the single-threaded answer",
     "Cross-matching two catalogs of sky positions with several threads gives exactly the result of the single-threaded cross-match, for every number of "
     "threads (more threads than sources included), number of neighbours, self-matching, one-way matching and algorithm choice, with no data race or access out of bounds. "
     "For catalogs of one region of the sky, overlapping or not, the result lists, for each source, the true nearest neighbours, each once and in increasing order of distance. "
     "When the system refuses to create a thread, this is reported to the caller and no thread is left running.",
     ["schedules", "inputs"], "All interleavings of the matching threads, all catalogs and options.",
     "No test runs the cross-matching with threads.",
     [I+"astro/qxmatch.hpp"], [("per-thread ranges and merge of the partial results", I+"astro/qxmatch.hpp qxmatch_impl")])
prop("T08", "Fourier transforms and convolutions can run in several threads at once",
     "Fourier transforms, inverse transforms and convolutions of different images can be executed from several threads at once: each gives exactly what it gives alone, "
     "without data races, and the plan-making and plan-destroying entry points of the FFT library, which are not thread-safe, are never entered by two threads at the same time. "
     "An object for convolving a batch of images gives for each of them, in any order and after having been moved, what a new object would give, and releases all its plans once.",
     ["schedules", "programs"], "All interleavings of 2-4 threads computing transforms and convolutions of any size.",
     "Tests are single-threaded.",
     [I+"math/fourier.hpp", I+"astro/image.hpp"], [("global mutex around the planner", I+"math/fourier.hpp fftw_planner_mutex")])
prop("T09", "World coordinate objects can be made and used in several threads at once",
     "World coordinate system objects can be built from headers, moved, destroyed and used for conversions (each thread its own object) from several threads at once: "
     "each gives exactly what it gives alone, without data races, and the header parser and the set-up of the structures of the WCS library, which are not thread-safe, are never entered by two threads at the same time.",
     ["schedules", "programs"], "All interleavings of 2-4 threads creating and using WCS objects.",
     "Tests are single-threaded.",
     [I+"astro/wcs.hpp"], [("global mutex around the parser", I+"astro/wcs.hpp wcs_parser_mutex")])
prop("T10", "Functions without shared arguments are re-entrant",
     "Library functions called from several threads at once on arguments of their own (string conversion and formatting, dates, paths, random numbers with separate "
     "seeds, statistics, histograms, sorting, searches, matrices, interpolation, fitting, geometry, coordinates, cosmology, spectra, image processing) give what they give alone, without data races.",
     ["schedules", "programs"], "All interleavings of 2-4 threads calling random library functions on private data.",
     "Tests are single-threaded.",
     [I+"utility/", I+"core/", I+"math/", I+"astro/astro.hpp", I+"astro/image.hpp"], [("no hidden static state", I)])

# ---- storage ------------------------------------------------------------------------------------------------------
prop("F01", "An ASCII table is written completely, or the failure is reported",
     "Whatever the storage does (full disk, failing, short or interrupted writes, missing directory), when writing an ASCII table returns normally the file is closed and "
     "contains exactly the header, columns and rows given, laid out as requested; otherwise the failure is reported. "
     "A request that is not consistent (columns of different lengths, wrong number of column names) is reported and never yields a table.",
     ["fault_sequences", "inputs"], "All tables and output formats, all sequences of storage faults at any operation.",
     "Tests write small tables on a disk that never fails.",
     [I+"io/ascii.hpp"], [("stream state checked before returning", I+"io/ascii.hpp write_table_*")], (), ["content of the file when write_table() returns"])
prop("F02", "An ASCII table is read exactly, or the failure is reported",
     "Whatever the storage does (failing or short reads, file that cannot be opened, file modified while it is read), when reading an ASCII table returns normally the vectors contain exactly "
     "the rows and columns of the file, comments, blank lines and skipped rows and columns excluded; otherwise the failure is reported, and reading always ends. "
     "Text that is not a value of the requested type or a row with missing columns is reported.",
     ["fault_sequences", "inputs"], "All well-formed and malformed tables and input formats, all sequences of storage faults.",
     "Tests read a handful of well-formed files on a disk that never fails.",
     [I+"io/ascii.hpp", I+"utility/string.hpp"], [("two passes over the file, count then read, with stream state checked", I+"io/ascii.hpp read_table")])
prop("F03", "Copying a file or loading it in a string is exact, or reported",
     "When copying a file reports success the destination has exactly the bytes of the source, and the source is unchanged (also when both names are the same file); when it reports failure the "
     "source is still intact. Loading a file in a string gives exactly its bytes, or an empty string if it could not be read.",
     ["fault_sequences", "inputs"], "All file contents and sizes, all aliasings of the two names, all sequences of storage faults.",
     "Tests do not copy files on a failing disk.",
     [I+"io/filesystem.hpp"], [("stream state checked after copy", I+"io/filesystem.hpp copy, to_string")])
prop("F04", "File queries and changes tell the truth about the file system",
     "After any history of operations, checking the existence of a file, comparing modification times, listing or exploring directories report the true state of the file system (or nothing, "
     "if it cannot be read), and creating directories, moving and removing files report success if and only if the requested state was reached. "
     "They change nothing else than what was requested, whatever fails, and leave no file or directory open.",
     ["fault_sequences", "histories"], "All sequences of operations on a directory tree with all sequences of failing system calls and directory orders.",
     "Tests only exercise a few path functions on a working file system.",
     [I+"io/filesystem.hpp", I+"io/path.hpp"], [("results of the system calls checked", I+"io/filesystem.hpp")])
prop("F05", "FITS data is written completely, or the failure is reported",
     "Whatever the storage does, when writing or updating FITS images, headers and tables with the one-line functions returns normally (or, with file objects, when flushing returns normally) the file on "
     "disk is a valid FITS file with exactly the values, dimensions, types and keywords given, and the other extensions and columns unchanged; otherwise the failure is reported with an exception. "
     "Overwriting the content of an existing file through the one-line functions never keeps anything of the old content.",
     ["fault_sequences", "inputs"], "All images, tables and keywords, all sequences of storage faults.",
     "Tests write small files on a disk that never fails.",
     [I+"io/fits/base.hpp", I+"io/fits/image.hpp", I+"io/fits/table.hpp"], [("status of each library call checked, buffers flushed before reporting success", I+"io/fits/")])
prop("F06", "FITS data is read exactly, or the failure is reported",
     "Whatever the storage does, when reading a FITS image, table column, header or keyword returns normally the values, dimensions and flags are exactly those stored in the file; otherwise the failure is "
     "reported with an exception (or the false returned by the functions that do so), with no memory error or leak. "
     "After a request that cannot be satisfied (wrong type, missing column, values too large) the same object reads other data correctly, and once the storage works again an object opened anew does.",
     ["fault_sequences", "inputs"], "All files, all sequences of storage faults and truncations.",
     "Tests read small valid files on a disk that never fails.",
     [I+"io/fits/base.hpp", I+"io/fits/image.hpp", I+"io/fits/table.hpp"], [("status of each library call checked", I+"io/fits/")])
prop("F07", "FITS data flushed before a crash survives it",
     "If the process is killed at any point after flushing a FITS file returned normally and before anything else is written, the file on disk is valid and contains everything written before the flush. "
     "A crash during later changes of an image or of table values in place changes nothing else than these values.",
     ["crash_points", "histories"], "All crash points after a successful flush, all histories of writes and flushes.",
     "Tests never crash the process.",
     [I+"io/fits/base.hpp"], [("flush writes header and buffers to the file", I+"io/fits/base.hpp flush, flush_buffer")])
prop("F08", "A FITS object stays usable after a failed or repeated open",
     "After opening a file failed with an exception, or after closing, re-opening, moving or destroying, a FITS object behaves like a new one: it can be opened again and reads and writes exactly, reports its state and file name "
     "truthfully, and operations that are not possible in its state are reported with an exception instead of crashing. "
     "No file is left open after the object is closed or destroyed.",
     ["fault_sequences", "histories"], "All histories of open, close, move and use with all failures of the storage.",
     "Tests open valid files once.",
     [I+"io/fits/base.hpp"], [("open() cleans up before reporting an error", I+"io/fits/base.hpp file_base::open")])
prop("F09", "Several FITS objects on one file agree with each other",
     "Several FITS readers can be open on the same file at the same time, each with its own current extension: what each reads is not affected by the others. "
     "What one object wrote and flushed or closed is what objects opened afterwards read.",
     ["histories"], "All interleavings of the operations of 2-3 objects open on the same file.",
     "Tests open one object at a time.",
     [I+"io/fits/base.hpp"], [("one library handle per object", I+"io/fits/base.hpp")])
prop("F10", "Other file products are exact, or the failure is reported",
     "When writing or reading a DS9 region file, a saved list of program arguments, a list of sky positions, a database of filters or of filter names, filter curves, or the list of files of a sectioned image returns normally, "
     "the file written, or the content returned, is complete and exact; otherwise the failure is reported (error status, exception or message followed by the end of the program). "
     "Regions written in pixel or sky coordinates and read back are the same regions. No function loops forever or leaves a file open.",
     ["fault_sequences", "inputs"], "All contents (0 to hundreds of entries) and all sequences of storage faults.",
     "Tests do not exercise these with failing storage.",
     [I+"astro/ds9.hpp", I+"astro/astro.hpp", I+"utility/argv.hpp", I+"io/fits.hpp"], [("stream state checked after reading and writing", I+"astro/ds9.hpp"), ("status of the filter and region readers", I+"astro/astro.hpp")])
prop("F11", "Stacks and cutouts are taken from the right pixels, or the failure is reported",
     "Cutouts extracted around a list of positions (qstack, cutout_extractor) contain exactly the pixels of the images around these positions, NaN where no image covers the cutout, for images made of one file or of several overlapping sections, with or without weights; "
     "the identifiers, offsets and sections returned are those of the sources kept, and the sources kept are those that the images cover. Weights that do not match the images are refused. Pixel sizes and header information are those in the files. "
     "If an image cannot be read, the failure is reported: no wrong, missing or repeated pixels are returned. No file is left open.",
     ["fault_sequences", "inputs"], "All images, sections, positions, cutout sizes and sequences of storage faults.",
     "Tests stack nothing from failing storage, and at most one source of one image.",
     [I+"astro/qstack.hpp", I+"astro/image.hpp", I+"astro/wcs.hpp", I+"io/fits.hpp"], [("sections read through CFITSIO subset reads", I+"astro/qstack.hpp qstack()"), ("cached image of cutout_extractor", I+"astro/image.hpp")])

prop("F12", "Command line tools give complete results or an error, and keep their inputs",
     "The programs fits2ascii, qmask, qconvol, qxmatch2, qregrid, subsrc, imgtool, psffit, randsrc, angcorrel, qstack2, radec2pix and catinfo, run as a whole: if one ends with success and prints no error, then each of its output files is complete and holds "
     "exactly what the same command produces when the storage works, and what it prints as result is the same, whatever output files existed before; their input files (other than a file also given as output) are never modified, whatever fails and even if the program is killed at any point. "
     "After a failure or a crash, running the same command again once the storage works gives the right result. "
     "With working storage: fits2ascii writes the values of all the columns and selected rows; qmask marks the pixels inside the circles of the region file and no others; qxmatch2 gives the distance of the nearest neighbour; imgtool multiply gives the product; radec2pix the pixel coordinates.",
     ["fault_sequences", "crash_points", "inputs"], "All storage fault sequences and crash points during one execution, for a range of commands.",
     "No test runs the tools.",
     ["tools/fits2ascii", "tools/qmask", "tools/qconvol", "tools/qxmatch2", "tools/qregrid", "tools/subsrc", "tools/imgtool", "tools/psffit", "tools/randsrc", "tools/angcorrel", "tools/qstack2", "tools/radec2pix", "tools/catinfo", I+"io/fits.hpp", I+"io/ascii.hpp"],
     [("error handling of each program", "tools/*/*.cpp vif_main()")])

# ---- time, memory -------------------------------------------------------------------------------------------------
prop("M01", "Timing and progress helpers survive clock jumps and any counts",
     "The progress bars, date, time formatting and profiling helpers never crash, throw or loop, whatever the clock does (standing still, jumping forward or backward) and whatever the number of iterations. "
     "The count, percentage and bar shown are those of the iteration, the last iteration is always shown, the line is ended exactly once, at the end of the loop, and nothing is printed afterwards. "
     "The profiled function is called exactly as many times as requested. "
     "With a steady clock the elapsed, remaining and total durations reported are right.",
     ["fault_sequences", "inputs"], "All iteration counts, all sequences of clock jumps and of durations between two iterations.",
     "Tests do not control the clock.",
     [I+"utility/time.hpp"], [("clamping of the progress and of the remaining time", I+"utility/time.hpp progress_t"), ("display interval", I+"utility/time.hpp progress_tick")])
prop("A01", "Running out of memory never corrupts a vector",
     "If an allocation fails inside an operation on vectors, the operation throws and leaves every vector involved with dimensions that match its content, safe to use and to destroy, with no leak, and vectors which are only read are unchanged. "
     "For vectors of numbers, resizing, reserving, appending, prepending, adding elements and assigning leave the vector either unchanged or fully modified. "
     "This includes vectors whose content was moved away. When no allocation fails, the result is the documented one.",
     ["fault_sequences", "histories"], "All operations, all sequences of operations, all positions of the failing allocations.",
     "Allocations never fail in the tests.",
     [I+"core/vec.hpp", I+"utility/generic.hpp"], [("order of allocation and of update of the dimensions", I+"core/vec.hpp"), ("append() and prepend()", I+"utility/generic.hpp")])

# ---- not decided by simulation -------------------------------------------------------------------------------------
NA = "Pure function of its arguments: there is no concurrency, time, I/O or fault for a simulation to control; deciding it needs proof or input-space testing."
prop("N01", "Vector indexing, views and arithmetic follow their documented semantics",
     "Indexing, range, view, broadcasting and element-wise arithmetic on vectors give the documented values and dimensions, and out-of-bounds or mismatched operations are reported.",
     ["inputs", "programs"], "All vectors, indices and types.", "Tests sample a few vectors.", [I+"core/vec.hpp"], [("bounds checks", I+"core/vec.hpp")], na=NA)
prop("N02", "Reductions, sorting and interpolation give the mathematically right values",
     "Reductions, sorting, histogramming, interpolation, integration and matrix functions give the mathematically correct result within rounding.",
     ["inputs"], "All numerical inputs.", "Tests sample a few arrays.", [I+"math/"], [("numerical algorithms", I+"math/")], na=NA)
prop("N03", "Text and number conversions are exact inverses",
     "Converting a value to text and back gives the same value, and text that is not a value is refused.",
     ["inputs"], "All values and strings.", "Tests sample a few strings.", [I+"utility/string.hpp", I+"core/string_conversion.hpp"], [("stream based conversion", I+"core/string_conversion.hpp")], na=NA)
prop("N04", "Sky coordinate conversions are inverse of each other",
     "Converting sky positions to pixels and back, sexagesimal to degrees and back, gives the starting position within rounding.",
     ["inputs"], "All positions and projections.", "Tests sample a few positions.", [I+"astro/wcs.hpp", I+"astro/astro.hpp"], [("WCS library", I+"astro/wcs.hpp")], na=NA)
prop("N05", "Command line arguments are parsed as documented",
     "Command line arguments are assigned to the named variables, with unknown or malformed arguments reported.",
     ["inputs"], "All argument lists.", "Tests sample a few lists.", [I+"utility/argv.hpp"], [("argument parser", I+"utility/argv.hpp")], na=NA)
prop("N06", "Path functions are consistent with each other",
     "Splitting, joining, simplifying and relating paths give the documented strings, and joining what was split gives an equivalent path.",
     ["inputs"], "All path strings.", "Tests sample a few paths.", [I+"io/path.hpp", I+"io/filesystem.hpp"], [("string functions", I+"io/filesystem.hpp")], na=NA)
