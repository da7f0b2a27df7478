From 890eebe1f407a7288c27bc6ea5bef71a3fe5e786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:18 +0000
Subject: [PATCH 01/61] fix: parallel_for iterated outside of the requested
 range

The end of the range was compared to the number of iterations instead of
the last index, so ranges not starting at zero were skipped or repeated,
and the first chunk was not clamped to the end of the range (called out of
range with a single thread).
---
 include/vif/utility/bits/thread-parallel-for.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/vif/utility/bits/thread-parallel-for.hpp b/include/vif/utility/bits/thread-parallel-for.hpp
index db00fc0..7a30151 100644
--- a/include/vif/utility/bits/thread-parallel-for.hpp
+++ b/include/vif/utility/bits/thread-parallel-for.hpp
@@ -49,12 +49,12 @@ namespace thread {
         // Internal
         std::mutex query_mutex;
         std::atomic<uint_t> iter;
-        uint_t n, i0, i1, di;
+        uint_t n, i0, i1, iend, di;
 
         bool query_chunk(uint_t& oi0, uint_t& oi1) {
             std::unique_lock<std::mutex> l(query_mutex);
 
-            if (i0 == n) {
+            if (i0 == iend) {
                 return false;
             }
 
@@ -63,8 +63,8 @@ namespace thread {
 
             i0 = i1;
             i1 += di;
-            if (i1 > n) {
-                i1 = n;
+            if (i1 > iend) {
+                i1 = iend;
             }
 
             return true;
@@ -103,7 +103,8 @@ namespace thread {
                 // Setup chunks
                 di = n/nchunk + 1;
                 i0 = ifirst;
-                i1 = ifirst + di;
+                i1 = std::min(ifirst + di, ilast);
+                iend = ilast;
                 iter = 0;
 
                 // Launch threads
-- 
2.43.0


From ed0caf4cd3f0e840bf6ca60b0a9da67f846a05f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:18 +0000
Subject: [PATCH 02/61] fix: progress bar of zero iterations threw an exception

---
 include/vif/utility/time.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/utility/time.hpp b/include/vif/utility/time.hpp
index 6501886..cf3fbac 100644
--- a/include/vif/utility/time.hpp
+++ b/include/vif/utility/time.hpp
@@ -119,6 +119,8 @@ namespace vif {
 
     namespace impl {
         inline void progress_(progress_t& p) {
+            if (p.n == 0) return;
+
             double n = now();
             double total = n - p.start;
             double remaining = total*double(p.n)/(p.i+1) - total;
-- 
2.43.0


From 37204f07264fa796eca82414cf9cdab4c61a0af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:18 +0000
Subject: [PATCH 03/61] fix: destroying a running worker of a pool waited
 forever

This happens when start() is called on a pool that is running, or when a
thread cannot be created in the middle of start().
---
 include/vif/utility/bits/thread-worker-pool.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/utility/bits/thread-worker-pool.hpp b/include/vif/utility/bits/thread-worker-pool.hpp
index a5d4326..dd41840 100644
--- a/include/vif/utility/bits/thread-worker-pool.hpp
+++ b/include/vif/utility/bits/thread-worker-pool.hpp
@@ -25,6 +25,7 @@ namespace thread_impl {
         }) {}
 
         ~worker_with_workspace() {
+            shutdown = true;
             join();
         }
 
@@ -58,6 +59,7 @@ namespace thread_impl {
         }) {}
 
         ~worker_no_workspace() {
+            shutdown = true;
             join();
         }
 
-- 
2.43.0


From dc717f6bcd773bb4d0c9a5f75a8c4dc3c4c3b314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:18 +0000
Subject: [PATCH 04/61] fix: parallel_for left threads running when one could
 not be created

---
 .../vif/utility/bits/thread-parallel-for.hpp  | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/thread-parallel-for.hpp b/include/vif/utility/bits/thread-parallel-for.hpp
index 7a30151..3c1eecf 100644
--- a/include/vif/utility/bits/thread-parallel-for.hpp
+++ b/include/vif/utility/bits/thread-parallel-for.hpp
@@ -108,8 +108,24 @@ namespace thread {
                 iter = 0;
 
                 // Launch threads
-                for (auto& t : workers) {
-                    t.start(f, verbose);
+                uint_t nstarted = 0;
+                try {
+                    for (auto& t : workers) {
+                        t.start(f, verbose);
+                        ++nstarted;
+                    }
+                } catch (...) {
+                    // Some threads could not be created, stop the others and report the error
+                    {
+                        std::unique_lock<std::mutex> l(query_mutex);
+                        i0 = i1 = iend;
+                    }
+
+                    for (uint_t i = 0; i < nstarted; ++i) {
+                        workers[i].join();
+                    }
+
+                    throw;
                 }
 
                 progress_t pg;
-- 
2.43.0


From f38f182cdf467058c83cef6ae34ce75fc397a486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:36 +0000
Subject: [PATCH 05/61] fix: reading an ASCII table hid read errors, or never
 ended

---
 include/vif/io/ascii.hpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index b5897e4..411e695 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -329,12 +329,11 @@ namespace ascii {
             spl.delim_single = opts.delim_single;
 
             std::ifstream file(name);
+            vif_check(file.is_open(), "cannot open file '"+name+"'");
 
             // Count number of lines
             uint_t n = 0; {
-                while (!file.eof()) {
-                    ascii::getline(file, spl.line);
-
+                while (ascii::getline(file, spl.line)) {
                     auto p = spl.line.find_first_not_of(" \t");
                     if (p == spl.line.npos || (opts.auto_skip && spl.line.find(opts.skip_pattern) == p)) {
                         continue;
@@ -343,7 +342,11 @@ namespace ascii {
                     ++n;
                 }
 
-                n -= opts.skip_first;
+                if (file.bad()) {
+                    throw ascii::exception("could not read the content of the file");
+                }
+
+                n = (n > opts.skip_first ? n - opts.skip_first : 0);
             }
 
             // Resize all vectors
@@ -355,9 +358,8 @@ namespace ascii {
 
             uint_t i = 0;
             uint_t to_skip = opts.skip_first;
-            while (!file.eof()) {
+            while (ascii::getline(file, spl.line)) {
                 spl.reset();
-                ascii::getline(file, spl.line);
 
                 auto p = spl.line.find_first_not_of(" \t");
                 if (p == spl.line.npos || (opts.auto_skip && spl.line.find(opts.skip_pattern) == p)) {
@@ -369,10 +371,21 @@ namespace ascii {
                     continue;
                 }
 
+                if (i == n) {
+                    throw ascii::exception("the file was modified while it was being read");
+                }
+
                 uint_t j = 0;
                 impl::ascii_impl::read_table_(spl, i, j, args...);
                 ++i;
             }
+
+            if (file.bad()) {
+                throw ascii::exception("could not read the content of the file");
+            }
+            if (i != n) {
+                throw ascii::exception("the file was modified while it was being read");
+            }
         } catch (ascii::exception& e) {
             vif_check(false, std::string(e.what())+" (reading "+name+")");
         }
-- 
2.43.0


From 7fa7a122c84033ba7578a08b6d528c70b9f975a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:36 +0000
Subject: [PATCH 06/61] fix: ASCII table accepted an empty column followed by
 non-empty ones

---
 include/vif/io/ascii.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index 411e695..668039f 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -482,7 +482,7 @@ namespace impl {
 
             static_assert(Dim <= 2, "cannot write vectors of more than two dimensions");
 
-            if (r == 0) {
+            if (r == npos) {
                 r = v.dims[0];
             }
 
@@ -648,8 +648,9 @@ namespace ascii {
         vif_check(file.out.is_open(), "could not open file "+filename+" to write data");
 
         // Compute number of rows and check that all vectors have the same size
-        uint_t r = 0, c = 0;
+        uint_t r = npos, c = 0;
         impl::ascii_impl::write_table_check_size_(r, c, args...);
+        if (r == npos) r = 0;
 
         if (!opts.header.empty()) {
             vif_check(opts.header.size() == c, "mismatch between dimensions of header and number "
-- 
2.43.0


From 5eedc1d40711813d6c50d8d189347766c7e29fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:36 +0000
Subject: [PATCH 07/61] fix: writing an ASCII table hid write errors

---
 include/vif/io/ascii.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index 668039f..e59f42b 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -715,6 +715,10 @@ namespace ascii {
         } catch (ascii::exception& e) {
             vif_check(false, std::string(e.what())+" (writing "+filename+")");
         }
+
+        // Check that all the data was written
+        file.out.close();
+        vif_check(file.out.good(), "could not write data to file "+filename);
     }
 
     template<typename T, typename ... Args, typename enable = typename std::enable_if<
-- 
2.43.0


From 8139e532d85bfa7a9abcdb93c05e1ba8593c2af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:55 +0000
Subject: [PATCH 08/61] fix: file::exists() was false for existing files that
 cannot be opened

---
 include/vif/io/filesystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index fad8c8e..b3845fb 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -23,8 +23,8 @@ namespace file {
             return false;
         }
 
-        std::ifstream f(path.c_str());
-        return f.is_open();
+        struct stat st;
+        return ::stat(path.c_str(), &st) == 0;
     }
 
     inline bool is_older(const std::string& file1, const std::string& file2) {
-- 
2.43.0


From 35f98b1badcc1b041e8515cbde4956683de67326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:55 +0000
Subject: [PATCH 09/61] fix: file::is_older() did not compare the modification
 times

---
 include/vif/io/filesystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index b3845fb..eeae506 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -31,7 +31,7 @@ namespace file {
         struct stat st1, st2;
         if (::stat(file1.c_str(), &st1) != 0) return false;
         if (::stat(file2.c_str(), &st2) != 0) return false;
-        return std::difftime(st1.st_ctime, st2.st_ctime) < 0.0;
+        return std::difftime(st1.st_mtime, st2.st_mtime) < 0.0;
     }
 
     inline bool is_absolute_path(const std::string& path) {
-- 
2.43.0


From 2da4b5a836f2642ec89f70285daef6852b2aec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:55 +0000
Subject: [PATCH 10/61] fix: file::copy() hid read and write errors, and erased
 a file copied on itself

---
 include/vif/io/filesystem.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index eeae506..93d11d4 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -42,10 +42,23 @@ namespace file {
     inline bool copy(const std::string& file_from, const std::string& file_to) {
         std::ifstream src(file_from, std::ios::binary);
         if (!src.is_open()) return false;
+
+        // Opening the destination would erase the source if they are the same file
+        struct stat st1, st2;
+        if (::stat(file_from.c_str(), &st1) != 0) return false;
+        if (::stat(file_to.c_str(), &st2) == 0 &&
+            st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino) return false;
+
         std::ofstream dst(file_to,   std::ios::binary);
         if (!dst.is_open()) return false;
-        dst << src.rdbuf();
-        return true;
+
+        char buffer[4096];
+        while (src.read(buffer, sizeof(buffer)) || src.gcount() > 0) {
+            dst.write(buffer, src.gcount());
+        }
+
+        dst.close();
+        return !src.bad() && dst.good();
     }
 
     inline bool remove(const std::string& path) {
-- 
2.43.0


From f79352400368d1ff37c7d8bb8f675cbd1b8b77aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:55 +0000
Subject: [PATCH 11/61] fix: file::to_string() returned garbage if the file
 could not be read

---
 include/vif/io/filesystem.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 93d11d4..1b70fc0 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -73,10 +73,12 @@ namespace file {
         std::string   dst;
         std::ifstream src(file_name, std::ios::binary);
         if (src) {
-            src.seekg(0, std::ios::end);
-            dst.resize(src.tellg());
-            src.seekg(0, std::ios::beg);
-            src.read(&dst[0], dst.size());
+            char buffer[4096];
+            while (src.read(buffer, sizeof(buffer)) || src.gcount() > 0) {
+                dst.append(buffer, src.gcount());
+            }
+
+            if (src.bad()) dst.clear();
             src.close();
         }
 
-- 
2.43.0


From 4e8c682214f2e14a8c2b38792777f1919aee47b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:55 +0000
Subject: [PATCH 12/61] fix: file::remove() returned true without removing the
 file

---
 include/vif/io/filesystem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 1b70fc0..3f0f1b7 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -4,6 +4,7 @@
 #include <dirent.h>
 #include <unistd.h>
 #include <fnmatch.h>
+#include <cerrno>
 #include <cstring>
 #include <cstdio>
 #include <sys/stat.h>
@@ -62,7 +63,7 @@ namespace file {
     }
 
     inline bool remove(const std::string& path) {
-        return !file::exists(path) || ::remove(path.c_str()) == 0;
+        return ::remove(path.c_str()) == 0 || errno == ENOENT || errno == ENOTDIR;
     }
 
     inline bool move(const std::string& from, const std::string& to) {
-- 
2.43.0


From a03e741cf903d84f667f32d20a8fd7fcdbabc788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:55 +0000
Subject: [PATCH 13/61] fix: file::explorer closed its directory several times

---
 include/vif/io/filesystem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 3f0f1b7..529d118 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -121,7 +121,8 @@ namespace file {
 
             if (dirfd) {
                 closedir(dirfd);
-            };
+                dirfd = nullptr;
+            }
         }
 
         bool open(const std::string& dir, const std::string& p = "") {
-- 
2.43.0


From df2ac677ec1145d290efc92b751d1b9126ac0048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:55 +0000
Subject: [PATCH 14/61] fix: file::mkdir() returned true if a regular file
 exists at that path

---
 include/vif/io/filesystem.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 529d118..040a32f 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -291,7 +291,9 @@ namespace file {
             if (d.empty()) continue;
             if (!tmp.empty() || begins_with(path, "/")) tmp += "/";
             tmp += d;
-            bool res = (::mkdir(tmp.c_str(), 0775) == 0) || (errno == EEXIST);
+            struct stat st;
+            bool res = (::mkdir(tmp.c_str(), 0775) == 0) || (errno == EEXIST &&
+                ::stat(tmp.c_str(), &st) == 0 && S_ISDIR(st.st_mode));
             if (!res) return false;
         }
         return true;
-- 
2.43.0


From 14e2b3582ebabae1b16754e26a1d21cbed480a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:28 +0000
Subject: [PATCH 15/61] fix: file::copy() could erase a file copied on itself
 if its status is unknown

---
 include/vif/io/filesystem.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 040a32f..8530a82 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -47,8 +47,11 @@ namespace file {
         // Opening the destination would erase the source if they are the same file
         struct stat st1, st2;
         if (::stat(file_from.c_str(), &st1) != 0) return false;
-        if (::stat(file_to.c_str(), &st2) == 0 &&
-            st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino) return false;
+        if (::stat(file_to.c_str(), &st2) == 0) {
+            if (st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino) return false;
+        } else if (errno != ENOENT) {
+            return false;
+        }
 
         std::ofstream dst(file_to,   std::ios::binary);
         if (!dst.is_open()) return false;
-- 
2.43.0


From 404856206da7f38e0477fb397936ffe75007e76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:05 +0000
Subject: [PATCH 16/61] fix: listing a directory returned a partial list if it
 could not be read

---
 include/vif/io/filesystem.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 8530a82..e48fd91 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -93,6 +93,7 @@ namespace file {
         std::string directory;
         std::string pattern;
         DIR* dirfd = nullptr;
+        bool error = false;
 
     public :
 
@@ -121,6 +122,7 @@ namespace file {
         void close() {
             directory = "";
             pattern = "";
+            error = false;
 
             if (dirfd) {
                 closedir(dirfd);
@@ -147,6 +149,7 @@ namespace file {
             if (!dirfd) return false;
 
             dirent* entry;
+            errno = 0;
 
             if (pattern.empty()) {
                 entry = readdir(dirfd);
@@ -158,7 +161,10 @@ namespace file {
                 }
             }
 
-            if (!entry) return false;
+            if (!entry) {
+                error = (errno != 0);
+                return false;
+            }
 
             f.name = entry->d_name;
             f.full_path = directory + "/" + f.name;
@@ -176,6 +182,11 @@ namespace file {
 
             return true;
         }
+
+        // True if the last search was interrupted by an error
+        bool failed() const {
+            return error;
+        }
     };
 
     inline vec1s list_directories(const std::string& dir, const std::string& pattern = "*") {
@@ -193,6 +204,8 @@ namespace file {
             }
         }
 
+        if (e.failed()) dlist.clear();
+
         return dlist;
     }
 
@@ -211,6 +224,8 @@ namespace file {
             }
         }
 
+        if (e.failed()) flist.clear();
+
         return flist;
     }
 
-- 
2.43.0


From 641c20fdafed8b9fdb8bbc1b8f9d5f161f22f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:58 +0000
Subject: [PATCH 17/61] fix: reach_hdu() creates missing HDUs at the end of the
 file, not after the current HDU

---
 include/vif/io/fits/base.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 7e64ae3..d79dc5a 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -595,6 +595,12 @@ namespace impl {
                 } else {
                     if (hdu >= nhdu) {
                         // Create missing HDUs to be able to reach the one requested
+                        // Move to the end first because CFITSIO will insert *after* current HDU
+                        if (nhdu != 0) {
+                            fits_movabs_hdu(fptr_, nhdu, nullptr, &status_);
+                            fits::vif_check_cfitsio(status_, "could not reach HDU "+to_string(hdu));
+                        }
+
                         long naxes = 0;
                         for (uint_t i = nhdu; i <= hdu; ++i) {
                             fits_insert_img(fptr_, impl::fits_impl::traits<float>::image_type,
-- 
2.43.0


From e93649f6bdbde6aededf23168ea2c28e27e4cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:20 +0000
Subject: [PATCH 18/61] fix: one-line FITS writing functions report the errors
 found when the data reaches the file

---
 include/vif/io/fits.hpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/vif/io/fits.hpp b/include/vif/io/fits.hpp
index ae42694..fe713b3 100644
--- a/include/vif/io/fits.hpp
+++ b/include/vif/io/fits.hpp
@@ -123,11 +123,14 @@ namespace fits {
         fits::output_image img(filename);
         img.write(v);
         img.write_header(hdr);
+        img.flush();
     }
 
     template<std::size_t Dim, typename Type>
     void write(const std::string& filename, const vec<Dim,Type>& v) {
-        fits::output_image(filename).write(v);
+        fits::output_image img(filename);
+        img.write(v);
+        img.flush();
     }
 
     // Write an image in a FITS file
@@ -136,6 +139,7 @@ namespace fits {
         fits::image img(filename);
         img.reach_hdu(hdu);
         img.update(v);
+        img.flush();
     }
 
     // Read information about the columns of a FITS table
@@ -186,19 +190,25 @@ namespace fits {
     // Write several columns in a FITS file.
     template<typename ... Args>
     void write_table(const std::string& filename, const std::string& name, Args&& ... args) {
-        fits::output_table(filename).write_columns(name, std::forward<Args>(args)...);
+        fits::output_table tbl(filename);
+        tbl.write_columns(name, std::forward<Args>(args)...);
+        tbl.flush();
     }
 
     template<typename ... Args>
     void write_table(const std::string& filename, impl::ascii_impl::macroed_t,
         const std::string& names, Args&& ... args) {
-        fits::output_table(filename).write_columns(impl::ascii_impl::macroed_t{},
+        fits::output_table tbl(filename);
+        tbl.write_columns(impl::ascii_impl::macroed_t{},
             names, std::forward<Args>(args)...);
+        tbl.flush();
     }
 
     template<typename T, typename enable = typename std::enable_if<reflex::enabled<T>::value>::type>
     void write_table(const std::string& filename, const T& t) {
-        fits::output_table(filename).write_columns(t);
+        fits::output_table tbl(filename);
+        tbl.write_columns(t);
+        tbl.flush();
     }
 
     // Append an new column to an existing FITS table
@@ -206,19 +216,25 @@ namespace fits {
 
     template<typename ... Args>
     void update_table(const std::string& filename, const std::string& name, Args&& ... args) {
-        fits::table(filename).update_columns(name, std::forward<Args>(args)...);
+        fits::table tbl(filename);
+        tbl.update_columns(name, std::forward<Args>(args)...);
+        tbl.flush();
     }
 
     template<typename ... Args>
     void update_table(const std::string& filename, impl::ascii_impl::macroed_t,
         const std::string& names, Args&& ... args) {
-        fits::table(filename).update_columns(impl::ascii_impl::macroed_t{},
+        fits::table tbl(filename);
+        tbl.update_columns(impl::ascii_impl::macroed_t{},
             names, std::forward<Args>(args)...);
+        tbl.flush();
     }
 
     template<typename T, typename enable = typename std::enable_if<reflex::enabled<T>::value>::type>
     void update_table(const std::string& filename, const T& t) {
-        fits::table(filename).update_columns(t);
+        fits::table tbl(filename);
+        tbl.update_columns(t);
+        tbl.flush();
     }
 }
 }
-- 
2.43.0


From 954b39e63584df50e30b316e2619aeb4f2f6bfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:44 +0000
Subject: [PATCH 19/61] fix: removing FITS columns and keywords reports storage
 errors

---
 include/vif/io/fits/base.hpp  |  7 ++++++-
 include/vif/io/fits/table.hpp | 10 +++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index d79dc5a..de677a1 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -765,7 +765,12 @@ namespace impl {
                 check_is_open_();
 
                 fits_delete_key(fptr_, name.c_str(), &status_);
-                status_ = 0; // don't care if the keyword doesn't exist or other errors
+                if (status_ == KEY_NO_EXIST) {
+                    // don't care if the keyword doesn't exist
+                    status_ = 0;
+                    fits_clear_errmsg();
+                }
+                fits::vif_check_cfitsio(status_, "could not remove keyword '"+name+"'");
             }
 
             void remove_hdu() {
diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 419557e..f02b8a8 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -1506,11 +1506,15 @@ namespace fits {
             int cid;
             std::string colname = to_upper(tcolname);
             fits_get_colnum(fptr_, CASEINSEN, const_cast<char*>(colname.c_str()), &cid, &status_);
-            if (status_ == 0) {
-                fits_delete_col(fptr_, cid, &status_);
+            if (status_ == COL_NOT_FOUND) {
+                // don't care if the column doesn't exist
+                status_ = 0;
+                fits_clear_errmsg();
+                return;
             }
 
-            status_ = 0; // ignore errors
+            fits_delete_col(fptr_, cid, &status_);
+            fits::vif_check_cfitsio(status_, "could not remove column '"+tcolname+"'");
         }
 
         template<typename ... Args>
-- 
2.43.0


From 04adb1c0c88cd9e9657a915fafdb139580f98725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:08 +0000
Subject: [PATCH 20/61] fix: remove_hdu() leaves no part of a table written
 since the last flush

---
 include/vif/io/fits/base.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index de677a1..699b6a0 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -776,6 +776,8 @@ namespace impl {
             void remove_hdu() {
                 check_is_open_();
 
+                // Make sure CFITSIO knows how much space there is to free
+                fits_flush_file(fptr_, &status_);
                 fits_delete_hdu(fptr_, nullptr, &status_);
                 fits::vif_check_cfitsio(status_, "could not remove the current HDU");
 
-- 
2.43.0


From 75f798dcf2c3a67ce606bff41d80bc780e520453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:44 +0000
Subject: [PATCH 21/61] fix: opening a FITS file for update never overwrites it
 when its existence cannot be checked

---
 include/vif/io/fits/base.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 699b6a0..05e5c93 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -394,7 +394,8 @@ namespace impl {
                 close();
 
                 if (rights_ == write_only || (rights_ == read_write && !file::exists(filename))) {
-                    fits_create_file(&fptr_, ("!"+filename).c_str(), &status_);
+                    // Only overwrite existing files if this was requested
+                    fits_create_file(&fptr_, ((rights_ == write_only ? "!" : "")+filename).c_str(), &status_);
                     fits::vif_check_cfitsio(status_, "cannot create file '"+filename+"'");
                 } else {
                     int trights = (rights_ == read_only ? READONLY : READWRITE);
-- 
2.43.0


From 4fbcbe681ad77d8188f6cfa52264e96c24d874e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:30 +0000
Subject: [PATCH 22/61] fix: read_keyword() leaves the value unchanged when it
 returns false

---
 include/vif/io/fits/base.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 05e5c93..dda535c 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -517,9 +517,10 @@ namespace impl {
                 char content[80];
                 int status = 0;
                 fits_read_keyword(fptr_, name.c_str(), content, comment, &status);
+                if (status != 0) return false;
                 value = content;
                 value = trim(value, " '");
-                return status == 0;
+                return true;
             }
 
             template <typename T>
@@ -536,7 +537,10 @@ namespace impl {
                     content = "0";
                 }
 
-                return from_string(content, value);
+                T tmp;
+                if (!from_string(content, tmp)) return false;
+                value = tmp;
+                return true;
             }
 
             uint_t hdu_count() const {
-- 
2.43.0


From 660c037f86796b9690dec9bf7f5253c608458c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:52 +0000
Subject: [PATCH 23/61] fix: a FITS object can be used again, and leaves no
 file open, after open() failed

---
 include/vif/io/fits/base.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index dda535c..6c6dc1d 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -392,7 +392,21 @@ namespace impl {
 
             void open(const std::string& filename) {
                 close();
+                status_ = 0;
+
+                try {
+                    open_(filename);
+                } catch (...) {
+                    // Do not leave a partially opened file behind
+                    close();
+                    status_ = 0;
+                    throw;
+                }
+            }
+
+        private :
 
+            void open_(const std::string& filename) {
                 if (rights_ == write_only || (rights_ == read_write && !file::exists(filename))) {
                     // Only overwrite existing files if this was requested
                     fits_create_file(&fptr_, ((rights_ == write_only ? "!" : "")+filename).c_str(), &status_);
@@ -420,12 +434,15 @@ namespace impl {
                 update_internal_state();
             }
 
+        public :
+
             void close() noexcept {
                 if (!fptr_) return;
 
                 status_ = 0;
                 fits_close_file(fptr_, &status_);
                 fptr_ = nullptr;
+                filename_.clear();
             }
 
             bool is_open() const noexcept {
-- 
2.43.0


From 1e6298f6fcf94da9ac5345697df049a845624ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:36 +0000
Subject: [PATCH 24/61] fix: information on empty byte columns of FITS tables
 can be read

---
 include/vif/io/fits/table.hpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index f02b8a8..1cc4d80 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -179,14 +179,21 @@ namespace fits {
                 break;
             }
             case 'B' : {
-                vec<1,char> v(repeat);
-                char def = impl::fits_impl::traits<char>::def();
-                int null;
-                fits_read_col(fptr_, impl::fits_impl::traits<char>::ttype, c, 1, 1, repeat,
-                    &def, v.raw_data(), &null, &status_);
-                fits::vif_check_cfitsio(status_, "could not read column '"+std::string(name)+"'");
-
-                if (min(v) == 0 && max(v) <= 1) {
+                long nrow = 0;
+                fits_get_num_rows(fptr_, &nrow, &status_);
+                fits::vif_check_cfitsio(status_, "could not get number of rows in HDU");
+
+                // There may be nothing to read
+                vec<1,char> v(nrow > 0 ? repeat : 0);
+                if (!v.empty()) {
+                    char def = impl::fits_impl::traits<char>::def();
+                    int null;
+                    fits_read_col(fptr_, impl::fits_impl::traits<char>::ttype, c, 1, 1, repeat,
+                        &def, v.raw_data(), &null, &status_);
+                    fits::vif_check_cfitsio(status_, "could not read column '"+std::string(name)+"'");
+                }
+
+                if (!v.empty() && min(v) == 0 && max(v) <= 1) {
                     ci.type = column_info::boolean;
                     ci.cfitsio_type = TLOGICAL;
                 } else {
-- 
2.43.0


From 6bff1216414d3be6e5a30bc5d4883f06bbe8903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:31 +0000
Subject: [PATCH 25/61] fix: FITS objects can still be used after an operation
 failed

---
 include/vif/io/fits/base.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 6c6dc1d..dcd2929 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -475,6 +475,9 @@ namespace impl {
                 if (!is_open()) {
                     throw fits::exception("no FITS file opened, cannot proceed");
                 }
+
+                // Errors of previous operations were already reported
+                status_ = 0;
             }
 
             void get_table_format_() {
-- 
2.43.0


From 2f4c55dca34583bfd328ac76adfcc9c82e95b65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:31 +0000
Subject: [PATCH 26/61] fix: flushing a FITS object with no file open is
 reported, as documented

---
 include/vif/io/fits/base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index dcd2929..f010eaf 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -698,14 +698,14 @@ namespace impl {
             ~output_file_base() = default;
 
             void flush() {
-                if (!fptr_) return;
+                check_is_open_();
 
                 fits_flush_file(fptr_, &status_);
                 fits::vif_check_cfitsio(status_, "could not flush data for '"+filename_+"'");
             }
 
             void flush_buffer() {
-                if (!fptr_) return;
+                check_is_open_();
 
                 // Will be faster than flush(), but only updates data, not all the keywords
                 fits_flush_buffer(fptr_, 0, &status_);
-- 
2.43.0


From 1950ada0da70dfe6a74ee8f1cdfd0367301a83cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:36 +0000
Subject: [PATCH 27/61] fix: memory leaks when reading or writing a FITS column
 of strings fails

---
 include/vif/io/fits/table.hpp | 40 ++++++++++++-----------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 1cc4d80..891a984 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -422,9 +422,10 @@ namespace fits {
                 return;
             }
 
-            char** buffer = new char*[v.size()];
+            std::vector<char> data(v.size()*(naxes[0]+1));
+            std::vector<char*> buffer(v.size());
             for (uint_t i : range(v)) {
-                buffer[i] = new char[naxes[0]+1];
+                buffer[i] = &data[i*(naxes[0]+1)];
             }
 
             long nelem = v.size();
@@ -433,16 +434,13 @@ namespace fits {
             int null;
             fits_read_col(
                 fptr_, impl::fits_impl::traits<std::string>::ttype, cid, 1, 1, nelem, &def,
-                buffer, &null, &status_
+                buffer.data(), &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read column '"+cname+"'");
 
             for (uint_t i : range(v)) {
                 v.safe[i] = trim(std::string(buffer[i]));
-                delete[] buffer[i];
             }
-
-            delete[] buffer;
         }
 
         void read_column_impl_(const table_read_options&, std::string& v, const std::string& cname,
@@ -455,8 +453,8 @@ namespace fits {
                 return;
             }
 
-            char** buffer = new char*[1];
-            buffer[0] = new char[repeat+1];
+            std::vector<char> data(repeat+1);
+            char* buffer = data.data();
 
             char def = '\0';
             int null;
@@ -466,13 +464,11 @@ namespace fits {
 
             fits_read_col(
                 fptr_, TSTRING, cid, 1, 1, 1, &def,
-                buffer, &null, &status_
+                &buffer, &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read column '"+cname+"'");
 
-            v = trim(std::string(buffer[0]));
-            delete[] buffer[0];
-            delete[] buffer;
+            v = trim(std::string(buffer));
         }
 
         template<std::size_t Dim, typename Type,
@@ -1129,23 +1125,18 @@ namespace fits {
             // cfitsio doesn't like writing empty string or columns
             if (nmax == 0 || value.empty()) return;
 
-            char** buffer = new char*[value.size()];
+            std::vector<char> data(value.size()*(nmax+1));
+            std::vector<char*> buffer(value.size());
             for (uint_t i : range(value)) {
-                buffer[i] = new char[nmax+1];
+                buffer[i] = &data[i*(nmax+1)];
                 strcpy(buffer[i], value[i].c_str());
             }
 
             fits_write_col(
                 fptr_, impl::fits_impl::traits<std::string>::ttype, cid, 1, 1,
-                value.size(), buffer, &status_
+                value.size(), buffer.data(), &status_
             );
             fits::vif_check_cfitsio(status_, "could not write column '"+tcolname+"'");
-
-            for (uint_t i : range(value)) {
-                delete[] buffer[i];
-            }
-
-            delete[] buffer;
         }
 
         void write_column_impl_(const std::string& tcolname, int cid,
@@ -1154,13 +1145,10 @@ namespace fits {
             // NB: for some reason cfitsio crashes on empty string
             if (value.empty()) return;
 
-            char** buffer = new char*[1];
-            buffer[0] = const_cast<char*>(value.c_str());
+            char* buffer = const_cast<char*>(value.c_str());
             fits_write_col(fptr_, impl::fits_impl::traits<std::string>::ttype, cid, 1, 1, 1,
-                buffer, &status_);
+                &buffer, &status_);
             fits::vif_check_cfitsio(status_, "could not write column '"+tcolname+"'");
-
-            delete[] buffer;
         }
 
         template<std::size_t Dim, typename Type>
-- 
2.43.0


From 8e94a958c348542df317e78271323781e05278d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:51 +0000
Subject: [PATCH 28/61] fix: moving a FITS object keeps the orientation of its
 table

---
 include/vif/io/fits/base.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index f010eaf..cf2ae5e 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -382,8 +382,10 @@ namespace impl {
             }
 
             file_base(file_base&& in) noexcept : type_(in.type_), rights_(in.rights_),
-                filename_(in.filename_), fptr_(in.fptr_), status_(in.status_) {
+                filename_(std::move(in.filename_)), fptr_(in.fptr_), status_(in.status_),
+                format_(in.format_) {
                 in.fptr_ = nullptr;
+                in.filename_.clear();
             }
 
             virtual ~file_base() noexcept {
-- 
2.43.0


From 7daa27856bb49dd621794ce945949eb23c6cd76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:37 +0000
Subject: [PATCH 29/61] fix: threaded cross-matching with more threads than
 sources crashed

---
 include/vif/astro/qxmatch.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 88b0bca..1f6a040 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -476,12 +476,15 @@ namespace astro {
 
                 // Merge back the results of each thread
                 for (uint_t t = 0; t < params.thread; ++t) {
-                    auto ids = tbeg1[t]-_-(tend1[t]-1);
-                    res.id.safe(_,ids) = vres[t].id.safe(_,ids);
-                    res.d.safe(_,ids) = vres[t].d.safe(_,ids);
+                    // NB: there can be more threads than sources to work on
+                    if (tbeg1[t] < tend1[t]) {
+                        auto ids = tbeg1[t]-_-(tend1[t]-1);
+                        res.id.safe(_,ids) = vres[t].id.safe(_,ids);
+                        res.d.safe(_,ids) = vres[t].d.safe(_,ids);
+                    }
 
-                    if (!params.no_mirror) {
-                        ids = tbeg2[t]-_-(tend2[t]-1);
+                    if (!params.no_mirror && tbeg2[t] < tend2[t]) {
+                        auto ids = tbeg2[t]-_-(tend2[t]-1);
                         res.rid.safe[ids] = vres[t].rid.safe[ids];
                         res.rd.safe[ids] = vres[t].rd.safe[ids];
                     }
@@ -585,9 +588,12 @@ namespace astro {
 
                 // Merge back the results of each thread
                 for (uint_t t = 0; t < params.thread; ++t) {
-                    auto ids = tbeg[t]-_-(tend[t]-1);
-                    res.id.safe(_,ids) = vres[t].id.safe(_,ids);
-                    res.d.safe(_,ids) = vres[t].d.safe(_,ids);
+                    // NB: there can be more threads than sources to work on
+                    if (tbeg[t] < tend[t]) {
+                        auto ids = tbeg[t]-_-(tend[t]-1);
+                        res.id.safe(_,ids) = vres[t].id.safe(_,ids);
+                        res.d.safe(_,ids) = vres[t].d.safe(_,ids);
+                    }
 
                     if (!params.no_mirror) {
                         if (t == 0) {
-- 
2.43.0


From 9e7916bd0f7a73565c301c8f8fb6b56cd835d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:17 +0000
Subject: [PATCH 30/61] fix: cross-matching could list the same neighbour
 several times

---
 include/vif/astro/qxmatch.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 1f6a040..577da4a 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -116,14 +116,17 @@ namespace impl {
                 }
 
                 // We have (+x,+y), fill the other 3 quadrants:
-                // (-x,+y), (-x,-y), (-x,+y)
-                vec1u idnew = indgen<uint_t>(depth.bx.size());
-                append(depth.bx, -depth.bx[idnew]);
-                append(depth.by, depth.by[idnew]);
-                append(depth.bx, -depth.bx[idnew]);
-                append(depth.by, -depth.by[idnew]);
-                append(depth.bx, depth.bx[idnew]);
-                append(depth.by, -depth.by[idnew]);
+                // (-x,+y), (-x,-y), (+x,-y)
+                // NB: buckets on the axes are their own image, and must not be listed twice
+                vec1u idx  = where(depth.bx != 0);
+                vec1u idxy = where(depth.bx != 0 && depth.by != 0);
+                vec1u idy  = where(depth.by != 0);
+                append(depth.bx, -depth.bx[idx]);
+                append(depth.by, depth.by[idx]);
+                append(depth.bx, -depth.bx[idxy]);
+                append(depth.by, -depth.by[idxy]);
+                append(depth.bx, depth.bx[idy]);
+                append(depth.by, -depth.by[idy]);
             }
         };
     }
-- 
2.43.0


From c3448a44dca64b3b34154923358efc4d0e3c2909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:15 +0000
Subject: [PATCH 31/61] fix: cross-matching crashed when rounding errors push a
 source out of the buckets

---
 include/vif/astro/qxmatch.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 577da4a..3d8537b 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -266,8 +266,9 @@ namespace astro {
             rdec[1] += ddec;
 
             // Final number of buckets
-            uint_t nra  = (rra[1]  - rra[0])/dra;
-            uint_t ndec = (rdec[1] - rdec[0])/ddec;
+            // (one more than strictly needed, so that rounding errors cannot push a source outside)
+            uint_t nra  = uint_t((rra[1]  - rra[0])/dra) + 1;
+            uint_t ndec = uint_t((rdec[1] - rdec[0])/ddec) + 1;
 
             // Build the buckets
             struct bucket_t {
-- 
2.43.0


From 36c4d84dc64eb44710b17db25c9ca11ed2a83cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:41 +0000
Subject: [PATCH 32/61] fix: threaded brute-force cross-matching chose another
 source than one thread for equal distances

---
 include/vif/astro/qxmatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 3d8537b..319fd90 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -605,7 +605,7 @@ namespace astro {
                             res.rd = vres[t].rd;
                         } else {
                             for (uint_t j = 0; j < n2; ++j) {
-                                if (res.rd.safe[j] >= vres[t].rd.safe[j]) {
+                                if (res.rd.safe[j] > vres[t].rd.safe[j]) {
                                     res.rid.safe[j] = vres[t].rid.safe[j];
                                     res.rd.safe[j] = vres[t].rd.safe[j];
                                 }
-- 
2.43.0


From 50a35ddee9bfe4631685260f8f7978fe891a8ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:30 +0000
Subject: [PATCH 33/61] fix: failing to create a thread of the cross-matching
 aborted the program

---
 include/vif/utility/bits/thread-thread.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/vif/utility/bits/thread-thread.hpp b/include/vif/utility/bits/thread-thread.hpp
index 575d650..b4d2d11 100644
--- a/include/vif/utility/bits/thread-thread.hpp
+++ b/include/vif/utility/bits/thread-thread.hpp
@@ -7,6 +7,18 @@ namespace thread {
     struct thread_t {
         std::unique_ptr<std::thread> impl;
 
+        thread_t() = default;
+        thread_t(thread_t&&) = default;
+        thread_t& operator=(thread_t&&) = default;
+
+        // Wait for the thread if it was not joined (e.g., if an exception was thrown
+        // before join() was called), since destroying a running thread aborts the program.
+        ~thread_t() {
+            if (impl && impl->joinable()) {
+                impl->join();
+            }
+        }
+
         template<typename F, typename ... Args>
         void start(F&& f, Args&& ... args) {
             impl = std::unique_ptr<std::thread>(new std::thread(
-- 
2.43.0


From d463edfff1b39091936a3b312c58da48bc604c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:45 +0000
Subject: [PATCH 34/61] fix: batch convolution of images which are not square
 wrote outside of its buffers

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index dde16bf..dd5ddd1 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -673,10 +673,10 @@ namespace astro {
 
                 // Pad image to prevent issues with cyclic borders
                 for (uint_t ix : range(hsx)) {
-                    for (uint_t iy : range(tmap.dims[0])) {
+                    for (uint_t iy : range(tmap.dims[1])) {
                         tmap.safe(ix,iy) = 0;
                     }
-                    for (uint_t iy : range(tmap.dims[0])) {
+                    for (uint_t iy : range(tmap.dims[1])) {
                         tmap.safe(tmap.dims[0]-hsx+ix,iy) = 0;
                     }
                 }
-- 
2.43.0


From 5af646a34f697d41fb9bf080881601b6740db2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:03 +0000
Subject: [PATCH 35/61] fix: moving a batch convolution object destroyed its
 Fourier plans twice

---
 include/vif/astro/image.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index dd5ddd1..ee23096 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -563,8 +563,15 @@ namespace astro {
 
         convolver2d(const convolver2d&) = delete;
         convolver2d& operator=(const convolver2d&) = delete;
-        convolver2d(convolver2d&&) = default;
-        convolver2d& operator=(convolver2d&&) = default;
+        convolver2d(convolver2d&& c) : kernel_normal(c.kernel_normal),
+            kernel_fourier(std::move(c.kernel_fourier)), hsx(c.hsx), hsy(c.hsy),
+            pf(c.pf), pi(c.pi), pf_built(c.pf_built), pi_built(c.pi_built),
+            tmap(std::move(c.tmap)), cimg(std::move(c.cimg)), cyclic(c.cyclic) {
+            // The plans now belong to this object
+            c.pf_built = false;
+            c.pi_built = false;
+        }
+        convolver2d& operator=(convolver2d&&) = delete;
 
         ~convolver2d() {
             std::lock_guard<std::mutex> lock(impl::fftw_planner_mutex());
-- 
2.43.0


From c3fecacb0d79942d0f5bc126ce89c314e98d9439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:45 +0000
Subject: [PATCH 36/61] fix: WCS structures made by hand were released with the
 wrong function

---
 include/vif/astro/wcs.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 55290f3..8cea699 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -360,7 +360,9 @@ namespace astro {
         uint_t ra_axis = 1, dec_axis = 0;
         uint_t x_axis = 1, y_axis = 0;
 
-        explicit wcs(uint_t naxis = 2) : w(new wcsprm), nwcs(1) {
+        // NB: WCSlib releases this memory with free(), so it must be allocated with malloc()
+        explicit wcs(uint_t naxis = 2) : w(static_cast<wcsprm*>(malloc(sizeof(wcsprm)))), nwcs(1) {
+            if (!w) throw std::bad_alloc();
             w->flag = -1;
             wcsini(true, naxis, w);
 
-- 
2.43.0


From b396fb625bf25e44877ccb4383d78cc19bb88d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:50 +0000
Subject: [PATCH 37/61] fix: columns of a table with several rows could not be
 read back before the file is flushed

---
 include/vif/io/fits/table.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 891a984..1e9dcce 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -265,8 +265,10 @@ namespace fits {
 
             // Handle row-oriented tables
             if (format_ == table_format::row_oriented) {
-                uint_t nrow = 0;
-                read_keyword("NAXIS2", nrow);
+                // NB: the NAXIS2 keyword is only updated by CFITSIO when the HDU is flushed
+                long nrow = 0;
+                fits_get_num_rows(fptr_, &nrow, &status_);
+                fits::vif_check_cfitsio(status_, "could not get number of rows in HDU");
                 ci.dims.push_back(nrow);
             }
 
@@ -636,9 +638,11 @@ namespace fits {
             }
 
             // Support loading row-oriented FITS tables (and ASCII)
-            uint_t nrow = 1;
+            long nrow = 1;
             if (format_ == table_format::row_oriented) {
-                read_keyword("NAXIS2", nrow);
+                // NB: the NAXIS2 keyword is only updated by CFITSIO when the HDU is flushed
+                fits_get_num_rows(fptr_, &nrow, &status_);
+                fits::vif_check_cfitsio(status_, "could not get number of rows in HDU");
                 if (naxis == 1 && axes[naxis-1] == 1 && type != TSTRING) {
                     axes[naxis-1] = nrow;
                 } else {
-- 
2.43.0


From 65d16726786c8d9b163a08e90230559f49ef488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:47 +0000
Subject: [PATCH 38/61] fix: today() could return a wrong date when called by
 several threads

---
 include/vif/utility/time.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/time.hpp b/include/vif/utility/time.hpp
index cf3fbac..91bbe0a 100644
--- a/include/vif/utility/time.hpp
+++ b/include/vif/utility/time.hpp
@@ -16,7 +16,9 @@ namespace vif {
     // Return the current date [yyyymmdd]
     inline std::string today() {
         std::time_t t = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
-        std::tm tm = *std::localtime(&t);
+        // NB: std::localtime() is not thread safe
+        std::tm tm;
+        localtime_r(&t, &tm);
         std::ostringstream ss;
         ss << align_right(to_string(tm.tm_year+1900),4,'0')
            << align_right(to_string(tm.tm_mon+1),2,'0')
-- 
2.43.0


From fceccfd41c4978c42a18b1e7dcc9306781f7bc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:36 +0000
Subject: [PATCH 39/61] fix: running out of memory in append() and prepend()
 left vectors with wrong dimensions

---
 .../vif/utility/bits/generic-rearrange.hpp    | 35 +++++++++++--------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index a1b6226..136b331 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -168,13 +168,14 @@ namespace vif {
         vif_check(t1.size()/n1 == t2.size()/n2, "cannot append dimension ", N, " in (", t1.dims,
             ") and (", t2.dims, ")");
 
-        // TODO: (optimization) no need for this copy?
-        auto tmp = t1;
-        t1.dims[N] += n2;
-        t1.resize();
+        // NB: modify a copy, so t1 remains usable if running out of memory
+        vec<Dim,Type1> tmp(impl::vec_nocopy_tag, t1);
+        tmp.dims[N] += n2;
+        tmp.resize();
 
-        t1.safe(repeat<N>(_), indgen<uint_t>(n1), repeat<Dim-N-1>(_)) = tmp;
-        t1.safe(repeat<N>(_), n1+indgen<uint_t>(n2), repeat<Dim-N-1>(_)) = t2;
+        tmp.safe(repeat<N>(_), indgen<uint_t>(n1), repeat<Dim-N-1>(_)) = t1;
+        tmp.safe(repeat<N>(_), n1+indgen<uint_t>(n2), repeat<Dim-N-1>(_)) = t2;
+        t1 = std::move(tmp);
     }
 
     template<std::size_t N, std::size_t Dim, typename Type1, typename Type2 = Type1,
@@ -191,13 +192,14 @@ namespace vif {
         vif_check(t1.size()/n1 == t2.size()/n2, "cannot prepend dimension ", N, " in (", t1.dims,
             ") and (", t2.dims, ")");
 
-        // TODO: (optimization) no need for this copy?
-        auto tmp = t1;
-        t1.dims[N] += n2;
-        t1.resize();
+        // NB: modify a copy, so t1 remains usable if running out of memory
+        vec<Dim,Type1> tmp(impl::vec_nocopy_tag, t1);
+        tmp.dims[N] += n2;
+        tmp.resize();
 
-        t1.safe(repeat<N>(_), indgen<uint_t>(n2), repeat<Dim-N-1>(_)) = t2;
-        t1.safe(repeat<N>(_), n2+indgen<uint_t>(n1), repeat<Dim-N-1>(_)) = tmp;
+        tmp.safe(repeat<N>(_), indgen<uint_t>(n2), repeat<Dim-N-1>(_)) = t2;
+        tmp.safe(repeat<N>(_), n2+indgen<uint_t>(n1), repeat<Dim-N-1>(_)) = t1;
+        t1 = std::move(tmp);
     }
 
     template<typename Type1, typename Type2 = Type1,
@@ -210,7 +212,12 @@ namespace vif {
     template<typename Type1, typename Type2 = Type1,
         typename enable = typename std::enable_if<!std::is_pointer<Type1>::value>::type>
     void prepend(vec<1,Type1>& t1, const vec<1,Type2>& t2) {
-        t1.data.insert(t1.data.begin(), t2.begin(), t2.end());
-        t1.dims[0] += t2.dims[0];
+        // NB: modify a copy, so t1 remains usable if running out of memory
+        vec<1,Type1> tmp;
+        tmp.data.reserve(t1.size() + t2.size());
+        tmp.data.insert(tmp.data.end(), t2.begin(), t2.end());
+        tmp.data.insert(tmp.data.end(), t1.data.begin(), t1.data.end());
+        tmp.dims[0] = t1.dims[0] + t2.dims[0];
+        t1 = std::move(tmp);
     }
 }
-- 
2.43.0


From ed8b56f37eed9c716905e705b61e34aac1808e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:36 +0000
Subject: [PATCH 40/61] fix: running out of memory when resizing or assigning
 left vectors with wrong dimensions

---
 include/vif/core/vec.hpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index 2551dc6..d34e1db 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -134,8 +134,7 @@ namespace vif {
         }
 
         vec& operator = (meta::nested_initializer_list<Dim,meta::dtype_t<Type>> il) {
-            impl::vec_ilist::helper<Dim, Type>::fill(*this, il);
-            return *this;
+            return *this = vec(il);
         }
 
         vec& operator = (const vec& v) {
@@ -145,8 +144,13 @@ namespace vif {
         }
 
         vec& operator = (vec&& v) {
+            dim_type d = v.dims;
             data = std::move(v.data);
-            dims = std::move(v.dims);
+            for (uint_t i : range(Dim)) {
+                v.dims[i] = 0;
+            }
+
+            dims = d;
             return *this;
         }
 
@@ -169,15 +173,15 @@ namespace vif {
                 }
 
                 // Actual assignment.
-                dims = v.dims;
                 data.resize(v.data.size());
+                dims = v.dims;
                 for (uint_t i : range(v)) {
                     data[i] = static_cast<other_dtype>(t[i]);
                 }
             } else {
                 // No aliasing possible, assign directly.
-                dims = v.dims;
                 data.resize(v.data.size());
+                dims = v.dims;
                 for (uint_t i : range(v)) {
                     data[i] = static_cast<other_dtype>(v.safe[i]);
                 }
@@ -215,8 +219,16 @@ namespace vif {
 
         template<typename ... Args>
         void resize(Args&& ... d) {
-            impl::set_array(dims, d...);
-            resize();
+            // Only change the dimensions once the memory could be allocated
+            dim_type ndims = {{0}};
+            impl::set_array(ndims, d...);
+            uint_t size = 1;
+            for (uint_t i : range(Dim)) {
+                size *= ndims[i];
+            }
+
+            data.resize(size);
+            dims = ndims;
         }
 
         void clear() {
@@ -263,13 +275,11 @@ namespace vif {
         void push_back(const vec<Dim-1,T>& t) {
             static_assert(Dim > 1, "cannot call push_back(vec<D-1>) on monodimensional vectors");
             if (empty()) {
+                data.insert(data.end(), t.data.begin(), t.data.end());
                 dims[0] = 1;
                 for (uint_t i = 1; i < Dim; ++i) {
                     dims[i] = t.dims[i-1];
                 }
-
-                data.resize(t.data.size());
-                std::copy(t.data.begin(), t.data.end(), data.begin());
             } else {
                 for (uint_t i = 0; i < Dim-1; ++i) {
                     vif_check(dims[i+1] == t.dims[i],
-- 
2.43.0


From 7c5b7cd26f961d76a772146cb7e5951404de7118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:00 +0000
Subject: [PATCH 41/61] fix: progress_tick() threw an exception at the end of
 short loops

---
 include/vif/utility/time.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vif/utility/time.hpp b/include/vif/utility/time.hpp
index 91bbe0a..a73fe4d 100644
--- a/include/vif/utility/time.hpp
+++ b/include/vif/utility/time.hpp
@@ -171,7 +171,7 @@ namespace vif {
     void progress_tick(progress_t& p, double ticklen) {
         if (p.ended) return;
 
-        if (p.i < 10 || p.i - p.last_tick >= p.ips*ticklen) {
+        if (p.i < 10 || p.i == p.n-1 || p.i - p.last_tick >= p.ips*ticklen) {
             p.last_tick = p.i;
             impl::progress_(p);
         }
@@ -179,7 +179,6 @@ namespace vif {
         ++p.i;
 
         if (p.i >= p.n) {
-            impl::progress_(p);
             std::cout << std::endl;
             p.ended = true;
         }
-- 
2.43.0


From 6c2e64dab19a133e21f459a24bff822fac577922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:58 +0000
Subject: [PATCH 42/61] fix: DS9 regions in pixel coordinates were written
 shifted by one pixel

---
 include/vif/astro/ds9.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/ds9.hpp b/include/vif/astro/ds9.hpp
index 7b46bf1..961f205 100644
--- a/include/vif/astro/ds9.hpp
+++ b/include/vif/astro/ds9.hpp
@@ -308,11 +308,17 @@ namespace ds9 {
     inline void write_region(std::ofstream& out, const std::string& ss,
         const vif::astro::ds9::region& r) {
 
+        // Add 1 to X and Y to go from C++ convention to FITS convention
+        double x0 = r.params[0], y0 = r.params[1];
+        if (r.physical) {
+            x0 += 1.0; y0 += 1.0;
+        }
+
         if (r.type == "circle") {
-            out << r.type << "(" << r.params[0] << ", " << r.params[1] << ", " <<
+            out << r.type << "(" << x0 << ", " << y0 << ", " <<
                 r.params[2] << ss << ")\n";
         } else if (r.type == "box") {
-            out << r.type << "(" << r.params[0] << ", " << r.params[1] << ", " <<
+            out << r.type << "(" << x0 << ", " << y0 << ", " <<
                 r.params[2] << ss << ", " <<
                 r.params[3] << ss << ", " << r.params[4] << ")\n";
         } else {
-- 
2.43.0


From b6514c634b57ef4ec745d544a6e3ec0b3fdc041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:45 +0000
Subject: [PATCH 43/61] fix: save_args() hid write errors

---
 include/vif/utility/argv.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index 2ce9ebc..a8ab6ea 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -337,6 +337,9 @@ namespace vif {
         for (int i = 1; i < argc; ++i) {
             cmd << " " << argv[i];
         }
+
+        cmd.close();
+        vif_check(cmd.good(), "could not save arguments to '", file, "'");
     }
 
     inline std::string make_cmd(int argc, char* argv[]) {
-- 
2.43.0


From 8ce91224b77cce0e0bab57604ea93897b9e6d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:45 +0000
Subject: [PATCH 44/61] fix: print_radec() hid write errors

---
 include/vif/astro/astro.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 6ba3596..972945f 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1134,6 +1134,9 @@ namespace astro {
         for (uint_t i : range(ra)) {
             f << ra[i] << "\t" << dec[i] << "\n";
         }
+
+        f.close();
+        vif_check(f.good(), "could not write coordinates to '", file, "'");
     }
 
     inline bool get_band(const vec1s& bands, const std::string& band, uint_t& bid) {
-- 
2.43.0


From c7708a751255cadbeaa0b76d755d2896d2f0c59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:45 +0000
Subject: [PATCH 45/61] fix: reading and writing DS9 regions hid errors of the
 storage

---
 include/vif/astro/ds9.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/vif/astro/ds9.hpp b/include/vif/astro/ds9.hpp
index 961f205..767d425 100644
--- a/include/vif/astro/ds9.hpp
+++ b/include/vif/astro/ds9.hpp
@@ -19,6 +19,7 @@ namespace ds9 {
         vif_check(file::exists(filename), "could not open region file '"+filename+"'");
 
         std::ifstream file(filename);
+        vif_check(file.is_open(), "could not open region file '"+filename+"'");
 
         std::string global_color = "green";
         bool physical = false;
@@ -172,6 +173,8 @@ namespace ds9 {
 
             regs.push_back(r);
         }
+
+        vif_check(!file.bad(), "could not read region file '"+filename+"'");
     }
 
     inline region physical_to_wcs(const astro::wcs& w, region r) {
@@ -363,6 +366,9 @@ namespace ds9 {
                 impl::astro::ds9::write_region(regfile, size_suffix, r);
             }
         }
+
+        regfile.close();
+        vif_check(regfile.good(), "could not write region file '"+filename+"'");
     }
 
     inline void write_regions_physical(const std::string& filename, const vec<1,region>& regs,
@@ -388,6 +394,9 @@ namespace ds9 {
                 impl::astro::ds9::write_region(regfile, "", n);
             }
         }
+
+        regfile.close();
+        vif_check(regfile.good(), "could not write region file '"+filename+"'");
     }
 
     inline void write_regions_physical(const std::string& filename, const vec<1,region>& regs) {
@@ -404,6 +413,9 @@ namespace ds9 {
             vif_check(r.physical, "no WCS provided to convert region to physical");
             impl::astro::ds9::write_region(regfile, "", r);
         }
+
+        regfile.close();
+        vif_check(regfile.good(), "could not write region file '"+filename+"'");
     }
 }
 }
-- 
2.43.0


From 6c99675a3d30c31eb64f4f2f262f878da8d22f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:45 +0000
Subject: [PATCH 46/61] fix: read_sectfits() returned a partial list if the
 file could not be read

---
 include/vif/io/fits.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vif/io/fits.hpp b/include/vif/io/fits.hpp
index fe713b3..5659959 100644
--- a/include/vif/io/fits.hpp
+++ b/include/vif/io/fits.hpp
@@ -74,6 +74,10 @@ namespace fits {
             }
         }
 
+        if (file.bad()) {
+            throw fits::exception("could not read file '"+filename+"'");
+        }
+
         if (files.empty()) {
             throw fits::exception("empty sectfits '"+filename+"'");
         }
-- 
2.43.0


From 14f134d492de6dc99947c67b1025fcd9254794ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:45 +0000
Subject: [PATCH 47/61] fix: reading filter databases never ended, or hid the
 error, if the file could not be read

---
 include/vif/astro/astro.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 972945f..f7c289c 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1516,9 +1516,8 @@ namespace astro {
 
         std::string db_dir = file::get_directory(filename);
 
-        while (!file.eof()) {
-            std::string line;
-            std::getline(file, line);
+        std::string line;
+        while (std::getline(file, line)) {
             line = trim(line);
             if (!line.empty() && line[0] == '#') continue;
 
@@ -1528,6 +1527,11 @@ namespace astro {
             db.insert(std::make_pair(slice[0], db_dir+slice[1]));
         }
 
+        if (file.bad()) {
+            error("read_filter_db: cannot read '"+filename+"'");
+            db.clear();
+        }
+
         return db;
     }
 
@@ -1671,9 +1675,8 @@ namespace astro {
             return db;
         }
 
-        while (!file.eof()) {
-            std::string line;
-            std::getline(file, line);
+        std::string line;
+        while (std::getline(file, line)) {
             line = trim(line);
             if (!line.empty() && line[0] == '#') continue;
 
@@ -1687,6 +1690,11 @@ namespace astro {
             }
         }
 
+        if (file.bad()) {
+            error("read_filter_map: cannot read '"+filename+"'");
+            db.clear();
+        }
+
         return db;
     }
 
-- 
2.43.0


From aaf6efb4400584d1733e1366bad5207d088a8b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:21 +0000
Subject: [PATCH 48/61] fix: stacking used wrong pixels instead of reporting
 that an image could not be read

---
 include/vif/astro/qstack.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 4f6ab3f..b8dc0b5 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -26,6 +26,7 @@ namespace impl {
                 char* hstr = nullptr;
                 int nkeys  = 0;
                 fits_hdr2str(fptr, 0, nullptr, 0, &hstr, &nkeys, &status);
+                fits::vif_check_cfitsio(status, "cannot read header of file '"+file+"'");
                 astro = astro::wcs(hstr);
                 free(hstr);
 
@@ -37,6 +38,7 @@ namespace impl {
                 fits_get_img_dim(fptr, &naxis, &status);
                 vec<1,long> naxes(naxis);
                 fits_get_img_size(fptr, naxis, naxes.raw_data(), &status);
+                fits::vif_check_cfitsio(status, "cannot read dimensions of file '"+file+"'");
                 bool is2D = naxis == 2;
                 if (is2D) {
                     width = naxes[0];
@@ -163,6 +165,7 @@ namespace astro {
                     long inc[2] = {1, 1};
                     fits_read_subset(img.fptr, impl::fits_impl::traits<Type>::ttype, p0b, p1b, inc, &null,
                         subcut.raw_data(), &anynul, &img.status);
+                    fits::vif_check_cfitsio(img.status, "cannot read data of file '"+sects[iimg]+"'");
 
                     long x0 = p0b[0]-p0[0];
                     long x1 = p1b[0]-p0[0];
@@ -176,6 +179,7 @@ namespace astro {
                     long inc[2] = {1, 1};
                     fits_read_subset(img.fptr, impl::fits_impl::traits<Type>::ttype, p0, p1, inc, &null,
                         cut.raw_data(), &anynul, &img.status);
+                    fits::vif_check_cfitsio(img.status, "cannot read data of file '"+sects[iimg]+"'");
                 }
 
                 // Discard any source that contains a bad pixel (either infinite or NaN)
@@ -260,6 +264,7 @@ namespace astro {
         char* hstr = nullptr;
         int nkeys  = 0;
         fits_hdr2str(fptr, 0, nullptr, 0, &hstr, &nkeys, &status);
+        fits::vif_check_cfitsio(status, "cannot read header of file '"+ffile+"'");
         astro::wcs astro(hstr);
         free(hstr);
 
@@ -268,6 +273,7 @@ namespace astro {
         fits_get_img_dim(fptr, &naxis, &status);
         vec<1,long> naxes(naxis);
         fits_get_img_size(fptr, naxis, naxes.raw_data(), &status);
+        fits::vif_check_cfitsio(status, "cannot read dimensions of file '"+ffile+"'");
         bool is2D = naxis == 2;
         long width, height;
         if (is2D) {
@@ -290,6 +296,7 @@ namespace astro {
 
         vec<1,long> wnaxes(naxis);
         fits_get_img_size(wfptr, naxis, wnaxes.raw_data(), &status);
+        fits::vif_check_cfitsio(status, "cannot read dimensions of file '"+wfile+"'");
         vif_check(naxes[0] == wnaxes[0] && naxes[1] == wnaxes[1], "image and weight map do not match");
 
         // Convert ra/dec to x/y
@@ -327,8 +334,10 @@ namespace astro {
 
             fits_read_subset(fptr,  impl::fits_impl::traits<Type>::ttype, p0, p1, inc, &null,
                 cut.raw_data(),  &anynul, &status);
+            fits::vif_check_cfitsio(status, "cannot read data of file '"+ffile+"'");
             fits_read_subset(wfptr, impl::fits_impl::traits<Type>::ttype, p0, p1, inc, &null,
                 wcut.raw_data(), &anynul, &status);
+            fits::vif_check_cfitsio(status, "cannot read data of file '"+wfile+"'");
 
             // Discard any source that contains a bad pixel (either infinite or NaN)
             if (!params.keep_nan && count(!is_finite(cut) || !is_finite(wcut)) != 0) {
-- 
2.43.0


From e3e6085280d780a0cbb3bc6357b194a17781e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:51 +0000
Subject: [PATCH 49/61] fix: stacking sections with weights did not return the
 offsets and sections of the sources

---
 include/vif/astro/qstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index b8dc0b5..376b4fb 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -235,7 +235,7 @@ namespace astro {
 
         if (ends_with(ffile, ".sectfits") || ends_with(wfile, ".sectfits")) {
             uint_t norig = ids.size();
-            qstack(ra, dec, ffile, hsize, cube, ids, params);
+            out = qstack(ra, dec, ffile, hsize, cube, ids, params);
             uint_t nsci = ids.size() - norig;
 
             vec1u tids; // trash weight IDs: they are already collected in 'ids'
-- 
2.43.0


From dfbbf6bb847f33e9e4c2bac32d699eaf2c8163b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:51 +0000
Subject: [PATCH 50/61] fix: stacking failed for sources at the edge of an
 image

---
 include/vif/astro/qstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 376b4fb..8e7d179 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -158,7 +158,7 @@ namespace astro {
                     long p0b[2] = {max(1, p0[0]),         max(1, p0[1])};
                     long p1b[2] = {min(img.width, p1[0]), min(img.height, p1[1])};
 
-                    vec<2,Type> subcut(p1b[0]-p0b[0]+1, p1b[1]-p0b[1]+1);
+                    vec<2,Type> subcut(p1b[1]-p0b[1]+1, p1b[0]-p0b[0]+1);
 
                     Type null = fnan;
                     int anynul = 0;
-- 
2.43.0


From 6706dc29b60e8a5a2af63824ef80cc7eab3f9ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:51 +0000
Subject: [PATCH 51/61] fix: stacking left files open in case of error

---
 include/vif/astro/qstack.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 8e7d179..54802ae 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -18,7 +18,9 @@ namespace impl {
 
             image_workspace() = default;
 
-            explicit image_workspace(const std::string& file, const vec1d& ra, const vec1d& dec) {
+            explicit image_workspace(const std::string& file, const vec1d& ra, const vec1d& dec) :
+                image_workspace() {
+                // NB: delegating construction, so that the file is closed in case of error
                 fits_open_image(&fptr, file.c_str(), READONLY, &status);
                 fits::vif_check_cfitsio(status, "cannot open file '"+file+"'");
 
@@ -71,6 +73,7 @@ namespace impl {
             image_workspace& operator=(image_workspace&& i) = delete;
 
             ~image_workspace() {
+                status = 0; // close the file in all cases
                 if (fptr) fits_close_file(fptr, &status);
                 fptr = nullptr;
             }
@@ -251,10 +254,19 @@ namespace astro {
         }
 
         // Open the FITS file
-        fitsfile* fptr;
-        fitsfile* wfptr;
+        fitsfile* fptr = nullptr;
+        fitsfile* wfptr = nullptr;
         int status = 0;
 
+        // Close the files when leaving this function, also in case of error
+        struct closer_t {
+            fitsfile*& fptr;
+            ~closer_t() {
+                int tstatus = 0;
+                if (fptr) fits_close_file(fptr, &tstatus);
+            }
+        } closer{fptr}, wcloser{wfptr};
+
         fits_open_image(&fptr, ffile.c_str(), READONLY, &status);
         fits::vif_check_cfitsio(status, "cannot open file '"+ffile+"'");
         fits_open_image(&wfptr, wfile.c_str(), READONLY, &status);
@@ -358,9 +370,6 @@ namespace astro {
             }
         }
 
-        fits_close_file(fptr, &status);
-        fits_close_file(wfptr, &status);
-
         return out;
     }
 
-- 
2.43.0


From 1f4dc07567b6f7c22b75eee63ce946c399456252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:27 +0000
Subject: [PATCH 52/61] fix: stacking sections with weights modified the
 weights of sources stacked before

---
 include/vif/astro/qstack.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 54802ae..fb91ef1 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -238,13 +238,13 @@ namespace astro {
 
         if (ends_with(ffile, ".sectfits") || ends_with(wfile, ".sectfits")) {
             uint_t norig = ids.size();
+            vec1u tids = ids; // trash weight IDs: they are already collected in 'ids'
             out = qstack(ra, dec, ffile, hsize, cube, ids, params);
             uint_t nsci = ids.size() - norig;
 
-            vec1u tids; // trash weight IDs: they are already collected in 'ids'
             qstack_params tparams = params; // trash output, for the same reason
             qstack(ra, dec, wfile, hsize, wcube, tids, tparams);
-            uint_t nwht = tids.size();
+            uint_t nwht = tids.size() - norig;
 
             // Make sure that all sources that were extracted in one file match those that
             // are extracted in the other (could only keep the union of the two, WIP)
-- 
2.43.0


From 3807280ad1fbc25971595ac67e25cfe88d2e3b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:44 +0000
Subject: [PATCH 53/61] fix: reading tables with an empty first cell repeated
 that cell in the following column

---
 include/vif/io/ascii.hpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index e59f42b..69fb208 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -86,18 +86,12 @@ namespace impl {
                 if (delim_single) {
                     if (pos == line.npos) return false;
 
-                    if (pos != 0) {
-                        pos += delim.size();
-                    }
-
                     uint_t p1 = line.find(delim, pos);
                     if (p1 == line.npos) {
                         pos = p1;
                     } else {
                         pos = p1 + delim.size();
                     }
-
-                    pos = p1;
                 } else {
                     uint_t p0 = line.find_first_not_of(delim, pos);
                     if (p0 == line.npos) return false;
@@ -112,10 +106,6 @@ namespace impl {
                 if (delim_single) {
                     if (pos == line.npos) return false;
 
-                    if (pos != 0) {
-                        pos += delim.size();
-                    }
-
                     uint_t p1 = line.find(delim, pos);
                     if (p1 == line.npos) {
                         sub = line.substr(pos);
@@ -124,8 +114,6 @@ namespace impl {
                         sub = line.substr(pos, p1-pos);
                         pos = p1 + delim.size();
                     }
-
-                    pos = p1;
                 } else {
                     uint_t p0 = line.find_first_not_of(delim, pos);
                     if (p0 == line.npos) return false;
-- 
2.43.0


From e07ed42f332e595115ba0decb433f6a1b83e24d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:11 +0000
Subject: [PATCH 54/61] fix: replacing the only column of a row-oriented table
 by a shorter one kept the extra rows

---
 include/vif/io/fits/table.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 1e9dcce..2e36b01 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -1303,6 +1303,18 @@ namespace fits {
             );
             fits::vif_check_cfitsio(status_, "could not create column '"+tcolname+"'");
 
+            // If this is the only column, it decides the number of rows. There can be more
+            // if it replaces another column, in which case they must be removed
+            if (cid == 1 && format_ == table_format::row_oriented) {
+                long nrow;
+                fits_get_num_rows(fptr_, &nrow, &status_);
+                fits::vif_check_cfitsio(status_, "could not get number of rows in HDU");
+                if (uint_t(nrow) > ndrow) {
+                    fits_delete_rows(fptr_, ndrow+1, nrow-ndrow, &status_);
+                    fits::vif_check_cfitsio(status_, "could not remove rows in HDU");
+                }
+            }
+
             // Set TDIM keyword (if needed)
             write_column_write_tdim_(tcolname, cid, dims);
         }
-- 
2.43.0


From 26f06b1c7e063eb2553c1f14197ff55f1a1d3633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:29 +0000
Subject: [PATCH 55/61] fix: moving a WCS object did not move whether it was
 set up

An object not set up yet that was assigned to one that was stayed so after
update(), and WCSlib then did this work outside of the lock, in the first
conversion.
---
 include/vif/astro/wcs.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 8cea699..351399f 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -547,6 +547,7 @@ namespace astro {
         wcs(wcs&& tw) noexcept {
             std::swap(w, tw.w);
             std::swap(nwcs, tw.nwcs);
+            std::swap(isset, tw.isset);
             std::swap(dims, tw.dims);
             std::swap(has_unit, tw.has_unit);
             std::swap(type, tw.type);
@@ -563,6 +564,7 @@ namespace astro {
 
             w = tw.w; tw.w = nullptr;
             nwcs = tw.nwcs; tw.nwcs = 0;
+            isset = tw.isset; tw.isset = false;
             dims = tw.dims; tw.dims.clear();
             has_unit = tw.has_unit; tw.has_unit.clear();
             type = tw.type; tw.type.clear();
-- 
2.43.0


From 26b25a06f4de0d2bab92ff83e07034f6ac51a506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:30 +0000
Subject: [PATCH 56/61] fix: stacking on images with degenerate axes read
 random pixels

CFITSIO needs one value per axis, and was reading beyond the end of the
arrays.
---
 include/vif/astro/qstack.hpp | 64 +++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index fb91ef1..56213fb 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -9,9 +9,38 @@
 namespace vif {
 namespace impl {
     namespace qstack_impl {
+        // Give one value for each axis of the image, as needed by CFITSIO: those of X and Y
+        // plus '1' for the degenerate axes
+        inline std::vector<long> all_axes(const vec<1,long>& naxes, long x, long y) {
+            std::vector<long> r(naxes.size(), 1);
+            bool first = true;
+            for (uint_t i : range(naxes)) {
+                if (naxes.size() == 2 || naxes[i] > 1) {
+                    r[i] = (first ? x : y);
+                    first = false;
+                }
+            }
+
+            return r;
+        }
+
+        template<typename Type>
+        void read_subset(fitsfile* fptr, const vec<1,long>& naxes, const long p0[2],
+            const long p1[2], vec<2,Type>& data, int& status) {
+
+            Type null = fnan;
+            int anynul = 0;
+            std::vector<long> ap0 = all_axes(naxes, p0[0], p0[1]);
+            std::vector<long> ap1 = all_axes(naxes, p1[0], p1[1]);
+            std::vector<long> inc(naxes.size(), 1);
+            fits_read_subset(fptr, impl::fits_impl::traits<Type>::ttype, ap0.data(), ap1.data(),
+                inc.data(), &null, data.raw_data(), &anynul, &status);
+        }
+
         struct image_workspace {
             int status = 0;
             fitsfile* fptr = nullptr;
+            vec<1,long> naxes;
             long width, height;
             astro::wcs astro;
             vec1d x, y;
@@ -38,7 +67,7 @@ namespace impl {
                 // Get the dimensions of the image
                 int naxis = 0;
                 fits_get_img_dim(fptr, &naxis, &status);
-                vec<1,long> naxes(naxis);
+                naxes.resize(naxis);
                 fits_get_img_size(fptr, naxis, naxes.raw_data(), &status);
                 fits::vif_check_cfitsio(status, "cannot read dimensions of file '"+file+"'");
                 bool is2D = naxis == 2;
@@ -65,7 +94,7 @@ namespace impl {
             image_workspace& operator=(const image_workspace&) = delete;
 
             image_workspace(image_workspace&& i) : status(i.status), fptr(i.fptr),
-                width(i.width), height(i.height), astro(std::move(i.astro)),
+                naxes(i.naxes), width(i.width), height(i.height), astro(std::move(i.astro)),
                 x(std::move(x)), y(std::move(y)) {
                 i.fptr = nullptr;
             }
@@ -163,11 +192,7 @@ namespace astro {
 
                     vec<2,Type> subcut(p1b[1]-p0b[1]+1, p1b[0]-p0b[0]+1);
 
-                    Type null = fnan;
-                    int anynul = 0;
-                    long inc[2] = {1, 1};
-                    fits_read_subset(img.fptr, impl::fits_impl::traits<Type>::ttype, p0b, p1b, inc, &null,
-                        subcut.raw_data(), &anynul, &img.status);
+                    impl::qstack_impl::read_subset(img.fptr, img.naxes, p0b, p1b, subcut, img.status);
                     fits::vif_check_cfitsio(img.status, "cannot read data of file '"+sects[iimg]+"'");
 
                     long x0 = p0b[0]-p0[0];
@@ -177,11 +202,7 @@ namespace astro {
                     cut(y0-_-y1,x0-_-x1) = subcut;
                 } else {
                     // The source is fully covered, easy
-                    Type null = fnan;
-                    int anynul = 0;
-                    long inc[2] = {1, 1};
-                    fits_read_subset(img.fptr, impl::fits_impl::traits<Type>::ttype, p0, p1, inc, &null,
-                        cut.raw_data(), &anynul, &img.status);
+                    impl::qstack_impl::read_subset(img.fptr, img.naxes, p0, p1, cut, img.status);
                     fits::vif_check_cfitsio(img.status, "cannot read data of file '"+sects[iimg]+"'");
                 }
 
@@ -306,10 +327,13 @@ namespace astro {
 
         vif_check(is2D, "cannot stack on image cubes (image dimensions: ", naxes, ")");
 
-        vec<1,long> wnaxes(naxis);
-        fits_get_img_size(wfptr, naxis, wnaxes.raw_data(), &status);
+        int wnaxis = 0;
+        fits_get_img_dim(wfptr, &wnaxis, &status);
+        vec<1,long> wnaxes(wnaxis);
+        fits_get_img_size(wfptr, wnaxis, wnaxes.raw_data(), &status);
         fits::vif_check_cfitsio(status, "cannot read dimensions of file '"+wfile+"'");
-        vif_check(naxes[0] == wnaxes[0] && naxes[1] == wnaxes[1], "image and weight map do not match");
+        vif_check(naxes.dims == wnaxes.dims && count(naxes != wnaxes) == 0,
+            "image and weight map do not match");
 
         // Convert ra/dec to x/y
         vec1d x, y;
@@ -340,15 +364,9 @@ namespace astro {
             vec<2,Type> cut(2*hsize+1, 2*hsize+1);
             vec<2,Type> wcut(2*hsize+1, 2*hsize+1);
 
-            Type null = fnan;
-            int anynul = 0;
-            long inc[2] = {1, 1};
-
-            fits_read_subset(fptr,  impl::fits_impl::traits<Type>::ttype, p0, p1, inc, &null,
-                cut.raw_data(),  &anynul, &status);
+            impl::qstack_impl::read_subset(fptr,  naxes,  p0, p1, cut,  status);
             fits::vif_check_cfitsio(status, "cannot read data of file '"+ffile+"'");
-            fits_read_subset(wfptr, impl::fits_impl::traits<Type>::ttype, p0, p1, inc, &null,
-                wcut.raw_data(), &anynul, &status);
+            impl::qstack_impl::read_subset(wfptr, wnaxes, p0, p1, wcut, status);
             fits::vif_check_cfitsio(status, "cannot read data of file '"+wfile+"'");
 
             // Discard any source that contains a bad pixel (either infinite or NaN)
-- 
2.43.0


From f268e331e63bdf78e21c5b38fa5549d7c081ebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:30 +0000
Subject: [PATCH 57/61] fix: stacking sections with weights could give the
 weights of another source

---
 include/vif/astro/qstack.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 56213fb..3498439 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -269,7 +269,12 @@ namespace astro {
 
             // Make sure that all sources that were extracted in one file match those that
             // are extracted in the other (could only keep the union of the two, WIP)
-            vif_check(nsci == nwht, "some sources are covered on '", ffile, "' but not '", wfile, "'");
+            bool match = nsci == nwht;
+            for (uint_t i = norig; match && i < ids.size(); ++i) {
+                match = ids[i] == tids[i];
+            }
+
+            vif_check(match, "some sources are covered on '", ffile, "' but not '", wfile, "'");
 
             return out;
         }
-- 
2.43.0


From 86b85cfe1f3bd104cab46418f3676ca5d48600b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:48 +0000
Subject: [PATCH 58/61] fix: fits2ascii hid write errors

---
 tools/fits2ascii/fits2ascii.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tools/fits2ascii/fits2ascii.cpp b/tools/fits2ascii/fits2ascii.cpp
index 8af8266..b0570c4 100644
--- a/tools/fits2ascii/fits2ascii.cpp
+++ b/tools/fits2ascii/fits2ascii.cpp
@@ -357,6 +357,11 @@ int vif_main(int argc, char* argv[]) {
     }
 
     std::ofstream out(out_file);
+    if (!out.is_open()) {
+        error("could not open '", out_file, "' to write");
+        return 1;
+    }
+
     out << "# " << collapse(names) << "\n";
     out << "# " << collapse(types) << "\n";
     out << "# \n";
@@ -369,6 +374,12 @@ int vif_main(int argc, char* argv[]) {
         out << "\n";
     }
 
+    out.close();
+    if (!out) {
+        error("could not write to '", out_file, "'");
+        return 1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From 7eff1ddf28f510561f92afca27f435b401cd69f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:48 +0000
Subject: [PATCH 59/61] fix: qmask ignored region files that could not be read

---
 tools/qmask/qmask.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/qmask/qmask.cpp b/tools/qmask/qmask.cpp
index 19c2d5e..9e16f88 100644
--- a/tools/qmask/qmask.cpp
+++ b/tools/qmask/qmask.cpp
@@ -5,6 +5,10 @@ using namespace vif::astro;
 
 bool read_ds9_region_circles(std::string file_name, vec2d& regs, bool& physical, std::string color) {
     std::ifstream file(file_name);
+    if (!file.is_open()) {
+        error("could not open region file '", file_name, "'");
+        return false;
+    }
 
     std::string global_color = "green";
     physical = false;
@@ -95,6 +99,11 @@ bool read_ds9_region_circles(std::string file_name, vec2d& regs, bool& physical,
         append<0>(regs, vec2d{{ra, dec, rad}});
     }
 
+    if (file.bad()) {
+        error("could not read region file '", file_name, "'");
+        return false;
+    }
+
     return true;
 }
 
-- 
2.43.0


From eca1ed97ac1fc02eb6f0bf7223c021624c4621fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:00 +0000
Subject: [PATCH 60/61] fix: cross-matching found no neighbour for sources in
 opposite corners of the field

---
 include/vif/astro/qxmatch.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 319fd90..20a8675 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -53,7 +53,7 @@ namespace impl {
             std::size_t          max_depth;
 
             depth_cache(uint_t nx, uint_t ny, double cs) : csize(cs),
-                max_depth(std::max(nx, ny)) {
+                max_depth(std::ceil(std::sqrt(double(nx)*nx + double(ny)*ny))) {
 
                 visited = vec2b(nx, ny);
                 depths.reserve(20);
@@ -87,8 +87,7 @@ namespace impl {
             }
 
             void grow() {
-                vif_check(depths.size() < visited.dims[0] ||
-                    depths.size() < visited.dims[1], "cannot grow past the size of the "
+                vif_check(depths.size() < max_depth, "cannot grow past the size of the "
                     "bucket field (", visited.dims, "; trying to reach ", depths.size(), ")");
 
                 depths.push_back(depth_t{});
-- 
2.43.0


From fa2a7708d276005590fa00bb062368be90dca2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:53 +0000
Subject: [PATCH 61/61] fix: parallel loops over indices close to the largest
 integer never ended

---
 include/vif/utility/bits/thread-parallel-for.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/vif/utility/bits/thread-parallel-for.hpp b/include/vif/utility/bits/thread-parallel-for.hpp
index 3c1eecf..916aee2 100644
--- a/include/vif/utility/bits/thread-parallel-for.hpp
+++ b/include/vif/utility/bits/thread-parallel-for.hpp
@@ -62,10 +62,7 @@ namespace thread {
             oi1 = i1;
 
             i0 = i1;
-            i1 += di;
-            if (i1 > iend) {
-                i1 = iend;
-            }
+            i1 += std::min(di, iend - i1);
 
             return true;
         }
@@ -103,7 +100,7 @@ namespace thread {
                 // Setup chunks
                 di = n/nchunk + 1;
                 i0 = ifirst;
-                i1 = std::min(ifirst + di, ilast);
+                i1 = ifirst + std::min(di, n);
                 iend = ilast;
                 iter = 0;
 
-- 
2.43.0

