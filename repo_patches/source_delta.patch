From c9bd52cc33bc9a9e52b6d35ab38e599d2bb5d8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 01/35] fix: keep all arena allocations aligned for any object

Allocations of odd size (e.g. concatenated strings) made the next object
constructed in the arena misaligned, which is undefined behavior.
---
 bant/util/arena.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bant/util/arena.h b/bant/util/arena.h
index 83fe655..f462460 100644
--- a/bant/util/arena.h
+++ b/bant/util/arena.h
@@ -35,6 +35,9 @@ class Arena {
   Arena(const Arena &) = delete;
 
   void *Alloc(size_t size) {
+    // Round up, so that whatever comes next is aligned for any type.
+    constexpr size_t kAlign = alignof(std::max_align_t);
+    size = (size + kAlign - 1) & ~(kAlign - 1);
     if (pos_ == nullptr || size > (size_t)(end_ - pos_)) {
       NewBlock(std::max(size, block_size_));  // max: allow oversized allocs
     }
-- 
2.43.0


From 71656d8d7b5cb56d3924eb030274bf2762d493d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 02/35] fix: make ArenaDeque non-copyable as it points into
 itself

---
 bant/util/arena-container.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bant/util/arena-container.h b/bant/util/arena-container.h
index b7e5d6f..531510a 100644
--- a/bant/util/arena-container.h
+++ b/bant/util/arena-container.h
@@ -51,6 +51,10 @@ class ArenaDeque {
 
   ArenaDeque() : current_(&top_) {}
 
+  // We point into our own first block, so copies would append to the original.
+  ArenaDeque(const ArenaDeque &) = delete;
+  ArenaDeque &operator=(const ArenaDeque &) = delete;
+
   T &Append(T value, Arena *arena) {
     if (next_block_pos_ >= block_size_.current()) {
       const size_t new_N = block_size_.AdvanceNextBounded();
-- 
2.43.0


From a82a14523003e5e102905b8356d673b1813212a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 03/35] fix: combine header hashes such that equal ones do not
 cancel out

---
 scripts/run-clang-tidy-cached.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 9cedb14..6ce42d3 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -394,9 +394,10 @@ class FileGatherer {
           IsIncludeExtension(extension)) {
         // Since the files might be included sloppily without prefix path,
         // just keep track of the basename (but since there might be collisions,
-        // accomodate all of them by xor-ing the hashes).
+        // accomodate all of them by adding up the hashes; not xor-ing, as that
+        // would cancel out the hashes of identical headers).
         const std::string just_basename = p.filename();
-        header_hashes[just_basename] ^= hashContent(GetContent(p));
+        header_hashes[just_basename] += hashContent(GetContent(p));
       }
     }
     std::cerr << files_of_interest_.size() << " files of interest.\n";
@@ -417,7 +418,7 @@ class FileGatherer {
           const std::string header_basename = fs::path(header_path).filename();
           const auto found = header_hashes.find(header_basename);
           if (found != header_hashes.end()) {
-            work_file.second ^= found->second;
+            work_file.second += found->second;
           }
         }
       }
-- 
2.43.0


From b17337ad3caefe2b2560e7f70eb3d9901ef12851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:02 +0000
Subject: [PATCH 04/35] fix: recognize all quoted includes for the cache key

---
 scripts/run-clang-tidy-cached.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 6ce42d3..25eb5fd 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -406,7 +406,7 @@ class FileGatherer {
     // If we want to revisit if headers changed, make hash dependent on them.
     std::list<filepath_contenthash_t> work_queue;
     const std::regex inc_re(
-        R"""(#\s*include\s+"([0-9a-zA-Z_/-]+\.[a-zA-Z]+)")""");
+        R"""(#\s*include\s*"([^"\n]+)")""");
     for (filepath_contenthash_t &work_file : files_of_interest_) {
       const auto content = GetContent(work_file.first);
       work_file.second = hashContent(content);
-- 
2.43.0


From 3a157af800579e7e15f9e5c591c6bcd8dab2f6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:06 +0000
Subject: [PATCH 05/35] fix: give each work item its own temporary output file

---
 scripts/run-clang-tidy-cached.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 25eb5fd..bebde16 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -255,7 +255,12 @@ class ClangTidyRunner {
           work_queue->pop_front();
         }
         const fs::path final_out = output_store.PathFor(work);
-        const std::string tmp_out = final_out.string() + ".tmp";
+        // Files with same name and content share the final output; don't let
+        // them write to the same temporary file at the same time.
+        const std::string tmp_out = final_out.string() + "." +
+                                    std::to_string(getpid()) + "-" +
+                                    ToHex(hashContent(work.first.string())) +
+                                    ".tmp";
         // Putting the file to clang-tidy early in the command line so that
         // it is easy to find with `ps` or `top`.
         const std::string command = clang_tidy_ + " '" + work.first.string() +
-- 
2.43.0


From d8769746c620b0872d1a22990ff1c72bc9ed7f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:09 +0000
Subject: [PATCH 06/35] fix: do not publish output of a clang-tidy that did not
 run to completion

---
 scripts/run-clang-tidy-cached.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index bebde16..96f30d7 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -267,12 +267,14 @@ class ClangTidyRunner {
                                     "'" + clang_tidy_args_ + "> '" + tmp_out +
                                     "' 2>/dev/null";
         const int r = system(command.c_str());
+        if (r == -1) continue;  // Could not be started.
 #ifdef WIFSIGNALED
         // NOLINTBEGIN
         if (WIFSIGNALED(r) &&
             (WTERMSIG(r) == SIGINT || WTERMSIG(r) == SIGQUIT)) {
           break;  // got Ctrl-C
         }
+        if (WIFSIGNALED(r)) continue;  // Killed or crashed: output incomplete.
         // NOLINTEND
 #endif
         RepairFilenameOccurences(tmp_out, tmp_out);
-- 
2.43.0


From b51d61d7167974c1cffb2588d40780adceff5c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:12 +0000
Subject: [PATCH 07/35] fix: do not publish output that could not be completely
 written

---
 scripts/run-clang-tidy-cached.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 96f30d7..8f81455 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -277,7 +277,7 @@ class ClangTidyRunner {
         if (WIFSIGNALED(r)) continue;  // Killed or crashed: output incomplete.
         // NOLINTEND
 #endif
-        RepairFilenameOccurences(tmp_out, tmp_out);
+        if (!RepairFilenameOccurences(tmp_out, tmp_out)) continue;
         fs::rename(tmp_out, final_out);  // atomic replacement
       }
     };
@@ -338,7 +338,8 @@ class ClangTidyRunner {
   // Fix filename paths found in logfiles that are not emitted relative to
   // project root in the log - remove that prefix.
   // (bazel has its own, so if this is bazel, also bazel-specific fix up that).
-  static void RepairFilenameOccurences(const fs::path &infile,
+  // Returns if everything could be written.
+  static bool RepairFilenameOccurences(const fs::path &infile,
                                        const fs::path &outfile) {
     static const std::regex sFixPathsRe = []() {
       std::string canonicalize_expr = "(^|\\n)(";  // fix names at start of line
@@ -358,6 +359,8 @@ class ClangTidyRunner {
     const auto in_content = GetContent(infile);
     std::fstream out_stream(outfile, std::ios::out);
     out_stream << std::regex_replace(in_content, sFixPathsRe, "$1");
+    out_stream.close();
+    return out_stream.good();
   }
 
   const std::string clang_tidy_;
-- 
2.43.0


From be633d93a853921aa96b156f891b13919d019108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 08/35] fix: close pipe with pclose()

---
 scripts/run-clang-tidy-cached.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 8f81455..bef3cae 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -148,14 +148,14 @@ using hash_t = uint64_t;
 using filepath_contenthash_t = std::pair<fs::path, hash_t>;
 
 // Some helpers
-std::string GetContent(FILE *f) {
+std::string GetContent(FILE *f, int (*closer)(FILE *)) {
   std::string result;
   if (!f) return result;  // ¯\_(ツ)_/¯ best effort.
   char buf[4096];
   while (const size_t r = fread(buf, 1, sizeof(buf), f)) {
     result.append(buf, r);
   }
-  fclose(f);
+  closer(f);
   return result;
 }
 
@@ -166,11 +166,11 @@ std::string GetContent(const fs::path &f) {
             strerror(errno));
     return {};  // ¯\_(ツ)_/¯ best effort.
   }
-  return GetContent(file_to_read);
+  return GetContent(file_to_read, fclose);
 }
 
 std::string GetCommandOutput(const std::string &prog) {
-  return GetContent(popen(prog.c_str(), "r"));  // NOLINT
+  return GetContent(popen(prog.c_str(), "r"), pclose);  // NOLINT
 }
 
 hash_t hashContent(const std::string &s) { return std::hash<std::string>()(s); }
-- 
2.43.0


From c5490055933859ed93fe3b6dcb1d48a8a60e159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:18 +0000
Subject: [PATCH 09/35] fix: do not write to summary file if it could not be
 opened

---
 scripts/run-clang-tidy-cached.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index bef3cae..8af75c1 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -488,9 +488,10 @@ class FileGatherer {
     FILE *summary_file = fopen(tidy_summary.c_str(), "wb");
     for (const auto &counts : by_count) {
       fprintf(stdout, "%5d %s\n", counts.second, counts.first.c_str());
+      if (!summary_file) continue;
       fprintf(summary_file, "%5d %s\n", counts.second, counts.first.c_str());
     }
-    fclose(summary_file);
+    if (summary_file) fclose(summary_file);
 
     fs::remove(symlink_summary, ignored_error);
     fs::create_symlink(tidy_summary, symlink_summary, ignored_error);
-- 
2.43.0


From 96446c65c68ace06a1b75d91984f378295fd613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 10/35] fix: count findings of checks with digits and multiple
 names

---
 scripts/run-clang-tidy-cached.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 8af75c1..4a82335 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -453,7 +453,7 @@ class FileGatherer {
     const fs::path tidy_summary = cache_dir / ("tidy-summary.out-" + suffix);
 
     // Assemble the separate outputs into a single file. Tally up per-check
-    const std::regex check_re("(\\[[a-zA-Z.-]+\\])\n");
+    const std::regex check_re("(\\[[a-zA-Z0-9.,+#_-]+\\])\n");
     std::map<std::string, int> checks_seen;
     std::ofstream tidy_collect(tidy_outfile);
     for (const filepath_contenthash_t &f : files_of_interest_) {
-- 
2.43.0


From 70cef6143af0cf6fe192d950e61709c2e98fa847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 11/35] fix: always start at least one worker

---
 scripts/run-clang-tidy-cached.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 4a82335..87e2c24 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -235,7 +235,7 @@ class ClangTidyRunner {
   void RunClangTidyOn(ContentAddressedStore &output_store,
                       std::list<filepath_contenthash_t> *work_queue) {
     if (work_queue->empty()) return;
-    const int kJobs = std::thread::hardware_concurrency();
+    const int kJobs = std::max(1u, std::thread::hardware_concurrency());
     std::cerr << work_queue->size() << " files to process...";
 
     const bool print_progress = isatty(STDERR_FILENO);
-- 
2.43.0


From 19c02408a64a773b5227339e7d3fe29288ae8b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 12/35] fix: quote arguments and filenames in shell command

---
 scripts/run-clang-tidy-cached.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index 87e2c24..d37814c 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -180,6 +180,19 @@ std::string ToHex(uint64_t value, int show_lower_nibbles = 16) {
   return out + (16 - show_lower_nibbles);
 }
 
+// Quote string so that the shell takes it literally.
+std::string ShellQuote(std::string_view s) {
+  std::string result = "'";
+  for (const char c : s) {
+    if (c == '\'') {
+      result.append("'\\''");
+    } else {
+      result += c;
+    }
+  }
+  return result.append("'");
+}
+
 // Mapping filepath_contenthash_t to an actual location in the file system.
 class ContentAddressedStore {
  public:
@@ -263,9 +276,9 @@ class ClangTidyRunner {
                                     ".tmp";
         // Putting the file to clang-tidy early in the command line so that
         // it is easy to find with `ps` or `top`.
-        const std::string command = clang_tidy_ + " '" + work.first.string() +
-                                    "'" + clang_tidy_args_ + "> '" + tmp_out +
-                                    "' 2>/dev/null";
+        const std::string command =
+            clang_tidy_ + " " + ShellQuote(work.first.string()) +
+            clang_tidy_args_ + "> " + ShellQuote(tmp_out) + " 2>/dev/null";
         const int r = system(command.c_str());
         if (r == -1) continue;  // Could not be started.
 #ifdef WIFSIGNALED
@@ -308,7 +321,7 @@ class ClangTidyRunner {
       result.append(" --extra-arg='").append(arg).append("'");
     }
     for (int i = 1; i < argc; ++i) {
-      result.append(" '").append(argv[i]).append("'");
+      result.append(" ").append(ShellQuote(argv[i]));
     }
     return result;
   }
-- 
2.43.0


From 7175b945c83f9316e2a2cb9cc33daba0856b1cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 13/35] fix: escape paths that become part of a regular
 expression

---
 scripts/run-clang-tidy-cached.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/scripts/run-clang-tidy-cached.cc b/scripts/run-clang-tidy-cached.cc
index d37814c..f42f10e 100755
--- a/scripts/run-clang-tidy-cached.cc
+++ b/scripts/run-clang-tidy-cached.cc
@@ -193,6 +193,16 @@ std::string ShellQuote(std::string_view s) {
   return result.append("'");
 }
 
+// Quote string so that it matches literally in a regular expression.
+std::string RegexQuote(std::string_view s) {
+  std::string result;
+  for (const char c : s) {
+    if (strchr("^$\\.*+?()[]{}|", c)) result += '\\';
+    result += c;
+  }
+  return result;
+}
+
 // Mapping filepath_contenthash_t to an actual location in the file system.
 class ContentAddressedStore {
  public:
@@ -360,10 +370,11 @@ class ClangTidyRunner {
         auto bzroot = GetCommandOutput("bazel info execution_root 2>/dev/null");
         if (!bzroot.empty()) {
           bzroot.pop_back();  // remove newline.
-          canonicalize_expr += bzroot + "/|";
+          canonicalize_expr += RegexQuote(bzroot) + "/|";
         }
       }
-      canonicalize_expr += fs::current_path().string() + "/";  // $(pwd)/
+      canonicalize_expr +=
+        RegexQuote(fs::current_path().string()) + "/";  // $(pwd)/
       canonicalize_expr +=
         ")?(\\./)?";  // Some start with, or have a trailing ./
       return std::regex{canonicalize_expr};
-- 
2.43.0


From 93e0b304a78a67fded8d3c924cfb792abcea2079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:36 +0000
Subject: [PATCH 14/35] fix: quote labels in the buildozer edit script

Labels may contain characters such as quotes, parentheses or dollar signs
that the shell would interpret when the script is sourced.
---
 bant/tool/edit-callback.cc | 41 ++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/bant/tool/edit-callback.cc b/bant/tool/edit-callback.cc
index 77d6a19..ef7fddb 100644
--- a/bant/tool/edit-callback.cc
+++ b/bant/tool/edit-callback.cc
@@ -18,24 +18,57 @@
 #include "bant/tool/edit-callback.h"
 
 #include <ostream>
+#include <string>
 #include <string_view>
 
 #include "bant/types-bazel.h"
 
 namespace bant {
+namespace {
+// Quote string so that the shell takes it literally; labels may contain all
+// kinds of characters that are special in the shell, including quotes.
+std::string ShellQuote(std::string_view s) {
+  std::string result = "'";
+  for (const char c : s) {
+    if (c == '\'') {
+      result.append("'\\''");
+    } else {
+      result += c;
+    }
+  }
+  return result.append("'");
+}
+
+// Only quoted if there is anything the shell could interpret.
+std::string ShellQuoteIfNeeded(const std::string &s) {
+  static constexpr std::string_view kHarmless =
+    "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789@/:._+=-";
+  if (s.find_first_not_of(kHarmless) == std::string::npos) return s;
+  return ShellQuote(s);
+}
+
+void WriteBuildozerEdit(std::ostream &out, const std::string &command,
+                        const BazelTarget &target) {
+  out << "buildozer " << ShellQuote(command) << " "
+      << ShellQuoteIfNeeded(target.ToString()) << "\n";
+}
+}  // namespace
+
 EditCallback CreateBuildozerDepsEditCallback(std::ostream &out) {
   return [&out](EditRequest edit, const BazelTarget &target,
                 std::string_view before, std::string_view after) {
     switch (edit) {
     case EditRequest::kRemove:
-      out << "buildozer 'remove deps " << before << "' " << target << "\n";
+      WriteBuildozerEdit(out, "remove deps " + std::string(before), target);
       break;
     case EditRequest::kAdd:
-      out << "buildozer 'add deps " << after << "' " << target << "\n";
+      WriteBuildozerEdit(out, "add deps " + std::string(after), target);
       break;
     case EditRequest::kRename:
-      out << "buildozer 'replace deps " << before << " " << after << "' "
-          << target << "\n";
+      WriteBuildozerEdit(
+        out,
+        "replace deps " + std::string(before) + " " + std::string(after),
+        target);
       break;
     }
   };
-- 
2.43.0


From a456676aa994bb2d083d0d23786233d8c1a7673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:28 +0000
Subject: [PATCH 15/35] fix: quote last piece of a target glob

The text after the last '*' of a target pattern was used as regular expression.
---
 bant/types-bazel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bant/types-bazel.cc b/bant/types-bazel.cc
index 6ff6d93..3a785a9 100644
--- a/bant/types-bazel.cc
+++ b/bant/types-bazel.cc
@@ -212,7 +212,7 @@ static std::unique_ptr<RE2> GlobbingToRE2(std::string_view glob) {
     glob = glob.substr(pos + 1);
     is_first = false;
   }
-  absl::StrAppend(&assembled, glob);
+  absl::StrAppend(&assembled, RE2::QuoteMeta(glob));
   return std::make_unique<RE2>(assembled);
 }
 
-- 
2.43.0


From 9a5354ff0daa28ca2112b98e4460a1c9e4c669c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 16/35] fix: a directory walk does not visit its start
 directory again through a link

---
 bant/util/file-utils.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bant/util/file-utils.cc b/bant/util/file-utils.cc
index 03b3261..d96d65d 100644
--- a/bant/util/file-utils.cc
+++ b/bant/util/file-utils.cc
@@ -173,6 +173,13 @@ std::vector<FilesystemPath> CollectFilesRecursive(
   std::vector<FilesystemPath> result_paths;
   absl::flat_hash_set<ino_t> seen_inode;  // make sure we don't run in circles.
 
+  // A link might lead back to where we started: that is already being visited.
+  ino_t start_inode;
+  if (FollowLinkTestIsDir(dir, &start_inode) &&
+      LooksLikeValidInode(start_inode)) {
+    seen_inode.insert(start_inode);
+  }
+
   std::deque<std::string> directory_worklist;
   directory_worklist.emplace_back(dir.path());
   while (!directory_worklist.empty()) {
-- 
2.43.0


From 428a2f71f7873071fb7f1a14f2fd4414aaf5dd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 17/35] fix: a moved-from arena does not hand out the memory
 that has moved on

---
 bant/util/arena.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bant/util/arena.h b/bant/util/arena.h
index f462460..1c2a37d 100644
--- a/bant/util/arena.h
+++ b/bant/util/arena.h
@@ -31,7 +31,15 @@ namespace bant {
 class Arena {
  public:
   explicit Arena(int block_size) : block_size_(block_size) {}
-  Arena(Arena &&) noexcept = default;
+  // The moved-from arena may not hand out the memory that has moved on.
+  Arena(Arena &&other) noexcept
+      : block_size_(other.block_size_),
+        blocks_(std::move(other.blocks_)),
+        end_(std::exchange(other.end_, nullptr)),
+        pos_(std::exchange(other.pos_, nullptr)),
+        verbose_(other.verbose_),
+        total_bytes_(std::exchange(other.total_bytes_, 0)),
+        total_allocations_(std::exchange(other.total_allocations_, 0)) {}
   Arena(const Arena &) = delete;
 
   void *Alloc(size_t size) {
-- 
2.43.0


From 39eb37af903d9e3c8a6f93febc6225b5b440aa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:50 +0000
Subject: [PATCH 18/35] fix: a content locator can not be moved away from the
 locations it handed out

---
 bant/frontend/named-content.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/named-content.h b/bant/frontend/named-content.h
index e007d39..1e5b574 100644
--- a/bant/frontend/named-content.h
+++ b/bant/frontend/named-content.h
@@ -51,7 +51,8 @@ class NamedLineIndexedContent : public SourceLocator {
       : name_(filename), content_(content) {}
 
   NamedLineIndexedContent(const NamedLineIndexedContent &) = delete;
-  NamedLineIndexedContent(NamedLineIndexedContent &&) = default;
+  // Not movable: locations handed out refer to our name.
+  NamedLineIndexedContent(NamedLineIndexedContent &&) = delete;
 
   // The immutable view of the content.
   std::string_view content() const { return content_; }
-- 
2.43.0


From fc305eae4b4713c84596ed872554f209895b6c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 19/35] fix: newlines between the words of 'not in' are
 recorded as line starts

ConsumeOptionalIn() skips the whitespace between 'not' and 'in', including
newlines, without recording these; all line numbers after that are off.
---
 bant/frontend/scanner.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bant/frontend/scanner.cc b/bant/frontend/scanner.cc
index aa42273..18b3521 100644
--- a/bant/frontend/scanner.cc
+++ b/bant/frontend/scanner.cc
@@ -117,6 +117,12 @@ bool Scanner::ConsumeOptionalIn() {
     ++run;
   }
   if (end_ - run >= 2 && run[0] == 'i' && run[1] == 'n') {
+    for (/**/; pos_ < run; ++pos_) {
+      if (*pos_ == '\n') {
+        source_.mutable_line_index()->PushNewline(pos_ + 1);
+        ++newline_count_;
+      }
+    }
     pos_ = run + 2;
     return true;
   }
-- 
2.43.0


From 7aaae61a6c51283819ecfb43dc3b91d5d258542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 20/35] fix: keep function name and argument list of a call
 when names are substituted

---
 bant/frontend/ast.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bant/frontend/ast.h b/bant/frontend/ast.h
index ac6dff3..fd22f43 100644
--- a/bant/frontend/ast.h
+++ b/bant/frontend/ast.h
@@ -393,8 +393,18 @@ class BaseNodeReplacementVisitor : public NodeVisitor {
   }
 
   Node *VisitFunCall(FunCall *f) override {
-    ReplaceWalk(&f->left_);
-    ReplaceWalk(&f->right_);
+    // A function call always is an identifier followed by a list of arguments;
+    // only accept replacements that keep it that way.
+    if (Node *walk_result = WalkNonNull(f->left_)) {
+      if (Identifier *identifier = walk_result->CastAsIdentifier()) {
+        f->left_ = identifier;
+      }
+    }
+    if (Node *walk_result = WalkNonNull(f->right_)) {
+      if (List *argument_list = walk_result->CastAsList()) {
+        f->right_ = argument_list;
+      }
+    }
     return f;
   }
 
-- 
2.43.0


From 442eceb1dd068c567bf776c85204b0d73e39d907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 21/35] fix: evaluation copes with missing operands and
 arguments

---
 bant/frontend/elaboration.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index e37432f..338a922 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -96,6 +96,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     Node *post_visit = BaseNodeReplacementVisitor::VisitBinOpNode(b);
     BinOpNode *bin_op = post_visit->CastAsBinOp();  // still binop ?
     if (!bin_op) return post_visit;
+    if (!bin_op->left() || !bin_op->right()) return bin_op;  // parse error.
     switch (bin_op->op()) {
     case '+': {
       {
@@ -156,11 +157,13 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
 
   Node *HandleSelect(FunCall *fun) {
     for (Node *arg : *fun->argument()) {
+      if (!arg) continue;  // parse error.
       List *const select_map = arg->CastAsList();
       if (!select_map || select_map->type() != List::Type::kMap) continue;
       for (Node *item : *select_map) {
+        if (!item) continue;
         BinOpNode *map_item = item->CastAsBinOp();
-        if (!map_item || map_item->op() != ':') continue;
+        if (!map_item || map_item->op() != ':' || !map_item->left()) continue;
         Scalar *key = map_item->left()->CastAsScalar();
         if (key && conditions_.contains(key->AsString())) {
           return map_item->right();
@@ -175,12 +178,13 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     List *include_list = nullptr;
     List *exclude_list = nullptr;
     for (Node *arg : *fun->argument()) {
+      if (!arg) continue;  // parse error.
       if (List *as_list = arg->CastAsList()) {
         include_list = as_list;  // include_list is positional parameter.
         continue;
       }
       if (Assignment *kwarg = arg->CastAsAssignment()) {
-        if (!kwarg->maybe_identifier()) continue;
+        if (!kwarg->maybe_identifier() || !kwarg->value()) continue;
         const std::string_view kw = kwarg->maybe_identifier()->id();
         if (kw == "include") {
           include_list = kwarg->value()->CastAsList();
-- 
2.43.0


From e470f11b19371964d03cad9f4ad7f87bd8ca7857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 22/35] fix: skip missing elements when extracting string lists

---
 bant/explore/query-utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bant/explore/query-utils.cc b/bant/explore/query-utils.cc
index bb91240..279975d 100644
--- a/bant/explore/query-utils.cc
+++ b/bant/explore/query-utils.cc
@@ -191,7 +191,7 @@ void FindTargetsAllowEmptyName(
 void AppendStringList(List *list, std::vector<std::string_view> &append_to) {
   if (list == nullptr) return;
   for (Node *n : *list) {
-    Scalar *scalar = n->CastAsScalar();
+    Scalar *scalar = n ? n->CastAsScalar() : nullptr;
     if (!scalar) continue;
     if (const std::string_view str = scalar->AsString(); !str.empty()) {
       append_to.push_back(str);
-- 
2.43.0


From e3c940a4858254303aab1d22850a7c358e3db34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 23/35] fix: visibility lists may contain missing elements

---
 bant/frontend/parsed-project.cc | 2 +-
 bant/tool/dwyu.cc               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bant/frontend/parsed-project.cc b/bant/frontend/parsed-project.cc
index f349c44..8937b68 100644
--- a/bant/frontend/parsed-project.cc
+++ b/bant/frontend/parsed-project.cc
@@ -241,7 +241,7 @@ static void MaybePrintVisibility(List *visibility, std::ostream &out) {
   if (!visibility) return;
   out << " (visibility:";
   for (Node *v : *visibility) {
-    Scalar *s = v->CastAsScalar();
+    Scalar *s = v ? v->CastAsScalar() : nullptr;
     if (!s) continue;
     out << " " << s->AsString();
   }
diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 46ef440..e5d5919 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -220,7 +220,7 @@ bool DWYUGenerator::CanSee(const BazelTarget &target,
   if (!visibility_list) return true;
   bool any_valid_visiblity_pattern = false;
   for (Node *entry : *visibility_list) {
-    const Scalar *str = entry->CastAsScalar();
+    const Scalar *str = entry ? entry->CastAsScalar() : nullptr;
     if (!str) continue;
     auto vis_or = BazelPattern::ParseVisibility(str->AsString(), dep.package);
     if (!vis_or.has_value()) continue;
-- 
2.43.0


From f4ec5fb6139109cda6e6adf3ba2e21a9aaa46989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 24/35] fix: accept documented option -E

---
 bant/bant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bant/bant.cc b/bant/bant.cc
index 5dd0c82..08f603b 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -149,7 +149,7 @@ int main(int argc, char *argv[]) {
     {"json", OutputFormat::kJSON},     {"graphviz", OutputFormat::kGraphviz},
   };
   int opt;
-  while ((opt = getopt(argc, argv, "C:qo:vhpecbf:r::Vkg:i")) != -1) {
+  while ((opt = getopt(argc, argv, "C:qo:vhpecbEf:r::Vkg:i")) != -1) {
     switch (opt) {
     case 'C': {
       std::error_code err;
-- 
2.43.0


From a6be10dcd81b4f89d85d784ce81588284a81a654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 25/35] fix: aliased-by follows dependencies with -r as
 documented

---
 bant/cli-commands.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bant/cli-commands.cc b/bant/cli-commands.cc
index 8e06b15..ca2c5ed 100644
--- a/bant/cli-commands.cc
+++ b/bant/cli-commands.cc
@@ -151,6 +151,7 @@ CliStatus RunCommand(Session &session, Command cmd,
   case Command::kGenruleOutputs:
   case Command::kListTargets:
   case Command::kListPackages:
+  case Command::kAliasedBy:
   case Command::kDependsOn:
   case Command::kHasDependents:
   case Command::kCompilationDB:
-- 
2.43.0


From 7ef28f07b8668de70c4738d683daefa3e6ae0342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 26/35] fix: do not elaborate a package whose BUILD file could
 not be read

A readable path called BUILD might be e.g. a directory, in which case there
is no parsed build file and elaborating it dereferences a nullptr.
---
 bant/explore/dependency-graph.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bant/explore/dependency-graph.cc b/bant/explore/dependency-graph.cc
index cadd23c..850d236 100644
--- a/bant/explore/dependency-graph.cc
+++ b/bant/explore/dependency-graph.cc
@@ -85,6 +85,10 @@ void FindAndParseMissingPackages(Session &session,
     // building, as it might expand more dpendencies.
     // TODO: but do we need expensive glob() enabled ?
     ParsedBuildFile *file = project->AddBuildFile(session, *path, package);
+    if (file == nullptr) {  // There, but not readable; e.g. a directory.
+      error_packages->insert(package);
+      continue;
+    }
     bant::Elaborate(session, project, file);
   }
 }
-- 
2.43.0


From 3ff4b0585aac569b6fcad7fe3d227883252a5bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 27/35] fix: collecting include directories skips targets
 without valid name

A name such as ':' is not empty, but does not result in a qualified target.
---
 bant/tool/compilation-db.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 746359f..930b2b6 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -165,6 +165,7 @@ static std::vector<std::string> CollectIncDirs(const ParsedProject &project) {
       {"cc_library", "cc_binary", "cc_test", "proto_library"},
       [&](const query::Result &details) {
         auto target = current_package.QualifiedTarget(details.name);
+        if (!target.has_value()) return;  // Not a valid name, e.g. just ":"
         // If we're one of those targets that come with the own -I prefix,
         // add all these.
         const auto inc_dirs = query::ExtractStringList(details.includes_list);
-- 
2.43.0


From 041337f465a5cf56990d18cc8a421b44a3da7519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 28/35] fix: include_prefix of a target in the main project
 does not abort

The main project has an empty name, so removing the leading '@' throws.
---
 bant/tool/compilation-db.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 930b2b6..393869d 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -185,9 +185,13 @@ static std::vector<std::string> CollectIncDirs(const ParsedProject &project) {
           // to use this feature.
           const std::string_view external_project = target->package.project;
           const std::string_view target_path = target->package.path;
-          const std::string virt_incdir = absl::StrCat(
-            "bazel-bin/external/", external_project.substr(1), "/", target_path,
-            "/_virtual_includes/", target->target_name);
+          const std::string project_dir =
+            external_project.empty()
+              ? ""
+              : absl::StrCat("external/", external_project.substr(1), "/");
+          const std::string virt_incdir =
+            absl::StrCat("bazel-bin/", project_dir, target_path,
+                         "/_virtual_includes/", target->target_name);
           if (already_seen.insert(virt_incdir).second) {
             result.emplace_back(virt_incdir);
           }
-- 
2.43.0


From 00a59df69a870f7b01a5a6525ebb38fac43838a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 29/35] fix: dwyu never proposes a target as its own dependency

A header we provide ourselves, but not listed in srcs or hdrs with the
path it is included with (e.g. textual_hdrs, or found with includes = [...])
resulted in adding the target to its own dependencies. The set of already
provided targets was filled but never consulted.
---
 bant/tool/dwyu.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index e5d5919..91e6572 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -276,6 +276,10 @@ DWYUGenerator::DependenciesNeededBySources(
     // Add all visible targets.
     auto &result_set = result.emplace_back();
     for (const BazelTarget &t : alternatives) {
+      if (already_provided.contains(t)) {  // e.g. textual_hdrs of our own.
+        result.pop_back();
+        return;
+      }
       if (CanSee(target, t)) {
         result_set.insert(t);
       }
-- 
2.43.0


From 439985ffe6a7f2e0407c20f78eaab46b1afa5a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:42 +0000
Subject: [PATCH 30/35] fix: dwyu does not propose removals if the list of
 sources is not fully known

If srcs or hdrs is not a list of strings after evaluation (e.g. a variable
coming from a *.bzl file), we don't know all the files the target is made of,
so can't say a dependency is not needed.
---
 bant/tool/dwyu.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 91e6572..642e615 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -78,6 +78,25 @@ static bool IsHeaderInList(std::string_view header,
   return false;
 }
 
+// Only if the attribute could be evaluated to a list of plain strings (or is
+// not there at all) we know everything it contains.
+static bool IsFullyEvaluated(const query::Result &details,
+                             std::string_view attribute) {
+  for (Node *arg : *details.node->argument()) {
+    Assignment *const kwarg = arg ? arg->CastAsAssignment() : nullptr;
+    if (!kwarg || !kwarg->maybe_identifier() ||
+        kwarg->maybe_identifier()->id() != attribute) {
+      continue;
+    }
+    List *const list = kwarg->value() ? kwarg->value()->CastAsList() : nullptr;
+    if (!list) return false;
+    for (Node *element : *list) {
+      if (!element || !element->CastAsScalar()) return false;
+    }
+  }
+  return true;
+}
+
 static absl::btree_set<BazelTarget> intersect(
   const absl::btree_set<BazelTarget> &a,
   const absl::btree_set<BazelTarget> &b) {
@@ -427,7 +446,8 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
   // Looking at the include files the sources reference, map these back
   // to the dependencies that provide them: these are the deps we
   // needed.
-  bool all_header_deps_known = true;
+  bool all_header_deps_known =
+    IsFullyEvaluated(details, "srcs") && IsFullyEvaluated(details, "hdrs");
 
   // Collect sources and headers provided by this library.
   auto sources = query::ExtractStringList(details.srcs_list);
-- 
2.43.0


From 10d86fd42789f19383c0f0a29ae162bd7420af0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 31/35] fix: see includes whose path has dots in directories or
 other characters

An include such as "lib-1.0/foo.h" was not recognized, so dwyu proposed
to remove the dependency that provides it.
---
 bant/tool/dwyu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 642e615..e27e160 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -554,7 +554,7 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
 
 std::vector<std::string_view> ExtractCCIncludes(NamedLineIndexedContent *src) {
   static const LazyRE2 kIncRe{
-    R"/((?m)("|^\s*#\s*include\s+"((\.\./)*[0-9a-zA-Z_/+-]+(\.[a-zA-Z]+)*)"))/"};
+    R"/((?m)("|^\s*#\s*include\s+"([^"\n]+)"))/"};
 
   // We don't actually understand strings in c++, so we just pretend by
   // toggle ignore whenever we see one.
-- 
2.43.0


From ed74998d97dff073f771fb15173eca5ce83fae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 32/35] fix: dwyu does not add testonly dependencies to a
 cc_binary

Binaries were not indexed, so it was not known that they are not testonly.
---
 bant/tool/dwyu.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index e27e160..dd0deff 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -166,7 +166,8 @@ void DWYUGenerator::InitKnownLibraries() {
     query::FindTargets(parsed_package->ast,
                        {"cc_library", "alias",  // The common ones
                         "cc_proto_library", "grpc_cc_library",  // specialized
-                        "cc_test"},  // also indexing test for testonly check.
+                        // also indexing these for testonly check.
+                        "cc_test", "cc_binary"},
                        [&](const query::Result &target) {
                          auto self =
                            current_package.QualifiedTarget(target.name);
-- 
2.43.0


From e4d2b4c9f18be141344e6f13bc84d44e830c652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 33/35] fix: unknown option makes bant fail rather than succeed

---
 bant/bant.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/bant.cc b/bant/bant.cc
index 08f603b..56e85a5 100644
--- a/bant/bant.cc
+++ b/bant/bant.cc
@@ -209,7 +209,8 @@ int main(int argc, char *argv[]) {
     } break;
     case 'v': flags.verbose++; break;  // More -v, more detail.
     case 'V': return print_version();
-    default: return usage(argv[0], nullptr, EXIT_SUCCESS);
+    case 'h': return usage(argv[0], nullptr, EXIT_SUCCESS);
+    default: return usage(argv[0], nullptr, EXIT_FAILURE);
     }
   }
 
-- 
2.43.0


From 59d95899a881648f73f7cc5792a15ca750ea33b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 34/35] fix: JSON and CSV output is escaped the way these
 formats define

---
 bant/util/table-printer.cc | 41 ++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/bant/util/table-printer.cc b/bant/util/table-printer.cc
index bca57b8..eb9d401 100644
--- a/bant/util/table-printer.cc
+++ b/bant/util/table-printer.cc
@@ -23,15 +23,40 @@
 #include <memory>
 #include <ostream>
 #include <string>
+#include <string_view>
 #include <vector>
 
 #include "absl/log/check.h"
 #include "absl/strings/escaping.h"
+#include "absl/strings/str_cat.h"
 #include "absl/strings/str_format.h"
+#include "absl/strings/str_replace.h"
 #include "bant/output-format.h"
 
 namespace bant {
 namespace {
+// Unlike C, JSON has no octal escapes and does not allow to escape characters
+// that don't need it.
+std::string JsonEscape(std::string_view str) {
+  std::string result;
+  for (const char c : str) {
+    if (c == '"' || c == '\\') {
+      result.push_back('\\');
+      result.push_back(c);
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      absl::StrAppend(&result, "\\u", absl::Hex(c, absl::kZeroPad4));
+    } else {
+      result.push_back(c);
+    }
+  }
+  return result;
+}
+
+// In CSV, quotes are doubled; everything else in a quoted field is literal.
+std::string CsvEscape(std::string_view str) {
+  return absl::StrReplaceAll(str, {{"\"", "\"\""}});
+}
+
 // The AlignedTextColumnPrinter needs to collect all the rows first to know
 // how wide columns are.
 class AlignedTextColumnPrinter : public TablePrinter {
@@ -152,8 +177,8 @@ class JSonTablePrinter : public TablePrinter {
     out_ << "{";
     for (size_t c = 0; c < row.size(); ++c) {
       if (c != 0) out_ << ", ";
-      out_ << "\"" << absl::CEscape(headers_[c]) << "\": ";
-      out_ << "\"" << absl::CEscape(row[c]) << "\"";
+      out_ << "\"" << JsonEscape(headers_[c]) << "\": ";
+      out_ << "\"" << JsonEscape(row[c]) << "\"";
     }
     out_ << "}\n";
   }
@@ -165,15 +190,15 @@ class JSonTablePrinter : public TablePrinter {
     size_t c = 0;
     for (c = 0; c < row_prefix.size(); ++c) {
       if (c != 0) out_ << ", ";
-      out_ << "\"" << absl::CEscape(headers_[c]) << "\": ";
-      out_ << "\"" << absl::CEscape(row_prefix[c]) << "\"";
+      out_ << "\"" << JsonEscape(headers_[c]) << "\": ";
+      out_ << "\"" << JsonEscape(row_prefix[c]) << "\"";
     }
     if (c != 0) out_ << ", ";
-    out_ << "\"" << absl::CEscape(headers_[c]) << "\": ";
+    out_ << "\"" << JsonEscape(headers_[c]) << "\": ";
     out_ << "[";
     for (size_t rc = 0; rc < repeat_col.size(); ++rc) {
       if (rc != 0) out_ << ", ";
-      out_ << "\"" << absl::CEscape(repeat_col[rc]) << "\"";
+      out_ << "\"" << JsonEscape(repeat_col[rc]) << "\"";
     }
     out_ << "]}\n";
   }
@@ -191,7 +216,7 @@ class CSVTablePrinter : public TablePrinter {
       : out_(out) {
     for (size_t c = 0; c < headers.size(); ++c) {
       if (c != 0) out_ << ",";
-      out_ << "\"" << absl::CEscape(headers[c]) << "\"";
+      out_ << "\"" << CsvEscape(headers[c]) << "\"";
     }
     out_ << "\n";
   }
@@ -199,7 +224,7 @@ class CSVTablePrinter : public TablePrinter {
   void AddRow(const std::vector<std::string> &row) final {
     for (size_t c = 0; c < row.size(); ++c) {
       if (c != 0) out_ << ",";
-      out_ << "\"" << absl::CEscape(row[c]) << "\"";
+      out_ << "\"" << CsvEscape(row[c]) << "\"";
     }
     out_ << "\n";
   }
-- 
2.43.0


From 199ac5632c6f6a7bcd6ed22b684925741cbefda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 35/35] fix: strings in the compilation database are escaped

---
 bant/tool/compilation-db.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bant/tool/compilation-db.cc b/bant/tool/compilation-db.cc
index 393869d..48ef4a3 100644
--- a/bant/tool/compilation-db.cc
+++ b/bant/tool/compilation-db.cc
@@ -40,13 +40,22 @@
 
 namespace bant {
 
-// Make quoted strings a little less painful to print to C++ streams
+// Make quoted JSON strings a little less painful to print to C++ streams
 struct q {
   std::string_view value;
 };
 std::ostream &operator<<(std::ostream &out, const q &quoted_str) {
-  out << "\"" << quoted_str.value << "\"";
-  return out;
+  out << "\"";
+  for (const char c : quoted_str.value) {
+    if (c == '"' || c == '\\') {
+      out << '\\' << c;
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      out << absl::StrCat("\\u", absl::Hex(c, absl::kZeroPad4));
+    } else {
+      out << c;
+    }
+  }
+  return out << "\"";
 }
 
 // Common typical options considered for the compiler.
-- 
2.43.0

