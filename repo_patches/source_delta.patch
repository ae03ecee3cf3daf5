From 8dd02ba5df4d3b2a68dac257a8a456ab1dd1a20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:55 +0000
Subject: [PATCH 01/18] fix: clear stale user data of the io_uring close
 request in replace_fd

liburing's prep functions do not set user_data, so once the submission
queue has wrapped the close request carried the buffer of an earlier
write: its completion resubmitted that buffer (duplicating a line) and
corrupted the free list.
---
 src/io_uring_fd_storage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 32b1f41..fa9374f 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -170,6 +170,9 @@ void xtr::io_uring_fd_storage::replace_fd(int newfd) noexcept
     // ensure that all previous writes complete before closing.
     io_uring_sqe* sqe = get_sqe();
     ::io_uring_prep_close(sqe, fd_.release());
+    // The submission queue entry may have been used before, so its user data
+    // must be cleared for wait_for_one_cqe to recognise the close operation.
+    ::io_uring_sqe_set_data(sqe, nullptr);
     sqe->flags |= IOSQE_IO_DRAIN;
     ++pending_cqe_count_;
     io_uring_submit_func_(&ring_);
-- 
2.43.0


From c3306e4d3aca0c06ee66c2a4d85202bb1103a6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:55 +0000
Subject: [PATCH 02/18] fix: keep the reopen path when falling back to
 posix_fd_storage

The path had been moved into the io_uring back-end that failed to
construct, so a log using the fall-back could never be reopened.
---
 src/fd_storage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fd_storage.cpp b/src/fd_storage.cpp
index b6e4520..7128b02 100644
--- a/src/fd_storage.cpp
+++ b/src/fd_storage.cpp
@@ -69,7 +69,8 @@ xtr::storage_interface_ptr xtr::make_fd_storage(int fd, std::string reopen_path)
     {
         try
         {
-            return std::make_unique<io_uring_fd_storage>(fd, std::move(reopen_path));
+            // reopen_path is not moved as it is needed below if this throws
+            return std::make_unique<io_uring_fd_storage>(fd, reopen_path);
         }
         catch (const std::exception& e)
         {
-- 
2.43.0


From 960ca3e5b79b4199f5e82c4af7904716a24979b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:55 +0000
Subject: [PATCH 03/18] fix: close the descriptor opened by
 make_fd_storage(const char*)

The back-end works on a duplicate, so the descriptor was leaked.
---
 src/fd_storage.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fd_storage.cpp b/src/fd_storage.cpp
index 7128b02..3da12b1 100644
--- a/src/fd_storage.cpp
+++ b/src/fd_storage.cpp
@@ -23,6 +23,7 @@
 #include "xtr/io/io_uring_fd_storage.hpp"
 #include "xtr/io/posix_fd_storage.hpp"
 
+#include "xtr/detail/file_descriptor.hpp"
 #include "xtr/detail/retry.hpp"
 #include "xtr/detail/throw.hpp"
 
@@ -49,7 +50,10 @@ xtr::storage_interface_ptr xtr::make_fd_storage(const char* path)
     if (fd == -1)
         detail::throw_system_error_fmt(errno, "Failed to open `%s'", path);
 
-    return make_fd_storage(fd, path);
+    // The storage duplicates fd, so the original must be closed
+    const detail::file_descriptor owner(fd);
+
+    return make_fd_storage(owner.get(), path);
 }
 
 XTR_FUNC
-- 
2.43.0


From 63b465cd5fbe64c8be52143078f4f6811d85863c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:55 +0000
Subject: [PATCH 04/18] fix: round timestamps before the epoch down to the
 second

The result of the subtraction was discarded, giving a negative tv_nsec.
---
 include/xtr/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/logger.hpp b/include/xtr/logger.hpp
index b72b054..a448f2d 100644
--- a/include/xtr/logger.hpp
+++ b/include/xtr/logger.hpp
@@ -344,7 +344,7 @@ private:
                 const auto now = clock_.now();
                 auto sec = time_point_cast<seconds>(now);
                 if (sec > now)
-                    sec - seconds{1};
+                    sec -= seconds{1};
                 return std::timespec{
                     .tv_sec=sec.time_since_epoch().count(),
                     .tv_nsec=duration_cast<nanoseconds>(now - sec).count()};
-- 
2.43.0


From e6cc2a69da02aed06fad5f60e9c6903505016446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:55 +0000
Subject: [PATCH 05/18] fix: reject negative levels in the set level command

---
 src/consumer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index eaa00fb..4341f95 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -217,7 +217,7 @@ void xtr::detail::consumer::set_level_handler(int fd, detail::set_level& sl)
 {
     sl.pattern.text[sizeof(sl.pattern.text) - 1] = '\0';
 
-    if (sl.level > xtr::log_level_t::debug)
+    if (sl.level < xtr::log_level_t::none || sl.level > xtr::log_level_t::debug)
     {
         cmds_->send_error(fd, "Invalid level");
         return;
-- 
2.43.0


From a27696b76af09d645c48b24e7529ac536b5eed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:55 +0000
Subject: [PATCH 06/18] fix: do not divide by zero if the CPU does not
 enumerate the TSC ratio

---
 src/tsc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tsc.cpp b/src/tsc.cpp
index 1565473..8f0e166 100644
--- a/src/tsc.cpp
+++ b/src/tsc.cpp
@@ -58,6 +58,9 @@ std::uint64_t xtr::detail::read_tsc_hz() noexcept
     // Where CCC = core crystal clock.
     auto [ratio_den, ratio_num, ccc_hz, unused] = cpuid(0x15);
 
+    if (ratio_den == 0)
+        return 0; // TSC/CCC ratio not enumerated
+
     if (ccc_hz == 0)
     {
         // Core crystal clock frequency not provided, must infer
-- 
2.43.0


From 2c41a638c87b913b7259ed359eea61e11ab81dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:55 +0000
Subject: [PATCH 07/18] fix: hold the control mutex while syncing the control
 sink

set_command_path and set_log_level_style posted to the control queue
without the lock, racing with other threads calling logger functions.
---
 include/xtr/logger.hpp | 6 ++++++
 src/logger.cpp         | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/xtr/logger.hpp b/include/xtr/logger.hpp
index a448f2d..025fc6b 100644
--- a/include/xtr/logger.hpp
+++ b/include/xtr/logger.hpp
@@ -331,6 +331,12 @@ private:
         control_.post(std::forward<Func>(f));
     }
 
+    void sync()
+    {
+        std::scoped_lock lock{control_mutex_};
+        control_.sync();
+    }
+
     template<typename Clock>
     std::function<std::timespec()> make_clock(Clock&& clock)
     {
diff --git a/src/logger.cpp b/src/logger.cpp
index 386fdce..d80f628 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -48,7 +48,7 @@ void xtr::logger::set_command_path(std::string path) noexcept
         {
             c.set_command_path(std::move(s));
         });
-    control_.sync();
+    sync();
 }
 
 XTR_FUNC
@@ -59,7 +59,7 @@ void xtr::logger::set_log_level_style(log_level_style_t level_style) noexcept
         {
             c.buf.lstyle = level_style;
         });
-    control_.sync();
+    sync();
 }
 
 
-- 
2.43.0


From 10f66febf7b54d6e757d097a7320392bda8d0902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:55 +0000
Subject: [PATCH 08/18] fix: make the default log level atomic

set_default_log_level and get_sink may be called from different threads.
---
 include/xtr/logger.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xtr/logger.hpp b/include/xtr/logger.hpp
index 025fc6b..7517b22 100644
--- a/include/xtr/logger.hpp
+++ b/include/xtr/logger.hpp
@@ -31,6 +31,7 @@
 #include "log_level.hpp"
 #include "sink.hpp"
 
+#include <atomic>
 #include <chrono>
 #include <cstdio>
 #include <ctime>
@@ -360,7 +361,7 @@ private:
     jthread consumer_;
     sink control_;
     std::mutex control_mutex_;
-    log_level_t default_log_level_ = log_level_t::info;
+    std::atomic<log_level_t> default_log_level_ = log_level_t::info;
 
     friend sink;
 };
-- 
2.43.0


From 5851243b8de7a54554ee61ab0e38e761bf9737a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:55 +0000
Subject: [PATCH 09/18] fix: sanitize strings that were moved into the log

---
 include/xtr/detail/string_table.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/xtr/detail/string_table.hpp b/include/xtr/detail/string_table.hpp
index e2a7ebd..8ba105c 100644
--- a/include/xtr/detail/string_table.hpp
+++ b/include/xtr/detail/string_table.hpp
@@ -55,12 +55,22 @@ namespace xtr::detail
     };
 
     template<typename T>
-    requires (!std::same_as<std::remove_cvref_t<T>, string_table_entry>)
+    requires
+        (!std::same_as<std::remove_cvref_t<T>, string_table_entry> &&
+         !std::same_as<std::remove_cvref_t<T>, std::string>)
     T&& transform_string_table_entry(const std::byte*, T&& value)
     {
         return std::forward<T>(value);
     }
 
+    // Strings that were moved into the log record must be sanitized too
+    inline string_ref<std::string_view> transform_string_table_entry(
+        const std::byte*,
+        const std::string& value)
+    {
+        return string_ref<std::string_view>(value);
+    }
+
     inline string_ref<std::string_view> transform_string_table_entry(
         std::byte*& pos,
         string_table_entry entry)
-- 
2.43.0


From 374a98d625bc02f60ddae82768a84580032a4c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:53 +0000
Subject: [PATCH 10/18] fix: allow over-aligned arguments together with string
 arguments

---
 include/xtr/sink.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/sink.hpp b/include/xtr/sink.hpp
index 66e88fd..f768b91 100644
--- a/include/xtr/sink.hpp
+++ b/include/xtr/sink.hpp
@@ -285,7 +285,7 @@ void xtr::sink::post_with_str_table(Args&&... args)
 
     auto func_pos = s.begin() + sizeof(fptr_t);
     if constexpr (alignof(lambda_t) > alignof(fptr_t))
-        func_pos = align<alignof(lambda_t)>(func_pos);
+        func_pos = detail::align<alignof(lambda_t)>(func_pos);
 
     static_assert(alignof(char) == 1);
     const auto str_pos = func_pos + sizeof(lambda_t);
-- 
2.43.0


From 581d98851a712e0f43695b2697580858fd32994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:29 +0000
Subject: [PATCH 11/18] fix: do not index past the last connection after it is
 closed

---
 src/command_dispatcher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/command_dispatcher.cpp b/src/command_dispatcher.cpp
index 2566293..c7db65b 100644
--- a/src/command_dispatcher.cpp
+++ b/src/command_dispatcher.cpp
@@ -168,7 +168,7 @@ void xtr::detail::command_dispatcher::process_commands(int timeout) noexcept
             process_socket_read(pollfds_[i]);
             --nfds;
         }
-        if (fd != pollfds_[i].fd.get())
+        if (i == pollfds_.size() || fd != pollfds_[i].fd.get())
             --i; // Adjust for erased item
     }
 }
-- 
2.43.0


From 0c9efd061c9909dc270fab06e77e2aee506545b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:03 +0000
Subject: [PATCH 12/18] fix: anchor the first TSC conversion of a thread to the
 wall clock

---
 src/tsc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tsc.cpp b/src/tsc.cpp
index 8f0e166..242c6a3 100644
--- a/src/tsc.cpp
+++ b/src/tsc.cpp
@@ -162,8 +162,8 @@ std::timespec xtr::detail::tsc::to_timespec(tsc ts)
     static const std::uint64_t one_minute_ticks = 60 * get_tsc_hz();
     static const double tsc_multiplier = 1e9 / double(get_tsc_hz());
 
-    // Sync up TSC and wall clocks every minute
-    if (ts.ticks > last_tsc.ticks + one_minute_ticks)
+    // Sync up TSC and wall clocks on first use and then every minute
+    if (last_tsc.ticks == 0 || ts.ticks > last_tsc.ticks + one_minute_ticks)
     {
         last_tsc = tsc::now();
         std::timespec temp;
-- 
2.43.0


From 26fa361a9aebbd9a016fffbf684faff6b70e524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:09 +0000
Subject: [PATCH 13/18] fix: do not unmap the mirror twice when constructing a
 mirrored mapping fails

If creating the second view failed then the mirror was unmapped by its own
object and then again as part of the enclosing reservation, in between which
another thread could map something else at the same address.
---
 src/mirrored_memory_mapping.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mirrored_memory_mapping.cpp b/src/mirrored_memory_mapping.cpp
index 70c05f0..7163dcb 100644
--- a/src/mirrored_memory_mapping.cpp
+++ b/src/mirrored_memory_mapping.cpp
@@ -137,6 +137,12 @@ xtr::detail::mirrored_memory_mapping::mirrored_memory_mapping(
                 reserve.get()),
             length);
 
+        // mirror lies inside reserve, so must not be unmapped separately if
+        // an exception is thrown (another thread could map the freed pages
+        // before they are unmapped again by reserve). If no exception is
+        // thrown mirror will be recreated in ~mirrored_memory_mapping.
+        mirror.release();
+
         if (!m_)
         {
             throw_system_error(
@@ -146,7 +152,6 @@ xtr::detail::mirrored_memory_mapping::mirrored_memory_mapping(
         }
 
         reserve.release(); // mapping was destroyed by mremap
-        mirror.release(); // mirror will be recreated in ~mirrored_memory_mapping
         return;
 #else
         if (!(temp_fd = shm_open_anon(O_RDWR, S_IRUSR|S_IWUSR)))
@@ -180,10 +185,13 @@ xtr::detail::mirrored_memory_mapping::mirrored_memory_mapping(
         fd,
         offset);
 
+    // mirror lies inside reserve, so must not be unmapped separately if an
+    // exception is thrown (see above)
+    mirror.release();
+
     m_ = memory_mapping(reserve.get(), length, prot, flags, fd, offset);
 
     reserve.release(); // mapping was destroyed when m_ was created
-    mirror.release(); // mirror will be recreated in ~mirrored_memory_mapping
 }
 
 XTR_FUNC
-- 
2.43.0


From a4b464973673179901360f9d075d9a76faa56d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 14/18] fix: release the io_uring if registering its buffers
 fails

make_fd_storage falls back to posix_fd_storage in this case, so the ring
and its descriptor were leaked.
---
 src/io_uring_fd_storage.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index fa9374f..3ccb174 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -75,7 +75,16 @@ xtr::io_uring_fd_storage::io_uring_fd_storage(
             "io_uring_queue_init failed");
     }
 
-    allocate_buffers(queue_size);
+    try
+    {
+        allocate_buffers(queue_size);
+    }
+    catch (...)
+    {
+        // The destructor does not run if the constructor throws
+        ::io_uring_queue_exit(&ring_);
+        throw;
+    }
 }
 
 XTR_FUNC
-- 
2.43.0


From 3f4756a7a9715d450f6c6ca878d749189fd669d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:39 +0000
Subject: [PATCH 15/18] fix: do not let an io_uring batch exceed the number of
 buffers

With batch_size > queue_size every buffer was queued without ever being
submitted, so allocate_buffer waited forever. A batch size of zero was a
division by zero.
---
 src/io_uring_fd_storage.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 3ccb174..1212663 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -26,6 +26,7 @@
 
 #include <liburing.h>
 
+#include <algorithm>
 #include <cassert>
 #include <cstdio>
 #include <cstring>
@@ -46,7 +47,9 @@ xtr::io_uring_fd_storage::io_uring_fd_storage(
 :
     fd_storage_base(fd, std::move(reopen_path)),
     buffer_capacity_(buffer_capacity),
-    batch_size_(batch_size),
+    // A batch larger than the queue could never be collected, as there would be
+    // no free buffers left and nothing submitted to wait for.
+    batch_size_(std::max<std::size_t>(std::min(batch_size, queue_size), 1)),
     io_uring_submit_func_(io_uring_submit_func),
     io_uring_get_sqe_func_(io_uring_get_sqe_func),
     io_uring_wait_cqe_func_(io_uring_wait_cqe_func),
-- 
2.43.0


From fd19cd8df7bd3b670028dcbe17fb434ca36b5852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:30 +0000
Subject: [PATCH 16/18] fix: flush records processed before their sink was
 closed

If a sink logged and was then closed, and the consumer processed both in one
go, the messages were not written until another message was logged.
---
 src/consumer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index 4341f95..6350398 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -98,6 +98,8 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
             using std::swap;
             swap(sinks_[n], sinks_.back()); // possible self-swap, ok
             sinks_.pop_back();
+            // Records processed before the sink was closed must be flushed
+            flush_count = sinks_.size();
             continue;
         }
 
-- 
2.43.0


From a1df94f555bb2df1ec1c79d7f16d320b4c5eb142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:45 +0000
Subject: [PATCH 17/18] fix: pattern::ignore_case is received from the network
 but was a bool, for which most byte values are invalid

---
 include/xtr/detail/commands/pattern.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xtr/detail/commands/pattern.hpp b/include/xtr/detail/commands/pattern.hpp
index cde5971..d06c6ef 100644
--- a/include/xtr/detail/commands/pattern.hpp
+++ b/include/xtr/detail/commands/pattern.hpp
@@ -28,7 +28,8 @@ namespace xtr::detail
     struct pattern
     {
         pattern_type_t type;
-        bool ignore_case;
+        // Received from the network, so not bool (which may only hold 0 or 1)
+        unsigned char ignore_case;
         char text[256];
     };
 }
-- 
2.43.0


From d0a18bf214c5f4af082680b7ebe21545aab04868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:03 +0000
Subject: [PATCH 18/18] fix: keep io_uring writes in order on files opened for
 appending

Offsets passed to io_uring writes are ignored by files opened with
O_APPEND, so a write that was punted to a kernel worker (e.g. the first
write after a reopen) could be overtaken by later writes, leaving log
messages out of order in the file.
---
 src/io_uring_fd_storage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 1212663..289c054 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -167,6 +167,11 @@ void xtr::io_uring_fd_storage::submit_buffer(char* data, std::size_t size)
 
     ::io_uring_sqe_set_data(sqe, buf);
 
+    // The offset is ignored if the file was opened with O_APPEND (as is done
+    // by make_fd_storage and reopen) or isn't seekable, so writes must not be
+    // started before the preceding writes have completed.
+    sqe->flags |= IOSQE_IO_DRAIN;
+
     offset_ += size;
     ++pending_cqe_count_;
 
-- 
2.43.0

