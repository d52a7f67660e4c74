From da9c14ec9bbc3e0939ece6181a514555f026a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 01/75] fix: make the logger thread-safe, its dumps honest and
 its crash reports dependable

The class is documented as thread-safe, but the buffer, its resizing and the sink were shared
without synchronisation: concurrent calls could tear, lose or duplicate entries or crash.  They are
now guarded by a mutex.  dump_to_file() reported success when writing or closing the file had
failed; it now falls back or reports failure.  With the crash handler disabled a fatal signal was
swallowed (and a genuine fault repeated forever); a second crashing thread killed the process in
the middle of the first one's report; and a crash inside a log or scope update could make the
report itself crash.
---
 include/huira/util/logger.hpp      |  30 ++++-
 include/huira_impl/util/logger.ipp | 176 ++++++++++++++++++++++-------
 2 files changed, 166 insertions(+), 40 deletions(-)

diff --git a/include/huira/util/logger.hpp b/include/huira/util/logger.hpp
index 877465d..81bfad5 100644
--- a/include/huira/util/logger.hpp
+++ b/include/huira/util/logger.hpp
@@ -2,8 +2,10 @@
 
 #include <atomic>
 #include <chrono>
+#include <filesystem>
 #include <functional>
 #include <iostream>
+#include <mutex>
 #include <stdexcept>
 #include <string>
 #include <thread>
@@ -61,8 +63,8 @@ struct LogEntry {
  * - Per-level console output configuration
  * - Cross-platform crash reporting (signals and SEH)
  *
- * The logger is thread-safe and uses lock-free atomic operations for performance.
- * Log entries are stored in a circular buffer and can be dumped to a file on demand
+ * The logger is thread-safe: settings are atomic, and the buffer and the sink are guarded by a
+ * mutex that is held while the sink runs. Log entries are stored in a circular buffer and can be dumped to a file on demand
  * or automatically during crashes.
  */
 class Logger {
@@ -106,6 +108,15 @@ class Logger {
     // Centralized crash report output
     static void output_crash_report(const std::string& log_path);
 
+    // The parts of log() and dump_to_file() that need the mutex
+    void record_(LogLevel level, const std::string& message);
+    std::string dump_(const std::string& filepath);
+    bool write_dump_(const std::filesystem::path& path);
+
+    // Crash handling must neither hang on the mutex nor trust a half-written entry
+    bool begin_crash_report_();
+    void lock_for_crash_report_();
+
     static void handle_crash(int signal);
     [[noreturn]] static void handle_terminate();
     void install_crash_handlers();
@@ -114,8 +125,13 @@ class Logger {
     static LONG WINAPI windows_exception_handler(EXCEPTION_POINTERS* exception_info);
 #endif
 
+    static constexpr size_t NO_SLOT = static_cast<size_t>(-1);
+
+    std::recursive_mutex mutex_;
     std::vector<LogEntry> buffer_;
     std::atomic<size_t> write_index_;
+    std::atomic<size_t> writing_slot_{NO_SLOT}; // buffer entry being written at this moment
+    size_t torn_slot_ = NO_SLOT;                // entry whose writing a crash interrupted
     std::atomic<LogLevel> min_level_;
     std::atomic<bool> crash_handler_enabled_;
     std::atomic<bool> console_debug_;
@@ -125,6 +141,7 @@ class Logger {
 
     // Ensures only one crash report is printed per process
     static std::atomic<bool> crash_reported_;
+    static std::atomic<std::thread::id> crash_reporter_;
 };
 
 /**
@@ -312,6 +329,13 @@ std::vector<const char*>& get_thread_scope_stack()
     return scope_stack;
 }
 
+// True while the calling thread's scope stack is being changed (a crash may interrupt that)
+inline std::atomic<bool>& thread_scope_stack_busy()
+{
+    thread_local std::atomic<bool> busy{false};
+    return busy;
+}
+
 class ScopeLogger {
   private:
     const char* scope_name;
@@ -319,7 +343,9 @@ class ScopeLogger {
   public:
     ScopeLogger(const char* name) : scope_name(name)
     {
+        thread_scope_stack_busy().store(true, std::memory_order_relaxed);
         get_thread_scope_stack().push_back(scope_name);
+        thread_scope_stack_busy().store(false, std::memory_order_relaxed);
     }
 
     ~ScopeLogger()
diff --git a/include/huira_impl/util/logger.ipp b/include/huira_impl/util/logger.ipp
index 7338960..ba4a12b 100644
--- a/include/huira_impl/util/logger.ipp
+++ b/include/huira_impl/util/logger.ipp
@@ -74,6 +74,11 @@ const char* LogEntry::level_to_string(LogLevel level)
  */
 inline std::atomic<bool> Logger::crash_reported_{false};
 
+/**
+ * @brief The thread that is writing the crash report.
+ */
+inline std::atomic<std::thread::id> Logger::crash_reporter_{};
+
 /**
  * @brief Initialize the logger with default settings.
  *
@@ -138,6 +143,8 @@ void Logger::set_buffer_size(size_t size)
     }
     std::vector<LogEntry> new_buffer(size);
 
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
+
     // Copy existing entries
     size_t current_write = instance().write_index_.load(std::memory_order_relaxed);
     size_t old_size = instance().buffer_.size();
@@ -159,6 +166,7 @@ void Logger::set_buffer_size(size_t size)
  */
 size_t Logger::get_buffer_size()
 {
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     return instance().buffer_.size();
 }
 
@@ -172,6 +180,7 @@ size_t Logger::get_buffer_size()
  */
 void Logger::set_custom_sink(CustomSink sink)
 {
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     instance().custom_sink_ = std::move(sink);
 }
 
@@ -180,6 +189,7 @@ void Logger::set_custom_sink(CustomSink sink)
  */
 void Logger::clear_custom_sink()
 {
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
     instance().custom_sink_ = nullptr;
 }
 
@@ -198,17 +208,34 @@ void Logger::log(LogLevel level, const std::string& message)
         return;
     }
 
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
+    instance().record_(level, message);
+}
+
+/**
+ * @brief Append an entry to the circular buffer and hand it to the custom sink.
+ *
+ * The mutex must be held (or, while reporting a crash, be unobtainable).
+ *
+ * @param level Severity level of the message
+ * @param message Message to log
+ */
+void Logger::record_(LogLevel level, const std::string& message)
+{
     LogEntry entry{std::chrono::system_clock::now(), level, message, std::this_thread::get_id()};
 
     // Add to circular buffer
-    size_t index =
-        instance().write_index_.fetch_add(1, std::memory_order_relaxed) % instance().buffer_.size();
-    instance().buffer_[index] = entry;
+    size_t write_index = write_index_.load(std::memory_order_relaxed);
+    size_t index = write_index % buffer_.size();
+    writing_slot_.store(index, std::memory_order_relaxed);
+    buffer_[index] = entry;
+    write_index_.store(write_index + 1, std::memory_order_relaxed);
+    writing_slot_.store(NO_SLOT, std::memory_order_relaxed);
 
     // Call custom sink if set
-    if (instance().custom_sink_) {
+    if (custom_sink_) {
         try {
-            instance().custom_sink_(entry);
+            custom_sink_(entry);
         } catch (...) {
             // Ignore exceptions from custom sink to prevent logging from crashing
         }
@@ -226,6 +253,20 @@ void Logger::log(LogLevel level, const std::string& message)
  * @return std::string Actual path where log was written, or empty on failure
  */
 std::string Logger::dump_to_file(const std::string& filepath)
+{
+    std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
+    return instance().dump_(filepath);
+}
+
+/**
+ * @brief Write the log to the given or default path, or else to the current directory.
+ *
+ * The mutex must be held (or, while reporting a crash, be unobtainable).
+ *
+ * @param filepath Path to output file (empty for platform-specific default)
+ * @return std::string Actual path where log was written, or empty on failure
+ */
+std::string Logger::dump_(const std::string& filepath)
 {
     std::filesystem::path actual_path;
 
@@ -236,16 +277,35 @@ std::string Logger::dump_to_file(const std::string& filepath)
         actual_path = filepath;
     }
 
-    std::ofstream file(actual_path);
-    if (!file) {
+    if (!write_dump_(actual_path)) {
         // Try current directory as absolute fallback
-        actual_path = std::filesystem::current_path() / actual_path.filename();
-        file.open(actual_path);
-        if (!file) {
+        std::error_code ec;
+        std::filesystem::path current = std::filesystem::current_path(ec);
+        if (ec) {
+            return "";
+        }
+        actual_path = current / actual_path.filename();
+        if (!write_dump_(actual_path)) {
             return "";
         }
     }
 
+    return actual_path.string();
+}
+
+/**
+ * @brief Write the log to one file.
+ *
+ * @param path Path of the file
+ * @return bool True if the complete log has been written
+ */
+bool Logger::write_dump_(const std::filesystem::path& path)
+{
+    std::ofstream file(path);
+    if (!file) {
+        return false;
+    }
+
     std::string platform_str = get_platform();
     std::string compiler_str = get_compiler_info();
 
@@ -253,21 +313,23 @@ std::string Logger::dump_to_file(const std::string& filepath)
     file << "=========\n\n";
     file << "Platform: " << platform_str << " | Compiler: " << compiler_str << "\n\n";
 
-    size_t current_write = instance().write_index_.load(std::memory_order_relaxed);
-    size_t total_entries = std::min(current_write, instance().buffer_.size());
-    size_t start_index =
-        (current_write > instance().buffer_.size()) ? current_write % instance().buffer_.size() : 0;
+    size_t current_write = write_index_.load(std::memory_order_relaxed);
+    size_t total_entries = std::min(current_write, buffer_.size());
+    size_t start_index = (current_write > buffer_.size()) ? current_write % buffer_.size() : 0;
 
     for (size_t i = 0; i < total_entries; ++i) {
-        size_t index = (start_index + i) % instance().buffer_.size();
-        const auto& entry = instance().buffer_[index];
+        size_t index = (start_index + i) % buffer_.size();
+        if (index == torn_slot_) {
+            continue;
+        }
+        const auto& entry = buffer_[index];
         if (!entry.message.empty()) {
             file << entry.to_string() << '\n';
         }
     }
 
     file.close();
-    return actual_path.string();
+    return !file.fail();
 }
 
 /**
@@ -396,6 +458,49 @@ void Logger::output_crash_report(const std::string& log_path)
     }
 }
 
+/**
+ * @brief Claim the one crash report of this process.
+ *
+ * If another thread is already reporting, waits (not forever) for it to end the process.
+ *
+ * @return bool True if the calling thread is to write the report
+ */
+bool Logger::begin_crash_report_()
+{
+    bool expected = false;
+    if (crash_reported_.compare_exchange_strong(expected, true)) {
+        crash_reporter_.store(std::this_thread::get_id());
+        return true;
+    }
+    if (crash_reporter_.load() != std::this_thread::get_id()) {
+        for (int i = 0; i < 500; ++i) {
+            std::this_thread::sleep_for(std::chrono::milliseconds(10));
+        }
+    }
+    return false;
+}
+
+/**
+ * @brief Take the mutex for a crash report, but never hang on it.
+ *
+ * The mutex may be held by a thread that never continues, and the crash may have interrupted the
+ * calling thread while it was writing an entry; that entry is then left out of the report.
+ */
+void Logger::lock_for_crash_report_()
+{
+    for (int i = 0; i < 100 && !mutex_.try_lock(); ++i) {
+        std::this_thread::sleep_for(std::chrono::milliseconds(10));
+    }
+    torn_slot_ = writing_slot_.load(std::memory_order_relaxed);
+    if (torn_slot_ != NO_SLOT) {
+        // keep the slot out of use
+        size_t write_index = write_index_.load(std::memory_order_relaxed);
+        if (write_index % buffer_.size() == torn_slot_) {
+            write_index_.store(write_index + 1, std::memory_order_relaxed);
+        }
+    }
+}
+
 /**
  * @brief Signal handler for crashes (SIGSEGV, SIGABRT, etc.).
  *
@@ -408,30 +513,26 @@ void Logger::output_crash_report(const std::string& log_path)
 void Logger::handle_crash(int signal)
 {
     auto& logger = Logger::instance();
-    if (!logger.crash_handler_enabled_.load(std::memory_order_relaxed)) {
-        return;
-    }
-    // Only print crash report once
-    bool expected = false;
-    if (!Logger::crash_reported_.compare_exchange_strong(
-            expected, true, std::memory_order_relaxed)) {
-        // Already reported
+    // Report nothing if disabled, and only once otherwise
+    if (!logger.crash_handler_enabled_.load(std::memory_order_relaxed) ||
+        !logger.begin_crash_report_()) {
         std::signal(signal, SIG_DFL);
         std::raise(signal);
         return;
     }
-    logger.log(LogLevel::Error, "Crash detected with signal: " + std::to_string(signal));
+    logger.lock_for_crash_report_();
+    logger.record_(LogLevel::Error, "Crash detected with signal: " + std::to_string(signal));
 
     auto& scopes = get_thread_scope_stack();
-    if (!scopes.empty()) {
-        logger.log(LogLevel::Error, std::string("Crash inside scope: ") + scopes.back());
-        logger.log(LogLevel::Error, "Scope trace:");
+    if (!thread_scope_stack_busy().load(std::memory_order_relaxed) && !scopes.empty()) {
+        logger.record_(LogLevel::Error, std::string("Crash inside scope: ") + scopes.back());
+        logger.record_(LogLevel::Error, "Scope trace:");
         for (const char* scope : scopes) {
-            logger.log(LogLevel::Error, std::string(" -> ") + scope);
+            logger.record_(LogLevel::Error, std::string(" -> ") + scope);
         }
     }
 
-    std::string log_path = logger.dump_to_file();
+    std::string log_path = logger.dump_("");
     output_crash_report(log_path);
 
     // Re-raise signal with default handler
@@ -483,28 +584,27 @@ LONG WINAPI Logger::windows_exception_handler(EXCEPTION_POINTERS* exception_info
         std::abort();
     }
     // Only print crash report once
-    bool expected = false;
-    if (!Logger::crash_reported_.compare_exchange_strong(
-            expected, true, std::memory_order_relaxed)) {
+    if (!logger.begin_crash_report_()) {
         std::abort();
     }
+    logger.lock_for_crash_report_();
     try {
         auto exception_ptr = std::current_exception();
         if (exception_ptr) {
             try {
                 std::rethrow_exception(exception_ptr);
             } catch (const std::exception& e) {
-                logger.log(LogLevel::Error, std::string("Uncaught exception: ") + e.what());
+                logger.record_(LogLevel::Error, std::string("Uncaught exception: ") + e.what());
             } catch (...) {
-                logger.log(LogLevel::Error, "Uncaught unknown exception");
+                logger.record_(LogLevel::Error, "Uncaught unknown exception");
             }
         } else {
-            logger.log(LogLevel::Error, "Terminate called without active exception");
+            logger.record_(LogLevel::Error, "Terminate called without active exception");
         }
     } catch (...) {
         // Failed to log the exception
     }
-    std::string log_path = logger.dump_to_file();
+    std::string log_path = logger.dump_("");
     output_crash_report(log_path);
     std::abort();
 }
-- 
2.43.0


From 74ac1ca2073041d00cd274b8a092b04d996d95ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 02/75] fix: serialise SPICE, keep errors with their call,
 never terminate or strand the process

CSPICE is not reentrant, yet the wrappers are documented as thread-safe:
calls overlapped, errors were reported by other threads, a pending error made
ensure_lsk_loaded() load the default leap seconds over the user's own,
and restoring the working directory threw from a destructor.
---
 include/huira/core/spice.hpp      |   4 +-
 include/huira_impl/core/spice.ipp | 144 ++++++++++++++++++++++--------
 2 files changed, 109 insertions(+), 39 deletions(-)

diff --git a/include/huira/core/spice.hpp b/include/huira/core/spice.hpp
index 6452282..9de8be1 100644
--- a/include/huira/core/spice.hpp
+++ b/include/huira/core/spice.hpp
@@ -39,8 +39,10 @@ inline void furnsh(const fs::path& file_path);
  */
 inline void furnsh_relative_to_file(const fs::path& kernel_path);
 
+// CSPICE is not reentrant: every call into it is made while holding this mutex.
+inline std::recursive_mutex spice_mutex;
+
 // Default SPICE kernel management
-inline std::once_flag lsk_init_flag;
 inline std::atomic<bool> lsk_loaded{false};
 
 inline fs::path get_default_lsk_path();
diff --git a/include/huira_impl/core/spice.ipp b/include/huira_impl/core/spice.ipp
index 72fd408..003a912 100644
--- a/include/huira_impl/core/spice.ipp
+++ b/include/huira_impl/core/spice.ipp
@@ -14,10 +14,17 @@
 namespace fs = std::filesystem;
 
 namespace huira::spice {
-inline void check_spice_error()
+/**
+ * @brief Take the pending SPICE error, if any, and clear it.
+ *
+ * Must be called with spice_mutex held.
+ *
+ * @return std::string The error message, empty if no error is pending
+ */
+inline std::string take_spice_error()
 {
     if (!failed_c()) {
-        return;
+        return {};
     }
 
     constexpr int MAX_MSG_LEN = 1841;
@@ -32,21 +39,43 @@ inline void check_spice_error()
     if (long_msg[0] != '\0') {
         error += ": " + std::string(long_msg);
     }
-    HUIRA_THROW_ERROR(error);
+    if (error.empty()) {
+        error = "Unknown SPICE error";
+    }
+    return error;
 }
 
+/**
+ * @brief Make SPICE report errors to its caller: no abort, no printing.
+ *
+ * Must be called with spice_mutex held.
+ */
+inline void init_spice_error_handling()
+{
+    SpiceChar action[] = "RETURN";
+    erract_c("SET", 0, action);
+
+    // Disable automatic error message printing
+    SpiceChar none[] = "NONE";
+    errprt_c("SET", 0, none);
+}
+
+/**
+ * @brief Run one exchange with SPICE under the SPICE mutex, and throw if it reported an error.
+ *
+ * The call and the retrieval of its error form one critical section, so that an error is always
+ * reported to the thread whose call caused it.
+ */
 template <typename Func, typename... Args>
 auto call_spice(Func func, Args&&... args)
 {
-    // Initialize error handling on first call
-    static bool initialized = []() {
-        SpiceChar action[] = "RETURN";
-        erract_c("SET", 0, action);
+    using ReturnType = decltype(func(std::forward<Args>(args)...));
 
-        // Disable automatic error message printing
-        SpiceChar none[] = "NONE";
-        errprt_c("SET", 0, none);
+    std::unique_lock<std::recursive_mutex> lock(spice_mutex);
 
+    // Initialize error handling on first call
+    static bool initialized = []() {
+        init_spice_error_handling();
         return true;
     }();
     (void)initialized;
@@ -55,14 +84,20 @@ auto call_spice(Func func, Args&&... args)
         reset_c();
     }
 
-    using ReturnType = decltype(func(std::forward<Args>(args)...));
-
     if constexpr (std::is_void_v<ReturnType>) {
         func(std::forward<Args>(args)...);
-        check_spice_error();
+        const std::string error = take_spice_error();
+        lock.unlock();
+        if (!error.empty()) {
+            HUIRA_THROW_ERROR(error);
+        }
     } else {
         auto result = func(std::forward<Args>(args)...);
-        check_spice_error();
+        const std::string error = take_spice_error();
+        lock.unlock();
+        if (!error.empty()) {
+            HUIRA_THROW_ERROR(error);
+        }
         return result;
     }
 }
@@ -94,15 +129,35 @@ inline void furnsh_relative_to_file(const fs::path& kernel_path)
 
     HUIRA_LOG_INFO("SPCIE Furnsh (relative): " + kernel_path.string());
 
+    // The working directory is process-wide: hold the SPICE mutex until it is restored, so that two
+    // relative loads cannot interleave.
+    std::lock_guard<std::recursive_mutex> lock(spice_mutex);
+
     struct DirectoryGuard {
         fs::path original;
         DirectoryGuard() : original(fs::current_path()) {}
-        ~DirectoryGuard() { fs::current_path(original); }
+        ~DirectoryGuard()
+        {
+            // Reached when the load failed. Never throw from here, but do not give up at once.
+            if (!original.empty()) {
+                std::error_code ec;
+                fs::current_path(original, ec);
+                if (ec) {
+                    fs::current_path(original, ec);
+                }
+            }
+        }
+        void restore()
+        {
+            fs::current_path(original);
+            original.clear();
+        }
     };
 
     DirectoryGuard guard;
     fs::current_path(kernel_path.parent_path());
     call_spice([&]() { furnsh_c(kernel_path.filename().string().c_str()); });
+    guard.restore();
 }
 
 // ======================================= //
@@ -127,17 +182,25 @@ inline void ensure_lsk_loaded()
     if (lsk_loaded.load(std::memory_order_acquire)) {
         return;
     }
-    std::call_once(lsk_init_flag, []() {
+
+    const std::string lsk_path = get_default_lsk_path().string();
+    bool loaded_default = false;
+    std::string error;
+    {
+        std::lock_guard<std::recursive_mutex> lock(spice_mutex);
+        if (lsk_loaded.load(std::memory_order_relaxed)) {
+            return;
+        }
+
         // Save current error action and set to RETURN mode
         SpiceChar oldAction[16];
         erract_c("GET", sizeof(oldAction), oldAction);
+        init_spice_error_handling();
 
-        SpiceChar action[] = "RETURN";
-        erract_c("SET", 0, action);
-
-        // Disable automatic error message printing
-        SpiceChar none[] = "NONE";
-        errprt_c("SET", 0, none);
+        // A stale error would make every following call return at once
+        if (failed_c()) {
+            reset_c();
+        }
 
         // Test if an LSK is already loaded
         SpiceDouble et;
@@ -146,22 +209,25 @@ inline void ensure_lsk_loaded()
         if (failed_c()) {
             reset_c();
             // No LSK loaded - load our default
-            HUIRA_LOG_INFO("Loading default LSK from: " + get_default_lsk_path().string());
-            furnsh_c(get_default_lsk_path().string().c_str());
-            if (failed_c()) {
-                SpiceChar msg[1841];
-                getmsg_c("LONG", 1841, msg);
-                reset_c();
-                erract_c("SET", 0, oldAction); // Restore before throwing
-                HUIRA_THROW_ERROR("ensure_lsk_loaded() - Failed to load default LSK: " +
-                                  std::string(msg));
-            }
+            furnsh_c(lsk_path.c_str());
+            error = take_spice_error();
+            loaded_default = error.empty();
         }
 
         // Restore original error action
         erract_c("SET", 0, oldAction);
-        lsk_loaded.store(true, std::memory_order_release);
-    });
+
+        if (error.empty()) {
+            lsk_loaded.store(true, std::memory_order_release);
+        }
+    }
+
+    if (!error.empty()) {
+        HUIRA_THROW_ERROR("ensure_lsk_loaded() - Failed to load default LSK: " + error);
+    }
+    if (loaded_default) {
+        HUIRA_LOG_INFO("Loaded default LSK from: " + lsk_path);
+    }
 }
 
 /**
@@ -340,11 +406,13 @@ sxform(const std::string& FROM, const std::string& TO, const huira::Time& time)
     SpiceDouble matrix[3][3];
     SpiceDouble angular_velocity[3];
 
-    // Get state transformation matrix (includes rotation + derivatives)
-    call_spice(sxform_c, FROM.c_str(), TO.c_str(), et, state_xform);
+    call_spice([&]() {
+        // Get state transformation matrix (includes rotation + derivatives)
+        sxform_c(FROM.c_str(), TO.c_str(), et, state_xform);
 
-    // Extract rotation matrix and angular velocity vector
-    xf2rav_c(state_xform, matrix, angular_velocity);
+        // Extract rotation matrix and angular velocity vector
+        xf2rav_c(state_xform, matrix, angular_velocity);
+    });
 
     // SPICE returns row-major, huira::Mat3 is column-major
     huira::Mat3<T> rotation{static_cast<T>(matrix[0][0]),
-- 
2.43.0


From f97e45673c0c79caed52bda16cac44ebb3c02858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 03/75] fix: sxform() must not rotate the angular velocity
 again

xf2rav_c returns it in the FROM frame already.
---
 include/huira_impl/core/spice.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/spice.ipp b/include/huira_impl/core/spice.ipp
index 003a912..efaffa1 100644
--- a/include/huira_impl/core/spice.ipp
+++ b/include/huira_impl/core/spice.ipp
@@ -425,12 +425,12 @@ sxform(const std::string& FROM, const std::string& TO, const huira::Time& time)
                             static_cast<T>(matrix[1][2]),
                             static_cast<T>(matrix[2][2])};
 
-    huira::Vec3<T> ang_vel_local{static_cast<T>(angular_velocity[0]),
-                                 static_cast<T>(angular_velocity[1]),
-                                 static_cast<T>(angular_velocity[2])};
+    // xf2rav_c gives the angular velocity in the FROM frame, which is the parent here
+    huira::Vec3<T> ang_vel_parent{static_cast<T>(angular_velocity[0]),
+                                  static_cast<T>(angular_velocity[1]),
+                                  static_cast<T>(angular_velocity[2])};
 
     Rotation<T> rotation_obj = huira::Rotation<T>::from_parent_to_local(rotation);
-    huira::Vec3<T> ang_vel_parent = rotation_obj * ang_vel_local;
 
     // SPICE represents tha passive rotation of parent-to-local:
     return {rotation_obj, ang_vel_parent};
-- 
2.43.0


From 773397d50958b5f83c9748624c94f062a602d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:54 +0000
Subject: [PATCH 04/75] fix: draw a sample's time and light points from its own
 tile

The shutter time was one variable shared by all tiles and light samples came
from one unsynchronised, randomly seeded generator shared by all tiles, so
tiles raced and frames differed from run to run.
---
 include/huira_impl/render/renderer.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index aaa8f07..bb6ab08 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -137,7 +137,6 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
     int tiles_x = (fb_width + TILE_SIZE - 1) / TILE_SIZE;
     int tiles_y = (fb_height + TILE_SIZE - 1) / TILE_SIZE;
     int num_tiles = tiles_x * tiles_y;
-    float time = 0.f;
     const bool has_motion_blur = scene_view.temporal_samples_.size() > 1;
 
     tbb::parallel_for(
@@ -180,6 +179,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                             Ray<TSpectral> ray = camera->cast_ray(Pixel{sx, sy}, sampler);
 
                             // Motion blur: randomize time sample per ray
+                            float time = 0.f;
                             if (has_motion_blur) {
                                 time = sampler.get_1d(); // [0, 1] maps to shutter interval
                             }
@@ -232,7 +232,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                                                       time);
 
                                             auto sample = light_instance.light->sample_li(
-                                                vol_isect, current_transform, this->sampler_);
+                                                vol_isect, current_transform, sampler);
 
                                             if (!sample) {
                                                 continue;
@@ -391,7 +391,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                             interpolate_transform(light_instance.transforms, time);
 
                                         auto sample = light_instance.light->sample_li(
-                                            isect, current_transform, this->sampler_);
+                                            isect, current_transform, sampler);
 
                                         if (!sample) {
                                             continue;
-- 
2.43.0


From 2ecd75bce7c0ae71e34196dce42389f091a4e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 05/75] fix: a view keeps the irradiances resolved for it

Rendering read the irradiance of an unresolved object from the scene's shared
object, so creating another view (or a second instance of the object) before
rendering changed or mixed up the frame of the first.
---
 include/huira/scene/scene_view_types.hpp |  1 +
 include/huira_impl/render/renderer.ipp   |  4 +---
 include/huira_impl/scene/scene_view.ipp  | 21 +++++++++++++++------
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/huira/scene/scene_view_types.hpp b/include/huira/scene/scene_view_types.hpp
index 196bf34..6ee3422 100644
--- a/include/huira/scene/scene_view_types.hpp
+++ b/include/huira/scene/scene_view_types.hpp
@@ -35,6 +35,7 @@ template <IsSpectral TSpectral>
 struct UnresolvedInstance {
     std::shared_ptr<UnresolvedObject<TSpectral>> unresolved_object;
     std::vector<Transform<float>> transforms; // Transform at N times
+    std::vector<TSpectral> irradiances;       // Irradiance at the observer at N times
 };
 
 /**
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index bb6ab08..c1ffc54 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -674,8 +674,6 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
     std::vector<RenderItem<TSpectral>> items;
     items.reserve(scene_view.stars_.size() + scene_view.unresolved_objects_.size());
 
-    const auto& times = scene_view.temporal_samples_;
-
     for (const auto& star : scene_view.stars_) {
         std::vector<Vec3<float>> directions(star.size());
         std::vector<TSpectral> irradiances(star.size());
@@ -691,7 +689,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
         std::vector<TSpectral> irradiances(instance.transforms.size());
         for (std::size_t i = 0; i < instance.transforms.size(); ++i) {
             directions[i] = glm::normalize(instance.transforms[i].position);
-            irradiances[i] = instance.unresolved_object->get_irradiance(times[i]);
+            irradiances[i] = instance.irradiances[i];
         }
         TrajectoryArc arc(directions);
         items.push_back({arc, irradiances, stamp_radius});
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 091e9e4..ca3126a 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -1,5 +1,6 @@
 #include <limits>
 #include <memory>
+#include <mutex>
 #include <vector>
 
 #include "embree4/rtcore.h"
@@ -132,12 +133,20 @@ SceneView<TSpectral>::SceneView(const Scene<TSpectral>& scene,
         stars_[i] = star_samples;
     }
 
-    // Resolve all unresolved objects now that we have light positions
-    for (auto& unresolved_object : unresolved_objects_) {
-        // NOTE: Here we use the irradiance computed using the transform at the start of the
-        // interval
-        unresolved_object.unresolved_object->resolve_irradiance(unresolved_object.transforms[0],
-                                                                lights_);
+    // Resolve all unresolved objects now that we have light positions. The objects belong to the
+    // scene and hold one irradiance only, so keep what was resolved for this view and instance.
+    {
+        static std::mutex resolve_mutex;
+        std::lock_guard<std::mutex> lock(resolve_mutex);
+        for (auto& instance : unresolved_objects_) {
+            // NOTE: Here we use the irradiance computed using the transform at the start of the
+            // interval
+            instance.unresolved_object->resolve_irradiance(instance.transforms[0], lights_);
+            instance.irradiances.reserve(temporal_samples_.size());
+            for (const Time& time : temporal_samples_) {
+                instance.irradiances.push_back(instance.unresolved_object->get_irradiance(time));
+            }
+        }
     }
 
     build_tlas_();
-- 
2.43.0


From 634850fc6f188548adc009bb6529b6d115e1f5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 06/75] fix: do not lose point sources that round into the next
 tile

---
 include/huira_impl/render/renderer.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index c1ffc54..a89e017 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -843,7 +843,8 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
     const auto& depth_buffer = frame_buffer.depth();
     bool has_depth = frame_buffer.has_depth();
 
-    int margin = stamp_radius;
+    // Without a stamp a source still rounds to its nearest pixel, possibly in the next tile:
+    int margin = std::max(stamp_radius, 1);
 
     struct TileBuffer {
         Image<TSpectral> buf;
-- 
2.43.0


From 55fbd51c3e2f4329870931888a4ce731013b3d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 07/75] fix: concurrent sensor readouts take turns on the noise
 stream

---
 include/huira_impl/cameras/sensors/simple_sensor.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/huira_impl/cameras/sensors/simple_sensor.ipp b/include/huira_impl/cameras/sensors/simple_sensor.ipp
index 737dc77..6bba062 100644
--- a/include/huira_impl/cameras/sensors/simple_sensor.ipp
+++ b/include/huira_impl/cameras/sensors/simple_sensor.ipp
@@ -1,4 +1,5 @@
 #include <cstddef>
+#include <mutex>
 #include <random>
 
 #include "huira/concepts/spectral_concepts.hpp"
@@ -73,6 +74,11 @@ void SimpleSensor<TSpectral>::readout(FrameBuffer<TSpectral>& fb, units::Second
 
     // TODO Move this somewhere else?
     static std::mt19937 rng(1);
+    static std::mutex rng_mutex;
+    std::unique_lock<std::mutex> rng_lock(rng_mutex, std::defer_lock);
+    if (this->config_.simulate_noise) {
+        rng_lock.lock(); // One readout at a time draws from the noise stream
+    }
     std::normal_distribution<float> read_noise_dist(0.0f, this->config_.read_noise);
 
     const TSpectral photon_energy = TSpectral::photon_energies();
-- 
2.43.0


From 680edf64b431a1eb73e215f64a82bdb1694fd7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 08/75] fix: reading out without a sensor response channel
 wrote out of bounds

---
 include/huira_impl/cameras/sensors/simple_sensor.ipp | 3 +++
 include/huira_impl/render/renderer.ipp               | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/sensors/simple_sensor.ipp b/include/huira_impl/cameras/sensors/simple_sensor.ipp
index 6bba062..704c5f9 100644
--- a/include/huira_impl/cameras/sensors/simple_sensor.ipp
+++ b/include/huira_impl/cameras/sensors/simple_sensor.ipp
@@ -67,6 +67,9 @@ template <IsSpectral TSpectral>
 void SimpleSensor<TSpectral>::readout(FrameBuffer<TSpectral>& fb, units::Second exposure_time) const
 {
     Image<TSpectral>& received_power = fb.received_power();
+    if (!fb.has_received_power() || !fb.has_sensor_response()) {
+        return; // Nothing to read out, or no channel to read out into
+    }
     auto& output = fb.sensor_response();
     output.set_sensor_bit_depth(this->config_.bit_depth);
 
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index a89e017..14a0df2 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -43,7 +43,7 @@ void Renderer<TSpectral>::render(SceneView<TSpectral>& scene_view,
     }
 
     // Apply Veiling Glare
-    if (camera->veiling_glare_enabled_) {
+    if (camera->veiling_glare_enabled_ && frame_buffer.has_received_power()) {
         float unveiled = 1.f - camera->veiling_alpha_;
         TSpectral total_power{0.f};
         for (std::size_t i = 0; i < frame_buffer.received_power().size(); ++i) {
-- 
2.43.0


From e218c988f3a590d99906e1a0cc4ead1c9eadafa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 09/75] fix: object ids stay unique when scenes are built
 concurrently

---
 include/huira/scene/scene_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira/scene/scene_object.hpp b/include/huira/scene/scene_object.hpp
index 25f4a6c..599b729 100644
--- a/include/huira/scene/scene_object.hpp
+++ b/include/huira/scene/scene_object.hpp
@@ -88,7 +88,7 @@ class SceneObject : public std::enable_shared_from_this<TDerived> {
     std::string name_ = ""; // Only NameRegistry should modify this
 
     std::uint64_t id_ = 0;
-    static inline std::uint64_t next_id_ = 0;
+    static inline std::atomic<std::uint64_t> next_id_{0};
 
     friend class NameRegistry<TDerived>;
 };
-- 
2.43.0


From f85c1c6eb16542627038bc20fcdbcae22b56ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 10/75] fix: convolutions on several threads take turns in
 FFTW's planner

---
 include/huira_impl/images/image.ipp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 6d583b0..c30939c 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -4,12 +4,20 @@
 #include <cassert>
 #include <cmath>
 #include <cstring>
+#include <mutex>
 #include <stdexcept>
 
 #include "fftw3.h"
 
 namespace huira {
 
+// FFTW's planner is not thread-safe: plans are made and destroyed under this lock
+inline std::mutex& fftw_planner_mutex()
+{
+    static std::mutex mutex;
+    return mutex;
+}
+
 /**
  * @brief Default constructor creating an empty image.
  */
@@ -662,6 +670,9 @@ void Image<PixelT>::convolve_fft_(const Image<PixelT>& kernel)
     const std::size_t complex_size =
         static_cast<std::size_t>(complex_cols) * static_cast<std::size_t>(ph);
 
+    // Nothing below may throw, or the FFTW buffers would leak
+    Image<PixelT> result(this->resolution());
+
     // Allocate FFTW buffers
     float* buf_a = fftwf_alloc_real(real_size);
     float* buf_b = fftwf_alloc_real(real_size);
@@ -669,9 +680,11 @@ void Image<PixelT>::convolve_fft_(const Image<PixelT>& kernel)
     fftwf_complex* freq_b = fftwf_alloc_complex(complex_size);
 
     // Create plans (FFTW_ESTIMATE avoids overwriting input during planning)
+    std::unique_lock<std::mutex> planner_lock(fftw_planner_mutex());
     fftwf_plan fwd_a = fftwf_plan_dft_r2c_2d(ph, pw, buf_a, freq_a, FFTW_ESTIMATE);
     fftwf_plan fwd_b = fftwf_plan_dft_r2c_2d(ph, pw, buf_b, freq_b, FFTW_ESTIMATE);
     fftwf_plan inv = fftwf_plan_dft_c2r_2d(ph, pw, freq_a, buf_a, FFTW_ESTIMATE);
+    planner_lock.unlock();
 
     const float norm = 1.0f / static_cast<float>(pw * ph);
     constexpr std::size_t num_channels = ImagePixelTraits<PixelT>::channels;
@@ -702,8 +715,6 @@ void Image<PixelT>::convolve_fft_(const Image<PixelT>& kernel)
         }
     };
 
-    Image<PixelT> result(this->resolution());
-
     for (std::size_t c = 0; c < num_channels; ++c) {
         // Pack kernel channel into buf_b with wrap-around
         std::memset(buf_b, 0, real_size * sizeof(float));
@@ -746,9 +757,11 @@ void Image<PixelT>::convolve_fft_(const Image<PixelT>& kernel)
     }
 
     // Cleanup
+    planner_lock.lock();
     fftwf_destroy_plan(fwd_a);
     fftwf_destroy_plan(fwd_b);
     fftwf_destroy_plan(inv);
+    planner_lock.unlock();
     fftwf_free(buf_a);
     fftwf_free(buf_b);
     fftwf_free(freq_a);
-- 
2.43.0


From 9cde9be111d117a6934f40bb4f1086bc07e08a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 11/75] fix: a trail deposits power only for the time it is in
 the frame

Each visible interval of a trail was given the power of the whole exposure, so
a source leaving the frame was too bright and one passing twice counted twice.
---
 include/huira_impl/render/renderer.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 14a0df2..4548651 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -820,7 +820,7 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
                 } else {
                     dt = (params[k + 1] - params[k - 1]) / 2.0f;
                 }
-                float weight = dt / (t_end - t_start); // normalize so weights sum to ~1
+                float weight = dt; // fraction of the exposure: a full trail's weights sum to 1
 
                 // Interpolate irradiance at this parameter value:
                 TSpectral irrad = item.interpolate_irradiances(params[k]);
-- 
2.43.0


From 672e5d24e8ddfe8e4b7f623a0819fc1543bb579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 12/75] fix: keep the camera's clipping volume in step with its
 distortion and convention

---
 include/huira/cameras/camera_model.hpp      | 15 +++++++++++++--
 include/huira_impl/cameras/camera_model.ipp |  3 +++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/huira/cameras/camera_model.hpp b/include/huira/cameras/camera_model.hpp
index f4aa44e..99bc447 100644
--- a/include/huira/cameras/camera_model.hpp
+++ b/include/huira/cameras/camera_model.hpp
@@ -62,7 +62,11 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
     void set_opencv_distortion(OpenCVCoefficients coeffs);
     void set_owen_distortion(OwenCoefficients coeffs);
 
-    void delete_distortion() { distortion_ = nullptr; }
+    void delete_distortion()
+    {
+        distortion_ = nullptr;
+        compute_frustum_();
+    }
 
     template <IsSensor<TSpectral> TSensor, typename... Args>
     void set_sensor(Args&&... args);
@@ -152,7 +156,14 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
         return FrameBuffer<TSpectral>(resolution());
     }
 
-    void use_blender_convention(bool value = true) { blender_convention_ = value; }
+    void use_blender_convention(bool value = true)
+    {
+        blender_convention_ = value;
+        if (distortion_) {
+            compute_distortion_field_();
+        }
+        compute_frustum_();
+    }
     bool is_blender_convention() const { return blender_convention_; }
 
   protected:
diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 7be37bc..28d39e1 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -609,6 +609,9 @@ void CameraModel<TSpectral>::compute_intrinsics_()
         fy_ = focal_length_ / sensor_->pixel_pitch().y;
     }
 
+    if (distortion_) {
+        compute_distortion_field_();
+    }
     compute_frustum_();
     compute_pixel_solid_angles_();
 }
-- 
2.43.0


From 72d81fcb34a603a60eda97004fc6c97cae235754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 13/75] fix: deleting works for unnamed nodes and takes
 everything below with it

---
 include/huira_impl/scene/frame_node.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/huira_impl/scene/frame_node.ipp b/include/huira_impl/scene/frame_node.ipp
index f75b271..afdadc4 100644
--- a/include/huira_impl/scene/frame_node.ipp
+++ b/include/huira_impl/scene/frame_node.ipp
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <functional>
 #include <memory>
 #include <string>
 
-- 
2.43.0


From 8162f48813d7c756fe2dd12ce21c6563c50730f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:23 +0000
Subject: [PATCH 14/75] fix: a sphere seen in full phase must not turn into NaN

---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index 01292a0..d12da7c 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include <memory>
 #include <vector>
@@ -137,7 +138,7 @@ void UnresolvedLambertianSphere<TSpectral>::resolve_irradiance(
             TSpectral incident_irradiance =
                 light_->irradiance_at(self_transform.position, light_inst.transforms[0]);
 
-            float phase = std::acos(glm::dot(V, L));
+            float phase = std::acos(std::clamp(glm::dot(V, L), -1.f, 1.f));
             float A = PI<float>() * radius_ * radius_; // Cross-sectional area
             TSpectral reflectedPower =
                 albedo_ * A * incident_irradiance * lambert_phase_function(phase);
-- 
2.43.0


From 419ac7d5526fc640c35fdc8c12f28a911063524c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 15/75] fix: geometries without tangents must not turn bounces
 into NaN, nor NaN read outside an image

---
 include/huira_impl/geometry/ellipsoid.ipp |  3 ++-
 include/huira_impl/images/image.ipp       |  4 ++++
 include/huira_impl/materials/material.ipp | 14 +++++++++++---
 include/huira_impl/scene/scene_view.ipp   | 11 +++++++----
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/huira_impl/geometry/ellipsoid.ipp b/include/huira_impl/geometry/ellipsoid.ipp
index 030b8a0..e3bf293 100644
--- a/include/huira_impl/geometry/ellipsoid.ipp
+++ b/include/huira_impl/geometry/ellipsoid.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include <limits>
 
@@ -159,7 +160,7 @@ void Ellipsoid<TSpectral>::intersect_callback(const RTCIntersectFunctionNArgumen
 
         Vec3<float> P_unit = glm::normalize(O_s + t_u * D_u);
         float u = (std::atan2(P_unit.y, P_unit.x) + PI<float>()) / (2.0f * PI<float>());
-        float v = std::acos(P_unit.z) / PI<float>();
+        float v = std::acos(std::clamp(P_unit.z, -1.0f, 1.0f)) / PI<float>();
 
         RTCHitN_u(hit, args->N, 0) = u;
         RTCHitN_v(hit, args->N, 0) = v;
diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index c30939c..fe15fc1 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -600,6 +600,10 @@ template <IsImagePixel PixelT>
 template <WrapMode W>
 float Image<PixelT>::wrap_coordinate(float coord, float max) const noexcept
 {
+    // There is no pixel to find for NaN or infinity, stay inside the image:
+    if (!std::isfinite(coord)) {
+        return 0.0f;
+    }
     if constexpr (W == WrapMode::Clamp) {
         return std::clamp(coord, 0.0f, max);
     } else if constexpr (W == WrapMode::Repeat) {
diff --git a/include/huira_impl/materials/material.ipp b/include/huira_impl/materials/material.ipp
index cc88999..029cf64 100644
--- a/include/huira_impl/materials/material.ipp
+++ b/include/huira_impl/materials/material.ipp
@@ -54,9 +54,17 @@ MaterialEval<TSpectral> Material<TSpectral>::evaluate(const Interaction<TSpectra
     }
 
     // Keep the original tangent/bitangent, just orthogonalize against new normal
-    shading_isect.tangent = glm::normalize(
-        isect.tangent - glm::dot(isect.tangent, shading_isect.normal_s) * shading_isect.normal_s);
-    shading_isect.bitangent = glm::cross(shading_isect.normal_s, shading_isect.tangent);
+    Vec3<float> tangent =
+        isect.tangent - glm::dot(isect.tangent, shading_isect.normal_s) * shading_isect.normal_s;
+    float tangent_length = glm::length(tangent);
+    if (tangent_length > 1e-6f) {
+        shading_isect.tangent = tangent / tangent_length;
+        shading_isect.bitangent = glm::cross(shading_isect.normal_s, shading_isect.tangent);
+    } else {
+        // No tangent to keep, any frame around the normal will do
+        build_default_tangent_frame(
+            shading_isect.normal_s, shading_isect.tangent, shading_isect.bitangent);
+    }
 
     MaterialEval<TSpectral> result{};
     result.params = params;
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index ca3126a..385cc0e 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -331,10 +331,13 @@ Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& r
         isect.normal_s = -isect.normal_s;
     }
 
-    isect.tangent = glm::normalize(xf.apply_to_direction(isect.tangent));
-    isect.bitangent = glm::normalize(xf.apply_to_direction(isect.bitangent));
-    if (glm::dot(glm::cross(isect.tangent, isect.bitangent), isect.normal_s) < 0.0f) {
-        isect.bitangent = -isect.bitangent;
+    // A geometry without tangents leaves them zero (see Material::evaluate):
+    if (isect.tangent != Vec3<float>{0.0f}) {
+        isect.tangent = glm::normalize(xf.apply_to_direction(isect.tangent));
+        isect.bitangent = glm::normalize(xf.apply_to_direction(isect.bitangent));
+        if (glm::dot(glm::cross(isect.tangent, isect.bitangent), isect.normal_s) < 0.0f) {
+            isect.bitangent = -isect.bitangent;
+        }
     }
 
     return isect;
-- 
2.43.0


From 245f0ff86099d8df2a65d954ec325015a1027ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 16/75] fix: shade a hit where the moving surface is at the
 time of its ray

Hits were resolved where the instance is when the shutter opens. A ray
going on from there met the same surface over and over: shadow rays
through a moving transmissive surface never ended. Transforms between
two samples also lost their rotation and scale.
---
 include/huira/scene/scene_view.hpp      |  7 +++-
 include/huira_impl/render/renderer.ipp  | 34 +----------------
 include/huira_impl/scene/scene_view.ipp | 51 ++++++++++++++++++++++---
 3 files changed, 53 insertions(+), 39 deletions(-)

diff --git a/include/huira/scene/scene_view.hpp b/include/huira/scene/scene_view.hpp
index 3cbd429..e84da50 100644
--- a/include/huira/scene/scene_view.hpp
+++ b/include/huira/scene/scene_view.hpp
@@ -53,13 +53,16 @@ class SceneView {
                                                    float time = 0.5f) const;
 
     [[nodiscard]] Interaction<TSpectral> resolve_hit(const Ray<TSpectral>& ray,
-                                                     const HitRecord& hit) const;
+                                                     const HitRecord& hit,
+                                                     float time = 0.5f) const;
 
     [[nodiscard]] std::vector<HitRecord> intersect(const std::vector<Ray<TSpectral>>& rays,
                                                    float time = 0.5f) const;
 
     [[nodiscard]] std::vector<Interaction<TSpectral>>
-    resolve_hits(const std::vector<Ray<TSpectral>>& rays, const std::vector<HitRecord>& hits) const;
+    resolve_hits(const std::vector<Ray<TSpectral>>& rays,
+                 const std::vector<HitRecord>& hits,
+                 float time = 0.5f) const;
 
     Interval get_exposure_interval() const { return exposure_interval_; }
     units::Second duration() const { return exposure_interval_.duration(); }
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 4548651..0c9c35a 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -71,37 +71,6 @@ inline float power_heuristic(float f_pdf, float g_pdf)
     return f2 / (f2 + g2);
 }
 
-inline Transform<float> interpolate_transform(const std::vector<Transform<float>>& transforms,
-                                              float t)
-{
-    if (transforms.empty()) {
-        return Transform<float>{};
-    }
-    if (transforms.size() == 1) {
-        return transforms[0];
-    }
-
-    float scaled_t = t * static_cast<float>(transforms.size() - 1);
-    std::size_t idx = static_cast<std::size_t>(std::floor(scaled_t));
-    idx = std::min(idx, transforms.size() - 2);
-    float frac = scaled_t - static_cast<float>(idx);
-
-    Transform<float> result;
-    // Linearly interpolate position
-    result.position =
-        transforms[idx].position * (1.0f - frac) + transforms[idx + 1].position * frac;
-
-    // Slerp rotation (assuming you are using glm::quat for rotations)
-    auto quat = transforms[idx].rotation.local_to_parent_quaternion();
-    auto next_quat = transforms[idx + 1].rotation.local_to_parent_quaternion();
-    result.rotation.from_local_to_parent(glm::slerp(quat, next_quat, frac));
-
-    // Scale interpolation
-    // result.scale = transforms[idx].scale * (1.0f - frac) + transforms[idx + 1].scale * frac;
-
-    return result;
-}
-
 /**
  * @brief Path trace a scene view into a frame buffer.
  *
@@ -343,7 +312,8 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                     }
 
                                     // Resolve full shading data:
-                                    Interaction<TSpectral> isect = scene_view.resolve_hit(ray, hit);
+                                    Interaction<TSpectral> isect =
+                                        scene_view.resolve_hit(ray, hit, time);
 
                                     // Look up mesh material:
                                     const auto& batch = scene_view.primitives_[mapping.batch_index];
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 385cc0e..93885c9 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -1,3 +1,6 @@
+#include <algorithm>
+#include <cmath>
+#include <cstddef>
 #include <limits>
 #include <memory>
 #include <mutex>
@@ -13,6 +16,37 @@
 #include "huira/scene/scene.hpp"
 
 namespace huira {
+inline Transform<float> interpolate_transform(const std::vector<Transform<float>>& transforms,
+                                              float t)
+{
+    if (transforms.empty()) {
+        return Transform<float>{};
+    }
+    if (transforms.size() == 1) {
+        return transforms[0];
+    }
+
+    float scaled_t = t * static_cast<float>(transforms.size() - 1);
+    std::size_t idx = static_cast<std::size_t>(std::floor(scaled_t));
+    idx = std::min(idx, transforms.size() - 2);
+    float frac = scaled_t - static_cast<float>(idx);
+
+    Transform<float> result;
+    // Linearly interpolate position
+    result.position =
+        transforms[idx].position * (1.0f - frac) + transforms[idx + 1].position * frac;
+
+    // Slerp rotation (assuming you are using glm::quat for rotations)
+    auto quat = transforms[idx].rotation.local_to_parent_quaternion();
+    auto next_quat = transforms[idx + 1].rotation.local_to_parent_quaternion();
+    result.rotation = Rotation<float>::from_local_to_parent(glm::slerp(quat, next_quat, frac));
+
+    // Scale interpolation
+    result.scale = transforms[idx].scale * (1.0f - frac) + transforms[idx + 1].scale * frac;
+
+    return result;
+}
+
 /**
  * @brief Construct a SceneView for a given scene, time, camera, and observation mode.
  *
@@ -256,7 +290,7 @@ TSpectral SceneView<TSpectral>::evaluate_transmittance(const Ray<TSpectral>& ray
             break;
         }
 
-        Interaction<TSpectral> isect = this->resolve_hit(current_ray, hit);
+        Interaction<TSpectral> isect = this->resolve_hit(current_ray, hit, time);
         const auto& mapping = instance_mappings_[hit.inst_id];
         const auto& batch = primitives_[mapping.batch_index];
         const auto* material = batch.primitive->material.get();
@@ -284,6 +318,9 @@ TSpectral SceneView<TSpectral>::evaluate_transmittance(const Ray<TSpectral>& ray
         }
 
         transmittance *= surface_transmission;
+        if (transmittance.max() <= 0.0f) {
+            return TSpectral{0.0f};
+        }
 
         Vec3<float> bounce_normal = (glm::dot(current_ray.direction(), isect.normal_g) < 0.0f)
                                         ? -isect.normal_g
@@ -303,11 +340,13 @@ TSpectral SceneView<TSpectral>::evaluate_transmittance(const Ray<TSpectral>& ray
  * @brief Resolve a hit record into a full interaction, including position, normals, UVs, etc.
  * @param ray The ray that caused the hit.
  * @param hit The hit record to resolve.
+ * @param time The time the ray was intersected at.
  * @return The resolved interaction.
  */
 template <IsSpectral TSpectral>
 Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& ray,
-                                                         const HitRecord& hit) const
+                                                         const HitRecord& hit,
+                                                         float time) const
 {
     Interaction<TSpectral> isect{};
 
@@ -319,7 +358,7 @@ Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& r
     batch.primitive->geometry->compute_surface_interaction(hit, isect);
     isect.wo = -ray.direction();
     const auto& instance_transforms = batch.instances[mapping.instance_index];
-    const Transform<float>& xf = instance_transforms[0];
+    const Transform<float> xf = interpolate_transform(instance_transforms, time);
 
     isect.position = xf.apply_to_point(isect.position);
     isect.normal_g = glm::normalize(xf.apply_to_direction(hit.Ng));
@@ -367,19 +406,21 @@ std::vector<HitRecord> SceneView<TSpectral>::intersect(const std::vector<Ray<TSp
  * @brief Resolve a batch of hit records into full interactions.
  * @param rays The rays that caused the hits.
  * @param hits The hit records to resolve.
+ * @param time The time the rays were intersected at.
  * @return A vector of resolved interactions.
  */
 template <IsSpectral TSpectral>
 std::vector<Interaction<TSpectral>>
 SceneView<TSpectral>::resolve_hits(const std::vector<Ray<TSpectral>>& rays,
-                                   const std::vector<HitRecord>& hits) const
+                                   const std::vector<HitRecord>& hits,
+                                   float time) const
 {
     std::vector<Interaction<TSpectral>> interactions(hits.size());
     tbb::parallel_for(tbb::blocked_range<size_t>(0, hits.size()),
                       [&](const tbb::blocked_range<size_t>& range) {
                           for (size_t i = range.begin(); i < range.end(); ++i) {
                               if (hits[i].hit()) {
-                                  interactions[i] = resolve_hit(rays[i], hits[i]);
+                                  interactions[i] = resolve_hit(rays[i], hits[i], time);
                               }
                           }
                       });
-- 
2.43.0


From 0dc7a55d64f7c32d857a809d396417a613ccb364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 17/75] fix: weigh a light found after scattering in a medium
 from the scattering point

---
 include/huira_impl/render/renderer.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 0c9c35a..a79e1b0 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -160,7 +160,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                             float prev_roughness = 0.0f;
 
                             float prev_bsdf_pdf = 1.0f;
-                            Interaction<TSpectral> prev_isect;
+                            Interaction<TSpectral> prev_isect{};
 
                             MediumStack<TSpectral> medium_stack;
 
@@ -189,7 +189,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                         throughput =
                                             throughput * props.scattering * Tr * (1.0f / pdf);
 
-                                        Interaction<TSpectral> vol_isect;
+                                        Interaction<TSpectral> vol_isect{};
                                         vol_isect.position = opt_mi->p;
                                         vol_isect.wo = opt_mi->wo;
                                         vol_isect.normal_g = Vec3<float>{0.f};
@@ -242,6 +242,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                         ray = Ray<TSpectral>(opt_mi->p, ps.wi);
                                         prev_bsdf_pdf = ps.p;
+                                        prev_isect = vol_isect;
                                         continue;
 
                                     } else {
-- 
2.43.0


From 79aa898ccddf812d4242d1fa5b6743facea18caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 18/75] fix: deleting nodes that have no name must not throw

---
 include/huira_impl/scene/frame_node.ipp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/scene/frame_node.ipp b/include/huira_impl/scene/frame_node.ipp
index afdadc4..f794a1d 100644
--- a/include/huira_impl/scene/frame_node.ipp
+++ b/include/huira_impl/scene/frame_node.ipp
@@ -56,7 +56,17 @@ void FrameNode<TSpectral>::delete_child(std::weak_ptr<Node<TSpectral>> child_wea
     auto it = std::find(children_.begin(), children_.end(), child);
     if (it != children_.end()) {
         HUIRA_LOG_INFO(this->get_info() + " - Deleting " + child->get_info());
-        this->scene_->node_registry_.remove(child);
+        // Only named nodes are registered, and whatever hangs below the child goes with it:
+        std::function<void(const std::shared_ptr<Node<TSpectral>>&)> unregister =
+            [&](const std::shared_ptr<Node<TSpectral>>& node) {
+                if (!node->name().empty()) {
+                    this->scene_->node_registry_.remove(node);
+                }
+                for (const auto& grandchild : node->get_children()) {
+                    unregister(grandchild);
+                }
+            };
+        unregister(child);
         children_.erase(it);
     }
 }
-- 
2.43.0


From 0e676f76acff93e21c258cf6d2bdf7ecd3b89a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 19/75] fix: the view frustum must hold all of the image, also
 with distortion

---
 include/huira_impl/cameras/camera_model.ipp | 54 +++++++++++++--------
 include/huira_impl/render/renderer.ipp      |  4 +-
 2 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 28d39e1..f05afbf 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -730,37 +730,51 @@ void CameraModel<TSpectral>::compute_frustum_()
         ydir = Vec3<float>{0, -1, 0};
     }
 
-    // Initialize the frustum side planes:
+    // Find the directions which reach farthest to each side. With distortion these need not be the
+    // corners, so that all of the border counts:
     Vec3<float> left_extrema{0, 0, 0};
-    float left_min_dot = 100.f;
+    float left_min = std::numeric_limits<float>::infinity();
 
     Vec3<float> right_extrema{0, 0, 0};
-    float right_min_dot = 100.f;
+    float right_max = -std::numeric_limits<float>::infinity();
 
     Vec3<float> top_extrema{0, 0, 0};
-    float top_min_dot = 100.f;
+    float top_min = std::numeric_limits<float>::infinity();
 
     Vec3<float> bottom_extrema{0, 0, 0};
-    float bottom_min_dot = 100.f;
-
-    auto update = [&](int i, int j, Vec3<float>& extrema, float& min_dot) {
-        Ray<TSpectral> ray = cast_ray(i, j);
-        Vec3<float> direction = ray.direction();
-        float d = glm::dot(direction, zdir);
-        if (d < min_dot) {
-            extrema = direction;
-            min_dot = d;
+    float bottom_max = -std::numeric_limits<float>::infinity();
+
+    auto update = [&](int i, int j) {
+        Vec3<float> direction = pixel_to_direction_<float>(
+            Pixel{static_cast<float>(i), static_cast<float>(j)});
+        float x = glm::dot(direction, xdir);
+        float y = glm::dot(direction, ydir);
+        if (x < left_min) {
+            left_extrema = direction;
+            left_min = x;
+        }
+        if (x > right_max) {
+            right_extrema = direction;
+            right_max = x;
+        }
+        if (y < top_min) {
+            top_extrema = direction;
+            top_min = y;
+        }
+        if (y > bottom_max) {
+            bottom_extrema = direction;
+            bottom_max = y;
         }
     };
 
-    // Loop over all edge-pixels
-    for (int i = 0; i < res.x; ++i) {
-        update(i, 0, top_extrema, top_min_dot);
-        update(i, res.y - 1, bottom_extrema, bottom_min_dot);
+    // Loop over the border of the image, up to the far side of its last pixels:
+    for (int i = 0; i <= res.x; ++i) {
+        update(i, 0);
+        update(i, res.y);
     }
-    for (int j = 1; j < res.y - 1; ++j) {
-        update(0, j, left_extrema, left_min_dot);
-        update(res.x - 1, j, right_extrema, right_min_dot);
+    for (int j = 0; j <= res.y; ++j) {
+        update(0, j);
+        update(res.x, j);
     }
 
     // Form the frustum planes:
diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index a79e1b0..70bc57d 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -857,7 +857,9 @@ Image<TSpectral> Renderer<TSpectral>::render_unresolved_(SceneView<TSpectral>& s
 
                     bool unobstructed = true;
                     if (has_depth) {
-                        if (!std::isinf(depth_buffer(star_p))) {
+                        int depth_x = std::min(static_cast<int>(star_p.x), fb_width - 1);
+                        int depth_y = std::min(static_cast<int>(star_p.y), fb_height - 1);
+                        if (!std::isinf(depth_buffer(depth_x, depth_y))) {
                             unobstructed = false;
                         }
                     }
-- 
2.43.0


From ffd22ac500d1943d234c6ca3d8bf9a43edc98afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 20/75] fix: OpenCV distortion coefficients of zero must not
 distort

---
 include/huira_impl/cameras/distortion/opencv_distortion.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/distortion/opencv_distortion.ipp b/include/huira_impl/cameras/distortion/opencv_distortion.ipp
index 6040246..23b58ff 100644
--- a/include/huira_impl/cameras/distortion/opencv_distortion.ipp
+++ b/include/huira_impl/cameras/distortion/opencv_distortion.ipp
@@ -71,7 +71,7 @@ OpenCVDistortion<TSpectral>::compute_delta_(BasePixel<TFloat> homogeneous_coords
             static_cast<TFloat>(coefficients_.s3) * r2 +
             static_cast<TFloat>(coefficients_.s4) * r4};
 
-    return radial_factor * homogeneous_coords_tf + tangential_and_prism;
+    return (radial_factor - TFloat{1}) * homogeneous_coords_tf + tangential_and_prism;
 }
 
 /**
-- 
2.43.0


From fd4d7738c24194c698c9d7b73831886a875ba741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 21/75] fix: a sample of a pixel must not round out of the
 image

---
 include/huira_impl/render/renderer.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 70bc57d..7d0fcfe 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -144,6 +144,10 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                             float sx = static_cast<float>(x) + sampler.get_1d();
                             float sy = static_cast<float>(y) + sampler.get_1d();
 
+                            // The sums may round up to the next pixel:
+                            sx = std::min(sx, std::nextafter(static_cast<float>(x + 1), 0.0f));
+                            sy = std::min(sy, std::nextafter(static_cast<float>(y + 1), 0.0f));
+
                             // Generate camera ray from pixel coordinates:
                             Ray<TSpectral> ray = camera->cast_ray(Pixel{sx, sy}, sampler);
 
-- 
2.43.0


From ffbf707784016c5857ff6df623171e55aeeb6e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 22/75] fix: the Tycho-2 readers keep records apart and report
 read errors

A record that is skipped half-way left its fields in the slot of the next one, a file without a final
newline wrote past the end of the vector, and a failing read looked like the end of the file.
---
 include/huira_impl/stars/io/load_tycho2.ipp | 96 +++++++++++----------
 1 file changed, 49 insertions(+), 47 deletions(-)

diff --git a/include/huira_impl/stars/io/load_tycho2.ipp b/include/huira_impl/stars/io/load_tycho2.ipp
index 81c3769..d391b76 100644
--- a/include/huira_impl/stars/io/load_tycho2.ipp
+++ b/include/huira_impl/stars/io/load_tycho2.ipp
@@ -1,5 +1,6 @@
 #include <algorithm>
 #include <cstddef>
+#include <cstdint>
 #include <filesystem>
 #include <fstream>
 #include <limits>
@@ -12,17 +13,6 @@
 namespace fs = std::filesystem;
 
 namespace huira {
-static std::size_t count_lines_(const fs::path& filepath)
-{
-    std::ifstream file(filepath, std::ios::binary);
-
-    // Count new-lines:
-    auto count =
-        std::count(std::istreambuf_iterator<char>(file), std::istreambuf_iterator<char>(), '\n');
-
-    return static_cast<std::size_t>(count);
-}
-
 static bool has_mean_position_(const std::string& line)
 {
     if (line.size() < 14) {
@@ -57,25 +47,37 @@ static bool is_valid_line_(const std::string& line)
     return !line.empty() && std::isdigit(static_cast<unsigned char>(line[0]));
 }
 
+static bool read_identifier_(const std::string& line, std::uint64_t& id)
+{
+    double tyc1 = read_entry_(line, 0, 4);
+    double tyc2 = read_entry_(line, 5, 10);
+    double tyc3 = read_entry_(line, 11, 12);
+    // Written so that NaN is out of range, too
+    if (!(tyc1 >= 0. && tyc1 <= 16383.) || !(tyc2 >= 0. && tyc2 <= 65535.) ||
+        !(tyc3 >= 0. && tyc3 <= 15.)) {
+        return false;
+    }
+    id = pack_tycho2_id(static_cast<std::uint16_t>(tyc1),
+                        static_cast<std::uint16_t>(tyc2),
+                        static_cast<std::uint8_t>(tyc3));
+    return true;
+}
+
 std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
 {
-    std::vector<StarData> star_data(count_lines_(filepath));
+    std::vector<StarData> star_data;
     std::ifstream file(filepath);
     if (!file.is_open()) {
         HUIRA_THROW_ERROR("read_tycho2_dat - Failed to open file: " + filepath.string());
     }
 
     std::string line;
-    std::size_t i = 0;
     while (std::getline(file, line)) {
         if (is_valid_line_(line)) {
-            // Read identifer:
-            int tyc1 = static_cast<int>(read_entry_(line, 0, 4));
-            int tyc2 = static_cast<int>(read_entry_(line, 5, 10));
-            int tyc3 = static_cast<int>(read_entry_(line, 11, 12));
-            star_data[i].id = pack_tycho2_id(static_cast<uint16_t>(tyc1),
-                                             static_cast<uint16_t>(tyc2),
-                                             static_cast<uint8_t>(tyc3));
+            StarData star{};
+            if (!read_identifier_(line, star.id)) {
+                continue;
+            }
 
             float epochRA = 2000.0;
             float epochDEC = 2000.0;
@@ -86,8 +88,8 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
                 if (std::isnan(RA) || std::isnan(DEC)) {
                     continue;
                 }
-                star_data[i].RA = RA * PI<double>() / 180.;
-                star_data[i].DEC = DEC * PI<double>() / 180.;
+                star.RA = RA * PI<double>() / 180.;
+                star.DEC = DEC * PI<double>() / 180.;
             } else {
                 // Observed position at bytes 153-165 and 166-178
                 double RA = read_entry_(line, 153, 165);
@@ -95,8 +97,8 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
                 if (std::isnan(RA) || std::isnan(DEC)) {
                     continue;
                 }
-                star_data[i].RA = RA * PI<double>() / 180.;
-                star_data[i].DEC = DEC * PI<double>() / 180.;
+                star.RA = RA * PI<double>() / 180.;
+                star.DEC = DEC * PI<double>() / 180.;
 
                 // Epoch of observed position: epRA at bytes 179-183, epDE at 184-188
                 // These are "epoch - 1990", so add 1990 to get Julian year
@@ -114,14 +116,14 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
             double pmRA = read_entry_(line, 41, 48);
             double pmDEC = read_entry_(line, 49, 56);
             if (!std::isnan(pmRA)) {
-                star_data[i].pmRA = static_cast<float>(pmRA);
+                star.pmRA = static_cast<float>(pmRA);
             }
             if (!std::isnan(pmDEC)) {
-                star_data[i].pmDEC = static_cast<float>(pmDEC);
+                star.pmDEC = static_cast<float>(pmDEC);
             }
 
             // Normalize to epoch J2000.0
-            star_data[i].normalize_epoch(epochRA, epochDEC);
+            star.normalize_epoch(epochRA, epochDEC);
 
             // BT magnitude at bytes 110-116, VT at 123-129
             double BTmag = read_entry_(line, 110, 116);
@@ -129,34 +131,32 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
             if (std::isnan(BTmag) && std::isnan(VTmag)) {
                 continue;
             }
-            star_data[i].process_magnitude(BTmag, VTmag);
-            i++;
+            star.process_magnitude(BTmag, VTmag);
+            star_data.push_back(star);
         }
     }
 
-    star_data.resize(i);
+    if (file.bad()) {
+        HUIRA_THROW_ERROR("read_tycho2_dat - Failed to read file: " + filepath.string());
+    }
     return star_data;
 }
 
 std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
 {
-    std::vector<StarData> star_data(count_lines_(filepath));
+    std::vector<StarData> star_data;
     std::ifstream file(filepath);
     if (!file.is_open()) {
         HUIRA_THROW_ERROR("read_tycho2_suppl - Failed to open file: " + filepath.string());
     }
 
     std::string line;
-    std::size_t i = 0;
     while (std::getline(file, line)) {
         if (is_valid_line_(line)) {
-            // Read identifer:
-            int tyc1 = static_cast<int>(read_entry_(line, 0, 4));
-            int tyc2 = static_cast<int>(read_entry_(line, 5, 10));
-            int tyc3 = static_cast<int>(read_entry_(line, 11, 12));
-            star_data[i].id = pack_tycho2_id(static_cast<uint16_t>(tyc1),
-                                             static_cast<uint16_t>(tyc2),
-                                             static_cast<uint8_t>(tyc3));
+            StarData star{};
+            if (!read_identifier_(line, star.id)) {
+                continue;
+            }
 
             // Supplement position at bytes 15-27 and 28-40
             double RA = read_entry_(line, 15, 27);
@@ -164,21 +164,21 @@ std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
             if (std::isnan(RA) || std::isnan(DEC)) {
                 continue;
             }
-            star_data[i].RA = RA * PI<double>() / 180.;
-            star_data[i].DEC = DEC * PI<double>() / 180.;
+            star.RA = RA * PI<double>() / 180.;
+            star.DEC = DEC * PI<double>() / 180.;
 
             // Proper motion at bytes 42-49 and 50-57
             double pmRA = read_entry_(line, 41, 48);
             double pmDEC = read_entry_(line, 49, 56);
             if (!std::isnan(pmRA)) {
-                star_data[i].pmRA = static_cast<float>(pmRA);
+                star.pmRA = static_cast<float>(pmRA);
             }
             if (!std::isnan(pmDEC)) {
-                star_data[i].pmDEC = static_cast<float>(pmDEC);
+                star.pmDEC = static_cast<float>(pmDEC);
             }
 
             // Normalize to epoch J2000.0
-            star_data[i].normalize_epoch(1991.25f, 1991.25f);
+            star.normalize_epoch(1991.25f, 1991.25f);
 
             // BT magnitude at bytes 83-89, VT at 96-102
             double BTmag = read_entry_(line, 83, 89);
@@ -186,12 +186,14 @@ std::vector<StarData> read_tycho2_suppl(const fs::path& filepath)
             if (std::isnan(BTmag) && std::isnan(VTmag)) {
                 continue;
             }
-            star_data[i].process_magnitude(BTmag, VTmag);
-            i++;
+            star.process_magnitude(BTmag, VTmag);
+            star_data.push_back(star);
         }
     }
 
-    star_data.resize(i);
+    if (file.bad()) {
+        HUIRA_THROW_ERROR("read_tycho2_suppl - Failed to read file: " + filepath.string());
+    }
     return star_data;
 }
 } // namespace huira
-- 
2.43.0


From e5dde381b2d8b6ca1a2b7f077ce6b71c70139792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 23/75] fix: read the observed positions of Tycho-2 stars from
 their columns

They were taken one column late: the hundreds of the right ascension, the sign of the declination
and the integer digit of the epochs were cut off.
---
 include/huira_impl/stars/io/load_tycho2.ipp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/huira_impl/stars/io/load_tycho2.ipp b/include/huira_impl/stars/io/load_tycho2.ipp
index d391b76..1379efc 100644
--- a/include/huira_impl/stars/io/load_tycho2.ipp
+++ b/include/huira_impl/stars/io/load_tycho2.ipp
@@ -91,19 +91,19 @@ std::vector<StarData> read_tycho2_dat(const fs::path& filepath)
                 star.RA = RA * PI<double>() / 180.;
                 star.DEC = DEC * PI<double>() / 180.;
             } else {
-                // Observed position at bytes 153-165 and 166-178
-                double RA = read_entry_(line, 153, 165);
-                double DEC = read_entry_(line, 166, 178);
+                // Observed position at bytes 152-164 and 165-177
+                double RA = read_entry_(line, 152, 164);
+                double DEC = read_entry_(line, 165, 177);
                 if (std::isnan(RA) || std::isnan(DEC)) {
                     continue;
                 }
                 star.RA = RA * PI<double>() / 180.;
                 star.DEC = DEC * PI<double>() / 180.;
 
-                // Epoch of observed position: epRA at bytes 179-183, epDE at 184-188
+                // Epoch of observed position: epRA at bytes 178-182, epDE at 183-187
                 // These are "epoch - 1990", so add 1990 to get Julian year
-                double epRA = read_entry_(line, 179, 183);
-                double epDE = read_entry_(line, 184, 188);
+                double epRA = read_entry_(line, 178, 182);
+                double epDE = read_entry_(line, 183, 187);
                 if (std::isnan(epRA) || std::isnan(epDE)) {
                     continue;
                 }
-- 
2.43.0


From e411935af3005ecb31f87cd4738db394159c2595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 24/75] fix: a star catalogue is written and read completely,
 or throws

Writing ignored failures of the device; reading trusted the star count of the header, and a truncated
file or a failed read gave zeroed stars.
---
 include/huira_impl/stars/io/star_catalog.ipp | 26 ++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/huira_impl/stars/io/star_catalog.ipp b/include/huira_impl/stars/io/star_catalog.ipp
index 30d9dac..90fdeba 100644
--- a/include/huira_impl/stars/io/star_catalog.ipp
+++ b/include/huira_impl/stars/io/star_catalog.ipp
@@ -54,6 +54,12 @@ inline void StarCatalog::write_star_data(const fs::path& filepath)
     out.write(reinterpret_cast<const char*>(valid_stars.data()),
               static_cast<std::streamsize>(valid_stars.size() * sizeof(StarData)));
 
+    // The data may only fail to arrive when the stream is flushed or closed
+    out.close();
+    if (!out) {
+        HUIRA_THROW_ERROR("StarCatalog - Failed to write file: " + filepath.string());
+    }
+
     HUIRA_LOG_INFO("StarCatalog - " + std::to_string(valid_stars.size()) +
                    " stars written to: " + filepath.string());
 }
@@ -68,6 +74,9 @@ StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_
     // Read and validate header
     HrscHeader header{};
     in.read(reinterpret_cast<char*>(&header), sizeof(header));
+    if (!in) {
+        HUIRA_THROW_ERROR("StarCatalog - Failed to read header: " + filepath.string());
+    }
     if (header.magic[0] != 'H' || header.magic[1] != 'R' || header.magic[2] != 'S' ||
         header.magic[3] != 'C') {
         HUIRA_THROW_ERROR("StarData - Invalid file format: " + filepath.string());
@@ -80,6 +89,17 @@ StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_
                           ").  Please re-generate.");
     }
 
+    // The file must hold exactly the stars its header announces
+    in.seekg(0, std::ios::end);
+    const std::streamoff file_size = in.tellg();
+    if (!in || file_size < static_cast<std::streamoff>(sizeof(HrscHeader))) {
+        HUIRA_THROW_ERROR("StarCatalog - Failed to read file: " + filepath.string());
+    }
+    const std::uint64_t data_size = static_cast<std::uint64_t>(file_size) - sizeof(HrscHeader);
+    if (data_size % sizeof(StarData) != 0 || data_size / sizeof(StarData) != header.star_count) {
+        HUIRA_THROW_ERROR("StarCatalog - File is truncated or corrupt: " + filepath.string());
+    }
+
     // Binary search on file to find cutoff index
     std::uint64_t low = 0, high = header.star_count;
     StarData temp;
@@ -88,6 +108,9 @@ StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_
         std::uint64_t mid = low + (high - low) / 2;
         in.seekg(static_cast<std::streamoff>(sizeof(HrscHeader) + mid * sizeof(StarData)));
         in.read(reinterpret_cast<char*>(&temp), sizeof(StarData));
+        if (!in) {
+            HUIRA_THROW_ERROR("StarCatalog - Failed to read file: " + filepath.string());
+        }
 
         if (temp.visual_magnitude <= maximum_magnitude) {
             low = mid + 1;
@@ -101,6 +124,9 @@ StarCatalog StarCatalog::read_star_data(const fs::path& filepath, float maximum_
     in.seekg(static_cast<std::streamoff>(sizeof(HrscHeader)));
     in.read(reinterpret_cast<char*>(stars.data()),
             static_cast<std::streamsize>(low * sizeof(StarData)));
+    if (!in) {
+        HUIRA_THROW_ERROR("StarCatalog - Failed to read file: " + filepath.string());
+    }
 
     StarCatalog star_catalog(stars);
     star_catalog.set_catalog_type(header.catalog_type);
-- 
2.43.0


From 71620793047eb9783e120fe1dc622a48d2a07339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 25/75] fix: close an image file also if its buffer cannot be
 allocated

---
 include/huira/images/io/io_util.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/huira/images/io/io_util.hpp b/include/huira/images/io/io_util.hpp
index 3782319..bb58269 100644
--- a/include/huira/images/io/io_util.hpp
+++ b/include/huira/images/io/io_util.hpp
@@ -3,6 +3,7 @@
 #include <cstddef>
 #include <cstdio>
 #include <filesystem>
+#include <memory>
 #include <vector>
 
 #include "huira/util/logger.hpp"
@@ -36,10 +37,12 @@ inline std::vector<unsigned char> read_file_to_buffer(const fs::path& filepath)
     }
 #endif
 
+    // Closes the file also if anything below throws
+    std::unique_ptr<FILE, int (*)(FILE*)> closer(fp, &std::fclose);
+
     fseek(fp, 0, SEEK_END);
     long file_size = ftell(fp);
     if (file_size <= 0) {
-        fclose(fp);
         HUIRA_THROW_ERROR("read_file_to_buffer - Failed to determine file size or file is empty: " +
                           filepath.string());
     }
@@ -47,11 +50,9 @@ inline std::vector<unsigned char> read_file_to_buffer(const fs::path& filepath)
 
     std::vector<unsigned char> buffer(static_cast<std::size_t>(file_size));
     if (fread(buffer.data(), 1, buffer.size(), fp) != buffer.size()) {
-        fclose(fp);
         HUIRA_THROW_ERROR("read_file_to_buffer - Failed to read file: " + filepath.string());
     }
 
-    fclose(fp);
     return buffer;
 }
 
-- 
2.43.0


From d4500fe9b53deace25557a4239708021b970a381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 26/75] fix: a BMP header with impossible sizes is refused, not
 followed out of bounds

---
 include/huira_impl/images/io/bmp_io.ipp | 30 +++++++++++++++++--------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/huira_impl/images/io/bmp_io.ipp b/include/huira_impl/images/io/bmp_io.ipp
index 3d68983..bf5e5ed 100644
--- a/include/huira_impl/images/io/bmp_io.ipp
+++ b/include/huira_impl/images/io/bmp_io.ipp
@@ -3,6 +3,7 @@
 #include <cstdio>
 #include <cstring>
 #include <filesystem>
+#include <limits>
 #include <utility>
 #include <vector>
 
@@ -65,7 +66,7 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                           std::to_string(dib_size) + ")");
     }
 
-    if (size < 14 + dib_size) {
+    if (size - 14 < dib_size) {
         HUIRA_THROW_ERROR("read_bmp_raw_ - Data truncated in DIB header");
     }
 
@@ -92,6 +93,12 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                           "), only 24 and 32 supported");
     }
 
+    // (the smallest 32-bit number has no positive counterpart)
+    if (raw_width <= 0 || raw_height == 0 || raw_height == std::numeric_limits<int32_t>::min()) {
+        HUIRA_THROW_ERROR("read_bmp_raw_ - Invalid BMP dimensions (" + std::to_string(raw_width) +
+                          " x " + std::to_string(raw_height) + ")");
+    }
+
     int width = static_cast<int>(raw_width);
     bool flip_vertical = (raw_height > 0);
     int height = (raw_height > 0) ? static_cast<int>(raw_height) : static_cast<int>(-raw_height);
@@ -102,29 +109,34 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
 
     // BMP rows are padded to 4-byte boundaries
     std::size_t row_stride =
-        (static_cast<std::size_t>(width * file_channels) + 3) & ~static_cast<std::size_t>(3);
+        (static_cast<std::size_t>(width) * static_cast<std::size_t>(file_channels) + 3) &
+        ~static_cast<std::size_t>(3);
 
-    std::size_t required_size =
-        static_cast<std::size_t>(pixel_offset) + row_stride * static_cast<std::size_t>(height);
-    if (size < required_size) {
+    if (size < pixel_offset || (size - pixel_offset) / row_stride <
+                                   static_cast<std::size_t>(height)) {
         HUIRA_THROW_ERROR("read_bmp_raw_ - Data truncated in pixel data (need " +
-                          std::to_string(required_size) + ", have " + std::to_string(size) + ")");
+                          std::to_string(height) + " rows of " + std::to_string(row_stride) +
+                          " bytes from byte " + std::to_string(pixel_offset) + ", have " +
+                          std::to_string(size) + " bytes)");
     }
 
     const unsigned char* pixel_data = data + pixel_offset;
 
     // Convert from BGR(A) bottom-up to RGB(A) top-down
     std::vector<unsigned char> raw_data(static_cast<std::size_t>(width) *
-                                        static_cast<std::size_t>(height * out_channels));
+                                        static_cast<std::size_t>(height) *
+                                        static_cast<std::size_t>(out_channels));
 
     for (int y = 0; y < height; ++y) {
         int src_y = flip_vertical ? (height - 1 - y) : y;
         const unsigned char* src_row = pixel_data + static_cast<std::size_t>(src_y) * row_stride;
 
         for (int x = 0; x < width; ++x) {
-            std::size_t src_idx = static_cast<std::size_t>(x * file_channels);
+            std::size_t src_idx =
+                static_cast<std::size_t>(x) * static_cast<std::size_t>(file_channels);
             std::size_t dst_idx =
-                (static_cast<std::size_t>(y * width) + static_cast<std::size_t>(x)) *
+                (static_cast<std::size_t>(y) * static_cast<std::size_t>(width) +
+                 static_cast<std::size_t>(x)) *
                 static_cast<std::size_t>(out_channels);
 
             // BMP stores BGR(A), convert to RGB(A)
-- 
2.43.0


From 4b94eb7747bc80e8b4771ab7658a79b3cc995a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 27/75] fix: TGA data that does not fit its header is refused,
 not followed out of bounds

---
 include/huira_impl/images/io/tga_io.ipp | 38 +++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/tga_io.ipp b/include/huira_impl/images/io/tga_io.ipp
index 2a2fd28..b1f0779 100644
--- a/include/huira_impl/images/io/tga_io.ipp
+++ b/include/huira_impl/images/io/tga_io.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
@@ -90,6 +91,28 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                           std::to_string(static_cast<int>(image_type)) + ")");
     }
 
+    // Validate the pixel format
+    if (is_truecolor && pixel_depth != 24 && pixel_depth != 32) {
+        HUIRA_THROW_ERROR("read_tga_raw_ - Unsupported TGA bit depth (" +
+                          std::to_string(static_cast<int>(pixel_depth)) +
+                          "), only 24 and 32 supported for true-color");
+    }
+    if (is_gray && pixel_depth != 8) {
+        HUIRA_THROW_ERROR("read_tga_raw_ - Unsupported TGA bit depth (" +
+                          std::to_string(static_cast<int>(pixel_depth)) +
+                          "), only 8 supported for grayscale");
+    }
+    if (is_color_mapped) {
+        if (pixel_depth != 8 && pixel_depth != 16) {
+            HUIRA_THROW_ERROR("read_tga_raw_ - Unsupported TGA index depth (" +
+                              std::to_string(static_cast<int>(pixel_depth)) +
+                              "), only 8 and 16 supported");
+        }
+        if (color_map_type != 1 || (cm_entry_size != 24 && cm_entry_size != 32)) {
+            HUIRA_THROW_ERROR("read_tga_raw_ - Color-mapped TGA without a 24 or 32 bit color map");
+        }
+    }
+
     // Current read position in buffer
     std::size_t pos = 18;
 
@@ -143,6 +166,11 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
     std::vector<unsigned char> pixel_indices;
 
     if (is_rle) {
+        // A packet holds at most 128 pixels; do not allocate for more than the data can give
+        if ((size - pos) / (1 + index_bytes) < (num_pixels + 127) / 128) {
+            HUIRA_THROW_ERROR("read_tga_raw_ - Unexpected end of RLE data");
+        }
+
         // RLE decode
         pixel_indices.resize(num_pixels * index_bytes);
         std::size_t pixels_decoded = 0;
@@ -169,14 +197,16 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                 }
             } else {
                 // Raw packet: 'count' literal pixel values
-                std::size_t bytes_to_read = static_cast<std::size_t>(count) * index_bytes;
+                std::size_t pixels_to_read =
+                    std::min(static_cast<std::size_t>(count), num_pixels - pixels_decoded);
+                std::size_t bytes_to_read = pixels_to_read * index_bytes;
                 if (pos + bytes_to_read > size) {
                     HUIRA_THROW_ERROR("read_tga_raw_ - Unexpected end of RLE data");
                 }
                 std::memcpy(
                     &pixel_indices[pixels_decoded * index_bytes], data + pos, bytes_to_read);
                 pos += bytes_to_read;
-                pixels_decoded += static_cast<std::size_t>(count);
+                pixels_decoded += pixels_to_read;
             }
         }
     } else {
@@ -211,6 +241,10 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                 } else if (pixel_depth == 16) {
                     std::memcpy(&index, &pixel_indices[src_pixel * 2], sizeof(uint16_t));
                 }
+                if (index < cm_first_index || index - cm_first_index >= cm_length) {
+                    HUIRA_THROW_ERROR("read_tga_raw_ - Color map index out of range (" +
+                                      std::to_string(static_cast<int>(index)) + ")");
+                }
                 index = static_cast<uint16_t>(index - cm_first_index);
                 const unsigned char* src_ptr =
                     &color_map[static_cast<std::size_t>(index) *
-- 
2.43.0


From 895b32d19ccebfd4601aa1b743e2054746d26b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 28/75] fix: an HDR header cannot claim more pixels than its
 data can give

---
 include/huira_impl/images/io/hdr_io.ipp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/huira_impl/images/io/hdr_io.ipp b/include/huira_impl/images/io/hdr_io.ipp
index 0b98c33..1e1df06 100644
--- a/include/huira_impl/images/io/hdr_io.ipp
+++ b/include/huira_impl/images/io/hdr_io.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <cstdint>
@@ -183,6 +184,17 @@ inline HDRData read_hdr_raw_(const unsigned char* data, std::size_t size)
                           std::to_string(height) + ")");
     }
 
+    // Do not allocate for more scanlines than the data can give. A scanline takes four bytes for
+    // each pixel or, run-length encoded, two bytes for a run of at most 127 values of a channel.
+    std::size_t min_scanline = static_cast<std::size_t>(width) * 4;
+    if (width <= 0xFFFF) {
+        min_scanline =
+            std::min(min_scanline, 4 + 8 * ((static_cast<std::size_t>(width) + 126) / 127));
+    }
+    if ((cur.size - cur.pos) / min_scanline < static_cast<std::size_t>(height)) {
+        HUIRA_THROW_ERROR("read_hdr_raw_ - Data truncated in pixel data");
+    }
+
     // Decode scanlines
     std::size_t num_pixels = static_cast<std::size_t>(width) * static_cast<std::size_t>(height);
     std::vector<float> raw_data(num_pixels * 3);
-- 
2.43.0


From 3e864a5a8d50c00d6ab6e35be553df6d4dc9ce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 29/75] fix: the pixel count of a large JPEG overflowed int and
 its buffer was too small

---
 include/huira_impl/images/io/jpeg_io.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/jpeg_io.ipp b/include/huira_impl/images/io/jpeg_io.ipp
index 8edbae2..f6c3a28 100644
--- a/include/huira_impl/images/io/jpeg_io.ipp
+++ b/include/huira_impl/images/io/jpeg_io.ipp
@@ -66,7 +66,9 @@ inline JPEGData read_jpeg_raw_(const unsigned char* data, std::size_t size, bool
 
     int pixel_format = force_gray ? TJPF_GRAY : TJPF_RGB;
     int channels = force_gray ? 1 : 3;
-    std::vector<unsigned char> raw_data(static_cast<std::size_t>(width * height * channels));
+    std::vector<unsigned char> raw_data(static_cast<std::size_t>(width) *
+                                        static_cast<std::size_t>(height) *
+                                        static_cast<std::size_t>(channels));
 
     if (tjDecompress2(decompressor,
                       data,
@@ -167,7 +169,7 @@ inline ImageBundle<float> read_image_jpeg_mono(const unsigned char* data, std::s
 
     ImageBundle<float> bundle{Image<float>(jpeg_data.resolution)};
 
-    for (std::size_t i = 0; i < static_cast<std::size_t>(jpeg_data.width * jpeg_data.height); ++i) {
+    for (std::size_t i = 0; i < jpeg_data.raw_data.size(); ++i) {
         bundle.image[i] = integer_to_float<std::uint8_t>(jpeg_data.raw_data[i]);
     }
 
-- 
2.43.0


From 517568039435ee1862cb52ae87a2a7513e840cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:15 +0000
Subject: [PATCH 30/75] fix: JPEG writing reports a failing close; JPEG codecs
 are released on every way out

---
 include/huira_impl/images/io/jpeg_io.ipp | 44 +++++++++++-------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/include/huira_impl/images/io/jpeg_io.ipp b/include/huira_impl/images/io/jpeg_io.ipp
index f6c3a28..b894c94 100644
--- a/include/huira_impl/images/io/jpeg_io.ipp
+++ b/include/huira_impl/images/io/jpeg_io.ipp
@@ -1,6 +1,7 @@
 #include <cstddef>
 #include <cstdio>
 #include <filesystem>
+#include <memory>
 #include <vector>
 
 #include <turbojpeg.h>
@@ -46,6 +47,8 @@ inline JPEGData read_jpeg_raw_(const unsigned char* data, std::size_t size, bool
     if (!decompressor) {
         HUIRA_THROW_ERROR("read_jpeg_raw_ - Failed to create TurboJPEG decompressor");
     }
+    // Destroys the decompressor on every way out
+    std::unique_ptr<void, int (*)(tjhandle)> decompressor_owner(decompressor, &tjDestroy);
 
     int width = 0;
     int height = 0;
@@ -60,7 +63,6 @@ inline JPEGData read_jpeg_raw_(const unsigned char* data, std::size_t size, bool
                             &subsamp,
                             &colorspace) != 0) {
         std::string tj_err = tjGetErrorStr2(decompressor);
-        tjDestroy(decompressor);
         HUIRA_THROW_ERROR("read_jpeg_raw_ - Failed to read JPEG header (" + tj_err + ")");
     }
 
@@ -80,12 +82,9 @@ inline JPEGData read_jpeg_raw_(const unsigned char* data, std::size_t size, bool
                       pixel_format,
                       0) != 0) {
         std::string tj_err = tjGetErrorStr2(decompressor);
-        tjDestroy(decompressor);
         HUIRA_THROW_ERROR("read_jpeg_raw_ - Failed to decompress JPEG (" + tj_err + ")");
     }
 
-    tjDestroy(decompressor);
-
     JPEGData jpeg_data{};
     jpeg_data.resolution = Resolution{width, height};
     jpeg_data.width = width;
@@ -249,52 +248,51 @@ write_image_jpeg(const fs::path& filepath, const ImageBundle<RGB>& output_image,
     if (!compressor) {
         HUIRA_THROW_ERROR("write_image_jpeg - Failed to create TurboJPEG compressor");
     }
+    // Release the compressor and the compressed data on every way out
+    std::unique_ptr<void, int (*)(tjhandle)> compressor_owner(compressor, &tjDestroy);
 
     unsigned char* jpeg_buf = nullptr;
     unsigned long jpeg_size = 0;
 
-    if (tjCompress2(compressor,
-                    srgb_data.data(),
-                    width,
-                    0,
-                    height,
-                    TJPF_RGB,
-                    &jpeg_buf,
-                    &jpeg_size,
-                    TJSAMP_444,
-                    quality,
-                    0) != 0) {
+    int compress_result = tjCompress2(compressor,
+                                      srgb_data.data(),
+                                      width,
+                                      0,
+                                      height,
+                                      TJPF_RGB,
+                                      &jpeg_buf,
+                                      &jpeg_size,
+                                      TJSAMP_444,
+                                      quality,
+                                      0);
+    std::unique_ptr<unsigned char, void (*)(unsigned char*)> jpeg_owner(jpeg_buf, &tjFree);
+    if (compress_result != 0) {
         std::string tj_err = tjGetErrorStr2(compressor);
-        tjDestroy(compressor);
         HUIRA_THROW_ERROR("write_image_jpeg - Failed to compress JPEG: " + filepath.string() +
                           " (" + tj_err + ")");
     }
 
-    tjDestroy(compressor);
-
     // Write compressed data to file
 #ifdef _MSC_VER
     FILE* fp = nullptr;
     errno_t err = fopen_s(&fp, filepath.string().c_str(), "wb");
     if (err != 0 || !fp) {
-        tjFree(jpeg_buf);
         HUIRA_THROW_ERROR("write_image_jpeg - Failed to open file for writing: " +
                           filepath.string());
     }
 #else
     FILE* fp = fopen(filepath.string().c_str(), "wb");
     if (!fp) {
-        tjFree(jpeg_buf);
         HUIRA_THROW_ERROR("write_image_jpeg - Failed to open file for writing: " +
                           filepath.string());
     }
 #endif
 
     std::size_t written = fwrite(jpeg_buf, 1, jpeg_size, fp);
-    fclose(fp);
-    tjFree(jpeg_buf);
+    // Buffered data may only fail to arrive when the file is closed
+    bool closed = fclose(fp) == 0;
 
-    if (written != jpeg_size) {
+    if (written != jpeg_size || !closed) {
         HUIRA_THROW_ERROR("write_image_jpeg - Failed to write complete JPEG data: " +
                           filepath.string());
     }
-- 
2.43.0


From 863de4d03110a8d9988d6198d79ec4b775ea33d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 31/75] fix: PNG errors skipped destructors and leaked; PNG
 writing reports a failing close

---
 include/huira_impl/images/io/png_io.ipp | 331 ++++++++++++++----------
 1 file changed, 199 insertions(+), 132 deletions(-)

diff --git a/include/huira_impl/images/io/png_io.ipp b/include/huira_impl/images/io/png_io.ipp
index bd5c189..c7e84df 100644
--- a/include/huira_impl/images/io/png_io.ipp
+++ b/include/huira_impl/images/io/png_io.ipp
@@ -130,63 +130,60 @@ static void png_warning_handler_(png_structp /*png_ptr*/, png_const_charp messag
 }
 
 /**
- * @brief Decodes a PNG from an in-memory buffer into raw byte data.
- *
- * Uses libpng with a custom read callback to decompress from memory.
- * Handles palette expansion, low bit depth expansion, tRNS alpha expansion,
- * and byte order normalization for 16-bit images.
+ * @brief Owns the libpng structures and the buffers of a read.
  *
- * @param data Pointer to the PNG data in memory
- * @param size Size of the data in bytes
- * @return Raw decoded data with resolution, color info, and pixel buffer
- * @throws std::runtime_error if the data is not a valid or supported PNG
+ * libpng reports errors by longjmp, which runs no destructors. Everything that needs one lives
+ * here, in the frame of a function that does not call setjmp.
  */
-inline PNGData read_png_raw_(const unsigned char* data, std::size_t size)
-{
-    HUIRA_LOG_INFO("read_png_raw_ - Reading PNG from memory (" + std::to_string(size) + " bytes)");
-
-    if (size < 8) {
-        HUIRA_THROW_ERROR("read_png_raw_ - Data too small to be a valid PNG");
-    }
-
-    // Verify PNG signature
-    if (png_sig_cmp(data, 0, 8) != 0) {
-        HUIRA_THROW_ERROR("read_png_raw_ - Data is not a valid PNG (bad signature)");
-    }
+struct PngReader_ {
+    png_structp png_ptr = nullptr;
+    png_infop info_ptr = nullptr;
+    PngMemReadState_ read_state{nullptr, 0, 0};
+    std::vector<png_bytep> row_pointers;
+    PNGData png_data{};
 
-    png_structp png_ptr = png_create_read_struct(
-        PNG_LIBPNG_VER_STRING, nullptr, png_error_handler_, png_warning_handler_);
-    if (!png_ptr) {
-        HUIRA_THROW_ERROR("read_png_raw_ - Failed to create PNG read struct");
+    PngReader_() = default;
+    PngReader_(const PngReader_&) = delete;
+    PngReader_& operator=(const PngReader_&) = delete;
+    ~PngReader_()
+    {
+        if (png_ptr) {
+            png_destroy_read_struct(&png_ptr, &info_ptr, nullptr);
+        }
     }
+};
 
-    png_infop info_ptr = png_create_info_struct(png_ptr);
-    if (!info_ptr) {
-        png_destroy_read_struct(&png_ptr, nullptr, nullptr);
-        HUIRA_THROW_ERROR("read_png_raw_ - Failed to create PNG info struct");
-    }
+/**
+ * @brief Runs libpng for read_png_raw_. Must not create objects with destructors (see PngReader_).
+ *
+ * @return false if libpng reported an error
+ */
+inline bool run_png_reader_(PngReader_& reader)
+{
+    png_structp png_ptr = reader.png_ptr;
+    png_infop info_ptr = reader.info_ptr;
+    PNGData& png_data = reader.png_data;
 
     if (setjmp(png_jmpbuf(png_ptr))) {
-        png_destroy_read_struct(&png_ptr, &info_ptr, nullptr);
-        HUIRA_THROW_ERROR("read_png_raw_ - Error during PNG read");
+        return false;
     }
 
     // Set up custom memory read
-    PngMemReadState_ read_state{data, size, 8}; // Skip past signature
-    png_set_read_fn(png_ptr, &read_state, png_mem_read_callback_);
+    png_set_read_fn(png_ptr, &reader.read_state, png_mem_read_callback_);
     png_set_sig_bytes(png_ptr, 8);
 
     png_read_info(png_ptr, info_ptr);
 
     // Detect color space before any transformations
-    PngColorInfo color_info = detect_png_color_space_(png_ptr, info_ptr);
+    png_data.color_info = detect_png_color_space_(png_ptr, info_ptr);
 
-    png_uint_32 width = png_get_image_width(png_ptr, info_ptr);
-    png_uint_32 height = png_get_image_height(png_ptr, info_ptr);
+    png_data.width = png_get_image_width(png_ptr, info_ptr);
+    png_data.height = png_get_image_height(png_ptr, info_ptr);
     png_byte color_type = png_get_color_type(png_ptr, info_ptr);
     png_byte bit_depth = png_get_bit_depth(png_ptr, info_ptr);
 
-    Resolution resolution{static_cast<int>(width), static_cast<int>(height)};
+    png_data.resolution =
+        Resolution{static_cast<int>(png_data.width), static_cast<int>(png_data.height)};
 
     // Expand palette to RGB(A)
     if (color_type == PNG_COLOR_TYPE_PALETTE) {
@@ -212,48 +209,79 @@ inline PNGData read_png_raw_(const unsigned char* data, std::size_t size)
 
     // Get final format after transformations
     png_byte final_color_type = png_get_color_type(png_ptr, info_ptr);
-    png_byte final_bit_depth = png_get_bit_depth(png_ptr, info_ptr);
+    png_data.final_bit_depth = png_get_bit_depth(png_ptr, info_ptr);
 
-    bool is_gray =
+    png_data.is_gray =
         (final_color_type == PNG_COLOR_TYPE_GRAY || final_color_type == PNG_COLOR_TYPE_GRAY_ALPHA);
-    bool has_alpha = (final_color_type & PNG_COLOR_MASK_ALPHA) != 0;
+    png_data.has_alpha = (final_color_type & PNG_COLOR_MASK_ALPHA) != 0;
 
-    unsigned int channels = 0;
+    png_data.channels = 0;
     if (final_color_type == PNG_COLOR_TYPE_GRAY) {
-        channels = 1;
+        png_data.channels = 1;
     } else if (final_color_type == PNG_COLOR_TYPE_GRAY_ALPHA) {
-        channels = 2;
+        png_data.channels = 2;
     } else if (final_color_type == PNG_COLOR_TYPE_RGB) {
-        channels = 3;
+        png_data.channels = 3;
     } else if (final_color_type == PNG_COLOR_TYPE_RGB_ALPHA) {
-        channels = 4;
+        png_data.channels = 4;
     }
 
-    std::size_t row_bytes = png_get_rowbytes(png_ptr, info_ptr);
-    std::vector<png_byte> raw_data(row_bytes * height);
-    std::vector<png_bytep> row_pointers(height);
+    png_data.row_bytes = png_get_rowbytes(png_ptr, info_ptr);
+    png_data.raw_data.resize(png_data.row_bytes * png_data.height);
+    reader.row_pointers.resize(png_data.height);
 
-    for (png_uint_32 y = 0; y < height; ++y) {
-        row_pointers[y] = raw_data.data() + y * row_bytes;
+    for (png_uint_32 y = 0; y < png_data.height; ++y) {
+        reader.row_pointers[y] = png_data.raw_data.data() + y * png_data.row_bytes;
     }
 
-    png_read_image(png_ptr, row_pointers.data());
+    png_read_image(png_ptr, reader.row_pointers.data());
     png_read_end(png_ptr, nullptr);
-    png_destroy_read_struct(&png_ptr, &info_ptr, nullptr);
+    return true;
+}
 
-    PNGData png_data{};
-    png_data.resolution = resolution;
-    png_data.height = height;
-    png_data.width = width;
-    png_data.channels = channels;
-    png_data.raw_data = std::move(raw_data);
-    png_data.row_bytes = row_bytes;
-    png_data.color_info = color_info;
-    png_data.final_bit_depth = final_bit_depth;
-    png_data.has_alpha = has_alpha;
-    png_data.is_gray = is_gray;
-
-    return png_data;
+/**
+ * @brief Decodes a PNG from an in-memory buffer into raw byte data.
+ *
+ * Uses libpng with a custom read callback to decompress from memory.
+ * Handles palette expansion, low bit depth expansion, tRNS alpha expansion,
+ * and byte order normalization for 16-bit images.
+ *
+ * @param data Pointer to the PNG data in memory
+ * @param size Size of the data in bytes
+ * @return Raw decoded data with resolution, color info, and pixel buffer
+ * @throws std::runtime_error if the data is not a valid or supported PNG
+ */
+inline PNGData read_png_raw_(const unsigned char* data, std::size_t size)
+{
+    HUIRA_LOG_INFO("read_png_raw_ - Reading PNG from memory (" + std::to_string(size) + " bytes)");
+
+    if (size < 8) {
+        HUIRA_THROW_ERROR("read_png_raw_ - Data too small to be a valid PNG");
+    }
+
+    // Verify PNG signature
+    if (png_sig_cmp(data, 0, 8) != 0) {
+        HUIRA_THROW_ERROR("read_png_raw_ - Data is not a valid PNG (bad signature)");
+    }
+
+    PngReader_ reader;
+    reader.png_ptr = png_create_read_struct(
+        PNG_LIBPNG_VER_STRING, nullptr, png_error_handler_, png_warning_handler_);
+    if (!reader.png_ptr) {
+        HUIRA_THROW_ERROR("read_png_raw_ - Failed to create PNG read struct");
+    }
+
+    reader.info_ptr = png_create_info_struct(reader.png_ptr);
+    if (!reader.info_ptr) {
+        HUIRA_THROW_ERROR("read_png_raw_ - Failed to create PNG info struct");
+    }
+
+    reader.read_state = PngMemReadState_{data, size, 8}; // Skip past signature
+    if (!run_png_reader_(reader)) {
+        HUIRA_THROW_ERROR("read_png_raw_ - Error during PNG read");
+    }
+
+    return std::move(reader.png_data);
 }
 
 template <IsImagePixel PixelT>
@@ -487,32 +515,40 @@ inline void write_image_png(const fs::path& filepath, const ImageBundle<float>&
     write_image_png(filepath, output_image_rgb);
 }
 
-inline void write_image_png(const fs::path& filepath, const ImageBundle<RGB>& output_image)
-{
-    HUIRA_LOG_INFO("write_image_png - Writing to: " + filepath.string());
-    if (output_image.image.width() == 0 || output_image.image.height() == 0) {
-        HUIRA_THROW_ERROR("write_image_png - Cannot write empty image: " + filepath.string());
-    }
-
-    bool has_alpha = (output_image.alpha.width() != 0 && output_image.alpha.height() != 0);
-    if (has_alpha) {
-        if (output_image.alpha.width() != output_image.image.width() ||
-            output_image.alpha.height() != output_image.image.height()) {
-            HUIRA_LOG_WARNING(
-                "write_image_png - image is [" + std::to_string(output_image.image.width()) +
-                " x " + std::to_string(output_image.image.height()) + "], but alpha is [" +
-                std::to_string(output_image.alpha.width()) + " x " +
-                std::to_string(output_image.alpha.height()) + "]. The alpha mask will be ignored.");
-            has_alpha = false;
+/**
+ * @brief Owns the file, the libpng structures and the buffers of a write (see PngReader_).
+ */
+struct PngWriter_ {
+    FILE* fp = nullptr;
+    png_structp png_ptr = nullptr;
+    png_infop info_ptr = nullptr;
+    std::vector<std::uint16_t> row_data_16;
+    std::vector<std::uint8_t> row_data_8;
+
+    PngWriter_() = default;
+    PngWriter_(const PngWriter_&) = delete;
+    PngWriter_& operator=(const PngWriter_&) = delete;
+    ~PngWriter_()
+    {
+        if (png_ptr) {
+            png_destroy_write_struct(&png_ptr, &info_ptr);
+        }
+        if (fp) {
+            fclose(fp);
         }
     }
+};
 
-    if (output_image.bit_depth != 8 && output_image.bit_depth != 16) {
-        HUIRA_THROW_ERROR("write_image_png - bit_depth must be 8 or 16, got: " +
-                          std::to_string(output_image.bit_depth));
-    }
-
-    make_path(filepath);
+/**
+ * @brief Runs libpng for write_image_png. Must not create objects with destructors.
+ *
+ * @return false if libpng reported an error
+ */
+inline bool
+run_png_writer_(PngWriter_& writer, const ImageBundle<RGB>& output_image, bool has_alpha)
+{
+    png_structp png_ptr = writer.png_ptr;
+    png_infop info_ptr = writer.info_ptr;
 
     int color_type = has_alpha ? PNG_COLOR_TYPE_RGB_ALPHA : PNG_COLOR_TYPE_RGB;
     unsigned int channels = has_alpha ? 4 : 3;
@@ -520,48 +556,11 @@ inline void write_image_png(const fs::path& filepath, const ImageBundle<RGB>& ou
     int width = output_image.image.width();
     int height = output_image.image.height();
 
-#ifdef _MSC_VER
-    FILE* fp = nullptr;
-    errno_t err = fopen_s(&fp, filepath.string().c_str(), "wb");
-    if (err != 0 || !fp) {
-        HUIRA_THROW_ERROR("write_image_png - Failed to open PNG file for writing: " +
-                          filepath.string());
-    }
-#else
-    FILE* fp = fopen(filepath.string().c_str(), "wb");
-    if (!fp) {
-        HUIRA_THROW_ERROR("write_image_png - Failed to open PNG file for writing: " +
-                          filepath.string());
-    }
-#endif
-
-    png_structp png_ptr = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
-    if (!png_ptr) {
-        fclose(fp);
-        HUIRA_THROW_ERROR("write_image_png - Failed to create PNG write struct");
-    }
-
-    png_infop info_ptr = png_create_info_struct(png_ptr);
-    if (!info_ptr) {
-        png_destroy_write_struct(&png_ptr, nullptr);
-        fclose(fp);
-        HUIRA_THROW_ERROR("write_image_png - Failed to create PNG info struct");
-    }
-
-#ifdef _MSC_VER
-#pragma warning(push)
-#pragma warning(disable : 4611 5039)
-#endif
     if (setjmp(png_jmpbuf(png_ptr))) {
-        png_destroy_write_struct(&png_ptr, &info_ptr);
-        fclose(fp);
-        HUIRA_THROW_ERROR("write_image_png - Error during PNG write: " + filepath.string());
+        return false;
     }
-#ifdef _MSC_VER
-#pragma warning(pop)
-#endif
 
-    png_init_io(png_ptr, fp);
+    png_init_io(png_ptr, writer.fp);
 
     png_set_IHDR(png_ptr,
                  info_ptr,
@@ -599,7 +598,8 @@ inline void write_image_png(const fs::path& filepath, const ImageBundle<RGB>& ou
     }
 
     if (output_image.bit_depth == 16) {
-        std::vector<std::uint16_t> row_data(static_cast<std::size_t>(width) * channels);
+        std::vector<std::uint16_t>& row_data = writer.row_data_16;
+        row_data.resize(static_cast<std::size_t>(width) * channels);
 
         for (int y = 0; y < height; ++y) {
             for (int x = 0; x < width; ++x) {
@@ -620,7 +620,8 @@ inline void write_image_png(const fs::path& filepath, const ImageBundle<RGB>& ou
             png_write_row(png_ptr, row_ptr);
         }
     } else {
-        std::vector<std::uint8_t> row_data(static_cast<std::size_t>(width) * channels);
+        std::vector<std::uint8_t>& row_data = writer.row_data_8;
+        row_data.resize(static_cast<std::size_t>(width) * channels);
 
         for (int y = 0; y < height; ++y) {
             for (int x = 0; x < width; ++x) {
@@ -643,8 +644,74 @@ inline void write_image_png(const fs::path& filepath, const ImageBundle<RGB>& ou
     }
 
     png_write_end(png_ptr, nullptr);
-    png_destroy_write_struct(&png_ptr, &info_ptr);
-    fclose(fp);
+    return true;
+}
+
+inline void write_image_png(const fs::path& filepath, const ImageBundle<RGB>& output_image)
+{
+    HUIRA_LOG_INFO("write_image_png - Writing to: " + filepath.string());
+    if (output_image.image.width() == 0 || output_image.image.height() == 0) {
+        HUIRA_THROW_ERROR("write_image_png - Cannot write empty image: " + filepath.string());
+    }
+
+    bool has_alpha = (output_image.alpha.width() != 0 && output_image.alpha.height() != 0);
+    if (has_alpha) {
+        if (output_image.alpha.width() != output_image.image.width() ||
+            output_image.alpha.height() != output_image.image.height()) {
+            HUIRA_LOG_WARNING(
+                "write_image_png - image is [" + std::to_string(output_image.image.width()) +
+                " x " + std::to_string(output_image.image.height()) + "], but alpha is [" +
+                std::to_string(output_image.alpha.width()) + " x " +
+                std::to_string(output_image.alpha.height()) + "]. The alpha mask will be ignored.");
+            has_alpha = false;
+        }
+    }
+
+    if (output_image.bit_depth != 8 && output_image.bit_depth != 16) {
+        HUIRA_THROW_ERROR("write_image_png - bit_depth must be 8 or 16, got: " +
+                          std::to_string(output_image.bit_depth));
+    }
+
+    make_path(filepath);
+
+    PngWriter_ writer;
+#ifdef _MSC_VER
+    FILE* fp = nullptr;
+    errno_t err = fopen_s(&fp, filepath.string().c_str(), "wb");
+    if (err != 0 || !fp) {
+        HUIRA_THROW_ERROR("write_image_png - Failed to open PNG file for writing: " +
+                          filepath.string());
+    }
+#else
+    FILE* fp = fopen(filepath.string().c_str(), "wb");
+    if (!fp) {
+        HUIRA_THROW_ERROR("write_image_png - Failed to open PNG file for writing: " +
+                          filepath.string());
+    }
+#endif
+
+    writer.fp = fp;
+
+    writer.png_ptr = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
+    if (!writer.png_ptr) {
+        HUIRA_THROW_ERROR("write_image_png - Failed to create PNG write struct");
+    }
+
+    writer.info_ptr = png_create_info_struct(writer.png_ptr);
+    if (!writer.info_ptr) {
+        HUIRA_THROW_ERROR("write_image_png - Failed to create PNG info struct");
+    }
+
+    if (!run_png_writer_(writer, output_image, has_alpha)) {
+        HUIRA_THROW_ERROR("write_image_png - Error during PNG write: " + filepath.string());
+    }
+
+    // Buffered data may only fail to arrive when the file is closed
+    writer.fp = nullptr;
+    if (fclose(fp) != 0) {
+        HUIRA_THROW_ERROR("write_image_png - Failed to write complete PNG data: " +
+                          filepath.string());
+    }
 }
 
 } // namespace huira
-- 
2.43.0


From 0f9c651522d12f8d675129f763f76ebaf6320b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 32/75] fix: libtiff messages were formatted into a single char

---
 include/huira_impl/images/io/tiff_io.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 9f47b9f..8f583d8 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -160,7 +160,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     TIFFSetWarningHandler(nullptr);
 
     TIFFSetErrorHandlerExt([](thandle_t, const char* module, const char* fmt, va_list ap) noexcept {
-        char tiff_msg_buffer;
+        char tiff_msg_buffer[1024];
 
 #if defined(__clang__)
 #pragma clang diagnostic push
@@ -172,7 +172,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
 #pragma warning(push)
 #pragma warning(disable : 4774)
 #endif
-        std::vsnprintf(&tiff_msg_buffer, sizeof(tiff_msg_buffer), fmt, ap);
+        std::vsnprintf(tiff_msg_buffer, sizeof(tiff_msg_buffer), fmt, ap);
 #if defined(__clang__)
 #pragma clang diagnostic pop
 #elif defined(__GNUC__)
-- 
2.43.0


From 4e9d256894c0e5329d4c49ab3c8ffebdb39e6f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 33/75] fix: TIFF tiles and palette data that cannot be read
 were invented

---
 include/huira_impl/images/io/tiff_io.ipp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 8f583d8..452049b 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -259,7 +259,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
         std::vector<uint32_t> rgba_data(num_pixels);
 
         if (!TIFFReadRGBAImageOriented(
-                tif.get(), width, height, rgba_data.data(), ORIENTATION_TOPLEFT, 0)) {
+                tif.get(), width, height, rgba_data.data(), ORIENTATION_TOPLEFT, 1)) {
             HUIRA_THROW_ERROR("read_tiff_raw_ - Failed to read palette TIFF via RGBA");
         }
 
@@ -348,7 +348,10 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
         if (planar_config == PLANARCONFIG_CONTIG) {
             for (uint32_t ty = 0; ty < height; ty += tile_height) {
                 for (uint32_t tx = 0; tx < width; tx += tile_width) {
-                    TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, 0);
+                    if (TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, 0) < 0) {
+                        HUIRA_THROW_ERROR("read_tiff_raw_ - Failed to read tile at " +
+                                          std::to_string(tx) + ", " + std::to_string(ty));
+                    }
 
                     uint32_t eff_tw = std::min(tile_width, width - tx);
                     uint32_t eff_th = std::min(tile_height, height - ty);
@@ -376,7 +379,11 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
             for (uint16_t ch = 0; ch < samples_per_pixel; ++ch) {
                 for (uint32_t ty = 0; ty < height; ty += tile_height) {
                     for (uint32_t tx = 0; tx < width; tx += tile_width) {
-                        TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, ch);
+                        if (TIFFReadTile(tif.get(), tile_buf.data(), tx, ty, 0, ch) < 0) {
+                            HUIRA_THROW_ERROR("read_tiff_raw_ - Failed to read tile at " +
+                                              std::to_string(tx) + ", " + std::to_string(ty) +
+                                              " channel " + std::to_string(static_cast<int>(ch)));
+                        }
 
                         uint32_t eff_tw = std::min(tile_width, width - tx);
                         uint32_t eff_th = std::min(tile_height, height - ty);
-- 
2.43.0


From e2b5375cb7ad81f878632872fa62d8c833dec7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 34/75] fix: TIFF tiles and scanlines smaller than the image
 says were read out of bounds

---
 include/huira_impl/images/io/tiff_io.ipp | 32 +++++++++++++++++-------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 452049b..1e37d10 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -225,7 +225,9 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     TIFFGetFieldDefaulted(tif.get(), TIFFTAG_PHOTOMETRIC, &photometric);
     TIFFGetFieldDefaulted(tif.get(), TIFFTAG_PLANARCONFIG, &planar_config);
 
-    if (width == 0 || height == 0) {
+    if (width == 0 || height == 0 || samples_per_pixel == 0 ||
+        width > static_cast<uint32_t>(std::numeric_limits<int>::max()) ||
+        height > static_cast<uint32_t>(std::numeric_limits<int>::max())) {
         HUIRA_THROW_ERROR("read_tiff_raw_ - Invalid dimensions (" + std::to_string(width) + " x " +
                           std::to_string(height) + ")");
     }
@@ -314,7 +316,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     }
 
     // Lambda to convert a raw sample value to float
-    auto sample_to_float = [&](const unsigned char* ptr, int byte_offset) -> float {
+    auto sample_to_float = [&](const unsigned char* ptr, std::size_t byte_offset) -> float {
         if (is_float) {
             float val;
             std::memcpy(&val, ptr + byte_offset, sizeof(float));
@@ -335,6 +337,11 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
 
     std::size_t bytes_per_sample = static_cast<std::size_t>(bits_per_sample) / 8;
 
+    // Bytes of a pixel within a tile or scanline
+    std::size_t bytes_per_pixel = planar_config == PLANARCONFIG_CONTIG
+                                      ? bytes_per_sample * num_channels
+                                      : bytes_per_sample;
+
     bool is_tiled = TIFFIsTiled(tif.get()) != 0;
 
     if (is_tiled) {
@@ -342,7 +349,12 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
         TIFFGetField(tif.get(), TIFFTAG_TILEWIDTH, &tile_width);
         TIFFGetField(tif.get(), TIFFTAG_TILELENGTH, &tile_height);
 
+        // The tile must hold the pixels read from it (subsampled ones, for example, do not)
         tsize_t tile_size = TIFFTileSize(tif.get());
+        if (tile_width == 0 || tile_height == 0 || tile_size <= 0 ||
+            static_cast<std::size_t>(tile_size) / bytes_per_pixel / tile_width < tile_height) {
+            HUIRA_THROW_ERROR("read_tiff_raw_ - Unsupported tile layout");
+        }
         std::vector<unsigned char> tile_buf(static_cast<std::size_t>(tile_size));
 
         if (planar_config == PLANARCONFIG_CONTIG) {
@@ -367,8 +379,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
 
                             for (std::size_t ch = 0; ch < num_channels; ++ch) {
                                 channels[ch][dst_pixel] = sample_to_float(
-                                    tile_buf.data(),
-                                    static_cast<int>(tile_pixel_offset + ch * bytes_per_sample));
+                                    tile_buf.data(), tile_pixel_offset + ch * bytes_per_sample);
                             }
                         }
                     }
@@ -398,7 +409,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
                                     static_cast<std::size_t>(ty + row) * width + (tx + col);
 
                                 channels[ch][dst_pixel] =
-                                    sample_to_float(tile_buf.data(), static_cast<int>(tile_offset));
+                                    sample_to_float(tile_buf.data(), tile_offset);
                             }
                         }
                     }
@@ -408,6 +419,10 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
     } else {
         // Stripped storage
         tsize_t scanline_size = TIFFScanlineSize(tif.get());
+        if (scanline_size <= 0 ||
+            static_cast<std::size_t>(scanline_size) / bytes_per_pixel < width) {
+            HUIRA_THROW_ERROR("read_tiff_raw_ - Unsupported scanline layout");
+        }
         std::vector<unsigned char> scanline_buf(static_cast<std::size_t>(scanline_size));
 
         if (planar_config == PLANARCONFIG_CONTIG) {
@@ -423,9 +438,8 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
                     std::size_t dst_pixel = static_cast<std::size_t>(y) * width + x;
 
                     for (std::size_t ch = 0; ch < num_channels; ++ch) {
-                        channels[ch][dst_pixel] =
-                            sample_to_float(scanline_buf.data(),
-                                            static_cast<int>(pixel_offset + ch * bytes_per_sample));
+                        channels[ch][dst_pixel] = sample_to_float(
+                            scanline_buf.data(), pixel_offset + ch * bytes_per_sample);
                     }
                 }
             }
@@ -444,7 +458,7 @@ inline TIFFData read_tiff_raw_(const unsigned char* data, std::size_t size)
                         std::size_t dst_pixel = static_cast<std::size_t>(y) * width + x;
 
                         channels[ch][dst_pixel] =
-                            sample_to_float(scanline_buf.data(), static_cast<int>(sample_offset));
+                            sample_to_float(scanline_buf.data(), sample_offset);
                     }
                 }
             }
-- 
2.43.0


From 8eb47008181205416bb7759489c507facf62125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 35/75] fix: TIFF writing reports a failing write, flush or
 close

---
 include/huira_impl/images/io/tiff_io.ipp | 130 +++++++++++++++++++++--
 1 file changed, 120 insertions(+), 10 deletions(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 1e37d10..52eac96 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <cstddef>
 #include <cstdint>
+#include <cstdio>
 #include <cstring>
 #include <filesystem>
 #include <limits>
@@ -657,6 +658,109 @@ inline ImageBundle<float> read_image_tiff_mono(const fs::path& filepath, bool re
 // TIFF Writers
 // =========================================================================
 
+/**
+ * @brief File being written by libtiff. TIFFOpen's own I/O hides whether closing succeeded.
+ */
+struct TiffFileState_ {
+    FILE* fp = nullptr;
+    bool failed = false;
+};
+
+inline tsize_t tiff_file_read_(thandle_t handle, tdata_t buf, tsize_t n) noexcept
+{
+    auto* state = reinterpret_cast<TiffFileState_*>(handle);
+    return static_cast<tsize_t>(std::fread(buf, 1, static_cast<std::size_t>(n), state->fp));
+}
+
+inline tsize_t tiff_file_write_(thandle_t handle, tdata_t buf, tsize_t n) noexcept
+{
+    auto* state = reinterpret_cast<TiffFileState_*>(handle);
+    auto written =
+        static_cast<tsize_t>(std::fwrite(buf, 1, static_cast<std::size_t>(n), state->fp));
+    if (written != n) {
+        state->failed = true;
+    }
+    return written;
+}
+
+inline toff_t tiff_file_seek_(thandle_t handle, toff_t offset, int whence) noexcept
+{
+    auto* state = reinterpret_cast<TiffFileState_*>(handle);
+    if (std::fseek(state->fp, static_cast<long>(offset), whence) != 0) {
+        state->failed = true;
+        return static_cast<toff_t>(-1);
+    }
+    return static_cast<toff_t>(std::ftell(state->fp));
+}
+
+inline int tiff_file_close_(thandle_t handle) noexcept
+{
+    auto* state = reinterpret_cast<TiffFileState_*>(handle);
+    int result = std::fclose(state->fp);
+    if (result != 0) {
+        state->failed = true;
+    }
+    return result;
+}
+
+inline toff_t tiff_file_size_(thandle_t handle) noexcept
+{
+    auto* state = reinterpret_cast<TiffFileState_*>(handle);
+    long pos = std::ftell(state->fp);
+    std::fseek(state->fp, 0, SEEK_END);
+    long size = std::ftell(state->fp);
+    std::fseek(state->fp, pos, SEEK_SET);
+    return static_cast<toff_t>(size < 0 ? 0 : size);
+}
+
+/**
+ * @brief Creates a TIFF file for writing; `state` must outlive it.
+ */
+inline ScopedTIFF open_tiff_for_writing_(const fs::path& filepath, TiffFileState_& state)
+{
+#ifdef _MSC_VER
+    if (fopen_s(&state.fp, filepath.string().c_str(), "wb+") != 0) {
+        state.fp = nullptr;
+    }
+#else
+    state.fp = fopen(filepath.string().c_str(), "wb+");
+#endif
+    if (!state.fp) {
+        HUIRA_THROW_ERROR("write_image_tiff - Failed to open file for writing: " +
+                          filepath.string());
+    }
+
+    ScopedTIFF tif(TIFFClientOpen(filepath.string().c_str(),
+                                  "w",
+                                  reinterpret_cast<thandle_t>(&state),
+                                  tiff_file_read_,
+                                  tiff_file_write_,
+                                  tiff_file_seek_,
+                                  tiff_file_close_,
+                                  tiff_file_size_,
+                                  nullptr,
+                                  nullptr));
+    if (!tif) {
+        std::fclose(state.fp);
+        HUIRA_THROW_ERROR("write_image_tiff - Failed to open file for writing: " +
+                          filepath.string());
+    }
+    return tif;
+}
+
+/**
+ * @brief Completes and closes a TIFF file; throws if not all of it was written.
+ */
+inline void finish_tiff_(const fs::path& filepath, ScopedTIFF& tif, const TiffFileState_& state)
+{
+    bool flushed = TIFFFlush(tif.get()) == 1;
+    tif.reset();
+    if (!flushed || state.failed) {
+        HUIRA_THROW_ERROR("write_image_tiff - Failed to write complete TIFF data: " +
+                          filepath.string());
+    }
+}
+
 /**
  * @brief Writes an RGB image to a TIFF file with optional metadata.
  *
@@ -676,13 +780,14 @@ inline void write_image_tiff(const fs::path& filepath,
         HUIRA_THROW_ERROR("write_image_tiff - Bit depth must be 8 or 16");
     }
 
+    if (bundle.image.width() == 0 || bundle.image.height() == 0) {
+        HUIRA_THROW_ERROR("write_image_tiff - Cannot write empty image: " + filepath.string());
+    }
+
     make_path(filepath);
 
-    ScopedTIFF tif(TIFFOpen(filepath.string().c_str(), "w"));
-    if (!tif) {
-        HUIRA_THROW_ERROR("write_image_tiff - Failed to open file for writing: " +
-                          filepath.string());
-    }
+    TiffFileState_ file_state;
+    ScopedTIFF tif = open_tiff_for_writing_(filepath, file_state);
 
     uint32_t width = static_cast<uint32_t>(bundle.image.width());
     uint32_t height = static_cast<uint32_t>(bundle.image.height());
@@ -734,6 +839,8 @@ inline void write_image_tiff(const fs::path& filepath,
             HUIRA_THROW_ERROR("write_image_tiff - Failed to write scanline " + std::to_string(y));
         }
     }
+
+    finish_tiff_(filepath, tif, file_state);
 }
 /**
  * @brief Writes a monochrome float image to a TIFF file with optional metadata.
@@ -749,13 +856,14 @@ inline void write_image_tiff(const fs::path& filepath,
         HUIRA_THROW_ERROR("write_image_tiff - Bit depth must be 8 or 16");
     }
 
+    if (bundle.image.width() == 0 || bundle.image.height() == 0) {
+        HUIRA_THROW_ERROR("write_image_tiff - Cannot write empty image: " + filepath.string());
+    }
+
     make_path(filepath);
 
-    ScopedTIFF tif(TIFFOpen(filepath.string().c_str(), "w"));
-    if (!tif) {
-        HUIRA_THROW_ERROR("write_image_tiff - Failed to open file for writing: " +
-                          filepath.string());
-    }
+    TiffFileState_ file_state;
+    ScopedTIFF tif = open_tiff_for_writing_(filepath, file_state);
 
     uint32_t width = static_cast<uint32_t>(bundle.image.width());
     uint32_t height = static_cast<uint32_t>(bundle.image.height());
@@ -798,6 +906,8 @@ inline void write_image_tiff(const fs::path& filepath,
             HUIRA_THROW_ERROR("write_image_tiff - Failed to write scanline " + std::to_string(y));
         }
     }
+
+    finish_tiff_(filepath, tif, file_state);
 }
 
 /**
-- 
2.43.0


From 1a68ec409495f6d7c99927a0de16fc8d9cfd3a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 36/75] fix: FITS writing reports a failing close

---
 include/huira_impl/images/io/fits_io.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index b21d3f4..7437b62 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -670,6 +670,12 @@ inline void write_image_fits(const fs::path& filepath,
     long fpixel[2] = {1, 1};
     fits_write_pix(ff.fptr, TFLOAT, fpixel, npixels, buffer.data(), &status);
     detail::fits_check(status, "write pixels");
+
+    // Buffered data may only fail to arrive when the file is closed
+    fitsfile* fptr = ff.fptr;
+    ff.fptr = nullptr;
+    fits_close_file(fptr, &status);
+    detail::fits_check(status, "close " + filepath.string());
 }
 
 } // namespace huira
-- 
2.43.0


From ad20d8b85f53be7773283a51b98f01d63af27166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 37/75] fix: FITS image dimensions beyond int were truncated

---
 include/huira_impl/images/io/fits_io.ipp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index 7437b62..cf1fecc 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -463,6 +463,12 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
                           ").  Use read_image_fits_cube() for multi-band images.");
     }
 
+    if (naxes[0] < 0 || naxes[1] < 0 || naxes[0] > std::numeric_limits<int>::max() ||
+        naxes[1] > std::numeric_limits<int>::max()) {
+        HUIRA_THROW_ERROR("FITS image dimensions out of range (" + std::to_string(naxes[0]) +
+                          " x " + std::to_string(naxes[1]) + ")");
+    }
+
     const int width = static_cast<int>(naxes[0]);
     const int height = static_cast<int>(naxes[1]);
 
@@ -517,7 +523,7 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
 
     for (int y = 0; y < height; ++y) {
         const int fits_row = height - 1 - y;
-        const float* src = buffer.data() + static_cast<std::size_t>(fits_row * width);
+        const float* src = buffer.data() + static_cast<std::size_t>(fits_row) * static_cast<std::size_t>(width);
         for (int x = 0; x < width; ++x) {
             image(x, y) = src[x];
         }
@@ -622,7 +628,7 @@ inline void write_image_fits(const fs::path& filepath,
     bool has_blank = false;
     for (int y = 0; y < h; ++y) {
         const int fits_row = h - 1 - y;
-        float* dst = buffer.data() + static_cast<std::size_t>(fits_row * w);
+        float* dst = buffer.data() + static_cast<std::size_t>(fits_row) * static_cast<std::size_t>(w);
         for (int x = 0; x < w; ++x) {
             float px = image(x, y);
 
-- 
2.43.0


From 97bf335054f6157f80411087a0c0ffc70263c699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 38/75] fix: the pixel count of a large image overflowed int,
 and a negative one was accepted

---
 include/huira/images/image.hpp      |  2 ++
 include/huira_impl/images/image.ipp | 26 +++++++++++++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/huira/images/image.hpp b/include/huira/images/image.hpp
index ed8cf36..6659f3c 100644
--- a/include/huira/images/image.hpp
+++ b/include/huira/images/image.hpp
@@ -141,6 +141,8 @@ class Image {
 
     int sensor_bit_depth_ = 0;
 
+    [[nodiscard]] static std::size_t pixel_count_(int width, int height);
+
     [[nodiscard]] std::size_t to_linear(int x, int y) const noexcept;
 
     template <WrapMode W>
diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index fe15fc1..a1271a6 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -18,6 +18,21 @@ inline std::mutex& fftw_planner_mutex()
     return mutex;
 }
 
+/**
+ * @brief Number of pixels of an image of the given size.
+ *
+ * @throws std::runtime_error if a dimension is negative
+ */
+template <IsImagePixel PixelT>
+std::size_t Image<PixelT>::pixel_count_(int width, int height)
+{
+    if (width < 0 || height < 0) {
+        HUIRA_THROW_ERROR("Image - Invalid dimensions (" + std::to_string(width) + " x " +
+                          std::to_string(height) + ")");
+    }
+    return static_cast<std::size_t>(width) * static_cast<std::size_t>(height);
+}
+
 /**
  * @brief Default constructor creating an empty image.
  */
@@ -35,7 +50,7 @@ Image<PixelT>::Image() : data_{}, resolution_{0, 0}
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(Resolution resolution)
-    : data_(static_cast<std::size_t>(resolution.x * resolution.y)), resolution_{resolution}
+    : data_(pixel_count_(resolution.x, resolution.y)), resolution_{resolution}
 {
 }
 
@@ -49,7 +64,7 @@ Image<PixelT>::Image(Resolution resolution)
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(Resolution resolution, const PixelT& fill_value)
-    : data_(static_cast<std::size_t>(resolution.x * resolution.y), fill_value),
+    : data_(pixel_count_(resolution.x, resolution.y), fill_value),
       resolution_{resolution}
 {
 }
@@ -64,7 +79,7 @@ Image<PixelT>::Image(Resolution resolution, const PixelT& fill_value)
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(int width, int height)
-    : data_(static_cast<std::size_t>(width * height)), resolution_{width, height}
+    : data_(pixel_count_(width, height)), resolution_{width, height}
 {
 }
 
@@ -79,7 +94,7 @@ Image<PixelT>::Image(int width, int height)
  */
 template <IsImagePixel PixelT>
 Image<PixelT>::Image(int width, int height, const PixelT& fill_value)
-    : data_(static_cast<std::size_t>(width * height), fill_value), resolution_{width, height}
+    : data_(pixel_count_(width, height), fill_value), resolution_{width, height}
 {
 }
 
@@ -585,7 +600,8 @@ Image<float> Image<PixelT>::get_channel(std::size_t channel) const
 template <IsImagePixel PixelT>
 std::size_t Image<PixelT>::to_linear(int x, int y) const noexcept
 {
-    return static_cast<std::size_t>(y * resolution_.width + x);
+    return static_cast<std::size_t>(y) * static_cast<std::size_t>(resolution_.width) +
+           static_cast<std::size_t>(x);
 }
 
 /**
-- 
2.43.0


From 691a124834ac8b84c31fd43bce3ccb00e8519430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 39/75] fix: FITS writing reports data lost while it is flushed
 to the disk

---
 include/huira_impl/images/io/fits_io.ipp | 49 ++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index cf1fecc..74e8d78 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -3,6 +3,9 @@
 #include <algorithm>
 #include <cassert>
 #include <cmath>
+#include <cstddef>
+#include <cstdio>
+#include <cstdlib>
 #include <cstring>
 #include <limits>
 #include <stdexcept>
@@ -51,6 +54,18 @@ struct FitsFile {
     FitsFile& operator=(const FitsFile&) = delete;
 };
 
+// Memory that CFITSIO writes a file into; must outlive the fitsfile.
+struct FitsMemory {
+    void* data = nullptr;
+    std::size_t capacity = 0;
+
+    ~FitsMemory() { std::free(data); }
+
+    FitsMemory() = default;
+    FitsMemory(const FitsMemory&) = delete;
+    FitsMemory& operator=(const FitsMemory&) = delete;
+};
+
 // -------------- Write helpers ------------------------------------
 
 inline void write_string_key(
@@ -558,11 +573,12 @@ inline void write_image_fits(const fs::path& filepath,
 
     make_path(filepath);
 
+    // CFITSIO ignores errors when it flushes a file to the disk, so it writes to memory
+    detail::FitsMemory memory;
     detail::FitsFile ff;
     int status = 0;
 
-    const std::string cfitsio_path = "!" + filepath.string();
-    fits_create_file(&ff.fptr, cfitsio_path.c_str(), &status);
+    fits_create_memfile(&ff.fptr, &memory.data, &memory.capacity, 0, std::realloc, &status);
     detail::fits_check(status, "create " + filepath.string());
 
     // --- Create image HDU ---
@@ -677,11 +693,38 @@ inline void write_image_fits(const fs::path& filepath,
     fits_write_pix(ff.fptr, TFLOAT, fpixel, npixels, buffer.data(), &status);
     detail::fits_check(status, "write pixels");
 
-    // Buffered data may only fail to arrive when the file is closed
+    // The file ends where the data unit of its only HDU ends
+    fits_flush_file(ff.fptr, &status);
+    LONGLONG file_size = 0;
+    fits_get_hduaddrll(ff.fptr, nullptr, nullptr, &file_size, &status);
+    detail::fits_check(status, "complete " + filepath.string());
+
     fitsfile* fptr = ff.fptr;
     ff.fptr = nullptr;
     fits_close_file(fptr, &status);
     detail::fits_check(status, "close " + filepath.string());
+
+#ifdef _MSC_VER
+    FILE* fp = nullptr;
+    if (fopen_s(&fp, filepath.string().c_str(), "wb") != 0) {
+        fp = nullptr;
+    }
+#else
+    FILE* fp = fopen(filepath.string().c_str(), "wb");
+#endif
+    if (!fp) {
+        HUIRA_THROW_ERROR("write_image_fits - Failed to open file for writing: " +
+                          filepath.string());
+    }
+
+    std::size_t written = fwrite(memory.data, 1, static_cast<std::size_t>(file_size), fp);
+    // Buffered data may only fail to arrive when the file is closed
+    bool closed = fclose(fp) == 0;
+
+    if (written != static_cast<std::size_t>(file_size) || !closed) {
+        HUIRA_THROW_ERROR("write_image_fits - Failed to write complete FITS data: " +
+                          filepath.string());
+    }
 }
 
 } // namespace huira
-- 
2.43.0


From a557833e6eb7279b320d3798a71d06d5646f2e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 40/75] fix: a full-scale pixel can be written to 32-bit FITS

---
 include/huira_impl/images/io/fits_io.ipp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index 74e8d78..507e59b 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -426,6 +426,16 @@ inline double bitpix_max(int bitpix)
     }
 }
 
+// The largest float that does not exceed bitpix_max (as a float, that of 32 bits is rounded up).
+inline float bitpix_max_float(int bitpix)
+{
+    float max = static_cast<float>(bitpix_max(bitpix));
+    if (static_cast<double>(max) > bitpix_max(bitpix)) {
+        max = std::nextafter(max, 0.f);
+    }
+    return max;
+}
+
 inline long fits_blank_value(int bit_depth)
 {
     switch (bit_depth) {
@@ -660,7 +670,7 @@ inline void write_image_fits(const fs::path& filepath,
                     float lo = (bit_depth == 8) ? 1.f : 0.f;
                     px = std::clamp(px * static_cast<float>(adc_max),
                                     lo,
-                                    static_cast<float>(detail::bitpix_max(bit_depth)));
+                                    detail::bitpix_max_float(bit_depth));
                 }
                 dst[x] = px;
                 actual_min = std::min(actual_min, px);
-- 
2.43.0


From dc02231ac073fd8d4895131b926619710de9e76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 41/75] fix: FITS images with further axes of length 1 were
 read past an array

---
 include/huira_impl/images/io/fits_io.ipp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index 507e59b..471567b 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -465,9 +465,10 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
     // --- Image dimensions & type ---
     int bitpix = 0;
     int naxis = 0;
-    long naxes[3] = {0, 0, 0};
+    constexpr int max_axes = 9;
+    long naxes[max_axes] = {};
 
-    fits_get_img_param(ff.fptr, 3, &bitpix, &naxis, naxes, &status);
+    fits_get_img_param(ff.fptr, max_axes, &bitpix, &naxis, naxes, &status);
     detail::fits_check(status, "get image params");
 
     if (naxis < 2) {
@@ -488,6 +489,15 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
                           ").  Use read_image_fits_cube() for multi-band images.");
     }
 
+    bool is_flat = naxis <= max_axes;
+    for (int axis = 2; axis < std::min(naxis, max_axes); ++axis) {
+        is_flat = is_flat && naxes[axis] == 1;
+    }
+    if (!is_flat) {
+        HUIRA_THROW_ERROR("FITS file with NAXIS=" + std::to_string(naxis) +
+                          " does not hold a single image.");
+    }
+
     if (naxes[0] < 0 || naxes[1] < 0 || naxes[0] > std::numeric_limits<int>::max() ||
         naxes[1] > std::numeric_limits<int>::max()) {
         HUIRA_THROW_ERROR("FITS image dimensions out of range (" + std::to_string(naxes[0]) +
@@ -505,7 +515,9 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
     const long npixels = static_cast<long>(width) * height;
     std::vector<float> buffer(static_cast<std::size_t>(npixels));
 
-    long fpixel[2] = {1, 1};
+    // (CFITSIO takes as many elements from fpixel as the file has axes)
+    long fpixel[max_axes];
+    std::fill_n(fpixel, max_axes, 1L);
     int anynul = 0;
 
     fits_read_pix(ff.fptr, TFLOAT, fpixel, npixels, nullptr, buffer.data(), &anynul, &status);
-- 
2.43.0


From bc7bdaa29207687577cbe9b828424b9129bace8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 42/75] fix: a FITS header cannot claim more memory than its
 data needs

---
 include/huira_impl/images/io/fits_io.ipp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index 471567b..a4e830c 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -513,15 +513,18 @@ inline std::pair<Image<float>, FitsMetadata> read_image_fits(const fs::path& fil
     // --- Read pixel data ---
     // CFITSIO converts any on-disk type to TFLOAT and applies BZERO/BSCALE.
     const long npixels = static_cast<long>(width) * height;
-    std::vector<float> buffer(static_cast<std::size_t>(npixels));
+    std::vector<float> buffer;
 
-    // (CFITSIO takes as many elements from fpixel as the file has axes)
-    long fpixel[max_axes];
-    std::fill_n(fpixel, max_axes, 1L);
+    // The buffer grows with the data that can be read, as a damaged header may claim any size
+    constexpr long chunk = 1L << 20;
     int anynul = 0;
 
-    fits_read_pix(ff.fptr, TFLOAT, fpixel, npixels, nullptr, buffer.data(), &anynul, &status);
-    detail::fits_check(status, "read pixels");
+    for (long first = 0; first < npixels; first += chunk) {
+        const long count = std::min(chunk, npixels - first);
+        buffer.resize(static_cast<std::size_t>(first + count));
+        fits_read_img(ff.fptr, TFLOAT, first + 1, count, nullptr, buffer.data() + first, &anynul, &status);
+        detail::fits_check(status, "read pixels");
+    }
 
     // --- Normalise integer data to [0, 1] ---
     //
-- 
2.43.0


From f5d640f838f233bec5ee29b5ebb848a94b7ea3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 43/75] fix: an allocation failing while a TIFF or FITS file is
 opened leaked the handle

---
 include/huira_impl/images/io/fits_io.ipp | 9 +++++----
 include/huira_impl/images/io/tiff_io.ipp | 8 +++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/huira_impl/images/io/fits_io.ipp b/include/huira_impl/images/io/fits_io.ipp
index a4e830c..2b04497 100644
--- a/include/huira_impl/images/io/fits_io.ipp
+++ b/include/huira_impl/images/io/fits_io.ipp
@@ -729,22 +729,23 @@ inline void write_image_fits(const fs::path& filepath,
     fits_close_file(fptr, &status);
     detail::fits_check(status, "close " + filepath.string());
 
+    const std::string path = filepath.string();
 #ifdef _MSC_VER
     FILE* fp = nullptr;
-    if (fopen_s(&fp, filepath.string().c_str(), "wb") != 0) {
+    if (fopen_s(&fp, path.c_str(), "wb") != 0) {
         fp = nullptr;
     }
 #else
-    FILE* fp = fopen(filepath.string().c_str(), "wb");
+    FILE* fp = fopen(path.c_str(), "wb");
 #endif
     if (!fp) {
         HUIRA_THROW_ERROR("write_image_fits - Failed to open file for writing: " +
                           filepath.string());
     }
 
-    std::size_t written = fwrite(memory.data, 1, static_cast<std::size_t>(file_size), fp);
+    const std::size_t written = fwrite(memory.data, 1, static_cast<std::size_t>(file_size), fp);
     // Buffered data may only fail to arrive when the file is closed
-    bool closed = fclose(fp) == 0;
+    const bool closed = fclose(fp) == 0;
 
     if (written != static_cast<std::size_t>(file_size) || !closed) {
         HUIRA_THROW_ERROR("write_image_fits - Failed to write complete FITS data: " +
diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 52eac96..91f55d0 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -718,19 +718,21 @@ inline toff_t tiff_file_size_(thandle_t handle) noexcept
  */
 inline ScopedTIFF open_tiff_for_writing_(const fs::path& filepath, TiffFileState_& state)
 {
+    const std::string path = filepath.string(); // may throw, so not while the file is open
+
 #ifdef _MSC_VER
-    if (fopen_s(&state.fp, filepath.string().c_str(), "wb+") != 0) {
+    if (fopen_s(&state.fp, path.c_str(), "wb+") != 0) {
         state.fp = nullptr;
     }
 #else
-    state.fp = fopen(filepath.string().c_str(), "wb+");
+    state.fp = fopen(path.c_str(), "wb+");
 #endif
     if (!state.fp) {
         HUIRA_THROW_ERROR("write_image_tiff - Failed to open file for writing: " +
                           filepath.string());
     }
 
-    ScopedTIFF tif(TIFFClientOpen(filepath.string().c_str(),
+    ScopedTIFF tif(TIFFClientOpen(path.c_str(),
                                   "w",
                                   reinterpret_cast<thandle_t>(&state),
                                   tiff_file_read_,
-- 
2.43.0


From 4f65754b45445469140a40c638156322e151d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 44/75] fix: a TIFF whose end cannot be found while writing is
 reported

---
 include/huira_impl/images/io/tiff_io.ipp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index 91f55d0..fef61b3 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -707,10 +707,14 @@ inline toff_t tiff_file_size_(thandle_t handle) noexcept
 {
     auto* state = reinterpret_cast<TiffFileState_*>(handle);
     long pos = std::ftell(state->fp);
-    std::fseek(state->fp, 0, SEEK_END);
-    long size = std::ftell(state->fp);
-    std::fseek(state->fp, pos, SEEK_SET);
-    return static_cast<toff_t>(size < 0 ? 0 : size);
+    if (pos >= 0 && std::fseek(state->fp, 0, SEEK_END) == 0) {
+        long size = std::ftell(state->fp);
+        if (size >= 0 && std::fseek(state->fp, pos, SEEK_SET) == 0) {
+            return static_cast<toff_t>(size);
+        }
+    }
+    state->failed = true;
+    return 0;
 }
 
 /**
-- 
2.43.0


From 62c047ddfa02e9a1f66b2d7a473c4328dae3a924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 45/75] fix: a failing position query while a TIFF is written
 is reported

---
 include/huira_impl/images/io/tiff_io.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/tiff_io.ipp b/include/huira_impl/images/io/tiff_io.ipp
index fef61b3..0fd9cc1 100644
--- a/include/huira_impl/images/io/tiff_io.ipp
+++ b/include/huira_impl/images/io/tiff_io.ipp
@@ -686,11 +686,15 @@ inline tsize_t tiff_file_write_(thandle_t handle, tdata_t buf, tsize_t n) noexce
 inline toff_t tiff_file_seek_(thandle_t handle, toff_t offset, int whence) noexcept
 {
     auto* state = reinterpret_cast<TiffFileState_*>(handle);
-    if (std::fseek(state->fp, static_cast<long>(offset), whence) != 0) {
+    long pos = -1;
+    if (std::fseek(state->fp, static_cast<long>(offset), whence) == 0) {
+        pos = std::ftell(state->fp);
+    }
+    if (pos < 0) {
         state->failed = true;
         return static_cast<toff_t>(-1);
     }
-    return static_cast<toff_t>(std::ftell(state->fp));
+    return static_cast<toff_t>(pos);
 }
 
 inline int tiff_file_close_(thandle_t handle) noexcept
-- 
2.43.0


From fb57229d697cc89df2e0fb02f8c52dfd7b52debc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 46/75] fix: running out of memory while a view collects its
 instances ended the process

---
 include/huira_impl/scene/scene_view.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 93885c9..58c7a01 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -461,7 +461,7 @@ void SceneView<TSpectral>::traverse_and_collect_(
         }
 
         const auto& asset_var = instance->asset();
-        std::visit([&](auto* raw_ptr) noexcept { handle_asset_ptr_(raw_ptr, render_transforms); },
+        std::visit([&](auto* raw_ptr) { handle_asset_ptr_(raw_ptr, render_transforms); },
                    asset_var);
     }
 
@@ -616,7 +616,7 @@ void SceneView<TSpectral>::traverse_model_graph_(
 
     if (auto instance = std::dynamic_pointer_cast<Instance<TSpectral>>(node)) {
         const auto& asset_var = instance->asset();
-        std::visit([&](auto* raw_ptr) noexcept { handle_asset_ptr_(raw_ptr, current_transforms); },
+        std::visit([&](auto* raw_ptr) { handle_asset_ptr_(raw_ptr, current_transforms); },
                    asset_var);
     }
 
-- 
2.43.0


From 18cce8f0556b180eb7c52f9f0751cbd47d5282e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 47/75] fix: a view whose scene cannot be built leaked it,
 crashed or rendered nothing

---
 include/huira/scene/embree_device.hpp   | 10 ++++
 include/huira/scene/scene_view.hpp      |  3 +-
 include/huira_impl/scene/scene_view.ipp | 62 +++++++++++++++++--------
 3 files changed, 55 insertions(+), 20 deletions(-)

diff --git a/include/huira/scene/embree_device.hpp b/include/huira/scene/embree_device.hpp
index f8506c5..8598596 100644
--- a/include/huira/scene/embree_device.hpp
+++ b/include/huira/scene/embree_device.hpp
@@ -26,8 +26,18 @@ struct RTCSceneDeleter {
     }
 };
 
+struct RTCGeometryDeleter {
+    void operator()(RTCGeometry geometry) const noexcept
+    {
+        if (geometry) {
+            rtcReleaseGeometry(geometry);
+        }
+    }
+};
+
 using UniqueRTCDevice = std::unique_ptr<std::remove_pointer_t<RTCDevice>, RTCDeviceDeleter>;
 using UniqueRTCScene = std::unique_ptr<std::remove_pointer_t<RTCScene>, RTCSceneDeleter>;
+using UniqueRTCGeometry = std::unique_ptr<std::remove_pointer_t<RTCGeometry>, RTCGeometryDeleter>;
 
 class EmbreeDevice {
   public:
diff --git a/include/huira/scene/scene_view.hpp b/include/huira/scene/scene_view.hpp
index e84da50..f2e450a 100644
--- a/include/huira/scene/scene_view.hpp
+++ b/include/huira/scene/scene_view.hpp
@@ -116,9 +116,10 @@ class SceneView {
     std::shared_ptr<Image<TSpectral>> background_;
 
     void build_tlas_();
+    void check_embree_(bool created, const char* action) const;
 
     std::shared_ptr<EmbreeDevice> device_ = nullptr;
-    RTCScene tlas_ = nullptr;
+    UniqueRTCScene tlas_ = nullptr;
 
     uint32_t MASK_GEOMETRY_ = 0x01;
     uint32_t MASK_LIGHT_ = 0x02;
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 58c7a01..38244b3 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -193,9 +193,6 @@ template <IsSpectral TSpectral>
 SceneView<TSpectral>::~SceneView()
 {
     HUIRA_TRACE_SCOPE("SceneView::~SceneView");
-    if (tlas_) {
-        rtcReleaseScene(tlas_);
-    }
 }
 
 template <IsSpectral TSpectral>
@@ -239,7 +236,7 @@ SceneView<TSpectral>::intersect(const Ray<TSpectral>& ray, float time, unsigned
     args.context = &context; // Pass &context directly
 
     // Pass the args into the trace call
-    rtcIntersect1(tlas_, &rayhit, &args);
+    rtcIntersect1(tlas_.get(), &rayhit, &args);
 
     HitRecord rec;
     if (rayhit.hit.geomID != RTC_INVALID_GEOMETRY_ID) {
@@ -631,10 +628,11 @@ void SceneView<TSpectral>::traverse_model_graph_(
 template <IsSpectral TSpectral>
 void SceneView<TSpectral>::build_tlas_()
 {
-    tlas_ = rtcNewScene(device_->get());
+    tlas_.reset(rtcNewScene(device_->get()));
+    check_embree_(tlas_ != nullptr, "create the scene");
     bool motion_blur = (temporal_samples_.size() != 1);
     if (motion_blur) {
-        rtcSetSceneFlags(tlas_, RTC_SCENE_FLAG_DYNAMIC);
+        rtcSetSceneFlags(tlas_.get(), RTC_SCENE_FLAG_DYNAMIC);
     }
 
     // Add Primitives
@@ -645,7 +643,10 @@ void SceneView<TSpectral>::build_tlas_()
         for (std::size_t inst_idx = 0; inst_idx < batch.instances.size(); ++inst_idx) {
             std::size_t N = batch.instances[inst_idx].size();
 
-            RTCGeometry inst_geom = rtcNewGeometry(device_->get(), RTC_GEOMETRY_TYPE_INSTANCE);
+            UniqueRTCGeometry instance_owner{
+                rtcNewGeometry(device_->get(), RTC_GEOMETRY_TYPE_INSTANCE)};
+            RTCGeometry inst_geom = instance_owner.get();
+            check_embree_(inst_geom != nullptr, "create an instance");
             rtcSetGeometryInstancedScene(inst_geom, blas);
             rtcSetGeometryTimeStepCount(inst_geom, static_cast<unsigned int>(N));
 
@@ -662,8 +663,8 @@ void SceneView<TSpectral>::build_tlas_()
             rtcSetGeometryMask(inst_geom, MASK_GEOMETRY_);
 
             rtcCommitGeometry(inst_geom);
-            unsigned int geom_id = rtcAttachGeometry(tlas_, inst_geom);
-            rtcReleaseGeometry(inst_geom);
+            unsigned int geom_id = rtcAttachGeometry(tlas_.get(), inst_geom);
+            check_embree_(geom_id != RTC_INVALID_GEOMETRY_ID, "add an instance");
 
             if (geom_id >= instance_mappings_.size()) {
                 instance_mappings_.resize(geom_id + 1);
@@ -694,9 +695,12 @@ void SceneView<TSpectral>::build_tlas_()
         }
 
         // Create a BLAS containing a single static sphere at the origin
-        RTCScene sphere_blas = rtcNewScene(device_->get());
-        RTCGeometry geom = rtcNewGeometry(device_->get(), RTC_GEOMETRY_TYPE_SPHERE_POINT);
-        rtcSetGeometryMask(geom, MASK_LIGHT_);
+        UniqueRTCScene sphere_owner{rtcNewScene(device_->get())};
+        RTCScene sphere_blas = sphere_owner.get();
+        check_embree_(sphere_blas != nullptr, "create a light");
+        UniqueRTCGeometry geometry_owner{
+            rtcNewGeometry(device_->get(), RTC_GEOMETRY_TYPE_SPHERE_POINT)};
+        RTCGeometry geom = geometry_owner.get();
 
         if (!geom) {
             RTCError err = rtcGetDeviceError(device_->get());
@@ -714,6 +718,8 @@ void SceneView<TSpectral>::build_tlas_()
                               std::to_string(static_cast<int>(err)));
         }
 
+        rtcSetGeometryMask(geom, MASK_LIGHT_);
+
         // The sphere itself sits statically at the origin
         vertex[0] = 0.0f;
         vertex[1] = 0.0f;
@@ -722,11 +728,14 @@ void SceneView<TSpectral>::build_tlas_()
 
         rtcCommitGeometry(geom);
         rtcAttachGeometry(sphere_blas, geom);
-        rtcReleaseGeometry(geom);
         rtcCommitScene(sphere_blas);
+        check_embree_(true, "build a light");
 
         // Instance the sphere BLAS into the TLAS
-        RTCGeometry inst_geom = rtcNewGeometry(device_->get(), RTC_GEOMETRY_TYPE_INSTANCE);
+        UniqueRTCGeometry instance_owner{
+            rtcNewGeometry(device_->get(), RTC_GEOMETRY_TYPE_INSTANCE)};
+        RTCGeometry inst_geom = instance_owner.get();
+        check_embree_(inst_geom != nullptr, "create an instance");
         rtcSetGeometryInstancedScene(inst_geom, sphere_blas);
         rtcSetGeometryTimeStepCount(inst_geom, static_cast<unsigned int>(N));
 
@@ -742,11 +751,10 @@ void SceneView<TSpectral>::build_tlas_()
 
         rtcSetGeometryMask(inst_geom, MASK_LIGHT_);
         rtcCommitGeometry(inst_geom);
-        unsigned int geom_id = rtcAttachGeometry(tlas_, inst_geom);
-        rtcReleaseGeometry(inst_geom);
+        unsigned int geom_id = rtcAttachGeometry(tlas_.get(), inst_geom);
+        check_embree_(geom_id != RTC_INVALID_GEOMETRY_ID, "add an instance");
 
-        // Embree reference counts scenes; the instance holds a reference, so we release ours.
-        rtcReleaseScene(sphere_blas);
+        // Embree reference counts geometries and scenes: what is added stays when ours is released.
 
         // Map geom_id back to lights array
         if (geom_id >= instance_mappings_.size()) {
@@ -761,6 +769,22 @@ void SceneView<TSpectral>::build_tlas_()
         instance_mappings_[geom_id] = mapping;
     }
 
-    rtcCommitScene(tlas_);
+    rtcCommitScene(tlas_.get());
+    check_embree_(true, "commit the scene");
+}
+
+/**
+ * @brief Throws if Embree could not do what was asked of it, as it does when memory runs out.
+ * @param created Whether the wanted object was created
+ * @param action What was attempted
+ */
+template <IsSpectral TSpectral>
+void SceneView<TSpectral>::check_embree_(bool created, const char* action) const
+{
+    RTCError error = rtcGetDeviceError(device_->get());
+    if (!created || error != RTC_ERROR_NONE) {
+        HUIRA_THROW_ERROR("SceneView::build_tlas_ - Embree failed to " + std::string(action) +
+                          " (error: " + std::to_string(static_cast<int>(error)) + ").");
+    }
 }
 } // namespace huira
-- 
2.43.0


From e30ca4cb27b31c81ffbc57d66fcfb37c0e2e3288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 48/75] fix: a shape whose acceleration structure could not be
 built was kept half-built

---
 include/huira_impl/geometry/ellipsoid.ipp | 22 +++++++++++++++++-----
 include/huira_impl/geometry/mesh.ipp      | 22 ++++++++++++++--------
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/include/huira_impl/geometry/ellipsoid.ipp b/include/huira_impl/geometry/ellipsoid.ipp
index e3bf293..64cd574 100644
--- a/include/huira_impl/geometry/ellipsoid.ipp
+++ b/include/huira_impl/geometry/ellipsoid.ipp
@@ -54,7 +54,14 @@ Vec2<float> Ellipsoid<TSpectral>::compute_uv(const HitRecord& hit) const
 template <IsSpectral TSpectral>
 void Ellipsoid<TSpectral>::build_blas_() const
 {
-    RTCGeometry geom = rtcNewGeometry(this->device_->get(), RTC_GEOMETRY_TYPE_USER);
+    UniqueRTCGeometry geometry_owner{rtcNewGeometry(this->device_->get(), RTC_GEOMETRY_TYPE_USER)};
+    RTCGeometry geom = geometry_owner.get();
+    UniqueRTCScene blas{rtcNewScene(this->device_->get())};
+    if (!geom || !blas) {
+        HUIRA_THROW_ERROR(
+            "Ellipsoid::build_blas_ - Failed to create the Embree BLAS (error: " +
+            std::to_string(static_cast<int>(rtcGetDeviceError(this->device_->get()))) + ").");
+    }
 
     rtcSetGeometryUserPrimitiveCount(geom, 1);
 
@@ -65,11 +72,16 @@ void Ellipsoid<TSpectral>::build_blas_() const
 
     rtcCommitGeometry(geom);
 
-    this->blas_.reset(rtcNewScene(this->device_->get()));
-    rtcAttachGeometry(this->blas_.get(), geom);
-    rtcReleaseGeometry(geom);
+    rtcAttachGeometry(blas.get(), geom);
+    rtcCommitScene(blas.get());
 
-    rtcCommitScene(this->blas_.get());
+    // Only a BLAS that is complete may be kept:
+    RTCError build_error = rtcGetDeviceError(this->device_->get());
+    if (build_error != RTC_ERROR_NONE) {
+        HUIRA_THROW_ERROR("Ellipsoid::build_blas_ - Failed to build the Embree BLAS (error: " +
+                          std::to_string(static_cast<int>(build_error)) + ").");
+    }
+    this->blas_ = std::move(blas);
 }
 
 template <IsSpectral TSpectral>
diff --git a/include/huira_impl/geometry/mesh.ipp b/include/huira_impl/geometry/mesh.ipp
index eae9e8e..c7fde82 100644
--- a/include/huira_impl/geometry/mesh.ipp
+++ b/include/huira_impl/geometry/mesh.ipp
@@ -108,7 +108,9 @@ Vec2<float> Mesh<TSpectral>::compute_uv(const HitRecord& hit) const
 template <IsSpectral TSpectral>
 void Mesh<TSpectral>::build_blas_() const
 {
-    RTCGeometry geom = rtcNewGeometry(this->device_->get(), RTC_GEOMETRY_TYPE_TRIANGLE);
+    UniqueRTCGeometry geometry_owner{
+        rtcNewGeometry(this->device_->get(), RTC_GEOMETRY_TYPE_TRIANGLE)};
+    RTCGeometry geom = geometry_owner.get();
     if (!geom) {
         HUIRA_THROW_ERROR(
             "Mesh::build_blas_ - Failed to create Embree geometry (error: " +
@@ -136,25 +138,29 @@ void Mesh<TSpectral>::build_blas_() const
     // Check for errors after setting shared buffers (e.g. invalid stride, null pointer):
     RTCError buffer_error = rtcGetDeviceError(this->device_->get());
     if (buffer_error != RTC_ERROR_NONE) {
-        rtcReleaseGeometry(geom);
         HUIRA_THROW_ERROR("Mesh::build_blas_ - Failed to set shared geometry buffers (error: " +
                           std::to_string(static_cast<int>(buffer_error)) + ").");
     }
 
     rtcCommitGeometry(geom);
 
-    this->blas_.reset(rtcNewScene(this->device_->get()));
-    if (!this->blas_) {
-        rtcReleaseGeometry(geom);
+    UniqueRTCScene blas{rtcNewScene(this->device_->get())};
+    if (!blas) {
         HUIRA_THROW_ERROR(
             "Mesh::build_blas_ - Failed to create Embree BLAS scene (error: " +
             std::to_string(static_cast<int>(rtcGetDeviceError(this->device_->get()))) + ").");
     }
 
-    rtcAttachGeometry(this->blas_.get(), geom);
-    rtcReleaseGeometry(geom);
+    rtcAttachGeometry(blas.get(), geom);
+    rtcCommitScene(blas.get());
 
-    rtcCommitScene(this->blas_.get());
+    // Only a BLAS that is complete may be kept:
+    RTCError build_error = rtcGetDeviceError(this->device_->get());
+    if (build_error != RTC_ERROR_NONE) {
+        HUIRA_THROW_ERROR("Mesh::build_blas_ - Failed to build the Embree BLAS (error: " +
+                          std::to_string(static_cast<int>(build_error)) + ").");
+    }
+    this->blas_ = std::move(blas);
 
     HUIRA_LOG_INFO("Built BLAS for Mesh " + std::to_string(this->id()) +
                    " (vertices: " + std::to_string(vertex_buffer_.size()) +
-- 
2.43.0


From cd5f46a91e1ec89f45d1f16629742b252ea9da56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 49/75] fix: a name is kept when set again, and a failing add,
 rename or removal leaves the names as they were

---
 include/huira/scene/name_registry.hpp      |  2 +
 include/huira_impl/scene/name_registry.ipp | 76 +++++++++++++++++-----
 2 files changed, 62 insertions(+), 16 deletions(-)

diff --git a/include/huira/scene/name_registry.hpp b/include/huira/scene/name_registry.hpp
index e921009..93d8423 100644
--- a/include/huira/scene/name_registry.hpp
+++ b/include/huira/scene/name_registry.hpp
@@ -19,6 +19,7 @@ class NameRegistry {
   public:
     void add(std::shared_ptr<T> object, std::string name);
     void remove(std::shared_ptr<T> object);
+    void erase(const T* object) noexcept;
     void set_name(std::shared_ptr<T> object, std::string name);
 
     std::size_t size() const { return objects_.size(); }
@@ -34,6 +35,7 @@ class NameRegistry {
     std::vector<std::shared_ptr<T>> objects_;
     std::unordered_map<std::string, std::shared_ptr<T>> name_registry_;
 
+    bool is_registered_(const std::shared_ptr<T>& object) const;
     std::string make_unique_name_(std::string name) const;
 };
 } // namespace huira
diff --git a/include/huira_impl/scene/name_registry.ipp b/include/huira_impl/scene/name_registry.ipp
index 7ebb185..387a6a3 100644
--- a/include/huira_impl/scene/name_registry.ipp
+++ b/include/huira_impl/scene/name_registry.ipp
@@ -1,7 +1,9 @@
+#include <algorithm>
 #include <cstddef>
 #include <memory>
 #include <string>
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 #include "huira/util/logger.hpp"
@@ -19,14 +21,24 @@ void NameRegistry<T>::add(std::shared_ptr<T> object, std::string name)
     if (name.empty()) {
         name = object->type() + "." + std::to_string(object->id());
     }
-    objects_.push_back(object);
-
-    name = make_unique_name_(name);
-
-    name_registry_[name] = object;
-    object->name_ = name;
+    if (is_registered_(object)) {
+        HUIRA_THROW_ERROR(object->get_info() + " has already been added to the scene");
+    }
 
-    HUIRA_LOG_INFO("Scene - Added: " + object->get_info());
+    // Nothing may be left behind if any of this fails:
+    const std::size_t count = objects_.size();
+    std::string old_name = object->name_;
+    object->name_ = make_unique_name_(std::move(name));
+    try {
+        HUIRA_LOG_INFO("Scene - Added: " + object->get_info());
+        objects_.push_back(object);
+        name_registry_.emplace(object->name_, object);
+    } catch (...) {
+        objects_.resize(count);
+        object->name_.swap(old_name);
+        throw;
+    }
+    object->set_scene_owned(true);
 }
 
 /**
@@ -36,17 +48,31 @@ void NameRegistry<T>::add(std::shared_ptr<T> object, std::string name)
 template <typename T>
 void NameRegistry<T>::remove(std::shared_ptr<T> object)
 {
-    auto it = std::find(objects_.begin(), objects_.end(), object);
-    if (it == objects_.end()) {
+    if (std::find(objects_.begin(), objects_.end(), object) == objects_.end()) {
         HUIRA_THROW_ERROR(object->get_info() + " does not exist in the scene");
     }
 
-    object->set_scene_owned(false);
+    HUIRA_LOG_INFO("Scene - Deleted: " + object->get_info());
+    erase(object.get());
+}
 
-    objects_.erase(it);
-    name_registry_.erase(object->name());
+/**
+ * @brief Removes an object from the registry if it is there. Cannot fail.
+ * @tparam T Scene object type
+ * @param object Object to remove
+ */
+template <typename T>
+void NameRegistry<T>::erase(const T* object) noexcept
+{
+    auto it = name_registry_.find(object->name_);
+    if (it == name_registry_.end() || it->second.get() != object) {
+        return;
+    }
 
-    HUIRA_LOG_INFO("Scene - Deleted: " + object->get_info());
+    std::shared_ptr<T> kept = std::move(it->second);
+    kept->set_scene_owned(false);
+    name_registry_.erase(it);
+    objects_.erase(std::find(objects_.begin(), objects_.end(), kept));
 }
 
 /**
@@ -57,16 +83,23 @@ void NameRegistry<T>::remove(std::shared_ptr<T> object)
 template <typename T>
 void NameRegistry<T>::set_name(std::shared_ptr<T> object, std::string name)
 {
-    std::string new_name = make_unique_name_(name);
     std::string old_name = object->name();
+    if (name == old_name) {
+        return;
+    }
+
+    if (!is_registered_(object)) {
+        HUIRA_THROW_ERROR(object->get_info() + " does not exist in the scene");
+    }
 
+    std::string new_name = make_unique_name_(std::move(name));
     if (new_name == old_name) {
         return;
     }
 
+    name_registry_.emplace(new_name, object);
     name_registry_.erase(old_name);
-    name_registry_[new_name] = object;
-    object->name_ = new_name;
+    object->name_ = std::move(new_name);
 }
 
 /**
@@ -84,6 +117,17 @@ std::shared_ptr<T> NameRegistry<T>::lookup(const std::string& name) const
     return it->second;
 }
 
+/**
+ * @brief Whether an object is registered, under its name.
+ * @param object Object to look for
+ */
+template <typename T>
+bool NameRegistry<T>::is_registered_(const std::shared_ptr<T>& object) const
+{
+    auto it = name_registry_.find(object->name_);
+    return it != name_registry_.end() && it->second == object;
+}
+
 /**
  * @brief Make a name unique within the registry.
  * @param name Desired name
-- 
2.43.0


From a59ed3b7c0f49d46aa35ec9bbe2d8daf41a8a862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 50/75] fix: handles of deleted nodes that something else keeps
 alive stayed valid

---
 include/huira/scene/frame_node.hpp      |  3 ++
 include/huira_impl/scene/frame_node.ipp | 53 ++++++++++++++++++-------
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/include/huira/scene/frame_node.hpp b/include/huira/scene/frame_node.hpp
index 3777212..b31b981 100644
--- a/include/huira/scene/frame_node.hpp
+++ b/include/huira/scene/frame_node.hpp
@@ -64,6 +64,9 @@ class FrameNode : public Node<TSpectral> {
   protected:
     std::vector<std::shared_ptr<Node<TSpectral>>> children_;
 
+    void remove_child_(const Node<TSpectral>* child) noexcept;
+    static void disown_(Node<TSpectral>* node) noexcept;
+
     bool position_must_be_spice_() const override;
     bool rotation_must_be_spice_() const override;
 
diff --git a/include/huira_impl/scene/frame_node.ipp b/include/huira_impl/scene/frame_node.ipp
index f794a1d..01c4cbc 100644
--- a/include/huira_impl/scene/frame_node.ipp
+++ b/include/huira_impl/scene/frame_node.ipp
@@ -1,5 +1,4 @@
 #include <algorithm>
-#include <functional>
 #include <memory>
 #include <string>
 
@@ -53,21 +52,9 @@ void FrameNode<TSpectral>::delete_child(std::weak_ptr<Node<TSpectral>> child_wea
             " - delete_child() called with a child that does not belong to this node");
     }
 
-    auto it = std::find(children_.begin(), children_.end(), child);
-    if (it != children_.end()) {
+    if (std::find(children_.begin(), children_.end(), child) != children_.end()) {
         HUIRA_LOG_INFO(this->get_info() + " - Deleting " + child->get_info());
-        // Only named nodes are registered, and whatever hangs below the child goes with it:
-        std::function<void(const std::shared_ptr<Node<TSpectral>>&)> unregister =
-            [&](const std::shared_ptr<Node<TSpectral>>& node) {
-                if (!node->name().empty()) {
-                    this->scene_->node_registry_.remove(node);
-                }
-                for (const auto& grandchild : node->get_children()) {
-                    unregister(grandchild);
-                }
-            };
-        unregister(child);
-        children_.erase(it);
+        remove_child_(child.get());
     }
 }
 
@@ -159,6 +146,42 @@ FrameNode<TSpectral>::new_instance(CameraModel<TSpectral>* camera_model)
 // === Protected Members === //
 // ========================= //
 
+/**
+ * @brief Removes a child and everything below it. Cannot fail.
+ * @param child The child to remove
+ */
+template <IsSpectral TSpectral>
+void FrameNode<TSpectral>::remove_child_(const Node<TSpectral>* child) noexcept
+{
+    auto it = std::find_if(children_.begin(),
+                           children_.end(),
+                           [child](const std::shared_ptr<Node<TSpectral>>& node) {
+                               return node.get() == child;
+                           });
+    if (it != children_.end()) {
+        std::shared_ptr<Node<TSpectral>> removed = *it;
+        children_.erase(it);
+        disown_(removed.get());
+    }
+}
+
+/**
+ * @brief Marks a node and everything below it as no longer part of the scene. Cannot fail.
+ * @param node The node to disown
+ */
+template <IsSpectral TSpectral>
+void FrameNode<TSpectral>::disown_(Node<TSpectral>* node) noexcept
+{
+    if (node->scene_) {
+        node->scene_->node_registry_.erase(node);
+    }
+    node->set_scene_owned(false);
+    node->parent_ = nullptr;
+    for (const auto& child : node->get_children()) {
+        disown_(child.get());
+    }
+}
+
 /**
  * @brief Check if manual position is allowed (no child uses SPICE).
  * @return bool True if allowed
-- 
2.43.0


From 730bcae116be364d8eefccc3817ae01950056da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 51/75] fix: deleting an asset left its instances in models
 dangling, and could be left half done

---
 include/huira/assets/model.hpp     |   4 ++
 include/huira/scene/scene.hpp      |   7 +-
 include/huira_impl/scene/scene.ipp | 106 ++++++++++++++++-------------
 3 files changed, 68 insertions(+), 49 deletions(-)

diff --git a/include/huira/assets/model.hpp b/include/huira/assets/model.hpp
index 8cddd63..1538d1c 100644
--- a/include/huira/assets/model.hpp
+++ b/include/huira/assets/model.hpp
@@ -16,6 +16,9 @@ namespace fs = std::filesystem;
 
 namespace huira {
 
+template <IsSpectral TSpectral>
+class Scene;
+
 template <IsSpectral TSpectral>
 class SceneView;
 
@@ -62,6 +65,7 @@ class Model : public SceneObject<Model<TSpectral>> {
 
     friend class ModelLoader<TSpectral>;
     friend class SceneView<TSpectral>;
+    friend class Scene<TSpectral>;
 };
 
 } // namespace huira
diff --git a/include/huira/scene/scene.hpp b/include/huira/scene/scene.hpp
index 1589e00..970ca8b 100644
--- a/include/huira/scene/scene.hpp
+++ b/include/huira/scene/scene.hpp
@@ -5,6 +5,7 @@
 #include <stdexcept>
 #include <string>
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 #include "huira/assets/io/model_loader.hpp"
@@ -279,7 +280,11 @@ class Scene {
     void print_node_details_(const Node<TSpectral>* node) const;
 
     template <typename TAssetPtr>
-    void prune_graph_references_(TAssetPtr target_ptr);
+    std::vector<std::pair<FrameNode<TSpectral>*, const Node<TSpectral>*>>
+    find_instances_(TAssetPtr target_ptr) const;
+
+    template <typename TAsset>
+    void delete_asset_(NameRegistry<TAsset>& registry, const std::shared_ptr<TAsset>& asset);
 
     std::shared_ptr<Node<TSpectral>> find_node_shared_ptr_(const Node<TSpectral>* target) const;
     std::shared_ptr<Node<TSpectral>>
diff --git a/include/huira_impl/scene/scene.ipp b/include/huira_impl/scene/scene.ipp
index eb4445d..a409798 100644
--- a/include/huira_impl/scene/scene.ipp
+++ b/include/huira_impl/scene/scene.ipp
@@ -1,3 +1,4 @@
+#include <functional>
 #include <iostream>
 #include <stdexcept>
 
@@ -202,19 +203,25 @@ void Scene<TSpectral>::delete_geometry(const GeometryHandle<TSpectral>& geom_han
 
     Geometry<TSpectral>* target_ptr = geom_shared.get();
 
-    std::vector<std::shared_ptr<Primitive<TSpectral>>> primitives_to_purge;
+    std::vector<const Primitive<TSpectral>*> primitives_to_purge;
+    std::vector<std::pair<FrameNode<TSpectral>*, const Node<TSpectral>*>> instances;
 
     for (const auto& prim_ptr : primitives_) {
         if (prim_ptr->geometry.get() == target_ptr) {
-            primitives_to_purge.push_back(prim_ptr);
+            primitives_to_purge.push_back(prim_ptr.get());
+            auto found = find_instances_(prim_ptr.get());
+            instances.insert(instances.end(), found.begin(), found.end());
         }
     }
 
-    for (auto& prim_shared : primitives_to_purge) {
-        delete_primitive(PrimitiveHandle<TSpectral>{prim_shared});
-    }
-
+    // From here on nothing can fail once the geometry itself is removed:
     geometries_.remove(geom_shared);
+    for (const auto& [frame, instance] : instances) {
+        frame->remove_child_(instance);
+    }
+    for (const Primitive<TSpectral>* primitive : primitives_to_purge) {
+        primitives_.erase(primitive);
+    }
 }
 
 /**
@@ -334,8 +341,7 @@ void Scene<TSpectral>::delete_primitive(const PrimitiveHandle<TSpectral>& primit
     if (!primitive_shared) {
         return;
     }
-    prune_graph_references_(primitive_shared.get());
-    primitives_.remove(primitive_shared);
+    delete_asset_(primitives_, primitive_shared);
 }
 
 /**
@@ -449,8 +455,7 @@ template <IsSpectral TSpectral>
 void Scene<TSpectral>::delete_light(const LightHandle<TSpectral>& light_handle)
 {
     auto light_shared = light_handle.get();
-    prune_graph_references_(light_shared.get());
-    lights_.remove(light_shared);
+    delete_asset_(lights_, light_shared);
 }
 
 /**
@@ -684,8 +689,7 @@ void Scene<TSpectral>::delete_unresolved_object(
     const UnresolvedObjectHandle<TSpectral>& unresolved_object_handle)
 {
     auto unresolved_object_shared = unresolved_object_handle.get();
-    prune_graph_references_(unresolved_object_shared.get());
-    unresolved_objects_.remove(unresolved_object_shared);
+    delete_asset_(unresolved_objects_, unresolved_object_shared);
 }
 
 /**
@@ -732,8 +736,7 @@ template <IsSpectral TSpectral>
 void Scene<TSpectral>::delete_camera_model(const CameraModelHandle<TSpectral>& camera_model_handle)
 {
     auto camera_model_shared = camera_model_handle.get();
-    prune_graph_references_(camera_model_shared.get());
-    camera_models_.remove(camera_model_shared);
+    delete_asset_(camera_models_, camera_model_shared);
 }
 
 /**
@@ -783,8 +786,7 @@ template <IsSpectral TSpectral>
 void Scene<TSpectral>::delete_model(const ModelHandle<TSpectral>& model_handle)
 {
     auto model_shared = model_handle.get();
-    prune_graph_references_(model_shared.get());
-    models_.remove(model_shared);
+    delete_asset_(models_, model_shared);
 }
 
 template <IsSpectral TSpectral>
@@ -1107,47 +1109,55 @@ void Scene<TSpectral>::prune_unreferenced_assets()
 }
 
 /**
- * @brief Removes references to an asset from the scene graph.
+ * @brief Finds all instances of an asset, in the scene graph and in the graphs of the models.
  * @tparam TAssetPtr Pointer type of the asset
- * @param target_ptr Pointer to the asset to prune
+ * @param target_ptr Pointer to the asset to look for
+ * @return The instances, each with the frame it is in
  */
 template <IsSpectral TSpectral>
 template <typename TAssetPtr>
-void Scene<TSpectral>::prune_graph_references_(TAssetPtr target_ptr)
-{
-    std::function<void(Node<TSpectral>*)> prune_references = [&](Node<TSpectral>* parent) {
-        std::vector<std::shared_ptr<Node<TSpectral>>> children_snapshot(
-            parent->get_children().begin(), parent->get_children().end());
-
-        for (const auto& child_node : children_snapshot) {
-            bool deleted = false;
-
-            if (auto instance = std::dynamic_pointer_cast<Instance<TSpectral>>(child_node)) {
-                const auto& asset_var = instance->asset();
-
-                // We check if the variant holds specific pointer type:
-                if (std::holds_alternative<TAssetPtr>(asset_var)) {
-                    // Compare the pointers
-                    if (std::get<TAssetPtr>(asset_var) == target_ptr) {
-
-                        if (auto* frame_parent = dynamic_cast<FrameNode<TSpectral>*>(parent)) {
-                            frame_parent->delete_child(child_node);
-                            deleted = true;
-                        } else {
-                            HUIRA_THROW_ERROR("Attempted to delete child from a non-FrameNode!");
-                        }
-                    }
+std::vector<std::pair<FrameNode<TSpectral>*, const Node<TSpectral>*>>
+Scene<TSpectral>::find_instances_(TAssetPtr target_ptr) const
+{
+    std::vector<std::pair<FrameNode<TSpectral>*, const Node<TSpectral>*>> found;
+    std::function<void(Node<TSpectral>*)> search = [&](Node<TSpectral>* parent) {
+        for (const auto& child : parent->get_children()) {
+            if (auto* instance = dynamic_cast<Instance<TSpectral>*>(child.get())) {
+                auto* asset = std::get_if<TAssetPtr>(&instance->asset());
+                if (asset && *asset == target_ptr) {
+                    found.emplace_back(dynamic_cast<FrameNode<TSpectral>*>(parent), instance);
                 }
             }
-
-            // Recurse if the node itself wasn't deleted
-            if (!deleted) {
-                prune_references(child_node.get());
-            }
+            search(child.get());
         }
     };
+
     if (root_node_) {
-        prune_references(root_node_.get());
+        search(root_node_.get());
+    }
+    for (const auto& model : models_) {
+        if (model->root_node_) {
+            search(model->root_node_.get());
+        }
+    }
+    return found;
+}
+
+/**
+ * @brief Removes an asset from its registry, and all its instances. Either all of it or, if it
+ * fails, none.
+ * @param registry The registry of the asset
+ * @param asset The asset to delete
+ */
+template <IsSpectral TSpectral>
+template <typename TAsset>
+void Scene<TSpectral>::delete_asset_(NameRegistry<TAsset>& registry,
+                                     const std::shared_ptr<TAsset>& asset)
+{
+    auto instances = find_instances_(asset.get());
+    registry.remove(asset);
+    for (const auto& [frame, instance] : instances) {
+        frame->remove_child_(instance);
     }
 }
 
-- 
2.43.0


From fc56de73bb17eb8cf3f6398a982bdb77e3daf6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 52/75] fix: a refused SPICE subframe was left in the scene

---
 include/huira/scene/frame_node.hpp            |  2 ++
 .../huira_impl/handles/scene/frame_handle.ipp |  4 +---
 include/huira_impl/scene/frame_node.ipp       | 21 +++++++++++++++++++
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/huira/scene/frame_node.hpp b/include/huira/scene/frame_node.hpp
index b31b981..26c0227 100644
--- a/include/huira/scene/frame_node.hpp
+++ b/include/huira/scene/frame_node.hpp
@@ -44,6 +44,8 @@ class FrameNode : public Node<TSpectral> {
     FrameNode& operator=(const FrameNode&) = delete;
 
     std::weak_ptr<FrameNode<TSpectral>> new_child();
+    std::weak_ptr<FrameNode<TSpectral>> new_spice_child(const std::string& spice_origin,
+                                                        const std::string& spice_frame);
 
     void delete_child(std::weak_ptr<Node<TSpectral>> child);
 
diff --git a/include/huira_impl/handles/scene/frame_handle.ipp b/include/huira_impl/handles/scene/frame_handle.ipp
index 88011b7..e0b6fe1 100644
--- a/include/huira_impl/handles/scene/frame_handle.ipp
+++ b/include/huira_impl/handles/scene/frame_handle.ipp
@@ -20,9 +20,7 @@ FrameHandle<TSpectral>
 FrameHandle<TSpectral>::new_spice_subframe(const std::string& spice_origin,
                                            const std::string& spice_frame) const
 {
-    FrameHandle<TSpectral> subframe = this->new_subframe();
-    subframe.set_spice(spice_origin, spice_frame);
-    return subframe;
+    return FrameHandle<TSpectral>{this->get_()->new_spice_child(spice_origin, spice_frame)};
 }
 
 /**
diff --git a/include/huira_impl/scene/frame_node.ipp b/include/huira_impl/scene/frame_node.ipp
index 01c4cbc..89a2245 100644
--- a/include/huira_impl/scene/frame_node.ipp
+++ b/include/huira_impl/scene/frame_node.ipp
@@ -27,10 +27,31 @@ std::weak_ptr<FrameNode<TSpectral>> FrameNode<TSpectral>::new_child()
 {
     auto child = std::make_shared<FrameNode<TSpectral>>(this->scene_);
     child->set_parent_(this);
+
+    HUIRA_LOG_INFO(this->get_info() + " - Added: " + child->get_info());
+
     children_.push_back(child);
+    return child;
+}
+
+/**
+ * @brief Creates a new child FrameNode that follows SPICE. It is added only if that is possible.
+ * @param spice_origin SPICE origin
+ * @param spice_frame SPICE frame
+ * @return std::weak_ptr<FrameNode<TSpectral>> Weak pointer to the new child
+ */
+template <IsSpectral TSpectral>
+std::weak_ptr<FrameNode<TSpectral>>
+FrameNode<TSpectral>::new_spice_child(const std::string& spice_origin,
+                                      const std::string& spice_frame)
+{
+    auto child = std::make_shared<FrameNode<TSpectral>>(this->scene_);
+    child->set_parent_(this);
+    child->set_spice(spice_origin, spice_frame);
 
     HUIRA_LOG_INFO(this->get_info() + " - Added: " + child->get_info());
 
+    children_.push_back(child);
     return child;
 }
 
-- 
2.43.0


From 26dc5fef5c4f8b2efff11f449d807ee3e5fd298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 53/75] fix: static rotations and SPICE frames are available
 whenever the rotation is, and set_spice sets both or neither

---
 include/huira_impl/scene/node.ipp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 5bc5ba2..3a292e9 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -277,8 +277,9 @@ void Node<TSpectral>::set_spice(const std::string& spice_origin, const std::stri
     }
     HUIRA_LOG_INFO(this->get_info() + " - set_spice('" + spice_origin + ", " + spice_frame + "')");
 
+    std::string frame = spice_frame;
     this->spice_origin_ = spice_origin;
-    this->spice_frame_ = spice_frame;
+    this->spice_frame_ = std::move(frame);
     this->position_mode_ = TransformMode::SPICE_TRANSFORM;
     this->rotation_mode_ = TransformMode::SPICE_TRANSFORM;
 }
@@ -587,7 +588,7 @@ Vec3<double> Node<TSpectral>::get_static_position() const
 template <IsSpectral TSpectral>
 Rotation<double> Node<TSpectral>::get_static_rotation() const
 {
-    if (position_mode_ != TransformMode::MANUAL_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::MANUAL_TRANSFORM) {
         HUIRA_THROW_ERROR(
             this->get_info() +
             " - cannot get static rotation when rotation mode is not MANUAL_TRANSFORM");
@@ -612,7 +613,7 @@ Vec3<double> Node<TSpectral>::get_static_velocity() const
 template <IsSpectral TSpectral>
 Vec3<double> Node<TSpectral>::get_static_angular_velocity() const
 {
-    if (position_mode_ != TransformMode::MANUAL_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::MANUAL_TRANSFORM) {
         HUIRA_THROW_ERROR(
             this->get_info() +
             " - cannot get static angular velocity when rotation mode is not MANUAL_TRANSFORM");
@@ -633,7 +634,7 @@ std::string Node<TSpectral>::get_spice_origin() const
 template <IsSpectral TSpectral>
 std::string Node<TSpectral>::get_spice_frame() const
 {
-    if (position_mode_ != TransformMode::SPICE_TRANSFORM) {
+    if (rotation_mode_ != TransformMode::SPICE_TRANSFORM) {
         HUIRA_THROW_ERROR(this->get_info() +
                           " - cannot get spice frame when rotation mode is not SPICE_TRANSFORM");
     }
-- 
2.43.0


From a9e3cdb2e7b0cbcc9e9077416f495b4255606aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 54/75] fix: a manual transform or angular velocity takes
 effect whatever was set before

---
 include/huira_impl/scene/node.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 3a292e9..77f9023 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -161,6 +161,7 @@ void Node<TSpectral>::set_angular_velocity(const Vec3<double>& angular_velocity)
     }
 
     this->local_transform_.angular_velocity = angular_velocity;
+    this->body_frame_rates_ = false;
 }
 
 /**
@@ -222,6 +223,10 @@ void Node<TSpectral>::set_manual_transform(const Transform<double>& transform)
     HUIRA_LOG_INFO(this->get_info() + " - set_manual_transform(" + transform.to_string());
 
     this->local_transform_ = transform;
+    this->position_mode_ = TransformMode::MANUAL_TRANSFORM;
+    this->rotation_mode_ = TransformMode::MANUAL_TRANSFORM;
+    this->spice_origin_ = "";
+    this->spice_frame_ = "";
     this->body_frame_rates_ = false;
 }
 
-- 
2.43.0


From b257929ed2796896108ba6948cc023b535067610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:01 +0000
Subject: [PATCH 55/75] fix: the parent's motion was counted twice for a node
 with only its position or rotation from SPICE

---
 include/huira_impl/scene/node.ipp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 77f9023..354ee13 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -475,9 +475,12 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
         // Convert SPICE SSB result to local frame
         auto [pos, vel, _] =
             spice::spkezr<double>(this->spice_origin_, t_emit, "J2000", "NONE", "SSB");
-        Transform<double> parent_inv = parent_ssb.inverse();
-        local.position = parent_inv.apply_to_point(pos);
-        local.velocity = parent_inv.apply_to_direction(vel);
+        const Rotation<double> to_parent = parent_ssb.rotation.inverse();
+        const Vec3<double> offset = pos - parent_ssb.position;
+        const Vec3<double> relative_velocity =
+            vel - parent_ssb.velocity - glm::cross(parent_ssb.angular_velocity, offset);
+        local.position = (to_parent * offset) / parent_ssb.scale;
+        local.velocity = (to_parent * relative_velocity) / parent_ssb.scale;
     } else if (position_mode_ == TransformMode::MANUAL_TRANSFORM) {
         auto pos = get_local_position_at_(epoch, t_obs, dt);
         local.position = pos.position;
@@ -486,9 +489,9 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
 
     if (rotation_mode_ == TransformMode::SPICE_TRANSFORM) {
         auto [rotation, ang_vel] = spice::sxform<double>("J2000", this->spice_frame_, t_emit);
-        Transform<double> parent_inv = parent_ssb.inverse();
-        local.rotation = parent_inv.rotation * rotation;
-        local.angular_velocity = parent_inv.apply_to_direction(ang_vel);
+        const Rotation<double> to_parent = parent_ssb.rotation.inverse();
+        local.rotation = to_parent * rotation;
+        local.angular_velocity = to_parent * (ang_vel - parent_ssb.angular_velocity);
     } else if (rotation_mode_ == TransformMode::MANUAL_TRANSFORM) {
         auto rot = get_local_rotation_at_(epoch, t_obs, dt);
         local.rotation = rot.rotation;
-- 
2.43.0


From 75e656110540fd78200d7f1322e438771df7093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:01 +0000
Subject: [PATCH 56/75] fix: an unresolved object could take a new light for
 the deleted one it was lit by

---
 include/huira/assets/unresolved/unresolved_asteroid.hpp     | 2 +-
 include/huira/assets/unresolved/unresolved_sphere.hpp       | 2 +-
 .../huira_impl/assets/unresolved/unresolved_asteroid.ipp    | 6 +++---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp  | 6 +++---
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/huira/assets/unresolved/unresolved_asteroid.hpp b/include/huira/assets/unresolved/unresolved_asteroid.hpp
index a85beee..b0cd58d 100644
--- a/include/huira/assets/unresolved/unresolved_asteroid.hpp
+++ b/include/huira/assets/unresolved/unresolved_asteroid.hpp
@@ -38,7 +38,7 @@ class UnresolvedAsteroid : public UnresolvedObject<TSpectral> {
     double H_;
     double G_;
     std::shared_ptr<Instance<TSpectral>> light_instance_;
-    Light<TSpectral>* light_;
+    std::shared_ptr<Light<TSpectral>> light_;
     TSpectral albedo_;
 };
 } // namespace huira
diff --git a/include/huira/assets/unresolved/unresolved_sphere.hpp b/include/huira/assets/unresolved/unresolved_sphere.hpp
index d762a16..a111e1c 100644
--- a/include/huira/assets/unresolved/unresolved_sphere.hpp
+++ b/include/huira/assets/unresolved/unresolved_sphere.hpp
@@ -37,7 +37,7 @@ class UnresolvedLambertianSphere : public UnresolvedObject<TSpectral> {
   private:
     float radius_;
     std::shared_ptr<Instance<TSpectral>> light_instance_;
-    Light<TSpectral>* light_;
+    std::shared_ptr<Light<TSpectral>> light_;
     TSpectral albedo_;
 };
 } // namespace huira
diff --git a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
index c925429..20bc90c 100644
--- a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
@@ -75,7 +75,7 @@ UnresolvedAsteroid<TSpectral>::UnresolvedAsteroid(double H,
         HUIRA_THROW_ERROR(
             "UnresolvedAsteroid::UnresolvedAsteroid - Requires an Instance containing a Light");
     }
-    light_ = *light_ptr;
+    light_ = (*light_ptr)->shared_from_this();
 
     if (std::isnan(H) || std::isinf(H)) {
         HUIRA_THROW_ERROR("UnresolvedAsteroid::UnresolvedAsteroid - H must be real and finite");
@@ -119,7 +119,7 @@ UnresolvedAsteroid<TSpectral>::UnresolvedAsteroid(double H,
         HUIRA_THROW_ERROR(
             "UnresolvedAsteroid::UnresolvedAsteroid - Requires an Instance containing a Light");
     }
-    light_ = *light_ptr;
+    light_ = (*light_ptr)->shared_from_this();
 
     if (std::isnan(H) || std::isinf(H)) {
         HUIRA_THROW_ERROR("UnresolvedAsteroid::UnresolvedAsteroid - H must be real and finite");
@@ -153,7 +153,7 @@ void UnresolvedAsteroid<TSpectral>::resolve_irradiance(
 {
     // TODO Only first element of Light Transforms is used.
     for (const auto& light_inst : lights) {
-        if (light_inst.light.get() == light_) {
+        if (light_inst.light == light_) {
             Vec3<double> to_obs = -self_transform.position;
             Vec3<double> to_light = light_inst.transforms[0].position - self_transform.position;
 
diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index d12da7c..e6a3285 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -54,7 +54,7 @@ UnresolvedLambertianSphere<TSpectral>::UnresolvedLambertianSphere(
         HUIRA_THROW_ERROR("UnresolvedLambertianSphere::UnresolvedLambertianSphere - Requires an "
                           "Instance containing a Light");
     }
-    light_ = *light_ptr;
+    light_ = (*light_ptr)->shared_from_this();
 
     if (radius_ <= 0.f || std::isnan(radius_) || std::isinf(radius_)) {
         HUIRA_THROW_ERROR("UnresolvedLambertianSphere::UnresolvedLambertianSphere - Radius must be "
@@ -94,7 +94,7 @@ UnresolvedLambertianSphere<TSpectral>::UnresolvedLambertianSphere(
         HUIRA_THROW_ERROR("UnresolvedLambertianSphere::UnresolvedLambertianSphere - Requires an "
                           "Instance containing a Light");
     }
-    light_ = *light_ptr;
+    light_ = (*light_ptr)->shared_from_this();
 
     if (radius_ <= 0.f || std::isnan(radius_) || std::isinf(radius_)) {
         HUIRA_THROW_ERROR("UnresolvedLambertianSphere::UnresolvedLambertianSphere - Radius must be "
@@ -128,7 +128,7 @@ void UnresolvedLambertianSphere<TSpectral>::resolve_irradiance(
 {
     // TODO Only first element of Light Transforms is used.
     for (const auto& light_inst : lights) {
-        if (light_inst.light.get() == light_) {
+        if (light_inst.light == light_) {
             Vec3<float> L =
                 glm::normalize(light_inst.transforms[0].position - self_transform.position);
 
-- 
2.43.0


From 38cf239b3a6f8742efcf6115347de4d51e582ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:01 +0000
Subject: [PATCH 57/75] fix: dynamic stars that could not be loaded left the
 scene with data of two catalogues

---
 include/huira_impl/scene/scene.ipp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/scene/scene.ipp b/include/huira_impl/scene/scene.ipp
index a409798..33d1274 100644
--- a/include/huira_impl/scene/scene.ipp
+++ b/include/huira_impl/scene/scene.ipp
@@ -1064,12 +1064,13 @@ void Scene<TSpectral>::load_dynamic_stars(const fs::path& star_catalog_path,
                       });
 
     // Add the stars to the scene:
+    std::vector<StarData> dynamic_star_data = star_data;
+    stars_ = std::move(stars);
+    dynamic_star_data_ = std::move(dynamic_star_data);
     dynamic_stars_ = true;
-    stars_ = stars;
-    dynamic_star_data_ = star_data;
     star_epoch_ = time;
 
-    HUIRA_LOG_INFO("Scene::load_dynamic_stars - " + std::to_string(stars.size()) +
+    HUIRA_LOG_INFO("Scene::load_dynamic_stars - " + std::to_string(stars_.size()) +
                    " stars are added dynamically");
 }
 
-- 
2.43.0


From 4d88443082ba814453413b144f34ef589e7efd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:01 +0000
Subject: [PATCH 58/75] fix: running out of memory while the scene graph is
 printed ended the process

---
 include/huira_impl/scene/scene.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/scene/scene.ipp b/include/huira_impl/scene/scene.ipp
index 33d1274..2654309 100644
--- a/include/huira_impl/scene/scene.ipp
+++ b/include/huira_impl/scene/scene.ipp
@@ -1293,7 +1293,7 @@ void Scene<TSpectral>::print_node_(const Node<TSpectral>* node,
         instance_str += instance_node->name().empty() ? "" : " " + instance_node->name();
         std::cout << on_green(instance_str) << " -> ";
         std::visit(
-            [&](auto* raw_ptr) noexcept {
+            [&](auto* raw_ptr) {
                 using AssetType = std::decay_t<decltype(*raw_ptr)>;
                 if constexpr (std::is_same_v<AssetType, Mesh<TSpectral>>) {
                     std::cout << green(raw_ptr->get_info());
-- 
2.43.0


From 4b5a4e3d50c716299d798205800ac933e0e8fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 59/75] fix: a model that cannot be completed left its parts in
 the scene

---
 include/huira/assets/io/model_loader.hpp      |  7 +++
 include/huira/scene/name_registry.hpp         |  1 +
 include/huira_impl/assets/io/model_loader.ipp | 48 ++++++++++++++++++-
 include/huira_impl/scene/name_registry.ipp    | 16 +++++++
 4 files changed, 70 insertions(+), 2 deletions(-)

diff --git a/include/huira/assets/io/model_loader.hpp b/include/huira/assets/io/model_loader.hpp
index 2db9dba..378fc1c 100644
--- a/include/huira/assets/io/model_loader.hpp
+++ b/include/huira/assets/io/model_loader.hpp
@@ -69,6 +69,13 @@ class ModelLoader {
         std::unordered_map<std::string, TextureHandle<Vec3<float>>> vec3_texture_cache;
     };
 
+    static void fill_model_(Scene<TSpectral>& scene,
+                            const aiScene* ai_scene,
+                            const std::shared_ptr<Model<TSpectral>>& shared_model,
+                            const std::string& name,
+                            const fs::path& file_path,
+                            std::function<TSpectral(RGB)> spectral_conversion);
+
     static void process_meshes_(LoadContext& ctx);
 
     static PrimitiveHandle<TSpectral> convert_mesh_(const aiMesh* ai_mesh, LoadContext& ctx);
diff --git a/include/huira/scene/name_registry.hpp b/include/huira/scene/name_registry.hpp
index 93d8423..6a66807 100644
--- a/include/huira/scene/name_registry.hpp
+++ b/include/huira/scene/name_registry.hpp
@@ -20,6 +20,7 @@ class NameRegistry {
     void add(std::shared_ptr<T> object, std::string name);
     void remove(std::shared_ptr<T> object);
     void erase(const T* object) noexcept;
+    void truncate(std::size_t size) noexcept;
     void set_name(std::shared_ptr<T> object, std::string name);
 
     std::size_t size() const { return objects_.size(); }
diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index 1e279f4..6580ac6 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -63,6 +63,52 @@ ModelLoader<TSpectral>::load(Scene<TSpectral>& scene,
     if (name.empty()) {
         name = file_path.stem().string();
     }
+
+    // What is added to the scene is taken back if the model cannot be completed:
+    const std::size_t models = scene.models_.size();
+    const std::size_t geometries = scene.geometries_.size();
+    const std::size_t primitives = scene.primitives_.size();
+    const std::size_t bsdfs = scene.bsdfs_.size();
+    const std::size_t materials = scene.materials_.size();
+    const std::size_t spectral_textures = scene.spectral_textures_.size();
+    const std::size_t mono_textures = scene.mono_textures_.size();
+    const std::size_t vec3_textures = scene.vec3_textures_.size();
+    const std::size_t nodes = scene.node_registry_.size();
+    try {
+        fill_model_(scene, ai_scene, shared_model, name, file_path, std::move(spectral_conversion));
+    } catch (...) {
+        scene.models_.truncate(models);
+        scene.primitives_.truncate(primitives);
+        scene.geometries_.truncate(geometries);
+        scene.materials_.truncate(materials);
+        scene.bsdfs_.truncate(bsdfs);
+        scene.spectral_textures_.truncate(spectral_textures);
+        scene.mono_textures_.truncate(mono_textures);
+        scene.vec3_textures_.truncate(vec3_textures);
+        scene.node_registry_.truncate(nodes);
+        throw;
+    }
+
+    return shared_model;
+}
+
+/**
+ * @brief Adds a model and everything it consists of to the scene.
+ * @param scene The scene to add the model to
+ * @param ai_scene What was read from the file
+ * @param shared_model The model to fill
+ * @param name Name for the model
+ * @param file_path Path of the model file
+ * @param spectral_conversion Function to convert RGB to spectral values
+ */
+template <IsSpectral TSpectral>
+void ModelLoader<TSpectral>::fill_model_(Scene<TSpectral>& scene,
+                                         const aiScene* ai_scene,
+                                         const std::shared_ptr<Model<TSpectral>>& shared_model,
+                                         const std::string& name,
+                                         const fs::path& file_path,
+                                         std::function<TSpectral(RGB)> spectral_conversion)
+{
     scene.models_.add(shared_model, name);
 
     // Create the root node for the model's scene graph
@@ -110,8 +156,6 @@ ModelLoader<TSpectral>::load(Scene<TSpectral>& scene,
     }
 
     HUIRA_LOG_INFO("ModelLoader::load - Model loaded successfully: " + shared_model->get_info());
-
-    return shared_model;
 }
 
 /**
diff --git a/include/huira_impl/scene/name_registry.ipp b/include/huira_impl/scene/name_registry.ipp
index 387a6a3..516a33f 100644
--- a/include/huira_impl/scene/name_registry.ipp
+++ b/include/huira_impl/scene/name_registry.ipp
@@ -75,6 +75,22 @@ void NameRegistry<T>::erase(const T* object) noexcept
     objects_.erase(std::find(objects_.begin(), objects_.end(), kept));
 }
 
+/**
+ * @brief Removes the objects added last, to undo additions. Cannot fail.
+ * @tparam T Scene object type
+ * @param size How many objects to keep
+ */
+template <typename T>
+void NameRegistry<T>::truncate(std::size_t size) noexcept
+{
+    while (objects_.size() > size) {
+        std::shared_ptr<T> last = std::move(objects_.back());
+        objects_.pop_back();
+        last->set_scene_owned(false);
+        name_registry_.erase(last->name_);
+    }
+}
+
 /**
  * @brief Set a new name for an object.
  * @param object Shared pointer to object
-- 
2.43.0


From 9cf2a52e5c5c47bc73d051273f3234b1c99b2ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 60/75] fix: body-frame rates were taken for rates in the
 parent's frame where they move what is attached

---
 include/huira_impl/scene/node.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 354ee13..61ecb66 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -575,7 +575,9 @@ Node<TSpectral>::get_local_rotation_at_(const Time& epoch, const Time& t_obs, do
             }
         }
 
-        local_transform_at_time.angular_velocity = local_transform_.angular_velocity;
+        // Body-frame rates are constant in the local frame, and about an axis that does not move:
+        local_transform_at_time.angular_velocity =
+            body_frame_rates_ ? local_transform_.rotation * omega : omega;
     } else {
         // This is not expected to happen since the setters should prevent it
         HUIRA_THROW_ERROR("get_local_rotation_at_ - Unknown rotation_mode_");
-- 
2.43.0


From c87afcaf0fb121edb55f1e7d17addf1ef26eb4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 61/75] fix: setting only the position or rotation of a node
 with a state callback lost the other half

---
 include/huira_impl/scene/node.ipp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/huira_impl/scene/node.ipp b/include/huira_impl/scene/node.ipp
index 61ecb66..ab22cbf 100644
--- a/include/huira_impl/scene/node.ipp
+++ b/include/huira_impl/scene/node.ipp
@@ -485,6 +485,10 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
         auto pos = get_local_position_at_(epoch, t_obs, dt);
         local.position = pos.position;
         local.velocity = pos.velocity;
+    } else if (position_mode_ == TransformMode::TRANSFORM_CALLBACK) {
+        transform_callback_->evaluate(t_emit);
+        local.position = transform_callback_->state.position;
+        local.velocity = transform_callback_->state.velocity;
     }
 
     if (rotation_mode_ == TransformMode::SPICE_TRANSFORM) {
@@ -496,6 +500,10 @@ Node<TSpectral>::get_ssb_transform_(const Time& epoch, const Time& t_obs, double
         auto rot = get_local_rotation_at_(epoch, t_obs, dt);
         local.rotation = rot.rotation;
         local.angular_velocity = rot.angular_velocity;
+    } else if (rotation_mode_ == TransformMode::TRANSFORM_CALLBACK) {
+        transform_callback_->evaluate(t_emit);
+        local.rotation = transform_callback_->state.rotation;
+        local.angular_velocity = transform_callback_->state.angular_velocity;
     }
 
     // Mixed case - Step 2:
-- 
2.43.0


From 795793dd06a488e464283e8e947e8e391e59b126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 62/75] fix: Keplerian orbits took their semi-major axis for
 the periapsis distance

---
 include/huira/scene/state_callbacks/keplerian_orbit.hpp | 3 ++-
 include/huira_impl/core/spice.ipp                       | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/huira/scene/state_callbacks/keplerian_orbit.hpp b/include/huira/scene/state_callbacks/keplerian_orbit.hpp
index addb655..81c3808 100644
--- a/include/huira/scene/state_callbacks/keplerian_orbit.hpp
+++ b/include/huira/scene/state_callbacks/keplerian_orbit.hpp
@@ -18,7 +18,8 @@ struct KeplerianOrbitCallback : public PositionCallback {
                            const Time& epoch,
                            double mu)
     {
-        elements_[0] = a.to_si() / 1000.0;
+        // SPICE describes an orbit by its periapsis distance:
+        elements_[0] = a.to_si() * (1.0 - e) / 1000.0;
         elements_[1] = e;
         elements_[2] = i.to_si();
         elements_[3] = raan.to_si();
diff --git a/include/huira_impl/core/spice.ipp b/include/huira_impl/core/spice.ipp
index efaffa1..ae4ddd9 100644
--- a/include/huira_impl/core/spice.ipp
+++ b/include/huira_impl/core/spice.ipp
@@ -439,8 +439,8 @@ sxform(const std::string& FROM, const std::string& TO, const huira::Time& time)
 /**
  * @brief Compute the state (position and velocity) of an object in a conic orbit at a given time.
  * @tparam T Floating point type
- * @param elements Array of 8 orbital elements: [a, e, i, Ω, ω, M0, epoch, mu]
- * - a: Semi-major axis (km)
+ * @param elements Array of 8 orbital elements: [rp, e, i, Ω, ω, M0, epoch, mu]
+ * - rp: Periapsis distance (km)
  * - e: Eccentricity
  * - i: Inclination (radians)
  * - Ω: Longitude of ascending node (radians)
-- 
2.43.0


From 0462ddc0786e730f7118aca59ea081fe4f406a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:47 +0000
Subject: [PATCH 63/75] fix: a model whose file cannot be read to its end was
 loaded incomplete without an error

---
 include/huira_impl/assets/io/model_loader.ipp | 63 +++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index 6580ac6..7685305 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -1,7 +1,10 @@
 #include <algorithm>
 #include <cmath>
+#include <memory>
 #include <string>
 
+#include "assimp/DefaultIOSystem.h"
+#include "assimp/IOStream.hpp"
 #include "assimp/Importer.hpp"
 #include "assimp/postprocess.h"
 #include "assimp/scene.h"
@@ -14,6 +17,59 @@
 #include "huira/util/logger.hpp"
 
 namespace huira {
+/**
+ * @brief Passes everything on to ASSIMP's own file stream and notes reads that fail before the end
+ * of the file, which not every one of ASSIMP's importers reports.
+ */
+class ModelFileStream : public Assimp::IOStream {
+  public:
+    ModelFileStream(std::unique_ptr<Assimp::IOStream> stream, std::shared_ptr<bool> failed)
+        : stream_{std::move(stream)}, failed_{std::move(failed)}
+    {
+    }
+
+    size_t Read(void* buffer, size_t size, size_t count) override
+    {
+        const size_t read = stream_->Read(buffer, size, count);
+        if (read < count && stream_->Tell() < stream_->FileSize()) {
+            *failed_ = true;
+        }
+        return read;
+    }
+    size_t Write(const void* buffer, size_t size, size_t count) override
+    {
+        return stream_->Write(buffer, size, count);
+    }
+    aiReturn Seek(size_t offset, aiOrigin origin) override { return stream_->Seek(offset, origin); }
+    size_t Tell() const override { return stream_->Tell(); }
+    size_t FileSize() const override { return stream_->FileSize(); }
+    void Flush() override { stream_->Flush(); }
+
+  private:
+    std::unique_ptr<Assimp::IOStream> stream_;
+    std::shared_ptr<bool> failed_;
+};
+
+/**
+ * @brief ASSIMP's own access to files, with streams that note failing reads.
+ */
+class ModelFileSystem : public Assimp::DefaultIOSystem {
+  public:
+    explicit ModelFileSystem(std::shared_ptr<bool> failed) : failed_{std::move(failed)} {}
+
+    Assimp::IOStream* Open(const char* file, const char* mode) override
+    {
+        std::unique_ptr<Assimp::IOStream> stream{Assimp::DefaultIOSystem::Open(file, mode)};
+        if (!stream) {
+            return nullptr;
+        }
+        return new ModelFileStream(std::move(stream), failed_);
+    }
+
+  private:
+    std::shared_ptr<bool> failed_;
+};
+
 /**
  * @brief Load a 3D model from file and add it to the scene.
  *
@@ -42,6 +98,8 @@ ModelLoader<TSpectral>::load(Scene<TSpectral>& scene,
 
     // Create ASSIMP importer
     Assimp::Importer importer;
+    auto read_failed = std::make_shared<bool>(false);
+    importer.SetIOHandler(new ModelFileSystem(read_failed));
 
     // Load the scene
     const aiScene* ai_scene = importer.ReadFile(file_path.string(), post_process_flags);
@@ -52,6 +110,11 @@ ModelLoader<TSpectral>::load(Scene<TSpectral>& scene,
                           "': " + std::string(importer.GetErrorString()));
     }
 
+    if (*read_failed) {
+        HUIRA_THROW_ERROR("ModelLoader::load - Failed to read '" + file_path.string() +
+                          "' or a file it refers to");
+    }
+
     HUIRA_LOG_INFO("ModelLoader::load - Loading " + file_path.string());
     HUIRA_LOG_INFO("  - Meshes: " + std::to_string(ai_scene->mNumMeshes));
     HUIRA_LOG_INFO("  - Materials: " + std::to_string(ai_scene->mNumMaterials));
-- 
2.43.0


From d4573d16e323a7a7f1b08a1fb7a3315de588871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:23 +0000
Subject: [PATCH 64/75] fix: a convolution for which FFTW has no memory crashed

---
 include/huira_impl/images/image.ipp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index a1271a6..51790fe 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -5,6 +5,7 @@
 #include <cmath>
 #include <cstring>
 #include <mutex>
+#include <new>
 #include <stdexcept>
 
 #include "fftw3.h"
@@ -690,7 +691,7 @@ void Image<PixelT>::convolve_fft_(const Image<PixelT>& kernel)
     const std::size_t complex_size =
         static_cast<std::size_t>(complex_cols) * static_cast<std::size_t>(ph);
 
-    // Nothing below may throw, or the FFTW buffers would leak
+    // Nothing below the allocation of the FFTW buffers may throw, or they would leak
     Image<PixelT> result(this->resolution());
 
     // Allocate FFTW buffers
@@ -698,6 +699,13 @@ void Image<PixelT>::convolve_fft_(const Image<PixelT>& kernel)
     float* buf_b = fftwf_alloc_real(real_size);
     fftwf_complex* freq_a = fftwf_alloc_complex(complex_size);
     fftwf_complex* freq_b = fftwf_alloc_complex(complex_size);
+    if (!buf_a || !buf_b || !freq_a || !freq_b) {
+        fftwf_free(buf_a);
+        fftwf_free(buf_b);
+        fftwf_free(freq_a);
+        fftwf_free(freq_b);
+        throw std::bad_alloc();
+    }
 
     // Create plans (FFTW_ESTIMATE avoids overwriting input during planning)
     std::unique_lock<std::mutex> planner_lock(fftw_planner_mutex());
-- 
2.43.0


From e054c8e3df845c707e367ad588d3d6df811a9188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:36 +0000
Subject: [PATCH 65/75] fix: a model does not lose its textures when memory
 runs out

---
 include/huira_impl/assets/io/model_loader.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/huira_impl/assets/io/model_loader.ipp b/include/huira_impl/assets/io/model_loader.ipp
index 7685305..73d407d 100644
--- a/include/huira_impl/assets/io/model_loader.ipp
+++ b/include/huira_impl/assets/io/model_loader.ipp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <cmath>
 #include <memory>
+#include <new>
 #include <string>
 
 #include "assimp/DefaultIOSystem.h"
@@ -882,6 +883,8 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
                     bundle.image = rgb_to_vec3_(bundle_rgb.image);
                 }
                 loaded = true;
+            } catch (const std::bad_alloc&) {
+                throw;
             } catch (const std::exception& e) {
                 HUIRA_LOG_WARNING(
                     "ModelLoader::load_material_texture_ - Failed to decode embedded texture: " +
@@ -898,6 +901,8 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
                     has_alpha = true;
                 }
                 loaded = true;
+            } catch (const std::bad_alloc&) {
+                throw;
             } catch (const std::exception& e) {
                 HUIRA_LOG_WARNING("ModelLoader::load_material_texture_ - Failed to convert raw "
                                   "embedded texture: " +
@@ -948,6 +953,8 @@ ModelLoader<TSpectral>::load_material_texture_(const aiMaterial* ai_mat,
                 bundle.image = rgb_to_vec3_(bundle_rgb.image);
             }
             loaded = true;
+        } catch (const std::bad_alloc&) {
+            throw;
         } catch (const std::exception& e) {
             HUIRA_LOG_WARNING(
                 "ModelLoader::load_material_texture_ - Failed to load texture file: " +
-- 
2.43.0


From 51cf6299434e174f4b41d609277c1a339f317682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:27 +0000
Subject: [PATCH 66/75] fix: asteroids are no longer dimmed by multiplying
 their distances by an astronomical unit

---
 include/huira_impl/assets/unresolved/unresolved_asteroid.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
index 20bc90c..1566c8a 100644
--- a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
@@ -179,8 +179,8 @@ void UnresolvedAsteroid<TSpectral>::resolve_irradiance(
             double phi2 = asteroid_phi2(alpha_rad);
             double reduced_mag = H_ - 2.5 * std::log10((1.0 - G_) * phi1 + G_ * phi2);
 
-            double r_au = r_m * AU<double>();
-            double delta_au = delta_m * AU<double>();
+            double r_au = r_m / AU<double>();
+            double delta_au = delta_m / AU<double>();
             double apparent_visual_mag = reduced_mag + 5.0 * std::log10(r_au * delta_au);
 
             TSpectral computed_irradiance =
-- 
2.43.0


From f582d32cd540cc80859f5dcd44d2a93b452f959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:11 +0000
Subject: [PATCH 67/75] fix: an unresolved sphere is as bright as the same
 sphere resolved

---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index e6a3285..973b904 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -143,8 +143,9 @@ void UnresolvedLambertianSphere<TSpectral>::resolve_irradiance(
             TSpectral reflectedPower =
                 albedo_ * A * incident_irradiance * lambert_phase_function(phase);
 
+            // A sphere that scatters all of the light it receives has a geometric albedo of 2/3:
             TSpectral reflected_irradiance =
-                reflectedPower / (4 * PI<float>() * distance * distance);
+                2.f * reflectedPower / (3.f * PI<float>() * distance * distance);
 
             if (!reflected_irradiance.valid()) {
                 HUIRA_THROW_ERROR("UnresolvedLambertianSphere::resolve_irradiance - Computed "
-- 
2.43.0


From d1c3a4860ffa9db29e19a0eddd3c054f9c43b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:07 +0000
Subject: [PATCH 68/75] fix: a light made from its total power emits that
 power, not as much in every band

---
 include/huira_impl/assets/lights/sphere_light.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/lights/sphere_light.ipp b/include/huira_impl/assets/lights/sphere_light.ipp
index 1a7bd93..84183c1 100644
--- a/include/huira_impl/assets/lights/sphere_light.ipp
+++ b/include/huira_impl/assets/lights/sphere_light.ipp
@@ -72,7 +72,7 @@ void SphereLight<TSpectral>::set_spectral_power(const units::Watt& power)
 
     // L = Phi / (4 * pi^2 * r^2)
     float surface_area = 4.0f * PI<float>() * radius_ * radius_;
-    this->radiance_ = TSpectral{power_si / (PI<float>() * surface_area)};
+    this->radiance_ = TSpectral::from_total(power_si / (PI<float>() * surface_area));
 }
 
 template <IsSpectral TSpectral>
-- 
2.43.0


From 3ec07d3c60db7b572e2abf1b0254836ae3bb07e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:29 +0000
Subject: [PATCH 69/75] fix: do not enter the log sink again when reporting a
 crash inside it

A sink that holds a lock of its own made the crash handler hang when the
crash happened in the sink or while another thread was stuck in it.
---
 include/huira/util/logger.hpp      |  2 ++
 include/huira_impl/util/logger.ipp | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/huira/util/logger.hpp b/include/huira/util/logger.hpp
index 81bfad5..48972e1 100644
--- a/include/huira/util/logger.hpp
+++ b/include/huira/util/logger.hpp
@@ -138,6 +138,8 @@ class Logger {
     std::atomic<bool> console_info_;
     std::atomic<bool> console_warning_;
     CustomSink custom_sink_;
+    std::atomic<bool> sink_busy_{false}; // the sink is being called or changed at this moment
+    bool skip_sink_ = false;             // a crash interrupted the sink
 
     // Ensures only one crash report is printed per process
     static std::atomic<bool> crash_reported_;
diff --git a/include/huira_impl/util/logger.ipp b/include/huira_impl/util/logger.ipp
index ba4a12b..14542ad 100644
--- a/include/huira_impl/util/logger.ipp
+++ b/include/huira_impl/util/logger.ipp
@@ -181,7 +181,9 @@ size_t Logger::get_buffer_size()
 void Logger::set_custom_sink(CustomSink sink)
 {
     std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
+    const bool nested = instance().sink_busy_.exchange(true);
     instance().custom_sink_ = std::move(sink);
+    instance().sink_busy_.store(nested);
 }
 
 /**
@@ -190,7 +192,9 @@ void Logger::set_custom_sink(CustomSink sink)
 void Logger::clear_custom_sink()
 {
     std::lock_guard<std::recursive_mutex> lock(instance().mutex_);
+    const bool nested = instance().sink_busy_.exchange(true);
     instance().custom_sink_ = nullptr;
+    instance().sink_busy_.store(nested);
 }
 
 /**
@@ -233,12 +237,14 @@ void Logger::record_(LogLevel level, const std::string& message)
     writing_slot_.store(NO_SLOT, std::memory_order_relaxed);
 
     // Call custom sink if set
-    if (custom_sink_) {
+    if (custom_sink_ && !skip_sink_) {
+        const bool nested = sink_busy_.exchange(true);
         try {
             custom_sink_(entry);
         } catch (...) {
             // Ignore exceptions from custom sink to prevent logging from crashing
         }
+        sink_busy_.store(nested);
     }
 }
 
@@ -484,13 +490,15 @@ bool Logger::begin_crash_report_()
  * @brief Take the mutex for a crash report, but never hang on it.
  *
  * The mutex may be held by a thread that never continues, and the crash may have interrupted the
- * calling thread while it was writing an entry; that entry is then left out of the report.
+ * calling thread while it was writing an entry; that entry is then left out of the report. A crash
+ * inside the sink, or while the sink is stuck, must not enter the sink again: it may hold locks.
  */
 void Logger::lock_for_crash_report_()
 {
     for (int i = 0; i < 100 && !mutex_.try_lock(); ++i) {
         std::this_thread::sleep_for(std::chrono::milliseconds(10));
     }
+    skip_sink_ = sink_busy_.load();
     torn_slot_ = writing_slot_.load(std::memory_order_relaxed);
     if (torn_slot_ != NO_SLOT) {
         // keep the slot out of use
-- 
2.43.0


From 8c2c7eb115e12363d371f9a78cdfa86b23165468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:49 +0000
Subject: [PATCH 70/75] fix: keep normals perpendicular to surfaces scaled
 differently along their axes

---
 include/huira_impl/scene/scene_view.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 38244b3..840e169 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -358,11 +358,11 @@ Interaction<TSpectral> SceneView<TSpectral>::resolve_hit(const Ray<TSpectral>& r
     const Transform<float> xf = interpolate_transform(instance_transforms, time);
 
     isect.position = xf.apply_to_point(isect.position);
-    isect.normal_g = glm::normalize(xf.apply_to_direction(hit.Ng));
+    // Normals scale inversely, to remain perpendicular to the surface:
+    isect.normal_g = glm::normalize(xf.rotation * (hit.Ng / xf.scale));
     isect.normal_g =
         glm::dot(ray.direction(), isect.normal_g) < 0.0f ? isect.normal_g : -isect.normal_g;
-    isect.normal_s = glm::normalize(
-        xf.apply_to_direction(isect.normal_s)); // TODO Do we need to invert this as well?
+    isect.normal_s = glm::normalize(xf.rotation * (isect.normal_s / xf.scale));
     if (glm::dot(isect.normal_s, isect.normal_g) < 0.0f) {
         isect.normal_s = -isect.normal_s;
     }
-- 
2.43.0


From d531acf97234ad26cd3d160129aaf3fe031e6ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:50 +0000
Subject: [PATCH 71/75] fix: world normals were rotated from the world to the
 camera instead of back

---
 include/huira_impl/render/renderer.ipp  | 3 +--
 include/huira_impl/scene/scene_view.ipp | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 7d0fcfe..11b9761 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -523,8 +523,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                         if (frame_buffer.has_world_normals()) {
                             frame_buffer.world_normals()(x, y) =
-                                scene_view.camera_to_world_[0].apply_to_direction(
-                                    avg_camera_normals);
+                                scene_view.camera_to_world_[0].rotation * avg_camera_normals;
                         }
 
                         if (frame_buffer.has_received_direct_power()) {
diff --git a/include/huira_impl/scene/scene_view.ipp b/include/huira_impl/scene/scene_view.ipp
index 840e169..ff2d9aa 100644
--- a/include/huira_impl/scene/scene_view.ipp
+++ b/include/huira_impl/scene/scene_view.ipp
@@ -97,7 +97,7 @@ SceneView<TSpectral>::SceneView(const Scene<TSpectral>& scene,
 
         observer_transforms[i] = obs_ssb;
         observer_inverses[i] = obs_ssb.inverse();
-        camera_to_world_[i] = static_cast<Transform<float>>(observer_inverses[i]);
+        camera_to_world_[i] = static_cast<Transform<float>>(obs_ssb);
     }
 
     // Copy the background radiance:
-- 
2.43.0


From bd58f9750912d32235a43847f008beaf5a097ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:25 +0000
Subject: [PATCH 72/75] fix: rays that leave the scene inside of a vacuum
 turned their pixels into NaN

---
 include/huira_impl/render/renderer.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 11b9761..37769ea 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -251,10 +251,12 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                     } else {
                                         TSpectral Tr{0.f};
+                                        // (a vacuum dims nothing, however far the ray goes)
                                         for (std::size_t c = 0; c < TSpectral::size(); ++c) {
-                                            Tr[c] = std::exp(-ext[c] * hit.t);
+                                            Tr[c] = ext[c] > 0.f ? std::exp(-ext[c] * hit.t) : 1.f;
                                         }
-                                        float pdf = std::exp(-avg_ext * hit.t);
+                                        float pdf =
+                                            avg_ext > 0.f ? std::exp(-avg_ext * hit.t) : 1.f;
                                         throughput = throughput * Tr * (1.0f / pdf);
                                     }
                                 }
-- 
2.43.0


From 1d59757142cc2fa1668543a186544d511e526f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:41 +0000
Subject: [PATCH 73/75] fix: depths and geometry ids behind transparent
 surfaces were those of the rest of the ray

---
 include/huira_impl/render/renderer.ipp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 37769ea..2ac9103 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -162,6 +162,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                             TSpectral indirect_radiance{0};
 
                             float prev_roughness = 0.0f;
+                            float passed_through = 0.0f; // distance to the last transparent surface
 
                             float prev_bsdf_pdf = 1.0f;
                             Interaction<TSpectral> prev_isect{};
@@ -314,10 +315,6 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                     break;
                                 } else {
 
-                                    if (s == 0) {
-                                        geometry_id = hit.geom_id;
-                                    }
-
                                     // Resolve full shading data:
                                     Interaction<TSpectral> isect =
                                         scene_view.resolve_hit(ray, hit, time);
@@ -343,6 +340,8 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                             medium_stack.toggle(batch.primitive.get());
 
+                                            passed_through += hit.t;
+
                                             bounce--; // Don't count this towards bounce counts
                                             continue;
                                         }
@@ -357,7 +356,11 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
 
                                     // Record primary ray info:
                                     if (bounce == 0) {
-                                        closest_depth = std::min(closest_depth, hit.t);
+                                        if (s == 0) {
+                                            geometry_id = hit.geom_id;
+                                        }
+                                        closest_depth =
+                                            std::min(closest_depth, passed_through + hit.t);
                                         camera_normals += shading_isect.normal_s;
                                         albedo_total += params.albedo;
                                     }
-- 
2.43.0


From 2620cb8d29b862ec9afbb27eb4a88fdbca44f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:51 +0000
Subject: [PATCH 74/75] fix: the solid angle of a distant light lost its digits
 to cancellation

---
 .../huira_impl/assets/lights/sphere_light.ipp    | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/include/huira_impl/assets/lights/sphere_light.ipp b/include/huira_impl/assets/lights/sphere_light.ipp
index 84183c1..a5dd0a6 100644
--- a/include/huira_impl/assets/lights/sphere_light.ipp
+++ b/include/huira_impl/assets/lights/sphere_light.ipp
@@ -127,14 +127,9 @@ SphereLight<TSpectral>::sample_li(const Interaction<TSpectral>& isect,
     Vec3<float> wi =
         u * (sin_theta * std::cos(phi)) + v * (sin_theta * std::sin(phi)) + w * cos_theta;
 
-    // Calculate Solid Angle and PDF
-    float solid_angle = 2.0f * PI<float>() * (1.0f - cos_theta_max);
-
-    // Robustness fallback for tiny spheres or immense distances
-    // to prevent catastrophic cancellation in floating point math
-    if (solid_angle < 1e-7f) {
-        solid_angle = PI<float>() * sin_theta_max2;
-    }
+    // Calculate Solid Angle and PDF, from 1 - cos = sin^2 / (1 + cos), which does not cancel
+    // catastrophically for small or distant spheres
+    float solid_angle = 2.0f * PI<float>() * sin_theta_max2 / (1.0f + cos_theta_max);
 
     // Calculate distance to the sphere surface along wi using standard ray-sphere intersection:
     float b = glm::dot(wc, wi);
@@ -173,10 +168,7 @@ float SphereLight<TSpectral>::pdf_li(const Interaction<TSpectral>& isect,
         return 0.0f; // Ray missed the sphere
     }
 
-    float solid_angle = 2.0f * PI<float>() * (1.0f - cos_theta_max);
-    if (solid_angle < 1e-7f) {
-        solid_angle = PI<float>() * sin_theta_max2;
-    }
+    float solid_angle = 2.0f * PI<float>() * sin_theta_max2 / (1.0f + cos_theta_max);
 
     return 1.0f / solid_angle;
 }
-- 
2.43.0


From 914385fcba24d35609f9b438e152da56e1dd727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:45 +0000
Subject: [PATCH 75/75] fix: lights seen through the border of a medium were
 black

---
 include/huira_impl/render/renderer.ipp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/render/renderer.ipp b/include/huira_impl/render/renderer.ipp
index 2ac9103..bb8f036 100644
--- a/include/huira_impl/render/renderer.ipp
+++ b/include/huira_impl/render/renderer.ipp
@@ -164,7 +164,7 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                             float prev_roughness = 0.0f;
                             float passed_through = 0.0f; // distance to the last transparent surface
 
-                            float prev_bsdf_pdf = 1.0f;
+                            float prev_bsdf_pdf = std::numeric_limits<float>::infinity();
                             Interaction<TSpectral> prev_isect{};
 
                             MediumStack<TSpectral> medium_stack;
@@ -435,8 +435,16 @@ Image<TSpectral> Renderer<TSpectral>::path_trace_(SceneView<TSpectral>& scene_vi
                                     Vec3<float> bounce_origin =
                                         offset_intersection_(isect.position, bounce_normal);
 
-                                    prev_bsdf_pdf = bs.is_delta ? 0.0f : bs.pdf;
-                                    prev_isect = shading_isect;
+                                    if (!bs.is_delta) {
+                                        prev_bsdf_pdf = bs.pdf;
+                                        prev_isect = shading_isect;
+                                    } else if (params.transmission.max() <= 0.0f) {
+                                        // No shadow ray gets through here, so what the BSDF
+                                        // samples reach beyond it takes all of the MIS weight.
+                                        // (Otherwise shadow rays pass as these rays do, and the
+                                        // interaction to weight against remains the last one.)
+                                        prev_bsdf_pdf = std::numeric_limits<float>::infinity();
+                                    }
 
                                     throughput = throughput * bs.value;
 
-- 
2.43.0

