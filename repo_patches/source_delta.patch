From 869298bfaa03f1a7832a13b3e646aaed21fe5f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 01/59] fix: reset the running status when a simulation fails

If a simulator failed during simulate_until(), is_running() would keep
returning true ever after.
---
 src/cosim/execution.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 6f6b6bf..1ac01de 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -146,6 +146,7 @@ public:
     bool simulate_until(std::optional<time_point> endTime)
     {
         stopped_ = false;
+        const stopped_on_exit guard{stopped_};
         timer_.start(currentTime_);
         duration stepSize;
         do {
@@ -259,6 +260,13 @@ public:
     }
 
 private:
+    // Resets the running status, also if the simulation is ended by an exception.
+    struct stopped_on_exit
+    {
+        std::atomic<bool>& stopped;
+        ~stopped_on_exit() noexcept { stopped = true; }
+    };
+
     template<typename OutputID, typename InputID>
     void connect_variables_impl(
         std::unordered_map<InputID, OutputID>& connections,
-- 
2.43.0


From f4538645217409cf59fb0e715f48e0722f4f3f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 02/59] fix: don't lose stop requests made right after
 simulate_until_async()

The 'stopped' flag was cleared by the asynchronous thread, so that a
stop_simulation() call made before that thread got going had no effect.
---
 src/cosim/execution.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 1ac01de..57af725 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -146,6 +146,11 @@ public:
     bool simulate_until(std::optional<time_point> endTime)
     {
         stopped_ = false;
+        return run_until(endTime);
+    }
+
+    bool run_until(std::optional<time_point> endTime)
+    {
         const stopped_on_exit guard{stopped_};
         timer_.start(currentTime_);
         duration stepSize;
@@ -160,9 +165,17 @@ public:
 
     std::future<bool> simulate_until_async(std::optional<time_point> endTime)
     {
-        return std::async(std::launch::async, [this, endTime]{
-            return simulate_until(endTime);
-        });
+        // This has to happen before the thread starts, lest a stop request made
+        // right after this function returns be lost.
+        stopped_ = false;
+        try {
+            return std::async(std::launch::async, [this, endTime]{
+                return run_until(endTime);
+            });
+        } catch (...) {
+            stopped_ = true;
+            throw;
+        }
     }
 
     void stop_simulation()
-- 
2.43.0


From b4024846004411fbd24939d030bc8a04dba80eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 03/59] fix: don't connect an input to a simulator and a
 function at once

Connections from simulators and from functions were tracked separately, so
that the same input could get one connection of each kind.
---
 src/cosim/execution.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 57af725..c771fc4 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -289,13 +289,25 @@ private:
         validate_variable(output, variable_causality::output);
         validate_variable(input, variable_causality::input);
 
-        if (connections.count(input)) {
+        if (is_connected(input)) {
             throw std::logic_error("Input variable already connected");
         }
         algorithm_->connect_variables(output, input);
         connections.emplace(input, output);
     }
 
+    // An input variable may only be connected to one output variable, regardless
+    // of whether the latter belongs to a simulator or a function.
+    bool is_connected(variable_id input) const
+    {
+        return ssConnections_.count(input) || fsConnections_.count(input);
+    }
+
+    bool is_connected(function_io_id input) const
+    {
+        return sfConnections_.count(input) > 0;
+    }
+
     void validate_variable(variable_id variable, variable_causality causality)
     {
         const auto variables = simulators_.at(variable.simulator)->model_description().variables;
-- 
2.43.0


From a1ede58929eb88367872afdeafd929e24c6cede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 04/59] fix: check types and function variable instances when
 connecting

The types of the connected variables were not compared, and neither the type
nor the instance indexes of function variables were validated, so that invalid
connections were accepted and only caused trouble during simulation.
---
 src/cosim/execution.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index c771fc4..6653923 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -292,6 +292,9 @@ private:
         if (is_connected(input)) {
             throw std::logic_error("Input variable already connected");
         }
+        if (output.type != input.type) {
+            throw std::logic_error("Cannot connect variables of different types");
+        }
         algorithm_->connect_variables(output, input);
         connections.emplace(input, output);
     }
@@ -334,6 +337,18 @@ private:
         if (io.causality != causality) {
             throw std::logic_error("Error connecting function variable: Wrong causality");
         }
+        const auto type = std::get_if<variable_type>(&io.type);
+        if (type && *type != variable.type) {
+            throw std::logic_error("Error connecting function variable: Wrong type");
+        }
+        const auto inRange = [](int instance, const auto& count) {
+            const auto n = std::get_if<int>(&count);
+            return instance >= 0 && (!n || instance < *n);
+        };
+        if (!inRange(variable.reference.group_instance, group.count) ||
+            !inRange(variable.reference.io_instance, io.count)) {
+            throw std::out_of_range("Error connecting function variable: Invalid instance index");
+        }
     }
 
     static bool timed_out(std::optional<time_point> endTime, time_point currentTime, duration stepSize)
-- 
2.43.0


From 4ad081604bde8a97f8525980e4b1fa7fa6620a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 05/59] fix: report exceptions from simulator initialisation to
 the caller

Exceptions thrown by slaves in worker threads during initialisation weren't
caught, and would terminate the program.  The thread pool now passes the first
exception on to the thread that waits for the tasks.
---
 src/cosim/utility/thread_pool.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/cosim/utility/thread_pool.hpp b/src/cosim/utility/thread_pool.hpp
index 6765b03..a2f65b8 100644
--- a/src/cosim/utility/thread_pool.hpp
+++ b/src/cosim/utility/thread_pool.hpp
@@ -12,10 +12,12 @@
 
 #include <atomic>
 #include <condition_variable>
+#include <exception>
 #include <functional>
 #include <mutex>
 #include <queue>
 #include <thread>
+#include <utility>
 
 namespace cosim
 {
@@ -32,6 +34,18 @@ private:
     std::condition_variable cv_finished_;
     std::condition_variable cv_worker_;
     unsigned int pending_tasks_;
+    std::exception_ptr exception_;
+
+    // Runs a task and keeps the first exception thrown by any of them.
+    void run(const std::function<void()>& task) noexcept
+    {
+        try {
+            task();
+        } catch (...) {
+            std::lock_guard<std::mutex> lck(m_);
+            if (!exception_) exception_ = std::current_exception();
+        }
+    }
 
     void worker_thread()
     {
@@ -49,7 +63,7 @@ private:
                 lck.unlock();
 
                 // Run work function outside mutex lock context
-                task();
+                run(task);
 
                 lck.lock();
                 pending_tasks_--;
@@ -83,16 +97,18 @@ public:
         return threads_.size();
     }
 
+    // If any of the tasks threw an exception, the first one is rethrown here.
     void wait_for_tasks_to_finish()
     {
         std::unique_lock<std::mutex> lck(m_);
         cv_finished_.wait(lck, [this]() { return work_queue_.empty() && (pending_tasks_ == 0); });
+        if (exception_) std::rethrow_exception(std::exchange(exception_, nullptr));
     }
 
     void submit(std::function<void()> f)
     {
         if (threads_.empty()) {
-            f();
+            run(f);
         } else {
             std::unique_lock<std::mutex> lck(m_);
             work_queue_.emplace(std::move(f));
-- 
2.43.0


From 6b3e488d77bc71ee49a5e000a94b221ec087fa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 06/59] fix: handle all exception types thrown by simulators
 during a step

Only exceptions derived from std::exception were caught; others would
terminate the program or bypass the normal error reporting.
---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index d59ae4e..b7b873a 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -209,6 +209,12 @@ public:
                             << info.sim->name() << ": "
                             << ex.what() << '\n';
                         failed = true;
+                    } catch (...) {
+                        std::lock_guard<std::mutex> lck(m);
+                        errMessages
+                            << info.sim->name() << ": "
+                            << "Unknown error" << '\n';
+                        failed = true;
                     }
                 });
             }
-- 
2.43.0


From b2dcdc5ff8f62b499f930325c726c1c8f600f253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 07/59] fix: execute a scenario's events in order of their
 trigger times

---
 src/cosim/manipulator/scenario_manager.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/cosim/manipulator/scenario_manager.cpp b/src/cosim/manipulator/scenario_manager.cpp
index 467dbb1..36d2bd6 100644
--- a/src/cosim/manipulator/scenario_manager.cpp
+++ b/src/cosim/manipulator/scenario_manager.cpp
@@ -11,6 +11,9 @@
 #include "cosim/scenario_parser.hpp"
 #include "cosim/utility/utility.hpp"
 
+#include <algorithm>
+#include <map>
+
 
 namespace cosim
 {
@@ -34,7 +37,14 @@ public:
         state.startTime = currentTime;
         state.endTime = s.end;
 
-        for (const auto& event : s.events) {
+        // Events which trigger in the same time step are executed in order of
+        // their trigger times (and in the given order if those are equal).
+        auto events = s.events;
+        std::stable_sort(
+            events.begin(),
+            events.end(),
+            [](const auto& a, const auto& b) { return a.time < b.time; });
+        for (const auto& event : events) {
             const auto index = static_cast<int>(state.remainingEvents.size());
             state.remainingEvents[index] = event;
         }
@@ -110,8 +120,8 @@ public:
 private:
     struct scenario_state
     {
-        std::unordered_map<int, scenario::event> remainingEvents;
-        std::unordered_map<int, scenario::event> executedEvents;
+        std::map<int, scenario::event> remainingEvents;
+        std::map<int, scenario::event> executedEvents;
         time_point startTime;
         std::optional<time_point> endTime;
         bool running = false;
@@ -211,7 +221,7 @@ private:
             a.modifier);
     }
 
-    void cleanup(const std::unordered_map<int, scenario::event>& executedEvents)
+    void cleanup(const std::map<int, scenario::event>& executedEvents)
     {
         for (const auto& entry : executedEvents) {
             auto e = entry.second;
-- 
2.43.0


From 69d6cd650f9ba20097865acfb927dedd90873e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 08/59] fix: undo a running scenario's modifications when
 another is loaded

---
 src/cosim/manipulator/scenario_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cosim/manipulator/scenario_manager.cpp b/src/cosim/manipulator/scenario_manager.cpp
index 36d2bd6..4d36754 100644
--- a/src/cosim/manipulator/scenario_manager.cpp
+++ b/src/cosim/manipulator/scenario_manager.cpp
@@ -33,6 +33,8 @@ public:
 
     void load_scenario(const scenario::scenario& s, time_point currentTime)
     {
+        if (state.running) abort_scenario();
+
         state = scenario_state{};
         state.startTime = currentTime;
         state.endTime = s.end;
-- 
2.43.0


From 03789f438192eea01ba33a3b8085ccd19e6347cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 09/59] fix: reject scenario events for unknown variables

---
 src/cosim/scenario_parser.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cosim/scenario_parser.cpp b/src/cosim/scenario_parser.cpp
index 6306429..11f87b2 100644
--- a/src/cosim/scenario_parser.cpp
+++ b/src/cosim/scenario_parser.cpp
@@ -215,8 +215,15 @@ scenario::scenario parse_scenario(
             find_simulator(simulators, specified_or_default(event, "model", defaultOpts.model));
         auto varName =
             specified_or_default(event, "variable", defaultOpts.variable);
-        const auto var =
-            *find_variable(simulator->model_description(), varName);
+        const auto description = simulator->model_description();
+        const auto foundVar = find_variable(description, varName);
+        if (!foundVar) {
+            std::ostringstream oss;
+            oss << "Can't find variable with name: " << varName
+                << " in model with name: " << simulator->name();
+            throw std::invalid_argument(oss.str());
+        }
+        const auto var = *foundVar;
 
         auto mode = specified_or_default(event, "action", defaultOpts.action);
         bool isInput = is_input(var.causality);
-- 
2.43.0


From ae5d127400a35f41c4e548987f9a7d25e8af840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 10/59] fix: avoid data race between stepping and override
 requests

---
 src/cosim/slave_simulator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index f985ec2..c0c5f9f 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -631,7 +631,8 @@ std::string slave_simulator::name() const
 
 cosim::model_description slave_simulator::model_description() const
 {
-    COSIM_PRECONDITION(state_ != slave_state::error);
+    // This may be called in one thread while the simulator is being stepped in
+    // another (see `override_manipulator`), so we can't look at `state_` here.
     return pimpl_->model_description();
 }
 
-- 
2.43.0


From cc326812cf5bda898a750d8dc640dcf544b29ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 11/59] fix: reject invalid decimation factors in logging
 configurations

---
 include/cosim/observer/file_observer.hpp | 17 +++++++++++++++--
 src/cosim/observer/file_observer.cpp     |  9 ++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/cosim/observer/file_observer.hpp b/include/cosim/observer/file_observer.hpp
index 686cac2..f215fbe 100644
--- a/include/cosim/observer/file_observer.hpp
+++ b/include/cosim/observer/file_observer.hpp
@@ -15,7 +15,12 @@
 
 #include <atomic>
 #include <memory>
+#include <optional>
+#include <stdexcept>
+#include <string>
 #include <unordered_map>
+#include <utility>
+#include <vector>
 
 
 namespace cosim
@@ -57,7 +62,7 @@ public:
         const std::vector<std::string>& variableNames,
         std::optional<size_t> decimationFactor = std::nullopt)
     {
-        variablesToLog_[simulatorName].first = decimationFactor.value_or(defaultDecimationFactor_);
+        set_decimation_factor(simulatorName, decimationFactor);
         for (const auto& variableName : variableNames) {
             variablesToLog_[simulatorName].second.emplace_back(variableName);
         }
@@ -76,7 +81,7 @@ public:
         const std::string& simulatorName,
         std::optional<size_t> decimationFactor = std::nullopt)
     {
-        variablesToLog_[simulatorName].first = decimationFactor.value_or(defaultDecimationFactor_);
+        set_decimation_factor(simulatorName, decimationFactor);
         variablesToLog_[simulatorName].second = {}; // empty variable means log all
         return *this;
     }
@@ -106,6 +111,14 @@ private:
 
     std::unordered_map<std::string, std::pair<size_t, std::vector<std::string>>> variablesToLog_;
 
+    void set_decimation_factor(const std::string& simulatorName, std::optional<size_t> decimationFactor)
+    {
+        if (decimationFactor == 0u) {
+            throw std::invalid_argument("The decimation factor must be positive (simulator " + simulatorName + ")");
+        }
+        variablesToLog_[simulatorName].first = decimationFactor.value_or(defaultDecimationFactor_);
+    }
+
     [[nodiscard]] bool should_log_simulator(const std::string& name) const
     {
         return variablesToLog_.count(name);
diff --git a/src/cosim/observer/file_observer.cpp b/src/cosim/observer/file_observer.cpp
index eacfbcb..9bc7746 100644
--- a/src/cosim/observer/file_observer.cpp
+++ b/src/cosim/observer/file_observer.cpp
@@ -382,8 +382,8 @@ T get_attribute(const boost::property_tree::ptree& tree, const std::string& key)
 template<typename T>
 std::optional<T> get_optional_attribute(const boost::property_tree::ptree& tree, const std::string& key)
 {
-    const auto result = tree.get_optional<T>("<xmlattr>." + key);
-    return result ? *result : std::optional<T>();
+    const auto attribute = tree.get_child_optional("<xmlattr>." + key);
+    return attribute ? attribute->get_value<T>() : std::optional<T>();
 }
 
 } // namespace
@@ -561,7 +561,10 @@ file_observer_config file_observer_config::parse(const filesystem::path& configP
     for (const auto& simulator : ptree.get_child("simulators")) {
         if (simulator.first == "simulator") {
             const auto modelName = get_attribute<std::string>(simulator.second, "name");
-            const auto decimationFactor = get_optional_attribute<size_t>(simulator.second, "decimationFactor");
+            const auto decimationFactor = get_optional_attribute<int>(simulator.second, "decimationFactor");
+            if (decimationFactor && *decimationFactor < 1) {
+                throw std::invalid_argument("The decimation factor must be positive (simulator " + modelName + ")");
+            }
             std::vector<std::string> variableNames;
             for (const auto& variable : simulator.second) {
                 if (variable.first == "variable") {
-- 
2.43.0


From f69dc45cc16ac0e0c31a7c4553208eec7010ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 12/59] fix: make starting and stopping of recording atomic

---
 include/cosim/observer/file_observer.hpp | 2 ++
 src/cosim/observer/file_observer.cpp     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/cosim/observer/file_observer.hpp b/include/cosim/observer/file_observer.hpp
index f215fbe..6c2755b 100644
--- a/include/cosim/observer/file_observer.hpp
+++ b/include/cosim/observer/file_observer.hpp
@@ -15,6 +15,7 @@
 
 #include <atomic>
 #include <memory>
+#include <mutex>
 #include <optional>
 #include <stdexcept>
 #include <string>
@@ -216,6 +217,7 @@ private:
     std::optional<file_observer_config> config_;
     cosim::filesystem::path logDir_;
     std::atomic<bool> recording_ = true;
+    std::mutex recordingMutex_; // ensures that starts and stops happen one at a time
 };
 
 
diff --git a/src/cosim/observer/file_observer.cpp b/src/cosim/observer/file_observer.cpp
index 9bc7746..264aeed 100644
--- a/src/cosim/observer/file_observer.cpp
+++ b/src/cosim/observer/file_observer.cpp
@@ -459,6 +459,7 @@ bool file_observer::is_recording()
 
 void file_observer::start_recording()
 {
+    std::lock_guard<std::mutex> lock(recordingMutex_);
     if (recording_) {
         throw std::runtime_error("File observer is already recording");
     } else {
@@ -471,6 +472,7 @@ void file_observer::start_recording()
 
 void file_observer::stop_recording()
 {
+    std::lock_guard<std::mutex> lock(recordingMutex_);
     if (!recording_) {
         throw std::runtime_error("File observer has already stopped recording");
     } else {
-- 
2.43.0


From e31851b1bd042908be5b52f21e5ce051fab59e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 13/59] fix: don't read past the end when percent-decoding
 short strings

---
 src/cosim/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index a2889d8..d21b8be 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -459,7 +459,7 @@ std::string percent_decode(std::string_view encoded)
     std::string decoded;
     while (!encoded.empty()) {
         const auto i = encoded.find('%');
-        if (i > encoded.size() - 3) {
+        if (i == std::string_view::npos || encoded.size() - i < 3) {
             decoded += encoded;
             encoded.remove_prefix(encoded.size());
         } else {
-- 
2.43.0


From bffd8de5240f43ebe2277fd2e0744fc214527581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 14/59] fix: check the query component when composing a URI

---
 src/cosim/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index d21b8be..e4d6686 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -186,7 +186,7 @@ uri::uri(
     COSIM_INPUT_CHECK(!authority || all_chars_satisfy(is_authority_char, *authority));
     COSIM_INPUT_CHECK(!authority || path.empty() || path.front() == '/');
     COSIM_INPUT_CHECK(all_chars_satisfy(is_path_char, path));
-    COSIM_INPUT_CHECK(!query || all_chars_satisfy(is_query_char, path));
+    COSIM_INPUT_CHECK(!query || all_chars_satisfy(is_query_char, *query));
     data_.reserve(
         (scheme ? scheme->size() + 1 : 0) +
         (authority ? authority->size() + 2 : 0) +
-- 
2.43.0


From 4b8dc4fb6972bccf9c3021b7b3cbdb9d3be14a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 15/59] fix: remove empty path segments correctly when
 resolving URI references

---
 src/cosim/uri.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index e4d6686..4c22c44 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -309,8 +309,6 @@ std::string_view remove_dot_segments(
     outputBuffer.clear();
 
     const auto removeLastOutputSegment = [&] {
-        if (outputBuffer.empty()) return;
-        outputBuffer.pop_back();
         while (!outputBuffer.empty() && outputBuffer.back() != '/') outputBuffer.pop_back();
         if (!outputBuffer.empty()) outputBuffer.pop_back();
     };
-- 
2.43.0


From d224cf2ae9f22613517d4295b502f33b4ebfec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 16/59] fix: require that URI schemes start with a letter

---
 src/cosim/uri.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index 4c22c44..c07ec3f 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -36,6 +36,11 @@ bool is_scheme_char(char c) noexcept
         c == '+' || c == '-' || c == '.';
 }
 
+bool is_scheme_start_char(char c) noexcept
+{
+    return std::isalpha(static_cast<unsigned char>(c));
+}
+
 std::optional<std::string_view> consume_scheme(std::string_view& input)
 {
     std::size_t pos = 0;
@@ -44,6 +49,8 @@ std::optional<std::string_view> consume_scheme(std::string_view& input)
         return std::nullopt;
     } else if (pos == 0) {
         throw std::invalid_argument("URI scheme is empty");
+    } else if (!is_scheme_start_char(input[0])) {
+        throw std::invalid_argument("URI scheme doesn't start with a letter");
     } else {
         auto ret = input.substr(0, pos);
         input.remove_prefix(pos + 1);
@@ -182,7 +189,7 @@ uri::uri(
     std::optional<std::string_view> fragment)
 {
     COSIM_INPUT_CHECK(!scheme ||
-        (!scheme->empty() && all_chars_satisfy(is_scheme_char, *scheme)));
+        (!scheme->empty() && is_scheme_start_char(scheme->front()) && all_chars_satisfy(is_scheme_char, *scheme)));
     COSIM_INPUT_CHECK(!authority || all_chars_satisfy(is_authority_char, *authority));
     COSIM_INPUT_CHECK(!authority || path.empty() || path.front() == '/');
     COSIM_INPUT_CHECK(all_chars_satisfy(is_path_char, path));
-- 
2.43.0


From eae6744b77d741ae9c4741c98aec2e779bffe03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 17/59] fix: don't lose a file lock when an unused mutex for
 the same file is destroyed

---
 src/cosim/utility/concurrency.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index c55d14a..02e3ea8 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -230,10 +230,15 @@ file_lock::file_mutex::file_mutex(const cosim::filesystem::path& path)
 std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     const cosim::filesystem::path& path)
 {
+    // The cache shares ownership of the mutexes, because they must only be
+    // destroyed here, while `cacheMutex` is locked.  On POSIX systems, closing
+    // *any* descriptor for a file releases all of the process' locks on it, so
+    // it would be bad if an unused `file_mutex` were destroyed just after a new
+    // one had been created for the same file.
     struct file_mutex_cache_entry
     {
         cosim::filesystem::path path;
-        std::weak_ptr<file_mutex> fileMutex;
+        std::shared_ptr<file_mutex> fileMutex;
     };
     static std::vector<file_mutex_cache_entry> fileMutexCache;
     static std::mutex cacheMutex;
@@ -242,18 +247,20 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     // If the file already exists, we need to check whether it is already
     // associated with a mutex.  We do so by performing a linear search for
     // an element corresponding to the given path in `fileMutexes`
-    // (cleaning up any expired elements along the way).
+    // (cleaning up any unused elements first).
     std::lock_guard<decltype(cacheMutex)> guard(cacheMutex);
+    for (auto it = fileMutexCache.begin(); it != fileMutexCache.end();) {
+        if (it->fileMutex.use_count() == 1) {
+            it = fileMutexCache.erase(it);
+        } else {
+            ++it;
+        }
+    }
     if (cosim::filesystem::exists(path)) {
-        for (auto it = fileMutexCache.begin(); it != fileMutexCache.end();) {
-            if (auto fm = it->fileMutex.lock()) {
-                if (cosim::filesystem::equivalent(path, it->path)) {
-                    assert(!fileMutex);
-                    fileMutex = std::move(fm);
-                }
-                ++it;
-            } else {
-                it = fileMutexCache.erase(it);
+        for (const auto& entry : fileMutexCache) {
+            if (cosim::filesystem::equivalent(path, entry.path)) {
+                assert(!fileMutex);
+                fileMutex = entry.fileMutex;
             }
         }
     }
-- 
2.43.0


From 68f9dda6f149b21b217429dbc48a8b1c172f15af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 18/59] fix: don't block in file_lock::try_lock_shared() while
 another thread waits

---
 src/cosim/utility/concurrency.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index 02e3ea8..3bc3840 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -203,7 +203,9 @@ void file_lock::boost_wrapper::lock_shared()
 
 bool file_lock::boost_wrapper::try_lock_shared()
 {
-    std::lock_guard<std::mutex> countLock(shareCountMutex_);
+    // The mutex may be held by a thread which waits in lock_shared().
+    std::unique_lock<std::mutex> countLock(shareCountMutex_, std::try_to_lock);
+    if (!countLock.owns_lock()) return false;
     assert(shareCount_ >= 0);
     if (shareCount_ == 0) {
         if (!fileLock_.try_lock_sharable()) return false;
-- 
2.43.0


From 827071b661e6377601196b9d1984dfe5b7fa01b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 19/59] fix: release the old lock safely when a file_lock is
 overwritten

---
 src/cosim/utility/concurrency.cpp | 11 +++++++++++
 src/cosim/utility/concurrency.hpp |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index 3bc3840..e107938 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -40,6 +40,17 @@ file_lock::file_lock(
 }
 
 
+file_lock& file_lock::operator=(file_lock&& other) noexcept
+{
+    // The locks must be released before the objects they refer to may be
+    // destroyed, in the opposite order of how they were acquired.
+    fileLock_ = std::move(other.fileLock_);
+    mutexLock_ = std::move(other.mutexLock_);
+    fileMutex_ = std::move(other.fileMutex_);
+    return *this;
+}
+
+
 void file_lock::lock()
 {
     // NOTE: The reason we can't use std::lock() here is that we must make
diff --git a/src/cosim/utility/concurrency.hpp b/src/cosim/utility/concurrency.hpp
index ba0d7a5..c2cf297 100644
--- a/src/cosim/utility/concurrency.hpp
+++ b/src/cosim/utility/concurrency.hpp
@@ -91,6 +91,9 @@ public:
         const cosim::filesystem::path& path,
         file_lock_initial_state initialState = file_lock_initial_state::not_locked);
 
+    file_lock(file_lock&&) noexcept = default;
+    file_lock& operator=(file_lock&& other) noexcept;
+
     /**
      *  Acquires a lock on the file, blocking if necessary.
      *
-- 
2.43.0


From b1dec93f5bc4b41d9e26ae772c324a3990859247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 20/59] fix: don't fail to lock files because of deadlocks that
 aren't there

---
 src/cosim/utility/concurrency.cpp | 35 +++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index e107938..d13f19a 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -5,8 +5,12 @@
  */
 #include "cosim/utility/concurrency.hpp"
 
+#include <boost/interprocess/exceptions.hpp>
+
 #include <cassert>
+#include <chrono>
 #include <system_error>
+#include <thread>
 #include <vector>
 
 #ifdef _WIN32
@@ -173,11 +177,38 @@ file_lock::boost_wrapper::boost_wrapper(const cosim::filesystem::path& path)
  *  first.  (See file_lock::lock().)
  */
 
+namespace
+{
+// Calls `lockFunction`, which is supposed to wait for a file lock, until it
+// doesn't report a deadlock.
+//
+// POSIX file locks belong to processes rather than threads, so when several
+// threads use locks on different files, the operating system may see deadlocks
+// where there are none.
+template<typename F>
+void ignoring_false_deadlocks(F lockFunction)
+{
+    for (;;) {
+        try {
+            lockFunction();
+            return;
+        } catch (const boost::interprocess::interprocess_exception& e) {
+            if (e.get_native_error() !=
+                static_cast<int>(std::errc::resource_deadlock_would_occur)) {
+                throw;
+            }
+        }
+        std::this_thread::sleep_for(std::chrono::milliseconds(1));
+    }
+}
+} // namespace
+
+
 void file_lock::boost_wrapper::lock()
 {
     std::lock_guard<std::mutex> countLock(shareCountMutex_);
     assert(shareCount_ == 0);
-    fileLock_.lock();
+    ignoring_false_deadlocks([this] { fileLock_.lock(); });
     shareCount_ = -1;
 }
 
@@ -206,7 +237,7 @@ void file_lock::boost_wrapper::lock_shared()
     std::lock_guard<std::mutex> countLock(shareCountMutex_);
     assert(shareCount_ >= 0);
     if (shareCount_ == 0) {
-        fileLock_.lock_sharable();
+        ignoring_false_deadlocks([this] { fileLock_.lock_sharable(); });
     }
     ++shareCount_;
 }
-- 
2.43.0


From eed51e9e1fe53dde5342ddff5d9c7f4b1af94e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 21/59] fix: create file locks also when another lock file has
 been deleted

---
 src/cosim/utility/concurrency.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index d13f19a..8e00af4 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -302,7 +302,9 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     }
     if (cosim::filesystem::exists(path)) {
         for (const auto& entry : fileMutexCache) {
-            if (cosim::filesystem::equivalent(path, entry.path)) {
+            // (It's not an error if the other file has been deleted.)
+            std::error_code ignoredError;
+            if (cosim::filesystem::equivalent(path, entry.path, ignoredError)) {
                 assert(!fileMutex);
                 fileMutex = entry.fileMutex;
             }
-- 
2.43.0


From 2a0ea85e303f2867964addb0926790a15c228945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 22/59] fix: don't block the whole file cache while waiting for
 a subdirectory

---
 src/cosim/file_cache.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index 36f5247..0320b3b 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -193,9 +193,12 @@ public:
 
     std::unique_ptr<directory_rw> get_directory_rw(std::string_view key)
     {
+        // The root lock only guards against cleanup() here.  If it were
+        // exclusive, waiting for one subdirectory would block access to all
+        // the others, and possibly forever.
         auto rootLock = utility::file_lock(
             root_lock_file_path(),
-            utility::file_lock_initial_state::locked);
+            utility::file_lock_initial_state::locked_shared);
 
         const auto path = subdir_path(key);
         auto lock = utility::file_lock(
-- 
2.43.0


From 37eff7d2e6458fd30dc3fb976d3160d92579549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 23/59] fix: clean up the cache subdirectory for the empty key

---
 src/cosim/file_cache.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index 0320b3b..b9891f0 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -237,12 +237,16 @@ public:
         for (auto it = cosim::filesystem::directory_iterator(root_);
              it != cosim::filesystem::directory_iterator();
              ++it) {
-            if (cosim::filesystem::is_directory(*it) &&
-                it->path().extension() == ".data") {
+            // Note that we can't use path::extension() here, because the names
+            // that correspond to an empty key have none.
+            const auto name = it->path().filename().string();
+            const auto suffixPos = name.size() < 5 ? 0 : name.size() - 5;
+            const auto encodedKey = name.substr(0, suffixPos);
+            const auto suffix = name.substr(suffixPos);
+            if (cosim::filesystem::is_directory(*it) && suffix == ".data") {
 
                 // Remove non-locked subdirectories and their lock files
-                auto subdirLockFilePath = it->path();
-                subdirLockFilePath.replace_extension(".lock");
+                const auto subdirLockFilePath = root_ / (encodedKey + ".lock");
                 auto subdirLock = utility::file_lock(
                     subdirLockFilePath,
                     utility::file_lock_initial_state::not_locked);
@@ -251,8 +255,7 @@ public:
                 std::error_code ignoredError;
                 cosim::filesystem::remove_all(*it, ignoredError);
                 cosim::filesystem::remove(subdirLockFilePath);
-            } else if (cosim::filesystem::is_regular_file(*it) &&
-                it->path().extension() == ".lock") {
+            } else if (cosim::filesystem::is_regular_file(*it) && suffix == ".lock") {
 
                 // Remove lock files left over by get_directory_ro() for
                 // nonexistent subdirectories.
@@ -261,8 +264,7 @@ public:
                     utility::file_lock_initial_state::not_locked);
                 if (!subdirLock.try_lock()) continue;
 
-                auto subdirPath = it->path();
-                subdirPath.replace_extension(".data");
+                const auto subdirPath = root_ / (encodedKey + ".data");
                 if (!cosim::filesystem::exists(subdirPath)) {
                     std::error_code ignoredError;
                     cosim::filesystem::remove(*it, ignoredError);
-- 
2.43.0


From 87c8e7450df96c96ea0a6aeaa45f17622f5d781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 24/59] fix: keep track of all read-only handles to a temporary
 cache directory

---
 src/cosim/file_cache.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index b9891f0..08ca835 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -101,8 +101,12 @@ public:
         }
         const auto path = root_->path() / percent_encode(key);
 
-        auto ownership = std::make_shared<dummy>();
-        owns.ro = ownership;
+        // All handles which are open at the same time share the ownership.
+        auto ownership = owns.ro.lock();
+        if (!ownership) {
+            ownership = std::make_shared<dummy>();
+            owns.ro = ownership;
+        }
         return std::make_unique<temporary_file_cache_directory>(root_, path, ownership);
     }
 
-- 
2.43.0


From 3b00d2c9aeed42b718b3d7cf80208a6c167523e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 25/59] fix: keep temporary cache directories apart from their
 root

---
 src/cosim/file_cache.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index 08ca835..11d30d3 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -84,7 +84,7 @@ public:
             throw std::logic_error(
                 "Cache subdirectory already in use: " + std::string(key));
         }
-        const auto path = root_->path() / percent_encode(key);
+        const auto path = subdirectory_path(key);
         cosim::filesystem::create_directories(path);
 
         auto ownership = std::make_shared<dummy>();
@@ -99,7 +99,7 @@ public:
             throw std::logic_error(
                 "Cache subdirectory already in use: " + std::string(key));
         }
-        const auto path = root_->path() / percent_encode(key);
+        const auto path = subdirectory_path(key);
 
         // All handles which are open at the same time share the ownership.
         auto ownership = owns.ro.lock();
@@ -117,6 +117,12 @@ private:
         std::weak_ptr<dummy> ro;
     };
 
+    cosim::filesystem::path subdirectory_path(std::string_view key) const
+    {
+        // The suffix ensures that the name can't be empty, "." or "..".
+        return root_->path() / (percent_encode(key) + ".data");
+    }
+
     subdirectory_ownership& get_ownership(const std::string& key, bool create)
     {
         auto it = ownerships_.find(key);
-- 
2.43.0


From d7f54bcad7b7b9c276bd2297a47ea85a99af515f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 26/59] fix: don't register temporary cache directories that
 can't be created

---
 src/cosim/file_cache.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index 11d30d3..ee222bf 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -79,13 +79,14 @@ public:
 
     std::unique_ptr<directory_rw> get_directory_rw(std::string_view key)
     {
+        const auto path = subdirectory_path(key);
+        cosim::filesystem::create_directories(path);
+
         auto& owns = get_ownership(std::string(key), true);
         if (owns.rw.use_count() + owns.ro.use_count() > 0) {
             throw std::logic_error(
                 "Cache subdirectory already in use: " + std::string(key));
         }
-        const auto path = subdirectory_path(key);
-        cosim::filesystem::create_directories(path);
 
         auto ownership = std::make_shared<dummy>();
         owns.rw = ownership;
-- 
2.43.0


From f755c9b469ab15ecbfc986f773bd72be8dfcf83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 27/59] fix: don't read before the start of an empty zip entry
 name

---
 src/cosim/utility/zip.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 0e156ee..b405828 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -182,7 +182,7 @@ bool archive::is_dir_entry(entry_index index) const
     }
     if ((zs.valid & ZIP_STAT_NAME) && (zs.valid & ZIP_STAT_SIZE) && (zs.valid & ZIP_STAT_CRC)) {
         const auto nameLen = std::strlen(zs.name);
-        return zs.name[nameLen - 1] == '/' && zs.size == 0 && zs.crc == 0;
+        return nameLen > 0 && zs.name[nameLen - 1] == '/' && zs.size == 0 && zs.crc == 0;
     } else {
         throw error("Cannot determine entry type");
     }
-- 
2.43.0


From 49eb8aeaaa82b2862e5e6a7533d201d5b219ab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 28/59] fix: detect all write errors when extracting zip
 archives

---
 src/cosim/utility/zip.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index b405828..2bb6be1 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -226,6 +226,7 @@ void extract_file_as(
             targetPath.string());
     }
     copy_to_stream(srcFile, tgtFile, buffer);
+    tgtFile.close(); // flushes the stream, which may fail too
     if (tgtFile.fail()) {
         throw std::system_error(
             make_error_code(std::errc::io_error),
-- 
2.43.0


From 616f18c66e6289638ff208fe8303cef2c4140d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 29/59] fix: reject zip entries that would be extracted outside
 the target directory

---
 src/cosim/utility/zip.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 2bb6be1..f948271 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -257,6 +257,11 @@ void archive::extract_all(
                 throw error(
                     "Archive contains an entry with an absolute path: " + entryName);
             }
+            const auto normalPath = entryPath.lexically_normal();
+            if (!normalPath.empty() && *normalPath.begin() == "..") {
+                throw error(
+                    "Archive contains an entry outside the target directory: " + entryName);
+            }
             const auto targetPath = targetDir / entryPath;
             if (entryName.back() == '/') {
                 cosim::filesystem::create_directories(targetPath);
-- 
2.43.0


From fbbe629767d44aedfe76b06b8bd4f7d59a6d4b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 30/59] fix: report variables of the wrong kind of entity as
 system structure errors

---
 src/cosim/system_structure.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cosim/system_structure.cpp b/src/cosim/system_structure.cpp
index 4e285c6..69615d4 100644
--- a/src/cosim/system_structure.cpp
+++ b/src/cosim/system_structure.cpp
@@ -210,7 +210,9 @@ const variable_description& system_structure::get_variable_description(
     }
     const auto model = entity_type_to<cosim::model>(sit->second.type);
     if (!model) {
-        throw std::logic_error("Not a simulator: " + to_text(v));
+        throw error(
+            make_error_code(errc::invalid_system_structure),
+            "Not a simulator: " + to_text(v));
     }
     const auto& modelInfo = modelCache_.at(model->description()->uuid);
     const auto vit = modelInfo.variables.find(v.variable_name);
@@ -235,7 +237,9 @@ system_structure::get_function_io_description(
     }
     const auto functionType = entity_type_to<function_type>(fit->second.type);
     if (!functionType) {
-        throw std::logic_error("Not a function: " + to_text(v));
+        throw error(
+            make_error_code(errc::invalid_system_structure),
+            "Not a function: " + to_text(v));
     }
     const auto& functionInfo = functionCache_.at(v.entity_name);
     const auto git = functionInfo.ios.find(v.variable_group_name);
-- 
2.43.0


From 46d0d9b1e00ddd4d7afb0a3465ffe4e41f35f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 31/59] fix: check instance indices of function variables in
 system structures

---
 src/cosim/system_structure.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cosim/system_structure.cpp b/src/cosim/system_structure.cpp
index 69615d4..47da8b6 100644
--- a/src/cosim/system_structure.cpp
+++ b/src/cosim/system_structure.cpp
@@ -254,6 +254,15 @@ system_structure::get_function_io_description(
             make_error_code(errc::invalid_system_structure),
             "No such variable: " + to_text(v));
     }
+    const auto& group = functionInfo.description.io_groups[vit->second.group_index];
+    if (v.variable_group_instance < 0 ||
+        v.variable_group_instance >= std::get<int>(group.count) ||
+        v.variable_instance < 0 ||
+        v.variable_instance >= std::get<int>(vit->second.description.count)) {
+        throw error(
+            make_error_code(errc::invalid_system_structure),
+            "No such variable instance: " + to_text(v));
+    }
     return vit->second;
 }
 
-- 
2.43.0


From b51623ecca30439b3a97ec676b28e38799964ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 32/59] fix: check all function parameters in system structures

---
 src/cosim/system_structure.cpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/cosim/system_structure.cpp b/src/cosim/system_structure.cpp
index 47da8b6..f930c5c 100644
--- a/src/cosim/system_structure.cpp
+++ b/src/cosim/system_structure.cpp
@@ -14,6 +14,7 @@
 #include <cstddef>
 #include <iomanip>
 #include <sstream>
+#include <stdexcept>
 #include <unordered_map>
 
 
@@ -73,6 +74,29 @@ make_variable_lookup_table(const function_description& fd)
     return table;
 }
 
+// Checks the types and limits of all given parameters, including the ones that
+// don't affect the function description.
+void check_function_parameters(
+    const function_type_description& ftd,
+    const function_parameter_value_map& values)
+{
+    for (std::size_t i = 0; i < ftd.parameters.size(); ++i) {
+        const auto& p = ftd.parameters[i];
+        const auto it = values.find(static_cast<int>(i));
+        if (it == values.end()) continue;
+        if (it->second.index() != p.default_value.index()) {
+            throw std::domain_error(
+                "Parameter '" + p.name + "': Illegal value type");
+        }
+        if (p.type != function_parameter_type::type &&
+            ((p.min_value && it->second < *p.min_value) ||
+                (p.max_value && it->second > *p.max_value))) {
+            throw std::domain_error(
+                "Parameter '" + p.name + "' is out of bounds");
+        }
+    }
+}
+
 error make_connection_error(
     const system_structure::connection& c, const std::string& e)
 {
@@ -115,8 +139,10 @@ void system_structure::add_entity(const entity& e)
         assert(functionType);
         function_info info;
         try {
+            const auto typeDescription = functionType->description();
+            check_function_parameters(typeDescription, e.parameter_values);
             info.description = substitute_function_parameters(
-                functionType->description(),
+                typeDescription,
                 e.parameter_values);
         } catch (const std::exception& ex) {
             throw error(
-- 
2.43.0


From afaab39ab7b217bb1ab8289d428ced07de2a7dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 33/59] fix: check the types of initial values when injecting a
 system structure

---
 src/cosim/execution.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 6653923..59a2e3e 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -586,6 +586,11 @@ entity_index_maps inject_system_structure(
                     " (only supported for simulator variables)");
         }
         const auto& varDesc = sys.get_variable_description(var);
+        if (std::string e; !is_valid_variable_value(varDesc, val, &e)) {
+            throw error(
+                make_error_code(errc::invalid_system_structure),
+                "Invalid initial value for variable " + to_text(var) + ": " + e);
+        }
         const auto simIdx = indexMaps.simulators.at(var.entity_name);
         const auto valRef = varDesc.reference;
         std::visit(
-- 
2.43.0


From 20f5e49dcb38cc5eda913f1003cf4e793a97e1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 34/59] fix: allow connections from calculated parameters, like
 in system structures

---
 src/cosim/execution.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 59a2e3e..fc21c7e 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -317,7 +317,12 @@ private:
         const auto it = std::find_if(
             variables.begin(),
             variables.end(),
-            [=](const auto& var) { return var.causality == causality && var.type == variable.type && var.reference == variable.reference; });
+            [=](const auto& var) {
+                // Like outputs, calculated parameters may be used as sources.
+                return (var.causality == causality ||
+                           (causality == variable_causality::output && var.causality == variable_causality::calculated_parameter)) &&
+                    var.type == variable.type && var.reference == variable.reference;
+            });
         if (it == variables.end()) {
             std::ostringstream oss;
             oss << "Problem adding connection: Cannot find variable with reference " << variable.reference
-- 
2.43.0


From a683b6ec136b6603b232762e33d23344052a2408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 35/59] fix: also disconnect variables from functions

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index b7b873a..557a5d2 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -124,6 +124,18 @@ public:
                 return;
             }
         }
+        for (auto& f : functions_) {
+            auto& conns = f.second.outgoingSimConnections;
+            const auto it = std::find_if(
+                conns.begin(),
+                conns.end(),
+                [input](const auto& c) { return c.target == input; });
+            if (it != conns.end()) {
+                conns.erase(it);
+                update_function_decimation_factor(f.second);
+                return;
+            }
+        }
     }
 
     void disconnect_variable(function_io_id input)
-- 
2.43.0


From 5562895c4df67e96d9633eaacc91f746899b3d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 36/59] fix: update functions' calculation intervals when the
 simulators' intervals change

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index 557a5d2..82d96f2 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -253,6 +253,9 @@ public:
     {
         COSIM_INPUT_CHECK(factor > 0);
         simulators_.at(i).decimationFactor = factor;
+        for (auto& f : functions_) {
+            update_function_decimation_factor(f.second);
+        }
     }
 
 
@@ -308,6 +311,7 @@ private:
                 connections.end(),
                 [i](const auto& c) { return c.target.simulator == i; });
             connections.erase(newEnd, connections.end());
+            update_function_decimation_factor(f.second);
         }
     }
 
-- 
2.43.0


From 9f90f3a34e4ab5bef84e67edf144df526feb1dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 37/59] fix: connect nested variable groups by position and
 reject unknown groups

The members of a bond were looked up by name among all of the model's
groups, so two ports whose nested groups have the same names (such as
"force") got each other's variables.  A group that exists on neither side
of a connection was silently accepted.
---
 src/cosim/osp_config_parser.cpp | 137 +++++++++++++++-----------------
 1 file changed, 63 insertions(+), 74 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index b909f96..8c5029f 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -705,7 +705,7 @@ void connect_variables(
     }
 }
 
-extended_model_description get_emd(
+const extended_model_description& get_emd(
     const std::unordered_map<std::string, extended_model_description>& emds,
     const std::string& element)
 {
@@ -718,98 +718,87 @@ extended_model_description get_emd(
     return emdIt->second;
 }
 
-std::vector<std::string> get_variable_group_variables(
+// Searches for a variable group among the given one's nested groups.
+const variable_group_description* find_nested_variable_group(
+    const variable_group_description& group,
+    const std::string& name)
+{
+    for (const auto& nested : group.variable_group_descriptions) {
+        if (nested.name == name) return &nested;
+        if (const auto found = find_nested_variable_group(nested, name)) return found;
+    }
+    return nullptr;
+}
+
+// Finds a variable group by name, giving precedence to top-level groups.
+const variable_group_description& get_variable_group(
     const std::unordered_map<std::string, variable_group_description>& descriptions,
     const osp_config_parser::VariableEndpoint& endpoint)
 {
-    std::vector<std::string> groupVariables;
-    auto groupIt = descriptions.find(endpoint.name);
-    if (groupIt == descriptions.end()) {
-        for (const auto& description : descriptions) {
-            if (description.second.variable_group_descriptions.size() != 0) {
-                std::unordered_map<std::string, variable_group_description> nestedDescriptions;
-                for (const auto& variableGroupDescr : description.second.variable_group_descriptions) {
-                    nestedDescriptions.insert({variableGroupDescr.name, variableGroupDescr});
-                }
-                groupVariables = get_variable_group_variables(nestedDescriptions, endpoint);
-                if (groupVariables.size() > 0) {
-                    break;
-                }
-            }
+    const auto groupIt = descriptions.find(endpoint.name);
+    if (groupIt != descriptions.end()) return groupIt->second;
+    for (const auto& description : descriptions) {
+        if (const auto found = find_nested_variable_group(description.second, endpoint.name)) {
+            return *found;
         }
-    } else {
-        groupVariables = groupIt->second.variables;
     }
-    return groupVariables;
+    std::ostringstream oss;
+    oss << "Cannot find variable group " << endpoint.simulator << ":" << endpoint.name;
+    throw std::out_of_range(oss.str());
 }
 
-std::vector<cosim::variable_group_description> get_variable_groups(
-    const std::unordered_map<std::string, variable_group_description>& descriptions,
-    const std::string& connector)
+void connect_variable_groups(
+    const std::string& simulatorA,
+    const variable_group_description& groupA,
+    const std::string& simulatorB,
+    const variable_group_description& groupB,
+    system_structure& systemStructure)
 {
-    auto groupIt = descriptions.find(connector);
-    if (groupIt == descriptions.end()) {
-        return {};
+    const auto checkSizes = [&](std::size_t sizeA, std::size_t sizeB) {
+        if (sizeA != sizeB) {
+            std::ostringstream oss;
+            oss << "Cannot create connection between variable groups. Variable group "
+                << simulatorA << ":" << groupA.name
+                << " has different size [" << sizeA << "] than variable group "
+                << simulatorB << ":" << groupB.name
+                << " size [" << sizeB << "]";
+            throw std::runtime_error(oss.str());
+        }
+    };
+
+    const auto& nestedA = groupA.variable_group_descriptions;
+    const auto& nestedB = groupB.variable_group_descriptions;
+    checkSizes(nestedA.size(), nestedB.size());
+    for (std::size_t i = 0; i < nestedA.size(); ++i) {
+        connect_variable_groups(simulatorA, nestedA.at(i), simulatorB, nestedB.at(i), systemStructure);
     }
-    return groupIt->second.variable_group_descriptions;
-}
 
+    checkSizes(groupA.variables.size(), groupB.variables.size());
+    std::vector<osp_config_parser::VariableConnection> variableConnections;
+    // clang-format off
+    for (std::size_t i = 0; i < groupA.variables.size(); ++i) {
+        variableConnections.push_back({
+            {simulatorA, groupA.variables.at(i)},
+            {simulatorB, groupB.variables.at(i)}});
+    }
+    // clang-format on
+    connect_variables(variableConnections, systemStructure);
+}
 
 void connect_variable_groups(
     const std::vector<osp_config_parser::VariableConnection>& variableGroupConnections,
     system_structure& systemStructure,
     const std::unordered_map<std::string, extended_model_description>& emds)
 {
-
     for (const auto& connection : variableGroupConnections) {
         const auto& emdA = get_emd(emds, connection.variableA.simulator);
         const auto& emdB = get_emd(emds, connection.variableB.simulator);
-        const auto& variablesA = get_variable_group_variables(emdA.variableGroups, connection.variableA);
-        const auto& variablesB = get_variable_group_variables(emdB.variableGroups, connection.variableB);
-        const auto& variableGroupsA = get_variable_groups(emdA.variableGroups, connection.variableA.name);
-        const auto& variableGroupsB = get_variable_groups(emdB.variableGroups, connection.variableB.name);
-
-        if (variableGroupsA.size() != variableGroupsB.size()) {
-            std::ostringstream oss;
-            oss << "Cannot create connection between variable groups. Variable group "
-                << connection.variableA.simulator << ":" << connection.variableA.name
-                << " has different size [" << variableGroupsA.size() << "] than variable group "
-                << connection.variableB.simulator << ":" << connection.variableB.name
-                << " size [" << variableGroupsB.size() << "]";
-            throw std::runtime_error(oss.str());
-        }
-
-        std::vector<osp_config_parser::VariableConnection> nestedVariableGroupConnections;
-        // clang-format off
-        for (std::size_t i = 0; i < variableGroupsA.size(); ++i) {
-            nestedVariableGroupConnections.push_back({
-                {connection.variableA.simulator, variableGroupsA.at(i).name},
-                {connection.variableB.simulator, variableGroupsB.at(i).name}});
-        }
-        // clang-format on
-        connect_variable_groups(nestedVariableGroupConnections, systemStructure, emds);
-
-        if (variablesA.size() != variablesB.size()) {
-            std::ostringstream oss;
-            oss << "Cannot create connection between variable groups. Variable group "
-                << connection.variableA.simulator << ":" << connection.variableA.name
-                << " has different size [" << variablesA.size() << "] than variable group "
-                << connection.variableB.simulator << ":" << connection.variableB.name
-                << " size [" << variablesB.size() << "]";
-            throw std::runtime_error(oss.str());
-        }
-
-        std::vector<osp_config_parser::VariableConnection> variableConnections;
-
-        // clang-format off
-        for (std::size_t i = 0; i < variablesA.size(); ++i) {
-            variableConnections.push_back({
-                {connection.variableA.simulator, variablesA.at(i)},
-                {connection.variableB.simulator, variablesB.at(i)}});
-        }
-        // clang-format on
-
-        connect_variables(variableConnections, systemStructure);
+        connect_variable_groups(
+            connection.variableA.simulator,
+            get_variable_group(emdA.variableGroups, connection.variableA),
+            connection.variableB.simulator,
+            get_variable_group(emdB.variableGroups, connection.variableB),
+            systemStructure);
     }
 }
 
-- 
2.43.0


From 56c78398b19621400a3b1dd745a867085bfb81d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 38/59] fix: make all signal connections of a system
 configuration, or reject them

Only the first connection of each function signal was made: an output signal
connected to several variables reached only one of them, a second connection
to an input signal was ignored, and so were connections to functions and
signals that don't exist.
---
 src/cosim/osp_config_parser.cpp | 128 ++++++++++++++++++++++----------
 1 file changed, 88 insertions(+), 40 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 8c5029f..ff5db79 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -19,6 +19,7 @@
 #include <xercesc/util/PlatformUtils.hpp>
 #include <xercesc/util/XMLString.hpp>
 
+#include <algorithm>
 #include <ios>
 #include <memory>
 #include <sstream>
@@ -663,21 +664,61 @@ struct extended_model_description
 namespace
 {
 
-osp_config_parser::SignalConnection find_signal_connection(
+std::vector<osp_config_parser::SignalConnection> find_signal_connections(
     const std::vector<osp_config_parser::SignalConnection>& signalConnections,
     const std::string& functionName,
     const std::string& signalName)
 {
-    auto it = std::find_if(
-        signalConnections.begin(),
-        signalConnections.end(),
-        [&](const auto& conn) { return functionName == conn.signal.function && signalName == conn.signal.name; });
-    if (it == signalConnections.end()) {
+    std::vector<osp_config_parser::SignalConnection> result;
+    for (const auto& conn : signalConnections) {
+        if (functionName == conn.signal.function && signalName == conn.signal.name) {
+            result.push_back(conn);
+        }
+    }
+    if (result.empty()) {
         std::ostringstream oss;
         oss << "Missing expected connection to " << functionName << ":" << signalName;
         throw std::out_of_range(oss.str());
     }
-    return *it;
+    return result;
+}
+
+// Verifies that all signal connections refer to signals that exist.
+void check_signal_connections(const osp_config_parser& parser)
+{
+    const auto& linearTransformations = parser.get_linear_transformation_functions();
+    const auto& sums = parser.get_sum_functions();
+    const auto& vectorSums = parser.get_vector_sum_functions();
+
+    const auto check = [](bool found, const osp_config_parser::SignalEndpoint& signal) {
+        if (!found) {
+            std::ostringstream oss;
+            oss << "Cannot find signal or signal group " << signal.function << ":" << signal.name;
+            throw std::out_of_range(oss.str());
+        }
+    };
+    for (const auto& connection : parser.get_signal_connections()) {
+        const auto& signal = connection.signal;
+        bool found = false;
+        if (const auto it = linearTransformations.find(signal.function); it != linearTransformations.end()) {
+            found = signal.name == it->second.in.name || signal.name == it->second.out.name;
+        } else if (const auto it2 = sums.find(signal.function); it2 != sums.end()) {
+            const auto& ins = it2->second.ins;
+            found = signal.name == it2->second.out.name ||
+                std::any_of(ins.begin(), ins.end(), [&](const auto& s) { return s.name == signal.name; });
+        }
+        check(found, signal);
+    }
+    for (const auto& connection : parser.get_signal_group_connections()) {
+        const auto& signal = connection.signal;
+        bool found = false;
+        if (const auto it = vectorSums.find(signal.function); it != vectorSums.end()) {
+            const auto& ins = it->second.inGroups;
+            found = signal.name == it->second.outGroup.name ||
+                std::any_of(ins.begin(), ins.end(), [&](const auto& g) { return g.name == signal.name; });
+        }
+        check(found, signal);
+    }
 }
 
 } // namespace
@@ -816,14 +857,16 @@ void connect_linear_transformation_functions(
             std::make_shared<linear_transformation_function_type>(),
             functionParams);
 
-        const auto inConn = find_signal_connection(signalConnections, functionName, function.in.name);
-        const auto outConn = find_signal_connection(signalConnections, functionName, function.out.name);
-        systemStructure.connect_variables(
-            full_variable_name(inConn.variable.simulator, inConn.variable.name),
-            full_variable_name(functionName, "in", ""));
-        systemStructure.connect_variables(
-            full_variable_name(functionName, "out", ""),
-            full_variable_name(outConn.variable.simulator, outConn.variable.name));
+        for (const auto& inConn : find_signal_connections(signalConnections, functionName, function.in.name)) {
+            systemStructure.connect_variables(
+                full_variable_name(inConn.variable.simulator, inConn.variable.name),
+                full_variable_name(functionName, "in", ""));
+        }
+        for (const auto& outConn : find_signal_connections(signalConnections, functionName, function.out.name)) {
+            systemStructure.connect_variables(
+                full_variable_name(functionName, "out", ""),
+                full_variable_name(outConn.variable.simulator, outConn.variable.name));
+        }
     }
 }
 
@@ -841,15 +884,17 @@ void connect_sum_functions(
             functionParams);
 
         for (int i = 0; i < function.inputCount; i++) {
-            const auto inConn = find_signal_connection(signalConnections, functionName, function.ins.at(i).name);
+            for (const auto& inConn : find_signal_connections(signalConnections, functionName, function.ins.at(i).name)) {
+                systemStructure.connect_variables(
+                    full_variable_name(inConn.variable.simulator, inConn.variable.name),
+                    full_variable_name(functionName, "in", i, "", 0));
+            }
+        }
+        for (const auto& outConn : find_signal_connections(signalConnections, functionName, function.out.name)) {
             systemStructure.connect_variables(
-                full_variable_name(inConn.variable.simulator, inConn.variable.name),
-                full_variable_name(functionName, "in", i, "", 0));
+                full_variable_name(functionName, "out", ""),
+                full_variable_name(outConn.variable.simulator, outConn.variable.name));
         }
-        const auto outConn = find_signal_connection(signalConnections, functionName, function.out.name);
-        systemStructure.connect_variables(
-            full_variable_name(functionName, "out", ""),
-            full_variable_name(outConn.variable.simulator, outConn.variable.name));
     }
 }
 
@@ -869,29 +914,31 @@ void connect_vector_sum_functions(
             functionParams);
 
         for (int i = 0; i < function.inputCount; ++i) {
-            const auto inGroupConn = find_signal_connection(
-                signalGroupConnections, functionName, function.inGroups.at(i).name);
-            const auto& inEmd = emds.at(inGroupConn.variable.simulator);
-            const auto& inVariableGroup = inEmd.variableGroups.at(inGroupConn.variable.name);
+            for (const auto& inGroupConn : find_signal_connections(
+                     signalGroupConnections, functionName, function.inGroups.at(i).name)) {
+                const auto& inEmd = emds.at(inGroupConn.variable.simulator);
+                const auto& inVariableGroup = inEmd.variableGroups.at(inGroupConn.variable.name);
+
+                for (int j = 0; j < function.dimension; ++j) {
+                    const auto& inVariableName = inVariableGroup.variables.at(j);
+                    systemStructure.connect_variables(
+                        full_variable_name(inGroupConn.variable.simulator, inVariableName),
+                        full_variable_name(functionName, "in", i, "", j));
+                }
+            }
+        }
 
+        for (const auto& outGroupConn : find_signal_connections(
+                 signalGroupConnections, functionName, function.outGroup.name)) {
+            const auto& outEmd = emds.at(outGroupConn.variable.simulator);
+            const auto& outVariableGroup = outEmd.variableGroups.at(outGroupConn.variable.name);
             for (int j = 0; j < function.dimension; ++j) {
-                const auto& inVariableName = inVariableGroup.variables.at(j);
+                const auto& outVariableName = outVariableGroup.variables.at(j);
                 systemStructure.connect_variables(
-                    full_variable_name(inGroupConn.variable.simulator, inVariableName),
-                    full_variable_name(functionName, "in", i, "", j));
+                    full_variable_name(functionName, "out", 0, "", j),
+                    full_variable_name(outGroupConn.variable.simulator, outVariableName));
             }
         }
-
-        const auto outGroupConn = find_signal_connection(
-            signalGroupConnections, functionName, function.outGroup.name);
-        const auto& outEmd = emds.at(outGroupConn.variable.simulator);
-        const auto& outVariableGroup = outEmd.variableGroups.at(outGroupConn.variable.name);
-        for (int j = 0; j < function.dimension; ++j) {
-            const auto& outVariableName = outVariableGroup.variables.at(j);
-            systemStructure.connect_variables(
-                full_variable_name(functionName, "out", 0, "", j),
-                full_variable_name(outGroupConn.variable.simulator, outVariableName));
-        }
     }
 }
 
@@ -982,6 +1029,7 @@ osp_config load_osp_config(
 
     connect_variables(parser.get_variable_connections(), config.system_structure);
     connect_variable_groups(parser.get_variable_group_connections(), config.system_structure, emds);
+    check_signal_connections(parser);
     connect_linear_transformation_functions(parser.get_linear_transformation_functions(), parser.get_signal_connections(), config.system_structure);
     connect_sum_functions(parser.get_sum_functions(), parser.get_signal_connections(), config.system_structure);
     connect_vector_sum_functions(parser.get_vector_sum_functions(), parser.get_signal_group_connections(), config.system_structure, emds);
-- 
2.43.0


From e290cac060cf8f9bb9076cb0a9c507ead2fcb55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 39/59] fix: reject connections between groups and vectors of
 different sizes

A variable group with more members than the vector sum's dimension was
accepted, and its last variables were left unconnected.
---
 src/cosim/osp_config_parser.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index ff5db79..1fbb762 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -898,6 +898,21 @@ void connect_sum_functions(
     }
 }
 
+void check_group_size(
+    const variable_group_description& group,
+    int dimension,
+    const osp_config_parser::SignalConnection& connection)
+{
+    if (group.variables.size() != static_cast<std::size_t>(dimension)) {
+        std::ostringstream oss;
+        oss << "Cannot connect variable group " << connection.variable.simulator << ":" << connection.variable.name
+            << " of size [" << group.variables.size() << "] to signal group "
+            << connection.signal.function << ":" << connection.signal.name
+            << " of size [" << dimension << "]";
+        throw std::runtime_error(oss.str());
+    }
+}
+
 void connect_vector_sum_functions(
     const std::unordered_map<std::string, osp_config_parser::VectorSumFunction>& functions,
     const std::vector<osp_config_parser::SignalConnection>& signalGroupConnections,
@@ -918,6 +933,7 @@ void connect_vector_sum_functions(
                      signalGroupConnections, functionName, function.inGroups.at(i).name)) {
                 const auto& inEmd = emds.at(inGroupConn.variable.simulator);
                 const auto& inVariableGroup = inEmd.variableGroups.at(inGroupConn.variable.name);
+                check_group_size(inVariableGroup, function.dimension, inGroupConn);
 
                 for (int j = 0; j < function.dimension; ++j) {
                     const auto& inVariableName = inVariableGroup.variables.at(j);
@@ -932,6 +948,7 @@ void connect_vector_sum_functions(
                  signalGroupConnections, functionName, function.outGroup.name)) {
             const auto& outEmd = emds.at(outGroupConn.variable.simulator);
             const auto& outVariableGroup = outEmd.variableGroups.at(outGroupConn.variable.name);
+            check_group_size(outVariableGroup, function.dimension, outGroupConn);
             for (int j = 0; j < function.dimension; ++j) {
                 const auto& outVariableName = outVariableGroup.variables.at(j);
                 systemStructure.connect_variables(
-- 
2.43.0


From b88623fcef5040f7acb063c65d75b788e2958ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 40/59] fix: reject duplicate function names in system
 configurations

All but the last function of the same kind and name were silently dropped.
---
 src/cosim/osp_config_parser.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 1fbb762..7e1710c 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -354,6 +354,7 @@ osp_config_parser::osp_config_parser(
 
             const auto functionNodeName = std::string(tc(functionElement->getNodeName()).get());
             const auto functionName = std::string(tc(functionElement->getAttribute(tc("name").get())).get());
+            bool duplicate = false;
             if ("LinearTransformation" == functionNodeName) {
                 LinearTransformationFunction function;
                 function.name = functionName;
@@ -364,7 +365,7 @@ osp_config_parser::osp_config_parser(
                 function.in = {"in", variable_type::real, variable_causality::input};
                 function.out = {"out", variable_type::real, variable_causality::output};
 
-                linearTransformationFunctions_[functionName] = function;
+                duplicate = !linearTransformationFunctions_.emplace(functionName, function).second;
 
             } else if ("Sum" == functionNodeName) {
                 SumFunction function;
@@ -379,7 +380,7 @@ osp_config_parser::osp_config_parser(
                 }
                 function.out = {"out", variable_type::real, variable_causality::output};
 
-                sumFunctions_[functionName] = function;
+                duplicate = !sumFunctions_.emplace(functionName, function).second;
 
             } else if ("VectorSum" == functionNodeName) {
                 VectorSumFunction function;
@@ -410,13 +411,16 @@ osp_config_parser::osp_config_parser(
                 }
                 function.outGroup = sg;
 
-                vectorSumFunctions_[functionName] = function;
+                duplicate = !vectorSumFunctions_.emplace(functionName, function).second;
 
             } else {
                 std::ostringstream oss;
                 oss << "Found unknown function type " << functionNodeName << " with name " << functionName;
                 throw std::runtime_error(oss.str());
             }
+            if (duplicate) {
+                throw std::runtime_error("Duplicate function name: " + functionName);
+            }
         }
     }
 
-- 
2.43.0


From eeb33026a5808a7e99e73dce06a78ccfff7c52bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 41/59] fix: load system configurations that use namespace
 prefixes

Such a file is valid according to the schema, but the elements were looked up
by their qualified names, so the parser dereferenced a null pointer.
---
 src/cosim/osp_config_parser.cpp | 50 ++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 7e1710c..714d4a2 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -307,7 +307,7 @@ osp_config_parser::osp_config_parser(
 
     const auto rootElement = doc->getDocumentElement();
 
-    const auto simulators = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("Simulators").get())->item(0));
+    const auto simulators = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagNameNS(tc("*").get(), tc("Simulators").get())->item(0));
     for (auto element = simulators->getFirstElementChild(); element != nullptr; element = element->getNextElementSibling()) {
         std::string name = tc(element->getAttribute(tc("name").get())).get();
         std::string source = tc(element->getAttribute(tc("source").get())).get();
@@ -319,11 +319,11 @@ osp_config_parser::osp_config_parser(
         }
 
         std::vector<InitialValue> initialValues;
-        const auto initValsElement = static_cast<xercesc::DOMElement*>(element->getElementsByTagName(tc("InitialValues").get())->item(0));
+        const auto initValsElement = static_cast<xercesc::DOMElement*>(element->getElementsByTagNameNS(tc("*").get(), tc("InitialValues").get())->item(0));
         if (initValsElement) {
             for (auto initValElement = initValsElement->getFirstElementChild(); initValElement != nullptr; initValElement = initValElement->getNextElementSibling()) {
                 std::string varName = tc(initValElement->getAttribute(tc("variable").get())).get();
-                variable_type varType = parse_variable_type(std::string(tc(initValElement->getFirstElementChild()->getNodeName()).get()));
+                variable_type varType = parse_variable_type(std::string(tc(initValElement->getFirstElementChild()->getLocalName()).get()));
                 std::string varValue = tc(initValElement->getFirstElementChild()->getAttribute(tc("value").get())).get();
                 switch (varType) {
                     case variable_type::real:
@@ -347,12 +347,12 @@ osp_config_parser::osp_config_parser(
         simulators_.push_back({name, source, stepSize, initialValues});
     }
 
-    const auto functionsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("Functions").get())->item(0));
+    const auto functionsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagNameNS(tc("*").get(), tc("Functions").get())->item(0));
     if (functionsElement != nullptr) {
         for (auto functionElement = functionsElement->getFirstElementChild(); functionElement != nullptr; functionElement = functionElement->getNextElementSibling()) {
 
 
-            const auto functionNodeName = std::string(tc(functionElement->getNodeName()).get());
+            const auto functionNodeName = std::string(tc(functionElement->getLocalName()).get());
             const auto functionName = std::string(tc(functionElement->getAttribute(tc("name").get())).get());
             bool duplicate = false;
             if ("LinearTransformation" == functionNodeName) {
@@ -424,33 +424,33 @@ osp_config_parser::osp_config_parser(
         }
     }
 
-    auto descNodes = rootElement->getElementsByTagName(tc("Description").get());
+    auto descNodes = rootElement->getElementsByTagNameNS(tc("*").get(), tc("Description").get());
     if (descNodes->getLength() > 0) {
         simulationInformation_.description = tc(descNodes->item(0)->getTextContent()).get();
     }
 
-    auto ssNodes = rootElement->getElementsByTagName(tc("BaseStepSize").get());
+    auto ssNodes = rootElement->getElementsByTagNameNS(tc("*").get(), tc("BaseStepSize").get());
     if (ssNodes->getLength() > 0) {
         simulationInformation_.stepSize = boost::lexical_cast<double>(tc(ssNodes->item(0)->getTextContent()));
     }
 
-    auto stNodes = rootElement->getElementsByTagName(tc("StartTime").get());
+    auto stNodes = rootElement->getElementsByTagNameNS(tc("*").get(), tc("StartTime").get());
     if (stNodes->getLength() > 0) {
         simulationInformation_.startTime = boost::lexical_cast<double>(tc(stNodes->item(0)->getTextContent()).get());
     }
 
-    auto etNodes = rootElement->getElementsByTagName(tc("EndTime").get());
+    auto etNodes = rootElement->getElementsByTagNameNS(tc("*").get(), tc("EndTime").get());
     if (etNodes->getLength() > 0) {
         simulationInformation_.endTime = boost::lexical_cast<double>(tc(etNodes->item(0)->getTextContent()).get());
     }
 
-    auto connectionsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("Connections").get())->item(0));
+    auto connectionsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagNameNS(tc("*").get(), tc("Connections").get())->item(0));
     if (connectionsElement) {
-        auto variableConnectionsElement = connectionsElement->getElementsByTagName(tc("VariableConnection").get());
+        auto variableConnectionsElement = connectionsElement->getElementsByTagNameNS(tc("*").get(), tc("VariableConnection").get());
         for (size_t i = 0; i < variableConnectionsElement->getLength(); i++) {
             auto connectionElement = static_cast<xercesc::DOMElement*>(variableConnectionsElement->item(i));
-            auto a = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("Variable").get())->item(0));
-            auto b = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("Variable").get())->item(1));
+            auto a = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagNameNS(tc("*").get(), tc("Variable").get())->item(0));
+            auto b = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagNameNS(tc("*").get(), tc("Variable").get())->item(1));
 
             std::string simulatorA = tc(a->getAttribute(tc("simulator").get())).get();
             std::string nameA = tc(a->getAttribute(tc("name").get())).get();
@@ -463,11 +463,11 @@ osp_config_parser::osp_config_parser(
             variableConnections_.push_back({veA, veB});
         }
 
-        auto signalConnectionsElement = connectionsElement->getElementsByTagName(tc("SignalConnection").get());
+        auto signalConnectionsElement = connectionsElement->getElementsByTagNameNS(tc("*").get(), tc("SignalConnection").get());
         for (size_t i = 0; i < signalConnectionsElement->getLength(); i++) {
             auto connectionElement = static_cast<xercesc::DOMElement*>(signalConnectionsElement->item(i));
-            auto signalElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("Signal").get())->item(0));
-            auto variableElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("Variable").get())->item(0));
+            auto signalElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagNameNS(tc("*").get(), tc("Signal").get())->item(0));
+            auto variableElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagNameNS(tc("*").get(), tc("Variable").get())->item(0));
 
             std::string function = tc(signalElement->getAttribute(tc("function").get())).get();
             std::string sigName = tc(signalElement->getAttribute(tc("name").get())).get();
@@ -480,11 +480,11 @@ osp_config_parser::osp_config_parser(
             signalConnections_.push_back({signal, variable});
         }
 
-        auto variableGroupConnectionsElement = connectionsElement->getElementsByTagName(tc("VariableGroupConnection").get());
+        auto variableGroupConnectionsElement = connectionsElement->getElementsByTagNameNS(tc("*").get(), tc("VariableGroupConnection").get());
         for (size_t i = 0; i < variableGroupConnectionsElement->getLength(); i++) {
             auto connectionElement = static_cast<xercesc::DOMElement*>(variableGroupConnectionsElement->item(i));
-            auto a = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("VariableGroup").get())->item(0));
-            auto b = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("VariableGroup").get())->item(1));
+            auto a = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagNameNS(tc("*").get(), tc("VariableGroup").get())->item(0));
+            auto b = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagNameNS(tc("*").get(), tc("VariableGroup").get())->item(1));
 
             std::string simulatorA = tc(a->getAttribute(tc("simulator").get())).get();
             std::string nameA = tc(a->getAttribute(tc("name").get())).get();
@@ -497,11 +497,11 @@ osp_config_parser::osp_config_parser(
             variableGroupConnections_.push_back({veA, veB});
         }
 
-        auto signalGroupConnectionsElement = connectionsElement->getElementsByTagName(tc("SignalGroupConnection").get());
+        auto signalGroupConnectionsElement = connectionsElement->getElementsByTagNameNS(tc("*").get(), tc("SignalGroupConnection").get());
         for (size_t i = 0; i < signalGroupConnectionsElement->getLength(); i++) {
             auto connectionElement = static_cast<xercesc::DOMElement*>(signalGroupConnectionsElement->item(i));
-            auto signalElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("SignalGroup").get())->item(0));
-            auto variableElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagName(tc("VariableGroup").get())->item(0));
+            auto signalElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagNameNS(tc("*").get(), tc("SignalGroup").get())->item(0));
+            auto variableElement = static_cast<xercesc::DOMElement*>(connectionElement->getElementsByTagNameNS(tc("*").get(), tc("VariableGroup").get())->item(0));
 
             std::string function = tc(signalElement->getAttribute(tc("function").get())).get();
             std::string sigName = tc(signalElement->getAttribute(tc("name").get())).get();
@@ -634,7 +634,7 @@ struct extended_model_description
 
         const auto rootElement = doc->getDocumentElement();
 
-        const auto variableGroupsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("VariableGroups").get())->item(0));
+        const auto variableGroupsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagNameNS(tc("*").get(), tc("VariableGroups").get())->item(0));
 
         for (auto variableGroupElement = variableGroupsElement->getFirstElementChild(); variableGroupElement != nullptr; variableGroupElement = variableGroupElement->getNextElementSibling()) {
             variable_group_description vgd = create_variable_group_description(variableGroupElement);
@@ -647,10 +647,10 @@ struct extended_model_description
         variable_group_description variableGroupDescription;
 
         variableGroupDescription.name = tc(variableGroupElement->getAttribute(tc("name").get())).get();
-        variableGroupDescription.type = tc(variableGroupElement->getTagName()).get();
+        variableGroupDescription.type = tc(variableGroupElement->getLocalName()).get();
 
         for (auto variableGroupChildElement = variableGroupElement->getFirstElementChild(); variableGroupChildElement != nullptr; variableGroupChildElement = variableGroupChildElement->getNextElementSibling()) {
-            std::string tagName(tc(variableGroupChildElement->getTagName()).get());
+            std::string tagName(tc(variableGroupChildElement->getLocalName()).get());
             if (tagName == "Variable") {
                 std::string variableName = tc(variableGroupChildElement->getAttribute(tc("ref").get())).get();
                 variableGroupDescription.variables.push_back(std::move(variableName));
-- 
2.43.0


From 6873d5a0f313db245ba0bd0e024d0a3d1ea3aa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 42/59] fix: reject malformed OSP model descriptions

A file that isn't well-formed XML or lacks the VariableGroups element made the
system configuration parser dereference a null pointer.
---
 src/cosim/osp_config_parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 714d4a2..80ba389 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -623,9 +623,12 @@ struct extended_model_description
         const auto domImpl = xercesc::DOMImplementationRegistry::getDOMImplementation(tc("LS").get());
         const auto parser = static_cast<xercesc::DOMImplementationLS*>(domImpl)->createLSParser(xercesc::DOMImplementationLS::MODE_SYNCHRONOUS, tc("http://www.w3.org/2001/XMLSchema").get());
 
+        error_handler errorHandler;
+        parser->getDomConfig()->setParameter(xercesc::XMLUni::fgDOMErrorHandler, &errorHandler);
+
         const auto doc = parser->parseURI(ospModelDescription.string().c_str());
 
-        if (doc == nullptr) {
+        if (errorHandler.failed() || doc == nullptr || doc->getDocumentElement() == nullptr) {
             std::ostringstream oss;
             oss << "Validation of " << ospModelDescription.string() << " failed.";
             BOOST_LOG_SEV(log::logger(), log::error) << oss.str();
@@ -635,6 +638,9 @@ struct extended_model_description
         const auto rootElement = doc->getDocumentElement();
 
         const auto variableGroupsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagNameNS(tc("*").get(), tc("VariableGroups").get())->item(0));
+        if (variableGroupsElement == nullptr) {
+            throw std::runtime_error("No variable groups in model description " + ospModelDescription.string());
+        }
 
         for (auto variableGroupElement = variableGroupsElement->getFirstElementChild(); variableGroupElement != nullptr; variableGroupElement = variableGroupElement->getNextElementSibling()) {
             variable_group_description vgd = create_variable_group_description(variableGroupElement);
-- 
2.43.0


From 493000cbb89912d3568b0891bd3a3feed97a2bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 43/59] fix: report unsupported types in SSP files instead of
 terminating

A connector or parameter of a type which isn't supported (such as Enumeration)
or doesn't exist terminated the process.
---
 src/cosim/ssp/ssp_parser.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 9ddb60a..d475f88 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -5,8 +5,6 @@
  */
 #include "cosim/ssp/ssp_parser.hpp"
 
-#include "cosim/error.hpp"
-
 #include <boost/property_tree/xml_parser.hpp>
 
 namespace cosim
@@ -39,9 +37,9 @@ variable_type parse_connector_type(const boost::property_tree::ptree& tree)
     } else if (tree.get_child_optional("ssc:String")) {
         return variable_type::string;
     } else if (tree.get_child_optional("ssc:Enumeration")) {
-        COSIM_PANIC_M("Don't know how to handle Enumeration type!");
+        throw std::runtime_error("Connector type Enumeration is not supported");
     } else if (tree.get_child_optional("ssc:Binary")) {
-        COSIM_PANIC_M("Don't know how to handle Binary type!");
+        throw std::runtime_error("Connector type Binary is not supported");
     } else {
         throw std::invalid_argument("A valid connector type was not found!");
     }
@@ -66,7 +64,7 @@ ssp_parser::ParameterSet parse_parameter_set(const boost::property_tree::ptree&
             const auto value = get_attribute<std::string>(*stringParameter, "value");
             parameterSet.parameters.push_back({name, variable_type::string, value});
         } else {
-            COSIM_PANIC();
+            throw std::runtime_error("Parameter '" + name + "' has an unknown or unsupported type");
         }
     }
     return parameterSet;
-- 
2.43.0


From 2fc97f110b9838b49c4de69ed6f2f204a6529d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:55 +0000
Subject: [PATCH 44/59] fix: reject SSP files with duplicate component names

All but the last component of the same name were silently dropped.
---
 src/cosim/ssp/ssp_parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index d475f88..0522e6c 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -181,7 +181,9 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                 }
             }
         }
-        elements_[comp.name] = comp;
+        if (!elements_.emplace(comp.name, comp).second) {
+            throw std::runtime_error("Duplicate component name: " + comp.name);
+        }
     }
 
     if (const auto connections = system.get_child_optional("ssd:Connections")) {
-- 
2.43.0


From 8cb1a002afda756ae2573f470599df8b175014e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 45/59] fix: look up models by absolute references whatever the
 base URI is

---
 src/cosim/orchestration.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cosim/orchestration.cpp b/src/cosim/orchestration.cpp
index c5afea9..c00ad2b 100644
--- a/src/cosim/orchestration.cpp
+++ b/src/cosim/orchestration.cpp
@@ -26,7 +26,10 @@ std::shared_ptr<model> model_uri_sub_resolver::lookup_model(
     const uri& baseUri,
     const uri& modelUriReference)
 {
-    return lookup_model(resolve_reference(baseUri, modelUriReference));
+    // The base URI is irrelevant, and need not be absolute, if the reference is.
+    return lookup_model(resolve_reference(
+        modelUriReference.scheme() ? modelUriReference : baseUri,
+        modelUriReference));
 }
 
 
-- 
2.43.0


From 8fd80b3f4efb108a6c21d737243fbe40f0bae32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:50 +0000
Subject: [PATCH 46/59] fix: don't mistake a new lock file for a deleted one of
 the same name

---
 src/cosim/utility/concurrency.cpp | 57 ++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index 8e00af4..9c10d27 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -18,6 +18,7 @@
 #else
 #    include <cerrno>
 #    include <fcntl.h>
+#    include <sys/stat.h>
 #endif
 
 
@@ -271,6 +272,54 @@ file_lock::file_mutex::file_mutex(const cosim::filesystem::path& path)
 { }
 
 
+namespace
+{
+// The identity of an existing file.
+//
+// On POSIX systems, the file may be deleted and another one created with the
+// same name while some thread still refers to its mutex, so the name won't do.
+class file_identity
+{
+public:
+    explicit file_identity(const cosim::filesystem::path& path)
+#ifdef _WIN32
+        : path_(cosim::filesystem::canonical(path))
+    { }
+#else
+    {
+        if (stat(path.c_str(), &status_) != 0) {
+            throw std::system_error(
+                errno,
+                std::system_category(),
+                "Failed to look up lock file '" + path.string() + "'");
+        }
+    }
+#endif
+
+    // Whether the file is the one which is currently found at `path`.
+    bool is_at(const cosim::filesystem::path& path) const
+    {
+#ifdef _WIN32
+        // (It's not an error if the other file has been deleted.)
+        std::error_code ignoredError;
+        return cosim::filesystem::equivalent(path, path_, ignoredError);
+#else
+        struct stat status;
+        return stat(path.c_str(), &status) == 0 &&
+            status.st_dev == status_.st_dev && status.st_ino == status_.st_ino;
+#endif
+    }
+
+private:
+#ifdef _WIN32
+    cosim::filesystem::path path_;
+#else
+    struct stat status_;
+#endif
+};
+} // namespace
+
+
 std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     const cosim::filesystem::path& path)
 {
@@ -281,7 +330,7 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     // one had been created for the same file.
     struct file_mutex_cache_entry
     {
-        cosim::filesystem::path path;
+        file_identity file;
         std::shared_ptr<file_mutex> fileMutex;
     };
     static std::vector<file_mutex_cache_entry> fileMutexCache;
@@ -302,9 +351,7 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     }
     if (cosim::filesystem::exists(path)) {
         for (const auto& entry : fileMutexCache) {
-            // (It's not an error if the other file has been deleted.)
-            std::error_code ignoredError;
-            if (cosim::filesystem::equivalent(path, entry.path, ignoredError)) {
+            if (entry.file.is_at(path)) {
                 assert(!fileMutex);
                 fileMutex = entry.fileMutex;
             }
@@ -314,7 +361,7 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     // If no element corresponding to the given path was found, create one.
     if (!fileMutex) {
         fileMutex = std::make_shared<file_mutex>(path);
-        fileMutexCache.push_back({cosim::filesystem::canonical(path), fileMutex});
+        fileMutexCache.push_back({file_identity(path), fileMutex});
     }
 
     return fileMutex;
-- 
2.43.0


From 8d3347209e4b59b8cb040a5c172f915a921cbfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:05 +0000
Subject: [PATCH 47/59] fix: use the configured number of steps for the first
 rolling average real-time factor too

---
 src/cosim/timer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cosim/timer.cpp b/src/cosim/timer.cpp
index 1a191ba..f96a676 100644
--- a/src/cosim/timer.cpp
+++ b/src/cosim/timer.cpp
@@ -36,6 +36,7 @@ public:
         const auto newHash = std::hash<real_time_config>()(*config_);
         if (newHash != configHashValue_) {
             start(currentTime);
+            rtCounter_ = -1L; // the present step is not part of the new measurement
             const auto sampling_period = config_->sampling_period_to_monitor.load();
             if (sampling_period.count() > 0) {
                 sampling_period_to_monitor_ = sampling_period;
@@ -96,6 +97,7 @@ private:
 
     void update_real_time_factor(Time::time_point currentTime, time_point currentSimulationTime)
     {
+        rtCounter_++;
         const auto relativeSimTime =  std::chrono::duration_cast<cosim::duration>(currentSimulationTime - simulationStartTime_);
         const auto relativeRealTime =  std::chrono::duration_cast<cosim::duration>(currentTime - startTime_);
         metrics_->total_average_real_time_factor = relativeSimTime.count() / (1.0 * relativeRealTime.count());
@@ -111,7 +113,6 @@ private:
             const auto elapsedRealTime = currentTime - rtStartTime_;
             update_rolling_average_real_time_factor(currentTime, currentSimulationTime, elapsedRealTime);
         }
-        rtCounter_++;
     }
 };
 
-- 
2.43.0


From 2238f896f24ac304407387681069ee612d0a6dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:05 +0000
Subject: [PATCH 48/59] fix: don't apply real-time settings to the time before
 they were changed

---
 src/cosim/timer.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/cosim/timer.cpp b/src/cosim/timer.cpp
index f96a676..34f7ee4 100644
--- a/src/cosim/timer.cpp
+++ b/src/cosim/timer.cpp
@@ -33,11 +33,20 @@ public:
 
     void sleep(time_point currentTime)
     {
-        const auto newHash = std::hash<real_time_config>()(*config_);
+        // The settings may be changed by other threads at any time, so all use
+        // of them here is based on one copy.  (Otherwise, new settings could be
+        // applied to the time before they were made.)
+        real_time_config config;
+        config.real_time_simulation = config_->real_time_simulation.load();
+        config.real_time_factor_target = config_->real_time_factor_target.load();
+        config.steps_to_monitor = config_->steps_to_monitor.load();
+        config.sampling_period_to_monitor = config_->sampling_period_to_monitor.load();
+
+        const auto newHash = std::hash<real_time_config>()(config);
         if (newHash != configHashValue_) {
             start(currentTime);
             rtCounter_ = -1L; // the present step is not part of the new measurement
-            const auto sampling_period = config_->sampling_period_to_monitor.load();
+            const auto sampling_period = config.sampling_period_to_monitor.load();
             if (sampling_period.count() > 0) {
                 sampling_period_to_monitor_ = sampling_period;
             } else {
@@ -45,8 +54,8 @@ public:
             }
             configHashValue_ = newHash;
         }
-        double rtfTarget = config_->real_time_factor_target.load();
-        if (config_->real_time_simulation && rtfTarget > 0.0) {
+        double rtfTarget = config.real_time_factor_target.load();
+        if (config.real_time_simulation && rtfTarget > 0.0) {
             const auto elapsed = Time::now() - startTime_;
             const auto expectedSimulationTime = (currentTime - simulationStartTime_) / rtfTarget;
             const auto simulationSleepTime = expectedSimulationTime - elapsed;
@@ -55,7 +64,7 @@ public:
                 std::this_thread::sleep_for(simulationSleepTime);
             }
         }
-        update_real_time_factor(Time::now(), currentTime);
+        update_real_time_factor(Time::now(), currentTime, config.steps_to_monitor);
     }
 
     std::shared_ptr<real_time_config> get_real_time_config() const
@@ -95,7 +104,7 @@ private:
         rtCounter_ = 0L;
     }
 
-    void update_real_time_factor(Time::time_point currentTime, time_point currentSimulationTime)
+    void update_real_time_factor(Time::time_point currentTime, time_point currentSimulationTime, int stepsToMonitor)
     {
         rtCounter_++;
         const auto relativeSimTime =  std::chrono::duration_cast<cosim::duration>(currentSimulationTime - simulationStartTime_);
@@ -109,7 +118,7 @@ private:
                 const auto elapsedSimTime = currentSimulationTime - rtSimulationStartTime_;
                 update_rolling_average_real_time_factor(currentTime, currentSimulationTime, elapsedRealTime);
             }
-        } else if (rtCounter_ >= config_->steps_to_monitor.load()) {
+        } else if (rtCounter_ >= stepsToMonitor) {
             const auto elapsedRealTime = currentTime - rtStartTime_;
             update_rolling_average_real_time_factor(currentTime, currentSimulationTime, elapsedRealTime);
         }
-- 
2.43.0


From 8da03c6411eea57f6498d5f02b48319758b8d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:09 +0000
Subject: [PATCH 49/59] fix: reject time values that are out of range instead
 of converting them with undefined results

---
 include/cosim/time.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cosim/time.hpp b/include/cosim/time.hpp
index 808ed04..43efc24 100644
--- a/include/cosim/time.hpp
+++ b/include/cosim/time.hpp
@@ -14,6 +14,7 @@
 #include <chrono>
 #include <cstdint>
 #include <ratio>
+#include <stdexcept>
 
 
 namespace cosim
@@ -62,9 +63,16 @@ using time_point = detail::clock::time_point;
  *  `to_duration(double, double)`.
  *
  *  The conversion may be subject to round-off error and truncation.
+ *
+ *  \throws std::out_of_range
+ *      if `d` is NaN or too large to be represented as a `duration`.
  */
 constexpr duration to_duration(double d)
 {
+    constexpr auto limit = std::chrono::duration<double>(duration::max()).count();
+    if (!(-limit < d && d < limit)) {
+        throw std::out_of_range("Time value out of range");
+    }
     return std::chrono::duration_cast<duration>(std::chrono::duration<double>(d));
 }
 
-- 
2.43.0


From 2a61850549be4962654915fe5b48dc85af79ef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:08 +0000
Subject: [PATCH 50/59] fix: translate exceptions from the XML parser to
 standard ones

---
 src/cosim/osp_config_parser.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 80ba389..b66c2ca 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -16,6 +16,7 @@
 #include <xercesc/dom/DOM.hpp>
 #include <xercesc/framework/MemBufInputSource.hpp>
 #include <xercesc/framework/Wrapper4InputSource.hpp>
+#include <xercesc/sax/SAXException.hpp>
 #include <xercesc/util/PlatformUtils.hpp>
 #include <xercesc/util/XMLString.hpp>
 
@@ -79,6 +80,26 @@ private:
     bool failed_;
 };
 
+// Parses an XML document.
+//
+// The exceptions thrown by Xerces are not derived from `std::exception`, and
+// they may not be used after the library has been terminated.  They are
+// therefore translated to `std::runtime_error`.
+xercesc::DOMDocument* parse_document(xercesc::DOMLSParser& parser, const cosim::filesystem::path& path)
+{
+    std::string message;
+    try {
+        return parser.parseURI(path.string().c_str());
+    } catch (const xercesc::DOMException& e) {
+        message = tc(e.getMessage()).get();
+    } catch (const xercesc::XMLException& e) {
+        message = tc(e.getMessage()).get();
+    } catch (const xercesc::SAXException& e) {
+        message = tc(e.getMessage()).get();
+    }
+    throw std::runtime_error("Failed to parse " + path.string() + ": " + message);
+}
+
 // The following class was copied from Microsoft Guidelines Support Library
 // https://github.com/microsoft/GSL
 // final_action allows you to ensure something gets run at the end of a scope
@@ -296,7 +317,7 @@ osp_config_parser::osp_config_parser(
     parser->getDomConfig()->setParameter(xercesc::XMLUni::fgXercesSchemaFullChecking, true);
     parser->getDomConfig()->setParameter(xercesc::XMLUni::fgXercesLoadSchema, false);
 
-    const auto doc = parser->parseURI(configPath.string().c_str());
+    const auto doc = parse_document(*parser, configPath);
 
     if (errorHandler.failed()) {
         std::ostringstream oss;
@@ -626,7 +647,7 @@ struct extended_model_description
         error_handler errorHandler;
         parser->getDomConfig()->setParameter(xercesc::XMLUni::fgDOMErrorHandler, &errorHandler);
 
-        const auto doc = parser->parseURI(ospModelDescription.string().c_str());
+        const auto doc = parse_document(*parser, ospModelDescription);
 
         if (errorHandler.failed() || doc == nullptr || doc->getDocumentElement() == nullptr) {
             std::ostringstream oss;
-- 
2.43.0


From 6c950646c7e858f4987937d08c6c1db2023b701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:03 +0000
Subject: [PATCH 51/59] fix: the reason why an FMU's binary couldn't be loaded
 was lost from the error message

FMI Library overwrites its last error message when the FMU is released.
---
 src/cosim/fmi/v1/fmu.cpp | 4 +---
 src/cosim/fmi/v2/fmu.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/cosim/fmi/v1/fmu.cpp b/src/cosim/fmi/v1/fmu.cpp
index f7fc72c..7d7699f 100644
--- a/src/cosim/fmi/v1/fmu.cpp
+++ b/src/cosim/fmi/v1/fmu.cpp
@@ -293,9 +293,7 @@ slave_instance::slave_instance(
     if (fmi1_import_create_dllfmu(handle_, callbacks, false) != jm_status_success) {
         const auto msg = fmu->importer()->last_error_message();
         fmi1_import_free(handle_);
-        throw error(
-            make_error_code(errc::dl_load_error),
-            fmu->importer()->last_error_message());
+        throw error(make_error_code(errc::dl_load_error), msg);
     }
 
     const auto rc = fmi1_import_instantiate_slave(
diff --git a/src/cosim/fmi/v2/fmu.cpp b/src/cosim/fmi/v2/fmu.cpp
index 7267c38..aa00795 100644
--- a/src/cosim/fmi/v2/fmu.cpp
+++ b/src/cosim/fmi/v2/fmu.cpp
@@ -294,9 +294,7 @@ slave_instance::slave_instance(
     if (fmi2_import_create_dllfmu(handle_, fmi2_fmu_kind_cs, &callbacks) != jm_status_success) {
         const auto msg = fmu->importer()->last_error_message();
         fmi2_import_free(handle_);
-        throw error(
-            make_error_code(errc::dl_load_error),
-            fmu->importer()->last_error_message());
+        throw error(make_error_code(errc::dl_load_error), msg);
     }
 
     const auto rc = fmi2_import_instantiate(
-- 
2.43.0


From d4f8910d4fd3d17fe1b1bde63bd081f28518feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:03 +0000
Subject: [PATCH 52/59] fix: the handle of an FMU that was rejected for not
 supporting co-simulation was leaked

---
 src/cosim/fmi/v1/fmu.cpp | 1 +
 src/cosim/fmi/v2/fmu.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/cosim/fmi/v1/fmu.cpp b/src/cosim/fmi/v1/fmu.cpp
index 7d7699f..9033850 100644
--- a/src/cosim/fmi/v1/fmu.cpp
+++ b/src/cosim/fmi/v1/fmu.cpp
@@ -53,6 +53,7 @@ fmu::fmu(
     const auto fmuKind = fmi1_import_get_fmu_kind(handle_);
     if (fmuKind != fmi1_fmu_kind_enu_cs_standalone &&
         fmuKind != fmi1_fmu_kind_enu_cs_tool) {
+        fmi1_import_free(handle_); // the destructor won't run
         throw error(
             make_error_code(errc::unsupported_feature),
             "Not a co-simulation FMU");
diff --git a/src/cosim/fmi/v2/fmu.cpp b/src/cosim/fmi/v2/fmu.cpp
index aa00795..a77fb09 100644
--- a/src/cosim/fmi/v2/fmu.cpp
+++ b/src/cosim/fmi/v2/fmu.cpp
@@ -52,6 +52,7 @@ fmu::fmu(
     }
     const auto fmuKind = fmi2_import_get_fmu_kind(handle_);
     if (!(fmuKind & fmi2_fmu_kind_cs)) {
+        fmi2_import_free(handle_); // the destructor won't run
         throw error(
             make_error_code(errc::unsupported_feature),
             "Not a co-simulation FMU");
-- 
2.43.0


From c712522a52be5d1d1d2bf811de7d897f21b27b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:04 +0000
Subject: [PATCH 53/59] fix: remote slaves were given step sizes that don't add
 up to the next communication point

to_double_duration() must be given the time at which the duration starts, not
the time at which the simulation started.
---
 src/cosim/proxy/remote_slave.cpp | 4 +---
 src/cosim/proxy/remote_slave.hpp | 1 -
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/cosim/proxy/remote_slave.cpp b/src/cosim/proxy/remote_slave.cpp
index 1144472..450f274 100644
--- a/src/cosim/proxy/remote_slave.cpp
+++ b/src/cosim/proxy/remote_slave.cpp
@@ -37,8 +37,6 @@ cosim::model_description cosim::proxy::remote_slave::model_description() const
 void cosim::proxy::remote_slave::setup(cosim::time_point startTime, std::optional<cosim::time_point> stopTime,
     std::optional<double> relativeTolerance)
 {
-    startTime_ = startTime;
-
     double start = to_double_time_point(startTime);
     double stop = to_double_time_point(stopTime.value_or(cosim::to_time_point(0)));
     double tolerance = relativeTolerance.value_or(0);
@@ -71,7 +69,7 @@ void cosim::proxy::remote_slave::end_simulation()
 
 cosim::step_result cosim::proxy::remote_slave::do_step(cosim::time_point currentTime, cosim::duration deltaT)
 {
-    auto status = slave_->step(to_double_time_point(currentTime), to_double_duration(deltaT, startTime_));
+    auto status = slave_->step(to_double_time_point(currentTime), to_double_duration(deltaT, currentTime));
     if (!status) {
         bad_status_throw("step");
     }
diff --git a/src/cosim/proxy/remote_slave.hpp b/src/cosim/proxy/remote_slave.hpp
index 4f02aac..7f4ddfc 100644
--- a/src/cosim/proxy/remote_slave.hpp
+++ b/src/cosim/proxy/remote_slave.hpp
@@ -63,7 +63,6 @@ public:
 
 private:
     bool terminated_;
-    cosim::time_point startTime_;
     std::unique_ptr<proxyfmu::fmi::slave> slave_;
     std::shared_ptr<const cosim::model_description> modelDescription_;
 };
-- 
2.43.0


From 807bd3c8b241fe1e4b3b44edc10decf5ec039048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:22 +0000
Subject: [PATCH 54/59] fix: losing the connection to a remote slave terminated
 the program when the slave was destroyed

---
 src/cosim/proxy/remote_slave.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cosim/proxy/remote_slave.cpp b/src/cosim/proxy/remote_slave.cpp
index 450f274..91f4319 100644
--- a/src/cosim/proxy/remote_slave.cpp
+++ b/src/cosim/proxy/remote_slave.cpp
@@ -202,6 +202,14 @@ void cosim::proxy::remote_slave::set_string_variables(gsl::span<const cosim::val
 
 cosim::proxy::remote_slave::~remote_slave()
 {
-    remote_slave::end_simulation();
-    slave_->freeInstance();
+    // Exceptions (for instance because the connection was lost) must not leave
+    // the destructor.
+    try {
+        remote_slave::end_simulation();
+    } catch (...) {
+    }
+    try {
+        slave_->freeInstance();
+    } catch (...) {
+    }
 }
-- 
2.43.0


From 8b2367983e1c6ffb9748d40272c715a6816add53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:22 +0000
Subject: [PATCH 55/59] fix: remote slaves were terminated even if the
 simulation had not started, and failures to terminate were not reported

---
 src/cosim/proxy/remote_slave.cpp | 12 ++++++++----
 src/cosim/proxy/remote_slave.hpp |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/cosim/proxy/remote_slave.cpp b/src/cosim/proxy/remote_slave.cpp
index 91f4319..9b48886 100644
--- a/src/cosim/proxy/remote_slave.cpp
+++ b/src/cosim/proxy/remote_slave.cpp
@@ -24,7 +24,7 @@ void bad_status_throw(const std::string& method)
 cosim::proxy::remote_slave::remote_slave(
     std::unique_ptr<proxyfmu::fmi::slave> slave,
     std::shared_ptr<const cosim::model_description> modelDescription)
-    : terminated_(false)
+    : simStarted_(false)
     , slave_(std::move(slave))
     , modelDescription_(std::move(modelDescription))
 { }
@@ -57,13 +57,17 @@ void cosim::proxy::remote_slave::start_simulation()
     if (!status) {
         bad_status_throw("exit_initialization_mode");
     }
+    simStarted_ = true;
 }
 
 void cosim::proxy::remote_slave::end_simulation()
 {
-    if (!terminated_) {
-        slave_->terminate();
-        terminated_ = true;
+    if (simStarted_) {
+        simStarted_ = false;
+        auto status = slave_->terminate();
+        if (!status) {
+            bad_status_throw("terminate");
+        }
     }
 }
 
diff --git a/src/cosim/proxy/remote_slave.hpp b/src/cosim/proxy/remote_slave.hpp
index 7f4ddfc..41c7c2d 100644
--- a/src/cosim/proxy/remote_slave.hpp
+++ b/src/cosim/proxy/remote_slave.hpp
@@ -62,7 +62,7 @@ public:
     ~remote_slave() override;
 
 private:
-    bool terminated_;
+    bool simStarted_;
     std::unique_ptr<proxyfmu::fmi::slave> slave_;
     std::shared_ptr<const cosim::model_description> modelDescription_;
 };
-- 
2.43.0


From 67c130e836a6c26647140ed9ecfc215ec21e9244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:22 +0000
Subject: [PATCH 56/59] fix: file URIs in the query of proxyfmu URIs were taken
 for relative paths on other systems than Windows

---
 src/cosim/proxy/proxy_uri_sub_resolver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cosim/proxy/proxy_uri_sub_resolver.cpp b/src/cosim/proxy/proxy_uri_sub_resolver.cpp
index 1500741..dd2818b 100644
--- a/src/cosim/proxy/proxy_uri_sub_resolver.cpp
+++ b/src/cosim/proxy/proxy_uri_sub_resolver.cpp
@@ -29,7 +29,12 @@ std::shared_ptr<cosim::model> cosim::proxy::proxy_uri_sub_resolver::lookup_model
     const auto query = mur.query();
     if (query) {
         if (query->find("file=file:///") < query->size()) {
-            const auto newQuery = "file=" + std::string(query->substr(13));
+#ifdef _WIN32
+            const auto pathPos = 13; // the path starts with a drive letter
+#else
+            const auto pathPos = 12; // the last slash is part of the path
+#endif
+            const auto newQuery = "file=" + std::string(query->substr(pathPos));
             return model_uri_sub_resolver::lookup_model(
                 baseUri, uri(mur.scheme(), mur.authority(), mur.path(), newQuery, mur.fragment()));
         } else if (query->find("file=") < query->size()) {
-- 
2.43.0


From b6dab716806b8b949bbb232f6dc536577a9e11c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 57/59] fix: an FMU that was only partly unpacked because the
 process got killed was used by later processes as if it were complete

---
 src/cosim/fmi/importer.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/cosim/fmi/importer.cpp b/src/cosim/fmi/importer.cpp
index 9e4fa90..3b266c4 100644
--- a/src/cosim/fmi/importer.cpp
+++ b/src/cosim/fmi/importer.cpp
@@ -20,6 +20,7 @@
 
 #include <cstdlib>
 #include <cstring>
+#include <fstream>
 #include <new>
 
 
@@ -195,18 +196,16 @@ std::shared_ptr<fmu> importer::import(const cosim::filesystem::path& fmuPath)
 
     auto fmuUnpackDir = fileCache_->get_directory_rw(guidStr);
 
-    // Unzip the entire FMU if necessary.
-    const auto modelDescriptionPath = fmuUnpackDir->path() / "modelDescription.xml";
-    if (is_outdated(modelDescriptionPath, fmuPath)) {
-        try {
-            zip.extract_all(fmuUnpackDir->path());
-        } catch (...) {
-            // Remove model description again, so we don't erroneously think
-            // that the unpacking was successful the next time we try it.
-            std::error_code ignoredError;
-            cosim::filesystem::remove(modelDescriptionPath, ignoredError);
-            throw;
-        }
+    // Unzip the entire FMU if necessary.  The marker file is created when this
+    // has been completed, so we don't erroneously think that the unpacking was
+    // successful if it fails or the process gets killed in the middle of it.
+    const auto markerPath = fmuUnpackDir->path() / ".cosim_fmu_unpacked";
+    if (is_outdated(markerPath, fmuPath)) {
+        const auto fmuTime = cosim::filesystem::last_write_time(fmuPath);
+        cosim::filesystem::remove(markerPath);
+        zip.extract_all(fmuUnpackDir->path());
+        std::ofstream(markerPath.string()).close();
+        cosim::filesystem::last_write_time(markerPath, fmuTime);
     }
 
     // Drop R/W privileges and acquire read-only access to FMU cache directory
-- 
2.43.0


From e1af4077c0134740c94e5b861571209f8cf5948b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:03 +0000
Subject: [PATCH 58/59] fix: Step multiples, and their least common multiples,
 no longer overflow

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 31 +++++++++++++-------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index 82d96f2..e21bf7d 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -11,7 +11,9 @@
 #include "cosim/utility/thread_pool.hpp"
 
 #include <algorithm>
+#include <cstdint>
 #include <cstdlib>
+#include <limits>
 #include <numeric>
 #include <sstream>
 #include <unordered_map>
@@ -23,14 +25,14 @@ namespace cosim
 namespace
 {
 
-int calculate_decimation_factor(
+std::int64_t calculate_decimation_factor(
     std::string_view name,
     duration baseStepSize,
     duration simulatorStepSize)
 {
     if (simulatorStepSize == duration::zero()) return 1;
     const auto result = std::div(simulatorStepSize.count(), baseStepSize.count());
-    const int factor = std::max<int>(1, static_cast<int>(result.quot));
+    const auto factor = std::max<std::int64_t>(1, result.quot);
     if (result.rem > 0 || result.quot < 1) {
         duration actualStepSize = baseStepSize * factor;
         const auto startTime = time_point();
@@ -43,6 +45,15 @@ int calculate_decimation_factor(
     return factor;
 }
 
+// Returns the least common multiple of two positive numbers, or the largest
+// representable number if it is larger than that.
+std::int64_t bounded_lcm(std::int64_t a, std::int64_t b)
+{
+    constexpr auto limit = std::numeric_limits<std::int64_t>::max();
+    const auto multiplier = b / std::gcd(a, b);
+    return a > limit / multiplier ? limit : a * multiplier;
+}
+
 } // namespace
 
 
@@ -281,7 +292,7 @@ private:
     struct simulator_info
     {
         simulator* sim;
-        int decimationFactor = 1;
+        std::int64_t decimationFactor = 1;
         step_result stepResult;
         std::vector<connection_ss> outgoingSimConnections;
         std::vector<connection_sf> outgoingFunConnections;
@@ -290,7 +301,7 @@ private:
     struct function_info
     {
         function* fun;
-        int decimationFactor = 1;
+        std::int64_t decimationFactor = 1;
         std::vector<connection_fs> outgoingSimConnections;
     };
 
@@ -320,9 +331,9 @@ private:
         f.decimationFactor = std::accumulate(
             f.outgoingSimConnections.begin(),
             f.outgoingSimConnections.end(),
-            1,
-            [&](int current, const auto& connection) {
-                return std::lcm(
+            std::int64_t(1),
+            [&](std::int64_t current, const auto& connection) {
+                return bounded_lcm(
                     current,
                     simulators_.at(connection.target.simulator).decimationFactor);
             });
@@ -352,7 +363,7 @@ private:
         for (const auto& c : connections) {
             const auto sdf = simulators_.at(c.source.simulator).decimationFactor;
             const auto tdf = simulators_.at(c.target.simulator).decimationFactor;
-            if (stepCounter_ % std::lcm(sdf, tdf) == 0) {
+            if (stepCounter_ % bounded_lcm(sdf, tdf) == 0) {
                 transfer_variable(c);
             }
         }
@@ -363,7 +374,7 @@ private:
         for (const auto& c : connections) {
             const auto sdf = simulators_.at(c.source.simulator).decimationFactor;
             const auto tdf = functions_.at(c.target.function).decimationFactor;
-            if (stepCounter_ % std::lcm(sdf, tdf) == 0) {
+            if (stepCounter_ % bounded_lcm(sdf, tdf) == 0) {
                 transfer_variable(c);
             }
         }
@@ -374,7 +385,7 @@ private:
         for (const auto& c : connections) {
             const auto sdf = functions_.at(c.source.function).decimationFactor;
             const auto tdf = simulators_.at(c.target.simulator).decimationFactor;
-            if (stepCounter_ % std::lcm(sdf, tdf) == 0) {
+            if (stepCounter_ % bounded_lcm(sdf, tdf) == 0) {
                 transfer_variable(c);
             }
         }
-- 
2.43.0


From 536ca2ff06d4322e69b4b4de8bdfcf82e673078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:03 +0000
Subject: [PATCH 59/59] fix: observers of time series that were added during a
 simulation reported a step zero they hadn't recorded

---
 src/cosim/observer/time_series_observer.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cosim/observer/time_series_observer.cpp b/src/cosim/observer/time_series_observer.cpp
index 09d40b8..22096b3 100644
--- a/src/cosim/observer/time_series_observer.cpp
+++ b/src/cosim/observer/time_series_observer.cpp
@@ -78,6 +78,15 @@ public:
 
     ~single_slave_observer() noexcept = default;
 
+    // Discards the provisional time sample made by the constructor, since the
+    // first step isn't number zero if the simulation has run for a while.
+    void initialize(step_number firstStep, time_point startTime)
+    {
+        observe(firstStep, startTime);
+        std::lock_guard<std::mutex> lock(lock_);
+        timeSamples_.erase(timeSamples_.begin(), timeSamples_.find(firstStep));
+    }
+
     void observe(step_number timeStep, time_point currentTime)
     {
         std::lock_guard<std::mutex> lock(lock_);
@@ -242,7 +251,7 @@ void time_series_observer::simulation_initialized(
     time_point startTime)
 {
     for (const auto& entry : slaveObservers_) {
-        entry.second->observe(firstStep, startTime);
+        entry.second->initialize(firstStep, startTime);
     }
 }
 
-- 
2.43.0

