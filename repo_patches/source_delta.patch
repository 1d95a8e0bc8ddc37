From db7fa930074470796a8530466779b8615c3b4b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:47 +0000
Subject: [PATCH 01/23] fix: ignore 'done' messages from workers without a job

The current request was dereferenced without a check, so a duplicate or
unsolicited 'done' from an idle worker crashed the broker.
---
 src/handlers/broker_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index f84f791..7a1435e 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -280,6 +280,11 @@ void broker_handler::process_worker_done(
 
 	request_ptr current = queue_->get_current_request(worker);
 
+	if (current == nullptr) {
+		logger_->error("Got 'done' message from worker {}, which has no job assigned", worker->get_description());
+		return;
+	}
+
 	if (message.at(1) != current->data.get_job_id()) {
 		logger_->error("Got 'done' message from worker {} with mismatched job id - {} (message) vs. {} (worker)",
 			worker->get_description(),
-- 
2.43.0


From d6da61594b09f62a5a85a395ff882afe57d81c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:47 +0000
Subject: [PATCH 02/23] fix: expire workers that stay silent after their
 registration

The liveness of a new worker started at zero and underflowed on the first
missed ping, so a worker that never sent anything after 'init' was never
removed and its job was never reassigned.
---
 src/handlers/broker_handler.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 7a1435e..eed167c 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -239,6 +239,9 @@ void broker_handler::process_worker_init(
 		}
 	}
 
+	// The worker is alive, give it the whole grace period
+	new_worker->liveness = config_->get_max_worker_liveness();
+
 	// Insert the worker into the registry
 	workers_->add_worker(new_worker);
 	request_ptr request = queue_->add_worker(new_worker, current_request);
@@ -398,7 +401,9 @@ void broker_handler::process_timer(const message_container &message, const handl
 		worker_timers_[worker] += time;
 
 		if (worker_timers_[worker] > config_->get_worker_ping_interval()) {
-			worker->liveness -= 1;
+			if (worker->liveness > 0) {
+				worker->liveness -= 1;
+			}
 			worker_timers_[worker] = std::chrono::milliseconds(0);
 
 			if (worker->liveness <= 0) {
-- 
2.43.0


From fdee9d92880d77dcbffa8cd421311b89e9fd3bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:47 +0000
Subject: [PATCH 03/23] fix: do not assign anything to a worker that registers
 with a running job

single_queue_manager::add_worker returned the job the worker already runs,
so the broker sent an empty message to the worker.
---
 src/queuing/single_queue_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queuing/single_queue_manager.h b/src/queuing/single_queue_manager.h
index 1d4d87c..9b671bf 100644
--- a/src/queuing/single_queue_manager.h
+++ b/src/queuing/single_queue_manager.h
@@ -81,7 +81,7 @@ public:
         workers_.push_back(worker);
 
         if (current_request != nullptr) {
-            return current_request;
+            return nullptr; // the worker is busy, there is nothing to assign
         }
 
         return assign_request(worker);
-- 
2.43.0


From a6bc3fb86a7e8ebf27ce73d4b8619b9ddd0e40fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:47 +0000
Subject: [PATCH 04/23] fix: survive truncated messages

An 'eval' message without a job id or headers made the broker throw an
exception or read past the end of the message.
---
 src/handlers/broker_handler.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index eed167c..7ef1719 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -63,6 +63,11 @@ broker_handler::broker_handler(std::shared_ptr<const broker_config> config,
 
 void broker_handler::on_request(const message_container &message, const response_cb &respond)
 {
+	if (message.data.empty()) {
+		logger_->warn("Received an empty message. Skipped.");
+		return;
+	}
+
 	if (message.key == broker_connect::KEY_WORKERS) {
 		auto worker = workers_->find_worker_by_identity(message.identity);
 
@@ -92,6 +97,12 @@ void broker_handler::process_client_eval(
 	// Then let client know that we are alive and well
 	respond(message_container(broker_connect::KEY_CLIENTS, identity, {"ack"}));
 
+	// There must be a job identification and at least the empty frame after the headers
+	if (message.size() < 3) {
+		logger_->warn("Unexpected end of message from frontend. Skipped.");
+		return;
+	}
+
 	// Get job identification and parse headers
 	std::string job_id = message.at(1);
 	request::headers_t headers;
-- 
2.43.0


From 1d86934543223799ecc458ff53679198134b1d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:47 +0000
Subject: [PATCH 05/23] fix: treat malformed 'threads' headers as not matching

A 'threads' header that is not a number (or does not fit), in a worker's
'init' or a client's 'eval', threw an exception that ended the broker.
---
 src/worker.cpp | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/worker.cpp b/src/worker.cpp
index 1935cbb..60a4c6a 100644
--- a/src/worker.cpp
+++ b/src/worker.cpp
@@ -1,5 +1,6 @@
 #include "worker.h"
 #include "helpers/string_to_hex.h"
+#include <stdexcept>
 
 bool header_matcher::match(const std::string &value)
 {
@@ -57,6 +58,25 @@ bool multiple_string_matcher::match(const std::string &value)
 	return false;
 }
 
+/**
+ * Convert a header value to a number.
+ * @return @a true if the value is a (representable) number, @a false otherwise.
+ */
+static bool parse_count(const std::string &value, std::size_t &result)
+{
+	if (value.empty() || value.find_first_not_of("0123456789") != std::string::npos) {
+		return false;
+	}
+
+	try {
+		result = std::stoul(value);
+	} catch (const std::out_of_range &) {
+		return false;
+	}
+
+	return true;
+}
+
 /**
  * Checks if a given value is less than or equal to a preset number.
  */
@@ -64,14 +84,17 @@ class count_matcher : public header_matcher
 {
 private:
 	/** Preset number to be base for comparison. */
-	std::size_t my_count_;
+	std::size_t my_count_ = 0;
+
+	/** False if the preset value is not a number (nothing matches then). */
+	bool valid_;
 
 public:
 	/**
 	 * Constructor.
-	 * @param my_value Base value for comparison. Will be converted to @a std::size_t type using std::stoul.
+	 * @param my_value Base value for comparison. Will be converted to @a std::size_t type.
 	 */
-	count_matcher(std::string my_value) : header_matcher(my_value), my_count_(std::stoul(my_value))
+	count_matcher(std::string my_value) : header_matcher(my_value), valid_(parse_count(my_value, my_count_))
 	{
 	}
 
@@ -80,8 +103,7 @@ public:
 
 	/**
 	 * Check if given value is >= to inner preset value.
-	 * @param value Value to be checked. Before comparison, the value is converted to @a std::size_t type using
-	 * std::stoul.
+	 * @param value Value to be checked. Before comparison, the value is converted to @a std::size_t type.
 	 * @return @a true if value matches, @a false otherwise.
 	 */
 	bool match(const std::string &value) override;
@@ -89,7 +111,8 @@ public:
 
 bool count_matcher::match(const std::string &value)
 {
-	return my_count_ >= std::stoul(value);
+	std::size_t count;
+	return valid_ && parse_count(value, count) && my_count_ >= count;
 }
 
 worker::worker(
-- 
2.43.0


From 73ee628c960bb2970e84ae65def8dae74e27d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:47 +0000
Subject: [PATCH 06/23] fix: give a worker its next job after an internal error

When the failed job was reassigned to another worker or could not be
reassigned at all, the worker stayed idle although jobs waited for it.
---
 src/handlers/broker_handler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 7ef1719..97e9c0c 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -335,7 +335,10 @@ void broker_handler::process_worker_done(
 				failed_request->data.get_job_id(), "Job failed with '" + message.at(3) + "' and cannot be reassigned");
 		} else if (check_failure_count(failed_request, status_notifier, respond, message.at(3))) {
 			reassign_request(failed_request, respond);
-		} else {
+		}
+
+		// Unless it got the same job again, the worker is free now
+		if (queue_->get_current_request(worker) == nullptr) {
 			auto new_request = queue_->assign_request(worker);
 			if (new_request) {
 				send_request(worker, new_request, respond);
-- 
2.43.0


From 926c5b0d4a808f527a3ba8c1f847dd749ec7933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:47 +0000
Subject: [PATCH 07/23] fix: do not reassign jobs to workers that expired at
 the same time

Expired workers were removed one by one, so a job of the first one could be
sent to (and its failure count raised because of) another dead worker. Also
forget the timers of removed workers.
---
 src/handlers/broker_handler.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 97e9c0c..f7a851d 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -429,15 +429,24 @@ void broker_handler::process_timer(const message_container &message, const handl
 	reactor_status_notifier status_notifier(respond, broker_connect::KEY_STATUS_NOTIFIER);
 	const static std::string failure_msg = "Worker timed out and its job cannot be reassigned";
 
+	// Remove all the expired workers first, so that no job is reassigned to one of them
+	std::vector<std::pair<worker_registry::worker_ptr, std::shared_ptr<std::vector<request_ptr>>>> terminated;
+
 	for (const auto &worker : to_remove) {
 		logger_->info("Worker {} expired", worker->get_description());
 
 		workers_->remove_worker(worker);
+		worker_timers_.erase(worker);
 		if (queue_->get_current_request(worker) != nullptr) {
 			queue_->get_current_request(worker)->failure_count += 1;
 		}
 
-		auto requests = queue_->worker_terminated(worker);
+		terminated.emplace_back(worker, queue_->worker_terminated(worker));
+	}
+
+	for (const auto &pair : terminated) {
+		const auto &worker = pair.first;
+		const auto &requests = pair.second;
 		std::vector<worker::request_ptr> unassigned_requests;
 
 		for (const auto &request : *requests) {
-- 
2.43.0


From 21f37d7ebed7034f77c79549421c9c5a11ba5751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:47 +0000
Subject: [PATCH 08/23] fix: keep the order of jobs that arrived in the same
 millisecond

std::sort is not stable, and the wall clock may be set back, so a job could
overtake those that were accepted before it.
---
 src/queuing/single_queue_manager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/queuing/single_queue_manager.h b/src/queuing/single_queue_manager.h
index 9b671bf..e68e2d4 100644
--- a/src/queuing/single_queue_manager.h
+++ b/src/queuing/single_queue_manager.h
@@ -90,7 +90,7 @@ public:
     request_ptr assign_request(worker_ptr worker) override
     {
         worker_jobs_[worker] = nullptr;
-        std::sort(jobs_.begin(), jobs_.end(), [this, worker] (const request_entry &a, const request_entry &b) {
+        std::stable_sort(jobs_.begin(), jobs_.end(), [this, worker] (const request_entry &a, const request_entry &b) {
             return comparator_->compare(a, b, worker);
         });
 
@@ -152,7 +152,7 @@ public:
             jobs_.push_back(request_entry{
                 .request = request,
                 .arrived_at = std::chrono::duration_cast<std::chrono::milliseconds>(
-                    std::chrono::system_clock::now().time_since_epoch()
+                    std::chrono::steady_clock::now().time_since_epoch()
                 ),
             });
         }
-- 
2.43.0


From f0dd995b55352cb2bd9644731f36fb11cb9c86b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:47 +0000
Subject: [PATCH 09/23] fix: report jobs-in-progress also before the first
 timer message

---
 src/handlers/broker_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index f7a851d..fa57f70 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -19,6 +19,7 @@ broker_handler::broker_handler(std::shared_ptr<const broker_config> config,
 	runtime_stats_.emplace(STATS_FAILED_JOBS, 0);
 	runtime_stats_.emplace(STATS_WORKER_COUNT, 0);
 	runtime_stats_.emplace(STATS_IDLE_WORKER_COUNT, 0);
+	runtime_stats_.emplace(STATS_JOBS_IN_PROGRESS, 0);
 
 	client_commands_.register_command(
 		"eval", [this](const std::string &identity, const std::vector<std::string> &message, response_cb respond) {
-- 
2.43.0


From 21e1a74d0fe00930c123ea76f7a9464b50985b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:47 +0000
Subject: [PATCH 10/23] fix: initialize the notifier port

Without a port in the configuration an indeterminate value was used.
---
 src/config/notifier_config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/notifier_config.h b/src/config/notifier_config.h
index 48b906b..ef3af52 100644
--- a/src/config/notifier_config.h
+++ b/src/config/notifier_config.h
@@ -17,7 +17,7 @@ public:
 	/**
 	 * Port on which frontend runs.
 	 */
-	std::uint16_t port;
+	std::uint16_t port = 0;
 
 	/**
 	 * Username which is used in HTTP authentication.
-- 
2.43.0


From 7165c4e7f54cc48c419439bd9021f746f6341dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:47 +0000
Subject: [PATCH 11/23] fix: do not sign-extend bytes in string_to_hex

---
 src/helpers/string_to_hex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helpers/string_to_hex.cpp b/src/helpers/string_to_hex.cpp
index 707c798..ea7b258 100644
--- a/src/helpers/string_to_hex.cpp
+++ b/src/helpers/string_to_hex.cpp
@@ -5,7 +5,7 @@ std::string helpers::string_to_hex(const std::string &string)
 	std::stringstream ss;
 	ss << std::hex << std::setfill('0') << std::nouppercase;
 	for (auto &c : string) {
-		ss << std::setw(2) << static_cast<unsigned int>(c);
+		ss << std::setw(2) << static_cast<unsigned int>(static_cast<unsigned char>(c));
 	}
 	return ss.str();
 }
-- 
2.43.0


From 82986050beb77429d8fc7813fa50d0d965901df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:47 +0000
Subject: [PATCH 12/23] fix: encode the parameters of HTTP requests

Messages with characters such as '&', '+' or '%' (or a null byte) reached
the frontend truncated or changed.
---
 src/helpers/curl.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/helpers/curl.cpp b/src/helpers/curl.cpp
index f223391..9331d46 100644
--- a/src/helpers/curl.cpp
+++ b/src/helpers/curl.cpp
@@ -7,6 +7,28 @@
 #endif
 
 
+/**
+ * Percent-encode a string so that it can be used in a query or form data.
+ */
+static std::string url_encode(const std::string &value)
+{
+	static const char *digits = "0123456789ABCDEF";
+	static const std::string unreserved = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~";
+	std::string result;
+
+	for (unsigned char c : value) {
+		if (unreserved.find(static_cast<char>(c)) != std::string::npos) {
+			result += static_cast<char>(c);
+		} else {
+			result += '%';
+			result += digits[c >> 4];
+			result += digits[c & 15];
+		}
+	}
+
+	return result;
+}
+
 std::string helpers::get_http_query(const curl_params &params)
 {
 	std::string result;
@@ -16,7 +38,7 @@ std::string helpers::get_http_query(const curl_params &params)
 			result += "&";
 		}
 
-		result += par.first + "=" + par.second;
+		result += url_encode(par.first) + "=" + url_encode(par.second);
 	}
 
 	return result;
-- 
2.43.0


From 45940e9ac62740d8e8cd9acb3637112dd37eb466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:47 +0000
Subject: [PATCH 13/23] fix: do not treat a failed curl_easy_init as a success

The status report was silently dropped instead of being sent again.
---
 src/helpers/curl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helpers/curl.cpp b/src/helpers/curl.cpp
index 9331d46..8e0c8b5 100644
--- a/src/helpers/curl.cpp
+++ b/src/helpers/curl.cpp
@@ -114,6 +114,8 @@ std::string helpers::curl_get(const std::string &url,
 				") " + curl_easy_strerror(res);
 			throw curl_exception(error_message);
 		}
+	} else {
+		throw curl_exception("Failed to initialize a CURL handle");
 	}
 
 	return result;
@@ -175,6 +177,8 @@ std::string helpers::curl_post(const std::string &url,
 				") " + curl_easy_strerror(res);
 			throw curl_exception(error_message);
 		}
+	} else {
+		throw curl_exception("Failed to initialize a CURL handle");
 	}
 
 	return result;
-- 
2.43.0


From ee0dbf3d4d2ada5320ff1483499872aa1fbee1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:13 +0000
Subject: [PATCH 14/23] fix: let a different 'init' replace the previous
 registration of a worker

An 'init' with other headers from a registered worker added a second worker
with the same identity, while messages were still attributed to the first one:
jobs given to the second one could never be finished, and a change of the
hardware group alone was ignored. Now the new registration takes the place of
the old one, whose jobs are reassigned (or kept, if the worker says it still
runs the job), and a job that fails when nobody can process it any more is
reported to the frontend.
---
 src/handlers/broker_handler.cpp | 41 ++++++++++++++++++++++++++++-----
 src/handlers/broker_handler.h   | 16 +++++++++++++
 2 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index fa57f70..379685e 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -221,7 +221,7 @@ void broker_handler::process_worker_init(
 	worker_registry::worker_ptr current_worker = workers_->find_worker_by_identity(identity);
 
 	if (current_worker != nullptr) {
-		if (current_worker->headers_equal(headers)) {
+		if (current_worker->hwgroup == hwgroup && current_worker->headers_equal(headers)) {
 			// We don't have to update anything
 			return;
 		}
@@ -254,6 +254,14 @@ void broker_handler::process_worker_init(
 	// The worker is alive, give it the whole grace period
 	new_worker->liveness = config_->get_max_worker_liveness();
 
+	// If the worker still runs the job we gave it, keep what we know about the job
+	if (current_worker != nullptr && current_request != nullptr) {
+		auto known_request = queue_->get_current_request(current_worker);
+		if (known_request != nullptr && known_request->data.get_job_id() == current_request->data.get_job_id()) {
+			current_request = queue_->worker_cancelled(current_worker);
+		}
+	}
+
 	// Insert the worker into the registry
 	workers_->add_worker(new_worker);
 	request_ptr request = queue_->add_worker(new_worker, current_request);
@@ -263,6 +271,11 @@ void broker_handler::process_worker_init(
 		send_request(new_worker, request, respond);
 	}
 
+	// The new registration replaces the previous one
+	if (current_worker != nullptr) {
+		remove_workers({current_worker}, "Worker changed its headers and its job cannot be reassigned", respond);
+	}
+
 	// Start an idle timer for our new worker
 	worker_timers_.emplace(new_worker, std::chrono::milliseconds(0));
 
@@ -335,7 +348,10 @@ void broker_handler::process_worker_done(
 			status_notifier.rejected_job(
 				failed_request->data.get_job_id(), "Job failed with '" + message.at(3) + "' and cannot be reassigned");
 		} else if (check_failure_count(failed_request, status_notifier, respond, message.at(3))) {
-			reassign_request(failed_request, respond);
+			if (!reassign_request(failed_request, respond)) {
+				status_notifier.rejected_job(failed_request->data.get_job_id(),
+					"Job failed with '" + message.at(3) + "' and cannot be reassigned");
+			}
 		}
 
 		// Unless it got the same job again, the worker is free now
@@ -427,15 +443,25 @@ void broker_handler::process_timer(const message_container &message, const handl
 		}
 	}
 
-	reactor_status_notifier status_notifier(respond, broker_connect::KEY_STATUS_NOTIFIER);
+	for (const auto &worker : to_remove) {
+		logger_->info("Worker {} expired", worker->get_description());
+	}
+
 	const static std::string failure_msg = "Worker timed out and its job cannot be reassigned";
+	remove_workers(to_remove, failure_msg, respond);
+	update_runtime_stats();
+}
+
+void broker_handler::remove_workers(const std::list<worker_registry::worker_ptr> &to_remove,
+	const std::string &failure_msg,
+	const response_cb &respond)
+{
+	reactor_status_notifier status_notifier(respond, broker_connect::KEY_STATUS_NOTIFIER);
 
-	// Remove all the expired workers first, so that no job is reassigned to one of them
+	// Remove all the workers first, so that no job is reassigned to one of them
 	std::vector<std::pair<worker_registry::worker_ptr, std::shared_ptr<std::vector<request_ptr>>>> terminated;
 
 	for (const auto &worker : to_remove) {
-		logger_->info("Worker {} expired", worker->get_description());
-
 		workers_->remove_worker(worker);
 		worker_timers_.erase(worker);
 		if (queue_->get_current_request(worker) != nullptr) {
@@ -477,7 +503,10 @@ void broker_handler::process_timer(const message_container &message, const handl
 			}
 		}
 	}
+}
 
+void broker_handler::update_runtime_stats()
+{
 	runtime_stats_[STATS_QUEUED_JOBS] = queue_->get_queued_request_count();
 	runtime_stats_[STATS_WORKER_COUNT] = workers_->get_workers().size();
 
diff --git a/src/handlers/broker_handler.h b/src/handlers/broker_handler.h
index 5268ee8..8c22c14 100644
--- a/src/handlers/broker_handler.h
+++ b/src/handlers/broker_handler.h
@@ -1,6 +1,7 @@
 #ifndef RECODEX_BROKER_BROKER_HANDLER_H
 #define RECODEX_BROKER_BROKER_HANDLER_H
 
+#include <list>
 #include <spdlog/logger.h>
 
 #include "../config/broker_config.h"
@@ -127,6 +128,21 @@ private:
 	 */
 	void process_timer(const message_container &message, const response_cb &respond);
 
+	/**
+	 * Remove workers (expired or replaced ones) and reassign their jobs. Jobs that cannot be reassigned are given up.
+	 * @param to_remove the workers
+	 * @param failure_msg a description of the reason
+	 * @param respond a callback for sending messages
+	 */
+	void remove_workers(const std::list<worker_registry::worker_ptr> &to_remove,
+		const std::string &failure_msg,
+		const response_cb &respond);
+
+	/**
+	 * Bring those runtime statistics that describe the current state up to date.
+	 */
+	void update_runtime_stats();
+
 	/**
 	 * Find a substitute worker to try and process the request again.
 	 * @param request the request to reassign
-- 
2.43.0


From 2e856d916f3c90533a51372c72b21a25fdce5bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:57 +0000
Subject: [PATCH 15/23] fix: do not send an identity frame without a message

A message without data left an unfinished multipart message behind, and the
next message sent through the socket was appended to it.
---
 src/reactor/router_socket_wrapper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reactor/router_socket_wrapper.cpp b/src/reactor/router_socket_wrapper.cpp
index 91c4d3c..d04d494 100644
--- a/src/reactor/router_socket_wrapper.cpp
+++ b/src/reactor/router_socket_wrapper.cpp
@@ -8,6 +8,10 @@ router_socket_wrapper::router_socket_wrapper(
 
 bool router_socket_wrapper::send_message(const message_container &source)
 {
+	// A message needs at least one frame, a lone identity would become a part of the next message
+	if (source.data.empty()) {
+		return false;
+	}
 
 	try {
 		socket_.send(source.identity.c_str(), source.identity.size(), ZMQ_SNDMORE);
-- 
2.43.0


From ebf6efd9a611003a149f8087d32e8b549f6f91d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:57 +0000
Subject: [PATCH 16/23] fix: finish messages without data for and from
 asynchronous handlers

The multipart message was left unfinished and swallowed the next one.
---
 src/reactor/reactor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 95b8dd1..c03d768 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -170,7 +170,7 @@ void asynchronous_handler_wrapper::operator()(const message_container &message)
 {
 	reactor_socket_.send(unique_id_.data(), unique_id_.size(), ZMQ_SNDMORE);
 	reactor_socket_.send(message.key.data(), message.key.size(), ZMQ_SNDMORE);
-	reactor_socket_.send(message.identity.data(), message.identity.size(), ZMQ_SNDMORE);
+	reactor_socket_.send(message.identity.data(), message.identity.size(), message.data.empty() ? 0 : ZMQ_SNDMORE);
 
 	for (auto it = std::begin(message.data); it != std::end(message.data); ++it) {
 		reactor_socket_.send(it->c_str(), it->size(), std::next(it) != std::end(message.data) ? ZMQ_SNDMORE : 0);
@@ -214,7 +214,7 @@ void asynchronous_handler_wrapper::handler_thread()
 void asynchronous_handler_wrapper::send_response(zmq::socket_t &socket, const message_container &message)
 {
 	socket.send(message.key.data(), message.key.size(), ZMQ_SNDMORE);
-	socket.send(message.identity.data(), message.identity.size(), ZMQ_SNDMORE);
+	socket.send(message.identity.data(), message.identity.size(), message.data.empty() ? 0 : ZMQ_SNDMORE);
 
 	for (auto it = std::begin(message.data); it != std::end(message.data); ++it) {
 		socket.send(it->c_str(), it->size(), std::next(it) != std::end(message.data) ? ZMQ_SNDMORE : 0);
-- 
2.43.0


From e297fc5e305ca1941b84a3186a6902117fc06472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:57 +0000
Subject: [PATCH 17/23] fix: do not forget a termination request made before
 the loop starts

---
 src/reactor/reactor.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index c03d768..621bb7e 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -6,7 +6,7 @@ const std::string reactor::KEY_TIMER = "timer";
 
 reactor::reactor(std::shared_ptr<zmq::context_t> context)
 	: unique_id("reactor_" + std::to_string((uintptr_t) this)), context_(context),
-	  async_handler_socket_(*context, zmq::socket_type::router)
+	  async_handler_socket_(*context, zmq::socket_type::router), termination_flag_(false)
 {
 	async_handler_socket_.bind("inproc://" + unique_id);
 }
@@ -71,8 +71,6 @@ void reactor::start_loop()
 	pollitems.push_back(
 		zmq_pollitem_t{.socket = (void *) async_handler_socket_, .fd = 0, .events = ZMQ_POLLIN, .revents = 0});
 
-	termination_flag_.store(false);
-
 	// Enter the poll loop
 	while (!termination_flag_.load()) {
 		auto time_before_poll = std::chrono::system_clock::now();
-- 
2.43.0


From 5b505d27972f09f876cd4d758aceef232e39a4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:57 +0000
Subject: [PATCH 18/23] fix: destroy the handlers of a reactor before its
 sockets and context

The destructor of an asynchronous handler uses the in-process socket, and a
context cannot be terminated while sockets exist.
---
 src/reactor/reactor.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/reactor/reactor.h b/src/reactor/reactor.h
index 0117860..b50d88c 100644
--- a/src/reactor/reactor.h
+++ b/src/reactor/reactor.h
@@ -194,24 +194,25 @@ public:
 
 private:
 	/**
-	 * Sockets indexed by their keys
+	 * A ZeroMQ context
 	 */
-	std::map<std::string, std::shared_ptr<socket_wrapper_base>> sockets_;
+	std::shared_ptr<zmq::context_t> context_;
 
 	/**
-	 * Handlers indexed by the keys of all the events they are subscribed to
+	 * An in-process socket used to communicate with asynchronous handlers.
+	 * It must outlive the handlers, which use it in their destructors.
 	 */
-	std::multimap<std::string, std::shared_ptr<handler_wrapper>> handlers_;
+	zmq::socket_t async_handler_socket_;
 
 	/**
-	 * A ZeroMQ context
+	 * Sockets indexed by their keys
 	 */
-	std::shared_ptr<zmq::context_t> context_;
+	std::map<std::string, std::shared_ptr<socket_wrapper_base>> sockets_;
 
 	/**
-	 * An in-process socket used to communicate with asynchronous handlers
+	 * Handlers indexed by the keys of all the events they are subscribed to
 	 */
-	zmq::socket_t async_handler_socket_;
+	std::multimap<std::string, std::shared_ptr<handler_wrapper>> handlers_;
 
 	/**
 	 * Flag used to tell the reactor to terminate the main loop
-- 
2.43.0


From b8e778968b187eedb2b927ed7fdb4e5576b8552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:57 +0000
Subject: [PATCH 19/23] fix: connect an asynchronous handler before messages
 can be sent to it

Messages sent before the handler thread got to connect its socket were dropped,
including the one that terminates the thread, which made the destructor hang.
---
 src/reactor/reactor.cpp | 13 +++++++++----
 src/reactor/reactor.h   |  5 +++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 621bb7e..78d30c3 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -149,8 +149,15 @@ asynchronous_handler_wrapper::asynchronous_handler_wrapper(zmq::context_t &conte
 	reactor &reactor_ref,
 	std::shared_ptr<handler_interface> handler)
 	: handler_wrapper(reactor_ref, handler), context_(context), reactor_socket_(async_handler_socket),
-	  unique_id_(std::to_string((uintptr_t) this))
+	  handler_socket_(context, zmq::socket_type::dealer), unique_id_(std::to_string((uintptr_t) this))
 {
+	// Connect before the first message can be sent, the router would silently drop it otherwise
+	handler_socket_.setsockopt(ZMQ_IDENTITY, unique_id_.data(), unique_id_.size());
+	handler_socket_.connect("inproc://" + reactor_.unique_id);
+
+	// Querying the events makes the reactor socket notice its new peer
+	reactor_socket_.getsockopt<int>(ZMQ_EVENTS);
+
 	worker_ = std::thread([this]() { handler_thread(); });
 }
 
@@ -177,9 +184,7 @@ void asynchronous_handler_wrapper::operator()(const message_container &message)
 
 void asynchronous_handler_wrapper::handler_thread()
 {
-	zmq::socket_t socket(context_, zmq::socket_type::dealer);
-	socket.setsockopt(ZMQ_IDENTITY, unique_id_.data(), unique_id_.size());
-	socket.connect("inproc://" + reactor_.unique_id);
+	zmq::socket_t &socket = handler_socket_;
 
 	while (true) {
 		message_container request;
diff --git a/src/reactor/reactor.h b/src/reactor/reactor.h
index b50d88c..346bd3f 100644
--- a/src/reactor/reactor.h
+++ b/src/reactor/reactor.h
@@ -94,6 +94,11 @@ private:
 	 */
 	zmq::socket_t &reactor_socket_;
 
+	/**
+	 * The other end of the connection, only used by the worker thread once it runs
+	 */
+	zmq::socket_t handler_socket_;
+
 	/**
 	 * A reference to the worker thread
 	 */
-- 
2.43.0


From 608503955c0e88169add17d013e25fc92ba2f75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:57 +0000
Subject: [PATCH 20/23] fix: do not limit the queues of asynchronous handlers

The router drops messages when the default limit is reached, so status reports
(and the request to terminate) were lost while the frontend was slow.
---
 src/reactor/reactor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 78d30c3..27c6f44 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -8,6 +8,9 @@ reactor::reactor(std::shared_ptr<zmq::context_t> context)
 	: unique_id("reactor_" + std::to_string((uintptr_t) this)), context_(context),
 	  async_handler_socket_(*context, zmq::socket_type::router), termination_flag_(false)
 {
+	// Messages for and from asynchronous handlers must not be dropped or block when a handler is slow
+	async_handler_socket_.setsockopt(ZMQ_SNDHWM, 0);
+	async_handler_socket_.setsockopt(ZMQ_RCVHWM, 0);
 	async_handler_socket_.bind("inproc://" + unique_id);
 }
 
-- 
2.43.0


From bff54abb40f66f47b5afd58e9064d78b234bddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:57 +0000
Subject: [PATCH 21/23] fix: report all of the elapsed time to handlers

Waits shorter than a millisecond and the time spent in handlers were lost, so
under load dead workers were never noticed; steps of the system clock were
reported as elapsed time.
---
 src/reactor/reactor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 27c6f44..12a930f 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -74,13 +74,16 @@ void reactor::start_loop()
 	pollitems.push_back(
 		zmq_pollitem_t{.socket = (void *) async_handler_socket_, .fd = 0, .events = ZMQ_POLLIN, .revents = 0});
 
+	// The time that has already been reported to the handlers
+	auto time_before_poll = std::chrono::steady_clock::now();
+
 	// Enter the poll loop
 	while (!termination_flag_.load()) {
-		auto time_before_poll = std::chrono::system_clock::now();
 		zmq::poll(pollitems, std::chrono::milliseconds(100));
-		auto time_after_poll = std::chrono::system_clock::now();
+		auto time_after_poll = std::chrono::steady_clock::now();
 
 		auto elapsed_time = std::chrono::duration_cast<std::chrono::milliseconds>(time_after_poll - time_before_poll);
+		time_before_poll += elapsed_time;
 
 		std::size_t i = 0;
 		for (auto item : pollitems) {
-- 
2.43.0


From 6e9efb6df1e952c4a58995f5d830f55eb18daf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:22 +0000
Subject: [PATCH 22/23] fix: end asynchronous handlers when the ZeroMQ context
 is terminated

The exceptions thrown by the in-process sockets left a thread function and a
destructor, so the whole program was aborted.
---
 src/reactor/reactor.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 12a930f..71c319e 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -164,14 +164,27 @@ asynchronous_handler_wrapper::asynchronous_handler_wrapper(zmq::context_t &conte
 	// Querying the events makes the reactor socket notice its new peer
 	reactor_socket_.getsockopt<int>(ZMQ_EVENTS);
 
-	worker_ = std::thread([this]() { handler_thread(); });
+	worker_ = std::thread([this]() {
+		try {
+			handler_thread();
+		} catch (const zmq::error_t &e) {
+			// There is nothing left to do when the context is terminated
+			if (e.num() != ETERM) {
+				throw;
+			}
+		}
+	});
 }
 
 asynchronous_handler_wrapper::~asynchronous_handler_wrapper()
 {
 	// Send a message to terminate the worker thread
-	reactor_socket_.send(unique_id_.data(), unique_id_.size(), ZMQ_SNDMORE);
-	reactor_socket_.send(TERMINATE_MSG.data(), TERMINATE_MSG.size());
+	try {
+		reactor_socket_.send(unique_id_.data(), unique_id_.size(), ZMQ_SNDMORE);
+		reactor_socket_.send(TERMINATE_MSG.data(), TERMINATE_MSG.size());
+	} catch (const zmq::error_t &) {
+		// The context was terminated, which ends the thread as well
+	}
 
 	// Join it
 	worker_.join();
-- 
2.43.0


From 0457164ecd9f62f86a954ee7cbeb8531c4d4faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:50 +0000
Subject: [PATCH 23/23] fix: encode job ids in the addresses of status reports

---
 src/handlers/status_notifier_handler.cpp | 2 +-
 src/helpers/curl.cpp                     | 5 +----
 src/helpers/curl.h                       | 7 +++++++
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/handlers/status_notifier_handler.cpp b/src/handlers/status_notifier_handler.cpp
index 1cc7ab4..ff924b4 100644
--- a/src/handlers/status_notifier_handler.cpp
+++ b/src/handlers/status_notifier_handler.cpp
@@ -47,7 +47,7 @@ void status_notifier_handler::on_request(
 	}
 
 	if (id != "") {
-		ss << "/" << id;
+		ss << "/" << helpers::url_encode(id);
 	}
 
 	std::size_t retries = 4; // we come by this value using digital suction
diff --git a/src/helpers/curl.cpp b/src/helpers/curl.cpp
index 8e0c8b5..fabf913 100644
--- a/src/helpers/curl.cpp
+++ b/src/helpers/curl.cpp
@@ -7,10 +7,7 @@
 #endif
 
 
-/**
- * Percent-encode a string so that it can be used in a query or form data.
- */
-static std::string url_encode(const std::string &value)
+std::string helpers::url_encode(const std::string &value)
 {
 	static const char *digits = "0123456789ABCDEF";
 	static const std::string unreserved = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~";
diff --git a/src/helpers/curl.h b/src/helpers/curl.h
index fe40cc4..9ca1b40 100644
--- a/src/helpers/curl.h
+++ b/src/helpers/curl.h
@@ -12,6 +12,13 @@ namespace helpers
 	 */
 	using curl_params = std::map<std::string, std::string>;
 
+	/**
+	 * Percent-encode a string so that it can be used in a path segment, query or form data.
+	 * @param value arbitrary text
+	 * @return encoded text
+	 */
+	std::string url_encode(const std::string &value);
+
 	/**
 	 * Construct standard http query and return it.
 	 * @note Leading question mark is not included in returned string.
-- 
2.43.0

