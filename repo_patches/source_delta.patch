From 32c5d62b5a650498a6f59332015f1ebc8d555ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 01/29] fix: locking shard releases only locks granted to the
 aborted tx

---
 src/uhs/twophase/locking_shard/locking_shard.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/locking_shard/locking_shard.cpp b/src/uhs/twophase/locking_shard/locking_shard.cpp
index 92a325f..7886d09 100644
--- a/src/uhs/twophase/locking_shard/locking_shard.cpp
+++ b/src/uhs/twophase/locking_shard/locking_shard.cpp
@@ -147,6 +147,7 @@ namespace cbdc::locking_shard {
             return true;
         }
         auto& dtx = prepared_dtx_it->second.m_txs;
+        const auto& locked = prepared_dtx_it->second.m_results;
         if(complete_txs.size() != dtx.size()) {
             // This would only happen due to a bug in the controller
             m_logger->fatal("Incorrect number of complete tx flags for apply",
@@ -167,7 +168,8 @@ namespace cbdc::locking_shard {
                 }
             }
             for(auto&& uhs_id : tx.m_tx.m_inputs) {
-                if(hash_in_shard_range(uhs_id)) {
+                // Only the tx that was granted the lock may release it
+                if(hash_in_shard_range(uhs_id) && locked[i]) {
                     auto was_locked = m_locked.erase(uhs_id);
                     if(!complete_txs[i] && (was_locked != 0U)) {
                         m_uhs.emplace(uhs_id);
-- 
2.43.0


From abc674b1bc94de2afa9b7ff0f87409d1cab19b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 02/29] fix: locking shard reports only completed txs as
 confirmed

---
 src/uhs/twophase/locking_shard/locking_shard.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/twophase/locking_shard/locking_shard.cpp b/src/uhs/twophase/locking_shard/locking_shard.cpp
index 7886d09..0bedae1 100644
--- a/src/uhs/twophase/locking_shard/locking_shard.cpp
+++ b/src/uhs/twophase/locking_shard/locking_shard.cpp
@@ -158,7 +158,7 @@ namespace cbdc::locking_shard {
         }
         for(size_t i{0}; i < dtx.size(); i++) {
             auto&& tx = dtx[i];
-            if(hash_in_shard_range(tx.m_tx.m_id)) {
+            if(hash_in_shard_range(tx.m_tx.m_id) && complete_txs[i]) {
                 m_completed_txs.add(tx.m_tx.m_id);
             }
 
-- 
2.43.0


From 430e393e028300898357657f7549e2612d69b3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 03/29] fix: runtime locking shard refuses to roll back a
 committed ticket

---
 src/parsec/runtime_locking_shard/impl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parsec/runtime_locking_shard/impl.cpp b/src/parsec/runtime_locking_shard/impl.cpp
index e6e1c67..7f7d8fb 100644
--- a/src/parsec/runtime_locking_shard/impl.cpp
+++ b/src/parsec/runtime_locking_shard/impl.cpp
@@ -369,6 +369,13 @@ namespace cbdc::parsec::runtime_locking_shard {
             }
             auto& ticket = ticket_it->second;
 
+            // Committed tickets can only be finished
+            if(ticket.m_state == ticket_state::committed) {
+                m_log->warn(ticket_number,
+                            "called rollback but already committed");
+                return shard_error{error_code::committed, std::nullopt};
+            }
+
             auto [wounded_callbacks, affected_keys]
                 = release_locks(ticket_number, ticket);
             callbacks = acquire_locks(affected_keys);
-- 
2.43.0


From 637793faa79e3ec43aad7070200cacceecf838e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 04/29] fix: runtime locking shard recovers only into an empty
 shard

---
 src/parsec/runtime_locking_shard/impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsec/runtime_locking_shard/impl.cpp b/src/parsec/runtime_locking_shard/impl.cpp
index 7f7d8fb..f6c457f 100644
--- a/src/parsec/runtime_locking_shard/impl.cpp
+++ b/src/parsec/runtime_locking_shard/impl.cpp
@@ -456,7 +456,7 @@ namespace cbdc::parsec::runtime_locking_shard {
     auto impl::recover(const replicated_shard::state_type& state,
                        const replicated_shard::tickets_type& tickets) -> bool {
         std::unique_lock l(m_mut);
-        if(!m_tickets.empty() && !m_state.empty()) {
+        if(!m_tickets.empty() || !m_state.empty()) {
             m_log->error("Shard state is not empty, cannot recover");
             return false;
         }
-- 
2.43.0


From 12d30892b4ff01d2efbed53356586635a0707697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 05/29] fix: cache_set keeps max_size elements

---
 src/util/common/cache_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/common/cache_set.hpp b/src/util/common/cache_set.hpp
index 51ef4b2..338486b 100644
--- a/src/util/common/cache_set.hpp
+++ b/src/util/common/cache_set.hpp
@@ -40,7 +40,7 @@ namespace cbdc {
             auto added = m_vals.emplace(std::forward<T>(val));
             if(added.second) {
                 m_eviction_queue.push(std::ref(*added.first));
-                if(m_eviction_queue.size() >= m_max_size) {
+                if(m_eviction_queue.size() > m_max_size) {
                     auto& v = m_eviction_queue.front();
                     m_vals.erase(v);
                     m_eviction_queue.pop();
-- 
2.43.0


From 90d86d2cab453bef81a7fdfba72b393943691c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 06/29] fix: watchtower error cache finds the newest retained
 error of an id

---
 src/uhs/atomizer/watchtower/error_cache.cpp | 22 +++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/uhs/atomizer/watchtower/error_cache.cpp b/src/uhs/atomizer/watchtower/error_cache.cpp
index 624842e..b48f9a8 100644
--- a/src/uhs/atomizer/watchtower/error_cache.cpp
+++ b/src/uhs/atomizer/watchtower/error_cache.cpp
@@ -17,19 +17,27 @@ namespace cbdc::watchtower {
         for(auto&& err : errs) {
             if((m_k_errs != 0) && (m_errs.size() == m_k_errs)) {
                 auto& old_err = m_errs.front();
-                m_tx_id_errs.erase(old_err->tx_id());
+                // A newer error may concern the same ID, only forget the ID
+                // if it still refers to the evicted error
+                auto forget = [&](auto& index, const hash_t& id) {
+                    auto it = index.find(id);
+                    if(it != index.end() && it->second == old_err) {
+                        index.erase(it);
+                    }
+                };
+                forget(m_tx_id_errs, old_err->tx_id());
 
                 std::visit(overloaded{
                                [](const tx_error_sync& /* unused */) {},
                                [&](const tx_error_inputs_dne& arg) {
                                    for(auto& uhs_id : arg.input_uhs_ids()) {
-                                       m_uhs_errs.erase(uhs_id);
+                                       forget(m_uhs_errs, uhs_id);
                                    }
                                },
                                [&](const tx_error_inputs_spent& arg) {
                                    for(const auto& uhs_id :
                                        arg.input_uhs_ids()) {
-                                       m_uhs_errs.erase(uhs_id);
+                                       forget(m_uhs_errs, uhs_id);
                                    }
                                },
                                [](const tx_error_stxo_range& /* unused */) {},
@@ -42,17 +50,19 @@ namespace cbdc::watchtower {
 
             auto new_err = std::make_shared<tx_error>(std::move(err));
             m_errs.push(new_err);
-            m_tx_id_errs.insert({new_err->tx_id(), new_err});
+            m_tx_id_errs.insert_or_assign(new_err->tx_id(), new_err);
             std::visit(overloaded{
                            [](const tx_error_sync& /* unused */) {},
                            [&](const tx_error_inputs_dne& arg) {
                                for(auto& uhs_id : arg.input_uhs_ids()) {
-                                   m_uhs_errs.insert({uhs_id, new_err});
+                                   m_uhs_errs.insert_or_assign(uhs_id,
+                                                               new_err);
                                }
                            },
                            [&](const tx_error_inputs_spent& arg) {
                                for(const auto& uhs_id : arg.input_uhs_ids()) {
-                                   m_uhs_errs.insert({uhs_id, new_err});
+                                   m_uhs_errs.insert_or_assign(uhs_id,
+                                                               new_err);
                                }
                            },
                            [](const tx_error_stxo_range& /* unused */) {},
-- 
2.43.0


From 6060cd79b2df1575c961c34f031e82e8ec165e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 07/29] fix: atomizer keeps transactions without inputs within
 its caches

A transaction without inputs passes the window check at any offset, so
insert() indexed m_txs past its end and insert_complete() scanned up to
2^64 caches when such a transaction was notified for a height outside the
window. Clamp the offset to the cache depth.
---
 src/uhs/atomizer/atomizer/atomizer.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/uhs/atomizer/atomizer/atomizer.cpp b/src/uhs/atomizer/atomizer/atomizer.cpp
index cc83610..b0b3be0 100644
--- a/src/uhs/atomizer/atomizer/atomizer.cpp
+++ b/src/uhs/atomizer/atomizer/atomizer.cpp
@@ -10,6 +10,8 @@
 #include "util/serialization/buffer_serializer.hpp"
 #include "util/serialization/format.hpp"
 
+#include <algorithm>
+
 namespace cbdc::atomizer {
     auto atomizer::make_block()
         -> std::pair<block, std::vector<cbdc::watchtower::tx_error>> {
@@ -45,13 +47,17 @@ namespace cbdc::atomizer {
                           transaction::compact_tx tx,
                           std::unordered_set<uint32_t> attestations)
         -> std::optional<cbdc::watchtower::tx_error> {
-        const auto height_offset = get_notification_offset(block_height);
+        auto height_offset = get_notification_offset(block_height);
 
         auto offset_err = check_notification_offset(height_offset, tx);
         if(offset_err) {
             return offset_err;
         }
 
+        // A transaction without inputs is accepted at any offset, keep it
+        // within the caches.
+        height_offset = std::min<uint64_t>(height_offset, m_spent_cache_depth);
+
         // Search the incomplete transactions vector for this notification's
         // block height offset. Note, we might be able to defer this insertion
         // until after we've checked if the transaction is complete.
@@ -141,7 +147,10 @@ namespace cbdc::atomizer {
             return offset_err;
         }
 
-        auto cache_check_range = height_offset;
+        // A transaction without inputs is accepted at any offset, check it
+        // only against the caches that exist.
+        auto cache_check_range
+            = std::min<uint64_t>(height_offset, m_spent_cache_depth);
 
         auto err_set = check_stxo_cache(tx, cache_check_range);
         if(err_set) {
-- 
2.43.0


From dda6512e438d27fe1e2c39172b15df50f0657096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 08/29] fix: a recovered discard reaches the shards

recover_discard() does not know which shards took part, so execute() told
none of them to discard the transaction and reported success. Discarding has
no effect on a shard that did not take part: tell all of them.
---
 src/uhs/twophase/coordinator/distributed_tx.cpp | 5 ++++-
 src/uhs/twophase/coordinator/distributed_tx.hpp | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/coordinator/distributed_tx.cpp b/src/uhs/twophase/coordinator/distributed_tx.cpp
index 4aabaa6..0cb34bd 100644
--- a/src/uhs/twophase/coordinator/distributed_tx.cpp
+++ b/src/uhs/twophase/coordinator/distributed_tx.cpp
@@ -187,7 +187,7 @@ namespace cbdc::coordinator {
         }
         auto futures = std::vector<std::future<bool>>();
         for(size_t i{0}; i < m_shards.size(); i++) {
-            if(m_tx_idxs[i].empty()) {
+            if(m_tx_idxs[i].empty() && !m_discard_all) {
                 continue;
             }
             const auto& shard = m_shards[i];
@@ -253,6 +253,9 @@ namespace cbdc::coordinator {
 
     void distributed_tx::recover_discard() {
         m_state = dtx_state::discard;
+        // Which shards took part isn't part of the recovered state. Discarding
+        // has no effect on a shard which did not, so tell all of them.
+        m_discard_all = true;
     }
 
     auto distributed_tx::size() const -> size_t {
diff --git a/src/uhs/twophase/coordinator/distributed_tx.hpp b/src/uhs/twophase/coordinator/distributed_tx.hpp
index 83b9571..04f72e6 100644
--- a/src/uhs/twophase/coordinator/distributed_tx.hpp
+++ b/src/uhs/twophase/coordinator/distributed_tx.hpp
@@ -163,6 +163,7 @@ namespace cbdc::coordinator {
         done_cb_t m_done_cb;
         dtx_state m_state{dtx_state::start};
         std::vector<bool> m_complete_txs;
+        bool m_discard_all{false};
         std::shared_ptr<logging::log> m_logger;
     };
 }
-- 
2.43.0


From 728c7c3a85dc1f27e22fd39d18b1a2d13ec1813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 09/29] fix: executing a failed distributed transaction reports
 failure

A second execute() after a failure skipped every phase and returned the
decision (or an empty list) as if the transaction had settled.
---
 src/uhs/twophase/coordinator/distributed_tx.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/uhs/twophase/coordinator/distributed_tx.cpp b/src/uhs/twophase/coordinator/distributed_tx.cpp
index 0cb34bd..5e88674 100644
--- a/src/uhs/twophase/coordinator/distributed_tx.cpp
+++ b/src/uhs/twophase/coordinator/distributed_tx.cpp
@@ -108,6 +108,9 @@ namespace cbdc::coordinator {
 
     auto distributed_tx::execute() -> std::optional<std::vector<bool>> {
         auto dtxid_str = to_string(m_dtx_id);
+        if(m_state == dtx_state::failed) {
+            return std::nullopt;
+        }
         if(m_state == dtx_state::prepare || m_state == dtx_state::start) {
             m_logger->info("Preparing", dtxid_str);
             auto res = prepare();
-- 
2.43.0


From b26d95533665117d0c15cf81ec115f4194b81cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:01 +0000
Subject: [PATCH 10/29] fix: a repeated replicated commit does not overwrite
 shard state

---
 src/parsec/runtime_locking_shard/replicated_shard.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsec/runtime_locking_shard/replicated_shard.cpp b/src/parsec/runtime_locking_shard/replicated_shard.cpp
index 87672e3..28d2c41 100644
--- a/src/parsec/runtime_locking_shard/replicated_shard.cpp
+++ b/src/parsec/runtime_locking_shard/replicated_shard.cpp
@@ -31,6 +31,10 @@ namespace cbdc::parsec::runtime_locking_shard {
                 return error_code::unknown_ticket;
             }
             auto& t = it->second;
+            if(t.m_state == ticket_state::committed) {
+                // The updates were applied, and moved, by an earlier commit
+                return std::nullopt;
+            }
             t.m_state = ticket_state::committed;
             for(auto&& [k, v] : t.m_state_update) {
                 m_state[k] = std::move(v);
-- 
2.43.0


From 7bd19bf77368efdc2df8efd696e1b10e9f3d1818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 11/29] fix: a failed shard operation is answered with an error
 of its own kind

---
 src/parsec/runtime_locking_shard/server.cpp | 24 ++++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/parsec/runtime_locking_shard/server.cpp b/src/parsec/runtime_locking_shard/server.cpp
index 062c91e..20d6f57 100644
--- a/src/parsec/runtime_locking_shard/server.cpp
+++ b/src/parsec/runtime_locking_shard/server.cpp
@@ -8,6 +8,14 @@
 #include "util/common/variant_overloaded.hpp"
 
 namespace cbdc::parsec::runtime_locking_shard::rpc {
+    namespace {
+        /// Failure response to a prepare, commit, rollback or finish request.
+        auto internal_error() -> response {
+            return std::optional<shard_error>{
+                shard_error{error_code::internal_error, std::nullopt}};
+        }
+    }
+
     server::server(
         std::shared_ptr<logging::log> logger,
         std::shared_ptr<interface> impl,
@@ -101,14 +109,14 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
             [this, callback](replicated_shard_interface::return_type res) {
                 if(res.has_value()) {
                     m_log->error("Error response during prepare replication");
-                    callback(error_code::internal_error);
+                    callback(internal_error());
                     return;
                 }
                 callback(interface::prepare_return_type{});
             });
         if(!success) {
             m_log->error("Error replicating prepare");
-            callback(error_code::internal_error);
+            callback(internal_error());
         }
     }
 
@@ -117,7 +125,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                                const callback_type& callback) {
         if(ret.has_value()) {
             m_log->error("Error response during commit replication");
-            callback(error_code::internal_error);
+            callback(internal_error());
             return;
         }
 
@@ -128,7 +136,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                              });
         if(!success) {
             m_log->error("Error initiating commit with internal shard");
-            callback(error_code::internal_error);
+            callback(internal_error());
         }
     }
 
@@ -138,7 +146,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         if(ret.has_value()) {
             m_log->error("Error response during discard replication",
                          static_cast<int>(ret.value()));
-            callback(error_code::internal_error);
+            callback(internal_error());
             return;
         }
 
@@ -149,7 +157,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
             });
         if(!success) {
             m_log->error("Error initiating rollback with internal shard");
-            callback(error_code::internal_error);
+            callback(internal_error());
         }
     }
 
@@ -158,7 +166,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                            const callback_type& callback) {
         if(ret.has_value()) {
             m_log->error("Error response during discard replication");
-            callback(error_code::internal_error);
+            callback(internal_error());
             return;
         }
 
@@ -169,7 +177,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                              });
         if(!success) {
             m_log->error("Error initiating rollback with internal shard");
-            callback(error_code::internal_error);
+            callback(internal_error());
         }
     }
 }
-- 
2.43.0


From 5672ec3c17bdebf71d3159420ec576b34daf4f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 12/29] fix: buffer::from_hex accepts only hexadecimal digits

---
 src/util/common/buffer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/common/buffer.cpp b/src/util/common/buffer.cpp
index b85491d..9bfb11a 100644
--- a/src/util/common/buffer.cpp
+++ b/src/util/common/buffer.cpp
@@ -87,6 +87,10 @@ namespace cbdc {
         if(hex.empty() || ((hex.size() % 2) != 0) || (hex.size() > max_size)) {
             return std::nullopt;
         }
+        if(hex.find_first_not_of("0123456789abcdefABCDEF")
+           != std::string::npos) {
+            return std::nullopt;
+        }
 
         auto ret = cbdc::buffer();
 
-- 
2.43.0


From 0df66ffdb0dc5a50d3813c84308d80a31e419a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 13/29] fix: hash_from_hex stays within the hash and leaves no
 byte uninitialized

---
 src/util/common/hash.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/common/hash.cpp b/src/util/common/hash.cpp
index f75dead..a481b5b 100644
--- a/src/util/common/hash.cpp
+++ b/src/util/common/hash.cpp
@@ -24,9 +24,9 @@ namespace cbdc {
     }
 
     auto hash_from_hex(const std::string& val) -> hash_t {
-        hash_t ret;
+        hash_t ret{};
 
-        for(size_t i = 0; i < val.size(); i += 2) {
+        for(size_t i = 0; i < val.size() && i / 2 < ret.size(); i += 2) {
             unsigned int v{};
             std::stringstream s;
             s << std::hex << val.substr(i, 2);
-- 
2.43.0


From 6024cfb5c3d402b41580ad05913237b5963995e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:10 +0000
Subject: [PATCH 14/29] fix: a cleared blocking_queue keeps its consumers awake
 until reset

pop() dropped the wake flag set by clear() when it took an item pushed
meanwhile, so a consumer could block on a queue being shut down and its
owner's destructor never returned.
---
 src/util/common/blocking_queue.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/common/blocking_queue.hpp b/src/util/common/blocking_queue.hpp
index 6d3fc6c..54f5239 100644
--- a/src/util/common/blocking_queue.hpp
+++ b/src/util/common/blocking_queue.hpp
@@ -70,7 +70,7 @@ namespace cbdc {
                     item = std::move(first_item<T, Q>());
                     m_buffer.pop();
                     popped = true;
-                    m_wake = !m_buffer.empty();
+                    m_wake = m_cleared || !m_buffer.empty();
                 }
 
                 return popped;
@@ -83,6 +83,7 @@ namespace cbdc {
                 std::unique_lock<std::mutex> lck(m_mut);
                 m_buffer = decltype(m_buffer)();
                 m_wake = true;
+                m_cleared = true;
             }
             m_cv.notify_all();
         }
@@ -93,6 +94,7 @@ namespace cbdc {
         void reset() {
             std::unique_lock l(m_mut);
             m_wake = false;
+            m_cleared = false;
         }
 
       private:
@@ -114,6 +116,7 @@ namespace cbdc {
         std::mutex m_mut;
         std::condition_variable m_cv;
         bool m_wake{false};
+        bool m_cleared{false};
     };
 
     template<typename T>
-- 
2.43.0


From a3f7f5843e0b8d8ab09d243a5cbb4c40f5dbaa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:09 +0000
Subject: [PATCH 15/29] fix: broker: restarting an aborted ticket must not
 clear shard states being iterated

---
 src/parsec/broker/impl.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 1776796..eae42d2 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -140,8 +140,7 @@ namespace cbdc::parsec::broker {
                 return error_code::unknown_ticket;
             }
 
-            auto t_state = it->second;
-            switch(t_state->m_state) {
+            switch(it->second->m_state) {
                 case ticket_state::begun:
                     break;
                 case ticket_state::prepared:
@@ -149,8 +148,10 @@ namespace cbdc::parsec::broker {
                 case ticket_state::committed:
                     return error_code::committed;
                 case ticket_state::aborted:
-                    t_state->m_state = ticket_state::begun;
-                    t_state->m_shard_states.clear();
+                    // Start over with a new state. A loop still sending
+                    // requests for the aborted attempt may hold the old one.
+                    it->second = std::make_shared<state>(
+                        state{ticket_state::begun, {}});
                     m_log->trace(this, "broker restarting", ticket_number);
                     break;
             }
-- 
2.43.0


From 37853d4468c2a80ed8f68c80a8039f7c4976e708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:09 +0000
Subject: [PATCH 16/29] fix: broker: do not send prepare or commit requests for
 a ticket which already moved on

---
 src/parsec/broker/impl.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index eae42d2..68f76b6 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -284,9 +284,10 @@ namespace cbdc::parsec::broker {
                          const std::shared_ptr<state>& ts)
         -> std::optional<error_code> {
         for(auto& shard : ts->m_shard_states) {
-            if(ts->m_state == ticket_state::aborted) {
-                m_log->trace("Broker aborted during commit for",
-                             ticket_number);
+            // A shard may answer before this loop ends, and the answer may
+            // complete the commit.
+            if(ts->m_state != ticket_state::prepared) {
+                m_log->trace("Ticket no longer committing", ticket_number);
                 break;
             }
             if(shard.second.m_state == shard_state_type::committed) {
@@ -449,12 +450,11 @@ namespace cbdc::parsec::broker {
                           const state_update_type& state_updates)
         -> std::optional<error_code> {
         for(auto& shard : t_state->m_shard_states) {
-            // Shard states might get nuked in this loop if there's a
-            // rollback Before iterating, make sure we're still good to
-            // do more prepares Only nuke shard states on restart
-            if(t_state->m_state == ticket_state::aborted) {
-                m_log->trace("Broker aborted during prepare for",
-                             ticket_number);
+            // A shard may answer before this loop ends, and the answer may
+            // roll back or commit the ticket. Before each request, make sure
+            // the ticket still needs to be prepared.
+            if(t_state->m_state != ticket_state::begun) {
+                m_log->trace("Ticket no longer preparing", ticket_number);
                 break;
             }
             if(shard.second.m_state == shard_state_type::prepared) {
-- 
2.43.0


From f61074838eea68b947f734fceef4eb278ad657cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 17/29] fix: broker: recovery must not iterate tickets which it
 finishes

---
 src/parsec/broker/impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 68f76b6..d4e3efa 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -973,7 +973,10 @@ namespace cbdc::parsec::broker {
 
     auto impl::do_recovery(const recover_callback_type& result_callback)
         -> std::optional<error_code> {
-        for(auto [ticket_number, ticket] : m_tickets) {
+        // Finishing a ticket erases it from m_tickets, possibly before the
+        // loop ends.
+        auto tickets = m_tickets;
+        for(auto& [ticket_number, ticket] : tickets) {
             size_t committed{};
             for(auto& [sidx, t_state] : ticket->m_shard_states) {
                 switch(t_state.m_state) {
-- 
2.43.0


From 5e615dac15751770565ad503f8b1a5c09be067d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 18/29] fix: broker: a new recovery must not use the answers of
 an earlier one

---
 src/parsec/broker/impl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index d4e3efa..be9389a 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -884,6 +884,8 @@ namespace cbdc::parsec::broker {
         // Do not allow recovery when tickets are in-flight
         auto maybe_tickets = [&]() {
             std::unique_lock l(m_mut);
+            // Forget the answers to an earlier recovery attempt
+            m_recovery_tickets.clear();
             return !m_tickets.empty();
         }();
         if(maybe_tickets) {
-- 
2.43.0


From def59d2abffbbc49a647955e523f12cd029aaf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:18 +0000
Subject: [PATCH 19/29] fix: wallet: outputs spent elsewhere leave the spend
 queue as well

update_balance removed a spent output from m_utxos_set but left it in
m_spend_queue: the assertion failed, and without it the wallet spent the
output again and the balance wrapped. Use the value of the output held.
---
 src/uhs/transaction/wallet.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/uhs/transaction/wallet.cpp b/src/uhs/transaction/wallet.cpp
index 059bd68..c77ae80 100644
--- a/src/uhs/transaction/wallet.cpp
+++ b/src/uhs/transaction/wallet.cpp
@@ -225,9 +225,11 @@ namespace cbdc {
         }
 
         for(const auto& inp : debits) {
-            const auto erased = m_utxos_set.erase(inp) > 0;
-            if(erased) {
-                m_balance -= inp.m_prevout_data.m_value;
+            const auto held = m_utxos_set.find(inp);
+            if(held != m_utxos_set.end()) {
+                m_balance -= held->m_prevout_data.m_value;
+                m_spend_queue.remove(*held);
+                m_utxos_set.erase(held);
             }
         }
         assert(m_spend_queue.size() == m_utxos_set.size());
-- 
2.43.0


From b06bee372070e202fb1d16beda87a9928a5501f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:55 +0000
Subject: [PATCH 20/29] fix: buffer_serializer::read: bounds check overflowed

The sum of cursor and length wrapped for lengths near 2^64, so the read was
let through and copied from outside the buffer.
---
 src/util/serialization/buffer_serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/serialization/buffer_serializer.cpp b/src/util/serialization/buffer_serializer.cpp
index 1e4cc74..ffcc35f 100644
--- a/src/util/serialization/buffer_serializer.cpp
+++ b/src/util/serialization/buffer_serializer.cpp
@@ -37,7 +37,7 @@ namespace cbdc {
     }
 
     auto buffer_serializer::read(void* data, size_t len) -> bool {
-        if(m_cursor + len > m_pkt.size()) {
+        if(m_cursor > m_pkt.size() || len > m_pkt.size() - m_cursor) {
             m_valid = false;
             return false;
         }
-- 
2.43.0


From 46287821a3eaf265e95994cab5739628273aea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:55 +0000
Subject: [PATCH 21/29] fix: do not allocate a buffer's claimed size before its
 bytes arrived

A size field claiming more than can be allocated made deserializing a buffer
throw instead of fail.
---
 src/util/serialization/format.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/util/serialization/format.cpp b/src/util/serialization/format.cpp
index 8024d2a..571dff5 100644
--- a/src/util/serialization/format.cpp
+++ b/src/util/serialization/format.cpp
@@ -29,9 +29,21 @@ namespace cbdc {
 
     auto operator>>(serializer& deser, buffer& b) -> serializer& {
         uint64_t sz{};
-        deser >> sz;
-        b.extend(sz);
-        deser.read(b.data(), sz);
+        if(!(deser >> sz)) {
+            return deser;
+        }
+
+        uint64_t received = 0;
+        while(received < sz) {
+            const auto len
+                = std::min(sz - received, config::maximum_reservation);
+            const auto offset = b.size();
+            b.extend(len);
+            if(!deser.read(b.data_at(offset), len)) {
+                return deser;
+            }
+            received += len;
+        }
         return deser;
     }
 }
-- 
2.43.0


From a31367c6f0ba9473ae31d63920dfa9b591e8938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:55 +0000
Subject: [PATCH 22/29] fix: deserialize bool through a byte

Reading a byte other than 0 or 1 into a bool (e.g. the presence flag of an
optional) is undefined behaviour.
---
 src/util/serialization/format.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util/serialization/format.hpp b/src/util/serialization/format.hpp
index 683db37..e55cf74 100644
--- a/src/util/serialization/format.hpp
+++ b/src/util/serialization/format.hpp
@@ -86,7 +86,15 @@ namespace cbdc {
     auto operator>>(serializer& s, T& t) ->
         typename std::enable_if_t<std::is_integral_v<T> && !std::is_enum_v<T>,
                                   serializer&> {
-        s.read(&t, sizeof(t));
+        if constexpr(std::is_same_v<T, bool>) {
+            // A bool may only hold 0 or 1, unlike the byte received
+            uint8_t val{};
+            if(s.read(&val, sizeof(val))) {
+                t = val != 0;
+            }
+        } else {
+            s.read(&t, sizeof(t));
+        }
         return s;
     }
 
-- 
2.43.0


From 4bd65d736ace14eb1f404ced9fee61f97d4eb22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:45 +0000
Subject: [PATCH 23/29] fix: reject malformed configuration values instead of
 reading part of them

---
 src/util/common/config.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/util/common/config.cpp b/src/util/common/config.cpp
index 02811f4..7b704fc 100644
--- a/src/util/common/config.cpp
+++ b/src/util/common/config.cpp
@@ -843,14 +843,29 @@ namespace cbdc::config {
         return std::nullopt;
     }
 
-    auto parser::parse_value(const std::string& value) -> value_t {
-        if(value[0] != '\"' && value[value.size() - 1] != '\"') {
+    auto parser::parse_value(const std::string& val) -> value_t {
+        // Trailing whitespace (such as the carriage return of a DOS-style line
+        // ending) is not part of the value.
+        const auto value = val.substr(0, val.find_last_not_of(" \t\r") + 1);
+        const auto quoted = value.size() > 1 && value.front() == '\"'
+                         && value.back() == '\"';
+        if(!quoted) {
+            size_t len{};
             if(value.find('.') == std::string::npos) {
-                const auto as_int = static_cast<size_t>(std::stoull(value));
-                return as_int;
+                const auto as_int
+                    = static_cast<size_t>(std::stoull(value, &len));
+                if(len == value.size()
+                   && value.find('-') == std::string::npos) {
+                    return as_int;
+                }
+            } else {
+                const auto as_dbl = std::stod(value, &len);
+                if(len == value.size()) {
+                    return as_dbl;
+                }
             }
-            const auto as_dbl = std::stod(value);
-            return as_dbl;
+            // Malformed in part, report it like text without a number
+            return static_cast<size_t>(std::stoull(std::string()));
         }
 
         const auto unquoted = value.substr(1, value.size() - 2);
-- 
2.43.0


From f1584117d6b30ceb2098c2339e59927269d22fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:21 +0000
Subject: [PATCH 24/29] fix: a malformed endpoint is reported as missing

---
 src/util/common/config.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/util/common/config.cpp b/src/util/common/config.cpp
index 7b704fc..f53ce3d 100644
--- a/src/util/common/config.cpp
+++ b/src/util/common/config.cpp
@@ -804,6 +804,17 @@ namespace cbdc::config {
             return std::nullopt;
         }
 
+        const auto sep = val_str->find(':');
+        const auto port = (sep == std::string::npos)
+                            ? std::string()
+                            : val_str->substr(sep + 1);
+        constexpr auto max_port_len = 5;
+        if(sep == 0 || port.empty() || port.size() > max_port_len
+           || port.find_first_not_of("0123456789") != std::string::npos
+           || std::stoul(port) > std::numeric_limits<unsigned short>::max()) {
+            return std::nullopt;
+        }
+
         return parse_ip_port(val_str.value());
     }
 
-- 
2.43.0


From f50506eba836a2b4b510e846217db6df2c8f798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:21 +0000
Subject: [PATCH 25/29] fix: reject shard ranges outside the hash prefixes

---
 src/util/common/config.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/common/config.cpp b/src/util/common/config.cpp
index f53ce3d..f622bcb 100644
--- a/src/util/common/config.cpp
+++ b/src/util/common/config.cpp
@@ -331,6 +331,12 @@ namespace cbdc::config {
                 return "No range end specified for shard " + std::to_string(i)
                      + " (" + end_key + ")";
             }
+            constexpr auto max_prefix = std::numeric_limits<uint8_t>::max();
+            if(*range_start > max_prefix || *range_end > max_prefix) {
+                return "Range outside the hash prefixes specified for shard "
+                     + std::to_string(i) + " (" + start_key + ", " + end_key
+                     + ")";
+            }
             const auto shard_range
                 = std::make_pair(static_cast<uint8_t>(*range_start),
                                  static_cast<uint8_t>(*range_end));
-- 
2.43.0


From 5fd67ac0e5a0b16e66ca532697f4b31fa67dc263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:33 +0000
Subject: [PATCH 26/29] fix: reject malformed keys in the configuration

---
 src/util/common/config.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/util/common/config.cpp b/src/util/common/config.cpp
index f622bcb..fd36011 100644
--- a/src/util/common/config.cpp
+++ b/src/util/common/config.cpp
@@ -241,6 +241,13 @@ namespace cbdc::config {
         return ss.str();
     }
 
+    /// Whether the text is a key, written as hexadecimal digits.
+    auto is_key(const std::string& text) -> bool {
+        return text.size() == sizeof(privkey_t) * 2
+            && text.find_first_not_of("0123456789abcdefABCDEF")
+                   == std::string::npos;
+    }
+
     auto read_shard_endpoints(options& opts, const parser& cfg)
         -> std::optional<std::string> {
         const auto shard_count = cfg.get_ulong(shard_count_key).value_or(0);
@@ -357,6 +364,9 @@ namespace cbdc::config {
             if(priv_str.value().size() != sizeof(privkey_t) * 2) {
                 return "Invalid seed private key length";
             }
+            if(!is_key(priv_str.value())) {
+                return "Invalid seed private key";
+            }
             opts.m_seed_privkey = hash_from_hex(priv_str.value());
             opts.m_seed_value
                 = cfg.get_ulong(seed_value).value_or(opts.m_seed_value);
@@ -440,6 +450,11 @@ namespace cbdc::config {
             const auto sentinel_private_key
                 = cfg.get_string(sentinel_private_key_key);
             if(sentinel_private_key.has_value()) {
+                if(!is_key(sentinel_private_key.value())) {
+                    return "Invalid private key specified for sentinel "
+                         + std::to_string(i) + " (" + sentinel_private_key_key
+                         + ")";
+                }
                 auto key = hash_from_hex(sentinel_private_key.value());
                 opts.m_sentinel_private_keys[i] = key;
             }
@@ -456,6 +471,11 @@ namespace cbdc::config {
                      + std::to_string(i) + " (" + sentinel_public_key_key
                      + ")";
             }
+            if(!is_key(sentinel_public_key.value())) {
+                return "Invalid public key specified for sentinel "
+                     + std::to_string(i) + " (" + sentinel_public_key_key
+                     + ")";
+            }
             auto key = hash_from_hex(sentinel_public_key.value());
             opts.m_sentinel_public_keys.insert(key);
         }
-- 
2.43.0


From cc0e5a3e8aa11aa86b60161177798f28807fdce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:50 +0000
Subject: [PATCH 27/29] fix: agent: reporting a failed begin threw for lack of
 a ticket number

---
 src/parsec/agent/impl.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parsec/agent/impl.cpp b/src/parsec/agent/impl.cpp
index 7fd050c..4d9e562 100644
--- a/src/parsec/agent/impl.cpp
+++ b/src/parsec/agent/impl.cpp
@@ -544,9 +544,11 @@ namespace cbdc::parsec::agent {
                 break;
         }
         get_result_callback()(m_result.value());
-        m_log->trace(this,
-                     "Agent handled result for",
-                     m_ticket_number.value());
+        if(m_ticket_number.has_value()) {
+            m_log->trace(this,
+                         "Agent handled result for",
+                         m_ticket_number.value());
+        }
     }
 
     void impl::do_finish() {
-- 
2.43.0


From aa7f468ab9624fb08cf2c7c8141b4a34d7e724bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:34 +0000
Subject: [PATCH 28/29] fix: agent: keep the result of a committed ticket while
 finish is retried

---
 src/parsec/agent/impl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsec/agent/impl.cpp b/src/parsec/agent/impl.cpp
index 4d9e562..3e10af8 100644
--- a/src/parsec/agent/impl.cpp
+++ b/src/parsec/agent/impl.cpp
@@ -569,8 +569,8 @@ namespace cbdc::parsec::agent {
         if(!maybe_success) {
             m_state = state::finish_failed;
             m_log->error("Error contacting broker for finish");
-            m_result = error_code::broker_unreachable;
-            do_result();
+            // Keep the result of the ticket for when finish is retried
+            get_result_callback()(error_code::broker_unreachable);
         }
     }
 
@@ -585,8 +585,8 @@ namespace cbdc::parsec::agent {
             m_state = state::finish_failed;
             m_log->error("Broker error for finish for",
                          m_ticket_number.value());
-            m_result = error_code::finish_error;
-            do_result();
+            // Keep the result of the ticket for when finish is retried
+            get_result_callback()(error_code::finish_error);
         } else {
             m_state = state::finish_complete;
             m_log->trace(this,
-- 
2.43.0


From cfaab65cb1b8c4d04d4a7928b6d2703a3be896fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:28 +0000
Subject: [PATCH 29/29] fix: agent: running again while the function is
 retrieved failed an assertion

---
 src/parsec/agent/impl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsec/agent/impl.cpp b/src/parsec/agent/impl.cpp
index 3e10af8..82e5cce 100644
--- a/src/parsec/agent/impl.cpp
+++ b/src/parsec/agent/impl.cpp
@@ -603,6 +603,7 @@ namespace cbdc::parsec::agent {
                || m_state == state::function_exception
                || m_state == state::function_failed
                || m_state == state::commit_error
+               || m_state == state::function_get_sent
                || m_state == state::function_get_failed
                || m_state == state::function_get_error
                || m_state == state::function_started
-- 
2.43.0

