From 62ffe221380f721903c16d5fe17aaf318098061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 01/40] fix: active power-down exit no longer reopens a bank
 that was only being refreshed

When a per-bank, same-bank, two-bank or dual-bank refresh is in progress while an active
power-down is entered, the entry is deferred to the end of the refresh. The exit then took the
refreshed bank (whose active interval ends exactly at the entry) for one that was open before
power-down and accounted it as active from then on. Decide by the bank state, as DDR4 does.
---
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp     | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp | 2 +-
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
index 2d27b3f..fe70f9e 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
@@ -257,7 +257,7 @@ void DDR5Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timestam
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
index f55157b..9acf224 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
@@ -193,7 +193,7 @@ void LPDDR4Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
index ba15dc9..263740b 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
@@ -254,7 +254,7 @@ void LPDDR5Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
index 4b67fd8..e0aabda 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
@@ -248,7 +248,7 @@ void LPDDR6Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         rank.cycles.powerDownAct.close_interval(exitTime);
         rank.cycles.act.start_interval(exitTime);
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 bank.cycles.act.start_interval(exitTime);
             }
         }
-- 
2.43.0


From 55a005686e3a623af5c5e6cdde25129c50a84ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 02/40] fix: a re-enabled bus no longer counts the time it was
 switched off

After disable()/enable() the empty burst storage reported end time 0, so idle
time was counted from the start of the simulation. A burst loaded in the very
cycle the bus is switched off is not counted either.
---
 src/DRAMPower/DRAMPower/util/bus.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/bus.h b/src/DRAMPower/DRAMPower/util/bus.h
index 14e1ec3..c33be62 100644
--- a/src/DRAMPower/DRAMPower/util/bus.h
+++ b/src/DRAMPower/DRAMPower/util/bus.h
@@ -91,14 +91,15 @@ private:
 
 	void advance_stats(timestamp_t virtual_timestamp, stats_t& stats) const {
 		// Advance counters to new timestamp
-		timestamp_t burstStorageEndTime = this->burst_storage.endTime();
+		// An empty storage (nothing loaded yet / bus just enabled) ends at the last load
+		timestamp_t burstStorageEndTime = std::max(this->burst_storage.endTime(), this->last_load);
 		// Burst storage
 		timestamp_t lastburstEnd = std::min(burstStorageEndTime, virtual_timestamp);
 		for (timestamp_t t = this->last_load; 0 != lastburstEnd && t < lastburstEnd - 1; ++t) {
 			stats += diff(this->at(t), this->at(t + 1)); // Last: (virtual_timestamp - 2, virtual_timestamp - 1)
 		}
 		// Burst to idle
-		if (virtual_timestamp > burstStorageEndTime && burstStorageEndTime > 0) {
+		if (virtual_timestamp > burstStorageEndTime && burstStorageEndTime > this->last_load) {
 			// Burst to idle
 			stats += diff(this->at(burstStorageEndTime - 1), this->at(burstStorageEndTime));
 		}
@@ -119,7 +120,7 @@ private:
 		}
 		advance_stats(virtual_timestamp, stats);
 		// Pattern for pending stats (virtual_timestamp - 1, virtual_timestamp)
-		if(virtual_timestamp > 0)
+		if(virtual_timestamp > this->last_load)
 		{
 			this->last_pattern = this->at(virtual_timestamp - 1);
 		}
@@ -201,6 +202,7 @@ public:
 
 		add_previous_stats(this->virtual_disable_timestamp);
 		// Clear pending stats
+		this->pending_stats.clear();
 		this->burst_storage.clear();
 
 		this->last_load = this->virtual_disable_timestamp;
@@ -215,6 +217,7 @@ public:
 		assert(timestamp * datarate > this->virtual_disable_timestamp);
 		// Shift the counters to the enabled timestamp
 		this->last_load = timestamp * this->datarate;
+		this->last_pattern = this->idle_pattern_burst;
 		// Add pending stats at enable timestamp
 		this->pending_stats.setPendingStats(this->last_load, idle_stats);
 		this->enableflag = true;
-- 
2.43.0


From a81b1dda1d018593242f5ddfdcd453d47df7239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 03/40] fix: pin statistics scale the load time by the data
 rate only once

---
 src/DRAMPower/DRAMPower/util/pin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/pin.h b/src/DRAMPower/DRAMPower/util/pin.h
index 1a94e23..35c417e 100644
--- a/src/DRAMPower/DRAMPower/util/pin.h
+++ b/src/DRAMPower/DRAMPower/util/pin.h
@@ -143,7 +143,7 @@ public:
         timestamp_t virtual_load_time  = load_time * dataRate;
 
         // Count stats to virtual_load_time
-        set_internal(virtual_load_time, dataRate, m_pending_stats, m_stats);
+        set_internal(load_time, dataRate, m_pending_stats, m_stats);
         if (m_pending_stats.isPending() && m_pending_stats.getTimestamp() < virtual_load_time) {
             m_pending_stats.clear();
         }
-- 
2.43.0


From 4e803866991dff989abd1492224c73375c9b1bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 04/40] fix: data bus inversion decides on the whole chunk when
 a chunk spans several bytes

The sub-chunk iterator reported the first instead of the last data unit of a
chunk as the end of the chunk, so LPDDR6 decided the inversion of each 16-bit
chunk on the second byte of the previous and the first byte of the current one.
---
 src/DRAMPower/DRAMPower/util/dbihelpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbihelpers.h b/src/DRAMPower/DRAMPower/util/dbihelpers.h
index 404ecb4..7c5b2f2 100644
--- a/src/DRAMPower/DRAMPower/util/dbihelpers.h
+++ b/src/DRAMPower/DRAMPower/util/dbihelpers.h
@@ -119,7 +119,7 @@ public:
     }
 
     inline bool last() const {
-        return 0 == (m_current_data_idx % COUNT_DATA);
+        return COUNT_DATA - 1 == m_current_data_idx;
     }
 
     inline static constexpr std::size_t getDataTotal() {
-- 
2.43.0


From c8b8beb941ff7a8055b0797abd3952d2a3c919ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 05/40] fix: record the inversion state of every chunk when
 bursts grow

The state vector was enlarged only when its capacity was too small, so chunks
beyond its size were written out of bounds and lost on serialization.
---
 src/DRAMPower/DRAMPower/util/dbi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 0f0a24f..9f2bae1 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -270,7 +270,7 @@ public:
         std::size_t n_chunks = n_bits / ChunkSize;
         
         // Resize lastInvert vector if needed
-        if (lastInvert.capacity() < n_chunks) {
+        if (lastInvert.size() < n_chunks) {
             lastInvert.resize(n_chunks, false);
         }
         
-- 
2.43.0


From ff1c5453d5d782bb8fddcdc8d8b8e53265d66edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 06/40] fix: seamless bursts continue from the beat last sent
 in the same direction

The transition-minimising inversion policy took the previous beat from a buffer
shared by reads and writes and ignored it altogether for single-beat bursts.
---
 src/DRAMPower/DRAMPower/util/dbi.h | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 9f2bae1..61faee1 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -256,9 +256,6 @@ public:
         assert(0 == (n_bits % DATATYPEDIGITS) && "n_bits must be a multiple of DATATYPEDIGITS");
         std::size_t entries_needed = n_bits / DATATYPEDIGITS;
 
-        // Save lastBeat for seamless Bursts
-        saveLastBurst(timestamp, m_lastBurst);
-
         // SAFETY: the assigning is necessary so there are no data copies during dbi calculation
         m_invertedData.assign(data, data + entries_needed);
 
@@ -295,6 +292,8 @@ public:
 
         // Store burst information
         m_lastBurst.update(timestamp, m_width, m_burstLength, n_bits);
+        // Save lastBeat for seamless Bursts
+        saveLastBeat(m_lastBurst);
         lastBurstRead = read;
         return m_invertedData.data();
     }
@@ -350,21 +349,17 @@ public:
 
 // Private member functions
 private:
-    void saveLastBurst(timestamp_t timestamp, LastBurst_t& m_lastBurst) {
-        if (m_lastBurst.m_init && m_lastBurst.end() == timestamp && m_width.has_value() // seamless burst and busWidth provided
-            && m_lastBurst.beats() != 0 && m_invertedData.size() > m_width.value() / DATATYPEDIGITS) // at least one beat is required
-        {
-            assert(0 <= (m_invertedData.size() - (m_width.value() / DATATYPEDIGITS)) && "Invalid m_invertedData size");
-            m_lastBurst.m_lastbeat.clear();
-            std::size_t n_subChunks = m_width.value() / DATATYPEDIGITS;
-            m_lastBurst.m_lastbeat.resize(n_subChunks);
-            std::copy(m_invertedData.end() - n_subChunks, m_invertedData.end(), m_lastBurst.m_lastbeat.begin());
-        }
+    void saveLastBeat(LastBurst_t& m_lastBurst) {
+        m_lastBurst.m_lastbeat.clear();
+        if (!m_width.has_value()) return; // beats are only defined with a busWidth
+        std::size_t n_subChunks = m_width.value() / DATATYPEDIGITS;
+        if (m_invertedData.size() < n_subChunks) return; // at least one beat is required
+        m_lastBurst.m_lastbeat.assign(m_invertedData.end() - n_subChunks, m_invertedData.end());
     }
 
     AlgorithmPreviousOptional_t createPreviousIterator(timestamp_t timestamp, LastBurst_t& m_lastBurst) {
         if (m_lastBurst.m_init && m_lastBurst.end() == timestamp && m_width.has_value() // seamless burst and busWidth provided
-            && m_lastBurst.beats() != 0 && m_invertedData.size() > m_width.value() / DATATYPEDIGITS) // at least one beat is required
+            && !m_lastBurst.m_lastbeat.empty()) // at least one beat is required
         {
             assert(0 <= (m_invertedData.size() - (m_width.value() / DATATYPEDIGITS)) && "Invalid m_invertedData size");
             // Create concat iterator of lastburst and current burst
-- 
2.43.0


From de39656b8685dcaef2db61d1e63d093b71f03235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 07/40] fix: DDR5 self-refresh exit has a command pattern

---
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
index 777c51b..a8953b7 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
@@ -97,6 +97,10 @@ void DDR5Interface::registerPatterns() {
     m_patternHandler.registerPattern<CmdType::SREFEN>({
         H, H, H, L, H, V, V, V, V, H, L, V, V, V
     });
+    // SREFEX
+    m_patternHandler.registerPattern<CmdType::SREFEX>({
+        H, H, H, H, H, V, V, V, V, V, V, V, V, V
+    });
     // PDEA
     m_patternHandler.registerPattern<CmdType::PDEA>({
         H, H, H, L, H, V, V, V, V, V, H, L, V, V
-- 
2.43.0


From cda92082176081a284dbdb69c6257170b7b8efc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 08/40] fix: the pattern encoder encodes row bits 18 to 23
 (LPDDR4 ACT uses R18)

---
 src/DRAMPower/DRAMPower/command/Pattern.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/command/Pattern.cpp b/src/DRAMPower/DRAMPower/command/Pattern.cpp
index b89392e..65d5521 100644
--- a/src/DRAMPower/DRAMPower/command/Pattern.cpp
+++ b/src/DRAMPower/DRAMPower/command/Pattern.cpp
@@ -192,6 +192,24 @@ namespace DRAMPower {
             case R17:
                 bitset[n] = row_bits[17];
                 break;
+            case R18:
+                bitset[n] = row_bits[18];
+                break;
+            case R19:
+                bitset[n] = row_bits[19];
+                break;
+            case R20:
+                bitset[n] = row_bits[20];
+                break;
+            case R21:
+                bitset[n] = row_bits[21];
+                break;
+            case R22:
+                bitset[n] = row_bits[22];
+                break;
+            case R23:
+                bitset[n] = row_bits[23];
+                break;
 
                 default:
                 break;
-- 
2.43.0


From 284d868d02c47f9c8a4d9f2fefb0390505c300e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 09/40] fix: LPDDR6 command parity is computed and placed at
 the parity bit of every command

---
 .../standards/lpddr6/LPDDR6Pattern.cpp        | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
index b7a9320..ef1e95e 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
@@ -3,6 +3,7 @@
 
 #include <DRAMUtils/memspec/standards/MemSpecLPDDR6.h>
 
+#include <algorithm>
 #include <bitset>
 
 
@@ -154,14 +155,24 @@ uint64_t LPDDR6Encoder::encode(const LPDDR6TargetCoordinate& targetCoordinate, c
         }
 
         // Parity
-        if (extraData.parity_check_mode && PAR == pattern[2]) {
-            // When CA Parity is enabled, the Host 
-            // generates an even bit parity based on the 1st and 2nd rising and falling edges of CA[3:0] 
-            // signals, excluding the CA Parity bit
-            bitset[pattern.size() - 3] = (1 == bitset.count() % 2);
+        if (extraData.parity_check_mode) {
+        // When CA Parity is enabled, the Host 
+        // generates an even bit parity based on the 1st and 2nd rising and falling edges of CA[3:0] 
+        // signals, excluding the CA Parity bit
+        constexpr std::size_t commandBits = 16;
+        for (std::size_t begin = 0; begin < pattern.size(); begin += commandBits) {
+            const std::size_t end = std::min(begin + commandBits, pattern.size());
+            const auto par = std::find(pattern.begin() + begin, pattern.begin() + end, PAR);
+            if (pattern.begin() + end == par) continue;
+            bool parity = false;
+            for (std::size_t i = begin; i < end; ++i) {
+                parity ^= bitset[pattern.size() - 1 - i];
+            }
+            bitset[pattern.size() - 1 - (par - pattern.begin())] = parity;
         }
+    }
 
-        return bitset.to_ullong();
+    return bitset.to_ullong();
 }
 
 } // namespace DRAMPower
\ No newline at end of file
-- 
2.43.0


From fcfea72e1473b1eb0bd45f1cdbecc3f677e1ac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 10/40] fix: inversion pins return to rest at the end of their
 burst, not at the start of the next one

---
 src/DRAMPower/DRAMPower/util/dbi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 61faee1..b264a73 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -424,7 +424,7 @@ private:
                     std::size_t chunk_idx = chunk % getChunksPerWidth().value(); // Pin index
                     if (lastInvert[chunk]) {
                         // Reset the inversion state
-                        m_changeCallback(timestamp, t, chunk_idx, false, read);
+                        m_changeCallback(t, t, chunk_idx, false, read);
                     }
                     // Reset the inversion state for next pin updates
                     lastInvert[chunk] = false;
@@ -436,7 +436,7 @@ private:
                 // Looping over all chunks of the lastBurst
                 for (std::size_t chunk = 0; chunk < m_lastBurst.chunks(); chunk++) {
                     if (lastInvert[chunk]) {
-                        m_changeCallback(timestamp, t, chunk, false, read);
+                        m_changeCallback(t, t, chunk, false, read);
                     }
                     // Reset the inversion state for next updates
                     lastInvert[chunk] = false;
-- 
2.43.0


From fabc3ea4ca679fdec3229c3b2d1ea80d46624f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 11/40] fix: inversion pin statistics use the device's data
 rate

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp     | 4 ++--
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 4 ++--
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
index 6845467..c7a455f 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
@@ -364,10 +364,10 @@ namespace DRAMPower {
         stats.writeDQSStats = NumDQsPairs * 2u * m_writeDQS.get_stats_at(timestamp);
 
         for (const auto &dbi_pin : m_dbiread) {
-            stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+            stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
         }
         for (const auto &dbi_pin : m_dbiwrite) {
-            stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+            stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
         }
     }
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index c2cace5..e2da59f 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -254,10 +254,10 @@ void LPDDR4Interface::getWindowStats(timestamp_t timestamp, SimulationStats &sta
     stats.writeDQSStats = 2 * m_writeDQS.get_stats_at(timestamp);
 
     for (const auto &dbi_pin : m_dbiread) {
-        stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
     for (const auto &dbi_pin : m_dbiwrite) {
-        stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
 
     if (m_memSpec.bitWidth == 16) {
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index 05044bf..d5eef0f 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -385,10 +385,10 @@ void LPDDR5Interface::getWindowStats(timestamp_t timestamp, SimulationStats &sta
     stats.readDQSStats = 2.0 * m_readDQS.get_stats_at(timestamp);
 
     for (const auto &dbi_pin : m_dbiread) {
-        stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
     for (const auto &dbi_pin : m_dbiwrite) {
-        stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
 }
 
-- 
2.43.0


From eb06ac6f78c2bd8930f279c266dd71b30a15174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 12/40] fix: LPDDR4, LPDDR5 and LPDDR6 save and restore their
 inversion unit, inversion pins, metadata and off state

---
 .../DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 14 ++++++++++++++
 .../DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 14 ++++++++++++++
 .../DRAMPower/standards/lpddr6/LPDDR6Interface.cpp |  6 ++++++
 3 files changed, 34 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index e2da59f..bf4aea6 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -274,6 +274,13 @@ void LPDDR4Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_writeDQS.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto &pin : m_dbiread) {
+        pin.serialize(stream);
+    }
+    for (const auto &pin : m_dbiwrite) {
+        pin.serialize(stream);
+    }
 }
 void LPDDR4Interface::deserialize(std::istream& stream) {
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
@@ -283,6 +290,13 @@ void LPDDR4Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_writeDQS.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto &pin : m_dbiread) {
+        pin.deserialize(stream);
+    }
+    for (auto &pin : m_dbiwrite) {
+        pin.deserialize(stream);
+    }
 }
 
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index d5eef0f..78aee94 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -400,6 +400,13 @@ void LPDDR5Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_wck.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto &pin : m_dbiread) {
+        pin.serialize(stream);
+    }
+    for (const auto &pin : m_dbiwrite) {
+        pin.serialize(stream);
+    }
 }
 void LPDDR5Interface::deserialize(std::istream& stream) {
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
@@ -409,6 +416,13 @@ void LPDDR5Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_wck.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto &pin : m_dbiread) {
+        pin.deserialize(stream);
+    }
+    for (auto &pin : m_dbiwrite) {
+        pin.deserialize(stream);
+    }
 }
 
 } // namespace DRAMPower
\ No newline at end of file
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
index 77d7e90..593d998 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
@@ -378,6 +378,9 @@ void LPDDR6Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_wck.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    stream.write(reinterpret_cast<const char*>(m_formatter.m_metaData.data()), sizeof(m_formatter.m_metaData));
+    stream.write(reinterpret_cast<const char*>(&m_enabled), sizeof(m_enabled));
 }
 
 void LPDDR6Interface::deserialize(std::istream& stream) {
@@ -388,6 +391,9 @@ void LPDDR6Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_wck.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    stream.read(reinterpret_cast<char*>(m_formatter.m_metaData.data()), sizeof(m_formatter.m_metaData));
+    stream.read(reinterpret_cast<char*>(&m_enabled), sizeof(m_enabled));
 }
 
 std::tuple<const uint8_t*, std::size_t> LPDDR6Interface::DataFormatter::formatData(
-- 
2.43.0


From e317400ab7b6f4e9e0cdb4a60fea9ab2707c182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 13/40] fix: the pattern handler saves the bits sent last

---
 src/DRAMPower/DRAMPower/util/PatternHandler.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/util/PatternHandler.h b/src/DRAMPower/DRAMPower/util/PatternHandler.h
index a08cea0..cf6e48c 100644
--- a/src/DRAMPower/DRAMPower/util/PatternHandler.h
+++ b/src/DRAMPower/DRAMPower/util/PatternHandler.h
@@ -102,9 +102,11 @@ public:
 public:
     void serialize(std::ostream& stream) const override {
         m_encoder.serialize(stream);
+        stream.write(reinterpret_cast<const char*>(&m_lastPattern), sizeof(m_lastPattern));
     }
     void deserialize(std::istream& stream) override {
         m_encoder.deserialize(stream);
+        stream.read(reinterpret_cast<char*>(&m_lastPattern), sizeof(m_lastPattern));
     }
 
 // Private member variables
-- 
2.43.0


From 7b7133dba08d8753d8243c7944190caf9e8a4a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:03 +0000
Subject: [PATCH 14/40] fix: the inversion unit restores its last beat and
 inverted data with their own element type

---
 src/DRAMPower/DRAMPower/util/dbi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index b264a73..de64a68 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -137,7 +137,7 @@ private:
             m_lastbeat.clear();
             m_lastbeat.reserve(m_lastbeatSize);
             for (std::size_t i = 0; i < m_lastbeatSize; ++i) {
-                bool entry;
+                DataType_t entry;
                 stream.read(reinterpret_cast<char*>(&entry), sizeof(entry));
                 m_lastbeat.push_back(entry);
             }
@@ -340,7 +340,7 @@ public:
         m_invertedData.clear();
         m_invertedData.reserve(invertedDataSize);
         for (std::size_t i = 0; i < invertedDataSize; ++i) {
-            uint8_t byte;
+            DataType_t byte;
             stream.read(reinterpret_cast<char*>(&byte), sizeof(byte));
             m_invertedData.push_back(byte);
         }
-- 
2.43.0


From 0b867290ea778ee29f6d7e685fa4b02780eb2bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 15/40] fix: DDR4 statistics report the command counters of a
 rank, which the pre- and postamble energy needs

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
index 9a45d31..9dfbdef 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
@@ -301,8 +301,10 @@ void DDR4Core::getWindowStats(timestamp_t timestamp, SimulationStats &stats) {
     for (size_t i = 0; i < m_memSpec.numberOfRanks; ++i) {
         const Rank &rank = m_ranks[i];
         size_t bank_offset = i * m_memSpec.numberOfBanks;
+        stats.rank_total[i].counter = {};
         for (size_t j = 0; j < m_memSpec.numberOfBanks; ++j) {
             stats.bank[bank_offset + j].counter = rank.banks[j].counter;
+            stats.rank_total[i].counter += rank.banks[j].counter;
             stats.bank[bank_offset + j].cycles.act =
                 rank.banks[j].cycles.act.get_count_at(timestamp);
             stats.bank[bank_offset + j].cycles.selfRefresh =
-- 
2.43.0


From 88b502b7ea734687bc106b142a30180804f3c98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 16/40] fix: DDR5 toggling-rate energy honours the termination
 setting of the data lines

---
 .../DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
index c6cd8d4..c231ed8 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
@@ -73,13 +73,13 @@ interface_energy_info_t InterfaceCalculation_DDR5::calcDQEnergyTogglingRate(cons
 
     // Read
     result.dram.staticEnergy +=
-        calcStaticTermination(impedances_.rdq_R_eq, stats.read, impedances_.rdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
+        calcStaticTermination(impedances_.rdq_termination, stats.read, impedances_.rdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
     result.dram.dynamicEnergy +=
         calc_dynamic_energy(stats.read.zeroes_to_ones, impedances_.rdq_dyn_E);
 
     // Write
     result.controller.staticEnergy +=
-        calcStaticTermination(impedances_.wdq_R_eq, stats.write, impedances_.wdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
+        calcStaticTermination(impedances_.wdq_termination, stats.write, impedances_.wdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
     result.controller.dynamicEnergy +=
         calc_dynamic_energy(stats.write.zeroes_to_ones, impedances_.wdq_dyn_E);
 
-- 
2.43.0


From 8d49c1860fadb7f8046451d2b01d02ffdf80d6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:20 +0000
Subject: [PATCH 17/40] fix: dynamic_bitset keeps the unused bits of its last
 block zero, so equal bitsets compare equal

---
 src/DRAMPower/DRAMPower/util/dynamic_bitset.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/util/dynamic_bitset.h b/src/DRAMPower/DRAMPower/util/dynamic_bitset.h
index cc0eb2b..995d905 100644
--- a/src/DRAMPower/DRAMPower/util/dynamic_bitset.h
+++ b/src/DRAMPower/DRAMPower/util/dynamic_bitset.h
@@ -60,6 +60,12 @@ public:
             lastelementmask.set(i);
         }
     }
+    // The bits of the last block above num_bits are not part of the bitset and have to stay zero
+    inline void clearUnusedBits() {
+        if (0 != num_bits % blocksize) {
+            buffer.back() &= lastelementmask;
+        }
+    }
     inline std::size_t size() const { return num_bits; };
     std::size_t count() const {
         std::size_t n = 0;
@@ -92,6 +98,7 @@ public: // element manipulation
         for (auto &element : buffer) {
             element.set();
         }
+        clearUnusedBits();
     }
     void reset() {
         for (auto &element : buffer) {
@@ -102,6 +109,7 @@ public: // element manipulation
         for (auto &element : buffer) {
             element.flip();
         }
+        clearUnusedBits();
     }
     void flip(std::size_t n) {
         buffer.at(n / blocksize).flip(n % blocksize);
@@ -162,6 +170,7 @@ public: // bitset operations
         for (std::size_t i = 0; i < this->buffer.size(); ++i) {
             bitset.buffer.at(i) = ~buffer.at(i);
         };
+        bitset.clearUnusedBits();
     
         return bitset;
     }
-- 
2.43.0


From 8b93ff5eaed39fdd9e3edeee97db92e0ae28ee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 18/40] fix: an implicit command may add implicit commands
 while the queue is processed

---
 src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h b/src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h
index 8a2946d..6a5de1e 100644
--- a/src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h
+++ b/src/DRAMPower/DRAMPower/util/ImplicitCommandHandler.h
@@ -51,10 +51,11 @@ public:
     void processImplicitCommandQueue(CommandContext_t context, timestamp_t timestamp, timestamp_t &last_command_time) {
         while (!m_implicitCommandList.empty() && m_implicitCommandList.front().first <= timestamp) {
             // Execute implicit command functor
-            auto& [i_timestamp, i_implicitCommand] = m_implicitCommandList.front();
+            // The entry leaves the queue first because the functor may add implicit commands
+            auto [i_timestamp, i_implicitCommand] = std::move(m_implicitCommandList.front());
+            m_implicitCommandList.pop_front();
             i_implicitCommand(context);
             last_command_time = i_timestamp;
-            m_implicitCommandList.pop_front();
         }
     }
 
@@ -86,10 +87,11 @@ public:
     void processImplicitCommandQueue(timestamp_t timestamp, timestamp_t &last_command_time) {
         while (!m_implicitCommandList.empty() && m_implicitCommandList.front().first <= timestamp) {
             // Execute implicit command functor
-            auto& [i_timestamp, i_implicitCommand] = m_implicitCommandList.front();
+            // The entry leaves the queue first because the functor may add implicit commands
+            auto [i_timestamp, i_implicitCommand] = std::move(m_implicitCommandList.front());
+            m_implicitCommandList.pop_front();
             i_implicitCommand();
             last_command_time = i_timestamp;
-            m_implicitCommandList.pop_front();
         }
     }
 
-- 
2.43.0


From 4a6e1d77417b7b7ecce1cd0df27e61a666badbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 19/40] fix: the extension manager tells hooks above bit 30
 apart

---
 src/DRAMPower/DRAMPower/util/extension_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/extension_manager.h b/src/DRAMPower/DRAMPower/util/extension_manager.h
index 6f4eb42..09173ec 100644
--- a/src/DRAMPower/DRAMPower/util/extension_manager.h
+++ b/src/DRAMPower/DRAMPower/util/extension_manager.h
@@ -179,7 +179,7 @@ private:
 
         const HookValue_t supportedHooks = static_cast<HookValue_t>(hookExt->getSupportedHooks());
         for (std::size_t i = 0; i < m_hookCache.size(); ++i) {
-            if ((supportedHooks & (1 << i)) != 0) {
+            if ((supportedHooks & (HookValue_t{1} << i)) != 0) {
                 m_hookCache[i].push_back(extension);
             }
         }
-- 
2.43.0


From c396ad7dbefee1c5086ceafbb7b2c275aa7f22f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 20/40] fix: the name printed for END_OF_SIMULATION reads back
 as that command

---
 src/DRAMPower/DRAMPower/command/CmdType.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/command/CmdType.h b/src/DRAMPower/DRAMPower/command/CmdType.h
index 67a4a07..2a1b764 100644
--- a/src/DRAMPower/DRAMPower/command/CmdType.h
+++ b/src/DRAMPower/DRAMPower/command/CmdType.h
@@ -102,7 +102,7 @@ namespace CmdTypeUtil
 			return CmdType::DSMEN;
 		if (str == "DSMEX")
 			return CmdType::DSMEX;
-		if (str == "END")
+		if (str == "END" || str == "END_OF_SIMULATION")
 			return CmdType::END_OF_SIMULATION;
 		return CmdType::NOP;
 	};
-- 
2.43.0


From 9642ac45e17455a604d99840b923b120efeea4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 21/40] fix: a hexadecimal payload with characters that are no
 hexadecimal digits is rejected

---
 src/cli/lib/DRAMPower/cli/util.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cli/lib/DRAMPower/cli/util.cpp b/src/cli/lib/DRAMPower/cli/util.cpp
index 290b477..eda91ce 100644
--- a/src/cli/lib/DRAMPower/cli/util.cpp
+++ b/src/cli/lib/DRAMPower/cli/util.cpp
@@ -25,6 +25,12 @@ std::unique_ptr<uint8_t[]> util::hexStringToUint8Array(const csv::string_view da
 		hexString = data;
 	}
 	
+	// std::stoi skips whitespace and accepts signs, prefixes and trailing characters
+	if ( hexString.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos )
+	{
+		throw std::invalid_argument("Invalid hex string character");
+	}
+
 	// Allocate memory for the array and fill it
 	auto content = std::make_unique<uint8_t[]>(size);
 	for (size_t i = 0; i < size; i++)
-- 
2.43.0


From 4cf4d38e43f52ffc700c8289974ac1ae700aa38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 22/40] fix: a trace with a malformed number is rejected
 instead of terminating the command-line tool

---
 src/cli/lib/DRAMPower/cli/run.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cli/lib/DRAMPower/cli/run.cpp b/src/cli/lib/DRAMPower/cli/run.cpp
index 47253fb..74c348d 100644
--- a/src/cli/lib/DRAMPower/cli/run.cpp
+++ b/src/cli/lib/DRAMPower/cli/run.cpp
@@ -97,7 +97,7 @@ std::unique_ptr<dram_base<CmdType>> getMemory(const std::string_view &data, cons
 }
 
 bool parse_command_list(std::string_view csv_file, std::vector<std::pair<Command, std::unique_ptr<uint8_t[]>>> &commandList)
-{
+try {
 	// Read csv file
 	csv::CSVFormat format;
 	format.no_header();
@@ -160,7 +160,10 @@ bool parse_command_list(std::string_view csv_file, std::vector<std::pair<Command
 	}
 
 	return true;
-};
+} catch (const std::exception&) {
+	// The file could not be read or a field could not be converted
+	return false;
+}
 
 bool jsonFileResult(const std::string &jsonfile, const std::unique_ptr<dram_base<CmdType>> &ddr, const energy_t &core_energy, const interface_energy_info_t &interface_energy)
 {
-- 
2.43.0


From 09db14eac7f81f6acc4f8579ac058124917a6f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 23/40] fix: a trace with an unknown command name is rejected
 instead of running without the command

---
 src/cli/lib/DRAMPower/cli/run.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cli/lib/DRAMPower/cli/run.cpp b/src/cli/lib/DRAMPower/cli/run.cpp
index 74c348d..c0eb8a9 100644
--- a/src/cli/lib/DRAMPower/cli/run.cpp
+++ b/src/cli/lib/DRAMPower/cli/run.cpp
@@ -135,6 +135,10 @@ try {
 
 		// Get command
 		cmd = DRAMPower::CmdTypeUtil::from_string(cmdType);
+		if ( cmd == CmdType::NOP && cmdType != "NOP" ) {
+			// Unknown command name
+			return false;
+		}
 
 		// Get data if needed
 		if ( DRAMPower::CmdTypeUtil::needs_data(cmd) ) {
-- 
2.43.0


From e46b13c6feed6a19da73f248a99a8e657a801227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 24/40] fix: the output path check resolves a relative link
 from the directory of the link

---
 src/cli/main/validators.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli/main/validators.cpp b/src/cli/main/validators.cpp
index 9ad3bb4..964ed38 100644
--- a/src/cli/main/validators.cpp
+++ b/src/cli/main/validators.cpp
@@ -28,7 +28,8 @@ std::optional<ResolveSymlinkResult> resolve_symlink(const std::string &filepath,
     // The path exists and is a symlink -> resolve the symlink chain
     std::filesystem::path resolved = filepath;
     for (uint_fast8_t iter = 0; iter < max_iter; ++iter) {
-        resolved = std::filesystem::read_symlink(resolved);
+        // A relative target is relative to the directory of the link
+        resolved = resolved.parent_path() / std::filesystem::read_symlink(resolved);
         // Check if the provided path exists
         if (!std::filesystem::exists(resolved)) {
             // symlink resolved to a non-existing path
-- 
2.43.0


From d528df1f6b6fb3c9fa38c8978c2df67fc26eb789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 25/40] fix: an output path through a cycle of links is
 rejected instead of terminating the command-line tool

---
 src/cli/main/validators.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cli/main/validators.cpp b/src/cli/main/validators.cpp
index 964ed38..e324403 100644
--- a/src/cli/main/validators.cpp
+++ b/src/cli/main/validators.cpp
@@ -108,7 +108,8 @@ std::string createFileInParentDirectory(const std::filesystem::path& filepath)
 EnsureFileExists_t::EnsureFileExists_t() {
     name_ = "EnsureFileExists";
     non_modifying_ = false; // The validator modifies the input for a symlink
-    func_ = [](std::string &filepath) {
+    func_ = [](std::string &filepath) -> std::string {
+    try {
 // Check if file exists
         if (std::filesystem::is_symlink(filepath)) {
 // resolve symlink chain for at most MAX_SYMLINK_RESOLVE_ITERATIONS iterations
@@ -139,6 +140,10 @@ EnsureFileExists_t::EnsureFileExists_t() {
         // The filepath does not exist
 // Try to create the file in the parent directory
         return createFileInParentDirectory(filepath);
+    } catch (const std::filesystem::filesystem_error&) {
+        // The status of the path could not be determined (e.g. a cycle of links)
+        return std::string{"Invalid path"};
+    }
     };
 }
 
-- 
2.43.0


From 895f9c0dc8290fbbcbdbe7fd5717e7f9bcde16dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 26/40] fix: the console report states the dual-bank refresh
 energy of a bank

---
 src/cli/lib/DRAMPower/cli/util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cli/lib/DRAMPower/cli/util.hpp b/src/cli/lib/DRAMPower/cli/util.hpp
index 96e56f7..b622a7f 100644
--- a/src/cli/lib/DRAMPower/cli/util.hpp
+++ b/src/cli/lib/DRAMPower/cli/util.hpp
@@ -81,7 +81,8 @@ template <> struct fmt::formatter<DRAMPower::energy_info_t>
                               "REF_AB: {} "
                               "REF_PB: {} "
                               "REF_SB: {} "
-                              "REF_2B: {}",
+                              "REF_2B: {} "
+                              "REF_DB: {}",
                               ei.E_act,
                               ei.E_pre,
                               ei.E_bg_act,
@@ -95,7 +96,8 @@ template <> struct fmt::formatter<DRAMPower::energy_info_t>
                               ei.E_ref_AB,
                               ei.E_ref_PB,
                               ei.E_ref_SB,
-                              ei.E_ref_2B);
+                              ei.E_ref_2B,
+                              ei.E_ref_DB);
     }
 };
 
-- 
2.43.0


From 35502da6d3313bb5fd3b2a49de8c587e6dfa3bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 27/40] fix: a report that could not be written completely is
 reported as an error

---
 src/cli/lib/DRAMPower/cli/run.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli/lib/DRAMPower/cli/run.cpp b/src/cli/lib/DRAMPower/cli/run.cpp
index c0eb8a9..c518512 100644
--- a/src/cli/lib/DRAMPower/cli/run.cpp
+++ b/src/cli/lib/DRAMPower/cli/run.cpp
@@ -214,7 +214,8 @@ bool jsonFileResult(const std::string &jsonfile, const std::unique_ptr<dram_base
 	
 	out << j.dump(4) << std::endl;
 	out.close();
-	return true;
+	// The report could not be written completely (e.g. no space left)
+	return out.good();
 }
 
 bool stdoutResult(const std::unique_ptr<dram_base<CmdType>> &ddr, const energy_t &core_energy, const interface_energy_info_t &interface_energy)
-- 
2.43.0


From 8a971896edcfaf0db8deebc957787ad8fe13ccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 28/40] fix: the help of the command-line tool is shown without
 running a simulation

---
 src/cli/main/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cli/main/main.cpp b/src/cli/main/main.cpp
index a756f18..7c3feff 100644
--- a/src/cli/main/main.cpp
+++ b/src/cli/main/main.cpp
@@ -1,5 +1,6 @@
 
 #include <stdint.h>
+#include <cstdlib>
 #include <utility>
 #include <optional>
 #include <string_view>
@@ -43,6 +44,9 @@ int parseArgs(int argc, char *argv[], std::string &configfile, std::string &trac
 	// Parse arguments
 	try { 
 		app.parse(argc, argv); 
+	} catch(const cli11::Success &e) {
+		// Help was requested and there is nothing to simulate
+		std::exit(app.exit(e));
 	} catch(const cli11::ParseError &e) {
 		return app.exit(e);
 	}
-- 
2.43.0


From 5f8b51d624731f53f7622cef1fc33b3b3b44ff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 29/40] fix: bank and rank handlers taking an index reject
 commands to ranks or banks that do not exist

---
 src/DRAMPower/DRAMPower/util/RegisterHelper.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/util/RegisterHelper.h b/src/DRAMPower/DRAMPower/util/RegisterHelper.h
index e5c2d35..b455d0d 100644
--- a/src/DRAMPower/DRAMPower/util/RegisterHelper.h
+++ b/src/DRAMPower/DRAMPower/util/RegisterHelper.h
@@ -24,6 +24,9 @@ namespace coreHelpers {
     decltype(auto) bankHandlerIdx(const Command_t& cmd, std::vector<Rank>& ranks, Owner owner, Func &&member_func) {
         assert(ranks.size()>cmd.targetCoordinate.rank);
         assert(ranks.at(cmd.targetCoordinate.rank).banks.size()>cmd.targetCoordinate.bank);
+        if (cmd.targetCoordinate.bank >= ranks.at(cmd.targetCoordinate.rank).banks.size()) {
+            throw std::invalid_argument("Invalid bank targetcoordinate");
+        }
 
         return (owner->*member_func)(cmd.targetCoordinate.rank, cmd.targetCoordinate.bank, cmd.timestamp);
     }
@@ -39,6 +42,9 @@ namespace coreHelpers {
     template<typename Func, typename Owner, typename Command_t = Command>
     decltype(auto) rankHandlerIdx(const Command_t& cmd, std::vector<Rank>& ranks, Owner owner, Func &&member_func) {
         assert(ranks.size()>cmd.targetCoordinate.rank);
+        if (cmd.targetCoordinate.rank >= ranks.size()) {
+            throw std::invalid_argument("Invalid rank targetcoordinate");
+        }
         return (owner->*member_func)(cmd.targetCoordinate.rank, cmd.timestamp);
     }
 
-- 
2.43.0


From ff7c599d3e2dd4d3a3f09600ee6ebe7997530e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 30/40] fix: a two-bank refresh without a second bank is
 rejected

---
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
index 263740b..9d2c6cc 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
@@ -121,6 +121,10 @@ void LPDDR5Core::handleRefPerBank(std::size_t rank_idx, std::size_t bank_idx, ti
 void LPDDR5Core::handleRefPerTwoBanks(std::size_t rank_idx, std::size_t bank_idx, timestamp_t timestamp) {
     auto& rank = m_ranks[rank_idx];
     std::size_t bank_2_idx = (bank_idx + m_memSpec.perTwoBankOffset) % 16;
+    if (bank_2_idx >= rank.banks.size()) {
+        // The memory has no second bank to refresh (e.g. 8 banks)
+        throw std::invalid_argument("Invalid bank targetcoordinate");
+    }
     auto& counter1 = rank.banks[bank_idx].counter.refPerTwoBanks;
     auto& counter2 = rank.banks[bank_2_idx].counter.refPerTwoBanks;
     handleRefreshOnBank(rank_idx, bank_idx, timestamp, m_memSpec.tRFCPB, counter1);
-- 
2.43.0


From 7ce0522d55d14066163277c28c3bc82cf97d8e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 31/40] fix: a relative output path is accepted without access
 to the parents of the working directory

---
 src/cli/main/validators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/main/validators.cpp b/src/cli/main/validators.cpp
index e324403..9efee3d 100644
--- a/src/cli/main/validators.cpp
+++ b/src/cli/main/validators.cpp
@@ -72,7 +72,7 @@ std::string createFileInParentDirectory(const std::filesystem::path& filepath)
 
     // No path directory provided -> create the file in current directory
     if (path.empty() && filepath.is_relative()) {
-        path = std::filesystem::current_path();
+        path = ".";
     }
     if (!std::filesystem::exists(path)) {
         // parent directory does not exist
-- 
2.43.0


From 5f04ca91048233b99424bfac2789f2550fe54741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 32/40] fix: row timing is measured from the activate, not from
 a restart of the active interval by power-down exit or refresh

---
 src/DRAMPower/DRAMPower/dram/Bank.h                     | 3 +++
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp     | 7 ++++---
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp     | 7 ++++---
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp | 7 ++++---
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp | 7 ++++---
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp | 7 ++++---
 6 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/dram/Bank.h b/src/DRAMPower/DRAMPower/dram/Bank.h
index d7f911d..171e04b 100644
--- a/src/DRAMPower/DRAMPower/dram/Bank.h
+++ b/src/DRAMPower/DRAMPower/dram/Bank.h
@@ -27,11 +27,13 @@ public:
 
     BankState bankState;
 public:
+    timestamp_t latestAct = 0;
     timestamp_t latestPre = 0;
     timestamp_t refreshEndTime = 0;
 
     void serialize(std::ostream& stream) const override {
         stream.write(reinterpret_cast<const char *>(&bankState), sizeof(bankState));
+        stream.write(reinterpret_cast<const char *>(&latestAct), sizeof(latestAct));
         stream.write(reinterpret_cast<const char *>(&latestPre), sizeof(latestPre));
         stream.write(reinterpret_cast<const char *>(&refreshEndTime), sizeof(refreshEndTime));
         cycles.act.serialize(stream);
@@ -41,6 +43,7 @@ public:
     }
     void deserialize(std::istream& stream) override {
         stream.read(reinterpret_cast<char *>(&bankState), sizeof(bankState));
+        stream.read(reinterpret_cast<char *>(&latestAct), sizeof(latestAct));
         stream.read(reinterpret_cast<char *>(&latestPre), sizeof(latestPre));
         stream.read(reinterpret_cast<char *>(&refreshEndTime), sizeof(refreshEndTime));
         cycles.act.deserialize(stream);
diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
index 9dfbdef..35d92a2 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
@@ -69,6 +69,7 @@ bool DDR4Core::isSerializable() const {
 
 void DDR4Core::handleAct(Rank &rank, Bank &bank, timestamp_t timestamp) {
     bank.counter.act++;
+    bank.latestAct = timestamp;
     bank.bankState = Bank::BankState::BANK_ACTIVE;
 
     bank.cycles.act.start_interval(timestamp);
@@ -142,7 +143,7 @@ void DDR4Core::handleReadAuto(std::size_t rank_idx, std::size_t bank_idx, timest
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.readAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + m_memSpec.tRAS;
     auto minReadActiveTime = timestamp + m_memSpec.prechargeOffsetRD;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minReadActiveTime);
@@ -161,7 +162,7 @@ void DDR4Core::handleWriteAuto(std::size_t rank_idx, std::size_t bank_idx, times
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.writeAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + m_memSpec.tRAS;
     auto minWriteActiveTime =  timestamp + m_memSpec.prechargeOffsetWR;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minWriteActiveTime);
@@ -282,7 +283,7 @@ timestamp_t DDR4Core::earliestPossiblePowerDownEntryTime(Rank & rank) const {
 
     for (const auto & bank : rank.banks) {
         entryTime = std::max({ entryTime,
-                                bank.counter.act == 0 ? 0 :  bank.cycles.act.get_start() + m_memSpec.tRCD,
+                                bank.counter.act == 0 ? 0 :  bank.latestAct + m_memSpec.tRCD,
                                 bank.counter.pre == 0 ? 0 : bank.latestPre + m_memSpec.tRP,
                                 bank.refreshEndTime
                                 });
diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
index fe70f9e..197db88 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
@@ -74,6 +74,7 @@ bool DDR5Core::isSerializable() const {
 
 void DDR5Core::handleAct(Rank &rank, Bank &bank, timestamp_t timestamp) {
     bank.counter.act++;
+    bank.latestAct = timestamp;
 
     bank.cycles.act.start_interval(timestamp);
 
@@ -170,7 +171,7 @@ void DDR5Core::handleReadAuto(std::size_t rank_idx, std::size_t bank_idx, timest
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.readAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + m_memSpec.tRAS;
     auto minReadActiveTime = timestamp + m_memSpec.prechargeOffsetRD;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minReadActiveTime);
@@ -191,7 +192,7 @@ void DDR5Core::handleWriteAuto(std::size_t rank_idx, std::size_t bank_idx, times
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.writeAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + m_memSpec.tRAS;
     auto minWriteActiveTime = timestamp + m_memSpec.prechargeOffsetWR;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minWriteActiveTime);
@@ -301,7 +302,7 @@ timestamp_t DDR5Core::earliestPossiblePowerDownEntryTime(Rank &rank) {
         entryTime = std::max(
             {entryTime,
                 bank.counter.act == 0 ? 0
-                                    : bank.cycles.act.get_start() + m_memSpec.tRCD,
+                                    : bank.latestAct + m_memSpec.tRCD,
                 bank.counter.pre == 0 ? 0 : bank.latestPre + m_memSpec.tRP,
                 bank.refreshEndTime});
     }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
index 9acf224..a3728a9 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
@@ -70,6 +70,7 @@ bool LPDDR4Core::isSerializable() const {
 
 void LPDDR4Core::handleAct(Rank &rank, Bank &bank, timestamp_t timestamp) {
     bank.counter.act++;
+    bank.latestAct = timestamp;
 
     bank.cycles.act.start_interval(timestamp);
 
@@ -241,7 +242,7 @@ void LPDDR4Core::handleReadAuto(std::size_t rank_idx, std::size_t bank_idx, time
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.readAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + m_memSpec.tRAS;
     auto minReadActiveTime = timestamp + m_memSpec.prechargeOffsetRD;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minReadActiveTime);
@@ -258,7 +259,7 @@ void LPDDR4Core::handleWriteAuto(std::size_t rank_idx, std::size_t bank_idx, tim
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.writeAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + m_memSpec.tRAS;
     auto minWriteActiveTime = timestamp + m_memSpec.prechargeOffsetWR;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minWriteActiveTime);
@@ -276,7 +277,7 @@ timestamp_t LPDDR4Core::earliestPossiblePowerDownEntryTime(Rank & rank) const {
 
     for (const auto & bank : rank.banks) {
         entryTime = std::max({ entryTime,
-                                bank.counter.act == 0 ? 0 :  bank.cycles.act.get_start() + m_memSpec.tRCD,
+                                bank.counter.act == 0 ? 0 :  bank.latestAct + m_memSpec.tRCD,
                                 bank.counter.pre == 0 ? 0 : bank.latestPre + m_memSpec.tRP,
                                 bank.refreshEndTime
                                 });
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
index 9d2c6cc..c58868f 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
@@ -83,6 +83,7 @@ bool LPDDR5Core::isSerializable() const {
 
 void LPDDR5Core::handleAct(Rank &rank, Bank &bank, timestamp_t timestamp) {
     bank.counter.act++;
+    bank.latestAct = timestamp;
 
     bank.cycles.act.start_interval(timestamp);
 
@@ -174,7 +175,7 @@ void LPDDR5Core::handleReadAuto(std::size_t rank_idx, std::size_t bank_idx, time
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.readAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + this->m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + this->m_memSpec.tRAS;
     auto minReadActiveTime = timestamp + this->m_memSpec.prechargeOffsetRD;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minReadActiveTime);
@@ -195,7 +196,7 @@ void LPDDR5Core::handleWriteAuto(std::size_t rank_idx, std::size_t bank_idx, tim
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.writeAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + this->m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + this->m_memSpec.tRAS;
     auto minWriteActiveTime = timestamp + this->m_memSpec.prechargeOffsetWR;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minWriteActiveTime);
@@ -314,7 +315,7 @@ timestamp_t LPDDR5Core::earliestPossiblePowerDownEntryTime(Rank & rank) const {
         entryTime = std::max(
             {entryTime,
                 bank.counter.act == 0 ? 0
-                                    : bank.cycles.act.get_start() + m_memSpec.tRCD,
+                                    : bank.latestAct + m_memSpec.tRCD,
                 bank.counter.pre == 0 ? 0 : bank.latestPre + m_memSpec.tRP,
                 bank.refreshEndTime});
     }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
index e0aabda..437e505 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
@@ -83,6 +83,7 @@ bool LPDDR6Core::isSerializable() const {
 
 void LPDDR6Core::handleAct(Rank &rank, Bank &bank, timestamp_t timestamp) {
     bank.counter.act++;
+    bank.latestAct = timestamp;
 
     bank.cycles.act.start_interval(timestamp);
 
@@ -168,7 +169,7 @@ void LPDDR6Core::handleReadAuto(std::size_t rank_idx, std::size_t bank_idx, time
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.readAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + this->m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + this->m_memSpec.tRAS;
     auto minReadActiveTime = timestamp + this->m_memSpec.prechargeOffsetRD;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minReadActiveTime);
@@ -189,7 +190,7 @@ void LPDDR6Core::handleWriteAuto(std::size_t rank_idx, std::size_t bank_idx, tim
     auto& bank = m_ranks[rank_idx].banks[bank_idx];
     ++bank.counter.writeAuto;
 
-    auto minBankActiveTime = bank.cycles.act.get_start() + this->m_memSpec.tRAS;
+    auto minBankActiveTime = bank.latestAct + this->m_memSpec.tRAS;
     auto minWriteActiveTime = timestamp + this->m_memSpec.prechargeOffsetWR;
 
     auto delayed_timestamp = std::max(minBankActiveTime, minWriteActiveTime);
@@ -285,7 +286,7 @@ timestamp_t LPDDR6Core::earliestPossiblePowerDownEntryTime(Rank& rank) const {
         entryTime = std::max(
             {entryTime,
                 bank.counter.act == 0 ? 0
-                    : bank.cycles.act.get_start() + std::max(m_memSpec.tRCDR, m_memSpec.tRCDW),
+                    : bank.latestAct + std::max(m_memSpec.tRCDR, m_memSpec.tRCDW),
                 bank.counter.pre == 0 ? 0 : bank.latestPre + m_memSpec.tRP,
                 bank.refreshEndTime});
     }
-- 
2.43.0


From 0ab8cce7745e4befabcb361023e866b70c389783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 33/40] fix: a query does not move the time of the last command

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp     | 4 +++-
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp     | 4 +++-
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp | 4 +++-
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp | 4 +++-
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp | 4 +++-
 5 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
index 35d92a2..716f4db 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
@@ -293,7 +293,9 @@ timestamp_t DDR4Core::earliestPossiblePowerDownEntryTime(Rank & rank) const {
 }
 
 void DDR4Core::getWindowStats(timestamp_t timestamp, SimulationStats &stats) {
-    m_implicitCommandHandler.processImplicitCommandQueue(*this, timestamp, m_last_command_time);
+    // A query does not change the time of the last command
+    auto last_command_time = m_last_command_time;
+    m_implicitCommandHandler.processImplicitCommandQueue(*this, timestamp, last_command_time);
     // resize banks and ranks
     stats.bank.resize(m_memSpec.numberOfBanks * m_memSpec.numberOfRanks);
     stats.rank_total.resize(m_memSpec.numberOfRanks);
diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
index 197db88..153e8a1 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
@@ -311,7 +311,9 @@ timestamp_t DDR5Core::earliestPossiblePowerDownEntryTime(Rank &rank) {
 }
 
 void DDR5Core::getWindowStats(timestamp_t timestamp, SimulationStats &stats) {
-    m_implicitCommandHandler.processImplicitCommandQueue(*this, timestamp, m_last_command_time);
+    // A query does not change the time of the last command
+    auto last_command_time = m_last_command_time;
+    m_implicitCommandHandler.processImplicitCommandQueue(*this, timestamp, last_command_time);
     stats.bank.resize(m_memSpec.numberOfBanks * m_memSpec.numberOfRanks);
     stats.rank_total.resize(m_memSpec.numberOfRanks);
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
index a3728a9..4700fba 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
@@ -287,7 +287,9 @@ timestamp_t LPDDR4Core::earliestPossiblePowerDownEntryTime(Rank & rank) const {
 };
 
 void LPDDR4Core::getWindowStats(timestamp_t timestamp, SimulationStats &stats) {
-    m_implicitCommandHandler.processImplicitCommandQueue(*this, timestamp, m_last_command_time);
+    // A query does not change the time of the last command
+    auto last_command_time = m_last_command_time;
+    m_implicitCommandHandler.processImplicitCommandQueue(*this, timestamp, last_command_time);
     stats.bank.resize(m_memSpec.numberOfBanks * m_memSpec.numberOfRanks);
     stats.rank_total.resize(m_memSpec.numberOfRanks);
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
index c58868f..4177339 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
@@ -324,7 +324,9 @@ timestamp_t LPDDR5Core::earliestPossiblePowerDownEntryTime(Rank & rank) const {
 }
 
 void LPDDR5Core::getWindowStats(timestamp_t timestamp, SimulationStats &stats) {
-    m_implicitCommandHandler.processImplicitCommandQueue(*this, timestamp, m_last_command_time);
+    // A query does not change the time of the last command
+    auto last_command_time = m_last_command_time;
+    m_implicitCommandHandler.processImplicitCommandQueue(*this, timestamp, last_command_time);
     stats.bank.resize(m_memSpec.numberOfBanks * m_memSpec.numberOfRanks);
     stats.rank_total.resize(m_memSpec.numberOfRanks);
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
index 437e505..77f12d0 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
@@ -295,7 +295,9 @@ timestamp_t LPDDR6Core::earliestPossiblePowerDownEntryTime(Rank& rank) const {
 }
 
 void LPDDR6Core::getWindowStats(timestamp_t timestamp, SimulationStats &stats) {
-    m_implicitCommandHandler.processImplicitCommandQueue(*this, timestamp, m_last_command_time);
+    // A query does not change the time of the last command
+    auto last_command_time = m_last_command_time;
+    m_implicitCommandHandler.processImplicitCommandQueue(*this, timestamp, last_command_time);
     stats.bank.resize(m_memSpec.numberOfBanks * m_memSpec.numberOfRanks);
     stats.rank_total.resize(m_memSpec.numberOfRanks);
 
-- 
2.43.0


From bb011659bd74d25747ccfb3f43ffdba843f695ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 34/40] fix: a clock line may be stopped at the instant it was
 started (burst without beats)

---
 src/DRAMPower/DRAMPower/util/clock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/clock.h b/src/DRAMPower/DRAMPower/util/clock.h
index 1f654ea..a74f9db 100644
--- a/src/DRAMPower/DRAMPower/util/clock.h
+++ b/src/DRAMPower/DRAMPower/util/clock.h
@@ -50,7 +50,7 @@ public:
     void stop(timestamp_t t)
     {
         assert(last_start.has_value());
-        assert(*last_start < t);
+        assert(*last_start <= t);
 
         this->stats += count(t - *last_start);
         last_start.reset();
-- 
2.43.0


From 311cd969ff55bed351950aafca3ef9f9f5a5827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:02 +0000
Subject: [PATCH 35/40] fix: DDR4 active power-down exit may precede the
 deferred entry

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
index 716f4db..fe0d44c 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
@@ -210,12 +210,12 @@ void DDR4Core::handlePowerDownActEntry(std::size_t rank_idx, timestamp_t timesta
 
 void DDR4Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timestamp) {
     auto& rank = m_ranks[rank_idx];
-    assert(rank.memState == MemState::PDN_ACT);
     auto earliestPossibleExit = this->earliestPossiblePowerDownEntryTime(rank);
     auto exitTime = std::max(timestamp, earliestPossibleExit);
 
     m_implicitCommandHandler.addImplicitCommand(exitTime, [rank_idx, exitTime](DDR4Core& self) {
         auto& rank = self.m_ranks[rank_idx];
+        assert(rank.memState == MemState::PDN_ACT); // the entry may have been deferred until now
         rank.memState = MemState::NOT_IN_PD;
         rank.cycles.powerDownAct.close_interval(exitTime);
 
-- 
2.43.0


From 6efea2ebaa626d4ca114155a6bee0bce03165656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 36/40] fix: x4 devices, which do not use data bus inversion,
 can be created with assertions enabled

---
 src/DRAMPower/DRAMPower/util/dbi.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index de64a68..cccf877 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -186,11 +186,15 @@ public:
         , m_enable(enable)
         , m_algorithm(std::forward<Args>(args)...)
     {
-        assert(!busWidth.has_value() || (0 == (busWidth.value() % ChunkSize) && "busWidth must be a multiple of CHUNKSIZE"));
+        assertWidth();
     }
 
 // Private member functions
 private:
+    // Only a bus that uses DBI has to consist of complete chunks (e.g. not x4 devices)
+    void assertWidth() const {
+        assert(!m_enable || !m_width.has_value() || (0 == (m_width.value() % ChunkSize) && "busWidth must be a multiple of CHUNKSIZE"));
+    }
     void invertChunk(std::size_t chunk_start) {
         std::size_t subchunk_start = chunk_start * SUBCHUNKS;
         for (std::size_t subchunk = subchunk_start; subchunk < subchunk_start + SUBCHUNKS; ++subchunk) {
@@ -202,6 +206,7 @@ private:
 public:
     void enable(bool enable) {
         m_enable = enable;
+        assertWidth();
     }
     bool isEnabled() const {
         return m_enable;
-- 
2.43.0


From 39ea613570668ae9cc3d3ec24872912646d53e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:16 +0000
Subject: [PATCH 37/40] fix: LPDDR6 commands to banks other than the first of a
 group no longer trip an assertion

---
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
index ef1e95e..8ce369c 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp
@@ -18,7 +18,8 @@ uint64_t LPDDR6Encoder::encode(const LPDDR6TargetCoordinate& targetCoordinate, c
         std::bitset<17> row_bits(targetCoordinate.row & 0x1FFFF);
         std::bitset<6> column_bits(targetCoordinate.column & 0x3F);
         std::bitset<2> bank_group_bits(targetCoordinate.bankGroup & 0x3);
-        assert((0 == targetCoordinate.dbank % extraData.numberOfBankGroups) && "Invalid bank configuration");
+        // The second bank of a command can be any bank of its group
+        assert((0 != extraData.numberOfBankGroups) && "Invalid bank configuration");
         auto dbankGroup = targetCoordinate.dbank / extraData.numberOfBankGroups;
         std::bitset<2> dbank_group_bits(dbankGroup & 0x3);
         bool sc_bit = (1 == targetCoordinate.subChannel);
-- 
2.43.0


From a442e906362d00889ecc5a1b5155ae0064830b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 38/40] fix: LPDDR6 accesses without data are encoded with the
 default burst length

---
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
index 593d998..7889747 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
@@ -346,7 +346,8 @@ void LPDDR6Interface::handleData(const LPDDR6Command& cmd, bool read) {
             m_wck.stop(cmd.timestamp + length / m_memSpec.dataRate);
         }
     }
-    m_patternHandler.getEncoder().getExtraData().currentBurstLength = length;
+    // An access without data is encoded with the default burst length
+    m_patternHandler.getEncoder().getExtraData().currentBurstLength = (0 == length) ? m_memSpec.burstLength : length;
     handleCommandBus(cmd);
 }
 
-- 
2.43.0


From 1366ee6790ff4373158683edc5273a32c8b2e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 39/40] fix: LPDDR6 burst formatting does not shift by more
 than the width of the inversion word

---
 .../DRAMPower/standards/lpddr6/LPDDR6Interface.cpp          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
index 7889747..07928ef 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
@@ -449,10 +449,10 @@ std::tuple<const uint8_t*, std::size_t> LPDDR6Interface::DataFormatter::formatDa
 
             int mapping = dataBitsPerBurstNoMetaNoDBI * burst24 + dataBitMapping[dataBitIdx]; 
             bool dataBit = (inputData[mapping >> 3] >> (mapping & 7)) & 1;
-            bool metaBit = (m_metaData[burst24] >> bitOffset) & 1;
-            bool dbiBit = (dbival >> ((16 * burst24) + bitOffset)) & 1;
+            bool metaBit = isMeta && ((m_metaData[burst24] >> bitOffset) & 1);
+            bool dbiBit = isDbi && ((dbival >> ((16 * burst24) + bitOffset)) & 1);
 
-            bool bitValue = (dbiBit && isDbi) || (metaBit && isMeta) || (dataBit && isData);
+            bool bitValue = dbiBit || metaBit || (dataBit && isData);
 
             size_t outputindex = nbursts * dataBitsPerBurst - 1 - (burst24 * dataBitsPerBurst + i);
             m_formatResult[outputindex >> 3] |= (static_cast<uint8_t>(bitValue) << (outputindex & 7));
-- 
2.43.0


From 11e25536985c74425e4594cd054c8a9772898d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:53 +0000
Subject: [PATCH 40/40] fix: devices with inversion pins can be assigned (their
 copy assignment did not compile)

---
 src/DRAMPower/DRAMPower/util/pin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/pin.h b/src/DRAMPower/DRAMPower/util/pin.h
index 35c417e..1005268 100644
--- a/src/DRAMPower/DRAMPower/util/pin.h
+++ b/src/DRAMPower/DRAMPower/util/pin.h
@@ -221,7 +221,7 @@ private:
     pin_stats_t m_stats;
 
     PinState m_last_state = PinState::Z;
-    const PinState m_idle_state = PinState::L;
+    PinState m_idle_state = PinState::L;
 
     bool m_init_load = true;
 
-- 
2.43.0

