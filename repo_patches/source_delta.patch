From 8efc73b8f8e1d53d21b10ba537655fabce487fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:32 +0000
Subject: [PATCH 01/25] fix: advance the mask generators of a supplier between
 its input values

---
 src/frn/input_corr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/input_corr.h b/src/frn/input_corr.h
index b4dc2bd..19a2854 100644
--- a/src/frn/input_corr.h
+++ b/src/frn/input_corr.h
@@ -46,7 +46,7 @@ class InputSetup {
     Shr GetMaskShare(unsigned id) {
       std::vector<frn::Field> share;
       share.reserve(mShareSize);
-      auto prg_id = mPrgs[id];
+      auto& prg_id = mPrgs[id];
       for (std::size_t i = 0; i < mShareSize; i++)
         share.emplace_back(GetRandomElement(prg_id[i]));
       return share;
-- 
2.43.0


From cbcf943b06d89f2125d8bd2f414d00d0fbb1076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 02/25] fix: derive the supplier's mask keys from the additive
 shares that were distributed

---
 src/frn/input_corr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frn/input_corr.cc b/src/frn/input_corr.cc
index 7b76af7..c055154 100644
--- a/src/frn/input_corr.cc
+++ b/src/frn/input_corr.cc
@@ -25,7 +25,8 @@ frn::InputSetup::Correlator frn::InputSetup::Run() {
   auto copy = mPrg;
   auto size = mNetwork->Size();
   auto shr_k = mReplicator.Share(k, mPrg);
-  auto add_k = frn::lib::secret_sharing::ShareAdditive(k, size, copy);
+  auto add_k = frn::lib::secret_sharing::ShareAdditive(
+      k, mReplicator.AdditiveShareSize(), copy);
 
   for (std::size_t i = 0; i < size; i++) {
     mNetwork->SendShares(i, {shr_k[i]});
-- 
2.43.0


From 7b17bf94ba8ce9bb5b0f6274f4259822d7c4a227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 03/25] fix: record the random share of a prepared product only
 once

---
 src/frn/mult.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/frn/mult.h b/src/frn/mult.h
index e95b735..4804c95 100644
--- a/src/frn/mult.h
+++ b/src/frn/mult.h
@@ -140,8 +140,6 @@ class Mult {
 
   AddAndMsgs MultiplyToAddAndMsgs(const Shr& a, const Shr& b,
                                   const RandomShare& randomShares) {
-    mRandomShares.emplace_back(randomShares);
-
     // Initialize output
     AddAndMsgs output;
     output.add_share = Field(0);
-- 
2.43.0


From e7839a9ae11a791c3fb17db1a4a0cb08fb423f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 04/25] fix: validate the parameters of a replicator before
 computing share sizes

---
 src/frn/lib/secret_sharing/rep.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/frn/lib/secret_sharing/rep.h b/src/frn/lib/secret_sharing/rep.h
index a623357..8dacfa9 100644
--- a/src/frn/lib/secret_sharing/rep.h
+++ b/src/frn/lib/secret_sharing/rep.h
@@ -173,13 +173,14 @@ class Replicator {
    */
   Replicator(std::size_t n, std::size_t t)
       : mSize(n),
-        mThreshold(t),
-        mShareSize(Binom(n - 1, t)),
-        mAdditiveShareSize(Binom(n, t)) {
+        mThreshold(t) {
     if (mSize <= mThreshold)
       throw std::invalid_argument("privacy threshold cannot be larger than n");
     if (!mThreshold)
       throw std::invalid_argument("privacy threshold cannot be 0");
+    // only well defined for valid parameters
+    mShareSize = Binom(n - 1, t);
+    mAdditiveShareSize = Binom(n, t);
     Init();
   };
 
-- 
2.43.0


From d4dcff7cde0db1bfdce0f5c86b77462fc65b83bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:55 +0000
Subject: [PATCH 05/25] Read-only accessors for the compressed check data,
 guarded by FRN_VERIF_HOOKS

---
 src/frn/check.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/frn/check.h b/src/frn/check.h
index 7db14f5..3072d57 100644
--- a/src/frn/check.h
+++ b/src/frn/check.h
@@ -191,6 +191,14 @@ class Check {
     STOP_TIMER(ReconstructMsgs);
   };
 
+#ifdef FRN_VERIF_HOOKS
+  // read-only access for verification harnesses
+  const CompressedCheckData& VerifCompressed() const { return mCompressedCD; };
+  const std::vector<Field>& VerifCoefficients() const {
+    return mRandomCoefficients;
+  };
+#endif
+
  private:
   std::shared_ptr<Network> mNetwork;
   frn::lib::secret_sharing::Replicator<Field> mReplicator;
-- 
2.43.0


From 595fafd03a2a08dd5ad88663dd833c0ef688e7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:42 +0000
Subject: [PATCH 06/25] fix: compress the record of every party that sends
 shares to the first party

---
 src/frn/check.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/check.h b/src/frn/check.h
index 3072d57..5cfa379 100644
--- a/src/frn/check.h
+++ b/src/frn/check.h
@@ -81,7 +81,7 @@ class Check {
     START_TIMER(LinearComb);
 
     // this assumes 2d+1 = n-d <> n=3d+1 (so U=T)
-    if ((0 < mId) && (mId < 2 * mThreshold - 1)) {
+    if ((0 < mId) && (mId < 2 * mThreshold + 1)) {
       for (unsigned mult_idx = 0; mult_idx < mCheckData.counter; mult_idx++) {
 
         mCompressedCD.shares_sent_to_p1 +=
-- 
2.43.0


From 93a048bc00a7d17f601dfb4d8ef0128123263773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:42 +0000
Subject: [PATCH 07/25] fix: send each opened element only to the parties that
 miss it

---
 src/frn/shr.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/shr.cc b/src/frn/shr.cc
index 79083d7..3446d0e 100644
--- a/src/frn/shr.cc
+++ b/src/frn/shr.cc
@@ -139,9 +139,9 @@ void frn::ShrManipulator::Init() {
 
   // precompute mTableRec
   // We use the double-replicator since this will be used to reconstruct a degree-2d sharing
-  RecEntry entry;
-
   for (unsigned shr_id = 0; shr_id < mDoubleReplicator.ShareSize(); shr_id++) {
+    RecEntry entry;
+
     // We convert the input index from local to global
     int shr_id_ = mDoubleReplicator.IndexSetFor(mPartyId)[shr_id];
 
-- 
2.43.0


From 0ef8d00d3c45b0a74a60d32efd68e74f50ba5934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:25 +0000
Subject: [PATCH 08/25] fix: absorb every byte of a full word when updating a
 hash

---
 src/frn/lib/primitives/hash.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frn/lib/primitives/hash.h b/src/frn/lib/primitives/hash.h
index ee449d2..b5df72e 100644
--- a/src/frn/lib/primitives/hash.h
+++ b/src/frn/lib/primitives/hash.h
@@ -186,9 +186,9 @@ Hash<Tag> &Hash<Tag>::Update(const unsigned char *bytes, std::size_t nbytes) {
   for (std::size_t i = 0; i < words; ++i) {
     const uint64_t t =
         (uint64_t)(p[0]) | ((uint64_t)(p[1]) << 8 * 1) |
-        ((uint64_t)(p[1]) << 8 * 2) | ((uint64_t)(p[1]) << 8 * 3) |
-        ((uint64_t)(p[1]) << 8 * 4) | ((uint64_t)(p[1]) << 8 * 5) |
-        ((uint64_t)(p[1]) << 8 * 6) | ((uint64_t)(p[1]) << 8 * 7);
+        ((uint64_t)(p[2]) << 8 * 2) | ((uint64_t)(p[3]) << 8 * 3) |
+        ((uint64_t)(p[4]) << 8 * 4) | ((uint64_t)(p[5]) << 8 * 5) |
+        ((uint64_t)(p[6]) << 8 * 6) | ((uint64_t)(p[7]) << 8 * 7);
 
     mState[mWordIndex] ^= t;
 
-- 
2.43.0


From cdc99f1b1a99a6f36d61ac912e85d10e1cfcbd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:38 +0000
Subject: [PATCH 09/25] fix: scale a vector by a copy of the scalar, which may
 be one of its entries

---
 src/frn/lib/math/vec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/math/vec.h b/src/frn/lib/math/vec.h
index e03e580..df6dcc2 100644
--- a/src/frn/lib/math/vec.h
+++ b/src/frn/lib/math/vec.h
@@ -168,8 +168,9 @@ template <typename T>
 RingType<T, std::vector<T> &> ScaleBy(std::vector<T> &vector, const T &scalar) {
   auto n = vector.size();
   auto it = vector.begin();
+  const T factor(scalar);  // scalar may be an entry of vector
 
-  while (n-- > 0) *(it++) *= scalar;
+  while (n-- > 0) *(it++) *= factor;
 
   return vector;
 }
-- 
2.43.0


From 78fc59a1eb902357d417daf5b6d2accce827b968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:27 +0000
Subject: [PATCH 10/25] fix: print a matrix with its rows and columns the right
 way round

---
 src/frn/lib/math/mat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/math/mat.h b/src/frn/lib/math/mat.h
index ca5c7c5..b7f18e9 100644
--- a/src/frn/lib/math/mat.h
+++ b/src/frn/lib/math/mat.h
@@ -254,8 +254,8 @@ class Matrix {
    * @return a string representation of this matrix
    */
   std::string ToString() const {
-    const auto n = ColumnCount();
-    const auto m = RowCount();
+    const auto n = RowCount();
+    const auto m = ColumnCount();
 
     // convert all elements to strings and find the widest string in each
     // column.
-- 
2.43.0


From 4a6d83f97a7afa7fab1223d98bb03a0649ce806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 11/25] fix: refuse submatrices that reach outside the matrix

---
 src/frn/lib/math/mat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/math/mat.h b/src/frn/lib/math/mat.h
index b7f18e9..bc13173 100644
--- a/src/frn/lib/math/mat.h
+++ b/src/frn/lib/math/mat.h
@@ -92,10 +92,10 @@ class Matrix {
    */
   Matrix extract_submatrix(std::size_t row_beg, std::size_t row_end,
                            std::size_t col_beg, std::size_t col_end) {
-    if (row_beg > row_end || row_end - row_beg > RowCount())
+    if (row_beg > row_end || row_end > RowCount())
       throw std::logic_error("invalid row offsets");
 
-    if (col_beg > col_end || col_end - col_beg > ColumnCount())
+    if (col_beg > col_end || col_end > ColumnCount())
       throw std::logic_error("invalid column offsets");
 
     auto nrows = row_end - row_beg;
-- 
2.43.0


From d4df3fa62a15be428b4ab7493c2c5e3cdd374bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:06 +0000
Subject: [PATCH 12/25] fix: local connector drops the rest of a message read
 in parts

---
 src/frn/lib/net/connector.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index f20f75b..b7d7848 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -177,10 +177,17 @@ class LocalConnector : public Connector {
   };
 
   std::int64_t Recv(unsigned char *buffer, std::size_t size) {
-    auto data = mIncoming->Front();
-    auto actual_size = std::min(data.size(), size);
-    std::memcpy(buffer, data.data(), actual_size);
-    mIncoming->PopFront();
+    // this connector is the only one that reads from mIncoming, so the front
+    // element stays put.
+    const auto &data = mIncoming->Front();
+    auto actual_size = std::min(data.size() - mConsumed, size);
+    std::memcpy(buffer, data.data() + mConsumed, actual_size);
+    mConsumed += actual_size;
+    // what was not asked for yet is left for the next read.
+    if (mConsumed == data.size()) {
+      mIncoming->PopFront();
+      mConsumed = 0;
+    }
     return actual_size;
   };
 
@@ -196,6 +203,9 @@ class LocalConnector : public Connector {
 
   BufferPtr mOutgoing = 0;
   BufferPtr mIncoming = 0;
+
+  // bytes of the front element of mIncoming that were already read.
+  std::size_t mConsumed = 0;
 };
 
 /**
-- 
2.43.0


From d0fdafa220cb7d2721294410cd493e65626516cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:06 +0000
Subject: [PATCH 13/25] fix: closing a channel loses queued messages and uses a
 closed socket

---
 src/frn/lib/net/channel.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/frn/lib/net/channel.cc b/src/frn/lib/net/channel.cc
index c6b0a37..b1e0d56 100644
--- a/src/frn/lib/net/channel.cc
+++ b/src/frn/lib/net/channel.cc
@@ -11,7 +11,8 @@ void frn::lib::net::AsyncSenderChannel::Open() {
   mSender = std::async(std::launch::async, [&]() {
     while (true) {
       std::vector<unsigned char> buf = mSendQueue.Front();
-      if (mConnector->State() != Connector::State::eActive) break;
+      // an empty message marks the end, see Close().
+      if (buf.empty()) break;
       mConnector->Send(buf.data(), buf.size());
       mSendQueue.PopFront();
     }
@@ -20,15 +21,17 @@ void frn::lib::net::AsyncSenderChannel::Open() {
 
 void frn::lib::net::AsyncSenderChannel::Send(const unsigned char* buffer,
                                         std::size_t size) {
+  if (!size) return;
   mSendQueue.PushBack({buffer, buffer + size});
 }
 
 void frn::lib::net::AsyncSenderChannel::Close() {
-  // signal the async job that we're done by closing the connector and then
-  // sending an empty message. The message ensures that sender job will check
-  // if the connector is still alive and thus exit correctly.
+  // signal the async job that we're done with an empty message. Messages are
+  // handled in order, so everything sent earlier has been handed to the
+  // connector when the job exits and the connector can be closed.
+  if (mSender.valid()) {
+    mSendQueue.PushBack(std::vector<unsigned char>());
+    mSender.wait();
+  }
   mConnector->Close();
-  unsigned char dummy = 1;
-  Send(&dummy, 1);
-  mSender.wait();
 }
-- 
2.43.0


From 4fbcd2e2b8aaa4a21c20d7d7c7e8981892deadab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:06 +0000
Subject: [PATCH 14/25] fix: reading from a lost connection returns made-up
 data

---
 src/frn/lib/net/connector.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index 2c666fd..ef1b07c 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -63,7 +63,10 @@ std::int64_t frn::lib::net::TCPConnector::Recv(unsigned char* buffer,
     auto n = mSystem->read(mSocket, buffer + offset, rem);
 
     // other end disconnected.
-    if (!n) break;
+    if (!n) {
+      mState = Connector::State::eError;
+      throw std::runtime_error("connection closed by other end");
+    }
     if (n < 0) set_error_and_throw("recv failed");
 
     rem -= n;
-- 
2.43.0


From d71c46c3ccd6fce3db5d18aaf7e911e9cc599d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:06 +0000
Subject: [PATCH 15/25] fix: listening sockets are never closed

---
 src/frn/lib/net/connector.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index ef1b07c..ddab7bb 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -166,4 +166,8 @@ void frn::lib::net::TCPServerConnector::EstablishConnection() {
   if (sock < 0) set_error_and_throw("could not accept connection from client");
 
   mSocket = sock;
+
+  // only one client is ever accepted.
+  if (mSystem->close(ssock) < 0)
+    set_error_and_throw("error while closing listening socket");
 }
-- 
2.43.0


From 44ab79992b9ff6da5cfea30247c602f1408ec861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:06 +0000
Subject: [PATCH 16/25] fix: port 65536 is accepted as valid

---
 src/frn/lib/net/connector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index b7d7848..fec6623 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -259,7 +259,7 @@ class TCPConnector : public Connector {
  * @brief Returns true if a port is valid.
  */
 constexpr inline bool invalid_port(int port) {
-  return port < 1025 || port > 65536;
+  return port < 1025 || port > 65535;
 }
 
 /**
-- 
2.43.0


From 7d0ea0962871237bffacdcb829c3682b8cc65465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:06 +0000
Subject: [PATCH 17/25] fix: network built with a connection file of the wrong
 length

---
 src/frn/lib/net/builder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frn/lib/net/builder.cc b/src/frn/lib/net/builder.cc
index 41ef815..f5922e1 100644
--- a/src/frn/lib/net/builder.cc
+++ b/src/frn/lib/net/builder.cc
@@ -79,6 +79,10 @@ Network frn::lib::net::Network::Builder::Build() const {
       for (auto& ip : ips) ip = "0.0.0.0";
     } else {
       ips = mIps.value();
+      if (ips.size() != n)
+        throw std::logic_error(
+            "number of entries in connection file "
+            "does not match network size");
     }
 
     int base_port = mBasePort.value_or(Network::kBasePort);
-- 
2.43.0


From e878fed58792a6c27d91924e428b80bb8f7b3ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:06 +0000
Subject: [PATCH 18/25] fix: experiment programs accept any number of parties

---
 src/frn/exp_check.cc | 2 +-
 src/frn/exp_input.cc | 2 +-
 src/frn/exp_mult.cc  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frn/exp_check.cc b/src/frn/exp_check.cc
index 9b0857f..8a40a73 100644
--- a/src/frn/exp_check.cc
+++ b/src/frn/exp_check.cc
@@ -9,7 +9,7 @@
 #define BASE_PORT 6677
 
 inline std::size_t ValidateN(const std::size_t n) {
-  assert(n > 3 || n < 17);
+  assert(n > 3 && n < 17);
   return n;
 }
 
diff --git a/src/frn/exp_input.cc b/src/frn/exp_input.cc
index eecd8a5..2d4c5cb 100644
--- a/src/frn/exp_input.cc
+++ b/src/frn/exp_input.cc
@@ -18,7 +18,7 @@ inline void Populate(std::vector<frn::Field>& vector) {
 }
 
 inline std::size_t ValidateN(const std::size_t n) {
-  assert(n > 3 || n < 17);
+  assert(n > 3 && n < 17);
   return n;
 }
 
diff --git a/src/frn/exp_mult.cc b/src/frn/exp_mult.cc
index b8023f5..67ce8b2 100644
--- a/src/frn/exp_mult.cc
+++ b/src/frn/exp_mult.cc
@@ -9,7 +9,7 @@
 #define BASE_PORT 6677
 
 inline std::size_t ValidateN(const std::size_t n) {
-  assert(n > 3 || n < 17);
+  assert(n > 3 && n < 17);
   return n;
 }
 
-- 
2.43.0


From c2802dd05789a80b0e5c3abef1bd4d15336dc719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:23 +0000
Subject: [PATCH 19/25] fix: closing an unconnected connector closes standard
 input

---
 src/frn/lib/net/connector.cc | 3 +++
 src/frn/lib/net/connector.h  | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index ddab7bb..a6684a8 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -33,7 +33,10 @@ std::string frn::lib::utils::to_string(const enum net::Connector::State& state)
 }
 
 void frn::lib::net::TCPConnector::TeardownConnection() {
+  // nothing to close if no connection was made, or if it is closed already.
+  if (mSocket < 0) return;
   auto err = mSystem->close(mSocket);
+  mSocket = -1;
   if (err < 0) set_error_and_throw("error while closing socket");
 }
 
diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index fec6623..fb33ab4 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -247,7 +247,7 @@ class TCPConnector : public Connector {
   /**
    * @brief Socket.
    */
-  int mSocket = 0;
+  int mSocket = -1;
 
   /**
    * @brief Pointer to a class handling system calls.
-- 
2.43.0


From 1f1f606fc2aa2fa264698a5b13614d1f545ea62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 20/25] fix: destroying an open channel without closing it
 never returned

The sender thread of an AsyncSenderChannel ends only on the message Close
sends, and destroying its future waits for it.
---
 src/frn/lib/net/channel.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/frn/lib/net/channel.h b/src/frn/lib/net/channel.h
index e47f272..4206295 100644
--- a/src/frn/lib/net/channel.h
+++ b/src/frn/lib/net/channel.h
@@ -105,6 +105,18 @@ class AsyncSenderChannel : public Channel {
 
         };
 
+  /**
+   * @brief Closes the channel if that was not done. The sender thread would
+   * otherwise never end.
+   */
+  ~AsyncSenderChannel() {
+    try {
+      Close();
+    } catch (...) {
+      // there is nobody to report to.
+    }
+  };
+
   void Open();
 
   void Close();
-- 
2.43.0


From ce5345974364bb5770e5acac4ad4729ab3c0ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 21/25] fix: listening socket leaked when a connection cannot
 be accepted

---
 src/frn/lib/net/connector.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index a6684a8..977d168 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -144,12 +144,21 @@ void frn::lib::net::TCPServerConnector::EstablishConnection() {
 
   if (ssock < 0) set_error_and_throw("could not acquire socket");
 
+  // nobody else closes the listening socket.
+  auto close_and_throw = [&](const char* message) {
+    // what is reported is the original error.
+    auto err = mSystem->get_errno();
+    mSystem->close(ssock);
+    errno = err;
+    set_error_and_throw(message);
+  };
+
   int opt = 1;
   auto options = SO_REUSEADDR | SO_REUSEPORT;
 
   auto err = mSystem->set_socket_options(ssock, SOL_SOCKET, options, &opt,
                                          sizeof(opt));
-  if (err < 0) set_error_and_throw("could not set options on socket");
+  if (err < 0) close_and_throw("could not set options on socket");
 
   struct sockaddr_in addr;
   addr.sin_family = AF_INET;
@@ -159,14 +168,14 @@ void frn::lib::net::TCPServerConnector::EstablishConnection() {
   struct sockaddr* addr_ptr = (struct sockaddr*)&addr;
 
   if (mSystem->bind(ssock, addr_ptr, sizeof(addr)) < 0)
-    set_error_and_throw("bind");
+    close_and_throw("bind");
 
-  if (mSystem->listen(ssock, 1) < 0) set_error_and_throw("listen");
+  if (mSystem->listen(ssock, 1) < 0) close_and_throw("listen");
 
   auto addrsize = sizeof(addr);
   int sock = mSystem->accept(ssock, addr_ptr, (socklen_t*)&addrsize);
 
-  if (sock < 0) set_error_and_throw("could not accept connection from client");
+  if (sock < 0) close_and_throw("could not accept connection from client");
 
   mSocket = sock;
 
-- 
2.43.0


From a18b578b6f2a078947351874cb00cc1a79a2f3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 22/25] fix: data race on a connector's state

A sender thread whose send fails sets the state while the closing thread reads
it.
---
 src/frn/lib/net/connector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index fb33ab4..87937a2 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -2,6 +2,7 @@
 #define _FRN_LIB_NET_CONNECTOR_H
 
 #include <algorithm>
+#include <atomic>
 #include <cstring>
 #include <memory>
 #include <sstream>
@@ -119,7 +120,7 @@ class Connector {
   /**
    * @brief Current state.
    */
-  enum State mState = State::eIdle;
+  std::atomic<enum State> mState = State::eIdle;
 };
 
 }  // namespace net
-- 
2.43.0


From d42a0bacfae6f2fad0a12e9d3f49e5715f978eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 23/25] fix: sending to a party that closed its connection
 ended the process

write() on such a socket raises SIGPIPE; the error was never seen.
---
 src/frn/lib/net/sysi.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/net/sysi.cc b/src/frn/lib/net/sysi.cc
index 23b159a..80f7c91 100644
--- a/src/frn/lib/net/sysi.cc
+++ b/src/frn/lib/net/sysi.cc
@@ -22,7 +22,9 @@ int frn::lib::net::SystemInterface::create_socket(int domain, int type,
 
 ssize_t frn::lib::net::SystemInterface::write(int fd, const void* buf,
                                          std::size_t count) {
-  return ::write(fd, buf, count);
+  // writing to a connection the other end closed is an error like any other and
+  // not a SIGPIPE, which would end the process.
+  return ::send(fd, buf, count, MSG_NOSIGNAL);
 }
 
 ssize_t frn::lib::net::SystemInterface::read(int fd, void* buf, std::size_t count) {
-- 
2.43.0


From edf07812fd20bda091e250c31cbdb7ec8768c39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 24/25] fix: failure to send was reported nowhere

An exception thrown in the sender thread was stored in a future nobody read, so
messages that were never sent went unnoticed. Close now reports it, after
everything has been closed.
---
 src/frn/lib/net/channel.cc |  2 ++
 src/frn/lib/net/network.h  | 10 +++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/net/channel.cc b/src/frn/lib/net/channel.cc
index b1e0d56..5c0acaf 100644
--- a/src/frn/lib/net/channel.cc
+++ b/src/frn/lib/net/channel.cc
@@ -34,4 +34,6 @@ void frn::lib::net::AsyncSenderChannel::Close() {
     mSender.wait();
   }
   mConnector->Close();
+  // if the job failed, then messages were not delivered.
+  if (mSender.valid()) mSender.get();
 }
diff --git a/src/frn/lib/net/network.h b/src/frn/lib/net/network.h
index 9dddf06..c36e25e 100644
--- a/src/frn/lib/net/network.h
+++ b/src/frn/lib/net/network.h
@@ -1,6 +1,7 @@
 #ifndef _FRN_LIB_NET_NETWORK_H
 #define _FRN_LIB_NET_NETWORK_H
 
+#include <exception>
 #include <memory>
 #include <stdexcept>
 #include <vector>
@@ -52,10 +53,17 @@ class Network {
    * @brief Close the network.
    */
   void Close() {
+    std::exception_ptr failure;
     for (std::size_t i = 0; i < mSize; ++i) {
       LOG_INFO(mLogger, "closing %", mChannels[i]->ToString());
-      mChannels[i]->Close();
+      try {
+        mChannels[i]->Close();
+      } catch (...) {
+        // the other channels are closed nevertheless.
+        if (!failure) failure = std::current_exception();
+      }
     }
+    if (failure) std::rethrow_exception(failure);
   };
 
   /**
-- 
2.43.0


From 0e762cf370c78e92e7452bca19e6726ab16658ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:37 +0000
Subject: [PATCH 25/25] fix: bytes of a failed receive were reported as
 received

---
 src/frn/tcp_network.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/tcp_network.h b/src/frn/tcp_network.h
index 36e92ac..9e0511c 100644
--- a/src/frn/tcp_network.h
+++ b/src/frn/tcp_network.h
@@ -70,8 +70,8 @@ class TcpNetwork final : public Network {
   std::vector<Field> Recv(unsigned id, std::size_t n) override {
     auto m = n * Field::ByteSize();
     auto buffer = std::make_unique<unsigned char[]>(m);
-    mSummary.Recv(id, m);
     mNetwork.RecvFrom(id, buffer.get(), m);
+    mSummary.Recv(id, m);
     std::vector<Field> values;
     values.reserve(n);
     auto ptr = buffer.get();
@@ -93,8 +93,8 @@ class TcpNetwork final : public Network {
 
   std::vector<unsigned char> RecvBytes(unsigned id, std::size_t n) override {
     std::vector<unsigned char> r(n);
-    mSummary.Recv(id, n);
     mNetwork.RecvFrom(id, r.data(), n);
+    mSummary.Recv(id, n);
     return r;
   };
 
-- 
2.43.0

