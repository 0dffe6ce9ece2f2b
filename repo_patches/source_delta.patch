From a50ee5cec922f76fa8aa1d0342586600186dc53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 01/15] fix: keep the unread rest of a message a party sent to
 itself

LocalConnector::Recv dropped what did not fit into the caller's buffer, so
receiving a message to oneself in several parts lost data.
---
 src/frn/lib/net/connector.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index f20f75b..6ae95eb 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -177,10 +177,15 @@ class LocalConnector : public Connector {
   };
 
   std::int64_t Recv(unsigned char *buffer, std::size_t size) {
-    auto data = mIncoming->Front();
-    auto actual_size = std::min(data.size(), size);
-    std::memcpy(buffer, data.data(), actual_size);
-    mIncoming->PopFront();
+    auto& data = mIncoming->Front();
+    auto actual_size = std::min(data.size() - mOffset, size);
+    std::memcpy(buffer, data.data() + mOffset, actual_size);
+    mOffset += actual_size;
+    // keep what is left of a message for the next call.
+    if (mOffset == data.size()) {
+      mIncoming->PopFront();
+      mOffset = 0;
+    }
     return actual_size;
   };
 
@@ -196,6 +201,11 @@ class LocalConnector : public Connector {
 
   BufferPtr mOutgoing = 0;
   BufferPtr mIncoming = 0;
+
+  /**
+   * @brief How much of the first incoming message was already read.
+   */
+  std::size_t mOffset = 0;
 };
 
 /**
-- 
2.43.0


From 6d0031d4655acd2ab491e06be177f86ea346c05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 02/15] fix: report the end of a connection instead of
 returning unread bytes

TCPConnector::Recv returned normally when the peer had closed the connection
or died, leaving (part of) the buffer of the caller unwritten.
---
 src/frn/lib/net/connector.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index 2c666fd..fe896fb 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -63,7 +63,11 @@ std::int64_t frn::lib::net::TCPConnector::Recv(unsigned char* buffer,
     auto n = mSystem->read(mSocket, buffer + offset, rem);
 
     // other end disconnected.
-    if (!n) break;
+    if (!n) {
+      mState = Connector::State::eError;
+      throw std::system_error(ECONNRESET, std::generic_category(),
+                              "connection closed by peer");
+    }
     if (n < 0) set_error_and_throw("recv failed");
 
     rem -= n;
-- 
2.43.0


From f88d782c612264507f7b92456e06d08d13475759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 03/15] fix: close the listening socket once the peer is
 connected

TCPServerConnector never closed it, so every network leaked one listening
socket per server channel, and a peer re-connecting later could end up in the
queue of a listener nobody accepts from any more.
---
 src/frn/lib/net/connector.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index fe896fb..465c757 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -166,5 +166,9 @@ void frn::lib::net::TCPServerConnector::EstablishConnection() {
 
   if (sock < 0) set_error_and_throw("could not accept connection from client");
 
+  // exactly one client is expected.
+  if (mSystem->close(ssock) < 0)
+    set_error_and_throw("error while closing listening socket");
+
   mSocket = sock;
 }
-- 
2.43.0


From 37cab496d81ed6f28ae6507224f7a7f48b4d00a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 04/15] fix: retry system calls that were interrupted by a
 signal

An interrupted read or accept was reported as an error, and an interrupted
write silently ended the sender thread of a channel.
---
 src/frn/lib/net/connector.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index 465c757..fa8ac91 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -45,7 +45,10 @@ std::int64_t frn::lib::net::TCPConnector::Send(const unsigned char* buffer,
   while (rem > 0) {
     auto n = mSystem->write(mSocket, buffer + offset, rem);
 
-    if (n < 0) set_error_and_throw("write failed");
+    if (n < 0) {
+      if (mSystem->get_errno() == EINTR) continue;
+      set_error_and_throw("write failed");
+    }
 
     rem -= n;
     offset += n;
@@ -68,7 +71,10 @@ std::int64_t frn::lib::net::TCPConnector::Recv(unsigned char* buffer,
       throw std::system_error(ECONNRESET, std::generic_category(),
                               "connection closed by peer");
     }
-    if (n < 0) set_error_and_throw("recv failed");
+    if (n < 0) {
+      if (mSystem->get_errno() == EINTR) continue;
+      set_error_and_throw("recv failed");
+    }
 
     rem -= n;
     offset += n;
@@ -162,7 +168,10 @@ void frn::lib::net::TCPServerConnector::EstablishConnection() {
   if (mSystem->listen(ssock, 1) < 0) set_error_and_throw("listen");
 
   auto addrsize = sizeof(addr);
-  int sock = mSystem->accept(ssock, addr_ptr, (socklen_t*)&addrsize);
+  int sock;
+  do {
+    sock = mSystem->accept(ssock, addr_ptr, (socklen_t*)&addrsize);
+  } while (sock < 0 && mSystem->get_errno() == EINTR);
 
   if (sock < 0) set_error_and_throw("could not accept connection from client");
 
-- 
2.43.0


From f51d338ce4fcd4487bac525716ba3e585f087f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 05/15] fix: make the connector state safe to share between
 threads

---
 src/frn/lib/net/connector.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index 6ae95eb..393e45c 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -2,6 +2,7 @@
 #define _FRN_LIB_NET_CONNECTOR_H
 
 #include <algorithm>
+#include <atomic>
 #include <cstring>
 #include <memory>
 #include <sstream>
@@ -117,9 +118,10 @@ class Connector {
   virtual void TeardownConnection() = 0;
 
   /**
-   * @brief Current state.
+   * @brief Current state. Read and written by the threads that send and that
+   * receive.
    */
-  enum State mState = State::eIdle;
+  std::atomic<enum State> mState = State::eIdle;
 };
 
 }  // namespace net
-- 
2.43.0


From ee9263283c21b90f0612e05e17d04f7eaf301304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:56 +0000
Subject: [PATCH 06/15] fix: deliver everything that was sent before a channel
 is closed

---
 src/frn/lib/net/channel.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/frn/lib/net/channel.cc b/src/frn/lib/net/channel.cc
index c6b0a37..2ed2983 100644
--- a/src/frn/lib/net/channel.cc
+++ b/src/frn/lib/net/channel.cc
@@ -11,6 +11,8 @@ void frn::lib::net::AsyncSenderChannel::Open() {
   mSender = std::async(std::launch::async, [&]() {
     while (true) {
       std::vector<unsigned char> buf = mSendQueue.Front();
+      // an empty message is only ever inserted by Close().
+      if (buf.empty()) break;
       if (mConnector->State() != Connector::State::eActive) break;
       mConnector->Send(buf.data(), buf.size());
       mSendQueue.PopFront();
@@ -20,15 +22,15 @@ void frn::lib::net::AsyncSenderChannel::Open() {
 
 void frn::lib::net::AsyncSenderChannel::Send(const unsigned char* buffer,
                                         std::size_t size) {
+  if (!size) return;
   mSendQueue.PushBack({buffer, buffer + size});
 }
 
 void frn::lib::net::AsyncSenderChannel::Close() {
-  // signal the async job that we're done by closing the connector and then
-  // sending an empty message. The message ensures that sender job will check
-  // if the connector is still alive and thus exit correctly.
-  mConnector->Close();
-  unsigned char dummy = 1;
-  Send(&dummy, 1);
+  // signal the async job that we're done by sending an empty message. Wait for
+  // it before closing the connector, so that everything that was sent before is
+  // also delivered.
+  mSendQueue.PushBack(std::vector<unsigned char>());
   mSender.wait();
+  mConnector->Close();
 }
-- 
2.43.0


From f14d23267c90ef537b503c12021f515640464735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 07/15] fix: wake every thread that waits on a shared queue

---
 src/frn/lib/net/shared_deque.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/net/shared_deque.h b/src/frn/lib/net/shared_deque.h
index c522885..7a892d5 100644
--- a/src/frn/lib/net/shared_deque.h
+++ b/src/frn/lib/net/shared_deque.h
@@ -81,7 +81,7 @@ void SharedDeque<T, Allocator>::PushBack(const T &item) {
   std::unique_lock<std::mutex> lock(mMutex);
   mDeck.push_back(item);
   lock.unlock();
-  mCond.notify_one();
+  mCond.notify_all();
 }
 
 template <typename T, typename Allocator>
@@ -89,7 +89,7 @@ void SharedDeque<T, Allocator>::PushBack(T &&item) {
   std::unique_lock<std::mutex> lock(mMutex);
   mDeck.push_back(std::move(item));
   lock.unlock();
-  mCond.notify_one();
+  mCond.notify_all();
 }
 
 template <typename T, typename Allocator>
-- 
2.43.0


From 9062f85f50462cb4299b6ed311813f666c4a1548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 08/15] fix: use each random share for one multiplication only

---
 src/frn/mult.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/frn/mult.h b/src/frn/mult.h
index e95b735..4804c95 100644
--- a/src/frn/mult.h
+++ b/src/frn/mult.h
@@ -140,8 +140,6 @@ class Mult {
 
   AddAndMsgs MultiplyToAddAndMsgs(const Shr& a, const Shr& b,
                                   const RandomShare& randomShares) {
-    mRandomShares.emplace_back(randomShares);
-
     // Initialize output
     AddAndMsgs output;
     output.add_share = Field(0);
-- 
2.43.0


From fc0ae80941cb96f5273e03e3aeed09fb893d4b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 09/15] fix: start a new batch after each run of the
 multiplication protocol

---
 src/frn/mult.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/frn/mult.h b/src/frn/mult.h
index 4804c95..26d5229 100644
--- a/src/frn/mult.h
+++ b/src/frn/mult.h
@@ -96,7 +96,12 @@ class Mult {
     mCheckData->counter += mCount;
     SendStep();
     if (mId == 0) ReconstructionStep();
-    return OutputStep();
+    std::vector<Shr> output = OutputStep();
+    // the next multiplications start a new batch
+    mCount = 0;
+    mRandomShares.clear();
+    mSharesToSendP1.clear();
+    return output;
   };
 
   /**
-- 
2.43.0


From 7dd027d3330769e5f8daf1e023ba62f073d47f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 10/15] fix: advance the generators of the mask shares

---
 src/frn/input_corr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/input_corr.h b/src/frn/input_corr.h
index b4dc2bd..19a2854 100644
--- a/src/frn/input_corr.h
+++ b/src/frn/input_corr.h
@@ -46,7 +46,7 @@ class InputSetup {
     Shr GetMaskShare(unsigned id) {
       std::vector<frn::Field> share;
       share.reserve(mShareSize);
-      auto prg_id = mPrgs[id];
+      auto& prg_id = mPrgs[id];
       for (std::size_t i = 0; i < mShareSize; i++)
         share.emplace_back(GetRandomElement(prg_id[i]));
       return share;
-- 
2.43.0


From 16fe5819463f47591c67b6e7b71b33599f2f0b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:54 +0000
Subject: [PATCH 11/15] fix: derive the input masks from the same key pieces as
 the mask shares

---
 src/frn/input_corr.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/input_corr.cc b/src/frn/input_corr.cc
index 7b76af7..cb64fee 100644
--- a/src/frn/input_corr.cc
+++ b/src/frn/input_corr.cc
@@ -25,7 +25,7 @@ frn::InputSetup::Correlator frn::InputSetup::Run() {
   auto copy = mPrg;
   auto size = mNetwork->Size();
   auto shr_k = mReplicator.Share(k, mPrg);
-  auto add_k = frn::lib::secret_sharing::ShareAdditive(k, size, copy);
+  auto add_k = frn::lib::secret_sharing::ShareAdditive(k, mReplicator.AdditiveShareSize(), copy);
 
   for (std::size_t i = 0; i < size; i++) {
     mNetwork->SendShares(i, {shr_k[i]});
-- 
2.43.0


From 5528cb8e0b7b7ee2ff3b392a849658b9fc7ea160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:09 +0000
Subject: [PATCH 12/15] fix: start the recipients of each share piece from the
 empty set

---
 src/frn/shr.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/shr.cc b/src/frn/shr.cc
index 79083d7..3446d0e 100644
--- a/src/frn/shr.cc
+++ b/src/frn/shr.cc
@@ -139,9 +139,9 @@ void frn::ShrManipulator::Init() {
 
   // precompute mTableRec
   // We use the double-replicator since this will be used to reconstruct a degree-2d sharing
-  RecEntry entry;
-
   for (unsigned shr_id = 0; shr_id < mDoubleReplicator.ShareSize(); shr_id++) {
+    RecEntry entry;
+
     // We convert the input index from local to global
     int shr_id_ = mDoubleReplicator.IndexSetFor(mPartyId)[shr_id];
 
-- 
2.43.0


From 6d91a82bef385aac752d15b4173e8f801bbd832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:59 +0000
Subject: [PATCH 13/15] fix: absorb all eight bytes of each hashed word

---
 src/frn/lib/primitives/hash.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frn/lib/primitives/hash.h b/src/frn/lib/primitives/hash.h
index ee449d2..b5df72e 100644
--- a/src/frn/lib/primitives/hash.h
+++ b/src/frn/lib/primitives/hash.h
@@ -186,9 +186,9 @@ Hash<Tag> &Hash<Tag>::Update(const unsigned char *bytes, std::size_t nbytes) {
   for (std::size_t i = 0; i < words; ++i) {
     const uint64_t t =
         (uint64_t)(p[0]) | ((uint64_t)(p[1]) << 8 * 1) |
-        ((uint64_t)(p[1]) << 8 * 2) | ((uint64_t)(p[1]) << 8 * 3) |
-        ((uint64_t)(p[1]) << 8 * 4) | ((uint64_t)(p[1]) << 8 * 5) |
-        ((uint64_t)(p[1]) << 8 * 6) | ((uint64_t)(p[1]) << 8 * 7);
+        ((uint64_t)(p[2]) << 8 * 2) | ((uint64_t)(p[3]) << 8 * 3) |
+        ((uint64_t)(p[4]) << 8 * 4) | ((uint64_t)(p[5]) << 8 * 5) |
+        ((uint64_t)(p[6]) << 8 * 6) | ((uint64_t)(p[7]) << 8 * 7);
 
     mState[mWordIndex] ^= t;
 
-- 
2.43.0


From d794978285e1ee496ec29ffbcc299c2ff181a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 14/15] fix: refuse port 65536, which does not exist

---
 src/frn/lib/net/connector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index 393e45c..3689be7 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -261,7 +261,7 @@ class TCPConnector : public Connector {
  * @brief Returns true if a port is valid.
  */
 constexpr inline bool invalid_port(int port) {
-  return port < 1025 || port > 65536;
+  return port < 1025 || port > 65535;
 }
 
 /**
-- 
2.43.0


From ae8700587fcd62ea94afe570a73c38137f30030c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:01 +0000
Subject: [PATCH 15/15] fix: do not stay connected to oneself when connecting
 to a local port

While nobody listens on a port of this host yet, the system can pick the
same port as the local end of a connection attempt, which then succeeds: the
client was connected to itself, read its own data as the peer's and kept the
server from binding its port.
---
 src/frn/lib/net/connector.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index fa8ac91..7418749 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -94,6 +94,17 @@ static inline int read_hostname(std::shared_ptr<SystemInterface> system,
   return err;
 }
 
+// As long as nobody listens on a port of this host, the system may pick the same
+// port as the local end of an attempt to connect to it, which then succeeds.
+static inline bool connected_to_itself(int sock) {
+  struct sockaddr_in local, remote;
+  socklen_t local_size = sizeof(local), remote_size = sizeof(remote);
+  return ::getsockname(sock, (struct sockaddr*)&local, &local_size) == 0 &&
+         ::getpeername(sock, (struct sockaddr*)&remote, &remote_size) == 0 &&
+         local.sin_port == remote.sin_port &&
+         local.sin_addr.s_addr == remote.sin_addr.s_addr;
+}
+
 frn::lib::net::TCPClientConnector::TCPClientConnector(
     std::shared_ptr<SystemInterface> system, int port, std::string hostname)
     : TCPConnector(system), mPort(port), mHostname(hostname) {
@@ -127,6 +138,15 @@ void frn::lib::net::TCPClientConnector::EstablishConnection() {
   while (true) {
     if (::connect(sock, (struct sockaddr*)&addr, sizeof(addr)) < 0) {
       std::this_thread::sleep_for(CLIENT_CONNECT_SLEEP);
+    } else if (connected_to_itself(sock)) {
+      // give the port back at once, the server needs it.
+      struct linger abort = {1, 0};
+      mSystem->set_socket_options(sock, SOL_SOCKET, SO_LINGER, &abort,
+                                  sizeof(abort));
+      mSystem->close(sock);
+      std::this_thread::sleep_for(CLIENT_CONNECT_SLEEP);
+      sock = mSystem->create_socket(AF_INET, SOCK_STREAM, 0);
+      if (sock < 0) set_error_and_throw("could not acquire socket");
     } else {
       break;
     }
-- 
2.43.0

