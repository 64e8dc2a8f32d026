From 03ad0f9772eade83b75d95c0109f1d1385fcbdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 01/50] fix: request decoder checks the name length against the
 request, not the buffer

A request whose name length did not leave room for the header was read past
the end of its buffer.
---
 Request.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Request.cpp b/Request.cpp
index dcc27ec..302d8d9 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -99,11 +99,12 @@ uint32_t DowowNetwork::Request::Deserialize(char* data, uint32_t data_size) {
     // BO
     des_total_length = le32toh(des_total_length);
     des_id = le32toh(des_id);
-    des_name_length = le32toh(des_name_length);
+    des_name_length = le16toh(des_name_length);
 
     // check if everything is valid
     if (des_total_length > data_size) return 0;
-    if (des_name_length > data_size) return 0;
+    if (des_total_length < 10) return 0;
+    if (des_name_length > des_total_length - 10) return 0;
 
     // delete old datums
     for (auto i : arguments) delete i;
@@ -115,9 +116,9 @@ uint32_t DowowNetwork::Request::Deserialize(char* data, uint32_t data_size) {
 
     // deserialize datums
     uint32_t i = 10 + des_name_length;
-    while (i < data_size) {
+    while (i < des_total_length) {
         Datum* new_datum = new Datum();
-        uint32_t temp_res = new_datum->Deserialize(data + i, data_size - i);
+        uint32_t temp_res = new_datum->Deserialize(data + i, des_total_length - i);
         if (!temp_res) {
             delete new_datum;
             break;
-- 
2.43.0


From 478c490312d862656afbe2a68a1437850ed13cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 02/50] fix: datum decoder makes sure the name and the value
 header fit

A datum that announced a name as long as itself (or a total length below its
own header) made the value be read outside of the buffer.
---
 Datum.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Datum.cpp b/Datum.cpp
index db5abb7..7ee1b9f 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -66,8 +66,9 @@ uint32_t DowowNetwork::Datum::Deserialize(const char* data, uint32_t length) {
     // get the name length
     uint16_t name_length = le16toh(*reinterpret_cast<const uint16_t*>(data + 4));
 
-    // check if name length is greater than total_length
-    if (name_length > total_length) return 0;
+    // check if the name and the value header fit into the datum
+    if (total_length < 11) return 0;
+    if (name_length > total_length - 11) return 0;
 
     // create a Value of valid type with correct Deserialize() override
     Value* new_value = CreateValue(data[6 + name_length]);
-- 
2.43.0


From 52c61ab05cf4724203bfcd6cecac8be307838a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 03/50] fix: value decoder's length check cannot wrap around

---
 Value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Value.cpp b/Value.cpp
index 5e57d5c..c1b811b 100644
--- a/Value.cpp
+++ b/Value.cpp
@@ -24,7 +24,7 @@ uint32_t DowowNetwork::Value::Deserialize(const char* data, uint32_t length) {
         le32toh(*reinterpret_cast<const uint32_t*>(data + 1));
     
     // checking length
-    if (len + 5 > length) return 0;
+    if (len > length - 5) return 0;
 
     // calling the derived deserializer
     return DeserializeInternal(data + 5, len) + 5;
-- 
2.43.0


From 2796ab8c9c38143ee7d53208a67b0968c003d8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 04/50] fix: a string that failed to decode is empty

The rejected length stayed in place without a buffer behind it, and the length
check could wrap around.
---
 values/ValueStr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/values/ValueStr.cpp b/values/ValueStr.cpp
index adb9631..acfd362 100644
--- a/values/ValueStr.cpp
+++ b/values/ValueStr.cpp
@@ -7,8 +7,8 @@ void DowowNetwork::ValueStr::DeleteBuffer() {
     if (str_data) {
         delete[] str_data;
         str_data = 0;
-        str_length = 0;
     }
+    str_length = 0;
 }
 
 DowowNetwork::ValueStr::ValueStr(std::string str) : Value(ValueTypeStr) {
@@ -30,7 +30,7 @@ uint32_t DowowNetwork::ValueStr::DeserializeInternal(const char* data, uint32_t
     str_length = le32toh(*reinterpret_cast<const uint32_t*>(data));
 
     // check if wrong length
-    if (length != str_length + 4) {
+    if (str_length != length - 4) {
         DeleteBuffer();
         return 0;
     }
-- 
2.43.0


From b3709a36aaecb68dbed4c448a67b900fdb13164d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 05/50] fix: array decoder checks the element count and the
 element offsets

The count was trusted before anything was read (allocating gigabytes for a
16 KB request), and an element could be read right behind the buffer.
---
 values/ValueArr.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 4c456b2..467aa42 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -11,9 +11,15 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
     // delete the buffer
     Clear();
 
+    // check length
+    if (length < 4) return 0;
+
     // read the elements amound
     uint32_t elements_amount = le32toh(*reinterpret_cast<const uint32_t*>(data));
 
+    // each element takes at least 5 bytes
+    if (elements_amount > (length - 4) / 5) return 0;
+
     // reserve space
     array.reserve(elements_amount);
 
@@ -22,7 +28,7 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
     // iterate
     for (uint32_t i = 0; i < elements_amount; i++) {
         // out of bounds - invalidate array
-        if (read_offset > length) {
+        if (read_offset >= length) {
             Clear();
             return 0;
         }
-- 
2.43.0


From 4ca0922e68e7b2b755aa510cb8aacd39b96b3026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 06/50] fix: deeply nested arrays from the network cannot
 exhaust the stack

---
 values/ValueArr.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 467aa42..8345de1 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -3,6 +3,9 @@
 #include "CreateValue.hpp"
 #include "ValueArr.hpp"
 
+// the maximum amount of arrays nested in each other in the received data
+#define MAX_NESTING 1000
+
 DowowNetwork::ValueArr::ValueArr() : Value(ValueTypeArr) {
     
 }
@@ -25,6 +28,14 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
 
     uint32_t read_offset = 4;
 
+    // limit the nesting, because each level takes the stack space
+    static thread_local uint32_t depth = 0;
+    struct DepthGuard {
+        DepthGuard() { ++depth; }
+        ~DepthGuard() { --depth; }
+    } depth_guard;
+    if (depth > MAX_NESTING) return 0;
+
     // iterate
     for (uint32_t i = 0; i < elements_amount; i++) {
         // out of bounds - invalidate array
-- 
2.43.0


From 2e609600dd5830ba125c9644cef400a522bdd4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 07/50] fix: copies of undefined values keep the length of the
 original

The copy kept its own (zero) length, so the data of unknown type was lost when
a received request was copied or sent on; a reused target read past the end of
the new data.
---
 values/ValueUndefined.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/values/ValueUndefined.cpp b/values/ValueUndefined.cpp
index e5040b8..9868578 100644
--- a/values/ValueUndefined.cpp
+++ b/values/ValueUndefined.cpp
@@ -12,6 +12,7 @@ uint32_t DowowNetwork::ValueUndefined::DeserializeInternal(const char* data, uin
     if (length == 0) return 0;
 
     // data of unknown type
+    free(undefined_data);
     undefined_data = malloc(length);
     undefined_data_length = length;
 
@@ -22,7 +23,7 @@ uint32_t DowowNetwork::ValueUndefined::DeserializeInternal(const char* data, uin
 
 const char* DowowNetwork::ValueUndefined::SerializeInternal() const{
     char* copy = new char[GetSizeInternal()];
-    memcpy(copy, undefined_data, GetSizeInternal());
+    if (undefined_data_length) memcpy(copy, undefined_data, GetSizeInternal());
     return copy;
 }
 
@@ -36,9 +37,9 @@ std::string DowowNetwork::ValueUndefined::ToStringInternal(uint16_t indent) cons
 
 void DowowNetwork::ValueUndefined::CopyFrom(Value* original) {
     if (undefined_data) free(undefined_data);
-    undefined_data =
-        malloc(static_cast<ValueUndefined*>(original)->undefined_data_length);
-    memcpy(undefined_data, static_cast<ValueUndefined*>(original)->undefined_data, undefined_data_length);
+    undefined_data_length = static_cast<ValueUndefined*>(original)->undefined_data_length;
+    undefined_data = malloc(undefined_data_length);
+    if (undefined_data_length) memcpy(undefined_data, static_cast<ValueUndefined*>(original)->undefined_data, undefined_data_length);
 }
 
 DowowNetwork::ValueUndefined::~ValueUndefined() {
-- 
2.43.0


From afe33b699b4159fd54cf9c12057e7c30d68c74a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 08/50] fix: waits for a descriptor survive signals and long
 timeouts

A signal made the waits return at once (a connect, stop or pull reported a
failure that had not happened), and timeouts from 2147484 seconds on
overflowed into negative numbers, i.e. waited forever.
---
 Utils.cpp | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 76819a1..f087ad1 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -1,5 +1,7 @@
 #include "Utils.hpp"
 
+#include <cerrno>
+#include <climits>
 #include <unistd.h>
 #include <sys/poll.h>
 #include <sys/timerfd.h>
@@ -8,18 +10,40 @@
 // zero timespan
 const timespec zero_time { 0, 0 };
 
-bool DowowNetwork::Utils::SelectWrite(int fd, int seconds) {
-    pollfd pollfds { fd, POLLOUT, 0 };
-    poll(&pollfds, 1, seconds * 1000);
+// Current monotonic time in milliseconds.
+static int64_t NowMs() {
+    timespec ts;
+    clock_gettime(CLOCK_MONOTONIC, &ts);
+    return ts.tv_sec * INT64_C(1000) + ts.tv_nsec / 1000000;
+}
+
+// poll() one descriptor, signals neither shorten nor prolong the waiting.
+static bool PollOne(int fd, short events, int seconds) {
+    pollfd pollfds { fd, events, 0 };
+    int64_t deadline = NowMs() + seconds * INT64_C(1000);
 
-    return pollfds.revents & POLLOUT;
+    while (true) {
+        // time left
+        int64_t left = seconds < 0 ? -1 : deadline - NowMs();
+        if (seconds >= 0 && left < 0) left = 0;
+        // poll() takes int
+        bool is_partial = left > INT_MAX;
+        if (is_partial) left = INT_MAX;
+
+        int res = poll(&pollfds, 1, left);
+        // interrupted or not enough
+        if ((res == -1 && errno == EINTR) || (!res && is_partial))
+            continue;
+        return res > 0 && (pollfds.revents & events);
+    }
 }
 
-bool DowowNetwork::Utils::SelectRead(int fd, int seconds) {
-    pollfd pollfds { fd, POLLIN, 0 };
-    poll(&pollfds, 1, seconds * 1000);
+bool DowowNetwork::Utils::SelectWrite(int fd, int seconds) {
+    return PollOne(fd, POLLOUT, seconds);
+}
 
-    return pollfds.revents & POLLIN;
+bool DowowNetwork::Utils::SelectRead(int fd, int seconds) {
+    return PollOne(fd, POLLIN, seconds);
 }
 
 void DowowNetwork::Utils::WriteEventFd(int fd, uint64_t num) {
-- 
2.43.0


From fcf09ff456304abc262560fff8db8ce100c02df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 09/50] fix: a request length that arrives in pieces is put
 together

Each piece was written over the first one, and the wrong length that resulted
desynchronised the stream or overran the receive buffer.
---
 Connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Connection.cpp b/Connection.cpp
index c8afcdc..403e57f 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -241,7 +241,7 @@ bool DowowNetwork::Connection::Receive() {
         // (effectively interchangable definitions)
         int recv_res = recv(
             socket_fd,
-            &recv_buffer_length,
+            reinterpret_cast<char*>(&recv_buffer_length) + recv_buffer_offset,
             sizeof(recv_buffer_length) - recv_buffer_offset,
             0);
 
-- 
2.43.0


From 1b56f3d32e35a2b37ecd771018f8341da11d1ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 10/50] fix: a request shorter than its header breaks the
 connection

The receive buffer was smaller than the 4 bytes written to it.
---
 Connection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 403e57f..85ad443 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -258,8 +258,10 @@ bool DowowNetwork::Connection::Receive() {
                 // get the buffer length
                 recv_buffer_length = le32toh(recv_buffer_length);
 
-                // check if too big
-                if (recv_buffer_length > recv_buffer_max_length) {
+                // check if too small (even for the request header) or too big
+                if (recv_buffer_length < 10 ||
+                    recv_buffer_length > recv_buffer_max_length)
+                {
                     // the connection is broken
                     return false;
                 }
-- 
2.43.0


From f6a26aad7490c8f08e70795205e0e759829695fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 11/50] fix: the polling thread never blocks in send() or
 recv()

The sockets are blocking and poll() only promises that some bytes fit: when the
other side stopped reading, send() hung with the connection's mutex held, and
with it received data, timers, pushes and (forced) disconnects.
---
 Connection.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 85ad443..08e8a72 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -1,5 +1,6 @@
 #include "Connection.hpp"
 
+#include <cerrno>
 #include <cstring>
 #include <endian.h>
 #include <unistd.h>
@@ -28,6 +29,11 @@ using namespace std;
 
 #define MTLock(name, mut) std::lock_guard<typeof(mut)> name(mut);
 
+// The I/O should be just tried again later?
+static bool IsTransient(int error) {
+    return error == EAGAIN || error == EWOULDBLOCK || error == EINTR;
+}
+
 bool DowowNetwork::Connection::HasSomethingToSend() {
     MTLock(__msq, mutex_sq);
     return
@@ -243,10 +249,13 @@ bool DowowNetwork::Connection::Receive() {
             socket_fd,
             reinterpret_cast<char*>(&recv_buffer_length) + recv_buffer_offset,
             sizeof(recv_buffer_length) - recv_buffer_offset,
-            0);
+            MSG_DONTWAIT);
 
         // check results
-        if (recv_res == -1 || recv_res == 0) {
+        if (recv_res == -1 && IsTransient(errno)) {
+            // nothing to receive right now
+            return true;
+        } else if (recv_res == -1 || recv_res == 0) {
             // the connection is broken
             return false;
         } else {
@@ -291,10 +300,13 @@ bool DowowNetwork::Connection::Receive() {
             socket_fd,
             recv_buffer + recv_buffer_offset,
             bytes_left < recv_block_size ? bytes_left : recv_block_size,
-            0);
+            MSG_DONTWAIT);
 
         // check results
-        if (recv_res == -1 || recv_res == 0) {
+        if (recv_res == -1 && IsTransient(errno)) {
+            // nothing to receive right now
+            return true;
+        } else if (recv_res == -1 || recv_res == 0) {
             // connection is broken
             return false;
         } else {
@@ -360,15 +372,19 @@ bool DowowNetwork::Connection::Send() {
             send_buffer_length - send_buffer_offset;
 
         // write to the socket.
-        // MSG_NOSIGNAL to disable broken pipe signal
+        // MSG_NOSIGNAL to disable broken pipe signal,
+        // MSG_DONTWAIT not to get stuck until the other side reads
         int send_res = send(
             socket_fd,
             send_buffer + send_buffer_offset,
             left_to_send < send_block_size ? left_to_send : send_block_size,
-            MSG_NOSIGNAL);
+            MSG_NOSIGNAL | MSG_DONTWAIT);
 
         // check result
-        if (send_res == -1 || send_res == 0) {
+        if (send_res == -1 && IsTransient(errno)) {
+            // can't send right now
+            return true;
+        } else if (send_res == -1 || send_res == 0) {
             // the connection is broken
             return false;
         } else {
-- 
2.43.0


From d3bf92b1aca17e387f773feedaa6c502ad8568e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 12/50] fix: the polling thread handles interrupted poll() and
 socket errors

After EINTR it acted on uninitialised 'revents'; POLLHUP and POLLERR (which
cannot be masked) made it spin when it was not polling for input.
---
 Connection.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 08e8a72..c4a2d28 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -71,11 +71,14 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         c->mutex_cd.unlock();
 
         // let's poll!
-        poll(
+        int poll_res = poll(
             pollfds,
             sizeof(pollfds) / sizeof(pollfds[0]),
             -1);
 
+        // interrupted by a signal, 'revents' are not set
+        if (poll_res == -1) continue;
+
         // lock connected/disconnecting mutex
         MTLock(__mcd, c->mutex_cd);
 
@@ -91,7 +94,8 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         // *************
         // socket events
         // *************
-        if (pollfds[1].revents & POLLIN) {
+        // errors are noticed when receiving
+        if (pollfds[1].revents & (POLLIN | POLLHUP | POLLERR)) {
             if (!c->Receive()) {
                 // error
                 break;
-- 
2.43.0


From 545e6c6982974159a614d63cb1a878ef1233e563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 13/50] fix: a timer that was restarted since poll() has not
 expired

If the still-alive timer expired together with outgoing data, the thread
blocked in read() on the restarted timer with the mutex held; if the not-alive
timer expired together with incoming data, the connection was closed although
the other side was alive.
---
 Connection.cpp | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index c4a2d28..22e62a1 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -111,24 +111,28 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         // our still-alive event
         // *********************
         if (pollfds[2].revents & POLLIN) {
-            Request *keep_alive = new Request("_");
-            c->Push(keep_alive, false, 0, false);
-
-            // read the value (or else the timer will break)
+            // read the value (or else the timer will break), fails if the
+            // timer has been restarted since poll()
             uint64_t void_buf;
-            read(pollfds[2].fd, &void_buf, sizeof(void_buf));
-
-            // update the timeout
-            Utils::SetTimerFdTimeout(
-                c->our_sa_timer,
-                c->our_sa_interval);
+            if (read(pollfds[2].fd, &void_buf, sizeof(void_buf)) > 0) {
+                Request *keep_alive = new Request("_");
+                c->Push(keep_alive, false, 0, false);
+
+                // update the timeout
+                Utils::SetTimerFdTimeout(
+                    c->our_sa_timer,
+                    c->our_sa_interval);
+            }
         }
         // *********************
         // their not-alive event
         // *********************
         if (pollfds[3].revents & POLLIN) {
-            // close, they're timed out.
-            break;
+            // close, they're timed out (unless the timer
+            // has been restarted since poll()).
+            uint64_t void_buf;
+            if (read(pollfds[3].fd, &void_buf, sizeof(void_buf)) > 0)
+                break;
         }
         // **********
         // push event
@@ -490,8 +494,8 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     to_stop_event = eventfd(0, 0);
 
     // create the timers for keep-alive mechanism
-    our_sa_timer = timerfd_create(CLOCK_MONOTONIC, 0);
-    their_na_timer = timerfd_create(CLOCK_MONOTONIC, 0);
+    our_sa_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
+    their_na_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
 
     // start the timers
     Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
-- 
2.43.0


From d854f121ac4650921506669ca679d668f5011918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 14/50] fix: handlers run without the connection's mutex held

While a handler ran, every push, disconnect or state change from other threads
waited for it, and two handlers that pushed to each other's connections
deadlocked. The mutex now only covers the timers, so that a new interval is not
overwritten by a concurrent restart with the old one.
---
 Connection.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 22e62a1..6dd3f22 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -79,9 +79,6 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         // interrupted by a signal, 'revents' are not set
         if (poll_res == -1) continue;
 
-        // lock connected/disconnecting mutex
-        MTLock(__mcd, c->mutex_cd);
-
         // ***************
         // 'to_stop' event
         // ***************
@@ -119,6 +116,7 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
                 c->Push(keep_alive, false, 0, false);
 
                 // update the timeout
+                MTLock(__mcd, c->mutex_cd);
                 Utils::SetTimerFdTimeout(
                     c->our_sa_timer,
                     c->our_sa_interval);
@@ -356,6 +354,7 @@ bool DowowNetwork::Connection::Receive() {
     }
 
     // update the timeout
+    MTLock(__mcd, mutex_cd);
     Utils::SetTimerFdTimeout(
         their_na_timer,
         their_na_interval);
@@ -418,6 +417,7 @@ bool DowowNetwork::Connection::Send() {
     }
 
     // update the timeout
+    MTLock(__mcd, mutex_cd);
     Utils::SetTimerFdTimeout(
         our_sa_timer,
         our_sa_interval);
@@ -543,6 +543,7 @@ DowowNetwork::Connection::Connection(int socket_fd) : Connection() {
 }
 
 void DowowNetwork::Connection::SetOurSaInterval(time_t interval) {
+    MTLock(__mcd, mutex_cd);
     our_sa_interval = interval < 1 ? 1 : interval;
     Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
 }
@@ -552,6 +553,7 @@ time_t DowowNetwork::Connection::GetOurSaInterval() {
 }
 
 void DowowNetwork::Connection::SetTheirNaIntervalLimit(time_t interval) {
+    MTLock(__mcd, mutex_cd);
     their_na_interval = interval < 1 ? 1 : interval;
     Utils::SetTimerFdTimeout(their_na_timer, their_na_interval);
 }
-- 
2.43.0


From 4634d548b01db4a0ee28a758449f7915d56c72b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 15/50] fix: a push cannot slip behind the end of the
 connection

Between the check and the queueing the connection could end: the request was
leaked or sent in the client's next session, and a closed (or already reused)
descriptor was written to.
---
 Connection.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 6dd3f22..b10b26b 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -563,17 +563,15 @@ time_t DowowNetwork::Connection::GetTheirNaIntervalLimit() {
 }
 
 DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_copy, int timeout, bool change_request_id) {
-    {
-        // lock
-        MTLock(__mcd, mutex_cd);
-
-        // not connected or disconnecting
-        if (!IsConnected() || IsDisconnecting()) {
-            // delete the data if it is not copied
-            if (!must_copy)
-                delete req;
-            return 0;
-        }
+    // lock, so that the connection doesn't end in the meantime
+    MTLock(__mcd, mutex_cd);
+
+    // not connected or disconnecting
+    if (!IsConnected() || IsDisconnecting()) {
+        // delete the data if it is not copied
+        if (!must_copy)
+            delete req;
+        return 0;
     }
 
     // lock the send queue
-- 
2.43.0


From dc8f6b7f47964b1f09265f551ef1524bfa086252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 16/50] fix: a connection ends only after its last handle,
 without blocking its users

The thread waited for the handles with the connection's mutex held, so a thread
that pushed through its handle waited forever; the first released handle made it
stop waiting for the others. The socket is shut down before, so that the other
side does not have to wait for our handles, and stale descriptor numbers are
forgotten.
---
 Connection.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index b10b26b..6a0dae6 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -142,10 +142,13 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     }
 
     // lock the connected/disconnecting mutex
-    MTLock(__mcd, c->mutex_cd);
-
+    c->mutex_cd.lock();
     // mark as disconnecting
     c->is_disconnecting = true;
+    // let the other side know
+    shutdown(c->socket_fd, SHUT_RDWR);
+    // unlock the connected/disconnecting mutex
+    c->mutex_cd.unlock();
 
     // notify the Pull() callers that the receive is finished
     if (c->receive_event != -1) {
@@ -158,26 +161,35 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     // still referenced by external code, setup event
     if (c->GetRefs())
         c->not_needed_event = eventfd(0, 0);
-    // unlock the reference counter
-    c->mutex_ra.unlock();
 
     // needed by someone
     if (c->not_needed_event != -1) {
         // wait until the Connection is not needed anymore
-        Utils::SelectRead(c->not_needed_event, -1);
+        while (c->GetRefs()) {
+            c->mutex_ra.unlock();
+            Utils::ReadEventFd(c->not_needed_event, -1);
+            c->mutex_ra.lock();
+        }
 
         // close the event
         close(c->not_needed_event);
         c->not_needed_event = -1;
     }
 
+    // unlock the reference counter
+    c->mutex_ra.unlock();
+
+    // lock the connected/disconnecting mutex
+    MTLock(__mcd, c->mutex_cd);
+
     // close (almost) everything
-    shutdown(c->socket_fd, SHUT_RDWR);
     close(c->socket_fd);
     close(c->push_event);
     close(c->to_stop_event);
     close(c->our_sa_timer);
     close(c->their_na_timer);
+    c->socket_fd = c->push_event = c->to_stop_event = -1;
+    c->our_sa_timer = c->their_na_timer = -1;
 
     // delete buffers
     c->DeleteSendBuffer();
@@ -545,7 +557,7 @@ DowowNetwork::Connection::Connection(int socket_fd) : Connection() {
 void DowowNetwork::Connection::SetOurSaInterval(time_t interval) {
     MTLock(__mcd, mutex_cd);
     our_sa_interval = interval < 1 ? 1 : interval;
-    Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
+    if (our_sa_timer != -1) Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
 }
 
 time_t DowowNetwork::Connection::GetOurSaInterval() {
@@ -555,7 +567,7 @@ time_t DowowNetwork::Connection::GetOurSaInterval() {
 void DowowNetwork::Connection::SetTheirNaIntervalLimit(time_t interval) {
     MTLock(__mcd, mutex_cd);
     their_na_interval = interval < 1 ? 1 : interval;
-    Utils::SetTimerFdTimeout(their_na_timer, their_na_interval);
+    if (their_na_timer != -1) Utils::SetTimerFdTimeout(their_na_timer, their_na_interval);
 }
 
 time_t DowowNetwork::Connection::GetTheirNaIntervalLimit() {
-- 
2.43.0


From 53de760641522fd42175be41f5f2deac50fb3ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 17/50] fix: blocking pulls take seconds, wake up on the end
 and do not exclude each other

The timeout was passed to poll() as milliseconds, the end of the connection
closed the descriptor under the waiting thread (a pull after the end waited
forever), a second waiting thread got nothing at once, and a thread whose
request was taken by another one returned too early.
---
 Connection.cpp | 68 +++++++++++++-------------------------------------
 Connection.hpp |  5 +++-
 2 files changed, 21 insertions(+), 52 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 6a0dae6..3198162 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -1,6 +1,7 @@
 #include "Connection.hpp"
 
 #include <cerrno>
+#include <chrono>
 #include <cstring>
 #include <endian.h>
 #include <unistd.h>
@@ -151,10 +152,10 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     c->mutex_cd.unlock();
 
     // notify the Pull() callers that the receive is finished
-    if (c->receive_event != -1) {
-        Utils::WriteEventFd(c->receive_event, 1);
-        close(c->receive_event);
-    }
+    c->mutex_rq.lock();
+    c->is_receive_finished = true;
+    c->receive_cond.notify_all();
+    c->mutex_rq.unlock();
 
     // lock the reference counter
     c->mutex_ra.lock();
@@ -350,12 +351,9 @@ bool DowowNetwork::Connection::Receive() {
                         if (!PassThroughHandlers(req)) {
                             mutex_rq.lock();
                             recv_queue.push(req);
-                            mutex_rq.unlock();
-
                             // queue updated, notify outer code
-                            if (receive_event != -1) {
-                                Utils::WriteEventFd(receive_event, 1);
-                            }
+                            receive_cond.notify_one();
+                            mutex_rq.unlock();
                         }
                     }
                 }
@@ -525,6 +523,7 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
         delete recv_queue.front();
         recv_queue.pop();
     }
+    is_receive_finished = false;
     mutex_rq.unlock();
 
     // assign the socket
@@ -632,57 +631,24 @@ DowowNetwork::Request* DowowNetwork::Connection::Pull(int timeout) {
     // may be needed after the disconnection
 
     // lock the receive queue
-    mutex_rq.lock();
+    std::unique_lock<std::recursive_mutex> __mrq(mutex_rq);
+
+    // wait until there is something to return
+    auto is_ready = [this] { return recv_queue.size() || is_receive_finished; };
+    if (timeout > 0)
+        receive_cond.wait_for(__mrq, std::chrono::seconds(timeout), is_ready);
+    else if (timeout < 0)
+        receive_cond.wait(__mrq, is_ready);
 
     // check if has elements
     if (recv_queue.size()) {
         // pop
         Request *req = recv_queue.front();
         recv_queue.pop();
-
-        // unlock
-        mutex_rq.unlock();
         return req;
     }
 
-    // no timeout
-    if (!timeout) {
-        mutex_rq.unlock();
-        return 0;
-    }
-
-    // someone is already waiting for Pull, quit
-    if (receive_event != -1) {
-        mutex_rq.unlock();
-        return 0;
-    }
-
-    // set up receive event
-    receive_event = eventfd(0, 0);
-
-    // set up pollfds
-    pollfd pollfds { receive_event, POLLIN, 0 };
-
-    // unlock
-    mutex_rq.unlock();
-
-    // poll
-    poll(&pollfds, 1, timeout);
-
-    // lock
-    mutex_rq.lock();
-
-    // get the result
-    Request *res = Pull(0);
-
-    // close the eventfd
-    close(receive_event);
-    receive_event = -1;
-
-    // unlock
-    mutex_rq.unlock();
-
-    return res;
+    return 0;
 }
 
 uint32_t DowowNetwork::Connection::GetRefs() {
diff --git a/Connection.hpp b/Connection.hpp
index e1b570f..ad80dc9 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -19,6 +19,7 @@
 #include <ctime>
 #endif
 
+#include <condition_variable>
 #include <mutex>
 #include <thread>
 
@@ -112,7 +113,9 @@ namespace DowowNetwork {
         //! 'stopped' event
         int stopped_event = -1;
         //! receive event
-        int receive_event = -1;
+        std::condition_variable_any receive_cond;
+        //! Nothing else is going to be received?
+        bool is_receive_finished = true;
         //! 'not_needed' event
         int not_needed_event = -1;
         //! our still-alive timer
-- 
2.43.0


From 95c2087943cc57fd555136ce9f1b48ff7a3446ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 18/50] fix: a graceful disconnect with nothing to send ends
 the connection

The dummy request that makes the thread notice was refused, because the
connection was already marked as disconnecting.
---
 Connection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 3198162..277cfa5 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -684,14 +684,14 @@ void DowowNetwork::Connection::Disconnect(bool forced, bool wait_for_join) {
         // forced
         Utils::WriteEventFd(to_stop_event, 1);
     } else if (!is_disconnecting) {
-        // mark for disconnection
-        is_disconnecting = true;
         // graceful
         Request *dummy = new Request("_");
         // push a dummy request so that the
         // thread will call Send() and
         // eventually stop
         Push(dummy, false, 0, false);
+        // mark for disconnection (pushes are refused from now on)
+        is_disconnecting = true;
     }
 
     mutex_cd.unlock();
-- 
2.43.0


From 9238f23ee124b4a56de6d588f5a92f03ec810459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 19/50] fix: a graceful disconnect does not lose what it has
 just flushed

The connection stopped reading when the disconnect was requested and was closed
as soon as the last byte was handed to the kernel. With unread data the close
resets the connection, and the other side loses requests that are still on the
way. Keep receiving, shut down the sending side after the last request and end
when the other side does, or when it is silent for too long.
---
 Connection.cpp | 20 ++++++++++++--------
 Connection.hpp |  2 ++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 277cfa5..cdcd4b3 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -52,12 +52,11 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         pollfds[0].fd = c->to_stop_event;
         pollfds[0].events = POLLIN;
         // add socket fd
-        // remark:  we wait for input only if not disconnecting,
-        //          we wait for output only if we have something
+        // remark:  we wait for output only if we have something
         //          to send.
         pollfds[1].fd = c->socket_fd;
         pollfds[1].events =
-            (!c->is_disconnecting ? POLLIN : 0) |
+            POLLIN |
             (c->HasSomethingToSend() ? POLLOUT : 0);
         // our still-alive timer
         pollfds[2].fd = c->our_sa_timer;
@@ -363,9 +362,10 @@ bool DowowNetwork::Connection::Receive() {
         }
     }
 
-    // update the timeout
+    // update the timeout (not if only waiting for the other side to close
+    // the connection, it must not take forever)
     MTLock(__mcd, mutex_cd);
-    Utils::SetTimerFdTimeout(
+    if (!is_flushed) Utils::SetTimerFdTimeout(
         their_na_timer,
         their_na_interval);
 
@@ -418,9 +418,12 @@ bool DowowNetwork::Connection::Send() {
                 if (is_disconnecting &&
                     !HasSomethingToSend())
                 {
-                    // let the background thread think that
-                    // the connection is dead.
-                    return false;
+                    // tell the other side that it was everything and
+                    // wait for it to close the connection: if we closed
+                    // it with something unread, then they might lose
+                    // the data that is still on its way.
+                    shutdown(socket_fd, SHUT_WR);
+                    is_flushed = true;
                 }
             }
         }
@@ -513,6 +516,7 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
 
     // not disconnecting
     is_disconnecting = false;
+    is_flushed = false;
 
     // reset IDs
     free_request_id = is_even_request_parts ? 2 : 1;
diff --git a/Connection.hpp b/Connection.hpp
index ad80dc9..a3a1d58 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -60,6 +60,8 @@ namespace DowowNetwork {
         bool is_even_request_parts = false;
         //! Is disconnection in progress?
         bool is_disconnecting = false;
+        //! Is everything sent and only the other side is waited for?
+        bool is_flushed = false;
 
         //! The socket file descriptor.
         int socket_fd = -1;
-- 
2.43.0


From fb3e35f885aa613a31cb8e2ca7396b5cc1e50287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 20/50] fix: the two sides of a connection number their
 requests apart

Client and server both used the even half, and the server switched to it only
after its thread had started.
---
 Client.cpp     | 6 ------
 Connection.cpp | 2 +-
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index 0e4fd22..b12e586 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -64,9 +64,6 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
     // unset temp socket fd
     c->temp_socket_fd = -1;
 
-    // setup the request id part
-    c->SetEvenRequestIdsPart(true);
-
     // notify
     Utils::WriteEventFd(c->connect_event, 1);
 }
@@ -103,9 +100,6 @@ void DowowNetwork::Client::UnixThreadFunc(Client *c, std::string socket_path, in
     c->InitializeByFD(c->temp_socket_fd);
     c->temp_socket_fd = -1;
 
-    // request part setup
-    c->SetEvenRequestIdsPart(true);
-
     // notify
     Utils::WriteEventFd(c->connect_event, 1);
 }
diff --git a/Connection.cpp b/Connection.cpp
index cdcd4b3..3e5e882 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -553,8 +553,8 @@ void DowowNetwork::Connection::SetEvenRequestIdsPart(bool state) {
 }
 
 DowowNetwork::Connection::Connection(int socket_fd) : Connection() {
-    InitializeByFD(socket_fd);
     SetEvenRequestIdsPart(true);
+    InitializeByFD(socket_fd);
 }
 
 void DowowNetwork::Connection::SetOurSaInterval(time_t interval) {
-- 
2.43.0


From 8656b531bdb9b832ca78470ea98a61b0befda349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 21/50] fix: a new session waits for the thread of the old one

The detached thread could still be running when the object was destroyed.
---
 Connection.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 3e5e882..2618910 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -472,15 +472,16 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
 
     // check if background thread exists
     if (background_thread) {
-        // just detach it, nothing bad
-        // will happen, because not connected
-        background_thread->detach();
+        // wait until it is finished, nothing
+        // takes long anymore, because not connected
+        background_thread->join();
         // free memory
         delete background_thread;
+        background_thread = 0;
     }
 
     // get the type
-    int socket_domain;
+    int socket_domain = AF_UNSPEC;
     socklen_t len = sizeof(socket_domain);
     getsockopt(
         socket_fd,
-- 
2.43.0


From fbf08a9fc2b8d3c466acb56477eef3bb7841d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 22/50] fix: requests that nobody pulled are freed with the
 connection

---
 Connection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 2618910..dd70781 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -805,6 +805,12 @@ DowowNetwork::Connection::~Connection() {
         delete background_thread;
     }
 
+    // delete the requests that were never pulled
+    while (recv_queue.size()) {
+        delete recv_queue.front();
+        recv_queue.pop();
+    }
+
     // close the stopped eventfd
     close(stopped_event);
 }
-- 
2.43.0


From c0961e55f4185e43c09a950f5ffcc8ac74e8a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 23/50] fix: settings and state of a connection can be read and
 changed from any thread

They were plain variables shared by the polling thread and the API callers.
---
 Connection.cpp |  5 +++--
 Connection.hpp | 17 +++++++++--------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index dd70781..f148869 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -1,5 +1,6 @@
 #include "Connection.hpp"
 
+#include <algorithm>
 #include <cerrno>
 #include <chrono>
 #include <cstring>
@@ -317,7 +318,7 @@ bool DowowNetwork::Connection::Receive() {
         int recv_res = recv(
             socket_fd,
             recv_buffer + recv_buffer_offset,
-            bytes_left < recv_block_size ? bytes_left : recv_block_size,
+            std::min<uint32_t>(bytes_left, recv_block_size),
             MSG_DONTWAIT);
 
         // check results
@@ -394,7 +395,7 @@ bool DowowNetwork::Connection::Send() {
         int send_res = send(
             socket_fd,
             send_buffer + send_buffer_offset,
-            left_to_send < send_block_size ? left_to_send : send_block_size,
+            std::min<uint32_t>(left_to_send, send_block_size),
             MSG_NOSIGNAL | MSG_DONTWAIT);
 
         // check result
diff --git a/Connection.hpp b/Connection.hpp
index a3a1d58..43bfd2a 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -19,6 +19,7 @@
 #include <ctime>
 #endif
 
+#include <atomic>
 #include <condition_variable>
 #include <mutex>
 #include <thread>
@@ -59,7 +60,7 @@ namespace DowowNetwork {
         //! Use even or odd request ids?
         bool is_even_request_parts = false;
         //! Is disconnection in progress?
-        bool is_disconnecting = false;
+        std::atomic<bool> is_disconnecting { false };
         //! Is everything sent and only the other side is waited for?
         bool is_flushed = false;
 
@@ -68,11 +69,11 @@ namespace DowowNetwork {
 
         //! The socket type.
         //! SocketTypeUndefined is interpreted as 'not connected'
-        uint8_t socket_type = SocketTypeUndefined;
+        std::atomic<uint8_t> socket_type { SocketTypeUndefined };
 
         //! The maximum amount of bytes we will attempt to send
         //! at a time.
-        uint32_t send_block_size = 1024;
+        std::atomic<uint32_t> send_block_size { 1024 };
         //! The send buffer.
         const char* send_buffer = 0;
         //! The length of the send buffer.
@@ -84,11 +85,11 @@ namespace DowowNetwork {
 
         //! The maximum amount of bytes we will attempt to receive
         //! at a time.
-        uint32_t recv_block_size = 1024;
+        std::atomic<uint32_t> recv_block_size { 1024 };
         //! The maxiumum allowed size of the receive buffer.
         //! The connection will be closed if they'll try to violate
         //! this limit.
-        uint32_t recv_buffer_max_length = 16 * 1024;
+        std::atomic<uint32_t> recv_buffer_max_length { 16 * 1024 };
         //! The receive buffer.
         char* recv_buffer = 0;
         //! The receive buffer length.
@@ -104,7 +105,7 @@ namespace DowowNetwork {
         void* session_data = 0;
 
         //! The pointer to the default request handler.
-        RequestHandler handler_default = 0;
+        std::atomic<RequestHandler> handler_default { nullptr };
         //! The map of the pointers to the named request handlers.
         std::map<std::string, RequestHandler> handlers_named;
 
@@ -126,9 +127,9 @@ namespace DowowNetwork {
         int their_na_timer = -1;
 
         //! Our keep_alive interval
-        time_t our_sa_interval = 10;
+        std::atomic<time_t> our_sa_interval { 10 };
         //! The amount of time they are considered disconnected after.
-        time_t their_na_interval = 60;
+        std::atomic<time_t> their_na_interval { 60 };
 
         //! Amount of links to this connection outside the library.
         uint32_t refs_amount = 0;
-- 
2.43.0


From bb55520e37316fc7bafa115eeffde920f712e7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 24/50] fix: named handlers can be changed while requests
 arrive

---
 Connection.cpp | 4 ++++
 Connection.hpp | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index f148869..30affc4 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -738,6 +738,8 @@ DowowNetwork::RequestHandler DowowNetwork::Connection::GetHandlerDefault() {
 }
 
 void DowowNetwork::Connection::SetHandlerNamed(std::string name, RequestHandler h) {
+    MTLock(__mhn, mutex_hn);
+
     // must delete and is set
     if (h == 0) {
         auto it = handlers_named.find(name);
@@ -752,6 +754,8 @@ void DowowNetwork::Connection::SetHandlerNamed(std::string name, RequestHandler
 }
 
 DowowNetwork::RequestHandler DowowNetwork::Connection::GetHandlerNamed(std::string name) {
+    MTLock(__mhn, mutex_hn);
+
     auto it = handlers_named.find(name);
     // is not set
     if (it == handlers_named.end()) return 0;
diff --git a/Connection.hpp b/Connection.hpp
index 43bfd2a..a5eb306 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -106,6 +106,8 @@ namespace DowowNetwork {
 
         //! The pointer to the default request handler.
         std::atomic<RequestHandler> handler_default { nullptr };
+        //! mutex for the named request handlers
+        std::mutex mutex_hn;
         //! The map of the pointers to the named request handlers.
         std::map<std::string, RequestHandler> handlers_named;
 
-- 
2.43.0


From 8094cd5f6628b93cd696cf1c866ab224492ec484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 25/50] fix: lookups never return a connection that is about to
 be deleted

They walked the list while the server thread changed it, and could take a handle
after the connection had stopped waiting for handles.
---
 Connection.cpp | 14 ++++++++++++++
 Connection.hpp |  6 ++++++
 Server.cpp     | 20 ++++++++++++++++----
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 30affc4..702464b 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -177,6 +177,8 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         c->not_needed_event = -1;
     }
 
+    // too late for new references
+    c->can_be_referenced = false;
     // unlock the reference counter
     c->mutex_ra.unlock();
 
@@ -532,6 +534,11 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     is_receive_finished = false;
     mutex_rq.unlock();
 
+    // can be referenced
+    mutex_ra.lock();
+    can_be_referenced = true;
+    mutex_ra.unlock();
+
     // assign the socket
     this->socket_fd = socket_fd;
 
@@ -668,6 +675,13 @@ void DowowNetwork::Connection::IncreaseRefs() {
     mutex_ra.unlock();
 }
 
+bool DowowNetwork::Connection::TryIncreaseRefs() {
+    MTLock(__mra, mutex_ra);
+    if (!can_be_referenced) return false;
+    refs_amount++;
+    return true;
+}
+
 void DowowNetwork::Connection::DecreaseRefs() {
     mutex_ra.lock();
     refs_amount--;
diff --git a/Connection.hpp b/Connection.hpp
index a5eb306..b408d32 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -136,6 +136,10 @@ namespace DowowNetwork {
         //! Amount of links to this connection outside the library.
         uint32_t refs_amount = 0;
 
+        //! Can the amount of links be increased?
+        //! (not if the polling thread has finished waiting for them)
+        bool can_be_referenced = true;
+
         //! Background thread.
         std::thread *background_thread = 0;
 
@@ -261,6 +265,8 @@ namespace DowowNetwork {
         uint32_t GetRefs();
         /// MT-Safe
         void IncreaseRefs();
+        /// MT-Safe. Fails if the connection has already ended.
+        bool TryIncreaseRefs();
         /// MT-Safe
         void DecreaseRefs();
 
diff --git a/Server.cpp b/Server.cpp
index a880342..c73382c 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -330,29 +330,41 @@ int32_t DowowNetwork::Server::GetMaxConnections() {
 }
 
 DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(std::string tag) {
+    // lock
+    std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
+
     auto it = std::find_if(
         connections.begin(),
         connections.end(),
         [&](Connection *c) {
-            return c->tag == tag;
+            return c->tag == tag && c->TryIncreaseRefs();
         });
 
     if (it == connections.end()) return 0;
 
-    return new SafeConnection(*it);
+    // the handle has a reference of its own
+    SafeConnection *result = new SafeConnection(*it);
+    (*it)->DecreaseRefs();
+    return result;
 }
 
 DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(uint32_t id) {
+    // lock
+    std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
+
     auto it = std::find_if(
         connections.begin(),
         connections.end(),
         [&](Connection *c) {
-            return c->id == id;
+            return c->id == id && c->TryIncreaseRefs();
         });
 
     if (it == connections.end()) return 0;
 
-    return new SafeConnection(*it);
+    // the handle has a reference of its own
+    SafeConnection *result = new SafeConnection(*it);
+    (*it)->DecreaseRefs();
+    return result;
 }
 
 void DowowNetwork::Server::Stop(int timeout) {
-- 
2.43.0


From ab93011d2f1b0187033ac968c6e381138912df53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 26/50] fix: a server works without callbacks

The callback pointers were uninitialised, and the disconnected one was called
even when it was not set. They, the limit and the type can be used from any
thread now.
---
 Server.cpp | 3 ++-
 Server.hpp | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index c73382c..4349327 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -95,7 +95,8 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         for (auto c : s->connections) {
             if (pollfds[2 + i++].revents & POLLIN) {
                 // call 'disconnected' handler
-                (*s->GetDisconnectedHandler())(s, c);
+                if (s->GetDisconnectedHandler())
+                    (*s->GetDisconnectedHandler())(s, c);
                 // delete the connection
                 delete c;
                 deleted_conns.push_back(c);
diff --git a/Server.hpp b/Server.hpp
index f90bf6c..c86b5e5 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -7,6 +7,7 @@
 #ifndef __DOWOW_NETWORK__SERVER_H_
 #define __DOWOW_NETWORK__SERVER_H_
 
+#include <atomic>
 #include <string>
 #include <list>
 
@@ -31,10 +32,10 @@ namespace DowowNetwork {
         // accepted clients
         std::list<Connection*> connections;
         // maximum amount of connected clients, negative for unlimited
-        int32_t max_connections = -1;
+        std::atomic<int32_t> max_connections { -1 };
 
         // socket type (undefined if server is not running)
-        uint8_t socket_type = SocketTypeUndefined; 
+        std::atomic<uint8_t> socket_type { SocketTypeUndefined };
 
         // unix socket path
         std::string unix_socket_path;
@@ -57,10 +58,10 @@ namespace DowowNetwork {
         //! Handler for new connections.
         //! Called right after the polling thread for
         //! connection is started.
-        ConnectionHandler connected_handler;
+        std::atomic<ConnectionHandler> connected_handler { nullptr };
         //! Handler for disconnection.
         //! Called
-        ConnectionHandler disconnected_handler;
+        std::atomic<ConnectionHandler> disconnected_handler { nullptr };
 
         /// Accept one client.
         Connection* AcceptOne();
-- 
2.43.0


From ccf81bf9e537475f8597a0f0748981c085d26b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 27/50] fix: a signal does not stop the server

poll() interrupted by a signal (or woken up for nothing) ended the server
thread, or made it act on uninitialised 'revents'.
---
 Server.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 4349327..858a320 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -69,11 +69,17 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         }
 
         // poll events
-        poll(
+        int poll_res = poll(
             pollfds,
             2 + s->connections.size(),
             -1);
 
+        // interrupted by a signal, 'revents' are not set
+        if (poll_res == -1) {
+            delete[] pollfds;
+            continue;
+        }
+
         // lock
         std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
 
@@ -121,14 +127,6 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
             }
         }
 
-        // *************************************
-        // no new connections, no deleted - quit
-        // *************************************
-        else if (!deleted_conns.size()) {
-            delete[] pollfds;
-            break;
-        }
-
         // free memory
         delete[] pollfds;
         continue;
-- 
2.43.0


From 22ef1eadcf503ef5048f89b556ca4ad17ca840d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 28/50] fix: a failing accept neither blocks nor spins the
 server thread

A client that gave up between poll() and accept4() blocked the thread, and when
no descriptors were left it spun at full speed.
---
 Server.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 858a320..2a29675 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -20,6 +20,9 @@
 #include "Utils.hpp"
 #include "Server.hpp"
 
+// milliseconds to wait after a failed accept
+#define ACCEPT_RETRY_INTERVAL 100
+
 DowowNetwork::Connection* DowowNetwork::Server::AcceptOne() {
     // accept
     int temp_fd = accept4(socket_fd, 0, 0, 0);
@@ -41,6 +44,8 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne() {
 void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     // free id for a new connection
     uint32_t free_conn_id = 1;
+    // accepting has failed and should be tried again later?
+    bool accept_failed = false;
 
     // infinite loop
     while (true) {
@@ -51,6 +56,8 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
                 static_cast<int32_t>(s->connections.size()) <
                 s->max_connections;
         }
+        // the client is still waiting, so poll() would return at once
+        if (accept_failed) accept_new = false;
 
         pollfd *pollfds = new pollfd[2 + s->connections.size()];
         // server socket
@@ -72,7 +79,8 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         int poll_res = poll(
             pollfds,
             2 + s->connections.size(),
-            -1);
+            accept_failed ? ACCEPT_RETRY_INTERVAL : -1);
+        accept_failed = false;
 
         // interrupted by a signal, 'revents' are not set
         if (poll_res == -1) {
@@ -124,6 +132,8 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
                 new_conn->id = free_conn_id++;
                 // add to the list of connections
                 s->connections.push_back(new_conn);
+            } else {
+                accept_failed = true;
             }
         }
 
@@ -178,7 +188,7 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
         return false;
 
     // try to create a socket
-    socket_fd = socket(AF_UNIX, SOCK_STREAM, 0);
+    socket_fd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
     // check if failed
     if (socket_fd == -1) return false;
 
@@ -244,7 +254,7 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
         return false;
 
     // try to create a socket
-    socket_fd = socket(AF_INET, SOCK_STREAM, 0);
+    socket_fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
     // check if failed
     if (socket_fd == -1)
         return false;
-- 
2.43.0


From 7644fd0e73500c826892c546145165ecf6b8fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 29/50] fix: running out of descriptors fails a connect, accept
 or start cleanly

Connections without their events could neither be woken up nor stopped, so that
deleting them (or connecting, or stopping the server) hung forever.
---
 Client.cpp     | 12 ++++++++++++
 Connection.cpp | 20 ++++++++++++++++----
 Connection.hpp |  3 +++
 Server.cpp     | 31 ++++++++++++++++++++++++-------
 4 files changed, 55 insertions(+), 11 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index b12e586..b45dad9 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -128,6 +128,12 @@ bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout
 
     // create event
     connect_event = eventfd(0, 0);
+    if (connect_event == -1) {
+        // out of descriptors
+        close(temp_socket_fd);
+        temp_socket_fd = -1;
+        return false;
+    }
 
     std::thread t(TcpThreadFunc, this, ip, port, timeout);
     t.detach();
@@ -162,6 +168,12 @@ bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
 
     // create event
     connect_event = eventfd(0, 0);
+    if (connect_event == -1) {
+        // out of descriptors
+        close(temp_socket_fd);
+        temp_socket_fd = -1;
+        return false;
+    }
 
     // create a thread for connection
     std::thread t(UnixThreadFunc, this, socket_path, timeout);
diff --git a/Connection.cpp b/Connection.cpp
index 702464b..edd3741 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -503,9 +503,6 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
             return;
     }
 
-    // reset the stopped event
-    Utils::ReadEventFd(stopped_event, 0);
-
     // initialize the events
     push_event = eventfd(0, 0);
     to_stop_event = eventfd(0, 0);
@@ -514,6 +511,21 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     our_sa_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
     their_na_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
 
+    // out of descriptors?
+    if (stopped_event == -1 || push_event == -1 || to_stop_event == -1 ||
+        our_sa_timer == -1 || their_na_timer == -1)
+    {
+        // not connected
+        for (int fd : { socket_fd, push_event, to_stop_event, our_sa_timer, their_na_timer })
+            if (fd != -1) close(fd);
+        push_event = to_stop_event = our_sa_timer = their_na_timer = -1;
+        socket_type = SocketTypeUndefined;
+        return;
+    }
+
+    // reset the stopped event
+    Utils::ReadEventFd(stopped_event, 0);
+
     // start the timers
     Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
     Utils::SetTimerFdTimeout(their_na_timer, their_na_interval);
@@ -831,5 +843,5 @@ DowowNetwork::Connection::~Connection() {
     }
 
     // close the stopped eventfd
-    close(stopped_event);
+    if (stopped_event != -1) close(stopped_event);
 }
diff --git a/Connection.hpp b/Connection.hpp
index b408d32..5ef29c9 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -143,6 +143,9 @@ namespace DowowNetwork {
         //! Background thread.
         std::thread *background_thread = 0;
 
+        // the server accepts connections
+        friend class Server;
+
         //! Polling thread function.
         /*!
          * This function is running in background and
diff --git a/Server.cpp b/Server.cpp
index 2a29675..07f0934 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -31,6 +31,11 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne() {
 
     // create a connection
     Connection *conn = new Connection(temp_fd);
+    // out of descriptors
+    if (!conn->background_thread) {
+        delete conn;
+        return 0;
+    }
 
     // call the handler if set
     if (GetConnectedHandler()) {
@@ -228,13 +233,19 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
         return false;
     }
 
+    // create eventfd
+    to_stop_event = eventfd(0, 0);
+    if (to_stop_event == -1 || stopped_event == -1) {
+        // out of descriptors
+        if (to_stop_event != -1) close(to_stop_event);
+        close(socket_fd);
+        return false;
+    }
+
     // success
     socket_type = SocketTypeUnix;
     unix_socket_path = path;
 
-    // create eventfd
-    to_stop_event = eventfd(0, 0);
-
     // start the thread
     std::thread t(ServerThreadFunc, this);
     t.detach();
@@ -297,14 +308,20 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
         return false;
     }
 
+    // create eventfd
+    to_stop_event = eventfd(0, 0);
+    if (to_stop_event == -1 || stopped_event == -1) {
+        // out of descriptors
+        if (to_stop_event != -1) close(to_stop_event);
+        close(socket_fd);
+        return false;
+    }
+
     // success
     socket_type = SocketTypeTcp;
     tcp_socket_address = be32toh(addr.sin_addr.s_addr);
     tcp_socket_port = port;
 
-    // create eventfd
-    to_stop_event = eventfd(0, 0);
-
     // start the thread
     std::thread t(ServerThreadFunc, this);
     t.detach();
@@ -399,5 +416,5 @@ DowowNetwork::Server::~Server() {
     Stop(-1);
 
     // close the stopped eventfd
-    close(stopped_event);
+    if (stopped_event != -1) close(stopped_event);
 }
-- 
2.43.0


From 9fe40fbf77330c364b208d1d341207aefa3dbbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 30/50] fix: the connected callback sees the id of its
 connection

---
 Server.cpp | 11 +++++++----
 Server.hpp |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 07f0934..619cb7c 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -23,7 +23,7 @@
 // milliseconds to wait after a failed accept
 #define ACCEPT_RETRY_INTERVAL 100
 
-DowowNetwork::Connection* DowowNetwork::Server::AcceptOne() {
+DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t conn_id) {
     // accept
     int temp_fd = accept4(socket_fd, 0, 0, 0);
     // failed
@@ -37,6 +37,9 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne() {
         return 0;
     }
 
+    // assign the id
+    conn->id = conn_id;
+
     // call the handler if set
     if (GetConnectedHandler()) {
         (*GetConnectedHandler())(this, conn);
@@ -130,11 +133,11 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         // ***********************
         if (pollfds[0].revents & POLLIN) {
             // accept
-            Connection *new_conn = s->AcceptOne();
+            Connection *new_conn = s->AcceptOne(free_conn_id);
             // not an error
             if (new_conn) {
-                // assign the id
-                new_conn->id = free_conn_id++;
+                // the id is used
+                free_conn_id++;
                 // add to the list of connections
                 s->connections.push_back(new_conn);
             } else {
diff --git a/Server.hpp b/Server.hpp
index c86b5e5..8ed95fd 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -64,7 +64,7 @@ namespace DowowNetwork {
         std::atomic<ConnectionHandler> disconnected_handler { nullptr };
 
         /// Accept one client.
-        Connection* AcceptOne();
+        Connection* AcceptOne(uint32_t conn_id);
 
         static void ServerThreadFunc(Server *server);
     public:
-- 
2.43.0


From 5a0f95cddbb8ed92a00183c655aef04c5a73d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 31/50] fix: handlers set in the connected callback get every
 request

The polling thread starts before the callback, so the first requests of a fast
client missed the handlers. They are held until the callback has returned.
---
 Connection.cpp | 69 ++++++++++++++++++++++++++++++++++++++++++++++++--
 Connection.hpp | 15 +++++++++++
 Server.cpp     |  5 +++-
 3 files changed, 86 insertions(+), 3 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index edd3741..3c12939 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -44,6 +44,9 @@ bool DowowNetwork::Connection::HasSomethingToSend() {
 }
 
 void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
+    // forced disconnection requested?
+    bool to_stop = false;
+
     while (true) {
         // lock connected/disconnecting mutex
         c->mutex_cd.lock();
@@ -86,6 +89,7 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         if (pollfds[0].revents & POLLIN) {
             uint64_t void_val;
             read(pollfds[0].fd, &void_val, sizeof(void_val));
+            to_stop = true;
             break;
         }
 
@@ -139,7 +143,28 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         if (pollfds[4].revents & POLLIN) {
             uint64_t void_val;
             read(pollfds[4].fd, &void_val, sizeof(void_val));
+            // maybe the handlers are set up now
+            if (c->is_dispatching) c->DispatchHeldRequests();
+        }
+    }
+
+    // ended by the other side before the handlers are set up:
+    // the requests are still to be handled
+    while (!to_stop && c->has_held_requests) {
+        if (c->is_dispatching) {
+            c->DispatchHeldRequests();
+            break;
         }
+        // they don't care
+        if (c->is_disconnecting) break;
+        // wait for StartDispatching() or Disconnect()
+        pollfd pollfds[2] = {
+            { c->to_stop_event, POLLIN, 0 },
+            { c->push_event, POLLIN, 0 }
+        };
+        if (poll(pollfds, 2, -1) == -1) continue;
+        to_stop = pollfds[0].revents & POLLIN;
+        if (pollfds[1].revents & POLLIN) Utils::ReadEventFd(c->push_event, 0);
     }
 
     // lock the connected/disconnecting mutex
@@ -214,6 +239,33 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     Utils::WriteEventFd(c->stopped_event, 1);
 }
 
+void DowowNetwork::Connection::DispatchHeldRequests() {
+    if (!has_held_requests) return;
+    has_held_requests = false;
+
+    // take the held requests
+    std::queue<Request*> held;
+    mutex_rq.lock();
+    held.swap(recv_queue);
+    mutex_rq.unlock();
+
+    // put back those that are not for the handlers
+    for (; held.size(); held.pop()) {
+        if (PassThroughHandlers(held.front())) continue;
+        mutex_rq.lock();
+        recv_queue.push(held.front());
+        receive_cond.notify_one();
+        mutex_rq.unlock();
+    }
+}
+
+void DowowNetwork::Connection::StartDispatching() {
+    MTLock(__mcd, mutex_cd);
+    is_dispatching = true;
+    // let the background thread notice
+    if (push_event != -1) Utils::WriteEventFd(push_event, 1);
+}
+
 bool DowowNetwork::Connection::PassThroughHandlers(Request* r) {
     // no request
     if (!r) return false;
@@ -349,8 +401,16 @@ bool DowowNetwork::Connection::Receive() {
                         // just delete it
                         delete req;
                     } else {
+                        // handlers are not set up yet
+                        bool to_hold = !is_dispatching;
+                        // the held requests go first
+                        if (to_hold)
+                            has_held_requests = true;
+                        else
+                            DispatchHeldRequests();
+
                         // try to process using handlers
-                        if (!PassThroughHandlers(req)) {
+                        if (to_hold || !PassThroughHandlers(req)) {
                             mutex_rq.lock();
                             recv_queue.push(req);
                             // queue updated, notify outer code
@@ -573,7 +633,12 @@ void DowowNetwork::Connection::SetEvenRequestIdsPart(bool state) {
     }
 }
 
-DowowNetwork::Connection::Connection(int socket_fd) : Connection() {
+DowowNetwork::Connection::Connection(int socket_fd) : Connection(socket_fd, true) {
+
+}
+
+DowowNetwork::Connection::Connection(int socket_fd, bool is_dispatching) : Connection() {
+    this->is_dispatching = is_dispatching;
     SetEvenRequestIdsPart(true);
     InitializeByFD(socket_fd);
 }
diff --git a/Connection.hpp b/Connection.hpp
index 5ef29c9..238b9f8 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -163,6 +163,21 @@ namespace DowowNetwork {
                 Was the Request processed by some handler?
         */
         bool PassThroughHandlers(Request* req);
+
+        //! Are the received Requests passed to the handlers?
+        //! (if not, they are held in the receive queue)
+        std::atomic<bool> is_dispatching { true };
+        //! Are there held Requests in the receive queue?
+        bool has_held_requests = false;
+
+        //! Pass the held Requests through assigned handlers.
+        void DispatchHeldRequests();
+        //! Start passing the Requests to the handlers.
+        void StartDispatching();
+
+        //! Constructor for accepted connections.
+        //! Handlers aren't called before StartDispatching().
+        Connection(int socket_fd, bool is_dispatching);
     protected:
         /// This constructor does nothing.
         /*!
diff --git a/Server.cpp b/Server.cpp
index 619cb7c..e838276 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -30,7 +30,7 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t conn_id) {
     if (temp_fd == -1) return 0;
 
     // create a connection
-    Connection *conn = new Connection(temp_fd);
+    Connection *conn = new Connection(temp_fd, false);
     // out of descriptors
     if (!conn->background_thread) {
         delete conn;
@@ -45,6 +45,9 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t conn_id) {
         (*GetConnectedHandler())(this, conn);
     }
 
+    // the handlers are set up
+    conn->StartDispatching();
+
     // success
     return conn;
 }
-- 
2.43.0


From 9c8d681cd0cd577706a458dacd01f4ee33c782b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 32/50] fix: a stopping server does not wait for its
 connections with the lock held

A handler that looked a connection up or called Stop() meanwhile waited for the
lock, while the server waited for the handler.
---
 Server.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index e838276..b8a8abd 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -153,26 +153,31 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         continue;
     }
 
-    // lock
-    std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
+    // take the open connections, but do not hold the lock
+    // when waiting, because the handlers might need it
+    std::list<Connection*> open_conns;
+    {
+        std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
+        open_conns.swap(s->connections);
+    }
 
     // force open connections to close
     // make all the open connections close
-    for (auto c : s->connections) {
+    for (auto c : open_conns)
         c->Disconnect(true);
+    for (auto c : open_conns) {
         c->WaitForStop(-1);
         delete c;
     }
-    s->connections.clear();
+
+    // lock
+    std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
 
     // close the server socket
     close(s->socket_fd);
     // close to_stop fd
     close(s->to_stop_event);
     
-    // clear
-    s->connections.clear();
-
     // notify about stop
     Utils::WriteEventFd(s->stopped_event, 1);
 
-- 
2.43.0


From 66d0a8c4582e7f3c3d17f498cae88038b4d46348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 33/50] fix: stopping a server is complete, and works for the
 next run too

The stopped event was signalled before the socket file was removed and the
server could be started again, while the detached thread still used the object;
and it stayed signalled, so the stop of a restarted server was not waited for.
---
 Server.cpp | 41 +++++++++++++++++++++++++++++------------
 Server.hpp |  4 ++++
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index b8a8abd..d3c52cd 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -171,16 +171,13 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     }
 
     // lock
-    std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
+    s->mutex_server.lock();
 
     // close the server socket
     close(s->socket_fd);
     // close to_stop fd
     close(s->to_stop_event);
     
-    // notify about stop
-    Utils::WriteEventFd(s->stopped_event, 1);
-
     // UNIX socket - delete it
     if (s->GetType() == SocketTypeUnix)
         unlink(s->unix_socket_path.c_str());
@@ -189,6 +186,12 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     s->socket_fd = -1;
     s->to_stop_event = -1;
     s->socket_type = SocketTypeUndefined;
+
+    // unlock
+    s->mutex_server.unlock();
+
+    // notify about stop
+    Utils::WriteEventFd(s->stopped_event, 1);
 }
 
 DowowNetwork::Server::Server() {
@@ -203,6 +206,10 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     if (GetType() != SocketTypeUndefined)
         return false;
 
+    // the previous run is over
+    if (server_thread.joinable()) server_thread.join();
+    Utils::ReadEventFd(stopped_event, 0);
+
     // try to create a socket
     socket_fd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
     // check if failed
@@ -258,8 +265,7 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     unix_socket_path = path;
 
     // start the thread
-    std::thread t(ServerThreadFunc, this);
-    t.detach();
+    server_thread = std::thread(ServerThreadFunc, this);
 
     return true;
 }
@@ -275,6 +281,10 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
     if (GetType() != SocketTypeUndefined)
         return false;
 
+    // the previous run is over
+    if (server_thread.joinable()) server_thread.join();
+    Utils::ReadEventFd(stopped_event, 0);
+
     // try to create a socket
     socket_fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
     // check if failed
@@ -334,8 +344,7 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
     tcp_socket_port = port;
 
     // start the thread
-    std::thread t(ServerThreadFunc, this);
-    t.detach();
+    server_thread = std::thread(ServerThreadFunc, this);
 
     return true;
 }
@@ -405,11 +414,16 @@ DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(uint32_t id) {
 }
 
 void DowowNetwork::Server::Stop(int timeout) {
-    // check if server is not started
-    if (GetType() == SocketTypeUndefined) return;
+    {
+        // lock, so that the event isn't closed in the meantime
+        std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
 
-    // make the thread stop
-    Utils::WriteEventFd(to_stop_event, 1);
+        // check if server is not started
+        if (GetType() == SocketTypeUndefined) return;
+
+        // make the thread stop
+        Utils::WriteEventFd(to_stop_event, 1);
+    }
 
     WaitForStop(timeout);
 }
@@ -426,6 +440,9 @@ DowowNetwork::Server::~Server() {
     // stop
     Stop(-1);
 
+    // wait until the server thread is finished
+    if (server_thread.joinable()) server_thread.join();
+
     // close the stopped eventfd
     if (stopped_event != -1) close(stopped_event);
 }
diff --git a/Server.hpp b/Server.hpp
index 8ed95fd..511ebbb 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -13,6 +13,7 @@
 
 #include <sys/eventfd.h>
 #include <mutex>
+#include <thread>
 
 #include "Connection.hpp"
 #include "SafeConnection.hpp"
@@ -52,6 +53,9 @@ namespace DowowNetwork {
         //! Occurs when the server shutdown is requested.
         int to_stop_event = -1;
 
+        //! Server thread.
+        std::thread server_thread;
+
         // mutex for any operations
         std::recursive_mutex mutex_server;
 
-- 
2.43.0


From 4b5a4ff5e2044766b47b6c9fc0094eb2561c7efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 34/50] fix: UNIX socket paths that are too long are refused

They were copied past the end of the address.
---
 Client.cpp | 4 ++++
 Server.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Client.cpp b/Client.cpp
index b45dad9..3ab977b 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -154,6 +154,10 @@ bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
     if (IsConnected() || IsConnecting())
         return false;
 
+    // the path is too long
+    if (socket_path.size() >= sizeof(sockaddr_un::sun_path))
+        return false;
+
     // temp socket fd
     temp_socket_fd =
         socket(AF_UNIX, SOCK_STREAM, 0);
diff --git a/Server.cpp b/Server.cpp
index d3c52cd..1b15744 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -210,6 +210,10 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     if (server_thread.joinable()) server_thread.join();
     Utils::ReadEventFd(stopped_event, 0);
 
+    // the path is too long
+    if (path.size() >= sizeof(sockaddr_un::sun_path))
+        return false;
+
     // try to create a socket
     socket_fd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
     // check if failed
-- 
2.43.0


From ff16b6eade84d3ac813f0727bdae2220e093ca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 35/50] fix: connecting honours its timeout and reports the
 truth

F_SETFL was given 1 instead of O_NONBLOCK, so the connect blocked for minutes
whatever the timeout was; waiting for input instead of output, without looking
at the result, would have failed on good connections and succeeded on bad ones.
IsConnecting() can be called from any thread.
---
 Client.cpp | 30 ++++++++++++++++++++++++++----
 Client.hpp |  3 ++-
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index 3ab977b..cca976d 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -11,6 +11,7 @@
 #include <sys/poll.h>
 #include <time.h>
 #include <fcntl.h>
+#include <chrono>
 #include <thread>
 #include <errno.h>
 
@@ -19,6 +20,18 @@ using namespace std;
 
 #include "Utils.hpp"
 
+// Wait until the connection in progress is established.
+static bool WaitForConnect(int fd, int timeout) {
+    // timed out
+    if (!DowowNetwork::Utils::SelectWrite(fd, timeout))
+        return false;
+
+    // get the result
+    int error = 0;
+    socklen_t len = sizeof(error);
+    return !getsockopt(fd, SOL_SOCKET, SO_ERROR, &error, &len) && !error;
+}
+
 void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t port, int timeout) {
     // connection in progress
     std::lock_guard<std::mutex> __tsfdm(c->mutex_tsfd);
@@ -46,7 +59,7 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
     // in progress
     if (connect_res == -1 && errno == EINPROGRESS) {
         // wait for result
-        connect_res = !Utils::SelectRead(c->temp_socket_fd, timeout);
+        connect_res = !WaitForConnect(c->temp_socket_fd, timeout);
     }
 
     // fail
@@ -80,10 +93,19 @@ void DowowNetwork::Client::UnixThreadFunc(Client *c, std::string socket_path, in
     // connect
     int connect_res = connect(c->temp_socket_fd, (sockaddr*)&addr, sizeof(addr));
 
+    // the server has too many clients waiting
+    auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(timeout);
+    while (connect_res == -1 && errno == EAGAIN) {
+        if (timeout >= 0 && std::chrono::steady_clock::now() >= deadline) break;
+        // try again later
+        poll(0, 0, 10);
+        connect_res = connect(c->temp_socket_fd, (sockaddr*)&addr, sizeof(addr));
+    }
+
     // in progress
     if (connect_res == -1 && errno == EINPROGRESS) {
         // wait for result
-        connect_res = !Utils::SelectRead(c->temp_socket_fd, timeout);
+        connect_res = !WaitForConnect(c->temp_socket_fd, timeout);
     }
 
     // fail
@@ -123,7 +145,7 @@ bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout
         return false;
 
     // make socket nonblocking
-    int nb_state = 1;
+    int nb_state = O_NONBLOCK;
     fcntl(temp_socket_fd, F_SETFL, nb_state);
 
     // create event
@@ -167,7 +189,7 @@ bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
         return false;
 
     // make socket nonblocking
-    int nb_state = 1;
+    int nb_state = O_NONBLOCK;
     fcntl(temp_socket_fd, F_SETFL, nb_state);
 
     // create event
diff --git a/Client.hpp b/Client.hpp
index 1a9a3cd..7d33519 100644
--- a/Client.hpp
+++ b/Client.hpp
@@ -10,6 +10,7 @@
 #include "Connection.hpp"
 #include "SocketType.hpp"
 
+#include <atomic>
 #include <mutex>
 
 namespace DowowNetwork {
@@ -24,7 +25,7 @@ namespace DowowNetwork {
         std::mutex mutex_tsfd;
 
         // file descriptor for a socket trying to connect to the server
-        int temp_socket_fd = -1;
+        std::atomic<int> temp_socket_fd { -1 };
 
         // connecting thread event
         int connect_event = -1;
-- 
2.43.0


From 37455f96a54ec7e069b76cc79d15b3d670540910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 36/50] fix: requests held for the handlers are not handed to
 Pull()

Between the end of the connected callback and the first dispatch a
pulling thread could take a request that has a handler.
---
 Connection.cpp | 22 +++++++++++++++-------
 Connection.hpp |  4 +++-
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 3c12939..25c5f29 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -179,6 +179,7 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     // notify the Pull() callers that the receive is finished
     c->mutex_rq.lock();
     c->is_receive_finished = true;
+    c->has_held_requests = false;
     c->receive_cond.notify_all();
     c->mutex_rq.unlock();
 
@@ -241,11 +242,11 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
 
 void DowowNetwork::Connection::DispatchHeldRequests() {
     if (!has_held_requests) return;
-    has_held_requests = false;
 
     // take the held requests
     std::queue<Request*> held;
     mutex_rq.lock();
+    has_held_requests = false;
     held.swap(recv_queue);
     mutex_rq.unlock();
 
@@ -266,6 +267,10 @@ void DowowNetwork::Connection::StartDispatching() {
     if (push_event != -1) Utils::WriteEventFd(push_event, 1);
 }
 
+bool DowowNetwork::Connection::HasHandlerFor(Request* r) {
+    return GetHandlerNamed(r->GetName()) || GetHandlerDefault();
+}
+
 bool DowowNetwork::Connection::PassThroughHandlers(Request* r) {
     // no request
     if (!r) return false;
@@ -404,15 +409,13 @@ bool DowowNetwork::Connection::Receive() {
                         // handlers are not set up yet
                         bool to_hold = !is_dispatching;
                         // the held requests go first
-                        if (to_hold)
-                            has_held_requests = true;
-                        else
-                            DispatchHeldRequests();
+                        if (!to_hold) DispatchHeldRequests();
 
                         // try to process using handlers
                         if (to_hold || !PassThroughHandlers(req)) {
                             mutex_rq.lock();
                             recv_queue.push(req);
+                            if (to_hold) has_held_requests = true;
                             // queue updated, notify outer code
                             receive_cond.notify_one();
                             mutex_rq.unlock();
@@ -724,14 +727,19 @@ DowowNetwork::Request* DowowNetwork::Connection::Pull(int timeout) {
     std::unique_lock<std::recursive_mutex> __mrq(mutex_rq);
 
     // wait until there is something to return
-    auto is_ready = [this] { return recv_queue.size() || is_receive_finished; };
+    // (a held request that is for a handler is not to be returned)
+    auto has_request = [this] {
+        return recv_queue.size() &&
+            !(has_held_requests && HasHandlerFor(recv_queue.front()));
+    };
+    auto is_ready = [&] { return has_request() || is_receive_finished; };
     if (timeout > 0)
         receive_cond.wait_for(__mrq, std::chrono::seconds(timeout), is_ready);
     else if (timeout < 0)
         receive_cond.wait(__mrq, is_ready);
 
     // check if has elements
-    if (recv_queue.size()) {
+    if (has_request()) {
         // pop
         Request *req = recv_queue.front();
         recv_queue.pop();
diff --git a/Connection.hpp b/Connection.hpp
index 238b9f8..df11d26 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -163,11 +163,13 @@ namespace DowowNetwork {
                 Was the Request processed by some handler?
         */
         bool PassThroughHandlers(Request* req);
+        //! Is there a handler for the Request?
+        bool HasHandlerFor(Request* req);
 
         //! Are the received Requests passed to the handlers?
         //! (if not, they are held in the receive queue)
         std::atomic<bool> is_dispatching { true };
-        //! Are there held Requests in the receive queue?
+        //! Are there held Requests in the receive queue? (mutex_rq)
         bool has_held_requests = false;
 
         //! Pass the held Requests through assigned handlers.
-- 
2.43.0


From f600e5ce6e44bfc5792c616fdd73949b3e72bf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 37/50] fix: a stop ends the dispatching of held requests

---
 Connection.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 25c5f29..f65683d 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -252,9 +252,12 @@ void DowowNetwork::Connection::DispatchHeldRequests() {
 
     // put back those that are not for the handlers
     for (; held.size(); held.pop()) {
-        if (PassThroughHandlers(held.front())) continue;
+        // the rest stays unhandled if asked to stop meanwhile
+        bool to_stop = Utils::SelectRead(to_stop_event, 0);
+        if (!to_stop && PassThroughHandlers(held.front())) continue;
         mutex_rq.lock();
         recv_queue.push(held.front());
+        if (to_stop) has_held_requests = true;
         receive_cond.notify_one();
         mutex_rq.unlock();
     }
@@ -409,7 +412,10 @@ bool DowowNetwork::Connection::Receive() {
                         // handlers are not set up yet
                         bool to_hold = !is_dispatching;
                         // the held requests go first
-                        if (!to_hold) DispatchHeldRequests();
+                        if (!to_hold) {
+                            DispatchHeldRequests();
+                            to_hold = has_held_requests;
+                        }
 
                         // try to process using handlers
                         if (to_hold || !PassThroughHandlers(req)) {
-- 
2.43.0


From c22103010f26052dbabc00de0232d7e642dd9075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 38/50] fix: disconnected handlers do not find deleted
 connections

---
 Server.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 1b15744..b7a5745 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -122,14 +122,15 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
                 // call 'disconnected' handler
                 if (s->GetDisconnectedHandler())
                     (*s->GetDisconnectedHandler())(s, c);
-                // delete the connection
-                delete c;
                 deleted_conns.push_back(c);
             }
         }
-        // remove deleted connections
-        for (auto c : deleted_conns)
+        // remove and delete the closed connections
+        // (not earlier, because the handlers might look connections up)
+        for (auto c : deleted_conns) {
             s->connections.remove(c);
+            delete c;
+        }
 
         // ***********************
         // check if new connection
-- 
2.43.0


From 4f826a8b3ef2ead49eb55b7ba01668cc4063be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:36 +0000
Subject: [PATCH 39/50] fix: smallest size limit of requests lets keep-alives
 through

A request without arguments takes 4 + 4 + 2 bytes and its name, so the
minimum that SetMaxRequestSize() enforces was one byte too small. With
it, an idle connection was closed at the first keep-alive of the peer.
---
 Connection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index f65683d..a269491 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -890,8 +890,9 @@ uint32_t DowowNetwork::Connection::GetRecvBlockSize() {
 }
 
 void DowowNetwork::Connection::SetMaxRequestSize(uint32_t size) {
-    // not less than 10 (request header + 1 symbol of request name)
-    if (size < 10) size = 10;
+    // not less than 11 (request header + 1 symbol of request name),
+    // which is also the size of a keep-alive
+    if (size < 11) size = 11;
 
     recv_buffer_max_length = size;
 }
-- 
2.43.0


From 210c7ce97555a03246e3432266d34346b2b3b573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:18 +0000
Subject: [PATCH 40/50] fix: a value can be set from itself or from a part of
 itself

Datum::SetValue() and ValueArr::Set() deleted the old value before the
new one was copied, ValueArr::CopyFrom() cleared the array first.
---
 Datum.cpp           |  7 +++++--
 values/ValueArr.cpp | 19 ++++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/Datum.cpp b/Datum.cpp
index 7ee1b9f..7c590aa 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -32,8 +32,8 @@ DowowNetwork::Value* DowowNetwork::Datum::GetValue() {
 }
 
 void DowowNetwork::Datum::SetValue(Value* value, bool to_copy) {
-    // delete the old value
-    delete this->value;
+    // the value before, not deleted yet: the new one might be copied from it
+    Value* old_value = this->value;
 
     // set the new value
     if (value) {
@@ -49,6 +49,9 @@ void DowowNetwork::Datum::SetValue(Value* value, bool to_copy) {
     else {
         this->value = new ValueUndefined();
     }
+
+    // delete the old value
+    if (old_value != this->value) delete old_value;
 }
 
 uint32_t DowowNetwork::Datum::Deserialize(const char* data, uint32_t length) {
diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 8345de1..fdb0bef 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -118,11 +118,13 @@ bool DowowNetwork::ValueArr::Set(uint32_t index, Value* val) {
     if (index < 0 || index >= array.size()) return false;
     if (!val) return false;
 
-    delete array[index];
-
     // create a copy
-    array[index] = CreateValue(val->GetType());
-    array[index]->CopyFrom(val);
+    Value* copy = CreateValue(val->GetType());
+    copy->CopyFrom(val);
+
+    // delete the old value (not earlier, the new one might be copied from it)
+    delete array[index];
+    array[index] = copy;
 
     return true;
 }
@@ -156,9 +158,12 @@ void DowowNetwork::ValueArr::Clear() {
 void DowowNetwork::ValueArr::CopyFrom(Value* original_) {
     ValueArr* original = static_cast<ValueArr*>(original_);
 
-    New(original->array.size());
-    for (size_t i = 0; i < array.size(); i++)
-        Set(i, original->Get(i));
+    // copy first, the original might be a part of this array
+    ValueArr copies;
+    for (auto i : original->array)
+        copies.Push(i);
+
+    array.swap(copies.array);
 }
 
 DowowNetwork::ValueArr::~ValueArr() {
-- 
2.43.0


From 0afd12e9df5271ee01aad9a2209adff923e42eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:46 +0000
Subject: [PATCH 41/50] fix: a push with a timeout waits for the response

The timeout was ignored: Push() returned null at once and the response
was delivered as an ordinary request. Now the first request received with
the id of the pushed one is returned to that caller, null after the timeout
or when the connection ends. The polling thread (handlers of the same
connection) cannot wait for what it has to receive itself.
---
 Connection.cpp | 60 +++++++++++++++++++++++++++++++++++++++++++++-----
 Connection.hpp | 21 ++++++++++++++++++
 2 files changed, 76 insertions(+), 5 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index a269491..acd1eed 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -31,6 +31,9 @@ using namespace std;
 
 #define MTLock(name, mut) std::lock_guard<typeof(mut)> name(mut);
 
+// The connection the current thread is the polling thread of.
+static thread_local DowowNetwork::Connection* polled_connection = 0;
+
 // The I/O should be just tried again later?
 static bool IsTransient(int error) {
     return error == EAGAIN || error == EWOULDBLOCK || error == EINTR;
@@ -44,6 +47,8 @@ bool DowowNetwork::Connection::HasSomethingToSend() {
 }
 
 void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
+    polled_connection = c;
+
     // forced disconnection requested?
     bool to_stop = false;
 
@@ -176,11 +181,14 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     // unlock the connected/disconnecting mutex
     c->mutex_cd.unlock();
 
-    // notify the Pull() callers that the receive is finished
+    // notify the Pull() and Push() callers that the receive is finished
     c->mutex_rq.lock();
     c->is_receive_finished = true;
     c->has_held_requests = false;
     c->receive_cond.notify_all();
+    for (auto w : c->response_waiters) w->is_finished = true;
+    c->response_waiters.clear();
+    c->response_cond.notify_all();
     c->mutex_rq.unlock();
 
     // lock the reference counter
@@ -270,6 +278,23 @@ void DowowNetwork::Connection::StartDispatching() {
     if (push_event != -1) Utils::WriteEventFd(push_event, 1);
 }
 
+bool DowowNetwork::Connection::PassToResponseWaiter(Request* r) {
+    MTLock(__mrq, mutex_rq);
+
+    for (auto it = response_waiters.begin(); it != response_waiters.end(); ++it) {
+        ResponseWaiter* w = *it;
+        if (w->id != r->GetId()) continue;
+        // found
+        w->response = r;
+        w->is_finished = true;
+        response_waiters.erase(it);
+        response_cond.notify_all();
+        return true;
+    }
+
+    return false;
+}
+
 bool DowowNetwork::Connection::HasHandlerFor(Request* r) {
     return GetHandlerNamed(r->GetName()) || GetHandlerDefault();
 }
@@ -408,7 +433,7 @@ bool DowowNetwork::Connection::Receive() {
                     if (req->GetName() == "_") {
                         // just delete it
                         delete req;
-                    } else {
+                    } else if (!PassToResponseWaiter(req)) {
                         // handlers are not set up yet
                         bool to_hold = !is_dispatching;
                         // the held requests go first
@@ -673,8 +698,11 @@ time_t DowowNetwork::Connection::GetTheirNaIntervalLimit() {
 }
 
 DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_copy, int timeout, bool change_request_id) {
+    // the polling thread can't wait
+    if (polled_connection == this) timeout = 0;
+
     // lock, so that the connection doesn't end in the meantime
-    MTLock(__mcd, mutex_cd);
+    std::unique_lock<typeof(mutex_cd)> __mcd(mutex_cd);
 
     // not connected or disconnecting
     if (!IsConnected() || IsDisconnecting()) {
@@ -685,7 +713,7 @@ DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_co
     }
 
     // lock the send queue
-    MTLock(__msq, mutex_sq);
+    std::unique_lock<typeof(mutex_sq)> __msq(mutex_sq);
 
     // copy the request if needed
     if (must_copy) {
@@ -708,13 +736,35 @@ DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_co
         free_request_id += 2;
     }
 
+    // expect the response (before it can arrive)
+    ResponseWaiter waiter { req_id, 0, false };
+    if (timeout) {
+        MTLock(__mrq, mutex_rq);
+        response_waiters.push_back(&waiter);
+    }
+
     // push to queue
     send_queue.push(req);
 
     // notify the thread
     Utils::WriteEventFd(push_event, 1);
 
-    return 0;
+    // not waiting for the response
+    if (!timeout) return 0;
+
+    // wait for the response
+    __msq.unlock();
+    __mcd.unlock();
+    std::unique_lock<std::recursive_mutex> __mrq(mutex_rq);
+    auto is_finished = [&] { return waiter.is_finished; };
+    if (timeout > 0)
+        response_cond.wait_for(__mrq, std::chrono::seconds(timeout), is_finished);
+    else
+        response_cond.wait(__mrq, is_finished);
+
+    // not expected anymore
+    response_waiters.remove(&waiter);
+    return waiter.response;
 }
 
 DowowNetwork::Request* DowowNetwork::Connection::Push(const Request& req, int timeout, bool change_request_id) {
diff --git a/Connection.hpp b/Connection.hpp
index df11d26..72eb9f1 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -7,6 +7,7 @@
 #ifndef __DOWOW_NETWORK__CONNECTION_H_
 #define __DOWOW_NETWORK__CONNECTION_H_
 
+#include <list>
 #include <queue>
 #include <cstdint>
 #include <cstdlib>
@@ -121,6 +122,16 @@ namespace DowowNetwork {
         std::condition_variable_any receive_cond;
         //! Nothing else is going to be received?
         bool is_receive_finished = true;
+        //! A Push() call that waits for the response.
+        struct ResponseWaiter {
+            uint32_t id;                    // of the pushed Request
+            Request* response;
+            bool is_finished;               // nothing else is to be waited for?
+        };
+        //! The Push() calls that wait for responses (mutex_rq).
+        std::list<ResponseWaiter*> response_waiters;
+        //! response event
+        std::condition_variable_any response_cond;
         //! 'not_needed' event
         int not_needed_event = -1;
         //! our still-alive timer
@@ -157,6 +168,12 @@ namespace DowowNetwork {
         //! /return send_buffer || send_queue.size()
         bool HasSomethingToSend();
 
+        //! Pass the Request to the Push() call that waits for it.
+        /*!
+            \return
+                Was there such a call?
+        */
+        bool PassToResponseWaiter(Request* req);
         //! Pass the Requests through assigned handlers.
         /*!
             \return
@@ -261,6 +278,10 @@ namespace DowowNetwork {
          *  \param to_copy to copy the Request?
          *  \param timeout how long to wait for response?
          *  \param change_id to change the request ID to a free one?
+         *  The response is the first Request received with the same ID, it is
+         *  neither passed to the handlers nor returned by Pull().
+         *  The polling thread (that is, handlers of this connection) doesn't
+         *  wait for responses, because it is the one that receives them.
          *  \return
          *      -   If timeout is non-zero then a pointer to the response [YOURS]
          *          or null-pointer (on disconnection or timed out)
-- 
2.43.0


From 143b693dabffb99c48c2e4e03aa192c09018f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:31 +0000
Subject: [PATCH 42/50] fix: a server that fails to start leaves no socket file
 behind

---
 Server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Server.cpp b/Server.cpp
index b7a5745..554e100 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -252,6 +252,7 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     // set the socket to listen
     if (listen(socket_fd, SOMAXCONN) == -1) {
         // fail
+        unlink(path.c_str());
         close(socket_fd);
         return false;
     }
@@ -261,6 +262,7 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     if (to_stop_event == -1 || stopped_event == -1) {
         // out of descriptors
         if (to_stop_event != -1) close(to_stop_event);
+        unlink(path.c_str());
         close(socket_fd);
         return false;
     }
-- 
2.43.0


From ae005878d6367aaf89f043b6e5a37ae609ebb95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:55 +0000
Subject: [PATCH 43/50] fix: an undefined value decoded from no data keeps
 nothing from before

---
 values/ValueUndefined.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/values/ValueUndefined.cpp b/values/ValueUndefined.cpp
index 9868578..7279dd4 100644
--- a/values/ValueUndefined.cpp
+++ b/values/ValueUndefined.cpp
@@ -8,11 +8,15 @@ DowowNetwork::ValueUndefined::ValueUndefined() : Value(ValueTypeUndefined) {
 }
 
 uint32_t DowowNetwork::ValueUndefined::DeserializeInternal(const char* data, uint32_t length) {
+    // the data from before
+    free(undefined_data);
+    undefined_data = 0;
+    undefined_data_length = 0;
+
     // no data at all
     if (length == 0) return 0;
 
     // data of unknown type
-    free(undefined_data);
     undefined_data = malloc(length);
     undefined_data_length = length;
 
-- 
2.43.0


From 4422dda466119cbf28d1a465653fa6ea9daa57ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:12 +0000
Subject: [PATCH 44/50] fix: setting an argument to null deletes it, as
 documented

---
 Request.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Request.cpp b/Request.cpp
index 302d8d9..01a1637 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -26,6 +26,21 @@ uint32_t DowowNetwork::Request::GetId() const {
 }
 
 void DowowNetwork::Request::Set(std::string name, Value* value, bool to_copy) {
+    // delete the argument
+    if (!value) {
+        auto temp_iter =
+            std::find_if(
+                arguments.begin(),
+                arguments.end(),
+                [&name](Datum* dat) { return dat->GetName() == name; }
+            );
+        if (temp_iter != arguments.end()) {
+            delete *temp_iter;
+            arguments.erase(temp_iter);
+        }
+        return;
+    }
+
     if (Get(name)) {
         // argument is already set
         auto temp_iter = 
-- 
2.43.0


From 205ecd48245c2d05ec1ed0feb03cc58f60ef1c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:49 +0000
Subject: [PATCH 45/50] fix: copies of a SafeConnection count as references

---
 SafeConnection.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/SafeConnection.hpp b/SafeConnection.hpp
index 364bdfb..81e3247 100644
--- a/SafeConnection.hpp
+++ b/SafeConnection.hpp
@@ -15,6 +15,18 @@ namespace DowowNetwork {
                 c->IncreaseRefs();
             }
 
+            // every copy counts as a reference of its own
+            inline SafeConnection(const SafeConnection& other) : SafeConnection(other.c) {
+
+            }
+
+            inline SafeConnection& operator=(const SafeConnection& other) {
+                other.c->IncreaseRefs();
+                c->DecreaseRefs();
+                c = other.c;
+                return *this;
+            }
+
             inline Connection& operator()() {
                 return *c;
             }
-- 
2.43.0


From 3fad069f1407cd0ea40cb054767c72c0cfbf3317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:38 +0000
Subject: [PATCH 46/50] fix: copies of requests, data and values are deep

---
 Datum.cpp                 | 10 ++++++++++
 Datum.hpp                 |  4 ++++
 Request.cpp               |  9 +++++++++
 Request.hpp               | 10 ++++++++++
 values/ValueArr.cpp       |  5 +++++
 values/ValueArr.hpp       |  1 +
 values/ValueStr.cpp       |  4 ++++
 values/ValueStr.hpp       |  1 +
 values/ValueUndefined.cpp |  4 ++++
 values/ValueUndefined.hpp |  1 +
 10 files changed, 49 insertions(+)

diff --git a/Datum.cpp b/Datum.cpp
index 7c590aa..a90069d 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -8,6 +8,16 @@ DowowNetwork::Datum::Datum() {
     this->value = new ValueUndefined();
 }
 
+DowowNetwork::Datum::Datum(const Datum& other) : Datum() {
+    *this = other;
+}
+
+DowowNetwork::Datum& DowowNetwork::Datum::operator=(const Datum& other) {
+    SetName(other.name);
+    SetValue(other.value);
+    return *this;
+}
+
 bool DowowNetwork::Datum::GetValid() const {
     // the datum is valid if:
     //    1. its value isn't 0
diff --git a/Datum.hpp b/Datum.hpp
index 555a926..1c1eeba 100644
--- a/Datum.hpp
+++ b/Datum.hpp
@@ -21,6 +21,10 @@ namespace DowowNetwork {
     public:
         /// Create a new empty datum.
         Datum();
+        /// Create a deep copy of the Datum.
+        Datum(const Datum& other);
+        /// Copy the name and the value of another Datum.
+        Datum& operator=(const Datum& other);
 
         /// Check if the Datum is a valid one.
         /*!
diff --git a/Request.cpp b/Request.cpp
index 01a1637..edd1ff5 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -9,6 +9,15 @@ DowowNetwork::Request::Request(std::string name) : name(name) {
 
 }
 
+DowowNetwork::Request::Request(const Request& other) {
+    CopyFrom(&other);
+}
+
+DowowNetwork::Request& DowowNetwork::Request::operator=(const Request& other) {
+    CopyFrom(&other);
+    return *this;
+}
+
 void DowowNetwork::Request::SetName(std::string name) {
     this->name = name;
 }
diff --git a/Request.hpp b/Request.hpp
index 9a0a394..aa44568 100644
--- a/Request.hpp
+++ b/Request.hpp
@@ -30,6 +30,16 @@ namespace DowowNetwork {
             \param name the name of the Request
         */
         explicit Request(std::string name = "");
+        /// Create a deep copy of the Request.
+        /*!
+            \sa CopyFrom().
+        */
+        Request(const Request& other);
+        /// Replace the Request with a deep copy of another one.
+        /*!
+            \sa CopyFrom().
+        */
+        Request& operator=(const Request& other);
 
         /// Set the name of the Request.
         /*!
diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index fdb0bef..7790669 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -10,6 +10,11 @@ DowowNetwork::ValueArr::ValueArr() : Value(ValueTypeArr) {
     
 }
 
+DowowNetwork::ValueArr::ValueArr(const ValueArr& other) : ValueArr() {
+    for (auto i : other.array)
+        Push(i);
+}
+
 uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t length) {
     // delete the buffer
     Clear();
diff --git a/values/ValueArr.hpp b/values/ValueArr.hpp
index 7b63370..fd5b7c4 100644
--- a/values/ValueArr.hpp
+++ b/values/ValueArr.hpp
@@ -18,6 +18,7 @@ namespace DowowNetwork {
         std::string ToStringInternal(uint16_t indent) const;
     public:
         ValueArr();
+        ValueArr(const ValueArr& other);
 
         // get element #index.
         // Returns 0 if oob.
diff --git a/values/ValueStr.cpp b/values/ValueStr.cpp
index acfd362..af400b9 100644
--- a/values/ValueStr.cpp
+++ b/values/ValueStr.cpp
@@ -19,6 +19,10 @@ DowowNetwork::ValueStr::ValueStr(const char *str) : ValueStr(std::string(str)) {
     
 }
 
+DowowNetwork::ValueStr::ValueStr(const ValueStr& other) : ValueStr(other.Get()) {
+
+}
+
 uint32_t DowowNetwork::ValueStr::DeserializeInternal(const char* data, uint32_t length) {
     // delete the buffer
     DeleteBuffer();
diff --git a/values/ValueStr.hpp b/values/ValueStr.hpp
index f50ab9c..77c1eb1 100644
--- a/values/ValueStr.hpp
+++ b/values/ValueStr.hpp
@@ -22,6 +22,7 @@ namespace DowowNetwork {
     public:
         ValueStr(std::string str = "");
         ValueStr(const char* str);
+        ValueStr(const ValueStr& other);
 
         // getters and setters
         std::string Get() const;
diff --git a/values/ValueUndefined.cpp b/values/ValueUndefined.cpp
index 7279dd4..280e332 100644
--- a/values/ValueUndefined.cpp
+++ b/values/ValueUndefined.cpp
@@ -7,6 +7,10 @@ DowowNetwork::ValueUndefined::ValueUndefined() : Value(ValueTypeUndefined) {
     
 }
 
+DowowNetwork::ValueUndefined::ValueUndefined(const ValueUndefined& other) : ValueUndefined() {
+    CopyFrom(const_cast<ValueUndefined*>(&other));
+}
+
 uint32_t DowowNetwork::ValueUndefined::DeserializeInternal(const char* data, uint32_t length) {
     // the data from before
     free(undefined_data);
diff --git a/values/ValueUndefined.hpp b/values/ValueUndefined.hpp
index 1051ddc..8607c47 100644
--- a/values/ValueUndefined.hpp
+++ b/values/ValueUndefined.hpp
@@ -15,6 +15,7 @@ namespace DowowNetwork {
         std::string ToStringInternal(uint16_t indent) const;
     public:
         ValueUndefined();
+        ValueUndefined(const ValueUndefined& other);
 
         void CopyFrom(Value* original);
 
-- 
2.43.0


From ddf5228f6c4a173802c3eb8697c5de3a4b383e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:17 +0000
Subject: [PATCH 47/50] fix: copying a request replaces all the arguments

---
 Request.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Request.cpp b/Request.cpp
index edd1ff5..2b6a0ba 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -163,11 +163,14 @@ uint32_t DowowNetwork::Request::GetSize() const {
 void DowowNetwork::Request::CopyFrom(const Request* original) {
     SetName(original->GetName());
     SetId(original->GetId());
-    const auto& original_args = original->GetArguments();
-    // copy the arguments
-    for (const auto& d: original_args) {
-        Set(d->GetName(), d->GetValue());
+    // copy the arguments (the old ones are deleted after that, because
+    // the original might be this very request)
+    std::list<Datum*> copies;
+    for (const auto& d: original->GetArguments()) {
+        copies.push_back(new Datum(*d));
     }
+    arguments.swap(copies);
+    for (auto d : copies) delete d;
 }
 
 std::string DowowNetwork::Request::ToString() const {
-- 
2.43.0


From 87fae23137fdbdc25e7706e617a615566f873a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:43 +0000
Subject: [PATCH 48/50] fix: malformed values fail to deserialize

---
 Value.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Value.cpp b/Value.cpp
index c1b811b..7e64eb9 100644
--- a/Value.cpp
+++ b/Value.cpp
@@ -27,7 +27,12 @@ uint32_t DowowNetwork::Value::Deserialize(const char* data, uint32_t length) {
     if (len > length - 5) return 0;
 
     // calling the derived deserializer
-    return DeserializeInternal(data + 5, len) + 5;
+    uint32_t res = DeserializeInternal(data + 5, len);
+
+    // failed (only undefined values may have no content)
+    if (res == 0 && type != ValueTypeUndefined) return 0;
+
+    return res + 5;
 }
 
 const char* DowowNetwork::Value::Serialize() const {
-- 
2.43.0


From 100134dcc712242e773ecf08df16d35adb67b488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:29 +0000
Subject: [PATCH 49/50] fix: connections are kept while referenced when there
 are no descriptors left

---
 Connection.cpp | 22 +++-------------------
 Connection.hpp |  4 ++--
 2 files changed, 5 insertions(+), 21 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index acd1eed..c98690c 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -193,23 +193,8 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
 
     // lock the reference counter
     c->mutex_ra.lock();
-    // still referenced by external code, setup event
-    if (c->GetRefs())
-        c->not_needed_event = eventfd(0, 0);
-
-    // needed by someone
-    if (c->not_needed_event != -1) {
-        // wait until the Connection is not needed anymore
-        while (c->GetRefs()) {
-            c->mutex_ra.unlock();
-            Utils::ReadEventFd(c->not_needed_event, -1);
-            c->mutex_ra.lock();
-        }
-
-        // close the event
-        close(c->not_needed_event);
-        c->not_needed_event = -1;
-    }
+    // wait until the Connection is not needed by external code anymore
+    while (c->GetRefs()) c->not_needed_cond.wait(c->mutex_ra);
 
     // too late for new references
     c->can_be_referenced = false;
@@ -827,8 +812,7 @@ void DowowNetwork::Connection::DecreaseRefs() {
     mutex_ra.lock();
     refs_amount--;
     // the background thread awaits loneliness ;-(
-    if (not_needed_event != -1)
-        Utils::WriteEventFd(not_needed_event, 1);
+    not_needed_cond.notify_all();
     mutex_ra.unlock();
 }
 
diff --git a/Connection.hpp b/Connection.hpp
index 72eb9f1..6000b41 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -132,8 +132,8 @@ namespace DowowNetwork {
         std::list<ResponseWaiter*> response_waiters;
         //! response event
         std::condition_variable_any response_cond;
-        //! 'not_needed' event
-        int not_needed_event = -1;
+        //! Notified when a reference is released.
+        std::condition_variable_any not_needed_cond;
         //! our still-alive timer
         int our_sa_timer = -1;
         //! their not-alive timer
-- 
2.43.0


From 7b3f794309140d3f50cc6c2b0bc4e718d074baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:09 +0000
Subject: [PATCH 50/50] fix: a changed connection limit applies to the clients
 that wait

---
 Server.cpp | 29 ++++++++++++++++++++++++-----
 Server.hpp |  3 +++
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 554e100..d0bda58 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -70,7 +70,7 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         // the client is still waiting, so poll() would return at once
         if (accept_failed) accept_new = false;
 
-        pollfd *pollfds = new pollfd[2 + s->connections.size()];
+        pollfd *pollfds = new pollfd[3 + s->connections.size()];
         // server socket
         pollfds[0].fd = accept_new ? s->socket_fd : -1;
         pollfds[0].events = POLLIN;
@@ -86,10 +86,15 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
             ++i;
         }
 
+        // 'limit changed' event
+        pollfd &limit_pollfd = pollfds[2 + i];
+        limit_pollfd.fd = s->limit_event;
+        limit_pollfd.events = POLLIN;
+
         // poll events
         int poll_res = poll(
             pollfds,
-            2 + s->connections.size(),
+            3 + s->connections.size(),
             accept_failed ? ACCEPT_RETRY_INTERVAL : -1);
         accept_failed = false;
 
@@ -112,6 +117,16 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
             break;
         }
 
+        // ***************************************
+        // check if the maximum amount has changed
+        // ***************************************
+        if (limit_pollfd.revents & POLLIN) {
+            Utils::ReadEventFd(s->limit_event, 0);
+            // not accepting with the previous one
+            delete[] pollfds;
+            continue;
+        }
+
         // ************************************
         // check if some connections are closed
         // ************************************
@@ -197,6 +212,7 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
 
 DowowNetwork::Server::Server() {
     stopped_event = eventfd(0, 0);
+    limit_event = eventfd(0, 0);
 }
 
 bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
@@ -259,7 +275,7 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
 
     // create eventfd
     to_stop_event = eventfd(0, 0);
-    if (to_stop_event == -1 || stopped_event == -1) {
+    if (to_stop_event == -1 || stopped_event == -1 || limit_event == -1) {
         // out of descriptors
         if (to_stop_event != -1) close(to_stop_event);
         unlink(path.c_str());
@@ -338,7 +354,7 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
 
     // create eventfd
     to_stop_event = eventfd(0, 0);
-    if (to_stop_event == -1 || stopped_event == -1) {
+    if (to_stop_event == -1 || stopped_event == -1 || limit_event == -1) {
         // out of descriptors
         if (to_stop_event != -1) close(to_stop_event);
         close(socket_fd);
@@ -376,6 +392,8 @@ uint8_t DowowNetwork::Server::GetType() {
 
 void DowowNetwork::Server::SetMaxConnections(int32_t c) {
     max_connections = c;
+    // let the server thread notice
+    if (limit_event != -1) Utils::WriteEventFd(limit_event, 1);
 }
 
 int32_t DowowNetwork::Server::GetMaxConnections() {
@@ -450,6 +468,7 @@ DowowNetwork::Server::~Server() {
     // wait until the server thread is finished
     if (server_thread.joinable()) server_thread.join();
 
-    // close the stopped eventfd
+    // close the events
     if (stopped_event != -1) close(stopped_event);
+    if (limit_event != -1) close(limit_event);
 }
diff --git a/Server.hpp b/Server.hpp
index 511ebbb..123d592 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -52,6 +52,9 @@ namespace DowowNetwork {
         //! 'to_stop' event.
         //! Occurs when the server shutdown is requested.
         int to_stop_event = -1;
+        //! 'limit changed' event.
+        //! Occurs when the maximum amount of connected clients is changed.
+        int limit_event = -1;
 
         //! Server thread.
         std::thread server_thread;
-- 
2.43.0

