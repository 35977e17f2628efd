From 9e3b5f43aad296aaa3468f5eeab6764935f0a7bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 01/19] fix: timed semaphore waits keep tv_nsec in range and
 survive EINTR

A wait starting late in a second computed tv_nsec >= 1e9, which sem_timedwait
refuses with EINVAL, so the wait failed at once even when a unit was available.
---
 src/semaphore.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index 11851d1..875e6a5 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -8,6 +8,7 @@
 #include "semaphore.h"
 #include "log.h"
 #include <assert.h>
+#include <errno.h>
 #include <limits>
 
 namespace veigar {
@@ -87,7 +88,8 @@ void Semaphore::wait() {
 #ifdef VEIGAR_OS_WINDOWS
         WaitForSingleObject(sh_->h_, INFINITE);
 #else
-        sem_wait(sh_->named_);
+        while (sem_wait(sh_->named_) != 0 && errno == EINTR) {
+        }
 #endif
     }
 }
@@ -112,11 +114,23 @@ bool Semaphore::wait(const int64_t& ms) {
 
         ts.tv_sec += (ms / 1000);
         ts.tv_nsec += ((ms % 1000) * 1000000);
-
-        return (sem_timedwait(sh_->named_, &ts) == 0);
+        if (ts.tv_nsec >= 1000000000L) {
+            ts.tv_sec += 1;
+            ts.tv_nsec -= 1000000000L;
+        }
+
+        int ret = 0;
+        do {
+            ret = sem_timedwait(sh_->named_, &ts);
+        } while (ret != 0 && errno == EINTR);
+        return (ret == 0);
     }
 
-    return (sem_wait(sh_->named_) == 0);
+    int ret = 0;
+    do {
+        ret = sem_wait(sh_->named_);
+    } while (ret != 0 && errno == EINTR);
+    return (ret == 0);
 #endif
 }
 
-- 
2.43.0


From 021443ce15130415cb533222586bff1ddc1d40b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 02/19] fix: move queue contents with memmove, source and
 destination overlap

Compaction in pushBack and the shift of the size list in popFront copied
overlapping ranges with memcpy, which may corrupt queued messages.
---
 src/message_queue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 580b343..79309e6 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -224,7 +224,7 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
 
             // move old data to offset zero
             uint8_t* pOldData = pFirstMsgData + *pFrontFree;
-            memcpy(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);
+            memmove(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);
 
             // set front free to 0
             *pFrontFree = 0;
@@ -292,7 +292,7 @@ bool MessageQueue::popFront(void* buf, int64_t bufSize, int64_t& written) {
         *pFrontFree += *pFirstMsgDataSize;
 
         // pop a element from data size list
-        memcpy(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(sizeof(int64_t) * (*pCurMsgNumber)));
+        memmove(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(sizeof(int64_t) * (*pCurMsgNumber)));
 
         ret = true;
     } while (false);
-- 
2.43.0


From 88d9d8e3cfa0a47568a7d6c07f6efd0aba631bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 03/19] fix: a reader that fails to get the queue lock gives
 its read signal back

The signal was consumed but the message stayed in the queue, and was not
picked up until another message arrived.
---
 src/call_dispatcher.cpp | 1 +
 src/resp_dispatcher.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index e1f5006..fb343de 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -183,6 +183,7 @@ void CallDispatcher::dispatchThreadProc() {
 
         if (!impl_->callMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {
             veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from call message queue.\n");
+            impl_->callMsgQueue_->notifyRead();  // the message is still in the queue, give its signal back
             continue;
         }
 
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 74510a8..ca5f4f7 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -99,6 +99,7 @@ void RespDispatcher::dispatchRespThreadProc() {
 
         if (!respMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {
             veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from response message queue.\n");
+            respMsgQueue_->notifyRead();  // the message is still in the queue, give its signal back
             continue;
         }
 
-- 
2.43.0


From b488b89bb57485fd17e09e5bed5fbb154af3c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 04/19] fix: make call ids unambiguous

uuid + function name + index is the same for call 12 of "f" and call 2 of
"f1", so replies could complete the wrong call.
---
 src/veigar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index 6f05ebe..e2212ed 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -237,7 +237,7 @@ uint32_t Veigar::timeoutOfRWLock() const {
 std::string Veigar::getNextCallId(const std::string& funcName) const {
     assert(impl_);
     uint32_t idx = impl_->callIndex_.fetch_add(1);
-    std::string callId = impl_->uuid_ + funcName + std::to_string((unsigned long)idx);
+    std::string callId = impl_->uuid_ + funcName + "#" + std::to_string((unsigned long)idx);
     return callId;
 }
 
-- 
2.43.0


From 13df4c44d5801c94b92ee56383626999268d73a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 05/19] fix: generate instance ids from random_device instead
 of unseeded rand()

Every process produced the same sequence, so a restarted caller reused the call
ids of its predecessor and took late replies to them for its own.
---
 src/uuid.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uuid.cpp b/src/uuid.cpp
index a7c84cc..e7963b8 100644
--- a/src/uuid.cpp
+++ b/src/uuid.cpp
@@ -16,14 +16,15 @@
 #include <cstdio>
 #include <cstdlib>
 #include <ctime>
+#include <random>
 #endif
 #include "string_helper.h"
 
 namespace veigar {
 #ifndef VEIGAR_OS_WINDOWS
 uint32_t UUID::Rand32() {
-    return ((rand() & 0x3) << 30) | ((rand() & 0x7fff) << 15) |
-           (rand() & 0x7fff);
+    std::random_device rd;
+    return (uint32_t)rd();
 }
 
 std::string UUID::GenUuid4() {
-- 
2.43.0


From c7eb73a87062e3fa96467859ab77cdd328f54287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 06/19] fix: a failed init no longer dereferences null

Rolling back before the response dispatcher and the sender were created
crashed, for example for an empty channel name.
---
 src/veigar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index e2212ed..e385a9f 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -79,11 +79,11 @@ class Veigar::Impl {
                 veigar_->callDisp_->uninit();
             }
 
-            if (respDispatcher_->isInit()) {
+            if (respDispatcher_ && respDispatcher_->isInit()) {
                 respDispatcher_->uninit();
             }
 
-            if (sender_->isInit()) {
+            if (sender_ && sender_->isInit()) {
                 sender_->uninit();
             }
 
-- 
2.43.0


From fde22344fa1a1b3372e46ec271cc883951c797d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 07/19] fix: compute call timeouts and queue sizes in 64 bits

timeoutMS * 1000 and capacity * expected size overflowed 32 bits: long timeouts
became short ones, and large queues got the wrong size.
---
 src/message_queue.cpp | 8 ++++----
 src/veigar.cpp        | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 79309e6..def22ed 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -27,7 +27,7 @@ bool MessageQueue::create(const std::string& path) {
             break;
         }
 
-        int64_t shmSize = sizeof(int64_t) * (msgMaxNumber_ + 3) + msgMaxNumber_ * msgExpectedMaxSize_;
+        int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
         std::string shmName = path + "_shm";
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
@@ -85,7 +85,7 @@ bool MessageQueue::open(const std::string& path) {
         close();
 
         std::string shmName = path + "_shm";
-        int64_t shmSize = sizeof(int64_t) * (msgMaxNumber_ + 3) + msgMaxNumber_ * msgExpectedMaxSize_;
+        int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
         if (!shm_->open()) {
@@ -164,7 +164,7 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
     }
 
     assert(msgMaxNumber_ > 0);
-    if (msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
+    if ((int64_t)msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
         veigar::log("Veigar: Error: The data size has exceeded the total size of the message queue. Please adjust the parameters of the message queue.\n");
         return false;
     }
@@ -327,7 +327,7 @@ bool MessageQueue::waitForRead(int64_t ms) {
 
 bool MessageQueue::checkSpaceSufficient(int64_t dataSize, bool& waitable) const {
     assert(msgMaxNumber_ > 0);
-    if (msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
+    if ((int64_t)msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
         waitable = false;
         veigar::log("Veigar: Error: The data size has exceeded the total size of the message queue. Please adjust the parameters of the message queue.\n");
         return false;
diff --git a/src/veigar.cpp b/src/veigar.cpp
index e385a9f..7817f51 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -270,7 +270,7 @@ bool Veigar::sendCall(const std::string& channelName,
         memcpy(cm.data, buffer->data(), cm.dataSize);
     }
 
-    cm.timeout = timeoutMS * 1000;
+    cm.timeout = (int64_t)timeoutMS * 1000;
     cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
     impl_->sender_->addCall(cm);
-- 
2.43.0


From 280c456a97e5077974a1f177e6c40e4ba7c0c28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 08/19] fix: a malformed message no longer corrupts the
 messages read after it

---
 src/call_dispatcher.cpp | 4 ++++
 src/resp_dispatcher.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index fb343de..008e070 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -199,6 +199,10 @@ void CallDispatcher::dispatchThreadProc() {
             continue;
         }
 
+        // a malformed message must not leave anything behind for the next one
+        callPac.remove_nonparsed_buffer();
+        callPac.reset();
+
         if (!impl_->callMsgQueue_->popFront(callPac.buffer(), callPac.buffer_capacity(), written)) {
             if (written <= 0) {
                 veigar::log("Veigar: Error: Pop front from call message queue failed.\n");
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index ca5f4f7..310740e 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -115,6 +115,10 @@ void RespDispatcher::dispatchRespThreadProc() {
             continue;
         }
 
+        // a malformed message must not leave anything behind for the next one
+        respPac.remove_nonparsed_buffer();
+        respPac.reset();
+
         if (!respMsgQueue_->popFront(respPac.buffer(), respPac.buffer_capacity(), written)) {
             if (written <= 0) {
                 veigar::log("Veigar: Error: Pop front from response message queue failed.\n");
-- 
2.43.0


From d6c0fad0be706272794c130addeada12f8ea1c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 09/19] fix: a response completes its call once, whatever is
 received twice

---
 src/resp_dispatcher.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 310740e..86c8615 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -185,8 +185,11 @@ void RespDispatcher::dispatchRespThreadProc() {
                 }
 
                 ongoingCallsMutex_.lock();
-                if (ongoingCalls_.find(callId) != ongoingCalls_.end()) {
-                    retMeta = ongoingCalls_[callId];
+                auto itCall = ongoingCalls_.find(callId);
+                if (itCall != ongoingCalls_.end()) {
+                    // whoever takes the call out of the map completes it
+                    retMeta = std::move(itCall->second);
+                    ongoingCalls_.erase(itCall);
                 }
                 else {
                     veigar::log("Veigar: Warning: Unable to find call: %s, Going-Call number: %d.\n", callId.c_str(), ongoingCalls_.size());
@@ -227,8 +230,6 @@ void RespDispatcher::dispatchRespThreadProc() {
                 if (retMeta.cb) {
                     retMeta.cb(callRet);
                 }
-
-                releaseCall(callId);
             }
         } while (true);  // msgpack unpack while
     }
-- 
2.43.0


From 5010a3ba9a0874b1583e80b29483245509c90350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 10/19] fix: a sender waiting for space in a queue does not
 keep the queue locked

---
 src/sender.cpp | 63 ++++++++++++++++++++++++++++++++------------------
 src/sender.h   |  4 +++-
 2 files changed, 44 insertions(+), 23 deletions(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index fd98ac7..2220ffa 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -194,6 +194,7 @@ void Sender::sendCallThreadProc() {
 
             ErrorCode ec = ErrorCode::FAILED;
             std::shared_ptr<MessageQueue> mq = nullptr;
+            bool locked = false;
             try {
                 errMsg.clear();
 
@@ -205,8 +206,8 @@ void Sender::sendCallThreadProc() {
                 }
 
                 if (mq) {
-                    if (mq->processRWLock(veigar_->timeoutOfRWLock())) {
-                        if (checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout)) {
+                    if ((locked = mq->processRWLock(veigar_->timeoutOfRWLock()))) {
+                        if (checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout, locked)) {
                             if (mq->pushBack(cm.data, cm.dataSize)) {
                                 mq->notifyRead();
                                 ec = ErrorCode::SUCCESS;
@@ -219,7 +220,10 @@ void Sender::sendCallThreadProc() {
                             ec = ErrorCode::TIMEOUT;
                             errMsg = "Waiting for call queue availability timeout.";
                         }
-                        mq->processRWUnlock();
+                        if (locked) {
+                            locked = false;
+                            mq->processRWUnlock();
+                        }
                     }
                     else {
                         ec = ErrorCode::TIMEOUT;
@@ -231,14 +235,14 @@ void Sender::sendCallThreadProc() {
                 }
 
             } catch (std::exception& e) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (locked) {
+                    mq->processRWUnlock();
                 }
                 veigar::log("Veigar: Error: An exception occurred during pushing message to call queue: %s.\n", e.what());
                 errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to call queue: %s.", e.what());
             } catch (...) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (locked) {
+                    mq->processRWUnlock();
                 }
                 veigar::log("Veigar: Error: An exception occurred during pushing message to call queue.\n");
                 errMsg = "An exception occurred during pushing message to call queue.";
@@ -297,6 +301,7 @@ void Sender::sendRespThreadProc() {
 
             ErrorCode ec = ErrorCode::FAILED;
             std::shared_ptr<MessageQueue> mq = nullptr;
+            bool locked = false;
             try {
                 errMsg.clear();
 
@@ -308,8 +313,8 @@ void Sender::sendRespThreadProc() {
                 }
 
                 if (mq) {
-                    if (mq->processRWLock(veigar_->timeoutOfRWLock())) {
-                        if (checkSpaceAndWait(mq, rm.dataSize, rm.startCallTimePoint, rm.timeout)) {
+                    if ((locked = mq->processRWLock(veigar_->timeoutOfRWLock()))) {
+                        if (checkSpaceAndWait(mq, rm.dataSize, rm.startCallTimePoint, rm.timeout, locked)) {
                             if (mq->pushBack(rm.data, rm.dataSize)) {
                                 mq->notifyRead();
                                 ec = ErrorCode::SUCCESS;
@@ -322,7 +327,10 @@ void Sender::sendRespThreadProc() {
                             ec = ErrorCode::TIMEOUT;
                             errMsg = "Waiting for response queue availability timeout.";
                         }
-                        mq->processRWUnlock();
+                        if (locked) {
+                            locked = false;
+                            mq->processRWUnlock();
+                        }
                     }
                     else {
                         ec = ErrorCode::TIMEOUT;
@@ -334,13 +342,13 @@ void Sender::sendRespThreadProc() {
                 }
 
             } catch (std::exception& e) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (locked) {
+                    mq->processRWUnlock();
                 }
                 errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to response queue: %s.", e.what());
             } catch (...) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (locked) {
+                    mq->processRWUnlock();
                 }
                 errMsg = "An exception occurred during parsing pushing message to response queue.";
             }
@@ -359,17 +367,20 @@ void Sender::sendRespThreadProc() {
 bool Sender::checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
                                int64_t needSize,
                                int64_t startCallTimePoint,
-                               int64_t timeout) {
+                               int64_t timeout,
+                               bool& locked) {
     bool result = false;
     do {
-        bool waitable = false;
-        if (mq->checkSpaceSufficient(needSize, waitable)) {
-            result = true;
-            break;
-        }
+        if (locked) {
+            bool waitable = false;
+            if (mq->checkSpaceSufficient(needSize, waitable)) {
+                result = true;
+                break;
+            }
 
-        if (!waitable) {
-            break;
+            if (!waitable) {
+                break;
+            }
         }
 
         int64_t used = TimeUtil::GetCurrentTimestamp() - startCallTimePoint;
@@ -386,9 +397,17 @@ bool Sender::checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
             waitMS = ms;
         }
 
+        // the queue only gets space if its reader can lock it
+        if (locked) {
+            locked = false;
+            mq->processRWUnlock();
+        }
+
         if (stopEvent_.wait(waitMS)) {
             break;  // user call uninit, exit now!
         }
+
+        locked = mq->processRWLock(veigar_->timeoutOfRWLock());
     } while (true);
 
     return result;
diff --git a/src/sender.h b/src/sender.h
index 65e9cd9..7a9ba67 100644
--- a/src/sender.h
+++ b/src/sender.h
@@ -59,10 +59,12 @@ class Sender {
     void sendCallThreadProc();
     void sendRespThreadProc();
 
+    // The rw-lock is released while waiting; 'locked' tells whether it is held on return.
     bool checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
                            int64_t needSize,
                            int64_t startCallTimePoint,
-                           int64_t timeout);
+                           int64_t timeout,
+                           bool& locked);
 
    private:
     bool isInit_ = false;
-- 
2.43.0


From e3e821c885716a9eed913e70ba3d48b719990468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 11/19] fix: guard the function registry against concurrent
 bind, unbind and calls

Also, a failed init no longer forgets the functions bound before it.
---
 include/veigar/call_dispatcher.h   | 11 +++++++++-
 include/veigar/call_dispatcher.inl | 25 ++++++++--------------
 src/call_dispatcher.cpp            | 34 +++++++++++++++++++++++++-----
 src/veigar.cpp                     |  1 +
 4 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index a46c2a6..767b3cd 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -12,6 +12,7 @@
 
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <unordered_map>
 #include "veigar/config.h"
 #include "veigar/msgpack.hpp"
@@ -74,9 +75,13 @@ class VEIGAR_API CallDispatcher {
     // Unbind a functor with a given name from callable functors.
     void unbind(std::string const& name);
 
+    // Unbind all functors.
+    void unbindAll();
+
     // returns a list of all names which functors are binded to
     std::vector<std::string> names() const {
         std::vector<std::string> names;
+        std::lock_guard<std::mutex> lg(funcsMutex_);
         for (auto it = funcs_.begin(); it != funcs_.end(); ++it)
             names.push_back(it->first);
         return names;
@@ -89,6 +94,9 @@ class VEIGAR_API CallDispatcher {
 
     bool isFuncNameExist(std::string const& func);
 
+    // Return false if the name is already bound.
+    bool addFunc(std::string const& name, AdaptorType func);
+
     // Dispatches a call (which will have a response).
     detail::Response dispatchCall(veigar_msgpack::object const& msg, std::string& callerChannelName);
 
@@ -98,7 +106,8 @@ class VEIGAR_API CallDispatcher {
     Veigar* veigar_ = nullptr;
     bool init_ = false;
 
-    std::unordered_map<std::string, AdaptorType> funcs_;
+    mutable std::mutex funcsMutex_;
+    std::unordered_map<std::string, std::shared_ptr<AdaptorType>> funcs_;
 
     class Impl;
     Impl* impl_ = nullptr;
diff --git a/include/veigar/call_dispatcher.inl b/include/veigar/call_dispatcher.inl
index 204cb53..c0c7c45 100644
--- a/include/veigar/call_dispatcher.inl
+++ b/include/veigar/call_dispatcher.inl
@@ -26,14 +26,13 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
         return false;
     }
 
-    funcs_.insert(
-        std::make_pair(name, [func, name](veigar_msgpack::object const& args) {
+    return addFunc(
+        name, [func, name](veigar_msgpack::object const& args) {
             constexpr int args_count = std::tuple_size<args_type>::value;
             assert(args_count == args.via.array.size);
             func();
             return detail::make_unique<veigar_msgpack::object_handle>();
-        }));
-    return true;
+        });
 }
 
 template <typename F>
@@ -45,8 +44,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
         return false;
     }
 
-    funcs_.insert(
-        std::make_pair(name,
+    return addFunc(name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
                            assert(args_count == args.via.array.size);
@@ -57,8 +55,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
                            detail::call(func, args_real);
 
                            return detail::make_unique<veigar_msgpack::object_handle>();
-                       }));
-    return true;
+                       });
 }
 
 template <typename F>
@@ -70,8 +67,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
         return false;
     }
 
-    funcs_.insert(
-        std::make_pair(name,
+    return addFunc(name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
                            assert(args_count == args.via.array.size);
@@ -80,8 +76,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
                            auto result = veigar_msgpack::object(func(), *z);
 
                            return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));
-                       }));
-    return true;
+                       });
 }
 
 template <typename F>
@@ -93,7 +88,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
         return false;
     }
 
-    funcs_.insert(std::make_pair(name,
+    return addFunc(name,
                                  [func, name](veigar_msgpack::object const& args) {
                                      constexpr int args_count = std::tuple_size<args_type>::value;
                                      assert(args_count == args.via.array.size);
@@ -106,9 +101,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
                                      auto result = veigar_msgpack::object(detail::call(func, args_real), *z);
 
                                      return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));
-                                 }));
-
-    return true;
+                                 });
 }
 }  // namespace detail
 }  // namespace veigar
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 008e070..d0580b4 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -87,8 +87,6 @@ void CallDispatcher::uninit() {
         impl_->callMsgQueue_.reset();
     }
 
-    funcs_.clear();
-
     init_ = false;
 }
 
@@ -97,12 +95,28 @@ std::shared_ptr<veigar::MessageQueue> CallDispatcher::messageQueue() {
 }
 
 void CallDispatcher::unbind(std::string const& name) {
+    // the functor is destroyed after the lock is released
+    std::shared_ptr<AdaptorType> func;
+    std::lock_guard<std::mutex> lg(funcsMutex_);
     auto it = funcs_.find(name);
     if (it != funcs_.end()) {
+        func = std::move(it->second);
         funcs_.erase(it);
     }
 }
 
+void CallDispatcher::unbindAll() {
+    std::unordered_map<std::string, std::shared_ptr<AdaptorType>> funcs;
+    std::lock_guard<std::mutex> lg(funcsMutex_);
+    funcs.swap(funcs_);
+}
+
+bool CallDispatcher::addFunc(std::string const& name, AdaptorType func) {
+    auto f = std::make_shared<AdaptorType>(std::move(func));
+    std::lock_guard<std::mutex> lg(funcsMutex_);
+    return funcs_.insert(std::make_pair(name, std::move(f))).second;
+}
+
 Response CallDispatcher::dispatch(veigar_msgpack::object const& msg, std::string& callerChannelName) {
     // Quickly check
     if (msg.via.array.size != 5) {
@@ -138,15 +152,24 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
     auto&& funcName = std::get<3>(the_call);
     auto&& args = std::get<4>(the_call);
 
-    std::unordered_map<std::string, AdaptorType>::const_iterator itFunc = funcs_.find(funcName);
-    if (itFunc == funcs_.cend()) {
+    // keeps the functor alive while it runs, even if it is unbound meanwhile
+    std::shared_ptr<AdaptorType> func;
+    {
+        std::lock_guard<std::mutex> lg(funcsMutex_);
+        auto itFunc = funcs_.find(funcName);
+        if (itFunc != funcs_.end()) {
+            func = itFunc->second;
+        }
+    }
+
+    if (!func) {
         return Response::MakeResponseWithError(
             callId,
             StringHelper::StringPrintf("Could not find function '%s' with argument count %d.", funcName.c_str(), args.via.array.size));
     }
 
     try {
-        auto result = (itFunc->second)(args);
+        auto result = (*func)(args);
         return Response::MakeResponseWithResult(callId, std::move(result));
     } catch (std::exception& e) {
         return Response::MakeResponseWithError(
@@ -278,6 +301,7 @@ void CallDispatcher::dispatchThreadProc() {
 }
 
 bool CallDispatcher::isFuncNameExist(std::string const& func) {
+    std::lock_guard<std::mutex> lg(funcsMutex_);
     auto pos = funcs_.find(func);
     if (pos != end(funcs_)) {
         return true;
diff --git a/src/veigar.cpp b/src/veigar.cpp
index 7817f51..08ea182 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -117,6 +117,7 @@ class Veigar::Impl {
         if (veigar_->callDisp_->isInit()) {
             veigar_->callDisp_->uninit();
         }
+        veigar_->callDisp_->unbindAll();
 
         assert(respDispatcher_);
         if (respDispatcher_) {
-- 
2.43.0


From b44f86636008d765187839b964a0a0f57e94dbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 12/19] fix: syncCall waits no longer than its timeout

The future of an async call is also valid when packing its arguments fails.
---
 include/veigar/veigar.h   |  2 ++
 include/veigar/veigar.inl | 13 ++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/veigar/veigar.h b/include/veigar/veigar.h
index a9ded89..4830326 100644
--- a/include/veigar/veigar.h
+++ b/include/veigar/veigar.h
@@ -11,6 +11,7 @@
 
 #include <string>
 #include <vector>
+#include <chrono>
 #include <future>
 #include <inttypes.h>
 #include "veigar/config.h"
@@ -83,6 +84,7 @@ class VEIGAR_API Veigar {
     //     when obtaining the 'CallResult' or when the call result is no longer related.
     void releaseCall(const std::string& callId);
 
+    // Wait up to 'timeoutMS' for the result.
     template <typename... Args>
     CallResult syncCall(
         const std::string& targetChannel,
diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index 90c2da0..6ca49d3 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -49,6 +49,15 @@ CallResult Veigar::syncCall(const std::string& targetChannel,
         return cr;
     }
 
+    if (acr->second.wait_for(std::chrono::milliseconds(timeoutMS)) != std::future_status::ready) {
+        releaseCall(acr->first);  // a late response is discarded
+
+        CallResult cr;
+        cr.errCode = ErrorCode::TIMEOUT;
+        cr.errorMessage = "Waiting for the call result timeout.";
+        return cr;
+    }
+
     CallResult callRet = acr->second.get();
 
     releaseCall(acr->first);
@@ -75,7 +84,7 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
     auto p = std::make_shared<std::promise<CallResult>>();
 
     try {
-        auto ft = p->get_future();
+        acr->second = p->get_future();
 
         std::string curChannelName = channelName();
         auto argsObj = std::make_tuple(args...);
@@ -99,8 +108,6 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
 
             p->set_value(std::move(failedRet));
         }
-
-        acr->second = std::move(ft);
     } catch (std::exception& e) {
         failedRet.errorMessage = e.what();
         p->set_value(std::move(failedRet));
-- 
2.43.0


From a5fa24cd2d934f429ecf34772729545de91e1167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 13/19] fix: uninit completes the calls that are still
 outstanding

Calls that were not sent yet or wait for their response end with FAILED, calls
made during or after uninit fail, and queued responses are released.
---
 include/veigar/call_result.h | 18 ++++++++++++++
 src/resp_dispatcher.cpp      | 14 ++++++++---
 src/sender.cpp               | 48 +++++++++++++++++++-----------------
 src/sender.h                 |  7 ++++--
 src/veigar.cpp               | 48 ++++++++++++++++++++++--------------
 5 files changed, 88 insertions(+), 47 deletions(-)

diff --git a/include/veigar/call_result.h b/include/veigar/call_result.h
index a3be805..79de7f3 100644
--- a/include/veigar/call_result.h
+++ b/include/veigar/call_result.h
@@ -77,6 +77,24 @@ struct ResultMeta {
     std::shared_ptr<std::promise<CallResult>> p;
     ResultCallback cb;
 };
+
+// Complete a call that has no response.
+inline void completeCall(const ResultMeta& retMeta, ErrorCode errCode, const std::string& errMsg) {
+    CallResult failedRet;
+    failedRet.errCode = errCode;
+    failedRet.errorMessage = errMsg;
+
+    if (retMeta.metaType == 0) {
+        if (retMeta.p) {
+            retMeta.p->set_value(std::move(failedRet));
+        }
+    }
+    else if (retMeta.metaType == 1) {
+        if (retMeta.cb) {
+            retMeta.cb(failedRet);
+        }
+    }
+}
 }  // namespace veigar
 
 #endif  // !VEIGAR_CALL_RESULT_H_
\ No newline at end of file
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 86c8615..addbd49 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -54,6 +54,16 @@ void RespDispatcher::uninit() {
         respMsgQueue_->notifyRead();
     }
 
+    // no response will be dispatched any more
+    std::unordered_map<std::string, ResultMeta> unfinishedCalls;
+    ongoingCallsMutex_.lock();
+    unfinishedCalls.swap(ongoingCalls_);
+    ongoingCallsMutex_.unlock();
+
+    for (auto& it : unfinishedCalls) {
+        completeCall(it.second, ErrorCode::FAILED, "The instance was uninitialized before the response was received.");
+    }
+
     for (std::thread& worker : workers_) {
         if (worker.joinable()) {
             worker.join();
@@ -65,10 +75,6 @@ void RespDispatcher::uninit() {
         respMsgQueue_.reset();
     }
 
-    ongoingCallsMutex_.lock();
-    ongoingCalls_.clear();
-    ongoingCallsMutex_.unlock();
-
     init_ = false;
 }
 
diff --git a/src/sender.cpp b/src/sender.cpp
index 2220ffa..443f6ae 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -78,20 +78,27 @@ void Sender::uninit() {
     targetRespMsgQueues_.clear();
     targetRespMQsMutex_.unlock();
 
-    // release all calls memory
+    // fail the calls that were never sent and release their memory
+    std::queue<CallMeta> unsentCalls;
     callListMutex_.lock();
-    while (!callList_.empty()) {
-        CallMeta cm = callList_.front();
+    callListClosed_ = true;
+    unsentCalls.swap(callList_);
+    callListMutex_.unlock();
+
+    while (!unsentCalls.empty()) {
+        CallMeta cm = unsentCalls.front();
+        unsentCalls.pop();
+
         if (cm.data) {
             free(cm.data);
         }
-        callList_.pop();
+        completeCall(cm.resultMeta, ErrorCode::FAILED, "The instance was uninitialized before the call was sent.");
     }
-    callListMutex_.unlock();
 
     // release all responses memory
     respListMutex_.lock();
-    while (!callList_.empty()) {
+    respListClosed_ = true;
+    while (!respList_.empty()) {
         RespMeta rm = respList_.front();
         if (rm.data) {
             free(rm.data);
@@ -111,20 +118,30 @@ bool Sender::isInit() const {
     return isInit_;
 }
 
-void Sender::addCall(const Sender::CallMeta& cm) {
+bool Sender::addCall(const Sender::CallMeta& cm) {
     callListMutex_.lock();
+    if (callListClosed_) {
+        callListMutex_.unlock();
+        return false;
+    }
     callList_.emplace(cm);
     callListMutex_.unlock();
 
     callListSetEvent_.set();
+    return true;
 }
 
-void Sender::addResp(const Sender::RespMeta& rm) {
+bool Sender::addResp(const Sender::RespMeta& rm) {
     respListMutex_.lock();
+    if (respListClosed_) {
+        respListMutex_.unlock();
+        return false;
+    }
     respList_.emplace(rm);
     respListMutex_.unlock();
 
     respListSetEvent_.set();
+    return true;
 }
 
 std::shared_ptr<MessageQueue> Sender::getTargetCallMessageQueue(const std::string& channelName) {
@@ -251,20 +268,7 @@ void Sender::sendCallThreadProc() {
             if (ec != ErrorCode::SUCCESS) {
                 respDisp_->releaseCall(cm.callId);
 
-                CallResult failedRet;
-                failedRet.errCode = ec;
-                failedRet.errorMessage = errMsg;
-
-                if (cm.resultMeta.metaType == 0) {
-                    if (cm.resultMeta.p) {
-                        cm.resultMeta.p->set_value(std::move(failedRet));
-                    }
-                }
-                else if (cm.resultMeta.metaType == 1) {
-                    if (cm.resultMeta.cb) {
-                        cm.resultMeta.cb(failedRet);
-                    }
-                }
+                completeCall(cm.resultMeta, ec, errMsg);
             }
 
             if (cm.data) {
diff --git a/src/sender.h b/src/sender.h
index 7a9ba67..841ca40 100644
--- a/src/sender.h
+++ b/src/sender.h
@@ -49,8 +49,9 @@ class Sender {
 
     bool isInit() const;
 
-    void addCall(const Sender::CallMeta& cm);
-    void addResp(const Sender::RespMeta& rm);
+    // Return false, and take nothing over, after uninit.
+    bool addCall(const Sender::CallMeta& cm);
+    bool addResp(const Sender::RespMeta& rm);
 
    private:
     std::shared_ptr<MessageQueue> getTargetCallMessageQueue(const std::string& channelName);
@@ -77,11 +78,13 @@ class Sender {
     std::shared_ptr<MessageQueue> selfRespMQ_ = nullptr;
 
     std::mutex callListMutex_;
+    bool callListClosed_ = false;
     std::queue<CallMeta> callList_;
     Event callListSetEvent_;
     std::vector<std::thread> callWorkers_;
 
     std::mutex respListMutex_;
+    bool respListClosed_ = false;
     std::queue<RespMeta> respList_;
     Event respListSetEvent_;
     std::vector<std::thread> respWorkers_;
diff --git a/src/veigar.cpp b/src/veigar.cpp
index 08ea182..595baab 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -50,8 +50,8 @@ class Veigar::Impl {
                 break;
             }
 
-            respDispatcher_ = std::make_shared<RespDispatcher>(veigar_);
-            sender_ = std::make_shared<Sender>(veigar_);
+            std::atomic_store(&respDispatcher_, std::make_shared<RespDispatcher>(veigar_));
+            std::atomic_store(&sender_, std::make_shared<Sender>(veigar_));
 
             assert(veigar_->callDisp_);
             if (!veigar_->callDisp_->init()) {
@@ -83,15 +83,15 @@ class Veigar::Impl {
                 respDispatcher_->uninit();
             }
 
-            if (sender_ && sender_->isInit()) {
+            if (sender_) {
                 sender_->uninit();
             }
 
             uuid_.clear();
             channelName_.clear();
 
-            sender_.reset();
-            respDispatcher_.reset();
+            std::atomic_store(&sender_, std::shared_ptr<Sender>());
+            std::atomic_store(&respDispatcher_, std::shared_ptr<RespDispatcher>());
         }
         else {
             veigar::log("Veigar: Init success, channel: %s, uuid: %s.\n", channelName_.c_str(), uuid_.c_str());
@@ -110,22 +110,23 @@ class Veigar::Impl {
             if (sender_->isInit()) {
                 sender_->uninit();
             }
-            sender_.reset();
+            std::atomic_store(&sender_, std::shared_ptr<Sender>());
         }
 
-        assert(veigar_ && veigar_->callDisp_);
-        if (veigar_->callDisp_->isInit()) {
-            veigar_->callDisp_->uninit();
-        }
-        veigar_->callDisp_->unbindAll();
-
+        // Before the call dispatcher: the functions running there may be waiting for the result of a call.
         assert(respDispatcher_);
         if (respDispatcher_) {
             if (respDispatcher_->isInit()) {
                 respDispatcher_->uninit();
             }
-            respDispatcher_.reset();
+            std::atomic_store(&respDispatcher_, std::shared_ptr<RespDispatcher>());
+        }
+
+        assert(veigar_ && veigar_->callDisp_);
+        if (veigar_->callDisp_->isInit()) {
+            veigar_->callDisp_->uninit();
         }
+        veigar_->callDisp_->unbindAll();
 
         isInit_ = false;
     }
@@ -252,7 +253,8 @@ bool Veigar::sendCall(const std::string& channelName,
     assert(impl_);
     assert(timeoutMS > impl_->processRWTimeout_ && "The call timeout should be greater than the timeout for acquiring the inter-process read-write lock.");
 
-    if (!impl_->sender_) {
+    std::shared_ptr<Sender> sender = std::atomic_load(&impl_->sender_);
+    if (!sender) {
         return false;
     }
 
@@ -274,7 +276,10 @@ bool Veigar::sendCall(const std::string& channelName,
     cm.timeout = (int64_t)timeoutMS * 1000;
     cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
-    impl_->sender_->addCall(cm);
+    if (!sender->addCall(cm)) {
+        free(cm.data);
+        return false;
+    }
 
     return true;
 }
@@ -284,7 +289,8 @@ bool Veigar::sendResponse(const std::string& targetChannel,
                           size_t bufSize,
                           std::string& errMsg) {
     assert(impl_);
-    if (!impl_->sender_) {
+    std::shared_ptr<Sender> sender = std::atomic_load(&impl_->sender_);
+    if (!sender) {
         return false;
     }
 
@@ -301,14 +307,18 @@ bool Veigar::sendResponse(const std::string& targetChannel,
     rm.timeout = VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT * 1000;
     rm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
-    impl_->sender_->addResp(rm);
+    if (!sender->addResp(rm)) {
+        free(rm.data);
+        return false;
+    }
 
     return true;
 }
 
 void Veigar::releaseCall(const std::string& callId) {
-    if (impl_->respDispatcher_) {
-        impl_->respDispatcher_->releaseCall(callId);
+    std::shared_ptr<RespDispatcher> respDispatcher = std::atomic_load(&impl_->respDispatcher_);
+    if (respDispatcher) {
+        respDispatcher->releaseCall(callId);
     }
 }
 
-- 
2.43.0


From 49731ffdc79564e23d856da8b055ad82d4e6336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 14/19] fix: opening a queue that is not there does not create
 its semaphores

---
 src/message_queue.cpp | 12 ++----------
 src/semaphore.cpp     | 30 +++++++++++++++++++++++++++---
 src/semaphore.h       |  3 +++
 3 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index def22ed..49250d5 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -93,22 +93,14 @@ bool MessageQueue::open(const std::string& path) {
         }
 
         std::string rwLockName = path + "_rwlock";
-        if (!Semaphore::IsExist(rwLockName)) {
-            break;
-        }
-
         rwLock_ = std::make_shared<Semaphore>();
-        if (!rwLock_->open(rwLockName.c_str())) {
+        if (!rwLock_->openExist(rwLockName)) {
             break;
         }
 
         std::string readSmpName = path + "_readsmp";
-        if (!Semaphore::IsExist(readSmpName)) {
-            break;
-        }
-
         readSmp_ = std::make_shared<Semaphore>();
-        if (!readSmp_->open(readSmpName)) {
+        if (!readSmp_->openExist(readSmpName)) {
             break;
         }
 
diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index 875e6a5..47eca01 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -21,13 +21,37 @@ bool Semaphore::IsExist(const std::string& name) {
     }
     return (h != NULL);
 #else
-    sem_t* sem = ::sem_open(name.c_str(), O_CREAT | O_EXCL);
+    sem_t* sem = ::sem_open(name.c_str(), 0);
     if (sem == SEM_FAILED) {
-        return true;
+        return false;
     }
     ::sem_close(sem);
-    return false;
+    return true;
+#endif
+}
+
+bool Semaphore::openExist(const std::string& name) {
+    assert(!name.empty());
+    assert(!valid());
+    if (name.empty())
+        return false;
+
+    close();
+
+#ifdef VEIGAR_OS_WINDOWS
+    HANDLE h = OpenSemaphoreA(SEMAPHORE_ALL_ACCESS, FALSE, name.c_str());
+    if (h) {
+        sh_ = new SemaphoreHandle();
+        sh_->h_ = h;
+    }
+#else
+    sem_t* sem = ::sem_open(name.c_str(), 0);
+    if (sem != SEM_FAILED) {
+        sh_ = new SemaphoreHandle();
+        sh_->named_ = sem;
+    }
 #endif
+    return valid();
 }
 
 bool Semaphore::open(const std::string& name, int value /*= 0*/, int maxValue /*= 2147483647*/) {
diff --git a/src/semaphore.h b/src/semaphore.h
index ec72dcf..ce47568 100644
--- a/src/semaphore.h
+++ b/src/semaphore.h
@@ -45,6 +45,9 @@ class Semaphore {
     // 
     // named semaphore used in synchronization among processes.
     bool open(const std::string& name, int value = 0, int maxValue = 2147483647);
+    // Unlike open, the semaphore must already exist.
+    bool openExist(const std::string& name);
+
     void close();
 
     bool valid() const;
-- 
2.43.0


From 2d7214ae7ef2d9a0c606f02f776e16fa5f8dd002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 15/19] fix: who opens a queue uses the capacity and message
 size of its owner

---
 src/message_queue.cpp | 58 +++++++++++++++++++++++++++++++++++--------
 src/message_queue.h   | 11 ++++++++
 src/shared_memory.cpp | 10 ++++++++
 3 files changed, 68 insertions(+), 11 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 49250d5..9983e32 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -16,6 +16,31 @@ MessageQueue::MessageQueue(int32_t msgMaxNumber, int32_t msgExpectedMaxSize) noe
     msgExpectedMaxSize_(msgExpectedMaxSize) {
 }
 
+int64_t MessageQueue::queueSize(int64_t msgMaxNumber, int64_t msgExpectedMaxSize) {
+    return sizeof(int64_t) * (msgMaxNumber + 3) + msgMaxNumber * msgExpectedMaxSize;
+}
+
+int64_t MessageQueue::infoOffset(int64_t queueSize) {
+    return (queueSize + 7) / 8 * 8;
+}
+
+MessageQueue::Info* MessageQueue::info() const {
+    uint8_t* const shmData = shm_ ? shm_->data() : nullptr;
+    if (!shmData) {
+        return nullptr;
+    }
+
+    const int64_t shmSize = *(int64_t*)shmData;
+    if (shmSize <= 0
+#ifndef VEIGAR_OS_WINDOWS
+        || infoOffset(shmSize) > shm_->size() - (int64_t)sizeof(Info)
+#endif
+    ) {
+        return nullptr;
+    }
+    return (Info*)(shmData + infoOffset(shmSize));
+}
+
 bool MessageQueue::create(const std::string& path) {
     bool result = false;
 
@@ -23,18 +48,27 @@ bool MessageQueue::create(const std::string& path) {
         assert(!shm_ && !rwLock_ && !readSmp_);
         close();
 
-        if (msgMaxNumber_ <= 0) {
+        if (msgMaxNumber_ <= 0 || msgExpectedMaxSize_ < 0) {
             break;
         }
 
-        int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
+        int64_t shmSize = queueSize(msgMaxNumber_, msgExpectedMaxSize_);
 
         std::string shmName = path + "_shm";
-        shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
+        shm_ = std::make_shared<SharedMemory>(shmName, infoOffset(shmSize) + (int64_t)sizeof(Info));
         if (!shm_->create()) {
             break;
         }
 
+        // Before the semaphores exist, so nobody who opens the queue sees it half made.
+        uint8_t* data = shm_->data();
+        memset(data, 0, (size_t)shmSize);
+        int64_t* pDataSize = (int64_t*)data;
+        *pDataSize = shmSize;
+
+        info()->msgMaxNumber = msgMaxNumber_;
+        info()->msgExpectedMaxSize = msgExpectedMaxSize_;
+
         std::string rwLockName = path + "_rwlock";
         rwLock_ = std::make_shared<Semaphore>();
         if (!rwLock_->open(rwLockName.c_str(), 1, 1)) {
@@ -47,11 +81,6 @@ bool MessageQueue::create(const std::string& path) {
             break;
         }
 
-        uint8_t* data = shm_->data();
-        memset(data, 0, (size_t)shmSize);
-        int64_t* pDataSize = (int64_t*)data;
-        *pDataSize = shmSize;
-
         result = true;
     } while (false);
 
@@ -85,9 +114,7 @@ bool MessageQueue::open(const std::string& path) {
         close();
 
         std::string shmName = path + "_shm";
-        int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
-
-        shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
+        shm_ = std::make_shared<SharedMemory>(shmName, 0);
         if (!shm_->open()) {
             break;
         }
@@ -104,6 +131,15 @@ bool MessageQueue::open(const std::string& path) {
             break;
         }
 
+        // The queue has the capacity and message size of its creator.
+        Info* const pInfo = info();
+        if (!pInfo || pInfo->msgMaxNumber <= 0 ||
+            queueSize(pInfo->msgMaxNumber, pInfo->msgExpectedMaxSize) != *(int64_t*)shm_->data()) {
+            break;
+        }
+        msgMaxNumber_ = (int32_t)pInfo->msgMaxNumber;
+        msgExpectedMaxSize_ = (int32_t)pInfo->msgExpectedMaxSize;
+
         result = true;
     } while (false);
 
diff --git a/src/message_queue.h b/src/message_queue.h
index e5dd93f..dfd2772 100644
--- a/src/message_queue.h
+++ b/src/message_queue.h
@@ -44,6 +44,17 @@ class MessageQueue {
 
     void notifyRead();
 
+   private:
+    // Stored behind the queue.
+    struct Info {
+        int64_t msgMaxNumber;
+        int64_t msgExpectedMaxSize;
+    };
+
+    static int64_t queueSize(int64_t msgMaxNumber, int64_t msgExpectedMaxSize);
+    static int64_t infoOffset(int64_t queueSize);
+    Info* info() const;
+
    private:
     int32_t msgMaxNumber_ = 0;
     int32_t msgExpectedMaxSize_ = 0;
diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 5707d40..4350119 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -190,6 +190,16 @@ bool SharedMemory::open() {
         return false;
     }
 
+    // the creator decides on the size
+    struct stat st;
+    if (fstat(fd_, &st) != 0 || st.st_size <= 0) {
+        veigar::log("Veigar: Error: fstat failed or the shared memory has no size yet.\n");
+        ::close(fd_);
+        fd_ = -1;
+        return false;
+    }
+    size_ = st.st_size;
+
     void* memory = mmap(nullptr,                 // addr
                         size_,                   // length
                         PROT_READ | PROT_WRITE,  // prot
-- 
2.43.0


From 094416afe0e32a1292e34557f55aa3f67ec284ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 16/19] fix: a channel's queues live and die with their owner

The owner removes the names of its semaphores as well as its shared memory, a new
owner starts with queues of its own whatever its predecessor left behind, and
peers that still have the old queues open notice and open the new ones.
---
 src/message_queue.cpp | 100 ++++++++++++++++++++++++------------------
 src/message_queue.h   |  16 ++++++-
 src/semaphore.cpp     |   6 +++
 src/semaphore.h       |   3 ++
 src/sender.cpp        |  64 +++++++++++++++++----------
 src/shared_memory.cpp |  10 +++++
 src/shared_memory.h   |   3 ++
 7 files changed, 134 insertions(+), 68 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 9983e32..25e63a1 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -16,6 +16,10 @@ MessageQueue::MessageQueue(int32_t msgMaxNumber, int32_t msgExpectedMaxSize) noe
     msgExpectedMaxSize_(msgExpectedMaxSize) {
 }
 
+MessageQueue::~MessageQueue() noexcept {
+    close();
+}
+
 int64_t MessageQueue::queueSize(int64_t msgMaxNumber, int64_t msgExpectedMaxSize) {
     return sizeof(int64_t) * (msgMaxNumber + 3) + msgMaxNumber * msgExpectedMaxSize;
 }
@@ -24,7 +28,7 @@ int64_t MessageQueue::infoOffset(int64_t queueSize) {
     return (queueSize + 7) / 8 * 8;
 }
 
-MessageQueue::Info* MessageQueue::info() const {
+MessageQueue::Info* MessageQueue::findInfo() const {
     uint8_t* const shmData = shm_ ? shm_->data() : nullptr;
     if (!shmData) {
         return nullptr;
@@ -41,6 +45,27 @@ MessageQueue::Info* MessageQueue::info() const {
     return (Info*)(shmData + infoOffset(shmSize));
 }
 
+bool MessageQueue::isClosed() const {
+    return !info_ || info_->closed.load() != 0;
+}
+
+void MessageQueue::removeStale(const std::string& path) {
+    MessageQueue stale(0, 0);
+    stale.shm_ = std::make_shared<SharedMemory>(path + "_shm", 0);
+    if (stale.shm_->open()) {
+        // tell those who still have it open
+        Info* const pInfo = stale.findInfo();
+        if (pInfo) {
+            pInfo->closed.store(1);
+        }
+        stale.shm_->unlink();
+    }
+    stale.close();
+
+    Semaphore::Unlink(path + "_rwlock");
+    Semaphore::Unlink(path + "_readsmp");
+}
+
 bool MessageQueue::create(const std::string& path) {
     bool result = false;
 
@@ -54,6 +79,10 @@ bool MessageQueue::create(const std::string& path) {
 
         int64_t shmSize = queueSize(msgMaxNumber_, msgExpectedMaxSize_);
 
+        path_ = path;
+        owner_ = true;
+        removeStale(path);
+
         std::string shmName = path + "_shm";
         shm_ = std::make_shared<SharedMemory>(shmName, infoOffset(shmSize) + (int64_t)sizeof(Info));
         if (!shm_->create()) {
@@ -66,8 +95,10 @@ bool MessageQueue::create(const std::string& path) {
         int64_t* pDataSize = (int64_t*)data;
         *pDataSize = shmSize;
 
-        info()->msgMaxNumber = msgMaxNumber_;
-        info()->msgExpectedMaxSize = msgExpectedMaxSize_;
+        info_ = findInfo();
+        info_->msgMaxNumber = msgMaxNumber_;
+        info_->msgExpectedMaxSize = msgExpectedMaxSize_;
+        info_->closed.store(0);
 
         std::string rwLockName = path + "_rwlock";
         rwLock_ = std::make_shared<Semaphore>();
@@ -85,23 +116,7 @@ bool MessageQueue::create(const std::string& path) {
     } while (false);
 
     if (!result) {
-        if (shm_) {
-            if (shm_->valid())
-                shm_->close();
-            shm_.reset();
-        }
-
-        if (rwLock_) {
-            if (rwLock_->valid())
-                rwLock_->close();
-            rwLock_.reset();
-        }
-
-        if (readSmp_) {
-            if (readSmp_->valid())
-                readSmp_->close();
-            readSmp_.reset();
-        }
+        close();
     }
 
     return result;
@@ -132,35 +147,25 @@ bool MessageQueue::open(const std::string& path) {
         }
 
         // The queue has the capacity and message size of its creator.
-        Info* const pInfo = info();
-        if (!pInfo || pInfo->msgMaxNumber <= 0 ||
-            queueSize(pInfo->msgMaxNumber, pInfo->msgExpectedMaxSize) != *(int64_t*)shm_->data()) {
+        info_ = findInfo();
+        if (!info_ || info_->msgMaxNumber <= 0 ||
+            queueSize(info_->msgMaxNumber, info_->msgExpectedMaxSize) != *(int64_t*)shm_->data()) {
+            break;
+        }
+
+        // the semaphores may be those of the next owner
+        if (isClosed()) {
             break;
         }
-        msgMaxNumber_ = (int32_t)pInfo->msgMaxNumber;
-        msgExpectedMaxSize_ = (int32_t)pInfo->msgExpectedMaxSize;
+
+        msgMaxNumber_ = (int32_t)info_->msgMaxNumber;
+        msgExpectedMaxSize_ = (int32_t)info_->msgExpectedMaxSize;
 
         result = true;
     } while (false);
 
     if (!result) {
-        if (shm_) {
-            if (shm_->valid())
-                shm_->close();
-            shm_.reset();
-        }
-
-        if (rwLock_) {
-            if (rwLock_->valid())
-                rwLock_->close();
-            rwLock_.reset();
-        }
-
-        if (readSmp_) {
-            if (readSmp_->valid())
-                readSmp_->close();
-            readSmp_.reset();
-        }
+        close();
     }
 
     return result;
@@ -406,6 +411,17 @@ bool MessageQueue::checkSpaceSufficient(int64_t dataSize, bool& waitable) const
 }
 
 void MessageQueue::close() {
+    if (owner_) {
+        // Before the names are free, so nobody takes this queue for the next owner's.
+        if (info_) {
+            info_->closed.store(1);
+        }
+        Semaphore::Unlink(path_ + "_rwlock");
+        Semaphore::Unlink(path_ + "_readsmp");
+        owner_ = false;
+    }
+    info_ = nullptr;
+
     if (shm_) {
         if (shm_->valid())
             shm_->close();
diff --git a/src/message_queue.h b/src/message_queue.h
index dfd2772..8190072 100644
--- a/src/message_queue.h
+++ b/src/message_queue.h
@@ -9,7 +9,9 @@
 #define VEIGAR_MESSAGE_QUEUE_
 #pragma once
 
+#include <atomic>
 #include <memory>
+#include <string>
 #include <inttypes.h>
 #include "shared_memory.h"
 #include "semaphore.h"
@@ -18,12 +20,15 @@ namespace veigar {
 class MessageQueue {
    public:
     MessageQueue(int32_t msgMaxNumber, int32_t msgExpectedMaxSize) noexcept;
-    ~MessageQueue() noexcept = default;
+    ~MessageQueue() noexcept;
 
     bool create(const std::string& path);
     bool open(const std::string& path);
     void close();
 
+    // The owner closed this queue, or another owner replaced it: nobody reads it any more.
+    bool isClosed() const;
+
     // Read/Write locker for multi processes.
     bool processRWLock(uint32_t timeoutMS);
     void processRWUnlock();
@@ -49,16 +54,23 @@ class MessageQueue {
     struct Info {
         int64_t msgMaxNumber;
         int64_t msgExpectedMaxSize;
+        std::atomic<int64_t> closed;
     };
 
     static int64_t queueSize(int64_t msgMaxNumber, int64_t msgExpectedMaxSize);
     static int64_t infoOffset(int64_t queueSize);
-    Info* info() const;
+    Info* findInfo() const;
+
+    // Remove what a previous owner left behind under this name.
+    static void removeStale(const std::string& path);
 
    private:
+    std::string path_;
+    bool owner_ = false;
     int32_t msgMaxNumber_ = 0;
     int32_t msgExpectedMaxSize_ = 0;
     std::shared_ptr<SharedMemory> shm_ = nullptr;
+    Info* info_ = nullptr;
     std::shared_ptr<Semaphore> rwLock_ = nullptr;
     std::shared_ptr<Semaphore> readSmp_ = nullptr;
 };
diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index 47eca01..dd0b723 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -30,6 +30,12 @@ bool Semaphore::IsExist(const std::string& name) {
 #endif
 }
 
+void Semaphore::Unlink(const std::string& name) {
+#ifndef VEIGAR_OS_WINDOWS
+    ::sem_unlink(name.c_str());
+#endif
+}
+
 bool Semaphore::openExist(const std::string& name) {
     assert(!name.empty());
     assert(!valid());
diff --git a/src/semaphore.h b/src/semaphore.h
index ce47568..6e57aff 100644
--- a/src/semaphore.h
+++ b/src/semaphore.h
@@ -41,6 +41,9 @@ class Semaphore {
 
     static bool IsExist(const std::string& name);
 
+    // Remove the name, whoever has the semaphore open keeps it.
+    static void Unlink(const std::string& name);
+
     // The semaphore will be created if it does not already exist.
     // 
     // named semaphore used in synchronization among processes.
diff --git a/src/sender.cpp b/src/sender.cpp
index 443f6ae..9b4d502 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -149,7 +149,10 @@ std::shared_ptr<MessageQueue> Sender::getTargetCallMessageQueue(const std::strin
     std::shared_ptr<MessageQueue> queue = nullptr;
     auto it = targetCallMsgQueues_.find(channelName);
     if (it != targetCallMsgQueues_.cend()) {
-        return it->second;
+        if (!it->second->isClosed()) {
+            return it->second;
+        }
+        targetCallMsgQueues_.erase(it);  // its owner is gone, there may be a new one
     }
 
     queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
@@ -168,7 +171,10 @@ std::shared_ptr<MessageQueue> Sender::getTargetRespMessageQueue(const std::strin
     std::shared_ptr<MessageQueue> queue = nullptr;
     auto it = targetRespMsgQueues_.find(channelName);
     if (it != targetRespMsgQueues_.cend()) {
-        return it->second;
+        if (!it->second->isClosed()) {
+            return it->second;
+        }
+        targetRespMsgQueues_.erase(it);  // its owner is gone, there may be a new one
     }
 
     queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
@@ -215,16 +221,19 @@ void Sender::sendCallThreadProc() {
             try {
                 errMsg.clear();
 
-                if (cm.channel == veigar_->channelName()) {
-                    mq = selfCallMQ_;
-                }
-                else {
-                    mq = getTargetCallMessageQueue(cm.channel);
-                }
+                const bool self = (cm.channel == veigar_->channelName());
+                while (true) {
+                    mq = self ? selfCallMQ_ : getTargetCallMessageQueue(cm.channel);
+                    if (!mq) {
+                        errMsg = "Unable to get target message queue. It seems that the channel not started.";
+                        break;
+                    }
 
-                if (mq) {
                     if ((locked = mq->processRWLock(veigar_->timeoutOfRWLock()))) {
-                        if (checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout, locked)) {
+                        if (!self && mq->isClosed()) {
+                            errMsg = "The target channel was closed.";
+                        }
+                        else if (checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout, locked)) {
                             if (mq->pushBack(cm.data, cm.dataSize)) {
                                 mq->notifyRead();
                                 ec = ErrorCode::SUCCESS;
@@ -246,9 +255,11 @@ void Sender::sendCallThreadProc() {
                         ec = ErrorCode::TIMEOUT;
                         errMsg = "Get rw-lock timeout when push call.";
                     }
-                }
-                else {
-                    errMsg = "Unable to get target message queue. It seems that the channel not started.";
+
+                    if (ec == ErrorCode::SUCCESS || self || !mq->isClosed() || stopEvent_.isSet()) {
+                        break;
+                    }
+                    ec = ErrorCode::FAILED;  // unless there is a new owner
                 }
 
             } catch (std::exception& e) {
@@ -309,16 +320,19 @@ void Sender::sendRespThreadProc() {
             try {
                 errMsg.clear();
 
-                if (rm.channel == veigar_->channelName()) {
-                    mq = selfRespMQ_;
-                }
-                else {
-                    mq = getTargetRespMessageQueue(rm.channel);
-                }
+                const bool self = (rm.channel == veigar_->channelName());
+                while (true) {
+                    mq = self ? selfRespMQ_ : getTargetRespMessageQueue(rm.channel);
+                    if (!mq) {
+                        errMsg = "Unable to get target message queue. It seems that the channel not started.";
+                        break;
+                    }
 
-                if (mq) {
                     if ((locked = mq->processRWLock(veigar_->timeoutOfRWLock()))) {
-                        if (checkSpaceAndWait(mq, rm.dataSize, rm.startCallTimePoint, rm.timeout, locked)) {
+                        if (!self && mq->isClosed()) {
+                            errMsg = "The target channel was closed.";
+                        }
+                        else if (checkSpaceAndWait(mq, rm.dataSize, rm.startCallTimePoint, rm.timeout, locked)) {
                             if (mq->pushBack(rm.data, rm.dataSize)) {
                                 mq->notifyRead();
                                 ec = ErrorCode::SUCCESS;
@@ -340,9 +354,11 @@ void Sender::sendRespThreadProc() {
                         ec = ErrorCode::TIMEOUT;
                         errMsg = "Get rw-lock timeout when push response.";
                     }
-                }
-                else {
-                    errMsg = "Unable to get target message queue. It seems that the channel not started.";
+
+                    if (ec == ErrorCode::SUCCESS || self || !mq->isClosed() || stopEvent_.isSet()) {
+                        break;
+                    }
+                    ec = ErrorCode::FAILED;  // unless there is a new owner
                 }
 
             } catch (std::exception& e) {
diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 4350119..b66ca47 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -79,6 +79,10 @@ void SharedMemory::close() {
     }
 }
 
+void SharedMemory::unlink() {
+    // goes away with its last handle
+}
+
 bool SharedMemory::create() {
     assert(!valid());
     close();
@@ -229,6 +233,12 @@ bool SharedMemory::open() {
     return true;
 }
 
+void SharedMemory::unlink() {
+    if (!path_.empty()) {
+        shm_unlink(path_.c_str());
+    }
+}
+
 bool SharedMemory::valid() const {
     return fd_ != -1;
 }
diff --git a/src/shared_memory.h b/src/shared_memory.h
index a62b9a6..65cb773 100644
--- a/src/shared_memory.h
+++ b/src/shared_memory.h
@@ -28,6 +28,9 @@ class SharedMemory {
 
     bool create();
     bool open();
+
+    // Remove the name, whoever has the shared memory open keeps it.
+    void unlink();
     bool valid() const;
     void close();
 
-- 
2.43.0


From a125d6d21618c0ea1090c1a4517a8009c9ef7d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 17/19] fix: a call that failed to be sent is not completed
 again after a response completed it

---
 src/resp_dispatcher.cpp | 8 +++++---
 src/resp_dispatcher.h   | 3 ++-
 src/sender.cpp          | 7 ++++---
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index addbd49..4a95033 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -247,11 +247,13 @@ void RespDispatcher::addOngoingCall(const std::string& callId, const ResultMeta&
     ongoingCallsMutex_.unlock();
 }
 
-void RespDispatcher::releaseCall(const std::string& callId) {
+bool RespDispatcher::releaseCall(const std::string& callId) {
     std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
     auto it = ongoingCalls_.find(callId);
-    if (it != ongoingCalls_.cend()) {
-        ongoingCalls_.erase(it);
+    if (it == ongoingCalls_.cend()) {
+        return false;
     }
+    ongoingCalls_.erase(it);
+    return true;
 }
 }  // namespace veigar
\ No newline at end of file
diff --git a/src/resp_dispatcher.h b/src/resp_dispatcher.h
index 5760a68..c4bdd37 100644
--- a/src/resp_dispatcher.h
+++ b/src/resp_dispatcher.h
@@ -38,7 +38,8 @@ class RespDispatcher {
     std::shared_ptr<MessageQueue> messageQueue();
 
     void addOngoingCall(const std::string& callId, const ResultMeta& retMeta);
-    void releaseCall(const std::string& callId);
+    // returns false if the call is not ongoing (any more)
+    bool releaseCall(const std::string& callId);
 
    private:
     void dispatchRespThreadProc();
diff --git a/src/sender.cpp b/src/sender.cpp
index 9b4d502..d210613 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -277,9 +277,10 @@ void Sender::sendCallThreadProc() {
             }
 
             if (ec != ErrorCode::SUCCESS) {
-                respDisp_->releaseCall(cm.callId);
-
-                completeCall(cm.resultMeta, ec, errMsg);
+                // unless a response with this call's id has completed it, or the user has released it
+                if (respDisp_->releaseCall(cm.callId)) {
+                    completeCall(cm.resultMeta, ec, errMsg);
+                }
             }
 
             if (cm.data) {
-- 
2.43.0


From fba76f8a66c21878e3abe260afc184fa8d70292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 18/19] fix: isInit() while another thread uninitialises was a
 data race

---
 src/veigar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index 595baab..cc91098 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -132,7 +132,7 @@ class Veigar::Impl {
     }
 
     Veigar* veigar_ = nullptr;
-    bool isInit_ = false;
+    std::atomic<bool> isInit_ = { false };
     uint32_t msgQueueCapacity_ = 0;
     uint32_t expectedMsgMaxSize_ = 0;
 
-- 
2.43.0


From fc8bb6c4e7cfa4e2afb20425156cd7fd9301f218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 19/19] fix: a call or reply waiting for room held up those
 behind it although other senders were idle

---
 src/sender.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sender.cpp b/src/sender.cpp
index d210613..56140ad 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -211,8 +211,13 @@ void Sender::sendCallThreadProc() {
             }
             cm = callList_.front();
             callList_.pop();
+            const bool more = !callList_.empty();
             callListMutex_.unlock();
 
+            if (more) {
+                callListSetEvent_.set();  // sending this one may take long, let another thread send the next
+            }
+
             respDisp_->addOngoingCall(cm.callId, cm.resultMeta);
 
             ErrorCode ec = ErrorCode::FAILED;
@@ -313,8 +318,13 @@ void Sender::sendRespThreadProc() {
             }
             rm = respList_.front();
             respList_.pop();
+            const bool more = !respList_.empty();
             respListMutex_.unlock();
 
+            if (more) {
+                respListSetEvent_.set();  // sending this one may take long, let another thread send the next
+            }
+
             ErrorCode ec = ErrorCode::FAILED;
             std::shared_ptr<MessageQueue> mq = nullptr;
             bool locked = false;
-- 
2.43.0

