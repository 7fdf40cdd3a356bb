From 3b808317dd38826a993d83962ef2e3a82166ffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:15 +0000
Subject: [PATCH 01/25] fix: moving from an empty ForwardList left the new list
 linked to the source

The move constructor copied the last link as is. For an empty list it
points at the list's own first pointer, so the new list kept pointing
into the source and its next append was lost.
---
 src/mg/box/ForwardList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/box/ForwardList.h b/src/mg/box/ForwardList.h
index 0331f99..6dc2547 100644
--- a/src/mg/box/ForwardList.h
+++ b/src/mg/box/ForwardList.h
@@ -211,7 +211,7 @@ namespace box {
 	ForwardList<T, myLink>::ForwardList(
 		ForwardList&& aList)
 		: myFirst(aList.myFirst)
-		, myLastLink(aList.myLastLink)
+		, myLastLink(aList.myFirst != nullptr ? aList.myLastLink : &myFirst)
 	{
 		aList.Clear();
 	}
-- 
2.43.0


From f921df7e0cc3dbff8e2582c18d6b3b7ac2b0d129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:54 +0000
Subject: [PATCH 02/25] fix: moving a shared pointer onto another one of the
 same object leaked a reference

---
 src/mg/box/SharedPtr.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mg/box/SharedPtr.h b/src/mg/box/SharedPtr.h
index 6bae606..d4c1bc9 100644
--- a/src/mg/box/SharedPtr.h
+++ b/src/mg/box/SharedPtr.h
@@ -219,6 +219,8 @@ protected:																					\
 	SharedPtrIntrusive<T>::operator=(
 		SharedPtrIntrusive&& aOther)
 	{
+		if (this == &aOther)
+			return *this;
 		// Can't decrement the old pointer right away. Because it can happen that source
 		// and destination pointers are related. For example, in a linked list.
 		//
@@ -233,8 +235,7 @@ protected:																					\
 		T* newObj = aOther.myObject;
 		aOther.myObject = nullptr;
 		myObject = newObj;
-		if (newObj != oldObj)
-			PrivUnref(oldObj);
+		PrivUnref(oldObj);
 		return *this;
 	}
 
@@ -249,8 +250,7 @@ protected:																					\
 		T* newObj = aOther.myObject;
 		aOther.myObject = nullptr;
 		myObject = newObj;
-		if (newObj != oldObj)
-			PrivUnref(oldObj);
+		PrivUnref(oldObj);
 		return *this;
 	}
 
-- 
2.43.0


From 9899d2b7d322e210ed3e8dc871733f6b92e2b2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:06 +0000
Subject: [PATCH 03/25] fix: dropping a reference did not order the object's
 usage before its deletion

---
 src/mg/box/RefCount.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/box/RefCount.h b/src/mg/box/RefCount.h
index 7728bc9..09aea6d 100644
--- a/src/mg/box/RefCount.h
+++ b/src/mg/box/RefCount.h
@@ -57,7 +57,9 @@ namespace box {
 	inline bool
 	RefCount::Dec()
 	{
-		int32_t newValue = myCount.DecrementFetchRelaxed();
+		// Everything done with the object before dropping a reference must happen before
+		// its destruction by whoever drops the last one.
+		int32_t newValue = myCount.DecrementFetchAcqRel();
 		MG_DEV_ASSERT(newValue >= 0);
 		return newValue == 0;
 	}
-- 
2.43.0


From 023116a8aa8d3de71df3f102671b3f79083da420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:31 +0000
Subject: [PATCH 04/25] fix: infinite timeout of a condition variable wait
 expired at once

---
 src/mg/box/ConditionVariable.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mg/box/ConditionVariable.cpp b/src/mg/box/ConditionVariable.cpp
index 7f20b11..ef116a1 100644
--- a/src/mg/box/ConditionVariable.cpp
+++ b/src/mg/box/ConditionVariable.cpp
@@ -35,8 +35,19 @@ namespace box {
 		aMutex.myCount = 0;
 
 		uint64_t timeout = aTimeLimit.ToDurationFromNow().myValue;
-		bool ok = myHandle.wait_for(aMutex.myHandle,
-			std::chrono::milliseconds(timeout)) != std::cv_status::timeout;
+		bool ok = true;
+		// Timeouts like infinity don't fit into the time types of the standard
+		// library and there would turn into the past.
+		constexpr uint64_t maxTimeout = 1000ULL * 60 * 60 * 24 * 365 * 100;
+		if (timeout < maxTimeout)
+		{
+			ok = myHandle.wait_for(aMutex.myHandle,
+				std::chrono::milliseconds(timeout)) != std::cv_status::timeout;
+		}
+		else
+		{
+			myHandle.wait(aMutex.myHandle);
+		}
 
 		MG_BOX_ASSERT(aMutex.myOwner == 0);
 		MG_BOX_ASSERT(aMutex.myCount == 0);
-- 
2.43.0


From 0e1560ca3de824a1d79dfecf417a568f24398b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:24 +0000
Subject: [PATCH 05/25] fix: data of a repeated signal could be invisible to
 the receiver

---
 src/mg/box/Signal.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mg/box/Signal.cpp b/src/mg/box/Signal.cpp
index a48b17b..d775dbc 100644
--- a/src/mg/box/Signal.cpp
+++ b/src/mg/box/Signal.cpp
@@ -30,7 +30,13 @@ namespace box {
 		// condition variable is signaled by another thread. That
 		// is one of the key features of Signal - lock-free signal
 		// re-send if it is not consumed yet.
-		if (!myState.CmpExchgStrongRelease(oldState, SIGNAL_STATE_PROBE))
+		//
+		// Still the state has to be written even if doesn't change -
+		// the receiver must see everything done before this send too,
+		// not only what was done before the first one.
+		while (!myState.CmpExchgWeakRelease(oldState,
+			oldState == SIGNAL_STATE_EMPTY ? SIGNAL_STATE_PROBE : oldState));
+		if (oldState != SIGNAL_STATE_EMPTY)
 			return;
 
 		// The signal must be done under a lock. Consider how the
-- 
2.43.0


From b59b43df1b8752b2f15fc094bee8eb1d14334a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:09 +0000
Subject: [PATCH 06/25] hook: size of the copy buffers can be reduced for
 verification

---
 src/mg/net/Buffer.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mg/net/Buffer.h b/src/mg/net/Buffer.h
index f58d5f7..2b47e4a 100755
--- a/src/mg/net/Buffer.h
+++ b/src/mg/net/Buffer.h
@@ -74,7 +74,12 @@ namespace net {
 #pragma warning(disable: 26495)
 #endif
 
+#ifdef MG_VX_BUFFER_COPY_SIZE
+	// The verification makes the buffers small.
+	static constexpr uint64_t theBufferCopySize = MG_VX_BUFFER_COPY_SIZE;
+#else
 	static constexpr uint64_t theBufferCopySize = 1024 - sizeof(Buffer);
+#endif
 
 	// Data should be copied in there. Use when the original data is going to be changed
 	// or deleted before it is sent to network. Otherwise can be used for receiving new
@@ -94,7 +99,9 @@ namespace net {
 		uint8_t myCopyData[theBufferCopySize];
 	};
 
+#ifndef MG_VX_BUFFER_COPY_SIZE
 	static_assert(sizeof(BufferCopy) == 1024, "BufferCopy should be 1KB");
+#endif
 
 #if IS_COMPILER_MSVC
 #pragma warning(pop)
-- 
2.43.0


From 8b80a473c82b1cd39c2e405b984074f2623950e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:23 +0000
Subject: [PATCH 07/25] fix: propagating the write position of a stream by zero
 broke the stream

---
 src/mg/net/Buffer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index 682760e..5c0e563 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -139,6 +139,8 @@ namespace net {
 	BufferStream::PropagateWritePos(
 		uint64_t aSize)
 	{
+		if (aSize == 0)
+			return;
 		MG_DEV_ASSERT(myWSize >= aSize);
 		myWPos = BuffersPropagateOnWrite(myWPos, aSize);
 		myWSize -= aSize;
-- 
2.43.0


From cd918f01f15718554227e83a656e03e0c94a9940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:46 +0000
Subject: [PATCH 08/25] fix: writing into a stream with several reserved
 buffers made a hole in it

---
 src/mg/net/Buffer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index 5c0e563..e2674a4 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -198,17 +198,23 @@ namespace net {
 			}
 			memcpy(myWPos->myWData + myWPos->myPos, aData, cap);
 			myWPos->myPos = myWPos->myCapacity;
+			myWSize -= cap;
 			if (cap == aSize)
 			{
 				myREnd = myWPos;
-				myWPos = nullptr;
-				myWSize = 0;
+				// There can be more buffers reserved.
+				myWPos = myWPos->myNext.GetPointer();
 				PrivCheck();
 				return;
 			}
 			aData = (const uint8_t*)aData + cap;
 			aSize -= cap;
 			MG_DEV_ASSERT(myHead.IsSet());
+			if (myWPos->myNext.IsSet())
+			{
+				myWPos = myWPos->myNext.GetPointer();
+				continue;
+			}
 			MG_DEV_ASSERT(myTail->myPos == myTail->myCapacity);
 			myTail = (myTail->myNext = BufferCopy::NewShared()).GetPointer();
 			myWPos = myTail;
-- 
2.43.0


From 2cdddb0737efe2bdab4201c9d143f90652d4a9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 09/25] fix: scheduler could be considered empty while a worker
 was starting the last task

---
 src/mg/sch/TaskScheduler.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index e19518d..e0d5197 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -49,6 +49,14 @@ namespace sch {
 	TaskScheduler::IsEmpty()
 	{
 		PrivSchedulerLock();
+		// The ready tasks must be checked before the workers. Otherwise a worker, already
+		// seen as idle, could take the last ready task before this queue is checked. New
+		// ready tasks won't appear, because it is done only under the lock.
+		if (myQueueReady.Count() != 0)
+		{
+			PrivSchedulerUnlock();
+			return false;
+		}
 		for (TaskSchedulerThread* worker : myThreads)
 		{
 			// It is important to check the worker states. Even if all the queues are
@@ -64,8 +72,7 @@ namespace sch {
 		bool isEmpty =
 			myQueueFront.IsEmpty() &&
 			myQueueWaiting.Count() == 0 &&
-			myQueuePending.IsEmpty() &&
-			myQueueReady.Count() == 0;
+			myQueuePending.IsEmpty();
 		PrivSchedulerUnlock();
 		return isEmpty;
 	}
-- 
2.43.0


From 5f2374a1a346158cd9b596b3d1a1158f5fa99a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 10/25] fix: scheduler with the batch size 1 never executed
 anything

---
 src/mg/sch/TaskScheduler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index e0d5197..a196e13 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -176,7 +176,7 @@ namespace sch {
 		// the front queue, so must be handled first.
 
 		batch = 0;
-		while (myQueueWaiting.Count() > 0 && ++batch < maxBatch)
+		while (myQueueWaiting.Count() > 0 && batch++ < maxBatch)
 		{
 			t = myQueueWaiting.GetTop();
 			if (t->myDeadline > timestamp)
@@ -221,7 +221,7 @@ namespace sch {
 		t = myQueueFront.PopAll(tail);
 		myQueuePending.Append(t, tail);
 		batch = 0;
-		while (!myQueuePending.IsEmpty() && ++batch < maxBatch)
+		while (!myQueuePending.IsEmpty() && batch++ < maxBatch)
 		{
 			t = myQueuePending.PopFirst();
 			t->myNext = nullptr;
-- 
2.43.0


From bf581efc301c162bb6485adeb3feb8d083831063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:43 +0000
Subject: [PATCH 11/25] fix: skipping an empty prefix of a list of links broke
 the chains shared with others

---
 src/mg/net/Buffer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index e2674a4..2f129fe 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -82,7 +82,9 @@ namespace net {
 					MG_DEV_ASSERT(aByteOffset == head->myPos);
 					aByteOffset = 0;
 				}
-				head = std::move(head->myNext);
+				// Do not alter the buffer members. The buffers can be shared by multiple
+				// links. Alteration here would break the other links.
+				head.Set(head->myNext.GetPointer());
 			}
 			link = link->myNext;
 			delete myLinks.PopFirst();
-- 
2.43.0


From 3dbaee45159264995b4c86af9083279c4f97c216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:58 +0000
Subject: [PATCH 12/25] fix: URL without a protocol and with '://' in the
 target was split wrongly

---
 src/mg/net/URL.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/URL.cpp b/src/mg/net/URL.cpp
index 2e01427..6007c3f 100644
--- a/src/mg/net/URL.cpp
+++ b/src/mg/net/URL.cpp
@@ -17,7 +17,8 @@ namespace net {
 		URL res;
 		std::string str(aStr);
 		size_t pos = str.find("://");
-		if (pos != std::string::npos)
+		// The protocol can't contain '/'. Then this "://" is inside of the target.
+		if (pos != std::string::npos && pos < str.find('/'))
 		{
 			res.myProtocol = str.substr(0, pos);
 			str = str.substr(pos + 3);
-- 
2.43.0


From 7940c07bd7e8b8fcab7a664703988d555e5829c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:15 +0000
Subject: [PATCH 13/25] fix: no-delay option of sockets was inverted

---
 src/mg/net/Socket_Unix.cpp | 2 +-
 src/mg/net/Socket_Win.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/net/Socket_Unix.cpp b/src/mg/net/Socket_Unix.cpp
index f6892d9..0b212a7 100755
--- a/src/mg/net/Socket_Unix.cpp
+++ b/src/mg/net/Socket_Unix.cpp
@@ -196,7 +196,7 @@ namespace net {
 		bool aValue,
 		mg::box::Error::Ptr& aOutErr)
 	{
-		int optValue = aValue ? 0 : 1;
+		int optValue = aValue ? 1 : 0;
 		bool ok = setsockopt(aSock, IPPROTO_TCP, TCP_NODELAY,
 			&optValue, sizeof(optValue)) == 0;
 		if (!ok)
diff --git a/src/mg/net/Socket_Win.cpp b/src/mg/net/Socket_Win.cpp
index fc2be1a..9d6b11a 100755
--- a/src/mg/net/Socket_Win.cpp
+++ b/src/mg/net/Socket_Win.cpp
@@ -92,7 +92,7 @@ namespace net {
 		bool aValue,
 		mg::box::Error::Ptr& aOutErr)
 	{
-		int value = aValue ? 0 : 1;
+		int value = aValue ? 1 : 0;
 		bool ok = setsockopt(aSock, IPPROTO_TCP, TCP_NODELAY,
 			(const char*)&value, sizeof(value)) == 0;
 		if (!ok)
-- 
2.43.0


From abc2530e44dd80fc5fdc03e34a7093f34e0491e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:17 +0000
Subject: [PATCH 14/25] fix: error of an async connect was replaced or lost in
 sync sockets

---
 src/mg/sio/Socket_Unix.cpp | 2 +-
 src/mg/sio/Socket_Win.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/sio/Socket_Unix.cpp b/src/mg/sio/Socket_Unix.cpp
index 1a6bb15..cdbef8c 100755
--- a/src/mg/sio/Socket_Unix.cpp
+++ b/src/mg/sio/Socket_Unix.cpp
@@ -128,7 +128,7 @@ namespace sio {
 		MG_DEV_ASSERT(rc == 1);
 		if (fd.revents == POLLOUT)
 			return true;
-		if (!mg::net::SocketCheckState(aSock, aOutErr))
+		if (mg::net::SocketCheckState(aSock, aOutErr))
 			aOutErr = mg::box::ErrorRaise(mg::box::ERR_NET_ABORTED, "async connect");
 		return false;
 	}
diff --git a/src/mg/sio/Socket_Win.cpp b/src/mg/sio/Socket_Win.cpp
index 6bf0d26..3c9587b 100755
--- a/src/mg/sio/Socket_Win.cpp
+++ b/src/mg/sio/Socket_Win.cpp
@@ -114,7 +114,7 @@ namespace sio {
 		if (FD_ISSET(aSock, &writeSet))
 			return true;
 		MG_BOX_ASSERT(FD_ISSET(aSock, &errSet));
-		if (!mg::net::SocketCheckState(aSock, aOutErr))
+		if (mg::net::SocketCheckState(aSock, aOutErr))
 			aOutErr = mg::box::ErrorRaise(mg::box::ERR_NET_ABORTED, "async connect");
 		return false;
 	}
-- 
2.43.0


From cdb1840bdadef03723fbc96ffbfbeb488f27d72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:38 +0000
Subject: [PATCH 15/25] fix: sending empty data via a sync socket crashed

---
 src/mg/sio/TCPSocket.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/sio/TCPSocket.cpp b/src/mg/sio/TCPSocket.cpp
index ec8f65f..d9d4cdc 100644
--- a/src/mg/sio/TCPSocket.cpp
+++ b/src/mg/sio/TCPSocket.cpp
@@ -166,6 +166,8 @@ namespace sio {
 		mg::box::Error::Ptr& aOutErr)
 	{
 		MG_DEV_ASSERT(myState == TCP_SOCKET_STATE_CONNECTED);
+		// Empty buffers can't be sent.
+		myOutput.SkipEmptyPrefix(mySendOffset);
 		if (myOutput.IsEmpty())
 			return true;
 		int64_t rc = SocketSend(mySocket, myOutput, mySendOffset, aOutErr);
-- 
2.43.0


From 8cb0ee2bd6564250419af21859153d54aa067368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:49 +0000
Subject: [PATCH 16/25] fix: shutdown of a wrapped socket was lost if posted
 before the first execution

---
 src/mg/aio/TCPSocketCtl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mg/aio/TCPSocketCtl.cpp b/src/mg/aio/TCPSocketCtl.cpp
index 278a8f2..4917ecb 100644
--- a/src/mg/aio/TCPSocketCtl.cpp
+++ b/src/mg/aio/TCPSocketCtl.cpp
@@ -207,7 +207,8 @@ namespace aio {
 	{
 		MG_BOX_ASSERT(myHasShutdown);
 		// Shutdown on a non-connected socket simply does not work. Wait to kill it later.
-		if (myHasConnect)
+		// The same when the socket is not attached to the task yet.
+		if (myHasConnect || myHasAttach)
 			return true;
 		
 		mg::net::Socket sock = myTask->GetSocket();
@@ -314,6 +315,11 @@ namespace aio {
 		myTask->AttachSocket(myAttachSocket);
 		myAttachSocket = mg::net::theInvalidSocket;
 		PrivStartHandshake();
+		if (myHasShutdown)
+		{
+			// Same as in connect - let the waiting shutdown be done in the next round.
+			myTask->Reschedule();
+		}
 	}
 
 	bool
-- 
2.43.0


From e4a033124c44c349ae7701a923a7502af76ebcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:09 +0000
Subject: [PATCH 17/25] fix: connect of an empty task socket crashed when a
 shutdown was requested just before

---
 src/mg/aio/TCPSocketCtl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mg/aio/TCPSocketCtl.cpp b/src/mg/aio/TCPSocketCtl.cpp
index 4917ecb..9034e48 100644
--- a/src/mg/aio/TCPSocketCtl.cpp
+++ b/src/mg/aio/TCPSocketCtl.cpp
@@ -130,11 +130,12 @@ namespace aio {
 	TCPSocketCtl::AddConnect(
 		const TCPSocketCtlConnectParams& aParams)
 	{
-		// Connect or attach are mutually exclusive and are always the first ctl. Shutdown
-		// couldn't be requested before them.
+		// Connect or attach are mutually exclusive.
 		MG_BOX_ASSERT(!myHasConnect);
 		MG_BOX_ASSERT(!myHasAttach);
-		MG_BOX_ASSERT(!myHasShutdown);
+		// Shutdown could be requested while the socket was still an empty task. There was
+		// nothing to shutdown then, and it must not affect the new connection.
+		myHasShutdown = false;
 		MG_BOX_ASSERT(myConnectSocket == mg::net::theInvalidSocket);
 		MG_BOX_ASSERT(myConnectDomain == nullptr);
 		MG_BOX_ASSERT(!myConnectIsStarted);
-- 
2.43.0


From 060255cc37fc55b9f1b7ab4e53bb00b285fcd692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:34 +0000
Subject: [PATCH 18/25] fix: the second close of a listening TCP server crashed
 while the first one was in progress

---
 src/mg/aio/TCPServer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/aio/TCPServer.cpp b/src/mg/aio/TCPServer.cpp
index 8929b2c..e628125 100644
--- a/src/mg/aio/TCPServer.cpp
+++ b/src/mg/aio/TCPServer.cpp
@@ -50,6 +50,8 @@ namespace aio {
 	TCPServer::PostClose()
 	{
 		mg::box::MutexLock lock(myMutex);
+		if (myState >= TCP_SERVER_STATE_CLOSING)
+			return;
 		if (myState == TCP_SERVER_STATE_LISTENING)
 		{
 			myState = TCP_SERVER_STATE_CLOSING;
-- 
2.43.0


From 151ec9e7c637d896a1aa09883ee3b992a3ca8012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:55 +0000
Subject: [PATCH 19/25] fix: a close notification from the remote host during
 an SSL handshake crashed the process

---
 src/mg/net/SSLStreamOpenSSL.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mg/net/SSLStreamOpenSSL.cpp b/src/mg/net/SSLStreamOpenSSL.cpp
index 84e6b21..f5eeca3 100644
--- a/src/mg/net/SSLStreamOpenSSL.cpp
+++ b/src/mg/net/SSLStreamOpenSSL.cpp
@@ -217,7 +217,10 @@ namespace net {
 		// explicitly to notice the handshake end and react to it.
 		int rc = SSL_do_handshake(mySSL);
 		if (rc != 1)
-			return PrivCheckError(rc);
+		{
+			// The remote host might close the connection before the handshake is over.
+			return PrivCheckError(rc) && !IsClosingOrClosed();
+		}
 		PrivSetState(SSL_STREAM_OPENSSL_STATE_CONNECTED);
 		return true;
 	}
@@ -251,7 +254,7 @@ namespace net {
 		int rc = SSL_write_ex(mySSL, aData, aSize, &outSize);
 		if (rc != 1)
 		{
-			if (!PrivCheckError(rc))
+			if (!PrivCheckError(rc) || IsClosingOrClosed())
 				return -1;
 			return 0;
 		}
-- 
2.43.0


From b4c378dbac572b79b4711caaf25236c2861f40fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:55 +0000
Subject: [PATCH 20/25] fix: shutdown of an already closed SSL stream crashed

---
 src/mg/net/SSLStreamOpenSSL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/net/SSLStreamOpenSSL.cpp b/src/mg/net/SSLStreamOpenSSL.cpp
index f5eeca3..1f68b03 100644
--- a/src/mg/net/SSLStreamOpenSSL.cpp
+++ b/src/mg/net/SSLStreamOpenSSL.cpp
@@ -65,7 +65,7 @@ namespace net {
 			PrivSetState(SSL_STREAM_OPENSSL_STATE_CLOSED);
 			return;
 		}
-		if (myState == SSL_STREAM_OPENSSL_STATE_CLOSING)
+		if (IsClosingOrClosed())
 			return;
 		MG_BOX_ASSERT(
 			myState == SSL_STREAM_OPENSSL_STATE_CONNECTING ||
-- 
2.43.0


From b6294d374f8fbabfa6267cacc8d01346d8e826e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:24 +0000
Subject: [PATCH 21/25] fix: data decrypted by an SSL stream right before an
 error was lost

---
 src/mg/net/SSLStreamOpenSSL.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/net/SSLStreamOpenSSL.cpp b/src/mg/net/SSLStreamOpenSSL.cpp
index 1f68b03..307d25a 100644
--- a/src/mg/net/SSLStreamOpenSSL.cpp
+++ b/src/mg/net/SSLStreamOpenSSL.cpp
@@ -170,8 +170,8 @@ namespace net {
 			tail = next;
 			next = PrivGetCachedBuf();
 		}
-		if (!PrivCheckError(rc))
-			return 0;
+		// Even if there was an error, the data received before it is valid.
+		PrivCheckError(rc);
 		aOutHead = std::move(head);
 		return byteCount;
 	}
-- 
2.43.0


From 234681bc2e985c5c364de507e085fa15bf99ef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:38 +0000
Subject: [PATCH 22/25] fix: errors left by other SSL streams in the thread
 broke a graceful shutdown of a stream

---
 src/mg/net/SSLStreamOpenSSL.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/net/SSLStreamOpenSSL.cpp b/src/mg/net/SSLStreamOpenSSL.cpp
index 307d25a..e8d8086 100644
--- a/src/mg/net/SSLStreamOpenSSL.cpp
+++ b/src/mg/net/SSLStreamOpenSSL.cpp
@@ -70,6 +70,7 @@ namespace net {
 		MG_BOX_ASSERT(
 			myState == SSL_STREAM_OPENSSL_STATE_CONNECTING ||
 			myState == SSL_STREAM_OPENSSL_STATE_CONNECTED);
+		OpenSSLPrepareToCall();
 		int rc = SSL_shutdown(mySSL);
 		if (rc == 0)
 		{
@@ -200,6 +201,7 @@ namespace net {
 		if (myState == SSL_STREAM_OPENSSL_STATE_CLOSING)
 		{
 			MG_BOX_ASSERT(myAppInput.IsEmpty());
+			OpenSSLPrepareToCall();
 			int rc = SSL_shutdown(mySSL);
 			if (rc == 1)
 				PrivSetState(SSL_STREAM_OPENSSL_STATE_CLOSED);
-- 
2.43.0


From b291a00a8295574cc402a72db1c7ad3a3541790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:28 +0000
Subject: [PATCH 23/25] fix: net: allow to assign an empty domain request to an
 empty one

The debug assert treated two empty requests as owners of the same
context, so a reset of an already cancelled or a not posted request
crashed.
---
 src/mg/net/DomainToIP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/net/DomainToIP.cpp b/src/mg/net/DomainToIP.cpp
index 5964937..04770bd 100755
--- a/src/mg/net/DomainToIP.cpp
+++ b/src/mg/net/DomainToIP.cpp
@@ -125,7 +125,7 @@ namespace net {
 	{
 		if (this == &aOther)
 			return *this;
-		MG_DEV_ASSERT(myCtx != aOther.myCtx);
+		MG_DEV_ASSERT(myCtx == nullptr || myCtx != aOther.myCtx);
 		if (myCtx != nullptr)
 			myCtx->PrivUnref();
 		myCtx = aOther.myCtx;
-- 
2.43.0


From 623c294f1ae92848968f2f3c19a363aa0975c794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:33 +0000
Subject: [PATCH 24/25] fix: aio: an SSL socket could deliver data before its
 connect or without a request

When application data came together with the end of the TLS handshake, OnRecv() was
called before OnConnect(). When the data came to a receive started for the handshake, it
was delivered even if the user didn't ask for it.
---
 src/mg/aio/SSLSocket.cpp | 50 ++++++++++++++++++++++++++++------------
 src/mg/aio/SSLSocket.h   |  1 +
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/mg/aio/SSLSocket.cpp b/src/mg/aio/SSLSocket.cpp
index 8fff3c7..cf1939a 100644
--- a/src/mg/aio/SSLSocket.cpp
+++ b/src/mg/aio/SSLSocket.cpp
@@ -245,6 +245,13 @@ namespace aio {
 		}
 		else
 		{
+			// Some data could be received together with the end of the handshake.
+			if (ProtWasHandshakeDone() && PrivRecvDeliver())
+			{
+				if (myRecvSize > 0)
+					myTask.Reschedule();
+				return;
+			}
 			myEncRecvQueue.EnsureWriteSize(myRecvSize);
 		}
 		myTask.Recv(myEncRecvQueue.GetWritePos(), myRecvEvent);
@@ -265,12 +272,15 @@ namespace aio {
 			return;
 		}
 		myEncRecvQueue.PropagateWritePos(aByteCount);
-		uint64_t recvSizeWas = myRecvSize;
-		myRecvSize = 0;
 		mySSL->AppendNetInputRef(myEncRecvQueue.PopData());
-		mg::net::Buffer::Ptr head;
-		mySSL->PopAppOutput(head);
-		myRecvQueue.WriteRef(std::move(head));
+		if (ProtWasHandshakeDone() && myRecvSize > 0)
+		{
+			PrivRecvDeliver();
+			return;
+		}
+		// The app data, if there is any, has to wait until the connect is reported and
+		// the user wants to receive it.
+		mySSL->Update();
 		if (mySSL->HasError())
 		{
 			ProtOnRecvError(mg::net::ErrorRaiseSSL(mySSL->GetError(), "decrypt"));
@@ -279,18 +289,28 @@ namespace aio {
 		// If this was a part of the handshake, then need to handle it on a next wakeup.
 		if (!ProtWasHandshakeDone())
 			myTask.Reschedule();
-		if (!myRecvQueue.IsEmpty())
-		{
-			mg::net::BufferReadStream stream(myRecvQueue);
-			ProtOnRecv(stream);
-		}
-		else
+	}
+
+	bool
+	SSLSocket::PrivRecvDeliver()
+	{
+		mg::net::Buffer::Ptr head;
+		uint64_t size = mySSL->PopAppOutput(head);
+		myRecvQueue.WriteRef(std::move(head));
+		if (mySSL->HasError())
 		{
-			// Keep reading until get data. User has requested it, so need to be reading
-			// until the data comes. Reading not returning any data can happen because
-			// some data is SSL-internal stuff, user shouldn't care about that.
-			myRecvSize = recvSizeWas;
+			ProtOnRecvError(mg::net::ErrorRaiseSSL(mySSL->GetError(), "decrypt"));
+			return true;
 		}
+		// Keep reading until get data. User has requested it, so need to be reading until
+		// the data comes. Reading not returning any data can happen because some data is
+		// SSL-internal stuff, user shouldn't care about that.
+		if (size == 0)
+			return false;
+		myRecvSize = 0;
+		mg::net::BufferReadStream stream(myRecvQueue);
+		ProtOnRecv(stream);
+		return true;
 	}
 
 	void
diff --git a/src/mg/aio/SSLSocket.h b/src/mg/aio/SSLSocket.h
index 89e3794..65c9d3d 100644
--- a/src/mg/aio/SSLSocket.h
+++ b/src/mg/aio/SSLSocket.h
@@ -61,6 +61,7 @@ namespace aio {
 			mg::box::Error* aError);
 		void PrivRecvCommit(
 			uint32_t aByteCount);
+		bool PrivRecvDeliver();
 		bool PrivRecvEventConsume();
 
 		// SSL socket, on the contrary with TCP-one, has 2 pairs of queues, not one.
-- 
2.43.0


From 0a91cfd2b0e3d720c3dbdeef26702e6957f1153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:33 +0000
Subject: [PATCH 25/25] fix: aio: an SSL socket failed an assertion on a wakeup
 after a big receive

A receive of more than one buffer could leave unused buffers in the queue. They stay there
until a next receive and are not a reason to fail.
---
 src/mg/aio/SSLSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/aio/SSLSocket.cpp b/src/mg/aio/SSLSocket.cpp
index cf1939a..4768737 100644
--- a/src/mg/aio/SSLSocket.cpp
+++ b/src/mg/aio/SSLSocket.cpp
@@ -238,7 +238,7 @@ namespace aio {
 		{
 			if (ProtWasHandshakeDone())
 			{
-				MG_BOX_ASSERT(myEncRecvQueue.IsEmpty());
+				MG_BOX_ASSERT(myEncRecvQueue.GetReadSize() == 0);
 				return;
 			}
 			myEncRecvQueue.EnsureWriteSize(mg::net::theBufferCopySize);
-- 
2.43.0

