From e19c22d6d1bf7d66acd3965180b144c36d329122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 01/42] fix: data race on the mutex owner field

Mutex::TryLock() of a thread, not owning the mutex, reads myOwner while the
actual owner can be changing it under the lock. Make it atomic.
---
 src/mg/box/ConditionVariable.cpp | 16 ++++++++--------
 src/mg/box/Mutex.cpp             |  8 ++++----
 src/mg/box/Mutex.h               |  5 +++--
 3 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/mg/box/ConditionVariable.cpp b/src/mg/box/ConditionVariable.cpp
index 7f20b11..13dee96 100644
--- a/src/mg/box/ConditionVariable.cpp
+++ b/src/mg/box/ConditionVariable.cpp
@@ -11,15 +11,15 @@ namespace box {
 	{
 		MG_BOX_ASSERT(aMutex.IsOwnedByThisThread());
 		MG_BOX_ASSERT(aMutex.myCount == 1);
-		uint32_t tid = aMutex.myOwner;
-		aMutex.myOwner = 0;
+		uint32_t tid = aMutex.myOwner.LoadRelaxed();
+		aMutex.myOwner.StoreRelaxed(0);
 		aMutex.myCount = 0;
 
 		myHandle.wait(aMutex.myHandle);
 
-		MG_BOX_ASSERT(aMutex.myOwner == 0);
+		MG_BOX_ASSERT(aMutex.myOwner.LoadRelaxed() == 0);
 		MG_BOX_ASSERT(aMutex.myCount == 0);
-		aMutex.myOwner = tid;
+		aMutex.myOwner.StoreRelaxed(tid);
 		aMutex.myCount = 1;
 	}
 
@@ -30,17 +30,17 @@ namespace box {
 	{
 		MG_BOX_ASSERT(aMutex.IsOwnedByThisThread());
 		MG_BOX_ASSERT(aMutex.myCount == 1);
-		uint32_t tid = aMutex.myOwner;
-		aMutex.myOwner = 0;
+		uint32_t tid = aMutex.myOwner.LoadRelaxed();
+		aMutex.myOwner.StoreRelaxed(0);
 		aMutex.myCount = 0;
 
 		uint64_t timeout = aTimeLimit.ToDurationFromNow().myValue;
 		bool ok = myHandle.wait_for(aMutex.myHandle,
 			std::chrono::milliseconds(timeout)) != std::cv_status::timeout;
 
-		MG_BOX_ASSERT(aMutex.myOwner == 0);
+		MG_BOX_ASSERT(aMutex.myOwner.LoadRelaxed() == 0);
 		MG_BOX_ASSERT(aMutex.myCount == 0);
-		aMutex.myOwner = tid;
+		aMutex.myOwner.StoreRelaxed(tid);
 		aMutex.myCount = 1;
 
 		return ok;
diff --git a/src/mg/box/Mutex.cpp b/src/mg/box/Mutex.cpp
index 31ca8e7..75b073f 100644
--- a/src/mg/box/Mutex.cpp
+++ b/src/mg/box/Mutex.cpp
@@ -25,7 +25,7 @@ namespace box {
 		if (TryLock())
 			return;
 		myHandle.lock();
-		myOwner = GetCurrentThreadId();
+		myOwner.StoreRelaxed(GetCurrentThreadId());
 		MG_DEV_ASSERT(myCount == 0);
 		myCount = 1;
 	}
@@ -44,7 +44,7 @@ namespace box {
 			theMutexStartContentCount.IncrementRelaxed();
 			return false;
 		}
-		myOwner = GetCurrentThreadId();
+		myOwner.StoreRelaxed(GetCurrentThreadId());
 		MG_DEV_ASSERT(myCount == 0);
 		myCount = 1;
 		return true;
@@ -56,7 +56,7 @@ namespace box {
 		MG_BOX_ASSERT(IsOwnedByThisThread());
 		if (myCount == 1)
 		{
-			myOwner = 0;
+			myOwner.StoreRelaxed(0);
 			myCount = 0;
 			myHandle.unlock();
 			return;
@@ -68,7 +68,7 @@ namespace box {
 	bool
 	Mutex::IsOwnedByThisThread() const
 	{
-		return myOwner == GetCurrentThreadId();
+		return myOwner.LoadRelaxed() == GetCurrentThreadId();
 	}
 
 }
diff --git a/src/mg/box/Mutex.h b/src/mg/box/Mutex.h
index 570c4ea..8ef0357 100644
--- a/src/mg/box/Mutex.h
+++ b/src/mg/box/Mutex.h
@@ -21,7 +21,7 @@ namespace box {
 	{
 	public:
 		Mutex() : myOwner(0), myCount(0) {}
-		~Mutex() { MG_BOX_ASSERT(myOwner == 0 && myCount == 0); }
+		~Mutex() { MG_BOX_ASSERT(myOwner.LoadRelaxed() == 0 && myCount == 0); }
 
 		void Lock();
 		bool TryLock();
@@ -33,7 +33,8 @@ namespace box {
 			const Mutex&) = delete;
 
 		std::mutex myHandle;
-		uint32_t myOwner;
+		// Atomic, because it is checked by the threads not owning the mutex too.
+		mg::box::AtomicU32 myOwner;
 		uint32_t myCount;
 
 		friend class ConditionVariable;
-- 
2.43.0


From f4cd28e99f073e1e308e44fbe71c8483c7dbe468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:02 +0000
Subject: [PATCH 02/42] fix: condition variable timed wait with an infinite or
 huge timeout

The timeout overflowed inside of the standard library, and the wait returned
right away as if the timeout was reached.
---
 src/mg/box/ConditionVariable.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/mg/box/ConditionVariable.cpp b/src/mg/box/ConditionVariable.cpp
index 13dee96..32b4073 100644
--- a/src/mg/box/ConditionVariable.cpp
+++ b/src/mg/box/ConditionVariable.cpp
@@ -5,6 +5,11 @@
 namespace mg {
 namespace box {
 
+	// The standard library converts the timeouts to nanoseconds and adds them to the
+	// current time. Too big values would overflow and would look as if already expired.
+	// 100 years is beyond any practical need and is the same as infinity.
+	static constexpr uint64_t theCondVarTimeoutMax = 100ULL * 365 * 24 * 3600 * 1000;
+
 	void
 	ConditionVariable::Wait(
 		Mutex& aMutex)
@@ -35,8 +40,16 @@ namespace box {
 		aMutex.myCount = 0;
 
 		uint64_t timeout = aTimeLimit.ToDurationFromNow().myValue;
-		bool ok = myHandle.wait_for(aMutex.myHandle,
-			std::chrono::milliseconds(timeout)) != std::cv_status::timeout;
+		bool ok = true;
+		if (timeout < theCondVarTimeoutMax)
+		{
+			ok = myHandle.wait_for(aMutex.myHandle,
+				std::chrono::milliseconds(timeout)) != std::cv_status::timeout;
+		}
+		else
+		{
+			myHandle.wait(aMutex.myHandle);
+		}
 
 		MG_BOX_ASSERT(aMutex.myOwner.LoadRelaxed() == 0);
 		MG_BOX_ASSERT(aMutex.myCount == 0);
-- 
2.43.0


From 2f320f3cb85580af92c93b90b978dbc6defb7d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 03/42] fix: forward list moved from an empty one refers to the
 source

---
 src/mg/box/ForwardList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/box/ForwardList.h b/src/mg/box/ForwardList.h
index 0331f99..6dc2547 100644
--- a/src/mg/box/ForwardList.h
+++ b/src/mg/box/ForwardList.h
@@ -211,7 +211,7 @@ namespace box {
 	ForwardList<T, myLink>::ForwardList(
 		ForwardList&& aList)
 		: myFirst(aList.myFirst)
-		, myLastLink(aList.myLastLink)
+		, myLastLink(aList.myFirst != nullptr ? aList.myLastLink : &myFirst)
 	{
 		aList.Clear();
 	}
-- 
2.43.0


From a6f494c78173828ba58a4f1069368f7e3cdda9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 04/42] fix: shared pointer leaks an object on move from
 another pointer to it

---
 src/mg/box/SharedPtr.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mg/box/SharedPtr.h b/src/mg/box/SharedPtr.h
index 6bae606..ab00288 100644
--- a/src/mg/box/SharedPtr.h
+++ b/src/mg/box/SharedPtr.h
@@ -229,12 +229,12 @@ protected:																					\
 		// being deleted. This in turn will delete obj2, which was kept alive only by
 		// obj1. The new pointer becomes garbage. Need to steal the pointer first. So obj1
 		// is deleted, but its 'myNext' is already null.
-		T* oldObj = myObject;
 		T* newObj = aOther.myObject;
 		aOther.myObject = nullptr;
+		// Is null already when the pointer is moved to itself.
+		T* oldObj = myObject;
 		myObject = newObj;
-		if (newObj != oldObj)
-			PrivUnref(oldObj);
+		PrivUnref(oldObj);
 		return *this;
 	}
 
@@ -245,12 +245,12 @@ protected:																					\
 		SharedPtrIntrusive<ChildT>&& aOther)
 	{
 		// Same as for the other move-assign.
-		T* oldObj = myObject;
 		T* newObj = aOther.myObject;
 		aOther.myObject = nullptr;
+		// Is null already when the pointer is moved to itself.
+		T* oldObj = myObject;
 		myObject = newObj;
-		if (newObj != oldObj)
-			PrivUnref(oldObj);
+		PrivUnref(oldObj);
 		return *this;
 	}
 
-- 
2.43.0


From a3aac78c94c94d6f276b8d0caee70a373f5e2e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 05/42] fix: reference counter does not order object usage
 before its deletion

---
 src/mg/box/RefCount.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/box/RefCount.h b/src/mg/box/RefCount.h
index 7728bc9..bb3eb97 100644
--- a/src/mg/box/RefCount.h
+++ b/src/mg/box/RefCount.h
@@ -57,7 +57,9 @@ namespace box {
 	inline bool
 	RefCount::Dec()
 	{
-		int32_t newValue = myCount.DecrementFetchRelaxed();
+		// All the usages of the object by the other owners must be complete before the last
+		// owner deletes it.
+		int32_t newValue = myCount.DecrementFetchAcqRel();
 		MG_DEV_ASSERT(newValue >= 0);
 		return newValue == 0;
 	}
-- 
2.43.0


From 8219e3838d596768ba9093f3c7ffaab0fd710581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 06/42] fix: coroutine calls overflow the machine stack

---
 src/mg/box/Coro.cpp | 22 +++++++++++++++-------
 src/mg/box/Coro.h   |  5 +++--
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/mg/box/Coro.cpp b/src/mg/box/Coro.cpp
index b2ab6a2..735a062 100644
--- a/src/mg/box/Coro.cpp
+++ b/src/mg/box/Coro.cpp
@@ -59,20 +59,20 @@ namespace box {
 
 	//////////////////////////////////////////////////////////////////////////////////////
 
-	void
+	std::coroutine_handle<>
 	CoroOpFinal::await_suspend(
 		CoroHandle aThisCoro) noexcept
 	{
 		CoroPromise& thisPromise = aThisCoro.promise();
 		CoroHandle prev = thisPromise.myPrev;
 		if (!prev)
-			return;
+			return std::noop_coroutine();
 		thisPromise.myPrev = {};
-
-		CoroPromise& prevPromise = prev.promise();
-		prevPromise.myNext = {};
-		prevPromise.myFirst.promise().myLast = prev;
-		prev.resume();
+		prev.promise().myFirst.promise().myLast = prev;
+		// The previous coro must not be resumed from here. Otherwise each finished coro
+		// would leave its frame on the machine stack, and it would overflow eventually.
+		// This coro is destroyed by the previous one right when it continues.
+		return prev;
 	}
 
 	//////////////////////////////////////////////////////////////////////////////////////
@@ -101,6 +101,7 @@ namespace box {
 		CoroPromise& newPromise = newHandle.promise();
 		CoroPromise& thisPromise = aThisCoro.promise();
 
+		myThisCoro = aThisCoro;
 		newPromise.myPrev = aThisCoro;
 		thisPromise.myNext = std::move(myNewCoro);
 
@@ -110,6 +111,13 @@ namespace box {
 		return newHandle;
 	}
 
+	void
+	CoroOpCall::await_resume() noexcept
+	{
+		// The called coro is finished. Nobody needs it anymore.
+		myThisCoro.promise().myNext.Clear();
+	}
+
 #endif
 
 }
diff --git a/src/mg/box/Coro.h b/src/mg/box/Coro.h
index d7664ff..0286e0b 100644
--- a/src/mg/box/Coro.h
+++ b/src/mg/box/Coro.h
@@ -62,7 +62,7 @@ namespace box {
 		, public CoroOpIsNotReady
 		, public CoroOpIsEmptyReturn
 	{
-		void await_suspend(
+		std::coroutine_handle<> await_suspend(
 			CoroHandle aThisCoro) noexcept;
 	};
 
@@ -126,15 +126,16 @@ namespace box {
 	struct CoroOpCall
 		: public CoroOp
 		, public CoroOpIsNotReady
-		, public CoroOpIsEmptyReturn
 	{
 		CoroOpCall(
 			Coro&& aNewCoro);
 		CoroHandle await_suspend(
 			CoroHandle aThisCoro) noexcept;
+		void await_resume() noexcept;
 
 	private:
 		CoroRef myNewCoro;
+		CoroHandle myThisCoro;
 	};
 
 	// Call a new coroutine while being inside of another coroutine. When the new one
-- 
2.43.0


From 0379f1432253152894b0af81ecbd5151a05b6a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:28 +0000
Subject: [PATCH 07/42] fix: scheduler with a sub-queue of size 1 and one
 thread never runs tasks

---
 src/mg/sch/TaskScheduler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index e19518d..c4c9ee7 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -169,7 +169,7 @@ namespace sch {
 		// the front queue, so must be handled first.
 
 		batch = 0;
-		while (myQueueWaiting.Count() > 0 && ++batch < maxBatch)
+		while (myQueueWaiting.Count() > 0 && batch++ < maxBatch)
 		{
 			t = myQueueWaiting.GetTop();
 			if (t->myDeadline > timestamp)
@@ -214,7 +214,7 @@ namespace sch {
 		t = myQueueFront.PopAll(tail);
 		myQueuePending.Append(t, tail);
 		batch = 0;
-		while (!myQueuePending.IsEmpty() && ++batch < maxBatch)
+		while (!myQueuePending.IsEmpty() && batch++ < maxBatch)
 		{
 			t = myQueuePending.PopFirst();
 			t->myNext = nullptr;
-- 
2.43.0


From 163cbb7cf8157b5a5857529c54f264b0ff6f4101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:41 +0000
Subject: [PATCH 08/42] fix: task wakers access task members without
 synchronization with its poster

---
 src/mg/sch/Task.cpp          | 11 +++++++----
 src/mg/sch/TaskScheduler.cpp |  5 ++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mg/sch/Task.cpp b/src/mg/sch/Task.cpp
index 6ba6e9c..52a6641 100755
--- a/src/mg/sch/Task.cpp
+++ b/src/mg/sch/Task.cpp
@@ -108,9 +108,10 @@ namespace sch {
 			// override the signal, because it is stronger than a wakeup.
 			if (old == TASK_STATUS_SIGNALED || old == TASK_STATUS_READY)
 				return;
-			// Relaxed is fine. The memory sync will happen via the scheduler queues if
-			// the wakeup succeeds.
-		} while (!myStatus.CmpExchgWeakRelaxed(old, TASK_STATUS_READY));
+			// Acquire-barrier to sync with the release-barrier done when the task becomes
+			// WAITING. Because below the task's members are going to be accessed then. The
+			// other memory sync happens via the scheduler queues if the wakeup succeeds.
+		} while (!myStatus.CmpExchgWeakAcquire(old, TASK_STATUS_READY));
 
 		// If the task was in the waiting queue. Need to re-push it to let the scheduler
 		// know the task must be removed from the queue earlier.
@@ -124,7 +125,9 @@ namespace sch {
 		// Release-barrier to sync with the acquire-barrier on the signal receipt. Can't
 		// be relaxed, because the task might send and receive the signal without the
 		// scheduler's participation and can't count on synchronizing any memory via it.
-		TaskStatus old = myStatus.ExchangeRelease(TASK_STATUS_SIGNALED);
+		// Acquire-barrier - to sync with the release-barrier done when the task becomes
+		// WAITING. Because below the task's members are going to be accessed then.
+		TaskStatus old = myStatus.ExchangeAcqRel(TASK_STATUS_SIGNALED);
 		// WAITING - the task was in the waiting queue. Need to re-push it to let the
 		// scheduler know the task must be removed from the queue earlier.
 		if (old == TASK_STATUS_WAITING)
diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index c4c9ee7..e7e4f78 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -222,7 +222,10 @@ namespace sch {
 			{
 				t->myIsExpired = false;
 				old = TASK_STATUS_PENDING;
-				if (t->myStatus.CmpExchgStrongRelaxed(old, TASK_STATUS_WAITING))
+				// Release-barrier to sync with the acquire-barrier in the wakers. A waker
+				// which sees the task in WAITING state is going to access its members,
+				// and it might be not synchronized with the task's poster in any other way.
+				if (t->myStatus.CmpExchgStrongRelease(old, TASK_STATUS_WAITING))
 				{
 					// The task is not added to the heap in case
 					// it is put to sleep until explicit wakeup or
-- 
2.43.0


From 833e17ed1dca3dcc41a9910046131602e43d9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:38 +0000
Subject: [PATCH 09/42] fix: scheduler can look empty while its tasks are not
 finished

The emptiness check looked at the worker states first, and at the ready
queue after that. A task could be popped in between by a worker which was
already found idle, and then WaitEmpty() returned while the task was still
being executed. Also, there was no barrier between the executed tasks and
the reader of the idle states, so results of the tasks could be not visible
after WaitEmpty().
---
 src/mg/box/MultiConsumerQueueBase.cpp |  4 +++-
 src/mg/box/MultiConsumerQueueBase.h   |  2 +-
 src/mg/sch/TaskScheduler.cpp          | 21 ++++++++++++++-------
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/mg/box/MultiConsumerQueueBase.cpp b/src/mg/box/MultiConsumerQueueBase.cpp
index 1bcfd81..3543c1c 100644
--- a/src/mg/box/MultiConsumerQueueBase.cpp
+++ b/src/mg/box/MultiConsumerQueueBase.cpp
@@ -375,7 +375,9 @@ namespace box {
 			mySubQueue = cur;
 		}
 		if (res != nullptr)
-			myQueue->myCount.DecrementRelaxed();
+			// Release-barrier to let the others see what the consumer did before the pop,
+			// when they see the new count.
+			myQueue->myCount.DecrementRelease();
 		return res;
 	}
 
diff --git a/src/mg/box/MultiConsumerQueueBase.h b/src/mg/box/MultiConsumerQueueBase.h
index 9779d1e..c4d592d 100644
--- a/src/mg/box/MultiConsumerQueueBase.h
+++ b/src/mg/box/MultiConsumerQueueBase.h
@@ -165,7 +165,7 @@ namespace box {
 	inline uint32_t
 	MCQBaseQueue::Count()
 	{
-		return myCount.LoadRelaxed();
+		return myCount.LoadAcquire();
 	}
 
 }
diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index e7e4f78..6547409 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -49,23 +49,28 @@ namespace sch {
 	TaskScheduler::IsEmpty()
 	{
 		PrivSchedulerLock();
+		// The ready queue must be checked before the worker states. It can't be filled
+		// while the lock is held, but the workers still can pop from it. A worker becomes
+		// running before it pops anything. So if the queue is empty, then all the popped
+		// and not finished tasks are visible as the running workers. If the states would
+		// be checked first, then a task could be popped by an already checked worker.
+		bool isEmpty = myQueueReady.Count() == 0;
 		for (TaskSchedulerThread* worker : myThreads)
 		{
 			// It is important to check the worker states. Even if all the queues are
 			// empty, it doesn't mean there are no tasks and won't be new ones. Because
 			// the currently running tasks might produce new tasks, and then the scheduler
 			// isn't empty.
-			if (worker->GetState() != TASK_SCHEDULER_WORKER_STATE_IDLE)
+			if (!isEmpty || worker->GetState() != TASK_SCHEDULER_WORKER_STATE_IDLE)
 			{
 				PrivSchedulerUnlock();
 				return false;
 			}
 		}
-		bool isEmpty =
+		isEmpty = isEmpty &&
 			myQueueFront.IsEmpty() &&
 			myQueueWaiting.Count() == 0 &&
-			myQueuePending.IsEmpty() &&
-			myQueueReady.Count() == 0;
+			myQueuePending.IsEmpty();
 		PrivSchedulerUnlock();
 		return isEmpty;
 	}
@@ -391,7 +396,9 @@ namespace sch {
 	inline TaskSchedulerWorkerState
 	TaskSchedulerThread::GetState() const
 	{
-		return myState.LoadRelaxed();
+		// Acquire-barrier to see everything done by the tasks executed before the worker
+		// became idle.
+		return myState.LoadAcquire();
 	}
 
 	void
@@ -412,10 +419,10 @@ namespace sch {
 				myExecuteCount.AddRelaxed(batch);
 			} while (batch == maxBatch);
 			MG_DEV_ASSERT(batch < maxBatch);
-			myState.StoreRelaxed(TASK_SCHEDULER_WORKER_STATE_IDLE);
+			myState.StoreRelease(TASK_SCHEDULER_WORKER_STATE_IDLE);
 			myScheduler->PrivWaitReady();
 		}
-		myState.StoreRelaxed(TASK_SCHEDULER_WORKER_STATE_IDLE);
+		myState.StoreRelease(TASK_SCHEDULER_WORKER_STATE_IDLE);
 		myScheduler->PrivSignalReady();
 		MG_BOX_ASSERT(TaskScheduler::ourCurrent == myScheduler);
 		TaskScheduler::ourCurrent = nullptr;
-- 
2.43.0


From 9c9a11a493cda1c3d08de790221908844e71a21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 10/42] fix: BufferStream copy-write must use the reserved
 buffers

After a reservation of several buffers WriteCopy() filled the first one, and
then lost or failed on the rest of them.
---
 src/mg/net/Buffer.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index 682760e..c76744a 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -196,16 +196,24 @@ namespace net {
 			}
 			memcpy(myWPos->myWData + myWPos->myPos, aData, cap);
 			myWPos->myPos = myWPos->myCapacity;
+			myWSize -= cap;
+			// There might be more buffers reserved after the current one.
+			Buffer* next = myWPos->myNext.GetPointer();
 			if (cap == aSize)
 			{
 				myREnd = myWPos;
-				myWPos = nullptr;
-				myWSize = 0;
+				myWPos = next;
+				MG_DEV_ASSERT((myWPos == nullptr) == (myWSize == 0));
 				PrivCheck();
 				return;
 			}
 			aData = (const uint8_t*)aData + cap;
 			aSize -= cap;
+			if (next != nullptr)
+			{
+				myWPos = next;
+				continue;
+			}
 			MG_DEV_ASSERT(myHead.IsSet());
 			MG_DEV_ASSERT(myTail->myPos == myTail->myCapacity);
 			myTail = (myTail->myNext = BufferCopy::NewShared()).GetPointer();
-- 
2.43.0


From 3b1b873d5ca955b8533451029c164240c58c8236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:29 +0000
Subject: [PATCH 11/42] fix: BufferStream write position propagation for zero
 bytes must be a no-op

---
 src/mg/net/Buffer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index c76744a..bd04f23 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -139,6 +139,8 @@ namespace net {
 	BufferStream::PropagateWritePos(
 		uint64_t aSize)
 	{
+		if (aSize == 0)
+			return;
 		MG_DEV_ASSERT(myWSize >= aSize);
 		myWPos = BuffersPropagateOnWrite(myWPos, aSize);
 		myWSize -= aSize;
-- 
2.43.0


From e78a8ef65eff33385def979e5c3c2ebcae54a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:30 +0000
Subject: [PATCH 12/42] fix: BufferLinkList must not alter shared buffers when
 drops an empty prefix

---
 src/mg/net/Buffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index bd04f23..bf7ed6f 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -82,7 +82,8 @@ namespace net {
 					MG_DEV_ASSERT(aByteOffset == head->myPos);
 					aByteOffset = 0;
 				}
-				head = std::move(head->myNext);
+				// Do not alter the buffer members. They can be shared by multiple links.
+				head.Set(head->myNext.GetPointer());
 			}
 			link = link->myNext;
 			delete myLinks.PopFirst();
-- 
2.43.0


From 1e5d40ad39ba3e3fc67e720cac36d2864086692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:25 +0000
Subject: [PATCH 13/42] fix: URL target containing '://' must not be parsed as
 a protocol

---
 src/mg/net/URL.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/URL.cpp b/src/mg/net/URL.cpp
index 2e01427..dec6efb 100644
--- a/src/mg/net/URL.cpp
+++ b/src/mg/net/URL.cpp
@@ -17,7 +17,8 @@ namespace net {
 		URL res;
 		std::string str(aStr);
 		size_t pos = str.find("://");
-		if (pos != std::string::npos)
+		// The separator can also be a part of the target. It has a slash before then.
+		if (pos != std::string::npos && str.find('/') == pos + 1)
 		{
 			res.myProtocol = str.substr(0, pos);
 			str = str.substr(pos + 3);
-- 
2.43.0


From acd9d5317eff6464ea3ec1305de4e6ad27313978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 14/42] fix: SocketSetNoDelay() applies the requested value
 instead of the opposite one

---
 src/mg/net/Socket_Unix.cpp | 2 +-
 src/mg/net/Socket_Win.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/net/Socket_Unix.cpp b/src/mg/net/Socket_Unix.cpp
index f6892d9..0b212a7 100755
--- a/src/mg/net/Socket_Unix.cpp
+++ b/src/mg/net/Socket_Unix.cpp
@@ -196,7 +196,7 @@ namespace net {
 		bool aValue,
 		mg::box::Error::Ptr& aOutErr)
 	{
-		int optValue = aValue ? 0 : 1;
+		int optValue = aValue ? 1 : 0;
 		bool ok = setsockopt(aSock, IPPROTO_TCP, TCP_NODELAY,
 			&optValue, sizeof(optValue)) == 0;
 		if (!ok)
diff --git a/src/mg/net/Socket_Win.cpp b/src/mg/net/Socket_Win.cpp
index fc2be1a..9d6b11a 100755
--- a/src/mg/net/Socket_Win.cpp
+++ b/src/mg/net/Socket_Win.cpp
@@ -92,7 +92,7 @@ namespace net {
 		bool aValue,
 		mg::box::Error::Ptr& aOutErr)
 	{
-		int value = aValue ? 0 : 1;
+		int value = aValue ? 1 : 0;
 		bool ok = setsockopt(aSock, IPPROTO_TCP, TCP_NODELAY,
 			(const char*)&value, sizeof(value)) == 0;
 		if (!ok)
-- 
2.43.0


From ad8f9dd430cc6684e520e593d83ea708c5ef6716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:57 +0000
Subject: [PATCH 15/42] fix: IO task wakers and closers access task members
 without synchronization with the scheduler

---
 src/mg/aio/IOCore_IOCP.cpp    |  6 +++++-
 src/mg/aio/IOCore_epoll.cpp   |  6 +++++-
 src/mg/aio/IOCore_iouring.cpp |  6 +++++-
 src/mg/aio/IOCore_kqueue.cpp  |  6 +++++-
 src/mg/aio/IOTask.cpp         | 12 ++++++++----
 5 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/mg/aio/IOCore_IOCP.cpp b/src/mg/aio/IOCore_IOCP.cpp
index b56a7e2..d03114e 100644
--- a/src/mg/aio/IOCore_IOCP.cpp
+++ b/src/mg/aio/IOCore_IOCP.cpp
@@ -187,7 +187,11 @@ namespace aio {
 				// was woken up while was in the front queue. So its status not
 				// necessarily is PENDING.
 				oldState = IOTASK_STATUS_PENDING;
-				if (task->myStatus.CmpExchgStrongRelaxed(oldState, IOTASK_STATUS_WAITING))
+				// Release-barrier to sync with the acquire-barrier in the wakers and
+				// closers. The one who sees the task in WAITING state is going to access
+				// its members, and might be not synchronized with the scheduler in any
+				// other way.
+				if (task->myStatus.CmpExchgStrongRelease(oldState, IOTASK_STATUS_WAITING))
 				{
 					// The task entered WAITING state successfully. It means it doesn't
 					// have anything to do and should not be added to the ready queue. In
diff --git a/src/mg/aio/IOCore_epoll.cpp b/src/mg/aio/IOCore_epoll.cpp
index 9837e67..d52571f 100644
--- a/src/mg/aio/IOCore_epoll.cpp
+++ b/src/mg/aio/IOCore_epoll.cpp
@@ -190,7 +190,11 @@ namespace aio {
 				// was woken up while was in the front queue. So its status not
 				// necessarily is PENDING.
 				oldState = IOTASK_STATUS_PENDING;
-				if (t->myStatus.CmpExchgStrongRelaxed(oldState, IOTASK_STATUS_WAITING))
+				// Release-barrier to sync with the acquire-barrier in the wakers and
+				// closers. The one who sees the task in WAITING state is going to access
+				// its members, and might be not synchronized with the scheduler in any
+				// other way.
+				if (t->myStatus.CmpExchgStrongRelease(oldState, IOTASK_STATUS_WAITING))
 				{
 					// The task entered WAITING state successfully. It means it doesn't
 					// have anything to do and should not be added to the ready queue. In
diff --git a/src/mg/aio/IOCore_iouring.cpp b/src/mg/aio/IOCore_iouring.cpp
index 2103a4f..48197a0 100644
--- a/src/mg/aio/IOCore_iouring.cpp
+++ b/src/mg/aio/IOCore_iouring.cpp
@@ -257,7 +257,11 @@ namespace aio {
 				// was woken up while was in the front queue. So its status not
 				// necessarily is PENDING.
 				oldState = IOTASK_STATUS_PENDING;
-				if (task->myStatus.CmpExchgStrongRelaxed(oldState, IOTASK_STATUS_WAITING))
+				// Release-barrier to sync with the acquire-barrier in the wakers and
+				// closers. The one who sees the task in WAITING state is going to access
+				// its members, and might be not synchronized with the scheduler in any
+				// other way.
+				if (task->myStatus.CmpExchgStrongRelease(oldState, IOTASK_STATUS_WAITING))
 				{
 					// The task entered WAITING state successfully. It means it doesn't
 					// have anything to do and should not be added to the ready queue. In
diff --git a/src/mg/aio/IOCore_kqueue.cpp b/src/mg/aio/IOCore_kqueue.cpp
index da7cdd7..8c01be2 100644
--- a/src/mg/aio/IOCore_kqueue.cpp
+++ b/src/mg/aio/IOCore_kqueue.cpp
@@ -200,7 +200,11 @@ namespace aio {
 				// was woken up while was in the front queue. So its status not
 				// necessarily is PENDING.
 				oldState = IOTASK_STATUS_PENDING;
-				if (t->myStatus.CmpExchgStrongRelaxed(oldState, IOTASK_STATUS_WAITING))
+				// Release-barrier to sync with the acquire-barrier in the wakers and
+				// closers. The one who sees the task in WAITING state is going to access
+				// its members, and might be not synchronized with the scheduler in any
+				// other way.
+				if (t->myStatus.CmpExchgStrongRelease(oldState, IOTASK_STATUS_WAITING))
 				{
 					// The task entered WAITING state successfully. It means it doesn't
 					// have anything to do and should not be added to the ready queue. In
diff --git a/src/mg/aio/IOTask.cpp b/src/mg/aio/IOTask.cpp
index c9d13c6..8a8db99 100755
--- a/src/mg/aio/IOTask.cpp
+++ b/src/mg/aio/IOTask.cpp
@@ -103,8 +103,9 @@ namespace aio {
 		// this function ends.
 		//
 		// Use 'release' to give the other threads a way to sync the writes done before
-		// closing, such as the close-guard setting.
-		IOTaskStatus oldStatus = myStatus.ExchangeRelease(IOTASK_STATUS_CLOSING);
+		// closing, such as the close-guard setting. And 'acquire' to sync with the
+		// scheduler, because the task's members are accessed below if it was WAITING.
+		IOTaskStatus oldStatus = myStatus.ExchangeAcqRel(IOTASK_STATUS_CLOSING);
 		MG_BOX_ASSERT_F(
 			oldStatus == IOTASK_STATUS_PENDING ||
 			oldStatus == IOTASK_STATUS_READY ||
@@ -117,9 +118,12 @@ namespace aio {
 	void
 	IOTask::PostWakeup()
 	{
+		// Use 'acquire' to sync with the scheduler, because the task's members are accessed
+		// below if it was WAITING.
+		//
 		// Fast path.
 		IOTaskStatus oldStatus = IOTASK_STATUS_WAITING;
-		if (myStatus.CmpExchgStrongRelaxed(oldStatus, IOTASK_STATUS_READY))
+		if (myStatus.CmpExchgStrongAcquire(oldStatus, IOTASK_STATUS_READY))
 			return myCore.PrivRePost(this);
 		// Fail, but the task was awake anyway.
 		if (oldStatus == IOTASK_STATUS_READY)
@@ -131,7 +135,7 @@ namespace aio {
 			oldStatus == IOTASK_STATUS_WAITING)
 		{
 			IOTaskStatus newStatus = oldStatus;
-			if (!myStatus.CmpExchgStrongRelaxed(newStatus, IOTASK_STATUS_READY))
+			if (!myStatus.CmpExchgStrongAcquire(newStatus, IOTASK_STATUS_READY))
 			{
 				// Fail. Retry.
 				oldStatus = newStatus;
-- 
2.43.0


From d8c56cac7bb0d233e2c3c65219f7514d77394917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 16/42] fix: IOCore start touches the workers without a lock

---
 src/mg/aio/IOCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/aio/IOCore.cpp b/src/mg/aio/IOCore.cpp
index 6167a4d..c5227be 100644
--- a/src/mg/aio/IOCore.cpp
+++ b/src/mg/aio/IOCore.cpp
@@ -74,11 +74,11 @@ namespace aio {
 		if (aThreadCount == MG_IOCORE_DEFAULT_THREAD_COUNT)
 			aThreadCount = mg::box::SysGetCPUCoreCount() * 2;
 		MG_BOX_ASSERT(aThreadCount > 0 && aThreadCount < 256);
-		myWorkers.reserve(aThreadCount);
 
 		mg::box::MutexLock lock(myMutex);
 		if (myState.LoadRelaxed() != IOCORE_STATE_STOPPED)
 			return;
+		myWorkers.reserve(aThreadCount);
 		myState.StoreRelaxed(IOCORE_STATE_RUNNING);
 		mySchedBatchSize = myExecBatchSize * aThreadCount;
 		for (uint32_t i = 0; i < aThreadCount; ++i)
-- 
2.43.0


From 399794db1414d75634e04247305632e8a602bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 17/42] fix: waiting for IOCore emptiness does not synchronize
 with the finished tasks

---
 src/mg/aio/IOCore.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mg/aio/IOCore.cpp b/src/mg/aio/IOCore.cpp
index c5227be..8634fd7 100644
--- a/src/mg/aio/IOCore.cpp
+++ b/src/mg/aio/IOCore.cpp
@@ -89,14 +89,15 @@ namespace aio {
 	IOCore::WaitEmpty(
 		mg::box::TimeLimit aTimeLimit)
 	{
-		uint32_t count = myDescriptorCount.LoadRelaxed();
+		// Use 'acquire' to see everything what was done by the finished tasks.
+		uint32_t count = myDescriptorCount.LoadAcquire();
 		if (count == 0)
 			return 0;
 		uint64_t deadline = aTimeLimit.ToPointFromNow().myValue;
 		while (mg::box::GetMilliseconds() < deadline)
 		{
 			mg::box::Sleep(10);
-			count = myDescriptorCount.LoadRelaxed();
+			count = myDescriptorCount.LoadAcquire();
 			if (count == 0)
 				return 0;
 		}
@@ -198,7 +199,9 @@ namespace aio {
 		}
 		else
 		{
-			myDescriptorCount.DecrementRelaxed();
+			// Use 'release' so as the one who waits for the core being empty could see
+			// everything what was done by the task.
+			myDescriptorCount.DecrementRelease();
 		}
 		return true;
 	}
-- 
2.43.0


From de033d047775a5650fabab8a4757b52dd9fd89f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 18/42] fix: deletion of a woken up but not posted IO task
 fails an assertion

---
 src/mg/aio/IOTask.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/aio/IOTask.cpp b/src/mg/aio/IOTask.cpp
index 8a8db99..f606208 100755
--- a/src/mg/aio/IOTask.cpp
+++ b/src/mg/aio/IOTask.cpp
@@ -38,7 +38,9 @@ namespace aio {
 		MG_BOX_ASSERT(!IsInWorkerNow());
 #if IS_BUILD_DEBUG
 		IOTaskStatus status = myStatus.LoadRelaxed();
-		MG_BOX_ASSERT(status == IOTASK_STATUS_CLOSED || status == IOTASK_STATUS_PENDING);
+		// Ready can be when the task was never posted but was woken up.
+		MG_BOX_ASSERT(status == IOTASK_STATUS_CLOSED || status == IOTASK_STATUS_PENDING ||
+			status == IOTASK_STATUS_READY);
 #endif
 		MG_BOX_ASSERT(mySocket == mg::net::theInvalidSocket);
 		MG_BOX_ASSERT(myNext == nullptr);
-- 
2.43.0


From 22a52e6e40fde8bb15345588032aa949aa87ba1f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:04:43 +0000
Subject: [PATCH 19/42] fix: a receipt requested by a socket in its sending
 callback can be never started

---
 src/mg/aio/SSLSocket.cpp | 4 ++++
 src/mg/aio/TCPSocket.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/mg/aio/SSLSocket.cpp b/src/mg/aio/SSLSocket.cpp
index 8fff3c7..8e35c8f 100644
--- a/src/mg/aio/SSLSocket.cpp
+++ b/src/mg/aio/SSLSocket.cpp
@@ -95,6 +95,10 @@ namespace aio {
 		PrivRecv();
 		// Send must be in the end. Recv events could generate new data for sending.
 		PrivSend();
+		// The sending callbacks could request more data when the receiving attempt is
+		// already over.
+		if (myRecvSize > 0 && !myRecvEvent.IsLocked())
+			myTask.Reschedule();
 	}
 
 	bool
diff --git a/src/mg/aio/TCPSocket.cpp b/src/mg/aio/TCPSocket.cpp
index 8b98112..f654295 100644
--- a/src/mg/aio/TCPSocket.cpp
+++ b/src/mg/aio/TCPSocket.cpp
@@ -36,6 +36,10 @@ namespace aio {
 		PrivRecv();
 		// Send must be in the end. Previous events could generate new data for sending.
 		PrivSend();
+		// The sending callbacks could request more data when the receiving attempt is
+		// already over.
+		if (myRecvSize > 0 && !myRecvEvent.IsLocked())
+			myTask.Reschedule();
 	}
 
 	void
-- 
2.43.0


From 307942b6097213b0ec78a8ddc215438fb668bce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 20/42] fix: shutdown of a not yet connected socket task fails
 an assertion in the following connect

---
 src/mg/aio/TCPSocketIFace.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/aio/TCPSocketIFace.cpp b/src/mg/aio/TCPSocketIFace.cpp
index 498966b..9b2dadd 100644
--- a/src/mg/aio/TCPSocketIFace.cpp
+++ b/src/mg/aio/TCPSocketIFace.cpp
@@ -197,6 +197,10 @@ namespace aio {
 		if (myState >= TCP_SOCKET_STATE_CLOSING)
 			return;
 		MG_BOX_ASSERT(myState != TCP_SOCKET_STATE_NEW);
+		// Might be an empty task without a socket. Then nothing to shutdown. It must not
+		// affect a connect which can be started later.
+		if (myState == TCP_SOCKET_STATE_EMPTY)
+			return;
 		if (myFrontCtl == nullptr)
 			myFrontCtl = new TCPSocketCtl(&myTask);
 		myFrontCtl->AddShutdown();
-- 
2.43.0


From a3c3fa98a0aedbfaedff7d1e3a3818aad6d878f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:55 +0000
Subject: [PATCH 21/42] fix: connect of a closing socket leaks the given
 descriptor

---
 src/mg/aio/TCPSocketIFace.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/aio/TCPSocketIFace.cpp b/src/mg/aio/TCPSocketIFace.cpp
index 9b2dadd..e0a422b 100644
--- a/src/mg/aio/TCPSocketIFace.cpp
+++ b/src/mg/aio/TCPSocketIFace.cpp
@@ -316,6 +316,9 @@ namespace aio {
 		if (myState == TCP_SOCKET_STATE_CLOSING)
 		{
 			myMutex.Unlock();
+			// The given socket is owned by the connect, even when it is not started.
+			if (params.mySocket != mg::net::theInvalidSocket)
+				mg::net::SocketClose(params.mySocket);
 			return;
 		}
 		MG_BOX_ASSERT(myState == TCP_SOCKET_STATE_EMPTY);
-- 
2.43.0


From 6ac8d512591324c55809abcb05e0bde5e00915d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:34 +0000
Subject: [PATCH 22/42] fix: shutdown of a wrapped socket before its first
 execution is lost

---
 src/mg/aio/TCPSocketCtl.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mg/aio/TCPSocketCtl.cpp b/src/mg/aio/TCPSocketCtl.cpp
index 278a8f2..660a2e4 100644
--- a/src/mg/aio/TCPSocketCtl.cpp
+++ b/src/mg/aio/TCPSocketCtl.cpp
@@ -207,9 +207,9 @@ namespace aio {
 	{
 		MG_BOX_ASSERT(myHasShutdown);
 		// Shutdown on a non-connected socket simply does not work. Wait to kill it later.
-		if (myHasConnect)
+		if (myHasConnect || myHasAttach)
 			return true;
-		
+
 		mg::net::Socket sock = myTask->GetSocket();
 		myHasShutdown = false;
 		// Might be an empty task without a socket. Then nothing to shutdown.
@@ -314,6 +314,11 @@ namespace aio {
 		myTask->AttachSocket(myAttachSocket);
 		myAttachSocket = mg::net::theInvalidSocket;
 		PrivStartHandshake();
+		if (myHasShutdown)
+		{
+			// Shutdown is already waiting. Same as with connect, need another round.
+			myTask->Reschedule();
+		}
 	}
 
 	bool
-- 
2.43.0


From 52b95cac7cf7cc7ceab5896c1f87890635db3f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 23/42] fix: repeated close of a closing TCP server fails an
 assertion

---
 src/mg/aio/TCPServer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/aio/TCPServer.cpp b/src/mg/aio/TCPServer.cpp
index 8929b2c..e628125 100644
--- a/src/mg/aio/TCPServer.cpp
+++ b/src/mg/aio/TCPServer.cpp
@@ -50,6 +50,8 @@ namespace aio {
 	TCPServer::PostClose()
 	{
 		mg::box::MutexLock lock(myMutex);
+		if (myState >= TCP_SERVER_STATE_CLOSING)
+			return;
 		if (myState == TCP_SERVER_STATE_LISTENING)
 		{
 			myState = TCP_SERVER_STATE_CLOSING;
-- 
2.43.0


From 4124ecf57480ab324b5d8ad58d2dd6b5a0794abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:52 +0000
Subject: [PATCH 24/42] fix: leftover space of the receive buffer fails an
 assertion in SSL socket

After receipt of less data than was requested the encrypted receive
queue keeps the unused buffers. When the next execution had no request
for receiving, the socket failed an assertion that the queue is empty.
---
 src/mg/aio/SSLSocket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/aio/SSLSocket.cpp b/src/mg/aio/SSLSocket.cpp
index 8e35c8f..86349da 100644
--- a/src/mg/aio/SSLSocket.cpp
+++ b/src/mg/aio/SSLSocket.cpp
@@ -242,7 +242,8 @@ namespace aio {
 		{
 			if (ProtWasHandshakeDone())
 			{
-				MG_BOX_ASSERT(myEncRecvQueue.IsEmpty());
+				// Might have some free space left from the last receipt, but never data.
+				MG_BOX_ASSERT(myEncRecvQueue.GetReadSize() == 0);
 				return;
 			}
 			myEncRecvQueue.EnsureWriteSize(mg::net::theBufferCopySize);
-- 
2.43.0


From a547c388a26fbc9892974b89cd9f30715beaa871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:43 +0000
Subject: [PATCH 25/42] fix: SSL socket delivers data before its connect and
 without a request

When the end of the handshake and the first application data arrived
together, OnRecv() was called before OnConnect() and without a request
for receiving. Now such data waits in the queue.
---
 src/mg/aio/SSLSocket.cpp | 45 ++++++++++++++++++++++++++--------------
 src/mg/aio/SSLSocket.h   |  4 ++++
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/mg/aio/SSLSocket.cpp b/src/mg/aio/SSLSocket.cpp
index 86349da..d0fb893 100644
--- a/src/mg/aio/SSLSocket.cpp
+++ b/src/mg/aio/SSLSocket.cpp
@@ -19,6 +19,8 @@ namespace aio {
 		IOCore& aCore)
 		: TCPSocketIFace(aCore)
 		, mySSL(nullptr)
+		, mySentSize(0)
+		, myHasPendingRecv(false)
 	{
 	}
 
@@ -29,6 +31,7 @@ namespace aio {
 		ProtOpen();
 		myEncSendQueue.Clear();
 		mySentSize = 0;
+		myHasPendingRecv = false;
 		delete mySSL;
 		mySSL = new mg::net::SSLStream(aParams.mySSL);
 		if (aParams.myDoEncrypt)
@@ -97,7 +100,7 @@ namespace aio {
 		PrivSend();
 		// The sending callbacks could request more data when the receiving attempt is
 		// already over.
-		if (myRecvSize > 0 && !myRecvEvent.IsLocked())
+		if (myRecvSize > 0 && (myHasPendingRecv || !myRecvEvent.IsLocked()))
 			myTask.Reschedule();
 	}
 
@@ -236,6 +239,8 @@ namespace aio {
 	void
 	SSLSocket::PrivRecv()
 	{
+		if (myHasPendingRecv && myRecvSize > 0 && ProtWasHandshakeDone())
+			PrivRecvDeliver();
 		if (!PrivRecvEventConsume())
 			return;
 		if (myRecvSize == 0)
@@ -270,32 +275,40 @@ namespace aio {
 			return;
 		}
 		myEncRecvQueue.PropagateWritePos(aByteCount);
-		uint64_t recvSizeWas = myRecvSize;
-		myRecvSize = 0;
 		mySSL->AppendNetInputRef(myEncRecvQueue.PopData());
 		mg::net::Buffer::Ptr head;
-		mySSL->PopAppOutput(head);
+		if (mySSL->PopAppOutput(head) > 0)
+			myHasPendingRecv = true;
 		myRecvQueue.WriteRef(std::move(head));
 		if (mySSL->HasError())
 		{
 			ProtOnRecvError(mg::net::ErrorRaiseSSL(mySSL->GetError(), "decrypt"));
 			return;
 		}
-		// If this was a part of the handshake, then need to handle it on a next wakeup.
 		if (!ProtWasHandshakeDone())
-			myTask.Reschedule();
-		if (!myRecvQueue.IsEmpty())
-		{
-			mg::net::BufferReadStream stream(myRecvQueue);
-			ProtOnRecv(stream);
-		}
-		else
 		{
-			// Keep reading until get data. User has requested it, so need to be reading
-			// until the data comes. Reading not returning any data can happen because
-			// some data is SSL-internal stuff, user shouldn't care about that.
-			myRecvSize = recvSizeWas;
+			// If this was a part of the handshake, then need to handle it on a next
+			// wakeup. The first app data might arrive together with the handshake's end.
+			// It can't be delivered before OnConnect().
+			myTask.Reschedule();
+			return;
 		}
+		// Keep reading until get data. User has requested it, so need to be reading until
+		// the data comes. Reading not returning any data can happen because some data is
+		// SSL-internal stuff, user shouldn't care about that.
+		if (myHasPendingRecv && myRecvSize > 0)
+			PrivRecvDeliver();
+	}
+
+	void
+	SSLSocket::PrivRecvDeliver()
+	{
+		MG_DEV_ASSERT(myHasPendingRecv && myRecvSize > 0);
+		MG_DEV_ASSERT(ProtWasHandshakeDone());
+		myHasPendingRecv = false;
+		myRecvSize = 0;
+		mg::net::BufferReadStream stream(myRecvQueue);
+		ProtOnRecv(stream);
 	}
 
 	void
diff --git a/src/mg/aio/SSLSocket.h b/src/mg/aio/SSLSocket.h
index 89e3794..2b2044d 100644
--- a/src/mg/aio/SSLSocket.h
+++ b/src/mg/aio/SSLSocket.h
@@ -61,6 +61,7 @@ namespace aio {
 			mg::box::Error* aError);
 		void PrivRecvCommit(
 			uint32_t aByteCount);
+		void PrivRecvDeliver();
 		bool PrivRecvEventConsume();
 
 		// SSL socket, on the contrary with TCP-one, has 2 pairs of queues, not one.
@@ -107,6 +108,9 @@ namespace aio {
 		// flush inside Encrypt() method. It would be a bad incident to start invoking
 		// user callbacks right in the user-called methods.
 		uint64_t mySentSize;
+		// Decrypted data which wasn't shown to the socket owner yet. It stays in the recv
+		// queue until the handshake is done and the owner requests receipt.
+		bool myHasPendingRecv;
 	};
 
 }
-- 
2.43.0


From a1816a2f953ab63561ae5ff5261615bfd0b7535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:29 +0000
Subject: [PATCH 26/42] fix: SSL socket reports its connect after an error of
 shutdown

When the requested shutdown failed while the handshake was almost done,
OnError() was followed by OnConnect().
---
 src/mg/aio/TCPSocketIFace.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mg/aio/TCPSocketIFace.cpp b/src/mg/aio/TCPSocketIFace.cpp
index e0a422b..8f8f6b5 100644
--- a/src/mg/aio/TCPSocketIFace.cpp
+++ b/src/mg/aio/TCPSocketIFace.cpp
@@ -572,6 +572,7 @@ namespace aio {
 	TCPSocketIFace::PrivCtl()
 	{
 		MG_DEV_ASSERT(myTask.IsInWorkerNow());
+		bool isFailed = false;
 		myMutex.Lock();
 		if (myFrontCtl == nullptr && myCtl == nullptr)
 			goto end;
@@ -592,7 +593,10 @@ namespace aio {
 		{
 			mg::box::Error::Ptr err;
 			if (!myCtl->DoShutdown(err))
+			{
+				isFailed = true;
 				ProtCloseError(mg::box::ErrorRaise(err, "shutdown"));
+			}
 		}
 		if (myCtl->HasAttach())
 		{
@@ -620,7 +624,8 @@ namespace aio {
 			// Otherwise connect is updated and not finished - still in progress, nothing
 			// to do. Wait for more events.
 		}
-		if (myCtl->HasHandshake())
+		// The handshake's end must not be reported as OnConnect() after OnError().
+		if (!isFailed && myCtl->HasHandshake())
 		{
 			myCtl->DoHandshake();
 			if (!myCtl->HasHandshake())
-- 
2.43.0


From 9bde404bfe55db79a00a07855ec24730eb28a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:15 +0000
Subject: [PATCH 27/42] fix: destruction of a not started io_uring core fails
 an assertion

The core's own event might be still not submitted. It is checked and
dropped by the platform-specific destruction.
---
 src/mg/aio/IOCore.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mg/aio/IOCore.cpp b/src/mg/aio/IOCore.cpp
index 8634fd7..5662fcf 100644
--- a/src/mg/aio/IOCore.cpp
+++ b/src/mg/aio/IOCore.cpp
@@ -56,9 +56,6 @@ namespace aio {
 	{
 		MG_BOX_ASSERT(WaitEmpty() == 0);
 		Stop();
-#if MG_IOCORE_USE_IOURING
-		MG_BOX_ASSERT(myToSubmitEvents.IsEmpty());
-#endif
 		MG_BOX_ASSERT(myDescriptorCount.LoadRelaxed() == 0);
 		MG_BOX_ASSERT(myPendingQueue.IsEmpty());
 		MG_BOX_ASSERT(myFrontQueue.IsEmpty());
-- 
2.43.0


From aea2a5f7089303075136e1567ece0f78c40951c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:25 +0000
Subject: [PATCH 28/42] fix: client accepted during closure of TCP server on
 io_uring leaks

---
 src/mg/aio/TCPServer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mg/aio/TCPServer.cpp b/src/mg/aio/TCPServer.cpp
index e628125..60dab4d 100644
--- a/src/mg/aio/TCPServer.cpp
+++ b/src/mg/aio/TCPServer.cpp
@@ -102,6 +102,16 @@ namespace aio {
 				"TCPServer is killed externally");
 			myState = TCP_SERVER_STATE_CLOSED;
 			myMutex.Unlock();
+#if MG_IOCORE_USE_IOURING
+			// The last accept could be completed while the server was being closed. Then
+			// the event is never going to be processed, but it owns the client's socket.
+			if (myAcceptEvent.IsLocked())
+			{
+				myAcceptEvent.Unlock();
+				if (!myAcceptEvent.IsEmpty() && !myAcceptEvent.IsError())
+					mg::net::SocketClose(myAcceptEvent.PopBytes());
+			}
+#endif
 			// Can access members here safely, because the server is kept alive by IOCore
 			// until the end of OnEvent().
 			TCPServerSubscription* sub = mySub;
-- 
2.43.0


From f65e5bdd6445b7fe50d7cc33a6e69a1027f27f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:53 +0000
Subject: [PATCH 29/42] fix: shutdown of an already closed SSL stream fails an
 assertion

---
 src/mg/net/SSLStreamOpenSSL.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/SSLStreamOpenSSL.cpp b/src/mg/net/SSLStreamOpenSSL.cpp
index 84e6b21..8a31288 100644
--- a/src/mg/net/SSLStreamOpenSSL.cpp
+++ b/src/mg/net/SSLStreamOpenSSL.cpp
@@ -65,7 +65,8 @@ namespace net {
 			PrivSetState(SSL_STREAM_OPENSSL_STATE_CLOSED);
 			return;
 		}
-		if (myState == SSL_STREAM_OPENSSL_STATE_CLOSING)
+		if (myState == SSL_STREAM_OPENSSL_STATE_CLOSING ||
+			myState == SSL_STREAM_OPENSSL_STATE_CLOSED)
 			return;
 		MG_BOX_ASSERT(
 			myState == SSL_STREAM_OPENSSL_STATE_CONNECTING ||
-- 
2.43.0


From c420f8cbcbd1049da4f1ebef1a55835ded0e1994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:22 +0000
Subject: [PATCH 30/42] fix: SSL stream in shutdown takes errors of other
 streams for own ones

---
 src/mg/net/SSLStreamOpenSSL.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/net/SSLStreamOpenSSL.cpp b/src/mg/net/SSLStreamOpenSSL.cpp
index 8a31288..12912ea 100644
--- a/src/mg/net/SSLStreamOpenSSL.cpp
+++ b/src/mg/net/SSLStreamOpenSSL.cpp
@@ -71,6 +71,7 @@ namespace net {
 		MG_BOX_ASSERT(
 			myState == SSL_STREAM_OPENSSL_STATE_CONNECTING ||
 			myState == SSL_STREAM_OPENSSL_STATE_CONNECTED);
+		OpenSSLPrepareToCall();
 		int rc = SSL_shutdown(mySSL);
 		if (rc == 0)
 		{
@@ -201,6 +202,7 @@ namespace net {
 		if (myState == SSL_STREAM_OPENSSL_STATE_CLOSING)
 		{
 			MG_BOX_ASSERT(myAppInput.IsEmpty());
+			OpenSSLPrepareToCall();
 			int rc = SSL_shutdown(mySSL);
 			if (rc == 1)
 				PrivSetState(SSL_STREAM_OPENSSL_STATE_CLOSED);
-- 
2.43.0


From 156332da7901c5a23090441b6aa0019ea16fcba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:18 +0000
Subject: [PATCH 31/42] fix: data received by SSL stream right before an error
 is lost

---
 src/mg/net/SSLStreamOpenSSL.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/net/SSLStreamOpenSSL.cpp b/src/mg/net/SSLStreamOpenSSL.cpp
index 12912ea..ba89eb6 100644
--- a/src/mg/net/SSLStreamOpenSSL.cpp
+++ b/src/mg/net/SSLStreamOpenSSL.cpp
@@ -172,8 +172,8 @@ namespace net {
 			tail = next;
 			next = PrivGetCachedBuf();
 		}
-		if (!PrivCheckError(rc))
-			return 0;
+		// What was decrypted before the stream got closed or broken is still valid.
+		PrivCheckError(rc);
 		aOutHead = std::move(head);
 		return byteCount;
 	}
-- 
2.43.0


From 1080025f98533dd31931c25cfb95e3b69dcbc5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:18 +0000
Subject: [PATCH 32/42] fix: SSL stream fails an assertion on a closure alert
 during handshake

---
 src/mg/net/SSLStreamOpenSSL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/net/SSLStreamOpenSSL.cpp b/src/mg/net/SSLStreamOpenSSL.cpp
index ba89eb6..ed544dc 100644
--- a/src/mg/net/SSLStreamOpenSSL.cpp
+++ b/src/mg/net/SSLStreamOpenSSL.cpp
@@ -295,7 +295,7 @@ namespace net {
 		if (err == SSL_ERROR_ZERO_RETURN)
 		{
 			PrivSetState(SSL_STREAM_OPENSSL_STATE_CLOSING);
-			return true;
+			return false;
 		}
 		if (err == SSL_ERROR_SSL)
 			PrivClose(ERR_get_error());
-- 
2.43.0


From 0cede3a8b0126adda0fc38789e098060a7f0e4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:15 +0000
Subject: [PATCH 33/42] fix: default trust of SSL context does not verify
 certificates

---
 src/mg/net/SSLContextOpenSSL.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/net/SSLContextOpenSSL.cpp b/src/mg/net/SSLContextOpenSSL.cpp
index f480bad..7f11d37 100644
--- a/src/mg/net/SSLContextOpenSSL.cpp
+++ b/src/mg/net/SSLContextOpenSSL.cpp
@@ -107,6 +107,8 @@ namespace net {
 		// lives until all SSLs are deleted. It allows to use object's members in various
 		// callbacks which are activated by SSLs.
 		SSL_CTX_set_ex_data(myConfig, OpenSSLGetContextIndex(), this);
+		// OpenSSL by default doesn't verify anything.
+		SetTrust(myTrust);
 	}
 
 	SSLContextOpenSSL::~SSLContextOpenSSL()
-- 
2.43.0


From e56fda8ce6e3b92ef4d39aa01fab39dfec020ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:58 +0000
Subject: [PATCH 34/42] fix: data written during SSL handshake is lost on
 shutdown right after it

---
 src/mg/net/SSLStreamOpenSSL.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/SSLStreamOpenSSL.cpp b/src/mg/net/SSLStreamOpenSSL.cpp
index ed544dc..dc85e52 100644
--- a/src/mg/net/SSLStreamOpenSSL.cpp
+++ b/src/mg/net/SSLStreamOpenSSL.cpp
@@ -222,7 +222,9 @@ namespace net {
 		if (rc != 1)
 			return PrivCheckError(rc);
 		PrivSetState(SSL_STREAM_OPENSSL_STATE_CONNECTED);
-		return true;
+		// The data collected during the handshake must not be lost if the stream gets shut
+		// down right now.
+		return PrivFlushAppInput();
 	}
 
 	bool
-- 
2.43.0


From 4a1efea5c11d95687525c320a0fdfdee6dac137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:08 +0000
Subject: [PATCH 35/42] fix: SSL stream delays encryption of all data after a
 handshake and loses it on shutdown

---
 src/mg/net/SSLStreamOpenSSL.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/SSLStreamOpenSSL.cpp b/src/mg/net/SSLStreamOpenSSL.cpp
index dc85e52..6bf0a15 100644
--- a/src/mg/net/SSLStreamOpenSSL.cpp
+++ b/src/mg/net/SSLStreamOpenSSL.cpp
@@ -124,7 +124,8 @@ namespace net {
 			MG_BOX_ASSERT(myState == SSL_STREAM_OPENSSL_STATE_CONNECTING);
 			goto fallback;
 		}
-		if (!myAppInput.IsEmpty())
+		// Not IsEmpty() - the stream might have free space without any data.
+		if (myAppInput.GetReadSize() > 0)
 			goto fallback;
 		rc = PrivAppWrite(aData, aSize);
 		if (rc < 0)
-- 
2.43.0


From d2a4d58b41d21edbb344e4f422abd82921b9bc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:19 +0000
Subject: [PATCH 36/42] fix: certificates can't be added to SSL context in some
 of the trust modes

---
 src/mg/net/SSLContextOpenSSL.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/net/SSLContextOpenSSL.cpp b/src/mg/net/SSLContextOpenSSL.cpp
index 7f11d37..cfa1e50 100644
--- a/src/mg/net/SSLContextOpenSSL.cpp
+++ b/src/mg/net/SSLContextOpenSSL.cpp
@@ -145,6 +145,7 @@ namespace net {
 			ok = OpenSSLVerifyCert(aFile, yesRSA);
 			break;
 		case SSL_TRUST_UNSECURE:
+		case SSL_TRUST_BYPASS_VERIFICATION:
 			ok = OpenSSLVerifyCert(aFile, yesRSA);
 			break;
 		default:
@@ -210,6 +211,7 @@ namespace net {
 		case SSL_TRUST_RELAXED:
 			ok = OpenSSLVerifyCert(aCertFile, yesRSA);
 			break;
+		case SSL_TRUST_UNSECURE:
 		case SSL_TRUST_BYPASS_VERIFICATION:
 			ok = OpenSSLVerifyCert(aCertFile, yesRSA);
 			break;
@@ -267,6 +269,7 @@ namespace net {
 			ok = pubKeyType == EVP_PKEY_EC;
 			break;
 		case SSL_TRUST_RELAXED:
+		case SSL_TRUST_UNSECURE:
 		case SSL_TRUST_BYPASS_VERIFICATION:
 			ok = pubKeyType == EVP_PKEY_EC || pubKeyType == EVP_PKEY_RSA;
 			break;
-- 
2.43.0


From 3dd5949edebbcc1e8671dba80d87175ab91f57b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:37 +0000
Subject: [PATCH 37/42] fix: asynchronous sio connect loses its error

The check of the socket's state was inverted. The real error was overwritten
with ERR_NET_ABORTED, and when there was none, none was reported at all and the
connect looked like still being in progress.
---
 src/mg/sio/Socket_Unix.cpp | 2 +-
 src/mg/sio/Socket_Win.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/sio/Socket_Unix.cpp b/src/mg/sio/Socket_Unix.cpp
index 1a6bb15..cdbef8c 100755
--- a/src/mg/sio/Socket_Unix.cpp
+++ b/src/mg/sio/Socket_Unix.cpp
@@ -128,7 +128,7 @@ namespace sio {
 		MG_DEV_ASSERT(rc == 1);
 		if (fd.revents == POLLOUT)
 			return true;
-		if (!mg::net::SocketCheckState(aSock, aOutErr))
+		if (mg::net::SocketCheckState(aSock, aOutErr))
 			aOutErr = mg::box::ErrorRaise(mg::box::ERR_NET_ABORTED, "async connect");
 		return false;
 	}
diff --git a/src/mg/sio/Socket_Win.cpp b/src/mg/sio/Socket_Win.cpp
index 6bf0d26..3c9587b 100755
--- a/src/mg/sio/Socket_Win.cpp
+++ b/src/mg/sio/Socket_Win.cpp
@@ -114,7 +114,7 @@ namespace sio {
 		if (FD_ISSET(aSock, &writeSet))
 			return true;
 		MG_BOX_ASSERT(FD_ISSET(aSock, &errSet));
-		if (!mg::net::SocketCheckState(aSock, aOutErr))
+		if (mg::net::SocketCheckState(aSock, aOutErr))
 			aOutErr = mg::box::ErrorRaise(mg::box::ERR_NET_ABORTED, "async connect");
 		return false;
 	}
-- 
2.43.0


From 1953067a2a5b307da2cbd029f97e8ecb8c9617b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:52 +0000
Subject: [PATCH 38/42] fix: sio socket fails on sending of empty buffers

sendmsg() of nothing returns 0, which was treated as an error with whatever was
in errno, and as a broken assertion in debug.
---
 src/mg/sio/TCPSocket.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/sio/TCPSocket.cpp b/src/mg/sio/TCPSocket.cpp
index ec8f65f..5d6e64a 100644
--- a/src/mg/sio/TCPSocket.cpp
+++ b/src/mg/sio/TCPSocket.cpp
@@ -166,6 +166,8 @@ namespace sio {
 		mg::box::Error::Ptr& aOutErr)
 	{
 		MG_DEV_ASSERT(myState == TCP_SOCKET_STATE_CONNECTED);
+		// The user could send empty buffers. There is nothing to give to the kernel then.
+		myOutput.SkipEmptyPrefix(mySendOffset);
 		if (myOutput.IsEmpty())
 			return true;
 		int64_t rc = SocketSend(mySocket, myOutput, mySendOffset, aOutErr);
-- 
2.43.0


From 0b45d5c4e3202920b52d5fadeb2b5bb45cdac44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:00 +0000
Subject: [PATCH 39/42] fix: IOCore::Stop() could sleep until the closest
 deadline

The scheduler, having consumed the event about the stop, but not having noticed
the stop before, went to sleep when there were tasks with deadlines. Nothing
would wake it up then.
---
 src/mg/aio/IOCore_IOCP.cpp    | 14 ++++++++------
 src/mg/aio/IOCore_epoll.cpp   | 14 ++++++++------
 src/mg/aio/IOCore_iouring.cpp | 14 ++++++++------
 src/mg/aio/IOCore_kqueue.cpp  | 14 ++++++++------
 4 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/mg/aio/IOCore_IOCP.cpp b/src/mg/aio/IOCore_IOCP.cpp
index d03114e..d48e6f6 100644
--- a/src/mg/aio/IOCore_IOCP.cpp
+++ b/src/mg/aio/IOCore_IOCP.cpp
@@ -326,6 +326,14 @@ namespace aio {
 		if (didWait)
 			return false;
 
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		{
+			// The scheduler might be woken up by the special event for shutting down.
+			// Need to exit instead of going into the sleep. Even when there are
+			// deadlines to wait for - the event is already consumed and nothing else
+			// would interrupt the sleep until the closest deadline.
+			return false;
+		}
 		if (myWaitingQueue.Count() != 0)
 		{
 			uint64_t deadline = myWaitingQueue.GetTop()->myDeadline;
@@ -341,12 +349,6 @@ namespace aio {
 				duration = INFINITE - 1;
 			timeout = (DWORD)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
-		{
-			// The scheduler might be woken up by the special event for shutting down.
-			// Need to exit instead of going into the infinite sleep.
-			return false;
-		}
 		else
 		{
 			timeout = INFINITE;
diff --git a/src/mg/aio/IOCore_epoll.cpp b/src/mg/aio/IOCore_epoll.cpp
index d52571f..4437c4a 100644
--- a/src/mg/aio/IOCore_epoll.cpp
+++ b/src/mg/aio/IOCore_epoll.cpp
@@ -340,6 +340,14 @@ namespace aio {
 		pfd.fd = myNativeCore;
 		pfd.events = POLLIN;
 		int pollTimeout = -1;
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		{
+			// The scheduler might be woken up by the special event for shutting down.
+			// Need to exit instead of going into the sleep. Even when there are
+			// deadlines to wait for - the event is already consumed and nothing else
+			// would interrupt the sleep until the closest deadline.
+			return false;
+		}
 		if (myWaitingQueue.Count() != 0)
 		{
 			uint64_t deadline = myWaitingQueue.GetTop()->myDeadline;
@@ -351,12 +359,6 @@ namespace aio {
 				duration = INT_MAX;
 			pollTimeout = (int)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
-		{
-			// The scheduler might be woken up by the special event for shutting down.
-			// Need to exit instead of going into the infinite sleep.
-			return false;
-		}
 		poll(&pfd, 1, pollTimeout);
 		return false;
 	}
diff --git a/src/mg/aio/IOCore_iouring.cpp b/src/mg/aio/IOCore_iouring.cpp
index 48197a0..617d6dc 100644
--- a/src/mg/aio/IOCore_iouring.cpp
+++ b/src/mg/aio/IOCore_iouring.cpp
@@ -490,6 +490,14 @@ namespace aio {
 		pfd.fd = myRingEventFd;
 		pfd.events = POLLIN;
 		int pollTimeout = -1;
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		{
+			// The scheduler might be woken up by the special event for shutting down.
+			// Need to exit instead of going into the sleep. Even when there are
+			// deadlines to wait for - the event is already consumed and nothing else
+			// would interrupt the sleep until the closest deadline.
+			return false;
+		}
 		if (myWaitingQueue.Count() != 0)
 		{
 			uint64_t deadline = myWaitingQueue.GetTop()->myDeadline;
@@ -501,12 +509,6 @@ namespace aio {
 				duration = INT_MAX;
 			pollTimeout = (int)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
-		{
-			// The scheduler might be woken up by the special event for shutting down.
-			// Need to exit instead of going into the infinite sleep.
-			return false;
-		}
 		if (poll(&pfd, 1, pollTimeout) > 0)
 		{
 			uint64_t num;
diff --git a/src/mg/aio/IOCore_kqueue.cpp b/src/mg/aio/IOCore_kqueue.cpp
index 8c01be2..269498a 100644
--- a/src/mg/aio/IOCore_kqueue.cpp
+++ b/src/mg/aio/IOCore_kqueue.cpp
@@ -350,6 +350,14 @@ namespace aio {
 		pfd.fd = myNativeCore;
 		pfd.events = POLLIN;
 		int pollTimeout = -1;
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		{
+			// The scheduler might be woken up by the special event for shutting down.
+			// Need to exit instead of going into the sleep. Even when there are
+			// deadlines to wait for - the event is already consumed and nothing else
+			// would interrupt the sleep until the closest deadline.
+			return false;
+		}
 		if (myWaitingQueue.Count() != 0)
 		{
 			uint64_t deadline = myWaitingQueue.GetTop()->myDeadline;
@@ -361,12 +369,6 @@ namespace aio {
 				duration = INT_MAX;
 			pollTimeout = (int)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
-		{
-			// The scheduler might be woken up by the special event for shutting down.
-			// Need to exit instead of going into the infinite sleep.
-			return false;
-		}
 
 		poll(&pfd, 1, pollTimeout);
 		return false;
-- 
2.43.0


From 0da52a294d911b2217d37da51e0f077466eba478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:01 +0000
Subject: [PATCH 40/42] fix: IO task re-posted in its closing callback is still
 treated as owned by that worker

---
 src/mg/aio/IOTask.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/aio/IOTask.cpp b/src/mg/aio/IOTask.cpp
index f606208..f7baef8 100755
--- a/src/mg/aio/IOTask.cpp
+++ b/src/mg/aio/IOTask.cpp
@@ -304,6 +304,9 @@ namespace aio {
 			// Clear the guard in the end to prevent a new closure while the task is being
 			// re-created.
 			MG_BOX_ASSERT(myCloseGuard.ExchangeRelaxed(false));
+			// As soon as the task is posted, it can be executed by another worker. The
+			// current one doesn't own it anymore, even though its callback isn't over.
+			theCurrentIOTask = nullptr;
 		}
 		else
 		{
-- 
2.43.0


From 8c0369378bab129e17ec9841b6c66b5c43445f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:17 +0000
Subject: [PATCH 41/42] fix: buffers moved into a closed socket leak

---
 src/mg/aio/TCPSocketIFace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/aio/TCPSocketIFace.cpp b/src/mg/aio/TCPSocketIFace.cpp
index 8f8f6b5..451889e 100644
--- a/src/mg/aio/TCPSocketIFace.cpp
+++ b/src/mg/aio/TCPSocketIFace.cpp
@@ -234,7 +234,8 @@ namespace aio {
 		MG_DEV_ASSERT(myTask.IsInWorkerNow());
 		if (myTask.IsClosed())
 		{
-			delete aHead;
+			mg::net::BufferLinkList trash;
+			trash.AppendMove(aHead);
 			return;
 		}
 		mySendQueue.AppendMove(aHead);
-- 
2.43.0


From 8d48749e29d9b37a13dceaa4914b03dee9a919fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:17 +0000
Subject: [PATCH 42/42] fix: IO requested in OnClose() is lost after Open() and
 fails an assertion before it

---
 src/mg/aio/TCPSocketIFace.cpp | 14 +++++++++++++-
 src/mg/aio/TCPSocketIFace.h   |  4 ++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/mg/aio/TCPSocketIFace.cpp b/src/mg/aio/TCPSocketIFace.cpp
index 451889e..f537f8f 100644
--- a/src/mg/aio/TCPSocketIFace.cpp
+++ b/src/mg/aio/TCPSocketIFace.cpp
@@ -232,7 +232,7 @@ namespace aio {
 		mg::net::BufferLink* aHead)
 	{
 		MG_DEV_ASSERT(myTask.IsInWorkerNow());
-		if (myTask.IsClosed())
+		if (PrivIsDead())
 		{
 			mg::net::BufferLinkList trash;
 			trash.AppendMove(aHead);
@@ -290,6 +290,8 @@ namespace aio {
 		uint64_t aSize)
 	{
 		MG_DEV_ASSERT(myTask.IsInWorkerNow());
+		if (PrivIsDead())
+			return;
 		myRecvSize += aSize;
 	}
 
@@ -569,6 +571,16 @@ namespace aio {
 		return myState >= TCP_SOCKET_STATE_CLOSING;
 	}
 
+	bool
+	TCPSocketIFace::PrivIsDead() const
+	{
+		MG_DEV_ASSERT(myTask.IsInWorkerNow());
+		if (!myTask.IsClosed())
+			return false;
+		mg::box::MutexLock lock(myMutex);
+		return !myIsReadyToStart;
+	}
+
 	void
 	TCPSocketIFace::PrivCtl()
 	{
diff --git a/src/mg/aio/TCPSocketIFace.h b/src/mg/aio/TCPSocketIFace.h
index bbac828..20bd2a9 100644
--- a/src/mg/aio/TCPSocketIFace.h
+++ b/src/mg/aio/TCPSocketIFace.h
@@ -221,6 +221,10 @@ namespace aio {
 		// raised then.
 		bool PrivIsCompromised() const;
 
+		// Dead means the closing is over and the socket isn't opened again yet. There is
+		// nobody to serve any new requests.
+		bool PrivIsDead() const;
+
 		void PrivCtl();
 		void PrivEnableIO();
 		void PrivDisableIO();
-- 
2.43.0

