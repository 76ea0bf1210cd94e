From 8e4a61d535922530d528183deb7fadfb460a3a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:03 +0000
Subject: [PATCH 01/42] fix: worker pool destructor could hang forever on a
 lost wakeup

~Workers() set m_bStop and notified without holding the mutex. A worker that
had already evaluated its wait predicate to false, but had not yet blocked on
the condition variable, missed the notification and slept forever, so that
join() in the destructor never returned.
---
 nntl/interface/threads/workers.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/threads/workers.h b/nntl/interface/threads/workers.h
index 177f22c..cc1a028 100644
--- a/nntl/interface/threads/workers.h
+++ b/nntl/interface/threads/workers.h
@@ -92,11 +92,12 @@ namespace threads {
 
 	public:
 		~Workers()noexcept {
+			//m_bStop must be set under the mutex, or else a worker that has just evaluated its wait predicate, but is not
+			//sleeping yet, would miss the notification and the join() below would never return
+			m_mutex.lock();
 			m_bStop = true;
-
-			//m_mutex.lock();
 			m_waitingOrders.notify_all();
-			//m_mutex.unlock();
+			m_mutex.unlock();
 
 			for (auto& t : m_threads)  t.join();
 		}
-- 
2.43.0


From 365e4bb610bff1134f818f04ac0c70de450854a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:38 +0000
Subject: [PATCH 02/42] fix: background exec() raced with workers and could be
 starved by an endless task

A worker checked its pending exec() flag without holding the mutex. It raced with
exec(), and a worker that had just missed the flag went on to serve tasks while
exec() waited for it: forever, if a task always has more work to do.
---
 nntl/interface/threads/bgworkers.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nntl/interface/threads/bgworkers.h b/nntl/interface/threads/bgworkers.h
index fee760a..24468a8 100644
--- a/nntl/interface/threads/bgworkers.h
+++ b/nntl/interface/threads/bgworkers.h
@@ -297,7 +297,11 @@ namespace threads {
 				});
 				if (m_bStop) break;
 
+				//the decision has to be made while holding the mutex, because exec() may be changing bHas2Exec right now. Moreover,
+				//a worker that missed a pending exec() request must not start working on tasks, or exec() may wait for too long.
+				m_mutexTasks.lock_shared();
 				if (bHas2Exec) {
+					m_mutexTasks.unlock_shared();
 					m_execFn(id);
 
 					m_mutexTasks.lock_shared();
@@ -308,8 +312,6 @@ namespace threads {
 
 					m_mutexTasks.unlock_shared();
 				} else {
-					m_mutexTasks.lock_shared();
-
 					auto itCur = m_tasks.cbegin();
 					const auto itLast = m_tasks.cend();
 					while (!m_bGo2Waiting && itCur != itLast) {
-- 
2.43.0


From 16a3c624f84a7072afecc8f532a95c3d5cbb249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:01 +0000
Subject: [PATCH 03/42] fix: unsynchronised access to the task wait timeout of
 background workers

---
 nntl/interface/threads/bgworkers.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nntl/interface/threads/bgworkers.h b/nntl/interface/threads/bgworkers.h
index 24468a8..ba1f01a 100644
--- a/nntl/interface/threads/bgworkers.h
+++ b/nntl/interface/threads/bgworkers.h
@@ -130,7 +130,8 @@ namespace threads {
 		::std::atomic<bool> m_bStop;
 		::std::atomic<bool> m_bGo2Waiting;
 
-		::std::chrono::milliseconds m_taskWaitTO{ 10 };
+		//workers read it without holding the mutex, so it must be atomic
+		::std::atomic<::std::chrono::milliseconds> m_taskWaitTO{ ::std::chrono::milliseconds(10) };
 
 		TaskSet_t m_tasks;
 
@@ -211,8 +212,8 @@ namespace threads {
 		self_t& set_task_wait_timeout(const ::std::chrono::duration<Rep, Period>& to)noexcept {
 			NNTL_ASSERT(to >= ::std::chrono::milliseconds(1));
 			disperse_locker_t d(m_mutexTasks, m_bGo2Waiting);
-			m_taskWaitTO = ::std::chrono::duration_cast<decltype(m_taskWaitTO)>(to);
-			if (!m_taskWaitTO.count()) m_taskWaitTO = ::std::chrono::milliseconds(1);
+			const auto newTO = ::std::chrono::duration_cast<::std::chrono::milliseconds>(to);
+			m_taskWaitTO = newTO.count() ? newTO : ::std::chrono::milliseconds(1);
 			return *this;
 		}
 
@@ -287,9 +288,9 @@ namespace threads {
 
 			auto& bHas2Exec = m_threadHasSmth2Exec[id];
 			while (true) {
-				::std::atomic_thread_fence(::std::memory_order_acquire);//for m_taskWaitTO usage before mutex acquisition.
-				const auto sleepUntil = ::std::chrono::steady_clock::now() + m_taskWaitTO;
-				Sync_t::lockShared_waitFor_unlock(m_mutexTasks, m_waitingOrders, m_taskWaitTO
+				const ::std::chrono::milliseconds taskWaitTO = m_taskWaitTO;
+				const auto sleepUntil = ::std::chrono::steady_clock::now() + taskWaitTO;
+				Sync_t::lockShared_waitFor_unlock(m_mutexTasks, m_waitingOrders, taskWaitTO
 					, [&bStop = m_bStop, &bGo2Waiting = m_bGo2Waiting
 					, &tasks = m_tasks, &utime = sleepUntil, &h2e = bHas2Exec]()noexcept
 				{
-- 
2.43.0


From 39dcbb755c5cd2d01e78813cc4465a71dbe837aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:30 +0000
Subject: [PATCH 04/42] fix: background exec() could wait forever for the mutex
 while an endless task runs

---
 nntl/interface/threads/bgworkers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/interface/threads/bgworkers.h b/nntl/interface/threads/bgworkers.h
index ba1f01a..e854b17 100644
--- a/nntl/interface/threads/bgworkers.h
+++ b/nntl/interface/threads/bgworkers.h
@@ -261,11 +261,11 @@ namespace threads {
 			m_execFn = CallH_t::wrap<FExec>(::std::forward<FExec>(func));
 			for (auto& e : m_threadHasSmth2Exec) e = char(true);
 			m_workingCnt = m_threadHasSmth2Exec.size();
-
-			m_bGo2Waiting = false;
 			m_mutexTasks.unlock();
 
+			//tasks are kept suspended until we're finished, else they might prevent us from obtaining the mutex
 			Sync_t::lock_wait_unlock(m_mutexTasks, m_orderDone, [&wc = m_workingCnt]() {return wc <= 0; });
+			m_bGo2Waiting = false;
 
 			m_execFn.reset();//shouldn't harm when done here while outside of mutex
 			return *this;
-- 
2.43.0


From dc170a90b547b05bac58c7dbf41628cca3267458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:07 +0000
Subject: [PATCH 05/42] fix: the whole circular buffer could be claimed twice
 while it is empty

---
 nntl/utils/data_buffer.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nntl/utils/data_buffer.h b/nntl/utils/data_buffer.h
index 34e19e9..983c533 100644
--- a/nntl/utils/data_buffer.h
+++ b/nntl/utils/data_buffer.h
@@ -186,6 +186,7 @@ namespace utils {
 		size_t m_afterLastValidIdx{ 0 }; //last initialized element+1, so for a full container it is either 
 										 // equals to m_curIdx if m_curIdx!=0, or equals to m_total. Modifiable only by a one of bgthreads
 		size_t m_afterLastClaimedIdx{ 0 };//last claimed by bgthread element+1. zero means uninitialized
+		size_t m_claimed{ 0 };//total number of elements claimed, but not passed to _as_done() yet
 		bool m_bEmpty{ true };
 
 	public:
@@ -294,7 +295,8 @@ namespace utils {
 			NNTL_ASSERT(bStateOK());
 
 			size_t r;
-			if (!m_bEmpty && ((m_afterLastClaimedIdx && m_afterLastClaimedIdx == m_curIdx) || (!m_curIdx && m_afterLastClaimedIdx == m_total))) {
+			//an empty buffer still has nothing to claim, if all of it has been claimed already
+			if ((!m_bEmpty || m_claimed) && ((m_afterLastClaimedIdx && m_afterLastClaimedIdx == m_curIdx) || (!m_curIdx && m_afterLastClaimedIdx == m_total))) {
 				//the buffer is either already full or will been generated to its full condition soon. Nothing should be done.
 				r = 0;
 			} else {
@@ -343,6 +345,8 @@ namespace utils {
 				}
 			}
 			NNTL_ASSERT(r <= n);
+			m_claimed += r;
+			NNTL_ASSERT(m_claimed <= m_total);
 			NNTL_ASSERT(m_afterLastClaimedIdx > 0);
 			NNTL_ASSERT(bStateOK());
 			//m_bufMutex.unlock();
@@ -359,7 +363,9 @@ namespace utils {
 
 			NNTL_ASSERT(bStateOK());
 			//NNTL_ASSERT(!m_afterLastValidIdx || m_curIdx != m_afterLastValidIdx);
-			NNTL_ASSERT(m_afterLastValidIdx != m_afterLastClaimedIdx);
+			NNTL_ASSERT(m_afterLastValidIdx != m_afterLastClaimedIdx || m_bEmpty);
+			NNTL_ASSERT(n <= m_claimed);
+			m_claimed -= n;
 
 			//deciding where to put the data
 			if (m_afterLastValidIdx < m_afterLastClaimedIdx) {
-- 
2.43.0


From 0fe74e686be19e3773b1a7c7eeb79dc73c88b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:53 +0000
Subject: [PATCH 06/42] fix: native timed waits reported timeouts inverted and
 never timed out with a predicate

---
 nntl/interface/threads/_sync_primitives.h | 32 ++++++++++-------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/nntl/interface/threads/_sync_primitives.h b/nntl/interface/threads/_sync_primitives.h
index 25f5c26..77f5dfc 100644
--- a/nntl/interface/threads/_sync_primitives.h
+++ b/nntl/interface/threads/_sync_primitives.h
@@ -284,14 +284,14 @@ namespace threads {
 				auto sleepUntil = ::std::chrono::steady_clock::now() + rel_time;
 				::SleepConditionVariableSRW(&m_var, l, _to_ms(rel_time), 0);
 				::std::atomic_thread_fence(::std::memory_order_acquire);
-				return sleepUntil > ::std::chrono::steady_clock::now() ? ::std::cv_status::timeout : ::std::cv_status::no_timeout;
+				return sleepUntil > ::std::chrono::steady_clock::now() ? ::std::cv_status::no_timeout : ::std::cv_status::timeout;
 			}
 			template< class Rep, class Period >
 			::std::cv_status wait_for_shared(win_srwlock& l, const ::std::chrono::duration<Rep, Period>& rel_time) {
 				auto sleepUntil = ::std::chrono::steady_clock::now() + rel_time;
 				::SleepConditionVariableSRW(&m_var, l, _to_ms(rel_time), CONDITION_VARIABLE_LOCKMODE_SHARED);
 				::std::atomic_thread_fence(::std::memory_order_acquire);
-				return sleepUntil > ::std::chrono::steady_clock::now() ? ::std::cv_status::timeout : ::std::cv_status::no_timeout;
+				return sleepUntil > ::std::chrono::steady_clock::now() ? ::std::cv_status::no_timeout : ::std::cv_status::timeout;
 			}
 
 			template< class Rep, class Period >
@@ -303,33 +303,29 @@ namespace threads {
 				return wait_for_shared(*l.mutex(), rel_time);
 			}
 			//////////////////////////////////////////////////////////////////////////
-#pragma warning(disable:4706)
 			template<class Rep, class Period, typename Predicate>
 			bool wait_for(win_srwlock& l, const ::std::chrono::duration<Rep, Period>& rel_time, Predicate&& pred)noexcept {
-				::std::cv_status r(::std::cv_status::no_timeout);
-				bool b;
-				//while (!(b = ((::std::forward<Predicate>(pred))()))) {
-				while (!(b = (pred()))) {
-					r = wait_for(l, rel_time);
+				const auto sleepUntil = ::std::chrono::steady_clock::now() + rel_time;
+				while (!(pred())) {
+					const auto curTime = ::std::chrono::steady_clock::now();
+					if (curTime >= sleepUntil) return false;
+					wait_for(l, ::std::chrono::duration_cast<::std::chrono::milliseconds>(sleepUntil - curTime) + ::std::chrono::milliseconds(1));
 				}
-				return r == ::std::cv_status::no_timeout ? true : b;
-#pragma warning(default:4706)
+				return true;
 			}
 			template<class Rep, class Period, typename Predicate>
 			bool wait_for(::std::unique_lock<win_srwlock>& l, const ::std::chrono::duration<Rep, Period>& rel_time, Predicate&& pred)noexcept {
 				return wait_for(*l.mutex(), rel_time, ::std::forward<Predicate>(pred));
 			}
-#pragma warning(disable:4706)
 			template<class Rep, class Period, typename Predicate>
 			bool wait_for_shared(win_srwlock& l, const ::std::chrono::duration<Rep, Period>& rel_time, Predicate&& pred)noexcept {
-				::std::cv_status r(::std::cv_status::no_timeout);
-				bool b;
-				//while (!(b = ((::std::forward<Predicate>(pred))()))) {
-				while (!(b = (pred()))) {
-					r = wait_for_shared(l, rel_time);
+				const auto sleepUntil = ::std::chrono::steady_clock::now() + rel_time;
+				while (!(pred())) {
+					const auto curTime = ::std::chrono::steady_clock::now();
+					if (curTime >= sleepUntil) return false;
+					wait_for_shared(l, ::std::chrono::duration_cast<::std::chrono::milliseconds>(sleepUntil - curTime) + ::std::chrono::milliseconds(1));
 				}
-				return r == ::std::cv_status::no_timeout ? true : b;
-#pragma warning(default:4706)
+				return true;
 			}
 			template<class Rep, class Period, typename Predicate>
 			bool wait_for(::std::shared_lock<win_srwlock>& l, const ::std::chrono::duration<Rep, Period>& rel_time, Predicate&& pred)noexcept {
-- 
2.43.0


From b9cd3cf1262219810a147f68b4a9f94488858f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:18 +0000
Subject: [PATCH 07/42] fix: generic normal_vector() used the vector length as
 the standard deviation

---
 nntl/interface/_i_rng.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/interface/_i_rng.h b/nntl/interface/_i_rng.h
index e453a25..ca87e6d 100644
--- a/nntl/interface/_i_rng.h
+++ b/nntl/interface/_i_rng.h
@@ -235,7 +235,7 @@ namespace rng {
 		//////////////////////////////////////////////////////////////////////////
 		//////////////////////////////////////////////////////////////////////////
 		void normal_vector(real_t*const ptr, const numel_cnt_t n, const real_t m = real_t(0.), const real_t st = real_t(1.))noexcept {
-			::std::normal_distribution<real_t> distr(m,n);
+			::std::normal_distribution<real_t> distr(m, st);
 			for (numel_cnt_t i = 0; i < n; ++i) {
 				ptr[i] = distr(*this);
 			}
-- 
2.43.0


From 85c283a7857ee8b434a1dd4ca13f93a4f1d3c975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:56 +0000
Subject: [PATCH 08/42] fix: give grad_works its common data before ILR_init()
 uses iMath

gw_init() called ILR_init() before set_common_data(), so training any layer
with individual learning rates enabled dereferenced a null common data
pointer.
---
 nntl/grad_works/grad_works.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/grad_works/grad_works.h b/nntl/grad_works/grad_works.h
index fd24878..cd9c7a9 100644
--- a/nntl/grad_works/grad_works.h
+++ b/nntl/grad_works/grad_works.h
@@ -300,9 +300,9 @@ namespace nntl {
 				if (!m_optMtxB.resize(weightsSize))return false;
 			}
 
-			if (!ILR_init(weightsSize))return false;
+			set_common_data(cd);//ILR_init() needs iMath
 
-			set_common_data(cd);
+			if (!ILR_init(weightsSize))return false;
 
 			//we would need twice weightsNumel to make LRDropout for NesterovMomentum if necessary
 			//Currently also see implementation of max_norm2 enforcer mCheck_normalize_rows()
-- 
2.43.0


From ecdab3c30b15464b033ba1a2ac658a52b256e3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:59 +0000
Subject: [PATCH 09/42] fix: walk_over_set() skipped the last sample of a set
 when the remainder was one

---
 nntl/train_data/_train_data_simple.h | 2 +-
 nntl/train_data/transf_train_data.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index 094bad4..ddc6c16 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -366,7 +366,7 @@ namespace nntl {
 				}
 
 				const auto _dr = ::std::div(dsNumel, static_cast<numel_cnt_t>(batchSize));
-				const auto numBatches = _dr.quot + (_dr.rem > 1);
+				const auto numBatches = _dr.quot + (_dr.rem > 0);
 				NNTL_ASSERT(numBatches > 0);
 				return numBatches;
 			}
diff --git a/nntl/train_data/transf_train_data.h b/nntl/train_data/transf_train_data.h
index 51d2262..0848e75 100644
--- a/nntl/train_data/transf_train_data.h
+++ b/nntl/train_data/transf_train_data.h
@@ -442,7 +442,7 @@ namespace nntl {
 				m_TFunct.walk(m_tdStor, dataSetId, cd, m_curBatchSize, excludeDataFlag, &m_pCurBatchX, &m_pCurBatchY);
 
 				const auto _dr = ::std::div(dsNumel, static_cast<numel_cnt_t>(batchSize));
-				const auto numBatches = _dr.quot + (_dr.rem > 1);
+				const auto numBatches = _dr.quot + (_dr.rem > 0);
 				NNTL_ASSERT(numBatches > 0);
 				return numBatches;
 			}
-- 
2.43.0


From 3118346cf42d442208f4f1eb51260723d7c9ffdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:03 +0000
Subject: [PATCH 10/42] fix: is_initialized4train() took minibatch inference
 for minibatch training

---
 nntl/train_data/_train_data_simple.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index ddc6c16..7f12184 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -166,9 +166,9 @@ namespace nntl {
 				const auto tbs = trainBs ? trainBs : m_maxTrainBatchSize;
 				//fullbatch mode must support only exactly specified batch sizes				
 				if (0 == m_maxTrainBatchSize || tbs > m_maxTrainBatchSize 
-					|| (tbs < m_maxFPropSize && m_batch_x.empty()) || tbs > fpropBs) return false;
+					|| (tbs < m_maxTrainBatchSize && !m_bMiniBatchTraining) || tbs > fpropBs) return false;
 				trainBs = tbs;
-				bMiniBatch = !m_batch_x.empty();
+				bMiniBatch = m_bMiniBatchTraining;
 				return true;
 			}
 
-- 
2.43.0


From fa5123a24c4142dd13fc20ad9aaf06eaceedb9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:11 +0000
Subject: [PATCH 11/42] fix: train() used the batch size of an earlier training
 when the nnet was already initialized

---
 nntl/nnet.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 9383a1b..58dd2d7 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -579,7 +579,8 @@ namespace nntl {
 			
 			// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
 			_report_training_progress(-1, td, ::std::chrono::nanoseconds(0), opts.observer());
-			_set_mode_and_batch_size(0);//prepare for training (sets to maxBatchSize, that's already stored in common_data structure)
+			//prepare for training. common_data's training_batch_size() may be bigger if the nnet was initialized earlier
+			_set_training_mode_and_batch_size(maxBatchSize);
 
 #if NNTL_DEBUG_CHECK_DENORMALS_ON_EACH_EPOCH
 			STDCOUTL("Denormals check... " << (get_iMath().ithreads().denormalsOnInAnyThread() ? "FAILED!!!" : "passed.") 
@@ -655,8 +656,8 @@ namespace nntl {
 					// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
 					if (!onEpochEndCB(/**this, opts,*/ epochIdx)) break;
 
-					//should always call _set_mode_and_batch_size(0) because onEpochEndCB could change this object state
-					_set_mode_and_batch_size(0);
+					//should always restore the mode and the batch size because onEpochEndCB could change this object state
+					_set_training_mode_and_batch_size(maxBatchSize);
 				}
 			}
 
-- 
2.43.0


From a1374defd46630380114f13dd634b63d1189ad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:50 +0000
Subject: [PATCH 12/42] fix: is_initialized4train() changed the inference batch
 size although it returned false

---
 nntl/train_data/_train_data_simple.h | 6 ++++--
 nntl/train_data/transf_train_data.h  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index 7f12184..4366852 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -162,11 +162,13 @@ namespace nntl {
 			}
 
 			bool is_initialized4train(vec_len_t& fpropBs, vec_len_t& trainBs, bool& bMiniBatch)const noexcept {
-				if (!get_self().is_initialized4inference(fpropBs)) return false;
+				auto fbs = fpropBs;//args must be left untouched if we're to return false
+				if (!get_self().is_initialized4inference(fbs)) return false;
 				const auto tbs = trainBs ? trainBs : m_maxTrainBatchSize;
 				//fullbatch mode must support only exactly specified batch sizes				
 				if (0 == m_maxTrainBatchSize || tbs > m_maxTrainBatchSize 
-					|| (tbs < m_maxTrainBatchSize && !m_bMiniBatchTraining) || tbs > fpropBs) return false;
+					|| (tbs < m_maxTrainBatchSize && !m_bMiniBatchTraining) || tbs > fbs) return false;
+				fpropBs = fbs;
 				trainBs = tbs;
 				bMiniBatch = m_bMiniBatchTraining;
 				return true;
diff --git a/nntl/train_data/transf_train_data.h b/nntl/train_data/transf_train_data.h
index 0848e75..1fe3f30 100644
--- a/nntl/train_data/transf_train_data.h
+++ b/nntl/train_data/transf_train_data.h
@@ -280,12 +280,14 @@ namespace nntl {
 			}
 
 			bool is_initialized4train(vec_len_t& fpropBs, vec_len_t& trainBs, bool& bMiniBatch)const noexcept {
-				if (!get_self().is_initialized4inference(fpropBs)) return false;
+				auto fbs = fpropBs;//args must be left untouched if we're to return false
+				if (!get_self().is_initialized4inference(fbs)) return false;
 				const auto tbs = trainBs ? trainBs : m_maxTrainBatchSize;
 				//fullbatch mode must support only exactly specified batch sizes
 				const auto dr = ::std::div(tbs, m_TFunct.samplesInBaseSample());
 				if (0 == m_maxTrainBatchSize || tbs > m_maxTrainBatchSize 
-					|| 0 != dr.rem || tbs > fpropBs) return false;
+					|| 0 != dr.rem || tbs > fbs) return false;
+				fpropBs = fbs;
 				trainBs = tbs;
 				bMiniBatch = dr.quot < get_self().base_trainset_samples_count();
 				return true;
-- 
2.43.0


From 97b498736458c7a018133c1a160bc7f7936a83d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:37 +0000
Subject: [PATCH 13/42] fix: train() kept a train data initialized for bigger
 inference batches than the nnet was ready for

---
 nntl/nnet.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 58dd2d7..543b2d4 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -351,7 +351,11 @@ namespace nntl {
 		ErrorCode _init4train(TdT& td, vec_len_t& maxFPropSize, vec_len_t& maxBatchSize, bool& bMiniBatch
 			, const numel_cnt_t maxEpoch, const bool bForceReinitTrainData)noexcept
 		{
-			if (bForceReinitTrainData || !td.is_initialized4train(maxFPropSize, maxBatchSize, bMiniBatch)) {
+			//evaluation walks over td by the size td was initialized with, so it must be exactly what the nnet will be ready for
+			vec_len_t tdFPropSize = 0;
+			if (bForceReinitTrainData || !td.is_initialized4train(maxFPropSize, maxBatchSize, bMiniBatch)
+				|| !td.is_initialized4inference(tdFPropSize) || tdFPropSize != maxFPropSize)
+			{
 				const auto ec = td.init4train(get_iMath(), maxFPropSize, maxBatchSize, &bMiniBatch);
 				if (ErrorCode::Success != ec) return _set_last_error(ec);
 			}
-- 
2.43.0


From 3fa3289ca9cde80afb6b697342654662fa5f3a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:43 +0000
Subject: [PATCH 14/42] fix: training terminated the program when temporary
 memory could not be allocated

---
 nntl/interface/math/smath.h | 7 +++++--
 nntl/nnet.h                 | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/math/smath.h b/nntl/interface/math/smath.h
index b051392..deb1de9 100644
--- a/nntl/interface/math/smath.h
+++ b/nntl/interface/math/smath.h
@@ -230,8 +230,11 @@ namespace math {
 		// #note that init() as well as preinit() MUST allow subsequent calls without doing deinit() first.
 		bool init()noexcept {
 			if (conform_sign(m_threadTempRawStorage.size()) < m_minTempStorageSize) {
-				//TODO: memory allocation exception handling here!
-				m_threadTempRawStorage.resize(m_minTempStorageSize);
+				try {
+					m_threadTempRawStorage.resize(m_minTempStorageSize);
+				} catch (const ::std::exception&) {
+					return false;
+				}
 			}
 			NNTL_ASSERT(m_curStorElementsAllocated == 0 || !"WTF?! Internal storage MUST NOT be in use at this moment!");
 			m_curStorElementsAllocated = 0;
diff --git a/nntl/nnet.h b/nntl/nnet.h
index 543b2d4..c8a1582 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -407,7 +407,11 @@ namespace nntl {
 			const numel_cnt_t totalTempMemSize = _totalTrainingMemSize(bMiniBatch, batchSize);
 			//m_pTmpStor.reset(new(::std::nothrow)real_t[totalTempMemSize]);
 			//if (nullptr == m_pTmpStor.get()) return ErrorCode::CantAllocateMemoryForTempData;
-			m_pTmpStor.resize(totalTempMemSize);
+			try {
+				m_pTmpStor.resize(totalTempMemSize);
+			} catch (const ::std::exception&) {
+				return ErrorCode::CantAllocateMemoryForTempData;
+			}
 
 			const auto _memUsed = _processTmpStor(bMiniBatch, batchSize);
 			NNTL_ASSERT(totalTempMemSize == _memUsed);
-- 
2.43.0


From 34c8bda8a5c611a58dec8c4ee20dada3442cb90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:43 +0000
Subject: [PATCH 15/42] fix: init4inference() left a train data claiming to be
 initialized after it failed

---
 nntl/train_data/_train_data_simple.h | 5 ++++-
 nntl/train_data/transf_train_data.h  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index 4366852..a379005 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -156,7 +156,10 @@ namespace nntl {
 				}
 				m_maxFPropSize = maxFPropSize;
 
-				if (!get_self()._initBatches(maxFPropSize < biggestSetSize)) return nnet_errors_t::TdInitNoMemory;
+				if (!get_self()._initBatches(maxFPropSize < biggestSetSize)) {
+					get_self().deinit4all();
+					return nnet_errors_t::TdInitNoMemory;
+				}
 
 				return nnet_errors_t::Success;
 			}
diff --git a/nntl/train_data/transf_train_data.h b/nntl/train_data/transf_train_data.h
index 1fe3f30..1e42f80 100644
--- a/nntl/train_data/transf_train_data.h
+++ b/nntl/train_data/transf_train_data.h
@@ -274,7 +274,10 @@ namespace nntl {
 				maxFPropSize = static_cast<vec_len_t>(realFPropSize);
 				m_maxFPropSize = maxFPropSize;
 
-				if (!m_TFunct.init(iM, m_tdStor, base_maxFPropSize)) return nnet_errors_t::OtherTdInitError;
+				if (!m_TFunct.init(iM, m_tdStor, base_maxFPropSize)) {
+					get_self().deinit4all();
+					return nnet_errors_t::OtherTdInitError;
+				}
 
 				return nnet_errors_t::Success;
 			}
-- 
2.43.0


From db8658889ee88e1077892e35e58404d75fff690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:43 +0000
Subject: [PATCH 16/42] fix: init4fixedBatchFprop() did not set the last error
 when train data initialization failed

---
 nntl/nnet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index c8a1582..1f08bfd 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -700,7 +700,7 @@ namespace nntl {
 			auto& iM = get_iMath();
 			if (!td.is_initialized4inference(fpropBatchSize)) {
 				const auto ec = td.init4inference(iM, fpropBatchSize);
-				if (ErrorCode::Success != ec) return ec;
+				if (ErrorCode::Success != ec) return _set_last_error(ec);
 			}
 
 			const auto ec = init4fixedBatchFprop(fpropBatchSize);
-- 
2.43.0


From 733b93b11aa2610da7ec0368786776ad38eaa7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:51 +0000
Subject: [PATCH 17/42] fix: eval_classification_one_hot_cached::init() ignored
 a failure to allocate iMath's temporary memory

---
 nntl/nnet_evaluator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/nnet_evaluator.h b/nntl/nnet_evaluator.h
index cf64d59..34d85d9 100644
--- a/nntl/nnet_evaluator.h
+++ b/nntl/nnet_evaluator.h
@@ -246,7 +246,7 @@ namespace nntl {
 
 			auto& iM = cd.iMath();
 			iM.preinit(iM.mrwIdxsOfMax_needTempMem<real_t>(biggestOutpBatch));
-			iM.init();
+			if (!iM.init()) return false;
 
 			try {
 				m_ydataClassIdxs[train_set_id].resize(trainSamples);
-- 
2.43.0


From 1e5e3f44edc21401ef94af971a2028bb3495e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:05 +0000
Subject: [PATCH 18/42] fix: free the conversion buffer when reading a binfile
 field fails

---
 nntl/_supp/io/binfile.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nntl/_supp/io/binfile.h b/nntl/_supp/io/binfile.h
index cb1ed54..d3cc207 100644
--- a/nntl/_supp/io/binfile.h
+++ b/nntl/_supp/io/binfile.h
@@ -393,8 +393,10 @@ namespace nntl_supp {
 
 #pragma warning(disable:28020)
 			//MSVC SAL goes "slightly" mad here
-			if (1 != fread_s(pReadTo, readSize, readSize, 1, fp))
+			if (1 != fread_s(pReadTo, readSize, readSize, 1, fp)) {
+				if (!bSameTypes) free(pReadTo);
 				return _set_last_error(ErrorCode::FailedToReadData);
+			}
 #pragma warning(default:28020)
 
 			if (!bSameTypes) {
-- 
2.43.0


From 9fc3635d7bdc30197921728f327100186921b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:34 +0000
Subject: [PATCH 19/42] fix: report failed allocation of sequence counters
 instead of terminating in binfile

---
 nntl/_supp/io/binfile.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nntl/_supp/io/binfile.h b/nntl/_supp/io/binfile.h
index d3cc207..b92e10e 100644
--- a/nntl/_supp/io/binfile.h
+++ b/nntl/_supp/io/binfile.h
@@ -230,7 +230,12 @@ namespace nntl_supp {
 			if (totalFieldsCount <= totalClassCount) return _set_last_error(ErrorCode::WrongElementsCount);
 
 			//reading count of sequences for each class (CLASS_ENTRY)
-			::std::vector<vec_len_t> clsSeqCnt(totalClassCount);
+			::std::vector<vec_len_t> clsSeqCnt;
+			try {
+				clsSeqCnt.resize(totalClassCount);
+			} catch (const ::std::exception&) {
+				return _set_last_error(ErrorCode::FailedToPreallocateSeqData);
+			}
 			int totalElsToExpect = 0;
 			for (int i = 0; i < totalClassCount; ++i) {
 				bin_file::CLASS_ENTRY clsEntry;
-- 
2.43.0


From 0d8e5778d69b4e17cade16bd117cfa4b4119f2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:44 +0000
Subject: [PATCH 20/42] fix: do not let the size of a matrix from a binfile
 overflow

---
 nntl/_supp/io/binfile.h       | 4 +++-
 nntl/interface/math/smatrix.h | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/nntl/_supp/io/binfile.h b/nntl/_supp/io/binfile.h
index b92e10e..6b90a45 100644
--- a/nntl/_supp/io/binfile.h
+++ b/nntl/_supp/io/binfile.h
@@ -361,7 +361,9 @@ namespace nntl_supp {
 			const auto fieldDataType = fe.bDataType;
 			const auto bSameTypes = bin_file::correct_data_type<T_>(fieldDataType);
 
-			if (fe.dwRows <= 0 || fe.dwCols <= 0) return _set_last_error(ErrorCode::InvalidDataSize);
+			//an additional row or column might be necessary for biases
+			static constexpr DWORD maxDim = static_cast<DWORD>(::std::numeric_limits<vec_len_t>::max()) - 1;
+			if (fe.dwRows <= 0 || fe.dwCols <= 0 || fe.dwRows > maxDim || fe.dwCols > maxDim) return _set_last_error(ErrorCode::InvalidDataSize);
 
 			fe.bDataType = 0;
 			if (pTdFieldId) {
diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 4d7ef4a..8a9dfce 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -305,7 +305,8 @@ namespace math {
 					//m_pData = new(::std::nothrow) value_type[numel()];
 					//#todo for C++17 must change to ::std::launder(reinterpret_cast< ... 
 					//#TODO: NNTL_CFG_DEFAULT_FP_PTR_ALIGN is too strict for non-floating point data
-					m_pData = reinterpret_cast<value_type*__restrict>(_aligned_malloc(byte_size(), utils::mem_align_for<value_type>()));
+					m_pData = numel() > ::std::numeric_limits<numel_cnt_t>::max() / static_cast<numel_cnt_t>(sizeof(value_type)) ? nullptr //byte_size() overflows
+						: reinterpret_cast<value_type*__restrict>(_aligned_malloc(byte_size(), utils::mem_align_for<value_type>()));
 					NNTL_ASSERT(m_pData);
 				} else {
 					m_rows = 0;
-- 
2.43.0


From 3a8d2fd73c847e7716cd239eb2708520f0d6fbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:45 +0000
Subject: [PATCH 21/42] fix: report an invalid JSON field as invalid, not as
 missing

---
 nntl/_supp/io/jsonreader.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nntl/_supp/io/jsonreader.h b/nntl/_supp/io/jsonreader.h
index 3ab4373..935a3dc 100644
--- a/nntl/_supp/io/jsonreader.h
+++ b/nntl/_supp/io/jsonreader.h
@@ -203,8 +203,7 @@ namespace nntl_supp {
 
 		template <typename MembersEnumId>
 		const ErrorCode _members2ErrorCode(const ErrorCode b, const MembersEnumId rm)noexcept {
-			NNTL_UNREF(b);
-			const ErrorCode e = static_cast<ErrorCode>((int)ErrorCode::NoTrainX + (int)rm);
+			const ErrorCode e = static_cast<ErrorCode>((int)b + (int)rm);
 			return _set_last_error(e);
 		}
 
-- 
2.43.0


From 3a716378f8a76df6872a933184148e0cebb56a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:19 +0000
Subject: [PATCH 22/42] fix: close the JSON file when reading it throws

---
 nntl/_supp/io/jsonreader.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nntl/_supp/io/jsonreader.h b/nntl/_supp/io/jsonreader.h
index 935a3dc..f71c202 100644
--- a/nntl/_supp/io/jsonreader.h
+++ b/nntl/_supp/io/jsonreader.h
@@ -57,6 +57,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "../../errors.h"
 #include "../../train_data.h"
+#include "../../utils/scope_exit.h"
 
 //define necessary RAPIDJSON_ macros before including this file
 #define RAPIDJSON_SSE2
@@ -165,6 +166,12 @@ namespace nntl_supp {
 
 			//TODO: there may be a conflict if fname is not char -derived type
 			if (fopen_s(&fp, fname, "rbS") || nullptr==fp) { return _set_last_error(ErrorCode::FailedToOpenFile); }
+			nntl::utils::scope_exit on_exit([&fp]() {
+				if (fp) {
+					fclose(fp);
+					fp = nullptr;
+				}
+			});
 
 			rapidjson::Document d;
 			::std::vector<char> readbuf(m_readBufSize);
@@ -172,6 +179,7 @@ namespace nntl_supp {
 			d.ParseStream<rapidjson::kParseFullPrecisionFlag>(is);
 			readbuf.clear();
 			fclose(fp);
+			fp = nullptr;
 
 			m_parseError = d.GetParseError();
 			m_parseErrorOffset = d.GetErrorOffset();
-- 
2.43.0


From 454adc4f6d94edbd6dbad5c3466a603a8ea5b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:02 +0000
Subject: [PATCH 23/42] fix: retry the allocation when a matrix is resized
 again after a failure

---
 nntl/interface/math/smatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 8a9dfce..0e5a0b7 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -1058,7 +1058,7 @@ namespace math {
 				NNTL_ASSERT(!"Wrong row or col count!");
 				return false;
 			}
-			if (r == m_rows && c == m_cols) return true;
+			if (m_pData && r == m_rows && c == m_cols) return true;
 			m_rows = r;
 			m_cols = c;
 			_realloc();
-- 
2.43.0


From 0f7b9a292e77250b5ef7659984adc3c14c6c555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:38 +0000
Subject: [PATCH 24/42] fix: do not write biases of a matrix whose allocation
 failed

---
 nntl/interface/math/smatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 0e5a0b7..16e18c6 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -343,7 +343,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (_bEmulBias) set_biases();
+			if (_bEmulBias && m_pData) set_biases();
 		}
 
 		// #supportsBatchInRow
@@ -355,7 +355,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (_bEmulBias) set_biases();
+			if (_bEmulBias && m_pData) set_biases();
 		}
 
 		// #supportsBatchInRow
@@ -367,7 +367,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (m_bEmulateBiases) set_biases();
+			if (m_bEmulateBiases && m_pData) set_biases();
 		}
 		
 		//useExternalStorage(value_ptr_t ptr, const smatrix& sizeLikeThis) variation
-- 
2.43.0


From bba185d8bd1deafe7233fe7a48356d5f74be39f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:52 +0000
Subject: [PATCH 25/42] fix: clone_to_no_bias() left an extra column when the
 destination emulated biases

---
 nntl/interface/math/smatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 16e18c6..3d6d097 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -498,6 +498,7 @@ namespace math {
 					return false;
 				}
 			} else {				
+				dest.m_bEmulateBiases = false;//to make resize() work correctly if dest.m_bEmulateBiases==true
 				if (!dest.resize(m_rows, cnb)) {
 					NNTL_ASSERT(!"resize failed!");
 					return false;
-- 
2.43.0


From 44ed23f3fa922abf3e7dacd83123d4f4e3cfcfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:07 +0000
Subject: [PATCH 26/42] fix: strided binary vector tests ran past the end of
 the data

---
 nntl/interface/math/smatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 3d6d097..90d80f0 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -169,7 +169,7 @@ namespace math {
 			//#todo for C++17 must change to ::std::launder(reinterpret_cast< ... 
 			auto ptr = reinterpret_cast<const similar_FWI_t*__restrict>(pData);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			similar_FWI_t cond = similar_FWI_t(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
@@ -198,7 +198,7 @@ namespace math {
 			//#todo for C++17 must change to ::std::launder(reinterpret_cast< ... 
 			auto ptr = reinterpret_cast<const similar_FWI_t*__restrict>(pData);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			similar_FWI_t cond = similar_FWI_t(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
@@ -217,7 +217,7 @@ namespace math {
 			const auto _one = T(1);
 			const auto _zero = T(0);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			T cond = T(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
-- 
2.43.0


From 7b7e012452a8865fc7de6447184d06a362337b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:16 +0000
Subject: [PATCH 27/42] fix: mcwFindKOrdered Aggregator lost values when the
 values of a column are not distinct

---
 nntl/interface/math/_mcwFindKOrdered_hlpr.h | 53 ++++++---------------
 1 file changed, 15 insertions(+), 38 deletions(-)

diff --git a/nntl/interface/math/_mcwFindKOrdered_hlpr.h b/nntl/interface/math/_mcwFindKOrdered_hlpr.h
index 194350e..835378a 100644
--- a/nntl/interface/math/_mcwFindKOrdered_hlpr.h
+++ b/nntl/interface/math/_mcwFindKOrdered_hlpr.h
@@ -323,50 +323,27 @@ namespace math {
 						const auto pDSE = m_allData.colDataAsVec(c);
 						//invalid cache index (<0) signifies the values left from previous batches. If the index is valid,
 						//the value is from current batch.
-						// We should traverse cache now to properly aggregate it into m_allData
+						// Every new value displaces the worst of the old ones, so the old values still present in the cache are always
+						// the last elements of m_allData (in the same order). Must not look them up by value, because the values
+						// might be not distinct.
+						vec_len_t oldIdx = 0;
+						for (vec_len_t hr = 0; hr < k; ++hr) oldIdx += (pIdxs[hr] >= 0);
+
 						for (vec_len_t hr = 0; hr < k; ++hr) {
 							//cache are written in ascending order, i.e. biggest - last
 							//NNTL_ASSERT(hr + 1 >= k || pVals[hr] < pVals[hr + 1]);
 							NNTL_ASSERT(hr + 1 >= k || OrderFunctor_t::first_better(pVals[hr + 1], pVals[hr]));
-							const auto nV = pVals[hr];
-							const auto nI = pIdxs[hr];
-							// new value at hr index could only be equal to or bigger than stored in m_allData.
-							if (nI < 0) {
-								//invalid index means that the value nV is left from old batch.
-								//NNTL_ASSERT(nV >= pDSE[hr].val);
-								NNTL_ASSERT(!OrderFunctor_t::first_better(pDSE[hr].val, nV));
-								if (nV == pDSE[hr].val) {
-									//nothing else should be done here. Every higher indexes must be the same, b/c any difference
-									//will lead to shifting values
-								#ifdef NNTL_DEBUG
-									for (vec_len_t r = hr + 1; r < k; ++r) {
-										NNTL_ASSERT(pDSE[r].val == pVals[r]);
-									}
-								#endif // NNTL_DEBUG
-									break;
-								} else {
-									// We must find corresponding entry in range [hr+1..k) and move it to the current position.
-									vec_len_t r = hr + 1;
-									for (; r < k; ++r) {
-										const auto& dse = pDSE[r];
-										//NNTL_ASSERT(nV >= dse.val);
-										NNTL_ASSERT(!OrderFunctor_t::first_better(dse.val, nV));
-										if (nV == dse.val) {
-											//moving dse to the hr index
-											pDSE[hr] = dse;
-											break;
-										}
-									}
-									NNTL_ASSERT(r < k || !"DatasetElement not found! WTF?!");
-								}
+							auto& dse = pDSE[hr];
+							if (pIdxs[hr] < 0) {
+								NNTL_ASSERT(hr <= oldIdx && oldIdx < k);
+								dse = pDSE[oldIdx++];
+								NNTL_ASSERT(dse.val == pVals[hr]);
 							} else {
-								//valid index means that the value nV is from the current batch. We must store it under hr index
-								auto& dse = pDSE[hr];
-								//NNTL_ASSERT(nV > dse.val);
-								NNTL_ASSERT(OrderFunctor_t::first_better(nV, dse.val));
+								//valid index means that the value is from the current batch. We must store it under hr index
+								NNTL_ASSERT(hr < oldIdx);
 								dse.batchIdx = batchIdx;
-								dse.val = nV;
-								dse.idx = nI;
+								dse.val = pVals[hr];
+								dse.idx = pIdxs[hr];
 							}
 						}
 					}
-- 
2.43.0


From 4eb510659ab26511de6a68f74b788729cf58459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:04 +0000
Subject: [PATCH 28/42] fix: normalisation treated a constant as having a
 variance because of rounding

---
 nntl/utils/mtx2Normal.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/nntl/utils/mtx2Normal.h b/nntl/utils/mtx2Normal.h
index 2de0d6e..bacb1bc 100644
--- a/nntl/utils/mtx2Normal.h
+++ b/nntl/utils/mtx2Normal.h
@@ -39,6 +39,8 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <boost/accumulators/statistics/stats.hpp>
 #include <boost/accumulators/statistics/mean.hpp>
 #include <boost/accumulators/statistics/variance.hpp>
+#include <boost/accumulators/statistics/min.hpp>
+#include <boost/accumulators/statistics/max.hpp>
 #pragma warning(pop)
 
 namespace nntl {
@@ -270,6 +272,13 @@ namespace mtx2Normal {
 		static typename AccT::sample_type get_central(const AccT& acc) noexcept {
 			return ::boost::accumulators::extract_result<central_measure_t>(acc);
 		}
+
+		//a variance of a constant, computed with finite precision, isn't necessarily a zero, hence an explicit test
+		template<typename AccT>
+		static bool is_constant(const AccT& acc) noexcept {
+			return ::boost::accumulators::extract_result<::boost::accumulators::tag::min>(acc)
+				== ::boost::accumulators::extract_result<::boost::accumulators::tag::max>(acc);
+		}
 	};
 
 	template<bool bAdjustForSampleVar>
@@ -280,6 +289,8 @@ namespace mtx2Normal {
 
 			const interm_statsdata_t n = static_cast<interm_statsdata_t>(::boost::accumulators::count(acc));
 			NNTL_ASSERT(n > interm_statsdata_t(1.));
+			bScaleSpecial = is_constant(acc);
+			if (bScaleSpecial) return typename AccT::sample_type(0.);
 			interm_statsdata_t unbiasVar = n / (n - interm_statsdata_t(1.0));
 			const auto r = static_cast<typename AccT::sample_type>(::std::sqrt(unbiasVar*::boost::accumulators::extract_result<scale_measure_t>(acc)));
 			bScaleSpecial = (r == typename AccT::sample_type(0.));
@@ -288,6 +299,8 @@ namespace mtx2Normal {
 
 		template<typename AccT, bool c = bAdjustForSampleVar>
 		static ::std::enable_if_t<!c, typename AccT::sample_type> get_scale(const AccT& acc, bool& bScaleSpecial) noexcept {
+			bScaleSpecial = is_constant(acc);
+			if (bScaleSpecial) return typename AccT::sample_type(0.);
 			const auto r = ::std::sqrt(::boost::accumulators::extract_result<scale_measure_t>(acc));
 			bScaleSpecial = (r == typename AccT::sample_type(0.));
 			return r;
@@ -298,11 +311,13 @@ namespace mtx2Normal {
 		//helper to delay self_t use until it is actually known
 		template<typename StatsDataT, typename IntermStatsT, typename StatsFuncT>
 		struct make_acc : public ::boost::accumulators::accumulator_set<StatsDataT, ::boost::accumulators::stats<
-			typename StatsFuncT::scale_measure_t, typename StatsFuncT::central_measure_t>>
+			typename StatsFuncT::scale_measure_t, typename StatsFuncT::central_measure_t
+			, ::boost::accumulators::tag::min, ::boost::accumulators::tag::max>>
 		{
 		private:
 			typedef ::boost::accumulators::accumulator_set<StatsDataT, ::boost::accumulators::stats<
-				typename StatsFuncT::scale_measure_t, typename StatsFuncT::central_measure_t>> _base_t;
+				typename StatsFuncT::scale_measure_t, typename StatsFuncT::central_measure_t
+				, ::boost::accumulators::tag::min, ::boost::accumulators::tag::max>> _base_t;
 
 		public:
 			typedef IntermStatsT interm_statsdata_t;
-- 
2.43.0


From 4d390f506e28546d8520c9171524255ff7b94243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:04 +0000
Subject: [PATCH 29/42] fix: whole-data normalisation left a mean in the offset
 of a scale-only update

---
 nntl/train_data/_td_norm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/train_data/_td_norm.h b/nntl/train_data/_td_norm.h
index 1747962..9240bb8 100644
--- a/nntl/train_data/_td_norm.h
+++ b/nntl/train_data/_td_norm.h
@@ -155,7 +155,7 @@ namespace nntl {
 					if (bCentral) {
 						centralVal = (m_Setts.targetCentral - centralVal)*scaleVal;
 						get_self()._upd_ofs(centralVal);
-					}
+					} else centralVal = statsdata_t(0.);
 					
 					get_self()._do_normalize_whole(indstat_t(scaleVal, centralVal, bScale, bCentral));
 				}
-- 
2.43.0


From 3ca3347098c99a68641a964fe83af980c5abbf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:59 +0000
Subject: [PATCH 30/42] fix: statistics of a more precise type squared values
 in the type of the data

---
 nntl/utils/mtx2Normal.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/utils/mtx2Normal.h b/nntl/utils/mtx2Normal.h
index bacb1bc..03fe683 100644
--- a/nntl/utils/mtx2Normal.h
+++ b/nntl/utils/mtx2Normal.h
@@ -583,7 +583,8 @@ namespace mtx2Normal {
 		, const DataT* __restrict const pEnd, AccT& acc)noexcept
 	{
 		while (pBegin < pEnd) {
-			acc(*pBegin++);
+			//squares must also be computed with the precision of statistics
+			acc(static_cast<typename AccT::sample_type>(*pBegin++));
 		}
 	};
 
-- 
2.43.0


From 3cb6dd10cfe5106b98f90cf29662a2cd4f35db37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:43 +0000
Subject: [PATCH 31/42] fix: layer_settings::set_default did not return its
 result

---
 nntl/utils/layers_settings.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nntl/utils/layers_settings.h b/nntl/utils/layers_settings.h
index bc01183..700e506 100644
--- a/nntl/utils/layers_settings.h
+++ b/nntl/utils/layers_settings.h
@@ -80,6 +80,7 @@ namespace utils {
 			if (!m_keeper.empty())
 				m_keeper.pop_front();
 			m_keeper.push_front(::std::forward<ST>(def));
+			return *this;
 		}
 
 		const setts_t& get(const layer_index_t idx)const noexcept {
-- 
2.43.0


From 0f69ee59ce6382bd5fa6857299710fd1a74db219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:59 +0000
Subject: [PATCH 32/42] fix: gradient check with a full batch and a smaller
 online batch had no storage for it

---
 nntl/nnet.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 1f08bfd..4f3a67d 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -791,8 +791,11 @@ namespace nntl {
 			//////////////////////////////////////////////////////////////////////////
 
 			bool performCheck(const vec_len_t batchSize, const realmtx_t& data_x, const realmtx_t& data_y)noexcept {
-				const vec_len_t biggestBatch = ::std::max(batchSize, m_ngcSetts.onlineBatchSize);
-				m_data.init(biggestBatch == data_x.batch_size() ? 0 : biggestBatch, data_x, &data_y);
+				//each batch size may be a full batch, but the other still may be smaller and will need a storage then
+				const vec_len_t dataSize = data_x.batch_size();
+				const vec_len_t onlineBs = m_ngcSetts.onlineBatchSize;
+				m_data.init(::std::max(batchSize < dataSize ? batchSize : vec_len_t(0), onlineBs < dataSize ? onlineBs : vec_len_t(0))
+					, data_x, &data_y);
 				
 				bool bRet = false;
 				NNTL_ASSERT(m_ngcSetts.onlineBatchSize > 0);
-- 
2.43.0


From 078570dd4b4365fb6d6f064afa5b3abaa181c0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:28 +0000
Subject: [PATCH 33/42] fix: gradient check passed gradients that are not a
 number

---
 nntl/nnet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 4f3a67d..d5b7f39 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -1105,7 +1105,7 @@ namespace nntl {
 					const real_t relErr = ::std::abs(dLan - dLnum) / ::std::max(::std::abs(dLan), ::std::abs(dLnum));
 					NNTL_ASSERT(!::std::isnan(relErr) && !::std::isinf(relErr));
 
-					if (relErr > *warnThrsh) {
+					if (!(relErr <= *warnThrsh)) {//NaN must never pass
 						if (relErr < *failThrsh) {
 							char _s[128];
 							sprintf_s(_s, "Relative error = %g (thrsh %g). Probably not an error.", relErr, *warnThrsh);
-- 
2.43.0


From b8c4d1649d0c87cce3550d5eed3048fca7a6944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:52 +0000
Subject: [PATCH 34/42] fix: gradient check reported batch rows out of bounds
 after switching to a full batch

---
 nntl/utils/dataHolder.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nntl/utils/dataHolder.h b/nntl/utils/dataHolder.h
index 83ee29b..bf2e963 100644
--- a/nntl/utils/dataHolder.h
+++ b/nntl/utils/dataHolder.h
@@ -137,6 +137,7 @@ namespace utils {
 				NNTL_ASSERT(batchSize == m_pDataX->rows());
 				m_pBatchX = m_pDataX;
 				m_pBatchY = m_pDataY;
+				m_next = m_rowsIdxs.cend();//the whole data is the current batch for the curBatchIdxs()
 			} else {
 				NNTL_ASSERT(batchSize);
 				NNTL_ASSERT(!m_batchX.empty());
-- 
2.43.0


From fff213c80765b36e5bbaa5e06895f3de28bd9358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:11 +0000
Subject: [PATCH 35/42] fix: matfile: every struct being saved is owned once

close() leaked structs left on the stacks after an error (and for an empty stack of one element relied on size()-1),
and updating a struct that is a field of an enclosing struct aliased the field, which save_struct_end() then destroyed
before storing it again.
---
 nntl/_supp/io/matfile.h | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/nntl/_supp/io/matfile.h b/nntl/_supp/io/matfile.h
index aa9c73b..51615aa 100644
--- a/nntl/_supp/io/matfile.h
+++ b/nntl/_supp/io/matfile.h
@@ -310,13 +310,12 @@ namespace nntl_supp {
 			//Trying to cleanup - however, this code doesn't guarantee a correct cleanup
 			if (m_structureStack.size()) {
 				ec = ErrorCode::WrongStateStructUnsaved;
-				for (size_t i = m_structureStack.size() - 1; i >= 1; --i) {
+				//every struct here is yet to be stored into its parent, so each one must be destroyed on its own
+				while (m_structureStack.size()) {
 					NNTL_ASSERT(m_structureStack.top());
+					mxDestroyArray(m_structureStack.top());
 					m_structureStack.pop();
 				}
-				NNTL_ASSERT(m_structureStack.top());
-				mxDestroyArray(m_structureStack.top());
-				m_structureStack.pop();
 			}
 
 			if (m_matFile) {
@@ -655,15 +654,12 @@ namespace nntl_supp {
 			ErrorCode ec = ErrorCode::Success;
 			if (m_nestedStructs.size()) {
 				ec = ErrorCode::WrongStateManualStructUnsaved;
+				//the heads put aside by bDontNest aren't present in m_structureStack
 				const auto s = m_nestedStructs.size();
-				if (m_structureStack.size()) {
-					for (size_t i = 0; i < s; ++i)  m_nestedStructs.pop();
-				} else {
-					for (size_t i = 0; i < s; ++i) {
-						const auto& t = m_nestedStructs.top();
-						if (t.second) mxDestroyArray(t.second);
-						m_nestedStructs.pop();
-					}
+				for (size_t i = 0; i < s; ++i) {
+					const auto& t = m_nestedStructs.top();
+					if (t.second) mxDestroyArray(t.second);
+					m_nestedStructs.pop();
 				}
 			}
 			const auto ec2 = _base_class::close();
@@ -691,6 +687,7 @@ namespace nntl_supp {
 					} else pOldHead = nullptr;
 
 					if (bUpdateIfExist) {
+						const bool bIsField = m_structureStack.size() > 0;
 						m_curVarName = structName.c_str();
 						NNTL_ASSERT(m_curVarName);
 						vec_len_t r, c;
@@ -701,13 +698,17 @@ namespace nntl_supp {
 								// ec = ErrorCode::WrongVariableTypeHasBeenRead;
 								_free_loaded_var(pNewStruct);
 								pNewStruct = nullptr;
+							} else if (bIsField) {
+								//it still belongs to the enclosing struct, but save_struct_end()/close() expect to own every struct on the stack
+								pNewStruct = mxDuplicateArray(pNewStruct);
+								if (!pNewStruct) ec = ErrorCode::FailedToAllocateMxData;
 							}
 						} else {
 							//error has been set by the _load_var(), therefore overwriting it
 							_set_last_error(ErrorCode::Success);
 						}
 					}
-					if (!pNewStruct) {
+					if (!pNewStruct && ErrorCode::Success == ec) {
 						// create new struct variable and push it into the stack. After that all operations over t.const_value() must add new 
 						// fields to the struct (not add variables to the file). Once done - write the struct to the file and pop the stack.
 						pNewStruct = mxCreateStructMatrix(1, 1, 0, nullptr);
-- 
2.43.0


From eadf1926298e72462d91841a2f60cad1b7a3fca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:11 +0000
Subject: [PATCH 36/42] fix: matfile: free the variable when it can't become a
 field of the struct

---
 nntl/_supp/io/matfile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/_supp/io/matfile.h b/nntl/_supp/io/matfile.h
index 51615aa..8d55cb4 100644
--- a/nntl/_supp/io/matfile.h
+++ b/nntl/_supp/io/matfile.h
@@ -200,7 +200,7 @@ namespace nntl_supp {
 				if (ErrorCode::Success == ec) {
 					mxSetFieldByNumber(pStruct, 0, fieldNum, pA);
 					m_curVarName = nullptr;
-				}
+				} else mxDestroyArray(pA);
 				//we mustn't free pA here, it'll be automatically (?) deleted when the struct will be disposed
 			} else {
 				if (matPutVariable(m_matFile, m_curVarName, pA)) {
-- 
2.43.0


From 0cacfbf90017b4d68ef03108862a868db59d91a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:11 +0000
Subject: [PATCH 37/42] fix: matfile: save_struct_begin() mustn't leave an
 error set after it replaced an unfit variable

---
 nntl/_supp/io/matfile.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nntl/_supp/io/matfile.h b/nntl/_supp/io/matfile.h
index 8d55cb4..24be4ad 100644
--- a/nntl/_supp/io/matfile.h
+++ b/nntl/_supp/io/matfile.h
@@ -698,6 +698,8 @@ namespace nntl_supp {
 								// ec = ErrorCode::WrongVariableTypeHasBeenRead;
 								_free_loaded_var(pNewStruct);
 								pNewStruct = nullptr;
+								//_load_var() might have set EmptyVariableHasBeenRead
+								_set_last_error(ErrorCode::Success);
 							} else if (bIsField) {
 								//it still belongs to the enclosing struct, but save_struct_end()/close() expect to own every struct on the stack
 								pNewStruct = mxDuplicateArray(pNewStruct);
-- 
2.43.0


From 6fbaf5602300e23c094d2544e9c42229bf996dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:11 +0000
Subject: [PATCH 38/42] fix: matfile: restore denormals mode also when
 UpdateDelete can't create the file

---
 nntl/_supp/io/matfile.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nntl/_supp/io/matfile.h b/nntl/_supp/io/matfile.h
index 24be4ad..a8a1bde 100644
--- a/nntl/_supp/io/matfile.h
+++ b/nntl/_supp/io/matfile.h
@@ -270,7 +270,10 @@ namespace nntl_supp {
 					if (pt) {
 						if (matClose(pt)) ec = ErrorCode::ErrorClosingFile;
 					} else ec = ErrorCode::FailedToOpenFile;
-					if (ErrorCode::Success != ec) return _set_last_error(ec);
+					if (ErrorCode::Success != ec) {
+						global_denormalized_floats_mode();
+						return _set_last_error(ec);
+					}
 				}
 				m = "u";
 				break;
-- 
2.43.0


From 4e3e55122176f0f0a5718c36c15543f707c313d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:11 +0000
Subject: [PATCH 39/42] fix: matlab: signed integer data must not be read as
 unsigned

---
 nntl/utils/matlab.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nntl/utils/matlab.h b/nntl/utils/matlab.h
index ac508da..507f458 100644
--- a/nntl/utils/matlab.h
+++ b/nntl/utils/matlab.h
@@ -92,14 +92,20 @@ namespace matlab {
 				d.fill_from_array_no_bias(static_cast<const float*>(pSrc));
 				break;
 			case mxINT64_CLASS:
+				d.fill_from_array_no_bias(static_cast<const ::std::int64_t*>(pSrc));
+				break;
 			case mxUINT64_CLASS:
 				d.fill_from_array_no_bias(static_cast<const ::std::uint64_t*>(pSrc));
 				break;
 			case mxINT32_CLASS:
+				d.fill_from_array_no_bias(static_cast<const ::std::int32_t*>(pSrc));
+				break;
 			case mxUINT32_CLASS:
 				d.fill_from_array_no_bias(static_cast<const ::std::uint32_t*>(pSrc));
 				break;
 			case mxINT8_CLASS:
+				d.fill_from_array_no_bias(static_cast<const ::std::int8_t*>(pSrc));
+				break;
 			case mxUINT8_CLASS:
 				d.fill_from_array_no_bias(static_cast<const ::std::uint8_t*>(pSrc));
 				break;
-- 
2.43.0


From b348551f961603fff8047622087f39b2a1d64218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:34 +0000
Subject: [PATCH 40/42] fix: nnet: write_weights() must report a failure to
 close the file

---
 nntl/nnet.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index d5b7f39..900f3e6 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -216,6 +216,8 @@ namespace nntl {
 			if (decltype(mf)::ErrorCode::Success == ec) {
 				mf << *this;
 				ec = mf.get_last_error();
+				//the data is in the file for sure only if it was closed without errors
+				if (decltype(mf)::ErrorCode::Success == ec) ec = mf.close();
 				if (decltype(mf)::ErrorCode::Success == ec) {
 					STDCOUTL(pfx << "Success!");
 					return true;
-- 
2.43.0


From c9a187542a62b91a68f498e565f13223ad3eebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:11 +0000
Subject: [PATCH 41/42] fix: dumper: the request to dump the initial error was
 an out of bounds write into epoch flags

---
 nntl/interface/inspectors/dumper.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nntl/interface/inspectors/dumper.h b/nntl/interface/inspectors/dumper.h
index 749f433..88d5cf3 100644
--- a/nntl/interface/inspectors/dumper.h
+++ b/nntl/interface/inspectors/dumper.h
@@ -58,6 +58,8 @@ namespace nntl {
 
 					m_dumpEpochCond.clear().resize(totalEpochs, false);
 					for (const auto etd : m_epochsToDump) {
+						//idx_before_start isn't an epoch, see CalcErrByEpochNum
+						if (idx_before_start == etd) continue;
 						if (etd < totalEpochs) {
 							m_dumpEpochCond.verbose(etd);
 						} else m_dumpEpochCond.verbose(lastEpochIdx);
-- 
2.43.0


From 410e054256f8cb99dafbbf4561c39573cd9d6bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:35 +0000
Subject: [PATCH 42/42] fix: normalisation scaled the target mean, losing the
 deviation of barely varying data

---
 nntl/train_data/_td_norm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/train_data/_td_norm.h b/nntl/train_data/_td_norm.h
index 9240bb8..8ed3203 100644
--- a/nntl/train_data/_td_norm.h
+++ b/nntl/train_data/_td_norm.h
@@ -153,7 +153,7 @@ namespace nntl {
 					}else scaleVal = statsdata_t(1.);
 
 					if (bCentral) {
-						centralVal = (m_Setts.targetCentral - centralVal)*scaleVal;
+						centralVal = m_Setts.targetCentral - centralVal*scaleVal;
 						get_self()._upd_ofs(centralVal);
 					} else centralVal = statsdata_t(0.);
 					
@@ -248,7 +248,7 @@ namespace nntl {
 					} else scaleVal = statsdata_t(1.);
 
 					if (bCentral) {
-						get_self()._upd_ofs(colIdx, (m_Setts.targetCentral - centralVal)*scaleVal);
+						get_self()._upd_ofs(colIdx, m_Setts.targetCentral - centralVal*scaleVal);
 					}
 				}
 			};
-- 
2.43.0

