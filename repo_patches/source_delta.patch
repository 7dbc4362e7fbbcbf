From 14a9388b00213bb05c10a578fdfb05e3d2e8c7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 01/26] fix: addDependGElements validates every element before
 inserting any edge

---
 src/GraphCtrl/GraphElement/GElement.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index cb35007..68956ec 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -158,10 +158,14 @@ CStatus GElement::addDependGElements(const GElementPtrSet& elements) {
         CGRAPH_ASSERT_INIT(false)
     }
 
+    // 先校验全部信息，再建立依赖关系。避免出现异常的时候，仅写入部分依赖
     for (GElementPtr element: elements) {
         CGRAPH_ASSERT_NOT_NULL(element)
         CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((element->belong_ != this->belong_),    \
         element->getName() + " cannot depend because not same belong info")
+    }
+
+    for (GElementPtr element: elements) {
         if (this == element) {
             continue;
         }
-- 
2.43.0


From 12edc945305368083ffa89efffc96f28396e93b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 02/26] fix: dynamic engine waits for in-flight elements before
 it reports an error

A failed run returned while elements were still executing; they touched the
engine's state of the next run. The error path also notified the waiting
thread without holding its lock.
---
 .../GDynamicEngine/GDynamicEngine.cpp         | 44 +++++++++++--------
 .../_GEngine/GDynamicEngine/GDynamicEngine.h  |  7 +++
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
index 5bf8a5b..e25bbe3 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
+++ b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
@@ -130,8 +130,20 @@ CVoid GDynamicEngine::process(GElementPtr element, const CBool affinity) {
         // 如果 affinity=true，表示用当前的线程，执行这个逻辑。以便增加亲和性
         innerExec(element);
     } else {
+        inflight_num_.fetch_add(1, std::memory_order_acq_rel);
         thread_pool_->execute([this, element] {
-            this->innerExec(element); }, element->binding_index_);
+            this->innerExec(element);
+            this->leaveExec(); }, element->binding_index_);
+    }
+}
+
+
+CVoid GDynamicEngine::leaveExec() {
+    // 出错的情况下，最后一个离开的任务，负责唤醒等待的主流程
+    if (1 == inflight_num_.fetch_sub(1, std::memory_order_acq_rel)
+        && unlikely(cur_status_.isErr())) {
+        CGRAPH_LOCK_GUARD lock(locker_.mtx_);
+        locker_.cv_.notify_one();
     }
 }
 
@@ -143,11 +155,8 @@ CVoid GDynamicEngine::innerExec(GElementPtr element) {
         afterElementRun(element);
     } else {
         // 遇到异常情况，结束整体逻辑
-        {
-            CGRAPH_LOCK_GUARD lk(status_lock_);
-            cur_status_ += curStatus;
-        }
-        locker_.cv_.notify_one();
+        CGRAPH_LOCK_GUARD lk(status_lock_);
+        cur_status_ += curStatus;
     }
 }
 
@@ -197,7 +206,6 @@ CVoid GDynamicEngine::afterElementRun(GElementPtr element) {
                 CGRAPH_LOCK_GUARD lk(status_lock_);
                 cur_status_.setErrorInfo("element shape type error");
             }
-            locker_.cv_.notify_one();
             break;
     }
 }
@@ -219,9 +227,10 @@ CVoid GDynamicEngine::fatWait() {
         /**
          * 遇到以下条件之一，结束执行：
          * 1，执行结束
-         * 2，状态异常
+         * 2，状态异常，且已经提交的任务均已离开（避免残留的任务，影响下一次执行）
          */
-        return (finished_end_size_.load(std::memory_order_acquire) >= total_end_size_) || cur_status_.isErr();
+        return (finished_end_size_.load(std::memory_order_acquire) >= total_end_size_)
+            || (0 == inflight_num_.load(std::memory_order_acquire) && cur_status_.isErr());
     });
 }
 
@@ -261,27 +270,24 @@ CVoid GDynamicEngine::parallelRunAll() {
     {
         CGRAPH_UNIQUE_LOCK lock(locker_.mtx_);
         locker_.cv_.wait(lock, [this] {
-            return (parallel_run_num_ >= total_end_size_ || cur_status_.isErr());
+            return parallel_run_num_ >= total_end_size_;
         });
     }
 }
 
 
 CVoid GDynamicEngine::parallelRunOne(GElementPtr element) {
-    if (unlikely(cur_status_.isErr())) {
-        return;
-    }
-
-    const auto& status = element->fatProcessor(CFunctionType::RUN);
-    if (unlikely(status.isErr())) {
-        {
+    // 已经出错的情况下，不再执行后续的element，但是仍需要计数
+    if (likely(!cur_status_.isErr())) {
+        const auto& status = element->fatProcessor(CFunctionType::RUN);
+        if (unlikely(status.isErr())) {
             CGRAPH_LOCK_GUARD lk(status_lock_);
             cur_status_ += status;
         }
     }
 
-    const auto finishedSize = parallel_run_num_.fetch_add(1, std::memory_order_release) + 1;
-    if (finishedSize >= total_end_size_ || cur_status_.isErr()) {
+    const auto finishedSize = parallel_run_num_.fetch_add(1, std::memory_order_acq_rel) + 1;
+    if (finishedSize >= total_end_size_) {
         CGRAPH_UNIQUE_LOCK lock(locker_.mtx_);
         locker_.cv_.notify_one();
     }
diff --git a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
index 92dd02d..96da8ad 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
+++ b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
@@ -71,6 +71,12 @@ protected:
      */
     CVoid afterElementRun(GElementPtr element);
 
+    /**
+     * 提交到线程池的任务，执行结束
+     * @return
+     */
+    CVoid leaveExec();
+
     /**
      * 动态图运行等待
      * @param
@@ -108,6 +114,7 @@ private:
     GElementPtrArr front_element_arr_ {};                                                // 没有依赖的元素信息
     CSize total_end_size_ = 0;                                                           // 图结束节点数量
     std::atomic<CSize> finished_end_size_ {0};                                        // 执行结束节点数量
+    std::atomic<CSize> inflight_num_ {0};                                             // 提交到线程池中，尚未执行结束的任务数量
     CStatus cur_status_ {};                                                              // 当前全局的状态信息
     std::atomic<CSize> parallel_run_num_ {0};                                         // 纯并行时，执行的个数信息
     GElementPtrMat2D parallel_element_matrix_ {};                                        // 纯并行时，记录分解后的数据
-- 
2.43.0


From b6a059f4ad1207ae13e60b147781fac12a418fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 03/26] fix: static and topo engines return a crash as an error
 status

They threw a CException out of the pipeline's run(), which skipped the reset of
parameters, events and element states; the dynamic engine returns the status.
---
 .../GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp     | 4 +++-
 .../GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp b/src/GraphCtrl/GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp
index 661299a..5f1eea1 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp
+++ b/src/GraphCtrl/GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp
@@ -70,7 +70,9 @@ CStatus GStaticEngine::run() {
         for (auto& future : futures) {
             status += future.get();
         }
-        CGRAPH_FUNCTION_CHECK_STATUS
+        if (unlikely(status.isErr())) {
+            break;    // 包括crash的情况：返回异常状态，而不是抛出异常，与动态引擎保持一致
+        }
     }
 
     CGRAPH_FUNCTION_END
diff --git a/src/GraphCtrl/GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp b/src/GraphCtrl/GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp
index 35ad44c..57c019b 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp
+++ b/src/GraphCtrl/GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp
@@ -25,7 +25,9 @@ CStatus GTopoEngine::run() {
     CGRAPH_FUNCTION_BEGIN
     for (auto* element : topo_elements_) {
         status += element->fatProcessor(CFunctionType::RUN);
-        CGRAPH_FUNCTION_CHECK_STATUS
+        if (unlikely(status.isErr())) {
+            break;    // 包括crash的情况：返回异常状态，而不是抛出异常，与动态引擎保持一致
+        }
     }
     CGRAPH_FUNCTION_END
 }
-- 
2.43.0


From d4d2fa0aa47e74fb0e74d1971e9474a6926ae68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 04/26] fix: pipeline state changes are stored under the
 element's lock, so a resumed element cannot miss its wake-up

---
 src/GraphCtrl/GraphElement/GElementRepository.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 40fc749..ecd7e8a 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -66,7 +66,11 @@ CStatus GElementRepository::pushAllState(const GElementState& state) {
     }
 
     for (auto& cur : elements_) {
-        cur->cur_state_.store(state, std::memory_order_release);
+        {
+            // 需要在 element 的锁内修改，避免 element 在判断状态之后、进入等待之前，丢失通知
+            CGRAPH_LOCK_GUARD lk(cur->suspend_locker_.mtx_);
+            cur->cur_state_.store(state, std::memory_order_release);
+        }
         if (GElementState::SUSPEND != state) {
             // 目前仅非 suspend 状态，需要切换的。如果一直处于 suspend 状态，是不需要被通知的
             cur->suspend_locker_.cv_.notify_one();
-- 
2.43.0


From c772190264819ded412d2d5d88e0615037dda677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 05/26] fix: an element waits while the pipeline is suspended
 instead of skipping its iterations

---
 src/GraphCtrl/GraphElement/GElement.cpp | 14 +++++++++++++-
 src/GraphCtrl/GraphElement/GElement.h   |  6 ++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index 68956ec..6c4f3b9 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -243,7 +243,7 @@ CStatus GElement::fatProcessor(const CFunctionType& type) {
                     is_prepared_ = true;
                 }
 
-                for (CSize i = 0; i < this->loop_ && status.isOK() && GElementState::NORMAL == this->getCurState(); i++) {
+                for (CSize i = 0; i < this->loop_ && status.isOK() && this->isRunnable(); i++) {
                     /** 执行带切面的run方法 */
                     status += doAspect(internal::GAspectType::BEGIN_RUN);
                     CGRAPH_FUNCTION_CHECK_STATUS
@@ -454,6 +454,18 @@ CVoid GElement::checkSuspend() {
 }
 
 
+CBool GElement::isRunnable() {
+    auto state = this->getCurState();
+    while (GElementState::SUSPEND == state) {
+        // 被挂起的时候，等待恢复之后再判断。不可以直接跳过尚未执行的内容
+        checkSuspend();
+        state = this->getCurState();
+    }
+
+    return GElementState::NORMAL == state;
+}
+
+
 CBool GElement::isGGroup() const {
     // 按位与 GROUP有值，表示是 GROUP的逻辑
     return (static_cast<long>(element_type_) & static_cast<long>(GElementType::GROUP)) > 0;
diff --git a/src/GraphCtrl/GraphElement/GElement.h b/src/GraphCtrl/GraphElement/GElement.h
index 1741d1a..5a6a915 100644
--- a/src/GraphCtrl/GraphElement/GElement.h
+++ b/src/GraphCtrl/GraphElement/GElement.h
@@ -387,6 +387,12 @@ private:
      */
     CVoid checkSuspend();
 
+    /**
+     * 判断当前元素是否可以开始下一次执行。如果处于 suspend 状态，则等待恢复之后再判断
+     * @return
+     */
+    CBool isRunnable();
+
     /**
      * 判断当前元素，是否可以线性执行。默认返回true
      * @return
-- 
2.43.0


From d2a95542f9d3199033c62c5c3234cb22fe6883a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:33 +0000
Subject: [PATCH 06/26] fix: elements inside a group count as initialised after
 the group was initialised

---
 src/GraphCtrl/GraphElement/GGroup/GGroup.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
index a4deac3..e9f05ca 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
@@ -19,7 +19,11 @@ CStatus GGroup::init() {
 
     for (GElementPtr element : children_) {
         CGRAPH_ASSERT_NOT_NULL(element)
-        status += element->fatProcessor(CFunctionType::INIT);
+        const auto& curStatus = element->fatProcessor(CFunctionType::INIT);
+        if (!curStatus.isErr()) {
+            element->is_init_ = true;    // 组内的 element，也需要记录为已经初始化，避免配置信息被继续修改
+        }
+        status += curStatus;
     }
     CGRAPH_FUNCTION_CHECK_STATUS
 
@@ -33,7 +37,11 @@ CStatus GGroup::destroy() {
 
     for (GElementPtr element : children_) {
         CGRAPH_ASSERT_NOT_NULL(element)
-        status += element->fatProcessor(CFunctionType::DESTROY);
+        const auto& curStatus = element->fatProcessor(CFunctionType::DESTROY);
+        if (!curStatus.isErr()) {
+            element->is_init_ = false;
+        }
+        status += curStatus;
     }
     CGRAPH_FUNCTION_CHECK_STATUS
 
-- 
2.43.0


From b3ba715a42095c69d8a3911f683d74682bff30c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:04 +0000
Subject: [PATCH 07/26] fix: levels set after registration are honoured by init
 and destroy

---
 src/GraphCtrl/GraphElement/GElementManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index 34a49bb..3ee3d2d 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -26,6 +26,8 @@ CStatus GElementManager::init() {
     for (auto element : manager_elements_) {
         CGRAPH_ASSERT_NOT_NULL(element)
     }
+    // level 信息，可能在 element 加入之后才被设定。故在 init 之前，需要按照当前的 level 信息重新排序
+    manager_elements_ = GSortedGElementPtrSet(manager_elements_.begin(), manager_elements_.end());
 
     status = initEngine();
     CGRAPH_FUNCTION_CHECK_STATUS
-- 
2.43.0


From d36cf28e1c0a74f6b56d5041ab73909c11c2844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 08/26] fix: do not run a graph whose analysis failed

---
 src/GraphCtrl/GraphElement/GElementManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index 3ee3d2d..af6cbff 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -181,8 +181,10 @@ CStatus GElementManager::process(const GSortedGElementPtrSet& elements) {
     CGRAPH_ASSERT_NOT_NULL(engine_)
 
     // 主要是给 mutable 使用
-    status += engine_->setup(elements);
-    status += run();
+    status = engine_->setup(elements);
+    CGRAPH_FUNCTION_CHECK_STATUS    // 解图失败的时候（例如：成环），不可以继续执行
+
+    status = run();
     CGRAPH_FUNCTION_END
 }
 
-- 
2.43.0


From ea8850dc12240fdf0e19d26ab44231bc0b134f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:51 +0000
Subject: [PATCH 09/26] fix: wake a worker for the task of an element with a
 timeout

---
 src/GraphCtrl/GraphElement/GElement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index 6c4f3b9..3385c10 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -554,7 +554,7 @@ CStatus GElement::asyncRun() {
 
     async_result_ = thread_pool_->commit([this] {
         return run();
-    }, CGRAPH_POOL_TASK_STRATEGY);
+    }, CGRAPH_TRIGGER_ALL_THREAD_STRATEGY);
 
     const auto& futStatus = async_result_.wait_for(std::chrono::milliseconds(timeout_));
     if (std::future_status::ready == futStatus) {
-- 
2.43.0


From 7d1d28e80b709ce4ec23dd682cbce055fd4f2475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 10/26] fix: an element that throws after its deadline makes
 run() return an error

---
 src/GraphCtrl/GraphElement/GElementRepository.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index ecd7e8a..bde6a9e 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -46,7 +46,11 @@ CStatus GElementRepository::reset() {
     for (auto& cur : async_elements_) {
         if (GElementTimeoutStrategy::HOLD_BY_PIPELINE == cur->timeout_strategy_) {
             // 强烈建议，在这里等待执行完成
-            status += cur->getAsyncResult();
+            try {
+                status += cur->getAsyncResult();
+            } catch (const CException& ex) {
+                status += cur->crashed(ex);    // 超时之后抛出的异常，也转成错误信息返回
+            }
         }
 
         // 无论如何，写回非 timeout状态，确保不会迭代到下一轮
-- 
2.43.0


From 84715231709b0c279a739642ea8506690428a7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 11/26] fix: a pipeline cannot be added to a pipeline manager
 twice

---
 src/GraphCtrl/GraphPipeline/GPipelineManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp b/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
index d4f7a6b..6655254 100644
--- a/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
@@ -72,6 +72,8 @@ CStatus GPipelineManager::add(GPipelinePtr ptr) {
 
     {
         CGRAPH_LOCK_GUARD lk(mutex_);
+        // 同一个 pipeline 不可以重复添加，否则可能被同时 fetch 多次
+        CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(find(ptr), "pipeline is already in the manager")
         free_list_.push_back(ptr);
     }
 
-- 
2.43.0


From 1073202e10dd6bcc3285f0429b62f749694ed655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 12/26] fix: a pipeline manager gets its pipeline back when the
 run throws

---
 src/GraphCtrl/GraphPipeline/GPipelineManager.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp b/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
index 6655254..b708bd0 100644
--- a/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
@@ -41,7 +41,12 @@ CStatus GPipelineManager::run() {
      * 这里执行，是外部线程执行的。获取的status就是这个pipeline run的结果
      * 无论如何，执行完成之后，都要将pipeline返回到 free_list 中去
      */
-    status = pipeline->run();
+    try {
+        status = pipeline->run();
+    } catch (...) {
+        (void)release(pipeline);
+        throw;
+    }
     status += release(pipeline);
 
     CGRAPH_FUNCTION_END
-- 
2.43.0


From 683d6eff2c2948bb196390386facf9f31c2be2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:35 +0000
Subject: [PATCH 13/26] fix: destroy daemons and events before the thread pool
 they use

---
 src/GraphCtrl/GraphPipeline/GPipeline.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 39f97ed..c9a987b 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -86,13 +86,13 @@ CStatus GPipeline::destroy() {
     /**
      * 需要先将线程池相关内容析构，然后再做destroy。
      * 否则的话，在错误status累积的情况下，在windows平台上，会产生崩溃
+     * 而 daemon（定时触发event）和 event（异步执行）都依赖线程池，
+     * 需要在线程池析构之前，等待相关逻辑全部结束
      */
+    status += daemon_manager_->destroy();
+    status += event_manager_->destroy();
     status += repository_.destroy();
     status += schedule_.destroy();
-    CGRAPH_FUNCTION_CHECK_STATUS
-
-    status += event_manager_->destroy();
-    status += daemon_manager_->destroy();
     status += element_manager_->destroy();
     status += stage_manager_->destroy();
     status += param_manager_->destroy();
-- 
2.43.0


From 21248e0186fc7ffa57453e8b79c3ac8e027ade5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:35 +0000
Subject: [PATCH 14/26] fix: GEvent::fatDestroy waits for every asynchronous
 trigger it holds

---
 src/GraphCtrl/GraphEvent/GEvent.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GraphCtrl/GraphEvent/GEvent.cpp b/src/GraphCtrl/GraphEvent/GEvent.cpp
index 52ff07e..75e57e6 100644
--- a/src/GraphCtrl/GraphEvent/GEvent.cpp
+++ b/src/GraphCtrl/GraphEvent/GEvent.cpp
@@ -33,6 +33,7 @@ CStatus GEvent::fatInit() {
 CStatus GEvent::fatDestroy() {
     CGRAPH_FUNCTION_BEGIN
 
+    asyncWait(GEventAsyncStrategy::PIPELINE_RUN_FINISH);    // 最后一次 run 结束之后，可能还有触发的event信息
     asyncWait(GEventAsyncStrategy::PIPELINE_DESTROY);
     async_run_finish_futures_.clear();
     async_destroy_futures_.clear();
-- 
2.43.0


From f81de6877eeee2c9c3cbe898842093ecdf8d6401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:35 +0000
Subject: [PATCH 15/26] fix: a stage participant waits for its own round

---
 src/GraphCtrl/GraphStage/GStage.cpp | 7 +++++--
 src/GraphCtrl/GraphStage/GStage.h   | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphStage/GStage.cpp b/src/GraphCtrl/GraphStage/GStage.cpp
index d0d2197..c5d355f 100644
--- a/src/GraphCtrl/GraphStage/GStage.cpp
+++ b/src/GraphCtrl/GraphStage/GStage.cpp
@@ -32,17 +32,20 @@ GStagePtr GStage::setThreshold(CInt threshold) {
 
 CVoid GStage::waiting() {
     CGRAPH_UNIQUE_LOCK lk(locker_.mtx_);
+    const CSize round = cur_round_;
     cur_value_++;
     if (cur_value_ >= threshold_) {
         // 如果超过了 threshold，则打开全部
         launch(param_);
         cur_value_ = 0;
+        cur_round_++;
         locker_.cv_.notify_all();
         return;
     }
 
-    locker_.cv_.wait(lk, [this] {
-        return 0 == cur_value_ || cur_value_ >= threshold_;
+    // 仅等待自己所在的轮次。下一轮可能在被唤醒之前，已经有其他参与者进入
+    locker_.cv_.wait(lk, [this, round] {
+        return round != cur_round_;
     });
 }
 
diff --git a/src/GraphCtrl/GraphStage/GStage.h b/src/GraphCtrl/GraphStage/GStage.h
index fdc26db..8f585fd 100644
--- a/src/GraphCtrl/GraphStage/GStage.h
+++ b/src/GraphCtrl/GraphStage/GStage.h
@@ -61,6 +61,7 @@ private:
 private:
     CInt threshold_ { 0 };                // 阈值信息
     CInt cur_value_ { 0 };                // 当前值
+    CSize cur_round_ { 0 };               // 当前轮次，每次达到阈值之后递增
     GStageParamPtr param_ { nullptr };    // 参数信息
     UCvMutex locker_;
 
-- 
2.43.0


From a988e528b17497a9e8f92b096c6124bde1e1a20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 16/26] fix: order the priority queue by task priority instead
 of by pointer

---
 src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h b/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
index 552f4f5..e1496ee 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
@@ -10,6 +10,7 @@
 #define CGRAPH_UATOMICPRIORITYQUEUE_H
 
 #include <queue>
+#include <vector>
 
 #include "UQueueObject.h"
 
@@ -86,7 +87,14 @@ public:
     CGRAPH_NO_ALLOWED_COPY(UAtomicPriorityQueue)
 
 private:
-    std::priority_queue<std::unique_ptr<T> > priority_queue_;    // 优先队列信息，根据重要级别决定先后执行顺序
+    /** 根据任务的优先级（而不是指针的地址）进行排序，数字大的任务先出 */
+    struct PriorityCompare {
+        CBool operator()(const std::unique_ptr<T>& lhs, const std::unique_ptr<T>& rhs) const {
+            return *lhs > *rhs;
+        }
+    };
+
+    std::priority_queue<std::unique_ptr<T>, std::vector<std::unique_ptr<T> >, PriorityCompare> priority_queue_;    // 优先队列信息，根据重要级别决定先后执行顺序
 };
 
 CGRAPH_NAMESPACE_END
-- 
2.43.0


From 20af23bc6f0a8ddd0340e1ff37bceebee191730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:32 +0000
Subject: [PATCH 17/26] fix: a message topic holds as many messages as its
 capacity says

---
 src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h b/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
index f191afc..edb2e19 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
@@ -24,7 +24,7 @@ public:
     explicit UAtomicRingBufferQueue() {
         head_ = 0;
         tail_ = 0;
-        capacity_ = capacity;
+        capacity_ = capacity + 1;
         ring_buffer_queue_.resize(capacity_);
     }
 
@@ -39,7 +39,7 @@ public:
      * @notice 谨慎使用，push信息之后，不推荐使用
      */
     UAtomicRingBufferQueue* setCapacity(const CUInt size) {
-        capacity_ = size;
+        capacity_ = size + 1;    // 环形缓冲需要空出来一个位置，故比可以存放的个数多一个
         ring_buffer_queue_.resize(capacity_);
         return this;
     }
@@ -49,7 +49,7 @@ public:
      * @return
      */
     CUInt getCapacity() const {
-        return capacity_;
+        return capacity_ - 1;
     }
 
     /**
@@ -143,7 +143,7 @@ protected:
 private:
     CUInt head_;                                                    // 头结点位置
     CUInt tail_;                                                    // 尾结点位置
-    CUInt capacity_;                                                // 环形缓冲的容量大小
+    CUInt capacity_;                                                // 环形缓冲的大小（比容量多一个空位）
 
     std::condition_variable push_cv_;                               // 写入的条件变量。为了保持语义完整，也考虑今后多入多出的可能性，不使用 父类中的 cv_了
     std::condition_variable pop_cv_;                                // 读取的条件变量
-- 
2.43.0


From b18f28c3616cb21097b0a79e82d34226e29acb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:32 +0000
Subject: [PATCH 18/26] fix: a detached connection or dropped topic leaves no
 dangling message behind

---
 src/GraphCtrl/GraphMessage/GMessageManager.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/GraphCtrl/GraphMessage/GMessageManager.h b/src/GraphCtrl/GraphMessage/GMessageManager.h
index 733a1dc..79d6895 100644
--- a/src/GraphCtrl/GraphMessage/GMessageManager.h
+++ b/src/GraphCtrl/GraphMessage/GMessageManager.h
@@ -177,13 +177,17 @@ public:
         auto& messageSet = result->second;
         for (auto* msg : messageSet) {
             if (connId == msg->getConnId()) {
-                CGRAPH_DELETE_PTR(msg);
+                messageSet.erase(msg);
                 conn_message_map_.erase(connId);
-                break;
+                CGRAPH_DELETE_PTR(msg);
+                if (messageSet.empty()) {
+                    pub_sub_message_map_.erase(result);    // 没有任何绑定的时候，删除对应的topic
+                }
+                CGRAPH_FUNCTION_END
             }
         }
 
-        CGRAPH_FUNCTION_END
+        CGRAPH_RETURN_ERROR_STATUS("no find [" + std::to_string(connId) + "] connect");
     }
 
     /**
@@ -250,6 +254,7 @@ public:
 
         auto& messageSet = result->second;
         for (auto* msg : messageSet) {
+            conn_message_map_.erase(msg->getConnId());
             CGRAPH_DELETE_PTR(msg)
         }
         pub_sub_message_map_.erase(innerTopic);
-- 
2.43.0


From c2a9bb072e5a3092eec0eb8d4783f24afee964dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:32 +0000
Subject: [PATCH 19/26] fix: look message topics up under their lock

---
 src/GraphCtrl/GraphMessage/GMessageManager.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphMessage/GMessageManager.h b/src/GraphCtrl/GraphMessage/GMessageManager.h
index 79d6895..f9b173d 100644
--- a/src/GraphCtrl/GraphMessage/GMessageManager.h
+++ b/src/GraphCtrl/GraphMessage/GMessageManager.h
@@ -88,12 +88,14 @@ public:
                            CMSec timeout = CGRAPH_MAX_BLOCK_TTL) {
         CGRAPH_FUNCTION_BEGIN
         const std::string& innerTopic = internal::SEND_RECV_PREFIX + topic;
+        CGRAPH_UNIQUE_LOCK lk(send_recv_mutex_);
         auto result = send_recv_message_map_.find(innerTopic);
         if (result == send_recv_message_map_.end()) {
             CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
         }
 
         auto message = (GMessagePtr<TImpl>)(result->second);
+        lk.unlock();    // 等待消息的时候，不可以持有锁
         CGRAPH_ASSERT_NOT_NULL(message);
 
         status = message->recv(value, timeout);
@@ -115,12 +117,14 @@ public:
                            GMessagePushStrategy strategy) {
         CGRAPH_FUNCTION_BEGIN
         const std::string& innerTopic = internal::SEND_RECV_PREFIX + topic;
+        CGRAPH_UNIQUE_LOCK lk(send_recv_mutex_);
         auto result = send_recv_message_map_.find(innerTopic);
         if (result == send_recv_message_map_.end()) {
             CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
         }
 
         auto message = static_cast<GMessagePtr<T> >(result->second);
+        lk.unlock();    // 写入消息的时候，可能会等待，不可以持有锁
         CGRAPH_ASSERT_NOT_NULL(message);
 
         message->send(value, strategy);
@@ -205,12 +209,14 @@ public:
                           GMessagePushStrategy strategy) {
         CGRAPH_FUNCTION_BEGIN
         auto innerTopic = internal::PUB_SUB_PREFIX + topic;
+        CGRAPH_UNIQUE_LOCK lk(pub_sub_mutex_);
         auto result = pub_sub_message_map_.find(innerTopic);
         if (result == pub_sub_message_map_.end()) {
             CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
         }
 
-        auto& messageSet = result->second;
+        const auto messageSet = result->second;
+        lk.unlock();    // 写入消息的时候，可能会等待，不可以持有锁
         for (auto msg : messageSet) {
             msg->send(value, strategy);    // 给所有订阅的信息，一次发送消息
         }
@@ -229,11 +235,13 @@ public:
             c_enable_if_t<std::is_base_of<T, TImpl>::value, int> = 0>
     CStatus subTopicValue(CIndex connId, std::shared_ptr<TImpl>& value, CMSec timeout = CGRAPH_MAX_BLOCK_TTL) {
         CGRAPH_FUNCTION_BEGIN
+        CGRAPH_UNIQUE_LOCK lk(pub_sub_mutex_);
         if (conn_message_map_.end() == conn_message_map_.find(connId)) {
             CGRAPH_RETURN_ERROR_STATUS("no find [" + std::to_string(connId) + "] connect");
         }
 
         auto message = (GMessagePtr<TImpl>)(conn_message_map_[connId]);
+        lk.unlock();    // 等待消息的时候，不可以持有锁
         status = message->recv(value, timeout);
         CGRAPH_FUNCTION_END
     }
-- 
2.43.0


From 8cc976922a64a8ea46a73a51f44ed4e6e23a2aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:12 +0000
Subject: [PATCH 20/26] fix: the room for secondary threads is computed under
 their lock

---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 3233d75..b72cfa3 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -227,10 +227,11 @@ CIndex UThreadPool::dispatch(const CIndex origIndex) {
 CStatus UThreadPool::createSecondaryThread(const CInt size) {
     CGRAPH_FUNCTION_BEGIN
 
+    // 剩余数量，需要在加锁之后计算。否则多个线程同时创建的时候，可能会超过设定max值
+    CGRAPH_LOCK_GUARD lock(st_mutex_);
     const int leftSize = static_cast<int>(config_.max_thread_size_ - config_.default_thread_size_ - secondary_threads_.size());
     const int realSize = std::min(size, leftSize);    // 使用 realSize 来确保所有的线程数量之和，不会超过设定max值
 
-    CGRAPH_LOCK_GUARD lock(st_mutex_);
     for (int i = 0; i < realSize; i++) {
         auto ptr = CGRAPH_MAKE_UNIQUE_COBJECT(UThreadSecondary)
         ptr->setThreadPoolInfo(&task_queue_, &priority_task_queue_, &config_);
-- 
2.43.0


From 4552405b7d9bbfd8e3e0063c1d500a856b9e9472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:32 +0000
Subject: [PATCH 21/26] fix: a thread pool refuses an inconsistent
 configuration

---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp     | 3 +++
 src/UtilsCtrl/ThreadPool/UThreadPoolConfig.h | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index b72cfa3..6ab77e7 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -34,6 +34,9 @@ CStatus UThreadPool::setConfig(const UThreadPoolConfig &config) {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_INIT(false)    // 初始化后，无法设置参数信息
 
+    status = config.check();    // 不接受自相矛盾的参数信息
+    CGRAPH_FUNCTION_CHECK_STATUS
+
     this->config_ = config;
     CGRAPH_FUNCTION_END
 }
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPoolConfig.h b/src/UtilsCtrl/ThreadPool/UThreadPoolConfig.h
index c7d2fdd..d5bc05a 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPoolConfig.h
+++ b/src/UtilsCtrl/ThreadPool/UThreadPoolConfig.h
@@ -46,6 +46,10 @@ struct UThreadPoolConfig : public CStruct {
             CGRAPH_RETURN_ERROR_STATUS("thread size cannot less than 0")
         }
 
+        if (max_thread_size_ <= 0) {
+            CGRAPH_RETURN_ERROR_STATUS("max thread size cannot less than 1")    // 否则，无法分配任何任务
+        }
+
         if (default_thread_size_ + secondary_thread_size_ > max_thread_size_) {
             CGRAPH_RETURN_ERROR_STATUS("max thread size is less than default + secondary thread. ["     \
             + std::to_string(max_thread_size_) + "<" + std::to_string(default_thread_size_) + "+"    \
-- 
2.43.0


From f5113ae7c51a4042a7062cc9fe607058658052d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:32 +0000
Subject: [PATCH 22/26] fix: a wrapped dispatch counter never yields a negative
 index

---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 6ab77e7..85fe7f2 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -212,7 +212,9 @@ CStatus UThreadPool::releaseSecondaryThread(CInt size) {
 CIndex UThreadPool::dispatch(const CIndex origIndex) {
     CIndex realIndex = 0;
     if (CGRAPH_DEFAULT_TASK_STRATEGY == origIndex) {
-        realIndex = cur_index_.fetch_add(1, std::memory_order_relaxed) % config_.max_thread_size_;
+        // 转为无符号类型，避免计数溢出之后，得到负数的index（可能与策略值重合）
+        realIndex = static_cast<CIndex>(static_cast<CUInt>(cur_index_.fetch_add(1, std::memory_order_relaxed))
+                                        % static_cast<CUInt>(config_.max_thread_size_));
         if (!config_.deliver_running_primary_thread_enable_
             && realIndex >= 0 && realIndex < config_.default_thread_size_
             && primary_threads_[realIndex]->is_running_.load(std::memory_order_relaxed)) {
-- 
2.43.0


From 8ac3d16aa6f5287478e53a04489874ea3d8da031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:33 +0000
Subject: [PATCH 23/26] fix: waking the secondary threads does not race with
 their release

---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 85fe7f2..e2baaa2 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -287,10 +287,14 @@ CSize UThreadPool::wakeupAllThread() {
             }
         }
 
-        for (const auto& st : secondary_threads_) {
-            if (st->wakeup()) {
-                ++size;
+        // 辅助线程可能正在被（其他线程）创建或者释放。此时无需等待，跳过即可
+        if (st_mutex_.try_lock()) {
+            for (const auto& st : secondary_threads_) {
+                if (st->wakeup()) {
+                    ++size;
+                }
             }
+            st_mutex_.unlock();
         }
         wakeup_mutex_.unlock();
     }
-- 
2.43.0


From 8366871c3864f4615a22c90e4667c57ed0a10873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:50 +0000
Subject: [PATCH 24/26] fix: a pool without any thread (serial pipelines) is a
 consistent configuration

---
 src/UtilsCtrl/ThreadPool/UThreadPoolConfig.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPoolConfig.h b/src/UtilsCtrl/ThreadPool/UThreadPoolConfig.h
index d5bc05a..c7d2fdd 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPoolConfig.h
+++ b/src/UtilsCtrl/ThreadPool/UThreadPoolConfig.h
@@ -46,10 +46,6 @@ struct UThreadPoolConfig : public CStruct {
             CGRAPH_RETURN_ERROR_STATUS("thread size cannot less than 0")
         }
 
-        if (max_thread_size_ <= 0) {
-            CGRAPH_RETURN_ERROR_STATUS("max thread size cannot less than 1")    // 否则，无法分配任何任务
-        }
-
         if (default_thread_size_ + secondary_thread_size_ > max_thread_size_) {
             CGRAPH_RETURN_ERROR_STATUS("max thread size is less than default + secondary thread. ["     \
             + std::to_string(max_thread_size_) + "<" + std::to_string(default_thread_size_) + "+"    \
-- 
2.43.0


From d9aa514f0e79525d88f470984326963fa8445cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:28 +0000
Subject: [PATCH 25/26] fix: a secondary thread is joined before its object is
 destroyed

---
 src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h b/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
index 4648234..85852bc 100644
--- a/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
+++ b/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
@@ -21,6 +21,11 @@ public:
     }
 
 
+    ~UThreadSecondary() override {
+        reset();    // 需要在本类析构之前，等待线程结束。否则线程可能会调用到纯虚函数
+    }
+
+
 protected:
     CStatus init() override {
         CGRAPH_FUNCTION_BEGIN
-- 
2.43.0


From 27c1679ab8161765cb41900c9797e8f7d88a8930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:24 +0000
Subject: [PATCH 26/26] fix: stopping a timer does not miss its wake-up

---
 src/UtilsCtrl/Timer/UTimer.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/UtilsCtrl/Timer/UTimer.h b/src/UtilsCtrl/Timer/UTimer.h
index f85c715..97f7104 100644
--- a/src/UtilsCtrl/Timer/UTimer.h
+++ b/src/UtilsCtrl/Timer/UTimer.h
@@ -45,8 +45,10 @@ public:
         future_ = std::async(std::launch::async, [this, task, modify]() {
              while (!is_stop_) {
                  CGRAPH_UNIQUE_LOCK lk(mutex_);
-                 auto result = cv_.wait_for(lk, std::chrono::milliseconds(left_interval_));
-                 if (std::cv_status::timeout == result && !is_stop_) {
+                 // 带条件等待，避免错过在进入等待之前，发出的停止通知
+                 const CBool stopped = cv_.wait_for(lk, std::chrono::milliseconds(left_interval_),
+                                                    [this] { return is_stop_.load(); });
+                 if (!stopped) {
                      CMSec start = CGRAPH_GET_CURRENT_MS();
                      task();
                      CMSec ms = modify();
@@ -75,8 +77,12 @@ public:
      * 关闭定时器
      */
     CVoid stop() {
-        if (is_stop_.exchange(true)) {
-            return;
+        {
+            // 需要加锁，避免在（定时线程）判断和等待之间，发出停止通知
+            CGRAPH_LOCK_GUARD lk(mutex_);
+            if (is_stop_.exchange(true)) {
+                return;
+            }
         }
 
         cv_.notify_one();
-- 
2.43.0

