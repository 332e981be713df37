From 8787c84006546cd0016b477ac9c3c1c94bb80cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 01/42] fix: release the previous coroutine when move-assigning
 a Generator

Move assignment overwrote the handle of the coroutine the Generator owned, which
leaked the coroutine, and self-move dropped it.
---
 qcoro/qcorogenerator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qcoro/qcorogenerator.h b/qcoro/qcorogenerator.h
index a325463..a198117 100644
--- a/qcoro/qcorogenerator.h
+++ b/qcoro/qcorogenerator.h
@@ -242,9 +242,14 @@ public:
     }
     Generator(const Generator &) = delete;
     Generator &operator=(Generator &&other) noexcept {
+        if (this != &other) {
+            if (mGeneratorCoroutine) {
+                mGeneratorCoroutine.destroy();
+            }
             mGeneratorCoroutine = other.mGeneratorCoroutine;
             other.mGeneratorCoroutine = std::coroutine_handle<promise_type>::from_address(nullptr);
-            return *this;
+        }
+        return *this;
     };
     Generator &operator=(const Generator &) = delete;
     /**
-- 
2.43.0


From 729aacc998cf01548cfcc514b8070a5392bbfb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 02/42] fix: return end() from begin() of an empty Generator

A default-constructed or moved-from Generator resumed a null coroutine handle.
---
 qcoro/qcorogenerator.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qcoro/qcorogenerator.h b/qcoro/qcorogenerator.h
index a198117..97529fe 100644
--- a/qcoro/qcorogenerator.h
+++ b/qcoro/qcorogenerator.h
@@ -272,6 +272,9 @@ public:
      * If the generator coroutine has thrown an exception if will be rethrown from here.
      **/
     iterator begin() {
+        if (!mGeneratorCoroutine) { // default-constructed or moved-from
+            return iterator{nullptr};
+        }
         mGeneratorCoroutine.resume(); // generate first value
         if (mGeneratorCoroutine.promise().finished()) { // did not yield anything
             mGeneratorCoroutine.promise().rethrowIfException();
-- 
2.43.0


From 2419b55f62aab70d34b6ea65b9992dcc90683d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 03/42] fix: release the previous coroutine when move-assigning
 an AsyncGenerator

Move assignment overwrote the handle of the coroutine the AsyncGenerator owned, which
leaked the coroutine, and self-move dropped it.
---
 qcoro/qcoroasyncgenerator.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qcoro/qcoroasyncgenerator.h b/qcoro/qcoroasyncgenerator.h
index b976dbd..8ed1dcd 100644
--- a/qcoro/qcoroasyncgenerator.h
+++ b/qcoro/qcoroasyncgenerator.h
@@ -303,8 +303,13 @@ public:
 
     /// Move-assignment operator.
     AsyncGenerator& operator=(AsyncGenerator &&other) noexcept {
-        m_coroutine = other.m_coroutine;
-        other.m_coroutine = nullptr;
+        if (this != &other) {
+            if (m_coroutine) {
+                m_coroutine.destroy();
+            }
+            m_coroutine = other.m_coroutine;
+            other.m_coroutine = nullptr;
+        }
         return *this;
     }
 
-- 
2.43.0


From 64ba35b5a6a8e22243bbf173a85f0574d0c0ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 04/42] fix: destroy the coroutine of a LazyTask that is never
 awaited

The promise starts with a reference for the running body, but the body of a LazyTask
does not run, and so never drops it, when the task is destroyed without having been
awaited: the coroutine and its arguments leaked.
---
 qcoro/impl/lazytask.h |  4 ++--
 qcoro/qcorolazytask.h | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/qcoro/impl/lazytask.h b/qcoro/impl/lazytask.h
index d69db6b..f8add9a 100644
--- a/qcoro/impl/lazytask.h
+++ b/qcoro/impl/lazytask.h
@@ -21,8 +21,8 @@ inline LazyTask<T> LazyTaskPromise<T>::get_return_object() noexcept {
 }
 
 template<typename T>
-inline std::suspend_always LazyTaskPromise<T>::initial_suspend() const noexcept {
-    return {};
+inline auto LazyTaskPromise<T>::initial_suspend() noexcept -> InitialSuspend {
+    return InitialSuspend{*this};
 }
 
 } // namespace detail
diff --git a/qcoro/qcorolazytask.h b/qcoro/qcorolazytask.h
index 93635c9..c59d7a0 100644
--- a/qcoro/qcorolazytask.h
+++ b/qcoro/qcorolazytask.h
@@ -29,7 +29,20 @@ public:
 
     LazyTask<T> get_return_object() noexcept;
 
-    std::suspend_always initial_suspend() const noexcept;
+    //! Suspends the coroutine until it is resumed for the first time.
+    /*!
+     * Only a running body owns a reference to its coroutine, so that a LazyTask which is
+     * never awaited destroys the coroutine.
+     */
+    struct InitialSuspend {
+        LazyTaskPromise &promise;
+
+        bool await_ready() const noexcept { return false; }
+        void await_suspend(std::coroutine_handle<>) const noexcept { promise.derefCoroutine(); }
+        void await_resume() const noexcept { promise.refCoroutine(); }
+    };
+
+    InitialSuspend initial_suspend() noexcept;
 };
 
 } // namespace detail
-- 
2.43.0


From 110a414cab489a8d08d97b9566ddeb36ad0a8a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 05/42] fix: keep the callbacks of a lazy then() continuation
 alive

thenImpl() and thenImplRef() took the callbacks by reference. When the continuation is
lazy its body runs, and copies the callbacks, only once it is awaited, long after a
temporary callback passed to then() has been destroyed.
---
 qcoro/impl/taskbase.h | 12 ++++++------
 qcoro/qcorotask.h     |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/qcoro/impl/taskbase.h b/qcoro/impl/taskbase.h
index 9a62449..09d6a9a 100644
--- a/qcoro/impl/taskbase.h
+++ b/qcoro/impl/taskbase.h
@@ -132,9 +132,9 @@ inline auto TaskBase<T, TaskImpl, PromiseType>::handleException(ErrorCallback &e
 
 template<typename T, template<typename> class TaskImpl, typename PromiseType>
 template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R>
-inline auto TaskBase<T, TaskImpl, PromiseType>::thenImpl(TaskT task_, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
-    auto thenCb = std::forward<ThenCallback>(thenCallback);
-    auto errCb = std::forward<ErrorCallback>(errorCallback);
+inline auto TaskBase<T, TaskImpl, PromiseType>::thenImpl(TaskT task_, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
+    auto thenCb = std::move(thenCallback);
+    auto errCb = std::move(errorCallback);
     const auto &task = static_cast<const TaskImpl<T> &>(task_);
 
     if constexpr (std::is_void_v<typename TaskImpl<T>::value_type>) {
@@ -165,9 +165,9 @@ inline auto TaskBase<T, TaskImpl, PromiseType>::thenImpl(TaskT task_, ThenCallba
 
 template<typename T, template<typename> class TaskImpl, typename PromiseType>
 template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R>
-inline auto TaskBase<T, TaskImpl, PromiseType>::thenImplRef(TaskT &task_, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
-    auto thenCb = std::forward<ThenCallback>(thenCallback);
-    auto errCb = std::forward<ErrorCallback>(errorCallback);
+inline auto TaskBase<T, TaskImpl, PromiseType>::thenImplRef(TaskT &task_, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
+    auto thenCb = std::move(thenCallback);
+    auto errCb = std::move(errorCallback);
     const auto &task = static_cast<const TaskImpl<T> &>(task_);
 
     if constexpr (std::is_void_v<typename TaskImpl<T>::value_type>) {
diff --git a/qcoro/qcorotask.h b/qcoro/qcorotask.h
index 0f1bd8f..9d6149f 100644
--- a/qcoro/qcorotask.h
+++ b/qcoro/qcorotask.h
@@ -427,9 +427,9 @@ private:
     static auto handleException(ErrorCallback &errCb, const std::exception &exception) -> U;
 
     template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R = cb_invoke_result_t<ThenCallback, T>>
-    static auto thenImpl(TaskT task, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
+    static auto thenImpl(TaskT task, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
     template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R = cb_invoke_result_t<ThenCallback, T>>
-    static auto thenImplRef(TaskT &task, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
+    static auto thenImplRef(TaskT &task, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
 
 protected:
     std::coroutine_handle<PromiseType> mCoroutine = {};
-- 
2.43.0


From 8c035d30a9af2e216acaa93bcb719c2dbc1437aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 06/42] fix: do not resume a LazyTask that is already running
 when it is awaited again

The second coroutine to await a suspended LazyTask resumed it from whatever it was
suspended on; awaiting an empty LazyTask resumed a null handle.
---
 qcoro/impl/lazytask.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qcoro/impl/lazytask.h b/qcoro/impl/lazytask.h
index f8add9a..c6c3938 100644
--- a/qcoro/impl/lazytask.h
+++ b/qcoro/impl/lazytask.h
@@ -44,8 +44,13 @@ inline auto LazyTask<T>::operator co_await() const noexcept {
         TaskAwaiter(std::coroutine_handle<promise_type> thisTask)
             : detail::TaskAwaiterBase<promise_type>{thisTask} {}
 
-        auto await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+        std::coroutine_handle<> await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+            const bool started = this->mAwaitedCoroutine && this->mAwaitedCoroutine.promise().hasAwaitingCoroutine();
             detail::TaskAwaiterBase<promise_type>::await_suspend(awaitingCoroutine);
+            if (!this->mAwaitedCoroutine || started) {
+                // Nothing to start: the task is empty, or another coroutine is already awaiting it.
+                return std::noop_coroutine();
+            }
             // Return handle to the lazy task, so that it gets automatically resumed.
             return this->mAwaitedCoroutine;
         }
-- 
2.43.0


From da76ac000024d0a93c96385c6cc2ffab343ed65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 07/42] fix: time out a signal await also when the sender is
 destroyed meanwhile

---
 qcoro/core/qcorosignal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index d68586c..2a05417 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -110,7 +110,7 @@ public:
 
     void handleTimeout(std::coroutine_handle<> awaitingCoroutine) {
         if (mTimeoutTimer) {
-            QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mObj,
+            QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mTimeoutTimer.get(),
                 [this, awaitingCoroutine]() {
                     QObject::disconnect(mConn);
                     awaitingCoroutine.resume();
-- 
2.43.0


From d50a21a00c82a4ee8974fa8fb74f7d82e2bc3d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 08/42] fix: resume a signal listener only while it awaits the
 next emission

---
 qcoro/core/qcorosignal.h | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index 2a05417..cd30adc 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -19,6 +19,7 @@
 #include <deque>
 #include <tuple>
 #include <type_traits>
+#include <utility>
 
 #include "impl/isqprivatesignal.h"
 
@@ -108,12 +109,14 @@ public:
         }
     }
 
-    void handleTimeout(std::coroutine_handle<> awaitingCoroutine) {
+    void handleTimeout() {
         if (mTimeoutTimer) {
+            // drop the connection left by a previous await
+            QObject::disconnect(mTimeoutTimer.get(), &QTimer::timeout, nullptr, nullptr);
             QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mTimeoutTimer.get(),
-                [this, awaitingCoroutine]() {
+                [this]() {
                     QObject::disconnect(mConn);
-                    awaitingCoroutine.resume();
+                    resumeAwaiter();
                 }, Qt::DirectConnection); // force coro to be resumed on our thread, not mObj's thread
             mTimeoutTimer->start();
         }
@@ -129,6 +132,13 @@ protected:
         }
     }
 
+    //! Resumes the awaiting coroutine, if there is one, exactly once
+    void resumeAwaiter() {
+        if (auto awaiter = std::exchange(mAwaitingCoroutine, nullptr)) {
+            awaiter.resume();
+        }
+    }
+
     template<typename... Args>
     struct select_last {
         using type = typename decltype((std::type_identity<Args>{}, ...))::type;
@@ -161,6 +171,7 @@ protected:
     FuncPtr mFuncPtr;
     QMetaObject::Connection mConn;
     std::unique_ptr<QTimer> mTimeoutTimer;
+    std::coroutine_handle<> mAwaitingCoroutine;
 };
 
 template<concepts::QObject T, typename FuncPtr>
@@ -202,8 +213,8 @@ public:
     }
 
     void await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
-        this->handleTimeout(awaitingCoroutine);
-        mAwaitingCoroutine = awaitingCoroutine;
+        this->mAwaitingCoroutine = awaitingCoroutine;
+        this->handleTimeout();
         setupConnection();
     }
 
@@ -226,15 +237,12 @@ private:
                     mResult.emplace(std::forward<decltype(args)>(args)...);
                 }, std::forward<decltype(args)>(args)...);
 
-                if (mAwaitingCoroutine) {
-                    mAwaitingCoroutine.resume();
-                }
+                this->resumeAwaiter();
             },
             Qt::QueuedConnection);
     }
 
     result_type mResult;
-    std::coroutine_handle<> mAwaitingCoroutine;
     std::unique_ptr<QObject> mDummyReceiver;
 };
 
@@ -267,8 +275,8 @@ public:
                 return !mQueue.isValid() || !mQueue.empty();
             }
             void await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
-                mQueue.handleTimeout(awaitingCoroutine);
                 mQueue.setAwaiter(awaitingCoroutine);
+                mQueue.handleTimeout();
             }
             result_type await_resume() {
                 return mQueue.dequeue();
@@ -299,7 +307,7 @@ public:
     }
 
     void setAwaiter(std::coroutine_handle<> awaiter) {
-        mAwaitingCoroutine = awaiter;
+        this->mAwaitingCoroutine = awaiter;
     }
 
 private:
@@ -318,14 +326,11 @@ private:
                     mQueue.emplace_back(std::forward<decltype(args)>(args)...);
                 }, std::forward<decltype(args)>(args) ...);
 
-                if (mAwaitingCoroutine) {
-                    mAwaitingCoroutine.resume();
-                }
+                this->resumeAwaiter();
             }, Qt::QueuedConnection);
 
     }
 
-    std::coroutine_handle<> mAwaitingCoroutine;
     std::deque<typename result_type::value_type> mQueue;
     QObject mDummyReceiver;
 };
-- 
2.43.0


From e34b931fa382962f6cb80e347697a3c7340f9b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 09/42] fix: measure sleepUntil() against the clock of its time
 point

---
 qcoro/core/qcorotimer.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index 833c8f0..af5ee27 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -66,8 +66,7 @@ QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
 //! A coroutine that suspends until the specified time.
 template<typename Clock, typename Duration>
 QCoro::Task<> sleepUntil(const std::chrono::time_point<Clock, Duration> &when) {
-    const auto tp = when.time_since_epoch() - std::chrono::steady_clock::now().time_since_epoch();
-    return sleepFor(tp);
+    return sleepFor(when - Clock::now());
 }
 
 } // namespace QCoro
-- 
2.43.0


From 19dadcf6fca32f2e0426666be5f71576e226ed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:41 +0000
Subject: [PATCH 10/42] fix: sleepFor() never wakes up early and copes with
 negative and very long durations

---
 qcoro/core/qcorotimer.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index af5ee27..92ff21c 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -11,6 +11,10 @@
 #include <QPointer>
 #include <QTimer>
 
+#include <algorithm>
+#include <chrono>
+#include <limits>
+
 /*! \cond internal */
 
 namespace QCoro::detail {
@@ -57,10 +61,18 @@ namespace QCoro {
 //! A coroutine that suspends for given period of time.
 template<typename Rep, typename Period>
 QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
+    // Round up, so that we never wake up early. A QTimer with a negative interval would never fire.
+    auto remaining = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), std::chrono::milliseconds::zero());
+    // QTimer only supports intervals that fit into an int
+    constexpr auto maxInterval = std::chrono::milliseconds{std::numeric_limits<int>::max()};
     QTimer timer;
     timer.setSingleShot(true);
-    timer.start(std::chrono::duration_cast<std::chrono::milliseconds>(timeout));
-    co_await timer;
+    do {
+        const auto interval = std::min(remaining, maxInterval);
+        remaining -= interval;
+        timer.start(interval);
+        co_await timer;
+    } while (remaining > std::chrono::milliseconds::zero());
 }
 
 //! A coroutine that suspends until the specified time.
-- 
2.43.0


From d953cfa35fac323cf48658074499297dd65117ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 11/42] fix: awaited QIODevice reads report a device closed or
 destroyed meanwhile

waitForReadyRead() returned true when the device was closed before any data
arrived, and a read on a device destroyed while waiting dereferenced null.
---
 qcoro/core/qcoroiodevice.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 0d457b8..6da5ae5 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -41,7 +41,7 @@ void QCoroIODevice::ReadOperation::await_suspend(std::coroutine_handle<> awaitin
 }
 
 QByteArray QCoroIODevice::ReadOperation::await_resume() {
-    return mResultCb(mDevice);
+    return mDevice ? mResultCb(mDevice) : QByteArray{};
 }
 
 QCoroIODevice::ReadAllOperation::ReadAllOperation(QIODevice *device)
@@ -56,7 +56,8 @@ QCoroIODevice::QCoroIODevice(QIODevice *device)
 
 QCoro::Task<QByteArray> QCoroIODevice::readAll(std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    co_await waitForReadyRead(timeout);
+    if (!device || !device->isReadable()) {
         co_return QByteArray{};
     }
 
@@ -65,7 +66,8 @@ QCoro::Task<QByteArray> QCoroIODevice::readAll(std::chrono::milliseconds timeout
 
 QCoro::Task<QByteArray> QCoroIODevice::read(qint64 maxSize, std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    co_await waitForReadyRead(timeout);
+    if (!device || !device->isReadable()) {
         co_return QByteArray{};
     }
 
@@ -74,7 +76,8 @@ QCoro::Task<QByteArray> QCoroIODevice::read(qint64 maxSize, std::chrono::millise
 
 QCoro::Task<QByteArray> QCoroIODevice::readLine(qint64 maxSize, std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    co_await waitForReadyRead(timeout);
+    if (!device || !device->isReadable()) {
         co_return QByteArray{};
     }
 
@@ -110,7 +113,8 @@ QCoro::Task<bool> QCoroIODevice::waitForReadyRead(std::chrono::milliseconds time
     }
 
     const auto result = co_await waitForReadyReadImpl(timeout);
-    co_return result.has_value();
+    // The result is false when the device was closed before any data arrived
+    co_return result.value_or(false);
 }
 
 QCoro::Task<std::optional<qint64>> QCoroIODevice::waitForBytesWritten(int timeout_msecs) {
-- 
2.43.0


From e52d42f5d70ecfc87caadf0e24e32bd8a4ab52bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 12/42] fix: QCoroIODevice::write() counts the bytes written
 since it was called

It never returned on devices which write at once or which flushed everything
before the coroutine was resumed, and counted bytes written before or after
its own data.
---
 qcoro/core/qcoroiodevice.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 6da5ae5..69819b4 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -10,6 +10,8 @@
 #include <QIODevice>
 #include <QTimer>
 
+#include <algorithm>
+
 using namespace QCoro::detail;
 
 QCoroIODevice::OperationBase::OperationBase(QIODevice *device)
@@ -85,19 +87,25 @@ QCoro::Task<QByteArray> QCoroIODevice::readLine(qint64 maxSize, std::chrono::mil
 }
 
 QCoro::Task<qint64> QCoroIODevice::write(const QByteArray &buffer) {
-    const auto bytesWritten = mDevice->write(buffer);
-    qint64 bytesConfirmed = 0;
-    while (bytesConfirmed < bytesWritten) {
-        const auto flushed = co_await waitForBytesWritten(-1);
-        if (!flushed.has_value()) {
-            // There was an intermediate error and we don't know how much was actually
-            // written, so we report only what we know for sure was written.
+    const auto device = mDevice;
+    // What is already buffered has to be written before our data
+    const auto bytesBuffered = device->bytesToWrite();
+    qint64 bytesFlushed = 0;
+    QObject context;
+    QObject::connect(device, &QIODevice::bytesWritten, &context, [&bytesFlushed](qint64 bytes) { bytesFlushed += bytes; });
+
+    const auto bytesWritten = std::max<qint64>(0, device->write(buffer));
+    while (device && device->bytesToWrite() > 0 && bytesFlushed < bytesBuffered + bytesWritten) {
+        if (!(co_await waitForBytesWritten(-1)).has_value()) {
             break;
         }
-        bytesConfirmed += *flushed;
     }
 
-    co_return bytesConfirmed;
+    if (device && device->isWritable() && device->bytesToWrite() == 0) {
+        co_return bytesWritten;
+    }
+    // In case of an intermediate error we report only what we know for sure was written.
+    co_return std::clamp<qint64>(bytesFlushed - bytesBuffered, 0, bytesWritten);
 }
 
 QCoro::Task<bool> QCoroIODevice::waitForReadyRead(int timeout_msecs) {
-- 
2.43.0


From bc46c5939b375b9c16ce392f21c53929841e62be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 13/42] fix: QProcess awaits end when the process fails to
 start

waitForStarted() and waitForFinished() (and start()) never resumed, or only once
the timeout passed, when the process failed to start.
---
 qcoro/core/qcoroprocess.cpp | 47 +++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/qcoro/core/qcoroprocess.cpp b/qcoro/core/qcoroprocess.cpp
index 6b0a03e..4879cee 100644
--- a/qcoro/core/qcoroprocess.cpp
+++ b/qcoro/core/qcoroprocess.cpp
@@ -13,6 +13,40 @@
 
 using namespace QCoro::detail;
 
+namespace {
+
+//! Emits ready(true) when the process emits given signal or ready(false) when it fails to start.
+class ProcessSignalHelper : public QObject {
+    Q_OBJECT
+public:
+    template<typename Signal>
+    ProcessSignalHelper(const QProcess *process, Signal signal)
+        : QObject()
+        , mSignal(connect(process, signal, this, [this]() { emitReady(true); }))
+        , mError(connect(process, &QProcess::errorOccurred, this, [this](QProcess::ProcessError error) {
+            if (error == QProcess::FailedToStart) {
+                emitReady(false);
+            }
+        }))
+    {}
+
+Q_SIGNALS:
+    void ready(bool result);
+
+private:
+    void emitReady(bool result) {
+        disconnect(mSignal);
+        disconnect(mError);
+        Q_EMIT ready(result);
+    }
+
+private:
+    QMetaObject::Connection mSignal;
+    QMetaObject::Connection mError;
+};
+
+} // namespace
+
 QCoroProcess::QCoroProcess(QProcess *process)
     : QCoroIODevice(process)
 {}
@@ -24,8 +58,9 @@ QCoro::Task<bool> QCoroProcess::waitForStarted(int timeout_msecs) {
 QCoro::Task<bool> QCoroProcess::waitForStarted(std::chrono::milliseconds timeout) {
     const auto *process = qobject_cast<QProcess *>(mDevice.data());
     if (process->state() == QProcess::Starting) {
-        const auto started = co_await qCoro(process, &QProcess::started, timeout);
-        co_return started.has_value();
+        ProcessSignalHelper helper(process, &QProcess::started);
+        const auto started = co_await qCoro(&helper, &ProcessSignalHelper::ready, timeout);
+        co_return started.value_or(false);
     }
 
     co_return process->state() == QProcess::Running;
@@ -41,8 +76,10 @@ QCoro::Task<bool> QCoroProcess::waitForFinished(std::chrono::milliseconds timeou
         co_return false;
     }
 
-    const auto finished = co_await qCoro(process, qOverload<int, QProcess::ExitStatus>(&QProcess::finished), timeout);
-    co_return finished.has_value();
+    // A process which fails to start doesn't emit finished()
+    ProcessSignalHelper helper(process, qOverload<int, QProcess::ExitStatus>(&QProcess::finished));
+    const auto finished = co_await qCoro(&helper, &ProcessSignalHelper::ready, timeout);
+    co_return finished.value_or(false);
 }
 
 QCoro::Task<bool> QCoroProcess::start(QIODevice::OpenMode mode, std::chrono::milliseconds timeout) {
@@ -56,4 +93,6 @@ QCoro::Task<bool> QCoroProcess::start(const QString &program, const QStringList
     return waitForStarted(timeout);
 }
 
+#include "qcoroprocess.moc"
+
 #endif // QT_CONFIG(process)
-- 
2.43.0


From 9a79ecb8c4c3452cadb5be4e8dc3508f216bdbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 14/42] fix: QThread awaits don't miss the thread starting or
 finishing meanwhile

The state was checked before connecting to the signal: a thread that started or
finished in between was missed (the await never ended), or reported as not
having finished.
---
 qcoro/core/qcorothread.cpp | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/qcoro/core/qcorothread.cpp b/qcoro/core/qcorothread.cpp
index b1c73ee..c80c02f 100644
--- a/qcoro/core/qcorothread.cpp
+++ b/qcoro/core/qcorothread.cpp
@@ -41,6 +41,22 @@ private:
 
 QEvent::Type ContextHelper::eventType = static_cast<QEvent::Type>(QEvent::registerEventType());
 
+//! Emits ready(true) when the thread emits given signal or ready(false) when it is destroyed.
+class ThreadSignalHelper : public QObject {
+    Q_OBJECT
+public:
+    template<typename Signal>
+    explicit ThreadSignalHelper(const QThread *thread, Signal signal) {
+        connect(thread, signal, this, [this]() { Q_EMIT ready(true); });
+        connect(thread, &QObject::destroyed, this, [this]() { Q_EMIT ready(false); },
+                // after the signal, which comes from another thread
+                Qt::QueuedConnection);
+    }
+
+Q_SIGNALS:
+    void ready(bool result);
+};
+
 class ThreadContextPrivate {
 public:
     explicit ThreadContextPrivate(QThread *thread)
@@ -95,20 +111,29 @@ QCoro::Task<bool> QCoroThread::waitForStarted(std::chrono::milliseconds timeout)
         co_return false;
     }
 
-    const auto result = co_await qCoro(mThread.data(), &QThread::started, timeout);
-    co_return result.has_value();
+    // Connect first: the thread may start at any moment
+    ThreadSignalHelper helper(mThread.data(), &QThread::started);
+    if (mThread->isRunning() || mThread->isFinished()) {
+        co_return true;
+    }
+
+    const auto result = co_await qCoro(&helper, &ThreadSignalHelper::ready, timeout);
+    co_return result.value_or(false);
 }
 
 QCoro::Task<bool> QCoroThread::waitForFinished(std::chrono::milliseconds timeout) {
+    // Connect first: the thread may finish at any moment
+    ThreadSignalHelper helper(mThread.data(), &QThread::finished);
     if (mThread->isFinished()) {
         co_return true;
     }
     if (!mThread->isRunning()) {
-        co_return false;
+        // It has either not started yet, or finished since the check above
+        co_return mThread->isFinished();
     }
 
-    const auto result = co_await qCoro(mThread.data(), &QThread::finished, timeout);
-    co_return result.has_value();
+    const auto result = co_await qCoro(&helper, &ThreadSignalHelper::ready, timeout);
+    co_return result.value_or(false);
 }
 
 #include "qcorothread.moc"
-- 
2.43.0


From 974eaa15decb00496b17e21fcb203481d8848aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 15/42] fix: awaiting a canceled QFuture which is still running
 doesn't block

Such a future was taken for finished and its result was obtained by blocking the
thread (and its event loop) until it finished.
---
 qcoro/core/qcorofuture.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qcoro/core/qcorofuture.h b/qcoro/core/qcorofuture.h
index 0e028d8..1fbe3c6 100644
--- a/qcoro/core/qcorofuture.h
+++ b/qcoro/core/qcorofuture.h
@@ -28,7 +28,8 @@ private:
         QCORO_DEFAULT_MOVE(WaitForFinishedOperationBase)
 
         bool await_ready() const noexcept {
-            return mFuture.isFinished() || mFuture.isCanceled();
+            // A canceled future may still be running, obtaining its result would block
+            return mFuture.isFinished();
         }
 
         void await_suspend(std::coroutine_handle<> awaitingCoroutine) {
-- 
2.43.0


From 095e3759b4e7d5c7073ca4fa925aa86f1edda20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:02 +0000
Subject: [PATCH 16/42] fix: awaited QIODevice reads end when the read channel
 is finished

Reading from a process that exited or awaiting a socket directly never resumed.
---
 qcoro/core/qcoroiodevice.cpp   | 4 ++++
 qcoro/core/qcoroiodevice_p.cpp | 1 +
 qcoro/core/qcoroiodevice_p.h   | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 69819b4..ba91cf1 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -21,6 +21,7 @@ QCoroIODevice::OperationBase::OperationBase(QIODevice *device)
 void QCoroIODevice::OperationBase::finish(std::coroutine_handle<> awaitingCoroutine) {
     QObject::disconnect(mConn);
     QObject::disconnect(mCloseConn);
+    QObject::disconnect(mFinishedConn);
     // Delayed trigger
     QTimer::singleShot(0, [awaitingCoroutine]() mutable { awaitingCoroutine.resume(); });
 }
@@ -40,6 +41,9 @@ void QCoroIODevice::ReadOperation::await_suspend(std::coroutine_handle<> awaitin
     mCloseConn =
         QObject::connect(mDevice, &QIODevice::aboutToClose,
                          std::bind(&ReadOperation::finish, this, awaitingCoroutine));
+    mFinishedConn =
+        QObject::connect(mDevice, &QIODevice::readChannelFinished,
+                         std::bind(&ReadOperation::finish, this, awaitingCoroutine));
 }
 
 QByteArray QCoroIODevice::ReadOperation::await_resume() {
diff --git a/qcoro/core/qcoroiodevice_p.cpp b/qcoro/core/qcoroiodevice_p.cpp
index b1384f2..492361f 100644
--- a/qcoro/core/qcoroiodevice_p.cpp
+++ b/qcoro/core/qcoroiodevice_p.cpp
@@ -10,6 +10,7 @@ WaitSignalHelper::WaitSignalHelper(const QIODevice *device, void(QIODevice::*sig
     : QObject()
     , mReady(connect(device, signalFunc, this, [this]() { this->emitReady(true); }))
     , mAboutToClose(connect(device, &QIODevice::aboutToClose, this, [this]() { this->emitReady(false); }))
+    , mReadFinished(connect(device, &QIODevice::readChannelFinished, this, [this]() { this->emitReady(false); }))
 {}
 
 WaitSignalHelper::WaitSignalHelper(const QIODevice *device, void(QIODevice::*signalFunc)(qint64))
diff --git a/qcoro/core/qcoroiodevice_p.h b/qcoro/core/qcoroiodevice_p.h
index 941a843..e6ae8c0 100644
--- a/qcoro/core/qcoroiodevice_p.h
+++ b/qcoro/core/qcoroiodevice_p.h
@@ -29,10 +29,12 @@ protected:
     virtual void cleanup() {
         disconnect(mReady);
         disconnect(mAboutToClose);
+        disconnect(mReadFinished);
     }
 
     QMetaObject::Connection mReady;
     QMetaObject::Connection mAboutToClose;
+    QMetaObject::Connection mReadFinished;
 };
 
 } // namespace QCoro::detail
\ No newline at end of file
-- 
2.43.0


From 23c60ededf33c0291fece29dc2959579c215a320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:02 +0000
Subject: [PATCH 17/42] fix: QCoroIODevice::write() doesn't count data dropped
 by a disconnected socket

---
 qcoro/core/qcoroiodevice.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index ba91cf1..5332840 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -99,15 +99,16 @@ QCoro::Task<qint64> QCoroIODevice::write(const QByteArray &buffer) {
     QObject::connect(device, &QIODevice::bytesWritten, &context, [&bytesFlushed](qint64 bytes) { bytesFlushed += bytes; });
 
     const auto bytesWritten = std::max<qint64>(0, device->write(buffer));
+    if (device && device->bytesToWrite() == 0) {
+        co_return bytesWritten; // written at once
+    }
+
     while (device && device->bytesToWrite() > 0 && bytesFlushed < bytesBuffered + bytesWritten) {
         if (!(co_await waitForBytesWritten(-1)).has_value()) {
             break;
         }
     }
 
-    if (device && device->isWritable() && device->bytesToWrite() == 0) {
-        co_return bytesWritten;
-    }
     // In case of an intermediate error we report only what we know for sure was written.
     co_return std::clamp<qint64>(bytesFlushed - bytesBuffered, 0, bytesWritten);
 }
-- 
2.43.0


From b8da4dbcb11ef1bf1d1b75ef075bea500c7db95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:02 +0000
Subject: [PATCH 18/42] fix: QAbstractSocket awaits end when the connection
 attempt fails

waitForConnected(), waitForDisconnected() and connectToHost() never resumed, or
only once the timeout passed.
---
 qcoro/network/qcoroabstractsocket.cpp | 48 +++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/qcoro/network/qcoroabstractsocket.cpp b/qcoro/network/qcoroabstractsocket.cpp
index 56fde6b..24fb9dd 100644
--- a/qcoro/network/qcoroabstractsocket.cpp
+++ b/qcoro/network/qcoroabstractsocket.cpp
@@ -11,6 +11,28 @@ using namespace std::chrono_literals;
 
 namespace {
 
+//! Emits ready(true) when the socket gets to given state or ready(false) when it becomes unconnected instead.
+class AbstractSocketStateHelper : public QObject {
+    Q_OBJECT
+public:
+    AbstractSocketStateHelper(const QAbstractSocket *socket, QAbstractSocket::SocketState expected)
+        : QObject()
+        , mStateChanged(connect(socket, &QAbstractSocket::stateChanged, this,
+                        [this, expected](QAbstractSocket::SocketState state) {
+            if (state == expected || state == QAbstractSocket::UnconnectedState) {
+                disconnect(mStateChanged);
+                Q_EMIT ready(state == expected);
+            }
+        }))
+    {}
+
+Q_SIGNALS:
+    void ready(bool result);
+
+private:
+    QMetaObject::Connection mStateChanged;
+};
+
 class AbstractSocketReadySignalHelper : public WaitSignalHelper {
     Q_OBJECT
 public:
@@ -75,8 +97,10 @@ QCoro::Task<bool> QCoroAbstractSocket::waitForConnected(std::chrono::millisecond
         co_return true;
     }
 
-    const auto result = co_await qCoro(socket, &QAbstractSocket::connected, timeout);
-    co_return result.has_value();
+    // The connection attempt may fail
+    AbstractSocketStateHelper helper(socket, QAbstractSocket::ConnectedState);
+    const auto result = co_await qCoro(&helper, &AbstractSocketStateHelper::ready, timeout);
+    co_return result.value_or(false);
 }
 
 QCoro::Task<bool> QCoroAbstractSocket::waitForDisconnected(int timeout_msecs) {
@@ -89,21 +113,31 @@ QCoro::Task<bool> QCoroAbstractSocket::waitForDisconnected(std::chrono::millisec
         co_return false;
     }
 
-    const auto result = co_await qCoro(socket, &QAbstractSocket::disconnected, timeout);
+    // A socket which fails to connect doesn't emit disconnected()
+    AbstractSocketStateHelper helper(socket, QAbstractSocket::UnconnectedState);
+    const auto result = co_await qCoro(&helper, &AbstractSocketStateHelper::ready, timeout);
     co_return result.has_value();
 }
 
 QCoro::Task<bool> QCoroAbstractSocket::connectToHost(const QString &hostName, quint16 port,
                                                      QIODevice::OpenMode openMode, QAbstractSocket::NetworkLayerProtocol protocol,
                                                      std::chrono::milliseconds timeout) {
-    static_cast<QAbstractSocket *>(mDevice.data())->connectToHost(hostName, port, openMode, protocol);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
+    socket->connectToHost(hostName, port, openMode, protocol);
+    if (socket->state() == QAbstractSocket::UnconnectedState) {
+        co_return false; // failed immediately
+    }
+    co_return co_await waitForConnected(timeout);
 }
 
 QCoro::Task<bool> QCoroAbstractSocket::connectToHost(const QHostAddress &address, quint16 port,
                                                      QIODevice::OpenMode openMode, std::chrono::milliseconds timeout) {
-    static_cast<QAbstractSocket *>(mDevice.data())->connectToHost(address, port, openMode);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
+    socket->connectToHost(address, port, openMode);
+    if (socket->state() == QAbstractSocket::UnconnectedState) {
+        co_return false; // failed immediately
+    }
+    co_return co_await waitForConnected(timeout);
 }
 
 #include "qcoroabstractsocket.moc"
\ No newline at end of file
-- 
2.43.0


From ee5d5e67f2007b4beb4a2b6c4b5937dae7f219c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:02 +0000
Subject: [PATCH 19/42] fix: QLocalSocket awaits end when the connection
 attempt fails

connectToServer() and waitForDisconnected() never resumed, or only once the
timeout passed.
---
 qcoro/network/qcorolocalsocket.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/qcoro/network/qcorolocalsocket.cpp b/qcoro/network/qcorolocalsocket.cpp
index 5cc97e5..a1cde96 100644
--- a/qcoro/network/qcorolocalsocket.cpp
+++ b/qcoro/network/qcorolocalsocket.cpp
@@ -116,20 +116,30 @@ QCoro::Task<bool> QCoroLocalSocket::waitForDisconnected(std::chrono::millisecond
     if (socket->state() == QLocalSocket::UnconnectedState) {
         co_return false;
     }
-    const auto result = co_await qCoro(socket, &QLocalSocket::disconnected, timeout);
+    // A socket which fails to connect doesn't emit disconnected()
+    SocketConnectedHelper helper(socket, &QLocalSocket::disconnected);
+    const auto result = co_await qCoro(&helper, &SocketConnectedHelper::ready, timeout);
     co_return result.has_value();
 }
 
 QCoro::Task<bool> QCoroLocalSocket::connectToServer(QIODevice::OpenMode openMode,
                                                     std::chrono::milliseconds timeout) {
-    static_cast<QLocalSocket *>(mDevice.data())->connectToServer(openMode);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QLocalSocket *>(mDevice.data());
+    socket->connectToServer(openMode);
+    if (socket->state() == QLocalSocket::UnconnectedState) {
+        co_return false; // failed immediately
+    }
+    co_return co_await waitForConnected(timeout);
 }
 
 QCoro::Task<bool> QCoroLocalSocket::connectToServer(const QString &name, QIODevice::OpenMode openMode,
                                                     std::chrono::milliseconds timeout) {
-    static_cast<QLocalSocket *>(mDevice.data())->connectToServer(name, openMode);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QLocalSocket *>(mDevice.data());
+    socket->connectToServer(name, openMode);
+    if (socket->state() == QLocalSocket::UnconnectedState) {
+        co_return false; // failed immediately
+    }
+    co_return co_await waitForConnected(timeout);
 }
 
 #include "qcorolocalsocket.moc"
\ No newline at end of file
-- 
2.43.0


From 99ba9d72586e653a53470d990dd15bc972309097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:32 +0000
Subject: [PATCH 20/42] fix: waitForNewConnection() doesn't end without a
 connection taken by somebody else

A waiter woken by a connection which another one took resumed with nothing, and
one whose server was destroyed meanwhile dereferenced null.
---
 qcoro/network/qcorotcpserver.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/qcoro/network/qcorotcpserver.cpp b/qcoro/network/qcorotcpserver.cpp
index b23e297..6a9f5e6 100644
--- a/qcoro/network/qcorotcpserver.cpp
+++ b/qcoro/network/qcorotcpserver.cpp
@@ -5,6 +5,7 @@
 #include "qcorotcpserver.h"
 #include "qcorosignal.h"
 
+#include <QDeadlineTimer>
 #include <QTcpServer>
 
 using namespace QCoro::detail;
@@ -36,16 +37,18 @@ QCoro::Task<QTcpSocket *> QCoroTcpServer::waitForNewConnection(int timeout_msecs
 
 QCoro::Task<QTcpSocket *> QCoroTcpServer::waitForNewConnection(std::chrono::milliseconds timeout) {
     const auto server = mServer;
-    if (!server->isListening()) {
-        co_return nullptr;
-    }
-    if (server->hasPendingConnections()) {
-        co_return server->nextPendingConnection();
-    }
-
-    const auto result = co_await qCoro(server.data(), &QTcpServer::newConnection, timeout);
-    if (result.has_value()) {
-        co_return server->nextPendingConnection();
+    const auto deadline = timeout.count() > -1 ? QDeadlineTimer(timeout) : QDeadlineTimer(QDeadlineTimer::Forever);
+    while (server && server->isListening()) {
+        if (server->hasPendingConnections()) {
+            co_return server->nextPendingConnection();
+        }
+
+        // Somebody else may take the new connection before this coroutine is resumed
+        const auto result = co_await qCoro(server.data(), &QTcpServer::newConnection,
+                                           std::chrono::milliseconds(deadline.remainingTime()));
+        if (!result.has_value()) {
+            break;
+        }
     }
     co_return nullptr;
 }
-- 
2.43.0


From 67170696730bbb09b554d68359d77e5754b1d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 21/42] fix: QCoroWebSocket::open() never resumed when the
 connection attempt failed

---
 qcoro/websockets/qcorowebsocket.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/qcoro/websockets/qcorowebsocket.cpp b/qcoro/websockets/qcorowebsocket.cpp
index c686d14..f254252 100644
--- a/qcoro/websockets/qcorowebsocket.cpp
+++ b/qcoro/websockets/qcorowebsocket.cpp
@@ -28,8 +28,8 @@ class WebSocketStateWatcher : public QObject {
 public:
     WebSocketStateWatcher(QWebSocket *socket, QAbstractSocket::SocketState desiredState)
         : mState(connect(socket, &QWebSocket::stateChanged, this, [this, desiredState](auto newState) {
-            if (newState == desiredState) {
-                emitReady(true);
+            if (newState == desiredState || newState == QAbstractSocket::UnconnectedState) {
+                emitReady(newState == desiredState);
             }
         }))
         , mError(connect(socket, qOverload<QAbstractSocket::SocketError>(
@@ -44,6 +44,11 @@ public:
         }))
     {}
 
+    //! The result if ready() has already been emitted
+    std::optional<bool> result() const {
+        return mResult;
+    }
+
 Q_SIGNALS:
     void ready(bool result);
 
@@ -51,11 +56,13 @@ private:
     void emitReady(bool result) {
         disconnect(mState);
         disconnect(mError);
+        mResult = result;
         Q_EMIT ready(result);
     }
 
     QMetaObject::Connection mState;
     QMetaObject::Connection mError;
+    std::optional<bool> mResult;
 };
 
 template<typename>
@@ -153,6 +160,9 @@ QCoro::Task<bool> QCoroWebSocket::open(const QUrl &url, std::chrono::millisecond
 
     WebSocketStateWatcher watcher(mWebSocket, QAbstractSocket::ConnectedState);
     mWebSocket->open(url);
+    if (const auto ready = watcher.result(); ready.has_value()) {
+        co_return *ready; // failed immediately
+    }
     const auto result = co_await qCoro(&watcher, &WebSocketStateWatcher::ready, timeout);
     co_return result.value_or(false);
 }
@@ -165,6 +175,9 @@ QCoro::Task<bool> QCoroWebSocket::open(const QNetworkRequest &request, std::chro
 
     WebSocketStateWatcher watcher(mWebSocket, QAbstractSocket::ConnectedState);
     mWebSocket->open(request);
+    if (const auto ready = watcher.result(); ready.has_value()) {
+        co_return *ready; // failed immediately
+    }
     const auto result = co_await qCoro(&watcher, &WebSocketStateWatcher::ready, timeout);
     co_return result.value_or(false);
 }
-- 
2.43.0


From a38cc6b833dd93ed4743b53477034dd7d863978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 22/42] fix: QCoroWebSocket::ping() took the response to
 another ping for its own

---
 qcoro/websockets/qcorowebsocket.cpp | 30 +++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/qcoro/websockets/qcorowebsocket.cpp b/qcoro/websockets/qcorowebsocket.cpp
index f254252..95c2890 100644
--- a/qcoro/websockets/qcorowebsocket.cpp
+++ b/qcoro/websockets/qcorowebsocket.cpp
@@ -65,6 +65,27 @@ private:
     std::optional<bool> mResult;
 };
 
+//! Waits for the response to the ping with given payload.
+class WebSocketPongWatcher : public QObject {
+    Q_OBJECT
+public:
+    WebSocketPongWatcher(QWebSocket *socket, const QByteArray &payload) {
+        connect(socket, &QWebSocket::pong, this, [this, payload](quint64 elapsed, const QByteArray &response) {
+            if (response == payload) {
+                Q_EMIT ready(static_cast<qint64>(elapsed));
+            }
+        });
+        connect(socket, &QWebSocket::stateChanged, this, [this](auto state) {
+            if (state != QAbstractSocket::ConnectedState) {
+                Q_EMIT ready(-1);
+            }
+        });
+    }
+
+Q_SIGNALS:
+    void ready(qint64 elapsed);
+};
+
 template<typename>
 struct signal_args;
 
@@ -189,11 +210,12 @@ QCoro::Task<std::optional<std::chrono::milliseconds>> QCoroWebSocket::ping(const
         co_return std::nullopt;
     }
 
-    WebSocketSignalWatcher watcher(mWebSocket, &QWebSocket::pong);
+    // QWebSocket sends at most 125 bytes of the payload
+    WebSocketPongWatcher watcher(mWebSocket, payload.left(125));
     mWebSocket->ping(payload);
-    const auto result = co_await qCoro(&watcher, qOverload<std::optional<std::tuple<qint64, QByteArray>>>(&WebSocketSignalWatcher::ready), timeout);
-    if (result.has_value() && (*result).has_value()) {
-        co_return std::chrono::milliseconds{std::get<0>(**result)};
+    const auto result = co_await qCoro(&watcher, &WebSocketPongWatcher::ready, timeout);
+    if (result.has_value() && *result >= 0) {
+        co_return std::chrono::milliseconds{*result};
     }
     co_return std::nullopt;
 }
-- 
2.43.0


From 7f4ee43641e37b5a9e9632d9064a2084a716fe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 23/42] fix: QCoroWebSocket generators lost what was received
 before their first begin()

---
 qcoro/websockets/qcorowebsocket.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/qcoro/websockets/qcorowebsocket.cpp b/qcoro/websockets/qcorowebsocket.cpp
index 95c2890..0f0e6c0 100644
--- a/qcoro/websockets/qcorowebsocket.cpp
+++ b/qcoro/websockets/qcorowebsocket.cpp
@@ -144,13 +144,11 @@ Q_SIGNALS:
     void ready(std::optional<std::tuple<QString>>); // text messages
 };
 
-template<typename Signal>
-auto watcherGenerator(QWebSocket *ws, Signal signal, std::chrono::milliseconds timeout) ->
+template<typename Signal, typename Listener>
+auto watcherGeneratorLoop([[maybe_unused]] std::unique_ptr<WebSocketSignalWatcher> watcher, Listener signalListener) ->
     QCoro::AsyncGenerator<unwrapped_signal_args_t<signal_args_t<Signal>>>
 {
-    WebSocketSignalWatcher watcher(ws, signal);
     using signalType = std::optional<signal_args_t<Signal>>;
-    auto signalListener = qCoroSignalListener(&watcher, qOverload<signalType>(&WebSocketSignalWatcher::ready), timeout);
     auto it = co_await signalListener.begin();
     while (it != signalListener.end()) {
         if (!(*it).has_value()) {
@@ -166,6 +164,17 @@ auto watcherGenerator(QWebSocket *ws, Signal signal, std::chrono::milliseconds t
     }
 }
 
+template<typename Signal>
+auto watcherGenerator(QWebSocket *ws, Signal signal, std::chrono::milliseconds timeout) ->
+    QCoro::AsyncGenerator<unwrapped_signal_args_t<signal_args_t<Signal>>>
+{
+    // The generator body doesn't run until first awaited, everything received meanwhile must not be lost
+    auto watcher = std::make_unique<WebSocketSignalWatcher>(ws, signal);
+    using signalType = std::optional<signal_args_t<Signal>>;
+    auto signalListener = qCoroSignalListener(watcher.get(), qOverload<signalType>(&WebSocketSignalWatcher::ready), timeout);
+    return watcherGeneratorLoop<Signal>(std::move(watcher), std::move(signalListener));
+}
+
 
 } // namespace
 
-- 
2.43.0


From 9d5af8298b2a77af4e8f76345ad9c92af9362a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 24/42] fix: QCoroWebSocketServer::nextPendingConnection() lost
 connections, dangling listener

---
 qcoro/websockets/qcorowebsocketserver.cpp | 36 +++++++++++++----------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/qcoro/websockets/qcorowebsocketserver.cpp b/qcoro/websockets/qcorowebsocketserver.cpp
index c2c6056..a9b71b8 100644
--- a/qcoro/websockets/qcorowebsocketserver.cpp
+++ b/qcoro/websockets/qcorowebsocketserver.cpp
@@ -5,6 +5,8 @@
 #include "qcorowebsocketserver.h"
 #include "qcorosignal.h"
 
+#include <QDeadlineTimer>
+#include <QPointer>
 #include <QWebSocket>
 #include <QWebSocketServer>
 
@@ -17,15 +19,15 @@ class QCoroWebSocketServerSignalListener : public QObject {
 public:
     QCoroWebSocketServerSignalListener(QWebSocketServer *server) {
         connect(server, &QWebSocketServer::closed, this, [this]() {
-            Q_EMIT ready(nullptr);
+            Q_EMIT ready(false);
         });
-        connect(server, &QWebSocketServer::newConnection, [this, server]() {
-            Q_EMIT ready(server->nextPendingConnection());
+        connect(server, &QWebSocketServer::newConnection, this, [this]() {
+            Q_EMIT ready(true);
         });
     }
 
 Q_SIGNALS:
-    void ready(QWebSocket *socket);
+    void ready(bool newConnection);
 };
 
 } // namespace
@@ -36,18 +38,22 @@ QCoroWebSocketServer::QCoroWebSocketServer(QWebSocketServer *server)
 
 QCoro::Task<QWebSocket *> QCoroWebSocketServer::nextPendingConnection(std::chrono::milliseconds timeout)
 {
-    auto * const server = mServer;
-    if (!server->isListening()) {
-        co_return nullptr;
+    const QPointer<QWebSocketServer> server = mServer;
+    const auto deadline = timeout.count() > -1 ? QDeadlineTimer(timeout) : QDeadlineTimer(QDeadlineTimer::Forever);
+    while (server && server->isListening()) {
+        if (server->hasPendingConnections()) {
+            co_return server->nextPendingConnection();
+        }
+
+        // Somebody else may take the new connection before this coroutine is resumed
+        QCoroWebSocketServerSignalListener listener(server);
+        const auto result = co_await qCoro(&listener, &QCoroWebSocketServerSignalListener::ready,
+                                           std::chrono::milliseconds(deadline.remainingTime()));
+        if (!result.value_or(false)) {
+            break;
+        }
     }
-
-    if (server->hasPendingConnections()) {
-        co_return server->nextPendingConnection();
-    }
-
-    QCoroWebSocketServerSignalListener listener(server);
-    const auto result = co_await qCoro(&listener, &QCoroWebSocketServerSignalListener::ready, timeout);
-    co_return result.value_or(nullptr);
+    co_return nullptr;
 }
 
 #include "qcorowebsocketserver.moc"
-- 
2.43.0


From 4eed2178fdf8903b2deaee1c856306306ccc9023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:20 +0000
Subject: [PATCH 25/42] fix: awaiting a DBus call that already finished, or
 finished meanwhile, could hang

---
 qcoro/dbus/qcorodbuspendingcall.cpp | 15 ++++++++++++---
 qcoro/dbus/qcorodbuspendingcall.h   |  2 +-
 qcoro/dbus/qcorodbuspendingreply.h  | 13 +++++++++++--
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/qcoro/dbus/qcorodbuspendingcall.cpp b/qcoro/dbus/qcorodbuspendingcall.cpp
index af7098e..b1e936e 100644
--- a/qcoro/dbus/qcorodbuspendingcall.cpp
+++ b/qcoro/dbus/qcorodbuspendingcall.cpp
@@ -17,13 +17,19 @@ bool QCoroDBusPendingCall::WaitForFinishedOperation::await_ready() const noexcep
     return mCall.isFinished();
 }
 
-void QCoroDBusPendingCall::WaitForFinishedOperation::await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
-auto *watcher = new QDBusPendingCallWatcher{mCall};
+bool QCoroDBusPendingCall::WaitForFinishedOperation::await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+    auto *watcher = new QDBusPendingCallWatcher{mCall};
+    // The call may have finished in the meantime, the watcher isn't guaranteed to signal that
+    if (watcher->isFinished()) {
+        delete watcher;
+        return false;
+    }
     QObject::connect(watcher, &QDBusPendingCallWatcher::finished,
                      [awaitingCoroutine](auto *watcher) mutable {
                          awaitingCoroutine.resume();
                          watcher->deleteLater();
                      });
+    return true;
 }
 
 QDBusMessage QCoroDBusPendingCall::WaitForFinishedOperation::await_resume() const {
@@ -37,7 +43,10 @@ QCoroDBusPendingCall::QCoroDBusPendingCall(const QDBusPendingCall &call)
 
 QCoro::Task<QDBusMessage> QCoroDBusPendingCall::waitForFinished() {
     QDBusPendingCallWatcher watcher{mCall};
-    co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+    // The call may have finished in the meantime, the watcher isn't guaranteed to signal that
+    if (!watcher.isFinished()) {
+        co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+    }
     co_return watcher.reply();
 }
 
diff --git a/qcoro/dbus/qcorodbuspendingcall.h b/qcoro/dbus/qcorodbuspendingcall.h
index b56ff19..c364661 100644
--- a/qcoro/dbus/qcorodbuspendingcall.h
+++ b/qcoro/dbus/qcorodbuspendingcall.h
@@ -23,7 +23,7 @@ private:
         explicit WaitForFinishedOperation(const QDBusPendingCall &call);
 
         bool await_ready() const noexcept;
-        void await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept;
+        bool await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept;
         QDBusMessage await_resume() const;
     private:
         const QDBusPendingCall &mCall;
diff --git a/qcoro/dbus/qcorodbuspendingreply.h b/qcoro/dbus/qcorodbuspendingreply.h
index 40154f5..28e7a8b 100644
--- a/qcoro/dbus/qcorodbuspendingreply.h
+++ b/qcoro/dbus/qcorodbuspendingreply.h
@@ -36,13 +36,19 @@ private:
             return mReply.isFinished();
         }
 
-        void await_suspend(std::coroutine_handle<> awaitingCoroutine) {
+        bool await_suspend(std::coroutine_handle<> awaitingCoroutine) {
             auto *watcher = new QDBusPendingCallWatcher{mReply};
+            // The call may have finished in the meantime, the watcher isn't guaranteed to signal that
+            if (watcher->isFinished()) {
+                delete watcher;
+                return false;
+            }
             QObject::connect(watcher, &QDBusPendingCallWatcher::finished,
                              [awaitingCoroutine](auto *watcher) mutable {
                                  awaitingCoroutine.resume();
                                  watcher->deleteLater();
                              });
+            return true;
         }
 
         QDBusPendingReply<Args ...> await_resume() const {
@@ -110,7 +116,10 @@ public:
     Task<QDBusPendingReply<Args ...>> waitForFinished() {
         if (!mReply.isFinished()) {
             QDBusPendingCallWatcher watcher{mReply};
-            co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+            // The call may have finished in the meantime, the watcher isn't guaranteed to signal that
+            if (!watcher.isFinished()) {
+                co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+            }
             co_return watcher.reply();
         }
         co_return mReply;
-- 
2.43.0


From 37b40bfe5f817dcabd98a8b524325516c84ade41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 26/42] fix: using a copy of a QmlTask ran into Q_UNREACHABLE

---
 qcoro/qml/qcoroqmltask.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/qml/qcoroqmltask.h b/qcoro/qml/qcoroqmltask.h
index 06f8c53..7b7a514 100644
--- a/qcoro/qml/qcoroqmltask.h
+++ b/qcoro/qml/qcoroqmltask.h
@@ -93,7 +93,7 @@ public:
     Q_INVOKABLE QCoro::QmlTaskListener *await(const QVariant &intermediateValue = {});
 
 private:
-    QSharedDataPointer<QmlTaskPrivate> d;
+    QExplicitlySharedDataPointer<QmlTaskPrivate> d;
 };
 
 class QmlTaskListener : public QObject {
-- 
2.43.0


From db9a054bdb506d7512b36c273e8a6b5eeca7979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:39 +0000
Subject: [PATCH 27/42] fix: only the first listener of a QmlTask got the
 result

---
 qcoro/qml/qcoroqmltask.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index 8523aeb..b8e0633 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -6,6 +6,7 @@
 
 #include <QLoggingCategory>
 
+#include <memory>
 #include <optional>
 
 #if QT_VERSION >= QT_VERSION_CHECK(6, 0, 0)
@@ -21,7 +22,10 @@ Q_LOGGING_CATEGORY(qcoroqml, "qcoro.qml")
 namespace QCoro {
 
 struct QmlTaskPrivate : public QSharedData {
-    std::optional<QCoro::Task<QVariant>> task;
+    // Task that finishes once the result has been set (co_awaiting a Task moves its result out of it,
+    // but there may be any number of listeners).
+    std::optional<QCoro::Task<>> task;
+    std::shared_ptr<QVariant> result = std::make_shared<QVariant>();
 
     QmlTaskPrivate() = default;
     QmlTaskPrivate(const QmlTaskPrivate &) : QSharedData() {
@@ -48,7 +52,9 @@ QmlTask::QmlTask() noexcept : d(new QmlTaskPrivate())
 QmlTask::QmlTask(QCoro::Task<QVariant> &&task)
     : d(new QmlTaskPrivate())
 {
-    d->task = std::move(task);
+    d->task = task.then([result = d->result](QVariant &&value) {
+        *result = std::move(value);
+    });
 }
 
 QmlTask &QmlTask::operator=(const QmlTask &other) = default;
@@ -67,8 +73,8 @@ void QmlTask::then(QJSValue func) {
         return;
     }
 
-    d->task->then([func = std::move(func)](const QVariant &result) mutable -> void {
-        auto jsval = getEngineForValue(func)->toScriptValue(result);
+    d->task->then([func = std::move(func), result = d->result]() mutable -> void {
+        auto jsval = getEngineForValue(func)->toScriptValue(*result);
         func.call({jsval});
     });
 }
@@ -79,9 +85,9 @@ QmlTaskListener *QmlTask::await(const QVariant &intermediateValue)
     if (!intermediateValue.isNull()) {
         listener->setValue(QVariant(intermediateValue));
     }
-    d->task->then([listener](auto &&value) {
+    d->task->then([listener, result = d->result]() {
         if (listener) {
-            listener->setValue(std::move(value));
+            listener->setValue(QVariant(*result));
         }
     });
     return listener;
-- 
2.43.0


From 58509f4984121141238ad2794423b40316f96901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 28/42] fix: a QmlTask finishing after its JavaScript engine is
 gone crashed

---
 qcoro/qml/qcoroqmltask.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index b8e0633..0c045b0 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -41,7 +41,8 @@ inline QJSEngine *getEngineForValue(const QJSValue &val) {
     return val.engine();
     QT_WARNING_POP
 #else
-    return QJSValuePrivate::engine(&val)->jsEngine();
+    auto *engine = QJSValuePrivate::engine(&val);
+    return engine ? engine->jsEngine() : nullptr;
 #endif
 }
 
@@ -74,7 +75,11 @@ void QmlTask::then(QJSValue func) {
     }
 
     d->task->then([func = std::move(func), result = d->result]() mutable -> void {
-        auto jsval = getEngineForValue(func)->toScriptValue(*result);
+        auto *engine = getEngineForValue(func);
+        if (!engine) {
+            return; // the engine has been destroyed meanwhile
+        }
+        auto jsval = engine->toScriptValue(*result);
         func.call({jsval});
     });
 }
-- 
2.43.0


From 426e38fd2749c0b0ef1c52cf9c6959766f603cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:30 +0000
Subject: [PATCH 29/42] fix: an image request whose coroutine failed never
 finished

---
 qcoro/quick/qcoroimageprovider.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/qcoro/quick/qcoroimageprovider.cpp b/qcoro/quick/qcoroimageprovider.cpp
index 72361c7..e7c87a5 100644
--- a/qcoro/quick/qcoroimageprovider.cpp
+++ b/qcoro/quick/qcoroimageprovider.cpp
@@ -11,10 +11,13 @@ class QCoroImageResponse : public QQuickImageResponse {
 
 public:
     QQuickTextureFactory *textureFactory() const override;
+    QString errorString() const override;
     void reportFinished(QImage &&image);
+    void reportError(const QString &error);
 
 private:
     QImage m_image;
+    QString m_error;
 };
 
 
@@ -27,6 +30,8 @@ QQuickImageResponse *ImageProvider::requestImageResponse(const QString &id, cons
 
     task.then([response](QImage &&image) {
         response->reportFinished(std::move(image));
+    }, [response](const std::exception &e) {
+        response->reportError(QString::fromUtf8(e.what()));
     });
 
     return response;
@@ -36,6 +41,15 @@ QQuickTextureFactory *QCoroImageResponse::textureFactory() const {
     return QQuickTextureFactory::textureFactoryForImage(m_image);
 }
 
+QString QCoroImageResponse::errorString() const {
+    return m_error;
+}
+
+void QCoroImageResponse::reportError(const QString &error) {
+    m_error = error;
+    Q_EMIT finished();
+}
+
 void QCoroImageResponse::reportFinished(QImage &&image) {
     m_image = image;
     Q_EMIT finished();
-- 
2.43.0


From 333a41efa1b7361a47e562b13d00e1e692ea4f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:58 +0000
Subject: [PATCH 30/42] fix: an image response deleted before its coroutine
 finished was accessed

---
 qcoro/quick/qcoroimageprovider.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/qcoro/quick/qcoroimageprovider.cpp b/qcoro/quick/qcoroimageprovider.cpp
index e7c87a5..d30ef11 100644
--- a/qcoro/quick/qcoroimageprovider.cpp
+++ b/qcoro/quick/qcoroimageprovider.cpp
@@ -4,6 +4,8 @@
 
 #include "qcoroimageprovider.h"
 
+#include <QPointer>
+
 namespace QCoro {
 
 // Internal implementation of the QQuickImageResponse interface
@@ -28,10 +30,15 @@ QQuickImageResponse *ImageProvider::requestImageResponse(const QString &id, cons
 
     auto *response = new QCoroImageResponse();
 
-    task.then([response](QImage &&image) {
-        response->reportFinished(std::move(image));
-    }, [response](const std::exception &e) {
-        response->reportError(QString::fromUtf8(e.what()));
+    // The response may be deleted before the coroutine finishes
+    task.then([response = QPointer<QCoroImageResponse>(response)](QImage &&image) {
+        if (response) {
+            response->reportFinished(std::move(image));
+        }
+    }, [response = QPointer<QCoroImageResponse>(response)](const std::exception &e) {
+        if (response) {
+            response->reportError(QString::fromUtf8(e.what()));
+        }
     });
 
     return response;
-- 
2.43.0


From 75c32849a6382e28b2ab07766dc5b66e6c3e70b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:01 +0000
Subject: [PATCH 31/42] fix: QCORO_TRY_* test macros did not compile

---
 qcoro/test/qcorotest.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/test/qcorotest.h b/qcoro/test/qcorotest.h
index 3acedc8..c92dd0d 100644
--- a/qcoro/test/qcorotest.h
+++ b/qcoro/test/qcorotest.h
@@ -115,7 +115,7 @@
 #define QCORO_TRY_IMPL(expr, timeout) \
     const int qcoro_test_step = timeout < 350 ? timeout / 7 + 1 : 50; \
     const int qcoro_test_timeoutValue = timeout; \
-    { QCORO_TRY_LOOP_IMPL((expr), qcoro_test_timeoutValue, qcoro_test_step); } \
+    { QTRY_LOOP_IMPL((expr), qcoro_test_timeoutValue, qcoro_test_step); } \
     QCORO_TRY_TIMEOUT_DEBUG_IMPL((expr), qcoro_test_timeoutValue, qcoro_test_step) \
 
 /* @endcond */
-- 
2.43.0


From 3d68165a62f14841a1f8083698df0818e64897b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:54 +0000
Subject: [PATCH 32/42] fix: co_return moved from a variable it was given by
 reference

---
 qcoro/impl/taskpromise.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qcoro/impl/taskpromise.h b/qcoro/impl/taskpromise.h
index 2baf671..7a179dd 100644
--- a/qcoro/impl/taskpromise.h
+++ b/qcoro/impl/taskpromise.h
@@ -38,7 +38,8 @@ inline void TaskPromise<T>::return_value(const T &value) noexcept {
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
 inline void TaskPromise<T>::return_value(U &&value) noexcept {
-    mValue = std::move(value);
+    // U is a reference if value is an lvalue, which must not be moved from
+    mValue = std::forward<U>(value);
 }
 
 template<typename T>
-- 
2.43.0


From 75c854281f2bcb4136ebfb3bf06fa018c2dc1c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 33/42] fix: an image request whose coroutine threw something
 other than a std::exception never finished

---
 qcoro/quick/qcoroimageprovider.cpp | 34 ++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/qcoro/quick/qcoroimageprovider.cpp b/qcoro/quick/qcoroimageprovider.cpp
index d30ef11..dfb3a8c 100644
--- a/qcoro/quick/qcoroimageprovider.cpp
+++ b/qcoro/quick/qcoroimageprovider.cpp
@@ -22,6 +22,30 @@ private:
     QString m_error;
 };
 
+namespace {
+
+Task<> finishResponse(Task<QImage> task, QPointer<QCoroImageResponse> response) {
+    QImage image;
+    QString error;
+    try {
+        image = co_await task;
+    } catch (const std::exception &e) {
+        error = QString::fromUtf8(e.what());
+    } catch (...) {
+        error = QStringLiteral("Unknown error");
+    }
+
+    if (!response) {
+        co_return;
+    }
+    if (error.isNull()) {
+        response->reportFinished(std::move(image));
+    } else {
+        response->reportError(error);
+    }
+}
+
+} // namespace
 
 ImageProvider::ImageProvider() = default;
 
@@ -31,15 +55,7 @@ QQuickImageResponse *ImageProvider::requestImageResponse(const QString &id, cons
     auto *response = new QCoroImageResponse();
 
     // The response may be deleted before the coroutine finishes
-    task.then([response = QPointer<QCoroImageResponse>(response)](QImage &&image) {
-        if (response) {
-            response->reportFinished(std::move(image));
-        }
-    }, [response = QPointer<QCoroImageResponse>(response)](const std::exception &e) {
-        if (response) {
-            response->reportError(QString::fromUtf8(e.what()));
-        }
-    });
+    finishResponse(std::move(task), response);
 
     return response;
 }
-- 
2.43.0


From 6c79d54c1e782e4209872df4ecde617e17834d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:44 +0000
Subject: [PATCH 34/42] fix: sleeps and timeouts ended up to 5 % early (coarse
 timers)

---
 qcoro/core/qcorosignal.h    | 1 +
 qcoro/core/qcorotimer.h     | 1 +
 qcoro/waitoperationbase_p.h | 1 +
 3 files changed, 3 insertions(+)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index cd30adc..21527c6 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -129,6 +129,7 @@ protected:
             mTimeoutTimer = std::make_unique<QTimer>();
             mTimeoutTimer->setInterval(timeout);
             mTimeoutTimer->setSingleShot(true);
+            mTimeoutTimer->setTimerType(Qt::PreciseTimer); // other types may time out early
         }
     }
 
diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index 92ff21c..c43bfd2 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -67,6 +67,7 @@ QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
     constexpr auto maxInterval = std::chrono::milliseconds{std::numeric_limits<int>::max()};
     QTimer timer;
     timer.setSingleShot(true);
+    timer.setTimerType(Qt::PreciseTimer); // other types may time out early
     do {
         const auto interval = std::min(remaining, maxInterval);
         remaining -= interval;
diff --git a/qcoro/waitoperationbase_p.h b/qcoro/waitoperationbase_p.h
index 0adb585..689d0a3 100644
--- a/qcoro/waitoperationbase_p.h
+++ b/qcoro/waitoperationbase_p.h
@@ -31,6 +31,7 @@ protected:
             mTimeoutTimer = std::make_unique<QTimer>();
             mTimeoutTimer->setInterval(timeout_msecs);
             mTimeoutTimer->setSingleShot(true);
+            mTimeoutTimer->setTimerType(Qt::PreciseTimer); // other types may time out early
         }
     }
 
-- 
2.43.0


From 4a7e67582984ea92849c19cc13bf4e019ec73aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:22 +0000
Subject: [PATCH 35/42] Revert "fix: QCORO_TRY_* test macros did not compile"

This reverts commit 75c32849a6382e28b2ab07766dc5b66e6c3e70b5.
---
 qcoro/test/qcorotest.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/test/qcorotest.h b/qcoro/test/qcorotest.h
index c92dd0d..3acedc8 100644
--- a/qcoro/test/qcorotest.h
+++ b/qcoro/test/qcorotest.h
@@ -115,7 +115,7 @@
 #define QCORO_TRY_IMPL(expr, timeout) \
     const int qcoro_test_step = timeout < 350 ? timeout / 7 + 1 : 50; \
     const int qcoro_test_timeoutValue = timeout; \
-    { QTRY_LOOP_IMPL((expr), qcoro_test_timeoutValue, qcoro_test_step); } \
+    { QCORO_TRY_LOOP_IMPL((expr), qcoro_test_timeoutValue, qcoro_test_step); } \
     QCORO_TRY_TIMEOUT_DEBUG_IMPL((expr), qcoro_test_timeoutValue, qcoro_test_step) \
 
 /* @endcond */
-- 
2.43.0


From 634899e404ec2d5f10dac7c6597a65de15813b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:54 +0000
Subject: [PATCH 36/42] fix: an image request whose coroutine threw an
 exception without a message reported a success

---
 qcoro/quick/qcoroimageprovider.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qcoro/quick/qcoroimageprovider.cpp b/qcoro/quick/qcoroimageprovider.cpp
index dfb3a8c..78d642b 100644
--- a/qcoro/quick/qcoroimageprovider.cpp
+++ b/qcoro/quick/qcoroimageprovider.cpp
@@ -31,6 +31,10 @@ Task<> finishResponse(Task<QImage> task, QPointer<QCoroImageResponse> response)
         image = co_await task;
     } catch (const std::exception &e) {
         error = QString::fromUtf8(e.what());
+        if (error.isEmpty()) {
+            // an empty error string would report a success
+            error = QStringLiteral("Unknown error");
+        }
     } catch (...) {
         error = QStringLiteral("Unknown error");
     }
-- 
2.43.0


From 0b8dcbaca54490043dfd0f6f0020d8d0c99c45b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:54 +0000
Subject: [PATCH 37/42] fix: await() on a QmlTask without a coroutine
 dereferenced an empty optional

---
 qcoro/qml/qcoroqmltask.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index 0c045b0..ec3b2eb 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -90,6 +90,12 @@ QmlTaskListener *QmlTask::await(const QVariant &intermediateValue)
     if (!intermediateValue.isNull()) {
         listener->setValue(QVariant(intermediateValue));
     }
+    if (!d->task) {
+        qCWarning(qcoroqml, ".await called on a QmlTask that is not connected to any coroutine. "
+                            "Make sure you don't default-construct QmlTask in your code");
+        return listener;
+    }
+
     d->task->then([listener, result = d->result]() {
         if (listener) {
             listener->setValue(QVariant(*result));
-- 
2.43.0


From fb942255f346340a38412796125bf1aa1b2d2046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:07 +0000
Subject: [PATCH 38/42] fix: timeouts of more than INT_MAX milliseconds were
 truncated: they passed weeks early, or never

---
 qcoro/core/qcorosignal.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index 21527c6..6054079 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -14,7 +14,10 @@
 #include <QPointer>
 #include <QTimer>
 
+#include <algorithm>
 #include <cassert>
+#include <chrono>
+#include <limits>
 #include <optional>
 #include <deque>
 #include <tuple>
@@ -115,24 +118,36 @@ public:
             QObject::disconnect(mTimeoutTimer.get(), &QTimer::timeout, nullptr, nullptr);
             QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mTimeoutTimer.get(),
                 [this]() {
+                    if (mRemainingTimeout > std::chrono::milliseconds::zero()) {
+                        startTimeoutTimer();
+                        return;
+                    }
                     QObject::disconnect(mConn);
                     resumeAwaiter();
                 }, Qt::DirectConnection); // force coro to be resumed on our thread, not mObj's thread
-            mTimeoutTimer->start();
+            mRemainingTimeout = mTimeout;
+            startTimeoutTimer();
         }
     }
 
 protected:
     QCoroSignalBase(T *obj, FuncPtr &&funcPtr, std::chrono::milliseconds timeout)
-        : mObj(obj), mFuncPtr(std::forward<FuncPtr>(funcPtr)) {
+        : mObj(obj), mFuncPtr(std::forward<FuncPtr>(funcPtr)), mTimeout(timeout) {
         if (timeout.count() > -1) {
             mTimeoutTimer = std::make_unique<QTimer>();
-            mTimeoutTimer->setInterval(timeout);
             mTimeoutTimer->setSingleShot(true);
             mTimeoutTimer->setTimerType(Qt::PreciseTimer); // other types may time out early
         }
     }
 
+    void startTimeoutTimer() {
+        // QTimer only supports intervals that fit into an int
+        constexpr auto maxInterval = std::chrono::milliseconds{std::numeric_limits<int>::max()};
+        const auto interval = std::min(mRemainingTimeout, maxInterval);
+        mRemainingTimeout -= interval;
+        mTimeoutTimer->start(interval);
+    }
+
     //! Resumes the awaiting coroutine, if there is one, exactly once
     void resumeAwaiter() {
         if (auto awaiter = std::exchange(mAwaitingCoroutine, nullptr)) {
@@ -171,6 +186,8 @@ protected:
     QPointer<T> mObj;
     FuncPtr mFuncPtr;
     QMetaObject::Connection mConn;
+    std::chrono::milliseconds mTimeout;
+    std::chrono::milliseconds mRemainingTimeout{0};
     std::unique_ptr<QTimer> mTimeoutTimer;
     std::coroutine_handle<> mAwaitingCoroutine;
 };
-- 
2.43.0


From 3c447190db8ff9838652d9e28736f4f5c4bd2eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:35 +0000
Subject: [PATCH 39/42] fix: reading from or writing to a process never resumed
 when the process ended without closing its device, or had ended

---
 qcoro/core/qcoroprocess.cpp | 50 +++++++++++++++++++++++++++++++++++++
 qcoro/core/qcoroprocess.h   |  4 +++
 2 files changed, 54 insertions(+)

diff --git a/qcoro/core/qcoroprocess.cpp b/qcoro/core/qcoroprocess.cpp
index 4879cee..4ad90ea 100644
--- a/qcoro/core/qcoroprocess.cpp
+++ b/qcoro/core/qcoroprocess.cpp
@@ -7,6 +7,7 @@
 #if QT_CONFIG(process)
 
 #include "qcoroprocess.h"
+#include "qcoroiodevice_p.h"
 #include "qcorosignal.h"
 
 #include <QProcess>
@@ -45,6 +46,35 @@ private:
     QMetaObject::Connection mError;
 };
 
+//! Emits ready() also when the process ends (or fails to start), which doesn't close the device.
+class ProcessReadySignalHelper : public WaitSignalHelper {
+    Q_OBJECT
+public:
+    explicit ProcessReadySignalHelper(const QProcess *process, void(QIODevice::*readySignal)())
+        : WaitSignalHelper(process, readySignal)
+        , mStateChanged(connect(process, &QProcess::stateChanged, this,
+                        [this](QProcess::ProcessState state) { handleStateChange(state, false); }))
+    {}
+
+    explicit ProcessReadySignalHelper(const QProcess *process, void(QIODevice::*readySignal)(qint64))
+        : WaitSignalHelper(process, readySignal)
+        , mStateChanged(connect(process, &QProcess::stateChanged, this,
+                        [this](QProcess::ProcessState state) { handleStateChange(state, static_cast<qint64>(0)); }))
+    {}
+
+private:
+    template<typename T>
+    void handleStateChange(QProcess::ProcessState state, T result) {
+        if (state == QProcess::NotRunning) {
+            disconnect(mStateChanged);
+            emitReady(result);
+        }
+    }
+
+private:
+    QMetaObject::Connection mStateChanged;
+};
+
 } // namespace
 
 QCoroProcess::QCoroProcess(QProcess *process)
@@ -93,6 +123,26 @@ QCoro::Task<bool> QCoroProcess::start(const QString &program, const QStringList
     return waitForStarted(timeout);
 }
 
+QCoro::Task<std::optional<bool>> QCoroProcess::waitForReadyReadImpl(std::chrono::milliseconds timeout) {
+    const auto *process = static_cast<QProcess *>(mDevice.data());
+    if (process->state() == QProcess::NotRunning) {
+        co_return false;
+    }
+
+    ProcessReadySignalHelper helper(process, &QIODevice::readyRead);
+    co_return co_await qCoro(&helper, qOverload<bool>(&WaitSignalHelper::ready), timeout);
+}
+
+QCoro::Task<std::optional<qint64>> QCoroProcess::waitForBytesWrittenImpl(std::chrono::milliseconds timeout) {
+    const auto *process = static_cast<QProcess *>(mDevice.data());
+    if (process->state() == QProcess::NotRunning) {
+        co_return std::nullopt;
+    }
+
+    ProcessReadySignalHelper helper(process, &QIODevice::bytesWritten);
+    co_return co_await qCoro(&helper, qOverload<qint64>(&WaitSignalHelper::ready), timeout);
+}
+
 #include "qcoroprocess.moc"
 
 #endif // QT_CONFIG(process)
diff --git a/qcoro/core/qcoroprocess.h b/qcoro/core/qcoroprocess.h
index 5f443f8..93914c5 100644
--- a/qcoro/core/qcoroprocess.h
+++ b/qcoro/core/qcoroprocess.h
@@ -109,6 +109,10 @@ public:
     Task<bool> start(const QString &program, const QStringList &arguments,
                      QIODevice::OpenMode mode = QIODevice::ReadWrite,
                      std::chrono::milliseconds timeout = std::chrono::seconds(30));
+
+private:
+    Task<std::optional<bool>> waitForReadyReadImpl(std::chrono::milliseconds timeout) override;
+    Task<std::optional<qint64>> waitForBytesWrittenImpl(std::chrono::milliseconds timeout) override;
 };
 
 } // namespace QCoro::detail
-- 
2.43.0


From 34ee421dbc780a247395ad18b605fd5fc928b946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:45 +0000
Subject: [PATCH 40/42] fix: QCoroIODevice::write() used its wrapper after it
 may be gone

The object qCoro() returns is usually a temporary. write() went on
using it after suspending, so a task that was stored or dropped, as in
'auto task = qCoro(device).write(data); ... co_await task;', read freed
stack memory when more than one bytesWritten() was needed.
---
 qcoro/core/qcoroiodevice.cpp          | 8 +++++++-
 qcoro/core/qcoroiodevice.h            | 4 ++++
 qcoro/core/qcoroprocess.cpp           | 4 ++++
 qcoro/core/qcoroprocess.h             | 1 +
 qcoro/network/qcoroabstractsocket.cpp | 4 ++++
 qcoro/network/qcoroabstractsocket.h   | 1 +
 qcoro/network/qcorolocalsocket.cpp    | 4 ++++
 qcoro/network/qcorolocalsocket.h      | 1 +
 qcoro/network/qcoronetworkreply.cpp   | 4 ++++
 qcoro/network/qcoronetworkreply.h     | 1 +
 10 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 5332840..7716b14 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -103,8 +103,10 @@ QCoro::Task<qint64> QCoroIODevice::write(const QByteArray &buffer) {
         co_return bytesWritten; // written at once
     }
 
+    // This wrapper may be gone before everything is written
+    const auto self = clone();
     while (device && device->bytesToWrite() > 0 && bytesFlushed < bytesBuffered + bytesWritten) {
-        if (!(co_await waitForBytesWritten(-1)).has_value()) {
+        if (!(co_await self->waitForBytesWritten(-1)).has_value()) {
             break;
         }
     }
@@ -146,6 +148,10 @@ QCoro::Task<std::optional<qint64>> QCoroIODevice::waitForBytesWritten(std::chron
     co_return result;
 }
 
+std::shared_ptr<QCoroIODevice> QCoroIODevice::clone() const {
+    return std::make_shared<QCoroIODevice>(*this);
+}
+
 QCoro::Task<std::optional<bool>> QCoroIODevice::waitForReadyReadImpl(std::chrono::milliseconds timeout) {
     WaitSignalHelper helper(mDevice.data(), &QIODevice::readyRead);
     co_return co_await qCoro(&helper, qOverload<bool>(&WaitSignalHelper::ready), timeout);
diff --git a/qcoro/core/qcoroiodevice.h b/qcoro/core/qcoroiodevice.h
index c382b48..26a5ca7 100644
--- a/qcoro/core/qcoroiodevice.h
+++ b/qcoro/core/qcoroiodevice.h
@@ -12,6 +12,8 @@
 
 #include <QPointer>
 
+#include <memory>
+
 class QIODevice;
 
 /*! \cond internal */
@@ -196,6 +198,8 @@ public:
 protected:
     virtual Task<std::optional<bool>> waitForReadyReadImpl(std::chrono::milliseconds timeout);
     virtual Task<std::optional<qint64>> waitForBytesWrittenImpl(std::chrono::milliseconds timeout);
+    //! Returns a copy of this wrapper, for operations that may outlive it
+    virtual std::shared_ptr<QCoroIODevice> clone() const;
 
     QPointer<QIODevice> mDevice = {};
 };
diff --git a/qcoro/core/qcoroprocess.cpp b/qcoro/core/qcoroprocess.cpp
index 4ad90ea..5937853 100644
--- a/qcoro/core/qcoroprocess.cpp
+++ b/qcoro/core/qcoroprocess.cpp
@@ -123,6 +123,10 @@ QCoro::Task<bool> QCoroProcess::start(const QString &program, const QStringList
     return waitForStarted(timeout);
 }
 
+std::shared_ptr<QCoroIODevice> QCoroProcess::clone() const {
+    return std::make_shared<QCoroProcess>(*this);
+}
+
 QCoro::Task<std::optional<bool>> QCoroProcess::waitForReadyReadImpl(std::chrono::milliseconds timeout) {
     const auto *process = static_cast<QProcess *>(mDevice.data());
     if (process->state() == QProcess::NotRunning) {
diff --git a/qcoro/core/qcoroprocess.h b/qcoro/core/qcoroprocess.h
index 93914c5..9a44090 100644
--- a/qcoro/core/qcoroprocess.h
+++ b/qcoro/core/qcoroprocess.h
@@ -113,6 +113,7 @@ public:
 private:
     Task<std::optional<bool>> waitForReadyReadImpl(std::chrono::milliseconds timeout) override;
     Task<std::optional<qint64>> waitForBytesWrittenImpl(std::chrono::milliseconds timeout) override;
+    std::shared_ptr<QCoroIODevice> clone() const override;
 };
 
 } // namespace QCoro::detail
diff --git a/qcoro/network/qcoroabstractsocket.cpp b/qcoro/network/qcoroabstractsocket.cpp
index 24fb9dd..40add6f 100644
--- a/qcoro/network/qcoroabstractsocket.cpp
+++ b/qcoro/network/qcoroabstractsocket.cpp
@@ -67,6 +67,10 @@ private:
 QCoroAbstractSocket::QCoroAbstractSocket(QAbstractSocket *socket)
     : QCoroIODevice(socket) {}
 
+std::shared_ptr<QCoroIODevice> QCoroAbstractSocket::clone() const {
+    return std::make_shared<QCoroAbstractSocket>(*this);
+}
+
 QCoro::Task<std::optional<bool>> QCoroAbstractSocket::waitForReadyReadImpl(std::chrono::milliseconds timeout) {
     const auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
     if (socket->state() != QAbstractSocket::ConnectedState) {
diff --git a/qcoro/network/qcoroabstractsocket.h b/qcoro/network/qcoroabstractsocket.h
index 5a367f6..0d4d911 100644
--- a/qcoro/network/qcoroabstractsocket.h
+++ b/qcoro/network/qcoroabstractsocket.h
@@ -107,6 +107,7 @@ public:
 private:
     Task<std::optional<bool>> waitForReadyReadImpl(std::chrono::milliseconds timeout) override;
     Task<std::optional<qint64>> waitForBytesWrittenImpl(std::chrono::milliseconds timeout) override;
+    std::shared_ptr<QCoroIODevice> clone() const override;
 };
 
 } // namespace QCoro::detail
diff --git a/qcoro/network/qcorolocalsocket.cpp b/qcoro/network/qcorolocalsocket.cpp
index a1cde96..ac742f5 100644
--- a/qcoro/network/qcorolocalsocket.cpp
+++ b/qcoro/network/qcorolocalsocket.cpp
@@ -75,6 +75,10 @@ QCoroLocalSocket::QCoroLocalSocket(QLocalSocket *socket)
     : QCoroIODevice(socket)
 {}
 
+std::shared_ptr<QCoroIODevice> QCoroLocalSocket::clone() const {
+    return std::make_shared<QCoroLocalSocket>(*this);
+}
+
 QCoro::Task<std::optional<bool>> QCoroLocalSocket::waitForReadyReadImpl(std::chrono::milliseconds timeout) {
     const auto *socket = static_cast<QLocalSocket *>(mDevice.data());
     if (socket->state() != QLocalSocket::ConnectedState) {
diff --git a/qcoro/network/qcorolocalsocket.h b/qcoro/network/qcorolocalsocket.h
index 16e7166..f17f8fb 100644
--- a/qcoro/network/qcorolocalsocket.h
+++ b/qcoro/network/qcorolocalsocket.h
@@ -108,6 +108,7 @@ public:
 private:
     Task<std::optional<bool>> waitForReadyReadImpl(std::chrono::milliseconds timeout) override;
     Task<std::optional<qint64>> waitForBytesWrittenImpl(std::chrono::milliseconds timeout) override;
+    std::shared_ptr<QCoroIODevice> clone() const override;
 };
 
 } // namespace QCoro::detail
diff --git a/qcoro/network/qcoronetworkreply.cpp b/qcoro/network/qcoronetworkreply.cpp
index ea34423..eff24df 100644
--- a/qcoro/network/qcoronetworkreply.cpp
+++ b/qcoro/network/qcoronetworkreply.cpp
@@ -80,6 +80,10 @@ QNetworkReply *QCoroNetworkReply::WaitForFinishedOperation::await_resume() const
     return d->reply;
 }
 
+std::shared_ptr<QCoroIODevice> QCoroNetworkReply::clone() const {
+    return std::make_shared<QCoroNetworkReply>(*this);
+}
+
 QCoro::Task<std::optional<bool>> QCoroNetworkReply::waitForReadyReadImpl(std::chrono::milliseconds timeout) {
     const auto *reply = static_cast<QNetworkReply *>(mDevice.data());
     if (reply->isFinished()) {
diff --git a/qcoro/network/qcoronetworkreply.h b/qcoro/network/qcoronetworkreply.h
index 6d45366..0408036 100644
--- a/qcoro/network/qcoronetworkreply.h
+++ b/qcoro/network/qcoronetworkreply.h
@@ -54,6 +54,7 @@ public:
 private:
     Task<std::optional<bool>> waitForReadyReadImpl(std::chrono::milliseconds timeout) override;
     Task<std::optional<qint64>> waitForBytesWrittenImpl(std::chrono::milliseconds timeout) override;
+    std::shared_ptr<QCoroIODevice> clone() const override;
 };
 
 } // namespace QCoro::detail
-- 
2.43.0


From b4d4640d63e0ab424fe34be1035723bd56330626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:56 +0000
Subject: [PATCH 41/42] fix: connect() and QmlTask left the awaitable they
 await to its caller

A temporary awaitable passed to QCoro::connect() or to QmlTask's constructor
was gone by the time the coroutine awaiting it resumed.
---
 qcoro/impl/connect.h |  2 +-
 qcoro/impl/waitfor.h | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/qcoro/impl/connect.h b/qcoro/impl/connect.h
index 7b01416..a74b672 100644
--- a/qcoro/impl/connect.h
+++ b/qcoro/impl/connect.h
@@ -54,7 +54,7 @@ requires detail::TaskConvertible<T>
         && (std::is_invocable_v<Callback> || std::is_invocable_v<Callback, detail::convertible_awaitable_return_type_t<T>> || std::is_invocable_v<Callback, QObjectSubclass *> || std::is_invocable_v<Callback, QObjectSubclass *, detail::convertible_awaitable_return_type_t<T>>)
         && (!detail::isTask_v<T>)
 inline void connect(T &&future, QObjectSubclass *context, Callback func) {
-    auto task = detail::toTask(std::move(future));
+    auto task = detail::toTask(std::forward<T>(future));
     connect(std::move(task), context, func);
 }
 
diff --git a/qcoro/impl/waitfor.h b/qcoro/impl/waitfor.h
index 40a5993..25a73a5 100644
--- a/qcoro/impl/waitfor.h
+++ b/qcoro/impl/waitfor.h
@@ -22,8 +22,14 @@ namespace detail
 
 template <typename Awaitable>
 requires TaskConvertible<Awaitable>
-auto toTask(Awaitable &&future) -> QCoro::Task<detail::convertible_awaitable_return_type_t<Awaitable>> {
-    co_return co_await future;
+auto toTask(Awaitable &&future) -> QCoro::Task<detail::convertible_awaitable_return_type_t<std::remove_reference_t<Awaitable>>> {
+    if constexpr (!std::is_lvalue_reference_v<Awaitable> && std::is_move_constructible_v<Awaitable>) {
+        // A temporary has to live until the coroutine resumes
+        auto awaitable = std::move(future);
+        co_return co_await awaitable;
+    } else {
+        co_return co_await future;
+    }
 }
 
 struct WaitContext {
-- 
2.43.0


From d209bcaedf8e6ad73c2f85801639176c2c350dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:19 +0000
Subject: [PATCH 42/42] fix: QCoro::connect() didn't take a LazyTask, which
 couldn't be moved

The documentation of LazyTask refers to connect(), but passing it a LazyTask
did not compile.
---
 qcoro/impl/lazytask.h | 6 ++++++
 qcoro/qcorolazytask.h | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/qcoro/impl/lazytask.h b/qcoro/impl/lazytask.h
index c6c3938..86ab0a9 100644
--- a/qcoro/impl/lazytask.h
+++ b/qcoro/impl/lazytask.h
@@ -69,4 +69,10 @@ inline auto LazyTask<T>::operator co_await() const noexcept {
     return TaskAwaiter{this->mCoroutine};
 }
 
+template <typename T, typename QObjectSubclass, typename Callback>
+requires requires(Task<T> &&task, QObjectSubclass *context, Callback func) { connect(std::move(task), context, std::move(func)); }
+inline void connect(LazyTask<T> &&task, QObjectSubclass *context, Callback func) {
+    connect(detail::toTask(std::move(task)), context, std::move(func));
+}
+
 } // namespace QCoro
diff --git a/qcoro/qcorolazytask.h b/qcoro/qcorolazytask.h
index c59d7a0..750de1e 100644
--- a/qcoro/qcorolazytask.h
+++ b/qcoro/qcorolazytask.h
@@ -58,11 +58,19 @@ public:
 
     using detail::TaskBase<T, LazyTask, promise_type>::TaskBase;
 
+    LazyTask() noexcept = default;
+    LazyTask(LazyTask &&) noexcept = default;
+    LazyTask &operator=(LazyTask &&) noexcept = default;
     ~LazyTask() override;
 
     auto operator co_await() const noexcept;
 };
 
+//! Starts the lazy task and invokes a callback once it is finished, see connect() for \ref Task.
+template <typename T, typename QObjectSubclass, typename Callback>
+requires requires(Task<T> &&task, QObjectSubclass *context, Callback func) { connect(std::move(task), context, std::move(func)); }
+void connect(LazyTask<T> &&task, QObjectSubclass *context, Callback func);
+
 } // namespace QCoro
 
 #include "impl/lazytask.h"
-- 
2.43.0

