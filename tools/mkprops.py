#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list is easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Awaiting a Task yields its outcome exactly once, after it, in FIFO order",
  "A coroutine that awaits a Task continues exactly once and only after the awaited coroutine has finished, and receives the value it returned (moved from a temporary or local variable, copied from any other) or the exception it threw (of any type). Several coroutines waiting for the same Task are all resumed, in the order in which they began to wait; awaiting an already finished Task continues without suspending.",
  ["schedules", "programs"],
  "every finite program of coroutines that start, suspend, await each other (also a finished one, also several on one, also a chain), return or throw; every order in which suspended coroutines are resumed; every result type (void, trivially copyable, copyable, move-only, non-default-constructible, converting return) and return form (temporary, const object, local variable, reference to another object)",
  "tests run a handful of fixed two-coroutine programs driven by one timer; they never reorder completions, chain three coroutines, put several waiters on one Task or mix exceptions with waiters",
  ["qcoro/qcorotask.h", "qcoro/impl/taskbase.h", "qcoro/impl/taskawaiterbase.h", "qcoro/impl/taskfinalsuspend.h", "qcoro/impl/taskpromise.h", "qcoro/impl/taskpromisebase.h"],
  [("TaskAwaiterBase::await_suspend / TaskFinalSuspend::await_suspend", "qcoro/impl/taskawaiterbase.h, qcoro/impl/taskfinalsuspend.h"), ("TaskPromise::result", "qcoro/impl/taskpromise.h")],
  [("mAwaitingCoroutines", "coroutines to resume at final suspend", "qcoro/impl/taskpromisebase.h"), ("mValue", "value or exception", "qcoro/qcorotask.h")],
  ["the awaiting coroutine's continuation", "Task::isReady()"])

p("C02", "A Task coroutine's frame lives exactly as long as needed",
  "The arguments, locals and result of a coroutine are destroyed exactly once: when it has finished and no Task object refers to it any more, and not before. Destroying, moving from, moving into or self-moving a Task object never cancels, restarts or disturbs the coroutine or those awaiting it; a default-constructed or moved-from Task reports ready and refers to nothing.",
  ["schedules", "programs", "histories"],
  "every sequence of constructing, moving, self-moving, overwriting and destroying Task objects interleaved with every schedule of the coroutines, including Task objects destroyed from inside a coroutine that is being resumed by the very completion",
  "tests destroy a Task before completion in a couple of fixed places; use-after-free, double free and leaks of frames depend on the interleaving of object operations with completion",
  ["qcoro/qcorotask.h", "qcoro/impl/taskbase.h", "qcoro/impl/taskpromisebase.h", "qcoro/impl/taskfinalsuspend.h"],
  [("refCoroutine/derefCoroutine", "qcoro/impl/taskpromisebase.h"), ("TaskBase move operations", "qcoro/impl/taskbase.h")],
  [("mRefCount", "Task objects plus the running body", "qcoro/impl/taskpromisebase.h")],
  ["destruction of coroutine parameters", "live instances of the result type", "Task::isReady()", "AddressSanitizer"])

p("C03", "then() runs exactly one continuation, once, and forwards its outcome",
  "After a Task finishes with a value, the then-callback is called exactly once with that value (or without arguments if it takes none); after it finishes with an exception the then-callback is not called and the error callback, when given, is called exactly once with that exception (if it derives from std::exception). The Task returned by then() finishes with the result of the callback, waiting for it first when the callback itself returns a Task, with a default value after a handled error, or with the exception that was not handled or that a callback threw.",
  ["schedules", "programs"],
  "every chain of continuations over every completion order of the tasks involved (finished before or after then() is called), every outcome, callbacks that return values, void or Tasks, and lvalue or temporary source tasks, destroyed or kept",
  "tests cover single fixed chains; combinations of outcome, error handler, asynchronous callback and timing are not enumerated",
  ["qcoro/impl/taskbase.h", "qcoro/qcorotask.h"],
  [("thenImpl / thenImplRef / handleException / invokeCb", "qcoro/impl/taskbase.h")], (),
  ["callback invocations", "result of the returned Task"])

p("C04", "A LazyTask runs only when awaited, and at most once",
  "The body of a LazyTask does not start before it is first awaited (by co_await, waitFor or through an awaited continuation); it then starts at once, runs exactly once however often it is awaited after finishing, and its value or exception is delivered to the coroutine awaiting it. It may be moved meanwhile. A LazyTask's frame, with its arguments, is destroyed exactly once: after it finished and its LazyTask object is gone, or together with the object if it was never awaited.",
  ["schedules", "programs"],
  "every program of lazy and eager tasks creating, moving, dropping, awaiting and chaining then() on lazy tasks, with every completion order",
  "tests check single lazy tasks awaited immediately; dropped-unawaited, moved, chained and long-suspended lazy tasks under different orders are not explored",
  ["qcoro/qcorolazytask.h", "qcoro/impl/lazytask.h", "qcoro/impl/taskbase.h"],
  [("LazyTaskPromise::initial_suspend", "qcoro/impl/lazytask.h"), ("LazyTask awaiter symmetric transfer", "qcoro/impl/lazytask.h")], (),
  ["order of body and caller effects", "destruction of parameters"])

p("C05", "Generator yields its values lazily, in order, and cleans up",
  "Iterating a Generator produces exactly the values its body yields, in order; the body runs only up to the value requested and starts no earlier than begin(). Iteration reaches end() exactly when the body returns, an exception thrown by the body comes out of the begin() or ++ that reached it and ends the iteration; destroying or replacing a Generator destroys its suspended body and locals exactly once, and moving it keeps the sequence.",
  ["programs", "histories"],
  "every body (sequence of yields, return or throw at any position) and every sequence of begin, increment, dereference, compare, move, move-assign and destroy on generators and their iterators, for value, reference, const and move-only element types",
  "tests iterate a few fixed generators to the end or once; abandonment at every point, moves mid-iteration and exceptions at every position are not covered",
  ["qcoro/qcorogenerator.h"],
  [("GeneratorIterator::operator++ / Generator::begin", "qcoro/qcorogenerator.h"), ("GeneratorPromise::yield_value/final_suspend", "qcoro/qcorogenerator.h")],
  [("mValue", "address of the yielded value; null when finished", "qcoro/qcorogenerator.h")], ["iterator values", "body-side effects", "destruction of locals"])

p("C06", "AsyncGenerator yields in order across suspensions of both sides",
  "Awaiting begin() and ++ of an AsyncGenerator resumes the consumer exactly once per value, with the values its body yields, in order, however often the body suspends between them; the body advances only when the consumer asks. Iteration ends when the body returns, an exception of the body surfaces in the consumer's pending await, and destroying the generator while its body is at a yield, not started or finished destroys its body and locals exactly once; moving it keeps the sequence.",
  ["schedules", "programs", "histories"],
  "every interleaving of producer steps (yield, suspend, return, throw) with consumer steps (begin, advance, pause, leave the loop, move, replace, destroy), for several element types",
  "tests use fixed timer-driven producers and immediate consumers; interleavings and abandonment points are not explored",
  ["qcoro/qcoroasyncgenerator.h"],
  [("AsyncGeneratorYieldOperation / IteratorAwaitableBase", "qcoro/qcoroasyncgenerator.h")],
  [("m_consumerCoroutine", "coroutine to resume at next yield", "qcoro/qcoroasyncgenerator.h")], ["values seen by the consumer", "body-side effects", "destruction of locals"])

p("C07", "waitFor blocks until the awaited operation is done and returns its outcome",
  "waitFor() returns only after the given task or awaitable has finished, returning its value or rethrowing its exception, and returns without running an event loop when that is already the case. Meanwhile the thread's events continue to be processed, and nested calls each return only for their own operation, no matter in which order the operations finish.",
  ["schedules", "programs"],
  "every nesting of waitFor calls made from event handlers and coroutines, every order in which the operations complete, values, void and exceptions, Task, LazyTask and other awaitables, lvalues and temporaries",
  "tests call waitFor once on a task that finishes by one timer",
  ["qcoro/impl/waitfor.h"],
  [("detail::waitFor / runCoroutine / WaitContext", "qcoro/impl/waitfor.h")], (), ["when the call returns, and with what"])

p("C08", "connect() invokes its callback once, and only while the context lives",
  "QCoro::connect(task, context, callback) invokes the callback exactly once, when the task (Task or LazyTask, which it starts) or other awaitable passed to it finishes with a value, with that value if the callback takes it, and never if the context object is gone by then or the task failed. It keeps the coroutine or awaitable alive until then, also when the task has already finished.",
  ["schedules", "programs", "histories"],
  "every order of completing tasks and destroying context objects, several connections, callables with and without parameters and member functions, void and value results",
  "tests destroy the context in one fixed place and use one timer",
  ["qcoro/impl/connect.h", "qcoro/impl/waitfor.h", "qcoro/impl/lazytask.h"],
  [("connect() with QPointer guard", "qcoro/impl/connect.h")], (), ["callback invocations", "frame destruction"])

p("C09", "Awaiting a signal resumes once with the first emission's arguments",
  "co_await qCoro(obj, &Signal) resumes its coroutine exactly once, never synchronously inside the emit, with the arguments of the first emission after the await began, copied at emission time (nothing, one value, or a tuple; private-signal tags removed). With a timeout, however long, it resumes with an empty optional no earlier than the timeout if the signal was not emitted by then, and with the emission's arguments otherwise; a later emission has no effect.",
  ["schedules", "histories"],
  "every order of awaits, emissions, clock advances and event-loop passes, several waiters on one signal, signals and timers due in the same loop pass, signals of every arity, with and without timeouts",
  "tests emit one signal from one timer with generous margins; coincidences of timer and signal, repeated emissions and emissions before the loop runs are timing dependent",
  ["qcoro/core/qcorosignal.h", "qcoro/impl/isqprivatesignal.h"],
  [("QCoroSignal::setupConnection", "qcoro/core/qcorosignal.h"), ("QCoroSignalBase::handleTimeout", "qcoro/core/qcorosignal.h")],
  [("mConn", "connection to the signal", "qcoro/core/qcorosignal.h"), ("mTimeoutTimer", "timeout", "qcoro/core/qcorosignal.h")], ["result of the await", "number of resumptions"])

p("C10", "A signal listener yields every emission, in order, none lost or invented",
  "The generator returned by qCoroSignalListener() yields the arguments of every emission made since the call, in emission order and each exactly once, also those made while the consumer was busy. With a timeout, iteration ends only when that long passes while the consumer waits and no emission is pending; without one it does not end while the sender lives, and it ends once the sender is destroyed and the consumer asks for the next, after the emissions delivered to it by then. (An emission the event loop has not delivered when the timeout fires or the sender is found gone may be missed.)",
  ["schedules", "histories"],
  "every interleaving of emissions (single or in bursts), consumer waits and pauses, clock advances, sender destruction and abandoning the generator, with and without a timeout",
  "tests emit bursts from one timer with a consumer that never pauses; a consumer that suspends while emissions arrive is not covered",
  ["qcoro/core/qcorosignal.h", "qcoro/qcoroasyncgenerator.h"],
  [("QCoroSignalQueue", "qcoro/core/qcorosignal.h"), ("qCoroSignalListener", "qcoro/core/qcorosignal.h")],
  [("mQueue", "emissions not yet consumed", "qcoro/core/qcorosignal.h"), ("mAwaitingCoroutine", "generator to wake", "qcoro/core/qcorosignal.h")], ["values yielded", "end of iteration"])

p("C11", "Timer awaits and sleeps resume once and never early",
  "Awaiting an active QTimer (directly or with waitForTimeout) resumes exactly once, at its next timeout, and awaiting an inactive timer continues at once; single-shot and repeating timers and several waiters alike. sleepFor(d) resumes once, no earlier than d later, and sleepUntil(t) no earlier than t, in the clock t is expressed in; a duration or time point not in the future does not delay beyond the next pass of the event loop.",
  ["schedules", "inputs"],
  "every order of starting, restarting, stopping and awaiting timers and of clock advances, repeated awaits of one timer, and every duration and clock type",
  "tests sleep once for a fixed duration and allow large tolerances",
  ["qcoro/core/qcorotimer.cpp", "qcoro/core/qcorotimer.h"],
  [("WaitForTimeoutOperation", "qcoro/core/qcorotimer.cpp"), ("sleepFor/sleepUntil", "qcoro/core/qcorotimer.h")], (), ["time and number of resumptions"])

p("C12", "Awaited QIODevice reads deliver the stream unchanged",
  "Data read through awaited read(n), readAll(), readLine() is the device's byte stream without loss, duplication or reordering, each read returning at once what is already buffered and otherwise resuming exactly once, when new data arrive, the device closes or its read channel finishes (with empty data, also when it is destroyed meanwhile) or the timeout passes; read(n) and readLine(n) never return more than asked. waitForReadyRead returns true when data are or become available, false if the device closed or the timeout passed first. On a device that is closed, or open for writing only, a read ends at once with nothing; a device that was closed and opened again is read like a new one. A process, whose device stays open, counts as finished once it has ended or failed to start: nobody waits for it any longer. Reads do not depend on the temporary object qCoro() returned once they have been called.",
  ["schedules", "inputs", "fault_sequences"],
  "every interleaving of data arrival in chunks of any size, reads of every kind and size, end of data, close and timeouts, on sequential devices",
  "tests read a few fixed strings over a local socket pair, one read at a time",
  ["qcoro/core/qcoroiodevice.cpp", "qcoro/core/qcoroiodevice.h", "qcoro/core/qcoroiodevice_p.cpp", "qcoro/core/qcoroiodevice_p.h", "qcoro/core/qcoroprocess.cpp"],
  [("QCoroIODevice::read/readAll/readLine", "qcoro/core/qcoroiodevice.cpp"), ("WaitSignalHelper", "qcoro/core/qcoroiodevice_p.cpp")], (), ["bytes returned", "when the read resumes"])

p("C13", "Awaited QIODevice writes resume when all bytes were written",
  "An awaited write() hands its bytes to the device exactly once and resumes, with the number of bytes the device accepted, once the device has written all of them, however it splits the work into notifications and whatever other writers do; when the device closes first, or the process written to ends, it resumes with the number of its bytes written until then. waitForBytesWritten returns the number of bytes of the next write notification, 0 at once when nothing is to be written, and nothing if the timeout passes (nothing or 0 if the device closes) first. Neither depends on the temporary object qCoro() returned, nor on the arguments, once it has been called.",
  ["schedules", "inputs", "fault_sequences"],
  "every split of the written bytes into bytesWritten notifications, several writers, immediate writes, close and timeouts at every point",
  "tests write one small buffer to a live socket",
  ["qcoro/core/qcoroiodevice.cpp", "qcoro/core/qcoroiodevice_p.cpp", "qcoro/core/qcoroprocess.cpp"],
  [("QCoroIODevice::write / waitForBytesWritten", "qcoro/core/qcoroiodevice.cpp")], (), ["return values and resumption times"])

p("C14", "QProcess awaits report start and finish exactly",
  "waitForStarted and start() resume with true once the process is running, waitForFinished with true once it has finished; with false if the timeout passes or the process fails to start first; waitForStarted resumes at once with true on a running process, both at once with false on one that is not running. Each resumes once. start() starts the program with the arguments and open mode given.",
  ["schedules", "fault_sequences"],
  "every order of state changes, signals, timeouts and awaits, several awaits on one process",
  "tests start one real process and wait with large tolerances",
  ["qcoro/core/qcoroprocess.cpp", "qcoro/core/qcoroprocess.h"],
  [("QCoroProcess::waitForStarted/waitForFinished/start", "qcoro/core/qcoroprocess.cpp")], (), ["return values", "when they resume"])

p("C15", "Thread waits observe start and finish without missing them",
  "Awaiting qCoro(thread).waitForStarted() or waitForFinished() continues exactly once with true when the thread has started or finished, immediately if it is running (waitForStarted) or has finished (waitForFinished) already; with false at once for a thread that has finished (waitForStarted) or was not started (waitForFinished), and when the timeout passes or the thread object is destroyed first. A start or finish that happens at any moment relative to the call is not missed.",
  ["schedules"],
  "every interleaving of the worker thread's start and finish with the awaiting thread's checks, connections and timers",
  "tests start one thread and wait once; the window between checking the state and connecting is never hit on purpose",
  ["qcoro/core/qcorothread.cpp", "qcoro/core/qcorothread.h"],
  [("QCoroThread::waitForStarted/waitForFinished", "qcoro/core/qcorothread.cpp")], (), ["return value", "resumption"])

p("C16", "moveToThread and awaits run the coroutine on the right thread",
  "After co_await moveToThread(t) the coroutine continues exactly once and on thread t, whether or not t is the current thread, whether t is already running or is started later. Awaiting a signal (with or without a timeout), a future or sleepFor() resumes the coroutine on the thread it awaited from, also when the object lives in, or the signal is emitted or the future finished from, another thread.",
  ["schedules"],
  "every sequence of moves between threads and cross-thread awaits and every order in which the threads process their events, including targets not yet started",
  "tests make one move to a running thread",
  ["qcoro/core/qcorothread.cpp", "qcoro/core/qcorosignal.h"],
  [("moveToThread / ThreadContext", "qcoro/core/qcorothread.cpp")], (), ["QThread::currentThread() after the await"])

p("C17", "Awaiting a QFuture delivers its result, exception or completion once",
  "Awaiting a QFuture (directly, or with qCoro(f).result(), takeResult() or waitForFinished()) resumes once, when the future has finished (at once if it already has) and delivers its first result or rethrows the exception stored in it; takeResult() moves the result out, the others leave it. Several waiters on one future each get the result. Awaiting never blocks the thread, also when the future is canceled or failed but still running. (A value future canceled before it has a result has nothing to deliver: not covered, as for QFuture::result().)",
  ["schedules", "fault_sequences"],
  "every order of reporting results, exceptions, finishing, canceling and awaiting, for void and value futures, several waiters, immediate and continued futures",
  "tests run one QtConcurrent job at a time",
  ["qcoro/core/qcorofuture.h"],
  [("QCoroFuture::WaitForFinishedOperationBase / TakeResultOperation", "qcoro/core/qcorofuture.h")], (), ["result of the await"])

p("C18", "QAbstractSocket connection awaits follow the socket state",
  "waitForConnected and connectToHost resume with true once the socket is connected (at once if it already is), and with false when the connection attempt fails (at once if it fails immediately), the socket disconnects or the timeout passes first. waitForDisconnected resumes with true once the socket has disconnected, with false when the timeout passes first or at once when it is not connected; when a connection attempt fails it ends, with either. Reads on a socket end when it disconnects, and write() does not count bytes it dropped. connectToHost connects to the host and port given, with the open mode and protocol given.",
  ["schedules", "fault_sequences"],
  "every order of socket state changes, errors, timeouts, data arrival and awaits",
  "tests connect over loopback with the happy order of events",
  ["qcoro/network/qcoroabstractsocket.cpp", "qcoro/network/qcoroabstractsocket.h", "qcoro/core/qcoroiodevice_p.cpp"],
  [("QCoroAbstractSocket::waitForConnected/...", "qcoro/network/qcoroabstractsocket.cpp"), ("WaitSignalHelper", "qcoro/core/qcoroiodevice_p.cpp")], (), ["return values"])

p("C19", "QLocalSocket connection awaits follow the socket state",
  "waitForConnected and connectToServer resume with true once the socket is connected (at once if it already is), and with false when the connection attempt fails (at once if it fails immediately), the socket disconnects or the timeout passes first. waitForDisconnected resumes with true once the socket has disconnected, with false when the timeout passes first or at once when it is not connected; when a connection attempt fails it ends, with either. Reads end when the socket disconnects. connectToServer connects to the server given, with the open mode given.",
  ["schedules", "fault_sequences"],
  "every order of state changes, errors, timeouts, data arrival and awaits",
  "tests connect to one local server with the happy order of events",
  ["qcoro/network/qcorolocalsocket.cpp", "qcoro/network/qcorolocalsocket.h", "qcoro/core/qcoroiodevice_p.cpp"],
  [("QCoroLocalSocket", "qcoro/network/qcorolocalsocket.cpp")], (), ["return values"])

p("C20", "QTcpServer::waitForNewConnection hands out each connection once",
  "waitForNewConnection resumes with a pending connection as soon as there is one, at once if one is already pending, and with nothing only when the timeout passes first or the server is not listening; connections are handed out in arrival order, each at most once. A wait whose connection was taken by somebody else goes on waiting.",
  ["schedules"],
  "every order of incoming connections, waits with and without timeout, and closing the server",
  "tests make one connection per wait",
  ["qcoro/network/qcorotcpserver.cpp", "qcoro/network/qcorotcpserver.h"],
  [("QCoroTcpServer::waitForNewConnection", "qcoro/network/qcorotcpserver.cpp")], (), ["sockets returned"])

p("C21", "Awaiting a QNetworkReply resumes once it finished, success or error",
  "Awaiting a reply (directly or with waitForFinished) resumes once, when it has finished, successfully or with an error, at once if it already has, and yields that reply. Reads on an unfinished reply deliver its body unchanged and end when the reply finishes.",
  ["schedules", "fault_sequences"],
  "every order of data arrival, finish, error, abort and awaits, several waiters (the reply is not destroyed before it finishes)",
  "tests talk to one local HTTP server",
  ["qcoro/network/qcoronetworkreply.cpp", "qcoro/network/qcoronetworkreply.h"],
  [("QCoroNetworkReply::WaitForFinishedOperation", "qcoro/network/qcoronetworkreply.cpp")], (), ["reply returned", "bytes read"])

p("C22", "WebSocket awaits and message streams are exact",
  "open() resumes with true once the socket is connected (at once if it is), false on error, a failed attempt (at once if it fails immediately) or timeout; ping() resumes with the time of the pong carrying its payload, or nothing when the timeout passes or the socket disconnects first, or at once if it is not connected. The text and binary message and frame generators of a connected socket yield every message received since the call, in order, and end when the timeout passes without one or the socket disconnects.",
  ["schedules", "fault_sequences"],
  "every order of state changes, pongs, messages, frames, timeouts, disconnects and consumer pauses",
  "tests exchange one or two messages over loopback",
  ["qcoro/websockets/qcorowebsocket.cpp", "qcoro/websockets/qcorowebsocket.h"],
  [("WebSocketSignalWatcher", "qcoro/websockets/qcorowebsocket.cpp")], (), ["return values", "messages yielded"])

p("C23", "QWebSocketServer::nextPendingConnection hands out connections or ends",
  "nextPendingConnection resumes with a pending connection as soon as there is one, at once if one is already pending, and with nothing when the server closes, is not listening or the timeout passes first. No connection is lost to an await that has already ended, and a wait whose connection was taken by somebody else goes on.",
  ["schedules", "fault_sequences"],
  "every order of incoming connections, awaits with and without timeout, and closing the server",
  "tests make one connection per await",
  ["qcoro/websockets/qcorowebsocketserver.cpp", "qcoro/websockets/qcorowebsocketserver.h"],
  [("QCoroWebSocketServerSignalListener", "qcoro/websockets/qcorowebsocketserver.cpp")], (), ["sockets returned"])

p("C24", "Awaiting a DBus call resumes once with its reply or error",
  "Awaiting a pending DBus call or reply (directly or with waitForFinished) resumes exactly once, when the reply or error arrived, at once if it already has (a call that was never made included), and yields that reply with its typed arguments or error, with several waiters each getting it. A reply that arrives at any moment relative to the await is not missed.",
  ["schedules", "fault_sequences"],
  "every order of replies, errors, disconnects and awaits, calls completed before or after the await",
  "tests make sequential calls to one responder",
  ["qcoro/dbus/qcorodbuspendingcall.cpp", "qcoro/dbus/qcorodbuspendingreply.h"],
  [("QCoroDBusPendingCall::WaitForFinishedOperation", "qcoro/dbus/qcorodbuspendingcall.cpp")], (), ["reply obtained"])

p("C25", "QmlTask reports a task's result to QML exactly once per listener",
  "A QmlTask made from a coroutine, future or other awaitable calls each QML callback passed to then() exactly once with the value, also when it has already finished, and none if it failed. The object returned by await() holds the intermediate value until the task finishes and the final value from then on. This holds for any number of callbacks and objects, through any copy of the QmlTask, and whatever becomes meanwhile of the copies, the objects returned or the JavaScript engine. On a QmlTask without a coroutine then() does nothing and await() returns an object that keeps the intermediate value.",
  ["schedules", "programs"],
  "every order of completion, then() and await() calls, copies made and dropped, with several listeners, called from C++ and from JavaScript",
  "tests call one then() or await() per task",
  ["qcoro/qml/qcoroqmltask.cpp", "qcoro/qml/qcoroqmltask.h"],
  [("QmlTask::then/await", "qcoro/qml/qcoroqmltask.cpp")], (), ["QML callback arguments", "await() value"])

p("C26", "A coroutine image provider finishes every request exactly once",
  "Every image requested from a coroutine image provider finishes exactly once, when its coroutine finishes and not before, carrying the image the coroutine returned for that id and size, or a non-empty error if it threw an exception (with or without a message), also when several requests overlap, finish out of order or at once. A response deleted before its coroutine finishes is left alone.",
  ["schedules"],
  "every order in which overlapping requests are made and their coroutines complete or fail, immediately or later, and responses or the provider are deleted",
  "tests load one image through a QML engine",
  ["qcoro/quick/qcoroimageprovider.cpp", "qcoro/quick/qcoroimageprovider.h"],
  [("QCoroImageResponse / requestImageResponse", "qcoro/quick/qcoroimageprovider.cpp")], (), ["finished() signals", "textureFactory image"])

p("C27", "Async test macros fail exactly when the condition fails",
  "The QCORO_COMPARE, QCORO_VERIFY, QCORO_TEST, QCORO_FAIL and exception macros leave the test coroutine and record a failure exactly when their condition does not hold, evaluating their arguments once, and otherwise continue; QCORO_SKIP leaves it recording a skip, and after QCORO_EXPECT_FAIL the next failing check is recorded as expected and continues or leaves as asked. The retrying variants process events until the condition holds and fail only when it did not within the timeout.",
  ["programs", "schedules"],
  "every sequence of passing and failing macros in a test coroutine and every moment at which a retried condition becomes true",
  "the project's own tests only use the macros on conditions that hold",
  ["qcoro/test/qcorotest.h"],
  [("QCORO_* macros", "qcoro/test/qcorotest.h")], (), ["test log", "statements executed after the macro"])

p("C28", "Any awaitable works in a QCoro coroutine",
  "In a Task, LazyTask or AsyncGenerator coroutine, co_await of any C++ awaitable (await_ready(), await_suspend() and await_resume() members, or a member or free operator co_await) follows the C++ protocol on the very operand, whatever its value category: it is not copied or moved and lives until the await is over, await_suspend() may return void, bool or a coroutine handle, the result keeps its type and identity, and an exception from any of them reaches the awaiter once.",
  ["programs", "schedules"],
  "every kind and value category of awaitable, every answer of its await_ready(), await_suspend() and await_resume(), and every order of awaits and resumptions of several coroutines",
  "tests await QCoro's own tasks and Qt types and hardly any foreign awaitable",
  ["qcoro/qcorotask.h", "qcoro/impl/taskpromisebase.h", "qcoro/coroutine.h"],
  [("TaskPromiseBase::await_transform", "qcoro/impl/taskpromisebase.h"), ("Awaitable", "qcoro/coroutine.h")], (), ["calls made on the awaitable", "copies, moves and end of the operand", "value or exception at the co_await"])

p("C29", "Awaits of different kinds compose",
  "A coroutine that awaits signals (with and without timeouts), sleeps, timers, futures, elements of a signal listener, Tasks shared with other coroutines and coroutines it calls, one after the other, goes on with each as soon as, and only when, the one it awaits is over, with that one's result; nothing left over from an earlier await (a later emission, a timeout, another waiter's exception) resumes or disturbs it or other coroutines. What a called or awaited coroutine throws reaches the innermost caller that catches it, and every coroutine, awaited or dropped, runs to its end and is destroyed once.",
  ["schedules", "programs", "histories"],
  "every interleaving of emissions, passing time and finishing futures with coroutines running arbitrary sequences of awaits, started, shared and dropped at any moment",
  "tests await one kind of operation per coroutine, in one schedule",
  ["qcoro/qcorotask.h", "qcoro/qcoroasyncgenerator.h", "qcoro/core/qcorosignal.h", "qcoro/core/qcorotimer.cpp", "qcoro/core/qcorotimer.h", "qcoro/core/qcorofuture.h", "qcoro/impl/taskfinalsuspend.h", "qcoro/impl/taskawaiterbase.h"],
  [("Task awaiter and final suspend", "qcoro/impl/taskfinalsuspend.h"), ("QCoroSignal/QCoroSignalQueue", "qcoro/core/qcorosignal.h")], (), ["sequence of results in each coroutine", "frame destruction"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
