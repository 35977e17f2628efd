#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the long records stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Every call completes exactly once",
  "Each call issued on a running instance (synchronous, with promise, or with callback) yields exactly one result: the synchronous call returns once, the future becomes ready once, the callback is invoked once, under every thread schedule and every mix of concurrent calls. "
  "No result is ever delivered twice, and none is lost while both instances stay up, the bound function returns, and the queues involved are not locked or full for longer than the configured timeouts.",
  ["schedules", "histories"], "all interleavings of callers, sender, dispatcher and response threads of all instances; all mixes of call kinds, targets, outcomes",
  "The tests make one call at a time between two instances under one lucky schedule; completion paths for refused, failed and concurrent calls, and the interleavings between them, are not reached.",
  ["src/sender.cpp", "src/resp_dispatcher.cpp", "src/call_dispatcher.cpp", "include/veigar/veigar.inl"],
  [("failure completion", "src/sender.cpp Sender::sendCallThreadProc"), ("reply completion", "src/resp_dispatcher.cpp RespDispatcher::dispatchRespThreadProc"), ("hand-off event", "src/event.cpp, src/sender.cpp addCall")],
  [("ongoingCalls_", "calls awaiting a reply", "src/resp_dispatcher.h"), ("callList_", "calls not yet sent", "src/sender.h")],
  ["syncCall return", "future of asyncCall", "callback invocation"])

p("C02", "A result belongs to the call it answers",
  "The result handed to a caller is the outcome of executing exactly the function and arguments of that very call, however many calls are outstanding and whatever their function names. "
  "This also holds with several calling instances and when a caller was killed and restarted on the same channel while its old call was still executing.",
  ["histories", "inputs", "schedules", "crash_points"], "all sets of outstanding calls, all function names (including names ending in digits, prefixes of one another), all reply orders, restarts of the caller",
  "Tests have at most one outstanding call per instance, so replies cannot be confused; identifiers of concurrent calls are never compared.",
  ["src/veigar.cpp", "src/uuid.cpp", "src/resp_dispatcher.cpp", "src/call_dispatcher.cpp"],
  [("call id generation", "src/veigar.cpp Veigar::getNextCallId"), ("per-instance uuid", "src/uuid.cpp UUID::Create"), ("reply lookup", "src/resp_dispatcher.cpp dispatchRespThreadProc")],
  [("callIndex_", "call counter", "src/veigar.cpp Impl")], ["CallResult value vs. the call's own token"])

p("C03", "Calls execute at most once and only as reported",
  "A call executes its bound function at most once, only on the instance that owns the addressed channel, and with exactly the arguments given. "
  "If the result is a success the function was executed exactly once before the result was delivered; if the result says that the call could not be sent (FAILED, or TIMEOUT of an asynchronous call) the function is never executed for it.",
  ["schedules", "histories", "fault_sequences"], "all interleavings; all send outcomes (delivered, lock timeout, full queue, oversized, absent target, shutdown)",
  "No test counts executions, nor provokes the send failures.",
  ["src/sender.cpp", "src/call_dispatcher.cpp", "src/message_queue.cpp"],
  [("send or fail, never both", "src/sender.cpp Sender::sendCallThreadProc"), ("pop under lock", "src/call_dispatcher.cpp dispatchThreadProc")],
  [], ["bound function invocations", "CallResult::errCode"])

p("C04", "Queue delivers accepted messages in order, once, byte-identical",
  "Whatever the history of pushes and pops, message sizes and queue geometry, and through whichever handles opened on the same queue, pops return exactly the accepted messages, in acceptance order, each once, and byte for byte as pushed.",
  ["histories", "inputs", "configurations"], "all push/pop histories, all size sequences, all capacities and sizes, several handles",
  "The tests use two geometries, one message size and never more than two queued messages in a fixed order.",
  ["src/message_queue.cpp"],
  [("pushBack", "src/message_queue.cpp MessageQueue::pushBack"), ("popFront", "src/message_queue.cpp MessageQueue::popFront")],
  [("shared memory header", "total size, message number, front free, sizes", "src/message_queue.cpp")], ["pushBack/popFront results and buffers"])

p("C05", "Queue admission is exact; refused operations change nothing",
  "A push is accepted exactly when the queue holds fewer messages than its capacity and the bytes not occupied by queued messages (capacity times expected size in total) suffice for it; the space check gives the same answer and calls a message hopeless exactly when it exceeds the total. "
  "A refused push, a space check, and a pop into a too small buffer (which reports the size needed) or from an empty queue leave the queue's content unchanged.",
  ["histories", "inputs", "configurations"], "all queue states reachable by any history, all request sizes including the boundary ones",
  "The tests try one refused push and one short pop in one state.",
  ["src/message_queue.cpp"],
  [("admission arithmetic", "src/message_queue.cpp pushBack, checkSpaceSufficient"), ("short buffer path", "src/message_queue.cpp popFront")],
  [], ["return values", "msgNumber", "content of later pops"])

p("C06", "Queue storage is touched only under its lock, and the lock is balanced",
  "While a channel is in service, its shared queues are read and written only by a thread that holds that queue's inter-process lock, and at most one thread holds it. "
  "Every acquisition is followed by exactly one release by its holder on every path (delivered, full queue, oversized message, lock timeout, empty queue, shutdown), so the lock of an idle channel is always free.",
  ["schedules", "fault_sequences"], "all interleavings of senders and readers of all instances; every exit path of every critical section",
  "The queue test locks by hand in two threads; the library's own critical sections and their error exits are not observed.",
  ["src/sender.cpp", "src/call_dispatcher.cpp", "src/resp_dispatcher.cpp", "src/message_queue.cpp", "src/semaphore.cpp"],
  [("processRWLock/processRWUnlock pairs", "src/sender.cpp, src/call_dispatcher.cpp, src/resp_dispatcher.cpp"), ("lock created with one unit", "src/message_queue.cpp create")],
  [("rwLock_", "binary named semaphore", "src/message_queue.h")], ["accesses to the mapped queue", "semaphore operations"])

p("C07", "Timed waits last their full timeout at every clock reading",
  "A timed wait on an inter-process semaphore succeeds exactly when it takes a unit, takes one at once when one is available, and otherwise fails only after the requested number of milliseconds has elapsed and not noticeably later. "
  "This holds for every duration (zero polls, negative waits without limit) and every wall-clock reading at which the wait starts.",
  ["inputs", "schedules"], "all durations, all sub-second phases of the clock, all orders of posts and waits",
  "The tests are started just after a full second, on purpose, because they fail elsewhere; one duration is tried.",
  ["src/semaphore.cpp"],
  [("deadline computation", "src/semaphore.cpp Semaphore::wait(const int64_t&)")], [], ["return value and elapsed time of wait(ms)"])

p("C08", "A queued message is always picked up",
  "While an instance is up, every message accepted into one of its queues is taken out and dispatched without any further message having to arrive, whatever the schedule, and also after its readers' attempts to get the queue lock timed out because somebody else held it for a while. "
  "An instance whose traffic has ceased and whose functions have returned ends with empty queues.",
  ["schedules", "fault_sequences"], "all interleavings of pushes, signals and readers; all placements of lock timeouts",
  "A lost wake-up shows only when a reader loses the lock race or times out and nothing else arrives afterwards; tests have no contention.",
  ["src/call_dispatcher.cpp", "src/resp_dispatcher.cpp", "src/sender.cpp", "src/message_queue.cpp"],
  [("read signal", "src/message_queue.cpp waitForRead/notifyRead"), ("reader loops", "src/call_dispatcher.cpp, src/resp_dispatcher.cpp")],
  [("readSmp_", "counts unread messages", "src/message_queue.h")], ["queue content at quiescence"])

p("C09", "A full queue applies backpressure without blocking its reader",
  "When the target's queue has no room the sender waits for room up to the call's timeout while the target's readers keep draining the queue; the call is delivered if room appears in time and otherwise ends with TIMEOUT when its timeout has passed, not before. "
  "A message that can never fit fails without waiting, and afterwards the queue serves other calls normally.",
  ["schedules", "histories", "inputs"], "all fill levels, message sizes, drain times relative to the timeout, numbers of concurrent senders",
  "No test fills a queue through calls.",
  ["src/sender.cpp", "src/message_queue.cpp"],
  [("checkSpaceAndWait", "src/sender.cpp Sender::checkSpaceAndWait"), ("space check", "src/message_queue.cpp checkSpaceSufficient")],
  [], ["result code and time of calls to a full channel"])

p("C10", "A synchronous call returns within its timeout",
  "A synchronous call returns no later than its timeout after it was issued, give or take the lock timeout, with TIMEOUT if no result arrived in time, whatever the target does: slow function, full queue, queue lock held by someone, target killed, never replying. "
  "A reply that arrives after its call was given up or released is discarded without affecting any other call.",
  ["schedules", "fault_sequences", "histories"], "all target behaviours and their timing relative to the timeout; any timeout value",
  "The test meant for this addresses a channel that does not exist and so never waits.",
  ["include/veigar/veigar.inl", "src/veigar.cpp", "src/resp_dispatcher.cpp"],
  [("syncCall wait", "include/veigar/veigar.inl Veigar::syncCall"), ("releaseCall", "src/resp_dispatcher.cpp RespDispatcher::releaseCall")],
  [], ["return time and code of syncCall"])

p("C11", "Calls to an absent channel fail fast and leave nothing behind",
  "A call to a channel that nobody owns ends with FAILED without waiting for its timeout, and creates no shared object of that name. "
  "A channel that comes up later works normally from the first call made after its initialisation returned, including for callers that had failed before; a call made while the channel is coming up either fails or is served.",
  ["histories", "schedules"], "all interleavings of calls with the creation of the target channel",
  "Tests call a missing channel but never create it afterwards, nor race with its creation.",
  ["src/sender.cpp", "src/message_queue.cpp", "src/semaphore.cpp", "src/shared_memory.cpp"],
  [("open of the target queue", "src/message_queue.cpp MessageQueue::open"), ("existence test", "src/semaphore.cpp Semaphore::IsExist"), ("creation order", "src/message_queue.cpp MessageQueue::create")],
  [], ["result code and time", "named shared memory and semaphores in the system"])

p("C12", "Init and uninit are clean and repeatable",
  "init succeeds on a free valid channel name, succeeds again without effect for the same name and refuses a different one while initialised; an init that fails (empty or unusable name, unusable capacity) returns false and leaves the instance uninitialised, with nothing left behind, and able to be initialised later. "
  "While initialised an instance reports itself so, with the name, capacity and message size of its init. After uninit the instance is uninitialised, none of its shared objects and threads remain, and it and others can be initialised on that name again any number of times.",
  ["histories", "configurations", "fault_sequences"], "all sequences of init and uninit with all names and parameters, including failing ones",
  "One fixed sequence of successful inits is tested.",
  ["src/veigar.cpp", "src/call_dispatcher.cpp", "src/resp_dispatcher.cpp", "src/sender.cpp", "src/message_queue.cpp"],
  [("init/rollback", "src/veigar.cpp Impl::init"), ("uninit", "src/veigar.cpp Impl::uninit")],
  [("isInit_", "initialised flag", "src/veigar.cpp")], ["return values, isInit", "named objects, threads"])

p("C13", "Shutdown with work in flight ends cleanly",
  "uninit may be called at any moment from an application thread; it returns as soon as the bound functions and callbacks then running have returned, and no bound function of the instance starts afterwards. "
  "Every call still outstanding on the instance completes, with a non-success result unless its reply came first: no future is left without a value, no synchronous call throws or stays blocked, no callback is skipped.",
  ["schedules", "histories"], "all moments of uninit relative to the life of every outstanding call and of calls being served",
  "Tests shut down idle instances, or one instance in one fixed phase.",
  ["src/veigar.cpp", "src/sender.cpp", "src/call_dispatcher.cpp", "src/resp_dispatcher.cpp"],
  [("stop flags and events", "src/sender.cpp uninit, src/call_dispatcher.cpp uninit, src/resp_dispatcher.cpp uninit"), ("order of shutdown", "src/veigar.cpp Impl::uninit")],
  [], ["completion of outstanding calls", "return of uninit"])

p("C14", "The function registry decides what a call executes",
  "bind fails for an empty or already bound name and otherwise makes the function callable under that name until it is unbound or the instance is uninitialised; the list of names is exactly the set of bound names; a call runs the function bound under its name, and a call to an unbound name gets an error result. "
  "Binding and unbinding other names from any thread while calls are served never disturbs calls to a name that stays bound.",
  ["histories", "schedules"], "all sequences of bind, unbind, init, uninit and calls; all interleavings with calls being served",
  "The test binds and unbinds on an idle instance and never calls the result.",
  ["include/veigar/call_dispatcher.inl", "src/call_dispatcher.cpp", "include/veigar/call_dispatcher.h"],
  [("registry map", "include/veigar/call_dispatcher.h funcs_"), ("lookup", "src/call_dispatcher.cpp dispatchCall")],
  [("funcs_", "name to function", "include/veigar/call_dispatcher.h")], ["bind/unbind results, bindNames", "which function ran"])

p("C15", "Failures of the called function come back as results",
  "A bound function that throws anything, arguments that cannot be converted to the function's parameters, and a name that is not bound each give the caller a result that was delivered (code SUCCESS), is not a success, and carries a non-empty error message. "
  "Nothing is thrown at the caller, no process is terminated, and the instance goes on serving calls.",
  ["inputs", "histories", "schedules"], "all exception types, argument mismatches and names; any sequence of failing and good calls",
  "No test has a function that throws or an argument of the wrong type.",
  ["src/call_dispatcher.cpp", "src/response.cpp", "src/resp_dispatcher.cpp"],
  [("catch clauses", "src/call_dispatcher.cpp dispatchCall"), ("error reply", "include/veigar/detail/response.h MakeResponseWithError")],
  [], ["CallResult of failing calls", "calls made afterwards"])

p("C16", "Malformed or unexpected messages are contained",
  "Whatever bytes another process puts into a channel's queues (garbage, truncated or foreign messages, replies with unknown, released or repeated call identifiers) are discarded: the process does not terminate, no bound function runs for them, no call other than one whose own identifier was used is completed by them. "
  "Calls made afterwards are served correctly.",
  ["inputs", "histories"], "all byte strings in both queues, at any point of a history of calls",
  "Tests only exchange messages made by the library itself.",
  ["src/call_dispatcher.cpp", "src/resp_dispatcher.cpp"],
  [("parsing loops", "src/call_dispatcher.cpp dispatchThreadProc, src/resp_dispatcher.cpp dispatchRespThreadProc")],
  [], ["process survival", "results of later calls"])

p("C17", "A killed process harms nobody else, and restarting it heals its channel",
  "When a process is killed at any point of its work, the channels of the others stay in service. "
  "A new instance on the killed one's channel name initialises, serves and makes calls like a first one, and sees no message, signal or lock state of its predecessor.",
  ["crash_points", "histories"], "every crash point of a caller, a target and a starting instance",
  "The kill tests are disabled on this platform, and kill at one moment only.",
  ["src/message_queue.cpp", "src/semaphore.cpp", "src/shared_memory.cpp", "src/sender.cpp"],
  [("creation over leftovers", "src/message_queue.cpp MessageQueue::create")],
  [], ["calls between survivors, and with the restarted instance"])

p("C18", "Peers follow a channel to its new owner",
  "After the owner of a channel stopped or was killed and a new instance has been initialised on the same channel name, calls made by any instance, including those that had already exchanged calls with the old owner, are served by the new owner, and replies reach the new owner's calls.",
  ["histories", "crash_points"], "all histories of stop/kill and restart of callers and targets with warm peers",
  "No running test restarts a channel while a peer lives on.",
  ["src/sender.cpp", "src/message_queue.cpp"],
  [("cache of opened queues", "src/sender.cpp getTargetCallMessageQueue, getTargetRespMessageQueue")],
  [("targetCallMsgQueues_", "queues opened so far", "src/sender.h")], ["results of calls after the restart"])

p("C19", "The geometry of a queue is its owner's",
  "Instances initialised with different queue capacities and expected message sizes interoperate: calls and replies between them are delivered intact, and a message is admitted according to the capacity and size configured by the receiving channel's owner.",
  ["configurations", "histories"], "all pairs of configurations, any history of calls between them",
  "All tests use the defaults on both sides.",
  ["src/message_queue.cpp", "src/sender.cpp", "src/shared_memory.cpp"],
  [("open of a queue", "src/message_queue.cpp MessageQueue::open")],
  [], ["results of calls between differently configured instances"])

p("C20", "Functions and callbacks may make calls themselves",
  "A bound function or a result callback may call other instances or its own one, synchronously or not, and hold further nested calls, and as long as fewer bound functions (and callbacks) block at once than the instance has worker threads for them, all these calls complete with their own results.",
  ["schedules", "programs"], "all call graphs within the worker bound, all interleavings",
  "The recursion tests nest one call between two idle instances.",
  ["src/sender.cpp", "src/resp_dispatcher.cpp", "src/call_dispatcher.cpp"],
  [("no lock held while running user code", "src/call_dispatcher.cpp dispatchThreadProc, src/resp_dispatcher.cpp dispatchRespThreadProc, src/sender.cpp sendCallThreadProc")],
  [], ["results of nested calls"])

p("C21", "Values of every supported type survive the round trip",
  "An argument of a supported type (integers of every width, floating point, bool, enum, strings and binary data of any length and content, vectors, lists, sets, maps, pairs, tuples, arrays, shared pointers, user types made packable with the library's macros, and nestings of these) reaches the bound function equal to the value given, whatever its position among the arguments, and the function's result reaches the caller equal to the value returned. "
  "An integer, string, binary or list value may be received in another type of its kind that can hold it; what a value becomes does not depend on the values that travelled before it.",
  ["inputs", "histories", "configurations"], "all values of all supported types, in particular those at the limits of types and of wire formats; all argument positions; all sequences of calls",
  "One value per type is tested, far from any limit.",
  ["include/veigar/call_dispatcher.inl", "include/veigar/veigar.inl", "include/veigar/detail/call.h", "include/veigar/detail/response.h", "include/veigar/call_result.h", "src/response.cpp", "include/veigar/msgpack/v1"],
  [("argument unpacking", "include/veigar/call_dispatcher.inl bind"), ("result packing", "src/response.cpp Response::getData"), ("msgpack adaptors", "include/veigar/msgpack/v1/adaptor")], [], ["arguments seen by the bound function", "CallResult::obj"])

p("C22", "An instance may be used by many threads at once",
  "After init has returned, calls, bind, unbind, bindNames, releaseCall, setTimeoutOfRWLock, the getters and (once) uninit may be invoked on one instance from any number of threads of its process, while it serves calls and receives results, and no two of its threads ever access the same memory, one of them writing, without synchronisation that orders the accesses; nor does a thread unlock a mutex that it does not hold.",
  ["schedules", "programs"], "all interleavings of all public operations and of the instance's own threads",
  "A data race shows in a test only by luck, and no test uses one instance from several threads in different ways.",
  ["src/veigar.cpp", "src/sender.cpp", "src/resp_dispatcher.cpp", "src/call_dispatcher.cpp", "src/event.cpp", "include/veigar/call_dispatcher.inl"],
  [("locks of the lists", "src/sender.h callListMutex_, respListMutex_"), ("lock of the outstanding calls", "src/resp_dispatcher.h ongoingCallsMutex_"), ("lock of the registry", "include/veigar/call_dispatcher.h")],
  [], ["memory accesses, ordered by the program's synchronisation"])

p("C23", "A stuck peer does not hold up traffic with others",
  "An instance has several threads for sending calls and several for sending replies. As long as one of them is free, a call to a channel with room for it is put into that channel's queue without waiting for calls to other channels that are full, busy or dead, and likewise a reply, once its function has returned, without waiting for replies to callers that take none.",
  ["schedules", "histories"], "all interleavings of issuing calls and finishing functions with the senders' work; any set of peers that take nothing, up to one less than the number of senders",
  "No test has a peer that is stuck, let alone a second one that is not.",
  ["src/sender.cpp", "src/event.cpp"],
  [("hand-over to the next sender", "src/sender.cpp sendCallThreadProc, sendRespThreadProc")],
  [("callList_, respList_", "messages to be sent", "src/sender.h")], ["time at which a message enters its target's queue"])

p("C24", "An idle instance keeps nothing of what it did",
  "What an instance holds while nothing is going on - memory, semaphores and shared memory, file descriptors, threads - depends on its present state only: "
  "whether it is initialised, the functions bound, the channels it talks to, and the calls whose results are awaited. However often inits (also failing ones), calls of every outcome "
  "(success, error, timeout, nobody there, too large, released), received garbage, restarts of peers and uninits are repeated, no more is held than before. "
  "After uninit an instance holds no semaphore, shared memory, descriptor or thread.",
  ["histories"], "all histories of the public operations and of messages received, repeated any number of times",
  "No test looks at what is in use, and none runs long enough to run out of it.",
  ["src/sender.cpp", "src/veigar.cpp", "src/resp_dispatcher.cpp", "src/call_dispatcher.cpp", "src/message_queue.cpp", "src/semaphore.cpp", "src/shared_memory.cpp", "include/veigar/veigar.inl"],
  [("release of sent messages", "src/sender.cpp sendCallThreadProc, sendRespThreadProc"), ("release of calls", "src/resp_dispatcher.cpp releaseCall"), ("close of queues", "src/message_queue.cpp close")],
  [("ongoingCalls_", "calls awaiting a result", "src/resp_dispatcher.h"), ("targetCallMsgQueues_, targetRespMsgQueues_", "queues opened so far", "src/sender.h")],
  ["allocated blocks, open handles and descriptors, live threads"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
