#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=["src/" + f for f in files.split()],
            mechanism=[dict(name=n, where="src/" + w) for n, w in mech],
            state=[dict(name=n, meaning=m, where="src/" + w) for n, m, w in state],
            observe_at=list(observe))))
GE = "GraphCtrl/GraphElement/"
DE = GE + "_GEngine/GDynamicEngine/GDynamicEngine.cpp"
TP = "UtilsCtrl/ThreadPool/"

p("C01", "Dynamic runs execute every element once, after its predecessors",
  "In every error-free run of a pipeline driven by the default (dynamic) engine, each registered element is executed exactly once, and its execution starts only after every element it depends on has finished. This holds for every acyclic dependency graph, thread-pool configuration, binding index and interleaving of worker threads, and again for every later run of the same pipeline.",
  "schedules inputs", "all DAGs of elements x all interleavings of the pool's worker threads x any number of consecutive runs",
  "Tests run a few fixed graphs under whatever schedule the OS picks; a lost or doubled dispatch needs a specific interleaving of two predecessors finishing together, or a graph shape/binding combination no test has.",
  DE + " " + GE + "_GEngine/GEngine.h " + GE + "GElement.cpp",
  [("per-element atomic counter of unfinished predecessors; whoever drops it to zero dispatches", DE),
   ("shape analysis that lets sole successors skip the counter", GE + "_GEngine/GEngine.h"),
   ("counter refreshed at the start of the element's own execution", GE + "GElement.cpp")],
  [("left_depend_", "unfinished predecessors in this run", GE + "GElement.h"), ("shape_", "how the successors are dispatched", GE + "GElement.h")],
  ["user run() callbacks"])
p("C02", "Static and topological engines respect every dependency",
  "A pipeline driven by the static or the topological engine executes, in each error-free run, every registered element exactly once and never starts an element before all elements it depends on have finished. The topological engine runs the elements one at a time in the calling thread, in an order that is a linear extension of the dependency relation.",
  "inputs schedules", "all DAGs, both engines, all interleavings of the pool for the static engine",
  "Tests compare end results of two or three small graphs; the ordering of all pairs in arbitrary graphs is never inspected.",
  GE + "_GEngine/GStaticEngine/GStaticEngine.cpp " + GE + "_GEngine/GTopoEngine/GTopoEngine.cpp " + GE + "_GEngine/GEngine.h",
  [("layering by repeatedly removing sources", GE + "_GEngine/GStaticEngine/GStaticEngine.cpp"), ("Kahn topological sort", GE + "_GEngine/GEngine.h"),
   ("every future of a layer joined before the next layer", GE + "_GEngine/GStaticEngine/GStaticEngine.cpp")],
  observe=["user run() callbacks"])
p("C03", "Cyclic dependency graphs are rejected, acyclic ones accepted",
  "Initialising a pipeline or region whose registered elements' dependencies contain a cycle fails with an error status and initialises no element; when the dependencies are acyclic, the dependency analysis accepts them. This holds for all three engines and for every graph.",
  "inputs", "all finite dependency graphs over registered elements, all engine types",
  "The tests contain at most one hand-written cycle; completeness of the detection over all graphs is not testable.",
  GE + "_GEngine/GEngine.h " + DE + " " + GE + "_GEngine/GStaticEngine/GStaticEngine.cpp " + GE + "_GEngine/GTopoEngine/GTopoEngine.cpp " + GE + "GElementManager.cpp",
  [("number of topologically sortable elements compared with the number registered", GE + "_GEngine/GEngine.h"), ("engine set up before any element is initialised", GE + "GElementManager.cpp")],
  observe=["status of init()"])
p("C04", "run() returns exactly when the run is over and never sleeps forever",
  "A run of a pipeline (or of an element group that runs its children in parallel) returns only once every element it must wait for has finished or an error was recorded, and once that is the case the waiting caller is always woken. No interleaving of the finishing workers with the caller going to sleep loses the wake-up.",
  "schedules", "all interleavings between finishing or failing workers and the thread blocked in run()",
  "A lost wake-up needs the worker's notification to fall between the caller's check and its sleep, a window of nanoseconds tests do not hit.",
  DE + " " + GE + "GGroup/GSome/GSome.cpp",
  [("completion counter and error flag checked under the lock of the condition variable", DE), ("notification after the counter reached its target", DE)],
  [("finished_end_size_", "finished sink elements", GE + "_GEngine/GDynamicEngine/GDynamicEngine.h"), ("cur_status_", "first error of the run", GE + "_GEngine/GDynamicEngine/GDynamicEngine.h")])
p("C05", "A failing element fails the run, and nothing downstream of it runs",
  "If an element's execution ends with an error status or an exception, the run returns an error that one of the failing elements reported, and no element that depends on a failed element is executed in that run. After a failed run the next run starts from a clean state: it reports no stale error and again obeys the dependencies.",
  "schedules inputs histories", "all DAGs, any set of failing elements, all interleavings, any number of runs after the failure",
  "Tests fail one fixed element in one fixed graph and look at the code only; which elements ran after it, and what the following run does, is not checked.",
  DE + " " + GE + "_GEngine/GStaticEngine/GStaticEngine.cpp " + GE + "_GEngine/GTopoEngine/GTopoEngine.cpp " + GE + "GElement.cpp CBasic/CStatus.h",
  [("engine-wide status, first error kept", DE), ("dispatch refuses to start elements once an error is recorded", DE), ("exceptions turned into a crash status", GE + "GElement.cpp")])
p("C06", "Element execution honours visibility, loop count, hold and preparation",
  "Executing an element invokes its run callback exactly as often as configured: once per loop iteration, repeated within an iteration while the element's hold condition is true, stopping at the first error or once the element is no longer in the normal state; an invisible element invokes no callback and reports success. The one-time preparation callback runs before the first run after each initialisation and never again until the next one, and an exception thrown by any callback is turned into a crash status handed to the crash callback.",
  "inputs histories", "all loop counts, hold sequences, statuses returned and exceptions thrown by the callbacks, all histories of init/run/destroy",
  "The combinations of loop, hold, error and exception are a product space of which tests visit a few points.",
  GE + "GElement.cpp", [("single wrapper around every init/run/destroy callback", GE + "GElement.cpp")], observe=["user callbacks"])
p("C07", "Aspects bracket every callback of their element",
  "Every aspect attached to an element gets its begin hook before and its finish hook after each corresponding init, run iteration and destroy of that element, in the order the aspects were attached, and the finish hook receives the status the callback produced. A begin hook that reports an error prevents the callback from running and its error becomes the element's result.",
  "inputs histories", "all aspect lists, hook results and callback results",
  "Tests print from hooks and do not assert order, pairing or the status passed.",
  GE + "GElement.cpp GraphCtrl/GraphAspect/GAspectManager.cpp", [("reflection of a phase to all aspects", "GraphCtrl/GraphAspect/GAspectManager.cpp"), ("calls placed around the callbacks", GE + "GElement.cpp")], observe=["aspect hooks"])
p("C08", "Groups run exactly the children their kind selects, in order",
  "A cluster runs its children one after another in insertion order and stops at the first error; a condition runs exactly the child whose index was chosen, the last child for index -1 and none when the index is out of range; a multi-condition runs exactly the matching children, a parallel one waiting for all of them. The group's result is the first error of the children it ran, or success.",
  "inputs schedules", "all children lists, chosen indices (any integer), match vectors and child results",
  "Boundary indices, empty groups and error positions form an unbounded space of which tests cover a handful.",
  GE + "GGroup/GCluster/GCluster.cpp " + GE + "GGroup/GCondition/GCondition.cpp " + GE + "GGroup/GCondition/GMultiCondition.inl",
  [("run of each group kind", GE + "GGroup/GCluster/GCluster.cpp")], observe=["children run() callbacks", "status of the group"])
p("C09", "A some-group finishes when enough children did, or one failed",
  "Running a some-group starts all its children concurrently and returns as soon as the configured number of children has finished or any child failed, never earlier, and returns the first error if there was one. Asking for more children than the group holds is an error; children that have not finished when the group returns are put into the timed-out state and children that have finished are not.",
  "schedules inputs", "all child counts, wait numbers and completion orders",
  "Completion order and the moment the waiting thread wakes are schedule dependent.",
  GE + "GGroup/GSome/GSome.cpp", [("countdown under the group's lock", GE + "GGroup/GSome/GSome.cpp")])
p("C10", "Dependency edges are symmetric, within one owner, and irreflexive",
  "After any sequence of adding and removing dependencies, an element lists another as predecessor exactly when that other lists it as successor, no element depends on itself, no edge appears twice, and both ends belong to the same group. A rejected request to add or remove dependencies leaves the graph consistent in this sense, with the pending-predecessor count equal to the number of predecessors.",
  "inputs histories", "all histories of add/remove requests, including rejected ones",
  "Tests only build graphs forward; removals, repeated and rejected requests are not explored.",
  GE + "GElement.cpp UtilsCtrl/Container/USmallVector.h", [("both adjacency lists updated together", GE + "GElement.cpp")],
  [("run_before_", "successors", GE + "GElement.h"), ("dependence_", "predecessors", GE + "GElement.h")], ["getRelation()"])
p("C11", "Initialisation and destruction follow the configured levels",
  "Initialising (destroying) a pipeline or region initialises (destroys) each of its registered elements exactly once, elements with a smaller level before elements with a larger one, and stops at the first error. Exactly the elements whose initialisation succeeded count as initialised.",
  "inputs histories", "all level assignments (made before initialisation, at any time), all init results",
  "The tests set levels in one program and check nothing about order; changes of the level after registration are not tested.",
  GE + "GElementManager.cpp " + GE + "GElementSorter.h " + GE + "GElement.cpp", [("elements kept ordered by level", GE + "GElementSorter.h"), ("init/destroy in that order", GE + "GElementManager.cpp")], observe=["user init()/destroy() callbacks"])
p("C12", "Configuration is frozen between initialisation and destruction",
  "While an element or pipeline is initialised, every attempt to change its configuration (name, loop, level, timeout, binding, visibility, macro flag, dependencies, engine or thread-pool settings, registered elements) is refused with an error or exception and changes nothing; children of a mutable group may still change loop, visibility and dependencies. Before initialisation and after destruction the same requests take effect, and inconsistent settings (a loop together with a timeout, a negative timeout) are refused.",
  "inputs histories", "all setters, all values, both states",
  "Dozens of setter/state/value combinations; tests probe two or three.",
  GE + "GElement.cpp GraphCtrl/GraphPipeline/GPipeline.cpp GraphCtrl/GraphPipeline/GPipeline.inl", [("initialised-state guard at the head of every setter", GE + "GElement.cpp"), ("the same for the pipeline", "GraphCtrl/GraphPipeline/GPipeline.cpp")])
p("C13", "Suspend, resume and cancel reach every element and lose no wake-up",
  "A state change requested on a running pipeline is applied to all of its elements; an element suspended between two iterations blocks until the pipeline leaves the suspended state and then always continues, and after a cancel no element starts another iteration. The next run starts with all elements back in the normal state.",
  "schedules histories", "all interleavings of the controlling thread with the elements' threads, all sequences of state changes",
  "The window between an element's check and its sleep is too small for tests to hit.",
  GE + "GElementRepository.cpp " + GE + "GElement.cpp GraphCtrl/GraphPipeline/GPipeline.cpp", [("state pushed to every element, then notified", GE + "GElementRepository.cpp"), ("state re-checked under the element's lock", GE + "GElement.cpp")])
p("C14", "Element timeouts: error or background completion, as configured",
  "An element with a timeout that finishes in time yields its own status; one that does not either yields an error or is put into the timed-out state, as configured, and in the latter case elements held by the pipeline are waited for before the run returns while the others are not. A timed-out state never carries over into the next run, and a timed-out group makes all elements nested in it count as timed out.",
  "schedules histories inputs", "all completion times relative to the deadline, all strategies, all nesting depths",
  "Timing dependent; tests use one generous margin on each side.",
  GE + "GElement.cpp " + GE + "GElementRepository.cpp", [("asynchronous execution with a bounded wait", GE + "GElement.cpp"), ("held results collected, states reset", GE + "GElementRepository.cpp")])
p("C15", "A pipeline run performs setup, execution and reset in order",
  "Each pipeline run requires a previous successful initialisation, first restores parameters and element states, then executes the elements, then resets parameters and collects held asynchronous results, also when the execution failed, and reports the first error. Processing with a repeat count performs one initialisation, at most that many runs (stopping at the first failed one) and one destruction, and returns the first error.",
  "inputs histories", "all results of the individual phases, all repeat counts",
  "Failure of each phase in each position is not something the tests inject.",
  "GraphCtrl/GraphPipeline/GPipeline.cpp", [("run/process orchestration", "GraphCtrl/GraphPipeline/GPipeline.cpp")])
p("C16", "The pipeline manager hands out each pipeline to one holder at a time",
  "At any time every pipeline added to a pipeline manager is either free or in use, never both, never lost and never duplicated; fetching returns a free pipeline and marks it used (or reports that none is free), releasing a used one makes it fetchable again and releasing one that is not in use is refused. This holds under concurrent fetches and releases.",
  "schedules histories", "all histories of add/fetch/release/remove from any number of threads",
  "Tests fetch from a fixed pool with a fixed number of threads and never inspect the partition.",
  "GraphCtrl/GraphPipeline/GPipelineManager.cpp", [("two lists guarded by one mutex", "GraphCtrl/GraphPipeline/GPipelineManager.cpp")])
p("C17", "Parameter store maps each key to one parameter of one type",
  "Creating a parameter under a new key makes exactly that parameter retrievable under that key until it is removed, creating it again under the same type changes nothing, and creating it under another type or removing an unknown key is an error that leaves the store unchanged. Retrieval with a wrong key or type yields nothing; every run sets up every parameter before the elements start and resets every parameter afterwards.",
  "inputs histories schedules", "all histories of create/get/remove with arbitrary keys and types",
  "The map semantics over arbitrary histories, and concurrent creation of the same key, are not testable by samples.",
  "GraphCtrl/GraphParam/GParamManager.cpp GraphCtrl/GraphParam/GParamManager.h", [("key map guarded by a mutex", "GraphCtrl/GraphParam/GParamManager.cpp")])
p("C18", "Events trigger their handler once per trigger, waits cover them all",
  "Triggering a registered event synchronously runs its handler exactly once before the call returns; triggering it asynchronously schedules the handler exactly once and yields a handle that becomes ready when it has finished; waiting for an event's asynchronous work, and the end of a run, wait for all of the triggers issued so far that are held by the pipeline. Triggering an unknown event is an error.",
  "schedules histories", "all histories and interleavings of triggers and waits",
  "Interleavings of trigger and wait are not controlled by tests.",
  "GraphCtrl/GraphEvent/GEvent.cpp GraphCtrl/GraphEvent/GEventManager.cpp", [("futures collected under a lock", "GraphCtrl/GraphEvent/GEvent.cpp")])
p("C19", "A stage releases its waiters exactly when all participants arrived",
  "No participant of a stage with threshold N returns from a round before N participants of that round have arrived; the N-th arrival releases all N, the stage's action runs exactly once per round, and the stage can be reused for any number of rounds by the same or other threads without a participant being left waiting.",
  "schedules histories", "all interleavings of any number of participants over any number of rounds",
  "Re-entering the next round before a slow waiter has woken needs a schedule tests do not force.",
  "GraphCtrl/GraphStage/GStage.h GraphCtrl/GraphStage/GStageManager.h", [("arrival counter and condition variable", "GraphCtrl/GraphStage/GStage.h")])
p("C20", "Message topics deliver every accepted message once and in order",
  "A bounded topic delivers to its receivers exactly the accepted messages, each once and in the order they were sent, never holds more than its capacity, and when it is full behaves as its policy says: block the sender, overwrite the oldest message, or discard the new one. A receiver with a timeout gets an error only if no message was available in time.",
  "schedules histories inputs", "all interleavings of senders and receivers, all capacities and policies",
  "Order and exactly-once over all interleavings and wrap-arounds cannot be sampled.",
  "UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h GraphCtrl/GraphMessage/GMessageManager.h GraphCtrl/GraphMessage/GMessage.h", [("ring buffer with head and tail under one mutex", "UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h")])
p("C21", "Publishing reaches every current subscriber and no released one",
  "A published message is delivered to every connection bound to the topic at that time, independently of the others, and to nothing else; after a connection is detached or a topic dropped, its queue is never touched again and using its id is refused. Publishing to a topic nobody is bound to is an error.",
  "histories inputs", "all histories of bind, detach, publish, subscribe, drop and clear",
  "Use after release only shows in specific sequences of operations that the tests do not contain.",
  "GraphCtrl/GraphMessage/GMessageManager.h", [("topic to connections and connection to queue maps", "GraphCtrl/GraphMessage/GMessageManager.h")])
p("C22", "The thread pool executes every accepted task exactly once",
  "Every task handed to a running thread pool, through any submission call and to any index, is stored in exactly one queue, and removed from it exactly once by exactly one worker, which executes it; no queue operation loses, duplicates or invents a task, whatever the interleaving of owners, thieves and submitters. Local queues hand out tasks in submission order to their owner and from the opposite end to thieves.",
  "schedules inputs", "all interleavings of submitters, owners and thieves, all indices and configurations",
  "Loss or duplication needs interleavings inside one queue operation.",
  TP + "UThreadPool.inl " + TP + "UThreadPool.cpp " + TP + "Queue/UWorkStealingQueue.h " + TP + "Queue/UAtomicQueue.h " + TP + "Queue/UAtomicPriorityQueue.h " + TP + "Thread/UThreadPrimary.h " + TP + "Thread/UThreadSecondary.h " + TP + "Thread/UThreadBase.h",
  [("mutex protected queues", TP + "Queue/UAtomicQueue.h"), ("routing by index", TP + "UThreadPool.inl")])
p("C23", "The number of pool threads stays within its limits",
  "A pool starts exactly the configured default number of primary threads, never has more threads than its configured maximum however many callers ask for secondary threads concurrently, and refuses inconsistent configurations and requests to release more secondary threads than there are. Steal targets and dispatch indices always denote existing threads.",
  "schedules inputs configurations", "all configurations, all concurrent requests for extra threads",
  "Exceeding the maximum needs two concurrent requests; tests issue them one by one.",
  TP + "UThreadPool.cpp " + TP + "UThreadPoolConfig.h " + TP + "Thread/UThreadPrimary.h", [("room computed from the maximum under the secondary-thread lock", TP + "UThreadPool.cpp"), ("steal range derived from the configuration", TP + "UThreadPoolConfig.h")])
p("C24", "Priority tasks are taken highest priority first",
  "Among the priority tasks waiting in the pool, a secondary thread always takes one of the highest priority, and no priority task is ever taken twice or lost.",
  "inputs schedules", "all sequences of priorities and takes",
  "Ordering over all sequences is not sampled; the tests never look at the order.",
  TP + "Queue/UAtomicPriorityQueue.h " + TP + "Task/UTask.h", [("priority queue ordered by task priority", TP + "Queue/UAtomicPriorityQueue.h")])
p("C25", "Submitting a task group waits for every task or reports the timeout",
  "Submitting a task group runs every task of the group exactly once, returns success only if all of them finished within the smaller of the group's and the call's time limit, and otherwise an error; the finish callback is invoked exactly once with the status that is returned.",
  "schedules inputs", "all group sizes, limits, completion times",
  "Completion times around the limit and status precedence are not controllable in tests.",
  TP + "UThreadPool.cpp " + TP + "Task/UTaskGroup.h", [("one future per task, common deadline", TP + "UThreadPool.cpp")])
p("C26", "Statuses combine by keeping the first error",
  "Combining statuses keeps the first error with its code and message and ignores everything after it; combining successes yields success; a status is an error exactly when its code is negative, success exactly when it is zero, and a crash exactly for the reserved crash code. Copying or assigning a status preserves code and message of the source whenever the two codes differ.",
  "inputs", "all pairs and sequences of statuses",
  "All code/message combinations and sequences are beyond samples.",
  "CBasic/CStatus.h", [("status class operators", "CBasic/CStatus.h")])
p("C27", "Insertion-ordered unique containers behave like ordered sets",
  "The small vector and the unique array used for adjacency lists and registries contain each value at most once, keep insertion order, report membership exactly, and removing a value removes exactly that value and keeps the order of the rest; growing beyond the inline capacity changes nothing observable.",
  "inputs histories", "all histories of insert, remove, clear, copy and query of any length",
  "Histories crossing the inline capacity with removals in between are not enumerated by tests.",
  "UtilsCtrl/Container/USmallVector.h UtilsCtrl/Container/USerialUniqueArray.h", [("inline buffer plus overflow storage", "UtilsCtrl/Container/USmallVector.h")])
p("C28", "The LRU cache keeps the most recently used entries",
  "The cache never holds more entries than its capacity; looking up a key returns the value last stored under it as long as fewer than capacity other keys were used since, and inserting into a full cache evicts exactly the entry used longest ago.",
  "inputs histories", "all histories of put and get over arbitrary keys and capacities",
  "Eviction order over all histories is not sampled.",
  "UtilsCtrl/Lru/ULru.h", [("recency list plus key map", "UtilsCtrl/Lru/ULru.h")])
p("C29", "Trimming removes exactly the redundant dependencies",
  "Trimming a graph removes only dependencies that are implied by the remaining ones, never changes which elements (transitively) precede which, leaves no implied dependency behind, and reports the number of removed ones.",
  "inputs", "all DAGs",
  "Transitive reduction over all DAGs cannot be sampled.",
  GE + "_GOptimizer/GTrimOptimizer.h " + GE + "_GOptimizer/GOptimizer.h " + GE + "GElementManager.cpp", [("path matrix and edge elimination", GE + "_GOptimizer/GTrimOptimizer.h")])
p("C30", "The maximum parallelism reported is the true maximum",
  "The reported maximum parallelism of a graph equals the size of the largest set of elements that are pairwise unordered by the dependencies.",
  "inputs", "all DAGs without groups",
  "Equality with a combinatorial optimum over all DAGs cannot be sampled.",
  GE + "_GOptimizer/GMaxParaOptimizer.h", [("minimum path cover by bipartite matching", GE + "_GOptimizer/GMaxParaOptimizer.h")])
p("C31", "Two elements reported separate can never run at the same time",
  "When a pipeline reports that two of its elements are separate, no run executes them at the same time.",
  "inputs schedules", "all graphs with nested groups, all pairs",
  "Soundness against every schedule of every nested graph is not testable.",
  GE + "_GOptimizer/GSeparateOptimizer.h GraphCtrl/GraphPipeline/GPipeline.cpp", [("lowest common owner and path search", GE + "_GOptimizer/GSeparateOptimizer.h")])
p("C32", "Saving and loading a pipeline restores the same graph",
  "Loading what was saved from a pipeline of registered element types yields a pipeline with the same elements, kinds, names, levels, loops, dependencies, groups, aspects, parameters, events, stages and pool settings.",
  "inputs", "all savable pipelines (C++17 builds)",
  "Round trip over all graphs; the tests round-trip one.",
  "GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h", [("serialised description and factory", "GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp")])
p("C33", "Timers fire periodically until stopped and never afterwards",
  "A started timer (and every daemon of an initialised pipeline) invokes its task repeatedly until it is stopped, with at least the configured interval, or the one its modify function asked for, between the clock readings taken before consecutive invocations. Stopping waits for a running invocation but not for the interval; once it has returned the task is never invoked again. Starting a running timer or stopping a stopped one changes nothing.",
  "schedules histories", "all interleavings of start, stop and ticks",
  "Interleavings of stop with a tick are not controlled by tests.",
  "UtilsCtrl/Timer/UTimer.h GraphCtrl/GraphDaemon/GDaemon.cpp GraphCtrl/GraphDaemon/GDaemonManager.cpp", [("timer thread joined by stop", "UtilsCtrl/Timer/UTimer.h")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        for a in x["anchors"]["files"]:
            assert os.path.exists("/repo/" + a), a
        for m in x["anchors"]["mechanism"] + x["anchors"]["state"]:
            assert os.path.exists("/repo/" + m["where"]), m
    print(len(P))
