#include "graph.h"
// a pool, several submitters using every submission call; every task runs exactly once and its result reaches its future
namespace { struct Cnt { std::atomic<int> n{0}; }; }
static UThreadPoolConfig conf(ds::Rng& rng, int& prim) {
    UThreadPoolConfig c; prim = rng.range(1, 3); c.default_thread_size_ = prim; c.secondary_thread_size_ = rng.range(0, 1); c.max_thread_size_ = prim + c.secondary_thread_size_ + rng.range(0, 2); c.batch_task_enable_ = rng.chance(50); c.monitor_enable_ = false;
    c.max_task_steal_range_ = rng.range(0, 3); c.max_local_batch_size_ = rng.range(1, 3); c.max_pool_batch_size_ = rng.range(1, 3); c.max_steal_batch_size_ = rng.range(1, 3); c.deliver_running_primary_thread_enable_ = rng.chance(50); c.primary_thread_busy_epoch_ = rng.range(1, 3); return c; }
SCHED(pool) {
    ds::ds_hang_key("lost_task"); int prim; UThreadPoolConfig c = conf(rng, prim); UThreadPool tp(false, c); EXPECT(tp.init().isOK(), "init");
    int S = rng.range(1, 2), n = rng.range(1, 6); bool sec = c.max_thread_size_ > prim; ds::descr = ds::fmt("%d primary, %d secondary, max %d, batch %d, %d submitters of %d tasks", prim, c.secondary_thread_size_, c.max_thread_size_, c.batch_task_enable_, S, n);
    std::vector<Cnt> ran(S * n); std::vector<std::thread> th; uint64_t base = rng.next(); std::atomic<int> left{S * n};
    for (int s = 0; s < S; ++s) th.emplace_back([&, s] { ds::Rng r(base + s); std::vector<std::pair<int, std::future<void>>> fu; int i = 0;
        while (i < n) { int id = s * n + i, how = r.below(6); auto f = [&ran, &left, id] { ran[id].n++; ds::ds_point(); left--; };
            switch (how) {
                case 0: fu.emplace_back(id, tp.commit(f)); break;
                case 1: fu.emplace_back(id, tp.commit(f, r.range(-1, prim + 1))); break;
                case 2: tp.execute(f, r.range(0, prim + 1)); break;
                case 3: if (sec) { fu.emplace_back(id, tp.commitWithPriority(std::function<void()>(f), r.range(-5, 5))); } else tp.execute(f); break;
                case 4: { int t = r.range(0, prim), k = std::min(n - i, (int) r.range(1, 3)); if (k == 1) { tp.executeWithTid(f, t, true, true); tp.executeWithTid([] {}, t, true, false); break; }
                    for (int j = 0; j < k; ++j) { int d = s * n + i + j; tp.executeWithTid([&ran, &left, d] { ran[d].n++; left--; }, t, j == 0 || j == k - 1, j == 0); } i += k - 1; break; }
                default: { UTaskGroup g; g.addTask(f); CStatus st = tp.submit(g); EXPECTK("submit", st.isOK() && ran[id].n == 1, "submit returned %d before its task ran", st.getCode()); } }
            ++i; }
        for (auto& x : fu) { x.second.wait(); EXPECTK("future", ran[x.first].n == 1, "the future of a task is ready, it ran %d times", (int) ran[x.first].n); } });
    for (auto& t : th) t.join(); for (int k = 0; left > 0; ++k) { EXPECTK("lost_task", k < 30, "%d of %d tasks never ran", (int) left, S * n); std::this_thread::sleep_for(std::chrono::milliseconds(500)); }
    std::this_thread::sleep_for(std::chrono::milliseconds(10));
    for (int i = 0; i < S * n; ++i) EXPECTK("once", ran[i].n == 1, "task %d ran %d times", i, (int) ran[i].n);
    EXPECT(tp.destroy().isOK(), "destroy"); ds::ds_note(S * 100 + n); }
// the queues alone: one owner, thieves, submitters
SCHED(queue) {
    ds::ds_hang_key("queue_hang"); UWorkStealingQueue<UTask> q; int n = rng.range(1, 6), T = rng.range(1, 2); std::vector<Cnt> ran(n); std::vector<int> own, st[2]; std::vector<std::thread> th; std::atomic<int> done{0}; uint64_t base = rng.next();
    ds::descr = ds::fmt("work-stealing queue, %d tasks, %d thieves", n, T); int last = -1;
    std::atomic<int> cur{-1};
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] { ds::Rng r(base + t); for (int k = 0; k < 4; ++k) { if (r.chance(50)) { UTask x; if (q.trySteal(x)) { x(); done++; } } else { std::vector<UTask> v; if (q.trySteal(v, r.range(1, 3))) for (auto& x : v) { x(); done++; } } } });
    std::thread ow([&] { ds::Rng r(base + 7); for (int k = 0; k < 4; ++k) { if (r.chance(50)) { UTask x; if (q.tryPop(x)) { x(); done++; } } else { std::vector<UTask> v; if (q.tryPop(v, r.range(1, 3))) for (auto& x : v) { x(); done++; } } } });
    for (int i = 0; i < n; ++i) { auto f = [&ran, i] { ran[i].n++; }; if (rng.chance(50)) q.push(UTask(std::move(f))); else { if (!q.tryPush(UTask(std::move(f)))) q.push(UTask([&ran, i] { ran[i].n++; })); } }
    for (auto& t : th) t.join(); ow.join();
    UTask x; while (q.tryPop(x)) { x(); done++; } (void) last;
    EXPECTK("queue_count", done == n, "%d of %d tasks handed out", (int) done, n); for (int i = 0; i < n; ++i) EXPECTK("queue_once", ran[i].n == 1, "task %d handed out %d times", i, (int) ran[i].n); ds::ds_note(n * 10 + T); }
SCENARIO(order) {
    UWorkStealingQueue<UTask> q; int n = rng.range(0, 9), lo = 0, hi = n; std::vector<int> got; for (int i = 0; i < n; ++i) q.push(UTask([&got, i] { got.push_back(i); }));
    ds::descr = ds::fmt("%d tasks", n);
    while (lo < hi || rng.chance(50)) { bool front = rng.chance(50), batch = rng.chance(50); int k = rng.range(1, 4), have = hi - lo; got.clear(); bool ok; int want = batch ? std::min(k, have) : std::min(1, have);
        if (batch) { std::vector<UTask> v; ok = front ? q.tryPop(v, k) : q.trySteal(v, k); for (auto& x : v) x(); } else { UTask x; ok = front ? q.tryPop(x) : q.trySteal(x); if (ok) x(); }
        EXPECTK("ok", ok == (have > 0), "%s of %d tasks returned %d", front ? "tryPop" : "trySteal", have, ok); EXPECTK("amount", (int) got.size() == want, "got %d instead of %d", (int) got.size(), want);
        for (int x : got) { int e = front ? lo++ : --hi; EXPECTK("order", x == e, "%s handed out %d instead of %d", front ? "owner" : "thief", x, e); } } }
SCHED(atomic_queue) {
    ds::ds_hang_key("aq_hang"); UAtomicQueue<UTask> q; int n = rng.range(1, 5), T = rng.range(1, 2); std::vector<Cnt> ran(n); std::atomic<int> done{0}; std::vector<std::thread> th; uint64_t base = rng.next(); ds::descr = ds::fmt("pool queue, %d tasks, %d takers", n, T);
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] { ds::Rng r(base + t); for (int k = 0; k < 4; ++k) switch (r.below(4)) { case 0: { UTask x; if (q.tryPop(x)) { x(); done++; } break; } case 1: { std::vector<UTask> v; if (q.tryPop(v, r.range(1, 3))) for (auto& x : v) { x(); done++; } break; }
        case 2: { auto p = q.tryPop(); if (p) { (*p)(); done++; } break; } default: { auto p = q.popWithTimeout(5); if (p) { (*p)(); done++; } } } });
    for (int i = 0; i < n; ++i) q.push(UTask([&ran, i] { ran[i].n++; }));
    for (auto& t : th) t.join(); UTask x; while (q.tryPop(x)) { x(); done++; }
    EXPECTK("aq_count", done == n, "%d of %d tasks handed out", (int) done, n); for (int i = 0; i < n; ++i) EXPECTK("aq_once", ran[i].n == 1, "task %d handed out %d times", i, (int) ran[i].n); ds::ds_note(n * 10 + T); }
