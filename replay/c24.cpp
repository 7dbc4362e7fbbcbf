#include "graph.h"
// priority queue against a sorted reference, and a pool with one secondary thread
SCENARIO(queue) {
    UAtomicPriorityQueue<UTask> q; std::vector<std::pair<int, int>> ref; std::vector<int> got; int steps = rng.range(1, 20), id = 0; std::string d;
    for (int s = 0; s < steps; ++s) {
        if (rng.chance(60)) { int p = rng.range(-3, 3) * (rng.chance(10) ? 100 : 1); int me = id++; q.push(UTask([&got, me] { got.push_back(me); }), p); ref.emplace_back(p, me); d += ds::fmt("push %d; ", p); }
        else { bool batch = rng.chance(40); int k = batch ? rng.range(1, 3) : 1, want = std::min(k, (int) ref.size()); got.clear(); bool ok; d += ds::fmt("take %d; ", k); ds::descr = d;
            if (batch) { std::vector<UTask> v; ok = q.tryPop(v, k); for (auto& x : v) x(); } else { UTask x; ok = q.tryPop(x); if (ok) x(); }
            EXPECTK("ok", ok == (want > 0), "tryPop returned %d with %d tasks", ok, (int) ref.size()); EXPECTK("amount", (int) got.size() == want, "%d tasks instead of %d", (int) got.size(), want);
            for (int g : got) { int best = -1000000, mine = 0, at = -1; for (size_t i = 0; i < ref.size(); ++i) { best = std::max(best, ref[i].first); if (ref[i].second == g) { mine = ref[i].first; at = (int) i; } }
                EXPECTK("once", at >= 0, "a task was handed out twice"); EXPECTK("highest", mine == best, "priority %d handed out while %d was waiting", mine, best); ref.erase(ref.begin() + at); } } } }
SCHED(pool) {
    ds::ds_hang_key("never_taken"); UThreadPoolConfig c; c.default_thread_size_ = rng.range(0, 1); c.secondary_thread_size_ = rng.below(2); c.max_thread_size_ = c.default_thread_size_ + 1; c.batch_task_enable_ = rng.chance(50); c.monitor_enable_ = false; UThreadPool tp(false, c); EXPECT(tp.init().isOK(), "init");
    int n = rng.range(1, 5); ds::descr = ds::fmt("%d primary, %d initial secondary, batch %d, %d priority tasks", c.default_thread_size_, c.secondary_thread_size_, c.batch_task_enable_, n);
    std::mutex gate; std::atomic<int> ran{0}; std::vector<int> pr(n), seen; std::atomic<bool> open{false}, started{false};
    // the only secondary thread is kept busy by a first task while the others are submitted
    auto first = tp.commitWithPriority(std::function<void()>([&] { started = true; while (!open) std::this_thread::sleep_for(std::chrono::milliseconds(1)); }), 0); while (!started) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    std::vector<std::future<void>> fs; for (int i = 0; i < n; ++i) { int p = pr[i] = rng.range(-3, 3); fs.push_back(tp.commitWithPriority(std::function<void()>([&, p] { ran++; seen.push_back(p); }), p)); }
    open = true; for (auto& f : fs) f.wait(); EXPECTK("ran", ran == n, "%d of %d ran", (int) ran, n); for (int i = 1; i < n; ++i) EXPECTK("order", seen[i - 1] >= seen[i], "priority %d ran before %d", seen[i - 1], seen[i]);
    EXPECT(tp.destroy().isOK(), "destroy"); ds::ds_note(n); }
