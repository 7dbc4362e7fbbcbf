#include "graph.h"
#include <climits>
// the number of threads of a pool, its configuration, dispatch indices and steal targets
static UThreadPoolConfig conf(ds::Rng& rng, int d, int s, int m) { UThreadPoolConfig c; c.default_thread_size_ = d; c.secondary_thread_size_ = s; c.max_thread_size_ = m; c.batch_task_enable_ = rng.chance(50); c.monitor_enable_ = false; c.max_task_steal_range_ = rng.range(-1, 6); c.deliver_running_primary_thread_enable_ = rng.chance(50); c.primary_thread_busy_epoch_ = rng.range(1, 3); return c; }
static int pick(ds::Rng& r, const std::vector<int>& v) { return v[r.below((int) v.size())]; }
static int nsec(UThreadPool& tp) { std::lock_guard<std::mutex> lk(tp.st_mutex_); return (int) tp.secondary_threads_.size(); }
SCHED(limit) {
    ds::ds_hang_key("pool_hang"); int d = rng.range(0, 2), s = rng.range(0, 1), m = std::max(1, d + s + (int) rng.range(0, 2)); UThreadPool tp(false, conf(rng, d, s, m)); EXPECT(tp.init().isOK(), "init");
    EXPECTK("primaries", (int) tp.primary_threads_.size() == d && nsec(tp) == s, "%d primary threads instead of %d, %d secondary instead of %d", (int) tp.primary_threads_.size(), d, nsec(tp), s);
    int T = rng.range(2, 3), K = rng.range(1, 3); ds::descr = ds::fmt("%d primary, %d secondary, max %d; %d callers", d, s, m, T); std::vector<std::thread> th; uint64_t base = rng.next();
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] { ds::Rng r(base + t); for (int k = 0; k < K; ++k) {
        switch (r.below(6)) {
            case 0: case 1: tp.createSecondaryThread(r.range(-1, 3)); break;
            case 2: tp.commitWithPriority(std::function<void()>([] {}), 1); break;
            case 3: tp.execute([] {}, CGRAPH_TRIGGER_ALL_THREAD_STRATEGY); break;
            case 4: tp.releaseSecondaryThread(r.range(0, 2)); break;
            default: tp.execute([] {}, r.range(-2, 3)); }
        int n = nsec(tp); EXPECTK("limit", d + n <= m, "%d primary and %d secondary threads, at most %d allowed", d, n, m); } });
    for (auto& t : th) t.join();
    EXPECT((int) tp.primary_threads_.size() == d, "primaries changed"); EXPECT(tp.destroy().isOK(), "destroy"); ds::ds_note(d * 100 + s * 10 + m); }
SCENARIO(config) {
    auto v = [&] { return (int) pick(rng, std::vector<int>{-1, 0, 0, 1, 1, 2, 3, 5}); }; UThreadPoolConfig c; c.default_thread_size_ = v(); c.secondary_thread_size_ = v(); c.max_thread_size_ = v(); c.monitor_enable_ = rng.chance(50); c.monitor_span_ = rng.range(-1, 2);
    bool ok = c.default_thread_size_ >= 0 && c.secondary_thread_size_ >= 0 && c.default_thread_size_ + c.secondary_thread_size_ <= c.max_thread_size_ && !(c.monitor_enable_ && c.monitor_span_ <= 0);
    ds::descr = ds::fmt("default %d, secondary %d, max %d, monitor %d every %d", c.default_thread_size_, c.secondary_thread_size_, c.max_thread_size_, c.monitor_enable_, (int) c.monitor_span_);
    UThreadPool tp(false); UThreadPoolConfig o = tp.getConfig(); CStatus st = tp.setConfig(c); EXPECTK("refuse", st.isOK() == ok, "%s configuration was %s", ok ? "a consistent" : "an inconsistent", st.isOK() ? "accepted" : "refused");
    UThreadPoolConfig n = tp.getConfig(); EXPECTK("kept", n.default_thread_size_ == (ok ? c : o).default_thread_size_ && n.max_thread_size_ == (ok ? c : o).max_thread_size_ && n.secondary_thread_size_ == (ok ? c : o).secondary_thread_size_, "the configuration in force is not the one expected");
    UThreadPool tq(false, c); n = tq.getConfig(); EXPECTK("ctor", n.default_thread_size_ + n.secondary_thread_size_ <= n.max_thread_size_ && n.default_thread_size_ >= 0 && n.secondary_thread_size_ >= 0, "a pool was made with an inconsistent configuration"); ds::ds_note(ok); }
SCENARIO(indices) {
    int d = rng.range(0, 4), m = std::max(1, d + (int) pick(rng, std::vector<int>{0, 1, 2, 100, 120})); UThreadPool tp(false, conf(rng, d, 0, m)); EXPECT(tp.init().isOK(), "init");
    ds::descr = ds::fmt("%d primary, max %d, range %d", d, m, tp.config_.max_task_steal_range_);
    for (int i = 0; i < d; ++i) { auto* p = tp.primary_threads_[i]; EXPECTK("index", p && p->index_ == i, "thread %d has index %d", i, p ? p->index_ : -9); int want = std::max(0, std::min(tp.config_.max_task_steal_range_, d - 1)); EXPECTK("targets", (int) p->steal_targets_.size() == want, "%d steal targets instead of %d", (int) p->steal_targets_.size(), want);
        for (int t : p->steal_targets_) EXPECTK("targets", t >= 0 && t < d && t != i, "thread %d steals from %d of %d", i, t, d); }
    tp.cur_index_ = pick(rng, std::vector<int>{0, INT_MAX - 3, INT_MIN, -1, -5});
    for (int k = 0; k < 8; ++k) { int x = tp.dispatch(CGRAPH_DEFAULT_TASK_STRATEGY); EXPECTK("dispatch", (x >= 0 && x < m) || x == CGRAPH_TRIGGER_ALL_THREAD_STRATEGY, "a task is dispatched to index %d of %d", x, m); }
    int o = pick(rng, std::vector<int>{0, 1, 7, CGRAPH_POOL_TASK_STRATEGY, CGRAPH_LONG_TIME_TASK_STRATEGY, CGRAPH_TRIGGER_ALL_THREAD_STRATEGY}); EXPECTK("dispatch", tp.dispatch(o) == o, "the chosen index %d was changed", o);
    EXPECT(tp.destroy().isOK(), "destroy"); ds::ds_note(d * 10 + (m > 100)); }
SCENARIO(release) {
    int d = rng.range(0, 2), room = rng.range(0, 4), s = rng.range(0, room); UThreadPool tp(false, conf(rng, d, s, std::max(1, d + room))); if (d + room == 0) room = 1; EXPECT(tp.init().isOK(), "init"); int live = s, gone = 0;
    for (int k = 0; k < 4; ++k) { int x = rng.range(-1, 4); if (rng.chance(50)) { EXPECT(tp.createSecondaryThread(x).isOK(), "create"); live += std::max(0, std::min(x, room - live - gone)); EXPECTK("created", nsec(tp) == live + gone, "%d secondary threads, %d expected (asked for %d, room %d)", nsec(tp), live + gone, x, room); }
        else { gone = 0; CStatus st = tp.releaseSecondaryThread(x); EXPECTK("release", st.isErr() == (x > live), "releasing %d of %d threads returned %d", x, live, st.getCode()); if (st.isOK()) { int g = std::max(0, x); EXPECTK("released", nsec(tp) == live, "%d threads are left, %d expected", nsec(tp), live); live -= g; gone = g; } 
            int marked = 0; for (auto& t : tp.secondary_threads_) marked += !t->done_; EXPECTK("marked", marked == gone, "%d threads are told to finish, %d expected", marked, gone); } }
    EXPECT(tp.destroy().isOK(), "destroy"); ds::ds_note(live); }
