#include "graph.h"
// task groups with random durations and limits on pools of random size
SCHED(groups) {
    ds::ds_hang_key("never_returns"); ds::ds_early(0); int th = rng.range(1, 4), n = rng.below(6), pre = rng.below(2); long ttls[] = {0, 5, 20, 60, 1999999999L}; long gt = ttls[rng.below(5)], ct = ttls[rng.below(5)], lim = gt < ct ? gt : ct; int how = rng.below(3); bool cb = rng.chance(70), boom = rng.chance(15);
    UThreadPoolConfig cf; cf.default_thread_size_ = th; cf.secondary_thread_size_ = 0; cf.max_thread_size_ = th; cf.monitor_enable_ = false; UThreadPool p(false, cf);
    std::atomic<int> runs[8], ended[8]; std::atomic<long> at[8]; for (auto& a : runs) a = 0; for (auto& a : ended) a = 0; for (auto& a : at) a = -1; std::atomic<int> cbs{0}, cbcode{7}; std::vector<int> dur; if (how == 2) n = 1;
    ds::descr = ds::fmt("%d threads, %d tasks, group limit %ld, call limit %ld, way %d, callback %d:", th, n, gt, ct, how, cb); for (int i = 0; i < n; ++i) { dur.push_back(rng.chance(40) ? 0 : rng.range(1, 40)); ds::descr += ds::fmt(" %dms", dur[i]); }
    auto task = [&](int i) { return [&, i]() { EXPECTK("twice", ++runs[i] == 1, "task %d ran twice", i); if (dur[i]) std::this_thread::sleep_for(std::chrono::milliseconds(dur[i])); else ds::ds_point(); at[i] = ds::ds_now_us(); ended[i] = 1; if (boom && i == 0) throw CException("task"); }; };
    CGRAPH_CALLBACK_FUNCTION fin = nullptr; if (cb) fin = [&](CStatus s) { cbs++; cbcode = s.getCode(); };
    { UTaskGroup g; CStatus st = p.submit(g); EXPECTK("uninit", st.isErr(), "a pool that is not initialised accepted a group"); }
    EXPECT(p.init().isOK(), "init"); if (pre) p.commit([] { ds::ds_point(); }); long t0 = ds::ds_now_us(); CStatus st;
    if (how == 2) { lim = ct; st = p.submit(task(0), ct, fin); } else { UTaskGroup g; for (int i = 0; i < n; ++i) g.addTask(task(i)); g.setTtl(gt)->setOnFinished(fin); EXPECT((int) g.getSize() == n, "size"); st = how ? p.submit(g) : p.submit(g, ct); if (how) lim = gt; }
    long t1 = ds::ds_now_us(); long last = -1; bool all = true; for (int i = 0; i < n; ++i) { all = all && ended[i]; }
    if (st.isOK()) EXPECTK("early", all, "success although a task has not finished");
    EXPECTK("callback", cbs == (cb ? 1 : 0), "callback ran %d times", (int) cbs); if (cb) EXPECTK("callback_status", cbcode == st.getCode(), "callback got %d, returned %d", (int) cbcode, st.getCode());
    p.destroy(); for (int i = 0; i < n; ++i) { if (st.isOK()) EXPECTK("once", runs[i] == 1, "task %d ran %d times", i, (int) runs[i]); if (at[i] > last) last = at[i]; if (at[i] < 0) last = 1L << 60; }
    if (st.isErr()) { EXPECTK("false_alarm", last >= t0 + lim * 1000, "an error although every task had finished %ld us after the start, limit %ld ms", last - t0, lim); EXPECTK("gave_up_early", t1 >= t0 + lim * 1000, "gave up after %ld us, limit %ld ms", t1 - t0, lim); }
    else EXPECTK("late", last <= t0 + lim * 1000 + 3000000 || lim > 1000000, "success although a task finished %ld us after the start, limit %ld ms", last - t0, lim); ds::ds_note(st.getCode() * 1000 + n * 10 + th);
}
