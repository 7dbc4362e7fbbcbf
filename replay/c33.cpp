#include "graph.h"
// timers and daemons: random intervals, task durations and modified intervals
SCHED(timer) {
    ds::ds_hang_key("never_returns"); ds::ds_early(0); long iv = rng.range(1, 60); bool mod = rng.chance(40); int rounds = rng.range(1, 3); ds::descr = ds::fmt("interval %ld ms, %d rounds, modify %d", iv, rounds, mod);
    UTimer t; std::atomic<long> begin{-1}, need{0}, limit{0}; std::atomic<int> runs{0}, busy{0}; std::atomic<bool> stopped{true}; std::vector<int> dur, ms; for (int i = 0; i < 400; i++) { dur.push_back(rng.chance(50) ? 0 : rng.range(1, 80)); ms.push_back(mod && rng.chance(50) ? rng.range(0, 90) : 0); }
    std::atomic<long> longest{0};
    auto task = [&] { long now = ds::ds_now_us(); EXPECTK("after_stop", !stopped, "the task was called after stop had returned"); EXPECTK("overlap", ++busy == 1, "two calls at once"); int k = runs++ % 400; EXPECTK("interval", now >= need - 1000, "call %d after %ld us, not before %ld us", k, now, (long) need);
        begin = now; if (dur[k]) std::this_thread::sleep_for(std::chrono::milliseconds(dur[k])); else ds::ds_point(); busy--; };
    auto modify = [&]() -> CMSec { int k = (runs - 1) % 400; long now = ds::ds_now_us(); need = ms[k] > 0 ? now + ms[k] * 1000 : 0; if (ms[k] <= 0) need = begin + iv * 1000 - 3000; return ms[k]; };
    t.stop(); for (int r = 0; r < rounds; r++) {
        long t0 = ds::ds_now_us(); need = t0 + iv * 1000; stopped = false; int before = runs; t.start(iv, task, modify); if (rng.chance(30)) t.start(1, [&] { EXPECTK("second_start", false, "the task of a second start was called"); }, [] { return (CMSec) 0; });
        long pause = rng.chance(20) ? 0 : rng.range(1, 300); if (pause) std::this_thread::sleep_for(std::chrono::milliseconds(pause)); else ds::ds_point();
        long t1 = ds::ds_now_us(); t.stop(); long t2 = ds::ds_now_us(); stopped = true; int after = runs; if (rng.chance(30)) t.stop(); (void) before;
        EXPECTK("slow_stop", t2 - t1 < 200000 || iv < 200, "stopping took %ld us", t2 - t1); std::this_thread::sleep_for(std::chrono::milliseconds(rng.range(1, 200))); EXPECTK("after_stop", runs == after, "%d calls after stop had returned", (int) runs - after); ds::ds_note(after - before);
    }
}
SCHED(prompt) {
    // an hour-long interval: stopping must not wait for it
    ds::ds_hang_key("never_returns"); ds::ds_early(0); UTimer t; std::atomic<int> runs{0}; int pause = rng.below(4); ds::descr = ds::fmt("pause %d", pause); t.start(3600000, [&] { runs++; }, [] { return (CMSec) 0; }); for (int i = 0; i < pause; i++) ds::ds_point();
    long t1 = ds::ds_now_us(); t.stop(); long t2 = ds::ds_now_us(); EXPECTK("slow_stop", t2 - t1 < 60000000, "stopping took %ld ms", (t2 - t1) / 1000); EXPECTK("early", runs == 0, "called %d times before its interval had passed", (int) runs); ds::ds_note(pause);
}
static std::atomic<int> fired;
struct D : public GDaemon { CVoid daemonTask(GDaemonParamPtr) override { fired++; } };
SCHED(daemons) {
    ds::ds_hang_key("never_returns"); ds::ds_early(0); int n = rng.range(1, 3), iv = rng.range(1, 20); ds::descr = ds::fmt("%d daemons, interval %d ms", n, iv); fired = 0; GPipelinePtr p = GPipelineFactory::create(); GElementPtr a = nullptr; EXPECT(p->registerGElement<N>(&a, {}, "a").isOK(), "reg"); N* x = (N*) a; x->id = 0; x->b.points = 0; x->b.sleep_ms = rng.below(40);
    for (int i = 0; i < n; i++) p->addGDaemon<D>(iv); EXPECTK("too_early", fired == 0, "a daemon ran before init"); EXPECT(p->init().isOK(), "init"); EXPECT(p->run().isOK(), "run"); std::this_thread::sleep_for(std::chrono::milliseconds(rng.below(100))); EXPECT(p->destroy().isOK(), "destroy"); int k = fired; std::this_thread::sleep_for(std::chrono::milliseconds(100)); EXPECTK("after_stop", fired == k, "a daemon ran after destroy"); GPipelineFactory::remove(p); ds::ds_note(k * 4 + n);
}
