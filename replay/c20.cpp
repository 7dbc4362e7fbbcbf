#include "graph.h"
// bounded topics against a reference queue: histories, waiting senders and receivers under explored schedules, time limits
struct M : public GMessageParam { int v = 0; };
struct M2 : public GMessageParam { int v = 0; };
static std::shared_ptr<M> mk(int v) { auto p = std::make_shared<M>(); p->v = v; return p; }
static GMessageManager<>* mm() { return GMessageManagerSingleton::get(); }
SCHED(histories) {
    ds::ds_hang_key("blocked"); mm()->clear(); const char* names[] = {"a", "b", "SR_PRE_a"}; std::map<std::string, std::pair<int, std::deque<int>>> ref; std::map<std::string, bool> other; int steps = rng.range(4, 24), id = 0; std::string d;
    for (int s = 0; s < steps; ++s) {
        std::string n = names[rng.below(3)]; bool known = ref.count(n); int op = rng.below(10);
        if (op < 2) { int c = rng.range(1, 4); bool two = rng.chance(15); d += ds::fmt("create%d %s %d; ", two ? 2 : 1, n.c_str(), c); ds::descr = d;
            CStatus st = two ? mm()->createTopic<M2>(n, c) : mm()->createTopic<M>(n, c);
            bool want = !known || (ref[n].first == c && other[n] == two); EXPECTK("create", st.isOK() == want, "creating %s: %d instead of %d", n.c_str(), st.getCode(), want ? 0 : -1);
            if (!known) { ref[n] = {c, {}}; other[n] = two; } }
        else if (op < 3) { d += ds::fmt("remove %s; ", n.c_str()); ds::descr = d; CStatus st = mm()->removeTopic(n); EXPECTK("remove", st.isOK() == known, "removing %s: %d", n.c_str(), st.getCode()); ref.erase(n); }
        else if (op < 7) { if (known && other[n]) continue; auto& q = ref[n]; bool full = known && (int) q.second.size() >= q.first; int v = id++; auto pol = rng.chance(50) ? GMessagePushStrategy::REPLACE : full || rng.chance(50) ? GMessagePushStrategy::DROP : GMessagePushStrategy::WAIT;
            if (!known) ref.erase(n);
            d += ds::fmt("send %s %d policy %d; ", n.c_str(), v, (int) pol); ds::descr = d; auto m = mk(v); CStatus st = mm()->sendTopicValue<M>(n, m, pol); EXPECTK("send", st.isOK() == known, "sending to %s: %d", n.c_str(), st.getCode());
            if (known) { if (!full) q.second.push_back(v); else if (pol == GMessagePushStrategy::REPLACE) { q.second.pop_front(); q.second.push_back(v); } } }
        else { if (known && other[n]) continue; bool has = known && !ref[n].second.empty(); if (!known) ref.erase(n); d += ds::fmt("recv %s; ", n.c_str()); ds::descr = d; std::shared_ptr<M> m; CStatus st = mm()->recvTopicValue<M>(n, m, 3);
            EXPECTK("recv", st.isOK() == has, "receiving from %s with %d waiting: %d", n.c_str(), has ? (int) ref[n].second.size() : 0, st.getCode());
            if (has) { int w = ref[n].second.front(); ref[n].second.pop_front(); EXPECTK("order", m && m->v == w, "received %d instead of %d", m ? m->v : -1, w); } } }
    for (auto& r : ref) { if (other[r.first]) continue; for (int w : r.second.second) { std::shared_ptr<M> m; CStatus st = mm()->recvTopicValue<M>(r.first, m, 3); ds::descr = d + "drain"; EXPECTK("kept", st.isOK() && m && m->v == w, "%s: message %d is missing", r.first.c_str(), w); }
        std::shared_ptr<M> m; EXPECTK("extra", mm()->recvTopicValue<M>(r.first, m, 2).isErr(), "%s: an extra message", r.first.c_str()); }
    mm()->clear(); ds::ds_note((int) ref.size() * 100 + id); }
SCHED(transfer) {
    ds::ds_hang_key("blocked"); mm()->clear(); int cap = rng.range(1, 3), ns = rng.range(1, 3), nr = rng.range(1, 3), per = rng.range(1, 4); bool late = rng.chance(50), slow = rng.chance(40);
    ds::descr = ds::fmt("capacity %d, %d waiting senders of %d messages, %d receivers%s", cap, ns, per, nr, late ? ", receivers start late" : ""); EXPECT(mm()->createTopic<M>("t", cap).isOK(), "create");
    std::mutex lk; std::vector<std::vector<int>> got(nr); std::atomic<int> total{0}, sent{0}, bad{0}; std::vector<std::thread> ts; std::vector<int> naps(ns + nr); for (auto& x : naps) x = rng.below(4);
    auto send = [&](int s) { for (int i = 0; i < per; ++i) { auto m = mk(s * 100 + i); if (mm()->sendTopicValue<M>("t", m, GMessagePushStrategy::WAIT).isErr()) bad++; int n = ++sent; if (n - total > cap + nr) bad += 1000; if (slow) std::this_thread::sleep_for(std::chrono::milliseconds(naps[s])); } };
    auto recv = [&](int r) { while (total < ns * per) { std::shared_ptr<M> m; if (mm()->recvTopicValue<M>("t", m, 4).isOK()) { if (m) { got[r].push_back(m->v); total++; } else bad++; } } };
    for (int s = 0; s < ns; ++s) ts.emplace_back(send, s); if (late) std::this_thread::sleep_for(std::chrono::milliseconds(2)); for (int r = 0; r < nr; ++r) ts.emplace_back(recv, r); for (auto& t : ts) t.join();
    std::set<int> all; int n = 0; for (auto& g : got) { std::map<int, int> last; for (int v : g) { all.insert(v); ++n; if (last.count(v / 100)) EXPECTK("order", last[v / 100] < v, "message %d after %d", v, last[v / 100]); last[v / 100] = v; } }
    EXPECTK("once", n == ns * per && (int) all.size() == n, "%d messages received, %d different, %d sent", n, (int) all.size(), ns * per); EXPECTK("bound", bad < 1000, "more messages accepted than fit"); EXPECTK("ok", bad == 0, "a send to an existing topic failed or a receiver got nothing");
    mm()->clear(); ds::ds_note(n); }
SCHED(time_limit) {
    ds::ds_hang_key("blocked"); mm()->clear(); EXPECT(mm()->createTopic<M>("t", 1).isOK(), "create"); int at = rng.range(0, 20), limit = rng.range(1, 20); if (at == limit) at++; ds::descr = ds::fmt("message after %d ms, limit %d ms", at, limit);
    std::atomic<long> sent{0};
    std::thread s([&] { std::this_thread::sleep_for(std::chrono::milliseconds(at)); auto m = mk(7); mm()->sendTopicValue<M>("t", m, GMessagePushStrategy::WAIT); sent = (long) ds::ds_now_us() + 1; });
    std::shared_ptr<M> m; long t0 = (long) ds::ds_now_us(); CStatus st = mm()->recvTopicValue<M>("t", m, limit); long t1 = (long) ds::ds_now_us(); s.join();
    EXPECTK("early", st.isOK() || t1 - t0 >= limit * 1000L, "gave up after %ld us", t1 - t0); EXPECTK("limit", st.isOK() || sent - 1 - t0 >= limit * 1000L, "no message although one was sent after %ld us", sent - 1 - t0); EXPECTK("value", st.isErr() || (m && m->v == 7), "wrong message");
    mm()->clear(); ds::ds_note(at * 100 + limit); }
