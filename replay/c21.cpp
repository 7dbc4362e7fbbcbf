#include "graph.h"
// publish / subscribe against a reference: histories of bind, detach, drop, publish and receive; concurrent publishers
struct M : public GMessageParam { int v = 0; };
static std::shared_ptr<M> mk(int v) { auto p = std::make_shared<M>(); p->v = v; return p; }
static GMessageManager<>* mm() { return GMessageManagerSingleton::get(); }
struct Cn { std::string topic; int cap; std::deque<int> q; };
SCHED(histories) {
    ds::ds_hang_key("blocked"); mm()->clear(); const char* names[] = {"a", "b", "PS_PRE_a"}; std::map<int, Cn> live; std::set<int> dead; int steps = rng.range(4, 24), id = 0; std::string d; int pubs = 0;
    auto bound = [&](const std::string& n) { int k = 0; for (auto& c : live) k += c.second.topic == n; return k; };
    for (int s = 0; s < steps; ++s) {
        std::string n = names[rng.below(3)]; int op = rng.below(12); int some = live.empty() || rng.chance(25) ? (dead.empty() || rng.chance(30) ? rng.range(1, 9) : *std::next(dead.begin(), rng.below((int) dead.size()))) : std::next(live.begin(), rng.below((int) live.size()))->first; bool known = live.count(some);
        if (op < 4) { int c = rng.range(1, 3); d += ds::fmt("bind %s %d; ", n.c_str(), c); ds::descr = d; int i = mm()->bindTopic<M>(n, c); EXPECTK("new_id", !live.count(i) && !dead.count(i), "id %d handed out twice", i); live[i] = {n, c, {}}; }
        else if (op < 6) { if (known && rng.chance(80)) n = live[some].topic; bool ok = known && live[some].topic == n; d += ds::fmt("detach %s %d; ", n.c_str(), some); ds::descr = d; CStatus st = mm()->detachConnId(n, some); EXPECTK("detach", st.isOK() == ok, "detaching %d from %s: %d", some, n.c_str(), st.getCode()); if (ok) { live.erase(some); dead.insert(some); } }
        else if (op < 7) { bool ok = bound(n) > 0; d += ds::fmt("drop %s; ", n.c_str()); ds::descr = d; CStatus st = mm()->dropTopic(n); EXPECTK("drop", st.isOK() == ok, "dropping %s with %d connections: %d", n.c_str(), bound(n), st.getCode()); for (auto i = live.begin(); i != live.end();) if (i->second.topic == n) { dead.insert(i->first); i = live.erase(i); } else ++i; }
        else if (op < 10) { bool ok = bound(n) > 0; int v = id++; auto pol = rng.chance(50) ? GMessagePushStrategy::REPLACE : GMessagePushStrategy::DROP; auto m = mk(v); d += ds::fmt("pub %s %d policy %d; ", n.c_str(), v, (int) pol); ds::descr = d; CStatus st = mm()->pubTopicValue<M>(n, m, pol); EXPECTK("pub", st.isOK() == ok, "publishing to %s with %d connections: %d", n.c_str(), bound(n), st.getCode()); pubs++;
            for (auto& c : live) if (c.second.topic == n) { auto& q = c.second.q; if ((int) q.size() < c.second.cap) q.push_back(v); else if (pol == GMessagePushStrategy::REPLACE) { q.pop_front(); q.push_back(v); } } }
        else { d += ds::fmt("sub %d; ", some); ds::descr = d; std::shared_ptr<M> m; bool has = known && !live[some].q.empty(); CStatus st = mm()->subTopicValue<M>(some, m, 2); EXPECTK("sub", st.isOK() == has, "receiving on %s %d: %d", known ? "bound" : "released or unknown", some, st.getCode()); if (has) { int w = live[some].q.front(); live[some].q.pop_front(); EXPECTK("order", m && m->v == w, "received %d instead of %d", m ? m->v : -1, w); } } }
    for (auto& c : live) { ds::descr = d + "drain"; for (int w : c.second.q) { std::shared_ptr<M> m; EXPECTK("kept", mm()->subTopicValue<M>(c.first, m, 2).isOK() && m && m->v == w, "connection %d: message %d is missing", c.first, w); } std::shared_ptr<M> m; EXPECTK("extra", mm()->subTopicValue<M>(c.first, m, 2).isErr(), "connection %d: an extra message", c.first); }
    for (int x : dead) { std::shared_ptr<M> m; EXPECTK("released", mm()->subTopicValue<M>(x, m, 1).isErr(), "the released id %d is accepted", x); }
    mm()->clear(); ds::ds_note(pubs * 100 + id); }
SCHED(publishers) {
    ds::ds_hang_key("blocked"); mm()->clear(); int np = rng.range(1, 3), nc = rng.range(1, 3), per = rng.range(1, 3), cap = rng.range(1, 2); ds::descr = ds::fmt("%d waiting publishers of %d messages, %d connections of %d, other connections come and go", np, per, nc, cap);
    std::vector<int> ids; for (int i = 0; i < nc; ++i) ids.push_back(mm()->bindTopic<M>("t", cap)); std::vector<std::vector<int>> got(nc); std::atomic<int> bad{0}, done{0}; std::vector<std::thread> ts;
    for (int p = 0; p < np; ++p) ts.emplace_back([&, p] { for (int i = 0; i < per; ++i) { auto m = mk(p * 100 + i); if (mm()->pubTopicValue<M>("t", m, GMessagePushStrategy::WAIT).isErr()) bad++; } });
    for (int c = 0; c < nc; ++c) ts.emplace_back([&, c] { int miss = 0; while ((int) got[c].size() < np * per && miss < 200) { std::shared_ptr<M> m; if (mm()->subTopicValue<M>(ids[c], m, 5).isOK() && m) got[c].push_back(m->v); else miss++; } done++; });
    ts.emplace_back([&] { for (int i = 0; i < 4; ++i) { int x = mm()->bindTopic<M>("other", 1); if (mm()->detachConnId("other", x).isErr()) bad++; } });
    for (auto& t : ts) t.join(); EXPECTK("ok", bad == 0, "%d refused requests", (int) bad);
    for (int c = 0; c < nc; ++c) { std::set<int> all(got[c].begin(), got[c].end()); EXPECTK("once", (int) got[c].size() == np * per && (int) all.size() == np * per, "connection %d got %d messages, %d different, %d were published", c, (int) got[c].size(), (int) all.size(), np * per); std::map<int, int> last; for (int v : got[c]) { if (last.count(v / 100)) EXPECTK("order", last[v / 100] < v, "message %d after %d", v, last[v / 100]); last[v / 100] = v; } }
    mm()->clear(); ds::ds_note(np * 10 + nc); }
