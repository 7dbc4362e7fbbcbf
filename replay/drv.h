// Replay drivers: scenario programs over the real code, run under the deterministic scheduler of sched.cpp.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <string>
#include <vector>
namespace ds {
extern "C" {
void ds_begin(uint64_t seed, int strat);     // start controlling the calling thread (and every thread it creates)
void ds_end();                               // wait for all other threads to end, stop controlling
void ds_point();                             // a scheduling point
long ds_now_us();                            // virtual time since ds_begin
void ds_fail(const char* key, const char* text);   // report and end the process
void ds_note(uint64_t v);                    // event for the distinctness hash
uint64_t ds_hash();
void ds_limit_us(long us);                   // virtual time after which the run counts as "sleeps forever"
void ds_hang_key(const char* key);           // key used when the run dead-locks or exceeds the limit
void ds_spurious(int on);
void ds_early(int on);                       // whether timed waits may expire while other threads could still run
int ds_tid();
long ds_steps();
void ds_nopre(int d);
}
// event log, appended to without scheduling points
struct Ev { int a, b; long c; };
std::vector<Ev>& events();
void log(int a, int b, long c = 0);
struct NoPreempt { NoPreempt() { ds_nopre(1); } ~NoPreempt() { ds_nopre(-1); } };
struct Rng {
    uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    int below(int n) { return n <= 0 ? 0 : (int) ((next() >> 33) % (uint64_t) n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int pct) { return below(100) < pct; }
};
struct Scenario { const char* name; std::function<void(uint64_t, Rng&)> fn; bool sched; int weight; };
std::vector<Scenario>& all();
struct Reg { Reg(const char* n, std::function<void(uint64_t, Rng&)> f, bool sched, int weight = 1) { all().push_back(Scenario{n, f, sched, weight}); } };
extern std::string cur, descr;      // description of the current case (becomes the failing input)
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
void fail(const std::string& key, const std::string& text);
int main_(int, char**);
}
// SCENARIO: sequential, seeded inputs.  SCHED: additionally run under the controlled scheduler.
#define SCENARIO(name) static void scn_##name(uint64_t seed, ds::Rng& rng); static ds::Reg reg_##name(#name, scn_##name, false); static void scn_##name(uint64_t seed, ds::Rng& rng)
#define SCHED(name) static void scn_##name(uint64_t seed, ds::Rng& rng); static ds::Reg reg_##name(#name, scn_##name, true); static void scn_##name(uint64_t seed, ds::Rng& rng)
#define EXPECT(cond, ...) do { if (!(cond)) ds::fail(std::string(ds::cur) + ":" #cond, ds::fmt(__VA_ARGS__)); } while (0)
#define EXPECTK(key, cond, ...) do { if (!(cond)) ds::fail(std::string(ds::cur) + ":" + (key), ds::fmt(__VA_ARGS__)); } while (0)
