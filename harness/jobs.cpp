// P22: job queue, workers and dispatcher. Oracle: every job accounted for over generated schedules of real threads.
#include "harness/common.hpp"
#include "edyn/parallel/job.hpp"
#include "edyn/parallel/job_queue.hpp"
#include "edyn/parallel/worker.hpp"
#include "edyn/parallel/job_dispatcher.hpp"
#include "edyn/parallel/atomic_counter_sync.hpp"
#include "edyn/context/start_thread.hpp"
#include <cstring>
#include <deque>
#include <memory>
#include <thread>
using namespace edyn; using pbt::Case;

struct Tag { uint64_t id; uint64_t check; void *ctx; uint32_t arg; uint32_t pad[7]; }; static_assert(sizeof(Tag) <= job::data_size, "");
static uint64_t mix(uint64_t x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; return x ^ x >> 29; }
static job make(uint64_t id, void *ctx, uint32_t arg, void (*f)(job::data_type &)) { job j; j.data.fill(0); Tag t{id, mix(id), ctx, arg, {}}; for (int i = 0; i < 7; ++i) t.pad[i] = (uint32_t)(mix(id) >> i); memcpy(j.data.data(), &t, sizeof t); j.func = f; return j; }
static Tag tag(const job::data_type &d) { Tag t; memcpy(&t, d.data(), sizeof t); return t; }
static bool intact(const Tag &t) { if (t.check != mix(t.id)) return false; for (int i = 0; i < 7; ++i) if (t.pad[i] != (uint32_t)(mix(t.id) >> i)) return false; return true; }
static void spin(uint32_t n) { for (volatile uint32_t i = 0; i < n; ++i) {} }
static void pause_(uint32_t n) { if (n % 4 == 0) std::this_thread::yield(); else spin(n * 3); }

PBT(queue_sequential, 20000, 300000, "pushes and pops interleave") {
    job_queue q; std::deque<uint64_t> m; uint64_t id = 0; size_t n = c.size(1, 80), pops = 0; for (size_t s = 0; s < n; ++s) { switch (c.draw(4)) { case 0: case 1: q.push(make(++id, nullptr, 0, nullptr)); m.push_back(id); break; case 2: if (!m.empty()) { auto j = q.pop(); auto t = tag(j.data); REQUIRE(intact(t) && t.id == m.front(), "popped job %llu, want %llu", (unsigned long long)t.id, (unsigned long long)m.front()); m.pop_front(); ++pops; } break; default: { job j; bool ok = q.try_pop(j); REQUIRE(ok == !m.empty(), "try_pop"); if (ok) { REQUIRE(tag(j.data).id == m.front(), "order"); m.pop_front(); ++pops; } } } REQUIRE(q.size() == m.size(), "size %zu of %zu", q.size(), m.size()); } c.nontrivial(pops > 2 && id > 3);
}

PBT(queue_concurrent, 1500, 30000, "several producers and consumers") {
    size_t np = c.size(1, 4), nc = c.size(1, 4), per = c.size(1, 120); bool tries = c.boolean(); std::vector<uint32_t> delay; for (int i = 0; i < 8; ++i) delay.push_back((uint32_t)c.draw(200)); job_queue q; std::vector<std::vector<uint64_t>> got(nc); std::vector<std::thread> th; std::atomic<bool> bad{false}; std::atomic<bool> maxbad{false}; size_t total = np * per;
    for (size_t k = 0; k < nc; ++k) th.emplace_back([&, k] { for (;;) { job j; if (tries && (k & 1)) { if (!q.try_pop(j)) { std::this_thread::yield(); continue; } } else j = q.pop(); auto t = tag(j.data); if (!intact(t)) bad = true; if (t.arg == 1) return; got[k].push_back(t.id); pause_(delay[(t.id + k) % 8]); } });
    std::vector<std::thread> pr; for (size_t p = 0; p < np; ++p) pr.emplace_back([&, p] { for (size_t i = 0; i < per; ++i) { q.push(make(p * 100000 + i, nullptr, 0, nullptr)); pause_(delay[(i + p * 3) % 8]); if (q.size() > total) maxbad = true; } }); for (auto &t : pr) t.join(); for (size_t k = 0; k < nc; ++k) q.push(make(0, nullptr, 1, nullptr)); for (auto &t : th) t.join();
    REQUIRE(!bad, "job data damaged"); REQUIRE(!maxbad, "queue reports more jobs than were pushed"); std::vector<std::vector<int>> seen(np, std::vector<int>(per)); size_t sum = 0; for (auto &g : got) { std::vector<int64_t> last(np, -1); for (auto id : g) { size_t p = id / 100000, i = id % 100000; REQUIRE(p < np && i < per, "job that was never pushed"); ++seen[p][i]; ++sum; REQUIRE((int64_t)i > last[p], "one consumer got job %zu of producer %zu after job %lld", i, p, (long long)last[p]); last[p] = (int64_t)i; } } for (auto &s : seen) for (int x : s) REQUIRE(x == 1, "a job was taken %d times", x); REQUIRE(sum == total); REQUIRE(q.size() == 0, "queue not empty"); c.note("producers=%zu consumers=%zu jobs=%zu", np, nc, per); c.nontrivial(np > 1 && nc > 1 && per > 3);
}

struct Run { std::vector<std::atomic<int>> count; std::atomic<size_t> done{0}; std::atomic<bool> bad{false}, stopped{false}, late{false}; job_dispatcher *d{}; std::vector<uint32_t> delay; std::vector<std::vector<uint64_t>> *order{}; std::vector<uint64_t> seq; std::mutex mx; std::vector<std::vector<std::pair<uint64_t, uint32_t>>> children; Run(size_t n) : count(n) {} };
static void body(job::data_type &data) { auto t = tag(data); auto *r = (Run *)t.ctx; if (!intact(t)) r->bad = true; if (r->stopped) r->late = true; ++r->count[t.id]; { std::lock_guard l(r->mx); r->seq.push_back(t.id); } pause_(r->delay[t.id % r->delay.size()]); if (t.id < r->children.size()) for (auto &ch : r->children[t.id]) r->d->async(make(ch.first, r, 0, body)); ++r->done; }

PBT(dispatcher_runs_once, 1500, 30000, "several workers and jobs dispatched from several threads") {
    job_dispatcher local; auto &d = local; size_t rounds = c.size(1, 3); bool nt = false; for (size_t rd = 0; rd < rounds; ++rd) {
        size_t nw = c.size(1, 6), nthr = c.size(1, 4), per = c.size(1, 60), nest = c.draw(20), base = nthr * per; Run r(base + nest); r.d = &d; for (int i = 0; i < 8; ++i) r.delay.push_back((uint32_t)c.draw(300)); r.children.resize(base + nest); for (size_t i = 0; i < nest; ++i) r.children[c.draw(base + i)].push_back({base + i, 0}); // jobs that dispatch jobs
        REQUIRE(!d.running() && d.num_workers() == 0); d.start(nw); REQUIRE(d.running() && d.num_workers() == nw, "%zu workers of %zu", d.num_workers(), nw); std::vector<std::thread> th; for (size_t k = 0; k < nthr; ++k) th.emplace_back([&, k] { for (size_t i = 0; i < per; ++i) { d.async(make(k * per + i, &r, 0, body)); if (i % 5 == 0) pause_(r.delay[(i + k) % 8]); } }); for (auto &t : th) t.join(); size_t total = base + nest; while (r.done < total) std::this_thread::yield(); // a lost job shows up as a hang
        REQUIRE(d.num_workers() == nw, "%zu workers of %zu", d.num_workers(), nw); d.stop(); r.stopped = true; REQUIRE(!d.running() && d.num_workers() == 0, "still running after stop"); REQUIRE(!r.bad, "job data damaged"); for (size_t i = 0; i < total; ++i) REQUIRE(r.count[i] == 1, "job %zu ran %d times", i, (int)r.count[i]);
        if (nw == 1) { std::vector<int64_t> last(nthr, -1); for (auto id : r.seq) if (id < base) { size_t k = id / per; REQUIRE((int64_t)id > last[k], "a single worker ran the jobs of a thread out of order"); last[k] = (int64_t)id; } } nt |= nw > 1 && nthr > 1; c.note("round %zu: workers=%zu threads=%zu jobs=%zu nested=%zu", rd, nw, nthr, base, nest); }
    c.nontrivial(nt);
}

PBT(dispatcher_stop, 2000, 40000, "stopped while jobs are pending") {
    size_t nw = c.size(1, 6), n = c.draw(4) == 0 ? 0 : c.size(1, 60); Run r(n); for (int i = 0; i < 8; ++i) r.delay.push_back((uint32_t)c.draw(300)); size_t at; { job_dispatcher d; r.d = &d; d.start(nw); for (size_t i = 0; i < n; ++i) d.async(make(i, &r, 0, body)); pause_((uint32_t)c.draw(3000)); at = r.done; if (c.boolean()) { d.stop(); REQUIRE(!d.running()); r.stopped = true; if (c.boolean()) d.stop(); } } // the destructor also stops
    r.stopped = true; size_t fin = r.done; for (int i = 0; i < 50; ++i) std::this_thread::yield(); REQUIRE(!r.late && r.done == fin, "a job ran after stop returned"); size_t sum = 0; for (size_t i = 0; i < n; ++i) { REQUIRE(r.count[i] <= 1, "job %zu ran %d times", i, (int)r.count[i]); sum += (size_t)r.count[i]; } REQUIRE(sum == fin, "a job was cut short"); c.note("workers=%zu jobs=%zu finished=%zu", nw, n, fin); c.nontrivial(n > 0 && at < n);
}

PBT(worker_model, 2000, 40000, "jobs pushed while running") {
    worker w; Run r(200); for (int i = 0; i < 8; ++i) r.delay.push_back((uint32_t)c.draw(200)); size_t n0 = c.size(0, 40), n1 = c.size(0, 40), n2 = c.size(0, 20); REQUIRE(w.size() == 0); for (size_t i = 0; i < n0; ++i) { w.push_job(make(i, &r, 0, body)); REQUIRE(w.size() == i + 1, "size"); } REQUIRE(w.get_queue().size() == n0); if (c.boolean()) { w.once(); REQUIRE(r.done == n0 && w.size() == 0, "once() ran %zu of %zu jobs", (size_t)r.done, n0); }
    std::atomic<bool> fin{false}; size_t biggest = 0; std::thread mon([&] { while (!fin) { biggest = std::max(biggest, w.size()); std::this_thread::yield(); } }); std::thread t([&] { w.run(); }); for (size_t i = 0; i < n1; ++i) { w.push_job(make(n0 + i, &r, 0, body)); if (i % 3 == 0) pause_(r.delay[i % 8]); } while (r.done < n0 + n1) std::this_thread::yield(); w.stop(); t.join(); fin = true; mon.join(); REQUIRE(biggest <= n0 + n1 + 1, "size() reported %zu jobs, %zu were pushed", biggest, n0 + n1); REQUIRE(r.seq.size() == n0 + n1); for (size_t i = 0; i < r.seq.size(); ++i) REQUIRE(r.seq[i] == i, "job %zu ran at position %zu", (size_t)r.seq[i], i);
    for (size_t i = 0; i < n2; ++i) w.push_job(make(n0 + n1 + i, &r, 0, body)); std::thread t2([&] { w.run(); }); while (r.done < n0 + n1 + n2) std::this_thread::yield(); w.stop(); t2.join(); for (size_t i = 0; i < n0 + n1 + n2; ++i) REQUIRE(r.count[i] == 1); c.note("jobs=%zu+%zu+%zu", n0, n1, n2); c.nontrivial(n1 > 3);
}

PBT(counter_sync, 2000, 40000, "several threads count down") {
    size_t nthr = c.size(1, 6), per = c.size(1, 30); std::vector<uint32_t> delay; for (int i = 0; i < 8; ++i) delay.push_back((uint32_t)c.draw(300)); std::atomic<size_t> done{0}; std::vector<std::thread> th; size_t seen; { atomic_counter_sync s(nthr * per); for (size_t k = 0; k < nthr; ++k) th.emplace_back([&, k] { for (size_t i = 0; i < per; ++i) { pause_(delay[(i + k) % 8]); ++done; s.decrement(); } }); pause_((uint32_t)c.draw(2000)); s.wait(); seen = done; for (auto &t : th) t.join(); s.wait(); } REQUIRE(seen == nthr * per, "wait returned after %zu of %zu", seen, nthr * per); c.nontrivial(nthr > 1); c.note("threads=%zu each=%zu", nthr, per);
}

PBT(start_thread, 1000, 20000, "several threads") { struct D { std::atomic<int> runs{0}; std::thread::id id; std::atomic<bool> fin{false}; }; size_t n = c.size(1, 8); std::vector<std::unique_ptr<D>> ds; for (size_t i = 0; i < n; ++i) { ds.push_back(std::make_unique<D>()); start_thread_func_default([](void *p) { auto *d = (D *)p; d->id = std::this_thread::get_id(); ++d->runs; d->fin = true; }, ds.back().get()); } for (auto &d : ds) { while (!d->fin) std::this_thread::yield(); REQUIRE(d->runs == 1, "function ran %d times", (int)d->runs); REQUIRE(d->id != std::this_thread::get_id(), "function ran in the calling thread"); } c.nontrivial(n > 1); }

// Idle workers are preferred: as many jobs as there are workers, each waiting for all others, must all get to run.
struct Meet { std::atomic<size_t> here{0}; size_t want{}; };
PBT(dispatcher_spreads, 1000, 20000, "three or more workers") { size_t nw = c.size(1, 7), rounds = c.size(1, 2); job_dispatcher d; d.start(nw); std::vector<std::unique_ptr<Meet>> ms; ms.push_back(std::make_unique<Meet>()); auto &m = *ms.back(); m.want = nw; for (size_t i = 0; i < nw; ++i) { d.async(make(i, &m, 0, [](job::data_type &data) { auto *m = (Meet *)tag(data).ctx; ++m->here; while (m->here < m->want) std::this_thread::yield(); })); if (c.chance(1, 3)) pause_((uint32_t)c.draw(500)); } while (m.here < m.want) std::this_thread::yield(); d.stop(); c.note("workers=%zu", nw); c.nontrivial(nw > 2); (void)rounds; }
