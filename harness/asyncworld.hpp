// A world in asynchronous mode, of which the schedule is generated: the simulation thread asks the time before each of its updates and is held there, so that the interleaving of its updates with those of the main thread is that of the case, and its registry can be looked at.
#pragma once
#include "harness/world.hpp"
#include "edyn/collision/query_aabb.hpp"
#include "edyn/collision/raycast.hpp"
#include "edyn/comp/collision_filter.hpp"
#include "edyn/comp/material.hpp"
#include "edyn/comp/shared_comp.hpp"
#include "edyn/simulation/stepper_async.hpp"
#include <condition_variable>
#include <mutex>
#include <thread>
namespace asy {
using namespace wld;
struct Gate { std::mutex m; std::condition_variable cv; bool parked = false, go = false, free = false; double now = 0; std::thread::id main; entt::registry *reg = nullptr; };
inline Gate *gate = nullptr;
inline double clock_now() { Gate *g = gate; if (std::this_thread::get_id() == g->main) { std::lock_guard<std::mutex> l(g->m); return g->now; }
    std::unique_lock<std::mutex> l(g->m); if (g->free) { g->now += 1; return g->now; } g->parked = true; g->cv.notify_all(); g->cv.wait(l, [&] { return g->go || g->free; }); g->go = false; g->parked = false; return g->now; }
inline void found(entt::registry &r) { gate->reg = &r; }
struct marker { uint64_t id = 0; }; // the user's own component, which names the body in both registries
struct Async {
    Gate g; entt::registry reg; double dt = 1.0 / 60;
    explicit Async(bool paused = true) { g.main = std::this_thread::get_id(); gate = &g; edyn::init_config cfg; cfg.execution_mode = edyn::execution_mode::asynchronous; cfg.timestamp = 0.0; cfg.fixed_dt = (scalar)dt; cfg.num_worker_threads = 2; edyn::attach(reg, cfg); edyn::register_external_components<marker>(reg); edyn::set_init_callback(reg, &found); edyn::set_paused(reg, true); edyn::set_time_source(reg, &clock_now); wait(); work(); if (!paused) { edyn::set_paused(reg, false); } }
    void wait() { std::unique_lock<std::mutex> l(g.m); g.cv.wait(l, [&] { return g.parked && !g.go; }); }
    void work(double advance = 0) { std::unique_lock<std::mutex> l(g.m); g.cv.wait(l, [&] { return g.parked && !g.go; }); g.now += advance ? advance : dt * 1.001; g.go = true; g.cv.notify_all(); g.cv.wait(l, [&] { return g.parked && !g.go; }); } // one update of the simulation thread
    void update() { double t; { std::lock_guard<std::mutex> l(g.m); t = g.now; } edyn::update(reg, t); }
    void settle() { for (int i = 0; i < 4; ++i) { update(); work(); } update(); }
    ~Async() { { std::lock_guard<std::mutex> l(g.m); g.free = true; g.cv.notify_all(); } edyn::detach(reg); }
};
}
