// P19: action histories, action lists and accumulated discontinuities. Oracle: list models.
#include "harness/common.hpp"
#include "edyn/networking/comp/action_history.hpp"
#include "edyn/networking/comp/discontinuity.hpp"
#include "edyn/comp/action_list.hpp"
#include "edyn/comp/merge_component.hpp"
#include "edyn/comp/position.hpp"
using namespace edyn; using pbt::Case; using orc::R; using orc::V; using orc::tov;

// A sender keeps a sliding window of its actions and sends it over and over; packets get lost, repeated. Every action must arrive at most once and exactly once if a packet holding it was delivered in order.
PBT(history_merge, 20000, 300000, "overlapping windows with losses") {
    action_history recv; std::vector<action_history::entry> sent, model; std::vector<action_history> packets; double t = c.boolean() ? 0 : c.uniform(0, 100), last = 0; size_t n = c.size(1, 40), next = 0; uint8_t serial = 0; size_t delivered = 0, overlap = 0; recv.last_timestamp = last = c.chance(1, 4) ? t : 0; size_t window_start = 0;
    for (size_t s = 0; s < n; ++s) {
        switch (c.draw(5)) {
        case 0: case 1: { if (c.boolean() || sent.empty()) t += c.chance(1, 5) ? 1e-6 : c.uniform(0.001, 1); ++serial; sent.emplace_back(t, (uint8_t)(serial % 5), std::vector<uint8_t>{serial, (uint8_t)c.draw(256)}); break; }
        case 2: if (!sent.empty()) { window_start = std::max(window_start, (size_t)c.draw(sent.size() + 1)); } break;
        default: { if (window_start >= sent.size()) break; action_history p; p.entries.assign(sent.begin() + (long)window_start, sent.end()); if (c.chance(1, 4)) break; // lost
            if (c.chance(1, 4) && !packets.empty()) p = packets[c.draw(packets.size())]; // an old packet arrives late
            packets.push_back(p); ++delivered; double before = last; for (auto &e : p.entries) if (e.timestamp > before) { model.push_back(e); last = e.timestamp; } else ++overlap; recv.merge(p); }
        }
        if (c.chance(1, 4)) { double until = c.chance(1, 3) && !model.empty() ? model[c.draw(model.size())].timestamp : c.uniform(0, t + 1); recv.erase_until(until); size_t k = 0; while (k < model.size() && model[k].timestamp < until) ++k; model.erase(model.begin(), model.begin() + (long)k); }
        REQUIRE(recv.entries.size() == model.size(), "history has %zu entries, want %zu", recv.entries.size(), model.size()); for (size_t i = 0; i < model.size(); ++i) { auto &g = recv.entries[i]; auto &w = model[i]; REQUIRE(g.timestamp == w.timestamp && g.action_index == w.action_index && g.data == w.data, "entry %zu", i); if (i) REQUIRE(recv.entries[i - 1].timestamp <= g.timestamp, "order"); } REQUIRE(recv.last_timestamp == last, "last timestamp is %.9g, want %.9g", recv.last_timestamp, last); REQUIRE(recv.empty() == model.empty()); (void)next;
    }
    c.note("steps=%zu sent=%zu delivered=%zu repeated entries=%zu", n, sent.size(), delivered, overlap); c.nontrivial(delivered > 1 && overlap > 0 && sent.size() > 2);
}

PBT(history_sort, 20000, 200000, "entries out of order") { action_history h; size_t n = c.size(0, 30); for (size_t i = 0; i < n; ++i) h.entries.emplace_back(c.boolean() ? (double)c.draw(8) : c.uniform(0, 10), (uint8_t)i, std::vector<uint8_t>{(uint8_t)i}); auto orig = h.entries; h.sort(); bool moved = false; REQUIRE(h.entries.size() == n); std::vector<int> seen(256); for (size_t i = 0; i < n; ++i) { auto &e = h.entries[i]; if (i) REQUIRE(h.entries[i - 1].timestamp <= e.timestamp, "not sorted"); REQUIRE(e.data.size() == 1 && e.data[0] == e.action_index && e.action_index < n && !seen[e.action_index]++, "entry lost its data"); REQUIRE(orig[e.action_index].timestamp == e.timestamp, "timestamp"); moved |= e.action_index != i; } c.nontrivial(moved); }

PBT(action_list_merge, 20000, 200000, "both lists hold actions") { action_list<int> l; std::vector<int> m; size_t k = c.size(1, 6); int serial = 0; for (size_t i = 0; i < k; ++i) { action_list<int> o; size_t n = c.draw(5); for (size_t j = 0; j < n; ++j) { o.actions.push_back(++serial); m.push_back(serial); } auto copy = o.actions; merge_component(l, o); REQUIRE(o.actions == copy); REQUIRE(l.actions == m, "actions lost, repeated or reordered by the merge"); } c.nontrivial(m.size() > 2 && k > 1); }

PBT(discontinuity_merge, 20000, 300000, "several rotations and offsets") {
    discontinuity_accumulator d; REQUIRE(d.position_offset == vector3_zero && d.orientation_offset == quaternion_identity); size_t k = c.size(1, 8); V p{}; orc::Q q{0, 0, 0, 1}; for (size_t i = 0; i < k; ++i) { discontinuity_accumulator o; o.position_offset = gen::vec(c, 2); o.orientation_offset = gen::orient(c); merge_component(d, o); p = p + tov(o.position_offset); q = q * orc::toq(o.orientation_offset); R l = orc::len(q); q = {q.x / l, q.y / l, q.z / l, q.w / l}; } c.nontrivial(k > 1); REQUIRE(orc::near(d.position_offset, p, 20), "position offsets do not add up"); for (int i = 0; i < 3; ++i) { V e{}; e[i] = 1; V g = orc::rot(orc::toq(d.orientation_offset), e), w = orc::rot(q, e); REQUIRE(orc::dist(g, w) < 500 * orc::EPS, "orientation offsets do not compose"); } REQUIRE(std::abs(orc::len(orc::toq(d.orientation_offset)) - 1) < 8 * orc::EPS, "not unit");
    position a, b; a = gen::vec(c); b = gen::vec(c); merge_component(a, b); REQUIRE(a == b, "a plain component must be replaced");
}
