// P15: core containers and generic helpers. Oracle: standard containers driven by the same history.
#include "harness/common.hpp"
#include "edyn/core/free_list.hpp"
#include "edyn/core/flat_nested_array.hpp"
#include "edyn/core/unordered_pair.hpp"
#include "edyn/util/vector_util.hpp"
#include "edyn/util/array_util.hpp"
#include "edyn/util/tuple_util.hpp"
#include "edyn/dynamics/row_cache.hpp"
#include <set>
#include <map>
#include <memory>
#include <string>
using namespace edyn; using pbt::Case;

namespace {
struct Elem { uint64_t value = 0; uint32_t next = 0; std::shared_ptr<int> owned; };
struct Small { int value = 0; uint16_t next = 0; };
}

template<typename List, typename E> static void free_list_history(Case &c, E make, bool movable) {
    List l; std::map<size_t, uint64_t> model; uint64_t serial = 1; size_t steps = c.size(1, c.chance(1, 10) ? 300 : 60); size_t maxlive = 0, removed = 0, reused = 0, cleared = 0; std::set<size_t> freed;
    for (size_t s = 0; s < steps; ++s) {
        int op = (int)c.draw(20); if (s == 0 && c.chance(1, 8)) { l.clear(); REQUIRE(l.empty() && l.count() == 0 && l.range() == 0, "an unused list after clear()"); }
        if (op < 10 || (model.empty() && op < 19)) {
            auto v = make(serial); auto i = l.insert(std::move(v)); REQUIRE(!model.count(i), "insert returned index %zu which holds a live element", (size_t)i); REQUIRE((size_t)i < l.range(), "index %zu beyond range %zu", (size_t)i, (size_t)l.range()); model[i] = serial++; reused += freed.erase(i);
        } else if (op < 18) { auto it = model.begin(); std::advance(it, (long)c.draw(model.size())); auto i = it->first; l.remove((decltype(l.insert(make(1))))i); model.erase(it); freed.insert(i); ++removed; REQUIRE(l[(uint32_t)i].value == 0, "removed element is not reset"); }
        else if (op < 19) { auto it = model.begin(); std::advance(it, (long)c.draw(model.size())); l[(uint32_t)it->first].value = (decltype(l[0].value))(serial); it->second = serial++; }
        else if (c.chance(1, 3)) { l.clear(); for (auto &p : model) freed.insert(p.first); model.clear(); ++cleared; for (size_t i = 0; i < l.range(); ++i) REQUIRE(l[(uint32_t)i].value == 0, "element %zu is not reset by clear()", i); }
        maxlive = std::max(maxlive, model.size());
        REQUIRE(l.count() == model.size(), "count is %zu with %zu live elements", (size_t)l.count(), model.size()); REQUIRE(l.empty() == model.empty(), "empty() disagrees");
        const auto &cl = l; for (auto &p : model) REQUIRE((uint64_t)cl[(uint32_t)p.first].value == p.second, "element %zu holds %llu, want %llu", p.first, (unsigned long long)cl[(uint32_t)p.first].value, (unsigned long long)p.second);
    }
    REQUIRE(l.range() <= maxlive + 16, "range %zu for at most %zu live elements: freed slots are not reused", (size_t)l.range(), maxlive);
    c.note("steps=%zu live<=%zu removed=%zu reused=%zu cleared=%zu", steps, maxlive, removed, reused, cleared); c.nontrivial(reused > 0 && maxlive > 1);
}
PBT(free_list_model, 20000, 300000, "slots are reused after removal") { free_list_history<free_list<Elem, uint32_t, UINT32_MAX>>(c, [](uint64_t v) { return Elem{v, 7777, std::make_shared<int>(3)}; }, true); }
PBT(free_list_small_index, 8000, 100000, "slots are reused after removal") { free_list_history<free_list<Small, uint16_t, UINT16_MAX>>(c, [](uint64_t v) { return Small{(int)v, 3}; }, false); }

PBT(nested_array_model, 20000, 300000, "several nested arrays, one of them empty") {
    flat_nested_array<std::string> a; std::vector<std::vector<std::string>> m; size_t n = c.size(0, 12), empty = 0; if (c.boolean()) a.reserve_nested(n); if (c.boolean()) a.reserve_data(c.draw(50)); REQUIRE(a.size() == 0);
    for (size_t i = 0; i < n; ++i) { a.push_array(); m.emplace_back(); size_t k = c.chance(1, 3) ? 0 : c.size(1, 8); for (size_t j = 0; j < k; ++j) { std::string v = std::to_string(c.draw(1000)); a.push_back(v); m.back().push_back(v); } empty += k == 0;
        REQUIRE(a.size() == m.size()); for (size_t x = 0; x < m.size(); ++x) { auto in = a[x]; REQUIRE(in.size() == m[x].size(), "array %zu has %zu elements of %zu", x, in.size(), m[x].size()); for (size_t y = 0; y < m[x].size(); ++y) REQUIRE(in[y] == m[x][y], "element %zu,%zu", x, y); } }
    c.note("arrays=%zu empty=%zu", n, empty); c.nontrivial(n > 2 && empty > 0);
}

template<typename T, typename G> static void pair_laws(Case &c, G g) {
    using P = unordered_pair<T>; std::vector<P> ps; size_t n = c.size(2, 12); for (size_t i = 0; i < n; ++i) ps.emplace_back(g(), g()); if (c.boolean()) for (size_t i = 0; i + 1 < n; i += 2) ps[i + 1] = P(ps[i].second, ps[i].first);
    auto key = [](const P &p) { return p.second < p.first ? std::make_pair(p.second, p.first) : std::make_pair(p.first, p.second); };
    for (auto &a : ps) { P r(a.second, a.first); REQUIRE(a == r && !(a < r) && !(r < a), "a pair and its reverse must be the same"); REQUIRE(a[0] == a.first && a[1] == a.second); for (auto &b : ps) { bool same = key(a) == key(b); REQUIRE((a == b) == same, "equality"); REQUIRE(!((a < b) && (b < a)), "asymmetry"); REQUIRE((!(a < b) && !(b < a)) == same, "incomparable exactly if equal"); for (auto &d : ps) if (a < b && b < d) REQUIRE(a < d, "transitivity"); } }
    std::set<P> s(ps.begin(), ps.end()); std::set<std::pair<T, T>> w; for (auto &a : ps) w.insert(key(a)); REQUIRE(s.size() == w.size(), "set of pairs has %zu elements, want %zu", s.size(), w.size()); for (auto &a : ps) REQUIRE(s.count(P(a.second, a.first)) == 1); c.nontrivial(w.size() < n && w.size() > 1); c.note("pairs=%zu distinct=%zu", n, w.size());
}
PBT(unordered_pair_laws, 20000, 300000, "repeated pairs in both orders") { if (c.boolean()) pair_laws<uint16_t>(c, [&] { return (uint16_t)(c.chance(1, 8) ? 65535 : c.draw(6)); }); else pair_laws<int>(c, [&] { return c.chance(1, 5) ? (int)c.integer(-1000, 1000) : (int)c.integer(-3, 3); }); }

PBT(vector_helpers, 10000, 100000, "value present more than once") {
    std::vector<int> v; size_t n = c.size(0, 20); for (size_t i = 0; i < n; ++i) v.push_back((int)c.draw(5)); int x = (int)c.draw(6); std::vector<int> w; size_t k = 0; for (int y : v) { if (y == x) ++k; else w.push_back(y); } REQUIRE(vector_contains(v, x) == (k > 0), "contains"); vector_erase(v, x); REQUIRE(v == w, "erase must remove every occurrence and keep the order"); REQUIRE(!vector_contains(v, x)); c.nontrivial(k > 1 && !w.empty()); auto a = make_array<5>(x); for (int y : a) REQUIRE(y == x);
    std::tuple<int, double, std::string, uint8_t> t{1, 2.5, "s", 9}; using T = decltype(t); size_t idx = c.draw(4); int hits = 0, which = -1; auto vis = [&](auto &e) { ++hits; using E = std::decay_t<decltype(e)>; if constexpr (std::is_same_v<E, int>) which = 0; else if constexpr (std::is_same_v<E, double>) which = 1; else if constexpr (std::is_same_v<E, std::string>) which = 2; else which = 3; }; visit_tuple(t, idx, vis); REQUIRE(hits == 1 && which == (int)idx, "visit_tuple visited element %d for index %zu", which, idx); visit_tuple(std::as_const(t), (uint8_t)idx, vis); REQUIRE(hits == 2 && which == (int)idx);
    REQUIRE((index_of_v<int, int, int, double, std::string, uint8_t> == 0) && (index_of_v<int, double, int, double, std::string, uint8_t> == 1) && (tuple_index_of<size_t, std::string>(t) == 2) && (tuple_type_index_of<size_t, uint8_t, T>::value == 3)); REQUIRE((tuple_has_type<double, T>::value) && !(tuple_has_type<float, T>::value) && (has_type<int, char, int>::value) && !(has_type<int>::value) && (variant_has_type<char, std::variant<int, char>>::value));
}

// History of constraint preparation: rows come back per constraint, in order, with their own friction rows and options.
PBT(row_prep_cache, 10000, 100000, "several constraints with rows, reused after clear") {
    { const int F = constraint_row_flag_friction, O = constraint_row_flag_rolling_friction, S = constraint_row_flag_spinning_friction; REQUIRE(F && O && S && !(F & O) && !(F & S) && !(O & S), "flags %d %d %d overlap", F, O, S); row_cache rc; rc.rows.resize(c.draw(4)); rc.con_num_rows.resize(c.draw(4)); rc.flags.resize(c.draw(4)); rc.friction.resize(c.draw(4)); rc.rolling.resize(c.draw(4)); rc.spinning.resize(c.draw(4)); rc.clear(); REQUIRE(rc.rows.empty() && rc.con_num_rows.empty() && rc.flags.empty() && rc.friction.empty() && rc.rolling.empty() && rc.spinning.empty(), "a cleared cache has content"); }
    auto cache = std::make_unique<constraint_row_prep_cache>(); size_t rounds = c.size(1, 4); bool multi = false;
    for (size_t r = 0; r < rounds; ++r) {
        struct W { scalar imp; int flags; scalar err; scalar fr, ro, sp; bool opt; }; std::vector<std::vector<W>> m; size_t nc = c.size(1, 8), total = 0; scalar serial = (scalar)(1000 * r + 1);
        for (size_t k = 0; k < nc; ++k) { cache->add_constraint(); m.emplace_back(); size_t nr = c.draw(std::min<size_t>(6, constraint_row_prep_cache::max_rows - total + 1)); for (size_t i = 0; i < nr; ++i) { W w{}; auto &row = cache->add_row(); REQUIRE(&row == &cache->get_current_row()); row.impulse = w.imp = serial++; auto &o = cache->get_options(); REQUIRE(o.error == 0 && o.erp == scalar(0.2) && o.restitution == 0, "options of a new row are not the defaults"); w.opt = c.boolean(); if (w.opt) { o.error = w.err = serial++; o.erp = scalar(0.5); o.restitution = 1; } if (c.boolean()) { cache->add_friction_row().friction_coefficient = w.fr = serial++; w.flags |= constraint_row_flag_friction; } if (c.boolean()) { cache->add_rolling_row().friction_coefficient = w.ro = serial++; w.flags |= constraint_row_flag_rolling_friction; } if (c.boolean()) { cache->add_spinning_row().friction_coefficient = w.sp = serial++; w.flags |= constraint_row_flag_spinning_friction; } m.back().push_back(w); ++total; } }
        REQUIRE(cache->num_rows == total && cache->num_constraints == nc, "counts"); multi |= nc > 1 && total > 1;
        for (size_t k = 0; k < nc; ++k) { REQUIRE(cache->current_num_rows() == m[k].size(), "constraint %zu has %u rows of %zu", k, (unsigned)cache->current_num_rows(), m[k].size()); size_t i = 0; cache->consume_rows([&](constraint_row_prep_cache::element &e) { REQUIRE(i < m[k].size()); auto &w = m[k][i++]; REQUIRE(e.row.impulse == w.imp, "row %zu of constraint %zu", i, k); REQUIRE(e.flags == w.flags, "flags"); if (w.flags & constraint_row_flag_friction) REQUIRE(e.friction.friction_coefficient == w.fr); if (w.flags & constraint_row_flag_rolling_friction) REQUIRE(e.rolling.friction_coefficient == w.ro); if (w.flags & constraint_row_flag_spinning_friction) REQUIRE(e.spinning.friction_coefficient == w.sp); REQUIRE(e.options.error == w.err && e.options.restitution == (w.opt ? 1 : 0)); }); REQUIRE(i == m[k].size()); }
        cache->clear(); REQUIRE(cache->num_rows == 0 && cache->num_constraints == 0);
    }
    c.nontrivial(multi && rounds > 1); c.note("rounds=%zu", rounds);
}
