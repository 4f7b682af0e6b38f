// P20: window during which modified components are exported. Oracle: map from component index to expiry time.
#include "harness/common.hpp"
#include "edyn/networking/comp/exporter_modified_components.hpp"
#include <map>
using namespace edyn; using pbt::Case;
template<uint16_t N> static void history(Case &c) {
    exporter_modified_components<N> x; std::map<unsigned, int> m; size_t n = c.size(1, 60); size_t expired = 0, rebump = 0; bool full = false; const int D = x.duration; REQUIRE(x.empty() && x.count == 0);
    for (size_t s = 0; s < n; ++s) {
        if (c.draw(5) < 3) { unsigned i = (unsigned)c.draw(N) * 7; if (!m.count(i) && x.count == N) continue; rebump += m.count(i); x.bump_index((uint16_t)i); m[i] = D; full |= m.size() == N; }
        else { unsigned ms; switch (c.draw(6)) { case 0: ms = 0; break; case 1: ms = (unsigned)D; break; case 2: ms = (unsigned)D + 1; break; case 3: ms = 70000; break; case 4: ms = m.empty() ? 3 : (unsigned)m.begin()->second; break; default: ms = (unsigned)c.draw(200); } x.decay(ms); for (auto it = m.begin(); it != m.end();) { it->second -= (int)ms; if (it->second < 0) { it = m.erase(it); ++expired; } else ++it; } }
        // An entry whose time is exactly used up no longer counts, whether kept or not.
        bool live = false; for (auto &p : m) live |= p.second > 0; REQUIRE(x.empty() == !live, "empty() is %d with live entries %d", x.empty(), live); REQUIRE(x.count <= N); std::map<unsigned, int> g; for (unsigned i = 0; i < x.count; ++i) { REQUIRE(!g.count(x.entry[i].index), "component %u is listed twice", x.entry[i].index); g[x.entry[i].index] = x.entry[i].remaining; } for (auto &p : m) if (p.second > 0) REQUIRE(g.count(p.first) && g[p.first] == p.second, "component %u should have %d ms left", p.first, p.second); for (auto &p : g) if (p.second > 0) REQUIRE(m.count(p.first) && m[p.first] == p.second, "component %u should have expired", p.first);
    }
    c.note("steps=%zu expired=%zu bumped again=%zu full=%d", n, expired, rebump, full); c.nontrivial(expired > 0 && rebump > 0);
}
PBT(export_window, 30000, 500000, "entries expire and are renewed") { switch (c.draw(3)) { case 0: history<4>(c); break; case 1: history<1>(c); break; default: history<32>(c); } }
