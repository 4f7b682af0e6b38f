// A small property-based testing engine.
//
// * Every random decision of a case is drawn through pbt::Case (a recorded choice sequence), so a
//   case is a pure function of (code, seed, sub-check, index) and shrinking works on any generator.
// * Cases run in forked workers: failed assertions, sanitizer reports, crashes and hangs of the code
//   under test are attributed to the exact case, shrunk, and replayed three times before reporting.
// * Results (cases generated / non-trivial / distinct, labels, samples) go to the evidence file.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <poll.h>
#include <fcntl.h>

namespace pbt {

inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto b = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}

struct Failure { std::string msg; };
struct Discard {};

class Case {
public:
    // Random mode.
    explicit Case(uint64_t seed) : m_rng(seed), m_replay(false) {}
    // Replay mode.
    explicit Case(const std::vector<uint64_t> &ch) : m_in(ch), m_replay(true) {}

    // Uniform in [0, n). Zero is the "simplest" choice.
    uint64_t draw(uint64_t n) {
        uint64_t v;
        if (m_replay) {
            v = m_pos < m_in.size() ? m_in[m_pos] : 0;
            if (n && v >= n) v = n - 1;
        } else {
            v = splitmix(m_rng);
            if (n) v %= n;
        }
        ++m_pos;
        m_rec.push_back(v);
        if (m_rec.size() > 2000000) throw Discard{};
        return v;
    }
    int integer(int lo, int hi) { // inclusive
        return lo + (int)draw((uint64_t)((int64_t)hi - lo + 1));
    }
    size_t size(size_t lo, size_t hi) { return lo + (size_t)draw(hi - lo + 1); }
    bool boolean() { return draw(2) != 0; }
    // true with probability num/den
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    template<typename T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
    template<typename T, size_t N> const T &pick(const T (&v)[N]) { return v[draw(N)]; }
    double unit() { return (double)(draw(1ull << 24)) / (double)(1ull << 24); } // [0,1)
    double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
    // A real in [-mag, mag], mixing exact grid values, zeros and arbitrary values.
    double real(double mag = 10) {
        switch (draw(8)) {
        case 0: return 0;
        case 1: { static const double t[] = {0, 1, -1, 0.5, -0.5, 2, -2, 3}; double v = t[draw(8)]; return std::abs(v) <= mag ? v : 0; }
        case 2: { double v = (double)integer(-16, 16) / 4; return std::abs(v) <= mag ? v : std::fmod(v, mag); }
        case 3: { double e = uniform(-6, std::log10(mag)); double v = std::pow(10.0, e); return boolean() ? -v : v; }
        default: return uniform(-mag, mag);
        }
    }
    // A positive real in [lo, hi]: grid values or log-uniform or uniform.
    double positive(double lo = 0.05, double hi = 5) {
        switch (draw(4)) {
        case 0: { static const double t[] = {1, 0.5, 2, 0.25, 1.5, 3}; double v = t[draw(6)]; return v < lo ? lo : v > hi ? hi : v; }
        case 1: return std::exp(uniform(std::log(lo), std::log(hi)));
        default: return uniform(lo, hi);
        }
    }

    void nontrivial(bool b = true) { if (b) m_nontrivial = true; }
    void label(const std::string &l) { m_labels.insert(l); }
    void label_if(bool b, const std::string &l) { if (b) m_labels.insert(l); }
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (m_note.size() > 6000) return;
        char buf[2048];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        if (!m_note.empty()) m_note += "; ";
        m_note += buf;
        if (note_sink()) { size_t n = std::min<size_t>(m_note.size(), 8191); memcpy(note_sink(), m_note.data(), n); note_sink()[n] = 0; } // survives a crash
    }
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        char buf[4096];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        throw Failure{buf};
    }
    void discard() { throw Discard{}; }
    bool quick = true; // tier

    static char *&note_sink() { static char *p = nullptr; return p; }
    std::vector<uint64_t> m_rec;
    std::set<std::string> m_labels;
    std::string m_note;
    bool m_nontrivial{false};
private:
    uint64_t m_rng{0};
    std::vector<uint64_t> m_in;
    size_t m_pos{0};
    bool m_replay;
};

struct SubCheck {
    std::string name;
    void (*fn)(Case &);
    size_t quick_n;
    size_t thorough_n;
    std::string rule;
};
inline std::vector<SubCheck> &registry() { static std::vector<SubCheck> r; return r; }
struct Reg { Reg(const char *n, void (*f)(Case &), size_t q, size_t t, const char *rule) { registry().push_back({n, f, q, t, rule}); } };

#define PBT(NAME, QUICK, THOROUGH, RULE) \
    static void pbt_##NAME(pbt::Case &c); \
    static pbt::Reg pbt_reg_##NAME{#NAME, pbt_##NAME, QUICK, THOROUGH, RULE}; \
    static void pbt_##NAME(pbt::Case &c)

#define REQUIRE(COND, ...) do { if (!(COND)) { pbt::require_fail(c, #COND, __FILE__, __LINE__, "" __VA_ARGS__); } } while (0)

[[noreturn]] inline void require_fail(Case &, const char *cond, const char *file, int line, const char *fmt = "", ...) {
    char buf[4096] = "";
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    const char *b = strrchr(file, '/'); b = b ? b + 1 : file;
    throw Failure{std::string("not (") + cond + ") at " + b + ":" + std::to_string(line) + " " + buf};
}

// ---------------------------------------------------------------------------------------------
struct Outcome {
    int kind{0}; // 0 pass, 1 property failure, 2 crash, 3 hang, 4 discard
    std::string msg, note;
    std::vector<uint64_t> rec;
};

struct Options {
    std::string property{"P00"}, tier{"quick"}, out, replay_dir{"."}, replay, level{"exploration"};
    uint64_t seed{1};
    std::string only;
    double scale{1};
    int workers{8};
    double budget_s{600};
    int hang_s{40};
    std::vector<std::string> assumptions;
    std::string known; // file with known findings for this property: lines "<sub>\t<substring of message>\t<what fails>"
};

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline uint64_t case_seed(uint64_t seed, const std::string &sub, uint64_t i) {
    uint64_t h = fnv(sub.data(), sub.size(), 0x1234567 + seed * 0x9E3779B97F4A7C15ull);
    h ^= (i + 1) * 0xD6E8FEB86659FD93ull;
    return splitmix(h);
}

inline Outcome run_inprocess(const SubCheck &s, Case &c) {
    Outcome o;
    try { s.fn(c); }
    catch (const Failure &f) { o.kind = 1; o.msg = f.msg; }
    catch (const Discard &) { o.kind = 4; }
    catch (const std::exception &e) { o.kind = 1; o.msg = std::string("exception escaped: ") + e.what(); }
    catch (...) { o.kind = 1; o.msg = "unknown exception escaped"; }
    o.note = c.m_note; o.rec = c.m_rec;
    return o;
}

inline std::string read_tail(const char *path, size_t n = 1500) {
    std::ifstream f(path, std::ios::binary); std::stringstream ss; ss << f.rdbuf();
    auto s = ss.str();
    return s.size() > n ? s.substr(0, n) : s;
}

// Run one choice sequence in a forked child.
inline Outcome run_forked(const Options &opt, const SubCheck &s, const std::vector<uint64_t> &choices) {
    int pfd[2]; if (pipe(pfd)) { perror("pipe"); exit(2); }
    char errp[] = "/tmp/pbt_err_XXXXXX"; int efd = mkstemp(errp);
    fflush(stdout); fflush(stderr);
    char *sink = (char *)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t pid = fork();
    if (pid == 0) {
        Case::note_sink() = sink;
        close(pfd[0]); dup2(efd, 2); dup2(efd, 1);
        signal(SIGPIPE, SIG_IGN);
        Case c(choices); c.quick = opt.tier == "quick";
        auto o = run_inprocess(s, c);
        uint64_t hdr[4] = {(uint64_t)o.kind, o.msg.size(), o.note.size(), o.rec.size()};
        auto w = [&](const void *p, size_t n) { const char *q = (const char *)p; while (n) { ssize_t k = write(pfd[1], q, n); if (k <= 0) _exit(3); q += k; n -= k; } };
        w(hdr, sizeof hdr); w(o.msg.data(), o.msg.size()); w(o.note.data(), o.note.size()); w(o.rec.data(), o.rec.size() * 8);
        _exit(0);
    }
    close(pfd[1]); close(efd);
    std::string data; double t0 = now(); bool hang = false; char buf[65536];
    for (;;) {
        pollfd p{pfd[0], POLLIN, 0};
        int r = poll(&p, 1, 200);
        if (r > 0) { ssize_t k = read(pfd[0], buf, sizeof buf); if (k <= 0) break; data.append(buf, k); }
        if (now() - t0 > opt.hang_s) { hang = true; kill(pid, SIGKILL); break; }
    }
    close(pfd[0]);
    int st = 0; waitpid(pid, &st, 0);
    Outcome o; o.rec = choices;
    uint64_t hdr[4];
    if (hang) { o.kind = 3; o.msg = "no answer within " + std::to_string(opt.hang_s) + " s (hang)"; }
    else if (data.size() >= sizeof hdr && (memcpy(hdr, data.data(), sizeof hdr), data.size() == sizeof hdr + hdr[1] + hdr[2] + hdr[3] * 8)) {
        o.kind = (int)hdr[0]; size_t p = sizeof hdr;
        o.msg = data.substr(p, hdr[1]); p += hdr[1]; o.note = data.substr(p, hdr[2]); p += hdr[2];
        o.rec.resize(hdr[3]); memcpy(o.rec.data(), data.data() + p, hdr[3] * 8);
    } else {
        o.kind = 2;
        o.msg = "crash: " + (WIFSIGNALED(st) ? std::string(strsignal(WTERMSIG(st))) : "exit " + std::to_string(WEXITSTATUS(st))) + ": " + read_tail(errp);
    }
    unlink(errp);
    if (o.kind == 2 || o.kind == 3) o.note = sink;
    munmap(sink, 8192);
    return o;
}

inline Outcome shrink(const Options &opt, const SubCheck &s, Outcome best, double budget = 60) {
    double t0 = now(); int tries = 0;
    auto ok = [&] { return now() - t0 < budget && tries < 6000; };
    auto attempt = [&](std::vector<uint64_t> cand) {
        ++tries;
        auto o = run_forked(opt, s, cand);
        bool fails = o.kind == 1 || o.kind == 2 || (o.kind == 3 && best.kind == 3);
        if (!fails) return false;
        if (o.kind != 1) o.rec = cand;
        // accept if simpler
        if (o.rec.size() < best.rec.size() || (o.rec.size() == best.rec.size() && o.rec < best.rec)) { best = o; return true; }
        return false;
    };
    if (best.kind == 3) budget = 2.0 * opt.hang_s;
    bool improved = true;
    while (improved && ok()) {
        improved = false;
        for (size_t k = best.rec.size() / 2; k >= 1 && ok(); k /= 2) // delete chunks
            for (size_t i = 0; i + k <= best.rec.size() && ok();) {
                auto cand = best.rec; cand.erase(cand.begin() + i, cand.begin() + i + k);
                if (attempt(cand)) improved = true; else i += k;
            }
        for (size_t k = std::max<size_t>(1, best.rec.size() / 4); k >= 1 && ok(); k /= 2) // zero chunks
            for (size_t i = 0; i + k <= best.rec.size() && ok(); i += k) {
                auto cand = best.rec; bool any = false;
                for (size_t j = i; j < i + k; ++j) { any |= cand[j] != 0; cand[j] = 0; }
                if (any && attempt(cand)) improved = true;
            }
        for (size_t i = 0; i < best.rec.size() && ok(); ++i) { // reduce values
            uint64_t lo = 0;
            int guard = 0;
            while (i < best.rec.size() && lo < best.rec[i] && ok() && guard++ < 70) {
                uint64_t mid = lo + (best.rec[i] - lo) / 2;
                auto cand = best.rec; cand[i] = mid;
                if (attempt(cand)) improved = true; else lo = mid + 1;
            }
        }
    }
    return best;
}

inline std::string jesc(const std::string &s) {
    std::string o; char b[8];
    for (unsigned char ch : s) {
        if (ch == '"') o += "\\\""; else if (ch == '\\') o += "\\\\"; else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; } else o += (char)ch;
    }
    return o;
}

struct Shared { // one per worker
    volatile uint64_t sub, idx; volatile double started; volatile uint64_t done;
};

struct WorkerResult {
    uint64_t cases{0}, nontrivial{0}, discards{0};
    std::set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
};

inline int main_impl(int argc, char **argv) {
    Options opt;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nxt = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--property") opt.property = nxt(); else if (a == "--tier") opt.tier = nxt();
        else if (a == "--seed") opt.seed = strtoull(nxt().c_str(), 0, 10); else if (a == "--out") opt.out = nxt();
        else if (a == "--replay-dir") opt.replay_dir = nxt(); else if (a == "--replay") opt.replay = nxt();
        else if (a == "--only") opt.only = nxt(); else if (a == "--scale") opt.scale = atof(nxt().c_str());
        else if (a == "--workers") opt.workers = atoi(nxt().c_str()); else if (a == "--budget") opt.budget_s = atof(nxt().c_str());
        else if (a == "--hang") opt.hang_s = atoi(nxt().c_str()); else if (a == "--assume") opt.assumptions.push_back(nxt());
        else if (a == "--level") opt.level = nxt(); else if (a == "--known") opt.known = nxt();
        else if (a == "--list") { for (auto &s : registry()) printf("%s\n", s.name.c_str()); return 0; }
    }
    double t_start = now();
    auto &subs = registry();
    std::sort(subs.begin(), subs.end(), [](auto &a, auto &b) { return a.name < b.name; });

    if (!opt.replay.empty()) {
        std::ifstream f(opt.replay); std::string sub, line; std::vector<uint64_t> ch;
        while (std::getline(f, line)) {
            if (line.rfind("sub ", 0) == 0) sub = line.substr(4);
            else if (line.rfind("choices", 0) == 0) { std::stringstream ss(line.substr(7)); uint64_t v; while (ss >> v) ch.push_back(v); }
        }
        for (auto &s : subs) if (s.name == sub) {
            auto o = run_forked(opt, s, ch);
            printf("%s: kind=%d %s\n  case: %s\n", sub.c_str(), o.kind, o.msg.c_str(), o.note.c_str());
            return o.kind >= 1 && o.kind <= 3 ? 1 : 0;
        }
        fprintf(stderr, "no such sub-check '%s'\n", sub.c_str()); return 2;
    }

    struct KF { std::string sub, sub_msg, what; };
    std::vector<KF> known;
    if (!opt.known.empty()) {
        std::ifstream f(opt.known); std::string line;
        while (std::getline(f, line)) {
            if (line.empty() || line[0] == '#') continue;
            auto a = line.find('\t'); if (a == std::string::npos) continue;
            auto b = line.find('\t', a + 1); if (b == std::string::npos) continue;
            auto d = line.find('\t', b + 1); if (d == std::string::npos) continue;
            if (line.substr(0, a) != opt.property) continue;
            known.push_back({line.substr(a + 1, b - a - 1), line.substr(b + 1, d - b - 1), line.substr(d + 1)});
        }
    }
    std::set<std::string> known_seen;

    uint64_t tot_cases = 0, tot_nt = 0, tot_distinct = 0, tot_disc = 0; bool truncated = false;
    std::string subs_json, samples_json; std::vector<std::string> violations;
    for (auto &s : subs) {
        if (!opt.only.empty() && s.name.find(opt.only) == std::string::npos) continue;
        size_t n = (size_t)((opt.tier == "quick" ? s.quick_n : s.thorough_n) * opt.scale); if (n < 1) n = 1;
        int W = opt.workers; if ((size_t)W > n) W = (int)n;
        auto sh = (Shared *)mmap(nullptr, sizeof(Shared) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        std::vector<WorkerResult> res(W);
        struct Fail { uint64_t idx; Outcome o; };
        std::vector<Fail> fails;
        struct Wk { pid_t pid; int fd; std::string data; std::string err; uint64_t next; bool alive; };
        std::vector<Wk> wk(W);
        auto spawn = [&](int w, uint64_t first) {
            int pfd[2]; if (pipe(pfd)) { perror("pipe"); exit(2); }
            char errp[] = "/tmp/pbt_wk_XXXXXX"; int efd = mkstemp(errp);
            sh[w].idx = first; sh[w].started = now(); sh[w].done = 0;
            fflush(stdout); fflush(stderr);
            pid_t pid = fork();
            if (pid == 0) {
                close(pfd[0]); dup2(efd, 2); dup2(efd, 1); signal(SIGPIPE, SIG_IGN);
                WorkerResult r; std::string fmsg;
                for (uint64_t i = first; i < n; i += W) {
                    sh[w].idx = i; sh[w].started = now();
                    Case c(case_seed(opt.seed, s.name, i)); c.quick = opt.tier == "quick";
                    auto o = run_inprocess(s, c);
                    r.cases++;
                    if (o.kind == 4) { r.discards++; continue; }
                    if (c.m_nontrivial) { r.nontrivial++; if (r.hashes.size() < 400000) r.hashes.insert(fnv(c.m_rec.data(), c.m_rec.size() * 8)); }
                    for (auto &l : c.m_labels) r.labels[l]++;
                    if (c.m_nontrivial && r.samples.size() < 1 && !c.m_note.empty()) r.samples.push_back(c.m_note.substr(0, 400));
                    if (o.kind == 1) { sh[w].done = 2; _exit(77); } // parent re-runs the case
                    if (now() - t_start > opt.budget_s) { fmsg = "T"; break; }
                }
                std::string out; auto put = [&](uint64_t v) { out.append((char *)&v, 8); };
                auto puts = [&](const std::string &v) { put(v.size()); out += v; };
                put(r.cases); put(r.nontrivial); put(r.discards); put(r.hashes.size()); for (auto h : r.hashes) put(h);
                put(r.labels.size()); for (auto &l : r.labels) { puts(l.first); put(l.second); }
                put(r.samples.size()); for (auto &x : r.samples) puts(x);
                put(fmsg == "T");
                const char *q = out.data(); size_t m = out.size();
                while (m) { ssize_t k = write(pfd[1], q, m); if (k <= 0) _exit(3); q += k; m -= k; }
                _exit(0);
            }
            close(pfd[1]); close(efd);
            wk[w] = {pid, pfd[0], "", errp, first, true};
        };
        for (int w = 0; w < W; ++w) spawn(w, w);
        for (;;) {
            std::vector<pollfd> ps; std::vector<int> ids;
            for (int w = 0; w < W; ++w) if (wk[w].alive) { ps.push_back({wk[w].fd, POLLIN, 0}); ids.push_back(w); }
            if (ps.empty()) break;
            poll(ps.data(), ps.size(), 200);
            for (size_t k = 0; k < ps.size(); ++k) {
                int w = ids[k]; auto &x = wk[w]; bool eof = false, hang = false;
                if (ps[k].revents) { char buf[65536]; ssize_t r = read(x.fd, buf, sizeof buf); if (r <= 0) eof = true; else x.data.append(buf, r); }
                if (!eof && x.data.empty() && now() - sh[w].started > opt.hang_s) { hang = true; kill(x.pid, SIGKILL); }
                if (!eof && !hang) continue;
                int st = 0; waitpid(x.pid, &st, 0); close(x.fd); x.alive = false; unlink(x.err.c_str());
                if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                // the case at sh[w].idx failed, crashed or hung
                Fail f; f.idx = sh[w].idx; fails.push_back(f);
                // a failing worker does not continue: the parent decides below
            }
            if (!fails.empty() && known.empty()) { // stop early
                for (auto &x : wk) if (x.alive) { kill(x.pid, SIGKILL); int st; waitpid(x.pid, &st, 0); close(x.fd); x.alive = false; unlink(x.err.c_str()); }
            }
        }
        munmap(sh, sizeof(Shared) * W);
        std::map<std::string, uint64_t> labels; std::set<uint64_t> hs; uint64_t cases = 0, nt = 0, disc = 0; std::vector<std::string> samples;
        for (auto &x : wk) {
            size_t p = 0; auto &d = x.data; if (d.size() < 8) continue;
            auto get = [&]() -> uint64_t { uint64_t v = 0; if (p + 8 <= d.size()) { memcpy(&v, &d[p], 8); p += 8; } return v; };
            auto gets = [&] { auto k = get(); auto v = d.substr(p, k); p += k; return v; };
            cases += get(); nt += get(); disc += get(); for (auto k = get(); k; --k) hs.insert(get());
            for (auto k = get(); k; --k) { auto l = gets(); labels[l] += get(); }
            for (auto k = get(); k; --k) samples.push_back(gets());
            if (get()) truncated = true;
        }
        tot_cases += cases; tot_nt += nt; tot_distinct += hs.size(); tot_disc += disc;
        subs_json += std::string(subs_json.empty() ? "" : ",\n") + "    {\"name\":\"" + s.name + "\",\"cases\":" + std::to_string(cases) + ",\"nontrivial\":" + std::to_string(nt) +
            ",\"distinct_nontrivial\":" + std::to_string(hs.size()) + ",\"discarded\":" + std::to_string(disc) + ",\"rule\":\"" + jesc(s.rule) + "\",\"labels\":{";
        bool first = true; for (auto &l : labels) { subs_json += std::string(first ? "" : ",") + "\"" + jesc(l.first) + "\":" + std::to_string(l.second); first = false; }
        subs_json += "}}";
        for (size_t k = 0; k < samples.size() && k < 2; ++k) samples_json += std::string(samples_json.empty() ? "" : ",\n") + "    \"" + jesc(s.name + ": " + samples[k]) + "\"";
        printf("%-40s cases=%llu nontrivial=%llu distinct=%llu discarded=%llu", s.name.c_str(), (unsigned long long)cases, (unsigned long long)nt, (unsigned long long)hs.size(), (unsigned long long)disc);
        for (auto &l : labels) printf(" [%s=%llu]", l.first.c_str(), (unsigned long long)l.second);
        printf("  t=%.1fs\n", now() - t_start); fflush(stdout);

        std::sort(fails.begin(), fails.end(), [](auto &a, auto &b) { return a.idx < b.idx; });
        int reported = 0;
        for (auto &f : fails) {
            if (reported) break;
            // Re-derive the choices in a forked child that records up to the crash: replay by seed.
            // First obtain the recorded choices (the child streams them even when it crashes).
            auto rec_file = std::string("/tmp/pbt_rec_") + std::to_string(getpid()) + "_" + std::to_string(f.idx);
            (void)rec_file;
            // The generator is deterministic: pre-expand enough raw choices by running with recording in shared memory.
            size_t cap = 4u << 20;
            auto mem = (uint64_t *)mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) {
                int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1);
                struct Rec : Case { using Case::Case; };
                Case c(case_seed(opt.seed, s.name, f.idx)); c.quick = opt.tier == "quick";
                // dump continuously: reserve a vector and copy on a timer is unreliable; use a hook on exit paths
                extern uint64_t *g_dump; extern size_t g_dump_cap; extern Case *g_dump_case;
                g_dump = mem; g_dump_cap = cap; g_dump_case = &c;
                extern void dump_choices(int);
                for (int sg : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTERM, SIGTRAP}) signal(sg, dump_choices);
                auto o = run_inprocess(s, c); (void)o;
                dump_choices(0);
                _exit(0);
            }
            double t0 = now(); int st;
            while (waitpid(pid, &st, WNOHANG) == 0) {
                usleep(2000);
                if (now() - t0 > opt.hang_s) { kill(pid, SIGTERM); usleep(200000); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
            }
            std::vector<uint64_t> ch(mem + 1, mem + 1 + std::min<uint64_t>(mem[0], cap - 1));
            munmap(mem, cap * 8);
            auto o = run_forked(opt, s, ch); o.rec = ch;
            if (o.kind == 0 || o.kind == 4) { printf("  note: case %llu of %s did not fail again on replay; not reported\n", (unsigned long long)f.idx, s.name.c_str()); continue; }
            bool again = true;
            auto is_known = [&](const Outcome &x) { for (auto &k : known) if (k.sub == s.name && x.msg.find(k.sub_msg) != std::string::npos) { known_seen.insert(k.what); return true; } return false; };
            if (is_known(o)) continue;
            auto sm = shrink(opt, s, o);
            for (int r = 0; r < 3 && again; ++r) { auto q = run_forked(opt, s, sm.rec); again = q.kind >= 1 && q.kind <= 3; if (again && !q.note.empty()) sm.note = q.note; }
            if (!again) { sm = o; again = true; for (int r = 0; r < 3 && again; ++r) { auto q = run_forked(opt, s, o.rec); again = q.kind >= 1 && q.kind <= 3; } }
            if (!again) { printf("  note: failure of %s not reproducible 3x; not reported: %s\n", s.name.c_str(), o.msg.c_str()); continue; }
            mkdir(opt.replay_dir.c_str(), 0755);
            auto path = opt.replay_dir + "/" + opt.property + "-" + s.name + "-s" + std::to_string(opt.seed) + ".replay";
            std::ofstream rf(path);
            rf << "property " << opt.property << "\nsub " << s.name << "\nseed " << opt.seed << " case " << f.idx << "\n";
            auto m1 = sm.msg; std::replace(m1.begin(), m1.end(), '\n', ' '); auto n1 = sm.note; std::replace(n1.begin(), n1.end(), '\n', ' ');
            rf << "message " << m1 << "\ncase " << n1 << "\nchoices"; for (auto v : sm.rec) rf << ' ' << v; rf << "\n"; rf.close();
            printf("  FAILED %s: %s\n  minimal case: %s\n", s.name.c_str(), sm.msg.c_str(), sm.note.c_str());
            printf("VIOLATION property=%s replay=%s\n", opt.property.c_str(), path.c_str()); fflush(stdout);
            violations.push_back("{\"sub\":\"" + s.name + "\",\"message\":\"" + jesc(sm.msg.substr(0, 800)) + "\",\"case\":\"" + jesc(sm.note.substr(0, 800)) + "\",\"replay\":\"" + jesc(path) + "\"}");
            ++reported;
        }
        if (!violations.empty()) break; // one reproduced violation decides the check
    }
    for (auto &k : known_seen) printf("KNOWN-FINDING: property=%s %s\n", opt.property.c_str(), k.c_str());
    if (!opt.out.empty()) {
        std::string rules; for (auto &s : subs) rules += std::string(rules.empty() ? "" : " | ") + s.name + ": " + s.rule;
        std::ofstream f(opt.out);
        f << "{\n  \"property\":\"" << opt.property << "\",\n  \"tier\":\"" << opt.tier << "\",\n  \"seed\":" << opt.seed << ",\n  \"level\":\"" << jesc(opt.level) << "\",\n"
          << "  \"coverage\":{\n   \"evaluations\":" << tot_cases << ",\n   \"distinct_nontrivial\":" << tot_distinct << ",\n   \"nontrivial\":" << tot_nt << ",\n   \"discarded\":" << tot_disc
          << ",\n   \"budget_truncated\":" << (truncated ? "true" : "false") << ",\n   \"rule\":\"" << jesc(rules) << "\",\n   \"samples\":[\n" << samples_json << "\n   ],\n   \"sub_checks\":[\n" << subs_json << "\n   ]\n  },\n"
          << "  \"wall_s\":" << (now() - t_start) << ",\n  \"assumptions\":[";
        bool first = true; for (auto &a : opt.assumptions) { f << (first ? "" : ",") << "\"" << jesc(a) << "\""; first = false; }
        f << "],\n  \"violations\":" << violations.size() << ",\n  \"violation_details\":[";
        first = true; for (auto &v : violations) { f << (first ? "" : ",") << v; first = false; }
        f << "]\n}\n";
    }
    return violations.empty() ? 0 : 1;
}

uint64_t *g_dump = nullptr; size_t g_dump_cap = 0; Case *g_dump_case = nullptr;
void dump_choices(int sg) {
    if (g_dump) { size_t n = std::min(g_dump_case->m_rec.size(), g_dump_cap - 1); memcpy(g_dump + 1, g_dump_case->m_rec.data(), n * 8); g_dump[0] = n; }
    if (sg) _exit(1);
}
} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char **argv) { return pbt::main_impl(argc, argv); }
#endif
// Sanitizer reports must abort so that the recording hook sees them.
extern "C" const char *__asan_default_options();
extern "C" const char *__asan_default_options() { return "abort_on_error=1:handle_abort=0:handle_segv=0:detect_leaks=0:allocator_may_return_null=1:exitcode=99"; }
extern "C" const char *__ubsan_default_options();
extern "C" const char *__ubsan_default_options() { return "abort_on_error=1:halt_on_error=1:print_stacktrace=0"; }
