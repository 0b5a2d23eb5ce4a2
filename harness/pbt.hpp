// Small property-based testing engine: every random decision of a case is a
// bounded integer drawn from a choice sequence, so a failing case is replayed
// and shrunk by editing that sequence.  Cases run in a forked worker, so that
// crashes, sanitizer aborts and hangs are failures like any other.
#pragma once
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Discard {};
struct Fail {
    std::string msg;
};

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

constexpr size_t MAX_CHOICES = 1 << 17;

struct Shm {
    std::atomic<uint64_t> case_idx;   // case being run, for the watchdog
    std::atomic<uint64_t> beat;
    std::atomic<uint32_t> nchoices;
    std::atomic<int> status;          // 0 running, 1 failed, 2 finished ok
    std::atomic<uint64_t> leak_first;  // 1 + first suspect of a leak, or 0
    char msg[8192];
    char desc[8192];
    uint64_t choices[MAX_CHOICES];
};

struct Stats {
    uint64_t evals = 0, discards = 0, nontrivial = 0;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, double> maxima;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> hashes;
};

class Gen {
   public:
    // random mode
    Gen(uint64_t seed, Shm* shm) : replay_(false), state_(seed), shm_(shm) {}
    // replay mode
    Gen(std::vector<uint64_t> c, Shm* shm)
        : replay_(true), in_(std::move(c)), shm_(shm) {}

    // uniform in [0, n)
    uint64_t below(uint64_t n) {
        if (n <= 1) return 0;
        uint64_t v;
        if (replay_) {
            v = pos_ < in_.size() ? in_[pos_] : 0;
            if (v >= n) v = n - 1;
        } else {
            state_ += 0x9e3779b97f4a7c15ull;
            v = mix(state_) % n;
        }
        ++pos_;
        h_ = mix(h_ ^ v ^ (n << 1));
        if (shm_) {
            uint32_t k = shm_->nchoices.load(std::memory_order_relaxed);
            if (k < MAX_CHOICES) {
                shm_->choices[k] = v;
                shm_->nchoices.store(k + 1, std::memory_order_relaxed);
            }
        }
        return v;
    }
    long range(long lo, long hi) {
        return lo + static_cast<long>(below(static_cast<uint64_t>(hi - lo + 1)));
    }
    bool coin(unsigned num = 1, unsigned den = 2) {
        return below(den) >= den - num;  // shrinks to false
    }
    // weighted choice, shrinks to the first alternative
    size_t pick(std::initializer_list<unsigned> w) {
        uint64_t s = 0;
        for (auto x : w) s += x;
        uint64_t v = below(s);
        size_t i = 0;
        for (auto x : w) {
            if (v < x) return i;
            v -= x;
            ++i;
        }
        return 0;
    }
    template <typename C>
    typename C::const_reference of(const C& c) {
        return c[below(c.size())];
    }
    // in [0,1), full mantissa
    double unit() { return static_cast<double>(below(1ull << 53)) * 0x1p-53; }
    double uniform(double a, double b) { return a + (b - a) * unit(); }
    uint64_t hash() const { return h_; }
    size_t drawn() const { return pos_; }

   private:
    bool replay_;
    uint64_t state_ = 0;
    std::vector<uint64_t> in_;
    size_t pos_ = 0;
    uint64_t h_ = 0x1234567;
    Shm* shm_;
};

class Ctx {
   public:
    Gen& g;
    Ctx(Gen& gen, Stats* st, Shm* shm) : g(gen), st_(st), shm_(shm) {}
    void label(const std::string& l) {
        if (st_) ++st_->labels[l];
    }
    void maximum(const std::string& l, double v) {
        if (st_) {
            auto it = st_->maxima.find(l);
            if (it == st_->maxima.end())
                st_->maxima[l] = v;
            else if (v > it->second)
                it->second = v;
        }
    }
    void nontrivial() { nontrivial_ = true; }
    bool is_nontrivial() const { return nontrivial_; }
    // human readable description of the case, kept for samples and failures
    void describe(const std::string& s) {
        desc_ = s;
        if (shm_) {
            std::strncpy(shm_->desc, s.c_str(), sizeof(shm_->desc) - 1);
        }
    }
    const std::string& desc() const { return desc_; }
    [[noreturn]] void fail(const std::string& m) { throw Fail{m}; }
    [[noreturn]] void discard() { throw Discard{}; }
    void beat() {
        if (shm_) shm_->beat.fetch_add(1);
    }

   private:
    Stats* st_;
    Shm* shm_;
    bool nontrivial_ = false;
    std::string desc_;
};

struct Property {
    const char* id;
    const char* rule;
    void (*body)(Ctx&);
    bool isolate = false;      // one forked process per case
    bool normal_exit = false;  // isolated child leaves through exit()
    double hang_s = 90;        // a case that takes longer is a hang
    bool definite = false;     // one failure is proof (race reports)
    void (*at_worker_end)(Ctx&) = nullptr;
    // has memory been leaked so far?  Asked every leak_every cases, and after
    // every single case once the leaking one is searched for
    bool (*leaked)() = nullptr;
    uint64_t leak_every = 256;
    Property(const char* i, const char* r, void (*b)(Ctx&)) : id(i), rule(r), body(b) {}
};

// implemented by the property file
const Property& property();

inline std::string json_str(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c < 0x20 || c > 0x7e) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += static_cast<char>(c);
    }
    return o + "\"";
}

inline double now() {
    return std::chrono::duration<double>(
               std::chrono::steady_clock::now().time_since_epoch())
        .count();
}

enum Outcome { PASS = 0, FAILED = 1, DISCARDED = 2, CRASH = 3, HANG = 4 };

// run one case in this process
inline Outcome run_case(Gen& g, Stats* st, Shm* shm, std::string& msg) {
    Ctx ctx(g, st, shm);
    try {
        property().body(ctx);
    } catch (const Discard&) {
        if (st) ++st->discards, ++st->evals;
        return DISCARDED;
    } catch (const Fail& f) {
#ifdef MEM_ONLY
        // judged by the sanitizer alone
        if (st) ++st->labels["functional failure, not judged here"];
        if (st) ++st->evals;
        return PASS;
#endif
        msg = f.msg + (ctx.desc().empty() ? "" : "\n  case: " + ctx.desc());
        return FAILED;
    } catch (const std::exception& e) {
#ifdef MEM_ONLY
        if (st) ++st->labels["functional failure, not judged here"];
        if (st) ++st->evals;
        return PASS;
#endif
        msg = std::string("unexpected exception: ") + e.what() +
              "\n  case: " + ctx.desc();
        return FAILED;
    }
    if (st) {
        ++st->evals;
        if (ctx.is_nontrivial()) {
            ++st->nontrivial;
            st->hashes.insert(g.hash());
            if (st->samples.size() < 3 && !ctx.desc().empty() &&
                (st->nontrivial % 37) == 1)
                st->samples.push_back(ctx.desc());
        }
    }
    return PASS;
}

inline Shm*& the_shm() {
    static Shm* s = nullptr;
    return s;
}

inline Shm* make_shm() {
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::exit(3);
    }
    return the_shm() = static_cast<Shm*>(p);
}

inline void reset(Shm* s) {
    s->nchoices = 0;
    s->status = 0;
    s->msg[0] = 0;
    s->desc[0] = 0;
}

inline void child_setup() {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}

inline void put(char* dst, size_t n, const std::string& s) {
    std::strncpy(dst, s.c_str(), n - 1);
    dst[n - 1] = 0;
}

// exit code of an isolated child reporting through shm
constexpr int CHILD_PASS = 0, CHILD_FAIL = 41, CHILD_DISCARD = 42;

inline Outcome wait_child(pid_t pid, double limit, std::string& how,
                          const std::atomic<uint64_t>* beat = nullptr) {
    // counted in short steps, so that a suspended machine is no hang
    double waited = 0, t0 = now();
    uint64_t last = beat ? beat->load() : 0;
    int st = 0;
    useconds_t nap = 200;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (beat) {
            uint64_t b = beat->load();
            if (b != last) {
                last = b;
                waited = 0;
            }
        }
        double t1 = now();
        waited += std::min(t1 - t0, 0.1);
        t0 = t1;
        if (waited > limit) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            how = "hang: no progress for " + std::to_string(limit) + " s";
            return HANG;
        }
        usleep(nap);
        if (nap < 20000) nap *= 2;
    }
    if (WIFEXITED(st)) {
        int c = WEXITSTATUS(st);
        if (c == CHILD_PASS) return PASS;
        if (c == CHILD_FAIL) return FAILED;
        if (c == CHILD_DISCARD) return DISCARDED;
        how = "process exited with status " + std::to_string(c) +
              " (sanitizer report or abort)";
        return CRASH;
    }
    how = "process killed by signal " + std::to_string(WTERMSIG(st));
    return CRASH;
}

[[noreturn]] inline void child_leave(int code) {
    std::fflush(nullptr);
    if (property().normal_exit) std::exit(code);
    _exit(code);
}

inline void check_leak(Shm* shm, Outcome& o, std::string& m) {
    if (!property().leaked || !property().leaked()) return;
    o = FAILED;
    m = std::string("memory leaked\n  case: ") + shm->desc;
}

inline Outcome attempt(const std::vector<uint64_t>& c, Shm* shm,
                       std::string& msg) {
    reset(shm);
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        child_setup();
        Gen g(c, shm);
        std::string m;
        Outcome o = run_case(g, nullptr, shm, m);
        if (o == PASS) check_leak(shm, o, m);
        put(shm->msg, sizeof shm->msg, m);
        child_leave(o == PASS ? CHILD_PASS
                              : o == FAILED ? CHILD_FAIL : CHILD_DISCARD);
    }
    std::string how;
    Outcome o = wait_child(pid, property().hang_s, how);
    if (o == FAILED)
        msg = shm->msg;
    else if (o == CRASH || o == HANG)
        msg = how + "\n  case: " + shm->desc;
    return o;
}

inline bool bad(Outcome o) { return o == FAILED || o == CRASH || o == HANG; }

inline std::vector<uint64_t> taken(Shm* shm) {
    return std::vector<uint64_t>(shm->choices,
                                 shm->choices + shm->nchoices.load());
}

inline std::vector<uint64_t> shrink(std::vector<uint64_t> best, Outcome kind,
                                    Shm* shm, std::string& msg,
                                    double budget_s, int max_attempts) {
    double t0 = now();
    int n = 0;
    auto left = [&] { return now() - t0 < budget_s && n < max_attempts; };
    auto tryit = [&](const std::vector<uint64_t>& c) {
        ++n;
        std::string m;
        Outcome o = attempt(c, shm, m);
        if (bad(o) && o == kind) {
            auto got = taken(shm);
            if (got.size() < c.size())
                best = got;
            else
                best = c;
            msg = m;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && left()) {
        progress = false;
        // delete chunks
        for (size_t k = best.size() / 2; k >= 1 && left(); k /= 2) {
            for (size_t i = 0; i + k <= best.size() && left();) {
                auto c = best;
                c.erase(c.begin() + static_cast<long>(i),
                        c.begin() + static_cast<long>(i + k));
                if (tryit(c))
                    progress = true;
                else
                    i += k;
            }
        }
        // zero chunks
        for (size_t k = best.size() / 2; k >= 1 && left(); k /= 2) {
            for (size_t i = 0; i + k <= best.size() && left(); i += k) {
                auto c = best;
                bool any = false;
                for (size_t j = i; j < i + k; ++j) any |= c[j] != 0, c[j] = 0;
                if (any && tryit(c)) progress = true;
            }
        }
        // lower single values
        for (size_t i = 0; i < best.size() && left(); ++i) {
            uint64_t lo = 0;
            while (i < best.size() && lo < best[i] && left()) {
                uint64_t mid = lo + (best[i] - lo) / 2;
                auto c = best;
                c[i] = mid;
                if (tryit(c))
                    progress = true;
                else
                    lo = mid + 1;
            }
        }
    }
    return best;
}

struct Args {
    uint64_t seed = 1;
    unsigned shard = 0;
    uint64_t cases = 1000, first = 0;
    double time = 60;
    std::string out = ".";
    std::string replay;
};

inline uint64_t case_seed(const Args& a, uint64_t i) {
    uint64_t h = mix(a.seed ^ 0xabcdef);
    for (const char* p = property().id; *p; ++p)
        h = mix(h ^ static_cast<unsigned char>(*p));
    return mix(mix(h ^ (static_cast<uint64_t>(a.shard) << 40)) ^ i);
}

inline void write_stats(const Args& a, const Stats& st, double wall) {
    std::ofstream o(a.out + "/stats." + std::to_string(a.shard) + ".json");
    o.precision(17);
    o << "{\"evals\":" << st.evals << ",\"discards\":" << st.discards
      << ",\"nontrivial\":" << st.nontrivial << ",\"wall\":" << wall
      << ",\"labels\":{";
    bool f = true;
    for (auto& kv : st.labels) {
        o << (f ? "" : ",") << json_str(kv.first) << ":" << kv.second;
        f = false;
    }
    o << "},\"maxima\":{";
    f = true;
    for (auto& kv : st.maxima) {
        double v = std::isfinite(kv.second) ? kv.second : 1e300;
        o << (f ? "" : ",") << json_str(kv.first) << ":" << v;
        f = false;
    }
    o << "},\"samples\":[";
    f = true;
    for (auto& s : st.samples) {
        o << (f ? "" : ",") << json_str(s);
        f = false;
    }
    o << "]}\n";
    std::ofstream h(a.out + "/hashes." + std::to_string(a.shard) + ".bin",
                    std::ios::binary);
    for (uint64_t x : st.hashes)
        h.write(reinterpret_cast<const char*>(&x), sizeof x);
}

inline void write_failure(const Args& a, const std::string& kind,
                          const std::vector<uint64_t>& c, uint64_t idx,
                          const std::string& msg, const std::string& extra) {
    std::ofstream o(a.out + "/fail." + std::to_string(a.shard) + ".txt");
    o << "property " << property().id << "\n"
      << "kind " << kind << "\n"
      << "origin seed=" << a.seed << " shard=" << a.shard << " case=" << idx
      << "\n";
    if (!extra.empty()) o << extra << "\n";
    o << "choices " << c.size();
    for (auto v : c) o << ' ' << v;
    o << "\n";
    std::istringstream is(msg);
    std::string line;
    while (std::getline(is, line)) o << "# " << line << "\n";
}

// Runs cases [first, first+cases) in this process, used by workers and by
// history replays.  Returns index of the failing case or -1.
inline long worker_loop(const Args& a, Shm* shm, double deadline,
                        std::string& msg, Stats& st) {
    uint64_t unchecked = 0;
    shm->leak_first = 0;
    for (uint64_t i = a.first; i < a.first + a.cases; ++i) {
        if (deadline > 0 && now() > deadline) break;
        reset(shm);
        shm->case_idx = i;
        shm->beat.fetch_add(1);
        Gen g(case_seed(a, i), shm);
        Outcome o = run_case(g, &st, shm, msg);
        if (o == FAILED) return static_cast<long>(i);
        ++unchecked;
        if (property().leaked && (unchecked >= property().leak_every ||
                                  i + 1 == a.first + a.cases)) {
            if (property().leaked()) {
                msg = "memory leaked";
                shm->leak_first = i + 2 - unchecked;
                return static_cast<long>(i);
            }
            unchecked = 0;
        }
    }
    return -1;
}

inline int run_main(int argc, char** argv) {
    Args a;
    std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") a.seed = std::stoull(v);
        if (k == "--shard") a.shard = static_cast<unsigned>(std::stoul(v));
        if (k == "--cases") a.cases = std::stoull(v);
        if (k == "--first") a.first = std::stoull(v);
        if (k == "--time") a.time = std::stod(v);
        if (k == "--out") a.out = v;
        if (k == "--file") a.replay = v;
    }
    Shm* shm = make_shm();
    if (mode == "rule") {
        std::printf("%s\n", property().rule);
        return 0;
    }
    if (mode == "replay" || mode == "replay-inproc") {
        std::ifstream in(a.replay);
        std::string line;
        std::vector<uint64_t> c;
        bool have = false, history = false;
        Args h = a;
        while (std::getline(in, line)) {
            std::istringstream is(line);
            std::string w;
            is >> w;
            if (w == "choices") {
                size_t n;
                is >> n;
                c.resize(n);
                for (auto& x : c) is >> x;
                have = true;
            } else if (w == "history") {
                is >> h.seed >> h.shard >> h.first >> h.cases;
                history = true;
            }
        }
        if (!have && !history) {
            std::fprintf(stderr, "no choices in %s\n", a.replay.c_str());
            return 3;
        }
        std::string msg;
        if (history) {
            std::fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) {
                child_setup();
                Stats st;
                std::string m;
                long k = worker_loop(h, shm, 0, m, st);
                put(shm->msg, sizeof shm->msg, m);
                child_leave(k >= 0 ? CHILD_FAIL : CHILD_PASS);
            }
            std::string how;
            Outcome o = wait_child(pid, property().hang_s, how, &shm->beat);
            std::printf("%s\n%s%s\n", bad(o) ? "FAIL" : "PASS", shm->msg,
                        how.c_str());
            return bad(o) ? 1 : 0;
        }
        if (mode == "replay-inproc") {
            Gen g(c, nullptr);
            Outcome o = run_case(g, nullptr, nullptr, msg);
            std::printf("%s\n%s\n", bad(o) ? "FAIL" : "PASS", msg.c_str());
            return bad(o) ? 1 : 0;
        }
        Outcome o = attempt(c, shm, msg);
        std::printf("%s\n%s\n",
                    bad(o) ? "FAIL" : o == DISCARDED ? "DISCARD" : "PASS",
                    msg.c_str());
        return bad(o) ? 1 : 0;
    }
    if (mode != "run") {
        std::fprintf(stderr,
                     "usage: %s run|replay --seed S --shard K --cases N "
                     "--time T --out DIR\n",
                     argv[0]);
        return 3;
    }

    const Property& P = property();
    double t0 = now(), deadline = t0 + a.time;
    int unconfirmed = 0;
    Stats iso;
    uint64_t first = a.first, end = a.first + a.cases;

    while (first < end && now() < deadline) {
        Outcome o;
        std::string msg;
        uint64_t idx = 0;
        if (!P.isolate) {
            std::fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) {
                child_setup();
                Stats st;
                std::string m;
                Args b = a;
                b.first = first;
                b.cases = end - first;
                long k = worker_loop(b, shm, deadline, m, st);
                if (k >= 0) {
                    put(shm->msg, sizeof shm->msg, m);
                    _exit(CHILD_FAIL);
                }
                reset(shm);
                if (P.at_worker_end) {
                    Gen g(std::vector<uint64_t>{}, nullptr);
                    Ctx c(g, &st, shm);
                    try {
                        P.at_worker_end(c);
                    } catch (const Fail& f) {
                        put(shm->msg, sizeof shm->msg, f.msg);
                        _exit(CHILD_FAIL);
                    }
                }
                write_stats(a, st, now() - t0);
                std::fflush(nullptr);
                // leave normally so that static destructors run
                std::exit(CHILD_PASS);
            }
            std::string how;
            o = wait_child(pid, P.hang_s, how, &shm->beat);
            if (o == PASS) return 0;
            idx = shm->case_idx;
            msg = o == FAILED ? std::string(shm->msg)
                              : how + "\n  case: " + shm->desc;
        } else {
            idx = first;
            reset(shm);
            shm->case_idx = idx;
            std::fflush(nullptr);
            int pfd[2];
            if (pipe(pfd)) return 3;
            pid_t pid = fork();
            if (pid == 0) {
                child_setup();
                close(pfd[0]);
                Gen g(case_seed(a, idx), shm);
                std::string m;
                Stats st;
                Outcome r = run_case(g, &st, shm, m);
                put(shm->msg, sizeof shm->msg, m);
                // ship statistics to the supervisor
                std::ostringstream os;
                os << st.nontrivial << ' ' << g.hash() << ' '
                   << st.labels.size() << '\n';
                for (auto& kv : st.labels)
                    os << kv.first << '\n' << kv.second << '\n';
                std::string s = os.str();
                if (s.size() > 60000) s.resize(60000);
                ssize_t w = write(pfd[1], s.data(), s.size());
                (void)w;
                close(pfd[1]);
                child_leave(r == PASS ? CHILD_PASS
                                      : r == FAILED ? CHILD_FAIL
                                                    : CHILD_DISCARD);
            }
            close(pfd[1]);
            std::string how;
            o = wait_child(pid, P.hang_s, how);
            std::string s;
            char buf[4096];
            ssize_t r;
            while ((r = read(pfd[0], buf, sizeof buf)) > 0)
                s.append(buf, static_cast<size_t>(r));
            close(pfd[0]);
            ++iso.evals;
            if (o == DISCARDED) ++iso.discards;
            if (o == PASS) {
                std::istringstream is(s);
                uint64_t nt = 0, h = 0, nl = 0;
                is >> nt >> h >> nl;
                std::string l, v;
                std::getline(is, l);
                for (uint64_t k = 0; k < nl && std::getline(is, l) &&
                                     std::getline(is, v);
                     ++k)
                    iso.labels[l] += std::stoull(v);
                if (nt) {
                    ++iso.nontrivial;
                    iso.hashes.insert(h);
                    if (iso.samples.size() < 3 && (iso.nontrivial % 37) == 1)
                        iso.samples.push_back(shm->desc);
                }
            }
            if (!bad(o)) {
                ++first;
                continue;
            }
            msg = o == FAILED ? std::string(shm->msg)
                              : how + "\n  case: " + shm->desc;
        }

        if (!P.isolate && shm->leak_first) {
            // find the case that leaks
            uint64_t lo = shm->leak_first - 1;
            for (uint64_t i = lo; i <= idx; ++i) {
                reset(shm);
                std::fflush(nullptr);
                pid_t pid = fork();
                if (pid == 0) {
                    child_setup();
                    Gen g(case_seed(a, i), shm);
                    std::string m;
                    Outcome q = run_case(g, nullptr, shm, m);
                    if (q == PASS) check_leak(shm, q, m);
                    put(shm->msg, sizeof shm->msg, m);
                    child_leave(q == FAILED ? CHILD_FAIL : CHILD_PASS);
                }
                std::string how;
                if (bad(wait_child(pid, P.hang_s, how))) {
                    idx = i;
                    msg = shm->msg;
                    break;
                }
            }
        }

        // ---- a failure: confirm, shrink, write replay ----
        auto orig = taken(shm);
        bool at_end = !P.isolate && shm->status == 0 && orig.empty();
        std::string m2 = msg;
        int again = 0;
        Outcome kind = o;
        for (int r = 0; r < (P.isolate ? 6 : 3); ++r) {
            std::string m;
            Outcome q = attempt(orig, shm, m);
            if (bad(q)) {
                ++again;
                kind = q;
                m2 = m;
                if (P.isolate && again >= 3) break;
            }
            if (o == HANG && again) break;
        }
        static const char* names[] = {"pass", "fail", "discard", "crash",
                                      "hang"};
        if (!at_end && (again >= 3 || (o == HANG && again))) {
            std::string m = m2;
            auto best = kind == HANG
                            ? orig
                            : shrink(orig, kind, shm, m, 40, 1200);
            write_failure(a, names[kind], best, idx, m, "");
            std::printf("FAIL shard %u: %s\n", a.shard, m.c_str());
            return 1;
        }
        if (!P.isolate) {
            // depends on what ran before it in this process?
            Args h = a;
            h.first = first;
            h.cases = idx - first + 1;
            int hits = 0;
            for (int r = 0; r < 2; ++r) {
                reset(shm);
                std::fflush(nullptr);
                pid_t pid = fork();
                if (pid == 0) {
                    child_setup();
                    Stats st;
                    std::string m;
                    long k = worker_loop(h, shm, 0, m, st);
                    put(shm->msg, sizeof shm->msg, m);
                    if (k < 0 && at_end) std::exit(CHILD_PASS);
                    _exit(k >= 0 ? CHILD_FAIL : CHILD_PASS);
                }
                std::string how;
                if (bad(wait_child(pid, P.hang_s, how, &shm->beat))) ++hits;
            }
            if (hits == 2 || (hits && P.definite)) {
                std::ostringstream ex;
                ex << "history " << h.seed << ' ' << h.shard << ' ' << h.first
                   << ' ' << h.cases;
                write_failure(a, names[o], {}, idx, msg, ex.str());
                std::printf("FAIL shard %u (history): %s\n", a.shard,
                            msg.c_str());
                return 1;
            }
        }
        if (again >= 1 || P.definite) {
            write_failure(a, names[o], orig, idx, msg, "");
            std::printf("FAIL shard %u (intermittent): %s\n", a.shard,
                        msg.c_str());
            return 1;
        }
        std::printf("unconfirmed shard %u case %llu: %s\n", a.shard,
                    static_cast<unsigned long long>(idx), msg.c_str());
        ++iso.labels["unconfirmed failure"];
        if (++unconfirmed > 20) break;
        first = idx + 1;
    }
    if (P.isolate || unconfirmed) {
        write_stats(a, iso, now() - t0);
    }
    return 0;
}

}  // namespace pbt
