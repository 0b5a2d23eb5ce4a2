// The thread pool, one process per case: the pool is a singleton that lives
// until the process exits.
#include <DedicatedThreadPool.hpp>

#include <dirent.h>
#include <dlfcn.h>
#include <pthread.h>
#include <time.h>

#include <memory>
#include <set>
#include <stdexcept>
#include <string>

#include "pbt.hpp"
using pbt::Ctx;
using pbt::Gen;

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define UNDER_TSAN
#endif
#endif
#ifdef __SANITIZE_THREAD__
#define UNDER_TSAN
#endif

#ifndef UNDER_TSAN
// fault injection: the k-th thread can not be created
static std::atomic<int> fail_thread_at{-1};
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a,
                              void* (*f)(void*), void* arg) {
    static auto real = reinterpret_cast<decltype(&pthread_create)>(
        dlsym(RTLD_NEXT, "pthread_create"));
    if (fail_thread_at.load() >= 0 && fail_thread_at.fetch_sub(1) == 0)
        return EAGAIN;
    return real(t, a, f, arg);
}
#endif

namespace {
constexpr size_t MAXT = 8192;
std::atomic<int> started[MAXT], finished[MAXT];
std::atomic<size_t> issued{0};
std::atomic<bool> armed{false};

[[noreturn]] void die(const std::string& m) {
    std::string s = m + "\n  case: " + pbt::the_shm()->desc;
    pbt::put(pbt::the_shm()->msg, sizeof pbt::the_shm()->msg, s);
    std::fprintf(stderr, "%s\n", s.c_str());
    std::fflush(stderr);
    _exit(pbt::CHILD_FAIL);
}

void check_counts() {
    for (size_t i = 0; i < issued.load(); ++i) {
        int s = started[i].load(), f = finished[i].load();
        if (s > 1) die("task " + std::to_string(i) + " ran " + std::to_string(s) + " times");
        if (s != f) die("task " + std::to_string(i) + " was still running after the pool was gone");
    }
}

// constructed before the pool, so destroyed after it
struct Guard {
    ~Guard() {
        if (armed) check_counts();
    }
};
void guard() { static Guard g; }

void nap(unsigned us) {
    if (!us) return;
    struct timespec t = {static_cast<time_t>(us / 1000000),
                         static_cast<long>(us % 1000000) * 1000};
    nanosleep(&t, nullptr);
}

size_t os_threads() {
    size_t n = 0;
    DIR* d = opendir("/proc/self/task");
    if (!d) return 0;
    while (auto* e = readdir(d))
        if (e->d_name[0] != '.') ++n;
    closedir(d);
    return n;
}

struct Odd {
    size_t id;
};

template <typename T>
struct Val;
template <>
struct Val<void> {
    static void make(size_t) {}
    static bool get(std::future<void>& f, size_t) {
        f.get();
        return true;
    }
    static const char* name() { return "void"; }
};
template <>
struct Val<long> {
    static long make(size_t id) { return static_cast<long>(id) * 7 + 3; }
    static bool get(std::future<long>& f, size_t id) { return f.get() == make(id); }
    static const char* name() { return "long"; }
};
template <>
struct Val<std::string> {
    static std::string make(size_t id) { return "task number " + std::to_string(id) + " of many"; }
    static bool get(std::future<std::string>& f, size_t id) { return f.get() == make(id); }
    static const char* name() { return "string"; }
};
template <>
struct Val<std::unique_ptr<size_t>> {
    static std::unique_ptr<size_t> make(size_t id) { return std::unique_ptr<size_t>(new size_t(id)); }
    static bool get(std::future<std::unique_ptr<size_t>>& f, size_t id) {
        auto p = f.get();
        return p && *p == id;
    }
    static const char* name() { return "unique_ptr"; }
};

struct TaskPlan {
    int kind;          // 0 value, 1 runtime_error, 2 Odd, 3 submits another task
    unsigned work_us, before_us;
};
struct Submitter {
    bool pingpong;
    int order;  // 0 forward, 1 backward
    std::vector<TaskPlan> tasks;
};

template <typename T>
struct Run {
    using Pool = intp::DedicatedThreadPool<T>;
    Pool* pool = nullptr;
    std::mutex m;
    std::vector<std::pair<size_t, std::future<T>>> nested;
    std::set<std::thread::id> workers;

    struct Item {
        size_t id;
        int kind;
        std::future<T> f;
    };

    static size_t next_id() {
        size_t i = issued.fetch_add(1);
        if (i >= MAXT) die("harness: too many tasks");
        return i;
    }

    // move-only when it carries a unique_ptr
    std::future<T> submit(size_t id, int kind, unsigned us) {
        return pool->queue_task([this, id, kind, us]() -> T {
            started[id].fetch_add(1);
            {
                std::lock_guard<std::mutex> lk(m);
                workers.insert(std::this_thread::get_id());
            }
            nap(us);
            if (kind == 3) {
                size_t n = next_id();
                auto f = submit(n, 0, 0);
                std::lock_guard<std::mutex> lk(m);
                nested.emplace_back(n, std::move(f));
            }
            struct Fin {
                size_t id;
                ~Fin() { finished[id].fetch_add(1); }
            } fin{id};
            if (kind == 1) throw std::runtime_error("task " + std::to_string(id));
            if (kind == 2) throw Odd{id};
            return Val<T>::make(id);
        });
    }

    static void collect(Item& it) {
        bool thrown = false;
        try {
            if (!Val<T>::get(it.f, it.id)) die("task " + std::to_string(it.id) + ": wrong value");
        } catch (const std::future_error& e) {
            die("task " + std::to_string(it.id) + ": " + e.what());
        } catch (const std::runtime_error& e) {
            thrown = true;
            if (it.kind != 1 || e.what() != "task " + std::to_string(it.id))
                die("task " + std::to_string(it.id) + ": wrong exception " + e.what());
        } catch (const Odd& o) {
            thrown = true;
            if (it.kind != 2 || o.id != it.id) die("wrong exception");
        }
        if (!thrown && (it.kind == 1 || it.kind == 2))
            die("task " + std::to_string(it.id) + ": exception was lost");
        if (started[it.id] != 1) die("task " + std::to_string(it.id) + " ran " +
                                     std::to_string(started[it.id].load()) + " times");
    }

    void submitter(const Submitter& s, std::vector<Item>& items, bool wait) {
        for (auto& t : s.tasks) {
            nap(t.before_us);
            size_t id = next_id();
            items.push_back(Item{id, t.kind, submit(id, t.kind, t.work_us)});
            if (s.pingpong) {
                collect(items.back());
                items.pop_back();
            }
        }
        if (!wait) return;
        if (s.order) std::reverse(items.begin(), items.end());
        for (auto& it : items) collect(it);
    }

    void go(Ctx& ctx, size_t n, const std::vector<Submitter>& subs, size_t end,
            unsigned end_us, bool racing_start, int break_thread) {
        guard();
        (void)break_thread;
#ifndef UNDER_TSAN
        if (break_thread >= 0) {
            size_t before = os_threads();
            fail_thread_at = break_thread;
            bool thrown = false;
            try {
                Pool::get_instance(n);
            } catch (const std::exception&) {
                thrown = true;
            }
            fail_thread_at = -1;
            if (!thrown) die("a thread could not be started but no exception was thrown");
            for (int i = 0; os_threads() != before && i < 4000; ++i) nap(1000);
            if (os_threads() != before) die("threads of a pool that failed to start are left behind");
        }
#endif
        size_t before = os_threads();
        if (racing_start) {
            std::vector<std::thread> ts;
            std::vector<Pool*> got(4);
            for (size_t i = 0; i < 4; ++i)
                ts.emplace_back([&got, i, n] { got[i] = &Pool::get_instance(n); });
            for (auto& t : ts) t.join();
            for (auto* p : got)
                if (p != got[0]) die("two instances of one pool");
            pool = got[0];
        } else
            pool = &Pool::get_instance(n);
        armed = true;
        size_t tn = pool->thread_num();
        if (n ? tn != n : tn == 0)
            die("asked for " + std::to_string(n) + " threads, thread_num() is " + std::to_string(tn));
        if (&Pool::get_instance(n + 3) != pool || pool->thread_num() != tn)
            die("a second request changed the pool");
#ifndef UNDER_TSAN
        // (threads joined by us may take a moment to vanish from /proc)
        for (int i = 0; os_threads() != before + tn && i < 4000; ++i) nap(1000);
        if (os_threads() != before + tn)
            die("the pool runs " + std::to_string(os_threads() - before) + " threads instead of " + std::to_string(tn));
#else
        (void)before;
#endif

        std::vector<std::vector<Item>> items(subs.size());
        std::vector<std::thread> ts;
        std::vector<std::thread::id> outside = {std::this_thread::get_id()};
        bool wait = end != 1;
        for (size_t i = 1; i < subs.size(); ++i)
            ts.emplace_back([this, &subs, &items, i, wait] { submitter(subs[i], items[i], wait); });
        for (auto& t : ts) outside.push_back(t.get_id());
        if (!subs.empty()) submitter(subs[0], items[0], wait);
        for (auto& t : ts) t.join();
        if (wait) {
            // tasks submitted by tasks
            for (;;) {
                std::vector<std::pair<size_t, std::future<T>>> more;
                {
                    std::lock_guard<std::mutex> lk(m);
                    more.swap(nested);
                }
                if (more.empty()) break;
                for (auto& p : more) {
                    Item it{p.first, 0, std::move(p.second)};
                    collect(it);
                }
            }
            if (!pool->is_main_queue_empty()) die("queue not empty after all results were obtained");
            for (size_t i = 0; i < issued; ++i)
                if (started[i] != 1) die("task " + std::to_string(i) + " did not run exactly once");
            std::lock_guard<std::mutex> lk(m);
            for (auto& id : outside)
                if (workers.count(id)) die("a task ran on a thread outside the pool");
            if (workers.size() > tn) die("more threads than announced ran tasks");
        } else {
            nap(end_us);
            // keep the futures: dropped tasks must not hurt anyone
            static std::vector<std::vector<Item>>* keep = nullptr;
            keep = new std::vector<std::vector<Item>>(std::move(items));
            (void)keep;
        }
        (void)ctx;
    }
};

template <typename T>
void run(Ctx& ctx) {
    Gen& g = ctx.g;
    size_t n = 0;
    switch (g.pick({30, 40, 20, 10, 4})) {
        case 0: n = 1 + g.below(3); break;
        case 1: n = 1 + g.below(8); break;
        case 2: n = 1 + g.below(16); break;
        case 4: n = 17 + g.below(g.coin() ? 16 : 84); break;
        default: n = 0;
    }
    size_t ns = g.coin() ? 1 : 1 + g.below(5);
    std::vector<Submitter> subs(ns);
    bool exceptions = g.coin(1, 3), nests = g.coin(1, 4), slow = g.coin(1, 3), paced = g.coin(1, 3);
#ifdef UNDER_TSAN
    // reference counts of exceptions live in uninstrumented libstdc++
    exceptions = false;
#endif
    size_t total = 0;
    for (auto& s : subs) {
        s.pingpong = g.coin(1, 4);
        s.order = static_cast<int>(g.below(2));
        size_t k = 0;
        switch (g.pick({30, 40, 20, 10})) {
            case 0: k = g.below(6); break;
            case 1: k = g.below(40); break;
            case 2: k = g.below(200); break;
            default: k = 200 + g.below(400);
        }
        for (size_t i = 0; i < k; ++i) {
            TaskPlan t = {0, 0, 0};
            if (exceptions && g.coin(1, 4)) t.kind = 1 + static_cast<int>(g.below(2));
            if (nests && g.coin(1, 6)) t.kind = 3;
            if (slow && g.coin(1, 4)) t.work_us = static_cast<unsigned>(g.below(k > 100 ? 100 : 800));
            if (paced && g.coin(1, 4)) t.before_us = static_cast<unsigned>(g.below(300));
            s.tasks.push_back(t);
        }
        total += k;
    }
    size_t end = g.pick({3, 1});
    unsigned end_us = static_cast<unsigned>(g.coin() ? g.below(2000) : 0);
    bool racing = g.coin(1, 5);
    int brk = -1;
#ifndef UNDER_TSAN
    if (g.coin(1, 12)) brk = static_cast<int>(g.below(n ? n : 8));
#endif
    std::string d = std::string("pool<") + Val<T>::name() + "> threads=" + std::to_string(n) +
                    (racing ? " requested by 4 threads at once" : "") +
                    (brk >= 0 ? " after thread " + std::to_string(brk) + " failed to start" : "") + " submitters:";
    for (auto& s : subs) {
        size_t c[4] = {};
        for (auto& t : s.tasks) ++c[t.kind];
        d += " {" + std::to_string(s.tasks.size()) + " tasks, " + std::to_string(c[1] + c[2]) +
             " throwing, " + std::to_string(c[3]) + " submitting" + (s.pingpong ? ", one at a time" : "") + "}";
    }
    d += end == 1 ? " exit with tasks pending after " + std::to_string(end_us) + "us" : " wait for all";
    ctx.describe(d);
    ctx.label(std::string("result ") + Val<T>::name());
    ctx.label(end == 1 ? "exit without waiting" : "all results awaited");
    if (total >= 2) ctx.nontrivial();
    // outlives the threads, which may still use it while the process exits
    auto* r = new Run<T>();
    r->go(ctx, n, subs, end, end_us, racing, brk);
}

void body(Ctx& ctx) {
    switch (ctx.g.below(4)) {
        case 0: run<void>(ctx); break;
        case 1: run<long>(ctx); break;
        case 2: run<std::string>(ctx); break;
        default: run<std::unique_ptr<size_t>>(ctx);
    }
}
}  // namespace

const pbt::Property& pbt::property() {
    static pbt::Property p = [] {
        pbt::Property q = {
            "C13",
            "one process per case: pool of 0-100 threads and one of 4 result "
            "types, 1-5 submitting threads with 0-600 tasks each (values, "
            "exceptions, sleeping tasks, tasks that submit tasks; in bulk or "
            "one at a time), results awaited in either order or the process "
            "left with tasks pending; thread creation made to fail at times; "
            "non-trivial: at least two tasks",
            body};
        q.isolate = true;
        q.normal_exit = true;
        q.definite = true;
        q.hang_s = 30;
        return q;
    }();
    return p;
}
