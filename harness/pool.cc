// Replays behaviours of Pool.tla in the real thread pool.  Tasks wait at a
// gate until the behaviour releases them; after an action the harness waits
// until every other thread sleeps and compares the state with the
// specification's.  Lock and wait functions are interposed to vary the
// schedule and to wake waiters spuriously, as POSIX allows.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dirent.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <future>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

#include "ThreadPool/ThreadPool.h"
#include "replay.h"

namespace {
std::atomic<uint32_t> g_noise{1};
std::atomic<int> g_level{0};
uint32_t noise() {
  const uint32_t x = g_noise.fetch_add(0x9E3779B9u);
  uint32_t y = x ^ (x >> 15);
  y *= 0x85EBCA6Bu;
  return y ^ (y >> 13);
}
void dither() {
  const int level = g_level.load(std::memory_order_relaxed);
  if (!level) return;
  const uint32_t r = noise();
  if (r % 4 == 0) sched_yield();
  if (level > 1 && r % 16 == 5) {
    for (volatile int i = 0; i < static_cast<int>(r >> 20); ++i) {
    }
  }
}
template <class F>
F real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
}  // namespace

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  dither();
  return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  const int r = f(m);
  dither();
  return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static auto f =
      real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (g_level.load(std::memory_order_relaxed) && noise() % 3 == 0) {
    pthread_mutex_unlock(m);  // a spurious wake-up
    sched_yield();
    pthread_mutex_lock(m);
    return 0;
  }
  return f(c, m);
}
int pthread_cond_signal(pthread_cond_t* c) {
  static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  dither();
  return f(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  dither();
  return f(c);
}
}

using replay::expect_eq;
using replay::fail;
using std::string;
using std::vector;

namespace {
// ------------------------------------------------------------- quiescence
// True if every other thread is asleep; *runs sums up their context switches.
bool scan(unsigned long* runs) {
  const long me = static_cast<long>(gettid());
  DIR* d = opendir("/proc/self/task");
  if (!d) fail("no /proc");
  bool quiet = true;
  *runs = 0;
  while (dirent* e = readdir(d)) {
    const long tid = std::strtol(e->d_name, nullptr, 10);
    if (tid <= 0 || tid == me) continue;
    char p[64];
    std::snprintf(p, sizeof p, "/proc/self/task/%ld/status", tid);
    FILE* f = std::fopen(p, "r");
    if (!f) {
      *runs += 1000003;
      continue;
    }
    char line[256];
    while (std::fgets(line, sizeof line, f)) {
      char st;
      unsigned long v;
      if (std::sscanf(line, "State: %c", &st) == 1) {
        if (st != 'S') quiet = false;
      } else if (std::sscanf(line, "voluntary_ctxt_switches: %lu", &v) == 1) {
        *runs += v;
      }
    }
    std::fclose(f);
    *runs += 7919UL * static_cast<unsigned long>(tid);
  }
  closedir(d);
  return quiet;
}
void quiesce() {
  unsigned long a, b;
  for (int tries = 0; tries < 4000000; ++tries) {
    if (scan(&a) && scan(&b) && a == b) return;
    sched_yield();
  }
  fail("the threads do not come to rest");
}

// ------------------------------------------------------------------ tasks
struct Task {
  std::atomic<int> started{0}, ended{0}, tid{-1};
  bool refused{false};
  std::future<int> result;
  int kind{0};
  bool open{false};
};
struct Problem : public std::runtime_error {
  explicit Problem(int i) : std::runtime_error("task " + std::to_string(i)) {}
};

struct World {
  std::mutex m;
  std::condition_variable cv;
  vector<std::unique_ptr<Task>> tasks;  // guarded by m
  std::atomic<ThreadPool*> pool{nullptr};
  std::thread destroyer;
  int generation{0};

  Task* task(int i) {
    std::lock_guard<std::mutex> l(m);
    return tasks.at(i - 1).get();
  }
  int add(int kind) {
    std::lock_guard<std::mutex> l(m);
    tasks.emplace_back(new Task);
    tasks.back()->kind = kind;
    return tasks.size();
  }
  void submit(int i) {
    Task* t = task(i);
    try {
      if (i % 2) {
        t->result = pool.load()->enqueue([this, i] { return body(i); });
      } else {
        t->result = pool.load()->enqueue(
            [this](int a, const string&) { return body(a); }, i, "argument");
      }
    } catch (const std::runtime_error&) {
      t->refused = true;
    }
  }
  int body(int i) {
    Task* t = task(i);
    t->tid = ThreadPool::get_thread_id();
    ++t->started;
    {
      std::unique_lock<std::mutex> l(m);
      cv.notify_all();
      cv.wait(l, [t] { return t->open; });
    }
    if (t->kind == 3) submit(add(1));
    if (ThreadPool::get_thread_id() != t->tid) t->tid = -2;
    ++t->ended;
    if (t->kind == 2) throw Problem(i);
    return 7 * i + 3;
  }
  void open(int i) {
    {
      std::lock_guard<std::mutex> l(m);
      tasks.at(i - 1)->open = true;
    }
    cv.notify_all();
  }
};

void crowd(ThreadPool* pool, int n) {
  const int per = 8;
  vector<std::thread> th;
  std::atomic<int> go{0}, bad{0};
  vector<std::atomic<int>> count(n * per);
  for (auto& x : count) x = 0;
  for (int k = 0; k < n; ++k) {
    th.emplace_back([&, k] {
      ++go;
      while (go < n) sched_yield();
      vector<std::future<int>> f;
      for (int j = 0; j < per; ++j) {
        const int id = k * per + j;
        f.push_back(pool->enqueue([&count, id] {
          ++count[id];
          return id;
        }));
      }
      for (int j = 0; j < per; ++j) {
        if (f[j].wait_for(std::chrono::seconds(60)) !=
                std::future_status::ready ||
            f[j].get() != k * per + j) {
          ++bad;
          break;
        }
      }
    });
  }
  for (auto& x : th) x.join();
  if (bad) fail("a task of a crowd did not yield its result");
  for (auto& x : count) expect_eq(1, x.load(), "executions of a short task");
}

void observe(World* w, const string& where, const vector<int>& o) {
  const int n = o[0];
  vector<Task*> ts;
  {
    std::lock_guard<std::mutex> l(w->m);
    for (auto& t : w->tasks) ts.push_back(t.get());
  }
  expect_eq(n > 0, w->pool.load() != nullptr, where + " pool alive");
  std::set<int> ids;
  for (size_t k = 0; k < ts.size(); ++k) {
    const bool run = o[2] >> k & 1, done = o[3] >> k & 1, ref = o[4] >> k & 1;
    const string wt = where + " task " + std::to_string(k + 1);
    expect_eq(ref, ts[k]->refused, wt + " refused");
    expect_eq(run || done ? 1 : 0, ts[k]->started.load(), wt + " starts");
    expect_eq(done ? 1 : 0, ts[k]->ended.load(), wt + " ends");
    if (run || done) {
      const int id = ts[k]->tid;
      if (id < 1) fail(wt + " worker identifier " + std::to_string(id));
      if (run) {
        if (id > n) fail(wt + " worker identifier above the number of workers");
        if (!ids.insert(id).second) fail(wt + " shares a worker identifier");
      }
    }
    if (!ref && ts[k]->result.valid()) {
      const bool ready = ts[k]->result.wait_for(std::chrono::seconds(0)) ==
                         std::future_status::ready;
      expect_eq(done, ready, wt + " future ready");
      if (ready) {
        try {
          const int v = ts[k]->result.get();
          if (ts[k]->kind == 2) fail(wt + " lost its exception");
          expect_eq(static_cast<int>(7 * (k + 1) + 3), v, wt + " value");
        } catch (const Problem& e) {
          if (ts[k]->kind != 2) fail(wt + " raised an exception");
          expect_eq("task " + std::to_string(k + 1), string(e.what()),
                    wt + " exception");
        }
      }
    }
  }
  expect_eq(0, ThreadPool::get_thread_id(), where + " owner's identifier");
  replay::stats()["observations"]++;
}

void run_case(const vector<string>& raw) {
  std::istringstream h(raw.at(0));
  int level, async;
  uint32_t seed;
  h >> level >> async >> seed;
  g_noise = seed * 2654435761u + 1;
  static std::unique_ptr<World> w;
  w.reset(new World);
  g_level = level;
  ThreadPool::get_thread_id();
  bool stopping = false;
  size_t s = 0;
  string why;
  vector<int> last{0, 0, 0, 0, 0};
  try {
    for (s = 1; s < raw.size(); ++s) {
      std::istringstream in(raw[s]);
      string nm;
      int i, v;
      in >> nm >> i >> v;
      vector<int> o(5);
      for (int& x : o) in >> x;
      bool must_wait = !async || s + 1 == raw.size();
      if (nm == "new") {
        w->pool = new ThreadPool(i);
      } else if (nm == "enq") {
        w->submit(w->add(v));
      } else if (nm == "release") {
        Task* t = w->task(i);
        if (async) {
          std::unique_lock<std::mutex> l(w->m);
          w->cv.wait_for(l, std::chrono::seconds(60),
                         [t] { return t->started > 0; });
        }
        w->open(i);
        if (t->kind == 3 || stopping) must_wait = true;
      } else if (nm == "crowd") {
        quiesce();
        crowd(w->pool.load(), i);
        must_wait = true;
      } else if (nm == "destroy") {
        if (w->destroyer.joinable()) w->destroyer.join();
        ThreadPool* p = w->pool.load();
        World* ww = w.get();
        w->destroyer = std::thread([p, ww] {
          delete p;
          ww->pool = nullptr;
        });
        must_wait = true;
      } else {
        fail("unknown operation " + nm);
      }
      stopping = o[1] == 1;
      last = o;
      if (must_wait) {
        quiesce();
        observe(w.get(), "step " + std::to_string(s) + " (" + raw[s] + ")", o);
      }
    }
  } catch (const replay::Divergence& e) {
    why = e.what();
  }
  g_level = 0;
  if (!why.empty()) {
    // The threads may never end.
    replay::stop_after_fail() = true;
    throw replay::Divergence(why);
  }
  // Wind up: open every gate, destroy the pool; everything accepted must end.
  for (int round = 0; round < 3; ++round) {
    size_t n;
    {
      std::lock_guard<std::mutex> l(w->m);
      n = w->tasks.size();
    }
    for (size_t k = 1; k <= n; ++k) w->open(k);
    quiesce();
  }
  if (w->destroyer.joinable()) {
    if (stopping && w->pool.load()) {
      replay::stop_after_fail() = true;
      fail("in the end, destroying the pool does not complete");
    }
    w->destroyer.join();
  }
  if (w->pool.load()) {
    ThreadPool* p = w->pool.load();
    World* ww = w.get();
    w->destroyer = std::thread([p, ww] {
      delete p;
      ww->pool = nullptr;
    });
    quiesce();
    if (w->pool.load()) {
      replay::stop_after_fail() = true;
      fail("in the end, destroying the pool does not complete");
    }
    w->destroyer.join();
  }
  for (size_t k = 0; k < w->tasks.size(); ++k) {
    const Task& t = *w->tasks[k];
    if (!t.refused) {
      expect_eq(1, t.ended.load(),
                "in the end, task " + std::to_string(k + 1) + " has run");
    }
  }
}
}  // namespace

int main() { return replay::run(run_case); }
