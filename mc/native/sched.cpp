// Cooperative scheduler behind sched.hpp. One registered thread runs at a time. A schedule is
//   - a priority order that decides who continues when the running thread blocks or ends, and
//   - a list of preemptions (position, thread): at the position-th scheduling point with a choice, switch to the thread.
// Scheduling points: thread creation, lock, progress bar calls (coarse), and every instrumented function entry (fine).
#include <algorithm>
#include <condition_variable>
#include <cstdint>
#include <functional>
#include <map>
#include <mutex>
#include <thread>
#include <vector>

namespace {
constexpr int kMax = 16;
enum State { kReady, kJoin, kMutex, kDone };
struct T {
  State state = kReady;
  int join = -1;
  void* mutex = nullptr;
  std::thread real;
  std::condition_variable cv;
};
std::mutex g;
T* ts[kMax];
int n = 0;
int current = -1;
bool active = false, free_run = false, fine = false;
uint64_t points = 0, switches = 0;
int flags = 0;  // 1: deadlock, 2: watchdog
std::vector<int> prio;
std::map<uint64_t, int> preempt;
std::map<void*, int> owner;
std::vector<uint32_t> choices;  // per scheduling point: threads that could run instead (bit mask)
thread_local int me = -1;
thread_local bool inside = false;

bool enabled(int i) {
  if (i >= n || !ts[i]) return false;
  if (ts[i]->state == kReady) return true;
  if (ts[i]->state == kJoin) return ts[ts[i]->join]->state == kDone;
  if (ts[i]->state == kMutex) return owner.find(ts[i]->mutex) == owner.end();
  return false;
}
int pick() {
  for (int i : prio)
    if (enabled(i)) return i;
  for (int i = 0; i < n; ++i)
    if (enabled(i)) return i;
  return -1;
}
void go_free(int why) {
  flags |= why;
  free_run = true;
  for (int i = 0; i < n; ++i) ts[i]->cv.notify_all();
}
// give the token to t and wait until it comes back; g is held
void switch_to(std::unique_lock<std::mutex>& l, int t) {
  if (t == me) {
    ts[me]->state = kReady;
    current = me;
    return;
  }
  ++switches;
  current = t;
  ts[t]->cv.notify_all();
  uint64_t seen = points;
  while (current != me && !free_run) {
    if (ts[me]->cv.wait_for(l, std::chrono::seconds(20)) == std::cv_status::timeout && current != me && !free_run) {
      if (points == seen) go_free(2);
      seen = points;
    }
  }
  if (!free_run) ts[me]->state = kReady;
}
void point() {
  if (!active || me < 0 || inside) return;
  inside = true;
  {
    std::unique_lock<std::mutex> l(g);
    if (!free_run) {
      uint32_t others = 0;
      for (int i = 0; i < n; ++i) others |= i != me && enabled(i) ? 1U << i : 0U;
      if (others) {
        const uint64_t p = points++;
        choices.push_back(others);
        const auto it = preempt.find(p);
        if (it != preempt.end() && it->second != me && enabled(it->second)) switch_to(l, it->second);
      }
    }
  }
  inside = false;
}
}  // namespace

#define NI __attribute__((no_instrument_function))
extern "C" {
void mc_yield() NI;
int mc_spawn(std::function<void()>* f) NI;
void mc_join(int id) NI;
void mc_lock(void* m) NI;
bool mc_trylock(void* m) NI;
void mc_unlock(void* m) NI;
void __cyg_profile_func_enter(void*, void*) NI;
void __cyg_profile_func_exit(void*, void*) NI;
void mc_begin(int is_fine, const int* priority, int np, const uint64_t* at, const int* to, int n_pre) NI;
void mc_end(uint64_t* out) NI;
uint64_t mc_choices(uint32_t* out, uint64_t max) NI;

void mc_yield() { point(); }
void __cyg_profile_func_enter(void*, void*) {
  if (fine) point();
}
void __cyg_profile_func_exit(void*, void*) {}

int mc_spawn(std::function<void()>* f) {
  int id;
  {
    std::unique_lock<std::mutex> l(g);
    if (n >= kMax) {
      id = -1;
    } else {
      id = n++;
      ts[id] = new T();
    }
    if (id >= 0) {
      const bool controlled = active && me >= 0;
      ts[id]->real = std::thread([f, id, controlled]() {
        if (controlled) {
          me = id;
          inside = true;
          std::unique_lock<std::mutex> l2(g);
          while (current != id && !free_run) ts[id]->cv.wait_for(l2, std::chrono::seconds(1));
          inside = false;
        }
        (*f)();
        delete f;
        std::unique_lock<std::mutex> l2(g);
        ts[id]->state = kDone;
        inside = true;
        if (controlled && !free_run) {
          const int t = pick();
          if (t < 0)
            go_free(1);
          else {
            ++switches;
            current = t;
            ts[t]->cv.notify_all();
          }
        }
      });
    }
  }
  point();
  return id;
}
void mc_join(int id) {
  std::thread real;
  {
    inside = true;
    std::unique_lock<std::mutex> l(g);
    if (active && me >= 0 && !free_run && ts[id]->state != kDone) {
      ts[me]->state = kJoin;
      ts[me]->join = id;
      const int t = pick();
      if (t < 0)
        go_free(1);
      else
        switch_to(l, t);
      ts[me]->state = kReady;
    }
    real = std::move(ts[id]->real);
    inside = false;
  }
  real.join();
}
void mc_lock(void* m) {
  point();
  std::unique_lock<std::mutex> l(g);
  inside = true;
  while (owner.find(m) != owner.end()) {
    if (active && me >= 0 && !free_run) {
      ts[me]->state = kMutex;
      ts[me]->mutex = m;
      const int t = pick();
      if (t < 0)
        go_free(1);
      else
        switch_to(l, t);
      ts[me]->state = kReady;
    } else {
      l.unlock();
      std::this_thread::yield();
      l.lock();
    }
  }
  owner[m] = me;
  inside = false;
}
bool mc_trylock(void* m) {
  point();
  std::unique_lock<std::mutex> l(g);
  if (owner.find(m) != owner.end()) return false;
  owner[m] = me;
  return true;
}
void mc_unlock(void* m) {
  std::unique_lock<std::mutex> l(g);
  owner.erase(m);
}

// the calling thread becomes thread 0
void mc_begin(int is_fine, const int* priority, int np, const uint64_t* at, const int* to, int n_pre) {
  std::unique_lock<std::mutex> l(g);
  for (int i = 0; i < n; ++i) delete ts[i];
  owner.clear();
  n = 1;
  ts[0] = new T();
  me = 0;
  current = 0;
  points = switches = 0;
  choices.clear();
  flags = 0;
  free_run = false;
  fine = is_fine != 0;
  prio.assign(priority, priority + np);
  preempt.clear();
  for (int i = 0; i < n_pre; ++i) preempt[at[i]] = to[i];
  active = true;
}
void mc_end(uint64_t* out) {
  std::unique_lock<std::mutex> l(g);
  active = false;
  me = -1;
  out[0] = points;
  out[1] = switches;
  out[2] = static_cast<uint64_t>(flags);
  out[3] = static_cast<uint64_t>(n - 1);
}
uint64_t mc_choices(uint32_t* out, uint64_t max) {
  const uint64_t k = std::min<uint64_t>(max, choices.size());
  std::copy(choices.begin(), choices.begin() + k, out);
  return k;
}
}
