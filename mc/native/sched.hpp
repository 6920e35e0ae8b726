// Force-included into the controlled build of the chunker: threads and mutexes become those of a cooperative scheduler
// that runs exactly one thread at a time and switches only at the positions given by the explorer (sched.cpp).
#pragma once
#include <arrow/api.h>
#include <arrow/array.h>
#include <arrow/python/pyarrow.h>
#include <arrow/type_traits.h>
#include <arrow/util/checked_cast.h>
#include <fmt/format.h>
#include <fmt/ranges.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <spdlog/spdlog.h>

#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <exception>
#include <functional>
#include <future>
#include <iostream>
#include <latch>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stop_token>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "absl/container/btree_map.h"
#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "absl/container/node_hash_map.h"

#define MC_NI __attribute__((no_instrument_function))
extern "C" {
void mc_yield() MC_NI;
int mc_spawn(std::function<void()>* f) MC_NI;
void mc_join(int id) MC_NI;
void mc_lock(void* m) MC_NI;
bool mc_trylock(void* m) MC_NI;
void mc_unlock(void* m) MC_NI;
}

namespace std {
class mc_mutex {
 public:
  MC_NI mc_mutex() = default;
  mc_mutex(const mc_mutex&) = delete;
  mc_mutex& operator=(const mc_mutex&) = delete;
  MC_NI void lock() { mc_lock(this); }
  MC_NI bool try_lock() { return mc_trylock(this); }
  MC_NI void unlock() { mc_unlock(this); }
};

class mc_thread {
 public:
  using id = std::thread::id;
  MC_NI mc_thread() noexcept = default;
  template <typename F, typename... A>
    requires(!std::is_same_v<std::remove_cvref_t<F>, mc_thread>)
  MC_NI explicit mc_thread(F&& f, A&&... a) {
    auto t = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
    id_ = mc_spawn(new std::function<void()>([t]() {
      std::apply([](auto& fn, auto&... args) { std::invoke(std::move(fn), std::move(args)...); }, *t);
    }));
  }
  MC_NI mc_thread(mc_thread&& o) noexcept : id_(std::exchange(o.id_, -1)) {}
  MC_NI mc_thread& operator=(mc_thread&& o) noexcept {
    if (joinable()) std::terminate();
    id_ = std::exchange(o.id_, -1);
    return *this;
  }
  MC_NI ~mc_thread() {
    if (joinable()) std::terminate();
  }
  MC_NI bool joinable() const noexcept { return id_ >= 0; }
  MC_NI void join() {
    mc_join(id_);
    id_ = -1;
  }
  MC_NI void detach() { id_ = -1; }
  MC_NI void swap(mc_thread& o) noexcept { std::swap(id_, o.id_); }
  MC_NI static unsigned int hardware_concurrency() noexcept { return 4; }

 private:
  int id_ = -1;
};
}  // namespace std

#define thread mc_thread
#define mutex mc_mutex
#define condition_variable condition_variable_any
