// Stand-in for https://github.com/p-ranav/indicators (not installed): accepts what the chunker uses and draws nothing.
// Every call is a scheduling point of the controlled scheduler (see ../sched.hpp).
#pragma once
#include <cstddef>
#include <iosfwd>
#include <string>
#include <utility>
#include <vector>

#ifdef MC_SCHED
extern "C" void mc_yield();
#define MC_BAR_YIELD() mc_yield()
#else
#define MC_BAR_YIELD() (void)0
#endif

namespace indicators {
enum class Color { grey, red, green, yellow, blue, magenta, cyan, white, unspecified };
enum class FontStyle { bold, dark, italic, underline, blink, reverse, concealed, crossed };
enum class ProgressType { incremental, decremental };

namespace option {
#define MC_OPTION(NAME)                                    \
  struct NAME {                                            \
    template <typename... T>                               \
    explicit NAME(T&&...) {}                               \
  };
MC_OPTION(BarWidth) MC_OPTION(Start) MC_OPTION(End) MC_OPTION(Fill) MC_OPTION(Lead) MC_OPTION(Remainder)
MC_OPTION(PrefixText) MC_OPTION(PostfixText) MC_OPTION(ShowPercentage) MC_OPTION(ShowElapsedTime)
MC_OPTION(ShowRemainingTime) MC_OPTION(SavedStartTime) MC_OPTION(ForegroundColor) MC_OPTION(MinProgress)
MC_OPTION(MaxProgress) MC_OPTION(HideBarWhenComplete) MC_OPTION(Completed) MC_OPTION(Stream)
MC_OPTION(MaxPostfixTextLen) MC_OPTION(ProgressType)
struct FontStyles {
  explicit FontStyles(std::vector<FontStyle>) {}
};
#undef MC_OPTION
}  // namespace option

class BlockProgressBar {
 public:
  template <typename... O>
  explicit BlockProgressBar(O&&...) {}
  template <typename O>
  void set_option(O&&) {}
  template <typename V>
  void set_progress(V) {
    MC_BAR_YIELD();
  }
  void tick() { MC_BAR_YIELD(); }
  void mark_as_completed() {}
  bool is_completed() const { return false; }
  std::size_t current() const { return 0; }
  void print_progress(bool = false) {}
};
using ProgressBar = BlockProgressBar;
}  // namespace indicators
