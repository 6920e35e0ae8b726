#pragma once
namespace indicators {
inline void show_console_cursor(bool) {}
inline void erase_line() {}
}  // namespace indicators
