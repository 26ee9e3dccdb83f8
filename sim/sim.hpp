// Interfaces between the parts of the simulator. Nothing here draws a random
// number: every decision is written in the plan that the driver generated.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>

namespace sim
{
  // ---- memory (memory.cpp) --------------------------------------------------
  enum placement : int { lifo, fifo, fresh, scatter, sparse };

  auto memory_boot(int base_variant) -> void;          // choose where the arena starts
  auto memory_policy(placement, std::uint64_t salt) -> void;
  auto memory_fail_at(std::uint64_t const* at, std::size_t n) -> void; // indices of operator new calls, from now
  auto memory_fail_above(std::size_t bytes) -> void;   // requests larger than this fail
  auto memory_reset_counters() -> void;
  extern std::uint64_t news, deletes, news_failed, bytes_live;

  // ---- log (log.cpp) --------------------------------------------------------
  auto log_open(int fd) -> void;
  auto log_line(char const* format, ...) -> void __attribute__((format(printf, 1, 2)));
  auto log_hex(char const* tag, void const* data, std::size_t n) -> void;
  auto log_raw(char const* data, std::size_t n) -> void;
  auto log_flush() -> void;
  auto real_write(int fd, void const* data, std::size_t n) -> void;

  // ---- simulated disk, terminal and clock (io.cpp) ---------------------------
  auto io_reset() -> void;
  auto io_directive(char const* word, char const* rest) -> bool;
  auto io_crash_at(std::uint64_t) -> void;
  auto io_log_state() -> void;
  auto io_open_descriptors() -> int;
  auto io_trace(bool) -> void;
  auto io_install_standard_streams() -> void;
  auto io_take_output() -> void; // logs what reached the terminal since the last call
  auto clock_advance(std::int64_t) -> void;
  extern std::uint64_t io_events;
  extern bool io_active;

  // ---- end of a run (executor.cpp) -------------------------------------------
  [[noreturn]] auto finish(char const* how, int status) -> void;
}
