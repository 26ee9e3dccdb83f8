#include "sim.hpp"
#include <cstdarg>
#include <cstring>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim
{
  namespace
  {
    char buffer[1 << 16];
    std::size_t used = 0;
    int fd = 1;
  }

  auto real_write(int where, void const* data, std::size_t n) -> void
  {
    auto p = static_cast<char const*>(data);
    while (n)
    {
      auto const k = syscall(SYS_write, where, p, n);
      if (k <= 0) return;
      p += k;
      n -= k;
    }
  }

  auto log_open(int f) -> void { fd = f; used = 0; }

  auto log_flush() -> void
  {
    real_write(fd, buffer, used);
    used = 0;
  }

  auto log_raw(char const* data, std::size_t n) -> void
  {
    if (sizeof buffer < used + n) log_flush();
    if (sizeof buffer < n) return real_write(fd, data, n);
    std::memcpy(buffer + used, data, n);
    used += n;
  }

  auto log_line(char const* format, ...) -> void
  {
    static char line[4096];
    va_list ap;
    va_start(ap, format);
    auto n = std::vsnprintf(line, sizeof line - 1, format, ap);
    va_end(ap);
    if (n < 0) return;
    if (sizeof line - 2 < static_cast<std::size_t>(n)) n = sizeof line - 2;
    line[n++] = '\n';
    log_raw(line, n);
  }

  auto log_hex(char const* tag, void const* data, std::size_t n) -> void
  {
    static char const digits[] = "0123456789abcdef";
    log_raw(tag, std::strlen(tag));
    log_raw(" ", 1);
    for (std::size_t i = 0; i < n; ++i)
    {
      auto const c = static_cast<unsigned char const*>(data)[i];
      char const pair[2] = { digits[c >> 4], digits[c & 15] };
      log_raw(pair, 2);
    }
    if (not n) log_raw("-", 1);
    log_raw("\n", 1);
  }
}
