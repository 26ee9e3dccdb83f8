// The simulated disk, terminal, clock and process environment. The linker
// redirects (--wrap) the C library calls that libstdc++ and meevax make here.
// Nothing below touches the real file system: a path outside the simulated
// tree does not exist.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.hpp"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

extern "C"
{
  FILE * __real_fopen(char const*, char const*);
  FILE * __real_fopen64(char const*, char const*);
  FILE * __real_fdopen(int, char const*);
  int __real_fclose(FILE *);
  int __real_fileno(FILE *);
  int __real_fflush(FILE *);
  int __real_setvbuf(FILE *, char *, int, size_t);
  char * __real_getenv(char const*);
}

namespace sim
{
  std::uint64_t io_events = 0;
  bool io_active = false;

  namespace
  {
    constexpr int max_files = 96, max_open = 256, max_faults = 64, max_list = 512, first_fd = 1000;

    struct file
    {
      char path[200];
      char * data;
      std::size_t size, room;
      bool exists, directory;
      bool readable, writable, pipe;
      int rchunk[max_list], rchunks, rnext;
      int wchunk[max_list], wchunks, wnext;
    };

    struct open_file
    {
      bool used, reading, writing, appending;
      file * f;
      std::size_t offset;
    };

    struct fault
    {
      char op[12];
      char path[200];
      int nth;                                   // -1: every time
      int error;
      std::uint64_t fired;
      int seen;
    };

    file files[max_files];
    int file_count = 0;

    open_file opened[max_open];
    int max_descriptors = 64;

    fault faults[max_faults];
    int fault_count = 0;

    std::size_t quota = SIZE_MAX;

    bool trace = false;

    std::uint64_t crash_event = UINT64_MAX;
    std::size_t crash_bytes = 0;

    // terminal
    char * input = nullptr; std::size_t input_size = 0, input_at = 0;
    int ichunk[max_list], ichunks = 0, inext = 0;
    struct sink { char * data; std::size_t size, room, taken; } out, err;

    // clock
    std::int64_t now = 1700000000000000000ll;
    std::int64_t monotonic = 1000000000000ll;
    std::int64_t tick[max_list]; int ticks = 0, tick_next = 0;
    std::uint64_t clock_reads = 0;

    // environment
    struct variable { char key[64]; char text[256]; } variables[32];
    int variable_count = 0;

    std::uint64_t history = 1469598103934665603ull; // FNV of everything that happened at this boundary

    auto note(char const* op, char const* path, long result, int error = 0) -> void
    {
      for (auto p = op; *p; ++p) history = (history ^ static_cast<unsigned char>(*p)) * 1099511628211ull;
      for (auto p = path; *p; ++p) history = (history ^ static_cast<unsigned char>(*p)) * 1099511628211ull;
      history = (history ^ static_cast<std::uint64_t>(result)) * 1099511628211ull;
      history = (history ^ static_cast<std::uint64_t>(error)) * 1099511628211ull;
      if (trace) log_line("T %s %s %ld %d", op, path, result, error);
    }

    auto grow(char * & data, std::size_t & room, std::size_t need) -> void
    {
      if (room < need)
      {
        room = need < 4096 ? 4096 : need * 2;
        data = static_cast<char *>(realloc(data, room));
        if (not data) _exit(121);
      }
    }

    auto append(sink & s, char const* p, std::size_t n) -> void
    {
      if (s.size + n > (std::size_t(64) << 20)) n = 0; // a runaway loop is stopped elsewhere
      grow(s.data, s.room, s.size + n);
      std::memcpy(s.data + s.size, p, n);
      s.size += n;
    }

    auto normalize(char const* given, char * result, std::size_t room) -> bool
    {
      char text[1024];
      if (given[0] == '/') std::snprintf(text, sizeof text, "%s", given);
      else                 std::snprintf(text, sizeof text, "/sim/%s", given);
      char * parts[128];
      int n = 0;
      char * save = nullptr;
      for (auto p = strtok_r(text, "/", &save); p; p = strtok_r(nullptr, "/", &save))
      {
        if (not std::strcmp(p, ".")) continue;
        if (not std::strcmp(p, "..")) { if (n) --n; continue; }
        if (n < 128) parts[n++] = p;
      }
      std::size_t at = 0;
      result[0] = 0;
      if (not n) { std::snprintf(result, room, "/"); return true; }
      for (int i = 0; i < n; ++i)
      {
        auto const k = std::snprintf(result + at, room - at, "/%s", parts[i]);
        if (k < 0 or room - at <= static_cast<std::size_t>(k)) return false;
        at += k;
      }
      return true;
    }

    auto find(char const* given) -> file *
    {
      char path[200];
      if (not normalize(given, path, sizeof path)) return nullptr;
      for (int i = 0; i < file_count; ++i)
      {
        if (not std::strcmp(files[i].path, path)) return &files[i];
      }
      return nullptr;
    }

    auto add(char const* given) -> file *
    {
      if (auto f = find(given)) return f;
      if (file_count == max_files) return nullptr;
      auto f = &files[file_count];
      std::memset(static_cast<void *>(f), 0, sizeof *f);
      if (not normalize(given, f->path, sizeof f->path)) return nullptr;
      f->readable = f->writable = true;
      ++file_count;
      return f;
    }

    auto parent_exists(char const* given) -> bool
    {
      char path[200];
      if (not normalize(given, path, sizeof path)) return false;
      auto slash = std::strrchr(path, '/');
      if (slash == path) return false;
      *slash = 0;
      auto f = find(path);
      return f and f->exists and f->directory;
    }

    auto used_bytes() -> std::size_t
    {
      std::size_t n = 0;
      for (int i = 0; i < file_count; ++i) if (files[i].exists) n += files[i].size;
      return n;
    }

    // The error injected into this operation, or 0.
    auto injected(char const* op, char const* given) -> int
    {
      char path[200];
      normalize(given, path, sizeof path);
      for (int i = 0; i < fault_count; ++i)
      {
        auto & x = faults[i];
        if (not std::strcmp(x.op, op) and (not std::strcmp(x.path, path) or not std::strcmp(x.path, "*")))
        {
          auto const k = x.seen++;
          if (x.nth < 0 or x.nth == k)
          {
            ++x.fired;
            return x.error;
          }
        }
      }
      return 0;
    }

    auto event() -> bool // true: this is where the simulated machine stops
    {
      return io_events++ == crash_event;
    }

    [[noreturn]] auto crash() -> void
    {
      finish("crash", 0);
    }

    auto next(int const* list, int n, int & at, std::size_t wanted) -> std::size_t
    {
      if (not n) return wanted;
      auto const k = static_cast<std::size_t>(list[at % n]);
      ++at;
      return k < 1 ? 1 : k < wanted ? k : wanted;
    }

    auto slot(int fd) -> open_file *
    {
      if (fd < first_fd or first_fd + max_open <= fd) return nullptr;
      auto s = &opened[fd - first_fd];
      return s->used ? s : nullptr;
    }

    auto fake(FILE * p) -> int
    {
      auto const q = reinterpret_cast<open_file *>(p);
      return opened <= q and q < opened + max_open ? static_cast<int>(q - opened) + first_fd : -1;
    }

    auto fail(char const* op, char const* path, int error) -> long
    {
      note(op, path, -1, error);
      errno = error;
      return -1;
    }

    auto open_path(char const* path, char const* mode) -> FILE *
    {
      if (event()) crash();

      if (auto e = injected("open", path)) { fail("open", path, e); return nullptr; }

      auto const reading = std::strchr(mode, 'r') or std::strchr(mode, '+');
      auto const writing = std::strchr(mode, 'w') or std::strchr(mode, 'a') or std::strchr(mode, '+');

      auto f = find(path);

      if (mode[0] == 'r' and (not f or not f->exists)) { fail("open", path, ENOENT); return nullptr; }

      if (f and f->exists)
      {
        if ((reading and not f->readable) or (writing and not f->writable)) { fail("open", path, EACCES); return nullptr; }
        if (f->directory and writing) { fail("open", path, EISDIR); return nullptr; }
      }
      else
      {
        if (not parent_exists(path)) { fail("open", path, ENOENT); return nullptr; }
        if (f and not f->writable) { fail("open", path, EACCES); return nullptr; }
      }

      int k = 0;
      while (k < max_open and k < max_descriptors and opened[k].used) ++k;
      if (k == max_open or k == max_descriptors) { fail("open", path, EMFILE); return nullptr; }

      if (not f or not f->exists)
      {
        f = add(path);
        if (not f) { fail("open", path, ENOSPC); return nullptr; }
        f->exists = true;
        f->directory = false;
        f->size = 0;
      }

      if (mode[0] == 'w') f->size = 0;

      auto & s = opened[k];
      s.used = true;
      s.reading = reading;
      s.writing = writing;
      s.appending = mode[0] == 'a';
      s.f = f;
      s.offset = 0;
      note("open", f->path, k);
      return reinterpret_cast<FILE *>(&s);
    }

    auto close_slot(open_file & s) -> int
    {
      if (event()) crash();
      auto const e = injected("close", s.f->path);
      s.used = false;                              // the descriptor is gone either way
      note("close", s.f->path, e ? -1 : 0, e);
      if (e) { errno = e; return EOF; }
      return 0;
    }

    auto store(open_file & s, char const* p, std::size_t n) -> void
    {
      auto f = s.f;
      if (s.appending) s.offset = f->size;
      grow(f->data, f->room, s.offset + n);
      if (f->size < s.offset) std::memset(f->data + f->size, 0, s.offset - f->size);
      std::memcpy(f->data + s.offset, p, n);
      s.offset += n;
      if (f->size < s.offset) f->size = s.offset;
    }

    auto write_slot(open_file & s, char const* p, std::size_t n) -> ssize_t
    {
      if (event())
      {
        store(s, p, crash_bytes < n ? crash_bytes : n); // a torn write, then the machine stops
        crash();
      }
      if (not s.writing) return fail("write", s.f->path, EBADF);
      if (auto e = injected("write", s.f->path)) return fail("write", s.f->path, e);
      n = next(s.f->wchunk, s.f->wchunks, s.f->wnext, n);
      if (auto const used = used_bytes(); quota < used + n)
      {
        n = used < quota ? quota - used : 0;
        if (not n) return fail("write", s.f->path, ENOSPC);
      }
      store(s, p, n);
      note("write", s.f->path, n);
      return n;
    }

    auto read_slot(open_file & s, char * p, std::size_t n) -> ssize_t
    {
      if (event()) crash();
      if (not s.reading) return fail("read", s.f->path, EBADF);
      if (s.f->directory) return fail("read", s.f->path, EISDIR);
      if (auto e = injected("read", s.f->path)) return fail("read", s.f->path, e);
      auto const left = s.offset < s.f->size ? s.f->size - s.offset : 0;
      auto k = n < left ? n : left;
      if (k) k = next(s.f->rchunk, s.f->rchunks, s.f->rnext, k);
      std::memcpy(p, s.f->data + s.offset, k);
      s.offset += k;
      note("read", s.f->path, k);
      return k;
    }

    auto fill_stat(file const* f, struct stat * st) -> void
    {
      std::memset(st, 0, sizeof *st);
      st->st_mode = f->directory ? (S_IFDIR | 0755) : (S_IFREG | 0644);
      st->st_size = f->size;
      st->st_ino = 1 + (f - files);
      st->st_nlink = 1;
    }

    auto stat_path(char const* op, char const* path, struct stat * st) -> int
    {
      if (auto e = injected("stat", path)) return fail(op, path, e);
      auto f = find(path);
      if (not f or not f->exists) return fail(op, path, ENOENT);
      fill_stat(f, st);
      note(op, f->path, 0);
      return 0;
    }

    auto unhex(char const* s, char * & data, std::size_t & size, std::size_t & room) -> void
    {
      auto value = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
      size = 0;
      if (*s == '-') return;
      auto const n = std::strlen(s) / 2;
      grow(data, room, n + 1);
      for (std::size_t i = 0; i < n; ++i) data[i] = static_cast<char>(value(s[2 * i]) * 16 + value(s[2 * i + 1]));
      size = n;
    }

    auto numbers(char const* s, int * list) -> int
    {
      int n = 0;
      char * end = nullptr;
      for (auto v = std::strtol(s, &end, 10); end != s and n < max_list; v = std::strtol(s, &end, 10))
      {
        list[n++] = static_cast<int>(v);
        s = end;
      }
      return n;
    }

    auto errno_of(char const* s) -> int
    {
      if ('0' <= *s and *s <= '9') return std::atoi(s);
      static struct { char const* name; int value; } const table[] = {
        { "EINTR", EINTR }, { "EIO", EIO }, { "ENOSPC", ENOSPC }, { "EMFILE", EMFILE }, { "ENFILE", ENFILE },
        { "EACCES", EACCES }, { "ENOENT", ENOENT }, { "EROFS", EROFS }, { "EPERM", EPERM }, { "EBUSY", EBUSY },
        { "EDQUOT", EDQUOT }, { "EAGAIN", EAGAIN }, { "EFBIG", EFBIG }, { "ELOOP", ELOOP }, { "ENAMETOOLONG", ENAMETOOLONG },
        { "ENOMEM", ENOMEM }, { "ESTALE", ESTALE },
      };
      for (auto const& x : table) if (not std::strcmp(x.name, s)) return x.value;
      return EIO;
    }

    auto cookie_read(void *, char * p, size_t n) -> ssize_t
    {
      if (event()) crash();
      if (auto e = injected("read", "/sim/dev/stdin"))
      {
        if (e == EINTR) { errno = EINTR; note("read", "<stdin>", -1, e); return -1; }
        errno = e; note("read", "<stdin>", -1, e); return -1;
      }
      auto k = input_size - input_at;
      if (n < k) k = n;
      if (k) k = next(ichunk, ichunks, inext, k);
      if (k) std::memcpy(p, input + input_at, k);
      input_at += k;
      note("read", "<stdin>", k);
      return k;
    }

    auto cookie_write(void * c, char const* p, size_t n) -> ssize_t
    {
      if (not io_active) return n;
      if (event()) crash();
      append(c ? err : out, p, n);
      note("write", c ? "<stderr>" : "<stdout>", n);
      return n;
    }

    __attribute__((constructor(60))) auto install_cookies() -> void
    {
      cookie_io_functions_t in {}, w {};
      in.read = cookie_read;
      w.write = cookie_write;
      stdin = fopencookie(nullptr, "r", in);
      stdout = fopencookie(nullptr, "w", w);
      stderr = fopencookie(&err, "w", w);
      __real_setvbuf(stderr, nullptr, _IONBF, 0);
    }
  }

  auto io_trace(bool b) -> void { trace = b; }

  auto io_open_descriptors() -> int
  {
    int n = 0;
    for (auto const& s : opened) n += s.used;
    return n;
  }

  auto clock_advance(std::int64_t ns) -> void // time passes; or, if negative, the wall clock is stepped back
  {
    now += ns;
    if (0 < ns) monotonic += ns;
  }

  auto io_reset() -> void
  {
    file_count = 0;
    fault_count = 0;
    for (auto & s : opened) s.used = false;
    max_descriptors = 64;
    quota = SIZE_MAX;
    trace = false;
    crash_event = UINT64_MAX;
    io_events = 0;
    input_size = input_at = 0;
    ichunks = inext = 0;
    ticks = tick_next = 0;
    variable_count = 0;
    out.size = out.taken = err.size = err.taken = 0;
    for (auto d : { "/sim", "/sim/home", "/sim/tmp" })
    {
      auto f = add(d);
      f->exists = f->directory = true;
    }
    std::snprintf(variables[0].key, sizeof variables[0].key, "HOME");
    std::snprintf(variables[0].text, sizeof variables[0].text, "/sim/home");
    variable_count = 1;
    io_active = true;
  }

  auto io_directive(char const* word, char const* rest) -> bool
  {
    char a[200], b[200], c[200];
    int k = 0;
    auto is = [&](char const* s) { return not std::strcmp(word, s); };

    if (is("file"))
    {
      static char hex[1 << 22];
      if (std::sscanf(rest, "%199s %4194303s", a, hex) != 2) return false;
      auto f = add(a);
      if (not f) return false;
      f->exists = true;
      f->directory = false;
      unhex(hex, f->data, f->size, f->room);
      return true;
    }
    if (is("dir"))
    {
      if (std::sscanf(rest, "%199s", a) != 1) return false;
      auto f = add(a);
      if (not f) return false;
      return f->exists = f->directory = true;
    }
    if (is("mode")) // mode PATH rw|r|w|-
    {
      if (std::sscanf(rest, "%199s %199s", a, b) != 2) return false;
      auto f = add(a);
      if (not f) return false;
      f->readable = std::strchr(b, 'r');
      f->writable = std::strchr(b, 'w');
      return true;
    }
    if (is("pipe")) // pipe PATH: cannot seek
    {
      if (auto f = find(rest)) { f->pipe = true; return true; }
      return false;
    }
    if (is("rchunk") or is("wchunk"))
    {
      if (std::sscanf(rest, "%199s%n", a, &k) != 1) return false;
      if (not std::strcmp(a, "/sim/dev/stdin")) { ichunks = numbers(rest + k, ichunk); return true; }
      auto f = add(a);
      if (not f) return false;
      if (is("rchunk")) { f->rchunks = numbers(rest + k, f->rchunk); f->rnext = 0; }
      else              { f->wchunks = numbers(rest + k, f->wchunk); f->wnext = 0; }
      return true;
    }
    if (is("fault")) // fault OP PATH NTH|* ERRNO
    {
      char op[12];
      if (fault_count == max_faults or std::sscanf(rest, "%11s %199s %199s %199s", op, a, b, c) != 4) return false;
      auto & x = faults[fault_count++];
      std::memset(&x, 0, sizeof x);
      std::snprintf(x.op, sizeof x.op, "%s", op);
      if (not std::strcmp(a, "*")) std::snprintf(x.path, sizeof x.path, "*");
      else normalize(a, x.path, sizeof x.path);
      x.nth = *b == '*' ? -1 : std::atoi(b);
      x.error = errno_of(c);
      return true;
    }
    if (is("clearfaults"))
    {
      for (int i = 0; i < fault_count; ++i)
      {
        log_line("J %s %s %d %llu", faults[i].op, faults[i].path, faults[i].error, static_cast<unsigned long long>(faults[i].fired));
      }
      fault_count = 0; quota = SIZE_MAX; max_descriptors = 64; return true;
    }
    if (is("quota")) { quota = std::strtoull(rest, nullptr, 10); return true; }
    if (is("maxfd")) { max_descriptors = std::atoi(rest); return true; }
    if (is("crash")) // crash EVENT [BYTES]
    {
      unsigned long long n = 0, m = 0;
      if (std::sscanf(rest, "%llu %llu", &n, &m) < 1) return false;
      crash_event = n;
      crash_bytes = m;
      return true;
    }
    if (is("stdin"))
    {
      static std::size_t room = 0;
      unhex(rest, input, input_size, room);
      input_at = 0;
      return true;
    }
    if (is("clock")) // clock NOW [TICK ...], nanoseconds
    {
      char * end = nullptr;
      now = std::strtoll(rest, &end, 10);
      ticks = tick_next = 0;
      for (auto p = end; ; p = end)
      {
        auto v = std::strtoll(p, &end, 10);
        if (end == p or ticks == max_list) break;
        tick[ticks++] = v;
      }
      return true;
    }
    if (is("env"))
    {
      if (std::sscanf(rest, "%199s %199[^\n]", a, b) < 1 or variable_count == 32) return false;
      std::snprintf(variables[variable_count].key, 64, "%s", a);
      std::snprintf(variables[variable_count].text, 256, "%s", b);
      ++variable_count;
      return true;
    }
    if (is("trace")) { trace = true; return true; }
    return false;
  }

  auto io_take_output() -> void
  {
    if (out.taken < out.size) log_hex("O", out.data + out.taken, out.size - out.taken);
    if (err.taken < err.size) log_hex("X", err.data + err.taken, err.size - err.taken);
    out.taken = out.size;
    err.taken = err.size;
  }

  auto io_log_state() -> void
  {
    for (int i = 0; i < file_count; ++i)
    {
      if (files[i].directory) continue;
      if (files[i].exists)
      {
        char tag[256];
        std::snprintf(tag, sizeof tag, "F %s", files[i].path);
        log_hex(tag, files[i].data, files[i].size);
      }
      else
      {
        log_line("F %s absent", files[i].path);
      }
    }
    for (int i = 0; i < fault_count; ++i)
    {
      log_line("J %s %s %d %llu", faults[i].op, faults[i].path, faults[i].error, static_cast<unsigned long long>(faults[i].fired));
    }
    log_line("Q events %llu history %016llx open %d clockreads %llu", static_cast<unsigned long long>(io_events),
             static_cast<unsigned long long>(history), io_open_descriptors(), static_cast<unsigned long long>(clock_reads));
  }
}

using namespace sim;

extern "C"
{
  FILE * __wrap_fopen(char const* path, char const* mode) { return open_path(path, mode); }
  FILE * __wrap_fopen64(char const* path, char const* mode) { return open_path(path, mode); }

  FILE * __wrap_fdopen(int fd, char const* mode)
  {
    if (auto s = slot(fd)) return reinterpret_cast<FILE *>(s);
    return __real_fdopen(fd, mode);
  }

  int __wrap_fclose(FILE * p)
  {
    if (auto fd = fake(p); 0 <= fd) return close_slot(*slot(fd));
    return __real_fclose(p);
  }

  int __wrap_fileno(FILE * p)
  {
    if (auto fd = fake(p); 0 <= fd) return fd;
    return __real_fileno(p);
  }

  int __wrap_fflush(FILE * p)
  {
    if (p and 0 <= fake(p)) return 0;
    return __real_fflush(p);
  }

  int __wrap_setvbuf(FILE * p, char * b, int m, size_t n)
  {
    if (0 <= fake(p)) return 0;
    return __real_setvbuf(p, b, m, n);
  }

  ssize_t __wrap_read(int fd, void * p, size_t n)
  {
    if (auto s = slot(fd)) return read_slot(*s, static_cast<char *>(p), n);
    errno = EBADF;
    return -1;
  }

  ssize_t __wrap_write(int fd, void const* p, size_t n)
  {
    if (auto s = slot(fd)) return write_slot(*s, static_cast<char const*>(p), n);
    errno = EBADF;
    return -1;
  }

  ssize_t __wrap_writev(int fd, struct iovec const* v, int n)
  {
    auto s = slot(fd);
    if (not s) { errno = EBADF; return -1; }
    static char buffer[1 << 20];
    std::size_t size = 0;
    for (int i = 0; i < n; ++i)
    {
      auto k = v[i].iov_len;
      if (sizeof buffer - size < k) k = sizeof buffer - size;
      std::memcpy(buffer + size, v[i].iov_base, k);
      size += k;
    }
    return write_slot(*s, buffer, size);
  }

  off_t __wrap_lseek(int fd, off_t offset, int whence)
  {
    auto s = slot(fd);
    if (not s) { errno = EBADF; return -1; }
    if (auto e = injected("lseek", s->f->path)) return fail("lseek", s->f->path, e);
    if (s->f->pipe) return fail("lseek", s->f->path, ESPIPE);
    auto const base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast<off_t>(s->offset) : static_cast<off_t>(s->f->size);
    if (base + offset < 0) { errno = EINVAL; return -1; }
    s->offset = base + offset;
    note("lseek", s->f->path, s->offset);
    return s->offset;
  }

  off_t __wrap_lseek64(int fd, off_t offset, int whence) { return __wrap_lseek(fd, offset, whence); }

  int __wrap_ioctl(int fd, unsigned long request, ...)
  {
    va_list ap;
    va_start(ap, request);
    auto p = va_arg(ap, int *);
    va_end(ap);
    if (auto s = slot(fd); s and request == FIONREAD)
    {
      *p = s->offset < s->f->size ? static_cast<int>(s->f->size - s->offset) : 0;
      return 0;
    }
    errno = ENOTTY;
    return -1;
  }

  int __wrap_poll(struct pollfd * fds, nfds_t n, int)
  {
    for (nfds_t i = 0; i < n; ++i) fds[i].revents = fds[i].events;
    return static_cast<int>(n);
  }

  int __wrap_fstat(int fd, struct stat * st)
  {
    auto s = slot(fd);
    if (not s) { errno = EBADF; return -1; }
    fill_stat(s->f, st);
    return 0;
  }

  int __wrap_fstat64(int fd, struct stat * st) { return __wrap_fstat(fd, st); }
  int __wrap_stat(char const* path, struct stat * st) { return stat_path("stat", path, st); }
  int __wrap_stat64(char const* path, struct stat * st) { return stat_path("stat", path, st); }
  int __wrap_lstat(char const* path, struct stat * st) { return stat_path("lstat", path, st); }
  int __wrap_lstat64(char const* path, struct stat * st) { return stat_path("lstat", path, st); }

  int __wrap_access(char const* path, int how)
  {
    auto f = find(path);
    if (not f or not f->exists) return fail("access", path, ENOENT);
    if (((how & R_OK) and not f->readable) or ((how & W_OK) and not f->writable)) return fail("access", path, EACCES);
    return 0;
  }

  char * __wrap_realpath(char const* path, char * resolved)
  {
    char text[200];
    if (auto e = injected("realpath", path)) { fail("realpath", path, e); return nullptr; }
    auto f = find(path);
    if (not f or not f->exists or not normalize(path, text, sizeof text)) { fail("realpath", path, ENOENT); return nullptr; }
    if (not resolved) resolved = static_cast<char *>(malloc(PATH_MAX));
    std::snprintf(resolved, PATH_MAX, "%s", text);
    note("realpath", text, 0);
    return resolved;
  }

  char * __wrap_getcwd(char * p, size_t n)
  {
    if (not p) { n = n ? n : PATH_MAX; p = static_cast<char *>(malloc(n)); }
    std::snprintf(p, n, "/sim");
    return p;
  }

  ssize_t __wrap_readlink(char const* path, char *, size_t) { return fail("readlink", path, EINVAL); }

  int __wrap_remove(char const* path)
  {
    if (event()) crash();
    if (auto e = injected("remove", path)) return fail("remove", path, e);
    auto f = find(path);
    if (not f or not f->exists) return fail("remove", path, ENOENT);
    if (f->directory)
    {
      for (int i = 0; i < file_count; ++i)
      {
        auto const n = std::strlen(f->path);
        if (files[i].exists and not std::strncmp(files[i].path, f->path, n) and files[i].path[n] == '/') return fail("remove", path, ENOTEMPTY);
      }
    }
    f->exists = f->directory = false;
    f->size = 0;
    note("remove", f->path, 0);
    return 0;
  }

  int __wrap_unlink(char const* path) { return __wrap_remove(path); }
  int __wrap_rmdir(char const* path) { return __wrap_remove(path); }

  int __wrap_rename(char const* from, char const* to)
  {
    if (event()) crash();
    if (auto e = injected("rename", from)) return fail("rename", from, e);
    auto f = find(from);
    if (not f or not f->exists) return fail("rename", from, ENOENT);
    auto t = add(to);
    if (not t) return fail("rename", to, ENOSPC);
    grow(t->data, t->room, f->size + 1);
    if (f->size) std::memcpy(t->data, f->data, f->size);
    t->size = f->size;
    t->exists = true;
    f->exists = false;
    note("rename", f->path, 0);
    return 0;
  }

  int __wrap_open(char const* path, int, ...) { return fail("open2", path, ENOENT); }
  int __wrap_open64(char const* path, int, ...) { return fail("open2", path, ENOENT); }
  int __wrap_openat(int, char const* path, int, ...) { return fail("open2", path, ENOENT); }
  int __wrap_mkdir(char const* path, mode_t) { return fail("mkdir", path, EACCES); }
  int __wrap_chdir(char const* path) { return fail("chdir", path, EACCES); }
  int __wrap_truncate(char const* path, off_t) { return fail("truncate", path, EACCES); }
  int __wrap_symlink(char const*, char const* path) { return fail("symlink", path, EACCES); }
  int __wrap_link(char const*, char const* path) { return fail("link", path, EACCES); }
  int __wrap_system(char const* command) { return fail("system", command ? command : "", EACCES); }
  DIR * __wrap_opendir(char const* path) { fail("opendir", path, ENOENT); return nullptr; }

  int __wrap_close(int fd)
  {
    if (auto s = slot(fd)) return close_slot(*s);
    errno = EBADF;
    return -1;
  }

  char * __wrap_getenv(char const* key)
  {
    if (not std::strncmp(key, "MEEVAX_SIM_", 11)) return __real_getenv(key);
    for (int i = 0; i < variable_count; ++i)
    {
      if (not std::strcmp(variables[i].key, key)) return variables[i].text;
    }
    return nullptr;
  }

  char * __wrap_secure_getenv(char const* key) { return __wrap_getenv(key); }

  int __wrap_clock_gettime(clockid_t id, struct timespec * ts)
  {
    ++clock_reads;
    auto const d = ticks ? tick[tick_next++ % ticks] : 1000;
    now += d;                                     // the wall clock may be stepped backwards
    monotonic += 0 < d ? d : 1;                   // the monotonic clock may not
    auto const t = id == CLOCK_REALTIME or id == CLOCK_REALTIME_COARSE or id == CLOCK_TAI ? now : monotonic;
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    note("clock", id == CLOCK_REALTIME ? "realtime" : "other", t);
    return 0;
  }

  int __wrap_gettimeofday(struct timeval * tv, void *)
  {
    struct timespec ts;
    __wrap_clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
  }

  time_t __wrap_time(time_t * t)
  {
    struct timespec ts;
    __wrap_clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
  }

  int __wrap_isatty(int) { errno = ENOTTY; return 0; }
}
