// Runs plans. One process boots the interpreter once and forks a child for each
// plan, so that every run starts from exactly the same state; `--run` boots and
// runs a single plan in a fresh process (replay).
#include "sim.hpp"

#include <meevax/kernel/boot.hpp>
#include <meevax/kernel/configuration.hpp>
#include <meevax/kernel/input_string_port.hpp>
#include <meevax/kernel/library.hpp>
#include <meevax/kernel/procedure.hpp>
#include <meevax/kernel/proper_list.hpp>

#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

#ifndef SIM_NO_MAIN
auto meevax_main(int const argc, char const* const* const argv) -> int;
#endif

extern "C" auto sim_component(char const* name, char const* plan) -> int __attribute__((weak));

namespace sim
{
  // ---- the collector's schedule ----------------------------------------------

  enum class gc_mode { off, usual, scheduled };

  struct gc_schedule
  {
    gc_mode mode = gc_mode::usual;
    std::uint64_t every = 0, offset = 0;
    std::uint64_t const* at = nullptr;
    std::size_t at_count = 0, at_next = 0;
    std::uint64_t window_begin = 1, window_end = 0;
  };

  static gc_schedule gc;
  static std::uint64_t requests = 0, collections = 0, budget = UINT64_MAX;
  static std::uint64_t gc_history = 1469598103934665603ull;
  static bool running = false;
  static std::uint64_t at_storage[4096];

  static int boot_variant = 0;
  static char const* libraries_variant = "full";
}

extern "C" auto meevax_simulation_request(std::size_t) noexcept -> int
{
  using namespace sim;

  if (not running) return -1;

  auto const index = requests++;

  if (budget < requests) finish("budget", 0);

  switch (gc.mode)
  {
  case gc_mode::off:
    return 0;

  case gc_mode::usual:
    return -1;

  default:
    // collections of a spread out heap are slow: the first ones in close succession, then some more far apart
    auto hit = gc.every and index % gc.every == gc.offset and (collections < 500 or (collections < 1000 and index % (gc.every * 16) == gc.offset));
    while (gc.at_next < gc.at_count and gc.at[gc.at_next] < index) ++gc.at_next;
    hit = hit or (gc.at_next < gc.at_count and gc.at[gc.at_next] == index);
    hit = hit or (gc.window_begin <= index and index < gc.window_end);
    if (hit)
    {
      ++collections;
      gc_history = (gc_history ^ index) * 1099511628211ull;
    }
    return hit;
  }
}

namespace sim
{
  static bool finishing = false;

  static auto final_lines(char const* how, int status) -> void
  {
    if (std::exchange(finishing, true)) return;
    io_take_output();
    io_log_state();
    log_line("G requests %llu collections %llu history %016llx", static_cast<unsigned long long>(requests),
             static_cast<unsigned long long>(collections), static_cast<unsigned long long>(gc_history));
    log_line("M news %llu deletes %llu failed %llu", static_cast<unsigned long long>(news),
             static_cast<unsigned long long>(deletes), static_cast<unsigned long long>(news_failed));
    log_line("END %s %d", how, status);
    log_flush();
  }

  auto finish(char const* how, int status) -> void
  {
    running = false;
    final_lines(how, status);
    _exit(0);
  }

  static auto on_signal(int signal) -> void
  {
    char how[32];
    std::snprintf(how, sizeof how, "signal-%d", signal);
    finish(how, signal);
  }

  static int exit_status = 0;
  static bool exit_expected = false;

  __attribute__((destructor(101))) static auto after_static_destructors() -> void
  {
    if (running or exit_expected)
    {
      running = false;
      final_lines("exit", exit_status);
      _exit(0);
    }
  }

  static auto install_signals() -> void
  {
    static char alternate[1 << 16];
    stack_t ss {};
    ss.ss_sp = alternate;
    ss.ss_size = sizeof alternate;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (auto s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU }) sigaction(s, &sa, nullptr);
  }
}

// ---- procedures for programs under simulation: library "sim" -------------------

namespace sim
{
  using namespace meevax;

  static auto text_of(object const& x) -> std::string
  {
    auto os = std::ostringstream();
    os << x;
    return os.str();
  }

  static auto log_object(char const* tag, object const& x) -> void
  {
    auto s = text_of(x);
    for (auto & c : s) if (c == '\n') c = '\x1f';
    log_raw(tag, std::strlen(tag));
    log_raw(" ", 1);
    log_raw(s.data(), s.size());
    log_raw("\n", 1);
  }

  static std::uintptr_t stack_base = 0;

  static auto resolve(char const* name) -> void *
  {
    using f = auto (*)(object const&) -> object;

    auto is = [&](char const* s) { return not std::strcmp(name, s); };

    f p = nullptr;

    if (is("log"))            p = [](object const& xs) -> object { log_object("L", car(xs)); return unspecified; };
    if (is("collect"))        p = [](object const&   ) -> object { ++collections; collect(); return unspecified; };
    if (is("live"))           p = [](object const&   ) -> object { return make<large_integer>(count()); };
    if (is("requests"))       p = [](object const&   ) -> object { return make<large_integer>(requests); };
    if (is("descriptors"))    p = [](object const&   ) -> object { return make<large_integer>(io_open_descriptors()); };
    if (is("clock-advance!")) p = [](object const& xs) -> object { clock_advance(std::atoll(text_of(car(xs)).c_str())); return unspecified; };
    if (is("disk"))           p = [](object const& xs) -> object { io_take_output(); log_object("D", car(xs)); io_log_state(); return unspecified; };
    if (is("stack"))          p = [](object const&   ) -> object { return make<large_integer>(stack_base - reinterpret_cast<std::uintptr_t>(__builtin_frame_address(0))); };
    if (is("bytes"))          p = [](object const&   ) -> object { return make<large_integer>(bytes_live); };

    return reinterpret_cast<void *>(p);
  }

  static auto define_library() -> void
  {
    libraries().emplace("(sim)", make<library>([](auto define)
    {
      auto xs = unit;
      for (auto name : { "log", "collect", "live", "requests", "descriptors", "clock-advance!", "disk", "bytes", "stack" })
      {
        xs = meevax::cons(define(make_symbol(std::string("sim-") + name), make<procedure>("simulator", name)), xs);
      }
      return xs;
    }));
  }
}

static int handle_of_simulator;

static void * const stack_address = reinterpret_cast<void *>(0x500000000000);

extern "C"
{
  void * __wrap_dlopen(char const* path, int)
  {
    if (path and std::strstr(path, "simulator")) return &handle_of_simulator;
    return nullptr;
  }

  static auto sim_resolve(char const* name) -> void * { return sim::resolve(name); }

  void * __wrap_dlsym(void * handle, char const* name)
  {
    if (handle == &handle_of_simulator and not std::strcmp(name, "resolve")) return reinterpret_cast<void *>(sim_resolve);
    return nullptr;
  }

  char * __wrap_dlerror() { static char message[] = "no such shared library"; return message; }

  int __wrap_dlclose(void *) { return 0; }
}

// ---- boot ------------------------------------------------------------------------

namespace sim
{
  static char const* const standard[] = {
    "(scheme base)", "(scheme box)", "(scheme case-lambda)", "(scheme char)", "(scheme cxr)", "(scheme eval)", "(scheme file)",
    "(scheme inexact)", "(scheme lazy)", "(scheme load)", "(scheme process-context)", "(scheme read)",
    "(scheme repl)", "(scheme time)", "(scheme write)",
  };

  static char const* const core[] = {
    "(meevax core)", "(meevax pair)", "(meevax list)", "(meevax comparator)", "(meevax number)", "(meevax vector)",
    "(meevax string)", "(meevax symbol)", "(meevax box)", "(meevax boolean)", "(meevax character)", "(meevax function)",
  };

  static auto boot() -> void
  {
    io_reset();
    io_active = false;

    meevax::boot();

    define_library();

    auto & e = interaction_environment().as<environment>();

    auto import = [](environment & e, char const* name)
    {
      try { e.import(input_string_port(name).read()); }
      catch (error const& x) { std::fprintf(stderr, "%s\n", x.what()); }
    };

    if (not std::strcmp(libraries_variant, "core"))
    {
      for (auto name : core) if (libraries().find(name) != libraries().end()) import(e, name);
      import(e, "(sim)");
    }
    else
    {
      e.load_scheme_libraries();

      if (not std::strcmp(libraries_variant, "full"))
      {
        for (auto name : standard) import(e, name);
        import(e, "(sim)");
      }
      else if (not std::strcmp(libraries_variant, "lite")) // as "full", but without the libraries themselves: a smaller heap
      {
        for (auto name : standard) import(e, name);
        import(e, "(sim)");
        libraries().clear();
      }
      else // "main": libraries are resolved, but nothing is visible yet
      {
        auto scratch = environment();
        for (auto name : standard) import(scratch, name);
      }
    }

    collect();
  }

  // ---- a run ------------------------------------------------------------------------

  static auto describe(meevax::error const& x) -> char const*
  {
    return dynamic_cast<file_error const*>(&x) ? "file-error" :
           dynamic_cast<read_error const*>(&x) ? "read-error" : "error";
  }

  static auto one_line(std::string s) -> std::string
  {
    for (auto & c : s) if (c == '\n') c = '\x1f';
    return s;
  }

  static auto evaluate(int index, char const* text) -> bool
  {
    auto & e = interaction_environment().as<environment>();

    char tag[32];

    auto const registers = e.a;

    try
    {
      let const x = e.evaluate(input_string_port(text).read());
      std::snprintf(tag, sizeof tag, "R %d", index);
      log_object(tag, x);
    }
    catch (int const status)
    {
      io_take_output();
      log_line("R %d #<exit %d>", index, status);
      exit_status = status;
      return false;
    }
    catch (error const& x)
    {
      log_line("E %d %s %s", index, describe(x), one_line(x.what()).c_str());
      e.a = registers; // as the REPL does
    }
    catch (std::exception const& x)
    {
      log_line("E %d exception %s", index, one_line(x.what()).c_str());
      e.a = registers;
    }

    io_take_output();

    return true;
  }

  static auto parse_gc(char * rest) -> void
  {
    gc = gc_schedule();
    char * save = nullptr;
    auto word = strtok_r(rest, " ", &save);
    auto number = [&]() { auto p = strtok_r(nullptr, " ", &save); return p ? std::strtoull(p, nullptr, 10) : 0; };
    auto is = [&](char const* s) { return word and not std::strcmp(word, s); };
    if (is("off")) { gc.mode = gc_mode::off; return; }
    if (is("usual")) { gc.mode = gc_mode::usual; return; }
    gc.mode = gc_mode::scheduled;
    for (; word; )
    {
      if (is("every")) { gc.every = number(); gc.offset = number(); word = strtok_r(nullptr, " ", &save); }
      else if (is("window")) { gc.window_begin = requests + number(); gc.window_end = gc.window_begin + number(); word = strtok_r(nullptr, " ", &save); }
      else if (is("at"))
      {
        gc.at = at_storage;
        for (word = strtok_r(nullptr, " ", &save); word and '0' <= *word and *word <= '9'; word = strtok_r(nullptr, " ", &save))
        {
          if (gc.at_count < 4096) at_storage[gc.at_count++] = requests + std::strtoull(word, nullptr, 10);
        }
      }
      else word = strtok_r(nullptr, " ", &save);
    }
  }

  static auto bad(char const* line) -> void
  {
    log_line("BAD %s", line);
    finish("bad-plan", 1);
  }

  // Everything the run needs is parsed line by line; `plan` is owned by the
  // caller and lives outside the arena.
  static auto run(char * plan) -> void
  {
    io_reset();
    memory_reset_counters();
    requests = 0;
    collections = 0;
    auto teardown = false;
    auto index = 0;
    std::size_t limit = 30;

    install_signals();

    auto arm = [&]()
    {
      auto const r = rlimit { limit, limit + 5 };
      setrlimit(RLIMIT_CPU, &r);
    };

    arm();

    stack_base = reinterpret_cast<std::uintptr_t>(__builtin_frame_address(0));
    running = true;
    gc.mode = gc_mode::off;

    char * save = nullptr;

    for (auto line = strtok_r(plan, "\n", &save); line; line = strtok_r(nullptr, "\n", &save))
    {
      if (*line == '#' or *line == 0) continue;

      auto space = std::strchr(line, ' ');
      auto rest = space ? space + 1 : line + std::strlen(line);
      char word[32];
      auto const n = space ? static_cast<std::size_t>(space - line) : std::strlen(line);
      if (sizeof word <= n) bad(line);
      std::memcpy(word, line, n);
      word[n] = 0;
      auto is = [&](char const* s) { return not std::strcmp(word, s); };

      if (is("form"))
      {
        if (not evaluate(index++, rest)) { exit_expected = true; break; }
      }
      else if (is("boot") or is("property") or is("expect") or is("seed")) {}
      else if (is("gc")) parse_gc(rest);
      else if (is("steps")) budget = requests + std::strtoull(rest, nullptr, 10);
      else if (is("place"))
      {
        char name[32] = "";
        unsigned long long salt = 0;
        std::sscanf(rest, "%31s %llu", name, &salt);
        memory_policy(not std::strcmp(name, "fifo") ? fifo : not std::strcmp(name, "fresh") ? fresh : not std::strcmp(name, "scatter") ? scatter : not std::strcmp(name, "sparse") ? sparse : lifo, salt);
      }
      else if (is("allocfail"))
      {
        static std::uint64_t list[64];
        std::size_t k = 0;
        char * end = nullptr;
        for (auto p = rest; k < 64; p = end)
        {
          auto const v = std::strtoull(p, &end, 10);
          if (end == p) break;
          list[k++] = v;
        }
        memory_reset_counters();
        memory_fail_at(list, k);
      }
      else if (is("allocabove")) memory_fail_above(std::strtoull(rest, nullptr, 10));
      else if (is("teardown")) teardown = true;
      else if (is("stack")) // the stack may grow by so many bytes from here
      {
        auto const here = reinterpret_cast<std::uintptr_t>(__builtin_frame_address(0)) - std::strtoull(rest, nullptr, 10);
        auto const low = reinterpret_cast<std::uintptr_t>(stack_address);
        if (low + 4096 < here) mprotect(stack_address, (here - low) & ~std::uintptr_t(4095), PROT_NONE);
      }
      else if (is("cpu")) { limit = std::strtoull(rest, nullptr, 10); arm(); }
      else if (is("component"))
      {
        if (not sim_component) finish("no-component", 0);
        finish("done", sim_component(rest, save));
      }
      else if (is("main")) // main ARG ...  : the command line program itself
      {
        #ifndef SIM_NO_MAIN
        static char const* argv[64] = { "meevax" };
        auto argc = 1;
        char * inner = nullptr;
        for (auto p = strtok_r(rest, "\x1f", &inner); p and argc < 63; p = strtok_r(nullptr, "\x1f", &inner))
        {
          for (auto q = p; *q; ++q) if (*q == '\x1e') *q = '\n';
          argv[argc++] = p;
        }
        argv[argc] = nullptr;
        exit_status = meevax_main(argc, argv);
        io_take_output();
        log_line("MAIN %d", exit_status);
        exit_expected = true;
        teardown = true;
        #endif
        break;
      }
      else if (not io_directive(word, rest)) bad(line);
    }

    io_take_output();

    if (teardown or exit_expected)
    {
      // Leave as the real program does: static destructors run, then the state
      // of the disk is recorded (after_static_destructors).
      exit_expected = true;
      std::exit(exit_status);
    }

    finish("done", 0);
  }

  // ---- processes ------------------------------------------------------------------------

  static auto read_all(int fd, char * p, std::size_t n) -> bool
  {
    while (n)
    {
      auto const k = syscall(SYS_read, fd, p, n);
      if (k == -1 and errno == EINTR) continue;
      if (k <= 0) return false;
      p += k;
      n -= k;
    }
    return true;
  }

  static auto read_word(int fd, char * p, std::size_t n) -> bool
  {
    for (std::size_t i = 0; i + 1 < n; ++i)
    {
      if (not read_all(fd, p + i, 1)) return false;
      if (p[i] == '\n') { p[i] = 0; return true; }
    }
    return false;
  }

  static auto serve() -> void
  {
    static std::size_t room = 0;
    static char * result = nullptr;

    char word[32];

    while (read_word(0, word, sizeof word))
    {
      auto const n = std::strtoull(word, nullptr, 10);
      auto plan = static_cast<char *>(mmap(nullptr, n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
      if (plan == MAP_FAILED or not read_all(0, plan, n)) return;
      plan[n] = 0;

      int fds[2];
      if (::pipe(fds)) return;

      auto const child = fork();

      if (child == 0)
      {
        syscall(SYS_close, fds[0]);
        log_open(fds[1]);
        run(plan);
      }

      syscall(SYS_close, fds[1]);

      std::size_t size = 0;

      while (true)
      {
        if (room < size + (1 << 16)) result = static_cast<char *>(realloc(result, room = (room + (1 << 16)) * 2));
        auto const k = syscall(SYS_read, fds[0], result + size, room - size - 256);
        if (k == -1 and errno == EINTR) continue;
        if (k <= 0) break;
        size += k;
        if (std::size_t(256) << 20 < size) { kill(child, SIGKILL); break; }
      }

      syscall(SYS_close, fds[0]);

      int status = 0;
      while (waitpid(child, &status, 0) == -1 and errno == EINTR) {}

      if (WIFSIGNALED(status)) size += std::snprintf(result + size, 128, "\nEND killed %d\n", WTERMSIG(status));

      char head[32];
      auto const k = std::snprintf(head, sizeof head, "%zu\n", size);
      real_write(1, head, k);
      real_write(1, result, size);

      munmap(plan, n + 1);
    }
  }

  static int g_argc;
  static char ** g_argv;
  static ucontext_t return_context, run_context;

  static auto main_on_fixed_stack() -> void
  {
    boot();

    if (1 < g_argc and not std::strcmp(g_argv[1], "--serve"))
    {
      real_write(1, "ready\n", 6);
      serve();
      _exit(0);
    }
    else // --run: plan on standard input
    {
      static char plan[1 << 23];
      std::size_t size = 0;
      while (size < sizeof plan - 1)
      {
        auto const k = syscall(SYS_read, 0, plan + size, sizeof plan - 1 - size);
        if (k <= 0) break;
        size += k;
      }
      log_open(1);
      run(plan);
    }
    _exit(0);
  }
}

// main.cpp boots by itself; here that has already happened.
static bool booted = false;

extern "C"
{
  void __real__ZN6meevax6kernel4bootEv() __attribute__((weak));
  void __real__ZN6meevax6kernel11environment21load_scheme_librariesEv(void *) __attribute__((weak));

  void __wrap__ZN6meevax6kernel4bootEv()
  {
    if (not booted) __real__ZN6meevax6kernel4bootEv();
  }

  void __wrap__ZN6meevax6kernel11environment21load_scheme_librariesEv(void * e)
  {
    if (not std::exchange(booted, true)) __real__ZN6meevax6kernel11environment21load_scheme_librariesEv(e);
  }
}

auto main(int argc, char ** argv) -> int
{
  using namespace sim;

  g_argc = argc;
  g_argv = argv;

  if (auto s = getenv("MEEVAX_SIM_LIBRARIES")) libraries_variant = s;

  std::setvbuf(stdout, nullptr, _IOFBF, 4096);

  // A stack at a fixed address, as large as the usual limit of a real one.
  auto constexpr size = std::size_t(8) << 20;
  auto const where = stack_address;
  if (mmap(where, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != where) return 122;

  getcontext(&run_context);
  run_context.uc_stack.ss_sp = where;
  run_context.uc_stack.ss_size = size;
  run_context.uc_link = &return_context;
  makecontext(&run_context, main_on_fixed_stack, 0);
  swapcontext(&return_context, &run_context);
  return 0;
}
