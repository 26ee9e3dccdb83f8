// A fixed-address arena behind operator new and delete: the same plan always
// sees the same addresses, whatever the kernel's address space randomisation
// does, and the plan says how freed storage is handed out again.
#include "sim.hpp"
#include <cstdlib>
#include <cstring>
#include <new>
#include <cerrno>
#include <sys/mman.h>
#include <unistd.h>

namespace sim
{
  std::uint64_t news = 0, deletes = 0, news_failed = 0, bytes_live = 0;

  namespace
  {
    constexpr std::size_t region_size = std::size_t(8) << 30;
    constexpr int classes = 512;                 // 16-byte steps up to 8 KiB

    struct header { std::uint64_t size; std::uint64_t magic; };
    struct node { node * next; };

    constexpr std::uint64_t magic_live = 0x6d65657661784c4cull;
    constexpr std::uint64_t magic_dead = 0x6d65657661784444ull;

    struct region { char * base; char * top; char * end; };

    region regions[3];
    int region_count = 0;

    struct bucket { node * head; node * tail; };

    bucket small[classes + 1];
    bucket large[64];

    placement policy = lifo;
    std::uint64_t salt = 0;
    std::uint64_t counter = 0;                   // operator new calls since reset

    std::uint64_t fail_at[64];
    std::size_t fail_at_count = 0;
    std::size_t fail_above = ~std::size_t(0);

    auto die(char const* what) -> void
    {
      finish(what, 125);
    }

    auto mix(std::uint64_t x) -> std::uint64_t
    {
      x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33;
      return x;
    }

    // Sparse placement: addresses far apart, at the edges of the words, leaves
    // and inner nodes that a bitmap of addresses is made of.

    constexpr std::uintptr_t sparse_base = 0x3007ff000000, sparse_size = std::uintptr_t(1) << 40;

    constexpr int sparse_limit = 1200;

    std::uintptr_t sparse_block = 0;             // 512 KiB each, as a leaf of the collector's bitmap

    int sparse_count = 0;

    bool sparse_refused = false;

    auto sparse_place(std::size_t size, std::uint64_t hash) -> char *
    {
      if (sparse_refused or sparse_limit <= sparse_count) return nullptr;

      if (not sparse_count)
      {
        auto p = mmap(reinterpret_cast<void *>(sparse_base), sparse_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != reinterpret_cast<void *>(sparse_base)) { sparse_refused = true; return nullptr; }
      }

      static std::uintptr_t const jumps[] = { 1, 1, 1, 2, 3, 62, 63, 64, 65, 127, 128, 4095, 4096, 65473, 65536, 65600 };

      auto const jump = jumps[hash & 15];

      sparse_block += 4096 <= jump and 200 < sparse_count ? jump & 63 : jump;

      sparse_block += 1 + (size + 64) / 0x80000;

      auto const edge = sparse_base + ((sparse_block + 1) << 19);

      if (sparse_base + sparse_size <= edge + size) return nullptr;

      ++sparse_count;

      switch (auto const k = hash >> 4; k & 7) // the address of the object, after its header
      {
      case 0:  return reinterpret_cast<char *>(edge);
      case 1:  return reinterpret_cast<char *>(edge - size);
      case 2:  return reinterpret_cast<char *>(edge - 16);
      case 3:  return reinterpret_cast<char *>(edge - (k >> 3) % (size / 16 + 1) * 16);
      case 4:  return reinterpret_cast<char *>(edge - 512);
      case 5:  return reinterpret_cast<char *>(edge - 0x40000 - 16);
      default: return reinterpret_cast<char *>(edge - ((k >> 3) & 0x3FFF) * 16 - size);
      }
    }

    auto add_region(std::uintptr_t address) -> void
    {
      auto p = mmap(reinterpret_cast<void *>(address), region_size, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
      if (p != reinterpret_cast<void *>(address))
      {
        char const message[] = "simulator: cannot map the arena\n";
        (void) !::write(2, message, sizeof message - 1);
        _exit(120);
      }
      auto & r = regions[region_count++];
      r.base = r.top = static_cast<char *>(p);
      r.end = r.base + region_size;
    }

    auto bucket_of(std::size_t size) -> bucket &
    {
      auto steps = size / 16;
      return steps <= classes ? small[steps] : large[63 - __builtin_clzll(size)];
    }
  }

  auto memory_boot(int variant) -> void
  {
    // Bases chosen for what surrounds them: a plain one, one that straddles a
    // 512 KiB leaf and a 32 GiB inner node of a three level address bitmap, and
    // one close to the top of the canonical address range.
    static std::uintptr_t const bases[][3] = {
      { 0x100000000000, 0x110000000000, 0x120000000000 },
      { 0x1007fff80000 - 0x40000, 0x200800000000 - 0x80000, 0x030000000000 },
      { 0x6ff000000000, 0x5000fff00000, 0x100000000000 },
      { 0x000800000000 - 0x10000, 0x6f0000000000, 0x400000080000 - 0x1000 },
    };
    auto const& b = bases[variant & 3];
    for (auto i = 0; i < 3; ++i)
    {
      add_region(b[i] & ~std::uintptr_t(0xFFF));
    }
  }

  auto memory_policy(placement p, std::uint64_t s) -> void { policy = p; salt = s; }

  auto memory_fail_at(std::uint64_t const* at, std::size_t n) -> void
  {
    fail_at_count = n < 64 ? n : 64;
    std::memcpy(fail_at, at, fail_at_count * sizeof *at);
  }

  auto memory_fail_above(std::size_t bytes) -> void { fail_above = bytes; }

  auto memory_reset_counters() -> void { counter = 0; }

  static auto allocate(std::size_t size) -> void *
  {
    if (not region_count)
    {
      memory_boot(std::getenv("MEEVAX_SIM_ARENA") ? std::atoi(std::getenv("MEEVAX_SIM_ARENA")) : 0);
    }

    ++news;

    auto const index = counter++;

    for (std::size_t i = 0; i < fail_at_count; ++i)
    {
      if (fail_at[i] == index)
      {
        ++news_failed;
        return nullptr;
      }
    }

    if (fail_above < size)
    {
      ++news_failed;
      return nullptr;
    }

    if (size > (std::size_t(1) << 31))           // real machines refuse such requests too
    {
      return nullptr;
    }

    size = (size + 15) & ~std::size_t(15);

    if (size == 0)
    {
      size = 16;
    }

    if (size / 16 > classes)                     // large: round up to a power of two
    {
      size = std::size_t(1) << (64 - __builtin_clzll(size - 1));
    }

    auto & b = bucket_of(size);

    auto reuse = b.head != nullptr and (policy != fresh or 0x10000 <= size or regions[0].end < regions[0].top + (std::size_t(64) << 20));

    if (reuse and policy == sparse)
    {
      reuse = 0x10000 <= size or sparse_limit <= sparse_count or sparse_refused or mix(salt ^ index) & 1; // nodes of the bitmap of addresses are large and come and go with every collection
    }

    if (reuse and policy == scatter)
    {
      reuse = 0x10000 <= size or mix(salt ^ index) & 1;
    }

    bytes_live += size;

    if (reuse)
    {
      auto p = b.head;
      b.head = p->next;
      if (not b.head) b.tail = nullptr;
      auto h = reinterpret_cast<header *>(p) - 1;
      if (h->magic != magic_dead) die("heap-corruption");
      h->magic = magic_live;
      return p;
    }

    if (policy == sparse)
    {
      if (auto const hash = mix(salt * 31 + index); size <= 0x40000 and (hash >> 40) % 3)
      {
        if (auto p = sparse_place(size, hash))
        {
          auto h = reinterpret_cast<header *>(p) - 1;
          h->size = size;
          h->magic = magic_live;
          return p;
        }
      }
    }

    auto const hash = policy == scatter ? mix(salt * 31 + index) : 0;
    auto & r = regions[policy == scatter ? hash % 3 : 0];
    auto const gap = policy == scatter ? ((hash >> 8) & 7) * 16 : 0;

    if (r.end < r.top + gap + sizeof(header) + size)
    {
      return nullptr;
    }

    auto h = reinterpret_cast<header *>(r.top + gap);
    r.top += gap + sizeof(header) + size;
    h->size = size;
    h->magic = magic_live;
    return h + 1;
  }

  static auto deallocate(void * p) -> void
  {
    if (not p) return;
    ++deletes;
    auto h = reinterpret_cast<header *>(p) - 1;
    if (h->magic == magic_dead) die("double-free");
    if (h->magic != magic_live) die("bad-free");
    h->magic = magic_dead;
    bytes_live -= h->size;
    std::memset(p, 0xF5, h->size);
    auto & b = bucket_of(h->size);
    auto n = static_cast<node *>(p);
    if (policy == lifo or policy == scatter or policy == sparse or not b.head)
    {
      n->next = b.head;
      b.head = n;
      if (not b.tail) b.tail = n;
    }
    else
    {
      n->next = nullptr;
      b.tail->next = n;
      b.tail = n;
    }
  }
}

extern "C" auto meevax_simulation_deallocated(void * p, std::size_t n) noexcept -> void
{
  std::memset(p, 0xF5, n);
}

auto operator new(std::size_t n) -> void *
{
  if (auto p = sim::allocate(n)) return p;
  throw std::bad_alloc();
}
auto operator new[](std::size_t n) -> void *
{
  if (auto p = sim::allocate(n)) return p;
  throw std::bad_alloc();
}
auto operator new(std::size_t n, std::nothrow_t const&) noexcept -> void * { return sim::allocate(n); }
auto operator new[](std::size_t n, std::nothrow_t const&) noexcept -> void * { return sim::allocate(n); }
auto operator delete(void * p) noexcept -> void { sim::deallocate(p); }
auto operator delete[](void * p) noexcept -> void { sim::deallocate(p); }
auto operator delete(void * p, std::size_t) noexcept -> void { sim::deallocate(p); }
auto operator delete[](void * p, std::size_t) noexcept -> void { sim::deallocate(p); }

// ---- the C heap -------------------------------------------------------------------
// Objects that are thrown lie there, and the collector counts where references
// lie: it must be at the same address in every process, too.

namespace
{
  struct heap_header { std::size_t size, kind; };

  constexpr std::size_t heap_size = std::size_t(1) << 35;

  char * heap_top = nullptr;
  char * heap_end = nullptr;
  void * heap_free[128] {};

  auto heap_kind(std::size_t & n) -> std::size_t
  {
    if (n <= 1024)
    {
      n = n ? (n + 15) & ~std::size_t(15) : 16;
      return n / 16;
    }
    auto const k = 64 - __builtin_clzll(n - 1);
    n = std::size_t(1) << k;
    return 64 + k;
  }

  auto heap_allocate(std::size_t n) -> void *
  {
    if (not heap_top)
    {
      auto const where = reinterpret_cast<void *>(0x600000000000);
      auto p = mmap(where, heap_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
      if (p != where) _exit(121);
      heap_top = static_cast<char *>(p);
      heap_end = heap_top + heap_size;
    }
    if (heap_size / 2 < n) { errno = ENOMEM; return nullptr; }
    auto const kind = heap_kind(n);
    if (auto p = heap_free[kind])
    {
      heap_free[kind] = *static_cast<void **>(p);
      return p;
    }
    if (static_cast<std::size_t>(heap_end - heap_top) < n + sizeof(heap_header)) { errno = ENOMEM; return nullptr; }
    auto h = reinterpret_cast<heap_header *>(heap_top);
    heap_top += n + sizeof(heap_header);
    h->size = n;
    h->kind = kind;
    return h + 1;
  }
}

extern "C"
{
  auto malloc(std::size_t n) noexcept -> void * { return heap_allocate(n); }

  auto free(void * p) noexcept -> void
  {
    if (not p) return;
    auto const kind = (static_cast<heap_header *>(p) - 1)->kind;
    if (kind == 127) return; // aligned specially
    std::memset(p, 0xF5, (static_cast<heap_header *>(p) - 1)->size);
    *static_cast<void **>(p) = heap_free[kind];
    heap_free[kind] = p;
  }

  auto calloc(std::size_t a, std::size_t b) noexcept -> void *
  {
    std::size_t n = 0;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    auto p = heap_allocate(n);
    if (p) std::memset(p, 0, n);
    return p;
  }

  auto realloc(void * p, std::size_t n) noexcept -> void *
  {
    if (not p) return heap_allocate(n);
    auto const size = (static_cast<heap_header *>(p) - 1)->size;
    if (n <= size) return p;
    auto q = heap_allocate(n);
    if (q) { std::memcpy(q, p, size); free(p); }
    return q;
  }

  auto memalign(std::size_t alignment, std::size_t n) noexcept -> void *
  {
    if (alignment <= 16) return heap_allocate(n);
    auto p = static_cast<char *>(heap_allocate(n + alignment + sizeof(heap_header)));
    if (not p) return nullptr;
    auto q = reinterpret_cast<char *>((reinterpret_cast<std::uintptr_t>(p) + sizeof(heap_header) + alignment - 1) & ~(alignment - 1));
    *(reinterpret_cast<heap_header *>(q) - 1) = { n, 127 };
    return q;
  }

  auto aligned_alloc(std::size_t alignment, std::size_t n) noexcept -> void * { return memalign(alignment, n); }

  auto posix_memalign(void ** p, std::size_t alignment, std::size_t n) noexcept -> int
  {
    *p = memalign(alignment, n);
    return *p ? 0 : ENOMEM;
  }

  auto malloc_usable_size(void * p) noexcept -> std::size_t { return p ? (static_cast<heap_header *>(p) - 1)->size : 0; }
}
