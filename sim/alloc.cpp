// malloc family: an ordinary size-class allocator for the harness, and the
// simulated allocator, whose every placement, reuse and failure is decided by
// the seed, for the code under test.
#include <errno.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include "internal.h"

namespace sim {
bool g_inSim = false;
AllocState g_as;

static const uint64_t HOST_BASE = 0x300000000000ull, HOST_SIZE = 64ull << 30;
static const uint64_t SIM_BASE = 0x500000000000ull, SIM_SIZE = 6ull << 30;
static const uint64_t MAGIC = 0xA110C8ED5EEDull;

struct Hdr { uint64_t size; uint64_t cls_magic; };
struct Free { Free* next; };

static inline int clsOf(uint64_t n)  // n: payload bytes, multiple of 16
{
  if (n <= 1024) return static_cast<int>(n / 16);  // 1..64
  int c = 65;
  uint64_t s = 2048;
  while (s < n) { s <<= 1; c++; }
  return c;
}
static inline uint64_t clsSize(int c)
{
  if (c <= 64) return static_cast<uint64_t>(c) * 16;
  return 2048ull << (c - 65);
}

// ---------------------------------------------------------------- host
static uint64_t hostCur = 0;
static Free* hostFree[100];

static void* hostAlloc(uint64_t n)
{
  if (hostCur == 0)
  {
    void* p = mmap(reinterpret_cast<void*>(HOST_BASE), HOST_SIZE, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void*>(HOST_BASE)) { raw(SYS_exit_group, 97); }
    hostCur = HOST_BASE;
  }
  if (n == 0) n = 1;
  n = (n + 15) & ~15ull;
  int c = clsOf(n);
  if (hostFree[c])
  {
    Free* f = hostFree[c];
    hostFree[c] = f->next;
    reinterpret_cast<Hdr*>(f)[-1].size = n;
    return f;
  }
  uint64_t sz = clsSize(c) + sizeof(Hdr);
  Hdr* h = reinterpret_cast<Hdr*>(hostCur);
  hostCur += sz;
  h->size = n;
  h->cls_magic = (MAGIC << 16) | static_cast<uint64_t>(c);
  return h + 1;
}
static void hostRelease(void* p)
{
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  int c = static_cast<int>(h->cls_magic & 0xffff);
  Free* f = reinterpret_cast<Free*>(p);
  f->next = hostFree[c];
  hostFree[c] = f;
}

// ---------------------------------------------------------------- simulated
static const int BANDS = 48;
static uint64_t bandCur[BANDS], bandEnd[BANDS];
static uint64_t upCur, downCur, pageCur, pageEnd, guardCur, guardEnd;
static uint64_t guardLive;
// free lists: ring of released blocks per class (addresses only)
struct Ring { uint64_t cap, head, n; uint64_t* a; };
static Ring rings[100];
static Rng arng(1);

void allocEnterSim()
{
  // [0,1G) up, [1G,2G) down, [2G,4G) bands, [4G,5G) pages, [5G,6G) ring storage
  mmap(reinterpret_cast<void*>(SIM_BASE), SIM_SIZE, PROT_READ | PROT_WRITE,
       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  const uint64_t G = 1ull << 30;
  upCur = SIM_BASE;
  downCur = SIM_BASE + 2 * G;
  arng = Rng(g_as.pol.seed ^ 0xA110C);
  for (int i = 0; i < BANDS; i++)
  {
    bandCur[i] = SIM_BASE + 2 * G + i * (2 * G / BANDS) / 4096 * 4096;
    bandEnd[i] = SIM_BASE + 2 * G + (i + 1) * (2 * G / BANDS) / 4096 * 4096;
  }
  pageCur = SIM_BASE + 4 * G;
  pageEnd = SIM_BASE + 5 * G;
  if (g_as.pol.guard)
  {
    guardCur = SIM_BASE + 8 * G;
    guardEnd = guardCur + 64 * G;
    mmap(reinterpret_cast<void*>(guardCur), 64 * G, PROT_NONE,
         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  }
  uint64_t rs = SIM_BASE + 5 * G;
  for (int i = 0; i < 100; i++)
  {
    rings[i].cap = 1 << 18;
    rings[i].head = rings[i].n = 0;
    rings[i].a = reinterpret_cast<uint64_t*>(rs);
    rs += (8ull << 18);
  }
}

bool addrInArena(uint64_t a) { return a >= SIM_BASE && a < SIM_BASE + (72ull << 30); }
bool addrInFreed(uint64_t a)
{
  return g_as.pol.guard && a >= SIM_BASE + (8ull << 30) && a < guardCur;
}
void* simPages(uint64_t bytes)
{
  bytes = (bytes + 4095) & ~4095ull;
  if (pageCur + bytes > pageEnd) return nullptr;
  void* p = reinterpret_cast<void*>(pageCur);
  pageCur += bytes;
  return p;
}

static inline void mix(uint64_t v) { g_as.hash = (g_as.hash ^ v) * 0x100000001b3ull; g_as.hash ^= g_as.hash >> 29; }

static void fillNew(void* p, uint64_t n)
{
  int f = g_as.pol.fillNew;
  if (f == 256)
  {
    unsigned char* c = static_cast<unsigned char*>(p);
    uint64_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t r = arng.next(); memcpy(c + i, &r, 8); }
    for (; i < n; i++) c[i] = static_cast<unsigned char>(arng.next());
  }
  else
  {
    memset(p, f, n);
  }
}

static void* simAlloc(uint64_t n, bool zero)
{
  g_as.n++;
  if (g_as.budget && g_as.n > g_as.budget) finish(E_BUDGET, 2);
  if (g_as.failAt && g_as.n >= g_as.failAt && (g_as.failCount == 0 || g_as.n < g_as.failAt + g_as.failCount))
  {
    g_as.failed++;
    errno = ENOMEM;
    return nullptr;
  }
  uint64_t req = n;
  if (n > (900ull << 20)) { errno = ENOMEM; return nullptr; }
  if (n == 0) n = 1;
  n = (n + 15) & ~15ull;
  if (g_as.pol.guard && guardLive < 14000 && guardCur + n + 16384 < guardEnd)
  {
    // [header page][payload ends at a page end] and a hole before the next
    uint64_t pages = (n + 4095) / 4096;
    uint64_t base = guardCur;
    uint64_t all = (pages + 1) * 4096;
    raw(SYS_mprotect, static_cast<long>(base), static_cast<long>(all), PROT_READ | PROT_WRITE);
    guardCur += all + 4096;
    guardLive++;
    uint64_t p = base + all - n;
    Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
    h->size = req;
    h->cls_magic = (MAGIC << 16) | 0x8000;
    mix(p);
    if (zero) memset(reinterpret_cast<void*>(p), 0, n); else fillNew(reinterpret_cast<void*>(p), n);
    return reinterpret_cast<void*>(p);
  }
  int c = clsOf(n);
  uint64_t sz = clsSize(c) + sizeof(Hdr);
  uint64_t at = 0;
  Ring& r = rings[c];
  if (g_as.pol.reuse != AR_NEVER && r.n > 0)
  {
    uint64_t idx;
    bool take = true;
    if (g_as.pol.reuse == AR_LIFO) idx = r.n - 1;
    else if (g_as.pol.reuse == AR_FIFO) idx = 0;
    else { idx = arng.below(r.n); take = arng.chance(0.8); }
    if (take)
    {
      if (g_as.pol.reuse == AR_FIFO)
      {
        at = r.a[r.head % r.cap];
        r.head++;
        r.n--;
      }
      else
      {
        uint64_t last = (r.head + r.n - 1) % r.cap;
        uint64_t cur = (r.head + idx) % r.cap;
        at = r.a[cur];
        r.a[cur] = r.a[last];
        r.n--;
      }
      g_as.reuses++;
    }
  }
  if (!at)
  {
    switch (g_as.pol.order)
    {
      case AO_DOWN: downCur -= sz; at = downCur; if (at < SIM_BASE + (1ull << 30)) finish(E_BUDGET, 3); break;
      case AO_SCATTER:
      {
        int b = static_cast<int>(arng.below(BANDS));
        at = bandCur[b];
        bandCur[b] += sz;
        if (bandCur[b] > bandEnd[b])
        {
          bandCur[b] -= sz;
          at = upCur;
          upCur += sz;
        }
        break;
      }
      default: at = upCur; upCur += sz; break;
    }
    if (upCur > SIM_BASE + (1ull << 30)) finish(E_BUDGET, 3);
  }
  Hdr* h = reinterpret_cast<Hdr*>(at);
  h->size = req;
  h->cls_magic = (MAGIC << 16) | static_cast<uint64_t>(c);
  mix(at);
  void* p = h + 1;
  if (zero) memset(p, 0, n); else fillNew(p, n);
  return p;
}

static void simFree(void* p)
{
  uint64_t a = reinterpret_cast<uint64_t>(p);
  if (!addrInArena(a)) return;  // allocated before the simulated run began
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  if ((h->cls_magic >> 16) != MAGIC) finish(E_SIGNAL, 6, a);  // double or wild free
  g_as.frees++;
  mix(a * 3);
  uint64_t n = (h->size + 15) & ~15ull;
  if (n == 0) n = 16;
  if (h->cls_magic & 0x8000)
  {
    uint64_t pages = (n + 4095) / 4096;
    uint64_t base = (a + n) - (pages + 1) * 4096;
    raw(SYS_mprotect, static_cast<long>(base), static_cast<long>((pages + 1) * 4096), PROT_NONE);
    raw(SYS_madvise, static_cast<long>(base), static_cast<long>((pages + 1) * 4096), MADV_DONTNEED);
    guardLive--;
    return;
  }
  int c = static_cast<int>(h->cls_magic & 0x7fff);
  h->cls_magic = 0;
  if (g_as.pol.fillFree >= 0) memset(p, g_as.pol.fillFree, n);
  if (g_as.pol.reuse != AR_NEVER)
  {
    Ring& r = rings[c];
    if (r.n < r.cap)
    {
      r.a[(r.head + r.n) % r.cap] = reinterpret_cast<uint64_t>(h);
      r.n++;
    }
  }
}
}  // namespace sim

using namespace sim;
extern "C" {
void* malloc(size_t n) { return g_inSim ? simAlloc(n, false) : hostAlloc(n); }
void free(void* p)
{
  if (!p) return;
  if (g_inSim) simFree(p); else hostRelease(p);
}
void* calloc(size_t a, size_t b)
{
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  if (g_inSim) return simAlloc(n, true);
  void* p = hostAlloc(n);
  memset(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n)
{
  if (!p) return malloc(n);
  if (n == 0) { free(p); return nullptr; }
  void* q = malloc(n);
  if (!q) return nullptr;
  uint64_t old = (reinterpret_cast<Hdr*>(p) - 1)->size;
  memcpy(q, p, old < n ? old : n);
  free(p);
  return q;
}
// alignments above 16 are served by over-allocation inside page storage
static void* aligned(size_t al, size_t n)
{
  if (al <= 16) return malloc(n);
  if (g_inSim) return nullptr;
  uint64_t p = reinterpret_cast<uint64_t>(hostAlloc(n + al + 32));
  uint64_t q = (p + al + 31) & ~(static_cast<uint64_t>(al) - 1);
  Hdr* h = reinterpret_cast<Hdr*>(q) - 1;
  h->size = n;
  h->cls_magic = (MAGIC << 16) | 99;
  return reinterpret_cast<void*>(q);
}
void* memalign(size_t al, size_t n) { return aligned(al, n); }
void* aligned_alloc(size_t al, size_t n) { return aligned(al, n); }
int posix_memalign(void** o, size_t al, size_t n)
{
  void* p = aligned(al, n);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
void* valloc(size_t n) { return aligned(4096, n); }
void* pvalloc(size_t n) { return aligned(4096, (n + 4095) & ~4095ull); }
size_t malloc_usable_size(void* p) { return p ? (reinterpret_cast<Hdr*>(p) - 1)->size : 0; }
}
