// The simulated kernel: system calls of the code under test are trapped inside
// the process (seccomp SECCOMP_RET_TRAP + SIGSYS) and served from the World.
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <poll.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include "internal.h"

extern int ethos_main(int argc, char** argv);

namespace sim {

const char* const faultNames[F_KINDS] = {"none", "open_error", "read_error", "lost_tail",
                                         "write_error", "alloc_failure", "read_interrupted",
                                         "file_replaced"};

// The only place from which system calls reach the real kernel once a simulated
// run has started: the filter recognises it by its instruction address.
extern "C" const char sim_raw_ip[];
__attribute__((noinline, noclone)) long raw(long n, long a, long b, long c, long d, long e)
{
  long r;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  asm volatile("syscall\n.globl sim_raw_ip\nsim_raw_ip:"
               : "=a"(r)
               : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8)
               : "rcx", "r11", "memory");
  return r;
}

// ------------------------------------------------------------ shared result
static const uint64_t OUTCAP = 2 << 20, ERRCAP = 1 << 20, TRCAP = 1 << 20;
struct Shared
{
  volatile int done;
  int end, code;
  uint64_t faultAddr, hash, events, allocs, frees, reuses, simNs;
  uint64_t fired[F_KINDS];
  uint64_t shortReads, blockedReads, clockReads, clockJumps, opens, stdinConsumed;
  uint64_t outLen, errLen, trLen;
  char out[OUTCAP];
  char err[ERRCAP];
  char tr[TRCAP];
};
static Shared* sh = nullptr;

// ------------------------------------------------------------ kernel state
struct Node
{
  const char* path;
  size_t pathLen;
  const char* data;
  size_t size;
  bool dir;
  uint64_t opens, reads;
  bool touched;
};
static const int MAXNODES = 512, MAXFD = 128, MAXFAULT = 64, MAXMSG = 4096;
static Node nodes[MAXNODES];
static int nNodes;
struct Fd { int kind; int node; uint64_t off; };  // kind 0 closed,1 stdin,2 stdout,3 stderr,4 file,5 dir
static Fd fds[MAXFD];
struct KFault { int kind; int target; uint64_t at; int64_t arg, arg2; bool used; };  // target node idx or -1..-3
static KFault kf[MAXFAULT];
static int nkf;
struct KMsg { const char* d; size_t n; const char* aw; size_t awn; };
static KMsg msgs[MAXMSG];
static int nMsgs, curMsg;
static uint64_t msgOff;       // consumed bytes of msgs[curMsg]
static bool msgOpen;          // msgs[curMsg] has been sent
static uint64_t ackPos;       // stdout position up to which the peer has matched
static uint64_t stdinOff, stdinReads;
static char kcwd[256];
static Chunk cFile, cStdin, cOut;
static bool ktty, kTrace;
static uint64_t kblk;
static Rng kr(1), kclk(1);
static int kclockMode;
static uint64_t nowNs;        // simulated time
static int64_t wallSkew;      // realtime minus monotonic
static uint64_t kmono;
static int msgOutBytes;

static inline void mixh(uint64_t v) { sh->hash = (sh->hash ^ v) * 0x100000001b3ull; sh->hash ^= sh->hash >> 31; }
static void ev(const char* fmt, const char* s, long a, long b, long r)
{
  sh->events++;
  for (const char* p = fmt; *p; p++) mixh(static_cast<unsigned char>(*p));
  if (s) for (const char* p = s; *p; p++) mixh(static_cast<unsigned char>(*p));
  mixh(static_cast<uint64_t>(a));
  mixh(static_cast<uint64_t>(b));
  mixh(static_cast<uint64_t>(r));
  if (kTrace && sh->trLen + 600 < TRCAP)
  {
    int n = snprintf(sh->tr + sh->trLen, 600, "t=%llu %s %s a=%ld b=%ld -> %ld\n",
                     static_cast<unsigned long long>(nowNs), fmt, s ? s : "-", a, b, r);
    if (n > 0) sh->trLen += static_cast<uint64_t>(n > 599 ? 599 : n);
  }
  if (sh->events > 3000000) finish(E_BUDGET, 1);
}

void finish(int end, int code, uint64_t addr)
{
  if (!sh->done)
  {
    sh->end = end;
    sh->code = code;
    sh->faultAddr = addr;
    sh->allocs = g_as.n;
    sh->frees = g_as.frees;
    sh->reuses = g_as.reuses;
    sh->fired[F_ALLOC_FAIL] = g_as.failed;
    sh->simNs = nowNs;
    mixh(static_cast<uint64_t>(end));
    mixh(static_cast<uint64_t>(code));
    mixh(g_as.hash);
    mixh(g_as.n);
    sh->done = 1;
  }
  for (;;) raw(SYS_exit_group, 0);
}

// resolve path to node index, or -errno
static int resolve(const char* p, bool* wasDirSlash = nullptr)
{
  static char buf[8192];
  size_t n = 0;
  size_t len = strlen(p);
  if (len == 0) return -ENOENT;
  if (len > 4000) return -ENAMETOOLONG;
  if (p[0] != '/')
  {
    size_t c = strlen(kcwd);
    memcpy(buf, kcwd, c);
    n = c;
  }
  const char* q = p;
  bool trailing = false;
  while (*q)
  {
    while (*q == '/') q++;
    if (!*q) { trailing = true; break; }
    const char* e = q;
    while (*e && *e != '/') e++;
    size_t l = static_cast<size_t>(e - q);
    // the prefix so far must be an existing directory
    if (n > 0)
    {
      int f = -1;
      for (int i = 0; i < nNodes; i++)
        if (nodes[i].pathLen == n && !memcmp(nodes[i].path, buf, n)) { f = i; break; }
      if (f < 0) return -ENOENT;
      if (!nodes[f].dir) return -ENOTDIR;
    }
    if (l == 1 && q[0] == '.') { if (!e[0]) trailing = true; }
    else if (l == 2 && q[0] == '.' && q[1] == '.')
    {
      while (n > 0 && buf[n - 1] != '/') n--;
      if (n > 0) n--;
      if (!e[0]) trailing = true;
    }
    else
    {
      if (l > 255) return -ENAMETOOLONG;
      buf[n++] = '/';
      memcpy(buf + n, q, l);
      n += l;
    }
    q = e;
  }
  if (n == 0) { buf[0] = '/'; n = 1; }
  for (int i = 0; i < nNodes; i++)
  {
    if (nodes[i].pathLen == n && !memcmp(nodes[i].path, buf, n))
    {
      if (trailing && !nodes[i].dir) return -ENOTDIR;
      if (wasDirSlash) *wasDirSlash = trailing;
      return i;
    }
  }
  return -ENOENT;
}

static uint64_t chunkLen(const Chunk& c, uint64_t want, uint64_t off)
{
  if (want <= 1) return want;
  uint64_t k = want;
  switch (c.mode)
  {
    case CH_ONE: k = 1; break;
    case CH_FIXED: k = c.param ? c.param : 1; break;
    case CH_RANDOM: k = 1 + kr.below(kr.chance(0.5) ? 7 : want); break;
    case CH_EDGE:
    {
      // stop just before, at or after every param-sized boundary
      uint64_t p = c.param ? c.param : 32768;
      uint64_t next = (off / p + 1) * p;
      int64_t d = static_cast<int64_t>(next - off) + static_cast<int64_t>(kr.below(3)) - 1;
      k = d < 1 ? 1 : static_cast<uint64_t>(d);
      break;
    }
    default: break;
  }
  return k < want ? k : want;
}

static KFault* findFault(int kind, int target, uint64_t pos)
{
  for (int i = 0; i < nkf; i++)
    if (kf[i].kind == kind && kf[i].target == target && kf[i].at == pos && !kf[i].used) return &kf[i];
  return nullptr;
}
// bytes readable at off before a fault; sets err if the fault is right at off
static uint64_t limitRead(int target, uint64_t off, uint64_t avail, int* err)
{
  for (int i = 0; i < nkf; i++)
  {
    KFault& f = kf[i];
    if (f.target != target || f.used) continue;
    if (f.kind == F_READ_EOF)
    {
      if (f.at <= off) { sh->fired[F_READ_EOF]++; avail = 0; }
      else if (f.at - off < avail) avail = f.at - off;
    }
  }
  for (int i = 0; i < nkf; i++)
  {
    KFault& f = kf[i];
    if (f.target != target || f.used) continue;
    if (f.kind == F_READ_ERR)
    {
      if (f.at <= off)
      {
        sh->fired[F_READ_ERR]++;
        if (f.arg2) f.used = true;
        *err = static_cast<int>(f.arg);
        return 0;
      }
      if (f.at - off < avail) avail = f.at - off;
    }
  }
  return avail;
}

static long readNode(int ni, uint64_t* off, char* buf, uint64_t n)
{
  Node& nd = nodes[ni];
  nd.reads++;
  nd.touched = true;
  if (nd.dir) return -EISDIR;
  if (KFault* f = findFault(F_READ_EINTR, ni, nd.reads))
  {
    f->used = true;
    sh->fired[F_READ_EINTR]++;
    return -EINTR;
  }
  uint64_t avail = *off < nd.size ? nd.size - *off : 0;
  if (n == 0) return 0;
  int err = 0;
  uint64_t lim = limitRead(ni, *off, avail, &err);
  if (err) return -err;
  uint64_t want = lim < n ? lim : n;
  uint64_t k = chunkLen(cFile, want, *off);
  if (k < want) sh->shortReads++;
  memcpy(buf, nd.data + *off, k);
  *off += k;
  nowNs += 1000 + kr.below(50000);
  return static_cast<long>(k);
}

static bool peerReady(const KMsg& m)
{
  if (m.awn == 0) return true;
  // search the awaited text in stdout after what the peer has consumed
  for (uint64_t i = ackPos; i + m.awn <= sh->outLen; i++)
  {
    if (!memcmp(sh->out + i, m.aw, m.awn))
    {
      ackPos = i + m.awn;
      return true;
    }
  }
  return false;
}

static long readStdin(char* buf, uint64_t n)
{
  if (n == 0) return 0;
  stdinReads++;
  if (KFault* f = findFault(F_READ_EINTR, -1, stdinReads))
  {
    f->used = true;
    sh->fired[F_READ_EINTR]++;
    return -EINTR;
  }
  for (;;)
  {
    int err = 0;
    uint64_t avail = 0;
    if (curMsg < nMsgs && msgOpen)
    {
      avail = msgs[curMsg].n - msgOff;
      if (avail == 0)
      {
        curMsg++;
        msgOff = 0;
        msgOpen = false;
        continue;
      }
    }
    if (curMsg < nMsgs && !msgOpen)
    {
      int e2 = 0;
      // a dead stream fails before the peer's next message matters
      uint64_t l = limitRead(-1, stdinOff, 1, &e2);
      if (e2) return -e2;
      if (l == 0) return 0;
      sh->blockedReads++;
      if (!peerReady(msgs[curMsg])) finish(E_DEADLOCK, curMsg);
      nowNs += kr.chance(0.1) ? kr.below(3600ull * 1000000000ull) : kr.below(20000000);
      msgOpen = true;
      msgOff = 0;
      continue;
    }
    uint64_t lim = limitRead(-1, stdinOff, avail, &err);
    if (err) return -err;
    uint64_t want = lim < n ? lim : n;
    if (want == 0) return 0;
    uint64_t k = chunkLen(cStdin, want, stdinOff);
    if (k < want) sh->shortReads++;
    memcpy(buf, msgs[curMsg].d + msgOff, k);
    msgOff += k;
    stdinOff += k;
    sh->stdinConsumed = stdinOff;
    nowNs += 1000 + kr.below(100000);
    return static_cast<long>(k);
  }
}

static long writeOut(int kind, const char* buf, uint64_t n)
{
  int target = kind == 2 ? -2 : -3;
  uint64_t* len = kind == 2 ? &sh->outLen : &sh->errLen;
  char* dst = kind == 2 ? sh->out : sh->err;
  uint64_t cap = kind == 2 ? OUTCAP : ERRCAP;
  uint64_t want = n;
  for (int i = 0; i < nkf; i++)
  {
    KFault& f = kf[i];
    if (f.kind != F_WRITE_ERR || f.target != target || f.used) continue;
    if (f.at <= *len)
    {
      sh->fired[F_WRITE_ERR]++;
      if (f.arg2) f.used = true;
      if (f.arg == EPIPE) finish(E_SIGNAL, SIGPIPE);
      return -f.arg;
    }
    if (f.at - *len < want) want = f.at - *len;
  }
  if (n == 0) return 0;
  uint64_t k = chunkLen(cOut, want, *len);
  if (k < n) sh->shortReads++;
  if (*len + k > cap) finish(E_BUDGET, 4);
  memcpy(dst + *len, buf, k);
  *len += k;
  for (uint64_t i = 0; i < k; i++) mixh(static_cast<unsigned char>(buf[i]));
  nowNs += 500 + kr.below(20000);
  return static_cast<long>(k);
}

static int newFd()
{
  for (int i = 0; i < MAXFD; i++) if (fds[i].kind == 0) return i;
  return -EMFILE;
}

static long doOpen(const char* path, int flags)
{
  int ni = resolve(path);
  long r;
  if (ni < 0)
  {
    r = (flags & O_CREAT) ? -EROFS : ni;
  }
  else
  {
    // opening again without having read anything counts as the same open
    if (nodes[ni].opens == 0 || nodes[ni].touched) nodes[ni].opens++;
    nodes[ni].touched = false;
    if (!nodes[ni].dir) sh->opens++;
    if (KFault* f = findFault(F_OPEN_SWAP, ni, nodes[ni].opens))
    {
      f->used = true;
      sh->fired[F_OPEN_SWAP]++;
      if (f->arg >= 0 && f->arg < nNodes)
      {
        nodes[ni].data = nodes[f->arg].data;
        nodes[ni].size = nodes[f->arg].size;
      }
    }
    if (KFault* f = findFault(F_OPEN_ERR, ni, nodes[ni].opens))
    {
      sh->fired[F_OPEN_ERR]++;
      if (f->arg2) f->used = true;
      else f->at++;  // persists
      nodes[ni].touched = true;
      return -f->arg;
    }
    if ((flags & O_ACCMODE) != O_RDONLY) r = nodes[ni].dir ? -EISDIR : -EROFS;
    else if ((flags & O_DIRECTORY) && !nodes[ni].dir) r = -ENOTDIR;
    else
    {
      int f = newFd();
      if (f >= 0)
      {
        fds[f].kind = nodes[ni].dir ? 5 : 4;
        fds[f].node = ni;
        fds[f].off = 0;
      }
      r = f;
    }
  }
  return r;
}

static void fillStat(int ni, int kind, struct stat* st)
{
  memset(st, 0, sizeof *st);
  st->st_nlink = 1;
  st->st_blksize = static_cast<long>(kblk);
  if (kind == 4 || kind == 5)
  {
    st->st_dev = 8;
    st->st_ino = static_cast<unsigned long>(100 + ni);
    st->st_mode = nodes[ni].dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
    st->st_size = static_cast<long>(nodes[ni].size);
    st->st_blocks = st->st_size / 512 + 1;
  }
  else
  {
    st->st_dev = 9;
    st->st_ino = static_cast<unsigned long>(10 + kind);
    st->st_mode = (kind == 1 && ktty) ? (S_IFCHR | 0620) : (S_IFIFO | 0600);
    if (kind == 1 && ktty) st->st_rdev = 0x8801;
  }
}
static void toStatx(const struct stat& st, void* p)
{
  struct statx* x = static_cast<struct statx*>(p);
  memset(x, 0, sizeof *x);
  x->stx_mask = STATX_BASIC_STATS;
  x->stx_blksize = static_cast<unsigned>(st.st_blksize);
  x->stx_nlink = 1;
  x->stx_mode = static_cast<unsigned short>(st.st_mode);
  x->stx_ino = st.st_ino;
  x->stx_size = static_cast<unsigned long long>(st.st_size);
  x->stx_blocks = static_cast<unsigned long long>(st.st_blocks);
  x->stx_dev_minor = static_cast<unsigned>(st.st_dev);
}

// ------------------------------------------------------------ clock
static void readClock(int id, struct timespec* ts)
{
  sh->clockReads++;
  nowNs += 50 + kclk.below(3000);
  kmono = nowNs;
  if (kclockMode == CK_JUMPY && kclk.chance(0.3))
  {
    sh->clockJumps++;
    int64_t mag = static_cast<int64_t>(1) << kclk.below(62);
    wallSkew += kclk.chance(0.5) ? mag % 4000000000000000ll : -(mag % 4000000000000000ll);
  }
  if (kclockMode == CK_BACK)
  {
    sh->clockJumps++;
    wallSkew -= static_cast<int64_t>(kclk.below(5000000000ull));
  }
  int64_t v = static_cast<int64_t>(kmono);
  bool wall = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE;
  if (wall) v = 1700000000000000000ll + (kclockMode == CK_FROZEN ? 0 : v) + wallSkew;
  else if (kclockMode == CK_FROZEN) v = 1000000000;
  if (kclockMode == CK_TICK) v = (wall ? 1700000000000000000ll : 0) + static_cast<int64_t>(sh->clockReads) * 1000000;
  if (v < 0) v = 0;
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  ev("clock", nullptr, id, 0, v);
}

// ------------------------------------------------------------ dispatcher
static long dispatch(long nr, const long* a)
{
  auto fdOk = [&](long f) { return f >= 0 && f < MAXFD && fds[f].kind != 0; };
  nowNs += 200;
  switch (nr)
  {
    case SYS_open:
    {
      const char* p = reinterpret_cast<const char*>(a[0]);
      long r = doOpen(p, static_cast<int>(a[1]));
      ev("open", p, a[1], 0, r);
      return r;
    }
    case SYS_openat:
    case 437 /* openat2 */:
    {
      const char* p = reinterpret_cast<const char*>(a[1]);
      long r = doOpen(p, nr == SYS_openat ? static_cast<int>(a[2]) : 0);
      ev("open", p, a[2] & 0xffffff, 0, r);
      return r;
    }
    case SYS_close:
    {
      long r = fdOk(a[0]) ? 0 : -EBADF;
      if (!r) fds[a[0]].kind = 0;
      ev("close", nullptr, a[0], 0, r);
      return r;
    }
    case SYS_read:
    case SYS_pread64:
    {
      if (!fdOk(a[0])) return -EBADF;
      Fd& f = fds[a[0]];
      long r;
      if (f.kind == 1) r = readStdin(reinterpret_cast<char*>(a[1]), static_cast<uint64_t>(a[2]));
      else if (f.kind == 5) r = -EISDIR;
      else if (f.kind == 4)
      {
        uint64_t tmp = static_cast<uint64_t>(a[3]);
        r = readNode(f.node, nr == SYS_read ? &f.off : &tmp, reinterpret_cast<char*>(a[1]), static_cast<uint64_t>(a[2]));
      }
      else r = -EBADF;
      ev("read", f.kind == 4 ? nodes[f.node].path : "<stdin>", a[0], a[2], r);
      return r;
    }
    case SYS_readv:
    case SYS_preadv:
    {
      if (!fdOk(a[0])) return -EBADF;
      Fd& f = fds[a[0]];
      struct iovec* v = reinterpret_cast<struct iovec*>(a[1]);
      long tot = 0;
      for (long i = 0; i < a[2]; i++)
      {
        if (v[i].iov_len == 0) continue;
        if (f.kind == 1 && tot > 0) break;  // a pipe returns what it has
        long r;
        if (f.kind == 1) r = readStdin(static_cast<char*>(v[i].iov_base), v[i].iov_len);
        else if (f.kind == 4) r = readNode(f.node, &f.off, static_cast<char*>(v[i].iov_base), v[i].iov_len);
        else r = -EISDIR;
        if (r < 0) { if (tot == 0) tot = r; break; }
        tot += r;
        if (static_cast<size_t>(r) < v[i].iov_len) break;
      }
      ev("readv", f.kind == 4 ? nodes[f.node].path : "<stdin>", a[0], a[2], tot);
      return tot;
    }
    case SYS_write:
    case SYS_pwrite64:
    {
      if (!fdOk(a[0])) return -EBADF;
      int k = fds[a[0]].kind;
      long r = (k == 2 || k == 3) ? writeOut(k, reinterpret_cast<const char*>(a[1]), static_cast<uint64_t>(a[2])) : -EBADF;
      ev("write", k == 2 ? "<stdout>" : "<stderr>", a[0], a[2], r);
      return r;
    }
    case SYS_writev:
    {
      if (!fdOk(a[0])) return -EBADF;
      int k = fds[a[0]].kind;
      if (k != 2 && k != 3) return -EBADF;
      struct iovec* v = reinterpret_cast<struct iovec*>(a[1]);
      long tot = 0;
      for (long i = 0; i < a[2]; i++)
      {
        if (v[i].iov_len == 0) continue;
        long r = writeOut(k, static_cast<const char*>(v[i].iov_base), v[i].iov_len);
        if (r < 0) { if (tot == 0) tot = r; break; }
        tot += r;
        if (static_cast<size_t>(r) < v[i].iov_len) break;
      }
      ev("writev", k == 2 ? "<stdout>" : "<stderr>", a[0], a[2], tot);
      return tot;
    }
    case SYS_lseek:
    {
      if (!fdOk(a[0])) return -EBADF;
      Fd& f = fds[a[0]];
      long r;
      if (f.kind != 4) r = -ESPIPE;
      else
      {
        int64_t base = a[2] == SEEK_SET ? 0 : a[2] == SEEK_CUR ? static_cast<int64_t>(f.off) : static_cast<int64_t>(nodes[f.node].size);
        int64_t v = base + a[1];
        if (v < 0) r = -EINVAL;
        else { f.off = static_cast<uint64_t>(v); r = v; }
      }
      ev("lseek", nullptr, a[0], a[1], r);
      return r;
    }
    case SYS_fstat:
    {
      if (!fdOk(a[0])) return -EBADF;
      fillStat(fds[a[0]].node, fds[a[0]].kind, reinterpret_cast<struct stat*>(a[1]));
      ev("fstat", nullptr, a[0], 0, 0);
      return 0;
    }
    case SYS_stat:
    case SYS_lstat:
    case SYS_newfstatat:
    case SYS_statx:
    {
      bool at = nr == SYS_newfstatat || nr == SYS_statx;
      const char* p = reinterpret_cast<const char*>(at ? a[1] : a[0]);
      struct stat st;
      long r = 0;
      bool empty = p == nullptr || p[0] == 0;
      if (at && empty)
      {
        if (!fdOk(a[0])) r = -EBADF;
        else fillStat(fds[a[0]].node, fds[a[0]].kind, &st);
      }
      else
      {
        int ni = resolve(p);
        if (ni < 0) r = ni;
        else fillStat(ni, nodes[ni].dir ? 5 : 4, &st);
      }
      if (r == 0)
      {
        if (nr == SYS_statx) toStatx(st, reinterpret_cast<void*>(a[4]));
        else memcpy(reinterpret_cast<void*>(at ? a[2] : a[1]), &st, sizeof st);
      }
      ev("stat", p ? p : "", at ? a[0] : 0, 0, r);
      return r;
    }
    case SYS_access:
    case SYS_faccessat:
    case 439 /* faccessat2 */:
    {
      const char* p = reinterpret_cast<const char*>(nr == SYS_access ? a[0] : a[1]);
      long mode = nr == SYS_access ? a[1] : a[2];
      int ni = resolve(p);
      long r = ni < 0 ? ni : 0;
      if (!r && (mode & 2)) r = -EROFS;
      ev("access", p, mode, 0, r);
      return r;
    }
    case SYS_readlink:
    case SYS_readlinkat:
    {
      const char* p = reinterpret_cast<const char*>(nr == SYS_readlink ? a[0] : a[1]);
      int ni = resolve(p);
      long r = ni < 0 ? ni : -EINVAL;
      ev("readlink", p, 0, 0, r);
      return r;
    }
    case SYS_getcwd:
    {
      size_t l = strlen(kcwd) + 1;
      if (static_cast<size_t>(a[1]) < l) return -ERANGE;
      memcpy(reinterpret_cast<void*>(a[0]), kcwd, l);
      ev("getcwd", nullptr, 0, 0, static_cast<long>(l));
      return static_cast<long>(l);
    }
    case SYS_ioctl:
    {
      if (!fdOk(a[0])) return -EBADF;
      int k = fds[a[0]].kind;
      long r = -ENOTTY;
      if (a[1] == TCGETS && k == 1 && ktty) { memset(reinterpret_cast<void*>(a[2]), 0, 36); r = 0; }
      if (a[1] == FIONREAD)
      {
        int v = 0;
        if (k == 1) v = (curMsg < nMsgs && msgOpen) ? static_cast<int>(msgs[curMsg].n - msgOff) : 0;
        if (k == 4) v = static_cast<int>(nodes[fds[a[0]].node].size - fds[a[0]].off);
        *reinterpret_cast<int*>(a[2]) = v;
        r = 0;
      }
      ev("ioctl", nullptr, a[0], a[1], r);
      return r;
    }
    case SYS_poll:
    case SYS_ppoll:
    {
      struct pollfd* p = reinterpret_cast<struct pollfd*>(a[0]);
      long cnt = 0;
      for (long i = 0; i < a[1]; i++)
      {
        p[i].revents = 0;
        if (!fdOk(p[i].fd)) p[i].revents = POLLNVAL;
        else p[i].revents = static_cast<short>(p[i].events & (POLLIN | POLLOUT));
        if (p[i].revents) cnt++;
      }
      ev("poll", nullptr, a[1], 0, cnt);
      return cnt;
    }
    case SYS_fcntl: ev("fcntl", nullptr, a[0], a[1], 0); return a[1] == F_GETFL ? 0 : 0;
    case SYS_dup:
    {
      if (!fdOk(a[0])) return -EBADF;
      int f = newFd();
      if (f >= 0) fds[f] = fds[a[0]];
      return f;
    }
    case SYS_mmap:
    {
      uint64_t len = static_cast<uint64_t>(a[1]);
      if (a[3] & MAP_FIXED) return -EINVAL;
      char* p = static_cast<char*>(simPages(len));
      if (!p) return -ENOMEM;
      if (!(a[3] & MAP_ANONYMOUS))
      {
        if (!fdOk(a[4]) || fds[a[4]].kind != 4) return -ENODEV;
        Node& nd = nodes[fds[a[4]].node];
        uint64_t off = static_cast<uint64_t>(a[5] & 0xffffffff);
        off = 0;
        memcpy(p, nd.data + off, nd.size < len ? nd.size : len);
      }
      ev("mmap", nullptr, a[1], 0, 0);
      return reinterpret_cast<long>(p);
    }
    case SYS_munmap:
    case SYS_mprotect:
    case SYS_madvise:
    case SYS_fadvise64: return 0;
    case SYS_brk: return 0;
    case SYS_clock_gettime:
      readClock(static_cast<int>(a[0]), reinterpret_cast<struct timespec*>(a[1]));
      return 0;
    case SYS_gettimeofday:
    {
      struct timespec ts;
      readClock(CLOCK_REALTIME, &ts);
      struct timeval* tv = reinterpret_cast<struct timeval*>(a[0]);
      if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
      return 0;
    }
    case SYS_time:
    {
      struct timespec ts;
      readClock(CLOCK_REALTIME, &ts);
      if (a[0]) *reinterpret_cast<long*>(a[0]) = ts.tv_sec;
      return ts.tv_sec;
    }
    case SYS_nanosleep:
    case SYS_clock_nanosleep:
    {
      const struct timespec* ts = reinterpret_cast<const struct timespec*>(nr == SYS_nanosleep ? a[0] : a[2]);
      nowNs += static_cast<uint64_t>(ts->tv_sec) * 1000000000ull + static_cast<uint64_t>(ts->tv_nsec);
      ev("sleep", nullptr, ts->tv_sec, ts->tv_nsec, 0);
      return 0;
    }
    case SYS_getrusage: memset(reinterpret_cast<void*>(a[1]), 0, sizeof(struct rusage)); return 0;
    case SYS_getrandom:
    {
      unsigned char* p = reinterpret_cast<unsigned char*>(a[0]);
      for (long i = 0; i < a[1]; i++) p[i] = static_cast<unsigned char>(kr.next());
      ev("getrandom", nullptr, a[1], 0, a[1]);
      return a[1];
    }
    case SYS_getpid:
    case SYS_gettid: return 4242;
    case SYS_getppid: return 4000;
    case SYS_getuid:
    case SYS_geteuid:
    case SYS_getgid:
    case SYS_getegid: return 1000;
    case SYS_rt_sigprocmask:
    case SYS_rt_sigaction:
    case SYS_sigaltstack:
    case SYS_futex:
    case SYS_sched_yield:
    case SYS_set_robust_list: return 0;
    case SYS_prlimit64:
    {
      struct rlimit* o = reinterpret_cast<struct rlimit*>(a[3]);
      if (o) { o->rlim_cur = 8 << 20; o->rlim_max = RLIM_INFINITY; }
      return 0;
    }
    case SYS_tgkill:
    case SYS_tkill:
    case SYS_kill:
    {
      int s = static_cast<int>(nr == SYS_tgkill ? a[2] : a[1]);
      if (s == 0) return 0;
      ev("kill", nullptr, s, 0, 0);
      if (s == SIGABRT) finish(E_ABORT, s);
      finish(E_SIGNAL, s);
    }
    case SYS_exit:
    case SYS_exit_group: ev("exit", nullptr, a[0], 0, 0); finish(E_EXIT, static_cast<int>(a[0] & 0xff));
    default:
      ev("ENOSYS", nullptr, nr, 0, 0);
      return -ENOSYS;
  }
}

static void onSigsys(int, siginfo_t* si, void* u)
{
  ucontext_t* c = static_cast<ucontext_t*>(u);
  greg_t* g = c->uc_mcontext.gregs;
  long a[6] = {g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
  int save = errno;
  g[REG_RAX] = dispatch(si->si_syscall, a);
  errno = save;
}
static void onFatal(int s, siginfo_t* si, void*)
{
  if (s == SIGXCPU) finish(E_BUDGET, 9);
  finish(E_SIGNAL, s, reinterpret_cast<uint64_t>(si->si_addr));
}

// ------------------------------------------------------------ child
static const uint64_t STACK_TOP = 0x400000000000ull;
static ucontext_t mainCtx, backCtx;
static int gArgc;
static char** gArgv;
static void tramp()
{
  int rc = ethos_main(gArgc, gArgv);
  exit(rc);
}

static void addNode(const char* p, size_t n, const char* d, size_t sz, bool dir)
{
  for (int i = 0; i < nNodes; i++)
    if (nodes[i].pathLen == n && !memcmp(nodes[i].path, p, n)) return;
  if (nNodes >= MAXNODES) return;
  nodes[nNodes++] = Node{p, n, d, sz, dir, 0, 0, false};
}
static void addParents(const std::string& p)
{
  for (size_t i = 1; i < p.size(); i++)
    if (p[i] == '/') addNode((new std::string(p.substr(0, i)))->c_str(), i, "", 0, true);
}

static void setupKernel(const World& w, bool wantTrace)
{
  kTrace = wantTrace;
  nNodes = 0;
  addNode("/", 1, "", 0, true);
  snprintf(kcwd, sizeof kcwd, "%s", w.cwd.c_str());
  addParents(w.cwd + "/");
  for (auto& d : w.dirs) addParents(d + "/");
  for (auto& f : w.files)
  {
    addParents(f.first);
    addNode(f.first.c_str(), f.first.size(), f.second.data(), f.second.size(), false);
  }
  memset(fds, 0, sizeof fds);
  fds[0].kind = 1;
  fds[1].kind = 2;
  fds[2].kind = 3;
  nkf = 0;
  for (auto& f : w.faults)
  {
    if (nkf >= MAXFAULT) break;
    if (f.kind == F_ALLOC_FAIL)
    {
      g_as.failAt = f.at;
      g_as.failCount = static_cast<uint64_t>(f.arg);
      continue;
    }
    KFault k{f.kind, 0, f.at, f.arg, f.arg2, false};
    if (f.target == "<stdin>") k.target = -1;
    else if (f.target == "<stdout>") k.target = -2;
    else if (f.target == "<stderr>") k.target = -3;
    else
    {
      k.target = -9;
      for (int i = 0; i < nNodes; i++)
        if (f.target == nodes[i].path) k.target = i;
    }
    if (f.kind == F_OPEN_SWAP)
    {
      // arg names the n-th file of the world (map order)
      int64_t idx = 0;
      for (auto& ff : w.files)
      {
        if (f.arg < 0 ? ff.first == "/swap/changed" : idx == f.arg)
        {
          for (int i = 0; i < nNodes; i++)
            if (ff.first == nodes[i].path) k.arg = i;
          break;
        }
        idx++;
      }
    }
    kf[nkf++] = k;
  }
  nMsgs = 0;
  for (auto& m : w.input)
  {
    if (nMsgs >= MAXMSG) break;
    if (m.data.empty()) continue;
    msgs[nMsgs++] = KMsg{m.data.data(), m.data.size(), m.await.data(), m.await.size()};
  }
  curMsg = 0;
  msgOff = 0;
  msgOpen = false;
  ackPos = 0;
  stdinOff = stdinReads = 0;
  cFile = w.fileChunk;
  cStdin = w.stdinChunk;
  cOut = w.outChunk;
  ktty = w.tty;
  kblk = w.blk;
  kr = Rng(w.clockSeed * 7 + 13);
  kclk = Rng(w.clockSeed * 11 + 17);
  kclockMode = w.clock;
  nowNs = 1000000;
  wallSkew = 0;
}

const World* g_simWorld = nullptr;
[[noreturn]] static void child(const World& w, bool wantTrace)
{
  g_simWorld = &w;
  setupKernel(w, wantTrace);
  g_as = AllocState();
  g_as.pol = w.alloc;
  for (auto& f : w.faults)
    if (f.kind == F_ALLOC_FAIL) { g_as.failAt = f.at; g_as.failCount = static_cast<uint64_t>(f.arg); }
  g_as.budget = 6000000;
  // argv in fixed storage
  static char argbuf[1 << 16];
  static char* argv[256];
  size_t o = 0;
  gArgc = 0;
  auto put = [&](const std::string& s) {
    if (gArgc >= 250 || o + s.size() + 1 > sizeof argbuf) return;
    memcpy(argbuf + o, s.c_str(), s.size() + 1);
    argv[gArgc++] = argbuf + o;
    o += s.size() + 1;
  };
  put("ethos");
  for (auto& s : w.argv) put(s);
  argv[gArgc] = nullptr;
  gArgv = argv;
  // stack at a fixed address with an unmapped guard below
  uint64_t ssz = w.stackKb * 1024;
  void* st = mmap(reinterpret_cast<void*>(STACK_TOP - ssz), ssz, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  allocEnterSim();
  static char alt[65536];
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = onSigsys;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSYS, &sa, nullptr);
  sa.sa_sigaction = onFatal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGXCPU, SIGTRAP}) sigaction(s, &sa, nullptr);
  struct rlimit rl;
  rl.rlim_cur = 10;
  rl.rlim_max = 15;
  setrlimit(RLIMIT_CPU, &rl);
  getcontext(&mainCtx);
  mainCtx.uc_stack.ss_sp = st;
  mainCtx.uc_stack.ss_size = ssz;
  mainCtx.uc_link = &backCtx;
  makecontext(&mainCtx, tramp, 0);
  const uint64_t ip = reinterpret_cast<uint64_t>(sim_raw_ip);
  struct sock_filter f[] = {
      BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
      BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_rt_sigreturn, 5, 0),
      BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer)),
      BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, static_cast<uint32_t>(ip), 0, 2),
      BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4),
      BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, static_cast<uint32_t>(ip >> 32), 1, 0),
      BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
      BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)};
  struct sock_fprog p = {sizeof f / sizeof *f, f};
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p))
    raw(SYS_exit_group, 98);
  g_inSim = true;
  setcontext(&mainCtx);  // its rt_sigprocmask is served by the simulated kernel
  for (;;) raw(SYS_exit_group, 96);
}

Result run(const World& w, bool wantTrace)
{
  if (!sh)
  {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh = static_cast<Shared*>(p);
  }
  memset(sh, 0, offsetof(Shared, out));
  sh->end = E_LOST;
  sh->hash = 0xcbf29ce484222325ull;
  pid_t pid = fork();
  if (pid == 0) child(w, wantTrace);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Result r;
  r.end = sh->done ? sh->end : E_LOST;
  r.code = sh->done ? sh->code : (WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st));
  r.faultAddr = sh->faultAddr;
  r.out.assign(sh->out, sh->outLen);
  r.err.assign(sh->err, sh->errLen);
  r.hash = sh->hash;
  r.events = sh->events;
  r.allocs = sh->allocs;
  r.frees = sh->frees;
  r.reuses = sh->reuses;
  r.simNs = sh->simNs;
  for (int i = 0; i < F_KINDS; i++) r.fired[i] = sh->fired[i];
  r.shortReads = sh->shortReads;
  r.blockedReads = sh->blockedReads;
  r.clockReads = sh->clockReads;
  r.clockJumps = sh->clockJumps;
  r.opens = sh->opens;
  r.stdinConsumed = sh->stdinConsumed;
  r.trace.assign(sh->tr, sh->trLen);
  return r;
}

std::string Result::verdict() const
{
  // the line `correct` or `incomplete` (statistics may follow it)
  size_t p = 0;
  std::string v;
  while (p < out.size())
  {
    size_t e = out.find('\n', p);
    if (e == std::string::npos) break;
    std::string l = out.substr(p, e - p);
    if (l == "correct" || l == "incomplete") v = l;
    p = e + 1;
  }
  return v;
}
bool Result::accepted() const { return success() && !verdict().empty(); }

std::string describe(const Result& r)
{
  static const char* n[] = {"exit", "abort", "signal", "deadlock", "budget", "unsupported", "lost"};
  std::string s = std::string(n[r.end]) + "(" + std::to_string(r.code) + ")";
  if (r.end == E_SIGNAL)
  {
    char b[40];
    snprintf(b, sizeof b, " at %llx", static_cast<unsigned long long>(r.faultAddr));
    s += b;
  }
  std::string v = r.verdict();
  if (!v.empty()) s += " verdict=" + v;
  return s;
}

uint64_t hashStr(const std::string& s, uint64_t h)
{
  for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ull; }
  return h;
}

}  // namespace sim

// clocks go through the vDSO, not the kernel: interposed at link time
extern "C" {
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t id, struct timespec* ts)
{
  if (!sim::g_inSim) return __real_clock_gettime(id, ts);
  sim::readClock(id, ts);
  return 0;
}
int __real_gettimeofday(struct timeval*, void*);
int __wrap_gettimeofday(struct timeval* tv, void* z)
{
  if (!sim::g_inSim) return __real_gettimeofday(tv, z);
  struct timespec ts;
  sim::readClock(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t __real_time(time_t*);
time_t __wrap_time(time_t* t)
{
  if (!sim::g_inSim) return __real_time(t);
  struct timespec ts;
  sim::readClock(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
clock_t __wrap_clock(void)
{
  return sim::g_inSim ? static_cast<clock_t>(sim::nowNs / 1000) : 0;
}
}
