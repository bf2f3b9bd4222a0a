// Deterministic simulator for ethos: simulated operating system, one seed per
// execution.  See /verif/DESIGN.md.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ------------------------------------------------------------------ PRNG
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + static_cast<int>(below(hi - lo + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class T>
  const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ------------------------------------------------------------------ faults
enum FaultKind
{
  F_NONE = 0,
  F_OPEN_ERR,    // the at-th open of target fails with errno arg
  F_READ_ERR,    // reading target at byte offset >= at fails with errno arg (arg2=1: once)
  F_READ_EOF,    // target ends at byte offset at (lost tail)
  F_WRITE_ERR,   // writing target once `at` bytes are out fails with errno arg (arg2=1: once)
  F_ALLOC_FAIL,  // the at-th allocation fails (arg = how many in a row, 0 = all later ones)
  F_READ_EINTR,  // the at-th read call of target is interrupted
  F_OPEN_SWAP,   // at the at-th open of target its content is that of file arg
  F_KINDS
};
extern const char* const faultNames[F_KINDS];

struct Fault
{
  int kind = F_NONE;
  std::string target;  // path, "<stdin>", "<stdout>", "<stderr>"
  uint64_t at = 0;
  int64_t arg = 0;
  int64_t arg2 = 0;
};

enum ChunkMode { CH_FULL = 0, CH_ONE, CH_FIXED, CH_RANDOM, CH_EDGE };
struct Chunk { int mode = CH_FULL; uint64_t param = 0; };

enum ArenaOrder { AO_UP = 0, AO_DOWN, AO_SCATTER };
enum ArenaReuse { AR_NEVER = 0, AR_LIFO, AR_FIFO, AR_RANDOM };
struct AllocPolicy
{
  int order = AO_UP;
  int reuse = AR_NEVER;
  int fillNew = 0;    // byte written to fresh memory (256 = random bytes)
  int fillFree = -1;  // byte written on free (-1: left alone)
  int guard = 0;      // 1: every object on pages of its own, unmapped when freed
  uint64_t seed = 0;
};

enum ClockMode { CK_STEADY = 0, CK_FROZEN, CK_BACK, CK_JUMPY, CK_TICK };  // tick: advances by a millisecond whenever it is read

// One message of the simulated peer that feeds standard input.
struct Msg
{
  std::string data;
  // the peer sends it only once stdout holds at least this many bytes that end
  // with the text `await` (empty: sends at once)
  std::string await;
};

// What the simulated plugin does: report, refuse some steps, answer some steps,
// keep some messages to itself, evaluate some programs, evaluate some terms (exactly as the checker does).
enum PluginBits { PL_REPORT = 1, PL_REFUSE = 2, PL_ANSWER = 4, PL_ECHO = 8, PL_EVAL = 16, PL_SELF = 32 };
uint64_t pluginHash(const std::string& name, uint64_t seed);

struct World
{
  std::vector<std::string> argv;
  std::string cwd = "/w";
  std::map<std::string, std::string> files;  // absolute path -> content
  std::vector<std::string> dirs;             // extra directories
  std::vector<Msg> input;                    // standard input
  bool tty = false;
  Chunk fileChunk, stdinChunk, outChunk;
  AllocPolicy alloc;
  int clock = CK_STEADY;
  uint64_t clockSeed = 0;
  uint64_t stackKb = 8192;
  uint64_t blk = 4096;  // st_blksize the simulated kernel reports
  std::vector<Fault> faults;
  uint64_t plugin = 0;    // PL_* bits: the plugin that is attached
  uint64_t pluginSeed = 0;
};

enum EndKind { E_EXIT = 0, E_ABORT, E_SIGNAL, E_DEADLOCK, E_BUDGET, E_UNSUPPORTED, E_LOST };
struct Result
{
  int end = E_LOST;
  int code = 0;           // exit code / signal number / syscall number
  uint64_t faultAddr = 0; // for signals
  std::string out, err;
  uint64_t hash = 0;      // of every simulated event of the run
  uint64_t events = 0, allocs = 0, frees = 0;
  uint64_t simNs = 0;     // simulated time covered
  uint64_t fired[F_KINDS] = {0};
  uint64_t shortReads = 0, blockedReads = 0, clockReads = 0, clockJumps = 0;
  uint64_t opens = 0, reuses = 0;
  uint64_t stdinConsumed = 0;
  uint64_t freedTouch = 0;
  std::string trace;      // human readable event trace
  bool success() const { return end == E_EXIT && code == 0; }
  // last line of stdout
  std::string verdict() const;
  bool accepted() const;  // exit 0 and a success verdict
};
std::string describe(const Result& r);

Result run(const World& w, bool wantTrace = false);

std::string serialize(const World& w);
bool deserialize(const std::string& s, size_t& pos, World& w);
std::string esc(const std::string& s);
std::string unesc(const std::string& s);

uint64_t hashStr(const std::string& s, uint64_t h = 0xcbf29ce484222325ull);

}  // namespace sim
