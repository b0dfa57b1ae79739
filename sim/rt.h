// Deterministic simulation runtime: scheduler, race detector, heap, virtual disk.
// Everything in rt.cpp is compiled WITHOUT instrumentation; all library and scenario code is compiled with
// -fsanitize=thread whose callbacks land in rt.cpp instead of the real TSan runtime.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>

namespace sim {
using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;

constexpr int kMaxThreads = 8;

// ---------------------------------------------------------------- PRNG (splitmix64 / xorshift*)
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n == 0 ? 0 : next() % n; }
  i64 range(i64 lo, i64 hi) { return lo + i64(below(u64(hi - lo + 1))); }
  bool chance(u64 num, u64 den) { return below(den) < num; }
  double unit() { return double(next() >> 11) / 9007199254740992.0; }
};
inline u64 mix(u64 a, u64 b) {
  u64 z = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2));
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

// ---------------------------------------------------------------- schedule
enum Strategy { kSeq = 0, kRandom = 1, kPct = 2, kConflict = 3, kSync = 4, kReplay = 5 };
struct Switch {
  u64 step;  // step number of thread 'tid' at which it gave up the baton
  u16 tid, next;
  u16 forced;  // blocked/finished: the choice of 'next' only
  u16 pad;
};
struct SchedCfg {
  int strategy = kSeq;
  u64 seed = 1;
  u64 gap = 100;      // mean gap (random), 1/p for conflict/sync, change points for pct
  u64 length = 10000; // pct: horizon
  u64 maxSteps = 400000000ull;
};

// ---------------------------------------------------------------- faults
enum IoOp { kIoOpen = 0, kIoRead = 1, kIoWrite = 2, kIoClose = 3, kIoStat = 4, kIoSeek = 5, kIoNumOps = 6 };
enum IoFaultKind {
  kFaultNone = 0,
  kErrEIO,        // call fails with EIO
  kErrENOSPC,     // partial write of 'arg' bytes, from then on ENOSPC (sticky until healed)
  kErrEACCES,     // open refused
  kErrEMFILE,
  kShort,         // short read / short write (benign)
  kEINTR,         // interrupted call (benign)
  kEof,           // read returns 0 from here on (file cut short while reading)
  kCrash,         // process dies inside the call after 'arg' bytes went to the OS
  kErrENOENT,
};
struct IoFault {
  int op;       // IoOp
  u64 nth;      // n-th call of that kind in this life (0-based); for byte-positioned faults: byte offset
  int kind;
  u64 arg;
  int byByte;   // nth is a byte position within the stream of op
  int client;   // -1: any thread, else only calls by this simulated thread (per-thread counter)
};

// ---------------------------------------------------------------- shared memory block (one per worker)
struct Counter { char name[56]; u64 v; };
constexpr int kMaxCounters = 400;
constexpr u32 kMaxSwitches = 1u << 20;
constexpr int kMaxFiles = 48;
struct SimFile {
  char name[120];
  u32 used;
  u32 pad;
  u64 size;
  u64 off;  // offset into disk region
  u64 cap;
};
struct Shm {
  // outcome
  u32 status;  // 0 running, 1 ok, 2 violation, 3 internal error, 4 discarded
  u32 life;
  u32 livesPlanned;
  u32 crashed;  // life ended by injected crash
  char category[96];
  char message[6000];
  u64 hash;      // event hash
  u64 sig;       // interleaving signature
  u64 steps, switches, conflicts, accesses, allocs, simNs;
  u32 nontrivial;
  u32 nsw;
  u32 swOverflow;
  u32 nctr;
  Counter ctr[kMaxCounters];
  char sample[4000];
  u32 planLen;
  char plan[1u << 20];
  u32 blobLen[8];
  char blob[8][1u << 20];
  SimFile files[kMaxFiles];
  u64 diskUsed;
  Switch sw[kMaxSwitches];
};
constexpr u64 kDiskBytes = 64ull << 20;

void init();  // once, very early in main
void attachShm(Shm* shm, char* disk);
Shm* shm();

// per-run control (inside the run child)
void beginLife(u64 arenaSeed);
void setSched(const SchedCfg& cfg, const Switch* replay, u32 nReplay);
[[noreturn]] void finish(u32 status);                                     // ends this life (process exit)
[[noreturn]] void violation(const char* category, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void internalError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void crashNow();                                             // injected process crash
void count(const char* name, u64 n = 1);
void hashEvent(u64 v);
void hashBytes(const void* p, size_t n);
void markNontrivial();

// threads
int spawn(void (*fn)(void*), void* arg);  // simulated thread, returns id
void joinAll();
int self();
void yieldPoint();  // explicit scheduling point (turn-taking clients)
u64 now();          // global step number: the simulator's event sequence

// harness mode: allocations go to the harness heap, no scheduling, no race tracking, no failing allocations
struct Harness {
  Harness();
  ~Harness();
};
// lib mode inside a Harness scope
struct Lib {
  Lib();
  ~Lib();
  int h_, i_;
};
void enterHarness();
void leaveHarness();

// allocation faults (count only allocations of the library heap by the current thread in lib mode)
void armAllocFault(u64 nth, u64 len);  // fails allocations number nth..nth+len-1 after arming
void disarmAllocFault();
u64 allocCount();      // allocations by this thread since arming
u64 allocFired();       // how many of them failed
u64 allocFaultsFired();  // all threads, since the start
u64 liveBlocks();      // live blocks on library heap (not harness)
u64 liveBytes();
void printLive(u64 sinceSeq, char* buf, size_t n);
u64 allocSeq();

// disk
void setIoFaults(const IoFault* f, int n);
void clearIoFaults();
void armThreadIo(const IoFault& f);  // for the calls the calling thread makes until it disarms; counted from here
u64 disarmThreadIo();                // how often it struck (not counting benign ones)
u64 ioFaultsFired();
u64 ioFaultsFiredHard();  // excluding benign ones (short, EINTR)
u64 ioCalls(int op);
u64 ioBytes(int op);
int diskFind(const char* name);
const char* diskData(int idx, u64* size);
int diskPut(const char* name, const void* data, u64 size);
void diskRemove(const char* name);
void setLocalePoint(char c);  // decimal point reported by localeconv (0: real)
void enableTerminateReport();
bool concurrent();
}  // namespace sim
