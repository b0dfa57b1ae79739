#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <locale.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <ucontext.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <initializer_list>
#include <new>
#include <typeinfo>
#include <cxxabi.h>

namespace sim {
namespace {
using uptr = uintptr_t;
constexpr uptr kArenaA = 0x200000000000ull;  // library heap
constexpr uptr kArenaH = 0x210000000000ull;  // harness heap
constexpr uptr kArenaSize = 4ull << 30;
constexpr uptr kStacks = 0x220000000000ull;  // stacks of simulated threads
constexpr u64 kReuseAfter = 192ull << 20;

struct Cell {  // shadow of one 8-byte granule
  u32 wclk, wpc;
  u8 wtid, wmask, watom, any;  // any: bitmask of threads that touched this granule
  u32 rclk[kMaxThreads];
  u32 rpc[kMaxThreads];
  u8 rmask[kMaxThreads];
  u8 ratom[kMaxThreads];
};

struct VC {
  u32 c[kMaxThreads];
  void join(const VC& o) { for (int i = 0; i < kMaxThreads; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
  void clear() { memset(c, 0, sizeof c); }
};
enum State { kFree = 0, kRunnable, kBlocked, kDone };
struct Th {
  int id;
  State state;
  const void* waitObj;
  int go;  // futex word
  u64 steps;
  VC vc;
  VC relFence, acqPend;
  bool hasRelFence;
  int ignore;
  int hmode;
  int guardDepth;
  u64 prio;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  bool joined;
  pthread_t real;
  u64 allocs;
  // failing allocations armed by the thread for itself
  bool armed;
  u64 armNth, armLen, armCount, armFired;
  // replay cursor
  u32 rcur;
  u64 rnext;
  char altstack[32768];
};
struct SyncVar { uptr addr; VC vc; int lastTid; };
struct MutexSt { uptr addr; int owner; int count; int readers; VC vc; VC rvc; };

Shm* g_shm;
char* g_disk;
Th g_th[kMaxThreads];
int g_nth = 0;
int g_alive = 0;
bool g_active = false;  // a life is running
bool g_conc = false;    // more than one simulated thread alive
bool g_track = false;   // heap checking on
__thread Th* tcur __attribute__((tls_model("initial-exec")));
SchedCfg g_cfg;
Rng g_srng(1);
i64 g_gap = 1;
u64 g_global = 0;
u64 g_pctNext[64];
int g_pctN = 0, g_pctI = 0;
u64 g_pctLow = 0;
Switch* g_replay;
u32 g_nreplay;
Cell* g_shA;
Cell* g_shH;
Cell* g_shG;  // globals of the executable
uptr g_gBeg, g_gEnd;
SyncVar* g_sync;
constexpr u32 kSyncN = 1u << 16;
MutexSt* g_mtx;
constexpr u32 kMtxN = 1u << 14;
u64 g_simNs;

// ---- heap
struct Hdr { u64 size; u32 seq; u16 magic; u16 flags; };
constexpr u16 kMagicA = 0xA11C, kMagicF = 0xF4EE;
constexpr u16 kFlagImmortal = 1;
struct Arena {
  uptr base, cur;
  u8* st;
  u64 live, liveBytes, seq;
  u64 imm;
  void* freeList[130];
};
Arena g_A, g_H;
u8 g_fill = 0xA5;
bool g_reuse = false;
bool g_heapReady = false;
u64 g_allocFired = 0;
bool g_perturb = false;
u64 g_perturbSeed = 0;

void* mapAt(uptr addr, u64 size) {
  void* p = mmap(reinterpret_cast<void*>(addr), size, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (addr ? MAP_FIXED_NOREPLACE : 0), -1, 0);
  if (p == MAP_FAILED) {
    static const char m[] = "sim: mmap failed\n";
    (void)!syscall(SYS_write, 2, m, sizeof m - 1);
    _exit(99);
  }
  return p;
}

void futexWait(int* w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
void futexPost(int* w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

// ------------------------------------------------------------------ scheduling
void record(Th* t, int next, bool forced) {
  g_shm->switches++;
  hashEvent(mix(u64(t->id) * 131 + u64(next) * 7 + forced, t->steps));
  if (g_shm->nsw < kMaxSwitches) {
    Switch& s = g_shm->sw[g_shm->nsw++];
    s.step = t->steps;
    s.tid = u16(t->id);
    s.next = u16(next);
    s.forced = forced;
    s.pad = u16(g_shm->life);
  } else {
    g_shm->swOverflow = 1;
  }
}
void handTo(Th* t, Th* n, bool waitSelf) {
  futexPost(&n->go);
  if (waitSelf) futexWait(&t->go);
}
void advanceReplay(Th* t) {
  while (t->rcur < g_nreplay && g_replay[t->rcur].tid != t->id) t->rcur++;
  t->rnext = t->rcur < g_nreplay ? g_replay[t->rcur].step : ~0ull;
}
int pctBest() {
  int b = -1;
  for (int i = 0; i < g_nth; i++)
    if (g_th[i].state == kRunnable && (b < 0 || g_th[i].prio > g_th[b].prio)) b = i;
  return b;
}
int pickOther(Th* t) {  // random other runnable
  int c[kMaxThreads], n = 0;
  for (int i = 0; i < g_nth; i++)
    if (i != t->id && g_th[i].state == kRunnable) c[n++] = i;
  if (n == 0) return -1;
  return c[g_srng.below(u64(n))];
}
void drawGap() {
  switch (g_cfg.strategy) {
    case kRandom: {
      // mixture: mostly geometric-ish around gap, sometimes tiny bursts
      u64 g = g_cfg.gap;
      g_gap = i64(g_srng.chance(1, 4) ? 1 + g_srng.below(8) : 1 + g_srng.below(2 * g));
      break;
    }
    case kConflict:
    case kSync:
      g_gap = i64(1 + g_srng.below(20000));
      break;
    default:
      g_gap = LLONG_MAX;
  }
}
void doSwitch(Th* t, int next, bool forced) {
  record(t, next, forced);
  handTo(t, &g_th[next], t->state != kDone);
}
void voluntary(Th* t) {
  int n = pickOther(t);
  if (n >= 0) doSwitch(t, n, false);
}
inline void schedPoint(Th* t, int kind /*0 plain access, 1 conflicting access, 2 sync op, 3 explicit*/) {
  t->steps++;
  if (++g_global > g_cfg.maxSteps) violation("no-progress", "run exceeded %llu simulated steps", (unsigned long long)g_cfg.maxSteps);
  switch (g_cfg.strategy) {
    case kSeq:
      return;
    case kReplay:
      while (t->steps >= t->rnext) {
        Switch& s = g_replay[t->rcur];
        bool hit = s.step == t->steps && !s.forced;
        int nx = s.next;
        if (s.forced && s.step >= t->steps) return;  // consumed when blocking
        t->rcur++;
        advanceReplay(t);
        if (hit && nx < g_nth && nx != t->id && g_th[nx].state == kRunnable) {
          doSwitch(t, nx, false);
          return;
        }
      }
      return;
    case kPct:
      if (g_pctI < g_pctN && g_global >= g_pctNext[g_pctI]) {
        g_pctI++;
        t->prio = --g_pctLow;
        int b = pctBest();
        if (b >= 0 && b != t->id) doSwitch(t, b, false);
      }
      return;
    case kConflict:
      if (kind >= 1) {
        if (g_srng.below(g_cfg.gap) == 0) voluntary(t);
        return;
      }
      break;
    case kSync:
      if (kind >= 2) {
        if (g_srng.below(g_cfg.gap) == 0) voluntary(t);
        return;
      }
      break;
    case kRandom:
      if (kind >= 2 && g_srng.below(6) == 0) {
        voluntary(t);
        return;
      }
      break;
  }
  if (--g_gap <= 0) {
    drawGap();
    voluntary(t);
  }
}
void blockOn(Th* t, const void* obj, State st) {
  t->state = st;
  t->waitObj = obj;
  t->steps++;
  g_global++;
  int n = -1;
  if (g_cfg.strategy == kReplay) {
    while (t->rcur < g_nreplay && g_replay[t->rcur].tid == t->id && g_replay[t->rcur].step < t->steps) {
      t->rcur++;
      advanceReplay(t);
    }
    if (t->rcur < g_nreplay && g_replay[t->rcur].step == t->steps && g_replay[t->rcur].forced) {
      n = g_replay[t->rcur].next;
      t->rcur++;
      advanceReplay(t);
      if (n >= g_nth || g_th[n].state != kRunnable) n = -1;
    }
    if (n < 0)
      for (int k = 1; k <= g_nth && n < 0; k++) {
        int i = (t->id + k) % g_nth;
        if (g_th[i].state == kRunnable) n = i;
      }
  } else if (g_cfg.strategy == kPct) {
    n = pctBest();
  } else if (g_cfg.strategy == kSeq) {
    for (int i = 0; i < g_nth && n < 0; i++)
      if (g_th[i].state == kRunnable) n = i;
  } else {
    n = pickOther(t);
  }
  if (n < 0) violation("deadlock", "no runnable simulated thread: thread %d blocked forever", t->id);
  doSwitch(t, n, true);
}
void wakeAll(const void* obj) {
  for (int i = 0; i < g_nth; i++)
    if (g_th[i].state == kBlocked && g_th[i].waitObj == obj) g_th[i].state = kRunnable;
}
int wakeOne(const void* obj) {
  int c[kMaxThreads], n = 0;
  for (int i = 0; i < g_nth; i++)
    if (g_th[i].state == kBlocked && g_th[i].waitObj == obj) c[n++] = i;
  if (!n) return 0;
  g_th[c[0]].state = kRunnable;
  return 1;
}

// ------------------------------------------------------------------ happens-before
SyncVar* syncVar(uptr a, bool create) {
  u32 h = u32((a * 0x9E3779B97F4A7C15ull) >> 48) & (kSyncN - 1);
  for (u32 i = 0; i < kSyncN; i++) {
    SyncVar* s = &g_sync[(h + i) & (kSyncN - 1)];
    if (s->addr == a) return s;
    if (s->addr == 0) {
      if (!create) return nullptr;
      s->addr = a;
      return s;
    }
  }
  internalError("sync table full");
}
void hbRelease(Th* t, uptr a, bool rmw) {
  SyncVar* s = syncVar(a, true);
  if (!rmw) s->vc.clear();
  s->vc.join(t->vc);
  s->lastTid = t->id;
  t->vc.c[t->id]++;
}
void hbAcquire(Th* t, uptr a) {
  SyncVar* s = syncVar(a, false);
  if (s) t->vc.join(s->vc);
}
MutexSt* mtx(const void* p) {
  uptr a = uptr(p);
  u32 h = u32((a * 0x9E3779B97F4A7C15ull) >> 50) & (kMtxN - 1);
  for (u32 i = 0; i < kMtxN; i++) {
    MutexSt* s = &g_mtx[(h + i) & (kMtxN - 1)];
    if (s->addr == a) return s;
    if (s->addr == 0) {
      s->addr = a;
      s->owner = -1;
      return s;
    }
  }
  internalError("mutex table full");
}

// ------------------------------------------------------------------ shadow
inline Cell* cellOf(uptr a) {
  if (a - kArenaA < kArenaSize) return &g_shA[(a - kArenaA) >> 3];
  if (a - g_gBeg < g_gEnd - g_gBeg) return &g_shG[(a - g_gBeg) >> 3];
  if (a - kArenaH < kArenaSize) return &g_shH[(a - kArenaH) >> 3];
  return nullptr;
}
void describe(uptr a, char* buf, size_t n) {
  const Arena* ar = a - kArenaA < kArenaSize ? &g_A : a - kArenaH < kArenaSize ? &g_H : nullptr;
  if (!ar) {
    snprintf(buf, n, "global 0x%llx", (unsigned long long)a);
    return;
  }
  // search the header backwards
  uptr p = (a & ~uptr(15));
  for (int i = 0; i < 65536 && p >= ar->base; i++, p -= 16) {
    u8 s = ar->st[(p - ar->base) >> 3];
    if (s == 0xFA) {
      const Hdr* h = reinterpret_cast<const Hdr*>(p);
      snprintf(buf, n, "%s heap block #%u size %llu offset %lld%s", ar == &g_A ? "library" : "harness", h->seq,
               (unsigned long long)h->size, (long long)(a - p - 16), h->magic == kMagicF ? " (freed)" : "");
      return;
    }
  }
  snprintf(buf, n, "heap 0x%llx", (unsigned long long)a);
}
[[noreturn]] void heapError(uptr a, u64 size, bool wr, u32 pc, u8 st) {
  char d[128];
  describe(a, d, sizeof d);
  violation(st == 0xFD ? "use-after-free" : "heap-out-of-bounds", "%s of %llu bytes at %s pc=0x%x", wr ? "write" : "read",
            (unsigned long long)size, d, pc);
}
inline void heapCheck(uptr a, u64 size, bool wr, u32 pc) {
  Arena* ar;
  if (a - kArenaA < kArenaSize) ar = &g_A;
  else if (a - kArenaH < kArenaSize) ar = &g_H;
  else return;
  u64 g0 = (a - ar->base) >> 3, g1 = (a + size - 1 - ar->base) >> 3;
  for (u64 g = g0; g <= g1; g++) {
    u8 s = ar->st[g];
    if (s == 8) continue;
    uptr endInG = g == g1 ? ((a + size - 1) & 7) + 1 : 8;
    if (s >= 1 && s < 8 && endInG <= s) continue;
    heapError(a, size, wr, pc, s);
  }
}
[[noreturn]] void raceReport(Th* t, uptr a, u64 size, bool wr, bool at, u32 pc, int ot, bool owr, bool oat, u32 opc) {
  char d[128];
  describe(a, d, sizeof d);
  violation("data-race", "%s%s of %llu bytes by thread %d pc=0x%x is unordered with %s%s by thread %d pc=0x%x, at %s",
            at ? "atomic " : "", wr ? "write" : "read", (unsigned long long)size, t->id, pc, oat ? "atomic " : "",
            owr ? "write" : "read", ot, opc, d);
}
// returns true if the granule was touched by another thread before
inline bool raceCheck(Th* t, uptr a, u64 size, bool wr, bool at, u32 pc) {
  bool shared = false;
  const u8 me = u8(1u << t->id);
  uptr end = a + size;
  while (a < end) {
    uptr gEnd = (a & ~uptr(7)) + 8;
    uptr e = end < gEnd ? end : gEnd;
    Cell* c = cellOf(a);
    if (!c) return shared;
    u8 mask = u8(((1u << (e - a)) - 1) << (a & 7));
    const u32 myclk = t->vc.c[t->id];
    if ((c->any & ~me) != 0) {
      shared = true;
      if ((c->wmask & mask) && c->wtid != t->id && c->wclk > t->vc.c[c->wtid] && !(at && c->watom))
        raceReport(t, a, e - a, wr, at, pc, c->wtid, true, c->watom, c->wpc);
      if (wr)
        for (int u = 0; u < kMaxThreads; u++)
          if (u != t->id && (c->rmask[u] & mask) && c->rclk[u] > t->vc.c[u] && !(at && c->ratom[u]))
            raceReport(t, a, e - a, wr, at, pc, u, false, c->ratom[u], c->rpc[u]);
    }
    if (wr) {
      if (c->wtid == t->id && c->wclk == myclk && c->watom == u8(at)) c->wmask |= mask;
      else c->wmask = mask;
      c->wclk = myclk;
      c->wtid = u8(t->id);
      c->watom = at;
      c->wpc = pc;
    } else {
      if (c->rclk[t->id] == myclk && c->ratom[t->id] == u8(at)) c->rmask[t->id] |= mask;
      else if (c->rclk[t->id] == myclk && !at) { c->rmask[t->id] |= mask; c->ratom[t->id] = 0; }
      else c->rmask[t->id] = mask, c->ratom[t->id] = at;
      c->rclk[t->id] = myclk;
      c->rpc[t->id] = pc;
    }
    c->any |= me;
    a = e;
  }
  return shared;
}
inline void onAccess(const void* p, u64 size, bool wr, void* ra) {
  Th* t = tcur;
  if (__builtin_expect(!t || t->ignore || !g_active || size == 0, 0)) return;
  u32 pc = u32(uptr(ra));
  uptr a = uptr(p);
  if (g_track) heapCheck(a, size, wr, pc);
  if (g_conc) {
    bool sh = raceCheck(t, a, size, wr, false, pc);
    if (sh) {
      g_shm->conflicts++;
      g_shm->sig = mix(g_shm->sig, (u64(t->id) << 56) ^ (u64(wr) << 55) ^ (a - kArenaA < kArenaSize ? a : 1));
    }
    schedPoint(t, sh ? 1 : 0);
  } else {
    if (++g_global > g_cfg.maxSteps) violation("no-progress", "run exceeded %llu simulated steps", (unsigned long long)g_cfg.maxSteps);
  }
}

// ------------------------------------------------------------------ heap
void setState(Arena* ar, uptr p, u64 size, u8 v) { memset(&ar->st[(p - ar->base) >> 3], v, size >> 3); }
void clearCells(uptr p, u64 size) {
  if (!g_conc) return;
  Cell* c = cellOf(p);
  if (c) memset(c, 0, sizeof(Cell) * ((size + 7) >> 3));
}
void* heapAlloc(u64 size, u64 align) {
  if (!g_heapReady) init();
  Th* t = tcur;
  const bool harness = !t || t->hmode > 0;
  Arena* ar = harness ? &g_H : &g_A;
  if (!harness && g_active) {
    g_shm->allocs++;
    t->allocs++;
    if (t->armed && t->ignore == 0) {
      u64 n = t->armCount++;
      if (n >= t->armNth && n - t->armNth < t->armLen) {
        t->armFired++;
        g_allocFired++;
        return nullptr;
      }
    }
  }
  if (size == 0) size = 1;
  if (size > (1ull << 30)) return nullptr;
  u64 rsize = (size + 15) & ~15ull;
  uptr user = 0;
  if (align < 16) align = 16;
  const u64 cls = rsize >> 4;
  if (align == 16 && cls < 130 && ar->freeList[cls]) {
    user = uptr(ar->freeList[cls]);
    ar->freeList[cls] = *reinterpret_cast<void**>(user);
    if (g_conc) clearCells(user, rsize);
  } else {
    uptr p = ar->cur + 16;
    if (g_perturb && ar == &g_A) {
      g_perturbSeed = g_perturbSeed * 6364136223846793005ull + 1442695040888963407ull;
      p += ((g_perturbSeed >> 40) & 15) * 16;
    }
    user = (p + align - 1) & ~(align - 1);
    uptr end = user + rsize;
    if (end + 64 > ar->base + kArenaSize) return nullptr;
    ar->cur = end;
  }
  Hdr* h = reinterpret_cast<Hdr*>(user - 16);
  h->size = size;
  h->seq = u32(++ar->seq);
  h->magic = kMagicA;
  h->flags = 0;
  setState(ar, user - 16, 16, 0xFA);
  setState(ar, user, size & ~7ull, 8);
  if (size & 7) ar->st[(user + (size & ~7ull) - ar->base) >> 3] = u8(size & 7);
  for (u64 g = (size + 7) >> 3; g < (rsize >> 3); g++) ar->st[((user - ar->base) >> 3) + g] = 0xFB;
  if (t && t->guardDepth > 0) {
    h->flags |= kFlagImmortal;
    ar->imm++;
  } else {
    ar->live++;
    ar->liveBytes += size;
  }
  if (g_active && !harness) memset(reinterpret_cast<void*>(user), g_fill, size > 4096 ? 4096 : size);
  return reinterpret_cast<void*>(user);
}
void heapFree(void* ptr) {
  if (!ptr) return;
  uptr a = uptr(ptr);
  Arena* ar = a - kArenaA < kArenaSize ? &g_A : a - kArenaH < kArenaSize ? &g_H : nullptr;
  if (!ar) {
    if (g_active) violation("bad-free", "delete of a pointer that is not from operator new");
    return;
  }
  Hdr* h = reinterpret_cast<Hdr*>(a - 16);
  if (ar->st[(a - 16 - ar->base) >> 3] != 0xFA || h->magic != kMagicA) {
    if (g_active) {
      char d[128];
      describe(a, d, sizeof d);
      violation(h->magic == kMagicF ? "double-free" : "bad-free", "delete of %s", d);
    }
    return;
  }
  Th* t = tcur;
  u64 rsize = (h->size + 15) & ~15ull;
  if (t && g_conc && g_active && !t->ignore) raceCheck(t, a, h->size, true, false, u32(uptr(__builtin_return_address(0))));
  h->magic = kMagicF;
  if (h->flags & kFlagImmortal) ar->imm--;
  else { ar->live--; ar->liveBytes -= h->size; }
  setState(ar, a, rsize, 0xFD);
  if (g_active) memset(ptr, 0xDD, h->size > 256 ? 256 : h->size);
  const u64 cls = rsize >> 4;
  if (cls < 130 && (g_reuse || ar->cur - ar->base > kReuseAfter || !g_active)) {
    *reinterpret_cast<void**>(a) = ar->freeList[cls];
    ar->freeList[cls] = ptr;
  }
}

// ------------------------------------------------------------------ disk
struct Vfd { bool used; int file; u64 pos; bool rd, wr, append; FILE* fp; bool isDirty; };
constexpr int kVfdBase = 100000, kVfdN = 64;
Vfd g_vfd[kVfdN];
IoFault g_iof[32];
int g_niof = 0;
u64 g_ioCount[kIoNumOps], g_ioBytesN[kIoNumOps];
u64 g_ioCountT[kMaxThreads][kIoNumOps], g_ioBytesT[kMaxThreads][kIoNumOps];
bool g_sticky[32];
u64 g_ioFired = 0, g_ioFiredHard = 0;
char g_locPoint = 0;
struct ThreadIo {  // the one fault armed by the thread itself, counted from arming
  bool on, sticky;
  IoFault f;
  u64 count[kIoNumOps], bytes[kIoNumOps], hard;
};
ThreadIo g_tio[kMaxThreads + 1];

bool isSim(const char* p) { return p && strncmp(p, "/simdisk/", 9) == 0; }
const char* kindName(int k) {
  static const char* n[] = {"none", "EIO", "ENOSPC", "EACCES", "EMFILE", "short", "EINTR", "eof", "crash", "ENOENT"};
  return n[k];
}
const char* opName(int o) {
  static const char* n[] = {"open", "read", "write", "close", "stat", "seek"};
  return n[o];
}
void fired(const IoFault& f, bool first) {
  char b[56];
  snprintf(b, sizeof b, "fault.io.%s.%s", opName(f.op), kindName(f.kind));
  count(b);
  if (first) {
    g_ioFired++;
    markNontrivial();
  }
  if (f.kind != kShort && f.kind != kEINTR) g_ioFiredHard++;
  hashEvent(mix(u64(f.op) * 31 + u64(f.kind), f.nth));
}
// Decide the fate of one I/O call. Returns fault kind (0 none) and possibly lowers *n (bytes to transfer first).
int ioStep(int op, u64* n, u64* arg) {
  Th* t = tcur;
  if (t && t->hmode > 0) return 0;
  int tid = t ? t->id : 0;
  if (g_active && g_conc && t && !t->ignore) schedPoint(t, 2);
  u64 idx = g_ioCount[op]++;
  u64 idxT = g_ioCountT[tid][op]++;
  g_simNs += 1000 + (n ? *n : 0);
  hashEvent(mix(u64(op) + 77, (n ? *n : 0)));
  if (g_tio[tid].on) {
    ThreadIo& x = g_tio[tid];
    IoFault& f = x.f;
    u64 my = x.count[op]++;
    if (f.op == op && f.kind) {
      bool hit = x.sticky || (!f.byByte && my == f.nth);
      if (x.sticky && n) *n = 0;
      if (!hit && f.byByte && n && x.bytes[op] + *n > f.nth) {
        u64 allow = f.nth > x.bytes[op] && f.kind != kErrEIO ? f.nth - x.bytes[op] : 0;
        hit = f.kind != kShort || allow > 0;
        if (hit) *n = *arg = allow;
      } else if (hit && !x.sticky && !f.byByte) {
        *arg = f.arg;
        if (n && (f.kind == kErrENOSPC || f.kind == kShort || f.kind == kEof)) *n = (f.arg ? f.arg : 1) < *n ? (f.arg ? f.arg : 1) : *n;
      }
      if (hit) {
        bool first = !x.sticky;
        if (f.kind == kErrENOSPC || f.kind == kEof) x.sticky = true;
        if (f.kind != kShort && f.kind != kEINTR) x.hard++;
        fired(f, first);
        return f.kind;
      }
    }
  }
  for (int i = 0; i < g_niof; i++) {
    IoFault& f = g_iof[i];
    if (f.op != op || f.kind == 0) continue;
    if (f.client >= 0 && f.client != tid) continue;
    u64 my = f.client >= 0 ? idxT : idx;
    u64 bytes = f.client >= 0 ? g_ioBytesT[tid][op] : g_ioBytesN[op];
    if (g_sticky[i]) {
      if (n) *n = 0;
      fired(f, false);
      return f.kind;
    }
    if (f.byByte) {
      if (!n) continue;
      if (bytes + *n > f.nth) {
        u64 allow = f.nth > bytes ? f.nth - bytes : 0;
        if (f.kind == kErrEIO) allow = 0;  // a bad block: the call containing it transfers nothing
        if ((f.kind == kShort) && allow == 0) continue;
        *n = allow;
        *arg = allow;
        if (f.kind == kErrENOSPC || f.kind == kEof) g_sticky[i] = true;
        fired(f, true);
        return f.kind;
      }
    } else if (my == f.nth) {
      *arg = f.arg;
      if (n && (f.kind == kErrENOSPC || f.kind == kShort || f.kind == kEof || f.kind == kCrash)) {
        u64 lim = f.kind == kShort ? (f.arg ? f.arg : 1) : f.arg;
        if (lim < *n) *n = lim;
      }
      if (f.kind == kErrENOSPC || f.kind == kEof || (f.kind == kErrEIO && f.arg == 1)) g_sticky[i] = true;
      fired(f, true);
      return f.kind;
    }
  }
  return 0;
}
void ioDone(int op, u64 n) {
  int tid = tcur ? tcur->id : 0;
  if (tcur && tcur->hmode > 0) return;
  g_ioBytesN[op] += n;
  g_ioBytesT[tid][op] += n;
  g_tio[tid].bytes[op] += n;
}
int errnoOf(int kind) {
  switch (kind) {
    case kErrEIO: return EIO;
    case kErrENOSPC: return ENOSPC;
    case kErrEACCES: return EACCES;
    case kErrEMFILE: return EMFILE;
    case kEINTR: return EINTR;
    case kErrENOENT: return ENOENT;
    default: return EIO;
  }
}
SimFile* newFile(const char* name) {
  for (int i = 0; i < kMaxFiles; i++)
    if (!g_shm->files[i].used) {
      SimFile* f = &g_shm->files[i];
      memset(f, 0, sizeof *f);
      f->used = 1;
      snprintf(f->name, sizeof f->name, "%s", name);
      return f;
    }
  internalError("simulated disk: too many files");
}
void ensureCap(SimFile* f, u64 need) {
  if (need <= f->cap) return;
  u64 cap = f->cap ? f->cap * 2 : 65536;
  while (cap < need) cap *= 2;
  if (g_shm->diskUsed + cap > kDiskBytes) internalError("simulated disk: out of backing store");
  memcpy(g_disk + g_shm->diskUsed, g_disk + f->off, f->size);
  f->off = g_shm->diskUsed;
  f->cap = cap;
  g_shm->diskUsed += cap;
}
void putAt(SimFile* f, u64 pos, const void* d, u64 n) {
  ensureCap(f, pos + n);
  if (pos > f->size) memset(g_disk + f->off + f->size, 0, pos - f->size);
  memcpy(g_disk + f->off + pos, d, n);
  if (pos + n > f->size) f->size = pos + n;
}
int vopen(const char* path, bool rd, bool wr, bool creat, bool trunc, bool append, bool excl) {
  u64 arg = 0;
  int k = ioStep(kIoOpen, nullptr, &arg);
  if (k == kCrash) crashNow();
  if (k) {
    errno = errnoOf(k);
    return -1;
  }
  int fi = diskFind(path);
  if (fi < 0) {
    if (!creat) {
      errno = ENOENT;
      return -1;
    }
    newFile(path);
    fi = diskFind(path);
  } else if (excl && creat) {
    errno = EEXIST;
    return -1;
  }
  if (trunc && wr) g_shm->files[fi].size = 0;
  for (int i = 0; i < kVfdN; i++)
    if (!g_vfd[i].used) {
      g_vfd[i] = Vfd{true, fi, 0, rd, wr, append, nullptr, false};
      return i;
    }
  errno = EMFILE;
  return -1;
}
ssize_t vwrite(int v, const void* buf, u64 n, bool shortOk) {
  Vfd& d = g_vfd[v];
  if (!d.wr) {
    errno = EBADF;
    return -1;
  }
  u64 total = 0;
  const char* p = static_cast<const char*>(buf);
  while (true) {
    u64 want = n - total;
    u64 m = want, arg = 0;
    int k = ioStep(kIoWrite, &m, &arg);
    SimFile* f = &g_shm->files[d.file];
    u64 pos = d.append ? f->size : d.pos;
    if (k == kCrash) {
      putAt(f, pos, p + total, m);
      crashNow();
    }
    if (k == kErrEIO || k == kEINTR || k == kErrEACCES || k == kErrEMFILE) {
      if (k == kEINTR && !shortOk) continue;  // stdio path never sees EINTR on regular files
      if (total) return ssize_t(total);
      errno = errnoOf(k);
      return -1;
    }
    if (k == kErrENOSPC && m == 0) {
      if (total) return ssize_t(total);
      errno = ENOSPC;
      return -1;
    }
    putAt(f, pos, p + total, m);
    d.pos = pos + m;
    ioDone(kIoWrite, m);
    total += m;
    if (shortOk || total == n) return ssize_t(total);
  }
}
ssize_t vread(int v, void* buf, u64 n, bool direct) {
  Vfd& d = g_vfd[v];
  if (!d.rd) {
    errno = EBADF;
    return -1;
  }
  SimFile* f = &g_shm->files[d.file];
again:
  u64 avail = d.pos < f->size ? f->size - d.pos : 0;
  u64 m = n < avail ? n : avail;
  u64 arg = 0;
  int k = ioStep(kIoRead, &m, &arg);
  if (k == kCrash) crashNow();
  if (k == kEINTR && !direct) goto again;
  if (k == kErrEIO || k == kEINTR || k == kErrEACCES) {
    errno = errnoOf(k);
    return -1;
  }
  memcpy(buf, g_disk + f->off + d.pos, m);
  d.pos += m;
  ioDone(kIoRead, m);
  return ssize_t(m);
}
int vclose(int v) {
  u64 arg = 0;
  int k = ioStep(kIoClose, nullptr, &arg);
  if (k == kCrash) crashNow();
  g_vfd[v].used = false;
  if (k) {
    errno = errnoOf(k);
    return -1;
  }
  return 0;
}
i64 vseek(int v, i64 off, int whence) {
  Vfd& d = g_vfd[v];
  u64 arg = 0;
  int k = ioStep(kIoSeek, nullptr, &arg);
  if (k) {
    errno = errnoOf(k);
    return -1;
  }
  i64 base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? i64(d.pos) : i64(g_shm->files[d.file].size);
  if (base + off < 0) {
    errno = EINVAL;
    return -1;
  }
  d.pos = u64(base + off);
  return i64(d.pos);
}

ssize_t ckRead(void* c, char* b, size_t n) { return vread(int(uptr(c)), b, n, false); }
ssize_t ckWrite(void* c, const char* b, size_t n) {
  ssize_t r = vwrite(int(uptr(c)), b, n, false);
  return r < 0 ? 0 : r;  // cookie protocol: 0 means error
}
int ckSeek(void* c, off64_t* o, int w) {
  i64 r = vseek(int(uptr(c)), *o, w);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
int ckClose(void* c) { return vclose(int(uptr(c))); }

FILE* vfopen(const char* path, const char* mode) {
  bool rd = mode[0] == 'r', plus = strchr(mode, '+') != nullptr;
  int v = vopen(path, rd || plus, !rd || plus, !rd, mode[0] == 'w', mode[0] == 'a', strchr(mode, 'x') != nullptr);
  if (v < 0) return nullptr;
  cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
  FILE* f = fopencookie(reinterpret_cast<void*>(uptr(v)), mode, io);
  if (!f) {
    g_vfd[v].used = false;
    return nullptr;
  }
  g_vfd[v].fp = f;
  return f;
}
inline bool isV(int fd) { return fd >= kVfdBase && fd < kVfdBase + kVfdN && g_vfd[fd - kVfdBase].used; }
template <typename F>
F real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

// ------------------------------------------------------------------ failure reporting
void writeOutcome(u32 status, const char* cat, const char* msg) {
  g_shm->status = status;
  snprintf(g_shm->category, sizeof g_shm->category, "%s", cat);
  snprintf(g_shm->message, sizeof g_shm->message, "%s", msg);
  g_shm->steps = g_global;
  g_shm->simNs += g_simNs + g_global;
}
void onSignal(int sig, siginfo_t* si, void* uc) {
  char b[1024];
  if (sig == SIGALRM) {
    if (g_shm) writeOutcome(2, "hang", "no end within the wall-clock safety limit");
    _exit(3);
  }
  int n = snprintf(b, sizeof b, "signal %d (%s) in thread %d", sig, strsignal(sig), tcur ? tcur->id : -1);
  if (!g_shm || !g_active) _exit(3);
  writeOutcome(2, sig == SIGABRT ? "abort" : "crash", b);
  // where: the code of the binary only (its addresses are fixed), by frame pointers
  const greg_t* r = static_cast<ucontext_t*>(uc)->uc_mcontext.gregs;
  uptr pc = uptr(r[REG_RIP]), bp = uptr(r[REG_RBP]), sp = uptr(r[REG_RSP]);
  auto mine = [](uptr a) { return a >= 0x200000 && a < 0x10000000; };
  int k = 0;
  if (mine(pc)) n += snprintf(b + n, sizeof b - n, " pc=0x%lx", (unsigned long)pc), ++k;
  for (uptr last = sp; k < 8 && bp >= last && bp < sp + (1u << 18) && (bp & 7) == 0;) {
    uptr nb = reinterpret_cast<uptr*>(bp)[0], ra = reinterpret_cast<uptr*>(bp)[1];
    if (mine(ra)) n += snprintf(b + n, sizeof b - n, " pc=0x%lx", (unsigned long)(ra - 1)), ++k;
    if (nb <= bp) break;
    last = bp;
    bp = nb;
  }
  writeOutcome(2, sig == SIGABRT ? "abort" : "crash", b);
  _exit(3);
}
void onTerminate() {
  char b[512] = "std::terminate called";
  if (std::type_info* ti = abi::__cxa_current_exception_type()) {
    int st = 0;
    char* n = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
    snprintf(b, sizeof b, "std::terminate called with %s", n ? n : ti->name());
  }
  if (g_shm && g_active) writeOutcome(2, "terminate", b);
  _exit(3);
}
pthread_key_t g_exitKey;
void threadExit(void* p) {
  Th* t = static_cast<Th*>(p);
  if (!g_active) return;
  // hand over for the last time
  hbRelease(t, uptr(&t->joined), true);
  g_alive--;
  wakeAll(t);
  blockOn(t, nullptr, kDone);
  // the rest of the thread's teardown would run beside the simulation: it never happens, the life's end takes all threads along
  while (true) pause();
}
void setupAlt(Th* t) {
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = t->altstack;
  ss.ss_size = sizeof t->altstack;
  sigaltstack(&ss, nullptr);
}
void* trampoline(void* p) {
  Th* t = static_cast<Th*>(p);
  tcur = t;
  setupAlt(t);
  pthread_setspecific(g_exitKey, t);
  futexWait(&t->go);
  t->ret = t->fn(t->arg);
  return t->ret;
}
int newThread(void* (*fn)(void*), void* arg) {
  if (g_nth >= kMaxThreads) internalError("too many simulated threads");
  Th* me = tcur;
  Th* t = &g_th[g_nth];
  memset(t, 0, sizeof *t);
  t->id = g_nth++;
  t->state = kRunnable;
  t->fn = fn;
  t->arg = arg;
  t->vc = me->vc;
  t->vc.c[t->id] = 1;
  me->vc.c[me->id]++;
  t->prio = 1000000 + g_srng.below(1000000);
  g_alive++;
  g_conc = true;
  advanceReplay(t);
  static auto rc = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  pthread_attr_t at;
  pthread_attr_init(&at);
  // own stacks at fixed places: glibc's cache of stacks depends on real time
  constexpr u64 kStack = 4u << 20;
  pthread_attr_setstack(&at, mapAt(kStacks + u64(t->id) * 2 * kStack, kStack), kStack);
  pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
  me->hmode++;  // what the C library allocates for the thread is none of the library's business
  me->ignore++;
  if (rc(&t->real, &at, trampoline, t) != 0) internalError("pthread_create failed");
  me->hmode--;
  me->ignore--;
  schedPoint(me, 2);
  return t->id;
}
void joinThread(int id) {
  Th* me = tcur;
  Th* t = &g_th[id];
  while (t->state != kDone) blockOn(me, t, kBlocked);
  hbAcquire(me, uptr(&t->joined));
  t->joined = true;
  if (g_alive == 1) {
    bool allJoined = true;
    for (int i = 1; i < g_nth; i++) allJoined &= g_th[i].joined;
    if (allJoined) g_conc = false;
  }
}
void lockMutex(void* m, bool recursive) {
  Th* t = tcur;
  if (!t || !g_active) return;
  MutexSt* s = mtx(m);
  if (g_conc && !t->ignore) schedPoint(t, 2);
  if (s->owner == t->id && recursive) {
    s->count++;
    return;
  }
  while (s->owner >= 0 || s->readers > 0) {
    if (!g_conc) violation("deadlock", "thread %d locks a mutex it already holds", t->id);
    blockOn(t, m, kBlocked);
  }
  s->owner = t->id;
  s->count = 1;
  t->vc.join(s->vc);
  t->vc.join(s->rvc);
  if (g_conc) g_shm->sig = mix(g_shm->sig, u64(t->id) * 3 + 1);
}
bool tryLockMutex(void* m, bool recursive) {
  Th* t = tcur;
  if (!t || !g_active) return true;
  MutexSt* s = mtx(m);
  if (g_conc && !t->ignore) schedPoint(t, 2);
  if (s->owner == t->id && recursive) {
    s->count++;
    return true;
  }
  if (s->owner >= 0 || s->readers > 0) return false;
  s->owner = t->id;
  s->count = 1;
  t->vc.join(s->vc);
  t->vc.join(s->rvc);
  return true;
}
void unlockMutex(void* m) {
  Th* t = tcur;
  if (!t || !g_active) return;
  MutexSt* s = mtx(m);
  if (s->owner != t->id) return;  // locked before the life began
  if (--s->count > 0) return;
  s->owner = -1;
  s->vc = t->vc;
  t->vc.c[t->id]++;
  wakeAll(m);
  if (g_conc && !t->ignore) schedPoint(t, 2);
}
}  // namespace

// ==================================================================== public API
Shm* shm() { return g_shm; }
void attachShm(Shm* s, char* disk) {
  g_shm = s;
  g_disk = disk;
}
void init() {
  if (g_heapReady) return;
  g_heapReady = true;
  g_A.base = g_A.cur = kArenaA;
  g_H.base = g_H.cur = kArenaH;
  mapAt(kArenaA, kArenaSize);
  mapAt(kArenaH, kArenaSize);
  g_A.st = static_cast<u8*>(mapAt(0, kArenaSize / 8));
  g_H.st = static_cast<u8*>(mapAt(0, kArenaSize / 8));
  g_shA = static_cast<Cell*>(mapAt(0, kArenaSize / 8 * sizeof(Cell)));
  g_shH = static_cast<Cell*>(mapAt(0, kArenaSize / 8 * sizeof(Cell)));
  extern char dstart[] __asm__("__data_start");
  extern char dend[] __asm__("_end");
  g_gBeg = uptr(dstart) & ~uptr(7);
  g_gEnd = (uptr(dend) + 7) & ~uptr(7);
  g_shG = static_cast<Cell*>(mapAt(0, ((g_gEnd - g_gBeg) / 8 + 1) * sizeof(Cell)));
  g_sync = static_cast<SyncVar*>(mapAt(0, sizeof(SyncVar) * kSyncN));
  g_mtx = static_cast<MutexSt*>(mapAt(0, sizeof(MutexSt) * kMtxN));
  g_replay = static_cast<Switch*>(mapAt(0, sizeof(Switch) * kMaxSwitches));
}
void enableTerminateReport() {
  std::set_terminate(onTerminate);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = onSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
  if (!g_exitKey) pthread_key_create(&g_exitKey, threadExit);
}
void beginLife(u64 arenaSeed) {
  Th* t = &g_th[0];
  memset(t, 0, sizeof *t);
  t->id = 0;
  t->state = kRunnable;
  t->vc.c[0] = 1;
  t->prio = 1500000;
  tcur = t;
  setupAlt(t);
  g_nth = 1;
  g_alive = 1;
  g_global = 0;
  g_simNs = 0;
  Rng r(arenaSeed);
  g_fill = u8(r.next());
  g_reuse = arenaSeed != 0 && r.chance(1, 3);
  g_perturb = arenaSeed != 0 && r.chance(1, 2);
  g_perturbSeed = r.next();
  if (g_perturb) g_A.cur += (r.below(4096)) * 16;
  if (!g_reuse) memset(g_A.freeList, 0, sizeof g_A.freeList);
  g_active = true;
  g_track = true;
}
void setSched(const SchedCfg& cfg, const Switch* replay, u32 n) {
  g_cfg = cfg;
  g_srng = Rng(cfg.seed);
  if (replay && n) {
    memcpy(g_replay, replay, sizeof(Switch) * n);
    g_nreplay = n;
  } else {
    g_nreplay = 0;
  }
  g_pctN = g_pctI = 0;
  g_pctLow = 500000;
  if (cfg.strategy == kPct) {
    g_pctN = int(cfg.gap > 60 ? 60 : cfg.gap);
    for (int i = 0; i < g_pctN; i++) g_pctNext[i] = g_global + g_srng.below(cfg.length + 1);
    for (int i = 0; i < g_pctN; i++)
      for (int j = i + 1; j < g_pctN; j++)
        if (g_pctNext[j] < g_pctNext[i]) {
          u64 x = g_pctNext[i];
          g_pctNext[i] = g_pctNext[j];
          g_pctNext[j] = x;
        }
  }
  drawGap();
  advanceReplay(&g_th[0]);
}
void finish(u32 status) {
  if (g_shm->status == 0) writeOutcome(status, "", "");
  g_active = false;
  _exit(0);
}
void violation(const char* category, const char* fmt, ...) {
  if (tcur) tcur->ignore++;
  char b[5000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  writeOutcome(2, category, b);
  _exit(2);
}
void internalError(const char* fmt, ...) {
  char b[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (g_shm) writeOutcome(3, "internal", b);
  else (void)!syscall(SYS_write, 2, b, strlen(b));
  _exit(4);
}
void crashNow() {
  count("fault.crash");
  markNontrivial();
  g_shm->crashed = 1;
  writeOutcome(1, "", "");
  _exit(0);
}
void count(const char* name, u64 n) {
  for (u32 i = 0; i < g_shm->nctr; i++)
    if (strcmp(g_shm->ctr[i].name, name) == 0) {
      g_shm->ctr[i].v += n;
      return;
    }
  if (g_shm->nctr >= u32(kMaxCounters)) internalError("too many counters");
  Counter& c = g_shm->ctr[g_shm->nctr++];
  snprintf(c.name, sizeof c.name, "%s", name);
  c.v = n;
}
void hashEvent(u64 v) { g_shm->hash = mix(g_shm->hash, v); }
void hashBytes(const void* p, size_t n) {
  u64 h = 1469598103934665603ull;
  for (size_t i = 0; i < n; i++) h = (h ^ static_cast<const u8*>(p)[i]) * 1099511628211ull;
  hashEvent(h);
}
void markNontrivial() { g_shm->nontrivial = 1; }
static void* callVoid(void* p) {
  void** a = static_cast<void**>(p);
  reinterpret_cast<void (*)(void*)>(a[0])(a[1]);
  return nullptr;
}
int spawn(void (*fn)(void*), void* arg) {
  static void* slots[kMaxThreads + 1][2];
  int i = g_nth;
  if (i >= kMaxThreads) internalError("too many clients");
  slots[i][0] = reinterpret_cast<void*>(fn);
  slots[i][1] = arg;
  return newThread(callVoid, slots[i]);
}
void joinAll() {
  for (int i = 1; i < g_nth; i++)
    if (!g_th[i].joined) joinThread(i);
}
int self() { return tcur ? tcur->id : 0; }
void yieldPoint() {
  if (tcur && g_conc && !tcur->ignore) schedPoint(tcur, 3);
}
u64 now() { return g_global; }
void enterHarness() {
  if (tcur) {
    tcur->hmode++;
    tcur->ignore++;
  }
}
void leaveHarness() {
  if (tcur) {
    tcur->hmode--;
    tcur->ignore--;
  }
}
Harness::Harness() { enterHarness(); }
Harness::~Harness() { leaveHarness(); }
Lib::Lib() : h_(tcur->hmode), i_(tcur->ignore) { tcur->hmode = 0; tcur->ignore = 0; }
Lib::~Lib() { tcur->hmode = h_; tcur->ignore = i_; }
void armAllocFault(u64 nth, u64 len) {
  tcur->armNth = nth;
  tcur->armLen = len;
  tcur->armCount = tcur->armFired = 0;
  tcur->armed = true;
}
void disarmAllocFault() { tcur->armed = false; }
u64 allocCount() { return tcur->armCount; }
u64 allocFired() { return tcur->armFired; }
u64 allocFaultsFired() { return g_allocFired; }
u64 liveBlocks() { return g_A.live; }
u64 liveBytes() { return g_A.liveBytes; }
u64 allocSeq() { return g_A.seq; }
void printLive(u64 since, char* buf, size_t n) {
  size_t o = 0;
  buf[0] = 0;
  for (uptr p = g_A.base; p < g_A.cur && o + 40 < n; p += 16) {
    if (g_A.st[(p - g_A.base) >> 3] != 0xFA) continue;
    Hdr* h = reinterpret_cast<Hdr*>(p);
    if (h->magic == kMagicA && h->seq > since && !(h->flags & kFlagImmortal))
      o += size_t(snprintf(buf + o, n - o, "#%u(%llu) ", h->seq, (unsigned long long)h->size));
  }
}
void setIoFaults(const IoFault* f, int n) {
  g_niof = n > 32 ? 32 : n;
  for (int i = 0; i < g_niof; i++) g_iof[i] = f[i];
  memset(g_sticky, 0, sizeof g_sticky);
  memset(g_ioCount, 0, sizeof g_ioCount);
  memset(g_ioBytesN, 0, sizeof g_ioBytesN);
  memset(g_ioCountT, 0, sizeof g_ioCountT);
  memset(g_ioBytesT, 0, sizeof g_ioBytesT);
  g_ioFired = g_ioFiredHard = 0;
}
void clearIoFaults() { setIoFaults(nullptr, 0); }
void armThreadIo(const IoFault& f) {
  ThreadIo& x = g_tio[tcur ? tcur->id : 0];
  memset(&x, 0, sizeof x);
  x.f = f;
  x.on = true;
}
u64 disarmThreadIo() {
  ThreadIo& x = g_tio[tcur ? tcur->id : 0];
  const u64 n = x.on ? x.hard : 0;
  x.on = false;
  return n;
}
u64 ioFaultsFired() { return g_ioFired; }
u64 ioFaultsFiredHard() { return g_ioFiredHard; }
u64 ioCalls(int op) { return g_ioCount[op]; }
u64 ioBytes(int op) { return g_ioBytesN[op]; }
int diskFind(const char* name) {
  for (int i = 0; i < kMaxFiles; i++)
    if (g_shm->files[i].used && strcmp(g_shm->files[i].name, name) == 0) return i;
  return -1;
}
const char* diskData(int idx, u64* size) {
  *size = g_shm->files[idx].size;
  return g_disk + g_shm->files[idx].off;
}
int diskPut(const char* name, const void* data, u64 size) {
  int i = diskFind(name);
  SimFile* f = i >= 0 ? &g_shm->files[i] : newFile(name);
  f->size = 0;
  putAt(f, 0, data, size);
  return diskFind(name);
}
void diskRemove(const char* name) {
  int i = diskFind(name);
  if (i >= 0) g_shm->files[i].used = 0;
}
void setLocalePoint(char c) { g_locPoint = c; }
bool concurrent() { return g_conc; }
}  // namespace sim

// ==================================================================== interposed functions
using namespace sim;
extern "C" {
[[noreturn]] void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept {
  const char* b = strrchr(f, '/');
  if (g_active) violation("assert", "assertion failed: %s (%s:%u)", e, b ? b + 1 : f, l);
  fprintf(stderr, "assert %s %s:%u\n", e, f, l);
  abort();
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept {
  if (g_active && tcur) {
    int id = newThread(fn, arg);
    *t = pthread_t(0x51000000 + id);
    return 0;
  }
  static auto rc = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  return rc(t, a, fn, arg);
}
int pthread_join(pthread_t t, void** r) {
  if (g_active && tcur && t >= 0x51000000 && t < 0x51000000 + kMaxThreads) {
    int id = int(t - 0x51000000);
    joinThread(id);
    if (r) *r = g_th[id].ret;
    return 0;
  }
  static auto rj = real<int (*)(pthread_t, void**)>("pthread_join");
  return rj(t, r);
}
int pthread_detach(pthread_t t) noexcept {
  if (g_active && t >= 0x51000000 && t < 0x51000000 + kMaxThreads) {
    g_th[t - 0x51000000].joined = true;
    return 0;
  }
  static auto rd = real<int (*)(pthread_t)>("pthread_detach");
  return rd(t);
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  lockMutex(m, (m->__data.__kind & 3) == 1);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  return tryLockMutex(m, (m->__data.__kind & 3) == 1) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  unlockMutex(m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
  lockMutex(m, false);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { return tryLockMutex(m, false) ? 0 : EBUSY; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
  Th* t = tcur;
  if (!t || !g_active) return 0;
  MutexSt* s = mtx(m);
  if (g_conc && !t->ignore) schedPoint(t, 2);
  while (s->owner >= 0) blockOn(t, m, kBlocked);
  s->readers++;
  t->vc.join(s->vc);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept {
  Th* t = tcur;
  if (!t || !g_active) return 0;
  MutexSt* s = mtx(m);
  if (s->owner >= 0) return EBUSY;
  s->readers++;
  t->vc.join(s->vc);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
  Th* t = tcur;
  if (!t || !g_active) return 0;
  MutexSt* s = mtx(m);
  if (s->owner == t->id) {
    s->rvc.clear();
    unlockMutex(m);
    return 0;
  }
  if (s->readers > 0) s->readers--;
  s->rvc.join(t->vc);
  t->vc.c[t->id]++;
  if (s->readers == 0) wakeAll(m);
  if (g_conc && !t->ignore) schedPoint(t, 2);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  Th* t = tcur;
  if (!t || !g_active) return 0;
  MutexSt* s = mtx(m);
  s->owner = -1;
  s->vc = t->vc;
  t->vc.c[t->id]++;
  wakeAll(m);
  blockOn(t, c, kBlocked);
  lockMutex(m, false);
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
  Th* t = tcur;
  if (!t || !g_active) return ETIMEDOUT;
  unlockMutex(m);
  g_simNs += 1000000;
  lockMutex(m, false);
  return ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
  return pthread_cond_timedwait(c, m, ts);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
  if (tcur && g_active) {
    wakeOne(c);
    if (g_conc) schedPoint(tcur, 2);
  }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  if (tcur && g_active) {
    wakeAll(c);
    if (g_conc) schedPoint(tcur, 2);
  }
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  Th* t = tcur;
  volatile int* st = reinterpret_cast<volatile int*>(o);
  if (!t || !g_active) {
    if (*st == 2) return 0;
    *st = 1;
    fn();
    *st = 2;
    return 0;
  }
  if (g_conc && !t->ignore) schedPoint(t, 2);
  while (true) {
    if (*st == 2) {
      hbAcquire(t, uptr(o));
      return 0;
    }
    if (*st == 1) {
      blockOn(t, o, kBlocked);
      continue;
    }
    *st = 1;
    t->guardDepth++;
    try {
      fn();
    } catch (...) {
      *st = 0;
      t->guardDepth--;
      wakeAll(o);
      throw;
    }
    t->guardDepth--;
    hbRelease(t, uptr(o), true);
    *st = 2;
    wakeAll(o);
    return 0;
  }
}
int simGuardAcquire(u64* g) __asm__("__cxa_guard_acquire");
void simGuardRelease(u64* g) noexcept __asm__("__cxa_guard_release");
void simGuardAbort(u64* g) noexcept __asm__("__cxa_guard_abort");
int simGuardAcquire(u64* g) {
  volatile u8* b = reinterpret_cast<volatile u8*>(g);
  Th* t = tcur;
  if (!t || !g_active) {
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
  }
  if (g_conc && !t->ignore) schedPoint(t, 2);
  while (true) {
    if (b[0]) {
      hbAcquire(t, uptr(g));
      return 0;
    }
    if (b[1]) {
      if (!g_conc) violation("deadlock", "recursive initialisation of a local static");
      count("probe.guard.contended");
      blockOn(t, g, kBlocked);
      continue;
    }
    b[1] = 1;
    t->guardDepth++;
    return 1;
  }
}
void simGuardRelease(u64* g) noexcept {
  volatile u8* b = reinterpret_cast<volatile u8*>(g);
  Th* t = tcur;
  b[1] = 0;
  b[0] = 1;
  if (!t || !g_active) return;
  t->guardDepth--;
  hbRelease(t, uptr(g), true);
  wakeAll(g);
  if (g_conc && !t->ignore) schedPoint(t, 2);
}
void simGuardAbort(u64* g) noexcept {
  volatile u8* b = reinterpret_cast<volatile u8*>(g);
  b[1] = 0;
  Th* t = tcur;
  if (!t || !g_active) return;
  t->guardDepth--;
  wakeAll(g);
}
int sched_yield(void) noexcept {
  if (g_active && g_conc && tcur && !tcur->ignore) schedPoint(tcur, 3);
  return 0;
}
int nanosleep(const struct timespec* a, struct timespec*) {
  if (g_active) {
    g_simNs += u64(a->tv_sec) * 1000000000ull + u64(a->tv_nsec);
    return sched_yield();
  }
  return int(syscall(SYS_nanosleep, a, nullptr));
}
int clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec* b) { return nanosleep(a, b); }
int usleep(useconds_t u) {
  struct timespec ts = {time_t(u / 1000000), long(u % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
  if (g_active) {
    u64 n = 1600000000000000000ull + g_simNs + g_global;
    ts->tv_sec = time_t(n / 1000000000ull);
    ts->tv_nsec = long(n % 1000000000ull);
    return 0;
  }
  return int(syscall(SYS_clock_gettime, c, ts));
}
int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* o) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (o) *o = ts.tv_sec;
  return ts.tv_sec;
}

// ---- files
FILE* fopen(const char* p, const char* m) {
  if (isSim(p) && g_active) return vfopen(p, m);
  static auto r = real<FILE* (*)(const char*, const char*)>("fopen");
  return r(p, m);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int fileno(FILE* f) noexcept {
  if (g_active)
    for (int i = 0; i < kVfdN; i++)
      if (g_vfd[i].used && g_vfd[i].fp == f) return kVfdBase + i;
  static auto r = real<int (*)(FILE*)>("fileno");
  return r(f);
}
static int openImpl(const char* p, int fl, mode_t m, const char* nm) {
  if (isSim(p) && g_active) {
    int acc = fl & O_ACCMODE;
    int v = vopen(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, fl & O_EXCL);
    return v < 0 ? -1 : kVfdBase + v;
  }
  return int(syscall(SYS_openat, AT_FDCWD, p, fl, m));
}
int open(const char* p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (fl & O_CREAT) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return openImpl(p, fl, m, "open");
}
int open64(const char* p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (fl & O_CREAT) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return openImpl(p, fl, m, "open64");
}
ssize_t read(int fd, void* b, size_t n) {
  if (isV(fd)) return vread(fd - kVfdBase, b, n, true);
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  if (isV(fd)) return vwrite(fd - kVfdBase, b, n, true);
  return syscall(SYS_write, fd, b, n);
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (isV(fd)) {
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) {
      ssize_t r = vread(fd - kVfdBase, v[i].iov_base, v[i].iov_len, true);
      if (r < 0) return tot ? tot : -1;
      tot += r;
      if (size_t(r) < v[i].iov_len) break;
    }
    return tot;
  }
  return syscall(SYS_readv, fd, v, c);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (isV(fd)) {
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) {
      if (v[i].iov_len == 0) continue;
      ssize_t r = vwrite(fd - kVfdBase, v[i].iov_base, v[i].iov_len, true);
      if (r < 0) return tot ? tot : -1;
      tot += r;
      if (size_t(r) < v[i].iov_len) break;
    }
    return tot;
  }
  return syscall(SYS_writev, fd, v, c);
}
off_t lseek(int fd, off_t o, int w) noexcept {
  if (isV(fd)) return vseek(fd - kVfdBase, o, w);
  return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int close(int fd) {
  if (isV(fd)) return vclose(fd - kVfdBase);
  return int(syscall(SYS_close, fd));
}
int fsync(int fd) {
  if (isV(fd)) return 0;
  return int(syscall(SYS_fsync, fd));
}
int ftruncate(int fd, off_t n) noexcept {
  if (isV(fd)) {
    SimFile* f = &g_shm->files[g_vfd[fd - kVfdBase].file];
    if (u64(n) < f->size) f->size = u64(n);
    return 0;
  }
  return int(syscall(SYS_ftruncate, fd, n));
}
int ioctl(int fd, unsigned long rq, ...) noexcept {
  va_list ap;
  va_start(ap, rq);
  void* a = va_arg(ap, void*);
  va_end(ap);
  if (isV(fd)) {
    errno = ENOTTY;
    return -1;
  }
  return int(syscall(SYS_ioctl, fd, rq, a));
}
int poll(struct pollfd* p, nfds_t n, int t) {
  if (n == 1 && isV(p->fd)) {
    p->revents = p->events;
    return 1;
  }
  return int(syscall(SYS_poll, p, n, t));
}
static void fillStat(struct stat* st, SimFile* f) {
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | 0644;
  st->st_size = off_t(f->size);
  st->st_nlink = 1;
  st->st_blksize = 4096;
}
static int statStep() {
  u64 a = 0;
  int k = ioStep(kIoStat, nullptr, &a);
  if (k) {
    errno = errnoOf(k);
    return -1;
  }
  return 0;
}
int stat(const char* p, struct stat* st) noexcept {
  if (isSim(p) && g_active) {
    if (statStep()) return -1;
    int i = diskFind(p);
    if (i < 0) {
      errno = ENOENT;
      return -1;
    }
    fillStat(st, &g_shm->files[i]);
    return 0;
  }
  return int(syscall(SYS_stat, p, st));
}
int stat64(const char* p, struct stat64* st) noexcept { return stat(p, reinterpret_cast<struct stat*>(st)); }
int lstat(const char* p, struct stat* st) noexcept { return isSim(p) ? stat(p, st) : int(syscall(SYS_lstat, p, st)); }
int fstat(int fd, struct stat* st) noexcept {
  if (isV(fd)) {
    if (statStep()) return -1;
    fillStat(st, &g_shm->files[g_vfd[fd - kVfdBase].file]);
    return 0;
  }
  return int(syscall(SYS_fstat, fd, st));
}
int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
int statx(int d, const char* p, int fl, unsigned m, struct statx* sx) noexcept {
  if (isSim(p) && g_active) {
    if (statStep()) return -1;
    int i = diskFind(p);
    if (i < 0) {
      errno = ENOENT;
      return -1;
    }
    memset(sx, 0, sizeof *sx);
    sx->stx_mask = m;
    sx->stx_mode = S_IFREG | 0644;
    sx->stx_size = g_shm->files[i].size;
    sx->stx_nlink = 1;
    return 0;
  }
  return int(syscall(SYS_statx, d, p, fl, m, sx));
}
int access(const char* p, int m) noexcept {
  if (isSim(p) && g_active) {
    if (statStep()) return -1;
    if (diskFind(p) >= 0) return 0;
    errno = ENOENT;
    return -1;
  }
  return int(syscall(SYS_access, p, m));
}
int unlink(const char* p) noexcept {
  if (isSim(p) && g_active) {
    if (diskFind(p) < 0) {
      errno = ENOENT;
      return -1;
    }
    diskRemove(p);
    return 0;
  }
  return int(syscall(SYS_unlink, p));
}
int remove(const char* p) noexcept {
  if (isSim(p) && g_active) return unlink(p);
  static auto r = real<int (*)(const char*)>("remove");
  return r(p);
}
int rename(const char* a, const char* b) noexcept {
  if (isSim(a) && g_active) {
    u64 arg = 0;
    int k = ioStep(kIoClose, nullptr, &arg);
    if (k == kCrash) crashNow();
    if (k) {
      errno = errnoOf(k);
      return -1;
    }
    int i = diskFind(a);
    if (i < 0) {
      errno = ENOENT;
      return -1;
    }
    diskRemove(b);
    snprintf(g_shm->files[i].name, sizeof g_shm->files[i].name, "%s", b);
    return 0;
  }
  return int(syscall(SYS_rename, a, b));
}
struct lconv* localeconv(void) noexcept {
  static auto r = real<struct lconv* (*)()>("localeconv");
  struct lconv* l = r();
  if (g_locPoint) {
    static struct lconv mine;
    static char pt[2];
    mine = *l;
    pt[0] = g_locPoint;
    mine.decimal_point = pt;
    return &mine;
  }
  return l;
}

// ---- instrumentation callbacks
#define RA __builtin_return_address(0)
#define RW(N)                                                                       \
  void __tsan_read##N(void* p) { onAccess(p, N, false, RA); }                       \
  void __tsan_write##N(void* p) { onAccess(p, N, true, RA); }                       \
  void __tsan_unaligned_read##N(void* p) { onAccess(p, N, false, RA); }             \
  void __tsan_unaligned_write##N(void* p) { onAccess(p, N, true, RA); }             \
  void __tsan_read_write##N(void* p) { onAccess(p, N, true, RA); }                  \
  void __tsan_unaligned_read_write##N(void* p) { onAccess(p, N, true, RA); }        \
  void __tsan_volatile_read##N(void* p) { onAccess(p, N, false, RA); }              \
  void __tsan_volatile_write##N(void* p) { onAccess(p, N, true, RA); }              \
  void __tsan_unaligned_volatile_read##N(void* p) { onAccess(p, N, false, RA); }    \
  void __tsan_unaligned_volatile_write##N(void* p) { onAccess(p, N, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() { init(); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** p, void* v) { onAccess(p, 8, *p != v, RA); }
void __tsan_vptr_read(void** p) { onAccess(p, 8, false, RA); }
void __tsan_read_range(void* p, unsigned long n) { onAccess(p, n, false, RA); }
void __tsan_write_range(void* p, unsigned long n) { onAccess(p, n, true, RA); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) {
  onAccess(s, n, false, RA);
  onAccess(d, n, true, RA);
  return __builtin_memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n) {
  onAccess(s, n, false, RA);
  onAccess(d, n, true, RA);
  return __builtin_memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, unsigned long n) {
  onAccess(d, n, true, RA);
  return __builtin_memset(d, v, n);
}
}  // extern C

namespace {
enum MO { mo_relaxed, mo_consume, mo_acquire, mo_release, mo_acq_rel, mo_seq_cst };
inline bool acq(int m) { return m == mo_acquire || m == mo_consume || m == mo_acq_rel || m == mo_seq_cst; }
inline bool rel(int m) { return m == mo_release || m == mo_acq_rel || m == mo_seq_cst; }
// called before the operation: scheduling + race bookkeeping
inline Th* atomicPre(const volatile void* p, u64 n, bool wr, void* ra) {
  Th* t = tcur;
  if (!t || t->ignore || !g_active) return nullptr;
  if (g_track) heapCheck(uptr(p), n, wr, u32(uptr(ra)));
  if (!g_conc) return nullptr;
  schedPoint(t, 2);
  if (!wr) {
    raceCheck(t, uptr(p), n, false, true, u32(uptr(ra)));
  } else {
    raceCheck(t, uptr(p), n, true, true, u32(uptr(ra)));
  }
  g_shm->sig = mix(g_shm->sig, u64(t->id) * 5 + 2);
  return t;
}
inline void postLoad(Th* t, const volatile void* p, int mo) {
  if (!t) return;
  if (acq(mo)) hbAcquire(t, uptr(p));
  else if (SyncVar* s = syncVar(uptr(p), false)) t->acqPend.join(s->vc);
}
inline void preStore(Th* t, const volatile void* p, int mo, bool rmw) {
  if (!t) return;
  if (rel(mo)) {
    hbRelease(t, uptr(p), rmw);
  } else if (t->hasRelFence) {
    SyncVar* s = syncVar(uptr(p), true);
    if (!rmw) s->vc.clear();
    s->vc.join(t->relFence);
  } else if (!rmw) {
    SyncVar* s = syncVar(uptr(p), false);
    if (s) s->vc.clear();
  }
}
}  // namespace
extern "C" {
#define ATOM(N, T)                                                                                             \
  T __tsan_atomic##N##_load(const volatile T* a, int mo) {                                                     \
    Th* t = atomicPre(a, sizeof(T), false, RA);                                                                \
    T v = *a;                                                                                                  \
    postLoad(t, a, mo);                                                                                        \
    return v;                                                                                                  \
  }                                                                                                            \
  void __tsan_atomic##N##_store(volatile T* a, T v, int mo) {                                                  \
    Th* t = atomicPre(a, sizeof(T), true, RA);                                                                 \
    preStore(t, a, mo, false);                                                                                 \
    *a = v;                                                                                                    \
  }                                                                                                            \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { RMW(T, v) }                                      \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { RMW(T, T(old + v)) }                            \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { RMW(T, T(old - v)) }                            \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { RMW(T, T(old & v)) }                            \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { RMW(T, T(old | v)) }                             \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { RMW(T, T(old ^ v)) }                            \
  T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { RMW(T, T(~(old & v))) }                        \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { CAS(T) }         \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { CAS(T) }           \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {                        \
    T e = c;                                                                                                   \
    Th* t = atomicPre(a, sizeof(T), true, RA);                                                                 \
    T old = *a;                                                                                                \
    if (old == e) {                                                                                            \
      postLoad(t, a, mo);                                                                                      \
      preStore(t, a, mo, true);                                                                                \
      *a = v;                                                                                                  \
    } else {                                                                                                   \
      postLoad(t, a, fmo);                                                                                     \
    }                                                                                                          \
    return old;                                                                                                \
  }
#define RMW(T, E)                                   \
  Th* t = atomicPre(a, sizeof(T), true, RA);        \
  T old = *a;                                       \
  postLoad(t, a, mo);                               \
  preStore(t, a, mo, true);                         \
  *a = (E);                                         \
  return old;
#define CAS(T)                                      \
  Th* t = atomicPre(a, sizeof(T), true, RA);        \
  T old = *a;                                       \
  if (old == *c) {                                  \
    postLoad(t, a, mo);                             \
    preStore(t, a, mo, true);                       \
    *a = v;                                         \
    return 1;                                       \
  }                                                 \
  postLoad(t, a, fmo);                              \
  *c = old;                                         \
  return 0;
ATOM(8, u8)
ATOM(16, u16)
ATOM(32, u32)
ATOM(64, u64)
void __tsan_atomic_thread_fence(int mo) {
  Th* t = tcur;
  if (!t || t->ignore || !g_active || !g_conc) return;
  schedPoint(t, 2);
  if (acq(mo)) t->vc.join(t->acqPend);
  if (rel(mo)) {
    t->relFence = t->vc;
    t->hasRelFence = true;
    t->vc.c[t->id]++;
  }
}
void __tsan_atomic_signal_fence(int) {}
}

// ---- operator new/delete
void* operator new(size_t n) {
  void* p = heapAlloc(n, 16);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) {
  void* p = heapAlloc(n, 16);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return heapAlloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return heapAlloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) {
  void* p = heapAlloc(n, size_t(a));
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n, std::align_val_t a) {
  void* p = heapAlloc(n, size_t(a));
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return heapAlloc(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return heapAlloc(n, size_t(a)); }
void operator delete(void* p) noexcept { heapFree(p); }
void operator delete[](void* p) noexcept { heapFree(p); }
void operator delete(void* p, size_t) noexcept { heapFree(p); }
void operator delete[](void* p, size_t) noexcept { heapFree(p); }
void operator delete(void* p, std::align_val_t) noexcept { heapFree(p); }
void operator delete[](void* p, std::align_val_t) noexcept { heapFree(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { heapFree(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { heapFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heapFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heapFree(p); }
