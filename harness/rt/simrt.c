// Deterministic simulation runtime.
//
// Linked into the harness executable, it defines the libc entry points through
// which the Rust standard library (and rayon, rand, serde_json ... on top of it)
// reaches the operating system.  While a simulation is active:
//   * exactly one thread runs at a time; a seeded scheduler decides which one at
//     every CFG edge (SanitizerCoverage callback) and at every intercepted call;
//   * futexes, thread start/join/exit, sleeping, yielding and the clocks are virtual;
//   * entropy (getrandom) is a fixed function of the run's entropy seed;
//   * file and stream I/O may be hit by planned faults (errors, short transfers,
//     EINTR, full disk, crash before/within/after the operation, power loss).
// While no simulation is active everything is passed to the kernel unchanged.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

/* ---------------------------------------------------------------- raw calls */
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(r)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
#define raw(n, a, b, c) raw6((n), (long)(a), (long)(b), (long)(c), 0, 0, 0)
static long ret_errno(long r) {
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

/* ---------------------------------------------------------------- shared log */
enum { EV_SWITCH = 1, EV_OP = 2, EV_FAULT = 3, EV_THREAD = 4, EV_BLOCK = 5, EV_WAKE = 6 };
typedef struct {
  uint64_t step;
  int32_t tid, kind, op, label;
  int64_t arg, res;
} ev_t;

#define MAXEV 60000
#define MAXDEC 200000
#define NFAULTKIND 24
#define MAXLABEL 96
#define LABELLEN 96
#define MAXOP 24
enum { ST_RUNNING = 0, ST_OK = 1, ST_DEADLOCK = 2, ST_STEPLIMIT = 3, ST_CRASHED = 4, ST_INTERNAL = 5 };
typedef struct {
  uint64_t a;
  int32_t tid, next;
} dec_t;
typedef struct {
  uint32_t magic, status;
  uint64_t steps, switches, preemptions, yields, blocks, wakes, spurious;
  uint64_t vtime_ns, sleeps_ns;
  uint64_t sched_hash, event_hash;
  uint64_t cov_edges, threads, entropy_calls, clock_calls;
  uint64_t fault_fired[NFAULTKIND];
  uint64_t opcount[MAXOP][MAXLABEL];
  uint64_t opbytes[MAXOP][MAXLABEL];
  uint32_t nlabel, nev, nev_total, ndec, dec_overflow, crash_op;
  char label[MAXLABEL][LABELLEN];
  char note[512];
  ev_t ev[MAXEV];
  dec_t dec[MAXDEC];
} shm_t;
static shm_t *S;
static shm_t *local_shm;

/* ---------------------------------------------------------------- state */
#define MAXT 64
enum { TS_FREE = 0, TS_RUN = 1, TS_FUTEX = 2, TS_SLEEP = 3, TS_JOIN = 4, TS_DONE = 5 };
typedef struct {
  volatile int state;
  uint32_t *faddr;
  uint64_t deadline; // 0: none
  int timed_out, joining;
  volatile uint32_t park;
  pthread_t pt;
  uint64_t edges;
  uint64_t prio;
  uint64_t blocked_at;
} thr_t;
static thr_t T[MAXT];
static int nthr, cur;
static volatile int active;
static __thread int me = -1;
static __thread int in_rt = 0;
static pthread_key_t exit_key;
static int key_made;

static uint64_t rng_s, entropy_seed;
static int entropy_mode; // 0: same bytes every call, 1: a fresh stream per call
static int strategy;     // 0 run-to-block, 1 random quantum, 2 PCT
static int64_t quantum;
static int64_t budget;
static int spurious_pm; // per mille
static uint64_t step_limit;
static uint64_t sleeps_ns, clock_jump;
static int64_t wall_jump; // of the real-time clock only
static int dec_mode; // 0 seeded (recording), 1 explicit
static dec_t *xdec;
static int nxdec, xpos;
static uint64_t forced_n;
static char scratch[512];
static int crash_powerloss;
static uint64_t crash_seed;

static inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static inline uint64_t rnd(void) {
  rng_s += 0x9e3779b97f4a7c15ULL;
  uint64_t z = rng_s;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static inline uint64_t rndn(uint64_t n) { return n ? rnd() % n : 0; }

static void hash_ev(uint64_t *h, uint64_t v) { *h = (*h ^ v) * 0x100000001b3ULL; *h ^= *h >> 29; }

static void ev(int kind, int op, int label, int64_t arg, int64_t res) {
  if (!S) return;
  hash_ev(&S->event_hash, ((uint64_t)kind << 56) ^ ((uint64_t)op << 48) ^ ((uint64_t)label << 40) ^ ((uint64_t)(me + 1) << 32) ^ (uint64_t)arg * 31 ^ (uint64_t)res * 17 ^ S->steps);
  S->nev_total++;
  if (kind == EV_SWITCH && S->nev > MAXEV / 2) return;
  if (S->nev < MAXEV) {
    ev_t *e = &S->ev[S->nev++];
    e->step = S->steps; e->tid = me; e->kind = kind; e->op = op; e->label = label; e->arg = arg; e->res = res;
  }
}

static void die(uint32_t status, int code, const char *note) {
  if (S) {
    S->status = status;
    if (note) { strncpy(S->note, note, sizeof(S->note) - 1); }
    S->sleeps_ns = sleeps_ns;
    S->vtime_ns = S->steps * 5 + sleeps_ns;
  }
  raw(SYS_exit_group, code, 0, 0);
  __builtin_unreachable();
}

/* ---------------------------------------------------------------- scheduler */
static void park_self(int t) {
  while (T[t].park == 0) raw6(SYS_futex, (long)&T[t].park, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  T[t].park = 0;
}
static void unpark(int t) {
  T[t].park = 1;
  __sync_synchronize();
  raw6(SYS_futex, (long)&T[t].park, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static void refill(void) {
  if (strategy == 1) budget = 1 + (int64_t)rndn(2 * (uint64_t)quantum);
  else if (strategy == 2) budget = 1 + (int64_t)rndn(2 * (uint64_t)quantum);
  else budget = INT64_MAX;
  if (dec_mode == 1) {
    budget = INT64_MAX;
    // next explicit preemption for this thread
  }
}

static int runnable_list(int *out, int excl) {
  int n = 0;
  for (int i = 0; i < nthr; i++)
    if (T[i].state == TS_RUN && i != excl) out[n++] = i;
  return n;
}
static uint64_t now_ns(void) { return S->steps * 5 + sleeps_ns; }

static void deadlock(void) {
  char b[512];
  int p = snprintf(b, sizeof b, "no thread can run:");
  for (int i = 0; i < nthr && p < 460; i++) {
    const char *s = T[i].state == TS_FUTEX ? "futex" : T[i].state == TS_JOIN ? "join" : T[i].state == TS_DONE ? "done" : T[i].state == TS_SLEEP ? "sleep" : "?";
    if (T[i].state != TS_DONE) p += snprintf(b + p, sizeof b - p, " t%d:%s", i, s);
  }
  die(ST_DEADLOCK, 99, b);
}

static void record_dec(uint64_t a, int tid, int next) {
  if (S->ndec < MAXDEC) {
    dec_t *d = &S->dec[S->ndec++];
    d->a = a; d->tid = tid; d->next = next;
  } else
    S->dec_overflow = 1;
}
#define FORCED (1ULL << 63)

// wake sleepers whose time has come; if nobody is runnable, advance the clock
static void timers(int advance) {
  uint64_t n = now_ns();
  uint64_t best = 0;
  for (int i = 0; i < nthr; i++)
    if ((T[i].state == TS_SLEEP || T[i].state == TS_FUTEX) && T[i].deadline) {
      if (T[i].deadline <= n) {
        if (T[i].state == TS_FUTEX) T[i].timed_out = 1;
        T[i].state = TS_RUN; T[i].deadline = 0; T[i].faddr = 0;
      } else if (!best || T[i].deadline < best)
        best = T[i].deadline;
    }
  if (advance && best) {
    int l[MAXT];
    if (runnable_list(l, -1) == 0) {
      sleeps_ns += best - n;
      timers(0);
    }
  }
}

static void give_to(int next) {
  int self = me;
  if (next == self) { refill(); return; }
  S->switches++;
  hash_ev(&S->sched_hash, ((uint64_t)next << 48) ^ T[next].edges ^ (T[self].edges << 20));
  ev(EV_SWITCH, 0, 0, next, (int64_t)T[self].edges);
  cur = next;
  unpark(next);
  park_self(self);
  refill();
}

static int pick_forced(int *l, int n) {
  // the current thread cannot go on: choose among l
  uint64_t idx = forced_n++;
  int next;
  if (dec_mode == 1) {
    next = -1;
    for (int i = 0; i < nxdec; i++)
      if (xdec[i].a == (FORCED | idx)) { for (int k = 0; k < n; k++) if (l[k] == xdec[i].next) next = l[k]; break; }
    if (next < 0) {
      next = l[0];
      for (int k = 0; k < n; k++) if (l[k] > me) { next = l[k]; break; }
    }
    return next;
  }
  if (strategy == 2) {
    next = l[0];
    for (int k = 1; k < n; k++) if (T[l[k]].prio > T[next].prio) next = l[k];
  } else if (strategy == 0) {
    next = l[0];
    for (int k = 0; k < n; k++) if (l[k] > me) { next = l[k]; break; }
  } else
    next = l[rndn(n)];
  if (n > 1) record_dec(FORCED | idx, me, next);
  return next;
}

// current thread is no longer runnable; hand over
static void block_self(void) {
  S->blocks++;
  int l[MAXT];
  timers(0);
  if (T[me].state == TS_RUN) { refill(); return; }
  int n = runnable_list(l, -1);
  if (n == 0) { timers(1); if (T[me].state == TS_RUN) { refill(); return; } n = runnable_list(l, -1); }
  if (n == 0) deadlock();
  give_to(pick_forced(l, n));
}

// a voluntary scheduling point; `yield` asks to let someone else run
static void sched_point(int yield) {
  int l[MAXT];
  timers(0);
  int n = runnable_list(l, me);
  if (n == 0) {
    if (yield) { // spinning alone: let time pass for sleepers
      int any = 0;
      for (int i = 0; i < nthr; i++) if ((T[i].state == TS_SLEEP || T[i].state == TS_FUTEX) && T[i].deadline) any = 1;
      if (any) { T[me].state = TS_SLEEP; timers(1); T[me].state = TS_RUN; n = runnable_list(l, me); }
    }
    if (n == 0) { refill(); return; }
  }
  if (yield) {
    S->yields++;
    if (strategy == 2 && dec_mode == 0) T[me].prio = rnd() >> 8;
    give_to(pick_forced(l, n));
    return;
  }
  if (dec_mode == 1) return;
  if (strategy == 0) return;
  int next;
  if (strategy == 1) {
    if (rndn(4)) return;
    next = l[rndn(n)];
  } else {
    next = me;
    for (int k = 0; k < n; k++) if (T[l[k]].prio > T[next].prio) next = l[k];
    if (next == me) return;
  }
  S->preemptions++;
  record_dec(T[me].edges, me, next);
  give_to(next);
}

static void preempt(void) {
  int l[MAXT];
  timers(0);
  int n = runnable_list(l, me);
  if (n == 0) { refill(); return; }
  int next;
  if (strategy == 2) {
    T[me].prio = rnd() >> 8; // change point
    next = me;
    for (int k = 0; k < n; k++) if (T[l[k]].prio > T[next].prio) next = l[k];
    if (next == me) { refill(); return; }
  } else
    next = l[rndn(n)];
  S->preemptions++;
  record_dec(T[me].edges, me, next);
  give_to(next);
}

static void check_explicit(void) {
  // explicit decisions: position (tid, local edge count)
  for (int i = 0; i < nxdec; i++) {
    if (xdec[i].a & FORCED) continue;
    if (xdec[i].tid == me && xdec[i].a == T[me].edges) {
      int nx = xdec[i].next;
      xdec[i].tid = -1; // consumed
      timers(0);
      if (nx >= 0 && nx < nthr && nx != me && T[nx].state == TS_RUN) { S->preemptions++; give_to(nx); }
      return;
    }
  }
}
static uint64_t *xbits; // quick filter for explicit mode
static inline int xmaybe(uint64_t e) { return xbits && (xbits[(e >> 6) & 0xffff] >> (e & 63)) & 1; }

/* ---------------------------------------------------------------- coverage */
static uint8_t *covmap;
static uint32_t nguards;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  if (a == b || *a) return;
  for (uint32_t *x = a; x < b; x++) *x = ++nguards;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (__builtin_expect(!active, 1)) return;
  if (me < 0 || in_rt) return;
  T[me].edges++;
  if (++S->steps > step_limit) die(ST_STEPLIMIT, 98, "step limit");
  if (!covmap[*g]) { covmap[*g] = 1; S->cov_edges++; }
  if (dec_mode == 1) {
    if (__builtin_expect(xmaybe(T[me].edges), 0)) check_explicit();
    return;
  }
  if (--budget <= 0) preempt();
}

/* ---------------------------------------------------------------- faults */
enum { OP_OPEN_R = 1, OP_OPEN_W, OP_READ, OP_WRITE, OP_CLOSE, OP_FSYNC, OP_RENAME, OP_UNLINK, OP_STAT, OP_SEEK, OP_THREAD, OP_MKDIR, OP_ANY };
enum { FK_ERRNO = 0, FK_SHORT = 1, FK_EINTR = 2, FK_DISKCAP = 3, FK_CRASH_BEFORE = 4, FK_CRASH_TORN = 5, FK_CRASH_AFTER = 6, FK_STALL = 7, FK_CLOCKJUMP = 8, FK_SPURIOUS = 9, FK_POWERLOSS = 10, FK_ZERO = 11 };
typedef struct {
  int op; // OP_*
  char label[LABELLEN];
  int64_t nth; // fires at the nth matching operation (0-based)
  int kind;
  int64_t arg;
  int sticky;
  int64_t seen;
} fault_t;
#define MAXF 256
static fault_t F[MAXF];
static int nf;

static int16_t fdlab[4096]; // label+1
typedef struct {
  char path[LABELLEN];
  int used, dirty;
  int64_t synced;
} dfile_t;
#define MAXDF 64
static dfile_t DF[MAXDF];

static int label_of(const char *p) {
  for (uint32_t i = 0; i < S->nlabel; i++) if (!strcmp(S->label[i], p)) return i;
  if (S->nlabel >= MAXLABEL) return MAXLABEL - 1;
  strncpy(S->label[S->nlabel], p, LABELLEN - 1);
  return S->nlabel++;
}
// path inside the scratch directory -> relative name, else NULL
static const char *rel(const char *p) {
  if (!p) return 0;
  if (p[0] != '/') { while (p[0] == '.' && p[1] == '/') p += 2; return p; }
  size_t n = strlen(scratch);
  if (n && !strncmp(p, scratch, n) && p[n] == '/') return p + n + 1;
  return 0;
}
static dfile_t *df(const char *path, int make) {
  for (int i = 0; i < MAXDF; i++) if (DF[i].used && !strcmp(DF[i].path, path)) return &DF[i];
  if (!make) return 0;
  for (int i = 0; i < MAXDF; i++) if (!DF[i].used) {
    memset(&DF[i], 0, sizeof DF[i]);
    DF[i].used = 1; strncpy(DF[i].path, path, LABELLEN - 1);
    return &DF[i];
  }
  return 0;
}
static void do_crash(void) {
  if (crash_powerloss) {
    uint64_t s = crash_seed;
    for (int i = 0; i < MAXDF; i++) {
      if (!DF[i].used || !DF[i].dirty) continue;
      char full[700];
      snprintf(full, sizeof full, "%s/%s", scratch, DF[i].path);
      struct stat st;
      if (raw(SYS_stat, full, &st, 0) != 0) continue;
      s = mix(s);
      int64_t span = st.st_size - DF[i].synced;
      if (span <= 0) continue;
      int64_t keep;
      switch (s % 4) {
        case 0: keep = 0; break;
        case 1: keep = span; break;
        default: keep = (int64_t)((s >> 8) % (uint64_t)(span + 1));
      }
      raw(SYS_truncate, full, DF[i].synced + keep, 0);
      S->fault_fired[FK_POWERLOSS]++;
    }
  }
  S->crash_op = 1;
  die(ST_CRASHED, 97, "injected crash");
}

// Looks for a planned fault for this operation. Returns the fault or NULL.
static fault_t *match_fault(int op, int label) {
  fault_t *hit = 0;
  const char *ln = S->label[label];
  for (int i = 0; i < nf; i++) {
    fault_t *f = &F[i];
    if (f->op != op && f->op != OP_ANY) continue;
    if (f->label[0] == '*') {
      // disk faults do not concern the standard streams
      if (ln[0] == '<' && (f->kind == FK_ERRNO || f->kind == FK_DISKCAP || f->kind == FK_ZERO)) continue;
    } else {
      size_t fl = strlen(f->label);
      if (fl && f->label[fl - 1] == '*') { if (strncmp(f->label, ln, fl - 1)) continue; }
      else if (strcmp(f->label, ln)) continue;
    }
    int64_t k = f->seen++;
    if (f->kind == FK_DISKCAP) { if (!hit) hit = f; continue; }
    if (k == f->nth || (f->sticky && k > f->nth)) if (!hit || hit->kind == FK_DISKCAP) hit = f;
  }
  return hit;
}
static void fired(fault_t *f, int op, int label) {
  S->fault_fired[f->kind]++;
  ev(EV_FAULT, op, label, f->kind, f->arg);
}

static inline int sim(void) { return active && me >= 0 && !in_rt; }

// pre-operation: returns 0 to go on, -errno to fail, sets *lim for transfers
static long pre(int op, int label, int64_t want, int64_t *lim, int *crash_after) {
  sched_point(0);
  S->opcount[op][label]++;
  *lim = want;
  *crash_after = 0;
  fault_t *f = match_fault(op, label);
  if (!f) return 0;
  switch (f->kind) {
    case FK_ERRNO: fired(f, op, label); return -f->arg;
    case FK_EINTR: fired(f, op, label); return -EINTR;
    case FK_ZERO: fired(f, op, label); *lim = 0; return 0;
    case FK_SHORT:
      if (want > 1) {
        int64_t k = f->arg >= want ? want - 1 : f->arg;
        if (k < 1) k = 1;
        fired(f, op, label);
        *lim = k;
      }
      return 0;
    case FK_DISKCAP:
      if (op != OP_WRITE) return 0;
      if (f->arg >= want) { f->arg -= want; return 0; }
      fired(f, op, label);
      if (f->arg == 0) return -ENOSPC;
      *lim = f->arg; f->arg = 0;
      return 0;
    case FK_CRASH_BEFORE: fired(f, op, label); do_crash(); return 0;
    case FK_CRASH_TORN:
      fired(f, op, label);
      *lim = want ? (int64_t)((uint64_t)f->arg % (uint64_t)(want + 1)) : 0;
      *crash_after = 1;
      return 0;
    case FK_CRASH_AFTER: fired(f, op, label); *crash_after = 1; return 0;
    case FK_STALL: fired(f, op, label); {
      // the caller is suspended for arg ns of virtual time
      T[me].state = TS_SLEEP; T[me].deadline = now_ns() + (uint64_t)f->arg; block_self();
      return 0;
    }
    case FK_CLOCKJUMP:
      // the monotonic clock never goes back
      fired(f, op, label);
      if (f->arg < 0) wall_jump += f->arg; else clock_jump += (uint64_t)f->arg;
      return 0;
  }
  return 0;
}
static long post(int op, int label, int64_t arg, long r, int crash_after) {
  if (r > 0 && (op == OP_READ || op == OP_WRITE)) S->opbytes[op][label] += (uint64_t)r;
  ev(EV_OP, op, label, arg, r);
  if (crash_after) do_crash();
  return r;
}

/* ---------------------------------------------------------------- interposed libc */
static int do_open(int dirfd, const char *path, int flags, int mode) {
  const char *rp = sim() ? rel(path) : 0;
  if (!rp) {
    int fd = (int)ret_errno(raw6(SYS_openat, dirfd, (long)path, flags, mode, 0, 0));
    if (fd >= 0 && fd < 4096) fdlab[fd] = 0;
    return fd;
  }
  int op = (flags & O_ACCMODE) == O_RDONLY ? OP_OPEN_R : OP_OPEN_W;
  int lab = label_of(rp), ca;
  int64_t lim;
  long e = pre(op, lab, 0, &lim, &ca);
  if (e < 0) { post(op, lab, flags, e, 0); errno = (int)-e; return -1; }
  long r = raw6(SYS_openat, dirfd, (long)path, flags, mode, 0, 0);
  if (r >= 0 && r < 4096) {
    fdlab[r] = (int16_t)(lab + 1);
    if (op == OP_OPEN_W && (flags & (O_CREAT | O_TRUNC))) {
      dfile_t *d = df(rp, 1);
      if (d && (flags & O_TRUNC)) { d->synced = 0; d->dirty = 1; }
    }
  }
  post(op, lab, flags, r >= 0 ? 0 : r, ca);
  return (int)ret_errno(r);
}
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, p, fl, m); }
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(d, p, fl, m); }

static int lab_of_fd(int fd) {
  if (fd < 0 || fd >= 4096) return -1;
  if (fdlab[fd]) return fdlab[fd] - 1;
  if (fd <= 2) {
    int l = label_of(fd == 0 ? "<stdin>" : fd == 1 ? "<stdout>" : "<stderr>");
    fdlab[fd] = (int16_t)(l + 1);
    return l;
  }
  return -1;
}
int close(int fd) {
  int lab = sim() ? lab_of_fd(fd) : -1;
  if (lab < 0) return (int)ret_errno(raw(SYS_close, fd, 0, 0));
  int ca; int64_t lim;
  long e = pre(OP_CLOSE, lab, 0, &lim, &ca);
  if (fd > 2) fdlab[fd] = 0;
  long r = raw(SYS_close, fd, 0, 0);
  if (e < 0) r = e;
  post(OP_CLOSE, lab, 0, r, ca);
  return (int)ret_errno(r);
}
static ssize_t do_read(int fd, void *buf, size_t n, int64_t off) {
  int lab = sim() ? lab_of_fd(fd) : -1;
  if (lab < 0) return off < 0 ? ret_errno(raw(SYS_read, fd, buf, n)) : ret_errno(raw6(SYS_pread64, fd, (long)buf, (long)n, off, 0, 0));
  int ca; int64_t lim;
  long e = pre(OP_READ, lab, (int64_t)n, &lim, &ca);
  if (e < 0) { post(OP_READ, lab, (int64_t)n, e, 0); errno = (int)-e; return -1; }
  long r = off < 0 ? raw(SYS_read, fd, buf, lim) : raw6(SYS_pread64, fd, (long)buf, lim, off, 0, 0);
  post(OP_READ, lab, (int64_t)n, r, ca);
  return ret_errno(r);
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o); }
static ssize_t do_write(int fd, const void *buf, size_t n, int64_t off) {
  int lab = sim() ? lab_of_fd(fd) : -1;
  if (lab < 0) return off < 0 ? ret_errno(raw(SYS_write, fd, buf, n)) : ret_errno(raw6(SYS_pwrite64, fd, (long)buf, (long)n, off, 0, 0));
  int ca; int64_t lim;
  long e = pre(OP_WRITE, lab, (int64_t)n, &lim, &ca);
  if (e < 0) { post(OP_WRITE, lab, (int64_t)n, e, 0); errno = (int)-e; return -1; }
  long r = off < 0 ? raw(SYS_write, fd, buf, lim) : raw6(SYS_pwrite64, fd, (long)buf, lim, off, 0, 0);
  if (fd > 2) { dfile_t *d = df(S->label[lab], 0); if (d) d->dirty = 1; }
  post(OP_WRITE, lab, (int64_t)n, r, ca);
  return ret_errno(r);
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  int lab = sim() ? lab_of_fd(fd) : -1;
  if (lab < 0) return ret_errno(raw(SYS_writev, fd, v, c));
  size_t tot = 0;
  for (int i = 0; i < c; i++) tot += v[i].iov_len;
  char *b = malloc(tot ? tot : 1), *p = b;
  for (int i = 0; i < c; i++) { memcpy(p, v[i].iov_base, v[i].iov_len); p += v[i].iov_len; }
  ssize_t r = do_write(fd, b, tot, -1);
  int se = errno; free(b); errno = se;
  return r;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  int lab = sim() ? lab_of_fd(fd) : -1;
  if (lab < 0) return ret_errno(raw(SYS_readv, fd, v, c));
  for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, -1);
  return 0;
}
static int do_fsync(int fd, long nr) {
  int lab = sim() ? lab_of_fd(fd) : -1;
  if (lab < 0) return (int)ret_errno(raw(nr, fd, 0, 0));
  int ca; int64_t lim;
  long e = pre(OP_FSYNC, lab, 0, &lim, &ca);
  if (e < 0) { post(OP_FSYNC, lab, 0, e, 0); errno = (int)-e; return -1; }
  // durability is modelled; no need to hit the real disk
  dfile_t *d = df(S->label[lab], 1);
  struct stat st;
  if (d && raw(SYS_fstat, fd, &st, 0) == 0) { d->dirty = 0; d->synced = st.st_size; }
  post(OP_FSYNC, lab, 0, 0, ca);
  return 0;
}
int fsync(int fd) { return do_fsync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_fsync(fd, SYS_fdatasync); }
static int do_rename(int da, const char *a, int db, const char *b) {
  const char *ra = sim() ? rel(a) : 0, *rb = ra ? rel(b) : 0;
  if (!ra || !rb) return (int)ret_errno(raw6(SYS_renameat, da, (long)a, db, (long)b, 0, 0));
  int lab = label_of(rb), ca; int64_t lim;
  long e = pre(OP_RENAME, lab, 0, &lim, &ca);
  if (e < 0) { post(OP_RENAME, lab, 0, e, 0); errno = (int)-e; return -1; }
  long r = raw6(SYS_renameat, da, (long)a, db, (long)b, 0, 0);
  if (r == 0) {
    dfile_t *o = df(rb, 0); if (o) o->used = 0;
    dfile_t *d = df(ra, 0); if (d) { memset(d->path, 0, sizeof d->path); strncpy(d->path, rb, LABELLEN - 1); }
  }
  post(OP_RENAME, lab, 0, r, ca);
  return (int)ret_errno(r);
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b); }
int renameat(int x, const char *a, int y, const char *b) { return do_rename(x, a, y, b); }
static int do_unlink(int d, const char *p, int fl) {
  const char *rp = sim() ? rel(p) : 0;
  if (!rp) return (int)ret_errno(raw(SYS_unlinkat, d, p, fl));
  int lab = label_of(rp), ca; int64_t lim;
  long e = pre(OP_UNLINK, lab, 0, &lim, &ca);
  if (e < 0) { post(OP_UNLINK, lab, 0, e, 0); errno = (int)-e; return -1; }
  long r = raw(SYS_unlinkat, d, p, fl);
  if (r == 0) { dfile_t *x = df(rp, 0); if (x) x->used = 0; }
  post(OP_UNLINK, lab, 0, r, ca);
  return (int)ret_errno(r);
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int fl) { return do_unlink(d, p, fl); }
int ftruncate64(int fd, off64_t n) {
  long r = raw(SYS_ftruncate, fd, n, 0);
  if (sim()) { int lab = lab_of_fd(fd); if (lab >= 0) { dfile_t *d = df(S->label[lab], 1); if (d) { d->dirty = 1; if (d->synced > n) d->synced = n; } } }
  return (int)ret_errno(r);
}
// no in-kernel copying: copies go through read/write, where faults are injected
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
  if (sim()) { errno = ENOSYS; return -1; }
  return ret_errno(raw6(SYS_copy_file_range, a, (long)x, b, (long)y, (long)n, f));
}
ssize_t sendfile64(int a, int b, off64_t *x, size_t n) {
  if (sim()) { errno = ENOSYS; return -1; }
  return ret_errno(raw6(SYS_sendfile, a, b, (long)x, (long)n, 0, 0));
}
ssize_t sendfile(int a, int b, off_t *x, size_t n) { return sendfile64(a, b, x, n); }
ssize_t splice(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
  if (sim()) { errno = EINVAL; return -1; }
  return ret_errno(raw6(SYS_splice, a, (long)x, b, (long)y, (long)n, f));
}

/* the process number is part of names: always the same */
pid_t getpid(void) { return S && sim() ? 4242 : (pid_t)raw(SYS_getpid, 0, 0, 0); }

/* entropy */
static void fill_entropy(unsigned char *b, size_t n) {
  uint64_t s = entropy_seed;
  if (entropy_mode == 1) s = mix(s ^ mix(S->entropy_calls));
  S->entropy_calls++;
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) s = mix(s);
    b[i] = (unsigned char)(s >> (8 * (i % 8)));
  }
}
static int ent_always;
void sim_entropy_always(uint64_t seed, int mode) { entropy_seed = seed; entropy_mode = mode; ent_always = 1; }
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!sim() && ent_always && S) { fill_entropy(b, n); return (ssize_t)n; }
  if (!sim()) return ret_errno(raw(SYS_getrandom, b, n, f));
  fill_entropy(b, n);
  return (ssize_t)n;
}

/* time */
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!sim()) return (int)ret_errno(raw(SYS_clock_gettime, c, t, 0));
  S->clock_calls++;
  uint64_t n = 1700000000ULL * 1000000000ULL * (c == CLOCK_REALTIME) + 1000000000ULL + now_ns() + clock_jump + (c == CLOCK_REALTIME ? (uint64_t)wall_jump : 0);
  t->tv_sec = (time_t)(n / 1000000000ULL); t->tv_nsec = (long)(n % 1000000000ULL);
  return 0;
}
static int vsleep(uint64_t ns) {
  T[me].state = TS_SLEEP; T[me].deadline = now_ns() + (ns ? ns : 1);
  block_self();
  return 0;
}
int nanosleep(const struct timespec *r, struct timespec *rem) {
  if (!sim()) return (int)ret_errno(raw(SYS_nanosleep, r, rem, 0));
  return vsleep((uint64_t)r->tv_sec * 1000000000ULL + (uint64_t)r->tv_nsec);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *rem) {
  if (!sim()) { long x = raw6(SYS_clock_nanosleep, c, fl, (long)r, (long)rem, 0, 0); return x < 0 ? (int)-x : 0; }
  uint64_t ns = (uint64_t)r->tv_sec * 1000000000ULL + (uint64_t)r->tv_nsec;
  if (fl & TIMER_ABSTIME) {
    struct timespec n; clock_gettime(c, &n);
    uint64_t nn = (uint64_t)n.tv_sec * 1000000000ULL + (uint64_t)n.tv_nsec;
    ns = ns > nn ? ns - nn : 0;
  }
  return vsleep(ns);
}
int sched_yield(void) {
  if (!sim()) return (int)ret_errno(raw(SYS_sched_yield, 0, 0, 0));
  S->steps += 20; // time passes while spinning
  if (S->steps > step_limit) die(ST_STEPLIMIT, 98, "step limit");
  sched_point(1);
  return 0;
}

/* futex */
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *to, uint32_t *addr2, uint32_t val3) {
  int cmd = op & 127;
  (void)addr2; (void)val3;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    sched_point(0);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    if (spurious_pm && dec_mode == 0 && (int)rndn(1000) < spurious_pm) { S->spurious++; S->fault_fired[FK_SPURIOUS]++; sched_point(1); return 0; }
    thr_t *t = &T[me];
    t->faddr = addr; t->timed_out = 0; t->deadline = 0;
    if (to) {
      uint64_t ns = (uint64_t)to->tv_sec * 1000000000ULL + (uint64_t)to->tv_nsec;
      if (cmd == FUTEX_WAIT) t->deadline = now_ns() + (ns ? ns : 1);
      else {
        struct timespec n; clock_gettime((op & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, &n);
        uint64_t nn = (uint64_t)n.tv_sec * 1000000000ULL + (uint64_t)n.tv_nsec;
        t->deadline = now_ns() + (ns > nn ? ns - nn : 1);
      }
    }
    t->state = TS_FUTEX;
    t->blocked_at = S->steps;
    block_self();
    if (t->timed_out) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    int l[MAXT], n = 0, woken = 0;
    for (int i = 0; i < nthr; i++) if (T[i].state == TS_FUTEX && T[i].faddr == addr) l[n++] = i;
    while (n > 0 && woken < (int)val) {
      int k = 0;
      if (dec_mode == 0 && strategy && n > 1) k = (int)rndn(n);
      // explicit mode: wake the one that has waited longest
      else for (int i = 1; i < n; i++) if (T[l[i]].blocked_at < T[l[k]].blocked_at) k = i;
      thr_t *t = &T[l[k]];
      t->state = TS_RUN; t->faddr = 0; t->deadline = 0; t->timed_out = 0;
      l[k] = l[--n];
      woken++; S->wakes++;
    }
    if (woken) sched_point(0);
    return woken;
  }
  errno = ENOSYS;
  return -1;
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (sim()) {
    switch (n) {
      case SYS_futex: return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t *)e, (uint32_t)f);
      case SYS_getrandom: fill_entropy((unsigned char *)a, (size_t)b); return b;
      case SYS_copy_file_range: errno = ENOSYS; return -1;
      case SYS_clock_gettime: return clock_gettime((clockid_t)a, (struct timespec *)b);
      case SYS_write: return write((int)a, (void *)b, (size_t)c);
      case SYS_read: return read((int)a, (void *)b, (size_t)c);
    }
  }
  if (n == SYS_getrandom && ent_always && S) { fill_entropy((unsigned char *)a, (size_t)b); return b; }
  return ret_errno(raw6(n, a, b, c, d, e, f));
}

/* threads */
typedef struct { void *(*fn)(void *); void *arg; int slot; } start_t;
static void thread_gone(int slot) {
  T[slot].state = TS_DONE;
  for (int i = 0; i < nthr; i++) if (T[i].state == TS_JOIN && T[i].joining == slot) T[i].state = TS_RUN;
  ev(EV_THREAD, 2, 0, slot, 0);
  int l[MAXT];
  timers(0);
  int n = runnable_list(l, -1);
  if (n == 0) { timers(1); n = runnable_list(l, -1); }
  if (n == 0) deadlock();
  int next = pick_forced(l, n);
  S->switches++;
  cur = next;
  me = -1;
  unpark(next);
}
static __thread int exit_round;
static void key_dtor(void *v) {
  // run last: give the other destructors a chance first
  if (++exit_round < 4) { pthread_setspecific(exit_key, v); return; }
  if (me >= 0 && active) thread_gone(me);
}
static void *tramp(void *p) {
  start_t s = *(start_t *)p;
  free(p);
  me = s.slot;
  park_self(me);
  pthread_setspecific(exit_key, (void *)1);
  ev(EV_THREAD, 1, 0, me, 0);
  refill();
  return s.fn(s.arg);
}
typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int (*pj_t)(pthread_t, void **);
static pc_t real_create;
static pj_t real_join;
static void resolve(void) {
  if (!real_create) { real_create = (pc_t)dlsym(RTLD_NEXT, "pthread_create"); real_join = (pj_t)dlsym(RTLD_NEXT, "pthread_join"); }
}
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  resolve();
  if (!sim()) return real_create(t, at, fn, arg);
  int lab = label_of("<thread>"), ca; int64_t lim;
  long e = pre(OP_THREAD, lab, 0, &lim, &ca);
  if (e < 0) { post(OP_THREAD, lab, 0, e, 0); return (int)-e; }
  if (nthr >= MAXT) die(ST_INTERNAL, 96, "too many threads");
  start_t *s = malloc(sizeof *s);
  int slot = nthr;
  s->fn = fn; s->arg = arg; s->slot = slot;
  memset(&T[slot], 0, sizeof T[slot]);
  T[slot].prio = rnd() >> 8;
  int r = real_create(t, at, tramp, s);
  if (r) { free(s); return r; }
  T[slot].pt = *t;
  T[slot].state = TS_RUN;
  nthr++;
  S->threads++;
  sched_point(0);
  return 0;
}
int pthread_join(pthread_t t, void **rv) {
  resolve();
  if (sim()) {
    int slot = -1;
    for (int i = 0; i < nthr; i++) if (T[i].pt == t && i > 0) slot = i;
    if (slot >= 0) {
      if (T[slot].state != TS_DONE) { T[me].state = TS_JOIN; T[me].joining = slot; block_self(); }
      T[slot].pt = 0;
    }
  }
  return real_join(t, rv);
}

/* ---------------------------------------------------------------- control */
void sim_cfg_shm(const char *path) {
  int fd = (int)raw6(SYS_openat, AT_FDCWD, (long)path, O_RDWR | O_CREAT | O_CLOEXEC, 0600, 0, 0);
  if (fd < 0) _exit(95);
  raw(SYS_ftruncate, fd, sizeof(shm_t), 0);
  S = mmap(0, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  raw(SYS_close, fd, 0, 0);
  if (S == MAP_FAILED) _exit(95);
  S->magic = 0x51b51b;
}
uint64_t sim_nguards(void) { return nguards; }
uint64_t sim_shm_size(void) { return sizeof(shm_t); }
void sim_add_fault(int op, const char *label, int64_t nth, int kind, int64_t arg, int sticky) {
  if (nf >= MAXF) return;
  fault_t *f = &F[nf++];
  memset(f, 0, sizeof *f);
  f->op = op; strncpy(f->label, label, LABELLEN - 1);
  f->nth = nth; f->kind = kind; f->arg = arg; f->sticky = sticky;
}
void sim_crash_mode(int powerloss, uint64_t seed) { crash_powerloss = powerloss; crash_seed = seed; }
void sim_explicit(const uint64_t *a, const int32_t *tid, const int32_t *next, int n) {
  dec_mode = 1;
  xdec = malloc(sizeof(dec_t) * (size_t)(n ? n : 1));
  xbits = calloc(65536, 8);
  nxdec = n;
  for (int i = 0; i < n; i++) {
    xdec[i].a = a[i]; xdec[i].tid = tid[i]; xdec[i].next = next[i];
    if (!(a[i] & FORCED)) xbits[(a[i] >> 6) & 0xffff] |= 1ULL << (a[i] & 63);
  }
}
void sim_start(uint64_t sched_seed, uint64_t ent_seed, int ent_mode, int strat, int64_t quant, int spur, uint64_t limit, const char *scr) {
  resolve();
  if (!key_made) { pthread_key_create(&exit_key, key_dtor); key_made = 1; }
  if (!S) {
    local_shm = calloc(1, sizeof(shm_t));
    S = local_shm;
  }
  if (!covmap) {
    const char *cf = getenv("VSIM_COV");
    if (cf) {
      int fd = (int)raw6(SYS_openat, AT_FDCWD, (long)cf, O_RDWR | O_CREAT | O_CLOEXEC, 0600, 0, 0);
      if (fd >= 0) {
        raw(SYS_ftruncate, fd, nguards + 2, 0);
        void *m = mmap(0, nguards + 2, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        raw(SYS_close, fd, 0, 0);
        if (m != MAP_FAILED) covmap = m;
      }
    }
    if (!covmap) covmap = calloc(1, nguards + 2);
  }
  rng_s = mix(sched_seed);
  entropy_seed = ent_seed; entropy_mode = ent_mode;
  strategy = strat; quantum = quant ? quant : 1; spurious_pm = spur; step_limit = limit;
  strncpy(scratch, scr, sizeof scratch - 1);
  me = 0; nthr = 1; cur = 0;
  memset(&T[0], 0, sizeof T[0]);
  T[0].state = TS_RUN; T[0].prio = rnd() >> 8;
  refill();
  active = 1;
}
void sim_stop(void) {
  active = 0;
  S->sleeps_ns = sleeps_ns;
  S->vtime_ns = S->steps * 5 + sleeps_ns;
}
void sim_done(void) { // final status for processes that end by themselves
  if (S && S->status == ST_RUNNING) S->status = ST_OK;
  if (S) { S->sleeps_ns = sleeps_ns; S->vtime_ns = S->steps * 5 + sleeps_ns; }
}
// suspend / resume interception around harness code (same thread, keeps the token)
void sim_pause(void) { in_rt = 1; }
void sim_resume(void) { in_rt = 0; }
int sim_is_active(void) { return active; }
uint64_t sim_steps(void) { return S ? S->steps : 0; }
const void *sim_shm(void) { return S; }
__attribute__((destructor)) static void at_end(void) { if (active) sim_done(); }
