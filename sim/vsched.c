/* vsched: a deterministic replacement for numba's threading layer.
 *
 * Every `prange` / auto-parallelised region that numba compiled calls
 * numba_parallel_for().  This file provides that symbol (and its companions)
 * and runs the region's chunks as *virtual threads inside one OS thread*.
 * Which iterations form a chunk, which thread runs which chunk, and at which
 * machine instruction one thread is preempted in favour of another is decided
 * by a seeded PRNG (or by a recorded trace).  Preemption is done with the x86
 * trap flag: each instruction of the compiled kernel raises SIGTRAP in this
 * same thread and the handler swaps register files.
 */
#define _GNU_SOURCE
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <fcntl.h>

typedef int64_t i64;
typedef uint64_t u64;
typedef void (*kern_t)(char **, i64 *, i64 *, void *);

#define MAXT 16
#define FPMAX 16384
#define STK (1 << 20)
#define MAXTRACE (1 << 20)
#define MAXDIM 8

enum { M_NATIVE = 0, M_STEP = 1 };
enum { P_UNIFORM = 0, P_PCT = 1, P_BURST = 2, P_REPLAY = 3 };

static struct {
  int nthreads, mode, policy, ndiv_hint;
  int p16;                 /* switch probability in 1/65536 per kernel instr  */
  i64 max_steps;           /* single-step budget for the whole run            */
  int pct_depth; i64 pct_len;
} C = {1, M_NATIVE, P_UNIFORM, 0, 6553, 1 << 20, 3, 4096};

static u64 rs = 1;                        /* schedule PRNG                     */
static u64 rnd(void) {
  u64 z = (rs += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static u64 rndn(u64 n) { return n ? rnd() % n : 0; }

/* statistics and trace */
static i64 n_regions, n_tasks, n_steps, n_jit, n_switch, n_ff;
static u64 hash_ = 1469598103934665603ULL;
static void mix(u64 v) { hash_ = (hash_ ^ v) * 1099511628211ULL; }
static i64 *trace; static i64 ntrace;          /* (jitstep, to) pairs          */
static const i64 *rtrace; static i64 nrtrace, rpos;   /* replay                */
static i64 *plan; static i64 nplan, planpos; static int plan_replay;
/* `plan` records the non-preemption decisions (partition, order, ownership).  */

static i64 decide(i64 fresh) {
  if (plan_replay) return planpos < nplan ? plan[planpos++] : fresh;
  if (nplan < MAXTRACE) plan[nplan++] = fresh;
  return fresh;
}

struct vt {
  gregset_t g; uint8_t *fp; size_t fplen;
  char *stk; volatile int done; int started;
  i64 *tasks; i64 ntasks; u64 prio;
};
static struct vt V[MAXT], MAINV;
static volatile int active, cur, nlive_total, stepping;
static __thread int region_tid;
static i64 pct_points[64]; static int npct;

struct region { kern_t fn; char **args; i64 *dims, *steps; void *data; i64 nd, na; };
static struct region *G;                  /* the region being stepped           */

static void run_task(struct region *g, i64 t) {
  char *a[64]; i64 d[64];
  for (i64 k = 0; k < g->na && k < 64; k++) a[k] = g->args[k] + t * g->steps[k];
  for (i64 k = 0; k < g->nd + 1 && k < 64; k++) d[k] = g->dims[k];
  d[0] = 1;
  g->fn(a, d, g->steps, g->data);
}

/* called between the chunks of a region when callers are simulated too        */
static void (*yield_)(i64);
void vs_set_yield(void (*f)(i64)) { yield_ = f; }
static i64 skip_regions;                  /* stepping starts after this many    */
void vs_set_skip(i64 n) { skip_regions = n; }

/* executable anonymous mappings = compiled kernels; simgpu.*.so = GPU kernels */
static uintptr_t jl[4096], jh[4096]; static int nj;
static void scan_maps(void) {
  static char buf[1 << 20];
  int fd = open("/proc/self/maps", O_RDONLY); ssize_t n = 0, r;
  if (fd < 0) return;
  while (n < (ssize_t)sizeof buf - 1 && (r = read(fd, buf + n, sizeof buf - 1 - n)) > 0) n += r;
  close(fd); buf[n] = 0; nj = 0;
  for (char *p = buf; *p; ) {
    char *e = strchr(p, '\n'); if (!e) break; *e = 0;
    unsigned long lo, hi, ino = 1; char pr[8]; char off[32], dev[32];
    if (sscanf(p, "%lx-%lx %7s %31s %31s %lu", &lo, &hi, pr, off, dev, &ino) >= 6 &&
        pr[2] == 'x' && ((ino == 0 && !strchr(p, '[')) || strstr(p, "/simgpu.")) &&
        nj < 4096) {
      jl[nj] = lo; jh[nj] = hi; nj++;
    }
    p = e + 1;
  }
}
static int in_jit(uintptr_t ip) {
  int lo = 0, hi = nj;
  while (lo < hi) { int m = (lo + hi) / 2; if (jh[m] <= ip) lo = m + 1; else hi = m; }
  return lo < nj && jl[lo] <= ip;
}

static size_t fpsize(void *fp) {
  uint32_t *sw = (uint32_t *)((uint8_t *)fp + 464);
  size_t n = (sw[0] == 0x46505853U) ? sw[1] : 512;
  return n > FPMAX ? FPMAX : n;
}
static void save(struct vt *v, ucontext_t *u) {
  memcpy(v->g, u->uc_mcontext.gregs, sizeof(gregset_t));
  v->fplen = fpsize(u->uc_mcontext.fpregs);
  memcpy(v->fp, u->uc_mcontext.fpregs, v->fplen);
}
static void load(struct vt *v, ucontext_t *u, int tf) {
  memcpy(u->uc_mcontext.gregs, v->g, sizeof(gregset_t));
  memcpy(u->uc_mcontext.fpregs, v->fp, v->fplen);
  if (tf) u->uc_mcontext.gregs[REG_EFL] |= 0x100;
  else    u->uc_mcontext.gregs[REG_EFL] &= ~0x100LL;
}

static void tramp(void) {
  int me = cur;
  for (i64 i = 0; i < V[me].ntasks; i++) run_task(G, V[me].tasks[i]);
  V[me].done = 1;
  __asm__ volatile("int3");
  for (;;) __asm__ volatile("pause");
}

static int live(int *out) {
  int n = 0;
  for (int i = 0; i < nlive_total; i++) if (!V[i].done) out[n++] = i;
  return n;
}
static void enter(int t, ucontext_t *u) {
  cur = t; region_tid = t;
  if (!V[t].started) {
    V[t].started = 1;
    memcpy(V[t].g, MAINV.g, sizeof(gregset_t));
    memcpy(V[t].fp, MAINV.fp, MAINV.fplen); V[t].fplen = MAINV.fplen;
    uintptr_t sp = ((uintptr_t)(V[t].stk + STK - 256)) & ~(uintptr_t)63;
    V[t].g[REG_RSP] = (greg_t)(sp - 8);
    V[t].g[REG_RIP] = (greg_t)(uintptr_t)tramp;
  }
  load(&V[t], u, stepping);
}
static void rec(i64 step, int to) {
  mix((u64)step * 31 + to); n_switch++;
  if (ntrace + 2 <= MAXTRACE) { trace[ntrace++] = step; trace[ntrace++] = to; }
}
static int pick_next(int *lv, int n) {         /* forced choice: cur is done   */
  if (C.policy == P_REPLAY) {
    while (rpos + 1 < nrtrace && rtrace[rpos] >= 0 && rtrace[rpos] <= n_jit) rpos += 2;
    if (rpos + 1 < nrtrace && rtrace[rpos] < 0) {
      int t = (int)rtrace[rpos + 1]; rpos += 2;
      for (int i = 0; i < n; i++) if (lv[i] == t) return t;
    }
    return lv[0];
  }
  if (C.policy == P_PCT) {
    int b = lv[0];
    for (int i = 1; i < n; i++) if (V[lv[i]].prio > V[b].prio) b = lv[i];
    return b;
  }
  return lv[rndn(n)];
}

static i64 burst_left;
static void handler(int s, siginfo_t *si, void *uv) {
  ucontext_t *u = uv; int lv[MAXT], n;
  (void)s; (void)si;
  if (!active) { u->uc_mcontext.gregs[REG_EFL] &= ~0x100LL; return; }
  if (cur < 0) {                                   /* region start              */
    save(&MAINV, u); MAINV.g[REG_EFL] &= ~0x100LL;
    n = live(lv); int t = pick_next(lv, n); rec(-1 - n_jit, t); enter(t, u); return;
  }
  if (V[cur].done) {
    n = live(lv);
    if (!n) { active = 0; load(&MAINV, u, 0); return; }
    int t = pick_next(lv, n); rec(-1 - n_jit, t); enter(t, u); return;
  }
  n_steps++;
  /* budget spent: run to the end. It counts kernel instructions only, as others
     (malloc's, say) can vary from one process to the next                      */
  if (n_jit >= C.max_steps || n_steps > 40 * C.max_steps) {
    stepping = 0; n_ff++; u->uc_mcontext.gregs[REG_EFL] &= ~0x100LL; return;
  }
  if (!in_jit((uintptr_t)u->uc_mcontext.gregs[REG_RIP])) return;
  n_jit++;
  int t = -1;
  switch (C.policy) {
  case P_REPLAY:
    if (rpos + 1 < nrtrace && rtrace[rpos] >= 0 && rtrace[rpos] <= n_jit) {
      int exact = rtrace[rpos] == n_jit; t = (int)rtrace[rpos + 1]; rpos += 2;
      if (!exact || t == cur) t = -1;
    }
    break;
  case P_UNIFORM:
    if ((i64)(rnd() & 65535) < C.p16) { n = live(lv); t = lv[rndn(n)]; if (t == cur) t = -1; }
    break;
  case P_BURST:
    if (--burst_left <= 0) {
      u64 r = rnd();
      burst_left = (r & 7) ? 1 + (i64)((r >> 8) % 12) : 1 + (i64)((r >> 8) % 400);
      n = live(lv); t = lv[rndn(n)]; if (t == cur) t = -1;
    }
    break;
  case P_PCT:
    for (int i = 0; i < npct; i++) if (pct_points[i] == n_jit) {
      V[cur].prio = (u64)(npct - i);
      n = live(lv); t = pick_next(lv, n); if (t == cur) t = -1;
    }
    break;
  }
  if (t >= 0 && t < nlive_total && !V[t].done && t != cur) {
    save(&V[cur], u); rec(n_jit, t); enter(t, u);
  }
}

static int inited;
static char *altstk;
static void init(void) {
  if (inited) return;
  inited = 1;
  trace = mmap(0, MAXTRACE * 8 + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  plan  = mmap(0, MAXTRACE * 8 + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < MAXT; i++) {
    V[i].stk = mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    V[i].fp = aligned_alloc(64, FPMAX);
  }
  MAINV.fp = aligned_alloc(64, FPMAX);
  altstk = mmap(0, 1 << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
}
static void arm(void) {
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstk; ss.ss_size = 1 << 17;
  sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  sigaction(SIGTRAP, &sa, 0);
}

/* ---- symbols numba-compiled code links against --------------------------- */
static __thread int in_region;
static __thread int cuts[MAXDIM]; static __thread int ncuts;
static i64 chunksize_;

i64 vs_get_num_threads(void) { return C.nthreads; }
void vs_set_num_threads(int n) { (void)n; }
int vs_get_thread_id(void) { return in_region ? region_tid : 0; }
u64 vs_get_chunksize(void) { return chunksize_; }
u64 vs_set_chunksize(u64 n) { u64 o = chunksize_; chunksize_ = n; return o; }

u64 vs_get_sched_size(u64 nt, u64 nd, i64 *st, i64 *en) {
  (void)nt;
  init();
  ncuts = (int)nd;
  u64 prod = 1;
  if (in_region) {                      /* nested region: one division          */
    for (u64 d = 0; d < nd; d++) cuts[d] = 1;
    return 1;
  }
  for (u64 d = 0; d < nd; d++) {
    i64 L = en[d] - st[d] + 1;
    if (L <= 0) { for (u64 e = 0; e < nd; e++) cuts[e] = 1; return 1; }
  }
  u64 want = C.ndiv_hint > 0 ? (u64)C.ndiv_hint : (u64)C.nthreads;
  for (u64 d = 0; d < nd; d++) {
    i64 L = en[d] - st[d] + 1;
    u64 room = want / prod; if (room < 1) room = 1;
    u64 c = (nd - d > 1) ? 1 + rndn(room) : room;
    if (d > 0 && d == nd - 1) c = room;
    if ((i64)c > L) c = (u64)L;
    c = (u64)decide((i64)c); if ((i64)c > L) c = (u64)L;
    if (c < 1) c = 1;
    cuts[d] = (int)c; prod *= c;
  }
  return prod;
}

static int cmp(const void *a, const void *b) {
  i64 x = *(const i64 *)a, y = *(const i64 *)b; return (x > y) - (x < y);
}
void vs_do_scheduling(u64 nd, i64 *st, i64 *en, u64 ndiv, i64 *sched, i64 dbg) {
  (void)dbg;
  if (ndiv == 1) {
    for (u64 d = 0; d < nd; d++) { sched[d] = st[d]; sched[nd + d] = en[d]; }
    return;
  }
  i64 *cp[MAXDIM];
  for (u64 d = 0; d < nd; d++) {
    int c = cuts[d]; i64 L = en[d] - st[d] + 1;
    cp[d] = malloc(sizeof(i64) * (c + 1));
    /* c-1 distinct cut points in 1..L-1 */
    if (c >= L) { for (int i = 0; i <= c; i++) cp[d][i] = i < L ? i : L; }
    else if ((i64)decide((i64)(rnd() & 1))) {         /* even split               */
      for (int i = 0; i <= c; i++) cp[d][i] = L * i / c;
    } else {
      for (int i = 1; i < c; i++) {
      again:; i64 v = 1 + (i64)rndn(L - 1);
        for (int k = 1; k < i; k++) if (cp[d][k] == v) goto again;
        cp[d][i] = v;
      }
      cp[d][0] = 0; cp[d][c] = L;
      for (int i = 1; i < c; i++) cp[d][i] = decide(cp[d][i]);
      qsort(cp[d], c + 1, sizeof(i64), cmp);
    }
  }
  for (u64 t = 0; t < ndiv; t++) {
    u64 r = t;
    for (u64 d = 0; d < nd; d++) {
      int c = cuts[d]; int k = (int)(r % c); r /= c;
      sched[t * 2 * nd + d] = st[d] + cp[d][k];
      sched[t * 2 * nd + nd + d] = st[d] + cp[d][k + 1] - 1;
    }
  }
  for (u64 d = 0; d < nd; d++) free(cp[d]);
}
i64 *vs_allocate_sched(u64 n) { return malloc(n * sizeof(i64)); }
void vs_deallocate_sched(i64 *p) { free(p); }

void vs_parallel_for(void *fn, char **args, i64 *dims, i64 *steps, void *data,
                     i64 inner_ndim, i64 array_count, i64 num_threads) {
  (void)num_threads;
  init();
  if (in_region) {                     /* nested: run serially in place          */
    ((kern_t)fn)(args, dims, steps, data);
    return;
  }
  i64 nt = dims[0];
  n_regions++; n_tasks += nt;
  struct region g = {(kern_t)fn, args, dims, steps, data, inner_ndim, array_count};
  i64 *ord = malloc(sizeof(i64) * (nt + 1));
  for (i64 i = 0; i < nt; i++) ord[i] = i;
  for (i64 i = nt - 1; i > 0; i--) {
    i64 k = decide((i64)rndn(i + 1)); if (k > i) k = i;
    i64 x = ord[i]; ord[i] = ord[k]; ord[k] = x;
  }
  int T = C.nthreads < nt ? C.nthreads : (int)nt;
  if (T < 1) T = 1;
  if (T > MAXT) T = MAXT;
  in_region = 1;
  mix(0xabc + nt * 7 + T);
  for (i64 i = 0; i < nt; i++) mix(ord[i]);
  if (C.mode == M_NATIVE || T == 1 || n_jit >= C.max_steps ||
      n_regions <= skip_regions) {
    for (i64 i = 0; i < nt; i++) {
      region_tid = (int)(i % T);
      run_task(&g, ord[i]);
      if (yield_) yield_(i + 1 < nt);
    }
  } else {
    i64 *own = malloc(sizeof(i64) * (nt + 1));
    for (int t = 0; t < T; t++) { V[t].ntasks = 0; V[t].tasks = malloc(sizeof(i64) * (nt + 1));
                                  V[t].done = 0; V[t].started = 0; }
    for (i64 i = 0; i < nt; i++) {
      int t = i < T ? (int)i : (int)decide((i64)rndn(T));
      if (t >= T) t = 0;
      own[i] = t; V[t].tasks[V[t].ntasks++] = ord[i];
    }
    for (int t = 0; t < T; t++) V[t].prio = 1000 + (rnd() >> 12);
    if (C.policy == P_PCT) {
      npct = C.pct_depth > 60 ? 60 : C.pct_depth;
      for (int i = 0; i < npct; i++) pct_points[i] = n_jit + 1 + (i64)rndn(C.pct_len);
    }
    G = &g; nlive_total = T; scan_maps(); arm();
    cur = -1; stepping = 1; burst_left = 1;
    __sync_synchronize();
    active = 1;
    __asm__ volatile("int3" ::: "memory", "cc");
    active = 0;
    for (int t = 0; t < T; t++) free(V[t].tasks);
    free(own);
  }
  in_region = 0;
  free(ord);
}

/* ---- control ------------------------------------------------------------- */
void vs_reset(u64 seed, int nthreads, int mode, int policy, int ndiv, int p16,
              i64 max_steps, int pct_depth, i64 pct_len) {
  init();
  rs = seed * 0x9e3779b97f4a7c15ULL + 77;
  C.nthreads = nthreads < 1 ? 1 : (nthreads > MAXT ? MAXT : nthreads);
  C.mode = mode; C.policy = policy; C.ndiv_hint = ndiv; C.p16 = p16;
  C.max_steps = max_steps; C.pct_depth = pct_depth; C.pct_len = pct_len;
  n_regions = n_tasks = n_steps = n_jit = n_switch = n_ff = 0;
  hash_ = 1469598103934665603ULL; ntrace = 0; nplan = 0; planpos = 0; plan_replay = 0;
  rtrace = 0; nrtrace = rpos = 0; in_region = 0; active = 0; skip_regions = 0;
}
static i64 *rbuf;
void vs_set_replay(const i64 *tr, i64 n, const i64 *pl, i64 m) {
  free(rbuf); rbuf = malloc(8 * (n + 2)); memcpy(rbuf, tr, 8 * n);
  rtrace = rbuf; nrtrace = n; rpos = 0; C.policy = P_REPLAY;
  memcpy(plan, pl, 8 * m); nplan = m; planpos = 0; plan_replay = 1;
}
void vs_stats(i64 *o) {
  o[0] = n_regions; o[1] = n_tasks; o[2] = n_steps; o[3] = n_jit; o[4] = n_switch;
  o[5] = (i64)(hash_ & 0x7fffffffffffffffULL); o[6] = ntrace; o[7] = nplan; o[8] = n_ff;
}
const i64 *vs_trace(void) { return trace; }
const i64 *vs_plan(void) { return plan; }
