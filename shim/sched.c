// Cooperative scheduler for the threads of the harness.  Preloaded before
// librocksdb: every call of PoloDB into RocksDB which reads or changes shared
// state, and every wait of a Rust lock, becomes a point where the explorer
// decides which thread goes on.  Exactly one controlled thread runs at a time.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

#define MAXT 4
enum { K_START = 1, K_READ, K_LOCK, K_COMMIT, K_FUTEX, K_END };
enum { RUN, READY, BLK_LOCK, BLK_FUTEX, DONE };

typedef struct { int kind; uint64_t key; const void *txn; } op_t;
typedef struct { int enabled; int cur; int deadlock; int nthreads; op_t pend[MAXT]; } node_t;
typedef int (*choose_fn)(const node_t *);

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv[MAXT] = {PTHREAD_COND_INITIALIZER, PTHREAD_COND_INITIALIZER, PTHREAD_COND_INITIALIZER, PTHREAD_COND_INITIALIZER};
static choose_fn chooser;
static int nthreads, active, running, arrived;
static int st[MAXT], deliver[MAXT], timeouts[MAXT];
static op_t pend[MAXT];
static uint64_t blkver[MAXT];
static int *fut_addr[MAXT];
static int fut_val[MAXT];
static uint64_t relver;
static int stuck;
static __thread int self = -1;

// ---- exclusive locks of the transactions, as far as they are known here
#define MAXL 512
static struct { uint64_t key; const void *txn; int sp; } held[MAXL];
static int nheld;
static struct { const void *txn; int sp; int dirty; } tx[64];
static int ntx;

static int *txsp(const void *t, int make, int **dirty) {
  for (int i = 0; i < ntx; i++) if (tx[i].txn == t) { if (dirty) *dirty = &tx[i].dirty; return &tx[i].sp; }
  if (!make || ntx == 64) return NULL;
  tx[ntx].txn = t; tx[ntx].sp = 0; tx[ntx].dirty = 0;
  if (dirty) *dirty = &tx[ntx].dirty;
  return &tx[ntx++].sp;
}
static const void *owner(uint64_t k) { for (int i = 0; i < nheld; i++) if (held[i].key == k) return held[i].txn; return NULL; }
static void acquire(const void *t, uint64_t k) {
  for (int i = 0; i < nheld; i++) if (held[i].key == k && held[i].txn == t) return;
  int *d = NULL, *sp = txsp(t, 1, &d);
  if (d) *d = 1;
  if (nheld < MAXL) { held[nheld].key = k; held[nheld].txn = t; held[nheld].sp = sp ? *sp : 0; nheld++; }
}
static void release(const void *t, int from_sp) {
  int j = 0;
  for (int i = 0; i < nheld; i++) if (!(held[i].txn == t && held[i].sp >= from_sp)) held[j++] = held[i];
  nheld = j;
  relver++;
}
static int is_dirty(const void *t) { int *d = NULL; return txsp(t, 0, &d) && *d; }

static uint64_t hash(const char *p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 1099511628211ull; return h; }

static int enabled_one(int i) {
  switch (st[i]) {
    case READY: if (pend[i].kind == K_LOCK) { const void *o = owner(pend[i].key); if (o && o != pend[i].txn) return 0; } return 1;
    case BLK_LOCK: return blkver[i] != relver;
    case BLK_FUTEX: return __atomic_load_n(fut_addr[i], __ATOMIC_SEQ_CST) != fut_val[i];
    default: return 0;
  }
}

// with mu held: decide who runs next
static void dispatch(int cur) {
  node_t n; memset(&n, 0, sizeof n);
  int alive = 0, waiting = 0;
  for (int i = 0; i < nthreads; i++) {
    if (st[i] == DONE) continue;
    alive++;
    if (enabled_one(i)) n.enabled |= 1 << i;
    if (st[i] == BLK_LOCK || (st[i] == READY && pend[i].kind == K_LOCK)) waiting |= 1 << i;
    n.pend[i] = pend[i];
  }
  if (!alive) { running = -2; for (int i = 0; i < MAXT; i++) pthread_cond_broadcast(&cv[i]); return; }
  n.nthreads = nthreads;
  n.cur = (cur >= 0 && st[cur] != DONE && (n.enabled >> cur & 1)) ? cur : -1;
  if (!n.enabled) {
    if (!waiting) { // nobody can ever go on
      stuck = 1;
      fprintf(stderr, "sched: no thread can go on\n");
      _exit(86);
    }
    n.enabled = waiting; n.deadlock = 1;
  }
  int c = chooser(&n);
  if (n.deadlock) deliver[c] = 1;
  running = c;
  st[c] = RUN;
  pthread_cond_signal(&cv[c]);
}
static void wait_turn(int me) { while (running != me) pthread_cond_wait(&cv[me], &mu); }

static void point(int kind, uint64_t key, const void *txn, int state) {
  if (self < 0 || !active) return;
  int me = self;
  pthread_mutex_lock(&mu);
  pend[me].kind = kind; pend[me].key = key; pend[me].txn = txn;
  st[me] = state;
  if (state == BLK_LOCK) blkver[me] = relver;
  dispatch(me);
  wait_turn(me);
  pthread_mutex_unlock(&mu);
}

// ---- interface of the explorer
void vxs_begin(int n, choose_fn f) {
  pthread_mutex_lock(&mu);
  nthreads = n; chooser = f; active = 1; running = -1; arrived = 0; nheld = 0; ntx = 0; relver = 1;
  memset(st, 0, sizeof st); memset(deliver, 0, sizeof deliver); memset(timeouts, 0, sizeof timeouts); memset(pend, 0, sizeof pend);
  pthread_mutex_unlock(&mu);
}
void vxs_thread(int id) {
  pthread_mutex_lock(&mu);
  self = id; pend[id].kind = K_START; pend[id].key = 0; pend[id].txn = 0; st[id] = READY; arrived++;
  if (arrived == nthreads) dispatch(-1);
  wait_turn(id);
  pthread_mutex_unlock(&mu);
}
void vxs_thread_end(void) {
  pthread_mutex_lock(&mu);
  st[self] = DONE; int me = self; self = -1; dispatch(me);
  pthread_mutex_unlock(&mu);
}
void vxs_start(void) { point(K_START, 0, 0, READY); }
int vxs_timeouts(int id) { return timeouts[id]; }
void vxs_finish(void) { active = 0; }
int vxs_present(void) { return 1; }

// ---- RocksDB
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
typedef void T; typedef void O;
static int lock_failed(const char *e) { return e && (strstr(e, "timed out") || strstr(e, "imeout waiting") || strstr(e, "Resource busy")); }

// returns 1 when the call has to be repeated
static int after_lock(char **err, const void *t, uint64_t k, int exclusive) {
  if (self < 0 || !active) return 0;
  if (lock_failed(*err)) {
    if (deliver[self]) { deliver[self] = 0; timeouts[self]++; return 0; }
    free(*err); *err = NULL;
    point(K_LOCK, k, t, BLK_LOCK);
    return 1;
  }
  deliver[self] = 0;
  if (!*err) { pthread_mutex_lock(&mu); if (exclusive) acquire(t, k); else { int *d = NULL; txsp(t, 1, &d); if (d) *d = 1; } pthread_mutex_unlock(&mu); }
  return 0;
}

char *rocksdb_transaction_get(T *t, const O *o, const char *k, size_t n, size_t *vl, char **err) {
  REAL(char *, "rocksdb_transaction_get", T *, const O *, const char *, size_t, size_t *, char **);
  point(K_READ, hash(k, n), t, READY);
  return real(t, o, k, n, vl, err);
}
char *rocksdb_transaction_get_for_update(T *t, const O *o, const char *k, size_t n, size_t *vl, unsigned char ex, char **err) {
  REAL(char *, "rocksdb_transaction_get_for_update", T *, const O *, const char *, size_t, size_t *, unsigned char, char **);
  uint64_t h = hash(k, n);
  point(K_LOCK, h, t, READY);
  for (;;) { char *r = real(t, o, k, n, vl, ex, err); if (!after_lock(err, t, h, ex)) return r; }
}
void rocksdb_transaction_put(T *t, const char *k, size_t n, const char *v, size_t vn, char **err) {
  REAL(void, "rocksdb_transaction_put", T *, const char *, size_t, const char *, size_t, char **);
  uint64_t h = hash(k, n);
  point(K_LOCK, h, t, READY);
  for (;;) { real(t, k, n, v, vn, err); if (!after_lock(err, t, h, 1)) return; }
}
void rocksdb_transaction_delete(T *t, const char *k, size_t n, char **err) {
  REAL(void, "rocksdb_transaction_delete", T *, const char *, size_t, char **);
  uint64_t h = hash(k, n);
  point(K_LOCK, h, t, READY);
  for (;;) { real(t, k, n, err); if (!after_lock(err, t, h, 1)) return; }
}
static void released(T *t, int sp, int clean) {
  pthread_mutex_lock(&mu);
  release(t, sp);
  int *d = NULL;
  int *s = txsp(t, 0, &d);
  if (s && clean) { *d = 0; *s = 0; }
  if (s && !clean && *s > 0) (*s)--;
  pthread_mutex_unlock(&mu);
}
void rocksdb_transaction_commit(T *t, char **err) {
  REAL(void, "rocksdb_transaction_commit", T *, char **);
  int d = is_dirty(t);
  if (d) point(K_COMMIT, 0, t, READY);
  real(t, err);
  if (d) released(t, 0, 1);
}
void rocksdb_transaction_rollback(T *t, char **err) {
  REAL(void, "rocksdb_transaction_rollback", T *, char **);
  int d = is_dirty(t);
  if (d) point(K_COMMIT, 0, t, READY);
  real(t, err);
  if (d) released(t, 0, 1);
}
void rocksdb_transaction_set_savepoint(T *t) {
  REAL(void, "rocksdb_transaction_set_savepoint", T *);
  real(t);
  if (self >= 0 && active) { pthread_mutex_lock(&mu); int *s = txsp(t, 1, NULL); if (s) (*s)++; pthread_mutex_unlock(&mu); }
}
void rocksdb_transaction_rollback_to_savepoint(T *t, char **err) {
  REAL(void, "rocksdb_transaction_rollback_to_savepoint", T *, char **);
  int d = is_dirty(t);
  if (d) point(K_COMMIT, 0, t, READY);
  real(t, err);
  if (d) { int *s = txsp(t, 0, NULL); released(t, s ? *s : 0, 0); }
}
void rocksdb_transaction_destroy(T *t) {
  REAL(void, "rocksdb_transaction_destroy", T *);
  int d = is_dirty(t);
  if (d) point(K_COMMIT, 0, t, READY);
  real(t);
  if (d) released(t, 0, 1);
  if (self >= 0 && active) { pthread_mutex_lock(&mu); for (int i = 0; i < ntx; i++) if (tx[i].txn == t) { tx[i] = tx[--ntx]; break; } pthread_mutex_unlock(&mu); }
}
void *rocksdb_transaction_create_iterator(T *t, const O *o) {
  REAL(void *, "rocksdb_transaction_create_iterator", T *, const O *);
  point(K_READ, 0, t, READY);
  return real(t, o);
}
const void *rocksdb_transactiondb_create_snapshot(T *d) {
  REAL(const void *, "rocksdb_transactiondb_create_snapshot", T *);
  point(K_READ, 0, 0, READY);
  return real(d);
}
const void *rocksdb_transaction_get_snapshot(T *d) {
  REAL(const void *, "rocksdb_transaction_get_snapshot", T *);
  point(K_READ, 0, 0, READY);
  return real(d);
}
// waits for locks are the scheduler's business
void *rocksdb_transactiondb_open(const O *o, const O *to, const char *name, char **err) {
  REAL(void *, "rocksdb_transactiondb_open", const O *, const O *, const char *, char **);
  void (*set)(O *, int64_t) = (void (*)(O *, int64_t))dlsym(RTLD_NEXT, "rocksdb_transactiondb_options_set_transaction_lock_timeout");
  void (*set2)(O *, int64_t) = (void (*)(O *, int64_t))dlsym(RTLD_NEXT, "rocksdb_transactiondb_options_set_default_lock_timeout");
  if (set) set((O *)to, 0);
  if (set2) set2((O *)to, 0);
  return real(o, to, name, err);
}
void rocksdb_transaction_options_set_lock_timeout(O *o, int64_t v) { (void)o; (void)v; }

// ---- waits of Rust's locks
long syscall(long nr, ...) {
  va_list ap; va_start(ap, nr);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (nr == SYS_futex && self >= 0 && active) {
    int cmd = (int)b & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
      if (__atomic_load_n((int *)a, __ATOMIC_SEQ_CST) != (int)c) { errno = EAGAIN; return -1; }
      fut_addr[self] = (int *)a; fut_val[self] = (int)c;
      point(K_FUTEX, (uint64_t)a, 0, BLK_FUTEX);
      return 0;
    }
  }
  register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
  return ret;
}
