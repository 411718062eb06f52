/* simmem: decides what uninitialised memory holds.
 *
 * Handed to numpy as its data allocator: memory from np.empty & co. is filled
 * with a chosen byte, and memory given back is filled with it too, so that code
 * which reads what it did not write, or what it no longer owns, gets a value the
 * simulator chose instead of what happened to lie there.  numba's own
 * allocations are reached by glibc's M_PERTURB. */
#include <malloc.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

static unsigned char fill_ = 0x5a;
static int on_;
static int64_t n_alloc;

static void *m_malloc(void *ctx, size_t n) {
  void *p = malloc(n ? n : 1);
  if (p && on_) { memset(p, fill_, n); n_alloc++; }
  return p;
}
static void *m_calloc(void *ctx, size_t n, size_t s) {
  return calloc(n ? n : 1, s ? s : 1);
}
static void *m_realloc(void *ctx, void *p, size_t n) { return realloc(p, n ? n : 1); }
static void m_free(void *ctx, void *p, size_t n) {
  if (p && on_ && n) memset(p, fill_, n <= malloc_usable_size(p) ? n : 0);
  free(p);
}

static struct {
  char name[127];
  uint8_t version;
  void *ctx;
  void *(*malloc)(void *, size_t);
  void *(*calloc)(void *, size_t, size_t);
  void *(*realloc)(void *, void *, size_t);
  void (*free)(void *, void *, size_t);
} H = {"ssqsim", 1, 0, m_malloc, m_calloc, m_realloc, m_free};

void *sm_handler(void) { return &H; }
void sm_set(int byte) {
  if (byte < 0) { on_ = 0; mallopt(M_PERTURB, 0); return; }
  on_ = 1; fill_ = (unsigned char)byte;
  mallopt(M_PERTURB, (byte ^ 0xff) ? (byte ^ 0xff) : 0x80);
}
int64_t sm_count(void) { return n_alloc; }
