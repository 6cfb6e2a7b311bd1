#include "core.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace mfsim
{
const char *kind_name[K_N] = {"stall",        "latency",    "rendezvous",
                              "coll_sync",    "red_order",  "test_false",
                              "waitany_pick", "preempt",    "thread_pick",
                              "clock_jump",   "cb_throw",   "io_fault",
                              "freeze"};
Shm *g = nullptr;
int my_rank = -1;
bool in_sim = false;

static int cls(size_t n)
{
  int c = 5;
  while ((size_t(1) << c) < n)
    ++c;
  return c;
}
void *shm_alloc(size_t n)
{
  if (n == 0)
    n = 1;
  int c = cls(n);
  if (g->freelist[c])
  {
    void *p = g->freelist[c];
    g->freelist[c] = *static_cast<void **>(p);
    return p;
  }
  size_t s = size_t(1) << c;
  if (g->heap_cur + s > g->heap_end)
    fatal(5, "simulator shared heap exhausted");
  void *p = g->heap_cur;
  g->heap_cur += s;
  return p;
}
void shm_free(void *p, size_t n)
{
  if (!p)
    return;
  int c = cls(n ? n : 1);
  *static_cast<void **>(p) = g->freelist[c];
  g->freelist[c] = p;
}

uint64_t mix(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

uint64_t draw(Kind k)
{
  RankShm &r = g->rank[my_rank];
  uint64_t const ctr = r.counter[k]++;
  uint64_t const key = (uint64_t(my_rank) << 56) | (uint64_t(k) << 48) | ctr;
  uint64_t const h = mix(mix(g->cfg.seed) ^ key);
  bool on;
  if (g->cfg.replay)
    on = std::binary_search(g->enabled, g->enabled + g->n_enabled, key);
  else
    on = (h >> 11) * 0x1.0p-53 < g->cfg.p[k];
  if (!on)
    return 0;
  ++r.fired[k];
  if (g->n_rec < g->cap_rec)
    g->rec[g->n_rec++] = key;
  uint64_t v = mix(h ^ 0x5851f42d4c957f2dull) >> 1;
  trace("draw %s #%lu -> %lx", kind_name[k], (unsigned long)ctr,
        (unsigned long)(v & 0xffff));
  return v ? v : 1;
}

void trace(char const *fmt, ...)
{
  if (!g || g->trace_fd <= 0)
    return;
  char buf[600];
  int n = snprintf(buf, sizeof buf, "[%10lu ns] r%d ",
                   my_rank >= 0 ? (unsigned long)g->rank[my_rank].clock : 0ul,
                   my_rank);
  va_list ap;
  va_start(ap, fmt);
  n += vsnprintf(buf + n, sizeof buf - n - 1, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 2)
    n = sizeof buf - 2;
  buf[n++] = '\n';
  (void)!syscall(SYS_write, g->trace_fd, buf, n);
}

void note(uint64_t a, uint64_t b, uint64_t c, uint64_t d)
{
  g->hash = mix(g->hash ^ mix(a + 0x100 * b) ^ mix(c * 0x10001 + d));
}

void hard_exit(int code)
{
  in_sim = false;
  syscall(SYS_exit_group, code);
  __builtin_unreachable();
}

static void futex_wake(int *f)
{
  __atomic_store_n(f, 1, __ATOMIC_SEQ_CST);
  syscall(SYS_futex, f, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}
static void futex_wait(int *f)
{
  while (!__atomic_load_n(f, __ATOMIC_SEQ_CST))
    syscall(SYS_futex, f, FUTEX_WAIT, 0, nullptr, nullptr, 0);
  __atomic_store_n(f, 0, __ATOMIC_SEQ_CST);
}

void fatal(int verdict, char const *fmt, ...)
{
  if (g && !g->verdict)
  {
    g->verdict = verdict;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g->what, sizeof g->what, fmt, ap);
    va_end(ap);
    trace("FATAL %d: %s", verdict, g->what);
  }
  else if (!g)
    fprintf(stderr, "mfsim: %s\n", fmt);
  if (g)
    futex_wake(&g->main_futex);
  hard_exit(99);
}

void fail_property(char const *fmt, ...)
{
  char buf[1900];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  fatal(1, "%s", buf);
}

// Pick the next rank and hand the token over; returns when we hold it again.
static void reschedule()
{
  if (++g->steps > g->cfg.max_steps)
    fatal(3, "no progress: step limit %lu reached (rank %d in %s)",
          (unsigned long)g->cfg.max_steps, my_rank, g->rank[my_rank].where);
  int best = -1;
  bool all_done = true;
  for (int r = 0; r < g->cfg.nranks; ++r)
  {
    RankShm &x = g->rank[r];
    if (x.state == S_READY || x.state == S_BLOCKED)
    {
      all_done = false;
      if (x.wake != INF && (best < 0 || x.wake < g->rank[best].wake))
        best = r;
    }
  }
  if (best < 0)
  {
    if (all_done)
    {
      futex_wake(&g->main_futex);
      return;
    }
    char buf[1800];
    int n = 0;
    for (int r = 0; r < g->cfg.nranks; ++r)
      n += snprintf(buf + n, n < 1700 ? sizeof buf - n : 0, "; rank %d: %s", r,
                    g->rank[r].state == S_DONE ? "finished"
                                               : g->rank[r].where);
    fatal(2, "deadlock%s", buf);
  }
  RankShm &b = g->rank[best];
  if (b.clock < b.wake)
    b.clock = b.wake;
  if (best == my_rank)
    return;
  note(1, best, b.clock);
  futex_wake(&b.futex);
  if (my_rank >= 0 && g->rank[my_rank].state != S_DONE)
    futex_wait(&g->rank[my_rank].futex);
}

void yield_ready()
{
  RankShm &r = g->rank[my_rank];
  r.state = S_READY;
  r.wake = r.clock;
  reschedule();
}

void block(char const *where)
{
  RankShm &r = g->rank[my_rank];
  ++r.n_block;
  snprintf(r.where, sizeof r.where, "%s", where);
  r.state = S_BLOCKED;
  // r.wake was set by the caller to the next inbound event (or INF)
  reschedule();
  r.state = S_READY;
}

void wake_rank(int r, uint64_t t)
{
  RankShm &x = g->rank[r];
  if (x.state == S_BLOCKED && t < x.wake)
    x.wake = t < x.clock ? x.clock : t;
}

void rank_start()
{
  futex_wait(&g->rank[my_rank].futex);
  in_sim = true;
}

void rank_finish()
{
  in_sim = false;
  RankShm &r = g->rank[my_rank];
  r.state = S_DONE;
  r.wake = INF;
  if (r.clock > g->sim_ns)
    g->sim_ns = r.clock;
  reschedule();
}

void emit(std::string const &name, std::vector<double> const &v)
{
  if (g->n_blob >= g->cap_blob)
    fatal(5, "too many outputs");
  Blob &b = g->blob[g->n_blob++];
  snprintf(b.name, sizeof b.name, "%s", name.c_str());
  b.rank = my_rank;
  b.n = v.size();
  b.data = static_cast<double *>(shm_alloc(8 * v.size()));
  memcpy(b.data, v.data(), 8 * v.size());
}
} // namespace mfsim
