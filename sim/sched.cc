// mfsim: WorkStream threads under a simulated scheduler, and the seams for
// locks, clocks, allocation, callbacks and write(2).
#include "core.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <exception>
#include <functional>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <stdexcept>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

using namespace mfsim;

namespace
{
int constexpr max_threads = 8;
enum TS
{
  T_READY,
  T_BLOCKED, // waiting for work, order or slot
  T_MUTEX,
  T_DONE
};
struct SimThread
{
  int futex = 0;
  TS state = T_READY;
  void *mutex = nullptr;
  bool in_item = false;
  int frozen = 0; // until that many items have been finished
};
SimThread th[max_threads];
int n_th = 0;
bool volatile ws_active = false;
int ws_cur = 0;
long ws_budget = 0;
uint32_t constexpr max_cold = 1 << 20;
uint8_t cold[max_cold]; // how often a basic block was entered, up to a limit
thread_local int my_tid = -1;
thread_local int no_preempt = 0;

void fwake(int *f)
{
  __atomic_store_n(f, 1, __ATOMIC_SEQ_CST);
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
void fwait(int *f)
{
  while (!__atomic_load_n(f, __ATOMIC_SEQ_CST))
    syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(f, 0, __ATOMIC_SEQ_CST);
}

void wsnote(uint64_t a, uint64_t b)
{
  g->ws_hash = mix(g->ws_hash ^ (a * 1000003 + b + 7));
  note(9, a, b, my_rank);
}

void switch_to(int t)
{
  int const me = my_tid;
  if (t == me)
    return;
  RankShm &r = g->rank[my_rank];
  ++r.n_ws_switch;
  int busy = 0;
  for (int i = 0; i < n_th; ++i)
    busy += th[i].in_item;
  if (busy > 1)
    ++r.n_ws_overlap;
  if ((uint64_t)busy > r.n_ws_maxpar)
    r.n_ws_maxpar = busy;
  wsnote(20, t);
  ws_cur = t;
  ws_budget = g->cfg.ws_quantum;
  fwake(&th[t].futex);
  if (th[me].state != T_DONE)
    fwait(&th[me].futex);
}

// pick among the ready threads (other than me unless I am ready)
int pick(uint64_t d)
{
  int c[max_threads], n = 0;
  for (int i = 0; i < n_th; ++i)
    if (th[i].state == T_READY && !th[i].frozen)
      c[n++] = i;
  if (!n)
  {
    // nobody else can go on: thaw
    for (int i = 0; i < n_th; ++i)
    {
      th[i].frozen = 0;
      if (th[i].state == T_READY)
        c[n++] = i;
    }
  }
  if (!n)
    return -1;
  if (!d)
  {
    // default: round robin from me
    for (int k = 1; k <= n_th; ++k)
    {
      int i = (my_tid + k) % n_th;
      if (th[i].state == T_READY && !th[i].frozen)
        return i;
    }
  }
  return c[d % n];
}

void give_up(char const *why)
{
  int t = pick(draw(K_PICK));
  if (t < 0)
    fatal(2, "deadlock between WorkStream workers of rank %d (%s)", my_rank,
          why);
  switch_to(t);
}

void preempt(uint64_t d)
{
  int t = pick(d);
  if (t >= 0 && t != my_tid)
    switch_to(t);
}

bool can_preempt()
{
  return ws_active && my_tid >= 0 && my_tid == ws_cur && !no_preempt;
}
} // namespace

namespace mfsim
{
bool alloc_armed = false;
bool cb_armed = false;
std::vector<double> cb_epochs;

void ws_yield(int weight)
{
  if (!can_preempt())
    return;
  for (int i = 0; i < weight; ++i)
    if (uint64_t d = draw(K_PRE))
    {
      preempt(d);
      return;
    }
}

int ws_threads() { return in_sim ? g->cfg.ws_threads : 1; }
int ws_chunk(int asked) { return g->cfg.ws_chunk ? g->cfg.ws_chunk : asked; }
int ws_slots(int asked)
{
  (void)asked;
  return g->cfg.ws_queue ? g->cfg.ws_queue : 2 * g->cfg.ws_threads;
}

void ws_item(bool begin, long index)
{
  if (!in_sim)
    return;
  if (my_tid >= 0)
    th[my_tid].in_item = begin;
  if (begin)
    ++g->rank[my_rank].n_ws_items;
  else
    for (int i = 0; i < n_th; ++i)
      if (th[i].frozen)
        --th[i].frozen;
  wsnote(begin ? 21 : 22, index * 16 + my_tid + 1);
  trace("WorkStream thread %d %s item %ld", my_tid, begin ? "begins" : "ends",
        index);
  if (begin)
    ws_yield(1);
}

struct Engine
{
  long n_chunks;
  int n_slots;
  bool ordered;
  std::function<void(int, int, long)> const *work;
  std::function<void(int, long)> const *copy;
  long next_chunk = 0, next_copy = 0;
  bool copying = false, stop = false;
  std::exception_ptr error;
  std::vector<int> slot_chunk; // chunk living in the slot, -1 free
  std::vector<char> slot_done;

  void wake_all()
  {
    for (int i = 0; i < n_th; ++i)
      if (th[i].state == T_BLOCKED)
        th[i].state = T_READY;
  }
  int slot_of(long chunk)
  {
    for (int s = 0; s < n_slots; ++s)
      if (slot_chunk[s] == chunk)
        return s;
    return -1;
  }
  void loop(int tid)
  {
    for (;;)
    {
      if (stop)
        break;
      if (ordered && !copying && next_copy < n_chunks)
      {
        int s = slot_of(next_copy);
        if (s >= 0 && slot_done[s])
        {
          copying = true;
          wsnote(23, next_copy);
          trace("WorkStream thread %d copies chunk %ld", tid, next_copy);
          try
          {
            (*copy)(s, next_copy);
          }
          catch (...)
          {
            if (!error)
              error = std::current_exception();
            stop = true;
          }
          copying = false;
          slot_chunk[s] = -1;
          slot_done[s] = 0;
          ++next_copy;
          wake_all();
          continue;
        }
      }
      if (next_chunk < n_chunks)
      {
        int s = slot_of(-1);
        if (s >= 0)
        {
          long c = next_chunk++;
          slot_chunk[s] = c;
          slot_done[s] = 0;
          try
          {
            (*work)(s, tid, c);
          }
          catch (...)
          {
            if (!error)
              error = std::current_exception();
            stop = true;
          }
          th[tid].in_item = false;
          slot_done[s] = 1;
          if (!ordered)
          {
            slot_chunk[s] = -1;
            ++next_copy;
          }
          wake_all();
          ws_yield(1);
          continue;
        }
      }
      else if (next_copy >= n_chunks || !ordered)
        break;
      th[tid].state = T_BLOCKED;
      give_up("waiting for a chunk");
    }
    wake_all();
  }
};
static Engine *eng;

// The workers live as long as their rank, like those of a real task scheduler
// (what a library keeps per thread is then kept once); between two WorkStream
// runs they are parked.
static int pool_size = 1; // workers 1..pool_size-1 exist
static pthread_t pool[max_threads];
static int pool_go[max_threads], pool_parked[max_threads];

static void *thread_main(void *p)
{
  int const tid = (int)(long)p;
  worker_library_init();
  fwake(&pool_parked[tid]);
  for (;;)
  {
    fwait(&pool_go[tid]);
    my_tid = tid;
    fwait(&th[tid].futex);
    eng->loop(tid);
    th[tid].state = T_DONE;
    // hand over to anybody still alive; the main thread (0) outlives all
    int t = pick(draw(K_PICK));
    if (t < 0)
      fatal(2, "deadlock between WorkStream workers of rank %d (exit)",
            my_rank);
    switch_to(t);
    fwait(&th[tid].futex); // park one at a time
    my_tid = -1;
    fwake(&pool_parked[tid]);
  }
  return nullptr;
}

void ws_engine(long n_chunks, int n_threads, int n_slots, bool ordered,
               std::function<void(int, int, long)> const &work,
               std::function<void(int, long)> const &copy)
{
  if (!in_sim || n_threads <= 1 || ws_active)
  {
    for (long c = 0; c < n_chunks; ++c)
    {
      work(0, 0, c);
      if (ordered)
        copy(0, c);
    }
    if (in_sim)
      ++g->rank[my_rank].n_ws_run;
    return;
  }
  RankShm &r = g->rank[my_rank];
  ++r.n_ws_run;
  Engine e;
  e.n_chunks = n_chunks;
  e.n_slots = n_slots;
  e.ordered = ordered;
  e.work = &work;
  e.copy = &copy;
  e.slot_chunk.assign(n_slots, -1);
  e.slot_done.assign(n_slots, 0);
  eng = &e;
  n_th = n_threads;
  for (int i = 0; i < n_th; ++i)
    th[i] = SimThread();
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 8 << 20);
  bool const armed = alloc_armed;
  alloc_armed = false;
  for (; pool_size < n_th; ++pool_size)
  {
    if (pthread_create(&pool[pool_size], &at, thread_main,
                       (void *)(long)pool_size))
      fatal(5, "pthread_create");
    fwait(&pool_parked[pool_size]);
  }
  alloc_armed = armed;
  pthread_attr_destroy(&at);
  for (int i = 1; i < n_th; ++i)
    fwake(&pool_go[i]);
  my_tid = 0;
  ws_cur = 0;
  ws_budget = g->cfg.ws_quantum;
  memset(cold, 0, sizeof cold);
  ws_active = true;
  e.loop(0);
  // let the others finish
  for (;;)
  {
    bool alive = false;
    for (int i = 1; i < n_th; ++i)
      alive |= th[i].state != T_DONE;
    if (!alive)
      break;
    e.wake_all();
    int next = -1;
    for (int i = 1; i < n_th; ++i)
      if (th[i].state == T_READY)
      {
        next = i;
        break;
      }
    if (next < 0)
      fatal(2, "deadlock between WorkStream workers of rank %d (join)",
            my_rank);
    switch_to(next);
  }
  ws_active = false;
  my_tid = -1;
  for (int i = 1; i < n_th; ++i)
  {
    fwake(&th[i].futex);
    fwait(&pool_parked[i]);
  }
  eng = nullptr;
  r.clock += 20000;
  if (e.error)
    std::rethrow_exception(e.error);
}

// exceptions of users come in all shapes
template <typename B>
struct InjectedAs : InjectedFault, B
{
  template <typename... A>
  InjectedAs(int k, A &&... a) : InjectedFault{k}, B(a...)
  {
  }
};
[[noreturn]] static void throw_injected(int k)
{
  switch (g->cfg.cb_class)
  {
  case 1: throw InjectedAs<std::runtime_error>(k, "injected runtime_error");
  case 2: throw InjectedAs<std::logic_error>(k, "injected logic_error");
  case 3: throw InjectedAs<std::bad_alloc>(k);
  case 4: throw InjectedAs<std::exception>(k);
  case 5: throw InjectedAs<std::out_of_range>(k, "injected out_of_range");
  default: throw InjectedFault{k};
  }
}

void callback_point(char const *name)
{
  if (!in_sim)
    return;
  RankShm &r = g->rank[my_rank];
  note(30, name[0] + 256 * name[1]);
  ++r.n_cb_all;
  uint64_t const k = cb_armed ? r.n_cb++ : ~0ull;
  if (cb_armed && cb_epochs.size() < cb_epochs.capacity())
    cb_epochs.push_back(r.n_coll);
  ws_yield(2);
  int const at = g->cfg.cb_fail_at[my_rank];
  if (at >= 0 && k == (uint64_t)at)
  {
    ++r.n_cb_throw;
    ++r.fired[K_CB];
    trace("callback %s #%lu throws", name, (unsigned long)k);
    throw_injected((int)k);
  }
}
} // namespace mfsim

// ------------------------------------------------ basic block preemption points
extern "C"
{
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop)
{
  static uint32_t n = 0;
  if (start == stop || *start)
    return;
  for (uint32_t *x = start; x < stop; ++x)
    *x = ++n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *guard)
{
  if (!in_sim)
    return;
  if (*guard < g->cap_edges && !g->edge_hit[*guard])
  {
    g->edge_hit[*guard] = 1;
    ++g->n_edges;
  }
  if (!ws_active)
    return;
  if (--ws_budget <= 0)
  {
    ws_budget = g->cfg.ws_quantum;
    if (can_preempt())
      if (uint64_t d = draw(K_PRE))
        preempt(d);
  }
  // Freezes go where the code rarely comes by (once per item, say), else the
  // inner loops would get all of them.
  if (g->cfg.p[K_FREEZE] > 0 && *guard < max_cold && cold[*guard] < g->cfg.ws_cold)
  {
    ++cold[*guard];
    if (can_preempt())
      if (uint64_t d = draw(K_FREEZE))
      {
        th[my_tid].frozen = 1 + (d >> 40) % 3;
        preempt(d);
      }
  }
}

// ------------------------------------------------------------------- locks
#define REAL(ret, name, args)                                                  \
  static ret(*real) args = nullptr;                                            \
  if (!real)                                                                   \
    real = (ret(*) args)dlsym(RTLD_NEXT, name);

int pthread_mutex_lock(pthread_mutex_t *m)
{
  REAL(int, "pthread_mutex_lock", (pthread_mutex_t *));
  if (!ws_active || my_tid < 0)
    return real(m);
  for (;;)
  {
    int e = pthread_mutex_trylock(m);
    if (e != EBUSY)
      return e;
    ++g->rank[my_rank].n_ws_mutex;
    th[my_tid].state = T_MUTEX;
    th[my_tid].mutex = m;
    give_up("mutex");
  }
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
  REAL(int, "pthread_mutex_unlock", (pthread_mutex_t *));
  int e = real(m);
  if (ws_active && my_tid >= 0)
    for (int i = 0; i < n_th; ++i)
      if (th[i].state == T_MUTEX && th[i].mutex == m)
        th[i].state = T_READY;
  return e;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
  REAL(int, "pthread_rwlock_rdlock", (pthread_rwlock_t *));
  if (!ws_active || my_tid < 0)
    return real(m);
  for (;;)
  {
    int e = pthread_rwlock_tryrdlock(m);
    if (e != EBUSY)
      return e;
    th[my_tid].state = T_MUTEX;
    th[my_tid].mutex = m;
    give_up("rwlock");
  }
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
  REAL(int, "pthread_rwlock_wrlock", (pthread_rwlock_t *));
  if (!ws_active || my_tid < 0)
    return real(m);
  for (;;)
  {
    int e = pthread_rwlock_trywrlock(m);
    if (e != EBUSY)
      return e;
    th[my_tid].state = T_MUTEX;
    th[my_tid].mutex = m;
    give_up("rwlock");
  }
}
int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
  REAL(int, "pthread_rwlock_unlock", (pthread_rwlock_t *));
  int e = real(m);
  if (ws_active && my_tid >= 0)
    for (int i = 0; i < n_th; ++i)
      if (th[i].state == T_MUTEX && th[i].mutex == m)
        th[i].state = T_READY;
  return e;
}
int pthread_once(pthread_once_t *o, void (*f)(void))
{
  REAL(int, "pthread_once", (pthread_once_t *, void (*)(void)));
  ++no_preempt;
  int e = real(o, f);
  --no_preempt;
  return e;
}
// function-local statics: no preemption while one is being initialised
int __cxa_guard_acquire(uint64_t *gd)
{
  REAL(int, "__cxa_guard_acquire", (uint64_t *));
  int e = real(gd);
  if (e)
    ++no_preempt;
  return e;
}
void __cxa_guard_release(uint64_t *gd)
{
  REAL(void, "__cxa_guard_release", (uint64_t *));
  real(gd);
  --no_preempt;
}
void __cxa_guard_abort(uint64_t *gd)
{
  REAL(void, "__cxa_guard_abort", (uint64_t *));
  real(gd);
  --no_preempt;
}

// ------------------------------------------------------------------- clocks
// Only the real-time clock jumps; the monotonic clock and the CPU clocks never
// run backwards (that is what the system guarantees).
static bool sim_clock(struct timespec *ts, bool wall)
{
  if (!in_sim)
    return false;
  RankShm &r = g->rank[my_rank];
  r.clock += 50; // reading the clock takes time
  if (!wall)
  {
    if (ts)
    {
      ts->tv_sec = r.clock / 1000000000ull;
      ts->tv_nsec = r.clock % 1000000000ull;
    }
    return true;
  }
  if (uint64_t d = draw(K_CLK))
  {
    // jump by up to +-1 hour
    int64_t mag = (int64_t)1000 << (d % 32);
    r.clock_skew += (d >> 40) & 1 ? mag : -mag;
    trace("clock jumps to skew %ld ns", (long)r.clock_skew);
  }
  int64_t t =
      1700000000ll * 1000000000ll + (int64_t)r.clock + r.clock_skew;
  if (ts)
  {
    ts->tv_sec = t / 1000000000ll;
    ts->tv_nsec = t % 1000000000ll;
  }
  return true;
}
int clock_gettime(clockid_t c, struct timespec *ts)
{
  if (sim_clock(ts, c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE))
    return 0;
  return syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval *tv, void *tz)
{
  struct timespec ts;
  if (sim_clock(&ts, true))
  {
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
  }
  return syscall(SYS_gettimeofday, tv, tz);
}
time_t time(time_t *out)
{
  struct timespec ts;
  if (!sim_clock(&ts, true))
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
  if (out)
    *out = ts.tv_sec;
  return ts.tv_sec;
}
clock_t clock()
{
  if (in_sim)
    return g->rank[my_rank].clock / 1000;
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts);
  return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
int getrusage(__rusage_who_t who, struct rusage *u)
{
  if (in_sim)
  {
    memset(u, 0, sizeof *u);
    u->ru_utime.tv_sec = g->rank[my_rank].clock / 1000000000ull;
    u->ru_utime.tv_usec = g->rank[my_rank].clock / 1000 % 1000000;
    return 0;
  }
  return syscall(SYS_getrusage, who, u);
}

// ------------------------------------------------------------------- write(2)
ssize_t write(int fd, void const *b, size_t n)
{
  if (in_sim && fd > 2 && n > 0)
  {
    RankShm &r = g->rank[my_rank];
    ++r.n_io;
    if (uint64_t d = draw(K_IO))
    {
      if (d & 1)
      {
        trace("write(%d, %lu): EINTR", fd, (unsigned long)n);
        errno = EINTR;
        return -1;
      }
      size_t k = 1 + (d >> 8) % n;
      trace("write(%d, %lu): short, %lu", fd, (unsigned long)n,
            (unsigned long)k);
      return syscall(SYS_write, fd, b, k);
    }
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, struct iovec const *v, int n)
{
  if (in_sim && fd > 2 && n > 0)
  {
    RankShm &r = g->rank[my_rank];
    ++r.n_io;
    if (uint64_t d = draw(K_IO))
    {
      if (d & 1)
      {
        trace("writev(%d): EINTR", fd);
        errno = EINTR;
        return -1;
      }
      // only the beginning of the first non-empty buffer gets out
      int k = 0;
      while (k < n && v[k].iov_len == 0)
        ++k;
      if (k < n)
      {
        size_t l = 1 + (d >> 8) % v[k].iov_len;
        trace("writev(%d): short, %lu", fd, (unsigned long)l);
        return syscall(SYS_write, fd, v[k].iov_base, l);
      }
    }
  }
  return syscall(SYS_writev, fd, v, n);
}
extern char __executable_start, etext;
} // extern "C"

// ------------------------------------------------------------------ allocation
static long n_live_alloc = 0;
// When tracking is on, who allocated what (for the report on a leak).
struct LiveRec
{
  void *p;
  size_t n;
  void *at[14];
  int depth;
};
static LiveRec *live = nullptr;
static size_t constexpr n_live = 1 << 18;
static bool tracking = false, in_track = false;
namespace mfsim
{
long live_allocations() { return n_live_alloc; }
void track_allocations(bool on)
{
  if (on && !live)
    live = (LiveRec *)calloc(n_live, sizeof(LiveRec));
  else if (on)
    memset(live, 0, n_live * sizeof(LiveRec));
  tracking = on;
}
void report_allocations(int max)
{
  tracking = false;
  for (size_t i = 0; i < n_live && max; ++i)
    if (live[i].p && live[i].p != (void *)1)
    {
      --max;
      trace("left behind: %lu bytes allocated from", (unsigned long)live[i].n);
      for (int k = 2; k < live[i].depth; ++k)
      {
        Dl_info d;
        if (dladdr(live[i].at[k], &d))
          trace("   %s + %lx in %s", d.dli_sname ? d.dli_sname : "?",
                (unsigned long)((char *)live[i].at[k] - (char *)d.dli_fbase),
                d.dli_fname);
      }
    }
}
} // namespace mfsim
static void track_add(void *p, size_t n)
{
  if (in_track)
    return;
  in_track = true;
  size_t i = (mix((uint64_t)p) & (n_live - 1));
  while (live[i].p && live[i].p != (void *)1)
    i = (i + 1) & (n_live - 1);
  live[i].p = p;
  live[i].n = n;
  live[i].depth = backtrace(live[i].at, 14);
  in_track = false;
}
static void track_del(void *p)
{
  size_t i = (mix((uint64_t)p) & (n_live - 1));
  while (live[i].p && live[i].p != p)
    i = (i + 1) & (n_live - 1);
  if (live[i].p == p)
    live[i].p = (void *)1;
}
static inline void *alloc(size_t n, void *ret, bool nothrow)
{
  if (in_sim && alloc_armed && (char *)ret >= &__executable_start &&
      (char *)ret < &etext)
  {
    RankShm &r = g->rank[my_rank];
    int64_t k = r.n_alloc++;
    if (k == g->cfg.alloc_fail_at && my_rank == g->cfg.alloc_fail_rank)
    {
      ++r.n_alloc_fail;
      if (nothrow)
        return nullptr;
      throw std::bad_alloc();
    }
  }
  void *p = malloc(n ? n : 1);
  if (!p && !nothrow)
    throw std::bad_alloc();
  ++n_live_alloc;
  if (tracking)
    track_add(p, n);
  return p;
}
void *operator new(size_t n)
{
  return alloc(n, __builtin_return_address(0), false);
}
void *operator new[](size_t n)
{
  return alloc(n, __builtin_return_address(0), false);
}
void *operator new(size_t n, std::nothrow_t const &) noexcept
{
  return alloc(n, __builtin_return_address(0), true);
}
void *operator new[](size_t n, std::nothrow_t const &) noexcept
{
  return alloc(n, __builtin_return_address(0), true);
}
static inline void dealloc(void *p)
{
  if (p)
    --n_live_alloc;
  if (p && tracking)
    track_del(p);
  free(p);
}
void operator delete(void *p) noexcept { dealloc(p); }
void operator delete[](void *p) noexcept { dealloc(p); }
void operator delete(void *p, size_t) noexcept { dealloc(p); }
void operator delete[](void *p, size_t) noexcept { dealloc(p); }
