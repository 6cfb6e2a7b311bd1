// mfsim server.  Reads one job per line from stdin, runs it in a fork of the
// pristine process image, prints one line of JSON per job on stdout.
#include "core.hpp"
#include "scen.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <errno.h>
#include <execinfo.h>
#include <exception>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <mpi.h>

#include <deal.II/base/multithread_info.h>

namespace mfsim
{
void mpi_rank_init();
int mpi_unreceived();
}
using namespace mfsim;

static char line_buf[1 << 20];
static unsigned char *edges; // shared by all jobs of this server
static uint64_t constexpr cap_edges = 1 << 20;
static size_t constexpr shm_size = size_t(3) << 30;
static void *const shm_addr = (void *)0x500000000000;

static volatile sig_atomic_t alarmed = 0;
static void on_alarm(int) { alarmed = 1; }

static Shm *map_shm(Config const &cfg, std::vector<uint64_t> const &enabled,
                    int trace_fd)
{
  void *p = mmap(shm_addr, shm_size, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
                 -1, 0);
  if (p == MAP_FAILED)
    return nullptr;
  g = static_cast<Shm *>(p);
  g->cfg = cfg;
  g->heap = (char *)p + ((sizeof(Shm) + 4095) & ~size_t(4095));
  g->heap_end = (char *)p + shm_size;
  g->heap_cur = g->heap;
  g->next_comm_id = 100;
  g->cap_rec = 1 << 19;
  g->rec = (uint64_t *)shm_alloc(8 * g->cap_rec);
  g->n_enabled = enabled.size();
  g->enabled = (uint64_t *)shm_alloc(8 * (enabled.size() + 1));
  for (size_t i = 0; i < enabled.size(); ++i)
    g->enabled[i] = enabled[i];
  g->cap_blob = 1 << 14;
  g->blob = (Blob *)shm_alloc(sizeof(Blob) * g->cap_blob);
  g->edge_hit = edges;
  g->cap_edges = cap_edges;
  g->trace_fd = trace_fd;
  for (int r = 0; r < cfg.nranks; ++r)
  {
    g->rank[r].state = S_READY;
    g->rank[r].wake = 0;
  }
  return g;
}

static void futex_set(int *f)
{
  __atomic_store_n(f, 1, __ATOMIC_SEQ_CST);
  syscall(SYS_futex, f, 1 /*WAKE*/, 1, nullptr, nullptr, 0);
}

static void on_crash(int sig)
{
  void *a[40];
  int const n = backtrace(a, 40);
  backtrace_symbols_fd(a, n, g->trace_fd > 0 ? g->trace_fd : 2);
  signal(sig, SIG_DFL);
  raise(sig);
}

[[noreturn]] static void rank_main(int r, Params const &p, Scenario const &s)
{
  my_rank = r;
  struct rlimit rl = {45, 50};
  setrlimit(RLIMIT_CPU, &rl);
  rl = {size_t(12) << 30, size_t(12) << 30};
  setrlimit(RLIMIT_AS, &rl);
  rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  int null = open("/dev/null", O_WRONLY);
  if (g->trace_fd <= 0)
  {
    dup2(null, 1);
    dup2(null, 2);
  }
  else
  {
    dup2(2, 1);
    void *a[4];
    backtrace(a, 4);
    for (int sig : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGXCPU})
      signal(sig, on_crash);
  }
  rank_start();
  try
  {
    mpi_rank_init();
    rank_library_init();
    s.run(p);
    if (p.str("leftover") != "ok")
    {
      MPI_Barrier(MPI_COMM_WORLD);
      if (int n = mpi_unreceived())
        fatal(1, "rank %d: %d messages sent to it were never received", my_rank,
              n);
    }
  }
  catch (std::exception const &e)
  {
    fatal(6, "rank %d: uncaught %s: %.900s", my_rank, typeid(e).name(),
          e.what());
  }
  catch (InjectedFault const &)
  {
    fatal(6, "rank %d: an injected fault escaped the scenario", my_rank);
  }
  catch (...)
  {
    fatal(6, "rank %d: uncaught exception", my_rank);
  }
  rank_finish();
  hard_exit(0);
}

static RunResult run_sim(Params const &p, Scenario const &s, Config const &cfg,
                         std::vector<uint64_t> const &enabled, int trace_fd)
{
  RunResult R;
  R.have = true;
  R.seed = cfg.seed;
  if (!map_shm(cfg, enabled, trace_fd))
  {
    R.verdict = 5;
    R.what = "mmap";
    return R;
  }
  int const N = cfg.nranks;
  pid_t pid[max_ranks];
  for (int r = 0; r < N; ++r)
  {
    pid[r] = fork();
    if (pid[r] == 0)
      rank_main(r, p, s);
    if (pid[r] < 0)
    {
      for (int k = 0; k < r; ++k)
        kill(pid[k], SIGKILL);
      R.verdict = 5;
      R.what = "fork";
      return R;
    }
  }
  alarmed = 0;
  alarm(400);
  futex_set(&g->rank[0].futex);
  int left = N;
  bool bad = false;
  while (left)
  {
    int st = 0;
    pid_t q = waitpid(-1, &st, 0);
    if (q < 0)
    {
      if (errno == EINTR)
      {
        if (alarmed)
        {
          if (!g->verdict && !bad)
          {
            g->verdict = 3;
            snprintf(g->what, sizeof g->what,
                     "no progress: the simulation is stuck outside the "
                     "simulator's control");
          }
          bad = true;
          for (int r = 0; r < N; ++r)
            kill(pid[r], SIGKILL);
        }
        continue;
      }
      break;
    }
    int r = 0;
    while (r < N && pid[r] != q)
      ++r;
    if (r == N)
      continue;
    --left;
    if (!bad && !(WIFEXITED(st) && WEXITSTATUS(st) == 0))
    {
      bad = true;
      if (!g->verdict)
      {
        if (WIFSIGNALED(st))
        {
          int const sig = WTERMSIG(st);
          g->verdict = sig == SIGXCPU ? 3 : sig == SIGKILL ? 5 : 6;
          snprintf(g->what, sizeof g->what,
                   sig == SIGXCPU   ? "no progress: rank %d used up its CPU "
                                      "allowance (signal %d, in or after %s)"
                   : sig == SIGKILL ? "rank %d was killed from outside (signal "
                                      "%d, in or after %s)"
                                    : "rank %d crashed with signal %d (in or "
                                      "after %s)",
                   r, sig, g->rank[r].where);
        }
        else
        {
          g->verdict = 6;
          snprintf(g->what, sizeof g->what,
                   "rank %d exited with status %d (in or after %s)", r,
                   WEXITSTATUS(st), g->rank[r].where);
        }
      }
      for (int k = 0; k < N; ++k)
        if (k != r)
          kill(pid[k], SIGKILL);
    }
  }
  alarm(0);
  R.verdict = g->verdict;
  R.what = g->what;
  R.hash = g->hash;
  R.ws_hash = g->ws_hash;
  R.steps = g->steps;
  R.n_rec = g->n_rec;
  for (int r = 0; r < N; ++r)
  {
    R.rank.push_back(g->rank[r]);
    R.sim_ns = std::max(R.sim_ns, g->rank[r].clock);
  }
  R.rec.assign(g->rec, g->rec + g->n_rec);
  if (!R.verdict)
    for (uint64_t i = 0; i < g->n_blob; ++i)
    {
      Blob &b = g->blob[i];
      R.out[b.name][b.rank].assign(b.data, b.data + b.n);
    }
  munmap(g, shm_size);
  g = nullptr;
  return R;
}

static std::string json_escape(std::string const &s)
{
  std::string o;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += c;
    }
    else if (c < 32 || c > 126)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += c;
  }
  return o;
}

static char const *verdict_name(int v)
{
  switch (v)
  {
  case 1: return "property";
  case 2: return "deadlock";
  case 3: return "no-progress";
  case 4: return "mpi-misuse";
  case 5: return "simulator";
  case 6: return "crash";
  }
  return "ok";
}

static Config base_config(Params const &p)
{
  Config c;
  memset(&c, 0, sizeof c);
  c.nranks = p.num("nranks", 1);
  c.eager = 1ull << 40;
  c.slow_rank = -1;
  c.ws_threads = 1;
  c.ws_quantum = 1ull << 40;
  c.max_steps = p.num("c.steps", 20000000);
  c.alloc_fail_at = -1;
  for (int &k : c.cb_fail_at)
    k = -1;
  return c;
}
static Config pert_config(Params const &p, uint64_t seed)
{
  Config c = base_config(p);
  c.seed = seed;
  c.disturbed = true;
  for (int k = 0; k < K_N; ++k)
    c.p[k] = p.real(std::string("c.p.") + kind_name[k], 0.);
  c.stall_ns = p.num("c.stall", 1000);
  c.lat_ns = p.num("c.lat", 1000);
  c.eager = p.has("c.eager") ? (uint64_t)p.num("c.eager", 0) : c.eager;
  c.slow_rank = p.num("c.slow", -1);
  c.ws_threads = p.num("c.T", 1);
  c.ws_chunk = p.num("c.chunk", 0);
  c.ws_queue = p.num("c.queue", 0);
  c.ws_quantum = p.num("c.quantum", 1000);
  c.ws_cold = p.num("c.cold", 40);
  c.cb_class = p.num("c.exc", 0);
  c.alloc_fail_at = p.num("c.afail", -1);
  c.alloc_fail_rank = p.num("c.afrank", 0);
  return c;
}

static void print_all(std::string const &s)
{
  size_t o = 0;
  while (o < s.size())
  {
    ssize_t n = syscall(SYS_write, 1, s.data() + o, s.size() - o);
    if (n <= 0)
      _exit(3);
    o += n;
  }
}

[[noreturn]] static void job(char const *text)
{
  setpgid(0, 0);
  signal(SIGALRM, on_alarm);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_alarm;
  sigaction(SIGALRM, &sa, nullptr);
  Params p;
  {
    std::istringstream is(text);
    std::string t;
    while (is >> t)
    {
      size_t e = t.find('=');
      if (e != std::string::npos)
        p.kv[t.substr(0, e)] = t.substr(e + 1);
    }
  }
  std::vector<uint64_t> seeds, enabled;
  bool const replay = p.has("on");
  {
    std::istringstream is(p.str("seeds", "1"));
    std::string t;
    while (std::getline(is, t, ','))
      seeds.push_back(strtoull(t.c_str(), nullptr, 0));
    std::istringstream js(p.str("on"));
    while (std::getline(js, t, ','))
      if (!t.empty() && t != "-")
        enabled.push_back(strtoull(t.c_str(), nullptr, 16));
    std::sort(enabled.begin(), enabled.end());
  }
  int trace_fd = 0;
  if (p.has("trace"))
    trace_fd = open(p.str("trace").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  auto it = scenarios().find(p.str("scen"));
  std::ostringstream js;
  js << "{\"id\":\"" << json_escape(p.str("id")) << "\"";
  if (it == scenarios().end())
  {
    js << ",\"status\":\"error\",\"msg\":\"unknown scenario\"}\n";
    print_all(js.str());
    _exit(0);
  }
  Scenario const &s = it->second;
  std::vector<RunResult> runs;
  std::string msg;
  int verdict = 0;
  uint64_t bad_seed = 0;
  bool bad_base = false;
  std::vector<uint64_t> bad_rec;
  {
    RunResult base =
        run_sim(p, s, base_config(p), {}, p.has("tracebase") ? trace_fd : 0);
    if (base.verdict)
    {
      verdict = base.verdict;
      msg = base.what;
      bad_base = true;
    }
    else
    {
      msg = s.oracle ? s.oracle(p, base, base) : "";
      if (!msg.empty())
      {
        verdict = 1;
        bad_base = true;
      }
    }
    RunResult base_small = base;
    base_small.out.clear();
    base_small.rec.clear();
    runs.push_back(base_small);
    if (!verdict)
      for (uint64_t seed : seeds)
      {
        Config c = pert_config(p, seed);
        c.replay = replay;
        if (s.configure)
          s.configure(p, base, c);
        RunResult r =
            run_sim(p, s, c, enabled, p.has("tracebase") ? 0 : trace_fd);
        if (r.verdict)
        {
          verdict = r.verdict;
          msg = r.what;
        }
        else
        {
          msg = s.oracle ? s.oracle(p, base, r) : "";
          if (!msg.empty())
            verdict = 1;
        }
        if (verdict)
        {
          bad_seed = seed;
          bad_rec = r.rec;
        }
        r.out.clear();
        r.rec.clear();
        runs.push_back(r);
        if (verdict)
          break;
      }
  }
  js << ",\"status\":\""
     << (verdict == 0 ? "ok" : verdict == 5 ? "error" : "violation") << "\"";
  js << ",\"verdict\":\"" << verdict_name(verdict) << "\",\"msg\":\""
     << json_escape(msg) << "\"";
  if (verdict)
  {
    js << ",\"base\":" << (bad_base ? "true" : "false") << ",\"seed\":"
       << bad_seed << ",\"rec\":[";
    for (size_t i = 0; i < bad_rec.size(); ++i)
    {
      char b[24];
      snprintf(b, sizeof b, "%s\"%lx\"", i ? "," : "",
               (unsigned long)bad_rec[i]);
      js << b;
    }
    js << "]";
  }
  js << ",\"runs\":[";
  for (size_t i = 0; i < runs.size(); ++i)
  {
    auto &r = runs[i];
    js << (i ? "," : "") << "{\"seed\":" << r.seed << ",\"hash\":\"" << std::hex
       << r.hash << "\",\"ws\":\"" << r.ws_hash << std::dec
       << "\",\"steps\":" << r.steps << ",\"ns\":" << r.sim_ns
       << ",\"draws\":" << r.n_rec;
    uint64_t fired[K_N] = {0};
    uint64_t v[18] = {0};
    for (auto &k : r.rank)
    {
      for (int j = 0; j < K_N; ++j)
        fired[j] += k.fired[j];
      uint64_t w[18] = {k.n_mpi,        k.n_p2p,      k.n_coll,
                        k.n_bytes,      k.n_unexpected, k.n_rndv,
                        k.n_block,      k.n_ws_run,   k.n_ws_items,
                        k.n_ws_switch,  k.n_ws_overlap, 0,
                        k.n_ws_mutex,   k.n_alloc,    k.n_alloc_fail,
                        k.n_cb_all,         k.n_cb_throw, k.n_io};
      for (int j = 0; j < 18; ++j)
        v[j] += w[j];
      v[11] = std::max(v[11], k.n_ws_maxpar);
    }
    static char const *vn[18] = {
        "mpi_calls",  "p2p",         "collectives", "bytes",      "unexpected",
        "rendezvous_sends", "blocked", "ws_runs",     "ws_items",   "ws_switches",
        "ws_overlaps", "ws_max_parallel", "ws_mutex_waits", "allocations",
        "alloc_failures", "callbacks", "callback_throws", "writes"};
    for (int j = 0; j < K_N; ++j)
      if (fired[j])
        js << ",\"f_" << kind_name[j] << "\":" << fired[j];
    for (int j = 0; j < 18; ++j)
      if (v[j])
        js << ",\"" << vn[j] << "\":" << v[j];
    js << "}";
  }
  js << "]}\n";
  print_all(js.str());
  _exit(0);
}

int main(int argc, char **argv)
{
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("MFSIM_NOASLR"))
  {
    personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
    setenv("MFSIM_NOASLR", "1", 1);
    execv("/proc/self/exe", argv);
  }
  mallopt(M_ARENA_MAX, 1);
  mallopt(M_MMAP_THRESHOLD, 1 << 20);
  mallopt(M_TRIM_THRESHOLD, 1 << 30);
  edges = (unsigned char *)mmap(nullptr, cap_edges, PROT_READ | PROT_WRITE,
                                MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  dealii::MultithreadInfo::set_thread_limit(1);
  scenarios();
  for (;;)
  {
    size_t n = 0;
    for (;;)
    {
      char c;
      ssize_t k = read(0, &c, 1);
      if (k < 0 && errno == EINTR)
        continue;
      if (k <= 0)
        return 0;
      if (c == '\n')
        break;
      if (n + 1 < sizeof line_buf)
        line_buf[n++] = c;
    }
    line_buf[n] = 0;
    if (!n)
      continue;
    if (!strncmp(line_buf, "edges ", 6))
    {
      int fd = open(line_buf + 6, O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0)
      {
        (void)!syscall(SYS_write, fd, edges, cap_edges);
        close(fd);
      }
      (void)!syscall(SYS_write, 1, "{}\n", 3);
      continue;
    }
    pid_t q = fork();
    if (q == 0)
      job(line_buf);
    int st;
    while (waitpid(q, &st, 0) < 0 && errno == EINTR)
      ;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
    {
      char b[200];
      int k = snprintf(b, sizeof b,
                       "{\"status\":\"error\",\"msg\":\"job process ended with "
                       "wait status %d\"}\n",
                       st);
      (void)!syscall(SYS_write, 1, b, k);
    }
  }
}
