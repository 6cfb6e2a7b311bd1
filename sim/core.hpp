// mfsim: deterministic simulation core.
//
// One simulation = N rank processes forked from one image, sharing one
// MAP_SHARED region.  Exactly one of them holds the token at any instant; the
// token moves only inside the simulator.  Every choice is a "draw": a pure
// function of (seed, rank, kind, per-rank-per-kind counter).
#ifndef MFSIM_CORE_HPP
#define MFSIM_CORE_HPP
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace mfsim
{
enum Kind : int
{
  K_COST = 0,   // stall of a rank before an MPI call
  K_LAT,        // extra latency of a message
  K_RNDV,       // this send is done in rendezvous (synchronous) mode
  K_SYNC,       // this rooted collective synchronises
  K_RED,        // association/order of a reduction
  K_TEST,       // Test/Iprobe spuriously reports "not yet"
  K_ANY,        // which completed request Waitany/Testany/Waitsome reports
  K_PRE,        // preemption of a WorkStream worker at a quantum boundary
  K_PICK,       // which worker runs next when the running one blocks/finishes
  K_CLK,        // wall clock jump
  K_CB,         // evaluator callback throws
  K_IO,         // write(2) misbehaves
  K_FREEZE,     // a worker stops until others have finished whole items
  K_N
};
extern const char *kind_name[K_N];

int constexpr max_ranks = 8;
uint64_t constexpr INF = ~0ull;

enum State : int
{
  S_NONE = 0,
  S_READY,
  S_BLOCKED,
  S_DONE,
  S_DEAD
};

struct Msg
{
  Msg *next;
  int comm, src, dst, tag; // src,dst: world ranks
  uint64_t size, seq, arrive;
  char *data;
  bool sync, matched, sender_done, consumed;
  uint64_t match_time;
};

struct CollSlot
{
  CollSlot *next;
  int comm;
  uint64_t seq;
  int type; // collective kind
  int root, op_id;
  uint64_t sig; // signature for mismatch detection
  int n;        // members
  int n_arrived, n_left;
  bool arrived[max_ranks], left[max_ranks];
  uint64_t arrive_time[max_ranks];
  char *data[max_ranks];
  uint64_t size[max_ranks];
  char *aux[max_ranks];
  uint64_t red_draw;
  bool sync;
};

struct Blob
{
  char name[40];
  int rank;
  uint64_t n;
  double *data;
};

struct RankShm
{
  int futex;
  int state;
  uint64_t clock, wake;
  int64_t clock_skew;
  uint64_t counter[K_N];
  uint64_t fired[K_N];
  uint64_t n_mpi, n_p2p, n_coll, n_bytes, n_unexpected, n_rndv, n_block;
  uint64_t n_ws_run, n_ws_items, n_ws_switch, n_ws_overlap, n_ws_maxpar,
      n_ws_stale, n_ws_mutex, n_alloc, n_alloc_fail, n_cb, n_cb_all, n_cb_throw, n_io;
  char where[160];
  int live_req, live_comm, live_type, live_group, live_op;
  int exit_code;
  int pid;
  char err[400];
};

struct Config
{
  uint64_t seed;
  bool disturbed; // not the run the others are compared with
  int nranks;
  double p[K_N];
  uint64_t stall_ns;   // scale of stalls
  uint64_t lat_ns;     // scale of extra latency
  uint64_t eager;      // sends above this are rendezvous
  int slow_rank;       // -1 or rank whose calls cost 50x
  int ws_threads;      // simulated WorkStream threads
  int ws_chunk;        // 0: as the caller asked
  int ws_queue;        // 0: 2*threads
  uint64_t ws_quantum; // basic blocks between preemption draws
  uint64_t ws_cold;    // a basic block entered less often may freeze its worker
  bool replay;         // only the draws in enabled[] fire
  uint64_t max_steps;
  int64_t alloc_fail_at; // -1: none (counted while armed)
  int alloc_fail_rank;
  int cb_fail_at[max_ranks]; // per rank, -1: none (counted while armed)
  int cb_class;              // what is thrown: see throw_injected
};

struct Shm
{
  Config cfg;
  RankShm rank[max_ranks];
  int main_futex;
  uint64_t steps, hash, msg_seq;
  uint64_t ws_hash; // order of WorkStream events
  int verdict; // 0 ok, 1 violation, 2 deadlock, 3 step limit, 4 mpi misuse
  char what[2000];
  int next_comm_id;
  Msg *q_head[max_ranks], *q_tail[max_ranks]; // inbound, by destination
  CollSlot *slots;
  // memory
  char *heap, *heap_end, *heap_cur;
  void *freelist[48];
  // recorded draws
  uint64_t n_rec, cap_rec;
  uint64_t *rec;
  uint64_t n_enabled;
  uint64_t *enabled;
  // outputs
  uint64_t n_blob, cap_blob;
  Blob *blob;
  uint64_t n_edges;
  unsigned char *edge_hit; // mfmg basic blocks reached
  uint64_t cap_edges;
  int trace_fd;
  uint64_t sim_ns;
};

extern Shm *g;      // the shared region
extern int my_rank; // -1 outside a rank process
extern bool in_sim; // true in a rank process between start and finish

// --- memory in the shared region
void *shm_alloc(size_t n);
void shm_free(void *p, size_t n);

// --- draws
uint64_t mix(uint64_t x);
// 0: the default behaviour; otherwise a 63 bit random value (never 0)
uint64_t draw(Kind k);

// --- token
void fatal(int verdict, char const *fmt, ...)
    __attribute__((format(printf, 2, 3), noreturn));
void note(uint64_t a, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0);
void trace(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
void yield_ready();                // give others a chance; come back at clock
void block(char const *where);     // until something changes my wake time
void wake_rank(int r, uint64_t t); // rank r has something to look at at time t
void rank_start();
void rank_finish();
[[noreturn]] void hard_exit(int code);

// --- outputs (do not perturb the schedule)
void emit(std::string const &name, std::vector<double> const &v);
void fail_property(char const *fmt, ...)
    __attribute__((format(printf, 1, 2), noreturn));

// --- WorkStream simulation and seams
void worker_library_init(); // what libraries set up once per thread
void ws_yield(int weight); // explicit preemption point
void callback_point(char const *name); // evaluator callback entered
extern bool alloc_armed;
extern bool cb_armed;
// how many collectives had been entered at each armed callback
extern std::vector<double> cb_epochs;
struct InjectedFault
{
  int id;
};
} // namespace mfsim
#endif
