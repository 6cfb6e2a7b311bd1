// mfsim: the simulated MPI.  Defines the MPI entry points that the code under
// test (and deal.II, Trilinos, p4est, Zoltan below it) calls; the real libmpi
// supplies only the addresses of its predefined handles.
#include "core.hpp"
#include <mpi.h>
#include <algorithm>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <list>
#include <set>
#include <unordered_map>

using namespace mfsim;

extern "C" char __executable_start, etext;
namespace
{
bool buffered = false;
bool called_from_program(void *ra)
{
  return (char *)ra >= &__executable_start && (char *)ra < &etext;
}
struct FComm
{
  int id;
  int me; // my rank in it, or -1
  std::vector<int> members; // world ranks
  uint64_t coll_seq = 0;
  std::map<int, void *> attrs;
  std::string name;
  bool predefined = false;
  uint64_t n_children = 0;
};
struct Seg
{
  long off;
  long len;
};
struct FType
{
  size_t size;
  long lb, extent;
  std::vector<Seg> segs;
  int base; // elementary kind, or -1 (heterogeneous)
  size_t base_size;
  bool predefined = false;
};
struct FOp
{
  MPI_User_function *fn;
  int commute;
  int id;
};
struct FGroup
{
  std::vector<int> members;
};
struct FReq
{
  int kind; // 0 send, 1 recv, 2 collective
  bool done = false;
  // send
  Msg *msg = nullptr;
  // recv
  FComm *comm = nullptr;
  void *buf = nullptr;
  long count = 0;
  FType *type = nullptr;
  int src = 0, tag = 0;
  MPI_Status st{};
  // collective
  CollSlot *slot = nullptr;
  uint64_t t_done = 0;
};

enum BaseKind
{
  B_CHAR,
  B_SCHAR,
  B_UCHAR,
  B_SHORT,
  B_USHORT,
  B_INT,
  B_UINT,
  B_LONG,
  B_ULONG,
  B_LLONG,
  B_ULLONG,
  B_FLOAT,
  B_DOUBLE,
  B_LDOUBLE,
  B_BYTE,
  B_BOOL,
  B_DOUBLE_INT,
  B_2INT,
  B_FLOAT_INT,
  B_CDOUBLE,
  B_OTHER
};

std::unordered_map<void *, FType *> *types;
std::unordered_map<void *, int> *ops;
std::unordered_map<void *, FComm *> *comms; // handle -> comm
FComm *world, *self_;
std::set<FReq *> *live_reqs;
std::list<FReq *> *posted; // posted receives, in order
std::list<Msg *> *arrived; // unexpected messages, in arrival order
std::vector<MPI_Comm> *f2c;
bool mpi_inited = false;
int next_keyval = 100;
struct KV
{
  MPI_Comm_copy_attr_function *copy;
  MPI_Comm_delete_attr_function *del;
  void *extra;
};
std::map<int, KV> *keyvals;
std::map<void *, FOp *> *user_ops;

void add_type(MPI_Datatype t, size_t n, int base)
{
  auto f = new FType{n, 0, (long)n, {{0, (long)n}}, base, n, true};
  (*types)[(void *)t] = f;
}
} // namespace

namespace mfsim
{
void mpi_rank_init()
{
  types = new std::unordered_map<void *, FType *>;
  ops = new std::unordered_map<void *, int>;
  comms = new std::unordered_map<void *, FComm *>;
  live_reqs = new std::set<FReq *>;
  posted = new std::list<FReq *>;
  arrived = new std::list<Msg *>;
  f2c = new std::vector<MPI_Comm>{MPI_COMM_WORLD, MPI_COMM_SELF,
                                  MPI_COMM_NULL};
  keyvals = new std::map<int, KV>;
  user_ops = new std::map<void *, FOp *>;
  add_type(MPI_CHAR, 1, B_CHAR);
  add_type(MPI_SIGNED_CHAR, 1, B_SCHAR);
  add_type(MPI_UNSIGNED_CHAR, 1, B_UCHAR);
  add_type(MPI_BYTE, 1, B_BYTE);
  add_type(MPI_PACKED, 1, B_BYTE);
  add_type(MPI_SHORT, 2, B_SHORT);
  add_type(MPI_UNSIGNED_SHORT, 2, B_USHORT);
  add_type(MPI_INT, 4, B_INT);
  add_type(MPI_UNSIGNED, 4, B_UINT);
  add_type(MPI_LONG, 8, B_LONG);
  add_type(MPI_UNSIGNED_LONG, 8, B_ULONG);
  add_type(MPI_LONG_LONG_INT, 8, B_LLONG);
  add_type(MPI_UNSIGNED_LONG_LONG, 8, B_ULLONG);
  add_type(MPI_FLOAT, 4, B_FLOAT);
  add_type(MPI_DOUBLE, 8, B_DOUBLE);
  add_type(MPI_LONG_DOUBLE, 16, B_LDOUBLE);
  add_type(MPI_C_BOOL, 1, B_BOOL);
  add_type(MPI_CXX_BOOL, 1, B_BOOL);
  add_type(MPI_DOUBLE_INT, 16, B_DOUBLE_INT);
  add_type(MPI_2INT, 8, B_2INT);
  add_type(MPI_FLOAT_INT, 8, B_FLOAT_INT);
  add_type(MPI_INT8_T, 1, B_SCHAR);
  add_type(MPI_UINT8_T, 1, B_UCHAR);
  add_type(MPI_INT16_T, 2, B_SHORT);
  add_type(MPI_UINT16_T, 2, B_USHORT);
  add_type(MPI_INT32_T, 4, B_INT);
  add_type(MPI_UINT32_T, 4, B_UINT);
  add_type(MPI_INT64_T, 8, B_LONG);
  add_type(MPI_UINT64_T, 8, B_ULONG);
  add_type(MPI_C_DOUBLE_COMPLEX, 16, B_CDOUBLE);
  add_type(MPI_CXX_DOUBLE_COMPLEX, 16, B_CDOUBLE);
  add_type(MPI_C_FLOAT_COMPLEX, 8, B_OTHER);
  add_type(MPI_DATATYPE_NULL, 0, B_OTHER);
  (*ops)[(void *)MPI_SUM] = 1;
  (*ops)[(void *)MPI_MAX] = 2;
  (*ops)[(void *)MPI_MIN] = 3;
  (*ops)[(void *)MPI_LOR] = 4;
  (*ops)[(void *)MPI_LAND] = 5;
  (*ops)[(void *)MPI_BOR] = 6;
  (*ops)[(void *)MPI_BAND] = 7;
  (*ops)[(void *)MPI_PROD] = 8;
  (*ops)[(void *)MPI_MAXLOC] = 9;
  (*ops)[(void *)MPI_MINLOC] = 10;
  (*ops)[(void *)MPI_BXOR] = 11;
  world = new FComm;
  world->id = 0;
  world->me = my_rank;
  world->predefined = true;
  for (int i = 0; i < g->cfg.nranks; ++i)
    world->members.push_back(i);
  self_ = new FComm;
  self_->id = 1 + my_rank;
  self_->me = 0;
  self_->predefined = true;
  self_->members = {my_rank};
  (*comms)[(void *)MPI_COMM_WORLD] = world;
  (*comms)[(void *)MPI_COMM_SELF] = self_;
}

// what is still open in this rank's MPI
void mpi_census()
{
  RankShm &r = g->rank[my_rank];
  r.live_req = live_reqs->size();
  r.live_comm = comms->size() - 2;
  int n = 0;
  for (auto &t : *types)
    n += !t.second->predefined;
  r.live_type = n;
  r.live_op = user_ops->size();
}
// messages addressed to this rank that nobody has received
int mpi_unreceived()
{
  int n = 0;
  for (Msg *m = g->q_head[my_rank]; m; m = m->next)
    ++n;
  return n + arrived->size();
}
} // namespace mfsim

namespace
{
RankShm &R() { return g->rank[my_rank]; }

FComm *C(MPI_Comm c, char const *fn)
{
  auto it = comms->find((void *)c);
  if (it == comms->end())
    fatal(4, "rank %d: %s on an invalid or freed communicator", my_rank, fn);
  return it->second;
}
FType *T(MPI_Datatype t, char const *fn)
{
  auto it = types->find((void *)t);
  if (it == types->end())
    fatal(4, "rank %d: %s with a datatype the simulator does not know",
          my_rank, fn);
  return it->second;
}

void pack(void const *buf, long count, FType *t, char *out)
{
  if (t->segs.size() == 1 && t->segs[0].off == 0 &&
      t->segs[0].len == t->extent)
  {
    memcpy(out, buf, count * t->size);
    return;
  }
  char const *b = (char const *)buf;
  for (long i = 0; i < count; ++i)
    for (auto &s : t->segs)
    {
      memcpy(out, b + i * t->extent + s.off, s.len);
      out += s.len;
    }
}
void unpack(char const *in, size_t bytes, void *buf, FType *t)
{
  if (!bytes)
    return;
  if (t->segs.size() == 1 && t->segs[0].off == 0 &&
      t->segs[0].len == t->extent)
  {
    memcpy(buf, in, bytes);
    return;
  }
  char *b = (char *)buf;
  long i = 0;
  while (bytes)
  {
    for (auto &s : t->segs)
    {
      size_t n = std::min<size_t>(s.len, bytes);
      memcpy(b + i * t->extent + s.off, in, n);
      in += n;
      bytes -= n;
      if (!bytes)
        return;
    }
    ++i;
  }
}

// A call costs simulated time, and others may run meanwhile.
void tick(char const *fn)
{
  if (!in_sim)
    return;
  RankShm &r = R();
  ++r.n_mpi;
  snprintf(r.where, sizeof r.where, "%s", fn);
  uint64_t c = 300;
  if (my_rank == g->cfg.slow_rank)
    c *= 50;
  if (uint64_t d = draw(K_COST))
    c += g->cfg.stall_ns ? (uint64_t(1) << (d % 16)) * g->cfg.stall_ns / 256
                         : 0;
  r.clock += c;
  yield_ready();
}

// Somebody polls in vain: let simulated time pass, more and more of it, so that
// a long delay does not cost millions of polls.
int idle_polls = 0;
void polled(bool success)
{
  if (success)
    idle_polls = 0;
  else
  {
    idle_polls = std::min(idle_polls + 1, 24);
    if (idle_polls > 3)
      R().clock += 100ull << std::min(idle_polls - 3, 13);
  }
}

uint64_t inbound_next()
{
  Msg *m = g->q_head[my_rank];
  uint64_t t = INF;
  for (; m; m = m->next)
    t = std::min(t, m->arrive);
  return t;
}

bool matches(FReq *q, Msg *m)
{
  return q->comm->id == m->comm &&
         (q->src == MPI_ANY_SOURCE || q->comm->members[q->src] == m->src) &&
         (q->tag == MPI_ANY_TAG || q->tag == m->tag);
}

void release(Msg *m)
{
  if (m->consumed && m->sender_done)
  {
    shm_free(m->data, m->size);
    shm_free(m, sizeof(Msg));
  }
}

void deliver(FReq *q, Msg *m)
{
  size_t cap = q->count * q->type->size;
  if (m->size > cap)
    fatal(4,
          "rank %d: message of %lu bytes from rank %d tag %d truncated to %lu",
          my_rank, (unsigned long)m->size, m->src, m->tag, (unsigned long)cap);
  unpack(m->data, m->size, q->buf, q->type);
  int s = 0;
  while (q->comm->members[s] != m->src)
    ++s;
  q->st.MPI_SOURCE = s;
  q->st.MPI_TAG = m->tag;
  q->st.MPI_ERROR = MPI_SUCCESS;
  q->st._ucount = m->size;
  q->st._cancelled = 0;
  q->done = true;
  note(2, m->src, m->tag, m->size);
  trace("recv from r%d comm %d tag %d, %lu bytes (sent as #%lu)", m->src,
        m->comm, m->tag, (unsigned long)m->size, (unsigned long)m->seq);
  m->matched = true;
  m->match_time = R().clock + 200;
  m->consumed = true;
  if (m->sync)
    wake_rank(m->src, m->match_time);
  release(m);
}

// Move messages that have arrived by now out of the network, in arrival order
void progress()
{
  uint64_t const now = R().clock;
  for (;;)
  {
    Msg *best = nullptr;
    for (Msg *m = g->q_head[my_rank]; m; m = m->next)
      if (m->arrive <= now &&
          (!best || m->arrive < best->arrive ||
           (m->arrive == best->arrive && m->seq < best->seq)))
        best = m;
    if (!best)
      return;
    // unlink
    Msg **pp = &g->q_head[my_rank], *prev = nullptr;
    while (*pp != best)
    {
      prev = *pp;
      pp = &(*pp)->next;
    }
    *pp = best->next;
    if (g->q_tail[my_rank] == best)
      g->q_tail[my_rank] = prev;
    best->next = nullptr;
    bool taken = false;
    for (auto it = posted->begin(); it != posted->end(); ++it)
      if (matches(*it, best))
      {
        FReq *q = *it;
        posted->erase(it);
        deliver(q, best);
        taken = true;
        break;
      }
    if (!taken)
    {
      ++R().n_unexpected;
      arrived->push_back(best);
    }
  }
}

FReq *start_send(void const *buf, long count, MPI_Datatype dt, int dest,
                 int tag, MPI_Comm comm, bool sync, char const *fn)
{
  FComm *c = C(comm, fn);
  FType *t = T(dt, fn);
  auto q = new FReq;
  q->kind = 0;
  live_reqs->insert(q);
  if (dest == MPI_PROC_NULL)
  {
    q->done = true;
    return q;
  }
  if (dest < 0 || dest >= (int)c->members.size())
    fatal(4, "rank %d: %s to invalid rank %d", my_rank, fn, dest);
  RankShm &r = R();
  Msg *m = (Msg *)shm_alloc(sizeof(Msg));
  memset(m, 0, sizeof *m);
  m->comm = c->id;
  m->src = my_rank;
  m->dst = c->members[dest];
  m->tag = tag;
  m->size = count * t->size;
  m->data = (char *)shm_alloc(m->size);
  pack(buf, count, t, m->data);
  m->seq = ++g->msg_seq;
  // Third-party libraries (Epetra, Zoltan) send head-to-head with blocking
  // standard sends and count on buffering; that is their business, so those
  // are always buffered here.  Everything else may block.
  m->sync = sync || (!buffered && (m->size > g->cfg.eager || draw(K_RNDV)));
  buffered = false;
  if (m->sync)
    ++r.n_rndv;
  uint64_t lat = 1500 + m->size / 8;
  if (uint64_t d = draw(K_LAT))
    lat += (uint64_t(1) << (d % 12)) * g->cfg.lat_ns / 16;
  m->arrive = r.clock + lat;
  // non-overtaking between the same two ranks on the same communicator
  for (Msg *o = g->q_head[m->dst]; o; o = o->next)
    if (o->src == m->src && o->comm == m->comm && o->arrive >= m->arrive)
      m->arrive = o->arrive + 1;
  if (g->q_tail[m->dst])
    g->q_tail[m->dst]->next = m;
  else
    g->q_head[m->dst] = m;
  g->q_tail[m->dst] = m;
  ++r.n_p2p;
  r.n_bytes += m->size;
  note(3, m->dst, tag, m->size);
  trace("send #%lu to r%d comm %d tag %d, %lu bytes%s, arrives %lu",
        (unsigned long)m->seq, m->dst, c->id, tag, (unsigned long)m->size,
        m->sync ? " (rendezvous)" : "", (unsigned long)m->arrive);
  wake_rank(m->dst, m->arrive);
  q->msg = m;
  if (!m->sync)
  {
    m->sender_done = true;
    q->msg = nullptr;
    q->done = true;
  }
  return q;
}

FReq *start_recv(void *buf, long count, MPI_Datatype dt, int src, int tag,
                 MPI_Comm comm, char const *fn)
{
  FComm *c = C(comm, fn);
  auto q = new FReq;
  q->kind = 1;
  q->comm = c;
  q->buf = buf;
  q->count = count;
  q->type = T(dt, fn);
  q->src = src;
  q->tag = tag;
  live_reqs->insert(q);
  if (src == MPI_PROC_NULL)
  {
    q->done = true;
    q->st.MPI_SOURCE = MPI_PROC_NULL;
    q->st.MPI_TAG = MPI_ANY_TAG;
    return q;
  }
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)c->members.size()))
    fatal(4, "rank %d: %s from invalid rank %d", my_rank, fn, src);
  progress();
  for (auto it = arrived->begin(); it != arrived->end(); ++it)
    if (matches(q, *it))
    {
      Msg *m = *it;
      arrived->erase(it);
      deliver(q, m);
      return q;
    }
  posted->push_back(q);
  return q;
}

bool coll_ready(FReq *q);

bool is_done(FReq *q)
{
  if (q->done)
    return true;
  if (q->kind == 0)
  {
    if (q->msg && q->msg->matched && q->msg->match_time <= R().clock)
    {
      Msg *m = q->msg;
      q->msg = nullptr;
      m->sender_done = true;
      release(m);
      q->done = true;
    }
  }
  else if (q->kind == 2)
    coll_ready(q);
  return q->done;
}

uint64_t next_event(FReq *q)
{
  if (q->kind == 0)
    return q->msg && q->msg->matched ? q->msg->match_time : INF;
  if (q->kind == 2)
    return q->t_done ? q->t_done : INF;
  return INF;
}

void wait_where(FReq **qs, int n, char const *fn, char *buf, size_t len)
{
  int k = snprintf(buf, len, "%s(", fn);
  for (int i = 0; i < n && k < (int)len - 40; ++i)
  {
    FReq *q = qs[i];
    if (!q || q->done)
      continue;
    if (q->kind == 0)
      k += snprintf(buf + k, len - k, "send->%d tag %d ", q->msg->dst,
                    q->msg->tag);
    else if (q->kind == 1)
      k += snprintf(buf + k, len - k, "recv<-%d tag %d comm %d ",
                    q->src == MPI_ANY_SOURCE ? -1 : q->comm->members[q->src],
                    q->tag, q->comm->id);
    else
      k += snprintf(buf + k, len - k, "collective ");
  }
}

// Block until one (or all) of the requests is done
void wait_some(FReq **qs, int n, bool all, char const *fn)
{
  for (;;)
  {
    progress();
    bool any = false, every = true, have = false;
    for (int i = 0; i < n; ++i)
      if (qs[i])
      {
        have = true;
        if (is_done(qs[i]))
          any = true;
        else
          every = false;
      }
    if (!have || every || (!all && any))
      return;
    uint64_t t = inbound_next();
    for (int i = 0; i < n; ++i)
      if (qs[i] && !qs[i]->done)
        t = std::min(t, next_event(qs[i]));
    R().wake = t;
    char w[160];
    wait_where(qs, n, fn, w, sizeof w);
    block(w);
  }
}

void fill_status(FReq *q, MPI_Status *st)
{
  if (st == MPI_STATUS_IGNORE)
    return;
  if (q && q->kind == 1)
    *st = q->st;
  else
  {
    memset(st, 0, sizeof *st);
    st->MPI_SOURCE = MPI_ANY_SOURCE;
    st->MPI_TAG = MPI_ANY_TAG;
  }
}
void finish_req(FReq *q)
{
  live_reqs->erase(q);
  delete q;
}
FReq *Q(MPI_Request r, char const *fn)
{
  if (r == MPI_REQUEST_NULL)
    return nullptr;
  FReq *q = (FReq *)r;
  if (!live_reqs->count(q))
    fatal(4, "rank %d: %s on an invalid request", my_rank, fn);
  return q;
}

// ---------------------------------------------------------------- reductions
template <typename X>
void red(int op, X const *a, X *b, size_t n)
{
  for (size_t i = 0; i < n; ++i)
    switch (op)
    {
    case 1: b[i] = a[i] + b[i]; break;
    case 2: b[i] = a[i] > b[i] ? a[i] : b[i]; break;
    case 3: b[i] = a[i] < b[i] ? a[i] : b[i]; break;
    case 4: b[i] = (a[i] != 0) || (b[i] != 0); break;
    case 5: b[i] = (a[i] != 0) && (b[i] != 0); break;
    case 8: b[i] = a[i] * b[i]; break;
    case 6:
    case 7:
    case 11:
      if constexpr (std::is_integral<X>::value)
        b[i] = op == 6   ? X(a[i] | b[i])
               : op == 7 ? X(a[i] & b[i])
                         : X(a[i] ^ b[i]);
      break;
    default: fatal(5, "reduction %d", op);
    }
}
template <typename V>
void redloc(int op, char const *a_, char *b_, size_t n)
{
  struct P
  {
    V v;
    int i;
  };
  P const *a = (P const *)a_;
  P *b = (P *)b_;
  for (size_t k = 0; k < n; ++k)
    if (op == 9 ? (a[k].v > b[k].v || (a[k].v == b[k].v && a[k].i < b[k].i))
                : (a[k].v < b[k].v || (a[k].v == b[k].v && a[k].i < b[k].i)))
      b[k] = a[k];
}
void reduce2(int op, MPI_Op oph, MPI_Datatype dth, FType *t, char const *a,
             char *b, long count)
{
  if (op >= 1000)
  {
    int len = count;
    (*user_ops)[(void *)oph]->fn((void *)a, b, &len, &dth);
    return;
  }
  size_t n = count * t->size / (t->base_size ? t->base_size : 1);
  switch (t->base)
  {
  case B_CHAR: red(op, (char const *)a, (char *)b, n); break;
  case B_SCHAR: red(op, (signed char const *)a, (signed char *)b, n); break;
  case B_BOOL:
  case B_BYTE:
  case B_UCHAR: red(op, (unsigned char const *)a, (unsigned char *)b, n); break;
  case B_SHORT: red(op, (short const *)a, (short *)b, n); break;
  case B_USHORT: red(op, (unsigned short const *)a, (unsigned short *)b, n); break;
  case B_INT: red(op, (int const *)a, (int *)b, n); break;
  case B_UINT: red(op, (unsigned const *)a, (unsigned *)b, n); break;
  case B_LONG:
  case B_LLONG: red(op, (long const *)a, (long *)b, n); break;
  case B_ULONG:
  case B_ULLONG: red(op, (unsigned long const *)a, (unsigned long *)b, n); break;
  case B_FLOAT: red(op, (float const *)a, (float *)b, n); break;
  case B_DOUBLE: red(op, (double const *)a, (double *)b, n); break;
  case B_LDOUBLE: red(op, (long double const *)a, (long double *)b, n); break;
  case B_CDOUBLE:
    if (op != 1)
      fatal(5, "complex reduction");
    red(op, (double const *)a, (double *)b, 2 * n);
    break;
  case B_DOUBLE_INT: redloc<double>(op, a, b, n); break;
  case B_2INT: redloc<int>(op, a, b, n); break;
  case B_FLOAT_INT: redloc<float>(op, a, b, n); break;
  default: fatal(5, "reduction over an unsupported datatype");
  }
}

// ---------------------------------------------------------------- collectives
enum CT
{
  BARRIER = 1,
  BCAST,
  REDUCE,
  ALLREDUCE,
  GATHER,
  GATHERV,
  SCATTER,
  SCATTERV,
  ALLGATHER,
  ALLGATHERV,
  ALLTOALL,
  ALLTOALLV,
  SCAN,
  EXSCAN,
  REDSCAT,
  COMMOP,
  IBARRIER
};
char const *ct_name[] = {"",          "Barrier",    "Bcast",    "Reduce",
                         "Allreduce", "Gather",     "Gatherv",  "Scatter",
                         "Scatterv",  "Allgather",  "Allgatherv", "Alltoall",
                         "Alltoallv", "Scan",       "Exscan",   "Reduce_scatter",
                         "Comm_*",    "Ibarrier"};

CollSlot *coll_enter(FComm *c, int type, int root, int op_id, uint64_t sig,
                     char const *fn)
{
  uint64_t const seq = c->coll_seq++;
  CollSlot *s = g->slots;
  while (s && !(s->comm == c->id && s->seq == seq))
    s = s->next;
  if (!s)
  {
    s = (CollSlot *)shm_alloc(sizeof(CollSlot));
    memset(s, 0, sizeof *s);
    s->comm = c->id;
    s->seq = seq;
    s->type = type;
    s->root = root;
    s->op_id = op_id;
    s->sig = sig;
    s->n = c->members.size();
    s->red_draw = draw(K_RED);
    s->sync = draw(K_SYNC) != 0;
    s->next = g->slots;
    g->slots = s;
  }
  else if (s->type != type || s->root != root || s->op_id != op_id ||
           (sig && s->sig && s->sig != sig))
    fatal(4,
          "mismatched collectives on communicator %d: rank %d calls %s (root "
          "%d, op %d, signature %lx) where another rank called %s (root %d, op "
          "%d, signature %lx)",
          c->id, my_rank, fn, root, op_id, (unsigned long)sig,
          ct_name[s->type], s->root, s->op_id, (unsigned long)s->sig);
  ++R().n_coll;
  note(4, type, c->id, seq);
  trace("%s enters %s #%lu on comm %d", fn, ct_name[type], (unsigned long)seq,
        c->id);
  return s;
}
void coll_put(CollSlot *s, int me, void const *data, size_t n,
              void const *aux = nullptr, size_t naux = 0)
{
  s->data[me] = (char *)shm_alloc(n);
  s->size[me] = n;
  if (n)
    memcpy(s->data[me], data, n);
  s->aux[me] = (char *)shm_alloc(naux);
  if (naux)
    memcpy(s->aux[me], aux, naux);
  s->arrived[me] = true;
  s->arrive_time[me] = R().clock;
  ++s->n_arrived;
}
void coll_wake(CollSlot *s, FComm *c, int me)
{
  for (int i = 0; i < s->n; ++i)
    if (i != me)
      wake_rank(c->members[i], R().clock + 1000);
}
void coll_leave(CollSlot *s, int me)
{
  s->left[me] = true;
  if (++s->n_left == s->n)
  {
    CollSlot **pp = &g->slots;
    while (*pp != s)
      pp = &(*pp)->next;
    *pp = s->next;
    for (int i = 0; i < s->n; ++i)
    {
      shm_free(s->data[i], s->size[i]);
      // aux sizes are small; class recomputed by the caller is not needed
    }
    shm_free(s, sizeof *s);
  }
}
// need: which members' contributions must be there
void coll_wait_all(CollSlot *s, FComm *c, char const *fn)
{
  while (s->n_arrived < s->n)
  {
    R().wake = INF;
    char w[160];
    int k = snprintf(w, sizeof w, "%s #%lu on comm %d, waiting for", fn,
                     (unsigned long)s->seq, c->id);
    for (int i = 0; i < s->n; ++i)
      if (!s->arrived[i])
        k += snprintf(w + k, k < 150 ? sizeof w - k : 0, " %d", c->members[i]);
    block(w);
    progress();
  }
}
void coll_wait_one(CollSlot *s, FComm *c, int who, char const *fn)
{
  while (!s->arrived[who])
  {
    R().wake = INF;
    char w[160];
    snprintf(w, sizeof w, "%s #%lu on comm %d, waiting for %d", fn,
             (unsigned long)s->seq, c->id, c->members[who]);
    block(w);
    progress();
  }
}
bool coll_ready(FReq *q)
{
  CollSlot *s = q->slot;
  if (!s || s->n_arrived < s->n)
    return false;
  coll_leave(s, q->comm->me);
  q->slot = nullptr;
  q->done = true;
  return true;
}

// combine contributions 0..upto-1 into out
void combine(CollSlot *s, int upto, int op, MPI_Op oph, MPI_Datatype dth,
             FType *t, long count, std::vector<char> &out)
{
  int order[max_ranks];
  for (int i = 0; i < upto; ++i)
    order[i] = i;
  // the association (and for commutative built-in operations, the order) in
  // which an MPI library combines contributions is unspecified
  if (op < 1000 && s->red_draw)
  {
    uint64_t d = s->red_draw;
    for (int i = upto - 1; i > 0; --i)
    {
      d = mix(d);
      std::swap(order[i], order[d % (i + 1)]);
    }
  }
  out.assign(s->data[order[upto - 1]],
             s->data[order[upto - 1]] + count * t->size);
  if (!out.data())
    out.reserve(1);
  for (int i = upto - 2; i >= 0; --i)
    reduce2(op, oph, dth, t, s->data[order[i]], out.data(), count);
}

int op_of(MPI_Op o, char const *fn)
{
  auto it = ops->find((void *)o);
  if (it == ops->end())
    fatal(4, "rank %d: %s with an unknown reduction operation", my_rank, fn);
  return it->second;
}
// signature: count x elementary type, for collectives where all must agree
uint64_t sig_of(long count, FType *t)
{
  return 1 + (uint64_t)count * t->size * 31 + t->base % 1000;
}
void *my_block(void const *recvbuf, long off)
{
  return (char *)recvbuf + off;
}
} // namespace

#define IN_PLACE(p) ((void *)(p) == MPI_IN_PLACE)

extern "C"
{
int MPI_Init(int *, char ***)
{
  mpi_inited = true;
  return 0;
}
int MPI_Init_thread(int *, char ***, int req, int *prov)
{
  mpi_inited = true;
  *prov = req;
  return 0;
}
int MPI_Initialized(int *f)
{
  *f = my_rank >= 0;
  return 0;
}
int MPI_Finalized(int *f)
{
  *f = 0;
  return 0;
}
int MPI_Finalize() { return 0; }
int MPI_Query_thread(int *p)
{
  *p = MPI_THREAD_SERIALIZED;
  return 0;
}
int MPI_Abort(MPI_Comm, int code)
{
  fatal(6, "rank %d called MPI_Abort(%d)", my_rank, code);
}
int MPI_Comm_rank(MPI_Comm c, int *r)
{
  if (my_rank < 0)
  {
    *r = 0;
    return 0;
  }
  *r = C(c, "MPI_Comm_rank")->me;
  return 0;
}
int MPI_Comm_size(MPI_Comm c, int *n)
{
  if (my_rank < 0)
  {
    *n = 1;
    return 0;
  }
  *n = C(c, "MPI_Comm_size")->members.size();
  return 0;
}
double MPI_Wtime()
{
  return my_rank < 0 ? 0. : (R().clock + R().clock_skew) * 1e-9;
}
double MPI_Wtick() { return 1e-9; }
int MPI_Get_processor_name(char *n, int *l)
{
  strcpy(n, "sim");
  *l = 3;
  return 0;
}
int MPI_Error_string(int, char *s, int *l)
{
  strcpy(s, "error");
  *l = 5;
  return 0;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Errhandler_free(MPI_Errhandler *) { return 0; }
int MPI_Comm_test_inter(MPI_Comm, int *f)
{
  *f = 0;
  return 0;
}
int MPI_Topo_test(MPI_Comm, int *s)
{
  *s = MPI_UNDEFINED;
  return 0;
}
MPI_Fint MPI_Comm_c2f(MPI_Comm c)
{
  for (size_t i = 0; i < f2c->size(); ++i)
    if ((*f2c)[i] == c)
      return i;
  f2c->push_back(c);
  return f2c->size() - 1;
}
MPI_Comm MPI_Comm_f2c(MPI_Fint i) { return (*f2c)[i]; }

// ------------------------------------------------------------- communicators
static MPI_Comm new_comm(int id, std::vector<int> const &members)
{
  auto c = new FComm;
  c->id = id;
  c->members = members;
  c->me = -1;
  for (size_t i = 0; i < members.size(); ++i)
    if (members[i] == my_rank)
      c->me = i;
  (*comms)[(void *)c] = c;
  return (MPI_Comm)c;
}
static int agree_id(FComm *c, CollSlot *s)
{
  // member 0's draw of a fresh id, same on all: derived from (comm, seq)
  (void)c;
  return 100 + (int)(mix(s->seq * 64 + s->comm * 7919 + 13) % 2000000000);
}
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm *out)
{
  tick("MPI_Comm_dup");
  FComm *c = C(comm, "MPI_Comm_dup");
  CollSlot *s = coll_enter(c, COMMOP, 0, 0, 1, "MPI_Comm_dup");
  int id = agree_id(c, s);
  coll_put(s, c->me, nullptr, 0);
  coll_wake(s, c, c->me);
  coll_wait_all(s, c, "MPI_Comm_dup");
  coll_leave(s, c->me);
  *out = new_comm(id, c->members);
  for (auto &a : c->attrs)
  {
    KV &kv = (*keyvals)[a.first];
    if (kv.copy && kv.copy != MPI_COMM_NULL_COPY_FN)
    {
      void *v = nullptr;
      int flag = 0;
      kv.copy(comm, a.first, kv.extra, a.second, &v, &flag);
      if (flag)
        C(*out, "")->attrs[a.first] = v;
    }
  }
  return 0;
}
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm *out)
{
  tick("MPI_Comm_split");
  FComm *c = C(comm, "MPI_Comm_split");
  CollSlot *s = coll_enter(c, COMMOP, 0, 0, 2, "MPI_Comm_split");
  int id = agree_id(c, s);
  int ck[2] = {color, key};
  coll_put(s, c->me, ck, sizeof ck);
  coll_wake(s, c, c->me);
  coll_wait_all(s, c, "MPI_Comm_split");
  std::vector<std::pair<int, int>> mem;
  for (int i = 0; i < s->n; ++i)
  {
    int const *o = (int const *)s->data[i];
    if (o[0] == color)
      mem.push_back({o[1], i});
  }
  coll_leave(s, c->me);
  if (color == MPI_UNDEFINED)
  {
    *out = MPI_COMM_NULL;
    return 0;
  }
  std::stable_sort(mem.begin(), mem.end());
  std::vector<int> m;
  for (auto &p : mem)
    m.push_back(c->members[p.second]);
  *out = new_comm(id ^ (color + 1) * 1000003, m);
  return 0;
}
int MPI_Comm_split_type(MPI_Comm comm, int, int key, MPI_Info, MPI_Comm *out)
{
  return MPI_Comm_split(comm, 0, key, out);
}
int MPI_Comm_create(MPI_Comm comm, MPI_Group grp, MPI_Comm *out)
{
  tick("MPI_Comm_create");
  FComm *c = C(comm, "MPI_Comm_create");
  CollSlot *s = coll_enter(c, COMMOP, 0, 0, 3, "MPI_Comm_create");
  int id = agree_id(c, s);
  coll_put(s, c->me, nullptr, 0);
  coll_wake(s, c, c->me);
  coll_wait_all(s, c, "MPI_Comm_create");
  coll_leave(s, c->me);
  FGroup *gr = (FGroup *)grp;
  if (std::find(gr->members.begin(), gr->members.end(), my_rank) ==
      gr->members.end())
    *out = MPI_COMM_NULL;
  else
    *out = new_comm(id ^ (gr->members[0] + 1) * 1000003, gr->members);
  return 0;
}
int MPI_Comm_free(MPI_Comm *comm)
{
  FComm *c = C(*comm, "MPI_Comm_free");
  for (auto &a : c->attrs)
  {
    KV &kv = (*keyvals)[a.first];
    if (kv.del && kv.del != MPI_COMM_NULL_DELETE_FN)
      kv.del(*comm, a.first, a.second, kv.extra);
  }
  if (!c->predefined)
  {
    comms->erase((void *)*comm);
    delete c;
  }
  *comm = MPI_COMM_NULL;
  return 0;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *res)
{
  FComm *x = C(a, "MPI_Comm_compare"), *y = C(b, "MPI_Comm_compare");
  if (x == y)
    *res = MPI_IDENT;
  else if (x->members == y->members)
    *res = MPI_CONGRUENT;
  else
  {
    auto p = x->members, q = y->members;
    std::sort(p.begin(), p.end());
    std::sort(q.begin(), q.end());
    *res = p == q ? MPI_SIMILAR : MPI_UNEQUAL;
  }
  return 0;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group *gr)
{
  *gr = (MPI_Group) new FGroup{C(c, "MPI_Comm_group")->members};
  return 0;
}
static FGroup *G(MPI_Group gr)
{
  static FGroup empty;
  return gr == MPI_GROUP_EMPTY || gr == MPI_GROUP_NULL ? &empty : (FGroup *)gr;
}
int MPI_Group_free(MPI_Group *gr)
{
  if (*gr != MPI_GROUP_EMPTY && *gr != MPI_GROUP_NULL)
    delete (FGroup *)*gr;
  *gr = MPI_GROUP_NULL;
  return 0;
}
int MPI_Group_size(MPI_Group gr, int *n)
{
  *n = G(gr)->members.size();
  return 0;
}
int MPI_Group_rank(MPI_Group gr, int *r)
{
  *r = MPI_UNDEFINED;
  for (size_t i = 0; i < G(gr)->members.size(); ++i)
    if (G(gr)->members[i] == my_rank)
      *r = i;
  return 0;
}
int MPI_Group_incl(MPI_Group gr, int n, int const *r, MPI_Group *out)
{
  auto o = new FGroup;
  for (int i = 0; i < n; ++i)
    o->members.push_back(G(gr)->members.at(r[i]));
  *out = (MPI_Group)o;
  return 0;
}
int MPI_Group_excl(MPI_Group gr, int n, int const *r, MPI_Group *out)
{
  auto o = new FGroup;
  for (int i = 0; i < (int)G(gr)->members.size(); ++i)
    if (std::find(r, r + n, i) == r + n)
      o->members.push_back(G(gr)->members[i]);
  *out = (MPI_Group)o;
  return 0;
}
int MPI_Group_translate_ranks(MPI_Group a, int n, int const *ra, MPI_Group b,
                              int *rb)
{
  for (int i = 0; i < n; ++i)
  {
    rb[i] = MPI_UNDEFINED;
    for (size_t j = 0; j < G(b)->members.size(); ++j)
      if (G(b)->members[j] == G(a)->members.at(ra[i]))
        rb[i] = j;
  }
  return 0;
}
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *cp,
                           MPI_Comm_delete_attr_function *de, int *kv, void *ex)
{
  *kv = next_keyval++;
  if (keyvals)
    (*keyvals)[*kv] = {cp, de, ex};
  return 0;
}
int MPI_Comm_free_keyval(int *kv)
{
  *kv = MPI_KEYVAL_INVALID;
  return 0;
}
int MPI_Comm_set_attr(MPI_Comm c, int kv, void *v)
{
  C(c, "MPI_Comm_set_attr")->attrs[kv] = v;
  return 0;
}
int MPI_Comm_get_attr(MPI_Comm c, int kv, void *v, int *flag)
{
  static int tag_ub = 0x7fffffff;
  if (kv == MPI_TAG_UB)
  {
    *(void **)v = &tag_ub;
    *flag = 1;
    return 0;
  }
  auto &a = C(c, "MPI_Comm_get_attr")->attrs;
  auto it = a.find(kv);
  *flag = it != a.end();
  if (*flag)
    *(void **)v = it->second;
  return 0;
}
int MPI_Attr_get(MPI_Comm c, int kv, void *v, int *flag)
{
  return MPI_Comm_get_attr(c, kv, v, flag);
}
int MPI_Comm_delete_attr(MPI_Comm c, int kv)
{
  C(c, "MPI_Comm_delete_attr")->attrs.erase(kv);
  return 0;
}

// ------------------------------------------------------------------ datatypes
static int reg_type(FType *f, MPI_Datatype *out)
{
  f->predefined = false;
  (*types)[(void *)f] = f;
  *out = (MPI_Datatype)f;
  return 0;
}
int MPI_Type_contiguous(int n, MPI_Datatype t0, MPI_Datatype *out)
{
  FType *t = T(t0, "MPI_Type_contiguous");
  auto f = new FType;
  f->size = n * t->size;
  f->lb = 0;
  f->extent = n * t->extent;
  f->base = t->base;
  f->base_size = t->base_size;
  if (t->segs.size() == 1 && t->segs[0].off == 0 && t->segs[0].len == t->extent)
    f->segs = {{0, (long)f->size}};
  else
    for (int i = 0; i < n; ++i)
      for (auto &s : t->segs)
        f->segs.push_back({i * t->extent + s.off, s.len});
  return reg_type(f, out);
}
int MPI_Type_contiguous_c(MPI_Count n, MPI_Datatype t0, MPI_Datatype *out)
{
  return MPI_Type_contiguous(n, t0, out);
}
int MPI_Type_create_struct(int n, int const *bl, MPI_Aint const *off,
                           MPI_Datatype const *ty, MPI_Datatype *out)
{
  auto f = new FType;
  f->size = 0;
  f->base = -1;
  f->base_size = 0;
  long ub = 0;
  for (int i = 0; i < n; ++i)
  {
    FType *t = T(ty[i], "MPI_Type_create_struct");
    for (int k = 0; k < bl[i]; ++k)
      for (auto &s : t->segs)
        f->segs.push_back({off[i] + k * t->extent + s.off, s.len});
    f->size += bl[i] * t->size;
    ub = std::max(ub, (long)off[i] + bl[i] * t->extent);
  }
  f->lb = 0;
  f->extent = (ub + 7) / 8 * 8;
  return reg_type(f, out);
}
int MPI_Type_create_hindexed(int n, int const *bl, MPI_Aint const *off,
                             MPI_Datatype t, MPI_Datatype *out)
{
  std::vector<MPI_Datatype> ts(n, t);
  int e = MPI_Type_create_struct(n, bl, off, ts.data(), out);
  T(*out, "")->base = T(t, "")->base;
  T(*out, "")->base_size = T(t, "")->base_size;
  return e;
}
int MPI_Type_vector(int n, int bl, int stride, MPI_Datatype t0,
                    MPI_Datatype *out)
{
  FType *t = T(t0, "MPI_Type_vector");
  std::vector<int> b(n, bl);
  std::vector<MPI_Aint> o(n);
  for (int i = 0; i < n; ++i)
    o[i] = i * stride * t->extent;
  int e = MPI_Type_create_hindexed(n, b.data(), o.data(), t0, out);
  T(*out, "")->extent = n ? ((n - 1) * stride + bl) * t->extent : 0;
  return e;
}
int MPI_Type_create_resized(MPI_Datatype t0, MPI_Aint lb, MPI_Aint ext,
                            MPI_Datatype *out)
{
  auto f = new FType(*T(t0, "MPI_Type_create_resized"));
  f->lb = lb;
  f->extent = ext;
  return reg_type(f, out);
}
int MPI_Type_commit(MPI_Datatype *) { return 0; }
int MPI_Type_free(MPI_Datatype *t)
{
  FType *f = T(*t, "MPI_Type_free");
  if (f->predefined)
    fatal(4, "MPI_Type_free of a predefined type");
  types->erase((void *)f); // kept alive: pending operations may still use it
  *t = MPI_DATATYPE_NULL;
  return 0;
}
int MPI_Type_size(MPI_Datatype t, int *n)
{
  *n = T(t, "MPI_Type_size")->size;
  return 0;
}
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e)
{
  *lb = T(t, "")->lb;
  *e = T(t, "")->extent;
  return 0;
}
int MPI_Get_address(void const *p, MPI_Aint *a)
{
  *a = (MPI_Aint)p;
  return 0;
}
int MPI_Get_count(MPI_Status const *st, MPI_Datatype t, int *n)
{
  size_t s = T(t, "MPI_Get_count")->size;
  *n = s ? st->_ucount / s : 0;
  return 0;
}
int MPI_Get_elements(MPI_Status const *st, MPI_Datatype t, int *n)
{
  return MPI_Get_count(st, t, n);
}
int MPI_Get_elements_x(MPI_Status const *st, MPI_Datatype t, MPI_Count *n)
{
  *n = st->_ucount / T(t, "")->size;
  return 0;
}
int MPI_Op_create(MPI_User_function *fn, int commute, MPI_Op *out)
{
  auto o = new FOp{fn, commute, 1000};
  (*user_ops)[(void *)o] = o;
  (*ops)[(void *)o] = 1000;
  *out = (MPI_Op)o;
  return 0;
}
int MPI_Op_free(MPI_Op *o)
{
  ops->erase((void *)*o);
  user_ops->erase((void *)*o);
  delete (FOp *)*o;
  *o = MPI_OP_NULL;
  return 0;
}
int MPI_Op_commutative(MPI_Op o, int *c)
{
  auto it = user_ops->find((void *)o);
  *c = it == user_ops->end() ? 1 : it->second->commute;
  return 0;
}

// ------------------------------------------------------------- point to point
static int send_blocking(void const *b, int n, MPI_Datatype t, int d, int tag,
                         MPI_Comm c, bool sync, char const *fn)
{
  tick(fn);
  FReq *q = start_send(b, n, t, d, tag, c, sync, fn);
  wait_some(&q, 1, true, fn);
  finish_req(q);
  return 0;
}
int MPI_Send(void const *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{
  buffered = !called_from_program(__builtin_return_address(0));
  return send_blocking(b, n, t, d, tag, c, false, "MPI_Send");
}
int MPI_Ssend(void const *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{
  return send_blocking(b, n, t, d, tag, c, true, "MPI_Ssend");
}
int MPI_Rsend(void const *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{
  buffered = !called_from_program(__builtin_return_address(0));
  return send_blocking(b, n, t, d, tag, c, false, "MPI_Rsend");
}
int MPI_Isend(void const *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c,
              MPI_Request *r)
{
  tick("MPI_Isend");
  *r = (MPI_Request)start_send(b, n, t, d, tag, c, false, "MPI_Isend");
  return 0;
}
int MPI_Issend(void const *b, int n, MPI_Datatype t, int d, int tag,
               MPI_Comm c, MPI_Request *r)
{
  tick("MPI_Issend");
  *r = (MPI_Request)start_send(b, n, t, d, tag, c, true, "MPI_Issend");
  return 0;
}
int MPI_Irsend(void const *b, int n, MPI_Datatype t, int d, int tag,
               MPI_Comm c, MPI_Request *r)
{
  tick("MPI_Irsend");
  *r = (MPI_Request)start_send(b, n, t, d, tag, c, false, "MPI_Irsend");
  return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c,
              MPI_Request *r)
{
  tick("MPI_Irecv");
  *r = (MPI_Request)start_recv(b, n, t, s, tag, c, "MPI_Irecv");
  return 0;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c,
             MPI_Status *st)
{
  tick("MPI_Recv");
  FReq *q = start_recv(b, n, t, s, tag, c, "MPI_Recv");
  wait_some(&q, 1, true, "MPI_Recv");
  fill_status(q, st);
  finish_req(q);
  return 0;
}
int MPI_Sendrecv(void const *sb, int sn, MPI_Datatype stt, int d, int stag,
                 void *rb, int rn, MPI_Datatype rt, int s, int rtag,
                 MPI_Comm c, MPI_Status *st)
{
  tick("MPI_Sendrecv");
  FReq *q[2] = {start_recv(rb, rn, rt, s, rtag, c, "MPI_Sendrecv"),
                start_send(sb, sn, stt, d, stag, c, false, "MPI_Sendrecv")};
  wait_some(q, 2, true, "MPI_Sendrecv");
  fill_status(q[0], st);
  finish_req(q[0]);
  finish_req(q[1]);
  return 0;
}
static bool find_msg(FComm *c, int s, int tag, MPI_Status *st)
{
  FReq tmp;
  tmp.comm = c;
  tmp.src = s;
  tmp.tag = tag;
  for (Msg *m : *arrived)
    if (matches(&tmp, m))
    {
      if (st != MPI_STATUS_IGNORE)
      {
        int k = 0;
        while (c->members[k] != m->src)
          ++k;
        memset(st, 0, sizeof *st);
        st->MPI_SOURCE = k;
        st->MPI_TAG = m->tag;
        st->_ucount = m->size;
      }
      return true;
    }
  return false;
}
int MPI_Iprobe(int s, int tag, MPI_Comm comm, int *flag, MPI_Status *st)
{
  tick("MPI_Iprobe");
  FComm *c = C(comm, "MPI_Iprobe");
  progress();
  *flag = 0;
  if (draw(K_TEST))
    return 0;
  *flag = find_msg(c, s, tag, st);
  polled(*flag);
  return 0;
}
int MPI_Probe(int s, int tag, MPI_Comm comm, MPI_Status *st)
{
  tick("MPI_Probe");
  FComm *c = C(comm, "MPI_Probe");
  for (;;)
  {
    progress();
    if (find_msg(c, s, tag, st))
      return 0;
    R().wake = inbound_next();
    char w[100];
    snprintf(w, sizeof w, "MPI_Probe(<-%d tag %d comm %d)", s, tag, c->id);
    block(w);
  }
}
int MPI_Wait(MPI_Request *r, MPI_Status *st)
{
  tick("MPI_Wait");
  FReq *q = Q(*r, "MPI_Wait");
  wait_some(&q, 1, true, "MPI_Wait");
  fill_status(q, st);
  if (q)
    finish_req(q);
  *r = MPI_REQUEST_NULL;
  return 0;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st)
{
  tick("MPI_Waitall");
  std::vector<FReq *> q(n);
  for (int i = 0; i < n; ++i)
    q[i] = Q(r[i], "MPI_Waitall");
  wait_some(q.data(), n, true, "MPI_Waitall");
  for (int i = 0; i < n; ++i)
  {
    if (st != MPI_STATUSES_IGNORE)
      fill_status(q[i], st + i);
    if (q[i])
      finish_req(q[i]);
    r[i] = MPI_REQUEST_NULL;
  }
  return 0;
}
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st)
{
  tick("MPI_Waitany");
  std::vector<FReq *> q(n);
  bool have = false;
  for (int i = 0; i < n; ++i)
    have |= (q[i] = Q(r[i], "MPI_Waitany")) != nullptr;
  if (!have)
  {
    *idx = MPI_UNDEFINED;
    fill_status(nullptr, st);
    return 0;
  }
  wait_some(q.data(), n, false, "MPI_Waitany");
  std::vector<int> done;
  for (int i = 0; i < n; ++i)
    if (q[i] && is_done(q[i]))
      done.push_back(i);
  int k = done[0];
  if (uint64_t d = draw(K_ANY))
    k = done[d % done.size()];
  *idx = k;
  fill_status(q[k], st);
  finish_req(q[k]);
  r[k] = MPI_REQUEST_NULL;
  return 0;
}
int MPI_Waitsome(int n, MPI_Request *r, int *cnt, int *idx, MPI_Status *st)
{
  tick("MPI_Waitsome");
  std::vector<FReq *> q(n);
  bool have = false;
  for (int i = 0; i < n; ++i)
    have |= (q[i] = Q(r[i], "MPI_Waitsome")) != nullptr;
  if (!have)
  {
    *cnt = MPI_UNDEFINED;
    return 0;
  }
  wait_some(q.data(), n, false, "MPI_Waitsome");
  std::vector<int> done;
  for (int i = 0; i < n; ++i)
    if (q[i] && is_done(q[i]))
      done.push_back(i);
  if (uint64_t d = draw(K_ANY))
    done = {done[d % done.size()]};
  *cnt = done.size();
  for (size_t k = 0; k < done.size(); ++k)
  {
    idx[k] = done[k];
    if (st != MPI_STATUSES_IGNORE)
      fill_status(q[done[k]], st + k);
    finish_req(q[done[k]]);
    r[done[k]] = MPI_REQUEST_NULL;
  }
  return 0;
}
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st)
{
  tick("MPI_Test");
  FReq *q = Q(*r, "MPI_Test");
  if (!q)
  {
    *flag = 1;
    fill_status(q, st);
    return 0;
  }
  progress();
  *flag = 0;
  if (draw(K_TEST))
    return 0;
  if (is_done(q))
  {
    *flag = 1;
    fill_status(q, st);
    finish_req(q);
    *r = MPI_REQUEST_NULL;
  }
  polled(*flag);
  return 0;
}
int MPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *st)
{
  tick("MPI_Testall");
  progress();
  *flag = 0;
  if (draw(K_TEST))
    return 0;
  for (int i = 0; i < n; ++i)
    if (FReq *q = Q(r[i], "MPI_Testall"))
      if (!is_done(q))
      {
        polled(false);
        return 0;
      }
  polled(true);
  *flag = 1;
  for (int i = 0; i < n; ++i)
  {
    FReq *q = Q(r[i], "MPI_Testall");
    if (st != MPI_STATUSES_IGNORE)
      fill_status(q, st + i);
    if (q)
      finish_req(q);
    r[i] = MPI_REQUEST_NULL;
  }
  return 0;
}
int MPI_Request_free(MPI_Request *r)
{
  // the operation completes later; nobody will ask
  *r = MPI_REQUEST_NULL;
  return 0;
}
int MPI_Cancel(MPI_Request *r)
{
  FReq *q = Q(*r, "MPI_Cancel");
  if (q->kind != 1)
    fatal(5, "MPI_Cancel of a send");
  if (!q->done)
  {
    posted->remove(q);
    q->done = true;
    q->st._cancelled = 1;
  }
  return 0;
}

// ---------------------------------------------------------------- collectives
int MPI_Barrier(MPI_Comm comm)
{
  tick("MPI_Barrier");
  FComm *c = C(comm, "MPI_Barrier");
  CollSlot *s = coll_enter(c, BARRIER, 0, 0, 0, "MPI_Barrier");
  coll_put(s, c->me, nullptr, 0);
  coll_wake(s, c, c->me);
  coll_wait_all(s, c, "MPI_Barrier");
  coll_leave(s, c->me);
  return 0;
}
int MPI_Ibarrier(MPI_Comm comm, MPI_Request *r)
{
  tick("MPI_Ibarrier");
  FComm *c = C(comm, "MPI_Ibarrier");
  CollSlot *s = coll_enter(c, IBARRIER, 0, 0, 0, "MPI_Ibarrier");
  coll_put(s, c->me, nullptr, 0);
  coll_wake(s, c, c->me);
  auto q = new FReq;
  q->kind = 2;
  q->comm = c;
  q->slot = s;
  live_reqs->insert(q);
  *r = (MPI_Request)q;
  return 0;
}
int MPI_Bcast(void *b, int n, MPI_Datatype dt, int root, MPI_Comm comm)
{
  tick("MPI_Bcast");
  FComm *c = C(comm, "MPI_Bcast");
  FType *t = T(dt, "MPI_Bcast");
  CollSlot *s = coll_enter(c, BCAST, root, 0, 1 + n * t->size, "MPI_Bcast");
  std::vector<char> buf(c->me == root ? n * t->size : 0);
  if (c->me == root)
    pack(b, n, t, buf.data());
  coll_put(s, c->me, buf.data(), buf.size());
  coll_wake(s, c, c->me);
  if (s->sync)
    coll_wait_all(s, c, "MPI_Bcast");
  if (c->me != root)
  {
    coll_wait_one(s, c, root, "MPI_Bcast");
    unpack(s->data[root], s->size[root], b, t);
  }
  coll_leave(s, c->me);
  return 0;
}
static int reduce_impl(void const *sb, void *rb, int n, MPI_Datatype dt,
                       MPI_Op op, int root, MPI_Comm comm, int type,
                       char const *fn)
{
  tick(fn);
  FComm *c = C(comm, fn);
  FType *t = T(dt, fn);
  int const o = op_of(op, fn);
  CollSlot *s =
      coll_enter(c, type, root, o, o >= 1000 ? 1 + n * t->size : sig_of(n, t), fn);
  std::vector<char> buf(n * t->size + 1);
  pack(IN_PLACE(sb) ? rb : sb, n, t, buf.data());
  coll_put(s, c->me, buf.data(), n * t->size);
  coll_wake(s, c, c->me);
  if (type == ALLREDUCE || c->me == root || s->sync)
    coll_wait_all(s, c, fn);
  if (type == ALLREDUCE || c->me == root)
  {
    std::vector<char> out;
    combine(s, s->n, o, op, dt, t, n, out);
    unpack(out.data(), n * t->size, rb, t);
  }
  coll_leave(s, c->me);
  return 0;
}
int MPI_Allreduce(void const *sb, void *rb, int n, MPI_Datatype dt, MPI_Op op,
                  MPI_Comm comm)
{
  return reduce_impl(sb, rb, n, dt, op, 0, comm, ALLREDUCE, "MPI_Allreduce");
}
int MPI_Reduce(void const *sb, void *rb, int n, MPI_Datatype dt, MPI_Op op,
               int root, MPI_Comm comm)
{
  return reduce_impl(sb, rb, n, dt, op, root, comm, REDUCE, "MPI_Reduce");
}
int MPI_Iallreduce(void const *sb, void *rb, int n, MPI_Datatype dt, MPI_Op op,
                   MPI_Comm comm, MPI_Request *r)
{
  // completing at once is a legal (if slow) implementation only when no rank
  // needs to do something else first; nothing here uses it that way
  *r = MPI_REQUEST_NULL;
  return reduce_impl(sb, rb, n, dt, op, 0, comm, ALLREDUCE, "MPI_Iallreduce");
}
static int scan_impl(void const *sb, void *rb, int n, MPI_Datatype dt,
                     MPI_Op op, MPI_Comm comm, bool excl, char const *fn)
{
  tick(fn);
  FComm *c = C(comm, fn);
  FType *t = T(dt, fn);
  int const o = op_of(op, fn);
  CollSlot *s = coll_enter(c, excl ? EXSCAN : SCAN, 0, o, sig_of(n, t), fn);
  std::vector<char> buf(n * t->size + 1);
  pack(IN_PLACE(sb) ? rb : sb, n, t, buf.data());
  coll_put(s, c->me, buf.data(), n * t->size);
  coll_wake(s, c, c->me);
  int const upto = c->me + (excl ? 0 : 1);
  if (s->sync)
    coll_wait_all(s, c, fn);
  for (int i = 0; i < upto; ++i)
    coll_wait_one(s, c, i, fn);
  if (upto > 0)
  {
    std::vector<char> out;
    combine(s, upto, o, op, dt, t, n, out);
    unpack(out.data(), n * t->size, rb, t);
  }
  coll_leave(s, c->me);
  return 0;
}
int MPI_Scan(void const *sb, void *rb, int n, MPI_Datatype dt, MPI_Op op,
             MPI_Comm comm)
{
  return scan_impl(sb, rb, n, dt, op, comm, false, "MPI_Scan");
}
int MPI_Exscan(void const *sb, void *rb, int n, MPI_Datatype dt, MPI_Op op,
               MPI_Comm comm)
{
  return scan_impl(sb, rb, n, dt, op, comm, true, "MPI_Exscan");
}
int MPI_Reduce_scatter(void const *sb, void *rb, int const *cnt,
                       MPI_Datatype dt, MPI_Op op, MPI_Comm comm)
{
  tick("MPI_Reduce_scatter");
  FComm *c = C(comm, "MPI_Reduce_scatter");
  FType *t = T(dt, "MPI_Reduce_scatter");
  int const o = op_of(op, "MPI_Reduce_scatter");
  long n = 0, off = 0;
  for (size_t i = 0; i < c->members.size(); ++i)
  {
    if ((int)i < c->me)
      off += cnt[i];
    n += cnt[i];
  }
  CollSlot *s =
      coll_enter(c, REDSCAT, 0, o, sig_of(n, t), "MPI_Reduce_scatter");
  std::vector<char> buf(n * t->size + 1);
  pack(IN_PLACE(sb) ? rb : sb, n, t, buf.data());
  coll_put(s, c->me, buf.data(), n * t->size);
  coll_wake(s, c, c->me);
  coll_wait_all(s, c, "MPI_Reduce_scatter");
  std::vector<char> out;
  combine(s, s->n, o, op, dt, t, n, out);
  unpack(out.data() + off * t->size, cnt[c->me] * t->size, rb, t);
  coll_leave(s, c->me);
  return 0;
}
int MPI_Reduce_scatter_block(void const *sb, void *rb, int cnt,
                             MPI_Datatype dt, MPI_Op op, MPI_Comm comm)
{
  std::vector<int> v(C(comm, "")->members.size(), cnt);
  return MPI_Reduce_scatter(sb, rb, v.data(), dt, op, comm);
}
static int gather_impl(void const *sb, int sn, MPI_Datatype st, void *rb,
                       int rn, int const *rcnt, int const *displ,
                       MPI_Datatype rt, int root, MPI_Comm comm, int type,
                       char const *fn)
{
  tick(fn);
  FComm *c = C(comm, fn);
  bool const all = type == ALLGATHER || type == ALLGATHERV;
  bool const recv = all || c->me == root;
  uint64_t sig = 0;
  if (type == ALLGATHER)
    sig = 1 + (uint64_t)rn * T(rt, fn)->size;
  CollSlot *s = coll_enter(c, type, all ? 0 : root, 0, sig, fn);
  std::vector<char> buf;
  if (IN_PLACE(sb))
  {
    FType *r = T(rt, fn);
    int cnt = rcnt ? rcnt[c->me] : rn;
    long off = rcnt ? (long)displ[c->me] : (long)c->me * rn;
    buf.resize(cnt * r->size + 1);
    pack(my_block(rb, off * r->extent), cnt, r, buf.data());
    buf.resize(cnt * r->size);
  }
  else
  {
    FType *t = T(st, fn);
    buf.resize(sn * t->size + 1);
    pack(sb, sn, t, buf.data());
    buf.resize(sn * t->size);
  }
  coll_put(s, c->me, buf.data(), buf.size());
  coll_wake(s, c, c->me);
  if (recv || s->sync)
    coll_wait_all(s, c, fn);
  if (recv)
  {
    FType *r = T(rt, fn);
    for (int i = 0; i < s->n; ++i)
    {
      size_t cap = (rcnt ? rcnt[i] : rn) * r->size;
      if (s->size[i] > cap || (type != GATHERV && s->size[i] != cap))
        fatal(4, "rank %d: %s receives %lu bytes from %d where %lu expected",
              my_rank, fn, (unsigned long)s->size[i], c->members[i],
              (unsigned long)cap);
      long off = rcnt ? (long)displ[i] : (long)i * rn;
      unpack(s->data[i], s->size[i], my_block(rb, off * r->extent), r);
    }
  }
  coll_leave(s, c->me);
  return 0;
}
int MPI_Gather(void const *sb, int sn, MPI_Datatype st, void *rb, int rn,
               MPI_Datatype rt, int root, MPI_Comm c)
{
  return gather_impl(sb, sn, st, rb, rn, nullptr, nullptr, rt, root, c, GATHER,
                     "MPI_Gather");
}
int MPI_Gatherv(void const *sb, int sn, MPI_Datatype st, void *rb,
                int const *rc, int const *d, MPI_Datatype rt, int root,
                MPI_Comm c)
{
  return gather_impl(sb, sn, st, rb, 0, rc, d, rt, root, c, GATHERV,
                     "MPI_Gatherv");
}
int MPI_Allgather(void const *sb, int sn, MPI_Datatype st, void *rb, int rn,
                  MPI_Datatype rt, MPI_Comm c)
{
  return gather_impl(sb, sn, st, rb, rn, nullptr, nullptr, rt, 0, c, ALLGATHER,
                     "MPI_Allgather");
}
int MPI_Allgatherv(void const *sb, int sn, MPI_Datatype st, void *rb,
                   int const *rc, int const *d, MPI_Datatype rt, MPI_Comm c)
{
  return gather_impl(sb, sn, st, rb, 0, rc, d, rt, 0, c, ALLGATHERV,
                     "MPI_Allgatherv");
}
static int scatter_impl(void const *sb, int sn, int const *scnt,
                        int const *displ, MPI_Datatype st, void *rb, int rn,
                        MPI_Datatype rt, int root, MPI_Comm comm, int type,
                        char const *fn)
{
  tick(fn);
  FComm *c = C(comm, fn);
  CollSlot *s = coll_enter(c, type, root, 0, 0, fn);
  std::vector<char> buf;
  std::vector<long> offs(s->n + 1, 0);
  if (c->me == root)
  {
    FType *t = T(st, fn);
    for (int i = 0; i < s->n; ++i)
    {
      int cnt = scnt ? scnt[i] : sn;
      long off = scnt ? (long)displ[i] : (long)i * sn;
      size_t o = buf.size();
      buf.resize(o + cnt * t->size);
      pack(my_block(sb, off * t->extent), cnt, t, buf.data() + o);
      offs[i + 1] = buf.size();
    }
  }
  coll_put(s, c->me, buf.data(), buf.size(), offs.data(),
           offs.size() * sizeof(long));
  coll_wake(s, c, c->me);
  if (s->sync)
    coll_wait_all(s, c, fn);
  coll_wait_one(s, c, root, fn);
  if (!IN_PLACE(rb))
  {
    long const *o = (long const *)s->aux[root];
    FType *r = T(rt, fn);
    size_t n = o[c->me + 1] - o[c->me];
    if (n > rn * r->size)
      fatal(4, "rank %d: %s truncated", my_rank, fn);
    unpack(s->data[root] + o[c->me], n, rb, r);
  }
  coll_leave(s, c->me);
  return 0;
}
int MPI_Scatter(void const *sb, int sn, MPI_Datatype st, void *rb, int rn,
                MPI_Datatype rt, int root, MPI_Comm c)
{
  return scatter_impl(sb, sn, nullptr, nullptr, st, rb, rn, rt, root, c,
                      SCATTER, "MPI_Scatter");
}
int MPI_Scatterv(void const *sb, int const *sc, int const *d, MPI_Datatype st,
                 void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  return scatter_impl(sb, 0, sc, d, st, rb, rn, rt, root, c, SCATTERV,
                      "MPI_Scatterv");
}
static int alltoall_impl(void const *sb, int sn, int const *sc, int const *sd,
                         MPI_Datatype st, void *rb, int rn, int const *rc,
                         int const *rd, MPI_Datatype rt, MPI_Comm comm,
                         int type, char const *fn)
{
  tick(fn);
  FComm *c = C(comm, fn);
  FType *r = T(rt, fn);
  if (IN_PLACE(sb))
  {
    sb = rb;
    sn = rn;
    sc = rc;
    sd = rd;
    st = rt;
  }
  FType *t = T(st, fn);
  CollSlot *s = coll_enter(
      c, type, 0, 0, type == ALLTOALL ? 1 + (uint64_t)sn * t->size : 0, fn);
  std::vector<char> buf;
  std::vector<long> offs(s->n + 1, 0);
  for (int i = 0; i < s->n; ++i)
  {
    int cnt = sc ? sc[i] : sn;
    long off = sc ? (long)sd[i] : (long)i * sn;
    size_t o = buf.size();
    buf.resize(o + cnt * t->size);
    if (cnt)
      pack(my_block(sb, off * t->extent), cnt, t, buf.data() + o);
    offs[i + 1] = buf.size();
  }
  coll_put(s, c->me, buf.data(), buf.size(), offs.data(),
           offs.size() * sizeof(long));
  coll_wake(s, c, c->me);
  coll_wait_all(s, c, fn);
  for (int i = 0; i < s->n; ++i)
  {
    long const *o = (long const *)s->aux[i];
    size_t n = o[c->me + 1] - o[c->me];
    int cnt = rc ? rc[i] : rn;
    if (n != cnt * r->size)
      fatal(4, "rank %d: %s receives %lu bytes from %d, expected %lu", my_rank,
            fn, (unsigned long)n, c->members[i],
            (unsigned long)(cnt * r->size));
    long off = rc ? (long)rd[i] : (long)i * rn;
    if (n)
      unpack(s->data[i] + o[c->me], n, my_block(rb, off * r->extent), r);
  }
  coll_leave(s, c->me);
  return 0;
}
int MPI_Alltoall(void const *sb, int sn, MPI_Datatype st, void *rb, int rn,
                 MPI_Datatype rt, MPI_Comm c)
{
  return alltoall_impl(sb, sn, nullptr, nullptr, st, rb, rn, nullptr, nullptr,
                       rt, c, ALLTOALL, "MPI_Alltoall");
}
int MPI_Alltoallv(void const *sb, int const *sc, int const *sd,
                  MPI_Datatype st, void *rb, int const *rc, int const *rd,
                  MPI_Datatype rt, MPI_Comm c)
{
  return alltoall_impl(sb, 0, sc, sd, st, rb, 0, rc, rd, rt, c, ALLTOALLV,
                       "MPI_Alltoallv");
}
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void *p)
{
  *(void **)p = malloc(n ? n : 1);
  return 0;
}
int MPI_Free_mem(void *p)
{
  free(p);
  return 0;
}
} // extern "C"
