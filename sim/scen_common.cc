#include "scen_common.hpp"
#include "scen.hpp"
#include <deal.II/base/logstream.h>
#include <p4est_bits.h>
#include <sc.h>
#include <zoltan.h>

namespace mfsim
{
void rank_library_init()
{
  float version;
  Zoltan_Initialize(0, nullptr, &version);
  sc_init(MPI_COMM_WORLD, 0, 0, nullptr, SC_LP_SILENT);
  p4est_init(nullptr, SC_LP_SILENT);
}

void worker_library_init()
{
  // deal.II keeps one log stream per thread, made when the thread first logs
  dealii::deallog.push("w");
  dealii::deallog << std::string(100, 'w') << std::endl;
  dealii::deallog.pop();
}

std::shared_ptr<ptree> make_ptree(Params const &p)
{
  auto t = std::make_shared<ptree>();
  t->put("eigensolver.type", p.str("eig", "lapack"));
  t->put("eigensolver.number of eigenvectors", p.num("nev", 1));
  if (p.has("tol"))
    t->put("eigensolver.tolerance", p.str("tol"));
  if (p.has("guess"))
    t->put("eigensolver.use_initial_guess", p.num("guess", 0) != 0);
  if (p.has("maxit"))
    t->put("eigensolver.max_iterations", p.num("maxit", 200));
  if (p.has("deflate"))
  {
    // cycles:eigenpairs per cycle
    std::string const d = p.str("deflate");
    t->put("eigensolver.is_deflated", true);
    t->put("eigensolver.num_cycles", d.substr(0, d.find(':')));
    t->put("eigensolver.num_eigenpairs_per_cycle", d.substr(d.find(':') + 1));
  }
  if (p.has("overshoot"))
    t->put("eigensolver.percent_overshoot", p.num("overshoot", 5));
  if (p.has("smoother"))
  {
    std::string s = p.str("smoother");
    for (char &c : s)
      if (c == '_')
        c = ' ';
    t->put("smoother.type", s);
  }
  if (p.has("nsm"))
    t->put("smoother.n_smoothing_steps", p.num("nsm", 1));
  if (p.has("cheb_degree"))
    t->put("smoother.degree", p.num("cheb_degree", 1));
  if (p.has("cheb_range"))
    t->put("smoother.smoothing_range", p.str("cheb_range"));
  if (p.has("cheb_max"))
    t->put("smoother.max_eigenvalue", p.str("cheb_max"));
  t->put("coarse.type", p.str("coarse", "direct"));
  t->put("agglomeration.partitioner", p.str("part", "block"));
  t->put("agglomeration.nx", p.num("nx", 2));
  t->put("agglomeration.ny", p.num("ny", 2));
  t->put("agglomeration.nz", p.num("nz", 2));
  t->put("agglomeration.n_agglomerates", p.num("nagg", 2));
  if (p.has("fast_ap"))
    t->put("fast_ap", p.num("fast_ap", 0) != 0);
  if (p.has("levels"))
    t->put("max levels", p.num("levels", 2));
  if (p.has("prec"))
    t->put("is preconditioner", p.num("prec", 1) != 0);
  return t;
}

void emit_matrix(std::string const &name, TMatrix const &tm)
{
  Epetra_CrsMatrix const &m = tm.trilinos_matrix();
  std::vector<double> t;
  for (int r = 0; r < m.NumMyRows(); ++r)
  {
    int n = 0, *idx = nullptr;
    double *v = nullptr;
    m.ExtractMyRowView(r, n, v, idx);
    int const gr = m.GRID(r);
    for (int k = 0; k < n; ++k)
    {
      t.push_back(gr);
      t.push_back(m.GCID(idx[k]));
      t.push_back(v[k]);
    }
    if (n == 0)
      t.insert(t.end(), {(double)gr, 0., 0.});
  }
  emit(name, t);
  emit(name + ".dim", {(double)tm.m(), (double)tm.n()});
  emit(name + ".rows", {(double)tm.local_range().first,
                        (double)tm.local_range().second});
}

void emit_operator(std::string const &name, Op const &op)
{
  if (auto t = dynamic_cast<TOp const *>(&op))
  {
    emit_matrix(name, *t->get_matrix());
    return;
  }
  auto dom = op.build_domain_vector();
  auto ran = op.build_range_vector();
  emit_map(name, *dom, *ran,
           [&](DVector const &x, DVector &y) { op.apply(x, y); });
}

void emit_vector(std::string const &name, DVector const &v)
{
  std::vector<double> t;
  for (auto const i : v.locally_owned_elements())
  {
    t.push_back(i);
    t.push_back(v[i]);
  }
  emit(name, t);
  emit(name + ".size", {(double)v.size()});
}

double hashed(uint64_t salt, uint64_t i)
{
  return (mix(mix(salt) ^ i) >> 11) * 0x1.0p-52 - 1.;
}

void fill(DVector &v, uint64_t salt)
{
  for (auto const i : v.locally_owned_elements())
    v[i] = hashed(salt, i);
}

void probe_vectors(int k, DVector &b, DVector &x)
{
  x = 0.;
  b = 0.;
  if (k < 3)
    fill(b, 300 + k);
  if (k == 1 || k == 4)
    fill(x, 400 + k);
  if (k == 5 && b.in_local_range(b.size() / 3))
    b[b.size() / 3] = 1.;
}

CommChoice::CommChoice(Params const &p)
{
  std::string const k = p.str("comm", "world");
  if (k == "world")
    comm = MPI_COMM_WORLD;
  else if (k == "dup")
  {
    MPI_Comm_dup(MPI_COMM_WORLD, &comm);
    own = true;
  }
  else
  {
    // the ranks whose bit is set in `outside` do not take part
    long const out = p.num("outside", 1);
    bool const in = !((out >> my_rank) & 1);
    MPI_Comm_split(MPI_COMM_WORLD, in ? 1 : MPI_UNDEFINED,
                   p.num("reverse", 0) ? -my_rank : my_rank, &comm);
    own = in;
    if (!in)
      comm = MPI_COMM_NULL;
  }
}
CommChoice::~CommChoice()
{
  if (own)
    MPI_Comm_free(&comm);
}

Census::Census()
{
  mpi_census();
  RankShm &r = g->rank[my_rank];
  req = r.live_req;
  comm = r.live_comm;
  type = r.live_type;
  op = r.live_op;
}
std::string Census::diff() const
{
  mpi_census();
  RankShm &r = g->rank[my_rank];
  char b[300];
  if (r.live_req == req && r.live_comm == comm && r.live_type == type &&
      r.live_op == op)
    return "";
  snprintf(b, sizeof b,
           "rank %d leaves MPI objects behind: requests %+d, communicators "
           "%+d, datatypes %+d, operations %+d",
           my_rank, r.live_req - req, r.live_comm - comm, r.live_type - type,
           r.live_op - op);
  return b;
}
} // namespace mfsim
