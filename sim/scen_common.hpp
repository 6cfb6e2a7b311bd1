#ifndef MFSIM_SCEN_COMMON_HPP
#define MFSIM_SCEN_COMMON_HPP
#include "scen.hpp"
#include "core.hpp"
#include "problem.hpp"

#include <mfmg/common/hierarchy_helpers.hpp>
#include <mfmg/common/operator.hpp>
#include <mfmg/dealii/dealii_trilinos_matrix_operator.hpp>

#include <Epetra_CrsMatrix.h>
#include <boost/property_tree/ptree.hpp>

#include <memory>
#include <mpi.h>

namespace mfsim
{
using Op = mfmg::Operator<DVector>;
using TOp = mfmg::DealIITrilinosMatrixOperator<DVector>;
using ptree = boost::property_tree::ptree;

std::shared_ptr<ptree> make_ptree(Params const &p);

// (row, column, value) triples of the locally owned rows, global numbering
void emit_matrix(std::string const &name, TMatrix const &m);
// matrix of an operator: from its sparse matrix, or by probing
void emit_operator(std::string const &name, Op const &op);
// any linear map given as a function
template <typename F>
void emit_map(std::string const &name, DVector const &dom, DVector const &ran,
              F const &f)
{
  std::vector<double> t;
  DVector x(dom), y(ran);
  for (dealii::types::global_dof_index j = 0; j < dom.size(); ++j)
  {
    x = 0.;
    if (x.in_local_range(j))
      x[j] = 1.;
    y = 0.;
    f(x, y);
    for (auto const i : y.locally_owned_elements())
      if (y[i] != 0.)
      {
        t.push_back(i);
        t.push_back(j);
        t.push_back(y[i]);
      }
  }
  emit(name, t);
  emit(name + ".dim", {(double)ran.size(), (double)dom.size()});
}
void emit_vector(std::string const &name, DVector const &v);
// deterministic pseudo-random entries, a function of the global index only
void fill(DVector &v, uint64_t salt);
// The applications that are compared between hierarchies: right-hand sides and
// vectors to start from. Among them: a zero right-hand side with and without
// anything to do, one that is zero on all processes but one.
void probe_vectors(int k, DVector &b, DVector &x);
double hashed(uint64_t salt, uint64_t i); // in [-1,1]

// The communicator the library is given: the world, a duplicate, or the
// sub-communicator of all ranks but those in `outsiders`.
struct CommChoice
{
  CommChoice(Params const &p);
  ~CommChoice();
  MPI_Comm comm = MPI_COMM_NULL; // null on a rank that stays outside
  bool own = false;
  bool inside() const { return comm != MPI_COMM_NULL; }
};

// Resource accounting around a scenario body
struct Census
{
  Census();
  // outstanding MPI objects now compared with construction: "" if balanced
  std::string diff() const;
  int req, comm, type, op;
};
long live_allocations(); // operator new minus operator delete so far
void track_allocations(bool on);  // remember who allocates
void report_allocations(int max); // ... and list what is left in the trace
void mpi_census();
int mpi_unreceived();
} // namespace mfsim
#endif
