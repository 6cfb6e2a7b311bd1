// Workload side of the simulation: meshes, operators and the user-supplied
// evaluators that mfmg calls back into.
#ifndef MFSIM_PROBLEM_HPP
#define MFSIM_PROBLEM_HPP
#include "core.hpp"
#include "params.hpp"

#include <mfmg/dealii/dealii_matrix_free_mesh_evaluator.hpp>
#include <mfmg/dealii/dealii_mesh_evaluator.hpp>

#include <deal.II/base/index_set.h>
#include <deal.II/distributed/tria.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/fe/fe_q.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/lac/full_matrix.h>
#include <deal.II/lac/la_parallel_vector.h>
#include <deal.II/lac/sparse_matrix.h>
#include <deal.II/lac/trilinos_sparse_matrix.h>

#include <array>
#include <map>
#include <set>
#include <sstream>
#include <string>

namespace mfsim
{
using DVector = dealii::LinearAlgebra::distributed::Vector<double>;
using TMatrix = dealii::TrilinosWrappers::SparseMatrix;

template <int dim>
struct Problem
{
  Problem(MPI_Comm comm, Params const &p);
  MPI_Comm comm;
  Params const &params;
  dealii::parallel::distributed::Triangulation<dim> tria;
  dealii::FE_Q<dim> fe;
  dealii::DoFHandler<dim> dof_handler;
  dealii::AffineConstraints<double> constraints;
  dealii::IndexSet owned, relevant;
  TMatrix matrix;
  // constrained vertices which some cell touches without a constrained face
  std::set<std::array<long, 3>> corners;

  void distribute(); // unknowns, constraints, operator
  void remesh(int salt); // move cells between the ranks

  double coefficient(dealii::Point<dim> const &x) const;
  void setup_constraints(dealii::DoFHandler<dim> const &dh,
                         dealii::AffineConstraints<double> &c,
                         bool local) const;
  // assemble on a serial patch
  void assemble_patch(dealii::DoFHandler<dim> &dh,
                      dealii::AffineConstraints<double> &c,
                      dealii::SparsityPattern &sp,
                      dealii::SparseMatrix<double> &m) const;
  void assemble_global(TMatrix &m) const;

  // The agglomerates as flagged on the mesh, with the patch operator computed
  // from scratch in the global numbering (the oracle's view).
  struct Patch
  {
    unsigned int id;
    bool connected;
    std::vector<dealii::types::global_dof_index> dofs;
    std::vector<char> constrained;
    dealii::FullMatrix<double> m;
  };
  std::vector<Patch> reference_patches() const;
};

template <int dim>
class SimEvaluator : public mfmg::DealIIMeshEvaluator<dim>
{
public:
  SimEvaluator(Problem<dim> &p)
      : mfmg::DealIIMeshEvaluator<dim>(p.dof_handler, p.constraints), _p(p)
  {
  }
  void evaluate_agglomerate(dealii::DoFHandler<dim> &,
                            dealii::AffineConstraints<double> &,
                            dealii::SparsityPattern &,
                            dealii::SparseMatrix<double> &) const override;
  void evaluate_global(dealii::DoFHandler<dim> &,
                       dealii::AffineConstraints<double> &,
                       TMatrix &) const override;
  Problem<dim> &_p;
};

template <int dim>
class SimMFEvaluator : public mfmg::DealIIMatrixFreeMeshEvaluator<dim>
{
public:
  SimMFEvaluator(Problem<dim> &p);
  SimMFEvaluator(SimMFEvaluator<dim> const &o);
  std::unique_ptr<mfmg::DealIIMatrixFreeMeshEvaluator<dim>>
  clone() const override;
  void matrix_free_initialize_agglomerate(
      dealii::DoFHandler<dim> &) const override;
  void matrix_free_evaluate_agglomerate(dealii::Vector<double> const &,
                                        dealii::Vector<double> &) const override;
  std::vector<double> matrix_free_get_agglomerate_diagonal(
      dealii::AffineConstraints<double> &) const override;
  void matrix_free_evaluate_global(DVector const &, DVector &) const override;
  std::shared_ptr<dealii::DiagonalMatrix<DVector>>
  matrix_free_get_diagonal_inverse() const override;
  DVector get_diagonal() override;
  Problem<dim> &_p;
  bool is_clone = false;
  mutable int in_use = 0; // calls in progress on this object
  mutable dealii::DoFHandler<dim> const *initialised_for = nullptr;
  // per-clone state, deliberately not shareable between agglomerates
  mutable dealii::AffineConstraints<double> _c;
  mutable dealii::SparsityPattern _sp;
  mutable dealii::SparseMatrix<double> _m;
};
} // namespace mfsim
#endif
