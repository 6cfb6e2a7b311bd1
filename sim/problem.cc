#include "problem.hpp"

#include <deal.II/base/quadrature_lib.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/grid/filtered_iterator.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/lac/dynamic_sparsity_pattern.h>
#include <deal.II/lac/sparsity_tools.h>
#include <deal.II/lac/trilinos_sparsity_pattern.h>
#include <deal.II/numerics/vector_tools.h>
#include <array>
#include <cmath>
#include <deal.II/grid/tria.h>
#include <functional>
#include <set>

namespace mfsim
{
template <int dim>
static uint64_t cell_hash(dealii::Point<dim> const &x, uint64_t salt)
{
  uint64_t h = salt;
  for (int d = 0; d < dim; ++d)
    h = mix(h ^ (uint64_t)std::lround(x[d] * 1e6));
  return h;
}

template <int dim, typename Tria>
static void set_boundary_ids(Params const &p, Tria &tria)
{
  if (int const n = p.num("matids", 0))
    for (auto const &cell : tria.active_cell_iterators())
      if (!cell->is_artificial())
        cell->set_material_id(cell_hash<dim>(cell->center(), n) % n);
  for (auto const &cell : tria.active_cell_iterators())
    if (!cell->is_artificial())
      for (unsigned int f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell;
           ++f)
        if (cell->face(f)->at_boundary())
        {
          int const bc = p.num("bc", 1);
          bool const left = cell->face(f)->center()[0] < 1e-6;
          // 1 stands for the constrained part, anything else for the free one
          static unsigned const free_ids[] = {0, 2, 7, 255, 257, 1025, 65537};
          unsigned free_id = 0;
          if (int const salt = p.num("bids", 0))
            free_id = free_ids[cell_hash<dim>(cell->face(f)->center(), salt) % 7];
          cell->face(f)->set_boundary_id(
              bc == 0 ? free_id : (bc == 1 ? 1 : (left ? 1 : free_id)));
        }
}

template <int dim, typename Tria>
static void make_mesh(Params const &p, Tria &tria)
{
  std::string const mesh = p.str("mesh", "cube");
  std::vector<unsigned int> sub(dim);
  sub[0] = p.num("sx", 2);
  sub[1] = p.num("sy", 2);
  if (dim == 3)
    sub[2] = p.num("sz", 2);
  dealii::Point<dim> lo, hi;
  for (int d = 0; d < dim; ++d)
    hi[d] = sub[d];
  if (mesh == "cube")
    dealii::GridGenerator::hyper_cube(tria);
  else if (mesh == "rect")
    dealii::GridGenerator::subdivided_hyper_rectangle(tria, sub, lo, hi);
  else if (mesh == "ball")
    dealii::GridGenerator::hyper_ball(tria);
  else if (mesh == "ell")
    dealii::GridGenerator::hyper_L(tria, 0., 2.);
  else if (mesh == "islands")
  {
    // n disconnected components, each a box of sub cells, set apart
    int const n = p.num("islands", 2);
    std::vector<dealii::Point<dim>> vertices;
    std::vector<dealii::CellData<dim>> cells;
    for (int k = 0; k < n; ++k)
    {
      std::vector<unsigned int> s = sub;
      // components of different size
      if (k % 2)
        for (int d = 0; d < dim; ++d)
          s[d] = 1 + (s[d] - 1) / 2;
      unsigned int const nx = s[0] + 1, ny = s[1] + 1,
                         nz = dim == 3 ? s[dim - 1] + 1 : 1;
      unsigned int const base = vertices.size();
      for (unsigned int z = 0; z < nz; ++z)
        for (unsigned int y = 0; y < ny; ++y)
          for (unsigned int x = 0; x < nx; ++x)
          {
            dealii::Point<dim> v;
            v[0] = x + k * (sub[0] + 2.);
            v[1] = y;
            if (dim == 3)
              v[dim - 1] = z;
            vertices.push_back(v);
          }
      for (unsigned int z = 0; z < (dim == 3 ? nz - 1 : 1); ++z)
        for (unsigned int y = 0; y + 1 < ny; ++y)
          for (unsigned int x = 0; x + 1 < nx; ++x)
          {
            dealii::CellData<dim> c;
            for (unsigned int v = 0;
                 v < dealii::GeometryInfo<dim>::vertices_per_cell; ++v)
              c.vertices[v] = base + (x + (v & 1)) +
                              nx * (y + ((v >> 1) & 1)) +
                              nx * ny * (z + ((v >> 2) & 1));
            cells.push_back(c);
          }
    }
    tria.create_triangulation(vertices, cells, dealii::SubCellData());
  }
  else
    fatal(5, "mesh %s", mesh.c_str());
  tria.refine_global(p.num("ref", 1));
  set_boundary_ids<dim>(p, tria);
}
static std::array<long, 3> key(double const *x, int dim)
{
  std::array<long, 3> k{{0, 0, 0}};
  for (int d = 0; d < dim; ++d)
    k[d] = std::lround(x[d] * 1e6);
  return k;
}

// A cell may touch the constrained part of the boundary with nothing but a
// vertex (or an edge). Boundary ids, which live on faces, cannot tell an
// evaluator about it: it has to know the geometry.
template <int dim>
static std::set<std::array<long, 3>> find_corners(Params const &p)
{
  using G = dealii::GeometryInfo<dim>;
  std::set<std::array<long, 3>> corners;
  dealii::Triangulation<dim> tria;
  make_mesh<dim>(p, tria);
  std::set<unsigned int> constrained;
  for (auto const &cell : tria.active_cell_iterators())
    for (unsigned int f = 0; f < G::faces_per_cell; ++f)
      if (cell->face(f)->at_boundary() && cell->face(f)->boundary_id() == 1)
        for (unsigned int v = 0; v < G::vertices_per_face; ++v)
          constrained.insert(cell->face(f)->vertex_index(v));
  for (auto const &cell : tria.active_cell_iterators())
  {
    std::set<unsigned int> mine;
    for (unsigned int f = 0; f < G::faces_per_cell; ++f)
      if (cell->face(f)->at_boundary() && cell->face(f)->boundary_id() == 1)
        for (unsigned int v = 0; v < G::vertices_per_face; ++v)
          mine.insert(cell->face(f)->vertex_index(v));
    for (unsigned int v = 0; v < G::vertices_per_cell; ++v)
      if (constrained.count(cell->vertex_index(v)) &&
          !mine.count(cell->vertex_index(v)))
        corners.insert(key(&cell->vertex(v)[0], dim));
  }
  return corners;
}

template <int dim>
Problem<dim>::Problem(MPI_Comm c, Params const &p)
    : comm(c), params(p), tria(c), fe(p.num("deg", 1)), dof_handler(tria)
{
  make_mesh<dim>(p, tria);
  if (int const salt = p.num("hang", 0))
  {
    // local refinement
    for (auto const &cell : tria.active_cell_iterators())
      if (cell->is_locally_owned() &&
          cell_hash<dim>(cell->center(), salt) % 3 == 0)
        cell->set_refine_flag();
    tria.execute_coarsening_and_refinement();
  }
  if (p.num("bc", 1) != 0 && p.num("deg", 1) == 1)
    corners = find_corners<dim>(p);
  // what somebody else stored in the user indices
  if (int const dirty = p.num("dirty", 0))
    for (auto const &cell : tria.active_cell_iterators())
      cell->set_user_index(cell_hash<dim>(cell->center(), dirty) % 5);
  distribute();
}

template <int dim>
void Problem<dim>::remesh(int salt)
{
  auto c = tria.signals.cell_weight.connect(
      [salt](auto const &cell, auto) -> unsigned int {
        return cell_hash<dim>(cell->center(), salt) % 4000;
      });
  tria.repartition();
  c.disconnect();
  set_boundary_ids<dim>(params, tria);
  matrix.clear();
  distribute();
}

template <int dim>
void Problem<dim>::distribute()
{
  dof_handler.distribute_dofs(fe);
  owned = dof_handler.locally_owned_dofs();
  dealii::DoFTools::extract_locally_relevant_dofs(dof_handler, relevant);
  constraints.reinit(relevant);
  setup_constraints(dof_handler, constraints, false);
  assemble_global(matrix);
}

template <int dim>
double Problem<dim>::coefficient(dealii::Point<dim> const &x) const
{
  switch (params.num("mat", 0))
  {
  case 1: return 1. + std::abs(x[0]);
  case 2:
  {
    double v = 1.;
    for (int d = 0; d < dim; ++d)
      v += (1. + d) * std::abs(x[d]) * .5;
    return v;
  }
  case 3:
  {
    int s = 0;
    for (int d = 0; d < dim; ++d)
      s += (int)std::floor(x[d] * 3.7 + 50);
    return s % 2 ? 5. : 1.;
  }
  case 4:
  {
    // two materials that are worlds apart
    int s = 0;
    for (int d = 0; d < dim; ++d)
      s += (int)std::floor(x[d] * 1.9 + 50);
    return s % 2 ? params.real("contrast", 1e4) : 1.;
  }
  default: return 1.;
  }
}

template <int dim>
void Problem<dim>::setup_constraints(dealii::DoFHandler<dim> const &dh,
                                     dealii::AffineConstraints<double> &c,
                                     bool) const
{
  if (params.num("bc", 1) != 0)
    dealii::VectorTools::interpolate_boundary_values(
        dh, 1, dealii::Functions::ZeroFunction<dim>(), c);
  if (!corners.empty())
    for (auto const &cell : dh.active_cell_iterators())
      if (!cell->is_artificial())
        for (unsigned int v = 0; v < dealii::GeometryInfo<dim>::vertices_per_cell;
             ++v)
          if (corners.count(key(&cell->vertex(v)[0], dim)))
            c.add_line(cell->vertex_dof_index(v, 0));
  c.close();
}

template <int dim>
struct CellAssembler
{
  Problem<dim> const &p;
  dealii::QGauss<dim> const quadrature;
  dealii::FEValues<dim> fev;
  dealii::FullMatrix<double> cm;
  std::vector<dealii::types::global_dof_index> idx;
  CellAssembler(Problem<dim> const &p_)
      : p(p_), quadrature(p.fe.degree + 1),
        fev(p.fe, quadrature,
            dealii::update_values | dealii::update_gradients |
                dealii::update_quadrature_points | dealii::update_JxW_values),
        cm(p.fe.dofs_per_cell, p.fe.dofs_per_cell), idx(p.fe.dofs_per_cell)
  {
  }
  template <typename It>
  void operator()(It const &cell)
  {
    unsigned int const n = p.fe.dofs_per_cell;
    // the unit the user measures in
    double const scale = p.params.real("scale", 1.);
    double const mass = scale * p.params.real("mass", 0.);
    cm = 0;
    fev.reinit(cell);
    for (unsigned int q = 0; q < quadrature.size(); ++q)
    {
      double const k =
          scale * p.coefficient(fev.quadrature_point(q)) * fev.JxW(q);
      double const w = mass * fev.JxW(q);
      for (unsigned int i = 0; i < n; ++i)
        for (unsigned int j = 0; j < n; ++j)
          cm(i, j) += k * (fev.shape_grad(i, q) * fev.shape_grad(j, q)) +
                      w * fev.shape_value(i, q) * fev.shape_value(j, q);
    }
    cell->get_dof_indices(idx);
  }
};

template <int dim, typename Matrix>
static void assemble(Problem<dim> const &p, dealii::DoFHandler<dim> const &dh,
                     dealii::AffineConstraints<double> const &c, Matrix &m)
{
  CellAssembler<dim> as(p);
  for (auto const &cell : dh.active_cell_iterators())
    if (cell->is_locally_owned())
    {
      as(cell);
      c.distribute_local_to_global(as.cm, as.idx, m);
    }
}

template <int dim>
std::vector<typename Problem<dim>::Patch>
Problem<dim>::reference_patches() const
{
  std::map<unsigned int,
           std::vector<typename dealii::DoFHandler<dim>::active_cell_iterator>>
      cells;
  for (auto const &cell : dof_handler.active_cell_iterators())
    if (cell->is_locally_owned() && cell->user_index() != 0)
      cells[cell->user_index()].push_back(cell);
  std::vector<Patch> out;
  CellAssembler<dim> as(*this);
  unsigned int const npc = fe.dofs_per_cell;
  for (auto const &c : cells)
  {
    Patch P;
    P.id = c.first;
    std::map<dealii::types::global_dof_index, unsigned int> loc;
    std::vector<dealii::types::global_dof_index> idx(npc);
    for (auto const &cell : c.second)
    {
      cell->get_dof_indices(idx);
      for (auto i : idx)
        if (loc.emplace(i, P.dofs.size()).second)
          P.dofs.push_back(i);
    }
    unsigned int const n = P.dofs.size();
    P.constrained.assign(n, 0);
    for (unsigned int i = 0; i < n; ++i)
      P.constrained[i] = constraints.is_constrained(P.dofs[i]);
    dealii::AffineConstraints<double> con;
    for (unsigned int i = 0; i < n; ++i)
      if (P.constrained[i])
        con.add_line(i);
    con.close();
    dealii::FullMatrix<double> full(n, n);
    // connectivity of the patch through shared dofs
    std::vector<unsigned int> comp(n);
    for (unsigned int i = 0; i < n; ++i)
      comp[i] = i;
    std::function<unsigned int(unsigned int)> root = [&](unsigned int i) {
      return comp[i] == i ? i : comp[i] = root(comp[i]);
    };
    dealii::DynamicSparsityPattern dsp(n);
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int j = 0; j < n; ++j)
        dsp.add(i, j);
    dealii::SparsityPattern sp;
    sp.copy_from(dsp);
    dealii::SparseMatrix<double> m(sp);
    for (auto const &cell : c.second)
    {
      as(cell);
      std::vector<dealii::types::global_dof_index> l(npc);
      for (unsigned int i = 0; i < npc; ++i)
      {
        l[i] = loc[as.idx[i]];
        comp[root(l[i])] = root(l[0]);
      }
      con.distribute_local_to_global(as.cm, l, m);
    }
    P.connected = true;
    for (unsigned int i = 0; i < n; ++i)
      if (root(i) != root(0))
        P.connected = false;
    full.copy_from(m);
    P.m = full;
    out.push_back(P);
  }
  return out;
}

template <int dim>
void Problem<dim>::assemble_patch(dealii::DoFHandler<dim> &dh,
                                  dealii::AffineConstraints<double> &c,
                                  dealii::SparsityPattern &sp,
                                  dealii::SparseMatrix<double> &m) const
{
  dh.distribute_dofs(fe);
  dealii::IndexSet rel;
  dealii::DoFTools::extract_locally_relevant_dofs(dh, rel);
  c.clear();
  c.reinit(rel);
  setup_constraints(dh, c, true);
  dealii::DynamicSparsityPattern dsp(dh.n_dofs());
  dealii::DoFTools::make_sparsity_pattern(dh, dsp, c);
  sp.copy_from(dsp);
  m.reinit(sp);
  ws_yield(2);
  assemble(*this, dh, c, m);
}

template <int dim>
void Problem<dim>::assemble_global(TMatrix &m) const
{
  dealii::TrilinosWrappers::SparsityPattern sp(owned, owned, relevant, comm);
  dealii::DoFTools::make_sparsity_pattern(
      dof_handler, sp, constraints, false,
      dealii::Utilities::MPI::this_mpi_process(comm));
  sp.compress();
  m.reinit(sp);
  assemble(*this, dof_handler, constraints, m);
  m.compress(dealii::VectorOperation::add);
}

template <int dim>
void SimEvaluator<dim>::evaluate_agglomerate(
    dealii::DoFHandler<dim> &dh, dealii::AffineConstraints<double> &c,
    dealii::SparsityPattern &sp, dealii::SparseMatrix<double> &m) const
{
  callback_point("evaluate_agglomerate");
  _p.assemble_patch(dh, c, sp, m);
  ws_yield(2);
}

template <int dim>
void SimEvaluator<dim>::evaluate_global(dealii::DoFHandler<dim> &,
                                        dealii::AffineConstraints<double> &,
                                        TMatrix &m) const
{
  callback_point("global");
  m.copy_from(_p.matrix);
}

template <int dim>
SimMFEvaluator<dim>::SimMFEvaluator(Problem<dim> &p)
    : mfmg::DealIIMatrixFreeMeshEvaluator<dim>(p.dof_handler, p.constraints),
      _p(p)
{
}
template <int dim>
SimMFEvaluator<dim>::SimMFEvaluator(SimMFEvaluator<dim> const &o)
    : mfmg::DealIIMatrixFreeMeshEvaluator<dim>(o._p.dof_handler,
                                               o._p.constraints),
      _p(o._p), is_clone(true)
{
}
// The contract under which a user writes a matrix-free evaluator: agglomerates
// are evaluated on clones, one at a time per clone, and a clone is initialised
// for an agglomerate before it is asked to evaluate it.
struct InUse
{
  int &n;
  char const *what;
  InUse(int &n_, char const *w) : n(n_), what(w)
  {
    if (n++)
      fail_property("matrix-free evaluator entered by two workers at once (%s)",
                    what);
  }
  ~InUse() { --n; }
};
template <int dim>
std::unique_ptr<mfmg::DealIIMatrixFreeMeshEvaluator<dim>>
SimMFEvaluator<dim>::clone() const
{
  callback_point("clone");
  return std::make_unique<SimMFEvaluator<dim>>(*this);
}
template <int dim>
void SimMFEvaluator<dim>::matrix_free_initialize_agglomerate(
    dealii::DoFHandler<dim> &dh) const
{
  if (!is_clone)
    fail_property("the user's own evaluator is initialised for an agglomerate");
  InUse u(in_use, "initialize_agglomerate");
  callback_point("init_agglomerate");
  _p.assemble_patch(dh, _c, _sp, _m);
  initialised_for = &dh;
  ws_yield(2);
}
template <int dim>
void SimMFEvaluator<dim>::matrix_free_evaluate_agglomerate(
    dealii::Vector<double> const &src, dealii::Vector<double> &dst) const
{
  if (!initialised_for)
    fail_property("an agglomerate is evaluated before it is initialised");
  InUse u(in_use, "evaluate_agglomerate");
  callback_point("vmult_agglomerate");
  if (&src == &dst)
    fail_property("agglomerate evaluation of a vector into itself");
  if (src.size() != _m.n() || dst.size() != _m.m())
    fail_property("agglomerate evaluation with vectors of size %u and %u on an "
                  "agglomerate of %u unknowns",
                  (unsigned)src.size(), (unsigned)dst.size(),
                  (unsigned)_m.m());
  _m.vmult(dst, src);
}
template <int dim>
std::vector<double> SimMFEvaluator<dim>::matrix_free_get_agglomerate_diagonal(
    dealii::AffineConstraints<double> &c) const
{
  if (!initialised_for)
    fail_property("an agglomerate's diagonal is asked for before the "
                  "agglomerate is initialised");
  InUse u(in_use, "agglomerate_diagonal");
  callback_point("diag_agglomerate");
  c.copy_from(_c);
  std::vector<double> d(_m.m());
  for (unsigned int i = 0; i < d.size(); ++i)
    d[i] = _m.diag_element(i);
  return d;
}
template <int dim>
void SimMFEvaluator<dim>::matrix_free_evaluate_global(DVector const &src,
                                                      DVector &dst) const
{
  callback_point("vmult_global");
  if (&src == &dst)
    fail_property("global evaluation of a vector into itself");
  for (DVector const *v : {&src, static_cast<DVector const *>(&dst)})
    if (v->locally_owned_elements() != _p.owned)
      fail_property("global evaluation with a vector of size %u of which this "
                    "process owns %u entries, not %u of %u",
                    (unsigned)v->size(),
                    (unsigned)v->locally_owned_elements().n_elements(),
                    (unsigned)_p.owned.size(), (unsigned)_p.owned.n_elements());
  _p.matrix.vmult(dst, src);
}
template <int dim>
std::shared_ptr<dealii::DiagonalMatrix<DVector>>
SimMFEvaluator<dim>::matrix_free_get_diagonal_inverse() const
{
  callback_point("inverse_diagonal");
  auto d = std::make_shared<dealii::DiagonalMatrix<DVector>>();
  auto &v = d->get_vector();
  v.reinit(_p.owned, _p.comm);
  for (auto const i : _p.owned)
    v[i] = 1. / _p.matrix.diag_element(i);
  return d;
}
template <int dim>
DVector SimMFEvaluator<dim>::get_diagonal()
{
  callback_point("diagonal");
  DVector v(_p.owned, _p.relevant, _p.comm);
  for (auto const i : _p.owned)
    v[i] = _p.matrix.diag_element(i);
  v.update_ghost_values();
  return v;
}

template struct Problem<2>;
template struct Problem<3>;
template class SimEvaluator<2>;
template class SimEvaluator<3>;
template class SimMFEvaluator<2>;
template class SimMFEvaluator<3>;
} // namespace mfsim
