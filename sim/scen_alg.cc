// Scenarios around agglomerates, distributed operator algebra and files.
#include "scen.hpp"
#include "scen_common.hpp"

#include <mfmg/dealii/amge_host.hpp>
#include <mfmg/dealii/dealii_smoother.hpp>
#include <mfmg/dealii/dealii_solver.hpp>
#include <mfmg/dealii/dealii_utils.hpp>

#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/mapping_q1.h>
#include <deal.II/lac/dynamic_sparsity_pattern.h>
#include <deal.II/lac/trilinos_vector.h>

#include <fstream>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>

using namespace mfsim;

namespace
{
// ------------------------------------------------------------ agglomerates
std::string word(std::string const &s, int k)
{
  std::istringstream is(s);
  std::string t;
  for (int i = 0; i <= k; ++i)
    if (!std::getline(is, t, '|'))
      return "";
  return t;
}

template <int dim>
void agglo_dim(Params const &p)
{
  CommChoice cc(p);
  if (!cc.inside())
    return;
  Census census;
  {
    Problem<dim> prob(cc.comm, p);
    using Amge = mfmg::AMGe_host<dim, mfmg::DealIIMeshEvaluator<dim>, DVector>;
    Amge amge(cc.comm, prob.dof_handler);
    std::vector<double> counts;
    // plan: partitioner:nx:ny:nz:n | ...
    std::string const plan = p.str("plan", "block:2:2:2:2");
    for (int round = 0;; ++round)
    {
      std::string const w = word(plan, round);
      if (w.empty())
        break;
      std::string part;
      int nx = 1, ny = 1, nz = 1, n = 1;
      {
        char buf[64];
        sscanf(w.c_str(), "%63[^:]:%d:%d:%d:%d", buf, &nx, &ny, &nz, &n);
        part = buf;
      }
      ptree t;
      t.put("partitioner", part);
      t.put("nx", nx);
      t.put("ny", ny);
      t.put("nz", nz);
      t.put("n_agglomerates", n);
      bool const fresh = p.num("fresh_amge", 0);
      Amge other(cc.comm, prob.dof_handler);
      Amge &A = fresh ? other : amge;
      unsigned int const n_agg = A.build_agglomerates(t);
      // every owned cell in exactly one agglomerate 1..n, all non-empty
      std::map<unsigned int, std::set<unsigned int>> sets;
      unsigned int owned = 0;
      for (auto const &cell : prob.dof_handler.active_cell_iterators())
      {
        unsigned int const id = cell->user_index();
        if (cell->is_locally_owned())
        {
          ++owned;
          if (id == 0 || id > n_agg)
            fail_property("round %d (%s): an owned cell is in agglomerate %u "
                          "of 1..%u",
                          round, w.c_str(), id, n_agg);
          sets[id].insert(cell->active_cell_index());
        }
        else if (id != 0)
          fail_property("round %d (%s): a cell of another process is put into "
                        "agglomerate %u",
                        round, w.c_str(), id);
      }
      if (sets.size() != n_agg)
        fail_property("round %d (%s): %u agglomerates are reported and %u are "
                      "not empty",
                      round, w.c_str(), n_agg, (unsigned)sets.size());
      if (owned && !n_agg)
        fail_property("round %d (%s): owned cells and no agglomerate", round,
                      w.c_str());
      if (part != "block" && owned && n_agg > (unsigned)n)
        fail_property("round %d (%s): %u agglomerates instead of at most %d",
                      round, w.c_str(), n_agg, n);
      if (part == "block")
        for (auto const &s : sets)
          if (s.second.size() > (unsigned)(nx * ny * (dim == 3 ? nz : 1)))
            fail_property("round %d (%s): agglomerate %u has %u cells", round,
                          w.c_str(), s.first, (unsigned)s.second.size());
      // on a lattice: not longer than asked for in any direction, and nothing
      // is wasted where nothing is in the way
      std::string const mesh = p.str("mesh", "cube");
      if (part == "block" && mesh != "ball")
      {
        int const most[3] = {nx, ny, nz};
        double const h = std::pow(.5, p.num("ref", 1));
        std::map<unsigned int, std::pair<dealii::Point<dim>, dealii::Point<dim>>>
            box;
        for (auto const &cell : prob.dof_handler.active_cell_iterators())
          if (cell->is_locally_owned())
          {
            auto const c = cell->center();
            auto it = box.emplace(cell->user_index(), std::make_pair(c, c)).first;
            for (int d = 0; d < dim; ++d)
            {
              it->second.first[d] = std::min(it->second.first[d], c[d]);
              it->second.second[d] = std::max(it->second.second[d], c[d]);
            }
          }
        for (auto const &b : box)
          for (int d = 0; d < dim; ++d)
            if (std::lround((b.second.second[d] - b.second.first[d]) / h) + 1 >
                most[d])
              fail_property("round %d (%s): agglomerate %u is too long in "
                            "direction %d",
                            round, w.c_str(), b.first, d);
        if ((mesh == "cube" || mesh == "rect") &&
            dealii::Utilities::MPI::n_mpi_processes(cc.comm) == 1)
        {
          unsigned int expected = 1;
          char const *const sub[3] = {"sx", "sy", "sz"};
          for (int d = 0; d < dim; ++d)
          {
            int const cells = (mesh == "cube" ? 1 : p.num(sub[d], 2))
                              << p.num("ref", 1);
            expected *= (cells + most[d] - 1) / most[d];
          }
          if (n_agg != expected)
            fail_property("round %d (%s): %u blocks instead of %u", round,
                          w.c_str(), n_agg, expected);
        }
      }
      counts.push_back(n_agg);
      std::vector<double> ids;
      for (auto const &cell : prob.dof_handler.active_cell_iterators())
        if (cell->is_locally_owned())
        {
          for (int d = 0; d < dim; ++d)
            ids.push_back(cell->center()[d]);
          ids.push_back(cell->user_index());
        }
      emit("ids" + std::to_string(round), ids);
      // patches and blocks need a mesh without hanging nodes
      if (p.num("hang", 0))
        continue;

      // boundary layers
      std::vector<std::vector<unsigned int>> in, halo;
      std::tie(in, halo) = A.build_boundary_agglomerates();
      if (in.size() != n_agg || halo.size() != n_agg)
        fail_property("round %d (%s): %u/%u boundary layers for %u "
                      "agglomerates",
                      round, w.c_str(), (unsigned)in.size(),
                      (unsigned)halo.size(), n_agg);
      std::map<unsigned int, std::set<unsigned int>> at_vertex;
      for (auto const &cell : prob.dof_handler.active_cell_iterators())
        for (unsigned int v = 0;
             v < dealii::GeometryInfo<dim>::vertices_per_cell; ++v)
          at_vertex[cell->vertex_index(v)].insert(cell->active_cell_index());
      std::vector<std::vector<unsigned int>> all;
      for (unsigned int a = 0; a < n_agg; ++a)
      {
        std::set<unsigned int> const &mine = sets[a + 1];
        std::set<unsigned int> xin, xhalo;
        for (auto const &vc : at_vertex)
        {
          bool has_mine = false, has_other = false;
          for (unsigned int c : vc.second)
            (mine.count(c) ? has_mine : has_other) = true;
          if (has_mine && has_other)
            for (unsigned int c : vc.second)
              (mine.count(c) ? xin : xhalo).insert(c);
        }
        if (std::set<unsigned int>(in[a].begin(), in[a].end()) != xin ||
            in[a].size() != xin.size())
          fail_property("round %d (%s): wrong inner boundary layer of "
                        "agglomerate %u",
                        round, w.c_str(), a + 1);
        if (std::set<unsigned int>(halo[a].begin(), halo[a].end()) != xhalo ||
            halo[a].size() != xhalo.size())
          fail_property("round %d (%s): wrong halo of agglomerate %u", round,
                        w.c_str(), a + 1);
        all.push_back(in[a]);
        all.push_back(halo[a]);
      }
      // patches
      std::map<dealii::types::global_dof_index, dealii::Point<dim>> where;
      dealii::DoFTools::map_dofs_to_support_points(
          dealii::MappingQ1<dim>(), prob.dof_handler, where);
      for (unsigned int k = 0; k < n_agg + all.size(); ++k)
      {
        dealii::Triangulation<dim> tria;
        std::map<typename dealii::Triangulation<dim>::active_cell_iterator,
                 typename dealii::DoFHandler<dim>::active_cell_iterator>
            map;
        std::set<unsigned int> want;
        if (k < n_agg)
        {
          A.build_agglomerate_triangulation(k + 1, tria, map);
          want = sets[k + 1];
        }
        else
        {
          // the layers are handed over in ascending order of cells
          std::vector<unsigned int> cells = all[k - n_agg];
          A.build_agglomerate_triangulation(cells, tria, map);
          want.insert(cells.begin(), cells.end());
        }
        if (want.empty())
        {
          if (!map.empty())
            fail_property("round %d (%s): a patch out of nothing", round,
                          w.c_str());
          continue;
        }
        std::set<unsigned int> got;
        if (tria.n_active_cells() != map.size() || map.size() != want.size())
          fail_property("round %d (%s): a patch of %u cells has %u", round,
                        w.c_str(), (unsigned)want.size(),
                        tria.n_active_cells());
        for (auto const &m : map)
        {
          got.insert(m.second->active_cell_index());
          if (m.first->center().distance(m.second->center()) > 1e-10)
            fail_property("round %d (%s): a patch cell stands for a cell "
                          "somewhere else",
                          round, w.c_str());
          for (unsigned int f = 0;
               f < dealii::GeometryInfo<dim>::faces_per_cell; ++f)
            if (m.second->face(f)->at_boundary())
            {
              if (!m.first->face(f)->at_boundary() ||
                  m.first->face(f)->boundary_id() !=
                      m.second->face(f)->boundary_id())
                fail_property("round %d (%s): a patch loses the boundary id of "
                              "a domain boundary face",
                              round, w.c_str());
            }
            else if (m.first->face(f)->at_boundary() &&
                     m.first->face(f)->boundary_id() != 0)
              fail_property("round %d (%s): a face between agglomerates gets "
                            "boundary id %u",
                            round, w.c_str(),
                            (unsigned)m.first->face(f)->boundary_id());
        }
        if (got != want)
          fail_property("round %d (%s): a patch covers the wrong cells", round,
                        w.c_str());
        dealii::DoFHandler<dim> dh(tria);
        dh.distribute_dofs(prob.fe);
        auto const dm = A.compute_dof_index_map(map, dh);
        std::map<dealii::types::global_dof_index, dealii::Point<dim>> lw;
        dealii::DoFTools::map_dofs_to_support_points(dealii::MappingQ1<dim>(),
                                                     dh, lw);
        std::set<dealii::types::global_dof_index> uniq(dm.begin(), dm.end());
        if (dm.size() != dh.n_dofs() || uniq.size() != dm.size())
          fail_property("round %d (%s): the map from patch to global unknowns "
                        "is not one-to-one",
                        round, w.c_str());
        for (unsigned int i = 0; i < dm.size(); ++i)
          if (!where.count(dm[i]) || where[dm[i]].distance(lw[i]) > 1e-10)
            fail_property("round %d (%s): patch unknown %u is mapped to a "
                          "global unknown at another place",
                          round, w.c_str(), i);
      }
    }
    emit("counts", counts);
  }
  std::string const left = census.diff();
  if (!left.empty())
    fail_property("%s", left.c_str());
}

// ----------------------------------------------------------------- algebra
// contiguous ownership of n indices, from a salt; some ranks own nothing
dealii::IndexSet owned_range(MPI_Comm comm, unsigned n, uint64_t salt,
                             bool holes)
{
  int size, rank;
  MPI_Comm_size(comm, &size);
  MPI_Comm_rank(comm, &rank);
  std::vector<double> w(size);
  double sum = 0;
  for (int r = 0; r < size; ++r)
  {
    w[r] = 1.2 + hashed(salt, r);
    if (holes && hashed(salt ^ 77, r) < -.3)
      w[r] = 0;
    sum += w[r];
  }
  if (sum == 0)
    sum = w[0] = 1;
  std::vector<unsigned> start(size + 1, 0);
  double acc = 0;
  for (int r = 0; r < size; ++r)
  {
    acc += w[r];
    start[r + 1] = std::min<unsigned>(n, std::lround(n * acc / sum));
  }
  start[size] = n;
  dealii::IndexSet is(n);
  is.add_range(start[rank], start[rank + 1]);
  is.compress();
  return is;
}

std::shared_ptr<TMatrix> random_matrix(MPI_Comm comm,
                                       dealii::IndexSet const &rows,
                                       dealii::IndexSet const &cols,
                                       uint64_t salt, double density, bool spd,
                                       double unit = 1.)
{
  dealii::TrilinosWrappers::SparsityPattern sp(rows, cols, comm);
  auto has = [&](uint64_t i, uint64_t j) {
    if (spd && i == j)
      return true;
    if (spd && i > j)
      std::swap(i, j);
    return hashed(salt, i * 100003 + j) < 2 * density - 1;
  };
  for (auto const i : rows)
    for (unsigned j = 0; j < cols.size(); ++j)
      if (has(i, j))
        sp.add(i, j);
  sp.compress();
  auto m = std::make_shared<TMatrix>();
  m->reinit(sp);
  for (auto const i : rows)
    for (unsigned j = 0; j < cols.size(); ++j)
      if (has(i, j))
      {
        uint64_t a = i, b = j;
        if (spd && a > b)
          std::swap(a, b);
        m->set(i, j,
               spd && a == b ? 4. + cols.size() * density
                             : unit * hashed(salt ^ 5, a * 100003 + b));
      }
  m->compress(dealii::VectorOperation::insert);
  return m;
}

void check_vector(DVector const &v, dealii::IndexSet const &is,
                  char const *what)
{
  if (v.size() != is.size() || v.locally_owned_elements() != is)
    fail_property("%s has the wrong size or distribution (%u, %u owned; "
                  "expected %u, %u)",
                  what, (unsigned)v.size(),
                  (unsigned)v.locally_owned_elements().n_elements(),
                  (unsigned)is.size(), (unsigned)is.n_elements());
}
} // namespace

namespace mfsim
{
void scen_agglo(Params const &p)
{
  if (p.num("dim", 2) == 3)
    agglo_dim<3>(p);
  else
    agglo_dim<2>(p);
}

void scen_algebra(Params const &p)
{
  CommChoice cc(p);
  if (!cc.inside())
    return;
  Census census;
  {
    uint64_t const s = p.num("mseed", 1);
    bool const holes = p.num("holes", 0);
    unsigned const m = p.num("m", 12), k = p.num("k", 9), n = p.num("n", 7);
    double const den = p.real("density", .3);
    auto const im = owned_range(cc.comm, m, s * 4 + 0, holes);
    auto const ik = owned_range(cc.comm, k, s * 4 + 1, holes);
    auto const in = owned_range(cc.comm, n, s * 4 + 2, holes);
    auto A = random_matrix(cc.comm, im, ik, s * 8 + 1, den, false,
                           std::ldexp(1., p.num("ea", 0))); // m x k
    auto B = random_matrix(cc.comm, ik, in, s * 8 + 2, den, false,
                           std::ldexp(1., p.num("eb", 0))); // k x n
    auto D = random_matrix(cc.comm, in, ik, s * 8 + 3, den, false,
                           std::ldexp(1., p.num("ed", 0))); // n x k
    auto M = random_matrix(cc.comm, im, im, s * 8 + 4, den * .5, true);
    auto a = std::make_shared<TOp>(A), b = std::make_shared<TOp>(B),
         d = std::make_shared<TOp>(D), mm = std::make_shared<TOp>(M);
    auto ad = a->build_domain_vector(), ar = a->build_range_vector();
    check_vector(*ad, ik, "a domain vector");
    check_vector(*ar, im, "a range vector");
    emit_matrix("A", *A);
    emit_matrix("B", *B);
    emit_matrix("D", *D);
    emit_matrix("M", *M);
    if (a->grid_complexity() != A->m())
      fail_property("grid complexity %u of a matrix with %u rows",
                    (unsigned)a->grid_complexity(), (unsigned)A->m());
    emit("complexity", {(double)a->operator_complexity()});

    // One operand after the other at the same place in memory: the address of
    // an object that is gone means nothing.
    if (int const places = p.num("places", 0))
    {
      // (if somebody still holds the last one, that is his right)
      struct Place
      {
        alignas(TMatrix) unsigned char matrix[sizeof(TMatrix)];
        alignas(TOp) unsigned char op[sizeof(TOp)];
        int used = 0;
      };
      auto place = std::make_shared<Place>();
      for (int q = 0; q < places && !place->used; ++q)
      {
        auto fresh = random_matrix(cc.comm, q % 2 ? in : ik, q % 2 ? ik : in,
                                   s * 8 + 16 + q / 2, den, false, 1.);
        place->used += 2;
        std::shared_ptr<TMatrix> X(new (place->matrix) TMatrix,
                                   [place](TMatrix *t) {
                                     t->~TMatrix();
                                     --place->used;
                                   });
        X->copy_from(*fresh);
        std::string const n = std::to_string(q);
        emit_matrix("X" + n, *X);
        std::shared_ptr<TOp> x(new (place->op) TOp(X), [place](TOp *t) {
          t->~TOp();
          --place->used;
        });
        if (q % 2)
          emit_operator("AX" + n, *a->multiply_transpose(x));
        else
          emit_operator("AX" + n, *a->multiply(x));
        emit_operator("Xt" + n, *x->transpose());
      }
    }

    // the order of these independent operations is part of the history
    uint64_t const order = p.num("order", 0);
    for (int step = 0; step < 9; ++step)
    {
      static int const stride[3] = {1, 2, 4};
      int const what = (step * stride[order % 3] + order / 3) % 9;
      switch (what % 9)
      {
      case 0:
        emit_operator("AB", *a->multiply(b));
        break;
      case 1:
        emit_operator("ADt", *a->multiply_transpose(d));
        break;
      case 2:
      {
        auto t = a->transpose();
        emit_operator("At", *t);
        check_vector(*t->build_domain_vector(), im, "a transposed domain");
        check_vector(*t->build_range_vector(), ik, "a transposed range");
        emit_operator("Att", *t->transpose());
        break;
      }
      case 3:
        emit_map("A.apply", *ad, *ar, [&](DVector const &x, DVector &y) {
          for (auto const i : y.locally_owned_elements())
            y[i] = 1e300; // must be overwritten
          a->apply(x, y);
        });
        break;
      case 4:
        emit_map("At.apply", *ar, *ad, [&](DVector const &x, DVector &y) {
          for (auto const i : y.locally_owned_elements())
            y[i] = 1e300;
          a->apply(x, y, mfmg::OperatorMode::TRANS);
        });
        break;
      case 5:
      {
        // one row after the other, every rank gets its part
        DVector x(ad->locally_owned_elements(), cc.comm);
        std::vector<double> t;
        for (unsigned i = 0; i < m; ++i)
        {
          DVector const row = mfmg::extract_row(*A, i);
          check_vector(row, ik, "an extracted row");
          for (auto const j : row.locally_owned_elements())
            if (row[j] != 0.)
            {
              t.push_back(i);
              t.push_back(j);
              t.push_back(row[j]);
            }
        }
        emit("rows", t);
        break;
      }
      case 6:
      {
        // the product the matrix-free mode uses
        auto C = mfmg::matrix_transpose_matrix_multiply(im, in, cc.comm, *D, *a);
        emit_matrix("ADt2", *C);
        break;
      }
      case 7:
      {
        // mixed chain: D (A^T M A) D^T
        auto t = a->transpose()->multiply(mm)->multiply(a);
        emit_operator("chain", *d->multiply(t->multiply_transpose(d)));
        break;
      }
      case 8:
      {
        auto params = std::make_shared<ptree>();
        params->put("coarse.type", p.str("coarse", "direct"));
        mfmg::DealIISolver<DVector> solver(mm, params);
        DVector x(im, cc.comm), y(im, cc.comm);
        fill(y, 17);
        x = 0.;
        solver.apply(y, x);
        emit_vector("sol.b", y);
        emit_vector("sol.x", x);
        break;
      }
      }
    }
    // operands are untouched
    emit_matrix("A.after", *A);
    emit_matrix("D.after", *D);
  }
  std::string const left = census.diff();
  if (!left.empty())
    fail_property("%s", left.c_str());
}

static std::string slurp(std::string const &f, bool &ok)
{
  std::ifstream is(f);
  ok = bool(is);
  std::ostringstream os;
  os << is.rdbuf();
  return os.str();
}

// The numbers of a data array of a VTK file; false if there is none like that.
static bool vtk_array(std::string const &file, std::string const &mark,
                      std::vector<double> &out)
{
  out.clear();
  size_t const at = file.find(mark);
  if (at == std::string::npos)
    return false;
  size_t const tag = file.rfind('<', at), end = file.find('>', at),
               close = file.find("</DataArray>", at);
  if (tag == std::string::npos || end == std::string::npos ||
      close == std::string::npos)
    return false;
  std::string const head = file.substr(tag, end - tag),
                    body = file.substr(end + 1, close - end - 1);
  if (head.find("format=\"ascii\"") != std::string::npos)
  {
    std::istringstream is(body);
    for (double v; is >> v;)
      out.push_back(v);
    return true;
  }
  std::vector<unsigned char> raw;
  unsigned bits = 0, n_bits = 0;
  std::vector<size_t> starts; // padding ends a chunk
  starts.push_back(0);
  for (char const c : body)
  {
    int v = -1;
    if (c >= 'A' && c <= 'Z')
      v = c - 'A';
    else if (c >= 'a' && c <= 'z')
      v = c - 'a' + 26;
    else if (c >= '0' && c <= '9')
      v = c - '0' + 52;
    else if (c == '+')
      v = 62;
    else if (c == '/')
      v = 63;
    else if (c == '=')
    {
      if (n_bits)
        starts.push_back(raw.size());
      n_bits = 0;
      continue;
    }
    else
      continue;
    bits = (bits << 6 | v) & 0xffffff;
    n_bits += 6;
    if (n_bits >= 8)
    {
      n_bits -= 8;
      raw.push_back(bits >> n_bits & 0xff);
    }
  }
  auto word = [&raw](size_t k) {
    uint32_t w = 0;
    if (4 * k + 4 <= raw.size())
      memcpy(&w, &raw[4 * k], 4);
    return w;
  };
  std::vector<unsigned char> data;
  if (file.find("vtkZLibDataCompressor") != std::string::npos)
  {
    // number of blocks, size of a block, of the last one, compressed sizes
    uint32_t const n = word(0);
    if (raw.empty() || n == 0)
      return true;
    if (n > 1000 || raw.size() < 4 * (3 + n))
      return false;
    size_t pos = 4 * (3 + n);
    for (uint32_t b = 0; b < n; ++b)
    {
      uLongf size = (b + 1 == n && word(2)) ? word(2) : word(1);
      size_t const old = data.size();
      if (size > (1u << 26) || pos + word(3 + b) > raw.size())
        return false;
      data.resize(old + size);
      if (size && uncompress(&data[old], &size, &raw[pos], word(3 + b)) != Z_OK)
        return false;
      data.resize(old + size);
      pos += word(3 + b);
    }
  }
  else if (raw.size() >= 4)
    data.assign(raw.begin() + 4, raw.end());
  if (head.find("Float64") != std::string::npos)
    for (size_t i = 0; i + 8 <= data.size(); i += 8)
    {
      double v;
      memcpy(&v, &data[i], 8);
      out.push_back(v);
    }
  else if (head.find("Float32") != std::string::npos)
    for (size_t i = 0; i + 4 <= data.size(); i += 4)
    {
      float v;
      memcpy(&v, &data[i], 4);
      out.push_back(v);
    }
  else
    return false;
  return true;
}

template <int dim>
static void output_dim(Params const &p)
{
  CommChoice cc(p);
  if (!cc.inside())
    return;
  int size, rank;
  MPI_Comm_size(cc.comm, &size);
  MPI_Comm_rank(cc.comm, &rank);
  std::string const dir = p.str("dir") + "/j" + p.str("id");
  {
    mkdir(p.str("dir").c_str(), 0755);
    mkdir(dir.c_str(), 0755);
    MPI_Barrier(cc.comm);
    Problem<dim> prob(cc.comm, p);
    mfmg::AMGe_host<dim, mfmg::DealIIMeshEvaluator<dim>, DVector> amge(
        cc.comm, prob.dof_handler);
    ptree t;
    t.put("partitioner", p.str("part", "block"));
    t.put("nx", p.num("nx", 2));
    t.put("ny", p.num("ny", 2));
    t.put("nz", p.num("nz", 2));
    t.put("n_agglomerates", p.num("nagg", 2));
    ptree t2(t);
    t2.put("partitioner", "block");
    t2.put("nx", p.num("nx", 2) % 2 + 1);
    emit_matrix("A", prob.matrix);
    dealii::TrilinosWrappers::MPI::Vector v(prob.owned, cc.comm);
    for (auto const i : prob.owned)
      v[i] = hashed(3, i);
    v.compress(dealii::VectorOperation::insert);
    {
      std::vector<double> tv;
      for (auto const i : prob.owned)
      {
        tv.push_back(i);
        tv.push_back(v[i]);
      }
      emit("v", tv);
    }
    std::string const base = dir + "/agg", mfile = dir + "/matrix.mtx",
                      vfile = dir + "/vector.mtx", sfile = dir + "/serial.mtx";
    if (p.num("stale", 0))
    {
      // files of an earlier run, with more in them
      std::string junk;
      while (junk.size() < 400000)
        junk += "9 9 9.0 left over </VTKFile> Source=\"old\"\n";
      std::ofstream(base + std::to_string(rank) + ".vtu") << junk;
      if (rank == 0)
        for (auto const &name : {base + ".pvtu", mfile, vfile, sfile})
          std::ofstream(name) << junk;
      MPI_Barrier(cc.comm);
    }
    for (int k = 0; k < p.num("rounds", 1); ++k)
    {
      amge.build_agglomerates(k % 2 + 1 == p.num("rounds", 1) ? t : t2);
      amge.output(base);
      mfmg::matrix_market_output_file(mfile, prob.matrix);
      mfmg::matrix_market_output_file(vfile, v);
    }
    MPI_Barrier(cc.comm);
    // what ended up on disk
    bool ok;
    std::string const mine = base + std::to_string(rank) + ".vtu";
    std::string s = slurp(mine, ok);
    if (!ok)
      fail_property("the agglomerates of rank %d are not written", rank);
    if (s.find("</VTKFile>") == std::string::npos)
      fail_property("the file with the agglomerates of rank %d is cut off",
                    rank);
    if (s.find_first_not_of(" \n", s.find("</VTKFile>") + 10) !=
        std::string::npos)
      fail_property("the file with the agglomerates of rank %d has something "
                    "left of an earlier one at its end",
                    rank);
    {
      auto const c0 = s.find("<!--"), c1 = s.find("-->");
      if (c0 != std::string::npos && c1 != std::string::npos)
        s.erase(c0, c1 - c0);
      uint64_t h = 0;
      for (unsigned char c : s)
        h = mix(h ^ c);
      emit("vtu", {(double)(h >> 12), (double)s.size()});
      // every owned cell with its agglomerate and its process
      std::vector<double> points, aggs, subs;
      unsigned const per_cell = 1u << dim;
      if (vtk_array(s, "NumberOfComponents=\"3\"", points) &&
          vtk_array(s, "Name=\"agglomerates\"", aggs) &&
          vtk_array(s, "Name=\"subdomain\"", subs) &&
          points.size() == 3 * aggs.size() && aggs.size() == subs.size() &&
          aggs.size() % per_cell == 0)
      {
        std::map<std::array<long, 3>, std::pair<double, double>> cells;
        for (unsigned c = 0; c < aggs.size() / per_cell; ++c)
        {
          double x[3] = {0, 0, 0};
          for (unsigned v = c * per_cell; v < (c + 1) * per_cell; ++v)
          {
            for (int d = 0; d < dim; ++d)
              x[d] += points[3 * v + d] / per_cell;
            if (aggs[v] != aggs[c * per_cell] || subs[v] != subs[c * per_cell])
              fail_property("rank %d writes different agglomerates or processes "
                            "for one cell",
                            rank);
          }
          std::array<long, 3> k;
          for (int d = 0; d < 3; ++d)
            k[d] = std::lround(x[d] * 1e4);
          cells[k] = std::make_pair(aggs[c * per_cell], subs[c * per_cell]);
        }
        unsigned owned = 0;
        for (auto const &cell : prob.dof_handler.active_cell_iterators())
          if (cell->is_locally_owned())
          {
            ++owned;
            dealii::Point<dim> x;
            for (unsigned v = 0; v < per_cell; ++v)
              x += cell->vertex(v) / per_cell;
            bool found = false;
            for (auto const &c : cells)
            {
              bool here = true;
              for (int d = 0; d < dim; ++d)
                here = here && std::abs(c.first[d] - x[d] * 1e4) < 3;
              if (!here)
                continue;
              found = true;
              if (c.second.first != cell->user_index())
                fail_property("rank %d writes agglomerate %g for a cell of "
                              "agglomerate %u",
                              rank, c.second.first,
                              (unsigned)cell->user_index());
              if (c.second.second != prob.tria.locally_owned_subdomain())
                fail_property("rank %d writes process %g for a cell of its own",
                              rank, c.second.second);
            }
            if (!found)
              fail_property("an owned cell is missing in the file of rank %d",
                            rank);
          }
        if (cells.size() != owned)
          fail_property("rank %d writes %u cells instead of its %u", rank,
                        (unsigned)cells.size(), owned);
      }
      if (s.find("Name=\"agglomerates\"") == std::string::npos ||
          s.find("Name=\"subdomain\"") == std::string::npos)
        fail_property("the file of rank %d lacks the agglomerate or the "
                      "subdomain field",
                      rank);
    }
    if (rank == 0)
    {
      std::string const rec = slurp(base + ".pvtu", ok);
      if (!ok)
        fail_property("no master record is written");
      std::multiset<std::string> listed, want;
      size_t pos = 0;
      while ((pos = rec.find("Source=\"", pos)) != std::string::npos)
      {
        pos += 8;
        listed.insert(rec.substr(pos, rec.find('"', pos) - pos));
      }
      for (int r = 0; r < size; ++r)
        want.insert(base + std::to_string(r) + ".vtu");
      if (listed != want)
      {
        std::string l;
        for (auto &x : listed)
          l += " \"" + (x.size() > dir.size() ? x.substr(dir.size() + 1) : x) +
               "\"";
        fail_property("the master record of a run on %d ranks lists%s", size,
                      l.c_str());
      }
      for (auto &x : listed)
        if (access(x.c_str(), R_OK))
          fail_property("the master record lists a file that does not exist");
      // matrices
      std::vector<double> trip;
      std::ifstream is(mfile);
      std::string l;
      std::getline(is, l);
      while (is.peek() == '%')
        std::getline(is, l);
      double r_, c_, v_;
      is >> r_ >> c_ >> v_;
      emit("mm.dim", {r_, c_, v_});
      while (is >> r_ >> c_ >> v_)
      {
        trip.push_back(r_ - 1);
        trip.push_back(c_ - 1);
        trip.push_back(v_);
      }
      emit("mm", trip);
      std::ifstream vs(vfile);
      std::getline(vs, l);
      while (vs.peek() == '%')
        std::getline(vs, l);
      vs >> r_ >> c_;
      emit("vv.dim", {r_, c_});
      std::vector<double> vv;
      while (vs >> v_)
        vv.push_back(v_);
      emit("vv", vv);
      // a serial matrix from rank 0's own patch
      if (size == 1)
      {
        dealii::DynamicSparsityPattern dsp(5);
        for (unsigned i = 0; i < 5; ++i)
          for (unsigned j = 0; j < 5; ++j)
            if (i == j || hashed(9, 5 * i + j) > .2)
              dsp.add(i, j);
        dealii::SparsityPattern sp;
        sp.copy_from(dsp);
        dealii::SparseMatrix<double> sm(sp);
        for (unsigned i = 0; i < 5; ++i)
          for (unsigned j = 0; j < 5; ++j)
            if (sp.exists(i, j))
              sm.set(i, j, hashed(10, 5 * i + j));
        mfmg::matrix_market_output_file(sfile, sm);
        std::ifstream ss(sfile);
        std::getline(ss, l);
        while (ss.peek() == '%')
          std::getline(ss, l);
        ss >> r_ >> c_ >> v_;
        unsigned cnt = 0;
        while (ss >> r_ >> c_ >> v_)
        {
          ++cnt;
          if (std::abs(sm.el(r_ - 1, c_ - 1) - v_) > 1e-12)
            fail_property("a serial matrix is written wrongly");
        }
        if (cnt != sm.n_nonzero_elements())
          fail_property("a serial matrix is written with %u of %u entries", cnt,
                        (unsigned)sm.n_nonzero_elements());
      }
    }
    MPI_Barrier(cc.comm);
    unlink(mine.c_str());
    if (rank == 0)
    {
      unlink((base + ".pvtu").c_str());
      unlink(mfile.c_str());
      unlink(vfile.c_str());
      unlink(sfile.c_str());
    }
    MPI_Barrier(cc.comm);
    if (rank == 0)
      rmdir(dir.c_str());
  }
}

void scen_output(Params const &p)
{
  if (p.num("dim", 2) == 3)
    output_dim<3>(p);
  else
    output_dim<2>(p);
}
} // namespace mfsim
