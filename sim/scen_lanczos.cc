// The library's own eigensolver on operators whose spectrum is known, one
// solver and one operator shared by several WorkStream tasks.
#include "scen.hpp"
#include "scen_common.hpp"

#include <mfmg/common/lanczos.templates.hpp>

#include <deal.II/base/work_stream.h>
#include <deal.II/lac/vector.h>

#include <algorithm>
#include <cmath>

namespace mfsim
{
namespace
{
using Vec = dealii::Vector<double>;

// Q D Q with a Householder reflection Q
struct Spectral
{
  std::vector<double> d;
  Vec u;
  bool rotate = false;
  size_t m() const { return d.size(); }
  size_t n() const { return d.size(); }
  void reflect(Vec &x) const
  {
    if (rotate)
      x.add(-2. * (u * x), u);
  }
  void vmult(Vec &y, Vec const &x) const
  {
    ws_yield(1);
    y = x;
    reflect(y);
    for (unsigned i = 0; i < d.size(); ++i)
      y[i] *= d[i];
    reflect(y);
  }
};

struct Task
{
  int nev, per_cycle, cycles;
  uint64_t salt;
};
struct Nothing
{
};
struct Out
{
  std::vector<double> v;
};

// what the cycles find: each one the smallest of the distinct eigenvalues that
// are left
std::vector<double> expected(std::vector<double> d, Task const &t)
{
  std::sort(d.begin(), d.end());
  std::vector<double> out;
  for (int c = 0; c < t.cycles; ++c)
  {
    std::vector<double> rest;
    int found = 0;
    for (size_t i = 0; i < d.size(); ++i)
      if ((i == 0 || d[i] != d[i - 1]) && found < t.per_cycle)
      {
        out.push_back(d[i]);
        ++found;
      }
      else
        rest.push_back(d[i]);
    d = rest;
  }
  out.resize(t.nev);
  std::sort(out.begin(), out.end());
  return out;
}
} // namespace

void scen_lanczos(Params const &p)
{
  CommChoice cc(p);
  if (!cc.inside())
    return;
  int rank;
  MPI_Comm_rank(cc.comm, &rank);
  uint64_t const salt = p.num("salt", 1) + 1000 * rank;
  int const distinct = p.num("distinct", 20), mult = p.num("mult", 1),
            outliers = p.num("outliers", 0);
  double const big = p.real("big", 200.), tol = p.real("tol", 1e-8);
  Spectral op;
  for (int i = 0; i < distinct; ++i)
  {
    // apart from each other, else no tolerance tells them apart
    double const v = 1. + i + .3 * hashed(salt, i);
    for (int k = 0; k < mult; ++k)
      op.d.push_back(v);
  }
  for (int i = 0; i < outliers; ++i)
    op.d.push_back(big * (1. + .25 * i));
  int const n = op.d.size();
  for (int i = n - 1; i > 0; --i)
    std::swap(op.d[i],
              op.d[(int)(std::abs(hashed(salt + 1, i)) * 1e6) % (i + 1)]);
  op.u.reinit(n);
  op.rotate = p.num("rotate", 0);
  for (int i = 0; i < n; ++i)
    op.u[i] = hashed(salt + 2, i);
  op.u /= op.u.l2_norm();

  double const top = *std::max_element(op.d.begin(), op.d.end());
  std::vector<Task> tasks;
  {
    // nev:per_cycle:cycles | ...
    std::string const plan = p.str("plan", "1:1:1");
    size_t at = 0;
    for (;;)
    {
      Task t{};
      sscanf(plan.c_str() + at, "%d:%d:%d", &t.nev, &t.per_cycle, &t.cycles);
      t.salt = salt + 10 + tasks.size();
      tasks.push_back(t);
      at = plan.find('|', at);
      if (at == std::string::npos)
        break;
      ++at;
    }
  }
  mfmg::Lanczos<Spectral, Vec> const solver(op);
  // an operator that counts for one task, the solver object being shared where
  // nothing is counted
  struct Counting
  {
    Spectral const &op;
    mutable long applied = 0;
    size_t m() const { return op.m(); }
    size_t n() const { return op.n(); }
    void vmult(Vec &y, Vec const &x) const
    {
      ++applied;
      op.vmult(y, x);
    }
  };
  int const maxit = p.num("maxit", 4 * n);
  std::vector<int> index(tasks.size());
  for (size_t i = 0; i < index.size(); ++i)
    index[i] = i;
  auto work = [&](std::vector<int>::iterator const &it, Nothing &, Out &out) {
    Task const &t = tasks[*it];
    ptree q;
    q.put("num_eigenpairs", t.nev);
    q.put("max_iterations", maxit);
    q.put("tolerance", tol);
    if (p.has("overshoot"))
      q.put("percent_overshoot", p.num("overshoot", 0));
    if (t.cycles > 1 || p.num("deflated", 0))
    {
      q.put("is_deflated", true);
      q.put("num_cycles", t.cycles);
      q.put("num_eigenpairs_per_cycle", t.per_cycle);
    }
    Vec guess(n);
    for (int i = 0; i < n; ++i)
      guess[i] = 1.5 + .5 * hashed(t.salt, i);
    op.reflect(guess);
    Vec const before = guess;
    std::vector<double> evals;
    std::vector<Vec> evecs;
    long applied = -1;
    if (p.num("shared", 1))
      std::tie(evals, evecs) = solver.solve(q, guess);
    else
    {
      Counting c{op};
      mfmg::Lanczos<Counting, Vec> own(c);
      std::tie(evals, evecs) = own.solve(q, guess);
      applied = c.applied;
    }
    guess -= before;
    if (guess.linfty_norm() != 0.)
      fail_property("Lanczos changes the vector it is given to start from");
    if ((int)evals.size() != t.nev || (int)evecs.size() != t.nev)
      fail_property("Lanczos returns %d eigenvalues and %d eigenvectors instead "
                    "of %d",
                    (int)evals.size(), (int)evecs.size(), t.nev);
    auto const ref = expected(op.d, t);
    // without the iterations it may need, all that is promised is that the
    // pairs belong together
    bool const converged = applied < 0 || t.cycles > 1 || applied < maxit;
    double const acc = 20. * t.cycles * tol + 1e-9 * top;
    for (int e = 0; e < t.nev; ++e)
    {
      if (e && evals[e] < evals[e - 1])
        fail_property("Lanczos does not return the eigenvalues in ascending "
                      "order");
      if (!converged)
        continue;
      Vec r(n);
      op.vmult(r, evecs[e]);
      double const lam = r * evecs[e] / (evecs[e] * evecs[e]);
      r.add(-evals[e], evecs[e]);
      if (!(r.l2_norm() < acc))
        fail_property("eigenpair %d of Lanczos has the residual %.3g (tolerance "
                      "%.3g, %ld applications)",
                      e, r.l2_norm(), tol, applied);
      if (p.num("smallest", 1))
      {
        if (!(std::abs(evals[e] - ref[e]) < acc) ||
            !(std::abs(lam - ref[e]) < acc))
          fail_property("Lanczos returns the eigenvalue %.12g (its vector: "
                        "%.12g) where %.12g is expected",
                        evals[e], lam, ref[e]);
        if (!(std::abs(evecs[e].l2_norm() - 1) < 1e-5))
          fail_property("eigenvector %d of Lanczos has norm %.12g", e,
                        evecs[e].l2_norm());
        for (int f = 0; f < e; ++f)
          if (!(std::abs(evecs[e] * evecs[f]) < 1e-5))
            fail_property("eigenvectors %d and %d of Lanczos are not "
                          "orthogonal (%.3g)",
                          e, f, evecs[e] * evecs[f]);
      }
    }
    out.v = evals;
    for (auto const &v : evecs)
      out.v.insert(out.v.end(), v.begin(), v.end());
  };
  std::vector<double> all;
  auto copy = [&](Out const &o) {
    all.insert(all.end(), o.v.begin(), o.v.end());
  };
  auto begin = index.begin();
  dealii::WorkStream::run(begin, index.end(), work, copy, Nothing(), Out());
  emit("lanczos", all);
}
} // namespace mfsim
