// Scenarios around building and applying a hierarchy.
#include "scen.hpp"
#include "scen_common.hpp"

#include <mfmg/common/hierarchy.hpp>

#include <deal.II/lac/diagonal_matrix.h>
#include <deal.II/lac/precondition.h>
#include <deal.II/lac/solver_cg.h>
#include <deal.II/lac/solver_control.h>
#include <deal.II/lac/trilinos_precondition.h>

#include <sstream>

using namespace mfsim;

namespace
{
template <int dim>
std::shared_ptr<mfmg::MeshEvaluator> make_evaluator(Problem<dim> &p, bool mf)
{
  if (mf)
    return std::make_shared<SimMFEvaluator<dim>>(p);
  return std::make_shared<SimEvaluator<dim>>(p);
}

template <int dim>
void emit_agglomerates(Problem<dim> const &p)
{
  std::vector<double> ids;
  int bad_ghost = 0;
  for (auto const &cell : p.dof_handler.active_cell_iterators())
    if (cell->is_locally_owned())
    {
      for (int d = 0; d < dim; ++d)
        ids.push_back(cell->center()[d]);
      for (int d = dim; d < 3; ++d)
        ids.push_back(0.);
      ids.push_back(cell->user_index());
    }
    else if (cell->user_index() != 0)
      ++bad_ghost;
  emit("agg", ids);
  emit("agg.ghost", {(double)bad_ghost});
}

template <int dim>
void emit_patches(Problem<dim> const &p)
{
  std::vector<double> t;
  for (auto const &P : p.reference_patches())
  {
    unsigned int const n = P.dofs.size();
    t.push_back(P.id);
    t.push_back(n);
    t.push_back(P.connected);
    for (auto i : P.dofs)
      t.push_back(i);
    for (auto c : P.constrained)
      t.push_back(c);
    for (unsigned int j = 0; j < n; ++j)
      for (unsigned int i = 0; i < n; ++i)
        t.push_back(P.m(i, j));
  }
  emit("patches", t);
}

// ------------------------------------------------------------------- setup
// The pieces a hierarchy is made of, through the public helper interface.
template <int dim>
void setup_dim(Params const &p)
{
  CommChoice cc(p);
  if (!cc.inside())
    return;
  Census census;
  {
    Problem<dim> prob(cc.comm, p);
    bool const mf = p.num("mf", 0);
    auto ev = make_evaluator(prob, mf);
    auto params = make_ptree(p);
    auto helpers = mfmg::create_hierarchy_helpers<DVector>(ev);
    std::shared_ptr<Op> a = helpers->get_global_operator(ev);
    std::shared_ptr<Op> r;
    try
    {
      r = helpers->build_restrictor(cc.comm, ev, params);
    }
    catch (std::exception const &e)
    {
      // the eigensolver may say that it did not converge
      if (!p.num("mayfail", 0))
        throw;
      trace("setup gave up: %.200s", e.what());
      emit("refused", {1.});
      return;
    }
    std::shared_ptr<Op> ap = p.num("fast_ap", 0)
                                 ? helpers->fast_multiply_transpose()
                                 : a->multiply_transpose(r);
    std::shared_ptr<Op> ac = r->multiply(ap);
    emit_agglomerates(prob);
    emit_patches(prob);
    emit_matrix("A", prob.matrix);
    emit_operator("R", *r);
    emit_operator("AP", *ap);
    emit_operator("Ac", *ac);
    std::vector<double> con;
    for (auto const i : prob.owned)
      if (prob.constraints.is_constrained(i))
        con.push_back(i);
    emit("constrained", con);
  }
  std::string const left = census.diff();
  if (!left.empty())
    fail_property("%s", left.c_str());
}

// ------------------------------------------------------------------- apply
// One step of the smoother the parameters ask for, straight from the library
// that implements it, on the assembled matrix.
template <int dim>
void emit_reference_smoother(Params const &p, Problem<dim> &prob,
                             DVector const &dom)
{
  namespace T = dealii::TrilinosWrappers;
  std::string const type = p.str("smoother", "Symmetric_Gauss-Seidel");
  auto emit_ref = [&](auto const &prec) {
    emit_map("Sref", dom, dom,
             [&](DVector const &b, DVector &x) { prec.vmult(x, b); });
  };
  if (type == "Chebyshev")
  {
    using C = dealii::PreconditionChebyshev<TMatrix, DVector,
                                            dealii::DiagonalMatrix<DVector>>;
    typename C::AdditionalData data;
    if (p.has("cheb_degree"))
      data.degree = p.num("cheb_degree", 1);
    if (p.has("cheb_range"))
      data.smoothing_range = p.real("cheb_range", 0.);
    if (p.has("cheb_max"))
      data.max_eigenvalue = p.real("cheb_max", 1.);
    auto d = std::make_shared<dealii::DiagonalMatrix<DVector>>();
    d->get_vector().reinit(dom);
    for (auto const i : dom.locally_owned_elements())
      d->get_vector()[i] = 1. / prob.matrix.diag_element(i);
    data.preconditioner = d;
    C c;
    c.initialize(prob.matrix, data);
    emit_ref(c);
  }
  else if (type == "Symmetric_Gauss-Seidel")
  {
    T::PreconditionSSOR s;
    s.initialize(prob.matrix);
    emit_ref(s);
  }
  else if (type == "Gauss-Seidel")
  {
    T::PreconditionSOR s;
    s.initialize(prob.matrix);
    emit_ref(s);
  }
  else if (type == "Jacobi")
  {
    T::PreconditionJacobi s;
    s.initialize(prob.matrix);
    emit_ref(s);
  }
  else if (type == "ILU")
  {
    T::PreconditionILU s;
    s.initialize(prob.matrix);
    emit_ref(s);
  }
}

template <int dim>
void apply_dim(Params const &p)
{
  CommChoice cc(p);
  if (!cc.inside())
    return;
  Census census;
  {
    bool const mf = p.num("mf", 0);
    int const levels = p.num("levels", 2);
    bool const prec = p.num("prec", 1);
    Problem<dim> prob(cc.comm, p);
    auto ev = make_evaluator(prob, mf);
    auto params = make_ptree(p);
    mfmg::Hierarchy<DVector> h(cc.comm, ev, params);
    // the parts, on a mesh of their own
    Problem<dim> prob2(cc.comm, p);
    auto ev2 = make_evaluator(prob2, mf);
    auto params2 = make_ptree(p);
    auto helpers = mfmg::create_hierarchy_helpers<DVector>(ev2);
    std::shared_ptr<Op> a = helpers->get_global_operator(ev2);
    DVector const dom(*a->build_domain_vector());
    emit_matrix("A", prob.matrix);
    if (levels == 2)
    {
      auto s = helpers->build_smoother(a, params2);
      std::shared_ptr<Op> r = helpers->build_restrictor(cc.comm, ev2, params2);
      std::shared_ptr<Op> ap = p.num("fast_ap", 0)
                                   ? helpers->fast_multiply_transpose()
                                   : a->multiply_transpose(r);
      std::shared_ptr<Op> ac = r->multiply(ap);
      auto c = helpers->build_coarse_solver(ac, params2);
      emit_map("S", dom, dom,
               [&](DVector const &b, DVector &x) { s->apply(b, x); });
      if (("," + p.str("check") + ",").find(",smoother,") != std::string::npos)
        emit_reference_smoother<dim>(p, prob, dom);
      emit_operator("R", *r);
      emit_operator("Ac", *ac);
      DVector const cdom(*ac->build_domain_vector());
      emit_map("C", cdom, cdom, [&](DVector const &b, DVector &x) {
        x = 0.;
        c->apply(b, x);
      });
    }
    // the preconditioner as a matrix
    emit_map("B", dom, dom, [&](DVector const &b, DVector &x) {
      x = 0.;
      h.vmult(x, b);
    });
    // ... and applied to arbitrary vectors with a history and a dirty x
    std::vector<double> xs;
    for (int k = 0; k < 4; ++k)
    {
      DVector b(dom), x(dom), b0(dom);
      fill(b, 100 + k);
      if (k == 2)
        b = 0.;
      b0 = b;
      fill(x, 200 + k);
      if (prec && k == 3)
        for (auto const i : x.locally_owned_elements())
          x[i] = std::numeric_limits<double>::quiet_NaN();
      emit_vector("b" + std::to_string(k), b);
      emit_vector("x" + std::to_string(k), x);
      h.vmult(x, b);
      emit_vector("y" + std::to_string(k), x);
      for (auto const i : b.locally_owned_elements())
        if (b[i] != b0[i])
          fail_property("applying the hierarchy modifies the right-hand side");
    }
    if (p.num("pcg", 0))
    {
      DVector b(dom), x(dom);
      fill(b, 7);
      for (auto const i : b.locally_owned_elements())
        if (prob.constraints.is_constrained(i))
          b[i] = 0.;
      double const tol = 1e-9 * b.l2_norm();
      dealii::SolverControl control(2 * dom.size() + 50, tol);
      dealii::SolverCG<DVector> cg(control);
      struct Aop
      {
        Op const &o;
        void vmult(DVector &y, DVector const &x_) const { o.apply(x_, y); }
      } aop{*a};
      x = 0.;
      cg.solve(aop, x, b, h);
      emit("pcg", {(double)control.last_step()});
    }
  }
  std::string const left = census.diff();
  if (!left.empty())
    fail_property("%s", left.c_str());
}

// ------------------------------------------------------------------- fault
template <int dim>
void probe(mfmg::Hierarchy<DVector> const &h, DVector const &dom,
           std::string const &name)
{
  for (int k = 0; k < n_probes; ++k)
  {
    DVector b(dom), x(dom);
    probe_vectors(k, b, x);
    h.vmult(x, b);
    emit_vector(name + std::to_string(k), x);
  }
}

template <int dim>
void fault_dim(Params const &p)
{
  CommChoice cc(p);
  if (!cc.inside())
    return;
  Census census;
  bool const in_setup = p.str("phase", "setup") == "setup";
  {
    Problem<dim> prob(cc.comm, p);
    auto ev = make_evaluator(prob, p.num("mf", 0));
    auto params = make_ptree(p);
    std::ostringstream tos;
    std::shared_ptr<dealii::TimerOutput> timer;
    if (p.num("timer", 0))
      timer = std::make_shared<dealii::TimerOutput>(
          tos, dealii::TimerOutput::never, dealii::TimerOutput::wall_times);
    DVector const dom(prob.owned, cc.comm);
    std::unique_ptr<mfmg::Hierarchy<DVector>> h;
    int thrown = 0;
    cb_epochs.clear();
    cb_epochs.reserve(20000);
    auto guarded = [&](auto const &f) {
      alloc_armed = cb_armed = true;
      try
      {
        f();
      }
      catch (InjectedFault const &)
      {
        thrown = 1;
      }
      catch (std::bad_alloc const &)
      {
        thrown = 2;
      }
      catch (std::exception const &e)
      {
        // translated on the way
        if (g->rank[my_rank].n_cb_throw == 0 &&
            g->rank[my_rank].n_alloc_fail == 0)
          throw;
        thrown = 3;
      }
      alloc_armed = cb_armed = false;
    };
    if (in_setup)
    {
      guarded([&] {
        h = std::make_unique<mfmg::Hierarchy<DVector>>(cc.comm, ev, params,
                                                       timer);
      });
      emit("thrown", {(double)thrown});
      emit("epochs", cb_epochs);
      emit("counts", {(double)g->rank[my_rank].n_alloc,
                      (double)g->rank[my_rank].n_cb});
      if (!h)
        h = std::make_unique<mfmg::Hierarchy<DVector>>(cc.comm, ev, params,
                                                       timer);
      probe<dim>(*h, dom, "y");
      emit_agglomerates(prob);
    }
    else
    {
      h = std::make_unique<mfmg::Hierarchy<DVector>>(cc.comm, ev, params,
                                                     timer);
      DVector b(dom), x(dom);
      fill(b, 5);
      x = 0.;
      guarded([&] { h->vmult(x, b); });
      emit("thrown", {(double)thrown});
      emit("epochs", cb_epochs);
      emit("counts", {(double)g->rank[my_rank].n_alloc,
                      (double)g->rank[my_rank].n_cb});
      probe<dim>(*h, dom, "y");
      emit_agglomerates(prob);
    }
  }
  std::string const left = census.diff();
  if (!left.empty())
    fail_property("%s", left.c_str());
}

// ------------------------------------------------------------------- timer
template <int dim>
void timer_dim(Params const &p)
{
  CommChoice cc(p);
  if (!cc.inside())
    return;
  {
    bool const mf = p.num("mf", 0);
    // without a timer
    {
      Problem<dim> prob(cc.comm, p);
      auto ev = make_evaluator(prob, mf);
      mfmg::Hierarchy<DVector> h(cc.comm, ev, make_ptree(p));
      DVector const dom(prob.owned, cc.comm);
      probe<dim>(h, dom, "plain");
    }
    std::ostringstream os;
    {
      Problem<dim> prob(cc.comm, p);
      auto ev = make_evaluator(prob, mf);
      auto timer = std::make_shared<dealii::TimerOutput>(
          os, dealii::TimerOutput::never,
          dealii::TimerOutput::cpu_and_wall_times);
      using D = dealii::TimerOutput::OutputData;
      auto wall = [&] { return timer->get_summary_data(D::total_wall_time); };
      auto calls = [&] { return timer->get_summary_data(D::n_calls); };
      std::unique_ptr<mfmg::Hierarchy<DVector>> h;
      // the user has a section of their own around everything
      timer->enter_subsection("outer");
      h = std::make_unique<mfmg::Hierarchy<DVector>>(cc.comm, ev,
                                                     make_ptree(p), timer);
      auto const w0 = wall();
      auto const c0 = calls();
      if (!w0.count("Setup"))
        fail_property("no \"Setup\" section after the hierarchy was built");
      for (auto &s : w0)
        if (s.first != "outer")
        {
          // a section that was entered but not left has no time yet
          if (!(s.second > 0.))
            fail_property("timer section \"%s\" is still open after setup",
                          s.first.c_str());
          if (s.second > w0.at("Setup") * (1 + 1e-12))
            fail_property("timer section \"%s\" (%g s) is longer than the "
                          "setup it is part of (%g s)",
                          s.first.c_str(), s.second, w0.at("Setup"));
          if (c0.at(s.first) != 1.)
            fail_property("timer section \"%s\" counts %g setups instead of 1",
                          s.first.c_str(), c0.at(s.first));
        }
      DVector const dom(prob.owned, cc.comm);
      auto before = w0;
      auto cbefore = c0;
      for (int k = 0; k < n_probes; ++k)
      {
        DVector b(dom), x(dom);
        probe_vectors(k, b, x);
        h->vmult(x, b);
        emit_vector("timed" + std::to_string(k), x);
        auto const w = wall();
        auto const c = calls();
        if (!w.count("Apply") || c.at("Apply") != k + 1.)
          fail_property("timer section \"Apply\" counts %g applications "
                        "instead of %d",
                        c.count("Apply") ? c.at("Apply") : 0., k + 1);
        for (auto &s : w)
          if (s.first.compare(0, 5, "Apply") == 0)
          {
            double const prev = before.count(s.first) ? before.at(s.first) : 0.;
            double const cprev =
                cbefore.count(s.first) ? cbefore.at(s.first) : 0.;
            if (!(s.second > prev))
              fail_property("timer section \"%s\" is not closed after "
                            "application %d",
                            s.first.c_str(), k + 1);
            if (c.at(s.first) != cprev + 1)
              fail_property("timer section \"%s\" counts %g entries in one "
                            "application",
                            s.first.c_str(), c.at(s.first) - cprev);
            if (s.second > w.at("Apply") * (1 + 1e-12))
              fail_property("timer section \"%s\" is longer than the "
                            "application it is part of",
                            s.first.c_str());
          }
          else if (s.first != "outer" &&
                   (s.second != before.at(s.first) ||
                    c.at(s.first) != cbefore.at(s.first)))
            fail_property("timer section \"%s\" runs on during application",
                          s.first.c_str());
        before = w;
        cbefore = c;
      }
      if (before.count("outer") && before.at("outer") > 0.)
        fail_property("the hierarchy left a section that its caller had "
                      "entered");
      timer->leave_subsection();
      if (!(wall().at("outer") > 0.))
        fail_property("after setup and apply the caller's own section is not "
                      "the innermost open one");
    }
  }
}

// ------------------------------------------------------------------- history
// Several hierarchies on one mesh, one evaluator, one parameter tree.
template <int dim>
void history_dim(Params const &p)
{
  CommChoice cc(p);
  if (!cc.inside())
    return;
  Census census;
  {
    bool const mf = p.num("mf", 0);
    auto flat = [](ptree const &t) {
      std::string s;
      std::function<void(ptree const &, std::string)> rec =
          [&](ptree const &q, std::string path) {
            for (auto const &c : q)
            {
              s += path + c.first + "=" + c.second.data() + ";";
              rec(c.second, path + c.first + ".");
            }
          };
      rec(t, "");
      return s;
    };
    // other values for the same parameters
    std::function<void(ptree &, ptree const &)> overwrite =
        [&](ptree &t, ptree const &with) {
          t.data() = with.data();
          for (auto const &c : with)
          {
            overwrite(t.get_child(ptree::path_type(c.first, '\x01')), c.second);
          }
        };
    // ML starts from random vectors of a stream that all its users share
    bool const random_start =
        p.num("levels", 2) == 1 && p.str("coarse", "direct") == "ml";
    // What the program did with other problems does not matter. (The run we
    // are compared with has done nothing.)
    if (p.num("decoy", 0) && g->cfg.disturbed)
    {
      Params d = p;
      int const how = p.num("decoy", 0);
      if ((how & 1) && p.has("sx") && p.has("sy"))
        std::swap(d.kv["sx"], d.kv["sy"]);
      if (how & 2)
        d.kv["mat"] = p.num("mat", 1) == 1 ? "2" : "1";
      if (how & 4)
        d.kv["scale"] = "16";
      Problem<dim> prob(cc.comm, d);
      mfmg::Hierarchy<DVector> h(cc.comm, make_evaluator(prob, mf),
                                 make_ptree(p));
      DVector x(prob.owned, cc.comm), b(x);
      fill(b, 5);
      h.vmult(x, b);
    }
    // a fresh one, for reference
    {
      Problem<dim> prob(cc.comm, p);
      if (p.num("remesh", 0))
        prob.remesh(p.num("remesh", 0));
      mfmg::Hierarchy<DVector> h(cc.comm, make_evaluator(prob, mf),
                                 make_ptree(p));
      DVector const dom(prob.owned, cc.comm);
      if (!random_start)
        probe<dim>(h, dom, "fresh");
      emit_agglomerates(prob);
    }
    Params soiled = p;
    soiled.kv["dirty"] = p.str("soil", "0");
    Problem<dim> prob(cc.comm, soiled);
    if (p.num("remesh", 0))
    {
      // a hierarchy for the mesh before the cells move to other ranks
      {
        mfmg::Hierarchy<DVector> h(cc.comm, make_evaluator(prob, mf),
                                   make_ptree(p));
        DVector x(prob.owned, cc.comm), b(x);
        fill(b, 3);
        h.vmult(x, b);
      }
      prob.remesh(p.num("remesh", 0));
    }
    auto ev = make_evaluator(prob, mf);
    auto const ev2 = ev;
    auto params = make_ptree(p);
    std::string const before = flat(*params);
    DVector const dom(prob.owned, cc.comm);
    std::vector<std::unique_ptr<mfmg::Hierarchy<DVector>>> hs;
    int const n = p.num("rounds", 3);
    // the other configuration interleaved with ours
    Params q = p;
    for (auto const &kv : p.kv)
      if (kv.first.compare(0, 4, "alt.") == 0)
        q.kv[kv.first.substr(4)] = kv.second;
    bool const same_keys = [&] {
      auto const keys = [](std::string const &f) {
        std::string k;
        bool value = false;
        for (char c : f)
        {
          if (c == ';')
            value = false;
          else if (c == '=')
            value = true;
          if (!value)
            k += c;
        }
        return k;
      };
      return p.num("shared", 0) && keys(flat(*make_ptree(q))) == keys(before);
    }();
    // a cycle that is no preconditioner leaves a solution alone
    auto const fixed_point = [&](mfmg::Hierarchy<DVector> const &h) {
      if (p.num("prec", 1))
        return;
      DVector x(dom), y(dom), b(dom);
      fill(x, 77);
      auto helpers = mfmg::create_hierarchy_helpers<DVector>(ev2);
      helpers->get_global_operator(ev2)->apply(x, b);
      y = x;
      h.vmult(y, b);
      y.add(-1., x);
      if (!(y.linfty_norm() < 1e-7))
        fail_property("one cycle moves the solution of the problem by %g",
                      y.linfty_norm());
    };
    for (int k = 0; k < n; ++k)
    {
      bool const other = (p.num("pattern", 0) >> k) & 1;
      if (other)
      {
        // with parameters of its own, or with the same ones put to other values
        auto theirs = make_ptree(q);
        if (same_keys && params)
        {
          overwrite(*params, *theirs);
          theirs = params;
        }
        hs.push_back(std::make_unique<mfmg::Hierarchy<DVector>>(cc.comm, ev,
                                                                theirs));
        if (theirs == params)
          overwrite(*params, *make_ptree(p));
      }
      else
      {
        hs.push_back(
            std::make_unique<mfmg::Hierarchy<DVector>>(cc.comm, ev, params));
        if (!random_start)
          probe<dim>(*hs.back(), dom, "again" + std::to_string(k) + "_");
        fixed_point(*hs.back());
        if (p.num("levels", 2) > 1 && flat(*params) != before)
          fail_property("building a hierarchy changes the caller's parameters");
      }
      if (p.num("drop", 0) && k % 2)
        hs[k - 1].reset();
    }
    if (p.num("release", 0))
    {
      // the hierarchy keeps alive what it needs
      params.reset();
      if (p.num("mf", 0) == 0)
        ev.reset();
    }
    for (int k = 0; k < n; ++k)
      if (hs[k] && !((p.num("pattern", 0) >> k) & 1))
      {
        if (!random_start)
          probe<dim>(*hs[k], dom, "late" + std::to_string(k) + "_");
        fixed_point(*hs[k]);
      }
  }
  std::string const left = census.diff();
  if (!left.empty())
    fail_property("%s", left.c_str());
}

// ------------------------------------------------------------------ conserve
template <int dim>
void conserve_dim(Params const &p)
{
  CommChoice cc(p);
  if (!cc.inside())
    return;
  // deal.II's datatype and operation for statistics are made when first needed
  dealii::Utilities::MPI::min_max_avg(1., cc.comm);
  Census outer;
  {
    bool const mf = p.num("mf", 0);
    std::vector<double> grown;
    int const rounds = p.num("rounds", 5), more = 12;
    grown.reserve(rounds + more);
    // what the user may keep from one hierarchy to the next
    int const keep = p.num("keep", 0);
    std::unique_ptr<Problem<dim>> kept_prob;
    std::shared_ptr<mfmg::MeshEvaluator> kept_ev;
    std::shared_ptr<ptree> kept_params;
    std::shared_ptr<dealii::TimerOutput> kept_timer;
    std::ostringstream ignored;
    if (keep & 1)
      kept_params = make_ptree(p);
    if (keep & 2)
    {
      kept_prob = std::make_unique<Problem<dim>>(cc.comm, p);
      kept_ev = make_evaluator(*kept_prob, mf);
    }
    if (keep & 4)
      kept_timer = std::make_shared<dealii::TimerOutput>(
          cc.comm, ignored, dealii::TimerOutput::never,
          dealii::TimerOutput::wall_times);
    for (int k = 0; k < rounds + more; ++k)
    {
      if (k >= rounds)
      {
        // Whatever is allocated once per worker thread, when it first gets
        // to some place, is no leak: only more rounds can tell.
        int here = *std::min_element(grown.begin() + 2, grown.end()) > 0, any;
        MPI_Allreduce(&here, &any, 1, MPI_INT, MPI_MAX, cc.comm);
        if (!any)
          break;
      }
      long const a0 = live_allocations();
      bool const track = g->trace_fd > 0 && k == rounds + more - 1;
      track_allocations(track);
      Census census;
      {
        std::unique_ptr<Problem<dim>> new_prob;
        if (!kept_prob)
          new_prob = std::make_unique<Problem<dim>>(cc.comm, p);
        auto &prob = kept_prob ? *kept_prob : *new_prob;
        auto ev = kept_ev ? kept_ev : make_evaluator(prob, mf);
        DVector const dom(prob.owned, cc.comm);
        mfmg::Hierarchy<DVector> h(cc.comm, ev,
                                   kept_params ? kept_params : make_ptree(p),
                                   kept_timer);
        DVector b(dom), x(dom);
        fill(b, 300 + k);
        x = 0.;
        for (int i = 0; i <= k % 3; ++i)
          h.vmult(x, b);
      }
      std::string const left = census.diff();
      if (!left.empty())
        fail_property("round %d: %s", k, left.c_str());
      if (track)
        report_allocations(40);
      grown.push_back(live_allocations() - a0);
    }
    emit("grown", grown);
  }
  std::string const left = outer.diff();
  if (!left.empty())
    fail_property("%s", left.c_str());
}

// ------------------------------------------------------------------- errors
template <int dim>
void errors_dim(Params const &p)
{
  CommChoice cc(p);
  if (!cc.inside())
    return;
  {
    bool const mf = p.num("mf", 0);
    Problem<dim> prob(cc.comm, p);
    auto ev = make_evaluator(prob, mf);
    DVector const dom(prob.owned, cc.comm);
    Census census;
    auto bad = make_ptree(p);
    std::string const key = [&] {
      std::string s = p.str("badkey");
      for (char &c : s)
        c = c == '_' ? ' ' : c == '~' ? '_' : c;
      return s;
    }();
    if (p.str("badval") == "<erase>")
    {
      auto const dot = key.rfind('.');
      if (dot == std::string::npos)
        bad->erase(key);
      else
        bad->get_child(key.substr(0, dot)).erase(key.substr(dot + 1));
    }
    else
      bad->put(key, p.str("badval"));
    int thrown = 0;
    try
    {
      mfmg::Hierarchy<DVector> h(cc.comm, ev, bad);
    }
    catch (std::exception const &e)
    {
      thrown = 1;
      trace("setup refused: %.200s", e.what());
    }
    emit("thrown", {(double)thrown});
    std::string const left = census.diff();
    if (!left.empty())
      fail_property("after the refused setup, %s", left.c_str());
    // every rank must have given up at the same point of the conversation
    MPI_Barrier(cc.comm);
    mfmg::Hierarchy<DVector> h(cc.comm, ev, make_ptree(p));
    probe<dim>(h, dom, "y");
    {
      Problem<dim> prob2(cc.comm, p);
      auto ev2 = make_evaluator(prob2, mf);
      mfmg::Hierarchy<DVector> h2(cc.comm, ev2, make_ptree(p));
      probe<dim>(h2, dom, "fresh");
    }
  }
}

template <void (*F2)(Params const &), void (*F3)(Params const &)>
void by_dim(Params const &p)
{
  if (p.num("dim", 2) == 3)
    F3(p);
  else
    F2(p);
}
} // namespace

namespace mfsim
{
void scen_setup(Params const &p) { by_dim<setup_dim<2>, setup_dim<3>>(p); }
void scen_apply(Params const &p) { by_dim<apply_dim<2>, apply_dim<3>>(p); }
void scen_fault(Params const &p) { by_dim<fault_dim<2>, fault_dim<3>>(p); }
void scen_timer(Params const &p) { by_dim<timer_dim<2>, timer_dim<3>>(p); }
void scen_history(Params const &p)
{
  by_dim<history_dim<2>, history_dim<3>>(p);
}
void scen_conserve(Params const &p)
{
  by_dim<conserve_dim<2>, conserve_dim<3>>(p);
}
void scen_errors(Params const &p) { by_dim<errors_dim<2>, errors_dim<3>>(p); }
} // namespace mfsim
