// Oracles: what must be true of the recorded outputs of a run.
#include "dense.hpp"
#include "scen.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <set>
#include <stdexcept>

namespace mfsim
{
static std::string fmt(char const *f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(char const *f, ...)
{
  char b[1500];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
struct Bad
{
  std::string what;
};
#define FAIL(...) throw Bad{fmt(__VA_ARGS__)}

// a matrix out of the triples of all ranks; each row from one rank only
static Mat get(RunResult const &r, std::string const &name)
{
  auto it = r.out.find(name);
  if (it == r.out.end())
    FAIL("output \"%s\" is missing", name.c_str());
  auto const &dim = r.out.at(name + ".dim").begin()->second;
  for (auto const &d : r.out.at(name + ".dim"))
    if (d.second != dim)
      FAIL("the ranks disagree about the size of %s", name.c_str());
  Mat M(dim[0], dim[1]);
  std::map<int, int> owner;
  for (auto const &q : it->second)
  {
    auto const &t = q.second;
    std::set<std::pair<int, int>> seen;
    for (size_t k = 0; k + 2 < t.size() + 0; k += 3)
    {
      int const i = t[k], j = t[k + 1];
      if (i < 0 || j < 0 || i >= M.m || j >= M.n)
        FAIL("%s has an entry at (%d,%d) outside its %d x %d", name.c_str(), i,
             j, M.m, M.n);
      auto o = owner.emplace(i, q.first);
      if (o.first->second != q.first)
        FAIL("row %d of %s is stored by rank %d and by rank %d", i,
             name.c_str(), o.first->second, q.first);
      M(i, j) += t[k + 2];
    }
  }
  return M;
}
static std::vector<double> getv(RunResult const &r, std::string const &name)
{
  auto it = r.out.find(name);
  if (it == r.out.end())
    FAIL("output \"%s\" is missing", name.c_str());
  std::vector<double> v(r.out.at(name + ".size").begin()->second[0], 0.);
  std::vector<char> seen(v.size(), 0);
  for (auto const &q : it->second)
    for (size_t k = 0; k + 1 < q.second.size(); k += 2)
    {
      size_t i = q.second[k];
      if (i >= v.size() || seen[i])
        FAIL("entry %lu of %s is owned twice", (unsigned long)i, name.c_str());
      seen[i] = 1;
      v[i] = q.second[k + 1];
    }
  return v;
}
static Mat col(std::vector<double> const &v)
{
  Mat M(v.size(), 1);
  M.a = v;
  return M;
}

static void near(Mat const &X, Mat const &Y, double tol, char const *what,
                 double scale = -1)
{
  if (X.m != Y.m || X.n != Y.n)
    FAIL("%s: %d x %d instead of %d x %d", what, X.m, X.n, Y.m, Y.n);
  double const s = scale > 0 ? scale : std::max(maxabs(Y), 1e-300);
  double worst = -1;
  int wi = 0, wj = 0;
  for (int j = 0; j < X.n; ++j)
    for (int i = 0; i < X.m; ++i)
    {
      double const d = std::abs(X(i, j) - Y(i, j));
      if (!(d <= worst))
      {
        worst = d;
        wi = i;
        wj = j;
        if (std::isnan(d))
          goto done;
      }
    }
done:
  if (!(worst <= tol * s))
    FAIL("%s: entry (%d,%d) is %.12g instead of %.12g (tolerance %.1e of %.3g)",
         what, wi, wj, X(wi, wj), Y(wi, wj), tol, s);
}

// equality of all plain outputs with those of another run
static void same_ids(RunResult const &b, RunResult const &r,
                     std::string const &name, char const *what)
{
  if (!b.has(name) && !r.has(name))
    return;
  if (!b.has(name) || !r.has(name) || b.out.at(name) != r.out.at(name))
    FAIL("%s", what);
}

struct Patch
{
  int rank, id, n;
  bool connected;
  std::vector<int> dof, con;
  Mat m;
};
static std::vector<Patch> patches(Params const &p, RunResult const &r)
{
  std::vector<std::vector<Patch>> all;
  for (auto const &q : r.out.at("patches"))
  {
    auto const &t = q.second;
    size_t k = 0;
    all.emplace_back();
    std::vector<Patch> &out = all.back();
    while (k < t.size())
    {
      Patch P;
      P.rank = q.first;
      P.id = t[k++];
      P.n = t[k++];
      P.connected = t[k++];
      for (int i = 0; i < P.n; ++i)
        P.dof.push_back(t[k++]);
      for (int i = 0; i < P.n; ++i)
        P.con.push_back(t[k++]);
      P.m = Mat(P.n, P.n);
      for (int i = 0; i < P.n * P.n; ++i)
        P.m.a[i] = t[k++];
      out.push_back(P);
    }
  }
  // the coarse unknowns are numbered along the ranks of the communicator in use
  if (p.str("comm") == "split" && p.num("reverse", 0))
    std::reverse(all.begin(), all.end());
  std::vector<Patch> out;
  for (auto const &o : all)
    out.insert(out.end(), o.begin(), o.end());
  return out;
}
static bool want(Params const &p, char const *w)
{
  std::string const c = "," + p.str("check", "all") + ",";
  return c == ",all," || c.find("," + std::string(w) + ",") != std::string::npos;
}

static void setup_oracle(Params const &p, RunResult const &b,
                         RunResult const &r)
{
  if (p.num("mayfail", 0) && r.out.count("refused"))
    return;
  Mat const A = get(r, "A"), R = get(r, "R"), AP = get(r, "AP"),
            Ac = get(r, "Ac");
  int const nev = p.num("nev", 1);
  bool const guess = p.str("eig") == "anasazi";
  bool const loose = guess || p.str("eig") == "lanczos";
  double const scaleA = std::max(1e-300, maxabs(A));
  if (want(p, "agg"))
    for (auto const &q : r.out.at("agg.ghost"))
      if (q.second[0] != 0)
        FAIL("cells of other processes are put into agglomerates");
  // --- the same as the undisturbed run
  if (want(p, "same") && &b != &r)
  {
    same_ids(b, r, "agg", "the agglomerates differ from the undisturbed run");
    Mat R0 = get(b, "R"), AP0 = get(b, "AP"), Ac0 = get(b, "Ac"),
        A0 = get(b, "A");
    near(A, A0, 1e-12, "system matrix vs the undisturbed run");
    Mat R1 = R, AP1 = AP, Ac1 = Ac;
    if (guess && R.m == R0.m && R.n == R0.n && Ac.n == R.m && AP.n == R.m)
    {
      // eigenvectors are determined up to their sign
      for (int i = 0; i < R.m; ++i)
      {
        double dot = 0;
        for (int j = 0; j < R.n; ++j)
          dot += R1(i, j) * R0(i, j);
        if (dot < 0)
        {
          for (int j = 0; j < R.n; ++j)
            R1(i, j) = -R1(i, j);
          for (int j = 0; j < AP.m; ++j)
            AP1(j, i) = -AP1(j, i);
          for (int j = 0; j < Ac.n; ++j)
            Ac1(i, j) = -Ac1(i, j);
          for (int j = 0; j < Ac.n; ++j)
            Ac1(j, i) = -Ac1(j, i);
        }
      }
    }
    if (p.num("guess", 0) && R.m == R0.m && R.n == R0.n)
    {
      // eigenvectors of (nearly) multiple eigenvalues are not unique: where the
      // solver starts decides which ones it finds
      int row = 0;
      for (auto const &Q : patches(p, r))
      {
        std::vector<int> fr;
        for (int i = 0; i < Q.n; ++i)
          if (!Q.con[i])
            fr.push_back(i);
        Mat F(fr.size(), fr.size()), V;
        for (size_t i = 0; i < fr.size(); ++i)
          for (size_t j = 0; j < fr.size(); ++j)
            F(i, j) = Q.m(fr[i], fr[j]);
        std::vector<double> w;
        if (!eig_sym(F, w, V))
          FAIL("oracle: eigenvalues");
        double const gap = 1e-3 * std::max(maxabs(F), 1e-300);
        for (int e = 0; e < nev; ++e, ++row)
        {
          bool const alone =
              e + 1 < (int)w.size() && w[e + 1] - w[e] > gap &&
              (e == 0 || w[e] - w[e - 1] > gap);
          if (alone || row >= R.m)
            continue;
          for (int j = 0; j < R.n; ++j)
            R1(row, j) = R0(row, j);
          if (AP.n == R.m && AP0.n == R.m)
            for (int i = 0; i < AP.m; ++i)
              AP1(i, row) = AP0(i, row);
          if (Ac.m == R.m && Ac.n == R.m && Ac0.m == R.m && Ac0.n == R.m)
            for (int i = 0; i < R.m; ++i)
            {
              Ac1(i, row) = Ac0(i, row);
              Ac1(row, i) = Ac0(row, i);
            }
        }
      }
    }
    double const tol =
        p.num("guess", 0) ? p.real("sametol", 1e-5) : 1e-9;
    near(R1, R0, tol, "restriction vs the undisturbed run");
    near(AP1, AP0, tol, "A*P vs the undisturbed run", std::max(maxabs(AP0), scaleA * maxabs(R0)));
    near(Ac1, Ac0, tol, "coarse matrix vs the undisturbed run", scaleA);
  }
  // --- structure
  auto const P = patches(p, r);
  if (want(p, "shape"))
  {
    if (R.m != (int)P.size() * nev)
      FAIL("%d coarse unknowns for %d agglomerates with %d eigenvectors each",
           R.m, (int)P.size(), nev);
    if (R.n != A.n || AP.m != A.m || AP.n != R.m || Ac.m != R.m || Ac.n != R.m)
      FAIL("the sizes of R (%dx%d), A*P (%dx%d) and the coarse matrix (%dx%d) "
           "do not fit a system of %d unknowns",
           R.m, R.n, AP.m, AP.n, Ac.m, Ac.n, A.m);
  }
  // --- A*P and the Galerkin product
  if (want(p, "ap"))
  {
    Mat AP1 = AP;
    Mat const ref = mul(A, tr(R));
    // asking an agglomerate for more vectors than it has free unknowns yields
    // vectors of the constrained unknowns, about which nothing is promised
    int row = 0;
    for (auto const &Q : P)
    {
      int fr = 0;
      for (int c : Q.con)
        fr += !c;
      for (int e = 0; e < nev; ++e, ++row)
        if (e >= fr && row < AP1.n && AP1.m == ref.m && AP1.n == ref.n)
          for (int i = 0; i < AP1.m; ++i)
            AP1(i, row) = ref(i, row);
    }
    near(AP1, ref, p.real("aptol", loose ? 1e-2 : 1e-8),
         p.num("fast_ap", 0) ? "fast A*P vs A times the restriction transposed"
                             : "A*P vs A times the restriction transposed",
         scaleA * maxabs(R));
  }
  if (want(p, "ac"))
  {
    near(Ac, mul(R, AP), 1e-11, "coarse matrix vs R times A*P", scaleA);
    if (!p.num("fast_ap", 0))
    {
      near(Ac, tr(Ac), 1e-11, "the coarse matrix is not symmetric", scaleA);
      near(Ac, mul(R, mul(A, tr(R))), 1e-9,
           "coarse matrix vs R A times the restriction transposed",
           scaleA * std::max(1., maxabs(R) * maxabs(R)));
    }
  }
  // --- the rows are weights times eigenvectors of the agglomerates
  if (want(p, "eig") || want(p, "pou"))
  {
    int row = 0;
    bool all_connected = true;
    for (auto const &Q : P)
    {
      all_connected = all_connected && Q.connected;
      int const n = Q.n;
      // operator the eigenproblem is posed for
      Mat K = Q.m;
      // the library's own shift for constrained unknowns moves their (decoupled)
      // eigenvectors out of the way: drop them
      std::vector<int> fr;
      for (int i = 0; i < n; ++i)
        if (!Q.con[i])
          fr.push_back(i);
      Mat F(fr.size(), fr.size());
      for (size_t i = 0; i < fr.size(); ++i)
        for (size_t j = 0; j < fr.size(); ++j)
          F(i, j) = K(fr[i], fr[j]);
      std::vector<double> w;
      Mat V;
      if (!eig_sym(F, w, V))
        FAIL("oracle: eigenvalues");
      std::vector<std::vector<double>> vs;
      for (int e = 0; e < nev; ++e, ++row)
      {
        if (row >= R.m)
          FAIL("restriction has only %d rows", R.m);
        std::vector<double> v(n, 0.);
        std::set<int> in(Q.dof.begin(), Q.dof.end());
        for (int j = 0; j < R.n; ++j)
          if (!in.count(j) && R(row, j) != 0.)
            FAIL("row %d of the restriction reaches outside its agglomerate",
                 row);
        for (int i = 0; i < n; ++i)
        {
          double const weight = Q.m(i, i) / A(Q.dof[i], Q.dof[i]);
          v[i] = R(row, Q.dof[i]) / weight;
        }
        // (the library moves constrained unknowns out of the way by giving them
        // the eigenvalue 200)
        if (want(p, "eig") && e < (int)fr.size() && w[e] < 190.)
        {
          double norm = 0;
          for (double x : v)
            norm += x * x;
          norm = std::sqrt(norm);
          double const tol = p.real("eigtol", loose ? 5e-2 : 1e-7);
          if (!(std::abs(norm - 1) < tol))
            FAIL("eigenvector %d of agglomerate %d on rank %d has norm %.12g "
                 "once the weights are taken out",
                 e, Q.id, Q.rank, norm);
          double lam = 0, res = 0;
          std::vector<double> kv(n, 0.);
          for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
              kv[i] += K(i, j) * v[j];
          for (int i = 0; i < n; ++i)
            lam += v[i] * kv[i];
          for (int i = 0; i < n; ++i)
            res += (kv[i] - lam * v[i]) * (kv[i] - lam * v[i]);
          double const sc = std::max(maxabs(K), 1e-300);
          if (!(std::sqrt(res) < tol * sc))
            FAIL("row %d of the restriction is no weighted eigenvector of "
                 "agglomerate %d on rank %d (residual %.3g of %.3g)",
                 row, Q.id, Q.rank, std::sqrt(res), sc);
          if (!(std::abs(lam - w[e]) < tol * sc))
            FAIL("eigenvector %d of agglomerate %d on rank %d belongs to "
                 "eigenvalue %.10g and not to the %d-th smallest one, %.10g",
                 e, Q.id, Q.rank, lam, e, w[e]);
          for (int i = 0; i < n; ++i)
            if (Q.con[i] && !(std::abs(v[i]) < tol))
              FAIL("the restriction is not zero at a constrained unknown of "
                   "agglomerate %d",
                   Q.id);
          for (auto const &u : vs)
          {
            double d = 0;
            for (int i = 0; i < n; ++i)
              d += u[i] * v[i];
            if (!(std::abs(d) < 10 * tol))
              FAIL("eigenvectors of agglomerate %d are not orthogonal (%.3g)",
                   Q.id, d);
          }
        }
        vs.push_back(v);
      }
    }
    // constants are reproduced by a pure Neumann problem
    if (want(p, "pou") && p.num("bc", 1) == 0 && p.real("mass", 0) == 0. &&
        all_connected && !loose)
    {
      // the first vector of every agglomerate is constant
      Mat one(R.n, 1), sum(R.n, 1);
      for (auto &x : one.a)
        x = 1;
      int first = 0;
      for (auto const &Q : P)
      {
        double total = 0;
        for (int j = 0; j < R.n; ++j)
          total += R(first, j);
        for (int j = 0; j < R.n; ++j)
          sum.a[j] += (total > 0 ? 1. : -1.) * std::sqrt((double)Q.n) *
                      R(first, j);
        first += nev;
      }
      near(sum, one, 1e-6, "constants are not reproduced by the prolongation");
    }
  }
}

static void apply_oracle(Params const &p, RunResult const &b,
                         RunResult const &r)
{
  int const levels = p.num("levels", 2);
  bool const prec = p.num("prec", 1);
  int const nsm = p.num("nsm", 1);
  Mat const A = get(r, "A"), B = get(r, "B");
  int const n = A.n;
  double const sB = std::max(maxabs(B), 1e-300);
  // the magnitude of what goes into an application
  auto size_of = [&](int k) {
    double const sb = maxabs(col(getv(r, "b" + std::to_string(k))));
    double const sx =
        prec ? 0. : maxabs(col(getv(r, "x" + std::to_string(k))));
    return std::max({sB * sb, sx, 1e-300});
  };
  if (&b != &r && want(p, "same"))
  {
    Mat const B0 = get(b, "B");
    near(B, B0, p.real("sametol", 1e-8), "the preconditioner vs the undisturbed run");
    for (int k = 0; k < 4; ++k)
      near(col(getv(r, "y" + std::to_string(k))),
           col(getv(b, "y" + std::to_string(k))), p.real("sametol", 1e-8),
           "an application vs the undisturbed run", size_of(k));
  }
  // reference two-level cycle
  Mat Ref;
  if (levels == 2)
  {
    Mat const S = get(r, "S"), R = get(r, "R"), C = get(r, "C"),
              Ac = get(r, "Ac");
    if (p.num("nev", 1) > 1)
    {
      // With several vectors per agglomerate, those of neighbouring
      // agglomerates may happen to be linearly dependent: the coarse problem
      // has no unique solution then.
      std::vector<double> w;
      Mat V, G = mul(R, mul(A, tr(R)));
      G = axpy(1., tr(G), G);
      if (eig_sym(G, w, V) && w[0] < 1e-8 * w[G.n - 1])
        return;
    }
    Mat X(n, n);
    Mat const I = eye(n);
    auto smooth = [&] {
      X = axpy(1., mul(S, axpy(-1., mul(A, X), I)), X);
    };
    for (int i = 0; i < nsm; ++i)
      smooth();
    Mat const res = axpy(-1., I, mul(A, X)); // AX - I
    X = axpy(-1., mul(tr(R), mul(C, mul(R, res))), X);
    for (int i = 0; i < nsm; ++i)
      smooth();
    Ref = X;
    if (want(p, "smoother") && r.has("Sref"))
      near(S, get(r, "Sref"), p.real("smtol", 1e-10),
           "a smoothing step vs the smoother that was asked for");
    if (want(p, "ref"))
      near(B, Ref, p.real("reftol", 1e-8),
           "the preconditioner vs the two-level cycle of its parts");
    if (want(p, "coarse") && p.str("coarse", "direct") == "direct")
      near(mul(Ac, C), eye(Ac.n), 1e-7, "the direct coarse solve", 1.);
  }
  else if (want(p, "ref") && p.str("coarse", "direct") == "direct")
    near(mul(A, B), eye(n), 1e-7, "a one-level hierarchy with a direct solver",
         1.);
  // every application is x -> x + B (b - A x), whatever came before
  for (int k = 0; k < 4; ++k)
  {
    std::string const s = std::to_string(k);
    Mat const bk = col(getv(r, "b" + s)), xk = col(getv(r, "x" + s)),
              yk = col(getv(r, "y" + s));
    Mat ref = mul(B, bk);
    if (!prec && (levels == 2 || p.str("coarse", "direct") == "ml"))
      ref = axpy(1., mul(B, axpy(-1., mul(A, xk), bk)), xk);
    near(yk, ref, p.real("lintol", 1e-8),
         prec ? "an application vs the same linear operator"
              : "a stationary iteration vs x + B (b - A x)",
         size_of(k));
  }
  if (want(p, "spd"))
  {
    near(B, tr(B), 1e-8, "the preconditioner is not symmetric");
    // B A has the spectrum of L^T B L with A = L L^T; use A^(1/2)
    std::vector<double> w, lam;
    Mat V, W;
    if (!eig_sym(A, w, V) || w[0] <= 0)
      FAIL("oracle: the system matrix is not positive definite");
    Mat H = V;
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < n; ++i)
        H(i, j) *= std::sqrt(w[j]);
    Mat const Ah = mul(H, tr(V));
    Mat Z = mul(Ah, mul(B, Ah));
    Z = axpy(1., tr(Z), Z);
    for (auto &x : Z.a)
      x *= .5;
    if (!eig_sym(Z, lam, W))
      FAIL("oracle: eigenvalues");
    if (!(lam[0] > 0))
      FAIL("the preconditioner is not positive definite (%.6g)", lam[0]);
    double const top = p.real("top", 2.);
    if (!(lam[n - 1] < top))
      FAIL("the cycle does not contract the error: the preconditioned operator "
           "has an eigenvalue %.12g",
           lam[n - 1]);
  }
  if (p.num("pcg", 0) && b.has("pcg"))
  {
    double const it = r.scalar("pcg"), it0 = b.scalar("pcg");
    if (std::abs(it - it0) > 2)
      FAIL("conjugate gradients take %g steps instead of %g", it, it0);
    double const cap = p.real("pcgmax", 1e9);
    if (it > cap)
      FAIL("conjugate gradients take %g steps (at most %g expected)", it, cap);
  }
}

// all the applications that are compared between hierarchies
static void near_probes(RunResult const &X, std::string const &nx,
                        RunResult const &Y, std::string const &ny, double tol,
                        char const *what)
{
  double s = 1e-300;
  for (int k = 0; k < n_probes; ++k)
    s = std::max(s, maxabs(col(getv(Y, ny + std::to_string(k)))));
  for (int k = 0; k < n_probes; ++k)
    near(col(getv(X, nx + std::to_string(k))),
         col(getv(Y, ny + std::to_string(k))), tol, what, s);
}

static void fault_oracle(Params const &p, RunResult const &b,
                         RunResult const &r)
{
  bool const alloc = p.str("fault", "cb") == "alloc";
  if (&b != &r)
  {
    // did the fault get swallowed?
    for (size_t k = 0; k < r.rank.size(); ++k)
    {
      bool const fired = alloc ? r.rank[k].n_alloc_fail : r.rank[k].n_cb_throw;
      double const t = r.scalar("thrown", k);
      if (fired && t == 0 && !alloc)
        FAIL("rank %d: the exception of a user callback is swallowed", (int)k);
    }
    same_ids(b, r, "agg", "after a failed attempt the agglomerates differ");
  }
  near_probes(r, "y", b, "y", 1e-9,
              "after a failed attempt, an application vs one without a failure");
}

static void timer_oracle(Params const &, RunResult const &b,
                         RunResult const &r)
{
  near_probes(r, "timed", r, "plain", 1e-9,
              "an application with a timer vs one without");
  near_probes(r, "timed", b, "timed", 1e-9,
              "an application under clock jumps vs the undisturbed run");
}

static void history_oracle(Params const &p, RunResult const &b,
                           RunResult const &r)
{
  double const tol = p.real("sametol", 1e-9);
  if (b.has("fresh0"))
    near_probes(r, "fresh", b, "fresh", tol,
              "a hierarchy on a fresh mesh vs the undisturbed run");
  for (int q = 0; q < p.num("rounds", 3); ++q)
    for (char const *n : {"again", "late"})
    {
      std::string const name = n + std::to_string(q) + "_";
      if (r.has(name + "0"))
        near_probes(r, name, r, "fresh", tol,
                    n[0] == 'a'
                        ? "a hierarchy built after others vs a fresh one"
                        : "a hierarchy used after others were built vs a fresh "
                          "one");
    }
}

static void conserve_oracle(Params const &, RunResult const &,
                            RunResult const &r)
{
  for (auto const &q : r.out.at("grown"))
  {
    auto const &v = q.second;
    // caches may be filled by the first rounds
    for (size_t k = 2; k < v.size(); ++k)
      if (v[k] > 0 && v[k] == v[2])
      {
        bool all = true;
        for (size_t j = 2; j < v.size(); ++j)
          all = all && v[j] > 0;
        if (all)
          FAIL("rank %d: every round of building, applying and destroying a "
               "hierarchy leaves allocations behind (%g, %g, %g)",
               q.first, v[2], v[3], v[4]);
      }
  }
}

static void errors_oracle(Params const &p, RunResult const &,
                          RunResult const &r)
{
  int n0 = 0, n1 = 0;
  for (auto const &q : r.out.at("thrown"))
    (q.second[0] ? n1 : n0)++;
  if (n0 && n1)
    FAIL("%s=%s is refused on %d ranks and accepted on %d",
         p.str("badkey").c_str(), p.str("badval").c_str(), n1, n0);
  if (n0)
    FAIL("%s=%s is accepted", p.str("badkey").c_str(), p.str("badval").c_str());
  near_probes(r, "y", r, "fresh", 1e-9,
              "a hierarchy built after a refused one vs a fresh one");
}

static void algebra_oracle(Params const &p, RunResult const &b,
                           RunResult const &r)
{
  Mat const A = get(r, "A"), B = get(r, "B"), D = get(r, "D"), M = get(r, "M");
  (void)b;
  double const tol = 1e-12;
  // the units of the operands
  double const ua = std::ldexp(1., p.num("ea", 0)),
               ub = std::ldexp(1., p.num("eb", 0)),
               ud = std::ldexp(1., p.num("ed", 0));
  near(get(r, "A.after"), A, 0., "an operand (A) after the products");
  near(get(r, "D.after"), D, 0., "an operand (D) after the products");
  near(get(r, "AB"), mul(A, B), tol, "multiply", 10. * ua * ub);
  near(get(r, "ADt"), mul(A, tr(D)), tol, "multiply_transpose", 10. * ua * ud);
  near(get(r, "ADt2"), mul(A, tr(D)), 1e-12,
       "matrix_transpose_matrix_multiply", 10. * ua * ud);
  near(get(r, "At"), tr(A), 0., "transpose", 1.);
  near(get(r, "Att"), A, 0., "transpose of the transpose", 1.);
  near(get(r, "A.apply"), A, tol, "apply", 10. * ua);
  near(get(r, "At.apply"), tr(A), tol, "apply of the transpose", 10. * ua);
  near(get(r, "chain"), mul(D, mul(mul(tr(A), mul(M, A)), tr(D))), 1e-11,
       "a chain of products", 100. * ua * ua * ud * ud * std::max(1., maxabs(M)));
  for (int q = 0; q < p.num("places", 0); ++q)
  {
    std::string const n = std::to_string(q);
    if (!r.has("X" + n))
      break;
    Mat const X = get(r, "X" + n);
    near(get(r, "AX" + n), mul(A, q % 2 ? tr(X) : X), tol,
         "a product with an operand where another one has been", 10. * ua);
    near(get(r, "Xt" + n), tr(X), 0.,
         "transpose of an operand where another one has been", 1.);
  }
  Mat rows(A.m, A.n);
  for (auto const &q : r.out.at("rows"))
    for (size_t k = 0; k + 2 < q.second.size(); k += 3)
      rows(q.second[k], q.second[k + 1]) += q.second[k + 2];
  near(rows, A, 0., "extracted rows", 1.);
  Mat const x = col(getv(r, "sol.x")), y = col(getv(r, "sol.b"));
  near(mul(M, x), y, 1e-9, "a coarse solve", 1.);
  // entry count reported by every rank
  for (auto const &q : r.out.at("complexity"))
    if (q.second != r.out.at("complexity").begin()->second)
      FAIL("the ranks disagree about the number of entries");
}

static void agglo_oracle(Params const &, RunResult const &b,
                         RunResult const &r)
{
  if (b.out.at("counts") != r.out.at("counts"))
    FAIL("another number of agglomerates than in the undisturbed run");
  for (auto const &o : b.out)
    if (o.first.compare(0, 3, "ids") == 0)
      same_ids(b, r, o.first,
               "the agglomerates differ from the undisturbed run");
}

static void output_oracle(Params const &, RunResult const &b,
                          RunResult const &r)
{
  same_ids(b, r, "vtu", "the agglomerate files differ from those of the "
                        "undisturbed run");
  Mat const A = get(r, "A");
  Mat M(A.m, A.n);
  auto const &d = r.out.at("mm.dim").begin()->second;
  if (d[0] != A.m || d[1] != A.n)
    FAIL("the matrix file says %g x %g instead of %d x %d", d[0], d[1], A.m,
         A.n);
  auto const &t = r.out.at("mm").begin()->second;
  if (t.size() != 3 * (size_t)d[2])
    FAIL("the matrix file announces %g entries and has %lu", d[2],
         (unsigned long)t.size() / 3);
  for (size_t k = 0; k < t.size(); k += 3)
    M(t[k], t[k + 1]) += t[k + 2];
  near(M, A, 1e-12, "the matrix file");
  std::map<long, double> v;
  for (auto const &q : r.out.at("v"))
    for (size_t k = 0; k < q.second.size(); k += 2)
      v[q.second[k]] = q.second[k + 1];
  auto const &f = r.out.at("vv").begin()->second;
  if (f.size() != v.size())
    FAIL("the vector file has %lu of %lu entries", (unsigned long)f.size(),
         (unsigned long)v.size());
  for (size_t i = 0; i < f.size(); ++i)
    if (!(std::abs(f[i] - v[i]) < 1e-12))
      FAIL("entry %lu of the vector file is %.12g instead of %.12g",
           (unsigned long)i, f[i], v[i]);
}

static void lanczos_oracle(Params const &, RunResult const &b,
                           RunResult const &r)
{
  if (&b == &r)
    return;
  for (auto const &q : b.out.at("lanczos"))
    near(col(q.second), col(r.out.at("lanczos").at(q.first)), 1e-10,
         "eigenpairs of Lanczos vs the undisturbed run");
}

template <void (*F)(Params const &, RunResult const &, RunResult const &)>
static std::string wrap(Params const &p, RunResult const &b, RunResult const &r)
{
  try
  {
    F(p, b, r);
  }
  catch (Bad const &x)
  {
    return x.what;
  }
  catch (std::out_of_range const &)
  {
    return "an expected output is missing";
  }
  return "";
}

static void fault_configure(Params const &p, RunResult const &b, Config &c)
{
  // aim the fault at a point the undisturbed run reaches
  long const k = p.num("point", 0);
  if (p.str("fault", "cb") == "alloc")
  {
    uint64_t n = 0;
    c.alloc_fail_rank = p.num("frank", 0) % (long)b.rank.size();
    n = b.out.at("counts").at(c.alloc_fail_rank)[0];
    c.alloc_fail_at = n ? k % n : -1;
  }
  else
  {
    // Between the same two collectives on every rank: an exception of the user
    // is an exception on all the ranks, but not necessarily for the same
    // agglomerate.
    std::map<double, std::map<int, std::pair<int, int>>> epoch;
    for (auto const &q : b.out.at("epochs"))
      for (size_t i = 0; i < q.second.size(); ++i)
      {
        auto const e = epoch[q.second[i]].emplace(q.first, std::make_pair((int)i, 0));
        ++e.first->second.second;
      }
    std::vector<std::map<int, std::pair<int, int>>> all;
    for (auto const &e : epoch)
      if (e.second.size() == b.out.at("epochs").size())
        all.push_back(e.second);
    if (all.empty())
      return;
    // callbacks per epoch differ a lot: mix uniform over epochs and callbacks
    auto const &e = all[(k >> 4) % all.size()];
    for (auto const &q : e)
      c.cb_fail_at[q.first] =
          q.second.first + (k >> 8) * (q.first + 1) % q.second.second;
  }
}

void scen_setup(Params const &);
void scen_apply(Params const &);
void scen_fault(Params const &);
void scen_timer(Params const &);
void scen_history(Params const &);
void scen_conserve(Params const &);
void scen_errors(Params const &);
void scen_agglo(Params const &);
void scen_algebra(Params const &);
void scen_output(Params const &);
void scen_lanczos(Params const &);

std::map<std::string, Scenario> const &scenarios()
{
  static std::map<std::string, Scenario> const s = {
      {"setup", {scen_setup, wrap<setup_oracle>, nullptr}},
      {"apply", {scen_apply, wrap<apply_oracle>, nullptr}},
      {"fault", {scen_fault, wrap<fault_oracle>, fault_configure}},
      {"timer", {scen_timer, wrap<timer_oracle>, nullptr}},
      {"history", {scen_history, wrap<history_oracle>, nullptr}},
      {"conserve", {scen_conserve, wrap<conserve_oracle>, nullptr}},
      {"errors", {scen_errors, wrap<errors_oracle>, nullptr}},
      {"agglo", {scen_agglo, wrap<agglo_oracle>, nullptr}},
      {"algebra", {scen_algebra, wrap<algebra_oracle>, nullptr}},
      {"output", {scen_output, wrap<output_oracle>, nullptr}},
      {"lanczos", {scen_lanczos, wrap<lanczos_oracle>, nullptr}},
  };
  return s;
}
} // namespace mfsim
