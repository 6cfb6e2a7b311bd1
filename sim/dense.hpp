// Small dense linear algebra for the oracles.
#ifndef MFSIM_DENSE_HPP
#define MFSIM_DENSE_HPP
#include <algorithm>
#include <cmath>
#include <vector>
extern "C" void dsyev_(char const *, char const *, int const *, double *,
                       int const *, double *, double *, int const *, int *);
extern "C" void dgesv_(int const *, int const *, double *, int const *, int *,
                       double *, int const *, int *);
namespace mfsim
{
struct Mat
{
  int m = 0, n = 0;
  std::vector<double> a; // column major
  Mat() = default;
  Mat(int m_, int n_) : m(m_), n(n_), a(size_t(m_) * n_, 0.) {}
  double &operator()(int i, int j) { return a[size_t(j) * m + i]; }
  double operator()(int i, int j) const { return a[size_t(j) * m + i]; }
};
inline Mat mul(Mat const &A, Mat const &B)
{
  Mat C(A.m, B.n);
  for (int j = 0; j < B.n; ++j)
    for (int k = 0; k < A.n; ++k)
    {
      double const b = B(k, j);
      if (b != 0.)
        for (int i = 0; i < A.m; ++i)
          C(i, j) += A(i, k) * b;
    }
  return C;
}
inline Mat tr(Mat const &A)
{
  Mat B(A.n, A.m);
  for (int i = 0; i < A.m; ++i)
    for (int j = 0; j < A.n; ++j)
      B(j, i) = A(i, j);
  return B;
}
inline Mat axpy(double s, Mat const &A, Mat B)
{
  for (size_t i = 0; i < B.a.size(); ++i)
    B.a[i] += s * A.a[i];
  return B;
}
inline double maxabs(Mat const &A)
{
  double v = 0;
  for (double x : A.a)
  {
    if (!(std::abs(x) <= v)) // catches NaN
      v = std::abs(x);
    if (std::isnan(x))
      return x;
  }
  return v;
}
inline Mat eye(int n)
{
  Mat I(n, n);
  for (int i = 0; i < n; ++i)
    I(i, i) = 1;
  return I;
}
// eigenvalues ascending; eigenvectors in the columns of V
inline bool eig_sym(Mat A, std::vector<double> &w, Mat &V)
{
  int n = A.n, lw = std::max(1, 34 * n), info = 0;
  w.assign(n, 0.);
  if (!n)
  {
    V = A;
    return true;
  }
  std::vector<double> work(lw);
  dsyev_("V", "U", &n, A.a.data(), &n, w.data(), work.data(), &lw, &info);
  V = A;
  return info == 0;
}
inline bool solve(Mat A, Mat B, Mat &X)
{
  int n = A.n, k = B.n, info = 0;
  std::vector<int> piv(n + 1);
  if (n && k)
    dgesv_(&n, &k, A.a.data(), &n, piv.data(), B.a.data(), &n, &info);
  X = B;
  return info == 0;
}
} // namespace mfsim
#endif
