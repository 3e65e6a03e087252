// Replicated sparse / dense linear algebra used as reference by the oracles.
// Nothing in here uses mfmg.
#ifndef VF_LINALG_HPP
#define VF_LINALG_HPP
#include <deal.II/lac/la_parallel_vector.h>
#include <deal.II/lac/trilinos_sparse_matrix.h>
#include <deal.II/lac/vector.h>

#include <Epetra_CrsMatrix.h>
#include <Epetra_Map.h>

#include "vf.hpp"

#include <mpi.h>

#include <algorithm>
#include <cmath>
#include <map>
#include <string>
#include <tuple>
#include <vector>

// under another C++ name: some LAPACK headers declare them with other types
extern "C"
{
  void vf_dsyev(char const *, char const *, int const *, double *, int const *,
                double *, double *, int const *, int *) __asm__("dsyev_");
  void vf_dgesv(int const *, int const *, double *, int const *, int *,
                double *, int const *, int *) __asm__("dgesv_");
}

namespace vf
{
using DVector = dealii::LinearAlgebra::distributed::Vector<double>;
using Vec = std::vector<double>;

inline double dot(Vec const &a, Vec const &b)
{
  double s = 0;
  for (size_t i = 0; i < a.size(); ++i)
    s += a[i] * b[i];
  return s;
}
inline double norm(Vec const &a) { return std::sqrt(dot(a, a)); }
inline double norm_inf(Vec const &a)
{
  double s = 0;
  for (double v : a)
  {
    if (!(std::abs(v) <= 1e300))
      return 1e301;
    s = std::max(s, std::abs(v));
  }
  return s;
}
inline Vec axpy(double s, Vec const &x, Vec y)
{
  for (size_t i = 0; i < y.size(); ++i)
    y[i] += s * x[i];
  return y;
}
inline double dist_inf(Vec const &a, Vec const &b)
{
  if (a.size() != b.size())
    return 1e301;
  return norm_inf(axpy(-1., a, b));
}

// Row-wise replicated sparse matrix
struct GMat
{
  size_t m = 0, n = 0;
  std::vector<std::map<size_t, double>> r;
  GMat() = default;
  GMat(size_t m_, size_t n_) : m(m_), n(n_), r(m_) {}
  void add(size_t i, size_t j, double v) { r[i][j] += v; }
  double el(size_t i, size_t j) const
  {
    auto it = r[i].find(j);
    return it == r[i].end() ? 0. : it->second;
  }
  size_t nnz() const
  {
    size_t s = 0;
    for (auto const &x : r)
      s += x.size();
    return s;
  }
  Vec mul(Vec const &x) const
  {
    Vec y(m, 0.);
    for (size_t i = 0; i < m; ++i)
      for (auto const &e : r[i])
        y[i] += e.second * x[e.first];
    return y;
  }
  Vec tmul(Vec const &x) const
  {
    Vec y(n, 0.);
    for (size_t i = 0; i < m; ++i)
      for (auto const &e : r[i])
        y[e.first] += e.second * x[i];
    return y;
  }
  GMat transpose() const
  {
    GMat t(n, m);
    for (size_t i = 0; i < m; ++i)
      for (auto const &e : r[i])
        t.r[e.first][i] = e.second;
    return t;
  }
  GMat mul(GMat const &b) const
  {
    GMat c(m, b.n);
    for (size_t i = 0; i < m; ++i)
      for (auto const &e : r[i])
        for (auto const &f : b.r[e.first])
          c.r[i][f.first] += e.second * f.second;
    return c;
  }
  double max_abs() const
  {
    double s = 0;
    for (auto const &x : r)
      for (auto const &e : x)
      {
        if (!(std::abs(e.second) <= 1e300))
          return 1e301;
        s = std::max(s, std::abs(e.second));
      }
    return s;
  }
  std::vector<double> dense() const // column major
  {
    std::vector<double> a(m * n, 0.);
    for (size_t i = 0; i < m; ++i)
      for (auto const &e : r[i])
        a[e.first * m + i] = e.second;
    return a;
  }
};

// max_ij |A_ij - B_ij|
inline double diff_max(GMat const &a, GMat const &b)
{
  if (a.m != b.m || a.n != b.n)
    return 1e301;
  double s = 0;
  for (size_t i = 0; i < a.m; ++i)
  {
    for (auto const &e : a.r[i])
    {
      double const d = std::abs(e.second - b.el(i, e.first));
      if (!(d <= 1e300))
        return 1e301;
      s = std::max(s, d);
    }
    for (auto const &e : b.r[i])
      s = std::max(s, std::abs(e.second - a.el(i, e.first)));
  }
  return s;
}

// where the matrices differ most
inline std::string worst_entries(GMat const &a, GMat const &b)
{
  if (a.m != b.m || a.n != b.n)
    return str(a.m, "x", a.n, " and ", b.m, "x", b.n);
  std::vector<std::tuple<double, size_t, size_t>> all;
  for (size_t i = 0; i < a.m; ++i)
  {
    for (auto const &e : a.r[i])
      all.emplace_back(std::abs(e.second - b.el(i, e.first)), i, e.first);
    for (auto const &e : b.r[i])
      all.emplace_back(std::abs(e.second - a.el(i, e.first)), i, e.first);
  }
  std::sort(all.rbegin(), all.rend());
  all.erase(std::unique(all.begin(), all.end()), all.end());
  std::string s;
  for (size_t q = 0; q < std::min<size_t>(4, all.size()); ++q)
  {
    size_t const i = std::get<1>(all[q]), j = std::get<2>(all[q]);
    s += str("(", i, ",", j, ") ", a.el(i, j), " and ", b.el(i, j), "; ");
  }
  return s;
}

template <typename T>
std::vector<T> allgatherv(std::vector<T> const &in, MPI_Comm comm)
{
  int size;
  MPI_Comm_size(comm, &size);
  int n = static_cast<int>(in.size() * sizeof(T));
  std::vector<int> counts(size), displ(size);
  MPI_Allgather(&n, 1, MPI_INT, counts.data(), 1, MPI_INT, comm);
  int tot = 0;
  for (int i = 0; i < size; ++i)
  {
    displ[i] = tot;
    tot += counts[i];
  }
  std::vector<T> out(tot / sizeof(T));
  MPI_Allgatherv(in.data(), n, MPI_BYTE, out.data(), counts.data(),
                 displ.data(), MPI_BYTE, comm);
  return out;
}

struct Triplet
{
  long i, j;
  double v;
};

inline GMat from_triplets(size_t m, size_t n, std::vector<Triplet> const &loc,
                          MPI_Comm comm)
{
  GMat g(m, n);
  for (auto const &t : allgatherv(loc, comm))
    g.add(t.i, t.j, t.v);
  return g;
}

inline GMat gather(dealii::TrilinosWrappers::SparseMatrix const &a,
                   MPI_Comm comm)
{
  std::vector<Triplet> loc;
  Epetra_CrsMatrix const &e = a.trilinos_matrix();
  for (int i = 0; i < e.NumMyRows(); ++i)
  {
    int ne = 0;
    double *v = nullptr;
    int *ix = nullptr;
    e.ExtractMyRowView(i, ne, v, ix);
    for (int k = 0; k < ne; ++k)
      loc.push_back({e.GRID(i), e.GCID(ix[k]), v[k]});
  }
  return from_triplets(e.NumGlobalRows(), e.NumGlobalCols(), loc, comm);
}

struct IdxVal
{
  long i;
  double v;
};

inline Vec gather(DVector const &x, MPI_Comm comm)
{
  std::vector<IdxVal> loc;
  for (auto const i : x.locally_owned_elements())
    loc.push_back({static_cast<long>(i), x(i)});
  Vec g(x.size(), 0.);
  for (auto const &e : allgatherv(loc, comm))
    g[e.i] = e.v;
  return g;
}

inline void scatter(Vec const &g, DVector &x)
{
  for (auto const i : x.locally_owned_elements())
    x(i) = g[i];
}

// symmetric eigenproblem; a is column major n x n, overwritten by vectors
inline Vec sym_eig(std::vector<double> &a, int n, bool vectors = true)
{
  Vec w(n);
  if (n == 0)
    return w;
  int lwork = 8 * n + 64, info = 0;
  Vec work(lwork);
  vf_dsyev(vectors ? "V" : "N", "U", &n, a.data(), &n, w.data(), work.data(),
         &lwork, &info);
  if (info != 0)
    w.assign(n, std::nan(""));
  return w;
}

// solves A x = b for nrhs right hand sides; returns false if singular
inline bool dense_solve(std::vector<double> a, std::vector<double> &b, int n,
                        int nrhs = 1)
{
  if (n == 0)
    return true;
  std::vector<int> piv(n);
  int info = 0;
  vf_dgesv(&n, &nrhs, a.data(), &n, piv.data(), b.data(), &n, &info);
  return info == 0;
}
} // namespace vf
#endif
