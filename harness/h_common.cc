// Monitors for the eigensolvers and the utilities which do not need a mesh.
#include <mfmg/common/lanczos.templates.hpp>
#include <mfmg/common/utils.hpp>
#include <mfmg/dealii/anasazi.templates.hpp>

#include <deal.II/base/mpi.h>
#include <deal.II/lac/dynamic_sparsity_pattern.h>
#include <deal.II/lac/sparse_matrix.h>
#include <deal.II/lac/sparsity_pattern.h>
#include <deal.II/lac/vector.h>

#include <Teuchos_ParameterList.hpp>

#include "linalg.hpp"
#include "vf.hpp"

#include <algorithm>
#include <deque>
#include <tuple>

using namespace vf;
using boost::property_tree::ptree;
using DVec = dealii::Vector<double>;

namespace
{
// A symmetric operator with a known spectrum. Applications are counted and
// checked (sizes, finite input).
struct SymOp
{
  size_t n_ = 0;
  std::vector<double> a; // column major
  Vec lambda;            // ascending
  std::vector<double> Q; // eigenvectors, column major
  mutable long applied = 0;
  mutable long bad = 0;
  size_t m() const { return n_; }
  size_t n() const { return n_; }
  void vmult(DVec &y, DVec const &x) const
  {
    ++applied;
    if (x.size() != n_ || y.size() != n_)
    {
      ++bad;
      throw std::runtime_error("operator applied to a vector of wrong size");
    }
    for (size_t i = 0; i < n_; ++i)
      if (!std::isfinite(x(i)))
      {
        ++bad;
        break;
      }
    Vec t(n_, 0.);
    for (size_t j = 0; j < n_; ++j)
    {
      double const s = x(j);
      if (s != 0.)
        for (size_t i = 0; i < n_; ++i)
          t[i] += a[j * n_ + i] * s;
    }
    for (size_t i = 0; i < n_; ++i)
      y(i) = t[i];
  }
};

// random orthogonal matrix acting on `active`, identity elsewhere
std::vector<double> random_orthogonal(Rng &rng, size_t n,
                                      std::vector<size_t> const &active)
{
  std::vector<double> q(n * n, 0.);
  for (size_t i = 0; i < n; ++i)
    q[i * n + i] = 1.;
  // Householder reflections
  for (int h = 0; h < 3; ++h)
  {
    Vec v(n, 0.);
    double s = 0;
    for (auto i : active)
    {
      v[i] = rng.sym();
      if (twin())
        v[i] = 0.8 * v[i] + (i % 3 ? 0.2 : -0.3);
      s += v[i] * v[i];
    }
    if (s == 0)
      continue;
    for (size_t j = 0; j < n; ++j)
    {
      double d = 0;
      for (size_t i = 0; i < n; ++i)
        d += v[i] * q[j * n + i];
      for (size_t i = 0; i < n; ++i)
        q[j * n + i] -= 2. * d / s * v[i];
    }
  }
  return q;
}

void fill(SymOp &op)
{
  size_t const n = op.n_;
  op.a.assign(n * n, 0.);
  for (size_t k = 0; k < n; ++k)
    for (size_t j = 0; j < n; ++j)
    {
      double const s = op.lambda[k] * op.Q[k * n + j];
      if (s != 0.)
        for (size_t i = 0; i < n; ++i)
          op.a[j * n + i] += s * op.Q[k * n + i];
    }
  for (size_t j = 0; j < n; ++j)
    for (size_t i = 0; i < j; ++i)
      op.a[i * n + j] = op.a[j * n + i] =
          0.5 * (op.a[i * n + j] + op.a[j * n + i]);
}

double dotv(DVec const &a, DVec const &b)
{
  double s = 0;
  for (unsigned i = 0; i < a.size(); ++i)
    s += a(i) * b(i);
  return s;
}
bool finite(DVec const &v)
{
  for (unsigned i = 0; i < v.size(); ++i)
    if (!std::isfinite(v(i)))
      return false;
  return true;
}

void case_lanczos(Ctx &c)
{
  Rng &r = c.rng;
  int const mode = static_cast<int>(r.range(0, 9));
  bool const deflated = mode >= 5 && mode <= 7;
  bool const truncated = mode == 8; // iteration limit hit
  bool const impossible = mode == 9;
  SymOp op;
  size_t const free = static_cast<size_t>(
      r.chance(0.03) ? r.range(100, 200) : r.range(4, c.thorough ? 90 : 50));
  size_t const fixed = r.chance(0.4) ? static_cast<size_t>(r.range(1, 6)) : 0;
  size_t const n = free + fixed;
  op.n_ = n;
  // distinct values of the active part
  double const scale = r.pick<double>({1e-1, 1., 10., 100.});
  double const shift = r.pick<double>({-2., 0., 0., 0.3, 2.});
  int const max_mult = deflated ? static_cast<int>(r.range(2, 3)) : 1;
  std::vector<size_t> idx(n);
  for (size_t i = 0; i < n; ++i)
    idx[i] = i;
  r.shuffle(idx);
  std::vector<size_t> active(idx.begin(), idx.begin() + free);
  std::vector<size_t> zero(idx.begin() + free, idx.end());
  Vec values, distinct;
  double v = shift;
  while (values.size() < free)
  {
    int const mult = deflated ? static_cast<int>(r.range(1, max_mult)) : 1;
    distinct.push_back(v * scale);
    for (int k = 0; k < mult && values.size() < free; ++k)
      values.push_back(v * scale);
    v += r.uniform(0.5, 1.5);
  }
  // eigenpair k of the active part lives at position active[k]
  op.lambda.assign(n, 0.);
  op.Q = random_orthogonal(r, n, r.chance(0.75) ? active
                                                : std::vector<size_t>());
  for (size_t k = 0; k < free; ++k)
    op.lambda[active[k]] = values[k];
  for (auto z : zero)
    op.lambda[z] = shift * scale - 5. * scale; // would win if not excluded
  fill(op);

  // initial guess: every active eigenvector is well represented, the excluded
  // entries are zero
  DVec guess(n);
  double const gscale = r.pick<double>({1e-3, 1., 1e3});
  // or a few of the lowest ones are not: they show late, or are missed
  bool const uneven = mode <= 1;
  for (size_t k = 0; k < free; ++k)
  {
    double s = gscale * (r.chance(0.5) ? 1. : -1.) * r.uniform(0.4, 1.);
    if (uneven && k < 5 && r.chance(0.4))
      s *= std::pow(10., -r.uniform(1., 9.));
    for (size_t i = 0; i < n; ++i)
      guess(i) += s * op.Q[active[k] * n + i];
  }
  for (auto z : zero)
    guess(z) = 0.;
  DVec const guess0 = guess;

  ptree p;
  double const tol =
      scale * r.pick<double>({1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7});
  int overshoot = static_cast<int>(r.pick<int>({0, 0, 5, 20, 50, 99}));
  size_t k = static_cast<size_t>(
      r.range(1, std::max<long>(1, std::min<long>(free / 3, 8))));
  int cycles = 1, per_cycle = static_cast<int>(k);
  int maxit = static_cast<int>(6 * n + 50);
  if (deflated)
  {
    cycles = static_cast<int>(max_mult + r.range(0, 1));
    // number of distinct values among the k lowest
    size_t d = 0;
    while (d < distinct.size() && distinct[d] <= values[k - 1] + 1e-12)
      ++d;
    per_cycle = static_cast<int>(d + r.range(0, 1));
    while (cycles * per_cycle < static_cast<int>(k))
      ++per_cycle;
    // every cycle must be able to find its pairs
    if (static_cast<size_t>(cycles * per_cycle) * 2 > free ||
        static_cast<size_t>(per_cycle) + 2 > distinct.size())
      return c.skip("deflation space too large for the operator");
    p.put("is_deflated", true);
    p.put("num_cycles", cycles);
    p.put("num_eigenpairs_per_cycle", per_cycle);
  }
  else if (r.chance(0.3))
    p.put("is_deflated", false);
  if (truncated)
    maxit = static_cast<int>(r.range(k, std::max(k, free / 2)));
  else if (free >= 100 && overshoot < 20)
    // every iteration computes all eigenpairs of the tridiagonal matrix
    overshoot = 20;
  if (impossible)
  {
    // more pairs than the Krylov space of the guess contains
    if (r.chance(0.5))
    {
      // few distinct values
      size_t const d = static_cast<size_t>(r.range(1, 3));
      for (size_t q = 0; q < free; ++q)
        op.lambda[active[q]] = scale * static_cast<double>(1 + q % d);
      fill(op);
      k = d + static_cast<size_t>(r.range(1, 3));
      per_cycle = static_cast<int>(k);
    }
    else
    {
      // deflation cycles which cannot deliver the pairs which are requested
      per_cycle = static_cast<int>(r.range(1, 2));
      cycles = static_cast<int>(r.range(1, 2));
      k = static_cast<size_t>(per_cycle * cycles + r.range(1, 3));
      if (static_cast<size_t>(per_cycle) + 2 > free / 3)
        return c.skip("operator too small");
      p.put("is_deflated", true);
      p.put("num_cycles", cycles);
      p.put("num_eigenpairs_per_cycle", per_cycle);
    }
  }
  p.put("num_eigenpairs", k);
  p.put("max_iterations", maxit);
  p.put("tolerance", tol);
  if (overshoot > 0 || r.chance(0.5))
    p.put("percent_overshoot", overshoot);
  ptree const p0 = p;
  c.label = str("n=", n, " excluded=", fixed, " k=", k, " tol=", tol,
                " scale=", scale, " overshoot=", overshoot, " cycles=", cycles,
                " per_cycle=", per_cycle, " maxit=", maxit, " mode=", mode);

  mfmg::Lanczos<SymOp, DVec> solver(op);
  Vec evals;
  std::vector<DVec> evecs;
  bool thrown = false;
  try
  {
    std::tie(evals, evecs) = solver.solve(p, guess);
  }
  catch (std::exception const &e)
  {
    thrown = true;
    if (!impossible)
      c.viol("exception", str(e.what(), "; ", c.label));
  }
  c.obs("operator_applications", op.applied);
  c.check(op.bad == 0, "bad-operator-input",
          "the operator was applied to a wrong or non finite vector; " +
              c.label);
  c.check(p == p0, "parameters-modified", c.label);
  c.check(op.applied <= static_cast<long>(maxit) * cycles, "iteration-limit",
          str(op.applied, " operator applications; ", c.label));
  if (thrown)
  {
    c.obs("refused");
    c.state(str("refused ", cycles, " ", per_cycle, " ", k));
    return;
  }
  if (!c.check(evals.size() == k && evecs.size() == k, "count",
               str(evals.size(), " values and ", evecs.size(),
                   " vectors; ", c.label)))
    return;
  double const anorm = [&] {
    double s = 0;
    for (auto x : op.lambda)
      s = std::max(s, std::abs(x));
    return s;
  }();
  double const eps = 1e-10 * (anorm + scale);
  auto const evecs0 = evecs;
  for (size_t i = 0; i < k; ++i)
  {
    if (!c.check(evecs[i].size() == n && finite(evecs[i]) &&
                     std::isfinite(evals[i]),
                 "not-finite", str("pair ", i, "; ", c.label)))
      return;
    if (i > 0)
      c.check(evals[i] >= evals[i - 1], "not-sorted",
              str("value ", i, " = ", evals[i], " after ", evals[i - 1], "; ",
                  c.label));
    for (auto z : zero)
      c.check(evecs[i](z) == 0., "excluded-entry",
              str("an entry which is zero in the initial guess and decoupled "
                  "is ",
                  evecs[i](z), "; ", c.label));
    double const nrm = std::sqrt(dotv(evecs[i], evecs[i]));
    // without reorthogonalisation the norm of a Ritz vector is only roughly 1
    c.check(nrm > 1e-5 && nrm < 20., "norm",
            str("eigenvector ", i, " has norm ", nrm, "; ", c.label));
    evecs[i] /= nrm;
    DVec av(n);
    op.vmult(av, evecs[i]);
    // a Ritz pair: the value is the Rayleigh quotient of the vector
    double const rq = dotv(evecs[i], av);
    if (!deflated)
      c.close(evals[i], rq, 1e-6 * (anorm + scale), "rayleigh",
              "value against the Rayleigh quotient of its vector; " + c.label);
    double lmin = 1e300;
    for (auto x : active)
      lmin = std::min(lmin, op.lambda[x]);
    if (!impossible)
      c.check(evals[i] >= lmin - 1e-6 * (anorm + scale), "below-spectrum",
              str("value ", evals[i], " below the smallest eigenvalue; ",
                  c.label));
    av.add(-evals[i], evecs[i]);
    double const res = std::sqrt(dotv(av, av));
    if (!truncated && !impossible)
    {
      double const f = deflated ? 1. + std::sqrt(double(cycles * per_cycle))
                                : 1.;
      // the estimate of the residual degrades with the orthogonality
      double const f1 = nrm > 0.9 && nrm < 1.1 ? f : 100. * f / std::min(1., nrm);
      c.below(res, f1 * tol * (1. + 1e-5) + eps, "residual",
              str("residual of pair ", i, "; ", c.label));
      if (uneven)
        c.obs("uneven_guesses");
      else if (!deflated || tol <= 1.1e-4 * scale)
        c.close(evals[i], values[i], f1 * tol + eps, "eigenvalue",
              str("eigenvalue ", i, "; ", c.label));
    }
  }
  if (!truncated && !impossible && !uneven)
    for (size_t i = 0; i < k; ++i)
      for (size_t j = 0; j < i; ++j)
      {
        // a pair of vectors with residual tol and a spectral gap g is
        // orthogonal up to tol / g; within a cluster the deflation keeps
        // them orthogonal
        double const d = dotv(evecs[i], evecs[j]);
        c.below(std::abs(d), 1e-6 + 20. * tol / scale, "orthogonality",
                str("vectors ", j, " and ", i, "; ", c.label));
      }
  c.obs("eigenpairs", k);
  if (deflated)
    c.obs("deflated_solves");
  if (truncated)
    c.obs("truncated_solves");
  c.state(str(n, " ", fixed, " ", k, " ", cycles, " ", per_cycle, " ",
              overshoot, " ", op.applied));
  // history independence: the same solver object gives the same answer
  if (r.chance(0.3))
  {
    Vec e2;
    std::vector<DVec> v2;
    std::tie(e2, v2) = solver.solve(p, guess0);
    bool same = e2 == evals && v2.size() == evecs.size();
    for (size_t i = 0; same && i < k; ++i)
      for (unsigned j = 0; j < n; ++j)
        same = same && v2[i](j) == evecs0[i](j);
    c.check(same, "not-repeatable", c.label);
  }
}

void case_deflation(Ctx &c)
{
  Rng &r = c.rng;
  SymOp op;
  size_t const n =
      static_cast<size_t>(r.chance(0.03) ? r.range(80, 200) : r.range(3, 40));
  op.n_ = n;
  op.lambda.resize(n);
  std::vector<size_t> active(n);
  for (size_t i = 0; i < n; ++i)
  {
    op.lambda[i] = r.uniform(-2., 5.);
    active[i] = i;
  }
  op.Q = random_orthogonal(r, n, active);
  fill(op);
  mfmg::DeflatedOperator<SymOp, DVec> d(op);
  c.check(d.m() == n && d.n() == n, "size", "wrong size");
  std::vector<Vec> basis; // orthonormal, by Gram-Schmidt twice
  std::vector<DVec> given;
  size_t const total = static_cast<size_t>(r.range(0, n - 1));
  size_t done = 0;
  int batches = 0;
  std::string sizes;
  auto verify = [&](std::string const &when) {
    DVec x(n), y(n);
    for (size_t i = 0; i < n; ++i)
      x(i) = r.sym();
    Vec ref(n);
    for (size_t i = 0; i < n; ++i)
      ref[i] = x(i);
    auto project = [&](Vec &z) {
      for (int pass = 0; pass < 2; ++pass)
        for (auto const &b : basis)
          z = axpy(-dot(z, b), b, z);
    };
    DVec const x0 = x;
    d.vmult(y, x);
    bool unchanged = true;
    for (size_t i = 0; i < n; ++i)
      unchanged = unchanged && x(i) == x0(i);
    c.check(unchanged, "source-modified", "vmult changed its source vector");
    DVec ax(n);
    op.vmult(ax, x);
    Vec want(n), got(n);
    for (size_t i = 0; i < n; ++i)
    {
      want[i] = ax(i);
      got[i] = y(i);
    }
    project(want);
    c.below(dist_inf(got, want), 1e-8, "vmult",
            str("(I-P)Ax ", when, "; ", c.label));
    project(ref);
    d.deflate(x);
    for (size_t i = 0; i < n; ++i)
      got[i] = x(i);
    c.below(dist_inf(got, ref), 1e-8, "projection",
            str("(I-P)x ", when, "; ", c.label));
    for (auto const &g : given)
      c.below(std::abs(dotv(x, g)) / std::sqrt(dotv(g, g)), 1e-8,
              "not-orthogonal", str("deflated vector ", when, "; ", c.label));
    DVec x2 = x;
    d.deflate(x2);
    double m = 0;
    for (size_t i = 0; i < n; ++i)
      m = std::max(m, std::abs(x2(i) - x(i)));
    c.below(m, 1e-9, "not-idempotent", str(when, "; ", c.label));
    c.obs("projections", 3);
  };
  verify("before the first batch");
  while (done < total)
  {
    size_t const b =
        std::min<size_t>(total - done, static_cast<size_t>(r.range(1, 5)));
    std::vector<DVec> vecs;
    for (size_t k = 0; k < b; ++k)
    {
      DVec v(n);
      // well conditioned: a new direction of its own plus a mixture of the
      // ones which are there, in any order of magnitude
      for (size_t i = 0; i < n; ++i)
        v(i) = 2. * op.Q[(done + k) * n + i];
      for (auto const &g : given)
        v.add(0.3 * r.sym() / std::sqrt(dotv(g, g)), g);
      for (auto const &g : vecs)
        v.add(0.3 * r.sym() / std::sqrt(dotv(g, g)), g);
      v *= std::pow(10., r.uniform(-3., 3.));
      vecs.push_back(v);
    }
    std::vector<DVec> const vecs0 = vecs;
    d.add_deflation_vecs(vecs);
    bool unchanged = true;
    for (size_t k = 0; k < b; ++k)
      for (size_t i = 0; i < n; ++i)
        unchanged = unchanged && vecs[k](i) == vecs0[k](i);
    c.check(unchanged, "input-modified", "add_deflation_vecs");
    for (auto const &v : vecs0)
    {
      given.push_back(v);
      Vec z(n);
      for (size_t i = 0; i < n; ++i)
        z[i] = v(i);
      double const nz = norm(z);
      for (auto &q : z)
        q /= nz;
      for (int pass = 0; pass < 3; ++pass)
        for (auto const &q : basis)
          z = axpy(-dot(z, q), q, z);
      double const nn = norm(z);
      for (auto &q : z)
        q /= nn;
      basis.push_back(z);
    }
    done += b;
    ++batches;
    sizes += str(b, ",");
    c.label = str("n=", n, " batches=", sizes);
    c.obs("deflation_vectors", b);
    verify(str("after batch ", batches));
  }
  c.state(str(n, ":", sizes));
}

dealii::SparsityPattern full_pattern(size_t n)
{
  dealii::DynamicSparsityPattern dsp(n, n);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j)
      dsp.add(i, j);
  dealii::SparsityPattern sp;
  sp.copy_from(dsp);
  return sp;
}

using MV = mfmg::MultiVector<DVec>;
using MVT = Anasazi::MultiVecTraits<double, MV>;
using OPT =
    Anasazi::OperatorTraits<double, MV, dealii::SparseMatrix<double>>;

void case_anasazi(Ctx &c)
{
  Rng &r = c.rng;
  SymOp op;
  size_t const n =
      static_cast<size_t>(r.chance(0.03) ? r.range(80, 200) : r.range(8, 50));
  op.n_ = n;
  double const scale = r.pick<double>({0.1, 1., 10.});
  std::vector<size_t> active(n);
  op.lambda.resize(n);
  double v = r.uniform(0.2, 1.);
  size_t const k = static_cast<size_t>(r.range(1, std::min<long>(6, n / 5)));
  for (size_t i = 0; i < n; ++i)
  {
    active[i] = i;
    op.lambda[i] = scale * v;
    bool const repeat = r.chance(0.15) && i != k - 1;
    if (!repeat)
      v += r.uniform(0.3, 1.);
  }
  op.Q = random_orthogonal(r, n, active);
  fill(op);
  auto const sp = full_pattern(n);
  dealii::SparseMatrix<double> A(sp);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j)
      A.set(i, j, op.a[j * n + i]);

  bool const block_guess = r.chance(0.4) && k > 1;
  size_t const ng = block_guess ? k : 1;
  std::vector<std::shared_ptr<DVec>> guess;
  for (size_t g = 0; g < ng; ++g)
  {
    auto x = std::make_shared<DVec>(n);
    for (size_t i = 0; i < n; ++i)
      (*x)(i) = r.uniform(-1., 1.) + (g == 0 ? 1. : 0.);
    guess.push_back(x);
  }
  std::vector<DVec> guess0;
  for (auto const &g : guess)
    guess0.push_back(*g);
  double const tol = scale * r.pick<double>({1e-3, 1e-5, 1e-8});
  ptree p;
  p.put("number of eigenvectors", k);
  p.put("tolerance", tol);
  if (r.chance(0.5))
    p.put("max_iterations", 1000);
  if (r.chance(0.3))
    p.put("full_ortho", true);
  c.label = str("n=", n, " k=", k, " guess=", ng, " tol=", tol);
  mfmg::AnasaziSolver<dealii::SparseMatrix<double>, DVec> solver(A);
  Vec evals;
  std::vector<DVec> evecs;
  try
  {
    std::tie(evals, evecs) = solver.solve(p, guess);
  }
  catch (std::exception const &e)
  {
    // LOBPCG may fail to converge; it has to say so
    c.check(std::string(e.what()).find("Anasazi") != std::string::npos,
            "exception", str(e.what(), "; ", c.label));
    return c.obs("anasazi_refused");
  }
  c.obs("anasazi_solved");
  if (!c.check(evals.size() == k && evecs.size() == k, "count",
               str(evals.size(), " values, ", evecs.size(), " vectors; ",
                   c.label)))
    return;
  double const eps = 1e-9 * op.lambda.back();
  for (size_t i = 0; i < k; ++i)
  {
    if (!c.check(evecs[i].size() == n && finite(evecs[i]) &&
                     std::isfinite(evals[i]),
                 "not-finite", c.label))
      return;
    if (i > 0)
      c.check(evals[i] >= evals[i - 1] - eps, "not-sorted",
              str(evals[i], " after ", evals[i - 1], "; ", c.label));
    c.close(dotv(evecs[i], evecs[i]), 1., 1e-6, "norm",
            "norm of an eigenvector; " + c.label);
    c.close(evals[i], op.lambda[i], tol + eps, "eigenvalue",
            str("eigenvalue ", i, "; ", c.label));
    DVec av(n);
    op.vmult(av, evecs[i]);
    av.add(-evals[i], evecs[i]);
    c.below(std::sqrt(dotv(av, av)), tol * (1. + 1e-6) + eps, "residual",
            str("residual of pair ", i, "; ", c.label));
    for (size_t j = 0; j < i; ++j)
      c.below(std::abs(dotv(evecs[i], evecs[j])), 1e-6, "orthogonality",
              str("vectors ", j, ",", i, "; ", c.label));
  }
  c.obs("eigenpairs", k);
  c.state(str(n, " ", k, " ", ng, " ", tol, " ", op.lambda[0]));
  for (size_t g = 0; g < ng; ++g)
    c.check(guess[g]->size() == n, "guess-destroyed", c.label);
  Vec e2;
  std::vector<DVec> v2;
  std::vector<std::shared_ptr<DVec>> again;
  for (auto const &g : guess0)
    again.push_back(std::make_shared<DVec>(g));
  try
  {
    std::tie(e2, v2) = solver.solve(p, again);
  }
  catch (std::exception const &)
  {
    // the full_ortho/random parts of LOBPCG are allowed to differ
    return c.obs("anasazi_refused");
  }
  c.check(e2.size() == k, "not-repeatable", c.label);
  for (size_t i = 0; i < std::min(k, e2.size()); ++i)
    c.close(e2[i], evals[i], 2 * tol + eps, "not-repeatable",
            "second solve; " + c.label);
}

struct RefMV
{
  std::vector<Vec> v;
};

void case_multivector(Ctx &c)
{
  Rng &r = c.rng;
  bool const large = r.chance(0.05);
  size_t const n = static_cast<size_t>(large ? r.range(1, 400) : r.range(1, 25));
  int const nv = static_cast<int>(large ? r.range(7, 20) : r.range(1, 6));
  // a pool of multivectors and of plain reference arrays; a random program of
  // operations runs on both
  struct Slot
  {
    Teuchos::RCP<MV> mv;
    std::vector<int> id; // indices into `store`
  };
  std::vector<Vec> store;
  auto fresh = [&](Vec const &x) {
    store.push_back(x);
    return static_cast<int>(store.size() - 1);
  };
  std::deque<Slot> pool;
  for (int s = 0; s < 3; ++s)
  {
    std::vector<std::shared_ptr<DVec>> vecs;
    Slot sl;
    for (int j = 0; j < nv; ++j)
    {
      auto x = std::make_shared<DVec>(n);
      Vec y(n);
      for (size_t i = 0; i < n; ++i)
        y[i] = (*x)(i) = r.sym();
      vecs.push_back(x);
      sl.id.push_back(fresh(y));
    }
    sl.mv = Teuchos::rcp(new MV(vecs));
    pool.push_back(sl);
  }
  std::string prog;
  auto compare = [&](std::string const &opname) {
    for (size_t s = 0; s < pool.size(); ++s)
    {
      auto const &sl = pool[s];
      if (!c.check(MVT::GetNumberVecs(*sl.mv) ==
                           static_cast<int>(sl.id.size()) &&
                       MVT::GetGlobalLength(*sl.mv) ==
                           static_cast<ptrdiff_t>(n),
                   "shape", opname + ": wrong shape"))
        throw Abandon();
      for (size_t j = 0; j < sl.id.size(); ++j)
      {
        double m = 0, sc = 1;
        for (size_t i = 0; i < n; ++i)
        {
          double const d = std::abs((*(*sl.mv)[j])(i) - store[sl.id[j]][i]);
          m = d <= m ? m : d;
          sc = std::max(sc, std::abs(store[sl.id[j]][i]));
        }
        if (!c.below(m / sc, 1e-11, opname,
                     str("multivector ", s, " column ", j, " after ", prog)))
          throw Abandon();
      }
    }
  };
  int const steps = static_cast<int>(r.range(6, 20));
  for (int st = 0; st < steps; ++st)
  {
    size_t const a = static_cast<size_t>(r.range(0, pool.size() - 1));
    size_t const b = static_cast<size_t>(r.range(0, pool.size() - 1));
    size_t const d = static_cast<size_t>(r.range(0, pool.size() - 1));
    Slot &A = pool[a], &B = pool[b], &D = pool[d];
    int const na = static_cast<int>(A.id.size());
    int const op = static_cast<int>(r.range(0, 15));
    double const alpha = r.pick<double>({0., 1., -1., 0.7, -2.5});
    double const beta = r.pick<double>({0., 1., -1., 0.3, 1.5});
    auto distinct_ids = [](Slot const &x) {
      std::set<int> s(x.id.begin(), x.id.end());
      return s.size() == x.id.size();
    };
    auto overlap = [](Slot const &x, Slot const &y) {
      for (auto i : x.id)
        for (auto j : y.id)
          if (i == j)
            return true;
      return false;
    };
    auto column_aligned = [&](Slot const &x, Slot const &y) {
      // shares columns only at the same position
      for (size_t i = 0; i < x.id.size(); ++i)
        for (size_t j = 0; j < y.id.size(); ++j)
          if (x.id[i] == y.id[j] && i != j)
            return false;
      return true;
    };
    std::string name;
    switch (op)
    {
    case 0:
    {
      name = "Clone";
      int const m = static_cast<int>(r.range(1, 6));
      Slot s;
      s.mv = MVT::Clone(*A.mv, m);
      c.check(s.mv->n_vectors() == m && s.mv->size() == static_cast<int>(n),
              "Clone", "wrong shape");
      for (int j = 0; j < m; ++j)
        s.id.push_back(fresh(Vec(n, 0.)));
      MVT::MvInit(*s.mv, 0.);
      if (pool.size() < 7)
        pool.push_back(s);
      break;
    }
    case 1:
    {
      name = "CloneCopy";
      Slot s;
      s.mv = MVT::CloneCopy(*A.mv);
      for (auto i : A.id)
        s.id.push_back(fresh(store[i]));
      if (pool.size() < 7)
        pool.push_back(s);
      break;
    }
    case 2:
    case 3:
    {
      bool const range = r.chance(0.5);
      std::vector<int> idx;
      int lo = static_cast<int>(r.range(0, na - 1));
      int hi = static_cast<int>(r.range(lo, na - 1));
      if (range)
        for (int i = lo; i <= hi; ++i)
          idx.push_back(i);
      else
      {
        for (int i = 0; i < na; ++i)
          idx.push_back(i);
        r.shuffle(idx);
        idx.resize(static_cast<size_t>(r.range(1, na)));
      }
      Slot s;
      name = op == 2 ? "CloneCopyIndex" : "CloneViewNonConst";
      if (op == 2)
      {
        s.mv = range ? MVT::CloneCopy(*A.mv, Teuchos::Range1D(lo, hi))
                     : MVT::CloneCopy(*A.mv, idx);
        for (auto i : idx)
          s.id.push_back(fresh(store[A.id[i]]));
      }
      else
      {
        s.mv = range ? MVT::CloneViewNonConst(*A.mv, Teuchos::Range1D(lo, hi))
                     : MVT::CloneViewNonConst(*A.mv, idx);
        for (auto i : idx)
          s.id.push_back(A.id[i]); // shares the columns
      }
      if (pool.size() < 7)
        pool.push_back(s);
      break;
    }
    case 4:
    {
      name = "CloneView";
      bool const range = r.chance(0.5);
      int lo = static_cast<int>(r.range(0, na - 1));
      int hi = static_cast<int>(r.range(lo, na - 1));
      std::vector<int> idx;
      for (int i = lo; i <= hi; ++i)
        idx.push_back(i);
      Teuchos::RCP<const MV> w =
          range ? MVT::CloneView(*A.mv, Teuchos::Range1D(lo, hi))
                : MVT::CloneView(static_cast<MV const &>(*A.mv), idx);
      c.check(w->n_vectors() == hi - lo + 1, name, "wrong shape");
      for (int i = lo; i <= hi; ++i)
        c.check((*w)[i - lo].get() == (*A.mv)[i].get(), name,
                "a view does not share its columns");
      break;
    }
    case 5:
    {
      name = "MvTimesMatAddMv";
      int const nd = static_cast<int>(D.id.size());
      if (overlap(A, D) || !distinct_ids(D))
        continue;
      Teuchos::SerialDenseMatrix<int, double> M(na, nd);
      for (int i = 0; i < na; ++i)
        for (int j = 0; j < nd; ++j)
          M(i, j) = r.sym();
      for (int j = 0; j < nd; ++j)
      {
        Vec y(n, 0.);
        for (size_t q = 0; q < n; ++q)
        {
          double s = beta * store[D.id[j]][q];
          for (int i = 0; i < na; ++i)
            s += alpha * M(i, j) * store[A.id[i]][q];
          y[q] = s;
        }
        store[D.id[j]] = y;
      }
      MVT::MvTimesMatAddMv(alpha, *A.mv, M, beta, *D.mv);
      break;
    }
    case 6:
    case 7:
    {
      name = d == a ? (d == b ? "MvAddMv-alias-both" : "MvAddMv-alias-A")
                    : (d == b ? "MvAddMv-alias-B" : "MvAddMv");
      if (B.id.size() != A.id.size() || D.id.size() != A.id.size() ||
          !distinct_ids(D) || !column_aligned(D, A) || !column_aligned(D, B))
        continue;
      std::vector<Vec> res;
      for (int j = 0; j < na; ++j)
      {
        Vec y(n);
        for (size_t q = 0; q < n; ++q)
          y[q] = alpha * store[A.id[j]][q] + beta * store[B.id[j]][q];
        res.push_back(y);
      }
      for (int j = 0; j < na; ++j)
        store[D.id[j]] = res[j];
      MVT::MvAddMv(alpha, *A.mv, beta, *B.mv, *D.mv);
      break;
    }
    case 8:
      name = "MvScale";
      if (!distinct_ids(A))
        continue;
      MVT::MvScale(*A.mv, alpha);
      for (auto i : A.id)
        for (auto &x : store[i])
          x *= alpha;
      break;
    case 9:
    {
      name = "MvScaleVector";
      if (!distinct_ids(A))
        continue;
      std::vector<double> f;
      for (int j = 0; j < na; ++j)
        f.push_back(r.sym());
      MVT::MvScale(*A.mv, f);
      for (int j = 0; j < na; ++j)
        for (auto &x : store[A.id[j]])
          x *= f[j];
      break;
    }
    case 10:
    {
      name = "MvTransMv";
      int const nb = static_cast<int>(B.id.size());
      Teuchos::SerialDenseMatrix<int, double> C(na, nb);
      MVT::MvTransMv(alpha, *A.mv, *B.mv, C);
      for (int i = 0; i < na; ++i)
        for (int j = 0; j < nb; ++j)
        {
          double const w = alpha * dot(store[A.id[i]], store[B.id[j]]);
          c.close(C(i, j), w,
                  1e-11 * (1. + std::abs(alpha) * norm(store[A.id[i]]) *
                                    norm(store[B.id[j]])),
                  name, prog);
        }
      break;
    }
    case 11:
    {
      name = "MvDot";
      if (B.id.size() != A.id.size())
        continue;
      std::vector<double> f;
      MVT::MvDot(*A.mv, *B.mv, f);
      c.check(static_cast<int>(f.size()) == na, name, "wrong size");
      for (int j = 0; j < na && j < static_cast<int>(f.size()); ++j)
        c.close(f[j], dot(store[A.id[j]], store[B.id[j]]),
                1e-11 * (1. + norm(store[A.id[j]]) * norm(store[B.id[j]])),
                name, prog);
      break;
    }
    case 12:
    {
      name = "MvNorm";
      std::vector<double> f;
      MVT::MvNorm(*A.mv, f);
      c.check(static_cast<int>(f.size()) == na, name, "wrong size");
      for (int j = 0; j < na && j < static_cast<int>(f.size()); ++j)
        c.close(f[j], norm(store[A.id[j]]), 1e-11 * (1. + f[j]), name, prog);
      break;
    }
    case 13:
    {
      name = "SetBlock";
      int const nd = static_cast<int>(D.id.size());
      if (overlap(A, D) || !distinct_ids(D) || nd < na)
        continue;
      if (r.chance(0.5))
      {
        std::vector<int> idx;
        for (int i = 0; i < nd; ++i)
          idx.push_back(i);
        r.shuffle(idx);
        idx.resize(na);
        MVT::SetBlock(*A.mv, idx, *D.mv);
        for (int j = 0; j < na; ++j)
          store[D.id[idx[j]]] = store[A.id[j]];
      }
      else
      {
        int const lo = static_cast<int>(r.range(0, nd - na));
        MVT::SetBlock(*A.mv, Teuchos::Range1D(lo, lo + na - 1), *D.mv);
        for (int j = 0; j < na; ++j)
          store[D.id[lo + j]] = store[A.id[j]];
      }
      break;
    }
    case 14:
      name = "MvInit";
      MVT::MvInit(*A.mv, alpha);
      for (auto i : A.id)
        store[i].assign(n, alpha);
      break;
    case 15:
    {
      name = "MvRandom";
      if (!distinct_ids(A))
        continue;
      MVT::MvRandom(*A.mv);
      std::set<double> seen;
      bool ok = true;
      for (int j = 0; j < na; ++j)
        for (size_t i = 0; i < n; ++i)
        {
          double const x = (*(*A.mv)[j])(i);
          ok = ok && std::isfinite(x);
          seen.insert(x);
          store[A.id[j]][i] = x;
        }
      c.check(ok && seen.size() == n * na, name,
              "MvRandom does not give independent values");
      break;
    }
    }
    prog += name + " ";
    c.obs("mv_operations");
    c.state(str(name, " ", n, "x", na, "/", D.id.size()));
    compare(name);
  }
  c.label = str("n=", n, " program: ", prog).substr(0, 280);

  // OperatorTraits
  {
    auto const sp = full_pattern(n);
    dealii::SparseMatrix<double> M(sp);
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j)
        M.set(i, j, r.sym());
    auto y = MVT::Clone(*pool[0].mv, nv);
    OPT::Apply(M, *pool[0].mv, *y);
    for (int j = 0; j < nv; ++j)
      for (size_t i = 0; i < n; ++i)
      {
        double s = 0;
        for (size_t q = 0; q < n; ++q)
          s += M(i, q) * store[pool[0].id[j]][q];
        c.close((*(*y)[j])(i), s, 1e-11 * (1. + norm(store[pool[0].id[j]]) * n),
                "Apply", "operator");
      }
  }
}

void case_plist(Ctx &c)
{
  Rng &r = c.rng;
  std::string const alphabet =
      "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 :_-()/*+=,;.<>&\"'|#@[]";
  auto word = [&](int lo, int hi, bool special) {
    int const len = static_cast<int>(r.range(lo, hi));
    std::string s;
    for (int i = 0; i < len; ++i)
      s += special ? alphabet[static_cast<size_t>(
                         r.range(0, alphabet.size() - 1))]
                   : alphabet[static_cast<size_t>(r.range(0, 31))];
    // leading and trailing blanks are not significant in XML attributes of
    // every reader: keep them inside
    if (!s.empty() && s.front() == ' ')
      s.front() = 'x';
    if (!s.empty() && s.back() == ' ')
      s.back() = 'y';
    return s;
  };
  int nodes = 0;
  std::set<std::string> kinds;
  std::function<void(ptree &, int)> grow = [&](ptree &t, int depth) {
    int const k = static_cast<int>(r.range(1, 6));
    std::set<std::string> used;
    for (int i = 0; i < k; ++i)
    {
      std::string name;
      do
        name = word(1, 12, r.chance(0.4));
      while (!used.insert(name).second);
      ++nodes;
      ptree child;
      int const kind = static_cast<int>(r.range(0, depth < 3 ? 6 : 5));
      switch (kind)
      {
      case 0:
        child.data() = str(r.range(-100000, 100000));
        break;
      case 1:
      {
        char b[64];
        std::snprintf(b, sizeof b, r.chance(0.5) ? "%.17g" : "%.6e",
                      r.sym() * std::pow(10., r.range(-30, 30)));
        child.data() = b;
        break;
      }
      case 2:
        child.data() = r.chance(0.5) ? "true" : "false";
        break;
      case 3:
        child.data() = word(0, 14, true);
        break;
      case 4:
        child.data() = r.pick<std::string>(
            {"symmetric Gauss-Seidel", "Amesos-KLU", "3000000000", "1.",
             "1e-14", "yes", "True", "a<b", "a&b", "say \"hi\"", "it's", "",
             "1 2", "0x10", "0", "1", "-7", "&amp;"});
        break;
      case 5:
        child.data() = word(1, 10, false);
        break;
      default:
        grow(child, depth + 1);
      }
      kinds.insert(str(kind));
      t.push_back({name, child});
    }
  };
  ptree t;
  bool const empty = r.chance(0.03);
  if (!empty)
    grow(t, 0);
  ptree const t0 = t;
  Teuchos::ParameterList pl;
  pl.set("left over", 3);
  if (!empty && r.chance(0.5))
    pl = Teuchos::ParameterList("named");
  mfmg::ptree2plist(t, pl);
  c.check(t == t0, "input-modified", "ptree2plist changed its argument");
  std::string worst;
  std::function<void(ptree const &, Teuchos::ParameterList const &,
                     std::string)>
      cmp = [&](ptree const &a, Teuchos::ParameterList const &b,
                std::string path) {
        c.check(static_cast<size_t>(b.numParams()) == a.size(), "size",
                str(path, ": ", b.numParams(), " parameters, ", a.size(),
                    " expected"));
        for (auto const &item : a)
        {
          std::string const &name = item.first;
          std::string const where = path + "/" + name;
          c.obs("parameters");
          if (!c.check(b.isParameter(name), "missing", where))
            continue;
          if (!item.second.empty())
          {
            if (c.check(b.isSublist(name), "not-a-sublist", where))
              cmp(item.second, b.sublist(name), where);
            continue;
          }
          std::string const &text = item.second.data();
          if (auto i = item.second.template get_value_optional<int>())
          {
            if (c.check(b.isType<int>(name), "type",
                        where + " = " + text + " is not an int"))
              c.check(b.get<int>(name) == *i, "value", where + " = " + text);
            c.obs("int");
          }
          else if (auto d = item.second.template get_value_optional<double>())
          {
            if (c.check(b.isType<double>(name), "type",
                        where + " = " + text + " is not a double"))
              c.check(b.get<double>(name) == *d, "value",
                      str(where, " = ", text, " became ",
                          b.get<double>(name)));
            c.obs("double");
          }
          else if (auto f = item.second.template get_value_optional<bool>())
          {
            if (c.check(b.isType<bool>(name), "type",
                        where + " = " + text + " is not a bool"))
              c.check(b.get<bool>(name) == *f, "value", where + " = " + text);
            c.obs("bool");
          }
          else
          {
            if (c.check(b.isType<std::string>(name), "type",
                        where + " = " + text + " is not a string"))
              c.check(b.get<std::string>(name) == text, "value",
                      where + " = " + text + " became " +
                          b.get<std::string>(name));
            c.obs("string");
          }
        }
      };
  cmp(t, pl, "");
  if (empty)
    c.obs("empty_trees");
  c.label = str("tree with ", nodes, " nodes");
  std::string ks;
  for (auto const &k : kinds)
    ks += k;
  c.state(str(nodes, " ", ks, " ", t.size()));
}

template <typename T, typename Gen>
void permutation_case(Ctx &c, Gen const &gen, std::string const &type)
{
  Rng &r = c.rng;
  size_t const n = r.chance(0.05) ? 0 : static_cast<size_t>(r.range(1, 300));
  int const spread = static_cast<int>(r.pick<int>({1, 2, 5, 50, 100000}));
  std::vector<T> a, b, payload;
  for (size_t i = 0; i < n; ++i)
  {
    a.push_back(gen(r.range(-spread, spread)));
    b.push_back(gen(r.range(-spread, spread)));
    payload.push_back(gen(static_cast<long>(i) * 3 - 11));
  }
  auto const a0 = a, b0 = b;
  auto const p = mfmg::sort_permutation(a, b);
  c.check(a == a0 && b == b0, "input-modified", type);
  if (!c.check(p.size() == n, "size", type))
    return;
  std::vector<char> seen(n, 0);
  bool ok = true;
  for (auto x : p)
  {
    ok = ok && x < n && !seen[x];
    if (x < n)
      seen[x] = 1;
  }
  if (!c.check(ok, "not-a-permutation", type))
    return;
  bool sorted = true;
  for (size_t i = 1; i < n; ++i)
    sorted = sorted && !(std::tie(a[p[i]], b[p[i]]) <
                         std::tie(a[p[i - 1]], b[p[i - 1]]));
  c.check(sorted, "not-sorted", str(type, " n=", n, " spread=", spread));
  // any permutation, not only sorting ones
  std::vector<unsigned> q = p;
  std::string kind = "sorting";
  if (r.chance(0.6))
  {
    kind = "random";
    for (size_t i = 0; i < n; ++i)
      q[i] = static_cast<unsigned>(i);
    r.shuffle(q);
    if (r.chance(0.2))
    {
      kind = "rotation";
      for (size_t i = 0; i < n; ++i)
        q[i] = static_cast<unsigned>((i + 1) % n);
    }
    else if (r.chance(0.2))
    {
      kind = "identity";
      for (size_t i = 0; i < n; ++i)
        q[i] = static_cast<unsigned>(i);
    }
  }
  auto moved = payload;
  auto const q0 = q;
  mfmg::apply_permutation_in_place(q, moved);
  c.check(q == q0, "permutation-modified", type);
  bool good = moved.size() == n;
  for (size_t i = 0; good && i < n; ++i)
    good = moved[i] == payload[q[i]];
  c.check(good, "apply", str(type, " ", kind, " n=", n));
  c.obs("permuted_elements", n);
  c.obs(kind);
  c.label = str(type, " n=", n, " spread=", spread, " ", kind);
  c.state(c.label);
}

void case_permutation(Ctx &c)
{
  switch (c.rng.range(0, 3))
  {
  case 0:
    permutation_case<int>(
        c, [](long v) { return static_cast<int>(v); }, "int");
    break;
  case 1:
    permutation_case<double>(
        c, [](long v) { return static_cast<double>(v) * 0.37; }, "double");
    break;
  case 2:
  {
    // values whose differences are far below, or far above, one
    double const scale = c.rng.pick<double>({1e-300, 1e-30, 1e-12, 1e9, 1e200});
    double const offset =
        scale < 1e-14 ? 0. : c.rng.pick<double>({0., 1., -1.}) *
                                 (scale > 1. ? scale : 1.);
    permutation_case<double>(
        c,
        [=](long v) { return offset + static_cast<double>(v) * scale; },
        str("double, spacing ", scale, " around ", offset));
    break;
  }
  default:
#ifdef VF_MINIMAL
    permutation_case<long>(c, [](long v) { return v; }, "long");
#else
    permutation_case<std::string>(
        c, [](long v) { return "s" + std::to_string(v); }, "string");
#endif
  }
}
} // namespace

static Register r18("C18", case_lanczos);
static Register r19("C19", case_deflation);
static Register r20("C20", [](Ctx &c) {
  if (c.idx % 3 == 0)
    case_anasazi(c);
  else
    case_multivector(c);
});
static Register r21("C21", case_plist);
static Register r22("C22", case_permutation);

int main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  return vf::run(argc, argv);
}
