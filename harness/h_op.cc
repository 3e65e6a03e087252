// Operators, smoothers, coarse solvers and mesh evaluators on distributed data.
#include "linalg.hpp"
#include "problem.hpp"
#include "vf.hpp"

#include <mfmg/common/exceptions.hpp>
#include <mfmg/common/utils.hpp>
#include <mfmg/dealii/dealii_matrix_free_operator.hpp>
#include <mfmg/dealii/dealii_matrix_free_smoother.hpp>
#include <mfmg/dealii/dealii_matrix_operator.hpp>
#include <mfmg/dealii/dealii_smoother.hpp>
#include <mfmg/dealii/dealii_solver.hpp>
#include <mfmg/dealii/dealii_trilinos_matrix_operator.hpp>
#include <mfmg/dealii/dealii_utils.hpp>

#include <deal.II/base/mpi.h>
#include <deal.II/lac/dynamic_sparsity_pattern.h>
#include <deal.II/lac/precondition.h>
#include <deal.II/lac/trilinos_precondition.h>
#include <deal.II/lac/trilinos_solver.h>

#include <Teuchos_ParameterList.hpp>
#include <ml_MultiLevelPreconditioner.h>

using namespace vf;
using boost::property_tree::ptree;
using TMat = dealii::TrilinosWrappers::SparseMatrix;
using TOp = mfmg::DealIITrilinosMatrixOperator<DVector>;
using Op = mfmg::Operator<DVector>;
using mfmg::OperatorMode;

namespace
{
using Vec = std::vector<double>; // not the one of PETSc

dealii::IndexSet random_partition(Ctx &c, size_t n, bool allow_empty = true)
{
  Rng &r = c.rng;
  std::vector<size_t> cut{0};
  for (int i = 1; i < c.size; ++i)
    cut.push_back(static_cast<size_t>(r.range(0, n)));
  cut.push_back(n);
  std::sort(cut.begin(), cut.end());
  if (!allow_empty || r.chance(0.5))
    for (int i = 0; i <= c.size; ++i)
      cut[i] = n * i / c.size;
  dealii::IndexSet s(n);
  if (cut[c.rank + 1] > cut[c.rank])
    s.add_range(cut[c.rank], cut[c.rank + 1]);
  s.compress();
  return s;
}

// the matrix is the same on every rank
GMat random_gmat(Rng &r, size_t m, size_t n, double density)
{
  GMat g(m, n);
  for (size_t i = 0; i < m; ++i)
    for (size_t j = 0; j < n; ++j)
      if (r.chance(density))
        g.add(i, j, r.sym());
  if (twin())
    for (auto &row : g.r)
      for (auto &e : row)
        e.second *= e.first % 2 ? -0.6 : 1.7;
  return g;
}

std::shared_ptr<TMat> distribute(GMat const &g, dealii::IndexSet const &rows,
                                 dealii::IndexSet const &cols, MPI_Comm comm)
{
  dealii::DynamicSparsityPattern dsp(g.m, g.n, rows);
  for (auto i : rows)
    for (auto const &e : g.r[i])
      dsp.add(i, e.first);
  auto a = std::make_shared<TMat>();
  a->reinit(rows, cols, dsp, comm, true);
  for (auto i : rows)
    for (auto const &e : g.r[i])
      a->set(i, e.first, e.second);
  a->compress(dealii::VectorOperation::insert);
  return a;
}

bool same_set(dealii::IndexSet a, dealii::IndexSet b)
{
  a.compress();
  b.compress();
  return a.size() == b.size() && a.n_elements() == b.n_elements() &&
         (a.n_elements() == 0 || a == b);
}

// what an output vector may contain before it is written
void fill_garbage(Ctx &c, DVector &x)
{
  double const bad = c.rng.pick<double>(
      {0., 0., 0., 0., 0., 1e300, std::numeric_limits<double>::infinity(),
       std::numeric_limits<double>::quiet_NaN()});
  if (bad != 0.)
  {
    for (auto i : x.locally_owned_elements())
      x(i) = bad;
    c.obs("non_finite_outputs");
    return;
  }
  for (auto i : x.locally_owned_elements())
    x(i) = 1e3 * c.local_rng.sym();
}

std::shared_ptr<TMat> matrix_of(std::shared_ptr<Op const> op)
{
  auto t = std::dynamic_pointer_cast<TOp const>(op);
  if (!t)
    return nullptr;
  return std::const_pointer_cast<TMat>(t->get_matrix());
}

// everything the operator interface promises, against the dense reference
void check_operator(Ctx &c, Op const &op, GMat const &ref,
                    dealii::IndexSet const &range,
                    dealii::IndexSet const &domain, std::string const &what)
{
  Rng &r = c.rng;
  auto x = op.build_domain_vector();
  auto y = op.build_range_vector();
  c.check(x->size() == ref.n && same_set(x->locally_owned_elements(), domain),
          "domain-vector", what + ": layout of the domain vector");
  c.check(y->size() == ref.m && same_set(y->locally_owned_elements(), range),
          "range-vector", what + ": layout of the range vector");
  c.check(gather(*x, c.comm) == Vec(ref.n, 0.) &&
              gather(*y, c.comm) == Vec(ref.m, 0.),
          "vector-not-zero", what + ": a new vector is not zero");
  double const s =
      1e-13 * (1. + ref.max_abs()) * static_cast<double>(ref.m + ref.n + 4);
  {
    Vec const gx = r.chance(0.05) ? Vec(ref.n, 0.) : random_vec(r, ref.n);
    scatter(gx, *x);
    fill_garbage(c, *y);
    op.apply(*x, *y);
    c.below(dist_inf(gather(*y, c.comm), ref.mul(gx)), s, "apply",
            what + ": A x");
    c.check(dist_inf(gather(*x, c.comm), gx) == 0., "source-modified",
            what + ": apply changed its input");
  }
  {
    Vec const gy = r.chance(0.05) ? Vec(ref.m, 0.) : random_vec(r, ref.m);
    scatter(gy, *y);
    fill_garbage(c, *x);
    op.apply(*y, *x, OperatorMode::TRANS);
    c.below(dist_inf(gather(*x, c.comm), ref.tmul(gy)), s, "apply-transpose",
            what + ": A^T y");
    c.check(dist_inf(gather(*y, c.comm), gy) == 0., "source-modified",
            what + ": transposed apply changed its input");
  }
  c.check(op.grid_complexity() == ref.m, "grid-complexity",
          str(what, ": ", op.grid_complexity(), " instead of ", ref.m));
}

void case_operator_algebra(Ctx &c)
{
  Rng &r = c.rng;
  struct Node
  {
    std::shared_ptr<Op const> op;
    GMat ref;
    int row, col; // spaces
  };
  int const n_spaces = static_cast<int>(r.range(1, 4));
  bool const large = r.chance(0.03);
  std::vector<size_t> dim;
  std::vector<dealii::IndexSet> part;
  for (int i = 0; i < n_spaces; ++i)
  {
    dim.push_back(static_cast<size_t>(
        large ? r.range(40, 250) : r.range(1, c.thorough ? 60 : 30)));
    part.push_back(random_partition(c, dim.back()));
  }
  std::vector<Node> pool;
  int const n0 = static_cast<int>(r.range(2, 4));
  std::string prog;
  for (int i = 0; i < n0; ++i)
  {
    Node nd;
    nd.row = static_cast<int>(r.range(0, n_spaces - 1));
    nd.col = static_cast<int>(r.range(0, n_spaces - 1));
    nd.ref = random_gmat(r, dim[nd.row], dim[nd.col],
                         large ? 0.05
                               : r.pick<double>({0.05, 0.2, 0.5, 1.}));
    auto m = distribute(nd.ref, part[nd.row], part[nd.col], c.comm);
    auto op = std::make_shared<TOp>(m);
    c.check(op->get_matrix() == m, "get-matrix", "another matrix");
    nd.op = op;
    c.check(op->operator_complexity() == nd.ref.nnz(), "operator-complexity",
            str(op->operator_complexity(), " instead of ", nd.ref.nnz()));
    pool.push_back(nd);
    prog += str(" ", dim[nd.row], "x", dim[nd.col], "(", nd.ref.nnz(), ")");
  }
  c.label = "matrices" + prog;
  int const steps = static_cast<int>(r.range(2, 6));
  for (int s = 0; s < steps; ++s)
  {
    size_t const i = static_cast<size_t>(r.range(0, pool.size() - 1));
    int const kind = static_cast<int>(r.range(0, 2));
    Node nd;
    std::string what;
    Node const A = pool[i];
    if (kind == 0)
    {
      nd.op = A.op->transpose();
      nd.ref = A.ref.transpose();
      nd.row = A.col;
      nd.col = A.row;
      what = str("T", i);
    }
    else
    {
      std::vector<size_t> fit;
      for (size_t j = 0; j < pool.size(); ++j)
        if ((kind == 1 ? pool[j].row : pool[j].col) == A.col)
          fit.push_back(j);
      if (fit.empty())
        continue;
      size_t const j = r.pick(fit);
      Node const B = pool[j];
      if (kind == 1)
      {
        nd.op = A.op->multiply(B.op);
        nd.ref = A.ref.mul(B.ref);
        nd.row = A.row;
        nd.col = B.col;
        what = str(i, "*", j);
      }
      else
      {
        nd.op = A.op->multiply_transpose(B.op);
        nd.ref = A.ref.mul(B.ref.transpose());
        nd.row = A.row;
        nd.col = B.row;
        what = str(i, "*T", j);
      }
    }
    c.label += " " + what;
    c.obs(kind == 0 ? "transpose" : kind == 1 ? "multiply"
                                              : "multiply_transpose");
    auto m = matrix_of(nd.op);
    if (!c.check(m != nullptr, "result-type", what + " is not a matrix"))
      continue;
    double const scale = 1. + nd.ref.max_abs();
    c.below(diff_max(gather(*m, c.comm), nd.ref), 1e-12 * scale, "entries",
            "entries of " + c.label);
    check_operator(c, *nd.op, nd.ref, part[nd.row], part[nd.col], c.label);
    pool.push_back(nd);
  }
  // the operands did not change
  for (auto const &nd : pool)
  {
    c.below(diff_max(gather(*matrix_of(nd.op), c.comm), nd.ref),
            1e-12 * (1. + nd.ref.max_abs()), "operand-modified", c.label);
    check_operator(c, *nd.op, nd.ref, part[nd.row], part[nd.col], c.label);
  }
  c.state(c.label);
}

// the class of the library is abstract
struct SerialOp : public mfmg::DealIIMatrixOperator<dealii::Vector<double>>
{
  using Base = mfmg::DealIIMatrixOperator<dealii::Vector<double>>;
  using AnyOp = ::mfmg::Operator<dealii::Vector<double>>;
  using Base::Base;
  std::shared_ptr<AnyOp> transpose() const override { return nullptr; }
  std::shared_ptr<AnyOp> multiply(std::shared_ptr<AnyOp const>) const override
  {
    return nullptr;
  }
};

void case_serial_operator(Ctx &c)
{
  Rng &r = c.rng;
  using SVec = dealii::Vector<double>;
  using SMat = dealii::SparseMatrix<double>;
  size_t const m = static_cast<size_t>(r.range(1, 30));
  size_t const n = static_cast<size_t>(r.range(1, 30));
  GMat const g = random_gmat(r, m, n, r.pick<double>({0.1, 0.5, 1.}));
  dealii::DynamicSparsityPattern dsp(m, n);
  for (size_t i = 0; i < m; ++i)
    for (auto const &e : g.r[i])
      dsp.add(i, e.first);
  auto sp = std::make_shared<dealii::SparsityPattern>();
  sp->copy_from(dsp);
  auto a = std::make_shared<SMat>(*sp);
  for (size_t i = 0; i < m; ++i)
    for (auto const &e : g.r[i])
      a->set(i, e.first, e.second);
  SerialOp op(sp, a);
  c.label = str("serial ", m, "x", n, " nnz=", g.nnz());
  auto x = op.build_domain_vector();
  auto y = op.build_range_vector();
  if (!c.check(x->size() == n && y->size() == m, "serial-vectors", c.label))
    return;
  Vec const gx = random_vec(r, n), gy = random_vec(r, m);
  for (size_t i = 0; i < n; ++i)
    (*x)(i) = gx[i];
  for (size_t i = 0; i < m; ++i)
    (*y)(i) = 1e3 * r.sym();
  op.apply(*x, *y);
  Vec got(y->begin(), y->end());
  c.below(dist_inf(got, g.mul(gx)), 1e-12, "serial-apply", c.label);
  for (size_t i = 0; i < m; ++i)
    (*y)(i) = gy[i];
  for (size_t i = 0; i < n; ++i)
    (*x)(i) = 1e3 * r.sym();
  op.apply(*y, *x, OperatorMode::TRANS);
  Vec got2(x->begin(), x->end());
  c.below(dist_inf(got2, g.tmul(gy)), 1e-12, "serial-apply-transpose",
          c.label);
  c.check(op.grid_complexity() == m, "serial-grid-complexity", c.label);
  c.check(op.operator_complexity() == a->n_nonzero_elements(),
          "serial-operator-complexity", c.label);
  c.obs("serial");
  c.state(c.label);
}

// ---------------------------------------------------------------- C09
template <int dim>
void case_matrix_free(Ctx &c)
{
  Rng &r = c.rng;
  SpecLimits lim;
  lim.max_cells = r.chance(0.03) ? 300 : c.thorough ? 100 : 40;
  lim.max_degree = r.chance(0.05) ? 4 : 2;
  lim.boxes_only = false;
  Spec spec = random_spec<dim>(r, lim);
  spec.scale = r.pick<double>({1., 1., 1e-3, 1e3, 1e-8, 1e-15});
  c.label = spec.describe(dim);
  Problem<dim> p(spec, c.comm);
  auto eval = std::make_shared<MFEval<dim>>(p);
  using MFOp = mfmg::DealIIMatrixFreeOperator<dim, DVector>;
  auto op = std::make_shared<MFOp>(eval);
  GMat const A = gather(*eval->global, c.comm);
  size_t const n = A.m;
  auto const &own = p.dofs.locally_owned_dofs();
  c.check(op->m() == n, "m", str(op->m(), " instead of ", n));
  auto x = op->build_domain_vector();
  auto y = op->build_range_vector();
  c.check(x->size() == n && same_set(x->locally_owned_elements(), own) &&
              y->size() == n && same_set(y->locally_owned_elements(), own),
          "vectors", c.label);
  Vec const gx = r.chance(0.05) ? Vec(n, 0.) : random_vec(r, n);
  scatter(gx, *x);
  fill_garbage(c, *y);
  double const s = 1e-12 * A.max_abs() * 10;
  op->apply(*x, *y);
  c.below(dist_inf(gather(*y, c.comm), A.mul(gx)), s, "apply", c.label);
  fill_garbage(c, *y);
  op->vmult(*y, *x);
  c.below(dist_inf(gather(*y, c.comm), A.mul(gx)), s, "vmult", c.label);
  c.check(dist_inf(gather(*x, c.comm), gx) == 0., "source-modified", c.label);
  auto dinv = op->get_diagonal_inverse();
  DVector one(*x);
  one = 1.;
  DVector d(*x);
  dinv->vmult(d, one);
  Vec const gd = gather(d, c.comm);
  for (size_t i = 0; i < n; ++i)
    c.check(std::abs(gd[i] * A.el(i, i) - 1.) < 1e-12, "diagonal-inverse",
            c.label);
  // A B^T for a random restriction like operator
  size_t const k = static_cast<size_t>(r.range(1, 8));
  auto const krows = random_partition(c, k);
  GMat B = random_gmat(r, k, n, r.pick<double>({0.05, 0.3, 1.}));
  if (r.chance(0.4))
    for (auto &row : B.r)
      for (auto &e : row)
        e.second *= std::pow(10., -static_cast<double>(r.range(0, 13)));
  auto bm = distribute(B, krows, own, c.comm);
  auto bop = std::make_shared<TOp>(bm);
  auto prod = op->multiply_transpose(bop);
  GMat const want = A.mul(B.transpose());
  auto pm = matrix_of(prod);
  if (c.check(pm != nullptr, "result-type", c.label))
  {
    c.below(diff_max(gather(*pm, c.comm), want),
            1e-12 * A.max_abs() * (1. + B.max_abs()) * 10 + 1e-300,
            "multiply-transpose", "A B^T; " + c.label);
    // small entries, too: what is roundoff follows from the terms of each one
    GMat const have = gather(*pm, c.comm);
    auto magnitude = [](GMat g) {
      for (auto &row : g.r)
        for (auto &e : row)
          e.second = std::abs(e.second);
      return g;
    };
    GMat const terms = magnitude(A).mul(magnitude(B).transpose());
    Vec column(k, 0.);
    for (auto const &row : want.r)
      for (auto const &e : row)
        column[e.first] = std::max(column[e.first], std::abs(e.second));
    double worst = 0.;
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < k; ++j)
      {
        double const d = std::abs(have.el(i, j) - want.el(i, j));
        double const t = 1e-13 * terms.el(i, j) + 3e-14 * column[j];
        if (d > 0.)
          worst = std::max(worst, t > 0. ? d / t : 1e300);
      }
    c.below(worst, 1., "multiply-transpose-entry", "A B^T; " + c.label);
    check_operator(c, *prod, gather(*pm, c.comm), own, krows, "A B^T");
    c.obs("multiply_transpose");
  }
  c.below(diff_max(gather(*bm, c.comm), B), 0., "operand-modified", c.label);
  // rows of a distributed matrix
  for (size_t i = 0; i < k; ++i)
  {
    DVector const row = mfmg::extract_row(*bm, i);
    Vec const g = gather(row, c.comm);
    Vec w(n, 0.);
    for (auto const &e : B.r[i])
      w[e.first] = e.second;
    c.check(row.size() == n && same_set(row.locally_owned_elements(), own),
            "extract-row-layout", c.label);
    c.check(dist_inf(g, w) == 0., "extract-row",
            str("row ", i, " of a ", k, "x", n, " matrix; ", c.label));
    c.obs("rows");
  }
  // the unsupported operations are refused, not answered
  auto refused = [&](char const *what, std::function<void()> f) {
    bool t = false;
    try
    {
      f();
    }
    catch (std::exception const &)
    {
      t = true;
    }
    c.check(t, std::string("not-refused-") + what,
            str(what, " of the matrix-free operator returned"));
    c.obs("refusals", t);
  };
  refused("n", [&] { (void)op->n(); });
  refused("el", [&] { (void)op->el(0, 0); });
  refused("transpose", [&] { (void)op->transpose(); });
  refused("multiply", [&] { (void)op->multiply(bop); });
  refused("multiply-transpose-self", [&] { (void)op->multiply_transpose(op); });
  refused("matrix-times-matrix-free", [&] { (void)bop->multiply(op); });
  refused("matrix-times-matrix-free-transpose",
          [&] { (void)bop->multiply_transpose(op); });
  refused("apply-transpose",
          [&] { op->apply(*x, *y, OperatorMode::TRANS); });
  refused("grid-complexity", [&] { (void)op->grid_complexity(); });
  refused("operator-complexity", [&] { (void)op->operator_complexity(); });
  c.state(str(c.label, k));
}

// ---------------------------------------------------------------- C10
// B of the preconditioner of one process: rows/columns owned by it
struct LocalBlock
{
  dealii::IndexSet own;
  std::vector<std::map<size_t, double>> rows; // local indices
  Vec diag;
};

LocalBlock local_block(GMat const &A, dealii::IndexSet const &own)
{
  LocalBlock b;
  b.own = own;
  b.own.compress();
  for (auto i : own)
  {
    std::map<size_t, double> row;
    double d = 0;
    for (auto const &e : A.r[i])
      if (own.is_element(e.first))
      {
        row[own.index_within_set(e.first)] = e.second;
        if (e.first == i)
          d = e.second;
      }
    b.rows.push_back(row);
    b.diag.push_back(d);
  }
  return b;
}

Vec local_precondition(LocalBlock const &b, std::string const &type, Vec const &r)
{
  size_t const n = r.size();
  Vec x(n, 0.);
  if (type == "jacobi")
  {
    for (size_t i = 0; i < n; ++i)
      x[i] = r[i] / b.diag[i];
    return x;
  }
  auto sweep = [&](size_t i) {
    double s = r[i];
    for (auto const &e : b.rows[i])
      s -= e.second * x[e.first];
    x[i] += s / b.diag[i];
  };
  for (size_t i = 0; i < n; ++i)
    sweep(i);
  if (type == "symmetric gauss-seidel")
    for (size_t i = n; i-- > 0;)
      sweep(i);
  return x;
}

GMat spd_like(Rng &r, size_t n, bool symmetric)
{
  GMat g(n, n);
  double const density = r.pick<double>({0.05, 0.2, 0.5});
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < i; ++j)
      if (r.chance(density))
      {
        double const v = r.sym();
        g.add(i, j, v);
        g.add(j, i, symmetric ? v : r.sym());
      }
  for (size_t i = 0; i < n; ++i)
  {
    double s = 0.2;
    for (auto const &e : g.r[i])
      s += std::abs(e.second);
    g.add(i, i, s * r.uniform(1., 1.5));
  }
  if (twin())
    for (size_t i = 0; i < n; ++i)
      for (auto &e : g.r[i])
        e.second *= e.first == i ? 1.7 : -0.6;
  return g;
}

std::string random_case(Rng &r, std::string s)
{
  if (r.chance(0.5))
    for (auto &ch : s)
      ch = r.chance(0.5) ? std::toupper(ch) : std::tolower(ch);
  return s;
}

void case_smoother(Ctx &c)
{
  Rng &r = c.rng;
  size_t const n = static_cast<size_t>(
      r.chance(0.03) ? r.range(100, 400)
                     : r.range(c.size, c.thorough ? 80 : 40));
  bool const symmetric = r.chance(0.6);
  double const scale = r.pick<double>({1., 1., 1e-4, 1e4});
  GMat A = spd_like(r, n, symmetric);
  for (auto &row : A.r)
    for (auto &e : row)
      e.second *= scale;
  auto const own = random_partition(c, n, false);
  auto m = distribute(A, own, own, c.comm);
  auto op = std::make_shared<TOp>(m);
  std::string type = r.pick<std::string>(
      {"", "symmetric gauss-seidel", "gauss-seidel", "jacobi", "ilu"});
  auto params = std::make_shared<ptree>();
  if (!type.empty())
    params->put("smoother.type", random_case(r, type));
  if (type.empty())
    type = "symmetric gauss-seidel";
  // parameters of the other components are none of its business
  params->put("coarse.type", "direct");
  params->put("smoother.n_smoothing_steps", r.range(1, 5));
  ptree const p0 = *params;
  c.label = str("n=", n, " sym=", symmetric, " scale=", scale, " type=",
                params->get("smoother.type", "default"));
  mfmg::DealIISmoother<DVector> smoother(op, params);
  LocalBlock const blk = local_block(A, own);
  auto precondition = [&](Vec const &g) {
    Vec loc;
    for (auto i : own)
      loc.push_back(g[i]);
    DVector z(own, c.comm);
    if (type == "ilu")
    {
      dealii::TrilinosWrappers::PreconditionILU ilu;
      ilu.initialize(*m);
      DVector rr(own, c.comm);
      scatter(g, rr);
      ilu.vmult(z, rr);
      return gather(z, c.comm);
    }
    Vec const x = local_precondition(blk, type, loc);
    for (size_t i = 0; i < x.size(); ++i)
      z(own.nth_index_in_set(i)) = x[i];
    return gather(z, c.comm);
  };
  DVector b(own, c.comm), x(own, c.comm);
  int const rounds = static_cast<int>(r.range(1, 3));
  // powers of two: the same numbers at another scale
  double const vs = r.pick<double>({1., 1., std::ldexp(1., -70),
                                    std::ldexp(1., -400), std::ldexp(1., 90)});
  c.label += str(" vectors times ", vs);
  Vec gb = random_vec(r, n);
  Vec gx = random_vec(r, n);
  if (r.chance(0.3))
    gx.assign(n, 0.);
  if (r.chance(0.05))
    gb.assign(n, 0.);
  for (auto &v : gx)
    v *= vs / scale;
  for (auto &v : gb)
    v *= vs;
  // another smoother that is used in between
  GMat A2 = spd_like(r, n, symmetric);
  auto m2 = distribute(A2, own, own, c.comm);
  mfmg::DealIISmoother<DVector> smoother2(std::make_shared<TOp>(m2), params);
  scatter(gb, b);
  scatter(gx, x);
  for (int q = 0; q < rounds; ++q)
  {
    Vec res = axpy(-1., A.mul(gx), gb);
    Vec const z = precondition(res);
    Vec const want = axpy(1., z, gx);
    smoother.apply(b, x);
    Vec const got = gather(x, c.comm);
    if (r.chance(0.3))
    {
      DVector xx(own, c.comm);
      scatter(gx, xx);
      smoother2.apply(b, xx);
    }
    c.below(dist_inf(got, want) / vs * scale,
            1e-11 * (1. + norm_inf(want) / vs * scale), "formula", str("x + B^{-1}(b - A x), step ", q, "; ", c.label));
    if (symmetric && type == "symmetric gauss-seidel" && c.size == 1)
    {
      // the error decreases in the energy norm
      std::vector<double> d = A.dense();
      Vec xs = gb;
      if (dense_solve(d, xs, static_cast<int>(n)))
      {
        Vec e0 = axpy(-1., xs, gx), e1 = axpy(-1., xs, got);
        for (auto &v : e0)
          v /= vs;
        for (auto &v : e1)
          v /= vs;
        double const a0 = dot(e0, A.mul(e0)), a1 = dot(e1, A.mul(e1));
        c.check(a1 <= a0 * (1. + 1e-9) + 1e-18, "energy",
                str("energy error grows from ", a0, " to ", a1, "; ",
                    c.label));
      }
    }
    gx = got;
    c.obs("steps");
  }
  c.check(dist_inf(gather(b, c.comm), gb) == 0., "rhs-modified", c.label);
  // a solution is a fixed point
  {
    Vec const xs = random_vec(r, n);
    Vec const bs = A.mul(xs);
    scatter(bs, b);
    scatter(xs, x);
    smoother.apply(b, x);
    c.below(dist_inf(gather(x, c.comm), xs), 1e-10, "fixed-point",
            "the solution is moved; " + c.label);
  }
  c.check(*params == p0, "parameters-modified", c.label);
  c.state(c.label);
}

template <int dim>
void case_chebyshev(Ctx &c)
{
  Rng &r = c.rng;
  SpecLimits lim;
  lim.max_cells = c.thorough ? 100 : 48;
  Spec spec = random_spec<dim>(r, lim);
  spec.scale = r.pick<double>({1., 1., 1e-3, 1e3});
  Problem<dim> p(spec, c.comm);
  auto eval = std::make_shared<MFEval<dim>>(p);
  using MFOp = mfmg::DealIIMatrixFreeOperator<dim, DVector>;
  auto op = std::make_shared<MFOp>(eval);
  GMat const A = gather(*eval->global, c.comm);
  auto const &own = p.dofs.locally_owned_dofs();
  auto params = std::make_shared<ptree>();
  using Cheb = dealii::PreconditionChebyshev<TMat, DVector,
                                             dealii::DiagonalMatrix<DVector>>;
  typename Cheb::AdditionalData data;
  if (r.chance(0.6))
    params->put("smoother.type", random_case(r, "chebyshev"));
  if (r.chance(0.6))
  {
    data.degree = static_cast<unsigned>(r.range(1, 6));
    params->put("smoother.degree", data.degree);
  }
  if (r.chance(0.6))
  {
    data.smoothing_range =
        r.chance(0.5) ? r.pick<double>({2., 4., 15., 25.}) : r.uniform(1.3, 30.);
    params->put("smoother.smoothing_range", data.smoothing_range);
  }
  if (r.chance(0.5))
  {
    data.max_eigenvalue = r.uniform(0.3, 4.);
    params->put("smoother.max_eigenvalue", data.max_eigenvalue);
    // it is only used without the estimate of deal.II
  }
  data.preconditioner = eval->matrix_free_get_diagonal_inverse();
  ptree const p0 = *params;
  c.label = str(spec.describe(dim), " degree=", data.degree, " range=",
                data.smoothing_range, " maxev=", data.max_eigenvalue);
  mfmg::DealIIMatrixFreeSmoother<dim, DVector> smoother(op, params);
  Cheb ref;
  ref.initialize(*eval->global, data);
  DVector b(own, c.comm), x(own, c.comm), res(own, c.comm), z(own, c.comm);
  double const vs = r.pick<double>({1., 1., std::ldexp(1., -70),
                                    std::ldexp(1., -400), std::ldexp(1., 90)});
  c.label += str(" vectors times ", vs);
  Vec gb = random_vec(r, A.m);
  Vec gx = random_vec(r, A.m);
  if (r.chance(0.05))
    gb.assign(A.m, 0.);
  for (auto &v : gb)
    v *= vs;
  for (auto &v : gx)
    v *= vs;
  scatter(gb, b);
  scatter(gx, x);
  for (int q = 0; q < 2; ++q)
  {
    scatter(axpy(-1., A.mul(gx), gb), res);
    ref.vmult(z, res);
    Vec const want = axpy(1., gather(z, c.comm), gx);
    smoother.apply(b, x);
    Vec const got = gather(x, c.comm);
    c.below(dist_inf(got, want), 1e-9 * (vs + norm_inf(want)),
            "chebyshev-formula", c.label);
    gx = got;
    c.obs("chebyshev_steps");
  }
  c.check(dist_inf(gather(b, c.comm), gb) == 0., "rhs-modified", c.label);
  Vec const xs = random_vec(r, A.m);
  scatter(A.mul(xs), b);
  scatter(xs, x);
  smoother.apply(b, x);
  c.below(dist_inf(gather(x, c.comm), xs), 1e-9, "chebyshev-fixed-point",
          c.label);
  c.check(*params == p0, "parameters-modified", c.label);
  c.state(c.label);
}

// ---------------------------------------------------------------- C11
void case_coarse(Ctx &c)
{
  Rng &r = c.rng;
  bool const ml = r.chance(0.35);
  size_t n = static_cast<size_t>(
      r.chance(0.03) ? r.range(100, 400)
                     : r.range(c.size, c.thorough ? 90 : 50));
  bool const symmetric = ml || r.chance(0.5);
  GMat A;
  if (ml)
  {
    // a graph Laplacian with a mass term
    size_t const nx = static_cast<size_t>(r.range(2, 14)),
                 ny = static_cast<size_t>(r.range(2, 14));
    n = nx * ny;
    if (n < static_cast<size_t>(4 * c.size))
      return c.skip("too small");
    A = GMat(n, n);
    double const k = r.uniform(0.2, 3.) * (twin() ? 0.7 : 1.),
                 mass = r.uniform(0.05, 1.) * (twin() ? 1.5 : 1.);
    auto id = [&](size_t i, size_t j) { return i * ny + j; };
    for (size_t i = 0; i < nx; ++i)
      for (size_t j = 0; j < ny; ++j)
      {
        A.add(id(i, j), id(i, j), mass);
        auto edge = [&](size_t a, size_t b, double w) {
          A.add(a, a, w);
          A.add(b, b, w);
          A.add(a, b, -w);
          A.add(b, a, -w);
        };
        if (i + 1 < nx)
          edge(id(i, j), id(i + 1, j), k);
        if (j + 1 < ny)
          edge(id(i, j), id(i, j + 1), 1.);
      }
  }
  else
    A = spd_like(r, n, symmetric);
  double const scale = r.pick<double>({1., 1., 1e-6, 1e6});
  for (auto &row : A.r)
    for (auto &e : row)
      e.second *= scale;
  auto const own = random_partition(c, n, false);
  auto m = distribute(A, own, own, c.comm);
  auto op = std::make_shared<TOp>(m);
  auto params = std::make_shared<ptree>();
  params->put("smoother.type", "Jacobi");
  c.label = str("n=", n, " sym=", symmetric, " scale=", scale);
  if (!ml)
  {
    if (r.chance(0.7))
      params->put("coarse.type", random_case(r, "direct"));
    ptree const p0 = *params;
    c.label += " coarse=" + params->get("coarse.type", "default");
    mfmg::DealIISolver<DVector> solver(op, params);
    // another solver that is used in between
    GMat A2 = spd_like(r, n, symmetric);
    auto m2 = distribute(A2, own, own, c.comm);
    mfmg::DealIISolver<DVector> solver2(std::make_shared<TOp>(m2), params);
    int const solves = static_cast<int>(r.range(1, 6));
    for (int q = 0; q < solves; ++q)
    {
      Vec gb = random_vec(r, n);
      double const bs = r.pick<double>({1., 1e-12, 1e-30, 1e-150, 1e8, 1e100});
      for (auto &v : gb)
        v *= bs;
      if (r.chance(0.1))
        gb.assign(n, 0.);
      DVector b(own, c.comm), x(own, c.comm);
      scatter(gb, b);
      fill_garbage(c, x);
      solver.apply(b, x);
      Vec const gx = gather(x, c.comm);
      Vec const res = axpy(-1., A.mul(gx), gb);
      c.below(norm(res), 1e-10 * norm(gb), "direct-residual",
              str("solve ", q, "; ", c.label));
      c.check(dist_inf(gather(b, c.comm), gb) == 0., "rhs-modified", c.label);
      c.obs("direct_solves");
      if (r.chance(0.4))
      {
        solver2.apply(b, x);
        Vec const res2 = axpy(-1., A2.mul(gather(x, c.comm)), gb);
        c.below(norm(res2), 1e-10 * norm(gb), "direct-residual",
                str("the other solver; ", c.label));
      }
    }
    c.check(*params == p0, "parameters-modified", c.label);
  }
  else
  {
    params->put("coarse.type", random_case(r, "ml"));
    c.uses_ml = true;
    Teuchos::ParameterList want;
    ML_Epetra::SetDefaults("SA", want);
    // the user's parameters override the defaults, the others stay
    if (r.chance(0.6))
    {
      if (r.chance(0.5))
      {
        std::string const t = r.pick<std::string>(
            {"Jacobi", "Gauss-Seidel", "symmetric Gauss-Seidel", "Chebyshev"});
        params->put("coarse.params.smoother: type", t);
        want.set("smoother: type", t);
      }
      if (r.chance(0.5))
      {
        int const s = static_cast<int>(r.range(1, 4));
        params->put("coarse.params.smoother: sweeps", s);
        want.set("smoother: sweeps", s);
      }
      if (r.chance(0.5))
      {
        int const s = static_cast<int>(r.range(1, 4));
        params->put("coarse.params.max levels", s);
        want.set("max levels", s);
      }
      if (r.chance(0.5))
      {
        double const d = r.pick<double>({0.8, 1.3333, 1.1});
        params->put("coarse.params.aggregation: damping factor", d);
        want.set("aggregation: damping factor", d);
      }
      if (r.chance(0.3))
      {
        params->put("coarse.params.aggregation: type", "Uncoupled");
        want.set("aggregation: type", "Uncoupled");
      }
      if (r.chance(0.3))
      {
        int const s = static_cast<int>(r.range(4, 30));
        params->put("coarse.params.coarse: max size", s);
        want.set("coarse: max size", s);
      }
    }
    ptree const p0 = *params;
    if (params->get_child_optional("coarse.params"))
      for (auto const &it : params->get_child("coarse.params"))
        c.label += " [" + it.first + "=" + it.second.data() + "]";
    c.label += " coarse=ml";
    mfmg::DealIISolver<DVector> solver(op, params);
    dealii::TrilinosWrappers::PreconditionAMG ref;
    ref.initialize(*m, want);
    DVector b(own, c.comm), x(own, c.comm), y(own, c.comm);
    Vec const gb = random_vec(r, n);
    scatter(gb, b);
    x = 0.;
    y = 0.;
    solver.apply(b, x);
    ref.vmult(y, b);
    Vec const gx = gather(x, c.comm), gy = gather(y, c.comm);
    // the spectral estimates of ML start from random vectors: how much do
    // equal preconditioners differ?
    double spread = 0.;
    for (int q = 0; q < 4; ++q)
    {
      dealii::TrilinosWrappers::PreconditionAMG other;
      other.initialize(*m, want);
      DVector z(own, c.comm);
      other.vmult(z, b);
      spread = std::max(spread, dist_inf(gather(z, c.comm), gy));
    }
    double const tol = 1e-4 * (norm_inf(gy) + 1e-300) + 20. * spread;
    double dist = dist_inf(gx, gy);
    // an outlier of either side: wrong parameters make a difference every time
    for (int q = 0; q < 12 && !(dist <= tol); ++q)
    {
      mfmg::DealIISolver<DVector> solver2(op, params);
      dealii::TrilinosWrappers::PreconditionAMG ref2;
      ref2.initialize(*m, want);
      DVector x2(own, c.comm), y2(own, c.comm);
      solver2.apply(b, x2);
      ref2.vmult(y2, b);
      dist = std::min({dist, dist_inf(gather(x2, c.comm), gy),
                       dist_inf(gather(x2, c.comm), gather(y2, c.comm)),
                       dist_inf(gx, gather(y2, c.comm))});
      c.obs("ml-outliers");
    }
    c.below(dist, tol,
            "ml-parameters",
            "the ML preconditioner differs from SA defaults augmented with "
            "the parameters; " +
                c.label);
    c.check(dist_inf(gather(b, c.comm), gb) == 0., "rhs-modified", c.label);
    c.check(*params == p0, "parameters-modified", c.label);
    c.obs("ml_applies");
  }
  c.state(c.label);
}

// ---------------------------------------------------------------- C26
template <int dim>
void case_evaluator(Ctx &c)
{
  Rng &r = c.rng;
  SpecLimits lim;
  lim.max_cells = 144;
  lim.boxes_only = false;
  Spec spec = random_spec<dim>(r, lim);
  spec.scale = r.pick<double>({1., 1e-6, 1e4});
  c.label = spec.describe(dim);
  Problem<dim> p(spec, c.comm);
  MatEval<dim> ev(p);
  c.check(ev.get_dim() == dim, "dim", "wrong dimension");
  c.check(ev.get_mesh_evaluator_type() == "DealIIMeshEvaluator", "type",
          ev.get_mesh_evaluator_type());
  MFEval<dim> mf(p);
  c.check(mf.get_dim() == dim &&
              mf.get_mesh_evaluator_type() == "DealIIMatrixFreeMeshEvaluator",
          "type", mf.get_mesh_evaluator_type());
  c.check(&ev.get_dof_handler() == &p.dofs &&
              &ev.get_constraints() == &p.constraints,
          "accessors", "another dof handler or other constraints");
  GMat const A = gather(p.matrix, c.comm);
  DVector const d = ev.get_diagonal();
  dealii::IndexSet relevant;
  dealii::DoFTools::extract_locally_relevant_dofs(p.dofs, relevant);
  c.check(same_set(d.locally_owned_elements(), p.dofs.locally_owned_dofs()),
          "diagonal-layout", c.label);
  for (auto i : relevant)
  {
    c.check(d(i) == A.el(i, i), "diagonal",
            str("diagonal entry ", i, " is ", d(i), " instead of ", A.el(i, i),
                p.dofs.locally_owned_dofs().is_element(i) ? " (owned)"
                                                          : " (ghost)",
                "; ", c.label));
    c.obs(p.dofs.locally_owned_dofs().is_element(i) ? "owned_diagonal"
                                                    : "ghost_diagonal");
  }
  // initial guess of the eigensolvers
  size_t const n = static_cast<size_t>(r.range(1, 80));
  dealii::AffineConstraints<double> con;
  std::set<size_t> fixed;
  for (size_t i = 0; i < n; ++i)
    if (r.chance(0.3))
    {
      con.add_line(i);
      fixed.insert(i);
    }
  con.close();
  dealii::Vector<double> x(n), y(n);
  for (size_t i = 0; i < n; ++i)
  {
    x(i) = r.sym() * 100;
    y(i) = r.sym() * 100;
  }
  ev.set_initial_guess(con, x);
  ev.set_initial_guess(con, y);
  size_t nonzero = 0;
  std::set<double> values;
  for (size_t i = 0; i < n; ++i)
  {
    if (fixed.count(i))
      c.check(x(i) == 0., "guess-constrained",
              str("constrained entry ", i, " is ", x(i)));
    else
    {
      c.check(x(i) >= 0. && x(i) <= 1., "guess-range", str(x(i)));
      nonzero += x(i) != 0.;
      values.insert(x(i));
    }
    c.check(x(i) == y(i), "guess-not-repeatable",
            str("entry ", i, ": ", x(i), " then ", y(i)));
  }
  c.check(values.size() == n - fixed.size() && nonzero + 1 >= values.size(),
          "guess-degenerate",
          str(values.size(), " distinct values for ", n - fixed.size(),
              " free entries"));
  c.obs("guesses");
  c.state(str(c.label, n));
}

} // namespace

static Register r08("C08", [](Ctx &c) {
  if (c.idx % 7 == 3 && c.size == 1)
    case_serial_operator(c);
  else
    case_operator_algebra(c);
});
static Register r09("C09", [](Ctx &c) {
  if (c.idx % 4 == 3)
    case_matrix_free<3>(c);
  else
    case_matrix_free<2>(c);
});
static Register r10("C10", [](Ctx &c) {
  if (c.idx % 3 == 2)
    case_chebyshev<2>(c);
  else if (c.idx % 12 == 1)
    case_chebyshev<3>(c);
  else
    case_smoother(c);
});
static Register r11("C11", case_coarse);
static Register r26("C26", [](Ctx &c) {
  if (c.idx % 4 == 3)
    case_evaluator<3>(c);
  else
    case_evaluator<2>(c);
});

int main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv);
  return vf::run(argc, argv);
}
