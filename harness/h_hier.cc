// Local eigenproblems, restrictors, coarse operators, multigrid cycles.
#include "agg.hpp"
#include "linalg.hpp"
#include "problem.hpp"
#include "vf.hpp"

#include <mfmg/common/hierarchy.hpp>
#include <mfmg/dealii/amge_host.hpp>
#include <mfmg/dealii/amge_host.templates.hpp>
#include <mfmg/dealii/dealii_hierarchy_helpers.hpp>
#include <mfmg/dealii/dealii_matrix_free_hierarchy_helpers.hpp>
#include <mfmg/dealii/dealii_trilinos_matrix_operator.hpp>

#include <deal.II/base/mpi.h>
#include <deal.II/base/multithread_info.h>
#include <deal.II/base/timer.h>
#include <deal.II/lac/solver_cg.h>

#include <boost/algorithm/string/predicate.hpp>

using namespace vf;
using boost::property_tree::ptree;
using TMat = dealii::TrilinosWrappers::SparseMatrix;
using TOp = mfmg::DealIITrilinosMatrixOperator<DVector>;
using Op = mfmg::Operator<DVector>;
using mfmg::OperatorMode;

namespace
{
using Vec = std::vector<double>; // not the one of PETSc

std::shared_ptr<TMat> matrix_of(std::shared_ptr<Op const> op)
{
  auto t = std::dynamic_pointer_cast<TOp const>(op);
  return t ? std::const_pointer_cast<TMat>(t->get_matrix()) : nullptr;
}

// ------------------------------------------------------------- parameters
struct Eig
{
  std::string type; // empty: the default
  unsigned k = 1;
  double tol = 1e-12;
  bool deflated = false;
  int cycles = 1, per_cycle = 1;
  bool guess = false;
  int max_iterations = 0;
  bool defaults = false; // what has a default is not set
  std::string effective(bool mf) const
  {
    return type.empty() ? (mf ? "lanczos" : "arpack") : type;
  }
  ptree tree() const
  {
    ptree p;
    if (!type.empty())
      p.put("type", type);
    if (!defaults || k != 1)
      p.put("number of eigenvectors", k);
    if (!defaults)
      p.put("tolerance", tol);
    if (max_iterations)
      p.put("max_iterations", max_iterations);
    if (deflated)
    {
      p.put("is_deflated", true);
      p.put("num_cycles", cycles);
      p.put("num_eigenpairs_per_cycle", per_cycle);
    }
    if (guess)
      p.put("use_initial_guess", true);
    return p;
  }
  std::string describe() const
  {
    return str(type.empty() ? "default" : type, " k=", k, " tol=", tol,
               defaults ? " (defaults)" : "", deflated ? str(" deflated ", cycles, "x", per_cycle) : "",
               guess ? " reuse" : "");
  }
};

Eig random_eig(Rng &r, bool mf, unsigned max_k)
{
  Eig e;
  e.k = static_cast<unsigned>(r.range(1, std::max(1u, max_k)));
  if (mf)
    e.type = r.pick<std::string>({"", "lanczos", "lanczos", "anasazi"});
  else
    e.type = r.pick<std::string>({"", "arpack", "lanczos", "lapack", "lapack",
                                  "anasazi"});
  std::string const t = e.effective(mf);
  if (t == "arpack")
    e.tol = r.pick<double>({1e-14, 1e-12, 1e-8});
  else if (t == "lanczos")
    e.tol = r.pick<double>({1e-2, 1e-4, 1e-6});
  else if (t == "anasazi")
  {
    e.tol = r.pick<double>({1e-2, 1e-3, 1e-5});
    e.guess = r.chance(0.4);
  }
  else
    e.tol = 1e-12;
  if (t != "anasazi" && r.chance(0.2))
  {
    // the default
    e.defaults = true;
    e.tol = 1e-14;
  }
  if (t == "lanczos" && r.chance(0.4))
  {
    e.deflated = true;
    e.cycles = static_cast<int>(r.range(1, 3));
    e.per_cycle = static_cast<int>((e.k + e.cycles - 1) / e.cycles);
  }
  return e;
}

// bound of |A v - lambda v| for |v| = 1
double residual_bound(Eig const &e, bool mf, double anorm)
{
  std::string const t = e.effective(mf);
  if (t == "lapack")
    return 1e-9 * anorm;
  if (t == "arpack")
    return 100. * std::max(e.tol, 1e-13) * anorm;
  if (t == "lanczos")
    return (e.deflated ? 1. + 2. * std::sqrt(double(e.cycles * e.per_cycle))
                       : 1.01) *
               std::max(e.tol, 1e-4) * 1.01 +
           1e-9 * anorm;
  return 1.01 * e.tol + 1e-9 * anorm;
}

// ------------------------------------------------------------------ set-up
template <int dim>
struct World
{
  Ctx &c;
  Spec spec;
  std::unique_ptr<Problem<dim>> p;
  bool mf;
  std::shared_ptr<Monitor> monitor = std::make_shared<Monitor>();
  std::shared_ptr<mfmg::MeshEvaluator> evaluator;
  AggParams agg;
  Eig eig;
  std::shared_ptr<ptree> params = std::make_shared<ptree>();
  GMat A;             // replicated
  Vec weight_diag;    // diagonal used for the weights
  size_t n = 0;
  double anorm = 1.;
  std::string skip;

  World(Ctx &c_, Spec const &s, bool mf_)
      : c(c_), spec(s), p(new Problem<dim>(s, c.comm)), mf(mf_)
  {
    make_evaluator();
  }
  void make_evaluator()
  {
    if (mf)
    {
      auto e = std::make_shared<MFEval<dim>>(*p, monitor);
      evaluator = e;
      A = gather(*e->global, c.comm);
    }
    else
    {
      evaluator = std::make_shared<MatEval<dim>>(*p, monitor);
      A = gather(p->matrix, c.comm);
    }
    n = A.m;
    anorm = 2. * A.max_abs();
  }
  std::unique_ptr<mfmg::HierarchyHelpers<DVector>> helpers() const
  {
    if (mf)
      return std::make_unique<
          mfmg::DealIIMatrixFreeHierarchyHelpers<dim, DVector>>();
    return std::make_unique<mfmg::DealIIHierarchyHelpers<dim, DVector>>();
  }
  // the agglomerates of this rank, with the cells found in the user indices
  std::vector<LocalRef> local_refs(unsigned n_agg) const
  {
    std::vector<LocalRef> out;
    for (unsigned a = 1; a <= n_agg; ++a)
    {
      LocalRef L = local_reference(*p, [a](auto const &cell) {
        return cell->is_locally_owned() && cell->user_index() == a;
      });
      if (mf)
        for (size_t i = 0; i < L.n(); ++i)
          if (L.constrained[i])
            L.A[i * L.n() + i] = L.diag[i] = spec.scale;
      out.push_back(std::move(L));
    }
    return out;
  }
  unsigned build_agglomerates()
  {
    mfmg::AMGe<dim, DVector> amge(c.comm, p->dofs);
    return amge.build_agglomerates(agg.p);
  }
  // a common setup; false when the input is outside of what the eigensolvers
  // support
  bool choose(unsigned max_k, int force_agg = -1)
  {
    if (spec.large)
      max_k *= 3;
    agg = random_agg(c.rng, *p, true, force_agg);
    if (agg.type == "block" && c.rng.chance(0.8))
    {
      // agglomerates which are large enough
      for (int d = 0; d < dim; ++d)
        agg.block[d] = static_cast<unsigned>(c.rng.range(2, 4));
      agg.p.put("nx", agg.block[0]);
      agg.p.put("ny", agg.block[1]);
      if (dim == 3)
        agg.p.put("nz", agg.block[2]);
    }
    unsigned const na = build_agglomerates();
    long min_free = 1000, max_dofs = 0;
    for (auto const &L : local_refs(na))
    {
      long f = 0;
      for (auto x : L.constrained)
        f += !x;
      min_free = std::min(min_free, f);
      max_dofs = std::max(max_dofs, static_cast<long>(L.n()));
    }
    MPI_Allreduce(MPI_IN_PLACE, &min_free, 1, MPI_LONG, MPI_MIN, c.comm);
    MPI_Allreduce(MPI_IN_PLACE, &max_dofs, 1, MPI_LONG, MPI_MAX, c.comm);
    long const kmax = std::min<long>(max_k, (min_free - 3) / 2);
    // the generator runs alike on every rank
    eig = random_eig(c.rng, mf, kmax < 1 ? 1u : static_cast<unsigned>(kmax));
    // Lanczos returns what it has after max_iterations
    if (max_dofs > 40)
      eig.max_iterations = 3000;
    if (kmax < 1)
    {
      c.skip("an agglomerate has too few free dofs");
      return false;
    }
    if (eig.effective(mf) == "anasazi" &&
        min_free < 5 * static_cast<long>(eig.k) + 2)
    {
      c.skip("an agglomerate is too small for LOBPCG");
      return false;
    }
    if (eig.deflated && min_free < 4 * eig.cycles * eig.per_cycle + 2)
      eig.deflated = false;
    return true;
  }
  void fill_params()
  {
    params->put_child("eigensolver", eig.tree());
    params->put_child("agglomeration", agg.p);
  }
  std::string describe() const
  {
    return str(mf ? "matrix-free " : "", spec.describe(dim), "; ",
               agg.describe(), "; ", eig.describe());
  }
};

// The products on the patches use the constraints which the user derives from
// the patch alone: a cell which touches the Dirichlet boundary only with a
// vertex (a reentrant corner) cannot know about it.
template <int dim>
bool constraints_visible_from_every_cell(Problem<dim> const &p)
{
  using namespace dealii;
  std::vector<types::global_dof_index> idx(p.fe.dofs_per_cell);
  int hidden = 0;
  for (auto const &cell : p.dofs.active_cell_iterators())
  {
    if (cell->is_artificial())
      continue;
    cell->get_dof_indices(idx);
    for (unsigned i = 0; i < idx.size(); ++i)
      if (p.constraints.is_constrained(idx[i]))
      {
        bool seen = false;
        for (unsigned f = 0; f < GeometryInfo<dim>::faces_per_cell; ++f)
          seen = seen || (cell->face(f)->at_boundary() &&
                          cell->face(f)->boundary_id() == 1 &&
                          p.fe.has_support_on_face(i, f));
        hidden |= !seen;
      }
  }
  MPI_Allreduce(MPI_IN_PLACE, &hidden, 1, MPI_INT, MPI_MAX, p.comm);
  return hidden == 0;
}

template <int dim>
Spec hier_spec(Rng &r, bool thorough, unsigned max_cells = 0)
{
  SpecLimits lim;
  lim.boxes_only = r.chance(0.8);
  lim.max_cells = max_cells ? max_cells : thorough ? 144 : dim == 2 ? 80 : 48;
  lim.max_degree = dim == 2 ? 2 : 1;
  lim.min_cells = 8;
  bool const large = !max_cells && r.chance(0.03);
  if (large)
  {
    // the references are dense: many cells or a high degree
    lim.boxes_only = true;
    lim.max_degree = dim == 2 ? r.pick<unsigned>({1, 2, 4})
                              : r.pick<unsigned>({1, 2});
    lim.max_cells = lim.max_degree > 2 ? 24 : lim.max_degree == 2 ? 80 : 300;
    if (dim == 3)
      lim.max_cells /= 2;
    lim.min_cells = lim.max_cells / 2;
  }
  Spec s = random_spec<dim>(r, lim);
  if (large)
    s.degree = lim.max_degree;
  s.large = large;
  return s;
}

// eigenpairs of the free part of a local reference
struct DenseEig
{
  Vec w;
  // of the first one: |sum of the entries|, and the number of entries
  double sum0 = 0.;
  size_t n = 0;
  // every vector of random numbers in (0,1) contains the first one: its
  // component is 0.5 sum +- 0.29, the norm of such a vector sqrt(n/3)
  bool first_in_a_random_guess() const
  {
    return 0.5 * sum0 - 4. * 0.29 >= 0.1 * std::sqrt(n / 3.);
  }
};
DenseEig dense_eig(LocalRef const &L, bool vectors = false)
{
  std::vector<size_t> f;
  for (size_t i = 0; i < L.n(); ++i)
    if (!L.constrained[i])
      f.push_back(i);
  std::vector<double> a(f.size() * f.size());
  for (size_t j = 0; j < f.size(); ++j)
    for (size_t i = 0; i < f.size(); ++i)
      a[j * f.size() + i] = L.A[f[j] * L.n() + f[i]];
  DenseEig d;
  d.w = sym_eig(a, static_cast<int>(f.size()), vectors);
  if (vectors)
  {
    d.n = f.size();
    for (size_t i = 0; i < d.n; ++i)
      d.sum0 += a[i];
    d.sum0 = std::abs(d.sum0);
  }
  return d;
}

// v: one vector per pair in the order of L.dofs; values: may be empty
void check_eigenpairs(Ctx &c, LocalRef const &L, std::vector<Vec> const &vs,
                      Vec const &values, Eig const &e, bool mf,
                      std::string const &label)
{
  std::string const t = e.effective(mf);
  DenseEig const ref = dense_eig(L, t == "lanczos");
  double const anorm = std::max(std::abs(ref.w.front()),
                                std::abs(ref.w.back()));
  double const bound = residual_bound(e, mf, anorm);
  Vec found;
  std::vector<Vec> unit;
  for (size_t k = 0; k < vs.size(); ++k)
  {
    Vec v = vs[k];
    double const nv = norm(v);
    if (!c.check(std::isfinite(nv) && nv > 0., "eigenvector-zero",
                 str("eigenvector ", k, " has norm ", nv, "; ", label)))
      return;
    double const slack = t == "lanczos" ? 0.2 : 1e-6;
    c.check(std::abs(nv - 1.) <= slack, "eigenvector-norm",
            str("eigenvector ", k, " has norm ", nv, "; ", label));
    for (auto &x : v)
      x /= nv;
    for (size_t i = 0; i < L.n(); ++i)
      if (L.constrained[i])
        c.check(std::abs(v[i]) <= (t == "lapack" ? 1e-9 : t == "anasazi" ? 1e-12 + bound / anorm : 1e-12),
                "eigenvector-constrained",
                str("entry ", v[i], " at a constrained dof; ", label));
    Vec const av = L.mul(v);
    double const rq = dot(v, av);
    double const res = norm(axpy(-rq, v, av));
    c.below(res, 1.2 * bound, "eigenpair-residual-" + t,
            str("vector ", k, "; ", label));
    if (!values.empty())
      c.close(values[k], rq, 1.2 * bound, "eigenvalue-" + t,
              str("value of vector ", k, "; ", label));
    found.push_back(rq);
    unit.push_back(v);
    c.obs("eigenpairs_" + t);
  }
  for (size_t i = 0; i < unit.size(); ++i)
    for (size_t j = 0; j < i; ++j)
    {
      double const gap = std::abs(found[i] - found[j]);
      double const d = std::abs(dot(unit[i], unit[j]));
      // two approximate eigenvectors: |d| <= 2 bound / gap, and a repeated
      // vector is never right
      c.below(d, std::min(0.7, 1e-6 + 4. * bound / std::max(gap, 1e-300)),
              "eigenvectors-dependent", str(j, " and ", i, "; ", label));
    }
  // the smallest ones
  std::sort(found.begin(), found.end());
  size_t const k = found.size();
  if (ref.w.size() < k + 1)
    return;
  bool simple = true;
  double const span = ref.w[std::min(ref.w.size() - 1, k + 1)] - ref.w[0];
  for (size_t i = 0; i <= k && i + 1 < ref.w.size(); ++i)
    simple = simple &&
             ref.w[i + 1] - ref.w[i] > std::max(0.02 * span, 50. * bound);
  // a multiple eigenvalue cannot be resolved from one starting vector
  if (t == "lapack" || simple)
  {
    // Lanczos accepts a pair as soon as its residual is small: it may miss an
    // eigenvalue which its starting vector hardly contains, but not the
    // smallest one when the tolerance is tight and the vector contains it
    bool const first = e.tol <= 1e-4 && ref.first_in_a_random_guess();
    size_t const n_checked =
        t == "lanczos" ? (first ? std::min<size_t>(k, 1) : 0) : k;
    if (t == "lanczos")
      c.obs(first ? "smallest_checked_lanczos" : "smallest_unclear_lanczos");
    for (size_t i = 0; i < n_checked; ++i)
      c.close(found[i], ref.w[i], bound + 1e-9 * anorm, "not-the-smallest-" + t,
              str("eigenvalue ", i, "; ", label));
    c.obs("smallest_checked");
  }
}

// ------------------------------------------------------------------- C04
template <int dim, typename Evaluator, typename Concrete>
void local_eigen_case(Ctx &c, World<dim> &w)
{
  using Host = mfmg::AMGe_host<dim, Evaluator, DVector>;
  w.fill_params();
  Host amge(c.comm, w.p->dofs, w.params->get_child("eigensolver"));
  unsigned const na = amge.build_agglomerates(w.agg.p);
  auto const refs = w.local_refs(na);
  auto const &ev = dynamic_cast<Evaluator const &>(*w.evaluator);
  mfmg::LobpcgScratchData scratch;
  unsigned const first = static_cast<unsigned>(c.rng.range(0, 1000000));
  for (unsigned q = 0; q < std::min(na, 8u); ++q)
  {
    unsigned const a = (first + q) % na + 1;
    LocalRef const &L = refs[a - 1];
    dealii::Triangulation<dim> tria;
    std::map<typename dealii::Triangulation<dim>::active_cell_iterator,
             typename dealii::DoFHandler<dim>::active_cell_iterator>
        map;
    amge.build_agglomerate_triangulation(a, tria, map);
    std::vector<std::complex<double>> evals;
    std::vector<dealii::Vector<double>> evecs;
    Vec diag;
    std::vector<dealii::types::global_dof_index> dofs;
    try
    {
      std::tie(evals, evecs, diag, dofs) = amge.compute_local_eigenvectors(
          w.eig.k, w.eig.tol, tria, map, ev, scratch);
    }
    catch (std::exception const &e)
    {
      // LOBPCG may fail to converge but has to say so
      if (w.eig.effective(w.mf) == "anasazi" &&
          std::string(e.what()).find("could not solve") != std::string::npos)
      {
        c.obs("refused");
        continue;
      }
      throw;
    }
    if (!c.check(evals.size() == w.eig.k && evecs.size() == w.eig.k,
                 "eigenpair-count", c.label))
      return;
    if (!c.check(dofs.size() == L.n() && diag.size() == L.n(), "local-size",
                 str(dofs.size(), " dofs instead of ", L.n(), "; ", c.label)))
      return;
    std::set<size_t> seen;
    bool inside = true;
    for (auto d : dofs)
      inside = inside && L.pos.count(d) && seen.insert(d).second;
    if (!c.check(inside, "dof-map",
                 "the dofs of the agglomerate are not those of its cells; " +
                     c.label))
      return;
    std::vector<Vec> vs;
    Vec values;
    for (unsigned k = 0; k < w.eig.k; ++k)
    {
      if (!c.check(evecs[k].size() == L.n(), "eigenvector-size", c.label))
        return;
      Vec v(L.n());
      for (size_t i = 0; i < L.n(); ++i)
        v[L.pos.at(dofs[i])] = evecs[k][i];
      vs.push_back(v);
      values.push_back(evals[k].real());
      c.check(evals[k].imag() == 0., "complex-eigenvalue", c.label);
    }
    for (size_t i = 0; i < L.n(); ++i)
      c.close(diag[i], L.diag[L.pos.at(dofs[i])], 1e-10 * w.anorm, "diagonal",
              c.label);
    check_eigenpairs(c, L, vs, values, w.eig, w.mf,
                     str("agglomerate ", a, " (", L.n(), " dofs); ", c.label));
    if (w.eig.guess)
      scratch.lobpcg_init_guess = evecs;
    c.obs("agglomerates");
  }
  c.state(c.label);
}

template <int dim>
void case_local_eigen(Ctx &c)
{
  Rng &r = c.rng;
  bool const mf = r.chance(0.35);
  Spec s = hier_spec<dim>(r, c.thorough);
  World<dim> w(c, s, mf);
  if (!w.choose(6))
    return;
  c.label = w.describe();
  if (mf)
    local_eigen_case<dim, mfmg::DealIIMatrixFreeMeshEvaluator<dim>,
                     MFEval<dim>>(c, w);
  else
    local_eigen_case<dim, mfmg::DealIIMeshEvaluator<dim>, MatEval<dim>>(c, w);
}

// ------------------------------------------------------------------- C05
bool is_refusal(Eig const &e, bool mf, std::exception const &x)
{
  return e.effective(mf) == "anasazi" &&
         std::string(x.what()).find("could not solve") != std::string::npos;
}

// in parallel an exception on one rank leaves the others blocked: the
// refusals of LOBPCG are only tolerated on one rank
bool anasazi_possible(Ctx const &c, Eig const &e, bool mf)
{
  return e.effective(mf) != "anasazi" || c.size == 1;
}

template <int dim>
std::shared_ptr<Op> build_restrictor(Ctx &c, World<dim> &w,
                                     mfmg::HierarchyHelpers<DVector> &h,
                                     bool &ok)
{
  ok = true;
  std::shared_ptr<ptree const> params = w.params;
  if (w.eig.effective(w.mf) == "anasazi")
  {
    try
    {
      return h.build_restrictor(c.comm, w.evaluator, params);
    }
    catch (std::exception const &e)
    {
      if (!is_refusal(w.eig, w.mf, e))
        throw;
      ok = false;
      c.obs("refused");
      return nullptr;
    }
  }
  return h.build_restrictor(c.comm, w.evaluator, params);
}

// the rows of one agglomerate without their weights (the share of the
// agglomerate in the global diagonal)
template <int dim>
std::vector<Vec> agglomerate_rows(Ctx &c, World<dim> &w, GMat const &R,
                                  LocalRef const &L, size_t first_row)
{
  std::vector<Vec> vs;
  for (unsigned q = 0; q < w.eig.k; ++q)
  {
    size_t const row = first_row + q;
    Vec v(L.n(), 0.);
    for (auto const &e : R.r[row])
    {
      auto it = L.pos.find(e.first);
      if (it == L.pos.end())
      {
        c.check(e.second == 0., "restrictor-support",
                str("row ", row, " has an entry at dof ", e.first,
                    " outside of its agglomerate; ", c.label));
        continue;
      }
      double const wgt = L.diag[it->second] / w.A.el(e.first, e.first);
      v[it->second] = e.second / wgt;
    }
    vs.push_back(v);
    c.obs("rows");
  }
  return vs;
}

template <int dim>
void case_restrictor(Ctx &c)
{
  Rng &r = c.rng;
  bool const mf = r.chance(0.35);
  Spec s = hier_spec<dim>(r, c.thorough);
  bool const nullspace = r.chance(0.3);
  if (nullspace)
  {
    s.mesh = "box";
    s.dirichlet = 0;
    s.reaction = 0.;
  }
  World<dim> w(c, s, mf);
  if (!w.choose(4))
    return;
  if (nullspace)
    w.eig.k = 1;
  if (!anasazi_possible(c, w.eig, mf))
    return c.skip("LOBPCG may refuse in parallel");
  w.fill_params();
  bool const fast = r.chance(0.4);
  if (fast)
    w.params->put("fast_ap", true);
  ptree const p0 = *w.params;
  c.label = w.describe() + (fast ? " fast_ap" : "");
  auto h = w.helpers();
  // the operator is built first by the hierarchy
  auto op = h->get_global_operator(w.evaluator);
  bool ok;
  auto rop = build_restrictor(c, w, *h, ok);
  if (!ok)
    return c.skip("LOBPCG did not converge");
  c.check(*w.params == p0, "parameters-modified", c.label);
  auto rm = matrix_of(rop);
  if (!c.check(rm != nullptr, "restrictor-type", c.label))
    return;
  GMat const R = gather(*rm, c.comm);
  unsigned na = 0;
  for (auto const &cell : w.p->dofs.active_cell_iterators())
    if (cell->is_locally_owned())
      na = std::max(na, static_cast<unsigned>(cell->user_index()));
  auto const refs = w.local_refs(na);
  unsigned const k = w.eig.k;
  unsigned long mine = static_cast<unsigned long>(na) * k, before = 0, all = 0;
  MPI_Exscan(&mine, &before, 1, MPI_UNSIGNED_LONG, MPI_SUM, c.comm);
  if (c.rank == 0)
    before = 0;
  MPI_Allreduce(&mine, &all, 1, MPI_UNSIGNED_LONG, MPI_SUM, c.comm);
  if (!c.check(R.m == all && R.n == w.n, "restrictor-size",
               str(R.m, "x", R.n, " instead of ", all, "x", w.n, "; ",
                   c.label)))
    return;
  auto const range = rm->local_range();
  c.check(mine == 0 || (range.first == before && range.second == before + mine),
          "restrictor-layout",
          str("rows [", range.first, ",", range.second, ") instead of [",
              before, ",", before + mine, "); ", c.label));
  {
    auto dom = rm->locally_owned_domain_indices();
    auto own = w.p->dofs.locally_owned_dofs();
    dom.compress();
    own.compress();
    c.check(dom.n_elements() == own.n_elements() &&
                (own.n_elements() == 0 || dom == own),
            "restrictor-domain", c.label);
  }
  // the weight of a dof in an agglomerate: its share of the global diagonal
  Vec sum(w.n, 0.);
  for (unsigned a = 0; a < na; ++a)
  {
    LocalRef const &L = refs[a];
    std::vector<Vec> const vs =
        agglomerate_rows(c, w, R, L, before + a * k);
    check_eigenpairs(c, L, vs, {}, w.eig, mf,
                     str("rows of agglomerate ", a + 1, " of ", na, "; ",
                         c.label));
    if (nullspace)
    {
      // the constants are reproduced: sum of the rows scaled by sqrt(n)
      double s1 = 0;
      for (double x : vs[0])
        s1 += x;
      double const sgn = s1 < 0 ? -1. : 1.;
      for (auto const &e : R.r[before + a])
        sum[e.first] += sgn * std::sqrt(double(L.n())) * e.second;
    }
  }
  if (nullspace)
  {
    MPI_Allreduce(MPI_IN_PLACE, sum.data(), static_cast<int>(w.n), MPI_DOUBLE,
                  MPI_SUM, c.comm);
    double worst = 0;
    for (double x : sum)
      worst = std::max(worst, std::abs(x - 1.));
    std::string const t = w.eig.effective(mf);
    // an error in the eigenvector is amplified by 1 / gap
    double gap = 1e300;
    for (auto const &L : refs)
    {
      auto const d = dense_eig(L);
      gap = std::min(gap, d.w[1] - d.w[0]);
    }
    MPI_Allreduce(MPI_IN_PLACE, &gap, 1, MPI_DOUBLE, MPI_MIN, c.comm);
    double const bound = residual_bound(w.eig, mf, w.anorm);
    c.below(worst, 1e-8 + (t == "lanczos" ? 0.2 : 0.) + 20. * bound / gap,
            "partition-of-unity",
            "the constants are not in the range of the prolongation; " +
                c.label);
    c.obs("partition_of_unity");
  }
  c.check(w.monitor->overlapping_clone_use == 0 && w.monitor->bad_size == 0 &&
              w.monitor->uninitialised_use == 0,
          "evaluator-misuse", c.label);
  c.state(c.label);
}

// ------------------------------------------------------------------- C07
template <int dim>
void case_fast_ap(Ctx &c)
{
  Rng &r = c.rng;
  bool const mf = r.chance(0.4);
  Spec s = hier_spec<dim>(r, c.thorough);
  // the second island is one agglomerate without any neighbor
  bool const lonely = r.chance(0.15);
  if (lonely)
  {
    s.mesh = "islands";
    s.aniso = 3.;
    s.refine = 1;
    s.reps = {{4, 1, 1}};
    s.degree = 2;
    s.renumber = 0;
  }
  World<dim> w(c, s, mf);
  if (!w.choose(3, lonely ? 0 : -1))
    return;
  if (!constraints_visible_from_every_cell(*w.p))
    return c.skip("a patch cannot know all its constraints");
  if (!anasazi_possible(c, w.eig, mf))
    return c.skip("LOBPCG may refuse in parallel");
  w.fill_params();
  w.params->put("fast_ap", true);
  c.label = w.describe();
  auto h = w.helpers();
  auto op = h->get_global_operator(w.evaluator);
  bool ok;
  auto rop = build_restrictor(c, w, *h, ok);
  if (!ok)
    return c.skip("LOBPCG did not converge");
  auto ap = h->fast_multiply_transpose();
  auto am = matrix_of(ap);
  if (!c.check(am != nullptr, "fast-ap-type", c.label))
    return;
  GMat const R = gather(*matrix_of(rop), c.comm);
  GMat const AP = gather(*am, c.comm);
  GMat const want = w.A.mul(R.transpose());
  double const bound = residual_bound(w.eig, mf, w.anorm);
  c.below(diff_max(AP, want), 4. * bound + 1e-9 * w.anorm, "fast-ap",
          "A R^T computed from the agglomerates: " + worst_entries(AP, want) +
              c.label);
  // layout: like the product of the two operators
  auto x = ap->build_domain_vector();
  auto y = ap->build_range_vector();
  auto rx = rop->build_range_vector();
  auto ry = rop->build_domain_vector();
  c.check(x->locally_owned_elements() == rx->locally_owned_elements() &&
              y->locally_owned_elements() == ry->locally_owned_elements(),
          "fast-ap-layout", c.label);
  c.obs("fast_ap_products");
  c.obs("entries", double(want.nnz()));
  // usable by the hierarchy
  auto coarse = rop->multiply(ap);
  GMat const C = gather(*matrix_of(coarse), c.comm);
  c.below(diff_max(C, R.mul(want)),
          (4. * bound + 1e-9 * w.anorm) * std::sqrt(double(w.n)),
          "fast-ap-coarse", c.label);
  c.state(c.label);
}

// ------------------------------------------- hierarchies: C06, C12, C13, C14
struct CycleParams
{
  std::string smoother;
  int steps = 1;
  bool preconditioner = true;
  int levels = 2;
  bool fast = false;
  bool ml = false; // coarse problems by a cycle of ML instead of directly
};

template <int dim>
void set_cycle(World<dim> &w, CycleParams &cp)
{
  Rng &r = w.c.rng;
  if (w.mf)
  {
    cp.smoother = r.pick<std::string>({"", "Chebyshev"});
    if (r.chance(0.5))
      w.params->put("smoother.degree", r.range(1, 4));
  }
  else
    cp.smoother = r.pick<std::string>({"", "Symmetric Gauss-Seidel",
                                       "Gauss-Seidel", "Jacobi", "ILU"});
  if (!cp.smoother.empty())
    w.params->put("smoother.type", cp.smoother);
  if (cp.steps != 1 || r.chance(0.5))
    w.params->put("smoother.n_smoothing_steps", cp.steps);
  if (!cp.preconditioner || r.chance(0.5))
    w.params->put("is preconditioner", cp.preconditioner);
  if (cp.levels != 2 || r.chance(0.5))
    w.params->put("max levels", cp.levels);
  if (cp.fast)
    w.params->put("fast_ap", true);
  if (cp.ml)
  {
    w.c.uses_ml = true;
    w.params->put("coarse.type", r.pick<std::string>({"ml", "ML"}));
  }
  else if (r.chance(0.5))
    w.params->put("coarse.type", r.pick<std::string>({"direct", "Direct"}));
}

std::string describe(CycleParams const &cp)
{
  return str(" smoother=", cp.smoother.empty() ? "default" : cp.smoother, "x",
             cp.steps, cp.preconditioner ? " prec" : " standalone", " levels=",
             cp.levels, cp.fast ? " fast_ap" : "", cp.ml ? " coarse ML" : "");
}

struct CoarseRef
{
  GMat R;
  std::vector<double> Ac;
  int nc = 0;
  double cond = 0;
  // an iterative coarse solver (decided by C11) and its operator
  std::shared_ptr<Op const> op;
  std::shared_ptr<mfmg::Solver<DVector>> solver;
  MPI_Comm comm = MPI_COMM_NULL;
  // R^T Ac^{-1} R r
  Vec correct(Vec const &r) const
  {
    Vec b = R.mul(r);
    if (solver)
    {
      auto bc = op->build_range_vector();
      auto xc = op->build_domain_vector();
      scatter(b, *bc);
      *xc = 0.;
      solver->apply(*bc, *xc);
      return R.tmul(gather(*xc, comm));
    }
    std::vector<double> x = b;
    if (!dense_solve(Ac, x, nc))
      return Vec(r.size(), std::nan(""));
    return R.tmul(x);
  }
};

CoarseRef make_coarse(GMat const &R, GMat const &A)
{
  CoarseRef cr;
  cr.R = R;
  GMat const Ac = R.mul(A.mul(R.transpose()));
  cr.nc = static_cast<int>(R.m);
  cr.Ac = Ac.dense();
  std::vector<double> tmp = cr.Ac;
  Vec const ev = sym_eig(tmp, cr.nc, false);
  cr.cond = ev.front() > 0 ? ev.back() / ev.front() : 1e300;
  return cr;
}

template <int dim>
bool prepare(Ctx &c, World<dim> &w, CoarseRef &cr, std::shared_ptr<Op> &op,
             std::unique_ptr<mfmg::HierarchyHelpers<DVector>> &h)
{
  h = w.helpers();
  op = h->get_global_operator(w.evaluator);
  bool ok;
  auto rop = build_restrictor(c, w, *h, ok);
  if (!ok)
  {
    c.skip("LOBPCG did not converge");
    return false;
  }
  cr = make_coarse(gather(*matrix_of(rop), c.comm), w.A);
  if (cr.cond > 1e9)
  {
    c.skip("singular coarse operator");
    return false;
  }
  if (boost::iequals(w.params->template get<std::string>("coarse.type", "direct"),
                     "ml"))
  {
    std::shared_ptr<ptree const> params = w.params;
    auto ac = rop->multiply(op->multiply_transpose(rop));
    cr.op = ac;
    cr.comm = c.comm;
    cr.solver = h->build_coarse_solver(ac, params);
    c.obs("coarse_ml");
  }
  return true;
}

template <int dim>
bool world_for_cycle(Ctx &c, std::unique_ptr<World<dim>> &w, bool mf, Spec s)
{
  w.reset(new World<dim>(c, s, mf));
  if (!w->choose(3))
    return false;
  if (w->eig.guess)
    w->eig.guess = false;
  if (!anasazi_possible(c, w->eig, mf))
  {
    c.skip("LOBPCG may refuse in parallel");
    return false;
  }
  w->fill_params();
  return true;
}

// accuracy with which A R^T is known when it is computed from the agglomerates
template <int dim>
double fast_error(World<dim> const &w, CycleParams const &cp)
{
  if (!cp.fast)
    return 0.;
  return residual_bound(w.eig, w.mf, w.anorm) / (1e-12 + w.anorm);
}

template <int dim>
void case_galerkin(Ctx &c)
{
  Rng &r = c.rng;
  bool const mf = r.chance(0.35);
  std::unique_ptr<World<dim>> w;
  if (!world_for_cycle(c, w, mf, hier_spec<dim>(r, c.thorough)))
    return;
  CycleParams cp;
  cp.steps = 0;
  std::string const t = w->eig.effective(mf);
  // with exact eigenpairs the two ways to compute A R^T agree
  cp.fast = (t == "lapack" || t == "arpack") && r.chance(0.5) &&
            constraints_visible_from_every_cell(*w->p);
  set_cycle(*w, cp);
  c.label = w->describe() + describe(cp);
  CoarseRef cr;
  std::shared_ptr<Op> op;
  std::unique_ptr<mfmg::HierarchyHelpers<DVector>> h;
  if (!prepare(c, *w, cr, op, h))
    return;
  double const tol = 1e-11 * cr.cond + 1e3 * fast_error(*w, cp) * cr.cond + 1e-10;
  if (tol > 1e-3)
    return c.skip("coarse operator too ill conditioned to judge");
  // the operators
  {
    auto h2 = w->helpers();
    auto op2 = h2->get_global_operator(w->evaluator);
    std::shared_ptr<ptree const> params = w->params;
    auto rop = h2->build_restrictor(c.comm, w->evaluator, params);
    auto ap = cp.fast ? h2->fast_multiply_transpose()
                      : op2->multiply_transpose(rop);
    auto ac = rop->multiply(ap);
    GMat const got = gather(*matrix_of(ac), c.comm);
    GMat const R2 = gather(*matrix_of(rop), c.comm);
    c.check(diff_max(R2, cr.R) <= 1e-12, "restrictor-not-repeatable", c.label);
    GMat want(cr.nc, cr.nc);
    for (int j = 0; j < cr.nc; ++j)
      for (int i = 0; i < cr.nc; ++i)
        want.add(i, j, cr.Ac[j * cr.nc + i]);
    double const m = want.max_abs();
    c.below(diff_max(got, want), (1e-11 + 1e2 * fast_error(*w, cp)) *
                                     std::max(m, w->anorm),
            "coarse-operator", "R A R^T; " + c.label);
    c.below(diff_max(got, got.transpose()),
            (1e-11 + 1e2 * fast_error(*w, cp)) * std::max(m, w->anorm),
            "coarse-symmetry", c.label);
    auto x = ac->build_domain_vector();
    auto y = ac->build_range_vector();
    auto z = rop->build_range_vector();
    c.check(x->locally_owned_elements() == z->locally_owned_elements() &&
                y->locally_owned_elements() == z->locally_owned_elements(),
            "coarse-layout", c.label);
    c.obs("coarse_operators");
    c.omax("coarse_size", cr.nc);
  }
  mfmg::Hierarchy<DVector> hierarchy(c.comm, w->evaluator, w->params);
  auto b = op->build_range_vector();
  auto x = op->build_domain_vector();
  Vec const gb = random_vec(r, w->n);
  scatter(gb, *b);
  for (auto i : x->locally_owned_elements())
    (*x)(i) = 1e3 * c.local_rng.sym();
  hierarchy.vmult(*x, *b);
  Vec const want = cr.correct(gb);
  Vec const got = gather(*x, c.comm);
  double const sc = norm_inf(want) + 1e-300;
  c.below(dist_inf(got, want), tol * sc, "coarse-correction",
          "R^T (R A R^T)^{-1} R b; " + c.label);
  // a vector of the coarse space is reproduced: the correction is the
  // projection orthogonal in the energy inner product
  Vec const y = cr.R.tmul(random_vec(r, cr.R.m));
  scatter(w->A.mul(y), *b);
  hierarchy.vmult(*x, *b);
  c.below(dist_inf(gather(*x, c.comm), y), tol * (norm_inf(y) + 1e-300),
          "coarse-projection", "a coarse function is not reproduced; " + c.label);
  c.obs("corrections", 2);
  c.state(c.label);
}

// the documented cycle, from the smoother of the library (decided by C10) and
// the coarse correction of the reference
template <int dim>
Vec reference_cycle(Ctx &c, World<dim> &w, CoarseRef const &cr,
                    mfmg::Smoother<DVector> &sm, Op const &op, Vec const &gb,
                    Vec const &x0, CycleParams const &cp)
{
  auto b = op.build_range_vector();
  auto x = op.build_domain_vector();
  scatter(gb, *b);
  scatter(cp.preconditioner ? Vec(gb.size(), 0.) : x0, *x);
  for (int i = 0; i < cp.steps; ++i)
    sm.apply(*b, *x);
  Vec gx = gather(*x, c.comm);
  Vec const r = axpy(-1., w.A.mul(gx), gb);
  gx = axpy(1., cr.correct(r), gx);
  scatter(gx, *x);
  for (int i = 0; i < cp.steps; ++i)
    sm.apply(*b, *x);
  return gather(*x, c.comm);
}

// what an output vector may contain before it is written
Vec bad_vec(Rng &r, size_t n)
{
  return Vec(n, r.pick<double>({1e300, std::numeric_limits<double>::infinity(),
                                std::numeric_limits<double>::quiet_NaN()}));
}

template <int dim>
void case_cycle(Ctx &c)
{
  Rng &r = c.rng;
  bool const mf = r.chance(0.35);
  std::unique_ptr<World<dim>> w;
  if (!world_for_cycle(c, w, mf, hier_spec<dim>(r, c.thorough)))
    return;
  CycleParams cp;
  cp.steps = static_cast<int>(r.range(0, 4));
  cp.preconditioner = r.chance(0.6);
  std::string const t = w->eig.effective(mf);
  cp.fast = (t == "lapack" || t == "arpack") && r.chance(0.3) &&
            constraints_visible_from_every_cell(*w->p);
  cp.ml = !cp.fast && r.chance(0.25);
  set_cycle(*w, cp);
  c.label = w->describe() + describe(cp);
  ptree const p0 = *w->params;
  CoarseRef cr;
  std::shared_ptr<Op> op;
  std::unique_ptr<mfmg::HierarchyHelpers<DVector>> h;
  if (!prepare(c, *w, cr, op, h))
    return;
  std::shared_ptr<ptree const> cparams = w->params;
  auto sm = h->build_smoother(op, cparams);
  std::ostringstream sink;
  std::shared_ptr<dealii::TimerOutput> timer;
  if (r.chance(0.5))
    timer = std::make_shared<dealii::TimerOutput>(
        sink, dealii::TimerOutput::never, dealii::TimerOutput::wall_times);
  mfmg::Hierarchy<DVector> hierarchy(c.comm, w->evaluator, w->params, timer);
  c.check(*w->params == p0, "parameters-modified", c.label);
  double const tol = 1e-10 * cr.cond + 1e3 * fast_error(*w, cp) * cr.cond + 1e-9;
  if (tol > 1e-3)
    return c.skip("coarse operator too ill conditioned to judge");
  auto b = op->build_range_vector();
  auto x = op->build_domain_vector();
  int applied = 0;
  auto run = [&](Vec const &gb, Vec const &x0) {
    scatter(gb, *b);
    scatter(x0, *x);
    hierarchy.vmult(*x, *b);
    ++applied;
    c.check(dist_inf(gather(*b, c.comm), gb) == 0., "rhs-modified", c.label);
    c.obs("cycles");
    return gather(*x, c.comm);
  };
  Vec const b1 = random_vec(r, w->n), b2 = random_vec(r, w->n);
  Vec const g1 = random_vec(r, w->n), g2 = random_vec(r, w->n);
  Vec const m1 = run(b1, g1);
  Vec const want = reference_cycle(c, *w, cr, *sm, *op, b1, g1, cp);
  double const sc = norm_inf(want) + norm_inf(m1) + 1e-300;
  c.below(dist_inf(m1, want), tol * sc, "cycle",
          "result of the cycle; " + c.label);
  // the result only depends on the arguments
  Vec const again = run(
      b1, !cp.preconditioner ? g1 : r.chance(0.5) ? g2 : bad_vec(r, w->n));
  c.below(dist_inf(again, m1), 1e-12 * sc,
          cp.preconditioner ? "garbage-in-output" : "not-repeatable",
          "second application; " + c.label);
  // affine: linear in (b, x0)
  Vec const m2 = run(b2, g2);
  Vec const m12 =
      run(axpy(2., b1, b2), cp.preconditioner ? g1 : axpy(2., g1, g2));
  c.below(dist_inf(m12, axpy(2., m1, m2)),
          1e-9 * (norm_inf(m12) + norm_inf(m1) + norm_inf(m2)), "not-linear",
          c.label);
  // no absolute threshold: multiplying by a power of two is exact
  {
    int const e = r.pick<int>({-700, -300, -120, -60, 60, 120, 600});
    auto const times = [](Vec v, int p) {
      for (auto &y : v)
        y = std::ldexp(y, p);
      return v;
    };
    Vec const ms = times(
        run(times(b1, e), cp.preconditioner ? g2 : times(g1, e)), -e);
    c.below(dist_inf(ms, m1), 1e-9 * sc, "not-homogeneous",
            str("arguments times 2^", e, "; ", c.label));
  }
  // nothing to do: a right-hand side of zeros
  {
    Vec const zero(w->n, 0.);
    Vec const g = cp.preconditioner && r.chance(0.5) ? bad_vec(r, w->n) : g2;
    Vec const mz = run(zero, g);
    Vec const wz = reference_cycle(c, *w, cr, *sm, *op, zero,
                                   cp.preconditioner ? zero : g, cp);
    c.below(dist_inf(mz, wz),
            cp.preconditioner ? 0. : tol * (norm_inf(g) + norm_inf(wz)),
            "zero-rhs", "right-hand side of zeros; " + c.label);
    c.obs("zero_rhs");
  }
  if (timer)
  {
    auto const calls =
        timer->get_summary_data(dealii::TimerOutput::n_calls);
    auto const count = [&](char const *k) {
      auto it = calls.find(k);
      return it == calls.end() ? 0. : it->second;
    };
    c.check(count("Setup") == 1. && count("Apply") == applied, "timer",
            str("Setup entered ", count("Setup"), " times, Apply ",
                count("Apply"), " times in ", applied, " applications; ",
                c.label));
    c.obs("timers");
  }
  // apply() is vmult() with the arguments exchanged
  scatter(b1, *b);
  scatter(g1, *x);
  hierarchy.apply(*b, *x);
  c.below(dist_inf(gather(*x, c.comm), m1), 1e-12 * sc, "apply-vmult",
          c.label);
  std::string st = cp.smoother;
  std::transform(st.begin(), st.end(), st.begin(), ::tolower);
  bool const symmetric = st != "gauss-seidel";
  if (cp.preconditioner && symmetric)
  {
    double const s12 = dot(b1, m2), s21 = dot(b2, m1);
    c.close(s12, s21, (tol + 1e-9) * (norm(b1) * norm(m2) + norm(b2) * norm(m1)),
            "not-symmetric", c.label);
    c.obs("symmetry");
    if (c.size == 1 && !mf && (st.empty() || st == "symmetric gauss-seidel") &&
        cp.steps > 0)
    {
      c.check(dot(b1, m1) > 0. && dot(b2, m2) > 0., "not-positive",
              str(dot(b1, m1), "; ", c.label));
      c.obs("positivity");
    }
  }
  c.state(c.label);
}

double energy(GMat const &A, Vec const &e) { return dot(e, A.mul(e)); }

// one level: the coarse solver is the whole hierarchy
template <int dim>
void case_one_level(Ctx &c)
{
  Rng &r = c.rng;
  Spec s = hier_spec<dim>(r, c.thorough);
  World<dim> w(c, s, false);
  if (!w.choose(2))
    return;
  w.fill_params();
  w.params->put("max levels", 1);
  bool const ml = r.chance(0.4);
  bool const prec = r.chance(0.6);
  if (ml || r.chance(0.5))
    w.params->put("coarse.type", ml ? "ml" : "direct");
    c.uses_ml = ml;
  if (!prec || r.chance(0.5))
    w.params->put("is preconditioner", prec);
  c.label = str(s.describe(dim), " one level ", ml ? "ml" : "direct",
                prec ? "" : " standalone");
  mfmg::Hierarchy<DVector> h(c.comm, w.evaluator, w.params);
  auto op = w.helpers()->get_global_operator(w.evaluator);
  auto b = op->build_range_vector();
  auto x = op->build_domain_vector();
  std::vector<double> sol =
      r.chance(0.1) ? Vec(w.n, 0.) : random_vec(r, w.n);
  Vec const gb = w.A.mul(sol);
  scatter(gb, *b);
  Vec const g = random_vec(r, w.n);
  scatter(g, *x);
  h.vmult(*x, *b);
  c.obs("one_level");
  if (!ml)
  {
    Vec const res = axpy(-1., w.A.mul(gather(*x, c.comm)), gb);
    c.below(norm(res), 1e-9 * norm(gb), "one-level-direct", c.label);
  }
  else if (prec)
  {
    Vec const m1 = gather(*x, c.comm);
    scatter(r.chance(0.5) ? random_vec(r, w.n) : bad_vec(r, w.n), *x);
    h.vmult(*x, *b);
    c.below(dist_inf(gather(*x, c.comm), m1), 1e-10 * norm_inf(m1),
            "garbage-in-output", c.label);
  }
  else
  {
    // the solution is a fixed point of the stand-alone cycle
    Vec gx = gather(*x, c.comm);
    scatter(sol, *x);
    h.vmult(*x, *b);
    c.below(dist_inf(gather(*x, c.comm), sol), 1e-7 * norm_inf(sol),
            "one-level-fixed-point", c.label);
    // the result is the sum of what the guess and the right-hand side give
    scatter(Vec(w.n, 0.), *x);
    h.vmult(*x, *b);
    Vec const from_b = gather(*x, c.comm);
    auto zero = op->build_range_vector();
    scatter(g, *x);
    h.vmult(*x, *zero);
    c.below(dist_inf(axpy(1., from_b, gather(*x, c.comm)), gx),
            1e-9 * (norm_inf(g) + norm_inf(from_b) + norm_inf(gx)),
            "one-level-not-affine", c.label);
    // and the iteration goes on from where it is
    scatter(gx, *x);
    double const e0 = energy(w.A, axpy(-1., sol, g));
    double e = energy(w.A, axpy(-1., sol, gx));
    for (int it = 0; it < 8; ++it)
    {
      h.vmult(*x, *b);
      gx = gather(*x, c.comm);
      double const e1 = energy(w.A, axpy(-1., sol, gx));
      // (on more processors the sweeps of ML need not contract)
      c.check(c.size > 1 || e1 <= e * (1. + 1e-8) + 1e-18 * e0,
              "one-level-energy-increases",
              str("step ", it, ": ", e, " to ", e1, "; ", c.label));
      c.obs("ml_iterations");
      e = e1;
    }
    c.omax("ml_contraction_per_9_cycles", std::sqrt(e / e0));
  }
  c.state(c.label);
}

// ------------------------------------------------------------------- C13

template <int dim>
void case_standalone(Ctx &c)
{
  Rng &r = c.rng;
  bool const mf = r.chance(0.3);
  std::unique_ptr<World<dim>> w;
  if (!world_for_cycle(c, w, mf, hier_spec<dim>(r, c.thorough)))
    return;
  CycleParams cp;
  cp.steps = static_cast<int>(r.range(1, 3));
  cp.preconditioner = false;
  cp.ml = r.chance(0.25);
  set_cycle(*w, cp);
  if (w->mf)
    w->params->put("smoother.degree", r.range(1, 4));
  c.label = w->describe() + describe(cp);
  CoarseRef cr;
  std::shared_ptr<Op> op;
  std::unique_ptr<mfmg::HierarchyHelpers<DVector>> h;
  if (!prepare(c, *w, cr, op, h))
    return;
  mfmg::Hierarchy<DVector> hierarchy(c.comm, w->evaluator, w->params);
  auto b = op->build_range_vector();
  auto x = op->build_domain_vector();
  Vec const sol = r.chance(0.1) ? Vec(w->n, 0.) : random_vec(r, w->n);
  Vec const gb = w->A.mul(sol);
  scatter(gb, *b);
  scatter(sol, *x);
  hierarchy.vmult(*x, *b);
  c.below(dist_inf(gather(*x, c.comm), sol), 1e-8 * (1. + norm_inf(sol)),
          "fixed-point", "the solution is moved by the cycle; " + c.label);
  c.obs("fixed_points");
  std::string st = cp.smoother;
  std::transform(st.begin(), st.end(), st.begin(), ::tolower);
  bool const convergent =
      !mf && c.size == 1 &&
      (st.empty() || st == "symmetric gauss-seidel" || st == "gauss-seidel");
  // errors decrease in the energy norm, starting from any initial guess
  Vec gx = random_vec(r, w->n);
  // the iteration is affine, far away from the solution, too
  {
    double const scale = r.pick<double>({1., 1e-8, 1e6, 1e10, 1e14});
    Vec const d = random_vec(r, w->n);
    scatter(gx, *x);
    hierarchy.vmult(*x, *b);
    Vec const y1 = gather(*x, c.comm);
    scatter(axpy(scale, d, gx), *x);
    hierarchy.vmult(*x, *b);
    Vec const y2 = gather(*x, c.comm);
    auto zero = op->build_range_vector();
    *zero = 0.;
    scatter(d, *x);
    hierarchy.vmult(*x, *zero);
    Vec const yd = gather(*x, c.comm);
    c.below(dist_inf(y2, axpy(scale, yd, y1)),
            1e-7 * (scale * norm_inf(d) + norm_inf(gx) + norm_inf(sol) +
                    norm_inf(y1)),
            "not-affine",
            str("cycle of an initial guess moved by ", scale, " times a vector; ",
                c.label));
    c.obs("affinity");
    if (r.chance(0.3))
      gx = axpy(scale, d, gx);
  }
  if (r.chance(0.3))
    gx.assign(w->n, 0.);
  scatter(gx, *x);
  double e = energy(w->A, axpy(-1., sol, gx));
  double const e_start = e;
  for (int it = 0; it < 8; ++it)
  {
    hierarchy.vmult(*x, *b);
    gx = gather(*x, c.comm);
    double const e1 = energy(w->A, axpy(-1., sol, gx));
    c.obs("iterations");
    if (convergent)
    {
      c.check(e1 <= e * (1. + 1e-8) + 1e-20 * e_start, "energy-increases",
              str("step ", it, ": ", e, " to ", e1, "; ", c.label));
      c.obs("contractions");
    }
    // after a cycle without post-smoothing error the coarse space sees none:
    // checked by C06
    e = e1;
  }
  if (convergent && e > 1e-18 * e_start)
    c.omax("contraction_per_8_cycles", std::sqrt(e / e_start));
  c.state(c.label);
}

// ------------------------------------------------------------------- C14
template <int dim>
void case_convergence(Ctx &c)
{
  Rng &r = c.rng;
  bool const mf = r.chance(0.3);
  Spec s = hier_spec<dim>(r, c.thorough);
  s.distort = std::min(s.distort, 0.1);
  std::unique_ptr<World<dim>> w;
  if (!world_for_cycle(c, w, mf, s))
    return;
  CycleParams cp;
  cp.steps = static_cast<int>(r.range(1, 2));
  if (r.chance(0.3) && w->eig.effective(mf) != "lanczos" &&
      w->eig.effective(mf) != "anasazi" &&
      constraints_visible_from_every_cell(*w->p))
    cp.fast = true;
  set_cycle(*w, cp);
  w->params->put("smoother.type",
                 mf ? "Chebyshev" : "Symmetric Gauss-Seidel");
  if (mf)
    w->params->put("smoother.degree", 2);
  c.label = w->describe() + describe(cp);
  CoarseRef cr;
  std::shared_ptr<Op> op;
  std::unique_ptr<mfmg::HierarchyHelpers<DVector>> h;
  if (!prepare(c, *w, cr, op, h))
    return;
  mfmg::Hierarchy<DVector> hierarchy(c.comm, w->evaluator, w->params);
  auto b = op->build_range_vector();
  auto x = op->build_domain_vector();
  Vec sol = random_vec(r, w->n);
  Vec const gb = w->A.mul(sol);
  scatter(gb, *b);
  *x = 0.;
  // conjugate gradients preconditioned by the hierarchy, as a user does
  struct Wrap
  {
    Op const &op;
    void vmult(DVector &y, DVector const &x) const { op.apply(x, y); }
  } const wrap{*op};
  double const bn = b->l2_norm();
  dealii::SolverControl control(200, 1e-9 * bn);
  dealii::SolverCG<DVector> cg(control);
  bool failed = false;
  std::string why;
  try
  {
    cg.solve(wrap, *x, *b, hierarchy);
  }
  catch (std::exception const &e)
  {
    failed = true;
    why = str("no convergence in ", control.last_step(), " steps, residual ",
              control.last_value() / bn);
  }
  c.check(!failed, "cg-diverges", why + "; " + c.label);
  if (!failed)
  {
    c.omax("cg_iterations", control.last_step());
    c.below(control.last_step(), 100, "cg-iterations", c.label);
    Vec const res = axpy(-1., w->A.mul(gather(*x, c.comm)), gb);
    c.below(norm(res), 2e-9 * norm(gb), "cg-residual", c.label);
  }
  c.obs("solves");
  c.state(c.label);
}

// ------------------------------------------------------------------- C15
template <int dim>
void case_equivalence(Ctx &c)
{
  Rng &r = c.rng;
  Spec s = hier_spec<dim>(r, c.thorough);
  World<dim> a(c, s, false);
  if (!a.choose(3))
    return;
  a.eig.type = "lanczos";
  a.eig.guess = false;
  a.eig.deflated = r.chance(0.3);
  a.eig.cycles = 2;
  a.eig.per_cycle = static_cast<int>((a.eig.k + 1) / 2);
  a.eig.tol = 1e-4;
  a.eig.defaults = false;
  World<dim> b(c, s, true);
  b.agg = a.agg;
  b.eig = a.eig;
  a.fill_params();
  b.fill_params();
  bool const fast =
      r.chance(0.4) && constraints_visible_from_every_cell(*a.p);
  if (fast)
  {
    a.params->put("fast_ap", true);
    b.params->put("fast_ap", true);
  }
  c.label = a.describe() + (fast ? " fast_ap" : "");
  // same problem: the operators agree on the unconstrained dofs
  auto ha = a.helpers(), hb = b.helpers();
  auto oa = ha->get_global_operator(a.evaluator),
       ob = hb->get_global_operator(b.evaluator);
  bool ok;
  auto ra = build_restrictor(c, a, *ha, ok), rb = build_restrictor(c, b, *hb, ok);
  GMat const Ra = gather(*matrix_of(ra), c.comm),
             Rb = gather(*matrix_of(rb), c.comm);
  if (!c.check(Ra.m == Rb.m && Ra.n == Rb.n, "size", c.label))
    return;
  // both compute approximate eigenvectors from the same starting vector; the
  // spaces they span agree up to the accuracy which was asked for, unless an
  // eigenvalue is (nearly) multiple
  unsigned na = 0;
  for (auto const &cell : a.p->dofs.active_cell_iterators())
    if (cell->is_locally_owned())
      na = std::max(na, static_cast<unsigned>(cell->user_index()));
  double gap = 1e300, span = 0;
  for (auto const &L : a.local_refs(na))
  {
    auto const d = dense_eig(L);
    for (size_t i = 0; i <= a.eig.k && i + 1 < d.w.size(); ++i)
      gap = std::min(gap, d.w[i + 1] - d.w[i]);
    span = std::max(span, d.w.back() - d.w.front());
  }
  MPI_Allreduce(MPI_IN_PLACE, &gap, 1, MPI_DOUBLE, MPI_MIN, c.comm);
  MPI_Allreduce(MPI_IN_PLACE, &span, 1, MPI_DOUBLE, MPI_MAX, c.comm);
  double const bound = residual_bound(a.eig, true, span);
  double const tol = 10. * bound / gap + 1e-9;
  if (tol > 0.05)
    return c.skip("nearly multiple eigenvalue");
  size_t row = matrix_of(ra)->local_range().first;
  bool all_same = true;
  for (auto const &L : a.local_refs(na))
  {
    auto const va = agglomerate_rows(c, a, Ra, L, row);
    auto const vb = agglomerate_rows(c, b, Rb, L, row);
    for (unsigned q = 0; q < a.eig.k; ++q)
    {
      double same = 0, flip = 0, m = 0;
      for (size_t j = 0; j < va[q].size(); ++j)
      {
        same = std::max(same, std::abs(va[q][j] - vb[q][j]));
        flip = std::max(flip, std::abs(va[q][j] + vb[q][j]));
        m = std::max(m, std::abs(va[q][j]));
      }
      double const d = std::min(same, flip);
      double const qa = dot(va[q], L.mul(va[q])) / dot(va[q], va[q]);
      double const qb = dot(vb[q], L.mul(vb[q])) / dot(vb[q], vb[q]);
      // rounding decides in which step Lanczos finds a further eigenvalue: both
      // rows are eigenvectors, but not of the same eigenvalue
      if (q > 0 && d > tol + 0.01 * m && std::abs(qa - qb) > 0.5 * gap)
      {
        double const ra_ = norm(axpy(-qb, vb[q], L.mul(vb[q])));
        c.below(ra_, 4. * bound * norm(vb[q]), "row-residual",
                str("row ", row + q, "; ", c.label));
        c.obs("other_eigenvalue");
        all_same = false;
        continue;
      }
      c.below(d, tol + 0.01 * m, "rows", str("row ", row + q, "; ", c.label));
      c.obs("rows");
    }
    row += a.eig.k;
  }
  {
    int flag = all_same;
    MPI_Allreduce(MPI_IN_PLACE, &flag, 1, MPI_INT, MPI_MIN, c.comm);
    all_same = flag;
  }
  if (!all_same)
    return;
  // the coarse corrections agree, unless the restrictor reaches a constrained
  // dof, where the operators of the two modes may differ
  bool const visible = constraints_visible_from_every_cell(*a.p);
  CoarseRef const ca = make_coarse(Ra, a.A), cb = make_coarse(Rb, b.A);
  auto vec = oa->build_domain_vector();
  if (visible && ca.cond < 1e6)
  {
    a.params->put("smoother.n_smoothing_steps", 0);
    b.params->put("smoother.n_smoothing_steps", 0);
    mfmg::Hierarchy<DVector> Ha(c.comm, a.evaluator, a.params);
    mfmg::Hierarchy<DVector> Hb(c.comm, b.evaluator, b.params);
    // u in the coarse space of the first hierarchy, which gives it back, or
    // any u; the difference is relative to u, for its correction can be small
    Vec z = random_vec(r, Ra.m);
    Vec u = Ra.tmul(z);
    double best = 1e300;
    if (r.chance(0.3))
      u = axpy(1., random_vec(r, a.n), u);
    else
    {
      // what the second one returns is, of all vectors of its coarse space,
      // the closest one to u
      Vec sign(Ra.m, 0.);
      for (size_t i = 0; i < Ra.m; ++i)
      {
        double same = 0.;
        for (auto const &e : Ra.r[i])
          same += e.second * Rb.el(i, e.first);
        sign[i] = same < 0. ? -z[i] : z[i];
      }
      best = std::sqrt(std::max(0., energy(a.A, axpy(-1., Rb.tmul(sign), u))));
    }
    double const nu = energy(a.A, u);
    auto rhs = oa->build_range_vector();
    auto xa = oa->build_domain_vector(), xb = oa->build_domain_vector();
    scatter(a.A.mul(u), *rhs);
    Ha.vmult(*xa, *rhs);
    Hb.vmult(*xb, *rhs);
    Vec const ya = gather(*xa, c.comm), yb = gather(*xb, c.comm);
    Vec const d = axpy(-1., ya, yb);
    // the energy of the difference
    if (nu > 0.)
      c.below(std::sqrt(std::max(0., energy(a.A, d)) / nu),
              std::min(20. * tol * std::sqrt(ca.cond) +
                           0.02 * std::sqrt(ca.cond) + 1e-9,
                       fast ? 1e300 : 1.5 * best / std::sqrt(nu) + 1e-6),
              "coarse-correction", c.label);
    c.obs("corrections");
  }
  c.check(b.monitor->overlapping_clone_use == 0 && b.monitor->bad_size == 0 &&
              b.monitor->uninitialised_use == 0,
          "evaluator-misuse", c.label);
  c.obs("clones", double(b.monitor->clones.load()));
  c.state(c.label);
}

// ------------------------------------------------------------------- C16
template <int dim>
void case_threads(Ctx &c)
{
  Rng &r = c.rng;
  // The Fortran eigensolvers are shared by the threads: let them collide
  bool const collide = r.chance(0.35);
  bool const mf = !collide && r.chance(0.4);
  Spec s = hier_spec<dim>(r, c.thorough);
  World<dim> w(c, s, mf);
  if (!w.choose(3))
    return;
  w.eig.guess = false;
  if (collide)
    w.eig.type = r.pick<std::string>({"", "arpack", "arpack", "lapack"});
  if (!anasazi_possible(c, w.eig, mf))
    return c.skip("LOBPCG may refuse in parallel");
  w.fill_params();
  bool const fast = r.chance(0.5);
  if (fast)
    w.params->put("fast_ap", true);
  bool const visible = constraints_visible_from_every_cell(*w.p);
  c.label = w.describe() + (fast ? " fast_ap" : "");
  unsigned const na = w.build_agglomerates();
  std::vector<unsigned> flags;
  for (auto const &cell : w.p->dofs.active_cell_iterators())
    flags.push_back(cell->user_index());
  auto build = [&](unsigned threads, unsigned delay, bool preempt, GMat &R,
                   GMat &AP) {
    {
      std::lock_guard<std::mutex> lock(w.monitor->tids_mutex);
      w.monitor->tids.clear();
    }
    std::unique_ptr<Preempter> preempter;
    if (preempt)
      preempter = std::make_unique<Preempter>(w.monitor, r.next());
    dealii::MultithreadInfo::set_thread_limit(threads);
    w.monitor->delay_us = delay;
    w.monitor->delay_seed = r.next();
    auto h = w.helpers();
    auto op = h->get_global_operator(w.evaluator);
    long const calls = w.monitor->agg_calls.load();
    bool ok;
    auto rop = build_restrictor(c, w, *h, ok);
    if (preempter)
      c.obs("preemptions", preempter->preemptions());
    preempter.reset();
    dealii::MultithreadInfo::set_thread_limit(1);
    if (!ok)
      return false;
    R = gather(*matrix_of(rop), c.comm);
    auto ap = fast ? h->fast_multiply_transpose() : op->multiply_transpose(rop);
    AP = gather(*matrix_of(ap), c.comm);
    if (!fast)
      c.check(w.monitor->agg_calls.load() - calls == static_cast<long>(na),
              "agglomerate-evaluations",
              str(w.monitor->agg_calls.load() - calls, " evaluations for ", na,
                  " agglomerates; ", c.label));
    return true;
  };
  GMat R1, AP1;
  if (!build(1, 0, false, R1, AP1))
    return c.skip("LOBPCG did not converge");
  // The results may differ like the roundoff of the dense kernels does: every
  // schedule has to give local eigenpairs, and the same ones where they are
  // well conditioned.
  auto const refs = w.local_refs(na);
  unsigned long mine = static_cast<unsigned long>(na) * w.eig.k, before = 0;
  MPI_Exscan(&mine, &before, 1, MPI_UNSIGNED_LONG, MPI_SUM, c.comm);
  if (c.rank == 0)
    before = 0;
  double const bound = residual_bound(w.eig, mf, w.anorm);
  std::vector<double> slack(na, -1.);
  for (unsigned a = 0; a < na; ++a)
  {
    auto const d = dense_eig(refs[a]);
    double gap = 1e300;
    for (unsigned i = 0; i < w.eig.k && i + 1 < d.w.size(); ++i)
      gap = std::min(gap, d.w[i + 1] - d.w[i]);
    if (20. * bound / gap < 0.1)
      slack[a] = 1e-9 + 20. * bound / gap;
  }
  for (int q = 0; q < (c.thorough ? 6 : 3) * (collide ? 2 : 1); ++q)
  {
    GMat R, AP;
    unsigned const threads = collide ? 8 : r.pick<unsigned>({2, 3, 4, 8});
    unsigned const delay =
        collide ? 20 * (q % 2) : r.pick<unsigned>({0, 50, 400, 2000});
    w.monitor->max_inside = 0;
    bool preempt = r.chance(0.7);
#ifdef VF_TSAN
    // no schedule is needed to see a race
    preempt = false;
    if (q > 0)
      break;
#endif
    if (!c.check(build(threads, delay, preempt, R, AP), "refused-with-threads", c.label))
      return;
    std::string const how =
        str("with ", threads, " threads and delay ", delay,
            preempt ? " and preemptions; " : "; ", c.label);
    if (!c.check(R.m == R1.m && R.n == R1.n && before + mine <= R.m,
                 "restrictor-size-schedule", how))
      return;
    for (unsigned a = 0; a < na; ++a)
    {
      size_t const row = before + a * w.eig.k;
      std::vector<Vec> const vs = agglomerate_rows(c, w, R, refs[a], row);
      check_eigenpairs(c, refs[a], vs, {}, w.eig, mf,
                       str("rows of agglomerate ", a + 1, " ", how));
      if (slack[a] < 0.)
        continue;
      for (unsigned k = 0; k < w.eig.k; ++k)
      {
        double plus = 0., minus = 0.;
        for (auto const &d : refs[a].dofs)
        {
          double const x = R.el(row + k, d), y = R1.el(row + k, d);
          minus = std::max(minus, std::abs(x - y));
          plus = std::max(plus, std::abs(x + y));
        }
        c.below(std::min(minus, plus), slack[a], "restrictor-schedule",
                str("row ", row + k, " differs ", how));
        // the column of A R^T which belongs to it
        if (!fast)
          continue;
        double const sign = minus <= plus ? -1. : 1.;
        double diff = 0.;
        for (size_t i = 0; i < w.n; ++i)
          diff = std::max(diff, std::abs(AP.el(i, row + k) +
                                         sign * AP1.el(i, row + k)));
        c.below(diff, 20. * slack[a] * w.anorm, "ap-column-schedule",
                str("column ", row + k, " of A R^T differs ", how));
      }
      c.obs("agglomerates_compared");
    }
    GMat const want = fast ? w.A.mul(R.transpose()) : GMat();
    if (fast && visible)
      c.below(diff_max(AP, want), 4. * bound + 1e-9 * w.anorm, "ap-schedule",
              "A R^T " + how);
    c.omax("concurrent_evaluations", double(w.monitor->max_inside.load()));
    c.obs("schedules");
    if (w.monitor->max_inside.load() > 1)
      c.obs("concurrent_schedules");
    c.state(str(c.idx, " ", threads, " ", delay, " ",
                w.monitor->max_inside.load()));
  }
  w.monitor->delay_us = 0;
  c.check(w.monitor->overlapping_clone_use == 0, "clone-shared",
          "a clone of the evaluator is used by two threads; " + c.label);
  c.check(w.monitor->bad_size == 0 && w.monitor->uninitialised_use == 0,
          "evaluator-misuse", c.label);
  // the agglomerates did not change
  size_t i = 0;
  bool same = true;
  for (auto const &cell : w.p->dofs.active_cell_iterators())
    same = same && cell->user_index() == flags[i++];
  c.check(same, "agglomerates-changed", c.label);
}

// ------------------------------------------------------------------- C17
template <int dim>
void case_rebuild(Ctx &c)
{
  Rng &r = c.rng;
  bool const mf = r.chance(0.4);
  Spec s = hier_spec<dim>(r, c.thorough, 60);
  World<dim> w(c, s, mf);
  if (!w.choose(2))
    return;
  w.eig.guess = false;
  if (w.eig.effective(mf) == "anasazi")
    w.eig.type = "lanczos", w.eig.tol = 1e-4, w.eig.defaults = false;
  w.fill_params();
  CycleParams cp;
  cp.steps = static_cast<int>(r.range(0, 2));
  cp.fast =
      r.chance(0.3) && (w.eig.type == "lapack" ||
                        w.eig.effective(mf) == "arpack") &&
      constraints_visible_from_every_cell(*w.p);
  set_cycle(w, cp);
  c.label = w.describe() + describe(cp);
  ptree const p0 = *w.params;
  Vec const gb = random_vec(r, w.n);
  auto op = w.helpers()->get_global_operator(w.evaluator);
  auto b = op->build_range_vector();
  auto x = op->build_domain_vector();
  auto solve = [&](mfmg::Hierarchy<DVector> const &h) {
    scatter(gb, *b);
    *x = 0.;
    h.vmult(*x, *b);
    c.obs("applications");
    return gather(*x, c.comm);
  };
  mfmg::Hierarchy<DVector> first(c.comm, w.evaluator, w.params);
  Vec const ref = solve(first);
  double const sc = norm_inf(ref) + 1e-300;
  // the hierarchy is the one of its operator, by the formula of the cycle
  auto formula = [&](Vec const &got, char const *when) {
    CoarseRef cr;
    std::shared_ptr<Op> o;
    std::unique_ptr<mfmg::HierarchyHelpers<DVector>> h;
    bool const ok = prepare(c, w, cr, o, h);
    c.skip_reason.clear();
    double const tol =
        1e-10 * cr.cond + 1e3 * fast_error(w, cp) * cr.cond + 1e-9;
    if (!ok || tol > 1e-3)
      return;
    std::shared_ptr<ptree const> cparams = w.params;
    auto sm = h->build_smoother(o, cparams);
    Vec const want = reference_cycle(c, w, cr, *sm, *o, gb,
                                     Vec(gb.size(), 0.), cp);
    c.below(dist_inf(got, want), tol * (norm_inf(want) + norm_inf(got)),
            "formula", str(when, "; ", c.label));
    c.obs("formulas");
  };
  if (r.chance(0.4))
    formula(ref, "the first hierarchy");
  // anything may happen to the same dof handler in between
  std::vector<std::unique_ptr<mfmg::Hierarchy<DVector>>> others;
  int const ops = static_cast<int>(r.range(1, 4));
  std::string prog;
  for (int q = 0; q < ops; ++q)
  {
    int const kind = static_cast<int>(r.range(0, 4));
    prog += str(" ", kind);
    if (kind == 4)
    {
      // a hierarchy with other agglomerates, or fewer eigenvectors: in parallel
      // a refusal would block the other ranks
      auto p2 = std::make_shared<ptree>(*w.params);
      AggParams const other = random_agg(r, *w.p, false);
      if (c.size == 1)
        p2->put_child("agglomeration", other.p);
      // the contract of ARPACK requires agglomerates of more than four dofs
      if (c.variant == "debug" && c.size == 1 &&
          w.eig.effective(mf) == "arpack")
        p2->put("eigensolver.type", "lapack");
      p2->put("eigensolver.number of eigenvectors", 1);
      p2->erase("fast_ap");
      if (r.chance(0.5))
        p2->put("smoother.n_smoothing_steps", 0);
      try
      {
        others.emplace_back(
            new mfmg::Hierarchy<DVector>(c.comm, w.evaluator, p2));
        solve(*others.back());
      }
      catch (std::exception const &e)
      {
        // agglomerates can be too small for the eigensolver
        if (c.size > 1)
          throw;
        c.obs("other-agglomerates-refused");
      }
    }
    else if (kind == 0)
    {
      AggParams const other = random_agg(r, *w.p, true);
      mfmg::AMGe<dim, DVector> amge(c.comm, w.p->dofs);
      amge.build_agglomerates(other.p);
    }
    else if (kind == 1)
    {
      auto p2 = std::make_shared<ptree>(*w.params);
      p2->put("smoother.n_smoothing_steps", 2);
      others.emplace_back(
          new mfmg::Hierarchy<DVector>(c.comm, w.evaluator, p2));
      solve(*others.back());
    }
    else if (kind == 2)
    {
      scatter(random_vec(r, w.n), *b);
      first.vmult(*x, *b);
    }
    else
    {
      mfmg::AMGe<dim, DVector> amge(c.comm, w.p->dofs);
      amge.build_agglomerates(w.agg.p);
      amge.build_boundary_agglomerates();
    }
    // the hierarchy which exists is not affected
    c.below(dist_inf(solve(first), ref), 1e-12 * sc, "hierarchy-changes",
            str("after", prog, "; ", c.label));
  }
  mfmg::Hierarchy<DVector> second(c.comm, w.evaluator, w.params);
  c.below(dist_inf(solve(second), ref), 1e-11 * sc, "rebuild",
          str("a hierarchy built again differs, after", prog, "; ", c.label));
  c.check(*w.params == p0, "parameters-modified", c.label);
  c.below(diff_max(gather(w.p->matrix, c.comm),
                   mf ? gather(w.p->matrix, c.comm) : w.A),
          0., "operator-modified", c.label);
  c.obs("rebuilds");
  c.state(c.label + prog);

  // the operator changes behind the same evaluator: a hierarchy built now is
  // the one of a new evaluator
  auto fresh = [&](Problem<dim> &p) -> std::shared_ptr<mfmg::MeshEvaluator>
  {
    if (mf)
      return std::make_shared<MFEval<dim>>(p);
    return std::make_shared<MatEval<dim>>(p);
  };
  auto update = [&]()
  {
    if (mf)
      std::dynamic_pointer_cast<MFEval<dim>>(w.evaluator)->update();
  };
  if (r.chance(0.5))
  {
    w.p->change_operator(r);
    update();
    if (!mf)
      c.below(dist_inf(solve(first), ref), 1e-12 * sc, "hierarchy-changes",
              str("after the operator changed; ", c.label));
    mfmg::Hierarchy<DVector> again(c.comm, w.evaluator, w.params);
    mfmg::Hierarchy<DVector> clean(c.comm, fresh(*w.p), w.params);
    Vec const want = solve(clean);
    c.below(dist_inf(solve(again), want), 1e-11 * (norm_inf(want) + 1e-300),
            "stale-operator",
            str("after the operator changed; ", c.label));
    if (r.chance(0.6))
    {
      w.make_evaluator();
      formula(solve(again), "after the operator changed");
    }
    c.obs("operator-changes");
  }
  // the mesh is refined behind the same evaluator
  else if (r.chance(0.6) && s.distort == 0. && dim == 2)
  {
    Problem<dim> p2(s, c.comm);
    w.p->refine_once();
    p2.refine_once();
    update();
    auto ev2 = fresh(p2);
    mfmg::Hierarchy<DVector> again(c.comm, w.evaluator, w.params);
    mfmg::Hierarchy<DVector> clean(c.comm, ev2, w.params);
    auto op2 = w.helpers()->get_global_operator(ev2);
    Vec const gb2 = random_vec(r, w.p->dofs.n_dofs());
    auto apply = [&](mfmg::Hierarchy<DVector> const &h)
    {
      auto b2 = op2->build_range_vector();
      auto x2 = op2->build_domain_vector();
      scatter(gb2, *b2);
      *x2 = 0.;
      h.vmult(*x2, *b2);
      return gather(*x2, c.comm);
    };
    Vec const want = apply(clean);
    c.below(dist_inf(apply(again), want), 1e-11 * (norm_inf(want) + 1e-300),
            "stale-mesh", str("after the mesh was refined; ", c.label));
    c.obs("mesh-changes");
  }
}

// ------------------------------------------------------------------- C23
template <int dim>
void case_refusals(Ctx &c)
{
  Rng &r = c.rng;
  Spec s;
  s.seed = r.next();
  s.mesh = "box";
  s.refine = 1;
  s.reps = {{3, 2, dim == 3 ? 2u : 1u}};
  bool const mf = r.chance(0.5);
  World<dim> w(c, s, mf);
  w.agg.type = "block";
  w.agg.p.put("partitioner", "block");
  for (auto k : {"nx", "ny", "nz"})
    w.agg.p.put(k, 3);
  w.eig.type = "lanczos";
  w.eig.tol = 1e-3;
  w.eig.defaults = false;
  w.fill_params();
  std::string junk;
  for (int i = 0; i < static_cast<int>(r.range(1, 8)); ++i)
    junk += static_cast<char>('a' + r.range(0, 25));
  junk = "q" + junk;
  auto throws = [&](std::string const &what, std::function<void()> f) {
    bool t = false;
    std::string msg;
    try
    {
      f();
    }
    catch (std::exception const &e)
    {
      t = true;
      msg = e.what();
    }
    c.check(t, "accepted-" + what,
            str(what, " is accepted silently (", junk, ")", mf ? " mf" : ""));
    c.obs("refused_" + what, t);
  };
  std::shared_ptr<ptree> p(new ptree(*w.params));
  auto hierarchy = [&] {
    mfmg::Hierarchy<DVector> h(c.comm, w.evaluator, p);
  };
  hierarchy(); // the configuration is valid before it is broken
  c.obs("accepted");
  int const kind = static_cast<int>(r.range(0, 12));
  c.label = str("kind ", kind, " ", junk, mf ? " mf" : "");
  switch (kind)
  {
  case 0:
    p->put("agglomeration.partitioner", junk);
    throws("partitioner", hierarchy);
    break;
  case 1:
    p->put("smoother.type", junk);
    throws("smoother", hierarchy);
    break;
  case 2:
    p->put("coarse.type", junk);
    throws("coarse-solver", hierarchy);
    break;
  case 3:
    p->put("eigensolver.type", junk);
    // (an empty coarse space must not get through with a tolerant coarse solver)
    c.uses_ml = r.chance(0.5);
    if (c.uses_ml)
      p->put("coarse.type", "ml");
    throws("eigensolver", hierarchy);
    throws("eigensolver-restrictor", [&] {
      std::shared_ptr<ptree const> cp = p;
      w.helpers()->build_restrictor(c.comm, w.evaluator, cp);
    });
    break;
  case 4:
    if (mf)
    {
      p->put("eigensolver.type", r.pick<std::string>({"arpack", "lapack"}));
      throws("matrix-free-eigensolver", hierarchy);
    }
    else
    {
      p->put("smoother.type", "Chebyshev");
      throws("matrix-chebyshev", hierarchy);
    }
    break;
  case 5:
    p->erase("eigensolver");
    throws("missing-eigensolver", hierarchy);
    break;
  case 6:
    p->erase("agglomeration");
    throws("missing-agglomeration", hierarchy);
    break;
  case 7:
  {
    struct Unknown : mfmg::MeshEvaluator
    {
      int get_dim() const override { return 2; }
      std::string get_mesh_evaluator_type() const override { return t; }
      std::string t;
    };
    auto e = std::make_shared<Unknown>();
    e->t = junk;
    std::shared_ptr<mfmg::MeshEvaluator const> ce = e;
    throws("evaluator",
           [&] { mfmg::create_hierarchy_helpers<DVector>(ce); });
    break;
  }
  case 8:
    p->put("max levels", r.pick<int>({0, -1, -3}));
    throws("number-of-levels", hierarchy);
    break;
  case 9:
    p->put("max levels", r.range(3, 5));
    throws("many-levels", hierarchy);
    break;
  case 10:
  {
    // more eigenvectors than an agglomerate has degrees of freedom
    if (!mf)
      p->put("eigensolver.type",
             r.pick<std::string>({"lanczos", "lapack", "arpack"}));
    p->put("eigensolver.number of eigenvectors", r.range(40, 60) * (dim == 3 ? 8 : 1));
    throws("eigenvectors", hierarchy);
    break;
  }
  case 11:
    p->put("agglomeration.partitioner", "block");
    p->erase("agglomeration");
    p->put("agglomeration.partitioner", r.pick<std::string>({"zoltan", "metis"}));
    throws("missing-agglomeration-parameter", hierarchy);
    break;
  case 12:
    if (mf)
    {
      // there is no coarse solver for an operator without a matrix
      p->put("max levels", 1);
      throws("matrix-free-coarse-solver", hierarchy);
    }
    else
    {
      p->put("coarse.type", "Amg4Psblas");
      throws("coarse-solver", hierarchy);
    }
    break;
  }
  c.state(c.label);
}

// ------------------------------------------------------------------- C28
template <int dim>
void case_scaling(Ctx &c)
{
  Rng &r = c.rng;
  Spec s = hier_spec<dim>(r, c.thorough);
  double f = r.pick<double>({1e-9, 1e-6, 1e-3, 1e-2, 1e2, 1e3, 1e6, 1e9});
  World<dim> a(c, s, false);
  if (!a.choose(2))
    return;
  a.eig.type = r.pick<std::string>({"", "arpack", "lapack"});
  a.eig.tol = 1e-13;
  a.eig.defaults = false;
  a.eig.deflated = a.eig.guess = false;
  // (ARPACK stops early when the eigenvalues of the inverse are below its
  // eps^(2/3))
  if (a.eig.type == "lapack" && r.chance(0.5))
    f = r.pick<double>({1e-30, 1e-20, 1e-14, 1e14, 1e20, 1e30});
  Spec s2 = s;
  s2.scale = s.scale * f;
  World<dim> b(c, s2, false);
  b.agg = a.agg;
  b.eig = a.eig;
  a.fill_params();
  b.fill_params();
  for (auto *w : {&a, &b})
    w->params->put("smoother.n_smoothing_steps", 1);
  bool const fast = r.chance(0.3);
  if (fast)
    for (auto *w : {&a, &b})
      w->params->put("fast_ap", true);
  c.label = str(a.describe(), " times ", f, fast ? " fast_ap" : "");
  auto ha = a.helpers(), hb = b.helpers();
  bool ok;
  auto oa = ha->get_global_operator(a.evaluator);
  auto ob = hb->get_global_operator(b.evaluator);
  auto ra = build_restrictor(c, a, *ha, ok), rb = build_restrictor(c, b, *hb, ok);
  CoarseRef const ca = make_coarse(gather(*matrix_of(ra), c.comm), a.A);
  CoarseRef const cb = make_coarse(gather(*matrix_of(rb), c.comm), b.A);
  if (!c.check(ca.R.m == cb.R.m, "size", c.label))
    return;
  // the spectra of the agglomerates are scaled too: the coarse spaces agree,
  // unless an eigenvalue is nearly multiple
  unsigned na = 0;
  for (auto const &cell : a.p->dofs.active_cell_iterators())
    if (cell->is_locally_owned())
      na = std::max(na, static_cast<unsigned>(cell->user_index()));
  double gap = 1e300;
  auto const refs = a.local_refs(na);
  for (auto const &L : refs)
  {
    auto const d = dense_eig(L);
    if (a.eig.k < d.w.size())
      gap = std::min(gap, (d.w[a.eig.k] - d.w[a.eig.k - 1]) / d.w.back());
    // a Krylov method may miss a copy of a nearly multiple eigenvalue
    if (a.eig.effective(false) != "lapack")
      for (size_t i = 0; i <= a.eig.k && i + 1 < d.w.size(); ++i)
        if (d.w[i + 1] - d.w[i] < 1e-3 * d.w.back())
          gap = 0.;
  }
  MPI_Allreduce(MPI_IN_PLACE, &gap, 1, MPI_DOUBLE, MPI_MIN, c.comm);
  // every row stays an eigenvector of its agglomerate
  auto const refs_b = b.local_refs(na);
  size_t row = matrix_of(rb)->local_range().first;
  for (auto const &L : refs_b)
  {
    std::vector<Vec> vs;
    for (unsigned q = 0; q < a.eig.k; ++q, ++row)
    {
      Vec v(L.n(), 0.);
      for (auto const &e : cb.R.r[row])
        if (L.pos.count(e.first))
          v[L.pos.at(e.first)] = e.second /
                                 (L.diag[L.pos.at(e.first)] /
                                  b.A.el(e.first, e.first));
      vs.push_back(v);
    }
    check_eigenpairs(c, L, vs, {}, b.eig, false,
                     "of the scaled problem; " + c.label);
  }
  if (ca.cond > 1e7)
  {
    c.obs("ill_conditioned");
    return;
  }
  mfmg::Hierarchy<DVector> Ha(c.comm, a.evaluator, a.params);
  {
    // right-hand sides of every size: multiplying by a power of two is exact
    Vec const g1 = random_vec(r, a.n);
    auto b1 = oa->build_range_vector();
    auto x1 = oa->build_domain_vector();
    scatter(g1, *b1);
    Ha.vmult(*x1, *b1);
    Vec const want = gather(*x1, c.comm);
    for (int q = 0; q < 2; ++q)
    {
      int const e = r.pick<int>({-700, -300, -120, -60, -30, 30, 120, 600});
      Vec g2 = g1;
      for (auto &v : g2)
        v = std::ldexp(v, e);
      scatter(g2, *b1);
      Ha.vmult(*x1, *b1);
      Vec got = gather(*x1, c.comm);
      for (auto &v : got)
        v = std::ldexp(v, -e);
      c.below(dist_inf(got, want), 1e-9 * norm_inf(want), "rhs-not-homogeneous",
              str("right-hand side times 2^", e, "; ", c.label));
      c.obs("scaled_rhs");
    }
  }
  if (gap < 1e-5)
  {
    c.obs("multiple_eigenvalue");
    return;
  }
  mfmg::Hierarchy<DVector> Hb(c.comm, b.evaluator, b.params);
  Vec const gb = random_vec(r, a.n);
  auto rhs = oa->build_range_vector();
  auto x = oa->build_domain_vector();
  scatter(gb, *rhs);
  Ha.vmult(*x, *rhs);
  Vec const xa = gather(*x, c.comm);
  Hb.vmult(*x, *rhs);
  Vec xb = gather(*x, c.comm);
  for (auto &v : xb)
    v *= f;
  c.below(dist_inf(xa, xb), (1e-9 + 1e-10 / gap) * ca.cond * norm_inf(xa),
          "not-homogeneous", c.label);
  c.obs("scaled_pairs");
  c.state(c.label);
}
} // namespace

#define DIMS(fn)                                                               \
  [](Ctx &c) {                                                                 \
    if (c.rng.chance(0.75))                                                    \
      fn<2>(c);                                                                \
    else                                                                       \
      fn<3>(c);                                                                \
  }

static Register r16("C16", DIMS(case_threads));
#ifndef VF_TSAN
static Register r04("C04", DIMS(case_local_eigen));
static Register r05("C05", DIMS(case_restrictor));
static Register r06("C06", DIMS(case_galerkin));
static Register r07("C07", DIMS(case_fast_ap));
static Register r12("C12", [](Ctx &c) {
  bool const two = c.rng.chance(0.75);
  if (c.idx % 6 == 5)
    two ? case_one_level<2>(c) : case_one_level<3>(c);
  else
    two ? case_cycle<2>(c) : case_cycle<3>(c);
});
static Register r13("C13", [](Ctx &c) {
  bool const two = c.rng.chance(0.75);
  if (c.idx % 8 == 7)
    two ? case_one_level<2>(c) : case_one_level<3>(c);
  else
    two ? case_standalone<2>(c) : case_standalone<3>(c);
});
static Register r14("C14", DIMS(case_convergence));
static Register r15("C15", DIMS(case_equivalence));
static Register r17("C17", DIMS(case_rebuild));
static Register r23("C23", DIMS(case_refusals));
static Register r28("C28", DIMS(case_scaling));
#endif

int main(int argc, char **argv)
{
  char const *t = std::getenv("DEAL_II_NUM_THREADS");
  dealii::Utilities::MPI::MPI_InitFinalize mpi(
      argc, argv, t ? static_cast<unsigned>(std::atoi(t)) : 1);
  return vf::run(argc, argv);
}
