// Random finite element problems and the mesh evaluators a user of mfmg would
// write for them.
#ifndef VF_PROBLEM_HPP
#define VF_PROBLEM_HPP
#include <mfmg/dealii/dealii_matrix_free_mesh_evaluator.hpp>
#include <mfmg/dealii/dealii_mesh_evaluator.hpp>

#include <deal.II/base/quadrature_lib.h>
#include <deal.II/distributed/tria.h>
#include <deal.II/dofs/dof_accessor.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/dofs/dof_renumbering.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/fe_q.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/lac/affine_constraints.templates.h>
#include <deal.II/lac/dynamic_sparsity_pattern.h>
#include <deal.II/lac/full_matrix.h>
#include <deal.II/lac/sparse_matrix.h>
#include <deal.II/lac/sparsity_tools.h>
#include <deal.II/lac/trilinos_sparse_matrix.h>
#include <deal.II/lac/vector.h>
#include <deal.II/numerics/vector_tools.h>

#include "linalg.hpp"
#include "vf.hpp"

#include <sys/syscall.h>
#include <unistd.h>

#include <array>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstring>
#include <ctime>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

namespace vf
{
struct Spec
{
  std::string mesh = "box"; // box, ball, L, shell, adaptive
  std::array<unsigned, 3> reps = {{1, 1, 1}};
  unsigned refine = 2;
  unsigned degree = 1;
  double aniso = 1.;
  double distort = 0.;
  int coef = 0; // 0 constant, 1 linear, 2 random per block, 3 jump
  double scale = 1.;
  double contrast = 1.;
  double reaction = 0.;
  unsigned dirichlet = 63; // faces of the box which are Dirichlet
  unsigned natural_id = 2; // first boundary id of the other faces
  int renumber = 0;        // 0 none, 1 Cuthill-McKee, 2 random
  uint64_t seed = 1;
  bool identical_agglomerates = false;
  bool large = false; // rare: more cells, more agglomerates, higher degrees

  std::string describe(int dim) const
  {
    std::string d = str(dim, "d ", mesh, " reps=", reps[0], "x", reps[1]);
    if (dim == 3)
      d += str("x", reps[2]);
    d += str(" refine=", refine, " Q", degree, " aniso=", aniso,
             " distort=", distort, " coef=", coef, " scale=", scale,
             " contrast=", contrast, " reaction=", reaction,
             " dirichlet=", dirichlet, " ids=", natural_id, " renumber=", renumber);
    return d;
  }
};

struct SpecLimits
{
  unsigned max_cells = 144;
  unsigned max_degree = 2;
  bool boxes_only = true;
  bool distort = true;
  bool neumann = true;
  unsigned min_cells = 4;
};

template <int dim>
unsigned n_box_cells(Spec const &s)
{
  unsigned n = 1;
  for (int d = 0; d < dim; ++d)
    n *= s.reps[d] << s.refine;
  return n;
}

template <int dim>
Spec random_spec(Rng &rng, SpecLimits const &lim)
{
  Spec s;
  s.seed = rng.next();
  double const r = rng.uniform();
  if (!lim.boxes_only && r < 0.2)
    s.mesh = "ball";
  else if (!lim.boxes_only && r < 0.35)
    s.mesh = "L";
  else if (!lim.boxes_only && r < 0.45 && dim == 2)
    s.mesh = "shell";
  else if (!lim.boxes_only && r < 0.65)
    s.mesh = "islands";
  s.degree = static_cast<unsigned>(rng.range(1, lim.max_degree));
  if (s.mesh == "box")
  {
    for (int tries = 0; tries < 200; ++tries)
    {
      s.refine = static_cast<unsigned>(rng.range(0, dim == 2 ? 3 : 2));
      for (int d = 0; d < dim; ++d)
        s.reps[d] = static_cast<unsigned>(rng.range(1, dim == 2 ? 7 : 4));
      unsigned const n = n_box_cells<dim>(s);
      if (n >= lim.min_cells && n <= lim.max_cells)
        break;
      s.refine = 1;
      s.reps = {{2, 2, 1}};
    }
    if (rng.chance(0.3))
      s.aniso = rng.pick<double>({0.25, 0.5, 2., 3.});
  }
  else if (s.mesh == "islands")
  {
    // the middle column of the coarse cells is missing
    s.refine = static_cast<unsigned>(rng.range(0, dim == 2 ? 2 : 1));
    s.reps[0] = static_cast<unsigned>(rng.range(3, 5));
    for (int d = 1; d < dim; ++d)
      s.reps[d] = static_cast<unsigned>(rng.range(1, 2));
    while (n_box_cells<dim>(s) < 2 * lim.min_cells)
      ++s.reps[1];
    s.aniso = 3.;
  }
  else
  {
    s.refine = dim == 2 ? 2 : 1;
    if (dim == 3)
      s.degree = 1;
  }
  if (lim.distort && rng.chance(0.4))
    s.distort = rng.uniform(0.02, 0.2);
  s.coef = static_cast<int>(rng.range(0, 3));
  s.contrast = rng.pick<double>({1., 2., 5., 10.});
  if (rng.chance(0.4))
    s.reaction = rng.uniform(0.05, 2.);
  if (lim.neumann && rng.chance(0.4))
  {
    s.dirichlet = static_cast<unsigned>(rng.range(0, (1 << (2 * dim)) - 1));
    if (s.dirichlet == 0 && s.reaction < 0.05)
      s.reaction = 0.5;
  }
  s.renumber = static_cast<int>(rng.range(0, 2));
  s.natural_id = rng.pick<unsigned>({2, 2, 2, 100, 254, 257, 1000, 65537});
  if (twin())
  {
    s.seed ^= 0x5bd1e995u;
    s.coef = 1 + s.coef % 3;
    s.contrast = s.contrast == 5. ? 3. : 5.;
    s.renumber = (s.renumber + 1) % 3;
    s.reaction *= 0.7;
  }
  return s;
}

template <int dim>
struct Problem
{
  Spec spec;
  MPI_Comm comm;
  dealii::parallel::distributed::Triangulation<dim> tria;
  dealii::FE_Q<dim> fe;
  dealii::DoFHandler<dim> dofs;
  dealii::AffineConstraints<double> constraints;
  dealii::TrilinosWrappers::SparseMatrix matrix;
  // box: position of the cell in the structured mesh, by active cell index
  std::vector<std::array<long, 3>> position;

  Problem(Spec const &s, MPI_Comm comm_)
      : spec(s), comm(comm_), tria(comm_), fe(s.degree), dofs(tria)
  {
    make_mesh();
    dofs.distribute_dofs(fe);
    renumber();
    make_constraints(dofs, constraints);
    assemble_global();
  }

  static uint64_t hash_point(dealii::Point<dim> const &p, uint64_t seed)
  {
    uint64_t h = seed;
    for (int d = 0; d < dim; ++d)
    {
      h ^= static_cast<uint64_t>(
          static_cast<int64_t>(std::llround(p[d] * 1048576.)));
      splitmix(h);
    }
    return h;
  }

  void make_mesh()
  {
    using namespace dealii;
    Point<dim> p1, p2;
    std::vector<unsigned> reps(dim);
    for (int d = 0; d < dim; ++d)
    {
      p2[d] = d == 0 ? spec.aniso : 1.;
      reps[d] = spec.reps[d];
    }
    if (spec.mesh == "ball")
      GridGenerator::hyper_ball(tria);
    else if (spec.mesh == "L")
      GridGenerator::hyper_L(tria, 0., 1.);
    else if (spec.mesh == "shell")
      GridGenerator::hyper_shell(tria, Point<dim>(), 0.5, 1., 8);
    else if (spec.mesh == "islands")
    {
      Triangulation<dim> whole;
      GridGenerator::subdivided_hyper_rectangle(whole, reps, p1, p2);
      std::set<typename Triangulation<dim>::active_cell_iterator> gone;
      for (auto const &cell : whole.active_cell_iterators())
        if (std::floor(cell->center()[0] / spec.aniso * reps[0]) == reps[0] / 2)
          gone.insert(cell);
      GridGenerator::create_triangulation_with_removed_cells(whole, gone, tria);
    }
    else
      GridGenerator::subdivided_hyper_rectangle(tria, reps, p1, p2);
    if (spec.refine > 0)
      tria.refine_global(spec.refine);
    if (spec.mesh == "adaptive")
    {
      for (auto const &cell : tria.active_cell_iterators())
        if (cell->is_locally_owned() &&
            hash_point(cell->center(), spec.seed) % 4 == 0)
          cell->set_refine_flag();
      tria.execute_coarsening_and_refinement();
    }
    double h = 1e300;
    for (auto const &cell : tria.active_cell_iterators())
      if (!cell->is_artificial())
        h = std::min(h, cell->minimum_vertex_distance());
    MPI_Allreduce(MPI_IN_PLACE, &h, 1, MPI_DOUBLE, MPI_MIN, comm);
    for (auto const &cell : tria.active_cell_iterators())
      for (unsigned f = 0; f < GeometryInfo<dim>::faces_per_cell; ++f)
        if (cell->face(f)->at_boundary())
        {
          unsigned id = 1;
          if (spec.mesh == "box" || spec.mesh == "adaptive")
          {
            auto const c = cell->face(f)->center();
            for (int d = 0; d < dim; ++d)
            {
              if (std::abs(c[d] - p1[d]) < 1e-10)
                id = (spec.dirichlet >> (2 * d)) & 1 ? 1 : spec.natural_id + 2 * d;
              if (std::abs(c[d] - p2[d]) < 1e-10)
                id = (spec.dirichlet >> (2 * d + 1)) & 1 ? 1 : spec.natural_id + 1 + 2 * d;
            }
          }
          if (spec.mesh == "L" && !(spec.dirichlet & 1))
          {
            // the faces around the reentrant corner
            auto const c = cell->face(f)->center();
            bool outside = false;
            for (int d = 0; d < dim; ++d)
              outside = outside || c[d] < 1e-10 || c[d] > 1. - 1e-10;
            if (!outside)
              id = spec.natural_id;
          }
          cell->face(f)->set_boundary_id(id);
        }
    if (spec.mesh == "box")
    {
      position.assign(tria.n_active_cells(), std::array<long, 3>{{0, 0, 0}});
      for (auto const &cell : tria.active_cell_iterators())
        for (int d = 0; d < dim; ++d)
          position[cell->active_cell_index()][d] = static_cast<long>(
              std::floor(cell->center()[d] / p2[d] *
                         (spec.reps[d] << spec.refine)));
    }
    if (spec.distort > 0. && spec.mesh != "adaptive")
    {
      double const amp = spec.distort * h;
      uint64_t const seed = spec.seed;
      GridTools::transform(
          [=](Point<dim> const &p) {
            Rng r(hash_point(p, seed));
            Point<dim> q = p;
            for (int d = 0; d < dim; ++d)
              q[d] += amp * r.sym();
            return q;
          },
          tria);
    }
  }

  void renumber()
  {
    using namespace dealii;
    if (spec.renumber == 1)
      DoFRenumbering::Cuthill_McKee(dofs);
    else if (spec.renumber == 2)
    {
      std::vector<types::global_dof_index> own;
      for (auto i : dofs.locally_owned_dofs())
        own.push_back(i);
      Rng r(spec.seed ^ 77);
      r.shuffle(own);
      dofs.renumber_dofs(own);
    }
  }

  void make_constraints(dealii::DoFHandler<dim> const &dh,
                        dealii::AffineConstraints<double> &c) const
  {
    dealii::IndexSet relevant;
    dealii::DoFTools::extract_locally_relevant_dofs(dh, relevant);
    c.clear();
    c.reinit(relevant);
    dealii::DoFTools::make_hanging_node_constraints(dh, c);
    dealii::VectorTools::interpolate_boundary_values(
        dh, 1, dealii::Functions::ZeroFunction<dim>(), c);
    c.close();
  }

  double coefficient(dealii::Point<dim> const &center) const
  {
    switch (spec.coef)
    {
    case 1:
      return spec.scale * (1. + 0.9 * std::sin(center[0] + 2. * center[1]));
    case 2:
    {
      uint64_t h = spec.seed;
      for (int d = 0; d < dim; ++d)
      {
        h ^= static_cast<uint64_t>(static_cast<int64_t>(
            std::floor(center[d] * 4.37 + 0.113)));
        splitmix(h);
      }
      double const u = Rng(h).uniform(-1., 1.);
      return spec.scale * std::pow(spec.contrast, u);
    }
    case 3:
      return spec.scale * (center[0] > 0.4321 ? spec.contrast : 1.);
    default:
      return spec.scale;
    }
  }

  template <typename MatrixType>
  void assemble(dealii::DoFHandler<dim> const &dh,
                dealii::AffineConstraints<double> const &c, MatrixType &A) const
  {
    using namespace dealii;
    QGauss<dim> const quadrature(spec.degree + 1);
    FEValues<dim> fe_values(fe, quadrature,
                            update_values | update_gradients |
                                update_JxW_values);
    unsigned const n = fe.dofs_per_cell;
    FullMatrix<double> cell_matrix(n, n);
    std::vector<types::global_dof_index> idx(n);
    for (auto const &cell : dh.active_cell_iterators())
    {
      if (!cell->is_locally_owned())
        continue;
      cell_matrix = 0.;
      double const k = coefficient(cell->center());
      double const react = spec.reaction * spec.scale;
      fe_values.reinit(cell);
      for (unsigned q = 0; q < quadrature.size(); ++q)
        for (unsigned i = 0; i < n; ++i)
          for (unsigned j = 0; j < n; ++j)
            cell_matrix(i, j) +=
                (k * (fe_values.shape_grad(i, q) * fe_values.shape_grad(j, q)) +
                 react * fe_values.shape_value(i, q) *
                     fe_values.shape_value(j, q)) *
                fe_values.JxW(q);
      cell->get_dof_indices(idx);
      c.distribute_local_to_global(cell_matrix, idx, A);
    }
  }

  void assemble_global()
  {
    using namespace dealii;
    IndexSet relevant;
    DoFTools::extract_locally_relevant_dofs(dofs, relevant);
    DynamicSparsityPattern dsp(relevant);
    DoFTools::make_sparsity_pattern(dofs, dsp, constraints, false);
    for (auto i : relevant)
      dsp.add(i, i);
    SparsityTools::distribute_sparsity_pattern(dsp, dofs.locally_owned_dofs(),
                                               comm, relevant);
    matrix.reinit(dofs.locally_owned_dofs(), dofs.locally_owned_dofs(), dsp,
                  comm);
    assemble(dofs, constraints, matrix);
    matrix.compress(VectorOperation::add);
  }

  void assemble_agglomerate(dealii::DoFHandler<dim> &dh,
                            dealii::AffineConstraints<double> &c,
                            dealii::SparsityPattern &sp,
                            dealii::SparseMatrix<double> &A) const
  {
    using namespace dealii;
    dh.distribute_dofs(fe);
    make_constraints(dh, c);
    DynamicSparsityPattern dsp(dh.n_dofs());
    DoFTools::make_sparsity_pattern(dh, dsp, c, false);
    for (unsigned i = 0; i < dh.n_dofs(); ++i)
      dsp.add(i, i);
    sp.copy_from(dsp);
    A.reinit(sp);
    assemble(dh, c, A);
  }

  // the same mesh with another operator
  void change_operator(Rng &r)
  {
    spec.coef = static_cast<int>(r.range(1, 3));
    spec.contrast = r.pick<double>({2., 5., 10.});
    spec.scale *= r.pick<double>({0.25, 0.7, 3.});
    spec.seed ^= r.next();
    matrix = 0.;
    assemble(dofs, constraints, matrix);
    matrix.compress(dealii::VectorOperation::add);
  }

  // a refined mesh behind the same objects
  void refine_once()
  {
    tria.refine_global(1);
    dofs.distribute_dofs(fe);
    renumber();
    make_constraints(dofs, constraints);
    assemble_global();
  }

  std::shared_ptr<DVector> vector() const
  {
    return std::make_shared<DVector>(dofs.locally_owned_dofs(), comm);
  }

  // The same values on every rank layout of the same spec: a function of the
  // global dof index
  void random_vector(Rng &rng, DVector &x, bool respect_constraints = true) const
  {
    uint64_t const seed = rng.next();
    for (auto i : x.locally_owned_elements())
    {
      Rng r(seed + 0x9e37ull * i);
      r.next();
      x(i) = respect_constraints && constraints.is_constrained(i) ? 0.
                                                                  : r.sym();
    }
  }
};

// Counters which the instrumented user callbacks maintain
struct Monitor
{
  std::atomic<long> agg_calls{0};
  std::atomic<long> inside{0};
  std::atomic<long> max_inside{0};
  std::atomic<long> clones{0};
  std::atomic<long> overlapping_clone_use{0};
  std::atomic<long> uninitialised_use{0};
  std::atomic<long> applies{0};
  std::atomic<long> bad_size{0};
  unsigned delay_us = 0;
  uint64_t delay_seed = 1;

  // the threads which evaluated something, for the Preempter
  std::mutex tids_mutex;
  std::set<long> tids;

  void enter()
  {
    {
      std::lock_guard<std::mutex> lock(tids_mutex);
      tids.insert(::syscall(SYS_gettid));
    }
    long const n = ++inside;
    long m = max_inside.load();
    while (n > m && !max_inside.compare_exchange_weak(m, n))
    {
    }
    ++agg_calls;
    if (delay_us)
    {
      Rng r(delay_seed + static_cast<uint64_t>(agg_calls.load()));
      std::this_thread::sleep_for(
          std::chrono::microseconds(r.range(0, delay_us)));
    }
  }
  void leave() { --inside; }
};

// Stops single threads for a random time at random instructions: a signal whose
// handler sleeps.  What a thread does between two reads of shared data becomes
// long enough for the others to interfere.
class Preempter
{
public:
  explicit Preempter(std::shared_ptr<Monitor> m, uint64_t seed)
      : monitor(m), rng(seed)
  {
    struct sigaction a;
    std::memset(&a, 0, sizeof a);
    a.sa_handler = &Preempter::handler;
    a.sa_flags = SA_RESTART;
    sigemptyset(&a.sa_mask);
    ::sigaction(SIGUSR2, &a, nullptr);
    sent = before;
    worker = std::thread([this] { run(); });
  }
  ~Preempter()
  {
    stop = true;
    worker.join();
    // no signal is pending any more when the handlers have returned
    for (int i = 0; i < 1000 && sent.load() > handled().load(); ++i)
      std::this_thread::sleep_for(std::chrono::microseconds(100));
  }
  long preemptions() const { return handled().load() - before; }

private:
  std::shared_ptr<Monitor> monitor;
  Rng rng;
  std::atomic<bool> stop{false};
  std::atomic<long> sent{0};
  long const before = handled().load();
  std::thread worker;

  static std::atomic<long> &handled()
  {
    static std::atomic<long> n{0};
    return n;
  }
  static void handler(int)
  {
    int const e = errno;
    long const n = handled().load();
    struct timespec t = {0, 1000 * (20 + (n * 7919) % 400)};
    ::nanosleep(&t, nullptr);
    ++handled();
    errno = e;
  }
  void run()
  {
    int waited = 0;
    while (!stop)
    {
      std::this_thread::sleep_for(
          std::chrono::microseconds(rng.range(20, 200)));
      std::vector<long> t;
      {
        std::lock_guard<std::mutex> lock(monitor->tids_mutex);
        t.assign(monitor->tids.begin(), monitor->tids.end());
      }
      if (t.empty())
        continue;
      long const tid = t[static_cast<size_t>(rng.next() % t.size())];
      // one pending signal at a time (a thread may have ended before it)
      if (sent.load() > handled().load() && ++waited < 100)
        continue;
      waited = 0;
      sent = handled().load();
      if (::syscall(SYS_tgkill, ::getpid(), tid, SIGUSR2) == 0)
        ++sent;
    }
  }
};

template <int dim>
class MatEval : public mfmg::DealIIMeshEvaluator<dim>
{
public:
  MatEval(Problem<dim> &p, std::shared_ptr<Monitor> m = nullptr)
      : mfmg::DealIIMeshEvaluator<dim>(p.dofs, p.constraints), problem(p),
        monitor(m ? m : std::make_shared<Monitor>())
  {
  }
  void evaluate_global(
      dealii::DoFHandler<dim> &, dealii::AffineConstraints<double> &,
      dealii::TrilinosWrappers::SparseMatrix &system_matrix) const override
  {
    system_matrix.copy_from(problem.matrix);
  }
  void
  evaluate_agglomerate(dealii::DoFHandler<dim> &dof_handler,
                       dealii::AffineConstraints<double> &constraints,
                       dealii::SparsityPattern &sp,
                       dealii::SparseMatrix<double> &matrix) const override
  {
    monitor->enter();
    problem.assemble_agglomerate(dof_handler, constraints, sp, matrix);
    monitor->leave();
  }
  Problem<dim> &problem;
  std::shared_ptr<Monitor> monitor;
};

template <int dim>
class MFEval : public mfmg::DealIIMatrixFreeMeshEvaluator<dim>
{
public:
  MFEval(Problem<dim> &p, std::shared_ptr<Monitor> m = nullptr)
      : mfmg::DealIIMatrixFreeMeshEvaluator<dim>(p.dofs, p.constraints),
        problem(p), monitor(m ? m : std::make_shared<Monitor>()),
        global(std::make_shared<dealii::TrilinosWrappers::SparseMatrix>())
  {
    update();
  }
  void update()
  {
    global->copy_from(problem.matrix);
    for (auto i : problem.dofs.locally_owned_dofs())
      if (problem.constraints.is_constrained(i))
        global->set(i, i, problem.spec.scale);
    global->compress(dealii::VectorOperation::insert);
  }
  // A clone shares the global data; the agglomerate data is its own
  MFEval(MFEval const &o)
      : mfmg::DealIIMatrixFreeMeshEvaluator<dim>(o.problem.dofs,
                                                 o.problem.constraints),
        problem(o.problem), monitor(o.monitor), global(o.global)
  {
  }
  std::unique_ptr<mfmg::DealIIMatrixFreeMeshEvaluator<dim>>
  clone() const override
  {
    ++monitor->clones;
    return std::make_unique<MFEval<dim>>(*this);
  }
  void matrix_free_initialize_agglomerate(
      dealii::DoFHandler<dim> &dof_handler) const override
  {
    Use u(*this);
    monitor->enter();
    problem.assemble_agglomerate(dof_handler, agg_constraints, agg_sp, agg);
    for (auto const line : agg_constraints.get_lines())
      agg.diag_element(line.index) = problem.spec.scale;
    monitor->leave();
  }
  void
  matrix_free_evaluate_agglomerate(dealii::Vector<double> const &src,
                                   dealii::Vector<double> &dst) const override
  {
    Use u(*this);
    ++monitor->applies;
    if (agg.m() == 0)
      ++monitor->uninitialised_use;
    if (src.size() != agg.m() || dst.size() != agg.m())
    {
      ++monitor->bad_size;
      throw std::runtime_error("agglomerate operator: wrong vector size");
    }
    agg.vmult(dst, src);
  }
  std::vector<double> matrix_free_get_agglomerate_diagonal(
      dealii::AffineConstraints<double> &constraints) const override
  {
    Use u(*this);
    constraints.copy_from(agg_constraints);
    std::vector<double> d(agg.m());
    for (unsigned i = 0; i < agg.m(); ++i)
      d[i] = agg.diag_element(i);
    return d;
  }
  void matrix_free_evaluate_global(DVector const &src,
                                   DVector &dst) const override
  {
    global->vmult(dst, src);
  }
  std::shared_ptr<dealii::DiagonalMatrix<DVector>>
  matrix_free_get_diagonal_inverse() const override
  {
    auto d = std::make_shared<dealii::DiagonalMatrix<DVector>>();
    auto &v = d->get_vector();
    v.reinit(problem.dofs.locally_owned_dofs(), problem.comm);
    for (auto i : v.locally_owned_elements())
      v(i) = 1. / global->diag_element(i);
    return d;
  }
  DVector get_diagonal() override
  {
    dealii::IndexSet relevant;
    dealii::DoFTools::extract_locally_relevant_dofs(problem.dofs, relevant);
    DVector v(problem.dofs.locally_owned_dofs(), relevant, problem.comm);
    for (auto i : v.locally_owned_elements())
      v(i) = global->diag_element(i);
    v.update_ghost_values();
    return v;
  }

  Problem<dim> &problem;
  std::shared_ptr<Monitor> monitor;
  std::shared_ptr<dealii::TrilinosWrappers::SparseMatrix> global;

private:
  struct Use
  {
    MFEval const &e;
    explicit Use(MFEval const &e_) : e(e_)
    {
      if (e.in_use.exchange(true))
        ++e.monitor->overlapping_clone_use;
    }
    ~Use() { e.in_use = false; }
  };
  mutable std::atomic<bool> in_use{false};
  mutable dealii::AffineConstraints<double> agg_constraints;
  mutable dealii::SparsityPattern agg_sp;
  mutable dealii::SparseMatrix<double> agg;
};

// What the oracles know about an agglomerate: its cells, its dofs and its
// matrix in global numbering (Dirichlet constraints of the agglomerate
// applied), computed without mfmg.
struct LocalRef
{
  std::vector<size_t> dofs;            // sorted global indices
  std::map<size_t, size_t> pos;        // global -> local
  std::vector<double> A;               // dense column major
  std::vector<char> constrained;       // per local dof
  std::vector<double> diag;            // diagonal of A
  size_t n() const { return dofs.size(); }
  Vec mul(Vec const &x) const
  {
    Vec y(n(), 0.);
    for (size_t j = 0; j < n(); ++j)
      for (size_t i = 0; i < n(); ++i)
        y[i] += A[j * n() + i] * x[j];
    return y;
  }
};

// cells: predicate on the active cells of p.dofs
template <int dim, typename Pred>
LocalRef local_reference(Problem<dim> const &p, Pred const &in)
{
  using namespace dealii;
  LocalRef L;
  unsigned const n = p.fe.dofs_per_cell;
  std::vector<types::global_dof_index> idx(n);
  std::set<size_t> all, dirichlet;
  std::vector<typename DoFHandler<dim>::active_cell_iterator> cells;
  for (auto const &cell : p.dofs.active_cell_iterators())
  {
    if (cell->is_artificial() || !in(cell))
      continue;
    cells.push_back(cell);
    cell->get_dof_indices(idx);
    all.insert(idx.begin(), idx.end());
    for (unsigned f = 0; f < GeometryInfo<dim>::faces_per_cell; ++f)
      if (cell->face(f)->at_boundary() && cell->face(f)->boundary_id() == 1)
        for (unsigned i = 0; i < n; ++i)
          if (p.fe.has_support_on_face(i, f))
            dirichlet.insert(idx[i]);
  }
  L.dofs.assign(all.begin(), all.end());
  for (size_t i = 0; i < L.dofs.size(); ++i)
    L.pos[L.dofs[i]] = i;
  size_t const N = L.n();
  L.A.assign(N * N, 0.);
  L.constrained.assign(N, 0);
  for (auto d : dirichlet)
    L.constrained[L.pos[d]] = 1;
  QGauss<dim> const quadrature(p.spec.degree + 1);
  FEValues<dim> fe_values(p.fe, quadrature,
                          update_values | update_gradients | update_JxW_values);
  for (auto const &cell : cells)
  {
    fe_values.reinit(cell);
    cell->get_dof_indices(idx);
    double const k = p.coefficient(cell->center());
    double const react = p.spec.reaction * p.spec.scale;
    FullMatrix<double> M(n, n);
    for (unsigned q = 0; q < quadrature.size(); ++q)
      for (unsigned i = 0; i < n; ++i)
        for (unsigned j = 0; j < n; ++j)
          M(i, j) +=
              (k * (fe_values.shape_grad(i, q) * fe_values.shape_grad(j, q)) +
               react * fe_values.shape_value(i, q) *
                   fe_values.shape_value(j, q)) *
              fe_values.JxW(q);
    double avg = 0;
    for (unsigned i = 0; i < n; ++i)
      avg += std::abs(M(i, i)) / n;
    for (unsigned i = 0; i < n; ++i)
    {
      size_t const li = L.pos[idx[i]];
      if (L.constrained[li])
      {
        // convention of AffineConstraints::distribute_local_to_global
        L.A[li * N + li] += std::abs(M(i, i)) > 0 ? std::abs(M(i, i)) : avg;
        continue;
      }
      for (unsigned j = 0; j < n; ++j)
      {
        size_t const lj = L.pos[idx[j]];
        if (!L.constrained[lj])
          L.A[lj * N + li] += M(i, j);
      }
    }
  }
  L.diag.resize(N);
  for (size_t i = 0; i < N; ++i)
    L.diag[i] = L.A[i * N + i];
  return L;
}
} // namespace vf
#endif
