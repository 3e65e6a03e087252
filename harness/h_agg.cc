// Monitors for the agglomeration layer.
#include <mfmg/common/amge.hpp>
#include <mfmg/dealii/dealii_utils.hpp>

#include <deal.II/base/mpi.h>
#include <deal.II/base/multithread_info.h>

#include "agg.hpp"
#include "problem.hpp"

#include <fstream>
#include <unistd.h>

using namespace vf;
using boost::property_tree::ptree;

namespace
{
template <int dim>
std::vector<unsigned> snapshot(Problem<dim> const &p)
{
  std::vector<unsigned> v;
  for (auto const &cell : p.dofs.active_cell_iterators())
    v.push_back(cell->user_index());
  return v;
}

// The agglomeration invariant
template <int dim>
void check_partition(Ctx &c, Problem<dim> const &p, AggParams const &a,
                     unsigned n_agg, std::string const &when)
{
  std::vector<unsigned> count(n_agg + 1, 0);
  unsigned owned = 0, bad = 0, ghost_flagged = 0;
  for (auto const &cell : p.dofs.active_cell_iterators())
  {
    if (cell->is_locally_owned())
    {
      ++owned;
      unsigned const u = cell->user_index();
      if (u < 1 || u > n_agg)
        ++bad;
      else
        ++count[u];
    }
    else if (cell->user_index() != 0)
      ++ghost_flagged;
  }
  c.obs("cells", owned);
  c.obs("agglomerates", n_agg);
  c.check(bad == 0, "uncovered" + when,
          str(bad, " of ", owned, " owned cells have an id outside [1,", n_agg,
              "]; ", a.describe(), " on ", p.spec.describe(dim)));
  c.check(ghost_flagged == 0, "ghost-flagged" + when,
          str(ghost_flagged, " not owned cells carry an id; ", a.describe(),
              " on ", p.spec.describe(dim)));
  unsigned empty = 0;
  for (unsigned i = 1; i <= n_agg; ++i)
    empty += count[i] == 0;
  c.check(empty == 0, "empty-agglomerate" + when,
          str(empty, " of ", n_agg, " agglomerates have no cell; ",
              a.describe(), " on ", p.spec.describe(dim)));
  c.check(owned == 0 || n_agg > 0, "no-agglomerate" + when,
          str("no agglomerate for ", owned, " cells"));
  if (a.type != "block")
  {
    c.check(n_agg <= a.n, "too-many-agglomerates" + when,
            str(n_agg, " agglomerates, ", a.n, " requested"));
    if (c.size == 1 && owned > 0)
    {
      unsigned largest = 0;
      for (auto x : count)
        largest = std::max(largest, x);
      c.omax("imbalance", double(largest) * a.n / owned);
      c.check(largest <= 3. * owned / a.n + 3., "unbalanced" + when,
              str("largest agglomerate has ", largest, " of ", owned,
                  " cells with ", a.n, " agglomerates requested (", a.type,
                  ") on ", p.spec.describe(dim)));
      c.check(2 * n_agg >= a.n, "too-few-agglomerates" + when,
              str(n_agg, " agglomerates for ", a.n, " requested, ", owned,
                  " cells"));
    }
  }
  else if (p.spec.mesh == "box")
  {
    std::map<unsigned, std::array<long, 6>> box;
    std::map<std::array<long, 3>, unsigned> block_id;
    std::map<unsigned, std::array<long, 3>> id_block;
    unsigned wrong = 0;
    for (auto const &cell : p.dofs.active_cell_iterators())
    {
      if (!cell->is_locally_owned())
        continue;
      auto const ijk = p.position[cell->active_cell_index()];
      unsigned const u = cell->user_index();
      auto it = box.find(u);
      if (it == box.end())
        box[u] = {{ijk[0], ijk[0], ijk[1], ijk[1], ijk[2], ijk[2]}};
      else
        for (int d = 0; d < 3; ++d)
        {
          it->second[2 * d] = std::min(it->second[2 * d], ijk[d]);
          it->second[2 * d + 1] = std::max(it->second[2 * d + 1], ijk[d]);
        }
      std::array<long, 3> b;
      for (int d = 0; d < 3; ++d)
        b[d] = ijk[d] / a.block[d];
      if (!block_id.count(b))
        block_id[b] = u;
      if (!id_block.count(u))
        id_block[u] = b;
      if (block_id[b] != u || id_block[u] != b)
        ++wrong;
    }
    for (auto const &b : box)
      for (int d = 0; d < dim; ++d)
        c.check(b.second[2 * d + 1] - b.second[2 * d] < long(a.block[d]),
                "block-extent" + when,
                str("agglomerate ", b.first, " extends over ",
                    b.second[2 * d + 1] - b.second[2 * d] + 1,
                    " cells in direction ", d, "; ", a.describe(), " on ",
                    p.spec.describe(dim)));
    if (c.size == 1)
      c.check(wrong == 0, "block-tiling" + when,
              str(wrong, " cells not in the block of their position; ",
                  a.describe(), " on ", p.spec.describe(dim)));
  }
}

template <int dim>
void case_partition(Ctx &c)
{
  Problem<dim> p(agg_spec<dim>(c.rng), c.comm);
  mfmg::AMGe<dim, DVector> amge(c.comm, p.dofs);
  bool const block_ok = p.spec.mesh != "adaptive";
  AggParams a = random_agg<dim>(c.rng, p, block_ok);
  c.label = p.spec.describe(dim) + "; " + a.describe();
  unsigned n = amge.build_agglomerates(a.p);
  c.state(str(dim, "d ", p.spec.mesh, " ", a.describe(), " cells=",
              p.tria.n_global_active_cells(), " n=", n));
  check_partition(c, p, a, n, "");
  auto const ids = snapshot(p);

  // determinism: the same mesh built independently, another AMGe object
  {
    Problem<dim> p2(p.spec, c.comm);
    mfmg::AMGe<dim, DVector> amge2(c.comm, p2.dofs);
    unsigned const n2 = amge2.build_agglomerates(a.p);
    c.check(n2 == n && snapshot(p2) == ids, "not-deterministic",
            str("agglomerates differ between two identical builds; ", c.label));
  }
  // history: agglomerate the same mesh again, with the same or with other
  // parameters, from the same or from a new object
  int const rebuilds = static_cast<int>(c.rng.range(1, 3));
  for (int r = 0; r < rebuilds; ++r)
  {
    bool const same = c.rng.chance(0.4);
    AggParams const b = same ? a : random_agg<dim>(c.rng, p, block_ok);
    unsigned n3;
    if (c.rng.chance(0.5))
      n3 = amge.build_agglomerates(b.p);
    else
    {
      mfmg::AMGe<dim, DVector> other(c.comm, p.dofs);
      n3 = other.build_agglomerates(b.p);
    }
    c.obs("rebuilds");
    check_partition(c, p, b, n3, "-rebuild");
    if (same)
      c.check(n3 == n && snapshot(p) == ids, "rebuild-differs",
              str("a second build with the same parameters gives other "
                  "agglomerates; ",
                  c.label));
  }
}

template <int dim>
void case_boundary(Ctx &c)
{
  Problem<dim> p(agg_spec<dim>(c.rng), c.comm);
  mfmg::AMGe<dim, DVector> amge(c.comm, p.dofs);
  AggParams a = random_agg<dim>(c.rng, p, p.spec.mesh != "adaptive");
  c.label = p.spec.describe(dim) + "; " + a.describe();
  unsigned const n = amge.build_agglomerates(a.p);
  std::pair<std::vector<std::vector<unsigned>>,
            std::vector<std::vector<unsigned>>>
      got;
  got = amge.build_boundary_agglomerates();
  c.check(got.first.size() == n && got.second.size() == n, "count",
          str(got.first.size(), "/", got.second.size(),
              " boundary/halo agglomerates for ", n, " agglomerates"));
  if (got.first.size() != n || got.second.size() != n)
    return;
  // brute force: cells around a vertex
  std::map<unsigned, std::set<unsigned>> around;
  std::map<unsigned, unsigned> agg_of;
  std::map<unsigned, char> artificial;
  for (auto const &cell : p.dofs.active_cell_iterators())
  {
    artificial[cell->active_cell_index()] = cell->is_artificial();
    if (cell->is_artificial())
      continue;
    for (unsigned v = 0; v < dealii::GeometryInfo<dim>::vertices_per_cell; ++v)
      around[cell->vertex_index(v)].insert(cell->active_cell_index());
    agg_of[cell->active_cell_index()] =
        cell->is_locally_owned() ? cell->user_index() : 0;
  }
  std::vector<std::set<unsigned>> inner(n), halo(n);
  for (auto const &v : around)
    for (auto const x : v.second)
      for (auto const y : v.second)
        if (agg_of[x] != 0 && agg_of[x] != agg_of[y])
        {
          if (agg_of[x] > n)
            continue;
          inner[agg_of[x] - 1].insert(x);
          halo[agg_of[x] - 1].insert(y);
        }
  unsigned sum = 0;
  for (unsigned i = 0; i < n; ++i)
  {
    std::vector<unsigned> wi(inner[i].begin(), inner[i].end());
    std::vector<unsigned> wh(halo[i].begin(), halo[i].end());
    auto gi = got.first[i], gh = got.second[i];
    // the vectors feed build_agglomerate_triangulation, which walks the mesh
    // forward: they have to be sorted
    c.check(std::is_sorted(gi.begin(), gi.end()) &&
                std::is_sorted(gh.begin(), gh.end()),
            "unsorted", "cell indices not in increasing order");
    c.check(gi == wi, "boundary",
            str("agglomerate ", i, ": ", gi.size(), " boundary cells, ",
                wi.size(), " expected; ", c.label));
    c.check(gh == wh, "halo",
            str("agglomerate ", i, ": ", gh.size(), " halo cells, ", wh.size(),
                " expected; ", c.label));
    sum += gi.size() + gh.size();
    c.obs(wi.empty() ? "isolated_agglomerates" : "boundary_agglomerates");
  }
  c.obs("boundary_cells", sum);
  c.state(str(dim, "d ", p.spec.mesh, " ", a.describe(), " n=", n, " cells=",
              sum));
}

template <int dim>
void check_submesh(
    Ctx &c, Problem<dim> &p, mfmg::AMGe<dim, DVector> const &amge,
    std::vector<typename dealii::DoFHandler<dim>::active_cell_iterator> const
        &cells,
    dealii::Triangulation<dim> &agg,
    std::map<typename dealii::Triangulation<dim>::active_cell_iterator,
             typename dealii::DoFHandler<dim>::active_cell_iterator> const &map,
    std::string const &which)
{
  using namespace dealii;
  if (!c.check(agg.n_active_cells() == cells.size() &&
                   map.size() == cells.size(),
               "cell-count",
               str(which, ": ", agg.n_active_cells(), " cells, ", map.size(),
                   " mapped, ", cells.size(), " expected; ", c.label)))
    return;
  std::set<typename DoFHandler<dim>::active_cell_iterator> want(cells.begin(),
                                                                cells.end()),
      seen;
  std::set<unsigned> agg_faces_expected;
  unsigned n_bnd = 0, n_int = 0;
  for (auto const &cell : agg.active_cell_iterators())
  {
    auto it = map.find(cell);
    if (!c.check(it != map.end(), "unmapped", which + ": cell not in the map"))
      return;
    auto const g = it->second;
    c.check(want.count(g) == 1, "wrong-cell",
            which + ": mapped to a cell outside of the agglomerate; " + c.label);
    seen.insert(g);
    for (unsigned v = 0; v < GeometryInfo<dim>::vertices_per_cell; ++v)
      c.check(cell->vertex(v).distance(g->vertex(v)) <= 1e-13, "vertex",
              which + ": vertex moved; " + c.label);
    for (unsigned f = 0; f < GeometryInfo<dim>::faces_per_cell; ++f)
    {
      bool const global_boundary = g->face(f)->at_boundary();
      bool inside = false;
      if (!global_boundary)
      {
        auto const nb = g->neighbor(f);
        for (auto const &w : want)
          if (w->level() == nb->level() && w->index() == nb->index())
            inside = true;
      }
      c.check(cell->face(f)->at_boundary() == !inside, "face-topology",
              which + ": face inside/boundary status differs; " + c.label);
      if (!cell->face(f)->at_boundary())
      {
        ++n_int;
        continue;
      }
      ++n_bnd;
      types::boundary_id const expected =
          global_boundary ? g->face(f)->boundary_id() : 0;
      c.check(cell->face(f)->boundary_id() == expected, "boundary-id",
              str(which, ": boundary id ", cell->face(f)->boundary_id(),
                  " instead of ", expected, "; ", c.label));
    }
  }
  c.check(seen == want, "not-bijective",
          which + ": the map does not cover the agglomerate; " + c.label);
  c.obs("submesh_cells", cells.size());
  c.obs("submesh_boundary_faces", n_bnd);
  c.obs("submesh_interior_faces", n_int);

  DoFHandler<dim> dh(agg);
  dh.distribute_dofs(p.fe);
  auto const dof_map = amge.compute_dof_index_map(map, dh);
  if (!c.check(dof_map.size() == dh.n_dofs(), "dof-map-size",
               which + ": wrong size of the dof map"))
    return;
  unsigned const n = p.fe.dofs_per_cell;
  std::vector<types::global_dof_index> ai(n), gi(n);
  std::set<types::global_dof_index> expected_dofs;
  for (auto const &cell : cells)
  {
    cell->get_dof_indices(gi);
    expected_dofs.insert(gi.begin(), gi.end());
  }
  std::set<types::global_dof_index> got(dof_map.begin(), dof_map.end());
  c.check(got.size() == dof_map.size(), "dof-map-injective",
          which + ": two agglomerate dofs share a global dof; " + c.label);
  c.check(got == expected_dofs, "dof-map-range",
          str(which, ": dof map reaches ", got.size(), " dofs, ",
              expected_dofs.size(), " expected; ", c.label));
  // every dof sits at the same point
  std::map<types::global_dof_index, Point<dim>> where;
  Quadrature<dim> const q(p.fe.get_unit_support_points());
  FEValues<dim> fv(p.fe, q, update_quadrature_points);
  for (auto const &cell : cells)
  {
    fv.reinit(cell);
    cell->get_dof_indices(gi);
    for (unsigned i = 0; i < n; ++i)
      where[gi[i]] = fv.quadrature_point(i);
  }
  FEValues<dim> fa(p.fe, q, update_quadrature_points);
  for (auto const &cell : dh.active_cell_iterators())
  {
    fa.reinit(cell);
    cell->get_dof_indices(ai);
    for (unsigned i = 0; i < n; ++i)
    {
      auto it = where.find(dof_map[ai[i]]);
      c.check(it != where.end() &&
                  it->second.distance(fa.quadrature_point(i)) <= 1e-12,
              "dof-position",
              which + ": a dof is mapped to another location; " + c.label);
    }
  }
  c.obs("submesh_dofs", dh.n_dofs());
}

template <int dim>
void case_submesh(Ctx &c)
{
  using namespace dealii;
  using AggMap =
      std::map<typename Triangulation<dim>::active_cell_iterator,
               typename DoFHandler<dim>::active_cell_iterator>;
  Spec s = agg_spec<dim>(c.rng, false);
  Problem<dim> p(s, c.comm);
  mfmg::AMGe<dim, DVector> amge(c.comm, p.dofs);
  AggParams a = random_agg<dim>(c.rng, p, true);
  c.label = p.spec.describe(dim) + "; " + a.describe();
  unsigned const n = amge.build_agglomerates(a.p);
  auto const ids = snapshot(p);
  for (unsigned id = 1; id <= n; ++id)
  {
    std::vector<typename DoFHandler<dim>::active_cell_iterator> cells;
    for (auto const &cell : p.dofs.active_cell_iterators())
      if (cell->is_locally_owned() && cell->user_index() == id)
        cells.push_back(cell);
    if (cells.empty())
      continue; // reported by the partition property
    Triangulation<dim> agg;
    AggMap map;
    amge.build_agglomerate_triangulation(id, agg, map);
    check_submesh(c, p, amge, cells, agg, map, "by id");
    c.obs("submeshes");
  }
  // halo and boundary patches, and random patches of owned and ghost cells
  auto const patches = amge.build_boundary_agglomerates();
  std::vector<std::vector<unsigned>> lists;
  for (auto const &l : patches.first)
    lists.push_back(l);
  for (auto const &l : patches.second)
    lists.push_back(l);
  {
    std::vector<unsigned> l;
    for (auto const &cell : p.dofs.active_cell_iterators())
      if (!cell->is_artificial() && c.local_rng.chance(0.3))
        l.push_back(cell->active_cell_index());
    lists.push_back(l);
  }
  std::map<unsigned, typename DoFHandler<dim>::active_cell_iterator> by_index;
  for (auto const &cell : p.dofs.active_cell_iterators())
    by_index[cell->active_cell_index()] = cell;
  for (auto const &l : lists)
  {
    Triangulation<dim> agg;
    AggMap map;
    amge.build_agglomerate_triangulation(l, agg, map);
    if (l.empty())
    {
      c.check(map.empty(), "empty-patch", "an empty patch has cells");
      c.obs("empty_patches");
      continue;
    }
    std::vector<typename DoFHandler<dim>::active_cell_iterator> cells;
    for (auto const x : l)
      cells.push_back(by_index.at(x));
    check_submesh(c, p, amge, cells, agg, map, "by cells");
    c.obs("submeshes");
  }
  c.check(snapshot(p) == ids, "mesh-modified",
          "building the agglomerate meshes changed the user indices");
  c.state(str(dim, "d ", s.mesh, " ", a.describe(), " Q", s.degree, " n=", n,
              " cells=", p.tria.n_global_active_cells()));
}

template <int dim>
void case_output(Ctx &c)
{
  // The files are read back by check.py (an offline checker): here only the
  // truth is recorded.
  Spec s = agg_spec<dim>(c.rng);
  Problem<dim> p(s, c.comm);
  mfmg::AMGe<dim, DVector> amge(c.comm, p.dofs);
  AggParams a = random_agg<dim>(c.rng, p, p.spec.mesh != "adaptive");
  c.label = p.spec.describe(dim) + "; " + a.describe();
  amge.build_agglomerates(a.p);
  std::string const base = str(c.out_dir, "/agg_", c.idx, "_");
  amge.output(base);
  MPI_Barrier(c.comm);
  std::ofstream t(str(base, c.rank, ".truth"));
  t.precision(17);
  t << dim << " " << c.size << " " << c.rank << "\n";
  unsigned owned = 0;
  for (auto const &cell : p.dofs.active_cell_iterators())
    if (cell->is_locally_owned())
    {
      ++owned;
      auto const x = cell->center();
      for (int d = 0; d < dim; ++d)
        t << x[d] << " ";
      t << cell->user_index() << "\n";
    }
  c.obs("output_cells", owned);
  c.state(c.label);

  // MatrixMarket files of the operator
  std::string const mm = str(c.out_dir, "/mm_", c.idx, ".mtx");
  mfmg::matrix_market_output_file(mm, p.matrix);
  GMat const A = gather(p.matrix, c.comm);
  if (c.rank == 0)
  {
    std::ifstream in(mm);
    std::string line;
    std::getline(in, line);
    c.check(line.find("%%MatrixMarket matrix coordinate real general") == 0,
            "mm-header", "wrong header: " + line);
    while (in.peek() == '%')
      std::getline(in, line);
    size_t m = 0, n = 0, nz = 0;
    in >> m >> n >> nz;
    c.check(m == A.m && n == A.n && nz == A.nnz(), "mm-size",
            str("size ", m, "x", n, " nnz ", nz, " instead of ", A.m, "x", A.n,
                " nnz ", A.nnz()));
    GMat B(A.m, A.n);
    size_t i, j, k = 0;
    double v;
    while (in >> i >> j >> v)
    {
      if (i < 1 || i > A.m || j < 1 || j > A.n)
      {
        c.viol("mm-index", "index out of range");
        return;
      }
      B.add(i - 1, j - 1, v);
      ++k;
    }
    c.check(k == nz, "mm-count", "wrong number of entries");
    c.below(diff_max(A, B), 1e-13 * A.max_abs(), "mm-value",
            "MatrixMarket file differs from the matrix");
    c.obs("mm_entries", k);
  }
  MPI_Barrier(c.comm);
  // and of a vector and of a serial matrix
  {
    dealii::TrilinosWrappers::MPI::Vector x(p.dofs.locally_owned_dofs(), c.comm);
    for (auto i : p.dofs.locally_owned_dofs())
      x(i) = Rng(i * 7 + c.idx).sym();
    x.compress(dealii::VectorOperation::insert);
    std::string const vf = str(c.out_dir, "/mmv_", c.idx, ".mtx");
    mfmg::matrix_market_output_file(vf, x);
    if (c.rank == 0)
    {
      std::ifstream in(vf);
      std::string line;
      std::getline(in, line);
      while (in.peek() == '%')
        std::getline(in, line);
      size_t m = 0, n = 0;
      in >> m >> n;
      c.check(m == A.m && n == 1, "mm-vector-size", "wrong vector size");
      double v, worst = 0;
      size_t k = 0;
      while (in >> v)
      {
        worst = std::max(worst, std::abs(v - Rng(k * 7 + c.idx).sym()));
        ++k;
      }
      c.check(k == m, "mm-vector-count", str(k, " values for ", m));
      c.below(worst, 1e-12, "mm-vector-value", "vector file differs");
    }
    MPI_Barrier(c.comm);
  }
  if (c.size == 1)
  {
    dealii::DoFHandler<dim> dh(p.tria);
    dealii::AffineConstraints<double> cs;
    dealii::SparsityPattern sp;
    dealii::SparseMatrix<double> M;
    p.assemble_agglomerate(dh, cs, sp, M);
    // the file shows every entry, whatever the units of the problem are
    M *= c.rng.pick<double>({1., 1., 1e-8, 1e-15, 1e-30, 1e12});
    std::string const f = str(c.out_dir, "/mms_", c.idx, ".mtx");
    mfmg::matrix_market_output_file(f, M);
    std::ifstream in(f);
    std::string line;
    std::getline(in, line);
    while (in.peek() == '%')
      std::getline(in, line);
    size_t m = 0, n = 0, nz = 0, i, j;
    double v, worst = 0, scale = 0;
    in >> m >> n >> nz;
    std::map<std::pair<size_t, size_t>, double> got;
    while (in >> i >> j >> v)
      got[{i - 1, j - 1}] += v;
    for (unsigned r = 0; r < M.m(); ++r)
      for (auto it = M.begin(r); it != M.end(r); ++it)
      {
        auto f2 = got.find({r, it->column()});
        double const g = f2 == got.end() ? 0. : f2->second;
        worst = std::max(worst, std::abs(g - it->value()));
        scale = std::max(scale, std::abs(it->value()));
      }
    c.check(m == M.m() && n == M.n(), "mm-serial-size", "wrong matrix size");
    c.below(worst, 1e-13 * scale, "mm-serial-value", "matrix file differs");
    c.obs("mm_serial");
  }
}
} // namespace

#define DIMS(fn)                                                               \
  [](Ctx &c) {                                                                 \
    if (c.rng.chance(0.65))                                                    \
      fn<2>(c);                                                                \
    else                                                                       \
      fn<3>(c);                                                                \
  }

static Register r1("C01", DIMS(case_partition));
static Register r2("C02", DIMS(case_boundary));
static Register r3("C03", DIMS(case_submesh));
static Register r24("C24", DIMS(case_output));

int main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  return vf::run(argc, argv);
}
