// Random agglomeration parameters.
#ifndef VF_AGG_HPP
#define VF_AGG_HPP
#include "problem.hpp"

#include <boost/property_tree/ptree.hpp>

namespace vf
{
struct AggParams
{
  boost::property_tree::ptree p;
  std::string type;
  std::array<unsigned, 3> block = {{1, 1, 1}};
  unsigned n = 1;
  std::string describe() const
  {
    return type == "block" ? str("block ", block[0], "x", block[1], "x", block[2])
                           : str(type, " n=", n);
  }
};

template <int dim>
AggParams random_agg(Rng &rng, Problem<dim> const &p, bool allow_block,
                     int force = -1)
{
  AggParams a;
  int const k = force >= 0 ? force
                           : static_cast<int>(rng.range(allow_block ? 0 : 1, 2));
  if (k == 0)
  {
    a.type = "block";
    for (int d = 0; d < dim; ++d)
      a.block[d] =
          static_cast<unsigned>(rng.range(1, p.spec.large ? 12 : 5));
    a.p.put("partitioner", "block");
    a.p.put("nx", a.block[0]);
    a.p.put("ny", a.block[1]);
    if (dim == 3)
      a.p.put("nz", a.block[2]);
  }
  else
  {
    a.type = k == 1 ? "zoltan" : "metis";
    unsigned owned = p.tria.n_locally_owned_active_cells();
    unsigned mn = owned;
    MPI_Allreduce(&owned, &mn, 1, MPI_UNSIGNED, MPI_MIN, p.comm);
    long const most = p.spec.large ? rng.pick<long>({80, 400, 1000})
                                   : rng.pick<long>({12, 12, 12, 100});
    a.n = static_cast<unsigned>(rng.range(
        1, std::max<long>(1, std::min<long>(most > 80 ? mn : mn / 2, most))));
    a.p.put("partitioner", a.type);
    a.p.put("n_agglomerates", a.n);
  }
  return a;
}

template <int dim>
Spec agg_spec(Rng &rng, bool allow_adaptive = true)
{
  SpecLimits lim;
  lim.boxes_only = false;
  lim.max_cells = dim == 2 ? 160 : 120;
  lim.max_degree = 2;
  bool const large = rng.chance(0.03);
  if (large)
  {
    lim.boxes_only = rng.chance(0.7);
    lim.max_degree = dim == 2 ? 3 : 2;
    lim.min_cells = 200;
    lim.max_cells = dim == 2 ? 1000 : 500;
  }
  Spec s = random_spec<dim>(rng, lim);
  s.large = large;
  if (allow_adaptive && s.mesh == "box" && rng.chance(0.15))
  {
    s.mesh = "adaptive";
    s.refine = dim == 2 ? 2 : 1;
    s.reps = {{2, 2, dim == 3 ? 2u : 1u}};
    s.distort = 0.;
  }
  return s;
}

} // namespace vf
#endif
