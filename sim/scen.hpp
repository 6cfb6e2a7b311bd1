// Scenarios (run inside the simulated ranks) and their oracles (run over the
// recorded outputs of the runs).
#ifndef MFSIM_SCEN_HPP
#define MFSIM_SCEN_HPP
#include "core.hpp"
#include "params.hpp"
#include <cmath>
#include <functional>

namespace mfsim
{
// see probe_vectors
int constexpr n_probes = 6;
struct RunResult
{
  bool have = false;
  int verdict = 0;
  std::string what;
  uint64_t seed = 0, hash = 0, ws_hash = 0, steps = 0, sim_ns = 0, n_rec = 0;
  std::vector<uint64_t> rec;
  std::vector<RankShm> rank;
  // name -> per rank data
  std::map<std::string, std::map<int, std::vector<double>>> out;

  bool has(std::string const &n) const { return out.count(n); }
  double scalar(std::string const &n, int r = -1) const
  {
    auto it = out.find(n);
    if (it == out.end())
      return NAN;
    auto jt = r < 0 ? it->second.begin() : it->second.find(r);
    if (jt == it->second.end() || jt->second.empty())
      return NAN;
    return jt->second[0];
  }
};

struct Scenario
{
  void (*run)(Params const &);
  // "" or what is wrong with `run` (given the undisturbed run `base`)
  std::string (*oracle)(Params const &, RunResult const &base,
                        RunResult const &run);
  // adjust the configuration of the perturbed run from what the base run did
  void (*configure)(Params const &, RunResult const &base, Config &);
};
std::map<std::string, Scenario> const &scenarios();

void rank_library_init(); // what MPI_InitFinalize does besides MPI_Init
} // namespace mfsim
#endif
