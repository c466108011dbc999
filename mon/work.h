// Workload pieces shared by the partitioning monitors.
#ifndef MON_WORK_H
#define MON_WORK_H
#include "model.h"
#include <engpar.h>
#include <engpar_input.h>
#include <engpar_diffusive_input.h>
#include <engpar_weight_input.h>
#include <engpar_split_input.h>
#include <engpar_metrics.h>
#include <agiMigration.h>

// what a balancer's user may set
struct DOpts {
  std::vector<int> prio; std::vector<double> tol;
  int maxIter, maxPerType; double step; bool partW; int sides; bool ghosts; int distance;  // distance: -1 default
  bool push; int minCon, conType; double growth; int verbosity;
  bool twice = false;               // counting ghosts is first set to the opposite
  bool lazy = false;                // what has its documented default value is left as the input was created
  std::string desc() const;
  engpar::DiffusiveInput* make(agi::Ngraph* g) const;
};
DOpts genDiffusive(Rng& r, const Model& m);

// steps of the balancer, seen at the call that migrates the plan of a step
struct StepMon {
  bool on; agi::Ngraph* g; long steps, moved, illegal; std::string firstBad;
  const Model* m; Owners* own;      // if set, every step is compared with its plan
  std::vector<std::vector<std::pair<int, int> > > plan;   // plan of the last step: per source process, in plan order, (vertex, destination)
  std::function<void()> before, after;   // before: when the plan is known and own is still the state before the step
};
extern StepMon SM;
void watchSteps(agi::Ngraph* g, const Model* m = NULL, Owners* own = NULL);
void unwatchSteps();
// one run of the balancer, step by step; criterion: which of the criteria a step belongs to, told by the headings printed
struct Step { Owners before; std::vector<std::vector<std::pair<int, int> > > plan; int criterion; };
int headings(const std::string& text);   // criteria begun
struct Run { std::vector<Step> steps; Owners end; int criteria; std::string text; bool attributed; };   // known on process 0
void runBalance(agi::Ngraph* g, const Model& m, const Owners& own, const DOpts& d, Run& run);

// a small group of processes inside the world, for splits
struct Groups {
  MPI_Comm small, large; bool orig; int k;
  std::vector<int> world;          // world[i]: rank in large of rank i of the original group
  std::vector<std::vector<int> > parts;   // local split: parts of the large group allotted to each original one
  int factor;
};
Groups makeGroups(Rng& r, int k, bool scattered, int factor = 0);   // factor > 0: for local splits
void freeGroups(Groups& g);
#define WRAP_MIGRATE "_ZN3agi6Ngraph7migrateEPNS_9MigrationEPNS_15MigrationTimersE"
#endif
