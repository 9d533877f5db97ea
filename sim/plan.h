// A plan is everything one simulated run depends on.  Running the same plan
// against the same code gives the same execution.
#ifndef SIM_PLAN_H_
#define SIM_PLAN_H_
#include "rt.h"
#include <map>
#include <string>
#include <vector>

namespace sim {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t x = s;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
  }
  int64_t range(int64_t lo, int64_t hi) { // inclusive
    return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1));
  }
  bool chance(int permille) { return (int)(next() % 1000) < permille; }
  template <typename T> const T &pick(const std::vector<T> &v) {
    return v[next() % v.size()];
  }
};

struct Op {
  int inc = 0;
  int client = 0;
  int kind = 0;
  int64_t a = 0, b = 0, c = 0, d = 0;
};

struct Plan {
  std::string property, scenario;
  uint64_t seed = 0;     // of the schedule
  std::map<std::string, int64_t> param;
  std::vector<Op> ops;
  int incs = 1;          // number of incarnations
  int strategy = S_RANDOM;
  int64_t gap = 2000, sync_permille = 300, pct_points = 3, pct_span = 200000;
  int64_t hw = 2;
  std::vector<Fault> faults;
  bool explicit_schedule = false;
  std::vector<Switch> switches;
  std::string expect_class; // what this plan is known to show (replay files)
  uint64_t expect_hash = 0;

  int64_t get(const std::string &k, int64_t dflt = 0) const {
    auto it = param.find(k);
    return it == param.end() ? dflt : it->second;
  }
  std::string print() const;
  bool parse(const std::string &text, std::string *error);
};

struct Ctx {
  const Plan *plan;
  int inc;
  bool last;      // the verifying incarnation
  char *journal;  // zeroed shared memory, survives crashes
};

const size_t JOURNAL_SIZE = 4u << 20;

struct Scenario {
  const char *name;
  // fill in params and ops; faults are added by the explorer
  void (*gen)(Plan *plan, Rng *rng, bool thorough);
  void (*run)(Ctx *ctx);
  const char *(*op_name)(int kind);
  void (*warm)() = nullptr; // once, before anything is simulated
};
const Scenario *find_scenario(const std::string &name);

struct Work { // one kind of simulated run
  int weight;
  const char *scenario;
  int fault_mode; // bit 0: crashes, bit 1: errors, bit 2: allocation failure
  int variants;   // faulted runs per fault-free run
  std::map<std::string, int64_t> preset;
};
struct Property {
  const char *id;
  std::vector<Work> work;
};
const char *probe_name(int id);
const Property *find_property(const std::string &id);

} // namespace sim
#endif
