// Shared by the scenarios: the workloads and oracles that drive the real code.
#ifndef SCEN_COMMON_H_
#define SCEN_COMMON_H_
#include "../sim/plan.h"
#include "../sim/rt.h"

#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "src/cottontail.h"

namespace scen {

using cottontail::addr;
using cottontail::fval;
using cottontail::maxfinity;
using cottontail::minfinity;
typedef std::shared_ptr<cottontail::Warren> W;

// Oracle code is not preempted: only the code under test is.
struct Quiet {
  Quiet() { sim::quiet(true); }
  ~Quiet() { sim::quiet(false); }
};

struct Ivl {
  addr p, q;
  fval v;
};

struct Want {
  addr p, q;
  fval v;
};
void compare(const char *name, const std::vector<Ivl> &got,
             const std::vector<Want> &want);
// random access to a hopper, against the list of its solutions
void probe_hopper(const char *name, cottontail::Hopper *h,
                  const std::vector<Want> &want, sim::Rng &r, int n);
std::string clip(const std::string &s);
// fails unless the two texts are the same
void compare_text(addr p, addr q, const std::string &got,
                  const std::string &want);

void default_limits();
std::vector<std::string> list_dir(const std::string &dir);
bool exists(const std::string &file);
// what stands between two words; in odd texts that may be binary
void separate(std::string *text, const char *s, bool odd);
void write_file(const std::string &file, const std::string &text);
std::string read_file(const std::string &file);
// every solution of a hopper, in order; dir: 0 tau, 1 rho, 2 uat, 3 ohr
std::vector<Ivl> solutions(cottontail::Hopper *h, int dir = 0);
void pause(int n);
// a false return is acceptable only if storage really misbehaved
void expect_ok(bool ok, const char *what, const std::string &error);
// What is in an index closed in good order is in use: opening it and reading all
// of it finds nothing to remove, and leaves no file aside.
void given_back(const std::string &dir, std::function<void()> read);

struct Client : std::thread { // a workload thread, as opposed to a background one
  template <typename F>
  explicit Client(F f)
      : std::thread([f] {
          sim::mark_client();
          f();
        }) {}
};

} // namespace scen
#endif
