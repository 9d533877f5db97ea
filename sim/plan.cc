#include "plan.h"
#include <sstream>

namespace sim {

static const char *fault_names[F_KINDS] = {
    "none",     "crash_before", "crash_after", "crash_torn", "error",
    "disk_full", "short",       "eintr",       "alloc"};

std::string Plan::print() const {
  std::ostringstream o;
  o << "property " << property << "\nscenario " << scenario << "\nseed " << seed
    << "\nincs " << incs << "\n";
  o << "schedule " << strategy << " " << gap << " " << sync_permille << " "
    << pct_points << " " << pct_span << " " << hw << "\n";
  for (auto &p : param)
    o << "param " << p.first << " " << p.second << "\n";
  for (auto &p : ops)
    o << "op " << p.inc << " " << p.client << " " << p.kind << " " << p.a << " "
      << p.b << " " << p.c << " " << p.d << "\n";
  for (auto &f : faults)
    o << "fault " << f.inc << " " << fault_names[f.kind] << " " << f.at << " "
      << f.arg << "\n";
  if (explicit_schedule) {
    o << "explicit\n";
    for (auto &s : switches)
      o << "switch " << s.inc << " " << s.step << " " << s.tid << "\n";
  }
  if (!expect_class.empty())
    o << "expect " << expect_hash << " " << expect_class << "\n";
  o << "end\n";
  return o.str();
}

bool Plan::parse(const std::string &text, std::string *error) {
  std::istringstream in(text);
  std::string line;
  bool ended = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#')
      continue;
    std::istringstream l(line);
    std::string k;
    l >> k;
    if (k == "property") {
      l >> property;
    } else if (k == "scenario") {
      l >> scenario;
    } else if (k == "seed") {
      l >> seed;
    } else if (k == "incs") {
      l >> incs;
    } else if (k == "schedule") {
      l >> strategy >> gap >> sync_permille >> pct_points >> pct_span >> hw;
    } else if (k == "param") {
      std::string n;
      int64_t v;
      l >> n >> v;
      param[n] = v;
    } else if (k == "op") {
      Op p;
      l >> p.inc >> p.client >> p.kind >> p.a >> p.b >> p.c >> p.d;
      ops.push_back(p);
    } else if (k == "fault") {
      Fault f;
      std::string n;
      l >> f.inc >> n >> f.at >> f.arg;
      f.kind = 0;
      for (int i = 1; i < F_KINDS; i++)
        if (n == fault_names[i])
          f.kind = i;
      faults.push_back(f);
    } else if (k == "explicit") {
      explicit_schedule = true;
    } else if (k == "switch") {
      Switch s;
      l >> s.inc >> s.step >> s.tid;
      switches.push_back(s);
    } else if (k == "expect") {
      l >> expect_hash;
      std::getline(l, expect_class);
      if (!expect_class.empty() && expect_class[0] == ' ')
        expect_class.erase(0, 1);
    } else if (k == "end") {
      ended = true;
    } else {
      *error = "unknown line: " + line;
      return false;
    }
    if (l.fail() && k != "expect") {
      *error = "bad line: " + line;
      return false;
    }
  }
  if (!ended) {
    *error = "truncated plan";
    return false;
  }
  return true;
}
} // namespace sim
