// Explorer, replayer and minimiser.  Never calls the code under test: every
// incarnation runs in a child forked from a pristine zygote, so that what an
// earlier run did to this process cannot influence a later one.
#include "plan.h"

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace sim;
bool remove_tree(const std::string &d);

namespace {

const size_t PLAN_MAX = 8u << 20;
char *g_plan_text;   // shared
char *g_journal;     // shared
Result *g_result;    // shared
int g_to_zygote[2], g_from_zygote[2];
std::string g_base;  // scratch parent
pid_t g_zygote = 0, g_me = 0;

volatile sig_atomic_t g_stop = 0;
void stop(int) { g_stop = 1; }

struct Request {
  int inc;
  int last;
  uint32_t len;
};

struct Body {
  Plan plan;
  Ctx ctx;
};
void body(void *v) {
  Body *b = (Body *)v;
  find_scenario(b->plan.scenario)->run(&b->ctx);
  if (b->plan.get("given") && b->plan.scenario != "server") {
    wait_idle();
    const char *what = "";
    int n = left_open(&what);
    if (n > 0)
      fail("left-open", "%d files left open, such as %s", n, what);
  }
}

// What takes long, and is the same in every run, is done before forking.
void warm(const std::string &text) {
  static std::vector<const Scenario *> done;
  size_t at = text.find("scenario ");
  if (at == std::string::npos)
    return;
  at += 9;
  const Scenario *s = find_scenario(text.substr(at, text.find('\n', at) - at));
  if (s == nullptr || s->warm == nullptr ||
      std::find(done.begin(), done.end(), s) != done.end())
    return;
  done.push_back(s);
  s->warm();
}

[[noreturn]] void zygote() {
  close(g_to_zygote[1]);
  close(g_from_zygote[0]);
  for (;;) {
    Request r;
    if (read(g_to_zygote[0], &r, sizeof r) != (ssize_t)sizeof r)
      _exit(0);
    warm(std::string(g_plan_text, r.len));
    pid_t pid = fork();
    if (pid == 0) {
      close(g_to_zygote[0]);
      close(g_from_zygote[1]);
      alarm(180);
      static Body b;
      std::string error;
      if (!b.plan.parse(std::string(g_plan_text, r.len), &error) ||
          chdir((g_base + "/r").c_str()) != 0)
        _exit(90);
      b.ctx.plan = &b.plan;
      b.ctx.inc = r.inc;
      b.ctx.last = r.last;
      b.ctx.journal = g_journal;
      Config c;
      c.inc = r.inc;
      c.seed = b.plan.seed;
      c.strategy = b.plan.explicit_schedule ? S_EXPLICIT : b.plan.strategy;
      c.gap = (uint64_t)b.plan.gap;
      c.sync_permille = (int)b.plan.sync_permille;
      c.pct_points = (int)b.plan.pct_points;
      c.pct_span = (uint64_t)b.plan.pct_span;
      c.hw = (int)b.plan.hw;
      c.max_steps = (uint64_t)b.plan.get("max_steps", 400000000);
      std::vector<Switch> sw;
      for (auto &s : b.plan.switches)
        if (s.inc == r.inc)
          sw.push_back(s);
      c.switches = sw.data();
      c.nswitches = (int)sw.size();
      c.faults = b.plan.faults.data();
      c.nfaults = (int)b.plan.faults.size();
      run_child(c, g_result, body, &b);
    }
    int status = 0;
    if (pid > 0)
      while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
        ;
    else
      status = -1;
    if (write(g_from_zygote[1], &status, sizeof status) != sizeof status)
      _exit(0);
  }
}

double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

void wipe_dir(const std::string &d) { // our own scratch only
  std::string cmd = "/bin/rm -rf '" + d + "'";
  if (d.size() < 12 || d.find("/sim.") == std::string::npos)
    abort();
  (void)!system(cmd.c_str());
}
void clear_run_dir() {
  // the run directory is flat or nearly so; avoid a process per run
  std::string d = g_base + "/r";
  std::string error;
  std::vector<std::string> stack{d};
  std::error_code ec;
  struct stat st;
  if (stat(d.c_str(), &st) == 0) {
    if (!remove_tree(d))
      wipe_dir(d);
  }
  mkdir(d.c_str(), 0700);
}

struct Stats {
  uint64_t runs = 0, incarnations = 0, faulted_runs = 0, steps = 0, sync = 0,
           switches = 0, preempt = 0, threads = 0, io = 0, allocs = 0;
  uint64_t max_threads = 0;
  double sim_seconds = 0;
  uint64_t fired[F_KINDS] = {};
  uint64_t io_count[IO_OPS] = {};
  uint64_t probes[64] = {};
  uint64_t fail_stops = 0, crashes = 0;
  std::set<uint64_t> schedules;
  std::map<std::string, uint64_t> crash_sites, error_sites;
  std::map<int, uint64_t> strategies;
  std::map<std::string, uint64_t> workloads;
};
Stats g_stats;

struct Io {
  int op;
  std::string cls;
  uint32_t size;
};
struct Outcome_ {
  bool violation = false, internal = false;
  std::string cls, msg;
  int inc = -1;
  uint64_t hash = 0, sched = 0;
  std::vector<std::vector<Io>> io;          // per incarnation
  std::vector<std::vector<Switch>> trace;
  std::vector<int> outcome;
  std::vector<uint64_t> allocs;
};

Outcome_ run_plan(const Plan &plan, bool keep_io, bool keep_trace) {
  Outcome_ out;
  std::string text = plan.print();
  if (text.size() > PLAN_MAX) {
    out.internal = true;
    out.msg = "plan too large";
    return out;
  }
  memcpy(g_plan_text, text.data(), text.size());
  clear_run_dir();
  memset(g_journal, 0, JOURNAL_SIZE);
  g_stats.runs++;
  if (!plan.faults.empty())
    g_stats.faulted_runs++;
  g_stats.strategies[plan.explicit_schedule ? S_EXPLICIT : plan.strategy]++;
  for (int inc = 0; inc < plan.incs; inc++) {
    memset(g_result, 0, offsetof(Result, trace));
    g_result->nio = 0;
    memset(g_result->probes, 0, sizeof(Result) - offsetof(Result, probes));
    Request r;
    memset(&r, 0, sizeof r);
    r.inc = inc;
    r.last = inc == plan.incs - 1;
    r.len = (uint32_t)text.size();
    int status = 0;
    if (write(g_to_zygote[1], &r, sizeof r) != (ssize_t)sizeof r ||
        read(g_from_zygote[0], &status, sizeof status) != sizeof status) {
      out.internal = true;
      out.msg = "zygote lost";
      return out;
    }
    Result *R = g_result;
    g_stats.incarnations++;
    g_stats.steps += R->steps;
    g_stats.sync += R->sync_points;
    g_stats.switches += R->switches;
    g_stats.preempt += R->preemptions;
    g_stats.threads += R->threads_created;
    g_stats.max_threads = std::max(g_stats.max_threads, R->max_threads);
    g_stats.io += R->io_ops;
    g_stats.allocs += R->allocs;
    g_stats.sim_seconds += (double)R->sim_ns * 1e-9;
    for (int i = 0; i < F_KINDS; i++)
      g_stats.fired[i] += R->fired[i];
    for (int i = 0; i < IO_OPS; i++)
      g_stats.io_count[i] += R->io_count[i];
    for (int i = 0; i < 64; i++)
      g_stats.probes[i] += R->probes[i];
    out.outcome.push_back(R->outcome);
    out.allocs.push_back(R->allocs);
    out.hash = (out.hash ^ R->hash) * 0x9E3779B97F4A7C15ull + (uint64_t)R->outcome;
    out.sched = (out.sched ^ R->sched_hash) * 0x9E3779B97F4A7C15ull;
    if (keep_io) {
      std::vector<Io> v;
      for (int i = 0; i < R->nio; i++)
        v.push_back({R->io[i].op, R->cls_name[R->io[i].cls], R->io[i].size});
      out.io.push_back(v);
    }
    if (keep_trace)
      out.trace.emplace_back(R->trace, R->trace + R->ntrace);
    if (R->crash_op && R->nio > 0) {
      const IoRec &io = R->io[R->nio - 1];
      g_stats.crash_sites[std::string(io_names[io.op]) + " " +
                          R->cls_name[io.cls]]++;
    }
    bool errors = R->fired[F_ERR] || R->fired[F_DISKFULL] || R->fired[F_ALLOC];
    switch (R->outcome) {
    case O_DONE:
      break;
    case O_CRASH:
      g_stats.crashes++;
      break;
    case O_ABORT:
      if (errors) { // stopping is a way of reporting the error
        g_stats.fail_stops++;
        break;
      }
      out.violation = true;
      out.cls = std::string(R->cls) + ": " + R->msg;
      out.msg = R->msg;
      out.inc = inc;
      break;
    case O_VIOLATION:
      out.violation = true;
      out.cls = R->cls;
      out.msg = R->msg;
      out.inc = inc;
      break;
    default:
      out.internal = true;
      out.msg = std::string("incarnation ended with status ") +
                std::to_string(status) + " " + R->msg;
    }
    if (R->escaped && !out.violation) {
      out.violation = true;
      out.cls = "escape";
      out.msg = "a file outside the burrow would have been changed";
      out.inc = inc;
    }
    if (out.violation || out.internal)
      break;
  }
  g_stats.schedules.insert(out.sched);
  return out;
}

void schedule_params(Plan *p, Rng *r) {
  int k = (int)r->range(0, 99);
  p->sync_permille = r->pick(std::vector<int64_t>{20, 100, 300, 500});
  p->gap = r->pick(std::vector<int64_t>{300, 1000, 4000, 20000});
  if (k < 25) {
    p->strategy = S_RANDOM;
  } else if (k < 45) {
    p->strategy = S_PCT;
    p->pct_points = r->range(1, 8);
    p->pct_span = r->pick(std::vector<int64_t>{5000, 50000, 300000, 1500000});
  } else if (k < 65) {
    p->strategy = S_WATCH;
    p->gap = r->pick(std::vector<int64_t>{200, 1000, 5000});
  } else if (k < 85) {
    p->strategy = S_RARE;
    p->gap = r->pick(std::vector<int64_t>{2, 5, 20});
  } else {
    p->strategy = S_COARSE;
  }
  p->hw = r->pick(std::vector<int64_t>{1, 1, 2, 2, 3, 4, 8});
}

bool mutates(int op) {
  switch (op) {
  case IO_OPEN_W:
  case IO_WRITE:
  case IO_CLOSE_W:
  case IO_LINK:
  case IO_RENAME:
  case IO_REMOVE:
  case IO_TRUNC:
  case IO_MKDIR:
  case IO_CHMOD:
  case IO_EXEC:
  case IO_SYNC:
    return true;
  }
  return false;
}

// Pick an I/O operation of incarnation inc: first a kind of site, then an
// instance of it, so that rare sites are not drowned by common ones.
bool pick_site(const Outcome_ &base, int inc, Rng *r, bool (*ok)(int),
               int64_t *at, int *op, int tails = 0) {
  if (inc >= (int)base.io.size())
    return false;
  const std::vector<Io> &v = base.io[inc];
  std::map<std::string, std::vector<int64_t>> sites;
  for (size_t i = 0; i < v.size(); i++)
    if (ok(v[i].op))
      sites[std::string(io_names[v[i].op]) + " " + v[i].cls].push_back(
          (int64_t)i);
  if (sites.empty())
    return false;
  if (r->chance(tails)) { // near the ends of files
    std::map<std::string, std::vector<int64_t>> ends;
    for (size_t i = 0; i < v.size(); i++)
      if (v[i].op == IO_CLOSE_W)
        ends[v[i].cls].push_back((int64_t)i);
    if (!ends.empty()) {
      auto it = ends.begin();
      std::advance(it, r->range(0, (int64_t)ends.size() - 1));
      *at = r->pick(it->second);
      int back = r->pick(std::vector<int>{0, 1, 1, 2});
      for (int64_t i = *at - 1; i >= 0 && back; i--)
        if (v[i].op == IO_WRITE && v[i].cls == it->first) {
          *at = i;
          back--;
        }
      *op = v[*at].op;
      return true;
    }
  }
  if (r->chance(250)) { // or any instance at all
    std::vector<int64_t> all;
    for (auto &s : sites)
      all.insert(all.end(), s.second.begin(), s.second.end());
    *at = r->pick(all);
  } else {
    auto it = sites.begin();
    std::advance(it, r->range(0, (int64_t)sites.size() - 1));
    *at = r->pick(it->second);
  }
  *op = v[*at].op;
  return true;
}

bool is_rw(int op) { return op == IO_WRITE || op == IO_READ; }

bool reads(int op) {
  return op == IO_READ || op == IO_OPEN_R || op == IO_LIST;
}

bool is_input(const std::string &cls) { return cls.compare(0, 3, "in#") == 0; }

bool add_fault(Plan *p, const Outcome_ &base, int mode, Rng *r, int inc) {
  int64_t at;
  int op;
  Fault f;
  f.inc = inc;
  std::vector<int> modes;
  for (int m = 0; m < 5; m++)
    if (mode & (1 << m))
      modes.push_back(m);
  int m = r->pick(modes);
  if (m == 0) {
    if (!pick_site(base, inc, r, mutates, &at, &op))
      return false;
    f.at = at;
    f.arg = 0;
    if (op == IO_WRITE && r->chance(400)) {
      f.kind = F_CRASH_TORN;
      f.arg = r->range(0, 999);
    } else {
      f.kind = r->chance(500) ? F_CRASH_AFTER : F_CRASH_BEFORE;
    }
  } else if (m == 1) {
    int k = (int)r->range(0, 99);
    if (k < 15) {
      if (!pick_site(base, inc, r, is_rw, &at, &op))
        return false;
      f.at = at;
      f.kind = k < 10 ? F_SHORT : F_EINTR;
      f.arg = r->range(1, 999);
      if (f.kind == F_EINTR && is_input(base.io[inc][at].cls))
        f.kind = F_SHORT; // reads of a local file are not interrupted
    } else if (k < 45) {
      // a stream tries what it could not write once more when it is closed
      if (!pick_site(base, inc, r, mutates, &at, &op, 600))
        return false;
      f.at = at;
      f.kind = F_DISKFULL;
      f.arg = r->pick(std::vector<int64_t>{1, 2, 2, 3, 5, 10, 30, 100, 100000});
    } else {
      if (!pick_site(base, inc, r, mutates, &at, &op, 200))
        return false;
      f.at = at;
      f.kind = F_ERR;
      static const std::vector<int64_t> any{EIO, ENOSPC, EACCES, EDQUOT};
      f.arg = r->pick(any);
      if (op == IO_CLOSE_W)
        f.arg = r->chance(500) ? EIO : ENOSPC;
    }
  } else if (m == 3) { // reading what the user supplies
    std::vector<int64_t> sites;
    if (inc < (int)base.io.size())
      for (size_t i = 0; i < base.io[inc].size(); i++) {
        const Io &io = base.io[inc][i];
        if ((io.op == IO_READ || io.op == IO_OPEN_R) && is_input(io.cls))
          sites.push_back((int64_t)i);
      }
    if (sites.empty())
      return false;
    f.at = r->pick(sites);
    f.kind = F_ERR;
    f.arg = READ_ERROR + r->pick(std::vector<int64_t>{EIO, EACCES, ENOMEM});
    if (base.io[inc][f.at].op == IO_READ) {
      f.arg = READ_ERROR + EIO;
      if (r->chance(300)) {
        f.kind = F_SHORT;
        f.arg = r->range(1, 999);
      }
    }
  } else if (m == 4) { // reading what the index keeps
    if (!pick_site(base, inc, r, reads, &at, &op))
      return false;
    f.at = at;
    f.kind = F_ERR;
    f.arg = OWN_ERROR +
            (op == IO_READ
                 ? EIO
                 : r->pick(std::vector<int64_t>{EIO, EMFILE, ENOMEM, EACCES}));
    if (op == IO_READ && r->chance(200)) {
      f.kind = F_SHORT;
      f.arg = r->range(1, 999);
    }
  } else {
    uint64_t n = inc < (int)base.allocs.size() ? base.allocs[inc] : 0;
    if (n == 0)
      return false;
    f.kind = F_ALLOC;
    f.at = r->range(1, (int64_t)n);
    f.arg = 0;
  }
  if (f.kind == F_ERR || f.kind == F_DISKFULL)
    g_stats.error_sites[std::string(io_names[base.io[inc][f.at].op]) + " " +
                        base.io[inc][f.at].cls]++;
  p->faults.push_back(f);
  return true;
}

uint64_t seed_of(uint64_t seed, const std::string &prop, uint64_t i) {
  uint64_t h = 1469598103934665603ull ^ seed * 0x9E3779B97F4A7C15ull;
  for (char c : prop)
    h = (h ^ (unsigned char)c) * 1099511628211ull;
  Rng r(h + i * 0xD1B54A32D192ED03ull);
  return r.next();
}

void save(const std::string &file, const std::string &text) {
  std::ofstream o(file);
  o << text;
}

std::string json_str(const std::string &s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\')
      o += '\\', o += c;
    else if ((unsigned char)c < 32)
      o += ' ';
    else
      o += c;
  }
  return o + "\"";
}
void save_stats(const std::string &file, double wall) {
  std::ostringstream o;
  Stats &s = g_stats;
  o << "{\"runs\":" << s.runs << ",\"faulted_runs\":" << s.faulted_runs
    << ",\"incarnations\":" << s.incarnations << ",\"steps\":" << s.steps
    << ",\"sync_points\":" << s.sync << ",\"switches\":" << s.switches
    << ",\"preemptions\":" << s.preempt << ",\"threads\":" << s.threads
    << ",\"max_threads\":" << s.max_threads << ",\"io_ops\":" << s.io
    << ",\"sim_seconds\":" << s.sim_seconds << ",\"crashes\":" << s.crashes
    << ",\"fail_stops\":" << s.fail_stops << ",\"wall_s\":" << wall
    << ",\"fired\":{";
  static const char *fn[] = {"none",  "crash_before", "crash_after",
                             "crash_torn", "error",   "disk_full",
                             "short", "eintr",        "alloc"};
  for (int i = 1; i < F_KINDS; i++)
    o << (i > 1 ? "," : "") << "\"" << fn[i] << "\":" << s.fired[i];
  o << "},\"io\":{";
  for (int i = 0; i < IO_OPS; i++)
    o << (i ? "," : "") << "\"" << io_names[i] << "\":" << s.io_count[i];
  o << "},\"probe_names\":{";
  bool first = true;
  for (int i = 0; i < 64; i++)
    if (s.probes[i] && probe_name(i)) {
      o << (first ? "" : ",") << json_str(probe_name(i)) << ":" << s.probes[i];
      first = false;
    }
  o << "},\"strategies\":{";
  static const char *sn[] = {"random", "pct", "watch", "rare", "coarse",
                             "explicit"};
  first = true;
  for (auto &k : s.strategies) {
    o << (first ? "" : ",") << "\"" << sn[k.first] << "\":" << k.second;
    first = false;
  }
  o << "},\"crash_sites\":{";
  first = true;
  for (auto &k : s.crash_sites) {
    o << (first ? "" : ",") << json_str(k.first) << ":" << k.second;
    first = false;
  }
  o << "},\"error_sites\":{";
  first = true;
  for (auto &k : s.error_sites) {
    o << (first ? "" : ",") << json_str(k.first) << ":" << k.second;
    first = false;
  }
  o << "},\"workloads\":{";
  first = true;
  for (auto &k : s.workloads) {
    o << (first ? "" : ",") << json_str(k.first) << ":" << k.second;
    first = false;
  }
  o << "},\"schedules\":[";
  first = true;
  for (auto h : s.schedules) {
    char b[24];
    snprintf(b, sizeof b, "%s\"%llx\"", first ? "" : ",",
             (unsigned long long)h);
    o << b;
    first = false;
  }
  o << "]}\n";
  save(file, o.str());
}

// ------------------------------------------------------------------ explore

Plan make_plan(const Property *prop, uint64_t seed, uint64_t i, bool thorough,
               Rng *r, const Work **work) {
  Plan p;
  *r = Rng(seed_of(seed, prop->id, i));
  p.property = prop->id;
  int total = 0;
  for (auto &w : prop->work)
    total += w.weight;
  int64_t k = r->range(0, total - 1);
  *work = nullptr;
  for (auto &w : prop->work)
    if (!*work && (k -= w.weight) < 0)
      *work = &w;
  p.scenario = (*work)->scenario;
  p.param = (*work)->preset;
  p.seed = r->next() >> 1;
  schedule_params(&p, r);
  find_scenario(p.scenario)->gen(&p, r, thorough);
  return p;
}

int explore(const std::string &id, uint64_t seed, int worker, int workers,
            double seconds, uint64_t max_runs, bool thorough,
            const std::string &out) {
  const Property *prop = find_property(id);
  if (!prop) {
    fprintf(stderr, "unknown property %s\n", id.c_str());
    return 2;
  }
  double t0 = now();
  int rc = 0;
  auto bad = [&](const Plan &p, const Outcome_ &o) {
    if (o.internal) {
      save(out + ".internal", o.msg + "\n" + p.print());
      fprintf(stderr, "internal: %s\n", o.msg.c_str());
      rc = 2;
      return true;
    }
    if (o.violation) {
      Plan q = p;
      q.expect_class = o.cls;
      q.expect_hash = o.hash;
      save(out + ".plan", q.print());
      save(out + ".msg", o.cls + "\n" + o.msg + "\n");
      rc = 1;
      return true;
    }
    return false;
  };
  for (uint64_t i = (uint64_t)worker; now() - t0 < seconds && !g_stop; i += workers) {
    if (max_runs && g_stats.runs >= max_runs)
      break;
    Rng r(0);
    const Work *work;
    Plan p = make_plan(prop, seed, i, thorough, &r, &work);
    g_stats.workloads[std::string(work->scenario) + "/" +
                      std::to_string(work - prop->work.data())]++;
    Outcome_ base = run_plan(p, work->fault_mode != 0, false);
    if (bad(p, base))
      break;
    if (work->fault_mode) {
      std::vector<int> live;
      for (int k = 0; k < (int)base.io.size(); k++)
        live.push_back(k);
      bool stop = false;
      for (int v = 0; v < work->variants && now() - t0 < seconds && !stop && !g_stop;
           v++) {
        Plan q = p;
        // bias to early incarnations, where the work is
        int inc = r.chance(700) ? 0 : r.pick(live);
        int n = (work->fault_mode & 2) && r.chance(250) ? 2 : 1;
        for (int k = 0; k < n; k++)
          add_fault(&q, base, work->fault_mode, &r, inc);
        if (q.faults.empty())
          continue;
        bool more = q.incs > inc + 2 && r.chance(500);
        Outcome_ o = run_plan(q, more, false);
        if (bad(q, o)) {
          stop = true;
          break;
        }
        // a second crash, often during recovery from the first
        while (more && inc + 1 < (int)o.io.size() - 1) {
          inc++;
          if (!add_fault(&q, o, work->fault_mode, &r, inc))
            break;
          more = r.chance(500);
          o = run_plan(q, more, false);
          if (bad(q, o)) {
            stop = true;
            break;
          }
        }
      }
      if (stop)
        break;
    }
  }
  save_stats(out + ".stats", now() - t0);
  return rc;
}

// ------------------------------------------------------------------- replay

bool same(const Outcome_ &o, const std::string &cls) {
  return o.violation && o.cls == cls;
}

int replay(const std::string &file, bool quiet_) {
  std::ifstream in(file);
  std::stringstream ss;
  ss << in.rdbuf();
  Plan p;
  std::string error;
  if (!p.parse(ss.str(), &error)) {
    fprintf(stderr, "%s: %s\n", file.c_str(), error.c_str());
    return 2;
  }
  bool show_io = getenv("SIM_IO") != nullptr;
  Outcome_ a = run_plan(p, show_io, false);
  Outcome_ b = run_plan(p, false, false);
  if (show_io)
    for (size_t i = 0; i < a.io.size(); i++)
      for (size_t k = 0; k < a.io[i].size(); k++)
        printf("%zu.%zu %s %s %u\n", i, k, io_names[a.io[i][k].op],
               a.io[i][k].cls.c_str(), (unsigned)a.io[i][k].size);
  if (a.internal || b.internal) {
    fprintf(stderr, "internal: %s %s\n", a.msg.c_str(), b.msg.c_str());
    return 2;
  }
  if (a.hash != b.hash || a.violation != b.violation || a.cls != b.cls) {
    fprintf(stderr, "replay diverged: %llx %s / %llx %s\n",
            (unsigned long long)a.hash, a.cls.c_str(),
            (unsigned long long)b.hash, b.cls.c_str());
    return 2;
  }
  if (getenv("SIM_VERBOSE"))
    printf("runs %llu incarnations %llu steps %llu\n",
           (unsigned long long)g_stats.runs,
           (unsigned long long)g_stats.incarnations,
           (unsigned long long)g_stats.steps);
  if (!quiet_)
    printf("hash %llx%s\n", (unsigned long long)a.hash,
           p.expect_hash == a.hash ? " (as recorded)" : "");
  if (a.violation) {
    printf("VIOLATED class=%s\n%s\n", a.cls.c_str(), a.msg.c_str());
    return 1;
  }
  printf("no violation\n");
  return 0;
}

// ----------------------------------------------------------------- minimise

int minimise(const std::string &file, const std::string &out, double seconds) {
  std::ifstream in(file);
  std::stringstream ss;
  ss << in.rdbuf();
  Plan p;
  std::string error;
  if (!p.parse(ss.str(), &error)) {
    fprintf(stderr, "%s\n", error.c_str());
    return 2;
  }
  double t0 = now();
  Outcome_ o = run_plan(p, false, false);
  if (!o.violation)
    return 2;
  std::string cls = o.cls;
  auto left = [&] { return now() - t0 < seconds; };
  auto attempt = [&](Plan &q) -> bool {
    for (int k = 0; k < 3 && left(); k++) {
      Plan t = q;
      if (k) {
        if (q.explicit_schedule)
          break;
        t.seed = q.seed + (uint64_t)k;
      }
      Outcome_ x = run_plan(t, false, false);
      if (same(x, cls)) {
        p = t;
        o = x;
        return true;
      }
    }
    return false;
  };
  // operations
  for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); left();) {
    bool any = false;
    for (size_t i = 0; i < p.ops.size() && left();) {
      Plan q = p;
      size_t n = std::min(chunk, q.ops.size() - i);
      q.ops.erase(q.ops.begin() + (long)i, q.ops.begin() + (long)(i + n));
      // a fault is placed by operation index: also try it nearby
      if (attempt(q)) {
        any = true;
      } else {
        bool moved = false;
        if (q.faults.size() == 1 && chunk <= 2)
          for (int d = 1; d <= 12 && !moved && left(); d++) {
            Plan t = q;
            t.faults[0].at -= d;
            if (t.faults[0].at < 0)
              break;
            Outcome_ x = run_plan(t, false, false);
            if (same(x, cls)) {
              p = t;
              o = x;
              moved = any = true;
            }
          }
        if (!moved)
          i += chunk;
      }
    }
    if (chunk > 1)
      chunk = chunk / 2;
    else if (!any)
      break;
  }
  // faults
  for (size_t i = 0; i < p.faults.size() && left();) {
    Plan q = p;
    q.faults.erase(q.faults.begin() + (long)i);
    if (!attempt(q))
      i++;
  }
  // simpler schedule: coarse, then explicit with as few switches as possible
  if (left()) {
    Plan q = p;
    q.strategy = S_COARSE;
    q.sync_permille = 20;
    attempt(q);
  }
  Outcome_ full = run_plan(p, false, true);
  if (same(full, cls)) {
    Plan q = p;
    q.explicit_schedule = true;
    q.switches.clear();
    for (auto &t : full.trace)
      q.switches.insert(q.switches.end(), t.begin(), t.end());
    Outcome_ x = run_plan(q, false, false);
    if (same(x, cls)) {
      p = q;
      o = x;
      for (size_t chunk = std::max<size_t>(1, p.switches.size() / 2); left();) {
        bool any = false;
        for (size_t i = 0; i < p.switches.size() && left();) {
          Plan t = p;
          size_t n = std::min(chunk, t.switches.size() - i);
          t.switches.erase(t.switches.begin() + (long)i,
                           t.switches.begin() + (long)(i + n));
          Outcome_ y = run_plan(t, false, false);
          if (same(y, cls)) {
            p = t;
            o = y;
            any = true;
          } else {
            i += chunk;
          }
        }
        if (chunk > 1)
          chunk = chunk / 2;
        else if (!any)
          break;
      }
    }
  }
  o = run_plan(p, true, false);
  if (!same(o, cls))
    return 2;
  p.expect_class = o.cls;
  p.expect_hash = o.hash;
  std::string head = "# violation: " + o.cls + "\n";
  std::istringstream m(o.msg);
  std::string line;
  while (std::getline(m, line))
    head += "# " + line + "\n";
  const Scenario *s = find_scenario(p.scenario);
  if (s->op_name)
    for (auto &op : p.ops)
      head += "# inc " + std::to_string(op.inc) + " client " +
              std::to_string(op.client) + ": " + s->op_name(op.kind) + " " +
              std::to_string(op.a) + " " + std::to_string(op.b) + " " +
              std::to_string(op.c) + " " + std::to_string(op.d) + "\n";
  for (auto &f : p.faults)
    if (f.kind != F_ALLOC && f.inc < (int)o.io.size() &&
        f.at < (int64_t)o.io[f.inc].size()) {
      const Io &io = o.io[f.inc][f.at];
      head += "# inc " + std::to_string(f.inc) + " fault at operation " +
              std::to_string(f.at) + ": " + io_names[io.op] + " " + io.cls +
              " (" + std::to_string(io.size) + " bytes)\n";
    }
  save(out, head + p.print());
  return 0;
}

// ----------------------------------------------------------------- selftest

// Same seeds twice: every run must have the same hash; prints them so that
// different worker counts and processes can be compared.
int selftest(const std::string &id, uint64_t seed, uint64_t from, uint64_t to) {
  const Property *prop = find_property(id);
  if (!prop)
    return 2;
  for (uint64_t i = from; i < to; i++) {
    Rng r(0);
    const Work *work;
    Plan p = make_plan(prop, seed, i, false, &r, &work);
    Outcome_ a = run_plan(p, true, true);
    if (a.internal) {
      printf("%llu internal %s\n", (unsigned long long)i, a.msg.c_str());
      return 2;
    }
    if (work->fault_mode) {
      add_fault(&p, a, work->fault_mode, &r, 0);
      a = run_plan(p, true, true);
    }
    Outcome_ b = run_plan(p, false, false);
    // the explicit schedule must be the same execution
    Plan q = p;
    q.explicit_schedule = true;
    q.switches.clear();
    bool whole = true;
    for (auto &t : a.trace) {
      q.switches.insert(q.switches.end(), t.begin(), t.end());
      whole = whole && t.size() < (size_t)MAX_TRACE;
    }
    Outcome_ c = whole ? run_plan(q, false, true) : a;
    if (a.hash != c.hash)
      for (size_t k = 0; k < a.trace.size() && k < c.trace.size(); k++)
        for (size_t j = 0; j < a.trace[k].size(); j++)
          if (j >= c.trace[k].size() || a.trace[k][j].step != c.trace[k][j].step ||
              a.trace[k][j].tid != c.trace[k][j].tid) {
            fprintf(stderr, "inc %zu switch %zu/%zu/%zu: step %llu to %d",
                    k, j, a.trace[k].size(), c.trace[k].size(),
                    (unsigned long long)a.trace[k][j].step,
                    a.trace[k][j].tid);
            if (j < c.trace[k].size())
              fprintf(stderr, ", explicit: step %llu to %d",
                      (unsigned long long)c.trace[k][j].step,
                      c.trace[k][j].tid);
            fprintf(stderr, "\n");
            k = a.trace.size();
            break;
          }
    printf("%llu %016llx %s%s%s\n", (unsigned long long)i,
           (unsigned long long)a.hash, a.violation ? a.cls.c_str() : "ok",
           a.hash == b.hash ? "" : " DIVERGED",
           a.hash == c.hash ? "" : " EXPLICIT-DIVERGED");
  }
  return 0;
}

} // namespace

int main(int argc, char **argv) {
  g_me = getpid();
  std::string cmd = argc > 1 ? argv[1] : "";
  const char *tmp = getenv("SIM_SCRATCH");
  std::string parent = tmp ? tmp : "/dev/shm";
  if (access(parent.c_str(), W_OK) != 0)
    parent = "/tmp";
  std::string t = parent + "/sim.XXXXXX";
  char buf[4096];
  snprintf(buf, sizeof buf, "%s", t.c_str());
  if (!mkdtemp(buf)) {
    perror("mkdtemp");
    return 2;
  }
  g_base = buf;
  g_plan_text = (char *)alloc_shared(PLAN_MAX);
  g_journal = (char *)alloc_shared(JOURNAL_SIZE);
  g_result = alloc_result();
  if (pipe(g_to_zygote) != 0 || pipe(g_from_zygote) != 0)
    return 2;
  int cpu = -1;
  if (cmd == "explore")
    cpu = atoi(argv[4]);
  if (cpu < 0)
    cpu = (int)(g_me % 8);
  cpu_set_t all;
  CPU_ZERO(&all);
  if (sched_getaffinity(0, sizeof all, &all) == 0) {
    int n = CPU_COUNT(&all), k = 0;
    for (int c = 0; c < CPU_SETSIZE; c++)
      if (CPU_ISSET(c, &all) && k++ == cpu % n) {
        cpu_set_t one;
        CPU_ZERO(&one);
        CPU_SET(c, &one);
        sched_setaffinity(0, sizeof one, &one);
        break;
      }
  }
  g_zygote = fork();
  if (g_zygote == 0)
    zygote();
  close(g_to_zygote[0]);
  close(g_from_zygote[1]);
  signal(SIGPIPE, SIG_IGN);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = ::stop;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGTERM, &sa, nullptr);
  int rc = 2;
  if (cmd == "explore" && argc >= 10) {
    rc = explore(argv[2], strtoull(argv[3], nullptr, 10), atoi(argv[4]),
                 atoi(argv[5]), atof(argv[6]), strtoull(argv[7], nullptr, 10),
                 atoi(argv[8]), argv[9]);
  } else if (cmd == "replay" && argc >= 3) {
    rc = replay(argv[2], false);
  } else if (cmd == "minimise" && argc >= 5) {
    rc = minimise(argv[2], argv[3], atof(argv[4]));
  } else if (cmd == "selftest" && argc >= 6) {
    rc = selftest(argv[2], strtoull(argv[3], nullptr, 10),
                  strtoull(argv[4], nullptr, 10),
                  strtoull(argv[5], nullptr, 10));
  } else if (cmd == "plan" && argc >= 5) {
    Rng r(0);
    const Work *work;
    Plan p = make_plan(find_property(argv[2]), strtoull(argv[3], nullptr, 10),
                       strtoull(argv[4], nullptr, 10), false, &r, &work);
    printf("%s", p.print().c_str());
    rc = 0;
  } else {
    fprintf(stderr,
            "usage: sim explore PROP SEED WORKER WORKERS SECONDS MAXRUNS "
            "THOROUGH OUT | replay FILE | minimise IN OUT SECONDS | selftest "
            "PROP SEED FROM TO | plan PROP SEED I\n");
  }
  close(g_to_zygote[1]);
  waitpid(g_zygote, nullptr, 0);
  remove_tree(g_base);
  return rc;
}

#include <dirent.h>
bool remove_tree(const std::string &d) {
  if (d.find("/sim.") == std::string::npos)
    return false;
  DIR *dir = opendir(d.c_str());
  if (!dir)
    return false;
  std::vector<std::string> names;
  while (struct dirent *e = readdir(dir))
    if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
      names.push_back(d + "/" + e->d_name);
  closedir(dir);
  bool ok = true;
  for (auto &n : names) {
    struct stat st;
    if (lstat(n.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
      ok = remove_tree(n) && ok;
    else if (unlink(n.c_str()) != 0)
      ok = false;
  }
  if (rmdir(d.c_str()) != 0)
    ok = false;
  return ok;
}
