// Statistics for ranking, annotated into an index: tf_idf_annotations and
// tf_df_annotations over everything, or tf_annotations over ranges, each by a
// client of its own.  The index is static or dynamic; in a dynamic one others
// add text meanwhile, and it is compacted.
//
// Whatever happens, the statistics of a range are there completely or not at
// all, and completely once they were said to be.
#include "common.h"

#include <algorithm>
#include <cmath>
#include <functional>

#include "src/core.h"
#include "src/ranking.h"
#include "src/simple_builder.h"
#include "src/stats.h"
#include "src/stemmer.h"
#include "src/tagging_featurizer.h"

using namespace cottontail;
using namespace scen;
using sim::Op;
using sim::Plan;
using sim::Rng;

namespace {

enum Kind { K_DOC = 1, K_STATS, K_NOISE, K_LOOK };
enum Flags { D_ALONE = 1, D_GAP = 2, D_ERASED = 4 };
enum Method { TF_IDF, TF_DF, TF_RANGES };
enum State { ST_NONE, ST_BEGUN, ST_THERE, ST_DONE };
enum Phase { PH_NONE, PH_OPEN, PH_READY, PH_COMMIT, PH_ABORT };
const int MAX_BATCH = 8, MAX_DOC = 200;
const char *names[] = {"idf", "df", "tf"};

struct Journal {
  int built, fired;
  addr p[MAX_DOC], q[MAX_DOC];
  int state[MAX_BATCH], attempts[MAX_BATCH];
  int phase, batch, before, decision; // of an update of a static index
};
static_assert(sizeof(Journal) < sim::JOURNAL_SIZE, "journal too small");

struct Doc {
  int id, batch, flags;
  std::vector<std::string> words;
  std::string text;
};

struct State_ {
  const Plan *plan;
  int inc;
  Journal *j;
  std::vector<Doc> docs;
  W base;
  std::shared_ptr<Stemmer> stemmer;
  std::shared_ptr<Featurizer> tf, df, idf, rsj, total, avgl;
};
State_ *G;

bool dynamic() { return G->plan->get("dynamic"); }
std::string place() { return dynamic() ? "stats.burrow" : "stats.static"; }
int method() { return (int)G->plan->get("method"); }

Doc make_doc(int id, int batch, int64_t length, uint64_t seed, int flags) {
  static const char *vocabulary[] = {"alpha", "beta",  "running", "runs",
                                     "cats",  "cat",   "hopping", "delta",
                                     "ponies", "relational"};
  static const char *seps[] = {" ", " ", ", ", "\n", ". "};
  Doc d;
  Rng r(seed);
  d.id = id;
  d.batch = batch;
  d.flags = flags;
  int n = length == 0 ? (int)r.range(1, 5)
                      : length == 1 ? (int)r.range(5, 40) : (int)r.range(40, 200);
  for (int i = 0; i < n; i++) {
    d.words.push_back(r.chance(30) ? "u" + std::to_string(id) + "z"
                                   : vocabulary[r.next() % 10]);
    d.text += (i ? seps[r.next() % 5] : "") + d.words.back();
  }
  d.text += "\n";
  return d;
}

// The range of a batch, which may reach further than its documents.
addr start_of(int batch) {
  for (auto &d : G->docs)
    if (d.batch == batch)
      return G->j->p[d.id];
  return -1;
}
addr end_of(int batch) {
  addr end = maxfinity;
  for (auto &d : G->docs) {
    if (d.batch == batch)
      end = G->plan->get("reach") ? maxfinity : G->j->q[d.id];
    else if (d.batch > batch && end == maxfinity && G->plan->get("reach"))
      return G->j->p[d.id] - 1;
  }
  return end;
}
bool default_range() {
  return G->plan->get("reach") == 2 && G->docs.front().batch == G->docs.back().batch;
}

// What the statistics of the given ranges look like.
std::map<addr, std::vector<Want>> expected(const std::set<int> &batches) {
  std::map<addr, std::vector<Want>> e;
  Journal *j = G->j;
  const Plan &p = *G->plan;
  auto put = [&](addr feature, addr a, addr b, fval v) {
    e[feature].push_back({a, b, v});
  };
  std::map<std::string, addr> df;
  std::map<int, addr> items, length;
  addr n = 0, all = 0;
  for (auto &d : G->docs) {
    if (!batches.count(d.batch) || (d.flags & D_ERASED))
      continue;
    std::map<std::string, addr> tf;
    for (auto &w : d.words) {
      bool stemmed = false;
      std::string stem = G->stemmer->stem(w, &stemmed);
      if (method() == TF_IDF && p.get("unstemmed")) {
        tf[w]++;
        if (stemmed)
          tf[stem]++;
      } else {
        tf[stem]++;
      }
    }
    for (auto &t : tf) {
      df[t.first]++;
      if (method() == TF_IDF)
        put(G->tf->featurize(t.first), j->p[d.id], j->q[d.id], (fval)t.second);
      else
        put(G->tf->featurize(t.first), j->p[d.id], j->p[d.id],
            addr2fval(t.second));
    }
    items[d.batch]++;
    length[d.batch] += (addr)d.words.size();
    n++;
    all += (addr)d.words.size();
  }
  if (n == 0)
    return e;
  if (method() == TF_IDF) {
    put(G->avgl->featurize("avgl"), 0, 0, 1.0 * all / n);
    for (auto &t : df) {
      if (p.get("idf"))
        put(G->idf->featurize(t.first), 0, 0, std::log((1.0 * n) / t.second));
      fval rsj = std::log((n - t.second + 0.5) / (t.second + 0.5));
      if (p.get("rsj") && rsj > 0.0)
        put(G->rsj->featurize(t.first), 0, 0, rsj);
    }
  } else if (method() == TF_DF) {
    for (auto &t : df)
      put(G->df->featurize(t.first), 0, 0, addr2fval(t.second));
    put(G->total->featurize("items"), 0, 0, addr2fval(n));
    put(G->total->featurize("length"), 0, 0, addr2fval(all));
  } else {
    for (auto &b : items) {
      addr where = default_range() ? 0 : start_of(b.first);
      put(G->total->featurize("items"), where, where,
          addr2fval(b.second));
      put(G->total->featurize("length"), where, where,
          addr2fval(length[b.first]));
    }
  }
  for (auto &item : e)
    std::sort(item.second.begin(), item.second.end(),
              [](const Want &a, const Want &b) { return a.p < b.p; });
  return e;
}

std::set<int> all_batches() {
  std::set<int> s;
  for (auto &d : G->docs)
    s.insert(d.batch);
  return s;
}

bool same(fval a, fval b) {
  return a == b || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b));
}

// w is a view begun when states were at least lo, and (now) at most those of
// the journal; quiet: nobody is making any
void look(W w, const std::vector<int> &lo, const char *when, bool quiet) {
  std::vector<int> hi;
  std::set<int> everything, there;
  std::map<addr, std::vector<Want>> all, want;
  addr sign;
  {
    Quiet _;
    hi.assign(G->j->state, G->j->state + MAX_BATCH);
    everything = all_batches();
    all = expected(everything);
    sign = method() == TF_IDF ? G->avgl->featurize("avgl")
                              : G->total->featurize("length");
  }
  std::unique_ptr<Hopper> h = w->idx()->hopper(sign);
  if (h == nullptr)
    sim::fail("operation-failed", "no hopper");
  std::set<addr> starts;
  for (auto &s : solutions(h.get()))
    starts.insert(s.p);
  {
    Quiet _;
    if (method() != TF_RANGES) {
      if (!starts.empty())
        there = everything;
      if (lo[0] >= ST_THERE && there.empty())
        sim::fail("lost-statistics", "the statistics are not there %s", when);
      if (hi[0] == ST_NONE && !there.empty())
        sim::fail("made-up", "there are statistics nobody asked for %s", when);
    } else {
      for (int b : everything) {
        bool has = starts.count(default_range() ? 0 : start_of(b));
        if (has)
          there.insert(b);
        if (!has && lo[(size_t)b] >= ST_THERE)
          sim::fail("lost-statistics",
                    "the statistics of range %d are not there %s", b, when);
        if (has && hi[(size_t)b] == ST_NONE)
          sim::fail("made-up", "range %d has statistics nobody asked for %s", b,
                    when);
      }
    }
    want = expected(there);
    sim::note(there.size());
    sim::probe(there.empty() ? 39 : 40);
  }
  for (auto &item : all) {
    h = w->idx()->hopper(item.first);
    if (h == nullptr)
      sim::fail("operation-failed", "no hopper");
    std::vector<Ivl> got = solutions(h.get(), (int)(item.first & 3));
    Quiet _;
    std::vector<Want> &wanted = want[item.first];
    bool equal = got.size() == wanted.size();
    for (size_t i = 0; equal && i < got.size(); i++)
      equal = got[i].p == wanted[i].p && got[i].q == wanted[i].q &&
              (method() == TF_IDF ? same(got[i].v, wanted[i].v)
                                  : got[i].v == wanted[i].v);
    if (!equal)
      sim::fail("partial-statistics",
                "statistics that are there %s are wrong: %zu of %zu values of "
                "one feature%s%s", when, got.size(), wanted.size(),
                got.empty() || wanted.empty() ? "" : ", the first at ",
                got.empty() || wanted.empty()
                    ? ""
                    : (std::to_string(got[0].p) + " instead of " +
                       std::to_string(wanted[0].p)).c_str());
  }
  std::string value, error;
  if (!w->get_parameter("statistics", &value, &error))
    value = "";
  Quiet _;
  if (value != "" && value != names[method()])
    sim::fail("parameter", "statistics are said to be \"%s\" %s",
              clip(value).c_str(), when);
  bool done = false;
  for (int s : lo)
    done = done || s == ST_DONE;
  if (quiet && value != "" && there.empty())
    sim::fail("parameter", "there are said to be statistics %s", when);
  if (done && value == "")
    sim::fail("parameter", "it is not known that there are statistics %s", when);
}

// What ranking sees of them.
void use(W w) {
  std::string error;
  auto stats = Stats::make(w, &error);
  if (stats == nullptr)
    sim::fail("unusable", "there are statistics, but: %s", error.c_str());
  std::set<int> everything = all_batches();
  for (int b : everything)
    if (method() == TF_RANGES && G->j->state[b] != ST_DONE)
      return;
  std::map<std::string, addr> df;
  addr n = 0, all = 0;
  for (auto &d : G->docs) {
    if (d.flags & D_ERASED)
      continue;
    std::set<std::string> s;
    for (auto &word : d.words)
      s.insert(G->stemmer->stem(word));
    for (auto &stem : s)
      df[stem]++;
    n++;
    all += (addr)d.words.size();
  }
  fval average = 1.0 * all / n;
  if (!same(stats->avgl(), average))
    sim::fail("unusable", "the average length is %g instead of %g",
              stats->avgl(), average);
  if (method() == TF_IDF && (!G->plan->get("idf") || G->plan->get("unstemmed")))
    return;
  for (int b : everything)
    if (method() != TF_IDF && G->j->attempts[b] > 1)
      return; // counts what was annotated twice twice, until it is compacted
  for (auto &t : df) {
    fval got = stats->idf(t.first), want = std::log((1.0 * n) / t.second);
    if (!same(got, want))
      sim::fail("unusable", "the weight of %s is %g instead of %g",
                t.first.c_str(), got, want);
  }
}

bool build() {
  const Plan &p = *G->plan;
  Journal *j = G->j;
  std::string error;
  if (dynamic()) {
    std::string recipe = "tokenizer:name:ascii";
    if (p.get("zlib"))
      recipe += " idx:fvalue_compressor:zlib idx:posting_compressor:post";
    auto b = Bigwig::make(place(), recipe, &error);
    if (b == nullptr)
      sim::internal("%s", error.c_str());
    bool ok = true;
    for (size_t i = 0; i < G->docs.size();) {
      size_t next = i + 1;
      if (G->docs[i].flags & D_GAP) { // addresses that nobody has
        addr p, q;
        ok = ok && b->transaction(&error) &&
             b->appender()->append("never\n", &p, &q, &error) && b->ready();
        b->abort();
      }
      if (!(G->docs[i].flags & D_ALONE))
        while (next < G->docs.size() &&
               G->docs[next].batch == G->docs[i].batch &&
               !(G->docs[next].flags & (D_ALONE | D_GAP)))
          next++;
      ok = ok && b->transaction(&error);
      for (size_t k = i; k < next; k++) {
        Doc &d = G->docs[k];
        ok = ok && b->appender()->append(d.text, &j->p[d.id], &j->q[d.id],
                                         &error) &&
             b->annotator()->annotate(b->featurizer()->featurize("doc:"),
                                      j->p[d.id], j->q[d.id], 0.0, &error);
      }
      if (!ok || !b->ready())
        sim::internal("building: %s", error.c_str());
      b->commit();
      i = next;
    }
    // where they ended up
    b->start();
    auto h = b->idx()->hopper(b->featurizer()->featurize("doc:"));
    std::vector<Ivl> all = solutions(h.get());
    h = nullptr;
    b->end();
    if (all.size() != G->docs.size())
      sim::fail("lost", "%zu of %zu documents", all.size(), G->docs.size());
    for (size_t k = 0; k < all.size(); k++) {
      j->p[G->docs[k].id] = all[k].p;
      j->q[G->docs[k].id] = all[k].q;
    }
    for (auto &d : G->docs)
      if (d.flags & D_ERASED) {
        ok = b->transaction(&error) &&
             b->annotator()->erase(j->p[d.id], j->q[d.id], &error) &&
             b->ready();
        if (!ok)
          sim::internal("building: %s", error.c_str());
        b->commit();
      }
  } else {
    auto working = Working::mkdir(place(), &error);
    auto builder = SimpleBuilder::make(
        working, Featurizer::make("hashing", "", &error),
        Tokenizer::make("ascii", "", &error), &error);
    bool ok = builder != nullptr;
    for (auto &d : G->docs)
      ok = ok && builder->add_text(d.text, &j->p[d.id], &j->q[d.id], &error) &&
           builder->add_annotation("doc:", j->p[d.id], j->q[d.id], 0.0, &error);
    if (!ok || !builder->finalize(&error))
      sim::internal("building: %s", error.c_str());
  }
  sim::wait_idle();
  W w = Warren::make(place(), &error);
  if (w == nullptr)
    sim::internal("opening: %s", error.c_str());
  w->start();
  bool ok = w->set_default_container("doc:", &error) &&
            w->set_stemmer(G->stemmer, &error);
  w->end();
  if (!ok)
    sim::internal("preparing: %s", error.c_str());
  j->built = 1;
  return true;
}

// A static index that takes note of how far an update has come, as whoever
// resolves an interrupted one must know.
class Watched : public Warren {
public:
  Watched(W w)
      : Warren(w->working(), w->featurizer(), w->tokenizer(), w->idx(),
               w->txt()),
        w_(w) {
    default_container_ = w->default_container();
    stemmer_ = w->stemmer();
    annotator_ = w->annotator();
    appender_ = w->appender();
  }

private:
  bool transaction_(std::string *error) final {
    G->j->phase = PH_OPEN;
    bool ok = w_->transaction(error);
    if (!ok)
      G->j->phase = PH_NONE;
    return ok;
  }
  bool ready_(std::string *error) final {
    bool ok = w_->ready(error);
    if (ok)
      G->j->phase = PH_READY;
    return ok;
  }
  // (Nothing can be reported if a lock can't be removed.)
  void commit_() final {
    sim::spare_removals(true);
    G->j->phase = PH_COMMIT;
    w_->commit();
    G->j->state[G->j->batch] = ST_THERE;
    G->j->phase = PH_NONE;
    sim::spare_removals(false);
  }
  void abort_() final {
    sim::spare_removals(true);
    G->j->phase = PH_ABORT;
    w_->abort();
    G->j->phase = PH_NONE;
    sim::spare_removals(false);
  }
  bool set_parameter_(const std::string &key, const std::string &value,
                      std::string *error) final {
    return w_->set_parameter(key, value, error);
  }
  bool get_parameter_(const std::string &key, std::string *value,
                      std::string *error) final {
    return w_->get_parameter(key, value, error);
  }
  W w_;
};

// Says what is to become of an interrupted update of a static index.
bool resolve() {
  Journal *j = G->j;
  std::string error;
  if (j->phase == PH_NONE)
    return true;
  if (!j->decision)
    j->decision = j->phase == PH_COMMIT ||
                          (j->phase == PH_READY && G->plan->get("resolve"))
                      ? 1
                      : 2;
  sim::spare_removals(true);
  bool commit = j->decision == 1;
  auto working = Working::make(place(), &error);
  std::string dna, idx_name, idx_recipe, txt_name, txt_recipe;
  std::string idx_key = "idx", txt_key = "txt";
  bool ok =
      working != nullptr && read_dna(working, &dna, &error) &&
      name_and_recipe(dna, idx_key, &error, &idx_name, &idx_recipe) &&
      name_and_recipe(dna, txt_key, &error, &txt_name, &txt_recipe) &&
      Appender::recover(txt_name, txt_recipe, commit, &error, working) &&
      Annotator::recover(idx_name, idx_recipe, commit, &error, working);
  sim::spare_removals(false);
  if (!ok) {
    if (!sim::error_fired())
      sim::fail("operation-failed", "recovery: %s", error.c_str());
    return false;
  }
  j->state[j->batch] = commit ? ST_THERE : j->before;
  j->phase = PH_NONE;
  j->decision = 0;
  return true;
}

void annotate(W w, const Op &op) {
  Journal *j = G->j;
  const Plan &p = *G->plan;
  int batch = method() == TF_RANGES ? (int)op.a : 0;
  addr first = 0, last = 0;
  {
    Quiet _;
    first = start_of(batch);
    last = end_of(batch);
    if (first < 0 || last < first)
      return;
    j->batch = batch;
    j->before = j->state[batch];
    if (j->state[batch] == ST_NONE)
      j->state[batch] = ST_BEGUN;
    j->attempts[batch]++;
  }
  std::string error;
  w->start();
  W inner = w;
  if (!dynamic())
    w = std::make_shared<Watched>(inner);
  if (!dynamic())
    w->start();
  bool ok = method() == TF_IDF
                ? tf_idf_annotations(w, &error, p.get("unstemmed"),
                                     p.get("idf"), p.get("rsj"))
            : method() == TF_DF ? tf_df_annotations(w, &error)
            : default_range() ? tf_annotations(w, &error)
                                : tf_annotations(w, &error, first, last);
  w->end();
  if (w != inner)
    inner->end();
  if (ok)
    j->state[batch] = ST_DONE;
  else if (!sim::error_fired())
    sim::fail("operation-failed", "making statistics: %s", error.c_str());
  sim::probe(ok ? 41 : 42);
  // either way, no transaction is left open
  if (!dynamic()) {
    if (j->phase != PH_NONE)
      sim::fail("left-open", "a transaction is left open");
  } else if (!ok) {
    uint64_t since = sim::io_index();
    if (w->transaction(&error))
      w->abort();
    else if (!sim::fault_near(since))
      sim::fail("left-open", "no transaction after one that failed: %s",
                error.c_str());
  }
}

std::vector<int> states() {
  Quiet _;
  return std::vector<int>(G->j->state, G->j->state + MAX_BATCH);
}

void inspect(W w, const char *when, bool quiet = true) {
  std::vector<int> lo = states();
  w->start();
  look(w, lo, when, quiet);
  w->end();
}

void run_client(int c) {
  W w;
  std::string error;
  for (auto &op : G->plan->ops) {
    if (op.inc != G->inc || op.client != c || op.kind == K_DOC)
      continue;
    if (w == nullptr || op.d % 3 == 0) {
      w = nullptr;
      w = dynamic() ? G->base->clone(&error) : Warren::make(place(), &error);
      if (w == nullptr) {
        if (!sim::error_fired())
          sim::fail("cannot-open", "the index does not open: %s", error.c_str());
        return;
      }
    }
    if (op.kind == K_STATS) {
      annotate(w, op);
      if (!dynamic() || sim::error_fired()) // a static index is seen as opened
        w = nullptr;
    } else if (op.kind == K_NOISE && dynamic()) {
      addr p, q;
      bool ok = w->transaction(&error);
      if (ok) {
        ok = w->appender()->append("some noise, running by\n", &p, &q, &error) &&
             w->ready();
        if (ok && op.b % 5)
          w->commit();
        else
          w->abort();
      }
      if (!ok && !sim::error_fired())
        sim::fail("operation-failed", "adding text: %s", error.c_str());
    } else if (op.kind == K_LOOK) {
      inspect(w, "for a reader", false);
    }
  }
}

void run(sim::Ctx *ctx) {
  const Plan &plan = *ctx->plan;
  State_ state;
  G = &state;
  G->plan = &plan;
  G->inc = ctx->inc;
  G->j = (Journal *)ctx->journal;
  sim::set_error_flag(&G->j->fired);
  default_limits();
  simulation_limit[SIMULATE_SMALL_SHARD] = plan.get("small", 8 << 20);
  simulation_limit[SIMULATE_MEDIUM_SHARD] = plan.get("medium", 256 << 20);
  simulation_limit[SIMULATE_LARGE_SHARD] = plan.get("large", 512 << 20);
  std::string error;
  {
    Quiet _;
    for (auto &op : plan.ops)
      if (op.kind == K_DOC && (int)G->docs.size() < MAX_DOC)
        G->docs.push_back(make_doc((int)G->docs.size(), (int)op.a, op.c,
                                   (uint64_t)op.b, (int)op.d));
    std::stable_sort(G->docs.begin(), G->docs.end(),
                     [](const Doc &a, const Doc &b) { return a.batch < b.batch; });
    bool some = false; // a batch has a document that is not erased
    for (size_t i = G->docs.size(); i-- > 0;) {
      Doc &d = G->docs[i];
      if (i + 1 == G->docs.size() || d.batch != G->docs[i + 1].batch)
        some = false;
      // The totals of a range are annotated where it begins, those of
      // everything at 0: that is not erased.
      bool first = i == 0 || G->docs[i - 1].batch != d.batch;
      if (!dynamic() || !some || first)
        d.flags &= ~D_ERASED;
      some = some || !(d.flags & D_ERASED);
    }
    G->stemmer = Stemmer::make(plan.get("stemmer") ? "porter" : "", "", &error);
    auto f = Featurizer::make("hashing", "", &error);
    G->tf = TaggingFeaturizer::make(f, "tf", &error);
    G->df = TaggingFeaturizer::make(f, "df", &error);
    G->idf = TaggingFeaturizer::make(f, "idf", &error);
    G->rsj = TaggingFeaturizer::make(f, "rsj", &error);
    G->total = TaggingFeaturizer::make(f, "total", &error);
    G->avgl = TaggingFeaturizer::make(f, "avgl", &error);
  }
  if (G->docs.empty())
    return;
  if (!G->j->built) {
    sim::set_faults_enabled(false);
    build();
    sim::wait_idle();
    sim::set_faults_enabled(true);
  }
  auto open = [&](const char *when) {
    W w = Warren::make(place(), &error);
    if (w == nullptr && !sim::error_fired())
      sim::fail("cannot-open", "the index does not open %s: %s", when,
                error.c_str());
    return w;
  };
  if (!resolve())
    return;
  if (ctx->inc > 0) {
    W w = open("after a restart");
    if (w == nullptr)
      return;
    inspect(w, "after a restart");
    sim::wait_idle();
    w = nullptr;
    sim::wait_idle();
  }
  if (dynamic()) {
    G->base = open("");
    if (G->base == nullptr)
      return;
  }
  int clients = dynamic() ? (int)plan.get("clients", 2) : 1;
  std::vector<Client> threads;
  for (int c = 0; c < clients; c++)
    threads.emplace_back([c] { run_client(c); });
  for (auto &t : threads)
    t.join();
  threads.clear();
  if (sim::wait_idle() || sim::live_background())
    sim::fail("stuck", "background threads never finish");
  if (G->base != nullptr)
    inspect(G->base, "at the end");
  sim::wait_idle();
  G->base = nullptr;
  W w = open("at the end");
  if (w == nullptr)
    return;
  inspect(w, "when opened again");
  bool done = false;
  for (int b : states())
    done = done || b == ST_DONE;
  if (done) {
    w->start();
    use(w);
    w->end();
  }
  sim::wait_idle();
}

void gen(Plan *p, Rng *r, bool thorough) {
  auto preset = [&](const char *k, int64_t d) {
    auto it = p->param.find(k);
    return it == p->param.end() ? d : it->second;
  };
  auto set = [&](const char *k, int64_t v) {
    if (!p->param.count(k))
      p->param[k] = v;
  };
  p->incs = (int)preset("incs", r->range(preset("min_incs", 1), 3));
  set("dynamic", r->chance(700));
  set("method", r->range(0, 2));
  set("unstemmed", r->range(0, 1));
  set("idf", r->chance(800));
  set("rsj", p->param["idf"] ? r->range(0, 1) : 1);
  set("reach", r->range(0, 2));
  set("resolve", r->range(0, 1));
  set("stemmer", r->range(0, 1));
  set("zlib", r->range(0, 1));
  if (r->chance(600)) {
    set("small", r->pick(std::vector<int64_t>{1, 200, 2000}));
    set("medium", r->pick(std::vector<int64_t>{1, 1000, 8000}));
    set("large", 2 * p->param["medium"]);
  }
  int batches = p->param["method"] == TF_RANGES ? (int)r->range(1, 4) : 1;
  set("clients", r->range(1, 3));
  for (int b = 0; b < batches; b++)
    for (int64_t i = r->range(1, thorough ? 12 : 6); i > 0; i--) {
      Op o;
      o.kind = K_DOC;
      o.a = b;
      o.b = (int64_t)(r->next() >> 20);
      o.c = r->chance(150) ? 2 : r->range(0, 1);
      o.d = (r->chance(400) ? D_ALONE : 0) | (r->chance(250) ? D_GAP : 0) |
            (r->chance(150) ? D_ERASED : 0);
      p->ops.push_back(o);
    }
  for (int inc = 0; inc < p->incs; inc++) {
    int64_t work = r->range(2, thorough ? 12 : 7);
    for (int64_t i = 0; i < work; i++) {
      Op o;
      o.inc = inc;
      o.b = (int64_t)(r->next() >> 20);
      o.d = r->range(0, 8);
      o.client = (int)r->range(0, p->param["clients"] - 1);
      if (r->chance(450)) {
        o.kind = K_STATS;
        o.a = r->range(0, batches - 1);
        o.client = p->param["method"] == TF_RANGES
                       ? (int)(o.a % p->param["clients"]) : 0;
      } else {
        o.kind = r->chance(500) ? K_NOISE : K_LOOK;
      }
      if (!p->param["dynamic"])
        o.client = 0;
      p->ops.push_back(o);
    }
  }
}

const char *op_name(int kind) {
  switch (kind) {
  case K_DOC:
    return "document";
  case K_STATS:
    return "statistics";
  case K_NOISE:
    return "other text";
  case K_LOOK:
    return "look";
  }
  return "?";
}

} // namespace

extern const sim::Scenario stats_scenario;
const sim::Scenario stats_scenario = {"stats", gen, run, op_name};
