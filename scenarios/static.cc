// The static index: SimpleBuilder, SimpleWarren, update transactions on an
// existing index, recovery of an update that a crash interrupted, and readers.
//
// Updates follow one another (the code allows one at a time), so the model is a
// list of the pieces of text that are in the index.  What a crash interrupted
// is resolved the way a two-phase coordinator would: a piece whose commit had
// begun is committed, one that had voted ready may go either way, and anything
// else is rolled back.
#include "common.h"

#include <algorithm>
#include <cstring>

#include "src/dna.h"
#include "src/fastid_txt.h"
#include "src/recipe.h"
#include "src/simple_builder.h"
#include "src/simple_idx.h"

using namespace cottontail;
using namespace scen;
using sim::Op;
using sim::Plan;
using sim::Rng;

namespace {

enum Kind { K_PIECE = 1, K_UPDATE, K_READ, K_TABLE };
enum End { END_COMMIT, END_ABORT_EARLY, END_ABORT_LATE, END_ABANDON };
enum State { ST_NONE, ST_OPEN, ST_READY, ST_COMMITTING, ST_COMMITTED,
             ST_ABORTING, ST_ABORTED };
enum { U_PEEK_OPEN = 1, U_RIVAL = 2, U_PEEK_READY = 4, U_PEEK_EARLY = 8,
       U_FRESH = 16, U_TWICE = 32 };

const int MAX_PIECE = 400;
const char *BURROW = "static";

struct JPiece {
  int state, decision; // decision: 1 commit, 2 abort
  int next;
  struct {
    addr p;
    fval v;
  } ext[4];
};
struct Journal {
  int built; // 1 begun, 2 acknowledged
  int fired;
  int order[MAX_PIECE], committed;
  JPiece t[MAX_PIECE];
  char ids[64], ids_tried[64]; // what ids are
  int table;                   // one has been made
};
static_assert(sizeof(Journal) < sim::JOURNAL_SIZE, "journal too small");

const char *vocabulary[] = {"alpha", "beta", "gamma", "delta",
                            "eps",   "zeta", "eta",   "theta"};
const char *ann_names[] = {"A:", "B:", "C:"};

struct Ann {
  int f;
  addr p, q;
  fval v;
};
struct Piece {
  int id = 0;
  std::vector<std::string> texts;
  std::vector<int> counts;
  std::vector<std::string> words;
  std::vector<size_t> starts;
  std::string raw;
  std::vector<Ann> anns;
  int ext = 0;
  addr n() const { return (addr)words.size(); }
};
struct Placed {
  addr base;
  int id;
};

struct State_ {
  const Plan *plan;
  int inc;
  Journal *j;
  std::map<int, Piece> pieces;
  std::map<std::string, addr> features;
  W warren; // the one that updates
  bool unresolved = false; // an update, as its recovery failed
};
State_ *G;

addr F(const std::string &name) {
  auto it = G->features.find(name);
  if (it == G->features.end())
    sim::internal("feature %s was not prepared", name.c_str());
  return it->second;
}

Piece make_piece(int id, int64_t shape, uint64_t seed, bool odd) {
  Piece c;
  Rng r(seed);
  c.id = id;
  addr n;
  bool bulky = false;
  switch (shape & 7) {
  case 0:
    n = r.range(1, 6);
    break;
  case 1:
    n = r.range(7, 40);
    break;
  case 2:
    n = r.range(60, 250);
    break;
  default:
    n = r.range(100, 500);
    bulky = true;
  }
  static const char *seps[] = {" ", " ", " ", ", ", "\n", "  ", ". ", "\t"};
  static const char *tails[] = {"", " ", "\n", ".", ".\n"};
  int texts = (int)r.range(1, n < 3 ? 1 : 4);
  for (int t = 0; t < texts; t++) {
    addr m = t == texts - 1 ? n - (addr)c.words.size()
                            : r.range(0, (n - (addr)c.words.size()) / 2);
    if (t == 0 && m == 0)
      m = 1;
    std::string text;
    for (addr i = 0; i < m; i++) {
      std::string w = c.words.empty() ? "u" + std::to_string(id) + "z"
                                      : vocabulary[r.next() % 8];
      if (bulky && r.chance(900) && !c.words.empty())
        w += std::string((size_t)r.range(30, 90), (char)('a' + r.next() % 26));
      c.starts.push_back(c.raw.size() + text.size());
      c.words.push_back(w);
      text += w;
      if (i + 1 < m)
        separate(&text, seps[r.next() % 8], odd);
    }
    if (m == 0)
      text = r.chance(500) ? "" : ". \n";
    else
      text += tails[r.next() % 5];
    c.texts.push_back(text);
    c.counts.push_back((int)m);
    c.raw += text;
    if (!text.empty() && !separator(text.back()))
      c.raw += "\n";
  }
  // no two annotations of a feature start or end together, and none nest
  for (int f = 0; f < 3; f++) {
    int k = (int)r.range(0, 4);
    addr p = 0, last = -1;
    for (int i = 0; i < k; i++) {
      p += (i ? 1 : 0) + r.range(0, 3);
      addr q = std::max(last + 1, p) + (f == 1 ? 0 : r.range(0, 5));
      if (p >= n || q >= n)
        break;
      last = q;
      c.anns.push_back({f, p, q, r.chance(300) ? 0.0
                                               : (fval)(id * 100 + i + 1)});
    }
  }
  c.ext = (int)r.range(0, 3);
  return c;
}

std::vector<Placed> layout() {
  std::vector<Placed> v;
  addr base = 0;
  for (int i = 0; i < G->j->committed; i++) {
    const Piece &c = G->pieces.at(G->j->order[i]);
    v.push_back({base, c.id});
    base += c.n();
  }
  return v;
}

addr size_of(const std::vector<Placed> &v) {
  return v.empty() ? 0 : v.back().base + G->pieces.at(v.back().id).n();
}

std::string want_text(const std::vector<Placed> &v, addr p, addr q) {
  std::string out;
  for (auto &t : v) {
    const Piece &c = G->pieces.at(t.id);
    addr a = std::max(p, t.base), b = std::min(q, t.base + c.n() - 1);
    if (a > b)
      continue;
    size_t from = c.starts[(size_t)(a - t.base)];
    size_t to = b == t.base + c.n() - 1 ? c.raw.size()
                                        : c.starts[(size_t)(b - t.base + 1)];
    out += c.raw.substr(from, to - from);
  }
  return out;
}

void check_text(W w, const std::vector<Placed> &v, addr p, addr q) {
  std::string got = w->txt()->translate(p, q);
  Quiet _;
  compare_text(p, q, got, want_text(v, p, q));
}

std::vector<Want> want_word(const std::vector<Placed> &v,
                            const std::string &word) {
  std::vector<Want> out;
  for (auto &t : v) {
    const Piece &c = G->pieces.at(t.id);
    for (addr i = 0; i < c.n(); i++)
      if (c.words[(size_t)i] == word)
        out.push_back({t.base + i, t.base + i, 0.0});
  }
  return out;
}

std::vector<Want> want_ann(const std::vector<Placed> &v, int f) {
  std::vector<Want> out;
  for (auto &t : v) {
    const Piece &c = G->pieces.at(t.id);
    if (f < 3) {
      for (auto &a : c.anns)
        if (a.f == f)
          out.push_back({t.base + a.p, t.base + a.q, a.v});
    } else {
      JPiece &j = G->j->t[t.id];
      for (int i = 0; i < j.next; i++)
        out.push_back({j.ext[i].p, j.ext[i].p, j.ext[i].v});
    }
  }
  std::sort(out.begin(), out.end(),
            [](const Want &a, const Want &b) { return a.p < b.p; });
  return out;
}

void check_feature(W w, const std::vector<Placed> &v, const std::string &name,
                   const std::vector<Want> &want, Rng &r) {
  addr feature = F(name);
  bool count_first = r.chance(300);
  if (count_first && w->idx()->count(feature) != (addr)want.size())
    sim::fail("count", "%s is counted %ld times instead of %zu", name.c_str(),
              w->idx()->count(feature), want.size());
  std::unique_ptr<Hopper> h = w->idx()->hopper(feature);
  if (h == nullptr)
    sim::fail("operation-failed", "no hopper for %s", name.c_str());
  std::vector<Ivl> got = solutions(h.get(), (int)(r.next() % 4));
  compare(name.c_str(), got, want);
  probe_hopper(name.c_str(), h.get(), want, r, 4);
  for (auto &i : want) // what a table of ids would hold
    if (r.chance(want.size() < 8 ? 300 : 30))
      check_text(w, v, i.p, i.q);
  if (!count_first && w->idx()->count(feature) != (addr)want.size())
    sim::fail("count", "%s is counted %ld times instead of %zu", name.c_str(),
              w->idx()->count(feature), want.size());
}

// w is a started warren that has to show exactly v
void audit(W w, const std::vector<Placed> &v, uint64_t seed, bool strict) {
  Rng r(seed);
  addr n = size_of(v);
  for (int step = 0; step < (strict ? 14 : 5); step++) {
    int what = strict ? step : (int)r.range(0, 13);
    if (what < 8) {
      std::vector<Want> want;
      {
        Quiet _;
        want = want_word(v, vocabulary[what]);
      }
      check_feature(w, v, vocabulary[what], want, r);
    } else if (what < 12) {
      std::vector<Want> want;
      {
        Quiet _;
        want = want_ann(v, what - 8);
      }
      check_feature(w, v, what < 11 ? ann_names[what - 8] : "X:", want, r);
    } else if (what == 12) {
      addr p = -1, q = -1;
      bool some = w->txt()->range(&p, &q);
      if (some != (n > 0) || (some && (p != 0 || q != n - 1)))
        sim::fail("range", "content range is [%ld,%ld], should be [0,%ld]", p,
                  q, n - 1);
      if (w->txt()->tokens() != n)
        sim::fail("tokens", "%ld tokens instead of %ld", w->txt()->tokens(), n);
    } else {
      for (auto &t : v)
        if (strict || r.chance(300)) {
          std::vector<Want> want;
          std::string word;
          {
            Quiet _;
            word = G->pieces.at(t.id).words[0];
            want = want_word(v, word);
          }
          check_feature(w, v, word, want, r);
          check_text(w, v, t.base, t.base + G->pieces.at(t.id).n() - 1);
        }
    }
    if (n > 0)
      for (int i = 0; i < 2; i++) {
        addr p = r.range(0, n - 1), q = std::min(n - 1, p + r.range(0, 30));
        if (r.chance(100))
          p = 0, q = n - 1;
        if (r.chance(100))
          q = n + r.range(0, 5);
        check_text(w, v, p, q);
        if (q + 1 < n && r.chance(600)) // where the last one stopped
          check_text(w, v, q + 1, std::min(n - 1, q + r.range(1, 20)));
      }
  }
}

W open_static(const char *when) {
  std::string error;
  W w = Warren::make(BURROW, &error);
  if (w == nullptr && !sim::error_fired())
    sim::fail("cannot-open", "the index does not open %s: %s", when,
              error.c_str());
  return w;
}

// open the index anew; it has to show what has been committed
void peek(uint64_t seed, bool strict, const char *when) {
  W w = open_static(when);
  if (w == nullptr)
    return;
  w->start();
  audit(w, layout(), seed, strict);
  w->end();
}

bool add_piece(const Piece &c, Appender *appender, Annotator *annotator,
               Builder *builder, addr base, bool building = false) {
  std::string error;
  addr next = base;
  for (size_t i = 0; i < c.texts.size(); i++) {
    addr p, q;
    bool ok = builder ? builder->add_text(c.texts[i], &p, &q, &error)
                      : appender->append(c.texts[i], &p, &q, &error);
    expect_ok(ok, "adding text", error);
    if (!ok)
      return false;
    Quiet _;
    if (c.counts[i] > 0 ? p != next || q != next + c.counts[i] - 1
                        : p != q + 1)
      sim::fail("address", "text %zu of piece %d, of %d tokens, is at [%ld,%ld]"
                           " instead of %ld", i, c.id, c.counts[i], p, q, next);
    next += c.counts[i];
  }
  auto ann = [&](const std::string &name, addr p, addr q, fval v) {
    bool ok = builder ? builder->add_annotation(name, p, q, v, &error)
                      : annotator->annotate(F(name), p, q, v, &error);
    expect_ok(ok, "annotate", error);
    return ok;
  };
  for (auto &a : c.anns)
    if (!ann(ann_names[a.f], base + a.p, base + a.q, a.v))
      return false;
  if (building)
    return true;
  JPiece &t = G->j->t[c.id];
  Rng r((uint64_t)c.id * 7919);
  for (int i = 0; i < c.ext; i++) {
    addr at = r.range(0, base + c.n() - 1);
    {
      Quiet _;
      bool used = false;
      for (auto &w : want_ann(layout(), 3))
        used = used || w.p == at;
      for (int k = 0; k < t.next; k++)
        used = used || t.ext[k].p == at;
      if (used)
        continue;
      t.ext[t.next].p = at;
      t.ext[t.next].v = (fval)(c.id * 100 + 50 + i);
      t.next++;
    }
    if (!ann("X:", at, at, (fval)(c.id * 100 + 50 + i)))
      return false;
  }
  return true;
}

// Once it has voted ready an update can only be completed or undone, which is
// not a failure that can be reported: if it can't be, the process stops.  A
// lock that can't be removed is spared.
struct Spared {
  Spared() { sim::spare_removals(true); }
  ~Spared() { sim::spare_removals(false); }
};

void record_commit(int id) {
  Quiet _;
  Journal *j = G->j;
  j->t[id].state = ST_COMMITTED;
  for (int i = 0; i < j->committed; i++)
    if (j->order[i] == id)
      return;
  j->order[j->committed] = id;
  j->committed++;
}

bool recover();

void run_update(const Op &op) {
  Journal *j = G->j;
  int id = (int)op.d;
  const Piece &c = G->pieces.at(id);
  JPiece &t = j->t[id];
  if (t.state != ST_NONE)
    return;
  std::string error;
  if (G->warren == nullptr || (op.a >> 4 & U_FRESH))
    G->warren = open_static("to update it");
  if (G->warren == nullptr)
    return;
  W w = G->warren;
  int64_t flags = op.a >> 4;
  bool disturbed = false;
  auto look = [&](const char *when) {
    // whoever opens an index clears its temporary files away, even those of
    // an update in progress, which must then notice
    disturbed = true;
    peek((uint64_t)op.b + 5, false, when);
  };
  t.state = ST_OPEN;
  uint64_t since = sim::io_index();
  bool ok = w->transaction(&error);
  if (!ok && !sim::fault_near(since))
    sim::fail("operation-failed", "transaction failed: %s", error.c_str());
  if (!ok) {
    Spared _;
    t.state = ST_ABORTING;
    w->abort();
    t.state = ST_ABORTED;
    G->warren = nullptr;
    return;
  }
  if (flags & U_PEEK_EARLY)
    look("early in an update");
  addr base = size_of(layout());
  ok = add_piece(c, w->appender().get(), w->annotator().get(), nullptr, base);
  if (flags & U_PEEK_OPEN)
    look("during an update");
  if (flags & U_RIVAL) {
    disturbed = true;
    W rival = open_static("for a rival");
    if (rival != nullptr) {
      Spared _;
      if (rival->transaction(&error))
        sim::fail("two-writers", "a second update may start while one is in "
                                 "progress");
      if (op.b & 64) { // it won't be put off
        if (rival->transaction(&error))
          sim::fail("two-writers", "a second update may start when it is tried "
                                   "again");
      }
      rival->abort();
    }
  }
  auto abandon = [&]() { // drop it; the coordinator clears up
    G->warren = w = nullptr;
    recover();
  };
  if (op.c == END_ABANDON && (op.b & 1)) {
    abandon();
    return;
  }
  bool commit = ok && op.c != END_ABORT_EARLY;
  if (commit) {
    ok = w->ready(&error);
    if (!disturbed)
      expect_ok(ok, "ready", error);
    if (ok)
      t.state = ST_READY;
    commit = ok && op.c != END_ABORT_LATE;
    if (ok && (flags & U_PEEK_READY))
      look("when an update is ready");
    if (op.c == END_ABANDON) {
      abandon();
      return;
    }
  }
  if (commit) {
    Spared _;
    t.state = ST_COMMITTING;
    w->commit();
    record_commit(id);
    sim::probe(7);
  } else {
    Spared _;
    t.state = ST_ABORTING;
    w->abort();
    t.state = ST_ABORTED;
    sim::probe(ok ? 5 : 6);
  }
  if (!ok || sim::fault_near(since))
    G->warren = nullptr; // an updater that failed is not used again
  if (flags & U_TWICE)
    peek((uint64_t)op.b + 6, false, "after an update");
}

// What the tool does that makes a table of ids.
void run_table(const Op &op) {
  Quiet *quiet = new Quiet;
  std::string gcl;
  switch (op.c) {
  case 0:
  case 1:
  case 2:
    gcl = ann_names[op.c];
    break;
  case 3:
    gcl = vocabulary[op.b % 8];
    break;
  case 4:
    gcl = std::string("(... ") + vocabulary[op.b % 8] + " " +
          vocabulary[op.b / 8 % 8] + ")";
    break;
  case 5:
    gcl = "absent";
    break;
  default:
    gcl = "(";
  }
  delete quiet;
  std::string error, key = "id";
  W w = open_static("to make a table of ids");
  if (w == nullptr)
    return;
  Journal *j = G->j;
  std::string was;
  uint64_t since = sim::io_index();
  if (w->get_parameter(key, &was, &error)) {
    if (was != j->ids && was != j->ids_tried)
      sim::fail("lost-setting", "ids are said to be %s; they were set to %s",
                was.c_str(), j->ids);
    strcpy(j->ids, was.c_str());
    std::string yes, made = "fastid";
    if (j->table && w->get_parameter(made, &yes, &error) && yes != "yes")
      sim::fail("lost-setting", "a table that was made is not in use");
  } else if (j->ids[0] && !sim::fault_near(since)) {
    sim::fail("lost-setting", "it is not known what ids are: %s", error.c_str());
  }
  if (op.a < 3) {
    strcpy(j->ids_tried, gcl.c_str());
    bool ok = w->set_parameter(key, gcl, &error);
    expect_ok(ok, "setting what ids are", error);
    if (!ok)
      return;
    strcpy(j->ids, gcl.c_str());
  }
  w->start();
  if (!w->get_parameter(key, &gcl, &error))
    gcl = "";
  bool ok = fastid(w, &error);
  w->end();
  if (ok)
    j->table = 1;
  if (gcl != "(" && gcl != "")
    expect_ok(ok, "making a table of ids", error);
  else if (ok)
    sim::fail("no-error", "a table of ids is made of nothing");
  w = nullptr;
  sim::probe(ok ? 36 : 37);
  if (op.b & 64)
    peek((uint64_t)op.b + 7, false, "after making a table of ids");
}

void run_read(const Op &op) {
  W w = open_static("to read it");
  if (w == nullptr)
    return;
  w->start();
  std::vector<Placed> v = layout();
  if (op.a == 0) {
    audit(w, v, (uint64_t)op.b, op.c & 1);
    if (op.c & 2)
      audit(w, v, (uint64_t)op.b + 1, false);
  } else {
    std::vector<Client> threads;
    for (int i = 0; i < op.a; i++)
      threads.emplace_back([w, &v, &op, i] {
        std::string error;
        W c = w->clone(&error);
        if (c == nullptr)
          sim::fail("operation-failed", "clone failed: %s", error.c_str());
        audit(c, v, (uint64_t)op.b + (uint64_t)(op.c & 1 ? i : 0), op.c & 2);
        c->end();
      });
    if (op.c & 4)
      audit(w, v, (uint64_t)op.b + 9, false);
    for (auto &t : threads)
      t.join();
  }
  w->end();
}

const char *tokenizers[] = {"utf8", "ascii"};
const char *posting_compressors[] = {"null", "post", "zlib", "bad"};
const char *value_compressors[] = {"null", "zlib", "bad", "tfdf"};

// true if the index was built; false if the builder reported that it was not
bool build() {
  const Plan &p = *G->plan;
  Journal *j = G->j;
  std::string error;
  auto working = Working::mkdir(BURROW, &error);
  auto featurizer = Featurizer::make("hashing", "", &error);
  auto tokenizer = Tokenizer::make(tokenizers[p.get("tok")], "", &error);
  if (working == nullptr || featurizer == nullptr || tokenizer == nullptr)
    sim::internal("%s", error.c_str());
  auto builder = SimpleBuilder::make(
      working, featurizer, tokenizer, &error, (size_t)p.get("tok_file"),
      (size_t)p.get("ann_file"), posting_compressors[p.get("post")], "",
      value_compressors[p.get("fval")], "", value_compressors[p.get("text")],
      "");
  expect_ok(builder != nullptr, "making a builder", error);
  if (builder == nullptr)
    return false;
  std::shared_ptr<Scribe> scribe; // the builder under another interface
  if (p.get("scribe") && (scribe = Scribe::make(
                              std::shared_ptr<Builder>(builder), &error)) ==
                             nullptr)
    sim::fail("operation-failed", "making a scribe: %s", error.c_str());
  addr base = 0;
  std::vector<int> ids;
  std::vector<std::string> names;
  for (auto &op : p.ops)
    if (op.kind == K_PIECE) {
      const Piece &c = G->pieces.at((int)op.d);
      if (p.get("trec")) {
        Quiet _;
        sim::set_faults_enabled(false);
        for (auto &text : c.texts) {
          names.push_back("in" + std::to_string(names.size()));
          write_file(names.back(), text);
        }
        sim::set_faults_enabled(true);
      } else if (scribe) {
        bool ok = scribe->transaction(&error) &&
                  add_piece(c, scribe->appender().get(),
                            scribe->annotator().get(), nullptr, base, true) &&
                  scribe->ready(&error);
        expect_ok(ok, "scribing into a build", error);
        if (!ok)
          return false;
        scribe->commit();
      } else if (!add_piece(c, nullptr, nullptr, builder.get(), base, true))
        return false;
      base += c.n();
      ids.push_back(c.id);
    }
  bool ok;
  if (p.get("trec")) {
    bool absent = p.get("trec") == 2;
    if (absent)
      names.insert(names.begin() + (int)(p.get("audit") % (names.size() + 1)),
                   "absent");
    ok = build_trec(names, builder, &error);
    if (ok && absent)
      sim::fail("built-from-nothing", "a build from a file that is not there "
                                      "succeeded");
    if (!absent)
      expect_ok(ok, "building from files", error);
  } else {
    ok = scribe ? scribe->finalize(&error) : builder->finalize(&error);
    expect_ok(ok, "finalize", error);
  }
  if (!ok)
    return false;
  for (int id : ids)
    record_commit(id);
  // what is not the builder's to decide
  if (p.get("add_file") > 0) {
    std::string dna;
    std::map<std::string, std::string> warren, idx, recipe;
    if (!read_dna(working, &dna, &error) || !cook(dna, &warren, &error) ||
        !cook(warren["idx"], &idx, &error) ||
        !cook(idx["recipe"], &recipe, &error))
      return false;
    recipe["add_file_size"] = std::to_string(p.get("add_file"));
    idx["recipe"] = freeze(recipe);
    warren["idx"] = freeze(idx);
    dna = freeze(warren);
    if (!write_dna(working, dna, &error))
      return false;
  }
  j->built = 2;
  return true;
}

// What the first incarnation after a crash finds. Or false, if recovery failed
// and is left to the next one.
bool recover() {
  Journal *j = G->j;
  const Plan &p = *G->plan;
  std::string error;
  int id = 0;
  for (auto &item : G->pieces)
    if (j->t[item.first].state == ST_OPEN || j->t[item.first].state == ST_READY ||
        j->t[item.first].state == ST_COMMITTING ||
        j->t[item.first].state == ST_ABORTING) {
      if (id)
        sim::internal("two updates at once");
      id = item.first;
    }
  if (id == 0) {
    peek(p.get("audit"), true, "after a restart");
    return true;
  }
  JPiece &t = j->t[id];
  if (!t.decision) {
    if (t.state == ST_COMMITTING)
      t.decision = 1;
    else if (t.state == ST_READY)
      t.decision = p.get("resolve") ? 1 : 2;
    else
      t.decision = 2;
    // nothing has been committed, so nothing of it may be seen
    if (t.state != ST_COMMITTING)
      peek(p.get("audit") + 1, false, "before the interrupted update has been "
                                      "resolved");
    // nor does a new one start before it has been
    if (t.state == ST_READY && p.get("audit") % 3 == 0) {
      Spared _;
      W rival = open_static("before an interrupted update has been resolved");
      if (rival != nullptr) {
        if (rival->transaction(&error))
          sim::fail("two-writers", "an update may start before the one that was "
                                   "interrupted has been resolved");
        rival->abort();
        sim::probe(27);
      }
    }
  }
  Spared _;
  auto working = Working::make(BURROW, &error);
  std::string dna;
  std::string idx_name, idx_recipe, txt_name, txt_recipe;
  std::string idx_key = "idx", txt_key = "txt";
  bool ok = working != nullptr && read_dna(working, &dna, &error) &&
            name_and_recipe(dna, idx_key, &error, &idx_name, &idx_recipe) &&
            name_and_recipe(dna, txt_key, &error, &txt_name, &txt_recipe) &&
            Appender::recover(txt_name, txt_recipe, t.decision == 1, &error,
                              working) &&
            Annotator::recover(idx_name, idx_recipe, t.decision == 1, &error,
                               working);
  expect_ok(ok, "recovery", error);
  if (!ok) {
    G->unresolved = true;
    return false;
  }
  if (t.decision == 1) {
    record_commit(id);
    sim::probe(1);
  } else {
    t.state = ST_ABORTED;
    sim::probe(2);
  }
  peek(p.get("audit") + 2, true, t.decision == 1
                                     ? "after completing a commit"
                                     : "after rolling back an update");
  return true;
}

void run(sim::Ctx *ctx) {
  const Plan &plan = *ctx->plan;
  State_ state;
  G = &state;
  G->plan = &plan;
  G->inc = ctx->inc;
  G->j = (Journal *)ctx->journal;
  sim::set_error_flag(&G->j->fired);
  default_limits();
  simulation_limit[SIMULATE_RAW_CHUNK] = plan.get("chunk", 1 << 20);
  simulation_limit[SIMULATE_TXT_BLOCKING] = plan.get("block", 1024);
  {
    Quiet _;
    std::string error;
    auto f = Featurizer::make("hashing", "", &error);
    for (auto &op : plan.ops)
      if (op.kind == K_PIECE || op.kind == K_UPDATE) {
        Piece &c = G->pieces[(int)op.d];
        c = make_piece((int)op.d, op.a & 15, (uint64_t)op.b, plan.get("odd"));
        if (op.kind == K_PIECE && plan.get("trec"))
          c.anns.clear(); // files have none
      }
    for (auto word : vocabulary)
      G->features[word] = f->featurize(word);
    for (auto name : {"A:", "B:", "C:", "X:"})
      G->features[name] = f->featurize(name);
    for (auto &item : G->pieces)
      for (auto &w : item.second.words)
        if (!G->features.count(w))
          G->features[w] = f->featurize(w);
  }
  Journal *j = G->j;
  if (j->built != 2) {
    if (j->built == 1) {
      // a build was cut short: what it left must not pass for an index,
      // unless it is all there
      std::string error;
      W w = Warren::make(BURROW, &error);
      if (w != nullptr) {
        for (auto &op : plan.ops)
          if (op.kind == K_PIECE)
            record_commit((int)op.d);
        w->start();
        audit(w, layout(), plan.get("audit"), true);
        w->end();
        sim::probe(10);
        j->committed = 0;
      } else {
        sim::probe(11);
      }
      w = nullptr;
      for (auto &name : list_dir(BURROW)) // start over, in the same place
        if (name == "dna" || plan.get("wipe"))
          remove((std::string(BURROW) + "/" + name).c_str());
    }
    j->built = 1;
    if (!build()) {
      // refused: that must show
      std::string error;
      W w = Warren::make(BURROW, &error);
      if (w != nullptr && plan.get("add_file") == 0)
        sim::fail("failed-build-opens", "an index whose build failed opens");
      return;
    }
    peek(plan.get("audit") + 3, true, "after it was built");
  } else if (!recover()) {
    return;
  }
  for (auto &op : plan.ops) {
    if (op.inc != ctx->inc)
      continue;
    if (op.kind == K_UPDATE)
      run_update(op);
    else if (op.kind == K_READ)
      run_read(op);
    else if (op.kind == K_TABLE)
      run_table(op);
    if (G->unresolved)
      return;
  }
  G->warren = nullptr;
  sim::wait_idle();
  if (plan.get("given") && !sim::error_fired())
    given_back(BURROW, [] { peek(G->plan->get("audit") + 4, true, "at the end"); });
  else
    peek(plan.get("audit") + 4, true, "at the end");
  if (sim::wait_idle() || sim::live_background())
    sim::fail("stuck", "background threads never finish");
}

void gen(Plan *p, Rng *r, bool thorough) {
  auto preset = [&](const char *k, int64_t d) {
    auto it = p->param.find(k);
    return it == p->param.end() ? d : it->second;
  };
  auto set = [&](const char *k, int64_t v) {
    if (!p->param.count(k))
      p->param[k] = v;
  };
  p->incs = (int)preset("incs", r->range(preset("min_incs", 1), 3));
  set("tok", r->chance(900));
  set("post", r->chance(60) ? 3 : r->range(0, 2));
  set("fval", r->chance(100) ? r->range(2, 3) : r->range(0, 1));
  set("text", r->chance(60) ? 2 : r->range(0, 1));
  set("odd", r->chance(80));
  set("scribe", r->chance(300));
  set("trec", r->chance(150) ? (r->chance(200) ? 2 : 1) : 0);
  set("audit", r->range(1, 1000000));
  set("resolve", r->range(0, 1));
  set("wipe", r->range(0, 1));
  set("chunk", r->pick(std::vector<int64_t>{16, 64, 300, 1 << 20}));
  set("block", r->pick(std::vector<int64_t>{1, 4, 32, 1024}));
  set("tok_file", r->pick(std::vector<int64_t>{3, 20, 100, 1 << 20}));
  set("ann_file", r->pick(std::vector<int64_t>{1, 4, 20, 1 << 20}));
  set("add_file", r->pick(std::vector<int64_t>{0, 0, 1, 5, 30}));
  int id = 1;
  int64_t wu = preset("w_update", 10), wr = preset("w_read", 6);
  int64_t aborts = preset("aborts", 300);
  auto shape = [&]() -> int64_t {
    return r->chance((int)preset("big", 100)) ? r->range(2, 3) : r->range(0, 1);
  };
  auto op = [&](int inc, int kind) {
    Op o;
    o.inc = inc;
    o.kind = kind;
    o.b = (int64_t)(r->next() >> 20);
    return o;
  };
  for (int64_t i = r->chance(100) ? 0 : r->range(1, preset("pieces", thorough ? 12 : 6)); i > 0; i--) {
    Op o = op(0, K_PIECE);
    o.a = shape();
    o.d = id++;
    p->ops.push_back(o);
  }
  for (int inc = 0; inc < p->incs; inc++) {
    int64_t work = r->range(inc == 0 ? 0 : 1, thorough ? 12 : 7);
    for (int64_t i = 0; i < work && id < MAX_PIECE - 2; i++) {
      if (r->chance((int)preset("tables", 0))) {
        Op o = op(inc, K_TABLE);
        o.a = r->range(0, 3);
        o.c = r->chance(50) ? r->range(5, 6) : r->range(0, 4);
        p->ops.push_back(o);
      } else if (r->range(0, wu + wr - 1) < wu) {
        Op o = op(inc, K_UPDATE);
        o.a = shape();
        for (int bit = 0; bit < 6; bit++)
          if (r->chance(200))
            o.a |= 16 << bit;
        o.c = r->chance((int)aborts)
                  ? (r->chance(150)   ? END_ABANDON
                     : r->chance(500) ? END_ABORT_EARLY
                                      : END_ABORT_LATE)
                  : END_COMMIT;
        o.d = id++;
        p->ops.push_back(o);
      } else {
        Op o = op(inc, K_READ);
        o.a = r->chance((int)preset("threads", 400)) ? r->range(1, 3) : 0;
        o.c = r->range(0, 7);
        p->ops.push_back(o);
      }
    }
  }
}

const char *op_name(int kind) {
  switch (kind) {
  case K_PIECE:
    return "piece of the build";
  case K_UPDATE:
    return "update";
  case K_READ:
    return "read";
  case K_TABLE:
    return "table of ids";
  }
  return "?";
}

} // namespace

extern const sim::Scenario static_scenario;
const sim::Scenario static_scenario = {"static", gen, run, op_name};
