// The dynamic burrow (Bigwig): transactions, started views, clones, background
// compaction into fivers and hazels, group commits, parameters, restarts.
//
// Every transaction's content is a pure function of the plan, so a small model
// (below) knows exactly what any set of present transactions must answer.  Which
// transactions have to be present in a view is decided from the recorded order
// of calls and returns; which of the undecided ones are is learned from the view
// itself and must then stay so.
#include "common.h"

#include <algorithm>
#include <cstring>
#include <new>

#include "src/dna.h"
#include "src/fiver.h"
#include "src/hazel.h"
#include "src/json_featurizer.h"
#include "src/recipe.h"

using namespace cottontail;
using namespace scen;
using sim::Op;
using sim::Plan;
using sim::Rng;

namespace {

enum Kind { K_TXN = 1, K_READ, K_PAUSE, K_MERGE, K_PARAM, K_GROUP };
enum End { END_COMMIT, END_ABORT_EARLY, END_ABORT_LATE };
enum State { ST_NONE, ST_OPEN, ST_COMMITTING, ST_ACKED, ST_ABORTED };
enum { R_HOLD = 1, R_CLONE = 2, R_CLONE_END = 4, R_THREADS = 8, R_STRICT = 16,
       R_PRECLONE = 32 };
// transaction shape bits (op.a): low 3 bits are the size class
enum { T_SOLO = 8, T_EMPTY = 16, T_READING = 32, T_EXT = 64, T_ERASE = 128,
       T_XERASE = 256, T_ANN = 512, T_SLOW = 1024 };

const int MAX_TXN = 3000;
const addr TAIL = 100000; // how far a presence annotation outlives its text
const addr SOLO_BASE = 1000000000000ll;
const int N_KEYS = 4;
const int K_CONTAINER = 3;
const int MAX_WRITES = 200;

struct JExt {
  int kind; // 1 annotation, 2 erasure
  addr p, q;
  fval v;
};
struct JTxn {
  int state, inc, group, dead;
  int known;              // base is known
  addr base;
  uint64_t ready_inv, ready_ret, commit_inv, acked;
  int seen_inc;           // some view that had finished starting by then saw it
  uint64_t seen_by;
  uint64_t unseen_after;  // (this incarnation) a view started after this did not
  int next;
  JExt ext[5];
};
struct JWrite {
  int inc;
  uint64_t inv, ret;
  int value;
  int failed;
};
struct Journal {
  int created; // 1 creation began, 2 creation was acknowledged
  int erased;  // an erasure may be in play
  int fired;   // an I/O error was injected in some incarnation
  JTxn t[MAX_TXN];
  int nw[N_KEYS];
  JWrite w[N_KEYS][MAX_WRITES];
};
static_assert(sizeof(Journal) < sim::JOURNAL_SIZE, "journal too small");

const char *vocabulary[] = {"alpha", "beta", "gamma", "delta",
                            "eps",   "zeta", "eta",   "theta"};
const char *ann_names[] = {"A:", "B:", "C:"};

struct Ann {
  int f;
  addr p, q;
  fval v;
};
struct Content {
  int id = 0;
  bool solo = false, empty = false;
  int end = END_COMMIT;
  std::vector<std::string> texts;
  std::vector<int> counts; // tokens per text
  std::vector<std::string> words;
  std::vector<size_t> starts;
  std::string raw;
  std::vector<Ann> anns;
  std::vector<std::pair<addr, addr>> erases;
  int ext_anns = 0, ext_erases = 0;
  addr n() const { return (addr)words.size(); }
};

struct Present {
  addr base;
  int id;
};
struct View {
  uint64_t s0 = 0, s1 = 0;
  bool have = false;
  std::vector<Present> texts; // by base
  std::vector<int> solos;
  std::vector<std::pair<addr, addr>> erased;
  bool any_erasure = false;
  std::map<std::string, std::vector<Ivl>> words; // visible single tokens
  std::map<std::string, addr> raw_count;
};

struct State_ {
  const Plan *plan;
  int inc;
  Journal *j;
  std::map<int, Content> content;
  W base;
  std::shared_ptr<Bigwig> bigwig;
  std::map<std::string, addr> features;
  bool merging_on = true;
  int created_txns = 0;
};
State_ *G;

addr F(const std::string &name) {
  auto it = G->features.find(name);
  if (it != G->features.end())
    return it->second;
  sim::internal("feature %s was not prepared", name.c_str());
}

// ------------------------------------------------------------------ content

std::string word_of(Rng &r) { return vocabulary[r.next() % 8]; }

Content make_content(const Plan &plan, int id, int64_t shape, uint64_t seed) {
  Content c;
  Rng r(seed);
  c.id = id;
  bool erasing = plan.get("erase") != 0;
  if (shape & T_EMPTY) {
    c.empty = true;
    return c;
  }
  if (shape & T_SOLO) {
    c.solo = true;
    return c;
  }
  addr n;
  bool bulky = false;
  switch (shape & 7) {
  case 0:
    n = r.range(1, 6);
    break;
  case 1:
    n = r.range(7, 40);
    break;
  case 2:
    n = r.range(60, 250);
    break;
  case 3:
    n = r.range(500, 1400);
    break;
  default:
    n = r.range(200, 900);
    bulky = true;
  }
  static const char *seps[] = {" ", " ", " ", ", ", "\n", "  ", ". ", "\t"};
  bool odd = plan.get("odd");
  static const char *tails[] = {"", " ", "\n", ".", ".\n"};
  int texts = (int)r.range(1, n < 3 ? 1 : 4);
  for (int t = 0; t < texts; t++) {
    addr m = t == texts - 1 ? n - (addr)c.words.size()
                            : r.range(0, (n - (addr)c.words.size()) / 2);
    if (t == 0 && m == 0)
      m = 1;
    std::string text;
    for (addr i = 0; i < m; i++) {
      std::string w = c.words.empty() ? "u" + std::to_string(id) + "z"
                                      : word_of(r);
      if (bulky && r.chance(900) && !c.words.empty())
        w += std::string((size_t)r.range(60, 140), (char)('a' + r.next() % 26));
      c.starts.push_back(c.raw.size() + text.size());
      c.words.push_back(w);
      text += w;
      if (i + 1 < m)
        separate(&text, seps[r.next() % 8], odd);
    }
    if (m == 0) // a text without any tokens in it
      text = r.chance(500) ? "" : ". \n";
    else
      text += tails[r.next() % 5];
    c.texts.push_back(text);
    c.counts.push_back((int)m);
    c.raw += text;
    if (!text.empty() && !separator(text.back()))
      c.raw += "\n";
  }
  if (!c.raw.empty() && c.raw.back() != '\n')
    c.raw += "\n";
  if (shape & T_ANN) {
    // Within one transaction no two annotations of a feature start together;
    // where erasures are in play they do not overlap at all.
    for (int f = 0; f < 3; f++) {
      int k = (int)r.range(0, 4);
      addr p = 0, last = -1;
      for (int i = 0; i < k; i++) {
        p = (erasing ? last + 1 : p + (i ? 1 : 0)) + r.range(0, 3);
        if (p >= n)
          break;
        addr q = std::min(n - 1, p + (f == 1 ? 0 : r.range(0, 12)));
        last = std::max(last, q);
        c.anns.push_back({f, p, q, r.chance(300) ? 0.0
                                                 : (fval)(id * 100 + i + 1)});
      }
    }
  }
  if (shape & T_ERASE) {
    int k = (int)r.range(1, 3);
    for (int i = 0; i < k; i++) {
      addr p = r.range(0, n - 1);
      addr q = std::min(n - 1, p + r.pick(std::vector<addr>{0, 1, 3, 10, n}));
      if (r.chance(150))
        p = 0, q = n - 1;
      c.erases.emplace_back(p, q);
    }
  }
  if (shape & T_EXT)
    c.ext_anns = (int)r.range(1, 3);
  if (shape & T_XERASE)
    c.ext_erases = (int)r.range(1, 2);
  return c;
}

const Content &content_of(int id) {
  auto it = G->content.find(id);
  if (it == G->content.end())
    sim::fail("phantom", "something claims to be transaction %d, which was "
                         "never attempted", id);
  return it->second;
}

bool before(int ia, uint64_t a, int ib, uint64_t b) {
  return ia < ib || (ia == ib && a < b);
}

std::string describe(int id) {
  JTxn &t = G->j->t[id];
  char b[256];
  static const char *names[] = {"not attempted", "open", "commit in progress",
                                "committed", "aborted"};
  snprintf(b, sizeof b, "transaction %d (%s in incarnation %d)", id,
           names[t.state], t.inc);
  return b;
}

// ------------------------------------------------------------------- oracle

// Decide whether the set of transactions a view shows is one it may show.
void judge_presence(View &v, const std::vector<Ivl> &spans,
                    const std::vector<Ivl> &solos) {
  Quiet _;
  if (sim::reading_failed())
    return; // this view can't be trusted
  Journal *j = G->j;
  std::set<int> present;
  std::vector<Present> texts;
  std::vector<int> solo_ids;
  addr last_q = minfinity;
  for (auto &s : spans) {
    int id = (int)s.v;
    const Content &c = content_of(id);
    if (c.solo || c.empty || id <= 0 || !present.insert(id).second)
      sim::fail("phantom", "transaction %d appears where it cannot", id);
    if (s.q != s.p + c.n() - 1 + TAIL)
      sim::fail("address", "transaction %d spans [%ld,%ld] but has %ld tokens",
                id, s.p, s.q - TAIL, c.n());
    if (s.p <= last_q)
      sim::fail("address", "transaction %d at %ld overlaps the one before it, "
                           "which ends at %ld", id, s.p, last_q);
    last_q = s.q - TAIL;
    texts.push_back({s.p, id});
  }
  for (auto &s : solos) {
    int id = (int)s.v;
    const Content &c = content_of(id);
    if (!c.solo || s.p != SOLO_BASE + id || s.q != s.p ||
        !present.insert(id).second)
      sim::fail("phantom", "annotation-only transaction %d at [%ld,%ld]", id,
                s.p, s.q);
    solo_ids.push_back(id);
  }
  if (v.have) {
    bool same = texts.size() == v.texts.size() && solo_ids == v.solos;
    for (size_t i = 0; same && i < texts.size(); i++)
      same = texts[i].id == v.texts[i].id && texts[i].base == v.texts[i].base;
    if (!same)
      sim::fail("snapshot", "a started view shows other transactions than it "
                            "did before: %zu+%zu, first %zu+%zu",
                texts.size(), solo_ids.size(), v.texts.size(), v.solos.size());
    return;
  }
  int inc = G->inc;
  for (auto &item : G->content) {
    int id = item.first;
    if (item.second.empty)
      continue;
    JTxn &t = j->t[id];
    bool here = present.count(id) > 0;
    if (here) {
      if (t.state == ST_NONE || t.state == ST_OPEN)
        sim::fail("uncommitted-visible", "%s is visible",
                  describe(id).c_str());
      if (t.state == ST_ABORTED)
        sim::fail("aborted-visible", "%s is visible", describe(id).c_str());
      if (t.dead)
        sim::fail("resurrected", "%s is visible again after having been found "
                                 "lost", describe(id).c_str());
      if (t.inc == inc && t.commit_inv > v.s1)
        sim::fail("future-visible", "%s is visible in a view that started "
                                    "before the commit", describe(id).c_str());
      if (t.unseen_after > v.s1)
        sim::fail("non-monotonic", "%s is visible in a view that started "
                                   "before one that does not show it",
                  describe(id).c_str());
    } else {
      if (t.state == ST_ACKED && before(t.inc, t.acked, inc, v.s0))
        sim::fail("lost-commit", "%s is missing", describe(id).c_str());
      if (t.seen_inc >= 0 && t.state != ST_NONE && t.seen_by &&
          before(t.seen_inc, t.seen_by, inc, v.s0))
        sim::fail("lost-commit", "%s was visible earlier and is missing now",
                  describe(id).c_str());
    }
  }
  // a transaction that is visible drags in all that were committed before it
  for (auto &item : G->content) {
    if (item.second.empty || !present.count(item.first))
      continue;
    JTxn &t = j->t[item.first];
    for (auto &other : G->content) {
      if (other.second.empty || present.count(other.first))
        continue;
      JTxn &o = j->t[other.first];
      if (o.state == ST_ACKED && before(o.inc, o.acked, t.inc, t.commit_inv))
        sim::fail("order", "%s is missing although %s, committed later, is "
                           "visible", describe(other.first).c_str(),
                  describe(item.first).c_str());
    }
  }
  // what a crash interrupted is decided once and for all by the first view
  for (auto &item : G->content) {
    int id = item.first;
    if (item.second.empty)
      continue;
    JTxn &t = j->t[id];
    bool here = present.count(id) > 0;
    if (t.inc < inc && (t.state == ST_COMMITTING || t.state == ST_OPEN)) {
      if (t.group && t.state == ST_COMMITTING)
        for (auto &other : G->content) {
          JTxn &o = j->t[other.first];
          if (!other.second.empty && o.group == t.group && o.inc == t.inc &&
              (present.count(other.first) > 0) != here)
            sim::fail("torn-group", "of a group committed together, %s is %s "
                                    "but %s is not", describe(id).c_str(),
                      here ? "visible" : "missing",
                      describe(other.first).c_str());
        }
    }
  }
  for (auto &item : G->content) {
    int id = item.first;
    JTxn &t = j->t[id];
    bool here = present.count(id) > 0;
    if (item.second.empty || t.inc >= inc)
      continue;
    if (t.state == ST_COMMITTING || t.state == ST_OPEN) {
      if (here) {
        t.state = ST_ACKED;
        t.acked = ~0ull;
        sim::probe(1);
      } else {
        t.dead = 1;
        sim::probe(2);
      }
    }
  }
  for (auto &p : texts) {
    JTxn &t = j->t[p.id];
    if (t.known && t.base != p.base)
      sim::fail("address", "transaction %d moved from %ld to %ld", p.id, t.base,
                p.base);
    t.known = 1;
    t.base = p.base;
  }
  // addresses follow the order in which transactions became ready
  for (auto &a : texts)
    for (auto &b : texts) {
      JTxn &x = j->t[a.id], &y = j->t[b.id];
      if (x.ready_ret && y.ready_inv &&
          before(x.inc, x.ready_ret, y.inc, y.ready_inv) && a.base > b.base)
        sim::fail("address-order", "transaction %d was ready before %d but has "
                                   "the higher address", a.id, b.id);
    }
  for (auto &item : G->content) {
    JTxn &t = j->t[item.first];
    if (item.second.empty)
      continue;
    if (present.count(item.first)) {
      if (!t.seen_by || before(inc, v.s1, t.seen_inc, t.seen_by)) {
        t.seen_inc = inc;
        t.seen_by = v.s1;
      }
    } else {
      t.unseen_after = std::max(t.unseen_after, v.s0);
    }
  }
  v.have = true;
  v.texts = texts;
  v.solos = solo_ids;
  // derive what this view must answer
  for (auto &p : v.texts) {
    const Content &c = content_of(p.id);
    for (auto &e : c.erases)
      v.erased.emplace_back(p.base + e.first, p.base + e.second);
    JTxn &t = j->t[p.id];
    for (int i = 0; i < t.next; i++)
      if (t.ext[i].kind == 2)
        v.erased.emplace_back(t.ext[i].p, t.ext[i].q);
  }
  v.any_erasure = !v.erased.empty();
  for (auto &p : v.texts) {
    const Content &c = content_of(p.id);
    for (addr i = 0; i < c.n(); i++) {
      v.raw_count[c.words[(size_t)i]]++;
      addr at = p.base + i;
      bool gone = false;
      for (auto &e : v.erased)
        if (e.first <= at && at <= e.second) {
          gone = true;
          break;
        }
      if (!gone)
        v.words[c.words[(size_t)i]].push_back({at, at, 0.0});
    }
  }
}

// What the model says a custom annotation feature must answer in a view.
std::vector<Want> want_feature(const View &v, int f, bool ext, bool txn) {
  struct Raw {
    addr p, q;
    fval v;
    size_t order;
  };
  std::vector<Raw> all;
  for (size_t i = 0; i < v.texts.size(); i++) {
    const Content &c = content_of(v.texts[i].id);
    addr base = v.texts[i].base;
    if (txn) {
      all.push_back({base, base + c.n() - 1, 0.0, i});
    } else if (ext) {
      JTxn &t = G->j->t[v.texts[i].id];
      for (int k = 0; k < t.next; k++)
        if (t.ext[k].kind == 1)
          all.push_back({t.ext[k].p, t.ext[k].q, t.ext[k].v, i});
    } else {
      for (auto &a : c.anns)
        if (a.f == f)
          all.push_back({base + a.p, base + a.q, a.v, i});
    }
  }
  std::sort(all.begin(), all.end(), [](const Raw &a, const Raw &b) {
    return a.q != b.q ? a.q < b.q : a.p != b.p ? a.p > b.p : a.order > b.order;
  });
  std::vector<Want> out;
  addr k = minfinity;
  for (auto &a : all)
    if (a.p > k) { // innermost; of equals the latest
      out.push_back({a.p, a.q, a.v});
      k = a.p;
    }
  std::vector<Want> visible;
  for (auto &w : out) {
    bool gone = false;
    for (auto &e : v.erased)
      if (e.first <= w.p && w.q <= e.second)
        gone = true;
    if (!gone)
      visible.push_back(w);
  }
  return visible;
}

void check_feature(W w, const View &v, const std::string &name, bool word, int f,
                   bool ext, bool txn, Rng &r) {
  addr feature;
  std::vector<Want> want;
  addr raw = 0;
  {
    Quiet _;
    feature = F(txn ? transaction_tag : name);
    if (word) {
      auto it = v.words.find(name);
      if (it != v.words.end())
        for (auto &i : it->second)
          want.push_back({i.p, i.q, i.v});
      auto rc = v.raw_count.find(name);
      if (rc != v.raw_count.end())
        raw = rc->second;
    } else {
      want = want_feature(v, f, ext, txn);
    }
  }
  std::unique_ptr<Hopper> h = w->idx()->hopper(feature);
  if (h == nullptr)
    sim::fail("operation-failed", "no hopper for %s", name.c_str());
  std::vector<Ivl> got = solutions(h.get(), (int)(r.next() % 4));
  compare(txn ? "transaction" : name.c_str(), got, want);
  probe_hopper(txn ? "transaction" : name.c_str(), h.get(), want, r, 4);
  if (word) {
    addr n = w->idx()->count(feature);
    if (n > raw || n < (addr)want.size())
      sim::fail("count", "%s is counted %ld times, of %zu visible and %ld "
                         "appended", name.c_str(), n, want.size(), raw);
  }
}

// expected text of [p,q], which must lie within what the view has
std::string want_text(const View &v, addr p, addr q) {
  std::string out;
  for (auto &t : v.texts) {
    const Content &c = content_of(t.id);
    addr a = std::max(p, t.base), b = std::min(q, t.base + c.n() - 1);
    if (a > b)
      continue;
    size_t from = c.starts[(size_t)(a - t.base)];
    size_t to = b == t.base + c.n() - 1 ? c.raw.size()
                                        : c.starts[(size_t)(b - t.base + 1)];
    out += c.raw.substr(from, to - from);
  }
  return out;
}

void check_text(W w, const View &v, addr p, addr q) {
  std::string got = w->txt()->translate(p, q);
  Quiet _;
  std::string want = want_text(v, p, q);
  compare_text(p, q, got, want);
}

void check_query(W w, const View &v, Rng &r) {
  std::string a, b, query;
  std::vector<Want> want;
  {
    Quiet _;
    a = word_of(r);
    b = word_of(r);
    if (a == b)
      return;
    int kind = (int)r.range(0, 2);
    auto pick = [&](const std::string &x) {
      auto it = v.words.find(x);
      return it == v.words.end() ? std::vector<Ivl>() : it->second;
    };
    std::vector<Ivl> x = pick(a), y = pick(b);
    if (kind == 0) { // both, closest together
      query = "(^ " + a + " " + b + ")";
      std::vector<std::pair<addr, int>> m;
      for (auto &i : x)
        m.emplace_back(i.p, 0);
      for (auto &i : y)
        m.emplace_back(i.p, 1);
      std::sort(m.begin(), m.end());
      for (size_t i = 0; i + 1 < m.size(); i++)
        if (m[i].second != m[i + 1].second)
          want.push_back({m[i].first, m[i + 1].first, 0.0});
    } else if (kind == 1) { // phrase
      query = "\"" + a + " " + b + "\"";
      std::set<addr> s;
      for (auto &i : y)
        s.insert(i.p);
      for (auto &i : x)
        if (s.count(i.p + 1))
          want.push_back({i.p, i.p + 1, 0.0});
    } else { // either
      query = "(+ " + a + " " + b + ")";
      std::set<addr> s;
      for (auto &i : x)
        s.insert(i.p);
      for (auto &i : y)
        s.insert(i.p);
      for (auto p : s)
        want.push_back({p, p, 0.0});
    }
  }
  std::string error;
  std::unique_ptr<Hopper> h = w->hopper_from_gcl(query, &error);
  if (h == nullptr)
    sim::fail("operation-failed", "query %s: %s", query.c_str(), error.c_str());
  std::vector<Ivl> got = solutions(h.get(), 0);
  for (auto &i : got)
    i.v = 0.0;
  compare(query.c_str(), got, want);
}

// Check everything a started view says, or a seeded part of it.
void audit(W w, View &v, uint64_t seed, bool strict) {
  Rng r(seed);
  {
    std::unique_ptr<Hopper> h = w->idx()->hopper(F("span:"));
    std::vector<Ivl> spans = solutions(h.get(), (int)(r.next() % 4));
    h = w->idx()->hopper(F("solo:"));
    std::vector<Ivl> solos = solutions(h.get(), (int)(r.next() % 4));
    judge_presence(v, spans, solos);
  }
  if (sim::reading_failed())
    return;
  sim::note(v.texts.size() * 1000003 + v.solos.size());
  if (strict)
    sim::probe(3);
  // order of the checks decides which caches are cold
  int rounds = strict ? 1 : 3;
  for (int i = 0; i < rounds; i++) {
    if (strict) {
      for (auto word : vocabulary)
        check_feature(w, v, word, true, 0, false, false, r);
      for (int f = 0; f < 3; f++)
        check_feature(w, v, ann_names[f], false, f, false, false, r);
      check_feature(w, v, "X:", false, 0, true, false, r);
      check_feature(w, v, "", false, 0, false, true, r);
      check_query(w, v, r);
    } else {
      switch (r.range(0, 5)) {
      case 0:
      case 1:
        check_feature(w, v, word_of(r), true, 0, false, false, r);
        break;
      case 2: {
        int f = (int)r.range(0, 2);
        check_feature(w, v, ann_names[f], false, f, false, false, r);
      } break;
      case 3:
        check_feature(w, v, "X:", false, 0, true, false, r);
        break;
      case 4:
        check_feature(w, v, "", false, 0, false, true, r);
        break;
      default:
        check_query(w, v, r);
      }
    }
  }
  if (v.texts.empty())
    return;
  size_t n = v.texts.size();
  for (size_t i = 0; i < (strict ? n : std::min<size_t>(2, n)); i++) {
    addr p, q;
    std::string unique;
    {
      Quiet _;
      const Present &t = v.texts[strict ? i : r.next() % n];
      const Content &c = content_of(t.id);
      p = t.base;
      q = t.base + c.n() - 1;
      if (!strict && r.chance(600)) {
        p += r.range(0, c.n() - 1);
        q = std::min(q, p + r.range(0, 20));
      }
      unique = c.words[0];
    }
    check_text(w, v, p, q);
    if (r.chance(strict ? 300 : 500))
      check_feature(w, v, unique, true, 0, false, false, r);
  }
  for (int i = 0; i < (strict ? 3 : 1); i++) { // across transactions
    addr p, q;
    {
      Quiet _;
      const Present &a = v.texts[r.next() % n], &b = v.texts[r.next() % n];
      p = a.base + r.range(0, content_of(a.id).n() - 1);
      q = b.base + r.range(0, content_of(b.id).n() - 1);
      if (p > q)
        std::swap(p, q);
      if (r.chance(200)) // possibly where nothing was kept
        q += r.range(0, 5);
      if (r.chance(100))
        p = std::max<addr>(0, p - r.range(0, 5));
      if (strict && i == 0)
        p = 0, q = v.texts.back().base + content_of(v.texts.back().id).n() + 7;
    }
    check_text(w, v, p, q);
  }
  addr p, q;
  bool some = w->txt()->range(&p, &q);
  {
    Quiet _;
    addr wp = v.texts[0].base,
         wq = v.texts.back().base + content_of(v.texts.back().id).n() - 1;
    if (!some || p != wp || q != wq)
      sim::fail("range", "content range is [%ld,%ld], should be [%ld,%ld]", p, q,
                wp, wq);
  }
  if (strict || r.chance(300)) {
    addr t = w->txt()->tokens(), want = 0;
    Quiet _;
    for (auto &x : v.texts)
      want += content_of(x.id).n();
    if (t != want)
      sim::fail("tokens", "%ld tokens are reported, there are %ld", t, want);
  }
}

void start(W w, View &v) {
  v.s0 = sim::stamp();
  w->start();
  v.s1 = sim::stamp();
}

// --------------------------------------------------------------- operations

// Fill a transaction; false if the code refused (which only errors excuse).
bool fill(W w, const Content &c, JTxn *t, uint64_t seed, bool slow) {
  std::string error;
  addr p0 = 0, next = 0;
  bool first = true;
  for (size_t i = 0; i < c.texts.size(); i++) {
    addr p, q;
    bool ok = w->appender()->append(c.texts[i], &p, &q, &error);
    expect_ok(ok, "append", error);
    if (!ok)
      return false;
    Quiet _;
    if (q - p + 1 != c.counts[i])
      sim::fail("address", "append of %d tokens returned [%ld,%ld]",
                c.counts[i], p, q);
    if (c.counts[i] > 0) {
      if (first)
        p0 = p;
      else if (p != next)
        sim::fail("address", "appends within a transaction are not contiguous: "
                             "%ld after %ld", p, next - 1);
      first = false;
      next = q + 1;
    }
    if (slow)
      sim::pause_point();
  }
  auto ann = [&](addr f, addr p, addr q, fval v) {
    bool ok = w->annotator()->annotate(f, p, q, v, &error);
    expect_ok(ok, "annotate", error);
    return ok;
  };
  if (c.solo)
    return ann(F("solo:"), SOLO_BASE + c.id, SOLO_BASE + c.id, (fval)c.id);
  if (c.empty)
    return true;
  if (!ann(F("span:"), p0, p0 + c.n() - 1 + TAIL, (fval)c.id))
    return false;
  for (auto &a : c.anns)
    if (!ann(F(ann_names[a.f]), p0 + a.p, p0 + a.q, a.v))
      return false;
  for (auto &e : c.erases) {
    bool ok = w->annotator()->erase(p0 + e.first, p0 + e.second, &error);
    expect_ok(ok, "erase", error);
    if (!ok)
      return false;
  }
  // what refers to other transactions needs their addresses, which are
  // known once a view has shown them
  Rng r(seed ^ 0xE17E);
  for (int i = 0; i < c.ext_anns + c.ext_erases; i++) {
    JExt x;
    memset(&x, 0, sizeof x);
    {
      Quiet _;
      std::vector<int> known;
      for (auto &item : G->content) {
        JTxn &o = G->j->t[item.first];
        if (o.known && !o.dead && item.second.n() > 0)
          known.push_back(item.first);
      }
      if (known.empty())
        break;
      int id = known[r.next() % known.size()];
      const Content &o = content_of(id);
      addr base = G->j->t[id].base;
      x.p = base + r.range(0, o.n() - 1);
      if (i < c.ext_anns) {
        x.kind = 1;
        x.q = x.p;
        x.v = (fval)(c.id * 100 + 50 + i);
        // one value for each place within a transaction
        bool dup = false;
        for (int k = 0; k < t->next; k++)
          dup = dup || (t->ext[k].kind == 1 && t->ext[k].p == x.p);
        if (dup)
          continue;
      } else {
        x.kind = 2;
        x.q = std::min(base + o.n() - 1,
                       x.p + r.pick(std::vector<addr>{0, 2, 8, o.n()}));
        if (r.chance(250)) {
          x.p = base;
          x.q = base + o.n() - 1;
        }
      }
      t->ext[t->next++] = x;
    }
    bool ok = x.kind == 1 ? ann(F("X:"), x.p, x.q, x.v)
                          : w->annotator()->erase(x.p, x.q, &error);
    expect_ok(ok, "annotate or erase", error);
    if (!ok)
      return false;
  }
  return true;
}

void run_txn(W w, const Op &op) {
  const Content &c = content_of((int)op.d);
  JTxn *t = &G->j->t[op.d];
  bool slow = op.a & T_SLOW;
  View v;
  bool reading = op.a & T_READING;
  if (reading) {
    start(w, v);
    audit(w, v, (uint64_t)op.b + 1, false);
  }
  std::string error;
  bool ok = w->transaction(&error);
  expect_ok(ok, "transaction", error);
  if (ok) {
    {
      Quiet _;
      t->state = ST_OPEN;
      t->inc = G->inc;
    }
    ok = fill(w, c, t, (uint64_t)op.b, slow);
    if (reading)
      audit(w, v, (uint64_t)op.b + 2, false);
    if (!ok || op.c == END_ABORT_EARLY) {
      t->state = ST_ABORTED;
      w->abort();
      sim::probe(4);
    } else {
      t->ready_inv = sim::stamp();
      ok = w->ready(&error);
      expect_ok(ok, "ready", error);
      t->ready_ret = sim::stamp();
      if (slow)
        pause(3);
      if (reading)
        audit(w, v, (uint64_t)op.b + 3, false);
      if (!ok || op.c == END_ABORT_LATE) {
        t->state = ST_ABORTED;
        w->abort();
        sim::probe(ok ? 5 : 6);
      } else {
        t->state = ST_COMMITTING;
        t->commit_inv = sim::stamp();
        w->commit();
        t->acked = sim::stamp();
        t->state = ST_ACKED;
        sim::probe(7);
      }
    }
  }
  if (reading) {
    audit(w, v, (uint64_t)op.b + 4, false);
    w->end();
  }
}

void run_group(W w, const Op &op) {
  int n = (int)op.a & 7;
  bool warrens = op.c & 1, abort_all = op.c & 2;
  std::vector<W> members;
  std::vector<std::shared_ptr<Bigwig>> bigwigs;
  std::string error;
  bool all = true;
  for (int i = 0; i < n; i++) {
    W m = i == 0 ? w : w->clone(&error);
    if (m == nullptr)
      sim::fail("operation-failed", "clone failed: %s", error.c_str());
    bool ok = m->transaction(&error);
    expect_ok(ok, "transaction", error);
    if (!ok) {
      all = false;
      break;
    }
    members.push_back(m);
    bigwigs.push_back(std::dynamic_pointer_cast<Bigwig>(m));
    int id = (int)op.d + i;
    JTxn *t = &G->j->t[id];
    {
      Quiet _;
      t->state = ST_OPEN;
      t->inc = G->inc;
      t->group = (int)op.d;
    }
    if (!fill(m, content_of(id), t, (uint64_t)op.b + (uint64_t)i, false)) {
      all = false;
      break;
    }
  }
  for (size_t i = 0; all && i < members.size(); i++) {
    JTxn *t = &G->j->t[op.d + (int)i];
    t->ready_inv = sim::stamp();
    bool ok = members[i]->ready(&error);
    expect_ok(ok, "ready", error);
    t->ready_ret = sim::stamp();
    all = all && ok;
  }
  if (!all || abort_all) {
    for (size_t i = 0; i < members.size(); i++) {
      G->j->t[op.d + (int)i].state = ST_ABORTED;
      members[i]->abort();
    }
    return;
  }
  {
    uint64_t s = sim::stamp();
    Quiet _;
    for (int i = 0; i < n; i++) {
      G->j->t[op.d + i].state = ST_COMMITTING;
      G->j->t[op.d + i].commit_inv = s;
    }
  }
  bool ok = true;
  if (warrens)
    ok = Warren::commit_all(members);
  else
    ok = Bigwig::commit_all(bigwigs);
  expect_ok(ok, "commit_all", "");
  uint64_t s = sim::stamp();
  if (ok) {
    Quiet _;
    for (int i = 0; i < n; i++) {
      G->j->t[op.d + i].acked = s;
      G->j->t[op.d + i].state = ST_ACKED;
    }
    sim::probe(8);
  } else {
    for (size_t i = 0; i < members.size(); i++) {
      G->j->t[op.d + (int)i].state = ST_ABORTED;
      members[i]->abort();
    }
    sim::probe(9);
  }
}

void run_read(W w, const Op &op) {
  View v;
  std::string error;
  W early;
  if (op.a & R_PRECLONE) {
    early = w->clone(&error);
    if (early == nullptr)
      sim::fail("operation-failed", "clone failed: %s", error.c_str());
  }
  start(w, v);
  uint64_t seed = (uint64_t)op.b;
  if (op.a & R_THREADS) {
    audit(w, v, seed, false);
    std::vector<Client> threads;
    for (int i = 0; i < 2; i++)
      threads.emplace_back([w, &v, seed, i] {
        std::string e;
        W c = w->clone(&e);
        if (c == nullptr)
          sim::fail("operation-failed", "clone failed: %s", e.c_str());
        audit(c, v, seed + 10 + (uint64_t)i * 0, false); // the same cold features
        c->end();
      });
    audit(w, v, seed + 12, false);
    for (auto &t : threads)
      t.join();
  } else {
    audit(w, v, seed, op.a & R_STRICT);
  }
  W c;
  if (op.a & R_CLONE) {
    c = w->clone(&error);
    if (c == nullptr)
      sim::fail("operation-failed", "clone failed: %s", error.c_str());
    if (!c->started())
      sim::fail("clone", "the clone of a started view is not started");
    if (op.a & R_CLONE_END)
      w->end();
  }
  if (op.a & R_HOLD) {
    pause((int)op.c);
    if (c != nullptr)
      audit(c, v, seed + 1, false);
    if (w->started())
      audit(w, v, seed + 2, op.a & R_STRICT);
  } else if (c != nullptr) {
    audit(c, v, seed + 3, false);
  }
  if (c != nullptr)
    c->end();
  if (w->started())
    w->end();
  if (early != nullptr) {
    View u;
    start(early, u);
    audit(early, u, seed + 4, false);
    early->end();
  }
}

// The last key is one that means something to the warren itself.
std::string key_name(int k) {
  if (k == K_CONTAINER)
    return "container";
  return "sim-key-" + std::to_string(k);
}
std::string value_name(int v) {
  if (v == 0)
    return "";
  std::string s = "value " + std::to_string(v);
  if (v % 3 == 0)
    s += " with \"quotes\" and [brackets]: ";
  if (v % 7 == 0)
    s += "back\\slash, 'single', and\nnewline";
  if (v % 5 == 0)
    s += std::string((size_t)(v % 90), 'x');
  return s;
}

// May a read of key k that ran in [r0,r1] of this incarnation return `got`?
void judge_param(int k, uint64_t r0, uint64_t r1, const std::string &got,
                 const char *when) {
  Quiet _;
  Journal *j = G->j;
  int inc = G->inc;
  bool initial = true;
  for (int i = 0; i < j->nw[k]; i++) {
    JWrite &w = j->w[k][i];
    if (w.ret && !w.failed && before(w.inc, w.ret, inc, r0))
      initial = false;
  }
  if (got == "" && initial)
    return;
  for (int i = 0; i < j->nw[k]; i++) {
    JWrite &w = j->w[k][i];
    if (value_name(w.value) != got)
      continue;
    if (w.inc == inc && w.inv > r1)
      continue;
    bool hidden = false;
    for (int m = 0; m < j->nw[k] && !hidden; m++) {
      JWrite &o = j->w[k][m];
      // o certainly came after w and was over before the read began
      hidden = m != i && !o.failed && o.ret && w.ret &&
               before(w.inc, w.ret, o.inc, o.inv) &&
               before(o.inc, o.ret, inc, r0);
      // a write cut short by a crash is decided by the next read
      hidden = hidden || (m != i && !w.ret && o.ret && !o.failed &&
                          w.inc < o.inc && before(o.inc, o.ret, inc, r0));
    }
    if (!hidden)
      return;
  }
  sim::fail("parameter", "parameter %d reads \"%s\" %s, which is not what was "
                         "last set", k, clip(got).c_str(), when);
}

void read_param(W w, int k, const char *when) {
  std::string got, error;
  uint64_t r0 = sim::stamp();
  bool ok = w->get_parameter(key_name(k), &got, &error);
  uint64_t r1 = sim::stamp();
  if (!ok)
    sim::fail("operation-failed", "get_parameter: %s", error.c_str());
  judge_param(k, r0, r1, got, when);
}

void run_param(W w, const Op &op) {
  int k = (int)op.a % N_KEYS;
  if (op.b == 0) {
    read_param(w, k, "in the same process");
    return;
  }
  Journal *j = G->j;
  int i;
  {
    Quiet _;
    if (j->nw[k] >= MAX_WRITES)
      return;
    i = j->nw[k]++;
    j->w[k][i].inc = G->inc;
    j->w[k][i].value = (int)op.b;
  }
  j->w[k][i].inv = sim::stamp();
  std::string error;
  bool ok = k == K_CONTAINER
                ? w->set_default_container(value_name((int)op.b), &error)
                : w->set_parameter(key_name(k), value_name((int)op.b), &error);
  expect_ok(ok, "set_parameter", error);
  if (!ok)
    j->w[k][i].failed = 1;
  j->w[k][i].ret = sim::stamp();
  read_param(w, k, "after setting it");
}

void run_client(int client) {
  std::string error;
  W w = G->base->clone(&error);
  if (w == nullptr)
    sim::fail("operation-failed", "clone failed: %s", error.c_str());
  for (auto &op : G->plan->ops) {
    if (op.inc != G->inc || op.client != client)
      continue;
    switch (op.kind) {
    case K_TXN:
      run_txn(w, op);
      break;
    case K_READ:
      run_read(w, op);
      break;
    case K_PAUSE:
      if (op.a > 0)
        std::this_thread::sleep_for(std::chrono::microseconds(op.a));
      pause((int)op.b);
      break;
    case K_MERGE: {
      auto b = std::dynamic_pointer_cast<Bigwig>(w);
      b->merge(op.a != 0);
    } break;
    case K_PARAM:
      run_param(w, op);
      break;
    case K_GROUP:
      run_group(w, op);
      break;
    }
  }
}

const char *tokenizers[] = {"utf8", "ascii"};
const char *posting_compressors[] = {"null", "post", "zlib", "bad"};
const char *value_compressors[] = {"null", "zlib", "bad", "tfdf"};

// Where the burrow is; nothing says a name is one word.
std::string place() {
  static const char *places[] = {"burrow", "a burrow", "peter's $HOME; burrow",
                                 "warren/north/burrow"};
  return places[G->plan->get("place")];
}

bool create(std::string *error) {
  const Plan &p = *G->plan;
  if (p.get("made")) {
    // out of its parts, rather than from a description of them
    auto working = Working::mkdir(place(), error);
    auto featurizer = Featurizer::make("hashing", "", error);
    if (p.get("json") && featurizer != nullptr)
      featurizer = JsonFeaturizer::make(featurizer);
    auto tokenizer = Tokenizer::make(tokenizers[p.get("tok")], "", error);
    auto posting =
        Compressor::make(posting_compressors[p.get("post")], "", error);
    auto fvalue = Compressor::make(value_compressors[p.get("fval")], "", error);
    auto text = Compressor::make(value_compressors[p.get("text")], "", error);
    if (working == nullptr || featurizer == nullptr || tokenizer == nullptr ||
        posting == nullptr || fvalue == nullptr || text == nullptr)
      return false;
    G->base = Bigwig::make(working, featurizer, tokenizer, error, nullptr,
                           posting, fvalue, text);
    return G->base != nullptr;
  }
  std::string recipe;
  auto opt = [&](const std::string &s) {
    recipe += (recipe.empty() ? "" : " ") + s;
  };
  opt(std::string("tokenizer:name:") + tokenizers[p.get("tok")]);
  opt(std::string("idx:posting_compressor:") +
      posting_compressors[p.get("post")]);
  opt(std::string("idx:fvalue_compressor:") + value_compressors[p.get("fval")]);
  opt(std::string("txt:compressor:") + value_compressors[p.get("text")]);
  if (p.get("json"))
    opt("featurizer@json");
  auto b = Bigwig::make(place(), recipe, error);
  G->base = b;
  return b != nullptr;
}

void open_burrow() {
  const Plan &p = *G->plan;
  Journal *j = G->j;
  std::string error;
  if (!p.get("durable", 1)) {
    auto featurizer = Featurizer::make("hashing", "", &error);
    auto tokenizer = Tokenizer::make(tokenizers[p.get("tok")], "", &error);
    G->base = Bigwig::make(nullptr, featurizer, tokenizer, &error);
    if (G->base == nullptr)
      sim::fail("operation-failed", "make: %s", error.c_str());
    return;
  }
  if (j->created == 2 || (j->created == 1 && exists(place() + "/dna"))) {
    G->base = p.get("reopen") ? std::static_pointer_cast<Warren>(
                                    Bigwig::make(place(), &error))
                              : Warren::make(place(), &error);
    if (G->base == nullptr && !sim::error_fired())
      sim::fail("cannot-open", "the burrow does not open: %s", error.c_str());
    if (G->base != nullptr)
      j->created = 2;
    return;
  }
  j->created = 1;
  if (create(&error))
    j->created = 2;
  else if (!sim::error_fired())
    sim::fail("cannot-create", "the burrow cannot be created: %s",
              error.c_str());
}

// When nothing is going on, compaction must have left no work it would do: no
// two hazels without a gap between them (an aborted transaction leaves one),
// and fivers only at the ends of the sequence.
bool compacted(std::string *layout) {
  struct Shard {
    long start, end;
    bool fiver;
  };
  std::vector<Shard> v;
  for (auto &name : list_dir(place()))
    if (name.compare(0, 6, "fiver.") == 0 ||
        name.compare(0, 6, "hazel.") == 0) {
      size_t dot = name.find('.', 6);
      if (dot == std::string::npos)
        continue;
      v.push_back({atol(name.c_str() + 6), atol(name.c_str() + dot + 1),
                   name[0] == 'f'});
    }
  std::sort(v.begin(), v.end(),
            [](const Shard &a, const Shard &b) { return a.start < b.start; });
  bool ok = true;
  size_t fivers = 0;
  for (size_t i = 0; i < v.size(); i++) {
    *layout += (v[i].fiver ? " fiver." : " hazel.") +
               std::to_string(v[i].start) + "-" + std::to_string(v[i].end);
    fivers += v[i].fiver;
    if (i == 0)
      continue;
    ok = ok && (v[i].fiver != v[i - 1].fiver ||
                (!v[i].fiver && v[i].start != v[i - 1].end + 1));
    if (v[i].fiver && i + 1 < v.size())
      ok = false;
  }
  return ok && (v.size() != 2 || fivers != 1);
}

void prepare(std::shared_ptr<Featurizer> f) {
  Quiet _;
  for (auto word : vocabulary)
    G->features[word] = f->featurize(word);
  for (auto name : {"A:", "B:", "C:", "X:", "span:", "solo:"})
    G->features[name] = f->featurize(name);
  G->features[transaction_tag] = f->featurize(transaction_tag);
  for (auto &item : G->content)
    for (auto &w : item.second.words)
      if (!G->features.count(w))
        G->features[w] = f->featurize(w);
}

struct Shard {
  addr start, end;
  std::string name;
};

// The shards of one kind that there are, in order, without those that others
// replace.
std::vector<Shard> shards_of(const std::string &kind) {
  std::vector<Shard> v, living;
  for (auto &name : list_dir(place())) {
    size_t dot = name.find('.', 6);
    if (name.compare(0, 6, kind + ".") == 0 && dot != std::string::npos)
      v.push_back({atol(name.c_str() + 6), atol(name.c_str() + dot + 1), name});
  }
  std::sort(v.begin(), v.end(), [](const Shard &a, const Shard &b) {
    return a.start != b.start ? a.start < b.start : a.end > b.end;
  });
  for (auto &s : v)
    if (living.empty() || s.start > living.back().end)
      living.push_back(s);
  return living;
}

// What the tools do to a burrow nobody has open (apps/fiver2hazel.cc,
// apps/merge-hazels.cc): store shards as single files, and merge those.
void compact_offline(uint64_t seed) {
  const Plan &p = *G->plan;
  Rng r(seed);
  std::string error, dna, parameters;
  auto working = Working::make(place(), &error);
  std::map<std::string, std::string> fields;
  if (working == nullptr || !read_dna(working, &dna, &error) ||
      !cook(dna, &fields, &error)) {
    if (!sim::error_fired())
      sim::fail("operation-failed", "reading about the burrow: %s",
                error.c_str());
    return;
  }
  parameters = fields["parameters"];
  auto featurizer = Featurizer::make("hashing", "", &error);
  if (p.get("json"))
    featurizer = JsonFeaturizer::make(featurizer);
  auto tokenizer = Tokenizer::make(tokenizers[p.get("tok")], "", &error);
  auto posting = Compressor::make(posting_compressors[p.get("post")], "");
  auto fvalue = Compressor::make(value_compressors[p.get("fval")], "");
  auto text = Compressor::make(value_compressors[p.get("text")], "");
  std::vector<Shard> fivers, hazels;
  bool convert = !r.chance(200), files = r.chance(500);
  {
    Quiet _;
    fivers = shards_of("fiver");
    hazels = shards_of("hazel");
  }
  if (convert)
    for (auto &f : fivers) {
      bool replaced = false;
      for (auto &h : hazels)
        replaced = replaced || (h.start <= f.end && f.start <= h.end);
      if (replaced || r.chance(50))
        continue;
      auto fiver = Fiver::unpickle(f.name, working, featurizer, tokenizer,
                                   &error, posting, fvalue, text);
      bool ok = fiver != nullptr;
      if (ok) {
        fiver->start();
        ok = fiver->hazel(&error, p.get("chunk", 64 << 10), parameters) !=
             nullptr;
        fiver->end();
      }
      if (!ok && !sim::error_fired())
        sim::fail("operation-failed", "storing %s: %s", f.name.c_str(),
                  error.c_str());
      if (!ok)
        return;
      sim::probe(24);
    }
  for (int rounds = (int)r.range(0, 2); rounds > 0; rounds--) {
    std::vector<std::string> names;
    std::string target;
    {
      Quiet _;
      hazels = shards_of("hazel");
      for (size_t i = 0; i < hazels.size(); i++) {
        if (!names.empty() && hazels[i].start != hazels[i - 1].end + 1) {
          if (names.size() > 1)
            break;
          names.clear();
        }
        if (names.size() > 1 && r.chance(150))
          break;
        names.push_back(hazels[i].name);
        char buf[80];
        size_t first = i + 1 - names.size();
        snprintf(buf, sizeof(buf), "hazel.%020ld.%020ld", hazels[first].start,
                 hazels[i].end);
        target = buf;
      }
    }
    if (names.size() < 2)
      break;
    bool ok = true;
    if (files) {
      std::vector<std::shared_ptr<Hazel>> inputs;
      for (auto &name : names) {
        auto hazel = std::dynamic_pointer_cast<Hazel>(
            Warren::make(working->make_name(name), &error));
        ok = ok && hazel != nullptr;
        inputs.push_back(hazel);
      }
      ok = ok && Hazel::merge(inputs, working->make_name(target), nullptr,
                              &error) != nullptr;
    } else
      ok = Hazel::merge(working, names, parameters, &error);
    if (!ok && !sim::error_fired())
      sim::fail("operation-failed", "merging %zu shards into %s: %s",
                names.size(), target.c_str(), error.c_str());
    if (!ok)
      return;
    sim::probe(25);
  }
  // A single file that holds everything says everything by itself. (What its
  // shards erased was left out when they were merged.)
  bool whole;
  std::string name;
  {
    Quiet _;
    fivers = shards_of("fiver");
    hazels = shards_of("hazel");
    whole = hazels.size() == 1 &&
            (!p.get("erase") || hazels[0].start < hazels[0].end);
    for (auto &f : fivers)
      whole = whole && hazels[0].start <= f.start && f.end <= hazels[0].end;
    for (auto &file : list_dir(place())) // not committed completely
      whole = whole && file.compare(0, 7, "commit.") != 0;
    if (whole)
      name = hazels[0].name;
  }
  if (!whole)
    return;
  auto hazel = Warren::make(working->make_name(name), &error);
  if (hazel == nullptr) {
    if (!sim::error_fired())
      sim::fail("cannot-open", "%s does not open: %s", name.c_str(),
                error.c_str());
    return;
  }
  prepare(hazel->featurizer());
  View v;
  start(hazel, v);
  audit(hazel, v, seed, true);
  hazel->end();
  sim::probe(26);
}

void run(sim::Ctx *ctx) {
  const Plan &plan = *ctx->plan;
  State_ state;
  G = &state;
  G->plan = &plan;
  G->inc = ctx->inc;
  G->j = (Journal *)ctx->journal;
  sim::set_error_flag(&G->j->fired);
  default_limits();
  simulation_limit[SIMULATE_SMALL_SHARD] = plan.get("small", 8 << 20);
  simulation_limit[SIMULATE_MEDIUM_SHARD] = plan.get("medium", 256 << 20);
  simulation_limit[SIMULATE_LARGE_SHARD] = plan.get("large", 512 << 20);
  simulation_limit[SIMULATE_TEXT_CHUNK] = plan.get("chunk", 64 << 10);
  {
    Quiet _;
    for (auto &op : plan.ops) {
      if (op.kind == K_TXN) {
        G->content[(int)op.d] =
            make_content(plan, (int)op.d, op.a, (uint64_t)op.b);
      } else if (op.kind == K_GROUP) {
        for (int i = 0; i < ((int)op.a & 7); i++)
          G->content[(int)op.d + i] = make_content(
              plan, (int)op.d + i, op.a >> 3, (uint64_t)op.b + (uint64_t)i);
      }
    }
    for (auto &item : G->content)
      G->j->t[item.first].unseen_after = 0;
  }
  if (ctx->inc > 0 && G->j->created == 2 && plan.get("offline") > 0 &&
      plan.get("durable", 1))
    compact_offline((uint64_t)plan.get("offline") + (uint64_t)ctx->inc);
  open_burrow();
  if (G->base == nullptr)
    return; // refused because of an injected error: that is a report
  prepare(G->base->featurizer());
  bool merge_on = true;
  {
    std::string value;
    G->base->get_parameter("merge", &value);
    merge_on = value == "" || okay(value);
  }
  if (ctx->inc > 0) {
    View v;
    start(G->base, v);
    audit(G->base, v, plan.get("audit") + 77, true);
    G->base->end();
    for (int k = 0; k < N_KEYS; k++)
      read_param(G->base, k, "after a restart");
    std::string container, error;
    if (!G->base->get_parameter("container", &container, &error))
      sim::fail("operation-failed", "get_parameter: %s", error.c_str());
    G->base->start();
    std::string got = G->base->default_container();
    G->base->end();
    if (got != container)
      sim::fail("parameter",
                "a burrow whose container is \"%s\" opens with \"%s\"",
                clip(container).c_str(), clip(got).c_str());
  }
  int clients = (int)plan.get("clients", 2);
  std::vector<Client> threads;
  for (int c = 0; c < clients; c++)
    threads.emplace_back([c] { run_client(c); });
  for (auto &t : threads)
    t.join();
  threads.clear();
  for (auto &op : plan.ops)
    if (op.inc == ctx->inc && op.kind == K_MERGE)
      merge_on = true; // decided below
  if (plan.get("final_merge", 1) || merge_on) {
    std::string value;
    G->base->get_parameter("merge", &value);
    if (value != "" && !okay(value) && plan.get("final_merge", 1)) {
      std::dynamic_pointer_cast<Bigwig>(G->base)->merge(true);
      merge_on = true;
    } else {
      merge_on = value == "" || okay(value);
    }
  }
  int hours = sim::wait_idle();
  if (hours || sim::live_background())
    sim::fail("stuck", "%d background threads never finish",
              hours ? hours : sim::live_background());
  if (merge_on && plan.get("durable", 1) && !sim::error_fired()) {
    std::string layout;
    if (!compacted(&layout))
      sim::fail("not-compacted", "compaction stopped short:%s", layout.c_str());
  }
  {
    View v;
    start(G->base, v);
    audit(G->base, v, plan.get("audit") + 78, true);
    sim::wait_idle();
    audit(G->base, v, plan.get("audit") + 79, false);
    G->base->end();
    for (int k = 0; k < N_KEYS; k++)
      read_param(G->base, k, "at the end");
  }
  sim::wait_idle();
  G->base = nullptr;
  if (plan.get("given") && plan.get("durable", 1) && !sim::error_fired())
    given_back(place(), [] {
      open_burrow();
      if (G->base == nullptr)
        return;
      View v;
      start(G->base, v);
      audit(G->base, v, G->plan->get("audit") + 80, true);
      G->base->end();
      sim::wait_idle();
      G->base = nullptr;
    });
}

void gen(Plan *p, Rng *r, bool thorough) {
  auto preset = [&](const char *k, int64_t d) {
    auto it = p->param.find(k);
    return it == p->param.end() ? d : it->second;
  };
  auto set = [&](const char *k, int64_t v) {
    if (!p->param.count(k))
      p->param[k] = v;
  };
  p->incs = (int)preset("incs", r->range(preset("min_incs", 1), 3));
  set("durable", r->chance(900) || p->incs > 1);
  if (!p->param["durable"])
    p->incs = 1;
  set("tok", r->chance(850)); // the utf8 tables take long to build
  set("post", r->chance(60) ? 3 : r->range(0, 2));
  set("fval", r->chance(100) ? r->range(2, 3) : r->range(0, 1));
  set("text", r->chance(60) ? 2 : r->range(0, 1));
  set("odd", r->chance(80));
  set("made", r->chance(250));
  set("place", r->chance(200) ? r->range(1, 3) : 0);
  set("json", r->chance(200));
  set("reopen", r->range(0, 1));
  set("erase", r->chance(350));
  set("audit", r->range(1, 1000000));
  set("offline", r->chance((int)preset("tools", 100)) ? r->range(1, 1000000) : 0);
  // how soon things become "large" is what drives the kinds of compaction
  switch (r->range(0, 3)) {
  case 0: // as shipped: everything stays tiny
    break;
  case 1:
    set("small", r->pick(std::vector<int64_t>{200, 1000, 4000}));
    set("medium", r->pick(std::vector<int64_t>{1000, 4000, 20000}));
    break;
  case 2:
    set("small", 1);
    set("medium", r->pick(std::vector<int64_t>{1, 500, 5000}));
    break;
  default:
    set("small", 8 << 20);
    set("medium", r->pick(std::vector<int64_t>{300, 1500, 6000}));
  }
  if (p->param.count("medium"))
    set("large", 2 * p->param["medium"]);
  set("chunk", r->pick(std::vector<int64_t>{64, 200, 1000, 65536}));
  set("clients", r->range(1, 4));
  int clients = (int)p->param["clients"];
  int64_t wt = preset("w_txn", 10), wr = preset("w_read", 8),
          wp = preset("w_pause", 2), wm = preset("w_merge", 1),
          wk = preset("w_param", 1), wg = preset("w_group", 1);
  int64_t aborts = preset("aborts", 150), big = preset("big", 60),
          solo = preset("solo", 80), empty = preset("empty", 30);
  int id = 1;
  bool heavy = r->chance((int)big);
  for (int inc = 0; inc < p->incs; inc++) {
    int64_t work = r->range(3, thorough ? 24 : 14);
    if (inc == p->incs - 1 && inc > 0)
      work = r->range(0, 5);
    for (int64_t i = 0; i < work && id < MAX_TXN - 16; i++) {
      Op op;
      op.inc = inc;
      op.client = (int)r->range(0, clients - 1);
      op.b = (int64_t)(r->next() >> 20);
      auto shape = [&]() -> int64_t {
        if (r->chance((int)empty))
          return T_EMPTY;
        if (r->chance((int)solo))
          return T_SOLO;
        int64_t s = heavy && r->chance(200) ? r->range(2, 4) : r->range(0, 1);
        if (r->chance(400))
          s |= T_ANN;
        if (r->chance(250))
          s |= T_EXT;
        if (p->param["erase"]) {
          if (r->chance(250))
            s |= T_ERASE;
          if (r->chance(300))
            s |= T_XERASE;
        }
        return s;
      };
      int64_t k = r->range(0, wt + wr + wp + wm + wk + wg - 1);
      if ((k -= wt) < 0) {
        op.kind = K_TXN;
        op.a = shape();
        if (r->chance(150))
          op.a |= T_READING;
        if (r->chance(150))
          op.a |= T_SLOW;
        op.c = r->chance((int)aborts)
                   ? (r->chance(500) ? END_ABORT_EARLY : END_ABORT_LATE)
                   : END_COMMIT;
        op.d = id++;
      } else if ((k -= wr) < 0) {
        op.kind = K_READ;
        op.a = r->range(0, 63);
        if (r->chance((int)preset("threads", 0)))
          op.a |= R_THREADS;
        else if (!r->chance(200))
          op.a &= ~(int64_t)(R_THREADS | R_STRICT);
        op.c = r->pick(std::vector<int64_t>{1, 10, 50, 200});
      } else if ((k -= wp) < 0) {
        op.kind = K_PAUSE;
        op.a = r->chance(300) ? r->range(1, 2000) : 0;
        op.b = r->pick(std::vector<int64_t>{1, 10, 100});
      } else if ((k -= wm) < 0) {
        op.kind = K_MERGE; // one client decides, or the last one is unknown
        op.client = 0;
        op.a = r->range(0, 1);
      } else if ((k -= wk) < 0) {
        op.kind = K_PARAM;
        op.a = r->range(0, N_KEYS - 1);
        op.b = r->chance(400) ? 0 : r->range(1, 1000);
      } else {
        op.kind = K_GROUP;
        int64_t m = r->range(2, 4);
        int64_t s = shape();
        if (s & T_EMPTY)
          s = 0;
        op.a = m | s << 3;
        op.c = r->range(0, 1) | (r->chance((int)aborts) ? 2 : 0);
        op.d = id;
        id += (int)m;
      }
      if (!p->param["durable"] && (op.kind == K_GROUP))
        continue;
      p->ops.push_back(op);
    }
  }
}

const char *op_name(int kind) {
  switch (kind) {
  case K_TXN:
    return "transaction";
  case K_READ:
    return "read";
  case K_PAUSE:
    return "pause";
  case K_MERGE:
    return "merge on/off";
  case K_PARAM:
    return "parameter";
  case K_GROUP:
    return "group commit";
  }
  return "?";
}

} // namespace

extern const sim::Scenario burrow_scenario;
const sim::Scenario burrow_scenario = {"burrow", gen, run, op_name};
