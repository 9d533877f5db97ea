// Meadows: importing files and foraging statistics from what was imported.
//
// Every file belongs to one client, which imports it as apps/meadowlark does
// (unless it is there already), so at each moment a file has been imported, is
// being imported, or is not there, and a reader can be told which of these it
// may see.
#include "common.h"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <sys/stat.h>

#include "meadowlark/forager.h"
#include "meadowlark/meadowlark.h"
#include "meadowlark/tf-idf_stats.h"
#include "src/json.h"
#include "src/nlohmann.h"
#include "src/ranker.h"
#include "src/ranking.h"

using namespace cottontail;
using namespace scen;
using sim::Op;
using sim::Plan;
using sim::Rng;

namespace {

enum Kind { K_FILE = 1, K_IMPORT, K_FORAGE, K_READ, K_PAUSE, K_RANK };
enum State { ST_NONE, ST_BEGUN, ST_DONE };

const int MAX_FILE = 60, MAX_FORAGE = 60;

struct Journal {
  int created, dirs, fired;
  int file[MAX_FILE];
  int forage[MAX_FORAGE];
  int reading;             // reading the index failed in this life
  int blind[MAX_FORAGE];   // and while this forage was looking
};
static_assert(sizeof(Journal) < sim::JOURNAL_SIZE, "journal too small");

const char *vocabulary[] = {"running", "Rabbits", "cottontail", "hop",
                            "hopping", "H\xc3\xa9llo", "meadow", "the"};

struct File {
  int id = 0;
  bool jsonl = false, header = false;
  bool scribed = false; // by the general purpose functions of src/scribe.h
  bool broken = false;  // one line isn't JSON
  std::string name, path, sep;
  std::string bytes;
  std::vector<json> objects;                     // jsonl
  std::vector<std::vector<std::string>> rows;    // tsv, header included
  std::vector<std::string> lines;
  std::vector<std::string> records;              // canonical, sorted
  int tokens = 0;                                // of the file's own word
  std::string word;
  std::string gcl;
  size_t intervals = 0;                          // solutions of gcl
};

struct State_ {
  const Plan *plan;
  int inc;
  Journal *j;
  std::map<int, File> files;
  W base;
};
State_ *G;

std::string trim(const std::string &s) {
  size_t a = s.find_first_not_of(" \t\n");
  if (a == std::string::npos)
    return "";
  return s.substr(a, s.find_last_not_of(" \t\n") - a + 1);
}

std::string sentence(Rng &r, const std::string &own, int *count) {
  std::string s;
  int n = (int)r.range(0, 6);
  for (int i = 0; i < n; i++) {
    if (i)
      s += r.chance(100) ? ", " : " ";
    if (r.chance(250)) {
      s += own;
      ++*count;
    } else {
      s += vocabulary[r.next() % 8];
    }
  }
  return s;
}

File make_file(int id, int64_t shape, uint64_t seed) {
  File f;
  Rng r(seed);
  f.id = id;
  f.jsonl = shape & 1;
  f.header = !f.jsonl && (shape & 2);
  f.scribed = shape & 64;
  f.word = "f" + std::to_string(id) + "x";
  std::string n = std::to_string(id);
  std::string ext = f.jsonl ? ".jsonl" : ".tsv";
  f.name = std::string(shape & 4 ? "d/" : "");
  if (shape & 128) // the name of another file starts it, or ends it
    f.name += "in" + std::to_string(id - 1) + ext + (shape & 256 ? " " : "\n");
  else if (shape & 256)
    f.name += "in" + n + ext + ".";
  f.name += "in" + n + ext;
  f.path = shape & 4 ? f.name : "./" + f.name;
  f.sep = shape & 8 ? "|" : "\t";
  int count;
  switch ((shape >> 4) & 3) {
  case 0:
    count = (int)r.range(0, 3);
    break;
  case 1:
  case 2:
    count = (int)r.range(2, 12);
    break;
  default:
    count = (int)r.range(10, 40);
  }
  f.broken = f.jsonl && count > 0 && (shape & 512);
  int broken = f.broken ? (int)r.range(0, count - 1) : -1;
  for (int i = 0; i < count; i++) {
    std::string line;
    if (i == broken)
      f.bytes += r.pick(std::vector<std::string>{
                     "", "{", "{\"id\": \"a\"", "{\"id\": \"a\"} more",
                     "{\"n\": 1e999}", "{\"id\": \"\xff\"}", "nonsense",
                     std::string("{\"id\": \"\0\"}", 11)}) +
                 "\n";
    if (f.jsonl) {
      json o = json::object();
      std::string body = sentence(r, f.word, &f.tokens);
      if (trim(body).empty())
        body = "hop";
      o["id"] = f.word + "r" + std::to_string(i);
      o["text" + n] = body;
      f.intervals++;
      if (r.chance(500))
        o["num"] = (double)r.range(-40, 40) / 4;
      if (r.chance(300)) {
        json a = json::array();
        for (int k = (int)r.range(0, 3); k > 0; k--)
          a.push_back(sentence(r, f.word, &f.tokens));
        o["tags"] = a;
      }
      if (r.chance(200))
        o["none"] = nullptr;
      if (r.chance(200))
        o["yes"] = r.chance(500);
      if (r.chance(200))
        o["in"] = {{"quote\"d", "a \"b\" c\\d"}, {"n", (double)r.range(0, 9)}};
      line = o.dump();
      f.objects.push_back(o);
      f.records.push_back(o.dump());
    } else {
      std::vector<std::string> row;
      int m = (int)r.range(1, 4);
      for (int k = 0; k < m; k++)
        if (k == 0 && (r.chance(850) || i + 1 == count)) // the last is not blank
          row.push_back(f.word + "r" + std::to_string(i));
        else
          row.push_back(sentence(r, f.word, &f.tokens));
      std::string canon;
      bool any = false;
      for (size_t k = 0; k < row.size(); k++) {
        if (k)
          line += f.sep;
        line += row[k];
        canon += trim(row[k]) + "\x1f";
        any = any || !trim(row[k]).empty();
      }
      while (canon.size() > 1 && canon[canon.size() - 2] == '\x1f')
        canon.pop_back();
      if (any)
        f.records.push_back((f.header && i == 0 ? "H" : "R") + canon);
      f.rows.push_back(row);
    }
    f.lines.push_back(line);
    f.bytes += line;
    if (i + 1 < count || r.chance(700))
      f.bytes += !f.jsonl && r.chance(100) ? "\r\n" : "\n";
  }
  std::sort(f.records.begin(), f.records.end());
  if (f.jsonl) {
    f.gcl = ":text" + n + ":";
  } else {
    // the records that mention the file's own word
    f.gcl = "(>> : \"" + f.word + "\")";
    for (size_t i = 0; i < f.rows.size(); i++) {
      if (f.header && i == 0)
        continue;
      bool has = false;
      for (auto &field : f.rows[i]) {
        std::string rest = field + " ";
        for (size_t z = rest.find(f.word); z != std::string::npos;
             z = rest.find(f.word, z + 1))
          if (!isalnum((unsigned char)rest[z + f.word.size()]))
            has = true;
      }
      f.intervals += has;
    }
  }
  if (f.scribed && !f.jsonl)
    f.intervals = 0; // it is text, not records
  return f;
}

// ---------------------------------------------------------------- the oracle

std::string token_list(W w, const std::string &text) {
  Quiet _;
  std::string s;
  for (auto &t : w->tokenizer()->split(text))
    s += t + "\x1f";
  return s;
}

// Where a scribed file is: its range, or nothing.
std::vector<Ivl> places_of(W w, const File &f) {
  auto hopper = [&](const std::string &s) {
    return w->idx()->hopper(w->featurizer()->featurize(s));
  };
  if (f.jsonl)
    return solutions(hopper(f.path).get());
  std::vector<Ivl> places;
  auto whole = hopper("file:");
  for (auto &s : solutions(hopper("filename:").get())) {
    // (what precedes the first token of the content belongs to the name)
    if (token_list(w, w->txt()->translate(s.p, s.q)) != token_list(w, f.name))
      continue;
    addr p, q;
    whole->tau(s.p, &p, &q);
    if (p != s.p || q < s.q || (token_list(w, f.bytes).empty() && q != s.q))
      sim::fail("missing-annotation", "%s: nothing spans the file at [%ld,%ld]",
                f.name.c_str(), s.p, s.q);
    places.push_back({p, q, (fval)s.q});
  }
  return places;
}

// What is there of a file, as canonical records.
std::vector<std::string> records_of(W w, const File &f) {
  std::vector<std::string> out;
  auto feature = [&](const std::string &s) {
    return w->featurizer()->featurize(s);
  };
  auto hopper = [&](const std::string &s) {
    auto h = w->idx()->hopper(feature(s));
    if (h == nullptr)
      sim::fail("no-hopper", "there is no hopper for %s", s.c_str());
    return h;
  };
  auto h = hopper(f.path);
  std::vector<Ivl> spans = solutions(h.get());
  if (f.scribed) {
    spans.clear();
    auto part = hopper(f.jsonl ? ":" : "content:");
    for (auto &s : places_of(w, f)) {
      addr p, q;
      for (part->tau(s.p, &p, &q); q <= s.q; part->tau(p + 1, &p, &q))
        if (f.jsonl)
          spans.push_back({p, q, 0});
        else if (p != (addr)s.v + 1 || q != s.q)
          sim::fail("wrong-annotation", "%s: its content is at [%ld,%ld], "
                                        "should be at [%ld,%ld]",
                    f.name.c_str(), p, q, (addr)s.v + 1, s.q);
        else
          out.push_back(token_list(w, w->txt()->translate(p, q)));
    }
    if (!f.jsonl)
      return out;
  }
  if (f.jsonl) {
    std::string key = ":text" + std::to_string(f.id) + ":";
    auto hroot = hopper(":"), htext = hopper(key), hnum = hopper(":num:"),
         htags = hopper(":tags:"), hany = hopper("id:");
    for (auto &s : spans) {
      std::string raw = w->txt()->translate(s.p, s.q);
      addr p, q;
      fval v;
      hroot->tau(s.p, &p, &q, &v);
      if (p != s.p || q != s.q)
        sim::fail("wrong-record", "%s: [%ld,%ld] is not a record", f.path.c_str(),
                  s.p, s.q);
      hany->tau(s.p, &p, &q, &v);
      if (q > s.q)
        sim::fail("missing-annotation", "%s: [%ld,%ld] has no id",
                  f.path.c_str(), s.p, s.q);
      htext->tau(s.p, &p, &q, &v);
      std::string body = q > s.q ? "" : w->txt()->translate(p, q);
      addr np, nq, tp, tq;
      fval nv, tv;
      hnum->tau(s.p, &np, &nq, &nv);
      htags->tau(s.p, &tp, &tq, &tv);
      Quiet _;
      json o;
      try {
        o = json::parse(json_translate(raw));
        if (json::parse(json_translate(body)) != o.at("text" +
                                                      std::to_string(f.id)))
          throw std::runtime_error("text");
      } catch (std::exception &e) {
        sim::fail("wrong-record", "%s: [%ld,%ld] is \"%s\": %s", f.path.c_str(),
                  s.p, s.q, clip(json_translate(raw)).c_str(), e.what());
      }
      if (o.contains("num") ? nq > s.q || nv != (fval)o["num"] : nq <= s.q)
        sim::fail("wrong-annotation", "%s: [%ld,%ld] has the wrong number",
                  f.path.c_str(), s.p, s.q);
      if (o.contains("tags") ? tq > s.q || tv != (fval)o["tags"].size()
                             : tq <= s.q)
        sim::fail("wrong-annotation", "%s: [%ld,%ld] has the wrong array",
                  f.path.c_str(), s.p, s.q);
      out.push_back(o.dump());
    }
    std::sort(out.begin(), out.end());
    return out;
  }
  std::vector<std::unique_ptr<Hopper>> fields;
  for (int j = 0; j < 5; j++)
    fields.push_back(hopper(":" + std::to_string(j) + ":"));
  for (int kind = 0; kind < 2; kind++) {
    auto hrec = hopper(kind ? "::" : ":");
    for (auto &s : spans) {
      addr p, q;
      for (hrec->tau(s.p, &p, &q); q <= s.q; hrec->tau(p + 1, &p, &q)) {
        std::string canon = kind ? "H" : "R", whole;
        std::string raw = w->txt()->translate(p, q);
        for (size_t j = 0; j < fields.size(); j++) {
          addr a, b;
          fields[j]->tau(p, &a, &b);
          std::string text;
          if (b <= q) {
            text = trim(w->txt()->translate(a, b));
            // separators of empty fields belong to what is before them, or
            // after them if there is nothing
            while (!text.empty() && text[0] == f.sep[0])
              text = trim(text.substr(1));
            while (!text.empty() && text.back() == f.sep[0])
              text = trim(text.substr(0, text.size() - 1));
          }
          canon += text + "\x1f";
        }
        while (canon.size() > 2 && canon[canon.size() - 2] == '\x1f')
          canon.pop_back();
        out.push_back(canon);
      }
    }
  }
  std::sort(out.begin(), out.end());
  return out;
}

std::string show(std::string s) {
  for (char &c : s)
    if (c == '\x1f')
      c = '|';
  return clip(s);
}

// exact: nothing is going on that would excuse part of the file
// lo, hi: the states the file may be in
void check_file(W w, const File &f, int lo, int hi, bool exact,
                const char *when) {
  std::string error;
  bool marked = false;
  if (f.scribed)
    marked = !places_of(w, f).empty();
  else if (!meadowlark::already_appended(w, f.name, &marked, &error))
    sim::fail("operation-failed", "already_appended: %s", error.c_str());
  if (lo == ST_DONE && !marked)
    sim::fail("lost-import", "%s: %s has been imported, and is not there", when,
              f.name.c_str());
  if (hi == ST_NONE && marked)
    sim::fail("early-import", "%s: %s is there, and was never imported", when,
              f.name.c_str());
  std::vector<std::string> got = records_of(w, f), records = f.records;
  if (f.scribed && !f.jsonl)
    records = {token_list(w, f.bytes)};
  if (f.scribed && !f.jsonl && records[0].empty())
    records.clear(); // nothing but a name
  auto h = w->idx()->hopper(w->featurizer()->featurize(f.word));
  // (the label of a foraging quotes its query)
  auto labels =
      solutions(w->idx()->hopper(w->featurizer()->featurize("@")).get());
  size_t words = 0;
  for (auto &s : solutions(h.get())) {
    bool quoted = false;
    for (auto &l : labels)
      quoted = quoted || (l.p <= s.p && s.p <= l.q);
    if (!quoted)
      words++;
  }
  h = w->hopper_from_gcl(f.gcl, &error);
  if (h == nullptr)
    sim::fail("operation-failed", "%s: %s", f.gcl.c_str(), error.c_str());
  size_t intervals = solutions(h.get()).size();
  addr cp, cq;
  h = w->idx()->hopper(w->featurizer()->featurize("/"));
  int markers = 0;
  for (h->tau(minfinity + 1, &cp, &cq); cp < maxfinity;
       h->tau(cp + 1, &cp, &cq))
    if (trim(w->txt()->translate(cp, cq)) == f.path)
      markers++;
  if (f.scribed)
    markers = (int)places_of(w, f).size();
  Quiet _;
  if (markers != (marked ? 1 : 0))
    sim::fail("wrong-marker", "%s: %s is marked %d times", when, f.name.c_str(),
              markers);
  if (marked) {
    if (got != records) {
      size_t i = 0;
      while (i < got.size() && i < records.size() && got[i] == records[i])
        i++;
      sim::fail("partial-import", "%s: %s is marked as imported with %zu "
                                  "records of %zu; they differ at \"%s\", "
                                  "expected \"%s\"", when,
                f.name.c_str(), got.size(), records.size(),
                i < got.size() ? show(got[i]).c_str() : "(none)",
                i < records.size() ? show(records[i]).c_str() : "(none)");
    }
    if ((int)words != f.tokens)
      sim::fail("wrong-words", "%s: %s has %zu occurrences of %s, should have "
                               "%d", when, f.name.c_str(), words,
                f.word.c_str(), f.tokens);
    if (intervals != f.intervals)
      sim::fail("wrong-query", "%s: %s has %zu solutions, should have %zu",
                when, f.gcl.c_str(), intervals, f.intervals);
  } else if (exact || hi == ST_NONE) {
    if (!got.empty() || words || (f.scribed && intervals))
      sim::fail("orphan-records", "%s: %s is not marked as imported, yet %zu "
                                  "of its %zu records and %zu words are there",
                when, f.name.c_str(), got.size(), records.size(), words);
  } else if (!std::includes(records.begin(), records.end(), got.begin(),
                            got.end())) {
    sim::fail("wrong-record", "%s: something is there of %s that is not in it",
              when, f.name.c_str());
  }
}

std::string tag_of(int id) { return "t" + std::to_string(id); }

struct Forage {
  int id, file;
  bool stem, utf8;
  std::string name;
};

// What is foraged, recomputed from the text.
struct Items {
  std::vector<Ivl> spans;
  addr length = 0;
  std::map<std::string, std::vector<Want>> tf;
  std::shared_ptr<Stemmer> stemmer;
  std::shared_ptr<Tokenizer> tokenizer;
};

Items items_of(W w, const Forage &g) {
  const File &f = G->files.at(g.file);
  Items items;
  std::string error;
  auto h = w->hopper_from_gcl(f.gcl, &error);
  if (h == nullptr)
    sim::fail("operation-failed", "%s: %s", f.gcl.c_str(), error.c_str());
  items.spans = solutions(h.get());
  items.stemmer = Stemmer::make(g.stem ? "porter" : "null", "", &error);
  items.tokenizer = Tokenizer::make(g.utf8 ? "utf8" : "ascii", "", &error);
  if (items.stemmer == nullptr || items.tokenizer == nullptr)
    sim::internal("%s", error.c_str());
  for (auto &s : items.spans) {
    std::string text = w->txt()->translate(s.p, s.q);
    Quiet _;
    items.length += s.q - s.p + 1;
    std::map<std::string, addr> here;
    for (auto &t : items.tokenizer->split(text))
      here[items.stemmer->stem(t)]++;
    for (auto &t : here)
      items.tf[t.first].push_back({s.p, s.p, (fval)t.second});
  }
  return items;
}

void check_forage(W w, const Forage &g, int lo, int hi, bool exact,
                  const char *when) {
  const File &f = G->files.at(g.file);
  std::string error, label = "tf-idf:" + tag_of(g.id) + ":";
  auto feature = [&](const std::string &s) {
    return w->featurizer()->featurize(s);
  };
  auto values = [&](const std::string &s) {
    auto h = w->idx()->hopper(feature(s));
    if (h == nullptr)
      sim::fail("no-hopper", "there is no hopper for %s", s.c_str());
    return solutions(h.get());
  };
  size_t labels = values("@" + label).size();
  if (labels > 1)
    sim::fail("wrong-label", "%s: forage %d has %zu labels", when, g.id, labels);
  if (lo == ST_DONE && labels == 0)
    sim::fail("lost-forage", "%s: forage %d is done, and left nothing", when,
              g.id);
  if (hi == ST_NONE && labels)
    sim::fail("early-forage", "%s: forage %d is there before it began", when,
              g.id);
  if (labels == 0) {
    if (!exact && hi != ST_NONE)
      return;
    if (!values(label + "total:items").empty() ||
        !values(label + "total:length").empty() ||
        !values(label + "tf:hop").empty() ||
        !values(label + "tf:" + f.word).empty() ||
        !values(label + "df:hop").empty())
      sim::fail("partial-forage", "%s: forage %d left some of its annotations",
                when, g.id);
    return;
  }
  if (G->j->blind[g.id])
    return;
  Items it_ = items_of(w, g);
  const std::vector<Ivl> &spans = it_.spans;
  const std::map<std::string, std::vector<Want>> &tf = it_.tf;
  addr length = it_.length;
  if (spans.size() != f.intervals)
    sim::fail("wrong-query", "%s: %s has %zu solutions, should have %zu", when,
              f.gcl.c_str(), spans.size(), f.intervals);
  auto total = [&](const std::string &s) {
    auto hh = w->idx()->hopper(feature(s));
    addr sum = 0, p, q, v;
    for (hh->tau(minfinity + 1, &p, &q, &v); p < maxfinity;
         hh->tau(p + 1, &p, &q, &v))
      sum += v;
    return sum;
  };
  addr items = total(label + "total:items"),
       total_length = total(label + "total:length");
  if (items != (addr)spans.size() || total_length != length)
    sim::fail("wrong-total", "%s: forage %d counts %ld items, %ld tokens; "
                             "should be %zu, %ld", when, g.id, items,
              total_length, spans.size(), length);
  for (auto &t : tf) {
    // tf is a count, read as an integer
    auto hh = w->idx()->hopper(feature(label + "tf:" + t.first));
    addr p, q, v;
    size_t i = 0;
    for (hh->tau(minfinity + 1, &p, &q, &v); p < maxfinity;
         hh->tau(p + 1, &p, &q, &v), i++)
      if (i >= t.second.size() || p != t.second[i].p || q != p ||
          v != (addr)t.second[i].v)
        sim::fail("wrong-tf", "%s: forage %d: tf of \"%s\" number %zu is "
                              "[%ld,%ld]=%ld", when, g.id, t.first.c_str(), i,
                  p, q, v);
    if (i != t.second.size())
      sim::fail("wrong-tf", "%s: forage %d: \"%s\" occurs in %zu items, should "
                            "be %zu", when, g.id, t.first.c_str(), i,
                t.second.size());
    addr df = total(label + "df:" + t.first);
    if (df != (addr)t.second.size())
      sim::fail("wrong-df", "%s: forage %d: df of \"%s\" is %ld, should be %zu",
                when, g.id, t.first.c_str(), df, t.second.size());
  }
  // what ranking makes of it
  auto stats = meadowlark::TfIdfStats::make(tag_of(g.id), w, &error);
  if (stats == nullptr)
    sim::fail("no-stats", "%s: forage %d: %s", when, g.id, error.c_str());
  if (!tf.empty()) {
    auto it = tf.begin();
    std::advance(it, (long)((uint64_t)G->plan->get("audit") % tf.size()));
    fval n = (fval)it->second.size();
    fval idf = std::max(0.0, std::log((fval)items / n));
    if (std::fabs(stats->idf(it->first) - idf) > 1e-9)
      sim::fail("wrong-idf", "%s: forage %d: idf of \"%s\" is %g, should be %g",
                when, g.id, it->first.c_str(), stats->idf(it->first), idf);
    fval average = (fval)length / (fval)items;
    if (stats->avgl() != average)
      sim::fail("wrong-length", "%s: forage %d: average length is %g, should "
                                "be %g", when, g.id, stats->avgl(), average);
  }
}

std::map<int, Forage> forages() {
  std::map<int, Forage> m;
  for (auto &op : G->plan->ops)
    if (op.kind == K_FORAGE && G->files.count((int)op.a))
      m[(int)op.d] = {(int)op.d, (int)op.a, !(op.b & 1), (op.b & 6) == 2, ""};
  return m;
}

// A reader's visit: only files the mask selects, unless everything.
void visit(W w, uint64_t mask, bool exact, const char *when) {
  Journal *j = G->j;
  std::map<int, int> lo, flo;
  for (auto &f : G->files)
    lo[f.first] = j->file[f.first] == ST_DONE ? ST_DONE : ST_NONE;
  auto gs = forages();
  for (auto &g : gs)
    flo[g.first] = j->forage[g.first] == ST_DONE ? ST_DONE : ST_NONE;
  w->start();
  std::map<int, int> hi, fhi;
  for (auto &f : G->files)
    hi[f.first] = j->file[f.first];
  for (auto &g : gs)
    fhi[g.first] = j->forage[g.first];
  for (auto &f : G->files)
    if (mask >> (f.first & 31) & 1)
      check_file(w, f.second, lo[f.first], hi[f.first], exact, when);
  for (auto &g : gs)
    if (mask >> ((g.first + 16) & 31) & 1)
      check_forage(w, g.second, flo[g.first], fhi[g.first], exact, when);
  w->end();
}

// Nothing is going on: what was cut short is now there, or is not.
// (all files and forages if -1, none if -2)
void settle(W w, int only, int only_forage) {
  Journal *j = G->j;
  w->start();
  for (auto &f : G->files)
    if (j->file[f.first] == ST_BEGUN && (only == -1 || only == f.first)) {
      bool marked = false;
      std::string error;
      if (f.second.scribed)
        marked = !places_of(w, f.second).empty();
      else if (!meadowlark::already_appended(w, f.second.name, &marked, &error))
        sim::fail("operation-failed", "already_appended: %s", error.c_str());
      check_file(w, f.second, ST_NONE, ST_DONE, true,
                 "after an import that was cut short");
      j->file[f.first] = marked ? ST_DONE : ST_NONE;
      sim::probe(marked ? 12 : 13);
    }
  for (auto &g : forages())
    if (j->forage[g.first] == ST_BEGUN &&
        (only_forage == -1 || only_forage == g.first)) {
      auto h = w->idx()->hopper(w->featurizer()->featurize(
          "@tf-idf:" + tag_of(g.first) + ":"));
      bool there = !solutions(h.get()).empty();
      check_forage(w, g.second, ST_NONE, ST_DONE, true,
                   "after a forage that was cut short");
      j->forage[g.first] = there ? ST_DONE : ST_NONE;
      sim::probe(there ? 14 : 15);
    }
  w->end();
}

// --------------------------------------------------------------- the clients

// A scribe's transactions may be committed together with those of others.
// What it scribes after that is as good as what it scribed before.
void commit_together(W w, std::shared_ptr<Scribe> scribe, int others) {
  std::string error;
  std::vector<std::shared_ptr<Scribe>> scribes = {scribe};
  for (int i = 0; i < others; i++) {
    auto clone = w->clone(&error);
    expect_ok(clone != nullptr, "a clone", error);
    if (clone == nullptr)
      return;
    scribes.push_back(Scribe::make(clone, &error));
  }
  size_t ready = 0;
  for (; ready < scribes.size(); ready++) {
    bool ok = scribes[ready]->transaction(&error);
    expect_ok(ok, "an empty transaction", error);
    if (!ok)
      break;
    ok = scribes[ready]->ready(&error);
    expect_ok(ok, "readying an empty transaction", error);
    if (!ok) {
      scribes[ready]->abort();
      break;
    }
  }
  bool all = ready == scribes.size();
  if (!all || !Scribe::commit_all(scribes)) {
    if (all)
      expect_ok(false, "committing scribes", "");
    for (size_t i = 0; i < ready; i++)
      scribes[i]->abort();
  } else
    sim::probe(23);
  if (w->transacting())
    sim::fail("transaction-left-open", "committing scribes together left a "
                                       "transaction open");
}

void run_import(W w, const Op &op) {
  auto it = G->files.find((int)op.a);
  if (it == G->files.end())
    return;
  const File &f = it->second;
  int *state = &G->j->file[f.id];
  std::string error;
  bool there = false;
  bool ok = true;
  w->start();
  if (f.scribed)
    there = !places_of(w, f).empty();
  else
    ok = meadowlark::already_appended(w, f.name, &there, &error);
  w->end();
  if (!ok)
    sim::fail("operation-failed", "already_appended: %s", error.c_str());
  if (there != (*state == ST_DONE))
    sim::fail(there ? "early-import" : "lost-import",
              "%s is %sthere before it is imported", f.name.c_str(),
              there ? "" : "not ");
  if (there)
    return;
  if (f.scribed && f.jsonl && std::none_of(f.bytes.begin(), f.bytes.end(), ::isalnum))
    return; // there would be nothing to find
  *state = ST_BEGUN;
  size_t threads = (size_t)op.c;
  if (f.scribed) {
    std::vector<std::string> names = {f.name};
    if (!f.jsonl && op.b & 1)
      names = {"absent", f.name, "absent"};
    auto scribe = Scribe::make(w, &error);
    if (scribe == nullptr)
      sim::fail("operation-failed", "making a scribe: %s", error.c_str());
    if (scribe_files(names, nullptr) || scribe_jsonl(names, nullptr))
      sim::fail("nothing-scribed", "scribing to nothing succeeded");
    if (op.b & 2)
      commit_together(w, scribe, (int)(op.b >> 2));
    ok = f.jsonl ? scribe_jsonl(names, scribe, &error)
                 : scribe_files(names, scribe, &error);
    if (w->transacting())
      sim::fail("transaction-left-open", "scribing %s left its transaction "
                                         "open", f.name.c_str());
    scribe->finalize();
    if (ok && !f.jsonl && sim::error_fired()) { // it skips what it can't read
      settle(w, f.id, -2);
      return;
    }
  } else
    ok = f.jsonl ? meadowlark::append_jsonl(w, f.name, &error, threads, false)
               : meadowlark::append_tsv(w, f.name, &error, f.header, f.sep,
                                        threads);
  if (f.broken && ok)
    sim::fail("broken-import", "%s was imported, although a line of it is not "
                               "JSON", f.name.c_str());
  if (f.broken && error.empty())
    sim::fail("no-reason", "%s was not imported, and no reason given",
              f.name.c_str());
  if (!f.broken)
    expect_ok(ok, "an import", error);
  if (ok) {
    *state = ST_DONE;
    sim::probe(16);
    if (op.b & 1)
      visit(w, 1u << (f.id & 31), false, "after it was imported");
  } else {
    sim::probe(17);
    settle(w, f.id, -2);
  }
}

void run_forage(W w, const Op &op) {
  auto gs = forages();
  auto it = gs.find((int)op.d);
  if (it == gs.end())
    return;
  const Forage &g = it->second;
  const File &f = G->files.at(g.file);
  int *state = &G->j->forage[g.id];
  if (*state != ST_NONE || G->j->file[f.id] != ST_DONE || f.intervals == 0)
    return;
  std::map<std::string, std::string> parameters;
  if (!g.stem)
    parameters["stemmer"] = "null";
  if (g.utf8)
    parameters["tokenizer"] = "utf8";
  if (f.jsonl)
    parameters["id"] = ":id:";
  std::string error;
  *state = ST_BEGUN;
  G->j->blind[g.id] = 0;
  std::vector<Ivl> spans;
  if (g.id % 2) { // the range of the file, instead of everything
    w->start();
    auto h = w->hopper_from_gcl(f.gcl, &error);
    if (h != nullptr)
      spans = solutions(h.get());
    w->end();
  }
  bool ok = spans.empty()
                ? meadowlark::forage(w, f.gcl, "tf-idf", tag_of(g.id),
                                     parameters, &error, (size_t)op.c)
                : meadowlark::forage(w, f.gcl, spans.front().p, spans.back().q,
                                     "tf-idf", tag_of(g.id), parameters, &error,
                                     (size_t)op.c);
  expect_ok(ok, "a forage", error);
  // Hoppers and translation cannot report that they could not read.
  if (sim::reading_failed())
    G->j->blind[g.id] = 1;
  if (ok) {
    *state = ST_DONE;
    sim::probe(18);
    visit(w, 1u << ((g.id + 16) & 31), false, "after it was foraged");
  } else {
    sim::probe(19);
    settle(w, -2, g.id);
  }
}

// ------------------------------------------------------------------ ranking

bool near(fval a, fval b) {
  return std::fabs(a - b) <= 1e-9 * std::max((fval)1, std::fabs(b));
}

// A query over one word or several, as users of ranking write them.
std::string some_gcl(Rng &r, const File &f) {
  auto word = [&]() {
    std::string s = r.chance(400) ? f.word : vocabulary[r.next() % 8];
    return "\"" + s + "\"";
  };
  switch (r.range(0, 5)) {
  case 0:
    return word();
  case 1:
    return "(+ " + word() + " " + word() + ")";
  case 2:
    return "(... " + word() + " " + word() + ")";
  case 3:
    return "(+ (^ " + word() + " " + word() + ") (^ " + word() + " " + word() +
           "))";
  default:
    return "(^ " + word() + " " + word() + ")";
  }
}

// Ranking by shortest substrings in parallel, against what it is to compute.
void rank_ssr(W w, const File &f, Rng &r, size_t threads) {
  std::string gcl = some_gcl(r, f), error;
  std::string container =
      r.pick(std::vector<std::string>{":", ":", f.path, f.gcl});
  size_t depth = r.pick(std::vector<size_t>{1, 2, 3, 5, 1000, 1000});
  fval K = r.pick(std::vector<fval>{1, 4, 42});
  std::map<std::string, fval> parameters;
  parameters["ssr:K"] = K;
  std::vector<RankingResult> got =
      parallel_ssr(w, gcl, container, parameters, depth, threads);
  auto hopper = w->hopper_from_gcl(gcl, &error);
  auto chopper = w->hopper_from_gcl(container, &error);
  if (hopper == nullptr || chopper == nullptr)
    sim::fail("operation-failed", "%s: %s", gcl.c_str(), error.c_str());
  std::vector<Ivl> found = solutions(hopper.get()),
                   within = solutions(chopper.get());
  Quiet _;
  struct Best {
    fval score = 0;
    addr q = 0, width = maxfinity;
  };
  std::map<addr, Best> want;
  std::vector<fval> scores;
  for (auto &c : within) {
    Best b;
    for (auto &s : found)
      if (c.p <= s.p && s.q <= c.q) {
        b.score += 1.0 / (K + s.q - s.p);
        b.width = std::min(b.width, s.q - s.p);
      }
    if (b.score > 0) {
      b.q = c.q;
      want[c.p] = b;
      scores.push_back(b.score);
    }
  }
  std::sort(scores.rbegin(), scores.rend());
  if (scores.size() > depth)
    scores.resize(depth);
  std::string what = gcl + " in " + container;
  if (got.size() != scores.size())
    sim::fail("wrong-ranking", "%s: %zu threads return %zu results to depth "
                               "%zu, should be %zu", what.c_str(), threads,
              got.size(), depth, scores.size());
  std::set<addr> seen;
  for (size_t i = 0; i < got.size(); i++) {
    auto it = want.find(got[i].container_p());
    bool passage = false;
    for (auto &s : found)
      passage = passage || (s.p == got[i].p() && s.q == got[i].q());
    if (it == want.end() || got[i].container_q() != it->second.q ||
        !seen.insert(got[i].container_p()).second ||
        !near(got[i].score(), it->second.score) || !near(scores[i],
        got[i].score()) || !passage || got[i].p() < it->first ||
        got[i].q() > it->second.q ||
        got[i].q() - got[i].p() != it->second.width)
      sim::fail("wrong-ranking", "%s: %zu threads return [%ld,%ld] in [%ld,%ld] "
                                 "with score %g in place %zu, score %g",
                what.c_str(), threads, got[i].p(), got[i].q(),
                got[i].container_p(), got[i].container_q(), got[i].score(), i,
                scores[i]);
  }
  sim::probe(20);
}

// Ranking a batch of queries by statistics foraged before.
void rank_batch(W w, const Forage &g, Rng &r, size_t threads) {
  const File &f = G->files.at(g.file);
  std::map<std::string, std::string> queries;
  int n = (int)r.range(1, 6);
  for (int i = 0; i < n; i++) {
    std::string q;
    for (int k = (int)r.range(1, 4); k > 0; k--)
      q += std::string(r.chance(400) ? f.word : vocabulary[r.next() % 8]) + " ";
    queries["q" + std::to_string(r.range(1, 99))] = q;
  }
  size_t depth = r.pick(std::vector<size_t>{1, 2, 3, 1000});
  fval b = r.pick(std::vector<fval>{0, 0.25, 0.75}),
       k1 = r.pick(std::vector<fval>{0.5, 1, 2});
  bool stem = r.chance(700);
  char pipeline[200];
  snprintf(pipeline, sizeof(pipeline), "%sbm25:b=%g bm25:k1=%g bm25:depth=%zu "
                                       "bm25", stem ? "stem " : "", b, k1,
           depth);
  bool own = r.chance(200); // or on a view that it starts itself
  if (own)
    w->end();
  std::map<std::string, std::vector<std::string>> got;
  std::string error;
  bool ok = trec(w, "tf-idf", tag_of(g.id), pipeline, queries, &got, &error,
                 threads);
  if (!ok)
    sim::fail("operation-failed", "ranking by forage %d: %s", g.id,
              error.c_str());
  if (own) {
    if (w->started())
      sim::fail("view-left-started", "ranking left its view started");
    w->start();
  }
  Items items = items_of(w, g);
  fval N = (fval)items.spans.size(), average = (fval)items.length / N;
  std::vector<std::string> ids; // of the items, or ""
  {
    auto container = w->hopper_from_gcl(":", &error),
         id = w->hopper_from_gcl(f.jsonl ? ":id:" : ":0:", &error);
    for (auto &s : items.spans) {
      addr p, q, ip, iq;
      container->rho(s.q, &p, &q);
      if (p > s.p)
        p = s.p, q = s.q;
      id->tau(p, &ip, &iq);
      ids.push_back(iq <= q ? w->txt()->translate(ip, iq) : "");
    }
  }
  Quiet _;
  if (got.size() != queries.size())
    sim::fail("wrong-ranking", "%zu queries of %zu have results", got.size(),
              queries.size());
  for (auto &topic : queries) {
    if (!got.count(topic.first))
      sim::fail("wrong-ranking", "query %s has no results",
                topic.first.c_str());
    std::map<std::string, fval> terms;
    for (auto &t : items.tokenizer->split(topic.second))
      terms[stem ? items.stemmer->stem(t) : t] += 1;
    std::vector<fval> score(items.spans.size(), 0);
    for (auto &t : terms) {
      auto it = items.tf.find(t.first);
      if (it == items.tf.end())
        continue;
      fval df = (fval)it->second.size();
      fval idf = t.second *
                 std::max((fval)0, std::log((N - df + 0.5) / (df + 0.5)));
      for (auto &x : it->second)
        for (size_t i = 0; i < score.size(); i++)
          if (items.spans[i].p == x.p)
            score[i] += x.v * idf /
                        (k1 * ((1 - b) + b * ((items.spans[i].q -
                                               items.spans[i].p + 1) /
                                              average)) + x.v);
    }
    std::vector<size_t> order;
    for (size_t i = 0; i < score.size(); i++)
      if (score[i] > 0)
        order.push_back(i);
    std::sort(order.begin(), order.end(),
              [&](size_t a, size_t c) { return score[a] > score[c]; });
    // Equal scores may come in any order, and what has no identifier is left
    // out: match each result to an item that may be there.
    std::vector<bool> used(score.size());
    const std::vector<std::string> &results = got[topic.first];
    fval cut = order.size() > depth ? score[order[depth - 1]] : 0;
    size_t least = 0, most = 0; // how many results there may be
    size_t above = 0, tied = 0, nameless = 0;
    for (size_t i : order) {
      bool at = cut > 0 && near(score[i], cut);
      if (at) {
        tied++;
        nameless += ids[i].empty();
      } else if (score[i] > cut) {
        above++;
        least += !ids[i].empty();
      }
    }
    most = least;
    if (cut > 0) {
      size_t room = depth - std::min(depth, above);
      most += std::min(room, tied - nameless);
      least += room > nameless ? std::min(room, tied) - nameless : 0;
    }
    if (results.size() < least || results.size() > most)
      sim::fail("wrong-ranking", "forage %d, \"%s\", \"%s\": %zu results, "
                                 "should be %zu", g.id, pipeline,
                topic.second.c_str(), results.size(), most);
    fval last = maxfinity;
    for (size_t k = 0; k < results.size(); k++) {
      size_t best = score.size();
      for (size_t i : order)
        if (!used[i] && ids[i] == results[k] &&
            (score[i] <= last || near(score[i], last)) &&
            (score[i] >= cut || near(score[i], cut))) {
          best = i;
          break;
        }
      if (best == score.size())
        sim::fail("wrong-ranking", "forage %d, \"%s\", \"%s\": \"%s\" is in "
                                   "place %zu", g.id, pipeline,
                  topic.second.c_str(), results[k].c_str(), k);
      used[best] = true;
      last = score[best];
    }
    for (size_t i : order)
      if (!used[i] && score[i] > cut && !near(score[i], cut) &&
          !ids[i].empty())
        sim::fail("wrong-ranking", "forage %d, \"%s\", \"%s\": \"%s\" is "
                                   "missing", g.id, pipeline,
                  topic.second.c_str(), ids[i].c_str());
  }
  sim::probe(21);
}

// Expanding queries by feedback: many threads return what one returns.
void rank_expanded(W w, const Forage &g, Rng &r, size_t threads) {
  std::map<std::string, std::string> queries;
  for (int i = (int)r.range(2, 5); i > 0; i--)
    queries["q" + std::to_string(i)] =
        std::string(vocabulary[r.next() % 8]) + " " +
        (r.chance(400) ? G->files.at(g.file).word : vocabulary[r.next() % 8]);
  const char *pipeline =
      r.chance(500) ? "stem bm25 kld bm25" : "stem bm25 rsj bm25";
  std::map<std::string, std::vector<std::string>> one, many;
  std::string error;
  if (!trec(w, "tf-idf", tag_of(g.id), pipeline, queries, &one, &error, 1) ||
      !trec(w, "tf-idf", tag_of(g.id), pipeline, queries, &many, &error,
            threads))
    sim::fail("operation-failed", "ranking by forage %d: %s", g.id,
              error.c_str());
  Quiet _;
  if (one != many)
    sim::fail("wrong-ranking", "forage %d, \"%s\": %zu threads return "
                               "something else than one", g.id, pipeline,
              threads);
  sim::probe(22);
}

void run_rank(W w, const Op &op) {
  auto it = G->files.find((int)op.a);
  if (it == G->files.end())
    return;
  Rng r((uint64_t)op.b);
  auto gs = forages();
  auto g = gs.find((int)op.d);
  bool batch = g != gs.end() && G->j->forage[g->first] == ST_DONE &&
               !G->j->blind[g->first];
  w->start();
  if (batch && r.chance(200))
    rank_expanded(w, g->second, r, (size_t)op.c);
  else if (batch)
    rank_batch(w, g->second, r, (size_t)op.c);
  else
    rank_ssr(w, it->second, r, (size_t)op.c);
  w->end();
}

void run_client(int c) {
  std::string error;
  W w = G->base->clone(&error);
  expect_ok(w != nullptr, "a clone", error);
  if (w == nullptr)
    return;
  for (auto &op : G->plan->ops) {
    if (op.inc != G->inc || op.client != c)
      continue;
    switch (op.kind) {
    case K_IMPORT:
      run_import(w, op);
      break;
    case K_FORAGE:
      run_forage(w, op);
      break;
    case K_READ:
      visit(w, (uint64_t)op.b, false, "while others import");
      break;
    case K_PAUSE:
      pause((int)op.a);
      break;
    case K_RANK:
      run_rank(w, op);
      break;
    }
  }
}

bool open_meadow_() {
  Journal *j = G->j;
  std::string error;
  std::string name = "m" + std::to_string(j->dirs) + ".meadow";
  if (j->created == 2) {
    G->base = meadowlark::open_meadow(name, &error);
    if (G->base == nullptr && !sim::error_fired())
      sim::fail("cannot-open", "the meadow does not open: %s", error.c_str());
    return G->base != nullptr;
  }
  if (j->created == 1) { // cut short: it is a meadow, or does not pass for one
    G->base = meadowlark::open_meadow(name, &error);
    if (G->base != nullptr) {
      j->created = 2;
      return true;
    }
    j->dirs++;
    name = "m" + std::to_string(j->dirs) + ".meadow";
  }
  j->created = 1;
  G->base = meadowlark::create_meadow(name, &error);
  expect_ok(G->base != nullptr, "creating a meadow", error);
  if (G->base == nullptr)
    return false;
  j->created = 2;
  return true;
}

void run(sim::Ctx *ctx) {
  const Plan &plan = *ctx->plan;
  State_ state;
  G = &state;
  G->plan = &plan;
  G->inc = ctx->inc;
  G->j = (Journal *)ctx->journal;
  sim::set_error_flag(&G->j->fired);
  if (G->j->reading)
    for (int i = 0; i < MAX_FORAGE; i++)
      G->j->blind[i] |= G->j->forage[i] == ST_BEGUN;
  G->j->reading = 0;
  sim::set_reading_flag(&G->j->reading);
  default_limits();
  simulation_limit[SIMULATE_SMALL_SHARD] = plan.get("small", 8 << 20);
  simulation_limit[SIMULATE_MEDIUM_SHARD] = plan.get("medium", 256 << 20);
  simulation_limit[SIMULATE_LARGE_SHARD] = plan.get("large", 512 << 20);
  simulation_limit[SIMULATE_TEXT_CHUNK] = plan.get("chunk", 64 << 10);
  simulation_limit[SIMULATE_SMALL_COUNT] = plan.get("split", 64 << 10);
  simulation_limit[SIMULATE_PARALLEL_TOKENS] = plan.get("range", 1000000);
  {
    Quiet _;
    for (auto &op : plan.ops)
      if (op.kind == K_FILE)
        G->files[(int)op.d] = make_file((int)op.d, op.a, (uint64_t)op.b);
  }
  if (ctx->inc == 0) { // the user's files
    Quiet _;
    sim::set_faults_enabled(false);
    mkdir("d", 0777);
    for (auto &f : G->files)
      write_file(f.second.name, f.second.bytes);
    sim::set_faults_enabled(true);
  }
  if (!open_meadow_())
    return; // refused because of an injected error: that is a report
  if (ctx->inc > 0) {
    settle(G->base, -1, -1);
    visit(G->base, ~0ull, true, "after a restart");
  }
  int clients = (int)plan.get("clients", 2);
  std::vector<Client> threads;
  for (int c = 0; c < clients; c++)
    threads.emplace_back([c] { run_client(c); });
  for (auto &t : threads)
    t.join();
  threads.clear();
  int hours = sim::wait_idle();
  if (hours || sim::live_background())
    sim::fail("stuck", "%d background threads never finish",
              hours ? hours : sim::live_background());
  visit(G->base, ~0ull, true, "at the end");
  sim::wait_idle();
  G->base = nullptr;
  if (plan.get("given") && !sim::error_fired())
    given_back("m" + std::to_string(G->j->dirs) + ".meadow", [] {
      if (!open_meadow_())
        return;
      visit(G->base, ~0ull, true, "when opened again");
      sim::wait_idle();
      G->base = nullptr;
    });
}

void gen(Plan *p, Rng *r, bool thorough) {
  auto preset = [&](const char *k, int64_t d) {
    auto it = p->param.find(k);
    return it == p->param.end() ? d : it->second;
  };
  auto set = [&](const char *k, int64_t v) {
    if (!p->param.count(k))
      p->param[k] = v;
  };
  p->incs = (int)preset("incs", r->range(preset("min_incs", 1), 3));
  set("audit", r->range(1, 1000000));
  switch (r->range(0, 2)) {
  case 0:
    break;
  case 1:
    set("small", r->pick(std::vector<int64_t>{200, 1000, 4000}));
    set("medium", r->pick(std::vector<int64_t>{1000, 4000, 20000}));
    break;
  default:
    set("small", 1);
    set("medium", r->pick(std::vector<int64_t>{1, 500, 5000}));
  }
  if (p->param.count("medium"))
    set("large", 2 * p->param["medium"]);
  set("chunk", r->pick(std::vector<int64_t>{64, 200, 1000, 65536}));
  set("split", r->pick(std::vector<int64_t>{0, 3, 8, 65536}));
  set("range", r->pick(std::vector<int64_t>{1, 5, 20, 100}));
  set("clients", r->range(1, 3));
  int clients = (int)p->param["clients"];
  int nfiles = (int)r->range(1, preset("files", thorough ? 6 : 4));
  for (int i = 1; i <= nfiles; i++) {
    Op o;
    o.kind = K_FILE;
    o.client = -1;
    o.a = r->range(0, 63);
    if (r->chance(500))
      o.a &= ~(int64_t)(4 | 8);
    if (r->chance((int)preset("scribe", 100)))
      o.a |= 64;
    if (preset("tsv", 0))
      o.a &= ~1ll;
    if (r->chance(60))
      o.a |= 512 | 1;
    if (r->chance(250))
      o.a |= r->pick(std::vector<int64_t>{128, 128 | 256, 128 | 256, 256});
    o.b = (int64_t)(r->next() >> 20);
    o.d = i;
    p->ops.push_back(o);
  }
  int64_t wf = preset("w_forage", 2), wr = preset("w_read", 4), wk = preset("w_rank", 0);
  int forage = 1;
  std::vector<Op> imports, forages;
  for (int inc = 0; inc < p->incs; inc++) {
    std::vector<Op> ops;
    for (auto o : imports) // what the crash cut short is tried again
      if (r->chance(700)) {
        o.inc = inc;
        ops.push_back(o);
      }
    for (int i = 1; i <= nfiles; i++)
      if (inc == 0 ? r->chance(800) : r->chance(200)) {
        Op o;
        o.inc = inc;
        o.kind = K_IMPORT;
        o.client = i % clients;
        o.a = i;
        o.b = r->range(0, 1);
        if (r->chance(250))
          o.b |= 2 | r->range(0, 2) << 2;
        o.c = r->pick(std::vector<int64_t>{1, 1, 2, 3, 0});
        ops.push_back(o);
        imports.push_back(o);
      }
    for (auto o : forages)
      if (r->chance(700)) {
        o.inc = inc;
        ops.push_back(o);
      }
    for (int64_t n = r->range(0, wf); n > 0; n--) {
      Op o;
      o.inc = inc;
      o.kind = K_FORAGE;
      o.a = r->range(1, nfiles);
      o.client = (int)(o.a % clients);
      o.b = r->range(0, 15);
      o.c = r->pick(std::vector<int64_t>{1, 2, 2, 3, 5, 0});
      o.d = forage++;
      ops.push_back(o);
      forages.push_back(o);
    }
    for (int64_t n = r->range(0, wr); n > 0; n--) {
      Op o;
      o.inc = inc;
      o.kind = K_READ;
      o.client = (int)r->range(0, clients - 1);
      o.b = r->chance(300) ? 0xffffffffll : (int64_t)(r->next() >> 32);
      ops.insert(ops.begin() + r->range(0, (int64_t)ops.size()), o);
    }
    for (int64_t n = r->range(0, wk); n > 0; n--) {
      Op o;
      o.inc = inc;
      o.kind = K_RANK;
      o.client = (int)r->range(0, clients - 1);
      o.a = r->range(1, nfiles);
      o.b = (int64_t)(r->next() >> 20);
      o.c = r->pick(std::vector<int64_t>{0, 1, 2, 2, 3, 5});
      o.d = r->chance(600) ? r->range(1, forage) : 0;
      ops.insert(ops.begin() + r->range((int64_t)ops.size() / 2,
                                        (int64_t)ops.size()), o);
    }
    if (r->chance(300)) {
      Op o;
      o.inc = inc;
      o.kind = K_PAUSE;
      o.client = (int)r->range(0, clients - 1);
      o.a = r->pick(std::vector<int64_t>{1, 10, 100});
      ops.insert(ops.begin() + r->range(0, (int64_t)ops.size()), o);
    }
    p->ops.insert(p->ops.end(), ops.begin(), ops.end());
  }
}

const char *op_name(int kind) {
  switch (kind) {
  case K_FILE:
    return "input file";
  case K_IMPORT:
    return "import";
  case K_FORAGE:
    return "forage";
  case K_READ:
    return "read";
  case K_PAUSE:
    return "pause";
  case K_RANK:
    return "rank";
  }
  return "?";
}

void warm() { // the utf8 tables
  std::string error;
  if (Tokenizer::make("utf8", "", &error) == nullptr)
    sim::internal("%s", error.c_str());
}

} // namespace

extern const sim::Scenario meadow_scenario;
const sim::Scenario meadow_scenario = {"meadow", gen, run, op_name, warm};
