// The query server over several collections, with clients of all kinds.
#include "common.h"

#include "../sim/net.h"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <iostream>
#include <streambuf>

#include "meadowlark/meadowlark.h"
#include "src/nlohmann.h"
#include "src/parameters.h"
#include "src/scribe.h"
#include "src/simple_builder.h"

int ssr_server_main(int argc, char **argv);

namespace {
using namespace cottontail;
using namespace scen;
using sim::Op;
using sim::Plan;
using sim::Rng;

enum Kind { K_COLLECTION = 1, K_CONNECTION };
enum Manner { // of a client
  M_POLITE, M_PIPELINE, M_UNTERMINATED, M_SLOW, M_LEAVE, M_ABRUPT, M_MANNERS
};

const char *container = ":", *content = ":1:", *docno = ":0:";

struct Document {
  std::string docno, text, word;
};

struct Candidate { // a document that a query finds
  size_t collection;
  addr p;
  fval score;
  std::string docno;
  std::vector<std::string> snippets; // any of them will do
};

struct Query {
  std::string gcl;
  bool valid = true;
  std::vector<Candidate> found;
  std::vector<fval> scores; // best first
};

struct Found { // what a request for a document is to give
  int matches = 0;
  size_t collection = 0;
  std::string text;
};

struct Collection {
  std::string burrow;
  int kind = 0;
  std::vector<Document> documents;
};

struct State_ {
  const Plan *plan;
  int inc;
  std::vector<Collection> collections;
  std::vector<Query> queries;
  std::map<std::string, Found> documents;
  std::set<std::string> qids;
  std::vector<std::string> arguments;
  std::vector<char *> argv;
};
State_ *G;

const char *vocabulary[] = {"running", "Rabbits", "cottontail", "hop",
                            "hopping", "H\xc3\xa9llo", "meadow", "the"};

struct Nowhere : std::streambuf { // for what the server says on the terminal
  int overflow(int c) final { return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char *, std::streamsize n) final { return n; }
} nowhere;

// ------------------------------------------------------------- collections

std::string words(Rng &r, int n, bool json, bool odd) {
  std::string s;
  for (int i = 0; i < n; i++) {
    if (i)
      s += r.chance(60) ? ", " : " ";
    if (json && r.chance(30))
      s += r.pick(std::vector<std::string>{"\"", "\\", "{", "]", "\n", "\r"});
    if (odd && r.chance(100))
      s += r.pick(std::vector<std::string>{"\xff", "\xc3", " \xe2\x82 ", "\x01"});
    s += vocabulary[r.next() % 8];
  }
  return s;
}

Collection make_collection(size_t c, int kind, int64_t shape, uint64_t seed,
                           bool odd) {
  Collection k;
  k.kind = kind;
  k.burrow = "c" + std::to_string(c) + (kind == 2 ? ".burrow" : ".meadow");
  Rng r(seed);
  int n = shape == 0 ? (int)r.range(0, 3) : shape == 1 ? (int)r.range(1, 10)
                                                       : (int)r.range(8, 25);
  for (int i = 0; i < n; i++) {
    Document d;
    std::string id = std::to_string(c) + "x" + std::to_string(i);
    d.docno = r.chance(60) ? "dup" : "d" + id;
    if (kind != 1 && r.chance(60))
      d.docno = ""; // has none
    d.word = "u" + id;
    int length = r.chance(50) ? (int)r.range(150, 450) : (int)r.range(0, 9);
    d.text = words(r, length, kind != 1, odd && kind == 1);
    d.text += (d.text.empty() ? "" : " ") + d.word;
    if (r.chance(500))
      d.text += " " + words(r, (int)r.range(1, 9), kind != 1, odd && kind == 1);
    k.documents.push_back(d);
  }
  return k;
}

void build(const Collection &k) {
  std::string text, error;
  for (auto &d : k.documents) {
    if (k.kind == 1) {
      text += d.docno + "\t" + d.text + "\n";
      continue;
    }
    json j;
    if (!d.docno.empty())
      j["0"] = d.docno;
    j["1"] = d.text;
    text += j.dump() + "\n";
  }
  std::string file = k.burrow + ".in";
  {
    Quiet _;
    write_file(file, text);
  }
  bool ok;
  if (k.kind == 2) {
    auto working = Working::mkdir(k.burrow, &error);
    auto featurizer = Featurizer::make("hashing", "", &error);
    auto tokenizer = Tokenizer::make("ascii", "", &error);
    if (working == nullptr || featurizer == nullptr || tokenizer == nullptr)
      sim::internal("%s", error.c_str());
    std::shared_ptr<Builder> builder =
        SimpleBuilder::make(working, featurizer, tokenizer, &error);
    auto scribe = builder == nullptr ? nullptr : Scribe::make(builder, &error);
    ok = scribe != nullptr && scribe_jsonl({file}, scribe, &error) &&
         scribe->finalize(&error);
  } else {
    W w = meadowlark::create_meadow(k.burrow, &error);
    ok = w != nullptr &&
         (k.kind == 0 ? meadowlark::append_jsonl(w, file, &error, 1, false)
                      : meadowlark::append_tsv(w, file, &error, false, "\t", 1));
  }
  if (!ok)
    sim::fail("operation-failed", "%s: %s", k.burrow.c_str(), error.c_str());
}

// ------------------------------------------------------------------ oracle

std::string clean(std::string s) {
  for (char &c : s)
    if (c == '\n' || c == '\r')
      c = ' ';
  return s;
}

// what is left of a string after it has been sent as JSON
std::string sent(const std::string &s) {
  if (!G->plan->get("odd"))
    return s;
  Quiet _;
  json j = s;
  return json::parse(j.dump(-1, ' ', false, json::error_handler_t::replace))
      .get<std::string>();
}

std::string unquoted(const std::string &s) {
  if (s.size() >= 2 && s.front() == '"' && s.back() == '"')
    return s.substr(1, s.size() - 2);
  return s;
}

// The passage [p,q] of the text [cp,cq], in at most 200 words of context.
std::string context(W w, addr cp, addr cq, addr p, addr q) {
  const addr window = 200;
  addr start = cp, end = cq;
  if (cq - cp + 1 > window) {
    if (q - p + 1 >= window) {
      start = p;
      end = q = p + window - 1;
    } else {
      addr extra = window - (q - p + 1);
      start = p - extra / 2;
      end = start + window - 1;
      if (start < cp) {
        start = cp;
        end = cp + window - 1;
      }
      if (end > cq) {
        end = cq;
        start = cq - window + 1;
      }
    }
  }
  auto text = [&](addr a, addr b) {
    return a <= b ? clean(w->txt()->translate(a, b)) : std::string();
  };
  return text(start, p - 1) + "<cover>" + text(p, q) + "</cover>" +
         text(q + 1, end);
}

std::vector<Ivl> all(W w, const std::string &gcl) {
  std::string error;
  auto h = w->hopper_from_gcl(gcl, &error);
  if (h == nullptr)
    sim::fail("operation-failed", "%s: %s", gcl.c_str(), error.c_str());
  return solutions(h.get());
}

void prepare(size_t c) {
  Collection &k = G->collections[c];
  std::string error;
  W w = Warren::make(k.burrow, &error);
  if (w == nullptr)
    sim::fail("cannot-open", "%s: %s", k.burrow.c_str(), error.c_str());
  w->start();
  struct Place {
    Ivl within;
    const Document *document = nullptr;
  };
  std::vector<Place> places;
  for (auto &i : all(w, container))
    places.push_back({i, nullptr});
  for (auto &d : k.documents) {
    auto at = all(w, "\"" + d.word + "\"");
    bool placed = false;
    for (auto &p : places)
      if (at.size() == 1 && p.within.p <= at[0].p && at[0].q <= p.within.q) {
        p.document = &d;
        placed = true;
      }
    if (!placed)
      sim::fail("lost-document", "%s: \"%s\" is not where it should be",
                k.burrow.c_str(), d.word.c_str());
  }
  auto within = all(w, content);
  std::map<std::pair<addr, addr>, std::string> contexts;
  fval K = Parameters::from_ranker_name("ssr")->defaults()["ssr:K"];
  for (auto &query : G->queries) {
    auto h = w->hopper_from_gcl(query.gcl, &error);
    if (h == nullptr) {
      query.valid = false;
      continue;
    }
    auto covers = solutions(h.get());
    for (auto &i : within) {
      Candidate found;
      found.collection = c;
      found.p = i.p;
      found.score = 0;
      addr width = maxfinity;
      for (auto &s : covers)
        if (i.p <= s.p && s.q <= i.q) {
          found.score += 1.0 / (K + s.q - s.p);
          width = std::min(width, s.q - s.p);
        }
      const Place *place = nullptr;
      for (auto &p : places)
        if (p.within.p <= i.p && i.q <= p.within.q)
          place = &p;
      if (found.score == 0 || place == nullptr || place->document == nullptr ||
          place->document->docno.empty())
        continue;
      found.docno = place->document->docno;
      for (auto &s : covers)
        if (i.p <= s.p && s.q <= i.q && s.q - s.p == width) {
          auto &known = contexts[std::make_pair(s.p, s.q)];
          if (known.empty())
            known = sent(context(w, i.p, i.q, s.p, s.q));
          found.snippets.push_back(known);
        }
      query.found.push_back(found);
      query.scores.push_back(found.score);
    }
  }
  for (auto &p : places) {
    if (p.document == nullptr || p.document->docno.empty())
      continue;
    Found &f = G->documents[p.document->docno];
    if (f.matches++)
      continue;
    f.collection = c;
    if (!G->plan->get("fields")) {
      f.text = sent(clean(w->txt()->translate(p.within.p, p.within.q)));
      continue;
    }
    std::string text;
    for (auto field : {content, docno})
      for (auto &i : all(w, field))
        if (p.within.p <= i.p && i.q <= p.within.q) {
          if (!text.empty())
            text += " ... ";
          text += unquoted(clean(w->txt()->translate(i.p, i.q)));
        }
    f.text = sent(text);
  }
  w->end();
}

std::string some_gcl(Rng &r) {
  auto word = [&]() -> std::string {
    if (r.chance(100) && !G->collections.empty()) {
      auto &k = r.pick(G->collections);
      if (!k.documents.empty())
        return "\"" + r.pick(k.documents).word + "\"";
    }
    if (r.chance(50))
      return "\"nowhere\"";
    return "\"" + std::string(vocabulary[r.next() % 8]) + "\"";
  };
  switch (r.range(0, 7)) {
  case 0:
  case 1:
    return word();
  case 2:
    return "(+ " + word() + " " + word() + ")";
  case 3:
    return "(... " + word() + " " + word() + ")";
  case 4:
    return "(+ (^ " + word() + " " + word() + ") " + word() + ")";
  case 5:
    return r.pick(std::vector<std::string>{"(", ")", "(+", "(% 3)", "(+ \"a\"",
                                           "(? \"a\" \"b\")", "\"", "a b"});
  default:
    return "(^ " + word() + " " + word() + ")";
  }
}

// ----------------------------------------------------------------- clients

struct Paging { // through what a query found
  std::string qid;
  const Query *query;
  size_t rank = 0;
  std::vector<bool> seen;
};

struct Request {
  enum What { QUERY, NEXT, DOCUMENT, BAD } what = BAD;
  std::string line;
  json parsed;
  bool is_json = true;
  int query = -1;
  int paging = -1;
  std::string docno;
};

struct Person { // one client, over all of its connections
  std::vector<Paging> paging;
};

Request some_request(Rng &r, Person &me) {
  Request q;
  json j;
  int64_t what = r.range(0, 99);
  if (what < 30) {
    q.what = Request::QUERY;
    q.query = (int)r.range(0, (int64_t)G->queries.size() - 1);
    j["op"] = "query";
    j["query"] = G->queries[(size_t)q.query].gcl;
  } else if (what < 60 && !me.paging.empty()) {
    q.what = Request::NEXT;
    q.paging = (int)r.range(0, (int64_t)me.paging.size() - 1);
    if (r.chance(700))
      q.paging = (int)me.paging.size() - 1;
    j["op"] = "next";
    j["qid"] = me.paging[(size_t)q.paging].qid;
  } else if (what < 80) {
    q.what = Request::DOCUMENT;
    auto &k = r.pick(G->collections);
    q.docno = r.chance(100) ? "dup" : "nothing";
    if (r.chance(800) && !k.documents.empty())
      q.docno = r.pick(k.documents).docno;
    j["op"] = "document";
    j["docno"] = q.docno;
    if (q.docno.empty())
      q.what = Request::BAD;
  } else {
    std::string big(3000, 'x');
    q.line = r.pick(std::vector<std::string>{
        "", "{", "nonsense", "\xff\xfe", "{\"op\":\"query\",\"query\":\"\xff\"}",
        "{\"op\":\"query\"}", "{\"op\":\"query\",\"query\":\"\"}",
        "{\"op\":\"next\"}", "{\"op\":\"next\",\"qid\":\"q77777\"}",
        "{\"op\":\"document\"}", "{\"op\":\"stop\"}", "{}", "[]", "[1,2]", "5",
        "null", "\"query\"", "{\"op\":5}", "{\"op\":null}",
        "{\"op\":\"query\",\"query\":[\"a\"]}",
        "{\"op\":\"query\",\"query\":5}", "{\"op\":\"next\",\"qid\":{}}",
        "{\"op\":\"document\",\"docno\":false}",
        "{\"op\":\"query\",\"query\":\"a\",\"n\":1e999}",
        std::string("{\"op\":\"\0\"}", 10), "{\"op\":\"" + big + "\"}", big,
        "{\"op\":\"document\",\"docno\":\"" + big + "\"}",
        "{\"op\":\"document\",\"docno\":\"\\\"\\\\ ) (\"}"});
    try {
      q.parsed = json::parse(q.line);
    } catch (json::exception &e) {
      q.is_json = false;
    }
    return q;
  }
  if (r.chance(100))
    j["note"] = "h\xc3\xa9";
  q.parsed = j;
  q.line = j.dump();
  if (r.chance(100))
    q.line += "\r";
  return q;
}

void check_result(Paging *paging, const json &response) {
  const Query &query = *paging->query;
  size_t rank = paging->rank + 1;
  if (response.contains("done")) {
    if (response["done"] != true || paging->rank != query.found.size())
      sim::fail("lost-result", "%s finds %zu documents, and is done after %zu",
                query.gcl.c_str(), query.found.size(), paging->rank);
    return;
  }
  if (rank > query.found.size())
    sim::fail("extra-result", "%s finds %zu documents, and has one more: %s",
              query.gcl.c_str(), query.found.size(), response.dump().c_str());
  if (response.value("rank", 0ul) != rank)
    sim::fail("wrong-rank", "%s: a result in place %zu says %s",
              query.gcl.c_str(), rank, response.dump().c_str());
  std::string burrow = response.value("burrow", ""),
              number = response.value("docno", ""),
              snippet = response.value("snippet", "");
  bool known = false, scored = false;
  for (size_t i = 0; i < query.found.size(); i++) {
    const Candidate &c = query.found[i];
    if (paging->seen[i] || G->collections[c.collection].burrow != burrow ||
        c.docno != number)
      continue;
    known = true;
    if (std::fabs(c.score - query.scores[rank - 1]) > 1e-9)
      continue;
    scored = true;
    if (std::find(c.snippets.begin(), c.snippets.end(), snippet) ==
        c.snippets.end())
      continue;
    paging->seen[i] = true;
    paging->rank = rank;
    return;
  }
  sim::fail(scored ? "wrong-snippet" : known ? "wrong-order" : "wrong-result",
            "%s: in place %zu there is %s", query.gcl.c_str(), rank,
            clip(response.dump()).c_str());
}

void check_answer(Person &me, const Request &q, const std::string &line) {
  Quiet _;
  auto bad = [&](const char *what) {
    sim::fail("wrong-answer", "%s: to %s the answer is %s", what,
              clip(q.line).c_str(), clip(line).c_str());
  };
  json record;
  try {
    record = json::parse(line);
  } catch (json::exception &e) {
    bad("not JSON");
  }
  if (!record.is_object() || !record.contains("query") ||
      !record.contains("response") || !record["response"].is_object() ||
      !record.contains("time"))
    bad("incomplete");
  if (q.is_json && record["query"] != q.parsed)
    bad("another request is repeated");
  const json &response = record["response"];
  if (!response.contains("ok") || !response["ok"].is_boolean() ||
      !response.contains("op") || !response["op"].is_string())
    bad("incomplete");
  bool ok = response["ok"];
  if (!ok && (!response.contains("error") || !response["error"].is_string() ||
              response["error"] == ""))
    bad("no reason is given");
  switch (q.what) {
  case Request::BAD:
    if (ok)
      bad("it is accepted");
    sim::probe(29);
    break;
  case Request::QUERY: {
    const Query &query = G->queries[(size_t)q.query];
    if (ok != query.valid)
      bad(query.valid ? "it is refused" : "it is accepted");
    if (!ok)
      break;
    if (response["op"] != "query" || !response.contains("qid") ||
        !response["qid"].is_string())
      bad("incomplete");
    Paging p;
    p.qid = response["qid"];
    if (!G->qids.insert(p.qid).second)
      bad("another query has its number");
    p.query = &query;
    p.seen.resize(query.found.size());
    check_result(&p, response);
    me.paging.push_back(p);
    sim::probe(30);
    break;
  }
  case Request::NEXT: {
    Paging &p = me.paging[(size_t)q.paging];
    if (!ok)
      bad("it is refused");
    if (response["op"] != "next" || response.value("qid", "") != p.qid)
      bad("incomplete");
    check_result(&p, response);
    sim::probe(31);
    break;
  }
  case Request::DOCUMENT: {
    auto it = G->documents.find(q.docno);
    bool one = it != G->documents.end() && it->second.matches == 1;
    if (ok != one)
      bad(one ? "it is refused" : "it is accepted");
    if (!ok)
      break;
    if (response["op"] != "document" ||
        response.value("docno", "") != q.docno ||
        response.value("burrow", "") !=
            G->collections[it->second.collection].burrow ||
        response.value("document", "") != it->second.text)
      bad("another document");
    sim::probe(32);
    break;
  }
  }
}

bool receive(int c, std::string *buffer, std::string *line, Rng &r, bool slow) {
  for (;;) {
    size_t at = buffer->find('\n');
    if (at != std::string::npos) {
      *line = buffer->substr(0, at);
      *buffer = buffer->substr(at + 1);
      return true;
    }
    char piece[512];
    if (slow)
      pause((int)r.range(0, 5));
    ssize_t n = sim::net_recv(c, piece, slow ? (size_t)r.range(1, 40)
                                             : sizeof piece);
    if (n <= 0)
      return false;
    buffer->append(piece, (size_t)n);
  }
}

void converse(Person &me, const Op &op) {
  Rng r((uint64_t)op.b);
  int manner = (int)op.c;
  int c = sim::net_connect();
  std::string buffer, line;
  std::vector<Request> asked;
  auto expect = [&](const Request &q) {
    if (!receive(c, &buffer, &line, r, manner == M_SLOW))
      sim::fail("no-answer", "there is no answer to %s", clip(q.line).c_str());
    check_answer(me, q, line);
  };
  if (manner == M_LEAVE || manner == M_ABRUPT) {
    std::string everything;
    {
      Quiet _;
      for (int i = 0; i < op.a; i++) {
        Request q = some_request(r, me);
        if (q.paging >= 0) // how far it gets is anyone's guess
          me.paging.erase(me.paging.begin() + q.paging);
        everything += q.line + "\n";
      }
      if (r.chance(300))
        everything.resize((size_t)r.range(0, (int64_t)everything.size()));
    }
    size_t taken = sim::net_offer(c, everything.data(), everything.size());
    pause((int)r.range(0, 30));
    if (r.chance(300)) {
      char some[64];
      if (everything.find('\n') < taken) // there will be an answer
        sim::net_recv(c, some, (size_t)r.range(1, 64));
    }
    sim::net_close(c, manner == M_ABRUPT);
    sim::probe(manner == M_ABRUPT ? 34 : 33);
    return;
  }
  if (manner == M_PIPELINE) {
    std::string everything;
    {
      Quiet _;
      for (int i = 0; i < op.a; i++) {
        asked.push_back(some_request(r, me));
        everything += asked.back().line + "\n";
      }
    }
    bool shut = r.chance(500), taken = false;
    Client writer([&] {
      taken = sim::net_send(c, everything.data(), everything.size());
      if (shut)
        sim::net_shutdown(c);
    });
    for (auto &q : asked)
      expect(q);
    writer.join();
    if (!taken)
      sim::fail("hung-up", "the server hangs up on a client");
    if (!shut)
      sim::net_shutdown(c);
    sim::probe(35);
  } else {
    for (int i = 0; i < op.a; i++) {
      Request q;
      {
        Quiet _;
        q = some_request(r, me);
        q.line += "\n";
        if (manner == M_UNTERMINATED && i + 1 == op.a) {
          q.line.pop_back();
          if (q.line.empty())
            break;
        }
      }
      if (!sim::net_send(c, q.line.data(), q.line.size()))
        sim::fail("hung-up", "the server hangs up on a client");
      if (manner == M_UNTERMINATED && i + 1 == op.a)
        sim::net_shutdown(c);
      expect(q);
    }
    sim::net_shutdown(c);
  }
  if (receive(c, &buffer, &line, r, false) || !buffer.empty())
    sim::fail("extra-answer", "nobody asked for %s", clip(line + buffer).c_str());
  sim::net_close(c, false);
}

void run_client(int c) {
  Person me;
  for (auto &op : G->plan->ops)
    if (op.kind == K_CONNECTION && op.client == c)
      converse(me, op);
}

void run(sim::Ctx *ctx) {
  const Plan &plan = *ctx->plan;
  State_ state;
  G = &state;
  G->plan = &plan;
  G->inc = ctx->inc;
  default_limits();
  simulation_limit[SIMULATE_TEXT_CHUNK] = plan.get("chunk", 64 << 10);
  simulation_limit[SIMULATE_PARALLEL_TOKENS] = plan.get("range", 1000000);
  {
    Quiet _;
    for (auto &op : plan.ops)
      if (op.kind == K_COLLECTION)
        G->collections.push_back(make_collection(G->collections.size(),
                                                 (int)op.a, op.c,
                                                 (uint64_t)op.b,
                                                 plan.get("odd")));
  }
  if (G->collections.empty())
    return;
  Rng r((uint64_t)plan.get("audit"));
  for (int i = 0; i < 6; i++) {
    Query q;
    q.gcl = some_gcl(r);
    G->queries.push_back(q);
  }
  for (auto &k : G->collections)
    build(k);
  sim::wait_idle();
  for (size_t c = 0; c < G->collections.size(); c++)
    prepare(c);
  sim::wait_idle();
  for (auto &q : G->queries) {
    if (!q.valid)
      q.found.clear();
    std::sort(q.scores.rbegin(), q.scores.rend());
  }
  auto add = [&](const std::string &s) { G->arguments.push_back(s); };
  add("ssr-server");
  if (plan.get("fields")) {
    add("--fields");
    add(std::string(content) + " , " + docno);
  }
  add(container);
  add(content);
  add(docno);
  for (auto &k : G->collections)
    add(k.burrow);
  for (auto &a : G->arguments)
    G->argv.push_back(&a[0]);
  G->argv.push_back(nullptr);
  std::cout.rdbuf(&nowhere);
  std::cerr.rdbuf(&nowhere);
  std::thread server([] {
    int rc = ssr_server_main((int)G->argv.size() - 1, &G->argv[0]);
    sim::fail("server-ended", "the server ends, with status %d", rc);
  });
  server.detach();
  std::vector<Client> threads;
  for (int c = 0; c < plan.get("clients", 2); c++)
    threads.emplace_back([c] { run_client(c); });
  for (auto &t : threads)
    t.join();
  threads.clear();
  // whatever they did, the next one is served
  Person last;
  Op op;
  op.a = 6;
  op.b = plan.get("audit") + 1;
  converse(last, op);
  sim::wait_idle();
  if (!sim::net_idle())
    sim::fail("stuck", "the server does not wait for the next client");
  if (plan.get("given") && sim::net_left_open())
    sim::fail("left-open", "%d connections left open by the server",
              sim::net_left_open());
}

void gen(Plan *p, Rng *r, bool thorough) {
  auto set = [&](const char *k, int64_t v) {
    if (!p->param.count(k))
      p->param[k] = v;
  };
  p->incs = 1;
  set("audit", r->range(1, 1000000));
  set("clients", r->range(1, 4));
  set("fields", r->chance(400));
  set("odd", r->chance(300));
  set("chunk", r->pick(std::vector<int64_t>{16, 64, 300, 64 << 10}));
  set("range", r->pick(std::vector<int64_t>{5, 50, 1000000}));
  int64_t n = r->range(1, thorough ? 4 : 3);
  for (int64_t i = 0; i < n; i++) {
    Op o;
    o.client = -1;
    o.kind = K_COLLECTION;
    o.a = r->range(0, 2);
    o.b = (int64_t)(r->next() >> 20);
    o.c = r->range(0, 2);
    p->ops.push_back(o);
  }
  n = r->range(1, thorough ? 14 : 8);
  for (int64_t i = 0; i < n; i++) {
    Op o;
    o.client = (int)r->range(0, p->param["clients"] - 1);
    o.kind = K_CONNECTION;
    o.a = r->range(0, 8);
    o.b = (int64_t)(r->next() >> 20);
    o.c = r->range(0, M_MANNERS - 1);
    p->ops.push_back(o);
  }
}

const char *op_name(int kind) {
  return kind == K_COLLECTION ? "collection"
         : kind == K_CONNECTION ? "connection" : "?";
}

} // namespace

extern const sim::Scenario server_scenario;
const sim::Scenario server_scenario = {"server", gen, run, op_name};
