#include "../sim/plan.h"

extern const sim::Scenario burrow_scenario, static_scenario, meadow_scenario,
    server_scenario, stats_scenario;

namespace sim {

static const Scenario *scenarios[] = {&burrow_scenario, &static_scenario,
                                     &meadow_scenario, &server_scenario,
                                     &stats_scenario};

const Scenario *find_scenario(const std::string &name) {
  for (auto s : scenarios)
    if (name == s->name)
      return s;
  return nullptr;
}

static const int CRASH = 1, ERROR = 2, ALLOC = 4, READING = 8,
                 OWN = 16;

static const std::vector<Property> &properties() {
  static const std::vector<Property> p = {
      {"D00", {{1, "burrow", 0, 0, {}}}},
      // acknowledged commits survive a crash
      {"D01", {{1, "burrow", CRASH, 4, {{"min_incs", 2}, {"durable", 1}}}}},
      // transactions are all or nothing
      {"D02",
       {{2, "burrow", CRASH, 3, {{"min_incs", 2}, {"aborts", 400},
                                 {"w_read", 5}, {"w_param", 0}}},
        {1, "burrow", 0, 0, {{"aborts", 500}, {"w_param", 0}}}}},
      // storage errors are reported, not silent
      {"D03",
       {{2, "burrow", ERROR, 5, {{"min_incs", 2}, {"durable", 1}}},
        {1, "burrow", CRASH | ERROR, 5, {{"incs", 3}, {"durable", 1}}},
        {1, "burrow", ERROR, 8, {{"incs", 2}, {"durable", 1}, {"small", 1},
                                 {"medium", 1}, {"w_txn", 10}, {"w_merge", 4},
                                 {"w_param", 0}, {"w_group", 0}}}}},
      // snapshots
      {"D04",
       {{1, "burrow", 0, 0, {{"w_read", 14}, {"w_param", 0}, {"w_group", 0}}}}},
      // visibility follows real time
      {"D05",
       {{1, "burrow", 0, 0, {{"incs", 1}, {"w_read", 12}, {"w_param", 0},
                             {"w_merge", 0}, {"big", 0}}},
        {1, "burrow", 0, 0, {{"incs", 1}, {"w_param", 0}}}}},
      // addresses
      {"D06",
       {{2, "burrow", 0, 0, {{"w_txn", 16}, {"w_read", 2}, {"aborts", 300},
                             {"w_param", 0}}},
        {1, "burrow", CRASH, 2, {{"min_incs", 2}, {"w_txn", 14}, {"w_read", 3},
                                 {"aborts", 250}, {"w_param", 0}}}}},
      // compaction changes nothing
      {"D07",
       {{1, "burrow", 0, 0, {{"durable", 1}, {"small", 1}, {"medium", 1},
                             {"w_txn", 12}, {"w_merge", 3}, {"w_param", 0}}},
        {1, "burrow", 0, 0, {{"durable", 1}, {"w_txn", 14}, {"w_merge", 3},
                             {"w_param", 0}, {"big", 300}}},
        {1, "burrow", CRASH, 2, {{"min_incs", 2}, {"durable", 1},
                                 {"w_txn", 14}, {"w_merge", 2},
                                 {"w_param", 0}}},
        {2, "burrow", CRASH, 6, {{"incs", 4}, {"durable", 1}, {"w_txn", 14},
                                 {"tools", 1000}, {"erase", 1}, {"w_read", 2},
                                 {"w_param", 0}}}}},
      // commit_all
      {"D08",
       {{2, "burrow", CRASH, 5, {{"min_incs", 2}, {"durable", 1},
                                 {"w_group", 14}, {"w_txn", 4}, {"w_read", 3},
                                 {"w_param", 0}}},
        {1, "burrow", CRASH | ERROR, 5, {{"incs", 3}, {"durable", 1},
                                         {"w_group", 14}, {"w_txn", 4},
                                         {"w_read", 3}, {"w_param", 0}}},
        {1, "burrow", 0, 0, {{"durable", 1}, {"w_group", 12}, {"w_txn", 4},
                             {"w_param", 0}}}}},
      // recovery
      {"D09",
       {{2, "burrow", CRASH, 6, {{"incs", 4}, {"durable", 1}}},
        {1, "burrow", CRASH | ERROR, 6, {{"incs", 4}, {"durable", 1}}}}},
      // erasure
      {"D10",
       {{2, "burrow", 0, 0, {{"erase", 1}, {"w_param", 0}}},
        {1, "burrow", CRASH, 2, {{"erase", 1}, {"min_incs", 2},
                                 {"w_param", 0}}}}},
      // shared reading
      {"D11",
       {{1, "burrow", 0, 0, {{"w_read", 14}, {"threads", 800}, {"w_param", 0},
                             {"w_group", 0}}}}},
      // parameters
      {"D12",
       {{2, "burrow", CRASH, 4, {{"min_incs", 2}, {"durable", 1},
                                 {"w_param", 20}, {"w_txn", 3},
                                 {"w_read", 1}, {"w_group", 0}}},
        {1, "burrow", CRASH | ERROR, 4, {{"incs", 3}, {"durable", 1},
                                         {"w_param", 20}, {"w_txn", 3},
                                         {"w_read", 1}, {"w_group", 0}}},
        {1, "burrow", 0, 0, {{"w_param", 20}, {"w_txn", 3}, {"w_read", 1},
                             {"w_group", 0}}}}},
      // progress
      {"D13",
       {{1, "burrow", 0, 0, {{"durable", 1}, {"w_txn", 14}, {"w_read", 3},
                             {"w_merge", 3}, {"aborts", 300}}},
        {1, "burrow", CRASH, 2, {{"min_incs", 2}, {"durable", 1},
                                 {"w_txn", 14}, {"w_read", 2}}}}},
      // updates of a static index
      {"D14",
       {{3, "static", CRASH, 6, {{"min_incs", 2}, {"pieces", 3}, {"w_read", 1},
                                 {"tok_file", 1 << 20}}},
        {2, "static", ERROR, 4, {{"pieces", 3}, {"w_read", 1},
                                 {"tok_file", 1 << 20}, {"min_incs", 2}}},
        {2, "static", CRASH | ERROR, 6, {{"incs", 4}, {"pieces", 3},
                                         {"w_read", 1},
                                         {"tok_file", 1 << 20}}},
        {1, "static", 0, 0, {{"pieces", 3}, {"w_read", 1}}}}},
      // static builds
      {"D15",
       {{1, "static", 0, 0, {{"incs", 1}, {"w_update", 1}}},
        {1, "static", CRASH, 4, {{"incs", 2}, {"w_update", 1}}},
        {1, "static", ERROR, 4, {{"incs", 1}, {"w_update", 0}}},
        {1, "static", READING, 2, {{"incs", 1}, {"w_update", 0}, {"trec", 1},
                                   {"pieces", 3}}}}},
      // reading a static index
      {"D16",
       {{1, "static", 0, 0, {{"incs", 1}, {"w_update", 1}, {"w_read", 10},
                             {"threads", 900}}}}},
      // imports into a meadow
      {"D17",
       {{2, "meadow", CRASH, 4, {{"min_incs", 2}, {"w_forage", 0}}},
        {1, "meadow", ERROR, 3, {{"min_incs", 2}, {"w_forage", 0}}},
        {1, "meadow", CRASH | ERROR, 4, {{"incs", 3}, {"w_forage", 0}}},
        {1, "meadow", READING, 3, {{"min_incs", 2}, {"w_forage", 0}}},
        {1, "meadow", 0, 0, {{"w_forage", 0}, {"w_read", 12}}}}},
      // foraging
      {"D18",
       {{2, "meadow", CRASH, 4, {{"min_incs", 2}, {"w_forage", 5},
                                 {"files", 2}}},
        {1, "meadow", ERROR, 3, {{"min_incs", 2}, {"w_forage", 5},
                                 {"files", 2}}},
        {1, "meadow", CRASH | ERROR, 4, {{"incs", 3}, {"w_forage", 5},
                                         {"files", 2}}},
        {1, "meadow", 0, 0, {{"w_forage", 6}, {"w_read", 8}}}}},
      // ranking
      {"D19",
       {{2, "meadow", 0, 0, {{"w_forage", 4}, {"w_read", 0}, {"w_rank", 6}}},
        {1, "meadow", CRASH, 2, {{"min_incs", 2}, {"w_forage", 3},
                                 {"w_read", 0}, {"w_rank", 6}}}}},
      // trouble with reading the index itself
      {"D21",
       {{3, "burrow", OWN, 5, {{"min_incs", 2}, {"durable", 1}, {"w_txn", 12},
                               {"w_merge", 2}, {"w_read", 2}}},
        {1, "burrow", CRASH | OWN, 5, {{"incs", 3}, {"durable", 1},
                                       {"w_txn", 12}, {"w_read", 2}}},
        {2, "static", OWN, 5, {{"min_incs", 2}, {"pieces", 3}, {"w_read", 1},
                               {"tok_file", 1 << 20}}},
        {1, "static", CRASH | OWN, 5, {{"incs", 4}, {"pieces", 3},
                                       {"w_read", 1}, {"tok_file", 1 << 20}}},
        {1, "meadow", OWN, 3, {{"min_incs", 2}, {"w_forage", 2},
                               {"scribe", 300}}}}},
      // scribing
      {"D20",
       {{2, "meadow", CRASH, 4, {{"min_incs", 2}, {"w_forage", 1},
                                 {"scribe", 900}}},
        {2, "meadow", ERROR, 3, {{"min_incs", 2}, {"w_forage", 1},
                                 {"scribe", 900}}},
        {1, "meadow", CRASH | ERROR, 4, {{"incs", 3}, {"w_forage", 0},
                                         {"scribe", 900}}},
        {1, "meadow", 0, 0, {{"w_forage", 2}, {"w_read", 10},
                             {"scribe", 800}}}}},
      // the query server
      {"D22", {{1, "server", 0, 0, {}}}},
      // giving back
      {"D24",
       {{3, "burrow", CRASH, 3, {{"given", 1}, {"durable", 1}, {"w_txn", 12},
                               {"w_merge", 2}, {"w_read", 4}}},
        {2, "burrow", ERROR, 4, {{"given", 1}, {"durable", 1}, {"w_txn", 12},
                                 {"w_merge", 2}, {"min_incs", 2}}},
        {1, "static", CRASH, 4, {{"given", 1}, {"min_incs", 2}, {"pieces", 3},
                                 {"tok_file", 1 << 20}}},
        {1, "static", ERROR, 3, {{"given", 1}, {"min_incs", 2}, {"pieces", 3},
                                 {"tok_file", 1 << 20}}},
        {1, "static", READING, 2, {{"given", 1}, {"incs", 1}, {"trec", 1},
                                   {"pieces", 3}}},
        {1, "meadow", CRASH | ERROR, 3, {{"given", 1}, {"w_forage", 3},
                                         {"files", 2}, {"scribe", 300}}},
        {1, "server", 0, 0, {{"given", 1}}}}},
      // statistics in the index
      {"D25",
       {{2, "stats", CRASH, 5, {{"dynamic", 1}, {"min_incs", 2}}},
        {1, "stats", CRASH | ERROR, 5, {{"dynamic", 1}, {"min_incs", 2}}},
        {1, "stats", ERROR, 5, {{"dynamic", 1}}},
        {1, "stats", CRASH, 5, {{"dynamic", 0}, {"min_incs", 2}}},
        {1, "stats", CRASH | ERROR, 5, {{"dynamic", 0}, {"min_incs", 2}}},
        {1, "stats", ERROR, 6, {{"dynamic", 0}}},
        {1, "stats", 0, 0, {}}}},
      // tables of ids
      {"D23",
       {{1, "static", 0, 0, {{"pieces", 4}, {"tables", 400}, {"threads", 700}}},
        {2, "static", CRASH, 5, {{"min_incs", 2}, {"pieces", 4},
                                 {"tables", 600}, {"tok_file", 1 << 20}}},
        {1, "static", ERROR, 4, {{"min_incs", 2}, {"pieces", 4},
                                 {"tables", 600}, {"tok_file", 1 << 20}}},
        {1, "static", OWN, 4, {{"min_incs", 2}, {"pieces", 4},
                               {"tables", 600}, {"tok_file", 1 << 20}}},
        {1, "static", CRASH | ERROR, 5, {{"incs", 4}, {"pieces", 4},
                                         {"tables", 600},
                                         {"tok_file", 1 << 20}}}}},
  };
  return p;
}

// rare conditions that runs report having reached
const char *probe_name(int id) {
  static const char *names[64] = {
      nullptr,
      "a commit cut short by a crash took effect",
      "a commit cut short by a crash left no trace",
      "strict audit of a view",
      "abort before ready",
      "abort after ready",
      "abort because ready failed",
      "commit",
      "group commit",
      "group commit that failed",
      "an interrupted build turned out to be complete",
      "an interrupted build does not open",
      "an import cut short took effect",
      "an import cut short left no trace",
      "a forage cut short took effect",
      "a forage cut short left no trace",
      "import",
      "import that failed",
      "forage",
      "forage that failed",
      "ranking in ranges",
      "ranking a batch of queries",
      "ranking with feedback",
      "scribes committed together",
      "a shard stored by the tools",
      "shards merged by the tools",
      "a single file audited by itself",
      "an update refused before the interrupted one was resolved",
      nullptr,
      "a request refused",
      "a query answered",
      "another result",
      "a document",
      "a client that left without reading",
      "a client that reset its connection",
      "requests sent ahead of their answers",
      "a table of ids made",
      "a table of ids not made",
      "a closed index looked through for what is left over",
      "a view without statistics",
      "a view with statistics",
      "statistics made",
      "statistics not made", nullptr,
      nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr,
      nullptr, nullptr, nullptr,
      "a write to a connection that had been reset",
      "a connection reset by its client",
      "a write to a client that had gone",
      "part of a write accepted",
      "a write that had to wait for its reader",
      "a connection aborted before it was accepted",
  };
  return id >= 0 && id < 64 ? names[id] : nullptr;
}

const Property *find_property(const std::string &id) {
  for (auto &p : properties())
    if (id == p.id)
      return &p;
  return nullptr;
}

} // namespace sim
