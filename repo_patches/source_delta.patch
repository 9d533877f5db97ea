From 82ee7ea375421b868269d9667d089875fb1f1411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 01/55] Let a simulation shrink size limits (off unless
 COTTONTAIL_SIMULATION is defined)

---
 meadowlark/meadowlark.cc |  5 +++++
 src/bigwig.cc            | 11 +++++++++++
 src/core.h               | 15 +++++++++++++++
 src/ranking.cc           |  5 +++++
 4 files changed, 36 insertions(+)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index 01e60fa..e3c8fe7 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -286,7 +286,12 @@ bool append_jsonl(std::shared_ptr<Warren> warren, const std::string &filename,
 }
 
 namespace {
+#ifdef COTTONTAIL_SIMULATION
+const size_t &SMALL =
+    reinterpret_cast<size_t &>(simulation_limit[SIMULATE_SMALL_COUNT]);
+#else
 constexpr size_t SMALL = 64 * 1024;
+#endif
 size_t thread_count(size_t threads, size_t count) {
   if (count <= SMALL)
     threads = 1;
diff --git a/src/bigwig.cc b/src/bigwig.cc
index 2ec1ca1..8b90a44 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -815,9 +815,15 @@ bool Bigwig::ready_(std::string *error) {
 }
 
 namespace {
+#ifdef COTTONTAIL_SIMULATION
+const addr &small_shard = simulation_limit[SIMULATE_SMALL_SHARD];
+const addr &medium_shard = simulation_limit[SIMULATE_MEDIUM_SHARD];
+const addr &large_shard = simulation_limit[SIMULATE_LARGE_SHARD];
+#else
 const addr small_shard = 8 * 1024 * 1024;
 const addr medium_shard = 256 * 1024 * 1024;
 const addr large_shard = 2 * medium_shard;
+#endif
 
 bool find_sequence(const std::vector<bool> &a, size_t *start, size_t *end) {
   size_t best_len = 0;
@@ -1291,8 +1297,13 @@ void merge_worker(std::shared_ptr<Fluffle> fluffle) {
                             &error);
     } else if (action == MergeAction::fiver_to_hazel) {
       std::string error;
+#ifdef COTTONTAIL_SIMULATION
+      output = fiver_to_hazel->hazel(
+          &error, simulation_limit[SIMULATE_TEXT_CHUNK], fiver_hazel_parameters);
+#else
       output = fiver_to_hazel->hazel(&error, 64 * 1024,
                                      fiver_hazel_parameters);
+#endif
     }
     {
       std::lock_guard<std::mutex> _(fluffle->lock);
diff --git a/src/core.h b/src/core.h
index 39d9e92..4a6b204 100644
--- a/src/core.h
+++ b/src/core.h
@@ -18,6 +18,21 @@ constexpr addr maxfinity = INT64_MAX;
 constexpr addr minfinity = INT64_MIN;
 constexpr addr null_feature = 0;
 
+#ifdef COTTONTAIL_SIMULATION
+// Size limits that a simulation shrinks, and defines, to reach with little
+// data the code that handles a lot of it.
+enum {
+  SIMULATE_SMALL_SHARD,
+  SIMULATE_MEDIUM_SHARD,
+  SIMULATE_LARGE_SHARD,
+  SIMULATE_TEXT_CHUNK,
+  SIMULATE_SMALL_COUNT,
+  SIMULATE_PARALLEL_TOKENS,
+  SIMULATE_LIMITS
+};
+extern addr simulation_limit[SIMULATE_LIMITS];
+#endif
+
 inline addr fval2addr(fval v) {
   union {
     addr a;
diff --git a/src/ranking.cc b/src/ranking.cc
index 4f49cb1..c98cb41 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -1773,7 +1773,12 @@ bool tf_field_annotations(std::shared_ptr<Warren> warren, std::string *error) {
 }
 
 namespace {
+#ifdef COTTONTAIL_SIMULATION
+const addr &MINIMUM_PARALLEL_TOKENS =
+    simulation_limit[SIMULATE_PARALLEL_TOKENS];
+#else
 constexpr addr MINIMUM_PARALLEL_TOKENS = 1000000;
+#endif
 
 template <typename RankingAlgorithm>
 std::vector<RankingResult>
-- 
2.43.0


From a212f0cd86ae425991353fa5e42f4a6a37ce745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:17 +0000
Subject: [PATCH 02/55] fix: keep quotes, backslashes and newlines in
 parameters across dump and restart

---
 src/dna.cc    |  2 +-
 src/recipe.cc | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dna.cc b/src/dna.cc
index cf3e888..7edddf6 100644
--- a/src/dna.cc
+++ b/src/dna.cc
@@ -30,7 +30,7 @@ bool read_dna(std::shared_ptr<Working> working, std::string *dna,
   }
   *dna = "";
   while (std::getline(in, line))
-    *dna += (line + " ");
+    *dna += (line + "\n");
   return true;
 }
 
diff --git a/src/recipe.cc b/src/recipe.cc
index 7373b6f..852f8d7 100644
--- a/src/recipe.cc
+++ b/src/recipe.cc
@@ -46,7 +46,7 @@ const char *munch_map(const char *s, std::string *return_value) {
       working_value += quote;
       for (; *s != quote && *s != '\0'; s++) {
         if (*s == '\\') {
-          s++;
+          working_value += *s++;
           if (*s != '\\' && *s != quote)
             return s;
         }
@@ -134,8 +134,15 @@ void dump(std::ostream *out, std::string value, size_t depth) {
   std::map<std::string, std::string> parameters;
   if (cook(value, &parameters))
     dump(out, parameters, depth);
-  else
-    *out << '"' << value << '"';
+  else {
+    *out << '"';
+    for (char c : value) {
+      if (c == '"' || c == '\\')
+        *out << '\\';
+      *out << c;
+    }
+    *out << '"';
+  }
   *out << ',';
 }
 
-- 
2.43.0


From d0c5f791c44b129d79deaabbe0f839d5042426f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:17 +0000
Subject: [PATCH 03/55] fix: keep the outermost of nested erasures when merging
 postings

---
 src/simple_posting.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index f3e21c8..223ac0a 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -55,6 +55,14 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_annotations(
         clear_qostings = false;
       if (stop->v != 0.0)
         clear_fostings = false;
+      // Of nested erasures it's the outermost that counts
+      if (posting->feature_ == null_feature)
+        while (posting->postings_.size() > 0 &&
+               posting->postings_.back() >= stop->p) {
+          posting->postings_.pop_back();
+          posting->qostings_.pop_back();
+          posting->fostings_.pop_back();
+        }
       if (posting->postings_.size() == 0 ||
           (stop->p >= posting->postings_.back() &&
            stop->q >= posting->qostings_.back())) {
@@ -428,6 +436,22 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_merge(
     for (size_t i = 0; i < postings.size(); i++)
       if (postings[i]->size() > 0)
         queue.emplace(postings[i], i);
+    if (feature == null_feature) {
+      // Of nested erasures it's the outermost that counts
+      std::vector<std::pair<addr, addr>> erasures;
+      while (queue.size() > 0) {
+        Element e = queue.top();
+        queue.pop();
+        while (erasures.size() > 0 && erasures.back().first >= e.p())
+          erasures.pop_back();
+        erasures.emplace_back(e.p(), e.q());
+        if (e.next())
+          queue.push(e);
+      }
+      for (auto &erasure : erasures)
+        merged_posting->push(erasure.first, erasure.second, 0.0);
+      return merged_posting;
+    }
     addr k = minfinity;
     while (queue.size() > 0) {
       Element e = queue.top();
-- 
2.43.0


From 84636cc1eedf95453416c8ce03d7cc2f77edc2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:17 +0000
Subject: [PATCH 04/55] fix: make an empty Fiver transaction durable instead of
 aborting at commit

---
 src/fiver.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 15f1b06..aa9afcb 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -671,8 +671,6 @@ bool Fiver::ready_(std::string *error) {
   }
   if (!appender_->ready(error) || !annotator_->ready(error))
     return false;
-  if (annotations_->size() == 0)
-    return true;
   index_->clear();
   addr relocate = staging - where_;
   for (auto &annotation : (*annotations_))
-- 
2.43.0


From f9cd03a6bf834753f3810db725aed7dfe519ce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:17 +0000
Subject: [PATCH 05/55] fix: don't drop the commit link when asserts are
 disabled

---
 src/fiver.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index aa9afcb..e165d9d 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -714,8 +714,10 @@ void Fiver::commit_() {
       std::string ready_name = working()->make_name(name() + "." + recipe());
       name_ = "fiver";
       std::string final_name = working()->make_name(name() + "." + recipe());
-      assert(link(ready_name.c_str(), final_name.c_str()) == 0);
-      std::remove(ready_name.c_str());
+      bool linked = (link(ready_name.c_str(), final_name.c_str()) == 0);
+      assert(linked);
+      if (linked)
+        std::remove(ready_name.c_str());
     } else {
       name_ = "fiver";
     }
-- 
2.43.0


From 6da893db931498e3d0138fc764acec23b9efb5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:17 +0000
Subject: [PATCH 06/55] fix: report write failures when pickling a Fiver or
 writing a Hazel shard

---
 src/fiver.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fiver.cc b/src/fiver.cc
index e165d9d..a6e3e2e 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -810,6 +810,10 @@ bool Fiver::pickle(const std::string &filename, std::string *error) {
   for (auto &posting : *index_)
     posting.second->write(&jar);
   jar.close();
+  if (jar.fail()) {
+    safe_error(error) = "Fiver failed to pickle into: " + filename;
+    return false;
+  }
   return true;
 }
 
@@ -1259,6 +1263,10 @@ bool Fiver::hazel(const std::string &filename, std::string *error,
     return false;
   }
   out.close();
+  if (out.fail()) {
+    safe_error(error) = "Fiver failed to write Hazel shard: " + filename;
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 2a07232de385b63a7396043bd3697087714fa5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:17 +0000
Subject: [PATCH 07/55] fix: merge only contiguous Hazel shards so a gap can't
 block compaction

---
 src/bigwig.cc | 65 ++++++++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index 8b90a44..666ab02 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -855,32 +855,6 @@ bool find_sequence(const std::vector<bool> &a, size_t *start, size_t *end) {
   return false;
 }
 
-bool find_smallest_pair(const std::vector<addr> &a, size_t *start,
-                        size_t *end) {
-  if (a.size() < 2)
-    return false;
-  bool found = false;
-  size_t best_i = 0;
-  addr best_sum = 0;
-  for (size_t i = 0; i + 1 < a.size(); ++i) {
-    const addr x = a[i];
-    const addr y = a[i + 1];
-    if (x >= 0 && y >= 0) {
-      const addr s = x + y;
-      if (!found || s < best_sum) {
-        found = true;
-        best_sum = s;
-        best_i = i;
-      }
-    }
-  }
-  if (found && start && end) {
-    *start = best_i;
-    *end = best_i + 1;
-  }
-  return found;
-}
-
 bool eligible(std::shared_ptr<Fluffle> fluffle, std::shared_ptr<Owsla> warren) {
   return warren != nullptr &&
          fluffle->merging.find(warren) == fluffle->merging.end();
@@ -1014,13 +988,40 @@ bool find_recovered_hazel_merge(std::shared_ptr<Fluffle> fluffle, size_t *start,
 
 bool find_smallest_hazel_pair(std::shared_ptr<Fluffle> fluffle, size_t *start,
                               size_t *end) {
-  std::vector<addr> storage(fluffle->warrens.size(), -1);
-  for (size_t i = 0; i < fluffle->warrens.size(); i++) {
-    auto warren = fluffle->warrens[i];
-    if (eligible(fluffle, warren) && warren->name() == "hazel")
-      storage[i] = warren->estimated_size();
+  // Only shards with contiguous sequence numbers can be merged. The numbers of
+  // aborted transactions leave gaps between them.
+  bool found = false;
+  size_t best = 0;
+  addr best_sum = 0;
+  for (size_t i = 0; i + 1 < fluffle->warrens.size(); i++) {
+    auto left = fluffle->warrens[i];
+    auto right = fluffle->warrens[i + 1];
+    if (!eligible(fluffle, left) || !eligible(fluffle, right) ||
+        left->name() != "hazel" || right->name() != "hazel")
+      continue;
+    addr left_start, left_end, right_start, right_end;
+    left->get_sequence(&left_start, &left_end);
+    right->get_sequence(&right_start, &right_end);
+    if (left_end == maxfinity || right_start != left_end + 1)
+      continue;
+    addr left_size = left->estimated_size();
+    addr right_size = right->estimated_size();
+    if (left_size < 0 || right_size < 0)
+      continue;
+    addr sum = left_size + right_size;
+    if (!found || sum < best_sum) {
+      found = true;
+      best = i;
+      best_sum = sum;
+    }
   }
-  return find_smallest_pair(storage, start, end);
+  if (!found)
+    return false;
+  if (start != nullptr && end != nullptr) {
+    *start = best;
+    *end = best + 1;
+  }
+  return true;
 }
 
 bool find_hazel_action(std::shared_ptr<Fluffle> fluffle, size_t *start,
-- 
2.43.0


From 9bec16205b9dd3e9a728e3bafff4dd3c8a92465e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:17 +0000
Subject: [PATCH 08/55] fix: lock all of FiverTxt range so a concurrent caller
 can't see it half set

---
 src/fiver.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index a6e3e2e..bc4e133 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -317,16 +317,14 @@ private:
     return count_;
   }
   bool range_(addr *p, addr *q) {
+    std::lock_guard<std::mutex> lock(mutex_);
     if (!range_valid_) {
-      std::lock_guard<std::mutex> lock(mutex_);
-      if (!range_valid_) {
-        range_valid_ = true;
-        hopper_->tau(minfinity + 1, &range_p_, &range_q_);
-        if (range_p_ < maxfinity) {
-          addr ignore;
-          hopper_->uat(maxfinity - 1, &ignore, &range_q_);
-        }
+      hopper_->tau(minfinity + 1, &range_p_, &range_q_);
+      if (range_p_ < maxfinity) {
+        addr ignore;
+        hopper_->uat(maxfinity - 1, &ignore, &range_q_);
       }
+      range_valid_ = true;
     }
     *p = range_p_;
     *q = range_q_;
-- 
2.43.0


From f176baa853430580d1750e0f94cb02da9b7760ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:17 +0000
Subject: [PATCH 09/55] fix: count tokens in a Hazel shard without the gaps
 between chunks

---
 src/hazel.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hazel.cc b/src/hazel.cc
index a0283b6..938bba2 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -1052,7 +1052,7 @@ private:
   addr tokens_() final {
     if (token_start_ == maxfinity)
       return 0;
-    return token_end_ - token_start_ + 1;
+    return token_count_;
   };
   bool range_(addr *p, addr *q) final {
     if (token_start_ == maxfinity) {
@@ -1147,6 +1147,7 @@ private:
   void load_token_range() {
     token_start_ = maxfinity;
     token_end_ = maxfinity;
+    token_count_ = 0;
     addr p, q, value;
     {
       std::lock_guard<std::mutex> lock(hopper_lock_);
@@ -1154,6 +1155,8 @@ private:
       if (p == maxfinity)
         return;
       token_start_ = p;
+      for (; p < maxfinity; hopper_->tau(p + 1, &p, &q, &value))
+        token_count_ += q - p + 1;
       hopper_->uat(maxfinity - 1, &p, &q, &value);
       token_end_ = q;
     }
@@ -1249,6 +1252,7 @@ private:
   std::mutex cache_write_lock_;
   addr token_start_ = maxfinity;
   addr token_end_ = maxfinity;
+  addr token_count_ = 0;
 };
 
 bool HazelTxt::merge(const std::vector<std::shared_ptr<HazelTxt>> &txts,
-- 
2.43.0


From 0ba94494149b1b84e0af365f16ae819b12cc28bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:17 +0000
Subject: [PATCH 10/55] fix: bound translated text at gaps in the address space
 of a merged shard

---
 src/fiver.cc | 13 +++++++++----
 src/hazel.cc | 30 +++++++++++++++++-------------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index bc4e133..789dba0 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -283,14 +283,21 @@ private:
       return "";
     addr p0, q0, i;
     addr p1, q1, j;
+    addr p2, q2, n;
     {
       std::lock_guard<std::mutex> lock(mutex_);
       hopper_->rho(p, &p0, &q0, &i);
       if (p0 == maxfinity || p0 > q)
         return "";
       hopper_->ohr(q, &p1, &q1, &j);
+      hopper_->tau(p1 + 1, &p2, &q2, &n);
     }
-    size_t n = text_->length();
+    // There can be gaps in the address space between chunks. Text after the
+    // last chunk that's (partially) translated isn't part of the translation.
+    if (q > q1)
+      q = q1;
+    if (p2 == maxfinity)
+      n = text_->length();
     const char *t = text_->c_str();
     const char *s = t + i;
     if (p0 < p)
@@ -298,9 +305,7 @@ private:
     else
       p = p0;
     const char *e;
-    if (q > q1)
-      e = t + n;
-    else if (q0 == q1)
+    if (q0 == q1)
       e = tokenizer_->skip(s, n - (s - t), q - p + 1);
     else
       e = tokenizer_->skip(t + j, n - j, q - p1 + 1);
diff --git a/src/hazel.cc b/src/hazel.cc
index 938bba2..5fac3ae 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -987,30 +987,35 @@ private:
 
     addr p0, q0, left_anchor_byte;
     addr p1, q1, right_anchor_byte;
+    addr p2, q2, text_byte_end;
     {
       std::lock_guard<std::mutex> lock(hopper_lock_);
       hopper_->rho(p, &p0, &q0, &left_anchor_byte);
       if (p0 == maxfinity || p0 > q)
         return "";
       hopper_->ohr(q, &p1, &q1, &right_anchor_byte);
+      if (p1 == minfinity || p1 == maxfinity)
+        return "";
+      hopper_->tau(p1 + 1, &p2, &q2, &text_byte_end);
     }
-    if (p1 == minfinity || p1 == maxfinity)
-      return "";
+    // There can be gaps in the address space between anchored chunks. Text
+    // after the last of them isn't part of the translation.
+    if (q > q1)
+      q = q1;
+    if (p2 == maxfinity)
+      text_byte_end = raw_text_length_;
     if (left_anchor_byte < 0 || left_anchor_byte > raw_text_length_ ||
-        right_anchor_byte < 0 || right_anchor_byte > raw_text_length_)
+        right_anchor_byte < 0 || right_anchor_byte > raw_text_length_ ||
+        text_byte_end < right_anchor_byte || text_byte_end > raw_text_length_)
       return "";
 
     addr cover_byte_start = left_anchor_byte;
-    addr cover_byte_end = q > q1 ? raw_text_length_ : right_anchor_byte;
+    addr cover_byte_end = right_anchor_byte;
     if (cover_byte_start > cover_byte_end || map_.empty())
       return "";
 
     size_t first_chunk = chunk_containing(left_anchor_byte);
-    size_t last_chunk;
-    if (q > q1)
-      last_chunk = map_.size() - 1;
-    else
-      last_chunk = chunk_containing(right_anchor_byte);
+    size_t last_chunk = chunk_containing(right_anchor_byte);
     if (first_chunk >= map_.size() || last_chunk >= map_.size() ||
         first_chunk > last_chunk)
       return "";
@@ -1025,7 +1030,8 @@ private:
       return "";
 
     const char *base = cover.data();
-    const char *limit = base + cover.size();
+    const char *limit =
+        base + (std::min(text_byte_end, window_byte_end) - window_byte_start);
     const char *start = base + (left_anchor_byte - window_byte_start);
     if (p0 < p)
       start = tokenizer_->skip(start, limit - start, p - p0);
@@ -1033,9 +1039,7 @@ private:
       p = p0;
 
     const char *end;
-    if (q > q1) {
-      end = limit;
-    } else if (q0 == q1) {
+    if (q0 == q1) {
       end = tokenizer_->skip(start, limit - start, q - p + 1);
     } else {
       addr offset = right_anchor_byte - window_byte_start;
-- 
2.43.0


From 0bde7113a2ca838f383518fce36f2f17afb91ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:49 +0000
Subject: [PATCH 11/55] fix: don't try to convert large shards to Hazel when
 there's nowhere to store them

---
 src/bigwig.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index 666ab02..78f42f1 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -934,6 +934,8 @@ bool find_stranded_fiver_conversion(std::shared_ptr<Fluffle> fluffle,
 
 bool find_oldest_large_fiver_conversion(std::shared_ptr<Fluffle> fluffle,
                                         size_t *start, size_t *end) {
+  if (fluffle->working == nullptr)
+    return false;
   for (size_t i = 0; i < fluffle->warrens.size(); i++) {
     auto warren = fluffle->warrens[i];
     if (eligible(fluffle, warren) && warren->name() == "fiver" &&
-- 
2.43.0


From c909fd987ae4a5f4e0e92416c309d90057c77878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:49 +0000
Subject: [PATCH 12/55] fix: don't retry a failed merge over and over, wait for
 the next commit

---
 src/bigwig.cc | 4 +++-
 src/fluffle.h | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index 78f42f1..1e5517c 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -1239,7 +1239,7 @@ void merge_worker(std::shared_ptr<Fluffle> fluffle) {
       }
       size_t start;
       size_t end;
-      if (!find_merge_action(fluffle, &start, &end)) {
+      if (fluffle->failed || !find_merge_action(fluffle, &start, &end)) {
         retire();
         return;
       }
@@ -1313,6 +1313,7 @@ void merge_worker(std::shared_ptr<Fluffle> fluffle) {
       if (output == nullptr) {
         for (auto &warren : selected)
           fluffle->merging.erase(warren);
+        fluffle->failed = true;
         retire();
         return;
       }
@@ -1354,6 +1355,7 @@ void merge_worker(std::shared_ptr<Fluffle> fluffle) {
 void Bigwig::try_merge() {
   if (fluffle_->merge) {
     fluffle_->lock.lock();
+    fluffle_->failed = false;
     if (fluffle_->workers < fluffle_->max_workers) {
       fluffle_->workers++;
       std::thread t(merge_worker, fluffle_);
diff --git a/src/fluffle.h b/src/fluffle.h
index a9b2d62..cb9b505 100644
--- a/src/fluffle.h
+++ b/src/fluffle.h
@@ -26,6 +26,7 @@ struct Fluffle {
   };
   std::mutex lock;
   bool merge = true;
+  bool failed = false; // wait for the next commit before merging again
   size_t workers = 0;
   size_t max_workers;
   addr address = 0;
-- 
2.43.0


From b215c7810e0e6001e2211be52472f031534e1fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:30 +0000
Subject: [PATCH 13/55] fix: report a failure to write the dna file

---
 src/dna.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dna.cc b/src/dna.cc
index 7edddf6..ee5312d 100644
--- a/src/dna.cc
+++ b/src/dna.cc
@@ -46,7 +46,12 @@ bool write_dna(std::shared_ptr<Working> working, const std::string &dna,
   out << HEADER << "\n";
   out << dna;
   out.close();
-  std::rename(temp_filename.c_str(), dna_filename.c_str());
+  if (out.fail() ||
+      std::rename(temp_filename.c_str(), dna_filename.c_str()) != 0) {
+    std::remove(temp_filename.c_str());
+    safe_error(error) = "Can't write configuration to: " + dna_filename;
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 4324a80ba1a3509dd05f510f1ed0546bc0923977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:30 +0000
Subject: [PATCH 14/55] fix: keep the sources of a merge when the merged shard
 can't be stored

---
 src/bigwig.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index 1e5517c..6c8b63c 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -1290,10 +1290,8 @@ void merge_worker(std::shared_ptr<Fluffle> fluffle) {
     std::shared_ptr<Owsla> output;
     if (action == MergeAction::fiver_merge) {
       std::shared_ptr<Fiver> merged = Fiver::merge(fivers);
-      if (merged != nullptr) {
-        merged->pickle();
+      if (merged != nullptr && merged->pickle())
         output = merged;
-      }
     } else if (action == MergeAction::hazel_merge) {
       std::string error;
       output = Hazel::merge(hazels, hazel_merge_destination, hazel_parameters,
-- 
2.43.0


From 9dbdb6b38da580b1f3d382fddcd8375e742477b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:30 +0000
Subject: [PATCH 15/55] fix: don't leave behind a Hazel shard that can't be
 activated

---
 src/fiver.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 789dba0..bcd5ca6 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -1206,8 +1206,10 @@ std::shared_ptr<Hazel> Fiver::hazel(std::string *error, addr text_chunk_size,
   }
   std::remove(tempname.c_str());
   std::shared_ptr<Hazel> hazel = activate_hazel(hazelname, error);
-  if (hazel == nullptr)
+  if (hazel == nullptr) {
+    std::remove(hazelname.c_str());
     return nullptr;
+  }
   return hazel;
 }
 
-- 
2.43.0


From 85265cbc5ad26636eaa2c25016c261b4d545eaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 16/55] fix: don't remove another transaction's shard when
 aborting before ready

---
 src/fiver.cc | 2 +-
 src/fiver.h  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index bcd5ca6..6f3ae43 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -742,7 +742,7 @@ void Fiver::abort_() {
 };
 
 bool Fiver::discard(std::string *error) {
-  if (working() != nullptr) {
+  if (working() != nullptr && sequence_start_ >= 0) {
     std::string jarname = working()->make_name(name() + "." + recipe());
     std::remove(jarname.c_str());
   }
diff --git a/src/fiver.h b/src/fiver.h
index 0c099dc..ea57702 100644
--- a/src/fiver.h
+++ b/src/fiver.h
@@ -97,8 +97,8 @@ private:
   void abort_() final;
   bool built_;
   addr where_;
-  addr storage_estimate_;
-  addr sequence_start_, sequence_end_;
+  addr storage_estimate_ = 0;
+  addr sequence_start_ = -1, sequence_end_ = -1;
   std::shared_ptr<Compressor> posting_compressor_;
   std::shared_ptr<Compressor> fvalue_compressor_;
   std::shared_ptr<Compressor> text_compressor_;
-- 
2.43.0


From 21629aecad96a0bc65c4d4e22961988a2a9e29ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:19 +0000
Subject: [PATCH 17/55] simulation hooks: raw text chunk size and text map
 blocking

---
 src/core.h   | 2 ++
 src/simple.h | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/core.h b/src/core.h
index 4a6b204..80bf938 100644
--- a/src/core.h
+++ b/src/core.h
@@ -28,6 +28,8 @@ enum {
   SIMULATE_TEXT_CHUNK,
   SIMULATE_SMALL_COUNT,
   SIMULATE_PARALLEL_TOKENS,
+  SIMULATE_RAW_CHUNK,
+  SIMULATE_TXT_BLOCKING,
   SIMULATE_LIMITS
 };
 extern addr simulation_limit[SIMULATE_LIMITS];
diff --git a/src/simple.h b/src/simple.h
index e6e1821..985c139 100644
--- a/src/simple.h
+++ b/src/simple.h
@@ -19,8 +19,14 @@ const std::string TXT_NAME = "txt"; // token map for text
 const std::string IDX_NAME = "idx"; // dictionary for inverted index
 const std::string PST_NAME = "pst"; // postings lists (compressed)
 
+#ifdef COTTONTAIL_SIMULATION
+static const addr &TEXT_COMPRESSOR_CHUNK_SIZE =
+    simulation_limit[SIMULATE_RAW_CHUNK];
+static const addr &TXT_BLOCKING = simulation_limit[SIMULATE_TXT_BLOCKING];
+#else
 static const addr TEXT_COMPRESSOR_CHUNK_SIZE = 1024 * 1024;
 static const addr TXT_BLOCKING = 1024;
+#endif
 
 // Text compressor must not trash its input
 const std::string TEXT_COMPRESSOR_NAME = "zlib";
-- 
2.43.0


From 286c3bff3d6213092d5eb0e0b9fa6384d14ec4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:43 +0000
Subject: [PATCH 18/55] fix: report writes that fail while building a static
 index

---
 src/simple_builder.cc | 29 ++++++++++++++++++++++++++++-
 src/simple_txt_io.cc  |  7 +++++++
 src/simple_txt_io.h   |  7 +++++--
 3 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/simple_builder.cc b/src/simple_builder.cc
index 9b4cfdd..9875de1 100644
--- a/src/simple_builder.cc
+++ b/src/simple_builder.cc
@@ -441,6 +441,8 @@ bool SimpleBuilder::maybe_flush_tokens(bool force, std::string *error) {
                   posting_factory->posting_from_tokens(&it, tokens->end());
               posting->write(&tok);
             }
+            tok.close();
+            assert(!tok.fail());
           };
       if (verbose())
         std::cout << "SimpleBuilder starting thread to sort token buffer\n";
@@ -468,6 +470,12 @@ bool SimpleBuilder::maybe_flush_tokens(bool force, std::string *error) {
             posting_factory_->posting_from_tokens(&it, tokens_->end());
         posting->write(&tok);
       }
+      tok.close();
+      if (tok.fail()) {
+        safe_error(error) =
+            "SimpleBuilder can't write temporary file for tokens";
+        return false;
+      }
       tokq_.push(tok_filename);
       tokens_->clear();
     }
@@ -552,6 +560,16 @@ bool SimpleBuilder::build_index(std::string *error) {
       return false;
     }
   }
+  pst.close();
+  if (pst.fail()) {
+    safe_error(error) = "SimpleBuilder can't write to: " + pst_filename_;
+    return false;
+  }
+  idx.close();
+  if (idx.fail()) {
+    safe_error(error) = "SimpleBuilder can't write to: " + idx_filename_;
+    return false;
+  }
   while (!tokq_.empty()) {
     std::string remove_me = tokq_.front();
     std::remove(remove_me.c_str());
@@ -633,6 +651,8 @@ bool SimpleBuilder::maybe_flush_annotations(bool force, std::string *error) {
                                                           annotations->end());
             posting->write(&ann);
           }
+          ann.close();
+          assert(!ann.fail());
         };
     std::string ann_filename = working_->make_temp();
     annq_.push(ann_filename);
@@ -674,7 +694,14 @@ bool SimpleBuilder::finalize_(std::string *error) {
   if (verbose())
     std::cout << "SimpleBuilder finalizing\n";
   txt_.close();
-  io_->flush();
+  if (txt_.fail()) {
+    safe_error(error) = "SimpleBuilder can't write to: " + txt_filename_;
+    return false;
+  }
+  if (!io_->flush()) {
+    safe_error(error) = "SimpleBuilder can't write text";
+    return false;
+  }
   if (!maybe_flush_tokens(true, error))
     return false;
   if (!maybe_flush_annotations(true, error))
diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 2eefaa1..c15eb34 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -89,6 +89,7 @@ void restore(const std::string &nameof_contents,
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
   assert(!mapf.fail());
   mapf.close();
+  assert(!mapf.fail());
 }
 
 } // namespace
@@ -268,6 +269,8 @@ void SimpleTxtIO::sync_last_chunk() {
   assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
   assert(!mapf.fail());
+  mapf.close();
+  assert(!mapf.fail());
   last_chunk_synced_ = true;
 }
 
@@ -290,6 +293,8 @@ void SimpleTxtIO::append_full_chunk(char *text) {
   assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
   assert(!mapf.fail());
+  mapf.close();
+  assert(!mapf.fail());
 }
 
 void SimpleTxtIO::start_new_chunk(char *text, addr length) {
@@ -316,6 +321,8 @@ void SimpleTxtIO::start_new_chunk(char *text, addr length) {
   assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
   assert(!mapf.fail());
+  mapf.close();
+  assert(!mapf.fail());
   last_chunk_synced_ = true;
 }
 
diff --git a/src/simple_txt_io.h b/src/simple_txt_io.h
index f0e76b8..fa6bdb5 100644
--- a/src/simple_txt_io.h
+++ b/src/simple_txt_io.h
@@ -24,14 +24,17 @@ public:
                       std::shared_ptr<Compressor> compressor, bool commit);
   std::shared_ptr<SimpleTxtIO> clone(std::string *error = nullptr);
   void append(char *text, addr length);
-  void flush() {
+  bool flush() {
     if (read_only_)
-      return;
+      return true;
     if (!flushed_) {
       sync_last_chunk();
       contents_.flush();
+      if (contents_.fail())
+        return false;
       flushed_ = true;
     }
+    return true;
   }
   std::unique_ptr<char[]> read(addr start, addr desired, addr *actual);
   addr size() { return size_; }
-- 
2.43.0


From 61f6033b8723c98bee722c1ddc6be2121c39fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:43 +0000
Subject: [PATCH 19/55] fix: have an update's files written out before it
 reports ready

---
 src/simple_annotator.cc | 13 +++++++++++++
 src/simple_appender.cc  |  8 ++++++++
 src/simple_txt_io.cc    |  5 ++++-
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/simple_annotator.cc b/src/simple_annotator.cc
index 95b4cdb..77a9bb6 100644
--- a/src/simple_annotator.cc
+++ b/src/simple_annotator.cc
@@ -198,6 +198,16 @@ bool merge_updates(const std::vector<std::string> &posting_filenames,
       return false;
     }
   }
+  pst.close();
+  if (pst.fail()) {
+    safe_error(error) = "SimpleAnnotator can't write to: " + pst_filename;
+    return false;
+  }
+  idx.close();
+  if (idx.fail()) {
+    safe_error(error) = "SimpleAnnotator can't write to: " + idx_filename;
+    return false;
+  }
   return true;
 }
 
@@ -226,6 +236,9 @@ void SimpleAnnotator::maybe_flush_additions(bool force) {
             posting_factory->posting_from_annotations(&it, added->end());
         posting->write(&addf);
       }
+      addf.close();
+      if (addf.fail())
+        (*cannot_create_temp_files) = true;
     };
     std::string add_filename = working_->make_temp("ann");
     added_files_.push_back(add_filename);
diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index 54fe8f0..5747556 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -315,6 +315,14 @@ bool SimpleAppender::ready_(std::string *error) {
     safe_error(error) = "SimpleAppender not in transaction";
   else if (!result && failed_)
     safe_error(error) = "SimpleAppender in failed state";
+  if (result) {
+    txt_.flush();
+    if (txt_.fail()) {
+      safe_error(error) =
+          "SimpleAppender can't write to: " + txt_filename_ + ".new";
+      result = false;
+    }
+  }
   lock_.unlock();
   return result;
 }
diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index c15eb34..92e74eb 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -475,7 +475,10 @@ bool SimpleTxtIO::transaction_(std::string *error) {
 }
 
 bool SimpleTxtIO::ready_(std::string *error) {
-  flush();
+  if (!flush()) {
+    safe_error(error) = "SimpleTxtIO can't write to: " + nameof_contents_;
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 84ae531762633ea0521cb20b5023813c4db51082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:20 +0000
Subject: [PATCH 20/55] fix: check that an update's rollback information is
 written

---
 src/simple_txt_io.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 92e74eb..3870536 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -463,6 +463,12 @@ bool SimpleTxtIO::transaction_(std::string *error) {
     return false;
   }
   temp.close();
+  if (temp.fail()) {
+    std::remove(nameof_temp.c_str());
+    std::remove(nameof_lock.c_str());
+    safe_error(error) = "SimpleTxtIO can't record transaction info";
+    return false;
+  }
   std::string nameof_limits = nameof_contents_ + ".limits";
   if (std::rename(nameof_temp.c_str(), nameof_limits.c_str()) != 0) {
     std::remove(nameof_temp.c_str());
-- 
2.43.0


From a798480c379b5859abeb6b64fb4fe2895cab91ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:31 +0000
Subject: [PATCH 21/55] fix: let an update start on a static index that has no
 text

---
 src/simple_txt_io.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 3870536..a7be119 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -449,14 +449,14 @@ bool SimpleTxtIO::transaction_(std::string *error) {
     safe_error(error) = "SimpleTxtIO can't record transaction info";
     return false;
   }
-  addr last_chunk_end = chunk_end_;
+  addr last_chunk_end = (chunk_map_->size() > 0 ? chunk_end_ : 0);
   temp.write(reinterpret_cast<char *>(&last_chunk_end), sizeof(addr));
   if (temp.fail()) {
     std::remove(nameof_lock.c_str());
     safe_error(error) = "SimpleTxtIO can't record transaction info";
     return false;
   }
-  temp.write(chunk_.get(), chunk_end_);
+  temp.write(chunk_.get(), last_chunk_end);
   if (temp.fail()) {
     std::remove(nameof_lock.c_str());
     safe_error(error) = "SimpleTxtIO can't record transaction info";
-- 
2.43.0


From b3c301b5a1be166ead9e0cc5236bbb26aced7597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:06 +0000
Subject: [PATCH 22/55] fix: don't build a static index whose text can't be
 written

---
 src/simple_builder.cc | 4 ++++
 src/simple_txt_io.h   | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/simple_builder.cc b/src/simple_builder.cc
index 9875de1..4ea16c8 100644
--- a/src/simple_builder.cc
+++ b/src/simple_builder.cc
@@ -400,6 +400,10 @@ std::shared_ptr<SimpleBuilder> SimpleBuilder::make(
                         text_compressor, error);
   if (builder->io_ == nullptr)
     return nullptr;
+  if (builder->io_->read_only()) {
+    safe_error(error) = "SimpleBuilder can't write: " + raw_filename;
+    return nullptr;
+  }
   builder->address_ = 0;
   builder->offset_ = 0;
   builder->txt_.open(builder->txt_filename_, std::ios::binary | std::ios::out);
diff --git a/src/simple_txt_io.h b/src/simple_txt_io.h
index fa6bdb5..3c234b3 100644
--- a/src/simple_txt_io.h
+++ b/src/simple_txt_io.h
@@ -38,6 +38,7 @@ public:
   }
   std::unique_ptr<char[]> read(addr start, addr desired, addr *actual);
   addr size() { return size_; }
+  bool read_only() { return read_only_; }
   void dump(std::ostream &output = std::cout);
 
   virtual ~SimpleTxtIO() { flush(); }
-- 
2.43.0


From 882ea3949d76fee98729e6d5795d71c059245ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:16 +0000
Subject: [PATCH 23/55] fix: release an update's lock when it is aborted after
 a failure

---
 src/simple_appender.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index 5747556..ba6c1f4 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -346,7 +346,7 @@ void SimpleAppender::abort_() {
   lock_.lock();
   if (io_ != nullptr)
     io_->abort();
-  if (!failed_ && adding_) {
+  if (adding_) {
     txt_.close();
     std::string new_filename = txt_filename_ + ".new";
     std::remove(new_filename.c_str());
-- 
2.43.0


From 4be0d3324395a450894c01eb66044ee4c6c606f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:23 +0000
Subject: [PATCH 24/55] fix: don't stretch a TSV record over its empty fields

Appending text without tokens returns an empty interval, p > q, whose q is
the address of whatever is appended next.  A record that ends with an empty
field took that address in, so it ran into the next record, and was hidden
altogether when the next record is a single token.
---
 meadowlark/meadowlark.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index e3c8fe7..da56f7c 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -381,8 +381,10 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
           }
           return;
         }
-        p0 = std::min(p0, p1);
-        q0 = std::max(q0, q1);
+        if (p1 <= q1) {
+          p0 = std::min(p0, p1);
+          q0 = std::max(q0, q1);
+        }
       }
       if (p0 <= q0 &&
           !twarren->annotator()->annotate(record_feature, p0, q0, &terror)) {
@@ -392,8 +394,10 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
         }
         return;
       }
-      p = std::min(p, p0);
-      q = std::max(q, q0);
+      if (p0 <= q0) {
+        p = std::min(p, p0);
+        q = std::max(q, q0);
+      }
     }
     if ((p <= q &&
          !twarren->annotator()->annotate(path_feature, p, q, &terror)) ||
-- 
2.43.0


From 2461f9f33b08b99d92b2945ef13632dc15eefdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:52 +0000
Subject: [PATCH 25/55] fix: import a TSV file as a whole or not at all

The path that marks a file as imported was committed before any of the
records were read into the meadow, and each thread's records were committed
separately, so a crash or a failure left the file marked, with some or all
of its records missing, and a restart skipped it.
---
 meadowlark/meadowlark.cc | 45 +++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index da56f7c..ce2816a 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -315,31 +315,31 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
   addr path_feature;
   if (!append_path_warren(warren, filename, &path_feature, error))
     return false;
-  warren->commit();
-  if (lines.size() == 0)
+  if (lines.size() == 0) {
+    warren->commit();
     return true;
+  }
   threads = thread_count(threads, lines.size());
   std::string wsep = separator;
   if (wsep == "")
     wsep = "\t";
   std::vector<std::shared_ptr<cottontail::Warren>> clones;
+  auto abort_all = [&]() {
+    for (auto &c : clones) {
+      c->abort();
+      c->end();
+    }
+    warren->abort();
+    return false;
+  };
   for (size_t i = 0; i < threads; i++) {
     std::shared_ptr<cottontail::Warren> clone = warren->clone(error);
-    if (clone == nullptr) {
-      for (auto &c : clones) {
-        c->abort();
-        c->end();
-      }
-      return false;
-    }
+    if (clone == nullptr)
+      return abort_all();
     clone->start();
     if (!clone->transaction(error)) {
       clone->end();
-      for (auto &c : clones) {
-        c->abort();
-        c->end();
-      }
-      return false;
+      return abort_all();
     }
     clones.push_back(clone);
   }
@@ -413,17 +413,14 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
     workers.emplace_back(std::thread(append_worker, i));
   for (auto &worker : workers)
     worker.join();
-  if (failed.load(std::memory_order_relaxed)) {
-    for (auto &c : clones) {
-      c->abort();
-      c->end();
-    }
-    return false;
-  }
-  for (auto &c : clones) {
-    c->commit();
+  if (failed.load(std::memory_order_relaxed))
+    return abort_all();
+  // The path comes last: where it is, the records are.
+  std::vector<std::shared_ptr<cottontail::Warren>> warrens = clones;
+  warrens.push_back(warren);
+  Warren::commit_all(warrens);
+  for (auto &c : clones)
     c->end();
-  }
   return true;
 }
 
-- 
2.43.0


From 6d48e2661c6e87a8458250fb1a56526bf262a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:52 +0000
Subject: [PATCH 26/55] fix: don't crash on opening what is not a meadow

---
 meadowlark/meadowlark.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index ce2816a..f7ffab8 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -52,6 +52,8 @@ std::shared_ptr<Warren> create_meadow(std::string *error) {
 std::shared_ptr<Warren> open_meadow(const std::string &meadow,
                                     std::string *error) {
   std::shared_ptr<Warren> warren = Warren::make(meadow, error);
+  if (warren == nullptr)
+    return nullptr;
   warren->start();
   if (is_meadow(warren, error)) {
     warren->end();
-- 
2.43.0


From d339a975b3ddbff754bff68ea9ebe1439b23ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:21 +0000
Subject: [PATCH 27/55] fix: don't commit a group piecemeal when its script
 can't be written

Warren::commit_all fell back to committing one by one when the script that
records the group couldn't be stored.  A failure half way through left part
of the group committed, such as an import without the mark that says it has
been imported.  Now it reports the failure, with nothing committed.
---
 meadowlark/meadowlark.cc | 10 ++++++++--
 src/scribe.cc            |  6 ++++--
 src/scribe.h             |  3 ++-
 src/warren.cc            | 10 ++++++----
 src/warren.h             |  3 ++-
 5 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index f7ffab8..f00728f 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -271,13 +271,16 @@ bool append_jsonl(std::shared_ptr<Warren> warren, const std::string &filename,
     workers.emplace_back(std::thread(append_worker, i));
   for (auto &worker : workers)
     worker.join();
+  if (!failed && !Scribe::commit_all(scribes)) {
+    safe_error(error) = "Can't commit: " + filename;
+    failed = true;
+  }
   if (failed) {
     for (auto &scribe : scribes)
       scribe->abort();
     for (size_t i = 0; i < threads; i++)
       clones[i]->end();
   } else {
-    Scribe::commit_all(scribes);
     for (auto &scribe : scribes)
       if (!scribe->finalize(error))
         failed = true;
@@ -420,7 +423,10 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
   // The path comes last: where it is, the records are.
   std::vector<std::shared_ptr<cottontail::Warren>> warrens = clones;
   warrens.push_back(warren);
-  Warren::commit_all(warrens);
+  if (!Warren::commit_all(warrens)) {
+    safe_error(error) = "Can't commit: " + filename;
+    return abort_all();
+  }
   for (auto &c : clones)
     c->end();
   return true;
diff --git a/src/scribe.cc b/src/scribe.cc
index ae8ebf6..31a437f 100644
--- a/src/scribe.cc
+++ b/src/scribe.cc
@@ -234,7 +234,7 @@ std::shared_ptr<Scribe> Scribe::make(std::shared_ptr<Builder> builder,
   return std::shared_ptr<Scribe>(new BuilderScribe(builder));
 }
 
-void Scribe::commit_all(std::vector<std::shared_ptr<Scribe>> scribes) {
+bool Scribe::commit_all(std::vector<std::shared_ptr<Scribe>> scribes) {
   std::vector<std::shared_ptr<WarrenScribe>> warren_scribes;
   std::vector<std::shared_ptr<Warren>> warrens;
   for (auto &scribe : scribes) {
@@ -245,12 +245,14 @@ void Scribe::commit_all(std::vector<std::shared_ptr<Scribe>> scribes) {
     warrens.push_back(warren_scribe->warren());
   }
   if (warren_scribes.size() == scribes.size()) {
-    Warren::commit_all(warrens);
+    if (!Warren::commit_all(warrens))
+      return false;
     for (auto &scribe : warren_scribes)
       scribe->mark_committed();
   }
   for (auto &scribe : scribes)
     scribe->commit();
+  return true;
 }
 
 bool scribe_files(const std::vector<std::string> &filenames,
diff --git a/src/scribe.h b/src/scribe.h
index 8a32c6a..9d9980b 100644
--- a/src/scribe.h
+++ b/src/scribe.h
@@ -21,7 +21,8 @@ public:
                                       std::string *error = nullptr);
   static std::shared_ptr<Scribe> make(std::shared_ptr<Builder> builder,
                                       std::string *error = nullptr);
-  static void commit_all(std::vector<std::shared_ptr<Scribe>> scribes);
+  // On failure nothing has been committed, and the scribes can be aborted.
+  static bool commit_all(std::vector<std::shared_ptr<Scribe>> scribes);
   inline std::shared_ptr<Featurizer> featurizer() { return featurizer_(); };
   inline std::shared_ptr<Annotator> annotator() { return annotator_(); };
   inline std::shared_ptr<Appender> appender() { return appender_(); };
diff --git a/src/warren.cc b/src/warren.cc
index 6511dd6..5ce7a80 100644
--- a/src/warren.cc
+++ b/src/warren.cc
@@ -139,20 +139,22 @@ std::shared_ptr<Warren> Warren::make(const std::string &burrow,
   return Warren::make(name, burrow, error);
 }
 
-void Warren::commit_all(std::vector<std::shared_ptr<Warren>> warrens) {
+bool Warren::commit_all(std::vector<std::shared_ptr<Warren>> warrens) {
   std::vector<std::shared_ptr<Bigwig>> bigwigs;
   for (auto &warren : warrens) {
     if (warren == nullptr || warren->name() != "bigwig")
       break;
     auto bigwig = std::dynamic_pointer_cast<Bigwig>(warren);
-    if (bigwig == nullptr)
+    if (bigwig == nullptr || bigwig->working() == nullptr ||
+        bigwig->working() != warrens[0]->working())
       break;
     bigwigs.push_back(bigwig);
   }
-  if (bigwigs.size() == warrens.size() && Bigwig::commit_all(bigwigs))
-    return;
+  if (bigwigs.size() == warrens.size())
+    return Bigwig::commit_all(bigwigs);
   for (auto &warren : warrens)
     warren->commit();
+  return true;
 }
 
 std::shared_ptr<Warren> Warren::clone_(std::string *error) {
diff --git a/src/warren.h b/src/warren.h
index 56236df..fee3e25 100644
--- a/src/warren.h
+++ b/src/warren.h
@@ -29,7 +29,8 @@ public:
                                       std::string *error = nullptr);
   static std::shared_ptr<Warren> make(const std::string &burrow,
                                       std::string *error = nullptr);
-  static void commit_all(std::vector<std::shared_ptr<Warren>> warrens);
+  // On failure nothing has been committed, and the warrens can be aborted.
+  static bool commit_all(std::vector<std::shared_ptr<Warren>> warrens);
   Warren(std::shared_ptr<Working> working,
          std::shared_ptr<Featurizer> featurizer,
          std::shared_ptr<Tokenizer> tokenizer, std::shared_ptr<Idx> idx,
-- 
2.43.0


From 39b08f6dbf92bac1af3fffdee5c28759f417f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:21 +0000
Subject: [PATCH 28/55] fix: don't delete a transaction that a group commit
 can't finish

When reopening, the script of an interrupted group commit removed a member
even if it had not been able to give it its final name, so a storage error
at that point lost part of the group for good.  Now the script fails, the
burrow doesn't open, and a later attempt can succeed.
---
 src/fiver.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 6f3ae43..3be5542 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -649,8 +649,11 @@ std::string Fiver::commit_command() {
   assert(access(ready_name.c_str(), F_OK) == 0);
   if (access(ready_name.c_str(), F_OK) != 0)
     return "";
+  // The ready file is all there is, until it has its final name.
   return "mv -n " + shell_quote(ready_name) + " " + shell_quote(final_name) +
-         " 2>/dev/null; rm -f " + shell_quote(ready_name);
+         " 2>/dev/null; test ! -e " + shell_quote(final_name) + " || rm -f " +
+         shell_quote(ready_name) + "; test ! -e " + shell_quote(ready_name) +
+         " || exit 1";
 }
 
 bool Fiver::transaction_(std::string *error = nullptr) {
-- 
2.43.0


From f4b835f4bd5bd540155400dcc2aea05028eb9cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:22 +0000
Subject: [PATCH 29/55] fix: don't take a failure to read a file for the end of
 it

A file that couldn't be read to its end, or that zcat failed to unpack, was
imported as if it ended where the failure was.
---
 src/builder.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/builder.cc b/src/builder.cc
index 859cc16..42ee4b9 100644
--- a/src/builder.cc
+++ b/src/builder.cc
@@ -1,5 +1,7 @@
 #include "src/builder.h"
 
+#include <sys/wait.h>
+
 #include <array>
 #include <cassert>
 #include <cstdio>
@@ -71,6 +73,10 @@ protected:
     if (file_ == nullptr)
       return traits_type::eof();
     size_t count = fread(buffer_.data(), 1, buffer_.size(), file_);
+    // A failure isn't the end of the file. The stream catches what's thrown
+    // here and goes bad.
+    if (ferror(file_) || (count == 0 && !close()))
+      throw std::ios_base::failure("read error");
     if (count == 0)
       return traits_type::eof();
     setg(buffer_.data(), buffer_.data(), buffer_.data() + count);
@@ -78,14 +84,14 @@ protected:
   }
 
 private:
-  void close() {
+  bool close() {
     if (file_ == nullptr)
-      return;
-    if (pipe_)
-      pclose(file_);
-    else
-      fclose(file_);
+      return true;
+    int status = pipe_ ? pclose(file_) : fclose(file_);
     file_ = nullptr;
+    // zcat exits with 2 when it only warns.
+    return !pipe_ || (WIFEXITED(status) &&
+                      (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 2));
   }
 
   FILE *file_;
-- 
2.43.0


From 39d95d0336af7944c8ffdba9d064f416b10ea7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:05 +0000
Subject: [PATCH 30/55] fix: forage as a whole or not at all

Each worker committed on its own, so a failure left part of the annotations
behind, perhaps labelled as complete; and a worker without an interval, of
which there were some with more threads than intervals, committed a
transaction that had not been readied. A forager that can't be made is now
reported, rather than dereferenced.
---
 meadowlark/meadowlark.cc | 76 +++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 37 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index f00728f..a725105 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -442,66 +442,68 @@ bool forage(std::shared_ptr<Warren> warren,
     return true;
   if (!Forager::check(name, tag, parameters, error))
     return false;
-  threads = thread_count(threads, intervals.size());
+  threads = std::min(thread_count(threads, intervals.size()), intervals.size());
   std::map<std::string, std::string> params = parameters;
   params["start"] = std::to_string(intervals[0].first);
   params["end"] = std::to_string(intervals[intervals.size() - 1].second);
+  std::vector<std::shared_ptr<cottontail::Warren>> clones;
+  std::vector<std::shared_ptr<Forager>> foragers;
+  auto abort_all = [&]() {
+    for (auto &forager : foragers)
+      forager->abort();
+    for (auto &clone : clones)
+      clone->end();
+    return false;
+  };
+  for (size_t i = 0; i < threads; i++) {
+    std::shared_ptr<cottontail::Warren> clone = warren->clone(error);
+    if (clone == nullptr)
+      return abort_all();
+    clone->start();
+    clones.push_back(clone);
+    std::shared_ptr<Forager> forager =
+        Forager::make(clone, name, tag, params, error);
+    if (forager == nullptr || !forager->transaction(error))
+      return abort_all();
+    foragers.push_back(forager);
+  }
   bool failed = false;
   std::mutex sync;
-  auto worker = [&](const std::vector<std::pair<addr, addr>> &intervals,
-                    size_t start, size_t n) {
+  auto worker = [&](size_t i, size_t start, size_t n) {
     std::string terror;
-    std::shared_ptr<cottontail::Warren> twarren;
-    {
-      std::lock_guard<std::mutex> _(sync);
-      if (failed)
-        return;
-      twarren = warren->clone(error);
-      if (twarren == nullptr) {
-        failed = true;
-        safe_error(error) = terror;
-        return;
-      }
-    }
-    twarren->start();
-    std::shared_ptr<Forager> forager =
-        Forager::make(twarren, name, tag, params, &terror);
-    if (!forager->transaction(&terror)) {
-      std::lock_guard<std::mutex> _(sync);
-      twarren->end();
-      if (!failed) {
-        failed = true;
-        safe_error(error) = terror;
-      }
-      return;
-    }
-    if ((start == 0 && !forager->label(&terror)) ||
-        !forager->forage(intervals, start, n, &terror) || !forager->ready()) {
+    if ((start == 0 && !foragers[i]->label(&terror)) ||
+        !foragers[i]->forage(intervals, start, n, &terror) ||
+        !foragers[i]->ready(&terror)) {
       std::lock_guard<std::mutex> _(sync);
-      forager->abort();
-      twarren->end();
       if (!failed) {
         failed = true;
         safe_error(error) = terror;
       }
-      return;
     }
-    forager->commit();
-    twarren->end();
   };
   size_t start = 0;
   size_t split = intervals.size() / threads;
   std::vector<std::thread> workers;
   for (size_t i = 0; i < threads; i++) {
     size_t n = (i == threads - 1 ? intervals.size() - start : split);
-    workers.emplace_back(std::thread(worker, intervals, start, n));
+    workers.emplace_back(std::thread(worker, i, start, n));
     start += split;
   }
   for (auto &worker : workers)
     worker.join();
-  return !failed;
+  if (failed)
+    return abort_all();
+  // The label comes last: where it is, the annotations are.
+  std::vector<std::shared_ptr<cottontail::Warren>> warrens(clones.rbegin(),
+                                                           clones.rend());
+  if (!Warren::commit_all(warrens)) {
+    safe_error(error) = "Can't commit what was foraged.";
+    return abort_all();
+  }
+  for (auto &clone : clones)
+    clone->end();
+  return true;
 }
-
 bool forage(std::shared_ptr<Warren> warren,
             const std::vector<std::pair<addr, addr>> &intervals,
             const std::string &name, const std::string &tag, std::string *error,
-- 
2.43.0


From 042c91977ee46aaedd85025853a08bb830851673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:05 +0000
Subject: [PATCH 31/55] fix: don't take an update that can't be put in place
 for committed

A file that could not be renamed was ignored, in committing and in recovering,
and the lock removed, which left a mixture of old and new files.
---
 src/simple_annotator.cc | 25 +++++++++++++++++++------
 src/simple_appender.cc  | 26 ++++++++++++++++++++------
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/simple_annotator.cc b/src/simple_annotator.cc
index 77a9bb6..94cb432 100644
--- a/src/simple_annotator.cc
+++ b/src/simple_annotator.cc
@@ -2,6 +2,8 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cerrno>
+#include <cstdio>
 #include <fstream>
 #include <memory>
 #include <string>
@@ -95,8 +97,14 @@ bool SimpleAnnotator::recover(const std::string &recipe, bool commit,
   std::string new_pst_filename = pst_filename_ + std::string(".new");
   std::string lock_filename = idx_filename_ + std::string(".lock");
   if (commit) {
-    std::rename(new_idx_filename.c_str(), idx_filename_.c_str());
-    std::rename(new_pst_filename.c_str(), pst_filename_.c_str());
+    // Either may be in place already.
+    if ((std::rename(new_idx_filename.c_str(), idx_filename_.c_str()) != 0 &&
+         errno != ENOENT) ||
+        (std::rename(new_pst_filename.c_str(), pst_filename_.c_str()) != 0 &&
+         errno != ENOENT)) {
+      safe_error(error) = "SimpleAnnotator can't complete update";
+      return false;
+    }
   } else {
     std::remove(new_pst_filename.c_str());
     std::remove(new_idx_filename.c_str());
@@ -356,11 +364,16 @@ void SimpleAnnotator::commit_() {
   lock_.lock();
   assert(!failed_ && !adding_ && isready_);
   std::string new_idx_filename = idx_filename_ + std::string(".new");
-  std::rename(new_idx_filename.c_str(), idx_filename_.c_str());
   std::string new_pst_filename = pst_filename_ + std::string(".new");
-  std::rename(new_pst_filename.c_str(), pst_filename_.c_str());
-  std::string lock_filename = idx_filename_ + std::string(".lock");
-  std::remove(lock_filename.c_str());
+  bool renamed =
+      std::rename(new_idx_filename.c_str(), idx_filename_.c_str()) == 0 &&
+      std::rename(new_pst_filename.c_str(), pst_filename_.c_str()) == 0;
+  assert(renamed);
+  // Otherwise the update stays locked until recovery completes it.
+  if (renamed) {
+    std::string lock_filename = idx_filename_ + std::string(".lock");
+    std::remove(lock_filename.c_str());
+  }
   isready_ = false;
   lock_.unlock();
 }
diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index ba6c1f4..e79b6a5 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -1,5 +1,8 @@
 #include "src/simple_appender.h"
 
+#include <cassert>
+#include <cerrno>
+#include <cstdio>
 #include <memory>
 #include <string>
 #include <unistd.h>
@@ -93,10 +96,16 @@ bool SimpleAppender::recover(const std::string &recipe, bool commit,
                        text_compressor, commit);
   std::string txt_filename = working->make_name(TXT_NAME);
   std::string new_filename = txt_filename + ".new";
-  if (commit)
-    std::rename(new_filename.c_str(), txt_filename.c_str());
-  else
+  if (commit) {
+    // It may be in place already.
+    if (std::rename(new_filename.c_str(), txt_filename.c_str()) != 0 &&
+        errno != ENOENT) {
+      safe_error(error) = "SimpleAppender can't complete update";
+      return false;
+    }
+  } else {
     std::remove(new_filename.c_str());
+  }
   std::string lock_filename = txt_filename + ".lock";
   std::remove(lock_filename.c_str());
   return true;
@@ -334,9 +343,14 @@ void SimpleAppender::commit_() {
   if (!failed_ && adding_) {
     txt_.close();
     std::string new_filename = txt_filename_ + ".new";
-    std::rename(new_filename.c_str(), txt_filename_.c_str());
-    std::string lock_filename = txt_filename_ + ".lock";
-    std::remove(lock_filename.c_str());
+    bool renamed =
+        std::rename(new_filename.c_str(), txt_filename_.c_str()) == 0;
+    assert(renamed);
+    // Otherwise the update stays locked until recovery completes it.
+    if (renamed) {
+      std::string lock_filename = txt_filename_ + ".lock";
+      std::remove(lock_filename.c_str());
+    }
   }
   adding_ = false;
   lock_.unlock();
-- 
2.43.0


From 5b257eff1d470f6be5db7da15d145860f5d33541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 32/55] fix: roll a static index back also when asserts are
 disabled

---
 src/simple_txt_io.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index a7be119..1a0e4df 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -50,13 +50,17 @@ void restore(const std::string &nameof_contents,
       read_limits(nameof_contents, &chunk_map_limit, &last_chunk_end);
   if (last_chunk == nullptr)
     return;
+  int truncated = 0;
   if (chunk_map_limit == 0) {
-    assert(truncate(nameof_contents.c_str(), 0) == 0);
-    assert(truncate(nameof_chunk_map.c_str(), 0) == 0);
+    truncated = truncate(nameof_contents.c_str(), 0);
+    assert(truncated == 0);
+    truncated = truncate(nameof_chunk_map.c_str(), 0);
+    assert(truncated == 0);
     return;
   }
-  assert(truncate(nameof_chunk_map.c_str(),
-                  chunk_map_limit * sizeof(std::streamoff)) == 0);
+  truncated = truncate(nameof_chunk_map.c_str(),
+                       chunk_map_limit * sizeof(std::streamoff));
+  assert(truncated == 0);
   std::fstream mapf(nameof_chunk_map,
                     std::ios::binary | std::ios::in | std::ios::out);
   assert(!mapf.fail());
@@ -73,7 +77,9 @@ void restore(const std::string &nameof_contents,
       std::unique_ptr<char[]>(new char[buffer_size]);
   std::streamsize amount = compressor->crush(last_chunk.get(), last_chunk_end,
                                              buffer.get(), buffer_size);
-  assert(truncate(nameof_contents.c_str(), where + amount) == 0);
+  truncated = truncate(nameof_contents.c_str(), where + amount);
+  assert(truncated == 0);
+  (void)truncated;
   std::fstream contents(nameof_contents,
                         std::ios::binary | std::ios::in | std::ios::out);
   assert(!contents.fail());
-- 
2.43.0


From a1810a56118b99bef06b2b27b1f855bb4425aa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:52 +0000
Subject: [PATCH 33/55] fix: don't write aborted text to a static index after
 rolling it back

Text that could not be written stayed in the stream, which wrote it again when
it was closed, over the text that had just been restored.
---
 src/simple_txt_io.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 1a0e4df..7a3d2b7 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -497,11 +497,12 @@ bool SimpleTxtIO::ready_(std::string *error) {
 void SimpleTxtIO::commit_() { unlock(nameof_contents_); }
 
 void SimpleTxtIO::abort_() {
+  // What could not be written before may be written now, so undo it afterwards.
+  contents_.close();
   restore(nameof_contents_, nameof_chunk_map_, chunk_size_, compressor_);
   chunk_valid_ = false;
   last_chunk_synced_ = true;
   flushed_ = true;
-  contents_.close();
   contents_.open(nameof_contents_,
                  std::ios::binary | std::ios::out | std::ios::in);
   assert(!contents_.fail());
-- 
2.43.0


From 85df685191cdf1cfd60d33214c25e5133937dc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:38 +0000
Subject: [PATCH 34/55] fix: notice when text can't be written back in rolling
 back a static index

---
 src/simple_txt_io.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 7a3d2b7..cc68ce8 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -90,6 +90,7 @@ void restore(const std::string &nameof_contents,
   where = contents.tellp();
   assert(!contents.fail() && where >= 0);
   contents.close();
+  assert(!contents.fail());
   mapf.seekp(-sizeof(where), mapf.end);
   assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
-- 
2.43.0


From 39747e33f12d494a80035b7de9b57f4f8d1878dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:54 +0000
Subject: [PATCH 35/55] fix: don't leave a transaction open when scribing a
 file fails

---
 src/scribe.cc | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/scribe.cc b/src/scribe.cc
index 31a437f..cf27693 100644
--- a/src/scribe.cc
+++ b/src/scribe.cc
@@ -266,31 +266,31 @@ bool scribe_files(const std::vector<std::string> &filenames,
   addr filename_feature = scribe->featurizer()->featurize("filename:");
   addr content_feature = scribe->featurizer()->featurize("content:");
   for (auto &filename : filenames) {
-    if (!scribe->transaction(error))
-      return false;
     if (verbose)
       std::cerr << "scribing: " << filename << "\n";
     std::shared_ptr<std::string> content = inhale(filename, error);
     if (content) {
-      addr name_p, name_q, content_p, content_q;
-      if (!scribe->appender()->append(filename, &name_p, &name_q, error))
-        return false;
-      if (!scribe->appender()->append(*content, &content_p, &content_q, error))
-        return false;
-      if (!scribe->annotator()->annotate(file_feature, name_p, content_q,
-                                         error))
+      if (!scribe->transaction(error))
         return false;
-      if (!scribe->annotator()->annotate(filename_feature, name_p, name_q,
-                                         error))
-        return false;
-      if (!scribe->annotator()->annotate(content_feature, content_p, content_q,
-                                         error))
+      addr name_p, name_q, content_p, content_q;
+      if (!scribe->appender()->append(filename, &name_p, &name_q, error) ||
+          !scribe->appender()->append(*content, &content_p, &content_q,
+                                      error) ||
+          !scribe->annotator()->annotate(file_feature, name_p, content_q,
+                                         error) ||
+          !scribe->annotator()->annotate(filename_feature, name_p, name_q,
+                                         error) ||
+          !scribe->annotator()->annotate(content_feature, content_p, content_q,
+                                         error)) {
+        scribe->abort();
         return false;
+      }
       if (verbose)
         std::cerr << "scribe_files commiting: " << filename << "\n";
       if (!scribe->ready()) {
         safe_error(error) =
             "Function scribe_files unable to commit transaction";
+        scribe->abort();
         return false;
       }
       scribe->commit();
@@ -339,6 +339,7 @@ bool scribe_jsonl(const std::vector<std::string> &filenames,
                        &q0)) {
         safe_error(error) = "Cannot scribe json line: " + filename + ":" +
                             std::to_string(number);
+        scribe->abort();
         return false;
       }
       p = std::min(p, p0);
@@ -347,10 +348,13 @@ bool scribe_jsonl(const std::vector<std::string> &filenames,
     }
     if (p < maxfinity && q > minfinity && p <= q)
       if (!scribe->annotator()->annotate(
-              scribe->featurizer()->featurize(path(filename)), p, q, error))
+              scribe->featurizer()->featurize(path(filename)), p, q, error)) {
+        scribe->abort();
         return false;
+      }
     if (!scribe->ready()) {
       safe_error(error) = "Function scribe_jsonl unable to commit transaction";
+      scribe->abort();
       return false;
     }
     scribe->commit();
-- 
2.43.0


From 7e5320054e1dd8340801ddb7f33a5e691a5c0e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:03 +0000
Subject: [PATCH 36/55] fix: don't drop the last line of a JSONL file without a
 newline when scribing

---
 src/scribe.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scribe.cc b/src/scribe.cc
index cf27693..3ca0480 100644
--- a/src/scribe.cc
+++ b/src/scribe.cc
@@ -332,8 +332,9 @@ bool scribe_jsonl(const std::vector<std::string> &filenames,
     std::string::size_type pos;
     std::string::size_type prev;
     std::string newline = "\n";
-    for (prev = 0; (pos = everything->find(newline, prev)) != std::string::npos;
-         prev = pos + 1) {
+    for (prev = 0; prev < everything->size(); prev = pos + 1) {
+      if ((pos = everything->find(newline, prev)) == std::string::npos)
+        pos = everything->size(); // the last line may not be terminated
       addr p0, q0;
       if (!json_scribe(everything->substr(prev, pos - prev), scribe, &p0,
                        &q0)) {
-- 
2.43.0


From 306cb325ac490fdce0917e8a351990590c55128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:03 +0000
Subject: [PATCH 37/55] fix: don't scribe through a null scribe

---
 src/scribe.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scribe.cc b/src/scribe.cc
index 3ca0480..5db1153 100644
--- a/src/scribe.cc
+++ b/src/scribe.cc
@@ -315,6 +315,7 @@ bool scribe_jsonl(const std::vector<std::string> &filenames,
                   bool verbose) {
   if (scribe == nullptr) {
     safe_error(error) = "Function scribe_jsonl passed null scribe";
+    return false;
   }
   for (auto &filename : filenames) {
     if (verbose)
-- 
2.43.0


From 6271fed98c5677a1ba230be25fa2bb8bd01bff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:19 +0000
Subject: [PATCH 38/55] fix: don't take a burrow that can't be listed for an
 empty one

Working passed the burrow's name to a shell, unquoted, and took whatever came
back for the list of its files.  A name with a space in it, or an ls that fails,
made the burrow look empty, and what was then committed was removed again by
the next start.
---
 src/bigwig.cc  |  5 +++-
 src/fiver.cc   |  8 +++++--
 src/hazel.cc   | 16 +++++++++----
 src/working.cc | 62 ++++++++++++++++++++++++++------------------------
 src/working.h  | 15 ++++++++----
 5 files changed, 63 insertions(+), 43 deletions(-)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index 6c8b63c..3b7ef3d 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -366,7 +366,10 @@ bool is_commit_script(const std::string &name) {
 bool finalize_commits(std::shared_ptr<Working> working, std::string *error) {
   if (working == nullptr)
     return true;
-  for (auto &name : working->ls("commit")) {
+  std::vector<std::string> names;
+  if (!working->ls("commit", &names, error))
+    return false;
+  for (auto &name : names) {
     if (!is_commit_script(name))
       continue;
     std::string command = shell_quote(working->make_name(name));
diff --git a/src/fiver.cc b/src/fiver.cc
index 3be5542..89d49a4 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -483,7 +483,10 @@ bool Fiver::sanitize(std::shared_ptr<Working> working,
     return true;
 
   std::vector<OwslaShard> found;
-  for (auto &name : working->ls("fiver")) {
+  std::vector<std::string> names;
+  if (!working->ls("fiver", &names, error))
+    return false;
+  for (auto &name : names) {
     OwslaShard shard;
     if (!owsla_parse_shard_name(name, "fiver", &shard)) {
       safe_error(error) = "Filename format error for fiver: " + name;
@@ -498,7 +501,8 @@ bool Fiver::sanitize(std::shared_ptr<Working> working,
       !verify_dead_shards("fiver", living, dead, error))
     return false;
 
-  if (!remove_names(working, working->ls("kitten"), error))
+  if (!working->ls("kitten", &names, error) ||
+      !remove_names(working, names, error))
     return false;
   for (auto &shard : dead)
     if (!working->remove(shard.name, error))
diff --git a/src/hazel.cc b/src/hazel.cc
index 5fac3ae..13647ad 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -1832,7 +1832,10 @@ bool Hazel::sanitize(std::shared_ptr<Working> working,
 
   std::vector<OwslaShard> found;
   std::vector<std::string> old_sidecars;
-  for (auto &name : working->ls("hazel")) {
+  std::vector<std::string> names;
+  if (!working->ls("hazel", &names, error))
+    return false;
+  for (auto &name : names) {
     OwslaShard shard;
     if (owsla_parse_shard_name(name, "hazel", &shard)) {
       found.push_back(shard);
@@ -1854,7 +1857,10 @@ bool Hazel::sanitize(std::shared_ptr<Working> working,
 
   std::map<std::pair<addr, addr>, HazelRecoverySidecars> sidecars;
   auto add_sidecars = [&](const std::string &prefix) {
-    for (auto &name : working->ls(prefix)) {
+    std::vector<std::string> names;
+    if (!working->ls(prefix, &names, error))
+      return false;
+    for (auto &name : names) {
       OwslaShard target;
       if (!parse_hazel_sidecar(name, prefix, &target))
         continue;
@@ -1869,10 +1875,10 @@ bool Hazel::sanitize(std::shared_ptr<Working> working,
         sidecar.dct = true;
       sidecar.names.push_back(name);
     }
+    return true;
   };
-  add_sidecars("mrg");
-  add_sidecars("pst");
-  add_sidecars("dct");
+  if (!add_sidecars("mrg") || !add_sidecars("pst") || !add_sidecars("dct"))
+    return false;
 
   std::vector<HazelMergeRecovery> restartable;
   for (auto &item : sidecars) {
diff --git a/src/working.cc b/src/working.cc
index 7e905b5..df262ad 100644
--- a/src/working.cc
+++ b/src/working.cc
@@ -1,11 +1,13 @@
 #include "src/working.h"
 
-#include <array>
+#include <algorithm>
 #include <cassert>
+#include <cerrno>
 #include <cstring>
+#include <dirent.h>
 #include <fstream>
 #include <memory>
-#include <regex>
+#include <string>
 #include <vector>
 
 #include "src/compressor.h"
@@ -339,36 +341,36 @@ std::shared_ptr<Writer> Writer::make(const std::string &name,
 };
 
 std::vector<std::string> Working::ls(const std::string &prefix) {
-  std::string ls_command;
-  FILE *fp = fopen("/usr/bin/ls", "r");
-  if (fp) {
-    fclose(fp);
-    ls_command = "/usr/bin/ls " + working_;
-  } else {
-    fp = fopen("/bin/ls", "r");
-    assert(fp);
-    fclose(fp);
-    ls_command = "/bin/ls " + working_;
-  }
-  FILE *pipe = popen(ls_command.c_str(), "r");
-  assert(pipe);
-  std::string pattern = "^" + prefix + "\\.*";
-  std::regex r(pattern);
   std::vector<std::string> names;
-  const size_t buffer_size = 256;
-  std::array<char, buffer_size> buffer;
-  while (fgets(buffer.data(), buffer_size, pipe) != NULL) {
-    if (!std::regex_search(buffer.data(), r))
-      continue;
-    for (char *s = buffer.data(); *s != '\0'; s++)
-      if (*s == '\n') {
-        *s = '\0';
-        break;
-      }
-    names.emplace_back(buffer.data());
-  }
-  pclose(pipe);
+  if (!ls(prefix, &names))
+    names.clear();
   return names;
 }
 
+bool Working::ls(const std::string &prefix, std::vector<std::string> *names,
+                 std::string *error) {
+  names->clear();
+  DIR *directory = opendir(working_.c_str());
+  if (directory == nullptr) {
+    safe_error(error) = "Can't list working directory: " + working_;
+    return false;
+  }
+  errno = 0;
+  for (struct dirent *entry = readdir(directory); entry != nullptr;
+       entry = readdir(directory)) {
+    std::string name = entry->d_name;
+    if (name[0] != '.' && name.compare(0, prefix.size(), prefix) == 0)
+      names->push_back(name);
+    errno = 0;
+  }
+  bool okay = errno == 0;
+  closedir(directory);
+  if (!okay) {
+    safe_error(error) = "Can't list working directory: " + working_;
+    return false;
+  }
+  std::sort(names->begin(), names->end());
+  return true;
+}
+
 } // namespace cottontail
diff --git a/src/working.h b/src/working.h
index 0fe3023..87af956 100644
--- a/src/working.h
+++ b/src/working.h
@@ -4,12 +4,16 @@
 #include <cerrno>
 #include <cassert>
 #include <cstdio>
+#include <filesystem>
 #include <fstream>
 #include <iostream>
 #include <memory>
 #include <mutex>
 #include <set>
 #include <sstream>
+#include <string>
+#include <system_error>
+#include <unistd.h>
 #include <vector>
 
 #include "src/core.h"
@@ -96,12 +100,11 @@ public:
   Working(const std::string &working, bool mkdir)
       : working_(working), temp_counter_(0) {
     if (mkdir) {
-      // TODO: Replace with direct function calls. Maybe boost can do this?
-      std::string mkdir_command = "/bin/mkdir -p " + working;
-      system(mkdir_command.c_str());
+      std::error_code ignored;
+      std::filesystem::create_directories(working, ignored);
     }
-    std::string cleanup_command = "/bin/rm -f " + working + "/temp.*";
-    system(cleanup_command.c_str());
+    for (auto &name : ls("temp."))
+      unlink(make_name(name).c_str());
   }
   std::string make_name(const std::string &name) {
     return working_ + "/" + name;
@@ -136,6 +139,8 @@ public:
     lock_.unlock();
   };
   std::vector<std::string> ls(const std::string &prefix);
+  bool ls(const std::string &prefix, std::vector<std::string> *names,
+          std::string *error = nullptr);
   std::shared_ptr<Reader> reader(const std::string &name,
                                  std::string *error = nullptr) {
     std::string fullname = make_name(name);
-- 
2.43.0


From df5cc13b87b1b469e04d412e6354dab309337821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:29 +0000
Subject: [PATCH 39/55] fix: don't take a failure to read a static index's
 files for the end of them

Building, updating and rolling back a static index stopped at the first read
that failed, as if the file ended there, and carried on with what they had.
---
 src/simple_annotator.cc |  5 +++++
 src/simple_appender.cc  | 10 ++++++++++
 src/simple_builder.cc   |  5 +++++
 src/simple_txt_io.cc    | 13 ++++++++++++-
 4 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/simple_annotator.cc b/src/simple_annotator.cc
index 94cb432..c5937bd 100644
--- a/src/simple_annotator.cc
+++ b/src/simple_annotator.cc
@@ -206,6 +206,11 @@ bool merge_updates(const std::vector<std::string> &posting_filenames,
       return false;
     }
   }
+  for (size_t i = 0; i < posting_fstreams.size(); i++)
+    if (posting_fstreams[i].bad()) {
+      safe_error(error) = "SimpleAnnotator can't read: " + posting_filenames[i];
+      return false;
+    }
   pst.close();
   if (pst.fail()) {
     safe_error(error) = "SimpleAnnotator can't write to: " + pst_filename;
diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index e79b6a5..49938c2 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -268,6 +268,16 @@ bool SimpleAppender::transaction_(std::string *error) {
     }
     old.read(reinterpret_cast<char *>(&txtr), sizeof(txtr));
   }
+  if (old.bad()) {
+    safe_error(error) = "SimpleAppender can't read: " + txt_filename_;
+    failed_ = true;
+    txt_.close();
+    std::remove(new_filename.c_str());
+    io_->abort();
+    std::remove(lock_filename.c_str());
+    lock_.unlock();
+    return false;
+  }
   old.close();
   offset_ = io_->size();
   if (records == 0) {
diff --git a/src/simple_builder.cc b/src/simple_builder.cc
index 4ea16c8..a9f1a5c 100644
--- a/src/simple_builder.cc
+++ b/src/simple_builder.cc
@@ -564,6 +564,11 @@ bool SimpleBuilder::build_index(std::string *error) {
       return false;
     }
   }
+  for (auto &posting_fstream : posting_fstreams)
+    if (posting_fstream.bad()) {
+      safe_error(error) = "SimpleBuilder can't read a temporary file";
+      return false;
+    }
   pst.close();
   if (pst.fail()) {
     safe_error(error) = "SimpleBuilder can't write to: " + pst_filename_;
diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index cc68ce8..8938843 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cerrno>
 #include <cstring>
 #include <fstream>
 #include <memory>
@@ -17,9 +18,12 @@ std::unique_ptr<char[]> read_limits(const std::string &nameof_contents,
                                     addr *last_chunk_end) {
   std::string nameof_limits = nameof_contents + ".limits";
   std::fstream limits;
+  errno = 0;
   limits.open(nameof_limits, std::ios::binary | std::ios::in);
-  if (limits.fail())
+  if (limits.fail()) {
+    assert(errno == ENOENT);
     return nullptr;
+  }
   limits.read(reinterpret_cast<char *>(chunk_map_limit), sizeof(addr));
   assert(!limits.fail());
   limits.read(reinterpret_cast<char *>(last_chunk_end), sizeof(addr));
@@ -71,6 +75,7 @@ void restore(const std::string &nameof_contents,
     mapf.seekp(-2 * sizeof(where), mapf.end);
     assert(!mapf.fail());
     mapf.read(reinterpret_cast<char *>(&where), sizeof(where));
+    assert(!mapf.fail());
   }
   addr buffer_size = chunk_size + compressor->extra(chunk_size) + 1;
   std::unique_ptr<char[]> buffer =
@@ -174,6 +179,10 @@ SimpleTxtIO::make(const std::string &nameof_contents,
     else
       thing->chunk_map_->push_back(where);
   }
+  if (mapf.bad()) {
+    safe_error(error) = "SimpleTxtIO can't read: " + thing->nameof_chunk_map_;
+    return nullptr;
+  }
   if (thing->chunk_map_->size() == 0) {
     thing->size_ = 0;
   } else {
@@ -406,6 +415,7 @@ std::unique_ptr<char[]> SimpleTxtIO::read(addr start, addr desired,
     std::streamsize amount = (*chunk_map_)[index] - where;
     contents_.seekg(where, contents_.beg);
     contents_.read(buffer_.get(), amount);
+    assert(!contents_.fail());
     size_t actual =
         compressor_->tang(buffer_.get(), amount, t, chunk_size_ + 1);
     assert(actual == (size_t)chunk_size_);
@@ -520,6 +530,7 @@ void SimpleTxtIO::abort_() {
     else
       chunk_map_->push_back(where);
   }
+  assert(!mapf.bad());
   if (chunk_map_->size() == 0) {
     size_ = 0;
   } else {
-- 
2.43.0


From 79cae6d1e79ae7a89e043751e9cd974705ddfc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:59 +0000
Subject: [PATCH 40/55] fix: a NUL in text at the end of an index made the next
 update's addresses overlap it

---
 src/simple_appender.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index 49938c2..5b86dd4 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -307,7 +307,7 @@ bool SimpleAppender::transaction_(std::string *error) {
       lock_.unlock();
       return false;
     }
-    std::string tail_string = tail.get();
+    std::string tail_string(tail.get(), actual);
     std::vector<std::string> tail_tokens = tokenizer_->split(tail_string);
     if (tail_tokens.size() == 0) {
       safe_error(error) =
-- 
2.43.0


From a07352a3cb3e9f94ffe026dc513f57ec0d3a4ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:13 +0000
Subject: [PATCH 41/55] fix: UTF-8 text was split into tokens only up to its
 first NUL

---
 src/utf8_tokenizer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utf8_tokenizer.cc b/src/utf8_tokenizer.cc
index 59ba36f..a6592d0 100644
--- a/src/utf8_tokenizer.cc
+++ b/src/utf8_tokenizer.cc
@@ -577,7 +577,7 @@ std::vector<std::string> Utf8Tokenizer::split_(const std::string &text) {
   const uint8_t *s = (const uint8_t *)text.c_str();
   const uint8_t *e = s + text.length();
   std::string token;
-  while (*s) {
+  while (s < e) {
     uint32_t codepoint;
     const uint8_t *t = unicode(s, e, &codepoint);
     uint8_t *action = actions_[codepoint];
-- 
2.43.0


From 5b0665ec567f55b20e67f6ec78abd0b23d59e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:53 +0000
Subject: [PATCH 42/55] fix: a file was taken for imported if the name of
 another began with its name and a space

---
 meadowlark/meadowlark.cc | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index a725105..158aac6 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -2,7 +2,6 @@
 
 #include <atomic>
 #include <cassert>
-#include <cctype>
 #include <iostream>
 #include <map>
 #include <memory>
@@ -88,20 +87,8 @@ std::string gcl_string(const std::string &s) {
 }
 
 bool path_match(const std::string &text, const std::string &path) {
-  size_t start = 0;
-  while (start < text.size() &&
-         std::isspace(static_cast<unsigned char>(text[start])))
-    start++;
-  if (text.compare(start, path.size(), path) != 0)
-    return false;
-  size_t end = start + path.size();
-  if (end < text.size() &&
-      !std::isspace(static_cast<unsigned char>(text[end])))
-    return false;
-  while (end < text.size() &&
-         std::isspace(static_cast<unsigned char>(text[end])))
-    end++;
-  return true;
+  // Appending ends a path with a newline, unless it ends with a separator.
+  return text == path || text == path + "\n";
 }
 
 bool append_path(std::shared_ptr<Appender> appender,
-- 
2.43.0


From e801dd6ca39e166f2e61535f836c88d09ce84946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:53 +0000
Subject: [PATCH 43/55] fix: the annotation over a scribed file without content
 went one token too far

---
 src/scribe.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scribe.cc b/src/scribe.cc
index 5db1153..7c0e3cb 100644
--- a/src/scribe.cc
+++ b/src/scribe.cc
@@ -276,8 +276,9 @@ bool scribe_files(const std::vector<std::string> &filenames,
       if (!scribe->appender()->append(filename, &name_p, &name_q, error) ||
           !scribe->appender()->append(*content, &content_p, &content_q,
                                       error) ||
-          !scribe->annotator()->annotate(file_feature, name_p, content_q,
-                                         error) ||
+          !scribe->annotator()->annotate(
+              file_feature, name_p <= name_q ? name_p : content_p,
+              content_p <= content_q ? content_q : name_q, error) ||
           !scribe->annotator()->annotate(filename_feature, name_p, name_q,
                                          error) ||
           !scribe->annotator()->annotate(content_feature, content_p, content_q,
-- 
2.43.0


From 724c64ab0db57baae72ab6ea2d1a27e6711a3155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:36 +0000
Subject: [PATCH 44/55] fix: a JSON number out of range ended the process that
 imported it

---
 src/json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json.cc b/src/json.cc
index 63242b5..2e0652a 100644
--- a/src/json.cc
+++ b/src/json.cc
@@ -174,7 +174,7 @@ bool json_scribe(const std::string &s, std::shared_ptr<Scribe> scribe, addr *p,
       j = json::parse(sanitize(s));
     else
       j = json::parse(s);
-  } catch (json::parse_error &e) {
+  } catch (json::exception &e) {
     safe_error(error) = "Cannot parse json: " + std::string(e.what());
     return false;
   }
-- 
2.43.0


From ceafa59b0778ecfa9cb93f6d3aa9e4610e420e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:18 +0000
Subject: [PATCH 45/55] fix: a file that could not be read ended the process
 that was building from it

---
 src/builder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/builder.cc b/src/builder.cc
index 42ee4b9..3610c67 100644
--- a/src/builder.cc
+++ b/src/builder.cc
@@ -164,6 +164,8 @@ bool build_trec(const std::vector<std::string> &text,
     if (builder->verbose())
       std::cout << "Builder inhaling: " << filename << "\n";
     std::shared_ptr<std::string> contents = inhale(filename, error);
+    if (contents == nullptr)
+      return false;
     addr p, q;
     if (!builder->add_text(*contents, &p, &q, error))
       return false;
-- 
2.43.0


From a7a20adaef221b5040bc858e4e093a66e568ada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:23 +0000
Subject: [PATCH 46/55] fix: giving up a build or an update while it sorted
 ended the process

---
 src/simple_annotator.h | 2 +-
 src/simple_builder.h   | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simple_annotator.h b/src/simple_annotator.h
index aaf4b5b..f78c06c 100644
--- a/src/simple_annotator.h
+++ b/src/simple_annotator.h
@@ -28,7 +28,7 @@ public:
                       std::shared_ptr<Working> working,
                       std::string *error = nullptr);
 
-  virtual ~SimpleAnnotator(){};
+  virtual ~SimpleAnnotator() { wait_for_workers(); };
   SimpleAnnotator(const SimpleAnnotator &) = delete;
   SimpleAnnotator &operator=(const SimpleAnnotator &) = delete;
   SimpleAnnotator(SimpleAnnotator &&) = delete;
diff --git a/src/simple_builder.h b/src/simple_builder.h
index c71851d..9f9b6e8 100644
--- a/src/simple_builder.h
+++ b/src/simple_builder.h
@@ -39,7 +39,11 @@ public:
        std::string text_compressor_name = TEXT_COMPRESSOR_NAME,
        std::string text_compressor_recipe = TEXT_COMPRESSOR_RECIPE);
 
-  virtual ~SimpleBuilder(){};
+  virtual ~SimpleBuilder() {
+    for (auto &worker : workers_)
+      if (worker.joinable())
+        worker.join();
+  };
   SimpleBuilder(const SimpleBuilder &) = delete;
   SimpleBuilder &operator=(const SimpleBuilder &) = delete;
   SimpleBuilder(SimpleBuilder &&) = delete;
-- 
2.43.0


From d5a1709b5483c29da3ee8e7f247643420551fd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:39 +0000
Subject: [PATCH 47/55] fix: threads that ignored their errors wrote them all
 into one string

safe_set() gave every caller without an error pointer the same static
object. Two threads that failed at the same time assigned to it at the
same time, and corrupted the heap.
---
 src/core.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core.h b/src/core.h
index 80bf938..6682064 100644
--- a/src/core.h
+++ b/src/core.h
@@ -54,7 +54,7 @@ inline fval addr2fval(addr a) {
 }
 
 template <typename T> T &safe_set(T *thing) {
-  static T never_used;
+  static thread_local T never_used;
   if (thing == nullptr)
     return never_used;
   else
-- 
2.43.0


From 1e49485fa8f62455bbbb0ef7eb2d80e9f4a725ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:34 +0000
Subject: [PATCH 48/55] fix: a client that hung up before its answer ended the
 query server

The answer was sent without MSG_NOSIGNAL, so that SIGPIPE ended the
process.
---
 apps/ssr-server.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/ssr-server.cc b/apps/ssr-server.cc
index 784107f..e4ea42e 100644
--- a/apps/ssr-server.cc
+++ b/apps/ssr-server.cc
@@ -268,7 +268,7 @@ ssize_t write_all(int fd, const std::string &text) {
   const char *p = text.data();
   size_t n = text.size();
   while (n > 0) {
-    ssize_t wrote = send(fd, p, n, 0);
+    ssize_t wrote = send(fd, p, n, MSG_NOSIGNAL);
     if (wrote <= 0)
       return wrote;
     p += wrote;
-- 
2.43.0


From 3fb3762c3cf957c6fb1d594f263e318836afd5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:34 +0000
Subject: [PATCH 49/55] fix: JSON of another shape than expected ended the
 query server

Requests that are not objects, with fields of other types, or with
numbers out of range raise exceptions that nobody caught.
---
 apps/ssr-server.cc | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/apps/ssr-server.cc b/apps/ssr-server.cc
index e4ea42e..b61ee6d 100644
--- a/apps/ssr-server.cc
+++ b/apps/ssr-server.cc
@@ -347,22 +347,27 @@ public:
       json response;
       try {
         request = json::parse(line);
-      } catch (json::parse_error &e) {
+      } catch (json::exception &e) {
         request = json::object();
         request["op"] = "parse";
         response = error_response("parse", e.what());
         send_record(fd, request, response, cottontail::now() - start);
         continue;
       }
-      std::string op = request.value("op", "");
-      if (op == "query")
-        response = query(request);
-      else if (op == "next")
-        response = next(request);
-      else if (op == "document")
-        response = document(request);
-      else
-        response = error_response(op, "Unknown op");
+      std::string op;
+      try {
+        op = request.value("op", "");
+        if (op == "query")
+          response = query(request);
+        else if (op == "next")
+          response = next(request);
+        else if (op == "document")
+          response = document(request);
+        else
+          response = error_response(op, "Unknown op");
+      } catch (json::exception &e) {
+        response = error_response(op, e.what());
+      }
       if (!send_record(fd, request, response, cottontail::now() - start))
         return;
     }
-- 
2.43.0


From ddcd61b954cc3947657670dff83601636d7c1b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:34 +0000
Subject: [PATCH 50/55] fix: text that is not UTF-8 ended the query server

Neither the text of an index nor what a parse error repeats of a request
need be valid UTF-8, without which an answer could not be written.
---
 apps/ssr-server.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/ssr-server.cc b/apps/ssr-server.cc
index b61ee6d..124dc65 100644
--- a/apps/ssr-server.cc
+++ b/apps/ssr-server.cc
@@ -283,7 +283,8 @@ bool send_record(int fd, const json &request, const json &response,
   record["query"] = request;
   record["response"] = response;
   record["time"] = time;
-  std::string line = record.dump() + "\n";
+  std::string line =
+      record.dump(-1, ' ', false, json::error_handler_t::replace) + "\n";
   std::cout << line << std::flush;
   return write_all(fd, line) > 0;
 }
-- 
2.43.0


From d662f87ecc0b9dc0f41db9c5b2123fd87d3b1ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:29 +0000
Subject: [PATCH 51/55] fix: a table of ids lost what followed a NUL in an id

---
 src/fastid_txt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastid_txt.cc b/src/fastid_txt.cc
index 81fbdad..bb1b057 100644
--- a/src/fastid_txt.cc
+++ b/src/fastid_txt.cc
@@ -194,7 +194,7 @@ bool fastid(std::shared_ptr<Warren> warren, std::string *error) {
   addr *ob = offset_buffer.get();
   char *tb = text_buffer.get();
   for (auto &id : ids) {
-    strcpy(tb, id.text.c_str());
+    memcpy(tb, id.text.data(), id.text.size());
     tb += id.text.size();
     *pb++ = id.p;
     *qb++ = id.q;
-- 
2.43.0


From d53eceacda86834d7208ec4e150d46715a47d8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:29 +0000
Subject: [PATCH 52/55] fix: a table of ids that was cut short or could not be
 written was used

---
 src/fastid_txt.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fastid_txt.cc b/src/fastid_txt.cc
index bb1b057..d12aeb4 100644
--- a/src/fastid_txt.cc
+++ b/src/fastid_txt.cc
@@ -206,10 +206,12 @@ bool fastid(std::shared_ptr<Warren> warren, std::string *error) {
   std::shared_ptr<Compressor> post_compressor = get_post_compressor(error);
   if (post_compressor == nullptr)
     return false;
+  // There may be a table already, so replace it only once this one is complete.
   std::string fastid_filename = warren->working()->make_name(FASTID_NAME);
-  std::remove(fastid_filename.c_str());
+  std::string temp_filename = fastid_filename + ".new";
+  std::remove(temp_filename.c_str());
   std::fstream out;
-  out.open(fastid_filename, std::ios::binary | std::ios::out);
+  out.open(temp_filename, std::ios::binary | std::ios::out);
   if (out.fail()) {
     safe_error(error) = "Fastid file creation failure";
     return false;
@@ -235,6 +237,15 @@ bool fastid(std::shared_ptr<Warren> warren, std::string *error) {
     return false;
   if (!compressed_write(&out, text_buffer.get(), n, text_compressor, error))
     return false;
+  out.close();
+  if (out.fail()) {
+    safe_error(error) = "Fastid write failure";
+    return false;
+  }
+  if (std::rename(temp_filename.c_str(), fastid_filename.c_str()) != 0) {
+    safe_error(error) = "Fastid file creation failure";
+    return false;
+  }
   {
     std::string fastid = "fastid";
     std::string yes = "yes";
-- 
2.43.0


From 68cdea9244641c55905cf5c5c3d0b4bb251f53d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:43 +0000
Subject: [PATCH 53/55] fix: a file of annotations that could not be read to
 its end passed as whole

---
 src/annotator.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/annotator.cc b/src/annotator.cc
index 4707025..0e5a1b6 100644
--- a/src/annotator.cc
+++ b/src/annotator.cc
@@ -68,8 +68,13 @@ bool Annotator::annotate_(const std::string &annotations_filename,
        !annf.fail();
        annf.read(reinterpret_cast<char *>(&current), sizeof(Annotation)))
     if (current.feature != null_feature &&
-        !annotate(current.feature, current.p, current.q, current.v))
+        !annotate(current.feature, current.p, current.q, current.v, error))
       return false;
+  if (annf.bad() || annf.gcount() != 0) {
+    safe_error(error) =
+        "Annotator can't read all annotations in: " + annotations_filename;
+    return false;
+  }
   annf.close();
   return true;
 }
-- 
2.43.0


From a7fa2226d2f1570995e8d232fcb7ba44edb7095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:43 +0000
Subject: [PATCH 54/55] fix: tf-idf statistics were committed in part when the
 disk was full

---
 src/ranking.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ranking.cc b/src/ranking.cc
index c98cb41..c6c0313 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -1076,7 +1076,15 @@ bool tf_idf_annotations(std::shared_ptr<Warren> warren, std::string *error,
     }
   }
   anf.close();
+  if (anf.fail()) {
+    std::remove(working_filename.c_str());
+    warren->abort();
+    safe_error(error) =
+        "Cannot write file for tf-idf annotations: " + working_filename;
+    return false;
+  }
   if (!warren->annotator()->annotate(working_filename, error)) {
+    std::remove(working_filename.c_str());
     warren->abort();
     return false;
   }
-- 
2.43.0


From cd13fc4bb77e3bef49dd6408fed7e7e14200ba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:34 +0000
Subject: [PATCH 55/55] fix: term frequencies were lost at the end of a range,
 and taken from elsewhere after a gap

---
 src/ranking.cc | 123 +++++++++++++++++++------------------------------
 1 file changed, 48 insertions(+), 75 deletions(-)

diff --git a/src/ranking.cc b/src/ranking.cc
index c6c0313..1f741a0 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -782,45 +782,30 @@ bool tf_annotations(std::shared_ptr<Warren> warren, std::string *error,
     return false;
   if (!warren->transaction(error))
     return false;
-  std::map<addr, addr> df;
-  addr HUGE = 1014 * 1024;
-  std::vector<addr> ps, qs;
-  addr p = start, q, total_items = 0, total_length = 0;
-  if (p == minfinity)
-    p += 1;
-  for (hopper->tau(p, &p, &q); q <= end && q < maxfinity;
+  addr p, q, total_items = 0, total_length = 0;
+  if (start == minfinity)
+    start = 0; // also a location for the totals
+  for (hopper->tau(start, &p, &q); q <= end && q < maxfinity;
        hopper->tau(p + 1, &p, &q)) {
-    if (q <= end && q < maxfinity) {
-      total_items++;
-      total_length += q - p + 1;
-      ps.push_back(p);
-      qs.push_back(q);
+    total_items++;
+    total_length += q - p + 1;
+    std::string text = warren->txt()->translate(p, q);
+    std::vector<std::string> tokens = warren->tokenizer()->split(text);
+    std::map<addr, addr> tf;
+    for (auto &token : tokens) {
+      addr feature = tf_featurizer->featurize(warren->stemmer()->stem(token));
+      auto it = tf.find(feature);
+      if (it == tf.end())
+        tf[feature] = 1;
+      else
+        it->second++;
     }
-    if (ps.size() > 0 &&
-        (q == maxfinity || q >= end || qs.back() - ps.front() > HUGE)) {
-      std::string text = warren->txt()->translate(ps.front(), qs.back());
-      std::vector<std::string> tokens = warren->tokenizer()->split(text);
-      for (size_t i = 0; i < ps.size(); i++) {
-        std::map<addr, addr> tf;
-        for (addr j = ps[i]; j <= qs[i]; j++) {
-          addr feature = tf_featurizer->featurize(
-              warren->stemmer()->stem(tokens[j - ps[0]]));
-          auto it = tf.find(feature);
-          if (it == tf.end())
-            tf[feature] = 1;
-          else
-            it->second++;
-        }
-        for (auto &feature : tf)
-          if (!warren->annotator()->annotate(feature.first, ps[i], ps[i],
-                                             feature.second, error)) {
-            warren->abort();
-            return false;
-          }
+    for (auto &feature : tf)
+      if (!warren->annotator()->annotate(feature.first, p, p, feature.second,
+                                         error)) {
+        warren->abort();
+        return false;
       }
-      ps.clear();
-      qs.clear();
-    }
   }
   if (total_items == 0) {
     safe_error(error) = "tf_annotations can't find any items for ranking";
@@ -881,47 +866,35 @@ bool tf_df_annotations(std::shared_ptr<Warren> warren, std::string *error) {
   if (!warren->transaction(error))
     return false;
   std::map<addr, addr> df;
-  addr HUGE = 1014 * 1024;
-  std::vector<addr> ps, qs;
-  addr p = minfinity, q, total_items = 0, total_length = 0;
-  while (p < maxfinity) {
-    hopper->tau(p + 1, &p, &q);
-    if (p < maxfinity) {
-      total_items++;
-      total_length += q - p + 1;
-      ps.push_back(p);
-      qs.push_back(q);
+  addr p, q, total_items = 0, total_length = 0;
+  for (hopper->tau(minfinity + 1, &p, &q); p < maxfinity;
+       hopper->tau(p + 1, &p, &q)) {
+    total_items++;
+    total_length += q - p + 1;
+    std::string text = warren->txt()->translate(p, q);
+    std::vector<std::string> tokens = warren->tokenizer()->split(text);
+    std::map<std::string, addr> tf;
+    for (auto &token : tokens) {
+      std::string stem = warren->stemmer()->stem(token);
+      auto it = tf.find(stem);
+      if (it == tf.end())
+        tf[stem] = 1;
+      else
+        it->second++;
     }
-    if (ps.size() > 0 && (p == maxfinity || qs.back() - ps.front() > HUGE)) {
-      std::string text = warren->txt()->translate(ps.front(), qs.back());
-      std::vector<std::string> tokens = warren->tokenizer()->split(text);
-      for (size_t i = 0; i < ps.size(); i++) {
-        std::map<std::string, addr> tf;
-        for (addr j = ps[i]; j <= qs[i]; j++) {
-          std::string stem = warren->stemmer()->stem(tokens[j - ps[0]]);
-          auto it = tf.find(stem);
-          if (it == tf.end())
-            tf[stem] = 1;
-          else
-            it->second++;
-        }
-        for (auto &token : tf) {
-          addr tf_feature = tf_featurizer->featurize(token.first);
-          if (!warren->annotator()->annotate(tf_feature, ps[i], ps[i],
-                                             token.second, error)) {
-            warren->abort();
-            return false;
-          }
-          addr df_feature = df_featurizer->featurize(token.first);
-          auto it = df.find(df_feature);
-          if (it == df.end())
-            df[df_feature] = 1;
-          else
-            it->second++;
-        }
+    for (auto &token : tf) {
+      addr tf_feature = tf_featurizer->featurize(token.first);
+      if (!warren->annotator()->annotate(tf_feature, p, p, token.second,
+                                         error)) {
+        warren->abort();
+        return false;
       }
-      ps.clear();
-      qs.clear();
+      addr df_feature = df_featurizer->featurize(token.first);
+      auto it = df.find(df_feature);
+      if (it == df.end())
+        df[df_feature] = 1;
+      else
+        it->second++;
     }
   }
   if (total_items == 0) {
-- 
2.43.0

