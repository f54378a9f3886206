From a5b41ddf5ad26440e931389dfb1f8b8854305945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 01/28] fix: give every pair sampling task its own generator

The tasks shared the global generator without a lock, which is a data race and
made the sampled pairs depend on scheduling.
---
 src/loss_func/loss_func_pairwise.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 3b63cdf..a5a21ac 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -110,11 +110,18 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
   // Sample pairs and compute pairwise loss.
   vector<double> losses(slices_.size(), 0.0);
   vector<double> weight_sums(slices_.size(), 0.0);
+  // The shared generator is not thread-safe. Draw one seed per slice here, in a fixed order, so
+  // that the sampled pairs don't depend on how the slices are scheduled.
+  vector<uint> seeds(slices_.size());
+  for (auto& seed : seeds) {
+    seed = (*Subsampling::get_generator())();
+  }
   {
     ThreadPool pool(FLAGS_num_threads);
     for (int j = 0; j < slices_.size(); ++j) {
-      pool.Enqueue([&, this, &slice=slices_[j], &loss=losses[j], &weight_sum=weight_sums[j]]() {
-          std::mt19937* generator = Subsampling::get_generator();
+      pool.Enqueue([&, this, seed=seeds[j], &slice=slices_[j], &loss=losses[j],
+                    &weight_sum=weight_sums[j]]() {
+          std::mt19937 generator(seed);
           for (int group_index = slice.first; group_index < slice.second; ++group_index) {
             auto& group = groups_[group_index];
             if (rerank_) group.Rerank(f);
@@ -127,7 +134,7 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
                                              double(min_num_pairs_) / group.num_pairs() : 1.0;
             auto pair_weighting_func = PairWeightingFunc(group);
             for (int i = 0; i < num_sample_pairs; ++i) {
-              auto p = group.SamplePair(generator);
+              auto p = group.SamplePair(&generator);
               auto pos_sample = group[p.first];
               auto neg_sample = group[p.second];
               double weight = w_(pos_sample) * w_(neg_sample) * pair_weighting_func(p) *
-- 
2.43.0


From db451b66123a1ec49574f09e62f3dce852ad8fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 02/28] fix: rows with a missing group value form a group of
 their own

They have code 0 and were written to groups[-1].
---
 src/loss_func/loss_func_pairwise.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index a5a21ac..fe08dd2 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -69,11 +69,11 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
     groups.resize(1);
     groups[0] = Subsampling::CreateAllSamples(num_rows);
   } else {
-    groups.resize(group_column->max_int() - 1);
+    groups.resize(group_column->max_int());
     const auto& group_col = group_column->col();
     for (int i = 0; i < group_column->size(); ++i) {
       uint group_id = group_col[i];
-      groups[group_id - 1].emplace_back(i);
+      groups[group_id].emplace_back(i);
     }
   }
 
-- 
2.43.0


From e19b6e6288e71ead51d06a240e8f0096e3beba3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 03/28] fix: sample no pairs when all targets within each group
 are equal

The sampling probability was infinite and 0 * inf was converted to an integer.
---
 src/loss_func/loss_func_pairwise.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index fe08dd2..f03b24e 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -40,6 +40,8 @@ double ComputePairSamplingProbability(int num_rows, double pair_sampling_rate,
   for (const auto& group : groups) {
     num_total_pairs += group.num_pairs();
   }
+  // No group has two different targets so there is nothing to sample.
+  if (num_total_pairs == 0) return 0.0;
   return pair_sampling_rate * num_rows / num_total_pairs / 2.0;
 }
 
-- 
2.43.0


From aa4a0a60b7a01af217bbf74ee1ea713cfcd7fe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 04/28] fix: raise an exception for every error code

ALREADY_EXISTS, ABORTED and others were silently ignored.
---
 src/python/gbdt_py_base.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/gbdt_py_base.cc b/src/python/gbdt_py_base.cc
index 47e5b1a..ee7accd 100644
--- a/src/python/gbdt_py_base.cc
+++ b/src/python/gbdt_py_base.cc
@@ -17,5 +17,7 @@ void ThrowException(const Status& status) {
       throw std::logic_error(status.ToString());
     case error::OK:
       return;
+    default:
+      throw std::runtime_error(status.ToString());
   }
 }
-- 
2.43.0


From d04a8baf8e361f27b3f2e9020ecf07a032275f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 05/28] fix: propagate the status of Pointwise::Init

---
 src/loss_func/loss_func_huberized_hinge.cc | 3 +--
 src/loss_func/loss_func_logloss.cc         | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/loss_func/loss_func_huberized_hinge.cc b/src/loss_func/loss_func_huberized_hinge.cc
index 9e44b01..14fbcd7 100644
--- a/src/loss_func/loss_func_huberized_hinge.cc
+++ b/src/loss_func/loss_func_huberized_hinge.cc
@@ -35,8 +35,7 @@ Status HuberizedHinge::Init(int num_rows, FloatVector w, FloatVector y, const St
       return Status(error::INVALID_ARGUMENT, "Binary targets should only take values +1 and -1.");
     }
   }
-  Pointwise::Init(num_rows, w, y, group_column);
-  return Status::OK;
+  return Pointwise::Init(num_rows, w, y, group_column);
 }
 
 }  // namespace gbdt
diff --git a/src/loss_func/loss_func_logloss.cc b/src/loss_func/loss_func_logloss.cc
index 7959d1b..54941f3 100644
--- a/src/loss_func/loss_func_logloss.cc
+++ b/src/loss_func/loss_func_logloss.cc
@@ -37,8 +37,7 @@ Status LogLoss::Init(int num_rows, FloatVector w, FloatVector y, const StringCol
       return Status(error::INVALID_ARGUMENT, "Binary targets should only take values +1 and -1.");
     }
   }
-  Pointwise::Init(num_rows, w, y, group_column);
-  return Status::OK;
+  return Pointwise::Init(num_rows, w, y, group_column);
 }
 
 }  // namespace gbdt
-- 
2.43.0


From 6e55d1bccf6cd3fdf363bb9725c7a98ffec677b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 06/28] fix: refuse to modify string and raw float columns
 after they are finalized

---
 src/data_store/column.cc | 13 +++++++++++++
 src/data_store/column.h  |  1 +
 2 files changed, 14 insertions(+)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index d865b9b..da45603 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -149,6 +149,10 @@ const string& StringColumn::get_row_string(uint i) const {
 
 void StringColumn::Add(const vector<string>* raw_strings) {
   if (!status_.ok()) return;
+  if (finalized_) {
+    status_ = Status(error::FAILED_PRECONDITION, "Cannot run Add after finalized.");
+    return;
+  }
   for (const auto& s : *raw_strings) {
     auto it = map_to_indices_.find(s);
     if (it == map_to_indices_.end()) {
@@ -334,12 +338,21 @@ RawFloatColumn::RawFloatColumn(const string& name) : Column(name, Column::kRawFl
 
 void RawFloatColumn::Add(const vector<float>* raw_floats) {
   if (!status_.ok()) return;
+  if (finalized_) {
+    status_ = Status(error::FAILED_PRECONDITION, "Cannot run Add after finalized.");
+    return;
+  }
   raw_floats_.reserve(raw_floats_.size() + raw_floats->size());
   raw_floats_.insert(raw_floats_.end(), raw_floats->begin(), raw_floats->end());
 }
 
 void RawFloatColumn::Finalize() {
   if (!status_.ok()) return;
+  if (finalized_) {
+    status_ = Status(error::FAILED_PRECONDITION, "Cannot run Finalize after finalized.");
+    return;
+  }
+  finalized_ = true;
   raw_floats_.shrink_to_fit();
 }
 
diff --git a/src/data_store/column.h b/src/data_store/column.h
index f99e583..0c14314 100644
--- a/src/data_store/column.h
+++ b/src/data_store/column.h
@@ -194,6 +194,7 @@ public:
   const vector<float>& raw_floats() const;
 
 protected:
+  bool finalized_ = false;
   vector<float> raw_floats_;
 };
 
-- 
2.43.0


From dcb0775c1bf76fde762d755085e9323ca92ffd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 07/28] fix: never replace a column another thread has loaded
 in the meantime

---
 src/data_store/flatfiles_data_store.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index 49377b4..85f4839 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -74,6 +74,11 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
   }
 
   lock_guard<mutex> lock(mutex_);
+  // Another thread may have loaded the column in the meantime. Keep the one that is already there
+  // since it may have been handed out.
+  if (column_map_.find(column_name) != column_map_.end()) {
+    return true;
+  }
   if (num_rows() > 0 && num_rows() != column->size()) {
     LOG(ERROR) << "Row size consistency check failed for " << column_name
                << "(old " << num_rows() << " vs. " << "new " << column->size();
-- 
2.43.0


From 8d162811aa1be530bfa0c8cd7aeb9959e0956cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 08/28] fix: no division by zero when building buckets

The divisor was 0 when the single-value buckets used up all but one bucket, and
when the number of buckets was 0.
---
 src/data_store/column.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index da45603..94ccb8b 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -186,7 +186,7 @@ void StringColumn::Finalize() {
 }
 
 BucketizedFloatColumn::BucketizedFloatColumn(const string& name, int num_buckets)
-    : IntegerizedColumn(name, Column::kBucketizedFloatColumn), num_buckets_(num_buckets) {
+    : IntegerizedColumn(name, Column::kBucketizedFloatColumn), num_buckets_(max(1, num_buckets)) {
 }
 
 BucketizedFloatColumn::~BucketizedFloatColumn() {
@@ -290,8 +290,8 @@ void BucketizedFloatColumn::BuildBuckets() {
     }
   }
   // Use uniform binning for the rest.
-  uint left_over_capacity =
-      max(static_cast<unsigned long>(1), left_over / (num_buckets_ - bucket_maxs_.size()));
+  int num_buckets_left = max(1, num_buckets_ - static_cast<int>(bucket_maxs_.size()));
+  uint left_over_capacity = max(1, left_over / num_buckets_left);
   UniformBinning(histograms, left_over_capacity, &bucket_maxs_);
   sort(bucket_maxs_.begin() + 1, bucket_maxs_.end());
   bucket_maxs_.push_back(numeric_limits<float>::max());
-- 
2.43.0


From 62577f2c91fa67b06ef7d8ed4a68bd025687badc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 09/28] fix: DivideSamples works for a non-positive number of
 groups

It divided by zero with --num_threads=0.
---
 src/utils/subsampling.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/subsampling.cc b/src/utils/subsampling.cc
index 7b4dcab..71ba426 100644
--- a/src/utils/subsampling.cc
+++ b/src/utils/subsampling.cc
@@ -50,7 +50,8 @@ vector<uint> Subsampling::CreateAllSamples(uint n) {
   return samples;
 }
 
-static vector<uint> DivideSamplesHelper(int num_samples, uint num_groups) {
+static vector<uint> DivideSamplesHelper(int num_samples, int num_groups) {
+  num_groups = max(1, num_groups);
   vector<uint> group_sizes(num_groups);
   for (int i = 0; i < group_sizes.size(); ++i) {
     group_sizes[i] = num_samples / num_groups;
@@ -78,7 +79,7 @@ vector<VectorSlice<uint>> Subsampling::DivideSamples(
     VectorSlice<uint> samples, int num_groups) {
   vector<uint> group_sizes = DivideSamplesHelper(samples.size(), num_groups);
   vector<VectorSlice<uint>> slices;
-  slices.reserve(num_groups);
+  slices.reserve(group_sizes.size());
   auto start = samples.begin();
 
   for (auto size : group_sizes) {
-- 
2.43.0


From 7854245e919735f94465edfc05f5341866ff3a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 10/28] fix: a thread pool always has a worker

With a non-positive number of threads the queued tasks were dropped.
---
 src/utils/threadpool.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/threadpool.cc b/src/utils/threadpool.cc
index c685e7f..d1ea3c7 100644
--- a/src/utils/threadpool.cc
+++ b/src/utils/threadpool.cc
@@ -15,10 +15,14 @@
 
 #include "threadpool.h"
 
+#include <algorithm>
+
 using namespace::std;
 
 ThreadPool::ThreadPool(int num_threads) {
   // Create number of required threads and add them to the thread pool vector.
+  // Without any worker the tasks would never run.
+  num_threads = max(1, num_threads);
   for(int i = 0; i < num_threads; ++i) {
     thread_pool_.emplace_back(thread(&ThreadPool::Invoke, this));
   }
-- 
2.43.0


From ff5cd4ef121a679aca02c16e841ff0c6d24f1924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 11/28] fix: HasPrefix and HasSuffix read past the end of
 shorter strings

---
 src/utils/utils.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index 939d812..652dc47 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -93,11 +93,13 @@ bool StringCast(const string& s, float* v) {
 }
 
 bool HasPrefix(const string& s, const string& prefix) {
-  return std::mismatch(prefix.begin(), prefix.end(), s.begin()).first == prefix.end();
+  return s.size() >= prefix.size() &&
+      std::mismatch(prefix.begin(), prefix.end(), s.begin()).first == prefix.end();
 }
 
 bool HasSuffix(const string& s, const string& suffix) {
-  return std::mismatch(suffix.rbegin(), suffix.rend(), s.rbegin()).first == suffix.rend();
+  return s.size() >= suffix.size() &&
+      std::mismatch(suffix.rbegin(), suffix.rend(), s.rbegin()).first == suffix.rend();
 }
 
 }  // namespace strings
-- 
2.43.0


From e27403e07de4e789111a531ab03e9f0de5e8b8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 12/28] fix: report failures of writing score and model files

---
 src/gbdt_algo/evaluation.cc | 2 +-
 src/utils/utils.cc          | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index 451ac8e..f12201b 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -51,7 +51,7 @@ bool WriteScoreFile(const string& filename,
   }
 
   out_file.close();
-  return true;
+  return !out_file.fail();
 }
 
 Status EvaluateForest(DataStore* data_store,
diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index 652dc47..63203f7 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -44,6 +44,7 @@ void WriteStringToFile(const string& content, const string& file) {
   CHECK(!out.fail()) << "Failed to open " << file << " for writing.";
   out << content;
   out.close();
+  CHECK(!out.fail()) << "Failed to write " << file;
 }
 
 vector<uint> VectorSliceToVector(VectorSlice<uint> slice) {
-- 
2.43.0


From 1b169573185cea1f3ba1dfa4e230287156819a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 13/28] fix: refuse to load the same TSV column twice

The second request destroyed the column created for the first one while a
pointer to it was still in use.
---
 src/data_store/tsv_data_store.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index 1e6f8f0..a749ad7 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -151,6 +151,10 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
       return Status(error::NOT_FOUND,
                     fmt::format("Failed to find column {0} in {1}.", header, first_tsv));
     }
+    if (column_map_.find(header) != column_map_.end()) {
+      return Status(error::ALREADY_EXISTS,
+                    fmt::format("Column {0} is requested more than once.", header));
+    }
     column_map_[header].reset(new BucketizedFloatColumn(header));
     bucketized_float_columns_.push_back(
         make_pair(static_cast<BucketizedFloatColumn*>(column_map_[header].get()),
@@ -173,6 +177,10 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
       return Status(error::NOT_FOUND,
                     fmt::format("Failed to find column {0} in {1}", header, first_tsv));
     }
+    if (column_map_.find(header) != column_map_.end()) {
+      return Status(error::ALREADY_EXISTS,
+                    fmt::format("Column {0} is requested more than once.", header));
+    }
     column_map_[header].reset(new RawFloatColumn(header));
     raw_float_columns_.push_back(
         make_pair(static_cast<RawFloatColumn*>(column_map_[header].get()),
@@ -190,6 +198,10 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
     if (it == map_from_header_to_index.end()) {
       return Status(error::NOT_FOUND, "Failed to find column " + header + " in " + first_tsv);
     }
+    if (column_map_.find(header) != column_map_.end()) {
+      return Status(error::ALREADY_EXISTS,
+                    fmt::format("Column {0} is requested more than once.", header));
+    }
     column_map_[header].reset(new StringColumn(header));
     string_columns_.push_back(
         make_pair(static_cast<StringColumn*>(column_map_[header].get()),
@@ -203,6 +215,10 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
     if (it == map_from_header_to_index.end()) {
       return Status(error::NOT_FOUND, "Failed to find column " + header + " in " + first_tsv);
     }
+    if (column_map_.find(header) != column_map_.end()) {
+      return Status(error::ALREADY_EXISTS,
+                    fmt::format("Column {0} is requested more than once.", header));
+    }
     column_map_[header].reset(new StringColumn(header));
     string_columns_.push_back(
         make_pair(static_cast<StringColumn*>(column_map_[header].get()),
-- 
2.43.0


From e15a6b21bc89c2bf35bcdecb2a3f800070df46ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 14/28] fix: training and prediction on an empty data store
 raise an exception

They dereferenced a null data store.
---
 src/python/forest_py.cc     | 3 +++
 src/python/train_gbdt_py.cc | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/forest_py.cc b/src/python/forest_py.cc
index 9f566b4..d95586d 100644
--- a/src/python/forest_py.cc
+++ b/src/python/forest_py.cc
@@ -57,6 +57,9 @@ vector<double> ForestPy::Predict(DataStorePy* data_store_py) const {
 void ForestPy::PredictAndOutput(DataStorePy* data_store_py,
                                 const list<int>& test_points,
                                 const string& output_dir) const {
+  if (!data_store_py || !data_store_py->data_store()) {
+    ThrowException(Status(error::NOT_FOUND, "Data store is empty."));
+  }
   auto status = EvaluateForest(data_store_py->data_store(),
                                forest_,
                                test_points,
diff --git a/src/python/train_gbdt_py.cc b/src/python/train_gbdt_py.cc
index 98ffa34..497820b 100644
--- a/src/python/train_gbdt_py.cc
+++ b/src/python/train_gbdt_py.cc
@@ -51,7 +51,7 @@ ForestPy TrainPy(DataStorePy* data_store,
   Config config;
   auto status = JsonUtils::FromJson(json_config, &config);
   if (!status.ok()) ThrowException(status);
-  if (!data_store) ThrowException(Status(error::NOT_FOUND, "Datastore cannot be empty."));
+  if (!data_store || !data_store->data_store()) ThrowException(Status(error::NOT_FOUND, "Datastore cannot be empty."));
 
   if (!y.empty() && data_store->num_rows() != y.size()) {
     ThrowException(Status(error::INVALID_ARGUMENT,
-- 
2.43.0


From ca436ca4998ed520203382a93214467dd8bb41b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 15/28] fix: write all checkpoints even if they are not
 requested in increasing order

---
 src/gbdt_algo/evaluation.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index f12201b..64b998c 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -59,6 +59,7 @@ Status EvaluateForest(DataStore* data_store,
                       const list<int>& test_points_arg,
                       const string& output_dir) {
   auto test_points = test_points_arg;
+  test_points.sort();
   auto feature_names = CollectAllFeatures(forest);
   auto status = LoadFeatures(feature_names, data_store, nullptr);
   if (!status.ok()) return status;
-- 
2.43.0


From 66e9c651a702f652afcb0de590f70d2467d943cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 16/28] fix: keep histogram entries where only one of the
 totals is zero

Entries whose gradients cancel out still carry hessian and were left out of the
split search.
---
 src/gbdt_algo/split_algo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gbdt_algo/split_algo.cc b/src/gbdt_algo/split_algo.cc
index b12899c..b90c814 100644
--- a/src/gbdt_algo/split_algo.cc
+++ b/src/gbdt_algo/split_algo.cc
@@ -116,7 +116,7 @@ void Histogram::ComputeHistograms(const IntegerizedColumn& feature,
   }
 
   for (uint i = 0; i < max_int; ++i) {
-    if (histograms_[i].g != 0 && histograms_[i].h != 0) {
+    if (histograms_[i].g != 0 || histograms_[i].h != 0) {
       non_zero_values_.push_back(i);
     }
   }
-- 
2.43.0


From e7f1e84d617fea0a637acd7a7822d9d9ca1a359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 17/28] fix: reject NaN sampling rates

---
 src/gbdt_algo/utils.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gbdt_algo/utils.cc b/src/gbdt_algo/utils.cc
index ac723ce..7efd9c0 100644
--- a/src/gbdt_algo/utils.cc
+++ b/src/gbdt_algo/utils.cc
@@ -212,14 +212,14 @@ Status CheckConfig(Config config) {
                   fmt::format("num_leaves should be positive (actual {0})",
                               config.num_leaves()));
   }
-  if (config.example_sampling_rate() <= 0 ||
-      config.example_sampling_rate() > 1) {
+  if (!(config.example_sampling_rate() > 0 &&
+        config.example_sampling_rate() <= 1)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("example_sampling_rate should be in [0, 1] (actual {0})",
                               config.example_sampling_rate()));
   }
-  if (config.feature_sampling_rate() <= 0 ||
-      config.feature_sampling_rate() > 1) {
+  if (!(config.feature_sampling_rate() > 0 &&
+        config.feature_sampling_rate() <= 1)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("feature_sampling_rate should be in [0, 1] (actual {0})",
                               config.feature_sampling_rate()));
-- 
2.43.0


From dbe41bdd5912d18c0147a909c08efaf9e9e9a623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 18/28] fix: logloss does not overflow for large negative
 margins

Its gradient and hessian were NaN once exp(-y*f) overflowed.
---
 src/loss_func/loss_func_math.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/loss_func/loss_func_math.cc b/src/loss_func/loss_func_math.cc
index 878465f..bbd042c 100644
--- a/src/loss_func/loss_func_math.cc
+++ b/src/loss_func/loss_func_math.cc
@@ -26,8 +26,12 @@ tuple<double, double, double> ComputeMSE(double y, double f) {
 }
 
 tuple<double, double, double> ComputeLogLoss(double y, double f) {
-  double e = exp(-y * f);
-  return make_tuple(log(1 + e), y * e / (1 + e), e / ((1 + e) * (1 + e)));
+  double margin = y * f;
+  // Only take exp of non-positive numbers to avoid overflow.
+  double e = exp(-fabs(margin));
+  double loss = margin >= 0 ? log(1 + e) : log(1 + e) - margin;
+  double p = margin >= 0 ? e / (1 + e) : 1 / (1 + e);
+  return make_tuple(loss, y * p, e / ((1 + e) * (1 + e)));
 };
 
 tuple<double, double, double> ComputeHuberizedHinge(double y, double f) {
-- 
2.43.0


From 5796bdceda10129f4e8155ed218f55ec0aefb93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 19/28] fix: check the number of rows against existing empty
 columns too

---
 src/data_store/data_store.cc           | 2 +-
 src/data_store/flatfiles_data_store.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_store/data_store.cc b/src/data_store/data_store.cc
index 41c83e4..4d829f6 100644
--- a/src/data_store/data_store.cc
+++ b/src/data_store/data_store.cc
@@ -126,7 +126,7 @@ Status DataStore::Add(unique_ptr<Column>&& column) {
   if (it != column_map_.end()) {
     return Status(error::ALREADY_EXISTS, fmt::format("Column {0} already exists.", column->name()));
   }
-  if (num_rows() > 0 && num_rows() != column->size()) {
+  if (!column_map_.empty() && num_rows() != column->size()) {
     return Status(error::OUT_OF_RANGE,
                   fmt::format("Row size consistency check failed for column {0} (old {1} vs. new {2})",
                               column->name(), num_rows(), column->size()));
diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index 85f4839..7888cdd 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -79,7 +79,7 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
   if (column_map_.find(column_name) != column_map_.end()) {
     return true;
   }
-  if (num_rows() > 0 && num_rows() != column->size()) {
+  if (!column_map_.empty() && num_rows() != column->size()) {
     LOG(ERROR) << "Row size consistency check failed for " << column_name
                << "(old " << num_rows() << " vs. " << "new " << column->size();
     return false;
-- 
2.43.0


From abb9a950501b7b55fd7c9607a971155f6b7cc766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 20/28] fix: precomputed discounts were written past the end of
 an empty vector

---
 src/loss_func/loss_func_lambdamart.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loss_func/loss_func_lambdamart.cc b/src/loss_func/loss_func_lambdamart.cc
index c37406a..994f077 100644
--- a/src/loss_func/loss_func_lambdamart.cc
+++ b/src/loss_func/loss_func_lambdamart.cc
@@ -40,7 +40,7 @@ LambdaMART::LambdaMART(const Config& config)
   if (config.lambdamart_dcg_base() > 0) {
     dcg_base_ = config.lambdamart_dcg_base();
   }
-  precomputed_discounts_.reserve(kNumPrecomputedDiscounts);
+  precomputed_discounts_.resize(kNumPrecomputedDiscounts);
   for (int i = 0; i < kNumPrecomputedDiscounts; ++i) {
     precomputed_discounts_[i] = discount(i, dcg_base_);
   }
-- 
2.43.0


From 865e5320a4d694b0e561a982b5ca0c56893ac110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 21/28] fix: the split threshold always separates the two
 buckets

The midpoint could overflow or be rounded down to the left bucket, so that the
left samples were routed to the right.
---
 src/gbdt_algo/split_algo.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gbdt_algo/split_algo.cc b/src/gbdt_algo/split_algo.cc
index b90c814..4ad484e 100644
--- a/src/gbdt_algo/split_algo.cc
+++ b/src/gbdt_algo/split_algo.cc
@@ -226,9 +226,12 @@ bool FindBestFloatSplit(const BucketizedFloatColumn& feature,
 
   // When left_point is NAN, it represents missing value. In this case, we set left_point to
   // be the minimum feature value - 1e-3.
-  split->mutable_float_split()->set_threshold(
-      isnan(left_limit) ? feature.get_bucket_min(1) - 1e-3 :
-      (left_limit + right_limit) / 2.0);
+  float threshold = isnan(left_limit) ? feature.get_bucket_min(1) - 1e-3 :
+      left_limit / 2.0 + right_limit / 2.0;
+  // The midpoint of two adjacent floats can be rounded down to the left one, which has to stay
+  // below the threshold.
+  if (threshold <= left_limit) threshold = right_limit;
+  split->mutable_float_split()->set_threshold(threshold);
   return true;
 }
 
-- 
2.43.0


From 292b7f8b94f91f3dade40b75058c2768676ead66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 22/28] fix: from_df loads numeric columns overridden as string
 instead of dropping them

---
 gbdt/_data_store.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gbdt/_data_store.py b/gbdt/_data_store.py
index 1163358..c095fe2 100644
--- a/gbdt/_data_store.py
+++ b/gbdt/_data_store.py
@@ -161,7 +161,9 @@ class DataLoader:
         for col in df.select_dtypes(include=[numpy.number]).keys():
             if col in raw_float_cols:
                 d.add_raw_float_col(col, list(df[col]))
-            elif col not in string_cols:
+            elif col in string_cols:
+                d.add_string_col(col, [str(v) for v in df[col]])
+            else:
                 d.add_bucketized_float_col(col, list(df[col]))
 
         for col in df.select_dtypes(exclude=[numpy.number]).keys():
-- 
2.43.0


From eb719a809f1b7eaf96b1f3efb7102317da7612e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:36 +0000
Subject: [PATCH 23/28] fix: a text file that cannot be read to its end fails
 to load instead of being read forever

---
 src/data_store/tsv_block.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_store/tsv_block.cc b/src/data_store/tsv_block.cc
index b520894..a29163f 100644
--- a/src/data_store/tsv_block.cc
+++ b/src/data_store/tsv_block.cc
@@ -57,7 +57,7 @@ Status TSVBlock::ReadTSV(const string& tsv,
   }
 
   int num_rows = 0;
-  while (!in.eof()) {
+  while (in.good()) {
     string line = ReadLine(in);
     if (line.empty()) continue;
     auto row = strings::split(line, "\t");
@@ -96,6 +96,9 @@ Status TSVBlock::ReadTSV(const string& tsv,
       }
     }
   }
+  if (!in.eof()) {
+    return Status(error::DATA_LOSS, fmt::format("Failed to read {0} to its end.", tsv));
+  }
   stopwatch.End();
   LOG(INFO) << "Loaded " << float_columns_.size() << " float columns"
             << " and " << string_columns_.size() << " string columns, each with "
-- 
2.43.0


From 9158907fffa7cea0fcf010fb1e6ebd46f9c35505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:30 +0000
Subject: [PATCH 24/28] fix: write the checkpoints requested together with a
 non-positive one

---
 src/gbdt_algo/evaluation.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index 64b998c..93e037a 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -60,6 +60,10 @@ Status EvaluateForest(DataStore* data_store,
                       const string& output_dir) {
   auto test_points = test_points_arg;
   test_points.sort();
+  // There is nothing to score before the first tree.
+  while (!test_points.empty() && test_points.front() <= 0) {
+    test_points.pop_front();
+  }
   auto feature_names = CollectAllFeatures(forest);
   auto status = LoadFeatures(feature_names, data_store, nullptr);
   if (!status.ok()) return status;
-- 
2.43.0


From 45f42234ee9a8c081db824233975f8cb25ac11af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:30 +0000
Subject: [PATCH 25/28] fix: a column obtained in Python keeps its data store
 alive

---
 src/python/datastore_py.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/python/datastore_py.cc b/src/python/datastore_py.cc
index c508479..e2f737b 100644
--- a/src/python/datastore_py.cc
+++ b/src/python/datastore_py.cc
@@ -197,9 +197,13 @@ void InitDataStorePy(py::module &m) {
            py::arg("bucketized_float_cols")=vector<string>(),
            py::arg("raw_float_cols")=vector<string>(),
            py::arg("string_cols")=vector<string>())
-      .def("get_bucketized_float_col", &DataStorePy::GetBucketizedFloatColumn)
-      .def("get_raw_float_col", &DataStorePy::GetRawFloatColumn)
-      .def("get_string_col", &DataStorePy::GetStringColumn)
+      // The columns belong to the data store.
+      .def("get_bucketized_float_col", &DataStorePy::GetBucketizedFloatColumn,
+           py::keep_alive<0, 1>())
+      .def("get_raw_float_col", &DataStorePy::GetRawFloatColumn,
+           py::keep_alive<0, 1>())
+      .def("get_string_col", &DataStorePy::GetStringColumn,
+           py::keep_alive<0, 1>())
       .def("add_bucketized_float_col", &DataStorePy::AddBucketizedFloatColumn)
       .def("add_raw_float_col", &DataStorePy::AddRawFloatColumn)
       .def("add_string_col", &DataStorePy::AddStringColumn)
-- 
2.43.0


From 0ba5756dff96e531db57e30b4152b6de808a086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:25 +0000
Subject: [PATCH 26/28] fix: an unknown group column raises an exception
 instead of ending the process

---
 src/python/train_gbdt_py.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/train_gbdt_py.cc b/src/python/train_gbdt_py.cc
index 497820b..c4cddba 100644
--- a/src/python/train_gbdt_py.cc
+++ b/src/python/train_gbdt_py.cc
@@ -84,6 +84,11 @@ ForestPy TrainPy(DataStorePy* data_store,
     y_hat = [&target_floats](int i) { return target_floats[i]; };
   }
 
+  if (!config.group_column().empty() &&
+      !data_store->data_store()->GetStringColumn(config.group_column())) {
+    ThrowException(Status(error::INVALID_ARGUMENT,
+                          fmt::format("Failed to load group column {0}", config.group_column())));
+  }
 
   // Initialize Loss Function.
   unique_ptr<LossFunc> loss_func = LossFuncFactory::CreateLossFunc(config);
-- 
2.43.0


From ef062f585a765614f7f45121c9c49dff48bf99c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:18 +0000
Subject: [PATCH 27/28] fix: training from Python uses the configured weight
 column and binarised targets

---
 src/python/train_gbdt_py.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/python/train_gbdt_py.cc b/src/python/train_gbdt_py.cc
index c4cddba..89f0e8c 100644
--- a/src/python/train_gbdt_py.cc
+++ b/src/python/train_gbdt_py.cc
@@ -67,6 +67,13 @@ ForestPy TrainPy(DataStorePy* data_store,
   FloatVector w_hat = [](int){ return 1.0f; };
   if (!w.empty()) {
     w_hat = ([&w](int i) { return w[i]; });
+  } else if (!config.weight_column().empty()) {
+    const auto* weights = data_store->data_store()->GetRawFloatColumn(config.weight_column());
+    if (!weights) {
+      ThrowException(Status(error::INVALID_ARGUMENT,
+                            fmt::format("Failed to load weight column {0}", config.weight_column())));
+    }
+    w_hat = [weights](int i) { return (*weights)[i]; };
   }
 
   FloatVector y_hat = [&y](int i) { return y[i]; };
@@ -83,6 +90,9 @@ ForestPy TrainPy(DataStorePy* data_store,
     const vector<float>& target_floats = targets->raw_floats();
     y_hat = [&target_floats](int i) { return target_floats[i]; };
   }
+  if (config.binarize_target()) {
+    y_hat = [y_hat](int i) { return y_hat(i) > 0 ? 1.0f : -1.0f; };
+  }
 
   if (!config.group_column().empty() &&
       !data_store->data_store()->GetStringColumn(config.group_column())) {
-- 
2.43.0


From 66f2f3385050238345552d6c959eaa1d7e331ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:18 +0000
Subject: [PATCH 28/28] fix: predictions at checkpoints use a directory of
 their own

---
 gbdt/_forest.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/gbdt/_forest.py b/gbdt/_forest.py
index 12f259f..2f69b3c 100644
--- a/gbdt/_forest.py
+++ b/gbdt/_forest.py
@@ -19,14 +19,18 @@ class Forest:
         """Computes prediction scores for data_store at different checkpoints. At each checkpoint n,
            We compute prediction scores for the sub forest from the first tree to nth tree.
         """
+        import shutil
         import tempfile
 
-        output_dir = tempfile.gettempdir()
-
-        self._forest.predict_and_output(data_store._data_store, checkpoints, output_dir)
-        for p in checkpoints:
-            yield p, [float(line) for line in open(output_dir + '/forest.{}.score'.format(p))
-                      if line.strip()]
+        # Score files of other predictions must not be mistaken for ours.
+        output_dir = tempfile.mkdtemp()
+        try:
+            self._forest.predict_and_output(data_store._data_store, checkpoints, output_dir)
+            for p in checkpoints:
+                yield p, [float(line) for line in open(output_dir + '/forest.{}.score'.format(p))
+                          if line.strip()]
+        finally:
+            shutil.rmtree(output_dir)
 
     def feature_importance(self):
         """Outputs list of feature importances in descending order."""
-- 
2.43.0

