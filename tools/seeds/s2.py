import sys; sys.path.insert(0, "/verif/tools")
from mkseed import mk

INC = '''
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/tree_algo.h"
#include "src/gbdt_algo/utils.h"
#include "src/gbdt_algo/split_algo.h"
#include "src/data_store/column.h"
#include "src/data_store/tsv_data_store.h"
#include "src/data_store/flatfiles_data_store.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
#include "src/loss_func/gradient_data.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/loss_func/loss_func_pairwise.h"
#include "src/loss_func/loss_func_pointwise.h"
#include "src/data_store/data_store.h"
#include "src/utils/subsampling.h"
#include "src/utils/threadpool.h"
#include <set>
#include <list>
#include <fstream>
#include <future>
#include <cmath>
#include <cstdio>
#include <gflags/gflags.h>
using namespace gbdt;
using namespace std;
DECLARE_int32(num_threads);
static void column(DataStore* d, const string& n, vector<float> v) { d->Add(Column::CreateBucketizedFloatColumn(n, v, 1000)); }
static Config conf(int trees, int leaves) {
  Config c; c.set_num_trees(trees); c.set_num_leaves(leaves); c.set_example_sampling_rate(1); c.set_feature_sampling_rate(1);
  c.set_min_hessian(0); c.set_shrinkage(0.5); c.set_loss_func("mse"); return c;
}
'''

mk("c36-scores-accumulate", "C36", [("src/gbdt_algo/evaluation.cc", "  scores->clear();\n", "")],
"a score vector that is not empty when scoring starts (scoring twice into the same vector)",
"scores of the second call include those of the first",
INC + '''
int main() {
  FLAGS_num_threads = 2;
  DataStore d; column(&d, "x", {1, 2, 3});
  Forest f; f.add_tree()->set_score(2);
  vector<double> s;
  EvaluateForest(&d, f, &s); EvaluateForest(&d, f, &s);
  for (double v : s) if (v != 2) return 1;
  return s.size() == 3 ? 0 : 1;
}
''')

mk("c37-repeated-checkpoint", "C37", [("src/gbdt_algo/evaluation.cc", "    while (!test_points.empty() && i+1 >= test_points.front()) {", "    if (!test_points.empty() && i+1 >= test_points.front()) {")],
"a list of checkpoints that names one of them twice",
"only one of the equal checkpoints is dropped, so the next checkpoint is passed without being written although success is reported",
INC + '''
int main(int, char** v) {
  FLAGS_num_threads = 2;
  DataStore d; column(&d, "x", {1, 2, 3});
  Forest f; f.add_tree()->set_score(2); f.add_tree()->set_score(3);
  string dir = string(v[1]) + "/out";
  if (!EvaluateForest(&d, f, list<int>{1, 1, 2}, dir).ok()) return 0;
  return ifstream(dir + "/forest.1.score").good() && ifstream(dir + "/forest.2.score").good() ? 0 : 1;
}
''')

mk("c23-last-constant-wins", "C23", [("src/gbdt_algo/gbdt_algo.cc", "      constant_tree->set_score(constant_tree->score() + tree.score());", "      constant_tree->set_score(tree.score());")],
"a base forest with more than one single-node tree (for example one that was itself trained where some iterations found no split)",
"only the last single-node tree of the base forest is folded into the constant tree; the returned forest predicts something else than the scores it was trained on",
INC + '''
int main() {
  FLAGS_num_threads = 2;
  DataStore d; column(&d, "x", {1, 1, 1, 1});
  vector<float> y = {4, 6, 8, 10};
  Config c = conf(1, 2);
  auto loss = LossFuncFactory::CreateLossFunc(c);
  Forest base, out; base.add_tree()->set_score(1); base.add_tree()->set_score(2);
  if (!TrainGBDT(&d, {"x"}, [](int) { return 1.0f; }, [&](int i) { return y[i]; }, loss.get(), c, &base, &out).ok()) return 2;
  double s = 0; for (auto& t : out.tree()) s += t.score();
  printf("%g\\n", s);
  return fabs(s - 7) < 1e-6 ? 0 : 1;
}
''')

mk("c22-constant-of-unsplit-iteration", "C22", [("src/gbdt_algo/gbdt_algo.cc", "    compute_tree_scores.AddTreeScores(*tree, constant, &f);", "    if (tree->has_left_child()) {\n      compute_tree_scores.AddTreeScores(*tree, constant, &f);\n    }")],
"an iteration in which no split is found",
"the running scores miss the constant (and the score) of an iteration whose tree is a single node, so the next iteration adds the constant again",
INC + '''
int main() {
  FLAGS_num_threads = 2;
  DataStore d; column(&d, "x", {1, 1, 1, 1});
  vector<float> y = {4, 6, 8, 10};
  Config c = conf(3, 2);
  auto loss = LossFuncFactory::CreateLossFunc(c);
  Forest out;
  if (!TrainGBDT(&d, {"x"}, [](int) { return 1.0f; }, [&](int i) { return y[i]; }, loss.get(), c, nullptr, &out).ok()) return 2;
  double s = 0; for (auto& t : out.tree()) s += t.score();
  printf("%g\\n", s);
  return fabs(s - 7) < 1e-6 ? 0 : 1;
}
''')

mk("c24-infinite-constant", "C24", [("src/gbdt_algo/gbdt_algo.cc", "    if (std::isnan(constant) || std::isinf(constant)) {", "    if (std::isnan(constant)) {")],
"a training in which the fitted constant overflows to infinity without becoming NaN in the same iteration",
"diverged training is reported as success with an infinite constant in the model",
INC + '''
struct L : LossFunc {
  Status Init(int, FloatVector, FloatVector, const StringColumn*) override { return Status::OK; }
  void ComputeFunctionalGradientsAndHessians(const vector<double>& f, double* c, vector<GradientData>* g, string*) override {
    *c = INFINITY; g->assign(f.size(), GradientData(0, 1));
  }
};
int main() {
  FLAGS_num_threads = 2;
  DataStore d; column(&d, "x", {1, 2, 3, 4});
  Config c = conf(1, 2);
  L loss; Forest out;
  return TrainGBDT(&d, {"x"}, [](int) { return 1.0f; }, [](int) { return 1.0f; }, &loss, c, nullptr, &out).ok() ? 1 : 0;
}
''')

mk("c18-threshold-below-negative-minimum", "C18", [("src/gbdt_algo/split_algo.cc", "feature.get_bucket_min(1) - 1e-3 :", "feature.get_bucket_min(1) * 0.999 :")],
"the best split separates missing values from all others and the smallest value of the feature is negative",
"the threshold lies above the smallest value, which is routed to the side of the missing values although it was scored on the other",
INC + '''
int main() {
  FLAGS_num_threads = 1;
  auto col = Column::CreateBucketizedFloatColumn("x", {NAN, NAN, -10, -9, -8, -7}, 100);
  vector<GradientData> g;
  for (int i = 0; i < 6; ++i) g.emplace_back(i < 2 ? -1.0 : 1.0, 1.0);
  Config c = conf(1, 2);
  Split s; GradientData total(2, 6);
  auto all = Subsampling::CreateAllSamples(6);
  if (!FindBestSplit(col.get(), [](int) { return 1.0f; }, &g, all, c, total, &s)) return 2;
  auto p = Partition(col.get(), s, VectorSlice<uint>(all));
  printf("%g %d %zu\\n", s.float_split().threshold(), s.float_split().missing_to_right_child(), size_t(p.first.size()));
  return p.first.size() == 2 ? 0 : 1;
}
''')

mk("c01-shared-totals", "C01", [("src/gbdt_algo/tree_algo.cc", "&slice=slices[i], &total=totals[i], &gradient_data_vec", "&slice=slices[i], &total=totals[i % FLAGS_num_threads], &gradient_data_vec")],
"more than one worker, two tasks of the same node running at the same time",
"tasks of different slices add to the same total without a lock: updates are lost",
INC + '''
namespace gbdt { GradientData ComputeWeightedSum(FloatVector, const vector<GradientData>&, const VectorSlice<uint>&); }
int main() {
  FLAGS_num_threads = 8;
  int n = 1000000;
  vector<GradientData> g(n, GradientData(1, 1));
  auto all = Subsampling::CreateAllSamples(n);
  for (int k = 0; k < 60; ++k) {
    auto t = ComputeWeightedSum([](int) { return 1.0f; }, g, all);
    if (t.g != n || t.h != n) { printf("%f\\n", t.g); return 1; }
  }
  return 0;
}
''')

mk("c03-notify-only-when-empty", "C03", [("src/utils/threadpool.cc", "    tasks_.push(f);\n  }\n\n  // Wake up one thread.\n  condition_.notify_one();", "    // The workers are awake as long as there is work.\n    if (!tasks_.empty()) {\n      tasks_.push(f);\n      return;\n    }\n    tasks_.push(f);\n  }\n\n  // Wake up one thread.\n  condition_.notify_one();")],
"two tasks queued before any idle worker wakes up, the first of which takes long (or waits for the second)",
"only one worker is woken for both tasks: the second waits although other workers are idle",
INC + '''
#include <unistd.h>
int main() {
  for (int k = 0; k < 200; ++k) {
    auto a = make_shared<promise<void>>();
    auto done = make_shared<promise<void>>();
    auto fa = make_shared<shared_future<void>>(a->get_future().share());
    auto f = done->get_future();
    auto* pool = new ThreadPool(4);
    usleep(2000);
    pool->Enqueue([fa, done] { fa->wait(); done->set_value(); });
    pool->Enqueue([a] { a->set_value(); });
    if (f.wait_for(chrono::seconds(3)) != future_status::ready) { printf("stuck at %d\\n", k); _exit(1); }
    delete pool;
  }
  return 0;
}
''')

mk("c04-blocks-die-before-pool", "C04", [("src/data_store/tsv_data_store.cc", "  vector<promise<TSVBlock*>> blocks(tsvs.size());\n  ThreadPool pool(FLAGS_num_threads);\n", "  ThreadPool pool(FLAGS_num_threads);\n  vector<promise<TSVBlock*>> blocks(tsvs.size());\n")],
"loading several files of which an early one is bad while a later one is still being read",
"on the early return the promises are destroyed before the pool is joined; the worker then sets a destroyed promise",
INC + '''
int main(int, char** v) {
  FLAGS_num_threads = 4;
  string a = string(v[1]) + "/a.tsv", b = string(v[1]) + "/b.tsv";
  { ofstream o(a); o << "x\\ty\\nbad\\t1\\n"; }
  { ofstream o(b); for (int i = 0; i < 30000; ++i) o << "1\\t2\\n"; }
  Config c; c.add_float_feature("x"); c.add_additional_float_column("y");
  vector<string> files(80, b); files[0] = a;
  TSVDataStore d(files, c);
  return d.status().ok() ? 2 : 0;
}
''')

mk("c29-group-code-width", "C29", [("src/loss_func/loss_func_pairwise.cc", "      uint group_id = group_col[i];", "      uint16 group_id = group_col[i];")],
"more than 65535 different group values",
"rows of groups 65536 codes apart are put into the same group",
INC + '''
int main() {
  FLAGS_num_threads = 2;
  int n = 70000;
  vector<string> names; for (int i = 0; i < n; ++i) names.push_back("q" + to_string(i));
  auto col = Column::CreateStringColumn("g", names);
  Config c = conf(1, 2); c.set_loss_func("pairwise_logloss"); c.set_pair_sampling_rate(10);
  auto loss = LossFuncFactory::CreateLossFunc(c);
  // every group has one row, so there are no pairs
  auto st = loss->Init(n, [](int) { return 1.0f; }, [](int i) { return i < 65000 ? 1.0f : 0.0f; }, static_cast<const StringColumn*>(col.get()));
  if (!st.ok()) return 2;
  vector<double> f(n, 0.0); vector<GradientData> g; double k; string p;
  loss->ComputeFunctionalGradientsAndHessians(f, &k, &g, &p);
  for (auto& x : g) if (x.g != 0 || x.h != 0) return 1;
  return 0;
}
''')

mk("c28-pair-count-overflow", "C28", [("src/loss_func/group.cc", "      num_pairs_ += block_size * (group_.size() - i);", "      num_pairs_ += block_size * static_cast<uint>(group_.size() - i);")],
"a group with more than 2^32 pairs of different targets (about 130000 rows)",
"the number of pairs is computed modulo 2^32, so most pairs can never be drawn",
INC + '''
int main() {
  uint n = 200000;
  vector<uint> v; for (uint i = 0; i < n; ++i) v.push_back(i);
  Group g(std::move(v), [](int i) { return i < 100000 ? 1.0f : 0.0f; });
  printf("%llu\\n", (unsigned long long) g.num_pairs());
  return g.num_pairs() == 10000000000ULL ? 0 : 1;
}
''')

mk("c38-small-gains-not-normalised", "C38", [("src/gbdt_algo/utils.cc", "    double max_importance = feature_importance[0].second;", "    double max_importance = max(1.0, feature_importance[0].second);")],
"a model in which every feature's total gain is below 1",
"the importances are not divided by the largest sum",
INC + '''
int main() {
  Forest f; auto* t = f.add_tree(); t->mutable_split()->set_feature("x"); t->mutable_split()->set_gain(0.25);
  t->mutable_left_child(); t->mutable_right_child();
  auto r = ComputeFeatureImportance(f);
  return r.size() == 1 && r[0].second == 1.0 ? 0 : 1;
}
''')

mk("c21-right-total-of-root", "C19", [("src/gbdt_algo/tree_algo.cc", "    GradientData right_total = ComputeWeightedSum(w, gradient_data_vec, sub_slices.second);", "    GradientData right_total = total - left_total;")],
"a tree with at least three leaves",
"the totals of a right child below the root include samples of other nodes",
INC + '''
int main() {
  FLAGS_num_threads = 2;
  vector<float> x; vector<GradientData> g;
  for (int i = 0; i < 8; ++i) { x.push_back(i); g.emplace_back(i < 4 ? -10.0 : i < 6 ? 3.0 : 8.0, 1.0); }
  auto col = Column::CreateBucketizedFloatColumn("x", x, 100);
  Config c = conf(1, 3);
  vector<const Column*> fs = {col.get()};
  TreeNode t = FitTreeToGradients([](int) { return 1.0f; }, g, fs, c);
  return t.right_child().has_right_child() && fabs(t.right_child().right_child().score() - 8) < 1e-6 ? 0 : 1;
}
''')
mk("c13-width-boundary", "C13", [("src/data_store/column.cc", "  if (max_int() <= kMaxUInt8) {\n    col_8_ = ConvertIntVector", "  if (col_32_.size() <= kMaxUInt8 || max_int() < kMaxUInt8) {\n    col_8_ = ConvertIntVector")],
"a string column of at most 256 rows that are all different (with the reserved value: 257 codes)",
"codes above 255 are stored in 8 bits and decode to another string",
INC + '''
int main() {
  for (int n : {255, 256, 257}) {
    vector<string> v; for (int i = 0; i < n; ++i) v.push_back("s" + to_string(i));
    auto c = Column::CreateStringColumn("s", v);
    auto* s = static_cast<const StringColumn*>(c.get());
    for (int i = 0; i < n; ++i) if (s->get_row_string(i) != v[i]) { printf("%d %d\\n", n, i); return 1; }
  }
  return 0;
}
''')
mk("c05-unlocked-table", "C05", [("src/data_store/flatfiles_data_store.cc", "  {\n    lock_guard<mutex> lock(mutex_);\n    return column_map_[column_name].get();\n  }", "  // The column is there from here on.\n  return column_map_.find(column_name)->second.get();")],
"a thread looking up its column while another thread's insertion grows the table",
"the final look-up reads the column table without the lock",
INC + '''
int main(int, char** v) {
  string dir = v[1];
  for (int i = 0; i < 300; ++i) { ofstream o(dir + "/c" + to_string(i)); o << "# dtype=raw_floats\\n1\\n2\\n"; }
  FlatfilesDataStore d(dir);
  vector<thread> ts;
  for (int t = 0; t < 4; ++t) ts.emplace_back([&, t] { for (int i = 0; i < 300; ++i) d.GetColumn("c" + to_string((i * 7 + t * 75) % 300)); });
  for (auto& t : ts) t.join();
  return 0;
}
''')
import os
open("/verif/seeded/c05-unlocked-table/demo.sh", "w").write('''#!/bin/bash
# exit 0: the property holds in this tree; nonzero: it is broken (reported by the race detector)
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
F=""
for f in /repo/src/data_store/{column,data_store,flatfiles_data_store}.cc /repo/src/utils/{utils,threadpool}.cc; do [ -f $f ] && F="$F $f"; done
g++ -std=gnu++14 -O1 -g -fsanitize=thread -w -I/repo/_build/compat -I/opt/vp/cmake/include -I/repo -I/repo/_build/gen "$D/demo.cc" $F -o "$T/demo" \\
  /repo/_build/libgbdt_lib.a -lprotobuf -lgflags -lglog -lfmt -lpthread || exit 3
cd "$T" && TSAN_OPTIONS="halt_on_error=1 exitcode=66" timeout 200 ./demo "$T"
''')
