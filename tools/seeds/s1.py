import sys; sys.path.insert(0, "/verif/tools")
from mkseed import mk
mk("c35-swapped-rates", "C35", [("src/gbdt_algo/tree_algo.cc",
"      features.size(), config.feature_sampling_rate());", "      features.size(), config.example_sampling_rate());")],
"a feature sampling rate different from the row sampling rate",
"features are subsampled with the row sampling rate: example_sampling_rate=1, feature_sampling_rate=0.3 always considers every feature",
'''
#include "src/gbdt_algo/tree_algo.h"
#include "src/data_store/column.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
#include "src/loss_func/gradient_data.h"
#include "src/utils/subsampling.h"
#include <set>
#include <cstdio>
#include <gflags/gflags.h>
using namespace gbdt;
DECLARE_int32(num_threads);
int main() {
  FLAGS_num_threads = 1;
  // Eight equally informative features, one strictly best: with feature rate 0.2 the best one is often not sampled.
  std::vector<std::unique_ptr<Column>> own; std::vector<const Column*> fs;
  for (int j = 0; j < 8; ++j) {
    std::vector<float> v; for (int i = 0; i < 16; ++i) v.push_back(j == 0 ? i : (i + j) % 16);
    own.push_back(Column::CreateBucketizedFloatColumn("f" + std::to_string(j), v, 16));
    fs.push_back(own.back().get());
  }
  std::vector<GradientData> g; for (int i = 0; i < 16; ++i) g.emplace_back(i < 8 ? -1.0 : 1.0, 1.0);
  Config c; c.set_num_leaves(2); c.set_num_trees(1); c.set_example_sampling_rate(1); c.set_feature_sampling_rate(0.2); c.set_min_hessian(0);
  std::set<std::string> used;
  for (int s = 0; s < 40; ++s) { Subsampling::Reseed(s); TreeNode t = FitTreeToGradients([](int){return 1.0;}, g, fs, c); used.insert(t.split().feature()); }
  printf("%zu\\n", used.size());
  return used.size() > 1 ? 0 : 1;
}
''')
mk("c34-float-division", "C34", [("src/utils/subsampling.cc",
"    group_sizes[i] = num_samples / num_groups;", "    group_sizes[i] = static_cast<uint>(static_cast<float>(num_samples) / num_groups);")],
"more than 2^24 samples, where the single precision quotient rounds up", "the ranges overlap the end: they no longer cover exactly the samples",
'''
#include "src/utils/subsampling.h"
#include <cstdio>
using namespace gbdt;
int main() {
  for (int n : {7, 100, 16777217, 16777219, 33554435, 100000003}) for (int k : {1, 2, 3}) {
    auto s = Subsampling::DivideSamples(n, k);
    uint at = 0, lo = ~0u, hi = 0;
    for (auto& p : s) { if (p.first != at || p.second < p.first) return 1; at = p.second; uint z = p.second - p.first; lo = std::min(lo, z); hi = std::max(hi, z); }
    if (at != (uint)n || hi - lo > 1) { printf("%d %d: %u\\n", n, k, at); return 1; }
  }
  return 0;
}
''')
mk("c25-hinge-kink", "C25", [("src/loss_func/loss_func_math.cc", "  if (e >= 1) {\n    // Margin", "  if (e > 1) {\n    // Margin")],
"a margin of exactly one", "the huberized hinge reports curvature 1 at margin 1, where the loss is flat (documented: margin >= 1 gives 0)",
'''
#include "src/loss_func/loss_func_math.h"
#include <cstdio>
using namespace gbdt;
int main() {
  for (double y : {-1.0, 1.0}) { auto t = ComputeHuberizedHinge(y, y); if (std::get<0>(t) != 0 || std::get<1>(t) != 0 || std::get<2>(t) != 0) return 1; }
  auto t = ComputeHuberizedHinge(1, 0.5); if (std::get<2>(t) != 1) return 1;
  return 0;
}
''')
mk("c06-leaves-one-iteration", "C06", [("src/gbdt_algo/utils.cc",
"  if (config.num_leaves() <= 0) {", "  if (config.num_leaves() <= 0 && config.num_trees() > 1) {")],
"a single tree together with a non-positive leaf count", "num_leaves=0 is accepted when num_trees=1",
'''
#include "src/gbdt_algo/utils.h"
#include "src/proto/config.pb.h"
using namespace gbdt;
int main() {
  Config c; c.set_example_sampling_rate(1); c.set_feature_sampling_rate(1);
  for (int t : {-1, 0, 1, 2, 10}) for (int l : {-3, 0, 1, 20}) { c.set_num_trees(t); c.set_num_leaves(l); if (CheckConfig(c).ok() != (t > 0 && l > 0)) return 1; }
  return 0;
}
''')

mk("c08-duplicate-column", "C08", [("src/python/datastore_py.cc",
"  auto status = data_store_->Add(Column::CreateRawFloatColumn(column_name, vector<float>(raw_floats)));\n  if (!status.ok()) {",
"  auto status = data_store_->Add(Column::CreateRawFloatColumn(column_name, vector<float>(raw_floats)));\n  if (status.error_code() == error::OUT_OF_RANGE) {")],
"adding a raw float column under a name that is already taken", "add_raw_float_col of an existing name returns without an exception although the store refused the column",
None, '''
import libgbdt, sys
d = libgbdt.DataStore()
d.add_raw_float_col("a", [1.0, 2.0])
bad = 0
for name, vals in (("a", [3.0, 4.0]), ("b", [1.0])):
    for add in (d.add_raw_float_col, d.add_bucketized_float_col):
        try:
            add(name, vals)
            bad = 1
        except Exception:
            pass
sys.exit(bad)
''')
