import sys; sys.path.insert(0, "/verif/tools")
from mkseed import mk
exec(open("/verif/tools/seeds/s2.py").read().split("mk(\"c36")[0])

mk("c17-guard-of-other-side", "C17", [("src/gbdt_algo/split_algo.cc", "      if (min(left_missing_on_right.h, right_missing_on_right.h) > config.min_hessian()) {", "      if (min(left.h, right_missing_on_right.h) > config.min_hessian()) {")],
"a feature with missing values, a positive minimum hessian and a best split whose left side reaches the minimum only together with the missing values it does not get",
"a split with missing values on the right is proposed although its left side has less hessian than the minimum",
INC + '''
int main() {
  FLAGS_num_threads = 1;
  auto col = Column::CreateBucketizedFloatColumn("x", {NAN, NAN, NAN, 1, 2, 2, 2}, 100);
  vector<GradientData> g = {{1, 1}, {1, 1}, {1, 1}, {-9, 1}, {1, 1}, {1, 1}, {1, 1}};
  Config c = conf(1, 2); c.set_min_hessian(2);
  GradientData total; for (auto& x : g) total += x;
  auto all = Subsampling::CreateAllSamples(7);
  Split s;
  if (!FindBestSplit(col.get(), [](int) { return 1.0f; }, &g, all, c, total, &s)) return 0;
  auto p = Partition(col.get(), s, VectorSlice<uint>(all));
  printf("%zu %zu\\n", size_t(p.first.size()), size_t(p.second.size()));
  return p.first.size() > 2 && p.second.size() > 2 ? 0 : 1;
}
''')

mk("c15-threshold-inclusive", "C15", [("src/gbdt_algo/split_algo.cc", "feature->get_row_max(samples[i]) < threshold)) {", "feature->get_row_max(samples[i]) <= threshold)) {")],
"a value that equals the threshold exactly (a hand-written model, or neighbouring floats between which there is no midpoint)",
"a sample whose bucketized value equals the threshold goes left instead of right",
INC + '''
int main() {
  FLAGS_num_threads = 1;
  auto col = Column::CreateBucketizedFloatColumn("x", {1, 2, 3, 4}, 100);
  Split s; s.set_feature("x"); s.mutable_float_split()->set_threshold(3);
  auto all = Subsampling::CreateAllSamples(4);
  auto p = Partition(col.get(), s, VectorSlice<uint>(all));
  return p.first.size() == 2 ? 0 : 1;
}
''')

mk("c27-zero-weight-skipped", "C27", [("src/loss_func/loss_func_pointwise.cc", "              double f_current = f[i] + *c;\n", "              if (w_(i) == 0) continue;\n              double f_current = f[i] + *c;\n")],
"a row of weight zero, in particular one whose slot holds values of an earlier iteration",
"the gradient of a row of weight zero is not written",
INC + '''
int main() {
  FLAGS_num_threads = 2;
  Config c = conf(1, 2);
  auto loss = LossFuncFactory::CreateLossFunc(c);
  vector<float> w = {1, 0, 1}, y = {1, 7, 3};
  if (!loss->Init(3, [&](int i) { return w[i]; }, [&](int i) { return y[i]; }, nullptr).ok()) return 2;
  vector<double> f(3, 0.0); vector<GradientData> g(3, GradientData(99, 99)); double k; string p;
  loss->ComputeFunctionalGradientsAndHessians(f, &k, &g, &p);
  printf("%g %g\\n", g[1].g, g[1].h);
  return g[1].g == 99 || g[1].h == 99 ? 1 : 0;
}
''')

mk("c30-zero-weight-target", "C30", [("src/loss_func/loss_func_logloss.cc", "    if (y(i) != 1.0 and y(i) != -1.0) {", "    if (w(i) > 0 and y(i) != 1.0 and y(i) != -1.0) {")],
"a row of weight zero whose target is neither -1 nor +1",
"the invalid target is accepted",
INC + '''
int main() {
  FLAGS_num_threads = 2;
  Config c = conf(1, 2); c.set_loss_func("logloss");
  auto loss = LossFuncFactory::CreateLossFunc(c);
  vector<float> w = {1, 0, 1}, y = {1, 7, -1};
  return loss->Init(3, [&](int i) { return w[i]; }, [&](int i) { return y[i]; }, nullptr).ok() ? 1 : 0;
}
''')

mk("c32-short-lines-skipped", "C32", [("src/data_store/tsv_block.cc", "    if (line.empty()) continue;", "    if (line.size() <= 1) continue;")],
"a file with a single column whose values are one character long",
"rows of one character are dropped",
INC + '''
int main(int, char** v) {
  FLAGS_num_threads = 2;
  string a = string(v[1]) + "/a.tsv";
  { ofstream o(a); o << "x\\n10\\n7\\n12\\n"; }
  Config c; c.add_float_feature("x");
  TSVDataStore d({a}, c);
  return d.status().ok() && d.num_rows() == 3 ? 0 : 1;
}
''')

mk("c33-first-ready-first", "C33", [("src/data_store/tsv_data_store.cc", "    auto block_future = blocks[i].get_future();\n    block_future.wait();\n    unique_ptr<TSVBlock> block(block_future.get());", "    // Take the next block that is ready.\n    int k = i;\n    while (futures[k].wait_for(std::chrono::milliseconds(1)) != std::future_status::ready) {\n      k = k + 1 < blocks.size() ? k + 1 : i;\n    }\n    std::swap(futures[i], futures[k]);\n    unique_ptr<TSVBlock> block(futures[i].get());"),
 ("src/data_store/tsv_data_store.cc", "  for (int i = 0; i < blocks.size(); ++i) {", "  vector<std::future<TSVBlock*>> futures;\n  for (auto& block : blocks) {\n    futures.push_back(block.get_future());\n  }\n  for (int i = 0; i < blocks.size(); ++i) {")],
"several files of which a later one is parsed faster than an earlier one",
"the rows of the faster file come first",
INC + '''
int main(int, char** v) {
  FLAGS_num_threads = 4;
  string a = string(v[1]) + "/a.tsv", b = string(v[1]) + "/b.tsv";
  { ofstream o(a); o << "x\\n"; for (int i = 0; i < 500000; ++i) o << "1\\n"; }
  { ofstream o(b); o << "2\\n"; }
  Config c; c.add_additional_float_column("x");
  TSVDataStore d({a, b}, c);
  if (!d.status().ok()) return 2;
  auto* x = d.GetRawFloatColumn("x");
  return x->size() == 500001 && (*x)[0] == 1 && (*x)[500000] == 2 ? 0 : 1;
}
''')

mk("c02-seed-zero", "C02", [("src/python/train_gbdt_py.cc", "  Subsampling::Reseed(random_seed);", "  if (random_seed) Subsampling::Reseed(random_seed);")],
"training twice in one process with random_seed=0",
"with seed 0 the generator is left where the previous training stopped",
demo_py='''
import libgbdt, json, re
def run():
    d = libgbdt.DataStore()
    d.add_bucketized_float_col("a", [float((i * 7) % 31) for i in range(200)])
    d.add_bucketized_float_col("b", [float((i * 5) % 17) for i in range(200)])
    f = libgbdt.train(d, y=[float((i * 11) % 23) for i in range(200)], w=[], config=json.dumps({
        "num_trees": 5, "num_leaves": 4, "example_sampling_rate": 0.5, "feature_sampling_rate": 0.5, "loss_func": "mse", "float_feature": ["a", "b"]}),
        base_forest=None, random_seed=0, num_threads=2)
    m = json.loads(f.as_json()); m.pop("metaInfo", None)
    return m
import sys
sys.exit(0 if run() == run() else 1)
''')

mk("c20-tiny-hessian", "C20", [("src/loss_func/gradient_data.h", "    return h_smoothed == 0 ? 0 : g / h_smoothed;", "    return h_smoothed < 1e-3 ? 0 : g / h_smoothed;")],
"a node whose hessian total (plus lambda) is positive but below 1e-3, for example small sample weights",
"the score of such a node is 0 instead of G/H",
INC + '''
int main() {
  FLAGS_num_threads = 2;
  auto col = Column::CreateBucketizedFloatColumn("x", {1, 1}, 100);
  vector<GradientData> g = {{2, 1}, {4, 1}};
  Config c = conf(1, 2);
  TreeNode t = FitTreeToGradients([](int) { return 1e-4f; }, g, {col.get()}, c);
  return fabs(t.score() - 3) < 1e-3 ? 0 : 1;
}
''')

mk("c07-column-status", "C07", [("src/gbdt_algo/utils.cc", "    if (!feature->status().ok()) {\n      return feature->status();\n    }\n", "    LOG_IF(ERROR, !feature->status().ok()) << feature->status().ToString();\n")],
"a feature column that recorded an error while it was built",
"loading features reports success with a column that is in error",
INC + '''
int main() {
  FLAGS_num_threads = 2;
  DataStore d;
  unique_ptr<Column> c(new RawFloatColumn("x"));
  vector<float> v = {1, 2};
  static_cast<RawFloatColumn*>(c.get())->Add(&v); static_cast<RawFloatColumn*>(c.get())->Finalize(); static_cast<RawFloatColumn*>(c.get())->Add(&v);
  if (c->status().ok()) return 2;
  d.Add(std::move(c));
  vector<const Column*> out;
  return LoadFeatures({"x"}, &d, &out).ok() ? 1 : 0;
}
''')
mk("c12-first-column-length", "C12", [("src/data_store/data_store.cc", "num_rows() != column->size()) {", "num_rows() < column->size()) {")],
"adding a column that is shorter than those already in the store",
"a shorter column is accepted: the columns of the store no longer have equal length",
INC + '''
int main() {
  DataStore d; 
  if (!d.Add(Column::CreateRawFloatColumn("a", {1, 2, 3})).ok()) return 2;
  return d.Add(Column::CreateRawFloatColumn("b", {1, 2})).ok() ? 1 : 0;
}
''')
mk("c19-float-weight-of-hessian", "C19", [("src/gbdt_algo/split_algo.cc", "    histogram.h += weight * gradient_data.h;", "    histogram.h += weight > 0 ? weight * gradient_data.h : gradient_data.h;")],
"a sample of weight zero in the node",
"the hessian of a sample of weight zero is counted in the histogram (with weight one)",
INC + '''
int main() {
  FLAGS_num_threads = 1;
  auto col = Column::CreateBucketizedFloatColumn("x", {1, 1, 2}, 100);
  vector<GradientData> g = {{1, 1}, {1, 1}, {1, 1}};
  vector<float> w = {1, 0, 1};
  auto all = Subsampling::CreateAllSamples(3);
  Histogram h(static_cast<const BucketizedFloatColumn&>(*col), [&](int i) { return w[i]; }, g, all);
  double s = 0; for (uint i = 0; i < h.size(); ++i) s += h.data(i).h;
  return s == 2 ? 0 : 1;
}
''')
mk("c31-bucket-capacity", "C31", [("src/data_store/column.cc", "  uint bucket_capacity = max(static_cast<unsigned long>(1), raw_floats.size() / num_buckets_);", "  uint num_values = histograms.size();\n  uint bucket_capacity = max(static_cast<unsigned long>(1), raw_floats.size() / min<uint>(num_buckets_, num_values));")],
"a float column that consists of missing values only",
"division by zero: the column has no distinct value",
INC + '''
int main() {
  auto c = Column::CreateBucketizedFloatColumn("x", {NAN, NAN}, 100);
  return c->size() == 2 ? 0 : 1;
}
''')
mk("c26-name-case", "C26", [("src/loss_func/loss_func_factory.cc", "  {\"auc\", [](const Config& config) { return new AUC(config);}},\n  {\"pairwise_logloss\", [](const Config& config) { return new PairwiseLogLoss(config);}},", "  {\"auc\", [](const Config& config) { return new AUC(config);}},\n  {\"pairwise_logloss\", [](const Config& config) -> LossFunc* {\n    if (config.lambdamart_dcg_base() > 0) return new LambdaMART(config);\n    return new PairwiseLogLoss(config);}},")],
"pairwise_logloss configured together with a lambdamart_dcg_base",
"the name pairwise_logloss creates another loss",
INC + '''
#include "src/loss_func/loss_func_pairwise_logloss.h"
#include "src/loss_func/loss_func_lambdamart.h"
int main() {
  Config c; c.set_loss_func("pairwise_logloss"); c.set_lambdamart_dcg_base(2);
  auto l = LossFuncFactory::CreateLossFunc(c);
  return dynamic_cast<LambdaMART*>(l.get()) ? 1 : 0;
}
''')
mk("c41-whitespace", "C41", [("src/utils/utils.cc", "    return *pEnd == '\\0' && s.size() != 0;", "    while (*pEnd == ' ') ++pEnd;\n    return *pEnd == '\\0' && s.size() != 0;")],
"a field of blanks only",
"a text of blanks is parsed as the number 0",
INC + '''
#include "src/utils/utils.h"
int main() {
  float f;
  return strings::StringCast("  ", &f) ? 1 : 0;
}
''')
