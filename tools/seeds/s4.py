import sys; sys.path.insert(0, "/verif/tools")
from mkseed import mk
T = "src/python/train_gbdt_py.cc"
D = "src/python/datastore_py.cc"
PRE = '''import json, sys
import libgbdt
def conf(**k):
    d = dict(float_feature=["x"], loss_func="mse", num_trees=1, num_leaves=2, example_sampling_rate=1, feature_sampling_rate=1, shrinkage=1)
    d.update(k)
    return json.dumps(d)
'''

mk("c46-target-helper", "C46", [(T, '''    const auto* targets = data_store->data_store()->GetRawFloatColumn(config.target_column());
    if (!targets) {
      ThrowException(Status(error::INVALID_ARGUMENT,
                            fmt::format("Failed to load target column {0}", config.target_column())));
    }
    const vector<float>& target_floats = targets->raw_floats();
    y_hat = [&target_floats](int i) { return target_floats[i]; };
''', '''    y_hat = GetTargetsOrDie(config, data_store->data_store());
''')],
"training from Python without y and with a target column that is missing or not a raw float column",
"the interpreter is aborted instead of an exception being raised",
demo_py=PRE + '''
d = libgbdt.DataStore()
d.add_bucketized_float_col("x", [1.0, 2.0, 3.0, 4.0])
try:
    libgbdt.train(d, [], [], conf(target_column="t"), None, 1, 1)
except Exception as e:
    sys.exit(0)
sys.exit(1)
''')

mk("c47-weights-without-targets", "C47", [(T, '''  if (!w.empty()) {
    w_hat = ''', '''  if (!w.empty() && !y.empty()) {
    w_hat = ''')],
"weights passed to train while the targets come from the configured column",
"the weights passed in are ignored",
demo_py=PRE + '''
d = libgbdt.DataStore()
x, t, w = [1.0, 2.0, 3.0, 4.0], [1.0, 2.0, 5.0, 9.0], [1.0, 4.0, 1.0, 9.0]
d.add_bucketized_float_col("x", x)
d.add_raw_float_col("t", t)
a = libgbdt.train(d, t, w, conf(), None, 1, 1).predict(d)
b = libgbdt.train(d, [], w, conf(target_column="t"), None, 1, 1).predict(d)
sys.exit(0 if list(a) == list(b) else 1)
''')

mk("c47-integer-weights", "C47", [(T, "w_hat = ([&w](int i) { return w[i]; });", "w_hat = ([&w](int i) { return max(0, int(w[i])); });")],
"weights that are not whole numbers",
"the weights passed in are rounded down before training",
demo_py=PRE + '''
d = libgbdt.DataStore()
d.add_bucketized_float_col("x", [1.0, 2.0, 3.0, 4.0])
t = [1.0, 2.0, 5.0, 9.0]
a = libgbdt.train(d, t, [1.0, 3.0, 1.0, 1.0], conf(), None, 1, 1).predict(d)
b = libgbdt.train(d, t, [0.5, 1.5, 0.5, 0.5], conf(), None, 1, 1).predict(d)
sys.exit(0 if all(abs(p - q) < 1e-5 for p, q in zip(a, b)) else 1)
''')

mk("c45-add-replaces", "C45", [(D, '''  auto status = data_store_->Add(Column::CreateRawFloatColumn(column_name, vector<float>(raw_floats)));
''', '''  if (data_store_->num_rows() == raw_floats.size()) RemoveColumnIfExists(column_name);
  auto status = data_store_->Add(Column::CreateRawFloatColumn(column_name, vector<float>(raw_floats)));
''')],
"a raw float column added a second time under the same name and with the same length while Python still holds the first one",
"the column object obtained before refers to freed memory",
demo_py='''import sys
import libgbdt
d = libgbdt.DataStore()
n = 200000
d.add_raw_float_col("x", [1.5] * n)
c = d.get_raw_float_col("x")
try:
    d.add_raw_float_col("x", [2.5] * n)
except Exception:
    pass
keep = [bytearray(b"\\xff" * k) for k in (16, 24, 32, 48, 64, 80, 96, 112, 128) for _ in range(200)]
sys.exit(0 if len(c) == n and c[7] == 1.5 and c[n - 1] == 1.5 else 1)
''')

S = "src/gbdt_algo/split_algo.cc"
exec(open("/verif/tools/seeds/s2.py").read().split("mk(")[0])
mk("c16-left-count-width", "C16", [(S, "  uint left_size = 0;\n  bool missing_to_right", "  uint16 left_size = 0;\n  bool missing_to_right")],
"a node whose split sends more than 65535 samples to the left",
"samples are swapped back and forth and the two sides no longer hold every sample once",
INC + '''
int main() {
  FLAGS_num_threads = 1;
  const int n = 70000;
  vector<float> x(n, 1.0f);
  for (int i = 0; i < 100; ++i) x[i * 700] = 5.0f;
  auto col = Column::CreateBucketizedFloatColumn("x", x);
  Split s; s.set_feature("x"); s.mutable_float_split()->set_threshold(3);
  auto all = Subsampling::CreateAllSamples(n);
  auto p = Partition(col.get(), s, VectorSlice<uint>(all));
  return p.first.size() == n - 100 && p.second.size() == 100 ? 0 : 1;
}
''')

mk("c15-category-width", "C15", [(S, "  unordered_set<uint> categories;", "  unordered_set<uint16> categories;")],
"a categorical feature with more than 65536 values",
"a value whose code differs from a listed one by a multiple of 65536 is sent the wrong way",
INC + '''
int main() {
  FLAGS_num_threads = 1;
  const int n = 70000;
  vector<string> x;
  for (int i = 0; i < n; ++i) x.push_back("v" + std::to_string(i));
  auto col = Column::CreateStringColumn("x", x);
  Split s; s.set_feature("x"); s.mutable_cat_split()->add_category("v69000"); s.mutable_cat_split()->add_category("v3");
  auto all = Subsampling::CreateAllSamples(n);
  auto p = Partition(col.get(), s, VectorSlice<uint>(all));
  if (p.first.size() != 2) return 1;
  for (auto i : p.first) if (i != 69000 && i != 3) return 1;
  return 0;
}
''')

mk("c21-feature-index-width", "C21", [("src/gbdt_algo/tree_algo.cc", "  uint best_index = 0;\n", "  uint8 best_index = 0;\n")],
"more than 256 features, the best of which lies beyond the 256th",
"a node is split on another feature than the best one",
INC + '''
#include "src/gbdt_algo/tree_algo.h"
int main() {
  FLAGS_num_threads = 1;
  const int m = 300, n = 8;
  vector<std::unique_ptr<Column>> cols;
  vector<const Column*> features;
  for (int j = 0; j < m; ++j) {
    vector<float> x(n);
    for (int i = 0; i < n; ++i) x[i] = j == 280 ? (i < 4 ? 0 : 1) : (i < 1 ? 0 : 1);
    cols.push_back(Column::CreateBucketizedFloatColumn("f" + std::to_string(j), x));
    features.push_back(cols.back().get());
  }
  vector<GradientData> g(n);
  for (int i = 0; i < n; ++i) { g[i].g = i < 4 ? 1 : -1; g[i].h = 1; }
  Config c = conf(1, 2);
  auto t = FitTreeToGradients([](int) { return 1.0f; }, g, features, c);
  return t.split().feature() == "f280" ? 0 : 1;
}
''')
