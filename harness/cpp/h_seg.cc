// Drives SegmentationMetricsIOU.
#include "common.h"

#include "waymo_open_dataset/metrics/segmentation_metrics.h"

using namespace waymo::open_dataset;  // NOLINT
using vh::In;
using vh::Obj;

namespace {

SegmentationMetricsConfig Cfg(In& in) {
  SegmentationMetricsConfig c;
  for (int t : in.ints()) c.add_segmentation_types(static_cast<Segmentation::Type>(t));
  return c;
}

std::string Result(const SegmentationMetrics& m, const SegmentationMetricsConfig& c) {
  std::vector<double> iou;
  for (int t : c.segmentation_types()) {
    auto it = m.per_class_iou().find(t);
    iou.push_back(it == m.per_class_iou().end() ? -1.0 : it->second);
  }
  std::vector<std::string> inter, uni;
  for (auto x : m.segmentation_measurements().intersections()) inter.push_back(std::to_string(x));
  for (auto x : m.segmentation_measurements().unions()) uni.push_back(std::to_string(x));
  return Obj().add("k", std::string("c")).add("iou", iou).add("n", static_cast<int>(m.per_class_iou().size()))
      .add("miou", static_cast<double>(m.miou())).add("inter", inter).add("uni", uni).str();
}

std::vector<Segmentation::Type> Types(In& in) {
  std::vector<Segmentation::Type> v;
  for (int t : in.ints()) v.push_back(static_cast<Segmentation::Type>(t));
  return v;
}

// session cfg n {u pd gt | r | c}: one evaluator, a sequence of calls
std::string OpSession(In& in) {
  const auto c = Cfg(in);
  SegmentationMetricsIOU m(c);
  std::vector<vh::Raw> out;
  const int n = in.i();
  for (int k = 0; k < n; ++k) {
    const std::string op = in.tok();
    if (op == "u") {
      const auto pd = Types(in);
      const auto gt = Types(in);
      out.push_back({Obj().add("k", std::string("u")).add("ok", m.Update(pd, gt).ok()).str()});
    } else if (op == "r") {
      m.Reset();
      out.push_back({Obj().add("k", std::string("r")).str()});
    } else {
      out.push_back({Result(m.ComputeIOU(), c)});
    }
  }
  return Obj().add("out", out).str();
}

// merge cfg n {inter[] uni[]} (64-bit counts)
std::string OpMerge(In& in) {
  const auto c = Cfg(in);
  SegmentationMetricsIOU m(c);
  std::vector<SegmentationMeasurements> v(in.i());
  for (auto& x : v) {
    for (int k = in.i(); k > 0; --k) x.add_intersections(in.i());
    for (int k = in.i(); k > 0; --k) x.add_unions(in.i());
  }
  return Result(m.MergeResults(v), c);
}

}  // namespace

int main() { return vh::Serve({{"session", OpSession}, {"merge", OpMerge}}); }
