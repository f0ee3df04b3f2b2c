// Runs the metrics op kernels (on a bare CPU device), the tensor parsers they use, and, for
// comparison, the libraries behind them.
#include "common.h"

#include "tensorflow/core/framework/allocator.h"
#include "tensorflow/core/framework/device_base.h"
#include "tensorflow/core/framework/node_def_builder.h"
#include "tensorflow/core/framework/op_kernel.h"
#include "tensorflow/core/framework/tensor.h"
#include "tensorflow/core/public/version.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
#include "waymo_open_dataset/metrics/matcher.h"
#include "waymo_open_dataset/metrics/metrics_utils.h"
#include "waymo_open_dataset/metrics/motion_metrics.h"
#include "waymo_open_dataset/metrics/ops/utils.h"
#include "waymo_open_dataset/metrics/tracking_metrics.h"

namespace tf = tensorflow;
namespace co = waymo::open_dataset;
using vh::In;
using vh::Obj;
using vh::Raw;

namespace {

class Cpu : public tf::DeviceBase {
 public:
  Cpu() : tf::DeviceBase(tf::Env::Default()) {
    attr_.set_name("/job:a/replica:0/task:0/device:CPU:0");
    attr_.set_device_type("CPU");
  }
  tf::Allocator* GetAllocator(tf::AllocatorAttributes) override { return tf::cpu_allocator(); }
  const tf::DeviceAttributes& attributes() const override { return attr_; }
  const std::string& name() const override { return attr_.name(); }

 private:
  tf::DeviceAttributes attr_;
};

// type ndims dims.. values..  (type: f u l b s i)
tf::Tensor ReadTensor(In& in) {
  const std::string t = in.tok();
  tf::TensorShape shape;
  for (int n = in.i(); n > 0; --n) shape.AddDim(in.i());
  const auto dt = t == "f" ? tf::DT_FLOAT : t == "u" ? tf::DT_UINT8 : t == "l" ? tf::DT_INT64
                  : t == "b" ? tf::DT_BOOL : t == "s" ? tf::DT_STRING : tf::DT_INT32;
  tf::Tensor x(dt, shape);
  const int64_t n = shape.num_elements();
  for (int64_t k = 0; k < n; ++k) {
    switch (dt) {
      case tf::DT_FLOAT: x.flat<float>()(k) = in.d(); break;
      case tf::DT_UINT8: x.flat<tf::uint8>()(k) = in.i(); break;
      case tf::DT_INT64: x.flat<int64_t>()(k) = in.i(); break;
      case tf::DT_BOOL: x.flat<bool>()(k) = in.i() != 0; break;
      case tf::DT_STRING: x.flat<tf::tstring>()(k) = in.bytes(); break;
      default: x.flat<int32_t>()(k) = in.i();
    }
  }
  return x;
}

Raw Show(const tf::Tensor& x) {
  std::vector<long long> dims;
  for (int k = 0; k < x.dims(); ++k) dims.push_back(x.dim_size(k));
  std::vector<double> v;
  for (int64_t k = 0; k < x.NumElements(); ++k) {
    switch (x.dtype()) {
      case tf::DT_FLOAT: v.push_back(x.flat<float>()(k)); break;
      case tf::DT_UINT8: v.push_back(x.flat<tf::uint8>()(k)); break;
      case tf::DT_INT32: v.push_back(x.flat<int32_t>()(k)); break;
      default: v.push_back(-777);
    }
  }
  return {Obj().add("dims", dims).add("v", v).str()};
}

// op name hex(config) n tensors  -> {"out": [...]} or {"error": ...}
std::string OpOp(In& in) {
  const std::string name = in.tok();
  const std::string config = in.bytes();
  std::vector<tf::Tensor> ins(in.i());
  for (auto& x : ins) x = ReadTensor(in);
  static Cpu* cpu = new Cpu;
  tf::NodeDef def;
  tf::NodeDefBuilder b("n", name);
  for (size_t k = 0; k < ins.size(); ++k) b.Input("in" + std::to_string(k), 0, ins[k].dtype());
  b.Attr("config", config);
  auto st = b.Finalize(&def);
  if (!st.ok()) return Obj().add("error", st.ToString()).str();
  tf::Status status;
  auto kernel = tf::CreateOpKernel(tf::DeviceType("CPU"), cpu, tf::cpu_allocator(), def,
                                   TF_GRAPH_DEF_VERSION, &status);
  if (!status.ok()) return Obj().add("error", status.ToString()).str();
  tf::OpKernelContext::Params p;
  p.device = cpu;
  p.op_kernel = kernel.get();
  tf::gtl::InlinedVector<tf::TensorValue, 4> vals;
  for (auto& x : ins) vals.push_back(tf::TensorValue(&x));
  p.inputs = vals;
  std::vector<tf::AllocatorAttributes> attrs(kernel->num_outputs());
  p.output_attr_array = attrs.data();
  tf::OpKernelContext ctx(&p);
  kernel->Compute(&ctx);
  if (!ctx.status().ok()) return Obj().add("error", ctx.status().ToString()).str();
  std::vector<Raw> out;
  for (int k = 0; k < kernel->num_outputs(); ++k) {
    out.push_back(ctx.mutable_output(k) ? Show(*ctx.mutable_output(k)) : Raw{"null"});
  }
  return Obj().add("out", out).str();
}

using Frames = std::vector<std::vector<co::Object>>;
Frames ReadFrames(In& in) {
  Frames f(in.i());
  for (auto& x : f) x = in.protos<co::Object>();
  return f;
}

Raw Vec(std::vector<int> dims, const std::vector<double>& v) {
  return {Obj().add("dims", dims).add("v", v).str()};
}

float F(double x) { return x; }

// det hex(config) frames(pds) frames(gts): what the library says, as the op lays it out
std::string OpDet(In& in) {
  auto config = in.proto<co::Config>();
  const auto pds = ReadFrames(in);
  const auto gts = ReadFrames(in);
  if (config.score_cutoffs_size() == 0) config = co::EstimateScoreCutoffs(config, pds, gts);
  const auto ms = co::ComputeDetectionMetrics(config, pds, gts);
  const int nb = ms.size(), nc = config.score_cutoffs_size();
  std::vector<double> ap, aph, apl, pr, prh, prl, br, state;
  for (const auto& m : ms) {
    ap.push_back(m.mean_average_precision());
    aph.push_back(m.mean_average_precision_ha_weighted());
    apl.push_back(m.mean_average_precision_longitudinal_affinity_weighted());
    br.push_back(m.breakdown().generator_id());
    br.push_back(m.breakdown().shard());
    br.push_back(m.breakdown().difficulty_level());
    for (int k = 0; k < nc; ++k) {
      const auto& x = m.measurements().measurements(k);
      for (double y : {F(m.precisions(k)), F(m.recalls(k)), F(x.num_tps()), F(x.num_fps()), F(x.num_fns())}) pr.push_back(y);
      for (double y : {F(m.precisions_ha_weighted(k)), F(m.recalls_ha_weighted(k))}) prh.push_back(y);
      for (double y : {F(m.precisions_longitudinal_affinity_weighted(k)), F(m.recalls_longitudinal_affinity_weighted(k))}) prl.push_back(y);
      for (double y : {F(x.num_fps()), F(x.num_tps()), F(x.num_fns()), F(x.sum_ha()), F(x.sum_longitudinal_affinity())}) state.push_back(y);
    }
  }
  return Obj().add("out", std::vector<Raw>{Vec({nb}, ap), Vec({nb}, aph), Vec({nb}, apl), Vec({nb, nc, 5}, pr),
                                           Vec({nb, nc, 2}, prh), Vec({nb, nc, 2}, prl), Vec({nb, 3}, br)})
      .add("state", Vec({nb, nc, 5}, state)).str();
}

// track hex(config) n {frames(pds) frames(gts)}
std::string OpTrack(In& in) {
  auto config = in.proto<co::Config>();
  std::vector<Frames> pds, gts;
  for (int n = in.i(); n > 0; --n) {
    pds.push_back(ReadFrames(in));
    gts.push_back(ReadFrames(in));
  }
  if (config.score_cutoffs_size() == 0) config = co::EstimateScoreCutoffs(config, pds, gts);
  const auto ms = co::ComputeTrackingMetrics(config, pds, gts);
  const int nb = ms.size();
  std::vector<double> a, b, c, d, e, f, br;
  for (const auto& m : ms) {
    a.push_back(m.mota());
    b.push_back(m.motp());
    c.push_back(m.miss());
    d.push_back(m.mismatch());
    e.push_back(m.fp());
    f.push_back(m.score_cutoff());
    br.push_back(m.breakdown().generator_id());
    br.push_back(m.breakdown().shard());
    br.push_back(m.breakdown().difficulty_level());
  }
  return Obj().add("out", std::vector<Raw>{Vec({nb}, a), Vec({nb}, b), Vec({nb}, c), Vec({nb}, d), Vec({nb}, e), Vec({nb}, f), Vec({nb, 3}, br)}).str();
}

// match hex(config) pds gts: pairs the library forms among these objects
std::string OpMatch(In& in) {
  const auto config = in.proto<co::Config>();
  const auto pds = in.protos<co::Object>();
  const auto gts = in.protos<co::Object>();
  auto m = co::Matcher::Create(config);
  m->SetPredictions(pds);
  m->SetGroundTruths(gts);
  std::vector<int> a(pds.size()), b(gts.size()), match, back, pi, gi;
  for (size_t k = 0; k < a.size(); ++k) a[k] = k;
  for (size_t k = 0; k < b.size(); ++k) b[k] = k;
  m->SetPredictionSubset(a);
  m->SetGroundTruthSubset(b);
  m->Match(&match, &back);
  std::vector<double> iou, la;
  for (size_t k = 0; k < match.size(); ++k) {
    if (match[k] < 0) continue;
    pi.push_back(k);
    gi.push_back(match[k]);
    iou.push_back(m->IoU(k, match[k]));
    la.push_back(m->LongitudinalAffinity(k, match[k]));
  }
  return Obj().add("pd", pi).add("gt", gi).add("iou", iou).add("la", la).str();
}

absl::optional<const tf::Tensor> Maybe(In& in) {
  if (!in.i()) return absl::nullopt;
  return ReadTensor(in);
}

// parse bbox type frame score? nlz? det? trk? speed?
std::string OpParse(In& in) {
  const auto bbox = ReadTensor(in), type = ReadTensor(in), frame = ReadTensor(in);
  const auto score = Maybe(in), nlz = Maybe(in), det = Maybe(in), trk = Maybe(in), speed = Maybe(in);
  std::vector<Raw> out;
  for (const auto& kv : co::ParseObjectFromTensors(bbox, type, frame, score, nlz, det, trk, speed)) {
    out.push_back({Obj().add("f", static_cast<long long>(kv.first)).raw("objs", vh::PJ(kv.second)).str()});
  }
  return Obj().add("groups", out).str();
}

// parseseq bbox type frame seq id score? nlz? det? trk? speed?
std::string OpParseSeq(In& in) {
  const auto bbox = ReadTensor(in), type = ReadTensor(in), frame = ReadTensor(in), seq = ReadTensor(in), id = ReadTensor(in);
  const auto score = Maybe(in), nlz = Maybe(in), det = Maybe(in), trk = Maybe(in), speed = Maybe(in);
  std::vector<Raw> out;
  for (const auto& s : co::ParseObjectGroupedBySequenceFromTensors(bbox, type, frame, seq, id, score, nlz, det, trk, speed)) {
    for (const auto& kv : s.second) {
      out.push_back({Obj().add("s", vh::Hex(s.first)).add("f", static_cast<long long>(kv.first)).raw("objs", vh::PJ(kv.second)).str()});
    }
  }
  return Obj().add("groups", out).str();
}

// parsemotion 9 tensors
std::string OpParseMotion(In& in) {
  std::vector<tf::Tensor> t(9);
  for (auto& x : t) x = ReadTensor(in);
  std::vector<Raw> out;
  for (const auto& kv : co::ParseScenarioAndPredictonsFromTensors(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8])) {
    out.push_back({Obj().add("id", kv.first).add("scenario", vh::Hex(kv.second.first.SerializeAsString()))
                       .add("predictions", vh::Hex(kv.second.second.SerializeAsString())).str()});
  }
  return Obj().add("scenarios", out).str();
}

// motion hex(config) n {scenario predictions}: per type and configured step
std::string OpMotion(In& in) {
  const auto config = in.proto<co::MotionMetricsConfig>();
  co::BucketedMetricsStats total;
  for (int n = in.i(); n > 0; --n) {
    const auto s = in.proto<co::Scenario>();
    const auto p = in.proto<co::ScenarioPredictions>();
    co::BucketedMetricsStats one;
    const auto st = co::ComputeMetricsStats(config, p, s, &one);
    if (!st.ok()) return Obj().add("error", std::string(st.message())).str();
    total.Accumulate(one);
  }
  const auto ms = co::ComputeMotionMetrics(&total);
  std::vector<Raw> out;
  for (const auto& b : ms.metrics_bundles()) {
    out.push_back({Obj().add("type", b.has_object_filter() ? static_cast<int>(b.object_filter()) : -1)
                       .add("step", static_cast<int>(b.measurement_step()))
                       .add("v", std::vector<double>{F(b.min_ade()), F(b.min_fde()), F(b.miss_rate()), F(b.overlap_rate()), F(b.mean_average_precision())}).str()});
  }
  return Obj().add("bundles", out).str();
}

}  // namespace

int main() {
  return vh::Serve({{"op", OpOp}, {"det", OpDet}, {"track", OpTrack}, {"match", OpMatch}, {"parse", OpParse},
                    {"parseseq", OpParseSeq}, {"parsemotion", OpParseMotion}, {"motion", OpMotion}});
}
