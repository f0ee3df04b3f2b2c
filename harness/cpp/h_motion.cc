// Drives the motion prediction metrics library.
#include "common.h"

#include "absl/container/flat_hash_map.h"
#include "waymo_open_dataset/metrics/motion_metrics.h"
#include "waymo_open_dataset/metrics/motion_metrics_utils.h"
#include "waymo_open_dataset/protos/motion_metrics.pb.h"
#include "waymo_open_dataset/protos/motion_submission.pb.h"
#include "waymo_open_dataset/protos/scenario.pb.h"

using namespace waymo::open_dataset;  // NOLINT
using vh::In;
using vh::Obj;
using vh::Raw;

namespace {

const char* kShape[] = {"STATIONARY", "STRAIGHT", "STRAIGHT_RIGHT", "STRAIGHT_LEFT",
                        "RIGHT_TURN", "LEFT_TURN", "LEFT_U_TURN", "RIGHT_U_TURN"};
const TrajectoryType kOrder[] = {
    TrajectoryType::STATIONARY, TrajectoryType::STRAIGHT, TrajectoryType::STRAIGHT_RIGHT,
    TrajectoryType::STRAIGHT_LEFT, TrajectoryType::RIGHT_TURN, TrajectoryType::LEFT_TURN,
    TrajectoryType::LEFT_U_TURN, TrajectoryType::RIGHT_U_TURN};

std::string Acc(const Accumulator& a) {
  return "[" + vh::J(a.total) + "," + vh::J(a.num_measurements) + "]";
}

// Buckets in the order of kShape.
std::string Buckets(const MeanAveragePrecisionStats& s) {
  std::vector<Raw> v;
  if (!s.pr_buckets.empty()) {
    for (const TrajectoryType t : kOrder) {
      PredictionStats b = s.pr_buckets[t];
      std::vector<Raw> x;
      for (const auto& p : b.samples)
        x.push_back({"[" + vh::J(p.confidence) + "," + vh::J(p.true_positive) + "]"});
      const double ap = b.num_trajectories ? ComputeMeanAveragePrecision(&b) : -1;
      v.push_back({Obj().add("n", b.num_trajectories).add("s", x).add("ap", ap).str()});
    }
  }
  return vh::J(v);
}

std::string Dump(const BucketedMetricsStats& b) {
  std::vector<Raw> v;
  for (const auto& [type, steps] : b.stats) {
    for (const auto& [step, m] : steps) {
      MeanAveragePrecisionStats hard = m.mean_average_precision;
      MeanAveragePrecisionStats soft = m.soft_mean_average_precision;
      Accumulator probe;
      if (m.custom_metrics.contains("probe")) probe = m.custom_metrics.at("probe");
      v.push_back({Obj().add("type", static_cast<int>(type)).add("step", step)
                       .raw("ade", Acc(m.min_average_displacement))
                       .raw("fde", Acc(m.min_final_displacement))
                       .raw("miss", Acc(m.miss_rate)).raw("ov", Acc(m.overlap_rate))
                       .raw("probe", Acc(probe))
                       .raw("hard", Buckets(hard)).raw("soft", Buckets(soft))
                       .add("map", ComputeMapMetric(&hard)).add("smap", ComputeMapMetric(&soft)).str()});
    }
  }
  return vh::J(v);
}

std::string Bundles(const MotionMetrics& m) {
  std::vector<Raw> v;
  for (const auto& b : m.metrics_bundles()) {
    auto it = b.custom_metrics().find("probe");
    v.push_back({Obj().add("type", b.has_object_filter() ? static_cast<int>(b.object_filter()) : 0)
                     .add("step", b.measurement_step()).add("ade", b.min_ade()).add("fde", b.min_fde())
                     .add("miss", b.miss_rate()).add("ov", b.overlap_rate())
                     .add("map", b.mean_average_precision()).add("smap", b.soft_mean_average_precision())
                     .add("probe", it == b.custom_metrics().end() ? 0.0 : it->second).str()});
  }
  return vh::J(v);
}

Status Probe(const MotionMetricsConfig& config, const absl::flat_hash_map<int, const Track*>& tracks,
             const Scenario& scenario, int step, const MultimodalPrediction& prediction, MetricsStats& stats) {
  stats.custom_metrics["probe"].Add(prediction.joint_predictions_size() * 10 + step);
  return OkStatus();
}

// eval cfg n {pred scenario} nplans {nmerges {src dst}}
std::string OpEval(In& in) {
  const auto cfg = in.proto<MotionMetricsConfig>();
  const int n = in.i();
  std::vector<ScenarioPredictions> preds;
  std::vector<Scenario> scens;
  std::vector<bool> ok;
  std::vector<BucketedMetricsStats> stats(n);
  std::vector<Raw> items;
  std::vector<std::string> err;
  absl::flat_hash_map<std::string, ScenarioPredictions> pm;
  absl::flat_hash_map<std::string, Scenario> sm;
  for (int k = 0; k < n; ++k) {
    preds.push_back(in.proto<ScenarioPredictions>());
    scens.push_back(in.proto<Scenario>());
    const Status s = ComputeMetricsStats(cfg, preds[k], scens[k], &stats[k], Probe);
    ok.push_back(s.ok());
    err.push_back(std::string(s.message()).substr(0, 120));
    items.push_back({Dump(stats[k])});
    const std::string key = std::to_string(k);
    pm[key] = preds[k];
    sm[key] = scens[k];
  }
  MotionMetrics batch;
  const Status bs = ComputeMotionMetrics(cfg, pm, sm, &batch, Probe);
  const int np = in.i();
  std::vector<Raw> plans;
  for (int p = 0; p < np; ++p) {
    std::vector<BucketedMetricsStats> slot = stats;
    const int m = in.i();
    int last = 0;
    for (int k = 0; k < m; ++k) {
      const int src = in.i(), dst = in.i();
      slot[dst].Accumulate(slot[src]);
      last = dst;
    }
    BucketedMetricsStats whole = slot[last];
    std::map<int, MetricsStats> across = slot[last].AccumulateAcrossTypes();
    BucketedMetricsStats flat;
    flat.stats[Track::TYPE_UNSET] = across;
    plans.push_back({Obj().raw("b", Bundles(ComputeMotionMetrics(&whole)))
                         .raw("a", Bundles(ComputeMotionMetrics(&flat))).str()});
  }
  return Obj().add("ok", ok).add("err", err).add("items", items).add("bok", bs.ok())
      .raw("batch", Bundles(batch)).add("plans", plans).str();
}

// classify n {step track}
std::string OpClassify(In& in) {
  const int n = in.i();
  std::vector<std::string> v;
  for (int k = 0; k < n; ++k) {
    const int step = in.i();
    const auto t = ClassifyTrack(step, in.proto<Track>());
    std::string s = "none";
    if (t.has_value()) {
      s = "other";
      for (int i = 0; i < 8; ++i)
        if (kOrder[i] == *t) s = kShape[i];
    }
    v.push_back(s);
  }
  return Obj().add("v", v).str();
}

// curve total n {conf tp}
std::string OpCurve(In& in) {
  PredictionStats s;
  s.num_trajectories = in.i();
  const int n = in.i();
  for (int k = 0; k < n; ++k) {
    const float c = in.d();
    s.samples.push_back(PredictionSample(c, in.i() != 0));
  }
  PredictionStats t = s;
  std::vector<Raw> curve;
  for (const auto& p : ComputePrCurve(&t.samples, t.num_trajectories))
    curve.push_back({"[" + vh::J(p.recall) + "," + vh::J(p.precision) + "]"});
  return Obj().add("curve", curve).add("ap", ComputeMeanAveragePrecision(&s)).str();
}

std::string OpChallenge(In& in) {
  const auto type = static_cast<MotionChallengeSubmission::SubmissionType>(in.i());
  return Obj().add("ok", ValidateChallengePredictions(in.proto<ScenarioPredictions>(), type).ok()).str();
}

std::string OpConvert(In& in) {
  ScenarioPredictions out;
  const bool ok = ConvertChallengePredictions(in.proto<ChallengeScenarioPredictions>(), &out).ok();
  return Obj().add("ok", ok).add("out", vh::Hex(out.SerializeAsString())).str();
}

}  // namespace

int main() {
  return vh::Serve({{"eval", OpEval}, {"classify", OpClassify}, {"curve", OpCurve},
                    {"challenge", OpChallenge}, {"convert", OpConvert}});
}
