// Drives the detection/tracking metric libraries through their public headers.
#include "common.h"

#include "waymo_open_dataset/label.pb.h"
#include "waymo_open_dataset/metrics/breakdown_generator.h"
#include "waymo_open_dataset/metrics/config_util.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
#include "waymo_open_dataset/metrics/hungarian.h"
#include "waymo_open_dataset/metrics/matcher.h"
#include "waymo_open_dataset/metrics/metrics_utils.h"
#include "waymo_open_dataset/metrics/mot.h"
#include "waymo_open_dataset/metrics/tracking_metrics.h"
#include "waymo_open_dataset/protos/metrics.pb.h"

using namespace waymo::open_dataset;  // NOLINT
using vh::In;
using vh::J;
using vh::Obj;
using vh::PJ;

namespace {

// An IoU table in parts per million, looked up by the boxes' heights (1e-6 * (index + 1)).
struct Table {
  int np = 0, ng = 0;
  std::vector<int> v;
  void read(In& in) {
    np = in.i();
    ng = in.i();
    v.resize(np * ng);
    for (auto& x : v) x = in.i();
  }
  ComputeIoUFunc func() const {
    Table t = *this;
    return [t](const Label::Box& p, const Label::Box& g) -> float {
      const int i = std::lround(p.height() * 1e6) - 1, j = std::lround(g.height() * 1e6) - 1;
      if (i < 0 || i >= t.np || j < 0 || j >= t.ng) std::_Exit(98);
      return t.v[i * t.ng + j] / 1e6;
    };
  }
};

std::vector<float> Ppm(const std::vector<int>& v) {
  std::vector<float> r;
  for (int x : v) r.push_back(x / 1e6);
  return r;
}

Object MakeObject(int index, int type, double score) {
  Object o;
  o.mutable_object()->set_type(static_cast<Label::Type>(type));
  o.mutable_object()->set_id("o" + std::to_string(index));
  auto* b = o.mutable_object()->mutable_box();
  b->set_center_x(0);
  b->set_center_y(0);
  b->set_center_z(0);
  b->set_length(1);
  b->set_width(1);
  b->set_height(1e-6 * (index + 1));
  b->set_heading(0);
  o.set_score(score);
  return o;
}

// match <H|S|L|M> thr[5 ppm] np {type score_ppm} ng {type} table [affinity table ppm when L or M]
//   npsets {objects} ngsets {objects}
//   nsteps { pset gset pd_subset gt_subset nulls(0 both,1 pd only,2 gt only) reuse }
std::string OpMatch(In& in) {
  const std::string kind = in.tok();
  const std::vector<float> thr = Ppm(in.ints());
  const int np = in.i();
  std::vector<Object> pds, gts;
  for (int i = 0; i < np; ++i) {
    int t = in.i();
    double s = in.i() / 1e6;
    pds.push_back(MakeObject(i, t, s));
  }
  const int ng = in.i();
  for (int i = 0; i < ng; ++i) gts.push_back(MakeObject(i, in.i(), 1.0));
  Table table, aff;
  table.read(in);
  const bool let = kind == "L" || kind == "M";
  const MatcherProto_Type type =
      (kind == "S" || kind == "M") ? MatcherProto::TYPE_SCORE_FIRST : MatcherProto::TYPE_HUNGARIAN;
  std::unique_ptr<Matcher> m;
  if (let) {
    aff.read(in);
    Config::LongitudinalErrorTolerantConfig c;
    c.set_enabled(true);
    c.mutable_sensor_location()->set_x(0);
    c.mutable_sensor_location()->set_y(0);
    c.mutable_sensor_location()->set_z(0);
    c.set_longitudinal_tolerance_percentage(0.1);
    c.set_min_longitudinal_tolerance_meter(0.5);
    m = Matcher::Create(type, thr, Label::Box::TYPE_3D, c);
    auto f = aff.func();
    m->SetCustomLongitudinalAffinityFunc(f);
  } else {
    m = Matcher::Create(type, thr, Label::Box::TYPE_3D);
  }
  m->SetCustomIoUComputeFunc(table.func());
  std::vector<std::vector<Object>> psets(in.i());
  for (auto& x : psets)
    for (int k : in.ints()) x.push_back(pds[k]);
  std::vector<std::vector<Object>> gsets(in.i());
  for (auto& x : gsets)
    for (int k : in.ints()) x.push_back(gts[k]);
  int curp = -1, curg = -1;
  const int steps = in.i();
  std::vector<int> pm, gm;
  std::string out = "[";
  for (int k = 0; k < steps; ++k) {
    const int ps = in.i(), gs = in.i();
    if (ps != curp) m->SetPredictions(psets[curp = ps]);
    if (gs != curg) m->SetGroundTruths(gsets[curg = gs]);
    m->SetPredictionSubset(in.ints());
    m->SetGroundTruthSubset(in.ints());
    const int nulls = in.i();
    const int reuse = in.i();
    if (!reuse) {
      pm.clear();
      gm.clear();
    }
    m->Match(nulls == 2 ? nullptr : &pm, nulls == 1 ? nullptr : &gm);
    if (k) out += ",";
    Obj o;
    o.add("pm", nulls == 2 ? std::vector<int>{} : pm);
    o.add("gm", nulls == 1 ? std::vector<int>{} : gm);
    out += o.str();
  }
  return "{\"steps\":" + out + "]}";
}

// hung n edge[n*n]
std::string OpHungarian(In& in) {
  const int n = in.i();
  std::vector<int> e(n * n), perm(n, -7), perm2(n, -7), lx(n), ly(n);
  for (auto& x : e) x = in.i();
  Hungarian(n, e.data(), perm.data());
  Hungarian(n, e.data(), perm2.data(), lx.data(), ly.data());
  return Obj().add("perm", perm).add("perm2", perm2).add("lx", lx).add("ly", ly).str();
}

std::string MeasJson(const TrackingMeasurement& m) {
  Obj o;
  o.add("miss", (int)m.num_misses()).add("fp", (int)m.num_fps());
  o.add("mm", (int)m.num_mismatches()).add("match", (int)m.num_matches());
  o.add("gt", (int)m.num_objects_gt());
  o.add("cost", (long long)std::llround(m.matching_cost() * 1e6));
  o.add("nd", m.details_size());
  return o.str();
}

// mot <H|S> thr[5] level details nframes { ng {id type tdiff(-1: unset)} np {id type nlz score_ppm}
//   table  gsub psub }
std::string OpMot(In& in) {
  const std::string kind = in.tok();
  const std::vector<float> thr = Ppm(in.ints());
  const int level = in.i();
  const int details = in.i();
  const int nframes = in.i();
  MOT mot;
  std::string out = "[";
  for (int f = 0; f < nframes; ++f) {
    std::vector<Object> pds, gts;
    const int ng = in.i();
    for (int i = 0; i < ng; ++i) {
      const std::string id = in.tok();
      const int type = in.i();
      const int td = in.i();
      const int dd = in.i();
      Object o = MakeObject(i, type, 1.0);
      o.mutable_object()->set_id(id);
      if (td >= 0)
        o.mutable_object()->set_tracking_difficulty_level(static_cast<Label::DifficultyLevel>(td));
      if (dd >= 0)
        o.mutable_object()->set_detection_difficulty_level(static_cast<Label::DifficultyLevel>(dd));
      gts.push_back(o);
    }
    const int np = in.i();
    for (int i = 0; i < np; ++i) {
      const std::string id = in.tok();
      const int type = in.i();
      const int nlz = in.i();
      const double s = in.i() / 1e6;
      Object o = MakeObject(i, type, s);
      o.mutable_object()->set_id(id);
      if (nlz >= 0) o.set_overlap_with_nlz(nlz != 0);
      pds.push_back(o);
    }
    Table t;
    t.read(in);
    const std::vector<int> gsub = in.ints();
    const std::vector<int> psub = in.ints();
    auto m = Matcher::Create(
        kind == "S" ? MatcherProto::TYPE_SCORE_FIRST : MatcherProto::TYPE_HUNGARIAN, thr,
        Label::Box::TYPE_3D);
    m->SetCustomIoUComputeFunc(t.func());
    m->SetPredictions(pds);
    m->SetGroundTruths(gts);
    m->SetPredictionSubset(psub);
    m->SetGroundTruthSubset(gsub);
    mot.Eval(m.get(), static_cast<Label::DifficultyLevel>(level), details != 0);
    const TrackingMeasurement me = mot.measurement();
    if (f) out += ",";
    Obj o;
    o.raw("m", MeasJson(me));
    std::vector<std::string> tg, tp, fn, fp;
    if (me.details_size() > 0) {
      const auto& d = me.details(me.details_size() - 1);
      tg.assign(d.tp_gt_ids().begin(), d.tp_gt_ids().end());
      tp.assign(d.tp_pred_ids().begin(), d.tp_pred_ids().end());
      fn.assign(d.fn_gt_ids().begin(), d.fn_gt_ids().end());
      fp.assign(d.fp_pred_ids().begin(), d.fp_pred_ids().end());
    }
    o.add("tg", tg).add("tp", tp).add("fn", fn).add("fpi", fp);
    out += o.str();
  }
  return "{\"frames\":" + out + "]}";
}

std::vector<std::vector<Object>> Frames(In& in) {
  std::vector<std::vector<Object>> v(in.i());
  for (auto& x : v) x = in.protos<Object>();
  return v;
}

std::vector<std::vector<std::vector<Object>>> Scenes(In& in) {
  std::vector<std::vector<std::vector<Object>>> v(in.i());
  for (auto& x : v) x = Frames(in);
  return v;
}

ComputeIoUFunc MaybeTable(In& in) {
  if (!in.i()) return nullptr;
  Table t;
  t.read(in);
  return t.func();
}

std::string OpDetMeas(In& in) {
  const Config c = in.proto<Config>();
  const auto pds = in.protos<Object>();
  const auto gts = in.protos<Object>();
  return Obj().raw("r", PJ(ComputeDetectionMeasurements(c, pds, gts, MaybeTable(in)))).str();
}

std::string OpDetMetrics(In& in) {
  const Config c = in.proto<Config>();
  const auto pds = Frames(in);
  const auto gts = Frames(in);
  return Obj().raw("r", PJ(ComputeDetectionMetrics(c, pds, gts, MaybeTable(in)))).str();
}

std::string OpDetMerge(In& in) {
  const Config c = in.proto<Config>();
  std::vector<std::vector<DetectionMeasurements>> v(in.i());
  for (auto& x : v) x = in.protos<DetectionMeasurements>();
  return Obj().raw("r", PJ(MergeDetectionMeasurements(c, v))).str();
}

std::string OpDetFromMeas(In& in) {
  const Config c = in.proto<Config>();
  std::vector<std::vector<DetectionMeasurements>> v(in.i());
  for (auto& x : v) x = in.protos<DetectionMeasurements>();
  return Obj().raw("r", PJ(ComputeDetectionMetrics(c, v))).str();
}

std::string OpDetEst(In& in) {
  const Config c = in.proto<Config>();
  const auto pds = Frames(in);
  const auto gts = Frames(in);
  return Obj().raw("r", PJ(std::vector<Config>{EstimateScoreCutoffs(c, pds, gts)})).str();
}

std::string OpTrkMeas(In& in) {
  const Config c = in.proto<Config>();
  const auto pds = Frames(in);
  const auto gts = Frames(in);
  return Obj().raw("r", PJ(ComputeTrackingMeasurements(c, pds, gts))).str();
}

std::string OpTrkFromMeas(In& in) {
  const Config c = in.proto<Config>();
  std::vector<std::vector<TrackingMeasurements>> v(in.i());
  for (auto& x : v) x = in.protos<TrackingMeasurements>();
  return Obj().raw("r", PJ(ComputeTrackingMetrics(c, v))).str();
}

std::string OpTrkMetrics(In& in) {
  const Config c = in.proto<Config>();
  const auto pds = Scenes(in);
  const auto gts = Scenes(in);
  return Obj().raw("r", PJ(ComputeTrackingMetrics(c, pds, gts))).str();
}

std::string OpTrkEst(In& in) {
  const Config c = in.proto<Config>();
  const auto pds = Scenes(in);
  const auto gts = Scenes(in);
  return Obj().raw("r", PJ(std::vector<Config>{EstimateScoreCutoffs(c, pds, gts)})).str();
}

// bginfo id
std::string OpBgInfo(In& in) {
  auto g = BreakdownGenerator::Create(static_cast<Breakdown::GeneratorId>(in.i()));
  std::vector<std::string> names;
  for (int i = 0; i < g->NumShards(); ++i) names.push_back(g->ShardName(i));
  return Obj().add("id", (int)g->Id()).add("n", g->NumShards()).add("names", names)
      .add("gtonly", g->IsGroundTruthOnlyBreakdown()).str();
}

// bgshard id n objs
std::string OpBgShard(In& in) {
  const auto id = static_cast<Breakdown::GeneratorId>(in.i());
  auto g = BreakdownGenerator::Create(id);
  std::vector<int> shard;
  std::vector<std::vector<int>> match;
  std::vector<std::vector<int>> inb;
  for (const auto& o : in.protos<Object>()) {
    shard.push_back(g->Shard(o));
    match.push_back(g->ShardsForMatching(o));
    std::vector<int> b;
    for (int i = 0; i < g->NumShards(); ++i) {
      Breakdown bd;
      bd.set_generator_id(id);
      bd.set_shard(i);
      bd.set_difficulty_level(Label::LEVEL_2);
      if (internal::IsInBreakdown(o, bd)) b.push_back(i);
    }
    inb.push_back(b);
  }
  return Obj().add("shard", shard).add("match", match).add("inb", inb).str();
}

std::string OpNames(In& in) {
  return Obj().add("names", GetBreakdownNamesFromConfig(in.proto<Config>())).str();
}

std::string OpMotionNames(In& in) {
  return Obj().add("names", GetBreakdownNamesFromMotionConfig(in.proto<MotionMetricsConfig>())).str();
}

// subsets cfg is_gt is_det objs
std::string OpSubsets(In& in) {
  const Config c = in.proto<Config>();
  const bool is_gt = in.i(), is_det = in.i();
  const auto objs = in.protos<Object>();
  std::string out = "[";
  for (const auto& s : internal::BuildSubsets(c, objs, is_gt, is_det)) {
    if (out.size() > 1) out += ",";
    out += Obj().add("idx", s.indices).add("g", s.breakdown_generator_id_index)
               .add("s", s.breakdown_shard).str();
  }
  return "{\"r\":" + out + "]}";
}

std::string OpCutoffs(In& in) {
  const auto s = in.floats();
  const int n = in.i();
  return Obj().add("r", internal::DecideScoreCutoffs(s, n)).str();
}

std::string OpMap(In& in) {
  const auto p = in.floats();
  const auto r = in.floats();
  const double d = in.d();
  return Obj().add("r", internal::ComputeMeanAveragePrecision(p, r, d)).str();
}

std::string OpSpeed(In& in) {
  const auto p = in.protos<Object>();
  const auto g = in.protos<Object>();
  return Obj().raw("r", PJ(internal::EstimateObjectSpeed(p, g))).str();
}

// heading h1 h2
std::string OpHeading(In& in) {
  std::vector<Object> p{MakeObject(0, 1, 1.0)}, g{MakeObject(0, 1, 1.0)};
  p[0].mutable_object()->mutable_box()->set_heading(in.d());
  g[0].mutable_object()->mutable_box()->set_heading(in.d());
  auto m = Matcher::Create(MatcherProto::TYPE_HUNGARIAN, {0.5, 0.5, 0.5, 0.5, 0.5},
                           Label::Box::TYPE_3D);
  m->SetPredictions(p);
  m->SetGroundTruths(g);
  return Obj().add("r", internal::ComputeHeadingAccuracy(*m, 0, 0)).str();
}

}  // namespace

int main() {
  return vh::Serve({
      {"match", OpMatch},       {"hung", OpHungarian},     {"mot", OpMot},
      {"detmeas", OpDetMeas},   {"detmetrics", OpDetMetrics}, {"detmerge", OpDetMerge},
      {"detfrom", OpDetFromMeas}, {"detest", OpDetEst},    {"trkmeas", OpTrkMeas},
      {"trkfrom", OpTrkFromMeas}, {"trkmetrics", OpTrkMetrics}, {"trkest", OpTrkEst},
      {"bginfo", OpBgInfo},     {"bgshard", OpBgShard},    {"names", OpNames},
      {"mnames", OpMotionNames}, {"subsets", OpSubsets},   {"cutoffs", OpCutoffs},
      {"map", OpMap},           {"speed", OpSpeed},        {"heading", OpHeading},
  });
}
