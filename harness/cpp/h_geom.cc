// Drives the box overlap, polygon and longitudinal-tolerance code.
#include "common.h"

#include "waymo_open_dataset/label.pb.h"
#include "waymo_open_dataset/math/polygon2d.h"
#include "waymo_open_dataset/math/segment2d.h"
#include "waymo_open_dataset/math/vec2d.h"
#include "waymo_open_dataset/metrics/iou.h"
#include "waymo_open_dataset/protos/metrics.pb.h"

using namespace waymo::open_dataset;  // NOLINT
using vh::In;
using vh::Obj;
using Let = Config::LongitudinalErrorTolerantConfig;

namespace {

Label::Box Box(In& in) {
  Label::Box b;
  b.set_center_x(in.d());
  b.set_center_y(in.d());
  b.set_center_z(in.d());
  b.set_length(in.d());
  b.set_width(in.d());
  b.set_height(in.d());
  b.set_heading(in.d());
  return b;
}

std::vector<double> BoxV(const Label::Box& b) {
  return {b.center_x(), b.center_y(), b.center_z(), b.length(), b.width(), b.height(), b.heading()};
}

// iou type n {b1 b2}: both directions for every placement of the pair, and through the batch call
std::string OpIou(In& in) {
  const auto type = static_cast<Label::Box::Type>(in.i());
  const int n = in.i();
  std::vector<double> ab, ba, batch;
  std::vector<Label::Box> seconds;
  Label::Box first;
  for (int k = 0; k < n; ++k) {
    const Label::Box a = Box(in), b = Box(in);
    ab.push_back(ComputeIoU(a, b, type));
    ba.push_back(ComputeIoU(b, a, type));
    if (!k) first = a;
    seconds.push_back(b);
  }
  std::vector<double> each;
  for (const auto& b : seconds) each.push_back(ComputeIoU(first, b, type));
  batch = BatchComputeIoU(first, seconds, type);
  return Obj().add("ab", ab).add("ba", ba).add("batch", batch).add("each", each).str();
}

Polygon2d Poly(In& in) {
  std::vector<Vec2d> v(in.i());
  for (auto& p : v) {
    const double x = in.d();
    p = Vec2d(x, in.d());
  }
  return Polygon2d(v);
}

// poly n {P Q}  npoints {x y} (tested against the first P)
std::string OpPoly(In& in) {
  const int n = in.i();
  std::vector<double> pq, qp, ap, aq;
  std::vector<int> inside, maybe;
  Polygon2d p0;
  for (int k = 0; k < n; ++k) {
    const Polygon2d p = Poly(in), q = Poly(in);
    if (!k) p0 = p;
    pq.push_back(p.ComputeIntersectionArea(q));
    qp.push_back(q.ComputeIntersectionArea(p));
    ap.push_back(p.Area());
    aq.push_back(q.Area());
    maybe.push_back(p.MaybeHasIntersectionWith(q));
  }
  const int m = in.i();
  for (int k = 0; k < m; ++k) {
    const double x = in.d();
    inside.push_back(p0.PointInside(x, in.d()));
  }
  return Obj().add("pq", pq).add("qp", qp).add("ap", ap).add("aq", aq).add("inside", inside)
      .add("maybe", maybe).str();
}

// seg x1 y1 x2 y2 x3 y3 x4 y4
std::string OpSeg(In& in) {
  Vec2d p[4];
  for (auto& q : p) {
    const double x = in.d();
    q = Vec2d(x, in.d());
  }
  Vec2d r(0, 0);
  const bool hit = internal::ExactSegmentIntersection(Segment2d(p[0], p[1]), Segment2d(p[2], p[3]), &r);
  return Obj().add("hit", hit).add("x", r.x()).add("y", r.y()).str();
}

// let box_type align sx sy sz pct min pd gt
std::string OpLet(In& in) {
  const auto type = static_cast<Label::Box::Type>(in.i());
  const auto align = static_cast<Let::AlignType>(in.i());
  Let c;
  c.set_enabled(true);
  c.mutable_sensor_location()->set_x(in.d());
  c.mutable_sensor_location()->set_y(in.d());
  c.mutable_sensor_location()->set_z(in.d());
  c.set_longitudinal_tolerance_percentage(in.d());
  c.set_min_longitudinal_tolerance_meter(in.d());
  c.set_align_type(align);
  const Label::Box pd = Box(in), gt = Box(in);
  const auto& s = c.sensor_location();
  const Label::Box pr = TranslateBox(pd, -s.x(), -s.y(), -s.z());
  const Label::Box gr = TranslateBox(gt, -s.x(), -s.y(), -s.z());
  const Label::Box al = AlignedPredictionBox(pr, gr, align);
  return Obj()
      .add("aff", ComputeLongitudinalAffinity(pd, gt, c))
      .add("aff2", GetComputeLongitudinalAffinityFunc(c)(pd, gt))
      .add("al", BoxV(al))
      .add("pr", BoxV(pr))
      .add("iou", ComputeLetIoU(pd, gt, s, align, type))
      .add("iou2", GetComputeLetIoUFunc(s, align, type)(pd, gt))
      .add("plain", ComputeIoU(al, gr, type))
      .add("unaligned", ComputeIoU(pd, gt, type))
      .str();
}

}  // namespace

int main() {
  return vh::Serve({{"iou", OpIou}, {"poly", OpPoly}, {"seg", OpSeg}, {"let", OpLet}});
}
