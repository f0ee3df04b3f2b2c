// Drives the camera model: one camera object per request, prepared and queried in turn.
#include "common.h"

#include "waymo_open_dataset/dataset.pb.h"
#include "waymo_open_dataset/wdl_limited/camera/camera_model.h"

using namespace waymo::open_dataset;  // NOLINT
using vh::In;
using vh::Obj;
using vh::Raw;

namespace {

constexpr double kUnset = -987654;

// cam calibration n {prepare image | world u v depth check | image x y z vx vy vz check how | vehicle u v depth | in u v}
std::string OpCam(In& in) {
  const auto calib = in.proto<CameraCalibration>();
  CameraModel m(calib);
  const bool rolling = calib.rolling_shutter_direction() != CameraCalibration::GLOBAL_SHUTTER;
  const int n = in.i();
  std::vector<Raw> out;
  for (int k = 0; k < n; ++k) {
    const std::string op = in.tok();
    Obj o;
    if (op == "prepare") {
      m.PrepareProjection(in.proto<CameraImage>());
      o.add("offset", rolling ? m.t_pose_offset() : 0.0);
    } else if (op == "world") {
      const double u = in.d(), v = in.d(), d = in.d();
      const bool check = in.i();
      double x = kUnset, y = kUnset, z = kUnset, bu = kUnset, bv = kUnset, bd = kUnset;
      m.ImageToWorld(u, v, d, &x, &y, &z);
      const bool ok = m.WorldToImageWithDepth(x, y, z, check, &bu, &bv, &bd);
      o.add("p", std::vector<double>{x, y, z}).add("ok", ok).add("uvd", std::vector<double>{bu, bv, bd});
    } else if (op == "image") {
      double p[6];
      for (double& q : p) q = in.d();
      const bool check = in.i();
      const int how = in.i();
      double u = kUnset, v = kUnset, d = kUnset;
      bool ok;
      if (how == 0) {
        ok = m.WorldToImageMovingPointWithDepth(p[0], p[1], p[2], p[3], p[4], p[5], check, &u, &v, &d);
      } else if (how == 1) {
        ok = m.WorldToImageWithDepth(p[0], p[1], p[2], check, &u, &v, &d);
      } else {
        double u2, v2;
        ok = m.WorldToImage(p[0], p[1], p[2], check, &u, &v);
        m.WorldToImageWithDepth(p[0], p[1], p[2], check, &u2, &v2, &d);
      }
      double x = kUnset, y = kUnset, z = kUnset;
      if (d > 0) m.ImageToWorld(u, v, d, &x, &y, &z);
      o.add("ok", ok).add("uvd", std::vector<double>{u, v, d}).add("back", std::vector<double>{x, y, z});
    } else if (op == "vehicle") {
      const double u = in.d(), v = in.d(), d = in.d();
      double x = kUnset, y = kUnset, z = kUnset;
      m.ImageToVehicleGlobalShutter(u, v, d, &x, &y, &z);
      o.add("p", std::vector<double>{x, y, z});
    } else {
      const double u = in.d(), v = in.d();
      o.add("ok", m.InImage(u, v));
    }
    out.push_back(Raw{o.str()});
  }
  return Obj().add("out", out).str();
}

}  // namespace

int main() { return vh::Serve({{"cam", OpCam}}); }
