// Drives ScenarioToExample.
#include "common.h"

#include "tensorflow/core/example/example.pb.h"
#include "tensorflow/core/example/feature.pb.h"
#include "waymo_open_dataset/data_conversion/scenario_conversion.h"

using namespace waymo::open_dataset;  // NOLINT
using vh::In;
using vh::Obj;

namespace {

// convert scenario config counters?: every feature of the example, as it is
std::string OpConvert(In& in) {
  const auto scenario = in.proto<Scenario>();
  const auto config = in.proto<MotionExampleConversionConfig>();
  std::map<std::string, int> counters;
  const auto r = ScenarioToExample(scenario, config, in.i() ? &counters : nullptr);
  if (!r.ok()) return Obj().add("ok", false).add("code", static_cast<int>(r.status().code())).str();
  Obj f, c;
  for (const auto& kv : r->features().feature()) {
    std::string v = "[";
    auto put = [&v](const std::string& s) { v += (v.size() > 1 ? "," : "") + s; };
    for (float x : kv.second.float_list().value()) put(vh::J(x));
    for (auto x : kv.second.int64_list().value()) put(std::to_string(x));
    for (const auto& x : kv.second.bytes_list().value()) put(vh::J(x));
    f.raw(kv.first, v + "]");
  }
  for (const auto& kv : counters) c.add(kv.first, kv.second);
  return Obj().add("ok", true).raw("f", f.str()).raw("c", c.str()).str();
}

}  // namespace

int main() { return vh::Serve({{"convert", OpConvert}}); }
