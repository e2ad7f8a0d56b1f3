// Stands in for the schema that the build generates from the documentation of the operators.
#include <nlohmann/json.hpp>
inline nlohmann::json rtbot_schema = [] {
  using nlohmann::json;
  json one = json::array();
  const char* required[][2] = {{"Add", "value"}, {"Scale", "value"}, {"MovingAverage", "n"}, {"Power", "value"}, {"EqualTo", "value"}};
  for (const char* t : {"Input", "Output", "Identity", "Constant", "Add", "Scale", "Power", "Count", "CumulativeSum", "TimeShift", "EqualTo",
                        "GreaterThan", "LessThan", "MovingAverage", "StandardDeviation", "FiniteImpulseResponse", "Difference", "PeakDetector",
                        "AutoRegressive", "RelativeStrengthIndex", "ConstantResampler", "CosineResampler", "HermiteResampler", "Function",
                        "Join", "Plus", "Minus", "Multiplication", "Division", "And", "Or", "GreaterThanStream", "LessThanStream", "Linear",
                        "Demultiplexer", "Variable", "Pipeline", "Composite"}) {
    json s = {{"type", "object"}, {"properties", {{"type", {{"type", "string"}}}, {"id", {{"type", "string"}}}}}};
    s["properties"]["type"]["enum"] = json::array({t});
    s["required"] = json::array({"id", "type"});
    for (auto& r : required)
      if (std::string(r[0]) == t) {
        s["required"].push_back(r[1]);
        s["properties"][r[1]]["type"] = "number";
      }
    one.push_back(s);
  }
  json s;
  s["type"] = "object";
  s["required"] = json::array({"operators", "connections", "entryOperator"});
  s["properties"]["entryOperator"]["type"] = "string";
  s["properties"]["operators"]["type"] = "array";
  s["properties"]["operators"]["items"]["type"] = "object";
  s["properties"]["operators"]["items"]["oneOf"] = one;
  s["properties"]["connections"]["type"] = "array";
  s["properties"]["connections"]["items"]["type"] = "object";
  s["properties"]["connections"]["items"]["required"] = json::array({"from", "to"});
  return s;
}();
