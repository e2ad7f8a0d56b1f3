// Stands in for the JSON-schema validator library, which is not part of this tree: the parts of JSON schema that
// driver/shim/rtbot/jsonschema.hpp uses (type, required, properties, items, oneOf, enum).
#pragma once
#include <functional>
#include <nlohmann/json.hpp>
#include <stdexcept>
#include <string>
namespace nlohmann {
namespace json_schema {
inline void default_string_format_check(const std::string&, const std::string&) {}
class json_validator {
  json root;
  bool have = false;
  static void fail(const std::string& at, const std::string& why) { throw std::invalid_argument("schema violation at '" + at + "': " + why); }
  static void check(const json& s, const json& d, const std::string& at) {
    if (s.contains("type")) {
      const std::string t = s["type"];
      bool ok = t == "object" ? d.is_object() : t == "array" ? d.is_array() : t == "string" ? d.is_string() : t == "number" ? d.is_number()
              : t == "integer" ? d.is_number_integer() : t == "boolean" ? d.is_boolean() : true;
      if (!ok) fail(at, "not of type " + t);
    }
    if (s.contains("enum")) {
      bool ok = false;
      for (auto& e : s["enum"]) ok = ok || e == d;
      if (!ok) fail(at, "not one of the enumerated values");
    }
    if (s.contains("required") && d.is_object())
      for (auto& k : s["required"])
        if (!d.contains(k.get<std::string>())) fail(at, "required property '" + k.get<std::string>() + "' not found");
    if (s.contains("properties") && d.is_object())
      for (auto& [k, v] : s["properties"].items())
        if (d.contains(k)) check(v, d.at(k), at + "/" + k);
    if (s.contains("items") && d.is_array())
      for (size_t i = 0; i < d.size(); i++) check(s["items"], d[i], at + "/" + std::to_string(i));
    if (s.contains("oneOf")) {
      int n = 0;
      for (auto& o : s["oneOf"]) {
        try { check(o, d, at); n++; } catch (const std::invalid_argument&) {}
      }
      if (n != 1) fail(at, std::to_string(n) + " alternatives match instead of one");
    }
  }

 public:
  template <class A, class B>
  json_validator(A, B) {}
  void set_root_schema(const json& s) { root = s; have = true; }
  json validate(const json& d) const {
    if (!have) throw std::invalid_argument("no root schema");
    check(root, d, "");
    return json();
  }
};
}  // namespace json_schema
}  // namespace nlohmann
