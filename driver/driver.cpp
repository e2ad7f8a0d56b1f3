// Scenario interpreter over the real code: executes the commands of a scenario (one per line) on the real
// classes of /repo and prints one line per command.  It decides nothing; vcg/oracle.py compares.
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>
#include <cmath>

#include "rtbot/Operator.h"
#include "rtbot/Input.h"
#include "rtbot/Output.h"
#include "rtbot/Join.h"
#include "rtbot/BinaryJoin.h"
#include "rtbot/Collector.h"
#include "rtbot/Demultiplexer.h"
#include "rtbot/Composite.h"
#include "rtbot/finance/RelativeStrengthIndex.h"
#include "rtbot/std/Add.h"
#include "rtbot/std/And.h"
#include "rtbot/std/AutoRegressive.h"
#include "rtbot/std/Constant.h"
#include "rtbot/std/ConstantResampler.h"
#include "rtbot/std/CosineResampler.h"
#include "rtbot/std/Count.h"
#include "rtbot/std/CumulativeSum.h"
#include "rtbot/std/Difference.h"
#include "rtbot/std/Division.h"
#include "rtbot/std/EqualTo.h"
#include "rtbot/std/FiniteImpulseResponse.h"
#include "rtbot/std/Function.h"
#include "rtbot/std/GreaterThan.h"
#include "rtbot/std/GreaterThanStream.h"
#include "rtbot/std/HermiteResampler.h"
#include "rtbot/std/Identity.h"
#include "rtbot/std/LessThan.h"
#include "rtbot/std/LessThanStream.h"
#include "rtbot/std/Linear.h"
#include "rtbot/std/Minus.h"
#include "rtbot/std/MovingAverage.h"
#include "rtbot/std/Multiplication.h"
#include "rtbot/std/Or.h"
#include "rtbot/std/PeakDetector.h"
#include "rtbot/std/Plus.h"
#include "rtbot/std/Power.h"
#include "rtbot/std/Scale.h"
#include "rtbot/std/StandardDeviation.h"
#include "rtbot/std/TimeShift.h"
#include "rtbot/std/Variable.h"
#ifdef WITH_API
#include "rtbot/FactoryOp.h"
#include "rtbot/Pipeline.h"
#include "rtbot/bindings.h"
#endif

using namespace rtbot;
using std::string;
using std::vector;
using std::map;
typedef uint64_t T;
typedef double V;
typedef Operator<T, V> Op;
typedef Message<T, V> Msg;

static string enc(const string& s) {
  string r;
  char b[4];
  for (unsigned char c : s)
    if (c > 32 && c < 127 && !strchr("%|=,;", c)) r += c;
    else { snprintf(b, 4, "%%%02x", c); r += b; }
  return r.empty() ? "%" : r;
}
static string dec(const string& s) {
  string r;
  if (s == "%" || s == "-") return r;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '%') { r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
    else r += s[i];
  return r;
}
static string num(V v) {
  char b[64];
  if (std::isnan(v)) return "nan";
  snprintf(b, 64, "%.17g", v);
  return b;
}
static string show(const Msg& m) { return std::to_string(m.time) + "@" + num(m.value); }
static string show(const ProgramMessage<T, V>& p) {
  string r = "R";
  for (auto& [id, om] : p) {
    if (om.empty()) r += " " + enc(id) + "|";
    for (auto& [port, ms] : om) {
      r += " " + enc(id) + "|" + enc(port) + "|";
      bool first = true;
      for (auto& m : ms) { r += (first ? "" : ",") + show(m); first = false; }
    }
  }
  return r;
}

static vector<string> events;

// an ordinary user-defined operator: records what reaches it, computes by default nothing
struct Probe : public Op {
  int mode = 0;  // 0: no result, 1: last message of every triggered port on every output, 2: same, first output only
  Probe(string id, int mode) : Op(id), mode(mode) {}
  string typeName() const override { return "Probe"; }
  OperatorMessage<T, V> processData() override {
    OperatorMessage<T, V> out;
    string e = "pd " + enc(id);
    for (auto& p : this->toProcess) {
      auto& in = this->dataInputs.find(p)->second;
      e += " " + enc(p) + "|" + num(this->getDataInputSum(p)) + "|";
      for (size_t i = 0; i < this->getDataInputSize(p); i++) e += (i ? "," : "") + show(this->getDataInputMessage(p, i));
      e += "|" + show(this->getDataInputFirstMessage(p)) + "|" + show(this->getDataInputLastMessage(p));
      (void)in;
      if (mode)
        for (auto& o : this->getOutputs()) {
          out[o].push_back(this->getDataInputLastMessage(p));
          if (mode == 2) break;
        }
    }
    events.push_back(e);
    return out;
  }
  OperatorMessage<T, V> processControl() override {
    events.push_back("pc " + enc(id));
    OperatorMessage<T, V> out;
    if (mode)
      for (auto& c : this->getControlInputs())
        for (auto& o : this->getOutputs()) {
          if (!this->controlInputs.find(c)->second.empty()) out[o].push_back(this->getControlInputLastMessage(c));
          if (mode == 2) break;
        }
    return out;
  }
  void receiveData(Msg m, string p = "") override {
    events.push_back("rd " + enc(id) + " " + enc(p) + " " + show(m));
    Op::receiveData(m, p);
  }
  void receiveControl(Msg m, string p = "") override {
    events.push_back("rc " + enc(id) + " " + enc(p) + " " + show(m));
    Op::receiveControl(m, p);
  }
  ProgramMessage<T, V> executeData() override {
    events.push_back("xd " + enc(id));
    return Op::executeData();
  }
  ProgramMessage<T, V> executeControl() override {
    events.push_back("xc " + enc(id));
    return Op::executeControl();
  }
};

static map<string, std::shared_ptr<Op>> ops;
static map<string, Bytes> saved;
#ifdef WITH_API
static map<string, std::shared_ptr<Program>> progs;
static vector<string> fids;
#endif

static V fnum(const string& s) { return strtod(s.c_str(), 0); }
static T tnum(const string& s) { return strtoull(s.c_str(), 0, 10); }
static vector<V> fvec(const string& s) {
  vector<V> r;
  if (s == "-") return r;
  std::istringstream is(s);
  string w;
  while (getline(is, w, ',')) r.push_back(fnum(w));
  return r;
}

static std::shared_ptr<Op> make(const string& ty, const string& id, const vector<string>& a) {
  auto n = [&](size_t i) { return (size_t)tnum(a.at(i)); };
  auto f = [&](size_t i) { return fnum(a.at(i)); };
  if (ty == "Probe") return std::make_shared<Probe>(id, a.empty() ? 0 : atoi(a[0].c_str()));
  if (ty == "Input") return std::make_shared<Input<T, V>>(id, n(0));
  if (ty == "Output") return std::make_shared<Output<T, V>>(id, n(0));
  if (ty == "Join") return std::make_shared<Join<T, V>>(id, n(0));
  if (ty == "Collector") return std::make_shared<Collector<T, V>>(id, n(0));
  if (ty == "Demultiplexer") return std::make_shared<Demultiplexer<T, V>>(id, n(0));
  if (ty == "Composite") return std::make_shared<Composite<T, V>>(id);
  if (ty == "RelativeStrengthIndex") return std::make_shared<RelativeStrengthIndex<T, V>>(id, n(0));
  if (ty == "Add") return std::make_shared<Add<T, V>>(id, f(0));
  if (ty == "And") return std::make_shared<And<T, V>>(id);
  if (ty == "AutoRegressive") return std::make_shared<AutoRegressive<T, V>>(id, fvec(a.at(0)));
  if (ty == "Constant") return std::make_shared<Constant<T, V>>(id, f(0));
  if (ty == "ConstantResampler") return std::make_shared<ConstantResampler<T, V>>(id, (T)n(0));
  if (ty == "CosineResampler") return std::make_shared<CosineResampler<T, V>>(id, (T)n(0));
  if (ty == "HermiteResampler") return std::make_shared<HermiteResampler<T, V>>(id, (T)n(0));
  if (ty == "Count") return std::make_shared<Count<T, V>>(id);
  if (ty == "CumulativeSum") return std::make_shared<CumulativeSum<T, V>>(id);
  if (ty == "Difference") return std::make_shared<Difference<T, V>>(id, n(0) != 0);
  if (ty == "Division") return std::make_shared<Division<T, V>>(id);
  if (ty == "EqualTo") return std::make_shared<EqualTo<T, V>>(id, f(0));
  if (ty == "FiniteImpulseResponse") return std::make_shared<FiniteImpulseResponse<T, V>>(id, fvec(a.at(0)));
  if (ty == "Function") {
    auto xs = fvec(a.at(0)), ys = fvec(a.at(1));
    vector<std::pair<V, V>> ps;
    for (size_t i = 0; i < xs.size(); i++) ps.push_back({xs[i], ys[i]});
    if (a.size() > 2) return std::make_shared<Function<T, V>>(id, ps, a.at(2));
    return std::make_shared<Function<T, V>>(id, ps);
  }
  if (ty == "GreaterThan") return std::make_shared<GreaterThan<T, V>>(id, f(0));
  if (ty == "GreaterThanStream") return std::make_shared<GreaterThanStream<T, V>>(id);
  if (ty == "Identity") return std::make_shared<Identity<T, V>>(id);
  if (ty == "LessThan") return std::make_shared<LessThan<T, V>>(id, f(0));
  if (ty == "LessThanStream") return std::make_shared<LessThanStream<T, V>>(id);
  if (ty == "Linear") return std::make_shared<Linear<T, V>>(id, fvec(a.at(0)));
  if (ty == "Minus") return std::make_shared<Minus<T, V>>(id);
  if (ty == "MovingAverage") return std::make_shared<MovingAverage<T, V>>(id, n(0));
  if (ty == "Multiplication") return std::make_shared<Multiplication<T, V>>(id);
  if (ty == "Or") return std::make_shared<Or<T, V>>(id);
  if (ty == "PeakDetector") return std::make_shared<PeakDetector<T, V>>(id, n(0));
  if (ty == "Plus") return std::make_shared<Plus<T, V>>(id);
  if (ty == "Power") return std::make_shared<Power<T, V>>(id, f(0));
  if (ty == "Scale") return std::make_shared<Scale<T, V>>(id, f(0));
  if (ty == "StandardDeviation") return std::make_shared<StandardDeviation<T, V>>(id, n(0));
  if (ty == "TimeShift") return std::make_shared<TimeShift<T, V>>(id, (T)n(0), atoi(a.at(1).c_str()));
  if (ty == "Variable") return std::make_shared<Variable<T, V>>(id, f(0));
  if (ty == "VariableD") return std::make_shared<Variable<T, V>>(id);
  throw std::logic_error("unknown type " + ty);
}

static string hex(const Bytes& b) {
  static const char* d = "0123456789abcdef";
  string r;
  for (auto c : b) { r += d[c >> 4]; r += d[c & 15]; }
  return r.empty() ? "%" : r;
}

static void inputState(string& r, const map<string, Op::Input>& m) {
  for (auto& [p, in0] : m) {
    auto in = in0;
    r += " " + enc(p) + "|" + (in.getMaxSize() == std::numeric_limits<size_t>::max() ? string("inf") : std::to_string(in.getMaxSize())) +
         "|" + num(in.getSum()) + "|";
    for (size_t i = 0; i < in.size(); i++) r += (i ? "," : "") + show(in.at(i));
  }
}

static string run(const vector<string>& w) {
  const string& c = w[0];
  auto at = [&](size_t i) -> const string& { return w.at(i); };
  auto op = [&](size_t i) -> Op& {
    auto it = ops.find(dec(at(i)));
    if (it == ops.end()) throw std::logic_error("no operator " + at(i));
    return *it->second;
  };
  if (c == "new") {
    auto o = make(at(1), dec(at(2)), vector<string>(w.begin() + 3, w.end()));
    ops[dec(at(2))] = o;
    return "ok";
  }
  if (c == "drop") { ops.erase(dec(at(1))); return "ok"; }
  if (c == "addin") { op(1).addDataInput(dec(at(2)), tnum(at(3))); return "ok"; }
  if (c == "addctl") { op(1).addControlInput(dec(at(2)), tnum(at(3))); return "ok"; }
  if (c == "addout") { op(1).addOutput(dec(at(2))); return "ok"; }
  if (c == "conn") {
    auto r = op(1).connect(op(3), dec(at(2)), dec(at(4)));
    if (!r) return "null";
    return r == &op(3) ? "ok" : "other";
  }
  if (c == "connp") {
    auto r = op(1).connect(&op(3), dec(at(2)), dec(at(4)));
    if (!r) return "null";
    return r == &op(3) ? "ok" : "other";
  }
  if (c == "data") { op(1).receiveData(Msg(tnum(at(3)), fnum(at(4))), dec(at(2))); return "ok"; }
  if (c == "ctrl") { op(1).receiveControl(Msg(tnum(at(3)), fnum(at(4))), dec(at(2))); return "ok"; }
  if (c == "exec") return show(op(1).executeData());
  if (c == "execc") return show(op(1).executeControl());
  if (c == "step") { op(1).receiveData(Msg(tnum(at(3)), fnum(at(4))), dec(at(2))); return show(op(1).executeData()); }
  if (c == "stepc") { op(1).receiveControl(Msg(tnum(at(3)), fnum(at(4))), dec(at(2))); return show(op(1).executeControl()); }
  if (c == "emitm") {  // op t v ports...
    vector<string> ports;
    for (size_t i = 4; i < w.size(); i++) ports.push_back(dec(w[i]));
    return show(op(1).emit(Msg(tnum(at(2)), fnum(at(3))), ports));
  }
  if (c == "emitp" || c == "emito") {
    // emitp op ports.. : t v t v ..       emito op port t v port t v ...
    if (c == "emitp") {
      vector<string> ports;
      size_t i = 2;
      for (; i < w.size() && w[i] != ":"; i++) ports.push_back(dec(w[i]));
      PortMessage<T, V> ms;
      for (i++; i + 1 < w.size(); i += 2) ms.push_back(Msg(tnum(w[i]), fnum(w[i + 1])));
      return show(op(1).emit(ms, ports));
    }
    OperatorMessage<T, V> om;
    for (size_t i = 2; i + 2 < w.size(); i += 3) om[dec(w[i])].push_back(Msg(tnum(w[i + 1]), fnum(w[i + 2])));
    return show(op(1).emit(om));
  }
  if (c == "trace") {
    string r = "T";
    for (auto& e : events) r += " ; " + e;
    events.clear();
    return r;
  }
  if (c == "snap") {
    Bytes b = op(1).collect();
    Bytes b2 = op(1).collect();
    saved[dec(at(2))] = b;
    return "ok " + std::to_string(b.size()) + (b == b2 ? " same" : " differs");
  }
  if (c == "hex") return "ok " + hex(op(1).collect());
  if (c == "back") {
    // restore from a buffer that ends exactly after the saved bytes
    Bytes b = saved.at(dec(at(2)));
    Bytes copy(b);
    Bytes::const_iterator it = copy.begin();
    op(1).restore(it);
    return "ok " + std::to_string(it - copy.cbegin());
  }
  if (c == "state") {
    string r = "st";
    inputState(r, op(1).dataInputs);
    r += " ;";
    inputState(r, op(1).controlInputs);
    r += " ;";
    for (auto& p : op(1).toProcess) r += " " + enc(p);
    return r;
  }
  if (c == "getters") {  // op port : everything the getters say
    Op& o = op(1);
    string p = dec(at(2)), r = "g";
    r += " " + num(o.getDataInputSum(p)) + " " + std::to_string(o.getDataInputSize(p)) + " " +
         (o.getDataInputMaxSize(p) == std::numeric_limits<size_t>::max() ? string("inf") : std::to_string(o.getDataInputMaxSize(p)));
    if (o.getDataInputSize(p) > 0) {
      r += " " + show(o.getDataInputFirstMessage(p)) + " " + show(o.getDataInputLastMessage(p));
      for (size_t i = 0; i < o.getDataInputSize(p); i++) r += " " + show(o.getDataInputMessage(p, i));
    }
    return r;
  }
  if (c == "ports") {
    string r = "P";
    for (auto& s : op(1).getDataInputs()) r += " " + enc(s);
    r += " ;";
    for (auto& s : op(1).getControlInputs()) r += " " + enc(s);
    r += " ;";
    for (auto& s : op(1).getOutputs()) r += " " + enc(s);
    r += " ; " + std::to_string(op(1).getNumDataInputs()) + " " + std::to_string(op(1).getNumControlInputs()) + " " +
         std::to_string(op(1).getNumOutputPorts());
    return r;
  }
  if (c == "cmp") {  // composite construction: cmp id what args
    auto& k = dynamic_cast<Composite<T, V>&>(op(1));
    const string& what = at(2);
    string id = dec(at(3));
    auto f = [&](size_t i) { return fnum(at(i)); };
    auto n = [&](size_t i) { return (size_t)tnum(at(i)); };
    if (what == "Input") k.createInput(id, n(4));
    else if (what == "Output") k.createOutput(id, n(4));
    else if (what == "conn") {
      auto r = k.createInternalConnection(id, dec(at(4)), dec(at(5)), dec(at(6)));
      return r ? "ok" : "null";
    }
    else if (what == "Add") k.createAdd(id, f(4));
    else if (what == "AutoRegressive") k.createAutoregressive(id, fvec(at(4)));
    else if (what == "Constant") k.createConstant(id, f(4));
    else if (what == "CosineResampler") k.createCosineResampler(id, (T)n(4));
    else if (what == "HermiteResampler") k.createHermiteResampler(id, (T)n(4));
    else if (what == "Count") k.createCount(id);
    else if (what == "CumulativeSum") k.createCumulativeSum(id);
    else if (what == "Difference") k.createDifference(id, n(4) != 0);
    else if (what == "Join") k.createJoin(id, n(4));
    else if (what == "Division") k.createDivision(id);
    else if (what == "Minus") k.createMinus(id);
    else if (what == "Linear") k.createLinear(id, fvec(at(4)));
    else if (what == "EqualTo") k.createEqualTo(id, f(4));
    else if (what == "GreaterThan") k.createGreaterThan(id, f(4));
    else if (what == "LessThan") k.createLessThan(id, f(4));
    else if (what == "Identity") k.createIdentity(id);
    else if (what == "MovingAverage") k.createMovingAverage(id, n(4));
    else if (what == "FiniteImpulseResponse") k.createFiniteImpulseResponse(id, fvec(at(4)));
    else if (what == "Variable") k.createVariable(id, f(4));
    else if (what == "PeakDetector") k.createPeakDetector(id, n(4));
    else if (what == "StandardDeviation") k.createStandardDeviation(id, n(4));
    else if (what == "Demultiplexer") k.createDemultiplexer(id, n(4));
    else if (what == "Power") k.createPower(id, f(4));
    else if (what == "Scale") k.createScale(id, f(4));
    else if (what == "TimeShift") k.createTimeShift(id, (T)n(4), atoi(at(5).c_str()));
    else throw std::logic_error("cmp " + what);
    return "ok";
  }
#ifdef WITH_API
  auto omap = [&](size_t i) {
    OperatorMessage<T, V> om;
    for (; i + 2 < w.size(); i += 3) om[dec(w[i])].push_back(Msg(tnum(w[i + 1]), fnum(w[i + 2])));
    return om;
  };
  auto prog = [&](size_t i) -> Program& {
    auto it = progs.find(dec(at(i)));
    if (it == progs.end()) throw std::logic_error("no program " + at(i));
    return *it->second;
  };
  if (c == "readop") {
    auto o = FactoryOp::readOp(dec(at(2)));
    ops[dec(at(1))] = std::shared_ptr<Op>(o.release());
    return "ok " + enc(ops[dec(at(1))]->typeName()) + " " + enc(ops[dec(at(1))]->id);
  }
  if (c == "writeop") {
    // move it out and back, writeOp takes the owning pointer
    Op_ptr<T, V> p(&op(1));
    string s;
    try { s = FactoryOp::writeOp(p); } catch (...) { p.release(); throw; }
    p.release();
    return "ok " + enc(s);
  }
  if (c == "defop") {
    auto& reg = FactoryOp::op_registry();
    auto it = reg.find(dec(at(1)));
    if (it == reg.end()) return "null";
    return "ok " + enc(it->second.to_string_default());
  }
  if (c == "types") {
    string r = "ok";
    for (auto& [k, v] : FactoryOp::op_registry()) r += " " + enc(k);
    return r;
  }
  if (c == "newpipe") { ops[dec(at(1))] = std::make_shared<Pipeline<T, V>>(dec(at(1)), dec(at(2))); return "ok"; }
  if (c == "prog") { progs[dec(at(1))] = std::make_shared<Program>(dec(at(2))); return "ok"; }
  if (c == "pfrom") {
    Bytes b = prog(2).serialize();
    Bytes copy(b);
    progs[dec(at(1))] = std::make_shared<Program>(copy);
    return "ok";
  }
  if (c == "pser") return "ok " + hex(prog(1).serialize());
  if (c == "precv") return show(prog(1).receive(omap(2)));
  if (c == "pdebug") return show(prog(1).receiveDebug(omap(2)));
  if (c == "ptext") return "ok " + enc(prog(1).getProgram());
  if (c == "pentry") {
    string r = "ok " + enc(prog(1).getProgramEntryOperatorId()) + " ;";
    for (auto& s : prog(1).getProgramEntryPorts()) r += " " + enc(s);
    r += " ;";
    for (auto& [k, v] : prog(1).getProgramOutputFilter()) {
      r += " " + enc(k) + "|";
      for (auto& s : v) r += enc(s) + ",";
    }
    return r;
  }
  if (c == "fprog") { fids.push_back(dec(at(1))); return "ok " + enc(createProgram(dec(at(1)), dec(at(2)))); }
  if (c == "fvalid") return "ok " + enc(validate(dec(at(1))));
  if (c == "fvalidop") return "ok " + enc(validateOperator(dec(at(1)), dec(at(2))));
  if (c == "fbytes") { fids.push_back(dec(at(1))); createProgram(dec(at(1)), serializeProgram(dec(at(2)))); return "ok"; }
  if (c == "fser") return "ok " + hex(serializeProgram(dec(at(1))));
  if (c == "fdel") return "ok " + enc(deleteProgram(dec(at(1))));
  if (c == "fbuf") return "ok " + enc(addToMessageBuffer(dec(at(1)), dec(at(2)), tnum(at(3)), fnum(at(4))));
  if (c == "fproc") return "ok " + enc(processMessageBuffer(dec(at(1))));
  if (c == "fprocd") return "ok " + enc(processMessageBufferDebug(dec(at(1))));
  if (c == "fmap") return "ok " + enc(processMessageMap(dec(at(1)), omap(2)));
  if (c == "fmapd") return "ok " + enc(processMessageMapDebug(dec(at(1)), omap(2)));
  if (c == "fmapn") return show(processMessageMapNative(dec(at(1)), omap(2)));
  if (c == "fbatch" || c == "fbatchd") {
    vector<uint64_t> ts;
    vector<double> vs;
    vector<string> ps;
    for (size_t i = 2; i + 2 < w.size(); i += 3) {
      ps.push_back(dec(w[i]));
      ts.push_back(tnum(w[i + 1]));
      vs.push_back(fnum(w[i + 2]));
    }
    return "ok " + enc(c == "fbatch" ? processBatch(dec(at(1)), ts, vs, ps) : processBatchDebug(dec(at(1)), ts, vs, ps));
  }
  if (c == "fentry") return "ok " + enc(getProgramEntryOperatorId(dec(at(1))));
  if (c == "fports") return "ok " + enc(getProgramEntryPorts(dec(at(1))));
  if (c == "ffilter") return "ok " + enc(getProgramOutputFilter(dec(at(1))));
#endif
  throw std::logic_error("unknown command " + c);
}

int main() {
  string line;
  std::streambuf* out = std::cout.rdbuf();
  std::ostringstream sink;
  std::cout.rdbuf(sink.rdbuf());  // the library prints diagnostics on cout
  while (getline(std::cin, line)) {
    vector<string> w;
    std::istringstream is(line);
    string t;
    while (is >> t) w.push_back(t);
    if (w.empty()) continue;
    string r;
    if (w[0] == "S") {
#ifdef WITH_API
      for (auto& f : fids) try { deleteProgram(f); } catch (...) {}
      fids.clear();
      progs.clear();
#endif
      ops.clear();
      saved.clear();
      events.clear();
      r = "S " + w.at(1);
    } else {
      try { r = run(w); }
      catch (const std::logic_error& e) { r = string("err L ") + enc(e.what()); }
      catch (const std::exception& e) { r = string("err E ") + enc(e.what()); }
      catch (...) { r = "err U"; }
    }
    sink.str("");
    r += "\n";
    fwrite(r.data(), 1, r.size(), stdout);
    if (w[0] == "S") fflush(stdout);
  }
  fflush(stdout);
  ops.clear();
  std::cout.rdbuf(out);
  return 0;
}
