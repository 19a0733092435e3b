#ifndef SIM_HARNESS_H
#define SIM_HARNESS_H
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <sim/core.h>
namespace sim
{
struct Op
{
  ns_t t;
  std::string desc;
  std::function<void()> fn;
  bool on;
};
/// One simulated execution: a pure function of (scenario, property, seed, mode, masks) and the code.
struct Run
{
  Sim& sim;
  std::string prop, scenario, scratch;
  uint64_t seed;
  bool faults;    // fault injecting configuration
  bool verbose = false;
  const std::set<int>* op_keep = nullptr;
  const std::set<int>* fault_keep = nullptr;
  std::vector<Op> ops;
  std::vector<Fault> all_faults;
  std::string cfg;  // human readable configuration
  bool failed = false, nontrivial = false;
  std::string sig, detail, other;
  ns_t fail_t = 0;
  bool death_is_violation = true;

  Run(Sim& s) : sim(s) {}
  Rng rng(const std::string& name) const { return Rng(seed, name); }
  /// Registers workload operation; must be called in an order independent of the execution.
  int op(ns_t t, const std::string& desc, std::function<void()> fn);
  /// Registers a fault window on the network (kinds handled by Sim).
  int fault(const std::string& kind, const std::string& target, ns_t t0, ns_t t1, double p = 1, double a = 0, double b = 0);
  /// Registers a fault executed at a time (crash, stall, clock jump...).
  int faultAt(const std::string& kind, const std::string& target, ns_t t, std::function<void()> fn);
  void fail(const std::string& sig, const std::string& detail);
  /// Only the checks of the property under test may fail the run.
  bool is(const char* p) const { return prop == p; }
  void expect(bool ok, const char* p, const std::string& sig, const std::function<std::string()>& detail)
  {
    if (!ok && is(p))
      fail(sig, detail());
    else if (!ok && other.empty())
    {
      other = std::string(p) + "/" + sig;
      sim.trace("OTHER " + other + ": " + detail());
    }
  }
  void note(const std::string& k, const std::string& v) { cfg += k + "=" + v + " "; }
  void note(const std::string& k, double v) { cfg += k + strf("=%.4g ", v); }
  bool stopped() const { return failed; }
};
struct Scenario
{
  const char* name;
  std::map<std::string, double> props;  // property -> weight
  std::function<void(Run&)> fn;
};
struct HarnessInfo
{
  std::string real, stub;
  std::vector<Scenario> scenarios;
};
HarnessInfo& harness();
struct Register
{
  Register(const char* name, std::map<std::string, double> props, std::function<void(Run&)> fn)
  {
    harness().scenarios.push_back(Scenario{name, std::move(props), std::move(fn)});
  }
};
/// The node must not end by itself and must not leave its messages unhandled for longer than limit while it is not stalled.
void keepServing(Run& r, Node* n, ns_t limit = 5 * SEC);
int harnessMain(int argc, char** argv);
/// Adds a random (seed-keyed) set of network faults over [t0,t1] on the given connection substrings.
struct NetFaultMix
{
  std::vector<std::string> targets;
  double drop = 1, dup = 0.5, delay = 1, reorder = 0.5, partition = 1, latency = 0.5;
  double max_delay = 0.5, max_partition = 2.0;
};
void netFaults(Run& r, const NetFaultMix& mix, ns_t t0, ns_t t1, int max_n);
void stallFaults(Run& r, const std::vector<std::string>& nodes, ns_t t0, ns_t t1, int max_n, double max_s);
}  // namespace sim
#endif
