// A small robot with recording controllers around the real ControllerManager.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <limits>
#include <map>
#include <string>
#include <thread>
#include <vector>
#include <controller_interface/controller_base.h>
#include <controller_manager/controller_manager.h>
#include <controller_manager/controller_loader_interface.h>
#include <ros/ros.h>
using namespace hardware_interface; using controller_interface::ControllerBase;
#define REQUIRE(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); fflush(stdout); std::_Exit(1); } } while (0)
struct Ctrl : ControllerBase {
  std::string name; std::vector<InterfaceResources> claims; int init = 1, starts = 0, stops = 0, waits = 0, aborts = 0, updates = 0; void (*onUpdate)() = nullptr; std::atomic<bool>* destroyed = nullptr;
  ~Ctrl() override { if (destroyed) *destroyed = true; }
  bool initRequest(RobotHW*, ros::NodeHandle&, ros::NodeHandle&, ClaimedResources& c) override { c = claims; state_ = ControllerState::INITIALIZED; if (init == 2) throw std::runtime_error("no"); if (init == 3) throw 3; return init == 1; }
  void starting(const ros::Time&) override { ++starts; } void stopping(const ros::Time&) override { ++stops; } void waiting(const ros::Time&) override { ++waits; } void aborting(const ros::Time&) override { ++aborts; }
  void update(const ros::Time&, const ros::Duration&) override { ++updates; if (onUpdate) onUpdate(); }
};
struct HW : RobotHW {
  int all = 0, prepares = 0, switches = 0; bool prepareOk = true; std::map<std::string, int> each; std::vector<std::string> pStart, pStop, dStart, dStop; void (*onSwitch)() = nullptr;
  static std::vector<std::string> names(const std::list<ControllerInfo>& l) { std::vector<std::string> r; for (auto& i : l) r.push_back(i.name); return r; }
  bool prepareSwitch(const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b) override { ++prepares; pStart = names(a); pStop = names(b); return prepareOk; }
  void doSwitch(const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b) override { ++switches; dStart = names(a); dStop = names(b); if (onSwitch) onSwitch(); }
  static SwitchState st(int i) { return i == 0 ? SwitchState::DONE : i == 1 ? SwitchState::ONGOING : SwitchState::ERROR; }
  SwitchState switchResult() const override { return st(all); }
  SwitchState switchResult(const ControllerInfo& c) const override { auto i = each.find(c.name); return st(i == each.end() ? 0 : i->second); }
};
struct Loader : controller_manager::ControllerLoaderInterface {
  std::shared_ptr<Ctrl> next; int reloads = 0; std::vector<std::string> types{"T"};
  Loader() : ControllerLoaderInterface("loader") {}
  controller_interface::ControllerBaseSharedPtr createInstance(const std::string&) override { return next; }
  std::vector<std::string> getDeclaredClasses() override { return types; }
  void reload() override { ++reloads; }
};
struct Sys {
  HW hw; ros::NodeHandle nh; controller_manager::ControllerManager cm; std::shared_ptr<Loader> loader; std::map<std::string, Ctrl*> c; double t = 1; std::atomic<bool> stop{false}; std::thread rt; std::atomic<bool> reset{false};
  Sys() : cm(&hw, nh), loader(std::make_shared<Loader>()) { cm.registerControllerLoader(loader); }
  ~Sys() { halt(); }
  // loads a controller claiming the given resources of interface "I"
  bool load(const std::string& n, const std::set<std::string>& res = {}, int init = 1) {
    auto p = std::make_shared<Ctrl>(); p->name = n; p->init = init; if (!res.empty()) { InterfaceResources r; r.hardware_interface = "I"; r.resources = res; p->claims.push_back(r); }
    loader->next = p; ros_stub::setString("/" + n + "/type", "T"); bool live = t > 1; if (live) run(); bool ok = cm.loadController(n); if (live) halt(); loader->next.reset(); if (ok) c[n] = p.get(); return ok;
  }
  void cycle(bool reset_controllers = false) { t += 0.01; cm.update(ros::Time(t), ros::Duration(0.01), reset_controllers); }
  void run() { stop = false; rt = std::thread([this] { while (!stop) { cycle(reset.exchange(false)); std::this_thread::sleep_for(std::chrono::microseconds(300)); } }); }
  void halt() { if (rt.joinable()) { stop = true; rt.join(); } }
  // a switch while update cycles are running
  bool sw(const std::vector<std::string>& a, const std::vector<std::string>& b, int strictness = 2, bool asap = false, double timeout = 0) { run(); bool ok = cm.switchController(a, b, strictness, asap, timeout); halt(); return ok; }
};
typedef std::vector<std::string> L;
