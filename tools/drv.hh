// Driver for demonstrations: runs a plan given as XML with lookups, commands and updates answered by the program.
#ifndef DRV_HH
#define DRV_HH
#include "plexil-config.h"
#include "PlexilExec.hh"
#include "Node.hh"
#include "NodeImpl.hh"
#include "NodeTransition.hh"
#include "NodeConstants.hh"
#include "ExecListenerBase.hh"
#include "Dispatcher.hh"
#include "StateCache.hh"
#include "LookupReceiver.hh"
#include "State.hh"
#include "Value.hh"
#include "Command.hh"
#include "CommandImpl.hh"
#include "Update.hh"
#include "CommandHandle.hh"
#include "parsePlan.hh"
#include "parser-utils.hh"
#include "pugixml.hpp"
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
using namespace PLEXIL;
struct Drv : ExecListenerBase, Dispatcher {
  PlexilExec *ex;
  std::vector<std::string> log;              // "node:STATE:OUTCOME:FAILURE", "cmd name", "abort name", "update", "denied name"
  std::map<std::string, Value> world;        // lookup name -> value
  std::vector<Command *> cmds; std::vector<CommandImpl *> aborts; std::vector<Update *> upds;
  double now = 0;
  Drv() { ex = makePlexilExec(); g_exec = ex; g_dispatcher = this; ex->setDispatcher(this); ex->setExecListener(this); }
  NodeImpl *load(std::string const &xml) {
    pugi::xml_document doc;
    if (!doc.load_string(xml.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single)) { std::cerr << "bad xml\n"; exit(2); }
    pugi::xml_node root = doc.document_element();
    SymbolTable *st = checkPlan(root); (void)st;
    NodeImpl *n = parsePlan(root);
    if (!n || !ex->addPlan(n)) { std::cerr << "bad plan\n"; exit(2); }
    return n;
  }
  void notifyOfTransitions(std::vector<NodeTransition> const &tr) override {
    for (auto const &t : tr) {
      std::ostringstream s;
      s << t.node->getNodeId() << ":" << nodeStateName(t.newState) << ":" << outcomeName(t.node->getOutcome()) << ":" << failureTypeName(t.node->getFailureType());
      log.push_back(s.str());
    }
  }
  void notifyOfAssignment(Expression const *, std::string const &n, Value const &v) override { std::ostringstream s; s << "assign " << n << " " << v; log.push_back(s.str()); }
  void stepComplete(unsigned int) override {}
  void lookupNow(State const &s, LookupReceiver *r) override {
    if (s.name() == "time") { r->update(now); return; }
    auto i = world.find(s.name());
    if (i == world.end()) r->setUnknown(); else r->update(i->second);
  }
  void setThresholds(State const &, Real, Real) override {}
  void setThresholds(State const &, Integer, Integer) override {}
  void clearThresholds(State const &) override {}
  void executeCommand(Command *c) override { cmds.push_back(c); log.push_back("cmd " + c->getName()); }
  void reportCommandArbitrationFailure(Command *c) override { log.push_back("denied " + c->getName()); dynamic_cast<CommandImpl *>(c)->setCommandHandle(COMMAND_DENIED); }
  void invokeAbort(Command *c) override { aborts.push_back(dynamic_cast<CommandImpl *>(c)); log.push_back("abort " + c->getName()); }
  void executeUpdate(Update *u) override { upds.push_back(u); log.push_back("update"); }
  void run() { int k = 0; do ex->step(now += 1); while (ex->needsStep() && ++k < 50); }
  void set(std::string const &name, Value const &v) { world[name] = v; StateCache::instance().lookupReturn(State(name, 0), v); }
  bool saw(std::string const &s) const { for (auto const &l : log) if (l == s) return true; return false; }
  int count(std::string const &s) const { int n = 0; for (auto const &l : log) n += l == s; return n; }
  int at(std::string const &s) const { for (size_t i = 0; i < log.size(); ++i) if (log[i] == s) return (int)i; return -1; }
  void dump() const { for (auto const &l : log) std::cerr << "  " << l << "\n"; }
};
#define EXPECT(c) do { if (!(c)) { std::cerr << "FAILED: " #c "\n"; return 1; } } while (0)
#endif
