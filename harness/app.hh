// The application framework under symbolic execution: real InterfaceManager, AdapterConfiguration, queues and state cache;
// the application object, the executive proper and the modules loaded at run time are stand-ins
#ifndef APP_HH
#define APP_HH
#include "vars.hh"
#include <functional>
#include <list>
#include "AdapterConfiguration.hh"
#include "Command.hh"
#include "CommandImpl.hh"
#include "ExecApplication.hh"
#include "ExecListenerHub.hh"
#include "ExprVec.hh"
#include "InputQueue.hh"
#include "InterfaceManager.hh"
#include "NodeImpl.hh"
#include "PlexilExec.hh"
#include "State.hh"
#include "StateCache.hh"
#include "StateCacheEntry.hh"
#include "CachedValue.hh"
#include "Update.hh"
#include "pugixml.hpp"
extern "C" int dynamicLoadModule(const char *, const char *) { return 0; }
extern "C" void *dynamicLoadLibrary(const char *) { return nullptr; }
struct StubExec : PlexilExec {
  std::vector<Node *> added;
  std::function<void(Node *)> onAdd;
  std::list<NodePtr> plans;
  void addCandidateNode(Node *) override {}
  void enqueueAssignment(Assignment *) override {}
  void enqueueAssignmentForRetraction(Assignment *) override {}
  void enqueueCommand(CommandImpl *) override {}
  void enqueueAbortCommand(CommandImpl *) override {}
  void enqueueUpdate(Update *) override {}
  void markRootNodeFinished(Node *) override {}
  void setDispatcher(Dispatcher *) override {}
  void setExecListener(ExecListenerBase *) override {}
  ExecListenerBase *getExecListener() override { return nullptr; }
  ResourceArbiterInterface *getArbiter() override { return nullptr; }
  void step(double) override {}
  bool needsStep() const override { return false; }
  bool addPlan(Node *n) override { added.push_back(n); if (onAdd) onAdd(n); return true; }
  void deleteFinishedPlans() override {}
  bool allPlansFinished() const override { return false; }
  std::list<NodePtr> const &getPlans() const override { return plans; }
};
struct App : ExecApplication {
  std::unique_ptr<AdapterConfiguration> conf;
  std::unique_ptr<InterfaceManager> mgr;
  std::unique_ptr<ExecListenerHub> hub;
  StubExec ex;
  int notified = 0;
  std::function<void(unsigned)> onMark;
  App() : conf(makeAdapterConfiguration()), hub(new ExecListenerHub()) {
    g_exec = &ex;
    mgr.reset(new InterfaceManager(this, conf.get()));
    g_dispatcher = conf.get();
    pugi::xml_document d;
    conf->constructInterfaces(d, *mgr, *hub);   // as applications do at initialization
    CHECK(mgr->initialize(), "the interface manager initializes");
  }
  ~App() { g_dispatcher = nullptr; g_exec = nullptr; }
  void setRunExecInBkgndOnly(bool) override {}
  void addLibraryPath(const std::string &) override {}
  void addLibraryPath(const std::vector<std::string> &) override {}
  bool initialize(pugi::xml_node const) override { return true; }
  bool startInterfaces() override { return true; }
  bool step() override { return false; }
  void runExec() override {}
  bool run() override { return true; }
  bool suspend() override { return false; }
  bool isSuspended() const override { return false; }
  bool resume() override { return false; }
  void stop() override {}
  void terminate() override {}
  void notifyExec() override { ++notified; }
  void notifyAndWaitForCompletion() override {}
  void waitForPlanFinished() override {}
  bool allPlansFinished() override { return false; }
  void waitForShutdown() override {}
  bool addLibrary(pugi::xml_document *) override { return false; }
  bool loadLibrary(std::string const &) override { return false; }
  bool addPlan(pugi::xml_document *) override { return false; }
  void markProcessed(unsigned s) override { if (onMark) onMark(s); }
  AdapterConfiguration *configuration() override { return conf.get(); }
  InterfaceManager *manager() override { return mgr.get(); }
  ExecListenerHub *listenerHub() override { return hub.get(); }
  PlexilExec *exec() override { return &ex; }
};
struct StubUpdate : Update {
  PairValueMap p; std::string id{"upd"}; int acks = 0, nacks = 0; Update *nx = nullptr;
  const PairValueMap &getPairs() const override { return p; }
  std::string const &getNodeId() const override { return id; }
  void acknowledge(bool a) override { if (a) ++acks; else ++nacks; }
  Update *next() const override { return nx; }
  Update **nextPtr() override { return &nx; }
};
static inline Value cached(State const &s) {
  CachedValue const *v = StateCache::instance().ensureStateCacheEntry(s)->cachedValue();
  return v ? v->toValue() : Value();
}
#endif
