// Drives the real engine object with a real fcitx5 Instance and a recording input context.
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <string>
#include <vector>
#include <filesystem>
#include <unistd.h>
#include <fcitx-utils/capabilityflags.h>
#include <fcitx-utils/standardpath.h>
#include <fcitx/addonmanager.h>
#include <fcitx/event.h>
#include <fcitx/inputcontext.h>
#include <fcitx/inputcontextmanager.h>
#include <fcitx/inputmethodentry.h>
#include <fcitx/inputpanel.h>
#include <fcitx/instance.h>
#include <fcitx/candidatelist.h>
#define private public
#define protected public
#include "McBopomofo.h"
#undef private
#undef protected
#include "KeyHandler.h"
#include "InputState.h"

namespace S = McBopomofo::InputStates;

struct IC : fcitx::InputContext {
  explicit IC(fcitx::InputContextManager& m) : InputContext(m, "demo") {
    created();
    setCapabilityFlags(fcitx::CapabilityFlag::Preedit);
  }
  ~IC() override { destroy(); }
  const char* frontend() const override { return "demo"; }
  void commitStringImpl(const std::string& t) override { commits.push_back(t); }
  void deleteSurroundingTextImpl(int, unsigned) override {}
  void forwardKeyImpl(const fcitx::ForwardKeyEvent&) override {}
  void updatePreeditImpl() override { ++preeditUpdates; }
  std::vector<std::string> commits;
  int preeditUpdates = 0;
};

struct Demo {
  std::string root;
  std::unique_ptr<fcitx::Instance> inst;
  std::unique_ptr<McBopomofo::McBopomofoEngine> eng;
  std::unique_ptr<IC> ic;
  std::unique_ptr<fcitx::HandlerTableEntry<fcitx::EventHandler>> watch;
  int refreshes = 0;
  fcitx::InputMethodEntry entry{"mcbopomofo", "McBopomofo", "zh_TW", "mcbopomofo"};
  fcitx::InputMethodEntry plain{"mcbopomofo-plain", "Plain", "zh_TW", "mcbopomofo"};

  static void put(const std::string& p, const std::string& s) { std::ofstream(p) << s; }

  Demo() {
    char t[] = "/tmp/mcbdemoXXXXXX";
    root = mkdtemp(t);
    setenv("XDG_DATA_HOME", (root + "/share").c_str(), 1);
    setenv("XDG_CONFIG_HOME", (root + "/config").c_str(), 1);
    setenv("XDG_CACHE_HOME", (root + "/cache").c_str(), 1);
    setenv("XDG_DATA_DIRS", (root + "/none").c_str(), 1);
    setenv("HOME", root.c_str(), 1);
    setenv("SKIP_FCITX_PATH", "1", 1);
    std::filesystem::create_directories(root + "/share/fcitx5/data");
    std::filesystem::create_directories(root + "/share/fcitx5/mcbopomofo");
    std::filesystem::create_directories(root + "/config/fcitx5/conf");
    put(root + "/share/fcitx5/data/mcbopomofo-data.txt",
        "# format org.openvanilla.mcbopomofo.sorted\n"
        "_punctuation_, ， 0.0\n_punctuation_< ， 0.0\n_punctuation_list … 0.0\n_punctuation_list 、 0.0\n"
        "ㄋㄧˇ 你 -3\nㄋㄧˇ 妳 -4\nㄋㄧˇ 擬 -5\nㄋㄧˇ-ㄏㄠˇ 你好 -4\nㄏㄠˇ 好 -3\nㄏㄠˇ 郝 -5\n");
    put(root + "/share/fcitx5/data/mcbopomofo-data-plain-bpmf.txt",
        "# format org.openvanilla.mcbopomofo.sorted\n"
        "ㄋㄧˇ 你 -3\nㄋㄧˇ 妳 -4\nㄏㄠˇ 好 -3\n");
    put(root + "/share/fcitx5/data/mcbopomofo-associated-phrases-v2.txt",
        "# format org.openvanilla.mcbopomofo.sorted\n"
        "你-ㄋㄧˇ-好-ㄏㄠˇ -4\n你-ㄋㄧˇ-好-ㄏㄠˇ-嗎-ㄇㄚ -5\n");
    put(root + "/share/fcitx5/data/mcbopomofo-dictionary-service.json",
        "{\"services\":[{\"name\":\"Demo\",\"url_template\":\"http://127.0.0.1:9/(encoded)\"}]}");
    put(root + "/share/fcitx5/mcbopomofo/data.txt", "");
    char a0[] = "demo", a1[] = "--disable=all";
    char* av[] = {a0, a1, nullptr};
    inst = std::make_unique<fcitx::Instance>(2, av);
    eng = std::make_unique<McBopomofo::McBopomofoEngine>(inst.get());
    ic = std::make_unique<IC>(inst->inputContextManager());
    watch = inst->watchEvent(fcitx::EventType::InputContextUpdateUI, fcitx::EventWatcherPhase::PreInputMethod,
                             [this](fcitx::Event&) { ++refreshes; });
    activate();
  }
  ~Demo() {
    watch.reset();
    ic.reset();
    eng.reset();
    inst.reset();
    if (root.rfind("/tmp/mcbdemo", 0) == 0) std::filesystem::remove_all(root);
  }
  void activate(bool p = false) {
    fcitx::InputContextEvent e(ic.get(), fcitx::EventType::InputContextFocusIn);
    eng->activate(p ? plain : entry, e);
  }
  bool key(fcitx::KeySym s, fcitx::KeyStates m = fcitx::KeyStates(), int code = 0, bool rel = false) {
    fcitx::Key k(s, m, code);
    fcitx::KeyEvent e(ic.get(), k, rel);
    eng->keyEvent(entry, e);
    return e.accepted();
  }
  void type(const std::string& s) {
    for (char c : s) key(static_cast<fcitx::KeySym>(static_cast<unsigned char>(c)));
  }
  void reset(fcitx::EventType t) {
    fcitx::InputContextEvent e(ic.get(), t);
    eng->reset(entry, e);
  }
  template <class T>
  T* state() { return dynamic_cast<T*>(eng->state_.get()); }
  std::string preedit() { return ic->inputPanel().clientPreedit().toString(); }
  fcitx::CommonCandidateList* list() {
    return dynamic_cast<fcitx::CommonCandidateList*>(ic->inputPanel().candidateList().get());
  }
  std::string committed() {
    std::string r;
    for (auto& c : ic->commits) r += "<" + c + ">";
    return r;
  }
};

static int failures = 0;
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); ++failures; } } while (0)
