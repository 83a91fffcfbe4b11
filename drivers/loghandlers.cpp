// CLog and its handlers
#include "drv.h"

#include <memory>
#include <mutex>
#include <regex>
#include <sstream>
#include <thread>
#include <map>
#include <vector>

#include "RedshiftLibrary/common/flag.h"
#include "RedshiftLibrary/log/filehandler.h"
#include "RedshiftLibrary/log/handler.h"

namespace {
std::string untime(std::string const &s) {
  static std::regex const re(
      "^[A-Z][a-z][a-z] [A-Z][a-z][a-z] [ 0-9][0-9] "
      "[0-9][0-9]:[0-9][0-9]:[0-9][0-9] [0-9][0-9][0-9][0-9] ");
  std::smatch m;
  if (std::regex_search(s, m, re))
    return "@ " + m.suffix().str();
  return s;
}

struct Mem : CLogHandler {
  std::vector<std::string> got;
  void LogEntry(Int32, const std::string &m) override { got.push_back(m); }
};

struct Slot {
  std::unique_ptr<CLogHandler> h;
  Mem *mem = nullptr;
  std::string file;
  size_t read = 0;
};
} // namespace

struct D : drv::Driver {
  std::map<std::string, Slot> slots;
  std::string dir;
  long n = 0;
  std::ostringstream cap;

  D() {
    char t[] = "/tmp/logh-XXXXXX";
    dir = mkdtemp(t);
    std::cout.rdbuf(cap.rdbuf());
  }
  ~D() {
    slots.clear();
    (void)!system(("rm -rf -- " + dir).c_str());
  }
  void reset() override {
    for (auto &[k, s] : slots) {
      s.h.reset();
      if (!s.file.empty())
        unlink(s.file.c_str());
    }
    slots.clear();
    Flag.resetFlag();
    cap.str("");
  }
  static json lines(std::string const &text) {
    json r = json::array();
    size_t i = 0;
    while (i < text.size()) {
      size_t j = text.find('\n', i);
      if (j == std::string::npos) {
        r.push_back("PARTIAL " + text.substr(i));
        break;
      }
      r.push_back(untime(text.substr(i, j - i)));
      i = j + 1;
    }
    return r;
  }
  json collect() {
    json g = json::object();
    g["0"] = lines(cap.str());
    cap.str("");
    for (auto &[k, s] : slots) {
      if (s.mem) {
        g[k] = json::array();
        for (auto const &m : s.mem->got)
          g[k].push_back(untime(m));
        s.mem->got.clear();
      } else if (!s.file.empty()) {
        std::ifstream f(s.file, std::ios::binary);
        std::string t((std::istreambuf_iterator<char>(f)), {});
        g[k] = lines(t.substr(std::min(s.read, t.size())));
        s.read = t.size();
      }
    }
    return g;
  }
  static void emit(std::string const &lvl, std::string const &text, bool ts) {
    if (lvl == "info")
      Log.LogInfo(text, ts);
    else if (lvl == "detail")
      Log.LogDetail(text, ts);
    else if (lvl == "debug")
      Log.LogDebug(text, ts);
    else if (lvl == "warn")
      Flag.warning(WarningCode(3), text);
    else {
      AmzException e(ErrorCode::INTERNAL_ERROR, text, "f", "m", 1);
      e.LogError();
    }
  }
  json step(json const &op) override {
    std::string a = op["a"];
    json o{{"ret", "ok"}};
    if (a == "new") {
      Slot s;
      if (op["kind"] == "file") {
        s.file = dir + "/" + std::to_string(n++);
        s.h.reset(new CLogFileHandler(s.file.c_str()));
      } else if (op["kind"] == "console")
        s.h.reset(new CLogConsoleHandler());
      else {
        s.mem = new Mem();
        s.h.reset(s.mem);
      }
      slots[op["h"]] = std::move(s);
    } else if (a == "del") {
      Slot &s = slots.at(op["h"]);
      s.h.reset();
      if (!s.file.empty())
        unlink(s.file.c_str());
      slots.erase(op["h"].get<std::string>());
    } else if (a == "level")
      slots.at(op["h"]).h->SetLevelMask(op["m"]);
    else if (a == "get")
      o["v"] = slots.at(op["h"]).h->GetLevelMask();
    else if (a == "log")
      emit(op["lvl"], op["text"], op["ts"]);
    else if (a == "burst") {
      std::vector<std::thread> th;
      int k = op["k"];
      std::string lvl = op["lvl"];
      for (int t = 1; t <= op["n"].get<int>(); ++t)
        th.emplace_back([=] {
          for (int j = 1; j <= k; ++j)
            emit(lvl, std::to_string(t) + "." + std::to_string(j), false);
        });
      for (auto &t : th)
        t.join();
    }
    o["got"] = collect();
    return o;
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}
