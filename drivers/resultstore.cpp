// COperatorResultStore: every key over the finite name space is queried through
// every accessor after each operation.
#include "drv.h"

#include "RedshiftLibrary/method/classificationresult.h"
#include "RedshiftLibrary/operator/flagResult.h"
#include "RedshiftLibrary/operator/logZPdfResult.h"
#include "RedshiftLibrary/processflow/resultstore.h"
#include "RedshiftLibrary/processflow/scopestack.h"
#include "RedshiftLibrary/spectrum/template/template.h"

static const std::vector<std::string> MODELS{"", "g", "q"}, STAGES{"", "s", "t", "g"},
    METHODS{"", "m", "n"},
    NAMES{"x", "y", "xy", "warningFlag", "init_warningFlag", "context_warningFlag"},
    TPLS{"T1", "T2"};
static const std::map<std::string, ScopeType> TYPES{
    {"SPECTRUMMODEL", ScopeType::SPECTRUMMODEL},
    {"STAGE", ScopeType::STAGE},
    {"METHOD", ScopeType::METHOD},
    {"UNDEFINED", ScopeType::UNDEFINED}};

struct D : drv::Driver {
  std::shared_ptr<CScopeStack> scope;
  std::shared_ptr<COperatorResultStore> store;
  std::map<const void *, int> ids;
  std::vector<std::shared_ptr<const COperatorResult>> alive;
  int n = 0;
  bool probe = true; // also try every accessor on every absent key
  void run(json const &ops) override {
    for (size_t i = 0; i < ops.size(); ++i) {
      probe = i + 1 == ops.size() || i % 16 == 15;
      one(ops[i], [&] { return step(ops[i]); });
    }
  }
  void reset() override {
    scope = std::make_shared<CScopeStack>();
    store = std::make_shared<COperatorResultStore>(scope);
    ids.clear();
    alive.clear();
    n = 0;
    Flag.resetFlag();
  }
  std::shared_ptr<const COperatorResult> make(std::string const &type) {
    std::shared_ptr<const COperatorResult> r;
    if (type == "CLogZPdfResult")
      r = std::make_shared<const CLogZPdfResult>(
          CZGridListParams({CZGridParam(TFloat64Range(0., 1.), 0.1)}), false);
    else
      r = std::make_shared<const CClassificationResult>();
    reg(r);
    return r;
  }
  void reg(std::shared_ptr<const COperatorResult> r) {
    ids[r.get()] = ++n;
    alive.push_back(r);
  }
  int id(std::shared_ptr<const COperatorResult> const &r) {
    auto it = ids.find(r.get());
    return it == ids.end() ? -1 : it->second;
  }
  static std::string pathOf(json const &p) {
    std::string s;
    for (auto const &x : p)
      s += (s.empty() ? "" : ".") + x.get<std::string>();
    return s;
  }
  json dump() {
    json d = json::array();
    for (auto const &m : MODELS)
      for (auto const &s : STAGES)
        for (auto const &h : METHODS)
          for (auto const &nm : NAMES) {
            if ((m.empty() && (!s.empty() || !h.empty())) ||
                (s.empty() && !h.empty()))
              continue;
            bool has = store->HasDataset(m, s, h, nm);
            if (!has && !probe)
              continue;
            std::string type;
            auto rt = drv::attempt(
                [&] { type = store->GetGlobalResultType(m, s, h, nm); });
            std::shared_ptr<const COperatorResult> a, b, c;
            auto ra = drv::attempt(
                [&] { a = store->GetLogZPdfResult(m, s, h, nm); });
            auto rb = drv::attempt(
                [&] { b = store->GetClassificationResult(m, s, h, nm); });
            auto rc = drv::attempt(
                [&] { c = store->GetFlagLogResult(m, s, h, nm); });
            json key = json::array();
            for (auto const &x : {m, s, h, nm})
              if (!x.empty())
                key.push_back(x);
            if (!has) {
              if (rt != "UNKNOWN_ATTRIBUTE" || ra != rt || rb != rt || rc != rt)
                d.push_back({{"key", key}, {"id", -2}, {"type", rt}});
              continue;
            }
            int got = a ? id(a) : b ? id(b) : c ? id(c) : -3;
            // only the accessor of the right type answers
            if (int(!!a) + int(!!b) + int(!!c) != 1 || rt != "ok" ||
                ra != "ok" || rb != "ok" || rc != "ok")
              got = -4;
            d.push_back({{"key", key}, {"id", got}, {"type", type}});
            if (store->hasSolveResult(m, s, h))
              d.push_back({{"key", key}, {"id", -5}, {"type", "solve"}});
          }
    return d;
  }
  json obs(std::string const &ret) {
    json o;
    o["ret"] = ret;
    o["dump"] = dump();
    o["tpl"] = json::array();
    o["scoped"] = json::array();
    json base = json::array();
    for (auto const &x : *scope)
      base.push_back(x);
    for (auto const &nm : NAMES) {
      json key = base;
      key.push_back(nm);
      auto all = store->GetScopedPerTemplateResult(nm);
      size_t found = 0;
      for (auto const &t : TPLS) {
        auto tpl = std::make_shared<const CTemplate>(t, "cat");
        std::shared_ptr<const COperatorResult> r;
        auto rr = drv::attempt(
            [&] { r = store->GetScopedPerTemplateResult(tpl, nm).lock(); });
        auto it = all.find(t);
        if (rr == "ok") {
          ++found;
          int got = it != all.end() && it->second == r ? id(r) : -2;
          o["tpl"].push_back({{"tpl", t}, {"key", key}, {"id", got}});
        } else if (it != all.end() || rr != "INTERNAL_ERROR")
          o["tpl"].push_back({{"tpl", t}, {"key", key}, {"id", -3}});
      }
      if (all.size() != found)
        o["tpl"].push_back({{"tpl", "?"}, {"key", key}, {"id", -4}});
      std::shared_ptr<const COperatorResult> r;
      auto rr = drv::attempt(
          [&] { r = store->GetScopedGlobalResult(nm).lock(); });
      if (rr == "ok")
        o["scoped"].push_back(
            {{"key", key}, {"id", id(r)}, {"type", r->getType()}});
      else if (rr != "UNKNOWN_ATTRIBUTE")
        o["scoped"].push_back({{"key", key}, {"id", -2}, {"type", rr}});
    }
    o["flag"] = {{"context", store->hasContextWarningFlag()},
                 {"init", store->hasInitWarningFlag()},
                 {"method", scope->has_type(ScopeType::METHOD)
                                ? store->hasCurrentMethodWarningFlag()
                                : false}};
    return o;
  }
  json step(json const &op) override {
    std::string a = op["a"];
    return obs(drv::attempt([&] {
      if (a == "enter")
        scope->push_back(op["name"].get<std::string>(),
                         TYPES.at(op["type"].get<std::string>()));
      else if (a == "leave")
        scope->pop_back();
      else if (a == "clear")
        store->reset();
      else if (a == "putScoped")
        store->StoreScopedGlobalResult(op["name"], make(op["type"]));
      else if (a == "putFlag") {
        ++n;
        store->StoreScopedFlagResult(op["name"]);
        std::shared_ptr<const COperatorResult> r =
            store->GetScopedGlobalResult(op["name"]).lock();
        ids[r.get()] = n;
        alive.push_back(r);
      } else if (a == "putAt")
        store->StoreGlobalResult(pathOf(op["path"]), op["name"],
                                 make(op["type"]));
      else if (a == "putGlobal")
        store->StoreGlobalResult(op["name"], make(op["type"]));
      else if (a == "putTplScoped")
        store->StoreScopedPerTemplateResult(
            std::make_shared<const CTemplate>(op["tpl"], "cat"), op["name"],
            make("CLogZPdfResult"));
      else if (a == "putTplAt")
        store->StorePerTemplateResult(
            std::make_shared<const CTemplate>(op["tpl"], "cat"),
            pathOf(op["path"]), op["name"], make("CLogZPdfResult"));
    }));
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}
