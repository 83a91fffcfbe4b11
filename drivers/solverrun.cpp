// CSolve::Compute with scripted solvers.
#include "drv.h"

#include "RedshiftLibrary/common/flag.h"
#include "RedshiftLibrary/method/solve.h"
#include "RedshiftLibrary/operator/flagResult.h"
#include "RedshiftLibrary/operator/modelspectrumresult.h"
#include "RedshiftLibrary/processflow/context.h"

struct SR : CSolveResult {
  SR() : CSolveResult("SR") {}
};

struct D;
static D *drvp;
static int runs;
static std::map<const void *, int> ids;
static std::vector<std::shared_ptr<const COperatorResult>> alive;

static void throwKind(std::string const &k) {
  if (k == "INTERNAL_ERROR")
    throw AmzException(ErrorCode::INTERNAL_ERROR, "x", "f", "m", 1);
  if (k == "std")
    throw std::runtime_error("x");
  if (k == "int")
    throw 3;
}
static std::shared_ptr<const COperatorResult> mk() {
  auto r = std::make_shared<const CModelSpectrumResult>();
  ids[static_cast<const COperatorResult *>(r.get())] = runs;
  alive.push_back(r);
  return r;
}

struct Fake : CSolve {
  json op;
  Fake(json const &o) : CSolve(o["method"].get<std::string>()), op(o) {}
  void InitRanges(const CInputContext &) override {
    throwKind(op["init"].get<std::string>());
  }
  std::shared_ptr<CSolveResult> compute() override {
    auto store = Context.GetResultStore();
    for (auto const &e : op["script"]) {
      std::string x = e["x"];
      if (x == "warn")
        Flag.warning(WarningCode(e["code"].get<int>()), std::string("w"));
      else if (x == "put")
        store->StoreScopedGlobalResult(e["name"], mk());
      else if (x == "inner") {
        CAutoScope g(Context.m_ScopeStack, "inner");
        store->StoreScopedGlobalResult(e["name"], mk());
      } else if (x == "throw")
        throwKind(e["kind"]);
      else if (x == "throwInner") {
        CAutoScope g(Context.m_ScopeStack, "inner");
        CAutoScope h(Context.m_ScopeStack, "inner2");
        throwKind(e["kind"]);
      }
    }
    auto r = std::make_shared<SR>();
    ids[static_cast<const COperatorResult *>(r.get())] = runs;
    alive.push_back(r);
    return r;
  }
};

static const std::vector<std::string> MODELS{"g", "q"}, STAGES{"s", "t"},
    METHODS{"m", "n"}, NAMES{"r", "inner.r", "solveResult", "warningFlag",
                             "inner.warningFlag", "inner.solveResult"};

struct D : drv::Driver {
  void reset() override {
    while (!Context.m_ScopeStack->empty())
      Context.m_ScopeStack->pop_back();
    Context.reset();
    Flag.resetFlag();
    ids.clear();
    alive.clear();
    runs = 0;
  }
  json obs(std::string const &ret) {
    auto store = Context.GetResultStore();
    json o{{"ret", ret},
           {"store", json::array()},
           {"bits", json::array()},
           {"scopes", json::array()}};
    unsigned m = Flag.getBitMask();
    for (int b = 0; b < 32; ++b)
      if (m & (1u << b))
        o["bits"].push_back(b);
    o["nmsg"] = Flag.getListMessages().size();
    for (auto const &x : *Context.m_ScopeStack)
      o["scopes"].push_back(x);
    auto add = [&](std::string const &mo, std::string const &st,
                   std::string const &me, std::string const &nm) {
      if (!store->HasDataset(mo, st, me, nm))
        return;
      json key = json::array();
      std::string full = COperatorResultStore::buildFullname(mo, st, me, nm);
      for (size_t a = 0; a <= full.size();) {
        size_t b = full.find('.', a);
        if (b == std::string::npos)
          b = full.size();
        key.push_back(full.substr(a, b - a));
        a = b + 1;
      }
      json val;
      if (auto f = store->GetFlagLogResult(mo, st, me, nm)) {
        val = {{"kind", "flag"}, {"bits", json::array()}};
        for (int b = 0; b < 32; ++b)
          if (f->flagValue & (1u << b))
            val["bits"].push_back(b);
        val["msgs"] = json::array();
        for (auto const &[c, t] : f->msgList)
          val["msgs"].push_back(int(c));
      } else {
        std::shared_ptr<const COperatorResult> r;
        if (nm == "solveResult")
          r = store->GetSolveResult(mo, st, me).lock();
        else
          r = store->GetModelSpectrumResult(mo, st, me, nm);
        auto it = ids.find(r.get());
        val = {{"kind", "result"}, {"n", it == ids.end() ? -1 : it->second}};
      }
      o["store"].push_back({{"key", key}, {"val", val}});
    };
    std::vector<std::string> E{""};
    auto with = [&](std::vector<std::string> const &v) {
      auto r = E;
      r.insert(r.end(), v.begin(), v.end());
      return r;
    };
    for (auto const &mo : with(MODELS))
      for (auto const &st : mo.empty() ? E : with(STAGES))
        for (auto const &me : st.empty() ? E : with(METHODS))
          for (auto const &nm : NAMES)
            add(mo, st, me, nm);
    return o;
  }
  json step(json const &op) override {
    std::string a = op["a"];
    if (a == "warn") {
      Flag.warning(WarningCode(op["code"].get<int>()), std::string("w"));
      return obs("ok");
    }
    if (a == "next") {
      Context.reset();
      Flag.resetFlag();
      return obs("ok");
    }
    ++runs;
    return obs(drv::attempt([&] {
      CAutoScope g(Context.m_ScopeStack, op["model"],
                   ScopeType::SPECTRUMMODEL);
      CAutoScope h(Context.m_ScopeStack, op["stage"], ScopeType::STAGE);
      Fake f(op);
      f.Compute();
    }));
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}
