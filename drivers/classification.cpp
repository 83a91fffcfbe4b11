// CClassificationSolve over stored redshift results.
#include "drv.h"

#include <atomic>
#include <chrono>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#define private public
#include "RedshiftLibrary/processflow/inputcontext.h"
#undef private
#include "RedshiftLibrary/method/classificationresult.h"
#include "RedshiftLibrary/method/classificationsolve.h"
#include "RedshiftLibrary/method/solveresult.h"
#include "RedshiftLibrary/operator/flagResult.h"
#include "RedshiftLibrary/processflow/context.h"
#include "RedshiftLibrary/statistics/pdfcandidatesz.h"

struct D : drv::Driver {
  double base = 0;
  std::vector<std::string> models;
  void reset() override {
    while (!Context.m_ScopeStack->empty())
      Context.m_ScopeStack->pop_back();
    Context.reset();
    Flag.resetFlag();
    models.clear();
    base = 0;
  }
  json step(json const &o) override {
    std::string a = o["a"];
    json b;
    std::string ret = drv::attempt([&] {
      if (a == "params") {
        json p = {{"spectrumModels", json::array()}};
        base = o["base"];
        models.clear();
        for (auto const &m : o["models"]) {
          std::string n = m["name"], me = m["method"];
          p["spectrumModels"].push_back(n);
          models.push_back(n);
          if (me != "")
            p[n] = {{"redshiftSolver", {{"method", me}}}};
          else
            p[n] = {{"lineMeasSolver", {{"method", "M"}}}};
        }
        Context.LoadParameterStore(p.dump());
        auto ic = std::const_pointer_cast<CInputContext>(Context.GetInputContext());
        ic->m_categories = models;
      } else if (a == "next")
        Context.reset();
      else if (a == "put") {
        int w = o["w"];
        double e = w == 0 ? -INFINITY : w == -1 ? base - 1e5 : base + std::log(w);
        std::string scope = o["name"].get<std::string>() + "." + o["stage"].get<std::string>() + "." +
                            o["method"].get<std::string>();
        Context.GetResultStore()->StoreGlobalResult(
            scope, "solveResult",
            std::make_shared<CPdfSolveResult>("test", std::make_shared<TCandidateZ>(), "marg", e));
      } else if (a == "classify") {
        std::string e = drv::attempt([&] {
          CAutoScope g(Context.m_ScopeStack, "classification", ScopeType::SPECTRUMMODEL);
          CAutoScope h(Context.m_ScopeStack, "classification", ScopeType::STAGE);
          CClassificationSolve s;
          s.Compute();
        });
        auto store = Context.GetResultStore();
        b["stored"] = store->hasSolveResult("classification", "classification", "classification");
        if (b["stored"]) {
          auto r = store->GetClassificationResult("classification", "classification", "classification",
                                                  "solveResult");
          b["label"] = r->m_TypeLabel;
          b["p"] = b["e"] = json::array();
          double sum = 0;
          for (auto const &m : models) {
            b["p"].push_back(r->m_proba.count(m) ? int(r->m_proba.at(m) * 1e4 + 1e-6) : -7);
            double v = r->m_evidences.count(m) ? r->m_evidences.at(m) : NAN;
            b["e"].push_back(std::isnan(v) ? -7
                             : std::isinf(v) ? (v < 0 ? 0 : -8)
                             : v < base - 5e4 ? (std::abs(v - base + 1e5) < 1e-3 ? -1 : -9)
                                              : int(std::llround(std::exp(v - base))));
            sum += r->m_proba.count(m) ? r->m_proba.at(m) : NAN;
          }
          if (r->m_proba.size() != models.size() || r->m_evidences.size() != models.size())
            b["label"] = "(other models)";
          b["sum"] = std::isnan(sum) ? -1 : int(std::llround(sum * 1e4));
        }
        if (e == "NO_CLASSIFICATION")
          THROWG(ErrorCode::NO_CLASSIFICATION, "");
        if (e != "ok")
          THROWG(ErrorCode::INTERNAL_ERROR, e);
      }
    });
    b["ret"] = ret;
    return b;
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}
