// Ranked candidate results read back through the result store.
#include "drv.h"

#include "RedshiftLibrary/linemodel/linemodelextremaresult.h"
#include "RedshiftLibrary/operator/extremaresult.h"
#include "RedshiftLibrary/operator/modelphotvalueresult.h"
#include "RedshiftLibrary/operator/modelspectrumresult.h"
#include "RedshiftLibrary/operator/tplCombinationExtremaResult.h"
#include "RedshiftLibrary/processflow/resultstore.h"
#include "RedshiftLibrary/statistics/pdfcandidateszresult.h"

static const std::vector<std::string> DATASETS{
    "model_parameters", "line_mask",        "continuum_polynom", "model",
    "continuum",        "PhotometricModel", "fitted_lines",      "fp_fitted_lines",
    "modeltplCombination_parameters", "nonsense"};

struct D : drv::Driver {
  std::shared_ptr<COperatorResultStore> store;
  std::map<const void *, json> ids;
  struct E {
    json key;
    std::string m, t, kind;
    int nc;
  };
  std::vector<E> es;
  std::vector<std::shared_ptr<const COperatorResult>> alive;
  int n = 0;
  void reset() override {
    store =
        std::make_shared<COperatorResultStore>(std::make_shared<CScopeStack>());
    ids.clear();
    es.clear();
    alive.clear();
    n = 0;
  }
  template <class T>
  void fill(std::vector<std::shared_ptr<const T>> &v, int r, const char *part,
            std::shared_ptr<const T> x) {
    v.at(r) = x;
    ids[static_cast<const COperatorResult *>(x.get())] = {n, r, part};
  }
  TCandidateZbyRank cands(int nc) {
    TCandidateZbyRank c;
    for (int r = 0; r < nc; ++r) {
      auto z = std::make_shared<TCandidateZ>();
      z->Redshift = r;
      auto parent = std::make_shared<TCandidateZ>();
      parent->Redshift = r + 0.5;
      auto p = std::make_shared<TLineModelResult>(*parent);
      z->ParentObject = p;
      ids[static_cast<const COperatorResult *>(p.get())] = {n, r, "parent"};
      alive.push_back(p);
      c.emplace_back("C" + std::to_string(r), z);
    }
    return c;
  }
  std::shared_ptr<const CModelSpectrumResult> spc() {
    return std::make_shared<const CModelSpectrumResult>();
  }
  std::shared_ptr<const CModelPhotValueResult> phot() {
    return std::make_shared<const CModelPhotValueResult>(TPhotVal());
  }
  template <class X> void params(X &x) {
    for (size_t r = 0; r < x.m_ranked_candidates.size(); ++r)
      ids[static_cast<const COperatorResult *>(
          x.m_ranked_candidates[r].second.get())] = {n, r, "params"};
  }
  std::shared_ptr<const COperatorResult> make(std::string kind, int nc) {
    auto c = cands(nc);
    if (kind == "ExtremaResult") {
      auto x = std::make_shared<ExtremaResult>(c);
      params(*x);
      for (int r = 0; r < nc; ++r) {
        fill(x->m_savedModelSpectrumResults, r, "model", spc());
        fill(x->m_modelPhotValues, r, "phot", phot());
      }
      return x;
    }
    if (kind == "LineModelExtremaResult") {
      auto x = std::make_shared<LineModelExtremaResult>(c);
      params(*x);
      for (int r = 0; r < nc; ++r) {
        fill(x->m_savedModelSpectrumResults, r, "model", spc());
        fill(x->m_savedModelContinuumSpectrumResults, r, "continuum", spc());
        fill(x->m_modelPhotValues, r, "phot", phot());
        fill(x->m_savedModelFittingResults, r, "lines",
             std::make_shared<const CLineModelSolution>());
      }
      return x;
    }
    if (kind == "TplCombinationExtremaResult") {
      auto x = std::make_shared<TplCombinationExtremaResult>(c);
      params(*x);
      for (int r = 0; r < nc; ++r)
        fill(x->m_savedModelSpectrumResults, r, "model", spc());
      return x;
    }
    auto x = std::make_shared<PdfCandidatesZResult>();
    x->m_ranked_candidates = c;
    return x;
  }
  json idof(std::shared_ptr<const COperatorResult> r) {
    auto it = ids.find(r.get());
    return it == ids.end() ? json(std::vector<std::string>{"?"}) : it->second;
  }
  // the typed accessor for the type of the result
  std::shared_ptr<const COperatorResult> get(E const &e, std::string const &ds,
                                             std::string const &type, int r) {
    const std::string N = "extrema_results";
    if (type == "TExtremaResult")
      return store->GetExtremaResult(e.m, "s", e.t, N, ds, r);
    if (type == "TLineModelResult")
      return store->GetLineModelResult(e.m, "s", e.t, N, ds, r);
    if (type == "TTplCombinationResult")
      return store->GetTplCombinationResult(e.m, "s", e.t, N, ds, r);
    if (type == "CModelSpectrumResult")
      return store->GetModelSpectrumResult(e.m, "s", e.t, N, ds, r);
    if (type == "CLineModelSolution")
      return store->GetLineModelSolution(e.m, "s", e.t, N, ds, r);
    if (type == "CModelPhotValueResult")
      return store->GetModelPhotValueResult(e.m, "s", e.t, N, ds, r);
    return nullptr;
  }
  json step(json const &op) override {
    std::string ret = drv::attempt([&] {
      ++n;
      std::string m = op["model"], t = op["method"], kind = op["kind"];
      auto r = make(kind, op["nc"]);
      store->StoreGlobalResult(m + ".s." + t, "extrema_results", r);
      alive.push_back(r);
      es.push_back({{m, t}, m, t, kind, op["nc"]});
    });
    json o{{"ret", ret},
           {"table", json::array()},
           {"parents", json::array()},
           {"counts", json::array()}};
    for (auto const &e : es) {
      o["counts"].push_back(
          {{"key", e.key},
           {"nc", store->getNbRedshiftCandidates(e.m, "s", e.t)},
           {"kind",
            store->GetGlobalResultType(e.m, "s", e.t, "extrema_results")}});
      if (e.kind == "PdfCandidatesZResult")
        continue;
      for (auto const &ds : DATASETS) {
        bool has = store->HasCandidateDataset(e.m, "s", e.t, "extrema_results", ds);
        std::string type;
        auto rt = drv::attempt([&] {
          type = store->GetCandidateResultType(e.m, "s", e.t, "extrema_results",
                                               ds);
        });
        json v = json::array();
        if (rt != "ok")
          type = rt;
        else
          for (int r = 0; r < e.nc; ++r)
            v.push_back(idof(get(e, ds, type, r)));
        o["table"].push_back(
            {{"key", e.key}, {"ds", ds}, {"has", has}, {"type", type}, {"ids", v}});
      }
      if (e.kind == "LineModelExtremaResult") {
        json v = json::array();
        for (int r = 0; r < e.nc; ++r)
          v.push_back(idof(store->GetLineModelResult(
              e.m, "s", e.t, "extrema_results", "model_parameters", r, true)));
        o["parents"].push_back({{"key", e.key}, {"ids", v}});
      }
    }
    return o;
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}
