// Line model elements: supports, amplitude fits, and the model spectrum.
#include "drv.h"

#include <atomic>
#include <chrono>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#define private public
#define protected public
#include "RedshiftLibrary/linemodel/elementlist.h"
#include "RedshiftLibrary/linemodel/individualfitter.h"
#include "RedshiftLibrary/linemodel/spectrummodel.h"
#undef private
#undef protected
#include "RedshiftLibrary/processflow/autoscope.h"
#include "RedshiftLibrary/processflow/context.h"
#include "RedshiftLibrary/spectrum/LSFFactory.h"

// a profile of exact values: one at the centre, half at two widths
struct Tent : CLineProfile {
  Tent(double n) : CLineProfile(n, SYM) {}
  Float64 GetLineProfileVal(Float64 x, Float64 x0, Float64 s) const override {
    return std::max(0., 1. - std::abs(x - x0) / (4. * s));
  }
  Float64 GetLineFlux(Float64, Float64 s, Float64 A) const override { return 4. * s * A; }
  Float64 GetLineProfileDerivX0(Float64, Float64, Float64) const override { return 0.; }
  Float64 GetLineProfileDerivSigma(Float64, Float64, Float64) const override { return 0.; }
  CLineProfile *CloneImplementation() const override { return new Tent(*this); }
};

struct D : drv::Driver {
  CLineMap lines;
  std::shared_ptr<CLMEltListVector> els;
  std::shared_ptr<std::vector<std::shared_ptr<const CSpectrum>>> spcs;
  CSpcModelVectorPtr models;
  std::unique_ptr<CIndividualFitter> fitter;
  CTLambdaRangePtrVector ranges;
  std::shared_ptr<CTplModelSolution> sol;
  double z = 0;
  D() {
    Context.reset();
    Context.LoadParameterStore(json{{"galaxy",
                                     {{"redshiftSolver",
                                       {{"lineModelSolve",
                                         {{"lineModel",
                                           {{"velocityEmission", 100.},
                                            {"velocityAbsorption", 300.},
                                            {"lineWidthType", "instrumentDriven"},
                                            {"lya", {{"profile", "sym"}}}}}}}}}}}}
                                   .dump());
  }
  void reset() override {
    fitter.reset();
    models.reset();
    els.reset();
    lines.clear();
    ranges.clear();
    z = 0;
  }
  static json num(double x, double unit) {
    if (std::isnan(x))
      return -99999999;
    return std::abs(x * unit) < 2e9 ? std::llround(x * unit) : 99999999;
  }
  static json list(TInt32List const &l, int shift = 0) {
    json j = json::array();
    for (int i : l)
      j.push_back(i + shift);
    return j;
  }
  static CLine::EType type(json const &t) {
    return t == "E"   ? CLine::EType::nType_Emission
           : t == "A" ? CLine::EType::nType_Absorption
                      : CLine::EType::nType_All;
  }
  static TInt32List idx(json const &l) {
    TInt32List r;
    for (int i : l)
      r.push_back(i - 1);
    return r;
  }
  CSpectrumModel &at(int s) { return models->m_models.at(s); }
  void eachModel(std::function<void(CSpectrumModel &, int)> f) {
    for (size_t s = 0; s < models->m_models.size(); ++s)
      f(at(s), s);
  }
  void build(json const &o) {
    reset();
    int id = 0;
    for (auto const &l : o["lines"]) {
      int g = l["g"], v = l["v"];
      lines[id] = CLine("l" + std::to_string(id), l["pos"].get<int>(), type(l["t"]),
                        std::make_unique<Tent>(l["ns"].get<int>()), CLine::EForce::nForce_Strong, 0., false,
                        g == 0 ? undefStr : "g" + std::to_string(g), l["nom"].get<int>(),
                        v == 0 ? undefStr : "v" + std::to_string(v), id, std::string("i") + char('a' + id));
      ++id;
    }
    auto lsf = LSFFactory.Create("gaussianConstantWidth",
                                 std::make_shared<TLSFGaussianConstantWidthArgs>(o["w"].get<int>()));
    spcs = std::make_shared<std::vector<std::shared_ptr<const CSpectrum>>>();
    for (auto const &s : o["spectra"]) {
      int n = s["n"], x0 = s["x0"], k = s["seed"];
      TFloat64List w(n), f(n), e(n), c(n);
      for (int i = 0; i < n; ++i) {
        w[i] = x0 + i;
        f[i] = (i * 7 + k * 3) % 11;
        e[i] = 1 + (i + k) % 2;
        c[i] = 2 * ((i * 3 + k) % 4);
      }
      auto spc = std::make_shared<CSpectrum>(CSpectrumSpectralAxis(w),
                                             CSpectrumFluxAxis(f, CSpectrumNoiseAxis(e)));
      spc->SetContinuumEstimationMethod(CSpectrumFluxAxis(c));
      spc->SetLSF(lsf);
      spcs->push_back(spc);
      ranges.push_back(std::make_shared<TLambdaRange>(s["b"].get<int>(), s["e"].get<int>()));
    }
    CSpectraGlobalIndex gi(ranges.size());
    std::string c = o["comp"];
    els = std::make_shared<CLMEltListVector>(ranges, gi, lines,
                                             c == "default"   ? ElementComposition::Default
                                             : c == "perline" ? ElementComposition::OneLine
                                                              : ElementComposition::EmissionAbsorption);
    models = std::make_shared<CSpcModelVector>(gi);
    sol = std::make_shared<CTplModelSolution>();
    for (size_t s = 0; s < ranges.size(); ++s) {
      auto l = std::make_shared<CLineModelElementList>(els->m_ElementsVector[s]);
      for (auto &e : els->m_ElementsVector[s])
        e->SetLSF(lsf);
      models->push_back(CSpectrumModel(l, (*spcs)[s], lines, sol, nullptr, s));
    }
    fitter = std::make_unique<CIndividualFitter>(els, spcs, ranges, models, lines, gi);
    eachModel([&](CSpectrumModel &m, int) {
      m.setContinuumComponent("noContinuum");
      m.m_observeGridContinuumFlux.assign(m.m_inputSpc->GetSampleCount(), 0.);
    });
    redshift(0);
  }
  void redshift(int halves) {
    z = halves / 2.;
    eachModel([&](CSpectrumModel &m, int) { m.m_Redshift = z; });
    fitter->initFit(z);
  }
  json amps() {
    json r = json::array();
    for (auto const &p : els->getElementParam())
      r.push_back(json{{"d", num(p->GetDtmFree(), 32)},
                       {"m", num(p->getSumGauss(), 256)},
                       {"a", json::array()},
                       {"s", json::array()}}),
          std::for_each(p->m_FittedAmplitudes.begin(), p->m_FittedAmplitudes.end(),
                        [&](double a) { r.back()["a"].push_back(num(a, 64)); }),
          std::for_each(p->m_FittedAmplitudesStd.begin(), p->m_FittedAmplitudesStd.end(),
                        [&](double a) { r.back()["s"].push_back(num(a * a * p->getSumGauss(), 64)); });
    return r;
  }
  json query(json const &o) {
    std::string q = o["q"];
    int s = o["s"].get<int>() - 1;
    auto &m = at(s);
    auto &l = *m.m_Elements;
    if (q == "support")
      return list(l.getSupportIndexes(idx(o["elts"])));
    if (q == "valid")
      return list(l.getValidElementIndices(type(o["t"])), 1);
    if (q == "overlap") {
      auto x = idx(o["excl"]);
      return list(l.getOverlappingElements(o["i"].get<int>() - 1, TInt32Set(x.begin(), x.end()), z,
                                           o["thr"].get<int>() / 100.),
                  1);
    }
    if (q == "velocity") {
      json r = json::array();
      for (auto const &g : l.GetModelVelfitGroups(type(o["t"])))
        r.push_back(list(g, 1));
      return r;
    }
    if (q == "residual") {
      auto [f, e] = m.getModelSquaredResidualUnderElements(idx(o["elts"]), o["cont"].get<bool>(), o["w"].get<bool>());
      return {num(f, 4096), num(e, 4)};
    }
    if (q == "rms") {
      double r = models->getModelResidualRmsUnderElements(idx(o["elts"]), o["cont"].get<bool>(), o["w"].get<bool>());
      return num(r * r, 16);
    }
    if (q == "integral") {
      auto [f, e] = m.getFluxDirectIntegration(idx(o["elts"]), idx(o["ls"]), o["abs"].get<bool>(), *ranges[s]);
      return {num(f, 64), num(e, 4)};
    }
    if (q == "removed") {
      auto r = m.GetObservedSpectrumWithLinesRemoved(type(o["t"]));
      json j = json::array();
      for (double y : r.GetFluxAxis().GetSamplesVector())
        j.push_back(num(y, 3200));
      return j;
    }
    if (q == "at") {
      double v = l[o["i"].get<int>() - 1]->getModelAtLambda(o["x"].get<int>(), z, 1.);
      return num(v, 32);
    }
    return 0;
  }
  json step(json const &o) override {
    CAutoScope a1(Context.m_ScopeStack, "galaxy", ScopeType::SPECTRUMMODEL);
    CAutoScope a2(Context.m_ScopeStack, "redshiftSolver", ScopeType::STAGE);
    CAutoScope a3(Context.m_ScopeStack, "lineModelSolve", ScopeType::METHOD);
    std::string a = o["a"];
    json b, r = 0;
    b["ret"] = drv::attempt([&] {
      if (els)
        els->m_spectraIndex.reset();
      if (a == "model")
        build(o);
      else if (a == "z")
        redshift(o["z"]);
      else if (a == "amp")
        els->SetElementAmplitude(o["i"].get<int>() - 1, o["A"] == -99999999 ? NAN : o["A"].get<int>() / 4.,
                                 o["S"].get<int>() / 4.);
      else if (a == "component")
        eachModel([&](CSpectrumModel &m, int) { m.setContinuumComponent(o["c"]); });
      else if (a == "template")
        eachModel([&](CSpectrumModel &m, int s) {
          for (size_t i = 0; i < m.m_observeGridContinuumFlux.size(); ++i)
            m.m_observeGridContinuumFlux[i] = 1. + (i + s) % 3;
          TFloat64List c;
          for (int x : o["poly"])
            c.push_back(x);
          m.setContinuumFromTplFit(o["alpha"].get<int>() / 2., o["A"].get<int>(), c);
        });
      else if (a == "initcont")
        eachModel([&](CSpectrumModel &m, int) { m.initModelWithContinuum(); });
      else if (a == "tospectrum")
        eachModel([&](CSpectrumModel &m, int) { m.setContinuumToInputSpc(); });
      else if (a == "offset") {
        auto &p = els->getElementParam()[o["i"].get<int>() - 1];
        p->m_fittingGroupInfo = "g" + std::to_string(o["g"].get<int>());
        p->m_ampOffsetsCoeffs = TPolynomCoeffs(o["c"].get<int>(), 0., 0.);
      } else if (a == "offsets")
        models->setEnableAmplitudeOffsets(o["on"].get<bool>());
      else if (a == "reinit")
        models->reinitAllModels();
      else if (a == "refresh")
        o["t"] == "all" ? models->refreshAllModels()
                        : eachModel([&](CSpectrumModel &m, int) { m.refreshModel(type(o["t"])); });
      else if (a == "under")
        models->refreshAllModelsUnderElements(idx(o["elts"]), o["l"] == 0 ? undefIdx : o["l"].get<int>() - 1);
      else if (a == "fit" || a == "fitall") {
        std::vector<TLineModelElementParam> saved;
        for (auto const &p : els->getElementParam())
          saved.push_back(*p);
        if (a == "fitall") {
          z = o["z"].get<int>() / 2.;
          eachModel([&](CSpectrumModel &m, int) { m.m_Redshift = z; });
          fitter->fit(z);
          r = amps();
        } else {
          int i = o["i"].get<int>() - 1;
          fitter->fitAmplitude(i, z, o["l"] == 0 ? undefIdx : o["l"].get<int>() - 1);
          r = amps()[i];
        }
        for (size_t i = 0; i < saved.size(); ++i) {
          auto &p = *els->getElementParam()[i];
          if (a == "fitall")
            p.resetFittingParams();
          else {
            p.m_FittedAmplitudes = saved[i].m_FittedAmplitudes;
            p.m_FittedAmplitudesStd = saved[i].m_FittedAmplitudesStd;
          }
        }
      } else if (a == "query")
        r = query(o);
    });
    b["res"] = r;
    b["sp"] = json::array();
    b["el"] = json::array();
    if (!els)
      return b;
    for (size_t s = 0; s < models->m_models.size(); ++s) {
      json j = {{"flux", json::array()}, {"elts", json::array()}};
      for (double y : at(s).GetModelSpectrum().GetFluxAxis().GetSamplesVector())
        j["flux"].push_back(num(y, 32));
      for (auto const &e : *at(s).m_Elements) {
        json k = {{"out", e->IsOutsideLambdaRange()}, {"lo", json::array()}, {"own", json::array()}, {"sup", json::array()}};
        for (int i = 0; i < e->GetSize(); ++i) {
          bool out = e->IsOutsideLambdaRangeLine(i);
          k["lo"].push_back(out);
          auto t = e->getTheoreticalSupportSubElt(i);
          k["own"].push_back(out ? json::array() : json{t.GetBegin(), t.GetEnd()});
        }
        for (auto const &p : e->getSupport())
          if (p.GetBegin() <= p.GetEnd())
            k["sup"].push_back({p.GetBegin(), p.GetEnd()});
        std::sort(k["sup"].begin(), k["sup"].end());
        j["elts"].push_back(k);
      }
      b["sp"].push_back(j);
    }
    for (size_t i = 0; i < els->getElementParam().size(); ++i) {
      auto const &p = els->getElementParam()[i];
      json e = {{"out", els->isOutsideLambdaRange(i)}, {"lo", json::array()}, {"amp", json::array()}, {"std", json::array()}};
      for (int l = 0; l < p->size(); ++l) {
        e["lo"].push_back(els->isOutsideLambdaRangeLine(i, l));
        e["amp"].push_back(num(p->GetFittedAmplitude(l), 4));
        e["std"].push_back(num(p->GetFittedAmplitudeStd(l), 4));
      }
      b["el"].push_back(e);
    }
    return b;
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}
