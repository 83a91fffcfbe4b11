// Line model elements with fitted amplitudes, and the rules on them.
#include "drv.h"

#include <atomic>
#include <chrono>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#define private public
#include "RedshiftLibrary/linemodel/rulesmanager.h"
#undef private
#include "RedshiftLibrary/line/rule2singlelinesamplitude.h"
#include "RedshiftLibrary/line/ruleOIIRatioRange.h"
#include "RedshiftLibrary/line/ruleStrongHigherThanWeak.h"
#include "RedshiftLibrary/linemodel/elementlist.h"
#include "RedshiftLibrary/processflow/autoscope.h"
#include "RedshiftLibrary/processflow/context.h"
#include "RedshiftLibrary/spectrum/LSFFactory.h"

constexpr double U = 1024.;

struct D : drv::Driver {
  CLineMap lines;
  std::shared_ptr<CLMEltListVector> els;
  std::unique_ptr<CRulesManager> rules;
  std::shared_ptr<const CLSF> lsf;
  CTLambdaRangePtrVector ranges;
  D() {
    Context.reset();
    Context.LoadParameterStore(json{{"galaxy",
                                     {{"redshiftSolver",
                                       {{"lineModelSolve",
                                         {{"lineModel",
                                           {{"velocityEmission", 100.},
                                            {"velocityAbsorption", 300.},
                                            {"lineWidthType", "instrumentDriven"},
                                            {"lya", {{"profile", "sym"}}}}}}}}}}}}
                                   .dump());
    lsf = LSFFactory.Create("gaussianConstantWidth", std::make_shared<TLSFGaussianConstantWidthArgs>(10.));
  }
  void reset() override {
    rules.reset();
    els.reset();
    lines.clear();
  }
  static json num(double x) {
    if (std::isnan(x))
      return -99999999;
    return std::abs(x) < 5e5 ? std::llround(x * U) : 99999999;
  }
  static double val(json const &x) { return x == -99999999 ? NAN : x.get<int>() / U; }
  json step(json const &o) override {
    CAutoScope a1(Context.m_ScopeStack, "galaxy", ScopeType::SPECTRUMMODEL);
    CAutoScope a2(Context.m_ScopeStack, "redshiftSolver", ScopeType::STAGE);
    CAutoScope a3(Context.m_ScopeStack, "lineModelSolve", ScopeType::METHOD);
    std::string a = o["a"];
    json b;
    auto type = [&] { return o["t"] == "E" ? CLine::EType::nType_Emission : CLine::EType::nType_Absorption; };
    b["ret"] = drv::attempt([&] {
      if (els)
        els->m_spectraIndex.reset();
      if (a == "model") {
        int id = 0;
        for (auto const &l : o["lines"]) {
          int g = l["g"];
          CLine line(l["name"], l["pos"].get<int>(), l["t"] == "E" ? CLine::EType::nType_Emission : CLine::EType::nType_Absorption,
                     std::make_unique<CLineProfileSYM>(), l["f"] == "S" ? CLine::EForce::nForce_Strong : CLine::EForce::nForce_Weak,
                     0., false, g == 0 ? undefStr : "g" + std::to_string(g), l["nom"].get<int>() / 4., "v", id,
                     std::string("i") + char('a' + id));
          lines[id++] = line;
        }
        ranges.clear();
        for (auto const &r : o["ranges"])
          ranges.push_back(std::make_shared<TLambdaRange>(r[0].get<int>(), r[1].get<int>()));
        CSpectraGlobalIndex idx(ranges.size());
        std::string c = o["comp"];
        els = std::make_shared<CLMEltListVector>(ranges, idx, lines,
                                                 c == "default"   ? ElementComposition::Default
                                                 : c == "perline" ? ElementComposition::OneLine
                                                                  : ElementComposition::EmissionAbsorption);
        int k = 0;
        for (auto &i : els->m_spectraIndex) {
          (void)i;
          TFloat64List w;
          for (int x = o["ranges"][k][0]; x <= o["ranges"][k][1]; x += 2)
            w.push_back(x);
          CSpectrumSpectralAxis axis(w);
          for (auto &e : els->getElementList()) {
            e->SetLSF(lsf);
            e->prepareSupport(axis, 0., *ranges[k]);
          }
          ++k;
        }
        els->m_spectraIndex.reset();
        els->setGlobalOutsideLambdaRangeFromSpectra();
        els->resetElementsFittingParam(false);
        rules = std::make_unique<CRulesManager>(els, nullptr, nullptr, ranges, nullptr, lines, idx);
      } else if (a == "fit")
        els->SetElementAmplitude(o["i"].get<int>() - 1, val(o["amp"]), val(o["std"]));
      else if (a == "weak") {
        CRuleStrongHigherThanWeak r;
        r.SetUp(o["on"].get<bool>(), type());
        r.Apply(*els);
      } else if (a == "two") {
        CRule2SingleLinesAmplitude r;
        r.SetUp(o["on"].get<bool>(), type(), o["x"].get<std::string>().c_str(),
                o["y"].get<std::string>().c_str(), o["c"].get<int>() / 1000.);
        r.Apply(*els);
      } else if (a == "ratio") {
        CRuleRatioRange r;
        r.SetUp(o["on"].get<bool>(), type(), o["x"].get<std::string>().c_str(),
                o["y"].get<std::string>().c_str(), o["r"].get<int>() / 2.);
        r.Apply(*els);
      } else if (a == "rules") {
        std::string s;
        for (auto const &n : o["names"])
          s += (s.empty() ? "" : ",") + n.get<std::string>();
        rules = std::make_unique<CRulesManager>(els, nullptr, nullptr, ranges, nullptr, lines,
                                                els->m_spectraIndex);
        rules->setRulesOption(s);
      } else if (a == "apply")
        rules->applyRules(true);
    });
    b["els"] = json::array();
    for (size_t i = 0; els && i < els->getElementParam().size(); ++i) {
      auto const &p = els->getElementParam()[i];
      json e = {{"t", p->GetElementType() == CLine::EType::nType_Emission ? "E" : "A"}, {"names", json::array()},
                {"amp", json::array()}, {"std", json::array()}, {"out", json::array()},
                {"allout", els->isOutsideLambdaRange(i)}};
      for (int l = 0; l < p->size(); ++l) {
        e["names"].push_back(p->GetLineName(l));
        e["amp"].push_back(num(p->GetFittedAmplitude(l)));
        e["std"].push_back(num(p->GetFittedAmplitudeStd(l)));
        e["out"].push_back(els->isOutsideLambdaRangeLine(i, l));
      }
      b["els"].push_back(e);
    }
    return b;
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}
