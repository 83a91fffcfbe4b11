// Chi-square fits of templates on logarithmic grids: pixel r of the rest frame
// is at 1215.67 * exp(D * (r - 1/2)), redshift k is exp(D * k) - 1.  Fluxes are
// integers, noises 1 or 2, extinctions powers of 1/2.
#include "drv.h"

#include <atomic>
#include <chrono>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#define private public
#include "RedshiftLibrary/processflow/inputcontext.h"
#undef private
#include "RedshiftLibrary/operator/modelspectrumresult.h"
#include "RedshiftLibrary/operator/templatefitting.h"
#include "RedshiftLibrary/operator/templatefittinglog.h"
#include "RedshiftLibrary/operator/templatefittingresult.h"
#include "RedshiftLibrary/operator/tplcombination.h"
#include "RedshiftLibrary/operator/tplcombinationresult.h"
#include "RedshiftLibrary/processflow/context.h"
#include "RedshiftLibrary/processflow/parameterstore.h"
#include "RedshiftLibrary/spectrum/LSFFactory.h"
#include "RedshiftLibrary/spectrum/maskBuilder.h"
#include "RedshiftLibrary/spectrum/template/template.h"

static double const DL = 0.002, LYA = RESTLAMBDA_LYA;
static double lam(double r) { return LYA * std::exp(DL * (r - .5)); }
static double red(double k) { return std::exp(DL * k) - 1; }
static int cell(double l) { return int(std::round(std::log(l / LYA) / DL + .5)); }
static int mod(int a, int b) { return ((a % b) + b) % b; }

struct Drop : CMaskBuilder {
  int rule;
  Drop(int r) : rule(r) {}
  CMask getMask(const CSpectrumSpectralAxis &x, const TFloat64Range &,
                const Float64 &z) override {
    int k = int(std::round(std::log(1 + z) / DL));
    CMask m(x.GetSamplesCount(), 1);
    for (int i = 0; i < x.GetSamplesCount(); ++i)
      if (mod(cell(x[i]) + k, 3) == rule - 1)
        m[i] = 0;
    return m;
  }
};

struct D : drv::Driver {
  std::map<int, std::shared_ptr<CSpectrumFluxCorrectionCalzetti>> calzs;
  std::shared_ptr<CSpectrumFluxCorrectionCalzetti> calz;
  std::map<std::string, std::shared_ptr<CSpectrumFluxCorrectionMeiksin>> meiks;
  std::shared_ptr<CSpectrumFluxCorrectionMeiksin> meik;
  std::vector<json> tpls;
  std::unique_ptr<COperatorTemplateFittingBase> op;
  std::unique_ptr<COperatorTplcombination> comb;
  bool fft = false;
  json grid;
  int top = 4;
  json specs;
  std::vector<TFloat64List> obsErr;

  std::shared_ptr<CInputContext> ic() {
    return std::const_pointer_cast<CInputContext>(Context.GetInputContext());
  }
  void setMeik(json const &b) {
    auto &m = meiks[b.dump() + std::to_string(top)];
    calz = calzs[top];
    if (!m) {
      TFloat64List z;
      for (auto const &x : b)
        z.push_back(red(x["m"].get<int>() - .5 + .2 * x["o"].get<int>()));
      std::vector<MeiksinCorrection> curves;
      for (size_t s = 0; s + 1 < z.size(); ++s) {
        TFloat64List w;
        std::vector<TFloat64List> f(3);
        for (int k = 0; k <= 2400; ++k) {
          w.push_back(1100 + k * 0.05);
          int r = cell(w.back());
          for (int i = 0; i < 3; ++i)
            f[i].push_back(std::exp2(-mod(int(s) + 1 + i - std::min(r, 0), top == 4 ? 3 : 2)));
        }
        curves.emplace_back(w, f);
      }
      m = std::make_shared<CSpectrumFluxCorrectionMeiksin>(curves, z);
      auto ps = std::make_shared<CParameterStore>(std::make_shared<CScopeStack>());
      ps->Set("lsf.width", 0.001);
      std::shared_ptr<TLSFArguments> args =
          std::make_shared<TLSFGaussianConstantWidthArgs>(ps);
      m->convolveByLSF(LSFFactory.Create("gaussianConstantWidth", args),
                       TFloat64Range(1, 1e7));
    }
    meik = m;
  }
  void reset() override {
    for (int e : {2, 4}) {
      auto &calz = calzs[e];
      if (calz)
        continue;
      TFloat64List x, y;
      for (int i = 0; i <= 5000; ++i) {
        x.push_back(1100 + i * 0.05);
        y.push_back(mod(cell(x.back()), 2) / (0.4 * std::log2(10.)));
      }
      calz = std::make_shared<CSpectrumFluxCorrectionCalzetti>(
          CalzettiCorrection(x, y), 0., 1., e == 4 ? 3 : 2);
    }
    while (!Context.m_ScopeStack->empty())
      Context.m_ScopeStack->pop_back();
    Context.reset();
    Context.LoadParameterStore("{}");
    op.reset();
    comb.reset();
    meik.reset();
    specs = json::array();
    tpls.assign(2, json());
  }
  std::shared_ptr<CTemplate> tpl(int n, bool regular) {
    json const &t = tpls[n - 1];
    TFloat64List w, f;
    int lo = t["lo"], k = 0;
    int cnt = int(t["t"].size());
    if (!regular) {
      w.push_back(lam(lo - .3));
      f.push_back(t["t"][0].get<int>());
    }
    for (auto v : t["t"]) {
      w.push_back(lam(lo + k++));
      f.push_back(v.get<int>());
    }
    if (!regular) {
      w.push_back(lam(lo + cnt - 1 + .3));
      f.push_back(t["t"][cnt - 1].get<int>());
    }
    auto r = std::make_shared<CTemplate>("t", "c", CSpectrumSpectralAxis(w), CSpectrumFluxAxis(f));
    r->m_ismCorrectionCalzetti = calz;
    r->m_igmCorrectionMeiksin = meik;
    return r;
  }
  TFloat64List zs(json const &o) {
    TFloat64List z;
    for (int i = 0; i < o["n"].get<int>(); ++i)
      z.push_back(red(o["k0"].get<int>() + i * o["step"].get<int>()));
    return z;
  }
  // x as an integer, or a string showing that it is not one
  static json whole(double x) {
    double r = std::round(x);
    if (!(std::abs(x - r) <= 1e-6 * (1 + std::abs(x))) || std::abs(x) > 2e9)
      return std::to_string(x);
    return int(r);
  }
  static json small(double x) { return std::isfinite(x) && std::abs(x) < 2e5 ? json(int(std::floor(x * 10000 + 1e-6))) : json(-2000000000); }
  static void cst(json &b, double l) {
    b["cst"] = "none";
    for (int n = 0; n < 40; ++n)
      for (int m = -40; m <= 80; ++m)
        if (std::abs(l + n * .5 * std::log(2 * M_PI) + m * .5 * std::log(2.)) < 1e-8)
          b["cst"] = json{n, m};
  }
  json step(json const &o) override {
    std::string a = o["a"];
    json b;
    std::string ret = drv::attempt([&] {
      if (a == "spec") {
        specs = o["sp"];
        auto c = ic();
        c->m_spectra.clear(), c->m_constSpectra.clear(), c->m_rebinnedSpectra.clear();
        c->m_constRebinnedSpectra.clear(), c->m_lambdaRanges.clear(), c->m_clampedLambdaRanges.clear();
        c->m_rebinnedClampedLambdaRanges.clear(), c->m_constClampedLambdaRanges.clear();
        c->m_constRebinnedClampedLambdaRanges.clear();
        int id = 0;
        for (auto const &s : specs) {
          TFloat64List w, f, e;
          int off = s["off"], lo = s["lo"], hi = s["hi"];
          for (size_t p = 0; p < s["f"].size(); ++p) {
            w.push_back(lam(off + int(p)));
            f.push_back(s["f"][p].get<int>());
            e.push_back(s["s"][p].get<int>());
          }
          auto mk = [&](size_t i, size_t j) {
            auto r = std::make_shared<CSpectrum>(
                CSpectrumSpectralAxis(TFloat64List(w.begin() + i, w.begin() + j)),
                CSpectrumFluxAxis(CSpectrumFluxAxis(TFloat64List(f.begin() + i, f.begin() + j)),
                                  CSpectrumNoiseAxis(TFloat64List(e.begin() + i, e.begin() + j))));
            r->setObsID(std::to_string(id));
            return r;
          };
          c->addSpectrum(mk(0, w.size()));
          c->addRebinSpectrum(mk(lo, hi + 1));
          auto lr = std::make_shared<TFloat64Range>(lam(off + lo - .3), lam(off + hi + .3));
          c->m_lambdaRanges.push_back(lr);
          auto cl = std::make_shared<TFloat64Range>(), rc = std::make_shared<TFloat64Range>();
          c->m_spectra.back()->GetSpectralAxis().ClampLambdaRange(*lr, *cl);
          c->m_rebinnedSpectra.back()->GetSpectralAxis().ClampLambdaRange(*lr, *rc);
          c->m_clampedLambdaRanges.push_back(cl);
          c->m_constClampedLambdaRanges.push_back(cl);
          c->m_rebinnedClampedLambdaRanges.push_back(rc);
          c->m_constRebinnedClampedLambdaRanges.push_back(rc);
          ++id;
        }
        op.reset();
      } else if (a == "igm") {
        top = o["top"];
        setMeik(o["b"]);
      } else if (a == "tpl")
        tpls[o["n"].get<int>() - 1] = o;
      else if (a == "oper") {
        fft = o["kind"] == "fft";
        op.reset();
        comb.reset();
        grid = o;
        if (o["kind"] == "comb")
          comb = std::make_unique<COperatorTplcombination>();
        else if (fft)
          op = std::make_unique<COperatorTemplateFittingLog>(zs(o));
        else
          op = std::make_unique<COperatorTemplateFitting>(zs(o));
      } else if (a == "reds") {
        grid = o;
        if (!comb)
          op->SetRedshifts(zs(o));
      } else if (a == "fit" && comb) {
        auto z = zs(grid);
        std::reverse(z.begin(), z.end());
        TTemplateConstRefList l{tpl(1, false), tpl(2, false)};
        auto c = ic();
        auto r = std::dynamic_pointer_cast<CTplCombinationResult>(comb->Compute(
            *c->GetSpectrum(), l, *c->m_lambdaRanges[0], z, o["ov"].get<int>() / 4.,
            std::vector<CMask>(), "lin", o["ext"] == 1, o["dust"] == 1, CPriorHelper::TPriorZEList(),
            o["ie"], o["im"]));
        b["z"] = json::array();
        for (size_t i = 0; i < r->Redshifts.size(); ++i) {
          json q;
          q["k"] = whole(std::log(1 + r->Redshifts[i]) / DL);
          q["x"] = small(r->ChiSquare[i]);
          q["e"] = whole(r->FitEbmvCoeff[i]);
          q["m"] = r->FitMeiksinIdx[i];
          q["a"] = q["v"] = json::array();
          bool good = r->FitAmplitude[i].size() == 2;
          for (size_t j = 0; j < r->FitAmplitude[i].size(); ++j) {
            double am = r->FitAmplitude[i][j], er = r->FitAmplitudeError[i][j];
            q["a"].push_back(am < 1e6 && am > -1e6 ? int(std::floor(am * 500 + 1e-6)) : 2000000000);
            q["v"].push_back(er < 1e3 ? int(std::floor(er * er * 1000 + 1e-6)) : 2000000000);
            good = good && std::abs(r->FitAmplitudeSigma[i][j] - am / er) < 1e-9 * (1 + std::abs(am / er));
          }
          q["good"] = good;
          q["y"] = json::array();
          for (auto const &l : r->ChiSquareIntermediate[i]) {
            q["y"].push_back(json::array());
            for (auto v : l)
              q["y"].back().push_back(small(v));
          }
          q["ov"] = json::array();
          for (auto v : r->Overlap[i])
            q["ov"].push_back(int(std::round(v * 27720)));
          b["z"].push_back(q);
        }
        cst(b, r->CstLog);
      } else if (a == "fit") {
        int mask = o["mask"], thr = o["thr"];
        op->setMaskBuilder(mask ? std::make_shared<Drop>(mask) : std::make_shared<CMaskBuilder>());
        auto r = std::dynamic_pointer_cast<CTemplateFittingResult>(op->Compute(
            tpl(o["t"], fft), o["ov"].get<int>() / 4., "lin", o["ext"] == 1, o["dust"] == 1,
            thr == 0 ? 0. : thr * 2.5 * (1 + 1e-9), CPriorHelper::TPriorZEList(), o["ie"], o["im"]));
        b["z"] = json::array();
        for (size_t i = 0; i < r->Redshifts.size(); ++i) {
          json q;
          double am = r->FitAmplitude[i], dtm = r->FitDtM[i], mtm = r->FitMtM[i];
          q["c"] = whole(dtm * 4 * (1 << top));
          q["t"] = whole(mtm * 4 * (1 << (2 * top)));
          q["x"] = small(r->ChiSquare[i]);
          double eb = r->FitEbmvCoeff[i];
          q["e"] = whole(eb);
          q["m"] = r->FitMeiksinIdx[i];
          q["free"] = am == 0 ? 0 : 1;
          q["k"] = whole(std::log(1 + r->Redshifts[i]) / DL);
          bool good = (am == 0 || std::abs(am * mtm - dtm) < 1e-9 * (1 + std::abs(dtm))) &&
                      std::abs(r->FitAmplitudeError[i] * std::sqrt(mtm) - 1) < 1e-9 &&
                      std::abs(r->FitAmplitudeSigma[i] - dtm / std::sqrt(mtm)) < 1e-9 * (1 + std::abs(dtm)) &&
                      std::abs(r->SNR[i] - (fft || dtm > 0 ? dtm / std::sqrt(mtm) : 0)) < 1e-9 * (1 + std::abs(dtm));
          q["good"] = good;
          q["y"] = json::array();
          for (auto const &l : r->ChiSquareIntermediate[i]) {
            q["y"].push_back(json::array());
            for (auto v : l)
              q["y"].back().push_back(small(v));
          }
          q["ov"] = json::array();
          for (auto v : r->Overlap[i])
            q["ov"].push_back(int(std::round(v * 27720)));
          b["z"].push_back(q);
        }
        cst(b, r->CstLog);
      } else if (a == "model") {
        auto models = std::make_shared<CModelSpectrumResult>();
        int s = o["s"];
        std::string id = std::to_string(s - 1);
        if (comb) {
          auto c = ic();
          TTemplateConstRefList l{tpl(1, false), tpl(2, false)};
          id = "";
          models = comb->ComputeSpectrumModel(
              *c->GetSpectrum(), l, red(o["k"].get<int>()), o["e"], o["m"],
              TFloat64List{double(o["amp"].get<int>()), 2.}, *c->m_clampedLambdaRanges[0],
              o["ov"].get<int>() / 4.);
        } else
          op->ComputeSpectrumModel(tpl(o["t"], false), red(o["k"].get<int>()), o["e"], o["m"],
                                   o["amp"].get<int>(), o["ov"].get<int>() / 4., s - 1, models);
        auto const &w = models->ModelLambda.at(id);
        auto const &f = models->ModelFlux.at(id);
        b["f"] = json::array();
        int off = specs[s - 1]["off"], lo = specs[s - 1]["lo"], hi = specs[s - 1]["hi"];
        b["w"] = w.size() == specs[s - 1]["f"].size();
        for (size_t i = 0; i < w.size(); ++i) {
          if (std::abs(w[i] / lam(off + int(i)) - 1) > 1e-9)
            b["w"] = false;
          if (int(i) >= lo && int(i) <= hi)
            b["f"].push_back(whole(f[i] * (1 << top)));
        }
      }
    });
    if (ret != "ok")
      b = json::object();
    b["ret"] = ret == "ok" ? "ok" : "err";
    if (ret != "ok" && getenv("DBG"))
      b["why"] = ret;
    return b;
  }
};

int main(int c, char **v) {
  D d;
  return drv::main_(c, v, d, 60);
}
