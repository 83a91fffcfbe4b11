// Extinction of templates.  Fluxes and corrections are powers of two and are
// observed as exponents.
#include "drv.h"

#include "RedshiftLibrary/continuum/irregularsamplingmedian.h"
#include "RedshiftLibrary/processflow/parameterstore.h"
#include "RedshiftLibrary/spectrum/LSFFactory.h"
#include "RedshiftLibrary/spectrum/template/template.h"

struct D : drv::Driver {
  std::shared_ptr<CSpectrumFluxCorrectionCalzetti> calz;
  std::shared_ptr<CSpectrumFluxCorrectionMeiksin> meik;
  std::vector<std::unique_ptr<CTemplate>> t;
  int slots = 2, nsamp = 6, ndust = 3;
  TFloat64List const lambda{1190, 1205, 1212, 1215, 1225, 1230};

  void build() {
    // dust: 1200 to 1228 by steps of 1; cells of 4
    TFloat64List x, y;
    for (int i = 0; i <= 28; ++i) {
      x.push_back(1200 + i);
      y.push_back((1 + i / 4) / (0.4 * std::log2(10.)));
    }
    calz = std::make_shared<CSpectrumFluxCorrectionCalzetti>(
        CalzettiCorrection(x, y), 0., 1., ndust);
    std::vector<MeiksinCorrection> curves;
    for (int z = 0; z < 2; ++z) {
      TFloat64List w;
      std::vector<TFloat64List> f(2);
      for (int k = 0; k <= 340; ++k) {
        w.push_back(1200 + k * 0.05);
        int cell = (k * 5) / 300; // hundredths of angstroms, cells of 3
        for (int i = 0; i < 2; ++i)
          f[i].push_back(std::exp2(-((z + 1) * (10 + i) + cell * (i + 1))));
      }
      curves.emplace_back(w, f);
    }
    meik = std::make_shared<CSpectrumFluxCorrectionMeiksin>(
        curves, TFloat64List{2, 3, 4});
    auto scope = std::make_shared<CScopeStack>();
    auto ps = std::make_shared<CParameterStore>(scope);
    ps->Set("lsf.width", 0.001);
    std::shared_ptr<TLSFArguments> args =
        std::make_shared<TLSFGaussianConstantWidthArgs>(ps);
    meik->convolveByLSF(LSFFactory.Create("gaussianConstantWidth", args),
                        TFloat64Range(1000, 20000));
  }
  void reset() override {
    if (!calz)
      build();
    t.clear();
    for (int i = 0; i < slots; ++i)
      t.push_back(fresh());
  }
  std::unique_ptr<CTemplate> fresh() {
    TFloat64List w(lambda.begin(), lambda.begin() + nsamp), f;
    for (int k = 1; k <= nsamp; ++k)
      f.push_back(std::exp2(3 * k));
    auto r = std::make_unique<CTemplate>("t", "c", CSpectrumSpectralAxis(w),
                                         CSpectrumFluxAxis(f));
    r->SetContinuumEstimationMethod("zero");
    return r;
  }
  static int ex(double v) {
    if (!(v > 0))
      return 9999;
    double l = std::log2(v);
    return std::abs(l - std::round(l)) < 1e-9 ? int(std::round(l)) : 8888;
  }
  static json exs(TFloat64List const &l) {
    json r = json::array();
    for (auto v : l)
      r.push_back(ex(v));
    return r;
  }
  template <typename F> json get(F f, json err) {
    json r;
    return drv::attempt([&] { r = f(); }) == "ok" ? r : err;
  }
  json obs(CTemplate const &c) {
    json o;
    o["w"] = json::array();
    for (auto v : c.GetSpectralAxis().GetSamplesVector())
      o["w"].push_back(int(std::round(v * 10)));
    o["flux"] = exs(c.GetFluxAxis().GetSamplesVector());
    o["on"] = c.CheckIsmIgmEnabled();
    o["d"] = get([&] { return json(c.GetIsmCoeff()); }, -9);
    o["i"] = get([&] { return json(c.GetIgmCoeff()); }, -9);
    o["range"] = get([&] { return json(c.GetIsmIgmRangeIndex()); }, json::array());
    o["iend"] = get([&] { return json(c.GetIgmEndIndex()); }, -9);
    o["cd"] = o["ci"] = json::array();
    if (c.CheckIsmIgmEnabled()) {
      o["cd"] = exs(c.GetcomputedDustCoeffs());
      o["ci"] = exs(c.GetcomputedMeiksinCoeffs());
    }
    json err = {-9};
    o["ism"] = get([&] { return json(c.GetIsmIdxList(true)); }, err);
    o["igm"] = get([&] { return json(c.GetIgmIdxList(true)); }, err);
    o["ism1"] = get([&] { return json(c.GetIsmIdxList(true, 1)); }, err);
    o["igm1"] = get([&] { return json(c.GetIgmIdxList(true, 1)); }, err);
    o["no"] = get([&] {
      TInt32List m, e;
      c.GetIsmIgmIdxList(false, false, m, e);
      m.insert(m.end(), e.begin(), e.end());
      return json(m);
    }, err);
    o["ty"] = c.GetType() == CSpectrum::nType_raw          ? "raw"
              : c.GetType() == CSpectrum::nType_noContinuum ? "noContinuum"
                                                             : "other";
    return o;
  }
  json step(json const &op) override {
    std::string a = op["a"], ret = "ok";
    auto &p = t[op["t"].get<int>() - 1];
    std::shared_ptr<CSpectrumFluxCorrectionCalzetti> c;
    std::shared_ptr<CSpectrumFluxCorrectionMeiksin> m;
    if (op.count("g")) {
      if (op["g"] == "calz" || op["g"] == "both")
        c = calz;
      if (op["g"] == "meik" || op["g"] == "both")
        m = meik;
    }
    auto z = [&] { return op["z"].get<int>() / 10.; };
    std::string e = drv::attempt([&] {
      if (a == "init")
        p->InitIsmIgmConfig(op["ks"].get<int>(), op["ke"].get<int>(), z(), c, m);
      else if (a == "full")
        p->InitIsmIgmConfig(z(), c, m);
      else if (a == "range")
        p->InitIsmIgmConfig(TFloat64Range(op["lo"].get<int>() / 10., op["hi"].get<int>() / 10.), z(), c, m);
      else if (a == "dust")
        ret = p->ApplyDustCoeff(op["k"]) ? "true" : "false";
      else if (a == "igm")
        ret = p->ApplyMeiksinCoeff(op["k"]) ? "true" : "false";
      else if (a == "amp")
        p->ApplyAmplitude(std::exp2(op["e"].get<int>()));
      else if (a == "off")
        p->DisableIsmIgm();
      else if (a == "flux") {
        TFloat64List f;
        for (int k = 1; k <= p->GetSampleCount(); ++k)
          f.push_back(std::exp2(k));
        p->SetFluxAxis(CSpectrumFluxAxis(f));
      } else if (a == "type" || a == "ctype") {
        auto ty = op["ty"] == "raw" ? CSpectrum::nType_raw : CSpectrum::nType_noContinuum;
        if (a == "type")
          p->SetType(ty);
        else
          static_cast<CTemplate const &>(*p).SetType(ty);
      } else if (a == "copy")
        t[op["u"].get<int>() - 1] = std::make_unique<CTemplate>(*p);
      else if (a == "assign")
        *t[op["u"].get<int>() - 1] = *p;
      else if (a == "move") {
        auto q = std::make_unique<CTemplate>(std::move(*p));
        p = fresh();
        t[op["u"].get<int>() - 1] = std::move(q);
      } else if (a == "moveassign") {
        *t[op["u"].get<int>() - 1] = std::move(*p);
        p = fresh();
      } else if (a == "mask") {
        TFloat64List mask;
        for (int v : op["m"])
          mask.push_back(v);
        *p = CTemplate(*p, mask);
      } else if (a == "again")
        p = fresh();
    });
    if (e != "ok")
      ret = e;
    json o;
    o["ret"] = ret;
    o["t"] = json::array();
    for (auto const &q : t)
      o["t"].push_back(obs(*q));
    return o;
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}
