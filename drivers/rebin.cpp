// Rebinning of a sampled curve.  Positions in units of 0.02 angstrom.
#include "drv.h"

#include "RedshiftLibrary/common/mask.h"
#include "RedshiftLibrary/spectrum/template/template.h"

struct D : drv::Driver {
  static constexpr double U = 0.02;
  std::shared_ptr<CSpectrumFluxCorrectionCalzetti> calz;
  std::unique_ptr<CTemplate> s;
  CSpectrum out; // reused from one call to the next
  CMask mask;
  D() {
    TFloat64List x, y; // divides the flux by 2 to the power of E(B-V)
    for (int i = 0; i <= 200; ++i) {
      x.push_back(1 + i);
      y.push_back(1 / (0.4 * std::log2(10.)));
    }
    calz = std::make_shared<CSpectrumFluxCorrectionCalzetti>(
        CalzettiCorrection(x, y), 0., 1., 2);
  }
  static TFloat64List list(json const &v, double f = 1, double shift = 0) {
    TFloat64List r;
    for (int e : v)
      r.push_back(shift + e * f);
    return r;
  }
  static CSpectrumSpectralAxis axis(json const &v) {
    return CSpectrumSpectralAxis(list(v, U, 20));
  }
  static CSpectrumFluxAxis flux(json const &o) {
    return CSpectrumFluxAxis(list(o["ys"]), CSpectrumNoiseAxis(list(o["es"])));
  }
  void reset() override {
    s.reset();
    out = CSpectrum();
    mask = CMask();
  }
  static json num(double v, double f) {
    if (std::isinf(v))
      return -1;
    double r = v * f;
    return std::abs(r) < 1e9 ? int(std::lround(r)) : -999999;
  }
  json step(json const &o) override {
    std::string a = o["a"];
    json obs = json::object();
    std::string ret = drv::attempt([&] {
      if (a == "src") {
        if (s)
          s->SetSpectralAndFluxAxes(axis(o["xs"]), flux(o));
        else
          s = std::make_unique<CTemplate>("t", "c", axis(o["xs"]), flux(o));
      } else if (a == "flux")
        s->SetFluxAxis(flux(o));
      else if (a == "wave")
        s->SetSpectralAxis(axis(o["xs"]));
      else if (a == "err")
        s->SetErrorAxis(CSpectrumNoiseAxis(list(o["es"])));
      else if (a == "scale")
        s->ApplyAmplitude(o["k"].get<int>());
      else if (a == "dust") {
        if (!s->CheckIsmIgmEnabled())
          s->InitIsmIgmConfig(0, s->GetSampleCount() - 1, 0., calz, nullptr);
        s->ApplyDustCoeff(o["k"]);
      } else if (a == "cont")
        s->SetContinuumEstimationMethod(CSpectrumFluxAxis(list(o["ys"])));
      else if (a == "type")
        s->SetType(o["t"] == "raw"    ? CSpectrum::nType_raw
                   : o["t"] == "cont" ? CSpectrum::nType_continuumOnly
                                      : CSpectrum::nType_noContinuum);
      else if (a == "how")
        s->setRebinInterpMethod(o["how"]);
      else if (a == "copy") {
        // constructed, assigned and moved copies
        CTemplate c(*s);
        CTemplate m(std::move(c));
        s = std::make_unique<CTemplate>("u", "c", CSpectrumSpectralAxis(TFloat64List{1, 2}),
                                        CSpectrumFluxAxis(TFloat64List{1, 2}));
        *s = m;
        CTemplate n("v", "c");
        n = std::move(*s);
        s = std::make_unique<CTemplate>(n);
      } else {
        auto q = axis(o["q"]);
        std::string err = o["err"];
        s->Rebin(TFloat64Range(20 + o["lo"].get<int>() * U,
                               20 + o["hi"].get<int>() * U),
                 q, out, mask, err);
        obs["grid"] = obs["mask"] = obs["flux"] = obs["err"] = json::array();
        auto const &w = out.GetSpectralAxis();
        auto const &e = out.GetErrorAxis().GetSamplesVector();
        for (int i = 0; i < out.GetSampleCount(); ++i) {
          obs["grid"].push_back(int(std::lround((w[i] - 20) / U)));
          obs["flux"].push_back(num(out.GetFluxAxis()[i], 160));
          obs["err"].push_back(err == "rebinVariance" ? num(e[i] * e[i], 1000)
                                                      : num(e[i], 160));
        }
        for (int i = 0; i < mask.GetMasksCount(); ++i)
          obs["mask"].push_back(int(mask[i]));
      }
    });
    obs["ret"] = ret;
    return obs;
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}
