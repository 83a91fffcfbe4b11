// Spectra and their continuum components.
#include "drv.h"

#include "RedshiftLibrary/common/mask.h"
#include "RedshiftLibrary/photometry/photometricdata.h"
#include "RedshiftLibrary/processflow/parameterstore.h"
#include "RedshiftLibrary/processflow/scopestack.h"
#include "RedshiftLibrary/spectrum/LSFConstantWidth.h"
#include "RedshiftLibrary/spectrum/spectrum.h"

static TFloat64List list(json const &v) {
  TFloat64List r;
  for (auto const &e : v)
    r.push_back(e.get<double>());
  return r;
}
static json ints(TFloat64List const &v) {
  json r = json::array();
  for (double x : v) {
    if (!std::isfinite(x) || std::abs(x - std::lround(x)) > 1e-6)
      return json::array({-999999});
    r.push_back(std::lround(x));
  }
  return r;
}
static bool close(TFloat64List const &a, TFloat64List const &b) {
  if (a.size() != b.size())
    return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!(std::abs(a[i] - b[i]) < 1e-7))
      return false;
  return true;
}
static CSpectrumFluxAxis flux(json const &f, json const &e) {
  auto a = list(f), b = list(e);
  return CSpectrumFluxAxis(a.data(), a.size(), b.data(), b.size());
}

struct D : drv::Driver {
  std::map<int, std::unique_ptr<CSpectrum>> sp;
  std::shared_ptr<const CLSF> lsf[3];
  std::shared_ptr<const CPhotometricData> phot[3];
  D() {
    for (int i : {1, 2}) {
      lsf[i] = std::make_shared<CLSFGaussianConstantWidth>(double(i));
      phot[i] = std::make_shared<CPhotometricData>(
          TStringList{"b"}, TFloat64List{1. * i}, TFloat64List{1.});
    }
  }
  CSpectrum &at(int i) {
    auto &p = sp[i];
    if (!p)
      p = std::make_unique<CSpectrum>();
    return *p;
  }
  void reset() override { sp.clear(); }
  json view(CSpectrum const &x) {
    json r;
    r["w"] = ints(x.GetSpectralAxis().GetSamplesVector());
    r["f"] = ints(x.GetRawFluxAxis().GetSamplesVector());
    r["e"] = ints(x.GetRawFluxAxis().GetError().GetSamplesVector());
    r["type"] = x.GetType() == CSpectrum::nType_raw ? "raw"
                : x.GetType() == CSpectrum::nType_continuumOnly
                    ? "continuum"
                    : "nocontinuum";
    r["method"] = x.GetContinuumEstimationMethod();
    r["win"] = std::lround(x.GetMedianWinsize());
    r["refl"] = x.GetMedianEvenReflection();
    r["name"] = x.GetName();
    r["obs"] = x.getObsID();
    auto id = [](auto const &p, auto const &tab) {
      for (int i = 0; i < 3; ++i)
        if (tab[i] == p)
          return i;
      return 9;
    };
    r["lsf"] = id(x.GetLSF(), lsf);
    r["phot"] = id(x.GetPhotData(), phot);
    return r;
  }
  json step(json const &op) override {
    std::string a = op["a"];
    int s = op["s"], t = op.contains("t") ? op["t"].get<int>() : s;
    at(s), at(t);
    json obs;
    auto type = [](std::string const &n) {
      return n == "raw"         ? CSpectrum::nType_raw
             : n == "continuum" ? CSpectrum::nType_continuumOnly
                                : CSpectrum::nType_noContinuum;
    };
    std::string ret = drv::attempt([&] {
      CSpectrum &x = at(s), &y = at(t);
      if (a == "new") {
        CSpectrumSpectralAxis w(list(op["w"]));
        auto f = flux(op["f"], op["e"]);
        int k = op["lsf"];
        sp[s] = k ? std::make_unique<CSpectrum>(w, f, lsf[k])
                  : std::make_unique<CSpectrum>(w, f);
      } else if (a == "copy") {
        if (op["how"] == "assign")
          x = y;
        else
          sp[s] = std::make_unique<CSpectrum>(y);
      } else if (a == "move") {
        if (op["how"] == "assign")
          x = std::move(y);
        else
          sp[s] = std::make_unique<CSpectrum>(std::move(y));
        sp[t].reset();
      } else if (a == "type")
        x.SetType(type(op["x"]));
      else if (a == "flux")
        x.SetFluxAxis(flux(op["f"], op["e"]));
      else if (a == "wave")
        x.SetSpectralAxis(CSpectrumSpectralAxis(list(op["w"])));
      else if (a == "both")
        x.SetSpectralAndFluxAxes(CSpectrumSpectralAxis(list(op["w"])),
                                 flux(op["f"], op["e"]));
      else if (a == "err")
        x.SetErrorAxis(CSpectrumNoiseAxis(list(op["e"])));
      else if (a == "method")
        x.SetContinuumEstimationMethod(op["x"].get<std::string>());
      else if (a == "manual")
        x.SetContinuumEstimationMethod(CSpectrumFluxAxis(list(op["c"])));
      else if (a == "win")
        x.SetMedianWinsize(op["k"].get<double>());
      else if (a == "refl")
        x.SetMedianEvenReflection(op["b"].get<bool>());
      else if (a == "name")
        x.SetName(op["x"]);
      else if (a == "obs")
        x.setObsID(op["x"]);
      else if (a == "lsf")
        x.SetLSF(lsf[op["n"].get<int>()]);
      else if (a == "phot")
        x.SetPhotData(phot[op["n"].get<int>()]);
      else if (a == "invert")
        x.InvertFlux();
      else if (a == "scale")
        x.ApplyAmplitude(op["k"].get<double>());
      else if (a == "init") {
        auto st = std::make_shared<CScopeStack>();
        CParameterStore ps(st);
        json p = {{"smoothWidth", double(op["smooth"])},
                  {"continuumRemoval",
                   {{"method", op["m"]},
                    {"medianKernelWidth", double(op["win"])},
                    {"medianEvenReflection", op["refl"]}}}};
        ps.FromString(p.dump());
        x.InitSpectrumContinuum(ps);
      } else if (a == "extract") {
        x = y.extract(op["i"].get<int>() - 1, op["j"].get<int>() - 1);
      } else if (a == "mask") {
        sp[s] = std::make_unique<CSpectrum>(y, list(op["m"]));
      } else if (a == "interp")
        x.setRebinInterpMethod(op["x"]);
      else if (a == "rebin") {
        int i = op["i"].get<int>() - 1, j = op["j"].get<int>() - 1;
        json before = view(y);
        auto const &w = y.GetSpectralAxis().GetSamplesVector();
        CSpectrumSpectralAxis target(
            TFloat64List(w.begin() + i, w.begin() + j + 1));
        CMask m;
        y.Rebin(TFloat64Range(w[i], w[j]), target, x, m, op["err"]);
        obs["mask"] = json::array();
        for (int k = 0; k < m.GetMasksCount(); ++k)
          obs["mask"].push_back(int(m[k]));
        obs["same"] = before == view(y);
      } else if (a == "shown") {
        auto v = ints(x.GetFluxAxis().GetSamplesVector());
        obs["flux"] = v;
      } else if (a == "ask") {
        CSpectrum const &cx = x;
        auto const &raw = cx.GetRawFluxAxis().GetSamplesVector();
        auto const &c = cx.GetContinuumFluxAxis().GetSamplesVector();
        auto const &r = cx.GetWithoutContinuumFluxAxis().GetSamplesVector();
        obs["cont"] = ints(c);
        obs["rest"] = ints(r);
        TFloat64List sum;
        for (size_t i = 0; i < c.size() && i < r.size(); ++i)
          sum.push_back(c[i] + r[i]);
        obs["sum"] = c.size() == r.size() && close(sum, raw);
        auto const &shown = cx.GetFluxAxis().GetSamplesVector();
        obs["shown"] = shown == (x.GetType() == CSpectrum::nType_raw ? raw
                                 : x.GetType() == CSpectrum::nType_continuumOnly
                                     ? c
                                     : r) &&
                       cx.GetSampleCount() == int(raw.size()) && cx.IsValid();
        std::string m = cx.GetContinuumEstimationMethod();
        if (m == "manual")
          obs["fresh"] = true;
        else {
          CSpectrum y(cx.GetSpectralAxis(), cx.GetRawFluxAxis());
          y.SetContinuumEstimationMethod(m);
          y.SetMedianWinsize(cx.GetMedianWinsize());
          y.SetMedianEvenReflection(cx.GetMedianEvenReflection());
          obs["fresh"] =
              close(y.GetContinuumFluxAxis().GetSamplesVector(), c);
        }
      }
    });
    obs["ret"] = ret;
    obs["v"] = view(at(s));
    return obs;
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}
