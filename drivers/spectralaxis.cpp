// Wavelength grids.
#include "drv.h"

#include "RedshiftLibrary/common/mask.h"
#include "RedshiftLibrary/spectrum/spectralaxis.h"

static int half(double x) { return int(std::lround(2 * x)); }

struct D : drv::Driver {
  std::map<int, CSpectrumSpectralAxis> ax;
  void reset() override { ax.clear(); }
  static json whole(CSpectrumSpectralAxis const &x) {
    json r = json::array();
    for (double v : x.GetSamplesVector()) {
      long n = std::lround(v);
      if (std::abs(v - n) > 1e-6)
        return "fraction";
      r.push_back(n);
    }
    if (x.GetSamplesCount() != int(r.size()) || x.isEmpty() != r.empty())
      return "count";
    return r;
  }
  json step(json const &op) override {
    std::string a = op["a"], ret;
    int s = op["s"];
    auto &x = ax[s];
    auto &t = op.contains("t") ? ax[op["t"].get<int>()] : x;
    auto const &cx = x;
    json obs;
    ret = drv::attempt([&] {
      if (a == "new") {
        TFloat64List v;
        for (auto const &e : op["v"])
          v.push_back(e.get<double>());
        if (x.isEmpty())
          x = CSpectrumSpectralAxis(std::move(v));
        else
          x.setSamplesVector(v);
      } else if (a == "copy") {
        if (op["how"] == "assign")
          x = t;
        else if (op["how"] == "ctor") {
          CSpectrumSpectralAxis y(t);
          std::swap(x, y);
        } else {
          CSpectrumSpectralAxis y(t);
          CSpectrumSpectralAxis z(std::move(y));
          x = std::move(z);
        }
      } else if (a == "clear")
        x.clear();
      else if (a == "poke")
        x[op["i"].get<int>()] = op["x"].get<double>();
      else if (a == "vec")
        x.GetSamplesVector()[op["i"].get<int>()] = op["x"].get<double>();
      else if (a == "mul")
        x *= op["k"].get<double>();
      else if (a == "div")
        x /= op["k"].get<double>();
      else if (a == "shift") {
        auto d = op["fwd"].get<bool>() ? CSpectrumSpectralAxis::nShiftForward
                                       : CSpectrumSpectralAxis::nShiftBackward;
        if (&x == &t)
          x.ShiftByWaveLength(op["k"].get<double>(), d);
        else
          x.ShiftByWaveLength(t, op["k"].get<double>(), d);
      } else if (a == "offset")
        x.ApplyOffset(op["k"].get<double>());
      else if (a == "extract")
        x = t.extract(op["i"].get<int>(), op["j"].get<int>());
      else if (a == "mask") {
        TFloat64List m;
        for (auto const &e : op["m"])
          m.push_back(e.get<double>());
        x = t.MaskAxis(m);
      } else if (a == "resize")
        x.SetSize(op["n"].get<int>());
      else if (a == "sorted")
        obs["sorted"] = cx.isSorted();
      else if (a == "log") {
        bool l = cx.IsLogSampled();
        obs["log"] = l ? 1 : 0;
        double st = 0, mod = 0;
        std::string r = drv::attempt([&] { st = cx.GetlogGridStep(); });
        if (r != "ok") {
          obs["step"] = r;
        } else {
          obs["step"] =
              std::isfinite(st) ? json(std::lround(st * 1e6)) : json(999999999);
          obs["samestep"] = cx.IsLogSampled(st) && cx.IsLogSampled();
          if (st)
            obs["samestep"] = obs["samestep"] && cx.GetLogSamplingIntegerRatio(3 * st, mod) == 3 &&
                            std::abs(mod) < 1e-9;
          obs["otherstep"] = cx.IsLogSampled(st + 1e-5);
        }
      } else if (a == "range") {
        TFloat64Range r(op["lo"].get<double>() / 2, op["hi"].get<double>() / 2);
        auto l = cx.GetLambdaRange();
        obs["range"] = {std::lround(l.GetBegin()), std::lround(l.GetEnd())};
        TFloat64Range c;
        std::string e = drv::attempt([&] { cx.ClampLambdaRange(r, c); });
        if (e == "ok")
          obs["clamp"] = {half(c.GetBegin()), half(c.GetEnd())};
        else
          obs["clamp"] = {e};
        CMask m;
        cx.GetMask(r, m);
        obs["mask"] = json::array();
        for (int i = 0; i < m.GetMasksCount(); ++i)
          obs["mask"].push_back(int(m[i]));
        CMask om(cx.GetSamplesCount());
        int n = 0;
        for (int i = 0; i < cx.GetSamplesCount(); ++i) {
          om[i] = op["m"][i].get<int>();
          n += cx[i] >= r.GetBegin() && cx[i] <= r.GetEnd();
        }
        double f = cx.IntersectMaskAndComputeOverlapFraction(r, om);
        obs["overlap"] = {std::lround(f * n), n};
        obs["mean"] = std::lround(cx.GetMeanResolution() *
                                  std::max(1, cx.GetSamplesCount() - 1));
      } else if (a == "at") {
        obs["idx"] = obs["res"] = json::array();
        double lo = 1e9, hi = -1e9;
        for (auto const &e : op["w"]) {
          double w = e.get<double>() / 2;
          lo = std::min(lo, w);
          hi = std::max(hi, w);
          obs["idx"].push_back(cx.GetIndexAtWaveLength(w));
          obs["res"].push_back(std::lround(cx.GetResolution(w)));
        }
        auto r = cx.GetIndexesAtWaveLengthRange(TFloat64Range(lo, hi));
        obs["rng"] = {r.GetBegin(), r.GetEnd()};
      } else if (a == "submask") {
        auto m = cx.GetSubSamplingMask(
            op["r"].get<int>(),
            TInt32Range(op["b"].get<int>(), op["e"].get<int>()));
        obs["sub"] = json::array();
        for (double v : m)
          obs["sub"].push_back(std::lround(v));
      }
    });
    obs["ret"] = ret;
    obs["v"] = whole(x);
    return obs;
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}
