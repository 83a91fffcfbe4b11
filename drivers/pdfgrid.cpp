// CLogZPdfResult: multi-resolution PDF grids, conversion, extension, validity.
#include "drv.h"

#include "RedshiftLibrary/common/zgridparam.h"
#include "RedshiftLibrary/operator/logZPdfResult.h"

struct D : drv::Driver {
  std::unique_ptr<CLogZPdfResult> r;
  bool log = false;
  static constexpr double T = 64, L = 256;
  double z(int t) const { return log ? std::expm1(t / L) : t / T; }
  int tick(double v) const {
    double x = log ? std::log1p(v) * L : v * T;
    return std::abs(x - std::round(x)) < 1e-6 ? int(std::round(x)) : -999;
  }
  int stick(double v) const {
    double x = v * (log ? L : T);
    return std::abs(x - std::round(x)) < 1e-6 ? int(std::round(x)) : -999;
  }
  static double val(int v) { return v == -1 ? NAN : v == -2 ? -DBL_MAX : v; }
  static int out(double v) {
    return std::isnan(v) ? -1 : v == -DBL_MAX ? -2 : v < -1e-6 || v > 1e9 ? -999 : int(std::llround(v));
  }
  void reset() override {
    r.reset();
    log = false;
  }
  json state() const {
    json ps = json::array(), g = json::array(), v = json::array();
    if (r) {
      auto l = r->getZGridParams();
      if (r->zcenter.size() != r->zmin.size() || r->zmax.size() != r->zmin.size() ||
          r->zstep.size() != r->zmin.size())
        ps.push_back("sizes");
      for (int i = 0; i < l.size(); ++i)
        ps.push_back({{"lo", tick(l[i].zmin)}, {"hi", tick(l[i].zmax)}, {"step", stick(l[i].zstep)},
                      {"c", std::isnan(l[i].zcenter) ? -1 : tick(l[i].zcenter)}});
      for (double x : r->redshifts)
        g.push_back(tick(x));
      for (double x : r->valProbaLog)
        v.push_back(out(x));
    }
    return {{"ps", ps}, {"g", g}, {"v", v}};
  }
  json step(json const &o) override {
    std::string a = o["a"];
    json x = 0;
    std::string kind = "";
    std::string ret = drv::attempt([&] {
      if (a == "new") {
        bool saved = log;
        log = o["log"];
        TZGridListParams ps;
        for (auto const &p : o["ps"]) {
          int c = p["c"];
          ps.emplace_back(TFloat64Range(z(p["lo"]), z(p["hi"])), p["step"].get<int>() / (log ? L : T),
                          c == -1 ? NAN : z(c));
        }
        TFloat64List v;
        for (auto const &e : o["v"])
          v.push_back(val(e));
        try {
          r = v.empty() ? std::make_unique<CLogZPdfResult>(CZGridListParams(ps), log)
                        : std::make_unique<CLogZPdfResult>(CZGridListParams(ps), log, v);
        } catch (...) {
          log = saved;
          throw;
        }
      } else if (a == "convert") {
        r->convertToRegular(o["fine"]);
        x = int(r->isRegular());
      } else if (a == "extend") {
        r->extrapolate_on_right_border(z(o["z"]));
        x = int(r->isRegular());
      } else if (a == "valid") {
        kind = "sum";
        auto keep = r->valProbaLog;
        double d = o["d"];
        r->valProbaLog.clear();
        for (int w : o["w"])
          r->valProbaLog.push_back(w == -1 ? NAN : w == 0 ? -DBL_MAX : std::log(w * T / d));
        double s = r->getSumTrapez();
        x = std::isnan(s) ? -1 : int(std::llround(s * 1000));
        std::string e = drv::attempt([&] { r->isPdfValid(); });
        r->valProbaLog = keep;
        if (e == "FLAT_ZPDF")
          THROWG(ErrorCode::FLAT_ZPDF, "");
        if (e == "PDF_NORMALIZATION_FAILED")
          THROWG(ErrorCode::PDF_NORMALIZATION_FAILED, "");
        if (e != "ok")
          THROWG(ErrorCode::INTERNAL_ERROR, e);
      }
    });
    json b = state();
    b["ret"] = ret;
    b["x"] = x;
    b["kind"] = kind;
    return b;
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}
