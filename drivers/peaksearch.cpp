// CExtremum: the search of local maxima.
#include "drv.h"

#include "RedshiftLibrary/common/flag.h"
#include "RedshiftLibrary/extremum/extremum.h"

static double pos(double u) { return u / 64. - 1.; }

struct D : drv::Driver {
  std::unique_ptr<CExtremum> e;
  static TFloat64Range range(json const &v) {
    double a = v[0], b = v[1];
    return a == b ? TFloat64Range() : TFloat64Range(pos(a / 2), pos(b / 2));
  }
  void reset() override { e.reset(); }
  json step(json const &o) override {
    std::string a = o["a"];
    if (a == "new") {
      json const &c = o["c"];
      e.reset(new CExtremum(c["max"], 2. * c["sep"][0].get<int>() / c["sep"][1].get<int>(),
                            c["merit"].get<int>(), c["inv"], c["border"], range(c["rng"])));
    } else if (a == "max")
      e->SetMaxPeakCount(o["v"]);
    else if (a == "merit")
      e->SetMeritCut(o["v"].get<int>());
    else if (a == "range")
      e->SetXRange(range(o["v"]));
    else {
      TFloat64List x, y;
      for (int u : o["x"])
        x.push_back(pos(u));
      for (int v : o["y"])
        y.push_back(v == 9999 ? NAN : v);
      TPointList p;
      Flag.resetFlag();
      std::string ret = drv::attempt([&] { p = e->Find(x, y, o["first"]); });
      bool warn = Flag.getBitMask() & (1u << int(WarningCode::PDF_PEAK_NOT_FOUND));
      Flag.resetFlag();
      if (ret != "ok")
        return {{"ret", ret}};
      json l = json::array();
      for (auto const &q : p) {
        double u = (q.X + 1) * 64;
        bool exact = std::abs(u - std::round(u)) < 1e-9 && q.Y == std::round(q.Y);
        l.push_back({exact ? int(std::lround(u)) : -1, exact ? int(q.Y) : -1});
      }
      return {{"ret", "ok"}, {"p", l}, {"warn", warn}};
    }
    return {{"ret", "ok"}};
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}
