// Redshift grids, insertion of sub-grids and the results kept in step.
#include "drv.h"

#include <atomic>
#include <chrono>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#define private public
#include "RedshiftLibrary/operator/linemodel.h"
#undef private
#include "RedshiftLibrary/common/zgridparam.h"
#include "RedshiftLibrary/operator/linemodelresult.h"

struct D : drv::Driver {
  bool log = false;
  double lo = 0, hi = 0;
  COperatorLineModel op;
  static constexpr double T = 64, L = 256;
  double z(int t) const { return log ? std::expm1(t / L) : t / T; }
  int tick(double v) const {
    double x = log ? std::log1p(v) * L : v * T;
    return std::abs(x - std::round(x)) < 1e-6 ? int(std::round(x)) : -999;
  }
  json ticks(TFloat64List const &l) const {
    json r = json::array();
    for (auto v : l)
      r.push_back(tick(v));
    return r;
  }
  CZGridParam param(json const &p) const {
    int c = p["c"];
    return CZGridParam(TFloat64Range(z(p["lo"]), z(p["hi"])),
                       p["step"].get<int>() / (log ? L : T),
                       c == -1 ? NAN : z(c));
  }
  void reset() override {
    log = false;
    op.m_Redshifts.clear();
    op.m_result = std::make_shared<CLineModelResult>();
    op.m_result->Init({}, CLineMap(), 2, 2, {0., 0.});
  }
  void fill() {
    auto &r = *op.m_result;
    r.Init(op.m_Redshifts, CLineMap(), 2, 2, {0., 0.});
    for (int i = 0; i < int(op.m_Redshifts.size()); ++i) {
      double v = tick(op.m_Redshifts[i]);
      r.ChiSquare[i] = r.ScaleMargCorrection[i] = r.ChiSquareContinuum[i] =
          r.ScaleMargCorrectionContinuum[i] = v;
      r.LineModelSolutions[i].Redshift = v;
      r.ContinuumModelSolutions[i].tplRedshift = v;
      for (int k : {0, 1}) {
        r.ChiSquareTplContinuum[k][i] = r.ChiSquareTplratios[k][i] =
            r.ScaleMargCorrectionTplratios[k][i] = r.PriorLinesTplratios[k][i] = v;
        r.NLinesAboveSNRTplratios[k][i] = v;
        r.StrongELPresentTplratios[k][i] = r.StrongHalphaELPresentTplratios[k][i] = true;
      }
    }
  }
  json tags() {
    auto &r = *op.m_result;
    size_t n = r.ChiSquare.size();
    json o = json::array();
    for (auto s : {r.ScaleMargCorrection.size(), r.ChiSquareContinuum.size(),
                   r.ScaleMargCorrectionContinuum.size(), r.LineModelSolutions.size(),
                   r.ContinuumModelSolutions.size()})
      if (s != n)
        return "sizes";
    for (int k : {0, 1})
      for (auto s : {r.ChiSquareTplContinuum[k].size(), r.ChiSquareTplratios[k].size(),
                     r.ScaleMargCorrectionTplratios[k].size(), r.PriorLinesTplratios[k].size(),
                     r.NLinesAboveSNRTplratios[k].size(), r.StrongELPresentTplratios[k].size(),
                     r.StrongHalphaELPresentTplratios[k].size()})
        if (s != n)
          return "sizes of ratios";
    for (size_t i = 0; i < n; ++i) {
      double v = std::isnan(r.ChiSquare[i]) ? 0 : r.ChiSquare[i];
      bool ok = true;
      auto same = [&](double x, double none) {
        ok = ok && (v == 0 ? (std::isnan(none) ? std::isnan(x) : x == none) : x == v);
      };
      same(r.ScaleMargCorrection[i], NAN);
      same(r.ChiSquareContinuum[i], NAN);
      same(r.ScaleMargCorrectionContinuum[i], NAN);
      same(r.LineModelSolutions[i].Redshift, CLineModelSolution().Redshift);
      same(r.ContinuumModelSolutions[i].tplRedshift, CTplModelSolution().tplRedshift);
      for (int k : {0, 1}) {
        same(r.ChiSquareTplContinuum[k][i], DBL_MAX);
        same(r.ChiSquareTplratios[k][i], DBL_MAX);
        same(r.ScaleMargCorrectionTplratios[k][i], 0);
        same(r.PriorLinesTplratios[k][i], 0);
        same(r.NLinesAboveSNRTplratios[k][i], 0);
        ok = ok && bool(r.StrongELPresentTplratios[k][i]) == bool(v != 0) &&
             bool(r.StrongHalphaELPresentTplratios[k][i]) == bool(v != 0);
      }
      o.push_back(ok ? int(v) : -777);
    }
    return o;
  }
  json step(json const &o) override {
    std::string a = o["a"];
    json x = json::array();
    std::string ret = drv::attempt([&] {
      if (a == "grid") {
        log = o["log"];
        op.m_Redshifts = param(o["p"]).getZGrid(log);
        lo = z(o["p"]["lo"]);
        hi = z(o["p"]["hi"]);
        fill();
      } else if (a == "list") {
        bool saved = log;
        log = o["log"];
        TZGridListParams ps;
        for (auto const &p : o["ps"])
          ps.push_back(param(p));
        CZGridListParams l(ps);
        std::string e = drv::attempt([&] { x.push_back(ticks(l.getZGrid(log))); });
        log = saved;
        if (e == "CRANGE_NO_INTERSECTION")
          THROWG(ErrorCode::CRANGE_NO_INTERSECTION, "");
        if (e != "ok")
          THROWG(ErrorCode::CRANGE_VECTBORDERS_OUTSIDERANGE, "");
      } else if (a == "insert") {
        auto sub = param(o["p"]).getZGrid(log);
        auto [at, dup] = CZGridListParams::insertSubgrid(sub, op.m_Redshifts);
        x.push_back({at, dup});
        x.push_back(ticks(sub));
        op.m_result->updateVectors(at, dup, sub.size());
      } else if (a == "pass") {
        op.m_firstpass_extremaResult = CLineModelPassExtremaResult();
        for (int i : o["zs"]) {
          auto c = std::make_shared<TCandidateZ>();
          c->Redshift = op.m_Redshifts.at(i - 1);
          op.m_firstpass_extremaResult.m_ranked_candidates.emplace_back("c", c);
        }
        op.m_redshiftSampling = log ? "log" : "lin";
        op.m_secondPass_halfwindowsize = o["half"].get<int>() / (log ? L : T);
        op.m_fineStep = o["step"].get<int>() / (log ? L : T);
        auto g = op.m_Redshifts;
        auto r = *op.m_result;
        op.buildExtendedRedshifts();
        for (auto const &e : op.m_firstpass_extremaResult.ExtendedRedshifts)
          x.push_back(ticks(e));
        std::string e = drv::attempt([&] { op.updateRedshiftGridAndResults(); });
        if (e != "ok") {
          op.m_Redshifts = g;
          *op.m_result = r;
          x = json::array();
          if (e == "CRANGE_NO_INTERSECTION")
            THROWG(ErrorCode::CRANGE_NO_INTERSECTION, "");
          THROWG(ErrorCode::CRANGE_VECTBORDERS_OUTSIDERANGE, "");
        }
        if (op.m_result->Redshifts != op.m_Redshifts)
          x = "redshifts of the result";
      }
    });
    return {{"ret", ret}, {"x", x}, {"g", ticks(op.m_Redshifts)}, {"tag", tags()},
            {"in", std::all_of(op.m_Redshifts.begin(), op.m_Redshifts.end(),
                               [&](double v) { return v >= lo && v <= hi; })}};
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}
