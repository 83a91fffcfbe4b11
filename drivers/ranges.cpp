// CRange and CIndexing over integers and floating-point numbers.
#include "drv.h"

#include "RedshiftLibrary/common/indexing.h"
#include "RedshiftLibrary/common/range.h"

template <typename T> struct K {
  static constexpr bool F = std::is_same<T, double>::value;
  static T in(json const &v) { return F ? T(v.get<int>() / 64.) : T(v.get<int>()); }
  static json back(T v) {
    double x = F ? v * 64. : v;
    return x == std::round(x) && std::abs(x) < 1e9 ? int(x) : -999999;
  }
  static std::vector<T> list(json const &l) {
    std::vector<T> v;
    for (auto const &x : l)
      v.push_back(in(x));
    return v;
  }
  static json out(CRange<T> const &r) { return {back(r.GetBegin()), back(r.GetEnd())}; }
  static json step(json const &o, json &r0) {
    std::string a = o["a"];
    CRange<T> r(in(r0[0]), in(r0[1])), p;
    if (o.contains("b") && o.contains("e"))
      p = CRange<T>(in(o["b"]), in(o["e"]));
    json x = 0;
    json extra;
    std::string ret = drv::attempt([&] {
      Int32 i = -7, j = -7;
      if (a == "set")
        r.Set(in(o["b"]), in(o["e"]));
      else if (a == "setbegin")
        r.SetBegin(in(o["b"]));
      else if (a == "setend")
        r.SetEnd(in(o["e"]));
      else if (a == "info")
        x = {int(r.GetIsEmpty()), back(r.GetLength())};
      else if (a == "plus")
        x = out(r + in(o["v"]));
      else if (a == "minus")
        x = out(r - in(o["v"]));
      else if (a == "times")
        x = out(r * T(o["v"].get<int>()));
      else if (a == "div")
        x = out(r / T(o["v"].get<int>()));
      else if (a == "add")
        x = out(r + p);
      else if (a == "cmp")
        x = {int(r == p), int(r != p), int(r < p)};
      else if (a == "meets") {
        x = int(r.HasIntersectionWith(p));
        if (CRange<T>::HasIntersection(p, r) != bool(x.get<int>()))
          x = -1;
      } else if (a == "intersect") {
        CRange<T> q(in(777), in(778));
        bool s = CRange<T>::Intersect(p, r, q);
        CRange<T> before = r;
        bool b = r.IntersectWith(p);
        x = b == s && (b ? q == r : q == CRange<T>(in(777), in(778)) && r == before) ? int(b) : -1;
      } else if (a == "union") {
        CRange<T> q(in(777), in(778));
        bool s = CRange<T>::getUnion(p, r, q);
        CRange<T> before = r;
        bool b = r.unionWith(p);
        x = b == s && (b ? q == r : q == CRange<T>(in(777), in(778)) && r == before) ? int(b) : -1;
      } else if (a == "join") {
        std::vector<CRange<T>> l;
        for (auto const &e : o["l"])
          l.emplace_back(in(e[0]), in(e[1]));
        x = json::array();
        for (auto const &e : CRange<T>::joinIntersections(l))
          x.push_back(out(e));
      } else if (a == "clamp")
        x = back(r.Clamp(in(o["v"])));
      else if (a == "spread") {
        x = json::array();
        for (T v : r.SpreadOver(in(o["d"]), o["back"]))
          x.push_back(back(v));
      } else if (a == "closed") {
        r.getClosedIntervalIndices(list(o["v"]), i, j);
        x = {i, j};
      } else if (a == "enclosing") {
        r.getEnclosingIntervalIndices(list(o["v"]), i, j);
        x = {i, j};
      } else if (a == "enclosingv") {
        r.getEnclosingIntervalIndices(list(o["v"]), in(o["x"]), i, j);
        x = {i, j};
      } else if (a == "from")
        r = CRange<T>(list(o["v"]));
      else if (a == "index")
        x = CIndexing<T>::getIndex(list(o["v"]), in(o["x"]));
      else if (a == "lower") {
        bool b = CIndexing<T>::getClosestLowerIndex(list(o["v"]), in(o["x"]), i);
        x = {int(b), i == undefIdx ? -1 : i};
      } else if (a == "upper") {
        bool b = CIndexing<T>::getClosestUpperIndex(list(o["v"]), in(o["x"]), i);
        x = {int(b), i == undefIdx ? -1 : i};
      } else if (a == "closer")
        extra = CIndexing<T>::getCloserIndex(list(o["v"]), in(o["x"]));
    });
    r0 = out(r);
    json b = {{"ret", ret}, {"r", r0}};
    if (!extra.is_null())
      b["near"] = extra;
    else if (ret == "ok")
      b["x"] = x;
    return b;
  }
};

struct D : drv::Driver {
  json r;
  void reset() override { r = {0, 0}; }
  json step(json const &o) override {
    return o["t"] == "int" ? K<Int32>::step(o, r) : K<Float64>::step(o, r);
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}
