// CParameterStore over a CScopeStack.
#include "drv.h"

#include "RedshiftLibrary/processflow/parameterstore.h"
#include "RedshiftLibrary/processflow/scopestack.h"

static const std::map<std::string, ScopeType> TYPES{
    {"UNDEFINED", ScopeType::UNDEFINED},
    {"SPECTRUMMODEL", ScopeType::SPECTRUMMODEL},
    {"STAGE", ScopeType::STAGE},
    {"METHOD", ScopeType::METHOD}};

static std::string show(std::string const &v) { return v; }
static std::string show(bool v) { return v ? "T" : "F"; }
static std::string show(Int64 v) { return std::to_string(v); }
static std::string show(Float64 v) { return std::to_string(std::lround(v * 2)); }

template <typename T, typename F> static std::string read(F f) {
  T v{};
  std::string r = drv::attempt([&] { v = f(); });
  return r == "ok" ? "=" + show(v) : r;
}
template <typename T, typename F> static json readList(F f) {
  std::vector<T> v;
  std::string r = drv::attempt([&] { v = f(); });
  json j = json::array({r});
  if (r == "ok")
    for (T const &x : v)
      j.push_back(show(x));
  return j;
}

struct D : drv::Driver {
  std::shared_ptr<CScopeStack> s;
  std::shared_ptr<CParameterStore> p;
  long count = 0;
  void reset() override {
    s = std::make_shared<CScopeStack>();
    p = std::make_shared<CParameterStore>(s);
  }
  static std::string join(json const &path) {
    std::string r;
    for (auto const &x : path)
      r += (r.empty() ? "" : ".") + x.get<std::string>();
    return r;
  }
  void set(std::string const &n, std::string const &t) {
    // by the setter of the value's own type when it has one
    ++count;
    if ((t == "true" || t == "false") && count % 2)
      p->Set(n, t == "true");
    else if (t == "2.5" && count % 2)
      p->Set(n, 2.5);
    else if ((t == "3" || t == "-2" || t == "0" || t == "1") && count % 3)
      count % 3 == 1 ? p->Set(n, Int64(std::stoi(t)))
                     : p->Set(n, Float64(std::stoi(t)));
    else
      p->Set(n, t);
  }
  json probe(json const &op) {
    std::string n = join(op["path"]);
    json v;
    v["has"] = p->Has<std::string>(n);
    if (v["has"] != p->Has<Float64>(n) || v["has"] != p->Has<bool>(n))
      v["has"] = "types differ";
    v["hasscoped"] = p->HasScoped<std::string>(n);
    v["get"] = {{"string", read<std::string>([&] { return p->Get<std::string>(n); })},
                {"bool", read<bool>([&] { return p->Get<bool>(n); })},
                {"int", read<Int64>([&] { return p->Get<Int64>(n); })},
                {"float", read<Float64>([&] { return p->Get<Float64>(n); })}};
    v["scoped"] = {{"string", read<std::string>([&] { return p->GetScoped<std::string>(n); })},
                   {"bool", read<bool>([&] { return p->GetScoped<bool>(n); })},
                   {"int", read<Int64>([&] { return p->GetScoped<Int64>(n); })},
                   {"float", read<Float64>([&] { return p->GetScoped<Float64>(n); })}};
    v["at"] = json::array();
    for (int d = -1; d <= 5; ++d)
      v["at"].push_back(read<std::string>([&] { return p->GetScopedAt<std::string>(n, d); }));
    for (auto const &[name, t] : TYPES)
      if (t != ScopeType::UNDEFINED)
        v["atkind"][name] = read<Int64>([&, t = t] { return p->GetScopedAt<Int64>(n, t); });
    v["hasat"] = json::array();
    for (int d = 0; d <= 2; ++d)
      v["hasat"].push_back(d > int(s->size()) ? false : p->HasScopedAt<std::string>(n, d));
    v["list"] = {{"int", readList<Int64>([&] { return p->GetList<Int64>(n); })},
                 {"string", readList<std::string>([&] { return p->GetList<std::string>(n); })}};
    v["lscoped"] = {{"int", readList<Int64>([&] { return p->GetListScoped<Int64>(n); })},
                    {"string", readList<std::string>([&] { return p->GetListScoped<std::string>(n); })}};
    return v;
  }
  json facts(json const &ms) {
    json root = json::object();
    TStringList cats;
    int i = 0;
    for (auto const &m : ms) {
      std::string name = "model" + std::to_string(++i);
      cats.push_back(name);
      auto put = [](json &d, const char *k, json const &v) {
        if (v != "")
          d[k] = v == "T" ? json(true) : v == "F" ? json(false) : v;
      };
      json &o = root[name];
      if (m["step"] != 0)
        o["redshiftStep"] = m["step"];
      json &r = o["redshiftSolver"] = json::object();
      put(r, "method", m["method"]);
      for (const char *x : {"templateFittingSolve", "tplCombinationSolve"}) {
        r[x] = json::object();
        r[x]["overlapThreshold"] = 1;
        put(r[x], "ismFit", m["ism"]);
        put(r[x], "igmFit", m["igm"]);
        put(r[x], "fftProcessing", m["fft"]);
      }
      json &l = r["lineModelSolve"]["lineModel"];
      l["rules"] = "all";
      put(l, "tplRatioIsmFit", m["rism"]);
      put(l, "continuumComponent", m["cc"]);
      json &c = l["continuumFit"];
      c["count"] = 1;
      put(c, "ismFit", m["cism"]);
      put(c, "igmFit", m["cigm"]);
      put(c, "fftProcessing", m["cfft"]);
      put(c, "ignoreLineSupport", m["ignore"]);
    }
    p->FromString(root.dump());
    json v;
    v["models"] = json::array();
    auto b = [](auto f) {
      bool x = false;
      std::string r = drv::attempt([&] { x = f(); });
      return r == "ok" ? std::string(x ? "T" : "F") : r;
    };
    for (auto const &c : cats)
      v["models"].push_back({{"ism", p->HasTplIsmExtinction(c)},
                             {"igm", p->HasTplIgmExtinction(c)},
                             {"fft", p->HasFFTProcessing(c)},
                             {"ortho", b([&] { return p->HasToOrthogonalizeTemplates(c); })},
                             {"enortho", b([&] { return p->EnableTemplateOrthogonalization(c); })}});
    std::map<std::string, bool> fft;
    v["rebin"] = p->hasToLogRebin(cats, fft);
    Float64 step = 0;
    std::string r = drv::attempt([&] { step = p->getMinZStepForFFTProcessing(fft); });
    v["step"] = r != "ok" ? r : step > 1e100 ? std::string("none") : std::to_string(std::lround(step));
    return v;
  }
  json step(json const &op) override {
    std::string a = op["a"];
    if (a == "probe")
      return {{"ret", "ok"}, {"v", probe(op)}};
    if (a == "facts")
      return {{"ret", "ok"}, {"v", facts(op["models"])}};
    return {{"ret", drv::attempt([&] {
               if (a == "set")
                 set(join(op["path"]), op["text"]);
               else if (a == "setlist") {
                 TStringList l;
                 for (auto const &x : op["items"])
                   l.push_back(x);
                 if (l == TStringList{"3", "-2"})
                   p->Set(join(op["path"]), TInt64List{3, -2});
                 else if (l == TStringList{"3"})
                   p->Set(join(op["path"]), TFloat64List{3});
                 else
                   p->Set(join(op["path"]), l);
               } else if (a == "push")
                 s->push_back(op["name"].get<std::string>(), TYPES.at(op["type"]));
               else if (a == "pop")
                 s->pop_back();
             })}};
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}
