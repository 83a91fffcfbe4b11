// CScopeStack and CAutoScope.  Guards are real block-scoped objects: "open"
// enters a block, "close" leaves it, "unwind" throws through all of them.
#include "drv.h"

#include "RedshiftLibrary/processflow/autoscope.h"
#include "RedshiftLibrary/processflow/scopestack.h"

static const std::map<std::string, ScopeType> TYPES{
    {"UNDEFINED", ScopeType::UNDEFINED},
    {"SPECTRUMMODEL", ScopeType::SPECTRUMMODEL},
    {"STAGE", ScopeType::STAGE},
    {"METHOD", ScopeType::METHOD}};

struct Unwind {};

struct D : drv::Driver {
  std::shared_ptr<CScopeStack> s;
  void reset() override { s = std::make_shared<CScopeStack>(); }

  json view() {
    json v;
    v["names"] = json::array();
    for (auto const &n : *s)
      v["names"].push_back(n);
    // every accessor tells the same story
    if (s->size() != v["names"].size() || s->empty() != v["names"].empty())
      v["names"].push_back("?size");
    for (size_t i = 0; i < s->size(); ++i)
      if ((*s)[i] != v["names"][i] || s->at(i) != v["names"][i])
        v["names"].push_back("?at");
    if (!s->empty() && (s->front() != v["names"][0] ||
                        s->back() != v["names"][s->size() - 1]))
      v["names"].push_back("?front/back");
    for (auto const &[n, t] : TYPES)
      if (t == s->get_current_type())
        v["cur"] = n;
    for (auto const &[n, t] : TYPES) {
      if (t == ScopeType::UNDEFINED)
        continue;
      v["has"][n] = s->has_type(t);
      v["level"][n] = -1;
      v["value"][n] = "";
      try {
        v["level"][n] = s->get_type_level(t);
        v["value"][n] = s->get_type_value(t);
      } catch (std::out_of_range const &) {
      }
    }
    return v;
  }
  json obs(std::string const &ret) { return {{"ret", ret}, {"v", view()}}; }

  // runs ops[i..] inside the current block; returns at its "close"
  void block(json const &ops, size_t &i) {
    while (i < ops.size()) {
      json const &op = ops[i];
      std::string a = op["a"];
      if (a == "close" || a == "unwind")
        return;
      drv::pending = op.dump();
      if (a == "push") {
        std::string name = op["name"];
        auto t = TYPES.at(op["type"]);
        bool move = i % 2;
        drv::emit(op, obs(drv::attempt([&] {
          if (move)
            s->push_back(std::move(name), t);
          else
            s->push_back(name, t);
        })));
        ++i;
      } else if (a == "pop") {
        drv::emit(op, obs(drv::attempt([&] { s->pop_back(); })));
        ++i;
      } else if (a == "open") {
        bool closed = false;
        std::string ret = drv::attempt([&] {
          CAutoScope guard(s, op["name"], TYPES.at(op["type"]), i % 2);
          drv::emit(op, obs("ok"));
          ++i;
          block(ops, i);
          if (i < ops.size() && ops[i]["a"] == "unwind")
            throw Unwind();
          closed = true;
        });
        if (!closed) { // the constructor refused
          drv::emit(op, obs(ret));
          ++i;
        } else if (i < ops.size()) {
          drv::emit(ops[i], obs("ok"));
          ++i;
        }
      }
    }
  }
  void run(json const &ops) override {
    size_t i = 0;
    while (i < ops.size()) {
      try {
        block(ops, i);
        if (i < ops.size()) { // nothing to close: an open was refused
          drv::emit(ops[i], obs("none"));
          ++i;
        }
      } catch (Unwind const &) {
        drv::emit(ops[i], obs("ok"));
        ++i;
      }
    }
  }
};

int main(int argc, char **argv) {
  D d;
  return drv::main_(argc, argv, d);
}
