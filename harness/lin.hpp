// An online monitor for concurrent objects with blocking operations.
//
// It keeps the set of all situations (object state + how far each pending operation has
// taken effect) that explain every call, return and death seen so far. When the set
// becomes empty, no order of atomic effects explains the observations. When everything is
// quiet but every explanation says a pending operation has to return, it is stuck.
#pragma once
#include <set>

#include "common.hpp"

namespace lin {

using State = std::vector<int32_t>;

struct Op {
  int code = 0;
  int64_t a[6] = {0};
};

struct Outcome {
  State s;
  bool done = true;       // the operation is finished with result `res`
  int phase = 0;          // otherwise it continues in this phase
  int64_t res = 0;
  bool optional = false;  // may but need not happen
};

using Spec = void (*)(const State&, int actor, const Op&, int phase, std::vector<Outcome>&);
// `pending`: it died inside an operation (whose effect is part of the state if it happened).
using Death = void (*)(const State&, int actor, bool pending, std::vector<State>&);

struct Pend {
  int8_t active = 0, applied = 0;
  int32_t phase = 0;
  int64_t res = 0;
  bool operator<(const Pend& o) const {
    return std::tie(active, applied, phase, res) < std::tie(o.active, o.applied, o.phase, o.res);
  }
};

struct Config {
  State s;
  std::vector<Pend> p;
  bool operator<(const Config& o) const { return s != o.s ? s < o.s : p < o.p; }
};

struct Monitor {
  Spec spec;
  Death death;
  std::set<Config> cs;
  std::vector<Op> ops;
  size_t max_seen = 0;
  bool overflow = false;

  void init(int n, const State& s0, Spec sp, Death d) {
    spec = sp;
    death = d;
    ops.assign(n, Op());
    cs.clear();
    overflow = false;
    Config c;
    c.s = s0;
    c.p.assign(n, Pend());
    cs.insert(c);
  }
  // Adds everything reachable by pending operations taking (partial) effect.
  void close_over() {
    std::vector<Config> work(cs.begin(), cs.end());
    std::vector<Outcome> outs;
    while (!work.empty()) {
      Config c = work.back();
      work.pop_back();
      for (size_t i = 0; i < c.p.size(); i++) {
        if (!c.p[i].active || c.p[i].applied) continue;
        outs.clear();
        spec(c.s, i, ops[i], c.p[i].phase, outs);
        for (auto& o : outs) {
          Config n = c;
          n.s = o.s;
          if (o.done) {
            n.p[i].applied = 1;
            n.p[i].res = o.res;
          } else {
            n.p[i].phase = o.phase;
          }
          if (cs.insert(n).second) work.push_back(n);
        }
      }
      if (cs.size() > 20000) {
        overflow = true;
        return;
      }
    }
    max_seen = std::max(max_seen, cs.size());
  }
  void call(int i, const Op& op) {
    ops[i] = op;
    std::set<Config> n;
    for (auto c : cs) {
      c.p[i] = Pend();
      c.p[i].active = 1;
      n.insert(c);
    }
    cs.swap(n);
  }
  // False: no explanation is left.
  bool ret(int i, int64_t res) {
    if (overflow) return true;
    close_over();
    if (overflow) return true;
    std::set<Config> n;
    for (auto c : cs) {
      if (!c.p[i].active || !c.p[i].applied || c.p[i].res != res) continue;
      c.p[i] = Pend();
      n.insert(c);
    }
    if (n.empty()) return false;
    cs.swap(n);
    return true;
  }
  void died(int i) {
    if (overflow) return;
    close_over();
    std::set<Config> n;
    for (auto c : cs) {
      bool pending = c.p[i].active;
      c.p[i] = Pend();
      std::vector<State> ss;
      death(c.s, i, pending, ss);
      for (auto& s : ss) {
        Config d = c;
        d.s = s;
        n.insert(d);
      }
    }
    cs.swap(n);
  }
  // With nothing running, is there an explanation in which nobody pending has to move?
  // `stuck` receives an actor that has to return in every explanation.
  bool quiet_ok() {
    if (overflow) return true;
    close_over();
    std::vector<Outcome> outs;
    for (auto& c : cs) {
      bool ok = true;
      for (size_t i = 0; i < c.p.size() && ok; i++) {
        if (!c.p[i].active) continue;
        if (c.p[i].applied) {
          ok = false;
          break;
        }
        outs.clear();
        spec(c.s, i, ops[i], c.p[i].phase, outs);
        for (auto& o : outs)
          if (!o.optional) ok = false;
      }
      if (ok) return true;
    }
    return false;
  }
  std::string show_all() const {
    std::string r;
    for (auto& c : cs) {
      r += "{";
      for (auto v : c.s) r += strf(" %d", v);
      for (size_t i = 0; i < c.p.size(); i++)
        if (c.p[i].active) r += strf(" [%zu:%d/%d%s]", i, ops[i].code, c.p[i].phase, c.p[i].applied ? "!" : "");
      r += "} ";
      if (r.size() > 2000) break;
    }
    return r;
  }
  std::string show() const {
    std::string r = strf("%zu explanations; first:", cs.size());
    if (!cs.empty()) {
      for (auto v : cs.begin()->s) r += strf(" %d", v);
      for (size_t i = 0; i < cs.begin()->p.size(); i++)
        if (cs.begin()->p[i].active) r += strf(" [actor %zu op %d phase %d%s]", i, ops[i].code, cs.begin()->p[i].phase, cs.begin()->p[i].applied ? " applied" : "");
    }
    return r;
  }
};

}  // namespace lin
