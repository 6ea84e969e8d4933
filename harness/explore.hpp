// Random schedules at instruction granularity over actors, judged by the monitor.
#pragma once
#include "actors.hpp"
#include "lin.hpp"

struct Explorer {
  act::World w;
  lin::Monitor mon;
  int n = 0;
  act::Exec exec = nullptr;
  lin::Spec spec = nullptr;
  lin::Death death = nullptr;
  std::function<lin::State(Ctx&)> reset;                                   // fresh object, nobody holds anything
  std::function<bool(Ctx&, int actor, lin::Op&)> gen;                      // next operation for an idle actor
  std::function<bool(Ctx&, int actor, const lin::State&, lin::Op&)> drain;  // operation that lets go
  std::function<std::string(const lin::Op&)> name;
  std::function<bool(const lin::Op&)> may_spin;  // busy-waits for somebody else
  std::function<bool(const lin::Op&)> whole;     // never stopped midway
  std::function<void(Ctx&, int)> after_kill;     // before the successor starts
  bool kills = false;
  bool interrupts = false;  // deliver signals to blocked actors
  std::function<bool(Ctx&, int k, int& actor, lin::Op&)> prelude;  // operations before the random part
  unsigned step_pct = 60;
  unsigned idle_kill_pct = 5;
  std::map<int, std::vector<uint64_t>> est;  // recent lengths of each operation, in instructions
  bool started = false;
  bool stepped[16] = {false};
  uint64_t sig = 0;
  bool interesting = false;

  void start(const std::vector<bool>& threads) {
    n = threads.size();
    w.init(n, exec, threads);
    started = true;
  }

  void do_call(Ctx& ctx, int i, const lin::Op& op, uint64_t target) {
    mon.call(i, op);
    ctx.log(strf("%d:%s%s", i, name(op).c_str(), target ? strf("@%lu", target).c_str() : ""));
    sig = mix(sig, mix(i * 1000 + op.code, target));
    stepped[i] = target > 0;
    w.post(i, op.code, {op.a[0], op.a[1], op.a[2], op.a[3], op.a[4], op.a[5]}, target);
  }
  // Looks at one actor that was running or blocked; reports its return if there is one.
  void look(Ctx& ctx, int i, bool wait) {
    act::Actor& a = w.actors[i];
    if (a.st == act::St::Idle || a.st == act::St::Dead) return;
    act::St was = a.st;
    if (was == act::St::Blocked && !w.finished(i) && !a.slot->paused.load()) return;
    if (was == act::St::Paused) return;
    if (was == act::St::Blocked) a.st = act::St::Running;
    act::St now = w.settle(i, may_spin && may_spin(mon.ops[i]) ? 3000000 : 0);
    if (now == act::St::Running) return;
    if (now == act::St::Idle) {
      if (stepped[i]) {
        auto& e = est[mon.ops[i].code];
        if (e.size() < 16) e.push_back(a.slot->steps);
        else e[ctx.rng.below(16)] = a.slot->steps;
      }
      int64_t r = a.slot->res;
      ctx.log(strf("%d=%ld", i, r));
      sig = mix(sig, 7000 + i * 100 + (r & 63));
      std::string before = mon.show();
      if (!mon.ret(i, r)) {
        ctx.violation("unexplained:" + name_key(mon.ops[i]), strf("actor %d: %s returned %ld, which no order of effects explains (%s)", i, name(mon.ops[i]).c_str(), r, before.c_str()));
        abandon(ctx);
      }
    } else if (now == act::St::Paused) {
      ctx.count("stopped_mid_operation");
      interesting = true;
      sig = mix(sig, 9000 + i);
    } else if (now == act::St::Blocked) {
      ctx.count("blocked");
      interesting = true;
    } else {
      ctx.violation("actor-died:" + name_key(mon.ops[i]), strf("actor %d died during %s", i, name(mon.ops[i]).c_str()));
      abandon(ctx);
    }
    (void)wait;
  }
  std::string name_key(const lin::Op& op) {
    std::string s = name(op);
    return s.substr(0, s.find('('));
  }
  // After a violation the world may be unusable: start over with new actors.
  [[noreturn]] void abandon(Ctx& ctx) {
    for (int i = 0; i < n; i++) {
      act::Actor& a = w.actors[i];
      if (a.thread && a.st == act::St::Blocked) {  // cannot be removed; stop this worker here
        fprintf(ctx.outf, "E %lu\nDONE\n", (unsigned long)ctx.evals);
        fflush(ctx.outf);
        for (auto& b : w.actors)
          if (!b.thread && b.st != act::St::Dead) kill(b.pid, SIGKILL);
        _exit(0);
      }
      if (a.st == act::St::Running) w.settle(i);
      w.kill_actor(i);
    }
    for (int i = 0; i < n; i++) w.spawn(i);
    throw CaseFail{};
  }
  void look_all(Ctx& ctx) {
    for (int i = 0; i < n; i++) look(ctx, i, false);
  }
  void do_kill(Ctx& ctx, int i) {
    act::St st = w.actors[i].st;
    ctx.log(strf("kill%d%s", i, st == act::St::Paused ? "!" : st == act::St::Blocked ? "~" : ""));
    ctx.count(st == act::St::Paused ? "deaths_mid_operation" : st == act::St::Blocked ? "deaths_while_blocked" : "deaths_between");
    // It may return or pause between our last look and the kill: whatever it did is pending.
    bool fin = w.finished(i);
    w.kill_actor(i);
    if (!fin && st == act::St::Blocked && w.finished(i)) fin = true;
    mon.died(i);
    sig = mix(sig, 5000 + i);
    interesting = true;
    if (after_kill) after_kill(ctx, i);
    w.spawn(i);
  }
  // Lets everything run until nothing moves any more, then judges.
  uint64_t progress_mark() {
    uint64_t h = 0;
    for (auto& a : w.actors) h = mix(h, (uint64_t)a.st);
    return h;
  }
  void quiesce(Ctx& ctx) {
    for (;;) {
      bool moved = false;
      for (int i = 0; i < n; i++) {
        if (w.actors[i].st == act::St::Paused) {
          stepped[i] = false;
          w.resume(i, 0);
          look(ctx, i, true);
          moved = true;
        }
      }
      for (int i = 0; i < n; i++) {
        act::St b = w.actors[i].st;
        look(ctx, i, true);
        if (w.actors[i].st != b || w.actors[i].st == act::St::Running) moved = true;
      }
      if (moved) {
        ctx.tick_if_progress(progress_mark());
        continue;
      }
      if (mon.quiet_ok()) return;
      // Somebody has to return. Give it every chance before judging.
      if (!w.confirmed_stuck()) continue;
      int stuck = -1;
      for (int i = 0; i < n; i++)
        if (w.actors[i].st == act::St::Blocked) stuck = i;
      std::string who;
      for (int i = 0; i < n; i++)
        if (w.actors[i].st == act::St::Blocked) who += strf("%d:%s ", i, name(mon.ops[i]).c_str());
      ctx.violation("stuck:" + (stuck >= 0 ? name_key(mon.ops[stuck]) : std::string("none")), "blocked for good although it has to return: " + who + mon.show());
      abandon(ctx);
    }
  }
  void run(Ctx& ctx, unsigned actions) {
    lin::State s0 = reset(ctx);
    mon.init(n, s0, spec, death);
    sig = 0;
    interesting = false;
    Rng& r = ctx.rng;
    if (prelude) {
      int who;
      for (int k = 0;; k++) {
        lin::Op op;
        if (!prelude(ctx, k, who, op)) break;
        if (w.actors[who].st != act::St::Idle) continue;
        do_call(ctx, who, op, 0);
        look(ctx, who, true);
        look_all(ctx);
      }
    }
    for (unsigned k = 0; k < actions; k++) {
      int i = r.below(n);
      act::Actor& a = w.actors[i];
      // A thread leaves only between operations; a process can be killed anywhere.
      if (kills && a.st != act::St::Running && r.chance(a.st == act::St::Idle ? idle_kill_pct : 20) && !(a.thread && a.st != act::St::Idle)) {
        do_kill(ctx, i);
      } else if (a.st == act::St::Idle) {
        lin::Op op;
        if (!gen(ctx, i, op)) continue;
        uint64_t target = 0;
        if (r.chance(step_pct) && !(whole && whole(op))) {
          uint64_t e = est[op.code].size() >= 4 ? r.pick(est[op.code]) : 150;
          target = 1 + r.below(std::max<uint64_t>(e, 12) + 4);
        }
        do_call(ctx, i, op, target);
        look(ctx, i, true);
      } else if (a.st == act::St::Paused) {
        uint64_t more = r.chance(40) ? 1 + r.below(60) : 0;
        ctx.log(strf("%d>%lu", i, more));
        sig = mix(sig, 3000 + i * 100 + more);
        if (!more) stepped[i] = false;
        w.resume(i, more);
        look(ctx, i, true);
      } else if (a.st == act::St::Blocked && interrupts && r.chance(50)) {
        ctx.log(strf("%d!sig", i));
        ctx.count("interrupts_while_blocked");
        sig = mix(sig, 4000 + i);
        w.interrupt(i);
      }
      look_all(ctx);
    }
    quiesce(ctx);
    // Let go of everything, watching that blocked ones come through.
    for (int round = 0; round < 200; round++) {
      bool any = false;
      for (int i = 0; i < n; i++) {
        if (w.actors[i].st != act::St::Idle) continue;
        lin::Op op;
        if (mon.cs.empty() || !drain(ctx, i, mon.cs.begin()->s, op)) continue;
        any = true;
        do_call(ctx, i, op, 0);
        look(ctx, i, true);
      }
      quiesce(ctx);
      if (!any) break;
    }
    for (int i = 0; i < n; i++) {
      if (w.actors[i].st == act::St::Idle) continue;
      if (w.actors[i].thread) ctx.harness_error("thread actor still busy at the end: " + ctx.trace.substr(0, 1500) + " | " + mon.show_all());
      w.kill_actor(i);
      w.spawn(i);
    }
    if (mon.overflow) ctx.count("monitor_overflow");
    ctx.eval();
    if (interesting) ctx.distinct(sig);
    ctx.sample(ctx.trace);
  }
};
