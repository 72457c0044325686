// Small linearizability checker (Wing & Gong search with memoisation).
#pragma once
#include <functional>
#include <set>
#include <utility>
#include <vector>

#include "sim.h"

struct HOp {
  sim::u64 inv = 0, res = ~0ull;  // event sequence numbers; res = ~0: still pending
  int thr = 0, kind = 0;
  sim::i64 a = 0, b = 0, r = 0;
  bool done() const { return res != ~0ull; }
};

// Model: bool step(State&, const HOp&) -> legal?; State must be ordered (<).
// Pending operations may take effect or not.
template <class State, class Step>
bool linearizable(const std::vector<HOp> &h, State init, Step step) {
  size_t n = h.size();
  if (n > 63) sim::harness_error("history too long for the linearizability checker");
  std::set<std::pair<sim::u64, State>> seen;
  std::function<bool(sim::u64, const State &)> rec = [&](sim::u64 done, const State &st) -> bool {
    bool all = true;
    sim::u64 minres = ~0ull;
    for (size_t i = 0; i < n; i++)
      if (!(done >> i & 1)) {
        if (h[i].done()) {
          all = false;
          if (h[i].res < minres) minres = h[i].res;
        }
      }
    if (all) return true;
    if (!seen.insert({done, st}).second) return false;
    for (size_t i = 0; i < n; i++) {
      if (done >> i & 1) continue;
      if (h[i].inv > minres) continue;
      State s2 = st;
      if (step(s2, h[i]) && rec(done | 1ull << i, s2)) return true;
    }
    return false;
  };
  return rec(0, init);
}
