//! src=
//# two tables written with the library's own macros: one with every combination of mapped/unmapped transitions over six states, one whose error state is also an ordinary state; every start state, every transition; sequences of up to 4 iterations (thorough 8)
//# outside the claim: sequences longer than the bound (the state is the machine's only memory, and every single step is checked from every state)
#include "avoidance/usm.h"
#include "sym.h"
using usm::Transition;
enum class S { A, B, C, D, E, ERR };
static const int NS = 6, NT = 6;
static const char* TN[] = {"x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7"};
// reference tables: -1 = no entry; columns NEXT1..NEXT4
static const int T1[NS][4] = {{1, -1, -1, -1}, {2, 0, -1, -1}, {3, 1, 2, -1}, {4, 2, 0, 1}, {-1, -1, -1, 0}, {-1, 2, -1, -1}};
static const int T2[NS][4] = {{0, 1, 2, 3}, {-1, -1, 4, -1}, {-1, -1, -1, -1}, {5, 5, -1, 0}, {-1, 3, -1, 2}, {-1, -1, -1, -1}};
struct Base : usm::StateMachine<S> {
  int runs = 0, chosen = 0, ranIn = -1; int next = 0;
  Base(S s) : usm::StateMachine<S>(s) {}
  Transition runCurrentState() override { runs++; ranIn = (int)getState(); return (Transition)next; }
};
struct M1 : Base {
  M1(S s) : Base(s) {}
  S chooseNextState(S st, Transition t) override {
    chosen++;
    USM_TABLE(st, S::ERR,
      USM_STATE(t, S::A, USM_MAP(Transition::NEXT1, S::B));
      USM_STATE(t, S::B, USM_MAP(Transition::NEXT1, S::C); USM_MAP(Transition::NEXT2, S::A));
      USM_STATE(t, S::C, USM_MAP(Transition::NEXT1, S::D); USM_MAP(Transition::NEXT2, S::B); USM_MAP(Transition::NEXT3, S::C));
      USM_STATE(t, S::D, USM_MAP(Transition::NEXT1, S::E); USM_MAP(Transition::NEXT2, S::C); USM_MAP(Transition::NEXT3, S::A); USM_MAP(Transition::NEXT4, S::B));
      USM_STATE(t, S::E, USM_MAP(Transition::NEXT4, S::A));
      USM_STATE(t, S::ERR, USM_MAP(Transition::NEXT2, S::C)));
  }
};
struct M2 : Base {
  M2(S s) : Base(s) {}
  S chooseNextState(S st, Transition t) override {
    chosen++;
    USM_TABLE(st, S::C,
      USM_STATE(t, S::A, USM_MAP(Transition::NEXT1, S::A); USM_MAP(Transition::NEXT2, S::B); USM_MAP(Transition::NEXT3, S::C); USM_MAP(Transition::NEXT4, S::D));
      USM_STATE(t, S::B, USM_MAP(Transition::NEXT3, S::E));
      USM_STATE(t, S::D, USM_MAP(Transition::NEXT1, S::ERR); USM_MAP(Transition::NEXT2, S::ERR); USM_MAP(Transition::NEXT4, S::A));
      USM_STATE(t, S::E, USM_MAP(Transition::NEXT2, S::D); USM_MAP(Transition::NEXT4, S::C)));
  }
};
static int follow(const int T[NS][4], int err, int s, int t) {
  if (t == 0) return s;
  if (t == 5) return err;
  int n = T[s][t - 1]; return n < 0 ? err : n;
}
template <class M> static void run(const int T[NS][4], int err, int steps) {
  int s = sym_i32("start", 0, NS - 1); M m((S)s);
  sym_assert((int)m.getState() == s, "a machine starts in its start state");
  for (int k = 0; k < steps; k++) {
    int t = sym_i32(TN[k], 0, NT - 1); m.next = t;
    m.iterateOnce();
    sym_assert(m.runs == k + 1, "one iteration runs one action once");
    sym_assert(m.ranIn == s, "the action is that of the current state");
    s = follow(T, err, s, t);
    sym_assert((int)m.getState() == s, "the state is the table's successor (kept on repeat, error state on error or unmapped)");
    sym_assert((int)m.getState() == s, "asking for the state does not change it");
  }
  sym_cover("end");
}
#ifdef THOROUGH
static const int K = 8;
#else
static const int K = 4;
#endif
HARNESS C09_step() { run<M1>(T1, (int)S::ERR, 1); }
HARNESS C09_step_shared_error() { run<M2>(T2, (int)S::C, 1); }
//@ time=60 ttime=700
HARNESS C09_sequence() { run<M1>(T1, (int)S::ERR, K); }
//@ time=60 ttime=700
HARNESS C09_sequence_shared_error() { run<M2>(T2, (int)S::C, K); }
