// Circuit families (exhaustive program spaces) used by several properties.
#ifndef VERIF_FAM_H_
#define VERIF_FAM_H_
#include "gc.h"
typedef std::function<void(const Circuit&)> CircFn;
// All one-gate circuits over two public, two garbler, two evaluator inputs and
// constants. Reports (circuit) for each (type, a, b).
void FamOne(const CircFn& f);
// All two-gate circuits: second gate reads the first at least once.
void FamTwo(bool small, const CircFn& f);
// Three-gate circuits over a reduced basis.
void FamThree(int basis, const CircFn& f);
// Three-gate circuits whose last one or two gates feed nothing.
void FamDangling(const CircFn& f);
// Sequential circuits: nreg registers, ngate gates.
void FamSeq(int level, const CircFn& f);
// Packs many gates over a handful of inputs: every type on every wire pair.
Circuit PackedGrid(int pin, int gin, int ein, bool with_const);
// All input assignments of a combinational circuit as consecutive cycles.
Inputs AllAssignments(const Circuit& c, int* cc);
// Runs one session and checks it against the model; bookkeeping included.
bool SkipLarge(Ctx& x, const Session& s);
bool RunAndCheck(Ctx& x, const Session& s);
void ReplaySession(Ctx& x, const string& c);
void CountModel(Ctx& x, const Session& s, const RefTrace& t);
// Bit patterns: 0 zeros, 1 ones, 2 walking one at k, 3 walking zero, 4 alternating, 5.. mixed.
Bits Pattern(size_t n, int kind, size_t k = 0);
Circuit WideCircuit(int w, bool pub);
Circuit ChainCircuit(int n, int phase);
// Outputs of every kind (private, public, constant, input, register ...).
static const int kKinds = 12;
Circuit KindCircuit(const vector<int>& kinds);
Session Hist(const Circuit& c, int cc, uint64_t salt);  // fixed pseudo-random inputs
Session KindSession(const Circuit& c, int var);
bool TermCircuit(int kind, Circuit* o);
// Sizes beyond one and two bytes everywhere at once: n initial bits and n input
// bits of each owner, 3n registers, n outputs.
Circuit BigCircuit(int n);
Session BigSession(int n, int cc, int salt);
// A few gates and registers over very many cycles.
Session LongSession(int cc, int salt);
// n initial and n input bits of each owner, of which a few positions count.
Session SparseSession(int n, int cc, int salt);
// A gate result that n others read (v: who keeps it needed).
Session FanSession(int n, int v);
// A counter whose value v raises the terminate signal.
Session CountSession(int bits, int v, int per, int priv, int cc);
// A pool of structurally different sessions.
vector<Session> SessionPool();
#endif
