// symx: a symbolic executor for LLVM IR (clang output of the real sources) with Z3 as the decision procedure.
#pragma once
#include <z3++.h>
#include <gmp.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

typedef __int128 i128;
typedef unsigned __int128 u128;
using z3::expr;
extern z3::context *ZC;

enum Kind : uint8_t { K_UNDEF, K_INT, K_DBL, K_SYM, K_AGG, K_CAT };

struct Pay;
struct Val {
  Kind k = K_UNDEF;
  uint16_t w = 0; // integer width; 0 for floating point
  uint64_t lo = 0, hi = 0; // concrete bits (int) or bits of the double
  std::shared_ptr<const Pay> p;
  double d() const { double x; memcpy(&x, &lo, 8); return x; }
  u128 u() const { return ((u128)hi << 64) | lo; }
  i128 s() const { // sign extended
    if (w >= 128) return (i128)u();
    u128 x = u();
    if ((x >> (w - 1)) & 1) x |= ~(((u128)1 << w) - 1);
    return (i128)x;
  }
  bool sym() const { return k == K_SYM; }
  bool isReal() const; // symbolic real-sorted
  const expr &e() const;
};
struct Pay {
  expr e;
  i128 lo = 0, hi = 0;
  std::vector<Val> v;
  Pay(const expr &x) : e(x) {}
};
inline const expr &Val::e() const { return p->e; }
inline bool Val::isReal() const { return k == K_SYM && p->e.is_real(); }

inline i128 smin(unsigned w) { return -((i128)1 << (w - 1)); }
inline i128 smax(unsigned w) { return ((i128)1 << (w - 1)) - 1; }

Val mkInt(unsigned w, u128 x);
Val mkDbl(double d);
Val mkReal(const expr &e);
Val mkBool(const expr &e);
Val mkSymInt(const expr &e, unsigned w, i128 lo, i128 hi);
Val mkAgg(std::vector<Val> v);
expr intE(i128 x);
expr dblE(double d);
std::string i128s(i128 x);
bool numeralToDouble(const expr &e, double &d, bool *exact = nullptr);

struct Slot { Val v; uint32_t size; };
struct Obj {
  uint32_t size = 0;
  enum : uint8_t { HEAP, STACK, GLOBAL, FUNC, FILEO } kind = HEAP;
  bool freed = false, ro = false;
  std::vector<uint8_t> b;
  std::map<uint32_t, Slot> sl;
  llvm::Function *fn = nullptr;
  std::string name;
};
typedef std::shared_ptr<Obj> ObjP;
void objWriteVal(Obj &o, uint32_t off, const Val &v, uint32_t size);
Val objReadVal(const Obj &o, uint32_t off, uint32_t size, bool fp, unsigned w);
void objCopy(Obj &dst, uint32_t doff, const Obj &src, uint32_t soff, uint32_t n);
void objClear(Obj &o, uint32_t off, uint32_t n);
bool objConcrete(const Obj &o, uint32_t off, uint32_t n);

struct Mem {
  struct Chunk { std::array<ObjP, 64> o; };
  std::vector<std::shared_ptr<Chunk>> c;
  uint64_t n = 1; // 0 is null
  uint64_t add(ObjP o);
  void kill(uint64_t id);
  const Obj *get(uint64_t id) const;
  Obj *getW(uint64_t id);
};

struct FnInfo;
struct Frame {
  FnInfo *f = nullptr;
  int bb = 0, ip = 0, pbb = -1;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  std::vector<Val> varargs;
  int mark = 0; // 1 guard, 2 run
  std::shared_ptr<Mem> snap;
};

struct PCNode {
  std::shared_ptr<PCNode> parent;
  expr e;
  int depth;
  PCNode(std::shared_ptr<PCNode> p, const expr &x) : parent(p), e(x), depth(p ? p->depth + 1 : 1) {}
};

struct Exc { uint64_t obj; uint64_t ti; uint64_t dtor; int handlers = 0; bool rethrown = false; };

struct State {
  uint64_t id = 0;
  std::vector<std::shared_ptr<Frame>> stack;
  Mem mem;
  std::shared_ptr<PCNode> pc;
  std::unordered_map<unsigned, Val> known; // ast id -> concrete value implied by pc
  std::map<std::string, ObjP> files;
  std::set<std::string> dirs;
  std::map<std::string, std::string> env;
  std::shared_ptr<z3::model> model;
  std::set<int> axioms;
  std::vector<expr> lazy; // axioms of transcendental functions, used only when a query is satisfiable without them
  std::vector<uint64_t> caught;
  uint64_t curExc = 0;
  std::map<uint64_t, Exc> excs;
  uint64_t instrs = 0;
  int forks = 0;
  std::vector<std::string> tracev; // notes for CE
  Frame &top() {
    auto &p = stack.back();
    if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
    return *p;
  }
};

struct PI {
  llvm::Instruction *I;
  unsigned op;
  int dst;
  std::vector<int> ops;
  bool cov = false;
  // gep
  int64_t goff = 0;
  std::vector<std::pair<int, int64_t>> gidx;
  llvm::Function *callee = nullptr;
  struct Builtin *bi = nullptr;
  unsigned iid = 0;
};
struct BBI { llvm::BasicBlock *B; int nphi = 0; std::vector<PI> ins; };
struct FnInfo {
  llvm::Function *F;
  int nregs = 0;
  std::vector<BBI> bbs;
  std::vector<Val> consts;
  llvm::DenseMap<const llvm::Value *, int> reg;
  llvm::DenseMap<const llvm::BasicBlock *, int> bbid;
  uint64_t execs = 0;
};

struct PathEnd { std::string why; int kind; }; // kind 0 normal, 1 assume-infeasible, 2 violation, 3 engine limit

struct Exec;
struct Builtin { void (*fn)(Exec &, State &, const PI &, std::vector<Val> &, Val &); };

struct CheckStat {
  uint64_t reached = 0, discharged = 0, trivial = 0, violated = 0, unknown = 0, witnessed = 0;
  int ces = 0;
};
struct CE { std::string label, kind, where; std::vector<std::pair<std::string, std::string>> inputs; };

struct Exec {
  llvm::Module *M = nullptr;
  const llvm::DataLayout *DL = nullptr;
  std::unordered_map<const llvm::Function *, std::unique_ptr<FnInfo>> fns;
  std::unordered_map<const llvm::GlobalValue *, uint64_t> gaddr;
  std::unordered_map<std::string, Builtin> builtins;
  std::vector<std::unique_ptr<State>> work;
  State *cur = nullptr;
  bool noAdvance = false;
  // config
  std::map<std::string, long> params;
  std::map<std::string, long> usedParams;
  uint64_t maxInstrs = 400000000ull, maxPaths = 2000000;
  double maxTime = 600; int pin = -1; // pin >= 0: real inputs take concrete sample values
  std::shared_ptr<z3::model> weak; // model of the query without the lazy axioms (candidate only)
  unsigned branchTimeout = 3000, checkTimeout = 20000;
  bool canonDiv = false, forkSelectReal = false, fullCheckFallback = true;
  int maxCE = 3;
  // results
  std::map<std::string, CheckStat> checks;
  std::vector<CE> ces, wits, pending; // pending: inputs of paths whose exploration was cut short
  uint64_t ncompleted = 0;
  std::shared_ptr<z3::model> niceModel(State &s, std::shared_ptr<z3::model> m, const std::vector<expr> &neg);
  std::vector<std::string> incompletes;
  std::map<std::string, uint64_t> pathEnds;
  std::map<std::string, uint64_t> unmodelled;
  std::set<std::string> stubs;
  uint64_t nq = 0, nunsat = 0, nsat = 0, nunk = 0, npaths = 0, totinstr = 0, nforks = 0;
  double tsolve = 0, t0 = 0;
  // inputs
  struct Input { std::string name; expr e; int type; double lo, hi; };
  std::vector<Input> inputs;
  std::map<std::string, int> inputIdx;
  // text tokens
  std::vector<Val> tokVals;
  std::vector<int> tokPrec;
  std::map<std::string, int> tokIds;
  // function applications
  struct App { std::string f; expr arg, var; std::vector<expr> ax, lz; };
  std::vector<App> apps;
  std::map<std::pair<std::string, unsigned>, int> appIdx;
  std::vector<expr> keep;
  std::set<unsigned> keptIds;
  std::vector<std::string> log;

  z3::solver *S = nullptr;
  std::vector<std::shared_ptr<PCNode>> sstack;

  // engine
  void init(llvm::Module *m);
  void allocGlobals(State &s);
  FnInfo *info(llvm::Function *F);
  Val evalConst(llvm::Constant *c);
  Val getOp(State &s, Frame &f, int idx) { return idx >= 0 ? f.regs[idx] : f.f->consts[~idx]; }
  void runAll();
  void step(State &s);
  void execPI(State &s, Frame &f, const PI &pi);
  void jump(State &s, Frame &f, int bb);
  void pushFrame(State &s, llvm::Function *F, const std::vector<Val> &args, int mark = 0);
  void doReturn(State &s, Val ret);
  void doCall(State &s, const PI &pi, llvm::Function *F, std::vector<Val> &args, Builtin *bi);
  void finishCall(State &s, const Val &ret); // set dest of pending call & advance
  void setDst(State &s, const Val &v);
  void unwindTo(State &s, uint64_t excObj);
  void doExit(State &s, int code);
  void popFrame(State &s);
  void popToMark(State &s, int code);

  // values
  Val binop(State &s, llvm::Instruction *I, unsigned op, Val a, Val b, llvm::Type *T);
  Val fbin(State &s, unsigned op, const Val &a, const Val &b, bool isFloat);
  Val fneg(const Val &a);
  Val fabsV(const Val &a);
  Val icmp(State &s, unsigned pred, Val a, Val b);
  Val fcmp(State &s, unsigned pred, const Val &a, const Val &b);
  Val selectV(State &s, const Val &c, const Val &a, const Val &b, llvm::Type *T);
  Val castV(State &s, unsigned op, Val a, llvm::Type *from, llvm::Type *to);
  Val norm(State &s, const Val &v); // CAT -> int
  Val unop(State &s, const std::string &f, const Val &x);
  Val wrapSym(State &s, const expr &e, i128 lo, i128 hi, unsigned w);
  Val canon(const Val &v); // canon.cpp: simplified term of the same value
  Val canonSqrt(const Val &v, bool &ok);
  Val sqrtV(State &s, const Val &x);
  Val floorV(State &s, const Val &x, int mode); // 0 floor 1 ceil 2 trunc 3 round 4 rint
  Val apply(State &s, const std::string &f, const Val &x);
  expr freshApp(State &s, const std::string &f, const expr &arg);

  // solver
  void sync(State &s);
  void addPC(State &s, const expr &e);
  z3::check_result query(State &s, const std::vector<expr> &ex, unsigned to, std::shared_ptr<z3::model> *m, bool full);
  bool decide(State &s, const expr &c);
  bool decideV(State &s, const Val &c) { return c.k == K_SYM ? decide(s, c.e()) : (c.lo & 1); }
  uint64_t concretize(State &s, const Val &v);
  bool feasible(State &s);
  bool modelTrue(State &s, const expr &c, bool &val);

  // memory
  void *ptr(State &s, uint64_t addr, uint64_t n);
  Val load(State &s, uint64_t addr, llvm::Type *T);
  void store(State &s, uint64_t addr, const Val &v, llvm::Type *T);
  const Obj &objR(State &s, uint64_t addr, uint64_t n, const char *what);
  Obj &objW(State &s, uint64_t addr, uint64_t n, const char *what);
  uint64_t alloc(State &s, uint64_t size, int kind, const std::string &name = "");
  void memcopy(State &s, uint64_t d, uint64_t a, uint64_t n);
  std::string cstr(State &s, uint64_t addr);
  std::string cbytes(State &s, uint64_t addr, uint64_t n);
  void wbytes(State &s, uint64_t addr, const void *p, uint64_t n);

  // reporting
  std::string where(State &s);
  std::string backtrace(State &s);
  void violation(State &s, const std::string &label, const std::string &kind, std::shared_ptr<z3::model> m, const std::vector<expr> &neg);
  [[noreturn]] void ub(State &s, const std::string &what);
  bool guess(State &s, const std::vector<expr> &neg, std::shared_ptr<z3::model> &m);
  bool guessed = false;
  void check(State &s, const Val &c, const std::string &label);
  void checkClose(State &s, const Val &a, const Val &b, double tol, const std::string &label);
  [[noreturn]] void unsup(State &s, const std::string &what);
  void note(const std::string &m) { if (log.size() < 200) log.push_back(m); }
  void incomplete(const std::string &m) { for (auto &x : incompletes) if (x == m) return; if (incompletes.size() < 100) incompletes.push_back(m); }
  std::string token(State &s, const Val &v, int prec);
  bool tokenValue(double d, Val &out);
};
void registerBuiltins(Exec &E);
void intrinsicCall(Exec &E, State &s, const PI &pi, std::vector<Val> &a, Val &ret);
double nowSec();
std::string typeName(llvm::Type *t);
