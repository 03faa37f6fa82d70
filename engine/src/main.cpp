#include <llvm/IR/IRBuilder.h>
#include "symx.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <thread>
#include <mutex>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;
void startWatchdog();
static std::string jesc(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
int main(int argc, char **argv) {
  std::vector<std::string> files; std::vector<std::string> skip; std::string out, entry = "harness"; Exec E; 
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-o") out = argv[++i]; else if (a == "-e") entry = argv[++i];
    else if (a == "-p") { std::string kv = argv[++i]; auto q = kv.find('='); E.params[kv.substr(0, q)] = atol(kv.c_str() + q + 1); }
    else if (a == "--time") E.maxTime = atof(argv[++i]); else if (a == "--branch-timeout") E.branchTimeout = atoi(argv[++i]); else if (a == "--check-timeout") E.checkTimeout = atoi(argv[++i]);
    else if (a == "--canon-div") E.canonDiv = true; else if (a == "--fork-select") E.forkSelectReal = true; else if (a == "--max-instr") E.maxInstrs = atoll(argv[++i]); else if (a == "--pin") E.pin = atoi(argv[++i]); else if (a == "--max-ce") E.maxCE = atoi(argv[++i]);
    else if (a == "--skip") skip.push_back(argv[++i]); else files.push_back(a);
  }
  struct rlimit rl{1ul << 30, 1ul << 30}; getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_STACK, &rl);
  ZC = new z3::context; startWatchdog();
  LLVMContext C; SMDiagnostic err; std::unique_ptr<Module> M;
  for (auto &f : files) { auto m = parseIRFile(f, err, C); if (!m) { err.print("symx", errs()); return 3; } if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 3; } }
  if (auto *tm = M->getFunction("sym_tool_main")) if (tm->isDeclaration()) if (auto *m = M->getFunction("main")) tm->replaceAllUsesWith(m);
  // --skip NAME: a function that only reports to the console is not executed (void functions of that name)
  for (auto &n : skip) for (auto &F : *M) if (!F.isDeclaration() && F.getReturnType()->isVoidTy() && F.getName().contains(std::to_string(n.size()) + n + "E")) { F.deleteBody(); F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); IRBuilder<> b(BasicBlock::Create(C, "skip", &F)); b.CreateRetVoid(); F.setSubprogram(nullptr); E.stubs.insert(n + "() only writes a report to the console and is skipped"); }
  double t0 = nowSec();
  z3::solver S(*ZC, z3::solver::simple()); E.S = &S; E.M = M.get(); E.DL = &M->getDataLayout();
  registerBuiltins(E);
  auto st = std::make_unique<State>(); E.t0 = t0;
  // every builtin must exist as a function value if its address is taken; globals and functions get addresses first
  E.allocGlobals(*st);
  Function *H = M->getFunction(entry); if (!H || H->isDeclaration()) { errs() << "no entry " << entry << "\n"; return 3; }
  // constructors run in priority order, then the harness
  std::vector<std::pair<uint64_t, Function *>> ctors;
  if (auto *g = M->getNamedGlobal("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o.get()); auto *f = dyn_cast<Function>(cs->getOperand(1)); if (f) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  int rc = 0;
  { // run constructors concretely one after another in the same state
    E.cur = st.get();
    for (auto &c : ctors) { try { E.pushFrame(*st, c.second, {}); while (true) E.step(*st); } catch (PathEnd &e) { if (e.kind != 0) { E.incomplete("constructor: " + e.why); rc = 2; fprintf(stderr, "constructor failed: %s\n", e.why.c_str()); } st->stack.clear(); } }
  }
  std::mutex mx; bool hung = false;
  auto report = [&]() {
  std::lock_guard<std::mutex> lk(mx);
  // ---- report
  std::set<std::string> fnsR; std::map<std::string, std::set<unsigned>> lines; uint64_t fnAll = 0;
  for (auto &f : E.fns) {
    if (!f.second->execs) continue; fnAll++;
    auto *sp = const_cast<Function *>(f.first)->getSubprogram();
    for (auto &b : f.second->bbs) for (auto &p : b.ins) if (p.cov) if (auto &dl = p.I->getDebugLoc()) for (DILocation *l = dl.get(); l; l = l->getInlinedAt()) { std::string fn = l->getFilename().str(); if (fn.compare(0, 6, "/repo/") == 0) { lines[fn].insert(l->getLine()); if (auto *sc = l->getScope()->getSubprogram()) fnsR.insert(fn.substr(6) + ":" + sc->getName().str()); } }
    (void)sp;
  }
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  std::string j = "{";
  j += "\"wall\":" + std::to_string(nowSec() - t0) + ",\"solver_s\":" + std::to_string(E.tsolve) + ",\"queries\":" + std::to_string(E.nq) + ",\"unsat\":" + std::to_string(E.nunsat) + ",\"sat\":" + std::to_string(E.nsat) + ",\"unknown\":" + std::to_string(E.nunk) + ",\"paths\":" + std::to_string(E.npaths) + ",\"forks\":" + std::to_string(E.nforks) + ",\"instructions\":" + std::to_string(E.totinstr) + ",\"maxrss_mb\":" + std::to_string(ru.ru_maxrss / 1024) + ",\"functions_all\":" + std::to_string(fnAll);
  j += ",\"params\":{"; bool f1 = true; for (auto &p : E.usedParams) { j += (f1 ? "" : ",") + jesc(p.first) + ":" + std::to_string(p.second); f1 = false; } j += "}";
  j += ",\"inputs\":["; f1 = true; for (auto &p : E.inputs) { char b[200]; snprintf(b, 200, "%.17g,%.17g", p.lo, p.hi); j += (f1 ? "" : ",") + std::string("[") + jesc(p.name) + "," + (p.type ? "\"real\"" : "\"int\"") + "," + b + "]"; f1 = false; } j += "]";
  j += ",\"functions\":["; f1 = true; for (auto &x : fnsR) { j += (f1 ? "" : ",") + jesc(x); f1 = false; } j += "]";
  j += ",\"lines\":{"; f1 = true; for (auto &x : lines) { j += (f1 ? "" : ",") + jesc(x.first.substr(6)) + ":" + std::to_string(x.second.size()); f1 = false; } j += "}";
  j += ",\"checks\":{"; f1 = true; for (auto &x : E.checks) { auto &c = x.second; j += (f1 ? "" : ",") + jesc(x.first) + ":{\"reached\":" + std::to_string(c.reached) + ",\"witnessed\":" + std::to_string(c.witnessed) + ",\"discharged\":" + std::to_string(c.discharged) + ",\"concrete\":" + std::to_string(c.trivial) + ",\"violated\":" + std::to_string(c.violated) + ",\"unknown\":" + std::to_string(c.unknown) + "}"; f1 = false; } j += "}";
  j += ",\"ces\":["; f1 = true; for (auto &c : E.ces) { j += (f1 ? "" : ",") + std::string("{\"label\":") + jesc(c.label) + ",\"kind\":" + jesc(c.kind) + ",\"where\":" + jesc(c.where) + ",\"inputs\":["; bool f2 = true; for (auto &x : c.inputs) { j += (f2 ? "" : ",") + std::string("[") + jesc(x.first) + "," + jesc(x.second) + "]"; f2 = false; } j += "]}"; f1 = false; } j += "]";
  j += ",\"pending\":["; f1 = true; for (auto &c : E.pending) { j += f1 ? "[" : ",["; bool f2 = true; for (auto &x : c.inputs) { j += (f2 ? "" : ",") + std::string("[") + jesc(x.first) + "," + jesc(x.second) + "]"; f2 = false; } j += "]"; f1 = false; } j += "]";
  j += ",\"witnesses\":["; f1 = true; for (auto &c : E.wits) { j += f1 ? "[" : ",["; bool f2 = true; for (auto &x : c.inputs) { j += (f2 ? "" : ",") + std::string("[") + jesc(x.first) + "," + jesc(x.second) + "]"; f2 = false; } j += "]"; f1 = false; } j += "]";
  auto lst = [&](const char *n, auto &v) { j += std::string(",\"") + n + "\":["; bool f = true; for (auto &x : v) { j += (f ? "" : ",") + jesc(x); f = false; } j += "]"; };
  lst("incomplete", E.incompletes); lst("stubs", E.stubs); lst("notes", E.log);
  auto mp = [&](const char *n, auto &v) { j += std::string(",\"") + n + "\":{"; bool f = true; for (auto &x : v) { j += (f ? "" : ",") + jesc(x.first) + ":" + std::to_string(x.second); f = false; } j += "}"; };
  mp("path_ends", E.pathEnds); mp("unmodelled", E.unmodelled);
  j += "}\n";
  if (out.empty()) fputs(j.c_str(), stdout); else { std::ofstream o(out); o << j; }
  fflush(stdout); _exit(rc);
  };
  // if the solver ignores its deadline, what was established so far is still written out
  std::thread([&]() { while (nowSec() - t0 < E.maxTime + 45) sleep(1); hung = true; E.incompletes.push_back("time limit: a step of the exploration did not return"); report(); }).detach();
  try { st->stack.clear(); E.pushFrame(*st, H, {}); E.work.push_back(std::move(st)); E.runAll(); } catch (z3::exception &e) { E.incomplete(std::string("solver error ") + e.msg()); }
  report(); return 0;
}
