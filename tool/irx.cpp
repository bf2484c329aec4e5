// irx: normalises LLVM bitcode of a driver TU and exports selected functions as JSON.
//
//   irx <in.bc> <spec> <out.json>
//
// spec lines:   job NAME            start a job
//               root REGEX          functions (demangled name) to export in this job
//               rootcoro REGEX      the same, restricted to coroutines
//               opaque REGEX        callees never inlined in this job
//               budget N            instruction budget of one root
//               tls 1               export where addresses of thread-local objects are stored
//               graph 1             export the exception graph of the module: for every function with
//                                   a body, its calls and what becomes of an exception they throw
// Everything else with a body is inlined into the root (except pre-split coroutines), then
// SROA / instcombine / simplifycfg / jump-threading etc. normalise the result, so that helper
// extraction, local renames and statement shuffles which do not change behaviour disappear.
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <algorithm>
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string dem(StringRef n) { return demangle(n.str()); }

struct Job {
  std::string name;
  std::vector<std::regex> roots, coroots, opaque;
  unsigned budget = 20000;
  bool graph = false, tls = false;
};

static std::vector<Job> readSpec(const char *p) {
  std::ifstream in(p);
  std::vector<Job> jobs;
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    auto sp = line.find(' ');
    std::string k = line.substr(0, sp), v = sp == std::string::npos ? "" : line.substr(sp + 1);
    if (k == "job") { jobs.emplace_back(); jobs.back().name = v; }
    else if (k == "root") jobs.back().roots.emplace_back(v, std::regex::ECMAScript | std::regex::optimize);
    else if (k == "rootcoro") jobs.back().coroots.emplace_back(v, std::regex::ECMAScript | std::regex::optimize);
    else if (k == "graph") jobs.back().graph = true;
    else if (k == "tls") jobs.back().tls = true;
    else if (k == "opaque") jobs.back().opaque.emplace_back(v, std::regex::ECMAScript | std::regex::optimize);
    else if (k == "budget") jobs.back().budget = std::stoul(v);
    else { errs() << "bad spec line " << line << "\n"; exit(2); }
  }
  return jobs;
}

static bool anyMatch(std::vector<std::regex> const &rs, std::string const &s) {
  for (auto &r : rs) if (std::regex_search(s, r)) return true;
  return false;
}

static std::map<const Function *, std::string> g_dem;
static std::string const &fdem(const Function *f) {
  auto it = g_dem.find(f);
  if (it == g_dem.end()) it = g_dem.emplace(f, dem(f->getName())).first;
  return it->second;
}

static std::string qual(const DIScope *s);
static std::map<const Function *, std::string> g_qual;
static std::string const &fqual(const Function *f) {
  auto it = g_qual.find(f);
  if (it == g_qual.end()) {
    auto *sp = f->getSubprogram();
    it = g_qual.emplace(f, sp ? qual(sp) : std::string()).first;
  }
  return it->second;
}
// names are matched both in demangled form and as debug-info qualified names (constrained
// templates cannot be demangled by this LLVM)
static bool fnMatch(std::vector<std::regex> const &rs, const Function *f) {
  if (anyMatch(rs, fdem(f)) || anyMatch(rs, fqual(f))) return true;
  auto const &q = fqual(f);
  if (q.find('<') == std::string::npos) return false;
  std::string t;
  int d = 0;
  for (char c : q) {
    if (c == '<') ++d;
    else if (c == '>' && d) --d;
    else if (!d) t += c;
  }
  return anyMatch(rs, t);
}

// ---------------------------------------------------------------- inlining
static bool inlineAll(Function &F, Function *orig, Job const &job, std::map<const Function *, bool> &opq) {
  // (call, history index)
  std::vector<std::pair<Function *, int>> hist;
  std::vector<std::pair<CallBase *, int>> work;
  for (auto &bb : F) for (auto &i : bb) if (auto *cb = dyn_cast<CallBase>(&i)) work.push_back({cb, -1});
  unsigned count = F.getInstructionCount();
  bool within = true;
  for (size_t w = 0; w < work.size(); ++w) {
    auto [cb, h] = work[w];
    if (!cb) continue;
    Function *callee = cb->getCalledFunction();
    if (!callee || callee->isDeclaration() || callee->isPresplitCoroutine() || callee->isVarArg()) continue;
    if (callee == orig || callee == &F) continue;
    auto it = opq.find(callee);
    if (it == opq.end()) it = opq.emplace(callee, fnMatch(job.opaque, callee)).first;
    if (it->second) continue;
    bool rec = false;
    for (int k = h; k >= 0; k = hist[k].second) if (hist[k].first == callee) { rec = true; break; }
    if (rec) continue;
    if (count > job.budget) { within = false; continue; }
    count += callee->getInstructionCount();
    InlineFunctionInfo ifi;
    auto r = InlineFunction(*cb, ifi, false, nullptr, false);
    if (!r.isSuccess()) continue;
    hist.push_back({callee, h});
    int nh = hist.size() - 1;
    for (auto *n : ifi.InlinedCallSites) work.push_back({n, nh});
  }
  return within;
}

// ---------------------------------------------------------------- export
static json::Object diTypes;
static std::map<const DIType *, std::string> diIds;

static std::string qual(const DIScope *s) {
  std::string r;
  for (; s; s = s->getScope()) {
    if (isa<DIFile>(s) || isa<DICompileUnit>(s)) break;
    std::string n = s->getName().str();
    if (auto *sp = dyn_cast<DISubprogram>(s)) n = sp->getName().str();
    if (isa<DILexicalBlockBase>(s)) continue;
    if (n.empty() ) n = "(anon)";
    if (auto *ns = dyn_cast<DINamespace>(s)) { if (ns->getExportSymbols()) continue; }
    r = r.empty() ? n : n + "::" + r;
  }
  return r;
}

static std::string emitType(const DIType *t) {
  if (!t) return "void";
  auto it = diIds.find(t);
  if (it != diIds.end()) return it->second;
  std::string id = "T" + std::to_string(diIds.size());
  diIds[t] = id;
  json::Object o;
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    o["k"] = dwarf::TagString(d->getTag()).str();
    o["n"] = d->getName().str();
    o["base"] = emitType(d->getBaseType());
    o["size"] = (int64_t)(d->getSizeInBits() / 8);
  } else if (auto *c = dyn_cast<DICompositeType>(t)) {
    o["k"] = dwarf::TagString(c->getTag()).str();
    o["n"] = c->getName().str();
    o["q"] = qual(c);
    o["size"] = (int64_t)(c->getSizeInBits() / 8);
    o["file"] = c->getFilename().str();
    o["line"] = (int64_t)c->getLine();
    if (c->getTag() == dwarf::DW_TAG_array_type) o["base"] = emitType(c->getBaseType());
    json::Array ms, ens;
    for (auto *e : c->getElements()) {
      if (auto *m = dyn_cast_or_null<DIDerivedType>(e)) {
        if (m->isStaticMember()) continue;
        json::Object mo;
        mo["n"] = m->getName().str();
        mo["off"] = (int64_t)(m->getOffsetInBits() / 8);
        mo["size"] = (int64_t)(m->getSizeInBits() / 8);
        mo["t"] = emitType(m->getBaseType());
        mo["inh"] = m->getTag() == dwarf::DW_TAG_inheritance;
        ms.push_back(std::move(mo));
      } else if (auto *en = dyn_cast_or_null<DIEnumerator>(e)) {
        json::Object eo;
        eo["n"] = en->getName().str();
        eo["v"] = en->getValue().getSExtValue();
        ens.push_back(std::move(eo));
      }
    }
    o["m"] = std::move(ms);
    if (!ens.empty()) o["enum"] = std::move(ens);
  } else if (auto *b = dyn_cast<DIBasicType>(t)) {
    o["k"] = "basic";
    o["n"] = b->getName().str();
    o["size"] = (int64_t)(b->getSizeInBits() / 8);
  } else o["k"] = "other";
  diTypes[id] = std::move(o);
  return id;
}

static std::string tyName(Type *t) {
  std::string s;
  raw_string_ostream os(s);
  t->print(os, false, true);
  return os.str();
}

struct Ex {
  const DataLayout &DL;
  std::map<const Value *, int> ids;
  std::map<const BasicBlock *, int> bids;

  int id(const Value *v) { auto r = ids.emplace(v, (int)ids.size()); return r.first->second; }

  json::Value operand(const Value *v) {
    json::Object o;
    if (auto *ci = dyn_cast<ConstantInt>(v)) {
      if (ci->getBitWidth() <= 64) o["c"] = ci->getSExtValue(); else o["c"] = (int64_t)ci->getValue().trunc(64).getSExtValue();
      o["w"] = (int64_t)ci->getBitWidth();
    } else if (isa<ConstantPointerNull>(v)) o["null"] = 1;
    else if (isa<UndefValue>(v)) o["undef"] = 1;
    else if (auto *gv = dyn_cast<GlobalValue>(v)) {
      o["g"] = dem(gv->getName()); o["gm"] = gv->getName().str();
    } else if (auto *ce = dyn_cast<ConstantExpr>(v)) {
      o["ce"] = std::string(ce->getOpcodeName());
      if (auto *gep = dyn_cast<GEPOperator>(ce)) {
        APInt off(DL.getIndexSizeInBits(0), 0);
        if (gep->accumulateConstantOffset(DL, off)) o["off"] = off.getSExtValue();
      }
      json::Array a;
      for (auto &u : ce->operands()) a.push_back(operand(u.get()));
      o["ops"] = std::move(a);
    } else if (auto *cf = dyn_cast<ConstantFP>(v)) { (void)cf; o["fp"] = 1; }
    else if (isa<Constant>(v)) { o["k"] = tyName(v->getType()); if (cast<Constant>(v)->isNullValue()) o["zero"] = 1; }
    else if (isa<InlineAsm>(v)) o["asm"] = cast<InlineAsm>(v)->getAsmString();
    else if (isa<MetadataAsValue>(v)) o["md"] = 1;
    else if (auto *bb = dyn_cast<BasicBlock>(v)) o["b"] = bids[bb];
    else o["v"] = id(v);
    return o;
  }

  json::Value loc(const Instruction &i) {
    json::Array a;
    for (DILocation *l = i.getDebugLoc().get(); l; l = l->getInlinedAt()) {
      json::Array e;
      e.push_back(l->getFilename().str());
      e.push_back((int64_t)l->getLine());
      auto *sp = l->getScope()->getSubprogram();
      std::string q = sp ? (qual(sp)) : "";
      e.push_back(q);
      a.push_back(std::move(e));
    }
    return a;
  }

  json::Object fn(Function &F, std::string const &name, std::string const &mangled) {
    json::Object o;
    o["name"] = name;
    o["mangled"] = mangled;
    o["coro"] = F.isPresplitCoroutine();
    o["nounwind"] = F.doesNotThrow();
    json::Array args;
    auto *sp = F.getSubprogram();
    unsigned sret = 0;
    DITypeRefArray ta = sp && sp->getType() ? sp->getType()->getTypeArray() : DITypeRefArray(nullptr);
    for (auto &a : F.args()) {
      json::Object ao;
      ao["v"] = id(&a);
      ao["n"] = a.getName().str();
      ao["ty"] = tyName(a.getType());
      if (a.hasStructRetAttr()) { sret = 1; ao["sret"] = 1; if (sp && ta && ta.size()) ao["di"] = emitType(ta[0]); ao["sret"] = 1; }
      args.push_back(std::move(ao));
    }
    // DI types of the parameters, by dbg variables first
    std::map<unsigned, const DIType *> byArg;
    o["sretn"] = (int64_t)sret;
    if (sp) {
      json::Array dis;
      if (ta) for (unsigned k = 0; k < ta.size(); ++k) dis.push_back(emitType(ta[k]));
      o["ditypes"] = std::move(dis);
      o["file"] = sp->getFilename().str();
      o["line"] = (int64_t)sp->getLine();
      o["qual"] = qual(sp);
    }
    o["args"] = std::move(args);
    o["retty"] = tyName(F.getReturnType());
    int n = 0;
    for (auto &bb : F) bids[&bb] = n++;
    json::Array blocks, hints;
    for (auto &bb : F) {
      json::Array insts;
      for (auto &i : bb) {
        if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&i)) {
          auto *var = dv->getVariable();
          if (dv->getNumVariableLocationOps() == 1 && var->getType()) {
            Value *lv = dv->getVariableLocationOp(0);
            bool empty = dv->getExpression()->getNumElements() == 0;
            if (lv && !isa<Constant>(lv) && empty) {
              json::Array e;
              e.push_back(id(lv));
              e.push_back(isa<DbgDeclareInst>(dv) ? "obj" : "val");
              e.push_back(emitType(var->getType()));
              e.push_back(var->getName().str());
              hints.push_back(std::move(e));
            }
          }
          continue;
        }
        if (isa<DbgInfoIntrinsic>(i)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&i)) {
          auto k = ii->getIntrinsicID();
          if (k == Intrinsic::lifetime_start || k == Intrinsic::lifetime_end || k == Intrinsic::experimental_noalias_scope_decl) continue;
        }
        json::Object io;
        io["v"] = id(&i);
        io["op"] = std::string(i.getOpcodeName());
        io["ty"] = tyName(i.getType());
        io["loc"] = loc(i);
        json::Array ops;
        if (auto *phi = dyn_cast<PHINode>(&i)) {
          json::Array inc;
          for (unsigned k = 0; k < phi->getNumIncomingValues(); ++k) {
            json::Array e; e.push_back(operand(phi->getIncomingValue(k))); e.push_back(bids[phi->getIncomingBlock(k)]);
            inc.push_back(std::move(e));
          }
          io["inc"] = std::move(inc);
        } else if (auto *cb = dyn_cast<CallBase>(&i)) {
          for (auto &a : cb->args()) ops.push_back(operand(a.get()));
          if (auto *f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) {
            io["callee"] = fdem(f); io["cm"] = f->getName().str();
            if (f->getSubprogram()) io["cq"] = fqual(f);
            if (f->isDeclaration()) io["decl"] = 1;
            if (f->isPresplitCoroutine()) io["ccoro"] = 1;
            if (auto *csp = f->getSubprogram()) {
              if (csp->getType() && csp->getType()->getTypeArray().size()) io["retdi"] = emitType(csp->getType()->getTypeArray()[0]);
            }
            if (f->doesNotThrow()) io["fnounwind"] = 1;
          } else if (cb->isInlineAsm()) { io["asm"] = cast<InlineAsm>(cb->getCalledOperand())->getAsmString(); io["constraints"] = cast<InlineAsm>(cb->getCalledOperand())->getConstraintString(); }
          else io["indirect"] = operand(cb->getCalledOperand());
          if (cb->doesNotThrow()) io["nounwind"] = 1;
          if (cb->doesNotReturn()) io["noreturn"] = 1;
          if (cb->doesNotAccessMemory()) io["readnone"] = 1;
          if (cb->onlyReadsMemory()) io["readonly"] = 1;
          if (cb->arg_size() && cb->paramHasAttr(0, Attribute::StructRet)) io["sret"] = 1;
          if (auto *inv = dyn_cast<InvokeInst>(cb)) { io["normal"] = bids[inv->getNormalDest()]; io["unwind"] = bids[inv->getUnwindDest()]; }
        } else if (isa<BranchInst>(i) ) {
          auto &b = cast<BranchInst>(i);
          if (b.isConditional()) ops.push_back(operand(b.getCondition()));
        } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
          ops.push_back(operand(sw->getCondition()));
          json::Array cs;
          for (auto &c : sw->cases()) { json::Array e; e.push_back(c.getCaseValue()->getSExtValue()); e.push_back(bids[c.getCaseSuccessor()]); cs.push_back(std::move(e)); }
          io["cases"] = std::move(cs); io["default"] = bids[sw->getDefaultDest()];
        } else for (auto &u : i.operands()) ops.push_back(operand(u.get()));
        if (auto *l = dyn_cast<LoadInst>(&i)) { io["order"] = toIRString(l->getOrdering()); io["size"] = (int64_t)DL.getTypeStoreSize(l->getType()).getFixedValue(); }
        if (auto *s = dyn_cast<StoreInst>(&i)) { io["order"] = toIRString(s->getOrdering()); io["size"] = (int64_t)DL.getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue(); }
        if (auto *r = dyn_cast<AtomicRMWInst>(&i)) { io["order"] = toIRString(r->getOrdering()); io["rmw"] = AtomicRMWInst::getOperationName(r->getOperation()).str(); }
        if (auto *c = dyn_cast<AtomicCmpXchgInst>(&i)) { io["order"] = toIRString(c->getSuccessOrdering()); io["forder"] = toIRString(c->getFailureOrdering()); io["weak"] = c->isWeak(); }
        if (auto *f = dyn_cast<FenceInst>(&i)) { io["order"] = toIRString(f->getOrdering()); io["single"] = f->getSyncScopeID() == SyncScope::SingleThread; }
        if (auto *c = dyn_cast<CmpInst>(&i)) io["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
        if (auto *a = dyn_cast<AllocaInst>(&i)) { io["aty"] = tyName(a->getAllocatedType()); if (auto *st = dyn_cast<StructType>(a->getAllocatedType())) io["sn"] = st->hasName() ? st->getName().str() : ""; io["asize"] = (int64_t)DL.getTypeAllocSize(a->getAllocatedType()).getFixedValue(); }
        if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
          MapVector<Value *, APInt> vo; APInt co(DL.getIndexSizeInBits(0), 0);
          if (g->collectOffset(DL, DL.getIndexSizeInBits(0), vo, co)) {
            io["off"] = co.getSExtValue();
            json::Array va;
            for (auto &kv : vo) { json::Array e; e.push_back(operand(kv.first)); e.push_back(kv.second.getSExtValue()); va.push_back(std::move(e)); }
            io["var"] = std::move(va);
          }
          if (auto *st = dyn_cast<StructType>(g->getSourceElementType())) io["sn"] = st->hasName() ? st->getName().str() : "";
        }
        if (auto *lp = dyn_cast<LandingPadInst>(&i)) { io["cleanup"] = lp->isCleanup(); io["nclauses"] = (int64_t)lp->getNumClauses(); }
        if (auto *ev = dyn_cast<ExtractValueInst>(&i)) { json::Array ix; for (auto k : ev->indices()) ix.push_back((int64_t)k); io["idx"] = std::move(ix); }
        if (auto *ev = dyn_cast<InsertValueInst>(&i)) { json::Array ix; for (auto k : ev->indices()) ix.push_back((int64_t)k); io["idx"] = std::move(ix); }
        io["ops"] = std::move(ops);
        if (i.isTerminator()) {
          json::Array sc;
          for (unsigned k = 0; k < i.getNumSuccessors(); ++k) sc.push_back(bids[i.getSuccessor(k)]);
          io["succ"] = std::move(sc);
        }
        insts.push_back(std::move(io));
      }
      blocks.push_back(std::move(insts));
    }
    o["blocks"] = std::move(blocks);
    o["hints"] = std::move(hints);
    return o;
  }
};

// What becomes of an exception leaving call `c`: "up" (leaves the function), "end" (terminates the
// program) or "got" (reaches a handler of this function).
static const char *fate(const CallBase &c) {
  auto *inv = dyn_cast<InvokeInst>(&c);
  if (!inv) return "up";
  std::set<const BasicBlock *> seen;
  std::vector<const BasicBlock *> todo{inv->getUnwindDest()};
  bool up = false, got = false, end = false;
  while (!todo.empty()) {
    auto *b = todo.back(); todo.pop_back();
    if (!seen.insert(b).second) continue;
    bool stop = false;
    for (auto &I : *b) {
      if (isa<ResumeInst>(I)) up = true;
      if (auto *x = dyn_cast<CallBase>(&I)) {
        StringRef n = x->getCalledFunction() ? x->getCalledFunction()->getName() : "";
        if (n == "__cxa_begin_catch") got = true;
        if (n == "__clang_call_terminate" || n == "_ZSt9terminatev" || n == "abort" || n == "exit" || n == "_exit" || n == "quick_exit") { end = true; stop = true; break; }
        if (n == "__cxa_end_catch" || n == "__cxa_rethrow") { stop = true; break; }
      }
    }
    if (stop) continue;
    auto *t = b->getTerminator();
    if (auto *i2 = dyn_cast<InvokeInst>(t)) todo.push_back(i2->getNormalDest());
    else for (auto *sx : successors(b)) todo.push_back(sx);
  }
  return end ? "end" : up ? "up" : got ? "got" : "none";
}

// the calls made inside the handler(s) an exception leaving `c` reaches
static json::Array handler(const CallBase &c) {
  json::Array out;
  auto *inv = dyn_cast<InvokeInst>(&c);
  if (!inv) return out;
  std::set<const BasicBlock *> seen;
  std::vector<const BasicBlock *> todo{inv->getUnwindDest()};
  while (!todo.empty()) {
    auto *b = todo.back(); todo.pop_back();
    if (!seen.insert(b).second) continue;
    bool stop = false;
    for (auto &I : *b)
      if (auto *x = dyn_cast<CallBase>(&I)) {
        auto *f = x->getCalledFunction();
        if (f && f->isIntrinsic()) continue;
        out.push_back(f ? f->getName().str() : std::string());
        if (f && f->getName() == "__cxa_end_catch") { stop = true; break; }
      }
    if (stop) continue;
    auto *t = b->getTerminator();
    if (auto *i2 = dyn_cast<InvokeInst>(t)) todo.push_back(i2->getNormalDest());
    else for (auto *sx : successors(b)) todo.push_back(sx);
  }
  return out;
}

static json::Array graphOf(Module &M) {
  json::Array out;
  for (auto &F : M) {
    if (F.isDeclaration() || F.getName().starts_with("irx.clone.")) continue;
    json::Object o;
    o["m"] = F.getName().str(); o["n"] = fdem(&F); o["nounwind"] = F.doesNotThrow(); o["coro"] = F.isPresplitCoroutine();
    if (auto *sp = F.getSubprogram()) { o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine(); }
    json::Array cs;
    std::set<std::string> quiet;
    for (auto &I : instructions(F)) {
      auto *c = dyn_cast<CallBase>(&I);
      if (!c || c->isInlineAsm()) continue;
      auto *f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
      if (f && f->isIntrinsic()) continue;
      if (c->doesNotThrow()) { if (f) quiet.insert(f->getName().str()); continue; }
      json::Object x;
      x["f"] = f ? f->getName().str() : std::string();
      const char *w = fate(*c);
      x["w"] = w;
      if (auto &d = I.getDebugLoc()) { x["l"] = (int64_t)d.getLine(); x["file"] = d->getFilename().str(); }
      if (StringRef(w) == "got") x["h"] = handler(*c);
      cs.push_back(std::move(x));
    }
    o["calls"] = std::move(cs);
    json::Array q;
    for (auto &n : quiet) q.push_back(n);
    o["quiet"] = std::move(q);
    out.push_back(std::move(o));
  }
  return out;
}

// ---- where do addresses of thread-local objects go? -------------------------------------------------
// Interprocedural: an address is "worker-local" if it is the address of a thread-local variable, is
// returned by a function that returns one, or is a parameter that receives one.  Reported: stores of
// such an address into memory that outlives the function and is not itself thread-local.
struct Tls {
  Module &M;
  std::set<const Function *> rets;
  std::map<const Function *, std::set<unsigned>> params;

  std::set<const Value *> derived(const Function &F) {
    std::set<const Value *> d;
    std::vector<const Value *> todo;
    auto add = [&](const Value *v) { if (d.insert(v).second) todo.push_back(v); };
    for (unsigned i : params[&F]) add(F.getArg(i));
    for (auto &I : instructions(F)) {
      if (auto *c = dyn_cast<CallBase>(&I)) {
        auto *f = c->getCalledFunction();
        if (f && (f->getIntrinsicID() == Intrinsic::threadlocal_address || rets.count(f))) add(c);
      }
      for (auto &o : I.operands())
        if (auto *g = dyn_cast<GlobalVariable>(o->stripInBoundsOffsets()); g && g->isThreadLocal()) add(o.get());
    }
    while (!todo.empty()) {
      auto *v = todo.back(); todo.pop_back();
      for (auto *u : v->users())
        if (auto *I = dyn_cast<Instruction>(u); I && I->getFunction() == &F)
          if (isa<GetElementPtrInst>(I) || isa<CastInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I) || isa<InsertValueInst>(I) || isa<ExtractValueInst>(I) || isa<FreezeInst>(I)) add(I);
    }
    return d;
  }
  static bool local(const Value *p, const std::set<const Value *> &d) {
    std::set<const Value *> seen;
    std::vector<const Value *> todo{p};
    while (!todo.empty()) {
      auto *v = getUnderlyingObject(todo.back(), 0); todo.pop_back();
      if (!seen.insert(v).second) continue;
      if (isa<AllocaInst>(v) || d.count(v)) continue;
      if (auto *g = dyn_cast<GlobalVariable>(v); g && g->isThreadLocal()) continue;
      if (auto *ph = dyn_cast<PHINode>(v)) { for (auto &o : ph->incoming_values()) todo.push_back(o); continue; }
      if (auto *se = dyn_cast<SelectInst>(v)) { todo.push_back(se->getTrueValue()); todo.push_back(se->getFalseValue()); continue; }
      return false;
    }
    return true;
  }
  void solve() {
    for (bool again = true; again;) {
      again = false;
      for (auto &F : M) {
        if (F.isDeclaration()) continue;
        auto d = derived(F);
        if (d.empty()) continue;
        for (auto &I : instructions(F)) {
          if (auto *r = dyn_cast<ReturnInst>(&I); r && r->getReturnValue() && d.count(r->getReturnValue())) again |= rets.insert(&F).second;
          if (auto *c = dyn_cast<CallBase>(&I))
            if (auto *f = c->getCalledFunction(); f && !f->isDeclaration() && !f->isVarArg())
              for (unsigned i = 0; i < c->arg_size() && i < f->arg_size(); i++)
                if (d.count(c->getArgOperand(i))) again |= params[f].insert(i).second;
        }
      }
    }
  }
  json::Array run() {
    solve();
    json::Array out;
    for (auto &F : M) {
      if (F.isDeclaration()) continue;
      auto d = derived(F);
      if (d.empty()) continue;
      json::Object o;
      o["n"] = fdem(&F); o["m"] = F.getName().str(); o["ret"] = rets.count(&F) != 0;
      json::Array ps; for (unsigned i : params[&F]) ps.push_back(i);
      o["params"] = std::move(ps);
      o["noinline"] = F.hasFnAttribute(Attribute::NoInline);
      if (auto *sp = F.getSubprogram()) { o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine(); }
      std::set<std::string> direct;
      json::Array st;
      for (auto &I : instructions(F)) {
        for (auto &q : I.operands()) if (auto *g = dyn_cast<GlobalVariable>(q->stripInBoundsOffsets()); g && g->isThreadLocal()) direct.insert(g->getName().str());
        auto *s = dyn_cast<StoreInst>(&I);
        if (!s || !d.count(s->getValueOperand()) || local(s->getPointerOperand(), d)) continue;
        json::Object x;
        json::Array chain;
        for (auto *l = I.getDebugLoc().get(); l; l = l->getInlinedAt()) {
          json::Object y;
          y["file"] = l->getFilename().str(); y["line"] = (int64_t)l->getLine();
          if (auto *sp = l->getScope()->getSubprogram()) y["fn"] = sp->getName().str();
          chain.push_back(std::move(y));
        }
        x["at"] = std::move(chain);
        st.push_back(std::move(x));
      }
      json::Array dv;
      for (auto &n : direct) dv.push_back(n);
      o["direct"] = std::move(dv);
      o["stores"] = std::move(st);
      out.push_back(std::move(o));
    }
    return out;
  }
};

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irx", errs()); return 2; }
  auto jobs = readSpec(argv[2]);

  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  FunctionPassManager pre, post;
  if (auto e = PB.parsePassPipeline(pre, "sroa,early-cse,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup>")) { errs() << toString(std::move(e)); return 2; }
  if (auto e = PB.parsePassPipeline(post,
        "sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,sccp,simplifycfg,jump-threading,correlated-propagation,"
        "simplifycfg,sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,jump-threading,simplifycfg,adce,simplifycfg,instcombine<no-verify-fixpoint>")) { errs() << toString(std::move(e)); return 2; }

  json::Array out;
  json::Object globals;
  for (auto &gv : M->globals()) {
    SmallVector<DIGlobalVariableExpression *, 1> gs;
    gv.getDebugInfo(gs);
    json::Object g;
    g["n"] = dem(gv.getName());
    g["tls"] = gv.isThreadLocal();
    g["const"] = gv.isConstant();
    g["decl"] = gv.isDeclaration();
    g["weak"] = gv.hasLinkOnceLinkage() || gv.hasWeakLinkage();
    g["local"] = gv.hasLocalLinkage();
    if (!gs.empty()) g["line"] = (int64_t)gs[0]->getVariable()->getLine();
    if (!gs.empty()) { g["t"] = emitType(gs[0]->getVariable()->getType()); g["file"] = gs[0]->getVariable()->getFilename().str(); }
    globals[gv.getName().str()] = std::move(g);
  }
  for (auto &job : jobs) {
    std::map<const Function *, bool> opq;
    std::vector<Function *> roots;
    for (auto &F : *M) if (!F.isDeclaration() && !F.getName().starts_with("irx.clone.") && (fnMatch(job.roots, &F) || (F.isPresplitCoroutine() && fnMatch(job.coroots, &F)))) roots.push_back(&F);
    for (auto *F : roots) {
      ValueToValueMapTy vm;
      Function *C = CloneFunction(F, vm);
      C->setName("irx.clone." + F->getName());
      C->removeFnAttr(Attribute::OptimizeNone);
      bool within = inlineAll(*C, F, job, opq);
      if (C->isPresplitCoroutine()) pre.run(*C, FAM); 
      post.run(*C, FAM);
      // a second round: indirect calls may have become direct
      within &= inlineAll(*C, F, job, opq);
      FAM.invalidate(*C, PreservedAnalyses::none());
      post.run(*C, FAM);
      Ex ex{M->getDataLayout(), {}, {}};
      auto o = ex.fn(*C, fdem(F), F->getName().str());
      o["job"] = job.name;
      o["within"] = within;
      o["linkage"] = (int64_t)F->getLinkage();
      out.push_back(std::move(o));
      FAM.clear(*C, C->getName());
      C->dropAllReferences();
      C->eraseFromParent();
    }
  }
  bool wantGraph = false;
  for (auto &j : jobs) wantGraph |= j.graph;
  json::Array graph;
  if (wantGraph) graph = graphOf(*M);
  // every symbol of the module, for linkage and reachability rules
  json::Array syms;
  for (auto &F : *M) {
    json::Object o; o["n"] = fdem(&F); o["m"] = F.getName().str(); o["decl"] = F.isDeclaration();
    o["weak"] = F.hasLinkOnceLinkage() || F.hasWeakLinkage(); o["local"] = F.hasLocalLinkage();
    o["coro"] = F.isPresplitCoroutine();
    o["noinline"] = F.hasFnAttribute(Attribute::NoInline);
    o["nounwind"] = F.doesNotThrow();
    if (auto *sp = F.getSubprogram()) { o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine(); }
    syms.push_back(std::move(o));
  }
  json::Object top;
  top["functions"] = std::move(out);
  top["types"] = std::move(diTypes);
  top["globals"] = std::move(globals);
  top["symbols"] = std::move(syms);
  if (wantGraph) top["graph"] = std::move(graph);
  if (std::any_of(jobs.begin(), jobs.end(), [](auto &j) { return j.tls; })) top["tls"] = Tls{*M, {}, {}}.run();
  std::error_code ec;
  raw_fd_ostream os(argv[3], ec);
  os << json::Value(std::move(top));
  return 0;
}
