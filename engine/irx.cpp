// irx: normalises LLVM IR of the probe translation units and dumps the
// functions of interest as JSON for the rule engine (engine/ir.py).
//
//   irx OUT.json POLICY IN.bc...
//
// POLICY lines (first match wins; matched against the qualified function name
// without template arguments and parameters, e.g. "arpc::context::cancel"):
//   entry REGEX   dump this function
//   inline REGEX  force inlining
//   keep REGEX    never inline (an opaque, named event)
// The default for unmatched functions is keep. Entries are selected on the name
// too and are independent of inline/keep.
//   mentry REGEX  as entry, but matched against the full demangled name
//   mkeep REGEX / minline REGEX likewise
//   opt lite|full|none   (normalisation pipeline after inlining)
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/ADT/SetVector.h>
#include <llvm/Analysis/CGSCCPassManager.h>
#include <llvm/Analysis/LoopAnalysisManager.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <llvm/Transforms/Scalar/ADCE.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/JumpThreading.h>
#include <llvm/Transforms/Scalar/SCCP.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Scalar/LoopPassManager.h>
#include <llvm/Transforms/Utils/LowerInvoke.h>

#include <fstream>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace llvm;

// Qualified name without template arguments, parameters, return type.
static std::string shortName(const std::string& dem) {
  // Remove balanced <...>, keeping operators such as operator<, operator<<,
  // operator->, operator<=.
  std::string out;
  int depth = 0;   // template depth
  int paren = 0;   // parentheses depth
  size_t i = 0;
  auto at = [&](size_t p) { return p < dem.size() ? dem[p] : '\0'; };
  while (i < dem.size()) {
    if (depth == 0 && paren == 0 && dem.compare(i, 8, "operator") == 0 &&
        (i == 0 || !(isalnum(dem[i - 1]) || dem[i - 1] == '_')) &&
        !(isalnum(at(i + 8)) || at(i + 8) == '_')) {
      out += "operator";
      i += 8;
      if (dem.compare(i, 2, "()") == 0) { out += "()"; i += 2; continue; }
      if (dem.compare(i, 2, "[]") == 0) { out += "[]"; i += 2; continue; }
      if (at(i) == ' ') {  // conversion / new / delete / co_await
        std::string rest = dem.substr(i);
        bool done = false;
        for (const char* s : {" new[]", " delete[]", " new", " delete"})
          if (rest.compare(0, strlen(s), s) == 0) { out += s; i += strlen(s); done = true; break; }
        if (done) continue;
        out += ' ';
        i++;
        // conversion operator: copy the type up to the '(' at depth 0
        int d = 0;
        while (i < dem.size()) {
          if (dem[i] == '<') d++;
          if (dem[i] == '>') d--;
          if (dem[i] == '(' && d == 0) break;
          if (d == 0 && dem[i] != '>') out += dem[i];
          i++;
        }
        continue;
      }
      // Symbols: the longest operator name among those with <> in them.
      std::string rest = dem.substr(i, 4);
      bool done = false;
      for (const char* s : {"<=>", "<<=", ">>=", "->*", "<<", ">>", "<=", ">=", "->", "<", ">"})
        if (rest.compare(0, strlen(s), s) == 0 &&
            // operator< followed by its template arguments
            !(!strcmp(s, "<<") && at(i + 2) != '(' && at(i + 2) != '<')) { out += s; i += strlen(s); done = true; break; }
      if (done) continue;
      continue;
    }
    char c = dem[i];
    if (c == '<') {
      // Skip the whole template argument list.  Expressions may appear in it:
      // their comparison operators are surrounded by spaces or parenthesised.
      std::string stack = "<";
      i++;
      while (i < dem.size() && !stack.empty()) {
        char e = dem[i], pv = i ? dem[i - 1] : ' ';
        if (e == '(') stack += '(';
        else if (e == ')') { while (!stack.empty() && stack.back() == '<') stack.pop_back(); if (!stack.empty()) stack.pop_back(); }
        else if (e == '<' && pv == ' ') { while (at(i + 1) == '<' || at(i + 1) == '=' || at(i + 1) == '>') i++; }
        else if (e == '<') stack += '<';
        else if (e == '>' && pv == '-') {}
        else if (e == '>' && at(i + 1) == '=' && pv == ' ') {}
        else if (e == '>' && stack.back() == '<') stack.pop_back();
        i++;
      }
      continue;
    }
    if (c == '(') {
      if (dem.compare(i, 21, "(anonymous namespace)") == 0) { out += "(anon)"; i += 21; continue; }
      // parameter list (or enclosing function's parameters of a local entity)
      int d = 0;
      while (i < dem.size()) {
        if (dem[i] == '(') d++;
        if (dem[i] == ')') { d--; if (d == 0) { i++; break; } }
        i++;
      }
      continue;
    }
    out += c;
    i++;
  }
  // A local entity (a lambda) of a qualified member function: f() const::{lambda}.
  for (const char* q : {" const::", " volatile::", " &&::", " &::"})
    for (size_t p; (p = out.find(q)) != std::string::npos;) out.replace(p, strlen(q), "::");
  // Drop trailing qualifiers and the return type: keep from after the last
  // space that is not part of "operator X".
  size_t op = out.find("operator ");
  std::string tail;
  std::string head = out;
  if (op != std::string::npos) { head = out.substr(0, op); tail = out.substr(op); }
  else {
    while (true) {
      bool cut = false;
      for (const char* q : {" const", " volatile", " &&", " &"}) {
        size_t l = strlen(q);
        if (head.size() > l && head.compare(head.size() - l, l, q) == 0) { head.resize(head.size() - l); cut = true; }
      }
      // clone suffix " [clone .x]" and " (.1)"
      if (!cut) break;
    }
    size_t br = head.find(" [");
    if (br != std::string::npos) head.resize(br);
    while (!head.empty() && head.back() == ' ') head.pop_back();
  }
  // lambda types: "{lambda#1}" have their parens removed: fine.
  size_t sp = head.rfind(' ');
  if (sp != std::string::npos) head = head.substr(sp + 1);
  return head + tail;
}

struct Policy {
  struct Item { std::string kind; std::shared_ptr<Regex> re; };
  std::vector<Item> items;
  std::string opt = "lite";
};

static std::unordered_map<std::string, std::string> demCache, shortCache;
static const std::string& dem(StringRef n) {
  auto k = n.str();
  auto it = demCache.find(k);
  if (it != demCache.end()) return it->second;
  return demCache[k] = demangle(k);
}
static const std::string& sname(StringRef n) {
  auto k = n.str();
  auto it = shortCache.find(k);
  if (it != shortCache.end()) return it->second;
  return shortCache[k] = shortName(dem(n));
}

static json::Object typeJson(Type* t) {
  std::string s;
  raw_string_ostream os(s);
  if (auto* st = dyn_cast<StructType>(t)) {
    if (st->hasName()) os << "%" << st->getName(); else t->print(os);
  } else t->print(os);
  return json::Object{{"t", os.str()}};
}
static std::string typeStr(Type* t) {
  std::string s;
  raw_string_ostream os(s);
  if (auto* st = dyn_cast<StructType>(t)) {
    if (st->hasName()) os << "%" << st->getName(); else t->print(os);
  } else t->print(os);
  return os.str();
}

struct Dumper {
  Module& M;
  const DataLayout& DL;
  // DI type table
  MapVector<const DIType*, int> diIds;
  std::vector<const DIType*> diQueue;
  int diId(const DIType* t) {
    // strip qualifiers/typedefs
    while (t) {
      if (auto* d = dyn_cast<DIDerivedType>(t)) {
        switch (d->getTag()) {
          case dwarf::DW_TAG_typedef:
          case dwarf::DW_TAG_const_type:
          case dwarf::DW_TAG_volatile_type:
          case dwarf::DW_TAG_restrict_type:
          case dwarf::DW_TAG_atomic_type:
            t = d->getBaseType();
            continue;
          default: break;
        }
      }
      break;
    }
    if (!t) return -1;
    auto it = diIds.find(t);
    if (it != diIds.end()) return it->second;
    int id = (int)diIds.size();
    diIds[t] = id;
    diQueue.push_back(t);
    return id;
  }
  static std::string diScopeName(const DIScope* s) {
    if (!s) return "";
    if (isa<DIFile>(s) || isa<DICompileUnit>(s)) return "";
    std::string p = diScopeName(s->getScope());
    std::string n = s->getName().str();
    if (n.empty()) n = isa<DINamespace>(s) ? "(anon)" : "";
    if (isa<DILexicalBlockBase>(s)) return p;
    if (n.empty()) return p;
    return p.empty() ? n : p + "::" + n;
  }
  json::Array dumpTypes() {
    json::Array out;
    for (size_t q = 0; q < diQueue.size(); q++) {
      const DIType* t = diQueue[q];
      json::Object o;
      o["tag"] = dwarf::TagString(t->getTag()).str();
      o["name"] = t->getName().str();
      o["size"] = (int64_t)(t->getSizeInBits() / 8);
      if (auto* d = dyn_cast<DIDerivedType>(t)) {
        o["base"] = diId(d->getBaseType());
      } else if (auto* c = dyn_cast<DICompositeType>(t)) {
        o["name"] = diScopeName(c);
        if (t->getTag() == dwarf::DW_TAG_enumeration_type) {
          json::Object ev;
          for (auto* e : c->getElements())
            if (auto* en = dyn_cast_or_null<DIEnumerator>(e)) ev[en->getName().str()] = en->getValue().getSExtValue();
          o["enumerators"] = std::move(ev);
        } else if (t->getTag() == dwarf::DW_TAG_array_type) {
          o["base"] = diId(c->getBaseType());
        } else {
          json::Array fields, virts;
          for (auto* e : c->getElements()) {
            if (auto* d = dyn_cast_or_null<DIDerivedType>(e)) {
              if (d->isStaticMember()) continue;
              if (d->getTag() == dwarf::DW_TAG_member || d->getTag() == dwarf::DW_TAG_inheritance) {
                json::Object f;
                f["n"] = d->getTag() == dwarf::DW_TAG_inheritance ? std::string("<base>") : d->getName().str();
                f["o"] = (int64_t)(d->getOffsetInBits() / 8);
                f["s"] = (int64_t)(d->getSizeInBits() / 8);
                f["ty"] = diId(d->getBaseType());
                f["virt"] = d->isVirtual();
                fields.push_back(std::move(f));
              }
            } else if (auto* sp = dyn_cast_or_null<DISubprogram>(e)) {
              if (sp->getVirtuality()) {
                virts.push_back(json::Object{{"n", sp->getName().str()}, {"i", (int64_t)sp->getVirtualIndex()}});
              }
            }
          }
          o["fields"] = std::move(fields);
          o["virts"] = std::move(virts);
        }
      } else if (auto* st = dyn_cast<DISubroutineType>(t)) {
        (void)st;
      }
      out.push_back(std::move(o));
    }
    return out;
  }

  explicit Dumper(Module& m) : M(m), DL(m.getDataLayout()) {}

  DenseMap<const Value*, int> ids;

  // Leaves of the initialisers of constant objects: [offset, size, value].
  bool leaves(const Constant* c, uint64_t off, json::Array& out) {
    Type* t = c->getType();
    if (t->isIntegerTy() || t->isPointerTy() || t->isFloatingPointTy()) {
      out.push_back(json::Array{(int64_t)off, (int64_t)DL.getTypeStoreSize(t), ref(c)});
      return out.size() <= 1024;
    }
    if (auto* st = dyn_cast<StructType>(t)) {
      for (unsigned i = 0; i < st->getNumElements(); i++) {
        auto* e = c->getAggregateElement(i);
        if (!e || !leaves(e, off + DL.getStructLayout(st)->getElementOffset(i), out)) return false;
      }
      return true;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
      uint64_t n = at->getNumElements(), sz = DL.getTypeAllocSize(at->getElementType());
      if (n > 1024) return false;
      for (uint64_t i = 0; i < n; i++) {
        auto* e = c->getAggregateElement(i);
        if (!e || !leaves(e, off + i * sz, out)) return false;
      }
      return true;
    }
    return false;
  }
  // inits: the initialisers of variables this unit only ever loads.
  static bool onlyLoaded(const Value* v) {
    for (auto* u : v->users())
      if (!isa<LoadInst>(u)) return false;
    return true;
  }

  json::Object dumpConsts(bool inits = false) {
    json::Object o;
    for (auto& G : M.globals()) {
      StringRef n = G.getName();
      if (G.isConstant() == inits || !G.hasInitializer() || (inits && !onlyLoaded(&G)) || n.starts_with("_ZTV") || n.starts_with("_ZTI") || n.starts_with("_ZTS") || n.starts_with("llvm.")) continue;
      if (auto* cd = dyn_cast<ConstantDataArray>(G.getInitializer())) if (cd->isString()) continue;
      json::Array a;
      if (leaves(G.getInitializer(), 0, a)) o[n.str()] = std::move(a);
    }
    return o;
  }

  json::Object dumpVtables() {
    json::Object o;
    for (auto& G : M.globals()) {
      if (!(G.getName().starts_with("_ZTV") || G.getName().starts_with("_ZTI")) || !G.hasInitializer()) continue;
      json::Array a;
      if (leaves(G.getInitializer(), 0, a)) o[G.getName().str()] = std::move(a);
    }
    return o;
  }

  json::Value ref(const Value* v) {
    if (auto* a = dyn_cast<Argument>(v)) return json::Object{{"a", (int64_t)a->getArgNo()}};
    if (isa<Instruction>(v)) return json::Value((int64_t)ids[v]);
    if (auto* c = dyn_cast<ConstantInt>(v)) {
      if (c->getBitWidth() <= 64) return json::Object{{"c", c->getSExtValue()}, {"w", (int64_t)c->getBitWidth()}};
      SmallString<40> s;
      c->getValue().toStringSigned(s);
      return json::Object{{"cs", s.str().str()}, {"w", (int64_t)c->getBitWidth()}};
    }
    if (isa<ConstantPointerNull>(v)) return json::Object{{"null", true}};
    if (isa<UndefValue>(v)) return json::Object{{"undef", true}};
    if (auto* g = dyn_cast<GlobalValue>(v)) {
      json::Object o{{"g", g->getName().str()}, {"n", sname(g->getName())}};
      if (auto* gv = dyn_cast<GlobalVariable>(g))
        if (gv->hasInitializer() && gv->isConstant())
          if (auto* cd = dyn_cast<ConstantDataArray>(gv->getInitializer()))
            if (cd->isString() && cd->getNumElements() < 256) {
              std::string s = cd->getAsString().str();
              std::string esc;
              for (char ch : s) { if (ch == 0) continue; if ((unsigned char)ch < 0x80) esc += ch; else esc += '?'; }
              o["str"] = esc;
            }
      return o;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(v)) {
      if (auto* gep = dyn_cast<GEPOperator>(ce)) {
        APInt off(64, 0);
        if (gep->accumulateConstantOffset(DL, off)) {
          json::Object o{{"cegep", ref(gep->getPointerOperand())}, {"off", off.getSExtValue()}};
          return o;
        }
      }
      json::Array ops;
      for (auto& u : ce->operands()) ops.push_back(ref(u));
      return json::Object{{"ce", ce->getOpcodeName()}, {"ops", std::move(ops)}};
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(v)) {
      json::Array ops;
      for (auto& u : ca->operands()) ops.push_back(ref(u));
      return json::Object{{"agg", std::move(ops)}};
    }
    if (isa<ConstantAggregateZero>(v)) return json::Object{{"zero", true}};
    if (auto* f = dyn_cast<ConstantFP>(v)) { return json::Object{{"fp", f->getValueAPF().isNaN() ? 0.0 : f->getValueAPF().convertToDouble()}}; }
    if (auto* mv = dyn_cast<MetadataAsValue>(v)) { (void)mv; return json::Object{{"md", true}}; }
    if (isa<InlineAsm>(v)) return json::Object{{"asm", true}};
    std::string s;
    raw_string_ostream os(s);
    v->printAsOperand(os, true);
    return json::Object{{"x", os.str()}};
  }

  json::Array locJson(const DILocation* l) {
    json::Array a;
    while (l) {
      a.push_back(json::Object{{"f", l->getFilename().str()}, {"l", (int64_t)l->getLine()}, {"s", l->getScope()->getSubprogram() ? diScopeName(l->getScope()->getSubprogram()) : std::string()}});
      l = l->getInlinedAt();
    }
    return a;
  }

  json::Object dumpFunction(Function& F) {
    ids.clear();
    int n = 0;
    DenseMap<const BasicBlock*, int> bid;
    int b = 0;
    for (auto& B : F) {
      bid[&B] = b++;
      for (auto& I : B) ids[&I] = n++;
    }
    json::Object o;
    o["mangled"] = F.getName().str();
    o["name"] = sname(F.getName());
    o["dem"] = dem(F.getName());
    o["nounwind"] = F.doesNotThrow();
    o["noreturn"] = F.doesNotReturn();
    DISubprogram* sp = F.getSubprogram();
    if (sp) { o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine(); }
    json::Array params;
    std::vector<std::pair<std::string, int>> dips(F.arg_size());
    // dbg.declare/value for parameters may have been dropped by passes: take the
    // types from retained nodes through dbg intrinsics collected before passes.
    auto pit = paramInfo.find(F.getName().str());
    for (auto& A : F.args()) {
      json::Object p;
      p["n"] = A.getName().str();
      p["t"] = typeStr(A.getType());
      if (pit != paramInfo.end()) {
        auto it2 = pit->second.find(A.getArgNo());
        if (it2 != pit->second.end()) { p["n"] = it2->second.first; p["di"] = it2->second.second; }
      }
      if (A.hasStructRetAttr()) p["sret"] = true;
      if (A.hasByValAttr()) p["byval"] = true;
      params.push_back(std::move(p));
    }
    o["params"] = std::move(params);
    json::Array blocks;
    for (auto& B : F) {
      json::Array insts;
      for (auto& I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        json::Object j;
        j["i"] = ids[&I];
        j["op"] = I.getOpcodeName();
        j["t"] = typeStr(I.getType());
        if (auto* l = I.getDebugLoc().get()) j["loc"] = locIndex(l);
        json::Array ops;
        if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
          ops.push_back(ref(g->getPointerOperand()));
          MapVector<Value*, APInt> var;
          APInt off(64, 0);
          if (g->collectOffset(DL, 64, var, off)) {
            j["off"] = off.getSExtValue();
            json::Array vs;
            for (auto& kv : var) vs.push_back(json::Array{ref(kv.first), kv.second.getSExtValue()});
            j["var"] = std::move(vs);
          }
          j["srct"] = typeStr(g->getSourceElementType());
        } else if (auto* c = dyn_cast<CallBase>(&I)) {
          for (auto& a : c->args()) ops.push_back(ref(a));
          Value* cv = c->getCalledOperand()->stripPointerCasts();
          if (auto* f = dyn_cast<Function>(cv)) {
            j["callee"] = sname(f->getName());
            j["mangled"] = f->getName().str();
            j["dem"] = dem(f->getName());
            if (f->doesNotReturn() || c->doesNotReturn()) j["noreturn"] = true;
            if (f->doesNotThrow() || c->doesNotThrow()) j["nounwind"] = true;
            if (f->isIntrinsic()) j["intr"] = true;
            if (f->isDeclaration()) j["decl"] = true;
          } else {
            j["icallee"] = ref(cv);
            if (c->doesNotThrow()) j["nounwind"] = true;
          }
          bool sret = c->arg_size() && c->paramHasAttr(0, Attribute::StructRet);
          if (sret) j["sret"] = true;
          if (auto* iv = dyn_cast<InvokeInst>(c)) {
            j["normal"] = bid[iv->getNormalDest()];
            j["unwind"] = bid[iv->getUnwindDest()];
          }
        } else if (auto* p = dyn_cast<PHINode>(&I)) {
          json::Array in;
          for (unsigned k = 0; k < p->getNumIncomingValues(); k++)
            in.push_back(json::Array{ref(p->getIncomingValue(k)), bid[p->getIncomingBlock(k)]});
          j["in"] = std::move(in);
        } else if (auto* br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) ops.push_back(ref(br->getCondition()));
          json::Array s;
          for (unsigned k = 0; k < br->getNumSuccessors(); k++) s.push_back(bid[br->getSuccessor(k)]);
          j["succ"] = std::move(s);
        } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(ref(sw->getCondition()));
          j["default"] = bid[sw->getDefaultDest()];
          json::Array cs;
          for (auto& c : sw->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]});
          j["cases"] = std::move(cs);
        } else {
          for (auto& u : I.operands())
            if (!isa<BasicBlock>(u)) ops.push_back(ref(u));
          if (auto* ic = dyn_cast<CmpInst>(&I)) j["pred"] = CmpInst::getPredicateName(ic->getPredicate()).str();
          if (auto* al = dyn_cast<AllocaInst>(&I)) {
            j["at"] = typeStr(al->getAllocatedType());
            j["asz"] = (int64_t)DL.getTypeAllocSize(al->getAllocatedType()).getFixedValue();
            j["name"] = al->getName().str();
            auto itA = allocaInfo.find(al);
            if (itA != allocaInfo.end()) { j["var"] = itA->second.first; j["di"] = itA->second.second; }
          }
          if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto k : ev->indices()) ix.push_back((int64_t)k); j["idx"] = std::move(ix); }
          if (auto* iv = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto k : iv->indices()) ix.push_back((int64_t)k); j["idx"] = std::move(ix); }
          if (auto* lp = dyn_cast<LandingPadInst>(&I)) j["cleanup"] = lp->isCleanup();
          if (auto* ld = dyn_cast<LoadInst>(&I)) { j["sz"] = (int64_t)DL.getTypeStoreSize(ld->getType()).getFixedValue(); if (ld->isAtomic()) j["atomic"] = true; }
          if (auto* st = dyn_cast<StoreInst>(&I)) { j["sz"] = (int64_t)DL.getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue(); if (st->isAtomic()) j["atomic"] = true; }
        }
        j["ops"] = std::move(ops);
        insts.push_back(std::move(j));
      }
      blocks.push_back(std::move(insts));
    }
    o["blocks"] = std::move(blocks);
    return o;
  }

  std::map<const DILocation*, int> locIds;
  json::Array locTable;
  int locIndex(const DILocation* l) {
    auto it = locIds.find(l);
    if (it != locIds.end()) return it->second;
    int id = (int)locTable.size();
    locIds[l] = id;
    locTable.push_back(locJson(l));
    return id;
  }
  std::map<std::string, std::map<unsigned, std::pair<std::string, int>>> paramInfo;
  DenseMap<const AllocaInst*, std::pair<std::string, int>> allocaInfo;

  // Before any pass: map arguments to their DI variables.
  void collectParams(Function& F) {
    auto& m = paramInfo[F.getName().str()];
    for (auto& B : F)
      for (auto& I : B)
        if (auto* d = dyn_cast<DbgDeclareInst>(&I)) {
          Value* addr = d->getAddress();
          auto* var = d->getVariable();
          if (!addr) continue;
          if (auto* a = dyn_cast<Argument>(addr)) {
            // Indirect (byval/sret-like) parameter: its pointee is the type.
            if (var->isParameter()) m[a->getArgNo()] = {var->getName().str(), -2 - diId(var->getType())};
            continue;
          }
          if (!var->isParameter()) continue;
          if (auto* al = dyn_cast<AllocaInst>(addr)) {
            for (auto* u : al->users())
              if (auto* st = dyn_cast<StoreInst>(u))
                if (st->getPointerOperand() == al)
                  if (auto* a = dyn_cast<Argument>(st->getValueOperand()))
                    m[a->getArgNo()] = {var->getName().str(), diId(var->getType())};
          }
        }
  }
  void collectAllocas(Function& F) {
    for (auto& B : F)
      for (auto& I : B)
        if (auto* d = dyn_cast<DbgDeclareInst>(&I))
          if (auto* al = dyn_cast_or_null<AllocaInst>(d->getAddress()))
            allocaInfo[al] = {d->getVariable()->getName().str(), diId(d->getVariable()->getType())};
  }
};

int main(int argc, char** argv) {
  if (argc < 4) { errs() << "usage\n"; return 2; }
  Policy P;
  {
    std::ifstream in(argv[2]);
    std::string line;
    while (std::getline(in, line)) {
      if (line.empty() || line[0] == '#') continue;
      size_t sp = line.find(' ');
      std::string k = line.substr(0, sp), r = line.substr(sp + 1);
      if (k == "opt") { P.opt = r; continue; }
      auto re = std::make_shared<Regex>(r);
      std::string err;
      if (!re->isValid(err)) { errs() << "bad regex " << r << ": " << err << "\n"; return 2; }
      P.items.push_back({k, re});
    }
  }
  LLVMContext C;
  SMDiagnostic Err;
  std::unique_ptr<Module> M = parseIRFile(argv[3], Err, C);
  if (!M) { Err.print("irx", errs()); return 2; }
  Linker L(*M);
  for (int i = 4; i < argc; i++) {
    auto m2 = parseIRFile(argv[i], Err, C);
    if (!m2) { Err.print("irx", errs()); return 2; }
    if (L.linkInModule(std::move(m2))) { errs() << "link failed\n"; return 2; }
  }
  // Complete/base constructor variants with one body are aliases: call the body.
  for (auto& A : M->aliases())
    if (auto* F = dyn_cast<Function>(A.getAliaseeObject()))
      if (F->getValueType() == A.getValueType()) A.replaceAllUsesWith(F);
  std::set<std::string> entries;
  Dumper D(*M);
  // llvm.global_ctors keeps static initialisers alive: they are entries only if named.
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    std::string s = sname(F.getName());
    const std::string& d = dem(F.getName());
    bool isEntry = false;
    int inl = 0;
    for (auto& it : P.items) {
      if (it.kind == "entry" && !isEntry && it.re->match(s)) isEntry = true;
      if (it.kind == "mentry" && !isEntry && it.re->match(d)) isEntry = true;
      if (!inl) {
        if (it.kind == "inline" && it.re->match(s)) inl = 1;
        else if (it.kind == "keep" && it.re->match(s)) inl = -1;
        else if (it.kind == "minline" && it.re->match(d)) inl = 1;
        else if (it.kind == "mkeep" && it.re->match(d)) inl = -1;
      }
    }
    if (isEntry) { entries.insert(F.getName().str()); D.collectParams(F); }
    F.removeFnAttr(Attribute::AlwaysInline);
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::InlineHint);
    if (inl == 1) F.addFnAttr(Attribute::AlwaysInline);
    else F.addFnAttr(Attribute::NoInline);
    if (F.hasAvailableExternallyLinkage() && isEntry) F.setLinkage(GlobalValue::LinkOnceODRLinkage);
  }
  for (auto& G : M->global_values()) {
    if (G.isDeclaration()) continue;
    if (auto* F = dyn_cast<Function>(&G)) {
      if (entries.count(F->getName().str())) {
        F->setComdat(nullptr);
        F->setLinkage(GlobalValue::ExternalLinkage);
        continue;
      }
      // A kept function must keep its external semantics; internal linkage is
      // fine for DCE, but interprocedural passes are not run, so it is safe.
      if (F->hasAvailableExternallyLinkage()) continue;
      F->setComdat(nullptr);
      F->setLinkage(GlobalValue::InternalLinkage);
    } else if (auto* V = dyn_cast<GlobalVariable>(&G)) {
      if (V->getName().starts_with("llvm.")) continue;
      V->setComdat(nullptr);
      if (!V->hasAppendingLinkage()) V->setLinkage(GlobalValue::InternalLinkage);
    } else if (auto* A = dyn_cast<GlobalAlias>(&G)) {
      // ctor/dtor aliases
      A->setLinkage(GlobalValue::InternalLinkage);
    }
  }
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) {
    bool wantCtors = false;
    for (auto& e : entries) if (e.rfind("_GLOBAL__sub_I", 0) == 0 || e.rfind("__cxx_global_var_init", 0) == 0) wantCtors = true;
    if (!wantCtors) gc->eraseFromParent();
  }
  if (auto* gu = M->getGlobalVariable("llvm.used")) gu->eraseFromParent();
  if (auto* gu = M->getGlobalVariable("llvm.compiler.used")) gu->eraseFromParent();

  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  auto run = [&](const std::string& pipe) {
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(e)) << "\n"; exit(2); }
    MPM.run(*M, MAM);
  };
  run("globaldce");
  if (P.opt != "none") {
    run("function(sroa,early-cse,simplifycfg)");
    run("always-inline");
    run("globaldce");
    if (P.opt == "lite")
      run("function(sroa,early-cse<memssa>,simplifycfg,sccp,sroa,early-cse<memssa>,simplifycfg,adce)");
    else
      run("function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,jump-threading,sroa,early-cse<memssa>,gvn,simplifycfg,instcombine<no-verify-fixpoint>,adce,simplifycfg)");
  }
  for (auto& F : *M) if (!F.isDeclaration() && entries.count(F.getName().str())) D.collectAllocas(F);
  json::Object out;
  json::Array fns;
  for (auto& F : *M)
    if (!F.isDeclaration() && entries.count(F.getName().str())) fns.push_back(D.dumpFunction(F));
  out["functions"] = std::move(fns);
  out["consts"] = D.dumpConsts();
  out["inits"] = D.dumpConsts(true);
  out["vtables"] = D.dumpVtables();
  out["types"] = D.dumpTypes();
  out["locs"] = std::move(D.locTable);
  std::error_code ec;
  raw_fd_ostream os(argv[1], ec);
  os << json::Value(std::move(out));
  return 0;
}
