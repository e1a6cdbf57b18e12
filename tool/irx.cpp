// irx: load LLVM bitcode of the project, inline helpers that are not known anchors, bring the
// functions into a simple SSA form and export them as JSON facts for the rule engines.
//   irx OUT.json KNOWN.txt in1.bc in2.bc ...
// KNOWN.txt: qualified function names (no parameter list) that keep their own summary; every other
// project function is inlined into its callers. A KNOWN file with the single line "*" keeps all.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <fstream>
#include <set>
#include <map>
#include <functional>
using namespace llvm;
using std::string;

static string qualName(const string &dem) {
  // strip the parameter list and template args of the function itself, keep scopes
  string s = dem;
  // cut at the matching '(' of the parameter list: the last top-level '(' group (ignore "operator()")
  int depth = 0, ang = 0; size_t cut = string::npos;
  for (size_t i = 0; i < s.size(); i++) {
    char c = s[i];
    if (c == '<') ang++;
    else if (c == '>' && ang > 0 && !(i && s[i-1] == '-')) ang--;
    else if (c == '(' ) {
      if (ang == 0 && depth == 0) {
        if (s.compare(i, 2, "()") == 0 && i >= 8 && s.compare(i - 8, 8, "operator") == 0) { i++; continue; }
        if (s.compare(i, 21, "(anonymous namespace)") == 0) { i += 20; continue; }
        // lambda: foo(...)::$_0::operator()(...) keep going when "::" follows the group
        int d = 0; size_t j = i;
        for (; j < s.size(); j++) { if (s[j] == '(') d++; else if (s[j] == ')' && --d == 0) break; }
        if (j + 2 < s.size() && s.compare(j + 1, 2, "::") == 0) { s.erase(i, j - i + 1); i--; continue; }
        if (j + 8 < s.size() && s.compare(j + 1, 8, " const::") == 0) { s.erase(i, j - i + 7); i--; continue; }
        cut = i; break;
      }
    }
  }
  if (cut != string::npos) s = s.substr(0, cut);
  return s;
}

// name without template arguments and without a leading return type
static string baseName(const string &q) {
  string t; int a = 0;
  for (size_t i = 0; i < q.size(); i++) {
    char c = q[i];
    if (a == 0 && q.compare(i, 8, "operator") == 0 && (i == 0 || !(isalnum(q[i-1]) || q[i-1] == '_')) && i + 8 < q.size() && !(isalnum(q[i+8]) || q[i+8] == '_')) {
      // copy the operator symbol verbatim
      size_t j = i + 8; string sym;
      for (const char *o : {"<=>", "<<=", ">>=", "->*", "()", "[]", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "++", "--", "->", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<", ">", "+", "-", "*", "/", "%", "|", "&", "^", "!", "~", "=", ","})
        if (q.compare(j, strlen(o), o) == 0) { sym = o; break; }
      if (!sym.empty()) { t += "operator" + sym; i = j + sym.size() - 1; continue; }
    }
    if (c == '<') { a++; continue; }
    if (c == '>' && a > 0) { a--; continue; }
    if (a == 0) t += c;
  }
  size_t op = t.rfind("operator ");
  size_t lim = op != string::npos && (op == 0 || !(isalnum(t[op-1]) || t[op-1] == '_')) ? op : t.size();
  int d = 0; size_t cut = string::npos;
  for (size_t i = 0; i < lim; i++) { if (t[i] == '(' || t[i] == '{') d++; else if (t[i] == ')' || t[i] == '}') d--; else if (t[i] == ' ' && d == 0) cut = i; }
  if (cut != string::npos) t = t.substr(cut + 1);
  return t;
}
static bool starts(const string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static bool stdAccessor(const string &b, const string &dem) {
  if (starts(b, "std::vector::")) {
    if (dem.find("std::vector<bool") != string::npos && dem.find("std::vector<bool") < dem.find("::operator") ) { size_t v = dem.find("std::vector<"); if (dem.compare(v, 16, "std::vector<bool") == 0) return false; }
    string m = b.substr(13);
    for (const char *x : {"operator[]", "begin", "end", "size", "empty", "back", "front", "data", "cbegin", "cend", "at", "_M_range_check", "_M_data_ptr", "rbegin", "rend"}) if (m == x) return true;
    return false; }
  for (const char *p : {"__gnu_cxx::__normal_iterator::", "std::_Rb_tree_iterator::", "std::_Rb_tree_const_iterator::", "std::_Rb_tree_node::", "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator",
       "std::__detail::_Hash_node", "std::_List_iterator::", "std::_List_const_iterator::", "std::_List_node::", "std::_Fwd_list_iterator::", "std::_Fwd_list_node::", "__gnu_cxx::__aligned", "std::_Tuple_impl::", "std::_Head_base::", "std::tuple::", "std::pair::", "std::initializer_list::", "std::reverse_iterator::",
       "std::_Index_tuple", "std::__pair_get", "std::integral_constant::", "std::__addressof", "std::reference_wrapper::"}) if (starts(b, p)) return true;
  for (const char *p : {"std::get", "std::__get_helper", "std::make_pair", "std::make_tuple", "std::tie", "std::move", "std::forward", "std::min", "std::max", "std::abs", "std::addressof", "std::exchange", "std::as_const", "std::next", "std::prev", "std::advance", "std::__advance", "std::__iterator_category", "std::ref",
       "std::begin", "std::end", "std::make_reverse_iterator", "std::__detail::operator!=", "std::__detail::operator==", "__gnu_cxx::operator!=", "__gnu_cxx::operator==", "__gnu_cxx::operator-", "__gnu_cxx::operator<", "__gnu_cxx::operator+", "std::__conditional", "std::forward_like", "std::__niter_base",
       "std::floor", "std::isnan"}) if (b == p) return true;
  if (b == "std::swap") { for (const char *t : {"<int>", "<unsigned int>", "<long>", "<unsigned long>", "<bool>"}) if (dem.find(string("swap") + t) != string::npos) return true; return dem.find("*>(") != string::npos && dem.find("vector") == string::npos; }
  if (b == "std::operator!=" || b == "std::operator==") {
    size_t p = dem.find("operator!="); if (p == string::npos) p = dem.find("operator=="); p = dem.find('(', p); string a = dem.substr(p + 1);
    for (const char *t : {"std::_Rb_tree_", "std::_List_", "std::_Fwd", "std::reverse_iterator", "std::__detail", "std::_Deque_iterator"}) if (starts(a, t)) return t[5] != '_' || string(t) != "std::_Deque_iterator";
    return false; }
  return false;
}

static string relFile(StringRef f) { return f.str(); }

// parameter types of a demangled signature
static std::vector<string> paramTypes(string s) {
  std::vector<string> r; int d = 0; size_t e = s.rfind(')'); if (e == string::npos) return r;
  size_t b = e; for (size_t k = e + 1; k-- > 0;) { if (s[k] == ')') d++; else if (s[k] == '(' && --d == 0) { b = k; break; } }
  string cur; d = 0;
  for (size_t k = b + 1; k < e; k++) { char c = s[k];
    if (c == '<' || c == '(' || c == '[') d++; else if (c == '>' || c == ')' || c == ']') d--;
    if (c == ',' && d == 0) { r.push_back(cur); cur.clear(); if (k + 1 < e && s[k + 1] == ' ') k++; } else cur += c; }
  if (!cur.empty() && cur != "void") r.push_back(cur);
  return r;
}
// a scalar handed to a callee by constant (or, for library code, moved-from) reference is handed over as a copy,
// so that taking such a reference does not keep the variable out of SSA form
static bool copyReadOnly(Function &F) {
  std::vector<std::pair<CallBase *, unsigned>> todo;
  for (auto &B : F) for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) {
    Function *c = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
    if (!c || c->isIntrinsic() || isa<DbgInfoIntrinsic>(I)) continue;
    bool any = false; for (auto &a : cb->args()) if (isa<AllocaInst>(a)) any = true;
    if (!any) continue;
    string dm = demangle(c->getName().str()); auto ps = paramTypes(dm);
    if (ps.size() > cb->arg_size()) continue;
    unsigned sh = cb->arg_size() - ps.size();
    for (unsigned k = 0; k < ps.size(); k++) { const string &p = ps[k];
      bool cr = p.size() > 6 && p.compare(p.size() - 6, 6, "const&") == 0, rv = p.size() > 2 && p.compare(p.size() - 2, 2, "&&") == 0 && dm.find("std::") != string::npos;
      if (!cr && !rv) continue;
      if (auto *ai = dyn_cast<AllocaInst>(cb->getArgOperand(k + sh))) if (!ai->isArrayAllocation() && ai->getAllocatedType()->isSingleValueType() && !ai->getAllocatedType()->isVectorTy()) todo.push_back({cb, k + sh}); } }
  bool ch = false;
  for (auto &t : todo) { auto *ai = cast<AllocaInst>(t.first->getArgOperand(t.second));
    // a variable that is only ever written once and passed on gains nothing
    bool other = false; for (auto *u : ai->users()) if (u != t.first && !isa<StoreInst>(u) && !isa<DbgInfoIntrinsic>(u)) { if (auto *ii = dyn_cast<IntrinsicInst>(u)) if (ii->isLifetimeStartOrEnd()) continue; other = true; }
    if (!other) continue;
    IRBuilder<> EB(&*F.getEntryBlock().getFirstInsertionPt()); auto *n = EB.CreateAlloca(ai->getAllocatedType(), nullptr, ai->getName() + ".ro");
    IRBuilder<> B(t.first); B.CreateStore(B.CreateLoad(ai->getAllocatedType(), ai), n); t.first->setArgOperand(t.second, n); ch = true; }
  return ch;
}

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage\n"; return 2; }
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  std::set<string> known; bool keepAll = false;
  { std::ifstream k(argv[2]); string l; while (std::getline(k, l)) { if (l == "*") keepAll = true; if (!l.empty()) known.insert(l); } }
  string root; if (const char *r = getenv("IRX_ROOT")) root = r;
  for (int i = 3; i < argc; i++) {
    SMDiagnostic err;
    auto m = parseIRFile(argv[i], err, ctx);
    if (!m) { err.print("irx", errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m), Linker::Flags::OverrideFromSrc)) { errs() << "link error " << argv[i] << "\n"; return 2; }
  }
  { std::vector<GlobalAlias *> al; for (auto &a : M->aliases()) al.push_back(&a);
    for (auto *a : al) if (auto *t = a->getAliaseeObject()) if (t->getType() == a->getType()) { a->replaceAllUsesWith(t); } }
  // which functions belong to the project?
  std::map<Function *, string> proj;
  for (Function &F : *M) {
    if (F.isDeclaration()) continue;
    DISubprogram *sp = F.getSubprogram();
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
    if (!sp || !sp->getFile()) continue;
    string f = sp->getFilename().str();
    string full = f; if (!f.empty() && f[0] != '/') full = sp->getFile()->getDirectory().str() + "/" + f;
    if (root.empty() || full.compare(0, root.size(), root) == 0) {
      string rel = full.substr(root.size());
      proj[&F] = rel;
    }
  }
  auto isRec = [&](Function *F) {
    std::set<Function *> seen; std::vector<Function *> st{F};
    while (!st.empty()) { Function *g = st.back(); st.pop_back();
      for (auto &I : instructions(g)) if (auto *cb = dyn_cast<CallBase>(&I)) if (Function *c = cb->getCalledFunction()) {
        if (c == F) return true;
        if (proj.count(c) && seen.insert(c).second) st.push_back(c); } }
    return false; };
  for (Function &F : *M) if (!F.isDeclaration() && !proj.count(&F)) {
    string dm = demangle(F.getName().str());
    if (stdAccessor(baseName(qualName(dm)), dm) && !isRec(&F)) F.addFnAttr(Attribute::AlwaysInline); }
  std::set<string> inlined; std::set<Function *> wasInternal;
  std::vector<std::pair<StructType *, unsigned>> zg;
  std::map<Function *, string> qn;
  for (auto &p : proj) qn[p.first] = qualName(demangle(p.first->getName().str()));
  if (!keepAll)
    for (auto &p : proj) {
      if (known.count(qn[p.first]) || p.first->getName() == "main") continue;
      if (isRec(p.first)) continue;
      p.first->addFnAttr(Attribute::AlwaysInline);
      inlined.insert(qn[p.first]);
    }
  {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    for (Function &F : *M) if (!F.isDeclaration() && (proj.count(&F) || F.hasFnAttribute(Attribute::AlwaysInline))) { LowerInvokePass().run(F, FAM); removeUnreachableBlocks(F); }
    FAM.clear(); MAM.clear();
    // keep accesses to a struct's first field visible: inlining would fold the zero offset away
    for (Function &F : *M) if (!F.isDeclaration() && (proj.count(&F) || F.hasFnAttribute(Attribute::AlwaysInline))) {
      std::vector<GetElementPtrInst *> zs;
      for (auto &I : instructions(F)) if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        auto *st = dyn_cast<StructType>(g->getSourceElementType());
        if (!st || !st->hasName() || g->getNumIndices() < 2 || !g->hasAllZeroIndices()) continue;
        StringRef n = st->getName();
        if (n.contains("std::") && !n.contains("_Vector_impl_data")) continue;
        if (n.contains("__gnu_cxx") ) continue;
        if (isa<AllocaInst>(g->getPointerOperand()->stripPointerCasts()) && !n.contains("_Vector_impl_data") && !n.starts_with("class.")) continue;
        zs.push_back(g); }
      for (auto *g : zs) {
        int k = zg.size(); zg.push_back({cast<StructType>(g->getSourceElementType()), g->getNumIndices()});
        Function *mk = Function::Create(FunctionType::get(g->getType(), {g->getPointerOperand()->getType()}, false), GlobalValue::ExternalLinkage, "irx.zgep." + std::to_string(k), *M);
        mk->setDoesNotAccessMemory(); mk->setDoesNotThrow(); mk->setWillReturn();
        IRBuilder<> B(g); auto *c = B.CreateCall(mk, {g->getPointerOperand()}); c->setDebugLoc(g->getDebugLoc());
        g->replaceAllUsesWith(c); g->eraseFromParent(); }
    }
    for (auto &p : proj) if (p.first->hasLocalLinkage()) { wasInternal.insert(p.first); p.first->setLinkage(GlobalValue::ExternalLinkage); p.first->setVisibility(GlobalValue::DefaultVisibility); }
      else if (p.first->hasLinkOnceLinkage()) p.first->setLinkage(GlobalValue::WeakODRLinkage);
    // calls that never return end their block
    ModulePassManager MPM;
    MPM.addPass(AlwaysInlinerPass(false));
    MPM.run(*M, MAM);
    MAM.clear(); FAM.clear(); 
    for (Function &F : *M) {
      if (F.isDeclaration() || !proj.count(&F)) continue;
      for (auto &B : F) for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) {
        Function *c = cb->getCalledFunction();
        if (c && (c->doesNotReturn() || cb->doesNotReturn())) {
          auto nx = std::next(BasicBlock::iterator(&I));
          if (!isa<UnreachableInst>(&*nx)) { changeToUnreachable(&*nx); }
          break;
        } }
      removeUnreachableBlocks(F);
    }
    FunctionPassManager FPM;
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    FPM.addPass(DCEPass());
    FPM.addPass(LoopSimplifyPass());
    FPM.addPass(LCSSAPass());
    for (Function &F : *M) if (!F.isDeclaration() && proj.count(&F)) { FPM.run(F, FAM); if (copyReadOnly(F)) { FAM.invalidate(F, PreservedAnalyses::none()); FPM.run(F, FAM); } }
  }
  if (const char *ll = getenv("IRX_LL")) { std::error_code ec2; raw_fd_ostream o(ll, ec2); M->print(o, nullptr); }
  // struct layouts from debug info
  DebugInfoFinder DF; DF.processModule(*M);
  struct Fld { uint64_t off, sz; string name, type; };
  std::map<string, std::vector<Fld>> lay; // qualified struct name -> fields
  std::map<string, string> typeFile;
  std::function<string(DIType *)> tyName = [&](DIType *t) -> string {
    if (!t) return "void";
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      switch (d->getTag()) {
        case dwarf::DW_TAG_pointer_type: return tyName(d->getBaseType()) + "*";
        case dwarf::DW_TAG_reference_type: return tyName(d->getBaseType()) + "&";
        case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: return tyName(d->getBaseType());
        default: return d->getName().empty() ? tyName(d->getBaseType()) : d->getName().str();
      } }
    if (auto *c = dyn_cast<DICompositeType>(t)) if (c->getTag() == dwarf::DW_TAG_array_type) return tyName(c->getBaseType()) + "[]";
    return t->getName().str(); };
  auto scopeName = [&](DIScope *s) { string r; while (s) { if (auto *n = dyn_cast<DINamespace>(s)) r = n->getName().str() + "::" + r; else if (auto *c = dyn_cast<DICompositeType>(s)) r = c->getName().str() + "::" + r; s = s->getScope(); } return r; };
  for (DIType *t : DF.types()) {
    auto *c = dyn_cast<DICompositeType>(t); if (!c) continue;
    if (c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_union_type) continue;
    string nm = scopeName(c->getScope()) + c->getName().str();
    if (c->getName().empty()) continue;
    std::vector<Fld> fs;
    for (auto *e : c->getElements()) {
      auto *d = dyn_cast_or_null<DIDerivedType>(e); if (!d) continue;
      if (d->getTag() == dwarf::DW_TAG_member) { if (d->isStaticMember()) continue; fs.push_back({d->getOffsetInBits(), d->getSizeInBits(), d->getName().str(), tyName(d->getBaseType())}); }
      else if (d->getTag() == dwarf::DW_TAG_inheritance) fs.push_back({d->getOffsetInBits(), 0, "<" + tyName(d->getBaseType()) + ">", tyName(d->getBaseType())});
    }
    { string k2; for (size_t i = 0; i < nm.size(); i++) { if (nm[i] == ' ' && i + 1 < nm.size() && nm[i+1] == '>') continue; k2 += nm[i]; } nm = k2; }
    if (!fs.empty() || !lay.count(nm)) if (fs.size() >= lay[nm].size()) lay[nm] = fs;
    if (c->getFile()) typeFile[nm] = c->getFilename().str();
  }
  const DataLayout &DL = M->getDataLayout();
  auto structKey = [&](StructType *st) -> string {
    if (!st->hasName()) return "";
    string n = st->getName().str();
    for (const char *p : {"class.", "struct.", "union."}) if (n.compare(0, strlen(p), p) == 0) { n = n.substr(strlen(p)); break; }
    size_t dot = n.rfind('.'); if (dot != string::npos && dot + 1 < n.size() && n.find_first_not_of("0123456789", dot + 1) == string::npos) n = n.substr(0, dot);
    if (n.size() > 5 && n.substr(n.size() - 5) == ".base") n = n.substr(0, n.size() - 5);
    return n; };
  auto fieldName = [&](StructType *st, unsigned idx) -> std::pair<string, string> {
    string k = structKey(st);
    auto it = lay.find(k);
    if (it == lay.end()) { string k2; for (size_t i = 0; i < k.size(); i++) { if (k[i] == ' ' && i + 1 < k.size() && k[i+1] == '>') continue; k2 += k[i]; } it = lay.find(k2); }
    uint64_t off = DL.getStructLayout(st)->getElementOffsetInBits(idx);
    if (it == lay.end() && !k.empty())
      for (auto jt = lay.lower_bound(k + "<"); jt != lay.end() && starts(jt->first, (k + "<").c_str()); ++jt) {
        size_t nf = 0; bool hit = false; for (auto &f : jt->second) { nf++; if (f.off == off && f.sz > 0) hit = true; }
        if (hit && nf >= st->getNumElements()) { it = jt; break; } }
    if (it != lay.end()) {
      // prefer a member at exactly this offset (bitfields: several names)
      string names, ty;
      for (auto &f : it->second) if (f.off == off && f.sz > 0) { names = f.name; ty = f.type; break; }
      if (names.empty()) for (auto &f : it->second) if (f.off == off) { names = f.name; ty = f.type; break; }
      if (names.empty()) for (auto &f : it->second) if (f.off >= off && f.off < off + DL.getTypeSizeInBits(st->getElementType(idx))) { names = f.name; ty = f.type; break; }
      if (!names.empty()) return {k + "." + names, ty};
    }
    return {k + ".#" + std::to_string(idx), ""}; };
  std::error_code ec; raw_fd_ostream os(argv[1], ec);
  json::OStream J(os);
  auto tstr = [&](Type *t) { string s; raw_string_ostream o(s); t->print(o, false, true); return s; };
  J.objectBegin();
  J.attributeArray("inlined", [&] { for (auto &s : inlined) J.value(s); });
  J.attributeObject("structs", [&] {
    for (auto &p : lay) { if (p.first.compare(0, 5, "std::") == 0 || p.first.compare(0, 11, "__gnu_cxx::") == 0) continue;
      J.attributeArray(p.first, [&] { for (auto &f : p.second) J.array([&] { J.value((int64_t)f.off); J.value((int64_t)f.sz); J.value(f.name); J.value(f.type); }); }); } });
  J.attributeObject("globals", [&] {
    for (auto &G : M->globals()) {
      if (G.isConstant() && G.hasInitializer()) if (auto *cd = dyn_cast<ConstantDataArray>(G.getInitializer())) if (cd->isString()) { string s = cd->getAsString().str(); while (!s.empty() && s.back() == 0) s.pop_back(); J.attribute(G.getName(), json::fixUTF8("\"" + s + "\"")); continue; }
      if (G.hasInitializer()) { auto *ini = G.getInitializer(); string s; if (auto *ci = dyn_cast<ConstantInt>(ini)) s = "=" + std::to_string(ci->getSExtValue()); if (!s.empty()) J.attribute(G.getName(), s); }
      // vtables: export slot list
      if (G.getName().starts_with("_ZTV") && G.hasInitializer()) {
        J.attributeArray(G.getName(), [&] { std::function<void(Constant *)> w = [&](Constant *c) { if (auto *f = dyn_cast<Function>(c->stripPointerCasts())) { J.value(qualName(demangle(f->getName().str()))); } else if (isa<ConstantAggregate>(c)) for (auto &o : c->operands()) w(cast<Constant>(&*o)); else J.value(nullptr); }; w(G.getInitializer()); }); }
    } });
  J.attributeArray("functions", [&] {
    for (Function &F : *M) {
      if (F.isDeclaration() || !proj.count(&F)) continue;
      J.object([&] {
        string dem = demangle(F.getName().str());
        J.attribute("m", F.getName()); J.attribute("d", dem); J.attribute("q", qn[&F]);
        J.attribute("file", proj[&F]); J.attribute("line", (int64_t)F.getSubprogram()->getLine());
        J.attribute("internal", wasInternal.count(&F) > 0);
        J.attribute("sret", F.arg_size() > 0 && F.hasParamAttribute(0, Attribute::StructRet));
        if (F.arg_size() > 0 && F.hasParamAttribute(0, Attribute::StructRet)) if (auto *st = dyn_cast_or_null<StructType>(F.getParamStructRetType(0))) J.attribute("srty", structKey(st));
        J.attribute("member", F.getSubprogram()->getDeclaration() != nullptr);
        J.attribute("ret", tstr(F.getReturnType()));
        J.attributeArray("args", [&] { for (auto &a : F.args()) J.array([&] { J.value(a.getName()); J.value(tstr(a.getType())); }); });
        std::map<const Value *, int> id; std::map<const BasicBlock *, int> bid; int n = 0, b = 0;
        for (auto &B : F) { bid[&B] = b++; for (auto &I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; id[&I] = n++; } }
        std::function<void(const Value *)> op = [&](const Value *v) {
          if (auto *I = dyn_cast<Instruction>(v)) { J.value((int64_t)id[I]); return; }
          J.array([&] {
            if (auto *a = dyn_cast<Argument>(v)) { J.value("A"); J.value((int64_t)a->getArgNo()); }
            else if (auto *c = dyn_cast<ConstantInt>(v)) { J.value("C"); if (c->getBitWidth() <= 64) J.value(c->getSExtValue()); else J.value(0); J.value((int64_t)c->getBitWidth()); }
            else if (auto *c = dyn_cast<ConstantFP>(v)) { J.value("F"); SmallString<32> s; c->getValueAPF().toString(s); J.value(s); }
            else if (isa<ConstantPointerNull>(v)) J.value("N");
            else if (isa<UndefValue>(v)) J.value("U");
            else if (auto *f = dyn_cast<Function>(v)) { J.value("Fn"); J.value(qualName(demangle(f->getName().str()))); }
            else if (auto *g = dyn_cast<GlobalVariable>(v)) { J.value("G"); J.value(g->getName()); J.value(demangle(g->getName().str())); }
            else if (auto *ce = dyn_cast<ConstantExpr>(v)) { J.value("E"); J.value(ce->getOpcodeName());
              if (auto *gep = dyn_cast<GEPOperator>(ce)) { J.value(tstr(gep->getSourceElementType())); }
              else J.value(nullptr);
              for (auto &o : ce->operands()) op(o); }
            else if (isa<ConstantAggregateZero>(v)) { J.value("Z"); }
            else { J.value("X"); J.value(tstr(v->getType())); }
          }); };
        J.attributeArray("blocks", [&] {
          for (auto &B : F) J.array([&] {
            for (auto &I : B) {
              if (isa<DbgInfoIntrinsic>(I)) continue;
              J.object([&] {
                int zk = -1;
                if (auto *cb = dyn_cast<CallInst>(&I)) if (Function *c = cb->getCalledFunction()) if (c->getName().starts_with("irx.zgep.")) zk = std::stoi(c->getName().substr(9).str());
                J.attribute("i", (int64_t)id[&I]); J.attribute("op", zk >= 0 ? "getelementptr" : I.getOpcodeName());
                J.attribute("ty", tstr(I.getType()));
                if (auto &dl = I.getDebugLoc()) {
                  J.attribute("l", (int64_t)dl.getLine());
                  string df; if (auto *sc = dyn_cast_or_null<DIScope>(dl.getScope())) { auto fn = sc->getFilename(); df = fn.str(); }
                  if (!df.empty() && df[0] != '/') df = cast<DIScope>(dl.getScope())->getDirectory().str() + "/" + df;
                  if (!root.empty() && df.compare(0, root.size(), root) == 0) df = df.substr(root.size());
                  if (df != proj[&F]) J.attribute("f", df);
                }
                if (zk >= 0) {
                  J.attribute("off", (int64_t)0);
                  J.attributeArray("a", [&] { op(cast<CallInst>(I).getArgOperand(0)); });
                  J.attributeArray("g", [&] { Type *t = zg[zk].first; for (unsigned k = 1; k < zg[zk].second; k++) { if (auto *st = dyn_cast<StructType>(t)) { auto fn = fieldName(st, 0); J.array([&] { J.value("f"); J.value(fn.first); J.value(fn.second); }); t = st->getElementType(0); } else if (auto *at = dyn_cast<ArrayType>(t)) t = at->getElementType(); } });
                  return; }
                if (auto *ai = dyn_cast<AllocaInst>(&I)) { J.attribute("aty", ai->getAllocatedType()->isStructTy() ? structKey(cast<StructType>(ai->getAllocatedType())) : tstr(ai->getAllocatedType())); J.attribute("nm", ai->getName()); if (ai->isArrayAllocation()) J.attributeArray("a", [&] { op(ai->getArraySize()); }); return; }
                if (auto *c = dyn_cast<CmpInst>(&I)) J.attribute("p", CmpInst::getPredicateName(c->getPredicate()));
                if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                  { APInt o(64, 0); if (g->accumulateConstantOffset(DL, o)) J.attribute("off", (int64_t)o.getSExtValue()); }
                  J.attributeArray("a", [&] { op(g->getPointerOperand()); });
                  J.attributeArray("g", [&] {
                    Type *t = g->getSourceElementType(); unsigned k = 0;
                    for (auto &ix : g->indices()) {
                      if (k == 0) { if (!(isa<ConstantInt>(ix) && cast<ConstantInt>(ix)->isZero())) J.array([&] { J.value("i"); op(ix); J.value((int64_t)DL.getTypeAllocSize(t)); J.value(t->isStructTy() ? structKey(cast<StructType>(t)) : tstr(t)); }); }
                      else if (auto *st = dyn_cast<StructType>(t)) { unsigned fi = cast<ConstantInt>(ix)->getZExtValue(); auto fn = fieldName(st, fi); J.array([&] { J.value("f"); J.value(fn.first); J.value(fn.second); }); t = st->getElementType(fi); }
                      else if (auto *at = dyn_cast<ArrayType>(t)) { t = at->getElementType(); J.array([&] { J.value("i"); op(ix); J.value((int64_t)DL.getTypeAllocSize(t)); J.value("arr"); }); }
                      else { J.array([&] { J.value("?"); }); }
                      k++;
                    } });
                  return; }
                if (auto *p = dyn_cast<PHINode>(&I)) {
                  J.attribute("nm", p->getName());
                  J.attributeArray("a", [&] { for (auto &o : p->incoming_values()) op(o); });
                  J.attributeArray("in", [&] { for (auto *bb : p->blocks()) J.value((int64_t)bid[bb]); });
                  return; }
                if (auto *cb = dyn_cast<CallBase>(&I)) {
                  if (Function *c = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) { string dm = demangle(c->getName().str()); J.attribute("c", qualName(dm)); J.attribute("b", baseName(qualName(dm))); J.attribute("cm", c->getName()); J.attribute("cd", dm); J.attribute("proj", (bool)proj.count(c)); J.attribute("nr", c->doesNotReturn() || cb->doesNotReturn());
                      if (c->arg_size() > 0 && c->hasParamAttribute(0, Attribute::StructRet)) J.attribute("sret", true); if (c->getName().contains("C2E") || c->getName().contains("C1E")) J.attribute("ctor", true); }
                  else { J.attribute("c", nullptr); J.attributeArray("cv", [&] { op(cb->getCalledOperand()); }); }
                  J.attributeArray("a", [&] { for (auto &o : cb->args()) op(o); });
                  return; }
                if (auto *br = dyn_cast<BranchInst>(&I)) {
                  if (br->isConditional()) J.attributeArray("a", [&] { op(br->getCondition()); });
                  J.attributeArray("s", [&] { for (unsigned k = 0; k < br->getNumSuccessors(); k++) J.value((int64_t)bid[br->getSuccessor(k)]); });
                  return; }
                if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                  J.attributeArray("a", [&] { op(sw->getCondition()); });
                  J.attributeArray("s", [&] { J.value((int64_t)bid[sw->getDefaultDest()]); for (auto &c : sw->cases()) J.value((int64_t)bid[c.getCaseSuccessor()]); });
                  J.attributeArray("cs", [&] { for (auto &c : sw->cases()) J.value(c.getCaseValue()->getSExtValue()); });
                  return; }
                if (auto *ld = dyn_cast<LoadInst>(&I)) J.attribute("sz", (int64_t)DL.getTypeStoreSize(ld->getType()));
                if (auto *st = dyn_cast<StoreInst>(&I)) { J.attribute("sz", (int64_t)DL.getTypeStoreSize(st->getValueOperand()->getType())); J.attribute("sty", tstr(st->getValueOperand()->getType())); }
                if (auto *ev = dyn_cast<ExtractValueInst>(&I)) J.attributeArray("ix", [&] { for (auto x : ev->indices()) J.value((int64_t)x); });
                if (auto *iv = dyn_cast<InsertValueInst>(&I)) J.attributeArray("ix", [&] { for (auto x : iv->indices()) J.value((int64_t)x); });
                J.attributeArray("a", [&] { for (auto &o : I.operands()) op(o); });
              });
            }
          });
        });
      });
    }
  });
  J.objectEnd();
  os.flush();
  return 0;
}
