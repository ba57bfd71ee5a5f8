// spuexport: exports the fully resolved clang AST of real translation units.
// One JSON object per line:  {"F":...} function, {"R":...} record, {"T":...} type, {"G":..} global.
// Usage: spuexport -o OUT [-all|-root NAME]... FILE -- clang args
#include <fstream>
#include <functional>
#include <deque>
#include <map>
#include <set>
#include <string>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> gPrefixes = {"/repo/src", "/verif/harness"};
static std::string gTU, gOut;
static std::vector<std::string> gRoots;
static bool gAll = false;

class Exporter {
  ASTContext& C;
  std::unique_ptr<MangleContext> M;
  std::ofstream os;
  PrintingPolicy PP;
  std::map<const void*, int> typeIds;
  std::map<const Decl*, std::string> recIds, fnIds;
  std::map<const Decl*, int> varIds;
  std::set<const Decl*> seenVar;
  std::deque<const FunctionDecl*> work;
  std::deque<const CXXRecordDecl*> rwork;
  int nextVar = 1, nextAnon = 1;
 public:
  int nfun = 0;
  Exporter(ASTContext& c) : C(c), M(c.createMangleContext()), os(gOut), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.SuppressScope = false; PP.Bool = true;
  }
  void line(Object o) { std::string s; llvm::raw_string_ostream r(s); r << Value(std::move(o)); os << r.str() << "\n"; }

  std::string fileOf(SourceLocation l) { auto& SM = C.getSourceManager(); auto p = SM.getPresumedLoc(SM.getExpansionLoc(l)); return p.isValid() ? p.getFilename() : ""; }
  int lineOf(SourceLocation l) { auto& SM = C.getSourceManager(); return SM.getExpansionLineNumber(l); }
  bool inScope(const Decl* d) {
    auto f = fileOf(d->getLocation());
    for (auto& p : gPrefixes) if (f.compare(0, p.size(), p) == 0) return true;
    return false;
  }
  int T(QualType q) {
    if (q.isNull()) return -1;
    q = q.getCanonicalType();
    bool cst = q.isConstQualified();
    auto it = typeIds.find(q.getAsOpaquePtr());
    if (it != typeIds.end()) return it->second;
    int id = typeIds.size();
    typeIds[q.getAsOpaquePtr()] = id;
    Object o{{"T", id}};
    if (cst) o["c"] = 1;
    const Type* t = q.getTypePtr();
    o["s"] = q.getUnqualifiedType().getAsString(PP);
    if (auto* b = dyn_cast<BuiltinType>(t)) {
      if (b->isVoidType()) o["k"] = "void";
      else if (b->getKind() == BuiltinType::Bool) o["k"] = "bool";
      else if (b->isInteger()) { o["k"] = "int"; o["w"] = (int)C.getTypeSize(q); o["sg"] = b->isSignedInteger() ? 1 : 0; }
      else if (b->isFloatingPoint()) { o["k"] = "float"; o["w"] = (int)C.getTypeSize(q); }
      else if (b->isNullPtrType()) o["k"] = "nullptr";
      else o["k"] = "other";
    } else if (auto* e = dyn_cast<EnumType>(t)) {
      o["k"] = "enum"; auto u = e->getDecl()->getIntegerType();
      o["n"] = e->getDecl()->getQualifiedNameAsString();
      if (!u.isNull()) { o["w"] = (int)C.getTypeSize(u); o["sg"] = u->isSignedIntegerType() ? 1 : 0; }
      Object vals;
      if (e->getDecl()->getDefinition() && inScope(e->getDecl())) for (auto* c : e->getDecl()->getDefinition()->enumerators()) vals[c->getName().str()] = (int64_t)c->getInitVal().getExtValue();
      o["v"] = std::move(vals);
    } else if (auto* p = dyn_cast<PointerType>(t)) { o["k"] = "ptr"; o["t"] = T(p->getPointeeType()); }
    else if (auto* r = dyn_cast<ReferenceType>(t)) { o["k"] = "ref"; o["t"] = T(r->getPointeeType()); o["rv"] = isa<RValueReferenceType>(t) ? 1 : 0; }
    else if (auto* a = dyn_cast<ConstantArrayType>(t)) { o["k"] = "arr"; o["t"] = T(a->getElementType()); o["n"] = (int64_t)a->getSize().getZExtValue(); }
    else if (auto* a = dyn_cast<ArrayType>(t)) { o["k"] = "arr"; o["t"] = T(a->getElementType()); o["n"] = -1; }
    else if (auto* r = dyn_cast<RecordType>(t)) { o["k"] = "rec"; o["r"] = R(r->getDecl()); }
    else if (isa<FunctionType>(t)) { o["k"] = "fn"; }
    else if (auto* m = dyn_cast<MemberPointerType>(t)) { o["k"] = "mptr"; o["t"] = T(m->getPointeeType()); }
    else o["k"] = "other";
    if (!q->isIncompleteType() && !q->isDependentType() && !q->isFunctionType() && !q->isReferenceType() && !q->isPlaceholderType()) o["sz"] = (int64_t)C.getTypeSizeInChars(q).getQuantity();
    line(std::move(o));
    return id;
  }
  Array targs(const TemplateArgumentList* l) {
    Array a;
    if (!l) return a;
    std::function<void(const TemplateArgument&)> add = [&](const TemplateArgument& x) {
      switch (x.getKind()) {
        case TemplateArgument::Type: a.push_back(Object{{"t", T(x.getAsType())}}); break;
        case TemplateArgument::Integral: a.push_back(Object{{"i", llvm::toString(x.getAsIntegral(), 10)}}); break;
        case TemplateArgument::Pack: for (auto& y : x.pack_elements()) add(y); break;
        default: a.push_back(Object{{"o", 1}});
      }
    };
    for (auto& x : l->asArray()) add(x);
    return a;
  }
  std::string R(const RecordDecl* d) {
    if (auto* def = d->getDefinition()) d = def; else d = cast<RecordDecl>(d->getCanonicalDecl());
    auto it = recIds.find(d);
    if (it != recIds.end()) return it->second;
    std::string id;
    auto* cd = dyn_cast<CXXRecordDecl>(d);
    bool local = (cd && cd->isLambda()) || d->getParentFunctionOrMethod() || d->isInAnonymousNamespace() || d->getDeclName().isEmpty();
    if (local) id = "L" + gTU + "#r" + std::to_string(nextAnon++);
    else { id = C.getTypeDeclType(d).getCanonicalType().getUnqualifiedType().getAsString(PP); }
    recIds[d] = id;
    Object o{{"R", id}, {"n", d->getQualifiedNameAsString()}};
    if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(d)) o["ta"] = targs(&s->getTemplateArgs());
    bool sc = inScope(d);
    o["in"] = sc ? 1 : 0;
    o["loc"] = fileOf(d->getLocation()) + ":" + std::to_string(lineOf(d->getLocation()));
    if (d->isUnion()) o["u"] = 1;
    if (cd && cd->isLambda()) o["lam"] = 1;
    bool full = (sc || (cd && cd->isLambda()) || d->getQualifiedNameAsString() == "std::pair") && d->getDefinition() && !d->isDependentType() && d->isCompleteDefinition();
    if (full) {
      Array fs;
      for (auto* f : d->fields()) {
        Object fo{{"n", f->getName().str()}, {"t", T(f->getType())}};
        if (f->isBitField()) fo["bw"] = (int)f->getBitWidthValue(C);
        if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = E(f->getInClassInitializer());
        fs.push_back(std::move(fo));
      }
      o["f"] = std::move(fs);
      if (cd) {
        Array bs;
        for (auto& b : cd->bases()) bs.push_back(T(b.getType()));
        o["b"] = std::move(bs);
        if (auto* dd = cd->getDestructor()) if (dd->hasBody() || !dd->isImplicit()) { if (!dd->isDefaulted() && sc) o["dtor"] = F(dd); }
        Array ms;
        for (auto* m : cd->methods()) {
          if (m->isDependentContext()) continue;
          if (m->isVirtual() || (cd->isLambda() && m->getOverloadedOperator() == OO_Call)) {
            Object mo{{"n", m->getNameAsString()}, {"f", F(m)}};
            if (m->isPureVirtual()) mo["pure"] = 1;
            Array ov; for (auto* x : m->overridden_methods()) ov.push_back(F(x));
            mo["ov"] = std::move(ov);
            ms.push_back(std::move(mo));
          }
        }
        o["m"] = std::move(ms);
        if (sc && !cd->isLambda()) {
          Array cs;
          for (auto* m : cd->ctors()) if (!m->isDeleted() && !m->isDependentContext() && !m->isImplicit()) cs.push_back(F(m));
          for (auto* x : cd->decls()) if (auto* ft = dyn_cast<FunctionTemplateDecl>(x)) if (isa<CXXConstructorDecl>(ft->getTemplatedDecl()))
            for (auto* sp : ft->specializations()) if (!sp->isDependentContext()) cs.push_back(F(sp));
          o["c"] = std::move(cs);
        }
        if (cd->isLambda() ) {
          if (auto* co = cd->getLambdaCallOperator()) { if (co->isTemplated()) { o["gen"] = 1; } else o["call"] = F(co); }
        }
      }
    }
    line(std::move(o));
    return id;
  }
  std::string F(const FunctionDecl* f0) {
    const FunctionDecl* f = f0->getCanonicalDecl();
    auto it = fnIds.find(f);
    if (it != fnIds.end()) return it->second;
    std::string id;
    bool local = f->getParentFunctionOrMethod() != nullptr;
    auto* md = dyn_cast<CXXMethodDecl>(f);
    if (md && (md->getParent()->isLambda() || md->getParent()->getParentFunctionOrMethod())) local = true;
    if (!local && !f->isDependentContext() && !isa<CXXDeductionGuideDecl>(f)) {
      llvm::raw_string_ostream r(id);
      if (auto* c = dyn_cast<CXXConstructorDecl>(f)) M->mangleName(GlobalDecl(c, Ctor_Complete), r);
      else if (auto* c = dyn_cast<CXXDestructorDecl>(f)) M->mangleName(GlobalDecl(c, Dtor_Complete), r);
      else if (M->shouldMangleDeclName(f)) M->mangleName(GlobalDecl(f), r);
      else r << f->getNameAsString();
      r.flush();
      if (!f->isExternallyVisible()) id = gTU + "!" + id;
    } else id = "L" + gTU + "#f" + std::to_string(nextAnon++);
    fnIds[f] = id;
    work.push_back(f);
    return id;
  }
  int V(const ValueDecl* v) { v = cast<ValueDecl>(v->getCanonicalDecl()); auto it = varIds.find(v); if (it != varIds.end()) return it->second; return varIds[v] = nextVar++; }

  void drain() {
    while (!work.empty()) { auto* f = work.front(); work.pop_front(); emitF(f); }
  }
  void emitF(const FunctionDecl* f) {
    ++nfun;
    const FunctionDecl* def = nullptr;
    f->hasBody(def);
    if (auto* cc = dyn_cast<CXXConstructorDecl>(f)) { if (!def) for (auto* r : cc->redecls()) if (cast<CXXConstructorDecl>(r)->isThisDeclarationADefinition()) def = r; }
    const FunctionDecl* d = def ? def : f;
    Object o{{"F", fnIds[f]}, {"n", f->getQualifiedNameAsString()}, {"ret", T(f->getReturnType())}};
    o["loc"] = fileOf(d->getLocation()) + ":" + std::to_string(lineOf(d->getLocation()));
    { std::string s; llvm::raw_string_ostream r(s); f->getNameForDiagnostic(r, PP, true); if (r.str() != f->getQualifiedNameAsString()) o["pn"] = r.str(); }
    if (auto* l = f->getTemplateSpecializationArgs()) o["ta"] = targs(l);
    Array ps;
    for (auto* p : d->parameters()) { Object po{{"v", V(p)}, {"n", p->getName().str()}, {"t", T(p->getType())}};
      if (isa<CXXConstructorDecl>(f) && inScope(d) && !f->isDependentContext() && p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["d"] = E(p->getDefaultArg());
      ps.push_back(std::move(po)); }
    o["p"] = std::move(ps);
    auto* md = dyn_cast<CXXMethodDecl>(f);
    if (md) { o["r"] = R(md->getParent()); if (md->isStatic()) o["static"] = 1; if (md->isConst()) o["const"] = 1; if (md->isVirtual()) o["virt"] = 1; if (md->isPureVirtual()) o["pure"] = 1; }
    if (isa<CXXConstructorDecl>(f)) { o["ctor"] = 1; auto* cc = cast<CXXConstructorDecl>(f); if (cc->isCopyConstructor()) o["copy"] = 1; if (cc->isMoveConstructor()) o["move"] = 1; }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = 1;
    if (d->isDefaulted()) o["dflt"] = 1;
    if (d->isNoReturn()) o["noret"] = 1;
    bool isLam = md && md->getParent()->isLambda();
    bool sc = inScope(d) || isLam;
    o["in"] = sc ? 1 : 0;
    if (sc && def && !f->isDependentContext()) {
      if (auto* cc = dyn_cast<CXXConstructorDecl>(def)) {
        Array in;
        for (auto* i : cc->inits()) {
          Object io;
          if (i->isBaseInitializer()) io["base"] = T(QualType(i->getBaseClass(), 0));
          else if (i->isDelegatingInitializer()) io["deleg"] = 1;
          else if (i->isAnyMemberInitializer()) io["m"] = i->getAnyMember()->getName().str();
          io["e"] = E(i->getInit());
          in.push_back(std::move(io));
        }
        o["inits"] = std::move(in);
      }
      if (auto* b = def->getBody()) o["body"] = S(b);
      else o["body"] = nullptr;
      o["hasbody"] = 1;
    }
    line(std::move(o));
  }
  Value declS(const Decl* d) {
    if (auto* v = dyn_cast<VarDecl>(d)) {
      Object o{{"k", "var"}, {"v", V(v)}, {"n", v->getName().str()}, {"t", T(v->getType())}, {"l", lineOf(v->getLocation())}};
      if (v->getInit()) o["init"] = E(v->getInit());
      if (v->isStaticLocal()) o["static"] = 1;
      if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
        Array bs;
        for (auto* b : dd->bindings()) {
          Object bo{{"v", V(b)}, {"n", b->getName().str()}};
          if (auto* h = b->getHoldingVar()) { bo["hv"] = V(h); if (h->getInit()) bo["e"] = E(h->getInit()); }
          else if (b->getBinding()) bo["e"] = E(b->getBinding());
          bs.push_back(std::move(bo));
        }
        o["bind"] = std::move(bs);
      }
      return o;
    }
    return Object{{"k", "nop"}};
  }
  Value SS(const Stmt* s) { if (!s) return nullptr; return S(s); }
  Value S(const Stmt* s) {
    if (!s) return nullptr;
    int ln = lineOf(s->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(s)) { Array a; for (auto* c : x->body()) a.push_back(S(c)); return Object{{"k", "block"}, {"b", std::move(a)}}; }
    if (auto* x = dyn_cast<DeclStmt>(s)) { Array a; for (auto* d : x->decls()) a.push_back(declS(d)); return Object{{"k", "decl"}, {"d", std::move(a)}, {"l", ln}}; }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      Object o{{"k", "if"}, {"l", ln}};
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariable()) o["cv"] = declS(x->getConditionVariable());
      if (x->isConstexpr()) { if (auto nd = x->getNondiscardedCase(C)) { if (*nd) return S(*nd); return Object{{"k", "nop"}}; } }
      o["c"] = E(x->getCond()); o["a"] = SS(x->getThen()); o["e"] = SS(x->getElse());
      return o;
    }
    if (auto* x = dyn_cast<ForStmt>(s)) return Object{{"k", "for"}, {"l", ln}, {"init", SS(x->getInit())}, {"c", x->getCond() ? E(x->getCond()) : Value(nullptr)}, {"inc", x->getInc() ? E(x->getInc()) : Value(nullptr)}, {"b", SS(x->getBody())}};
    if (auto* x = dyn_cast<WhileStmt>(s)) { Object o{{"k", "while"}, {"l", ln}, {"c", E(x->getCond())}, {"b", SS(x->getBody())}}; if (x->getConditionVariable()) o["cv"] = declS(x->getConditionVariable()); return o; }
    if (auto* x = dyn_cast<DoStmt>(s)) return Object{{"k", "do"}, {"l", ln}, {"c", E(x->getCond())}, {"b", SS(x->getBody())}};
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) return Object{{"k", "rfor"}, {"l", ln}, {"init", SS(x->getInit())}, {"r", E(x->getRangeInit())}, {"d", SS(x->getLoopVarStmt())}, {"b", SS(x->getBody())}};
    if (auto* x = dyn_cast<SwitchStmt>(s)) { Object o{{"k", "switch"}, {"l", ln}, {"c", E(x->getCond())}, {"b", SS(x->getBody())}}; if (x->getConditionVariable()) o["cv"] = declS(x->getConditionVariable()); if (x->getInit()) o["init"] = S(x->getInit()); return o; }
    if (auto* x = dyn_cast<CaseStmt>(s)) { Object o{{"k", "case"}, {"e", E(x->getLHS())}, {"b", SS(x->getSubStmt())}}; if (x->getRHS()) o["hi"] = E(x->getRHS()); return o; }
    if (auto* x = dyn_cast<DefaultStmt>(s)) return Object{{"k", "default"}, {"b", SS(x->getSubStmt())}};
    if (isa<BreakStmt>(s)) return Object{{"k", "break"}};
    if (isa<ContinueStmt>(s)) return Object{{"k", "continue"}};
    if (isa<NullStmt>(s)) return Object{{"k", "nop"}};
    if (auto* x = dyn_cast<ReturnStmt>(s)) { Object o{{"k", "ret"}, {"l", ln}}; if (x->getRetValue()) o["e"] = E(x->getRetValue()); return o; }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (auto* x = dyn_cast<CXXTryStmt>(s)) return Object{{"k", "try"}, {"b", S(x->getTryBlock())}};
    if (auto* x = dyn_cast<Expr>(s)) return Object{{"k", "expr"}, {"l", ln}, {"e", E(x)}};
    return Object{{"k", "unsup"}, {"cls", s->getStmtClassName()}, {"l", ln}};
  }
  Value vd(const ValueDecl* d, const Expr* x) {
    if (auto* f = dyn_cast<FunctionDecl>(d)) return Object{{"k", "fref"}, {"f", F(f)}, {"t", T(x->getType())}};
    if (auto* e = dyn_cast<EnumConstantDecl>(d)) return Object{{"k", "int"}, {"v", llvm::toString(e->getInitVal(), 10)}, {"t", T(x->getType())}, {"en", e->getName().str()}};
    Object o{{"k", "ref"}, {"v", V(d)}, {"n", d->getName().str()}, {"t", T(x->getType())}};
    if (auto* v = dyn_cast<VarDecl>(d)) {
      if (v->hasGlobalStorage() && !v->isStaticLocal()) {
        o["g"] = 1; emitG(v);
        if (x->getType()->isIntegralOrEnumerationType() && (v->isConstexpr() || v->getType().isConstQualified())) {
          if (auto* ev = v->getInit() && !v->getInit()->isValueDependent() ? v->evaluateValue() : nullptr) if (ev->isInt()) o["cv"] = llvm::toString(ev->getInt(), 10);
        }
      } else if (v->isStaticLocal()) { o["sl"] = 1;
        if (x->getType()->isIntegralOrEnumerationType() && (v->isConstexpr())) if (auto* ev = v->getInit() ? v->evaluateValue() : nullptr) if (ev->isInt()) o["cv"] = llvm::toString(ev->getInt(), 10);
      }
      else if (v->isConstexpr() && x->getType()->isIntegralOrEnumerationType()) { if (auto* ev = v->getInit() && !v->getInit()->isValueDependent() ? v->evaluateValue() : nullptr) if (ev->isInt()) o["cv"] = llvm::toString(ev->getInt(), 10); }
    }
    return o;
  }
  std::set<const Decl*> gseen;
  void emitG(const VarDecl* v) {
    const VarDecl* c = v->getCanonicalDecl();
    if (!gseen.insert(c).second) return;
    Object o{{"G", V(v)}, {"n", v->getQualifiedNameAsString()}, {"t", T(v->getType())}};
    const VarDecl* def = nullptr;
    if (auto* i = v->getAnyInitializer(def)) if (inScope(v) && !i->isValueDependent()) o["init"] = E(i);
    line(std::move(o));
  }
  Value args(const CallExpr* c, unsigned from = 0) { Array a; for (unsigned i = from; i < c->getNumArgs(); ++i) a.push_back(E(c->getArg(i))); return a; }
  Value E(const Expr* e) {
    if (!e) return nullptr;
    Value v = E0(e);
    if (e->isGLValue()) if (auto* o = v.getAsObject()) (*o)["lv"] = 1;
    return v;
  }
  Value E0(const Expr* e) {
    int ln = lineOf(e->getBeginLoc());
    if (auto* x = dyn_cast<ParenExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<ConstantExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return E(x->getReplacement());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return E(x->getExpr());
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return E(x->getExpr());
    if (auto* x = dyn_cast<GenericSelectionExpr>(e)) return E(x->getResultExpr());
    if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return E(x->getSemanticForm());
    int t = T(e->getType());
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) return Object{{"k", "mat"}, {"t", t}, {"e", E(x->getSubExpr())}};
    if (auto* x = dyn_cast<IntegerLiteral>(e)) return Object{{"k", "int"}, {"v", llvm::toString(x->getValue(), 10, e->getType()->isSignedIntegerType())}, {"t", t}};
    if (auto* x = dyn_cast<CharacterLiteral>(e)) return Object{{"k", "int"}, {"v", std::to_string(x->getValue())}, {"t", t}};
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) return Object{{"k", "int"}, {"v", x->getValue() ? "1" : "0"}, {"t", t}};
    if (auto* x = dyn_cast<FloatingLiteral>(e)) { llvm::SmallString<40> s; x->getValue().bitcastToAPInt().toString(s, 10, false); return Object{{"k", "flt"}, {"bits", s.str().str()}, {"t", t}}; }
    if (auto* x = dyn_cast<StringLiteral>(e)) { auto sref = x->isOrdinary() || x->isUTF8() ? x->getString() : llvm::StringRef(""); return Object{{"k", "str"}, {"v", llvm::json::fixUTF8(sref)}, {"t", t}}; }
    if (auto* x = dyn_cast<PredefinedExpr>(e)) { return Object{{"k", "str"}, {"v", x->getFunctionName() ? x->getFunctionName()->getString().str() : ""}, {"t", t}}; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return Object{{"k", "null"}, {"t", t}};
    if (auto* x = dyn_cast<DeclRefExpr>(e)) { Value v = vd(x->getDecl(), x); if (x->refersToEnclosingVariableOrCapture()) if (auto* o = v.getAsObject()) (*o)["cap"] = 1; return v; }
    if (isa<CXXThisExpr>(e)) return Object{{"k", "this"}, {"t", t}};
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      auto* d = x->getMemberDecl();
      if (auto* f = dyn_cast<FieldDecl>(d)) return Object{{"k", "mem"}, {"o", E(x->getBase())}, {"arrow", x->isArrow() ? 1 : 0}, {"m", f->getName().str()}, {"rec", R(f->getParent())}, {"t", t}};
      return vd(d, x);
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      Object o{{"k", "mcall"}, {"t", t}, {"l", ln}};
      auto* cal = x->getCallee()->IgnoreParens();
      if (auto* me = dyn_cast<MemberExpr>(cal)) {
        auto* f = cast<FunctionDecl>(me->getMemberDecl());
        o["o"] = E(me->getBase()); o["arrow"] = me->isArrow() ? 1 : 0; o["f"] = F(f);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->isVirtual() && !me->hasQualifier()) o["virt"] = 1;
      } else o["cal"] = E(cal);
      o["a"] = args(x);
      return o;
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {  // includes operator calls
      Object o{{"k", "call"}, {"t", t}, {"l", ln}};
      if (auto* oc = dyn_cast<CXXOperatorCallExpr>(e)) o["op"] = getOperatorSpelling(oc->getOperator());
      if (auto* f = x->getDirectCallee()) { o["f"] = F(f); if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (!m->isStatic() && isa<CXXOperatorCallExpr>(e)) o["memop"] = 1; }
      else o["cal"] = E(x->getCallee());
      if (e->getType()->isIntegralOrEnumerationType() && !e->isValueDependent() && x->getDirectCallee() && x->getDirectCallee()->isConstexpr()) {
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) o["cv"] = llvm::toString(r.Val.getInt(), 10);
      }
      o["a"] = args(x);
      return o;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      Object o{{"k", "ctor"}, {"t", t}, {"f", F(x->getConstructor())}, {"l", ln}};
      Array a; for (auto* y : x->arguments()) a.push_back(E(y));
      o["a"] = std::move(a);
      if (x->isElidable()) o["elide"] = 1;
      if (x->isListInitialization()) o["list"] = 1;
      if (x->isStdInitListInitialization()) o["sil"] = 1;
      if (x->requiresZeroInitialization()) o["zero"] = 1;
      return o;
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) return Object{{"k", "inhctor"}, {"t", t}, {"f", F(x->getConstructor())}};
    if (auto* x = dyn_cast<UnaryOperator>(e)) return Object{{"k", "un"}, {"op", UnaryOperator::getOpcodeStr(x->getOpcode()).str()}, {"post", x->isPostfix() ? 1 : 0}, {"e", E(x->getSubExpr())}, {"t", t}, {"l", ln}};
    if (auto* x = dyn_cast<CompoundAssignOperator>(e)) return Object{{"k", "cas"}, {"op", x->getOpcodeStr().str()}, {"a", E(x->getLHS())}, {"b", E(x->getRHS())}, {"t", t}, {"ct", T(x->getComputationResultType())}, {"lt", T(x->getComputationLHSType())}, {"l", ln}};
    if (auto* x = dyn_cast<BinaryOperator>(e)) return Object{{"k", "bin"}, {"op", x->getOpcodeStr().str()}, {"a", E(x->getLHS())}, {"b", E(x->getRHS())}, {"t", t}, {"l", ln}};
    if (auto* x = dyn_cast<ConditionalOperator>(e)) return Object{{"k", "cond"}, {"c", E(x->getCond())}, {"a", E(x->getTrueExpr())}, {"b", E(x->getFalseExpr())}, {"t", t}};
    if (auto* x = dyn_cast<CastExpr>(e)) {
      Object o{{"k", "cast"}, {"ck", x->getCastKindName()}, {"e", E(x->getSubExpr())}, {"t", t}};
      return o;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) return Object{{"k", "idx"}, {"a", E(x->getBase())}, {"i", E(x->getIdx())}, {"t", t}, {"l", ln}};
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      const InitListExpr* sx = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
      if (sx->isTransparent() && sx->getNumInits() == 1) return E(sx->getInit(0));
      Object o{{"k", "il"}, {"t", t}};
      Array a; for (auto* y : sx->inits()) a.push_back(E(y));
      o["a"] = std::move(a);
      if (sx->hasArrayFiller()) o["fill"] = E(sx->getArrayFiller());
      if (auto* uf = sx->getInitializedFieldInUnion()) o["uf"] = uf->getName().str();
      return o;
    }
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return Object{{"k", "stdil"}, {"e", E(x->getSubExpr())}, {"t", t}};
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return Object{{"k", "zero"}, {"t", t}};
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      Object o{{"k", "lambda"}, {"t", t}, {"r", R(x->getLambdaClass())}};
      auto* co = x->getCallOperator();
      o["gen"] = co->isTemplated() ? 1 : 0;
      if (!co->isTemplated()) o["f"] = F(co);
      Array cs;
      auto ci = x->capture_init_begin();
      for (auto& c : x->captures()) {
        Object k;
        if (c.capturesThis()) k["this"] = c.getCaptureKind() == LCK_StarThis ? 2 : 1;
        else if (c.capturesVariable()) { k["v"] = V(c.getCapturedVar()); k["n"] = c.getCapturedVar()->getName().str(); k["t"] = T(c.getCapturedVar()->getType()); k["ref"] = c.getCaptureKind() == LCK_ByRef ? 1 : 0; }
        if (ci != x->capture_init_end()) { if (*ci) k["e"] = E(*ci); ++ci; }
        cs.push_back(std::move(k));
      }
      o["c"] = std::move(cs);
      return o;
    }
    if (isa<UnaryExprOrTypeTraitExpr>(e) || isa<SizeOfPackExpr>(e) || isa<TypeTraitExpr>(e) || isa<CXXNoexceptExpr>(e) || isa<OffsetOfExpr>(e) || isa<ConceptSpecializationExpr>(e)) {
      Expr::EvalResult r;
      if (!e->isValueDependent() && e->EvaluateAsInt(r, C)) return Object{{"k", "int"}, {"v", llvm::toString(r.Val.getInt(), 10)}, {"t", t}};
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) return Object{{"k", "throw"}, {"l", ln}};
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      Object o{{"k", "new"}, {"t", t}, {"at", T(x->getAllocatedType())}};
      if (x->isArray() && x->getArraySize()) o["n"] = E(*x->getArraySize());
      if (x->getInitializer()) o["e"] = E(x->getInitializer());
      return o;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) return Object{{"k", "delete"}, {"e", E(x->getArgument())}, {"t", t}};
    if (auto* x = dyn_cast<StmtExpr>(e)) return Object{{"k", "stmtexpr"}, {"b", S(x->getSubStmt())}, {"t", t}};
    if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) return Object{{"k", "arrcopy"}, {"e", E(x->getCommonExpr()->getSourceExpr())}, {"t", t}};
    if (auto* x = dyn_cast<OpaqueValueExpr>(e)) return x->getSourceExpr() ? E(x->getSourceExpr()) : Value(Object{{"k", "unsup"}, {"cls", "opaque"}, {"t", t}});
    if (isa<CXXTypeidExpr>(e)) { auto* x = cast<CXXTypeidExpr>(e); Object o{{"k", "typeid"}, {"t", t}}; if (x->isTypeOperand()) o["at"] = T(x->getTypeOperand(C)); else o["e"] = E(x->getExprOperand()); return o; }
    if (auto* x = dyn_cast<CXXPseudoDestructorExpr>(e)) return Object{{"k", "nopx"}, {"t", t}};
    return Object{{"k", "unsup"}, {"cls", e->getStmtClassName()}, {"t", t}, {"l", ln}};
  }
  void root(const FunctionDecl* f) { F(f); }
};

class Finder : public RecursiveASTVisitor<Finder> {
 public:
  Exporter& X; ASTContext& C;
  Finder(Exporter& x, ASTContext& c) : X(x), C(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (f->isDependentContext() || !f->isThisDeclarationADefinition() || f->isDeleted()) return true;
    if (f->getParentFunctionOrMethod()) return true;
    auto* md = dyn_cast<CXXMethodDecl>(f);
    if (md && md->getParent()->isLambda()) return true;
    auto& SM = C.getSourceManager();
    bool main = SM.isInMainFile(SM.getExpansionLoc(f->getLocation()));
    bool want = gAll && main;
    if (!want && X.inScope(f)) { auto n = f->getQualifiedNameAsString(); for (auto& r : gRoots) if (n.find(r) != std::string::npos) { want = true; break; } }
    if (want) X.root(f);
    return true;
  }
};
class Cons : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter X(C);
    Finder f(X, C);
    f.TraverseDecl(C.getTranslationUnitDecl());
    X.drain();
    llvm::errs() << gTU << ": " << X.nfun << " functions\n";
  }
};
class Act : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char** argv) {
  std::vector<std::string> files, cargs;
  int i = 1;
  for (; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--") { ++i; break; }
    if (a == "-o") gOut = argv[++i];
    else if (a == "-all") gAll = true;
    else if (a == "-root") gRoots.push_back(argv[++i]);
    else if (a == "-prefix") gPrefixes.push_back(argv[++i]);
    else files.push_back(a);
  }
  for (; i < argc; ++i) cargs.push_back(argv[i]);
  gTU = files[0];
  auto p = gTU.find("libspu/"); if (p != std::string::npos) gTU = gTU.substr(p + 7);
  tooling::FixedCompilationDatabase db(".", cargs);
  tooling::ClangTool tool(db, files);
  return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
