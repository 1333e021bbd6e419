// Fact extractor: parses C++ translation units with clang and writes a compact JSON
// rendering of the resolved program (functions with typed bodies, classes, enums, globals).
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_map>
using namespace clang;
namespace json = llvm::json;
using json::Array; using json::Object; using json::Value;

static std::set<std::string> gSeen;
static std::unordered_map<std::string, int> gTypes;
static Array gTypeList, gFuncs, gClasses, gEnums, gGlobals, gErrors, gFiles;
static std::vector<std::string> gRoots;

static int64_t iv(const llvm::APSInt& v) { return v.isRepresentableByInt64() ? v.getExtValue() : (int64_t)v.getLimitedValue(); }
static int typeId(const std::string& s) {
  auto it = gTypes.find(s);
  if (it != gTypes.end()) return it->second;
  int n = (int)gTypeList.size();
  gTypes[s] = n; gTypeList.push_back(s);
  return n;
}

class Emitter : public RecursiveASTVisitor<Emitter> {
 public:
  ASTContext& C; SourceManager& SM; PrintingPolicy P;
  std::unordered_map<const Decl*, int> locals; int nextLocal = 0;
  explicit Emitter(ASTContext& c) : C(c), SM(c.getSourceManager()), P(c.getPrintingPolicy()) {
    P.SuppressTagKeyword = true; P.Bool = true; P.FullyQualifiedName = true; P.PrintCanonicalTypes = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  std::string fileOf(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    if (l.isInvalid()) return "";
    auto f = SM.getFilename(l).str();
    llvm::SmallString<256> s(f);
    if (auto fe = SM.getFileEntryForID(SM.getFileID(l))) { auto r = fe->tryGetRealPathName(); if (!r.empty()) return r.str(); }
    return f;
  }
  int lineOf(SourceLocation l) { l = SM.getExpansionLoc(l); return l.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(l); }
  bool inRoots(SourceLocation l) {
    auto f = fileOf(l);
    for (auto& r : gRoots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  int T(QualType q) { if (q.isNull()) return typeId("?"); return typeId(q.getCanonicalType().getAsString(P)); }
  std::string Q(const NamedDecl* d) { std::string s; llvm::raw_string_ostream o(s); d->printQualifiedName(o, P); return o.str(); }
  std::string fid(const FunctionDecl* f) {
    std::string s = Q(f) + "(";
    for (unsigned i = 0; i < f->getNumParams(); i++) { if (i) s += ","; s += f->getParamDecl(i)->getType().getCanonicalType().getAsString(P); }
    s += ")";
    if (auto m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) s += "c";
    return s;
  }
  int local(const Decl* d) { d = d->getCanonicalDecl(); auto it = locals.find(d); if (it != locals.end()) return it->second; return locals[d] = nextLocal++; }

  Array list(llvm::iterator_range<CallExpr::const_arg_iterator> r) { Array a; for (auto* e : r) a.push_back(E(e)); return a; }

  void addConst(Object& o, const Expr* e) {
    if (e->isValueDependent() || e->isTypeDependent()) return;
    QualType t = e->getType();
    if (t.isNull() || !(t->isIntegralOrEnumerationType() || t->isFloatingType())) return;
    Expr::EvalResult r;
    if (!e->EvaluateAsRValue(r, C) || r.HasSideEffects) return;
    if (r.Val.isInt()) { if (r.Val.getInt().isRepresentableByInt64()) o["cv"] = (int64_t)r.Val.getInt().getExtValue(); }
    else if (r.Val.isFloat()) { llvm::APFloat f = r.Val.getFloat(); bool li; f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li); double d = f.convertToDouble(); if (std::isfinite(d)) o["cv"] = d; }
  }

  Value E(const Expr* e) {
    if (!e) return nullptr;
    // strip noise
    for (;;) {
      if (auto x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto x = dyn_cast<FullExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralCast: case CK_FloatingCast:
          case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToBoolean: goto done;
          default: e = x->getSubExpr(); continue;
        }
      }
      if (auto x = dyn_cast<CXXFunctionalCastExpr>(e)) { if (x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_NoOp) { e = x->getSubExpr(); continue; } }
      break;
    }
  done:
    Object o;
    o["l"] = lineOf(e->getExprLoc());
    o["t"] = T(e->getType());
    if (auto x = dyn_cast<IntegerLiteral>(e)) { o["k"] = "int"; o["v"] = (int64_t)x->getValue().getLimitedValue(); }
    else if (auto x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "flt"; llvm::APFloat f = x->getValue(); bool li; f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li); o["v"] = f.convertToDouble(); }
    else if (auto x = dyn_cast<clang::StringLiteral>(e)) { o["k"] = "str"; std::string s; if (x->getCharByteWidth() == 1) s = x->getString().str(); o["v"] = json::fixUTF8(s); }
    else if (auto x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); }
    else if (auto x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "int"; o["v"] = (int64_t)x->getValue(); o["chr"] = true; }
    else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; }
    else if (isa<CXXThisExpr>(e)) { o["k"] = "this"; }
    else if (auto x = dyn_cast<DeclRefExpr>(e)) {
      auto d = x->getDecl(); o["k"] = "ref"; o["n"] = d->getNameAsString();
      if (auto v = dyn_cast<VarDecl>(d)) {
        if (v->isLocalVarDeclOrParm()) { o["d"] = isa<ParmVarDecl>(v) ? "p" : (v->isStaticLocal() ? "sl" : "l"); o["i"] = local(v); }
        else { o["d"] = "g"; o["q"] = Q(v); }
        if (v->getType().isConstQualified()) addConst(o, e);
      } else if (auto en = dyn_cast<EnumConstantDecl>(d)) { o["d"] = "e"; o["q"] = Q(en); o["cv"] = iv(en->getInitVal()); }
      else if (auto f = dyn_cast<FunctionDecl>(d)) { o["d"] = "f"; o["q"] = fid(f); }
      else if (auto bd = dyn_cast<BindingDecl>(d)) {
        auto dd = dyn_cast<DecompositionDecl>(bd->getDecomposedDecl());
        auto be = bd->getBinding();
        if (be && (isa<MemberExpr>(be->IgnoreImpCasts()) || isa<ArraySubscriptExpr>(be->IgnoreImpCasts()))) return E(be);
        const CXXRecordDecl* rd = dd ? dd->getType().getNonReferenceType()->getAsCXXRecordDecl() : nullptr;
        unsigned n = 0;
        if (dd) for (auto* y : dd->bindings()) { if (y == bd) break; n++; }
        const FieldDecl* fd = nullptr;
        if (rd && rd->getNameAsString() == "pair") for (auto* f : rd->fields()) if (f->getNameAsString() == (n ? "second" : "first")) fd = f;
        if (fd) {
          o["k"] = "mem"; o["n"] = fd->getNameAsString(); o["f"] = Q(fd);
          o["b"] = Object{{"k", "ref"}, {"d", "l"}, {"i", local(dd)}, {"n", "pair"}, {"l", lineOf(e->getExprLoc())}, {"t", T(dd->getType())}};
        } else { o["d"] = "l"; o["i"] = local(d); }
      }
      else o["d"] = "?";
    }
    else if (auto x = dyn_cast<MemberExpr>(e)) {
      auto d = x->getMemberDecl(); o["k"] = "mem"; o["n"] = d->getNameAsString(); o["f"] = Q(d); o["b"] = E(x->getBase()); if (x->isArrow()) o["ar"] = true;
      if (auto v = dyn_cast<VarDecl>(d)) { o["st"] = true; if (v->getType().isConstQualified()) addConst(o, e); }
      if (auto m = dyn_cast<FunctionDecl>(d)) o["fn"] = fid(m);
      if (auto en = dyn_cast<EnumConstantDecl>(d)) { o["k"] = "ref"; o["d"] = "e"; o["q"] = Q(en); o["cv"] = iv(en->getInitVal()); }
    }
    else if (auto x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "call"; o["opc"] = getOperatorSpelling(x->getOperator());
      auto f = x->getDirectCallee();
      if (f) { o["fn"] = fid(f); o["q"] = Q(f); }
      bool mem = f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic();
      Array a; unsigned i = 0;
      for (auto* ar : x->arguments()) { if (mem && i == 0) o["o"] = E(ar); else a.push_back(E(ar)); i++; }
      o["a"] = std::move(a);
    }
    else if (auto x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "call"; auto m = x->getMethodDecl();
      if (m) { o["fn"] = fid(m); o["q"] = Q(m); if (m->isVirtual()) { bool qualified = false; if (auto me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) qualified = me->hasQualifier(); if (!qualified) o["vt"] = true; } }
      if (auto ob = x->getImplicitObjectArgument()) o["o"] = E(ob);
      if (auto me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) if (me->isArrow()) o["ar"] = true;
      o["a"] = list(x->arguments());
    }
    else if (auto x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call";
      if (auto f = x->getDirectCallee()) { o["fn"] = fid(f); o["q"] = Q(f); }
      else o["cal"] = E(x->getCallee());
      o["a"] = list(x->arguments());
    }
    else if (auto x = dyn_cast<CXXConstructExpr>(e)) {
      auto c = x->getConstructor();
      o["k"] = "ctor"; o["fn"] = fid(c); o["q"] = Q(c->getParent());
      if (c->isCopyOrMoveConstructor()) o["cp"] = c->isMoveConstructor() ? "m" : "c";
      if (x->isElidable()) o["el"] = true;
      if (isa<CXXTemporaryObjectExpr>(x)) o["tmp"] = true;
      Array a; for (auto* ar : x->arguments()) a.push_back(E(ar)); o["a"] = std::move(a);
      if (x->requiresZeroInitialization()) o["zi"] = true;
    }
    else if (auto x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o["k"] = "ctor"; o["fn"] = fid(x->getConstructor()); o["q"] = Q(x->getConstructor()->getParent()); o["a"] = Array(); o["inh"] = true; }
    else if (auto x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new"; o["at"] = T(x->getAllocatedType()); if (x->isArray()) { o["arr"] = true; if (auto s = x->getArraySize()) o["sz"] = E(*s); }
      if (x->hasInitializer()) o["init"] = E(x->getInitializer());
      else if (auto ce = x->getConstructExpr()) o["init"] = E(ce);
      if (x->getNumPlacementArgs()) { json::Array pl; for (unsigned i = 0; i < x->getNumPlacementArgs(); ++i) pl.push_back(E(x->getPlacementArg(i))); o["pl"] = std::move(pl); }
    }
    else if (auto x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "del"; o["e"] = E(x->getArgument()); if (x->isArrayForm()) o["arr"] = true; }
    else if (auto x = dyn_cast<UnaryOperator>(e)) { o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if (x->isPostfix()) o["post"] = true; o["e"] = E(x->getSubExpr()); addConst(o, e); }
    else if (auto x = dyn_cast<BinaryOperator>(e)) { o["k"] = "bin"; o["op"] = x->getOpcodeStr().str(); o["x"] = E(x->getLHS()); o["y"] = E(x->getRHS()); if (!x->isAssignmentOp()) addConst(o, e); }
    else if (auto x = dyn_cast<AbstractConditionalOperator>(e)) { o["k"] = "cond"; o["c"] = E(x->getCond()); o["x"] = E(x->getTrueExpr()); o["y"] = E(x->getFalseExpr()); }
    else if (auto x = dyn_cast<OpaqueValueExpr>(e)) { return E(x->getSourceExpr()); }
    else if (auto x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "idx"; o["b"] = E(x->getBase()); o["x"] = E(x->getIdx()); }
    else if (auto x = dyn_cast<CastExpr>(e)) { o["k"] = "cast"; o["ck"] = x->getCastKindName(); if (isa<ExplicitCastExpr>(x)) o["ex"] = true; if (isa<CXXDynamicCastExpr>(x)) o["dyn"] = true; o["e"] = E(x->getSubExpr()); addConst(o, e); }
    else if (auto x = dyn_cast<InitListExpr>(e)) { o["k"] = "list"; Array a; auto s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x); for (auto* i : s->inits()) a.push_back(E(i)); o["a"] = std::move(a); if (s->hasArrayFiller()) o["fill"] = true; }
    else if (auto x = dyn_cast<CXXDefaultArgExpr>(e)) { Value v = E(x->getExpr()); if (auto ob = v.getAsObject()) (*ob)["def"] = true; return v; }
    else if (auto x = dyn_cast<CXXDefaultInitExpr>(e)) { return E(x->getExpr()); }
    else if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { o["k"] = "szof"; addConst(o, e); if (x->isArgumentType()) o["at"] = T(x->getArgumentType()); else { o["e"] = E(x->getArgumentExpr()); o["at"] = T(x->getArgumentExpr()->getType()); } }
    else if (auto x = dyn_cast<LambdaExpr>(e)) { o["k"] = "lambda"; o["body"] = S(x->getBody()); Array ps; for (auto* p : x->getCallOperator()->parameters()) ps.push_back(Object{{"i", local(p)}, {"n", p->getNameAsString()}, {"t", T(p->getType())}}); o["ps"] = std::move(ps); o["fn"] = fid(x->getCallOperator()); }
    else if (auto x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "throw"; o["e"] = E(x->getSubExpr()); }
    else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { o["k"] = "zero"; }
    else if (auto x = dyn_cast<ArrayInitLoopExpr>(e)) { o["k"] = "ailoop"; o["e"] = E(x->getCommonExpr()->getSourceExpr()); }
    else {
      o["k"] = "other"; o["cls"] = e->getStmtClassName(); Array a;
      for (auto* c : e->children()) if (auto ce = dyn_cast_or_null<Expr>(c)) a.push_back(E(ce));
      o["a"] = std::move(a);
    }
    return std::move(o);
  }

  Value V(const VarDecl* v) {
    Object o; o["i"] = local(v); o["n"] = v->getNameAsString(); o["t"] = T(v->getType()); o["l"] = lineOf(v->getLocation());
    if (v->isStaticLocal()) o["st"] = true;
    if (v->getType()->isReferenceType()) o["rf"] = true;
    if (v->getType().isConstQualified()) o["c"] = true;
    if (v->getInit()) o["init"] = E(v->getInit());
    return std::move(o);
  }

  Value S(const Stmt* s) {
    if (!s) return nullptr;
    if (auto x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (auto x = dyn_cast<LabelStmt>(s)) return S(x->getSubStmt());
    if (auto e = dyn_cast<Expr>(s)) { return Object{{"k", "expr"}, {"l", lineOf(s->getBeginLoc())}, {"e", E(e)}}; }
    Object o; o["l"] = lineOf(s->getBeginLoc());
    if (auto x = dyn_cast<CompoundStmt>(s)) { o["k"] = "blk"; Array a; for (auto* c : x->body()) a.push_back(S(c)); o["b"] = std::move(a); o["le"] = lineOf(x->getEndLoc()); }
    else if (auto x = dyn_cast<DeclStmt>(s)) { o["k"] = "decl"; Array a; for (auto* d : x->decls()) if (auto v = dyn_cast<VarDecl>(d)) a.push_back(V(v)); o["v"] = std::move(a); }
    else if (auto x = dyn_cast<IfStmt>(s)) { o["k"] = "if"; if (x->getInit()) o["in"] = S(x->getInit()); if (x->getConditionVariable()) o["cvr"] = V(x->getConditionVariable()); o["c"] = E(x->getCond()); o["th"] = S(x->getThen()); o["el"] = S(x->getElse()); if (x->isConstexpr()) o["cx"] = true; }
    else if (auto x = dyn_cast<ForStmt>(s)) { o["k"] = "for"; o["in"] = S(x->getInit()); o["c"] = E(x->getCond()); o["inc"] = E(x->getInc()); o["b"] = S(x->getBody()); }
    else if (auto x = dyn_cast<CXXForRangeStmt>(s)) { o["k"] = "rfor"; o["v"] = V(x->getLoopVariable()); o["r"] = E(x->getRangeInit()); o["b"] = S(x->getBody()); }
    else if (auto x = dyn_cast<WhileStmt>(s)) { o["k"] = "while"; if (x->getConditionVariable()) o["cvr"] = V(x->getConditionVariable()); o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); }
    else if (auto x = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); }
    else if (auto x = dyn_cast<SwitchStmt>(s)) { o["k"] = "switch"; if (x->getInit()) o["in"] = S(x->getInit()); o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); if (x->isAllEnumCasesCovered()) o["cov"] = true; }
    else if (auto x = dyn_cast<CaseStmt>(s)) { o["k"] = "case"; o["v"] = E(x->getLHS()); o["b"] = S(x->getSubStmt()); }
    else if (auto x = dyn_cast<DefaultStmt>(s)) { o["k"] = "default"; o["b"] = S(x->getSubStmt()); }
    else if (auto x = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; o["e"] = E(x->getRetValue()); }
    else if (isa<BreakStmt>(s)) o["k"] = "break";
    else if (isa<ContinueStmt>(s)) o["k"] = "continue";
    else if (isa<NullStmt>(s)) o["k"] = "nop";
    else if (auto x = dyn_cast<CXXTryStmt>(s)) { o["k"] = "try"; o["b"] = S(x->getTryBlock()); Array a; for (unsigned i = 0; i < x->getNumHandlers(); i++) a.push_back(S(x->getHandler(i)->getHandlerBlock())); o["h"] = std::move(a); }
    else if (isa<GotoStmt>(s)) o["k"] = "goto";
    else { o["k"] = "sother"; o["cls"] = s->getStmtClassName(); }
    return std::move(o);
  }

  bool VisitFunctionDecl(FunctionDecl* f) {
    if (f->isDependentContext() || !f->isThisDeclarationADefinition()) return true;
    if (f->isImplicit()) return true;
    if (!inRoots(f->getLocation())) return true;
    if (!f->hasBody() && !f->isDefaulted() && !f->isDeleted()) return true;
    if (auto m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    std::string id = fid(f);
    bool internal = !f->isExternallyVisible();
    std::string file = fileOf(f->getLocation());
    if (!gSeen.insert("f:" + id + (internal ? "@" + file : "")).second) return true;
    Object o; locals.clear(); nextLocal = 0;
    o["id"] = id; o["q"] = Q(f); o["n"] = f->getNameAsString(); o["file"] = file; o["l"] = lineOf(f->getLocation()); o["le"] = lineOf(f->getEndLoc());
    o["rt"] = T(f->getReturnType());
    if (internal) o["int"] = true;
    Array ps; for (auto* p : f->parameters()) { Object po{{"i", local(p)}, {"n", p->getNameAsString()}, {"t", T(p->getType())}}; if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg()) po["def"] = E(p->getDefaultArg()); ps.push_back(std::move(po)); }
    o["ps"] = std::move(ps);
    std::string kind = "func";
    if (auto m = dyn_cast<CXXMethodDecl>(f)) {
      kind = "method"; o["cls"] = Q(m->getParent()); if (m->isVirtual()) o["virt"] = true; if (m->isConst()) o["const"] = true; if (m->isStatic()) o["static"] = true;
      Array ov; for (auto* b : m->overridden_methods()) ov.push_back(fid(b)); o["ov"] = std::move(ov);
      o["acc"] = (int)m->getAccess();
    }
    if (auto c = dyn_cast<CXXConstructorDecl>(f)) {
      kind = "ctor"; if (c->isCopyConstructor()) o["copy"] = true; if (c->isMoveConstructor()) o["move"] = true; if (c->isDelegatingConstructor()) o["deleg"] = true;
      Array in;
      for (auto* i : c->inits()) {
        Object io; io["l"] = lineOf(i->getSourceLocation()); io["w"] = i->isWritten(); io["e"] = E(i->getInit());
        if (i->isAnyMemberInitializer()) { io["f"] = Q(i->getAnyMember()); io["n"] = i->getAnyMember()->getNameAsString(); }
        else if (i->isBaseInitializer()) io["base"] = T(QualType(i->getBaseClass(), 0));
        else io["del"] = true;
        in.push_back(std::move(io));
      }
      o["in"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(f)) kind = "dtor";
    o["k"] = kind;
    if (f->isDefaulted()) o["dflt"] = true;
    if (f->isDeleted()) o["dlt"] = true;
    if (f->hasBody() && !f->isDefaulted()) o["body"] = S(f->getBody());
    gFuncs.push_back(std::move(o));
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda() || !inRoots(r->getLocation())) return true;
    std::string q = Q(r);
    if (!gSeen.insert("c:" + q).second) return true;
    locals.clear(); nextLocal = 0;
    Object o; o["q"] = q; o["n"] = r->getNameAsString(); o["file"] = fileOf(r->getLocation()); o["l"] = lineOf(r->getLocation());
    if (r->isAbstract()) o["abs"] = true;
    Array bs; for (auto& b : r->bases()) { if (auto d = b.getType()->getAsCXXRecordDecl()) bs.push_back(Q(d)); } o["bases"] = std::move(bs);
    Array fs; for (auto* f : r->fields()) { Object fo{{"n", f->getNameAsString()}, {"t", T(f->getType())}, {"l", lineOf(f->getLocation())}, {"acc", (int)f->getAccess()}}; if (f->hasInClassInitializer()) { if (auto i = f->getInClassInitializer()) fo["init"] = E(i); else fo["initx"] = true; }
      auto ft = f->getType(); if (auto cr = ft->getBaseElementTypeUnsafe()->getAsCXXRecordDecl()) fo["cls"] = Q(cr);
      if (ft->isReferenceType()) fo["rf"] = true; if (ft.isConstQualified()) fo["c"] = true; if (ft->isScalarType() || ft->isEnumeralType()) fo["sc"] = true; fs.push_back(std::move(fo)); }
    o["fields"] = std::move(fs);
    Array ms; for (auto* m : r->methods()) { Object mo{{"id", fid(m)}, {"n", m->getNameAsString()}, {"acc", (int)m->getAccess()}, {"rt", T(m->getReturnType())}}; if (m->isVirtual()) mo["virt"] = true; if (m->isPureVirtual()) mo["pure"] = true; if (m->isDeleted()) mo["dlt"] = true; if (m->isImplicit()) mo["imp"] = true; if (m->isConst()) mo["const"] = true; if (m->isStatic()) mo["static"] = true;
      Array pn; for (auto* p : m->parameters()) pn.push_back(Object{{"n", p->getNameAsString()}, {"t", T(p->getType())}}); mo["ps"] = std::move(pn);
      if (auto c = dyn_cast<CXXConstructorDecl>(m)) { mo["k"] = "ctor"; if (c->isCopyConstructor()) mo["copy"] = true; if (c->isMoveConstructor()) mo["move"] = true; }
      else if (isa<CXXDestructorDecl>(m)) mo["k"] = "dtor"; if (m->isCopyAssignmentOperator()) mo["ca"] = true; if (m->isUserProvided()) mo["up"] = true;
      Array ov; for (auto* b : m->overridden_methods()) ov.push_back(fid(b)); mo["ov"] = std::move(ov); ms.push_back(std::move(mo)); }
    o["methods"] = std::move(ms);
    o["ucc"] = r->hasUserDeclaredCopyConstructor(); o["uca"] = r->hasUserDeclaredCopyAssignment(); o["udtor"] = r->hasUserDeclaredDestructor(); o["umc"] = r->hasUserDeclaredMoveConstructor();
    o["uctor"] = r->hasUserDeclaredConstructor();
    o["simplecc"] = r->hasSimpleCopyConstructor();
    gClasses.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    if (!e->isThisDeclarationADefinition() || !inRoots(e->getLocation())) return true;
    std::string q = Q(e); if (!gSeen.insert("e:" + q).second) return true;
    Array a; for (auto* c : e->enumerators()) a.push_back(Array{c->getNameAsString(), iv(c->getInitVal()), Q(c)});
    gEnums.push_back(Object{{"q", q}, {"file", fileOf(e->getLocation())}, {"l", lineOf(e->getLocation())}, {"e", std::move(a)}});
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (isa<ParmVarDecl>(v) || v->isLocalVarDecl() || v->isTemplated() || !inRoots(v->getLocation())) return true;
    if (v->isThisDeclarationADefinition() == VarDecl::DeclarationOnly && !v->getInit()) return true;
    std::string q = Q(v); if (!gSeen.insert("g:" + q + (v->isExternallyVisible() ? "" : "@" + fileOf(v->getLocation()))).second) return true;
    locals.clear(); nextLocal = 0;
    Object o{{"q", q}, {"n", v->getNameAsString()}, {"t", T(v->getType())}, {"file", fileOf(v->getLocation())}, {"l", lineOf(v->getLocation())}};
    if (v->getType().isConstQualified()) o["c"] = true;
    if (v->getInit()) { o["init"] = E(v->getInit()); if (!v->getInit()->isValueDependent() && v->getType().isConstQualified() && (v->getType()->isIntegralOrEnumerationType() || v->getType()->isFloatingType())) addConst(o, v->getInit()); }
    gGlobals.push_back(std::move(o));
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& C) override { Emitter e(C); e.TraverseDecl(C.getTranslationUnitDecl()); }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};
class Diag : public DiagnosticConsumer {
 public:
  void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic& I) override {
    DiagnosticConsumer::HandleDiagnostic(L, I);
    if (L >= DiagnosticsEngine::Error) { llvm::SmallString<256> m; I.FormatDiagnostic(m); std::string loc; if (I.hasSourceManager() && I.getLocation().isValid()) loc = I.getLocation().printToString(I.getSourceManager()); gErrors.push_back(loc + ": " + m.str().str()); }
  }
};

int main(int argc, char** argv) {
  // extract OUT ROOT[,ROOT] FLAG... -- FILE...
  if (argc < 4) return 64;
  std::string out = argv[1]; std::string roots = argv[2];
  for (size_t p = 0; p <= roots.size();) { size_t c = roots.find(',', p); if (c == std::string::npos) c = roots.size(); gRoots.push_back(roots.substr(p, c - p)); p = c + 1; }
  std::vector<std::string> flags, files; bool after = false;
  for (int i = 3; i < argc; i++) { std::string a = argv[i]; if (a == "--" && !after) { after = true; continue; } (after ? files : flags).push_back(a); }
  tooling::FixedCompilationDatabase db(".", flags);
  int rc = 0;
  for (auto& f : files) {
    tooling::ClangTool tool(db, {f});
    Diag d; tool.setDiagnosticConsumer(&d);
    tool.clearArgumentsAdjusters();
    int r = tool.run(tooling::newFrontendActionFactory<Action>().get());
    gFiles.push_back(Object{{"file", f}, {"rc", r}});
    if (r) rc = 1;
  }
  std::error_code ec; llvm::raw_fd_ostream os(out, ec);
  if (ec) return 65;
  os << Value(Object{{"types", std::move(gTypeList)}, {"funcs", std::move(gFuncs)}, {"classes", std::move(gClasses)}, {"enums", std::move(gEnums)}, {"globals", std::move(gGlobals)}, {"errors", std::move(gErrors)}, {"files", std::move(gFiles)}});
  return rc;
}
