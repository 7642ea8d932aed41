// LNLib AST extractor: dumps a compact, fully resolved AST (JSON) of every function
// body (including template instantiations) whose definition lies under a given root.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
using json::Array; using json::Object; using json::Value;

static std::vector<std::string> Roots;
static Object Out;

class Dumper {
  ASTContext &C; const SourceManager &SM; PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  std::map<const Decl*, int> Ids; int Next = 1;
public:
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), MC(C.createMangleContext()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.SuppressUnwrittenScope = true;
  }
  std::string ty(QualType T) { if (T.isNull()) return ""; return T.getCanonicalType().getAsString(PP); }
  std::string file(SourceLocation L) { L = SM.getExpansionLoc(L); return SM.getFilename(L).str(); }
  int line(SourceLocation L) { L = SM.getExpansionLoc(L); return SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) { std::string f = file(L); for (auto &r : Roots) if (f.compare(0, r.size(), r) == 0) return true; return false; }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = Ids.find(D); if (it != Ids.end()) return it->second; return Ids[D] = Next++; }
  std::string mangled(const FunctionDecl *F) {
    std::string s; llvm::raw_string_ostream os(s);
    if (F->isDependentContext()) return F->getQualifiedNameAsString();
    if (auto *D = dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(D, Ctor_Complete), os);
    else if (auto *D = dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(D, Dtor_Complete), os);
    else if (MC->shouldMangleDeclName(F)) MC->mangleName(GlobalDecl(F), os);
    else os << F->getNameAsString();
    return os.str();
  }
  Object callee(const FunctionDecl *F) {
    Object o; o["q"] = F->getQualifiedNameAsString(); o["m"] = mangled(F); o["n"] = F->getNameAsString();
    o["repo"] = inRoot(F->getLocation());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["cls"] = M->getParent()->getNameAsString(); if (M->isStatic()) o["static"] = true; if (M->isConst()) o["const"] = true; if (M->isVirtual()) o["virtual"] = true;
      if (F->isImplicit() || F->isDefaulted()) o["implicit"]=true; }
    Array pt; for (auto *P : F->parameters()) pt.push_back(ty(P->getType())); o["pt"] = std::move(pt);
    return o;
  }
  Array exprs(ArrayRef<const Expr*> es) { Array a; for (auto *e : es) a.push_back(expr(e)); return a; }
  template<class R> Array args(R r, unsigned skip = 0) { Array a; unsigned i = 0; for (const Expr *e : r) { if (i++ < skip) continue; a.push_back(expr(e)); } return a; }

  static const Expr *strip(const Expr *E) {
    while (E) {
      const Expr *P = E;
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = X->getSemanticForm();
      else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        if (X->getCastKind() == CK_FloatingToIntegral || X->getCastKind()==CK_IntegralToFloating) break;
        E = X->getSubExpr();
      }
      else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
        // elidable / implicit copy-move of same type
        if ((X->isElidable() || isa<ImplicitCastExpr>(P)) && X->getNumArgs() == 1 && X->getConstructor()->isCopyOrMoveConstructor()) E = X->getArg(0);
      }
      if (E == P) break;
    }
    return E;
  }
  Value expr(const Expr *E0) {
    const Expr *E = strip(E0);
    if (!E) return nullptr;
    Object o; o["l"] = line(E->getExprLoc());
    auto T = [&]{ o["t"] = ty(E->getType()); };
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { o["k"]="Int"; o["v"] = (int64_t)X->getValue().getLimitedValue(INT64_MAX); T(); return o; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { o["k"]="Float"; llvm::SmallString<32> s; X->getValue().toString(s,17); o["v"]=s.str().str(); T(); return o; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"]="Bool"; o["v"]=X->getValue(); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"]="Null"; return o; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { o["k"]="Int"; o["v"]=(int64_t)X->getValue(); o["t"]="char"; return o; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { o["k"]="Str"; o["v"]= X->isOrdinary()? X->getString().str() : std::string("?"); return o; }
    if (isa<CXXThisExpr>(E)) { o["k"]="This"; T(); return o; }
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { Value v = expr(X->getExpr()); if (auto *ob = v.getAsObject()) (*ob)["dflt"]=true; return v; }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { Value v = expr(X->getExpr()); if (auto *ob = v.getAsObject()) (*ob)["dflt"]=true; return v; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl(); T();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["k"]="Enum"; o["n"]=EC->getNameAsString(); o["q"]=EC->getQualifiedNameAsString(); o["v"]=(int64_t)EC->getInitVal().getExtValue(); return o; }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"]="Fn"; o["f"]=callee(F); return o; }
      if (auto *B = dyn_cast<BindingDecl>(D)) { o["k"]="Var"; o["n"]=B->getNameAsString(); o["id"]=id(B); o["binding"]=true; return o; }
      o["k"]="Var"; o["n"]=D->getNameAsString(); o["id"]=id(D);
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->isStaticLocal()) o["slocal"]=true;
        if (V->hasGlobalStorage() && !V->isStaticLocal()) { o["global"]=true; o["q"]=V->getQualifiedNameAsString(); }
        if (isa<ParmVarDecl>(V)) o["parm"]=true;
        if (V->getType().isConstQualified()) o["constq"]=true;
        if (X->refersToEnclosingVariableOrCapture()) o["captured"]=true;
        // constant value of integral/floating constants
        if (V->getType().isConstQualified() && V->getAnyInitializer() && !V->getType()->isDependentType() && V->getType()->isArithmeticType()) {
          Expr::EvalResult R; const VarDecl *DV=nullptr; const Expr *I = V->getAnyInitializer(DV);
          if (I && !I->isValueDependent() && I->EvaluateAsRValue(R, C)) {
            if (R.Val.isInt()) o["cv"]=(int64_t)R.Val.getInt().getExtValue();
            else if (R.Val.isFloat()) o["cv"]=R.Val.getFloat().convertToDouble();
          }
        }
      }
      return o;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl(); T();
      if (auto *V = dyn_cast<VarDecl>(D)) { o["k"]="Var"; o["n"]=V->getNameAsString(); o["id"]=id(V); o["global"]=true; o["q"]=V->getQualifiedNameAsString(); if (V->getType().isConstQualified()) o["constq"]=true; return o; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["k"]="Enum"; o["n"]=EC->getNameAsString(); o["q"]=EC->getQualifiedNameAsString(); o["v"]=(int64_t)EC->getInitVal().getExtValue(); return o; }
      o["k"]="Member"; o["f"]=D->getNameAsString(); if (auto *FD = dyn_cast<FieldDecl>(D)) o["cls"]=FD->getParent()->getNameAsString();
      o["b"]=expr(X->getBase()); if (X->isArrow()) o["arrow"]=true; return o;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { o["k"]="Index"; T(); o["b"]=expr(X->getBase()); o["i"]=expr(X->getIdx()); return o; }
    if (auto *X = dyn_cast<UnaryOperator>(E)) { o["k"]="Un"; o["op"]=UnaryOperator::getOpcodeStr(X->getOpcode()).str(); if (X->isPostfix()) o["post"]=true; T(); o["e"]=expr(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) { o["k"]="Assign"; o["op"]=X->getOpcodeStr().str(); T(); o["a"]=expr(X->getLHS()); o["b"]=expr(X->getRHS()); return o; }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->isAssignmentOp()) { o["k"]="Assign"; } else o["k"]="Bin";
      o["op"]=X->getOpcodeStr().str(); T(); o["a"]=expr(X->getLHS()); o["b"]=expr(X->getRHS()); return o; }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) { o["k"]="Cond"; T(); o["c"]=expr(X->getCond()); o["a"]=expr(X->getTrueExpr()); o["b"]=expr(X->getFalseExpr()); return o; }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"]="OpCall"; o["op"]=getOperatorSpelling(X->getOperator()); T();
      if (auto *F = X->getDirectCallee()) o["f"]=callee(F);
      o["args"]=args(X->arguments()); return o; }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"]="MCall"; T(); if (auto *F = X->getMethodDecl()) { o["f"]=callee(F); }
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts())) { o["b"]=expr(ME->getBase()); if (ME->isArrow()) o["arrow"]=true; }
      else o["b"]=expr(X->getImplicitObjectArgument());
      o["args"]=args(X->arguments()); return o; }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"]="Call"; T(); if (auto *F = X->getDirectCallee()) o["f"]=callee(F); else o["fe"]=expr(X->getCallee());
      o["args"]=args(X->arguments()); return o; }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) { o["k"]="Ctor"; T(); o["f"]=callee(X->getConstructor()); if (X->isListInitialization()) o["list"]=true; if (isa<CXXTemporaryObjectExpr>(E)) o["temp"]=true; o["args"]=args(X->arguments()); return o; }
    if (auto *X = dyn_cast<InitListExpr>(E)) { o["k"]="InitList"; T(); o["args"]=args(X->inits()); return o; }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { o["k"]="ZeroInit"; T(); return o; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { o["k"]="New"; T(); if (X->isArray()) { o["arr"]=true; if (auto s = X->getArraySize()) o["n"]=expr(*s); } if (X->getInitializer()) o["init"]=expr(X->getInitializer()); return o; }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { o["k"]="Delete"; if (X->isArrayForm()) o["arr"]=true; o["e"]=expr(X->getArgument()); return o; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { o["k"]="Throw"; if (X->getSubExpr()) { o["e"]=expr(X->getSubExpr()); o["t"]=ty(X->getSubExpr()->getType()); } return o; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { o["k"]="Sizeof"; T(); if (X->isArgumentType()) o["of"]=ty(X->getArgumentType()); else { o["of"]=ty(X->getArgumentExpr()->getType()); }
      Expr::EvalResult R; if (!E->isValueDependent() && E->EvaluateAsRValue(R,C) && R.Val.isInt()) o["v"]=(int64_t)R.Val.getInt().getExtValue(); return o; }
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) { o["k"]="Cast"; o["ck"]=X->getCastKindName(); o["impl"]=true; T(); o["e"]=expr(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      o["k"]="Cast"; o["ck"]=X->getCastKindName(); T(); if (isa<CXXConstCastExpr>(E)) o["constcast"]=true; else if (isa<CStyleCastExpr>(E)) { o["cstyle"]=true; }
      o["from"]=ty(X->getSubExpr()->getType()); o["e"]=expr(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"]="Lambda"; Array ps; for (auto *P : X->getCallOperator()->parameters()) ps.push_back(param(P)); o["params"]=std::move(ps);
      Array caps; for (auto &c : X->captures()) { if (c.capturesVariable()) { Object co; co["id"]=id(c.getCapturedVar()); co["n"]=c.getCapturedVar()->getNameAsString(); co["byref"]=c.getCaptureKind()==LCK_ByRef; caps.push_back(std::move(co)); } else if (c.capturesThis()) { Object co; co["this"]=true; caps.push_back(std::move(co)); } }
      o["caps"]=std::move(caps); o["ret"]=ty(X->getCallOperator()->getReturnType()); o["opm"]=mangled(X->getCallOperator());
      if (X->getCallOperator()->isDependentContext() || X->isGenericLambda()) o["generic"]=true;
      o["body"]=stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { return expr(X->getCommonExpr()->getSourceExpr()); }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) return expr(X->getSourceExpr()); }
    o["k"]="Unk"; o["c"]=E->getStmtClassName(); T();
    Array ch; for (auto *S : E->children()) if (S) if (auto *e = dyn_cast<Expr>(S)) ch.push_back(expr(e)); o["args"]=std::move(ch);
    return o;
  }
  Object param(const ParmVarDecl *P) { Object o; o["n"]=P->getNameAsString(); o["t"]=ty(P->getType()); o["id"]=id(P); o["l"]=line(P->getLocation()); if (P->hasDefaultArg()) o["dflt"]=true; return o; }
  Object var(const VarDecl *V) {
    Object o; o["n"]=V->getNameAsString(); o["t"]=ty(V->getType()); o["id"]=id(V); o["l"]=line(V->getLocation());
    if (V->getTLSKind()!=VarDecl::TLS_None) o["tls"]=true; if (V->isStaticLocal()) o["static"]=true; if (V->getType().isConstQualified()) o["constq"]=true;
    if (V->getInit()) { o["init"]=expr(V->getInit()); if (V->getInitStyle()==VarDecl::CallInit) o["style"]="call"; else if (V->getInitStyle()==VarDecl::ListInit) o["style"]="list"; else o["style"]="c"; }
    if (auto *D = dyn_cast<DecompositionDecl>(V)) { Array b; for (auto *x : D->bindings()) { Object bo; bo["n"]=x->getNameAsString(); bo["id"]=id(x); bo["t"]=ty(x->getType()); b.push_back(std::move(bo)); } o["bindings"]=std::move(b); }
    return o;
  }
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { Object o; o["k"]="Expr"; o["l"]=line(E->getExprLoc()); o["e"]=expr(E); return o; }
    Object o; o["l"]=line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) { o["k"]="Block"; Array a; for (auto *s : X->body()) a.push_back(stmt(s)); o["s"]=std::move(a); o["le"]=line(X->getRBracLoc()); return o; }
    if (auto *X = dyn_cast<DeclStmt>(S)) { o["k"]="Decl"; Array a; for (auto *d : X->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(var(v)); o["d"]=std::move(a); return o; }
    if (auto *X = dyn_cast<IfStmt>(S)) { o["k"]="If"; if (X->getInit()) o["init"]=stmt(X->getInit()); if (X->getConditionVariable()) o["cvar"]=var(X->getConditionVariable()); o["c"]=expr(X->getCond()); o["a"]=stmt(X->getThen()); if (X->getElse()) o["b"]=stmt(X->getElse()); if (X->isConstexpr()) o["cexpr"]=true; return o; }
    if (auto *X = dyn_cast<ForStmt>(S)) { o["k"]="For"; if (X->getInit()) o["init"]=stmt(X->getInit()); if (X->getCond()) o["c"]=expr(X->getCond()); if (X->getInc()) o["inc"]=expr(X->getInc()); o["body"]=stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<WhileStmt>(S)) { o["k"]="While"; o["c"]=expr(X->getCond()); o["body"]=stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<DoStmt>(S)) { o["k"]="Do"; o["c"]=expr(X->getCond()); o["body"]=stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { o["k"]="RangeFor"; o["v"]=var(X->getLoopVariable()); o["r"]=expr(X->getRangeInit()); o["body"]=stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { o["k"]="Switch"; o["c"]=expr(X->getCond()); o["body"]=stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { o["k"]="Case"; o["v"]=expr(X->getLHS()); o["body"]=stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { o["k"]="Default"; o["body"]=stmt(X->getSubStmt()); return o; }
    if (isa<BreakStmt>(S)) { o["k"]="Break"; return o; }
    if (isa<ContinueStmt>(S)) { o["k"]="Continue"; return o; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { o["k"]="Return"; if (X->getRetValue()) o["e"]=expr(X->getRetValue()); return o; }
    if (isa<NullStmt>(S)) { o["k"]="Null"; return o; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { o["k"]="Try"; o["body"]=stmt(X->getTryBlock()); Array h; for (unsigned i=0;i<X->getNumHandlers();i++) h.push_back(stmt(X->getHandler(i)->getHandlerBlock())); o["h"]=std::move(h); return o; }
    if (auto *X = dyn_cast<LabelStmt>(S)) { o["k"]="Label"; o["n"]=X->getName(); o["body"]=stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<GotoStmt>(S)) { o["k"]="Goto"; o["n"]=X->getLabel()->getNameAsString(); return o; }
    o["k"]="UnkStmt"; o["c"]=S->getStmtClassName(); return o;
  }
  Value function(const FunctionDecl *F) {
    Object o; o["q"]=F->getQualifiedNameAsString(); o["n"]=F->getNameAsString(); o["m"]=mangled(F); o["file"]=file(F->getLocation()); o["l"]=line(F->getLocation());
    o["ret"]=ty(F->getReturnType());
    Array ps; for (auto *P : F->parameters()) ps.push_back(param(P)); o["params"]=std::move(ps);
    if (F->getTemplateInstantiationPattern()) o["inst"]=true;
    if (F->getFormalLinkage()==Linkage::Internal || F->isInAnonymousNamespace()) o["internal"]=true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"]=M->getParent()->getNameAsString(); o["clsq"]=M->getParent()->getQualifiedNameAsString(); if (M->isStatic()) o["static"]=true; if (M->isConst()) o["const"]=true; if (M->isVirtual()) o["virtual"]=true;
      o["access"]= M->getAccess()==AS_public?"public":M->getAccess()==AS_private?"private":"protected";
      Array ov; for (auto *x : M->overridden_methods()) ov.push_back(mangled(x)); if (!ov.empty()) o["overrides"]=std::move(ov);
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"]=true; if (K->isCopyOrMoveConstructor()) o["copyctor"]=true; Array is;
      for (auto *I : K->inits()) { Object io; if (I->isAnyMemberInitializer()) io["f"]=I->getAnyMember()->getNameAsString(); else if (I->isDelegatingInitializer()) io["deleg"]=true; else io["base"]=true; io["written"]=I->isWritten(); io["e"]=expr(I->getInit()); is.push_back(std::move(io)); }
      o["inits"]=std::move(is);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"]=true;
    if (F->isDefaulted()) o["defaulted"]=true;
    o["body"]=stmt(F->getBody()); return o;
  }
  Value record(const CXXRecordDecl *R) {
    Object o; o["q"]=R->getQualifiedNameAsString(); o["n"]=R->getNameAsString(); o["t"]=ty(C.getRecordType(R)); o["file"]=file(R->getLocation()); o["l"]=line(R->getLocation());
    Array fs; for (auto *f : R->fields()) { Object fo; fo["n"]=f->getNameAsString(); fo["t"]=ty(f->getType()); if (f->isMutable()) fo["mut"]=true; if (f->hasInClassInitializer()) { fo["init"]=true; if (f->getInClassInitializer()) fo["ie"]=expr(f->getInClassInitializer()); } fs.push_back(std::move(fo)); } o["fields"]=std::move(fs);
    o["usercopy"]=R->hasUserDeclaredCopyConstructor(); o["userassign"]=R->hasUserDeclaredCopyAssignment(); o["userdtor"]=R->hasUserDeclaredDestructor(); o["usermove"]=R->hasUserDeclaredMoveConstructor();
    bool dc=false; for (auto *K : R->ctors()) if (K->isCopyConstructor() && K->isDeleted()) dc=true; o["copydeleted"]=dc;
    bool da=false; for (auto *M : R->methods()) if (M->isCopyAssignmentOperator() && M->isDeleted()) da=true; o["assigndeleted"]=da;
    Array bs; if (R->hasDefinition()) for (auto &b : R->bases()) bs.push_back(ty(b.getType())); o["bases"]=std::move(bs);
    return o;
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  ASTContext &C; Dumper D; Array Fns, Recs, Enums, Globals; std::set<std::string> Seen; std::set<const void*> SeenR;
  V(ASTContext &C) : C(C), D(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody()) return true;
    if (F->isDependentContext()) return true;
    if (!D.inRoot(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    std::string m = D.mangled(F); if (!Seen.insert(m).second) return true;
    Fns.push_back(D.function(F)); return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda() || !D.inRoot(R->getLocation())) return true;
    if (!SeenR.insert(R->getCanonicalDecl()).second) return true;
    Recs.push_back(D.record(R)); return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !D.inRoot(E->getLocation())) return true;
    Object o; o["q"]=E->getQualifiedNameAsString(); o["n"]=E->getNameAsString(); o["file"]=D.file(E->getLocation()); o["l"]=D.line(E->getLocation());
    Array a; for (auto *c : E->enumerators()) { Object e; e["n"]=c->getNameAsString(); e["v"]=(int64_t)c->getInitVal().getExtValue(); a.push_back(std::move(e)); } o["c"]=std::move(a); Enums.push_back(std::move(o)); return true;
  }
  bool VisitVarDecl(VarDecl *X) {
    if (!X->hasGlobalStorage() || X->isStaticLocal() || !D.inRoot(X->getLocation()) || X->isThisDeclarationADefinition()==VarDecl::DeclarationOnly) return true;
    if (X->getDeclContext()->isDependentContext()) return true;
    Object o = D.var(X); o["q"]=X->getQualifiedNameAsString(); o["file"]=D.file(X->getLocation()); o["isconst"]=X->getType().isConstQualified() || X->isConstexpr(); Globals.push_back(std::move(o)); return true;
  }
};
class Cons : public ASTConsumer { public:
  void HandleTranslationUnit(ASTContext &C) override {
    V v(C); v.TraverseDecl(C.getTranslationUnitDecl());
    Out["functions"]=std::move(v.Fns); Out["records"]=std::move(v.Recs); Out["enums"]=std::move(v.Enums); Out["globals"]=std::move(v.Globals);
    Out["errors"]=(int64_t)C.getDiagnostics().getClient()->getNumErrors();
  } };
class Act : public ASTFrontendAction { public: std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };
// usage: extract <out.json> <root[,root...]> <file> -- flags...
int main(int argc, const char **argv) {
  if (argc < 5) return 2;
  std::string out = argv[1], roots = argv[2], src = argv[3];
  size_t p = 0; while (p <= roots.size()) { size_t q = roots.find(',', p); if (q == std::string::npos) q = roots.size(); Roots.push_back(roots.substr(p, q-p)); p = q+1; }
  std::vector<std::string> fl; int i = 4; if (std::string(argv[i]) == "--") i++; for (; i < argc; i++) fl.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", fl);
  tooling::ClangTool Tool(DB, {src});
  int rc = Tool.run(tooling::newFrontendActionFactory<Act>().get());
  std::error_code ec; llvm::raw_fd_ostream os(out, ec); if (ec) return 3;
  Out["rc"]=rc; Out["src"]=src; os << Value(std::move(Out)); return rc;
}
