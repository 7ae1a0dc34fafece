// Exports the resolved, typed syntax tree of all functions located under a
// source root as JSON.  usage: exporter <root> <out.json> -- <compiler args> file.cpp
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/VirtualFileSystem.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root, OutFile;

struct Exp {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  std::map<std::string, Object> Funcs;
  Array Records, Enums, Globals;
  std::set<const Decl *> Done;
  Exp(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = Ids.size() + 1;
    Ids[D] = n;
    return n;
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "anon" + std::to_string(id(D));
    return B.str().str();
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str();
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = file(L);
    return f.rfind(Root, 0) == 0;
  }
  Value expr(const Expr *E);
  Value stmt(const Stmt *S);
  Object node(const char *k, const Stmt *S) {
    Object o;
    o["k"] = k;
    if (S && S->getBeginLoc().isValid()) o["l"] = line(S->getBeginLoc());
    return o;
  }
  Value varDecl(const VarDecl *V) {
    Object o;
    o["id"] = id(V);
    o["n"] = V->getNameAsString();
    o["t"] = ty(V->getType());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getInit()) o["init"] = expr(V->getInit());
    o["l"] = line(V->getLocation());
    return o;
  }
  Value args(const Expr *const *A, unsigned N) {
    Array r;
    for (unsigned i = 0; i < N; i++) r.push_back(expr(A[i]));
    return r;
  }
  void calleeInfo(Object &o, const FunctionDecl *F) {
    o["n"] = F->getNameAsString();
    o["q"] = F->getQualifiedNameAsString();
    const FunctionDecl *Def = F;
    if (F->hasBody(Def) || true) {
      const FunctionDecl *D2 = nullptr;
      if (F->hasBody(D2) && D2 && inRoot(D2->getLocation())) {
        o["usr"] = fkey(D2);
        function(D2);
      } else if (inRoot(F->getLocation()))
        o["usr"] = fkey(F);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = M->getParent()->getNameAsString();
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["smeth"] = true;
      if (M->isConst()) o["const"] = true;
    }
    if (F->isNoReturn()) o["noret"] = true;
    Array pt;
    for (auto *P : F->parameters()) pt.push_back(ty(P->getType()));
    o["pt"] = std::move(pt);
  }
  std::string fkey(const FunctionDecl *F) {
    std::string u = usr(F);
    // distinguish instantiations
    if (F->isTemplateInstantiation()) u += "#" + ty(F->getType());
    return u;
  }
  void function(const FunctionDecl *F);
  void record(const CXXRecordDecl *R);
  Object ompDirective(const OMPExecutableDirective *D);
};

static const Expr *strip(const Expr *E) {
  while (E) {
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
    else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
    else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
    else if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
    else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
    else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
    else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
    else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
    else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_FloatingToIntegral: case CK_FloatingToBoolean: case CK_IntegralToBoolean:
      case CK_IntegralToFloating: case CK_IntegralCast: case CK_FloatingCast:
        return E;
      default: E = X->getSubExpr();
      }
    } else break;
  }
  return E;
}

Value Exp::expr(const Expr *E0) {
  const Expr *E = strip(E0);
  if (!E) return nullptr;
  auto T = ty(E->getType());
  auto N = [&](const char *k) { Object o = node(k, E); o["t"] = T; return o; };
  if (auto *X = dyn_cast<IntegerLiteral>(E)) {
    Object o = N("int"); llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
    o["v"] = s.str().str(); return o; }
  if (auto *X = dyn_cast<FloatingLiteral>(E)) {
    Object o = N("flt");
    llvm::StringRef txt = Lexer::getSourceText(CharSourceRange::getTokenRange(X->getSourceRange()), SM, C.getLangOpts());
    llvm::SmallString<40> s; X->getValue().toString(s, 25, 0);
    o["v"] = s.str().str(); o["src"] = txt.str(); return o; }
  if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { Object o = N("bool"); o["v"] = X->getValue(); return o; }
  if (auto *X = dyn_cast<StringLiteral>(E)) { Object o = N("str"); o["v"] = X->getCharByteWidth()==1 ? llvm::json::fixUTF8(X->getString()) : std::string("?"); return o; }
  if (auto *X = dyn_cast<CharacterLiteral>(E)) { Object o = N("int"); o["v"] = std::to_string(X->getValue()); return o; }
  if (isa<CXXNullPtrLiteralExpr>(E)) return N("null");
  if (isa<CXXThisExpr>(E)) return N("this");
  if (auto *X = dyn_cast<DeclRefExpr>(E)) {
    Object o = N("ref"); const ValueDecl *D = X->getDecl();
    o["n"] = D->getNameAsString();
    if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["dk"] = "enum"; llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = s.str().str(); o["q"] = D->getQualifiedNameAsString(); }
    else if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; calleeInfo(o, F); }
    else if (auto *V = dyn_cast<VarDecl>(D)) { o["dk"] = V->isLocalVarDeclOrParm() ? "var" : (V->isStaticDataMember()?"smember":"global"); o["id"] = id(V);
      o["q"] = V->getQualifiedNameAsString();
      if (!V->isLocalVarDeclOrParm()) { const VarDecl* Def; if (const Expr* I = V->getAnyInitializer(Def)) { if (inRoot(V->getLocation())) o["ginit"] = expr(I);
           else { Expr::EvalResult R; if (!I->isValueDependent() && I->EvaluateAsRValue(R, C) && R.Val.isInt()) o["ival"] = llvm::toString(R.Val.getInt(),10); } } } }
    else if (isa<BindingDecl>(D)) { o["dk"] = "binding"; o["id"] = id(D); }
    else { o["dk"] = "other"; o["id"] = id(D); }
    return o; }
  if (auto *X = dyn_cast<MemberExpr>(E)) {
    const ValueDecl *D = X->getMemberDecl();
    Object o = N("mem"); o["n"] = D->getNameAsString(); o["b"] = expr(X->getBase()); o["arrow"] = X->isArrow();
    if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; calleeInfo(o, F); }
    else if (auto *FD = dyn_cast<FieldDecl>(D)) { o["dk"] = "field"; o["cls"] = FD->getParent()->getNameAsString(); }
    else { o["dk"] = "smember"; o["id"] = id(D); o["q"]=D->getQualifiedNameAsString(); }
    return o; }
  if (auto *X = dyn_cast<UnaryOperator>(E)) { Object o = N("un"); std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); if (X->isPostfix()) op = "post" + op; o["op"] = op; o["a"] = expr(X->getSubExpr()); return o; }
  if (auto *X = dyn_cast<CompoundAssignOperator>(E)) { Object o = N("asg"); o["op"] = X->getOpcodeStr().str(); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); o["ct"] = ty(X->getComputationResultType()); return o; }
  if (auto *X = dyn_cast<BinaryOperator>(E)) {
    Object o = N(X->isAssignmentOp() ? "asg" : "bin"); o["op"] = X->getOpcodeStr().str(); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); return o; }
  if (auto *X = dyn_cast<ConditionalOperator>(E)) { Object o = N("cond"); o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr()); return o; }
  if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
  if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { Object o = N("idx"); o["a"] = expr(X->getBase()); o["b"] = expr(X->getIdx()); return o; }
  if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
    Object o = N("call"); o["oper"] = true;
    if (auto *F = X->getDirectCallee()) { calleeInfo(o, F); if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) o["meth"] = true; }
    else o["n"] = std::string("operator") + getOperatorSpelling(X->getOperator());
    o["args"] = args(X->getArgs(), X->getNumArgs()); return o; }
  if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
    Object o = N("call");
    if (auto *M = X->getMethodDecl()) { calleeInfo(o, M);
      o["obj"] = expr(X->getImplicitObjectArgument());
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) { o["arrow"] = ME->isArrow(); if (ME->hasQualifier()) o["qualcall"] = true; }
      o["meth"] = true; 
      if (isa<CXXConversionDecl>(M)) o["conv"] = true; }
    else { o["n"] = "?"; o["fn"] = expr(X->getCallee()); }
    o["args"] = args(X->getArgs(), X->getNumArgs()); return o; }
  if (auto *X = dyn_cast<CallExpr>(E)) {
    Object o = N("call");
    if (auto *F = X->getDirectCallee()) { calleeInfo(o, F); if (isa<CXXMethodDecl>(F)) o["smeth"] = true; }
    else { o["n"] = "?"; o["fn"] = expr(X->getCallee()); }
    o["args"] = args(X->getArgs(), X->getNumArgs()); return o; }
  if (auto *X = dyn_cast<CXXTemporaryObjectExpr>(E)) {
    Object o = N("new_"); o["k"] = "ctor"; auto *K = X->getConstructor(); calleeInfo(o, K); o["args"] = args(X->getArgs(), X->getNumArgs()); return o; }
  if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
    auto *K = X->getConstructor();
    if ((K->isCopyOrMoveConstructor()) && X->getNumArgs() == 1 && X->isElidable()) return expr(X->getArg(0));
    Object o = N("ctor"); calleeInfo(o, K); if (K->isCopyOrMoveConstructor()) o["copy"] = true;
    if (K->isDefaultConstructor()) { o["dflt"] = true; if (X->requiresZeroInitialization()) o["zero"]=true; }
    o["args"] = args(X->getArgs(), X->getNumArgs()); return o; }
  if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { Object o = N("ilist"); o["a"] = expr(X->getSubExpr()); return o; }
  if (auto *X = dyn_cast<InitListExpr>(E)) {
    if (auto *SF = X->getSemanticForm()) X = SF;
    Object o = N("init"); Array a; for (unsigned i = 0; i < X->getNumInits(); i++) a.push_back(expr(X->getInit(i))); o["args"] = std::move(a); return o; }
  if (auto *X = dyn_cast<CXXNewExpr>(E)) { Object o = N("new"); if (X->getInitializer()) o["a"] = expr(X->getInitializer()); return o; }
  if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { Object o = N("delete"); o["a"] = expr(X->getArgument()); return o; }
  if (auto *X = dyn_cast<CXXThrowExpr>(E)) { Object o = N("throw"); o["a"] = expr(X->getSubExpr()); return o; }
  if (auto *X = dyn_cast<LambdaExpr>(E)) {
    Object o = N("lambda");
    const CXXMethodDecl *M = X->getCallOperator();
    Array ps; for (auto *P : M->parameters()) ps.push_back(varDecl(P));
    o["params"] = std::move(ps); o["body"] = stmt(X->getBody()); o["ret"] = ty(M->getReturnType());
    Array cs; unsigned i = 0;
    auto ii = X->capture_init_begin();
    for (auto &Cp : X->captures()) { Object c; if (Cp.capturesThis()) c["this"] = true; else if (Cp.capturesVariable()) { c["id"] = id(Cp.getCapturedVar()); c["byref"] = Cp.getCaptureKind() == LCK_ByRef; c["n"] = Cp.getCapturedVar()->getNameAsString(); if (cast<VarDecl>(Cp.getCapturedVar())->isInitCapture() ) c["init"] = expr(*ii); } cs.push_back(std::move(c)); ++ii; i++; }
    o["caps"] = std::move(cs); 
    if (M->getDescribedFunctionTemplate() || X->isGenericLambda()) o["generic"] = true;
    return o; }
  if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) return N("zero");
  if (auto *X = dyn_cast<ImplicitValueInitExpr>(E)) return N("zero");
  if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) return N("unk");
  if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
    Expr::EvalResult R; Object o = N("int"); if (X->EvaluateAsInt(R, C)) o["v"] = llvm::toString(R.Val.getInt(), 10); else o["v"]="0"; return o; }
  if (auto *X = dyn_cast<CastExpr>(E)) {
    Object o = N("cast"); o["ck"] = X->getCastKindName(); o["ex"] = isa<ExplicitCastExpr>(E); o["a"] = expr(X->getSubExpr());
    o["ft"] = ty(X->getSubExpr()->getType()); return o; }
  if (auto *X = dyn_cast<OMPArraySectionExpr>(E)) { Object o = N("idx"); o["a"] = expr(X->getBase()); return o; }
  {
    Expr::EvalResult R;
    if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) { Object o = N("int"); o["v"] = llvm::toString(R.Val.getInt(), 10); return o; }
  }
  Object o = N("unk"); o["cls"] = E->getStmtClassName(); return o;
}

Object Exp::ompDirective(const OMPExecutableDirective *D) {
  Object o = node("omp", D);
  o["dir"] = llvm::omp::getOpenMPDirectiveName(D->getDirectiveKind()).str();
  Array cl;
  for (auto *Cl : D->clauses()) {
    if (!Cl) continue;
    Object c; c["n"] = llvm::omp::getOpenMPClauseName(Cl->getClauseKind()).str();
    Array vars; bool has = false;
    auto addVars = [&](auto *VC) { has = true; for (auto *E : VC->varlists()) vars.push_back(expr(E)); };
    if (auto *X = dyn_cast<OMPPrivateClause>(Cl)) addVars(X);
    else if (auto *X = dyn_cast<OMPFirstprivateClause>(Cl)) addVars(X);
    else if (auto *X = dyn_cast<OMPLastprivateClause>(Cl)) addVars(X);
    else if (auto *X = dyn_cast<OMPSharedClause>(Cl)) addVars(X);
    else if (auto *X = dyn_cast<OMPReductionClause>(Cl)) { addVars(X); c["op"] = X->getNameInfo().getName().getAsString(); }
    else if (auto *X = dyn_cast<OMPNumThreadsClause>(Cl)) c["e"] = expr(X->getNumThreads());
    else if (auto *X = dyn_cast<OMPIfClause>(Cl)) c["e"] = expr(X->getCondition());
    else if (auto *X = dyn_cast<OMPCollapseClause>(Cl)) c["e"] = expr(X->getNumForLoops());
    else if (auto *X = dyn_cast<OMPDefaultClause>(Cl)) c["op"] = (int)X->getDefaultKind();
    else if (auto *X = dyn_cast<OMPScheduleClause>(Cl)) c["op"] = (int)X->getScheduleKind();
    if (has) c["vars"] = std::move(vars);
    cl.push_back(std::move(c));
  }
  o["clauses"] = std::move(cl);
  if (auto *X = dyn_cast<OMPCriticalDirective>(D)) o["name"] = X->getDirectiveName().getAsString();
  if (D->hasAssociatedStmt()) {
    const Stmt *S = D->getRawStmt();
    while (auto *CS = dyn_cast_or_null<CapturedStmt>(S)) S = CS->getCapturedStmt();
    o["body"] = stmt(S);
  }
  return o;
}

Value Exp::stmt(const Stmt *S) {
  if (!S) return nullptr;
  if (auto *X = dyn_cast<CompoundStmt>(S)) { Object o = node("block", S); Array a; for (auto *B : X->body()) a.push_back(stmt(B)); o["s"] = std::move(a); return o; }
  if (auto *X = dyn_cast<DeclStmt>(S)) {
    Object o = node("decl", S); Array a;
    for (auto *D : X->decls()) {
      if (auto *DD = dyn_cast<DecompositionDecl>(D)) { Object d; d["id"] = id(DD); d["decomp"] = true; d["t"] = ty(DD->getType()); d["init"] = expr(DD->getInit()); Array bs; for (auto *B : DD->bindings()) { Object b; b["id"] = id(B); b["n"] = B->getNameAsString(); bs.push_back(std::move(b)); } d["binds"] = std::move(bs); a.push_back(std::move(d)); }
      else if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(varDecl(V));
    }
    o["v"] = std::move(a); return o; }
  if (auto *X = dyn_cast<IfStmt>(S)) { 
    if (X->isConstexpr()) { auto nd = X->getNondiscardedCase(C); if (nd) { if (*nd) return stmt(*nd); return node("null", S);} }
    Object o = node("if", S); if (X->getInit()) o["init"] = stmt(X->getInit()); if (X->getConditionVariableDeclStmt()) o["cvar"] = stmt(X->getConditionVariableDeclStmt()); o["c"] = expr(X->getCond()); o["a"] = stmt(X->getThen()); if (X->getElse()) o["b"] = stmt(X->getElse()); return o; }
  if (auto *X = dyn_cast<ForStmt>(S)) { Object o = node("for", S); if (X->getInit()) o["init"] = stmt(X->getInit()); if (X->getCond()) o["c"] = expr(X->getCond()); if (X->getInc()) o["inc"] = expr(X->getInc()); o["body"] = stmt(X->getBody()); return o; }
  if (auto *X = dyn_cast<WhileStmt>(S)) { Object o = node("while", S); if (X->getConditionVariableDeclStmt()) o["cvar"] = stmt(X->getConditionVariableDeclStmt()); o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
  if (auto *X = dyn_cast<DoStmt>(S)) { Object o = node("do", S); o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
  if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { Object o = node("rfor", S); if (X->getInit()) o["init"] = stmt(X->getInit()); o["var"] = varDecl(X->getLoopVariable()); 
    // drop the *__begin initialiser, it is implied
    (*o["var"].getAsObject())["init"] = nullptr;
    if (auto *DD = dyn_cast<DecompositionDecl>(X->getLoopVariable())) { Array bs; for (auto *B : DD->bindings()) { Object b; b["id"] = id(B); b["n"] = B->getNameAsString(); bs.push_back(std::move(b)); } (*o["var"].getAsObject())["binds"] = std::move(bs); }
    o["range"] = expr(X->getRangeInit()); o["body"] = stmt(X->getBody()); return o; }
  if (auto *X = dyn_cast<ReturnStmt>(S)) { Object o = node("ret", S); if (X->getRetValue()) o["a"] = expr(X->getRetValue()); return o; }
  if (isa<BreakStmt>(S)) return node("break", S);
  if (isa<ContinueStmt>(S)) return node("continue", S);
  if (isa<NullStmt>(S)) return node("null", S);
  if (auto *X = dyn_cast<SwitchStmt>(S)) { Object o = node("switch", S); if (X->getInit()) o["init"] = stmt(X->getInit()); o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
  if (auto *X = dyn_cast<CaseStmt>(S)) { Object o = node("case", S); Expr::EvalResult R; if (X->getLHS()->EvaluateAsInt(R, C)) o["v"] = llvm::toString(R.Val.getInt(), 10); o["s"] = stmt(X->getSubStmt()); return o; }
  if (auto *X = dyn_cast<DefaultStmt>(S)) { Object o = node("default", S); o["s"] = stmt(X->getSubStmt()); return o; }
  if (auto *X = dyn_cast<OMPCanonicalLoop>(S)) return stmt(X->getLoopStmt());
  if (auto *X = dyn_cast<OMPExecutableDirective>(S)) return ompDirective(X);
  if (auto *X = dyn_cast<CapturedStmt>(S)) return stmt(X->getCapturedStmt());
  if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
  if (auto *X = dyn_cast<CXXTryStmt>(S)) { Object o = node("try", S); o["body"] = stmt(X->getTryBlock()); Array h; for (unsigned i = 0; i < X->getNumHandlers(); i++) h.push_back(stmt(X->getHandler(i)->getHandlerBlock())); o["h"] = std::move(h); return o; }
  if (auto *X = dyn_cast<LabelStmt>(S)) return stmt(X->getSubStmt());
  if (auto *X = dyn_cast<Expr>(S)) { Object o = node("expr", S); o["e"] = expr(X); return o; }
  Object o = node("unk", S); o["cls"] = S->getStmtClassName(); return o;
}

void Exp::function(const FunctionDecl *F) {
  if (F->isDependentContext()) return;
  if (!Done.insert(F->getCanonicalDecl()).second) return;
  const FunctionDecl *Def = nullptr;
  if (!F->hasBody(Def) || !Def) return;
  if (!inRoot(Def->getLocation())) return;
  Object o;
  o["usr"] = fkey(Def); o["n"] = Def->getNameAsString(); o["q"] = Def->getQualifiedNameAsString();
  o["file"] = file(Def->getLocation()); o["line"] = line(Def->getLocation());
  o["ret"] = ty(Def->getReturnType());
  Array ps; for (auto *P : Def->parameters()) ps.push_back(varDecl(P)); o["params"] = std::move(ps);
  if (auto *M = dyn_cast<CXXMethodDecl>(Def)) { o["cls"] = M->getParent()->getNameAsString(); o["static"] = M->isStatic();
    if (M->isVirtual()) o["virt"] = true; o["const"] = M->isConst();
    Array ov; for (auto *P : M->overridden_methods()) ov.push_back(fkey(P)); o["over"] = std::move(ov); }
  if (auto *K = dyn_cast<CXXConstructorDecl>(Def)) {
    Array in; for (auto *I : K->inits()) { Object c; if (I->isMemberInitializer()) c["field"] = I->getMember()->getNameAsString(); else if (I->isBaseInitializer()) c["base"] = ty(QualType(I->getBaseClass(), 0)); c["written"] = I->isWritten(); c["e"] = expr(I->getInit()); in.push_back(std::move(c)); }
    o["inits"] = std::move(in); }
  o["tmpl"] = Def->isTemplateInstantiation();
  std::string key = fkey(Def);
  o["body"] = stmt(Def->getBody());
  Funcs[key] = std::move(o);
}
void Exp::record(const CXXRecordDecl *R) {
  if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
  Object o; o["n"] = R->getNameAsString(); o["q"] = R->getQualifiedNameAsString(); o["file"] = file(R->getLocation()); o["line"] = line(R->getLocation());
  Array bs; for (auto &B : R->bases()) bs.push_back(ty(B.getType())); o["bases"] = std::move(bs);
  Array fs; for (auto *F : R->fields()) { Object f; f["n"] = F->getNameAsString(); f["t"] = ty(F->getType()); f["l"] = line(F->getLocation()); if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer()); fs.push_back(std::move(f)); }
  o["fields"] = std::move(fs);
  Records.push_back(std::move(o));
}

struct V : RecursiveASTVisitor<V> {
  Exp &X;
  V(Exp &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { if (X.inRoot(F->getLocation()) && F->doesThisDeclarationHaveABody() && !F->isDependentContext()) {
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
      X.function(F); } return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (X.inRoot(R->getLocation())) X.record(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { if (X.inRoot(E->getLocation())) { Object o; o["n"] = E->getNameAsString(); Array a; for (auto *C : E->enumerators()) { Object e; e["n"] = C->getNameAsString(); llvm::SmallString<32> s; C->getInitVal().toString(s, 10); e["v"] = s.str().str(); a.push_back(std::move(e)); } o["e"] = std::move(a); X.Enums.push_back(std::move(o)); } return true; }
  bool VisitVarDecl(VarDecl *D) { if (X.inRoot(D->getLocation()) && D->isFileVarDecl() && !D->isStaticDataMember()) X.Globals.push_back(X.varDecl(D)); return true; }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "exporter: parse errors\n"; return; }
    Exp X(C); V v(X); 
    v.TraverseDecl(C.getTranslationUnitDecl());
    Object o; Array fs; for (auto &p : X.Funcs) fs.push_back(std::move(p.second));
    o["functions"] = std::move(fs); o["records"] = std::move(X.Records); o["enums"] = std::move(X.Enums); o["globals"] = std::move(X.Globals);
    std::error_code EC; llvm::raw_fd_ostream os(OutFile, EC); os << Value(std::move(o));
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  Root = argv[1]; OutFile = argv[2];
  std::vector<std::string> A; A.push_back("clang++");
  for (int i = 3; i < argc; i++) A.push_back(argv[i]);
  A.push_back("-fsyntax-only");
  llvm::IntrusiveRefCntPtr<llvm::vfs::FileSystem> FS = llvm::vfs::getRealFileSystem();
  if (const char *ov = getenv("EXPORTER_OVERLAY")) {
    auto O = llvm::makeIntrusiveRefCnt<llvm::vfs::OverlayFileSystem>(FS);
    auto M = llvm::makeIntrusiveRefCnt<llvm::vfs::InMemoryFileSystem>();
    auto B = llvm::MemoryBuffer::getFile(ov);
    if (!B) return 2;
    llvm::SmallVector<llvm::StringRef, 8> L;
    (*B)->getBuffer().split(L, '\n', -1, false);
    for (auto l : L) { auto p = l.split('\t'); auto F = llvm::MemoryBuffer::getFile(p.second); if (!F) return 2; M->addFile(p.first, 0, std::move(*F)); }
    O->pushOverlay(M);
    FS = O;
  }
  auto FM = llvm::makeIntrusiveRefCnt<FileManager>(FileSystemOptions(), FS);
  tooling::ToolInvocation TI(A, std::make_unique<Act>(), FM.get());
  return TI.run() ? 0 : 1;
}
