// bflx: exports the resolved (type-checked, template-instantiated) program as
// JSON lines: one record per class and per function definition whose source
// lies under a given root.  It decides nothing; the rules live in ../bflsa.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <string>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;
static llvm::raw_fd_ostream *Out;
static int NumErrors = 0;

struct X {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  ASTNameGenerator NG;
  std::set<const Decl *> LambdasSeen;
  std::vector<const CXXMethodDecl *> Lambdas;
  X(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), NG(c) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = false;
    PP.SuppressInlineNamespace = true;
    PP.SuppressDefaultTemplateArgs = true;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    llvm::SmallString<256> R(P.getFilename());
    llvm::sys::path::remove_dots(R, true);
    return std::string(R.str());
  }
  unsigned line(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getSpellingLineNumber(L);
  }
  bool inRoot(SourceLocation L) {
    return llvm::StringRef(file(L)).starts_with(Root);
  }
  std::string fid(const FunctionDecl *F) {
    if (const auto *MD = dyn_cast<CXXMethodDecl>(F))
      if (MD->getParent()->isLambda())
        return "lambda:" + std::to_string((unsigned long)(const void *)MD->getCanonicalDecl());
    return NG.getName(F->getCanonicalDecl());
  }
  std::string qn(const NamedDecl *D) {
    std::string S; llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  std::string clsName(const CXXRecordDecl *R) {
    if (!R) return "";
    return ty(C.getRecordType(R));
  }
  std::string did(const Decl *D) {
    return std::to_string((unsigned long)(const void *)D->getCanonicalDecl());
  }

  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<FullExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        switch (P->getCastKind()) {
        case CK_NoOp: case CK_LValueToRValue: case CK_DerivedToBase:
        case CK_UncheckedDerivedToBase: case CK_FunctionToPointerDecay:
        case CK_ArrayToPointerDecay: case CK_UserDefinedConversion:
        case CK_ConstructorConversion: case CK_BitCast: case CK_BuiltinFnToFnPtr:
        case CK_IntegralToFloating: case CK_FloatingCast:
          E = P->getSubExpr(); break;
        default: return E;
        }
      } else return E;
    }
    return E;
  }

  Object mk(const char *k, const Stmt *S) {
    Object O; O["k"] = k; O["ln"] = (int64_t)line(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) O["t"] = ty(E->getType());
    return O;
  }
  Value args(llvm::ArrayRef<const Expr *> A) {
    Array R; for (auto *E : A) R.push_back(ex(E)); return R;
  }
  template <class It> Value argsr(It B, It Eend) {
    Array R; for (It i = B; i != Eend; ++i) R.push_back(ex(*i)); return R;
  }
  void callee(Object &O, const FunctionDecl *F) {
    O["f"] = fid(F);
    O["qn"] = qn(F);
    O["n"] = F->getNameAsString();
    QualType RT = F->getReturnType();
    O["rref"] = RT->isReferenceType();
    O["frt"] = ty(RT);
    Array PT; for (auto *P : F->parameters()) PT.push_back(ty(P->getType()));
    O["pt"] = std::move(PT);
    if (F->isVariadic()) O["variadic"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = clsName(M->getParent());
      O["const"] = M->isConst();
      O["static"] = M->isStatic();
      O["isvirt"] = M->isVirtual();
    }
    O["inroot"] = inRoot(F->getLocation()) ||
        (F->getTemplateInstantiationPattern() && inRoot(F->getTemplateInstantiationPattern()->getLocation()));
  }

  Value ex(const Expr *E0) {
    const Expr *E = strip(E0);
    if (!E) return nullptr;
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      Object O = mk("ref", E);
      const ValueDecl *V = D->getDecl();
      O["name"] = V->getNameAsString();
      O["id"] = did(V);
      if (auto *EC = dyn_cast<EnumConstantDecl>(V)) {
        O["dk"] = "enum"; O["qn"] = qn(V);
        O["v"] = EC->getInitVal().getExtValue();
      } else if (auto *F = dyn_cast<FunctionDecl>(V)) {
        O["dk"] = "func"; callee(O, F);
      } else if (auto *P = dyn_cast<ParmVarDecl>(V)) {
        O["dk"] = "param"; O["dt"] = ty(P->getType());
      } else if (auto *L = dyn_cast<VarDecl>(V)) {
        O["dk"] = L->isStaticLocal() ? "static" : L->isLocalVarDecl() ? "local" : "global";
        O["dt"] = ty(L->getType()); O["qn"] = qn(V);
        if (!L->isLocalVarDecl() && L->getType().isConstQualified())
          if (const Expr *I = L->getAnyInitializer()) O["init"] = ex(I);
      } else O["dk"] = "other";
      return O;
    }
    if (isa<CXXThisExpr>(E)) return mk("this", E);
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        Object O = mk("member", E);
        O["name"] = F->getNameAsString();
        O["owner"] = clsName(dyn_cast<CXXRecordDecl>(F->getParent()));
        O["ft"] = ty(F->getType());
        O["arrow"] = M->isArrow();
        O["b"] = ex(M->getBase());
        return O;
      }
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) {
        Object O = mk("ref", E); O["dk"] = "global"; O["name"] = V->getNameAsString();
        O["id"] = did(V); O["qn"] = qn(V); O["dt"] = ty(V->getType()); return O;
      }
      Object O = mk("memfn", E); O["name"] = M->getMemberDecl()->getNameAsString();
      O["b"] = ex(M->getBase()); return O;
    }
    if (auto *L = dyn_cast<IntegerLiteral>(E)) {
      Object O = mk("lit", E); O["v"] = (int64_t)L->getValue().getLimitedValue(); return O; }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) {
      Object O = mk("flit", E); llvm::SmallString<32> S; L->getValue().toString(S); O["v"] = std::string(S.str()); return O; }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) {
      Object O = mk("blit", E); O["v"] = L->getValue(); return O; }
    if (auto *L = dyn_cast<CharacterLiteral>(E)) {
      Object O = mk("lit", E); O["v"] = (int64_t)L->getValue(); return O; }
    if (auto *L = dyn_cast<StringLiteral>(E)) {
      Object O = mk("str", E); if (L->isOrdinary()) O["v"] = L->getString().str(); return O; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk("null", E);
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      Object O = mk("un", E); O["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      O["post"] = U->isPostfix(); O["e"] = ex(U->getSubExpr()); return O; }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      Object O = mk(B->isAssignmentOp() ? "assign" : "bin", E);
      O["op"] = B->getOpcodeStr().str();
      O["l"] = ex(B->getLHS()); O["r"] = ex(B->getRHS());
      O["lt"] = ty(B->getLHS()->getType());
      O["rt"] = ty(B->getRHS()->getType());
      return O; }
    if (auto *K = dyn_cast<ConditionalOperator>(E)) {
      Object O = mk("cond", E); O["c"] = ex(K->getCond()); O["a"] = ex(K->getTrueExpr()); O["b"] = ex(K->getFalseExpr()); return O; }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
      Object O = mk("index", E); O["b"] = ex(A->getBase()); O["i"] = ex(A->getIdx()); return O; }
    if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) {
      const FunctionDecl *F = OC->getDirectCallee();
      if (!F) return mk("unk", E);
      Object O = mk("call", E); callee(O, F);
      O["op"] = true;
      if (auto *MD = dyn_cast<CXXMethodDecl>(F)) if (!MD->isStatic()) {
        O["obj"] = ex(OC->getArg(0));
        O["objt"] = ty(OC->getArg(0)->IgnoreParenImpCasts()->getType());
        O["virt"] = MD->isVirtual();
        O["args"] = argsr(OC->arg_begin() + 1, OC->arg_end());
        return O;
      }
      O["args"] = argsr(OC->arg_begin(), OC->arg_end());
      return O;
    }
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
      const CXXMethodDecl *F = MC->getMethodDecl();
      if (!F) return mk("unk", E);
      Object O = mk("call", E); callee(O, F);
      O["obj"] = ex(MC->getImplicitObjectArgument());
      O["objt"] = ty(MC->getImplicitObjectArgument()->IgnoreParenImpCasts()->getType());
      auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens());
      O["arrow"] = ME && ME->isArrow();
      O["virt"] = F->isVirtual() && !(ME && ME->hasQualifier());
      O["args"] = argsr(MC->arg_begin(), MC->arg_end());
      return O;
    }
    if (auto *CE = dyn_cast<CallExpr>(E)) {
      const FunctionDecl *F = CE->getDirectCallee();
      Object O = mk("call", E);
      if (!F) { O["k"] = "icall"; O["callee"] = ex(CE->getCallee()); }
      else callee(O, F);
      O["args"] = argsr(CE->arg_begin(), CE->arg_end());
      return O;
    }
    if (auto *K = dyn_cast<CXXConstructExpr>(E)) {
      Object O = mk("construct", E);
      const CXXConstructorDecl *CD = K->getConstructor();
      callee(O, CD);
      O["copy"] = CD->isCopyOrMoveConstructor();
      O["deflt"] = CD->isDefaultConstructor();
      O["triv"] = CD->isTrivial();
      O["implicit"] = CD->isImplicit() || CD->isDefaulted();
      O["elide"] = K->isElidable();
      O["args"] = argsr(K->arg_begin(), K->arg_end());
      return O;
    }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      Object O = mk("new", E); O["at"] = ty(N->getAllocatedType());
      if (N->isArray()) { O["arr"] = true; if (auto S = N->getArraySize()) O["size"] = ex(*S); }
      if (N->getInitializer()) O["init"] = ex(N->getInitializer());
      return O; }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E)) {
      Object O = mk("delete", E); O["e"] = ex(D->getArgument()); O["arr"] = D->isArrayForm();
      O["dt"] = ty(D->getDestroyedType()); return O; }
    if (auto *I = dyn_cast<InitListExpr>(E)) {
      Object O = mk("initlist", E); Array A; for (unsigned i = 0; i < I->getNumInits(); ++i) A.push_back(ex(I->getInit(i)));
      O["e"] = std::move(A); return O; }
    if (auto *V = dyn_cast<CXXScalarValueInitExpr>(E)) { Object O = mk("lit", E); O["v"] = 0; return O; }
    if (auto *V = dyn_cast<ImplicitValueInitExpr>(E)) { Object O = mk("lit", E); O["v"] = 0; return O; }
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      Object O = mk("lambda", E);
      const CXXMethodDecl *M = L->getCallOperator();
      O["f"] = fid(M);
      Array Caps;
      for (auto It = L->capture_begin(); It != L->capture_end(); ++It) {
        Object CO; CO["byref"] = It->getCaptureKind() == LCK_ByRef;
        if (It->capturesThis()) CO["this"] = true;
        else if (It->capturesVariable()) CO["id"] = did(It->getCapturedVar());
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      if (LambdasSeen.insert(M).second) Lambdas.push_back(M);
      return O;
    }
    if (auto *K = dyn_cast<CastExpr>(E)) {
      Object O = mk("cast", E); O["ck"] = K->getCastKindName(); O["e"] = ex(K->getSubExpr());
      O["st"] = ty(K->getSubExpr()->getType());
      if (isa<CXXDynamicCastExpr>(K)) O["dyn"] = true;
      if (!isa<ImplicitCastExpr>(K)) O["explicit"] = true;
      return O; }
    if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { return mk("sizeof", E); }
    if (isa<CXXThrowExpr>(E)) { Object O = mk("throw", E); return O; }
    if (auto *I = dyn_cast<CXXInheritedCtorInitExpr>(E)) return mk("unk", E);
    if (auto *R = dyn_cast<RecoveryExpr>(E)) { Object O = mk("unk", E); O["recovery"] = true; return O; }
    Object O = mk("unk", E); O["cls"] = E->getStmtClassName();
    Array Ch; for (auto *c : E->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) Ch.push_back(ex(ce));
    O["ch"] = std::move(Ch);
    return O;
  }

  Value var(const VarDecl *V) {
    Object O; O["k"] = "var"; O["ln"] = (int64_t)line(V->getBeginLoc());
    O["id"] = did(V); O["name"] = V->getNameAsString(); O["t"] = ty(V->getType());
    O["static"] = V->isStaticLocal();
    if (V->getInit()) O["init"] = ex(V->getInit());
    return O;
  }

  void gvar(const VarDecl *G) {
    Value v = var(G); Object O = *v.getAsObject();
    O["rec"] = "gvar"; O["qn"] = G->getQualifiedNameAsString(); O["const"] = G->getType().isConstQualified(); O["file"] = file(G->getLocation());
    *Out << Value(std::move(O)) << "\n";
  }
  Value st(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { Object O = mk("expr", S); O["e"] = ex(E); return O; }
    if (auto *K = dyn_cast<CompoundStmt>(S)) { Object O = mk("block", S); Array A; for (auto *c : K->body()) A.push_back(st(c)); O["s"] = std::move(A); return O; }
    if (auto *D = dyn_cast<DeclStmt>(S)) { Object O = mk("decl", S); Array A;
      for (auto *d : D->decls()) if (auto *V = dyn_cast<VarDecl>(d)) A.push_back(var(V)); O["d"] = std::move(A); return O; }
    if (auto *I = dyn_cast<IfStmt>(S)) { Object O = mk("if", S);
      if (I->getInit()) O["init"] = st(I->getInit());
      if (I->getConditionVariable()) O["cv"] = var(I->getConditionVariable());
      O["c"] = ex(I->getCond()); O["a"] = st(I->getThen()); if (I->getElse()) O["b"] = st(I->getElse()); return O; }
    if (auto *F = dyn_cast<ForStmt>(S)) { Object O = mk("for", S);
      O["init"] = st(F->getInit()); O["c"] = F->getCond() ? ex(F->getCond()) : Value(nullptr);
      O["inc"] = F->getInc() ? ex(F->getInc()) : Value(nullptr); O["body"] = st(F->getBody()); return O; }
    if (auto *W = dyn_cast<WhileStmt>(S)) { Object O = mk("while", S);
      if (W->getConditionVariable()) O["cv"] = var(W->getConditionVariable());
      O["c"] = ex(W->getCond()); O["body"] = st(W->getBody()); return O; }
    if (auto *W = dyn_cast<DoStmt>(S)) { Object O = mk("do", S); O["c"] = ex(W->getCond()); O["body"] = st(W->getBody()); return O; }
    if (auto *R = dyn_cast<CXXForRangeStmt>(S)) { Object O = mk("rangefor", S);
      O["range"] = ex(R->getRangeInit());
      O["v"] = var(R->getLoopVariable()); O["body"] = st(R->getBody()); return O; }
    if (auto *W = dyn_cast<SwitchStmt>(S)) { Object O = mk("switch", S); O["c"] = ex(W->getCond()); O["body"] = st(W->getBody()); return O; }
    if (auto *K = dyn_cast<CaseStmt>(S)) { Object O = mk("case", S); O["v"] = ex(K->getLHS()); O["s"] = st(K->getSubStmt()); return O; }
    if (auto *K = dyn_cast<DefaultStmt>(S)) { Object O = mk("default", S); O["s"] = st(K->getSubStmt()); return O; }
    if (isa<BreakStmt>(S)) return mk("break", S);
    if (isa<ContinueStmt>(S)) return mk("continue", S);
    if (auto *R = dyn_cast<ReturnStmt>(S)) { Object O = mk("return", S); if (R->getRetValue()) O["e"] = ex(R->getRetValue()); return O; }
    if (isa<NullStmt>(S)) return mk("nop", S);
    if (auto *A = dyn_cast<AttributedStmt>(S)) return st(A->getSubStmt());
    if (auto *T = dyn_cast<CXXTryStmt>(S)) { Object O = mk("try", S); O["body"] = st(T->getTryBlock()); 
      Array H; for (unsigned i=0;i<T->getNumHandlers();++i) H.push_back(st(T->getHandler(i)->getHandlerBlock())); O["h"]=std::move(H); return O; }
    Object O = mk("unkst", S); O["cls"] = S->getStmtClassName(); return O;
  }

  void fn(const FunctionDecl *F, bool lambda = false) {
    Object O; O["rec"] = "fn"; O["id"] = fid(F); O["qn"] = qn(F); O["n"] = F->getNameAsString();
    O["file"] = file(F->getLocation()); O["ln"] = (int64_t)line(F->getLocation());
    O["rt"] = ty(F->getReturnType());
    O["rref"] = F->getReturnType()->isReferenceType();
    Array P; for (auto *p : F->parameters()) { Object q; q["name"] = p->getNameAsString(); q["id"] = did(p); q["t"] = ty(p->getType());
      q["hasdef"] = p->hasDefaultArg(); P.push_back(std::move(q)); }
    O["params"] = std::move(P);
    O["implicit"] = F->isImplicit() || F->isDefaulted();
    O["storage"] = (F->getStorageClass() == SC_Static);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = clsName(M->getParent()); O["const"] = M->isConst(); O["virt"] = M->isVirtual(); O["static"] = M->isStatic();
      O["access"] = (int64_t)M->getAccess();
      Array Ov; for (auto *o : M->overridden_methods()) Ov.push_back(fid(o)); O["over"] = std::move(Ov);
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      O["kind"] = "ctor"; O["copy"] = K->isCopyConstructor(); O["move"] = K->isMoveConstructor(); O["deflt"] = K->isDefaultConstructor();
      Array I;
      for (auto *in : K->inits()) { Object q; q["ln"] = (int64_t)line(in->getSourceLocation()); q["written"] = in->isWritten();
        if (in->isBaseInitializer()) q["base"] = ty(QualType(in->getBaseClass(), 0));
        else if (in->isDelegatingInitializer()) q["deleg"] = true;
        else if (in->isAnyMemberInitializer()) { q["field"] = in->getAnyMember()->getNameAsString(); q["ft"] = ty(in->getAnyMember()->getType());
          q["owner"] = clsName(dyn_cast<CXXRecordDecl>(in->getAnyMember()->getParent())); }
        q["e"] = ex(in->getInit()); I.push_back(std::move(q)); }
      O["inits"] = std::move(I);
    } else if (isa<CXXDestructorDecl>(F)) O["kind"] = "dtor";
    else if (isa<CXXConversionDecl>(F)) O["kind"] = "conv";
    else O["kind"] = "fn";
    O["body"] = st(F->getBody());
    *Out << Value(std::move(O)) << "\n";
    while (!Lambdas.empty()) { auto *M = Lambdas.back(); Lambdas.pop_back(); if (M->getBody()) fn(M, true); }
  }

  std::set<const CXXRecordDecl *> ClsSeen;
  void need(const CXXRecordDecl *R) {
    if (!R) return;
    R = R->getDefinition();
    if (!R || R->isDependentContext() || R->isLambda() || !ClsSeen.insert(R).second) return;
    SourceLocation L = R->getLocation();
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) L = S->getSpecializedTemplate()->getLocation();
    if (!inRoot(L)) return;
    cls(R);
    for (auto &b : R->bases()) need(b.getType()->getAsCXXRecordDecl());
  }
  void cls(const CXXRecordDecl *R) {
    Object O; O["rec"] = "cls"; O["name"] = clsName(R); O["file"] = file(R->getLocation()); O["ln"] = (int64_t)line(R->getLocation());
    Array B; for (auto &b : R->bases()) B.push_back(ty(b.getType())); O["bases"] = std::move(B);
    Array F; for (auto *f : R->fields()) { Object q; q["name"] = f->getNameAsString(); q["t"] = ty(f->getType()); q["mutable"] = f->isMutable();
      q["access"] = (int64_t)f->getAccess(); q["ln"] = (int64_t)line(f->getLocation());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) q["init"] = ex(f->getInClassInitializer());
      F.push_back(std::move(q)); }
    O["fields"] = std::move(F);
    Array M; for (auto *m : R->methods()) { Object q; q["id"] = fid(m); q["n"] = m->getNameAsString(); q["virt"] = m->isVirtual(); q["pure"] = m->isPureVirtual();
      q["implicit"] = m->isImplicit(); q["deleted"] = m->isDeleted(); q["const"] = m->isConst(); q["access"] = (int64_t)m->getAccess(); q["static"] = m->isStatic();
      q["rt"] = ty(m->getReturnType()); q["ln"] = (int64_t)line(m->getLocation());
      Array P; for (auto *p : m->parameters()) P.push_back(ty(p->getType())); q["pt"] = std::move(P);
      Array Ov; for (auto *o : m->overridden_methods()) Ov.push_back(fid(o)); q["over"] = std::move(Ov);
      if (auto *K = dyn_cast<CXXConstructorDecl>(m)) q["kind"] = K->isCopyConstructor() ? "copyctor" : K->isMoveConstructor() ? "movector" : "ctor";
      else if (isa<CXXDestructorDecl>(m)) q["kind"] = "dtor";
      else if (m->isCopyAssignmentOperator()) q["kind"] = "copyassign";
      else if (m->isMoveAssignmentOperator()) q["kind"] = "moveassign";
      else q["kind"] = "fn";
      M.push_back(std::move(q)); }
    O["methods"] = std::move(M);
    O["abstract"] = R->isAbstract();
    O["implicit_copyctor"] = R->hasSimpleCopyConstructor() || R->needsImplicitCopyConstructor();
    *Out << Value(std::move(O)) << "\n";
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  X x;
  V(ASTContext &C) : x(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() && !(F->isDefaulted() && F->getBody())) return true;
    if (!F->doesThisDeclarationHaveABody()) return true;
    if (F->isDependentContext()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (!x.inRoot(F->getLocation()) && F->getQualifiedNameAsString().rfind("bflsa_driver::", 0) != 0) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) x.need(M->getParent());
    x.fn(F);
    return true;
  }
  bool VisitVarDecl(VarDecl *G) {
    if (G->isLocalVarDeclOrParm() || !G->isThisDeclarationADefinition() || G->getDeclContext()->isDependentContext() || !x.inRoot(G->getLocation())) return true;
    if (isa<VarTemplateDecl>(G) || G->getType()->isDependentType()) return true;
    x.gvar(G);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !R->isCompleteDefinition() || R->isDependentContext() || R->isLambda()) return true;
    x.need(R);
    return true;
  }
};

class Cons : public ASTConsumer {
  CompilerInstance &CI;
public:
  Cons(CompilerInstance &c) : CI(c) {}
  void HandleTranslationUnit(ASTContext &C) override {
    V v(C); v.TraverseDecl(C.getTranslationUnitDecl());
    NumErrors = CI.getDiagnostics().getClient()->getNumErrors();
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Cons>(CI);
  }
};

int main(int argc, const char **argv) {
  // bflx ROOT OUT SRC -- flags...
  if (argc < 5) return 64;
  Root = argv[1];
  std::error_code EC; llvm::raw_fd_ostream OS(argv[2], EC); if (EC) return 65; Out = &OS;
  std::vector<std::string> Flags; for (int i = 5; i < argc; ++i) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool T(DB, {std::string(argv[3])});
  T.run(tooling::newFrontendActionFactory<Act>().get());
  Object O; O["rec"] = "end"; O["errors"] = NumErrors;
  *Out << Value(std::move(O)) << "\n";
  return 0;
}
