// extract: dumps the resolved program (types, records, functions with their
// bodies, all template instances) of the files under a given source root as JSON.
//   extract OUT.json ROOT HARNESSDIR main.cpp -- <clang args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::string OutFile, Root, HarnessDir;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Array Types;
  std::map<const void *, int> TypeIds;
  std::map<const CXXRecordDecl *, int> RecIds;
  json::Object Records, Functions, Vars;
  std::deque<const CXXRecordDecl *> RecWork;
  std::map<const FunctionDecl *, int> FunIds;
  std::deque<const FunctionDecl *> FunWork;
  std::map<const Decl *, int> DeclIds;
  std::map<const LambdaExpr *, int> LamSeen;
  json::Array Usings;
  int nextFun = 0, nextRec = 0, nextDecl = 0;

  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = true;
    PP.SuppressInlineNamespace = true;
    PP.SuppressDefaultTemplateArgs = true;
    PP.Bool = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return "";
    std::string n = FE->getFileEntry().tryGetRealPathName().str();
    if (n.empty()) n = FE->getName().str();
    return n;
  }
  std::string rel(const std::string &f) {
    if (llvm::StringRef(f).starts_with(Root + "/")) return f.substr(Root.size() + 1);
    return f;
  }
  int line(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return L.isValid() ? (int)SM.getExpansionLineNumber(L) : 0;
  }
  bool inRepo(SourceLocation L) {
    std::string f = fileOf(L);
    return llvm::StringRef(f).starts_with(Root + "/") || (!HarnessDir.empty() && llvm::StringRef(f).starts_with(HarnessDir + "/"));
  }
  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = DeclIds.find(D);
    if (it != DeclIds.end()) return it->second;
    return DeclIds[D] = ++nextDecl;
  }
  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }
  int recId(const CXXRecordDecl *R) {
    if (R->hasDefinition()) R = R->getDefinition();
    else R = R->getCanonicalDecl();
    auto it = RecIds.find(R);
    if (it != RecIds.end()) return it->second;
    int id = RecIds[R] = ++nextRec;
    RecWork.push_back(R);
    return id;
  }
  int funId(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D) && D) F = D;
    F = F->getCanonicalDecl();
    auto it = FunIds.find(F);
    if (it != FunIds.end()) return it->second;
    int id = FunIds[F] = ++nextFun;
    FunWork.push_back(F);
    return id;
  }
  json::Value targ(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type: return json::Object{{"t", type(A.getAsType())}};
    case TemplateArgument::Integral: return json::Object{{"i", (int64_t)A.getAsIntegral().getExtValue()}};
    case TemplateArgument::Pack: {
      json::Array a;
      for (auto &x : A.pack_elements()) a.push_back(targ(x));
      return json::Object{{"p", std::move(a)}};
    }
    default: return json::Object{};
    }
  }
  int type(QualType Q) {
    Q = Q.getCanonicalType();
    auto it = TypeIds.find(Q.getAsOpaquePtr());
    if (it != TypeIds.end()) return it->second;
    int id = (int)Types.size();
    TypeIds[Q.getAsOpaquePtr()] = id;
    Types.push_back(nullptr);
    json::Object o;
    o["s"] = Q.getAsString(PP);
    if (Q.isConstQualified()) o["c"] = true;
    const Type *T = Q.getTypePtr();
    if (T->isBooleanType()) { o["k"] = "bool"; }
    else if (auto *E = T->getAs<EnumType>()) {
      o["k"] = "enum"; o["n"] = qname(E->getDecl());
      json::Array vs;
      for (auto *c : E->getDecl()->enumerators())
        vs.push_back(json::Array{c->getNameAsString(), (int64_t)c->getInitVal().getExtValue()});
      o["v"] = std::move(vs);
      if (E->getDecl()->isComplete()) { o["b"] = (int64_t)C.getTypeSize(E->getDecl()->getIntegerType()); o["u"] = E->getDecl()->getIntegerType()->isUnsignedIntegerType(); }
    }
    else if (T->isIntegerType()) { o["k"] = "int"; o["b"] = (int64_t)C.getTypeSize(T); o["u"] = T->isUnsignedIntegerType(); if (T->isAnyCharacterType()) o["ch"] = true; }
    else if (T->isFloatingType()) o["k"] = "float";
    else if (T->isVoidType()) o["k"] = "void";
    else if (T->isNullPtrType()) o["k"] = "nullptr";
    else if (T->isPointerType()) { o["k"] = "ptr"; o["to"] = type(T->getPointeeType()); }
    else if (T->isReferenceType()) { o["k"] = "ref"; o["to"] = type(T->getPointeeType()); o["rv"] = T->isRValueReferenceType(); }
    else if (T->isFunctionType()) o["k"] = "func";
    else if (T->isMemberPointerType()) o["k"] = "memptr";
    else if (auto *A = C.getAsConstantArrayType(Q)) { o["k"] = "array"; o["to"] = type(A->getElementType()); o["n"] = (int64_t)A->getSize().getZExtValue(); }
    else if (auto *R = T->getAsCXXRecordDecl()) {
      o["k"] = "rec"; o["n"] = qname(R); o["r"] = recId(R);
      if (R->isLambda()) o["lam"] = true;
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        json::Array a;
        for (auto &x : S->getTemplateArgs().asArray()) a.push_back(targ(x));
        o["a"] = std::move(a);
      }
    }
    else o["k"] = "other";
    Types[id] = std::move(o);
    return id;
  }

  json::Object var(const VarDecl *V) {
    json::Object o{{"id", declId(V)}, {"n", V->getNameAsString()}, {"t", type(V->getType())}, {"l", line(V->getLocation())}};
    if (V->isStaticLocal()) o["static"] = true;
    if (V->hasInit() && !isa<ParmVarDecl>(V)) o["init"] = expr(V->getInit());
    return o;
  }

  // ---------------------------------------------------------------- expressions
  json::Value null() { return nullptr; }
  json::Array exprs(llvm::ArrayRef<Expr *> es) { json::Array a; for (auto *e : es) a.push_back(expr(e)); return a; }
  template <class R> json::Array exprsR(R r) { json::Array a; for (auto *e : r) a.push_back(expr(cast<Expr>(e))); return a; }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    json::Value v = expr1(E);
    if (auto *o = v.getAsObject()) {
      if (!o->get("t")) (*o)["t"] = type(E->getType());
      if (!o->get("l")) (*o)["l"] = line(E->getExprLoc());
      if (E->isGLValue()) (*o)["lv"] = true;
    }
    return v;
  }
  json::Object callee(const FunctionDecl *F) {
    json::Object o;
    o["f"] = funId(F);
    o["n"] = qname(F);
    o["sn"] = F->getNameAsString();
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto &x : TA->asArray()) a.push_back(targ(x));
      o["ta"] = std::move(a);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qname(M->getParent());
      if (M->isStatic()) o["static"] = true;
    }
    return o;
  }
  json::Value expr1(const Expr *E) {
    // transparent nodes
    if (auto *x = dyn_cast<ParenExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<ConstantExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<ExprWithCleanups>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(x->getReplacement());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(E)) return expr(x->getExpr());
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(E)) return expr(x->getExpr());
    if (auto *x = dyn_cast<OpaqueValueExpr>(E)) return expr(x->getSourceExpr());
    if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(x->getSemanticForm());
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) return json::Object{{"k", "mat"}, {"e", expr(x->getSubExpr())}};
    // literals
    if (auto *x = dyn_cast<IntegerLiteral>(E)) return json::Object{{"k", "int"}, {"v", lit(x->getValue(), x->getType())}};
    if (auto *x = dyn_cast<CharacterLiteral>(E)) { int64_t v = x->getValue(); if (C.getTypeSize(x->getType()) == 8 && x->getType()->isSignedIntegerType()) v = (int8_t)v; return json::Object{{"k", "int"}, {"v", v}}; }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(E)) return json::Object{{"k", "int"}, {"v", (int64_t)x->getValue()}};
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return json::Object{{"k", "null"}};
    if (auto *x = dyn_cast<FloatingLiteral>(E)) return json::Object{{"k", "float"}, {"v", x->getValueAsApproximateDouble()}};
    if (auto *x = dyn_cast<StringLiteral>(E)) {
      json::Array b;
      if (x->getCharByteWidth() == 1) for (unsigned char c : x->getBytes()) b.push_back((int64_t)(signed char)c);
      return json::Object{{"k", "str"}, {"v", std::move(b)}};
    }
    if (auto *x = dyn_cast<PredefinedExpr>(E)) return json::Object{{"k", "str"}, {"v", json::Array{}}};
    // constants of integral type
    if (E->isPRValue() && (E->getType()->isIntegralOrEnumerationType()) && !E->isValueDependent() && !E->isTypeDependent()) {
      bool isRefToLocal = false;
      Expr::EvalResult R;
      if (!isRefToLocal && E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && R.Val.isInt()) {
        json::Object o{{"k", "int"}, {"v", lit(R.Val.getInt(), E->getType())}};
        if (auto *CE = dyn_cast<ImplicitCastExpr>(E)) if (auto *D = dyn_cast<DeclRefExpr>(CE->IgnoreParenImpCasts())) o["cn"] = D->getDecl()->getNameAsString();
        if (auto *D = dyn_cast<DeclRefExpr>(E)) o["cn"] = D->getDecl()->getNameAsString();
        return o;
      }
    }
    if (auto *x = dyn_cast<DeclRefExpr>(E)) {
      auto *D = x->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { auto o = callee(F); o["k"] = "fref"; return o; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) return json::Object{{"k", "int"}, {"v", (int64_t)EC->getInitVal().getExtValue()}, {"cn", EC->getNameAsString()}};
      json::Object o{{"k", "ref"}, {"id", declId(D)}, {"n", D->getNameAsString()}, {"dt", type(D->getType())}};
      if (auto *V = dyn_cast<VarDecl>(D)) if (V->hasGlobalStorage()) { o["g"] = qname(V); if (!V->isStaticLocal()) global(V); }
      if (x->refersToEnclosingVariableOrCapture()) o["cap"] = true;
      return o;
    }
    if (isa<CXXThisExpr>(E)) return json::Object{{"k", "this"}};
    if (auto *x = dyn_cast<MemberExpr>(E)) {
      auto *D = x->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D))
        return json::Object{{"k", "mem"}, {"b", expr(x->getBase())}, {"arrow", x->isArrow()}, {"fn", F->getNameAsString()}, {"fi", (int64_t)F->getFieldIndex()}, {"fr", recId(cast<CXXRecordDecl>(F->getParent()))}, {"dt", type(F->getType())}};
      if (auto *V = dyn_cast<VarDecl>(D)) { global(V); return json::Object{{"k", "ref"}, {"id", declId(V)}, {"n", V->getNameAsString()}, {"g", qname(V)}, {"dt", type(V->getType())}}; }
      if (auto *M = dyn_cast<CXXMethodDecl>(D)) { auto o = callee(M); o["k"] = "mref"; o["b"] = expr(x->getBase()); o["arrow"] = x->isArrow(); return o; }
    }
    if (auto *x = dyn_cast<CastExpr>(E)) {
      std::string ck = x->getCastKindName();
      if (ck == "LValueToRValue") return json::Object{{"k", "load"}, {"e", expr(x->getSubExpr())}};
      if (ck == "NoOp" || ck == "ConstructorConversion" || ck == "UserDefinedConversion") {
        if (isa<ImplicitCastExpr>(E) || ck != "NoOp" || true) return expr(x->getSubExpr());
      }
      json::Object o{{"k", "cast"}, {"ck", ck}, {"e", expr(x->getSubExpr())}};
      if (isa<ExplicitCastExpr>(E)) o["ex"] = true;
      return o;
    }
    if (auto *x = dyn_cast<UnaryOperator>(E)) return json::Object{{"k", "un"}, {"op", UnaryOperator::getOpcodeStr(x->getOpcode()).str()}, {"post", x->isPostfix()}, {"e", expr(x->getSubExpr())}};
    if (auto *x = dyn_cast<CompoundAssignOperator>(E)) return json::Object{{"k", "casg"}, {"op", x->getOpcodeStr().str()}, {"a", expr(x->getLHS())}, {"b", expr(x->getRHS())}, {"ct", type(x->getComputationResultType())}, {"clt", type(x->getComputationLHSType())}};
    if (auto *x = dyn_cast<BinaryOperator>(E)) return json::Object{{"k", x->isAssignmentOp() ? "asg" : "bin"}, {"op", x->getOpcodeStr().str()}, {"a", expr(x->getLHS())}, {"b", expr(x->getRHS())}};
    if (auto *x = dyn_cast<ConditionalOperator>(E)) return json::Object{{"k", "cond"}, {"c", expr(x->getCond())}, {"a", expr(x->getTrueExpr())}, {"b", expr(x->getFalseExpr())}};
    if (auto *x = dyn_cast<ArraySubscriptExpr>(E)) return json::Object{{"k", "sub"}, {"b", expr(x->getBase())}, {"i", expr(x->getIdx())}};
    if (auto *x = dyn_cast<CXXMemberCallExpr>(E)) {
      const auto *M = x->getMethodDecl();
      const Expr *Cal = x->getCallee()->IgnoreParens();
      if (M && isa<MemberExpr>(Cal)) {
        auto *ME = cast<MemberExpr>(Cal);
        auto o = callee(M);
        o["k"] = "mcall"; o["obj"] = expr(ME->getBase()); o["arrow"] = ME->isArrow();
        o["virt"] = M->isVirtual() && !ME->hasQualifier();
        o["args"] = exprsR(x->arguments());
        return o;
      }
      return json::Object{{"k", "unk"}, {"c", "MemberPointerCall"}, {"ch", exprsR(x->arguments())}};
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(E)) {
      const auto *F = x->getDirectCallee();
      if (F) {
        auto o = callee(F);
        o["op"] = getOperatorSpelling(x->getOperator());
        auto *M = dyn_cast<CXXMethodDecl>(F);
        if (M && M->isInstance()) {
          o["k"] = "mcall"; o["obj"] = expr(x->getArg(0)); o["arrow"] = false; o["virt"] = M->isVirtual();
          json::Array a; for (unsigned i = 1; i < x->getNumArgs(); ++i) a.push_back(expr(x->getArg(i)));
          o["args"] = std::move(a);
        } else { o["k"] = "call"; o["args"] = exprsR(x->arguments()); }
        return o;
      }
    }
    if (auto *x = dyn_cast<CallExpr>(E)) {
      json::Object o;
      if (auto *F = x->getDirectCallee()) { o = callee(F); if (F->getBuiltinID()) o["builtin"] = true; }
      else o["callee"] = expr(x->getCallee());
      o["k"] = "call"; o["args"] = exprsR(x->arguments());
      return o;
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(E)) {
      auto *CD = x->getConstructor();
      json::Object o = callee(CD);
      o["k"] = "ctor";
      o["args"] = exprsR(x->arguments());
      o["cr"] = recId(CD->getParent());
      if (x->isListInitialization()) o["list"] = true;
      if (CD->isCopyConstructor()) o["copy"] = true;
      if (CD->isMoveConstructor()) o["move"] = true;
      if (CD->isDefaultConstructor()) o["def"] = true;
      if (x->isElidable()) o["elid"] = true;
      return o;
    }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(E)) { json::Object o = callee(x->getConstructor()); o["k"] = "ctor"; o["inh"] = true; o["args"] = json::Array{}; return o; }
    if (auto *x = dyn_cast<CXXScalarValueInitExpr>(E)) return json::Object{{"k", "zero"}};
    if (auto *x = dyn_cast<ImplicitValueInitExpr>(E)) return json::Object{{"k", "zero"}};
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) return json::Object{{"k", "sil"}, {"e", expr(x->getSubExpr())}};
    if (auto *x = dyn_cast<InitListExpr>(E)) {
      if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      return json::Object{{"k", "ilist"}, {"e", exprsR(x->inits())}};
    }
    if (auto *x = dyn_cast<CXXNewExpr>(E)) {
      json::Object o{{"k", "new"}, {"at", type(x->getAllocatedType())}, {"arr", x->isArray()}};
      if (x->getInitializer()) o["e"] = expr(x->getInitializer());
      return o;
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(E)) return json::Object{{"k", "delete"}, {"e", expr(x->getArgument())}, {"arr", x->isArrayForm()}};
    if (auto *x = dyn_cast<CXXThrowExpr>(E)) return json::Object{{"k", "throw"}, {"e", x->getSubExpr() ? expr(x->getSubExpr()) : json::Value(nullptr)}};
    if (auto *x = dyn_cast<LambdaExpr>(E)) {
      json::Object o{{"k", "lambda"}, {"r", recId(x->getLambdaClass())}};
      json::Array caps;
      auto ii = x->capture_init_begin();
      auto fi = x->getLambdaClass()->field_begin();
      for (auto &c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) { co["by"] = c.getCaptureKind() == LCK_StarThis ? "starthis" : "this"; }
        else if (c.capturesVariable()) {
          co["by"] = c.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
          co["id"] = declId(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString();
          co["t"] = type(c.getCapturedVar()->getType());
        }
        if (c.isImplicit()) co["imp"] = true;
        if (*ii) co["init"] = expr(*ii);
        co["ft"] = type(fi->getType());
        caps.push_back(std::move(co));
        ++ii; ++fi;
      }
      o["caps"] = std::move(caps);
      if (!x->isGenericLambda()) o["f"] = funId(x->getCallOperator());
      return o;
    }
    if (auto *x = dyn_cast<CXXTypeidExpr>(E)) return json::Object{{"k", "unk"}, {"c", "typeid"}, {"ch", json::Array{}}};
    json::Array ch;
    for (auto *c : E->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) ch.push_back(expr(ce));
    return json::Object{{"k", "unk"}, {"c", E->getStmtClassName()}, {"ch", std::move(ch)}};
  }
  json::Value lit(const llvm::APInt &v, QualType T) {
    llvm::SmallString<40> s;
    v.toString(s, 10, !T->isUnsignedIntegerOrEnumerationType() && !T->isBooleanType());
    if (s.size() < 18) return (int64_t)std::stoll(s.c_str());
    return json::Value(std::string(s.c_str()));
  }
  void global(const VarDecl *V) {
    std::string key = std::to_string(declId(V));
    if (Vars.get(key)) return;
    Vars[key] = nullptr;
    json::Object o{{"n", qname(V)}, {"t", type(V->getType())}, {"file", rel(fileOf(V->getLocation()))}, {"l", line(V->getLocation())}};
    const VarDecl *D = V->getDefinition();
    if (!D) D = V;
    o["inline"] = D->isInline();
    o["internal"] = !D->isExternallyVisible();
    o["templ"] = D->getTemplateInstantiationPattern() != nullptr || isa<VarTemplateSpecializationDecl>(D);
    o["member"] = D->isStaticDataMember();
    o["def"] = D->isThisDeclarationADefinition() == VarDecl::Definition;
    if (inRepo(D->getLocation()) && D->hasInit() && !D->getInit()->isValueDependent()) o["init"] = expr(D->getInit());
    Vars[key] = std::move(o);
  }

  // ---------------------------------------------------------------- statements
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    json::Value v = stmt1(S);
    if (auto *o = v.getAsObject()) if (!o->get("l")) (*o)["l"] = line(S->getBeginLoc());
    return v;
  }
  json::Value stmt1(const Stmt *S) {
    if (auto *x = dyn_cast<Expr>(S)) return json::Object{{"k", "expr"}, {"e", expr(x)}};
    if (auto *x = dyn_cast<CompoundStmt>(S)) { json::Array a; for (auto *s : x->body()) a.push_back(stmt(s)); return json::Object{{"k", "block"}, {"b", std::move(a)}}; }
    if (auto *x = dyn_cast<DeclStmt>(S)) {
      json::Array a;
      for (auto *d : x->decls()) {
        if (auto *V = dyn_cast<VarDecl>(d)) { if (isa<DecompositionDecl>(d)) a.push_back(json::Object{{"unk", "decomposition"}}); else a.push_back(var(V)); }
      }
      return json::Object{{"k", "decl"}, {"v", std::move(a)}};
    }
    if (auto *x = dyn_cast<IfStmt>(S)) {
      json::Object o{{"k", "if"}, {"c", expr(x->getCond())}, {"a", stmt(x->getThen())}, {"b", stmt(x->getElse())}};
      if (x->getInit()) o["i"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["v"] = var(x->getConditionVariable());
      return o;
    }
    if (auto *x = dyn_cast<WhileStmt>(S)) {
      json::Object o{{"k", "while"}, {"c", expr(x->getCond())}, {"b", stmt(x->getBody())}};
      if (x->getConditionVariable()) o["v"] = var(x->getConditionVariable());
      return o;
    }
    if (auto *x = dyn_cast<DoStmt>(S)) return json::Object{{"k", "do"}, {"c", expr(x->getCond())}, {"b", stmt(x->getBody())}};
    if (auto *x = dyn_cast<ForStmt>(S)) {
      json::Object o{{"k", "for"}, {"i", stmt(x->getInit())}, {"c", expr(x->getCond())}, {"inc", expr(x->getInc())}, {"b", stmt(x->getBody())}};
      if (x->getConditionVariable()) o["v"] = var(x->getConditionVariable());
      return o;
    }
    if (auto *x = dyn_cast<CXXForRangeStmt>(S)) {
      json::Object o{{"k", "rfor"}, {"r", expr(x->getRangeInit())}, {"b", stmt(x->getBody())}};
      auto *V = x->getLoopVariable();
      o["v"] = json::Object{{"id", declId(V)}, {"n", V->getNameAsString()}, {"t", type(V->getType())}};
      if (isa<DecompositionDecl>(V)) o["unk"] = true;
      return o;
    }
    if (auto *x = dyn_cast<ReturnStmt>(S)) return json::Object{{"k", "ret"}, {"e", x->getRetValue() ? expr(x->getRetValue()) : json::Value(nullptr)}};
    if (isa<BreakStmt>(S)) return json::Object{{"k", "break"}};
    if (isa<ContinueStmt>(S)) return json::Object{{"k", "cont"}};
    if (isa<NullStmt>(S)) return json::Object{{"k", "nop"}};
    if (auto *x = dyn_cast<SwitchStmt>(S)) {
      json::Object o{{"k", "switch"}, {"c", expr(x->getCond())}, {"b", stmt(x->getBody())}};
      if (x->getInit()) o["i"] = stmt(x->getInit());
      return o;
    }
    if (auto *x = dyn_cast<CaseStmt>(S)) {
      json::Object o{{"k", "case"}, {"v", expr(x->getLHS())}, {"b", stmt(x->getSubStmt())}};
      if (x->getRHS()) o["hi"] = expr(x->getRHS());
      return o;
    }
    if (auto *x = dyn_cast<DefaultStmt>(S)) return json::Object{{"k", "default"}, {"b", stmt(x->getSubStmt())}};
    if (auto *x = dyn_cast<CXXTryStmt>(S)) {
      json::Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto *h = x->getHandler(i);
        json::Object o{{"b", stmt(h->getHandlerBlock())}, {"l", line(h->getBeginLoc())}};
        if (h->getExceptionDecl()) o["v"] = var(h->getExceptionDecl());
        if (!h->getCaughtType().isNull()) o["t"] = type(h->getCaughtType().getNonReferenceType().getUnqualifiedType());
        hs.push_back(std::move(o));
      }
      return json::Object{{"k", "try"}, {"b", stmt(x->getTryBlock())}, {"h", std::move(hs)}};
    }
    if (auto *x = dyn_cast<AttributedStmt>(S)) return stmt(x->getSubStmt());
    if (auto *x = dyn_cast<LabelStmt>(S)) return json::Object{{"k", "label"}, {"n", x->getName()}, {"b", stmt(x->getSubStmt())}};
    if (auto *x = dyn_cast<GotoStmt>(S)) return json::Object{{"k", "goto"}, {"n", x->getLabel()->getNameAsString()}};
    return json::Object{{"k", "unk"}, {"c", S->getStmtClassName()}};
  }

  // ---------------------------------------------------------------- functions, records
  void dumpFunction(const FunctionDecl *F) {
    int id = FunIds[F->getCanonicalDecl()];
    if (getenv("EXTRACT_DEBUG")) { llvm::errs() << "F " << qname(F) << "\n"; }
    const FunctionDecl *D = nullptr;
    F->hasBody(D);
    json::Object o;
    const FunctionDecl *W = D ? D : F;
    o["n"] = qname(F); o["sn"] = F->getNameAsString();
    o["file"] = rel(fileOf(W->getLocation())); o["l"] = line(W->getLocation());
    o["el"] = line(W->getEndLoc());
    o["ret"] = type(F->getReturnType());
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto &x : TA->asArray()) a.push_back(targ(x));
      o["ta"] = std::move(a);
    }
    json::Array ps;
    for (auto *p : W->parameters()) ps.push_back(json::Object{{"id", declId(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
    o["ps"] = std::move(ps);
    bool repo = inRepo(W->getLocation());
    o["repo"] = repo;
    if (auto *FP = F->getType()->getAs<FunctionProtoType>()) {
      auto es = FP->getExceptionSpecType();
      if (es != EST_Unevaluated && es != EST_Uninstantiated && es != EST_Unparsed && es != EST_DependentNoexcept) o["noexcept"] = FP->canThrow() == CT_Cannot;
    }
    o["variadic"] = F->isVariadic();
    o["inline"] = F->isInlined(); o["internal"] = !F->isExternallyVisible();
    o["templ"] = F->isTemplateInstantiation();
    o["espec"] = F->getTemplateSpecializationKind() == TSK_ExplicitSpecialization;
    if (F->isDefaulted()) o["defaulted"] = true;
    if (F->isDeleted()) o["deleted"] = true;
    if (F->isImplicit()) o["implicit"] = true;
    if (F->isNoReturn()) o["noreturn"] = true;
    o["kind"] = "function";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["kind"] = "method"; o["rec"] = recId(M->getParent());
      o["virt"] = M->isVirtual(); o["const"] = M->isConst(); o["static"] = M->isStatic();
      if (M->isPureVirtual()) o["pure"] = true;
      o["access"] = (int)M->getAccess();
      json::Array ov;
      for (auto *b : M->overridden_methods()) ov.push_back(funId(b));
      o["ov"] = std::move(ov);
    }
    if (isa<CXXDestructorDecl>(F)) o["kind"] = "dtor";
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["kind"] = "ctor";
      if (repo && D) {
        json::Array is;
        for (auto *i : cast<CXXConstructorDecl>(D)->inits()) {
          json::Object io{{"l", line(i->getSourceLocation())}};
          if (i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
          else if (i->isAnyMemberInitializer()) { io["f"] = i->getAnyMember()->getNameAsString(); io["fi"] = (int64_t)i->getAnyMember()->getFieldIndex(); }
          else if (i->isDelegatingInitializer()) io["del"] = true;
          io["w"] = i->isWritten();
          io["e"] = expr(i->getInit());
          is.push_back(std::move(io));
        }
        o["inits"] = std::move(is);
      }
      if (CD->isCopyConstructor()) o["copy"] = true;
      if (CD->isMoveConstructor()) o["move"] = true;
    }
    if (repo && D && D->getBody() && !D->isDependentContext()) o["body"] = stmt(D->getBody());
    Functions[std::to_string(id)] = std::move(o);
  }
  void dumpRecord(const CXXRecordDecl *R) {
    int id = RecIds[R];
    json::Object o;
    o["n"] = qname(R); o["file"] = rel(fileOf(R->getLocation())); o["l"] = line(R->getLocation());
    o["lam"] = R->isLambda();
    o["repo"] = inRepo(R->getLocation());
    if (R->hasDefinition() && R->getDefinition() == R) {
      json::Array bs, fs, ms;
      for (auto &b : R->bases()) bs.push_back(json::Object{{"t", type(b.getType())}, {"v", b.isVirtual()}, {"a", (int)b.getAccessSpecifier()}});
      o["bases"] = std::move(bs);
      o["poly"] = R->isPolymorphic();
      o["def"] = true;
      if (inRepo(R->getLocation()) && !R->isDependentContext()) {
        for (auto *f : R->fields()) {
          json::Object fo{{"n", f->getNameAsString()}, {"t", type(f->getType())}, {"l", line(f->getLocation())}, {"a", (int)f->getAccess()}};
          if (f->isMutable()) fo["mut"] = true;
          if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
          fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        for (auto *m : R->methods()) ms.push_back(funId(m));
        for (auto *dd : R->decls()) if (auto *ft = dyn_cast<FunctionTemplateDecl>(dd)) for (auto *s : ft->specializations()) ms.push_back(funId(s));
        o["methods"] = std::move(ms);
        if (auto *dt = R->getDestructor()) { o["dtor"] = funId(dt); }
      } else if (!R->isDependentContext() && R->isLambda()) {}
    }
    Records[std::to_string(id)] = std::move(o);
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper &D;
  std::set<const void*> seen;
  explicit Visitor(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || F->getDescribedFunctionTemplate()) return true;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def)) return true;
    if (!D.inRepo(Def->getLocation())) return true;
    D.funId(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isDependentContext() || !R->isThisDeclarationADefinition()) return true;
    if (D.inRepo(R->getLocation())) D.type(D.C.getRecordType(R));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !V->isStaticLocal() && D.inRepo(V->getLocation()) && !V->getDeclContext()->isDependentContext() && !V->getType()->isDependentType()) D.global(V);
    return true;
  }
  bool VisitUsingDirectiveDecl(UsingDirectiveDecl *U) {
    if (D.inRepo(U->getLocation())) {
      auto *DC = U->getDeclContext()->getRedeclContext();
      D.Usings.push_back(json::Object{{"file", D.rel(D.fileOf(U->getLocation()))}, {"l", D.line(U->getLocation())}, {"ns", U->getNominatedNamespace()->getQualifiedNameAsString()}, {"glob", DC->isTranslationUnit()}, {"scope", DC->isFunctionOrMethod() ? "function" : "namespace"}});
    }
    return true;
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &Ctx) override {
    Dumper d(Ctx);
    Visitor v(d);
    v.TraverseDecl(Ctx.getTranslationUnitDecl());
    std::set<const CXXRecordDecl *> rdone;
    while (!d.FunWork.empty() || !d.RecWork.empty()) {
      while (!d.RecWork.empty()) { auto *r = d.RecWork.front(); d.RecWork.pop_front(); if (rdone.insert(r).second) d.dumpRecord(r); }
      if (!d.FunWork.empty()) { auto *f = d.FunWork.front(); d.FunWork.pop_front(); d.dumpFunction(f); }
    }
    json::Object o;
    o["types"] = std::move(d.Types); o["records"] = std::move(d.Records);
    o["functions"] = std::move(d.Functions); o["vars"] = std::move(d.Vars); o["usings"] = std::move(d.Usings);
    std::error_code ec;
    llvm::raw_fd_ostream os(OutFile, ec);
    os << json::Value(std::move(o));
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char **argv) {
  if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
  OutFile = argv[1]; Root = argv[2]; HarnessDir = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i) if (std::string(argv[i]) != "--") args.push_back(argv[i]);
  auto buf = llvm::MemoryBuffer::getFile(argv[4]);
  if (!buf) { llvm::errs() << "cannot read " << argv[4] << "\n"; return 2; }
  return tooling::runToolOnCodeWithArgs(std::make_unique<Act>(), (*buf)->getBuffer(), args, argv[4]) ? 0 : 3;
}
