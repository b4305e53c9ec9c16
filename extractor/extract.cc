// Fact extractor: parses translation units of SIREN with clang and writes, as
// JSON, every class and every function body that lives under the given root.
// It decides nothing; the rules are in /verif/siren_sa/*.py.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fstream>
#include <iostream>

using namespace clang;
namespace json = llvm::json;

static std::string Root;                  // /repo/projects
static std::string OutPath;
static std::vector<std::string> OnlyDirs; // not used for now

struct Emitter {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Array Classes, Functions, Enums, Vars;
  std::set<const Decl *> Done;
  std::map<const Decl *, int> LocalIx;

  Emitter(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true;
    PP.TerseOutput = true; PP.Bool = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    if (F.empty()) return "";
    llvm::SmallString<256> P(F);
    llvm::sys::fs::make_absolute(P);
    std::string s = P.str().str();
    std::string real;
    llvm::SmallString<256> RP;
    if (!llvm::sys::fs::real_path(P, RP)) s = RP.str().str();
    return s;
  }
  std::map<unsigned, std::string> FileCache;
  std::string fileOfDecl(const Decl *D) {
    SourceLocation L = SM.getExpansionLoc(D->getLocation());
    if (L.isInvalid()) return "";
    FileID F = SM.getFileID(L);
    auto it = FileCache.find(F.getHashValue());
    if (it != FileCache.end()) return it->second;
    return FileCache[F.getHashValue()] = fileOf(L);
  }
  bool inRoot(const Decl *D) {
    std::string f = fileOfDecl(D);
    return f.size() > Root.size() && f.compare(0, Root.size(), Root) == 0;
  }
  int line(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return (int)SM.getExpansionLineNumber(L);
  }
  std::map<const void *, std::string> TypeCache;
  std::string type(QualType T) {
    if (T.isNull()) return "";
    QualType C = T.getCanonicalType();
    auto it = TypeCache.find(C.getAsOpaquePtr());
    if (it != TypeCache.end()) return it->second;
    return TypeCache[C.getAsOpaquePtr()] = C.getAsString(PP);
  }
  std::string qn(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }
  std::string usr(const Decl *D) {
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      // members of class template instantiations: refer to the pattern
      if (auto *P = F->getTemplateInstantiationPattern()) D = P;
    }
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "";
    return B.str().str();
  }
  int local(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = LocalIx.find(D);
    if (it != LocalIx.end()) return it->second;
    int n = LocalIx.size();
    LocalIx[D] = n;
    return n;
  }

  json::Object declRef(const ValueDecl *D) {
    json::Object o;
    o["n"] = D->getNameAsString();
    if (auto *V = dyn_cast<VarDecl>(D)) {
      o["dk"] = isa<ParmVarDecl>(V) ? "p" : (V->isLocalVarDecl() ? "v" : "g");
      if (V->isLocalVarDeclOrParm()) o["id"] = local(V);
      else { o["qn"] = qn(V); if (V->isStaticDataMember()) o["dk"] = "s"; }
      if (V->isStaticLocal()) o["sl"] = true;
    } else if (isa<EnumConstantDecl>(D)) {
      o["dk"] = "e"; o["qn"] = qn(D);
      auto *E = cast<EnumConstantDecl>(D);
      llvm::SmallString<32> S; E->getInitVal().toString(S, 10);
      o["v"] = S.str().str();
    } else if (isa<FunctionDecl>(D)) {
      o["dk"] = "f"; o["qn"] = qn(D); o["usr"] = usr(D);
    } else if (isa<FieldDecl>(D)) {
      o["dk"] = "m"; o["qn"] = qn(D);
    } else if (auto *B = dyn_cast<BindingDecl>(D)) {
      o["dk"] = "v"; o["id"] = local(B);
    } else { o["dk"] = "o"; o["qn"] = qn(D); }
    return o;
  }

  json::Value exprOrNull(const Stmt *S) {
    if (!S) return nullptr;
    return stmt(S);
  }
  json::Object varDecl(const VarDecl *V) {
    json::Object v;
    v["id"] = local(V);
    v["n"] = V->getNameAsString();
    v["t"] = type(V->getType());
    v["l"] = line(V->getLocation());
    if (V->isStaticLocal()) v["static"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) v["tls"] = true;
    if (V->getType().isConstQualified()) v["const"] = true;
    if (V->hasInit()) v["init"] = stmt(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array bs;
      for (auto *b : DD->bindings()) { json::Object bo; bo["id"] = local(b); bo["n"] = b->getNameAsString(); bs.push_back(std::move(bo)); }
      v["bindings"] = std::move(bs);
    }
    return v;
  }
  json::Array kids(const Stmt *S) {
    json::Array a;
    for (const Stmt *c : S->children()) if (c) a.push_back(stmt(c));
    return a;
  }
  static const Stmt *strip(const Stmt *S) {
    while (S) {
      if (auto *E = dyn_cast<ExprWithCleanups>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<ImplicitCastExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<ParenExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<ConstantExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) { S = E->getReplacement(); continue; }
      if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) { S = E->getExpr(); continue; }
      if (auto *E = dyn_cast<CXXStdInitializerListExpr>(S)) { S = E->getSubExpr(); continue; }
      break;
    }
    return S;
  }
  void callee(json::Object &o, const FunctionDecl *F) {
    if (!F) return;
    o["fn"] = F->getNameAsString();
    o["qn"] = qn(F);
    o["usr"] = usr(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["cm"] = true;
      if (M->isStatic()) o["stat"] = true;
    }
    // which arguments may be written through: non-const reference / pointer parameters
    json::Array w; bool any = false;
    for (unsigned i = 0; i < F->getNumParams(); ++i) {
      QualType T = F->getParamDecl(i)->getType();
      bool m = false;
      if (T->isReferenceType()) m = !T.getNonReferenceType().isConstQualified();
      else if (T->isPointerType()) m = !T->getPointeeType().isConstQualified();
      w.push_back(m); any |= m;
    }
    if (any) o["wr"] = std::move(w);
    json::Array pn;
    for (unsigned i = 0; i < F->getNumParams(); ++i) pn.push_back(F->getParamDecl(i)->getNameAsString());
    if (inRoot(F)) o["pn"] = std::move(pn);
  }

  json::Value stmt(const Stmt *S0) {
    const Stmt *S = strip(S0);
    if (!S) return nullptr;
    json::Object o;
    o["l"] = line(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) o["t"] = type(E->getType());
    auto K = [&](const char *k) { o["k"] = k; };
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: K("block"); o["c"] = kids(S); break;
    case Stmt::NullStmtClass: K("null"); break;
    case Stmt::DeclStmtClass: {
      K("decl"); json::Array vs;
      for (auto *D : cast<DeclStmt>(S)->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) vs.push_back(varDecl(V));
      o["vars"] = std::move(vs); break;
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S); K("if");
      if (I->getInit()) o["init"] = stmt(I->getInit());
      if (I->getConditionVariableDeclStmt()) o["cv"] = stmt(I->getConditionVariableDeclStmt());
      if (I->isConstexpr()) o["cx"] = true;
      o["cond"] = exprOrNull(I->getCond()); o["then"] = exprOrNull(I->getThen()); o["else"] = exprOrNull(I->getElse());
      break;
    }
    case Stmt::ForStmtClass: {
      auto *F = cast<ForStmt>(S); K("for");
      o["init"] = exprOrNull(F->getInit()); o["cond"] = exprOrNull(F->getCond());
      o["inc"] = exprOrNull(F->getInc()); o["body"] = exprOrNull(F->getBody()); break;
    }
    case Stmt::WhileStmtClass: {
      auto *F = cast<WhileStmt>(S); K("while");
      if (F->getConditionVariableDeclStmt()) o["cv"] = stmt(F->getConditionVariableDeclStmt());
      o["cond"] = exprOrNull(F->getCond()); o["body"] = exprOrNull(F->getBody()); break;
    }
    case Stmt::DoStmtClass: {
      auto *F = cast<DoStmt>(S); K("do");
      o["cond"] = exprOrNull(F->getCond()); o["body"] = exprOrNull(F->getBody()); break;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *F = cast<CXXForRangeStmt>(S); K("range");
      const VarDecl *lv = F->getLoopVariable();
      if (lv) {
        json::Object v; v["id"] = local(lv); v["n"] = lv->getNameAsString(); v["t"] = type(lv->getType()); v["l"] = line(lv->getLocation());
        if (auto *DD = dyn_cast<DecompositionDecl>(lv)) {
          json::Array bs;
          for (auto *b : DD->bindings()) { json::Object bo; bo["id"] = local(b); bo["n"] = b->getNameAsString(); bs.push_back(std::move(bo)); }
          v["bindings"] = std::move(bs);
        }
        o["var"] = std::move(v);
      }
      o["range"] = exprOrNull(F->getRangeInit()); o["body"] = exprOrNull(F->getBody());
      break;
    }
    case Stmt::SwitchStmtClass: {
      auto *F = cast<SwitchStmt>(S); K("switch");
      o["cond"] = exprOrNull(F->getCond()); o["body"] = exprOrNull(F->getBody()); break;
    }
    case Stmt::CaseStmtClass: {
      auto *F = cast<CaseStmt>(S); K("case");
      o["v"] = exprOrNull(F->getLHS()); o["body"] = exprOrNull(F->getSubStmt()); break;
    }
    case Stmt::DefaultStmtClass: K("default"); o["body"] = exprOrNull(cast<DefaultStmt>(S)->getSubStmt()); break;
    case Stmt::BreakStmtClass: K("break"); break;
    case Stmt::ContinueStmtClass: K("continue"); break;
    case Stmt::ReturnStmtClass: K("return"); o["v"] = exprOrNull(cast<ReturnStmt>(S)->getRetValue()); break;
    case Stmt::CXXThrowExprClass: K("throw"); o["v"] = exprOrNull(cast<CXXThrowExpr>(S)->getSubExpr()); break;
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(S); K("try");
      o["body"] = stmt(T->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *H = T->getHandler(i);
        json::Object h; h["l"] = line(H->getBeginLoc());
        h["t"] = H->getExceptionDecl() ? type(H->getCaughtType()) : std::string();
        if (H->getExceptionDecl()) { h["id"] = local(H->getExceptionDecl()); }
        h["body"] = stmt(H->getHandlerBlock());
        hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs); break;
    }
    case Stmt::DeclRefExprClass: {
      auto *E = cast<DeclRefExpr>(S); K("ref");
      for (auto &kv : declRef(E->getDecl())) o[kv.first] = std::move(kv.second);
      break;
    }
    case Stmt::CXXThisExprClass: K("this"); break;
    case Stmt::MemberExprClass: {
      auto *E = cast<MemberExpr>(S); K("mem");
      for (auto &kv : declRef(E->getMemberDecl())) o[kv.first] = std::move(kv.second);
      if (E->isArrow()) o["arrow"] = true;
      o["b"] = stmt(E->getBase()); break;
    }
    case Stmt::CXXDependentScopeMemberExprClass: {
      auto *E = cast<CXXDependentScopeMemberExpr>(S); K("mem");
      o["n"] = E->getMember().getAsString(); o["dk"] = "d";
      if (E->isArrow()) o["arrow"] = true;
      if (!E->isImplicitAccess()) o["b"] = stmt(E->getBase());
      else { json::Object t; t["k"] = "this"; t["l"] = o["l"]; o["b"] = std::move(t); }
      break;
    }
    case Stmt::UnresolvedMemberExprClass: {
      auto *E = cast<UnresolvedMemberExpr>(S); K("mem");
      o["n"] = E->getMemberName().getAsString(); o["dk"] = "u";
      json::Array c; for (auto *d : E->decls()) { auto *dd = d->getUnderlyingDecl(); if (auto *ft = dyn_cast<FunctionTemplateDecl>(dd)) dd = ft->getTemplatedDecl(); c.push_back(usr(dd)); }
      o["cands"] = std::move(c);
      if (!E->isImplicitAccess()) o["b"] = stmt(E->getBase());
      else { json::Object t; t["k"] = "this"; t["l"] = o["l"]; o["b"] = std::move(t); }
      break;
    }
    case Stmt::UnresolvedLookupExprClass: {
      auto *E = cast<UnresolvedLookupExpr>(S); K("ref"); o["dk"] = "u";
      o["n"] = E->getName().getAsString();
      json::Array c; std::string q;
      for (auto *d : E->decls()) { auto *dd = d->getUnderlyingDecl(); if (auto *ft = dyn_cast<FunctionTemplateDecl>(dd)) dd = ft->getTemplatedDecl(); c.push_back(usr(dd)); q = qn(dd); }
      o["cands"] = std::move(c); if (!q.empty()) o["qn"] = q;
      if (E->hasExplicitTemplateArgs()) {
        json::Array ta, ia; for (auto &A : E->template_arguments()) { if (A.getArgument().getKind() == TemplateArgument::Type) ta.push_back(type(A.getArgument().getAsType())); if (A.getArgument().getKind() == TemplateArgument::Expression) { Expr::EvalResult R; auto *X = A.getArgument().getAsExpr(); if (X && !X->isValueDependent() && X->EvaluateAsInt(R, Ctx)) { llvm::SmallString<32> z; R.Val.getInt().toString(z, 10); ia.push_back(z.str().str()); } } }
        o["targs"] = std::move(ta); if (!ia.empty()) o["ita"] = std::move(ia);
      }
      break;
    }
    case Stmt::DependentScopeDeclRefExprClass: {
      auto *E = cast<DependentScopeDeclRefExpr>(S); K("ref"); o["dk"] = "d";
      o["n"] = E->getDeclName().getAsString(); break;
    }
    case Stmt::CallExprClass: case Stmt::CXXMemberCallExprClass: case Stmt::CXXOperatorCallExprClass: case Stmt::UserDefinedLiteralClass: {
      auto *E = cast<CallExpr>(S);
      K(isa<CXXOperatorCallExpr>(E) ? "opcall" : (isa<CXXMemberCallExpr>(E) ? "mcall" : "call"));
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) o["op"] = getOperatorSpelling(OC->getOperator());
      if (auto *F = E->getDirectCallee()) {
        callee(o, F);
        if (auto *A = F->getTemplateSpecializationArgs()) {
          json::Array ta, ia; for (auto &x : A->asArray()) { if (x.getKind() == TemplateArgument::Type) ta.push_back(type(x.getAsType())); if (x.getKind() == TemplateArgument::Integral) { llvm::SmallString<32> z; x.getAsIntegral().toString(z, 10); ia.push_back(z.str().str()); } }
          o["targs"] = std::move(ta); if (!ia.empty()) o["ita"] = std::move(ia);
        }
      }
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
        if (auto *ME = dyn_cast<MemberExpr>(strip(MC->getCallee()))) {
          o["obj"] = stmt(ME->getBase()); if (ME->isArrow()) o["arrow"] = true;
          if (ME->hasQualifier()) o["nonvirt"] = true;
        } else o["f"] = stmt(MC->getCallee());
      } else if (!isa<CXXOperatorCallExpr>(E)) o["f"] = stmt(E->getCallee());
      json::Array a; for (auto *x : E->arguments()) { if (isa<CXXDefaultArgExpr>(x)) { json::Object d; d["k"] = "defarg"; d["l"] = o["l"]; d["t"] = type(x->getType()); a.push_back(std::move(d)); } else a.push_back(stmt(x)); }
      o["a"] = std::move(a); break;
    }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
      auto *E = cast<CXXConstructExpr>(S); K("ctor");
      auto *C = E->getConstructor();
      o["cls"] = qn(C->getParent()); o["usr"] = usr(C);
      if (C->isCopyOrMoveConstructor()) o["cp"] = true;
      if (E->isListInitialization()) o["li"] = true;
      json::Array pn; for (auto *p : C->parameters()) pn.push_back(p->getNameAsString());
      if (inRoot(C)) o["pn"] = std::move(pn);
      json::Array a; for (auto *x : E->arguments()) if (!isa<CXXDefaultArgExpr>(x)) a.push_back(stmt(x));
      o["a"] = std::move(a); break;
    }
    case Stmt::CXXUnresolvedConstructExprClass: {
      auto *E = cast<CXXUnresolvedConstructExpr>(S); K("ctor"); o["cls"] = E->getTypeAsWritten().getAsString(PP);
      json::Array a; for (auto *x : E->arguments()) a.push_back(stmt(x)); o["a"] = std::move(a); break;
    }
    case Stmt::InitListExprClass: {
      auto *E = cast<InitListExpr>(S); K("ilist");
      if (E->isSemanticForm() && E->getSyntacticForm() && !E->getSyntacticForm()->isTypeDependent()) {}
      json::Array a; for (auto *x : E->inits()) if (x) a.push_back(stmt(x)); o["a"] = std::move(a); break;
    }
    case Stmt::ParenListExprClass: {
      auto *E = cast<ParenListExpr>(S); K("ilist"); json::Array a; for (unsigned i = 0; i < E->getNumExprs(); ++i) a.push_back(stmt(E->getExpr(i))); o["a"] = std::move(a); break;
    }
    case Stmt::BinaryOperatorClass: case Stmt::CompoundAssignOperatorClass: {
      auto *E = cast<BinaryOperator>(S); K("bin"); o["op"] = E->getOpcodeStr().str();
      o["lhs"] = stmt(E->getLHS()); o["rhs"] = stmt(E->getRHS()); break;
    }
    case Stmt::UnaryOperatorClass: {
      auto *E = cast<UnaryOperator>(S); K("un"); o["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      if (E->isPostfix()) o["post"] = true;
      o["e"] = stmt(E->getSubExpr()); break;
    }
    case Stmt::ConditionalOperatorClass: {
      auto *E = cast<ConditionalOperator>(S); K("cond");
      o["cond"] = stmt(E->getCond()); o["then"] = stmt(E->getTrueExpr()); o["else"] = stmt(E->getFalseExpr()); break;
    }
    case Stmt::ArraySubscriptExprClass: {
      auto *E = cast<ArraySubscriptExpr>(S); K("idx"); o["b"] = stmt(E->getBase()); o["i"] = stmt(E->getIdx()); break;
    }
    case Stmt::IntegerLiteralClass: { K("int"); llvm::SmallString<32> s; cast<IntegerLiteral>(S)->getValue().toString(s, 10, true); o["v"] = s.str().str(); break; }
    case Stmt::FloatingLiteralClass: { K("float"); llvm::SmallString<32> s; cast<FloatingLiteral>(S)->getValue().toString(s); o["v"] = s.str().str(); break; }
    case Stmt::CXXBoolLiteralExprClass: K("bool"); o["v"] = cast<CXXBoolLiteralExpr>(S)->getValue(); break;
    case Stmt::StringLiteralClass: { K("str"); auto *L = cast<StringLiteral>(S); if (L->getCharByteWidth() == 1) { std::string v = L->getString().str(); if (!json::isUTF8(v)) v = json::fixUTF8(v); o["v"] = v; } break; }
    case Stmt::CharacterLiteralClass: K("char"); o["v"] = (int)cast<CharacterLiteral>(S)->getValue(); break;
    case Stmt::CXXNullPtrLiteralExprClass: K("nullptr"); break;
    case Stmt::GNUNullExprClass: K("nullptr"); break;
    case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass:
    case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass: {
      auto *E = cast<ExplicitCastExpr>(S); K("cast");
      o["ck"] = isa<CXXDynamicCastExpr>(E) ? "dynamic" : isa<CXXConstCastExpr>(E) ? "const" : isa<CXXReinterpretCastExpr>(E) ? "reinterpret" : isa<CXXStaticCastExpr>(E) ? "static" : isa<CXXFunctionalCastExpr>(E) ? "func" : "c";
      o["to"] = type(E->getTypeAsWritten());
      o["e"] = stmt(E->getSubExpr()); break;
    }
    case Stmt::LambdaExprClass: {
      auto *E = cast<LambdaExpr>(S); K("lambda");
      json::Array ps;
      if (E->getCallOperator()) for (auto *p : E->getCallOperator()->parameters()) { json::Object v; v["id"] = local(p); v["n"] = p->getNameAsString(); v["t"] = type(p->getType()); ps.push_back(std::move(v)); }
      o["params"] = std::move(ps);
      json::Array cs;
      for (auto &c : E->captures()) { json::Object v; v["ref"] = c.getCaptureKind() == LCK_ByRef; if (c.capturesVariable()) { v["id"] = local(c.getCapturedVar()); v["n"] = c.getCapturedVar()->getNameAsString(); if (auto *cv = dyn_cast<VarDecl>(c.getCapturedVar())) if (cv->isInitCapture() && cv->hasInit()) v["init"] = stmt(cv->getInit()); } else if (c.capturesThis()) v["this"] = true; cs.push_back(std::move(v)); }
      o["caps"] = std::move(cs);
      o["body"] = exprOrNull(E->getBody()); break;
    }
    case Stmt::CXXNewExprClass: {
      auto *E = cast<CXXNewExpr>(S); K("new"); o["of"] = type(E->getAllocatedType());
      if (E->getInitializer()) o["e"] = stmt(E->getInitializer());
      if (E->isArray()) o["arr"] = true;
      break;
    }
    case Stmt::CXXDeleteExprClass: K("delete"); o["e"] = stmt(cast<CXXDeleteExpr>(S)->getArgument()); break;
    case Stmt::UnaryExprOrTypeTraitExprClass: K("sizeof"); break;
    case Stmt::CXXTypeidExprClass: { auto *E = cast<CXXTypeidExpr>(S); K("typeid"); if (E->isTypeOperand()) o["of"] = type(E->getTypeOperand(Ctx)); else o["e"] = stmt(E->getExprOperand()); break; }
    case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: K("zero"); break;
    case Stmt::CXXDefaultArgExprClass: K("defarg"); break;
    default: {
      K("other"); o["cls"] = S->getStmtClassName(); o["c"] = kids(S); break;
    }
    }
    return o;
  }

  void emitFunction(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return;
    if (!F->doesThisDeclarationHaveABody()) return;
    if (F->isImplicit()) return;
    if (!inRoot(F)) return;
    if (!Done.insert(F).second) return;
    LocalIx.clear();
    json::Object o;
    o["usr"] = usr(F); o["qn"] = qn(F); o["n"] = F->getNameAsString();
    o["file"] = fileOfDecl(F); o["l"] = line(F->getBeginLoc()); o["le"] = line(F->getEndLoc());
    o["ret"] = type(F->getReturnType());
    json::Array ps;
    for (auto *p : F->parameters()) { json::Object v; v["id"] = local(p); v["n"] = p->getNameAsString(); v["t"] = type(p->getType()); if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) v["def"] = stmt(p->getDefaultArg()); ps.push_back(std::move(v)); }
    o["params"] = std::move(ps);
    if (F->getDescribedFunctionTemplate()) {
      o["tmpl"] = true;
    }
    if (F->isTemplateInstantiation()) o["inst"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cusr"] = usr(M->getParent()); o["cls"] = qn(M->getParent());
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isVirtual()) o["virt"] = true;
      json::Array ov; for (auto *b : M->overridden_methods()) ov.push_back(usr(b));
      if (!ov.empty()) o["over"] = std::move(ov);
      if (auto *C = dyn_cast<CXXConstructorDecl>(M)) {
        o["ctor"] = C->isCopyConstructor() ? "copy" : C->isMoveConstructor() ? "move" : C->isDefaultConstructor() ? "default" : "other";
        json::Array is;
        for (auto *I : C->inits()) {
          json::Object i; i["w"] = I->isWritten();
          if (I->isAnyMemberInitializer()) i["m"] = I->getAnyMember()->getNameAsString();
          else if (I->isBaseInitializer()) i["base"] = type(QualType(I->getBaseClass(), 0));
          else i["deleg"] = true;
          i["l"] = line(I->getSourceLocation());
          if (I->getInit()) i["e"] = stmt(I->getInit());
          is.push_back(std::move(i));
        }
        o["inits"] = std::move(is);
      }
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
      if (M->isDefaulted()) o["defaulted"] = true;
      if (M->isCopyAssignmentOperator()) o["assign"] = "copy";
      if (M->isMoveAssignmentOperator()) o["assign"] = "move";
      if (M->getAccess() == AS_private) o["acc"] = "private"; else if (M->getAccess() == AS_protected) o["acc"] = "protected"; else o["acc"] = "public";
    }
    if (auto *nd = dyn_cast<FunctionDecl>(F)) if (nd->isInAnonymousNamespace() || nd->getStorageClass() == SC_Static) o["internal"] = true;
    o["body"] = stmt(F->getBody());
    Functions.push_back(std::move(o));
  }

  void emitClass(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isImplicit() || R->isLambda()) return;
    if (!inRoot(R)) return;
    if (!Done.insert(R).second) return;
    LocalIx.clear();
    json::Object o;
    o["qn"] = qn(R); o["n"] = R->getNameAsString(); o["file"] = fileOfDecl(R); o["l"] = line(R->getBeginLoc());
    o["usr"] = usr(R);
    if (R->getDescribedClassTemplate()) o["tmpl"] = true;
    if (isa<ClassTemplateSpecializationDecl>(R)) o["spec"] = true;
    json::Array bs;
    for (auto &b : R->bases()) {
      json::Object x; x["t"] = type(b.getType()); x["virt"] = b.isVirtual();
      if (auto *br = b.getType()->getAsCXXRecordDecl()) x["qn"] = qn(br); else x["qn"] = b.getType().getAsString(PP);
      bs.push_back(std::move(x));
    }
    o["bases"] = std::move(bs);
    if (R->hasDefinition() && !R->isDependentContext()) { o["abstract"] = R->isAbstract(); o["poly"] = R->isPolymorphic(); }
    json::Array fs;
    for (auto *F : R->fields()) {
      json::Object f; f["n"] = F->getNameAsString(); f["t"] = type(F->getType()); f["l"] = line(F->getLocation());
      std::string ts; { llvm::raw_string_ostream os(ts); F->getType().print(os, PP); } f["tw"] = ts;
      if (F->isMutable()) f["mut"] = true;
      if (F->getType().isConstQualified()) f["const"] = true;
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = stmt(F->getInClassInitializer());
      f["acc"] = F->getAccess() == AS_public ? "public" : F->getAccess() == AS_protected ? "protected" : "private";
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (auto *D : R->decls()) {
      const FunctionDecl *FD = dyn_cast<FunctionDecl>(D);
      bool tm = false;
      if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) { FD = FT->getTemplatedDecl(); tm = true; }
      auto *M = dyn_cast_or_null<CXXMethodDecl>(FD);
      if (!M) continue;
      json::Object m; m["n"] = M->getNameAsString(); m["usr"] = usr(M); m["l"] = line(M->getLocation());
      if (M->isImplicit()) m["impl"] = true;
      if (tm) m["tmpl"] = true;
      if (M->isConst()) m["const"] = true;
      if (M->isStatic()) m["static"] = true;
      if (M->isVirtual()) m["virt"] = true;
      if (M->isPureVirtual()) m["pure"] = true;
      if (M->isDeleted()) m["del"] = true;
      if (M->isDefaulted()) m["dflt"] = true;
      m["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      if (auto *C = dyn_cast<CXXConstructorDecl>(M)) m["ctor"] = C->isCopyConstructor() ? "copy" : C->isMoveConstructor() ? "move" : C->isDefaultConstructor() ? "default" : "other";
      if (isa<CXXDestructorDecl>(M)) m["dtor"] = true;
      if (M->isCopyAssignmentOperator()) m["assign"] = "copy";
      if (M->isMoveAssignmentOperator()) m["assign"] = "move";
      m["ret"] = type(M->getReturnType());
      json::Array ps; for (auto *p : M->parameters()) { json::Object v; v["n"] = p->getNameAsString(); v["t"] = type(p->getType()); ps.push_back(std::move(v)); }
      m["params"] = std::move(ps);
      json::Array ov; for (auto *b : M->overridden_methods()) ov.push_back(usr(b));
      if (!ov.empty()) m["over"] = std::move(ov);
      ms.push_back(std::move(m));
    }
    o["methods"] = std::move(ms);
    json::Array fr;
    for (auto *f : R->friends()) { if (auto *T = f->getFriendType()) { std::string s; llvm::raw_string_ostream os(s); T->getType().print(os, PP); fr.push_back(os.str()); } }
    o["friends"] = std::move(fr);
    Classes.push_back(std::move(o));
  }
  void emitEnum(const EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !inRoot(E) || !Done.insert(E).second) return;
    json::Object o; o["qn"] = qn(E); o["file"] = fileOfDecl(E); o["l"] = line(E->getLocation());
    json::Array cs; for (auto *c : E->enumerators()) { llvm::SmallString<32> s; c->getInitVal().toString(s, 10); json::Array p; p.push_back(c->getNameAsString()); p.push_back(s.str().str()); cs.push_back(std::move(p)); }
    o["c"] = std::move(cs); Enums.push_back(std::move(o));
  }
  void emitVar(const VarDecl *V) {
    if (V->isLocalVarDeclOrParm() || !inRoot(V) || !Done.insert(V).second) return;
    if (!V->isThisDeclarationADefinition()) return;
    if (isa<VarTemplateSpecializationDecl>(V)) return;
    LocalIx.clear();
    json::Object o; o["qn"] = qn(V); o["n"] = V->getNameAsString(); o["file"] = fileOfDecl(V); o["l"] = line(V->getLocation()); o["t"] = type(V->getType());
    std::string ts; { llvm::raw_string_ostream os(ts); V->getType().print(os, PP); } o["tw"] = ts;
    if (V->getType().isConstQualified()) o["const"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (V->hasInit()) o["init"] = stmt(V->getInit());
    Vars.push_back(std::move(o));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Emitter &E;
  Visitor(Emitter &E) : E(E) {}
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseDecl(Decl *D) {
    if (!D) return true;
    // prune whole top-level subtrees that are not ours (except namespaces / linkage specs)
    if (!isa<TranslationUnitDecl>(D) && !isa<NamespaceDecl>(D) && !isa<LinkageSpecDecl>(D)) {
      if (!E.inRoot(D)) return true;
    }
    return RecursiveASTVisitor<Visitor>::TraverseDecl(D);
  }
  bool VisitFunctionDecl(FunctionDecl *F) { E.emitFunction(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { E.emitClass(R); return true; }
  bool VisitEnumDecl(EnumDecl *R) { E.emitEnum(R); return true; }
  bool VisitVarDecl(VarDecl *V) { E.emitVar(V); return true; }
};

static int NumErrors = 0;

class DiagCollect : public DiagnosticConsumer {
public:
  std::vector<std::string> Errs;
  void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &I) override {
    DiagnosticConsumer::HandleDiagnostic(L, I);
    if (L >= DiagnosticsEngine::Error) {
      llvm::SmallString<256> M; I.FormatDiagnostic(M);
      std::string s;
      if (I.hasSourceManager() && I.getLocation().isValid()) s = I.getLocation().printToString(I.getSourceManager()) + ": ";
      Errs.push_back(s + M.str().str());
    }
  }
};

class Consumer : public ASTConsumer {
public:
  std::string In; DiagCollect &DC;
  Consumer(std::string In, DiagCollect &DC) : In(In), DC(DC) {}
  ASTContext *C = nullptr;
  bool shouldSkipFunctionBody(Decl *D) override {
    if (!C) return false;
    auto &SM = C->getSourceManager();
    SourceLocation L = SM.getExpansionLoc(D->getLocation());
    auto F = SM.getFilename(L);
    return !(F.contains("/projects/"));
  }
  void Initialize(ASTContext &Context) override { C = &Context; }
  void HandleTranslationUnit(ASTContext &Ctx) override {
    Emitter E(Ctx);
    Visitor V(E);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    json::Object o;
    o["tu"] = In;
    o["classes"] = std::move(E.Classes);
    o["functions"] = std::move(E.Functions);
    o["enums"] = std::move(E.Enums);
    o["vars"] = std::move(E.Vars);
    json::Array er; for (auto &s : DC.Errs) er.push_back(json::fixUTF8(s));
    o["errors"] = std::move(er);
    std::error_code EC;
    llvm::raw_fd_ostream os(OutPath, EC, llvm::sys::fs::OF_Append);
    os << json::Value(std::move(o)) << "\n";
  }
};
class Action : public ASTFrontendAction {
public:
  DiagCollect &DC;
  Action(DiagCollect &D) : DC(D) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef In) override {
    CI.getFrontendOpts().SkipFunctionBodies = true;
    return std::make_unique<Consumer>(In.str(), DC);
  }
  bool BeginInvocation(CompilerInstance &CI) override {
    CI.getFrontendOpts().SkipFunctionBodies = true;
    return true;
  }
};
class Factory : public tooling::FrontendActionFactory {
public:
  DiagCollect &DC; Factory(DiagCollect &D) : DC(D) {}
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(DC); }
};

// usage: extract ROOT OUT FLAGSFILE file...
int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: extract ROOT OUT FLAGS file...\n"; return 2; }
  Root = argv[1]; OutPath = argv[2];
  std::vector<std::string> flags;
  { std::ifstream f(argv[3]); std::string l; while (std::getline(f, l)) if (!l.empty()) flags.push_back(l); }
  std::error_code EC; { llvm::raw_fd_ostream os(OutPath, EC); }
  for (int i = 4; i < argc; ++i) {
    tooling::FixedCompilationDatabase DB(".", flags);
    DiagCollect DC;
    tooling::ClangTool T(DB, {argv[i]});
    T.setDiagnosticConsumer(&DC);
    Factory F(DC);
    T.run(&F);
  }
  return 0;
}
