// Typed-AST extractor: prints, as compact JSON, every function body, class,
// enum and global defined under a given root directory, as the clang front end
// resolves them under the project's own compile flags.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <memory>
#include <fstream>
#include <sstream>
using namespace clang;

static std::string g_root;

static std::string esc(llvm::StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"') o += "\\\"";
    else if (c == '\\') o += "\\\\";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::unique_ptr<ItaniumMangleContext> MC;
  std::ostringstream Fns, Cls, Glb, Enm;
  bool ff = true, fc = true, fg = true, fe = true;
  std::map<const Decl *, int> ids; int nextId = 1;
  std::set<const Decl *> seen;

  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()),
    MC(ItaniumMangleContext::create(c, c.getDiagnostics())) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    llvm::StringRef f = SM.getFilename(L);
    std::string s = f.str();
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      llvm::StringRef r = FE->getFileEntry().tryGetRealPathName();
      if (!r.empty()) s = r.str();
    }
    if (s.compare(0, g_root.size(), g_root) == 0) return s.substr(g_root.size());
    return "";
  }
  int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  char tc(QualType T) {
    if (T.isNull()) return '?';
    T = T.getNonReferenceType().getCanonicalType();
    if (T->isDependentType()) return '?';
    if (T->isBooleanType()) return 'b';
    if (T->isIntegralOrEnumerationType()) return 'i';
    if (T->isFloatingType()) return 'f';
    if (T->isPointerType() || T->isArrayType() || T->isNullPtrType() || T->isMemberPointerType()) return 'p';
    if (T->isVoidType()) return 'v';
    return 'c';
  }
  std::string key(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    std::string s; llvm::raw_string_ostream os(s);
    if (F->isExternC()) return F->getQualifiedNameAsString();
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(K, Ctor_Complete), os);
    else if (auto *D = dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(D, Dtor_Complete), os);
    else if (MC->shouldMangleDeclName(F)) MC->mangleName(GlobalDecl(F), os);
    else return F->getQualifiedNameAsString();
    return os.str();
  }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = ids.find(D); if (it != ids.end()) return it->second; return ids[D] = nextId++; }

  std::string list(std::vector<std::string> v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += v[i]; } return o + "]"; }
  std::string N(const char *k, SourceLocation L, std::vector<std::string> v = {}) {
    std::string o = std::string("[\"") + k + "\"," + std::to_string(line(L));
    for (auto &x : v) o += "," + x;
    return o + "]";
  }
  std::string q(char c) { return std::string("\"") + c + "\""; }
  std::string qs(const std::string &s) { return esc(s); }

  std::string constOf(const VarDecl *V) {
    // compile-time value of a constant variable, or null
    QualType T = V->getType();
    if (T->isReferenceType()) return "null";
    if (!T.isConstQualified() && !V->isConstexpr()) return "null";
    const VarDecl *Def = nullptr; const Expr *I = V->getAnyInitializer(Def);
    if (!I || I->isValueDependent()) return "null";
    Expr::EvalResult R;
    if (T->isIntegralOrEnumerationType() && I->EvaluateAsRValue(R, C) && R.Val.isInt())
      { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); return s.str().str(); }
    return "null";
  }

  std::string E(const Expr *X) {
    if (!X) return "null";
    SourceLocation L = X->getExprLoc();
    if (auto *e = dyn_cast<ParenExpr>(X)) return E(e->getSubExpr());
    if (auto *e = dyn_cast<ExprWithCleanups>(X)) return E(e->getSubExpr());
    if (auto *e = dyn_cast<MaterializeTemporaryExpr>(X)) return E(e->getSubExpr());
    if (auto *e = dyn_cast<CXXBindTemporaryExpr>(X)) return E(e->getSubExpr());
    if (auto *e = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) return E(e->getReplacement());
    if (auto *e = dyn_cast<CXXDefaultArgExpr>(X)) return E(e->getExpr());
    if (auto *e = dyn_cast<CXXDefaultInitExpr>(X)) return E(e->getExpr());
    if (auto *e = dyn_cast<ConstantExpr>(X)) return E(e->getSubExpr());
    if (auto *e = dyn_cast<CXXStdInitializerListExpr>(X)) return E(e->getSubExpr());
    if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) {
      Expr::EvalResult R;
      std::string v = "null";
      if (!e->isValueDependent() && e->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); v = s.str().str(); }
      return N("sizeof", L, {qs(ty(e->getTypeOfArgument())), v});
    }
    if (auto *e = dyn_cast<IntegerLiteral>(X)) { llvm::SmallString<32> s; e->getValue().toString(s, 10, e->getType()->isSignedIntegerType()); return N("int", L, {s.str().str()}); }
    if (auto *e = dyn_cast<CharacterLiteral>(X)) return N("int", L, {std::to_string(e->getValue())});
    if (auto *e = dyn_cast<CXXBoolLiteralExpr>(X)) return N("bool", L, {e->getValue() ? "1" : "0"});
    if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) return N("null", L);
    if (auto *e = dyn_cast<FloatingLiteral>(X)) {
      llvm::SmallString<64> buf;
      bool inv = false;
      std::string s = Lexer::getSpelling(SM.getSpellingLoc(e->getLocation()), buf, SM, C.getLangOpts(), &inv).str();
      if (inv || s.empty() || !(isdigit((unsigned char)s[0]) || s[0] == '.')) { llvm::SmallString<64> t; e->getValue().toString(t); s = t.str().str(); }
      while (!s.empty() && (s.back() == 'f' || s.back() == 'F' || s.back() == 'l' || s.back() == 'L')) s.pop_back();
      return N("flt", L, {qs(s)});
    }
    if (auto *e = dyn_cast<StringLiteral>(X)) return N("str", L, {qs(e->getBytes().str())});
    if (isa<PredefinedExpr>(X)) return N("str", L, {"\"\""});
    if (isa<CXXThisExpr>(X)) return N("this", L);
    if (auto *e = dyn_cast<DeclRefExpr>(X)) {
      const ValueDecl *D = e->getDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl>(D)) { llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); return N("enum", L, {qs(ec->getQualifiedNameAsString()), s.str().str()}); }
      if (auto *f = dyn_cast<FunctionDecl>(D)) return N("fn", L, {qs(key(f)), qs(f->getQualifiedNameAsString())});
      if (auto *v = dyn_cast<VarDecl>(D)) {
        char st = isa<ParmVarDecl>(v) ? 'p' : (v->hasLocalStorage() ? 'l' : (v->isStaticLocal() ? 's' : 'g'));
        return N("var", L, {std::to_string(id(v)), qs(st == 'g' ? v->getQualifiedNameAsString() : v->getNameAsString()), q(st), constOf(v), q(tc(v->getType()))});
      }
      return N("other", L, {qs("DeclRef"), "[]"});
    }
    if (auto *e = dyn_cast<MemberExpr>(X)) {
      const ValueDecl *D = e->getMemberDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl>(D)) { llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); return N("enum", L, {qs(ec->getQualifiedNameAsString()), s.str().str()}); }
      if (auto *v = dyn_cast<VarDecl>(D)) return N("var", L, {std::to_string(id(v)), qs(v->getQualifiedNameAsString()), q('g'), constOf(v), q(tc(v->getType()))});
      if (auto *f = dyn_cast<FieldDecl>(D)) return N("mem", L, {E(e->getBase()), qs(f->getQualifiedNameAsString()), q(tc(f->getType()))});
      if (auto *m = dyn_cast<CXXMethodDecl>(D)) return N("fn", L, {qs(key(m)), qs(m->getQualifiedNameAsString())});
      return N("other", L, {qs("Member"), list({E(e->getBase())})});
    }
    if (auto *e = dyn_cast<CXXOperatorCallExpr>(X)) {
      std::vector<std::string> a; for (auto *x : e->arguments()) a.push_back(E(x));
      const FunctionDecl *F = e->getDirectCallee();
      return N("ocall", L, {F ? qs(key(F)) : "null", F ? qs(F->getQualifiedNameAsString()) : "null", list(a), q(tc(X->getType()))});
    }
    if (auto *e = dyn_cast<CXXMemberCallExpr>(X)) {
      std::vector<std::string> a; for (auto *x : e->arguments()) a.push_back(E(x));
      const CXXMethodDecl *F = e->getMethodDecl();
      bool virt = false;
      const Expr *obj = e->getImplicitObjectArgument();
      if (F && F->isVirtual()) {
        virt = true;
        if (auto *me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens())) if (me->hasQualifier()) virt = false;
      }
      return N("mcall", L, {F ? qs(key(F)) : "null", F ? qs(F->getQualifiedNameAsString()) : "null", E(obj), list(a), virt ? "1" : "0", q(tc(X->getType()))});
    }
    if (auto *e = dyn_cast<CallExpr>(X)) {
      std::vector<std::string> a; for (auto *x : e->arguments()) a.push_back(E(x));
      const FunctionDecl *F = e->getDirectCallee();
      return N("call", L, {F ? qs(key(F)) : "null", F ? qs(F->getQualifiedNameAsString()) : E(e->getCallee()), list(a), q(tc(X->getType()))});
    }
    if (auto *e = dyn_cast<CXXConstructExpr>(X)) {
      const CXXConstructorDecl *K = e->getConstructor();
      if (e->getNumArgs() == 1 && K->isCopyOrMoveConstructor()) {
        return N("copy", L, {qs(ty(e->getType())), E(e->getArg(0))});
      }
      std::vector<std::string> a; for (auto *x : e->arguments()) a.push_back(E(x));
      return N("ctor", L, {qs(ty(e->getType())), qs(key(K)), list(a)});
    }
    if (auto *e = dyn_cast<CXXNewExpr>(X)) {
      const Expr *n = nullptr; if (e->isArray() && e->getArraySize()) n = *e->getArraySize();
      const Expr *ini = e->getInitializer();
      return N("new", L, {qs(ty(e->getAllocatedType())), E(ini), E(n), e->isArray() ? "1" : "0"});
    }
    if (auto *e = dyn_cast<CXXDeleteExpr>(X)) return N("delete", L, {e->isArrayForm() ? "1" : "0", E(e->getArgument())});
    if (auto *e = dyn_cast<CXXThrowExpr>(X)) return N("throw", L, {E(e->getSubExpr())});
    if (auto *e = dyn_cast<CXXScalarValueInitExpr>(X)) return N("zero", L, {qs(ty(e->getType()))});
    if (auto *e = dyn_cast<ImplicitValueInitExpr>(X)) return N("zero", L, {qs(ty(e->getType()))});
    if (auto *e = dyn_cast<CompoundAssignOperator>(X)) return N("asg", L, {qs(e->getOpcodeStr().str()), E(e->getLHS()), E(e->getRHS()), q(tc(e->getLHS()->getType()))});
    if (auto *e = dyn_cast<BinaryOperator>(X)) {
      if (e->getOpcode() == BO_Assign) return N("asg", L, {qs("="), E(e->getLHS()), E(e->getRHS()), q(tc(e->getLHS()->getType()))});
      return N("bin", e->getOperatorLoc(), {qs(e->getOpcodeStr().str()), E(e->getLHS()), E(e->getRHS()), q(tc(e->getType())), q(tc(e->getLHS()->getType()))});
    }
    if (auto *e = dyn_cast<UnaryOperator>(X)) {
      std::string op = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
      if (e->isIncrementDecrementOp()) op += e->isPrefix() ? "pre" : "post";
      return N("un", L, {qs(op), E(e->getSubExpr()), q(tc(e->getType()))});
    }
    if (auto *e = dyn_cast<ConditionalOperator>(X)) return N("cond", L, {E(e->getCond()), E(e->getTrueExpr()), E(e->getFalseExpr())});
    if (auto *e = dyn_cast<ArraySubscriptExpr>(X)) return N("idx", L, {E(e->getBase()), E(e->getIdx()), q(tc(e->getType()))});
    if (auto *e = dyn_cast<InitListExpr>(X)) {
      const InitListExpr *s = e->isSemanticForm() ? e : e->getSemanticForm(); if (!s) s = e;
      std::vector<std::string> a; for (unsigned i = 0; i < s->getNumInits(); i++) a.push_back(E(s->getInit(i)));
      return N("init", L, {list(a)});
    }
    if (auto *e = dyn_cast<CastExpr>(X)) {
      switch (e->getCastKind()) {
      case CK_IntegralToFloating: return N("cast", L, {"\"i2f\"", E(e->getSubExpr()), qs(ty(e->getType()))});
      case CK_FloatingToIntegral: return N("cast", L, {"\"f2i\"", E(e->getSubExpr()), qs(ty(e->getType()))});
      case CK_FloatingToBoolean: case CK_IntegralToBoolean: case CK_PointerToBoolean:
        return N("cast", L, {"\"2b\"", E(e->getSubExpr()), qs(ty(e->getType()))});
      case CK_Dynamic: return N("cast", L, {"\"dyn\"", E(e->getSubExpr()), qs(ty(e->getType()))});
      case CK_BaseToDerived: return N("cast", L, {"\"down\"", E(e->getSubExpr()), qs(ty(e->getType()))});
      case CK_BitCast: return N("cast", L, {"\"bit\"", E(e->getSubExpr()), qs(ty(e->getType()))});
      case CK_NullToPointer: return N("null", L);
      case CK_IntegralCast: {
        if (isa<ImplicitCastExpr>(e) ) return E(e->getSubExpr());
        return N("cast", L, {"\"int\"", E(e->getSubExpr()), qs(ty(e->getType()))}); }
      default: return E(e->getSubExpr());
      }
    }
    if (auto *e = dyn_cast<LambdaExpr>(X)) {
      std::vector<std::string> v;
      for (auto &c : e->captures()) if (c.capturesVariable()) if (auto *d = dyn_cast<VarDecl>(c.getCapturedVar()))
        v.push_back("[" + std::to_string(id(d)) + "," + (c.getCaptureKind() == LCK_ByRef ? "1," : "0,") + qs(d->getNameAsString()) + "," + q(tc(d->getType())) + "," + E(c.getCapturedVar()->isInitCapture() ? d->getInit() : nullptr) + "]");
      pending.push_back(e->getCallOperator());
      return N("lambda", L, {qs(key(e->getCallOperator())), list(v)});
    }
    std::vector<std::string> a;
    for (const Stmt *s : X->children()) if (auto *x = dyn_cast_or_null<Expr>(s)) a.push_back(E(x));
    return N("other", L, {qs(X->getStmtClassName()), list(a)});
  }

  std::string varDecl(const VarDecl *V) {
    const Expr *I = V->getInit();
    return N("decl", V->getLocation(), {std::to_string(id(V)), qs(V->getNameAsString()), qs(ty(V->getType())), E(I), V->isStaticLocal() ? "1" : "0", constOf(V)});
  }

  // range for over a vector or an array of known length, as a counted loop
  std::string rangeFor(const CXXForRangeStmt *s) {
    SourceLocation L = s->getBeginLoc();
    const Expr *R = s->getRangeInit(); QualType T = R->getType().getNonReferenceType();
    std::string i = std::to_string(nextId++);
    std::string iv = N("var", L, {i, "\"$i\"", "\"l\"", "null", "\"i\""}), end, elem;
    const VarDecl *V = s->getLoopVariable();
    QualType ET = V->getType().getNonReferenceType();
    if (auto *AT = C.getAsConstantArrayType(T)) {
      llvm::SmallString<32> n; AT->getSize().toString(n, 10, false);
      end = N("int", L, {n.str().str()}); elem = N("idx", L, {E(R), iv, q(tc(AT->getElementType()))});
    } else if (auto *RD = T->getAsCXXRecordDecl()) {
      while (!RD->isInStdNamespace() && RD->hasDefinition() && RD->getNumBases() == 1 && RD->bases_begin()->getType()->getAsCXXRecordDecl()) RD = RD->bases_begin()->getType()->getAsCXXRecordDecl();
      if (!RD->isInStdNamespace() || RD->getNameAsString() != "vector" || !RD->hasDefinition()) return "";
      RD = RD->getDefinition();
      const CXXMethodDecl *Sz = nullptr, *At = nullptr;
      for (auto *M : RD->methods()) {
        if (M->getNameAsString() == "size") Sz = M;
        if (M->getNameAsString() == "operator[]" && M->isConst() == T.isConstQualified()) At = M;
      }
      if (!Sz || !At) return "";
      end = N("mcall", L, {qs(key(Sz)), qs(Sz->getQualifiedNameAsString()), E(R), "[]", "0", "\"i\""});
      elem = N("ocall", L, {qs(key(At)), qs(At->getQualifiedNameAsString()), list({E(R), iv}), q(tc(ET))});
    } else return "";
    std::string d = N("decl", V->getLocation(), {std::to_string(id(V)), qs(V->getNameAsString()), qs(ty(V->getType())), elem, "0", "null"});
    return N("for", L, {N("decl", L, {i, "\"$i\"", "\"int\"", N("int", L, {"0"}), "0", "null"}), N("bin", L, {"\"<\"", iv, end, "\"b\"", "\"i\""}),
      N("un", L, {"\"++pre\"", iv, "\"i\""}), N("block", L, {list({d, S(s->getBody())})})});
  }

  std::string S(const Stmt *X) {
    if (!X) return "null";
    SourceLocation L = X->getBeginLoc();
    if (auto *s = dyn_cast<CompoundStmt>(X)) { std::vector<std::string> v; for (auto *c : s->body()) v.push_back(S(c)); return N("block", L, {list(v)}); }
    if (auto *s = dyn_cast<DeclStmt>(X)) {
      std::vector<std::string> v; for (auto *d : s->decls()) if (auto *vd = dyn_cast<VarDecl>(d)) v.push_back(varDecl(vd));
      if (v.size() == 1) return v[0];
      return N("decls", L, {list(v)});
    }
    if (auto *s = dyn_cast<AttributedStmt>(X)) return S(s->getSubStmt());
    if (auto *s = dyn_cast<IfStmt>(X)) {
      std::string r = N("if", L, {E(s->getCond()), S(s->getThen()), S(s->getElse())});
      if (!s->getInit() && !s->getConditionVariable()) return r;
      std::vector<std::string> v;
      if (s->getInit()) v.push_back(S(s->getInit()));
      if (auto *vd = s->getConditionVariable()) v.push_back(varDecl(vd));
      v.push_back(r);
      return N("block", L, {list(v)});
    }
    if (auto *s = dyn_cast<ForStmt>(X)) return N("for", L, {S(s->getInit()), E(s->getCond()), E(s->getInc()), S(s->getBody())});
    if (auto *s = dyn_cast<WhileStmt>(X)) return N("while", L, {E(s->getCond()), S(s->getBody())});
    if (auto *s = dyn_cast<DoStmt>(X)) return N("do", L, {S(s->getBody()), E(s->getCond())});
    if (auto *s = dyn_cast<CXXForRangeStmt>(X)) { std::string r = rangeFor(s); if (!r.empty()) return r; }
    if (auto *s = dyn_cast<CXXForRangeStmt>(X)) return N("frange", L, {varDecl(s->getLoopVariable()), E(s->getRangeInit()), S(s->getBody())});
    if (auto *s = dyn_cast<SwitchStmt>(X)) return N("switch", L, {E(s->getCond()), S(s->getBody())});
    if (auto *s = dyn_cast<CaseStmt>(X)) return N("case", L, {E(s->getLHS()), S(s->getSubStmt())});
    if (auto *s = dyn_cast<DefaultStmt>(X)) return N("default", L, {S(s->getSubStmt())});
    if (auto *s = dyn_cast<ReturnStmt>(X)) return N("return", L, {E(s->getRetValue())});
    if (isa<BreakStmt>(X)) return N("break", L);
    if (isa<ContinueStmt>(X)) return N("continue", L);
    if (isa<NullStmt>(X)) return N("nop", L);
    if (auto *s = dyn_cast<LabelStmt>(X)) return N("label", L, {S(s->getSubStmt())});
    if (isa<GotoStmt>(X)) return N("goto", L);
    if (auto *s = dyn_cast<CXXTryStmt>(X)) {
      std::vector<std::string> v; for (unsigned i = 0; i < s->getNumHandlers(); i++) v.push_back(S(s->getHandler(i)->getHandlerBlock()));
      return N("try", L, {S(s->getTryBlock()), list(v)});
    }
    if (auto *e = dyn_cast<Expr>(X)) return E(e);
    return N("ostmt", L, {qs(X->getStmtClassName())});
  }

  std::vector<const FunctionDecl *> pending;
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return true;
    if (!F->doesThisDeclarationHaveABody()) return true;
    if (F->isDependentContext() || F->getDescribedFunctionTemplate()) return true;
    if (F->isImplicit()) return true;
    std::string f = file(F->getLocation());
    if (f.empty()) return true;
    if (!seen.insert(F).second) return true;
    if (!ff) Fns << ",\n"; ff = false;
    Fns << "{\"key\":" << qs(key(F)) << ",\"qual\":" << qs(F->getQualifiedNameAsString())
        << ",\"name\":" << qs(F->getNameAsString()) << ",\"file\":" << qs(f)
        << ",\"line\":" << line(F->getLocation()) << ",\"end\":" << line(F->getBody()->getEndLoc())
        << ",\"ret\":" << qs(ty(F->getReturnType()));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      std::string cs; llvm::raw_string_ostream os(cs); C.getRecordType(M->getParent()).getCanonicalType().print(os, PP);
      Fns << ",\"class\":" << qs(os.str()) << ",\"virtual\":" << (M->isVirtual() ? 1 : 0)
          << ",\"lambda\":" << (M->getParent()->isLambda() ? 1 : 0) << ",\"static\":" << (M->isStatic() ? 1 : 0) << ",\"const\":" << (M->isConst() ? 1 : 0);
      Fns << ",\"overrides\":["; bool f1 = true;
      for (auto *o : M->overridden_methods()) { if (!f1) Fns << ","; f1 = false; Fns << qs(key(o)); }
      Fns << "]";
    }
    const char *k = isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : "fn";
    Fns << ",\"kind\":\"" << k << "\",\"params\":[";
    for (unsigned i = 0; i < F->getNumParams(); i++) {
      auto *P = F->getParamDecl(i);
      if (i) Fns << ",";
      Fns << "[" << id(P) << "," << qs(P->getNameAsString()) << "," << qs(ty(P->getType())) << "]";
    }
    Fns << "]";
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      Fns << ",\"inits\":["; bool f1 = true;
      for (auto *I : K->inits()) {
        if (!I->isWritten() && !I->isInClassMemberInitializer() && !I->isBaseInitializer()) continue;
        if (!f1) Fns << ","; f1 = false;
        if (I->isMemberInitializer()) Fns << "[\"f\"," << qs(I->getMember()->getQualifiedNameAsString()) << "," << E(I->getInit()) << "]";
        else Fns << "[\"b\"," << qs(I->getBaseClass() ? ty(QualType(I->getBaseClass(), 0)) : std::string("")) << "," << E(I->getInit()) << "]";
      }
      Fns << "]";
    }
    Fns << ",\"body\":" << S(F->getBody()) << "}";
    while (!pending.empty()) { const FunctionDecl *p = pending.back(); pending.pop_back(); VisitFunctionDecl(const_cast<FunctionDecl *>(p)); }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isImplicit()) return true;
    SourceLocation RL = R->getLocation();
    // an explicit instantiation belongs to the template it instantiates
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) if (!S->isExplicitSpecialization()) RL = S->getSpecializedTemplate()->getTemplatedDecl()->getLocation();
    std::string f = file(RL); if (f.empty()) return true;
    if (!seen.insert(R).second) return true;
    if (!fc) Cls << ",\n"; fc = false;
    std::string cs; llvm::raw_string_ostream os(cs); C.getRecordType(R).getCanonicalType().print(os, PP);
    Cls << "{\"qual\":" << qs(os.str()) << ",\"file\":" << qs(f) << ",\"line\":" << line(R->getLocation())
        << ",\"abstract\":" << (R->isAbstract() ? 1 : 0) << ",\"bases\":["; bool f1 = true;
    for (auto &B : R->bases()) { if (!f1) Cls << ","; f1 = false; Cls << qs(ty(B.getType())); }
    Cls << "],\"fields\":["; f1 = true;
    for (auto *F : R->fields()) { if (!f1) Cls << ","; f1 = false;
      Cls << "[" << qs(F->getQualifiedNameAsString()) << "," << qs(ty(F->getType())) << "," << line(F->getLocation()) << "," << (F->hasInClassInitializer() ? E(F->getInClassInitializer()) : std::string("null")) << "]"; }
    Cls << "],\"methods\":["; f1 = true;
    for (auto *M : R->methods()) { if (M->isImplicit()) continue; if (!f1) Cls << ","; f1 = false;
      Cls << "[" << qs(key(M)) << "," << qs(M->getQualifiedNameAsString()) << "," << (M->isVirtual() ? 1 : 0) << "," << (M->isPureVirtual() ? 1 : 0) << ",[";
      bool f2 = true; for (auto *o : M->overridden_methods()) { if (!f2) Cls << ","; f2 = false; Cls << qs(key(o)); }
      Cls << "]]"; }
    Cls << "]}";
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || isa<ParmVarDecl>(V)) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (!V->hasInit()) return true;
    std::string f = file(V->getLocation()); if (f.empty()) return true;
    if (!seen.insert(V).second) return true;
    if (!fg) Glb << ",\n"; fg = false;
    Glb << "{\"qual\":" << qs(V->getQualifiedNameAsString()) << ",\"file\":" << qs(f) << ",\"line\":" << line(V->getLocation())
        << ",\"type\":" << qs(ty(V->getType())) << ",\"const\":" << (V->getType().isConstQualified() ? 1 : 0)
        << ",\"init\":" << E(V->getInit()) << "}";
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!D->isThisDeclarationADefinition() || D->isDependentContext()) return true;
    std::string f = file(D->getLocation()); if (f.empty()) return true;
    if (!seen.insert(D).second) return true;
    if (!fe) Enm << ",\n"; fe = false;
    Enm << "{\"qual\":" << qs(D->getQualifiedNameAsString()) << ",\"file\":" << qs(f) << ",\"line\":" << line(D->getLocation()) << ",\"vals\":["; bool f1 = true;
    for (auto *c : D->enumerators()) { if (!f1) Enm << ","; f1 = false; llvm::SmallString<32> s; c->getInitVal().toString(s, 10); Enm << "[" << qs(c->getQualifiedNameAsString()) << "," << s.str().str() << "]"; }
    Enm << "]}";
    return true;
  }
};

static std::string g_out;
class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    D.TraverseDecl(C.getTranslationUnitDecl());
    std::ofstream o(g_out);
    o << "{\"functions\":[\n" << D.Fns.str() << "],\n\"classes\":[\n" << D.Cls.str() << "],\n\"globals\":[\n" << D.Glb.str() << "],\n\"enums\":[\n" << D.Enm.str() << "]}\n";
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, char **argv) {
  // extract ROOT OUT SOURCE -- flags...
  if (argc < 5) { return 2; }
  g_root = argv[1]; if (g_root.back() != '/') g_root += '/';
  g_out = argv[2];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {argv[3]});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
