// astdump: resolves a translation unit with clang and writes, as JSON, every instantiated
// (non-dependent) function and class that lies under one of the given path prefixes.
// usage: astdump OUT.json PREFIX[:PREFIX...] -- <source> <clang args>
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Path.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <deque>
using namespace clang;

static std::string OutPath;
static std::vector<std::string> Prefixes, Lazy; // Lazy: bodies written only when a call reaches them

static std::string esc(llvm::StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}

struct Dumper {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::map<std::string, int> typeIdx; std::vector<std::string> types;
  std::map<const Decl *, int> declIds; int nextId = 1;
  std::map<const FunctionDecl *, int> fnIds; std::deque<const FunctionDecl *> fnQueue; std::vector<const FunctionDecl*> fns;
  std::map<const CXXRecordDecl *, int> recIds; std::deque<const CXXRecordDecl *> recQueue;
  std::map<std::string, int> fileIdx; std::vector<std::string> files;
  llvm::raw_ostream &OS;
  Dumper(ASTContext &C, llvm::raw_ostream &OS) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), OS(OS) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.SuppressUnwrittenScope = true; PP.Bool = true;
  }
  int fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    std::string f = SM.getFilename(L).str();
    auto it = fileIdx.find(f); if (it != fileIdx.end()) return it->second;
    int i = files.size(); files.push_back(f); fileIdx[f] = i; return i;
  }
  int line(SourceLocation L) { if (L.isInvalid()) return 0; return SM.getExpansionLineNumber(L); }
  bool inScope(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = SM.getFilename(SM.getExpansionLoc(L)).str();
    for (auto &p : Prefixes) if (f.compare(0, p.size(), p) == 0) return true;
    return false;
  }
  bool inLazy(SourceLocation L) {
    if (L.isInvalid()) return false;
    llvm::SmallString<256> b(SM.getFilename(SM.getExpansionLoc(L))); llvm::sys::path::remove_dots(b, true); std::string f = b.str().str();
    for (auto &p : Lazy) if (f.compare(0, p.size(), p) == 0) return true;
    return false;
  }
  int ty(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getCanonicalType().getAsString(PP);
    auto it = typeIdx.find(s); if (it != typeIdx.end()) return it->second;
    int i = types.size(); types.push_back(s); typeIdx[s] = i; return i;
  }
  int did(const Decl *D) { D = D->getCanonicalDecl(); auto it = declIds.find(D); if (it != declIds.end()) return it->second; return declIds[D] = nextId++; }
  const FunctionDecl *key(const FunctionDecl *F) { return F->getCanonicalDecl(); }
  int fn(const FunctionDecl *F) {
    if (!F) return -1;
    F = key(F); auto it = fnIds.find(F); if (it != fnIds.end()) return it->second;
    int i = fns.size(); fnIds[F] = i; fns.push_back(F); fnQueue.push_back(F); return i;
  }
  int rec(const CXXRecordDecl *R) {
    if (!R) return -1;
    R = cast<CXXRecordDecl>(R->getCanonicalDecl()); auto it = recIds.find(R); if (it != recIds.end()) return it->second;
    int i = recIds.size(); recIds[R] = i; recQueue.push_back(R); return i;
  }
  std::string targ(const TemplateArgument &A) {
    std::string s; llvm::raw_string_ostream o(s);
    if (A.getKind() == TemplateArgument::Pack) { o << "["; bool f = true; for (auto &x : A.pack_elements()) { if (!f) o << ","; f = false; o << esc(targ1(x)); } o << "]"; return o.str(); }
    return esc(targ1(A));
  }
  std::string targ1(const TemplateArgument &A) {
    if (A.getKind() == TemplateArgument::Type) return A.getAsType().getCanonicalType().getAsString(PP);
    std::string s; llvm::raw_string_ostream o(s); A.print(PP, o, true); return o.str();
  }
  template <class L> std::string targs(const L &list) { std::string s = "["; bool f = true; for (auto &a : list) { if (!f) s += ","; f = false; s += targ(a); } return s + "]"; }

  // qualified name without template arguments
  std::string plain1(const NamedDecl *N) {
    std::string s = N->getNameAsString();
    if (auto *Ct = dyn_cast<CXXConstructorDecl>(N)) s = Ct->getParent()->getNameAsString();
    if (isa<CXXDestructorDecl>(N)) s = "~" + cast<CXXDestructorDecl>(N)->getParent()->getNameAsString();
    if (isa<CXXConversionDecl>(N)) s = "operator conversion";
    return s;
  }
  std::string plain(const NamedDecl *N) {
    std::string s = plain1(N);
    for (const DeclContext *D = N->getDeclContext(); D && !D->isTranslationUnit(); D = D->getParent()) {
      if (auto *NS = dyn_cast<NamespaceDecl>(D)) { if (NS->isInline() || NS->isAnonymousNamespace()) continue; s = NS->getNameAsString() + "::" + s; }
      else if (auto *R = dyn_cast<RecordDecl>(D)) s = R->getNameAsString() + "::" + s;
    }
    return s;
  }
  const APValue *constant(const VarDecl *VD) {
    const VarDecl *Def = nullptr; const Expr *I = VD->getAnyInitializer(Def);
    if (!I || !Def || I->isValueDependent() || I->isTypeDependent()) return nullptr;
    return Def->evaluateValue();
  }
  // ---- expressions: [kind, type, line, ...]
  std::string hd(const char *k, const Expr *E) { return std::string("[\"") + k + "\"," + std::to_string(ty(E->getType())) + "," + std::to_string(line(E->getBeginLoc())); }
  template <class R> std::string args(R r) { std::string s = "["; bool f = true; for (const Expr *a : r) { if (!f) s += ","; f = false; s += ex(a); } return s + "]"; }
  std::string ex(const Expr *E) {
    if (!E) return "null";
    if (auto *P = dyn_cast<ParenExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<FullExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return ex(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return ex(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return ex(P->getExpr());
    if (auto *P = dyn_cast<OpaqueValueExpr>(E)) return ex(P->getSourceExpr());
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<CastExpr>(E)) {
      bool expl = isa<ExplicitCastExpr>(E);
      switch (P->getCastKind()) {
      case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralCast: case CK_FloatingCast: case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: case CK_ToVoid: case CK_BitCast: case CK_ReinterpretMemberPointer: case CK_LValueBitCast: case CK_BaseToDerived: case CK_IntegralToPointer: case CK_PointerToIntegral: case CK_Dynamic:
        return hd("cast", E) + "," + esc(P->getCastKindName()) + "," + (expl ? "1" : "0") + "," + ex(P->getSubExpr()) + "]";
      case CK_UserDefinedConversion: case CK_ConstructorConversion:
        return ex(P->getSubExpr());
      case CK_UncheckedDerivedToBase: case CK_DerivedToBase:
        return hd("upcast", E) + "," + ex(P->getSubExpr()) + "]";
      default: return ex(P->getSubExpr());
      }
    }
    if (auto *L = dyn_cast<IntegerLiteral>(E)) { llvm::SmallString<32> s; L->getValue().toString(s, 10, E->getType()->isSignedIntegerType()); return hd("int", E) + "," + esc(s) + "]"; }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) { llvm::SmallString<64> s; L->getValue().toString(s, 0, 0); return hd("float", E) + "," + esc(s) + "]"; }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) return hd("bool", E) + "," + (L->getValue() ? "true" : "false") + "]";
    if (auto *L = dyn_cast<StringLiteral>(E)) { (void)L; return hd("str", E) + "," + (L->isOrdinary() ? esc(L->getString()) : std::string("\"\"")) + "]"; }
    if (auto *L = dyn_cast<CharacterLiteral>(E)) return hd("int", E) + "," + esc(std::to_string(L->getValue())) + "]";
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return hd("null", E) + "]";
    if (isa<CXXThisExpr>(E)) return hd("this", E) + "]";
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *V = D->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(V)) return hd("fn", E) + "," + std::to_string(fn(F)) + "," + esc(plain(V)) + "]";
      if (auto *EC = dyn_cast<EnumConstantDecl>(V)) { llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); return hd("int", E) + "," + esc(s) + "]"; }
      if (auto *VD = dyn_cast<VarDecl>(V)) {
        // compile-time constants of integral type (static const bool value, constexpr ...)
        if (!VD->isLocalVarDecl() && !isa<ParmVarDecl>(VD) && VD->getType().isConstQualified() && VD->getType()->isIntegralOrEnumerationType()) {
          if (const APValue *AV = constant(VD)) if (AV->isInt()) { llvm::SmallString<32> s; AV->getInt().toString(s, 10); return hd("int", E) + "," + esc(s) + "]"; }
        }
        if (!VD->isLocalVarDecl() && !isa<ParmVarDecl>(VD) && VD->getType().isConstQualified() && VD->getType()->isRealFloatingType()) {
          if (const APValue *AV = constant(VD)) if (AV->isFloat() && AV->getFloat().isFinite()) { llvm::SmallString<64> s; AV->getFloat().toString(s, 0, 0); return hd("float", E) + "," + esc(s) + "]"; }
        }
        bool local = VD->isLocalVarDecl() || isa<ParmVarDecl>(VD);
        std::string kind = isa<ParmVarDecl>(VD) ? "param" : (VD->isStaticLocal() ? "staticlocal" : (local ? "local" : "global"));
        return hd("ref", E) + "," + std::to_string(did(V)) + "," + esc(local ? V->getNameAsString() : plain(V)) + ",\"" + kind + "\"]";
      }
      return hd("ref", E) + "," + std::to_string(did(V)) + "," + esc(plain(V)) + ",\"other\"]";
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *V = M->getMemberDecl();
      if (auto *VD = dyn_cast<VarDecl>(V)) {
        if (VD->getType().isConstQualified() && VD->getType()->isIntegralOrEnumerationType())
          if (const APValue *AV = constant(VD)) if (AV->isInt()) { llvm::SmallString<32> s; AV->getInt().toString(s, 10); return hd("int", E) + "," + esc(s) + "]"; }
        return hd("ref", E) + "," + std::to_string(did(V)) + "," + esc(plain(V)) + ",\"global\"]";
      }
      if (auto *F = dyn_cast<FunctionDecl>(V)) return hd("memfn", E) + "," + ex(M->getBase()) + "," + std::to_string(fn(F)) + "]";
      int r = -1; if (auto *FD = dyn_cast<FieldDecl>(V)) r = rec(dyn_cast<CXXRecordDecl>(FD->getParent()));
      return hd("mem", E) + "," + ex(M->getBase()) + "," + esc(V->getNameAsString()) + "," + std::to_string(r) + "]";
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->getOpcode() == UO_PostInc || U->getOpcode() == UO_PostDec) op = "post" + op;
      return hd("un", E) + "," + esc(op) + "," + ex(U->getSubExpr()) + "]";
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      std::string op = B->getOpcodeStr().str();
      std::string k = B->isAssignmentOp() ? "asg" : "bin";
      std::string extra = "";
      if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) extra = "," + std::to_string(ty(CA->getComputationResultType()));
      return hd(k.c_str(), E) + "," + esc(op) + "," + ex(B->getLHS()) + "," + ex(B->getRHS()) + extra + "]";
    }
    if (auto *Q = dyn_cast<ConditionalOperator>(E)) return hd("cond", E) + "," + ex(Q->getCond()) + "," + ex(Q->getTrueExpr()) + "," + ex(Q->getFalseExpr()) + "]";
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) return hd("index", E) + "," + ex(A->getBase()) + "," + ex(A->getIdx()) + "]";
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      std::string caps = "["; bool f = true;
      auto ci = L->capture_init_begin();
      for (auto &cp : L->captures()) {
        if (!f) caps += ","; f = false;
        std::string vn = cp.capturesVariable() ? std::to_string(did(cp.getCapturedVar())) : "0";
        caps += "[" + vn + "," + (cp.getCaptureKind() == LCK_ByRef ? "1" : "0") + "," + (*ci ? ex(*ci) : "null") + "]"; ++ci;
      }
      caps += "]";
      const CXXMethodDecl *cop = L->getCallOperator();
      std::string fl = "["; bool ff = true;
      if (auto *FT = cop->getDescribedFunctionTemplate()) { for (auto *sp : FT->specializations()) { if (!ff) fl += ","; ff = false; fl += std::to_string(fn(sp)); } }
      else fl += std::to_string(fn(cop));
      fl += "]";
      return hd("lambda", E) + "," + fl + "," + caps + "]";
    }
    if (auto *K = dyn_cast<CXXOperatorCallExpr>(E)) {
      const FunctionDecl *F = K->getDirectCallee();
      auto it = K->arg_begin();
      std::string obj = "null"; 
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { obj = ex(*it); ++it; }
      std::string a = "["; bool f = true; for (; it != K->arg_end(); ++it) { if (!f) a += ","; f = false; a += ex(*it); } a += "]";
      return hd("call", E) + "," + std::to_string(fn(F)) + "," + obj + "," + a + "]";
    }
    if (auto *K = dyn_cast<CXXMemberCallExpr>(E)) {
      const CXXMethodDecl *F = K->getMethodDecl();
      return hd("call", E) + "," + std::to_string(fn(F)) + "," + (K->getImplicitObjectArgument() ? ex(K->getImplicitObjectArgument()) : "null") + "," + args(K->arguments()) + "]";
    }
    if (auto *K = dyn_cast<CallExpr>(E)) {
      const FunctionDecl *F = K->getDirectCallee();
      if (F) return hd("call", E) + "," + std::to_string(fn(F)) + ",null," + args(K->arguments()) + "]";
      return hd("icall", E) + "," + ex(K->getCallee()) + "," + args(K->arguments()) + "]";
    }
    if (auto *K = dyn_cast<CXXConstructExpr>(E)) {
      bool copy = K->getConstructor()->isCopyOrMoveConstructor();
      return hd("ctor", E) + "," + std::to_string(fn(K->getConstructor())) + "," + args(K->arguments()) + "," + (copy ? "1" : "0") + "]";
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return hd("zero", E) + "]";
    if (auto *I = dyn_cast<InitListExpr>(E)) {
      std::string a = "["; bool f = true; for (unsigned i = 0; i < I->getNumInits(); ++i) { if (!f) a += ","; f = false; a += ex(I->getInit(i)); } a += "]";
      return hd("init", E) + "," + a + "]";
    }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      std::string pl = "["; for (unsigned i = 0; i < N->getNumPlacementArgs(); ++i) { if (i) pl += ","; pl += ex(N->getPlacementArg(i)); } pl += "]";
      std::string asz = "null"; if (N->isArray()) if (auto o = N->getArraySize()) asz = ex(*o);
      return hd("new", E) + "," + pl + "," + asz + "," + (N->getInitializer() ? ex(N->getInitializer()) : "null") + "]";
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E)) return hd("delete", E) + "," + ex(D->getArgument()) + "]";
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) return hd("throw", E) + "," + ex(T->getSubExpr()) + "]";
    if (auto *S = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R; if (S->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); return hd("int", E) + "," + esc(s) + "]"; }
      return hd("sizeof", E) + "]";
    }
    if (auto *T = dyn_cast<TypeTraitExpr>(E)) return hd("bool", E) + "," + (T->getValue() ? "true" : "false") + "]";
    if (auto *PD = dyn_cast<CXXPseudoDestructorExpr>(E)) return hd("pseudodtor", E) + "," + ex(PD->getBase()) + "]";
    if (auto *PD = dyn_cast<CXXNoexceptExpr>(E)) return hd("bool", E) + "," + (PD->getValue() ? "true" : "false") + "]";
    std::string s = hd("unk", E) + "," + esc(E->getStmtClassName()) + ",["; bool f = true;
    for (const Stmt *c : E->children()) { if (auto *ce = dyn_cast_or_null<Expr>(c)) { if (!f) s += ","; f = false; s += ex(ce); } }
    return s + "]]";
  }
  std::string var(const VarDecl *V) {
    return "[" + std::to_string(did(V)) + "," + esc(V->getNameAsString()) + "," + std::to_string(ty(V->getType())) + "," + (V->getInit() ? ex(V->getInit()) : "null") + "," + (V->isStaticLocal() ? "1" : "0") + "]";
  }
  std::string st(const Stmt *S) {
    if (!S) return "null";
    std::string ln = std::to_string(line(S->getBeginLoc()));
    if (auto *E = dyn_cast<Expr>(S)) return "[\"expr\"," + ln + "," + ex(E) + "]";
    if (auto *B = dyn_cast<CompoundStmt>(S)) { std::string s = "[\"block\"," + ln + ",["; bool f = true; for (auto *c : B->body()) { if (!f) s += ","; f = false; s += st(c); } return s + "]]"; }
    if (auto *D = dyn_cast<DeclStmt>(S)) { std::string s = "[\"decl\"," + ln + ",["; bool f = true; for (auto *d : D->decls()) if (auto *V = dyn_cast<VarDecl>(d)) { if (!f) s += ","; f = false; s += var(V); } return s + "]]"; }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      std::string pre = "null";
      if (I->getInit()) pre = st(I->getInit());
      std::string cv = I->getConditionVariable() ? var(I->getConditionVariable()) : "null";
      if (I->isConstexpr()) { if (auto nd = I->getNondiscardedCase(C)) return *nd ? st(*nd) : "[\"null\"," + ln + "]"; }
      return "[\"if\"," + ln + "," + pre + "," + cv + "," + ex(I->getCond()) + "," + st(I->getThen()) + "," + st(I->getElse()) + "]";
    }
    if (auto *F = dyn_cast<ForStmt>(S)) return "[\"for\"," + ln + "," + st(F->getInit()) + "," + ex(F->getCond()) + "," + ex(F->getInc()) + "," + st(F->getBody()) + "]";
    if (auto *W = dyn_cast<WhileStmt>(S)) return "[\"while\"," + ln + "," + ex(W->getCond()) + "," + st(W->getBody()) + "]";
    if (auto *W = dyn_cast<DoStmt>(S)) return "[\"do\"," + ln + "," + ex(W->getCond()) + "," + st(W->getBody()) + "]";
    if (auto *R = dyn_cast<CXXForRangeStmt>(S)) return "[\"rfor\"," + ln + "," + var(R->getLoopVariable()) + "," + ex(R->getRangeInit()) + "," + st(R->getBody()) + "]";
    if (auto *R = dyn_cast<ReturnStmt>(S)) return "[\"ret\"," + ln + "," + ex(R->getRetValue()) + "]";
    if (isa<BreakStmt>(S)) return "[\"break\"," + ln + "]";
    if (isa<ContinueStmt>(S)) return "[\"continue\"," + ln + "]";
    if (isa<NullStmt>(S)) return "[\"null\"," + ln + "]";
    if (auto *W = dyn_cast<SwitchStmt>(S)) return "[\"switch\"," + ln + "," + ex(W->getCond()) + "," + st(W->getBody()) + "]";
    if (auto *K = dyn_cast<CaseStmt>(S)) return "[\"case\"," + ln + "," + ex(K->getLHS()) + "," + st(K->getSubStmt()) + "]";
    if (auto *K = dyn_cast<DefaultStmt>(S)) return "[\"default\"," + ln + "," + st(K->getSubStmt()) + "]";
    if (auto *T = dyn_cast<CXXTryStmt>(S)) { std::string s = "[\"try\"," + ln + "," + st(T->getTryBlock()) + ",["; for (unsigned i = 0; i < T->getNumHandlers(); ++i) { if (i) s += ","; s += st(T->getHandler(i)->getHandlerBlock()); } return s + "]]"; }
    if (auto *A = dyn_cast<AttributedStmt>(S)) return st(A->getSubStmt());
    if (auto *L = dyn_cast<LabelStmt>(S)) return st(L->getSubStmt());
    return "[\"unkstmt\"," + ln + "," + esc(S->getStmtClassName()) + "]";
  }

  void function(const FunctionDecl *F, int id, bool &first) {
    if (!first) OS << ",\n"; first = false;
    const FunctionDecl *Def = nullptr; bool has = F->hasBody(Def) && Def && !Def->isDependentContext();
    const FunctionDecl *L = has ? Def : F;
    bool sc = inScope(L->getLocation());
    OS << "{\"id\":" << id << ",\"name\":" << esc(plain1(F)) << ",\"q\":" << esc(plain(F));
    OS << ",\"file\":" << fileOf(L->getLocation()) << ",\"line\":" << line(L->getLocation());
    auto *M = dyn_cast<CXXMethodDecl>(F);
    if (M) { OS << ",\"rec\":" << rec(M->getParent()) << ",\"const\":" << (M->isConst() ? 1 : 0) << ",\"static\":" << (M->isStatic() ? 1 : 0); 
      OS << ",\"rt\":" << ty(C.getRecordType(M->getParent())); }
    const char *k = "fn"; if (isa<CXXConstructorDecl>(F)) k = "ctor"; else if (isa<CXXDestructorDecl>(F)) k = "dtor"; else if (isa<CXXConversionDecl>(F)) k = "conv"; else if (M) k = "method";
    OS << ",\"kind\":\"" << k << "\"";
    if (auto *Ct = dyn_cast<CXXConstructorDecl>(F)) { if (Ct->isCopyConstructor()) OS << ",\"copy\":1"; else if (Ct->isMoveConstructor()) OS << ",\"move\":1"; }
    if (M && M->isCopyAssignmentOperator()) OS << ",\"copyassign\":1";
    if (F->isDefaulted()) OS << ",\"defaulted\":1";
    if (F->isDeleted()) OS << ",\"deleted\":1";
    if (F->isImplicit()) OS << ",\"implicit\":1";
    if (F->getAccess() == AS_private) OS << ",\"access\":\"private\""; else if (F->getAccess() == AS_protected) OS << ",\"access\":\"protected\"";
    if (auto *TA = F->getTemplateSpecializationArgs()) OS << ",\"targs\":" << targs(TA->asArray());
    OS << ",\"ret\":" << ty(F->getReturnType());
    OS << ",\"params\":["; bool f = true;
    for (auto *P : L->parameters()) { if (!f) OS << ","; f = false; OS << "[" << did(P) << "," << esc(P->getNameAsString()) << "," << ty(P->getType()) << "]"; }
    OS << "],\"scope\":" << (sc ? 1 : 0);
    bool lz = !sc && has && inLazy(L->getLocation());
    if ((sc || lz) && has) {
      if (auto *Ct = dyn_cast<CXXConstructorDecl>(Def)) {
        OS << ",\"inits\":["; bool g = true;
        for (auto *I : Ct->inits()) {
          if (!g) OS << ","; g = false;
          if (I->isAnyMemberInitializer()) OS << "[\"field\"," << esc(I->getAnyMember()->getNameAsString()) << "," << ex(I->getInit()) << "," << line(I->getSourceLocation()) << "," << (I->isWritten() ? 1 : 0) << "]";
          else if (I->isBaseInitializer()) OS << "[\"base\"," << ty(QualType(I->getBaseClass(), 0)) << "," << ex(I->getInit()) << "," << line(I->getSourceLocation()) << "," << (I->isWritten() ? 1 : 0) << "]";
          else OS << "[\"delegating\",0," << ex(I->getInit()) << "," << line(I->getSourceLocation()) << ",1]";
        }
        OS << "]";
      }
      OS << ",\"body\":" << st(Def->getBody());
    }
    OS << "}";
  }
  void record(const CXXRecordDecl *R, int id, bool &first) {
    if (!first) OS << ",\n"; first = false;
    const CXXRecordDecl *D = R->getDefinition();
    const CXXRecordDecl *L = D ? D : R;
    OS << "{\"id\":" << id << ",\"q\":" << esc(plain(R)) << ",\"type\":" << ty(C.getRecordType(R)) << ",\"file\":" << fileOf(L->getLocation()) << ",\"line\":" << line(L->getLocation()) << ",\"scope\":" << (inScope(L->getLocation()) ? 1 : 0);
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) OS << ",\"targs\":" << targs(S->getTemplateArgs().asArray());
    if (D && !D->isDependentContext() && D->isCompleteDefinition()) {
      OS << ",\"bases\":["; bool f = true;
      for (auto &B : D->bases()) { if (!f) OS << ","; f = false; OS << "[" << ty(B.getType()) << "," << rec(B.getType()->getAsCXXRecordDecl()) << "]"; }
      OS << "],\"fields\":["; f = true;
      for (auto *Fd : D->fields()) { if (!f) OS << ","; f = false; OS << "[" << esc(Fd->getNameAsString()) << "," << ty(Fd->getType()) << "," << (Fd->isMutable() ? 1 : 0) << "," << line(Fd->getLocation()) << "]"; }
      OS << "],\"statics\":["; f = true;
      for (auto *d : D->decls()) if (auto *V = dyn_cast<VarDecl>(d)) { if (!f) OS << ","; f = false; OS << "[" << esc(V->getNameAsString()) << "," << ty(V->getType()) << "," << line(V->getLocation()) << "]"; }
      OS << "],\"typedefs\":{"; f = true;
      for (auto *d : D->decls()) if (auto *T = dyn_cast<TypedefNameDecl>(d)) if (!T->getUnderlyingType()->isDependentType()) { if (!f) OS << ","; f = false; OS << esc(T->getNameAsString()) << ":" << ty(T->getUnderlyingType()); }
      OS << "},\"friends\":" << (D->friend_begin() != D->friend_end() ? 1 : 0);
    }
    OS << "}";
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper &D; std::vector<std::string> globals;
  Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && Def && D.inScope(Def->getLocation())) D.fn(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isDependentContext() || !R->isThisDeclarationADefinition()) return true;
    if (D.inScope(R->getLocation())) D.rec(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (isa<ParmVarDecl>(V)) return true;
    if (!(V->hasGlobalStorage())) return true;
    if (V->getDeclContext()->isDependentContext() || V->getType()->isDependentType()) {
      // record uninstantiated statics too: their declared constness is visible
    }
    if (!D.inScope(V->getLocation())) return true;
    bool cst = V->getType().isConstQualified() || V->getType()->isReferenceType() || V->isConstexpr();
    bool empty = false;
    if (!V->getType()->isDependentType()) if (auto *R = V->getType()->getAsCXXRecordDecl()) if (R->hasDefinition()) empty = R->isEmpty();
    globals.push_back("{\"name\":" + esc(D.plain(V)) + ",\"type\":" + std::to_string(D.ty(V->getType())) + ",\"file\":" + std::to_string(D.fileOf(V->getLocation())) + ",\"line\":" + std::to_string(D.line(V->getLocation())) + ",\"const\":" + (cst ? "1" : "0") + ",\"empty\":" + (empty ? "1" : "0") + ",\"local\":" + (V->isStaticLocal() ? "1" : "0") + ",\"tls\":" + (V->getTLSKind() != VarDecl::TLS_None ? "1" : "0") + ",\"dependent\":" + ((V->getType()->isDependentType() || V->getDeclContext()->isDependentContext()) ? "1" : "0") + "}");
    return true;
  }
};

// uninstantiated class templates and their member names, for coverage accounting
struct TmplVisitor : RecursiveASTVisitor<TmplVisitor> {
  Dumper &D; std::vector<std::string> out; TmplVisitor(Dumper &D) : D(D) {}
  bool VisitClassTemplateDecl(ClassTemplateDecl *T) {
    if (!T->isThisDeclarationADefinition() || !D.inScope(T->getLocation())) return true;
    auto *R = T->getTemplatedDecl();
    std::string s = "{\"q\":" + esc(T->getQualifiedNameAsString()) + ",\"file\":" + std::to_string(D.fileOf(T->getLocation())) + ",\"line\":" + std::to_string(D.line(T->getLocation())) + ",\"methods\":["; bool f = true;
    for (auto *d : R->decls()) {
      const NamedDecl *N = nullptr;
      if (auto *M = dyn_cast<CXXMethodDecl>(d)) N = M; else if (auto *FT = dyn_cast<FunctionTemplateDecl>(d)) N = FT;
      if (N && !N->isImplicit()) { if (!f) s += ","; f = false; s += "[" + esc(N->getNameAsString()) + "," + std::to_string(D.line(N->getLocation())) + "]"; }
    }
    out.push_back(s + "]}"); return true;
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance &CI; Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    std::error_code EC; llvm::raw_fd_ostream OS(OutPath, EC);
    if (EC) { llvm::errs() << "cannot write " << OutPath << "\n"; exit(2); }
    Dumper D(C, OS); Visitor V(D); V.TraverseDecl(C.getTranslationUnitDecl());
    TmplVisitor TV(D); TV.TraverseDecl(C.getTranslationUnitDecl());
    OS << "{\"functions\":[\n"; bool first = true;
    // functions may add more functions and records while printing
    while (!D.fnQueue.empty()) { auto *F = D.fnQueue.front(); D.fnQueue.pop_front(); D.function(F, D.fnIds[F], first); }
    OS << "],\n\"records\":[\n"; first = true;
    while (!D.recQueue.empty()) { auto *R = D.recQueue.front(); D.recQueue.pop_front(); D.record(R, D.recIds[R], first); }
    OS << "],\n\"globals\":["; first = true; for (auto &g : V.globals) { if (!first) OS << ",\n"; first = false; OS << g; }
    OS << "],\n\"templates\":["; first = true; for (auto &g : TV.out) { if (!first) OS << ",\n"; first = false; OS << g; }
    OS << "],\n\"types\":["; first = true; for (auto &t : D.types) { if (!first) OS << ",\n"; first = false; OS << esc(t); }
    OS << "],\n\"files\":["; first = true; for (auto &t : D.files) { if (!first) OS << ",\n"; first = false; OS << esc(t); }
    OS << "]}\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};
int main(int argc, char **argv) {
  if (argc < 5) { llvm::errs() << "usage: astdump OUT PREFIXES -- SRC ARGS...\n"; return 2; }
  OutPath = argv[1];
  { std::string p = argv[2], cur; bool lazy = false;
    for (char c : p + ":") { if (c == ':' || c == ';') { if (!cur.empty()) (lazy ? Lazy : Prefixes).push_back(cur); cur.clear(); if (c == ';') lazy = true; } else cur += c; } }
  std::string src = argv[4]; std::vector<std::string> a;
  for (int i = 5; i < argc; ++i) a.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", a);
  tooling::ClangTool T(DB, {src});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
