// Fact extractor: parses one translation unit with clang and writes the resolved program
// (functions with bodies incl. template instantiations and lambdas, records, enums, globals)
// as JSON. Nothing is executed; the analyses in /verif/sa work on this output.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Basic/Builtins.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

using namespace clang;

static std::string gOut;
static std::vector<std::string> gRoots; // only decls under these roots get bodies

namespace {

struct W { // tiny JSON writer
  std::string s;
  void raw(const char *p) { s += p; }
  void raw(const std::string &p) { s += p; }
  void str(llvm::StringRef v) {
    s += '"';
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { s += '\\'; s += c; }
      else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); s += b; }
      else s += c;
    }
    s += '"';
  }
};

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  ASTContext &C; SourceManager &SM; W w; std::unique_ptr<MangleContext> MC;
  std::map<const Decl *, std::string> ids; std::set<std::string> done;
  std::map<std::string, int> files; std::vector<std::string> fileNames;
  std::map<std::string, int> types; std::vector<std::string> typeNames;
  std::map<const Decl *, int> locals; int nextLocal = 1;
  std::vector<const FunctionDecl *> work; std::set<const FunctionDecl *> queued;
  PrintingPolicy PP; bool firstFn = true;
  std::set<const CXXRecordDecl *> recs; std::vector<const CXXRecordDecl *> recWork;
  std::set<const EnumDecl *> enums; std::vector<const EnumDecl *> enumWork;
  std::set<const VarDecl *> globals; std::vector<const VarDecl *> globalWork;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), MC(C.createMangleContext()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    llvm::StringRef rp = F->getFileEntry().tryGetRealPathName();
    return rp.empty() ? F->getName().str() : rp.str();
  }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = fileOf(L);
    for (auto &r : gRoots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  int fileIdx(SourceLocation L) {
    std::string f = fileOf(L);
    auto it = files.find(f);
    if (it != files.end()) return it->second;
    int i = (int)fileNames.size(); files[f] = i; fileNames.push_back(f); return i;
  }
  int line(SourceLocation L) { return L.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(L); }
  int typeIdx(QualType T) {
    std::string n = T.isNull() ? "" : T.getCanonicalType().getAsString(PP);
    auto it = types.find(n);
    if (it != types.end()) return it->second;
    int i = (int)typeNames.size(); types[n] = i; typeNames.push_back(n); return i;
  }
  std::string recName(const RecordDecl *R) {
    if (auto *CR = dyn_cast<CXXRecordDecl>(R)) { if (CR->isLambda()) return "lambda@" + locStr(CR->getLocation()); queueRec(CR); }
    return C.getRecordType(R).getCanonicalType().getAsString(PP);
  }
  std::string locStr(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    std::string f = fileOf(L); auto p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
    return f + ":" + std::to_string(SM.getExpansionLineNumber(L)) + ":" + std::to_string(SM.getExpansionColumnNumber(L));
  }
  void queueRec(const CXXRecordDecl *R) {
    if (!R->hasDefinition()) return; R = R->getDefinition();
    if (R->isDependentContext() || R->isLambda()) return;
    if (recs.insert(R).second) recWork.push_back(R);
  }
  std::string fnId(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto it = ids.find(F); if (it != ids.end()) return it->second;
    std::string r;
    if (F->isDependentContext()) r = "dep:" + F->getQualifiedNameAsString() + "@" + locStr(F->getLocation());
    else {
      llvm::raw_string_ostream os(r);
      GlobalDecl GD;
      if (auto *K = dyn_cast<CXXConstructorDecl>(F)) GD = GlobalDecl(K, Ctor_Complete);
      else if (auto *D = dyn_cast<CXXDestructorDecl>(F)) GD = GlobalDecl(D, Dtor_Complete);
      else GD = GlobalDecl(F);
      if (MC->shouldMangleDeclName(F)) MC->mangleName(GD, os);
      else os << F->getNameAsString();
      os.flush();
      bool lam = false;
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) lam = M->getParent()->isLambda();
      if (lam || !F->isExternallyVisible()) r += "@" + locStr(F->getLocation());
      if (lam && F->isExternallyVisible() == false) {}
    }
    ids[F] = r; return r;
  }
  int localId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = locals.find(D); if (it != locals.end()) return it->second;
    int i = nextLocal++; locals[D] = i; return i;
  }
  std::string qual(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s); D->getNameForDiagnostic(os, PP, true); os.flush();
    return s;
  }
  std::string plainQual(const NamedDecl *D) { // without template args of the function itself
    return D->getQualifiedNameAsString();
  }
  void queueFn(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def)) { if (F->getTemplateInstantiationPattern() == nullptr) return; return; }
    if (queued.insert(Def->getCanonicalDecl()).second) work.push_back(Def);
  }
  // ---------------------------------------------------------------- expressions
  void T(QualType t) { w.raw(",\"t\":" + std::to_string(typeIdx(t))); }
  void LV(const Expr *E) { if (E->isGLValue()) w.raw(",\"lv\":1"); }
  void L(SourceLocation l) { w.raw(",\"l\":" + std::to_string(line(l))); }
  void args(llvm::ArrayRef<const Expr *> a) {
    w.raw("["); bool f = true; for (auto *e : a) { if (!f) w.raw(","); f = false; expr(e); } w.raw("]");
  }
  template <class It> void argsIt(It b, It e) { std::vector<const Expr *> v(b, e); args(v); }
  // positions of parameters that are mutable references to scalars (needed where the callee has no body)
  void outParams(const FunctionDecl *F) {
    if (F->isTemplated()) return;
    std::string r; int i = 0;
    for (auto *P : F->parameters()) {
      QualType t = P->getType();
      if (t->isLValueReferenceType() && !t->getPointeeType().isConstQualified() && t->getPointeeType()->isScalarType()) r += (r.empty() ? "" : ",") + std::to_string(i);
      ++i;
    }
    if (!r.empty()) w.raw(",\"pr\":[" + r + "]");
  }
  void fnRef(const FunctionDecl *F) {
    w.raw(",\"f\":"); w.str(fnId(F)); w.raw(",\"n\":"); w.str(F->getNameAsString());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      w.raw(",\"c\":"); w.str(recName(M->getParent()));
      if (M->isVirtual()) w.raw(",\"v\":1");
      if (M->isStatic()) w.raw(",\"st\":1");
    } else { w.raw(",\"q\":"); w.str(plainQual(F)); }
    if (F->isTrivial() && (isa<CXXConstructorDecl>(F) || F->isOverloadedOperator())) w.raw(",\"tr\":1");
    if (F->isDefaulted() && !F->isTrivial()) w.raw(",\"df\":1");
    queueFn(F);
  }
  void enumRef(const EnumDecl *E) {
    if (!E || E->isDependentContext()) return;
    const EnumDecl *D = E->getDefinition() ? E->getDefinition() : E->isFixed() ? E->getCanonicalDecl() : nullptr; // an opaque declaration is complete too
    if (D && enums.insert(D).second) enumWork.push_back(D);
  }
  void expr(const Expr *E) {
    if (!E) { w.raw("null"); return; }
    // transparent wrappers
    for (;;) {
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { w.raw("{\"k\":\"def\",\"e\":"); expr(X->getExpr()); w.raw("}"); return; }
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) {
        if (X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_NoOp) E = X->getSubExpr(); else break;
      }
      else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
        case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
          E = X->getSubExpr(); continue;
        default: break;
        }
        break;
      } else break;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      llvm::SmallString<32> b; X->getValue().toString(b, 10, X->getType()->isSignedIntegerType());
      w.raw("{\"k\":\"int\",\"v\":"); w.raw(std::string(b.str())); T(E->getType()); w.raw("}"); return;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { w.raw("{\"k\":\"int\",\"v\":" + std::to_string((int)X->getValue())); T(E->getType()); w.raw("}"); return; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { w.raw(X->getValue() ? "{\"k\":\"int\",\"v\":1" : "{\"k\":\"int\",\"v\":0"); T(E->getType()); w.raw("}"); return; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { w.raw("{\"k\":\"flt\",\"v\":" + std::to_string(X->getValueAsApproximateDouble())); T(E->getType()); w.raw("}"); return; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { w.raw("{\"k\":\"str\",\"v\":"); w.str(X->getCharByteWidth() == 1 ? X->getString() : "<wide>"); w.raw("}"); return; }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { (void)X; w.raw("{\"k\":\"str\",\"v\":\"__func__\"}"); return; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { w.raw("{\"k\":\"null\"}"); return; }
    if (isa<CXXThisExpr>(E)) { w.raw("{\"k\":\"this\""); T(E->getType()); w.raw("}"); return; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        llvm::SmallString<32> b; EC->getInitVal().toString(b, 10);
        enumRef(dyn_cast<EnumDecl>(EC->getDeclContext()));
        w.raw("{\"k\":\"int\",\"v\":"); w.raw(std::string(b.str())); w.raw(",\"e\":"); w.str(qual(EC)); T(E->getType()); w.raw("}"); return;
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { w.raw("{\"k\":\"fref\""); fnRef(F); L(E->getBeginLoc()); w.raw("}"); return; }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        bool local = V->isLocalVarDeclOrParm() && !V->isStaticLocal();
        if (!local || V->isConstexpr()) {
          Expr::EvalResult R;
          if (!V->getType()->isDependentType() && E->getType()->isIntegralOrEnumerationType() && V->getType().isConstQualified() && V->hasInit() && !E->isValueDependent() && E->EvaluateAsRValue(R, C) && R.Val.isInt()) {
            llvm::SmallString<32> b; R.Val.getInt().toString(b, 10);
            w.raw("{\"k\":\"int\",\"v\":"); w.raw(std::string(b.str())); w.raw(",\"cv\":"); w.str(V->getNameAsString()); T(E->getType()); w.raw("}"); return;
          }
        }
        if (!local) {
          if (globals.insert(V).second) globalWork.push_back(V);
          w.raw("{\"k\":\"gref\",\"n\":"); w.str(plainQual(V)); T(E->getType()); L(E->getBeginLoc()); w.raw("}"); return;
        }
        w.raw("{\"k\":\"ref\",\"d\":" + std::to_string(localId(V)) + ",\"n\":"); w.str(V->getNameAsString()); T(E->getType()); L(E->getBeginLoc());
        if (V->getType()->isReferenceType()) w.raw(",\"r\":1");
        w.raw("}"); return;
      }
      if (auto *B = dyn_cast<BindingDecl>(D)) {
        w.raw("{\"k\":\"ref\",\"d\":" + std::to_string(localId(B)) + ",\"n\":"); w.str(B->getNameAsString()); T(E->getType()); w.raw(",\"r\":1}"); return;
      }
      w.raw("{\"k\":\"other\",\"n\":"); w.str(D->getNameAsString()); w.raw("}"); return;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { w.raw("{\"k\":\"mfref\",\"b\":"); expr(X->getBase()); fnRef(F); L(X->getMemberLoc()); w.raw("}"); return; }
      if (auto *V = dyn_cast<VarDecl>(D)) { // static member
        Expr::EvalResult R;
        if (V->getType().isConstQualified() && E->EvaluateAsRValue(R, C) && R.Val.isInt()) {
          llvm::SmallString<32> b; R.Val.getInt().toString(b, 10);
          w.raw("{\"k\":\"int\",\"v\":"); w.raw(std::string(b.str())); T(E->getType()); w.raw("}"); return; }
        if (globals.insert(V).second) globalWork.push_back(V);
        w.raw("{\"k\":\"gref\",\"n\":"); w.str(plainQual(V)); T(E->getType()); w.raw("}"); return;
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        llvm::SmallString<32> b; EC->getInitVal().toString(b, 10);
        w.raw("{\"k\":\"int\",\"v\":"); w.raw(std::string(b.str())); w.raw(",\"e\":"); w.str(qual(EC)); T(E->getType()); w.raw("}"); return; }
      w.raw("{\"k\":\"mem\",\"b\":"); expr(X->getBase()); w.raw(",\"n\":"); 
      std::string nm = D->getNameAsString();
      if (nm.empty()) nm = "<anon>";
      w.str(nm);
      if (auto *FD = dyn_cast<FieldDecl>(D)) { w.raw(",\"c\":"); w.str(recName(FD->getParent())); if (FD->getType()->isReferenceType()) w.raw(",\"r\":1"); }
      if (X->isArrow()) w.raw(",\"ar\":1");
      T(E->getType()); L(X->getMemberLoc()); w.raw("}"); return;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      const CXXMethodDecl *M = X->getMethodDecl();
      if (M) {
        w.raw("{\"k\":\"call\""); fnRef(M); outParams(M); w.raw(",\"o\":");
        auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
        expr(X->getImplicitObjectArgument());
        bool arrow = ME && ME->isArrow();
        if (arrow) w.raw(",\"ar\":1");
        w.raw(",\"a\":"); argsIt(X->arg_begin(), X->arg_end()); T(X->getType()); LV(X); L(X->getExprLoc());
        if (M->isVirtual() && ME && ME->hasQualifier()) w.raw(",\"nv\":1");
        w.raw("}"); return;
      }
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      if (auto *F = dyn_cast_or_null<FunctionDecl>(X->getCalleeDecl())) {
        auto *M = dyn_cast<CXXMethodDecl>(F);
        w.raw("{\"k\":\"call\""); fnRef(F); w.raw(",\"op\":"); w.str(getOperatorSpelling(X->getOperator()));
        if (M && !M->isStatic()) {
          w.raw(",\"o\":"); expr(X->getArg(0)); w.raw(",\"a\":"); argsIt(X->arg_begin() + 1, X->arg_end());
        } else { w.raw(",\"a\":"); argsIt(X->arg_begin(), X->arg_end()); }
        T(X->getType()); LV(X); L(X->getExprLoc()); w.raw("}"); return;
      }
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      if (auto *F = X->getDirectCallee()) {
        w.raw("{\"k\":\"call\""); fnRef(F); outParams(F); if (F->getBuiltinID()) w.raw(",\"bi\":1");
        w.raw(",\"a\":"); argsIt(X->arg_begin(), X->arg_end()); T(X->getType()); LV(X); L(X->getExprLoc()); w.raw("}"); return;
      }
      w.raw("{\"k\":\"icall\",\"fn\":"); expr(X->getCallee()); w.raw(",\"a\":"); argsIt(X->arg_begin(), X->arg_end()); T(X->getType()); LV(X); L(X->getExprLoc()); w.raw("}"); return;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *K = X->getConstructor();
      if (X->isElidable() && X->getNumArgs() == 1) { expr(X->getArg(0)); return; }
      w.raw("{\"k\":\"ctor\""); fnRef(K);
      if (K->isCopyConstructor()) w.raw(",\"cc\":1"); if (K->isMoveConstructor()) w.raw(",\"mc\":1");
      w.raw(",\"a\":"); argsIt(X->arg_begin(), X->arg_end()); T(X->getType()); LV(X); L(X->getExprLoc());
      if (isa<CXXTemporaryObjectExpr>(X)) w.raw(",\"tmp\":1");
      w.raw("}"); return;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { w.raw("{\"k\":\"ictor\""); fnRef(X->getConstructor()); T(X->getType()); LV(X); L(X->getExprLoc()); w.raw("}"); return; }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      w.raw("{\"k\":\"un\",\"op\":"); 
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) op = "p" + op;
      w.str(op); w.raw(",\"a\":"); expr(X->getSubExpr()); T(E->getType()); LV(E); L(X->getOperatorLoc()); w.raw("}"); return;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      w.raw("{\"k\":\"bin\",\"op\":"); w.str(X->getOpcodeStr()); w.raw(",\"x\":"); expr(X->getLHS()); w.raw(",\"y\":"); expr(X->getRHS()); T(E->getType()); LV(E); L(X->getOperatorLoc()); w.raw("}"); return;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      w.raw("{\"k\":\"cond\",\"c\":"); expr(X->getCond()); w.raw(",\"x\":"); expr(X->getTrueExpr()); w.raw(",\"y\":"); expr(X->getFalseExpr()); T(E->getType()); LV(E); L(X->getQuestionLoc()); w.raw("}"); return;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      w.raw("{\"k\":\"sub\",\"b\":"); expr(X->getBase()); w.raw(",\"i\":"); expr(X->getIdx()); T(E->getType()); L(X->getExprLoc()); w.raw("}"); return;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      const Expr *Sub = X->getSubExpr();
      if (isa<CXXConstCastExpr>(X)) { w.raw("{\"k\":\"def\",\"cc\":1,\"e\":"); expr(Sub); T(E->getType()); LV(E); L(E->getBeginLoc()); w.raw("}"); return; }
      // a user-defined conversion inside an explicit cast shows up as the sub expression
      if (!isa<ImplicitCastExpr>(X) && (X->getCastKind() == CK_NoOp || X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_UserDefinedConversion || X->getCastKind() == CK_LValueToRValue)) { expr(Sub); return; }
      w.raw("{\"k\":\"cast\",\"ck\":"); w.str(X->getCastKindName()); 
      if (!isa<ImplicitCastExpr>(X)) w.raw(",\"x\":1");
      w.raw(",\"a\":"); expr(Sub); T(E->getType()); LV(E); L(E->getBeginLoc()); w.raw("}"); return;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (auto *S = X->isSemanticForm() ? nullptr : X->getSemanticForm()) X = S;
      w.raw("{\"k\":\"init\",\"a\":"); argsIt((Expr*const*)X->begin(), (Expr*const*)X->end());
      if (auto *RD = X->getType()->getAsCXXRecordDecl()) { queueRec(RD); w.raw(",\"c\":"); w.str(recName(RD)); }
      if (auto *UF = X->getInitializedFieldInUnion()) { w.raw(",\"uf\":"); w.str(UF->getNameAsString()); }
      T(X->getType()); L(X->getBeginLoc()); w.raw("}"); return;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { w.raw("{\"k\":\"zero\""); T(E->getType()); w.raw("}"); return; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      w.raw("{\"k\":\"new\",\"nt\":" + std::to_string(typeIdx(X->getAllocatedType())) + ",\"pl\":");
      std::vector<const Expr *> pl; for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) pl.push_back(X->getPlacementArg(i));
      args(pl); w.raw(",\"in\":"); expr(X->getInitializer());
      if (X->isArray()) { w.raw(",\"arr\":1"); if (auto S = X->getArraySize()) if (*S) { w.raw(",\"sz\":"); expr(*S); } }
      if (auto *F = X->getOperatorNew()) { w.raw(",\"onew\":"); w.str(qual(F)); w.raw(",\"onp\":" + std::to_string(F->getNumParams())); if (F->isReservedGlobalPlacementOperator()) w.raw(",\"res\":1"); }
      T(E->getType()); L(E->getBeginLoc()); w.raw("}"); return;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { w.raw("{\"k\":\"delete\",\"a\":"); expr(X->getArgument()); if (X->isArrayForm()) w.raw(",\"arr\":1"); L(E->getBeginLoc()); w.raw("}"); return; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      const CXXRecordDecl *R = X->getLambdaClass(); 
      w.raw("{\"k\":\"lambda\",\"id\":"); w.str(recName(R)); 
      w.raw(",\"caps\":["); bool f = true;
      auto it = X->capture_init_begin();
      for (auto &cp : X->captures()) {
        if (!f) w.raw(","); f = false;
        w.raw("{"); 
        if (cp.capturesThis()) w.raw("\"this\":1");
        else if (cp.capturesVariable()) { w.raw("\"d\":" + std::to_string(localId(cp.getCapturedVar())) + ",\"n\":"); w.str(cp.getCapturedVar()->getNameAsString()); w.raw(cp.getCaptureKind() == LCK_ByRef ? ",\"r\":1" : ",\"r\":0"); }
        if (it != X->capture_init_end() && *it && cp.capturesVariable() && cp.getCapturedVar()->isInitCapture()) { w.raw(",\"e\":"); expr(*it); }
        ++it; w.raw("}");
      }
      w.raw("]"); T(E->getType()); L(E->getBeginLoc());
      w.raw(",\"ops\":[");
      if (CXXMethodDecl *M = R->getLambdaCallOperator()) {
        std::vector<const FunctionDecl *> fs;
        if (auto *FT = M->getDescribedFunctionTemplate()) { for (auto *S : FT->specializations()) fs.push_back(S); }
        else fs.push_back(M);
        bool g = true; for (auto *F : fs) { if (!g) w.raw(","); g = false; w.str(fnId(F)); queueFn(F); }
      }
      w.raw("]}"); return;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R; 
      if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) {
        llvm::SmallString<32> b; R.Val.getInt().toString(b, 10);
        w.raw("{\"k\":\"int\",\"v\":"); w.raw(std::string(b.str())); w.raw(",\"so\":" + std::to_string(typeIdx(X->getTypeOfArgument()))); T(E->getType()); w.raw("}"); return;
      }
    }
    {
      Expr::EvalResult R;
      if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && E->isPRValue() && E->EvaluateAsInt(R, C)) {
        llvm::SmallString<32> b; R.Val.getInt().toString(b, 10);
        w.raw("{\"k\":\"int\",\"v\":"); w.raw(std::string(b.str())); T(E->getType()); w.raw("}"); return;
      }
    }
    if (auto *X = dyn_cast<CXXFoldExpr>(E)) { (void)X; }
    if (auto *X = dyn_cast<CXXPseudoDestructorExpr>(E)) { w.raw("{\"k\":\"other\",\"n\":\"pseudodtor\",\"ch\":["); expr(X->getBase()); w.raw("]}"); return; }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) { expr(X->getSourceExpr()); return; } }
    w.raw("{\"k\":\"other\",\"n\":"); w.str(E->getStmtClassName()); w.raw(",\"ch\":["); bool f = true;
    for (auto *S : E->children()) { if (auto *X = dyn_cast_or_null<Expr>(S)) { if (!f) w.raw(","); f = false; expr(X); } }
    w.raw("]"); T(E->getType()); L(E->getBeginLoc()); w.raw("}");
  }
  // ---------------------------------------------------------------- statements
  void var(const VarDecl *V) {
    w.raw("{\"d\":" + std::to_string(localId(V)) + ",\"n\":"); w.str(V->getNameAsString()); T(V->getType());
    if (V->getType()->isReferenceType()) w.raw(",\"r\":1");
    if (V->isStaticLocal()) w.raw(",\"sl\":1");
    if (auto *RD = V->getType().getNonReferenceType()->getAsCXXRecordDecl()) {
      if (!V->getType()->isReferenceType() && RD->hasDefinition()) if (auto *D = RD->getDestructor()) { if (!D->isTrivial()) { w.raw(",\"dt\":"); w.str(fnId(D)); queueFn(D); } }
    }
    if (V->hasInit()) { w.raw(",\"e\":"); expr(V->getInit()); }
    w.raw(",\"l\":" + std::to_string(line(V->getLocation())));
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      w.raw(",\"bind\":["); bool f = true;
      for (auto *B : DD->bindings()) { if (!f) w.raw(","); f = false; w.raw("{\"d\":" + std::to_string(localId(B)) + ",\"n\":"); w.str(B->getNameAsString()); w.raw(",\"e\":"); expr(B->getBinding()); w.raw("}"); }
      w.raw("]");
    }
    w.raw("}");
  }
  void stmt(const Stmt *S) {
    if (!S) { w.raw("null"); return; }
    if (auto *X = dyn_cast<Expr>(S)) { w.raw("{\"k\":\"expr\",\"e\":"); expr(X); w.raw(",\"l\":" + std::to_string(line(S->getBeginLoc())) + "}"); return; }
    std::string ln = ",\"l\":" + std::to_string(line(S->getBeginLoc()));
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      w.raw("{\"k\":\"block\",\"s\":["); bool f = true; for (auto *c : X->body()) { if (!f) w.raw(","); f = false; stmt(c); }
      w.raw("]" + ln + ",\"el\":" + std::to_string(line(X->getRBracLoc())) + "}"); return;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      w.raw("{\"k\":\"decl\",\"v\":["); bool f = true;
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) { if (!f) w.raw(","); f = false; var(V); }
      w.raw("]" + ln + "}"); return;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      if (X->isConstexpr() && !X->getCond()->isValueDependent()) {
        Expr::EvalResult R; bool ok = X->getCond()->EvaluateAsInt(R, C);
        if (ok) {
          w.raw("{\"k\":\"block\",\"s\":["); bool f = true;
          if (X->getInit()) { stmt(X->getInit()); f = false; }
          const Stmt *Br = R.Val.getInt().getBoolValue() ? X->getThen() : X->getElse();
          if (Br) { if (!f) w.raw(","); stmt(Br); }
          w.raw("]" + ln + "}"); return;
        }
      }
      w.raw("{\"k\":\"if\""); 
      if (X->getInit()) { w.raw(",\"i\":"); stmt(X->getInit()); }
      if (X->getConditionVariableDeclStmt()) { w.raw(",\"cv\":"); stmt(X->getConditionVariableDeclStmt()); }
      w.raw(",\"c\":"); expr(X->getCond()); w.raw(",\"x\":"); stmt(X->getThen()); w.raw(",\"y\":"); stmt(X->getElse()); w.raw(ln + "}"); return;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) { 
      w.raw("{\"k\":\"while\""); if (X->getConditionVariableDeclStmt()) { w.raw(",\"cv\":"); stmt(X->getConditionVariableDeclStmt()); }
      w.raw(",\"c\":"); expr(X->getCond()); w.raw(",\"b\":"); stmt(X->getBody()); w.raw(ln + "}"); return; }
    if (auto *X = dyn_cast<DoStmt>(S)) { w.raw("{\"k\":\"do\",\"c\":"); expr(X->getCond()); w.raw(",\"b\":"); stmt(X->getBody()); w.raw(ln + "}"); return; }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      w.raw("{\"k\":\"for\",\"i\":"); stmt(X->getInit()); w.raw(",\"c\":"); if (X->getCond()) expr(X->getCond()); else w.raw("null");
      w.raw(",\"n\":"); if (X->getInc()) expr(X->getInc()); else w.raw("null"); w.raw(",\"b\":"); stmt(X->getBody()); w.raw(ln + "}"); return;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      w.raw("{\"k\":\"rfor\",\"r\":"); expr(X->getRangeInit()); 
      w.raw(",\"rs\":"); stmt(X->getRangeStmt()); w.raw(",\"bs\":"); stmt(X->getBeginStmt()); w.raw(",\"es\":"); stmt(X->getEndStmt());
      w.raw(",\"c\":"); expr(X->getCond()); w.raw(",\"n\":"); expr(X->getInc());
      w.raw(",\"v\":"); var(X->getLoopVariable()); w.raw(",\"b\":"); stmt(X->getBody()); w.raw(ln + "}"); return;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      w.raw("{\"k\":\"switch\""); if (X->getInit()) { w.raw(",\"i\":"); stmt(X->getInit()); }
      if (X->getConditionVariableDeclStmt()) { w.raw(",\"cv\":"); stmt(X->getConditionVariableDeclStmt()); }
      w.raw(",\"c\":"); expr(X->getCond()); w.raw(",\"b\":"); stmt(X->getBody()); w.raw(ln + "}"); return;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) { 
      w.raw("{\"k\":\"case\",\"v\":"); expr(X->getLHS()); if (X->getRHS()) { w.raw(",\"v2\":"); expr(X->getRHS()); }
      w.raw(",\"s\":"); stmt(X->getSubStmt()); w.raw(ln + "}"); return; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { w.raw("{\"k\":\"default\",\"s\":"); stmt(X->getSubStmt()); w.raw(ln + "}"); return; }
    if (isa<BreakStmt>(S)) { w.raw("{\"k\":\"break\"" + ln + "}"); return; }
    if (isa<ContinueStmt>(S)) { w.raw("{\"k\":\"continue\"" + ln + "}"); return; }
    if (isa<NullStmt>(S)) { w.raw("{\"k\":\"null\"}"); return; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { w.raw("{\"k\":\"ret\",\"e\":"); if (X->getRetValue()) expr(X->getRetValue()); else w.raw("null"); w.raw(ln + "}"); return; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) { stmt(X->getSubStmt()); return; }
    if (auto *X = dyn_cast<LabelStmt>(S)) { w.raw("{\"k\":\"label\",\"n\":"); w.str(X->getName()); w.raw(",\"s\":"); stmt(X->getSubStmt()); w.raw(ln + "}"); return; }
    if (auto *X = dyn_cast<GotoStmt>(S)) { w.raw("{\"k\":\"goto\",\"n\":"); w.str(X->getLabel()->getName()); w.raw(ln + "}"); return; }
    w.raw("{\"k\":\"ostmt\",\"n\":"); w.str(S->getStmtClassName()); w.raw(ln + "}");
  }
  // ---------------------------------------------------------------- decls
  void function(const FunctionDecl *F) {
    if (F->isDependentContext()) return;
    if (!inRoots(F->getLocation())) return;
    std::string id = fnId(F);
    if (!done.insert(id).second) return;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || Def->isDependentContext()) return;
    if (Def->isInvalidDecl()) return;
    if (!firstFn) w.raw(",\n"); firstFn = false;
    w.raw("{\"id\":"); w.str(id); w.raw(",\"n\":"); w.str(F->getNameAsString()); w.raw(",\"q\":"); w.str(plainQual(F)); 
    w.raw(",\"file\":" + std::to_string(fileIdx(Def->getLocation())) + ",\"line\":" + std::to_string(line(Def->getLocation())));
    w.raw(",\"sig\":" + std::to_string(typeIdx(F->getType())));
    w.raw(",\"ret\":" + std::to_string(typeIdx(F->getReturnType())));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      w.raw(",\"c\":"); w.str(recName(M->getParent()));
      if (M->isStatic()) w.raw(",\"st\":1"); if (M->isVirtual()) w.raw(",\"v\":1"); if (M->isConst()) w.raw(",\"const\":1");
      if (M->getParent()->isLambda()) w.raw(",\"lam\":1");
      w.raw(",\"acc\":" + std::to_string((int)M->getAccess()));
      if (isa<CXXDestructorDecl>(M)) w.raw(",\"dtor\":1");
      if (M->size_overridden_methods()) { w.raw(",\"ov\":["); bool f = true; for (auto *O : M->overridden_methods()) { if (!f) w.raw(","); f = false; w.str(fnId(O)); } w.raw("]"); }
      if (M->isCopyAssignmentOperator()) w.raw(",\"ca\":1"); if (M->isMoveAssignmentOperator()) w.raw(",\"ma\":1");
    }
    if (Def->isImplicit()) w.raw(",\"impl\":1");
    if (Def->isDefaulted()) w.raw(",\"dflt\":1");
    if (Def->isTemplateInstantiation() || Def->getTemplateSpecializationArgs()) {
      w.raw(",\"ti\":1");
      if (auto *A = Def->getTemplateSpecializationArgs()) {
        w.raw(",\"ta\":["); bool f = true;
        std::string s; 
        for (unsigned i = 0; i < A->size(); ++i) { 
          auto put = [&](const TemplateArgument &ta) { std::string o; llvm::raw_string_ostream os(o); ta.print(PP, os, true); os.flush(); if (!f) w.raw(","); f = false; w.str(o); };
          if (A->get(i).getKind() == TemplateArgument::Pack) { for (auto &p : A->get(i).pack_elements()) put(p); } else put(A->get(i)); }
        w.raw("]");
      }
    }
    w.raw(",\"pat\":"); { const FunctionDecl *P = F->getTemplateInstantiationPattern(); const FunctionDecl *Q = P ? P : Def; w.str(locStr(Q->getLocation())); }
    w.raw(",\"ps\":["); bool f = true;
    for (auto *P : Def->parameters()) {
      if (!f) w.raw(","); f = false;
      w.raw("{\"d\":" + std::to_string(localId(P)) + ",\"n\":"); w.str(P->getNameAsString()); T(P->getType());
      if (P->getType()->isReferenceType()) w.raw(",\"r\":1");
      w.raw("}");
    }
    w.raw("]");
    if (auto *K = dyn_cast<CXXConstructorDecl>(Def)) {
      w.raw(",\"ctor\":1");
      if (K->isCopyConstructor()) w.raw(",\"cc\":1"); if (K->isMoveConstructor()) w.raw(",\"mc\":1");
      w.raw(",\"init\":["); bool g = true;
      for (auto *I : K->inits()) {
        if (!g) w.raw(","); g = false;
        w.raw("{"); 
        if (I->isBaseInitializer()) { w.raw("\"base\":"); auto *RD = I->getBaseClass()->getAsCXXRecordDecl(); w.str(RD ? recName(RD) : "?"); }
        else if (I->isDelegatingInitializer()) w.raw("\"deleg\":1");
        else { w.raw("\"m\":"); auto *FD = I->getAnyMember(); std::string nm = FD->getNameAsString(); w.str(nm.empty() ? "<anon>" : nm); 
          if (FD->getType()->isReferenceType()) w.raw(",\"r\":1");
          if (I->isIndirectMemberInitializer()) w.raw(",\"ind\":1"); 
          w.raw(",\"mt\":" + std::to_string(typeIdx(FD->getType()))); }
        if (I->isWritten()) w.raw(",\"w\":1");
        w.raw(",\"e\":"); expr(I->getInit()); w.raw("}");
      }
      w.raw("]");
    }
    w.raw(",\"b\":"); stmt(Def->getBody()); w.raw("}");
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || !inRoots(F->getLocation())) return true;
    if (F->isThisDeclarationADefinition() || F->hasBody()) { if (queued.insert(F->getCanonicalDecl()).second) work.push_back(F); }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (R->isThisDeclarationADefinition() && inRoots(R->getLocation())) queueRec(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { if (inRoots(E->getLocation())) enumRef(E); return true; }
  bool VisitVarDecl(VarDecl *V) { if (V->isFileVarDecl() && !V->isStaticDataMember() && !V->getType()->isDependentType() && inRoots(V->getLocation()) && !V->getDeclContext()->isDependentContext()) if (!isa<ParmVarDecl>(V) && !isa<VarTemplatePartialSpecializationDecl>(V)) if (globals.insert(V).second) globalWork.push_back(V); return true; }

  void run() {
    w.raw("{\"functions\":[\n");
    TraverseDecl(C.getTranslationUnitDecl());
    while (!work.empty()) { auto *F = work.back(); work.pop_back(); function(F); }
    w.raw("],\n\"globals\":["); bool f = true;
    while (!globalWork.empty()) {
      auto *V = globalWork.back(); globalWork.pop_back();
      const VarDecl *D = V->getDefinition(); if (D) V = D;
      if (!inRoots(V->getLocation()) || V->getType()->isDependentType()) continue;
      if (!f) w.raw(",\n"); f = false;
      w.raw("{\"q\":"); w.str(plainQual(V)); w.raw(",\"file\":" + std::to_string(fileIdx(V->getLocation())) + ",\"line\":" + std::to_string(line(V->getLocation()))); T(V->getType());
      if (C.getBaseElementType(V->getType()).isConstQualified() || V->isConstexpr()) w.raw(",\"const\":1");
      if (V->isStaticLocal()) w.raw(",\"sl\":1");
      w.raw(",\"e\":"); if (V->hasInit() && !V->getInit()->isValueDependent()) expr(V->getInit()); else w.raw("null"); w.raw("}");
    }
    // globals may have queued more functions
    w.raw("],\n\"functions2\":[\n"); firstFn = true;
    while (!work.empty()) { auto *F = work.back(); work.pop_back(); function(F); }
    w.raw("],\n\"records\":["); f = true;
    while (!recWork.empty()) {
      auto *R = recWork.back(); recWork.pop_back();
      if (!inRoots(R->getLocation())) continue;
      if (!f) w.raw(",\n"); f = false;
      w.raw("{\"n\":"); w.str(recName(R)); w.raw(",\"file\":" + std::to_string(fileIdx(R->getLocation())) + ",\"line\":" + std::to_string(line(R->getLocation())));
      if (R->isUnion()) w.raw(",\"union\":1"); 
      if (R->isAnonymousStructOrUnion()) w.raw(",\"anon\":1");
      w.raw(",\"bases\":["); bool g = true;
      for (auto &B : R->bases()) { if (!g) w.raw(","); g = false; auto *RD = B.getType()->getAsCXXRecordDecl(); w.str(RD ? recName(RD) : "?"); }
      w.raw("],\"fields\":["); g = true;
      for (auto *FD : R->fields()) { if (!g) w.raw(","); g = false; w.raw("{\"n\":"); std::string nm = FD->getNameAsString(); w.str(nm.empty() ? "<anon>" : nm); T(FD->getType());
        if (FD->hasInClassInitializer() && FD->getInClassInitializer() && !FD->getInClassInitializer()->isValueDependent()) { w.raw(",\"e\":"); expr(FD->getInClassInitializer()); }
        if (FD->isAnonymousStructOrUnion()) { if (auto *AR = FD->getType()->getAsCXXRecordDecl()) { w.raw(",\"an\":"); w.str(recName(AR)); } }
        w.raw("}"); }
      w.raw("],\"methods\":["); g = true;
      for (auto *M : R->methods()) { 
        if (M->isDependentContext()) continue; // member templates
        if (!g) w.raw(","); g = false; w.raw("{\"f\":"); w.str(fnId(M)); w.raw(",\"n\":"); w.str(M->getNameAsString());
        w.raw(",\"sig\":" + std::to_string(typeIdx(M->getType())));
        if (M->isDeleted()) w.raw(",\"del\":1"); if (M->isPureVirtual()) w.raw(",\"pure\":1"); if (M->isDefaulted()) w.raw(",\"df\":1"); if (M->isImplicit()) w.raw(",\"impl\":1");
        if (M->isCopyAssignmentOperator()) w.raw(",\"ca\":1"); if (M->isMoveAssignmentOperator()) w.raw(",\"ma\":1");
        if (auto *K = dyn_cast<CXXConstructorDecl>(M)) { if (K->isCopyConstructor()) w.raw(",\"cc\":1"); if (K->isMoveConstructor()) w.raw(",\"mc\":1"); }
        w.raw(",\"acc\":" + std::to_string((int)M->getAccess()));
        w.raw("}"); }
      w.raw("]}");
    }
    w.raw("],\n\"functions3\":[\n"); firstFn = true;
    while (!work.empty()) { auto *F = work.back(); work.pop_back(); function(F); }
    w.raw("],\n\"enums\":["); f = true;
    while (!enumWork.empty()) {
      auto *E = enumWork.back(); enumWork.pop_back();
      if (!inRoots(E->getLocation())) continue;
      if (!f) w.raw(",\n"); f = false;
      w.raw("{\"n\":"); w.str(C.getEnumType(E).getCanonicalType().getAsString(PP)); w.raw(",\"file\":" + std::to_string(fileIdx(E->getLocation())) + ",\"line\":" + std::to_string(line(E->getLocation())));
      w.raw(",\"bits\":" + std::to_string(E->getIntegerType().isNull() ? 0 : (int)C.getTypeSize(E->getIntegerType())));
      w.raw(",\"v\":["); bool g = true;
      for (auto *EC : E->enumerators()) { if (!g) w.raw(","); g = false; llvm::SmallString<32> b; EC->getInitVal().toString(b, 10); w.raw("["); w.str(EC->getNameAsString()); w.raw(","); w.raw(std::string(b.str())); w.raw("," + std::to_string(line(EC->getLocation())) + "]"); }
      w.raw("]}");
    }
    w.raw("],\n\"types\":["); f = true; for (auto &t : typeNames) { if (!f) w.raw(","); f = false; w.str(t); }
    w.raw("],\n\"files\":["); f = true; for (auto &t : fileNames) { if (!f) w.raw(","); f = false; w.str(t); }
    // direct and transitive includes
    w.raw("],\n\"includes\":["); f = true;
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) { if (!f) w.raw(","); f = false; llvm::StringRef rp = it->first.getFileEntry().tryGetRealPathName(); w.str(rp.empty() ? it->first.getName() : rp); }
    w.raw("]}\n");
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C); D.run();
    FILE *o = fopen(gOut.c_str(), "w"); if (!o) { perror(gOut.c_str()); exit(3); }
    fwrite(D.w.s.data(), 1, D.w.s.size(), o); fclose(o);
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
} // namespace

// usage: extract OUT ROOT[:ROOT..] SOURCE -- flags
int main(int argc, char **argv) {
  if (argc < 5) { fprintf(stderr, "usage\n"); return 2; }
  gOut = argv[1];
  { std::string r = argv[2]; size_t p = 0; while (p != std::string::npos) { size_t q = r.find(':', p); gRoots.push_back(r.substr(p, q == std::string::npos ? q : q - p)); p = q == std::string::npos ? q : q + 1; } }
  std::string src = argv[3];
  std::vector<std::string> flags; for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
