// px: dumps the resolved, instantiated program of one translation unit as JSON lines.
// usage: px ROOT OUT FILE -- clang flags
// Only entities whose definition lies under ROOT (and not under ROOT/_build) are dumped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/CXXInheritance.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace js = llvm::json;
using js::Object; using js::Array; using js::Value;

static std::string Root, OutPath;

static int64_t ext(const llvm::APSInt &I) { return I.isRepresentableByInt64() ? I.getExtValue() : INT64_MAX; }

class Dumper {
public:
  ASTContext &C; SourceManager &SM; llvm::raw_ostream &OS;
  PrintingPolicy PP;
  std::map<const void *, int> ids; int nextId = 1;
  std::map<std::string, int> types; std::vector<Value> typeTab;
  std::set<const Decl *> seenFn, seenRec;
  std::vector<const CXXRecordDecl *> recQueue;

  Dumper(ASTContext &C, llvm::raw_ostream &OS) : C(C), SM(C.getSourceManager()), OS(OS), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.FullyQualifiedName = true; PP.UsePreferredNames = false; PP.PrintCanonicalTypes = true;
  }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = ids.find(D); if (it != ids.end()) return it->second; return ids[D] = nextId++; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    llvm::SmallString<256> f(P.getFilename());
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      auto rp = FE->getFileEntry().tryGetRealPathName();
      if (!rp.empty()) f = rp;
    }
    return std::string(f.str());
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    if (f.compare(0, Root.size(), Root) != 0) return false;
    if (f.compare(0, Root.size() + 8, Root + "/_build/") == 0) return false;
    return true;
  }
  std::string rel(const std::string &f) { return f.compare(0, Root.size() + 1, Root + "/") == 0 ? f.substr(Root.size() + 1) : f; }

  // ------------------------------------------------------------ names
  std::string qname(const NamedDecl *D) {  // qualified, template arguments dropped
    std::string r;
    std::vector<std::string> parts;
    auto nm = [&](const NamedDecl *N) -> std::string {
      if (isa<CXXConstructorDecl>(N)) return cast<CXXRecordDecl>(N->getDeclContext())->getNameAsString();
      if (isa<CXXDestructorDecl>(N)) return "~" + cast<CXXRecordDecl>(N->getDeclContext())->getNameAsString();
      if (auto RD = dyn_cast<CXXRecordDecl>(N)) { if (RD->isLambda()) return "(lambda)"; }
      if (auto CD = dyn_cast<CXXConversionDecl>(N)) return "operator " + tstr(CD->getConversionType());
      std::string s = N->getDeclName().getAsString();
      return s.empty() ? "(anon)" : s;
    };
    parts.push_back(nm(D));
    for (const DeclContext *DC = D->getDeclContext(); DC; DC = DC->getParent()) {
      if (auto N = dyn_cast<NamespaceDecl>(DC)) { if (N->isInline()) continue; parts.push_back(N->isAnonymousNamespace() ? "(anon)" : N->getNameAsString()); }
      else if (auto R = dyn_cast<RecordDecl>(DC)) parts.push_back(nm(R));
      else if (auto F = dyn_cast<FunctionDecl>(DC)) parts.push_back(nm(F));
    }
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) { if (!r.empty()) r += "::"; r += *it; }
    return r;
  }
  std::string tstr(QualType T) { return T.getCanonicalType().getAsString(PP); }
  std::string usr(const Decl *D) {
    llvm::SmallString<256> b;
    if (index::generateUSRForDecl(D, b) || b.empty()) return "?" + std::to_string(id(D));
    // USRs of lambdas / local entities can collide between instantiations: qualify
    if (auto M = dyn_cast<CXXMethodDecl>(D)) if (M->getParent()->isLambda()) { b += "#L"; b += std::to_string(id(M)); }
    return std::string(b.str());
  }
  std::string clsName(const CXXRecordDecl *R) { return tstr(C.getRecordType(R)); }

  // ------------------------------------------------------------ types
  int type(QualType T) {
    if (T.isNull()) return -1;
    QualType CT = T.getCanonicalType();
    std::string s = CT.getAsString(PP);
    auto it = types.find(s);
    if (it != types.end()) return it->second;
    int i = types[s] = typeTab.size();
    typeTab.push_back(nullptr);
    Object o; o["s"] = s;
    QualType B = CT; std::string sh; bool cst = false;
    for (;;) {
      if (auto R = B->getAs<ReferenceType>()) { sh += isa<RValueReferenceType>(R) ? "R" : "r"; B = R->getPointeeType(); cst = B.isConstQualified(); }
      else if (auto P = B->getAs<PointerType>()) { sh += "p"; B = P->getPointeeType(); cst = B.isConstQualified(); }
      else if (auto A = C.getAsArrayType(B)) { sh += "a"; B = A->getElementType(); cst = B.isConstQualified(); }
      else break;
    }
    if (sh.empty()) cst = B.isConstQualified();
    o["sh"] = sh; o["cst"] = cst;
    if (auto RD = B->getAsCXXRecordDecl()) {
      o["r"] = clsName(RD); o["rn"] = qname(RD);
      if (RD->isLambda()) o["lam"] = true;
      needRec(RD);
    }
    else if (B->isBooleanType()) o["b"] = "bool";
    else if (B->isEnumeralType()) o["b"] = "enum";
    else if (B->isUnsignedIntegerType()) o["b"] = "uint";
    else if (B->isIntegerType()) o["b"] = "int";
    else if (B->isFloatingType()) o["b"] = "float";
    else if (B->isVoidType()) o["b"] = "void";
    else if (B->isFunctionType()) o["b"] = "fn";
    else if (B->isMemberPointerType()) o["b"] = "memptr";
    typeTab[i] = std::move(o);
    return i;
  }
  void needRec(const CXXRecordDecl *R) { if (R->getDefinition()) { R = R->getDefinition(); if (seenRec.insert(R).second) recQueue.push_back(R); } }

  // ------------------------------------------------------------ expressions
  Value E(const Expr *X) {
    if (!X) return nullptr;
    Value v = E0(X);
    if (auto o = v.getAsObject()) {
      if (!o->get("l")) (*o)["l"] = (int64_t)lineOf(X->getBeginLoc());
      if (!o->get("t")) (*o)["t"] = type(X->getType());
    }
    return v;
  }
  Array args(llvm::iterator_range<CallExpr::const_arg_iterator> R) { Array a; for (auto A : R) a.push_back(E(A)); return a; }
  void callee(Object &o, const FunctionDecl *F) {
    o["n"] = qname(F); o["f"] = usr(F); o["rt"] = type(F->getReturnType());
    if (auto M = dyn_cast<CXXMethodDecl>(F)) {
      o["c"] = clsName(M->getParent()); o["m"] = M->getDeclName().getAsString();
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["cm"] = true;
      if (M->isStatic()) o["st"] = true;
      needRec(M->getParent());
    }
    Array pt; for (auto P : F->parameters()) pt.push_back(type(P->getType())); o["pt"] = std::move(pt);
    if (F->isNoReturn()) o["noret"] = true;
    if (F->isInlineBuiltinDeclaration() || F->getBuiltinID()) o["bi"] = true;
    if (auto FT = F->getTemplateSpecializationArgs()) {
      Array ta; for (auto &A : FT->asArray()) { if (A.getKind() == TemplateArgument::Type) ta.push_back(type(A.getAsType())); }
      if (!ta.empty()) o["ta"] = std::move(ta);
    }
    noteFn(F);
  }
  std::vector<const FunctionDecl *> fnQueue;
  void noteFn(const FunctionDecl *F) { const FunctionDecl *D = nullptr; if (F->hasBody(D) && D && inRoot(D->getLocation())) fnQueue.push_back(D); }

  Value E0(const Expr *X) {
    // transparent wrappers
    if (auto P = dyn_cast<ParenExpr>(X)) return E(P->getSubExpr());
    if (auto P = dyn_cast<ExprWithCleanups>(X)) return E(P->getSubExpr());
    if (auto P = dyn_cast<CXXBindTemporaryExpr>(X)) return E(P->getSubExpr());
    if (auto P = dyn_cast<ConstantExpr>(X)) return E(P->getSubExpr());
    if (auto P = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) return E(P->getReplacement());
    if (auto P = dyn_cast<CXXDefaultArgExpr>(X)) { Value v = E(P->getExpr()); if (auto o = v.getAsObject()) (*o)["dflt"] = true; return v; }
    if (auto P = dyn_cast<CXXDefaultInitExpr>(X)) return E(P->getExpr());
    if (auto P = dyn_cast<CXXStdInitializerListExpr>(X)) return E(P->getSubExpr());
    if (auto P = dyn_cast<OpaqueValueExpr>(X)) return P->getSourceExpr() ? E(P->getSourceExpr()) : Value(Object{{"k", "opaque"}});
    if (auto P = dyn_cast<CXXRewrittenBinaryOperator>(X)) return E(P->getSemanticForm());
    if (auto P = dyn_cast<MaterializeTemporaryExpr>(X)) {
      Object o{{"k", "temp"}, {"e", E(P->getSubExpr())}};
      if (P->getExtendingDecl()) o["ext"] = id(P->getExtendingDecl());
      if (P->getExtendingDecl() && isa<FieldDecl>(P->getExtendingDecl())) o["extf"] = P->getExtendingDecl()->getNameAsString();
      return o;
    }
    if (auto P = dyn_cast<ImplicitCastExpr>(X)) {
      switch (P->getCastKind()) {
      case CK_LValueToRValue: return Object{{"k", "load"}, {"e", E(P->getSubExpr())}};
      case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToBoolean: case CK_MemberPointerToBoolean:
        return Object{{"k", "tobool"}, {"e", E(P->getSubExpr())}};
      case CK_IntegralCast: case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_FloatingCast: case CK_BooleanToSignedIntegral:
        return Object{{"k", "conv"}, {"ck", P->getCastKindName()}, {"e", E(P->getSubExpr())}};
      case CK_ArrayToPointerDecay: return Object{{"k", "decay"}, {"e", E(P->getSubExpr())}};
      case CK_NullToPointer: return Object{{"k", "lit"}, {"v", nullptr}, {"null", true}};
      case CK_ToVoid: return Object{{"k", "tovoid"}, {"e", E(P->getSubExpr())}};
      default: return E(P->getSubExpr());
      }
    }
    if (auto P = dyn_cast<ExplicitCastExpr>(X)) {
      // functional casts to class types are constructions
      const char *how = isa<CXXConstCastExpr>(P) ? "const" : isa<CXXReinterpretCastExpr>(P) ? "reinterpret" : isa<CXXDynamicCastExpr>(P) ? "dynamic"
                        : isa<CXXStaticCastExpr>(P) ? "static" : isa<CStyleCastExpr>(P) ? "c" : "fun";
      if (P->getType()->isRecordType() && !P->isGLValue() && P->getCastKind() == CK_ConstructorConversion) return E(P->getSubExpr());
      if (P->getCastKind() == CK_LValueToRValue) { return Object{{"k", "cast"}, {"how", how}, {"e", Value(Object{{"k","load"},{"e",E(P->getSubExpr())},{"l",(int64_t)lineOf(X->getBeginLoc())},{"t",type(P->getSubExpr()->getType())}})}}; }
      Object o{{"k", "cast"}, {"how", how}, {"ck", P->getCastKindName()}, {"e", E(P->getSubExpr())}};
      return o;
    }
    if (auto P = dyn_cast<IntegerLiteral>(X)) return Object{{"k", "lit"}, {"v", P->getValue().getActiveBits() <= 62 ? Value(P->getValue().getSExtValue()) : Value(llvm::toString(P->getValue(), 10, false))}};
    if (auto P = dyn_cast<FloatingLiteral>(X)) return Object{{"k", "lit"}, {"v", P->getValueAsApproximateDouble()}, {"fl", true}};
    if (auto P = dyn_cast<CXXBoolLiteralExpr>(X)) return Object{{"k", "lit"}, {"v", P->getValue()}};
    if (auto P = dyn_cast<CharacterLiteral>(X)) return Object{{"k", "lit"}, {"v", (int64_t)P->getValue()}, {"ch", true}};
    if (auto P = dyn_cast<StringLiteral>(X)) return Object{{"k", "lit"}, {"v", P->getCharByteWidth() == 1 ? js::fixUTF8(P->getString()) : std::string("?")}, {"str", true}};
    if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) return Object{{"k", "lit"}, {"v", nullptr}, {"null", true}};
    if (isa<PredefinedExpr>(X)) return Object{{"k", "lit"}, {"v", "__func__"}, {"str", true}};
    if (isa<CXXThisExpr>(X)) return Object{{"k", "this"}};
    if (isa<ImplicitValueInitExpr>(X) || isa<CXXScalarValueInitExpr>(X)) return Object{{"k", "zero"}};
    if (auto P = dyn_cast<DeclRefExpr>(X)) {
      const ValueDecl *D = P->getDecl();
      Object o{{"k", "ref"}, {"d", id(D)}, {"n", D->getNameAsString()}};
      if (auto F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "fn"; callee(o, F); }
      else if (auto PV = dyn_cast<ParmVarDecl>(D)) { o["dk"] = "param"; o["i"] = (int64_t)PV->getFunctionScopeIndex(); }
      else if (auto V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage()) { o["dk"] = V->isStaticLocal() ? "slocal" : "global"; o["n"] = qname(V); 
          if (V->getType().isConstQualified()) if (const VarDecl *IV = nullptr; const Expr *I = V->getAnyInitializer(IV)) { Expr::EvalResult R; if (!I->isValueDependent() && I->EvaluateAsInt(R, C)) o["cv"] = ext(R.Val.getInt()); } }
        else o["dk"] = "local";
      }
      else if (auto EC = dyn_cast<EnumConstantDecl>(D)) { o["dk"] = "enum"; o["v"] = ext(EC->getInitVal()); o["n"] = qname(EC); }
      else if (isa<BindingDecl>(D)) o["dk"] = "local";
      else o["dk"] = "other";
      return o;
    }
    if (auto P = dyn_cast<MemberExpr>(X)) {
      const ValueDecl *D = P->getMemberDecl();
      if (auto F = dyn_cast<FieldDecl>(D)) {
        Object o{{"k", "mem"}, {"b", E(P->getBase())}, {"f", F->getNameAsString()}, {"fc", clsName(cast<CXXRecordDecl>(F->getParent()))}};
        if (P->isArrow()) o["ar"] = true;
        return o;
      }
      if (auto V = dyn_cast<VarDecl>(D)) return Object{{"k", "ref"}, {"d", id(V)}, {"n", qname(V)}, {"dk", "global"}};
      if (auto M = dyn_cast<CXXMethodDecl>(D)) { Object o{{"k", "memfn"}, {"b", E(P->getBase())}}; callee(o, M); return o; }
      return Object{{"k", "other"}, {"cls", "MemberExpr"}};
    }
    if (auto P = dyn_cast<CXXOperatorCallExpr>(X)) {
      Object o{{"k", "call"}, {"op", getOperatorSpelling(P->getOperator())}};
      unsigned first = 0;
      if (auto F = P->getDirectCallee()) {
        callee(o, F);
        if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { o["obj"] = E(P->getArg(0)); objTy(o, P->getArg(0)); first = 1; }
      } else o["fe"] = E(P->getCallee());
      Array a; for (unsigned i = first; i < P->getNumArgs(); ++i) a.push_back(E(P->getArg(i)));
      o["a"] = std::move(a);
      return o;
    }
    if (auto P = dyn_cast<CXXMemberCallExpr>(X)) {
      Object o{{"k", "call"}};
      if (auto M = P->getMethodDecl()) {
        callee(o, M);
        const Expr *B = P->getImplicitObjectArgument();
        if (B) { o["obj"] = E(B); objTy(o, B); }
        if (auto ME = dyn_cast<MemberExpr>(P->getCallee()->IgnoreParens())) {
          if (ME->hasQualifier()) o["qual"] = true;  // explicit Base::f(): not dispatched
          if (ME->isArrow()) o["ar"] = true;
        }
      } else o["fe"] = E(P->getCallee());
      o["a"] = args(P->arguments());
      return o;
    }
    if (auto P = dyn_cast<CallExpr>(X)) {
      Object o{{"k", "call"}};
      if (auto F = P->getDirectCallee()) callee(o, F); else o["fe"] = E(P->getCallee());
      o["a"] = args(P->arguments());
      return o;
    }
    if (auto P = dyn_cast<CXXConstructExpr>(X)) {
      const CXXConstructorDecl *D = P->getConstructor();
      if (P->isElidable() && P->getNumArgs() == 1) return E(P->getArg(0));
      Object o{{"k", "ctor"}};
      callee(o, D);
      if (D->isCopyConstructor()) o["cp"] = true;
      if (D->isMoveConstructor()) o["mv"] = true;
      if (D->isDefaultConstructor()) o["df"] = true;
      Array a; for (auto A : P->arguments()) a.push_back(E(A)); o["a"] = std::move(a);
      return o;
    }
    if (auto P = dyn_cast<CXXInheritedCtorInitExpr>(X)) { Object o{{"k", "ctor"}, {"inh", true}, {"a", Array{}}}; callee(o, P->getConstructor()); return o; }
    if (auto P = dyn_cast<CXXNewExpr>(X)) {
      Object o{{"k", "new"}, {"nt", type(P->getAllocatedType())}};
      if (P->isArray()) o["arr"] = P->getArraySize() ? E(*P->getArraySize()) : Value(true);
      if (P->hasInitializer()) o["init"] = E(P->getInitializer()); else if (P->getConstructExpr()) o["init"] = E(P->getConstructExpr());
      if (P->getNumPlacementArgs()) { Array a; for (unsigned i = 0; i < P->getNumPlacementArgs(); ++i) a.push_back(E(P->getPlacementArg(i))); o["plc"] = std::move(a); }
      return o;
    }
    if (auto P = dyn_cast<CXXDeleteExpr>(X)) { Object o{{"k", "del"}, {"e", E(P->getArgument())}}; if (P->isArrayForm()) o["arr"] = true; o["dt"] = type(P->getDestroyedType()); return o; }
    if (auto P = dyn_cast<CompoundAssignOperator>(X)) return Object{{"k", "asg"}, {"op", P->getOpcodeStr().str()}, {"a", E(P->getLHS())}, {"b", E(P->getRHS())}};
    if (auto P = dyn_cast<BinaryOperator>(X)) {
      if (P->getOpcode() == BO_Assign) return Object{{"k", "asg"}, {"op", "="}, {"a", E(P->getLHS())}, {"b", E(P->getRHS())}};
      return Object{{"k", "bin"}, {"op", P->getOpcodeStr().str()}, {"a", E(P->getLHS())}, {"b", E(P->getRHS())}};
    }
    if (auto P = dyn_cast<UnaryOperator>(X)) {
      std::string op = UnaryOperator::getOpcodeStr(P->getOpcode()).str();
      if (P->isIncrementDecrementOp()) op += P->isPrefix() ? "pre" : "post";
      return Object{{"k", "un"}, {"op", op}, {"e", E(P->getSubExpr())}};
    }
    if (auto P = dyn_cast<ArraySubscriptExpr>(X)) return Object{{"k", "idx"}, {"b", E(P->getBase())}, {"i", E(P->getIdx())}};
    if (auto P = dyn_cast<ConditionalOperator>(X)) return Object{{"k", "cond"}, {"c", E(P->getCond())}, {"a", E(P->getTrueExpr())}, {"b", E(P->getFalseExpr())}};
    if (auto P = dyn_cast<BinaryConditionalOperator>(X)) return Object{{"k", "cond"}, {"c", E(P->getCond())}, {"a", E(P->getTrueExpr())}, {"b", E(P->getFalseExpr())}};
    if (auto P = dyn_cast<CXXThrowExpr>(X)) return Object{{"k", "throw"}, {"e", E(P->getSubExpr())}};
    if (auto P = dyn_cast<InitListExpr>(X)) {
      if (!P->isSemanticForm() && P->getSemanticForm()) P = P->getSemanticForm();
      Array a; for (auto I : P->inits()) a.push_back(E(I)); return Object{{"k", "list"}, {"a", std::move(a)}};
    }
    if (auto P = dyn_cast<LambdaExpr>(X)) {
      Object o{{"k", "lambda"}};
      auto *M = P->getCallOperator(); o["f"] = usr(M); fnQueue.push_back(M);
      Array caps;
      auto ci = P->capture_init_begin();
      for (auto &cp : P->captures()) {
        Object c;
        if (cp.capturesThis()) c["this"] = true;
        else if (cp.capturesVariable()) { c["d"] = id(cp.getCapturedVar()); c["n"] = cp.getCapturedVar()->getNameAsString(); if (auto VD = dyn_cast<VarDecl>(cp.getCapturedVar())) if (VD->isInitCapture()) c["init"] = E(VD->getInit()); }
        c["ref"] = cp.getCaptureKind() == LCK_ByRef || cp.getCaptureKind() == LCK_This;
        (void)ci;
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      return o;
    }
    if (auto P = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) { Expr::EvalResult R; if (!P->isValueDependent() && P->EvaluateAsInt(R, C)) return Object{{"k", "lit"}, {"v", ext(R.Val.getInt())}, {"szof", true}}; }
    if (auto P = dyn_cast<CXXTypeidExpr>(X)) { Object o{{"k", "typeid"}}; if (!P->isTypeOperand()) o["e"] = E(P->getExprOperand()); return o; }
    if (auto P = dyn_cast<CXXNoexceptExpr>(X)) return Object{{"k", "lit"}, {"v", P->getValue()}};
    if (auto P = dyn_cast<TypeTraitExpr>(X)) return Object{{"k", "lit"}, {"v", P->getValue()}};
    if (auto P = dyn_cast<ArrayInitLoopExpr>(X)) return Object{{"k", "other"}, {"cls", "ArrayInitLoop"}};
    Object o{{"k", "other"}, {"cls", X->getStmtClassName()}};
    Array ch; for (auto S : X->children()) if (S) { if (auto Y = dyn_cast<Expr>(S)) ch.push_back(E(Y)); }
    if (!ch.empty()) o["ch"] = std::move(ch);
    return o;
  }
  void objTy(Object &o, const Expr *B) {
    const Expr *S = B->IgnoreParens();
    while (auto IC = dyn_cast<ImplicitCastExpr>(S)) {
      if (IC->getCastKind() == CK_UncheckedDerivedToBase || IC->getCastKind() == CK_DerivedToBase || IC->getCastKind() == CK_NoOp) S = IC->getSubExpr()->IgnoreParens(); else break;
    }
    o["ot"] = type(S->getType());
  }

  // ------------------------------------------------------------ statements
  Object var(const VarDecl *V) {
    Object o{{"id", id(V)}, {"n", V->getNameAsString()}, {"t", type(V->getType())}, {"l", (int64_t)lineOf(V->getLocation())}};
    if (V->hasInit()) o["init"] = E(V->getInit());
    if (V->hasInit() && V->getInitStyle() == VarDecl::CallInit) o["is"] = "call";
    if (V->isStaticLocal()) o["static"] = true;
    if (V->isThisDeclarationADefinition() && !V->hasInit()) o["noinit"] = true;
    return o;
  }
  Value S(const Stmt *X) {
    if (!X) return nullptr;
    Value v = S0(X);
    if (auto o = v.getAsObject()) if (!o->get("l")) (*o)["l"] = (int64_t)lineOf(X->getBeginLoc());
    return v;
  }
  Value S0(const Stmt *X) {
    if (auto P = dyn_cast<Expr>(X)) return Object{{"s", "expr"}, {"e", E(P)}};
    if (auto P = dyn_cast<CompoundStmt>(X)) { Array a; for (auto s : P->body()) a.push_back(S(s)); return Object{{"s", "block"}, {"b", std::move(a)}, {"el", (int64_t)lineOf(P->getEndLoc())}}; }
    if (auto P = dyn_cast<DeclStmt>(X)) {
      Array a;
      for (auto D : P->decls()) {
        if (auto DD = dyn_cast<DecompositionDecl>(D)) { a.push_back(var(DD)); for (auto B : DD->bindings()) { Object o{{"id", id(B)}, {"n", B->getNameAsString()}, {"t", type(B->getType())}, {"bind", true}, {"l", (int64_t)lineOf(B->getLocation())}}; if (B->getBinding()) o["init"] = E(B->getBinding()); a.push_back(std::move(o)); } }
        else if (auto V = dyn_cast<VarDecl>(D)) a.push_back(var(V));
      }
      return Object{{"s", "decl"}, {"v", std::move(a)}};
    }
    if (auto P = dyn_cast<IfStmt>(X)) {
      if (P->isConstexpr()) { if (auto nd = P->getNondiscardedCase(C)) return *nd ? S(*nd) : Value(Object{{"s", "null"}}); }
      Object o{{"s", "if"}};
      if (P->getInit()) o["init"] = S(P->getInit());
      if (P->getConditionVariable()) o["cv"] = var(P->getConditionVariable());
      o["c"] = E(P->getCond()); o["a"] = S(P->getThen()); o["b"] = S(P->getElse());
      return o;
    }
    if (auto P = dyn_cast<WhileStmt>(X)) { Object o{{"s", "while"}, {"c", E(P->getCond())}, {"b", S(P->getBody())}}; if (P->getConditionVariable()) o["cv"] = var(P->getConditionVariable()); return o; }
    if (auto P = dyn_cast<DoStmt>(X)) return Object{{"s", "do"}, {"c", E(P->getCond())}, {"b", S(P->getBody())}};
    if (auto P = dyn_cast<ForStmt>(X)) { Object o{{"s", "for"}, {"init", S(P->getInit())}, {"c", E(P->getCond())}, {"inc", E(P->getInc())}, {"b", S(P->getBody())}}; if (P->getConditionVariable()) o["cv"] = var(P->getConditionVariable()); return o; }
    if (auto P = dyn_cast<CXXForRangeStmt>(X)) {
      Object o{{"s", "rfor"}};
      if (P->getInit()) o["init"] = S(P->getInit());
      o["range"] = E(P->getRangeInit()); o["var"] = var(P->getLoopVariable()); o["b"] = S(P->getBody());
      return o;
    }
    if (auto P = dyn_cast<ReturnStmt>(X)) return Object{{"s", "return"}, {"e", E(P->getRetValue())}};
    if (isa<BreakStmt>(X)) return Object{{"s", "break"}};
    if (isa<ContinueStmt>(X)) return Object{{"s", "continue"}};
    if (auto P = dyn_cast<SwitchStmt>(X)) { Object o{{"s", "switch"}, {"c", E(P->getCond())}, {"b", S(P->getBody())}}; if (P->getInit()) o["init"] = S(P->getInit()); return o; }
    if (auto P = dyn_cast<CaseStmt>(X)) {
      Object o{{"s", "case"}, {"b", S(P->getSubStmt())}};
      Expr::EvalResult R; if (P->getLHS()->EvaluateAsInt(R, C)) o["v"] = ext(R.Val.getInt());
      return o;
    }
    if (auto P = dyn_cast<DefaultStmt>(X)) return Object{{"s", "case"}, {"dflt", true}, {"b", S(P->getSubStmt())}};
    if (auto P = dyn_cast<CXXTryStmt>(X)) {
      Array h;
      for (unsigned i = 0; i < P->getNumHandlers(); ++i) { auto H = P->getHandler(i); Object o{{"b", S(H->getHandlerBlock())}, {"l", (int64_t)lineOf(H->getBeginLoc())}}; if (H->getExceptionDecl()) o["v"] = var(H->getExceptionDecl()); if (!H->getCaughtType().isNull()) o["ct"] = type(H->getCaughtType()); h.push_back(std::move(o)); }
      return Object{{"s", "try"}, {"b", S(P->getTryBlock())}, {"h", std::move(h)}};
    }
    if (isa<NullStmt>(X)) return Object{{"s", "null"}};
    if (auto P = dyn_cast<LabelStmt>(X)) return Object{{"s", "label"}, {"n", P->getName()}, {"b", S(P->getSubStmt())}};
    if (auto P = dyn_cast<GotoStmt>(X)) return Object{{"s", "goto"}, {"n", P->getLabel()->getNameAsString()}};
    if (auto P = dyn_cast<AttributedStmt>(X)) return S(P->getSubStmt());
    Object o{{"s", "other"}, {"cls", X->getStmtClassName()}};
    return o;
  }

  // ------------------------------------------------------------ declarations
  static const char *acc(AccessSpecifier A) { return A == AS_public ? "public" : A == AS_protected ? "protected" : A == AS_private ? "private" : "none"; }
  void roots(const CXXMethodDecl *M, Array &r, Array &u, std::set<const CXXMethodDecl *> &seen) {
    for (auto O : M->overridden_methods()) if (seen.insert(O->getCanonicalDecl()).second) { r.push_back(qname(O)); u.push_back(usr(O)); roots(O, r, u, seen); }
  }
  void fn(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (!F->hasBody(D)) {
      if (F->isDefaulted() && F->isThisDeclarationADefinition()) D = F; else return;
    }
    if (!D) return;
    if (!seenFn.insert(D->getCanonicalDecl()).second) return;
    if (D->isDependentContext() || D->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return;
    if (!inRoot(D->getLocation())) return;
    Object o{{"kind", "fn"}, {"usr", usr(D)}, {"n", qname(D)}, {"file", rel(fileOf(D->getLocation()))}, {"line", (int64_t)lineOf(D->getLocation())}};
    o["full"] = D->getQualifiedNameAsString();
    Array ps; for (auto P : D->parameters()) ps.push_back(Object{{"id", id(P)}, {"n", P->getNameAsString()}, {"t", type(P->getType())}}); o["params"] = std::move(ps);
    o["ret"] = type(D->getReturnType());
    if (D->isInlineSpecified()) o["inl"] = true;
    if (auto M = dyn_cast<CXXMethodDecl>(D)) {
      o["c"] = clsName(M->getParent()); o["cn"] = qname(M->getParent()); o["m"] = M->getDeclName().getAsString(); o["acc"] = acc(M->getAccess());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      Array r, u; std::set<const CXXMethodDecl *> seen; roots(M, r, u, seen); o["ov"] = std::move(r); o["ovu"] = std::move(u);
      needRec(M->getParent());
      if (M->getParent()->isLambda()) o["lambda"] = true;
    }
    if (auto K = dyn_cast<CXXConstructorDecl>(D)) {
      o["ctor"] = true; if (K->isCopyConstructor()) o["cp"] = true; if (K->isMoveConstructor()) o["mv"] = true;
      if (K->isDelegatingConstructor()) o["deleg"] = true;
      Array is;
      for (auto I : K->inits()) {
        Object x; x["e"] = E(I->getInit()); x["w"] = I->isWritten();
        if (I->isAnyMemberInitializer()) x["f"] = I->getAnyMember()->getNameAsString(); else if (I->isBaseInitializer()) x["base"] = tstr(QualType(I->getBaseClass(), 0)); else x["deleg"] = true;
        is.push_back(std::move(x));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(D)) o["dtor"] = true;
    if (D->isDefaulted()) o["defaulted"] = true;
    if (D->isImplicit()) o["implicit"] = true;
    if (D->isTemplateInstantiation()) o["tinst"] = true;
    o["body"] = S(D->getBody());
    line(std::move(o));
  }
  void line(Object o) { OS << Value(std::move(o)) << "\n"; }

  // an explicit instantiation is located where it is requested: use its template instead
  SourceLocation recLoc(const CXXRecordDecl *R) {
    if (auto P = R->getTemplateInstantiationPattern()) return P->getLocation();
    return R->getLocation();
  }
  void rec(const CXXRecordDecl *R) {
    if (R->isDependentContext() || !R->hasDefinition() || R->isInvalidDecl()) return;
    Object o{{"kind", "class"}, {"name", clsName(R)}, {"n", qname(R)}, {"file", rel(fileOf(recLoc(R)))}, {"line", (int64_t)lineOf(recLoc(R))}, {"repo", inRoot(recLoc(R))}};
    Array bs;
    for (auto &B : R->bases()) if (auto BR = B.getType()->getAsCXXRecordDecl()) { bs.push_back(Object{{"name", clsName(BR)}, {"n", qname(BR)}, {"virt", B.isVirtual()}, {"acc", acc(B.getAccessSpecifier())}}); needRec(BR); }
    o["bases"] = std::move(bs);
    if (R->isLambda()) o["lambda"] = true;
    if (auto TS = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      Array ta; for (auto &A : TS->getTemplateArgs().asArray()) if (A.getKind() == TemplateArgument::Type) ta.push_back(tstr(A.getAsType())); else ta.push_back("#"); o["targs"] = std::move(ta);
    }
    if (inRoot(recLoc(R))) {
      Array fs;
      for (auto F : R->fields()) { Object f{{"n", F->getNameAsString()}, {"t", type(F->getType())}, {"acc", acc(F->getAccess())}, {"l", (int64_t)lineOf(F->getLocation())}}; if (F->hasInClassInitializer()) f["init"] = true; if (F->isMutable()) f["mut"] = true; fs.push_back(std::move(f)); }
      o["fields"] = std::move(fs);
      Array sf;
      for (auto D : R->decls()) if (auto V = dyn_cast<VarDecl>(D)) sf.push_back(Object{{"n", V->getNameAsString()}, {"t", type(V->getType())}});
      o["sfields"] = std::move(sf);
      Array ms;
      for (auto M : R->methods()) {
        Object m{{"n", M->getDeclName().getAsString()}, {"usr", usr(M)}, {"acc", acc(M->getAccess())}, {"l", (int64_t)lineOf(M->getLocation())}};
        if (M->isVirtual()) m["virt"] = true; if (M->isPureVirtual()) m["pure"] = true; if (M->isConst()) m["const"] = true; if (M->isDeleted()) m["del"] = true;
        if (M->isDefaulted()) m["dflt"] = true; if (M->isImplicit()) m["impl"] = true; if (M->isUserProvided()) m["user"] = true; if (M->isStatic()) m["static"] = true;
        if (isa<CXXConstructorDecl>(M)) { m["ctor"] = true; if (cast<CXXConstructorDecl>(M)->isCopyConstructor()) m["cp"] = true; if (cast<CXXConstructorDecl>(M)->isMoveConstructor()) m["mv"] = true; }
        if (isa<CXXDestructorDecl>(M)) m["dtor"] = true;
        if (M->isCopyAssignmentOperator()) m["cpa"] = true; if (M->isMoveAssignmentOperator()) m["mva"] = true;
        const FunctionDecl *B = nullptr; m["body"] = M->hasBody(B);
        Array ou, r; std::set<const CXXMethodDecl *> seen; roots(M, r, ou, seen); if (!ou.empty()) { m["ovu"] = std::move(ou); m["ov"] = std::move(r); }
        Array pt; for (auto P : M->parameters()) pt.push_back(type(P->getType())); m["pt"] = std::move(pt); m["rt"] = type(M->getReturnType());
        ms.push_back(std::move(m));
        if (!M->isImplicit() || (M->hasBody(B))) fnQueue.push_back(M);
      }
      o["methods"] = std::move(ms);
      o["abstract"] = R->isAbstract(); o["poly"] = R->isPolymorphic();
      auto *Dt = R->getDestructor();
      o["vdtor"] = Dt && Dt->isVirtual();
      o["hcc"] = R->hasSimpleCopyConstructor() ? "simple" : R->hasUserDeclaredCopyConstructor() ? "user" : (!R->needsOverloadResolutionForCopyConstructor() && R->defaultedCopyConstructorIsDeleted()) ? "deleted" : "implicit";
    }
    line(std::move(o));
  }
  void flush() {
    while (!fnQueue.empty() || !recQueue.empty()) {
      if (!recQueue.empty()) { auto R = recQueue.back(); recQueue.pop_back(); rec(R); continue; }
      auto F = fnQueue.back(); fnQueue.pop_back(); fn(F);
    }
  }
  void gvar(const VarDecl *V) {
    Object o{{"kind", "var"}, {"n", qname(V)}, {"id", id(V)}, {"t", type(V->getType())}, {"file", rel(fileOf(V->getLocation()))}, {"line", (int64_t)lineOf(V->getLocation())}};
    if (V->hasInit() && !V->getInit()->isValueDependent()) o["init"] = E(V->getInit());
    line(std::move(o));
  }
};

class Vis : public RecursiveASTVisitor<Vis> {
public:
  Dumper &D; std::set<std::string> tmplSeen;
  Vis(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (F->isThisDeclarationADefinition() && D.inRoot(F->getLocation())) D.fnQueue.push_back(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isDependentContext() || !R->isThisDeclarationADefinition()) return true;
    if (D.inRoot(D.recLoc(R))) D.needRec(R);
    return true;
  }
  bool VisitClassTemplateDecl(ClassTemplateDecl *T) {
    if (!T->isThisDeclarationADefinition() || !D.inRoot(T->getLocation())) return true;
    int n = 0; for (auto S : T->specializations()) if (S->hasDefinition()) ++n;
    Array tp; for (auto P : *T->getTemplateParameters()) { bool df = isa<TemplateTypeParmDecl>(P) ? cast<TemplateTypeParmDecl>(P)->hasDefaultArgument() : isa<NonTypeTemplateParmDecl>(P) ? cast<NonTypeTemplateParmDecl>(P)->hasDefaultArgument() : false;
      tp.push_back((isa<TemplateTypeParmDecl>(P) ? std::string("T:") : isa<NonTypeTemplateParmDecl>(P) ? std::string("N:") : std::string("X:")) + P->getNameAsString() + (df ? "=" : "") + (P->isTemplateParameterPack() ? "..." : "")); }
    D.line(Object{{"kind", "tmpl"}, {"tp", std::move(tp)}, {"n", D.qname(T)}, {"file", D.rel(D.fileOf(T->getLocation()))}, {"line", (int64_t)D.lineOf(T->getLocation())}, {"specs", n}});
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isFileVarDecl() && !V->getDeclContext()->isDependentContext() && !V->getType()->isDependentType() && D.inRoot(V->getLocation()) && V->isThisDeclarationADefinition()) D.gvar(V);
    return true;
  }
};

class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    if (EC) { llvm::errs() << "px: cannot write " << OutPath << "\n"; exit(3); }
    Dumper D(C, OS);
    Vis V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    D.flush();
    Array tt; for (auto &t : D.typeTab) tt.push_back(t);
    D.line(Object{{"kind", "types"}, {"tab", std::move(tt)}});
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, char **argv) {
  if (argc < 4) { llvm::errs() << "usage: px ROOT OUT FILE -- flags\n"; return 2; }
  Root = argv[1]; OutPath = argv[2];
  std::vector<std::string> srcs{argv[3]}; std::vector<std::string> flags;
  for (int i = 4; i < argc; ++i) if (std::string(argv[i]) != "--") flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, srcs);
  T.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster({"-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-fsyntax-only", "-w", "-ferror-limit=40"}, tooling::ArgumentInsertPosition::BEGIN));
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
