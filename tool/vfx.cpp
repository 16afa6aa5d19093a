// vfx - fact extractor for the vara-feature static analyses.
//
// Parses one translation unit with clang and writes the *resolved* program
// (callees, types, fields, conversions, template instantiations) for every
// function, record, enum and constant that is defined below a given root
// directory.  The deciding analyses run on these facts; nothing is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

namespace {

class Exporter {
public:
  Exporter(ASTContext &Ctx)
      : Ctx(Ctx), SM(Ctx.getSourceManager()), PP(Ctx.getLangOpts()), NG(Ctx) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = true;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
    PP.TerseOutput = true;
  }

  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  ASTNameGenerator NG;
  std::map<std::string, int> TypeIdx;
  json::Array Types;
  std::set<std::string> SeenFn;
  json::Array Functions, Records, Enums, Globals;
  std::map<const Decl *, int> LocalIds;

  int local(const Decl *D) {
    D = D->getCanonicalDecl();
    auto [It, New] = LocalIds.try_emplace(D, LocalIds.size() + 1);
    return It->second;
  }

  int type(QualType T) {
    if (T.isNull())
      return -1;
    std::string S = T.getCanonicalType().getAsString(PP);
    auto [It, New] = TypeIdx.try_emplace(S, TypeIdx.size());
    if (New)
      Types.push_back(S);
    return It->second;
  }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    llvm::SmallString<256> P(F);
    Ctx.getSourceManager().getFileManager().makeAbsolutePath(P);
    llvm::SmallString<256> R(P);
    llvm::sys::path::remove_dots(R, true);
    return std::string(R);
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  bool inRoot(SourceLocation L) {
    if (L.isInvalid())
      return false;
    std::string F = file(L);
    for (auto &R : Roots)
      if (llvm::StringRef(F).starts_with(R) &&
          !llvm::StringRef(F).contains("/_build/") &&
          !llvm::StringRef(F).contains("/external/"))
        return true;
    return false;
  }

  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    PrintingPolicy P2(PP);
    D->printQualifiedName(OS, P2);
    return OS.str();
  }

  // qualified name of the record including template arguments
  std::string recName(const CXXRecordDecl *R) {
    if (!R)
      return "";
    return QualType(R->getTypeForDecl(), 0).getCanonicalType().getAsString(PP);
  }

  std::string mangled(const Decl *D) {
    std::string N = NG.getName(D);
    if (N.empty())
      if (auto *ND = dyn_cast<NamedDecl>(D))
        N = qname(ND);
    return N;
  }

  json::Value fnRef(const FunctionDecl *F) {
    json::Object O;
    O["q"] = qname(F);
    O["id"] = mangled(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recName(M->getParent());
      if (M->isVirtual())
        O["virt"] = true;
      if (M->isStatic())
        O["static"] = true;
      if (M->isConst())
        O["const"] = true;
      if (M->getParent()->isLambda())
        O["lam"] = true;
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array A;
      for (auto &Arg : TA->asArray()) {
        std::string S;
        llvm::raw_string_ostream OS(S);
        Arg.print(PP, OS, true);
        A.push_back(OS.str());
      }
      O["targs"] = std::move(A);
    }
    if (inRoot(F->getLocation()))
      O["repo"] = true;
    O["rt"] = type(F->getReturnType());
    return O;
  }

  json::Value args(llvm::ArrayRef<const Expr *> As) {
    json::Array A;
    for (auto *E : As)
      A.push_back(expr(E));
    return A;
  }

  json::Object node(const Expr *E, const char *K) {
    json::Object O;
    O["k"] = K;
    O["l"] = line(E->getExprLoc());
    O["t"] = type(E->getType());
    return O;
  }

  json::Value varDecl(const VarDecl *V) {
    json::Object O;
    O["id"] = local(V);
    O["n"] = V->getNameAsString();
    O["t"] = type(V->getType());
    O["l"] = line(V->getLocation());
    if (V->isStaticLocal())
      O["static"] = true;
    if (V->hasInit() && !isa<ParmVarDecl>(V))
      O["init"] = expr(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array B;
      for (auto *BD : DD->bindings()) {
        json::Object BO;
        BO["id"] = local(BD);
        BO["n"] = BD->getNameAsString();
        if (auto *HV = BD->getHoldingVar())
          BO["hid"] = local(HV);
        if (BD->getBinding())
          BO["e"] = expr(BD->getBinding());
        B.push_back(std::move(BO));
      }
      O["bind"] = std::move(B);
    }
    return O;
  }

  json::Value params(const FunctionDecl *F) {
    json::Array A;
    for (auto *P : F->parameters()) {
      json::Object O;
      O["id"] = local(P);
      O["n"] = P->getNameAsString();
      O["t"] = type(P->getType());
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() &&
          !P->hasUnparsedDefaultArg())
        O["def"] = expr(P->getDefaultArg());
      else if (P->hasUninstantiatedDefaultArg() &&
               isa<CXXBoolLiteralExpr, CXXNullPtrLiteralExpr>(
                   P->getUninstantiatedDefaultArg()->IgnoreImplicit()))
        O["def"] = expr(P->getUninstantiatedDefaultArg()->IgnoreImplicit());
      A.push_back(std::move(O));
    }
    return A;
  }

  json::Value expr(const Expr *E) {
    if (!E)
      return nullptr;
    // transparent wrappers
    if (auto *P = dyn_cast<ParenExpr>(E))
      return expr(P->getSubExpr());
    if (auto *P = dyn_cast<FullExpr>(E))
      return expr(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E))
      return expr(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E))
      return expr(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
      return expr(P->getReplacement());
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E))
      return expr(P->getSubExpr());
    if (auto *P = dyn_cast<OpaqueValueExpr>(E))
      return expr(P->getSourceExpr());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) {
      auto V = expr(P->getExpr());
      if (auto *O = V.getAsObject())
        (*O)["dflt"] = true;
      return V;
    }
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E))
      return expr(P->getExpr());
    if (auto *P = dyn_cast<PseudoObjectExpr>(E))
      return expr(P->getResultExpr());
    if (auto *P = dyn_cast<GenericSelectionExpr>(E))
      return expr(P->getResultExpr());
    if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E))
      return expr(P->getSemanticForm());

    if (auto *C = dyn_cast<CastExpr>(E)) {
      // user conversions contain the call as sub expression
      QualType To = C->getType(), From = C->getSubExpr()->getType();
      bool Explicit = isa<ExplicitCastExpr>(C);
      auto CK = C->getCastKind();
      bool Keep = Explicit || CK == CK_IntegralCast ||
                  CK == CK_IntegralToBoolean || CK == CK_PointerToBoolean ||
                  CK == CK_FloatingToIntegral || CK == CK_IntegralToFloating ||
                  CK == CK_FloatingCast || CK == CK_NullToPointer ||
                  CK == CK_ToVoid;
      if (!Keep)
        return expr(C->getSubExpr());
      if (CK == CK_NullToPointer) {
        auto O = node(E, "null");
        return O;
      }
      auto O = node(E, "cast");
      O["ck"] = C->getCastKindName();
      if (!Explicit)
        O["imp"] = true;
      else if (auto *NC = dyn_cast<CXXNamedCastExpr>(C))
        O["named"] = NC->getCastName();
      O["from"] = type(From);
      if (From->isIntegralOrEnumerationType() &&
          !From->isDependentType())
        O["fb"] = (int)Ctx.getIntWidth(From) *
                  (From->isSignedIntegerOrEnumerationType() ? -1 : 1);
      if (To->isIntegralOrEnumerationType() && !To->isDependentType())
        O["tb"] = (int)Ctx.getIntWidth(To) *
                  (To->isSignedIntegerOrEnumerationType() ? -1 : 1);
      O["e"] = expr(C->getSubExpr());
      return O;
    }

    // literals / constants
    if (auto *L = dyn_cast<IntegerLiteral>(E)) {
      auto O = node(E, "int");
      llvm::SmallString<32> S;
      L->getValue().toString(S, 10, L->getType()->isSignedIntegerType());
      O["v"] = std::string(S);
      return O;
    }
    if (auto *L = dyn_cast<CharacterLiteral>(E)) {
      auto O = node(E, "char");
      O["v"] = std::to_string(L->getValue());
      return O;
    }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) {
      auto O = node(E, "bool");
      O["v"] = L->getValue();
      return O;
    }
    if (auto *L = dyn_cast<StringLiteral>(E)) {
      auto O = node(E, "str");
      O["v"] = json::fixUTF8(L->getBytes());
      return O;
    }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) {
      auto O = node(E, "float");
      llvm::SmallString<32> S;
      L->getValue().toString(S);
      O["v"] = std::string(S);
      return O;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
      return node(E, "null");
    if (isa<CXXThisExpr>(E))
      return node(E, "this");

    if (auto *R = dyn_cast<DeclRefExpr>(E)) {
      auto *D = R->getDecl();
      auto O = node(E, "ref");
      O["n"] = D->getNameAsString();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["dk"] = "enum";
        O["q"] = qname(EC);
        llvm::SmallString<32> S;
        EC->getInitVal().toString(S, 10);
        O["v"] = std::string(S);
        if (auto *ED = dyn_cast<EnumDecl>(EC->getDeclContext()))
          O["en"] = qname(ED) + "::" + EC->getNameAsString();
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["dk"] = "fn";
        O["fn"] = fnRef(F);
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage() && !V->isStaticLocal()) {
          O["dk"] = "global";
          O["q"] = qname(V);
          Expr::EvalResult ER;
          if (!V->getType()->isDependentType() &&
              V->getType()->isIntegralOrEnumerationType() &&
              E->EvaluateAsInt(ER, Ctx)) {
            llvm::SmallString<32> S;
            ER.Val.getInt().toString(S, 10);
            O["cv"] = std::string(S);
          }
        } else {
          O["dk"] = isa<ParmVarDecl>(V) ? "param" : "var";
          O["d"] = local(V);
          if (V->isConstexpr()) {
            Expr::EvalResult ER;
            if (V->getType()->isIntegralOrEnumerationType() &&
                E->EvaluateAsInt(ER, Ctx)) {
              llvm::SmallString<32> S;
              ER.Val.getInt().toString(S, 10);
              O["cv"] = std::string(S);
            }
          }
        }
      } else if (auto *B = dyn_cast<BindingDecl>(D)) {
        O["dk"] = "bind";
        O["d"] = local(B);
      } else {
        O["dk"] = "other";
        O["q"] = qname(D);
      }
      return O;
    }

    if (auto *M = dyn_cast<MemberExpr>(E)) {
      auto *D = M->getMemberDecl();
      auto O = node(E, "mem");
      O["n"] = D->getNameAsString();
      O["q"] = qname(D);
      if (isa<CXXMethodDecl>(D)) {
        O["mfn"] = fnRef(cast<FunctionDecl>(D));
      } else if (auto *V = dyn_cast<VarDecl>(D)) { // static member
        auto O2 = node(E, "ref");
        O2["dk"] = "global";
        O2["n"] = V->getNameAsString();
        O2["q"] = qname(V);
        return O2;
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        auto O2 = node(E, "ref");
        O2["dk"] = "enum";
        O2["n"] = EC->getNameAsString();
        O2["q"] = qname(EC);
        if (auto *ED = dyn_cast<EnumDecl>(EC->getDeclContext()))
          O2["en"] = qname(ED) + "::" + EC->getNameAsString();
        return O2;
      }
      if (M->isArrow())
        O["arrow"] = true;
      O["b"] = expr(M->getBase());
      return O;
    }

    if (auto *C = dyn_cast<CallExpr>(E)) {
      auto O = node(E, "call");
      const FunctionDecl *F = C->getDirectCallee();
      std::vector<const Expr *> As(C->getArgs(), C->getArgs() + C->getNumArgs());
      if (F) {
        O["fn"] = fnRef(F);
        if (auto *MC = dyn_cast<CXXMemberCallExpr>(C)) {
          O["obj"] = expr(MC->getImplicitObjectArgument());
          if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
            if (ME->isArrow())
              O["arrow"] = true;
            if (ME->hasQualifier())
              O["qual"] = true;
            O["ot"] = type(MC->getImplicitObjectArgument()->getType());
          }
        } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(C)) {
          O["op"] = getOperatorSpelling(OC->getOperator());
          if (auto *MD = dyn_cast<CXXMethodDecl>(F); MD && !MD->isStatic()) {
            O["obj"] = expr(As[0]);
            As.erase(As.begin());
          }
        }
      } else {
        O["ce"] = expr(C->getCallee());
      }
      O["a"] = args(As);
      return O;
    }

    if (auto *C = dyn_cast<CXXConstructExpr>(E)) {
      auto *CD = C->getConstructor();
      auto O = node(E, "ctor");
      O["fn"] = fnRef(CD);
      O["cls"] = recName(CD->getParent());
      if (CD->isCopyConstructor())
        O["copy"] = true;
      if (CD->isMoveConstructor())
        O["move"] = true;
      if (isa<CXXTemporaryObjectExpr>(C))
        O["tmp"] = true;
      if (CD->isConvertingConstructor(false) && C->getNumArgs() == 1)
        O["conv"] = true;
      std::vector<const Expr *> As(C->getArgs(), C->getArgs() + C->getNumArgs());
      O["a"] = args(As);
      return O;
    }
    if (auto *C = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      auto O = node(E, "ctor");
      O["fn"] = fnRef(C->getConstructor());
      O["cls"] = recName(C->getConstructor()->getParent());
      O["inh"] = true;
      O["a"] = json::Array();
      return O;
    }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      auto O = node(E, "new");
      O["nt"] = type(N->getAllocatedType());
      if (N->getInitializer())
        O["e"] = expr(N->getInitializer());
      return O;
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E)) {
      auto O = node(E, "delete");
      O["e"] = expr(D->getArgument());
      return O;
    }
    if (auto *B = dyn_cast<CompoundAssignOperator>(E)) {
      auto O = node(E, "asg");
      O["op"] = B->getOpcodeStr();
      O["a"] = expr(B->getLHS());
      O["b"] = expr(B->getRHS());
      return O;
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      auto O = node(E, B->isAssignmentOp() ? "asg" : "bin");
      O["op"] = B->getOpcodeStr();
      O["a"] = expr(B->getLHS());
      O["b"] = expr(B->getRHS());
      return O;
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      auto O = node(E, "un");
      O["op"] = UnaryOperator::getOpcodeStr(U->getOpcode());
      if (U->isPostfix())
        O["post"] = true;
      O["e"] = expr(U->getSubExpr());
      return O;
    }
    if (auto *C = dyn_cast<AbstractConditionalOperator>(E)) {
      auto O = node(E, "cond");
      O["c"] = expr(C->getCond());
      O["a"] = expr(C->getTrueExpr());
      O["b"] = expr(C->getFalseExpr());
      return O;
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
      auto O = node(E, "idx");
      O["b"] = expr(A->getBase());
      O["i"] = expr(A->getIdx());
      return O;
    }
    if (auto *I = dyn_cast<InitListExpr>(E)) {
      auto O = node(E, "init");
      if (I->isSemanticForm() == false && I->getSemanticForm())
        I = I->getSemanticForm();
      json::Array A;
      for (unsigned i = 0; i < I->getNumInits(); ++i)
        A.push_back(expr(I->getInit(i)));
      O["a"] = std::move(A);
      if (auto *RD = I->getType()->getAsCXXRecordDecl()) {
        O["cls"] = recName(RD);
        json::Array F;
        for (auto &Bs : RD->bases())
          F.push_back("base:" + recName(Bs.getType()->getAsCXXRecordDecl()));
        for (auto *Fl : RD->fields())
          F.push_back(qname(Fl));
        O["f"] = std::move(F);
      }
      return O;
    }
    if (auto *P = dyn_cast<CXXParenListInitExpr>(E)) {
      auto O = node(E, "init");
      json::Array A;
      for (auto *X : P->getInitExprs())
        A.push_back(expr(X));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *L = dyn_cast<LambdaExpr>(E))
      return lambda(L);
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E))
      return node(E, "zero");
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
      auto O = node(E, "throw");
      if (T->getSubExpr())
        O["e"] = expr(T->getSubExpr());
      return O;
    }
    {
      Expr::EvalResult ER;
      if (!E->isValueDependent() && !E->isTypeDependent() &&
          E->getType()->isIntegralOrEnumerationType() &&
          E->EvaluateAsInt(ER, Ctx)) {
        auto O = node(E, "int");
        llvm::SmallString<32> S;
        ER.Val.getInt().toString(S, 10);
        O["v"] = std::string(S);
        O["folded"] = E->getStmtClassName();
        return O;
      }
    }
    auto O = node(E, "unk");
    O["cls"] = E->getStmtClassName();
    json::Array A;
    for (auto *S : E->children())
      if (auto *X = dyn_cast_or_null<Expr>(S))
        A.push_back(expr(X));
    O["a"] = std::move(A);
    return O;
  }

  json::Value lambda(const LambdaExpr *L) {
    auto O = node(L, "lambda");
    json::Array Caps;
    auto *LC = L->getLambdaClass();
    auto InitIt = L->capture_init_begin();
    for (auto &C : L->captures()) {
      json::Object CO;
      if (C.capturesThis())
        CO["this"] = true;
      if (C.capturesVariable()) {
        CO["d"] = local(C.getCapturedVar());
        CO["n"] = C.getCapturedVar()->getNameAsString();
        if (auto *V = dyn_cast<VarDecl>(C.getCapturedVar()))
          if (V->isInitCapture() && V->hasInit())
            CO["init"] = expr(V->getInit());
      }
      CO["ref"] = C.getCaptureKind() == LCK_ByRef;
      Caps.push_back(std::move(CO));
      ++InitIt;
    }
    O["caps"] = std::move(Caps);
    json::Array Bodies;
    auto Add = [&](const CXXMethodDecl *M) {
      if (!M || !M->hasBody() || M->isDependentContext())
        return;
      json::Object B;
      B["id"] = mangled(M);
      B["params"] = params(M);
      B["rt"] = type(M->getReturnType());
      B["body"] = stmt(M->getBody());
      Bodies.push_back(std::move(B));
    };
    if (auto *FT = LC->getDependentLambdaCallOperator()) {
      for (auto *S : FT->specializations()) {
        const FunctionDecl *Def = nullptr;
        if (S->isDefined(Def))
          Add(cast<CXXMethodDecl>(Def));
      }
    } else {
      Add(LC->getLambdaCallOperator());
    }
    O["bodies"] = std::move(Bodies);
    return O;
  }

  json::Value stmts(const Stmt *S) { return stmt(S); }

  json::Value stmt(const Stmt *S) {
    if (!S)
      return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      json::Object O;
      O["s"] = "expr";
      O["l"] = line(E->getExprLoc());
      O["e"] = expr(E);
      return O;
    }
    json::Object O;
    O["l"] = line(S->getBeginLoc());
    if (auto *C = dyn_cast<CompoundStmt>(S)) {
      O["s"] = "block";
      json::Array A;
      for (auto *X : C->body())
        A.push_back(stmt(X));
      O["b"] = std::move(A);
    } else if (auto *D = dyn_cast<DeclStmt>(S)) {
      O["s"] = "decl";
      json::Array A;
      for (auto *X : D->decls())
        if (auto *V = dyn_cast<VarDecl>(X))
          A.push_back(varDecl(V));
      O["d"] = std::move(A);
    } else if (auto *I = dyn_cast<IfStmt>(S)) {
      O["s"] = "if";
      if (I->getInit())
        O["init"] = stmt(I->getInit());
      if (I->getConditionVariable())
        O["var"] = varDecl(I->getConditionVariable());
      if (I->isConstexpr()) {
        Expr::EvalResult ER;
        if (!I->getCond()->isValueDependent() &&
            I->getCond()->EvaluateAsInt(ER, Ctx))
          O["const"] = ER.Val.getInt().getBoolValue();
      }
      O["c"] = expr(I->getCond());
      O["a"] = stmt(I->getThen());
      if (I->getElse())
        O["b"] = stmt(I->getElse());
    } else if (auto *W = dyn_cast<WhileStmt>(S)) {
      O["s"] = "while";
      if (W->getConditionVariable())
        O["var"] = varDecl(W->getConditionVariable());
      O["c"] = expr(W->getCond());
      O["b"] = stmt(W->getBody());
    } else if (auto *D = dyn_cast<DoStmt>(S)) {
      O["s"] = "do";
      O["c"] = expr(D->getCond());
      O["b"] = stmt(D->getBody());
    } else if (auto *F = dyn_cast<ForStmt>(S)) {
      O["s"] = "for";
      if (F->getInit())
        O["init"] = stmt(F->getInit());
      if (F->getConditionVariable())
        O["var"] = varDecl(F->getConditionVariable());
      if (F->getCond())
        O["c"] = expr(F->getCond());
      if (F->getInc())
        O["inc"] = expr(F->getInc());
      O["b"] = stmt(F->getBody());
    } else if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      O["s"] = "rfor";
      if (F->getInit())
        O["init"] = stmt(F->getInit());
      O["v"] = varDecl(F->getLoopVariable());
      O["r"] = expr(F->getRangeInit());
      O["b"] = stmt(F->getBody());
    } else if (auto *Sw = dyn_cast<SwitchStmt>(S)) {
      O["s"] = "switch";
      if (Sw->getInit())
        O["init"] = stmt(Sw->getInit());
      if (Sw->getConditionVariable())
        O["var"] = varDecl(Sw->getConditionVariable());
      O["c"] = expr(Sw->getCond());
      O["ct"] = type(Sw->getCond()->IgnoreParenImpCasts()->getType());
      O["b"] = stmt(Sw->getBody());
      if (Sw->isAllEnumCasesCovered())
        O["all"] = true;
    } else if (auto *C = dyn_cast<CaseStmt>(S)) {
      O["s"] = "case";
      O["v"] = expr(C->getLHS());
      O["b"] = stmt(C->getSubStmt());
    } else if (auto *D = dyn_cast<DefaultStmt>(S)) {
      O["s"] = "default";
      O["b"] = stmt(D->getSubStmt());
    } else if (auto *R = dyn_cast<ReturnStmt>(S)) {
      O["s"] = "return";
      if (R->getRetValue())
        O["e"] = expr(R->getRetValue());
    } else if (isa<BreakStmt>(S)) {
      O["s"] = "break";
    } else if (isa<ContinueStmt>(S)) {
      O["s"] = "continue";
    } else if (isa<NullStmt>(S)) {
      O["s"] = "nop";
    } else if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      O["s"] = "try";
      O["b"] = stmt(T->getTryBlock());
      json::Array H;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i)
        H.push_back(stmt(T->getHandler(i)->getHandlerBlock()));
      O["h"] = std::move(H);
    } else if (auto *A = dyn_cast<AttributedStmt>(S)) {
      return stmt(A->getSubStmt());
    } else if (auto *L = dyn_cast<LabelStmt>(S)) {
      return stmt(L->getSubStmt());
    } else {
      O["s"] = "unk";
      O["cls"] = S->getStmtClassName();
    }
    return O;
  }

  static const char *acc(AccessSpecifier A) {
    switch (A) {
    case AS_public:
      return "public";
    case AS_protected:
      return "protected";
    case AS_private:
      return "private";
    default:
      return "none";
    }
  }

  void addFunction(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext())
      return;
    if (F->isDefaulted() || F->isDeleted())
      return;
    if (!inRoot(F->getLocation()))
      return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda())
        return;
    std::string Id = mangled(F);
    if (!SeenFn.insert(Id).second)
      return;
    json::Object O;
    O["id"] = Id;
    O["q"] = qname(F);
    O["file"] = file(F->getLocation());
    O["l"] = line(F->getLocation());
    O["el"] = line(F->getEndLoc());
    O["rt"] = type(F->getReturnType());
    O["params"] = params(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recName(M->getParent());
      O["acc"] = acc(M->getAccess());
      if (M->isStatic())
        O["static"] = true;
      if (M->isVirtual())
        O["virt"] = true;
      if (M->isConst())
        O["const"] = true;
      json::Array Ov;
      for (auto *X : M->overridden_methods())
        Ov.push_back(mangled(X));
      if (!Ov.empty())
        O["over"] = std::move(Ov);
    }
    if (F->getTemplateSpecializationArgs())
      O["targs"] = (*fnRef(F).getAsObject())["targs"];
    if (F->getFormalLinkage() == Linkage::Internal)
      O["internal"] = true;
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      json::Array Inits;
      for (auto *I : C->inits()) {
        json::Object IO;
        if (I->isMemberInitializer())
          IO["f"] = qname(I->getMember());
        else if (I->isBaseInitializer())
          IO["base"] = type(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer())
          IO["deleg"] = true;
        if (I->isWritten())
          IO["w"] = true;
        IO["e"] = expr(I->getInit());
        Inits.push_back(std::move(IO));
      }
      O["inits"] = std::move(Inits);
    }
    if (isa<CXXDestructorDecl>(F))
      O["dtor"] = true;
    O["body"] = stmt(F->getBody());
    Functions.push_back(std::move(O));
  }

  std::set<std::string> SeenRec;
  void addRecord(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isLambda() ||
        R->isDependentContext())
      return;
    if (!inRoot(R->getLocation()))
      return;
    std::string N = recName(R);
    if (!SeenRec.insert(N).second)
      return;
    json::Object O;
    O["n"] = N;
    O["q"] = qname(R);
    O["file"] = file(R->getLocation());
    O["l"] = line(R->getLocation());
    O["acc"] = acc(R->getAccess());
    json::Array B;
    for (auto &X : R->bases()) {
      json::Object BO;
      BO["n"] = recName(X.getType()->getAsCXXRecordDecl());
      BO["acc"] = acc(X.getAccessSpecifier());
      B.push_back(std::move(BO));
    }
    O["bases"] = std::move(B);
    json::Array F;
    for (auto *X : R->fields()) {
      json::Object FO;
      FO["n"] = X->getNameAsString();
      FO["q"] = qname(X);
      FO["t"] = type(X->getType());
      FO["acc"] = acc(X->getAccess());
      FO["l"] = line(X->getLocation());
      if (X->isMutable())
        FO["mut"] = true;
      F.push_back(std::move(FO));
    }
    O["fields"] = std::move(F);
    json::Array M;
    for (auto *X : R->methods()) {
      if (X->isImplicit())
        continue;
      json::Object MO;
      MO["n"] = X->getNameAsString();
      MO["id"] = mangled(X);
      MO["acc"] = acc(X->getAccess());
      MO["rt"] = type(X->getReturnType());
      json::Array P;
      for (auto *Y : X->parameters())
        P.push_back(type(Y->getType()));
      MO["p"] = std::move(P);
      if (X->isVirtual())
        MO["virt"] = true;
      if (X->isPureVirtual())
        MO["pure"] = true;
      if (X->isDeleted())
        MO["del"] = true;
      if (X->isDefaulted())
        MO["dfl"] = true;
      if (X->isStatic())
        MO["static"] = true;
      if (X->isConst())
        MO["const"] = true;
      if (X->size_overridden_methods())
        MO["over"] = true;
      if (X->hasAttr<WarnUnusedResultAttr>())
        MO["nodiscard"] = true;
      M.push_back(std::move(MO));
    }
    for (auto *D : R->decls())
      if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) {
        json::Object MO;
        MO["n"] = FT->getNameAsString();
        MO["acc"] = acc(FT->getAccess());
        MO["tmpl"] = true;
        MO["id"] = qname(FT);
        MO["p"] = json::Array();
        M.push_back(std::move(MO));
      }
    O["methods"] = std::move(M);
    json::Array Us;
    for (auto *D : R->decls())
      if (auto *U = dyn_cast<UsingShadowDecl>(D)) {
        if (!isa<FunctionDecl>(U->getTargetDecl()) &&
            !isa<FieldDecl>(U->getTargetDecl()))
          continue;
        json::Object UO;
        UO["n"] = U->getTargetDecl()->getNameAsString();
        UO["of"] = qname(cast<NamedDecl>(U->getTargetDecl()));
        UO["acc"] = acc(U->getAccess());
        UO["l"] = line(U->getLocation());
        if (auto *MD = dyn_cast<CXXMethodDecl>(U->getTargetDecl()))
          UO["const"] = MD->isConst();
        Us.push_back(std::move(UO));
      }
    O["usings"] = std::move(Us);
    json::Array Fr;
    for (auto *X : R->friends()) {
      if (auto *TSI = X->getFriendType())
        Fr.push_back(TSI->getType().getCanonicalType().getAsString(PP));
      else if (auto *ND = X->getFriendDecl())
        Fr.push_back(qname(ND));
    }
    O["friends"] = std::move(Fr);
    Records.push_back(std::move(O));
  }

  void addEnum(const EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !inRoot(E->getLocation()))
      return;
    if (E->isDependentContext())
      return;
    json::Object O;
    O["q"] = qname(E);
    O["file"] = file(E->getLocation());
    O["l"] = line(E->getLocation());
    json::Array A;
    for (auto *C : E->enumerators()) {
      llvm::SmallString<32> S;
      C->getInitVal().toString(S, 10);
      json::Object CO;
      CO["n"] = C->getNameAsString();
      CO["v"] = std::string(S);
      A.push_back(std::move(CO));
    }
    O["vals"] = std::move(A);
    Enums.push_back(std::move(O));
  }

  void addGlobal(const VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || isa<ParmVarDecl>(V))
      return;
    if (!inRoot(V->getLocation()) || V->getDeclContext()->isDependentContext())
      return;
    if (!V->hasInit())
      return;
    if (isa<VarTemplatePartialSpecializationDecl>(V) ||
        V->getType()->isDependentType() || V->getInit()->isValueDependent() ||
        V->getInit()->isTypeDependent())
      return;
    json::Object O;
    O["q"] = qname(V);
    O["file"] = file(V->getLocation());
    O["l"] = line(V->getLocation());
    O["t"] = type(V->getType());
    O["const"] = V->getType().isConstQualified();
    O["init"] = expr(V->getInit());
    Globals.push_back(std::move(O));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Visitor(Exporter &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    X.addFunction(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    X.addRecord(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    X.addEnum(E);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    X.addGlobal(V);
    return true;
  }
  Exporter &X;
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &Ctx) override {
    Exporter X(Ctx);
    Visitor V(X);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    json::Object O;
    O["types"] = std::move(X.Types);
    O["functions"] = std::move(X.Functions);
    O["records"] = std::move(X.Records);
    O["enums"] = std::move(X.Enums);
    O["globals"] = std::move(X.Globals);
    O["errors"] = (int)Ctx.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OS << json::Value(std::move(O));
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &,
                                                 llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

} // namespace

// usage: vfx OUT.json ROOT[,ROOT..] FILE -- flags
int main(int argc, char **argv) {
  if (argc < 5) {
    llvm::errs() << "usage: vfx OUT ROOTS FILE -- flags\n";
    return 2;
  }
  OutPath = argv[1];
  llvm::SmallVector<llvm::StringRef, 4> Rs;
  llvm::StringRef(argv[2]).split(Rs, ',');
  for (auto R : Rs)
    Roots.push_back(R.str());
  std::string File = argv[3];
  std::vector<std::string> Flags;
  for (int i = 5; i < argc; ++i)
    Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {File});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
