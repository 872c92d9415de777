// Dumps the type-checked program (clang AST, resolved callees, template
// instantiations, implicit members) of the given sources as one compact JSON
// document per run.  Only declarations located under --root are dumped.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;
static std::map<std::string, Object> Functions, Records, Enums, Globals;
static std::vector<std::string> Errors;

namespace {

struct Dumper {
    ASTContext& Ctx;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const Decl*, int> LocalIds;
    int NextId = 0;
    std::string FnFile;

    Dumper(ASTContext& C)
        : Ctx(C)
        , SM(C.getSourceManager())
        , PP(C.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = false;
        PP.MSVCFormatting = false;
    }

    std::string file(SourceLocation L)
    {
        auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        if (P.isInvalid())
            return "";
        llvm::SmallString<256> S(P.getFilename());
        if (auto FE = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(L)))) {
            auto R = FE->getFileEntry().tryGetRealPathName();
            if (!R.empty())
                return R.str();
        }
        return S.str().str();
    }
    unsigned line(SourceLocation L)
    {
        return SM.getExpansionLineNumber(SM.getExpansionLoc(L));
    }
    bool inRoot(SourceLocation L)
    {
        if (L.isInvalid())
            return false;
        return file(L).rfind(Root, 0) == 0;
    }
    static void replaceAll(std::string& S, const std::string& A, const std::string& B)
    {
        for (size_t P = 0; (P = S.find(A, P)) != std::string::npos; P += B.size())
            S.replace(P, A.size(), B);
    }
    static std::string abbreviate(std::string S)
    {
        static const std::string Str = "std::basic_string<char, std::char_traits<char>, std::allocator<char>>";
        replaceAll(S, Str, "std::string");
        static const std::string Json = "nlohmann::basic_json<std::map, std::vector, std::string, bool, long, unsigned long, "
                                        "double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char, "
                                        "std::allocator<unsigned char>>, void>";
        replaceAll(S, Json, "json");
        return S;
    }
    std::string type(QualType T)
    {
        if (T.isNull())
            return "";
        return abbreviate(T.getCanonicalType().getAsString(PP));
    }

    std::string qname(const NamedDecl* D)
    {
        std::string S;
        llvm::raw_string_ostream OS(S);
        D->getNameForDiagnostic(OS, PP, true);
        OS.flush();
        return abbreviate(S);
    }
    std::string fname(const FunctionDecl* F)
    {
        std::string S = qname(F) + "(";
        for (unsigned i = 0; i < F->getNumParams(); ++i) {
            if (i)
                S += ", ";
            S += type(F->getParamDecl(i)->getType());
        }
        S += ")";
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
            if (M->isConst())
                S += " const";
        if (!F->isExternallyVisible() || F->isInAnonymousNamespace())
            if (inRoot(F->getLocation()))
                S += "@" + file(F->getLocation()).substr(Root.size());
        return S;
    }
    int id(const Decl* D)
    {
        auto It = LocalIds.find(D->getCanonicalDecl());
        if (It != LocalIds.end())
            return It->second;
        return LocalIds[D->getCanonicalDecl()] = ++NextId;
    }
    std::string gname(const VarDecl* V)
    {
        std::string S = qname(V);
        if (V->isStaticLocal()) {
            if (auto* F = dyn_cast<FunctionDecl>(V->getDeclContext()))
                S = fname(F) + "::" + V->getNameAsString();
        } else if ((V->isInAnonymousNamespace() || !V->isExternallyVisible()) && inRoot(V->getLocation()))
            S += "@" + file(V->getLocation()).substr(Root.size());
        return S;
    }

    bool constVal(const VarDecl* V, std::string& Out)
    {
        auto T = V->getType();
        if (T.isNull() || T->isDependentType() || !T->isArithmeticType() || !T.isConstQualified())
            return false;
        const VarDecl* D = nullptr;
        const Expr* I = V->getAnyInitializer(D);
        if (!I || I->isValueDependent() || I->isTypeDependent() || I->containsErrors())
            return false;
        Expr::EvalResult R;
        if (!I->EvaluateAsRValue(R, Ctx) || R.HasSideEffects)
            return false;
        if (R.Val.isFloat()) {
            char b[64];
            snprintf(b, sizeof b, "%.17g", R.Val.getFloat().convertToDouble());
            Out = b;
            return true;
        }
        if (R.Val.isInt()) {
            llvm::SmallString<32> B;
            R.Val.getInt().toString(B, 10);
            Out = B.str().str();
            return true;
        }
        return false;
    }

    Array stmts(llvm::iterator_range<ConstStmtIterator> R)
    {
        Array A;
        for (auto* C : R)
            A.push_back(stmt(C));
        return A;
    }

    Object varDecl(const VarDecl* V)
    {
        Object O { { "k", "Var" }, { "n", V->getNameAsString() }, { "id", id(V) }, { "t", type(V->getType()) },
            { "line", line(V->getLocation()) } };
        if (V->isStaticLocal()) {
            O["static"] = true;
            O["g"] = gname(V);
        }
        if (V->getType().isConstQualified())
            O["const"] = true;
        if (V->getInit() && !isa<ParmVarDecl>(V))
            O["init"] = stmt(V->getInit());
        return O;
    }

    static const Stmt* strip(const Stmt* S)
    {
        while (S) {
            if (auto* E = dyn_cast<ExprWithCleanups>(S))
                S = E->getSubExpr();
            else if (auto* E = dyn_cast<MaterializeTemporaryExpr>(S))
                S = E->getSubExpr();
            else if (auto* E = dyn_cast<CXXBindTemporaryExpr>(S))
                S = E->getSubExpr();
            else if (auto* E = dyn_cast<ParenExpr>(S))
                S = E->getSubExpr();
            else if (auto* E = dyn_cast<SubstNonTypeTemplateParmExpr>(S))
                S = E->getReplacement();
            else if (auto* E = dyn_cast<ConstantExpr>(S))
                S = E->getSubExpr();
            else if (auto* E = dyn_cast<FullExpr>(S))
                S = E->getSubExpr();
            else if (auto* E = dyn_cast<CXXDefaultInitExpr>(S)) {
                if (E->getExpr())
                    S = E->getExpr();
                else
                    return S;
            } else if (auto* E = dyn_cast<CXXDefaultArgExpr>(S))
                S = E->getExpr();
            else if (auto* E = dyn_cast<CXXRewrittenBinaryOperator>(S))
                S = E->getSemanticForm();
            else if (auto* E = dyn_cast<OpaqueValueExpr>(S)) {
                if (E->getSourceExpr())
                    S = E->getSourceExpr();
                else
                    return S;
            } else
                break;
        }
        return S;
    }

    Value callee(const FunctionDecl* F)
    {
        Object O { { "fn", fname(F) }, { "name", F->getNameAsString() } };
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            O["cls"] = qname(M->getParent());
            if (M->isVirtual())
                O["virtual"] = true;
            if (M->isStatic())
                O["smethod"] = true;
            if (M->isConst())
                O["const"] = true;
        } else {
            std::string Q = F->getQualifiedNameAsString();
            O["qn"] = Q;
        }
        if (inRoot(F->getLocation()))
            O["repo"] = true;
        Array R;
        bool any = false;
        for (auto* P : F->parameters()) {
            auto T = P->getType();
            bool mut = (T->isReferenceType() && !T->getPointeeType().isConstQualified())
                || (T->isPointerType() && !T->getPointeeType().isConstQualified());
            R.push_back(mut ? 1 : 0);
            any |= mut;
        }
        if (any)
            O["mut"] = std::move(R);
        if (F->isNoReturn())
            O["noreturn"] = true;
        return O;
    }

    Value stmt(const Stmt* S)
    {
        S = strip(S);
        if (!S)
            return nullptr;
        Object O;
        O["l"] = line(S->getBeginLoc());
        auto* E = dyn_cast<Expr>(S);
        if (E)
            O["t"] = type(E->getType());

        if (auto* X = dyn_cast<IntegerLiteral>(S)) {
            O["k"] = "Int";
            llvm::SmallString<32> B;
            X->getValue().toString(B, 10, X->getType()->isSignedIntegerType());
            O["v"] = B.str().str();
            return O;
        }
        if (auto* X = dyn_cast<FloatingLiteral>(S)) {
            O["k"] = "Float";
            char b[64];
            snprintf(b, sizeof b, "%.17g", X->getValue().convertToDouble());
            O["v"] = std::string(b);
            return O;
        }
        if (auto* X = dyn_cast<CXXBoolLiteralExpr>(S)) {
            O["k"] = "Bool";
            O["v"] = X->getValue();
            return O;
        }
        if (auto* X = dyn_cast<StringLiteral>(S)) {
            O["k"] = "Str";
            if (X->getCharByteWidth() == 1) {
                std::string V = X->getString().str();
                if (!llvm::json::isUTF8(V))
                    V = llvm::json::fixUTF8(V);
                O["v"] = V;
            }
            return O;
        }
        if (auto* X = dyn_cast<CharacterLiteral>(S)) {
            O["k"] = "Int";
            O["v"] = std::to_string(X->getValue());
            return O;
        }
        if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) {
            O["k"] = "Null";
            return O;
        }
        if (isa<CXXThisExpr>(S)) {
            O["k"] = "This";
            return O;
        }
        if (auto* X = dyn_cast<DeclRefExpr>(S)) {
            auto* D = X->getDecl();
            O["k"] = "Ref";
            O["n"] = D->getNameAsString();
            if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
                O["dk"] = "enum";
                O["q"] = qname(EC);
                llvm::SmallString<32> B;
                EC->getInitVal().toString(B, 10);
                O["v"] = B.str().str();
            } else if (auto* F = dyn_cast<FunctionDecl>(D)) {
                O["dk"] = "func";
                O["callee"] = callee(F);
            } else if (auto* V = dyn_cast<VarDecl>(D)) {
                if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) {
                    O["dk"] = isa<ParmVarDecl>(V) ? "parm" : "var";
                    O["id"] = id(V);
                } else {
                    O["dk"] = "global";
                    O["q"] = gname(V);
                    if (V->isStaticLocal())
                        O["id"] = id(V);
                    if (V->getType().isConstQualified())
                        O["const"] = true;
                    std::string CV;
                    if (constVal(V, CV))
                        O["cv"] = CV;
                }
            } else if (auto* B = dyn_cast<BindingDecl>(D)) {
                O["dk"] = "binding";
                O["id"] = id(B);
            } else
                O["dk"] = "other";
            return O;
        }
        if (auto* X = dyn_cast<MemberExpr>(S)) {
            auto* D = X->getMemberDecl();
            O["n"] = D->getNameAsString();
            if (auto* F = dyn_cast<FunctionDecl>(D)) {
                O["k"] = "MethodRef";
                O["callee"] = callee(F);
            } else if (auto* V = dyn_cast<VarDecl>(D)) {
                O["k"] = "Ref";
                O["dk"] = "global";
                O["q"] = gname(V);
                return O;
            } else {
                O["k"] = "Member";
                O["q"] = qname(D);
            }
            if (X->isArrow())
                O["arrow"] = true;
            O["c"] = Array { stmt(X->getBase()) };
            return O;
        }
        if (auto* X = dyn_cast<CompoundAssignOperator>(S)) {
            O["k"] = "Assign";
            O["op"] = X->getOpcodeStr().str();
            O["c"] = Array { stmt(X->getLHS()), stmt(X->getRHS()) };
            return O;
        }
        if (auto* X = dyn_cast<BinaryOperator>(S)) {
            O["k"] = X->isAssignmentOp() ? "Assign" : "Bin";
            O["op"] = X->getOpcodeStr().str();
            O["c"] = Array { stmt(X->getLHS()), stmt(X->getRHS()) };
            return O;
        }
        if (auto* X = dyn_cast<UnaryOperator>(S)) {
            O["k"] = "Un";
            O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            if (X->isPostfix())
                O["post"] = true;
            O["c"] = Array { stmt(X->getSubExpr()) };
            return O;
        }
        if (auto* X = dyn_cast<BinaryConditionalOperator>(S)) {
            O["k"] = "Cond";
            O["c"] = Array { stmt(X->getCond()), stmt(X->getTrueExpr()), stmt(X->getFalseExpr()) };
            return O;
        }
        if (auto* X = dyn_cast<ConditionalOperator>(S)) {
            O["k"] = "Cond";
            O["c"] = Array { stmt(X->getCond()), stmt(X->getTrueExpr()), stmt(X->getFalseExpr()) };
            return O;
        }
        if (auto* X = dyn_cast<LambdaExpr>(S)) {
            O["k"] = "Lambda";
            Array P;
            for (auto* V : X->getCallOperator()->parameters())
                P.push_back(varDecl(V));
            O["params"] = std::move(P);
            Array Cs;
            unsigned ci = 0;
            auto II = X->capture_init_begin();
            for (auto& C : X->captures()) {
                Object CO;
                if (C.capturesThis())
                    CO["this"] = true;
                else if (C.capturesVariable()) {
                    auto* V = C.getCapturedVar();
                    CO["id"] = id(V);
                    CO["n"] = V->getNameAsString();
                    CO["ref"] = C.getCaptureKind() == LCK_ByRef;
                    if (auto* VD = dyn_cast<VarDecl>(V))
                        if (VD->isInitCapture() && VD->getInit())
                            CO["init"] = stmt(VD->getInit());
                }
                Cs.push_back(std::move(CO));
                ++ci;
                ++II;
            }
            O["caps"] = std::move(Cs);
            // for generic lambdas the body is the template pattern
            O["body"] = stmt(X->getBody());
            if (X->isMutable())
                O["mutable"] = true;
            return O;
        }
        if (auto* X = dyn_cast<CXXMemberCallExpr>(S)) {
            O["k"] = "MCall";
            auto* Cal = strip(X->getCallee());
            const Expr* Base = X->getImplicitObjectArgument();
            if (auto* M = X->getMethodDecl()) {
                O["callee"] = callee(M);
                if (auto* ME = dyn_cast<MemberExpr>(Cal)) {
                    if (ME->isArrow())
                        O["arrow"] = true;
                    if (ME->hasQualifier())
                        O["qual"] = true;
                }
                O["obj"] = stmt(Base);
            } else {
                O["k"] = "PMCall"; // pointer to member
                O["obj"] = stmt(Cal);
            }
            Array A;
            for (auto* Arg : X->arguments())
                A.push_back(stmt(Arg));
            O["c"] = std::move(A);
            return O;
        }
        if (auto* X = dyn_cast<CXXOperatorCallExpr>(S)) {
            O["k"] = "OpCall";
            O["op"] = getOperatorSpelling(X->getOperator());
            if (auto* F = X->getDirectCallee())
                O["callee"] = callee(F);
            Array A;
            for (auto* Arg : X->arguments())
                A.push_back(stmt(Arg));
            O["c"] = std::move(A);
            return O;
        }
        if (auto* X = dyn_cast<CallExpr>(S)) {
            O["k"] = "Call";
            if (auto* F = X->getDirectCallee())
                O["callee"] = callee(F);
            else
                O["fnexpr"] = stmt(X->getCallee());
            Array A;
            for (auto* Arg : X->arguments())
                A.push_back(stmt(Arg));
            O["c"] = std::move(A);
            return O;
        }
        if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(S)) {
            O["k"] = "Construct";
            O["callee"] = callee(X->getConstructor());
            O["inherited"] = true;
            O["c"] = Array {};
            return O;
        }
        if (auto* X = dyn_cast<CXXConstructExpr>(S)) {
            O["k"] = "Construct";
            auto* K = X->getConstructor();
            O["callee"] = callee(K);
            if (K->isCopyConstructor())
                O["copy"] = true;
            if (K->isMoveConstructor())
                O["move"] = true;
            if (X->isListInitialization())
                O["list"] = true;
            if (X->isStdInitListInitialization())
                O["il"] = true;
            if (K->isImplicit())
                O["implicit"] = true;
            if (X->requiresZeroInitialization())
                O["zero"] = true;
            Array A;
            for (auto* Arg : X->arguments())
                A.push_back(stmt(Arg));
            O["c"] = std::move(A);
            return O;
        }
        if (auto* X = dyn_cast<CXXNewExpr>(S)) {
            O["k"] = "New";
            O["ty"] = type(X->getAllocatedType());
            if (X->isArray()) {
                O["array"] = true;
                if (X->getArraySize() && *X->getArraySize())
                    O["size"] = stmt(*X->getArraySize());
            }
            Array A;
            if (X->getInitializer())
                A.push_back(stmt(X->getInitializer()));
            O["c"] = std::move(A);
            return O;
        }
        if (auto* X = dyn_cast<CXXDeleteExpr>(S)) {
            O["k"] = "Delete";
            if (X->isArrayForm())
                O["array"] = true;
            O["c"] = Array { stmt(X->getArgument()) };
            return O;
        }
        if (auto* X = dyn_cast<CXXThrowExpr>(S)) {
            O["k"] = "Throw";
            O["c"] = X->getSubExpr() ? Array { stmt(X->getSubExpr()) } : Array {};
            return O;
        }
        if (auto* X = dyn_cast<CXXTypeidExpr>(S)) {
            O["k"] = "Typeid";
            if (X->isTypeOperand())
                O["ty"] = type(X->getTypeOperand(Ctx));
            else
                O["c"] = Array { stmt(X->getExprOperand()) };
            return O;
        }
        if (auto* X = dyn_cast<ArraySubscriptExpr>(S)) {
            O["k"] = "Subscript";
            O["c"] = Array { stmt(X->getBase()), stmt(X->getIdx()) };
            return O;
        }
        if (auto* X = dyn_cast<InitListExpr>(S)) {
            O["k"] = "InitList";
            if (!X->isSemanticForm() && X->getSemanticForm())
                X = X->getSemanticForm();
            Array A;
            for (unsigned i = 0; i < X->getNumInits(); ++i)
                A.push_back(stmt(X->getInit(i)));
            O["c"] = std::move(A);
            return O;
        }
        if (auto* X = dyn_cast<CXXStdInitializerListExpr>(S)) {
            O["k"] = "InitList";
            O["std"] = true;
            auto* Sub = strip(X->getSubExpr());
            if (auto* IL = dyn_cast<InitListExpr>(Sub)) {
                Array A;
                for (unsigned i = 0; i < IL->getNumInits(); ++i)
                    A.push_back(stmt(IL->getInit(i)));
                O["c"] = std::move(A);
            } else
                O["c"] = Array { stmt(Sub) };
            return O;
        }
        if (auto* X = dyn_cast<CastExpr>(S)) {
            auto CK = X->getCastKind();
            bool Explicit = isa<ExplicitCastExpr>(S);
            bool Keep = Explicit
                || CK == CK_FloatingToIntegral || CK == CK_IntegralToFloating || CK == CK_FloatingToBoolean
                || CK == CK_IntegralToBoolean || CK == CK_PointerToBoolean || CK == CK_FloatingCast;
            if (CK == CK_IntegralCast)
                Keep = true;
            if (CK == CK_ConstructorConversion || CK == CK_UserDefinedConversion)
                Keep = false;
            if (!Keep)
                return stmt(X->getSubExpr());
            O["k"] = "Cast";
            O["ck"] = std::string(X->getCastKindName());
            if (Explicit)
                O["ex"] = true;
            if (isa<CXXDynamicCastExpr>(S))
                O["dyn"] = true;
            O["c"] = Array { stmt(X->getSubExpr()) };
            return O;
        }
        if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
            O["k"] = "SizeOf";
            if (X->isArgumentType())
                O["ty"] = type(X->getArgumentType());
            else
                O["ty"] = type(X->getArgumentExpr()->getType());
            return O;
        }
        if (isa<CXXScalarValueInitExpr>(S) || isa<ImplicitValueInitExpr>(S)) {
            O["k"] = "ZeroInit";
            return O;
        }
        // ---- statements
        if (auto* X = dyn_cast<CompoundStmt>(S)) {
            O["k"] = "Block";
            O["c"] = stmts({ X->body_begin(), X->body_end() });
            return O;
        }
        if (auto* X = dyn_cast<DeclStmt>(S)) {
            O["k"] = "Decl";
            Array A;
            for (auto* D : X->decls()) {
                if (auto* DD = dyn_cast<DecompositionDecl>(D)) {
                    auto V = varDecl(DD);
                    Array Bs;
                    for (auto* B : DD->bindings())
                        Bs.push_back(Object { { "n", B->getNameAsString() }, { "id", id(B) } });
                    V["bindings"] = std::move(Bs);
                    A.push_back(std::move(V));
                } else if (auto* V = dyn_cast<VarDecl>(D))
                    A.push_back(varDecl(V));
            }
            O["c"] = std::move(A);
            return O;
        }
        if (auto* X = dyn_cast<IfStmt>(S)) {
            O["k"] = "If";
            if (X->getInit())
                O["init"] = stmt(X->getInit());
            if (auto* V = X->getConditionVariable())
                O["var"] = varDecl(V);
            O["c"] = Array { stmt(X->getCond()), stmt(X->getThen()), stmt(X->getElse()) };
            return O;
        }
        if (auto* X = dyn_cast<ForStmt>(S)) {
            O["k"] = "For";
            O["c"] = Array { stmt(X->getInit()), stmt(X->getCond()), stmt(X->getInc()), stmt(X->getBody()) };
            return O;
        }
        if (auto* X = dyn_cast<WhileStmt>(S)) {
            O["k"] = "While";
            if (auto* V = X->getConditionVariable())
                O["var"] = varDecl(V);
            O["c"] = Array { stmt(X->getCond()), stmt(X->getBody()) };
            return O;
        }
        if (auto* X = dyn_cast<DoStmt>(S)) {
            O["k"] = "Do";
            O["c"] = Array { stmt(X->getBody()), stmt(X->getCond()) };
            return O;
        }
        if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
            O["k"] = "RangeFor";
            auto* LV = X->getLoopVariable();
            Object VO;
            if (LV) {
                VO = Object { { "k", "Var" }, { "n", LV->getNameAsString() }, { "id", id(LV) }, { "t", type(LV->getType()) } };
                if (auto* DD = dyn_cast<DecompositionDecl>(LV)) {
                    Array Bs;
                    for (auto* B : DD->bindings())
                        Bs.push_back(Object { { "n", B->getNameAsString() }, { "id", id(B) } });
                    VO["bindings"] = std::move(Bs);
                }
            }
            O["var"] = std::move(VO);
            O["c"] = Array { stmt(X->getRangeInit()), stmt(X->getBody()) };
            return O;
        }
        if (auto* X = dyn_cast<ReturnStmt>(S)) {
            O["k"] = "Return";
            O["c"] = X->getRetValue() ? Array { stmt(X->getRetValue()) } : Array {};
            return O;
        }
        if (isa<BreakStmt>(S)) {
            O["k"] = "Break";
            return O;
        }
        if (isa<ContinueStmt>(S)) {
            O["k"] = "Continue";
            return O;
        }
        if (isa<NullStmt>(S)) {
            O["k"] = "Nop";
            return O;
        }
        if (auto* X = dyn_cast<SwitchStmt>(S)) {
            O["k"] = "Switch";
            O["c"] = Array { stmt(X->getCond()), stmt(X->getBody()) };
            return O;
        }
        if (auto* X = dyn_cast<CaseStmt>(S)) {
            O["k"] = "Case";
            O["c"] = Array { stmt(X->getLHS()), stmt(X->getSubStmt()) };
            return O;
        }
        if (auto* X = dyn_cast<DefaultStmt>(S)) {
            O["k"] = "Default";
            O["c"] = Array { stmt(X->getSubStmt()) };
            return O;
        }
        if (auto* X = dyn_cast<CXXTryStmt>(S)) {
            O["k"] = "Try";
            Array H;
            for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
                auto* C = X->getHandler(i);
                Object HO { { "k", "Catch" } };
                if (C->getExceptionDecl())
                    HO["var"] = varDecl(C->getExceptionDecl());
                HO["body"] = stmt(C->getHandlerBlock());
                H.push_back(std::move(HO));
            }
            O["handlers"] = std::move(H);
            O["c"] = Array { stmt(X->getTryBlock()) };
            return O;
        }
        if (auto* X = dyn_cast<CXXUnresolvedConstructExpr>(S)) {
            O["k"] = "Construct";
            O["unresolved"] = true;
            O["t"] = type(X->getTypeAsWritten());
            Array A;
            for (auto* C : X->children())
                A.push_back(stmt(C));
            O["c"] = std::move(A);
            return O;
        }
        if (auto* X = dyn_cast<CXXDependentScopeMemberExpr>(S)) {
            O["k"] = "UMember";
            O["n"] = X->getMember().getAsString();
            if (!X->isImplicitAccess())
                O["c"] = Array { stmt(X->getBase()) };
            return O;
        }
        if (auto* X = dyn_cast<UnresolvedLookupExpr>(S)) {
            O["k"] = "ULookup";
            O["n"] = X->getName().getAsString();
            return O;
        }
        if (auto* X = dyn_cast<UnresolvedMemberExpr>(S)) {
            O["k"] = "UMember";
            O["n"] = X->getMemberName().getAsString();
            if (!X->isImplicitAccess())
                O["c"] = Array { stmt(X->getBase()) };
            return O;
        }
        O["k"] = std::string(S->getStmtClassName());
        Array A;
        for (auto* C : S->children())
            A.push_back(stmt(C));
        O["c"] = std::move(A);
        return O;
    }

    void function(const FunctionDecl* F)
    {
        if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted())
            return;
        if (F->isDeleted())
            return;
        if (!inRoot(F->getLocation()))
            return;
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda())
                return;
        std::string N = fname(F);
        bool Dep = F->isDependentContext();
        if (Dep)
            N = "<template>" + N;
        if (Functions.count(N))
            return;
        LocalIds.clear();
        NextId = 0;
        Object O { { "name", F->getNameAsString() }, { "fn", N }, { "file", file(F->getLocation()) },
            { "line", line(F->getLocation()) }, { "ret", type(F->getReturnType()) } };
        if (F->isImplicit())
            O["implicit"] = true;
        if (F->isDefaulted())
            O["defaulted"] = true;
        O["endline"] = line(F->getEndLoc());
        if (auto* FT = F->getType()->getAs<FunctionProtoType>()) {
            auto ES = FT->getExceptionSpecType();
            if (ES == EST_BasicNoexcept || ES == EST_NoexceptTrue || ES == EST_NoThrow || ES == EST_DynamicNone)
                O["noexcept"] = true;
        }
        if (F->isTemplateInstantiation())
            O["inst"] = true;
        if (Dep)
            O["dep"] = true;
        if (F->isTemplateInstantiation())
            if (auto* P = F->getTemplateInstantiationPattern())
                O["pattern"] = "<template>" + fname(P);
        Array P;
        for (auto* V : F->parameters()) {
            auto VO = varDecl(V);
            if (V->hasDefaultArg() && !V->hasUninstantiatedDefaultArg() && !V->hasUnparsedDefaultArg())
                VO["def"] = stmt(V->getDefaultArg());
            P.push_back(std::move(VO));
        }
        O["params"] = std::move(P);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            O["cls"] = qname(M->getParent());
            if (M->isStatic())
                O["static"] = true;
            if (M->isConst())
                O["const"] = true;
            if (M->isVirtual())
                O["virtual"] = true;
            if (M->isCopyAssignmentOperator())
                O["copyassign"] = true;
            if (M->isMoveAssignmentOperator())
                O["moveassign"] = true;
            Array Ov;
            for (auto* B : M->overridden_methods())
                Ov.push_back(fname(B));
            if (!Ov.empty())
                O["overrides"] = std::move(Ov);
        }
        if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
            O["ctor"] = true;
            if (K->isCopyConstructor())
                O["copyctor"] = true;
            if (K->isMoveConstructor())
                O["movector"] = true;
            if (K->isDelegatingConstructor())
                O["delegating"] = true;
            if (K->isDefaultConstructor())
                O["defaultctor"] = true;
            Array I;
            for (auto* C : K->inits()) {
                Object IO;
                if (C->isAnyMemberInitializer()) {
                    IO["m"] = C->getAnyMember()->getNameAsString();
                    IO["q"] = qname(C->getAnyMember());
                } else if (C->isBaseInitializer())
                    IO["base"] = type(QualType(C->getBaseClass(), 0));
                else
                    IO["deleg"] = true;
                IO["written"] = C->isWritten();
                IO["init"] = stmt(C->getInit());
                I.push_back(std::move(IO));
            }
            O["inits"] = std::move(I);
        }
        if (isa<CXXDestructorDecl>(F))
            O["dtor"] = true;
        if (F->getBody())
            O["body"] = stmt(F->getBody());
        Functions[N] = std::move(O);
    }

    void record(const CXXRecordDecl* R)
    {
        if (!R->isThisDeclarationADefinition() || R->isLambda() || !inRoot(R->getLocation()))
            return;
        std::string N = qname(R);
        bool Dep = R->isDependentContext();
        if (Dep)
            N = "<template>" + N;
        if (Records.count(N))
            return;
        LocalIds.clear();
        NextId = 0;
        Object O { { "name", N }, { "file", file(R->getLocation()) }, { "line", line(R->getLocation()) } };
        Array F;
        for (auto* X : R->fields()) {
            Object FO { { "n", X->getNameAsString() }, { "t", type(X->getType()) }, { "line", line(X->getLocation()) } };
            FO["tw"] = X->getType().getAsString();
            if (X->isMutable())
                FO["mutable"] = true;
            auto T = X->getType();
            if (T->isScalarType())
                FO["scalar"] = true;
            if (T->isPointerType())
                FO["ptr"] = true;
            if (X->hasInClassInitializer() && X->getInClassInitializer())
                FO["init"] = stmt(X->getInClassInitializer());
            FO["access"] = (int)X->getAccess();
            F.push_back(std::move(FO));
        }
        O["fields"] = std::move(F);
        Array B;
        for (auto& X : R->bases())
            B.push_back(type(X.getType()));
        O["bases"] = std::move(B);
        if (R->isAbstract())
            O["abstract"] = true;
        if (R->isPolymorphic())
            O["poly"] = true;
        if (Dep)
            O["dep"] = true;
        Array M;
        for (auto* X : R->methods()) {
            Object MO { { "fn", fname(X) }, { "n", X->getNameAsString() }, { "ret", type(X->getReturnType()) } };
            if (X->isVirtual())
                MO["virtual"] = true;
            if (X->isPureVirtual())
                MO["pure"] = true;
            if (X->isConst())
                MO["const"] = true;
            if (X->isStatic())
                MO["static"] = true;
            if (X->isImplicit())
                MO["implicit"] = true;
            if (X->isDefaulted())
                MO["defaulted"] = true;
            if (X->isDeleted())
                MO["deleted"] = true;
            if (X->isCopyAssignmentOperator())
                MO["copyassign"] = true;
            if (X->isMoveAssignmentOperator())
                MO["moveassign"] = true;
            MO["access"] = (int)X->getAccess();
            if (auto* K = dyn_cast<CXXConstructorDecl>(X)) {
                MO["ctor"] = true;
                if (K->isCopyConstructor())
                    MO["copyctor"] = true;
                if (K->isMoveConstructor())
                    MO["movector"] = true;
                if (K->isDefaultConstructor())
                    MO["defaultctor"] = true;
            }
            if (isa<CXXDestructorDecl>(X))
                MO["dtor"] = true;
            Array Ov;
            for (auto* Bm : X->overridden_methods())
                Ov.push_back(fname(Bm));
            if (!Ov.empty())
                MO["overrides"] = std::move(Ov);
            M.push_back(std::move(MO));
        }
        O["methods"] = std::move(M);
        if (!Dep) {
            O["ccopy"] = R->hasSimpleCopyConstructor() || R->hasUserDeclaredCopyConstructor() || R->needsImplicitCopyConstructor();
            O["ucopy"] = R->hasUserDeclaredCopyConstructor();
            O["uassign"] = R->hasUserDeclaredCopyAssignment();
            O["udtor"] = R->hasUserDeclaredDestructor();
        }
        Records[N] = std::move(O);
    }

    void global(const VarDecl* V)
    {
        if (!inRoot(V->getLocation()) || isa<ParmVarDecl>(V))
            return;
        if (!V->hasGlobalStorage())
            return;
        if (V->getDeclContext()->isDependentContext())
            return;
        if (V->getType()->isDependentType())
            return;
        std::string N = gname(V);
        if (Globals.count(N) && Globals[N].get("init"))
            return;
        if (Globals.count(N) && !V->getInit())
            return;
        LocalIds.clear();
        NextId = 0;
        Object O { { "name", N }, { "n", V->getNameAsString() }, { "t", type(V->getType()) }, { "file", file(V->getLocation()) },
            { "line", line(V->getLocation()) }, { "const", V->getType().isConstQualified() } };
        O["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
        if (V->isStaticLocal()) {
            O["static_local"] = true;
            if (auto* F = dyn_cast<FunctionDecl>(V->getDeclContext()))
                O["infn"] = fname(F);
        }
        if (V->getInit())
            O["init"] = stmt(V->getInit());
        std::string CV;
        if (constVal(V, CV))
            O["cv"] = CV;
        Globals[N] = std::move(O);
    }

    void enumd(const EnumDecl* D)
    {
        if (!D->isThisDeclarationADefinition() || !inRoot(D->getLocation()))
            return;
        std::string N = qname(D);
        if (Enums.count(N))
            return;
        Object O { { "name", N }, { "file", file(D->getLocation()) }, { "line", line(D->getLocation()) } };
        Array A;
        for (auto* C : D->enumerators()) {
            llvm::SmallString<32> B;
            C->getInitVal().toString(B, 10);
            A.push_back(Array { C->getNameAsString(), B.str().str(), line(C->getLocation()) });
        }
        O["c"] = std::move(A);
        Enums[N] = std::move(O);
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper D;
    Visitor(ASTContext& C)
        : D(C)
    {
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool TraverseDecl(Decl* X)
    {
        // skip everything not located in the analysed tree, except containers
        if (X && !isa<TranslationUnitDecl>(X) && !isa<NamespaceDecl>(X) && !isa<LinkageSpecDecl>(X)) {
            auto L = X->getLocation();
            if (L.isValid() && !D.inRoot(L) && X->getDeclContext()->isFileContext())
                return true;
        }
        return RecursiveASTVisitor::TraverseDecl(X);
    }
    bool VisitFunctionDecl(FunctionDecl* F)
    {
        D.function(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R)
    {
        D.record(R);
        return true;
    }
    bool VisitVarDecl(VarDecl* V)
    {
        D.global(V);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* E)
    {
        D.enumd(E);
        return true;
    }
};

struct Consumer : ASTConsumer {
    CompilerInstance& CI;
    Consumer(CompilerInstance& C)
        : CI(C)
    {
    }
    void HandleTranslationUnit(ASTContext& Ctx) override
    {
        Visitor V(Ctx);
        V.TraverseDecl(Ctx.getTranslationUnitDecl());
    }
};

struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override
    {
        return std::make_unique<Consumer>(CI);
    }
};

struct Diag : DiagnosticConsumer {
    void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic& Info) override
    {
        DiagnosticConsumer::HandleDiagnostic(L, Info);
        if (L >= DiagnosticsEngine::Error) {
            llvm::SmallString<256> M;
            Info.FormatDiagnostic(M);
            std::string Where;
            if (Info.hasSourceManager()) {
                auto P = Info.getSourceManager().getPresumedLoc(Info.getLocation());
                if (P.isValid())
                    Where = std::string(P.getFilename()) + ":" + std::to_string(P.getLine()) + ": ";
            }
            Errors.push_back(Where + M.str().str());
        }
    }
};
}

int main(int argc, char** argv)
{
    // extract ROOT OUT file... -- flags...
    if (argc < 4)
        return 2;
    Root = argv[1];
    std::string Out = argv[2];
    std::vector<std::string> Files, Flags;
    bool F = false;
    for (int i = 3; i < argc; ++i) {
        std::string A = argv[i];
        if (A == "--")
            F = true;
        else
            (F ? Flags : Files).push_back(A);
    }
    tooling::FixedCompilationDatabase DB(".", Flags);
    tooling::ClangTool Tool(DB, Files);
    Diag DC;
    Tool.setDiagnosticConsumer(&DC);
    int rc = Tool.run(tooling::newFrontendActionFactory<Action>().get());
    std::error_code EC;
    llvm::raw_fd_ostream OS(Out, EC);
    Object Top;
    auto pack = [](std::map<std::string, Object>& M) {
        Array A;
        for (auto& P : M)
            A.push_back(std::move(P.second));
        return A;
    };
    Top["functions"] = pack(Functions);
    Top["records"] = pack(Records);
    Top["enums"] = pack(Enums);
    Top["globals"] = pack(Globals);
    Array Es;
    for (auto& E : Errors)
        Es.push_back(E);
    Top["errors"] = std::move(Es);
    Top["rc"] = rc;
    OS << Value(std::move(Top));
    return 0;
}
