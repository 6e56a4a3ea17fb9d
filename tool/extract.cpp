// Extractor: lowers every function of the repository's own sources (type-checked by
// clang, templates instantiated, callees resolved) to a compact JSON syntax tree.
//   extract OUT.json ROOT FILE -- flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::string gRoot, gOut, gMain;

namespace {
class Emitter {
public:
    ASTContext& C;
    const SourceManager& SM;
    PrintingPolicy PP;
    ASTNameGenerator NG;
    std::map<const Decl*, int> ids;
    std::vector<const FunctionDecl*> lambdaQueue;
    std::string mainFile;
    Emitter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), NG(c)
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = false;
    }
    int id(const Decl* D)
    {
        D = D->getCanonicalDecl();
        auto it = ids.find(D);
        if (it != ids.end())
            return it->second;
        int n = (int)ids.size() + 1;
        ids[D] = n;
        return n;
    }
    std::string ty(QualType T)
    {
        if (T.isNull())
            return "";
        return T.getCanonicalType().getAsString(PP);
    }
    // class name of a type with references/pointers/cv removed
    std::string cls(QualType T)
    {
        if (T.isNull())
            return "";
        T = T.getNonReferenceType();
        if (T->isPointerType())
            T = T->getPointeeType();
        return T.getUnqualifiedType().getCanonicalType().getUnqualifiedType().getAsString(PP);
    }
    std::string fileOf(SourceLocation L)
    {
        L = SM.getFileLoc(L);
        auto P = SM.getPresumedLoc(L);
        return P.isValid() ? P.getFilename() : "";
    }
    unsigned lineOf(SourceLocation L)
    {
        L = SM.getFileLoc(L);
        auto P = SM.getPresumedLoc(L);
        return P.isValid() ? P.getLine() : 0;
    }
    bool inRoot(SourceLocation L)
    {
        std::string f = fileOf(L);
        return f.compare(0, gRoot.size(), gRoot) == 0 || f == gMain;
    }
    std::string qn(const NamedDecl* D)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }
    std::string fid(const FunctionDecl* F)
    {
        std::string n = NG.getName(F);
        if (n.empty())
            n = qn(F);
        if (F->getFormalLinkage() == Linkage::Internal || !F->isExternallyVisible())
            n = mainFile + "#" + n;
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda())
                n += "#" + std::to_string(id(M->getParent()));
        return n;
    }
    void num(json::Object& o, QualType T)
    {
        if (T.isNull())
            return;
        T = T.getNonReferenceType();
        if (T->isIntegralOrEnumerationType()) {
            o["w"] = (int64_t)C.getIntWidth(T);
            o["s"] = T->isSignedIntegerOrEnumerationType();
        }
    }
    json::Object node(const char* k, const Expr* E)
    {
        json::Object o;
        o["k"] = k;
        o["t"] = ty(E->getType());
        if (E->isGLValue())
            o["lv"] = true;
        o["l"] = (int64_t)lineOf(E->getExprLoc());
        return o;
    }
    json::Array args(llvm::ArrayRef<const Expr*> A)
    {
        json::Array r;
        for (auto* a : A)
            r.push_back(E(a));
        return r;
    }
    template <class R> json::Array argsR(R&& rng)
    {
        json::Array r;
        for (const Expr* a : rng)
            r.push_back(E(a));
        return r;
    }
    void callee(json::Object& o, const FunctionDecl* F)
    {
        o["fn"] = fid(F);
        o["n"] = qn(F);
        o["sn"] = F->getNameAsString();
        json::Array pt;
        for (auto* p : F->parameters())
            pt.push_back(ty(p->getType()));
        o["pt"] = std::move(pt);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = cls(C.getRecordType(M->getParent()));
            if (M->isStatic())
                o["static"] = true;
            if (M->isVirtual())
                o["virt"] = true;
            if (M->isConst())
                o["const"] = true;
        }
        if (F->isVariadic())
            o["variadic"] = true;
        if (F->isDefaulted())
            o["dflt"] = true;
        if (auto* FP = F->getType()->getAs<FunctionProtoType>())
            if (FP->isNothrow())
                o["noexcept"] = true;
        if (auto* TA = F->getTemplateSpecializationArgs()) {
            json::Array ta;
            for (auto& A : TA->asArray())
                if (A.getKind() == TemplateArgument::Type)
                    ta.push_back(ty(A.getAsType()));
            o["ta"] = std::move(ta);
        }
        if (inRoot(F->getLocation()))
            o["repo"] = true;
    }
    json::Value E(const Expr* X)
    {
        if (!X)
            return nullptr;
        // transparent wrappers
        if (auto* P = dyn_cast<ParenExpr>(X)) return E(P->getSubExpr());
        if (auto* P = dyn_cast<ExprWithCleanups>(X)) {
            json::Object o = node("full", X);
            o["e"] = E(P->getSubExpr());
            return o;
        }
        if (auto* P = dyn_cast<ConstantExpr>(X)) return E(P->getSubExpr());
        if (auto* P = dyn_cast<CXXBindTemporaryExpr>(X)) return E(P->getSubExpr());
        if (auto* P = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) return E(P->getReplacement());
        if (auto* P = dyn_cast<CXXDefaultArgExpr>(X)) return E(P->getExpr());
        if (auto* P = dyn_cast<CXXDefaultInitExpr>(X)) return E(P->getExpr());
        if (auto* P = dyn_cast<CXXStdInitializerListExpr>(X)) return E(P->getSubExpr());
        if (auto* P = dyn_cast<CXXRewrittenBinaryOperator>(X)) return E(P->getSemanticForm());
        if (auto* P = dyn_cast<ChooseExpr>(X)) return E(P->getChosenSubExpr());
        if (auto* P = dyn_cast<MaterializeTemporaryExpr>(X)) {
            json::Object o = node("tmp", X);
            o["e"] = E(P->getSubExpr());
            o["c"] = cls(X->getType());
            return o;
        }
        // constant folding of integers
        if (!X->isValueDependent() && !X->isGLValue() && X->getType()->isIntegralOrEnumerationType()) {
            Expr::EvalResult R;
            if (!X->HasSideEffects(C) && X->EvaluateAsInt(R, C)) {
                json::Object o = node("int", X);
                llvm::APSInt v = R.Val.getInt();
                if (v.isSigned() || v.getActiveBits() < 64)
                    o["v"] = v.getExtValue();
                else
                    o["v"] = llvm::toString(v, 10);
                num(o, X->getType());
                if (X->getType()->isBooleanType()) o["b"] = true;
                return o;
            }
        }
        if (auto* P = dyn_cast<ImplicitCastExpr>(X)) {
            switch (P->getCastKind()) {
            case CK_LValueToRValue: {
                json::Object o = node("load", X);
                num(o, X->getType());
                o["e"] = E(P->getSubExpr());
                return o;
            }
            case CK_NoOp: case CK_FunctionToPointerDecay: case CK_UserDefinedConversion:
            case CK_ConstructorConversion: case CK_BuiltinFnToFnPtr:
                return E(P->getSubExpr());
            default: break;
            }
        }
        if (auto* P = dyn_cast<CastExpr>(X)) {
            auto K = P->getCastKind();
            if (K == CK_NoOp || K == CK_UserDefinedConversion || K == CK_ConstructorConversion)
                return E(P->getSubExpr());
            if (K == CK_LValueToRValue) {
                json::Object o = node("load", X);
                num(o, X->getType());
                o["e"] = E(P->getSubExpr());
                return o;
            }
            json::Object o = node("cast", X);
            o["ck"] = P->getCastKindName();
            o["e"] = E(P->getSubExpr());
            o["ft"] = ty(P->getSubExpr()->getType());
            num(o, X->getType());
            return o;
        }
        if (auto* P = dyn_cast<FloatingLiteral>(X)) {
            json::Object o = node("flt", X);
            o["v"] = P->getValueAsApproximateDouble();
            return o;
        }
        if (auto* P = dyn_cast<StringLiteral>(X)) {
            json::Object o = node("str", X);
            std::string s = P->getCharByteWidth() == 1 ? P->getString().str() : "";
            json::Array b;
            for (unsigned char ch : s)
                b.push_back((int64_t)ch);
            o["v"] = std::move(b);
            return o;
        }
        if (auto* P = dyn_cast<PredefinedExpr>(X)) {
            json::Object o = node("str", X);
            json::Array b;
            if (P->getFunctionName())
                for (unsigned char ch : P->getFunctionName()->getString())
                    b.push_back((int64_t)ch);
            o["v"] = std::move(b);
            return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) return node("null", X);
        if (auto* P = dyn_cast<DeclRefExpr>(X)) {
            const ValueDecl* D = P->getDecl();
            json::Object o = node("ref", X);
            if (auto* B = dyn_cast<BindingDecl>(D)) {
                o["k"] = "bind";
                o["of"] = id(B->getDecomposedDecl());
                auto* DD = cast<DecompositionDecl>(B->getDecomposedDecl());
                int i = 0;
                for (auto* b : DD->bindings()) {
                    if (b == B) o["i"] = i;
                    ++i;
                }
                if (auto* ME = dyn_cast_or_null<MemberExpr>(B->getBinding() ? B->getBinding()->IgnoreImplicit() : nullptr))
                    o["f"] = ME->getMemberDecl()->getNameAsString();
                return o;
            }
            o["id"] = id(D);
            o["n"] = D->getNameAsString();
            o["c"] = cls(D->getType());
            if (auto* F = dyn_cast<FunctionDecl>(D)) {
                o["dk"] = "fn";
                callee(o, F);
            } else if (auto* V = dyn_cast<VarDecl>(D)) {
                if (V->getType()->isReferenceType()) o["isref"] = true;
                if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) {
                    o["dk"] = isa<ParmVarDecl>(V) ? "parm" : "local";
                } else {
                    o["dk"] = V->isStaticLocal() ? "slocal" : "global";
                    std::string q = qn(V);
                    if (V->isStaticLocal() || !V->isExternallyVisible()) q = mainFile + "#" + q + (V->isStaticLocal() ? "#" + std::to_string(id(V)) : "");
                    o["q"] = q;
                    o["const"] = V->getType().isConstQualified();
                }
            } else if (isa<EnumConstantDecl>(D)) {
                o["dk"] = "enum";
                o["v"] = cast<EnumConstantDecl>(D)->getInitVal().getExtValue();
            } else if (isa<FieldDecl>(D)) {
                o["dk"] = "field";
                o["q"] = qn(D);
            } else
                o["dk"] = "other";
            return o;
        }
        if (auto* P = dyn_cast<MemberExpr>(X)) {
            const ValueDecl* D = P->getMemberDecl();
            if (auto* F = dyn_cast<FieldDecl>(D)) {
                json::Object o = node("mem", X);
                o["b"] = E(P->getBase());
                o["arrow"] = P->isArrow();
                o["f"] = F->getNameAsString();
                o["fc"] = cls(C.getRecordType(F->getParent()));
                o["c"] = cls(F->getType());
                if (F->getType()->isReferenceType()) o["isref"] = true;
                return o;
            }
            if (auto* V = dyn_cast<VarDecl>(D)) { // static member
                json::Object o = node("ref", X);
                o["id"] = id(V);
                o["n"] = V->getNameAsString();
                o["dk"] = "global";
                o["q"] = qn(V);
                o["c"] = cls(V->getType());
                return o;
            }
            json::Object o = node("memfn", X);
            o["b"] = E(P->getBase());
            o["n"] = qn(D);
            return o;
        }
        if (isa<CXXThisExpr>(X)) {
            auto o = node("this", X);
            o["c"] = cls(X->getType());
            return o;
        }
        if (auto* P = dyn_cast<CXXOperatorCallExpr>(X)) {
            json::Object o = node("opcall", X);
            o["op"] = getOperatorSpelling(P->getOperator());
            if (auto* F = P->getDirectCallee()) {
                callee(o, F);
                o["member"] = isa<CXXMethodDecl>(F);
            }
            o["a"] = argsR(P->arguments());
            json::Array ac;
            for (auto* a : P->arguments()) ac.push_back(cls(a->getType()));
            o["ac"] = std::move(ac);
            num(o, X->getType());
            return o;
        }
        if (auto* P = dyn_cast<CXXMemberCallExpr>(X)) {
            json::Object o = node("mcall", X);
            auto* M = P->getMethodDecl();
            auto* ME = dyn_cast<MemberExpr>(P->getCallee()->IgnoreParenImpCasts());
            if (M && ME) {
                callee(o, M);
                o["o"] = E(ME->getBase());
                o["arrow"] = ME->isArrow();
                o["oc"] = cls(ME->getBase()->getType());
            } else {
                o["k"] = "icall";
                o["f"] = E(P->getCallee());
            }
            o["a"] = argsR(P->arguments());
            json::Array ac;
            for (auto* a : P->arguments()) ac.push_back(ty(a->getType()));
            o["ac"] = std::move(ac);
            num(o, X->getType());
            return o;
        }
        if (auto* P = dyn_cast<CallExpr>(X)) {
            json::Object o = node("call", X);
            if (auto* F = P->getDirectCallee())
                callee(o, F);
            else {
                o["k"] = "icall";
                o["f"] = E(P->getCallee());
            }
            o["a"] = argsR(P->arguments());
            json::Array ac;
            for (auto* a : P->arguments()) ac.push_back(ty(a->getType()));
            o["ac"] = std::move(ac);
            num(o, X->getType());
            return o;
        }
        if (auto* P = dyn_cast<CXXConstructExpr>(X)) {
            json::Object o = node("ctor", X);
            auto* D = P->getConstructor();
            callee(o, D);
            o["c"] = cls(X->getType());
            if (D->isCopyConstructor()) o["copy"] = true;
            if (D->isMoveConstructor()) o["move"] = true;
            if (D->isDefaultConstructor()) o["dctor"] = true;
            o["triv"] = D->isTrivial();
            if (P->requiresZeroInitialization()) o["zero"] = true;
            if (P->isListInitialization()) o["list"] = true;
            o["a"] = argsR(P->arguments());
            if (X->getType()->isArrayType()) o["arr"] = true;
            return o;
        }
        if (auto* P = dyn_cast<CXXInheritedCtorInitExpr>(X)) {
            json::Object o = node("ctor", X);
            callee(o, P->getConstructor());
            o["c"] = cls(X->getType());
            o["a"] = json::Array();
            return o;
        }
        if (auto* P = dyn_cast<UnaryOperator>(X)) {
            json::Object o = node("un", X);
            o["op"] = UnaryOperator::getOpcodeStr(P->getOpcode()).str();
            if (P->isPostfix()) o["post"] = true;
            o["e"] = E(P->getSubExpr());
            num(o, X->getType());
            o["c"] = cls(X->getType());
            if (P->getOpcode() == UO_AddrOf)
                if (auto* DR = dyn_cast<DeclRefExpr>(P->getSubExpr()->IgnoreParens()))
                    if (auto* F = dyn_cast<FunctionDecl>(DR->getDecl())) {
                        o["k"] = "fnaddr";
                        callee(o, F);
                    }
            return o;
        }
        if (auto* P = dyn_cast<CompoundAssignOperator>(X)) {
            json::Object o = node("casg", X);
            o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(P->getOpcode())).str();
            o["a"] = E(P->getLHS());
            o["b"] = E(P->getRHS());
            num(o, P->getComputationResultType());
            json::Object lt;
            num(lt, P->getLHS()->getType());
            o["lt"] = std::move(lt);
            return o;
        }
        if (auto* P = dyn_cast<BinaryOperator>(X)) {
            json::Object o = node(P->isAssignmentOp() ? "asg" : "bin", X);
            o["op"] = P->getOpcodeStr().str();
            o["a"] = E(P->getLHS());
            o["b"] = E(P->getRHS());
            num(o, X->getType());
            json::Object ot;
            num(ot, P->getLHS()->getType());
            o["ot"] = std::move(ot);
            return o;
        }
        if (auto* P = dyn_cast<BinaryConditionalOperator>(X)) {
            json::Object o = node("cond", X);
            o["q"] = E(P->getCommon());
            o["a"] = E(P->getCommon());
            o["b"] = E(P->getFalseExpr());
            return o;
        }
        if (auto* P = dyn_cast<ConditionalOperator>(X)) {
            json::Object o = node("cond", X);
            o["q"] = E(P->getCond());
            o["a"] = E(P->getTrueExpr());
            o["b"] = E(P->getFalseExpr());
            num(o, X->getType());
            return o;
        }
        if (auto* P = dyn_cast<OpaqueValueExpr>(X)) return E(P->getSourceExpr());
        if (auto* P = dyn_cast<ArraySubscriptExpr>(X)) {
            json::Object o = node("idx", X);
            o["b"] = E(P->getBase());
            o["i"] = E(P->getIdx());
            o["c"] = cls(X->getType());
            return o;
        }
        if (auto* P = dyn_cast<InitListExpr>(X)) {
            if (P->isTransparent() && P->getNumInits() == 1) return E(P->getInit(0));
            json::Object o = node("init", X);
            o["c"] = cls(X->getType());
            o["a"] = argsR(llvm::ArrayRef<Expr*>(const_cast<InitListExpr*>(P)->getInits(), P->getNumInits()));
            if (auto* RD = X->getType()->getAsCXXRecordDecl()) {
                json::Array fs;
                for (auto& b : RD->bases()) fs.push_back("base:" + cls(b.getType()));
                for (auto* f : RD->fields()) fs.push_back(f->getNameAsString());
                o["fs"] = std::move(fs);
            }
            if (auto* F = P->getArrayFiller()) o["fill"] = E(F);
            if (auto* CAT = C.getAsConstantArrayType(X->getType())) o["n"] = (int64_t)CAT->getSize().getZExtValue();
            return o;
        }
        if (isa<ImplicitValueInitExpr>(X) || isa<CXXScalarValueInitExpr>(X)) {
            json::Object o = node("zero", X);
            o["c"] = cls(X->getType());
            num(o, X->getType());
            return o;
        }
        if (auto* P = dyn_cast<LambdaExpr>(X)) {
            json::Object o = node("lambda", X);
            auto* RD = P->getLambdaClass();
            o["lid"] = id(RD);
            o["c"] = cls(X->getType());
            o["op"] = fid(P->getCallOperator());
            json::Array caps;
            auto in = P->capture_init_begin();
            for (auto c = P->capture_begin(); c != P->capture_end(); ++c, ++in) {
                json::Object co;
                if (c->capturesThis()) {
                    co["this"] = true;
                    if (c->getCaptureKind() == LCK_StarThis) co["copy"] = true;
                } else if (c->capturesVariable()) {
                    auto* V = c->getCapturedVar();
                    co["id"] = id(V);
                    co["n"] = V->getNameAsString();
                    co["byref"] = c->getCaptureKind() == LCK_ByRef;
                    if (*in) co["init"] = E(*in);
                }
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            o["fn"] = func(P->getCallOperator(), true);
            return o;
        }
        if (auto* P = dyn_cast<CXXNewExpr>(X)) {
            json::Object o = node("new", X);
            o["c"] = cls(P->getAllocatedType());
            if (P->isArray()) o["arr"] = true;
            o["e"] = E(P->getInitializer());
            return o;
        }
        if (auto* P = dyn_cast<CXXDeleteExpr>(X)) {
            json::Object o = node("delete", X);
            o["e"] = E(P->getArgument());
            return o;
        }
        if (auto* P = dyn_cast<CXXThrowExpr>(X)) {
            json::Object o = node("throw", X);
            if (P->getSubExpr()) {
                o["e"] = E(P->getSubExpr());
                o["c"] = cls(P->getSubExpr()->getType());
                json::Array bases;
                baseNames(P->getSubExpr()->getType()->getAsCXXRecordDecl(), bases);
                o["bases"] = std::move(bases);
            }
            return o;
        }
        if (auto* P = dyn_cast<CXXTypeidExpr>(X)) {
            json::Object o = node("typeid", X);
            if (P->isTypeOperand())
                o["c"] = cls(P->getTypeOperand(C));
            else
                o["e"] = E(P->getExprOperand());
            return o;
        }
        if (auto* P = dyn_cast<StmtExpr>(X)) {
            json::Object o = node("stmtexpr", X);
            o["s"] = S(P->getSubStmt());
            return o;
        }
        if (auto* P = dyn_cast<CXXPseudoDestructorExpr>(X)) {
            json::Object o = node("null", X);
            (void)P;
            return o;
        }
        json::Object o = node("unk", X);
        o["sc"] = X->getStmtClassName();
        json::Array ch;
        for (auto* s : X->children())
            if (auto* e = dyn_cast_or_null<Expr>(s)) ch.push_back(E(e));
        o["a"] = std::move(ch);
        return o;
    }
    void baseNames(const CXXRecordDecl* RD, json::Array& out)
    {
        if (!RD || !RD->hasDefinition()) return;
        out.push_back(cls(C.getRecordType(RD)));
        for (auto& b : RD->bases()) baseNames(b.getType()->getAsCXXRecordDecl(), out);
    }
    json::Object var(const VarDecl* V)
    {
        json::Object o;
        o["id"] = id(V);
        o["n"] = V->getNameAsString();
        o["t"] = ty(V->getType());
        o["c"] = cls(V->getType());
        num(o, V->getType());
        if (V->getType()->isReferenceType()) o["ref"] = true;
        if (V->getType()->isPointerType()) o["ptr"] = true;
        if (V->isStaticLocal()) {
            o["static"] = true;
            o["q"] = mainFile + "#" + qn(V) + "#" + std::to_string(id(V));
        }
        if (auto* CAT = C.getAsConstantArrayType(V->getType())) {
            o["an"] = (int64_t)CAT->getSize().getZExtValue();
            o["et"] = ty(CAT->getElementType());
            o["ec"] = cls(CAT->getElementType());
            o["es"] = (int64_t)C.getTypeSizeInChars(CAT->getElementType()).getQuantity();
        }
        if (V->getInit()) o["init"] = E(V->getInit());
        if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
            json::Array bs;
            for (auto* b : DD->bindings()) bs.push_back(b->getNameAsString());
            o["bindings"] = std::move(bs);
        }
        o["l"] = (int64_t)lineOf(V->getLocation());
        return o;
    }
    json::Object snode(const char* k, const Stmt* X)
    {
        json::Object o;
        o["k"] = k;
        o["l"] = (int64_t)lineOf(X->getBeginLoc());
        return o;
    }
    json::Value S(const Stmt* X)
    {
        if (!X) return nullptr;
        if (auto* P = dyn_cast<CompoundStmt>(X)) {
            json::Object o = snode("block", X);
            json::Array a;
            for (auto* s : P->body()) a.push_back(S(s));
            o["a"] = std::move(a);
            o["el"] = (int64_t)lineOf(X->getEndLoc());
            return o;
        }
        if (auto* P = dyn_cast<DeclStmt>(X)) {
            json::Object o = snode("decl", X);
            json::Array a;
            for (auto* d : P->decls())
                if (auto* V = dyn_cast<VarDecl>(d)) a.push_back(var(V));
            o["a"] = std::move(a);
            return o;
        }
        if (auto* P = dyn_cast<IfStmt>(X)) {
            json::Object o = snode("if", X);
            if (P->getInit()) o["init"] = S(P->getInit());
            if (P->getConditionVariable()) o["var"] = var(P->getConditionVariable());
            if (P->isConstexpr()) {
                Expr::EvalResult R;
                if (P->getCond()->EvaluateAsInt(R, C)) {
                    // only the taken branch exists in the instantiation
                }
            }
            o["q"] = E(P->getCond());
            o["a"] = S(P->getThen());
            o["b"] = S(P->getElse());
            return o;
        }
        if (auto* P = dyn_cast<WhileStmt>(X)) {
            json::Object o = snode("while", X);
            if (P->getConditionVariable()) o["var"] = var(P->getConditionVariable());
            o["q"] = E(P->getCond());
            o["body"] = S(P->getBody());
            return o;
        }
        if (auto* P = dyn_cast<DoStmt>(X)) {
            json::Object o = snode("do", X);
            o["q"] = E(P->getCond());
            o["body"] = S(P->getBody());
            return o;
        }
        if (auto* P = dyn_cast<ForStmt>(X)) {
            json::Object o = snode("for", X);
            o["init"] = S(P->getInit());
            o["q"] = E(P->getCond());
            o["inc"] = E(P->getInc());
            o["body"] = S(P->getBody());
            return o;
        }
        if (auto* P = dyn_cast<CXXForRangeStmt>(X)) {
            json::Object o = snode("range", X);
            o["r"] = E(P->getRangeInit());
            o["rc"] = cls(P->getRangeInit()->getType());
            o["var"] = var(P->getLoopVariable());
            o["body"] = S(P->getBody());
            return o;
        }
        if (auto* P = dyn_cast<SwitchStmt>(X)) {
            json::Object o = snode("switch", X);
            if (P->getInit()) o["init"] = S(P->getInit());
            if (P->getConditionVariable()) o["var"] = var(P->getConditionVariable());
            o["q"] = E(P->getCond());
            o["body"] = S(P->getBody());
            return o;
        }
        if (auto* P = dyn_cast<CaseStmt>(X)) {
            json::Object o = snode("case", X);
            o["v"] = E(P->getLHS());
            if (P->getRHS()) o["v2"] = E(P->getRHS());
            o["s"] = S(P->getSubStmt());
            return o;
        }
        if (auto* P = dyn_cast<DefaultStmt>(X)) {
            json::Object o = snode("default", X);
            o["s"] = S(P->getSubStmt());
            return o;
        }
        if (auto* P = dyn_cast<ReturnStmt>(X)) {
            json::Object o = snode("ret", X);
            o["e"] = E(P->getRetValue());
            return o;
        }
        if (isa<BreakStmt>(X)) return snode("break", X);
        if (isa<ContinueStmt>(X)) return snode("cont", X);
        if (isa<NullStmt>(X)) return snode("nop", X);
        if (auto* P = dyn_cast<CXXTryStmt>(X)) {
            json::Object o = snode("try", X);
            o["body"] = S(P->getTryBlock());
            json::Array hs;
            for (unsigned i = 0; i < P->getNumHandlers(); ++i) {
                auto* H = P->getHandler(i);
                json::Object h;
                h["t"] = H->getCaughtType().isNull() ? std::string("...") : cls(H->getCaughtType());
                if (H->getExceptionDecl()) h["var"] = var(H->getExceptionDecl());
                h["body"] = S(H->getHandlerBlock());
                h["l"] = (int64_t)lineOf(H->getBeginLoc());
                hs.push_back(std::move(h));
            }
            o["h"] = std::move(hs);
            return o;
        }
        if (auto* P = dyn_cast<AttributedStmt>(X)) return S(P->getSubStmt());
        if (auto* P = dyn_cast<LabelStmt>(X)) {
            json::Object o = snode("label", X);
            o["n"] = P->getName();
            o["s"] = S(P->getSubStmt());
            return o;
        }
        if (auto* P = dyn_cast<GotoStmt>(X)) {
            json::Object o = snode("goto", X);
            o["n"] = P->getLabel()->getNameAsString();
            return o;
        }
        if (auto* P = dyn_cast<Expr>(X)) {
            json::Object o = snode("expr", X);
            o["e"] = E(P);
            return o;
        }
        json::Object o = snode("unk", X);
        o["sc"] = X->getStmtClassName();
        return o;
    }
    json::Object func(const FunctionDecl* F, bool lambda = false)
    {
        json::Object o;
        o["fn"] = fid(F);
        o["n"] = qn(F);
        o["sn"] = F->getNameAsString();
        o["file"] = fileOf(F->getBody() ? F->getBody()->getBeginLoc() : F->getLocation());
        o["l"] = (int64_t)lineOf(F->getLocation());
        o["el"] = (int64_t)lineOf(F->getEndLoc());
        o["rt"] = ty(F->getReturnType());
        o["rc"] = cls(F->getReturnType());
        if (F->getReturnType()->isReferenceType()) o["rref"] = true;
        num(o, F->getReturnType());
        json::Array ps;
        for (auto* p : F->parameters()) {
            json::Object po = var(p);
            po.erase("init");
            ps.push_back(std::move(po));
        }
        o["ps"] = std::move(ps);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = cls(C.getRecordType(M->getParent()));
            o["static"] = M->isStatic();
            o["const"] = M->isConst();
            auto A = M->getAccess();
            o["acc"] = A == AS_public ? "public" : A == AS_protected ? "protected" : "private";
        }
        if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
        if (auto* FP = F->getType()->getAs<FunctionProtoType>())
            if (FP->isNothrow()) o["noexcept"] = true;
        if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
            o["ctor"] = true;
            if (K->isCopyConstructor()) o["copy"] = true;
            if (K->isMoveConstructor()) o["move"] = true;
            json::Array is;
            for (auto* I : K->inits()) {
                json::Object io;
                if (I->isAnyMemberInitializer()) {
                    io["f"] = I->getAnyMember()->getNameAsString();
                    io["c"] = cls(I->getAnyMember()->getType());
                    io["t"] = ty(I->getAnyMember()->getType());
                } else if (I->isBaseInitializer())
                    io["base"] = cls(QualType(I->getBaseClass(), 0));
                else if (I->isDelegatingInitializer())
                    io["deleg"] = true;
                io["w"] = I->isWritten();
                io["e"] = E(I->getInit());
                io["l"] = (int64_t)lineOf(I->getSourceLocation());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        if (!lambda && F->isTemplateInstantiation()) o["inst"] = true;
        o["internal"] = !F->isExternallyVisible();
        o["body"] = S(F->getBody());
        return o;
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    Emitter& M;
    json::Object funcs, recs, globals;
    std::set<const Decl*> seen;
    Visitor(Emitter& m) : M(m) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* F)
    {
        if (!F->isThisDeclarationADefinition() || !F->hasBody() || F->isDependentContext()) return true;
        if (!M.inRoot(F->getLocation())) return true;
        if (auto* MD = dyn_cast<CXXMethodDecl>(F))
            if (MD->getParent()->isLambda()) return true;
        if (F->isDefaulted() && !F->isUserProvided()) return true;
        std::string k = M.fid(F);
        if (!seen.insert(F->getCanonicalDecl()).second) return true;
        funcs[k] = M.func(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R)
    {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
        if (!M.inRoot(R->getLocation())) return true;
        json::Object o;
        std::string n = M.cls(M.C.getRecordType(R));
        o["n"] = n;
        o["file"] = M.fileOf(R->getLocation());
        o["l"] = (int64_t)M.lineOf(R->getLocation());
        json::Array bs, fs, ms;
        for (auto& b : R->bases()) bs.push_back(M.cls(b.getType()));
        for (auto* f : R->fields()) {
            json::Object fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = M.ty(f->getType());
            fo["c"] = M.cls(f->getType());
            fo["l"] = (int64_t)M.lineOf(f->getLocation());
            M.num(fo, f->getType());
            if (auto* CAT = M.C.getAsConstantArrayType(f->getType())) {
                fo["an"] = (int64_t)CAT->getSize().getZExtValue();
                fo["ec"] = M.cls(CAT->getElementType());
                fo["es"] = (int64_t)M.C.getTypeSizeInChars(CAT->getElementType()).getQuantity();
            }
            fo["mut"] = f->isMutable();
            fo["acc"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_protected ? "protected" : "private";
            fo["scalar"] = f->getType()->isScalarType();
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = M.E(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        for (auto* m : R->methods()) {
            json::Object mo;
            mo["n"] = m->getNameAsString();
            mo["fn"] = M.fid(m);
            mo["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
            mo["implicit"] = m->isImplicit();
            mo["virt"] = m->isVirtual();
            mo["const"] = m->isConst();
            mo["deleted"] = m->isDeleted();
            mo["ctor"] = isa<CXXConstructorDecl>(m);
            mo["dtor"] = isa<CXXDestructorDecl>(m);
            mo["static"] = m->isStatic();
            ms.push_back(std::move(mo));
        }
        o["bases"] = std::move(bs);
        o["fields"] = std::move(fs);
        o["methods"] = std::move(ms);
        recs[n] = std::move(o);
        return true;
    }
    bool VisitVarDecl(VarDecl* V)
    {
        if (!V->hasGlobalStorage() || !M.inRoot(V->getLocation())) return true;
        if (V->getDeclContext()->isDependentContext()) return true;
        auto* D = V->getDefinition();
        if (!D && !V->getInit()) return true;
        if (D) V = D;
        if (isa<ParmVarDecl>(V)) return true;
        json::Object o = M.var(V);
        std::string q = M.qn(V);
        if (V->isStaticLocal() || !V->isExternallyVisible())
            q = M.mainFile + "#" + q + (V->isStaticLocal() ? "#" + std::to_string(M.id(V)) : "");
        o["q"] = q;
        o["const"] = V->getType().isConstQualified();
        o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
        o["file"] = M.fileOf(V->getLocation());
        globals[q] = std::move(o);
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    std::string file;
    CompilerInstance& CI;
    Consumer(std::string f, CompilerInstance& ci) : file(f), CI(ci) {}
    void HandleTranslationUnit(ASTContext& Ctx) override
    {
        if (Ctx.getDiagnostics().hasErrorOccurred()) return;
        Emitter M(Ctx);
        auto p = file.rfind('/');
        M.mainFile = p == std::string::npos ? file : file.substr(p + 1);
        Visitor V(M);
        V.TraverseDecl(Ctx.getTranslationUnitDecl());
        json::Object o;
        o["file"] = file;
        o["funcs"] = std::move(V.funcs);
        o["recs"] = std::move(V.recs);
        o["globals"] = std::move(V.globals);
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        os << json::Value(std::move(o));
    }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef F) override
    {
        return std::make_unique<Consumer>(F.str(), CI);
    }
};
class Factory : public tooling::FrontendActionFactory {
public:
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
} // namespace

int main(int argc, const char** argv)
{
    gOut = argv[1];
    gRoot = argv[2];
    std::string file = argv[3];
    gMain = file;
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool T(DB, { file });
    Factory f;
    return T.run(&f);
}
