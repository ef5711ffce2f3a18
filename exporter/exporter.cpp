// AST exporter: parses one driver translation unit and writes, as JSON, the
// resolved and instantiated bodies of all functions reachable from the
// functions defined in the main file, as far as they are defined below one of
// the roots given with --root.  No code of the analysed project is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;
static std::vector<std::string> MainRoots;

namespace {

struct Exporter {
    ASTContext& Ctx;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const Decl*, int> declIds;
    std::map<std::string, int> typeIds;
    json::Array types;
    std::map<const FunctionDecl*, int> fnIds;
    std::deque<const FunctionDecl*> work;
    json::Array fns;
    std::map<std::string, int> fileIds;
    json::Array files;
    json::Object lambdas;
    json::Array statics;

    Exporter(ASTContext& C)
        : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.Bool = true;
    }

    int did(const Decl* D)
    {
        D = D->getCanonicalDecl();
        auto it = declIds.find(D);
        if (it != declIds.end()) return it->second;
        int id = (int)declIds.size() + 1;
        declIds[D] = id;
        return id;
    }

    int fileId(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        std::string f = SM.getFilename(L).str();
        if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
            llvm::StringRef rp = FE->getFileEntry().tryGetRealPathName();
            if (!rp.empty()) f = rp.str();
        }
        auto it = fileIds.find(f);
        if (it != fileIds.end()) return it->second;
        int id = (int)fileIds.size();
        fileIds[f] = id;
        files.push_back(f);
        return id;
    }
    int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
    int column(SourceLocation L) { return SM.getExpansionColumnNumber(L); }

    bool isMain(const Decl* F)
    {
        SourceLocation L = SM.getExpansionLoc(F->getLocation());
        if (L.isInvalid()) return false;
        if (SM.isInMainFile(L)) return true;
        if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
            llvm::StringRef rp = FE->getFileEntry().tryGetRealPathName();
            for (auto& r : MainRoots)
                if (rp.startswith(r)) return true;
        }
        return false;
    }
    bool inRoot(const Decl* F)
    {
        SourceLocation L = SM.getExpansionLoc(F->getLocation());
        if (L.isInvalid()) return false;
        if (isMain(F)) return true;
        std::string f = SM.getFilename(L).str();
        if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
            llvm::StringRef rp = FE->getFileEntry().tryGetRealPathName();
            if (!rp.empty()) f = rp.str();
        }
        for (auto& r : Roots)
            if (llvm::StringRef(f).startswith(r)) return true;
        return false;
    }

    json::Value targ(const TemplateArgument& A)
    {
        switch (A.getKind()) {
            case TemplateArgument::Type:
                return json::Object{{"t", tid(A.getAsType())}};
            case TemplateArgument::Integral: {
                llvm::SmallString<16> s;
                A.getAsIntegral().toString(s, 10);
                return json::Object{{"v", std::string(s)}};
            }
            case TemplateArgument::Pack: {
                json::Array a;
                for (auto& x : A.pack_elements()) a.push_back(targ(x));
                return json::Object{{"p", std::move(a)}};
            }
            default: {
                std::string s;
                llvm::raw_string_ostream os(s);
                A.print(PP, os, true);
                return json::Object{{"s", os.str()}};
            }
        }
    }

    int tid(QualType Q)
    {
        Q = Q.getCanonicalType();
        std::string s = Q.getAsString(PP);
        // lambdas: make unique by location
        auto it = typeIds.find(s);
        if (it != typeIds.end()) return it->second;
        int id = (int)typeIds.size();
        typeIds[s] = id;
        types.push_back(nullptr);
        json::Object o;
        o["s"] = s;
        if (Q.isConstQualified()) o["const"] = 1;
        if (Q->isReferenceType()) {
            o["k"] = Q->isRValueReferenceType() ? "rref" : "ref";
            o["e"] = tid(Q->getPointeeType());
        }
        else if (Q->isBooleanType())
            o["k"] = "bool";
        else if (const EnumType* ET = Q->getAs<EnumType>()) {
            o["k"] = "enum";
            o["name"] = ET->getDecl()->getQualifiedNameAsString();
            o["bits"] = (int)Ctx.getTypeSize(Q);
        }
        else if (Q->isIntegerType()) {
            o["k"] = "int";
            o["bits"] = (int)Ctx.getTypeSize(Q);
            o["sg"] = Q->isSignedIntegerType() ? 1 : 0;
        }
        else if (Q->isRealFloatingType()) {
            o["k"] = "float";
            o["bits"] = (int)Ctx.getTypeSize(Q);
            o["mant"] =
                (int)llvm::APFloat::semanticsPrecision(Ctx.getFloatTypeSemantics(Q));
        }
        else if (Q->isPointerType()) {
            o["k"] = "ptr";
            o["e"] = tid(Q->getPointeeType());
        }
        else if (const ConstantArrayType* AT = Ctx.getAsConstantArrayType(Q)) {
            o["k"] = "arr";
            o["e"] = tid(AT->getElementType());
            o["n"] = (int64_t)AT->getSize().getZExtValue();
        }
        else if (const CXXRecordDecl* R = Q->getAsCXXRecordDecl()) {
            o["k"] = "rec";
            o["name"] = R->getQualifiedNameAsString();
            if (R->isLambda()) {
                o["lambda"] = did(R);
                expLambda(R);
            }
            if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
                json::Array a;
                for (auto& x : S->getTemplateArgs().asArray())
                    a.push_back(targ(x));
                o["args"] = std::move(a);
            }
            if (R->hasDefinition() && !R->isLambda()) {
                bool keep = inRootDecl(R);
                if (keep) {
                    json::Array f;
                    for (auto* F : R->fields())
                        f.push_back(json::Object{
                            {"n", F->getNameAsString()},
                            {"t", tid(F->getType())},
                            {"init", F->hasInClassInitializer() &&
                                             F->getInClassInitializer()
                                         ? expr(F->getInClassInitializer())
                                         : json::Value(nullptr)}});
                    o["fields"] = std::move(f);
                    json::Array b;
                    for (auto& B : R->bases()) b.push_back(tid(B.getType()));
                    if (!b.empty()) o["bases"] = std::move(b);
                }
            }
        }
        else if (Q->isVoidType())
            o["k"] = "void";
        else
            o["k"] = "other";
        types[id] = std::move(o);
        return id;
    }
    bool inRootDecl(const Decl* D)
    {
        SourceLocation L = SM.getExpansionLoc(D->getLocation());
        if (L.isInvalid()) return false;
        if (SM.isInMainFile(L)) return true;
        std::string f = SM.getFilename(L).str();
        if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
            llvm::StringRef rp = FE->getFileEntry().tryGetRealPathName();
            if (!rp.empty()) f = rp.str();
        }
        for (auto& r : Roots)
            if (llvm::StringRef(f).startswith(r)) return true;
        return false;
    }

    std::set<const CXXRecordDecl*> lamDone;
    void expLambda(const CXXRecordDecl* R)
    {
        if (!lamDone.insert(R).second) return;
        json::Array caps;
        auto it = R->field_begin();
        for (auto& c : R->captures()) {
            json::Object o;
            if (c.capturesVariable()) {
                o["d"] = did(c.getCapturedVar());
                o["name"] = c.getCapturedVar()->getNameAsString();
            }
            else if (c.capturesThis())
                o["this"] = 1;
            o["byref"] = c.getCaptureKind() == LCK_ByRef ? 1 : 0;
            caps.push_back(std::move(o));
            ++it;
        }
        lambdas[std::to_string(did(R))] = std::move(caps);
    }

    // -------------------------------------------------------------- functions
    int fid(const FunctionDecl* F)
    {
        const FunctionDecl* Def = nullptr;
        if (F->hasBody(Def) && Def) F = Def;
        else F = F->getCanonicalDecl();
        auto it = fnIds.find(F);
        if (it != fnIds.end()) return it->second;
        int id = (int)fnIds.size();
        fnIds[F] = id;
        fns.push_back(nullptr);
        work.push_back(F);
        return id;
    }

    std::string qname(const NamedDecl* D)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }

    void exportFn(const FunctionDecl* F, int id)
    {
        json::Object o;
        o["id"] = id;
        o["name"] = F->getQualifiedNameAsString();
        o["n"] = F->getNameAsString();
        o["file"] = fileId(F->getLocation());
        o["line"] = line(F->getLocation());
        // template pattern location: identifies the source construct
        if (const FunctionDecl* Pat = F->getTemplateInstantiationPattern()) {
            o["pline"] = line(Pat->getLocation());
        }
        if (auto* TA = F->getTemplateSpecializationArgs()) {
            json::Array a;
            for (auto& x : TA->asArray()) a.push_back(targ(x));
            o["targs"] = std::move(a);
        }
        json::Array ps;
        for (auto* P : F->parameters()) {
            json::Object po{{"d", did(P)},
                            {"n", P->getNameAsString()},
                            {"t", tid(P->getType())}};
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        o["ret"] = tid(F->getReturnType());
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["rec"] = tid(Ctx.getRecordType(M->getParent()));
            o["m"] = 1;
            if (M->isStatic()) o["static"] = 1;
            if (M->isConst()) o["constm"] = 1;
            if (isa<CXXConstructorDecl>(M)) o["ctor"] = 1;
            if (isa<CXXConversionDecl>(M)) o["conv"] = 1;
        }
        if (F->isDefaulted()) o["defaulted"] = 1;
        bool root = inRoot(F);
        if (root) o["root"] = 1;
        if (isMain(F)) o["main"] = 1;
        if (root && F->hasBody()) {
            if (auto* Ct = dyn_cast<CXXConstructorDecl>(F)) {
                json::Array in;
                for (auto* I : Ct->inits()) {
                    json::Object io;
                    if (I->isAnyMemberInitializer())
                        io["f"] = I->getAnyMember()->getNameAsString();
                    else if (I->isBaseInitializer())
                        io["base"] = tid(QualType(I->getBaseClass(), 0));
                    else if (I->isDelegatingInitializer())
                        io["deleg"] = 1;
                    io["e"] = expr(I->getInit());
                    in.push_back(std::move(io));
                }
                o["inits"] = std::move(in);
            }
            o["body"] = stmt(F->getBody());
        }
        fns[id] = std::move(o);
    }

    // -------------------------------------------------------------- statements
    json::Value stmt(const Stmt* S)
    {
        if (!S) return nullptr;
        json::Object o;
        if (auto* E = dyn_cast<Expr>(S)) {
            o["k"] = "expr";
            o["l"] = line(E->getBeginLoc());
            o["e"] = expr(E);
            return o;
        }
        o["l"] = line(S->getBeginLoc());
        if (auto* C = dyn_cast<CompoundStmt>(S)) {
            o["k"] = "block";
            json::Array a;
            for (auto* X : C->body()) {
                json::Value v = stmt(X);
                if (v.kind() != json::Value::Null) a.push_back(std::move(v));
            }
            o["b"] = std::move(a);
            return o;
        }
        if (auto* D = dyn_cast<DeclStmt>(S)) {
            o["k"] = "decl";
            json::Array a;
            for (auto* X : D->decls()) {
                if (auto* V = dyn_cast<VarDecl>(X)) a.push_back(var(V));
            }
            if (a.empty()) return nullptr;
            o["v"] = std::move(a);
            return o;
        }
        if (auto* I = dyn_cast<IfStmt>(S)) {
            if (I->isConstexpr()) {
                bool known = false, val = false;
                Expr::EvalResult R;
                if (I->getCond() && !I->getCond()->isValueDependent() &&
                    I->getCond()->EvaluateAsInt(R, Ctx)) {
                    known = true;
                    val = R.Val.getInt().getBoolValue();
                }
                if (known) {
                    const Stmt* T = val ? I->getThen() : I->getElse();
                    if (!T) return nullptr;
                    return stmt(T);
                }
            }
            o["k"] = "if";
            if (I->getInit()) o["init"] = stmt(I->getInit());
            if (I->getConditionVariable()) {
                json::Array a;
                a.push_back(var(I->getConditionVariable()));
                o["cv"] = std::move(a);
            }
            o["c"] = expr(I->getCond());
            o["t"] = stmt(I->getThen());
            if (I->getElse()) o["f"] = stmt(I->getElse());
            return o;
        }
        if (auto* F = dyn_cast<ForStmt>(S)) {
            o["k"] = "for";
            o["init"] = stmt(F->getInit());
            o["c"] = F->getCond() ? expr(F->getCond()) : json::Value(nullptr);
            o["inc"] = F->getInc() ? expr(F->getInc()) : json::Value(nullptr);
            o["b"] = stmt(F->getBody());
            return o;
        }
        if (auto* W = dyn_cast<WhileStmt>(S)) {
            o["k"] = "while";
            o["c"] = expr(W->getCond());
            o["b"] = stmt(W->getBody());
            return o;
        }
        if (auto* W = dyn_cast<DoStmt>(S)) {
            // do { } while (false) : plain block
            Expr::EvalResult R;
            if (!W->getCond()->isValueDependent() &&
                W->getCond()->EvaluateAsInt(R, Ctx) &&
                !R.Val.getInt().getBoolValue()) {
                bool hasJump = false;
                struct V : RecursiveASTVisitor<V> {
                    bool* h;
                    bool VisitBreakStmt(BreakStmt*) { *h = true; return true; }
                    bool VisitContinueStmt(ContinueStmt*) { *h = true; return true; }
                } v;
                v.h = &hasJump;
                v.TraverseStmt(const_cast<Stmt*>(W->getBody()));
                if (!hasJump) return stmt(W->getBody());
            }
            o["k"] = "do";
            o["c"] = expr(W->getCond());
            o["b"] = stmt(W->getBody());
            return o;
        }
        if (auto* R = dyn_cast<CXXForRangeStmt>(S)) {
            o["k"] = "rangefor";
            o["range"] = expr(R->getRangeInit());
            json::Array a;
            a.push_back(var(R->getLoopVariable()));
            o["v"] = std::move(a);
            o["b"] = stmt(R->getBody());
            return o;
        }
        if (auto* R = dyn_cast<ReturnStmt>(S)) {
            o["k"] = "ret";
            if (R->getRetValue()) o["e"] = expr(R->getRetValue());
            return o;
        }
        if (isa<BreakStmt>(S)) {
            o["k"] = "break";
            return o;
        }
        if (isa<ContinueStmt>(S)) {
            o["k"] = "continue";
            return o;
        }
        if (isa<NullStmt>(S)) return nullptr;
        if (auto* W = dyn_cast<SwitchStmt>(S)) {
            o["k"] = "switch";
            if (W->getInit()) o["init"] = stmt(W->getInit());
            o["c"] = expr(W->getCond());
            o["b"] = stmt(W->getBody());
            return o;
        }
        if (auto* C = dyn_cast<CaseStmt>(S)) {
            o["k"] = "case";
            o["e"] = expr(C->getLHS());
            o["b"] = stmt(C->getSubStmt());
            return o;
        }
        if (auto* C = dyn_cast<DefaultStmt>(S)) {
            o["k"] = "default";
            o["b"] = stmt(C->getSubStmt());
            return o;
        }
        if (auto* T = dyn_cast<CXXTryStmt>(S)) {
            o["k"] = "try";
            o["b"] = stmt(T->getTryBlock());
            json::Array a;
            for (unsigned i = 0; i < T->getNumHandlers(); ++i)
                a.push_back(stmt(T->getHandler(i)->getHandlerBlock()));
            o["h"] = std::move(a);
            return o;
        }
        if (auto* A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
        if (auto* L = dyn_cast<LabelStmt>(S)) return stmt(L->getSubStmt());
        o["k"] = "unk";
        o["cls"] = S->getStmtClassName();
        return o;
    }

    json::Value var(const VarDecl* V)
    {
        json::Object o;
        if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
            o["k"] = "decomp";
            json::Array b;
            for (auto* B : DD->bindings()) {
                json::Object bo{{"d", did(B)}, {"n", B->getNameAsString()},
                                {"t", tid(B->getType())}};
                if (auto* HV = B->getHoldingVar()) bo["hd"] = did(HV);
                else if (auto* BE = B->getBinding()) {
                    if (auto* ME = dyn_cast<MemberExpr>(BE->IgnoreParenImpCasts()))
                        bo["f"] = ME->getMemberDecl()->getNameAsString();
                }
                b.push_back(std::move(bo));
            }
            o["b"] = std::move(b);
            o["t"] = tid(V->getType());
            if (V->getInit()) o["init"] = expr(V->getInit());
            return o;
        }
        o["d"] = did(V);
        o["n"] = V->getNameAsString();
        o["t"] = tid(V->getType());
        if (V->isStaticLocal()) o["static"] = 1;
        if (V->isConstexpr()) o["cx"] = 1;
        if (V->getInit()) o["init"] = expr(V->getInit());
        o["l"] = line(V->getLocation());
        return o;
    }

    // -------------------------------------------------------------- expressions
    static std::string apv(const llvm::APSInt& I)
    {
        llvm::SmallString<24> s;
        I.toString(s, 10);
        return std::string(s);
    }

    bool fold(const Expr* E, json::Object& o)
    {
        if (E->isValueDependent() || E->isTypeDependent()) return false;
        QualType T = E->getType();
        if (!(T->isIntegralOrEnumerationType())) return false;
        if (E->isLValue()) {
            auto* DR = dyn_cast<DeclRefExpr>(E);
            if (!DR) return false;
        }
        Expr::EvalResult R;
        if (!E->EvaluateAsInt(R, Ctx)) return false;
        if (R.HasSideEffects) return false;
        o["k"] = "c";
        o["v"] = apv(R.Val.getInt());
        o["t"] = tid(T);
        return true;
    }

    json::Value args(llvm::ArrayRef<const Expr*> as)
    {
        json::Array a;
        for (auto* X : as) a.push_back(expr(X));
        return a;
    }
    template <class R>
    json::Array argsOf(const R& range)
    {
        json::Array a;
        for (auto* X : range) a.push_back(expr(X));
        return a;
    }

    json::Value expr(const Expr* E)
    {
        if (!E) return nullptr;
        json::Object o;
        // ---- transparent wrappers
        if (auto* X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<FullExpr>(E)) {
            if (fold(E, o)) return o;
            return expr(X->getSubExpr());
        }
        if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E))
            return expr(X->getSubExpr());
        if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E))
            return expr(X->getSubExpr());
        if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
            return expr(X->getReplacement());
        if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
        if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
        if (auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E))
            return expr(X->getSemanticForm());
        if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E))
            return expr(X->getSubExpr());
        if (fold(E, o)) {
            // keep the reference name for literals coming from variables
            return o;
        }
        o["l"] = line(E->getBeginLoc());
        if (auto* X = dyn_cast<CastExpr>(E)) {
            switch (X->getCastKind()) {
                case CK_NoOp:
                case CK_LValueToRValue:
                case CK_FunctionToPointerDecay:
                case CK_ArrayToPointerDecay:
                case CK_ConstructorConversion:
                case CK_UserDefinedConversion:
                case CK_BuiltinFnToFnPtr:
                    return expr(X->getSubExpr());
                default:
                    break;
            }
            o["k"] = "cast";
            o["ck"] = X->getCastKindName();
            o["t"] = tid(X->getType());
            o["st"] = tid(X->getSubExpr()->getType());
            o["e"] = expr(X->getSubExpr());
            if (!isa<ImplicitCastExpr>(X)) o["expl"] = 1;
            return o;
        }
        if (auto* X = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl* D = X->getDecl();
            if (auto* F = dyn_cast<FunctionDecl>(D)) {
                o["k"] = "fn";
                o["f"] = fid(F);
                return o;
            }
            o["k"] = "ref";
            o["d"] = did(D);
            o["n"] = D->getNameAsString();
            o["t"] = tid(X->getType());
            if (auto* V = dyn_cast<VarDecl>(D)) {
                if (!V->isLocalVarDeclOrParm()) {
                    o["g"] = 1;
                    if (V->getType().isConstQualified() || V->isConstexpr())
                        o["gc"] = 1;
                    if (const Expr* I = V->getAnyInitializer())
                        if (!globalsSeen.count(V)) {
                            globalsSeen.insert(V);
                            globals[std::to_string(did(V))] = json::Object{
                                {"n", V->getQualifiedNameAsString()},
                                {"t", tid(V->getType())},
                                {"init", expr(I)}};
                        }
                }
                else if (V->isStaticLocal())
                    o["sl"] = 1;
            }
            return o;
        }
        if (auto* X = dyn_cast<IntegerLiteral>(E)) {
            o["k"] = "c";
            llvm::SmallString<24> s;
            X->getValue().toString(s, 10, true);
            o["v"] = std::string(s);
            o["t"] = tid(X->getType());
            return o;
        }
        if (auto* X = dyn_cast<FloatingLiteral>(E)) {
            o["k"] = "f";
            llvm::SmallString<32> s;
            X->getValue().toString(s);
            o["v"] = std::string(s);
            o["exact"] = X->isExact() ? 1 : 0;
            o["t"] = tid(X->getType());
            return o;
        }
        if (auto* X = dyn_cast<StringLiteral>(E)) {
            o["k"] = "s";
            if (X->isOrdinary()) o["v"] = X->getString().str();
            return o;
        }
        if (auto* X = dyn_cast<CXXThisExpr>(E)) {
            (void)X;
            o["k"] = "this";
            return o;
        }
        if (auto* X = dyn_cast<UnaryOperator>(E)) {
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            if (X->isPostfix()) o["post"] = 1;
            o["e"] = expr(X->getSubExpr());
            o["t"] = tid(X->getType());
            return o;
        }
        if (auto* X = dyn_cast<BinaryOperator>(E)) {
            o["k"] = "bin";
            o["op"] = X->getOpcodeStr().str();
            o["a"] = expr(X->getLHS());
            o["b"] = expr(X->getRHS());
            o["t"] = tid(X->getType());
            if (auto* CA = dyn_cast<CompoundAssignOperator>(X)) {
                o["ct"] = tid(CA->getComputationResultType());
                o["clt"] = tid(CA->getComputationLHSType());
            }
            return o;
        }
        if (auto* X = dyn_cast<ConditionalOperator>(E)) {
            Expr::EvalResult R;
            if (!X->getCond()->isValueDependent() &&
                X->getCond()->EvaluateAsInt(R, Ctx) && !R.HasSideEffects)
                return expr(R.Val.getInt().getBoolValue() ? X->getTrueExpr()
                                                          : X->getFalseExpr());
            o["k"] = "cond";
            o["c"] = expr(X->getCond());
            o["a"] = expr(X->getTrueExpr());
            o["b"] = expr(X->getFalseExpr());
            o["t"] = tid(X->getType());
            return o;
        }
        if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
            o["k"] = "idx";
            o["b"] = expr(X->getBase());
            o["i"] = expr(X->getIdx());
            o["t"] = tid(X->getType());
            return o;
        }
        if (auto* X = dyn_cast<MemberExpr>(E)) {
            if (auto* M = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) {
                o["k"] = "method";
                o["f"] = fid(M);
                o["b"] = expr(X->getBase());
                return o;
            }
            o["k"] = "mem";
            o["b"] = expr(X->getBase());
            o["f"] = X->getMemberDecl()->getNameAsString();
            o["t"] = tid(X->getType());
            if (X->isArrow()) o["arrow"] = 1;
            return o;
        }
        if (auto* X = dyn_cast<LambdaExpr>(E)) {
            o["k"] = "lambda";
            const CXXRecordDecl* R = X->getLambdaClass();
            expLambda(R);
            o["id"] = did(R);
            json::Array ci;
            auto ii = X->capture_init_begin();
            for (auto& c : X->captures()) {
                json::Object co;
                if (c.capturesVariable()) {
                    co["d"] = did(c.getCapturedVar());
                    co["byref"] = c.getCaptureKind() == LCK_ByRef ? 1 : 0;
                    if (X->isInitCapture(&c) )
                        co["init"] = expr(*ii);
                }
                ci.push_back(std::move(co));
                ++ii;
            }
            o["caps"] = std::move(ci);
            o["t"] = tid(X->getType());
            // non generic lambdas: export operator() even if only passed on
            if (auto* Op = R->getLambdaCallOperator())
                if (!R->isGenericLambda()) o["op"] = fid(Op);
            return o;
        }
        if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
            o["k"] = "call";
            o["op"] = getOperatorSpelling(X->getOperator());
            if (auto* F = X->getDirectCallee()) o["f"] = fid(F);
            o["a"] = argsOf(X->arguments());
            o["t"] = tid(X->getType());
            o["c"] = column(X->getOperatorLoc());
            o["l"] = line(X->getOperatorLoc());
            if (auto* M = dyn_cast_or_null<CXXMethodDecl>(X->getDirectCallee())) {
                o["m"] = 1;
                (void)M;
            }
            return o;
        }
        if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
            o["k"] = "call";
            o["m"] = 1;
            if (auto* F = X->getMethodDecl()) o["f"] = fid(F);
            json::Array a;
            a.push_back(expr(X->getImplicitObjectArgument()));
            for (auto* Y : X->arguments()) a.push_back(expr(Y));
            o["a"] = std::move(a);
            o["t"] = tid(X->getType());
            o["c"] = column(X->getExprLoc());
            return o;
        }
        if (auto* X = dyn_cast<CallExpr>(E)) {
            o["k"] = "call";
            if (auto* F = X->getDirectCallee()) o["f"] = fid(F);
            else o["callee"] = expr(X->getCallee());
            o["a"] = argsOf(X->arguments());
            o["t"] = tid(X->getType());
            o["c"] = column(X->getExprLoc());
            return o;
        }
        if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
            const CXXConstructorDecl* C = X->getConstructor();
            if (X->getNumArgs() == 1 && C->isCopyOrMoveConstructor()) {
                // pass-through with copy marker
                o["k"] = "copy";
                o["e"] = expr(X->getArg(0));
                o["t"] = tid(X->getType());
                if (C->isMoveConstructor()) o["mv"] = 1;
                return o;
            }
            o["k"] = "ctor";
            o["f"] = fid(C);
            json::Array a;
            for (auto* Y : X->arguments()) a.push_back(expr(Y));
            o["a"] = std::move(a);
            o["t"] = tid(X->getType());
            if (X->isListInitialization()) o["list"] = 1;
            return o;
        }
        if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            o["k"] = "ctor";
            o["f"] = fid(X->getConstructor());
            o["a"] = json::Array();
            o["t"] = tid(X->getType());
            return o;
        }
        if (auto* X = dyn_cast<InitListExpr>(E)) {
            o["k"] = "list";
            json::Array a;
            for (unsigned i = 0; i < X->getNumInits(); ++i)
                a.push_back(expr(X->getInit(i)));
            o["a"] = std::move(a);
            o["t"] = tid(X->getType());
            return o;
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
            o["k"] = "zero";
            o["t"] = tid(E->getType());
            return o;
        }
        if (auto* X = dyn_cast<CXXThrowExpr>(E)) {
            o["k"] = "throw";
            if (X->getSubExpr()) {
                o["t"] = tid(X->getSubExpr()->getType());
                o["e"] = expr(X->getSubExpr());
            }
            return o;
        }
        if (auto* X = dyn_cast<CXXNewExpr>(E)) {
            o["k"] = "new";
            o["t"] = tid(X->getType());
            if (X->isArray() && X->getArraySize())
                o["n"] = expr(*X->getArraySize());
            return o;
        }
        if (auto* X = dyn_cast<CXXDeleteExpr>(E)) {
            o["k"] = "delete";
            o["e"] = expr(X->getArgument());
            return o;
        }
        o["k"] = "unk";
        o["cls"] = E->getStmtClassName();
        o["t"] = tid(E->getType());
        return o;
    }

    std::set<const VarDecl*> globalsSeen;
    json::Object globals;

    // templates inventory
    struct Inv : RecursiveASTVisitor<Inv> {
        Exporter* X;
        json::Array out, odr, gvars;
        bool shouldVisitTemplateInstantiations() const { return false; }
        bool VisitVarDecl(VarDecl* V)
        {
            if (!V->hasGlobalStorage() || !X->inRoot(V)) return true;
            bool cst = V->getType().isConstQualified() || V->isConstexpr();
            QualType ET = V->getType();
            if (ET->isArrayType())
                cst = cst || X->Ctx.getBaseElementType(ET).isConstQualified();
            std::string ctx;
            if (auto* F = dyn_cast<FunctionDecl>(V->getDeclContext()))
                ctx = F->getQualifiedNameAsString();
            bool spec = V->getTemplateSpecializationKind() == TSK_ImplicitInstantiation;
            if (spec) return true;
            struct UsesLocal : RecursiveASTVisitor<UsesLocal> {
                bool hit = false;
                bool VisitDeclRefExpr(DeclRefExpr* E)
                {
                    if (auto* W = dyn_cast<VarDecl>(E->getDecl()))
                        if (W->isLocalVarDeclOrParm() && !W->isStaticLocal() && !W->isConstexpr()) hit = true;
                    return true;
                }
                bool VisitCXXThisExpr(CXXThisExpr*) { hit = true; return true; }
            } ul;
            if (V->isStaticLocal() && V->getInit()) ul.TraverseStmt(V->getInit());
            gvars.push_back(json::Object{{"dyn", ul.hit ? 1 : 0}, {"n", V->getQualifiedNameAsString()},
                                         {"file", X->fileId(V->getLocation())},
                                         {"line", X->line(V->getLocation())},
                                         {"const", cst ? 1 : 0},
                                         {"local", V->isStaticLocal() ? 1 : 0},
                                         {"tls", V->getTLSKind() != VarDecl::TLS_None ? 1 : 0},
                                         {"fn", ctx},
                                         {"t", V->getType().getAsString()}});
            if (!V->isStaticLocal() && V->isThisDeclarationADefinition() == VarDecl::Definition &&
                !V->isInline() && !V->isStaticDataMember() && V->hasExternalFormalLinkage() &&
                !V->getDescribedVarTemplate() && !isa<VarTemplateSpecializationDecl>(V))
                odr.push_back(json::Object{{"n", V->getQualifiedNameAsString()}, {"what", "variable"},
                                           {"file", X->fileId(V->getLocation())},
                                           {"line", X->line(V->getLocation())}});
            if (V->isStaticDataMember() && V->isOutOfLine() && !V->isInline() &&
                V->isThisDeclarationADefinition() == VarDecl::Definition &&
                !V->getDeclContext()->isDependentContext() &&
                !V->getMemberSpecializationInfo())
                odr.push_back(json::Object{{"n", V->getQualifiedNameAsString()}, {"what", "static member"},
                                           {"file", X->fileId(V->getLocation())},
                                           {"line", X->line(V->getLocation())}});
            return true;
        }
        int nfun = 0;
        json::Array mutf;
        bool VisitFieldDecl(FieldDecl* F)
        {
            if (F->isMutable() && X->inRoot(F))
                mutf.push_back(json::Object{{"n", F->getQualifiedNameAsString()},
                                            {"file", X->fileId(F->getLocation())},
                                            {"line", X->line(F->getLocation())}});
            return true;
        }
        bool VisitFunctionDecl(FunctionDecl* F)
        {
            if (!F->isThisDeclarationADefinition() || !X->inRoot(F)) return true;
            ++nfun;
            if (F->isDependentContext() || F->isTemplated()) return true;
            if (F->getTemplateSpecializationKind() == TSK_ImplicitInstantiation) return true;
            if (F->isInlined() || F->isDeleted() || F->isDefaulted()) return true;
            if (!F->hasExternalFormalLinkage()) return true;
            odr.push_back(json::Object{{"n", F->getQualifiedNameAsString()}, {"what", "function"},
                                       {"file", X->fileId(F->getLocation())},
                                       {"line", X->line(F->getLocation())}});
            return true;
        }
        bool VisitFunctionTemplateDecl(FunctionTemplateDecl* D)
        {
            if (!D->isThisDeclarationADefinition()) return true;
            if (!X->inRoot(D->getTemplatedDecl())) return true;
            int n = 0;
            json::Array ids;
            for (auto* S : D->specializations()) {
                if (S->hasBody()) ++n;
                auto it = X->fnIds.end();
                const FunctionDecl* Def = nullptr;
                if (S->hasBody(Def) && Def) it = X->fnIds.find(Def);
                if (it != X->fnIds.end()) ids.push_back(it->second);
            }
            out.push_back(json::Object{
                {"n", D->getQualifiedNameAsString()},
                {"file", X->fileId(D->getLocation())},
                {"line", X->line(D->getLocation())},
                {"np", (int)D->getTemplatedDecl()->getNumParams()},
                {"inst", n},
                {"ids", std::move(ids)}});
            return true;
        }
    };

    void run()
    {
        // roots: functions defined in the main file
        struct R : RecursiveASTVisitor<R> {
            Exporter* X;
            bool VisitFunctionDecl(FunctionDecl* F)
            {
                if (F->isThisDeclarationADefinition() && !F->isTemplated() &&
                    X->isMain(F))
                    X->fid(F);
                return true;
            }
        } r;
        r.X = this;
        r.TraverseDecl(Ctx.getTranslationUnitDecl());
        while (!work.empty()) {
            const FunctionDecl* F = work.front();
            work.pop_front();
            exportFn(F, fnIds[F]);
        }
        Inv inv;
        inv.X = this;
        inv.TraverseDecl(Ctx.getTranslationUnitDecl());
        while (!work.empty()) {
            const FunctionDecl* F = work.front();
            work.pop_front();
            exportFn(F, fnIds[F]);
        }
        std::error_code EC;
        llvm::raw_fd_ostream os(OutFile, EC);
        json::Object top;
        top["fns"] = std::move(fns);
        top["types"] = std::move(types);
        top["files"] = std::move(files);
        top["lambdas"] = std::move(lambdas);
        top["globals"] = std::move(globals);
        top["templates"] = std::move(inv.out);
        top["odr"] = std::move(inv.odr);
        top["gvars"] = std::move(inv.gvars);
        top["mutfields"] = std::move(inv.mutf);
        top["nfundef"] = inv.nfun;
        os << json::Value(std::move(top));
    }
};

struct Consumer : ASTConsumer {
    CompilerInstance& CI;
    Consumer(CompilerInstance& c) : CI(c) {}
    void HandleTranslationUnit(ASTContext& C) override
    {
        if (CI.getDiagnostics().hasErrorOccurred()) return;
        Exporter E(C);
        E.run();
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI,
                                                   llvm::StringRef) override
    {
        return std::make_unique<Consumer>(CI);
    }
};
}  // namespace

int main(int argc, char** argv)
{
    // usage: exporter --root DIR ... --out FILE driver.cpp -- flags
    std::vector<std::string> flags;
    std::string src;
    int i = 1;
    for (; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--root") Roots.push_back(argv[++i]);
        else if (a == "--main") MainRoots.push_back(argv[++i]);
        else if (a == "--out") OutFile = argv[++i];
        else if (a == "--") { ++i; break; }
        else src = a;
    }
    for (; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool Tool(DB, {src});
    int rc = Tool.run(tooling::newFrontendActionFactory<Action>().get());
    return rc;
}
