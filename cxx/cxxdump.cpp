// cxxdump: parses C++ translation units with clang and writes, for every
// function defined in files below a root directory, the resolved syntax tree
// and the control flow graph as JSON (one file per translation unit).
//
// usage: cxxdump ROOT OUT.json SOURCE -- compiler flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::OStream;

static std::string Root, OutPath;

namespace {
struct Dumper {
    ASTContext &Ctx;
    SourceManager &SM;
    OStream &J;
    PrintingPolicy PP;
    std::map<const Stmt *, int> Ids;
    int NextId = 0;
    std::map<const Decl *, int> DeclIds;
    std::vector<const LambdaExpr *> Lambdas;
    std::string CurFn;

    Dumper(ASTContext &C, OStream &J)
            : Ctx(C), SM(C.getSourceManager()), J(J), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.Bool = true;
    }

    std::string file(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        auto F = SM.getFileEntryRefForID(SM.getFileID(L));
        if (!F)
            return "";
        llvm::SmallString<256> Real;
        llvm::sys::fs::real_path(F->getName(), Real);
        return std::string(Real.str());
    }
    unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
    bool inRoot(SourceLocation L) {
        if (L.isInvalid())
            return false;
        return llvm::StringRef(file(L)).starts_with(Root);
    }
    std::string ty(QualType T) {
        if (T.isNull())
            return "";
        return T.getCanonicalType().getAsString(PP);
    }
    int did(const Decl *D) {
        D = D->getCanonicalDecl();
        auto It = DeclIds.find(D);
        if (It != DeclIds.end())
            return It->second;
        int N = DeclIds.size() + 1;
        DeclIds[D] = N;
        return N;
    }
    std::string qname(const NamedDecl *D) {
        std::string S;
        llvm::raw_string_ostream OS(S);
        PrintingPolicy P2 = PP;
        P2.SuppressUnwrittenScope = true;
        D->printQualifiedName(OS, P2);
        return OS.str();
    }
    std::string fkey(const FunctionDecl *F) {
        if (auto *P = F->getTemplateInstantiationPattern())
            F = P;
        std::string S = qname(F) + "(";
        bool First = true;
        for (auto *P : F->parameters()) {
            if (!First)
                S += ",";
            First = false;
            S += ty(P->getType());
        }
        S += ")";
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
            if (M->isConst())
                S += " const";
        return S;
    }

    static const Stmt *skip(const Stmt *S) {
        while (S) {
            if (auto *E = dyn_cast<ImplicitCastExpr>(S))
                S = E->getSubExpr();
            else if (auto *E = dyn_cast<FullExpr>(S))
                S = E->getSubExpr();
            else if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S))
                S = E->getSubExpr();
            else if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S))
                S = E->getSubExpr();
            else if (auto *E = dyn_cast<ParenExpr>(S))
                S = E->getSubExpr();
            else if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S))
                S = E->getReplacement();
            else
                break;
        }
        return S;
    }
    int sid(const Stmt *S) {
        S = skip(S);
        auto It = Ids.find(S);
        if (It != Ids.end())
            return It->second;
        return Ids[S] = ++NextId;
    }

    void declRef(const ValueDecl *D) {
        J.attribute("n", D->getNameAsString());
        J.attribute("d", did(D));
        if (auto *F = dyn_cast<FunctionDecl>(D)) {
            J.attribute("dk", "func");
            J.attribute("q", qname(F));
        } else if (isa<ParmVarDecl>(D)) {
            J.attribute("dk", "param");
        } else if (auto *V = dyn_cast<VarDecl>(D)) {
            J.attribute("dk", V->hasGlobalStorage() ? "global" : "var");
            if (V->hasGlobalStorage())
                J.attribute("q", qname(V));
        } else if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
            J.attribute("dk", "enum");
            J.attribute("q", qname(E));
            J.attribute("v", E->getInitVal().getExtValue());
        } else if (isa<FieldDecl>(D)) {
            J.attribute("dk", "field");
            J.attribute("q", qname(D));
        } else {
            J.attribute("dk", D->getDeclKindName());
        }
    }

    void callee(const FunctionDecl *F, bool qualified = false) {
        J.attribute("callee", qname(F));
        J.attribute("fkey", fkey(F));
        J.attribute("inrepo", inRoot(F->getLocation()));
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
            if (M->isVirtual() && !qualified)
                J.attribute("virt", true);
        if (auto *TA = F->getTemplateSpecializationArgs()) {
            J.attributeArray("targs", [&] {
                for (auto &A : TA->asArray()) {
                    if (A.getKind() == TemplateArgument::Type)
                        J.value(ty(A.getAsType()));
                    else if (A.getKind() == TemplateArgument::Pack) {
                        for (auto &B : A.pack_elements())
                            if (B.getKind() == TemplateArgument::Type)
                                J.value(ty(B.getAsType()));
                    }
                }
            });
        }
        J.attributeArray("pn", [&] {
            for (auto *P : F->parameters())
                J.value(P->getNameAsString());
        });
    }

    void varDecl(const VarDecl *V) {
        J.object([&] {
            J.attribute("k", "VarDecl");
            J.attribute("i", ++NextId);
            J.attribute("l", line(V->getLocation()));
            J.attribute("n", V->getNameAsString());
            J.attribute("d", did(V));
            J.attribute("t", ty(V->getType()));
            if (V->isStaticLocal())
                J.attribute("static", true);
            J.attributeArray("c", [&] {
                if (V->getInit())
                    stmt(V->getInit());
            });
        });
    }

    void stmt(const Stmt *S) {
        S = skip(S);
        if (!S) {
            J.object([&] {
                J.attribute("k", "Null");
                J.attribute("i", ++NextId);
                J.attribute("l", 0);
                J.attributeArray("c", [] {});
            });
            return;
        }
        J.object([&] {
            J.attribute("k", S->getStmtClassName());
            J.attribute("i", sid(S));
            J.attribute("l", line(S->getBeginLoc()));
            if (auto *E = dyn_cast<Expr>(S))
                J.attribute("t", ty(E->getType()));
            if (auto *E = dyn_cast<DeclRefExpr>(S))
                declRef(E->getDecl());
            else if (auto *E = dyn_cast<MemberExpr>(S)) {
                declRef(E->getMemberDecl());
                if (E->isArrow())
                    J.attribute("arrow", true);
            } else if (auto *E = dyn_cast<BinaryOperator>(S))
                J.attribute("op", E->getOpcodeStr());
            else if (auto *E = dyn_cast<UnaryOperator>(S)) {
                J.attribute("op",
                            UnaryOperator::getOpcodeStr(E->getOpcode()));
                if (E->isPostfix())
                    J.attribute("postfix", true);
            } else if (auto *E = dyn_cast<IntegerLiteral>(S))
                J.attribute("v", llvm::toString(E->getValue(), 10, false));
            else if (auto *E = dyn_cast<CharacterLiteral>(S))
                J.attribute("v", (int64_t)E->getValue());
            else if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S))
                J.attribute("v", E->getValue());
            else if (auto *E = dyn_cast<StringLiteral>(S)) {
                if (E->getCharByteWidth() == 1)
                    J.attribute("v", llvm::json::fixUTF8(E->getString()));
            } else if (auto *E = dyn_cast<CallExpr>(S)) {
                if (auto *F = E->getDirectCallee()) {
                    auto *ME = dyn_cast<MemberExpr>(
                            E->getCallee()->IgnoreParenImpCasts());
                    callee(F, ME && ME->hasQualifier());
                }
                if (auto *O = dyn_cast<CXXOperatorCallExpr>(S))
                    J.attribute("oop", getOperatorSpelling(O->getOperator()));
            } else if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
                callee(E->getConstructor());
                J.attribute("nargs", E->getNumArgs());
                if (E->getConstructor()->isCopyOrMoveConstructor())
                    J.attribute("copy", true);
            } else if (auto *E = dyn_cast<CXXNewExpr>(S)) {
                J.attribute("at", ty(E->getAllocatedType()));
                if (E->isArray())
                    J.attribute("array", true);
            } else if (auto *E = dyn_cast<CXXDeleteExpr>(S)) {
                if (E->isArrayForm())
                    J.attribute("array", true);
            } else if (auto *E = dyn_cast<ExplicitCastExpr>(S))
                J.attribute("to", ty(E->getTypeAsWritten()));
            else if (auto *E = dyn_cast<CXXDependentScopeMemberExpr>(S))
                J.attribute("n", E->getMember().getAsString());
            else if (auto *E = dyn_cast<OverloadExpr>(S))
                J.attribute("n", E->getName().getAsString());
            else if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
                if (E->isArgumentType())
                    J.attribute("at", ty(E->getArgumentType()));
            }

            if (auto *D = dyn_cast<DeclStmt>(S)) {
                J.attributeArray("c", [&] {
                    for (auto *X : D->decls())
                        if (auto *V = dyn_cast<VarDecl>(X))
                            varDecl(V);
                });
                return;
            }
            if (auto *I = dyn_cast<IfStmt>(S)) {
                J.attributeArray("c", [&] {
                    if (I->getInit())
                        stmt(I->getInit());
                    if (I->getConditionVariableDeclStmt())
                        stmt(I->getConditionVariableDeclStmt());
                    stmt(I->getCond());
                    stmt(I->getThen());
                    if (I->getElse())
                        stmt(I->getElse());
                });
                J.attribute("cond", sid(I->getCond()));
                J.attribute("then", sid(I->getThen()));
                if (I->getElse())
                    J.attribute("else", sid(I->getElse()));
                return;
            }
            if (auto *W = dyn_cast<WhileStmt>(S)) {
                J.attributeArray("c", [&] {
                    if (W->getConditionVariableDeclStmt())
                        stmt(W->getConditionVariableDeclStmt());
                    stmt(W->getCond());
                    stmt(W->getBody());
                });
                J.attribute("cond", sid(W->getCond()));
                J.attribute("body", sid(W->getBody()));
                return;
            }
            if (auto *R = dyn_cast<CXXForRangeStmt>(S)) {
                J.attributeArray("c", [&] {
                    varDecl(R->getLoopVariable());
                    stmt(R->getRangeInit());
                    stmt(R->getBody());
                });
                J.attribute("var", did(R->getLoopVariable()));
                J.attribute("range", sid(R->getRangeInit()));
                J.attribute("body", sid(R->getBody()));
                return;
            }
            if (auto *F = dyn_cast<ForStmt>(S)) {
                J.attributeArray("c", [&] {
                    if (F->getInit())
                        stmt(F->getInit());
                    if (F->getCond())
                        stmt(F->getCond());
                    if (F->getInc())
                        stmt(F->getInc());
                    stmt(F->getBody());
                });
                if (F->getCond())
                    J.attribute("cond", sid(F->getCond()));
                J.attribute("body", sid(F->getBody()));
                return;
            }
            if (auto *L = dyn_cast<LambdaExpr>(S)) {
                J.attribute("lam", fkeyLambda(L));
                J.attributeArray("caps", [&] {
                    for (auto &C : L->captures())
                        if (C.capturesVariable())
                            J.value(did(C.getCapturedVar()));
                });
                Lambdas.push_back(L);
                J.attributeArray("c", [] {});
                return;
            }
            if (auto *C = dyn_cast<CaseStmt>(S)) {
                J.attributeArray("c", [&] {
                    stmt(C->getLHS());
                    stmt(C->getSubStmt());
                });
                return;
            }
            if (auto *T = dyn_cast<CXXCatchStmt>(S)) {
                if (T->getExceptionDecl())
                    J.attribute("ct", ty(T->getCaughtType()));
                J.attributeArray("c", [&] { stmt(T->getHandlerBlock()); });
                return;
            }
            if (auto *D = dyn_cast<CXXDefaultArgExpr>(S)) {
                J.attributeArray("c", [&] { stmt(D->getExpr()); });
                return;
            }
            if (auto *D = dyn_cast<CXXDefaultInitExpr>(S)) {
                J.attributeArray("c", [&] { stmt(D->getExpr()); });
                return;
            }
            J.attributeArray("c", [&] {
                for (auto *C : S->children())
                    if (C)
                        stmt(C);
            });
        });
    }

    std::string fkeyLambda(const LambdaExpr *L) {
        return CurFn + "::lambda@" + std::to_string(line(L->getBeginLoc()))
               + ":" + std::to_string(SM.getExpansionColumnNumber(L->getBeginLoc()));
    }

    void cfg(const Decl *D, Stmt *Body) {
        CFG::BuildOptions BO;
        BO.setAllAlwaysAdd();
        BO.AddImplicitDtors = false;
        BO.AddInitializers = true;
        auto G = CFG::buildCFG(D, Body, &Ctx, BO);
        if (!G) {
            J.attribute("nocfg", true);
            return;
        }
        J.attributeObject("cfg", [&] {
            J.attribute("entry", G->getEntry().getBlockID());
            J.attribute("exit", G->getExit().getBlockID());
            J.attributeArray("blocks", [&] {
                for (auto *B : *G) {
                    J.object([&] {
                        J.attribute("b", B->getBlockID());
                        J.attributeArray("e", [&] {
                            for (auto &E : *B) {
                                if (auto S = E.getAs<CFGStmt>()) {
                                    if (skip(S->getStmt()) == S->getStmt())
                                        J.value(sid(S->getStmt()));
                                }
                            }
                        });
                        if (B->hasNoReturnElement())
                            J.attribute("noreturn", true);
                        if (auto *T = B->getTerminatorStmt()) {
                            J.attribute("t", sid(T));
                            J.attribute("tk", T->getStmtClassName());
                            if (auto *C = B->getLastCondition())
                                J.attribute("cond", sid(C));
                        }
                        if (auto *L = B->getLabel())
                            J.attribute("label", sid(L));
                        J.attributeArray("s", [&] {
                            for (auto &S : B->succs()) {
                                if (auto *R = S.getReachableBlock())
                                    J.value(R->getBlockID());
                                else
                                    J.value(nullptr);
                            }
                        });
                    });
                }
            });
        });
    }

    void params(const FunctionDecl *F) {
        J.attributeArray("params", [&] {
            for (auto *P : F->parameters())
                J.object([&] {
                    J.attribute("n", P->getNameAsString());
                    J.attribute("t", ty(P->getType()));
                    J.attribute("d", did(P));
                });
        });
    }

    void function(const FunctionDecl *F) {
        Ids.clear();
        NextId = 0;
        CurFn = fkey(F);
        J.object([&] {
            J.attribute("q", qname(F));
            J.attribute("key", CurFn);
            J.attribute("n", F->getNameAsString());
            J.attribute("file", file(F->getLocation()));
            J.attribute("line", line(F->getLocation()));
            J.attribute("end", line(F->getEndLoc()));
            J.attribute("ret", ty(F->getReturnType()));
            if (F->isTemplated() || F->isTemplateInstantiation())
                J.attribute("templ", true);
            if (F->isDependentContext())
                J.attribute("dependent", true);
            params(F);
            if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
                J.attribute("cls", qname(M->getParent()));
                if (M->isStatic())
                    J.attribute("static", true);
                if (M->isVirtual())
                    J.attribute("virt", true);
                J.attributeArray("overrides", [&] {
                    for (auto *O : M->overridden_methods())
                        J.value(fkey(O));
                });
            }
            if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
                J.attribute("ctor", true);
                J.attributeArray("inits", [&] {
                    for (auto *I : C->inits())
                        J.object([&] {
                            if (I->isAnyMemberInitializer())
                                J.attribute("field",
                                            I->getAnyMember()->getNameAsString());
                            else if (I->isBaseInitializer())
                                J.attribute("base",
                                            ty(QualType(I->getBaseClass(), 0)));
                            else
                                J.attribute("deleg", true);
                            J.attribute("written", I->isWritten());
                            J.attributeBegin("e");
                            stmt(I->getInit());
                            J.attributeEnd();
                        });
                });
            }
            if (isa<CXXDestructorDecl>(F))
                J.attribute("dtor", true);
            J.attributeBegin("body");
            stmt(F->getBody());
            J.attributeEnd();
            if (!F->isDependentContext())
                cfg(F, F->getBody());
        });
        std::string Outer = CurFn;
        std::string OuterQ = qname(F);
        while (!Lambdas.empty()) {
            auto *L = Lambdas.back();
            Lambdas.pop_back();
            Ids.clear();
            NextId = 0;
            CurFn = Outer;
            const CXXMethodDecl *M = L->getCallOperator();
            Stmt *Body = L->getBody();
            // of a generic lambda, take an instantiation
            if (auto *T = L->getDependentCallOperator())
                for (auto *Spec : T->specializations())
                    if (Spec->getBody()) {
                        M = cast<CXXMethodDecl>(Spec);
                        Body = Spec->getBody();
                        break;
                    }
            std::string K = fkeyLambda(L);
            J.object([&] {
                J.attribute("q", OuterQ + "::lambda");
                J.attribute("key", K);
                J.attribute("n", "lambda");
                J.attribute("lambda", true);
                J.attribute("parent", Outer);
                J.attribute("file", file(L->getBeginLoc()));
                J.attribute("line", line(L->getBeginLoc()));
                J.attribute("end", line(L->getEndLoc()));
                J.attribute("ret", ty(M->getReturnType()));
                params(M);
                J.attributeBegin("body");
                stmt(Body);
                J.attributeEnd();
                if (!M->isDependentContext())
                    cfg(M, Body);
            });
        }
    }
};

struct Collect : RecursiveASTVisitor<Collect> {
    Dumper &D;
    std::vector<const FunctionDecl *> Fns;
    std::vector<const CXXRecordDecl *> Recs;
    std::vector<const EnumDecl *> Enums;
    std::vector<const VarDecl *> Globals;
    std::set<std::string> Seen;
    Collect(Dumper &D) : D(D) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool TraverseDecl(Decl *X) {
        // prune everything outside the root early
        if (X && !isa<TranslationUnitDecl>(X) && !isa<NamespaceDecl>(X)
            && !isa<LinkageSpecDecl>(X) && !D.inRoot(X->getLocation()))
            return true;
        return RecursiveASTVisitor::TraverseDecl(X);
    }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (F->isThisDeclarationADefinition() && F->hasBody()
            && !F->isImplicit() && !F->isDefaulted()) {
            if (auto *M = dyn_cast<CXXMethodDecl>(F))
                if (M->getParent()->isLambda())
                    return true;
            Fns.push_back(F);
        }
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (R->isThisDeclarationADefinition() && !R->isLambda())
            Recs.push_back(R);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E) {
        Enums.push_back(E);
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        if (V->hasGlobalStorage() && !V->isStaticLocal()
            && !isa<ParmVarDecl>(V))
            Globals.push_back(V);
        return true;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext &Ctx) override {
        std::error_code EC;
        llvm::raw_fd_ostream OS(OutPath, EC);
        OStream J(OS);
        Dumper D(Ctx, J);
        Collect C(D);
        C.TraverseDecl(Ctx.getTranslationUnitDecl());
        J.object([&] {
            J.attribute("errors",
                        (int64_t)Ctx.getDiagnostics().getClient()->getNumErrors());
            J.attributeArray("functions", [&] {
                for (auto *F : C.Fns)
                    D.function(F);
            });
            J.attributeArray("records", [&] {
                for (auto *R : C.Recs)
                    J.object([&] {
                        J.attribute("q", D.qname(R));
                        J.attribute("file", D.file(R->getLocation()));
                        J.attribute("line", D.line(R->getLocation()));
                        J.attributeArray("bases", [&] {
                            for (auto &B : R->bases())
                                J.value(D.ty(B.getType()));
                        });
                        J.attributeArray("fields", [&] {
                            for (auto *F : R->fields())
                                J.object([&] {
                                    J.attribute("n", F->getNameAsString());
                                    J.attribute("t", D.ty(F->getType()));
                                    J.attribute("l", D.line(F->getLocation()));
                                    if (F->hasInClassInitializer()
                                        && F->getInClassInitializer()) {
                                        D.Ids.clear();
                                        D.NextId = 0;
                                        J.attributeBegin("init");
                                        D.stmt(F->getInClassInitializer());
                                        J.attributeEnd();
                                    }
                                });
                        });
                        J.attributeArray("methods", [&] {
                            for (auto *M : R->methods())
                                if (!M->isImplicit())
                                    J.object([&] {
                                        J.attribute("n", M->getNameAsString());
                                        J.attribute("key", D.fkey(M));
                                        J.attribute("virt", M->isVirtual());
                                        D.params(M);
                                        J.attributeArray("overrides", [&] {
                                            for (auto *O :
                                                 M->overridden_methods())
                                                J.value(D.fkey(O));
                                        });
                                    });
                        });
                    });
            });
            J.attributeArray("enums", [&] {
                for (auto *E : C.Enums)
                    J.object([&] {
                        J.attribute("q", D.qname(E));
                        J.attribute("file", D.file(E->getLocation()));
                        J.attributeArray("consts", [&] {
                            for (auto *K : E->enumerators())
                                J.array([&] {
                                    J.value(K->getNameAsString());
                                    J.value(K->getInitVal().getExtValue());
                                });
                        });
                    });
            });
            J.attributeArray("globals", [&] {
                for (auto *V : C.Globals)
                    J.object([&] {
                        J.attribute("q", D.qname(V));
                        J.attribute("t", D.ty(V->getType()));
                        J.attribute("file", D.file(V->getLocation()));
                        J.attribute("l", D.line(V->getLocation()));
                        if (V->getInit()) {
                            D.Ids.clear();
                            D.NextId = 0;
                            D.CurFn = "global " + D.qname(V);
                            J.attributeBegin("init");
                            D.stmt(V->getInit());
                            J.attributeEnd();
                            D.Lambdas.clear();
                        }
                    });
            });
        });
        OS << "\n";
    }
};

struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &,
                                                   StringRef) override {
        return std::make_unique<Consumer>();
    }
};
} // namespace

int main(int argc, char **argv) {
    if (argc < 5)
        return 2;
    Root = argv[1];
    OutPath = argv[2];
    std::string Src = argv[3];
    std::vector<std::string> Flags;
    for (int i = 5; i < argc; i++)
        Flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", Flags);
    tooling::ClangTool Tool(DB, {Src});
    return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
