// Fact extractor: parses C++ translation units with clang and dumps, for every function and record that is defined below
// the given root directory, one JSON object per line (type-checked, with resolved references).
//
// usage: extract ROOT OUT FILES... -- CLANG-ARGS...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Comment.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string rootDir;
static llvm::raw_ostream* out;
static std::set<std::string> seenFunctions, seenRecords, seenEnums, seenVars;
static std::set<std::string> filesSeen;
static unsigned numErrors = 0;

namespace {

    class Dumper : public RecursiveASTVisitor<Dumper> {
        private:
            ASTContext& ctx_;
            SourceManager& sm_;
            ASTNameGenerator names_;
            PrintingPolicy policy_;
            std::map<const Decl*, int> localIds_;

            int localId(const Decl* d) {
                d = d->getCanonicalDecl();
                auto it = localIds_.find(d);
                if (it != localIds_.end()) return it->second;
                int id = localIds_.size() + 1;
                localIds_[d] = id;
                return id;
            }

            std::string fileOf(SourceLocation loc) {
                loc = sm_.getExpansionLoc(loc);
                if (loc.isInvalid()) return "";
                auto fe = sm_.getFileEntryRefForID(sm_.getFileID(loc));
                if (!fe) return "";
                std::string p = fe->getFileEntry().tryGetRealPathName().str();
                return p;
            }

            std::string rel(const std::string& p) {
                if (p.rfind(rootDir, 0) == 0) return p.substr(rootDir.size());
                return "";
            }

            unsigned lineOf(SourceLocation loc) {
                return loc.isInvalid() ? 0 : sm_.getExpansionLineNumber(loc);
            }

            std::string typeStr(QualType t) {
                if (t.isNull()) return "";
                return t.getCanonicalType().getAsString(policy_);
            }

            std::string qn(const NamedDecl* d) {
                std::string s;
                llvm::raw_string_ostream os(s);
                d->getNameForDiagnostic(os, policy_, true);
                return os.str();
            }

            // qualified name without template arguments
            std::string pn(const NamedDecl* d) {
                std::vector<std::string> parts;
                parts.push_back(d->getNameAsString());
                const DeclContext* dc = d->getDeclContext();
                while (dc && !dc->isTranslationUnit()) {
                    if (auto* nd = dyn_cast<NamedDecl>(dc)) {
                        if (!nd->getNameAsString().empty()
                            && !(isa<NamespaceDecl>(nd) && cast<NamespaceDecl>(nd)->isInline()))
                            parts.push_back(nd->getNameAsString());
                        else if (isa<CXXRecordDecl>(nd) && cast<CXXRecordDecl>(nd)->isLambda())
                            parts.push_back("(lambda)");
                    }
                    dc = dc->getParent();
                }
                std::string s;
                for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
                    if (!s.empty()) s += "::";
                    s += *it;
                }
                return s;
            }

            std::string fid(const FunctionDecl* d) {
                std::string s;
                if (!d->isDependentContext()) s = names_.getName(d);
                if (s.empty()) s = qn(d) + "|" + typeStr(d->getType());
                if (!d->isExternallyVisible()) {
                    std::string f = rel(fileOf(d->getLocation()));
                    if (!f.empty()) s += "@" + f;
                }
                if (isa<CXXConstructorDecl>(d) || isa<CXXDestructorDecl>(d)) s = "C:" + s;
                return s;
            }

            void common(json::Object& o, const Stmt* s) {
                o["l"] = lineOf(s->getBeginLoc());
            }

            const CXXConstructExpr* findCtor(const Stmt* s) {
                if (!s) return nullptr;
                if (auto* n = dyn_cast<CXXNewExpr>(s)) return n->getConstructExpr();
                for (const Stmt* c : s->children())
                    if (auto* r = findCtor(c)) return r;
                return nullptr;
            }

            json::Value exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
                json::Array a;
                for (const Expr* e : r) a.push_back(expr(e));
                return a;
            }

            const Expr* strip(const Expr* e) {
                while (e) {
                    if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
                    else if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
                    else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
                    else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
                    else if (auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
                    else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
                    else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
                    else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
                    else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
                    else if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (!x->getSourceExpr()) return e; e = x->getSourceExpr(); }
                    else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
                        CastKind ck = x->getCastKind();
                        if (ck == CK_IntegralCast || ck == CK_FloatingCast || ck == CK_FloatingToIntegral
                            || ck == CK_IntegralToFloating || ck == CK_IntegralToBoolean || ck == CK_FloatingToBoolean
                            || ck == CK_PointerToBoolean)
                            return e;
                        e = x->getSubExpr();
                    } else break;
                }
                return e;
            }

            json::Value ref(const ValueDecl* d, const Expr* e) {
                json::Object o;
                common(o, e);
                o["k"] = "ref";
                o["n"] = d->getNameAsString();
                o["t"] = typeStr(d->getType());
                if (auto* p = dyn_cast<ParmVarDecl>(d)) {
                    o["dk"] = "param";
                    o["id"] = localId(p);
                } else if (auto* v = dyn_cast<VarDecl>(d)) {
                    if (v->isLocalVarDecl()) {
                        o["dk"] = v->isStaticLocal() ? "staticlocal" : "var";
                        o["id"] = localId(v);
                    } else {
                        o["dk"] = "global";
                        o["qn"] = pn(v);
                        o["const"] = v->getType().isConstQualified();
                        if (!v->getType()->isDependentType() && v->getType().isConstQualified()
                            && v->getType()->isArithmeticType() && v->getAnyInitializer()
                            && !v->getAnyInitializer()->isValueDependent()) {
                            Expr::EvalResult er;
                            if (!rel(fileOf(v->getLocation())).empty()
                                && v->getAnyInitializer()->EvaluateAsRValue(er, ctx_) && !er.HasSideEffects) {
                                std::string s;
                                llvm::raw_string_ostream os(s);
                                er.Val.printPretty(os, ctx_, v->getType());
                                o["val"] = os.str();
                            }
                        }
                    }
                } else if (auto* f = dyn_cast<FunctionDecl>(d)) {
                    o["dk"] = "fn";
                    o["fid"] = fid(f);
                    o["qn"] = pn(f);
                } else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                    o["dk"] = "enum";
                    o["qn"] = pn(ec);
                    o["v"] = (int64_t) ec->getInitVal().getExtValue();
                } else if (auto* b = dyn_cast<BindingDecl>(d)) {
                    o["dk"] = "var";
                    o["id"] = localId(b);
                } else {
                    o["dk"] = "other";
                    o["qn"] = pn(d);
                }
                return o;
            }

            void callee(json::Object& o, const FunctionDecl* f) {
                o["fn"] = pn(f);
                o["fid"] = fid(f);
                std::string file = rel(fileOf(f->getLocation()));
                o["in"] = !file.empty();
                json::Array pns;
                for (auto* p : f->parameters()) pns.push_back(p->getNameAsString());
                o["pn"] = std::move(pns);
                json::Array pts;
                for (auto* p : f->parameters()) pts.push_back(typeStr(p->getType()));
                o["pt"] = std::move(pts);
                if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
                    o["virt"] = m->isVirtual();
                    o["cm"] = m->isConst();
                    o["st"] = m->isStatic();
                    o["cls"] = qn(m->getParent());
                }
                if (const auto* fpt = f->getType()->getAs<FunctionProtoType>())
                    if (isNoexceptExceptionSpec(fpt->getExceptionSpecType()) && fpt->canThrow() == CT_Cannot)
                        o["nx"] = true;
            }

        public:
            json::Value expr(const Expr* e0) {
                const Expr* e = strip(e0);
                json::Object o;
                if (!e) return nullptr;
                common(o, e);
                if (auto* x = dyn_cast<IntegerLiteral>(e)) {
                    o["k"] = "lit";
                    llvm::SmallString<32> s;
                    x->getValue().toString(s, 10, false);
                    o["v"] = std::string(s.str());
                    o["t"] = typeStr(x->getType());
                } else if (auto* x = dyn_cast<FloatingLiteral>(e)) {
                    o["k"] = "lit";
                    llvm::SmallString<32> s;
                    x->getValue().toString(s);
                    o["v"] = std::string(s.str());
                    o["t"] = typeStr(x->getType());
                } else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
                    o["k"] = "lit";
                    o["v"] = x->getValue() ? "true" : "false";
                    o["t"] = "bool";
                } else if (auto* x = dyn_cast<CharacterLiteral>(e)) {
                    o["k"] = "lit";
                    o["v"] = std::to_string(x->getValue());
                    o["t"] = "char";
                } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
                    o["k"] = "lit";
                    o["v"] = "nullptr";
                    o["t"] = "nullptr";
                } else if (auto* x = dyn_cast<StringLiteral>(e)) {
                    o["k"] = "str";
                    o["v"] = json::fixUTF8(x->getBytes());
                } else if (auto* x = dyn_cast<DeclRefExpr>(e)) {
                    return ref(x->getDecl(), e);
                } else if (auto* x = dyn_cast<MemberExpr>(e)) {
                    const ValueDecl* d = x->getMemberDecl();
                    if (auto* v = dyn_cast<VarDecl>(d)) return ref(v, e);
                    if (auto* v = dyn_cast<EnumConstantDecl>(d)) return ref(v, e);
                    o["k"] = "mem";
                    o["n"] = d->getNameAsString();
                    o["qn"] = pn(d);
                    o["t"] = typeStr(d->getType());
                    o["b"] = expr(x->getBase());
                    o["ar"] = x->isArrow();
                    if (auto* f = dyn_cast<FunctionDecl>(d)) { o["fid"] = fid(f); }
                    if (auto* f = dyn_cast<FieldDecl>(d)) o["cls"] = qn(f->getParent());
                } else if (isa<CXXThisExpr>(e)) {
                    o["k"] = "this";
                    o["t"] = typeStr(e->getType());
                } else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
                    o["k"] = "call";
                    o["op"] = getOperatorSpelling(x->getOperator());
                    const FunctionDecl* f = x->getDirectCallee();
                    if (f) {
                        callee(o, f);
                        if (isa<CXXMethodDecl>(f) && x->getNumArgs() > 0) {
                            o["obj"] = expr(x->getArg(0));
                            json::Array a;
                            for (unsigned i = 1; i < x->getNumArgs(); i++) a.push_back(expr(x->getArg(i)));
                            o["args"] = std::move(a);
                        } else o["args"] = exprs(x->arguments());
                    } else {
                        o["dep"] = true;
                        o["args"] = exprs(x->arguments());
                    }
                    o["t"] = typeStr(x->getType());
                } else if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
                    o["k"] = "call";
                    if (const CXXMethodDecl* f = x->getMethodDecl()) {
                        callee(o, f);
                        if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts()))
                            if (me->hasQualifier()) o["virt"] = false;
                        o["obj"] = expr(x->getImplicitObjectArgument());
                    } else o["callee"] = expr(x->getCallee());
                    o["args"] = exprs(x->arguments());
                    o["t"] = typeStr(x->getType());
                } else if (auto* x = dyn_cast<CallExpr>(e)) {
                    o["k"] = "call";
                    if (const FunctionDecl* f = x->getDirectCallee()) {
                        callee(o, f);
                        std::string fname = f->getNameAsString();
                        if (fname == "make_unique" && f->isInStdNamespace()) {
                            const CXXConstructExpr* c = nullptr;
                            const FunctionDecl* def = nullptr;
                            if (f->hasBody(def) && def) c = findCtor(def->getBody());
                            if (c) {
                                json::Object mk;
                                callee(mk, c->getConstructor());
                                mk["cls"] = qn(c->getConstructor()->getParent());
                                mk["pcls"] = pn(c->getConstructor()->getParent());
                                o["mk"] = std::move(mk);
                            }
                        }
                    } else o["callee"] = expr(x->getCallee());
                    o["args"] = exprs(x->arguments());
                    o["t"] = typeStr(x->getType());
                } else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
                    o["k"] = "ctor";
                    const CXXConstructorDecl* c = x->getConstructor();
                    o["cls"] = qn(c->getParent());
                    o["pcls"] = pn(c->getParent());
                    callee(o, c);
                    if (c->isCopyConstructor()) o["copy"] = true;
                    if (c->isMoveConstructor()) o["move"] = true;
                    json::Array a;
                    for (const Expr* arg : x->arguments()) a.push_back(expr(arg));
                    o["args"] = std::move(a);
                    o["t"] = typeStr(x->getType());
                } else if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
                    o["k"] = "ctor";
                    o["cls"] = qn(x->getConstructor()->getParent());
                    o["pcls"] = pn(x->getConstructor()->getParent());
                    callee(o, x->getConstructor());
                    o["inh"] = true;
                    o["args"] = json::Array();
                } else if (auto* x = dyn_cast<CXXUnresolvedConstructExpr>(e)) {
                    o["k"] = "ctor";
                    o["dep"] = true;
                    o["t"] = typeStr(x->getTypeAsWritten());
                    json::Array a;
                    for (unsigned i = 0; i < x->getNumArgs(); i++) a.push_back(expr(x->getArg(i)));
                    o["args"] = std::move(a);
                } else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
                    o["k"] = "new";
                    o["t"] = typeStr(x->getAllocatedType());
                    o["arr"] = x->isArray();
                    if (x->isArray() && x->getArraySize()) o["size"] = expr(*x->getArraySize());
                    if (x->getInitializer()) o["init"] = expr(x->getInitializer());
                } else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
                    o["k"] = "delete";
                    o["arr"] = x->isArrayForm();
                    o["e"] = expr(x->getArgument());
                } else if (auto* x = dyn_cast<BinaryOperator>(e)) {
                    o["k"] = x->isAssignmentOp() ? "assign" : "bin";
                    o["op"] = x->getOpcodeStr();
                    o["a"] = expr(x->getLHS());
                    o["b"] = expr(x->getRHS());
                    o["t"] = typeStr(x->getType());
                } else if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
                    return expr(x->getSemanticForm());
                } else if (auto* x = dyn_cast<UnaryOperator>(e)) {
                    o["k"] = "un";
                    o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode());
                    o["post"] = x->isPostfix();
                    o["e"] = expr(x->getSubExpr());
                    o["t"] = typeStr(x->getType());
                } else if (auto* x = dyn_cast<ConditionalOperator>(e)) {
                    o["k"] = "cond";
                    o["c"] = expr(x->getCond());
                    o["a"] = expr(x->getTrueExpr());
                    o["b"] = expr(x->getFalseExpr());
                } else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
                    o["k"] = "idx";
                    o["a"] = expr(x->getBase());
                    o["b"] = expr(x->getIdx());
                    o["t"] = typeStr(x->getType());
                } else if (auto* x = dyn_cast<CXXFunctionalCastExpr>(e)) {
                    const Expr* sub = strip(x->getSubExpr());
                    if (isa<CXXConstructExpr>(sub) || isa<InitListExpr>(sub)) return expr(sub);
                    o["k"] = "cast";
                    o["ck"] = "fun";
                    o["cast"] = x->getCastKindName();
                    o["t"] = typeStr(x->getType());
                    o["e"] = expr(x->getSubExpr());
                } else if (auto* x = dyn_cast<CastExpr>(e)) {
                    o["k"] = "cast";
                    o["ck"] = isa<ImplicitCastExpr>(e) ? "impl"
                              : isa<CXXConstCastExpr>(e) ? "const"
                              : isa<CXXReinterpretCastExpr>(e) ? "reinterpret"
                              : isa<CXXDynamicCastExpr>(e) ? "dynamic"
                              : isa<CXXStaticCastExpr>(e) ? "static"
                              : isa<CStyleCastExpr>(e) ? "c" : "other";
                    o["cast"] = x->getCastKindName();
                    o["t"] = typeStr(x->getType());
                    o["ft"] = typeStr(x->getSubExpr()->getType());
                    o["e"] = expr(x->getSubExpr());
                } else if (auto* x = dyn_cast<LambdaExpr>(e)) {
                    o["k"] = "lambda";
                    json::Array caps;
                    unsigned idx = 0;
                    for (const LambdaCapture& c : x->captures()) {
                        json::Object co;
                        co["byref"] = c.getCaptureKind() == LCK_ByRef;
                        co["this"] = c.capturesThis();
                        if (c.capturesVariable()) {
                            co["n"] = c.getCapturedVar()->getNameAsString();
                            co["id"] = localId(c.getCapturedVar());
                        }
                        caps.push_back(std::move(co));
                        idx++;
                    }
                    o["caps"] = std::move(caps);
                    if (auto* m = x->getCallOperator()) {
                        o["params"] = params(m);
                        o["body"] = stmt(m->getBody());
                    }
                } else if (auto* x = dyn_cast<InitListExpr>(e)) {
                    o["k"] = "init";
                    o["t"] = typeStr(x->getType());
                    json::Array a;
                    for (const Expr* c : x->inits()) a.push_back(expr(c));
                    o["args"] = std::move(a);
                } else if (isa<ImplicitValueInitExpr>(e)) {
                    o["k"] = "lit";
                    o["v"] = "0";
                    o["t"] = typeStr(e->getType());
                } else if (isa<CXXScalarValueInitExpr>(e)) {
                    o["k"] = "lit";
                    o["v"] = "0";
                    o["t"] = typeStr(e->getType());
                } else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
                    o["k"] = "sizeof";
                    o["t"] = typeStr(x->getTypeOfArgument());
                } else if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
                    o["k"] = "throw";
                    if (x->getSubExpr()) o["e"] = expr(x->getSubExpr());
                } else if (auto* x = dyn_cast<CXXDependentScopeMemberExpr>(e)) {
                    o["k"] = "dmem";
                    o["n"] = x->getMember().getAsString();
                    if (!x->isImplicitAccess()) o["b"] = expr(x->getBase());
                } else if (auto* x = dyn_cast<OverloadExpr>(e)) {
                    o["k"] = "ovl";
                    o["n"] = x->getName().getAsString();
                    if (auto* um = dyn_cast<UnresolvedMemberExpr>(x))
                        if (!um->isImplicitAccess()) o["b"] = expr(um->getBase());
                } else if (auto* x = dyn_cast<DependentScopeDeclRefExpr>(e)) {
                    o["k"] = "dref";
                    o["n"] = x->getDeclName().getAsString();
                } else if (auto* x = dyn_cast<ParenListExpr>(e)) {
                    o["k"] = "init";
                    json::Array a;
                    for (unsigned i = 0; i < x->getNumExprs(); i++) a.push_back(expr(x->getExpr(i)));
                    o["args"] = std::move(a);
                } else if (auto* x = dyn_cast<StmtExpr>(e)) {
                    o["k"] = "stmtexpr";
                    o["body"] = stmt(x->getSubStmt());
                } else {
                    o["k"] = "x";
                    o["c"] = e->getStmtClassName();
                    json::Array a;
                    for (const Stmt* c : e->children())
                        if (c) {
                            if (auto* ce = dyn_cast<Expr>(c)) a.push_back(expr(ce));
                            else a.push_back(stmt(c));
                        }
                    o["args"] = std::move(a);
                }
                return o;
            }

            json::Value varDecl(const VarDecl* v) {
                json::Object o;
                o["n"] = v->getNameAsString();
                o["id"] = localId(v);
                o["t"] = typeStr(v->getType());
                o["l"] = lineOf(v->getLocation());
                if (v->isStaticLocal()) o["static"] = true;
                if (v->hasInit()) {
                    o["init"] = expr(v->getInit());
                    o["style"] = (int) v->getInitStyle();
                } else if (!v->getType()->isDependentType() && v->getType()->isScalarType()) o["uninit"] = true;
                return o;
            }

            json::Value stmt(const Stmt* s) {
                if (!s) return nullptr;
                if (auto* e = dyn_cast<Expr>(s)) {
                    json::Object o;
                    common(o, s);
                    o["k"] = "expr";
                    o["e"] = expr(e);
                    return o;
                }
                json::Object o;
                common(o, s);
                if (auto* x = dyn_cast<CompoundStmt>(s)) {
                    o["k"] = "block";
                    json::Array a;
                    for (const Stmt* c : x->body()) a.push_back(stmt(c));
                    o["s"] = std::move(a);
                } else if (auto* x = dyn_cast<IfStmt>(s)) {
                    o["k"] = "if";
                    if (x->getInit()) o["init"] = stmt(x->getInit());
                    if (x->getConditionVariable()) o["var"] = varDecl(x->getConditionVariable());
                    o["c"] = expr(x->getCond());
                    o["a"] = stmt(x->getThen());
                    if (x->getElse()) o["b"] = stmt(x->getElse());
                    o["cx"] = x->isConstexpr();
                } else if (auto* x = dyn_cast<ForStmt>(s)) {
                    o["k"] = "for";
                    if (x->getInit()) o["init"] = stmt(x->getInit());
                    if (x->getCond()) o["c"] = expr(x->getCond());
                    if (x->getInc()) o["inc"] = expr(x->getInc());
                    o["body"] = stmt(x->getBody());
                } else if (auto* x = dyn_cast<WhileStmt>(s)) {
                    o["k"] = "while";
                    if (x->getConditionVariable()) o["var"] = varDecl(x->getConditionVariable());
                    o["c"] = expr(x->getCond());
                    o["body"] = stmt(x->getBody());
                } else if (auto* x = dyn_cast<DoStmt>(s)) {
                    o["k"] = "do";
                    o["c"] = expr(x->getCond());
                    o["body"] = stmt(x->getBody());
                } else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
                    o["k"] = "forr";
                    o["var"] = varDecl(x->getLoopVariable());
                    o["range"] = expr(x->getRangeInit());
                    o["body"] = stmt(x->getBody());
                } else if (auto* x = dyn_cast<ReturnStmt>(s)) {
                    o["k"] = "ret";
                    if (x->getRetValue()) o["e"] = expr(x->getRetValue());
                } else if (auto* x = dyn_cast<DeclStmt>(s)) {
                    o["k"] = "decl";
                    json::Array a;
                    for (const Decl* d : x->decls()) {
                        if (auto* v = dyn_cast<VarDecl>(d)) {
                            a.push_back(varDecl(v));
                            if (auto* dd = dyn_cast<DecompositionDecl>(v))
                                for (auto* b : dd->bindings()) {
                                    json::Object bo;
                                    bo["n"] = b->getNameAsString();
                                    bo["id"] = localId(b);
                                    bo["t"] = typeStr(b->getType());
                                    bo["binding"] = localId(v);
                                    a.push_back(std::move(bo));
                                }
                        }
                    }
                    o["vars"] = std::move(a);
                } else if (auto* x = dyn_cast<SwitchStmt>(s)) {
                    o["k"] = "switch";
                    o["c"] = expr(x->getCond());
                    o["body"] = stmt(x->getBody());
                    if (auto* et = x->getCond()->IgnoreParenImpCasts()->getType()->getAs<EnumType>())
                        o["enum"] = pn(et->getDecl());
                } else if (auto* x = dyn_cast<CaseStmt>(s)) {
                    o["k"] = "case";
                    o["v"] = expr(x->getLHS());
                    o["s"] = stmt(x->getSubStmt());
                } else if (auto* x = dyn_cast<DefaultStmt>(s)) {
                    o["k"] = "default";
                    o["s"] = stmt(x->getSubStmt());
                } else if (isa<BreakStmt>(s)) o["k"] = "break";
                else if (isa<ContinueStmt>(s)) o["k"] = "continue";
                else if (isa<NullStmt>(s)) o["k"] = "null";
                else if (auto* x = dyn_cast<CXXTryStmt>(s)) {
                    o["k"] = "try";
                    o["body"] = stmt(x->getTryBlock());
                    json::Array a;
                    for (unsigned i = 0; i < x->getNumHandlers(); i++) {
                        json::Object h;
                        h["t"] = x->getHandler(i)->getExceptionDecl()
                                   ? typeStr(x->getHandler(i)->getExceptionDecl()->getType())
                                   : "...";
                        h["body"] = stmt(x->getHandler(i)->getHandlerBlock());
                        a.push_back(std::move(h));
                    }
                    o["handlers"] = std::move(a);
                } else if (auto* x = dyn_cast<OMPExecutableDirective>(s)) {
                    o["k"] = "omp";
                    o["dir"] = llvm::omp::getOpenMPDirectiveName(x->getDirectiveKind());
                    json::Array cl;
                    for (const OMPClause* c : x->clauses()) {
                        json::Object co;
                        co["c"] = llvm::omp::getOpenMPClauseName(c->getClauseKind());
                        co["impl"] = c->isImplicit();
                        json::Array vars;
                        auto addVar = [&](const Expr* e) {
                            if (e) vars.push_back(expr(e));
                        };
                        if (auto* c2 = dyn_cast<OMPFirstprivateClause>(c)) for (auto* e : c2->varlists()) addVar(e);
                        else if (auto* c2 = dyn_cast<OMPPrivateClause>(c)) for (auto* e : c2->varlists()) addVar(e);
                        else if (auto* c2 = dyn_cast<OMPLastprivateClause>(c)) for (auto* e : c2->varlists()) addVar(e);
                        else if (auto* c2 = dyn_cast<OMPSharedClause>(c)) for (auto* e : c2->varlists()) addVar(e);
                        else if (auto* c2 = dyn_cast<OMPReductionClause>(c)) {
                            for (auto* e : c2->varlists()) addVar(e);
                            co["op"] = c2->getNameInfo().getAsString();
                        } else if (auto* c2 = dyn_cast<OMPNumThreadsClause>(c)) addVar(c2->getNumThreads());
                        else if (auto* c2 = dyn_cast<OMPScheduleClause>(c))
                            co["kind"] = (int) c2->getScheduleKind();
                        co["vars"] = std::move(vars);
                        cl.push_back(std::move(co));
                    }
                    o["clauses"] = std::move(cl);
                    if (x->hasAssociatedStmt()) o["body"] = stmt(x->getInnermostCapturedStmt()->getCapturedStmt());
                } else if (auto* x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
                else if (auto* x = dyn_cast<CapturedStmt>(s)) return stmt(x->getCapturedStmt());
                else {
                    o["k"] = "xs";
                    o["c"] = s->getStmtClassName();
                    json::Array a;
                    for (const Stmt* c : s->children())
                        if (c) a.push_back(stmt(c));
                    o["s"] = std::move(a);
                }
                return o;
            }

            json::Value params(const FunctionDecl* f) {
                json::Array a;
                for (auto* p : f->parameters()) {
                    json::Object o;
                    o["n"] = p->getNameAsString();
                    o["id"] = localId(p);
                    o["t"] = typeStr(p->getType());
                    if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg())
                        o["def"] = expr(p->getDefaultArg());
                    a.push_back(std::move(o));
                }
                return a;
            }

            std::string docOf(const Decl* d) {
                const RawComment* rc = ctx_.getRawCommentForDeclNoCache(d);
                if (!rc) return "";
                return rc->getRawText(sm_).str();
            }

            json::Value methodSummary(const CXXMethodDecl* m) {
                json::Object o;
                o["n"] = m->getNameAsString();
                o["fid"] = fid(m);
                o["virt"] = m->isVirtual();
                o["pure"] = m->isPureVirtual();
                o["const"] = m->isConst();
                o["static"] = m->isStatic();
                o["ret"] = typeStr(m->getReturnType());
                o["l"] = lineOf(m->getLocation());
                o["deleted"] = m->isDeleted();
                o["acc"] = (int) m->getAccess();
                o["user"] = m->isUserProvided();
                o["impl"] = m->isImplicit();
                if (isa<CXXConstructorDecl>(m)) o["ctor"] = true;
                if (isa<CXXDestructorDecl>(m)) o["dtor"] = true;
                json::Array ps, pns;
                for (auto* p : m->parameters()) {
                    ps.push_back(typeStr(p->getType()));
                    pns.push_back(p->getNameAsString());
                }
                o["pt"] = std::move(ps);
                o["pn"] = std::move(pns);
                json::Array ov;
                for (auto* b : m->overridden_methods()) ov.push_back(fid(b));
                o["over"] = std::move(ov);
                std::string doc = docOf(m);
                if (!doc.empty()) o["doc"] = json::fixUTF8(doc);
                return o;
            }

            explicit Dumper(ASTContext& ctx)
                : ctx_(ctx), sm_(ctx.getSourceManager()), names_(ctx), policy_(ctx.getLangOpts()) {
                policy_.SuppressTagKeyword = true;
                policy_.FullyQualifiedName = true;
                policy_.Bool = true;
            }

            bool shouldVisitTemplateInstantiations() const { return true; }
            bool shouldVisitImplicitCode() const { return false; }
            bool shouldVisitLambdaBody() const { return false; }

            bool VisitFunctionDecl(FunctionDecl* f) {
                if (!f->isThisDeclarationADefinition()) return true;
                if (f->isDeleted()) return true;
                if (auto* m = dyn_cast<CXXMethodDecl>(f))
                    if (m->getParent()->isLambda()) return true;
                std::string file = rel(fileOf(f->getLocation()));
                if (file.empty()) return true;
                filesSeen.insert(file);
                std::string id = fid(f);
                if (!seenFunctions.insert(id).second) return true;
                localIds_.clear();
                json::Object o;
                o["r"] = "fn";
                o["fid"] = id;
                o["n"] = f->getNameAsString();
                o["qn"] = qn(f);
                o["pn"] = pn(f);
                o["f"] = file;
                o["l"] = lineOf(f->getBeginLoc());
                o["le"] = lineOf(f->getEndLoc());
                o["ret"] = typeStr(f->getReturnType());
                o["tmpl"] = f->isDependentContext();
                o["inst"] = f->isTemplateInstantiation();
                o["params"] = params(f);
                o["static"] = f->isStatic();
                o["doc"] = json::fixUTF8(docOf(f));
                o["def"] = f->isDefaulted();
                if (const auto* fpt = f->getType()->getAs<FunctionProtoType>())
                    o["noexcept"] = isNoexceptExceptionSpec(fpt->getExceptionSpecType());
                if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
                    o["cls"] = qn(m->getParent());
                    o["pcls"] = pn(m->getParent());
                    o["virt"] = m->isVirtual();
                    o["const"] = m->isConst();
                    json::Array ov;
                    for (auto* b : m->overridden_methods()) ov.push_back(fid(b));
                    o["over"] = std::move(ov);
                }
                if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
                    o["ctor"] = true;
                    o["copy"] = c->isCopyConstructor();
                    o["move"] = c->isMoveConstructor();
                    json::Array inits;
                    for (const CXXCtorInitializer* i : c->inits()) {
                        json::Object io;
                        io["w"] = i->isWritten();
                        if (i->isAnyMemberInitializer()) {
                            io["field"] = i->getAnyMember()->getNameAsString();
                            io["t"] = typeStr(i->getAnyMember()->getType());
                        } else if (i->isBaseInitializer()) {
                            io["base"] = typeStr(QualType(i->getBaseClass(), 0));
                        } else io["deleg"] = true;
                        io["e"] = expr(i->getInit());
                        inits.push_back(std::move(io));
                    }
                    o["inits"] = std::move(inits);
                }
                if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
                if (f->getBody()) o["body"] = stmt(f->getBody());
                *out << json::Value(std::move(o)) << "\n";
                return true;
            }

            bool VisitCXXRecordDecl(CXXRecordDecl* d) {
                if (!d->isThisDeclarationADefinition() || d->isLambda()) return true;
                std::string file = rel(fileOf(d->getLocation()));
                if (file.empty()) return true;
                filesSeen.insert(file);
                std::string id = qn(d) + "@" + file;
                if (d->isDependentContext()) id += "#dep";
                if (!seenRecords.insert(id).second) return true;
                json::Object o;
                o["r"] = "rec";
                o["qn"] = qn(d);
                o["pn"] = pn(d);
                o["n"] = d->getNameAsString();
                o["f"] = file;
                o["l"] = lineOf(d->getLocation());
                o["tmpl"] = d->isDependentContext();
                o["inst"] = isa<ClassTemplateSpecializationDecl>(d);
                if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
                    json::Array ta;
                    for (const TemplateArgument& a : s->getTemplateArgs().asArray()) {
                        std::string str;
                        llvm::raw_string_ostream os(str);
                        a.print(policy_, os, true);
                        ta.push_back(os.str());
                    }
                    o["targs"] = std::move(ta);
                }
                o["doc"] = json::fixUTF8(docOf(d));
                json::Array bases;
                for (auto& b : d->bases()) {
                    json::Object bo;
                    bo["t"] = typeStr(b.getType());
                    if (auto* br = b.getType()->getAsCXXRecordDecl()) bo["pn"] = pn(br);
                    bo["virt"] = b.isVirtual();
                    bases.push_back(std::move(bo));
                }
                o["bases"] = std::move(bases);
                json::Array fields;
                for (auto* f : d->fields()) {
                    json::Object fo;
                    fo["n"] = f->getNameAsString();
                    fo["t"] = typeStr(f->getType());
                    fo["l"] = lineOf(f->getLocation());
                    fo["mut"] = f->isMutable();
                    fo["acc"] = (int) f->getAccess();
                    fo["dinit"] = f->hasInClassInitializer();
                    fo["scalar"] = !f->getType()->isDependentType() && f->getType()->isScalarType();
                    fields.push_back(std::move(fo));
                }
                o["fields"] = std::move(fields);
                json::Array methods;
                for (auto* m : d->methods()) methods.push_back(methodSummary(m));
                for (auto* sub : d->decls())
                    if (auto* ft = dyn_cast<FunctionTemplateDecl>(sub))
                        if (auto* m = dyn_cast<CXXMethodDecl>(ft->getTemplatedDecl())) methods.push_back(methodSummary(m));
                o["methods"] = std::move(methods);
                o["poly"] = !d->isDependentContext() && d->isPolymorphic();
                o["abs"] = !d->isDependentContext() && d->isAbstract();
                o["final"] = d->isEffectivelyFinal();
                if (auto* dt = d->getDestructor()) o["vdtor"] = dt->isVirtual();
                *out << json::Value(std::move(o)) << "\n";
                return true;
            }

            bool VisitEnumDecl(EnumDecl* d) {
                if (!d->isThisDeclarationADefinition()) return true;
                std::string file = rel(fileOf(d->getLocation()));
                if (file.empty()) return true;
                std::string id = pn(d) + "@" + file;
                if (!seenEnums.insert(id).second) return true;
                json::Object o;
                o["r"] = "enum";
                o["pn"] = pn(d);
                o["f"] = file;
                o["l"] = lineOf(d->getLocation());
                json::Array cs;
                for (auto* c : d->enumerators())
                    cs.push_back(json::Array {c->getNameAsString(), (int64_t) c->getInitVal().getExtValue()});
                o["cs"] = std::move(cs);
                *out << json::Value(std::move(o)) << "\n";
                return true;
            }

            bool VisitVarDecl(VarDecl* v) {
                if (isa<ParmVarDecl>(v) || v->isLocalVarDecl()) return true;
                if (v->getDeclContext()->isDependentContext()) return true;
                std::string file = rel(fileOf(v->getLocation()));
                if (file.empty()) return true;
                if (!v->isThisDeclarationADefinition()) return true;
                std::string id = pn(v) + "@" + file;
                if (!seenVars.insert(id).second) return true;
                localIds_.clear();
                json::Object o;
                o["r"] = "var";
                o["pn"] = pn(v);
                o["f"] = file;
                o["l"] = lineOf(v->getLocation());
                o["t"] = typeStr(v->getType());
                o["const"] = v->getType().isConstQualified();
                o["constexpr"] = v->isConstexpr();
                if (v->hasInit()) o["init"] = expr(v->getInit());
                *out << json::Value(std::move(o)) << "\n";
                return true;
            }
    };

    class Consumer : public ASTConsumer {
        public:
            void HandleTranslationUnit(ASTContext& ctx) override {
                if (ctx.getDiagnostics().hasErrorOccurred()) numErrors++;
                Dumper d(ctx);
                d.TraverseDecl(ctx.getTranslationUnitDecl());
            }
    };

    class Action : public ASTFrontendAction {
        public:
            std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
                return std::make_unique<Consumer>();
            }
    };

}

int main(int argc, const char** argv) {
    rootDir = argv[1];
    std::error_code ec;
    llvm::raw_fd_ostream os(argv[2], ec);
    out = &os;
    std::vector<std::string> files, args;
    bool inArgs = false;
    for (int i = 3; i < argc; i++) {
        std::string a = argv[i];
        if (!inArgs && a == "--") inArgs = true;
        else if (inArgs) args.push_back(a);
        else files.push_back(a);
    }
    tooling::FixedCompilationDatabase db(".", args);
    for (auto& f : files) {
        tooling::ClangTool tool(db, {f});
        if (tool.run(tooling::newFrontendActionFactory<Action>().get()) != 0) {
            llvm::errs() << "PARSE-ERROR " << f << "\n";
            numErrors++;
        }
    }
    os.close();
    return numErrors ? 3 : 0;
}
