// Fact extractor: parses translation units of the analysed repository with clang and writes, per
// function definition, a resolved expression/statement tree and a control flow graph as JSON lines.
// No rule lives here; the rules are in /verif/analysis (python).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

using namespace clang;

static std::vector<std::string> g_roots;
static std::unordered_set<std::string> g_seen;
static std::unordered_set<std::string> g_spec;
static llvm::raw_ostream* g_out;

static std::string js(llvm::StringRef s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"') r += "\\\"";
        else if (c == '\\') r += "\\\\";
        else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else r += (char) c;
    }
    return r + "\"";
}

struct Ctx {
    ASTContext& ac;
    SourceManager& sm;
    PrintingPolicy pp;
    Ctx(ASTContext& a) : ac(a), sm(a.getSourceManager()), pp(a.getLangOpts()) {
        pp.SuppressTagKeyword = true;
        pp.SuppressUnwrittenScope = false;
        pp.FullyQualifiedName = true;
        pp.PrintCanonicalTypes = true;
        pp.Bool = true;
        pp.TerseOutput = true;
        pp.AnonymousTagLocations = true;
    }
    std::string file(SourceLocation l) {
        l = sm.getExpansionLoc(l);
        auto pl = sm.getPresumedLoc(l);
        if (pl.isInvalid()) return "";
        return pl.getFilename();
    }
    unsigned line(SourceLocation l) {
        l = sm.getExpansionLoc(l);
        auto pl = sm.getPresumedLoc(l);
        return pl.isInvalid() ? 0 : pl.getLine();
    }
    unsigned col(SourceLocation l) {
        l = sm.getExpansionLoc(l);
        auto pl = sm.getPresumedLoc(l);
        return pl.isInvalid() ? 0 : pl.getColumn();
    }
    std::string realFile(SourceLocation l) {
        std::string f = file(l);
        // collapse a/../b
        llvm::SmallString<256> p(f);
        sm.getFileManager().makeAbsolutePath(p);
        llvm::sys::path::remove_dots(p, true);
        return std::string(p.str());
    }
    bool inRoots(SourceLocation l) {
        if (l.isInvalid()) return false;
        std::string f = realFile(l);
        for (auto& r : g_roots)
            if (llvm::StringRef(f).startswith(r)) return true;
        return false;
    }
    std::string type(QualType t) {
        if (t.isNull()) return "";
        return t.getCanonicalType().getAsString(pp);
    }
    std::string qname(const NamedDecl* d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, pp);
        os.flush();
        return s;
    }
    // qualified name including template arguments of enclosing specializations
    std::string fullname(const NamedDecl* d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->getNameForDiagnostic(os, pp, true);
        os.flush();
        return s;
    }
    std::map<const Decl*, std::string> usrCache;
    std::string usr(const Decl* d) {
        d = d->getCanonicalDecl();
        auto it = usrCache.find(d);
        if (it != usrCache.end()) return it->second;
        std::string r;
        if (auto* m = dyn_cast<CXXMethodDecl>(d); m && m->getParent()->isLambda()) {
            const DeclContext* dc = m->getParent()->getDeclContext();
            std::string outer;
            while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
            if (auto* f = dyn_cast_or_null<FunctionDecl>(dc)) outer = usr(f);
            r = "lambda@" + outer + "@" + std::to_string(line(m->getParent()->getBeginLoc())) + ":"
                + std::to_string(col(m->getParent()->getBeginLoc()));
            if (outer.empty()) r += "@" + realFile(m->getParent()->getBeginLoc());
            if (auto* targs = m->getTemplateSpecializationArgs()) {
                r += "<";
                for (auto& a : targs->asArray()) {
                    std::string s;
                    llvm::raw_string_ostream os(s);
                    a.print(pp, os, true);
                    os.flush();
                    r += s + ",";
                }
                r += ">";
            }
            if (m->getOverloadedOperator() != OO_Call) r += "#" + m->getNameAsString();
        } else {
            llvm::SmallString<256> buf;
            index::generateUSRForDecl(d, buf);
            r = std::string(buf.str());
        }
        usrCache[d] = r;
        return r;
    }
};

struct FnEmitter {
    Ctx& c;
    const FunctionDecl* fd;
    std::vector<std::string> nodes;
    std::map<const Stmt*, int> ids;
    std::map<const Decl*, int> declIds;
    std::vector<std::string> decls; // local var decls: json

    FnEmitter(Ctx& c, const FunctionDecl* f) : c(c), fd(f) {}

    int declId(const ValueDecl* d) {
        auto it = declIds.find(d);
        if (it != declIds.end()) return it->second;
        int id = (int) decls.size();
        declIds[d] = id;
        std::string kind = isa<ParmVarDecl>(d) ? "param" : isa<BindingDecl>(d) ? "binding" : "var";
        bool global = false, stat = false, local = false;
        if (auto* v = dyn_cast<VarDecl>(d)) {
            global = v->hasGlobalStorage() && !v->isStaticLocal();
            stat = v->isStaticLocal();
            local = v->isLocalVarDecl() || isa<ParmVarDecl>(v);
        }
        if (global) kind = "global";
        if (stat) kind = "static";
        (void) local;
        // owner function for captured variables
        std::string owner;
        const DeclContext* dc = d->getDeclContext();
        if (auto* of = dyn_cast_or_null<FunctionDecl>(dc))
            if (of->getCanonicalDecl() != fd->getCanonicalDecl()) owner = c.usr(of);
        decls.push_back("{\"k\":" + js(kind) + ",\"n\":" + js(global ? c.qname(d) : d->getNameAsString())
                        + ",\"t\":" + js(c.type(d->getType())) + ",\"l\":" + std::to_string(c.line(d->getLocation()))
                        + (owner.empty() ? "" : ",\"o\":" + js(owner)) + ",\"key\":"
                        + js(std::to_string(c.line(d->getLocation())) + ":" + std::to_string(c.col(d->getLocation()))) + "}");
        return id;
    }

    static const Stmt* strip(const Stmt* s) {
        while (s) {
            if (auto* e = dyn_cast<ParenExpr>(s)) s = e->getSubExpr();
            else if (auto* e = dyn_cast<FullExpr>(s)) s = e->getSubExpr();
            else if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) s = e->getSubExpr();
            else if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) s = e->getSubExpr();
            else if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) s = e->getReplacement();
            else if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) s = e->getExpr();
            else if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) s = e->getExpr();
            else if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) s = e->getSubExpr();
            else if (auto* e = dyn_cast<AttributedStmt>(s)) s = e->getSubStmt();
            else if (auto* e = dyn_cast<CXXRewrittenBinaryOperator>(s)) s = e->getSemanticForm();
            else if (auto* e = dyn_cast<ImplicitCastExpr>(s)) {
                switch (e->getCastKind()) {
                case CK_IntegralCast:
                case CK_IntegralToBoolean:
                case CK_FloatingToIntegral:
                case CK_IntegralToFloating:
                case CK_FloatingToBoolean:
                case CK_FloatingCast:
                case CK_PointerToBoolean:
                    if (e->getSubExpr()->IgnoreParenImpCasts()->getType().getCanonicalType().getUnqualifiedType()
                        == e->getType().getCanonicalType().getUnqualifiedType()) { s = e->getSubExpr(); continue; }
                    return s;
                default: s = e->getSubExpr();
                }
            } else if (auto* e = dyn_cast<CXXConstructExpr>(s)) {
                if (e->isElidable() && e->getNumArgs() == 1) s = e->getArg(0);
                else return s;
            } else return s;
        }
        return s;
    }

    std::string calleeJson(const FunctionDecl* f) {
        std::string r = "\"u\":" + js(c.usr(f)) + ",\"q\":" + js(c.qname(f));
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            r += ",\"cls\":" + js(c.type(c.ac.getRecordType(m->getParent())));
            if (m->isVirtual()) r += ",\"virt\":1";
            if (m->isStatic()) r += ",\"st\":1";
        }
        if (auto* targs = f->getTemplateSpecializationArgs()) {
            r += ",\"ta\":[";
            bool first = true;
            for (auto& a : targs->asArray()) {
                std::string s;
                if (a.getKind() == TemplateArgument::Type) s = c.type(a.getAsType());
                else {
                    llvm::raw_string_ostream os(s);
                    a.print(c.pp, os, true);
                    os.flush();
                }
                if (!first) r += ",";
                first = false;
                r += js(s);
            }
            r += "]";
        }
        r += ",\"np\":" + std::to_string(f->getNumParams());
        // by-reference params
        std::string pt;
        for (auto* p : f->parameters()) pt += (pt.empty() ? "" : ",") + js(c.type(p->getType()));
        r += ",\"pt\":[" + pt + "]";
        if (auto* fpt = f->getType()->getAs<FunctionProtoType>())
            if (fpt->canThrow() == CT_Cannot) r += ",\"nx\":1";
        if (f->isNoReturn()) r += ",\"nr\":1";
        return r;
    }

    std::string list(const std::vector<int>& v) {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]);
        return r + "]";
    }

    int add(const Stmt* s0) {
        const Stmt* s = strip(s0);
        if (!s) return -1;
        auto it = ids.find(s);
        if (it != ids.end()) return it->second;
        int id = (int) nodes.size();
        nodes.emplace_back();
        ids[s] = id;
        std::string r = "{\"l\":" + std::to_string(c.line(s->getBeginLoc()));
        if (auto* e = dyn_cast<Expr>(s)) {
            r += ",\"t\":" + js(c.type(e->getType()));
            if (!e->isTypeDependent() && !e->isValueDependent() && e->getType()->isIntegralOrEnumerationType()) {
                Expr::EvalResult er;
                if (!isa<CallExpr>(e) && e->EvaluateAsInt(er, c.ac, Expr::SE_NoSideEffects))
                    r += ",\"v\":" + js(llvm::toString(er.Val.getInt(), 10));
            }
            if (e->isGLValue()) r += ",\"lv\":1";
        }
        if (s->getBeginLoc().isMacroID()) {
            // name of the outermost macro this expression comes from
            SourceLocation l = s->getBeginLoc();
            std::string mname;
            std::set<std::string> names;
            while (l.isMacroID()) {
                mname = Lexer::getImmediateMacroName(l, c.sm, c.ac.getLangOpts()).str();
                names.insert(mname);
                l = c.sm.getImmediateMacroCallerLoc(l);
            }
            r += ",\"mac\":" + js(mname);
        }
        std::vector<int> ch;
        std::string k, extra;
        auto kids = [&](auto range) {
            for (const Stmt* x : range)
                if (x) ch.push_back(add(x));
        };
        if (auto* e = dyn_cast<LambdaExpr>(s)) {
            k = "lambda";
            extra += ",\"u\":" + js(c.usr(e->getCallOperator()));
            std::string caps;
            unsigned i = 0;
            for (auto& cap : e->captures()) {
                if (!caps.empty()) caps += ",";
                if (cap.capturesThis()) caps += "[\"this\",-1,1]";
                else if (cap.capturesVariable())
                    caps += "[" + js(cap.getCapturedVar()->getNameAsString()) + ","
                            + std::to_string(declId(cast<ValueDecl>(cap.getCapturedVar()))) + ","
                            + (cap.getCaptureKind() == LCK_ByRef ? "1" : "0") + "]";
                else caps += "[\"?\",-1,0]";
                (void) i;
            }
            extra += ",\"caps\":[" + caps + "]";
            for (auto* in : e->capture_inits())
                if (in) ch.push_back(add(in));
        } else if (auto* e = dyn_cast<CXXConstructExpr>(s)) {
            k = "call";
            const CXXConstructorDecl* cd = e->getConstructor();
            while (cd->isInheritingConstructor() && cd->getInheritedConstructor()) cd = cd->getInheritedConstructor().getConstructor();
            extra += ",\"ck\":\"ctor\"," + calleeJson(cd);
            if (isa<CXXTemporaryObjectExpr>(e)) extra += ",\"tmp\":1";
            kids(e->arguments());
        } else if (auto* e = dyn_cast<CXXInheritedCtorInitExpr>(s)) {
            k = "call";
            extra += ",\"ck\":\"ctor\"," + calleeJson(e->getConstructor());
        } else if (auto* e = dyn_cast<CallExpr>(s)) {
            k = "call";
            const FunctionDecl* f = e->getDirectCallee();
            if (auto* m = dyn_cast<CXXMemberCallExpr>(e)) {
                extra += ",\"ck\":\"method\"";
                if (f) {
                    extra += "," + calleeJson(f);
                    if (auto* me = dyn_cast_or_null<MemberExpr>(strip(m->getCallee()))) {
                        if (me->isArrow()) extra += ",\"arrow\":1";
                        if (me->hasQualifier()) extra += ",\"qual\":1";
                    }
                    int o = add(m->getImplicitObjectArgument());
                    extra += ",\"obj\":" + std::to_string(o);
                } else {
                    int o = add(m->getCallee());
                    extra += ",\"fn\":" + std::to_string(o);
                }
                kids(e->arguments());
            } else if (auto* o = dyn_cast<CXXOperatorCallExpr>(e)) {
                extra += ",\"ck\":\"op\",\"op\":" + js(getOperatorSpelling(o->getOperator()));
                if (f) extra += "," + calleeJson(f);
                bool mem = f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic();
                unsigned i = 0;
                for (auto* a : e->arguments()) {
                    int x = add(a);
                    if (i == 0 && mem) extra += ",\"obj\":" + std::to_string(x);
                    else ch.push_back(x);
                    ++i;
                }
            } else {
                extra += ",\"ck\":\"fn\"";
                if (f) extra += "," + calleeJson(f);
                else {
                    int o = add(e->getCallee());
                    extra += ",\"fn\":" + std::to_string(o);
                }
                kids(e->arguments());
            }
        } else if (auto* e = dyn_cast<DeclRefExpr>(s)) {
            k = "ref";
            const ValueDecl* d = e->getDecl();
            if (isa<VarDecl>(d) || isa<BindingDecl>(d)) {
                extra += ",\"d\":" + std::to_string(declId(d));
                extra += ",\"n\":" + js(d->getNameAsString());
                if (auto* bd = dyn_cast<BindingDecl>(d))
                    if (bd->getBinding()) { int b = add(bd->getBinding()); extra += ",\"bind\":" + std::to_string(b); }
            } else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                k = "enum";
                extra += ",\"q\":" + js(c.qname(ec)) + ",\"n\":" + js(ec->getNameAsString());
            } else if (auto* f = dyn_cast<FunctionDecl>(d)) {
                k = "fnref";
                extra += "," + calleeJson(f);
            } else {
                extra += ",\"n\":" + js(d->getNameAsString());
            }
        } else if (auto* e = dyn_cast<MemberExpr>(s)) {
            k = "member";
            extra += ",\"n\":" + js(e->getMemberDecl()->getNameAsString()) + ",\"q\":" + js(c.qname(e->getMemberDecl()));
            if (auto* fdl = dyn_cast<FieldDecl>(e->getMemberDecl()))
                extra += ",\"cls\":" + js(c.type(c.ac.getRecordType(fdl->getParent())));
            if (e->isArrow()) extra += ",\"arrow\":1";
            ch.push_back(add(e->getBase()));
        } else if (isa<CXXThisExpr>(s)) {
            k = "this";
        } else if (auto* e = dyn_cast<BinaryOperator>(s)) {
            k = "bin";
            extra += ",\"op\":" + js(e->getOpcodeStr());
            ch.push_back(add(e->getLHS()));
            ch.push_back(add(e->getRHS()));
        } else if (auto* e = dyn_cast<UnaryOperator>(s)) {
            k = "un";
            extra += ",\"op\":" + js(UnaryOperator::getOpcodeStr(e->getOpcode()));
            if (e->isPostfix()) extra += ",\"post\":1";
            ch.push_back(add(e->getSubExpr()));
        } else if (auto* e = dyn_cast<ConditionalOperator>(s)) {
            k = "cond";
            ch = {add(e->getCond()), add(e->getTrueExpr()), add(e->getFalseExpr())};
        } else if (auto* e = dyn_cast<ArraySubscriptExpr>(s)) {
            k = "index";
            ch = {add(e->getBase()), add(e->getIdx())};
        } else if (auto* e = dyn_cast<CastExpr>(s)) {
            k = "cast";
            extra += ",\"ck\":" + js(e->getCastKindName());
            extra += ",\"from\":" + js(c.type(e->getSubExpr()->getType()));
            if (isa<ExplicitCastExpr>(e)) extra += ",\"ex\":1";
            if (isa<CXXReinterpretCastExpr>(e)) extra += ",\"reint\":1";
            ch.push_back(add(e->getSubExpr()));
        } else if (auto* e = dyn_cast<IntegerLiteral>(s)) {
            k = "lit";
        } else if (auto* e = dyn_cast<FloatingLiteral>(s)) {
            k = "lit";
            llvm::SmallString<32> b;
            e->getValue().toString(b);
            extra += ",\"fv\":" + js(b);
        } else if (auto* e = dyn_cast<StringLiteral>(s)) {
            k = "str";
            extra += ",\"s\":" + js(e->getCharByteWidth() == 1 ? e->getString() : "");
        } else if (isa<CharacterLiteral>(s) || isa<CXXBoolLiteralExpr>(s)) {
            k = "lit";
        } else if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) {
            k = "nullptr";
        } else if (auto* e = dyn_cast<InitListExpr>(s)) {
            k = "init";
            auto* f = e->isSemanticForm() ? e : e->getSemanticForm();
            if (!f) f = e;
            if (auto* rt = f->getType()->getAs<RecordType>()) {
                std::string fs;
                for (auto* fl : rt->getDecl()->fields()) fs += (fs.empty() ? "" : ",") + js(fl->getNameAsString());
                extra += ",\"fields\":[" + fs + "]";
            }
            for (auto* x : f->inits())
                if (x) ch.push_back(add(x));
        } else if (auto* e = dyn_cast<CXXNewExpr>(s)) {
            k = "new";
            extra += ",\"at\":" + js(c.type(e->getAllocatedType()));
            if (e->getNumPlacementArgs() > 0) extra += ",\"pl\":1";
            for (unsigned i = 0; i < e->getNumPlacementArgs(); ++i) ch.push_back(add(e->getPlacementArg(i)));
            if (e->getArraySize() && *e->getArraySize()) ch.push_back(add(*e->getArraySize()));
            if (e->getInitializer()) ch.push_back(add(e->getInitializer()));
        } else if (auto* e = dyn_cast<CXXDeleteExpr>(s)) {
            k = "delete";
            extra += ",\"at\":" + js(c.type(e->getDestroyedType()));
            ch.push_back(add(e->getArgument()));
        } else if (auto* e = dyn_cast<CXXThrowExpr>(s)) {
            k = "throw";
            if (e->getSubExpr()) ch.push_back(add(e->getSubExpr()));
        } else if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
            k = "sizeof";
            extra += ",\"at\":" + js(c.type(e->getTypeOfArgument()));
        } else if (auto* d = dyn_cast<DeclStmt>(s)) {
            k = "decl";
            std::string vs, bs;
            for (auto* x : d->decls()) {
                if (auto* v = dyn_cast<VarDecl>(x)) {
                    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
                        std::string ids;
                        for (auto* b : dd->bindings()) ids += (ids.empty() ? "" : ",") + std::to_string(declId(b));
                        bs += (bs.empty() ? "" : ",") + std::string("[") + std::to_string(declId(v)) + ",[" + ids + "]]";
                    }
                    int in = v->getInit() ? add(v->getInit()) : -1;
                    int di = declId(v);
                    vs += (vs.empty() ? "" : ",") + std::string("[") + std::to_string(di) + "," + std::to_string(in) + "]";
                    if (in >= 0) ch.push_back(in);
                }
            }
            extra += ",\"vars\":[" + vs + "]";
            if (!bs.empty()) extra += ",\"sbind\":[" + bs + "]";
        } else if (auto* e = dyn_cast<ReturnStmt>(s)) {
            k = "return";
            if (e->getRetValue()) ch.push_back(add(e->getRetValue()));
        } else if (auto* e = dyn_cast<IfStmt>(s)) {
            k = "if";
            int in = e->getInit() ? add(e->getInit()) : -1;
            int cv = e->getConditionVariableDeclStmt() ? add(e->getConditionVariableDeclStmt()) : -1;
            ch = {in, cv, add(e->getCond()), add(e->getThen()), e->getElse() ? add(e->getElse()) : -1};
            if (e->isConstexpr()) extra += ",\"cx\":1";
        } else if (auto* e = dyn_cast<ForStmt>(s)) {
            k = "for";
            ch = {e->getInit() ? add(e->getInit()) : -1, e->getCond() ? add(e->getCond()) : -1,
                e->getInc() ? add(e->getInc()) : -1, add(e->getBody())};
        } else if (auto* e = dyn_cast<WhileStmt>(s)) {
            k = "while";
            int cv = e->getConditionVariableDeclStmt() ? add(e->getConditionVariableDeclStmt()) : -1;
            ch = {cv, add(e->getCond()), add(e->getBody())};
        } else if (auto* e = dyn_cast<DoStmt>(s)) {
            k = "do";
            ch = {add(e->getBody()), add(e->getCond())};
        } else if (auto* e = dyn_cast<CXXForRangeStmt>(s)) {
            k = "rfor";
            extra += ",\"rng\":" + std::to_string(e->getRangeInit() ? add(e->getRangeInit()) : -1);
            ch = {e->getInit() ? add(e->getInit()) : -1, add(e->getRangeStmt()), add(e->getBeginStmt()),
                add(e->getEndStmt()), add(e->getCond()), add(e->getInc()), add(e->getLoopVarStmt()), add(e->getBody())};
        } else if (auto* e = dyn_cast<SwitchStmt>(s)) {
            k = "switch";
            int cv = e->getConditionVariableDeclStmt() ? add(e->getConditionVariableDeclStmt()) : -1;
            int in = e->getInit() ? add(e->getInit()) : -1;
            ch = {in, cv, add(e->getCond()), add(e->getBody())};
        } else if (auto* e = dyn_cast<CaseStmt>(s)) {
            k = "case";
            ch = {add(e->getLHS()), add(e->getSubStmt())};
        } else if (auto* e = dyn_cast<DefaultStmt>(s)) {
            k = "default";
            ch = {add(e->getSubStmt())};
        } else if (auto* e = dyn_cast<CXXTryStmt>(s)) {
            k = "try";
            ch.push_back(add(e->getTryBlock()));
            for (unsigned i = 0; i < e->getNumHandlers(); ++i) ch.push_back(add(e->getHandler(i)));
        } else if (auto* e = dyn_cast<CXXCatchStmt>(s)) {
            k = "catch";
            extra += ",\"ct\":" + js(e->getExceptionDecl() ? c.type(e->getCaughtType()) : "...");
            ch.push_back(add(e->getHandlerBlock()));
        } else if (isa<CompoundStmt>(s)) {
            k = "block";
            kids(s->children());
        } else if (isa<BreakStmt>(s)) k = "break";
        else if (isa<ContinueStmt>(s)) k = "continue";
        else if (isa<NullStmt>(s)) k = "null";
        else if (isa<CXXScalarValueInitExpr>(s) || isa<ImplicitValueInitExpr>(s)) k = "zero";
        else {
            k = s->getStmtClassName();
            kids(s->children());
        }
        r += ",\"k\":" + js(k) + extra;
        if (!ch.empty()) r += ",\"c\":" + list(ch);
        r += "}";
        nodes[id] = r;
        return id;
    }

    std::string cfg(const Stmt* body) {
        CFG::BuildOptions bo;
        bo.AddImplicitDtors = true;
        bo.AddInitializers = true;
        bo.AddTemporaryDtors = false;
        bo.AddEHEdges = false;
        bo.PruneTriviallyFalseEdges = true;
        bo.AddCXXDefaultInitExprInCtors = true;
        bo.setAllAlwaysAdd();
        std::unique_ptr<CFG> g = CFG::buildCFG(fd, const_cast<Stmt*>(body), &c.ac, bo);
        if (!g) return "null";
        std::string r = "{\"entry\":" + std::to_string(g->getEntry().getBlockID())
                        + ",\"exit\":" + std::to_string(g->getExit().getBlockID()) + ",\"b\":[";
        bool first = true;
        for (const CFGBlock* b : *g) {
            if (!first) r += ",";
            first = false;
            r += "{\"i\":" + std::to_string(b->getBlockID()) + ",\"e\":[";
            bool fe = true;
            int last = -2;
            for (auto& el : *b) {
                std::string x;
                if (auto st = el.getAs<CFGStmt>()) {
                    int n = add(st->getStmt());
                    if (n == last) continue;
                    last = n;
                    x = std::to_string(n);
                } else if (auto d = el.getAs<CFGAutomaticObjDtor>()) {
                    x = "[\"dtor\"," + std::to_string(declId(d->getVarDecl())) + "]";
                } else if (auto in = el.getAs<CFGInitializer>()) {
                    auto* ci = in->getInitializer();
                    int n = ci->getInit() ? add(ci->getInit()) : -1;
                    std::string nm = ci->isAnyMemberInitializer() ? c.qname(ci->getAnyMember())
                                     : ci->isBaseInitializer()    ? "base:" + c.type(QualType(ci->getBaseClass(), 0))
                                                                  : "delegate";
                    x = "[\"init\"," + js(nm) + "," + std::to_string(n) + "]";
                } else continue;
                if (!fe) r += ",";
                fe = false;
                r += x;
            }
            r += "],\"s\":[";
            bool fs = true;
            for (auto it = b->succ_begin(); it != b->succ_end(); ++it) {
                if (!fs) r += ",";
                fs = false;
                const CFGBlock* sb = it->getReachableBlock();
                if (sb) r += std::to_string(sb->getBlockID());
                else r += "-1";
            }
            r += "]";
            if (const Stmt* t = b->getTerminatorStmt()) {
                r += ",\"t\":" + std::to_string(add(t));
                r += ",\"tk\":" + js(t->getStmtClassName());
                if (auto* bo2 = dyn_cast<BinaryOperator>(t)) r += ",\"to\":" + js(bo2->getOpcodeStr());
                if (const Stmt* cond = b->getTerminatorCondition()) r += ",\"c\":" + std::to_string(add(cond));
            }
            if (const Stmt* lb = b->getLabel()) r += ",\"lb\":" + std::to_string(add(lb));
            if (b->hasNoReturnElement()) r += ",\"nr\":1";
            r += "}";
        }
        return r + "]}";
    }

    void emit() {
        const Stmt* body = fd->getBody();
        if (!body) return;
        std::string r = "{\"kind\":\"fn\",\"u\":" + js(c.usr(fd)) + ",\"q\":" + js(c.qname(fd))
                        + ",\"n\":" + js(fd->getNameAsString()) + ",\"full\":" + js(c.fullname(fd)) + ",\"f\":" + js(c.realFile(fd->getLocation()))
                        + ",\"l\":" + std::to_string(c.line(fd->getLocation()))
                        + ",\"el\":" + std::to_string(c.line(body->getEndLoc()))
                        + ",\"ret\":" + js(c.type(fd->getReturnType()));
        if (auto* m = dyn_cast<CXXMethodDecl>(fd)) {
            r += ",\"cls\":" + js(c.type(c.ac.getRecordType(m->getParent())));
            if (m->isVirtual()) r += ",\"virt\":1";
            if (m->isStatic()) r += ",\"st\":1";
            if (m->isConst()) r += ",\"cst\":1";
            if (m->getParent()->isLambda()) {
                r += ",\"lam\":1";
                const DeclContext* dc = m->getParent()->getDeclContext();
                while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
                if (dc) r += ",\"outer\":" + js(c.usr(cast<FunctionDecl>(dc)));
            }
            std::string ov;
            for (auto* o : m->overridden_methods()) ov += (ov.empty() ? "" : ",") + js(c.usr(o));
            if (!ov.empty()) r += ",\"ov\":[" + ov + "]";
            static const char* acc[] = {"public", "protected", "private", "none"};
            r += ",\"acc\":" + js(acc[m->getAccess()]);
        }
        if (isa<CXXConstructorDecl>(fd)) r += ",\"ctor\":1";
        if (isa<CXXDestructorDecl>(fd)) r += ",\"dtor\":1";
        if (fd->isExternC()) r += ",\"xc\":1";
        if (fd->isDefaulted()) r += ",\"def\":1";
        if (fd->isTemplateInstantiation()) r += ",\"ti\":1";
        if (fd->isConstexpr()) r += ",\"cx\":1";
        if (fd->getFormalLinkage() == Linkage::Internal) r += ",\"int\":1";
        if (auto* fpt = fd->getType()->getAs<FunctionProtoType>())
            if (fpt->canThrow() == CT_Cannot) r += ",\"nx\":1";
        if (fd->isNoReturn()) r += ",\"nr\":1";
        if (auto* targs = fd->getTemplateSpecializationArgs()) {
            r += ",\"ta\":[";
            bool first = true;
            for (auto& a : targs->asArray()) {
                std::string s;
                if (a.getKind() == TemplateArgument::Type) s = c.type(a.getAsType());
                else {
                    llvm::raw_string_ostream os(s);
                    a.print(c.pp, os, true);
                    os.flush();
                }
                if (!first) r += ",";
                first = false;
                r += js(s);
            }
            r += "]";
        }
        std::string ps;
        for (auto* p : fd->parameters()) ps += (ps.empty() ? "" : ",") + std::to_string(declId(p));
        r += ",\"p\":[" + ps + "]";
        int b = add(body);
        r += ",\"body\":" + std::to_string(b);
        if (auto* ct = dyn_cast<CXXConstructorDecl>(fd)) {
            std::string is;
            for (auto* in : ct->inits()) {
                int n = in->getInit() ? add(in->getInit()) : -1;
                std::string nm = in->isAnyMemberInitializer() ? c.qname(in->getAnyMember())
                                 : in->isBaseInitializer()    ? "base:" + c.type(QualType(in->getBaseClass(), 0))
                                                              : "delegate";
                is += (is.empty() ? "" : ",") + std::string("[") + js(nm) + "," + std::to_string(n) + "," + (in->isWritten() ? "1" : "0") + "]";
            }
            r += ",\"inits\":[" + is + "]";
        }
        std::string cf = cfg(body);
        r += ",\"cfg\":" + cf;
        r += ",\"decls\":[";
        for (size_t i = 0; i < decls.size(); ++i) r += (i ? "," : "") + decls[i];
        r += "],\"nodes\":[";
        for (size_t i = 0; i < nodes.size(); ++i) r += (i ? "," : "") + nodes[i];
        r += "]}\n";
        *g_out << r;
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    Ctx& c;
    Visitor(Ctx& c) : c(c) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool shouldVisitLambdaBody() const { return true; }

    bool TraverseDecl(Decl* d) {
        // do not descend into declarations that live outside of the analysed roots
        if (d && !isa<TranslationUnitDecl>(d) && !isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d)) {
            const DeclContext* dc = d->getLexicalDeclContext();
            if (dc && (dc->isTranslationUnit() || isa<NamespaceDecl>(dc) || isa<LinkageSpecDecl>(dc)))
                if (!c.inRoots(d->getLocation())) return true;
        }
        return RecursiveASTVisitor::TraverseDecl(d);
    }
    bool VisitLambdaExpr(LambdaExpr* e) {
        if (e->isTypeDependent() || e->getLambdaClass()->getDeclContext()->isDependentContext()) return true;
        auto* op = e->getCallOperator();
        fn(op);
        auto spec = [&](FunctionDecl* s) {
            fn(s);
            // lambdas nested in an instantiated body
            if (s != op && s->doesThisDeclarationHaveABody() && !s->isDependentContext() && g_spec.insert("S" + c.usr(s)).second)
                TraverseStmt(s->getBody());
        };
        if (auto* t = op->getDescribedFunctionTemplate())
            for (auto* s : t->specializations()) spec(s);
        if (auto* t = e->getDependentCallOperator())
            for (auto* s : t->specializations()) spec(s);
        return true;
    }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
            if (m->getParent()->isLambda()) { fn(f); return true; }
        fn(f);
        return true;
    }
    void fn(FunctionDecl* f) {
        if (!f->doesThisDeclarationHaveABody() || !f->isThisDeclarationADefinition()) return;
        if (f->isDependentContext() || f->isTemplated()) return;
        if (f->isInvalidDecl() || f->isImplicit() && !(isa<CXXMethodDecl>(f) && cast<CXXMethodDecl>(f)->getParent()->isLambda())) return;
        if (!c.inRoots(f->getLocation())) return;
        if (!f->getBody() || f->willHaveBody()) return;
        std::string key = "F" + c.usr(f);
        if (!g_seen.insert(key).second) return;
        FnEmitter e(c, f);
        e.emit();
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* d) {
        if (!d->isThisDeclarationADefinition() || d->isDependentContext() || d->isLambda()) return true;
        if (!c.inRoots(d->getLocation())) return true;
        if (d->isInvalidDecl()) return true;
        std::string t = c.type(c.ac.getRecordType(d));
        if (!g_seen.insert("R" + t + c.usr(d)).second) return true;
        std::string r = "{\"kind\":\"rec\",\"q\":" + js(c.qname(d)) + ",\"t\":" + js(t) + ",\"f\":" + js(c.realFile(d->getLocation()))
                        + ",\"l\":" + std::to_string(c.line(d->getLocation()));
        if (d->isUnion()) r += ",\"union\":1";
        if (d->hasDefinition() && d->isPolymorphic()) r += ",\"poly\":1";
        r += ",\"bases\":[";
        bool first = true;
        for (auto& b : d->bases()) {
            if (!first) r += ",";
            first = false;
            r += js(c.type(b.getType()));
        }
        r += "],\"fields\":[";
        first = true;
        for (auto* f : d->fields()) {
            if (!first) r += ",";
            first = false;
            r += "{\"n\":" + js(f->getNameAsString()) + ",\"t\":" + js(c.type(f->getType())) + ",\"l\":"
                 + std::to_string(c.line(f->getLocation())) + (f->isMutable() ? ",\"mut\":1" : "")
                 + (f->hasInClassInitializer() ? ",\"init\":1" : "") + "}";
        }
        r += "],\"methods\":[";
        first = true;
        for (auto* m : d->methods()) {
            if (!first) r += ",";
            first = false;
            static const char* acc[] = {"public", "protected", "private", "none"};
            r += "{\"n\":" + js(m->getNameAsString()) + ",\"u\":" + js(c.usr(m)) + ",\"ret\":" + js(c.type(m->getReturnType()))
                 + ",\"acc\":" + js(acc[m->getAccess()]) + (m->isVirtual() ? ",\"virt\":1" : "") + (m->isPureVirtual() ? ",\"pure\":1" : "")
                 + (m->isDeleted() ? ",\"del\":1" : "") + (m->isConst() ? ",\"cst\":1" : "") + (m->isStatic() ? ",\"st\":1" : "")
                 + (m->isDefaulted() ? ",\"def\":1" : "") + (m->isImplicit() ? ",\"imp\":1" : "")
                 + (isa<CXXDestructorDecl>(m) ? ",\"dtor\":1" : "") + (isa<CXXConstructorDecl>(m) ? ",\"ctor\":1" : "");
            if (auto* ct = dyn_cast<CXXConstructorDecl>(m)) {
                if (ct->isCopyConstructor()) r += ",\"copyc\":1";
                if (ct->isMoveConstructor()) r += ",\"movec\":1";
            }
            if (m->isCopyAssignmentOperator()) r += ",\"copya\":1";
            if (m->isMoveAssignmentOperator()) r += ",\"movea\":1";
            std::string pt;
            for (auto* p : m->parameters()) pt += (pt.empty() ? "" : ",") + js(c.type(p->getType()));
            r += ",\"pt\":[" + pt + "]}";
        }
        r += "]";
        // member aliases (using Layout = ..., using Base = ...)
        std::string al;
        for (auto* x : d->decls())
            if (auto* td = dyn_cast<TypedefNameDecl>(x))
                al += (al.empty() ? "" : ",") + js(td->getNameAsString()) + ":" + js(c.type(td->getUnderlyingType()));
        r += ",\"alias\":{" + al + "}";
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
            r += ",\"tmpl\":" + js(c.qname(sp->getSpecializedTemplate())) + ",\"ta\":[";
            first = true;
            for (auto& a : sp->getTemplateArgs().asArray()) {
                std::string s;
                auto one = [&](const TemplateArgument& a) {
                    if (!first) r += ",";
                    first = false;
                    std::string s;
                    if (a.getKind() == TemplateArgument::Type) s = c.type(a.getAsType());
                    else {
                        llvm::raw_string_ostream os(s);
                        a.print(c.pp, os, true);
                        os.flush();
                    }
                    r += js(s);
                };
                if (a.getKind() == TemplateArgument::Pack) for (auto& p : a.pack_elements()) one(p);
                else one(a);
            }
            r += "]";
        }
        if (d->isCompleteDefinition() && !d->isInvalidDecl()) {
            r += ",\"size\":" + std::to_string(c.ac.getTypeSizeInChars(c.ac.getRecordType(d)).getQuantity());
            r += ",\"tdtor\":" + std::string(d->hasTrivialDestructor() ? "1" : "0");
        }
        *g_out << r << "}\n";
        return true;
    }
    bool VisitEnumDecl(EnumDecl* d) {
        if (!d->isThisDeclarationADefinition() || !c.inRoots(d->getLocation()) || d->isDependentContext()) return true;
        std::string q = c.qname(d);
        if (!g_seen.insert("E" + q + c.usr(d)).second) return true;
        std::string r = "{\"kind\":\"enum\",\"q\":" + js(q) + ",\"t\":" + js(c.type(c.ac.getEnumType(d))) + ",\"f\":" + js(c.realFile(d->getLocation()))
                        + ",\"l\":" + std::to_string(c.line(d->getLocation())) + ",\"c\":[";
        bool first = true;
        for (auto* e : d->enumerators()) {
            if (!first) r += ",";
            first = false;
            r += "[" + js(e->getNameAsString()) + "," + js(llvm::toString(e->getInitVal(), 10)) + "]";
        }
        *g_out << r << "]}\n";
        return true;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (!v->hasGlobalStorage() || !c.inRoots(v->getLocation())) return true;
        if (v->getDeclContext()->isDependentContext() || v->isTemplated()) return true;
        if (isa<ParmVarDecl>(v)) return true;
        std::string u = c.usr(v);
        if (!g_seen.insert("V" + u + std::to_string(c.line(v->getLocation()))).second) return true;
        QualType t = v->getType();
        std::string r = "{\"kind\":\"var\",\"q\":" + js(c.qname(v)) + ",\"u\":" + js(u) + ",\"t\":" + js(c.type(t)) + ",\"f\":"
                        + js(c.realFile(v->getLocation())) + ",\"l\":" + std::to_string(c.line(v->getLocation()))
                        + ",\"const\":" + (t.isConstQualified() || t->isReferenceType() || (t->isArrayType() && c.ac.getBaseElementType(t).isConstQualified()) ? "1" : "0")
                        + ",\"cx\":" + (v->isConstexpr() ? "1" : "0") + ",\"local\":" + (v->isStaticLocal() ? "1" : "0")
                        + ",\"def\":" + (v->isThisDeclarationADefinition() != VarDecl::DeclarationOnly ? "1" : "0")
                        + ",\"tls\":" + (v->getTLSKind() != VarDecl::TLS_None ? "1" : "0");
        *g_out << r << "}\n";
        // emit initializer as pseudo function (tables of descriptors)
        if (v->getInit() && !v->getInit()->isValueDependent() && !v->isStaticLocal() && v->isThisDeclarationADefinition()) {
            if (g_seen.insert("VI" + u).second) {
                std::string o = "{\"kind\":\"init\",\"q\":" + js(c.qname(v)) + ",\"u\":" + js(u) + ",\"f\":" + js(c.realFile(v->getLocation()))
                                + ",\"l\":" + std::to_string(c.line(v->getLocation()));
                // use a dummy emitter bound to no function
                emitInit(v, o);
            }
        }
        return true;
    }
    void emitInit(VarDecl* v, std::string o) {
        static FunctionDecl* dummy = nullptr;
        (void) dummy;
        // FnEmitter needs a FunctionDecl only for owner comparison and cfg; create a light subclass
        struct E : FnEmitter {
            E(Ctx& c) : FnEmitter(c, nullptr) {}
        };
        // owner comparison dereferences fd: guard by giving a function when the var is in one
        FunctionDecl* any = nullptr;
        for (auto* d : c.ac.getTranslationUnitDecl()->decls())
            if ((any = dyn_cast<FunctionDecl>(d))) break;
        if (!any) return;
        FnEmitter e(c, any);
        int b = e.add(v->getInit());
        o += ",\"body\":" + std::to_string(b) + ",\"decls\":[";
        for (size_t i = 0; i < e.decls.size(); ++i) o += (i ? "," : "") + e.decls[i];
        o += "],\"nodes\":[";
        for (size_t i = 0; i < e.nodes.size(); ++i) o += (i ? "," : "") + e.nodes[i];
        o += "]}\n";
        *g_out << o;
    }
};

class Consumer : public ASTConsumer {
public:
    CompilerInstance& ci;
    std::string mainFile;
    Consumer(CompilerInstance& ci, std::string f) : ci(ci), mainFile(f) {}
    bool shouldSkipFunctionBody(Decl* d) override {
        auto& sm = ci.getSourceManager();
        SourceLocation l = sm.getExpansionLoc(d->getLocation());
        auto f = sm.getFilename(l);
        llvm::SmallString<256> p(f);
        sm.getFileManager().makeAbsolutePath(p);
        llvm::sys::path::remove_dots(p, true);
        for (auto& r : g_roots)
            if (llvm::StringRef(p).startswith(r)) return false;
        return true;
    }
    void HandleTranslationUnit(ASTContext& ac) override {
        Ctx c(ac);
        *g_out << "{\"kind\":\"tu\",\"f\":" << js(mainFile) << ",\"errors\":" << ci.getDiagnostics().getClient()->getNumErrors() << "}\n";
        // dependencies inside the roots
        Visitor v(c);
        v.TraverseDecl(ac.getTranslationUnitDecl());
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef f) override {
        ci.getFrontendOpts().SkipFunctionBodies = true;
        return std::make_unique<Consumer>(ci, f.str());
    }
};

// usage: extractor OUT ROOT[:ROOT...] FILE... -- FLAGS
int main(int argc, const char** argv) {
    std::vector<std::string> files, flags;
    if (argc < 5) return 2;
    std::string out = argv[1];
    llvm::SmallVector<llvm::StringRef, 4> rs;
    llvm::StringRef(argv[2]).split(rs, ':');
    for (auto r : rs) g_roots.push_back(r.str());
    bool fl = false;
    for (int i = 3; i < argc; ++i) {
        std::string a = argv[i];
        if (!fl && a == "--") { fl = true; continue; }
        (fl ? flags : files).push_back(a);
    }
    std::error_code ec;
    llvm::raw_fd_ostream os(out, ec);
    if (ec) return 3;
    g_out = &os;
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, files);
    DiagnosticConsumer diag;
    tool.setDiagnosticConsumer(&diag);
    tool.run(tooling::newFrontendActionFactory<Action>().get());
    return 0;
}
