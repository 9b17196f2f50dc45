// Fact extractor: parses one translation unit with clang and prints, as one JSON document, every function
// body / record / enum / global constant whose source lies under one of the given path prefixes.
// Nothing of the analysed program is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>
#include <string>
#include <vector>

using namespace clang;

static std::vector<std::string> g_prefix;
static std::string g_root;
static llvm::raw_ostream* g_out = nullptr;
static bool g_first = true;

static std::string esc(llvm::StringRef s)
{
	std::string r = "\"";
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') { r += '\\'; r += c; }
		else if(c == '\n') r += "\\n";
		else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}

class Dumper {
public:
	ASTContext& ctx; SourceManager& sm; PrintingPolicy pp;
	std::string o;
	std::map<const Decl*, int> ids;
	Dumper(ASTContext& c) : ctx(c), sm(c.getSourceManager()), pp(c.getLangOpts()) {
		pp.SuppressTagKeyword = true; pp.FullyQualifiedName = true; pp.PrintCanonicalTypes = true; pp.SuppressScope = false; pp.Bool = true; pp.SuppressUnwrittenScope = true;
	}
	int id(const Decl* d) { d = d->getCanonicalDecl(); auto it = ids.find(d); if(it != ids.end()) return it->second; int n = ids.size() + 1; ids[d] = n; return n; }
	unsigned line(SourceLocation l) { return l.isValid() ? sm.getExpansionLineNumber(l) : 0; }
	std::string type(QualType t) { if(t.isNull()) return "?"; return t.getAsString(pp); }
	std::string qname(const NamedDecl* d) {
		std::string s; llvm::raw_string_ostream os(s);
		d->printQualifiedName(os, pp); os.flush();
		if(s == "std::get") if(auto* f = dyn_cast<FunctionDecl>(d)) if(auto* a = f->getTemplateSpecializationArgs()) if(a->size() && a->get(0).getKind() == TemplateArgument::Integral) s += std::to_string(a->get(0).getAsIntegral().getExtValue());
		return s;
	}
	std::string sig(const FunctionDecl* f) {
		std::string s = "("; bool first = true;
		for(auto* p : f->parameters()) { if(!first) s += ", "; first = false; s += type(p->getType()); }
		s += ")"; if(auto* m = dyn_cast<CXXMethodDecl>(f)) if(m->isConst()) s += " const";
		return s;
	}
	void open(const char* k, SourceLocation l) { o += "[\""; o += k; o += "\","; o += std::to_string(line(l)); }
	void str(llvm::StringRef s) { o += ','; o += esc(s); }
	void num(int64_t n) { o += ','; o += std::to_string(n); }
	void close() { o += ']'; }
	void sub(const Expr* e) { o += ','; expr(e); }
	void subs(const Stmt* s) { o += ','; stmt(s); }
	template<typename R> void list(R r) { o += ",["; bool f = true; for(const Expr* e : r) { if(!f) o += ','; f = false; expr(e); } o += ']'; }

	void generic(const char* k, const Stmt* s) {
		open(k, s->getBeginLoc()); str(s->getStmtClassName()); o += ",["; bool f = true;
		for(auto* c : s->children()) { if(!c) continue; if(!f) o += ','; f = false; if(auto* e = dyn_cast<Expr>(c)) expr(e); else stmt(c); }
		o += "]]";
	}
	void vardecl(const VarDecl* v) {
		open("vd", v->getLocation()); num(id(v)); str(v->getNameAsString()); str(type(v->getType()));
		o += ','; if(v->getInit()) expr(v->getInit()); else o += "null";
		num(v->isStaticLocal() ? 1 : 0); close();
	}
	void args(const CallExpr* c, unsigned from) {
		o += ",["; bool f = true;
		for(unsigned i = from; i < c->getNumArgs(); ++i) { if(!f) o += ','; f = false; expr(c->getArg(i)); }
		o += ']';
	}
	void expr(const Expr* e) {
		if(!e) { o += "null"; return; }
		const auto L = e->getExprLoc();
		if(auto* x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
		if(auto* x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
		if(auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(x->getSubExpr());
		if(auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
		if(auto* x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
		if(auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
		if(auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
		if(auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
		if(auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());
		if(auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
		if(auto* x = dyn_cast<ImplicitCastExpr>(e)) {
			if(x->getCastKind() == CK_IntegralCast) {
				const auto s = x->getSubExpr()->getType(), d = x->getType();
				if(!isa<IntegerLiteral>(x->getSubExpr()->IgnoreParenImpCasts()) && s->isIntegerType() && d->isIntegerType() && !s->isEnumeralType()) {
					const auto sw = ctx.getIntWidth(s), dw = ctx.getIntWidth(d);
					if(dw < sw || (s->isSignedIntegerType() && d->isUnsignedIntegerType()) || (dw == sw && s->isSignedIntegerType() != d->isSignedIntegerType())) {
						open("icast", L); str(type(d)); str(type(s)); sub(x->getSubExpr()); return close();
					}
				}
			} else if(x->getCastKind() == CK_FloatingToIntegral || x->getCastKind() == CK_IntegralToFloating) {
				open("icast", L); str(type(x->getType())); str(type(x->getSubExpr()->getType())); sub(x->getSubExpr()); return close();
			}
			return expr(x->getSubExpr());
		}
		if(auto* x = dyn_cast<ExplicitCastExpr>(e)) {
			open("cast", L); str(type(x->getType())); str(type(x->getSubExpr()->getType())); sub(x->getSubExpr()); return close();
		}
		if(auto* x = dyn_cast<IntegerLiteral>(e)) { open("int", L); llvm::SmallString<40> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType()); str(s); return close(); }
		if(auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { open("int", L); str(x->getValue() ? "true" : "false"); return close(); }
		if(auto* x = dyn_cast<CharacterLiteral>(e)) { open("int", L); str(std::to_string(x->getValue())); return close(); }
		if(auto* x = dyn_cast<FloatingLiteral>(e)) { open("flt", L); llvm::SmallString<40> s; x->getValue().toString(s); str(s); return close(); }
		if(isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { open("null", L); return close(); }
		if(auto* x = dyn_cast<StringLiteral>(e)) { open("str", L); str(x->getBytes()); return close(); }
		if(isa<CXXThisExpr>(e)) { open("this", L); return close(); }
		if(auto* x = dyn_cast<DeclRefExpr>(e)) {
			const auto* d = x->getDecl();
			if(auto* c = dyn_cast<EnumConstantDecl>(d)) { open("enum", L); str(qname(c)); llvm::SmallString<40> s; c->getInitVal().toString(s, 10); str(s); return close(); }
			if(auto* v = dyn_cast<VarDecl>(d)) {
				if(v->hasGlobalStorage() && !v->isStaticLocal()) { open("glob", L); str(qname(v)); return close(); }
				open("var", L); num(id(v)); str(v->getNameAsString()); return close();
			}
			if(auto* b = dyn_cast<BindingDecl>(d)) { open("var", L); num(id(b)); str(b->getNameAsString()); return close(); }
			if(auto* f = dyn_cast<FunctionDecl>(d)) { open("fref", L); str(qname(f)); str(sig(f)); return close(); }
			open("glob", L); str(qname(d)); return close();
		}
		if(auto* x = dyn_cast<MemberExpr>(e)) {
			const auto* d = x->getMemberDecl();
			if(auto* v = dyn_cast<VarDecl>(d)) { open("glob", L); str(qname(v)); return close(); }
			if(auto* c = dyn_cast<EnumConstantDecl>(d)) { open("enum", L); str(qname(c)); llvm::SmallString<40> s; c->getInitVal().toString(s, 10); str(s); return close(); }
			open("mem", L); sub(x->getBase()); str(d->getNameAsString()); str(qname(d)); return close();
		}
		if(auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
			open("op", L); str(getOperatorSpelling(x->getOperator()));
			args(x, 0);
			if(auto* f = x->getDirectCallee()) { str(qname(f)); str(sig(f)); } else { str(""); str(""); }
			str(type(x->getType()));
			return close();
		}
		if(auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
			auto* m = x->getMethodDecl();
			if(m && isa<CXXConversionDecl>(m)) { open("conv", L); str(type(m->getReturnType())); sub(x->getImplicitObjectArgument()); return close(); }
			open("call", L); str(m ? qname(m) : ""); str(m ? sig(m) : ""); sub(x->getImplicitObjectArgument()); args(x, 0);
			str(type(x->getType()));
			bool virt = m && m->isVirtual(); if(virt) if(auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) if(me->hasQualifier()) virt = false;
			num(virt); return close();
		}
		if(auto* x = dyn_cast<CallExpr>(e)) {
			if(auto* f = x->getDirectCallee()) { open("call", L); str(qname(f)); str(sig(f)); o += ",null"; args(x, 0); str(type(x->getType())); num(0); return close(); }
			open("callx", L); sub(x->getCallee()); args(x, 0); str(type(x->getType())); return close();
		}
		if(auto* x = dyn_cast<CXXConstructExpr>(e)) {
			auto* c = x->getConstructor();
			if(c && x->getNumArgs() >= 1 && c->isCopyOrMoveConstructor()) return expr(x->getArg(0));
			open("ctor", L); str(type(x->getType()));
			o += ",["; bool f = true; for(unsigned i = 0; i < x->getNumArgs(); ++i) { if(!f) o += ','; f = false; expr(x->getArg(i)); } o += ']';
			str(c ? sig(c) : ""); return close();
		}
		if(auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) { open("ctor", L); str(type(x->getType())); o += ",[],\"()\""; return close(); }
		if(auto* x = dyn_cast<ImplicitValueInitExpr>(e)) { open("ctor", L); str(type(x->getType())); o += ",[],\"()\""; return close(); }
		if(auto* x = dyn_cast<CompoundAssignOperator>(e)) { open("asg", L); str(x->getOpcodeStr()); sub(x->getLHS()); sub(x->getRHS()); str(type(x->getLHS()->getType())); str(type(x->getComputationResultType())); return close(); }
		if(auto* x = dyn_cast<BinaryOperator>(e)) {
			if(x->isAssignmentOp()) { open("asg", L); str("="); sub(x->getLHS()); sub(x->getRHS()); str(type(x->getLHS()->getType())); return close(); }
			open("bin", L); str(x->getOpcodeStr()); sub(x->getLHS()); sub(x->getRHS()); str(type(x->getType())); str(type(x->getLHS()->getType())); return close();
		}
		if(auto* x = dyn_cast<UnaryOperator>(e)) {
			std::string s = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if(x->isPostfix()) s = "post" + s;
			open("un", L); str(s); sub(x->getSubExpr()); str(type(x->getType())); return close();
		}
		if(auto* x = dyn_cast<ConditionalOperator>(e)) { open("cond", L); sub(x->getCond()); sub(x->getTrueExpr()); sub(x->getFalseExpr()); return close(); }
		if(auto* x = dyn_cast<ArraySubscriptExpr>(e)) { open("idx", L); sub(x->getBase()); sub(x->getIdx()); return close(); }
		if(auto* x = dyn_cast<InitListExpr>(e)) { open("init", L); str(type(x->getType())); auto* y = x->isSemanticForm() ? x : x->getSemanticForm(); if(!y) y = x; list(y->inits()); return close(); }
		if(auto* x = dyn_cast<LambdaExpr>(e)) {
			open("lambda", L); o += ",["; bool f = true;
			for(auto* p : x->getCallOperator()->parameters()) { if(!f) o += ','; f = false; vardecl(p); }
			o += "],["; f = true;
			{
				unsigned i = 0; auto in = x->capture_init_begin();
				for(auto& c : x->captures()) {
					if(c.capturesVariable()) {
						if(!f) o += ','; f = false;
						open("cap", c.getLocation()); num(id(c.getCapturedVar())); str(c.getCapturedVar()->getNameAsString()); str(c.getCaptureKind() == LCK_ByRef ? "ref" : "copy");
						if(x->isInitCapture(&c)) { sub(dyn_cast<VarDecl>(c.getCapturedVar()) ? cast<VarDecl>(c.getCapturedVar())->getInit() : nullptr); } else o += ",null";
						close();
					}
					++i; ++in;
				}
			}
			o += "]"; subs(x->getBody()); return close();
		}
		if(auto* x = dyn_cast<CXXThrowExpr>(e)) { open("throw", L); sub(x->getSubExpr()); return close(); }
		if(auto* x = dyn_cast<CXXNewExpr>(e)) { open("new", L); str(type(x->getAllocatedType())); o += ",["; if(x->getConstructExpr()) expr(x->getConstructExpr()); else if(x->isArray() && x->getArraySize() && *x->getArraySize()) expr(*x->getArraySize()); o += "]"; return close(); }
		if(auto* x = dyn_cast<CXXDeleteExpr>(e)) { open("delete", L); sub(x->getArgument()); return close(); }
		if(auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
			Expr::EvalResult r; if(!x->isValueDependent() && x->EvaluateAsInt(r, ctx)) { open("int", L); llvm::SmallString<40> s; r.Val.getInt().toString(s, 10); str(s); return close(); }
			open("sizeof", L); str(x->isArgumentType() ? type(x->getArgumentType()) : ""); return close();
		}
		if(auto* x = dyn_cast<CXXDependentScopeMemberExpr>(e)) { open("dmem", L); if(x->isImplicitAccess()) o += ",null"; else sub(x->getBase()); str(x->getMember().getAsString()); return close(); }
		if(auto* x = dyn_cast<DependentScopeDeclRefExpr>(e)) { open("dref", L); str(x->getDeclName().getAsString()); return close(); }
		if(auto* x = dyn_cast<UnresolvedLookupExpr>(e)) { open("dref", L); str(x->getName().getAsString()); return close(); }
		if(auto* x = dyn_cast<UnresolvedMemberExpr>(e)) { open("dmem", L); if(x->isImplicitAccess()) o += ",null"; else sub(x->getBase()); str(x->getMemberName().getAsString()); return close(); }
		if(auto* x = dyn_cast<CXXUnresolvedConstructExpr>(e)) { open("ctor", L); str(type(x->getType())); o += ",["; bool f = true; for(unsigned i = 0; i < x->getNumArgs(); ++i) { if(!f) o += ','; f = false; expr(x->getArg(i)); } o += "],\"dep\""; return close(); }
		if(auto* x = dyn_cast<CXXTypeidExpr>(e)) { open("typeid", L); return close(); }
		if(auto* x = dyn_cast<StmtExpr>(e)) { open("stmtexpr", L); subs(x->getSubStmt()); return close(); }
		generic("x", e);
	}
	void stmt(const Stmt* s) {
		if(!s) { o += "null"; return; }
		const auto L = s->getBeginLoc();
		if(auto* x = dyn_cast<Expr>(s)) { open("expr", L); sub(x); return close(); }
		if(auto* x = dyn_cast<CompoundStmt>(s)) { open("block", L); o += ",["; bool f = true; for(auto* c : x->body()) { if(!f) o += ','; f = false; stmt(c); } o += "]"; num(line(x->getEndLoc())); return close(); }
		if(auto* x = dyn_cast<DeclStmt>(s)) {
			open("decl", L); o += ",["; bool f = true;
			for(auto* d : x->decls()) {
				if(auto* v = dyn_cast<DecompositionDecl>(d)) {
					if(!f) o += ','; f = false; open("dd", d->getLocation()); num(id(v)); o += ",["; bool g = true;
					for(auto* b : v->bindings()) { if(!g) o += ','; g = false; o += "["; o += std::to_string(id(b)); o += ","; o += esc(b->getNameAsString()); o += "]"; }
					o += "]"; sub(v->getInit()); close();
				} else if(auto* v = dyn_cast<VarDecl>(d)) { if(!f) o += ','; f = false; vardecl(v); }
			}
			o += "]"; return close();
		}
		if(auto* x = dyn_cast<IfStmt>(s)) {
			if(x->isConstexpr() && !x->getCond()->isValueDependent()) {
				Expr::EvalResult r; if(x->getCond()->EvaluateAsInt(r, ctx)) { if(r.Val.getInt().getBoolValue()) return stmt(x->getThen()); if(x->getElse()) return stmt(x->getElse()); open("nop", L); return close(); }
			}
			open("if", L); subs(x->getInit()); o += ','; if(x->getConditionVariable()) vardecl(x->getConditionVariable()); else o += "null";
			sub(x->getCond()); subs(x->getThen()); subs(x->getElse()); return close();
		}
		if(auto* x = dyn_cast<ForStmt>(s)) { open("for", L); subs(x->getInit()); sub(x->getCond()); sub(x->getInc()); subs(x->getBody()); return close(); }
		if(auto* x = dyn_cast<WhileStmt>(s)) { open("while", L); o += ','; if(x->getConditionVariable()) vardecl(x->getConditionVariable()); else o += "null"; sub(x->getCond()); subs(x->getBody()); return close(); }
		if(auto* x = dyn_cast<DoStmt>(s)) { open("do", L); subs(x->getBody()); sub(x->getCond()); return close(); }
		if(auto* x = dyn_cast<CXXForRangeStmt>(s)) {
			open("rfor", L); auto* v = x->getLoopVariable();
			o += ','; if(auto* d = dyn_cast<DecompositionDecl>(v)) {
				open("dd", v->getLocation()); num(id(v)); o += ",["; bool g = true;
				for(auto* b : d->bindings()) { if(!g) o += ','; g = false; o += "["; o += std::to_string(id(b)); o += ","; o += esc(b->getNameAsString()); o += "]"; }
				o += "],null"; close();
			} else { open("vd", v->getLocation()); num(id(v)); str(v->getNameAsString()); str(type(v->getType())); o += ",null,0"; close(); }
			sub(x->getRangeInit()); subs(x->getBody()); return close();
		}
		if(auto* x = dyn_cast<SwitchStmt>(s)) { open("switch", L); subs(x->getInit()); o += ','; if(x->getConditionVariable()) vardecl(x->getConditionVariable()); else o += "null"; sub(x->getCond()); subs(x->getBody()); return close(); }
		if(auto* x = dyn_cast<CaseStmt>(s)) { open("case", L); sub(x->getLHS()); sub(x->getRHS()); subs(x->getSubStmt()); return close(); }
		if(auto* x = dyn_cast<DefaultStmt>(s)) { open("default", L); subs(x->getSubStmt()); return close(); }
		if(auto* x = dyn_cast<ReturnStmt>(s)) { open("ret", L); sub(x->getRetValue()); return close(); }
		if(isa<BreakStmt>(s)) { open("break", L); return close(); }
		if(isa<ContinueStmt>(s)) { open("cont", L); return close(); }
		if(isa<NullStmt>(s)) { open("nop", L); return close(); }
		if(auto* x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
		if(auto* x = dyn_cast<CXXTryStmt>(s)) {
			open("try", L); subs(x->getTryBlock()); o += ",[";
			for(unsigned i = 0; i < x->getNumHandlers(); ++i) {
				if(i) o += ','; auto* h = x->getHandler(i); open("catch", h->getBeginLoc());
				str(h->getCaughtType().isNull() ? "..." : type(h->getCaughtType())); o += ','; if(h->getExceptionDecl()) vardecl(h->getExceptionDecl()); else o += "null";
				subs(h->getHandlerBlock()); close();
			}
			o += "]"; return close();
		}
		if(auto* x = dyn_cast<LabelStmt>(s)) { open("label", L); str(x->getName()); subs(x->getSubStmt()); return close(); }
		if(auto* x = dyn_cast<GotoStmt>(s)) { open("goto", L); str(x->getLabel()->getName()); return close(); }
		generic("sx", s);
	}
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
	ASTContext& ctx; SourceManager& sm; std::set<std::string> seen; std::vector<std::string> items;
	explicit Visitor(ASTContext& c) : ctx(c), sm(c.getSourceManager()) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return false; }
	std::string file(SourceLocation l) {
		l = sm.getExpansionLoc(l);
		auto fe = sm.getFileEntryRefForID(sm.getFileID(l)); if(!fe) return "";
		std::string p = fe->getName().str(); 
		if(p.rfind(g_root, 0) == 0) p = p.substr(g_root.size());
		while(p.rfind("./", 0) == 0) p = p.substr(2);
		return p;
	}
	bool want(const std::string& f) { for(auto& p : g_prefix) if(f.rfind(p, 0) == 0) return true; return false; }

	bool VisitFunctionDecl(FunctionDecl* f) {
		if(!f->doesThisDeclarationHaveABody() || f->isImplicit() || f->isDefaulted()) return true;
		if(auto* m = dyn_cast<CXXMethodDecl>(f)) if(m->getParent()->isLambda()) return true;
		auto fn = file(f->getLocation()); if(fn.empty() || !want(fn)) return true;
		const bool dep = f->isDependentContext();
		Dumper d(ctx);
		std::string name = d.qname(f);
		std::string s = "{\"k\":\"fn\",\"name\":" + esc(name) + ",\"sig\":" + esc(d.sig(f)) + ",\"file\":" + esc(fn)
			+ ",\"line\":" + std::to_string(d.line(f->getLocation())) + ",\"end\":" + std::to_string(d.line(f->getEndLoc())) + ",\"ret\":" + esc(d.type(f->getReturnType())) + ",\"dep\":" + (dep ? "1" : "0")
			+ ",\"inst\":" + (f->isTemplateInstantiation() ? "1" : "0");
		if(auto* m = dyn_cast<CXXMethodDecl>(f)) {
			s += ",\"cls\":" + esc(d.qname(m->getParent())) + ",\"virt\":" + (m->isVirtual() ? "1" : "0") + ",\"static\":" + (m->isStatic() ? "1" : "0") + ",\"const\":" + (m->isConst() ? "1" : "0") + ",\"acc\":" + std::to_string(m->getAccess());
			std::string ov; for(auto* b : m->overridden_methods()) { if(!ov.empty()) ov += ","; ov += esc(d.qname(b)); }
			s += ",\"over\":[" + ov + "]";
			if(f->isTemplateInstantiation() || isa<ClassTemplateSpecializationDecl>(m->getParent())) { std::string ts; if(auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(m->getParent())) ts = d.type(ctx.getRecordType(sp)); s += ",\"spec\":" + esc(ts); }
		}
		d.o.clear(); d.o = "["; bool first = true;
		for(auto* p : f->parameters()) { if(!first) d.o += ','; first = false; d.vardecl(p); }
		d.o += "]"; s += ",\"params\":" + d.o; d.o.clear();
		if(auto* c = dyn_cast<CXXConstructorDecl>(f)) {
			d.o = "["; first = true;
			for(auto* i : c->inits()) { if(!i->isWritten() && !i->isInClassMemberInitializer()) continue; if(!first) d.o += ','; first = false; d.o += "["; d.o += i->isAnyMemberInitializer() ? esc(i->getAnyMember()->getNameAsString()) : esc(std::string("base:") + (i->isBaseInitializer() ? d.type(QualType(i->getBaseClass(), 0)) : std::string("self"))); d.o += ','; d.expr(i->getInit()); d.o += "]"; }
			d.o += "]"; s += ",\"inits\":" + d.o; d.o.clear();
		}
		d.stmt(f->getBody()); s += ",\"body\":" + d.o + "}";
		if(seen.insert(name + d.sig(f) + fn + std::to_string(f->isTemplateInstantiation()) + (dep ? "d" : "")).second) items.push_back(s);
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl* r) {
		if(!r->isThisDeclarationADefinition() || r->isLambda() || r->isImplicit()) return true;
		auto fn = file(r->getLocation()); if(fn.empty() || !want(fn)) return true;
		Dumper d(ctx); std::string s = "{\"k\":\"rec\",\"name\":" + esc(d.qname(r)) + ",\"file\":" + esc(fn) + ",\"line\":" + std::to_string(d.line(r->getLocation())) + ",\"bases\":[";
		bool first = true; for(auto& b : r->bases()) { if(!first) s += ','; first = false; s += esc(d.type(b.getType())); }
		s += "],\"fields\":["; first = true;
		for(auto* f : r->fields()) { if(!first) s += ','; first = false; d.o.clear(); if(f->hasInClassInitializer()) d.expr(f->getInClassInitializer()); else d.o = "null"; s += "[" + esc(f->getNameAsString()) + "," + esc(d.type(f->getType())) + "," + d.o + "," + std::to_string(f->getAccess()) + "]"; }
		s += "],\"methods\":["; first = true;
		for(auto* m : r->methods()) { if(m->isImplicit()) continue; if(!first) s += ','; first = false; s += "[" + esc(m->getNameAsString()) + "," + esc(d.sig(m)) + "," + std::to_string(m->getAccess()) + "," + (m->isVirtual() ? "1" : "0") + "]"; }
		s += "]}";
		if(seen.insert("R" + d.qname(r) + fn + std::to_string(d.line(r->getLocation())) + (isa<ClassTemplateSpecializationDecl>(r) ? d.type(ctx.getRecordType(r)) : "")).second) items.push_back(s);
		return true;
	}
	bool VisitEnumDecl(EnumDecl* e) {
		if(!e->isThisDeclarationADefinition()) return true;
		auto fn = file(e->getLocation()); if(fn.empty() || !want(fn)) return true;
		Dumper d(ctx); std::string s = "{\"k\":\"enum\",\"name\":" + esc(d.qname(e)) + ",\"file\":" + esc(fn) + ",\"line\":" + std::to_string(d.line(e->getLocation())) + ",\"values\":[";
		bool first = true; for(auto* c : e->enumerators()) { if(!first) s += ','; first = false; llvm::SmallString<40> v; c->getInitVal().toString(v, 10); s += "[" + esc(c->getNameAsString()) + "," + esc(v) + "]"; }
		s += "]}"; if(seen.insert("E" + d.qname(e) + std::to_string(d.line(e->getLocation()))).second) items.push_back(s);
		return true;
	}
	bool VisitVarDecl(VarDecl* v) {
		if(!v->hasGlobalStorage() || v->isStaticLocal() || isa<ParmVarDecl>(v)) return true;
		auto fn = file(v->getLocation()); if(fn.empty() || !want(fn)) return true;
		Dumper d(ctx); d.o.clear(); if(v->getInit()) d.expr(v->getInit()); else d.o = "null";
		std::string val = "null"; 
		if(v->getInit() && !v->getInit()->isValueDependent() && v->getType()->isIntegerType()) { Expr::EvalResult r; if(v->getInit()->EvaluateAsInt(r, ctx)) { llvm::SmallString<40> s; r.Val.getInt().toString(s, 10); val = esc(s); } }
		std::string s = "{\"k\":\"var\",\"name\":" + esc(d.qname(v)) + ",\"file\":" + esc(fn) + ",\"line\":" + std::to_string(d.line(v->getLocation())) + ",\"type\":" + esc(d.type(v->getType())) + ",\"val\":" + val + ",\"init\":" + d.o + "}";
		if(seen.insert("V" + d.qname(v) + (v->getInit() ? "i" : "")).second) items.push_back(s);
		return true;
	}
};

class Consumer : public ASTConsumer {
public:
	void HandleTranslationUnit(ASTContext& ctx) override {
		Visitor v(ctx); v.TraverseDecl(ctx.getTranslationUnitDecl());
		for(auto& s : v.items) { if(!g_first) *g_out << ",\n"; g_first = false; *g_out << s; }
	}
};
class Action : public ASTFrontendAction {
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char** argv)
{
	// usage: extract OUT.json ROOT/ prefix[,prefix...] file -- clang args
	if(argc < 6) return 3;
	g_root = argv[2];
	{ std::string p = argv[3], c; for(char ch : p + ",") { if(ch == ',') { if(!c.empty()) g_prefix.push_back(c); c.clear(); } else c += ch; } }
	std::string file = argv[4];
	std::vector<std::string> args; for(int i = 6; i < argc; ++i) args.push_back(argv[i]);
	std::error_code ec; llvm::raw_fd_ostream out(argv[1], ec); if(ec) return 3;
	g_out = &out; out << "[\n";
	tooling::FixedCompilationDatabase db(".", args);
	tooling::ClangTool tool(db, {file});
	const int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
	out << "\n]\n"; out.flush();
	return rc;
}
