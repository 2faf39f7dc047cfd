// Fact extractor: dumps the typed syntax tree of every function defined in the
// repository (one JSON line per entity) from clang's resolved program.
// usage: c3facts <repo-root> <out.jsonl> <source> -- <compile flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Stmt.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;

static std::string g_root;
static llvm::raw_fd_ostream *g_out;

static void jstr(llvm::raw_ostream &o, llvm::StringRef s)
{
	o << '"';
	for (unsigned char ch : s)
	{
		switch (ch)
		{
			case '"': o << "\\\""; break;
			case '\\': o << "\\\\"; break;
			case '\n': o << "\\n"; break;
			case '\r': o << "\\r"; break;
			case '\t': o << "\\t"; break;
			default:
				if (ch < 32 || ch >= 127)
				{
					char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o << b;
				}
				else o << (char)ch;
		}
	}
	o << '"';
}

struct Dumper
{
	ASTContext &ctx;
	SourceManager &sm;
	llvm::raw_ostream &o;
	PrintingPolicy pp;
	std::map<std::string, int> types;
	std::vector<std::string> typedefs;
	std::map<const Decl *, int> locals;
	std::set<const Decl *> seen_records;

	Dumper(ASTContext &c, llvm::raw_ostream &o) : ctx(c), sm(c.getSourceManager()), o(o), pp(c.getLangOpts())
	{
		pp.SuppressTagKeyword = false;
		pp.AnonymousTagLocations = true;
	}

	bool in_repo(SourceLocation loc, std::string &file, unsigned &line)
	{
		if (loc.isInvalid()) return false;
		PresumedLoc p = sm.getPresumedLoc(sm.getExpansionLoc(loc));
		if (p.isInvalid()) return false;
		file = p.getFilename();
		line = p.getLine();
		llvm::StringRef f(file);
		if (!f.starts_with(g_root)) return false;
		file = f.substr(g_root.size()).ltrim('/').str();
		if (llvm::StringRef(file).starts_with("dependencies")) return false;
		return true;
	}
	unsigned line(SourceLocation loc)
	{
		PresumedLoc p = sm.getPresumedLoc(sm.getExpansionLoc(loc));
		return p.isInvalid() ? 0 : p.getLine();
	}
	std::string tstr(QualType t)
	{
		if (t.isNull()) return "?";
		QualType c = t.getCanonicalType();
		std::string s = c.getAsString(pp);
		size_t p;
		std::string rp = g_root + "/";
		while ((p = s.find(rp)) != std::string::npos) s.erase(p, rp.size());
		// keep a typedef name for anonymous records
		return s;
	}
	int tid(QualType t)
	{
		std::string s = tstr(t);
		auto it = types.find(s);
		if (it != types.end()) return it->second;
		int id = types.size();
		types[s] = id;
		typedefs.push_back(s);
		return id;
	}
	std::string recname(const RecordDecl *rd)
	{
		if (!rd) return "?";
		if (rd->getTypedefNameForAnonDecl()) return rd->getTypedefNameForAnonDecl()->getNameAsString();
		if (!rd->getNameAsString().empty()) return rd->getNameAsString();
		return tstr(ctx.getRecordType(rd));
	}
	const Expr *strip(const Expr *e)
	{
		while (e)
		{
			if (auto p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
			if (auto p = dyn_cast<ConstantExpr>(e)) { e = p->getSubExpr(); continue; }
			if (auto p = dyn_cast<ExprWithCleanups>(e)) { e = p->getSubExpr(); continue; }
			if (auto p = dyn_cast<MaterializeTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
			if (auto p = dyn_cast<GenericSelectionExpr>(e)) { e = p->getResultExpr(); continue; }
			if (auto p = dyn_cast<ImplicitCastExpr>(e))
			{
				switch (p->getCastKind())
				{
					case CK_IntegralCast:
					case CK_FloatingToIntegral:
					case CK_IntegralToFloating:
					case CK_FloatingCast:
					case CK_IntegralToBoolean:
						return e;
					default:
						e = p->getSubExpr();
						continue;
				}
			}
			return e;
		}
		return e;
	}
	int local_id(const Decl *d)
	{
		auto it = locals.find(d);
		if (it != locals.end()) return it->second;
		int id = locals.size();
		locals[d] = id;
		return id;
	}
	void hdr(const char *k, SourceLocation loc, QualType t)
	{
		o << "[\"" << k << "\"," << line(loc) << "," << tid(t);
	}
	void int_node(const llvm::APSInt &v)
	{
		llvm::SmallString<40> s;
		v.toString(s, 10);
		o << s;
	}
	void expr(const Expr *e0)
	{
		const Expr *e = strip(e0);
		if (!e) { o << "null"; return; }
		SourceLocation L = e->getExprLoc();
		QualType T = e->getType();
		if (auto x = dyn_cast<IntegerLiteral>(e))
		{
			hdr("int", L, T); o << ","; int_node(llvm::APSInt(x->getValue(), T->isUnsignedIntegerType())); o << "]"; return;
		}
		if (auto x = dyn_cast<CharacterLiteral>(e)) { hdr("int", L, T); o << "," << x->getValue() << "]"; return; }
		if (auto x = dyn_cast<CXXBoolLiteralExpr>(e)) { hdr("int", L, T); o << "," << (x->getValue() ? 1 : 0) << "]"; return; }
		if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { hdr("int", L, T); o << ",0]"; return; }
		if (auto x = dyn_cast<FloatingLiteral>(e))
		{
			hdr("flt", L, T); o << ",\"" << x->getValueAsApproximateDouble() << "\"]"; return;
		}
		if (auto x = dyn_cast<clang::StringLiteral>(e)) { hdr("str", L, T); o << ","; jstr(o, x->getBytes()); o << "]"; return; }
		if (auto x = dyn_cast<PredefinedExpr>(e)) { hdr("str", L, T); o << ","; jstr(o, x->getFunctionName() ? x->getFunctionName()->getBytes() : ""); o << "]"; return; }
		if (auto x = dyn_cast<DeclRefExpr>(e))
		{
			const ValueDecl *d = x->getDecl();
			if (auto ec = dyn_cast<EnumConstantDecl>(d))
			{
				hdr("enum", L, T); o << ","; jstr(o, ec->getNameAsString()); o << ","; int_node(ec->getInitVal()); o << "]"; return;
			}
			if (auto fd = dyn_cast<FunctionDecl>(d))
			{
				hdr("fn", L, T); o << ","; jstr(o, fd->getNameAsString()); o << "," << (fd->isNoReturn() ? 1 : 0) << "]"; return;
			}
			if (auto vd = dyn_cast<VarDecl>(d))
			{
				if (vd->hasGlobalStorage() && !vd->isStaticLocal())
				{
					hdr("glob", L, T); o << ","; jstr(o, vd->getNameAsString()); o << "]"; return;
				}
				hdr("var", L, T); o << "," << local_id(vd) << ","; jstr(o, vd->getNameAsString()); o << "," << (isa<ParmVarDecl>(vd) ? 1 : vd->isStaticLocal() ? 2 : 0) << "]"; return;
			}
			hdr("unk", L, T); o << ",\"ref\"]"; return;
		}
		if (auto x = dyn_cast<MemberExpr>(e))
		{
			hdr("mem", L, T); o << ","; expr(x->getBase()); o << ","; jstr(o, x->getMemberDecl()->getNameAsString());
			o << "," << (x->isArrow() ? 1 : 0) << ",";
			const RecordDecl *rd = nullptr;
			if (auto fd = dyn_cast<FieldDecl>(x->getMemberDecl())) rd = fd->getParent();
			if (rd) { record(rd); jstr(o, recname(rd)); } else o << "\"\"";
			o << "]"; return;
		}
		if (auto x = dyn_cast<ArraySubscriptExpr>(e)) { hdr("idx", L, T); o << ","; expr(x->getBase()); o << ","; expr(x->getIdx()); o << "]"; return; }
		if (auto x = dyn_cast<clang::UnaryOperator>(e))
		{
			hdr("un", L, T); o << ",\"" << (x->isPostfix() ? "p" : "") << UnaryOperator::getOpcodeStr(x->getOpcode()) << "\","; expr(x->getSubExpr()); o << "]"; return;
		}
		if (auto x = dyn_cast<clang::BinaryOperator>(e))
		{
			hdr("bin", L, T); o << ",\"" << x->getOpcodeStr() << "\","; expr(x->getLHS()); o << ","; expr(x->getRHS()); o << "]"; return;
		}
		if (auto x = dyn_cast<ConditionalOperator>(e)) { hdr("cond", L, T); o << ","; expr(x->getCond()); o << ","; expr(x->getTrueExpr()); o << ","; expr(x->getFalseExpr()); o << "]"; return; }
		if (auto x = dyn_cast<BinaryConditionalOperator>(e)) { hdr("elvis", L, T); o << ","; expr(x->getCommon()); o << ","; expr(x->getFalseExpr()); o << "]"; return; }
		if (auto x = dyn_cast<OpaqueValueExpr>(e)) { expr(x->getSourceExpr()); return; }
		if (auto x = dyn_cast<CallExpr>(e))
		{
			bool nr = false;
			std::string macro;
			if (auto fd = x->getDirectCallee()) nr = fd->isNoReturn();
			hdr("call", x->getBeginLoc(), T); o << ","; 
			expr(x->getCallee());
			o << ",[";
			bool first = true;
			if (auto m = dyn_cast<CXXMemberCallExpr>(x)) { (void)m; }
			for (auto a : x->arguments()) { if (!first) o << ","; first = false; expr(a); }
			o << "]," << (nr ? 1 : 0) << "]"; return;
		}
		if (auto x = dyn_cast<CastExpr>(e))
		{
			hdr(isa<ImplicitCastExpr>(e) ? "icast" : "cast", L, T); o << ",\"" << x->getCastKindName() << "\","; expr(x->getSubExpr()); o << "]"; return;
		}
		if (auto x = dyn_cast<CompoundLiteralExpr>(e)) { hdr("clit", L, T); o << ","; expr(x->getInitializer()); o << "]"; return; }
		if (auto x = dyn_cast<InitListExpr>(e))
		{
			if (x->isSyntacticForm() && x->getSemanticForm()) x = x->getSemanticForm();
			hdr("init", L, T); o << ",[";
			QualType ct = T.getCanonicalType();
			bool first = true;
			if (auto rt = ct->getAs<RecordType>())
			{
				auto rd = rt->getDecl();
				record(rd);
				if (rd->isUnion())
				{
					if (x->getInitializedFieldInUnion() && x->getNumInits() > 0)
					{
						o << "["; jstr(o, x->getInitializedFieldInUnion()->getNameAsString()); o << ","; expr(x->getInit(0)); o << "]";
					}
				}
				else
				{
					unsigned i = 0;
					for (auto f : rd->fields())
					{
						if (f->isUnnamedBitfield()) continue;
						if (i >= x->getNumInits()) break;
						auto in = x->getInit(i++);
						if (!in || isa<ImplicitValueInitExpr>(in)) continue;
						if (!first) o << ","; first = false;
						o << "["; jstr(o, f->getNameAsString()); o << ","; expr(in); o << "]";
					}
				}
			}
			else
			{
				for (unsigned i = 0; i < x->getNumInits(); i++)
				{
					auto in = x->getInit(i);
					if (!in || isa<ImplicitValueInitExpr>(in)) continue;
					if (!first) o << ","; first = false;
					o << "[" << i << ","; expr(in); o << "]";
				}
			}
			o << "]]"; return;
		}
		if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
		{
			hdr("sizeof", L, T); o << ",";
			Expr::EvalResult r;
			if (!x->isValueDependent() && x->EvaluateAsInt(r, ctx)) int_node(r.Val.getInt()); else o << "null";
			o << ","; jstr(o, tstr(x->getTypeOfArgument())); o << "]"; return;
		}
		if (auto x = dyn_cast<OffsetOfExpr>(e))
		{
			hdr("int", L, T); o << ",";
			Expr::EvalResult r;
			if (x->EvaluateAsInt(r, ctx)) int_node(r.Val.getInt()); else o << "0";
			o << "]"; return;
		}
		if (auto x = dyn_cast<StmtExpr>(e)) { hdr("sexpr", L, T); o << ","; stmt(x->getSubStmt()); o << "]"; return; }
		if (auto x = dyn_cast<VAArgExpr>(e)) { hdr("vaarg", L, T); o << ","; expr(x->getSubExpr()); o << "]"; return; }
		if (isa<ImplicitValueInitExpr>(e)) { hdr("zero", L, T); o << "]"; return; }
		// fallthrough: unknown
		hdr("unk", L, T); o << ",\"" << e->getStmtClassName() << "\"";
		for (auto ch : e->children())
		{
			if (auto ce = dyn_cast_or_null<Expr>(ch)) { o << ","; expr(ce); }
		}
		o << "]";
	}
	void vardecl(const VarDecl *vd)
	{
		o << "[" << local_id(vd) << ","; jstr(o, vd->getNameAsString()); o << "," << tid(vd->getType()) << ",";
		if (vd->getInit()) expr(vd->getInit()); else o << "null";
		o << "," << (vd->isStaticLocal() ? 1 : 0) << "," << line(vd->getLocation()) << "]";
	}
	void stmt(const Stmt *s)
	{
		if (!s) { o << "null"; return; }
		unsigned ln = line(s->getBeginLoc());
		if (auto x = dyn_cast<CompoundStmt>(s))
		{
			o << "[\"blk\"," << ln;
			for (auto c : x->body()) { o << ","; stmt(c); }
			o << "]"; return;
		}
		if (auto x = dyn_cast<DeclStmt>(s))
		{
			o << "[\"decl\"," << ln << ",[";
			bool first = true;
			for (auto d : x->decls())
			{
				if (auto vd = dyn_cast<VarDecl>(d)) { if (!first) o << ","; first = false; vardecl(vd); }
			}
			o << "]]"; return;
		}
		if (auto x = dyn_cast<IfStmt>(s)) { o << "[\"if\"," << ln << ","; expr(x->getCond()); o << ","; stmt(x->getThen()); o << ","; stmt(x->getElse()); o << "]"; return; }
		if (auto x = dyn_cast<WhileStmt>(s)) { o << "[\"while\"," << ln << ","; expr(x->getCond()); o << ","; stmt(x->getBody()); o << "]"; return; }
		if (auto x = dyn_cast<DoStmt>(s)) { o << "[\"do\"," << ln << ","; expr(x->getCond()); o << ","; stmt(x->getBody()); o << "]"; return; }
		if (auto x = dyn_cast<ForStmt>(s)) { o << "[\"for\"," << ln << ","; stmt(x->getInit()); o << ","; if (x->getCond()) expr(x->getCond()); else o << "null"; o << ","; if (x->getInc()) expr(x->getInc()); else o << "null"; o << ","; stmt(x->getBody()); o << "]"; return; }
		if (auto x = dyn_cast<SwitchStmt>(s)) { o << "[\"switch\"," << ln << ","; expr(x->getCond()); o << ","; stmt(x->getBody()); o << "," << (x->isAllEnumCasesCovered() ? 1 : 0) << "," << tid(x->getCond()->IgnoreParenImpCasts()->getType()) << "]"; return; }
		if (auto x = dyn_cast<CaseStmt>(s))
		{
			o << "[\"case\"," << ln << ",";
			expr(x->getLHS()); o << ",";
			auto ev = [&](const Expr *e) { Expr::EvalResult r; if (e && !e->isValueDependent() && e->EvaluateAsInt(r, ctx)) int_node(r.Val.getInt()); else o << "null"; };
			ev(x->getLHS()); o << ","; ev(x->getRHS()); o << ","; stmt(x->getSubStmt()); o << "]"; return;
		}
		if (auto x = dyn_cast<DefaultStmt>(s)) { o << "[\"default\"," << ln << ","; stmt(x->getSubStmt()); o << "]"; return; }
		if (auto x = dyn_cast<LabelStmt>(s)) { o << "[\"label\"," << ln << ","; jstr(o, x->getDecl()->getNameAsString()); o << ","; stmt(x->getSubStmt()); o << "]"; return; }
		if (auto x = dyn_cast<GotoStmt>(s)) { o << "[\"goto\"," << ln << ","; jstr(o, x->getLabel()->getNameAsString()); o << "]"; return; }
		if (isa<BreakStmt>(s)) { o << "[\"break\"," << ln << "]"; return; }
		if (isa<ContinueStmt>(s)) { o << "[\"continue\"," << ln << "]"; return; }
		if (auto x = dyn_cast<ReturnStmt>(s)) { o << "[\"ret\"," << ln << ","; if (x->getRetValue()) expr(x->getRetValue()); else o << "null"; o << "]"; return; }
		if (isa<NullStmt>(s)) { o << "[\"nop\"," << ln << "]"; return; }
		if (auto x = dyn_cast<AttributedStmt>(s)) { stmt(x->getSubStmt()); return; }
		if (auto x = dyn_cast<Expr>(s)) { o << "[\"expr\"," << ln << ","; expr(x); o << "]"; return; }
		o << "[\"unks\"," << ln << ",\"" << s->getStmtClassName() << "\"";
		for (auto ch : s->children())
		{
			if (auto ce = dyn_cast_or_null<Expr>(ch)) { o << ",[\"expr\"," << ln << ","; expr(ce); o << "]"; }
			else if (ch) { o << ","; stmt(ch); }
		}
		o << "]";
	}
	std::vector<const RecordDecl *> pending;
	void record(const RecordDecl *rd)
	{
		rd = rd->getDefinition() ? rd->getDefinition() : rd;
		if (!seen_records.insert(rd).second) return;
		pending.push_back(rd);
	}
	void flush_records()
	{
		for (size_t i = 0; i < pending.size(); i++)
		{
			auto rd = pending[i];
			std::string f; unsigned l = 0;
			bool mine = in_repo(rd->getLocation(), f, l);
			o << "{\"k\":\"rec\",\"name\":"; jstr(o, recname(rd)); o << ",\"file\":"; jstr(o, mine ? f : ""); o << ",\"line\":" << l << ",\"union\":" << (rd->isUnion() ? 1 : 0) << ",\"fields\":[";
			bool first = true;
			for (auto fd : rd->fields())
			{
				if (!first) o << ","; first = false;
				QualType ft = fd->getType();
				o << "["; jstr(o, fd->getNameAsString()); o << ",";
				jstr(o, tstr(ft)); o << ",";
				std::string written = ft.getAsString(pp);
				std::string rp = g_root + "/"; size_t p;
				while ((p = written.find(rp)) != std::string::npos) written.erase(p, rp.size());
				jstr(o, written);
				o << "," << (fd->isBitField() && !fd->getBitWidth()->isValueDependent() ? (int)fd->getBitWidthValue(ctx) : -1);
				std::string inner;
				QualType b = ft.getCanonicalType();
				if (auto at = dyn_cast<ArrayType>(b.getTypePtr())) b = at->getElementType().getCanonicalType();
				if (auto rt = b->getAs<RecordType>()) { record(rt->getDecl()); inner = recname(rt->getDecl()); }
				o << ","; jstr(o, inner); o << "]";
			}
			o << "]}\n";
		}
		pending.clear();
	}
	void function(const FunctionDecl *fd)
	{
		std::string f; unsigned l;
		if (!fd->doesThisDeclarationHaveABody()) return;
		if (!in_repo(fd->getLocation(), f, l)) return;
		locals.clear();
		o << "{\"k\":\"fn\",\"name\":"; jstr(o, fd->getNameAsString()); o << ",\"file\":"; jstr(o, f);
		o << ",\"line\":" << l << ",\"end\":" << line(fd->getEndLoc()) << ",\"static\":" << (fd->getStorageClass() == SC_Static || fd->isInlineSpecified() ? 1 : 0);
		o << ",\"noret\":" << (fd->isNoReturn() ? 1 : 0) << ",\"variadic\":" << (fd->isVariadic() ? 1 : 0);
		o << ",\"ret\":"; jstr(o, tstr(fd->getReturnType())); o << ",\"params\":[";
		bool first = true;
		for (auto p : fd->parameters())
		{
			if (!first) o << ","; first = false;
			o << "[" << local_id(p) << ","; jstr(o, p->getNameAsString()); o << ","; jstr(o, tstr(p->getType())); o << "]";
		}
		o << "],\"body\":";
		stmt(fd->getBody());
		o << "}\n";
	}
	void fproto(const FunctionDecl *fd)
	{
		std::string f; unsigned l;
		if (!in_repo(fd->getLocation(), f, l)) return;
		int fmt = 0, fa = 0;
		if (auto a = fd->getAttr<FormatAttr>()) { fmt = a->getFormatIdx(); fa = a->getFirstArg(); }
		o << "{\"k\":\"proto\",\"name\":"; jstr(o, fd->getNameAsString()); o << ",\"file\":"; jstr(o, f); o << ",\"line\":" << l;
		o << ",\"ret\":"; jstr(o, tstr(fd->getReturnType())); o << ",\"noret\":" << (fd->isNoReturn() ? 1 : 0) << ",\"nodiscard\":" << (fd->hasAttr<WarnUnusedResultAttr>() ? 1 : 0) << ",\"fmt\":[" << fmt << "," << fa << "],\"nparams\":" << fd->getNumParams() << ",\"variadic\":" << (fd->isVariadic() ? 1 : 0) << "}\n";
	}
	void decl(const Decl *d)
	{
		std::string f; unsigned l;
		if (auto ls = dyn_cast<LinkageSpecDecl>(d)) { for (auto x : ls->decls()) decl(x); return; }
		if (auto ns = dyn_cast<NamespaceDecl>(d)) { for (auto x : ns->decls()) decl(x); return; }
		if (auto fd = dyn_cast<FunctionDecl>(d)) { fproto(fd); function(fd); return; }
		if (auto ed = dyn_cast<EnumDecl>(d))
		{
			if (!ed->isCompleteDefinition()) return;
			if (!in_repo(ed->getLocation(), f, l) && !ed->getNameAsString().empty() && !llvm::StringRef(ed->getNameAsString()).starts_with("LLVM")) {
				// LLVM enums are kept by prefix of their typedef
			}
			bool mine = in_repo(ed->getLocation(), f, l);
			std::string n = ed->getNameAsString();
			if (n.empty() && ed->getTypedefNameForAnonDecl()) n = ed->getTypedefNameForAnonDecl()->getNameAsString();
			bool llvm_enum = llvm::StringRef(n).starts_with("LLVM");
			if (!mine && !llvm_enum) return;
			o << "{\"k\":\"enum\",\"name\":"; jstr(o, n.empty() ? tstr(ctx.getEnumType(ed)) : n); o << ",\"file\":"; jstr(o, mine ? f : ""); o << ",\"line\":" << l << ",\"vals\":[";
			bool first = true;
			for (auto c : ed->enumerators()) { if (!first) o << ","; first = false; o << "["; jstr(o, c->getNameAsString()); o << ","; int_node(c->getInitVal()); o << "]"; }
			o << "]}\n";
			return;
		}
		if (auto vd = dyn_cast<VarDecl>(d))
		{
			if (!in_repo(vd->getLocation(), f, l)) return;
			locals.clear();
			o << "{\"k\":\"gvar\",\"name\":"; jstr(o, vd->getNameAsString()); o << ",\"file\":"; jstr(o, f); o << ",\"line\":" << l << ",\"type\":"; jstr(o, tstr(vd->getType()));
			o << ",\"const\":" << (ctx.getBaseElementType(vd->getType()).isConstQualified() ? 1 : 0);
			o << ",\"tls\":" << (vd->getTLSKind() != VarDecl::TLS_None ? 1 : 0) << ",\"static\":" << (vd->getStorageClass() == SC_Static ? 1 : 0) << ",\"extern\":" << (vd->hasExternalStorage() && !vd->getInit() ? 1 : 0) << ",\"init\":";
			if (vd->getInit()) expr(vd->getInit()); else o << "null";
			o << "}\n";
			return;
		}
		if (auto rd = dyn_cast<RecordDecl>(d))
		{
			if (rd->isCompleteDefinition() && in_repo(rd->getLocation(), f, l)) record(rd);
			return;
		}
	}
	void types_out()
	{
		o << "{\"k\":\"types\",\"t\":[";
		bool first = true;
		for (auto &t : typedefs) { if (!first) o << ","; first = false; jstr(o, t); }
		o << "]}\n";
	}
};

struct Consumer : ASTConsumer
{
	void HandleTranslationUnit(ASTContext &ctx) override
	{
		Dumper d(ctx, *g_out);
		for (auto x : ctx.getTranslationUnitDecl()->decls()) d.decl(x);
		d.flush_records();
		d.types_out();
		*g_out << "{\"k\":\"end\",\"errors\":" << (ctx.getDiagnostics().hasErrorOccurred() ? 1 : 0) << "}\n";
	}
};
struct Action : ASTFrontendAction
{
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char **argv)
{
	if (argc < 5) return 2;
	g_root = argv[1];
	std::error_code ec;
	llvm::raw_fd_ostream out(argv[2], ec);
	if (ec) return 2;
	g_out = &out;
	std::string src = argv[3];
	std::vector<std::string> args;
	for (int i = 5; i < argc; i++) args.push_back(argv[i]);
	tooling::FixedCompilationDatabase db(".", args);
	tooling::ClangTool tool(db, {src});
	return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
