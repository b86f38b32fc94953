// vexport: dumps the type-checked AST (functions, template instantiations, lambdas, OpenMP directives, record and
// enum definitions) of everything that is defined below the given root directories, as one JSON document.
// usage: vexport --root=DIR [--root=DIR] [--lib=REGEX] OUT.json -- SOURCE FLAGS...
#include <clang/AST/AST.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtOpenMP.h>
#include <clang/AST/OpenMPClause.h>
#include <clang/AST/Mangle.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Lex/Lexer.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <deque>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string LibRe;
static std::string OutFile;

struct Exporter {
	ASTContext &C;
	SourceManager &SM;
	PrintingPolicy PP;
	std::map<const Decl*, int> declIds;
	std::map<const void*, int> typeIds;
	json::Array types;
	json::Object records, functions, vars, enums;
	std::map<std::string, int> fileIds;
	json::Array files;
	std::deque<const FunctionDecl*> work;
	std::set<const FunctionDecl*> seenFn;
	std::set<const Decl*> seenRec, seenEnum, seenVar;
	std::unique_ptr<llvm::Regex> lib;

	Exporter(ASTContext &c): C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
		PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true;
		if(!LibRe.empty()) lib = std::make_unique<llvm::Regex>(LibRe);
	}

	int id(const Decl *d) {
		d = d->getCanonicalDecl();
		auto it = declIds.find(d);
		if(it != declIds.end()) return it->second;
		int n = (int)declIds.size() + 1;
		return declIds[d] = n;
	}
	std::string fileOf(SourceLocation l) {
		l = SM.getExpansionLoc(l);
		auto f = SM.getFilename(l);
		llvm::SmallString<256> p(f);
		SM.getFileManager().makeAbsolutePath(p);
		llvm::sys::path::remove_dots(p, true);
		return std::string(p);
	}
	bool inRoot(SourceLocation l) {
		if(l.isInvalid()) return false;
		auto f = fileOf(l);
		for(auto &r : Roots) if(llvm::StringRef(f).starts_with(r)) return true;
		return false;
	}
	int fileId(const std::string &f) {
		auto it = fileIds.find(f);
		if(it != fileIds.end()) return it->second;
		int n = (int)fileIds.size(); fileIds[f] = n; files.push_back(f); return n;
	}
	json::Value loc(SourceLocation l) {
		if(l.isInvalid()) return nullptr;
		l = SM.getExpansionLoc(l);
		return json::Array{fileId(fileOf(l)), (int64_t)SM.getSpellingLineNumber(l), (int64_t)SM.getSpellingColumnNumber(l)};
	}
	static std::string san(llvm::StringRef s) { return json::fixUTF8(s); }

	int type(QualType q) {
		if(q.isNull()) return -1;
		q = q.getCanonicalType();
		auto key = q.getAsOpaquePtr();
		auto it = typeIds.find(key);
		if(it != typeIds.end()) return it->second;
		int n = (int)types.size();
		typeIds[key] = n;
		types.push_back(nullptr);
		json::Object o;
		std::string s = q.getAsString(PP);
		if(s.size() > 160) s = s.substr(0, 157) + "...";
		o["s"] = san(s);
		if(q.isConstQualified()) o["const"] = true;
		const Type *t = q.getTypePtr();
		if(t->isBooleanType()) o["c"] = "b";
		else if(auto *et = t->getAs<EnumType>()) { o["c"] = "enum"; o["en"] = enumId(et->getDecl()); }
		else if(t->isIntegerType()) { o["c"] = t->isSignedIntegerType() ? "i" : "u"; o["bits"] = (int64_t)C.getTypeSize(q); }
		else if(t->isRealFloatingType()) { o["c"] = "f"; o["bits"] = (int64_t)C.getTypeSize(q); }
		else if(t->isVoidType()) o["c"] = "void";
		else if(t->isNullPtrType()) o["c"] = "nullptr";
		else if(t->isReferenceType()) { o["c"] = "r"; o["rv"] = t->isRValueReferenceType(); o["pt"] = type(t->getPointeeType()); }
		else if(t->isPointerType()) { o["c"] = "p"; o["pt"] = type(t->getPointeeType()); }
		else if(t->isFunctionType()) o["c"] = "fn";
		else if(auto *ia = C.getAsIncompleteArrayType(q)) { o["c"] = "iarr"; o["pt"] = type(ia->getElementType()); }
		else if(auto *at = C.getAsConstantArrayType(q)) { o["c"] = "arr"; o["pt"] = type(at->getElementType()); o["n"] = (int64_t)at->getSize().getZExtValue(); }
		else if(auto *rd = t->getAsCXXRecordDecl()) { o["c"] = "rec"; o["rec"] = recId(rd); }
		else o["c"] = "?";
		types[n] = std::move(o);
		return n;
	}
	json::Value targs(const TemplateArgumentList *l) {
		json::Array a;
		if(l) for(auto &x : l->asArray()) targ(x, a);
		return a;
	}
	void targ(const TemplateArgument &x, json::Array &a) {
		switch(x.getKind()) {
		case TemplateArgument::Type: a.push_back(json::Object{{"t", type(x.getAsType())}}); break;
		case TemplateArgument::Integral: a.push_back(json::Object{{"i", (int64_t)x.getAsIntegral().getExtValue()}}); break;
		case TemplateArgument::Pack: for(auto &y : x.pack_elements()) targ(y, a); break;
		case TemplateArgument::Declaration: a.push_back(json::Object{{"d", san(x.getAsDecl()->getQualifiedNameAsString())}}); break;
		default: a.push_back(nullptr);
		}
	}
	int enumId(const EnumDecl *d) {
		int n = id(d);
		if(seenEnum.insert(d->getCanonicalDecl()).second) {
			json::Array e;
			const EnumDecl *def = d->getDefinition() ? d->getDefinition() : d;
			for(auto *c : def->enumerators()) e.push_back(json::Array{san(c->getName()), (int64_t)c->getInitVal().getExtValue()});
			enums[std::to_string(n)] = json::Object{{"q", san(def->getQualifiedNameAsString())}, {"e", std::move(e)}};
		}
		return n;
	}
	int recId(const CXXRecordDecl *d) {
		int n = id(d);
		if(!seenRec.insert(d->getCanonicalDecl()).second) return n;
		const CXXRecordDecl *def = d->getDefinition() ? d->getDefinition() : d;
		json::Object o;
		o["q"] = san(d->getQualifiedNameAsString());
		o["n"] = san(d->getName());
		if(d->isLambda()) o["lambda"] = true;
		if(auto *s = dyn_cast<ClassTemplateSpecializationDecl>(d)) o["ta"] = targs(&s->getTemplateArgs());
		o["repo"] = inRoot(d->getLocation());
		o["loc"] = loc(d->getLocation());
		records[std::to_string(n)] = nullptr; // reserve
		if(def->hasDefinition()) {
			json::Array fs, bs;
			for(auto *f : def->fields()) {
				json::Object fo{{"n", san(f->getName())}, {"d", id(f)}, {"t", type(f->getType())}};
				if(inRoot(d->getLocation()) && f->hasInClassInitializer() && f->getInClassInitializer())
					fo["init"] = expr(f->getInClassInitializer());
				fs.push_back(std::move(fo));
			}
			for(auto &b : def->bases()) bs.push_back(type(b.getType()));
			o["f"] = std::move(fs); o["b"] = std::move(bs);
			if(d->isLambda()) { if(auto *m = def->getLambdaCallOperator()) o["op"] = fnId(m); }
		}
		records[std::to_string(n)] = std::move(o);
		return n;
	}
	bool wantBody(const FunctionDecl *f) {
		if(inRoot(f->getLocation())) return true;
		if(lib && lib->match(fileOf(f->getLocation()))) return true;
		return false;
	}
	int fnId(const FunctionDecl *f) {
		int n = id(f);
		if(seenFn.insert(cast<FunctionDecl>(f->getCanonicalDecl())).second) work.push_back(f);
		return n;
	}
	static const char *kindOf(const FunctionDecl *f) {
		if(isa<CXXConstructorDecl>(f)) return "ctor";
		if(isa<CXXDestructorDecl>(f)) return "dtor";
		if(isa<CXXConversionDecl>(f)) return "conv";
		if(isa<CXXMethodDecl>(f)) return "method";
		return "func";
	}
	void doFn(const FunctionDecl *f) {
		json::Object o;
		o["q"] = san(f->getQualifiedNameAsString());
		o["n"] = san(f->getNameAsString());
		o["kind"] = kindOf(f);
		if(f->getTemplateSpecializationArgs()) o["ta"] = targs(f->getTemplateSpecializationArgs());
		o["loc"] = loc(f->getLocation());
		o["ret"] = type(f->getReturnType());
		o["repo"] = inRoot(f->getLocation());
		o["variadic"] = f->isVariadic();
		if(f->isOverloadedOperator()) o["op"] = getOperatorSpelling(f->getOverloadedOperator());
		if(auto *m = dyn_cast<CXXMethodDecl>(f)) {
			o["rec"] = recId(m->getParent());
			o["static"] = m->isStatic(); o["cm"] = m->isConst();
			if(m->isCopyAssignmentOperator()) o["copyasg"] = true;
			if(m->isMoveAssignmentOperator()) o["moveasg"] = true;
			o["access"] = m->getAccess() == AS_public ? "public" : "nonpublic";
		}
		if(auto *c = dyn_cast<CXXConstructorDecl>(f)) {
			if(c->isCopyConstructor()) o["copy"] = true;
			if(c->isMoveConstructor()) o["move"] = true;
			if(c->isDefaultConstructor()) o["dflt"] = true;
		}
		o["defaulted"] = f->isDefaulted();
		o["deleted"] = f->isDeleted();
		const FunctionDecl *def = nullptr;
		bool hb = f->hasBody(def);
		const FunctionDecl *src = hb ? def : f;
		json::Array ps;
		for(auto *p : src->parameters()) ps.push_back(json::Object{{"n", san(p->getName())}, {"d", id(p)}, {"t", type(p->getType())}});
		o["p"] = std::move(ps);
		if(hb && wantBody(src) && !src->isDependentContext()) {
			o["end"] = loc(src->getBodyRBrace());
			o["body"] = stmt(src->getBody());
			if(auto *c = dyn_cast<CXXConstructorDecl>(src)) {
				json::Array is;
				for(auto *i : c->inits()) {
					json::Object io;
					if(i->isAnyMemberInitializer()) { io["f"] = san(i->getAnyMember()->getName()); io["d"] = id(i->getAnyMember()); io["ft"] = type(i->getAnyMember()->getType()); }
					else if(i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
					else io["deleg"] = true;
					io["e"] = expr(i->getInit());
					io["l"] = loc(i->getSourceLocation());
					is.push_back(std::move(io));
				}
				o["inits"] = std::move(is);
			}
		}
		functions[std::to_string(id(f))] = std::move(o);
	}
	int varRef(const VarDecl *v) {
		int n = id(v);
		if(!v->hasLocalStorage() && seenVar.insert(v->getCanonicalDecl()).second) {
			json::Object o{{"q", san(v->getQualifiedNameAsString())}, {"n", san(v->getName())}, {"t", type(v->getType())}, {"loc", loc(v->getLocation())}, {"repo", inRoot(v->getLocation())}};
			o["tl"] = v->getTLSKind() != VarDecl::TLS_None;
			o["local"] = v->isStaticLocal();
			vars[std::to_string(n)] = nullptr;
			const VarDecl *def = v->getDefinition() ? v->getDefinition() : v;
			if(inRoot(v->getLocation()) && def->hasInit() && !def->getInit()->isValueDependent()) o["init"] = expr(def->getInit());
			vars[std::to_string(n)] = std::move(o);
		}
		return n;
	}

	// constant value of an expression, if any
	void constVal(const Expr *e, json::Object &o) {
		if(e->isValueDependent() || e->isTypeDependent() || e->isLValue()) return;
		QualType q = e->getType();
		if(q.isNull()) return;
		if(q->isIntegralOrEnumerationType()) {
			Expr::EvalResult r;
			if(e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
				llvm::SmallString<32> s; r.Val.getInt().toString(s, 10);
				o["cv"] = std::string(s);
			}
		} else if(q->isRealFloatingType()) {
			llvm::APFloat f(0.0);
			if(e->EvaluateAsFloat(f, C, Expr::SE_NoSideEffects)) {
				bool li; llvm::APFloat g = f; g.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
				char buf[64]; snprintf(buf, sizeof buf, "%.17g", g.convertToDouble());
				o["cf"] = std::string(buf);
			}
		}
	}
	static const Expr *strip(const Expr *e) {
		for(;;) {
			if(auto *p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
			else if(auto *x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
			else if(auto *x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
			else if(auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
			else if(auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
			else if(auto *x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
			else if(auto *x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
			else if(auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
			else return e;
		}
	}
	json::Value exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
		json::Array a; for(auto *x : r) a.push_back(expr(x)); return a;
	}
	json::Value expr(const Expr *e0) {
		if(!e0) return nullptr;
		const Expr *e = strip(e0);
		json::Object o;
		o["t"] = type(e->getType());
		if(e->isLValue()) o["lv"] = true;
		else if(e->isXValue()) o["xv"] = true;
		if(auto *x = dyn_cast<IntegerLiteral>(e)) {
			llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
			o["k"] = "int"; o["v"] = std::string(s); return o;
		}
		if(auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "int"; o["v"] = x->getValue() ? "1" : "0"; return o; }
		if(auto *x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "int"; o["v"] = std::to_string(x->getValue()); return o; }
		if(isa<FloatingLiteral>(e)) { o["k"] = "flt"; constVal(e, o); 
			o["src"] = san(Lexer::getSourceText(CharSourceRange::getTokenRange(e->getSourceRange()), SM, C.getLangOpts()));
			return o; }
		if(auto *x = dyn_cast<StringLiteral>(e)) { o["k"] = "str"; o["v"] = x->getCharByteWidth() == 1 ? san(x->getString()) : ""; return o; }
		if(isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; return o; }
		constVal(e, o);
		if(auto *x = dyn_cast<DeclRefExpr>(e)) {
			const ValueDecl *d = x->getDecl();
			o["k"] = "ref"; o["n"] = san(d->getNameAsString());
			if(auto *f = dyn_cast<FunctionDecl>(d)) { o["dk"] = "func"; o["f"] = fnId(f); }
			else if(auto *v = dyn_cast<VarDecl>(d)) { o["dk"] = v->hasLocalStorage() ? "var" : "glob"; o["d"] = varRef(v); }
			else if(isa<EnumConstantDecl>(d)) { o["dk"] = "enumc"; }
			else { o["dk"] = d->getDeclKindName(); o["d"] = id(d); 
				if(auto *b = dyn_cast<BindingDecl>(d)) if(b->getBinding()) o["bind"] = expr(b->getBinding()); }
			o["l"] = loc(x->getLocation());
			return o;
		}
		if(auto *x = dyn_cast<MemberExpr>(e)) {
			o["k"] = "mem"; o["b"] = expr(x->getBase()); o["arrow"] = x->isArrow();
			const ValueDecl *d = x->getMemberDecl();
			o["n"] = san(d->getNameAsString());
			o["l"] = loc(x->getMemberLoc());
			if(auto *f = dyn_cast<FunctionDecl>(d)) { o["dk"] = "func"; o["f"] = fnId(f); }
			else if(auto *v = dyn_cast<VarDecl>(d)) { o["dk"] = "glob"; o["d"] = varRef(v); }
			else { o["dk"] = "field"; o["d"] = id(d); }
			return o;
		}
		if(auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
			o["k"] = "call"; o["l"] = loc(x->getExprLoc());
			if(auto *m = x->getMethodDecl()) { o["f"] = fnId(m); o["obj"] = expr(x->getImplicitObjectArgument());
				if(auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) o["arrow"] = me->isArrow(); }
			else o["fe"] = expr(x->getCallee());
			o["args"] = exprs(x->arguments());
			return o;
		}
		if(auto *x = dyn_cast<CallExpr>(e)) {
			o["k"] = "call"; o["l"] = loc(x->getExprLoc());
			const FunctionDecl *f = x->getDirectCallee();
			if(auto *oc = dyn_cast<CXXOperatorCallExpr>(x)) {
				o["op"] = getOperatorSpelling(oc->getOperator());
				auto *m = dyn_cast_or_null<CXXMethodDecl>(f);
				if(m && !m->isStatic()) {
					o["f"] = fnId(m); o["obj"] = expr(oc->getArg(0));
					json::Array a; for(unsigned i = 1; i < oc->getNumArgs(); i++) a.push_back(expr(oc->getArg(i)));
					o["args"] = std::move(a); return o;
				}
			}
			if(f && !isa<CXXMethodDecl>(f)) {
				o["f"] = fnId(f);
				if(f->isTemplateInstantiation() || true) {}
				// address taken through variable: getDirectCallee is null
			} else if(f) { o["f"] = fnId(f); }
			if(!f) o["fe"] = expr(x->getCallee());
			o["args"] = exprs(x->arguments());
			return o;
		}
		if(auto *x = dyn_cast<CXXConstructExpr>(e)) {
			o["k"] = "ctor"; o["f"] = fnId(x->getConstructor()); o["rec"] = recId(x->getConstructor()->getParent());
			json::Array a; for(auto *y : x->arguments()) a.push_back(expr(y));
			o["args"] = std::move(a); o["list"] = x->isListInitialization(); o["elide"] = x->isElidable();
			o["stdlist"] = x->isStdInitListInitialization();
			o["l"] = loc(x->getLocation());
			return o;
		}
		if(auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o["k"] = "ctor"; o["f"] = fnId(x->getConstructor()); o["rec"] = recId(x->getConstructor()->getParent()); o["args"] = json::Array(); o["inh"] = true; return o; }
		if(auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) { o["k"] = "mat"; o["e"] = expr(x->getSubExpr()); return o; }
		if(auto *x = dyn_cast<CastExpr>(e)) {
			o["k"] = "cast"; o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr());
			o["impl"] = isa<ImplicitCastExpr>(x);
			if(auto *fc = dyn_cast<FunctionDecl>(x->getConversionFunction() ? cast<Decl>(x->getConversionFunction()) : (const Decl*)C.getTranslationUnitDecl())) { (void)fc; }
			return o;
		}
		if(auto *x = dyn_cast<CompoundAssignOperator>(e)) {
			o["k"] = "asg"; o["op"] = san(x->getOpcodeStr()); o["lhs"] = expr(x->getLHS()); o["rhs"] = expr(x->getRHS());
			o["ct"] = type(x->getComputationLHSType()); o["l"] = loc(x->getOperatorLoc()); return o;
		}
		if(auto *x = dyn_cast<BinaryOperator>(e)) {
			o["k"] = x->isAssignmentOp() ? "asg" : "bin"; o["op"] = san(x->getOpcodeStr());
			o["lhs"] = expr(x->getLHS()); o["rhs"] = expr(x->getRHS()); o["l"] = loc(x->getOperatorLoc()); return o;
		}
		if(auto *x = dyn_cast<UnaryOperator>(e)) {
			o["k"] = "un"; o["op"] = san(UnaryOperator::getOpcodeStr(x->getOpcode())); o["post"] = x->isPostfix();
			o["e"] = expr(x->getSubExpr()); o["l"] = loc(x->getOperatorLoc()); return o;
		}
		if(auto *x = dyn_cast<ConditionalOperator>(e)) {
			o["k"] = "cond"; o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr());
			o["l"] = loc(x->getQuestionLoc()); return o;
		}
		if(auto *x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "sub"; o["b"] = expr(x->getBase()); o["i"] = expr(x->getIdx()); o["l"] = loc(x->getExprLoc()); return o; }
		if(auto *x = dyn_cast<LambdaExpr>(e)) {
			o["k"] = "lam"; o["rec"] = recId(x->getLambdaClass()); o["f"] = fnId(x->getCallOperator());
			json::Array caps;
			auto ii = x->capture_init_begin();
			for(auto &c : x->captures()) {
				json::Object co;
				if(c.capturesThis()) co["k"] = "this";
				else if(c.capturesVariable()) {
					co["k"] = c.getCaptureKind() == LCK_ByRef ? "ref" : "val";
					co["d"] = id(c.getCapturedVar()); co["n"] = san(c.getCapturedVar()->getName());
					co["ic"] = c.getCapturedVar()->isInitCapture();
				} else co["k"] = "?";
				if(*ii) co["e"] = expr(*ii);
				++ii;
				caps.push_back(std::move(co));
			}
			o["caps"] = std::move(caps); o["l"] = loc(x->getBeginLoc());
			return o;
		}
		if(isa<CXXThisExpr>(e)) { o["k"] = "this"; return o; }
		if(auto *x = dyn_cast<InitListExpr>(e)) {
			const InitListExpr *s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
			o["k"] = "init"; json::Array a; for(auto *y : s->inits()) a.push_back(expr(y)); o["e"] = std::move(a);
			if(s->hasArrayFiller()) o["filler"] = true;
			return o;
		}
		if(auto *x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "throw"; o["e"] = expr(x->getSubExpr()); o["l"] = loc(x->getThrowLoc()); return o; }
		if(auto *x = dyn_cast<CXXNewExpr>(e)) { o["k"] = "new"; o["at"] = type(x->getAllocatedType()); o["e"] = expr(x->getInitializer()); if(x->isArray() && x->getArraySize()) o["n"] = expr(*x->getArraySize()); return o; }
		if(auto *x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "delete"; o["e"] = expr(x->getArgument()); return o; }
		if(isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { o["k"] = "zero"; return o; }
		if(isa<UnaryExprOrTypeTraitExpr>(e) || isa<TypeTraitExpr>(e) || isa<SizeOfPackExpr>(e) || isa<CXXNoexceptExpr>(e)) { o["k"] = "const"; return o; }
		if(auto *x = dyn_cast<ArrayInitLoopExpr>(e)) { o["k"] = "arrayloop"; o["e"] = expr(x->getCommonExpr()->getSourceExpr()); return o; }
		o["k"] = "other"; o["cls"] = e->getStmtClassName(); o["l"] = loc(e->getExprLoc());
		json::Array a; for(auto *c : e->children()) if(auto *ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce));
		o["e"] = std::move(a);
		return o;
	}
	json::Value var(const VarDecl *v) {
		json::Object o{{"n", san(v->getName())}, {"d", varRef(v)}, {"t", type(v->getType())}, {"l", loc(v->getLocation())}};
		if(v->isStaticLocal()) o["static"] = true;
		if(v->hasInit() && !v->isStaticLocal()) { o["init"] = expr(v->getInit()); }
		if(v->isStaticLocal() && v->hasInit()) o["init"] = expr(v->getInit());
		if(auto *dd = dyn_cast<DecompositionDecl>(v)) {
			json::Array b;
			for(auto *x : dd->bindings()) { json::Object bo{{"n", san(x->getName())}, {"d", id(x)}}; if(x->getBinding()) bo["e"] = expr(x->getBinding()); 
				if(auto *hv = x->getHoldingVar()) { bo["hv"] = var(hv); }
				b.push_back(std::move(bo)); }
			o["bindings"] = std::move(b);
		}
		return o;
	}
	json::Value stmt(const Stmt *s) {
		if(!s) return nullptr;
		json::Object o;
		o["l"] = loc(s->getBeginLoc());
		if(auto *x = dyn_cast<CompoundStmt>(s)) { o["k"] = "{}"; json::Array a; for(auto *c : x->body()) a.push_back(stmt(c)); o["s"] = std::move(a); return o; }
		if(auto *x = dyn_cast<DeclStmt>(s)) {
			o["k"] = "decl"; json::Array a;
			for(auto *d : x->decls()) if(auto *v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
			o["v"] = std::move(a); return o;
		}
		if(auto *x = dyn_cast<IfStmt>(s)) {
			if(x->isConstexpr()) {
				if(auto c = x->getNondiscardedCase(C)) { if(*c) return stmt(*c); o["k"] = "null"; return o; }
			}
			o["k"] = "if"; o["init"] = stmt(x->getInit()); if(x->getConditionVariable()) o["cvar"] = var(x->getConditionVariable());
			o["c"] = expr(x->getCond()); o["a"] = stmt(x->getThen()); o["b"] = stmt(x->getElse()); return o;
		}
		if(auto *x = dyn_cast<ForStmt>(s)) {
			o["k"] = "for"; o["init"] = stmt(x->getInit()); o["c"] = expr(x->getCond()); o["inc"] = expr(x->getInc()); o["body"] = stmt(x->getBody()); return o;
		}
		if(auto *x = dyn_cast<WhileStmt>(s)) { o["k"] = "while"; o["c"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); if(x->getConditionVariable()) o["cvar"] = var(x->getConditionVariable()); return o; }
		if(auto *x = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); return o; }
		if(auto *x = dyn_cast<CXXForRangeStmt>(s)) {
			o["k"] = "rfor"; o["var"] = var(x->getLoopVariable()); o["range"] = expr(x->getRangeInit()); o["body"] = stmt(x->getBody());
			o["init"] = stmt(x->getInit()); 
			o["beg"] = stmt(x->getBeginStmt()); o["rng"] = stmt(x->getRangeStmt()); o["end"] = stmt(x->getEndStmt()); o["c"] = expr(x->getCond()); o["inc"] = expr(x->getInc());
			return o;
		}
		if(auto *x = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; o["e"] = expr(x->getRetValue()); return o; }
		if(isa<BreakStmt>(s)) { o["k"] = "brk"; return o; }
		if(isa<ContinueStmt>(s)) { o["k"] = "cont"; return o; }
		if(isa<NullStmt>(s)) { o["k"] = "null"; return o; }
		if(auto *x = dyn_cast<SwitchStmt>(s)) { o["k"] = "switch"; o["init"] = stmt(x->getInit()); o["c"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); return o; }
		if(auto *x = dyn_cast<CaseStmt>(s)) { o["k"] = "case"; o["e"] = expr(x->getLHS()); o["s"] = stmt(x->getSubStmt()); return o; }
		if(auto *x = dyn_cast<DefaultStmt>(s)) { o["k"] = "default"; o["s"] = stmt(x->getSubStmt()); return o; }
		if(auto *x = dyn_cast<CXXTryStmt>(s)) {
			o["k"] = "try"; o["body"] = stmt(x->getTryBlock()); json::Array a;
			for(unsigned i = 0; i < x->getNumHandlers(); i++) {
				auto *h = x->getHandler(i); json::Object ho;
				if(h->getExceptionDecl()) { ho["var"] = var(h->getExceptionDecl()); ho["ty"] = type(h->getCaughtType()); }
				ho["body"] = stmt(h->getHandlerBlock()); ho["l"] = loc(h->getCatchLoc());
				a.push_back(std::move(ho));
			}
			o["h"] = std::move(a); return o;
		}
		if(auto *x = dyn_cast<OMPExecutableDirective>(s)) {
			o["k"] = "omp"; o["dir"] = san(getOpenMPDirectiveName(x->getDirectiveKind()));
			json::Array cl;
			for(auto *c : x->clauses()) {
				if(c->isImplicit() || c->getBeginLoc().isInvalid()) continue;
				json::Object co{{"n", san(getOpenMPClauseName(c->getClauseKind()))}};
				json::Array vs;
				for(auto *ch : c->children()) if(auto *ce = dyn_cast_or_null<Expr>(ch)) {
					if(auto *dr = dyn_cast<DeclRefExpr>(ce->IgnoreParenImpCasts())) vs.push_back(json::Object{{"n", san(dr->getDecl()->getNameAsString())}, {"d", id(dr->getDecl())}});
					else vs.push_back(json::Object{{"n", "expr"}});
				}
				if(auto *rc = dyn_cast<OMPReductionClause>(c)) co["rop"] = san(rc->getNameInfo().getAsString());
				co["v"] = std::move(vs); cl.push_back(std::move(co));
			}
			o["cl"] = std::move(cl);
			const Stmt *b = nullptr;
			if(x->hasAssociatedStmt()) { b = x->getAssociatedStmt(); while(auto *cs = dyn_cast_or_null<CapturedStmt>(b)) b = cs->getCapturedStmt(); }
			o["body"] = stmt(b);
			return o;
		}
		if(auto *x = dyn_cast<CapturedStmt>(s)) return stmt(x->getCapturedStmt());
		if(auto *x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
		if(auto *x = dyn_cast<Expr>(s)) { o["k"] = "expr"; o["e"] = expr(x); return o; }
		o["k"] = "otherstmt"; o["cls"] = s->getStmtClassName();
		return o;
	}
	void drain() {
		while(!work.empty()) { auto *f = work.front(); work.pop_front(); doFn(f); }
	}
};

struct Visitor: RecursiveASTVisitor<Visitor> {
	Exporter &X;
	explicit Visitor(Exporter &x): X(x) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }
	bool VisitFunctionDecl(FunctionDecl *f) {
		if(f->isDependentContext() || !f->hasBody()) return true;
		if(X.inRoot(f->getLocation())) X.fnId(f);
		return true;
	}
	bool VisitVarDecl(VarDecl *v) {
		if(v->hasGlobalStorage() && X.inRoot(v->getLocation()) && !v->getDeclContext()->isDependentContext() && !v->getType()->isDependentType()) X.varRef(v);
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl *d) {
		if(!d->isDependentContext() && X.inRoot(d->getLocation())) X.recId(d);
		return true;
	}
	bool VisitEnumDecl(EnumDecl *d) { if(!d->isDependentContext() && X.inRoot(d->getLocation())) X.enumId(d); return true; }
};

struct Consumer: ASTConsumer {
	void HandleTranslationUnit(ASTContext &C) override {
		if(C.getDiagnostics().hasErrorOccurred()) return;
		Exporter X(C);
		Visitor V(X);
		for(auto *d : C.getTranslationUnitDecl()->decls()) {
			if(!X.inRoot(d->getLocation())) continue;
			V.TraverseDecl(d);
		}
		X.drain();
		json::Object o;
		o["types"] = std::move(X.types); o["records"] = std::move(X.records); o["functions"] = std::move(X.functions);
		o["vars"] = std::move(X.vars); o["enums"] = std::move(X.enums); o["files"] = std::move(X.files);
		std::error_code ec; llvm::raw_fd_ostream os(OutFile, ec);
		os << json::Value(std::move(o)) << "\n";
	}
};
struct Action: ASTFrontendAction {
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
struct Factory: tooling::FrontendActionFactory {
	std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

int main(int argc, const char **argv) {
	int i = 1;
	std::string src; std::vector<std::string> flags;
	for(; i < argc; i++) {
		llvm::StringRef a(argv[i]);
		if(a == "--") { i++; break; }
		if(a.consume_front("--root=")) Roots.push_back(a.str());
		else if(a.consume_front("--lib=")) LibRe = a.str();
		else OutFile = a.str();
	}
	if(i >= argc) return 2;
	src = argv[i++];
	for(; i < argc; i++) flags.push_back(argv[i]);
	tooling::FixedCompilationDatabase db(".", flags);
	tooling::ClangTool tool(db, {src});
	Factory f;
	return tool.run(&f);
}
