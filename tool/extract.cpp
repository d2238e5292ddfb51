// Fact extractor: parses one translation unit with clang and dumps, for every function,
// constructor, lambda and class whose definition lies under the given root directory,
// a compact resolved syntax tree as JSON.  No judgement is made here.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string gRoot;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
	ASTContext &C;
	SourceManager &SM;
	PrintingPolicy PP;
	std::unique_ptr<MangleContext> MC;
	Array funcs, classes, enums, globals;
	std::set<const void *> seen;
	std::map<const Decl *, std::string> lambdaKeys; // CXXRecordDecl closure -> key
	std::map<std::string, int> lambdaCounter;

	explicit Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), MC(c.createMangleContext()) {
		PP.SuppressTagKeyword = true;
		PP.Bool = true;
	}

	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }
	bool shouldVisitLambdaBody() const { return true; }

	bool inRoot(SourceLocation L) {
		if(L.isInvalid()) return false;
		L = SM.getExpansionLoc(L);
		auto fn = SM.getFilename(L);
		if(fn.empty()) return false;
		llvm::SmallString<256> real;
		if(llvm::sys::fs::real_path(fn, real)) return false;
		return llvm::StringRef(real).starts_with(gRoot);
	}

	std::string fileOf(SourceLocation L) {
		L = SM.getExpansionLoc(L);
		llvm::SmallString<256> real;
		if(llvm::sys::fs::real_path(SM.getFilename(L), real)) return "?";
		llvm::StringRef r(real);
		if(r.starts_with(gRoot)) r = r.drop_front(gRoot.size());
		while(r.starts_with("/")) r = r.drop_front(1);
		return r.str();
	}
	int lineOf(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }

	std::string typeStr(QualType T) {
		if(T.isNull()) return "";
		return T.getCanonicalType().getAsString(PP);
	}

	std::string qname(const NamedDecl *D) {
		std::string s;
		llvm::raw_string_ostream os(s);
		D->printQualifiedName(os, PP);
		os.flush();
		if(auto *R = dyn_cast<CXXRecordDecl>(D))
			if(R->isLambda()) return lambdaKey(R);
		return s;
	}

	const FunctionDecl *parentFunction(const DeclContext *DC) {
		while(DC) {
			if(auto *F = dyn_cast<FunctionDecl>(DC)) return F;
			DC = DC->getParent();
		}
		return nullptr;
	}

	std::string lambdaKey(const CXXRecordDecl *R) {
		auto it = lambdaKeys.find(R);
		if(it != lambdaKeys.end()) return it->second;
		const FunctionDecl *P = parentFunction(R->getDeclContext());
		std::string base;
		if(P) base = funcKey(P);
		else base = "(file " + fileOf(R->getLocation()) + ")";
		SourceLocation L = SM.getExpansionLoc(R->getLocation());
		std::string key = base + "::$" + std::to_string(SM.getExpansionLineNumber(L)) + "." + std::to_string(SM.getExpansionColumnNumber(L));
		int n = lambdaCounter[key]++;
		if(n) key += "#" + std::to_string(n);
		lambdaKeys[R] = key;
		return key;
	}

	std::string funcKey(const FunctionDecl *F) {
		F = F->getCanonicalDecl();
		if(auto *M = dyn_cast<CXXMethodDecl>(F))
			if(M->getParent()->isLambda()) {
				std::string k = lambdaKey(M->getParent());
				if(M->getOverloadedOperator() == OO_Call) return k;
				return k + "/" + M->getNameAsString();
			}
		std::string s;
		llvm::raw_string_ostream os(s);
		if(isa<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(cast<CXXConstructorDecl>(F), Ctor_Complete), os);
		else if(isa<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(cast<CXXDestructorDecl>(F), Dtor_Complete), os);
		else if(MC->shouldMangleDeclName(F)) MC->mangleName(GlobalDecl(F), os);
		else os << F->getNameAsString();
		os.flush();
		// internal-linkage functions in different files may collide
		if(F->getFormalLinkage() == Linkage::Internal && !isa<CXXMethodDecl>(F)) s += "@" + fileOf(F->getLocation());
		return s;
	}

	std::string clsName(QualType T) {
		if(T.isNull()) return "";
		T = T.getNonReferenceType();
		if(T->isPointerType()) T = T->getPointeeType();
		if(auto *R = T->getAsCXXRecordDecl()) return R->isLambda() ? lambdaKey(R) : typeStr(C.getRecordType(R));
		return "";
	}

	std::string varId(const ValueDecl *V) {
		V = cast<ValueDecl>(V->getCanonicalDecl());
		if(auto *VD = dyn_cast<VarDecl>(V)) {
			if(!VD->isLocalVarDeclOrParm() || VD->isStaticDataMember()) return "g:" + qname(VD);
			if(VD->isStaticLocal()) return "s:" + VD->getNameAsString() + "@" + fileOf(VD->getLocation()) + ":" + std::to_string(lineOf(VD->getLocation()));
		}
		SourceLocation L = SM.getExpansionLoc(V->getLocation());
		return V->getNameAsString() + "@" + std::to_string(SM.getExpansionLineNumber(L)) + "." + std::to_string(SM.getExpansionColumnNumber(L));
	}

	// ---- expressions

	Value exprs(llvm::ArrayRef<const Expr *> es) {
		Array a;
		for(auto *e : es) a.push_back(expr(e));
		return Value(std::move(a));
	}

	Object node(const char *k, const Expr *E) {
		Object o;
		o["k"] = k;
		if(E->isGLValue()) o["lv"] = true;
		o["l"] = lineOf(E->getExprLoc());
		return o;
	}

	void addCallee(Object &o, const FunctionDecl *F) {
		o["q"] = qname(F);
		o["key"] = funcKey(F);
		if(auto *M = dyn_cast<CXXMethodDecl>(F)) {
			if(M->isVirtual()) o["virt"] = true;
			if(M->isStatic()) o["static"] = true;
			if(M->isConst()) o["const"] = true;
			o["cls"] = M->getParent()->isLambda() ? lambdaKey(M->getParent()) : typeStr(C.getRecordType(M->getParent()));
		}
		if(F->isNoReturn()) o["noret"] = true;
		Array pts;
		for(auto *p : F->parameters()) pts.push_back(typeStr(p->getType()));
		o["pts"] = std::move(pts);
	}

	Value expr(const Expr *E) {
		if(!E) return nullptr;
		// transparent wrappers
		if(auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
		if(auto *X = dyn_cast<FullExpr>(E)) {
			if(auto *CE = dyn_cast<ConstantExpr>(E)) {
				if(!CE->isValueDependent() && CE->getType()->isIntegralOrEnumerationType()) return constOr(CE->getSubExpr());
			}
			return expr(X->getSubExpr());
		}
		if(auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
		if(auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
		if(auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
		if(auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
		if(auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
		if(auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
		if(auto *X = dyn_cast<OpaqueValueExpr>(E)) return expr(X->getSourceExpr());
		return constOr(E);
	}

	Value constOr(const Expr *E) {
		while(auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
		QualType T = E->getType();
		if(E->isPRValue() && !E->isValueDependent() && !E->isTypeDependent() && (T->isIntegralOrEnumerationType())) {
			Expr::EvalResult R;
			if(E->EvaluateAsInt(R, C) && !R.HasSideEffects) {
				Object o = node("int", E);
				auto v = R.Val.getInt();
				llvm::SmallString<32> s;
				v.toString(s, 10);
				if(v.isRepresentableByInt64()) o["v"] = (int64_t)v.getExtValue();
				else o["v"] = s.str().str();
				const Expr *X = E->IgnoreParenImpCasts();
				if(auto *DR = dyn_cast<DeclRefExpr>(X)) {
					o["n"] = qname(DR->getDecl());
				}
				o["t"] = typeStr(T);
				return Value(std::move(o));
			}
		}
		return raw(E);
	}

	Value raw(const Expr *E) {
		switch(E->getStmtClass()) {
		case Stmt::ImplicitCastExprClass:
		case Stmt::CStyleCastExprClass:
		case Stmt::CXXStaticCastExprClass:
		case Stmt::CXXReinterpretCastExprClass:
		case Stmt::CXXConstCastExprClass:
		case Stmt::CXXDynamicCastExprClass:
		case Stmt::CXXFunctionalCastExprClass: {
			auto *X = cast<CastExpr>(E);
			switch(X->getCastKind()) {
			case CK_LValueToRValue: {
				Object o = node("ld", E);
				o["e"] = expr(X->getSubExpr());
				o["t"] = typeStr(E->getType());
				return Value(std::move(o));
			}
			case CK_IntegralCast: case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToIntegral:
			case CK_IntegralToFloating: case CK_FloatingCast: case CK_FloatingToBoolean: case CK_BitCast: case CK_PointerToIntegral:
			case CK_IntegralToPointer: case CK_BooleanToSignedIntegral: case CK_BaseToDerived: case CK_Dynamic: {
				Object o = node("cast", E);
				o["ck"] = X->getCastKindName();
				o["t"] = typeStr(E->getType());
				o["e"] = expr(X->getSubExpr());
				return Value(std::move(o));
			}
			case CK_NullToPointer: { return Value(node("null", E)); }
			case CK_ToVoid: {
				Object o = node("void", E);
				o["e"] = expr(X->getSubExpr());
				return Value(std::move(o));
			}
			default:
				return expr(X->getSubExpr());
			}
		}
		case Stmt::CXXNullPtrLiteralExprClass: return Value(node("null", E));
		case Stmt::GNUNullExprClass: return Value(node("null", E));
		case Stmt::FloatingLiteralClass: {
			Object o = node("flt", E);
			o["v"] = cast<FloatingLiteral>(E)->getValueAsApproximateDouble();
			return Value(std::move(o));
		}
		case Stmt::StringLiteralClass: {
			Object o = node("str", E);
			auto *S = cast<StringLiteral>(E);
			std::string out;
			if(S->getCharByteWidth() == 1) for(unsigned char c : S->getString()) { if(c >= 32 && c < 127) out.push_back(c); else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); out += b; } }
			o["v"] = out;
			o["n"] = (int64_t)S->getLength();
			return Value(std::move(o));
		}
		case Stmt::CXXThisExprClass: { return Value(node("this", E)); }
		case Stmt::DeclRefExprClass: {
			auto *X = cast<DeclRefExpr>(E);
			auto *D = X->getDecl();
			if(auto *F = dyn_cast<FunctionDecl>(D)) {
				Object o = node("fn", E);
				o["q"] = qname(F);
				o["key"] = funcKey(F);
				return Value(std::move(o));
			}
			if(auto *EC = dyn_cast<EnumConstantDecl>(D)) {
				Object o = node("int", E);
				o["v"] = (int64_t)(EC->getInitVal().isRepresentableByInt64() ? EC->getInitVal().getExtValue() : -1);
				o["n"] = qname(EC);
				return Value(std::move(o));
			}
			Object o = node("var", E);
			o["id"] = varId(D);
			o["n"] = D->getNameAsString();
			o["t"] = typeStr(D->getType());
			if(isa<ParmVarDecl>(D)) o["param"] = true;
			if(X->refersToEnclosingVariableOrCapture()) o["cap"] = true;
			return Value(std::move(o));
		}
		case Stmt::MemberExprClass: {
			auto *X = cast<MemberExpr>(E);
			auto *D = X->getMemberDecl();
			if(auto *F = dyn_cast<FunctionDecl>(D)) {
				Object o = node("mfn", E);
				o["b"] = expr(X->getBase());
				o["q"] = qname(F);
				return Value(std::move(o));
			}
			if(auto *V = dyn_cast<VarDecl>(D)) {
				Object o = node("var", E);
				o["id"] = varId(V);
				o["n"] = V->getNameAsString();
				o["t"] = typeStr(V->getType());
				return Value(std::move(o));
			}
			Object o = node("fld", E);
			o["b"] = expr(X->getBase());
			o["f"] = qname(D);
			if(X->isArrow()) o["arrow"] = true;
			o["t"] = typeStr(D->getType());
			return Value(std::move(o));
		}
		case Stmt::CallExprClass:
		case Stmt::UserDefinedLiteralClass: {
			auto *X = cast<CallExpr>(E);
			Object o = node("call", E);
			o["t"] = typeStr(E->getType());
			if(auto *F = X->getDirectCallee()) addCallee(o, F);
			else o["fnexpr"] = expr(X->getCallee());
			Array a;
			for(auto *arg : X->arguments()) a.push_back(expr(arg));
			o["a"] = std::move(a);
			return Value(std::move(o));
		}
		case Stmt::CXXMemberCallExprClass: {
			auto *X = cast<CXXMemberCallExpr>(E);
			Object o = node("call", E);
			o["t"] = typeStr(E->getType());
			if(auto *F = X->getMethodDecl()) addCallee(o, F);
			else o["fnexpr"] = expr(X->getCallee());
			if(auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
				if(ME->hasQualifier()) o["qual"] = true;
				if(ME->isArrow()) o["arrow"] = true;
			}
			o["o"] = expr(X->getImplicitObjectArgument());
			o["ot"] = typeStr(X->getImplicitObjectArgument()->getType());
			Array a;
			for(auto *arg : X->arguments()) a.push_back(expr(arg));
			o["a"] = std::move(a);
			return Value(std::move(o));
		}
		case Stmt::CXXOperatorCallExprClass: {
			auto *X = cast<CXXOperatorCallExpr>(E);
			Object o = node("call", E);
			o["t"] = typeStr(E->getType());
			o["oper"] = getOperatorSpelling(X->getOperator());
			const FunctionDecl *F = X->getDirectCallee();
			if(F) addCallee(o, F);
			Array a;
			unsigned i = 0;
			if(F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic() && X->getNumArgs()) {
				o["o"] = expr(X->getArg(0));
				o["ot"] = typeStr(X->getArg(0)->getType());
				i = 1;
			}
			for(; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i)));
			o["a"] = std::move(a);
			return Value(std::move(o));
		}
		case Stmt::CXXConstructExprClass:
		case Stmt::CXXTemporaryObjectExprClass: {
			auto *X = cast<CXXConstructExpr>(E);
			auto *D = X->getConstructor();
			// copies and moves of a temporary are transparent
			Object o = node("ctor", E);
			o["t"] = typeStr(E->getType());
			o["key"] = funcKey(D);
			o["q"] = qname(D);
			if(D->isCopyConstructor()) o["copy"] = true;
			if(D->isMoveConstructor()) o["move"] = true;
			if(X->isElidable()) o["elide"] = true;
			if(X->requiresZeroInitialization()) o["zi"] = true;
			Array a;
			for(auto *arg : X->arguments()) a.push_back(expr(arg));
			o["a"] = std::move(a);
			return Value(std::move(o));
		}
		case Stmt::CXXInheritedCtorInitExprClass: {
			Object o = node("ctor", E);
			o["t"] = typeStr(E->getType());
			o["a"] = Array();
			return Value(std::move(o));
		}
		case Stmt::CXXNewExprClass: {
			auto *X = cast<CXXNewExpr>(E);
			Object o = node("new", E);
			o["t"] = typeStr(X->getAllocatedType());
			if(X->isArray()) o["arr"] = X->getArraySize() ? expr(*X->getArraySize()) : Value(nullptr);
			if(X->getInitializer()) o["i"] = expr(X->getInitializer());
			if(X->getNumPlacementArgs()) o["pl"] = expr(X->getPlacementArg(0));
			return Value(std::move(o));
		}
		case Stmt::CXXDeleteExprClass: {
			auto *X = cast<CXXDeleteExpr>(E);
			Object o = node("delete", E);
			o["e"] = expr(X->getArgument());
			o["t"] = typeStr(X->getDestroyedType());
			return Value(std::move(o));
		}
		case Stmt::LambdaExprClass: {
			auto *X = cast<LambdaExpr>(E);
			Object o = node("lambda", E);
			o["key"] = lambdaKey(X->getLambdaClass());
			Array caps;
			auto ii = X->capture_init_begin();
			for(auto &c : X->captures()) {
				Object co;
				if(c.capturesThis()) { co["k"] = "this"; }
				else if(c.capturesVariable()) {
					co["k"] = c.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
					co["id"] = varId(c.getCapturedVar());
					co["n"] = c.getCapturedVar()->getNameAsString();
					co["t"] = typeStr(c.getCapturedVar()->getType());
				}
				if(*ii) co["i"] = expr(*ii);
				++ii;
				caps.push_back(std::move(co));
			}
			o["caps"] = std::move(caps);
			return Value(std::move(o));
		}
		case Stmt::BinaryOperatorClass: {
			auto *X = cast<BinaryOperator>(E);
			Object o = node(X->isAssignmentOp() ? "asg" : "bin", E);
			o["op"] = X->getOpcodeStr().str();
			o["x"] = expr(X->getLHS());
			o["y"] = expr(X->getRHS());
			o["t"] = typeStr(E->getType());
			return Value(std::move(o));
		}
		case Stmt::CompoundAssignOperatorClass: {
			auto *X = cast<CompoundAssignOperator>(E);
			Object o = node("casg", E);
			o["op"] = X->getOpcodeStr().drop_back(1).str();
			o["x"] = expr(X->getLHS());
			o["y"] = expr(X->getRHS());
			o["t"] = typeStr(E->getType());
			return Value(std::move(o));
		}
		case Stmt::UnaryOperatorClass: {
			auto *X = cast<UnaryOperator>(E);
			if(X->isIncrementDecrementOp()) {
				Object o = node("incdec", E);
				o["op"] = X->isIncrementOp() ? "+" : "-";
				o["post"] = X->isPostfix();
				o["e"] = expr(X->getSubExpr());
				o["t"] = typeStr(E->getType());
				return Value(std::move(o));
			}
			Object o = node("un", E);
			o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
			o["e"] = expr(X->getSubExpr());
			o["t"] = typeStr(E->getType());
			return Value(std::move(o));
		}
		case Stmt::ConditionalOperatorClass:
		case Stmt::BinaryConditionalOperatorClass: {
			auto *X = cast<AbstractConditionalOperator>(E);
			Object o = node("cond", E);
			o["c"] = expr(X->getCond());
			o["x"] = expr(X->getTrueExpr());
			o["y"] = expr(X->getFalseExpr());
			o["t"] = typeStr(E->getType());
			return Value(std::move(o));
		}
		case Stmt::ArraySubscriptExprClass: {
			auto *X = cast<ArraySubscriptExpr>(E);
			Object o = node("idx", E);
			o["b"] = expr(X->getBase());
			o["i"] = expr(X->getIdx());
			o["bt"] = typeStr(X->getBase()->IgnoreParenImpCasts()->getType());
			o["t"] = typeStr(E->getType());
			return Value(std::move(o));
		}
		case Stmt::InitListExprClass: {
			auto *X = cast<InitListExpr>(E);
			if(X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
			Object o = node("list", E);
			Array a;
			for(auto *i : X->inits()) a.push_back(expr(i));
			o["a"] = std::move(a);
			o["t"] = typeStr(E->getType());
			return Value(std::move(o));
		}
		case Stmt::CXXScalarValueInitExprClass:
		case Stmt::ImplicitValueInitExprClass: {
			Object o = node("zero", E);
			o["t"] = typeStr(E->getType());
			return Value(std::move(o));
		}
		case Stmt::CXXThrowExprClass: {
			Object o = node("throw", E);
			if(cast<CXXThrowExpr>(E)->getSubExpr()) o["e"] = expr(cast<CXXThrowExpr>(E)->getSubExpr());
			return Value(std::move(o));
		}
		default: {
			Object o = node("other", E);
			o["c"] = E->getStmtClassName();
			o["t"] = typeStr(E->getType());
			Array a;
			for(auto *ch : E->children())
				if(auto *ce = dyn_cast_or_null<Expr>(ch)) a.push_back(expr(ce));
			o["a"] = std::move(a);
			return Value(std::move(o));
		}
		}
	}

	// ---- statements

	Object snode(const char *k, const Stmt *S) {
		Object o;
		o["k"] = k;
		o["l"] = lineOf(S->getBeginLoc());
		return o;
	}

	Value varDecl(const VarDecl *V) {
		Object o;
		o["id"] = varId(V);
		o["n"] = V->getNameAsString();
		o["t"] = typeStr(V->getType());
		o["l"] = lineOf(V->getLocation());
		if(V->isStaticLocal()) o["static"] = true;
		if(V->getInit()) o["i"] = expr(V->getInit());
		if(V->getInit() && V->getInitStyle() == VarDecl::CallInit) o["is"] = "call";
		return Value(std::move(o));
	}

	Value stmt(const Stmt *S) {
		if(!S) return nullptr;
		if(auto *E = dyn_cast<Expr>(S)) {
			Object o = snode("expr", S);
			o["e"] = expr(E);
			return Value(std::move(o));
		}
		switch(S->getStmtClass()) {
		case Stmt::CompoundStmtClass: {
			Object o = snode("seq", S);
			Array a;
			for(auto *c : cast<CompoundStmt>(S)->body()) a.push_back(stmt(c));
			o["b"] = std::move(a);
			o["le"] = lineOf(S->getEndLoc());
			return Value(std::move(o));
		}
		case Stmt::DeclStmtClass: {
			Object o = snode("decl", S);
			Array a;
			for(auto *d : cast<DeclStmt>(S)->decls())
				if(auto *V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
			o["v"] = std::move(a);
			return Value(std::move(o));
		}
		case Stmt::IfStmtClass: {
			auto *X = cast<IfStmt>(S);
			Object o = snode("if", S);
			if(X->getInit()) o["init"] = stmt(X->getInit());
			if(X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
			o["c"] = expr(X->getCond());
			o["x"] = stmt(X->getThen());
			if(X->getElse()) o["y"] = stmt(X->getElse());
			return Value(std::move(o));
		}
		case Stmt::WhileStmtClass: {
			auto *X = cast<WhileStmt>(S);
			Object o = snode("while", S);
			if(X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
			o["c"] = expr(X->getCond());
			o["b"] = stmt(X->getBody());
			return Value(std::move(o));
		}
		case Stmt::DoStmtClass: {
			auto *X = cast<DoStmt>(S);
			Object o = snode("do", S);
			o["c"] = expr(X->getCond());
			o["b"] = stmt(X->getBody());
			return Value(std::move(o));
		}
		case Stmt::ForStmtClass: {
			auto *X = cast<ForStmt>(S);
			Object o = snode("for", S);
			if(X->getInit()) o["i"] = stmt(X->getInit());
			if(X->getCond()) o["c"] = expr(X->getCond());
			if(X->getInc()) o["s"] = expr(X->getInc());
			o["b"] = stmt(X->getBody());
			return Value(std::move(o));
		}
		case Stmt::CXXForRangeStmtClass: {
			auto *X = cast<CXXForRangeStmt>(S);
			Object o = snode("frange", S);
			o["r"] = expr(X->getRangeInit());
			o["v"] = varDecl(X->getLoopVariable());
			o["b"] = stmt(X->getBody());
			return Value(std::move(o));
		}
		case Stmt::SwitchStmtClass: {
			auto *X = cast<SwitchStmt>(S);
			Object o = snode("switch", S);
			o["c"] = expr(X->getCond());
			o["ct"] = typeStr(X->getCond()->IgnoreParenImpCasts()->getType());
			o["b"] = stmt(X->getBody());
			return Value(std::move(o));
		}
		case Stmt::CaseStmtClass: {
			auto *X = cast<CaseStmt>(S);
			Object o = snode("case", S);
			o["lo"] = expr(X->getLHS());
			if(X->getRHS()) o["hi"] = expr(X->getRHS());
			o["b"] = stmt(X->getSubStmt());
			return Value(std::move(o));
		}
		case Stmt::DefaultStmtClass: {
			Object o = snode("default", S);
			o["b"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
			return Value(std::move(o));
		}
		case Stmt::BreakStmtClass: return Value(snode("break", S));
		case Stmt::ContinueStmtClass: return Value(snode("continue", S));
		case Stmt::NullStmtClass: return Value(snode("nop", S));
		case Stmt::ReturnStmtClass: {
			Object o = snode("return", S);
			if(cast<ReturnStmt>(S)->getRetValue()) o["e"] = expr(cast<ReturnStmt>(S)->getRetValue());
			return Value(std::move(o));
		}
		case Stmt::GotoStmtClass: {
			Object o = snode("goto", S);
			o["n"] = cast<GotoStmt>(S)->getLabel()->getNameAsString();
			return Value(std::move(o));
		}
		case Stmt::LabelStmtClass: {
			Object o = snode("label", S);
			o["n"] = std::string(cast<LabelStmt>(S)->getName());
			o["b"] = stmt(cast<LabelStmt>(S)->getSubStmt());
			return Value(std::move(o));
		}
		case Stmt::CXXTryStmtClass: {
			Object o = snode("try", S);
			o["b"] = stmt(cast<CXXTryStmt>(S)->getTryBlock());
			Array a;
			for(unsigned i = 0; i < cast<CXXTryStmt>(S)->getNumHandlers(); i++) a.push_back(stmt(cast<CXXTryStmt>(S)->getHandler(i)->getHandlerBlock()));
			o["h"] = std::move(a);
			return Value(std::move(o));
		}
		case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
		default: {
			Object o = snode("sother", S);
			o["c"] = S->getStmtClassName();
			return Value(std::move(o));
		}
		}
	}

	// ---- declarations

	bool VisitFunctionDecl(FunctionDecl *F) {
		if(!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return true;
		if(F->isDependentContext()) return true;
		if(F->isTemplated() && !F->isTemplateInstantiation() && F->getDescribedFunctionTemplate()) return true;
		if(!F->hasBody()) return true;
		if(!inRoot(F->getLocation())) return true;
		if(!seen.insert(F).second) return true;
		Object o;
		o["key"] = funcKey(F);
		o["q"] = qname(F);
		o["file"] = fileOf(F->getLocation());
		o["l"] = lineOf(F->getLocation());
		o["ret"] = typeStr(F->getReturnType());
		if(F->getFormalLinkage() == Linkage::Internal) o["internal"] = true;
		Array ps;
		for(auto *p : F->parameters()) {
			Object po;
			po["id"] = varId(p);
			po["n"] = p->getNameAsString();
			po["t"] = typeStr(p->getType());
			ps.push_back(std::move(po));
		}
		o["params"] = std::move(ps);
		if(auto *M = dyn_cast<CXXMethodDecl>(F)) {
			auto *R = M->getParent();
			if(R->isLambda()) {
				o["lambda"] = true;
				if(M->getOverloadedOperator() != OO_Call) return true; // invoker / conversion
				if(const FunctionDecl *P = parentFunction(R->getDeclContext())) o["parent"] = funcKey(P);
				// class of captured this
				const DeclContext *DC = R->getDeclContext();
				while(DC) { if(auto *MM = dyn_cast<CXXMethodDecl>(DC)) if(!MM->getParent()->isLambda()) { o["cls"] = typeStr(C.getRecordType(MM->getParent())); break; } DC = DC->getParent(); }
			} else {
				o["cls"] = typeStr(C.getRecordType(R));
				if(M->isVirtual()) o["virt"] = true;
				if(M->isStatic()) o["static"] = true;
				if(M->isConst()) o["const"] = true;
				o["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
				Array ov;
				for(auto *m : M->overridden_methods()) ov.push_back(funcKey(m));
				if(!ov.empty()) o["over"] = std::move(ov);
			}
			if(auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
				o["ctor"] = true;
				if(CD->isCopyConstructor()) o["copy"] = true;
				if(CD->isMoveConstructor()) o["move"] = true;
				if(F->isImplicit()) o["implicit"] = true;
				if(F->isDefaulted()) o["defaulted"] = true;
				Array ini;
				for(auto *I : CD->inits()) {
					Object io;
					if(I->isAnyMemberInitializer()) io["f"] = qname(I->getAnyMember());
					else if(I->isBaseInitializer()) io["base"] = typeStr(QualType(I->getBaseClass(), 0));
					else if(I->isDelegatingInitializer()) io["deleg"] = true;
					if(I->isWritten()) io["w"] = true;
					io["l"] = lineOf(I->getSourceLocation());
					io["i"] = expr(I->getInit());
					ini.push_back(std::move(io));
				}
				o["inits"] = std::move(ini);
			}
			if(isa<CXXDestructorDecl>(F)) o["dtor"] = true;
		}
		o["body"] = stmt(F->getBody());
		funcs.push_back(std::move(o));
		return true;
	}

	// method declarations known to a class (even if defined in another TU)
	bool VisitCXXRecordDecl(CXXRecordDecl *R) {
		if(!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
		if(!inRoot(R->getLocation())) return true;
		if(!seen.insert(R).second) return true;
		Object o;
		o["q"] = typeStr(C.getRecordType(R));
		o["file"] = fileOf(R->getLocation());
		o["l"] = lineOf(R->getLocation());
		o["union"] = R->isUnion();
		Array bs;
		for(auto &b : R->bases()) bs.push_back(typeStr(b.getType()));
		o["bases"] = std::move(bs);
		Array fs;
		for(auto *f : R->fields()) {
			Object fo;
			fo["f"] = qname(f);
			fo["n"] = f->getNameAsString();
			fo["t"] = typeStr(f->getType());
			fo["l"] = lineOf(f->getLocation());
			fo["scalar"] = f->getType().getCanonicalType()->isScalarType();
			fo["pod"] = f->getType().isPODType(C);
			fo["const"] = f->getType().isConstQualified();
			fo["access"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_protected ? "protected" : "private";
			if(f->hasInClassInitializer() && f->getInClassInitializer()) fo["i"] = expr(f->getInClassInitializer());
			if(auto *AT = C.getAsConstantArrayType(f->getType())) fo["alen"] = (int64_t)AT->getSize().getZExtValue();
			fs.push_back(std::move(fo));
		}
		o["fields"] = std::move(fs);
		Array ms;
		for(auto *m : R->methods()) {
			if(m->isDeleted()) continue;
			Object mo;
			mo["key"] = funcKey(m);
			mo["q"] = qname(m);
			mo["n"] = m->getNameAsString();
			mo["virt"] = m->isVirtual();
			mo["pure"] = m->isPureVirtual();
			mo["const"] = m->isConst();
			mo["static"] = m->isStatic();
			mo["implicit"] = m->isImplicit();
			mo["ctor"] = isa<CXXConstructorDecl>(m);
			mo["dtor"] = isa<CXXDestructorDecl>(m);
			mo["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
			Array ov;
			for(auto *x : m->overridden_methods()) ov.push_back(funcKey(x));
			if(!ov.empty()) mo["over"] = std::move(ov);
			ms.push_back(std::move(mo));
		}
		o["methods"] = std::move(ms);
		classes.push_back(std::move(o));
		return true;
	}

	bool VisitEnumDecl(EnumDecl *D) {
		if(!D->isThisDeclarationADefinition() || !inRoot(D->getLocation())) return true;
		if(!seen.insert(D).second) return true;
		Object o;
		o["q"] = qname(D);
		o["file"] = fileOf(D->getLocation());
		o["l"] = lineOf(D->getLocation());
		Array vs;
		for(auto *e : D->enumerators()) {
			Object eo;
			eo["n"] = qname(e);
			eo["v"] = (int64_t)(e->getInitVal().isRepresentableByInt64() ? e->getInitVal().getExtValue() : -1);
			vs.push_back(std::move(eo));
		}
		o["v"] = std::move(vs);
		enums.push_back(std::move(o));
		return true;
	}

	bool VisitVarDecl(VarDecl *V) {
		if(V->isLocalVarDeclOrParm() || isa<ParmVarDecl>(V) || V->getDeclContext()->isDependentContext()) return true;
		if(!inRoot(V->getLocation())) return true;
		if(!seen.insert(V).second) return true;
		Object o;
		o["q"] = qname(V);
		o["id"] = varId(V);
		o["t"] = typeStr(V->getType());
		o["file"] = fileOf(V->getLocation());
		o["l"] = lineOf(V->getLocation());
		if(V->getInit()) {
			if(V->getType()->isIntegralOrEnumerationType() || V->getType()->isFloatingType()) {
				if(auto *v = V->evaluateValue()) {
					if(v->isInt()) { llvm::SmallString<32> s; v->getInt().toString(s, 10); o["v"] = s.str().str(); }
					else if(v->isFloat()) o["fv"] = v->getFloat().convertToDouble();
				}
			}
			o["i"] = expr(V->getInit());
		}
		globals.push_back(std::move(o));
		return true;
	}
};

class Consumer : public ASTConsumer {
	std::string in;
public:
	explicit Consumer(std::string i) : in(std::move(i)) {}
	void HandleTranslationUnit(ASTContext &C) override {
		Dumper d(C);
		d.TraverseDecl(C.getTranslationUnitDecl());
		Object top;
		top["tu"] = in;
		top["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
		top["funcs"] = std::move(d.funcs);
		top["classes"] = std::move(d.classes);
		top["enums"] = std::move(d.enums);
		top["globals"] = std::move(d.globals);
		llvm::outs() << Value(std::move(top));
		llvm::outs().flush();
	}
};

class Action : public ASTFrontendAction {
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef In) override {
		return std::make_unique<Consumer>(In.str());
	}
};

} // namespace

int main(int argc, char **argv) {
	if(argc < 3) { llvm::errs() << "usage: extract ROOT FILE [clang args...]\n"; return 2; }
	llvm::SmallString<256> real;
	if(llvm::sys::fs::real_path(argv[1], real)) return 2;
	gRoot = std::string(real.str());
	std::vector<std::string> args{"clang++", "-fsyntax-only"};
	for(int i = 3; i < argc; i++) args.push_back(argv[i]);
	args.push_back(argv[2]);
	llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
	tooling::ToolInvocation inv(args, std::make_unique<Action>(), FM.get());
	bool ok = inv.run();
	return ok ? 0 : 1;
}
