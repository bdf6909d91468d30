// vmsa_extract: parses one translation unit with clang and writes the resolved
// program facts (records, enums, globals, function bodies) that are defined
// below a source root as one JSON document on stdout.
//
// Usage: vmsa_extract <root-dir>[:<root-dir>...] <source> -- <compiler args>
//
// Nothing is executed or evaluated beyond clang's own constant folding.

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MD5.h"
#include "llvm/Support/raw_ostream.h"

#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::OStream;

static std::vector<std::string> gRoots;

namespace {

struct Dumper {
	ASTContext &C;
	SourceManager &SM;
	OStream &J;
	PrintingPolicy PP;
	std::map<const Decl *, int> localIds;

	Dumper(ASTContext &c, OStream &j)
		: C(c), SM(c.getSourceManager()), J(j), PP(c.getLangOpts()) {
		PP.SuppressTagKeyword = true;
		PP.FullyQualifiedName = true;
		PP.PrintCanonicalTypes = true;
		PP.SuppressUnwrittenScope = true;
	}

	std::string fileOf(SourceLocation L) {
		L = SM.getExpansionLoc(L);
		return SM.getFilename(L).str();
	}
	unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }

	// Path relative to the root when the location is below one of the roots.
	bool inRoot(SourceLocation L, std::string *rel = nullptr) {
		if (L.isInvalid()) return false;
		std::string f = fileOf(L);
		for (auto &r : gRoots) {
			if (f.compare(0, r.size(), r) == 0 && f.size() > r.size() && f[r.size()] == '/') {
				if (rel) *rel = f.substr(r.size() + 1);
				return true;
			}
		}
		return false;
	}

	std::string usr(const Decl *D) {
		llvm::SmallString<128> buf;
		if (index::generateUSRForDecl(D, buf)) return "";
		llvm::MD5 h;
		h.update(buf.str());
		llvm::MD5::MD5Result r;
		h.final(r);
		char out[17];
		snprintf(out, sizeof out, "%016llx", (unsigned long long)r.low());
		return out;
	}
	std::string qname(const NamedDecl *D) {
		std::string s;
		llvm::raw_string_ostream os(s);
		D->printQualifiedName(os, PP);
		os.flush();
		return shorten(s);
	}
	static void repl(std::string &s, const char *a, const char *b) {
		size_t n = strlen(a), m = strlen(b), p = 0;
		while ((p = s.find(a, p)) != std::string::npos) { s.replace(p, n, b); p += m; }
	}
	static std::string shorten(std::string s) {
		repl(s, "std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string");
		repl(s, "std::basic_ostringstream<char, std::char_traits<char>, std::allocator<char>>", "std::ostringstream");
		// drop allocator / deleter arguments
		size_t p;
		while ((p = s.find(", std::allocator<")) != std::string::npos || (p = s.find(", std::default_delete<")) != std::string::npos) {
			size_t i = s.find('<', p), d = 0;
			for (; i < s.size(); ++i) { if (s[i] == '<') ++d; else if (s[i] == '>' && --d == 0) break; }
			if (i >= s.size()) break;
			s.erase(p, i + 1 - p);
		}
		return s;
	}
	std::string tstr(QualType T) { return shorten(T.getCanonicalType().getAsString(PP)); }

	int lid(const Decl *D) {
		D = D->getCanonicalDecl();
		auto it = localIds.find(D);
		if (it != localIds.end()) return it->second;
		int n = (int)localIds.size() + 1;
		localIds[D] = n;
		return n;
	}

	void str(llvm::StringRef k, llvm::StringRef v) {
		if (llvm::json::isUTF8(v)) J.attribute(k, v);
		else J.attribute(k, llvm::json::fixUTF8(v));
	}

	static const Expr *strip(const Expr *E) {
		while (E) {
			if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
			else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
				if (X->getCastKind() == CK_UserDefinedConversion || X->getCastKind() == CK_ConstructorConversion)
					E = X->getSubExpr();
				else
					E = X->getSubExpr();
			}
			else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
			else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
			else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
			else if (auto *X = dyn_cast<FullExpr>(E)) E = X->getSubExpr();
			else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
			else break;
		}
		return E;
	}

	void expr(llvm::StringRef key, const Expr *E) {
		J.attributeBegin(key);
		exprV(E);
		J.attributeEnd();
	}
	void exprList(llvm::StringRef key, llvm::ArrayRef<const Expr *> L) {
		J.attributeArray(key, [&] { for (auto *E : L) exprV(E); });
	}

	void constAttr(const Expr *E) {
		if (E->isValueDependent() || E->isTypeDependent()) return;
		QualType T = E->getType();
		if (!T->isIntegralOrEnumerationType()) return;
		Expr::EvalResult R;
		if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
			llvm::APSInt v = R.Val.getInt();
			if (v.getSignificantBits() <= 64) {
				if (v.isUnsigned() && v.getActiveBits() == 64) J.attribute("cv", (uint64_t)v.getZExtValue());
				else J.attribute("cv", (int64_t)v.getExtValue());
			}
		}
	}

	void calleeAttrs(const FunctionDecl *F) {
		if (!F) return;
		str("f", qname(F));
		str("id", usr(F));
		if (F->isNoReturn()) J.attribute("nr", true);
		if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) {
			if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->canThrow() == CT_Cannot)
				J.attribute("nothrow", true);
		}
		if (F->hasAttr<NoThrowAttr>()) J.attribute("nothrow", true);
		if (F->isExternC()) J.attribute("ec", true);
		if (inRoot(F->getLocation())) J.attribute("in", true);
		// indices of parameters through which the callee may write
		std::vector<unsigned> ra;
		for (unsigned i = 0; i < F->getNumParams(); ++i) {
			QualType T = F->getParamDecl(i)->getType();
			if (T->isLValueReferenceType() && !T->getPointeeType().isConstQualified()) ra.push_back(i);
			else if (T->isPointerType() && !T->getPointeeType().isConstQualified()) ra.push_back(i);
		}
		if (!ra.empty()) J.attributeArray("ra", [&] { for (auto i : ra) J.value((int64_t)i); });
	}

	void argsOf(const CallExpr *X, unsigned from) {
		J.attributeArray("a", [&] {
			for (unsigned i = from; i < X->getNumArgs(); ++i) exprV(X->getArg(i));
		});
	}

	void exprV(const Expr *E) {
		if (!E) { J.value(nullptr); return; }
		E = strip(E);
		if (!E) { J.value(nullptr); return; }
		if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
			const Expr *sub = strip(X->getExpr());
			J.objectBegin();
			J.attribute("k", "defarg");
			J.attribute("l", lineOf(X->getUsedLocation()));
			expr("e", sub);
			J.objectEnd();
			return;
		}
		if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { exprV(X->getExpr()); return; }
		if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { exprV(X->getSourceExpr()); return; }
		J.objectBegin();
		exprBody(E);
		J.objectEnd();
	}

	void K(const char *k, const Expr *E, bool type = true) {
		J.attribute("k", k);
		J.attribute("l", lineOf(E->getExprLoc()));
		if (type) str("t", tstr(E->getType()));
	}

	void exprBody(const Expr *E) {
		if (auto *X = dyn_cast<IntegerLiteral>(E)) {
			K("int", E); constAttr(E); (void)X;
		} else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
			K("chr", E); J.attribute("cv", (int64_t)X->getValue());
		} else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
			K("bool", E, false); J.attribute("cv", (int64_t)X->getValue());
		} else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
			K("null", E, false);
		} else if (auto *X = dyn_cast<StringLiteral>(E)) {
			K("str", E, false);
			if (X->getCharByteWidth() == 1) {
				std::string s = X->getString().str();
				// latin-1 -> utf8 so that every byte is kept
				std::string o;
				for (unsigned char ch : s) {
					if (ch < 0x80) o += (char)ch;
					else { o += (char)(0xC0 | (ch >> 6)); o += (char)(0x80 | (ch & 0x3F)); }
				}
				J.attribute("s", o);
			}
		} else if (isa<FloatingLiteral>(E)) {
			K("float", E);
		} else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
			K("ref", E);
			const ValueDecl *D = X->getDecl();
			str("n", D->getNameAsString());
			if (auto *V = dyn_cast<VarDecl>(D)) {
				if (isa<ParmVarDecl>(V)) { J.attribute("dk", "param"); J.attribute("d", lid(V)); }
				else if (V->isStaticLocal()) { J.attribute("dk", "slocal"); J.attribute("d", lid(V)); }
				else if (V->isLocalVarDecl()) { J.attribute("dk", "local"); J.attribute("d", lid(V)); }
				else { J.attribute("dk", "global"); str("q", qname(V)); }
				if (V->getType()->isReferenceType()) J.attribute("isref", true);
			} else if (auto *F = dyn_cast<FunctionDecl>(D)) {
				J.attribute("dk", "func"); str("q", qname(F)); str("id", usr(F));
			} else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
				J.attribute("dk", "enum"); str("q", qname(EC));
			} else if (isa<BindingDecl>(D)) {
				J.attribute("dk", "local"); J.attribute("d", lid(D));
			} else J.attribute("dk", "other");
			constAttr(E);
		} else if (auto *X = dyn_cast<MemberExpr>(E)) {
			K("mem", E);
			const ValueDecl *D = X->getMemberDecl();
			str("n", D->getNameAsString());
			str("q", qname(D));
			if (isa<VarDecl>(D)) J.attribute("static", true);
			if (isa<CXXMethodDecl>(D)) { J.attribute("meth", true); str("id", usr(D)); }
			if (isa<VarDecl>(D)) constAttr(E);
			expr("b", X->getBase());
		} else if (isa<CXXThisExpr>(E)) {
			K("this", E);
		} else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
			K("call", E);
			const CXXMethodDecl *M = X->getMethodDecl();
			const Expr *cal = strip(X->getCallee());
			if (M) {
				calleeAttrs(M);
				bool v = M->isVirtual();
				if (auto *ME = dyn_cast<MemberExpr>(cal)) if (ME->hasQualifier()) v = false;
				if (v) J.attribute("virt", true);
				if (M->isConst()) J.attribute("const", true);
				const CXXRecordDecl *RD = X->getRecordDecl();
				if (RD) str("rc", qname(RD));
				if (isa<CXXConversionDecl>(M)) J.attribute("conv", true);
			} else { J.attribute("ind", true); }
			const Expr *obj = X->getImplicitObjectArgument();
			if (obj) {
				str("ot", tstr(strip(obj)->getType()));
				expr("o", obj);
			}
			if (!M) expr("fn", cal);
			argsOf(X, 0);
		} else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
			K("call", E);
			const FunctionDecl *F = X->getDirectCallee();
			calleeAttrs(F);
			J.attribute("op", getOperatorSpelling(X->getOperator()));
			if (auto *M = dyn_cast_or_null<CXXMethodDecl>(F)) {
				if (M->isVirtual()) J.attribute("virt", true);
				if (M->isConst()) J.attribute("const", true);
				if (X->getNumArgs() > 0) {
					str("ot", tstr(strip(X->getArg(0))->getType()));
					expr("o", X->getArg(0));
				}
				argsOf(X, 1);
			} else argsOf(X, 0);
		} else if (auto *X = dyn_cast<CallExpr>(E)) {
			K("call", E);
			const FunctionDecl *F = X->getDirectCallee();
			if (F) calleeAttrs(F);
			else { J.attribute("ind", true); expr("fn", X->getCallee()); }
			argsOf(X, 0);
		} else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
			K("ctor", E);
			const CXXConstructorDecl *D = X->getConstructor();
			str("c", qname(D->getParent()));
			calleeAttrs(D);
			if (D->isCopyConstructor()) J.attribute("cp", "copy");
			else if (D->isMoveConstructor()) J.attribute("cp", "move");
			if (isa<CXXTemporaryObjectExpr>(X)) J.attribute("tmp", true);
			J.attributeArray("a", [&] { for (unsigned i = 0; i < X->getNumArgs(); ++i) exprV(X->getArg(i)); });
		} else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
			K("ctor", E);
			str("c", qname(X->getConstructor()->getParent()));
			calleeAttrs(X->getConstructor());
			J.attributeArray("a", [&] {});
		} else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
			K("new", E);
			if (X->isArray()) { J.attribute("arr", true); if (X->getArraySize()) expr("sz", *X->getArraySize()); }
			str("nt", tstr(X->getAllocatedType()));
			if (X->getInitializer()) expr("e", X->getInitializer());
			if (X->getNumPlacementArgs()) J.attribute("placement", true);
		} else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
			K("delete", E, false);
			if (X->isArrayForm()) J.attribute("arr", true);
			expr("e", X->getArgument());
		} else if (auto *X = dyn_cast<BinaryOperator>(E)) {
			if (X->isAssignmentOp()) {
				K("asg", E);
				if (X->isCompoundAssignmentOp())
					str("op", BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode())));
			} else { K("bin", E); str("op", X->getOpcodeStr()); constAttr(E); }
			expr("x", X->getLHS());
			expr("y", X->getRHS());
		} else if (auto *X = dyn_cast<UnaryOperator>(E)) {
			K("un", E);
			str("op", UnaryOperator::getOpcodeStr(X->getOpcode()));
			if (X->isPostfix()) J.attribute("post", true);
			constAttr(E);
			expr("e", X->getSubExpr());
		} else if (auto *X = dyn_cast<ConditionalOperator>(E)) {
			K("cond", E);
			expr("c", X->getCond()); expr("x", X->getTrueExpr()); expr("y", X->getFalseExpr());
		} else if (auto *X = dyn_cast<BinaryConditionalOperator>(E)) {
			K("cond", E);
			expr("c", X->getCommon()); expr("x", X->getTrueExpr()); expr("y", X->getFalseExpr());
		} else if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
			K("cast", E);
			str("st", tstr(strip(X->getSubExpr())->getType()));
			if (isa<CXXDynamicCastExpr>(E)) J.attribute("ck", "dynamic");
			else if (isa<CXXConstCastExpr>(E)) J.attribute("ck", "const");
			else if (isa<CXXReinterpretCastExpr>(E)) J.attribute("ck", "reinterpret");
			else if (isa<CXXStaticCastExpr>(E)) J.attribute("ck", "static");
			else if (isa<CXXFunctionalCastExpr>(E)) J.attribute("ck", "func");
			else J.attribute("ck", "c");
			constAttr(E);
			expr("e", X->getSubExpr());
		} else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
			K("idx", E);
			expr("b", X->getBase()); expr("ix", X->getIdx());
		} else if (auto *X = dyn_cast<InitListExpr>(E)) {
			if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
			K("ilist", E);
			J.attributeArray("a", [&] { for (auto *I : X->inits()) exprV(I); });
		} else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
			K("zero", E);
		} else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
			K("throw", E, false);
			if (X->getSubExpr()) {
				str("tt", tstr(strip(X->getSubExpr())->getType()));
				expr("e", X->getSubExpr());
			}
		} else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
			K("sizeof", E); constAttr(E);
			if (!X->isArgumentType()) {
				const Expr *A = strip(X->getArgumentExpr());
				str("at", tstr(A->getType()));
			} else str("at", tstr(X->getArgumentType()));
		} else if (auto *X = dyn_cast<LambdaExpr>(E)) {
			K("lambda", E, false);
			str("lam", usr(X->getCallOperator()));
			J.attributeArray("caps", [&] {
				for (auto &cap : X->captures()) {
					J.objectBegin();
					if (cap.capturesThis()) J.attribute("n", "this");
					else if (cap.capturesVariable()) { str("n", cap.getCapturedVar()->getNameAsString()); J.attribute("d", lid(cap.getCapturedVar())); }
					J.attribute("byref", cap.getCaptureKind() == LCK_ByRef);
					J.objectEnd();
				}
			});
			J.attributeBegin("body"); stmtV(X->getBody()); J.attributeEnd();
		} else if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
			K("typeid", E, false);
			if (!X->isTypeOperand()) expr("e", X->getExprOperand());
		} else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
			K("ilist", E);
			J.attributeArray("a", [&] { exprV(X->getSubExpr()); });
		} else if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) {
			K("arrcopy", E);
			expr("e", X->getCommonExpr());
		} else if (isa<StmtExpr>(E)) {
			K("stmtexpr", E);
			J.attributeBegin("body"); stmtV(cast<StmtExpr>(E)->getSubStmt()); J.attributeEnd();
		} else {
			K("other", E);
			str("cls", E->getStmtClassName());
			constAttr(E);
			J.attributeArray("a", [&] {
				for (const Stmt *S : E->children()) if (S) if (auto *SE = dyn_cast<Expr>(S)) exprV(SE);
			});
		}
	}

	void varDecl(const VarDecl *V) {
		J.objectBegin();
		str("n", V->getNameAsString());
		J.attribute("d", lid(V));
		J.attribute("l", lineOf(V->getLocation()));
		str("t", tstr(V->getType()));
		if (V->isStaticLocal()) J.attribute("static", true);
		if (V->getType()->isReferenceType()) J.attribute("isref", true);
		if (V->getInit()) {
			const Expr *I = V->getInit();
			J.attribute("is", V->getInitStyle() == VarDecl::CInit ? "c" : (V->getInitStyle() == VarDecl::CallInit ? "call" : "list"));
			expr("init", I);
		}
		if (auto *RD = V->getType()->getAsCXXRecordDecl()) {
			if (RD->hasDefinition() && !RD->hasTrivialDestructor()) {
				if (auto *D = RD->getDestructor()) str("dtor", usr(D));
			}
		}
		J.objectEnd();
	}

	void S(const char *k, const Stmt *St) {
		J.attribute("k", k);
		J.attribute("l", lineOf(St->getBeginLoc()));
	}
	void stmt(llvm::StringRef key, const Stmt *St) {
		J.attributeBegin(key); stmtV(St); J.attributeEnd();
	}

	void stmtV(const Stmt *St) {
		if (!St) { J.value(nullptr); return; }
		if (auto *E = dyn_cast<Expr>(St)) {
			J.objectBegin();
			J.attribute("k", "expr");
			J.attribute("l", lineOf(E->getBeginLoc()));
			expr("e", E);
			J.objectEnd();
			return;
		}
		if (auto *X = dyn_cast<AttributedStmt>(St)) { stmtV(X->getSubStmt()); return; }
		J.objectBegin();
		if (auto *X = dyn_cast<CompoundStmt>(St)) {
			S("block", St);
			J.attribute("el", lineOf(X->getEndLoc()));
			J.attributeArray("b", [&] { for (auto *c : X->body()) stmtV(c); });
		} else if (auto *X = dyn_cast<DeclStmt>(St)) {
			S("decl", St);
			J.attributeArray("v", [&] {
				for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) varDecl(V);
			});
		} else if (auto *X = dyn_cast<IfStmt>(St)) {
			S("if", St);
			if (X->getInit()) stmt("in0", X->getInit());
			if (auto *V = X->getConditionVariable()) { J.attributeBegin("cvar"); varDecl(V); J.attributeEnd(); }
			expr("c", X->getCond());
			stmt("x", X->getThen());
			if (X->getElse()) stmt("y", X->getElse());
		} else if (auto *X = dyn_cast<WhileStmt>(St)) {
			S("while", St);
			if (auto *V = X->getConditionVariable()) { J.attributeBegin("cvar"); varDecl(V); J.attributeEnd(); }
			expr("c", X->getCond());
			stmt("b", X->getBody());
		} else if (auto *X = dyn_cast<DoStmt>(St)) {
			S("do", St);
			stmt("b", X->getBody());
			expr("c", X->getCond());
		} else if (auto *X = dyn_cast<ForStmt>(St)) {
			S("for", St);
			if (X->getInit()) stmt("in0", X->getInit());
			if (auto *V = X->getConditionVariable()) { J.attributeBegin("cvar"); varDecl(V); J.attributeEnd(); }
			if (X->getCond()) expr("c", X->getCond());
			if (X->getInc()) expr("inc", X->getInc());
			stmt("b", X->getBody());
		} else if (auto *X = dyn_cast<CXXForRangeStmt>(St)) {
			S("rfor", St);
			expr("r", X->getRangeInit());
			J.attributeBegin("var"); varDecl(X->getLoopVariable()); J.attributeEnd();
			stmt("b", X->getBody());
		} else if (auto *X = dyn_cast<SwitchStmt>(St)) {
			S("switch", St);
			expr("c", X->getCond());
			str("ct", tstr(strip(X->getCond())->getType()));
			stmt("b", X->getBody());
		} else if (auto *X = dyn_cast<CaseStmt>(St)) {
			S("case", St);
			expr("v", X->getLHS());
			stmt("s", X->getSubStmt());
		} else if (auto *X = dyn_cast<DefaultStmt>(St)) {
			S("default", St);
			stmt("s", X->getSubStmt());
		} else if (isa<BreakStmt>(St)) { S("break", St);
		} else if (isa<ContinueStmt>(St)) { S("continue", St);
		} else if (auto *X = dyn_cast<ReturnStmt>(St)) {
			S("ret", St);
			if (X->getRetValue()) expr("e", X->getRetValue());
		} else if (auto *X = dyn_cast<CXXTryStmt>(St)) {
			S("try", St);
			stmt("b", X->getTryBlock());
			J.attributeArray("h", [&] {
				for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
					auto *H = X->getHandler(i);
					J.objectBegin();
					J.attribute("l", lineOf(H->getBeginLoc()));
					if (H->getExceptionDecl()) {
						QualType T = H->getCaughtType();
						J.attribute("byref", T->isReferenceType());
						str("t", tstr(T.getNonReferenceType().getUnqualifiedType()));
						str("n", H->getExceptionDecl()->getNameAsString());
						J.attribute("d", lid(H->getExceptionDecl()));
					} else J.attribute("all", true);
					stmt("b", H->getHandlerBlock());
					J.objectEnd();
				}
			});
		} else if (auto *X = dyn_cast<GotoStmt>(St)) {
			S("goto", St); str("lab", X->getLabel()->getNameAsString());
		} else if (auto *X = dyn_cast<LabelStmt>(St)) {
			S("label", St); str("lab", X->getDecl()->getNameAsString());
			stmt("s", X->getSubStmt());
		} else if (isa<NullStmt>(St)) { S("null", St);
		} else { S("otherstmt", St); str("cls", St->getStmtClassName()); }
		J.objectEnd();
	}

	static const char *acc(AccessSpecifier a) {
		switch (a) { case AS_public: return "public"; case AS_protected: return "protected"; case AS_private: return "private"; default: return "none"; }
	}

	void funcHead(const FunctionDecl *F) {
		str("q", qname(F));
		str("id", usr(F));
		std::string rel;
		if (inRoot(F->getLocation(), &rel)) str("file", rel); else str("file", fileOf(F->getLocation()));
		J.attribute("l", lineOf(F->getLocation()));
		str("rt", tstr(F->getReturnType()));
		if (F->isNoReturn()) J.attribute("nr", true);
		if (!isa<CXXMethodDecl>(F) && !F->isExternallyVisible()) J.attribute("local", true);
		J.attributeArray("p", [&] {
			for (auto *P : F->parameters()) {
				J.objectBegin();
				str("n", P->getNameAsString());
				J.attribute("d", lid(P));
				str("t", tstr(P->getType()));
				if (P->getType()->isReferenceType()) J.attribute("isref", true);
				if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) expr("def", P->getDefaultArg());
				J.objectEnd();
			}
		});
		if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
			str("cls", qname(M->getParent()));
			J.attribute("acc", acc(M->getAccess()));
			if (M->isStatic()) J.attribute("static", true);
			if (M->isVirtual()) J.attribute("virt", true);
			if (M->isPureVirtual()) J.attribute("pure", true);
			if (M->isConst()) J.attribute("const", true);
			J.attributeArray("ov", [&] { for (auto *O : M->overridden_methods()) J.value(usr(O)); });
			if (isa<CXXConstructorDecl>(M)) {
				J.attribute("kind", "ctor");
				auto *CD = cast<CXXConstructorDecl>(M);
				if (CD->isCopyConstructor()) J.attribute("cp", "copy");
				else if (CD->isMoveConstructor()) J.attribute("cp", "move");
				if (CD->isDelegatingConstructor()) J.attribute("delegating", true);
			} else if (isa<CXXDestructorDecl>(M)) J.attribute("kind", "dtor");
			else if (isa<CXXConversionDecl>(M)) J.attribute("kind", "conv");
			if (M->isCopyAssignmentOperator()) J.attribute("cpa", true);
		}
		if (F->isDeleted()) J.attribute("deleted", true);
		if (F->isDefaulted()) J.attribute("defaulted", true);
		if (F->isImplicit()) J.attribute("implicit", true);
		if (F->isOverloadedOperator()) J.attribute("opn", getOperatorSpelling(F->getOverloadedOperator()));
		if (F->isTemplateInstantiation()) J.attribute("inst", true);
		if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) {
			if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->canThrow() == CT_Cannot)
				J.attribute("nothrow", true);
		}
	}

	void func(const FunctionDecl *F) {
		localIds.clear();
		J.objectBegin();
		funcHead(F);
		J.attribute("el", lineOf(F->getEndLoc()));
		if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
			J.attributeArray("inits", [&] {
				for (auto *I : CD->inits()) {
					J.objectBegin();
					if (I->isAnyMemberInitializer()) str("m", qname(I->getAnyMember()));
					else if (I->isBaseInitializer()) str("base", tstr(QualType(I->getBaseClass(), 0)));
					else if (I->isDelegatingInitializer()) J.attribute("delegate", true);
					J.attribute("w", I->isWritten());
					if (I->isInClassMemberInitializer()) J.attribute("inclass", true);
					J.attribute("l", lineOf(I->getSourceLocation()));
					expr("e", I->getInit());
					J.objectEnd();
				}
			});
		}
		J.attributeBegin("body");
		stmtV(F->getBody());
		J.attributeEnd();
		J.objectEnd();
	}

	void record(const CXXRecordDecl *R) {
		localIds.clear();
		J.objectBegin();
		str("q", qname(R));
		std::string rel;
		inRoot(R->getLocation(), &rel);
		str("file", rel);
		J.attribute("l", lineOf(R->getLocation()));
		if (R->isAbstract()) J.attribute("abstract", true);
		if (R->isUnion()) J.attribute("union", true);
		J.attribute("aggr", R->isAggregate());
		J.attribute("triv", R->isTrivial());
		if (isa<ClassTemplateSpecializationDecl>(R)) J.attribute("inst", true);
		if (R->getDescribedClassTemplate()) J.attribute("tmpl", true);
		J.attributeArray("bases", [&] {
			for (auto &B : R->bases()) str2(tstr(B.getType()));
		});
		J.attributeArray("fields", [&] {
			for (auto *F : R->fields()) {
				J.objectBegin();
				str("n", F->getNameAsString());
				str("q", qname(F));
				str("t", tstr(F->getType()));
				J.attribute("l", lineOf(F->getLocation()));
				J.attribute("acc", acc(F->getAccess()));
				QualType T = F->getType();
				QualType ET = C.getBaseElementType(T);
				J.attribute("scalar", ET->isScalarType());
				if (T->isArrayType()) J.attribute("arr", true);
				if (auto *FR = ET->getAsCXXRecordDecl())
					if (FR->hasDefinition()) J.attribute("trivdef", FR->hasTrivialDefaultConstructor());
				if (T->isReferenceType()) J.attribute("isref", true);
				if (F->isMutable()) J.attribute("mutable", true);
				if (F->hasInClassInitializer()) { J.attribute("inclass", true); }
				J.objectEnd();
			}
		});
		J.attributeArray("methods", [&] {
			for (auto *M : R->methods()) {
				if (M->isImplicit()) continue;
				J.objectBegin();
				funcHead(M);
				J.objectEnd();
			}
		});
		J.objectEnd();
	}
	void str2(const std::string &v) {
		if (llvm::json::isUTF8(v)) J.value(v); else J.value(llvm::json::fixUTF8(v));
	}

	void apval(const APValue &V, QualType T) {
		if (V.isInt()) {
			if (V.getInt().isUnsigned()) J.value((uint64_t)V.getInt().getZExtValue());
			else J.value((int64_t)V.getInt().getExtValue());
		} else if (V.isArray()) {
			J.arrayBegin();
			unsigned n = V.getArrayInitializedElts();
			unsigned sz = V.getArraySize();
			QualType ET = C.getAsArrayType(T) ? C.getAsArrayType(T)->getElementType() : QualType();
			for (unsigned i = 0; i < sz; ++i) {
				if (i < n) apval(V.getArrayInitializedElt(i), ET);
				else if (V.hasArrayFiller()) apval(V.getArrayFiller(), ET);
				else J.value(nullptr);
			}
			J.arrayEnd();
		} else if (V.isStruct()) {
			J.arrayBegin();
			for (unsigned i = 0; i < V.getStructNumFields(); ++i) apval(V.getStructField(i), QualType());
			J.arrayEnd();
		} else if (V.isLValue()) {
			if (auto *E = V.getLValueBase().dyn_cast<const Expr *>()) {
				if (auto *S = dyn_cast<StringLiteral>(strip(E))) {
					if (S->getCharByteWidth() == 1) { str2(S->getString().str()); return; }
				}
			}
			if (V.isNullPointer()) J.value(nullptr); else J.value("<lvalue>");
		} else J.value("<?>");
	}

	void global(const VarDecl *V) {
		localIds.clear();
		J.objectBegin();
		str("q", qname(V));
		std::string rel;
		inRoot(V->getLocation(), &rel);
		str("file", rel);
		J.attribute("l", lineOf(V->getLocation()));
		str("t", tstr(V->getType()));
		if (V->isStaticDataMember()) J.attribute("member", true);
		if (V->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", true);
		if (V->isStaticLocal()) {
			J.attribute("slocal", true);
			if (auto *FD = dyn_cast_or_null<FunctionDecl>(V->getParentFunctionOrMethod())) str("fn", usr(FD));
		}
		if (const Expr *I = V->getAnyInitializer()) {
			if (!I->isValueDependent()) {
				const APValue *val = nullptr;
				if (V->getType().isConstQualified() || V->isConstexpr()) {
					const VarDecl *DV = nullptr;
					V->getAnyInitializer(DV);
					if (DV && DV->checkForConstantInitialization(*new llvm::SmallVector<PartialDiagnosticAt, 4>()))
						val = DV->evaluateValue();
					else if (DV) val = DV->evaluateValue();
				}
				if (val) { J.attributeBegin("val"); apval(*val, V->getType()); J.attributeEnd(); }
				expr("init", I);
			}
		}
		J.objectEnd();
	}
};

class Collect : public RecursiveASTVisitor<Collect> {
public:
	std::vector<const FunctionDecl *> funcs;
	std::vector<const CXXRecordDecl *> recs;
	std::vector<const EnumDecl *> enums;
	std::vector<const VarDecl *> vars;
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }
	bool VisitFunctionDecl(FunctionDecl *F) {
		if (F->doesThisDeclarationHaveABody() && F->getBody() && !F->isDependentContext()) funcs.push_back(F);
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl *R) {
		if (R->isThisDeclarationADefinition() && !R->isLambda() && !R->isDependentContext()) recs.push_back(R);
		return true;
	}
	bool VisitEnumDecl(EnumDecl *E) { if (E->isThisDeclarationADefinition()) enums.push_back(E); return true; }
	bool VisitVarDecl(VarDecl *V) {
		if (isa<ParmVarDecl>(V)) return true;
		if (V->getDeclContext()->isDependentContext()) return true;
		if ((V->isFileVarDecl() && V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly) || V->isStaticLocal()) vars.push_back(V);
		else if (V->isStaticDataMember() && V->getAnyInitializer()) vars.push_back(V);
		return true;
	}
};

class Consumer : public ASTConsumer {
public:
	CompilerInstance &CI;
	explicit Consumer(CompilerInstance &ci) : CI(ci) {}
	void HandleTranslationUnit(ASTContext &Ctx) override {
		if (CI.getDiagnostics().hasErrorOccurred()) return;
		Collect col;
		col.TraverseDecl(Ctx.getTranslationUnitDecl());
		OStream J(llvm::outs());
		Dumper D(Ctx, J);
		J.objectBegin();
		std::set<std::string> deps;
		for (auto it = Ctx.getSourceManager().fileinfo_begin(); it != Ctx.getSourceManager().fileinfo_end(); ++it)
			deps.insert(it->first.getName().str());
		J.attributeArray("deps", [&] {
			for (auto &d : deps) for (auto &r : gRoots)
				if (d.compare(0, r.size(), r) == 0) { J.value(d); break; }
		});
		J.attributeArray("records", [&] { for (auto *R : col.recs) if (D.inRoot(R->getLocation())) D.record(R); });
		J.attributeArray("enums", [&] {
			for (auto *E : col.enums) if (D.inRoot(E->getLocation())) {
				J.objectBegin();
				D.str("q", D.qname(E));
				J.attribute("l", D.lineOf(E->getLocation()));
				J.attributeArray("e", [&] {
					for (auto *c : E->enumerators()) {
						J.objectBegin();
						D.str("n", c->getNameAsString());
						J.attribute("v", (int64_t)c->getInitVal().getExtValue());
						J.objectEnd();
					}
				});
				J.objectEnd();
			}
		});
		J.attributeArray("globals", [&] { for (auto *V : col.vars) if (D.inRoot(V->getLocation())) D.global(V); });
		J.attributeArray("funcs", [&] {
			std::set<const FunctionDecl *> seen;
			for (auto *F : col.funcs) {
				if (!D.inRoot(F->getLocation())) continue;
				if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) continue;
				if (!seen.insert(F->getCanonicalDecl()).second) continue;
				D.func(F);
			}
		});
		J.objectEnd();
		llvm::outs().flush();
	}
};

class Action : public ASTFrontendAction {
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
		return std::make_unique<Consumer>(CI);
	}
};

} // namespace

int main(int argc, const char **argv) {
	if (argc < 4) { llvm::errs() << "usage\n"; return 2; }
	{
		std::string r = argv[1];
		size_t p = 0;
		while (true) {
			size_t q = r.find(':', p);
			gRoots.push_back(r.substr(p, q == std::string::npos ? q : q - p));
			if (q == std::string::npos) break;
			p = q + 1;
		}
	}
	std::string src = argv[2];
	std::vector<std::string> args;
	for (int i = 4; i < argc; ++i) args.push_back(argv[i]);
	tooling::FixedCompilationDatabase db(".", args);
	tooling::ClangTool tool(db, {src});
	return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
