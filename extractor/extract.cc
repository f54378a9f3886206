// AST extractor: dumps every function defined under a source root as a resolved,
// simplified tree (JSON), together with records, globals and enums.
// One process per translation unit; see sa/frontend.py.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string gRoot;  // e.g. /repo/src/
static std::string gGen;   // directory of generated protobuf headers

namespace {

class Dumper {
 public:
  explicit Dumper(ASTContext& c) : ctx(c), sm(c.getSourceManager()), pp(c.getPrintingPolicy()), namer(c) {
    pp.SuppressTagKeyword = true; pp.Bool = true; pp.adjustForCPlusPlus();
    pp.SuppressUnwrittenScope = true; pp.SuppressInlineNamespace = true;
  }
  ASTContext& ctx; SourceManager& sm; PrintingPolicy pp; ASTNameGenerator namer;
  std::map<std::string, Value> fns, recs, globals, enums;

  std::string fileOf(SourceLocation l) {
    l = sm.getFileLoc(l);
    auto f = sm.getFilename(l);
    return f.str();
  }
  bool inRoot(SourceLocation l) {
    auto f = fileOf(l);
    return f.compare(0, gRoot.size(), gRoot) == 0;
  }
  std::string rel(const std::string& f) {
    return f.compare(0, gRoot.size(), gRoot) == 0 ? f.substr(gRoot.size()) : f;
  }
  int lineOf(SourceLocation l) { return sm.getSpellingLineNumber(sm.getFileLoc(l)); }
  int colOf(SourceLocation l) { return sm.getSpellingColumnNumber(sm.getFileLoc(l)); }
  std::string ty(QualType t) { return t.getCanonicalType().getAsString(pp); }
  std::string qn(const NamedDecl* d) {
    std::string s; llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pp); os.flush();
    size_t p;
    while ((p = s.find("__cxx11::")) != std::string::npos) s.erase(p, 9);
    return s;
  }
  // qualified name of record without template arguments
  std::string recName(const CXXRecordDecl* r) {
    if (!r) return "";
    if (r->isLambda()) return "lambda@" + locId(r->getLocation());
    return qn(r);
  }
  std::string locId(SourceLocation l) {
    return rel(fileOf(l)) + ":" + std::to_string(lineOf(l)) + ":" + std::to_string(colOf(l));
  }
  std::string fnId(const FunctionDecl* f) {
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) {
        std::string s = "lambda@" + locId(m->getParent()->getLocation());
        // distinguish template instantiations of the enclosing function and generic lambdas
        const DeclContext* dc = m->getParent()->getDeclContext();
        while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
        if (auto* ef = dyn_cast_or_null<FunctionDecl>(dc))
          if (ef->isTemplateInstantiation()) s += "$" + fnId(ef);
        if (f->isTemplateInstantiation()) s += "$" + ty(f->getType());
        return s;
      }
    if (isa<CXXConstructorDecl>(f) || isa<CXXDestructorDecl>(f) || !f->isExternallyVisible()) {
      std::string n = namer.getName(f);
      if (!f->isExternallyVisible()) n += "@" + rel(fileOf(f->getLocation()));
      return n;
    }
    return namer.getName(f);
  }
  std::string varId(const VarDecl* v) {
    if (v->hasGlobalStorage() && !v->isStaticLocal()) return qn(v) + (v->isExternallyVisible() ? "" : "@" + rel(fileOf(v->getLocation())));
    return v->getNameAsString() + "@" + locId(v->getLocation());
  }

  Value ex(const Expr* e) {
    if (!e) return nullptr;
    Value v = ex0(e);
    if (auto* o = v.getAsObject()) {
      if (!o->get("l")) (*o)["l"] = lineOf(e->getExprLoc());
      if (!o->get("t")) (*o)["t"] = ty(e->getType());
      if (e->isGLValue() && !o->get("lv")) (*o)["lv"] = 1;
    }
    return v;
  }
  Array exs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    Array a; for (auto* x : r) a.push_back(ex(x)); return a;
  }
  void needFn(const FunctionDecl*) {}

  void fnRef(Object& o, const FunctionDecl* f) {
    o["name"] = qn(f);
    o["fn"] = fnId(f);
    const FunctionDecl* def = nullptr;
    const FunctionDecl* pat = f;
    if (f->isTemplateInstantiation() && f->getTemplateInstantiationPattern()) pat = f->getTemplateInstantiationPattern();
    if (pat->hasBody(def) && inRoot(def->getLocation())) o["src"] = 1;
    else if (inRoot(f->getLocation())) o["src"] = 1;
    if (f->isNoReturn()) o["noret"] = 1;
    Array pt; for (auto* p : f->parameters()) pt.push_back(ty(p->getType()));
    o["pt"] = std::move(pt);
    o["rt"] = ty(f->getReturnType());
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["rec"] = recName(m->getParent());
      if (m->isConst()) o["const"] = 1;
      if (m->isVirtual()) o["virt"] = 1;
      if (m->isStatic()) o["static"] = 1;
      if (m->getParent()->isLambda()) o["islambda"] = 1;
    }
  }

  Value ex0(const Expr* e) {
    if (auto* x = dyn_cast<ParenExpr>(e)) return ex(x->getSubExpr());
    if (auto* x = dyn_cast<ConstantExpr>(e)) return ex(x->getSubExpr());
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) return ex(x->getSubExpr());
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
      Value v = ex(x->getSubExpr());
      if (auto* o = v.getAsObject()) { if (!x->getSubExpr()->isGLValue()) (*o)["tmp"] = 1; o->erase("lv"); }
      Object o{{"k", "mat"}, {"e", std::move(v)}};
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return ex(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return ex(x->getReplacement());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return ex(x->getExpr());
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return ex(x->getExpr());
    if (auto* x = dyn_cast<OpaqueValueExpr>(e)) return ex(x->getSourceExpr());
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
      return Value(Object{{"k", "initlist"}, {"e", ex(x->getSubExpr())}});
    }
    if (auto* x = dyn_cast<FullExpr>(e)) return ex(x->getSubExpr());
    if (auto* x = dyn_cast<CastExpr>(e)) {
      auto ck = x->getCastKind();
      switch (ck) {
        case CK_NoOp: case CK_LValueToRValue: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
        case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_BuiltinFnToFnPtr:
          if (ck == CK_LValueToRValue || ck == CK_NoOp) {
            Value v = ex(x->getSubExpr());
            if (isa<ExplicitCastExpr>(x)) {     // an explicit cast that takes const off the object referred to
              QualType a = x->getSubExpr()->getType(), b = x->getType();
              bool p = a->isPointerType() && b->isPointerType();
              if (p) { a = a->getPointeeType(); b = b->getPointeeType(); }
              if ((p || x->isGLValue()) && a.isConstQualified() && !b.isConstQualified())
                if (auto* ob = v.getAsObject()) (*ob)["unconst"] = ty(b);
            }
            return v;
          }
          return ex(x->getSubExpr());
        default: break;
      }
      Object o{{"k", "cast"}, {"ck", x->getCastKindName()}, {"e", ex(x->getSubExpr())},
               {"ft", ty(x->getSubExpr()->getType())}};
      if (isa<ExplicitCastExpr>(x)) o["explicit"] = 1;
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<IntegerLiteral>(e))
      return Value(Object{{"k", "int"}, {"v", llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType())}});
    if (auto* x = dyn_cast<CharacterLiteral>(e)) return Value(Object{{"k", "int"}, {"v", std::to_string((int)x->getValue())}, {"char", 1}});
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      return Value(Object{{"k", "float"}, {"v", x->getValueAsApproximateDouble()}});
    }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) return Value(Object{{"k", "bool"}, {"v", x->getValue()}});
    if (auto* x = dyn_cast<clang::StringLiteral>(e)) return Value(Object{{"k", "str"}, {"v", x->isOrdinary() || x->isUTF8() ? llvm::json::fixUTF8(x->getString()) : std::string("?")}});
    if (isa<PredefinedExpr>(e)) return Value(Object{{"k", "str"}, {"v", "__func__"}});
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return Value(Object{{"k", "null"}});
    if (isa<CXXThisExpr>(e)) return Value(Object{{"k", "this"}});
    if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) return Value(Object{{"k", "zero"}});
    if (auto* x = dyn_cast<ImplicitValueInitExpr>(e)) return Value(Object{{"k", "zero"}});
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Expr::EvalResult r;
      if (x->EvaluateAsInt(r, ctx)) return Value(Object{{"k", "int"}, {"v", llvm::toString(r.Val.getInt(), 10)}, {"sizeof", 1}});
      return Value(Object{{"k", "opaque"}, {"what", "sizeof"}});
    }
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* d = x->getDecl();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        return Value(Object{{"k", "enum"}, {"name", qn(ec)}, {"v", llvm::toString(ec->getInitVal(), 10)}});
      }
      if (auto* f = dyn_cast<FunctionDecl>(d)) { Object o{{"k", "fnref"}}; fnRef(o, f); return Value(std::move(o)); }
      if (auto* v = dyn_cast<VarDecl>(d)) {
        Object o{{"k", "var"}, {"id", varId(v)}, {"name", v->getNameAsString()}};
        if (v->hasGlobalStorage()) {
          o["g"] = v->isStaticLocal() ? "static" : "global";
          o["qn"] = qn(v);
          if (v->getType().isConstQualified()) o["cq"] = 1;
          noteGlobal(v);
        }
        if (x->refersToEnclosingVariableOrCapture()) o["cap"] = 1;
        if (v->getType()->isReferenceType()) o["ref"] = 1;
        return Value(std::move(o));
      }
      if (auto* b = dyn_cast<BindingDecl>(d)) return Value(Object{{"k", "binding"}, {"name", b->getNameAsString()}, {"e", ex(b->getBinding())}});
      return Value(Object{{"k", "opaque"}, {"what", "declref"}});
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      auto* d = x->getMemberDecl();
      if (auto* v = dyn_cast<VarDecl>(d)) {
        Object o{{"k", "var"}, {"id", varId(v)}, {"name", v->getNameAsString()}, {"g", "global"}, {"qn", qn(v)}};
        noteGlobal(v);
        return Value(std::move(o));
      }
      if (auto* f = dyn_cast<FunctionDecl>(d)) { Object o{{"k", "fnref"}, {"obj", ex(x->getBase())}}; fnRef(o, f); return Value(std::move(o)); }
      Object o{{"k", "mem"}, {"f", d->getNameAsString()}, {"e", ex(x->getBase())}};
      if (x->isArrow()) o["arrow"] = 1;
      if (auto* fd = dyn_cast<FieldDecl>(d)) {
        o["rec"] = qn(fd->getParent());
        if (fd->getType()->isReferenceType()) o["ref"] = 1;
        if (fd->isMutable()) o["mutable"] = 1;
      }
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e))
      return Value(Object{{"k", "idx"}, {"e", ex(x->getBase())}, {"i", ex(x->getIdx())}});
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      if (x->getOpcode() == UO_Extension) return ex(x->getSubExpr());
      return Value(Object{{"k", "un"}, {"op", UnaryOperator::getOpcodeStr(x->getOpcode()).str() + (x->isPostfix() ? "post" : "")}, {"e", ex(x->getSubExpr())}});
    }
    if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
      std::string op = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
      op.pop_back();
      return Value(Object{{"k", "cassign"}, {"op", op}, {"a", ex(x->getLHS())}, {"b", ex(x->getRHS())}, {"ct", ty(x->getComputationResultType())}});
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      if (x->getOpcode() == BO_Assign) return Value(Object{{"k", "assign"}, {"a", ex(x->getLHS())}, {"b", ex(x->getRHS())}});
      return Value(Object{{"k", "bin"}, {"op", x->getOpcodeStr().str()}, {"a", ex(x->getLHS())}, {"b", ex(x->getRHS())}});
    }
    if (auto* x = dyn_cast<AbstractConditionalOperator>(e))
      return Value(Object{{"k", "cond"}, {"c", ex(x->getCond())}, {"a", ex(x->getTrueExpr())}, {"b", ex(x->getFalseExpr())}});
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      auto* m = x->getCallOperator();
      dumpFn(m);
      Object o{{"k", "lambda"}, {"fn", fnId(m)}};
      Array caps;
      auto init = x->capture_init_begin();
      for (auto it = x->capture_begin(); it != x->capture_end(); ++it, ++init) {
        Object c;
        if (it->capturesThis()) { c["mode"] = it->getCaptureKind() == LCK_StarThis ? "starthis" : "this"; }
        else if (it->capturesVariable()) {
          auto* v = cast<VarDecl>(it->getCapturedVar());
          c["var"] = varId(v); c["name"] = v->getNameAsString();
          c["t"] = ty(v->getType());
          bool initcap = v->isInitCapture();
          c["mode"] = it->getCaptureKind() == LCK_ByRef ? "ref" : "copy";
          if (initcap) { c["initcap"] = 1; c["init"] = ex(v->getInit()); if (v->getType()->isReferenceType()) c["mode"] = "ref"; }
          else c["init"] = ex(*init);
        }
        c["l"] = lineOf(it->getLocation());
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      if (m->isConst()) o["const"] = 1;
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      auto* c = x->getConstructor();
      Object o{{"k", "ctor"}, {"rec", recName(c->getParent())}};
      if (c->isCopyConstructor()) o["copy"] = 1;
      if (c->isMoveConstructor()) o["move"] = 1;
      fnRef(o, c);
      Array a; for (auto* y : x->arguments()) a.push_back(ex(y));
      o["args"] = std::move(a);
      if (x->isListInitialization()) o["list"] = 1;
      if (x->isStdInitListInitialization()) o["stdlist"] = 1;
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      return Value(Object{{"k", "opaque"}, {"what", "inhctor"}});
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      Object o{{"k", "new"}, {"at", ty(x->getAllocatedType())}, {"init", ex(x->getInitializer())}};
      if (x->isArray()) o["array"] = 1;
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) return Value(Object{{"k", "delete"}, {"e", ex(x->getArgument())}});
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) return Value(Object{{"k", "throw"}, {"e", ex(x->getSubExpr())}, {"tt", x->getSubExpr() ? ty(x->getSubExpr()->getType()) : std::string()}});
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      if (x->isTransparent()) return ex(x->getInit(0));
      if (!x->isSemanticForm() && x->getSemanticForm()) return ex(x->getSemanticForm());
      Array a; for (auto* y : x->inits()) a.push_back(ex(y));
      Object o{{"k", "list"}, {"e", std::move(a)}};
      if (auto* r = x->getType()->getAsCXXRecordDecl()) {
        o["rec"] = recName(r);
        Array f; for (auto* fd : r->fields()) f.push_back(fd->getNameAsString());
        o["fields"] = std::move(f);
      }
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXTypeidExpr>(e)) return Value(Object{{"k", "opaque"}, {"what", "typeid"}});
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      auto* f = x->getDirectCallee();
      if (!f) return Value(Object{{"k", "opaque"}, {"what", "opcall"}});
      Object o;
      if (isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
        o["k"] = "mcall"; fnRef(o, f);
        o["obj"] = ex(x->getArg(0));
        Array a; for (unsigned i = 1; i < x->getNumArgs(); ++i) a.push_back(ex(x->getArg(i)));
        o["args"] = std::move(a);
        o["op"] = 1;
      } else {
        o["k"] = "call"; fnRef(o, f); o["args"] = exs(x->arguments()); o["op"] = 1;
      }
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      auto* m = x->getMethodDecl();
      if (!m) {
        // call through pointer to member
        return Value(Object{{"k", "opaque"}, {"what", "pmcall"}, {"args", exs(x->arguments())}});
      }
      Object o{{"k", "mcall"}};
      fnRef(o, m);
      const Expr* obj = x->getImplicitObjectArgument();
      o["obj"] = ex(obj);
      if (obj->getType()->isPointerType()) { o["arrow"] = 1; if (auto* r = obj->getType()->getPointeeCXXRecordDecl()) o["orec"] = recName(r); }
      else if (auto* r = obj->getType()->getAsCXXRecordDecl()) o["orec"] = recName(r);
      if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) if (me->hasQualifier()) o["qual"] = 1;
      o["args"] = exs(x->arguments());
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      if (auto* f = x->getDirectCallee()) {
        if (f->getBuiltinID() && f->getNameAsString() == "__builtin_expect") return ex(x->getArg(0));
        Object o{{"k", "call"}}; fnRef(o, f); o["args"] = exs(x->arguments());
        return Value(std::move(o));
      }
      return Value(Object{{"k", "icall"}, {"e", ex(x->getCallee())}, {"args", exs(x->arguments())}});
    }
    if (auto* x = dyn_cast<CXXNoexceptExpr>(e)) return Value(Object{{"k", "bool"}, {"v", x->getValue()}});
    if (auto* x = dyn_cast<TypeTraitExpr>(e)) return Value(Object{{"k", "bool"}, {"v", x->getValue()}});
    return Value(Object{{"k", "opaque"}, {"what", e->getStmtClassName()}});
  }

  Value varDecl(const VarDecl* v) {
    Object o{{"id", varId(v)}, {"name", v->getNameAsString()}, {"t", ty(v->getType())}, {"l", lineOf(v->getLocation())}};
    if (v->getType()->isReferenceType()) o["ref"] = 1;
    if (v->isStaticLocal()) o["static"] = 1;
    if (v->getTSCSpec() != TSCS_unspecified) o["tls"] = 1;
    if (auto* r = v->getType()->getAsCXXRecordDecl()) o["rec"] = recName(r);
    if (v->getInit()) o["init"] = ex(v->getInit());
    if (v->isStaticLocal()) noteGlobal(v);
    return Value(std::move(o));
  }

  Value st(const Stmt* s) {
    if (!s) return nullptr;
    Value v = st0(s);
    if (auto* o = v.getAsObject()) if (!o->get("l")) (*o)["l"] = lineOf(s->getBeginLoc());
    return v;
  }
  Value st0(const Stmt* s) {
    if (auto* e = dyn_cast<Expr>(s)) return Value(Object{{"s", "expr"}, {"e", ex(e)}});
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      Array a; for (auto* y : x->body()) a.push_back(st(y));
      return Value(Object{{"s", "block"}, {"b", std::move(a)}, {"le", lineOf(x->getEndLoc())}});
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      Array a;
      for (auto* d : x->decls()) {
        if (auto* dd = dyn_cast<DecompositionDecl>(d)) {
          Object o{{"id", varId(dd)}, {"name", ""}, {"t", ty(dd->getType())}, {"l", lineOf(dd->getLocation())}};
          if (dd->getType()->isReferenceType()) o["ref"] = 1;
          if (dd->getInit()) o["init"] = ex(dd->getInit());
          a.push_back(Value(std::move(o)));
        } else if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
      }
      return Value(Object{{"s", "decl"}, {"d", std::move(a)}});
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      Object o{{"s", "if"}, {"c", ex(x->getCond())}, {"a", st(x->getThen())}, {"b", st(x->getElse())}};
      if (x->getInit()) o["init"] = st(x->getInit());
      if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
      if (x->isConstexpr()) o["constexpr"] = 1;
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<ForStmt>(s))
      return Value(Object{{"s", "for"}, {"init", st(x->getInit())}, {"c", ex(x->getCond())}, {"inc", ex(x->getInc())}, {"body", st(x->getBody())}});
    if (auto* x = dyn_cast<WhileStmt>(s)) {
      Object o{{"s", "while"}, {"c", ex(x->getCond())}, {"body", st(x->getBody())}};
      if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<DoStmt>(s)) return Value(Object{{"s", "do"}, {"c", ex(x->getCond())}, {"body", st(x->getBody())}});
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      Object o{{"s", "forrange"}, {"var", varDecl(x->getLoopVariable())}, {"range", ex(x->getRangeInit())}, {"body", st(x->getBody())}};
      if (auto* r = x->getRangeInit()->getType()->getAsCXXRecordDecl()) o["rec"] = recName(r);
      auto dumpBE = [&](const DeclStmt* d, const char* n) {
        if (!d) return;
        if (auto* v = dyn_cast<VarDecl>(d->getSingleDecl())) {
          const Expr* i = v->getInit();
          while (i) {
            if (auto* c = dyn_cast<CXXMemberCallExpr>(i)) { Object f; fnRef(f, c->getMethodDecl()); o[n] = Value(std::move(f)); return; }
            if (auto* c = dyn_cast<ImplicitCastExpr>(i)) { i = c->getSubExpr(); continue; }
            if (auto* c = dyn_cast<FullExpr>(i)) { i = c->getSubExpr(); continue; }
            if (auto* c = dyn_cast<MaterializeTemporaryExpr>(i)) { i = c->getSubExpr(); continue; }
            if (auto* c = dyn_cast<CXXConstructExpr>(i)) { if (c->getNumArgs() == 1) { i = c->getArg(0); continue; } }
            return;
          }
        }
      };
      dumpBE(x->getBeginStmt(), "beginfn"); dumpBE(x->getEndStmt(), "endfn");
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<ReturnStmt>(s)) return Value(Object{{"s", "ret"}, {"e", ex(x->getRetValue())}});
    if (isa<BreakStmt>(s)) return Value(Object{{"s", "break"}});
    if (isa<ContinueStmt>(s)) return Value(Object{{"s", "continue"}});
    if (isa<NullStmt>(s)) return Value(Object{{"s", "null"}});
    if (auto* x = dyn_cast<SwitchStmt>(s)) {
      Object o{{"s", "switch"}, {"c", ex(x->getCond())}, {"body", st(x->getBody())}};
      if (x->getInit()) o["init"] = st(x->getInit());
      if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CaseStmt>(s)) return Value(Object{{"s", "case"}, {"v", ex(x->getLHS())}, {"b", st(x->getSubStmt())}});
    if (auto* x = dyn_cast<DefaultStmt>(s)) return Value(Object{{"s", "default"}, {"b", st(x->getSubStmt())}});
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto* c = x->getHandler(i);
        Object o{{"t", c->getExceptionDecl() ? ty(c->getExceptionDecl()->getType()) : "..."}, {"b", st(c->getHandlerBlock())}};
        h.push_back(Value(std::move(o)));
      }
      return Value(Object{{"s", "try"}, {"b", st(x->getTryBlock())}, {"h", std::move(h)}});
    }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return st(x->getSubStmt());
    if (auto* x = dyn_cast<LabelStmt>(s)) return st(x->getSubStmt());
    return Value(Object{{"s", "opaque"}, {"what", s->getStmtClassName()}});
  }

  std::set<std::string> gnoted;
  void noteGlobal(const VarDecl* v) {
    v = v->getCanonicalDecl();
    const VarDecl* def = v->getDefinition(ctx);
    if (!def) def = v;
    std::string id = varId(v);
    if (!gnoted.insert(id).second) {
      return;
    }
    if (!inRoot(def->getLocation())) { return; }
    Object o{{"id", id}, {"name", qn(v)}, {"t", ty(v->getType())}, {"file", rel(fileOf(def->getLocation()))}, {"l", lineOf(def->getLocation())}};
    if (v->getType().isConstQualified()) o["const"] = 1;
    if (v->isStaticLocal()) o["staticlocal"] = 1;
    if (auto* r = v->getType()->getAsCXXRecordDecl()) o["rec"] = recName(r);
    if (def->getTSCSpec() != TSCS_unspecified) o["tls"] = 1;
    if (def->getInit()) { o["init"] = ex(def->getInit()); o["def"] = 1; }
    auto it = globals.find(id);
    if (it == globals.end()) globals.emplace(id, Value(std::move(o)));
  }

  void dumpFn(const FunctionDecl* f) {
    const FunctionDecl* def = nullptr;
    if (!f->hasBody(def)) {
      if (!(f->isDefaulted() && false)) return;
    }
    f = def;
    if (f->isDependentContext() || f->isTemplated()) return;
    const FunctionDecl* pat = f;
    if (f->isTemplateInstantiation() && f->getTemplateInstantiationPattern()) pat = f->getTemplateInstantiationPattern();
    if (!inRoot(pat->getLocation())) return;
    std::string id = fnId(f);
    if (fns.count(id)) return;
    fns.emplace(id, nullptr);
    Object o{{"id", id}, {"name", qn(f)}, {"file", rel(fileOf(pat->getLocation()))}, {"l", lineOf(f->getLocation())},
             {"le", lineOf(f->getEndLoc())}, {"rt", ty(f->getReturnType())}};
    if (f->isTemplateInstantiation()) {
      o["inst"] = 1;
      if (auto* ta = f->getTemplateSpecializationArgs()) {
        Array a; for (auto& t : ta->asArray()) { std::string s; llvm::raw_string_ostream os(s); t.print(pp, os, true); a.push_back(os.str()); }
        o["targs"] = std::move(a);
      }
    }
    Array ps;
    for (auto* p : f->parameters()) {
      Object q{{"id", varId(p)}, {"name", p->getNameAsString()}, {"t", ty(p->getType())}};
      if (p->getType()->isReferenceType()) q["ref"] = 1;
      QualType pt = p->getType().getNonReferenceType();
      if (auto* r = pt->getAsCXXRecordDecl()) q["rec"] = recName(r);
      else if (auto* r2 = pt->getPointeeCXXRecordDecl()) q["prec"] = recName(r2);
      ps.push_back(Value(std::move(q)));
    }
    o["params"] = std::move(ps);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["rec"] = recName(m->getParent());
      if (m->isConst()) o["const"] = 1;
      if (m->isStatic()) o["static"] = 1;
      if (m->isVirtual()) o["virt"] = 1;
      if (m->getParent()->isLambda()) o["islambda"] = 1;
      switch (m->getAccess()) { case AS_private: o["acc"] = "private"; break; case AS_protected: o["acc"] = "protected"; break; default: o["acc"] = "public"; }
      Array ov; for (auto* b : m->overridden_methods()) ov.push_back(fnId(b));
      if (!ov.empty()) o["over"] = std::move(ov);
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = 1;
      if (c->isImplicit()) o["implicit"] = 1;
      Array is;
      for (auto* i : c->inits()) {
        Object q{{"l", lineOf(i->getSourceLocation())}};
        if (i->isAnyMemberInitializer()) q["f"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer()) { q["base"] = 1; if (auto* r = i->getBaseClass()->getAsCXXRecordDecl()) q["rec"] = recName(r); }
        else if (i->isDelegatingInitializer()) q["deleg"] = 1;
        if (i->isWritten()) q["w"] = 1;
        q["e"] = ex(i->getInit());
        is.push_back(Value(std::move(q)));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = 1;
    if (!f->isExternallyVisible()) o["internal"] = 1;
    if (f->isImplicit()) o["implicit"] = 1;
    if (!f->isDefaulted() || f->getBody()) o["body"] = st(f->getBody());
    fns.find(id)->second = Value(std::move(o));
  }

  void dumpRec(const CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return;
    const CXXRecordDecl* pat = r;
    if (auto* p = r->getTemplateInstantiationPattern()) pat = p;
    if (!inRoot(pat->getLocation())) return;
    std::string n = recName(r);
    if (recs.count(n)) return;
    Object o{{"name", n}, {"file", rel(fileOf(r->getLocation()))}, {"l", lineOf(r->getLocation())}};
    Array fs, bs, ms;
    for (auto* f : r->fields()) {
      Object q{{"name", f->getNameAsString()}, {"t", ty(f->getType())}, {"l", lineOf(f->getLocation())}};
      if (auto* c = f->getType()->getAsCXXRecordDecl()) q["rec"] = recName(c);
      if (f->isMutable()) q["mutable"] = 1;
      switch (f->getAccess()) { case AS_private: q["acc"] = "private"; break; case AS_protected: q["acc"] = "protected"; break; default: q["acc"] = "public"; }
      if (f->hasInClassInitializer() && f->getInClassInitializer()) q["init"] = ex(f->getInClassInitializer());
      fs.push_back(Value(std::move(q)));
    }
    for (auto& b : r->bases()) if (auto* br = b.getType()->getAsCXXRecordDecl()) bs.push_back(recName(br));
    for (auto* m : r->methods()) {
      Object q{{"name", m->getNameAsString()}, {"fn", fnId(m)}, {"rt", ty(m->getReturnType())}};
      if (m->isConst()) q["const"] = 1;
      if (m->isVirtual()) q["virt"] = 1;
      if (m->isStatic()) q["static"] = 1;
      if (m->isPureVirtual()) q["pure"] = 1;
      if (m->isImplicit()) q["implicit"] = 1;
      if (m->isDeleted()) q["deleted"] = 1;
      if (isa<CXXConstructorDecl>(m)) q["ctor"] = 1;
      if (isa<CXXDestructorDecl>(m)) q["dtor"] = 1;
      switch (m->getAccess()) { case AS_private: q["acc"] = "private"; break; case AS_protected: q["acc"] = "protected"; break; default: q["acc"] = "public"; }
      Array pt; for (auto* p : m->parameters()) pt.push_back(ty(p->getType()));
      q["pt"] = std::move(pt);
      Array ov; for (auto* b : m->overridden_methods()) ov.push_back(fnId(b));
      if (!ov.empty()) q["over"] = std::move(ov);
      ms.push_back(Value(std::move(q)));
    }
    o["fields"] = std::move(fs); o["bases"] = std::move(bs); o["methods"] = std::move(ms);
    recs.emplace(n, Value(std::move(o)));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(Dumper& d) : d(d) {}
  Dumper& d;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (f->doesThisDeclarationHaveABody()) d.dumpFn(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) { d.dumpRec(r); return true; }
  bool VisitEnumDecl(EnumDecl* e) {
    if (!d.inRoot(e->getLocation()) || !e->isThisDeclarationADefinition()) return true;
    Array a;
    for (auto* c : e->enumerators()) a.push_back(Object{{"name", d.qn(c)}, {"v", llvm::toString(c->getInitVal(), 10)}});
    d.enums.emplace(d.qn(e), Value(std::move(a)));
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (v->hasGlobalStorage() && !v->getType()->isDependentType() && !v->isTemplated() && d.inRoot(v->getLocation())) d.noteGlobal(v);
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  explicit Consumer(std::string out) : out(std::move(out)) {}
  std::string out;
  void HandleTranslationUnit(ASTContext& c) override {
    if (c.getDiagnostics().hasErrorOccurred()) return;
    Dumper d(c);
    Visitor v(d);
    v.TraverseDecl(c.getTranslationUnitDecl());
    auto toObj = [](std::map<std::string, Value>& m) { Object o; for (auto& p : m) if (p.second.kind() != Value::Null) o[p.first] = std::move(p.second); return o; };
    Object o{{"fns", toObj(d.fns)}, {"recs", toObj(d.recs)}, {"globals", toObj(d.globals)}, {"enums", toObj(d.enums)}};
    std::error_code ec;
    llvm::raw_fd_ostream os(out, ec);
    os << Value(std::move(o)) << "\n";
  }
};

class Action : public ASTFrontendAction {
 public:
  explicit Action(std::string o) : out(std::move(o)) {}
  std::string out;
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Consumer>(out); }
};
class Factory : public tooling::FrontendActionFactory {
 public:
  explicit Factory(std::string o) : out(std::move(o)) {}
  std::string out;
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(out); }
};
}  // namespace

// usage: extract ROOT OUT SOURCE -- flags...
int main(int argc, const char** argv) {
  if (argc < 5) return 3;
  gRoot = argv[1];
  std::string out = argv[2], src = argv[3];
  std::vector<std::string> flags(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  Factory f(out);
  return tool.run(&f);
}
