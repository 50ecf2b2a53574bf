// Mechanical AST extractor: prints, as JSON, every function definition and class
// located under the given path prefix(es).  Nothing is rewritten: implicit value
// conversions that do not change a value (lvalue loads, no-op casts, derived-to-base,
// temporaries, cleanups, parentheses) are dropped; everything else is emitted.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <string>
#include <vector>
#include <map>
using namespace clang;
using llvm::json::Object;
using llvm::json::Array;
using llvm::json::Value;

static std::vector<std::string> Prefixes;

class Emit {
public:
  ASTContext &C;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;
  Emit(ASTContext &c) : C(c), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
  }
  int id(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1; ids[d] = n; return n;
  }
  std::string ty(QualType t) {
    if (t.isNull()) return "?";
    return t.getCanonicalType().getAsString(PP);
  }
  std::string tyNoRef(QualType t) { return ty(t.getNonReferenceType().getUnqualifiedType()); }
  int line(SourceLocation l) {
    return C.getSourceManager().getExpansionLineNumber(l);
  }
  std::string file(SourceLocation l) {
    auto &SM = C.getSourceManager();
    return SM.getFilename(SM.getExpansionLoc(l)).str();
  }
  std::string qn(const NamedDecl *d) {
    std::string s; llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, PP);
    os.flush();
    return s;
  }
  // qualified name including template args of the class
  std::string cls(const CXXRecordDecl *r) {
    return ty(C.getRecordType(r));
  }
  std::string fqn(const FunctionDecl *f) {
    std::string base;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) base = cls(m->getParent()) + "::" + m->getNameAsString();
    else base = qn(f);
    if (auto *ta = f->getTemplateSpecializationArgs()) {
      base += "<";
      for (unsigned i = 0; i < ta->size(); i++) {
        if (i) base += ",";
        std::string s; llvm::raw_string_ostream os(s);
        ta->get(i).print(PP, os, false); os.flush(); base += s;
      }
      base += ">";
    }
    return base;
  }
  Value sig(const FunctionDecl *f) {
    Array a; for (auto *p : f->parameters()) a.push_back(ty(p->getType())); return std::move(a);
  }
  std::string pattern(const FunctionDecl *f) {
    // key used to match a call to its definition
    std::string s = fqn(f) + "(";
    bool first = true;
    for (auto *p : f->parameters()) { if (!first) s += ","; first = false; s += ty(p->getType()); }
    s += ")";
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) s += " const";
    return s;
  }
  Value expr(const Expr *e) {
    if (!e) return nullptr;
    // strip
    while (true) {
      if (auto *x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto *x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<CXXFunctionalCastExpr>(e)) {
        if (x->getCastKind()==CK_ConstructorConversion || x->getCastKind()==CK_NoOp) { e = x->getSubExpr(); continue; } }
      if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
          case CK_ConstructorConversion: case CK_UserDefinedConversion:
          case CK_ArrayToPointerDecay: case CK_BuiltinFnToFnPtr:
            e = x->getSubExpr(); continue;
          default: break;
        }
      }
      break;
    }
    Object o;
    o["ln"] = line(e->getBeginLoc());
    o["t"] = ty(e->getType());
    auto K = [&](const char *k) { o["k"] = k; };
    if (auto *x = dyn_cast<IntegerLiteral>(e)) { K("Int"); o["v"] = (int64_t)x->getValue().getLimitedValue(); return std::move(o); }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) { K("Float"); llvm::SmallString<40> s; x->getValue().toString(s, 20, 3, false);
      o["v"] = x->getValueAsApproximateDouble(); o["s"] = s.str().str();
      auto &SM = C.getSourceManager(); 
      o["src"] = Lexer::getSourceText(CharSourceRange::getTokenRange(SM.getSpellingLoc(x->getBeginLoc()), SM.getSpellingLoc(x->getEndLoc())), SM, C.getLangOpts()).str();
      return std::move(o); }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { K("Bool"); o["v"] = x->getValue(); return std::move(o); }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) { K("Int"); o["v"] = (int64_t)x->getValue(); return std::move(o); }
    if (auto *x = dyn_cast<StringLiteral>(e)) { K("Str"); o["v"] = x->getCharByteWidth()==1 ? x->getString().str() : std::string("?"); return std::move(o); }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { K("Null"); return std::move(o); }
    if (isa<CXXThisExpr>(e)) { K("This"); return std::move(o); }
    if (auto *x = dyn_cast<PredefinedExpr>(e)) { K("Str"); o["v"] = "fn"; return std::move(o); }
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *d = x->getDecl();
      o["name"] = d->getNameAsString();
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { K("Enum"); o["v"] = ec->getInitVal().getExtValue(); o["qn"] = qn(ec); return std::move(o); }
      if (auto *f = dyn_cast<FunctionDecl>(d)) { K("FuncRef"); o["qn"] = fqn(f); o["key"] = pattern(f); return std::move(o); }
      K("Ref"); o["id"] = id(d);
      if (auto *v = dyn_cast<VarDecl>(d)) {
        o["kind"] = isa<ParmVarDecl>(v) ? "param" : (v->isLocalVarDecl() ? (v->isStaticLocal() ? "static" : "local") : "global");
        if (!v->isLocalVarDeclOrParm()) o["qn"] = qn(v);
        o["vt"] = ty(v->getType());
      }
      return std::move(o);
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      const ValueDecl *d = x->getMemberDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { K("Enum"); o["v"] = ec->getInitVal().getExtValue(); o["qn"] = qn(ec); return std::move(o); }
      if (auto *v = dyn_cast<VarDecl>(d)) { K("Ref"); o["id"] = id(d); o["kind"]="global"; o["qn"] = qn(v); o["name"]=d->getNameAsString(); o["vt"] = ty(v->getType()); return std::move(o); }
      K("Mem"); o["f"] = d->getNameAsString(); o["arrow"] = x->isArrow(); o["b"] = expr(x->getBase());
      o["vt"] = ty(d->getType());
      if (auto *fd = dyn_cast<FieldDecl>(d)) o["cls"] = ty(C.getRecordType(fd->getParent()));
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      K("MCall");
      const CXXMethodDecl *m = x->getMethodDecl();
      if (m) { o["m"] = m->getNameAsString(); o["cls"] = cls(m->getParent()); o["qn"] = fqn(m); o["key"] = pattern(m); o["virt"] = m->isVirtual(); o["const"]=m->isConst(); o["sig"]=sig(m);
        if (auto *ta = m->getTemplateSpecializationArgs()) { Array a; for (unsigned i=0;i<ta->size();i++){std::string s; llvm::raw_string_ostream os(s); ta->get(i).print(PP, os, false); os.flush(); a.push_back(s);} o["targs"]=std::move(a);} }
      if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) { o["arrow"] = me->isArrow(); o["obj"] = expr(me->getBase()); o["qual"] = me->hasQualifier();
         o["objt"] = ty(me->getBase()->getType()); }
      Array a; for (auto *g : x->arguments()) a.push_back(expr(g)); o["args"] = std::move(a);
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      K("OpCall"); o["op"] = getOperatorSpelling(x->getOperator());
      if (auto *f = x->getDirectCallee()) { o["qn"] = fqn(f); o["key"] = pattern(f); o["sig"]=sig(f); o["method"] = isa<CXXMethodDecl>(f);
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {o["cls"] = cls(m->getParent()); o["const"]=m->isConst();} }
      Array a; for (auto *g : x->arguments()) a.push_back(expr(g)); o["args"] = std::move(a);
      return std::move(o);
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      K("Call");
      if (auto *f = x->getDirectCallee()) { o["qn"] = fqn(f); o["name"] = f->getNameAsString(); o["key"] = pattern(f); o["sig"]=sig(f);
        if (auto *ta = f->getTemplateSpecializationArgs()) { Array a; for (unsigned i=0;i<ta->size();i++){std::string s; llvm::raw_string_ostream os(s); ta->get(i).print(PP, os, false); os.flush(); a.push_back(s);} o["targs"]=std::move(a);} }
      else o["fn"] = expr(x->getCallee());
      Array a; for (auto *g : x->arguments()) a.push_back(expr(g)); o["args"] = std::move(a);
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      auto *cd = x->getConstructor();
      K("Ctor"); o["cls"] = cls(cd->getParent()); o["key"] = pattern(cd); o["sig"] = sig(cd);
      o["copy"] = cd->isCopyOrMoveConstructor(); o["list"] = x->isListInitialization();
      Array a; for (auto *g : x->arguments()) a.push_back(expr(g)); o["args"] = std::move(a);
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      K("New"); o["at"] = ty(x->getAllocatedType());
      if (x->isArray()) { auto s = x->getArraySize(); o["n"] = s ? expr(*s) : Value(nullptr); }
      o["init"] = x->getInitializer() ? expr(x->getInitializer()) : Value(nullptr);
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { K("Delete"); o["arr"] = x->isArrayForm(); o["e"] = expr(x->getArgument()); return std::move(o); }
    if (auto *x = dyn_cast<UnaryOperator>(e)) { K("Un"); o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); o["e"] = expr(x->getSubExpr()); return std::move(o); }
    if (auto *x = dyn_cast<CompoundAssignOperator>(e)) { K("CAssign"); o["op"] = x->getOpcodeStr().drop_back(1).str(); o["ct"] = ty(x->getComputationResultType()); o["l"] = expr(x->getLHS()); o["r"] = expr(x->getRHS()); return std::move(o); }
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      if (x->getOpcode() == BO_Assign) K("Assign"); else K("Bin");
      o["op"] = x->getOpcodeStr().str(); o["l"] = expr(x->getLHS()); o["r"] = expr(x->getRHS()); return std::move(o); }
    if (auto *x = dyn_cast<ConditionalOperator>(e)) { K("Cond"); o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr()); return std::move(o); }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { K("Sub"); o["b"] = expr(x->getBase()); o["i"] = expr(x->getIdx()); return std::move(o); }
    if (auto *x = dyn_cast<CastExpr>(e)) { K("Cast"); o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr()); o["expl"] = isa<ExplicitCastExpr>(e); return std::move(o); }
    if (auto *x = dyn_cast<InitListExpr>(e)) { K("InitList"); Array a; for (auto *g : x->inits()) a.push_back(expr(g)); o["args"] = std::move(a); 
      if (x->hasArrayFiller()) o["filler"] = true;
      return std::move(o); }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { K("Sizeof"); o["of"] = ty(x->getTypeOfArgument());
      Expr::EvalResult R; if (x->EvaluateAsInt(R, C)) o["v"] = R.Val.getInt().getExtValue(); return std::move(o); }
    if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { K("ZeroInit"); return std::move(o); }
    if (auto *x = dyn_cast<LambdaExpr>(e)) { K("Lambda"); o["cls"] = cls(x->getLambdaClass());
      Array ps; for (auto *p : x->getCallOperator()->parameters()) ps.push_back(param(p)); o["params"] = std::move(ps);
      o["body"] = stmt(x->getBody()); 
      Array caps; for (auto &c : x->captures()) { Object co; if (c.capturesVariable()) { co["id"] = id(c.getCapturedVar()); co["name"]=c.getCapturedVar()->getNameAsString(); co["ref"] = c.getCaptureKind()==LCK_ByRef; } else co["this"]=true; caps.push_back(std::move(co)); }
      o["caps"] = std::move(caps);
      return std::move(o); }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) { K("Throw"); return std::move(o); }
    if (auto *x = dyn_cast<StmtExpr>(e)) { K("StmtExpr"); o["body"] = stmt(x->getSubStmt()); return std::move(o); }
    K("Unsupported"); o["what"] = e->getStmtClassName();
    return std::move(o);
  }
  Value param(const ParmVarDecl *p) {
    Object o; o["name"] = p->getNameAsString(); o["id"] = id(p); o["t"] = ty(p->getType()); return std::move(o);
  }
  Value var(const VarDecl *v) {
    Object o; o["name"] = v->getNameAsString(); o["id"] = id(v); o["t"] = ty(v->getType());
    o["static"] = v->isStaticLocal();
    if (auto *va = dyn_cast<VariableArrayType>(v->getType().getTypePtr())) { o["vla"] = va->getSizeExpr() ? expr(va->getSizeExpr()) : Value(nullptr); o["vlat"] = ty(va->getElementType()); }
    o["init"] = v->getInit() ? expr(v->getInit()) : Value(nullptr);
    return std::move(o);
  }
  Value stmt(const Stmt *s) {
    if (!s) return nullptr;
    Object o; o["ln"] = line(s->getBeginLoc());
    if (auto *x = dyn_cast<Expr>(s)) { o["s"] = "Expr"; o["e"] = expr(x); return std::move(o); }
    if (auto *x = dyn_cast<CompoundStmt>(s)) { o["s"] = "Block"; Array a; for (auto *b : x->body()) a.push_back(stmt(b)); o["b"] = std::move(a); return std::move(o); }
    if (auto *x = dyn_cast<DeclStmt>(s)) { o["s"] = "Decl"; Array a; for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(var(v)); o["v"] = std::move(a); return std::move(o); }
    if (auto *x = dyn_cast<IfStmt>(s)) { o["s"] = "If"; o["init"] = stmt(x->getInit()); if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable()); o["c"] = expr(x->getCond()); o["a"] = stmt(x->getThen()); o["b"] = stmt(x->getElse()); return std::move(o); }
    if (auto *x = dyn_cast<ForStmt>(s)) { o["s"] = "For"; o["init"] = stmt(x->getInit()); o["c"] = expr(x->getCond()); o["inc"] = expr(x->getInc()); o["b"] = stmt(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<WhileStmt>(s)) { o["s"] = "While"; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<DoStmt>(s)) { o["s"] = "Do"; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) { o["s"] = "RangeFor"; o["var"] = var(x->getLoopVariable()); o["range"] = expr(x->getRangeInit()); o["b"] = stmt(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<ReturnStmt>(s)) { o["s"] = "Return"; o["e"] = expr(x->getRetValue()); return std::move(o); }
    if (isa<BreakStmt>(s)) { o["s"] = "Break"; return std::move(o); }
    if (isa<ContinueStmt>(s)) { o["s"] = "Continue"; return std::move(o); }
    if (isa<NullStmt>(s)) { o["s"] = "Null"; return std::move(o); }
    if (auto *x = dyn_cast<SwitchStmt>(s)) { o["s"] = "Switch"; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<CaseStmt>(s)) { o["s"] = "Case"; o["v"] = expr(x->getLHS()); o["b"] = stmt(x->getSubStmt()); return std::move(o); }
    if (auto *x = dyn_cast<DefaultStmt>(s)) { o["s"] = "Default"; o["b"] = stmt(x->getSubStmt()); return std::move(o); }
    if (auto *x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if (auto *x = dyn_cast<CXXTryStmt>(s)) { o["s"] = "Try"; o["b"] = stmt(x->getTryBlock()); return std::move(o); }
    o["s"] = "Unsupported"; o["what"] = s->getStmtClassName(); return std::move(o);
  }
  bool wanted(SourceLocation l) {
    std::string f = file(l);
    for (auto &p : Prefixes) if (f.compare(0, p.size(), p) == 0) return true;
    return false;
  }
  Value func(const FunctionDecl *f) {
    Object o; o["qn"] = fqn(f); o["key"] = pattern(f); o["file"] = file(f->getLocation()); o["line"] = line(f->getBeginLoc()); o["end"] = line(f->getEndLoc());
    o["ret"] = ty(f->getReturnType());
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) { o["cls"] = cls(m->getParent()); o["static"] = m->isStatic(); o["const"] = m->isConst(); o["virt"] = m->isVirtual(); o["name"] = m->getNameAsString();
      Array ov; for (auto *b : m->overridden_methods()) ov.push_back(pattern(b)); o["overrides"] = std::move(ov); }
    else o["name"] = f->getNameAsString();
    Array ps; for (auto *p : f->parameters()) ps.push_back(param(p)); o["params"] = std::move(ps);
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = true; Array in;
      for (auto *i : c->inits()) { Object x; 
        if (i->isAnyMemberInitializer()) x["f"] = i->getAnyMember()->getNameAsString(); 
        else if (i->isBaseInitializer()) x["base"] = ty(QualType(i->getBaseClass(), 0)); 
        else if (i->isDelegatingInitializer()) x["deleg"] = true;
        x["e"] = expr(i->getInit()); x["written"] = i->isWritten(); in.push_back(std::move(x)); }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    o["body"] = stmt(f->getBody());
    return std::move(o);
  }
  Value record(const CXXRecordDecl *r) {
    Object o; o["name"] = cls(r); 
    Array b; for (auto &x : r->bases()) b.push_back(ty(x.getType())); o["bases"] = std::move(b);
    Array fs; for (auto *f : r->fields()) { Object x; x["n"] = f->getNameAsString(); x["t"] = ty(f->getType()); x["init"] = f->hasInClassInitializer() && f->getInClassInitializer() ? expr(f->getInClassInitializer()) : Value(nullptr); fs.push_back(std::move(x)); }
    o["fields"] = std::move(fs);
    return std::move(o);
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  Emit &E; std::set<const Decl *> seen;
  Array funcs, recs, globals, enums;
  V(Emit &e) : E(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (!f->doesThisDeclarationHaveABody() || f->isDependentContext()) return true;
    if (!E.wanted(f->getLocation())) return true;
    if (!f->getBody()) return true;
    if (seen.insert(f).second) funcs.push_back(E.func(f));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
    if (!E.wanted(r->getLocation())) {
      return true;
    }
    recs.push_back(E.record(r)); return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (!v->isFileVarDecl() || isa<ParmVarDecl>(v) || v->getType()->isDependentType()) return true;
    if (!E.wanted(v->getLocation())) return true;
    Object o; o["qn"] = E.qn(v); o["id"] = E.id(v); o["t"] = E.ty(v->getType()); o["init"] = v->getInit() ? E.expr(v->getInit()) : Value(nullptr);
    globals.push_back(std::move(o)); return true;
  }
};

class Cons : public ASTConsumer {
  CompilerInstance &CI;
public:
  Cons(CompilerInstance &ci) : CI(ci) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Emit E(C);
    V v(E); v.TraverseDecl(C.getTranslationUnitDecl());
    Object top; top["funcs"] = std::move(v.funcs); top["recs"] = std::move(v.recs); top["globals"] = std::move(v.globals);
    llvm::outs() << Value(std::move(top)) << "\n";
  }
};
class Act : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(CI); }
};
int main(int argc, const char **argv) {
  // extract file prefix1,prefix2 -- flags...
  std::string file = argv[1], pre = argv[2];
  size_t p = 0; while (p <= pre.size()) { size_t q = pre.find(',', p); if (q == std::string::npos) q = pre.size(); Prefixes.push_back(pre.substr(p, q - p)); p = q + 1; }
  std::vector<std::string> flags; for (int i = 4; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool T(db, {file});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
