// Fact extractor: parses one translation unit with clang and writes every
// function body, record and enumeration that is defined below one of the given
// root directories (template instantiations included, uninstantiated patterns
// excluded) as a JSON document of resolved expression trees.
//
// usage: extract OUT.json ROOT[,ROOT...] -- clang-args... file
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string gOut;
static std::vector<std::string> gRoots;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
 public:
  explicit Dumper(ASTContext& ctx)
      : ctx_(ctx), sm_(ctx.getSourceManager()), pol_(ctx.getPrintingPolicy()) {
    pol_.SuppressTagKeyword = true;
    pol_.FullyQualifiedName = true;
    pol_.PrintCanonicalTypes = true;
    pol_.Bool = true;
    pol_.AnonymousTagLocations = false;
    pol_.SuppressScope = false;
    pol_.TerseOutput = true;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  json::Array functions, records, enums, globals, diags;
  std::set<const Decl*> seen_;

  auto inRoot(SourceLocation loc) const -> bool {
    return !fileOf(loc).empty();
  }
  auto fileOf(SourceLocation loc) const -> std::string {
    if (loc.isInvalid()) return "";
    auto e = sm_.getExpansionLoc(loc);
    auto name = sm_.getFilename(e).str();
    llvm::SmallString<256> real;
    if (!name.empty()) {
      if (auto fe = sm_.getFileEntryForID(sm_.getFileID(e))) {
        auto r = fe->tryGetRealPathName();
        if (!r.empty()) name = r.str();
      }
    }
    for (auto& r : gRoots)
      if (name.rfind(r, 0) == 0) return name;
    return "";
  }
  auto line(SourceLocation loc) const -> int {
    return loc.isInvalid() ? 0 : (int)sm_.getExpansionLineNumber(loc);
  }

  auto type(QualType t) const -> std::string {
    if (t.isNull()) return "?";
    return t.getCanonicalType().getAsString(pol_);
  }
  auto qname(const NamedDecl* d) const -> std::string {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pol_);
    return os.str();
  }
  // unique key of a function: qualified name with template arguments + type
  auto fkey(const FunctionDecl* f) -> std::string {
    f = f->getCanonicalDecl();
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      os << rkey(m->getParent()) << "::" << m->getDeclName().getAsString();
      if (auto* args = f->getTemplateSpecializationArgs())
        printTemplateArgumentList(os, args->asArray(), pol_);
    } else {
      f->getNameForDiagnostic(os, pol_, true);
    }
    os << "#" << type(f->getType());
    if (f->getDeclContext()->isFunctionOrMethod() ||
        (isa<CXXMethodDecl>(f) && cast<CXXMethodDecl>(f)->getParent()->isLambda()))
      os << "@" << line(f->getLocation());
    return os.str();
  }
  auto rkey(const CXXRecordDecl* r) -> std::string {
    if (!r) return "?";
    if (r->isLambda())
      return "lambda@" + std::to_string(line(r->getLocation())) + ":" +
             std::to_string(sm_.getExpansionColumnNumber(r->getLocation()));
    return type(ctx_.getRecordType(r));
  }
  auto did(const Decl* d) -> int64_t {
    d = d->getCanonicalDecl();
    auto it = ids_.find(d);
    if (it == ids_.end()) it = ids_.emplace(d, (int64_t)ids_.size() + 1).first;
    return it->second;
  }

  // ---------------------------------------------------------------- visitors
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (f->isDependentContext()) return true;
    if (!f->doesThisDeclarationHaveABody() && !f->isDefaulted() ) return true;
    if (!inRoot(f->getLocation()) && !inRoot(f->getBeginLoc())) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;  // dumped inline
    if (f->isDefaulted() && !f->isExplicitlyDefaulted() &&
        !isa<CXXConstructorDecl>(f))
      ;
    if (!seen_.insert(f).second) return true;
    functions.push_back(func(f));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() ||
        r->isLambda() || !inRoot(r->getLocation()))
      return true;
    json::Object o;
    o["key"] = rkey(r);
    o["file"] = fileOf(r->getLocation());
    o["line"] = line(r->getLocation());
    json::Array bases, fields, methods;
    for (auto& b : r->bases()) bases.push_back(type(b.getType()));
    for (auto* f : r->fields()) {
      json::Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = type(f->getType());
      fo["acc"] = (int)f->getAccess();
      fo["mutable"] = f->isMutable();
      if (f->hasInClassInitializer() && f->getInClassInitializer())
        fo["init"] = expr(f->getInClassInitializer());
      fields.push_back(std::move(fo));
    }
    for (auto* m : r->methods()) {
      json::Object mo;
      mo["f"] = fkey(m);
      mo["n"] = m->getDeclName().getAsString();
      mo["virt"] = m->isVirtual();
      mo["pure"] = m->isPureVirtual();
      mo["const"] = m->isConst();
      mo["acc"] = (int)m->getAccess();
      mo["implicit"] = m->isImplicit();
      mo["deleted"] = m->isDeleted();
      mo["user"] = m->isUserProvided();
      methods.push_back(std::move(mo));
    }
    o["bases"] = std::move(bases);
    o["fields"] = std::move(fields);
    o["methods"] = std::move(methods);
    o["implicit_copy"] = r->hasCopyConstructorWithConstParam() &&
                         !r->hasUserDeclaredCopyConstructor();
    o["user_copy_ctor"] = r->hasUserDeclaredCopyConstructor();
    o["user_copy_assign"] = r->hasUserDeclaredCopyAssignment();
    o["polymorphic"] = r->isPolymorphic();
    if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r))
      o["template"] = qname(s->getSpecializedTemplate());
    o["n"] = qname(r);
    records.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    if (!e->isThisDeclarationADefinition() || !inRoot(e->getLocation()) ||
        e->isDependentContext())
      return true;
    json::Object o;
    o["n"] = qname(e);
    o["under"] = type(e->getIntegerType());
    o["file"] = fileOf(e->getLocation());
    json::Array a;
    for (auto* c : e->enumerators()) {
      llvm::SmallString<32> s;
      c->getInitVal().toString(s, 10);
      a.push_back(json::Array{c->getNameAsString(), std::stoll(s.str().str())});
    }
    o["values"] = std::move(a);
    enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (!v->hasGlobalStorage() ||
        isa<ParmVarDecl>(v) || !inRoot(v->getLocation()))
      return true;
    if (v->getDeclContext()->isDependentContext()) return true;
    const VarDecl* def = nullptr;
    auto* init = v->getAnyInitializer(def);
    if (!init || def != v) return true;
    if (v->getType()->isDependentType() || init->isTypeDependent() ||
        init->isValueDependent())
      return true;
    if (!seen_.insert(v).second) return true;
    json::Object o;
    o["d"] = did(v);
    o["n"] = qname(v);
    o["t"] = type(v->getType());
    o["file"] = fileOf(v->getLocation());
    o["line"] = line(v->getLocation());
    o["const"] = v->getType().isConstQualified();
    o["tls"] = v->getTLSKind() != VarDecl::TLS_None;
    o["local"] = v->isStaticLocal();
    if (v->isStaticLocal())
      if (auto* fd = dyn_cast<FunctionDecl>(v->getDeclContext()))
        o["infn"] = fkey(fd);
    o["init"] = expr(init);
    globals.push_back(std::move(o));
    return true;
  }

  // --------------------------------------------------------------- functions
  auto param(const ParmVarDecl* p) -> json::Object {
    json::Object o;
    o["d"] = did(p);
    o["n"] = p->getNameAsString();
    o["t"] = type(p->getType());
    return o;
  }
  auto func(const FunctionDecl* f) -> json::Object {
    json::Object o;
    o["key"] = fkey(f);
    o["n"] = qname(f);
    o["file"] = fileOf(f->getLocation());
    o["line"] = line(f->getLocation());
    o["end"] = line(f->getEndLoc());
    o["ret"] = type(f->getReturnType());
    {
      auto* pt = f->getType()->castAs<FunctionProtoType>();
      o["noexcept"] = !isUnresolvedExceptionSpec(pt->getExceptionSpecType()) &&
                      pt->getExceptionSpecType() != EST_DependentNoexcept &&
                      pt->isNothrow();
    }
    o["static"] = f->isStatic();
    o["implicit"] = f->isImplicit();
    o["defaulted"] = f->isDefaulted();
    json::Array ps;
    for (auto* p : f->parameters()) ps.push_back(param(p));
    o["params"] = std::move(ps);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = rkey(m->getParent());
      o["const"] = m->isConst();
      o["virt"] = m->isVirtual();
      json::Array ov;
      for (auto* b : m->overridden_methods()) ov.push_back(fkey(b));
      o["over"] = std::move(ov);
      if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
        o["ctor"] = true;
        o["copy_ctor"] = c->isCopyConstructor();
        o["move_ctor"] = c->isMoveConstructor();
        json::Array is;
        for (auto* i : c->inits()) {
          json::Object io;
          if (i->isMemberInitializer())
            io["field"] = i->getMember()->getNameAsString();
          else if (i->isBaseInitializer())
            io["base"] = type(QualType(i->getBaseClass(), 0));
          else if (i->isDelegatingInitializer())
            io["deleg"] = true;
          io["written"] = i->isWritten();
          io["e"] = expr(i->getInit());
          is.push_back(std::move(io));
        }
        o["inits"] = std::move(is);
      }
      if (isa<CXXDestructorDecl>(m)) o["dtor"] = true;
      o["copy_assign"] = m->isCopyAssignmentOperator();
      o["move_assign"] = m->isMoveAssignmentOperator();
    }
    if (f->getBody()) o["body"] = stmt(f->getBody());
    return o;
  }

  // -------------------------------------------------------------- statements
  auto stmts(const Stmt* s) -> json::Value { return s ? stmt(s) : json::Value(nullptr); }

  auto var(const VarDecl* v) -> json::Object {
    json::Object o;
    o["k"] = "var";
    o["l"] = line(v->getLocation());
    o["d"] = did(v);
    o["n"] = v->getNameAsString();
    o["t"] = type(v->getType());
    o["ref"] = v->getType()->isReferenceType();
    if (v->isStaticLocal()) o["static"] = true;
    if (v->hasInit()) {
      o["init"] = expr(v->getInit());
      o["list"] = v->getInitStyle() == VarDecl::ListInit;
      if (v->getInitStyle() == VarDecl::CallInit) o["direct"] = true;
    }
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      json::Array b;
      for (auto* x : dd->bindings()) {
        json::Object bo;
        bo["d"] = did(x);
        bo["n"] = x->getNameAsString();
        if (auto* hv = x->getHoldingVar()) bo["hold"] = did(hv);
        b.push_back(std::move(bo));
      }
      o["bind"] = std::move(b);
    }
    return o;
  }

  auto stmt(const Stmt* s) -> json::Value {
    json::Object o;
    if (!s) return nullptr;
    o["l"] = line(s->getBeginLoc());
    if (auto* c = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block";
      json::Array a;
      for (auto* x : c->body()) a.push_back(stmt(x));
      o["s"] = std::move(a);
      return o;
    }
    if (auto* d = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      json::Array a;
      for (auto* x : d->decls())
        if (auto* v = dyn_cast<VarDecl>(x)) a.push_back(var(v));
      o["v"] = std::move(a);
      return o;
    }
    if (auto* i = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      if (i->getInit()) o["init"] = stmt(i->getInit());
      if (i->getConditionVariable()) o["cv"] = var(i->getConditionVariable());
      o["c"] = expr(i->getCond());
      o["a"] = stmts(i->getThen());
      o["b"] = stmts(i->getElse());
      o["constexpr"] = i->isConstexpr();
      return o;
    }
    if (auto* w = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      o["c"] = expr(w->getCond());
      o["b"] = stmts(w->getBody());
      return o;
    }
    if (auto* w = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = expr(w->getCond());
      o["b"] = stmts(w->getBody());
      return o;
    }
    if (auto* f = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      o["init"] = stmts(f->getInit());
      o["c"] = f->getCond() ? expr(f->getCond()) : json::Value(nullptr);
      o["inc"] = f->getInc() ? expr(f->getInc()) : json::Value(nullptr);
      o["b"] = stmts(f->getBody());
      return o;
    }
    if (auto* f = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rangefor";
      o["var"] = var(f->getLoopVariable());
      o["r"] = expr(f->getRangeInit());
      o["b"] = stmts(f->getBody());
      // A class of the repository used as iterator: its operators matter.
      if (auto* bs = dyn_cast_or_null<DeclStmt>(f->getBeginStmt())) {
        auto* bv = cast<VarDecl>(bs->getSingleDecl());
        auto* rd = bv->getType().getNonReferenceType()->getAsCXXRecordDecl();
        if (rd && rd->getQualifiedNameAsString().rfind("fes::", 0) == 0) {
          json::Array pre;
          pre.push_back(stmt(f->getRangeStmt()));
          pre.push_back(stmt(f->getBeginStmt()));
          pre.push_back(stmt(f->getEndStmt()));
          o["pre"] = std::move(pre);
          o["c"] = expr(f->getCond());
          o["inc"] = expr(f->getInc());
          o["lv"] = stmt(f->getLoopVarStmt());
        }
      }
      return o;
    }
    if (auto* r = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "return";
      o["e"] = r->getRetValue() ? expr(r->getRetValue()) : json::Value(nullptr);
      return o;
    }
    if (isa<BreakStmt>(s)) { o["k"] = "break"; return o; }
    if (isa<ContinueStmt>(s)) { o["k"] = "continue"; return o; }
    if (isa<NullStmt>(s)) { o["k"] = "null"; return o; }
    if (auto* t = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["b"] = stmt(t->getTryBlock());
      json::Array h;
      for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
        auto* c = t->getHandler(i);
        json::Object ho;
        ho["l"] = line(c->getBeginLoc());
        ho["t"] = c->getCaughtType().isNull() ? "..." : type(c->getCaughtType());
        if (c->getExceptionDecl()) ho["d"] = did(c->getExceptionDecl());
        ho["b"] = stmt(c->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
      return o;
    }
    if (auto* w = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      o["c"] = expr(w->getCond());
      o["b"] = stmts(w->getBody());
      return o;
    }
    if (auto* c = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      o["e"] = expr(c->getLHS());
      o["s"] = stmts(c->getSubStmt());
      return o;
    }
    if (auto* c = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "default";
      o["s"] = stmts(c->getSubStmt());
      return o;
    }
    if (auto* a = dyn_cast<AttributedStmt>(s)) return stmt(a->getSubStmt());
    if (auto* e = dyn_cast<Expr>(s)) {
      o["k"] = "expr";
      o["e"] = expr(e);
      return o;
    }
    o["k"] = "unknown";
    o["cls"] = s->getStmtClassName();
    return o;
  }

  // ------------------------------------------------------------- expressions
  auto args(llvm::iterator_range<CallExpr::const_arg_iterator> r)
      -> json::Array {
    json::Array a;
    for (auto* x : r) a.push_back(expr(x));
    return a;
  }
  static auto fp(const llvm::APFloat& v) -> std::string {
    bool lost = false;
    llvm::APFloat d(v);
    if (v.isInfinity()) return v.isNegative() ? "-inf" : "inf";
    if (v.isNaN()) return "nan";
    d.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven,
              &lost);
    char buf[64];
    snprintf(buf, sizeof buf, "%.17g", d.convertToDouble());
    return buf;
  }
  void callee(json::Object& o, const FunctionDecl* f) {
    if (!f) return;
    o["f"] = fkey(f);
    o["n"] = qname(f);
    if (f->isNoReturn()) o["noret"] = true;
    if (inRoot(f->getLocation())) o["own"] = true;
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      json::Array t;
      for (auto& x : ta->asArray()) {
        std::string s;
        llvm::raw_string_ostream os(s);
        x.print(pol_, os, true);
        t.push_back(os.str());
      }
      o["targs"] = std::move(t);
    }
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = rkey(m->getParent());
      o["mconst"] = m->isConst();
      o["virt"] = m->isVirtual();
      if (auto* cd = dyn_cast<CXXConversionDecl>(m)) { (void)cd; o["conv"] = true; }
    }
    // parameter passing: which parameters are mutable references / pointers
    json::Array pm;
    for (auto* p : f->parameters()) {
      auto t = p->getType();
      const char* m = "val";
      if (t->isRValueReferenceType()) m = "rref";
      else if (t->isReferenceType())
        m = t->getPointeeType().isConstQualified() ? "cref" : "ref";
      else if (t->isPointerType())
        m = t->getPointeeType().isConstQualified() ? "cptr" : "ptr";
      pm.push_back(m);
    }
    o["pm"] = std::move(pm);
  }

  auto expr(const Expr* e) -> json::Value {
    if (!e) return nullptr;
    // transparent wrappers
    if (auto* x = dyn_cast<FullExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) {
      auto v = expr(x->getExpr());
      if (auto* oo = v.getAsObject()) (*oo)["defarg"] = true;
      return v;
    }
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
    if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) {
      json::Object o;
      o["k"] = "arrcopy";
      o["l"] = line(e->getBeginLoc());
      o["e"] = expr(x->getCommonExpr()->getSourceExpr());
      return o;
    }
    if (auto* x = dyn_cast<OpaqueValueExpr>(e)) return expr(x->getSourceExpr());

    json::Object o;
    o["l"] = line(e->getBeginLoc());
    o["t"] = type(e->getType());
    if (e->isGLValue()) o["lv"] = 1;

    // compile time constants
    if (!e->isTypeDependent() && !e->isValueDependent() &&
        e->getType()->isArithmeticType() && !isa<FloatingLiteral>(e) && !isa<DeclRefExpr>(e)) {
      Expr::EvalResult r;
      if (!e->isGLValue() && e->EvaluateAsRValue(r, ctx_) && !r.HasSideEffects) {
        if (r.Val.isInt()) {
          llvm::SmallString<32> sv;
          r.Val.getInt().toString(sv, 10);
          o["cv"] = sv.str().str();
        } else if (r.Val.isFloat()) {
          o["cv"] = fp(r.Val.getFloat());
        }
      }
    }
    if (auto* x = dyn_cast<ImplicitCastExpr>(e)) return castx(std::move(o), x, x->getSubExpr(), "i");
    if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
      const char* k = "c";
      if (isa<CXXStaticCastExpr>(e)) k = "s";
      else if (isa<CXXReinterpretCastExpr>(e)) k = "r";
      else if (isa<CXXConstCastExpr>(e)) k = "k";
      else if (isa<CXXDynamicCastExpr>(e)) k = "d";
      return castx(std::move(o), x, x->getSubExpr(), k);
    }
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "int";
      llvm::SmallString<32> sv;
      x->getValue().toString(sv, 10, x->getType()->isSignedIntegerType());
      o["v"] = sv.str().str();
      return o;
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "float";
      o["v"] = fp(x->getValue());
      return o;
    }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); return o; }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "int"; o["v"] = std::to_string(x->getValue()); return o; }
    if (auto* x = dyn_cast<clang::StringLiteral>(e)) {
      o["k"] = "str";
      auto b = x->getBytes();
      o["v"] = json::isUTF8(b) ? b.str() : json::fixUTF8(b);
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; return o; }
    if (isa<CXXThisExpr>(e)) { o["k"] = "this"; return o; }
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      o["k"] = "ref";
      auto* d = x->getDecl();
      o["d"] = did(d);
      o["n"] = d->getDeclContext()->isFunctionOrMethod() ? d->getNameAsString() : qname(d);
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["dk"] = "enum";
        llvm::SmallString<32> sv;
        ec->getInitVal().toString(sv, 10);
        o["v"] = sv.str().str();
        o["n"] = ec->getNameAsString();
      } else if (auto* fd = dyn_cast<FunctionDecl>(d)) {
        o["dk"] = "func";
        callee(o, fd);
      } else if (isa<ParmVarDecl>(d)) {
        o["dk"] = "param";
      } else if (auto* bd = dyn_cast<BindingDecl>(d)) {
        o["dk"] = "bind";
        if (bd->getHoldingVar()) o["hold"] = did(bd->getHoldingVar());
      } else if (auto* v = dyn_cast<VarDecl>(d)) {
        o["dk"] = v->hasGlobalStorage() ? "global" : "var";
        if (v->getType().isConstQualified()) {
          Expr::EvalResult r;
          if (e->getType()->isArithmeticType() && e->EvaluateAsRValue(r, ctx_) && !r.HasSideEffects) {
            if (r.Val.isInt()) {
              llvm::SmallString<32> sv;
              r.Val.getInt().toString(sv, 10);
              o["cv"] = sv.str().str();
            } else if (r.Val.isFloat()) o["cv"] = fp(r.Val.getFloat());
          }
        }
        if (v->hasGlobalStorage()) {
          const VarDecl* def = nullptr;
          auto* init = v->getAnyInitializer(def);
          // string constants of the library are global const char* const
          if (init && v->getType().isConstQualified()) {
            auto* ii = init->IgnoreParenImpCasts();
            if (auto* sl = dyn_cast<clang::StringLiteral>(ii)) o["sv"] = sl->getBytes().str();
          }
        }
      } else {
        o["dk"] = "other";
      }
      return o;
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      auto* d = x->getMemberDecl();
      if (auto* v = dyn_cast<VarDecl>(d)) {
        o["k"] = "ref"; o["dk"] = "global"; o["d"] = did(v); o["n"] = qname(v);
        return o;
      }
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["k"] = "ref"; o["dk"] = "enum"; o["n"] = ec->getNameAsString();
        llvm::SmallString<32> sv; ec->getInitVal().toString(sv, 10); o["v"] = sv.str().str();
        return o;
      }
      o["k"] = "mem";
      o["o"] = expr(x->getBase());
      o["arrow"] = x->isArrow();
      o["n"] = d->getNameAsString();
      if (auto* fd = dyn_cast<FieldDecl>(d)) {
        if (auto* rr = dyn_cast<CXXRecordDecl>(fd->getParent())) o["cls"] = rkey(rr);
      } else if (auto* md = dyn_cast<CXXMethodDecl>(d)) {
        o["method"] = true;
        callee(o, md);
      }
      return o;
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "call";
      o["op"] = getOperatorSpelling(x->getOperator());
      auto* f = x->getDirectCallee();
      callee(o, f);
      if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
        o["o"] = expr(x->getArg(0));
        json::Array a;
        for (unsigned i = 1; i < x->getNumArgs(); ++i) a.push_back(expr(x->getArg(i)));
        o["a"] = std::move(a);
      } else {
        o["a"] = args(x->arguments());
      }
      return o;
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "call";
      if (auto* md = x->getMethodDecl()) {
        callee(o, md);
        auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts());
        o["o"] = expr(x->getImplicitObjectArgument());
        if (me) {
          o["arrow"] = me->isArrow();
          if (me->hasQualifier()) o["qual"] = true;
        }
      } else {
        o["k"] = "callptr";  // (obj.*ptr)(...)
        o["c"] = expr(x->getCallee());
      }
      o["a"] = args(x->arguments());
      return o;
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call";
      if (auto* f = x->getDirectCallee()) {
        callee(o, f);
      } else {
        o["k"] = "callptr";
        o["c"] = expr(x->getCallee());
      }
      o["a"] = args(x->arguments());
      return o;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "ctor";
      callee(o, x->getConstructor());
      json::Array a;
      for (auto* y : x->arguments()) a.push_back(expr(y));
      o["a"] = std::move(a);
      o["list"] = x->isListInitialization();
      auto* c = x->getConstructor();
      if (c->isCopyConstructor()) o["cm"] = "copy";
      if (c->isMoveConstructor()) o["cm"] = "move";
      if (x->requiresZeroInitialization()) o["zero"] = true;
      return o;
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      o["k"] = "ctor"; callee(o, x->getConstructor()); o["a"] = json::Array{}; o["inherited"] = true;
      return o;
    }
    if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { o["k"] = "zero"; return o; }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      if (x->isTransparent()) return expr(x->getInit(0));
      o["k"] = "init";
      json::Array a;
      for (auto* y : x->inits()) a.push_back(expr(y));
      o["a"] = std::move(a);
      if (auto* rt = x->getType()->getAsCXXRecordDecl()) {
        json::Array fs;
        for (auto* f : rt->fields()) fs.push_back(f->getNameAsString());
        o["fields"] = std::move(fs);
        o["cls"] = rkey(rt);
      }
      return o;
    }
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["post"] = x->isPostfix();
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = x->isAssignmentOp() ? "assign" : "bin";
      o["op"] = x->getOpcodeStr().str();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      return o;
    }
    if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) {
      o["k"] = "cond";
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
      return o;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "sub";
      o["a"] = expr(x->getBase());
      o["i"] = expr(x->getIdx());
      return o;
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda";
      json::Array caps;
      auto* rd = x->getLambdaClass();
      auto ii = x->capture_init_begin();
      for (auto& c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) {
          co["this"] = true;
          co["byref"] = c.getCaptureKind() != LCK_StarThis;
        } else if (c.capturesVariable()) {
          co["d"] = did(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar()))
            if (vd->isInitCapture()) co["init"] = expr(vd->getInit());
        }
        co["implicit"] = c.isImplicit();
        caps.push_back(std::move(co));
        ++ii;
      }
      o["caps"] = std::move(caps);
      json::Array ps;
      auto* op = x->getCallOperator();
      if (rd->isGenericLambda()) {
        // take the (unique) instantiation
        json::Array insts;
        if (auto* ft = rd->getDependentLambdaCallOperator())
          for (auto* sp : ft->specializations())
            if (sp->hasBody()) {
              json::Object io;
              json::Array q;
              for (auto* p : sp->parameters()) q.push_back(param(p));
              io["params"] = std::move(q);
              io["ret"] = type(sp->getReturnType());
              io["key"] = fkey(sp);
              io["body"] = stmt(sp->getBody());
              insts.push_back(std::move(io));
            }
        o["generic"] = std::move(insts);
        return o;
      }
      o["key"] = fkey(op);
      for (auto* p : op->parameters()) ps.push_back(param(p));
      o["params"] = std::move(ps);
      o["ret"] = type(op->getReturnType());
      o["mutable"] = !op->isConst();
      o["body"] = stmt(op->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "throw";
      o["e"] = x->getSubExpr() ? expr(x->getSubExpr()) : json::Value(nullptr);
      return o;
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new";
      o["nt"] = type(x->getAllocatedType());
      if (x->isArray() && x->getArraySize()) o["size"] = expr(*x->getArraySize());
      o["init"] = x->getConstructExpr() ? expr(x->getConstructExpr())
                  : x->getInitializer() ? expr(x->getInitializer()) : json::Value(nullptr);
      return o;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "delete";
      o["e"] = expr(x->getArgument());
      return o;
    }
    if (auto* x = dyn_cast<CXXTypeidExpr>(e)) { (void)x; o["k"] = "typeid"; return o; }
    if (isa<UnaryExprOrTypeTraitExpr>(e)) { o["k"] = "int"; auto it = o.find("cv"); o["v"] = it == o.end() ? json::Value("0") : json::Value(it->second); return o; }
    if (isa<CXXPseudoDestructorExpr>(e)) { o["k"] = "pseudodtor"; return o; }
    if (auto* x = dyn_cast<PredefinedExpr>(e)) { (void)x; o["k"] = "str"; o["v"] = ""; return o; }
    // fallback: keep the children so that no call is lost
    o["k"] = "other";
    o["cls_"] = e->getStmtClassName();
    json::Array ch;
    for (auto* c : e->children())
      if (auto* ce = dyn_cast_or_null<Expr>(c)) ch.push_back(expr(ce));
    o["ch"] = std::move(ch);
    return o;
  }

  auto castx(json::Object o, const CastExpr* x, const Expr* sub, const char* how)
      -> json::Value {
    switch (x->getCastKind()) {
      case CK_LValueToRValue:
      case CK_NoOp:
      case CK_ArrayToPointerDecay:
      case CK_FunctionToPointerDecay:
      case CK_ConstructorConversion:
      case CK_UserDefinedConversion:
      case CK_BuiltinFnToFnPtr: {
        if (how[0] == 'k' || how[0] == 'r') break;
        auto v = expr(sub);
        if (auto* vo = v.getAsObject()) {
          if (x->getCastKind() == CK_LValueToRValue) { vo->erase("lv"); (*vo)["rd"] = 1; }
          if (o.find("cv") != o.end() && vo->find("cv") == vo->end()) (*vo)["cv"] = *o.get("cv");
        }
        return v;
      }
      default: break;
    }
    o["k"] = "cast";
    o["ck"] = x->getCastKindName();
    o["how"] = how;
    o["e"] = expr(sub);
    o["from"] = type(sub->getType());
    return o;
  }

 private:
  ASTContext& ctx_;
  SourceManager& sm_;
  PrintingPolicy pol_;
  std::map<const Decl*, int64_t> ids_;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& ctx) override {
    Dumper d(ctx);
    d.TraverseDecl(ctx.getTranslationUnitDecl());
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    json::Object o;
    auto& sm = ctx.getSourceManager();
    json::Array files;
    for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
      auto n = it->first.getName().str();
      for (auto& r : gRoots)
        if (n.rfind(r, 0) == 0) files.push_back(n);
    }
    o["files"] = std::move(files);
    o["functions"] = std::move(d.functions);
    o["records"] = std::move(d.records);
    o["enums"] = std::move(d.enums);
    o["globals"] = std::move(d.globals);
    os << json::Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};
}  // namespace

int main(int argc, char** argv) {
  if (argc < 5) return 2;
  gOut = argv[1];
  llvm::SmallVector<llvm::StringRef, 4> rs;
  llvm::StringRef(argv[2]).split(rs, ',');
  for (auto r : rs) gRoots.push_back(r.str());
  std::vector<std::string> cmd;
  cmd.push_back("clang++");
  for (int i = 4; i < argc; ++i) cmd.push_back(argv[i]);
  auto files = llvm::IntrusiveRefCntPtr<FileManager>(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation inv(cmd, std::make_unique<Action>(), files.get());
  return inv.run() ? 0 : 3;
}
