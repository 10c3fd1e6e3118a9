// dredd-sa exporter: serialises the *resolved* (type-checked) program - every
// function body of the analysed repository, including template instantiations
// and lambda bodies - to JSON, so that the analyses in /verif/sa can work on
// resolved callees, types, enum values and the class hierarchy.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;
static std::string g_out;

namespace {

class Exporter : public RecursiveASTVisitor<Exporter> {
 public:
  explicit Exporter(ASTContext& c)
      : ctx(c), sm(c.getSourceManager()), pol(c.getPrintingPolicy()) {
    pol.SuppressTagKeyword = true;
    pol.FullyQualifiedName = true;
    pol.Bool = true;
    pol.AnonymousTagLocations = false;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  ASTContext& ctx;
  SourceManager& sm;
  PrintingPolicy pol;
  json::Object types, callees, enums, records, functions, globals;
  json::Array fileList;
  std::map<std::string, int> files;
  std::map<void*, std::string> typeIds;

  std::string fileOf(SourceLocation l) {
    l = sm.getExpansionLoc(l);
    auto f = sm.getFilename(l);
    return f.str();
  }
  bool inRepo(SourceLocation l) {
    if (l.isInvalid()) return false;
    std::string f = fileOf(l);
    for (auto& r : g_roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string locStr(SourceLocation l) {
    l = sm.getExpansionLoc(l);
    return fileOf(l) + ":" + std::to_string(sm.getExpansionLineNumber(l)) +
           ":" + std::to_string(sm.getExpansionColumnNumber(l));
  }
  std::string qn(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pol);
    return os.str();
  }
  std::string recName(const CXXRecordDecl* r) {
    if (r->isLambda()) return "lambda@" + locStr(r->getLocation());
    return qn(r);
  }

  // ---- types -------------------------------------------------------------
  std::string typeId(QualType q) {
    if (q.isNull()) return "";
    q = q.getCanonicalType();
    auto it = typeIds.find(q.getAsOpaquePtr());
    if (it != typeIds.end()) return it->second;
    std::string s = q.getAsString(pol);
    if (const auto* r = q->getAsCXXRecordDecl())
      if (r->isLambda()) s = recName(r);
    typeIds[q.getAsOpaquePtr()] = s;
    json::Object o;
    if (q.isConstQualified()) o["const"] = true;
    if (q->isReferenceType()) {
      o["c"] = "ref";
      if (q->isRValueReferenceType()) o["rv"] = true;
      o["p"] = typeId(q->getPointeeType());
    } else if (q->isPointerType()) {
      o["c"] = "ptr";
      o["p"] = typeId(q->getPointeeType());
    } else if (q->isBooleanType()) {
      o["c"] = "bool";
    } else if (const auto* e = q->getAs<EnumType>()) {
      o["c"] = "enum";
      o["e"] = enumName(e->getDecl());
    } else if (q->isIntegerType()) {
      o["c"] = "int";
      o["w"] = (int64_t)ctx.getTypeSize(q);
      o["s"] = q->isSignedIntegerType();
    } else if (q->isFloatingType()) {
      o["c"] = "float";
    } else if (q->isVoidType()) {
      o["c"] = "void";
    } else if (q->isArrayType()) {
      o["c"] = "array";
      o["p"] = typeId(ctx.getAsArrayType(q)->getElementType());
      if (const auto* ca = ctx.getAsConstantArrayType(q))
        o["n"] = (int64_t)ca->getSize().getZExtValue();
    } else if (const auto* r = q->getAsCXXRecordDecl()) {
      o["c"] = "rec";
      o["r"] = recordName(r);
      if (const auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r))
        o["ta"] = targs(sp->getTemplateArgs());
    } else {
      o["c"] = "other";
    }
    types[s] = std::move(o);
    return s;
  }
  json::Array targs(const TemplateArgumentList& l) {
    json::Array a;
    for (const auto& t : l.asArray()) addTArg(a, t);
    return a;
  }
  void addTArg(json::Array& a, const TemplateArgument& t) {
    if (t.getKind() == TemplateArgument::Type)
      a.push_back(typeId(t.getAsType()));
    else if (t.getKind() == TemplateArgument::Integral)
      a.push_back(llvm::toString(t.getAsIntegral(), 10));
    else if (t.getKind() == TemplateArgument::Pack)
      for (const auto& e : t.pack_elements()) addTArg(a, e);
    else
      a.push_back("?");
  }
  std::string enumName(const EnumDecl* e) {
    std::string n = qn(e);
    if (!enums.get(n)) {
      json::Array a;
      enums[n] = nullptr;
      const EnumDecl* def = e->getDefinition();
      if (def)
        for (const auto* c : def->enumerators())
          a.push_back(json::Array{c->getNameAsString(),
                                  (int64_t)c->getInitVal().getExtValue()});
      enums[n] = std::move(a);
    }
    return n;
  }
  std::string recordName(const CXXRecordDecl* r) {
    std::string n = recName(r);
    if (records.get(n)) return n;
    records[n] = nullptr;
    json::Object o;
    const CXXRecordDecl* d = r->getDefinition();
    if (d && !d->isDependentType()) {
      json::Array bases;
      for (const auto& b : d->bases())
        if (const auto* br = b.getType()->getAsCXXRecordDecl())
          bases.push_back(recordName(br));
      o["bases"] = std::move(bases);
      bool repo = inRepo(d->getLocation());
      if (repo) {
        json::Array fs;
        for (const auto* f : d->fields()) {
          json::Object fo{{"n", f->getNameAsString()},
                          {"t", typeId(f->getType())}};
          if (f->hasInClassInitializer() && f->getInClassInitializer())
            fo["init"] = ex(f->getInClassInitializer());
          fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        o["repo"] = true;
        o["file"] = fileOf(d->getLocation());
        o["line"] = (int64_t)sm.getExpansionLineNumber(d->getLocation());
      }
    }
    records[n] = std::move(o);
    return n;
  }

  // ---- callees -----------------------------------------------------------
  std::string fnKey(const FunctionDecl* f) {
    std::string s = qn(f);
    if (const auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->getParent()->isLambda())
        s = recName(m->getParent()) + "::" + f->getNameAsString();
      else if (const auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(
                   m->getParent())) {
        s += "{";
        std::string t;
        llvm::raw_string_ostream os(t);
        printTemplateArgumentList(os, sp->getTemplateArgs().asArray(), pol);
        s += os.str() + "}";
      }
    }
    if (const auto* ta = f->getTemplateSpecializationArgs()) {
      std::string t;
      llvm::raw_string_ostream os(t);
      printTemplateArgumentList(os, ta->asArray(), pol);
      s += os.str();
    }
    s += "(";
    for (const auto* p : f->parameters())
      s += p->getType().getCanonicalType().getAsString(pol) + ",";
    s += ")";
    if (const auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->isConst()) s += "const";
    const FunctionDecl* c = f->getCanonicalDecl();
    if (const auto* pat = c->getTemplateInstantiationPattern())
      c = pat->getCanonicalDecl();
    if (inRepo(c->getLocation())) {
      // Distinguish same-named functions of different files (internal linkage).
      if (c->getFormalLinkage() != ExternalLinkage || c->isInAnonymousNamespace())
        s += "@" + fileOf(c->getLocation());
    }
    return s;
  }
  std::string callee(const FunctionDecl* f) {
    std::string key = fnKey(f);
    if (callees.get(key)) return key;
    callees[key] = nullptr;
    json::Object o;
    o["qn"] = qn(f);
    o["n"] = f->getNameAsString();
    if (const auto* ta = f->getTemplateSpecializationArgs())
      o["ta"] = targs(*ta);
    o["ret"] = typeId(f->getReturnType());
    json::Array ps;
    for (const auto* p : f->parameters()) ps.push_back(typeId(p->getType()));
    o["ps"] = std::move(ps);
    if (f->isNoReturn()) o["noret"] = true;
    if (f->isOverloadedOperator())
      o["op"] = getOperatorSpelling(f->getOverloadedOperator());
    if (const auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = recordName(m->getParent());
      if (const auto* sp =
              dyn_cast<ClassTemplateSpecializationDecl>(m->getParent()))
        o["cta"] = targs(sp->getTemplateArgs());
      if (m->isConst()) o["const"] = true;
      if (m->isStatic()) o["static"] = true;
      if (m->isVirtual()) o["virt"] = true;
      if (isa<CXXConversionDecl>(m)) o["conv"] = true;
      if (const auto* ctor = dyn_cast<CXXConstructorDecl>(m)) {
        o["ctor"] = ctor->isDefaultConstructor() ? "default"
                    : ctor->isCopyConstructor()  ? "copy"
                    : ctor->isMoveConstructor()  ? "move"
                                                 : "other";
        if (ctor->isImplicit() || ctor->isDefaulted()) o["trivial"] = true;
      }
    }
    if (inRepo(f->getLocation())) o["repo"] = true;
    callees[key] = std::move(o);
    return key;
  }

  // ---- statements / expressions -----------------------------------------
  int line(SourceLocation l) {
    return (int)sm.getExpansionLineNumber(sm.getExpansionLoc(l));
  }
  std::map<const ValueDecl*, std::string> varIds;
  std::string varId(const ValueDecl* v) {
    const auto* c = cast<ValueDecl>(v->getCanonicalDecl());
    if (const auto* vd = dyn_cast<VarDecl>(v))
      if (!vd->isLocalVarDeclOrParm() || vd->isStaticLocal())
        return "G:" + qn(v) + "@" + locStr(c->getLocation());
    auto it = varIds.find(v);
    if (it != varIds.end()) return it->second;
    std::string s = v->getNameAsString() + "#" + std::to_string(varIds.size());
    varIds[v] = s;
    return s;
  }

  json::Object mk(const char* k, const Stmt* s) {
    json::Object o;
    o["k"] = k;
    o["l"] = line(s->getBeginLoc());
    if (const auto* e = dyn_cast<Expr>(s)) o["t"] = typeId(e->getType());
    return o;
  }

  json::Value var(const VarDecl* v) {
    json::Object o{{"k", "Var"},
                   {"l", line(v->getLocation())},
                   {"id", varId(v)},
                   {"n", v->getNameAsString()},
                   {"t", typeId(v->getType())}};
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (v->hasInit()) o["init"] = ex(v->getInit());
    if (const auto* dd = dyn_cast<DecompositionDecl>(v)) {
      json::Array bs;
      for (const auto* b : dd->bindings()) {
        json::Object bo{{"id", varId(b)}, {"n", b->getNameAsString()}};
        if (b->getHoldingVar() && b->getHoldingVar()->hasInit())
          bo["init"] = ex(b->getHoldingVar()->getInit());
        else if (b->getBinding())
          bo["init"] = ex(b->getBinding());
        bs.push_back(std::move(bo));
      }
      o["bind"] = std::move(bs);
    }
    return o;
  }

  json::Value st(const Stmt* s) {
    if (!s) return nullptr;
    if (const auto* e = dyn_cast<Expr>(s)) {
      json::Object o = mk("Expr", s);
      o["e"] = ex(e);
      return o;
    }
    if (const auto* c = dyn_cast<CompoundStmt>(s)) {
      auto o = mk("Block", s);
      json::Array a;
      for (const auto* x : c->body()) a.push_back(st(x));
      o["s"] = std::move(a);
      return o;
    }
    if (const auto* d = dyn_cast<DeclStmt>(s)) {
      auto o = mk("Decls", s);
      json::Array a;
      for (const auto* x : d->decls()) {
        if (const auto* v = dyn_cast<VarDecl>(x)) a.push_back(var(v));
      }
      o["d"] = std::move(a);
      return o;
    }
    if (const auto* i = dyn_cast<IfStmt>(s)) {
      auto o = mk("If", s);
      if (i->getInit()) o["init"] = st(i->getInit());
      if (i->getConditionVariable()) o["var"] = var(i->getConditionVariable());
      o["c"] = ex(i->getCond());
      o["th"] = st(i->getThen());
      if (i->getElse()) o["el"] = st(i->getElse());
      return o;
    }
    if (const auto* w = dyn_cast<WhileStmt>(s)) {
      auto o = mk("While", s);
      if (w->getConditionVariable()) o["var"] = var(w->getConditionVariable());
      o["c"] = ex(w->getCond());
      o["b"] = st(w->getBody());
      return o;
    }
    if (const auto* w = dyn_cast<DoStmt>(s)) {
      auto o = mk("Do", s);
      o["c"] = ex(w->getCond());
      o["b"] = st(w->getBody());
      return o;
    }
    if (const auto* f = dyn_cast<ForStmt>(s)) {
      auto o = mk("For", s);
      if (f->getInit()) o["init"] = st(f->getInit());
      if (f->getConditionVariable()) o["var"] = var(f->getConditionVariable());
      if (f->getCond()) o["c"] = ex(f->getCond());
      if (f->getInc()) o["inc"] = ex(f->getInc());
      o["b"] = st(f->getBody());
      return o;
    }
    if (const auto* f = dyn_cast<CXXForRangeStmt>(s)) {
      auto o = mk("RangeFor", s);
      if (f->getInit()) o["init"] = st(f->getInit());
      o["range"] = ex(f->getRangeInit());
      o["rt"] = typeId(f->getRangeInit()->getType());
      o["var"] = var(f->getLoopVariable());
      o["b"] = st(f->getBody());
      return o;
    }
    if (const auto* r = dyn_cast<ReturnStmt>(s)) {
      auto o = mk("Return", s);
      if (r->getRetValue()) o["e"] = ex(r->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(s)) return mk("Break", s);
    if (isa<ContinueStmt>(s)) return mk("Continue", s);
    if (isa<NullStmt>(s)) return mk("Null", s);
    if (const auto* w = dyn_cast<SwitchStmt>(s)) {
      auto o = mk("Switch", s);
      if (w->getInit()) o["init"] = st(w->getInit());
      if (w->getConditionVariable()) o["var"] = var(w->getConditionVariable());
      o["c"] = ex(w->getCond());
      o["b"] = st(w->getBody());
      return o;
    }
    if (const auto* c = dyn_cast<CaseStmt>(s)) {
      auto o = mk("Case", s);
      Expr::EvalResult r;
      if (!c->getLHS()->isValueDependent() && c->getLHS()->EvaluateAsInt(r, ctx))
        o["v"] = (int64_t)r.Val.getInt().getExtValue();
      o["s"] = st(c->getSubStmt());
      return o;
    }
    if (const auto* c = dyn_cast<DefaultStmt>(s)) {
      auto o = mk("Default", s);
      o["s"] = st(c->getSubStmt());
      return o;
    }
    if (const auto* a = dyn_cast<AttributedStmt>(s)) return st(a->getSubStmt());
    if (const auto* l = dyn_cast<LabelStmt>(s)) {
      auto o = mk("Label", s);
      o["s"] = st(l->getSubStmt());
      return o;
    }
    if (const auto* t = dyn_cast<CXXTryStmt>(s)) {
      auto o = mk("Try", s);
      o["b"] = st(t->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < t->getNumHandlers(); i++)
        hs.push_back(st(t->getHandler(i)->getHandlerBlock()));
      o["h"] = std::move(hs);
      return o;
    }
    auto o = mk("OtherStmt", s);
    o["cls"] = s->getStmtClassName();
    json::Array a;
    for (const auto* c : s->children()) a.push_back(st(c));
    o["s"] = std::move(a);
    return o;
  }

  json::Array exs(CallExpr::const_arg_range r) {
    json::Array a;
    for (const auto* e : r) a.push_back(ex(e));
    return a;
  }

  json::Value ex(const Expr* e) {
    if (!e) return nullptr;
    // Transparent wrappers.
    if (const auto* x = dyn_cast<ParenExpr>(e)) return ex(x->getSubExpr());
    if (const auto* x = dyn_cast<ExprWithCleanups>(e)) return ex(x->getSubExpr());
    if (const auto* x = dyn_cast<MaterializeTemporaryExpr>(e))
      return ex(x->getSubExpr());
    if (const auto* x = dyn_cast<CXXBindTemporaryExpr>(e))
      return ex(x->getSubExpr());
    if (const auto* x = dyn_cast<ConstantExpr>(e)) return ex(x->getSubExpr());
    if (const auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
      return ex(x->getReplacement());
    if (const auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return ex(x->getExpr());
    if (const auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return ex(x->getExpr());
    if (const auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e))
      return ex(x->getSemanticForm());

    if (const auto* x = dyn_cast<IntegerLiteral>(e)) {
      auto o = mk("Int", e);
      if (x->getValue().getActiveBits() <= 63)
        o["v"] = (int64_t)x->getValue().getZExtValue();
      else
        o["v"] = llvm::toString(x->getValue(), 10, false);
      return o;
    }
    if (const auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      auto o = mk("Bool", e);
      o["v"] = x->getValue();
      return o;
    }
    if (const auto* x = dyn_cast<CharacterLiteral>(e)) {
      auto o = mk("Char", e);
      o["v"] = (int64_t)x->getValue();
      return o;
    }
    if (const auto* x = dyn_cast<FloatingLiteral>(e)) {
      auto o = mk("Float", e);
      o["v"] = x->getValueAsApproximateDouble();
      return o;
    }
    if (const auto* x = dyn_cast<StringLiteral>(e)) {
      auto o = mk("Str", e);
      if (x->isOrdinary() || x->isUTF8())
        o["v"] = json::fixUTF8(x->getString());
      return o;
    }
    if (const auto* x = dyn_cast<PredefinedExpr>(e)) {
      auto o = mk("Str", e);
      o["v"] = x->getFunctionName() ? x->getFunctionName()->getString().str() : "";
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
      return mk("NullPtr", e);
    if (isa<CXXThisExpr>(e)) return mk("This", e);
    if (const auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      auto o = mk("Int", e);
      Expr::EvalResult r;
      if (x->EvaluateAsInt(r, ctx)) o["v"] = (int64_t)r.Val.getInt().getExtValue();
      return o;
    }
    if (const auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* d = x->getDecl();
      if (const auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        auto o = mk("Enum", e);
        o["n"] = ec->getNameAsString();
        o["v"] = (int64_t)ec->getInitVal().getExtValue();
        return o;
      }
      if (const auto* f = dyn_cast<FunctionDecl>(d)) {
        auto o = mk("Fn", e);
        o["f"] = callee(f);
        return o;
      }
      auto o = mk("Ref", e);
      o["id"] = varId(d);
      o["n"] = d->getNameAsString();
      if (const auto* v = dyn_cast<VarDecl>(d)) {
        if (v->hasGlobalStorage()) {
          o["g"] = true;
          o["qn"] = qn(d);
          o["repo"] = inRepo(v->getLocation());
          if (!v->isStaticLocal()) noteGlobal(v);
        }
      }
      return o;
    }
    if (const auto* x = dyn_cast<MemberExpr>(e)) {
      if (const auto* f = dyn_cast<CXXMethodDecl>(x->getMemberDecl())) {
        auto o = mk("Fn", e);
        o["f"] = callee(f);
        o["b"] = ex(x->getBase());
        return o;
      }
      auto o = mk("Member", e);
      o["b"] = ex(x->getBase());
      o["arrow"] = x->isArrow();
      o["n"] = x->getMemberDecl()->getNameAsString();
      if (const auto* fd = dyn_cast<FieldDecl>(x->getMemberDecl()))
        if (const auto* r = dyn_cast<CXXRecordDecl>(fd->getParent()))
          o["r"] = recordName(r);
      if (const auto* v = dyn_cast<VarDecl>(x->getMemberDecl())) {
        Expr::EvalResult r;
        if (!e->isValueDependent() && e->EvaluateAsInt(r, ctx))
          o["v"] = (int64_t)r.Val.getInt().getExtValue();
      }
      return o;
    }
    if (const auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      auto o = mk("OpCall", e);
      o["op"] = getOperatorSpelling(x->getOperator());
      if (const auto* f = x->getDirectCallee()) o["f"] = callee(f);
      o["a"] = exs(x->arguments());
      return o;
    }
    if (const auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      auto o = mk("MCall", e);
      if (const auto* f = x->getMethodDecl()) o["f"] = callee(f);
      if (const auto* m =
              dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) {
        o["o"] = ex(m->getBase());
        o["arrow"] = m->isArrow();
        if (m->hasQualifier()) o["qual"] = true;
      } else {
        o["o"] = ex(x->getImplicitObjectArgument());
      }
      o["a"] = exs(x->arguments());
      return o;
    }
    if (const auto* x = dyn_cast<CallExpr>(e)) {
      auto o = mk("Call", e);
      if (const auto* f = x->getDirectCallee())
        o["f"] = callee(f);
      else
        o["ce"] = ex(x->getCallee());
      o["a"] = exs(x->arguments());
      return o;
    }
    if (const auto* x = dyn_cast<CXXConstructExpr>(e)) {
      auto o = mk("Ctor", e);
      o["f"] = callee(x->getConstructor());
      o["cls"] = recordName(x->getConstructor()->getParent());
      if (isa<CXXTemporaryObjectExpr>(x)) o["tmp"] = true;
      json::Array a;
      for (const auto* y : x->arguments()) a.push_back(ex(y));
      o["a"] = std::move(a);
      return o;
    }
    if (const auto* x = dyn_cast<CastExpr>(e)) {
      auto o = mk("Cast", e);
      o["ck"] = x->getCastKindName();
      o["ft"] = typeId(x->getSubExpr()->getType());
      if (const auto* f = dyn_cast_or_null<FunctionDecl>(x->getConversionFunction()))
        o["conv"] = callee(f);
      o["e"] = ex(x->getSubExpr());
      return o;
    }
    if (const auto* x = dyn_cast<UnaryOperator>(e)) {
      auto o = mk("Un", e);
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["e"] = ex(x->getSubExpr());
      return o;
    }
    if (const auto* x = dyn_cast<BinaryOperator>(e)) {
      auto o = mk("Bin", e);
      o["op"] = x->getOpcodeStr().str();
      o["a"] = ex(x->getLHS());
      o["b"] = ex(x->getRHS());
      return o;
    }
    if (const auto* x = dyn_cast<ConditionalOperator>(e)) {
      auto o = mk("Cond", e);
      o["c"] = ex(x->getCond());
      o["a"] = ex(x->getTrueExpr());
      o["b"] = ex(x->getFalseExpr());
      return o;
    }
    if (const auto* x = dyn_cast<LambdaExpr>(e)) {
      auto o = mk("Lambda", e);
      o["f"] = callee(x->getCallOperator());
      if (!x->getCallOperator()->isDependentContext()) addFunction(x->getCallOperator());
      if (x->isGenericLambda()) {
        json::Array specs;
        if (const auto* ft = x->getCallOperator()->getDescribedFunctionTemplate())
          for (const FunctionDecl* sp : ft->specializations())
            if (sp->hasBody() && !sp->isDependentContext()) {
              specs.push_back(callee(sp));
              addFunction(sp);
            }
        o["specs"] = std::move(specs);
      }
      json::Array caps;
      auto init = x->capture_init_begin();
      for (const auto& c : x->captures()) {
        json::Object co;
        if (c.capturesThis())
          co["this"] = true;
        else if (c.capturesVariable()) {
          co["id"] = varId(c.getCapturedVar());
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
          co["init"] = ex(*init);
        }
        caps.push_back(std::move(co));
        ++init;
      }
      o["caps"] = std::move(caps);
      return o;
    }
    if (const auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
      auto o = mk("StdInit", e);
      o["e"] = ex(x->getSubExpr());
      return o;
    }
    if (const auto* x = dyn_cast<InitListExpr>(e)) {
      auto o = mk("InitList", e);
      const InitListExpr* s = x->isSemanticForm() ? x : x->getSemanticForm();
      if (!s) s = x;
      json::Array a;
      for (const auto* y : s->inits()) a.push_back(ex(y));
      o["a"] = std::move(a);
      if (const auto* r = e->getType()->getAsCXXRecordDecl())
        o["cls"] = recordName(r);
      return o;
    }
    if (const auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      auto o = mk("Index", e);
      o["b"] = ex(x->getBase());
      o["i"] = ex(x->getIdx());
      return o;
    }
    if (const auto* x = dyn_cast<CXXNewExpr>(e)) {
      auto o = mk("New", e);
      if (x->getInitializer()) o["e"] = ex(x->getInitializer());
      o["at"] = typeId(x->getAllocatedType());
      return o;
    }
    if (const auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      auto o = mk("Delete", e);
      o["e"] = ex(x->getArgument());
      return o;
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e))
      return mk("ValueInit", e);
    if (const auto* x = dyn_cast<CXXThrowExpr>(e)) {
      auto o = mk("Throw", e);
      if (x->getSubExpr()) o["e"] = ex(x->getSubExpr());
      return o;
    }
    if (const auto* x = dyn_cast<OpaqueValueExpr>(e))
      if (x->getSourceExpr()) return ex(x->getSourceExpr());
    {
      Expr::EvalResult r;
      if (!e->isValueDependent() && !e->isTypeDependent() &&
          e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, ctx)) {
        auto o = mk(e->getType()->isBooleanType() ? "Bool" : "Int", e);
        if (e->getType()->isBooleanType())
          o["v"] = r.Val.getInt().getBoolValue();
        else
          o["v"] = (int64_t)r.Val.getInt().getExtValue();
        return o;
      }
    }
    auto o = mk("OtherExpr", e);
    o["cls"] = e->getStmtClassName();
    if (const auto* ae = dyn_cast<AtomicExpr>(e)) o["op"] = atomicOp(ae);
    json::Array a;
    for (const auto* c : e->children())
      if (const auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(ex(ce));
    o["s"] = std::move(a);
    return o;
  }

  static const char* atomicOp(const AtomicExpr* e) {
    switch (e->getOp()) {
#define BUILTIN(ID, TYPE, ATTRS)
#define ATOMIC_BUILTIN(ID, TYPE, ATTRS) \
  case AtomicExpr::AO##ID:              \
    return #ID;
#include "clang/Basic/Builtins.def"
      default:
        return "?";
    }
  }

  std::set<const VarDecl*> notedGlobals;
  void noteGlobal(const VarDecl* v) {
    if (!inRepo(v->getLocation())) return;
    v = v->getCanonicalDecl();
    if (!notedGlobals.insert(v).second) return;
    json::Object o{{"qn", qn(v)},
                   {"t", typeId(v->getType())},
                   {"file", fileOf(v->getLocation())},
                   {"l", line(v->getLocation())},
                   {"const", v->getType().isConstQualified()}};
    if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    const VarDecl* def = nullptr;
    const Expr* init = v->getAnyInitializer(def);
    if (init) o["init"] = ex(init);
    globals[varId(v)] = std::move(o);
  }

  bool addFunction(const FunctionDecl* f) {
    const FunctionDecl* def = nullptr;
    if (!f->hasBody(def) || !def) {
      if (!f->isDefaulted()) return true;
      return true;
    }
    if (def->isDependentContext()) return true;
    if (!inRepo(def->getLocation())) return true;
    std::string key = callee(f);
    if (functions.get(key)) return true;
    functions[key] = nullptr;
    auto saved = varIds;
    json::Object o;
    o["qn"] = qn(def);
    o["file"] = fileOf(def->getLocation());
    o["l"] = line(def->getLocation());
    o["ret"] = typeId(def->getReturnType());
    json::Array ps;
    for (const auto* p : def->parameters())
      ps.push_back(json::Object{{"id", varId(p)},
                                {"n", p->getNameAsString()},
                                {"t", typeId(p->getType())}});
    o["p"] = std::move(ps);
    if (const auto* m = dyn_cast<CXXMethodDecl>(def)) {
      o["cls"] = recordName(m->getParent());
      json::Array ov;
      for (const auto* b : m->overridden_methods()) ov.push_back(callee(b));
      if (!ov.empty()) o["ov"] = std::move(ov);
    }
    if (const auto* c = dyn_cast<CXXConstructorDecl>(def)) {
      json::Array is;
      for (const auto* i : c->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer())
          io["m"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer())
          io["base"] = typeId(QualType(i->getBaseClass(), 0));
        else
          io["deleg"] = true;
        io["e"] = ex(i->getInit());
        io["w"] = i->isWritten();
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
      o["isctor"] = true;
    }
    if (isa<CXXDestructorDecl>(def)) o["isdtor"] = true;
    o["b"] = st(def->getBody());
    functions[key] = std::move(o);
    return true;
  }

  bool VisitFunctionDecl(FunctionDecl* f) {
    if (f->isThisDeclarationADefinition()) addFunction(f);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (v->isFileVarDecl() && v->isThisDeclarationADefinition() &&
        !v->getDeclContext()->isDependentContext())
      noteGlobal(v);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext()) return true;
    if (inRepo(r->getLocation())) recordName(r);
    // The clang class hierarchy (for dyn_cast reasoning).
    if (const auto* ns = dyn_cast<NamespaceDecl>(r->getDeclContext()))
      if (ns->getName() == "clang" && (r->getNumBases() > 0)) recordName(r);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    if (e->isThisDeclarationADefinition() && !e->isDependentContext() &&
        (inRepo(e->getLocation()) || qn(e).find("dredd::") == 0))
      enumName(e);
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& ctx) override {
    if (ctx.getDiagnostics().hasErrorOccurred()) return;
    Exporter e(ctx);
    e.TraverseDecl(ctx.getTranslationUnitDecl());
    for (const char* n : {"BinaryOperatorKind", "UnaryOperatorKind"})
      if (const auto* ed = findEnum(ctx, "clang", n)) e.enumName(ed);
    json::Object root;
    root["types"] = std::move(e.types);
    root["callees"] = std::move(e.callees);
    root["enums"] = std::move(e.enums);
    root["records"] = std::move(e.records);
    root["functions"] = std::move(e.functions);
    root["globals"] = std::move(e.globals);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << json::Value(std::move(root));
    ok = true;
  }
  static const EnumDecl* findEnum(ASTContext& ctx, const char* ns, const char* n) {
    for (auto* d : ctx.getTranslationUnitDecl()->lookup(&ctx.Idents.get(ns)))
      if (auto* nd = dyn_cast<NamespaceDecl>(d))
        for (auto* x : nd->lookup(&ctx.Idents.get(n)))
          if (auto* ed = dyn_cast<EnumDecl>(x)) return ed;
    return nullptr;
  }
  static bool ok;
};
bool Consumer::ok = false;

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,
                                                 StringRef) override {
    return std::make_unique<Consumer>();
  }
};
}  // namespace

// usage: export OUT.json ROOT[:ROOT...] SOURCE -- flags...
int main(int argc, const char** argv) {
  if (argc < 5) return 2;
  g_out = argv[1];
  std::string roots = argv[2];
  size_t p = 0;
  while (true) {
    size_t q = roots.find(':', p);
    g_roots.push_back(roots.substr(p, q == std::string::npos ? q : q - p));
    if (q == std::string::npos) break;
    p = q + 1;
  }
  std::string src = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
  return rc == 0 && Consumer::ok ? 0 : 1;
}
