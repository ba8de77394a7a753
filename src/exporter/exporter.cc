// Exports the type-resolved program (functions as typed trees, records, enums)
// of one translation unit as JSON.  No analysis happens here; src/bsa does that.
#include <map>
#include <set>
#include <string>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Sema/Sema.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string g_root;
static std::string g_out;

namespace {
class Exporter {
 public:
  Exporter(ASTContext &ctx)
      : ctx_(ctx), sm_(ctx.getSourceManager()), pp_(ctx.getPrintingPolicy()),
        mangle_(ctx) {
    pp_.SuppressTagKeyword = true;
    pp_.FullyQualifiedName = true;
    pp_.PrintCanonicalTypes = true;
    pp_.Bool = true;
  }

  json::Object Run() {
    Collect c(*this);
    c.TraverseDecl(ctx_.getTranslationUnitDecl());
    json::Object res;
    res["functions"] = std::move(functions_);
    res["records"] = std::move(records_);
    res["enums"] = std::move(enums_);
    res["globals"] = std::move(globals_);
    json::Array types;
    for (auto &t : types_) types.push_back(std::move(t));
    res["types"] = std::move(types);
    return res;
  }

 private:
  struct Collect : public RecursiveASTVisitor<Collect> {
    Exporter &e;
    explicit Collect(Exporter &e) : e(e) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *f) { e.Function(f); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *r) { e.MaybeRecord(r); return true; }
    bool VisitEnumDecl(EnumDecl *d) { e.Enum(d); return true; }
    bool VisitVarDecl(VarDecl *v) { e.Global(v); return true; }
    // Lambda bodies are reached through the closure type's call operator.
    bool TraverseLambdaExpr(LambdaExpr *l) {
      e.MaybeRecord(l->getLambdaClass());
      if (auto *op = l->getCallOperator()) {
        if (auto *ft = op->getDescribedFunctionTemplate()) {
          for (auto *s : ft->specializations()) e.Function(s), Rec(s->getBody());
        } else {
          e.Function(op);
          Rec(op->getBody());
        }
      }
      for (unsigned i = 0; i < l->capture_size(); ++i)
        if (l->capture_init_begin()[i]) TraverseStmt(l->capture_init_begin()[i]);
      return true;
    }
    void Rec(Stmt *s) { if (s) TraverseStmt(s); }
  };

  bool InRoot(SourceLocation loc) {
    loc = sm_.getExpansionLoc(loc);
    if (loc.isInvalid()) return false;
    StringRef f = sm_.getFilename(loc);
    return f.starts_with(g_root) && !f.ends_with("_test.cc");
  }
  std::string File(SourceLocation loc) {
    loc = sm_.getExpansionLoc(loc);
    std::string f = sm_.getFilename(loc).str();
    if (StringRef(f).starts_with(g_root)) f = f.substr(g_root.size());
    return f;
  }
  int Line(SourceLocation l) { return sm_.getExpansionLineNumber(l); }
  int Col(SourceLocation l) { return sm_.getExpansionColumnNumber(l); }

  std::string TypeStr(QualType t) {
    return t.getCanonicalType().getAsString(pp_);
  }

  // Lambdas have no useful name: identify by position and enclosing function.
  std::string LambdaId(const CXXRecordDecl *r) {
    std::string id = "lambda@" + File(r->getBeginLoc()) + ":" +
                     std::to_string(Line(r->getBeginLoc())) + ":" +
                     std::to_string(Col(r->getBeginLoc()));
    const DeclContext *dc = r->getDeclContext();
    while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
    if (dc) {
      auto *f = cast<FunctionDecl>(dc);
      if (f->isTemplateInstantiation() ||
          (isa<CXXMethodDecl>(f) &&
           isa<ClassTemplateSpecializationDecl>(f->getParent())))
        id += "#" + FuncId(f);
    }
    return id;
  }
  std::string RecId(const CXXRecordDecl *r) {
    if (r->isLambda()) return LambdaId(r);
    std::string s = ctx_.getRecordType(r).getCanonicalType().getAsString(pp_);
    return s;
  }
  std::string FuncId(const FunctionDecl *f) {
    f = f->getCanonicalDecl();
    auto it = fids_.find(f);
    if (it != fids_.end()) return it->second;
    std::string id;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->getParent()->isLambda()) {
        id = LambdaId(m->getParent()) + "::" + m->getNameAsString();
        if (m->getPrimaryTemplate()) {
          id += "<" + TypeStr(m->getType()) + ">";
        }
        return fids_[f] = id;
      }
    }
    if (!f->getType()->isDependentType() && !f->isDependentContext()) {
      if (isa<CXXConstructorDecl>(f) || isa<CXXDestructorDecl>(f)) {
        id = mangle_.getName(f);
      } else if (mangle_.getName(f).size()) {
        id = mangle_.getName(f);
      }
    }
    if (id.empty()) id = f->getQualifiedNameAsString();
    if (f->isMain() || f->getFormalLinkage() == Linkage::Internal ||
        f->isInAnonymousNamespace())
      id = File(f->getLocation()) + ":" + id;
    return fids_[f] = id;
  }

  static std::string QName(const NamedDecl *d) {
    return d->getQualifiedNameAsString();
  }

  int Type(QualType t) {
    if (t.isNull()) return -1;
    t = t.getCanonicalType();
    const std::string s = TypeStr(t);
    auto it = type_ids_.find(t.getAsOpaquePtr());
    if (it != type_ids_.end()) return it->second;
    const int id = types_.size();
    type_ids_[t.getAsOpaquePtr()] = id;
    types_.push_back(json::Object{});
    json::Object o;
    o["s"] = s;
    if (t.isConstQualified()) o["const"] = true;
    if (auto *p = t->getAs<PointerType>()) {
      o["k"] = "ptr";
      o["to"] = Type(p->getPointeeType());
    } else if (auto *r = t->getAs<ReferenceType>()) {
      o["k"] = t->isRValueReferenceType() ? "rref" : "ref";
      o["to"] = Type(r->getPointeeType());
    } else if (auto *a = ctx_.getAsArrayType(t)) {
      o["k"] = "arr";
      o["to"] = Type(a->getElementType());
      if (auto *ca = dyn_cast<ConstantArrayType>(a))
        o["n"] = (int64_t)ca->getSize().getZExtValue();
    } else if (auto *rd = t->getAsCXXRecordDecl()) {
      o["k"] = "rec";
      o["rec"] = RecId(rd);
      o["q"] = QName(rd);
      if (auto *def = rd->getDefinition()) {
        if (!def->isDependentContext()) {
          o["trivdtor"] = def->hasTrivialDestructor();
          o["trivcopy"] = def->hasTrivialCopyConstructor();
        }
        MaybeRecord(def);
        json::Array targs;
        if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(def)) {
          for (const auto &a : sp->getTemplateArgs().asArray()) {
            if (a.getKind() == TemplateArgument::Type)
              targs.push_back(Type(a.getAsType()));
            else if (a.getKind() == TemplateArgument::Integral)
              targs.push_back("#" + std::to_string(I64(a.getAsIntegral())));
          }
        }
        if (!targs.empty()) o["targs"] = std::move(targs);
      }
    } else if (auto *et = t->getAs<EnumType>()) {
      o["k"] = "enum";
      o["enum"] = QName(et->getDecl());
      o["bits"] = (int64_t)ctx_.getTypeSize(t);
    } else if (t->isBooleanType()) {
      o["k"] = "bool";
      o["bits"] = 8;
    } else if (t->isNullPtrType()) {
      o["k"] = "nullptr";
    } else if (t->isIntegerType()) {
      o["k"] = "int";
      o["bits"] = (int64_t)ctx_.getTypeSize(t);
      o["signed"] = t->isSignedIntegerType();
    } else if (t->isFloatingType()) {
      o["k"] = "float";
    } else if (t->isVoidType()) {
      o["k"] = "void";
    } else if (t->isFunctionType()) {
      o["k"] = "func";
    } else {
      o["k"] = "other";
    }
    if (!t->isDependentType() && !t->isIncompleteType() &&
        !t->isFunctionType() && !t->isReferenceType() && !t->isUndeducedType() &&
        !t->isPlaceholderType() && t->isObjectType()) {
      o["size"] = (int64_t)ctx_.getTypeSizeInChars(t).getQuantity();
      o["align"] = (int64_t)ctx_.getTypeAlignInChars(t).getQuantity();
      o["tdtor"] = t.isDestructedType() == QualType::DK_none;
    }
    types_[id] = std::move(o);
    return id;
  }

  void MaybeRecord(const CXXRecordDecl *r) {
    r = r->getDefinition();
    if (!r || r->isDependentContext() || !done_records_.insert(r).second) return;
    SourceLocation rloc = r->getLocation();
    if (const CXXRecordDecl *pat = r->getTemplateInstantiationPattern())
      rloc = pat->getLocation();
    if (!InRoot(rloc)) return;
    json::Object o;
    o["id"] = RecId(r);
    o["name"] = r->getNameAsString();
    o["q"] = QName(r);
    o["file"] = File(rloc);
    o["line"] = Line(rloc);
    o["trivdtor"] = r->hasTrivialDestructor();
    o["lambda"] = r->isLambda();
    o["type"] = Type(ctx_.getRecordType(r));
    json::Array bases;
    for (const auto &b : r->bases()) bases.push_back(Type(b.getType()));
    o["bases"] = std::move(bases);
    o["abstract"] = r->isAbstract();
    json::Array fields;
    for (const FieldDecl *f : r->fields()) {
      json::Object fo;
      fo["id"] = FieldId(f);
      fo["name"] = f->getNameAsString();
      fo["type"] = Type(f->getType());
      fo["mutable"] = f->isMutable();
      fo["access"] = (int)f->getAccess();
      fo["line"] = Line(f->getLocation());
      if (!r->isInvalidDecl() && !f->isBitField())
        fo["off"] = (int64_t)(ctx_.getFieldOffset(f) / 8);
      if (f->getInClassInitializer())
        fo["init"] = Expr_(f->getInClassInitializer());
      fields.push_back(std::move(fo));
    }
    o["fields"] = std::move(fields);
    json::Array methods;
    for (const CXXMethodDecl *m : r->methods()) {
      json::Object mo;
      mo["id"] = FuncId(m);
      mo["name"] = m->getNameAsString();
      mo["deleted"] = m->isDeleted();
      mo["defaulted"] = m->isDefaulted();
      mo["implicit"] = m->isImplicit();
      mo["virtual"] = m->isVirtual();
      mo["pure"] = m->isPureVirtual();
      mo["access"] = (int)m->getAccess();
      mo["type"] = TypeStr(m->getType());
      if (auto *c = dyn_cast<CXXConstructorDecl>(m)) {
        if (c->isCopyConstructor()) mo["special"] = "copyctor";
        else if (c->isMoveConstructor()) mo["special"] = "movector";
        else mo["special"] = "ctor";
      } else if (m->isCopyAssignmentOperator()) mo["special"] = "copyassign";
      else if (m->isMoveAssignmentOperator()) mo["special"] = "moveassign";
      else if (isa<CXXDestructorDecl>(m)) mo["special"] = "dtor";
      mo["provided"] = m->isUserProvided();
      methods.push_back(std::move(mo));
    }
    o["methods"] = std::move(methods);
    if (r->isLambda()) {
      json::Array caps;
      llvm::DenseMap<const ValueDecl *, FieldDecl *> m;
      FieldDecl *this_f = nullptr;
      r->getCaptureFields(m, this_f);
      for (auto &kv : m) {
        json::Object c;
        c["var"] = VarId(kv.first);
        c["name"] = kv.first->getNameAsString();
        c["ref"] = kv.second->getType()->isReferenceType();
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      o["capthis"] = this_f != nullptr;
    }
    records_.push_back(std::move(o));
  }

  void Enum(const EnumDecl *d) {
    d = d->getDefinition();
    if (!d || !InRoot(d->getLocation()) || !done_enums_.insert(d).second) return;
    json::Object o;
    o["id"] = QName(d);
    o["file"] = File(d->getLocation());
    o["line"] = Line(d->getLocation());
    json::Array v;
    for (const auto *c : d->enumerators())
      v.push_back(json::Object{{"n", c->getNameAsString()},
                               {"v", I64(c->getInitVal())}});
    o["vals"] = std::move(v);
    enums_.push_back(std::move(o));
  }

  void Global(const VarDecl *v) {
    if (!v->hasGlobalStorage() || v->isStaticLocal()) return;
    if (!v->isThisDeclarationADefinition()) return;
    if (!InRoot(v->getLocation()) && !ctx_.getSourceManager().isInMainFile(v->getLocation())) return;
    if (v->getType()->isDependentType() || v->isTemplated()) return;
    if (!done_globals_.insert(v).second) return;
    json::Object o;
    o["id"] = VarId(v);
    o["name"] = v->getNameAsString();
    o["type"] = Type(v->getType());
    o["file"] = File(v->getLocation());
    o["line"] = Line(v->getLocation());
    if (v->getInit()) o["init"] = Expr_(v->getInit());
    if (v->getInit() && v->isConstexpr() && v->getType()->isIntegralOrEnumerationType()) {
      Expr::EvalResult r;
      if (v->getInit()->EvaluateAsInt(r, ctx_)) o["val"] = I64(r.Val.getInt());
    }
    globals_.push_back(std::move(o));
  }

  std::string FieldId(const FieldDecl *f) {
    auto *r = dyn_cast<CXXRecordDecl>(f->getParent());
    return (r ? RecId(r) : std::string("?")) + "::" + f->getNameAsString();
  }
  std::string VarId(const ValueDecl *v) {
    v = cast<ValueDecl>(v->getCanonicalDecl());
    auto it = vids_.find(v);
    if (it != vids_.end()) return it->second;
    std::string id;
    auto *vd = dyn_cast<VarDecl>(v);
    if (vd && vd->hasGlobalStorage() && !vd->isStaticLocal()) {
      id = "g:" + QName(v);
      if (vd->getFormalLinkage() == Linkage::Internal) id += "@" + File(v->getLocation());
    } else {
      id = "v:" + std::to_string(Line(v->getLocation())) + ":" +
           std::to_string(Col(v->getLocation())) + ":" + v->getNameAsString();
      if (!v->getLocation().isValid()) id += std::to_string(vids_.size());
      if (auto *pv = dyn_cast<ParmVarDecl>(v)) {  // parameters expanded from one pack
        if (auto *pf = dyn_cast_or_null<FunctionDecl>(pv->getDeclContext())) {
          bool again = false;
          for (auto *o : pf->parameters()) again |= o != pv && o->getLocation() == pv->getLocation();
          if (again) id += "#" + std::to_string(pv->getFunctionScopeIndex());
        }
      }
    }
    return vids_[v] = id;
  }

  void Function(const FunctionDecl *f) {
    if (!f->doesThisDeclarationHaveABody()) return;
    if (f->isDependentContext()) return;
    if (!InRoot(f->getLocation())) return;
    if (!f->getBody()) return;
    if (!done_functions_.insert(f->getCanonicalDecl()).second) return;
    json::Object o;
    o["id"] = FuncId(f);
    o["name"] = f->getNameAsString();
    o["q"] = QName(f);
    o["file"] = File(f->getLocation());
    o["line"] = Line(f->getLocation());
    o["end"] = Line(f->getEndLoc());
    o["ret"] = Type(f->getReturnType());
    o["implicit"] = f->isImplicit() || f->isDefaulted();
    if (f->isNoReturn()) o["noreturn"] = true;
    json::Array ps;
    for (const ParmVarDecl *p : f->parameters()) {
      ps.push_back(json::Object{{"id", VarId(p)},
                                {"n", p->getNameAsString()},
                                {"t", Type(p->getType())}});
    }
    o["params"] = std::move(ps);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["rec"] = RecId(m->getParent());
      o["recq"] = QName(m->getParent());
      o["const"] = m->isConst();
      o["static"] = m->isStatic();
      o["virtual"] = m->isVirtual();
      o["access"] = (int)m->getAccess();
      if (m->getParent()->isLambda()) o["lambda"] = true;
      json::Array ov;
      for (const CXXMethodDecl *b : m->overridden_methods())
        ov.push_back(FuncId(b));
      if (!ov.empty()) o["overrides"] = std::move(ov);
      if (auto *c = dyn_cast<CXXConstructorDecl>(m)) {
        o["ctor"] = true;
        json::Array inits;
        for (const CXXCtorInitializer *i : c->inits()) {
          json::Object io;
          if (i->isMemberInitializer()) io["field"] = FieldId(i->getMember());
          else if (i->isBaseInitializer())
            io["base"] = TypeStr(QualType(i->getBaseClass(), 0));
          else io["delegating"] = true;
          io["e"] = Expr_(i->getInit());
          inits.push_back(std::move(io));
        }
        o["inits"] = std::move(inits);
      }
      if (isa<CXXDestructorDecl>(m)) o["dtor"] = true;
    }
    o["body"] = Stmt_(f->getBody());
    functions_.push_back(std::move(o));
  }

  json::Object VarDecl_(const VarDecl *v) {
    json::Object o;
    o["id"] = VarId(v);
    o["n"] = v->getNameAsString();
    o["t"] = Type(v->getType());
    o["l"] = Line(v->getLocation());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->isConstexpr()) o["constexpr"] = true;
    if (auto *rd = v->getType()->getAsCXXRecordDecl())
      if (rd->getDefinition() && !rd->hasTrivialDestructor()) o["dtor"] = true;
    if (v->getInit()) o["init"] = Expr_(v->getInit());
    if (auto *d = dyn_cast<DecompositionDecl>(v)) {
      json::Array b;
      for (const BindingDecl *bd : d->bindings()) b.push_back(bd->getNameAsString());
      o["bindings"] = std::move(b);
    }
    return o;
  }

  json::Value Stmt_(const Stmt *s) {
    if (!s) return nullptr;
    json::Object o;
    o["l"] = Line(s->getBeginLoc());
    if (auto *a = dyn_cast<AttributedStmt>(s)) return Stmt_(a->getSubStmt());
    if (auto *a = dyn_cast<LabelStmt>(s)) return Stmt_(a->getSubStmt());
    if (auto *c = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block";
      json::Array b;
      for (const Stmt *x : c->body()) b.push_back(Stmt_(x));
      o["b"] = std::move(b);
      o["e"] = Line(c->getEndLoc());
    } else if (auto *d = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      json::Array vs;
      for (const Decl *x : d->decls())
        if (auto *v = dyn_cast<VarDecl>(x)) vs.push_back(VarDecl_(v));
      o["vars"] = std::move(vs);
    } else if (auto *i = dyn_cast<IfStmt>(s)) {
      if (i->isConstexpr()) {
        if (auto *init = i->getInit()) (void)init;
        if (auto nd = i->getNondiscardedCase(ctx_))
          return *nd ? Stmt_(*nd) : json::Value(json::Object{{"k", "null"}});
      }
      o["k"] = "if";
      if (i->getInit()) o["init"] = Stmt_(i->getInit());
      if (i->getConditionVariable()) o["cv"] = VarDecl_(i->getConditionVariable());
      o["c"] = Expr_(i->getCond());
      o["t"] = Stmt_(i->getThen());
      if (i->getElse()) o["f"] = Stmt_(i->getElse());
    } else if (auto *w = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      if (w->getConditionVariable()) o["cv"] = VarDecl_(w->getConditionVariable());
      o["c"] = Expr_(w->getCond());
      o["b"] = Stmt_(w->getBody());
    } else if (auto *w = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = Expr_(w->getCond());
      o["b"] = Stmt_(w->getBody());
    } else if (auto *w = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      if (w->getInit()) o["init"] = Stmt_(w->getInit());
      if (w->getConditionVariable()) o["cv"] = VarDecl_(w->getConditionVariable());
      if (w->getCond()) o["c"] = Expr_(w->getCond());
      if (w->getInc()) o["inc"] = Expr_(w->getInc());
      o["b"] = Stmt_(w->getBody());
    } else if (auto *w = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "foreach";
      if (w->getInit()) o["init"] = Stmt_(w->getInit());
      o["range"] = VarDecl_(cast<VarDecl>(w->getRangeStmt()->getSingleDecl()));
      if (w->getBeginStmt())
        o["begin"] = VarDecl_(cast<VarDecl>(w->getBeginStmt()->getSingleDecl()));
      if (w->getEndStmt())
        o["end"] = VarDecl_(cast<VarDecl>(w->getEndStmt()->getSingleDecl()));
      o["cond"] = Expr_(w->getCond());
      o["inc"] = Expr_(w->getInc());
      o["var"] = VarDecl_(w->getLoopVariable());
      o["b"] = Stmt_(w->getBody());
    } else if (auto *w = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      if (w->getInit()) o["init"] = Stmt_(w->getInit());
      if (w->getConditionVariable()) o["cv"] = VarDecl_(w->getConditionVariable());
      o["c"] = Expr_(w->getCond());
      o["b"] = Stmt_(w->getBody());
    } else if (auto *c = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      o["v"] = Expr_(c->getLHS());
      if (c->getRHS()) o["hi"] = Expr_(c->getRHS());
      o["s"] = Stmt_(c->getSubStmt());
    } else if (auto *c = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "default";
      o["s"] = Stmt_(c->getSubStmt());
    } else if (isa<BreakStmt>(s)) {
      o["k"] = "break";
    } else if (isa<ContinueStmt>(s)) {
      o["k"] = "continue";
    } else if (auto *r = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "ret";
      if (r->getRetValue()) o["e"] = Expr_(r->getRetValue());
    } else if (isa<NullStmt>(s)) {
      o["k"] = "null";
    } else if (auto *t = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["b"] = Stmt_(t->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < t->getNumHandlers(); ++i)
        hs.push_back(Stmt_(t->getHandler(i)->getHandlerBlock()));
      o["h"] = std::move(hs);
    } else if (auto *e = dyn_cast<Expr>(s)) {
      o["k"] = "expr";
      o["e"] = Expr_(e);
    } else {
      o["k"] = "unsupported";
      o["cls"] = s->getStmtClassName();
    }
    return o;
  }

  static int64_t I64(const llvm::APSInt &v) {
    return v.isRepresentableByInt64() ? v.getExtValue()
                                      : (int64_t)v.getLimitedValue();
  }
  json::Value Exprs(llvm::ArrayRef<const Expr *> es) {
    json::Array a;
    for (auto *e : es) a.push_back(Expr_(e));
    return a;
  }

  static const Expr *Strip(const Expr *e) {
    for (;;) {
      if (auto *x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = x->getSemanticForm();
      else if (auto *x = dyn_cast<GenericSelectionExpr>(e)) e = x->getResultExpr();
      else if (auto *x = dyn_cast<ChooseExpr>(e)) e = x->getChosenSubExpr();
      else return e;
    }
  }

  bool IsTemp(const Expr *e) {
    for (;;) {
      if (auto *x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else return isa<MaterializeTemporaryExpr>(e);
    }
  }

  void CalleeInfo(json::Object &o, const FunctionDecl *f) {
    o["f"] = FuncId(f);
    o["n"] = QName(f);
    if (!InRoot(f->getLocation())) o["ext"] = true;
    if (f->isNoReturn()) o["nr"] = true;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isConst()) o["cm"] = true;
      if (m->isStatic()) o["st"] = true;
      else if (m->isVirtual()) o["virt"] = true;
      o["rq"] = QName(m->getParent());
      if (m->getParent()->isLambda()) o["lam"] = true;
    }
    json::Array pt;
    for (auto *p : f->parameters()) pt.push_back(Type(p->getType()));
    o["pt"] = std::move(pt);
  }

  json::Value Expr_(const Expr *e0) {
    if (!e0) return nullptr;
    const bool temp = IsTemp(e0);
    const Expr *e = Strip(e0);
    json::Object o;
    o["l"] = Line(e->getExprLoc());
    o["t"] = Type(e->getType());
    if (e->isGLValue()) o["lv"] = 1;
    if (temp) o["tmp"] = 1;
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "int"; o["v"] = (int64_t)x->getValue().getLimitedValue();
    } else if (auto *x = dyn_cast<CharacterLiteral>(e)) {
      o["k"] = "int"; o["v"] = (int64_t)x->getValue(); o["chr"] = 1;
    } else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "bool"; o["v"] = x->getValue();
    } else if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "float"; o["v"] = x->getValueAsApproximateDouble();
    } else if (auto *x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "str";
      o["v"] = json::fixUTF8(x->getCharByteWidth() == 1 ? x->getString() : "?");
      o["len"] = (int64_t)x->getLength();
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "nullp";
    } else if (isa<CXXThisExpr>(e)) {
      o["k"] = "this";
    } else if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *d = x->getDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
        o["k"] = "int"; o["v"] = I64(ec->getInitVal());
        o["en"] = QName(ec);
      } else if (auto *f = dyn_cast<FunctionDecl>(d)) {
        o["k"] = "fn"; CalleeInfo(o, f);
      } else if (auto *b = dyn_cast<BindingDecl>(d)) {
        // reference to an element of the decomposed variable
        auto *dd = cast<VarDecl>(b->getDecomposedDecl());
        int idx = 0, i = 0;
        for (auto *bb : cast<DecompositionDecl>(dd)->bindings()) {
          if (bb == b) idx = i;
          ++i;
        }
        json::Object base;
        base["k"] = "var"; base["id"] = VarId(dd); base["t"] = Type(dd->getType().getNonReferenceType());
        base["l"] = Line(e->getExprLoc()); base["lv"] = 1; base["n"] = b->getNameAsString();
        if (dd->getType()->isReferenceType()) base["isref"] = 1;
        o["k"] = "mem"; o["b"] = std::move(base); o["n"] = b->getNameAsString();
        std::string fid;
        QualType rt = dd->getType().getNonReferenceType().getCanonicalType();
        if (auto *rd = rt->getAsCXXRecordDecl()) {
          std::string q = QName(rd);
          if (q == "std::pair") fid = idx == 0 ? RecId(rd) + "::first" : RecId(rd) + "::second";
          else if (auto *me = dyn_cast_or_null<MemberExpr>(b->getBinding() ? b->getBinding()->IgnoreImplicit() : nullptr)) {
            if (auto *fd = dyn_cast<FieldDecl>(me->getMemberDecl())) fid = FieldId(fd);
          }
        }
        if (fid.empty()) fid = "bind#" + std::to_string(idx);
        o["f"] = fid; o["bind"] = 1;
      } else {
        o["k"] = "var"; o["id"] = VarId(d); o["n"] = d->getNameAsString();
        if (d->getType()->isReferenceType()) o["isref"] = 1;
        if (auto *v = dyn_cast<VarDecl>(d)) {
          if (v->hasGlobalStorage() && !v->isStaticLocal()) o["glob"] = QName(v);
          if (x->refersToEnclosingVariableOrCapture()) o["cap"] = 1;
          if (v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType() && v->getInit() && !v->getInit()->isValueDependent()) {
            Expr::EvalResult r;
            if (v->getInit()->EvaluateAsInt(r, ctx_)) o["cv"] = I64(r.Val.getInt());
          }
        }
      }
    } else if (auto *x = dyn_cast<MemberExpr>(e)) {
      if (auto *fd = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        o["k"] = "mem"; o["b"] = Expr_(x->getBase()); o["f"] = FieldId(fd);
        o["n"] = fd->getNameAsString();
        if (x->isArrow()) o["arrow"] = 1;
        if (fd->getType()->isReferenceType()) o["isref"] = 1;
      } else if (auto *f = dyn_cast<FunctionDecl>(x->getMemberDecl())) {
        o["k"] = "fn"; o["b"] = Expr_(x->getBase());
        if (x->isArrow()) o["arrow"] = 1;
        CalleeInfo(o, f);
      } else if (auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) {
        o["k"] = "var"; o["id"] = VarId(v); o["n"] = v->getNameAsString(); o["glob"] = QName(v);
      } else if (auto *ec = dyn_cast<EnumConstantDecl>(x->getMemberDecl())) {
        o["k"] = "int"; o["v"] = I64(ec->getInitVal()); o["en"] = QName(ec);
      } else { o["k"] = "other"; o["cls"] = "MemberExpr"; }
    } else if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "call";
      o["op"] = getOperatorSpelling(x->getOperator());
      const FunctionDecl *f = x->getDirectCallee();
      if (f) CalleeInfo(o, f);
      json::Array args;
      unsigned i = 0;
      if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) { o["obj"] = Expr_(x->getArg(0)); i = 1; }
      for (; i < x->getNumArgs(); ++i) args.push_back(Expr_(x->getArg(i)));
      o["a"] = std::move(args);
    } else if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "call";
      if (const FunctionDecl *f = x->getDirectCallee()) CalleeInfo(o, f);
      if (auto *obj = x->getImplicitObjectArgument()) {
        o["obj"] = Expr_(obj);
        if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
          if (me->isArrow()) o["arrow"] = 1;
          if (me->hasQualifier()) o.erase("virt");
        }
      }
      json::Array args;
      for (unsigned i = 0; i < x->getNumArgs(); ++i) args.push_back(Expr_(x->getArg(i)));
      o["a"] = std::move(args);
    } else if (auto *x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call";
      if (const FunctionDecl *f = x->getDirectCallee()) CalleeInfo(o, f);
      else o["callee"] = Expr_(x->getCallee());
      json::Array args;
      for (unsigned i = 0; i < x->getNumArgs(); ++i) args.push_back(Expr_(x->getArg(i)));
      o["a"] = std::move(args);
    } else if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      o["k"] = "ctor"; o["rec"] = RecId(x->getConstructor()->getParent()); o["inh"] = 1;
      CalleeInfo(o, x->getConstructor());
      o["a"] = json::Array{};
    } else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "ctor";
      o["rec"] = RecId(x->getConstructor()->getParent());
      CalleeInfo(o, x->getConstructor());
      if (x->isElidable()) o["elid"] = 1;
      if (x->getConstructor()->isCopyOrMoveConstructor()) o["cm_ctor"] = x->getConstructor()->isCopyConstructor() ? "copy" : "move";
      if (x->getConstructor()->isDefaultConstructor()) o["dflt"] = 1;
      if (x->requiresZeroInitialization()) o["zero"] = 1;
      json::Array args;
      for (unsigned i = 0; i < x->getNumArgs(); ++i) args.push_back(Expr_(x->getArg(i)));
      o["a"] = std::move(args);
    } else if (auto *x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda"; o["rec"] = RecId(x->getLambdaClass());
      MaybeRecord(x->getLambdaClass());
      auto *op = x->getCallOperator();
      o["f"] = FuncId(op);
      json::Array caps;
      auto ii = x->capture_init_begin();
      for (const auto &c : x->captures()) {
        json::Object co;
        if (c.capturesVariable()) {
          co["var"] = VarId(cast<ValueDecl>(c.getCapturedVar()));
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
          if (*ii) co["init"] = Expr_(*ii);
        } else co["this"] = true;
        caps.push_back(std::move(co));
        ++ii;
      }
      o["caps"] = std::move(caps);
    } else if (auto *x = dyn_cast<CastExpr>(e)) {
      const CastKind ck = x->getCastKind();
      switch (ck) {
        case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ConstructorConversion:
        case CK_UserDefinedConversion: case CK_ToVoid: case CK_BuiltinFnToFnPtr:
        {
          json::Value v = Expr_(x->getSubExpr());
          if (auto *vo = v.getAsObject()) {
            if (isa<ExplicitCastExpr>(x)) (*vo)["xc"] = 1;
            if (temp) (*vo)["tmp"] = 1;
            if (ck == CK_NoOp) { (*vo)["t"] = Type(e->getType()); if (e->isXValue()) (*vo)["xv"] = 1; }
          }
          return v;
        }
        case CK_LValueToRValue:
          o["k"] = "ld"; o["e"] = Expr_(x->getSubExpr()); break;
        default:
          o["k"] = "cast"; o["ck"] = x->getCastKindName();
          o["e"] = Expr_(x->getSubExpr());
          if (isa<ExplicitCastExpr>(x)) o["xc"] = 1;
      }
    } else if (auto *x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = x->isAssignmentOp() ? "asg" : "bin";
      o["op"] = x->getOpcodeStr().str();
      o["a"] = Expr_(x->getLHS()); o["b"] = Expr_(x->getRHS());
    } else if (auto *x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = 1;
      o["e"] = Expr_(x->getSubExpr());
    } else if (auto *x = dyn_cast<BinaryConditionalOperator>(e)) {
      o["k"] = "elvis"; o["c"] = Expr_(x->getCommon()); o["f"] = Expr_(x->getFalseExpr());
    } else if (auto *x = dyn_cast<OpaqueValueExpr>(e)) {
      if (x->getSourceExpr()) return Expr_(x->getSourceExpr());
      o["k"] = "other"; o["cls"] = "Opaque";
    } else if (auto *x = dyn_cast<AbstractConditionalOperator>(e)) {
      o["k"] = "cond"; o["c"] = Expr_(x->getCond());
      o["a"] = Expr_(x->getTrueExpr()); o["b"] = Expr_(x->getFalseExpr());
    } else if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "idx"; o["b"] = Expr_(x->getBase()); o["i"] = Expr_(x->getIdx());
    } else if (auto *x = dyn_cast<InitListExpr>(e)) {
      o["k"] = "init";
      json::Array es;
      const InitListExpr *il = x->isSemanticForm() ? x : x->getSemanticForm();
      if (!il) il = x;
      for (const Expr *i : il->inits()) es.push_back(Expr_(i));
      o["es"] = std::move(es);
      if (auto *rd = e->getType()->getAsCXXRecordDecl()) {
        json::Array fs;
        if (rd->getDefinition())
          for (auto *f : rd->getDefinition()->fields()) fs.push_back(FieldId(f));
        o["fs"] = std::move(fs);
        if (rd->getNumBases()) o["nbases"] = (int64_t)rd->getNumBases();
      }
    } else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      o["k"] = "zero";
    } else if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new"; o["at"] = Type(x->getAllocatedType());
      { json::Array pl;
        for (unsigned i = 0; i < x->getNumPlacementArgs(); ++i) pl.push_back(Expr_(x->getPlacementArg(i)));
        o["pl"] = std::move(pl); }
      if (x->isArray()) { o["arr"] = 1; if (x->getArraySize()) o["n"] = Expr_(*x->getArraySize()); }
      if (x->getInitializer()) o["init"] = Expr_(x->getInitializer());
      if (x->getOperatorNew()) { o["opn"] = QName(x->getOperatorNew()); }
    } else if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "delete"; o["e"] = Expr_(x->getArgument());
    } else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Expr::EvalResult r;
      if (!e->isValueDependent() && e->EvaluateAsInt(r, ctx_)) {
        o["k"] = "int"; o["v"] = I64(r.Val.getInt()); 
        if (x->getKind() == UETT_SizeOf) o["szof"] = Type(x->getTypeOfArgument());
        if (x->getKind() == UETT_AlignOf || x->getKind() == UETT_PreferredAlignOf) o["alof"] = Type(x->getTypeOfArgument());
      } else { o["k"] = "other"; o["cls"] = "sizeof"; }
    } else if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "throw"; if (x->getSubExpr()) o["e"] = Expr_(x->getSubExpr());
    } else if (auto *x = dyn_cast<CXXPseudoDestructorExpr>(e)) {
      o["k"] = "other"; o["cls"] = "pseudo"; 
      json::Array es; es.push_back(Expr_(x->getBase())); o["es"] = std::move(es);
    } else if (auto *x = dyn_cast<TypeTraitExpr>(e)) {
      o["k"] = "bool"; o["v"] = x->getValue();
    } else if (auto *x = dyn_cast<PredefinedExpr>(e)) {
      o["k"] = "str"; o["v"] = x->getFunctionName() ? x->getFunctionName()->getString().str() : "";
    } else {
      Expr::EvalResult r;
      if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, ctx_)) {
        o["k"] = "int"; o["v"] = I64(r.Val.getInt());
      } else {
        o["k"] = "other"; o["cls"] = e->getStmtClassName();
        json::Array es;
        for (const Stmt *c : e->children())
          if (auto *ce = dyn_cast_or_null<Expr>(c)) es.push_back(Expr_(ce));
        o["es"] = std::move(es);
      }
    }
    return o;
  }

  ASTContext &ctx_;
  SourceManager &sm_;
  PrintingPolicy pp_;
  ASTNameGenerator mangle_;
  json::Array functions_, records_, enums_, globals_;
  std::vector<json::Value> types_;
  std::map<void *, int> type_ids_;
  std::map<const FunctionDecl *, std::string> fids_;
  std::map<const ValueDecl *, std::string> vids_;
  std::set<const CXXRecordDecl *> done_records_;
  std::set<const EnumDecl *> done_enums_;
  std::set<const VarDecl *> done_globals_;
  std::set<const FunctionDecl *> done_functions_;
};

// Implicit special members are declared lazily: declare all, so that it is
// known for every record which of them exist and which are deleted.
struct Force : public RecursiveASTVisitor<Force> {
  Sema &sema;
  std::vector<CXXRecordDecl *> rs;
  explicit Force(Sema &s) : sema(s) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (r->isThisDeclarationADefinition() && !r->isDependentType() && !r->isInvalidDecl() && !r->isLambda()) {
      SourceManager &sm = sema.getSourceManager();
      if (sm.getFilename(sm.getExpansionLoc(r->getLocation())).starts_with(g_root)) rs.push_back(r);
    }
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  explicit Consumer(CompilerInstance &ci) : ci_(ci) {}
  CompilerInstance &ci_;
  void HandleTranslationUnit(ASTContext &ctx) override {
    if (ctx.getDiagnostics().hasErrorOccurred()) return;
    Force f(ci_.getSema());
    f.TraverseDecl(ctx.getTranslationUnitDecl());
    for (CXXRecordDecl *r : f.rs) ci_.getSema().ForceDeclarationOfImplicitMembers(r);
    Exporter e(ctx);
    json::Object o = e.Run();
    std::error_code ec;
    llvm::raw_fd_ostream out(g_out, ec);
    out << json::Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, StringRef) override {
    return std::make_unique<Consumer>(ci);
  }
};
}  // namespace

// usage: exporter ROOT OUT.json FILE -- flags...
int main(int argc, const char **argv) {
  if (argc < 5) return 2;
  g_root = argv[1];
  if (g_root.back() != '/') g_root += '/';
  g_out = argv[2];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(g_root, flags);
  tooling::ClangTool tool(db, {argv[3]});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
