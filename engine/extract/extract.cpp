// AST extractor: dumps, as JSON, every function body (incl. template instantiations), record layout and global
// variable whose source lies under a given root directory.  It performs no abstraction: what is written out is the
// clang AST that the compiler would generate code from.  What it drops: source ranges below statement granularity,
// parentheses, temporaries' lifetime markers, uninstantiated templates, type sugar.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace js = llvm::json;

static std::vector<std::string> g_roots;
static std::string g_out;

struct Dumper
{
  ASTContext& ctx;
  PrintingPolicy pp;
  std::map<std::string, int> types;
  std::vector<std::string> type_names;
  std::map<const Decl*, int> ids;
  js::Array functions;
  js::Object records;
  js::Array globals;
  std::set<const Decl*> done;
  std::vector<const CXXRecordDecl*> pending_records;
  std::vector<const VarDecl*> pending_globals;

  Dumper(ASTContext& c) : ctx(c), pp(c.getPrintingPolicy())
  {
    pp.SuppressTagKeyword = true;
    pp.FullyQualifiedName = true;
    pp.PrintCanonicalTypes = true;
    pp.Bool = true;
    pp.SuppressUnwrittenScope = false;
    pp.TerseOutput = true;
    pp.AnonymousTagLocations = true;
  }

  int id(const Decl* d)
  {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end())
      return it->second;
    int n = ids.size() + 1;
    ids[d] = n;
    return n;
  }

  int type(QualType t)
  {
    std::string s = t.isNull() ? "?" : t.getCanonicalType().getAsString(pp);
    auto it = types.find(s);
    if (it != types.end())
      return it->second;
    int n = type_names.size();
    types[s] = n;
    type_names.push_back(s);
    // make sure that the record layouts of repo types are emitted
    if (!t.isNull())
    {
      QualType q = t.getCanonicalType();
      while (true)
      {
        if (auto* p = q->getAs<PointerType>())
          q = p->getPointeeType();
        else if (auto* r = q->getAs<ReferenceType>())
          q = r->getPointeeType();
        else
          break;
      }
      if (auto* rd = q->getAsCXXRecordDecl())
        if (rd->hasDefinition())
          pending_records.push_back(rd->getDefinition());
    }
    return n;
  }

  bool inRoot(SourceLocation l)
  {
    if (l.isInvalid())
      return false;
    auto& sm = ctx.getSourceManager();
    llvm::StringRef f = sm.getFilename(sm.getExpansionLoc(l));
    for (auto& r : g_roots)
      if (f.starts_with(r))
        return true;
    return false;
  }

  std::string loc(SourceLocation l)
  {
    auto& sm = ctx.getSourceManager();
    SourceLocation e = sm.getExpansionLoc(l);
    return sm.getFilename(e).str() + ":" + std::to_string(sm.getExpansionLineNumber(e));
  }

  std::string qname(const NamedDecl* d)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pp);
    return os.str();
  }

  js::Value tmplArgs(const FunctionDecl* fd)
  {
    js::Array a;
    if (auto* args = fd->getTemplateSpecializationArgs())
      for (auto& t : args->asArray())
      {
        std::string s;
        llvm::raw_string_ostream os(s);
        t.print(pp, os, true);
        a.push_back(os.str());
      }
    return a;
  }

  js::Object funcRef(const FunctionDecl* fd)
  {
    js::Object o;
    o["id"] = id(fd);
    o["q"] = qname(fd);
    o["n"] = fd->getNameAsString();
    js::Array ps;
    for (auto* p : fd->parameters())
      ps.push_back(type(p->getType()));
    o["pt"] = std::move(ps);
    o["rt"] = type(fd->getReturnType());
    if (fd->getTemplateSpecializationArgs())
      o["ta"] = tmplArgs(fd);
    const FunctionDecl* def = nullptr;
    bool in_repo = inRoot(fd->getLocation());
    if (fd->hasBody(def) && def && inRoot(def->getLocation()))
      in_repo = true;
    o["repo"] = in_repo;
    if (auto* m = dyn_cast<CXXMethodDecl>(fd))
    {
      o["cls"] = type(ctx.getRecordType(m->getParent()));
      if (m->isStatic())
        o["static"] = true;
      if (m->isVirtual())
        o["virtual"] = true;
      if (m->isConst())
        o["const"] = true;
      if (auto* c = dyn_cast<CXXConstructorDecl>(m))
      {
        if (c->isCopyOrMoveConstructor())
          o["copymove"] = true;
        if (c->isDefaultConstructor())
          o["defctor"] = true;
      }
      if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator())
        o["copyassign"] = true;
      if (m->isDefaulted() || m->isImplicit())
        o["defaulted"] = true;
    }
    return o;
  }

  js::Value varDecl(const VarDecl* v)
  {
    js::Object o;
    o["k"] = "Var";
    o["id"] = id(v);
    o["n"] = v->getNameAsString();
    o["t"] = type(v->getType());
    if (v->isStaticLocal())
      o["static"] = true;
    if (v->hasInit())
    {
      o["init"] = stmt(v->getInit());
      o["initstyle"] = (int)v->getInitStyle();
    }
    if (auto* dd = dyn_cast<DecompositionDecl>(v))
    {
      js::Array b;
      for (auto* bd : dd->bindings())
      {
        js::Object bo;
        bo["id"] = id(bd);
        bo["n"] = bd->getNameAsString();
        b.push_back(std::move(bo));
      }
      o["bindings"] = std::move(b);
    }
    return o;
  }

  void addConst(js::Object& o, const Expr* e)
  {
    if (e->isValueDependent() || e->isTypeDependent())
      return;
    QualType t = e->getType();
    if (e->isLValue() && !isa<DeclRefExpr>(e->IgnoreParens()))
      return;
    if (t->isIntegralOrEnumerationType())
    {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, ctx) && !r.HasSideEffects)
      {
        llvm::SmallString<32> s;
        r.Val.getInt().toString(s, 10);
        o["cv"] = std::string(s.str());
      }
    }
    else if (t->isRealFloatingType())
    {
      Expr::EvalResult r;
      if (e->EvaluateAsRValue(r, ctx) && !r.HasSideEffects && r.Val.isFloat())
      {
        double d = r.Val.getFloat().convertToDouble();
        if (&r.Val.getFloat().getSemantics() == &llvm::APFloat::IEEEdouble() ||
            &r.Val.getFloat().getSemantics() == &llvm::APFloat::IEEEsingle())
        {
          char buf[64];
          snprintf(buf, sizeof buf, "%a", d);
          o["cf"] = std::string(buf);
        }
      }
    }
  }

  js::Value stmts(llvm::iterator_range<Stmt::const_child_iterator> r)
  {
    js::Array a;
    for (auto* s : r)
      a.push_back(stmt(s));
    return a;
  }

  template <typename R>
  js::Value exprs(R&& r)
  {
    js::Array a;
    for (auto* s : r)
      a.push_back(stmt(s));
    return a;
  }

  js::Value stmt(const Stmt* s)
  {
    if (!s)
      return nullptr;
    // transparent nodes
    if (auto* e = dyn_cast<ParenExpr>(s))
      return stmt(e->getSubExpr());
    if (auto* e = dyn_cast<ExprWithCleanups>(s))
      return stmt(e->getSubExpr());
    if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s))
      return stmt(e->getSubExpr());
    if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s))
      return stmt(e->getSubExpr());
    if (auto* e = dyn_cast<CXXDefaultArgExpr>(s))
      return stmt(e->getExpr());
    if (auto* e = dyn_cast<CXXDefaultInitExpr>(s))
      return stmt(e->getExpr());
    if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s))
      return stmt(e->getReplacement());
    if (auto* e = dyn_cast<ConstantExpr>(s))
      return stmt(e->getSubExpr());

    js::Object o;
    o["k"] = s->getStmtClassName();
    o["l"] = (int)ctx.getSourceManager().getExpansionLineNumber(s->getBeginLoc());
    if (auto* e = dyn_cast<Expr>(s))
    {
      o["t"] = type(e->getType());
      if (e->isLValue())
        o["lv"] = true;
      addConst(o, e);
    }

    if (auto* c = dyn_cast<CompoundStmt>(s))
      o["c"] = stmts(c->children());
    else if (auto* d = dyn_cast<DeclStmt>(s))
    {
      js::Array a;
      for (auto* dd : d->decls())
      {
        if (auto* v = dyn_cast<VarDecl>(dd))
          a.push_back(varDecl(v));
      }
      o["d"] = std::move(a);
    }
    else if (auto* i = dyn_cast<IfStmt>(s))
    {
      if (i->getInit())
        o["init"] = stmt(i->getInit());
      if (i->getConditionVariableDeclStmt())
        o["var"] = stmt(i->getConditionVariableDeclStmt());
      o["cond"] = stmt(i->getCond());
      o["then"] = stmt(i->getThen());
      if (i->getElse())
        o["else"] = stmt(i->getElse());
      if (i->isConstexpr())
        o["constexpr"] = true;
    }
    else if (auto* f = dyn_cast<ForStmt>(s))
    {
      o["init"] = stmt(f->getInit());
      o["cond"] = stmt(f->getCond());
      o["inc"] = stmt(f->getInc());
      o["body"] = stmt(f->getBody());
    }
    else if (auto* f = dyn_cast<CXXForRangeStmt>(s))
    {
      o["range"] = stmt(f->getRangeInit());
      o["var"] = varDecl(f->getLoopVariable());
      o["body"] = stmt(f->getBody());
    }
    else if (auto* w = dyn_cast<WhileStmt>(s))
    {
      if (w->getConditionVariableDeclStmt())
        o["var"] = stmt(w->getConditionVariableDeclStmt());
      o["cond"] = stmt(w->getCond());
      o["body"] = stmt(w->getBody());
    }
    else if (auto* w = dyn_cast<DoStmt>(s))
    {
      o["cond"] = stmt(w->getCond());
      o["body"] = stmt(w->getBody());
    }
    else if (auto* r = dyn_cast<ReturnStmt>(s))
      o["e"] = stmt(r->getRetValue());
    else if (auto* w = dyn_cast<SwitchStmt>(s))
    {
      if (w->getInit())
        o["init"] = stmt(w->getInit());
      o["cond"] = stmt(w->getCond());
      o["body"] = stmt(w->getBody());
    }
    else if (auto* c = dyn_cast<CaseStmt>(s))
    {
      o["lhs"] = stmt(c->getLHS());
      o["sub"] = stmt(c->getSubStmt());
    }
    else if (auto* c = dyn_cast<DefaultStmt>(s))
      o["sub"] = stmt(c->getSubStmt());
    else if (auto* t = dyn_cast<CXXTryStmt>(s))
    {
      o["try"] = stmt(t->getTryBlock());
      js::Array a;
      for (unsigned i = 0; i < t->getNumHandlers(); ++i)
      {
        js::Object h;
        auto* ch = t->getHandler(i);
        if (ch->getExceptionDecl())
          h["var"] = varDecl(ch->getExceptionDecl());
        if (!ch->getCaughtType().isNull())
          h["t"] = type(ch->getCaughtType());
        h["body"] = stmt(ch->getHandlerBlock());
        a.push_back(std::move(h));
      }
      o["h"] = std::move(a);
    }
    else if (auto* l = dyn_cast<IntegerLiteral>(s))
    {
      llvm::SmallString<32> str;
      l->getValue().toString(str, 10, l->getType()->isSignedIntegerType());
      o["cv"] = std::string(str.str());
    }
    else if (auto* l = dyn_cast<StringLiteral>(s))
    {
      if (l->getCharByteWidth() == 1)
      {
        std::string str = l->getBytes().str();
        o["s"] = js::fixUTF8(str);
      }
    }
    else if (auto* l = dyn_cast<CharacterLiteral>(s))
      o["cv"] = std::to_string(l->getValue());
    else if (auto* l = dyn_cast<FloatingLiteral>(s))
    {
      llvm::SmallString<64> str;
      l->getValue().toString(str, 60, 0);
      o["dec"] = std::string(str.str());
    }
    else if (auto* d = dyn_cast<DeclRefExpr>(s))
    {
      auto* vd = d->getDecl();
      o["id"] = id(vd);
      o["n"] = vd->getNameAsString();
      o["dk"] = vd->getDeclKindName();
      if (auto* fd = dyn_cast<FunctionDecl>(vd))
        o["f"] = funcRef(fd);
      else
        o["q"] = qname(vd);
      if (auto* ec = dyn_cast<EnumConstantDecl>(vd))
      {
        llvm::SmallString<32> str;
        ec->getInitVal().toString(str, 10);
        o["cv"] = std::string(str.str());
      }
      if (auto* v = dyn_cast<VarDecl>(vd))
        if (v->hasGlobalStorage() && !v->isStaticLocal())
        {
          o["global"] = true;
          pending_globals.push_back(v);
        }
    }
    else if (auto* m = dyn_cast<MemberExpr>(s))
    {
      o["b"] = stmt(m->getBase());
      o["n"] = m->getMemberDecl()->getNameAsString();
      o["arrow"] = m->isArrow();
      if (auto* fd = dyn_cast<FunctionDecl>(m->getMemberDecl()))
        o["f"] = funcRef(fd);
      else
      {
        o["q"] = qname(m->getMemberDecl());
        if (auto* v = dyn_cast<VarDecl>(m->getMemberDecl()))
        {
          o["id"] = id(v);
          o["global"] = true;
          pending_globals.push_back(v);
        }
        else if (auto* f = dyn_cast<FieldDecl>(m->getMemberDecl()))
        {
          if (f->getType()->isReferenceType())
            o["reffield"] = true;
        }
      }
    }
    else if (auto* u = dyn_cast<UnaryOperator>(s))
    {
      o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
      o["post"] = u->isPostfix();
      o["e"] = stmt(u->getSubExpr());
    }
    else if (auto* b = dyn_cast<BinaryOperator>(s))
    {
      o["op"] = b->getOpcodeStr().str();
      o["a"] = stmt(b->getLHS());
      o["b"] = stmt(b->getRHS());
      if (auto* ca = dyn_cast<CompoundAssignOperator>(s))
      {
        o["ct"] = type(ca->getComputationResultType());
        o["clt"] = type(ca->getComputationLHSType());
      }
    }
    else if (auto* c = dyn_cast<AbstractConditionalOperator>(s))
    {
      o["cond"] = stmt(c->getCond());
      o["a"] = stmt(c->getTrueExpr());
      o["b"] = stmt(c->getFalseExpr());
    }
    else if (auto* a = dyn_cast<ArraySubscriptExpr>(s))
    {
      o["b"] = stmt(a->getBase());
      o["i"] = stmt(a->getIdx());
    }
    else if (auto* oc = dyn_cast<CXXOperatorCallExpr>(s))
    {
      o["op"] = getOperatorSpelling(oc->getOperator());
      if (auto* fd = oc->getDirectCallee())
      {
        o["f"] = funcRef(fd);
        o["member"] = isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic();
      }
      o["args"] = exprs(oc->arguments());
    }
    else if (auto* mc = dyn_cast<CXXMemberCallExpr>(s))
    {
      if (auto* fd = mc->getDirectCallee())
        o["f"] = funcRef(fd);
      o["obj"] = stmt(mc->getImplicitObjectArgument());
      if (auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens()))
      {
        o["arrow"] = me->isArrow();
        if (me->hasQualifier())
          o["qualified"] = true;
      }
      o["args"] = exprs(mc->arguments());
    }
    else if (auto* c = dyn_cast<CallExpr>(s))
    {
      if (auto* fd = c->getDirectCallee())
        o["f"] = funcRef(fd);
      else
        o["callee"] = stmt(c->getCallee());
      o["args"] = exprs(c->arguments());
    }
    else if (auto* c = dyn_cast<CXXConstructExpr>(s))
    {
      o["f"] = funcRef(c->getConstructor());
      o["args"] = exprs(c->arguments());
      if (c->isElidable())
        o["elidable"] = true;
      if (c->isListInitialization())
        o["list"] = true;
      if (c->isStdInitListInitialization())
        o["stdinit"] = true;
      if (c->requiresZeroInitialization())
        o["zero"] = true;
    }
    else if (auto* c = dyn_cast<CXXInheritedCtorInitExpr>(s))
      o["f"] = funcRef(c->getConstructor());
    else if (auto* n = dyn_cast<CXXNewExpr>(s))
    {
      o["at"] = type(n->getAllocatedType());
      if (n->isArray() && n->getArraySize())
        o["size"] = stmt(*n->getArraySize());
      o["e"] = stmt(n->getInitializer());
    }
    else if (auto* c = dyn_cast<CastExpr>(s))
    {
      o["ck"] = c->getCastKindName();
      o["e"] = stmt(c->getSubExpr());
      if (auto* conv = c->getConversionFunction())
        if (auto* fd = dyn_cast<FunctionDecl>(conv))
          o["f"] = funcRef(fd);
    }
    else if (auto* l = dyn_cast<LambdaExpr>(s))
    {
      js::Array caps;
      auto ci = l->capture_init_begin();
      for (auto& c : l->captures())
      {
        js::Object co;
        if (c.capturesThis())
          co["this"] = true;
        else if (c.capturesVariable())
        {
          co["id"] = id(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
          co["init"] = stmt(*ci);
        }
        ++ci;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      o["generic"] = l->isGenericLambda();
      auto* op = l->getCallOperator();
      js::Array ps;
      for (auto* p : op->parameters())
        ps.push_back(varDecl(p));
      o["params"] = std::move(ps);
      o["rt"] = type(op->getReturnType());
      o["opid"] = id(op);
      o["body"] = stmt(l->getBody());
      if (l->isGenericLambda())
      {
        // instantiations of the generic call operator
        js::Array insts;
        if (auto* ft = op->getDescribedFunctionTemplate())
          for (auto* sp : ft->specializations())
          {
            js::Object io;
            io["id"] = id(sp);
            js::Array ips;
            for (auto* p : sp->parameters())
              ips.push_back(varDecl(p));
            io["params"] = std::move(ips);
            io["rt"] = type(sp->getReturnType());
            io["body"] = stmt(sp->getBody());
            insts.push_back(std::move(io));
          }
        o["insts"] = std::move(insts);
      }
    }
    else if (auto* il = dyn_cast<InitListExpr>(s))
    {
      if (il->isSemanticForm() == false && il->getSemanticForm())
        il = il->getSemanticForm();
      js::Array a;
      for (auto* e : il->inits())
        a.push_back(stmt(e));
      o["inits"] = std::move(a);
      if (il->hasArrayFiller())
        o["filler"] = stmt(il->getArrayFiller());
      if (auto* rd = il->getType()->getAsCXXRecordDecl())
      {
        js::Array names;
        for (auto& b : rd->bases())
          names.push_back("<base:" + b.getType().getCanonicalType().getAsString(pp) + ">");
        for (auto* f : rd->fields())
          names.push_back(f->getNameAsString());
        o["fields"] = std::move(names);
      }
    }
    else if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s))
      o["e"] = stmt(e->getSubExpr());
    else if (auto* e = dyn_cast<CXXThrowExpr>(s))
      o["e"] = stmt(e->getSubExpr());
    else
    {
      js::Array a;
      for (auto* ch : s->children())
        a.push_back(stmt(ch));
      o["c"] = std::move(a);
    }
    return o;
  }

  void record(const CXXRecordDecl* rd)
  {
    rd = rd->getDefinition();
    if (!rd || !done.insert(rd).second || rd->isDependentContext())
      return;
    if (!inRoot(rd->getLocation()))
    {
      return;
    }
    js::Object o;
    o["q"] = ctx.getRecordType(rd).getCanonicalType().getAsString(pp);
    o["loc"] = loc(rd->getLocation());
    js::Array bases;
    for (auto& b : rd->bases())
      bases.push_back(type(b.getType()));
    o["bases"] = std::move(bases);
    js::Array fields;
    for (auto* f : rd->fields())
    {
      js::Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = type(f->getType());
      if (f->hasInClassInitializer() && f->getInClassInitializer())
        fo["init"] = stmt(f->getInClassInitializer());
      fields.push_back(std::move(fo));
    }
    o["fields"] = std::move(fields);
    o["aggregate"] = rd->isAggregate();
    std::string key = ctx.getRecordType(rd).getCanonicalType().getAsString(pp);
    records[key] = std::move(o);
  }

  void function(const FunctionDecl* fd)
  {
    const FunctionDecl* def = nullptr;
    if (!fd->hasBody(def) || !def)
      return;
    fd = def;
    if (fd->isDependentContext() || fd->isInvalidDecl())
      return;
    if (!inRoot(fd->getLocation()))
      return;
    if (!done.insert(fd).second)
      return;
    js::Object o = funcRef(fd);
    o["loc"] = loc(fd->getLocation());
    js::Array ps;
    for (auto* p : fd->parameters())
      ps.push_back(varDecl(p));
    o["params"] = std::move(ps);
    if (auto* c = dyn_cast<CXXConstructorDecl>(fd))
    {
      js::Array inits;
      for (auto* i : c->inits())
      {
        js::Object io;
        if (i->isBaseInitializer())
          io["base"] = type(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer())
          io["delegating"] = true;
        else if (i->isMemberInitializer())
          io["field"] = i->getMember()->getNameAsString();
        io["written"] = i->isWritten();
        io["e"] = stmt(i->getInit());
        inits.push_back(std::move(io));
      }
      o["inits"] = std::move(inits);
    }
    if (auto* m = dyn_cast<CXXMethodDecl>(fd))
    {
      js::Array ov;
      for (auto* b : m->overridden_methods())
        ov.push_back(id(b));
      if (!ov.empty())
        o["overrides"] = std::move(ov);
      record(m->getParent());
    }
    o["body"] = stmt(fd->getBody());
    functions.push_back(std::move(o));
  }

  void flush()
  {
    std::set<const VarDecl*> gd;
    while (!pending_records.empty() || !pending_globals.empty())
    {
      if (!pending_records.empty())
      {
        auto* r = pending_records.back();
        pending_records.pop_back();
        record(r);
      }
      else
      {
        auto* v = pending_globals.back();
        pending_globals.pop_back();
        const VarDecl* def = v->getDefinition();
        if (!def)
          def = v;
        if (gd.insert(def->getCanonicalDecl()).second && inRoot(def->getLocation()))
          globals.push_back(varDecl(def));
      }
    }
  }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
public:
  Dumper& d;
  Visitor(Dumper& dd) : d(dd) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* fd)
  {
    if (d.inRoot(fd->getLocation()))
      d.function(fd);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* rd)
  {
    if (d.inRoot(rd->getLocation()) && rd->hasDefinition() && !rd->isLambda())
      d.record(rd);
    return true;
  }
};

class Consumer : public ASTConsumer
{
public:
  void HandleTranslationUnit(ASTContext& ctx) override
  {
    Dumper d(ctx);
    Visitor v(d);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    d.flush();
    js::Object top;
    top["functions"] = std::move(d.functions);
    top["records"] = std::move(d.records);
    top["globals"] = std::move(d.globals);
    js::Array ts;
    for (auto& t : d.type_names)
      ts.push_back(t);
    top["types"] = std::move(ts);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << js::Value(std::move(top));
  }
};

class Action : public ASTFrontendAction
{
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override
  {
    return std::make_unique<Consumer>();
  }
};

class Factory : public tooling::FrontendActionFactory
{
public:
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

// usage: extract OUT ROOT[:ROOT...] SOURCE -- FLAGS...
int main(int argc, char** argv)
{
  if (argc < 5)
    return 2;
  g_out = argv[1];
  llvm::SmallVector<llvm::StringRef, 4> parts;
  llvm::StringRef(argv[2]).split(parts, ':');
  for (auto p : parts)
    g_roots.push_back(p.str());
  std::string src = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i)
    flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, { src });
  Factory f;
  return tool.run(&f);
}
