// joedb static-analysis fact extractor.
//
// Parses one translation unit with clang and writes, for every function whose
// definition lies under one of the given roots, its fully resolved body as a
// JSON tree (implicit calls, template instantiations, macro expansions and
// overload resolution already done by the front end), plus class and enum
// records.  It never evaluates or runs the code of the program.
//
// usage: extract ROOTS OUT.json FILE -- clang args     (ROOTS: ':' separated)

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Value;
using llvm::json::Object;
using llvm::json::Array;

static std::vector<std::string> roots;
static std::string out_path;

namespace
{
 static int64_t i64(const llvm::APSInt &i) {return (int64_t)i.getRawData()[0];}

 struct Extractor: RecursiveASTVisitor<Extractor>
 {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  ASTNameGenerator NG;

  Object functions;
  Object classes;
  Object enums;
  Object globals;
  std::set<std::string> deps;
  std::set<std::string> done_fn, done_cls, done_enum;
  std::vector<const LambdaExpr *> pending_lambdas;
  std::vector<const CXXRecordDecl *> pending_classes;

  std::string cur_key; // enclosing function key
  unsigned cur_seq = 0;

  Extractor(ASTContext &C): C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), NG(C)
  {
   PP.SuppressTagKeyword = true;
   PP.Bool = true;
   PP.SuppressUnwrittenScope = false;
   PP.PrintCanonicalTypes = true;
  }

  bool shouldVisitTemplateInstantiations() const {return true;}
  bool shouldVisitImplicitCode() const {return true;}
  bool shouldVisitLambdaBody() const {return false;}

  ////////////////////////////////////////////////////////////////////////////
  std::string fileOf(SourceLocation l)
  {
   if (l.isInvalid()) return "";
   l = SM.getExpansionLoc(l);
   auto f = SM.getFilename(l);
   return f.str();
  }
  int lineOf(SourceLocation l)
  {
   if (l.isInvalid()) return 0;
   return (int)SM.getExpansionLineNumber(l);
  }
  unsigned colOf(SourceLocation l)
  {
   if (l.isInvalid()) return 0;
   return SM.getExpansionColumnNumber(l);
  }
  bool inRoots(SourceLocation l)
  {
   std::string f = fileOf(l);
   if (f.empty()) return false;
   for (auto &r: roots)
    if (f.compare(0, r.size(), r) == 0) return true;
   return false;
  }

  std::string type(QualType t)
  {
   if (t.isNull()) return "";
   return t.getCanonicalType().getAsString(PP);
  }

  std::string qname(const NamedDecl *d)
  {
   std::string s;
   llvm::raw_string_ostream os(s);
   d->printQualifiedName(os, PP);
   return s;
  }

  // Qualified name of a class, with template arguments
  std::string cname(const CXXRecordDecl *r)
  {
   if (!r) return "";
   if (r->isLambda())
    return "lambda@" + std::to_string(lineOf(r->getLocation())) + ":" + std::to_string(colOf(r->getLocation()));
   return C.getTypeDeclType(r).getCanonicalType().getAsString(PP);
  }

  std::string fkey(const FunctionDecl *f)
  {
   f = f->getCanonicalDecl();
   if (auto m = dyn_cast<CXXMethodDecl>(f))
    if (m->getParent()->isLambda())
     return lambdaKey(m->getParent());
   std::string s;
   if (isa<CXXConstructorDecl>(f) || isa<CXXDestructorDecl>(f))
   {
    auto v = NG.getAllManglings(f);
    if (!v.empty()) return v[0];
   }
   s = NG.getName(f);
   if (s.empty()) s = qname(f) + type(f->getType());
   return s;
  }

  std::string lambdaKey(const CXXRecordDecl *r)
  {
   std::string parent;
   const DeclContext *dc = r->getDeclContext();
   while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
   if (dc) parent = fkey(cast<FunctionDecl>(dc));
   return parent + "$L" + std::to_string(lineOf(r->getLocation())) + "_" + std::to_string(colOf(r->getLocation()));
  }

  std::string varId(const ValueDecl *v)
  {
   if (auto vd = dyn_cast<VarDecl>(v))
   {
    if (vd->hasGlobalStorage() && !vd->isStaticLocal())
     return "G:" + qname(vd);
   }
   std::string parent;
   const DeclContext *dc = v->getDeclContext();
   while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
   if (dc) parent = fkey(cast<FunctionDecl>(dc));
   return "L:" + v->getNameAsString() + "@" + std::to_string(SM.getFileOffset(SM.getExpansionLoc(v->getLocation()))) + "." + std::to_string(SM.getFileOffset(SM.getSpellingLoc(v->getLocation()))) + "#" + parent;
  }

  const CXXRecordDecl *classOf(QualType t)
  {
   if (t.isNull()) return nullptr;
   t = t.getNonReferenceType();
   return t->getAsCXXRecordDecl();
  }

  void noteClass(const CXXRecordDecl *r)
  {
   if (r && r->getDefinition()) pending_classes.push_back(r->getDefinition());
  }

  std::string dtorKey(QualType t)
  {
   const Type *el = t->getBaseElementTypeUnsafe();
   const CXXRecordDecl *r = el->getAsCXXRecordDecl();
   if (!r || !r->hasDefinition()) return "";
   r = r->getDefinition();
   if (r->hasTrivialDestructor()) return "";
   noteClass(r);
   return cname(r);
  }

  ////////////////////////////////////////////////////////////////////////////
  Value E(const Expr *e)
  {
   if (!e) return nullptr;

   for (;;)
   {
    if (auto p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
    else if (auto p = dyn_cast<ConstantExpr>(e)) e = p->getSubExpr();
    else if (auto p = dyn_cast<MaterializeTemporaryExpr>(e)) e = p->getSubExpr();
    else if (auto p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
    else if (auto p = dyn_cast<CXXDefaultArgExpr>(e)) e = p->getExpr();
    else if (auto p = dyn_cast<CXXDefaultInitExpr>(e)) e = p->getExpr();
    else if (auto p = dyn_cast<OpaqueValueExpr>(e)) { if (!p->getSourceExpr()) break; e = p->getSourceExpr(); }
    else if (auto p = dyn_cast<UnaryOperator>(e); p && p->getOpcode() == UO_Extension) e = p->getSubExpr();
    else if (auto p = dyn_cast<ImplicitCastExpr>(e))
    {
     // keep value-changing integral conversions, drop the rest
     if (p->getCastKind() == CK_IntegralCast)
     {
      Expr::EvalResult r;
      if (!p->isValueDependent() && p->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) break;
      Object o;
      o["k"] = "icast";
      o["t"] = type(p->getType());
      o["ft"] = type(p->getSubExpr()->getType());
      o["e"] = E(p->getSubExpr());
      return std::move(o);
     }
     else if (p->getCastKind() == CK_NullToPointer)
      return Object{{"k", "null"}};
     e = p->getSubExpr();
    }
    else break;
   }

   if (auto p = dyn_cast<ExprWithCleanups>(e))
   {
    return Object{{"k", "full"}, {"e", E(p->getSubExpr())}};
   }
   if (auto p = dyn_cast<CXXBindTemporaryExpr>(e))
   {
    std::string d = dtorKey(p->getType());
    Value v = E(p->getSubExpr());
    if (d.empty()) return v;
    return Object{{"k", "tmp"}, {"d", d}, {"e", std::move(v)}, {"l", lineOf(e->getExprLoc())}};
   }

   // constants
   if (!e->isValueDependent() && !e->isTypeDependent() && !e->getType().isNull() && e->isPRValue() &&
       (e->getType()->isIntegralOrEnumerationType()) && !isa<CXXBoolLiteralExpr>(e))
   {
    Expr::EvalResult r;
    if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects))
    {
     Object o{{"k", "int"}};
     auto &i = r.Val.getInt();
     if (i.isRepresentableByInt64()) o["v"] = (int64_t)i.getExtValue();
     else o["v"] = llvm::toString(i, 10);
     const Expr *x = e->IgnoreParenImpCasts();
     if (auto dr = dyn_cast<DeclRefExpr>(x))
      o["n"] = qname(dr->getDecl());
     else if (auto me = dyn_cast<MemberExpr>(x))
      o["n"] = qname(me->getMemberDecl());
     o["t"] = type(e->getType());
     return std::move(o);
    }
   }
   if (auto p = dyn_cast<CXXBoolLiteralExpr>(e))
    return Object{{"k", "int"}, {"v", p->getValue() ? 1 : 0}, {"t", "bool"}};
   if (auto p = dyn_cast<IntegerLiteral>(e))
    return Object{{"k", "int"}, {"v", (int64_t)p->getValue().getLimitedValue()}, {"t", type(e->getType())}};
   if (auto p = dyn_cast<clang::StringLiteral>(e))
   {
    std::string s;
    if (p->isOrdinary() || p->isUTF8())
     for (unsigned char c: p->getBytes()) { if (c < 128) s += (char)c; else s += "?"; }
    return Object{{"k", "str"}, {"v", s}};
   }
   if (isa<FloatingLiteral>(e)) return Object{{"k", "flt"}, {"v", cast<FloatingLiteral>(e)->getValueAsApproximateDouble()}};
   if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return Object{{"k", "null"}};
   if (isa<CXXThisExpr>(e)) return Object{{"k", "this"}};

   if (auto p = dyn_cast<DeclRefExpr>(e))
   {
    const ValueDecl *d = p->getDecl();
    if (auto ec = dyn_cast<EnumConstantDecl>(d))
     return Object{{"k", "int"}, {"v", i64(ec->getInitVal())}, {"n", qname(ec)}, {"t", type(e->getType())}};
    if (auto fd = dyn_cast<FunctionDecl>(d))
     return Object{{"k", "fn"}, {"f", fkey(fd)}, {"n", qname(fd)}};
    if (auto bd = dyn_cast<BindingDecl>(d))
    {
     if (const VarDecl *hv = bd->getHoldingVar())
     {
      // an element of a pair: a member of the object decomposed
      auto dd = cast<DecompositionDecl>(bd->getDecomposedDecl());
      const CXXRecordDecl *rd = dd->getType().getNonReferenceType()->getAsCXXRecordDecl();
      unsigned i = 0;
      while (i < dd->bindings().size() && dd->bindings()[i] != bd) i++;
      if (rd && qname(rd) == "std::pair" && i < 2)
       for (auto fd: rd->fields())
        if (fd->getName() == (i ? "second" : "first"))
        {
         Object b{{"k", "var"}, {"n", dd->getNameAsString()}, {"id", varId(dd)}, {"t", type(dd->getType())}};
         if (dd->getType()->isReferenceType()) b["ref"] = 1;
         Object o{{"k", "mem"}, {"n", qname(rd) + "::" + fd->getNameAsString()}, {"b", std::move(b)}, {"t", type(fd->getType())}, {"l", lineOf(p->getLocation())}};
         if (fd->getType()->isReferenceType()) o["ref"] = 1;
         noteClass(rd);
         return std::move(o);
        }
      (void)hv;
     }
     if (bd->getBinding()) return E(bd->getBinding());
    }
    Object o{{"k", "var"}, {"n", d->getNameAsString()}, {"id", varId(d)}, {"t", type(d->getType())}};
    if (auto vd = dyn_cast<VarDecl>(d))
    {
     if (vd->hasGlobalStorage() && !vd->isStaticLocal()) { o["g"] = 1; noteGlobal(vd); }
     else if (vd->isStaticLocal()) o["g"] = 2;
     else if (isa<ParmVarDecl>(vd)) o["p"] = 1;
    }
    if (d->getType()->isReferenceType()) o["ref"] = 1;
    return std::move(o);
   }

   if (auto p = dyn_cast<MemberExpr>(e))
   {
    const ValueDecl *m = p->getMemberDecl();
    if (auto vd = dyn_cast<VarDecl>(m)) // static member
     { noteGlobal(vd); return Object{{"k", "var"}, {"n", vd->getNameAsString()}, {"id", "G:" + qname(vd)}, {"g", 1}, {"t", type(vd->getType())}}; }
    if (auto fd = dyn_cast<FunctionDecl>(m))
     return Object{{"k", "fn"}, {"f", fkey(fd)}, {"n", qname(fd)}, {"b", E(p->getBase())}};
    Object o{{"k", "mem"}};
    std::string owner;
    if (auto fd = dyn_cast<FieldDecl>(m))
    {
     auto r = dyn_cast<CXXRecordDecl>(fd->getParent());
     if (r) { owner = r->isLambda() ? "lambda" : qname(r); noteClass(r); }
     else owner = "c";
    }
    o["n"] = owner + "::" + m->getNameAsString();
    o["b"] = E(p->getBase());
    if (p->isArrow()) o["ar"] = 1;
    o["t"] = type(m->getType());
    if (m->getType()->isReferenceType()) o["ref"] = 1;
    o["l"] = lineOf(p->getMemberLoc());
    return std::move(o);
   }

   if (auto p = dyn_cast<LambdaExpr>(e))
   {
    Object o{{"k", "lam"}, {"f", lambdaKey(p->getLambdaClass())}, {"l", lineOf(e->getExprLoc())}};
    Array caps;
    unsigned i = 0;
    auto init = p->capture_init_begin();
    for (auto &c: p->captures())
    {
     Object co;
     if (c.capturesThis()) co["by"] = "this";
     else if (c.capturesVariable())
     {
      co["n"] = varId(c.getCapturedVar());
      co["by"] = c.getCaptureKind() == LCK_ByRef ? "ref" : "val";
      if (init != p->capture_init_end() && *init) co["init"] = E(*init);
     }
     ++i;
     if (init != p->capture_init_end()) ++init;
     caps.push_back(std::move(co));
    }
    o["caps"] = std::move(caps);
    pending_lambdas.push_back(p);
    return std::move(o);
   }

   if (auto p = dyn_cast<CXXRewrittenBinaryOperator>(e))
    return E(p->getSemanticForm());

   if (auto p = dyn_cast<UserDefinedLiteral>(e)) return call(p);
   if (auto p = dyn_cast<CallExpr>(e)) return call(p);

   if (auto p = dyn_cast<CXXInheritedCtorInitExpr>(e))
   {
    Object o{{"k", "ctor"}, {"f", fkey(p->getConstructor())}, {"n", qname(p->getConstructor())}, {"t", type(e->getType())}, {"a", Array{}}, {"l", lineOf(e->getExprLoc())}, {"inh", 1}};
    return std::move(o);
   }

   if (auto p = dyn_cast<CXXConstructExpr>(e))
   {
    const CXXConstructorDecl *cd = p->getConstructor();
    if (p->isElidable() && p->getNumArgs() >= 1) return E(p->getArg(0));
    Object o{{"k", "ctor"}, {"f", fkey(cd)}, {"n", qname(cd->getParent())}, {"t", type(e->getType())}, {"l", lineOf(e->getExprLoc())}};
    noteClass(cd->getParent());
    if (cd->isCopyConstructor()) o["cp"] = 1;
    if (cd->isMoveConstructor()) o["cp"] = 2;
    if (cd->isDefaulted() || cd->isImplicit() || cd->isTrivial()) o["def"] = 1;
    if (noexceptOf(cd)) o["nx"] = 1;
    Array a;
    for (auto x: p->arguments()) a.push_back(E(x));
    o["a"] = std::move(a);
    o["pk"] = paramKinds(cd);
    return std::move(o);
   }

   if (auto p = dyn_cast<UnaryOperator>(e))
   {
    Object o{{"k", "un"}, {"op", UnaryOperator::getOpcodeStr(p->getOpcode()).str()}, {"e", E(p->getSubExpr())}, {"l", lineOf(e->getExprLoc())}, {"t", type(e->getType())}};
    if (p->isPostfix()) o["post"] = 1;
    return std::move(o);
   }
   if (auto p = dyn_cast<BinaryOperator>(e))
   {
    return Object{{"k", "bin"}, {"op", p->getOpcodeStr().str()}, {"x", E(p->getLHS())}, {"y", E(p->getRHS())}, {"l", lineOf(e->getExprLoc())}, {"t", type(e->getType())}};
   }
   if (auto p = dyn_cast<AbstractConditionalOperator>(e))
   {
    return Object{{"k", "cond"}, {"c", E(p->getCond())}, {"x", E(p->getTrueExpr())}, {"y", E(p->getFalseExpr())}, {"l", lineOf(e->getExprLoc())}};
   }
   if (auto p = dyn_cast<ArraySubscriptExpr>(e))
    return Object{{"k", "idx"}, {"b", E(p->getBase())}, {"i", E(p->getIdx())}, {"l", lineOf(e->getExprLoc())}, {"t", type(e->getType())}};

   if (auto p = dyn_cast<ExplicitCastExpr>(e))
   {
    Object o{{"k", "cast"}, {"t", type(p->getType())}, {"ft", type(p->getSubExpr()->IgnoreParenImpCasts()->getType())}, {"e", E(p->getSubExpr())}, {"l", lineOf(e->getExprLoc())}};
    o["ck"] = p->getCastKindName();
    if (isa<CXXConstCastExpr>(p)) o["cc"] = 1;
    return std::move(o);
   }
   if (auto p = dyn_cast<ImplicitCastExpr>(e)) // foldable IntegralCast that failed EvaluateAsInt above
    return E(p->getSubExpr());

   if (auto p = dyn_cast<InitListExpr>(e))
   {
    if (p->isSemanticForm() == false && p->getSemanticForm()) p = p->getSemanticForm();
    Array a;
    for (auto x: p->inits()) a.push_back(E(x));
    return Object{{"k", "init"}, {"t", type(e->getType())}, {"a", std::move(a)}, {"l", lineOf(e->getExprLoc())}};
   }
   if (auto p = dyn_cast<CXXStdInitializerListExpr>(e)) return E(p->getSubExpr());
   if (auto p = dyn_cast<CXXParenListInitExpr>(e))
   {
    Array a;
    for (auto x: p->getInitExprs()) a.push_back(E(x));
    return Object{{"k", "init"}, {"t", type(e->getType())}, {"a", std::move(a)}, {"l", lineOf(e->getExprLoc())}};
   }
   if (auto p = dyn_cast<CXXNewExpr>(e))
   {
    Object o{{"k", "new"}, {"t", type(p->getAllocatedType())}, {"l", lineOf(e->getExprLoc())}};
    if (p->isArray() && p->getArraySize()) o["n"] = E(*p->getArraySize());
    if (p->getInitializer()) o["e"] = E(p->getInitializer());
    return std::move(o);
   }
   if (auto p = dyn_cast<CXXDeleteExpr>(e))
    return Object{{"k", "del"}, {"e", E(p->getArgument())}, {"l", lineOf(e->getExprLoc())}};
   if (auto p = dyn_cast<CXXThrowExpr>(e))
   {
    Object o{{"k", "throw"}, {"l", lineOf(e->getExprLoc())}};
    if (p->getSubExpr())
    {
     o["e"] = E(p->getSubExpr());
     o["t"] = type(p->getSubExpr()->getType());
     noteClass(classOf(p->getSubExpr()->getType()));
    }
    return std::move(o);
   }
   if (auto p = dyn_cast<CoroutineSuspendExpr>(e))
   {
    Object o{{"k", "await"}, {"e", E(p->getOperand())}, {"l", lineOf(e->getExprLoc())}, {"t", type(e->getType())}};
    if (isa<CoyieldExpr>(p)) o["y"] = 1;
    return std::move(o);
   }
   if (auto p = dyn_cast<CXXScalarValueInitExpr>(e)) return Object{{"k", "int"}, {"v", 0}, {"t", type(p->getType())}};
   if (isa<ImplicitValueInitExpr>(e)) return Object{{"k", "zero"}, {"t", type(e->getType())}};
   if (auto p = dyn_cast<StmtExpr>(e)) return Object{{"k", "stmtexpr"}, {"s", S(p->getSubStmt())}};
   if (auto p = dyn_cast<CXXFoldExpr>(e)) { (void)p; return Object{{"k", "other"}, {"c", "CXXFoldExpr"}}; }
   if (auto p = dyn_cast<ArrayInitLoopExpr>(e)) return E(p->getCommonExpr());

   Array kids;
   for (auto c: e->children())
    if (auto x = dyn_cast_or_null<Expr>(c)) kids.push_back(E(x));
   return Object{{"k", "other"}, {"c", e->getStmtClassName()}, {"a", std::move(kids)}, {"t", type(e->getType())}, {"l", lineOf(e->getExprLoc())}};
  }

  bool noexceptOf(const FunctionDecl *f)
  {
   auto t = f->getType()->getAs<FunctionProtoType>();
   if (!t) return false;
   if (isUnresolvedExceptionSpec(t->getExceptionSpecType())) return isa<CXXDestructorDecl>(f);
   return t->canThrow() == CT_Cannot;
  }

  Value paramKinds(const FunctionDecl *f)
  {
   std::string s;
   for (auto p: f->parameters())
   {
    QualType t = p->getType();
    if (t->isLValueReferenceType()) s += t->getPointeeType().isConstQualified() ? 'c' : 'r';
    else if (t->isRValueReferenceType()) s += 'm';
    else if (t->isPointerType()) s += t->getPointeeType().isConstQualified() ? 'q' : 'p';
    else s += 'v';
   }
   return s;
  }

  Value call(const CallExpr *p)
  {
   Object o{{"k", "call"}, {"l", lineOf(p->getExprLoc())}, {"t", type(p->getCallReturnType(C))}};
   const FunctionDecl *fd = p->getDirectCallee();
   unsigned first = 0;
   if (fd)
   {
    o["f"] = fkey(fd);
    o["n"] = qname(fd);
    if (noexceptOf(fd)) o["nx"] = 1;
    if (fd->getReturnType()->isReferenceType()) o["rr"] = 1;
    if (auto ta = fd->getTemplateSpecializationArgs())
    {
     std::string s;
     llvm::raw_string_ostream os(s);
     for (auto &a: ta->asArray()) { a.print(PP, os, true); os << ";"; }
     o["ta"] = s;
    }
    o["pk"] = paramKinds(fd);
    if (fd->isVariadic()) o["va"] = 1;
    if (fd->isNoReturn()) o["nr"] = 1;
    if (auto m = dyn_cast<CXXMethodDecl>(fd))
    {
     noteClass(m->getParent());
     if (m->isConst()) o["cm"] = 1;
     if (m->isStatic()) o["st"] = 1;
     if (m->isVirtual())
     {
      bool v = true;
      if (auto me = dyn_cast<MemberExpr>(p->getCallee()->IgnoreParens()))
       if (me->hasQualifier()) v = false;
      if (m->hasAttr<FinalAttr>() || m->getParent()->hasAttr<FinalAttr>()) v = false;
      if (v) o["vt"] = 1;
     }
     if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) o["asg"] = 1;
    }
   }
   else
    o["fe"] = E(p->getCallee());

   if (auto mc = dyn_cast<CXXMemberCallExpr>(p))
   {
    if (mc->getImplicitObjectArgument()) {
     const Expr *obj = mc->getImplicitObjectArgument();
     o["obj"] = E(obj);
     o["ot"] = type(obj->getType());
     if (obj->getType()->isPointerType()) o["ar"] = 1;
    }
   }
   else if (auto oc = dyn_cast<CXXOperatorCallExpr>(p))
   {
    o["op"] = getOperatorSpelling(oc->getOperator());
    if (fd && isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic())
    {
     o["obj"] = E(oc->getArg(0));
     o["ot"] = type(oc->getArg(0)->getType());
     first = 1;
    }
   }
   Array a;
   for (unsigned i = first; i < p->getNumArgs(); i++) a.push_back(E(p->getArg(i)));
   o["a"] = std::move(a);
   return std::move(o);
  }

  ////////////////////////////////////////////////////////////////////////////
  Value varDecl(const VarDecl *v)
  {
   Object o{{"n", v->getNameAsString()}, {"id", varId(v)}, {"t", type(v->getType())}, {"l", lineOf(v->getLocation())}};
   if (v->getType()->isReferenceType()) o["ref"] = 1;
   if (v->isStaticLocal()) o["static"] = 1;
   std::string d = dtorKey(v->getType());
   if (!d.empty()) o["d"] = d;
   if (v->getInit()) o["e"] = E(v->getInit());
   if (v->getType()->isArrayType()) o["arr"] = 1;
   if (auto dd = dyn_cast<DecompositionDecl>(v))
   {
    Array b;
    for (auto bd: dd->bindings())
    {
     Object bo{{"n", bd->getNameAsString()}, {"id", varId(bd)}};
     if (bd->getBinding()) bo["e"] = E(bd->getBinding());
     if (auto hv = bd->getHoldingVar()) { bo["hid"] = varId(hv); if (hv->getInit()) bo["he"] = E(hv->getInit()); }
     b.push_back(std::move(bo));
    }
    o["bind"] = std::move(b);
   }
   return std::move(o);
  }

  Value S(const Stmt *s)
  {
   if (!s) return nullptr;
   int l = lineOf(s->getBeginLoc());

   if (auto p = dyn_cast<CompoundStmt>(s))
   {
    Array a;
    for (auto c: p->body()) a.push_back(S(c));
    return Object{{"s", "block"}, {"b", std::move(a)}, {"l", l}};
   }
   if (auto p = dyn_cast<DeclStmt>(s))
   {
    Array a;
    for (auto d: p->decls())
     if (auto v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
     else if (auto r = dyn_cast<CXXRecordDecl>(d)) noteClass(r);
    return Object{{"s", "decl"}, {"v", std::move(a)}, {"l", l}};
   }
   if (auto p = dyn_cast<IfStmt>(s))
   {
    if (p->isConstexpr())
    {
     auto c = p->getNondiscardedCase(C);
     if (c) return *c ? S(*c) : Value(Object{{"s", "null"}});
    }
    if (p->isConsteval())
     return S(p->isNegatedConsteval() ? p->getThen() : p->getElse());
    Object o{{"s", "if"}, {"l", l}};
    if (p->getInit()) o["i"] = S(p->getInit());
    if (p->getConditionVariable()) o["cv"] = varDecl(p->getConditionVariable());
    o["c"] = E(p->getCond());
    o["t"] = S(p->getThen());
    if (p->getElse()) o["e"] = S(p->getElse());
    return std::move(o);
   }
   if (auto p = dyn_cast<WhileStmt>(s))
   {
    Object o{{"s", "while"}, {"l", l}};
    if (p->getConditionVariable()) o["cv"] = varDecl(p->getConditionVariable());
    o["c"] = E(p->getCond());
    o["b"] = S(p->getBody());
    return std::move(o);
   }
   if (auto p = dyn_cast<DoStmt>(s))
    return Object{{"s", "do"}, {"c", E(p->getCond())}, {"b", S(p->getBody())}, {"l", l}};
   if (auto p = dyn_cast<ForStmt>(s))
   {
    Object o{{"s", "for"}, {"l", l}};
    if (p->getInit()) o["i"] = S(p->getInit());
    if (p->getConditionVariable()) o["cv"] = varDecl(p->getConditionVariable());
    if (p->getCond()) o["c"] = E(p->getCond());
    if (p->getInc()) o["u"] = E(p->getInc());
    o["b"] = S(p->getBody());
    return std::move(o);
   }
   if (auto p = dyn_cast<CXXForRangeStmt>(s))
   {
    Object o{{"s", "rfor"}, {"l", l}};
    if (p->getInit()) o["i"] = S(p->getInit());
    o["r"] = E(p->getRangeInit());
    o["v"] = varDecl(p->getLoopVariable());
    o["b"] = S(p->getBody());
    return std::move(o);
   }
   if (auto p = dyn_cast<SwitchStmt>(s))
   {
    Object o{{"s", "switch"}, {"l", l}};
    if (p->getInit()) o["i"] = S(p->getInit());
    if (p->getConditionVariable()) o["cv"] = varDecl(p->getConditionVariable());
    o["c"] = E(p->getCond());
    o["b"] = S(p->getBody());
    o["ct"] = type(p->getCond()->IgnoreParenImpCasts()->getType());
    return std::move(o);
   }
   if (auto p = dyn_cast<CaseStmt>(s))
   {
    Object o{{"s", "case"}, {"l", l}, {"c", E(p->getLHS())}, {"b", S(p->getSubStmt())}};
    if (p->getRHS()) o["c2"] = E(p->getRHS());
    return std::move(o);
   }
   if (auto p = dyn_cast<DefaultStmt>(s))
    return Object{{"s", "default"}, {"l", l}, {"b", S(p->getSubStmt())}};
   if (auto p = dyn_cast<ReturnStmt>(s))
   {
    Object o{{"s", "ret"}, {"l", l}};
    if (p->getRetValue()) o["e"] = E(p->getRetValue());
    return std::move(o);
   }
   if (auto p = dyn_cast<CoreturnStmt>(s))
   {
    Object o{{"s", "ret"}, {"l", l}, {"co", 1}};
    if (p->getOperand()) o["e"] = E(p->getOperand());
    return std::move(o);
   }
   if (auto p = dyn_cast<CoroutineBodyStmt>(s)) return S(p->getBody());
   if (isa<BreakStmt>(s)) return Object{{"s", "break"}, {"l", l}};
   if (isa<ContinueStmt>(s)) return Object{{"s", "continue"}, {"l", l}};
   if (isa<NullStmt>(s)) return Object{{"s", "null"}};
   if (auto p = dyn_cast<CXXTryStmt>(s))
   {
    Array h;
    for (unsigned i = 0; i < p->getNumHandlers(); i++)
    {
     auto c = p->getHandler(i);
     Object ho{{"l", lineOf(c->getBeginLoc())}, {"b", S(c->getHandlerBlock())}};
     if (c->getExceptionDecl())
     {
      ho["v"] = varDecl(c->getExceptionDecl());
      ho["t"] = type(c->getCaughtType().getNonReferenceType().getUnqualifiedType());
      noteClass(classOf(c->getCaughtType()));
     }
     h.push_back(std::move(ho));
    }
    return Object{{"s", "try"}, {"b", S(p->getTryBlock())}, {"h", std::move(h)}, {"l", l}};
   }
   if (auto p = dyn_cast<LabelStmt>(s)) return Object{{"s", "label"}, {"b", S(p->getSubStmt())}, {"l", l}};
   if (isa<GotoStmt>(s)) return Object{{"s", "goto"}, {"l", l}};
   if (auto p = dyn_cast<AttributedStmt>(s)) return S(p->getSubStmt());
   if (auto p = dyn_cast<Expr>(s)) return Object{{"s", "expr"}, {"e", E(p)}, {"l", l}};
   return Object{{"s", "other"}, {"c", s->getStmtClassName()}, {"l", l}};
  }

  ////////////////////////////////////////////////////////////////////////////
  void emitFunction(const FunctionDecl *fd, const std::string &key, const std::string &parent)
  {
   if (!done_fn.insert(key).second) return;
   cur_key = key;
   Object o{{"n", qname(fd)}, {"file", fileOf(fd->getLocation())}, {"l", lineOf(fd->getLocation())}, {"t", type(fd->getReturnType())}};
   o["el"] = lineOf(fd->getEndLoc());
   if (!parent.empty()) o["parent"] = parent;
   Array ps;
   for (auto p: fd->parameters())
   {
    Object po{{"n", p->getNameAsString()}, {"id", varId(p)}, {"t", type(p->getType())}};
    if (p->getType()->isReferenceType()) po["ref"] = 1;
    std::string d = dtorKey(p->getType());
    if (!d.empty()) po["d"] = d;
    ps.push_back(std::move(po));
   }
   o["ps"] = std::move(ps);
   o["pk"] = paramKinds(fd);
   if (noexceptOf(fd)) o["nx"] = 1;
   if (auto ta = fd->getTemplateSpecializationArgs())
   {
    std::string s;
    llvm::raw_string_ostream os(s);
    for (auto &a: ta->asArray()) { a.print(PP, os, true); os << ";"; }
    o["ta"] = s;
   }
   if (auto m = dyn_cast<CXXMethodDecl>(fd))
   {
    o["cls"] = parent.empty() ? cname(m->getParent()) : std::string("lambda");
    if (!m->getParent()->isLambda()) o["cq"] = qname(m->getParent());
    if (m->isConst()) o["cm"] = 1;
    if (m->isStatic()) o["st"] = 1;
    if (m->isVirtual()) o["virt"] = 1;
    o["acc"] = (int)m->getAccess();
    Array ov;
    for (auto x: m->overridden_methods()) ov.push_back(fkey(x));
    if (!ov.empty()) o["ov"] = std::move(ov);
    noteClass(m->getParent());
    if (m->isImplicit() || m->isDefaulted()) o["imp"] = 1;
   }
   if (fd->isTemplateInstantiation()) o["inst"] = 1;
   if (auto cd = dyn_cast<CXXConstructorDecl>(fd))
   {
    o["kind"] = "ctor";
    Array in;
    for (auto i: cd->inits())
    {
     Object io{{"l", lineOf(i->getSourceLocation())}};
     if (i->isAnyMemberInitializer())
     {
      auto f = i->getAnyMember();
      io["m"] = qname(f->getParent()) + "::" + f->getNameAsString();
      io["mt"] = type(f->getType());
      if (f->getType()->isReferenceType()) io["ref"] = 1;
     }
     else if (i->isBaseInitializer())
     {
      io["b"] = cname(i->getBaseClass()->getAsCXXRecordDecl());
     }
     else if (i->isDelegatingInitializer()) io["dlg"] = 1;
     if (i->isWritten()) io["w"] = 1;
     io["e"] = E(i->getInit());
     in.push_back(std::move(io));
    }
    o["in"] = std::move(in);
   }
   else if (isa<CXXDestructorDecl>(fd)) o["kind"] = "dtor";
   if (fd->hasBody())
   {
    const Stmt *b = fd->getBody();
    if (isa<CoroutineBodyStmt>(b)) o["coro"] = 1;
    o["body"] = S(b);
   }
   functions[key] = std::move(o);
   drain();
  }

  void drain()
  {
   while (!pending_lambdas.empty())
   {
    auto p = pending_lambdas.back();
    pending_lambdas.pop_back();
    std::string k = lambdaKey(p->getLambdaClass());
    std::string parent;
    const DeclContext *dc = p->getLambdaClass()->getDeclContext();
    while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
    if (dc) parent = fkey(cast<FunctionDecl>(dc));
    if (p->getCallOperator() && !p->getCallOperator()->isDependentContext())
     emitFunction(p->getCallOperator(), k, parent.empty() ? "G" : parent);
    else if (p->isGenericLambda())
    {
     auto t = p->getLambdaClass()->getDependentLambdaCallOperator();
     if (t)
      for (auto s: t->specializations())
      {
       if (s->hasBody()) emitFunction(s, k, parent.empty() ? "G" : parent);
      }
    }
   }
   while (!pending_classes.empty())
   {
    auto r = pending_classes.back();
    pending_classes.pop_back();
    emitClass(r);
   }
  }

  void noteGlobal(const VarDecl *v)
  {
   std::string n = qname(v);
   const VarDecl *d = v->getDefinition(C);
   if (!d) d = v;
   if (globals.find(n) != globals.end()) return;
   if (!inRoots(d->getLocation())) return;
   globals[n] = Object{}; // placeholder against recursion
   Object o{{"t", type(d->getType())}, {"file", fileOf(d->getLocation())}, {"l", lineOf(d->getLocation())}};
   const Expr *init = d->getAnyInitializer();
   if (init && !init->isValueDependent()) { o["e"] = E(init); }
   if (d->isConstexpr() || d->getType().isConstQualified()) o["const"] = 1;
   globals[n] = std::move(o);
  }

  void emitClass(const CXXRecordDecl *r)
  {
   if (!r || r->isDependentContext() || r->isLambda()) return;
   r = r->getDefinition();
   if (!r) return;
   std::string n = cname(r);
   if (!done_cls.insert(n).second) return;
   Object o{{"q", qname(r)}};
   o["file"] = fileOf(r->getLocation());
   o["l"] = lineOf(r->getLocation());
   bool in = inRoots(r->getLocation());
   Array bases;
   for (auto &b: r->bases())
   {
    auto br = b.getType()->getAsCXXRecordDecl();
    if (!br) continue;
    Object bo{{"n", cname(br)}, {"q", qname(br)}};
    if (b.isVirtual()) bo["v"] = 1;
    bases.push_back(std::move(bo));
    pending_classes.push_back(br);
   }
   o["bases"] = std::move(bases);
   if (in)
   {
    Array fs;
    for (auto f: r->fields())
    {
     Object fo{{"n", f->getNameAsString()}, {"t", type(f->getType())}, {"acc", (int)f->getAccess()}, {"l", lineOf(f->getLocation())}};
     if (f->getType()->isReferenceType()) fo["ref"] = 1;
     if (f->isMutable()) fo["mut"] = 1;
     std::string d = dtorKey(f->getType());
     if (!d.empty()) fo["d"] = d;
     if (f->hasInClassInitializer() && f->getInClassInitializer() && !f->getInClassInitializer()->isValueDependent())
     {
      cur_key = "class " + n;
      fo["e"] = E(f->getInClassInitializer());
     }
     fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    Array ms;
    for (auto m: r->methods())
    {
     if (m->isImplicit() && !isa<CXXDestructorDecl>(m)) continue;
     Object mo{{"n", m->getNameAsString()}, {"f", fkey(m)}, {"acc", (int)m->getAccess()}, {"pk", paramKinds(m)}, {"t", type(m->getType())}, {"l", lineOf(m->getLocation())}};
     if (m->isVirtual()) mo["virt"] = 1;
     if (m->isPureVirtual()) mo["pure"] = 1;
     if (m->isConst()) mo["cm"] = 1;
     if (m->isStatic()) mo["st"] = 1;
     if (m->isDeleted()) mo["del"] = 1;
     if (m->isDefaulted()) mo["def"] = 1;
     if (noexceptOf(m)) mo["nx"] = 1;
     if (isa<CXXConstructorDecl>(m)) { mo["kind"] = "ctor"; if (cast<CXXConstructorDecl>(m)->isCopyConstructor()) mo["cp"] = 1; if (cast<CXXConstructorDecl>(m)->isMoveConstructor()) mo["cp"] = 2;}
     if (isa<CXXDestructorDecl>(m)) mo["kind"] = "dtor";
     Array ov;
     for (auto x: m->overridden_methods()) ov.push_back(fkey(x));
     if (!ov.empty()) mo["ov"] = std::move(ov);
     Array pn;
     for (auto q: m->parameters()) pn.push_back(Object{{"n", q->getNameAsString()}, {"t", type(q->getType())}});
     mo["ps"] = std::move(pn);
     ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    if (r->isAbstract()) o["abs"] = 1;
    o["size"] = (int64_t)C.getTypeSizeInChars(C.getTypeDeclType(r)).getQuantity();
    auto &lay = C.getASTRecordLayout(r);
    Array offs;
    for (unsigned i = 0; i < lay.getFieldCount(); i++) offs.push_back((int64_t)lay.getFieldOffset(i) / 8);
    o["offs"] = std::move(offs);
   }
   if (auto d = r->getDestructor())
   {
    o["dtor"] = fkey(d);
    if (noexceptOf(d)) o["dnx"] = 1;
    if (d->isVirtual()) o["dvirt"] = 1;
   }
   classes[n] = std::move(o);
  }

  ////////////////////////////////////////////////////////////////////////////
  bool VisitFunctionDecl(FunctionDecl *fd)
  {
   if (fd->isDependentContext()) return true;
   if (!fd->doesThisDeclarationHaveABody() && !fd->isTemplateInstantiation())
   {
    return true;
   }
   if (!fd->isThisDeclarationADefinition()) return true;
   if (fd->isDeleted()) return true;
   if (auto m = dyn_cast<CXXMethodDecl>(fd)) if (m->getParent()->isLambda()) return true;
   if (fd->isImplicit() && !isa<CXXConstructorDecl>(fd) && !isa<CXXDestructorDecl>(fd)) return true;
   if (fd->isDefaulted() && !fd->hasBody()) return true;
   if (!inRoots(fd->getLocation())) return true;
   std::string key = fkey(fd);
   emitFunction(fd, key, "");
   return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *r)
  {
   if (!r->isThisDeclarationADefinition()) return true;
   if (!inRoots(r->getLocation())) return true;
   pending_classes.push_back(r);
   drain();
   return true;
  }

  bool VisitEnumDecl(EnumDecl *d)
  {
   if (!d->isThisDeclarationADefinition() || d->isDependentContext()) return true;
   if (!inRoots(d->getLocation())) return true;
   std::string n = qname(d);
   if (!done_enum.insert(n).second) return true;
   Object o{{"file", fileOf(d->getLocation())}, {"l", lineOf(d->getLocation())}, {"u", type(d->getIntegerType())}};
   Array items;
   for (auto x: d->enumerators())
    items.push_back(Array{x->getNameAsString(), i64(x->getInitVal())});
   o["items"] = std::move(items);
   enums[n] = std::move(o);
   return true;
  }

  bool VisitVarDecl(VarDecl *v)
  {
   if (v->hasGlobalStorage() && !v->isStaticLocal() && !v->getDeclContext()->isDependentContext() && inRoots(v->getLocation()))
   {
    noteGlobal(v);
    drain();
   }
   return true;
  }
 };

 struct Consumer: ASTConsumer
 {
  CompilerInstance &CI;
  Consumer(CompilerInstance &CI): CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override
  {
   Extractor X(C);
   X.TraverseDecl(C.getTranslationUnitDecl());
   X.drain();

   Object out;
   out["functions"] = std::move(X.functions);
   out["classes"] = std::move(X.classes);
   out["enums"] = std::move(X.enums);
   out["globals"] = std::move(X.globals);
   Array deps;
   auto &SM = C.getSourceManager();
   for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it)
    deps.push_back(it->first.getName().str());
   out["deps"] = std::move(deps);
   out["errors"] = (int64_t)CI.getDiagnostics().getClient()->getNumErrors();
   std::error_code ec;
   llvm::raw_fd_ostream os(out_path, ec);
   os << Value(std::move(out));
  }
 };

 struct Action: ASTFrontendAction
 {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override
  {
   return std::make_unique<Consumer>(CI);
  }
 };
}

int main(int argc, const char **argv)
{
 if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
 std::string r = argv[1];
 size_t i = 0;
 while (i <= r.size())
 {
  size_t j = r.find(':', i);
  if (j == std::string::npos) j = r.size();
  if (j > i) roots.push_back(r.substr(i, j - i));
  i = j + 1;
 }
 out_path = argv[2];
 std::string file = argv[3];
 std::vector<std::string> args;
 args.push_back("/usr/lib/llvm-18/bin/clang++");
 for (int k = 5; k < argc; k++) args.push_back(argv[k]);
 args.push_back("-fsyntax-only");
 args.push_back(file);
 llvm::IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
 tooling::ToolInvocation inv(args, std::make_unique<Action>(), fm.get());
 return inv.run() ? 0 : 1;
}
