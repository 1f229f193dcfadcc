// Dumps the resolved program of one translation unit as JSON: functions with
// their typed syntax trees, classes, enums and globals, as far as they are
// defined below a given source root.
#include <map>
#include <set>
#include <string>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace J = llvm::json;

static std::string gRoot;
static std::string gOut;
static std::string gTu;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
 public:
  explicit Dumper(ASTContext& c)
      : ctx_(c), sm_(c.getSourceManager()), pol_(c.getPrintingPolicy()) {
    pol_.SuppressTagKeyword = true;
    pol_.Bool = true;
    pol_.SuppressUnwrittenScope = true;
    pol_.FullyQualifiedName = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  bool inRoot(SourceLocation l) {
    if (l.isInvalid()) return false;
    l = sm_.getExpansionLoc(l);
    auto f = sm_.getFilename(l);
    return f.starts_with(gRoot);
  }

  std::string loc(SourceLocation l) {
    if (l.isInvalid()) return "";
    l = sm_.getExpansionLoc(l);
    std::string f = sm_.getFilename(l).str();
    if (f.rfind(gRoot, 0) == 0) f = f.substr(gRoot.size());
    else return "";
    return f + ":" + std::to_string(sm_.getExpansionLineNumber(l));
  }

  int type(QualType q) {
    if (q.isNull()) return -1;
    std::string s = q.getCanonicalType().getAsString(pol_);
    auto it = types_.find(s);
    if (it != types_.end()) return it->second;
    int n = static_cast<int>(typeList_.size());
    typeList_.push_back(s);
    types_[s] = n;
    return n;
  }

  std::string usr(const Decl* d) {
    llvm::SmallString<256> b;
    if (!index::generateUSRForDecl(d, b) && !b.empty()) return std::string(b.str());
    return "L" + localId(d);
  }

  std::string localId(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = ids_.find(d);
    if (it != ids_.end()) return it->second;
    std::string s = gTu + "#" + std::to_string(ids_.size());
    ids_[d] = s;
    return s;
  }

  std::string varId(const VarDecl* v) {
    if (v->hasGlobalStorage() && !v->isStaticLocal()) return "G:" + v->getQualifiedNameAsString();
    return localId(v);
  }

  const FunctionDecl* normFn(const FunctionDecl* f) {
    // For generic lambda call operators etc. keep the specialisation.
    return f;
  }

  J::Object fnRef(const FunctionDecl* f) {
    J::Object o;
    o["q"] = f->getQualifiedNameAsString();
    o["u"] = usr(f);
    J::Array pts;
    for (auto* p : f->parameters()) pts.push_back(type(p->getType()));
    o["pt"] = std::move(pts);
    o["rt"] = type(f->getReturnType());
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["m"] = true;
      if (m->isConst()) o["const"] = true;
      if (m->isStatic()) o["static"] = true;
      if (m->isVirtual()) o["virt"] = true;
      o["cls"] = m->getParent()->getQualifiedNameAsString();
      if (m->getParent()->isLambda()) o["lambdacall"] = true;
    }
    if (f->isNoReturn()) o["noret"] = true;
    const FunctionDecl* def = nullptr;
    if (f->hasBody(def) && def && inRoot(def->getLocation())) o["repo"] = true;
    else if (inRoot(f->getLocation())) o["repo"] = true;
    if (f->isDefaulted()) o["defaulted"] = true;
    if (f->isImplicit()) o["implicit"] = true;
    return o;
  }

  static const char* fixLitKind(CharacterLiteralKind) { return "char"; }

  J::Value expr(const Stmt* s) { return node(s); }

  J::Value node(const Stmt* s) {
    if (!s) return nullptr;
    // Strip wrappers that carry no meaning for us.
    if (auto* e = dyn_cast<ParenExpr>(s)) return node(e->getSubExpr());
    if (auto* e = dyn_cast<ExprWithCleanups>(s)) return node(e->getSubExpr());
    if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) return node(e->getSubExpr());
    if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return node(e->getReplacement());
    if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) return node(e->getExpr());
    if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) return node(e->getExpr());
    if (auto* e = dyn_cast<OpaqueValueExpr>(s)) return node(e->getSourceExpr());
    if (auto* e = dyn_cast<CXXRewrittenBinaryOperator>(s)) return node(e->getSemanticForm());
    if (auto* a = dyn_cast<AttributedStmt>(s)) return node(a->getSubStmt());

    J::Object o;
    if (auto* e = dyn_cast<ConstantExpr>(s)) return node(e->getSubExpr());
    o["k"] = s->getStmtClassName();
    o["l"] = loc(s->getBeginLoc());
    if (auto* e = dyn_cast<Expr>(s)) {
      o["t"] = type(e->getType());
      if (e->isGLValue()) o["lv"] = e->isXValue() ? 2 : 1;
      if (!e->isValueDependent() && !e->isGLValue() &&
          (e->getType()->isIntegralOrEnumerationType())) {
        Expr::EvalResult r;
        if (!isa<CallExpr>(e) || true) {
          if (e->EvaluateAsRValue(r, ctx_, true) && r.Val.isInt() && !r.HasSideEffects) {
            llvm::SmallString<32> sb;
            r.Val.getInt().toString(sb, 10);
            o["v"] = std::string(sb.str());
          }
        }
      }
    }
    auto kids = [&](std::initializer_list<const Stmt*> l) {
      J::Array a;
      for (auto* x : l) a.push_back(node(x));
      o["c"] = std::move(a);
    };

    if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) {
      kids({e->getSubExpr()});
    } else if (auto* e = dyn_cast<DeclRefExpr>(s)) {
      const ValueDecl* d = e->getDecl();
      o["n"] = d->getNameAsString();
      if (auto* v = dyn_cast<VarDecl>(d)) {
        o["d"] = varId(v);
        o["dk"] = isa<ParmVarDecl>(v) ? "parm" : (v->hasGlobalStorage() ? "global" : "var");
        o["q"] = v->getQualifiedNameAsString();
        o["dt"] = type(v->getType());
        if (v->hasGlobalStorage()) wantGlobal(v);
      } else if (auto* f = dyn_cast<FunctionDecl>(d)) {
        o["dk"] = "func";
        o["fn"] = fnRef(f);
      } else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["dk"] = "enum";
        o["q"] = ec->getQualifiedNameAsString();
      } else if (auto* b = dyn_cast<BindingDecl>(d)) {
        o["dk"] = "binding";
        o["d"] = localId(b);
      } else {
        o["dk"] = "other";
        o["q"] = d->getQualifiedNameAsString();
      }
    } else if (auto* e = dyn_cast<MemberExpr>(s)) {
      o["n"] = e->getMemberDecl()->getNameAsString();
      o["q"] = e->getMemberDecl()->getQualifiedNameAsString();
      if (e->isArrow()) o["arrow"] = true;
      if (auto* f = dyn_cast<FunctionDecl>(e->getMemberDecl())) {
        o["method"] = true;
        o["fn"] = fnRef(f);
      }
      if (auto* v = dyn_cast<VarDecl>(e->getMemberDecl())) {
        o["d"] = varId(v);
        wantGlobal(v);
      }
      kids({e->getBase()});
    } else if (auto* e = dyn_cast<CallExpr>(s)) {
      if (const FunctionDecl* f = e->getDirectCallee()) o["fn"] = fnRef(f);
      if (isa<CXXOperatorCallExpr>(e)) {
        o["op"] = getOperatorSpelling(cast<CXXOperatorCallExpr>(e)->getOperator());
        J::Array a;
        for (auto* x : e->arguments()) a.push_back(node(x));
        o["args"] = std::move(a);
        o["callee"] = nullptr;
      } else if (auto* mc = dyn_cast<CXXMemberCallExpr>(e)) {
        const Expr* obj = mc->getImplicitObjectArgument();
        o["obj"] = node(obj);
        const Expr* cal = mc->getCallee()->IgnoreParens();
        if (auto* me = dyn_cast<MemberExpr>(cal)) {
          if (me->isArrow()) o["arrow"] = true;
          if (me->hasQualifier()) o["qual"] = true;
        }
        J::Array a;
        for (auto* x : e->arguments()) a.push_back(node(x));
        o["args"] = std::move(a);
      } else {
        if (!e->getDirectCallee()) o["callee"] = node(e->getCallee());
        J::Array a;
        for (auto* x : e->arguments()) a.push_back(node(x));
        o["args"] = std::move(a);
      }
    } else if (auto* e = dyn_cast<CXXConstructExpr>(s)) {
      o["fn"] = fnRef(e->getConstructor());
      if (e->getConstructor()->isCopyOrMoveConstructor())
        o["cm"] = e->getConstructor()->isMoveConstructor() ? "move" : "copy";
      if (e->isElidable()) o["elid"] = true;
      if (e->isListInitialization()) o["list"] = true;
      if (e->isStdInitListInitialization()) o["stdlist"] = true;
      J::Array a;
      for (auto* x : e->arguments()) a.push_back(node(x));
      o["args"] = std::move(a);
    } else if (auto* e = dyn_cast<CXXInheritedCtorInitExpr>(s)) {
      o["fn"] = fnRef(e->getConstructor());
      o["args"] = J::Array();
    } else if (auto* e = dyn_cast<CXXNewExpr>(s)) {
      o["at"] = type(e->getAllocatedType());
      kids({e->getInitializer(), e->isArray() && e->getArraySize() ? *e->getArraySize() : nullptr});
      if (e->isArray()) o["array"] = true;
    } else if (auto* e = dyn_cast<CXXDeleteExpr>(s)) {
      kids({e->getArgument()});
    } else if (auto* e = dyn_cast<CXXThisExpr>(s)) {
      (void)e;
    } else if (auto* e = dyn_cast<CastExpr>(s)) {
      o["ck"] = e->getCastKindName();
      if (isa<CXXDynamicCastExpr>(e)) o["dyn"] = true;
      kids({e->getSubExpr()});
    } else if (auto* e = dyn_cast<IntegerLiteral>(s)) {
      (void)e;
    } else if (auto* e = dyn_cast<CharacterLiteral>(s)) {
      (void)e;
    } else if (auto* e = dyn_cast<FloatingLiteral>(s)) {
      o["f"] = e->getValueAsApproximateDouble();
    } else if (auto* e = dyn_cast<StringLiteral>(s)) {
      if (e->getCharByteWidth() == 1) {
        std::string b = e->getBytes().str();
        if (llvm::json::isUTF8(b)) o["s"] = b;
        else {
          J::Array a;
          for (unsigned char c : b) a.push_back(static_cast<int>(c));
          o["sb"] = std::move(a);
        }
      }
    } else if (auto* e = dyn_cast<UnaryOperator>(s)) {
      o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode());
      if (e->isPostfix()) o["post"] = true;
      kids({e->getSubExpr()});
    } else if (auto* e = dyn_cast<BinaryOperator>(s)) {
      o["op"] = e->getOpcodeStr();
      if (auto* ca = dyn_cast<CompoundAssignOperator>(e)) o["ct"] = type(ca->getComputationResultType());
      kids({e->getLHS(), e->getRHS()});
    } else if (auto* e = dyn_cast<AbstractConditionalOperator>(s)) {
      o["k"] = "ConditionalOperator";
      kids({e->getCond(), e->getTrueExpr(), e->getFalseExpr()});
    } else if (auto* e = dyn_cast<ArraySubscriptExpr>(s)) {
      kids({e->getBase(), e->getIdx()});
    } else if (auto* e = dyn_cast<InitListExpr>(s)) {
      const InitListExpr* sem = e->isSemanticForm() ? e : (e->getSemanticForm() ? e->getSemanticForm() : e);
      J::Array a;
      for (auto* x : sem->inits()) a.push_back(node(x));
      o["c"] = std::move(a);
      if (auto* rd = sem->getType()->getAsCXXRecordDecl()) {
        J::Array fs;
        for (auto* f : rd->fields()) fs.push_back(f->getQualifiedNameAsString());
        o["fields"] = std::move(fs);
        o["nb"] = rd->getNumBases();
      }
    } else if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) {
      kids({e->getSubExpr()});
    } else if (auto* e = dyn_cast<LambdaExpr>(s)) {
      J::Array caps;
      auto ci = e->capture_init_begin();
      for (auto& c : e->captures()) {
        J::Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) {
          if (auto* v = dyn_cast<VarDecl>(c.getCapturedVar())) co["d"] = varId(v);
          else co["d"] = localId(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
        }
        co["ref"] = c.getCaptureKind() == LCK_ByRef;
        if (*ci) co["init"] = node(*ci);
        ++ci;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      CXXMethodDecl* op = e->getCallOperator();
      const FunctionDecl* use = op;
      if (auto* ft = op->getDescribedFunctionTemplate()) {
        for (auto* sp : ft->specializations()) {
          use = sp;
          break;
        }
      }
      if (use->isDependentContext()) o["generic"] = true;
      o["u"] = usr(use);
      o["fnkey"] = lambdaFn(use);
    } else if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
      (void)e;
    } else if (auto* e = dyn_cast<CXXScalarValueInitExpr>(s)) {
      (void)e;
    } else if (auto* e = dyn_cast<CompoundStmt>(s)) {
      J::Array a;
      for (auto* x : e->body()) a.push_back(node(x));
      o["c"] = std::move(a);
    } else if (auto* e = dyn_cast<DeclStmt>(s)) {
      J::Array a;
      for (auto* d : e->decls()) {
        if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
        else a.push_back(J::Object{{"dk", d->getDeclKindName()}});
      }
      o["decls"] = std::move(a);
    } else if (auto* e = dyn_cast<IfStmt>(s)) {
      o["init"] = node(e->getInit());
      if (e->getConditionVariable()) o["cv"] = var(e->getConditionVariable());
      if (e->isConstexpr()) o["constexpr"] = true;
      o["cond"] = node(e->getCond());
      o["then"] = node(e->getThen());
      o["else"] = node(e->getElse());
    } else if (auto* e = dyn_cast<WhileStmt>(s)) {
      if (e->getConditionVariable()) o["cv"] = var(e->getConditionVariable());
      o["cond"] = node(e->getCond());
      o["body"] = node(e->getBody());
    } else if (auto* e = dyn_cast<DoStmt>(s)) {
      o["cond"] = node(e->getCond());
      o["body"] = node(e->getBody());
    } else if (auto* e = dyn_cast<ForStmt>(s)) {
      o["init"] = node(e->getInit());
      if (e->getConditionVariable()) o["cv"] = var(e->getConditionVariable());
      o["cond"] = node(e->getCond());
      o["inc"] = node(e->getInc());
      o["body"] = node(e->getBody());
    } else if (auto* e = dyn_cast<CXXForRangeStmt>(s)) {
      o["init"] = node(e->getInit());
      o["range"] = node(e->getRangeInit());
      o["var"] = var(e->getLoopVariable());
      o["body"] = node(e->getBody());
    } else if (auto* e = dyn_cast<SwitchStmt>(s)) {
      o["init"] = node(e->getInit());
      if (e->getConditionVariable()) o["cv"] = var(e->getConditionVariable());
      o["cond"] = node(e->getCond());
      o["body"] = node(e->getBody());
      if (e->isAllEnumCasesCovered()) o["all"] = true;
    } else if (auto* e = dyn_cast<CaseStmt>(s)) {
      o["lo"] = node(e->getLHS());
      o["hi"] = node(e->getRHS());
      o["sub"] = node(e->getSubStmt());
    } else if (auto* e = dyn_cast<DefaultStmt>(s)) {
      o["sub"] = node(e->getSubStmt());
    } else if (auto* e = dyn_cast<ReturnStmt>(s)) {
      o["e"] = node(e->getRetValue());
    } else if (auto* e = dyn_cast<CXXTryStmt>(s)) {
      o["body"] = node(e->getTryBlock());
      J::Array a;
      for (unsigned i = 0; i < e->getNumHandlers(); ++i) {
        J::Object h;
        h["t"] = e->getHandler(i)->getExceptionDecl() ? type(e->getHandler(i)->getCaughtType()) : -1;
        if (e->getHandler(i)->getExceptionDecl()) h["var"] = var(e->getHandler(i)->getExceptionDecl());
        h["body"] = node(e->getHandler(i)->getHandlerBlock());
        a.push_back(std::move(h));
      }
      o["handlers"] = std::move(a);
    } else if (auto* e = dyn_cast<LabelStmt>(s)) {
      o["n"] = e->getName();
      o["sub"] = node(e->getSubStmt());
    } else if (auto* e = dyn_cast<GotoStmt>(s)) {
      o["n"] = e->getLabel()->getNameAsString();
    } else {
      J::Array a;
      for (auto* x : s->children()) a.push_back(node(x));
      o["c"] = std::move(a);
    }
    return o;
  }

  J::Value var(const VarDecl* v) {
    J::Object o;
    o["d"] = varId(v);
    o["n"] = v->getNameAsString();
    o["t"] = type(v->getType());
    o["l"] = loc(v->getLocation());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getInit()) o["init"] = node(v->getInit());
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      J::Array b;
      for (auto* x : dd->bindings()) {
        J::Object bo;
        bo["d"] = localId(x);
        bo["n"] = x->getNameAsString();
        if (x->getHoldingVar()) bo["hv"] = var(x->getHoldingVar());
        else if (x->getBinding()) bo["e"] = node(x->getBinding());
        b.push_back(std::move(bo));
      }
      o["bindings"] = std::move(b);
    }
    return o;
  }

  void wantGlobal(const VarDecl* v) {
    if (v->isStaticLocal()) return;
    std::string id = varId(v);
    if (globals_.count(id)) return;
    globals_.insert(id);
    const VarDecl* def = v->getInitializingDeclaration();
    if (!def) def = v;
    J::Object o;
    o["d"] = id;
    o["q"] = v->getQualifiedNameAsString();
    o["t"] = type(v->getType());
    o["const"] = v->getType().isConstQualified() || v->isConstexpr();
    o["l"] = loc(def->getLocation());
    if (inRoot(def->getLocation()) && def->getInit() && !def->getInit()->isValueDependent()) o["init"] = node(def->getInit());
    globalOut_.push_back(std::move(o));
  }

  std::string lambdaFn(const FunctionDecl* f) {
    // Lambdas are not unique by USR across functions in all cases: use local id.
    std::string key = "LAM:" + localId(f);
    if (done_.insert(key).second && f->getBody() && !f->isDependentContext()) emit(f, key);
    return key;
  }

  void emit(const FunctionDecl* f, const std::string& key) {
    J::Object o = fnRef(f);
    o["key"] = key;
    o["n"] = f->getNameAsString();
    o["l"] = loc(f->getLocation());
    o["tu"] = gTu;
    o["endl"] = loc(f->getBody()->getEndLoc());
    if (f->isInAnonymousNamespace() || f->getStorageClass() == SC_Static) o["local"] = true;
    o["acc"] = f->getAccess() == AS_private ? "private" : (f->getAccess() == AS_protected ? "protected" : "public");
    J::Array ps;
    for (auto* p : f->parameters()) {
      J::Object po;
      po["d"] = localId(p);
      po["n"] = p->getNameAsString();
      po["t"] = type(p->getType());
      const FunctionDecl* pd = nullptr;
      (void)pd;
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["def"] = node(p->getDefaultArg());
      else {
        for (auto* rd : f->redecls()) {
          auto idx = p->getFunctionScopeIndex();
          if (idx < rd->getNumParams()) {
            auto* q = rd->getParamDecl(idx);
            if (q->hasDefaultArg() && !q->hasUninstantiatedDefaultArg() && !q->hasUnparsedDefaultArg()) { po["def"] = node(q->getDefaultArg()); break; }
          }
        }
      }
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      J::Array ov;
      for (auto* x : m->overridden_methods()) ov.push_back(usr(x));
      o["over"] = std::move(ov);
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = true;
      if (c->isCopyOrMoveConstructor()) o["cm"] = c->isMoveConstructor() ? "move" : "copy";
      J::Array is;
      for (auto* i : c->inits()) {
        J::Object io;
        if (i->isAnyMemberInitializer()) {
          io["field"] = i->getAnyMember()->getQualifiedNameAsString();
          io["ft"] = type(i->getAnyMember()->getType());
        } else if (i->isBaseInitializer()) {
          io["base"] = type(QualType(i->getBaseClass(), 0));
        } else if (i->isDelegatingInitializer()) io["deleg"] = true;
        io["init"] = node(i->getInit());
        if (i->isWritten()) io["written"] = true;
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    o["body"] = node(f->getBody());
    fnOut_.push_back(std::move(o));
  }

  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->isThisDeclarationADefinition() || !f->getBody()) return true;
    if (f->isDependentContext() || f->isTemplated()) return true;
    if (!inRoot(f->getLocation())) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    if (f->isImplicit()) return true;
    std::string key = usr(f);
    if (f->isInAnonymousNamespace() || f->getStorageClass() == SC_Static) key = usr(f);
    if (done_.insert(key).second) emit(f, key);
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
    if (!inRoot(r->getLocation())) return true;
    J::Object o;
    o["q"] = r->getQualifiedNameAsString();
    o["l"] = loc(r->getLocation());
    o["t"] = type(ctx_.getRecordType(r));
    J::Array fs;
    for (auto* f : r->fields()) {
      J::Object fo;
      fo["n"] = f->getNameAsString();
      fo["q"] = f->getQualifiedNameAsString();
      fo["t"] = type(f->getType());
      fo["l"] = loc(f->getLocation());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = node(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    J::Array bs;
    for (auto& b : r->bases()) {
      if (auto* br = b.getType()->getAsCXXRecordDecl()) bs.push_back(br->getQualifiedNameAsString());
    }
    o["bases"] = std::move(bs);
    o["poly"] = r->isPolymorphic();
    o["abstract"] = r->isAbstract();
    J::Array ms;
    for (auto* m : r->methods()) {
      J::Object mo = fnRef(m);
      mo["n"] = m->getNameAsString();
      if (m->isPureVirtual()) mo["pure"] = true;
      if (m->isDeleted()) mo["deleted"] = true;
      if (m->isCopyAssignmentOperator()) mo["cm"] = "copyassign";
      if (m->isMoveAssignmentOperator()) mo["cm"] = "moveassign";
      if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
        mo["ctor"] = true;
        if (c->isCopyConstructor()) mo["cm"] = "copy";
        if (c->isMoveConstructor()) mo["cm"] = "move";
      }
      if (isa<CXXDestructorDecl>(m)) mo["dtor"] = true;
      mo["user"] = m->isUserProvided();
      mo["acc"] = m->getAccess() == AS_private ? "private" : (m->getAccess() == AS_protected ? "protected" : "public");
      J::Array ov;
      for (auto* x : m->overridden_methods()) ov.push_back(usr(x));
      mo["over"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    recOut_.push_back(std::move(o));
    return true;
  }

  bool VisitEnumDecl(EnumDecl* e) {
    if (!e->isThisDeclarationADefinition() || !inRoot(e->getLocation())) return true;
    J::Object o;
    o["q"] = e->getQualifiedNameAsString();
    J::Array cs;
    for (auto* c : e->enumerators()) {
      llvm::SmallString<32> sb;
      c->getInitVal().toString(sb, 10);
      cs.push_back(J::Object{{"n", c->getNameAsString()}, {"v", std::string(sb.str())}});
    }
    o["consts"] = std::move(cs);
    enumOut_.push_back(std::move(o));
    return true;
  }

  bool VisitVarDecl(VarDecl* v) {
    if (v->hasGlobalStorage() && !v->isStaticLocal() && inRoot(v->getLocation()) &&
        !v->getType()->isDependentType() && !v->getDeclContext()->isDependentContext())
      wantGlobal(v);
    return true;
  }

  void finish() {
    J::Object o;
    o["tu"] = gTu;
    o["functions"] = std::move(fnOut_);
    o["records"] = std::move(recOut_);
    o["enums"] = std::move(enumOut_);
    o["globals"] = std::move(globalOut_);
    J::Array ts;
    for (auto& t : typeList_) ts.push_back(t);
    o["types"] = std::move(ts);
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << J::Value(std::move(o));
  }

 private:
  ASTContext& ctx_;
  SourceManager& sm_;
  PrintingPolicy pol_;
  std::map<std::string, int> types_;
  std::vector<std::string> typeList_;
  std::map<const Decl*, std::string> ids_;
  std::set<std::string> done_, globals_;
  J::Array fnOut_, recOut_, enumOut_, globalOut_;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& c) override {
    if (c.getDiagnostics().hasErrorOccurred()) return;
    Dumper d(c);
    d.TraverseDecl(c.getTranslationUnitDecl());
    d.finish();
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
}  // namespace

// extract ROOT/ OUT.json FILE -- flags...
int main(int argc, const char** argv) {
  if (argc < 5) return 2;
  gRoot = argv[1];
  gOut = argv[2];
  std::string file = argv[3];
  gTu = file.rfind(gRoot, 0) == 0 ? file.substr(gRoot.size()) : file;
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
