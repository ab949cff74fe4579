// astx: mechanical extraction of function bodies from the real C++ sources.
// Prints one JSON object: {"functions":[...], "records":[...], "enums":[...]} for every function
// definition, record and enum located under the given source prefix.  Nothing of a body is
// dropped except: parentheses, temporaries' bookkeeping nodes, no-op/lvalue-to-rvalue casts.
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Object; using llvm::json::Array; using llvm::json::Value;

static std::string Prefix;
struct X {
  ASTContext &C; SourceManager &SM;
  std::map<const void*,int> ids; int next=1;
  Array functions, records, enums;
  std::set<const void*> seenRec, seenEnum;
  std::vector<const FunctionDecl*> pendingLambdas;
  X(ASTContext&c):C(c),SM(c.getSourceManager()){}
  int id(const Decl*d){ d=d->getCanonicalDecl(); auto it=ids.find(d); if(it!=ids.end())return it->second; return ids[d]=next++; }
  bool inRepo(SourceLocation l){ l=SM.getExpansionLoc(l); if(l.isInvalid())return false; auto f=SM.getFilename(l); return f.starts_with(Prefix); }
  int line(SourceLocation l){ return (int)SM.getExpansionLineNumber(l); }
  std::string ty(QualType q){
    if(q.isNull()) return "void";
    q=q.getCanonicalType();
    if(auto*r=q->getAs<ReferenceType>()) return std::string(r->getPointeeType().isConstQualified()?"cref(":"ref(")+ty(r->getPointeeType())+")";
    if(q->isBooleanType()) return "bool";
    if(auto*e=q->getAs<EnumType>()){ return "enum:"+e->getDecl()->getQualifiedNameAsString(); }
    if(q->isCharType()) return "char";
    if(q->isIntegerType()){ return std::string(q->isUnsignedIntegerType()?"u":"i")+std::to_string(C.getTypeSize(q)); }
    if(q->isFloatingType()) return "float";
    if(q->isVoidType()) return "void";
    if(q->isNullPtrType()) return "nullptr";
    if(auto*p=q->getAs<PointerType>()) return "ptr("+ty(p->getPointeeType())+")";
    if(auto*a=C.getAsConstantArrayType(q)) return "arr("+ty(a->getElementType())+","+std::to_string(a->getSize().getZExtValue())+")";
    if(q->isArrayType()) return "arr("+ty(C.getAsArrayType(q)->getElementType())+",?)";
    if(auto*r=q->getAs<RecordType>()){
      auto*d=r->getDecl();
      if(auto*s=dyn_cast<ClassTemplateSpecializationDecl>(d)){
        std::string n=s->getQualifiedNameAsString();
        if(n=="std::basic_string"||n=="std::__cxx11::basic_string") return "str";
        std::string o=n+"("; bool first=true; auto&args=s->getTemplateArgs();
        unsigned lim=args.size();
        if(n=="std::set"||n=="std::vector"||n=="std::__cxx11::list"||n=="std::list"||n=="std::unordered_set"||n=="std::multiset"||n=="std::deque") lim=1;
        if(n=="std::map"||n=="std::unordered_map") lim=2;
        for(unsigned i=0;i<lim;i++){ if(!first)o+=","; first=false; auto&a=args[i];
          if(a.getKind()==TemplateArgument::Type) o+=ty(a.getAsType());
          else if(a.getKind()==TemplateArgument::Integral) o+=llvm::toString(a.getAsIntegral(),10);
          else o+="?"; }
        return o+")";
      }
      if(auto*cr=dyn_cast<CXXRecordDecl>(d)) if(cr->isLambda()) return "lambda:"+std::to_string(id(cr->getLambdaCallOperator()));
      return "rec:"+d->getQualifiedNameAsString();
    }
    if(q->isFunctionProtoType()) return "fn";
    return "other:"+q.getAsString();
  }
  Value opt(const Stmt*s){ if(!s) return nullptr; return st(s); }
  Object mk(const char*k,const Stmt*s){ Object o; o["k"]=k; o["l"]=line(s->getBeginLoc()); return o; }
  Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r){ Array a; for(auto*x:r) a.push_back(ex(x)); return a; }
  std::string fsig(const FunctionDecl*f){
    std::string s=f->getQualifiedNameAsString()+"("; bool first=true;
    for(auto*p:f->parameters()){ if(!first)s+=","; first=false; s+=ty(p->getType()); } s+=")";
    if(auto*m=dyn_cast<CXXMethodDecl>(f)) if(m->isConst()) s+="c";
    return s;
  }
  Object callee(const FunctionDecl*f){
    Object o; o["name"]=f->getQualifiedNameAsString(); o["sig"]=fsig(f);
    o["repo"]=inRepo(f->getLocation()); o["ret"]=ty(f->getReturnType());
    Array pt; for(auto*p:f->parameters()) pt.push_back(ty(p->getType())); o["params"]=std::move(pt);
    if(auto*m=dyn_cast<CXXMethodDecl>(f)){ o["virtual"]=m->isVirtual(); o["static"]=m->isStatic(); o["cls"]=m->getParent()->getQualifiedNameAsString(); }
    return o;
  }
  Object lit(const char*k,const Expr*e,Value v){ Object o=mk(k,e); o["t"]=ty(e->getType()); o["v"]=std::move(v); return o; }
  Value ex(const Expr*e){
    // constant folding of integers / enums (macros such as S_IFMT, sizeof)
    const Expr*raw=e->IgnoreParens();
    if(!e->isValueDependent() && (e->getType()->isIntegralOrEnumerationType()) && e->isPRValue()){
      Expr::EvalResult r;
      if(e->EvaluateAsInt(r,C) && !r.HasSideEffects){
        Object o=mk("Int",e); o["t"]=ty(e->getType()); o["v"]=llvm::toString(r.Val.getInt(),10);
        if(auto*dr=dyn_cast<DeclRefExpr>(raw->IgnoreImpCasts())) o["n"]=dr->getDecl()->getNameAsString();
        return o; } }
    e=e->IgnoreParens();
    if(auto*x=dyn_cast<FullExpr>(e)) return ex(x->getSubExpr());
    if(auto*x=dyn_cast<MaterializeTemporaryExpr>(e)) return ex(x->getSubExpr());
    if(auto*x=dyn_cast<CXXBindTemporaryExpr>(e)) return ex(x->getSubExpr());
    if(auto*x=dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return ex(x->getReplacement());
    if(auto*x=dyn_cast<CXXDefaultArgExpr>(e)){ Object o=mk("DefArg",e); o["e"]=ex(x->getExpr()); return o; }
    if(auto*x=dyn_cast<CXXDefaultInitExpr>(e)) return ex(x->getExpr());
    if(auto*x=dyn_cast<CastExpr>(e)){
      auto ck=x->getCastKind();
      switch(ck){
        case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ConstructorConversion:
        case CK_UserDefinedConversion: case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr: case CK_AtomicToNonAtomic:
        case CK_ArrayToPointerDecay:
          return ex(x->getSubExpr());
        default: break;
      }
      Object o=mk("Cast",e); o["ck"]=x->getCastKindName(); o["t"]=ty(e->getType()); o["explicit"]=!isa<ImplicitCastExpr>(x); o["e"]=ex(x->getSubExpr()); return o;
    }
    if(auto*x=dyn_cast<StringLiteral>(e)){ std::string v; for(unsigned i=0;i<x->getLength();i++) v+=(char)(x->getCodeUnit(i)&0x7f); return lit("StrLit",e,v); }
    if(auto*x=dyn_cast<CharacterLiteral>(e)) return lit("Int",e,std::to_string(x->getValue()));
    if(auto*x=dyn_cast<FloatingLiteral>(e)) return lit("Float",e,x->getValueAsApproximateDouble());
    if(isa<CXXNullPtrLiteralExpr>(e)||isa<GNUNullExpr>(e)){ Object o=mk("Null",e); o["t"]=ty(e->getType()); return o; }
    if(isa<CXXThisExpr>(e)){ Object o=mk("This",e); o["t"]=ty(e->getType()); return o; }
    if(auto*x=dyn_cast<DeclRefExpr>(e)){
      auto*d=x->getDecl(); Object o=mk("Ref",e); o["t"]=ty(e->getType()); o["n"]=d->getNameAsString();
      if(auto*f=dyn_cast<FunctionDecl>(d)){ o["k"]="FnRef"; o["fn"]=callee(f); return o; }
      if(auto*v=dyn_cast<VarDecl>(d)){ o["id"]=id(v); o["global"]=v->hasGlobalStorage(); o["qn"]=v->getQualifiedNameAsString();
        if(v->hasGlobalStorage()&&inRepo(v->getLocation())){ if(auto*i=v->getAnyInitializer()) if(v->getType().isConstQualified()&&!v->isStaticLocal()) { o["init"]=ex(i);} } return o; }
      if(isa<BindingDecl>(d)){ o["k"]="Binding"; o["id"]=id(d); o["e"]=ex(cast<BindingDecl>(d)->getBinding()); return o; }
      o["k"]="Unsupported"; o["what"]="DeclRef"; return o;
    }
    if(auto*x=dyn_cast<MemberExpr>(e)){
      Object o=mk("Member",e); o["t"]=ty(e->getType()); o["n"]=x->getMemberDecl()->getNameAsString(); o["arrow"]=x->isArrow(); o["e"]=ex(x->getBase());
      if(auto*f=dyn_cast<FieldDecl>(x->getMemberDecl())) o["owner"]=f->getParent()->getQualifiedNameAsString();
      else if(auto*v=dyn_cast<VarDecl>(x->getMemberDecl())){ o["k"]="Ref"; o["id"]=id(v); o["global"]=true; o["qn"]=v->getQualifiedNameAsString(); }
      return o;
    }
    if(auto*x=dyn_cast<CXXOperatorCallExpr>(e)){
      Object o=mk("OpCall",e); o["t"]=ty(e->getType()); o["op"]=getOperatorSpelling(x->getOperator()); o["args"]=args(x->arguments());
      if(auto*f=x->getDirectCallee()) { o["fn"]=callee(f); o["method"]=isa<CXXMethodDecl>(f)&&!cast<CXXMethodDecl>(f)->isStatic(); } return o;
    }
    if(auto*x=dyn_cast<CXXMemberCallExpr>(e)){
      Object o=mk("MCall",e); o["t"]=ty(e->getType()); o["args"]=args(x->arguments());
      if(auto*ob=x->getImplicitObjectArgument()){ o["obj"]=ex(ob); o["objt"]=ty(ob->getType()); }
      if(auto*f=x->getMethodDecl()){ o["fn"]=callee(f); }
      if(auto*me=dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())){ o["arrow"]=me->isArrow(); o["qualified"]=me->hasQualifier(); }
      return o;
    }
    if(auto*x=dyn_cast<CallExpr>(e)){
      Object o=mk("Call",e); o["t"]=ty(e->getType()); o["args"]=args(x->arguments());
      if(auto*f=x->getDirectCallee()) o["fn"]=callee(f); else o["callee"]=ex(x->getCallee()); return o;
    }
    if(auto*x=dyn_cast<CXXConstructExpr>(e)){
      if(x->isElidable()&&x->getNumArgs()==1&&false) return ex(x->getArg(0));
      Object o=mk("Ctor",e); o["t"]=ty(e->getType()); Array a; for(auto*y:x->arguments()) a.push_back(ex(y)); o["args"]=std::move(a);
      o["fn"]=callee(x->getConstructor()); o["copy"]=x->getConstructor()->isCopyOrMoveConstructor(); o["list"]=x->isStdInitListInitialization();
      o["temp"]=isa<CXXTemporaryObjectExpr>(x); return o;
    }
    if(auto*x=dyn_cast<CXXInheritedCtorInitExpr>(e)){ Object o=mk("Unsupported",e); o["what"]="InheritedCtor"; return o; }
    if(auto*x=dyn_cast<CXXStdInitializerListExpr>(e)){ Object o=mk("InitListExpr",e); o["t"]=ty(e->getType()); o["e"]=ex(x->getSubExpr()); return o; }
    if(auto*x=dyn_cast<InitListExpr>(e)){ if(x->isSemanticForm()==false && x->getSemanticForm()) x=x->getSemanticForm();
      Object o=mk("InitList",e); o["t"]=ty(e->getType()); Array a; for(auto*y:x->inits()) a.push_back(ex(y)); o["args"]=std::move(a); return o; }
    if(auto*x=dyn_cast<ImplicitValueInitExpr>(e)){ Object o=mk("ZeroInit",e); o["t"]=ty(e->getType()); return o; }
    if(auto*x=dyn_cast<CXXScalarValueInitExpr>(e)){ Object o=mk("ZeroInit",e); o["t"]=ty(e->getType()); return o; }
    if(auto*x=dyn_cast<ArraySubscriptExpr>(e)){ Object o=mk("Subscript",e); o["t"]=ty(e->getType()); o["e"]=ex(x->getBase()); o["i"]=ex(x->getIdx()); return o; }
    if(auto*x=dyn_cast<BinaryOperator>(e)){ Object o=mk(x->isAssignmentOp()?(x->isCompoundAssignmentOp()?"CompAssign":"Assign"):"Bin",e);
      o["t"]=ty(e->getType()); std::string op=x->getOpcodeStr().str(); if(x->isCompoundAssignmentOp()) op=op.substr(0,op.size()-1); o["op"]=op; o["a"]=ex(x->getLHS()); o["b"]=ex(x->getRHS()); return o; }
    if(auto*x=dyn_cast<UnaryOperator>(e)){ Object o=mk("Un",e); o["t"]=ty(e->getType()); o["op"]=std::string(UnaryOperator::getOpcodeStr(x->getOpcode()))+(x->isPostfix()?"post":""); o["e"]=ex(x->getSubExpr()); return o; }
    if(auto*x=dyn_cast<ConditionalOperator>(e)){ Object o=mk("Cond",e); o["t"]=ty(e->getType()); o["c"]=ex(x->getCond()); o["a"]=ex(x->getTrueExpr()); o["b"]=ex(x->getFalseExpr()); return o; }
    if(auto*x=dyn_cast<CXXThrowExpr>(e)){ Object o=mk("Throw",e); if(x->getSubExpr()){ o["e"]=ex(x->getSubExpr()); o["tt"]=ty(x->getSubExpr()->getType()); } return o; }
    if(auto*x=dyn_cast<CXXNewExpr>(e)){ Object o=mk("New",e); o["t"]=ty(e->getType()); o["at"]=ty(x->getAllocatedType()); o["array"]=x->isArray();
      if(x->isArray()&&x->getArraySize()) o["size"]=ex(*x->getArraySize()); if(x->getInitializer()) o["init"]=ex(x->getInitializer()); return o; }
    if(auto*x=dyn_cast<CXXDeleteExpr>(e)){ Object o=mk("Delete",e); o["e"]=ex(x->getArgument()); return o; }
    if(auto*x=dyn_cast<LambdaExpr>(e)){ Object o=mk("Lambda",e); o["t"]=ty(e->getType());
      const FunctionDecl*f=x->getCallOperator();
      if(auto*t=f->getDescribedFunctionTemplate()){      // a generic lambda: the one instance that is used
        const FunctionDecl*g=nullptr; int n=0; for(auto*sp:t->specializations()) if(sp->getBody()){ g=sp; n++; }
        if(n!=1){ Object u=mk("Unsupported",e); u["what"]="generic lambda with several instances"; return u; }
        f=g; }
      pendingLambdas.push_back(f); o["fid"]=id(f);
      Array cap; auto ci=x->capture_init_begin(); for(auto&c:x->captures()){ Object co; co["this"]=c.capturesThis(); co["byref"]=c.getCaptureKind()==LCK_ByRef;
        if(c.capturesVariable()){ co["id"]=id(c.getCapturedVar()); co["n"]=c.getCapturedVar()->getNameAsString(); } if(ci!=x->capture_init_end()&&*ci) co["e"]=ex(*ci); cap.push_back(std::move(co)); ++ci; }
      o["cap"]=std::move(cap); o["fn"]=func(f); return o; }
    if(auto*x=dyn_cast<OpaqueValueExpr>(e)) { if(x->getSourceExpr()) return ex(x->getSourceExpr()); }
    if(auto*x=dyn_cast<PredefinedExpr>(e)) return lit("StrLit",e,"fn");
    if(auto*x=dyn_cast<StmtExpr>(e)){ Object o=mk("StmtExpr",e); o["t"]=ty(e->getType()); o["body"]=st(x->getSubStmt()); return o; }
    Object o=mk("Unsupported",e); o["what"]=e->getStmtClassName(); return o;
  }
  Object var(const VarDecl*v){ Object o; o["id"]=id(v); o["n"]=v->getNameAsString(); o["t"]=ty(v->getType()); o["static"]=v->isStaticLocal(); o["const"]=v->getType().isConstQualified(); o["l"]=line(v->getLocation());
    if(v->hasInit()) o["init"]=ex(v->getInit());
    if(auto*dd=dyn_cast<DecompositionDecl>(v)){ Array b; for(auto*x:dd->bindings()){ Object bo; bo["id"]=id(x); bo["n"]=x->getNameAsString(); b.push_back(std::move(bo)); } o["bindings"]=std::move(b); }
    return o; }
  Value st(const Stmt*s){
    if(auto*e=dyn_cast<Expr>(s)){ Object o=mk("Expr",s); o["e"]=ex(e); return o; }
    if(auto*x=dyn_cast<CompoundStmt>(s)){ Object o=mk("Block",s); Array a; for(auto*y:x->body()) a.push_back(st(y)); o["b"]=std::move(a); return o; }
    if(auto*x=dyn_cast<DeclStmt>(s)){ Object o=mk("Decl",s); Array a; for(auto*d:x->decls()) if(auto*v=dyn_cast<VarDecl>(d)) a.push_back(var(v)); o["v"]=std::move(a); return o; }
    if(auto*x=dyn_cast<IfStmt>(s)){ Object o=mk("If",s); if(x->getInit()) o["init"]=st(x->getInit()); if(x->getConditionVariable()) o["cv"]=var(x->getConditionVariable());
      o["c"]=ex(x->getCond()); o["a"]=opt(x->getThen()); o["b"]=opt(x->getElse()); return o; }
    if(auto*x=dyn_cast<WhileStmt>(s)){ Object o=mk("While",s); if(x->getConditionVariable()) o["cv"]=var(x->getConditionVariable()); o["c"]=ex(x->getCond()); o["b"]=st(x->getBody()); return o; }
    if(auto*x=dyn_cast<DoStmt>(s)){ Object o=mk("Do",s); o["c"]=ex(x->getCond()); o["b"]=st(x->getBody()); return o; }
    if(auto*x=dyn_cast<ForStmt>(s)){ Object o=mk("For",s); o["init"]=opt(x->getInit()); o["c"]=x->getCond()?ex(x->getCond()):Value(nullptr); o["inc"]=x->getInc()?ex(x->getInc()):Value(nullptr); o["b"]=st(x->getBody()); return o; }
    if(auto*x=dyn_cast<CXXForRangeStmt>(s)){ Object o=mk("RangeFor",s); o["v"]=var(x->getLoopVariable()); std::string rt=ty(x->getRangeInit()->getType()); o["rt"]=rt; o["r"]=ex(x->getRangeInit()); 
      o["vt"]=ty(x->getLoopVariable()->getType()); o["b"]=st(x->getBody()); return o; }
    if(auto*x=dyn_cast<ReturnStmt>(s)){ Object o=mk("Return",s); if(x->getRetValue()) o["e"]=ex(x->getRetValue()); return o; }
    if(isa<BreakStmt>(s)) return mk("Break",s);
    if(isa<ContinueStmt>(s)) return mk("Continue",s);
    if(isa<NullStmt>(s)) return mk("Nop",s);
    if(auto*x=dyn_cast<SwitchStmt>(s)){ Object o=mk("Switch",s); if(x->getInit()) o["init"]=st(x->getInit()); o["c"]=ex(x->getCond()); o["b"]=st(x->getBody()); return o; }
    if(auto*x=dyn_cast<CaseStmt>(s)){ Object o=mk("Case",s); o["v"]=ex(x->getLHS()); if(x->getRHS()) o["hi"]=ex(x->getRHS()); o["b"]=st(x->getSubStmt()); return o; }
    if(auto*x=dyn_cast<DefaultStmt>(s)){ Object o=mk("Default",s); o["b"]=st(x->getSubStmt()); return o; }
    if(auto*x=dyn_cast<CXXTryStmt>(s)){ Object o=mk("Try",s); o["b"]=st(x->getTryBlock()); Array h; for(unsigned i=0;i<x->getNumHandlers();i++){ auto*c=x->getHandler(i); Object ho; if(c->getExceptionDecl()){ ho["v"]=var(c->getExceptionDecl()); ho["t"]=ty(c->getCaughtType()); } ho["b"]=st(c->getHandlerBlock()); h.push_back(std::move(ho)); } o["h"]=std::move(h); return o; }
    if(auto*x=dyn_cast<LabelStmt>(s)){ Object o=mk("Label",s); o["n"]=x->getDecl()->getNameAsString(); o["b"]=st(x->getSubStmt()); return o; }
    if(auto*x=dyn_cast<AttributedStmt>(s)) return st(x->getSubStmt());
    Object o=mk("Unsupported",s); o["what"]=s->getStmtClassName(); return o;
  }
  Object func(const FunctionDecl*f){
    Object o=callee(f); o["id"]=id(f); o["line"]=line(f->getBeginLoc()); o["endline"]=line(f->getEndLoc()); o["file"]=SM.getFilename(SM.getExpansionLoc(f->getLocation())).str();
    Array ps; for(auto*p:f->parameters()){ Object po; po["id"]=id(p); po["n"]=p->getNameAsString(); po["t"]=ty(p->getType()); if(p->hasDefaultArg()&&!p->hasUninstantiatedDefaultArg()&&!p->hasUnparsedDefaultArg()&&p->getDefaultArg()) po["def"]=ex(p->getDefaultArg()); ps.push_back(std::move(po)); } o["ps"]=std::move(ps);
    if(auto*m=dyn_cast<CXXMethodDecl>(f)){ o["const"]=m->isConst(); Array ov; for(auto*b:m->overridden_methods()) ov.push_back(fsig(b)); o["overrides"]=std::move(ov); }
    if(auto*c=dyn_cast<CXXConstructorDecl>(f)){ o["ctor"]=true; Array in; for(auto*i:c->inits()){ Object io; if(i->isAnyMemberInitializer()) { io["field"]=i->getAnyMember()->getNameAsString(); io["owner"]=i->getAnyMember()->getParent()->getQualifiedNameAsString(); io["t"]=ty(i->getAnyMember()->getType()); } else if(i->isBaseInitializer()) io["base"]=ty(QualType(i->getBaseClass(),0)); else io["deleg"]=true; io["written"]=i->isWritten(); if(i->getInit()) io["e"]=ex(i->getInit()); in.push_back(std::move(io)); } o["inits"]=std::move(in); }
    o["dtor"]=isa<CXXDestructorDecl>(f);
    if(f->doesThisDeclarationHaveABody()) o["body"]=st(f->getBody());
    return o;
  }
  void rec(const RecordDecl*d){ d=d->getDefinition(); if(!d||!seenRec.insert(d).second) return;
    Object o; o["name"]=d->getQualifiedNameAsString(); Array fs; for(auto*f:d->fields()){ Object fo; fo["n"]=f->getNameAsString(); fo["t"]=ty(f->getType()); fo["hasinit"]=f->hasInClassInitializer(); fs.push_back(std::move(fo)); } o["fields"]=std::move(fs);
    Array bs; bool poly=false; if(auto*c=dyn_cast<CXXRecordDecl>(d)){ for(auto&b:c->bases()) bs.push_back(ty(b.getType())); poly=c->isPolymorphic(); o["hasdtor"]=c->hasUserDeclaredDestructor(); } o["bases"]=std::move(bs); o["poly"]=poly;
    records.push_back(std::move(o)); }
};
struct V: RecursiveASTVisitor<V>{ X&x; V(X&a):x(a){}
  bool shouldVisitImplicitCode()const{return false;}
  bool shouldVisitTemplateInstantiations()const{return true;}
  bool VisitFunctionDecl(FunctionDecl*f){ if(!f->doesThisDeclarationHaveABody()||f->isDependentContext()) return true; if(!x.inRepo(f->getLocation())) return true;
    if(auto*m=dyn_cast<CXXMethodDecl>(f)) if(m->getParent()->isLambda()) return true;
    x.functions.push_back(x.func(f)); return true; }
  bool VisitRecordDecl(RecordDecl*r){ if(!r->isThisDeclarationADefinition()||r->isDependentContext()) return true; if(!x.inRepo(r->getLocation())) return true; if(auto*c=dyn_cast<CXXRecordDecl>(r)) if(c->isLambda()) return true; x.rec(r); return true; }
  bool VisitEnumDecl(EnumDecl*e){ if(!x.inRepo(e->getLocation())) return true; Object o; o["name"]=e->getQualifiedNameAsString(); Object vs; for(auto*c:e->enumerators()) vs[c->getNameAsString()]=(int64_t)c->getInitVal().getExtValue(); o["values"]=std::move(vs); x.enums.push_back(std::move(o)); return true; }
};
struct Cons: ASTConsumer{ void HandleTranslationUnit(ASTContext&C)override{ if(C.getDiagnostics().hasErrorOccurred()) return; X x(C); V v(x); v.TraverseDecl(C.getTranslationUnitDecl());
  Object o; o["functions"]=std::move(x.functions); o["records"]=std::move(x.records); o["enums"]=std::move(x.enums);
  llvm::outs()<<Value(std::move(o))<<"\n"; } };
struct Act: ASTFrontendAction{ std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,StringRef)override{ return std::make_unique<Cons>(); } };
struct Fac: tooling::FrontendActionFactory{ std::unique_ptr<FrontendAction> create()override{ return std::make_unique<Act>(); } };
int main(int argc,char**argv){ if(argc<3) return 2; Prefix=argv[1]; std::string file=argv[2]; std::vector<std::string> a; for(int i=3;i<argc;i++) a.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".",a); tooling::ClangTool t(db,{file}); Fac f; return t.run(&f); }
