// astx: exports the typed AST of every function defined under a given source root as JSON.
// usage: astx ROOT OUT.json FILE -- clang args...
// What is dropped: parentheses, cleanups, temporaries' materialisation nodes, attributes, destructor calls, comments.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <deque>
using namespace clang;
using llvm::json::Object; using llvm::json::Array; using llvm::json::Value;
static std::string Root, OutFile;

struct Dumper {
  ASTContext &C; PrintingPolicy PP; SourceManager &SM;
  Array Functions, Records; Object Types, Globals; std::map<std::string,std::string> TypeIds;
  std::map<const Decl*,std::string> Ids; std::set<std::string> DoneRec, DoneFn; int NextId=0;
  std::deque<const FunctionDecl*> Queue;
  Dumper(ASTContext &C):C(C),PP(C.getLangOpts()),SM(C.getSourceManager()){PP.SuppressTagKeyword=true;PP.Bool=true;PP.SuppressUnwrittenScope=true;}
  std::string usr(const Decl*D){llvm::SmallString<256> B; if(index::generateUSRForDecl(D,B)) return "?"; return std::string(B.str());}
  std::string id(const Decl*D){auto &s=Ids[D]; if(s.empty()) s="v"+std::to_string(NextId++); return s;}
  bool inRoot(const Decl*D){ if(!D) return false; SourceLocation L=SM.getExpansionLoc(D->getLocation()); if(L.isInvalid()) return false;
    StringRef F=SM.getFilename(L); if(F.empty()) return false; return F.starts_with(Root) && !F.contains("matplotlibcpp");}
  int line(SourceLocation L){ L=SM.getExpansionLoc(L); return L.isValid()?(int)SM.getExpansionLineNumber(L):0; }
  std::string qname(const NamedDecl*D){ std::string s; llvm::raw_string_ostream os(s);
     // qualified name without template arguments
     SmallVector<const DeclContext*,8> ctx; const DeclContext*dc=D->getDeclContext();
     while(dc&&isa<NamedDecl>(dc)){ctx.push_back(dc);dc=dc->getParent();}
     for(auto it=ctx.rbegin();it!=ctx.rend();++it){ if(auto*ns=dyn_cast<NamespaceDecl>(*it)){ if(ns->isInlineNamespace()) continue; if(ns->isAnonymousNamespace()){continue;} os<<ns->getName()<<"::";}
        else if(auto*rd=dyn_cast<RecordDecl>(*it)) os<<rd->getName()<<"::";
        else if(auto*fd=dyn_cast<FunctionDecl>(*it)) os<<fd->getNameAsString()<<"::"; }
     std::string nm=D->getNameAsString(); 
     if(isa<CXXConstructorDecl>(D)){ nm=cast<CXXRecordDecl>(D->getDeclContext())->getNameAsString(); }
     os<<nm; os.flush(); return s; }
  Value type(QualType T){
    bool cst=T.getNonReferenceType().isConstQualified();
    QualType CT=T.getCanonicalType().getUnqualifiedType();
    std::string s=CT.getAsString(PP); std::string key=s+(cst?"!c":"");
    auto it=TypeIds.find(key); if(it!=TypeIds.end()) return it->second;
    std::string tid="T"+std::to_string(TypeIds.size()); TypeIds[key]=tid;
    Object o; o["s"]=s; o["const"]=cst;
    const clang::Type*t=CT.getTypePtr();
    if(auto*r=dyn_cast<ReferenceType>(t)){o["kind"]="ref"; o["rv"]=isa<RValueReferenceType>(t); o["to"]=type(r->getPointeeType());}
    else if(auto*p=dyn_cast<PointerType>(t)){o["kind"]="ptr";o["to"]=type(p->getPointeeType());}
    else if(auto*r=dyn_cast<RecordType>(t)){o["kind"]="record"; auto*rd=r->getDecl(); o["rec"]=qname(rd); o["usr"]=usr(rd);
      if(auto*cts=dyn_cast<ClassTemplateSpecializationDecl>(rd)){Array a; auto addArg=[&](const TemplateArgument&ta,auto&self)->void{ switch(ta.getKind()){case TemplateArgument::Type:a.push_back(type(ta.getAsType()));break;case TemplateArgument::Integral:a.push_back((int64_t)ta.getAsIntegral().getExtValue());break;case TemplateArgument::Pack:for(auto&x:ta.pack_elements())self(x,self);break;default:a.push_back(nullptr);} };
        for(auto&ta:cts->getTemplateArgs().asArray()) addArg(ta,addArg); o["targs"]=std::move(a);}
      if(auto*cr=dyn_cast<CXXRecordDecl>(rd)){ o["lambda"]=cr->isLambda(); if(inRoot(rd)) record(cr);} }
    else if(CT->isBooleanType())o["kind"]="bool"; else if(CT->isEnumeralType())o["kind"]="enum"; else if(CT->isIntegerType()){o["kind"]="int";o["unsigned"]=CT->isUnsignedIntegerType();o["bits"]=(int64_t)C.getTypeSize(CT);}
    else if(CT->isRealFloatingType())o["kind"]="real"; else if(CT->isVoidType())o["kind"]="void"; else if(auto*a=dyn_cast<ConstantArrayType>(t)){o["kind"]="carray";o["n"]=(int64_t)a->getSize().getZExtValue();o["to"]=type(a->getElementType());}
    else o["kind"]="other";
    Types[tid]=std::move(o); return tid; }
  void record(const CXXRecordDecl*R){ R=R->getDefinition(); if(!R||R->isDependentType()||R->isLambda()) return; std::string u=usr(R); if(!DoneRec.insert(u).second) return;
    Object o; o["usr"]=u;o["q"]=qname(R);o["poly"]=R->isPolymorphic(); Array b; for(auto&x:R->bases()) b.push_back(type(x.getType())); o["bases"]=std::move(b);
    Array f; for(auto*x:R->fields()){Object fo;fo["name"]=x->getNameAsString();fo["t"]=type(x->getType()); if(x->hasInClassInitializer()&&x->getInClassInitializer()) fo["init"]=expr(x->getInClassInitializer()); f.push_back(std::move(fo));} o["fields"]=std::move(f);
    Array m; for(auto*x:R->methods()){Object mo; mo["name"]=x->getNameAsString(); mo["usr"]=usr(x->getCanonicalDecl()); mo["virtual"]=x->isVirtual(); mo["access"]=(int)x->getAccess(); Array ov; for(auto*y:x->overridden_methods()) ov.push_back(usr(y->getCanonicalDecl())); mo["overrides"]=std::move(ov); m.push_back(std::move(mo)); } o["methods"]=std::move(m);
    Records.push_back(std::move(o)); }
  Object callee(const FunctionDecl*F){ Object o; o["q"]=qname(F); o["usr"]=usr(F->getCanonicalDecl()); o["repo"]=inRoot(F);
    if(auto*M=dyn_cast<CXXMethodDecl>(F)){o["virtual"]=M->isVirtual();o["static"]=M->isStatic();o["cls"]=qname(M->getParent()); o["const"]=M->isConst(); o["implicit"]=M->isImplicit()||M->isDefaulted();}
    if(F->isTemplateInstantiation()||F->getTemplateSpecializationArgs()){ if(auto*ta=F->getTemplateSpecializationArgs()){Array a; auto add=[&](const TemplateArgument&x,auto&self)->void{ if(x.getKind()==TemplateArgument::Type)a.push_back(type(x.getAsType())); else if(x.getKind()==TemplateArgument::Integral)a.push_back((int64_t)x.getAsIntegral().getExtValue()); else if(x.getKind()==TemplateArgument::Pack){for(auto&y:x.pack_elements())self(y,self);} else a.push_back(nullptr);}; for(auto&x:ta->asArray()) add(x,add); o["targs"]=std::move(a);} }
    Array p; for(auto*x:F->parameters()) p.push_back(type(x->getType())); o["params"]=std::move(p);
    const FunctionDecl*Def=nullptr; if(F->isDefined(Def)&&Def&&inRoot(Def)) Queue.push_back(Def);
    return o; }
  Value varDecl(const VarDecl*V){ Object o; o["k"]="var";o["id"]=id(V);o["name"]=V->getNameAsString();o["t"]=type(V->getType());o["line"]=line(V->getLocation()); o["static"]=V->isStaticLocal();
     if(V->hasInit()) o["init"]=expr(V->getInit());
     if(auto*D=dyn_cast<DecompositionDecl>(V)){Array a; for(auto*b:D->bindings()){Object bo;bo["id"]=id(b);bo["name"]=b->getNameAsString(); if(b->getHoldingVar()) bo["holding"]=varDecl(b->getHoldingVar()); else if(b->getBinding()) bo["e"]=expr(b->getBinding()); a.push_back(std::move(bo));} o["bindings"]=std::move(a);}
     return o; }
  Value stmt(const Stmt*S){ if(!S) return nullptr; Object o; o["line"]=line(S->getBeginLoc());
    if(auto*x=dyn_cast<CompoundStmt>(S)){o["k"]="block";Array a;for(auto*c:x->body())a.push_back(stmt(c));o["c"]=std::move(a);}
    else if(auto*x=dyn_cast<DeclStmt>(S)){o["k"]="decl";Array a;for(auto*d:x->decls()){ if(auto*v=dyn_cast<VarDecl>(d))a.push_back(varDecl(v)); else if(isa<TypeDecl>(d)||isa<UsingDecl>(d)||isa<UsingDirectiveDecl>(d)||isa<StaticAssertDecl>(d)){} else {Object e;e["k"]="unsupported";e["what"]=d->getDeclKindName();a.push_back(std::move(e));}}o["c"]=std::move(a);}
    else if(auto*x=dyn_cast<IfStmt>(S)){o["k"]="if"; if(x->getInit())o["init"]=stmt(x->getInit()); if(x->getConditionVariable())o["cvar"]=varDecl(x->getConditionVariable()); o["cond"]=expr(x->getCond());o["then"]=stmt(x->getThen());o["else"]=stmt(x->getElse());}
    else if(auto*x=dyn_cast<ForStmt>(S)){o["k"]="for";o["init"]=stmt(x->getInit());o["cond"]=x->getCond()?expr(x->getCond()):Value(nullptr);o["inc"]=x->getInc()?expr(x->getInc()):Value(nullptr);o["body"]=stmt(x->getBody());}
    else if(auto*x=dyn_cast<WhileStmt>(S)){o["k"]="while";o["cond"]=expr(x->getCond());o["body"]=stmt(x->getBody());}
    else if(auto*x=dyn_cast<DoStmt>(S)){o["k"]="do";o["cond"]=expr(x->getCond());o["body"]=stmt(x->getBody());}
    else if(auto*x=dyn_cast<CXXForRangeStmt>(S)){o["k"]="rfor";o["var"]=varDecl(x->getLoopVariable());o["range"]=expr(x->getRangeInit());o["body"]=stmt(x->getBody());
       if(auto*v=dyn_cast<VarDecl>(x->getLoopVariable())){o["byref"]=v->getType()->isReferenceType();}}
    else if(auto*x=dyn_cast<ReturnStmt>(S)){o["k"]="return";o["e"]=x->getRetValue()?expr(x->getRetValue()):Value(nullptr);}
    else if(isa<BreakStmt>(S))o["k"]="break"; else if(isa<ContinueStmt>(S))o["k"]="continue"; else if(isa<NullStmt>(S))o["k"]="null";
    else if(auto*x=dyn_cast<SwitchStmt>(S)){o["k"]="switch";o["cond"]=expr(x->getCond());o["body"]=stmt(x->getBody());}
    else if(auto*x=dyn_cast<CaseStmt>(S)){o["k"]="case";o["v"]=expr(x->getLHS());o["c"]=stmt(x->getSubStmt());}
    else if(auto*x=dyn_cast<DefaultStmt>(S)){o["k"]="default";o["c"]=stmt(x->getSubStmt());}
    else if(auto*x=dyn_cast<CXXTryStmt>(S)){o["k"]="try";o["body"]=stmt(x->getTryBlock());Array a;for(unsigned i=0;i<x->getNumHandlers();++i){Object h;auto*hh=x->getHandler(i);h["t"]=hh->getExceptionDecl()?type(hh->getExceptionDecl()->getType()):Value(nullptr); if(hh->getExceptionDecl())h["id"]=id(hh->getExceptionDecl());h["body"]=stmt(hh->getHandlerBlock());a.push_back(std::move(h));}o["handlers"]=std::move(a);}
    else if(auto*x=dyn_cast<AttributedStmt>(S)) return stmt(x->getSubStmt());
    else if(auto*x=dyn_cast<Expr>(S)){o["k"]="expr";o["e"]=expr(x);}
    else {o["k"]="unsupported";o["what"]=S->getStmtClassName();}
    return o; }
  Value expr(const Expr*E){
    if(!E) return nullptr;
    if(auto*x=dyn_cast<ParenExpr>(E)) return expr(x->getSubExpr());
    if(auto*x=dyn_cast<FullExpr>(E)){ return expr(x->getSubExpr()); }
    if(auto*x=dyn_cast<MaterializeTemporaryExpr>(E)) return expr(x->getSubExpr());
    if(auto*x=dyn_cast<CXXBindTemporaryExpr>(E)) return expr(x->getSubExpr());
    if(auto*x=dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(x->getReplacement());
    if(auto*x=dyn_cast<CXXDefaultArgExpr>(E)) return expr(x->getExpr());
    if(auto*x=dyn_cast<CXXDefaultInitExpr>(E)) return expr(x->getExpr());
    if(auto*x=dyn_cast<CXXStdInitializerListExpr>(E)) return expr(x->getSubExpr());
    Object o; o["t"]=type(E->getType()); if(E->isLValue()) o["lv"]=true; 
    auto args=[&](auto range){Array a;for(auto*c:range)a.push_back(expr(c));return a;};
    if(auto*x=dyn_cast<IntegerLiteral>(E)){o["k"]="int";o["v"]=llvm::toString(x->getValue(),10,true);}
    else if(auto*x=dyn_cast<FloatingLiteral>(E)){o["k"]="real"; double d=x->getValueAsApproximateDouble(); char b[64]; snprintf(b,64,"%.17g",d); o["v"]=std::string(b);
       // exact spelling, so that 0.05 is read as the decimal number
       SmallString<32> tok; bool inv=false; StringRef sp=Lexer::getSpelling(SM.getSpellingLoc(x->getLocation()),tok,SM,C.getLangOpts(),&inv); if(!inv) o["sp"]=sp.str(); }
    else if(auto*x=dyn_cast<CXXBoolLiteralExpr>(E)){o["k"]="bool";o["v"]=x->getValue();}
    else if(auto*x=dyn_cast<clang::StringLiteral>(E)){o["k"]="str";o["v"]=x->getBytes().str();}
    else if(auto*x=dyn_cast<CharacterLiteral>(E)){o["k"]="int";o["v"]=std::to_string(x->getValue());}
    else if(isa<CXXNullPtrLiteralExpr>(E)||isa<GNUNullExpr>(E)){o["k"]="null";}
    else if(isa<CXXThisExpr>(E)){o["k"]="this";}
    else if(auto*x=dyn_cast<DeclRefExpr>(E)){ auto*D=x->getDecl();
       if(auto*ec=dyn_cast<EnumConstantDecl>(D)){o["k"]="int";o["v"]=llvm::toString(ec->getInitVal(),10);}
       else if(auto*f=dyn_cast<FunctionDecl>(D)){o["k"]="fref";o["f"]=callee(f);}
       else if(auto*v=dyn_cast<VarDecl>(D)){ o["k"]="ref";o["id"]=id(v);o["name"]=v->getNameAsString();
          if(v->hasGlobalStorage()&&!v->isStaticLocal()){ o["global"]=qname(v); const VarDecl*def=nullptr; if(v->getAnyInitializer(def)&&def&&inRoot(def)&&!Globals.get(id(v))){ std::string vid=id(v); Object g; g["q"]=qname(v); g["t"]=type(v->getType()); Globals[vid]=std::move(g); Value iv=expr(def->getInit()); Object g2; g2["q"]=qname(v); g2["t"]=type(v->getType()); g2["const"]=v->getType().isConstQualified(); g2["init"]=std::move(iv); Globals[vid]=std::move(g2);} } }
       else if(auto*b=dyn_cast<BindingDecl>(D)){o["k"]="ref";o["id"]=id(b);o["name"]=b->getNameAsString();}
       else {o["k"]="unsupported";o["what"]=std::string("ref ")+D->getDeclKindName();} }
    else if(auto*x=dyn_cast<MemberExpr>(E)){ auto*D=x->getMemberDecl();
       if(auto*f=dyn_cast<FieldDecl>(D)){o["k"]="member";o["f"]=f->getNameAsString();o["owner"]=qname(f->getParent());o["arrow"]=x->isArrow();o["b"]=expr(x->getBase());}
       else if(auto*v=dyn_cast<VarDecl>(D)){o["k"]="ref";o["id"]=id(v);o["name"]=v->getNameAsString();o["global"]=qname(v);}
       else if(auto*ec=dyn_cast<EnumConstantDecl>(D)){o["k"]="int";o["v"]=llvm::toString(ec->getInitVal(),10);}
       else {o["k"]="unsupported";o["what"]="member function reference";} }
    else if(auto*x=dyn_cast<CXXOperatorCallExpr>(E)){ o["k"]="opcall";o["op"]=getOperatorSpelling(x->getOperator()); if(auto*f=x->getDirectCallee())o["f"]=callee(f); o["c"]=args(x->arguments()); o["line"]=line(x->getExprLoc()); }
    else if(auto*x=dyn_cast<CXXMemberCallExpr>(E)){ o["k"]="mcall"; auto*M=x->getMethodDecl(); if(M)o["f"]=callee(M); auto*me=dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()); o["arrow"]=me&&me->isArrow(); o["qual"]=me&&me->hasQualifier(); o["b"]=expr(x->getImplicitObjectArgument()); o["c"]=args(x->arguments()); o["line"]=line(x->getExprLoc()); }
    else if(auto*x=dyn_cast<CallExpr>(E)){ o["k"]="call"; o["line"]=line(x->getExprLoc()); if(auto*f=x->getDirectCallee())o["f"]=callee(f); else o["fe"]=expr(x->getCallee()); o["c"]=args(x->arguments()); }
    else if(auto*x=dyn_cast<CXXConstructExpr>(E)){ o["k"]="ctor"; o["f"]=callee(x->getConstructor()); o["c"]=args(x->arguments()); o["list"]=x->isListInitialization(); o["copy"]=x->getConstructor()->isCopyOrMoveConstructor(); o["zeroinit"]=x->requiresZeroInitialization(); o["line"]=line(x->getExprLoc()); }
    else if(auto*x=dyn_cast<CXXInheritedCtorInitExpr>(E)){o["k"]="unsupported";o["what"]="inherited ctor";}
    else if(auto*x=dyn_cast<LambdaExpr>(E)){ o["k"]="lambda"; Array p; for(auto*q:x->getCallOperator()->parameters()){Object po;po["id"]=id(q);po["name"]=q->getNameAsString();po["t"]=type(q->getType());p.push_back(std::move(po));} o["params"]=std::move(p);
       Array cs; auto ie=x->capture_init_begin(); for(auto&c:x->captures()){Object co; if(c.capturesThis())co["this"]=true; else if(c.capturesVariable()){co["id"]=id(c.getCapturedVar());co["byref"]=c.getCaptureKind()==LCK_ByRef; if(x->isInitCapture(&c)) co["init"]=expr(*ie); } ++ie; cs.push_back(std::move(co));} o["captures"]=std::move(cs);
       if(x->isGenericLambda()){ // use the specialisations that were instantiated
          Array sp; if(auto*ft=x->getDependentCallOperator()) for(auto*s:ft->specializations()){Object so;so["usr"]=usr(s->getCanonicalDecl());Array p2;for(auto*q:s->parameters()){Object po;po["id"]=id(q);po["t"]=type(q->getType());p2.push_back(std::move(po));}so["params"]=std::move(p2);so["body"]=s->getBody()?stmt(s->getBody()):Value(nullptr);sp.push_back(std::move(so));} o["spec"]=std::move(sp);}
       else o["body"]=stmt(x->getBody()); }
    else if(auto*x=dyn_cast<CXXNewExpr>(E)){o["k"]="new"; o["at"]=type(x->getAllocatedType()); o["array"]=x->isArray(); o["place"]=x->getNumPlacementArgs()>0; o["init"]=x->getInitializer()?expr(x->getInitializer()):Value(nullptr);}
    else if(auto*x=dyn_cast<CXXThrowExpr>(E)){o["k"]="throw";o["e"]=x->getSubExpr()?expr(x->getSubExpr()):Value(nullptr);}
    else if(auto*x=dyn_cast<InitListExpr>(E)){o["k"]="ilist"; if(x->isSemanticForm()||!x->getSemanticForm()) o["c"]=args(x->inits()); else o["c"]=args(x->getSemanticForm()->inits()); }
    else if(isa<CXXScalarValueInitExpr>(E)||isa<ImplicitValueInitExpr>(E)){o["k"]="zero";}
    else if(auto*x=dyn_cast<CompoundAssignOperator>(E)){o["k"]="assignop"; std::string op=x->getOpcodeStr().str(); o["op"]=op.substr(0,op.size()-1); o["ct"]=type(x->getComputationLHSType()); o["l"]=expr(x->getLHS());o["r"]=expr(x->getRHS());}
    else if(auto*x=dyn_cast<BinaryOperator>(E)){o["k"]="bin";o["op"]=x->getOpcodeStr().str();o["l"]=expr(x->getLHS());o["r"]=expr(x->getRHS());}
    else if(auto*x=dyn_cast<UnaryOperator>(E)){o["k"]="un";o["op"]=UnaryOperator::getOpcodeStr(x->getOpcode()).str();o["post"]=x->isPostfix();o["e"]=expr(x->getSubExpr());}
    else if(auto*x=dyn_cast<ConditionalOperator>(E)){o["k"]="cond";o["c"]=expr(x->getCond());o["a"]=expr(x->getTrueExpr());o["b"]=expr(x->getFalseExpr());}
    else if(auto*x=dyn_cast<ArraySubscriptExpr>(E)){o["k"]="sub";o["b"]=expr(x->getBase());o["i"]=expr(x->getIdx());}
    else if(auto*x=dyn_cast<CastExpr>(E)){o["k"]="cast";o["ck"]=x->getCastKindName();o["e"]=expr(x->getSubExpr()); o["explicit"]=isa<ExplicitCastExpr>(E);}
    else { Expr::EvalResult R; if(!E->isValueDependent()&&E->getType()->isIntegralOrEnumerationType()&&E->EvaluateAsInt(R,C)){o["k"]="int";o["v"]=llvm::toString(R.Val.getInt(),10);} else {o["k"]="unsupported";o["what"]=E->getStmtClassName();} }
    return o; }
  void function(const FunctionDecl*F){ if(!F->doesThisDeclarationHaveABody()||F->isDependentContext()) return; if(F->isDefaulted()&&!F->isUserProvided()) return; std::string u=usr(F->getCanonicalDecl()); if(!DoneFn.insert(u).second) return;
    if(auto*m=dyn_cast<CXXMethodDecl>(F)){ if(m->getParent()->isLambda()) return; record(m->getParent()); }
    Object o; o["usr"]=u;o["q"]=qname(F);o["name"]=F->getNameAsString();o["ret"]=type(F->getReturnType());o["file"]=SM.getFilename(SM.getExpansionLoc(F->getLocation())).str();o["line"]=line(F->getLocation());
    o["endline"]=line(F->getBody()->getEndLoc()); o["internal"]=!F->isExternallyVisible();
    Array p; for(auto*x:F->parameters()){Object po;po["id"]=id(x);po["name"]=x->getNameAsString();po["t"]=type(x->getType()); if(x->hasDefaultArg()&&!x->hasUninstantiatedDefaultArg()&&!x->hasUnparsedDefaultArg()) po["def"]=expr(x->getDefaultArg()); p.push_back(std::move(po));} o["params"]=std::move(p);
    if(auto*m=dyn_cast<CXXMethodDecl>(F)){o["cls"]=qname(m->getParent());o["clsusr"]=usr(m->getParent());o["virtual"]=m->isVirtual();o["static"]=m->isStatic();o["const"]=m->isConst();Array ov;for(auto*y:m->overridden_methods())ov.push_back(usr(y->getCanonicalDecl()));o["overrides"]=std::move(ov); o["access"]=(int)m->getAccess();}
    if(auto*c=dyn_cast<CXXConstructorDecl>(F)){o["isctor"]=true;Array a;for(auto*i:c->inits()){Object io; if(i->isBaseInitializer()){io["base"]=type(QualType(i->getBaseClass(),0));}else if(i->isDelegatingInitializer()){io["delegating"]=true;}else if(i->isAnyMemberInitializer()){io["field"]=i->getAnyMember()->getNameAsString();} io["written"]=i->isWritten(); io["e"]=expr(i->getInit());a.push_back(std::move(io));}o["inits"]=std::move(a);}
    if(isa<CXXDestructorDecl>(F))o["isdtor"]=true;
    o["body"]=stmt(F->getBody()); Functions.push_back(std::move(o)); }
};
struct V: RecursiveASTVisitor<V>{ Dumper&D; V(Dumper&D):D(D){} bool shouldVisitTemplateInstantiations()const{return true;}
  bool VisitFunctionDecl(FunctionDecl*F){ if(D.inRoot(F)) D.function(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl*R){ if(D.inRoot(R)&&R->isThisDeclarationADefinition()) D.record(R); return true; } };
struct Cons: ASTConsumer{ void HandleTranslationUnit(ASTContext&C)override{ Dumper D(C); V v(D);
    for(auto*d:C.getTranslationUnitDecl()->decls()){ if(D.inRoot(d)||isa<NamespaceDecl>(d)){ if(auto*ns=dyn_cast<NamespaceDecl>(d)){ if(!D.inRoot(ns)) continue; } v.TraverseDecl(d);} }
    while(!D.Queue.empty()){auto*f=D.Queue.front();D.Queue.pop_front();D.function(f);}
    Object o; o["functions"]=std::move(D.Functions);o["records"]=std::move(D.Records);o["types"]=std::move(D.Types);o["globals"]=std::move(D.Globals);
    std::error_code ec; llvm::raw_fd_ostream os(OutFile,ec); os<<Value(std::move(o)); } };
struct Act: ASTFrontendAction{ std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,StringRef)override{return std::make_unique<Cons>();} };
int main(int argc,const char**argv){ Root=argv[1];OutFile=argv[2];std::string file=argv[3]; std::vector<std::string> a; for(int i=5;i<argc;++i)a.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase db(".",a); clang::tooling::ClangTool T(db,{file}); T.appendArgumentsAdjuster(clang::tooling::getClangSyntaxOnlyAdjuster());
  return T.run(clang::tooling::newFrontendActionFactory<Act>().get()); }
