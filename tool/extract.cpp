// libTooling extractor: dumps the resolved program (types, callees, constants)
// of every repository function as a compact JSON tree, one JSON object per line.
//   {"r":"fn",...}    a function definition with its body
//   {"r":"cls",...}   a class/struct definition
//   {"r":"enum",...}  an enum definition
//   {"r":"var",...}   a namespace-scope / static variable
//   {"r":"tu",...}    one line per parsed translation unit
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace {

std::string Root;
std::set<std::string> Seen;
llvm::raw_ostream* Out;

std::string usr(const Decl* D)
{
   llvm::SmallString<128> buf;
   if( index::generateUSRForDecl(D, buf) )
      return "";
   return std::string(buf.str());
}

const FunctionDecl* pattern(const FunctionDecl* F)
{
   if( const FunctionDecl* P = F->getTemplateInstantiationPattern() )
      return P;
   return F;
}

std::string qname(const NamedDecl* D)
{
   // qualified name without template arguments
   std::string s;
   std::vector<std::string> parts;
   parts.push_back(D->getDeclName().isEmpty() ? std::string("(anon)") : D->getDeclName().getAsString());
   const DeclContext* C = D->getDeclContext();
   if( isa<EnumConstantDecl>(D) )
      C = cast<EnumDecl>(C)->isScoped() ? C : C->getParent();
   while( C && !C->isTranslationUnit() )
   {
      if( auto* N = dyn_cast<NamedDecl>(C) )
      {
         if( auto* NS = dyn_cast<NamespaceDecl>(N) )
         {
            if( NS->isInline() ) { C = C->getParent(); continue; }
         }
         std::string n = N->getDeclName().isEmpty() ? "(anon)" : N->getDeclName().getAsString();
         parts.push_back(n);
      }
      C = C->getParent();
   }
   for( size_t i = parts.size(); i-- > 0; )
   {
      s += parts[i];
      if( i )
         s += "::";
   }
   // constructors of templates print as Name<T>; strip
   size_t p = s.find('<');
   if( p != std::string::npos && s.find("operator") == std::string::npos )
   {
      std::string r;
      int d = 0;
      for( char c : s )
      {
         if( c == '<' ) { ++d; continue; }
         if( c == '>' ) { --d; continue; }
         if( !d ) r += c;
      }
      s = r;
   }
   return s;
}

class Dumper
{
public:
   Dumper(ASTContext& C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts())
   {
      PP.SuppressTagKeyword = true;
      PP.Bool = true;
      PP.adjustForCPlusPlus();
   }
   ASTContext& Ctx;
   SourceManager& SM;
   PrintingPolicy PP;
   std::map<const Decl*, int> ids;
   FileID fnFile;

   std::string ty(QualType T)
   {
      if( T.isNull() )
         return "";
      return T.getCanonicalType().getAsString(PP);
   }
   int line(SourceLocation L)
   {
      if( L.isInvalid() )
         return 0;
      return SM.getExpansionLineNumber(L);
   }
   std::string file(SourceLocation L)
   {
      if( L.isInvalid() )
         return "";
      L = SM.getExpansionLoc(L);
      auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
      if( !FE )
         return "";
      llvm::StringRef r = FE->getFileEntry().tryGetRealPathName();
      return r.str();
   }
   int id(const Decl* D)
   {
      D = D->getCanonicalDecl();
      auto it = ids.find(D);
      if( it != ids.end() )
         return it->second;
      int n = ids.size() + 1;
      ids[D] = n;
      return n;
   }
   using O = llvm::json::Object;
   using A = llvm::json::Array;
   using V = llvm::json::Value;

   static std::string utf8(llvm::StringRef s)
   {
      return llvm::json::isUTF8(s) ? s.str() : llvm::json::fixUTF8(s);
   }
   O mk(const char* k, const Stmt* S)
   {
      O o;
      o["k"] = k;
      if( S )
         o["l"] = line(S->getBeginLoc());
      return o;
   }
   const Expr* strip(const Expr* E)
   {
      while( E )
      {
         if( auto* x = dyn_cast<ImplicitCastExpr>(E) )
         {
            E = x->getSubExpr();
         }
         else if( auto* x = dyn_cast<ParenExpr>(E) )
            E = x->getSubExpr();
         else if( auto* x = dyn_cast<FullExpr>(E) )
            E = x->getSubExpr();
         else if( auto* x = dyn_cast<MaterializeTemporaryExpr>(E) )
            E = x->getSubExpr();
         else if( auto* x = dyn_cast<CXXBindTemporaryExpr>(E) )
            E = x->getSubExpr();
         else if( auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(E) )
            E = x->getReplacement();
         else if( auto* x = dyn_cast<CXXDefaultArgExpr>(E) )
            E = x->getExpr();
         else if( auto* x = dyn_cast<CXXDefaultInitExpr>(E) )
            E = x->getExpr();
         else if( auto* x = dyn_cast<OpaqueValueExpr>(E) )
         {
            if( !x->getSourceExpr() ) return E;
            E = x->getSourceExpr();
         }
         else if( auto* x = dyn_cast<GenericSelectionExpr>(E) )
            E = x->getResultExpr();
         else if( auto* x = dyn_cast<ChooseExpr>(E) )
            E = x->getChosenSubExpr();
         else
            return E;
      }
      return E;
   }
   void callee(O& o, const FunctionDecl* F)
   {
      const FunctionDecl* P = pattern(F);
      o["f"] = qname(F);
      o["u"] = usr(P);
   }
   A args(llvm::iterator_range<CallExpr::const_arg_iterator> R)
   {
      A a;
      for( const Expr* E : R )
         a.push_back(expr(E));
      return a;
   }
   V expr(const Expr* E0)
   {
      if( !E0 )
         return nullptr;
      const Expr* E = strip(E0);
      if( !E )
         return nullptr;
      if( auto* x = dyn_cast<IntegerLiteral>(E) )
      {
         O o = mk("int", E);
         o["v"] = (int64_t)x->getValue().getLimitedValue();
         return o;
      }
      if( auto* x = dyn_cast<CXXBoolLiteralExpr>(E) )
      {
         O o = mk("bool", E);
         o["v"] = x->getValue();
         return o;
      }
      if( auto* x = dyn_cast<FloatingLiteral>(E) )
      {
         O o = mk("flt", E);
         o["v"] = x->getValueAsApproximateDouble();
         return o;
      }
      if( auto* x = dyn_cast<CharacterLiteral>(E) )
      {
         O o = mk("chr", E);
         o["v"] = (int64_t)x->getValue();
         return o;
      }
      if( auto* x = dyn_cast<clang::StringLiteral>(E) )
      {
         O o = mk("str", E);
         o["v"] = x->getCharByteWidth() == 1 ? utf8(x->getString()) : std::string("?");
         return o;
      }
      if( isa<PredefinedExpr>(E) )
      {
         O o = mk("str", E);
         o["v"] = "__func__";
         return o;
      }
      if( isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E) )
         return mk("null", E);
      if( auto* x = dyn_cast<CXXThisExpr>(E) )
      {
         O o = mk("this", E);
         if( x->isImplicit() )
            o["imp"] = true;
         return o;
      }
      if( auto* x = dyn_cast<DeclRefExpr>(E) )
         return declref(x);
      if( auto* x = dyn_cast<MemberExpr>(E) )
      {
         const ValueDecl* D = x->getMemberDecl();
         O o = mk("mem", E);
         o["l"] = line(x->getMemberLoc());
         o["n"] = qname(D);
         if( auto* VD = dyn_cast<VarDecl>(D) )
         {
            (void) VD;
            o["static"] = true;
         }
         else if( auto* FD = dyn_cast<FunctionDecl>(D) )
            callee(o, FD);
         o["b"] = expr(x->getBase());
         o["t"] = ty(E->getType());
         return o;
      }
      if( auto* x = dyn_cast<CXXOperatorCallExpr>(E) )
      {
         O o = mk("call", E);
         o["l"] = line(x->getOperatorLoc());
         o["op"] = getOperatorSpelling(x->getOperator());
         const FunctionDecl* F = x->getDirectCallee();
         unsigned first = 0;
         if( F )
         {
            callee(o, F);
            if( auto* M = dyn_cast<CXXMethodDecl>(F) )
            {
               if( !M->isStatic() )
               {
                  o["o"] = expr(x->getArg(0));
                  first = 1;
                  if( M->isVirtual() )
                     o["virt"] = true;
               }
            }
         }
         A a;
         for( unsigned i = first; i < x->getNumArgs(); ++i )
            a.push_back(expr(x->getArg(i)));
         o["a"] = std::move(a);
         o["t"] = ty(E->getType());
         return o;
      }
      if( auto* x = dyn_cast<CXXMemberCallExpr>(E) )
      {
         O o = mk("call", E);
         o["l"] = line(x->getExprLoc());
         const CXXMethodDecl* M = x->getMethodDecl();
         if( M )
         {
            callee(o, M);
            bool virt = M->isVirtual();
            if( auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()) )
            {
               if( me->hasQualifier() )
                  virt = false;
            }
            if( virt )
               o["virt"] = true;
            if( M->isConst() )
               o["cm"] = true;
         }
         else
            o["fe"] = expr(x->getCallee());
         const Expr* ob = x->getImplicitObjectArgument();
         o["o"] = expr(ob);
         if( ob )
            o["ot"] = ty(ob->getType());
         o["a"] = args(x->arguments());
         o["t"] = ty(E->getType());
         return o;
      }
      if( auto* x = dyn_cast<CallExpr>(E) )
      {
         O o = mk("call", E);
         o["l"] = line(x->getExprLoc());
         const FunctionDecl* F = x->getDirectCallee();
         if( F )
            callee(o, F);
         else
            o["fe"] = expr(x->getCallee());
         o["a"] = args(x->arguments());
         o["t"] = ty(E->getType());
         return o;
      }
      if( auto* x = dyn_cast<CXXConstructExpr>(E) )
      {
         const CXXConstructorDecl* C = x->getConstructor();
         if( C->isCopyOrMoveConstructor() && x->getNumArgs() == 1 && x->isElidable() )
            return expr(x->getArg(0));
         O o = mk("ctor", E);
         o["f"] = qname(C);
         o["u"] = usr(pattern(C));
         o["c"] = qname(C->getParent());
         o["t"] = ty(E->getType());
         if( C->isCopyOrMoveConstructor() )
            o["copy"] = true;
         if( isa<CXXTemporaryObjectExpr>(x) )
            o["tmp"] = true;
         A a;
         for( const Expr* q : x->arguments() )
            a.push_back(expr(q));
         o["a"] = std::move(a);
         return o;
      }
      if( auto* x = dyn_cast<CXXNewExpr>(E) )
      {
         O o = mk("new", E);
         o["t"] = ty(x->getAllocatedType());
         if( x->isArray() )
         {
            o["arr"] = true;
            if( x->getArraySize() && *x->getArraySize() )
               o["n"] = expr(*x->getArraySize());
         }
         if( x->getNumPlacementArgs() ) o["place"] = (int64_t)x->getNumPlacementArgs();
         if( x->hasInitializer() )
            o["i"] = expr(x->getInitializer());
         return o;
      }
      if( auto* x = dyn_cast<CXXDeleteExpr>(E) )
      {
         O o = mk("del", E);
         if( x->isArrayForm() )
            o["arr"] = true;
         o["e"] = expr(x->getArgument());
         return o;
      }
      if( auto* x = dyn_cast<BinaryOperator>(E) )
      {
         O o = mk("bin", E);
         o["l"] = line(x->getOperatorLoc());
         o["op"] = x->getOpcodeStr().str();
         o["a"] = expr(x->getLHS());
         o["b"] = expr(x->getRHS());
         if( x->isAdditiveOp() || x->isMultiplicativeOp() || x->isComparisonOp() || x->isAssignmentOp() )
            o["t"] = ty(x->getLHS()->getType());
         return o;
      }
      if( auto* x = dyn_cast<UnaryOperator>(E) )
      {
         if( x->getOpcode() == UO_Extension )
            return expr(x->getSubExpr());
         if( x->getOpcode() == UO_Minus )
         {
            const Expr* s = strip(x->getSubExpr());
            if( auto* il = dyn_cast<IntegerLiteral>(s) )
            {
               O o = mk("int", E);
               o["v"] = -(int64_t)il->getValue().getLimitedValue();
               return o;
            }
            if( auto* fl = dyn_cast<FloatingLiteral>(s) )
            {
               O o = mk("flt", E);
               o["v"] = -fl->getValueAsApproximateDouble();
               return o;
            }
         }
         O o = mk("un", E);
         o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
         if( x->isPostfix() )
            o["post"] = true;
         o["e"] = expr(x->getSubExpr());
         return o;
      }
      if( auto* x = dyn_cast<AbstractConditionalOperator>(E) )
      {
         O o = mk("cond", E);
         o["c"] = expr(x->getCond());
         o["a"] = expr(x->getTrueExpr());
         o["b"] = expr(x->getFalseExpr());
         return o;
      }
      if( auto* x = dyn_cast<ArraySubscriptExpr>(E) )
      {
         O o = mk("sub", E);
         o["a"] = expr(x->getBase());
         o["i"] = expr(x->getIdx());
         o["t"] = ty(E->getType());
         return o;
      }
      if( auto* x = dyn_cast<ExplicitCastExpr>(E) )
      {
         O o = mk("cast", E);
         if( isa<CXXDynamicCastExpr>(x) )
            o["ck"] = "dynamic";
         else if( isa<CXXConstCastExpr>(x) )
            o["ck"] = "const";
         else if( isa<CXXReinterpretCastExpr>(x) )
            o["ck"] = "reinterpret";
         else
            o["ck"] = "static";
         o["t"] = ty(x->getTypeAsWritten());
         o["e"] = expr(x->getSubExpr());
         return o;
      }
      if( auto* x = dyn_cast<InitListExpr>(E) )
      {
         O o = mk("init", E);
         A a;
         for( const Expr* q : x->inits() )
            a.push_back(expr(q));
         o["a"] = std::move(a);
         return o;
      }
      if( auto* x = dyn_cast<CXXScalarValueInitExpr>(E) )
      {
         O o = mk("int", E);
         o["v"] = 0;
         o["t"] = ty(x->getType());
         return o;
      }
      if( isa<ImplicitValueInitExpr>(E) )
      {
         O o = mk("int", E);
         o["v"] = 0;
         return o;
      }
      if( auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(E) )
      {
         Expr::EvalResult R;
         O o = mk("sizeof", E);
         if( !x->isInstantiationDependent() && E->EvaluateAsInt(R, Ctx) )
            o["v"] = (int64_t)R.Val.getInt().getLimitedValue();
         o["t"] = ty(x->isArgumentType() ? x->getArgumentType() : x->getArgumentExpr()->getType());
         return o;
      }
      if( auto* x = dyn_cast<CXXThrowExpr>(E) )
      {
         O o = mk("throw", E);
         if( x->getSubExpr() )
         {
            o["t"] = ty(strip(x->getSubExpr())->getType().getNonReferenceType().getUnqualifiedType());
            o["e"] = expr(x->getSubExpr());
         }
         return o;
      }
      if( auto* x = dyn_cast<CXXStdInitializerListExpr>(E) )
         return expr(x->getSubExpr());
      if( auto* x = dyn_cast<LambdaExpr>(E) )
      {
         O o = mk("lambda", E);
         o["b"] = stmt(x->getBody());
         return o;
      }
      if( auto* x = dyn_cast<StmtExpr>(E) )
      {
         O o = mk("stmtexpr", E);
         o["b"] = stmt(x->getSubStmt());
         return o;
      }
      O o = mk("other", E);
      o["c"] = E->getStmtClassName();
      A a;
      for( const Stmt* c : E->children() )
         if( c )
         {
            if( auto* ce = dyn_cast<Expr>(c) )
               a.push_back(expr(ce));
            else
               a.push_back(stmt(c));
         }
      o["a"] = std::move(a);
      return o;
   }
   V declref(const DeclRefExpr* x)
   {
      const ValueDecl* D = x->getDecl();
      O o = mk("ref", x);
      o["l"] = line(x->getLocation());
      if( auto* EC = dyn_cast<EnumConstantDecl>(D) )
      {
         o["d"] = "enum";
         o["n"] = qname(EC);
         o["v"] = (int64_t)EC->getInitVal().getExtValue();
         o["t"] = ty(EC->getType());
         if( auto* ed = dyn_cast<EnumDecl>(EC->getDeclContext()) )
            o["en"] = qname(ed);
         return o;
      }
      if( auto* F = dyn_cast<FunctionDecl>(D) )
      {
         o["d"] = "func";
         o["n"] = qname(F);
         callee(o, F);
         return o;
      }
      o["t"] = ty(D->getType());
      if( auto* VD = dyn_cast<VarDecl>(D) )
      {
         if( isa<ParmVarDecl>(VD) )
         {
            o["d"] = "parm";
            o["n"] = VD->getNameAsString();
            o["id"] = id(VD);
         }
         else if( VD->isLocalVarDecl() && !VD->isStaticLocal() )
         {
            o["d"] = "local";
            o["n"] = VD->getNameAsString();
            o["id"] = id(VD);
         }
         else
         {
            o["d"] = VD->isStaticLocal() ? "slocal" : "global";
            o["n"] = qname(VD);
            o["u"] = usr(VD);
         }
         return o;
      }
      o["d"] = "other";
      o["n"] = qname(D);
      return o;
   }
   V vardecl(const VarDecl* VD)
   {
      O o;
      o["k"] = "var";
      o["l"] = line(VD->getLocation());
      o["n"] = VD->getNameAsString();
      o["t"] = ty(VD->getType());
      if( VD->isStaticLocal() )
         o["static"] = true;
      else
         o["id"] = id(VD);
      if( VD->hasInit() )
         o["i"] = expr(VD->getInit());
      return o;
   }
   V stmt(const Stmt* S)
   {
      if( !S )
         return nullptr;
      if( auto* x = dyn_cast<Expr>(S) )
         return expr(x);
      if( auto* x = dyn_cast<CompoundStmt>(S) )
      {
         O o = mk("seq", S);
         A a;
         for( const Stmt* c : x->body() )
            a.push_back(stmt(c));
         o["s"] = std::move(a);
         return o;
      }
      if( auto* x = dyn_cast<IfStmt>(S) )
      {
         O o = mk("if", S);
         if( x->getInit() )
            o["init"] = stmt(x->getInit());
         if( x->getConditionVariable() )
            o["cv"] = vardecl(x->getConditionVariable());
         o["c"] = expr(x->getCond());
         o["t"] = stmt(x->getThen());
         if( x->getElse() )
            o["e"] = stmt(x->getElse());
         return o;
      }
      if( auto* x = dyn_cast<WhileStmt>(S) )
      {
         O o = mk("while", S);
         if( x->getConditionVariable() )
            o["cv"] = vardecl(x->getConditionVariable());
         o["c"] = expr(x->getCond());
         o["b"] = stmt(x->getBody());
         return o;
      }
      if( auto* x = dyn_cast<DoStmt>(S) )
      {
         O o = mk("do", S);
         o["c"] = expr(x->getCond());
         o["b"] = stmt(x->getBody());
         return o;
      }
      if( auto* x = dyn_cast<ForStmt>(S) )
      {
         O o = mk("for", S);
         o["i"] = stmt(x->getInit());
         o["c"] = expr(x->getCond());
         o["inc"] = expr(x->getInc());
         o["b"] = stmt(x->getBody());
         return o;
      }
      if( auto* x = dyn_cast<CXXForRangeStmt>(S) )
      {
         O o = mk("rfor", S);
         o["v"] = vardecl(x->getLoopVariable());
         o["r"] = expr(x->getRangeInit());
         o["b"] = stmt(x->getBody());
         return o;
      }
      if( auto* x = dyn_cast<SwitchStmt>(S) )
      {
         O o = mk("switch", S);
         o["c"] = expr(x->getCond());
         o["ct"] = ty(strip(x->getCond())->getType());
         o["b"] = stmt(x->getBody());
         return o;
      }
      if( auto* x = dyn_cast<CaseStmt>(S) )
      {
         O o = mk("case", S);
         Expr::EvalResult R;
         if( !x->getLHS()->isInstantiationDependent() && x->getLHS()->EvaluateAsInt(R, Ctx) )
            o["v"] = (int64_t)R.Val.getInt().getExtValue();
         o["e"] = expr(x->getLHS());
         o["s"] = stmt(x->getSubStmt());
         return o;
      }
      if( auto* x = dyn_cast<DefaultStmt>(S) )
      {
         O o = mk("default", S);
         o["s"] = stmt(x->getSubStmt());
         return o;
      }
      if( isa<BreakStmt>(S) )
         return mk("break", S);
      if( isa<ContinueStmt>(S) )
         return mk("continue", S);
      if( auto* x = dyn_cast<ReturnStmt>(S) )
      {
         O o = mk("return", S);
         if( x->getRetValue() )
            o["e"] = expr(x->getRetValue());
         return o;
      }
      if( auto* x = dyn_cast<DeclStmt>(S) )
      {
         O o = mk("decl", S);
         A a;
         for( const Decl* d : x->decls() )
            if( auto* v = dyn_cast<VarDecl>(d) )
               a.push_back(vardecl(v));
         o["v"] = std::move(a);
         return o;
      }
      if( auto* x = dyn_cast<CXXTryStmt>(S) )
      {
         O o = mk("try", S);
         o["b"] = stmt(x->getTryBlock());
         A a;
         for( unsigned i = 0; i < x->getNumHandlers(); ++i )
         {
            const CXXCatchStmt* H = x->getHandler(i);
            O h = mk("catch", H);
            if( H->getExceptionDecl() )
            {
               h["t"] = ty(H->getExceptionDecl()->getType().getNonReferenceType().getUnqualifiedType());
               h["v"] = vardecl(H->getExceptionDecl());
            }
            h["b"] = stmt(H->getHandlerBlock());
            a.push_back(std::move(h));
         }
         o["h"] = std::move(a);
         return o;
      }
      if( isa<NullStmt>(S) )
         return mk("nop", S);
      if( auto* x = dyn_cast<LabelStmt>(S) )
      {
         O o = mk("label", S);
         o["n"] = x->getName();
         o["s"] = stmt(x->getSubStmt());
         return o;
      }
      if( auto* x = dyn_cast<GotoStmt>(S) )
      {
         O o = mk("goto", S);
         o["n"] = x->getLabel()->getNameAsString();
         return o;
      }
      if( auto* x = dyn_cast<AttributedStmt>(S) )
         return stmt(x->getSubStmt());
      O o = mk("otherstmt", S);
      o["c"] = S->getStmtClassName();
      return o;
   }
};

class Vis : public RecursiveASTVisitor<Vis>
{
public:
   ASTContext& Ctx;
   Dumper D0;
   Vis(ASTContext& C) : Ctx(C), D0(C) {}
   bool shouldVisitTemplateInstantiations() const { return true; }
   bool shouldVisitImplicitCode() const { return false; }

   std::string rel(SourceLocation L)
   {
      std::string f = D0.file(L);
      if( f.compare(0, Root.size(), Root) == 0 )
         return f.substr(Root.size() + 1);
      return "";
   }
   void emit(llvm::json::Object o)
   {
      *Out << llvm::json::Value(std::move(o)) << "\n";
   }
   bool VisitFunctionDecl(FunctionDecl* F)
   {
      if( !F->doesThisDeclarationHaveABody() && !F->isDefaulted() )
         return true;
      if( !F->doesThisDeclarationHaveABody() )
         return true;
      if( F->isDependentContext() || F->isTemplated() )
         return true;
      std::string f = rel(F->getLocation());
      if( f.empty() )
         return true;
      const FunctionDecl* P = pattern(F);
      std::string u = usr(P);
      if( u.empty() || !Seen.insert("F" + u).second )
         return true;
      Dumper D(Ctx);
      llvm::json::Object o;
      o["r"] = "fn";
      o["u"] = u;
      o["f"] = qname(F);
      o["file"] = f;
      o["l"] = D.line(F->getLocation());
      o["le"] = D.line(F->getEndLoc());
      o["rt"] = D.ty(F->getReturnType());
      if( F->isVariadic() )
         o["variadic"] = true;
      if( F->getStorageClass() == SC_Static ) o["sc"] = "static";
      if( F->isExternC() ) o["externc"] = true;
      if( F->getType()->castAs<FunctionType>()->getAs<FunctionProtoType>() )
      {
         auto* FP = F->getType()->castAs<FunctionProtoType>();
         if( FP->hasDynamicExceptionSpec() || isNoexceptExceptionSpec(FP->getExceptionSpecType()) )
            o["noexc"] = (int64_t) FP->getExceptionSpecType();
      }
      llvm::json::Array ps;
      for( const ParmVarDecl* p : F->parameters() )
      {
         llvm::json::Object q;
         q["n"] = p->getNameAsString();
         q["t"] = D.ty(p->getType());
         q["id"] = D.id(p);
         ps.push_back(std::move(q));
      }
      o["p"] = std::move(ps);
      if( auto* M = dyn_cast<CXXMethodDecl>(F) )
      {
         o["c"] = qname(M->getParent());
         if( M->isVirtual() )
            o["virt"] = true;
         if( M->isConst() )
            o["const"] = true;
         if( M->isStatic() )
            o["static"] = true;
         o["acc"] = getAccessSpelling(M->getAccess()).str();
         llvm::json::Array ov;
         for( const CXXMethodDecl* b : M->overridden_methods() )
            ov.push_back(usr(pattern(b)));
         if( !ov.empty() )
            o["ov"] = std::move(ov);
      }
      if( auto* C = dyn_cast<CXXConstructorDecl>(F) )
      {
         o["kind"] = "ctor";
         llvm::json::Array in;
         for( const CXXCtorInitializer* I : C->inits() )
         {
            llvm::json::Object q;
            if( I->isAnyMemberInitializer() )
               q["m"] = qname(I->getAnyMember());
            else if( I->isBaseInitializer() )
               q["base"] = D.ty(QualType(I->getBaseClass(), 0));
            if( I->isWritten() )
               q["w"] = true;
            q["e"] = D.expr(I->getInit());
            in.push_back(std::move(q));
         }
         o["inits"] = std::move(in);
      }
      else if( isa<CXXDestructorDecl>(F) )
         o["kind"] = "dtor";
      o["b"] = D.stmt(F->getBody());
      emit(std::move(o));
      return true;
   }
   bool VisitCXXRecordDecl(CXXRecordDecl* R)
   {
      if( !R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda() )
         return true;
      std::string f = rel(R->getLocation());
      if( f.empty() )
         return true;
      std::string q = qname(R);
      std::string u = usr(R);
      if( auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R) )
      {
         (void) S;
         // first instantiation represents the template
         if( !Seen.insert("C" + q).second )
            return true;
      }
      else if( !Seen.insert("C" + u).second )
         return true;
      Dumper D(Ctx);
      llvm::json::Object o;
      o["r"] = "cls";
      o["n"] = q;
      o["u"] = u;
      o["file"] = f;
      o["l"] = D.line(R->getLocation());
      if( R->isAbstract() )
         o["abs"] = true;
      llvm::json::Array bs, fs, ms;
      for( const CXXBaseSpecifier& b : R->bases() )
         if( auto* br = b.getType()->getAsCXXRecordDecl() )
            bs.push_back(qname(br));
      o["bases"] = std::move(bs);
      for( const FieldDecl* fd : R->fields() )
      {
         llvm::json::Object x;
         x["n"] = qname(fd);
         x["t"] = D.ty(fd->getType());
         x["l"] = D.line(fd->getLocation());
         if( fd->isMutable() )
            x["mut"] = true;
         if( fd->hasInClassInitializer() && fd->getInClassInitializer() )
            x["i"] = D.expr(fd->getInClassInitializer());
         fs.push_back(std::move(x));
      }
      o["fields"] = std::move(fs);
      for( const CXXMethodDecl* M : R->methods() )
      {
         if( M->isImplicit() )
            continue;
         llvm::json::Object x;
         x["n"] = qname(M);
         x["u"] = usr(pattern(M));
         x["l"] = D.line(M->getLocation());
         x["acc"] = getAccessSpelling(M->getAccess()).str();
         x["rt"] = D.ty(M->getReturnType());
         llvm::json::Array pt;
         for( const ParmVarDecl* p : M->parameters() )
         {
            llvm::json::Object pp;
            pp["n"] = p->getNameAsString();
            pp["t"] = D.ty(p->getType());
            pt.push_back(std::move(pp));
         }
         x["p"] = std::move(pt);
         if( M->isVirtual() )
            x["virt"] = true;
         if( M->isPureVirtual() )
            x["pure"] = true;
         if( M->isConst() )
            x["const"] = true;
         if( M->isStatic() )
            x["static"] = true;
         if( M->isDeleted() )
            x["deleted"] = true;
         if( isa<CXXConstructorDecl>(M) )
         {
            x["kind"] = cast<CXXConstructorDecl>(M)->isCopyConstructor() ? "copyctor" : "ctor";
         }
         else if( isa<CXXDestructorDecl>(M) )
            x["kind"] = "dtor";
         else if( M->isCopyAssignmentOperator() )
            x["kind"] = "copyassign";
         if( M->isDefined() || M->hasBody() )
            x["def"] = true;
         llvm::json::Array ov;
         for( const CXXMethodDecl* b : M->overridden_methods() )
            ov.push_back(usr(pattern(b)));
         if( !ov.empty() )
            x["ov"] = std::move(ov);
         ms.push_back(std::move(x));
      }
      o["methods"] = std::move(ms);
      emit(std::move(o));
      return true;
   }
   bool VisitEnumDecl(EnumDecl* E)
   {
      if( !E->isThisDeclarationADefinition() || E->isDependentContext() )
         return true;
      std::string f = rel(E->getLocation());
      if( f.empty() )
         return true;
      std::string u = usr(E);
      if( !Seen.insert("E" + u + f).second )
         return true;
      llvm::json::Object o;
      o["r"] = "enum";
      o["n"] = qname(E);
      o["file"] = f;
      o["l"] = D0.line(E->getLocation());
      if( E->getTypedefNameForAnonDecl() )
         o["td"] = qname(E->getTypedefNameForAnonDecl());
      llvm::json::Array vs;
      for( const EnumConstantDecl* c : E->enumerators() )
      {
         llvm::json::Object x;
         x["n"] = qname(c);
         x["v"] = (int64_t)c->getInitVal().getExtValue();
         vs.push_back(std::move(x));
      }
      o["vals"] = std::move(vs);
      emit(std::move(o));
      return true;
   }
   bool VisitVarDecl(VarDecl* V)
   {
      if( isa<ParmVarDecl>(V) )
         return true;
      bool sl = V->isStaticLocal();
      if( !sl && !V->hasGlobalStorage() )
         return true;
      if( V->getDeclContext()->isDependentContext() )
         return true;
      std::string f = rel(V->getLocation());
      if( f.empty() )
         return true;
      std::string u = usr(V);
      std::string key = "V" + u + f + std::to_string(D0.line(V->getLocation()));
      if( !Seen.insert(key).second )
         return true;
      Dumper D(Ctx);
      llvm::json::Object o;
      o["r"] = "var";
      o["n"] = qname(V);
      o["u"] = u;
      o["file"] = f;
      o["l"] = D.line(V->getLocation());
      o["t"] = D.ty(V->getType());
      QualType et = Ctx.getBaseElementType(V->getType());
      if( et.isConstQualified() )
         o["const"] = true;
      if( sl )
         o["slocal"] = true;
      if( V->isStaticDataMember() )
         o["smember"] = true;
      if( V->isThisDeclarationADefinition() )
         o["def"] = true;
      if( V->getTLSKind() != VarDecl::TLS_None ) o["tls"] = true;
      if( V->hasInit() )
         o["i"] = D.expr(V->getInit());
      emit(std::move(o));
      return true;
   }
};

class Cons : public ASTConsumer
{
public:
   std::string File;
   Cons(std::string f) : File(f) {}
   void HandleTranslationUnit(ASTContext& C) override
   {
      Vis v(C);
      v.TraverseDecl(C.getTranslationUnitDecl());
      llvm::json::Object o;
      o["r"] = "tu";
      o["file"] = File;
      o["err"] = (int64_t) (C.getDiagnostics().hasErrorOccurred() ? 1 : 0);
      *Out << llvm::json::Value(std::move(o)) << "\n";
   }
};
class Act : public ASTFrontendAction
{
public:
   std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef F) override
   {
      return std::make_unique<Cons>(F.str());
   }
};
class Fac : public tooling::FrontendActionFactory
{
public:
   std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); }
};
}

int main(int argc, const char** argv)
{
   // extract ROOT DBFILE OUT file...
   if( argc < 5 )
      return 2;
   Root = argv[1];
   std::string err;
   auto DB = tooling::CompilationDatabase::autoDetectFromDirectory(argv[2], err);
   if( !DB )
   {
      std::cerr << err << "\n";
      return 2;
   }
   std::error_code ec;
   llvm::raw_fd_ostream os(argv[3], ec);
   Out = &os;
   std::vector<std::string> files(argv + 4, argv + argc);
   tooling::ClangTool T(*DB, files);
   Fac fac;
   int rc = T.run(&fac);
   os.flush();
   return rc ? 3 : 0;
}
