// Exports the type-checked program (functions, template instantiations, records) of one
// translation unit as JSON: the input of the analyses in ../engine.
// Nothing is executed; this is a libTooling visitor over clang's AST.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;   // source prefixes whose functions are exported

struct Exporter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Array funcs, records, enums, globals;
  std::set<const void *> seen;
  std::map<const Decl *, int> ids;
  std::set<const RecordDecl *> recs;
  std::set<const EnumDecl *> ens;
  std::set<const VarDecl *> globs;

  Exporter(ASTContext &Ctx) : C(Ctx), SM(Ctx.getSourceManager()), PP(Ctx.getLangOpts()) {
    PP.adjustForCPlusPlus(); PP.SuppressTagKeyword = true; PP.PrintCanonicalTypes = true;
    PP.FullyQualifiedName = true;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1; ids[D] = n; return n;
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    llvm::SmallString<256> p(F->getFileEntry().tryGetRealPathName());
    return std::string(p);
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = file(L);
    for (auto &r : Roots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string fname(const FunctionDecl *FD) {
    std::string s; llvm::raw_string_ostream os(s);
    FD->getNameForDiagnostic(os, PP, true); os.flush();
    return s;
  }
  std::string fkey(const FunctionDecl *FD) {
    return fname(FD) + " | " + ty(FD->getType());
  }
  std::string rname(const RecordDecl *RD) {
    std::string s; llvm::raw_string_ostream os(s);
    C.getTypeDeclType(RD).getCanonicalType().print(os, PP); os.flush();
    return s;
  }
  std::string tc(QualType T) {
    if (T.isNull()) return "?";
    T = T.getCanonicalType();
    if (T->isReferenceType()) return "ref";
    if (T->isBooleanType()) return "bool";
    if (T->isEnumeralType()) return "enum";
    if (T->isIntegerType()) return "int";
    if (T->isFloatingType()) return "float";
    if (T->isPointerType()) return "ptr";
    if (T->isArrayType()) return "array";
    if (T->isRecordType()) return "rec";
    if (T->isVoidType()) return "void";
    return "other";
  }
  void noteType(QualType T) {
    if (T.isNull()) return;
    T = T.getCanonicalType();
    while (T->isPointerType() || T->isReferenceType()) T = T->getPointeeType().getCanonicalType();
    if (auto *RT = T->getAs<RecordType>()) noteRecord(RT->getDecl());
    if (auto *ET = T->getAs<EnumType>()) noteEnum(ET->getDecl());
  }
  void noteEnum(const EnumDecl *E) {
    E = E->getDefinition(); if (!E || !inRoots(E->getLocation())) return;
    if (!ens.insert(E).second) return;
    json::Array vs;
    for (auto *c : E->enumerators())
      vs.push_back(json::Object{{"n", c->getNameAsString()}, {"v", (int64_t)c->getInitVal().getExtValue()}});
    enums.push_back(json::Object{{"n", E->getQualifiedNameAsString()}, {"vals", std::move(vs)},
      {"file", file(E->getLocation())}, {"line", line(E->getLocation())}});
  }
  void noteRecord(const RecordDecl *RD) {
    RD = RD->getDefinition();
    if (!RD || RD->isDependentType() || !inRoots(RD->getLocation())) return;
    if (!recs.insert(RD).second) return;
    json::Object o; o["n"] = rname(RD); o["tmpl"] = RD->getQualifiedNameAsString();
    o["file"] = file(RD->getLocation()); o["line"] = line(RD->getLocation());
    json::Array fs;
    for (auto *f : RD->fields()) {
      json::Object fo{{"n", f->getNameAsString()}, {"t", ty(f->getType())}, {"tc", tc(f->getType())},
                      {"const", f->getType().isConstQualified()}, {"line", line(f->getLocation())}};
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
      fs.push_back(std::move(fo));
      noteType(f->getType());
    }
    o["fields"] = std::move(fs);
    json::Array bs, ms;
    if (auto *CX = dyn_cast<CXXRecordDecl>(RD)) {
      for (auto &b : CX->bases())
        if (auto *br = b.getType()->getAsCXXRecordDecl()) { bs.push_back(rname(br)); noteRecord(br); }
      for (auto *m : CX->methods()) {
        if (m->isImplicit()) continue;
        ms.push_back(json::Object{{"n", m->getNameAsString()}, {"key", fkey(m)}, {"virt", m->isVirtual()},
           {"pure", m->isPureVirtual()}, {"const", m->isConst()}, {"deleted", m->isDeleted()}, {"defaulted", m->isDefaulted()},
           {"acc", (int)m->getAccess()}, {"line", line(m->getLocation())}, {"nparm", (int)m->getNumParams()}});
      }
      o["abstract"] = CX->isAbstract();
      o["copyctor"] = CX->hasSimpleCopyConstructor() || CX->hasUserDeclaredCopyConstructor();
      o["implcopyctor"] = CX->hasSimpleCopyConstructor();
      o["implcopyassign"] = CX->hasSimpleCopyAssignment();
    }
    o["bases"] = std::move(bs); o["methods"] = std::move(ms);
    records.push_back(std::move(o));
  }
  void noteGlobal(const VarDecl *V) {
    V = V->getCanonicalDecl();
    const VarDecl *D = V->getDefinition(); if (D) V = D;
    if (!inRoots(V->getLocation())) return;
    if (!globs.insert(V).second) return;
    json::Object o{{"id", id(V)}, {"n", V->getQualifiedNameAsString()}, {"t", ty(V->getType())}, {"tc", tc(V->getType())},
       {"file", file(V->getLocation())}, {"line", line(V->getLocation())}, {"static", V->isStaticLocal()}};
    if (V->getAnyInitializer()) o["init"] = expr(V->getAnyInitializer());
    globals.push_back(std::move(o));
  }

  // ---------- expressions ----------
  json::Value E(const Expr *e) { return e ? expr(e) : json::Value(nullptr); }
  json::Array args(CallExpr::const_arg_range r) { json::Array a; for (auto *x : r) a.push_back(E(x)); return a; }

  json::Value expr(const Expr *e) {
    json::Object o;
    const Expr *orig = e;
    // transparent wrappers
    while (true) {
      if (auto *x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto *x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
        auto ck = x->getCastKind();
        if (ck == CK_FloatingToIntegral || ck == CK_IntegralToBoolean || ck == CK_FloatingToBoolean || ck == CK_PointerToBoolean)
          break;
        e = x->getSubExpr(); continue; }
      break;
    }
    o["line"] = line(e->getExprLoc());
    o["t"] = ty(orig->getType()); o["tc"] = tc(orig->getType());
    noteType(orig->getType());
    // constants folded by the front end
    if (!e->isValueDependent() && (e->getType()->isIntegralOrEnumerationType()) && !e->isLValue()) {
      Expr::EvalResult R;
      if (e->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        auto v = R.Val.getInt();
        o["cv"] = v.isUnsigned() && v.getActiveBits() > 63 ? (int64_t)INT64_MAX : (int64_t)v.getExtValue();
      }
    }
    if (auto *x = dyn_cast<IntegerLiteral>(e)) { o["k"] = "int"; o["v"] = (int64_t)x->getValue().getLimitedValue(INT64_MAX); return o; }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "int"; o["v"] = (int64_t)x->getValue(); o["chr"] = true; return o; }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "int"; o["v"] = (int64_t)x->getValue(); return o; }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "flt"; o["v"] = x->getValueAsApproximateDouble(); return o; }
    if (auto *x = dyn_cast<StringLiteral>(e)) { o["k"] = "str"; if (x->getCharByteWidth()==1) o["v"] = json::fixUTF8(x->getString()); return o; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; return o; }
    if (isa<CXXThisExpr>(e)) { o["k"] = "this"; return o; }
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *D = x->getDecl();
      o["k"] = "ref"; o["n"] = D->getNameAsString();
      if (auto *ec = dyn_cast<EnumConstantDecl>(D)) {
        o["dk"] = "enum"; o["cv"] = (int64_t)ec->getInitVal().getExtValue();
        o["en"] = cast<EnumDecl>(ec->getDeclContext())->getQualifiedNameAsString();
        noteEnum(cast<EnumDecl>(ec->getDeclContext()));
      } else if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        o["dk"] = "func"; o["fn"] = fname(FD); o["key"] = fkey(FD);
      } else if (auto *VD = dyn_cast<VarDecl>(D)) {
        o["dk"] = VD->hasGlobalStorage() ? "glob" : (isa<ParmVarDecl>(VD) ? "parm" : "var");
        o["id"] = id(VD); o["dt"] = ty(VD->getType());
        if (VD->hasGlobalStorage()) { o["n"] = VD->getQualifiedNameAsString(); noteGlobal(VD); }
      } else o["dk"] = "other";
      return o;
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      const ValueDecl *D = x->getMemberDecl();
      if (auto *f = dyn_cast<FieldDecl>(D)) {
        o["k"] = "mem"; o["f"] = f->getNameAsString(); o["cls"] = rname(f->getParent()); o["arrow"] = x->isArrow();
        o["b"] = E(x->getBase()); noteRecord(f->getParent()); return o;
      }
      if (auto *VD = dyn_cast<VarDecl>(D)) {
        o["k"] = "ref"; o["dk"] = "glob"; o["n"] = VD->getQualifiedNameAsString(); o["id"] = id(VD); noteGlobal(VD); return o;
      }
      if (auto *m = dyn_cast<CXXMethodDecl>(D)) {
        o["k"] = "memfn"; o["fn"] = fname(m); o["key"] = fkey(m); o["b"] = E(x->getBase()); return o;
      }
      o["k"] = "other"; o["cls"] = "MemberExpr"; return o;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "idx"; o["b"] = E(x->getBase()); o["i"] = E(x->getIdx()); return o; }
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); o["e"] = E(x->getSubExpr()); return o; }
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = "bin"; o["op"] = x->getOpcodeStr().str(); o["l"] = E(x->getLHS()); o["r"] = E(x->getRHS()); 
      o["asg"] = x->isAssignmentOp(); return o; }
    if (auto *x = dyn_cast<ConditionalOperator>(e)) { o["k"] = "cond"; o["c"] = E(x->getCond()); o["a"] = E(x->getTrueExpr()); o["b"] = E(x->getFalseExpr()); return o; }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { o["k"] = "sizeof"; o["st"] = ty(x->getTypeOfArgument()); return o; }
    if (auto *x = dyn_cast<CastExpr>(e)) {
      o["k"] = "cast"; o["ck"] = x->getCastKindName(); o["e"] = E(x->getSubExpr());
      o["expl"] = isa<ExplicitCastExpr>(x); 
      if (isa<CXXReinterpretCastExpr>(x)) o["reint"] = true;
      return o; }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "call"; 
      if (auto *m = x->getMethodDecl()) {
        o["fn"] = fname(m); o["key"] = fkey(m); o["mn"] = m->getNameAsString(); o["cls"] = rname(m->getParent());
        bool virt = m->isVirtual();
        if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
          o["arrow"] = me->isArrow(); if (me->hasQualifier()) virt = false; }
        o["virt"] = virt;
      }
      if (x->getImplicitObjectArgument()) o["obj"] = E(x->getImplicitObjectArgument());
      o["args"] = args(x->arguments()); return o; }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "opcall"; o["op"] = getOperatorSpelling(x->getOperator());
      if (auto *f = x->getDirectCallee()) { o["fn"] = fname(f); o["key"] = fkey(f); o["ismem"] = isa<CXXMethodDecl>(f); }
      o["args"] = args(x->arguments()); return o; }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call";
      if (auto *f = x->getDirectCallee()) { o["fn"] = fname(f); o["key"] = fkey(f); o["mn"] = f->getNameAsString();
        o["ret"] = ty(f->getReturnType()); }
      else o["callee"] = E(x->getCallee());
      o["args"] = args(x->arguments()); return o; }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      // elidable / trivial copies are transparent
      if (x->isElidable() && x->getNumArgs() == 1) return expr(x->getArg(0));
      o["k"] = "ctor"; o["cls"] = rname(x->getConstructor()->getParent()); o["key"] = fkey(x->getConstructor());
      o["copy"] = x->getConstructor()->isCopyConstructor(); o["move"] = x->getConstructor()->isMoveConstructor();
      o["implicit"] = x->getConstructor()->isImplicit() || x->getConstructor()->isDefaulted();
      json::Array a; for (auto *y : x->arguments()) a.push_back(E(y)); o["args"] = std::move(a);
      noteRecord(x->getConstructor()->getParent());
      return o; }
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      o["k"] = "initlist"; json::Array a; for (auto *y : x->inits()) a.push_back(E(y)); o["args"] = std::move(a);
      json::Array fn; 
      if (auto *RD = x->getType()->getAsRecordDecl()) { for (auto *f : RD->fields()) fn.push_back(f->getNameAsString()); o["cls"] = rname(RD); }
      o["fields"] = std::move(fn);
      return o; }
    if (auto *x = dyn_cast<CXXScalarValueInitExpr>(e)) { (void)x; o["k"] = "zero"; return o; }
    if (auto *x = dyn_cast<ImplicitValueInitExpr>(e)) { (void)x; o["k"] = "zero"; return o; }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new"; o["at"] = ty(x->getAllocatedType()); o["arr"] = x->isArray(); noteType(x->getAllocatedType());
      if (x->isArray() && x->getArraySize()) o["n"] = E(*x->getArraySize());
      if (x->getInitializer()) o["init"] = E(x->getInitializer());
      json::Array pa; for (auto *y : x->placement_arguments()) pa.push_back(E(y)); o["place"] = std::move(pa);
      return o; }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "delete"; o["arr"] = x->isArrayForm(); o["e"] = E(x->getArgument()); return o; }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "throw"; if (x->getSubExpr()) { o["e"] = E(x->getSubExpr()); o["tt"] = ty(x->getSubExpr()->getType()); } return o; }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda"; json::Array ps; 
      for (auto *p : x->getCallOperator()->parameters()) ps.push_back(parm(p));
      o["params"] = std::move(ps); o["body"] = stmt(x->getBody()); o["key"] = fkey(x->getCallOperator()); return o; }
    if (auto *x = dyn_cast<CXXTemporaryObjectExpr>(e)) { (void)x; }
    if (auto *x = dyn_cast<StmtExpr>(e)) { o["k"] = "stmtexpr"; o["body"] = stmt(x->getSubStmt()); return o; }
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return expr(x->getSourceExpr()); }
    if (auto *x = dyn_cast<PredefinedExpr>(e)) { (void)x; o["k"] = "str"; o["v"] = "__func__"; return o; }
    o["k"] = "other"; o["cls"] = e->getStmtClassName();
    json::Array ch; for (auto *c : e->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) ch.push_back(E(ce)); o["ch"] = std::move(ch);
    return o;
  }
  json::Value parm(const ParmVarDecl *p) {
    noteType(p->getType());
    json::Object o{{"id", id(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}, {"tc", tc(p->getType())}};
    return o;
  }
  // ---------- statements ----------
  json::Value vardecl(const VarDecl *v) {
    noteType(v->getType());
    json::Object o{{"id", id(v)}, {"n", v->getNameAsString()}, {"t", ty(v->getType())}, {"tc", tc(v->getType())}, {"line", line(v->getLocation())}};
    if (v->isStaticLocal()) { o["static"] = true; noteGlobal(v); }
    if (v->getInit()) o["init"] = E(v->getInit());
    return o;
  }
  json::Value S(const Stmt *s) { return s ? stmt(s) : json::Value(nullptr); }
  json::Value stmt(const Stmt *s) {
    json::Object o; o["line"] = line(s->getBeginLoc());
    if (auto *x = dyn_cast<CompoundStmt>(s)) { json::Array a; for (auto *c : x->body()) a.push_back(S(c)); o["k"] = "blk"; o["s"] = std::move(a); return o; }
    if (auto *x = dyn_cast<DeclStmt>(s)) {
      json::Array a; for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v));
      o["k"] = "decl"; o["v"] = std::move(a); return o; }
    if (auto *x = dyn_cast<IfStmt>(s)) { o["k"] = "if"; if (x->getInit()) o["init"] = S(x->getInit()); o["c"] = E(x->getCond()); o["a"] = S(x->getThen()); o["b"] = S(x->getElse());
      if (x->getConditionVariable()) o["cvar"] = vardecl(x->getConditionVariable()); return o; }
    if (auto *x = dyn_cast<ForStmt>(s)) { o["k"] = "for"; o["init"] = S(x->getInit()); o["c"] = E(x->getCond()); o["inc"] = E(x->getInc()); o["body"] = S(x->getBody()); return o; }
    if (auto *x = dyn_cast<WhileStmt>(s)) { o["k"] = "while"; o["c"] = E(x->getCond()); o["body"] = S(x->getBody()); return o; }
    if (auto *x = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = E(x->getCond()); o["body"] = S(x->getBody()); return o; }
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) { o["k"] = "rangefor"; o["var"] = vardecl(x->getLoopVariable()); o["range"] = E(x->getRangeInit()); o["body"] = S(x->getBody()); return o; }
    if (auto *x = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; if (x->getRetValue()) o["e"] = E(x->getRetValue()); return o; }
    if (isa<BreakStmt>(s)) { o["k"] = "break"; return o; }
    if (isa<ContinueStmt>(s)) { o["k"] = "continue"; return o; }
    if (isa<NullStmt>(s)) { o["k"] = "null"; return o; }
    if (auto *x = dyn_cast<SwitchStmt>(s)) { o["k"] = "switch"; o["c"] = E(x->getCond()); o["body"] = S(x->getBody()); return o; }
    if (auto *x = dyn_cast<CaseStmt>(s)) { o["k"] = "case"; o["e"] = E(x->getLHS()); o["s"] = S(x->getSubStmt()); return o; }
    if (auto *x = dyn_cast<DefaultStmt>(s)) { o["k"] = "default"; o["s"] = S(x->getSubStmt()); return o; }
    if (auto *x = dyn_cast<LabelStmt>(s)) { o["k"] = "label"; o["s"] = S(x->getSubStmt()); return o; }
    if (auto *x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if (auto *x = dyn_cast<CXXTryStmt>(s)) { o["k"] = "try"; o["body"] = S(x->getTryBlock()); json::Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) { auto *h = x->getHandler(i); json::Object ho;
        ho["t"] = h->getExceptionDecl() ? ty(h->getCaughtType()) : std::string("..."); if (h->getExceptionDecl()) ho["var"] = vardecl(h->getExceptionDecl());
        ho["body"] = S(h->getHandlerBlock()); hs.push_back(std::move(ho)); }
      o["h"] = std::move(hs); return o; }
    if (auto *x = dyn_cast<OMPExecutableDirective>(s)) {
      o["k"] = "omp"; o["d"] = getOpenMPDirectiveName(x->getDirectiveKind()).str();
      json::Array cl;
      for (auto *c : x->clauses()) {
        if (c->isImplicit()) continue;
        json::Object co; co["c"] = getOpenMPClauseName(c->getClauseKind()).str();
        if (auto *y = dyn_cast<OMPScheduleClause>(c)) { 
          co["kind"] = getOpenMPSimpleClauseTypeName(llvm::omp::OMPC_schedule, y->getScheduleKind());
          if (y->getChunkSize()) co["chunk"] = E(y->getChunkSize()); }
        else if (auto *y = dyn_cast<OMPIfClause>(c)) co["e"] = E(y->getCondition());
        else if (auto *y = dyn_cast<OMPNumThreadsClause>(c)) co["e"] = E(y->getNumThreads());
        else if (auto *y = dyn_cast<OMPReductionClause>(c)) { co["op"] = y->getNameInfo().getAsString(); json::Array v; for (auto *r : y->varlists()) v.push_back(E(r)); co["v"] = std::move(v); }
        else if (auto *y = dyn_cast<OMPPrivateClause>(c)) { json::Array v; for (auto *r : y->varlists()) v.push_back(E(r)); co["v"] = std::move(v); }
        else if (auto *y = dyn_cast<OMPFirstprivateClause>(c)) { json::Array v; for (auto *r : y->varlists()) v.push_back(E(r)); co["v"] = std::move(v); }
        else if (auto *y = dyn_cast<OMPLastprivateClause>(c)) { json::Array v; for (auto *r : y->varlists()) v.push_back(E(r)); co["v"] = std::move(v); }
        else if (auto *y = dyn_cast<OMPSharedClause>(c)) { json::Array v; for (auto *r : y->varlists()) v.push_back(E(r)); co["v"] = std::move(v); }
        else if (auto *y = dyn_cast<OMPLinearClause>(c)) { json::Array v; for (auto *r : y->varlists()) v.push_back(E(r)); co["v"] = std::move(v); }
        else if (auto *y = dyn_cast<OMPDefaultClause>(c)) co["e"] = y->getDefaultKind() == llvm::omp::OMP_DEFAULT_shared ? "shared" : "other";
        cl.push_back(std::move(co));
      }
      o["cl"] = std::move(cl);
      if (x->hasAssociatedStmt()) {
        const Stmt *b = x->getAssociatedStmt();
        while (auto *cs = dyn_cast<CapturedStmt>(b)) b = cs->getCapturedStmt();
        o["body"] = S(b);
      }
      return o; }
    if (auto *x = dyn_cast<CapturedStmt>(s)) return stmt(x->getCapturedStmt());
    if (auto *x = dyn_cast<Expr>(s)) { o["k"] = "expr"; o["e"] = E(x); return o; }
    o["k"] = "other"; o["cls"] = s->getStmtClassName(); 
    json::Array ch; for (auto *c : s->children()) if (c) ch.push_back(S(c)); o["s"] = std::move(ch);
    return o;
  }
  // ---------- functions ----------
  void func(const FunctionDecl *FD) {
    if (!FD->doesThisDeclarationHaveABody() && !FD->isDefaulted()) return;
    if (FD->isDependentContext() || FD->getType()->isDependentType()) return;
    if (FD->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return;
    if (!inRoots(FD->getLocation())) return;
    if (!seen.insert(FD).second) return;
    const Stmt *B = FD->getBody();
    if (!B && !isa<CXXConstructorDecl>(FD)) return;
    json::Object o;
    o["key"] = fkey(FD); o["fn"] = fname(FD); o["q"] = FD->getQualifiedNameAsString();
    o["n"] = FD->getNameAsString();
    o["file"] = file(FD->getLocation()); o["line"] = line(FD->getLocation());
    o["ret"] = ty(FD->getReturnType()); o["rtc"] = tc(FD->getReturnType());
    o["static"] = FD->getStorageClass() == SC_Static; o["externc"] = FD->isExternC();
    json::Array ps; for (auto *p : FD->parameters()) ps.push_back(parm(p)); o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      o["cls"] = rname(M->getParent()); o["ctmpl"] = M->getParent()->getQualifiedNameAsString();
      o["const"] = M->isConst(); o["virt"] = M->isVirtual(); o["mstatic"] = M->isStatic();
      noteRecord(M->getParent());
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      o["ctor"] = true; o["copy"] = CD->isCopyConstructor(); o["move"] = CD->isMoveConstructor(); o["implicit"] = CD->isImplicit();
      json::Array is;
      for (auto *i : CD->inits()) {
        json::Object io; io["written"] = i->isWritten();
        if (i->isAnyMemberInitializer()) { io["kind"] = "mem"; io["f"] = i->getAnyMember()->getNameAsString(); }
        else if (i->isDelegatingInitializer()) io["kind"] = "deleg";
        else { io["kind"] = "base"; if (auto *br = i->getBaseClass()->getAsCXXRecordDecl()) io["cls"] = rname(br); }
        if (i->getInit()) io["e"] = E(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(FD)) o["dtor"] = true;
    if (B) o["body"] = stmt(B);
    if (B) o["eline"] = line(B->getEndLoc());
    funcs.push_back(std::move(o));
  }
};

struct V : RecursiveASTVisitor<V> {
  Exporter &X; V(Exporter &x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool TraverseDecl(Decl *D) {
    // skip system headers quickly
    if (D && !isa<TranslationUnitDecl>(D) && !isa<NamespaceDecl>(D) && !isa<LinkageSpecDecl>(D)) {
      SourceLocation L = D->getLocation();
      if (L.isValid() && X.SM.isInSystemHeader(X.SM.getExpansionLoc(L))) return true;
    }
    return RecursiveASTVisitor<V>::TraverseDecl(D);
  }
  bool VisitFunctionDecl(FunctionDecl *F) { X.func(F); return true; }
  bool VisitRecordDecl(RecordDecl *R) { if (!R->isDependentContext()) X.noteRecord(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { X.noteEnum(E); return true; }
  bool VisitVarDecl(VarDecl *D) { if (D->hasGlobalStorage() && !D->getDeclContext()->isDependentContext() && !D->getType()->isDependentType()) X.noteGlobal(D); return true; }
};

struct Cons : ASTConsumer {
  CompilerInstance &CI; std::string In;
  Cons(CompilerInstance &ci, StringRef in) : CI(ci), In(in.str()) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    Exporter X(Ctx); V v(X); v.TraverseDecl(Ctx.getTranslationUnitDecl());
    json::Object o{{"tu", In}, {"errors", (int)CI.getDiagnostics().hasErrorOccurred()}};
    o["funcs"] = std::move(X.funcs); o["records"] = std::move(X.records); o["enums"] = std::move(X.enums); o["globals"] = std::move(X.globals);
    llvm::outs() << json::Value(std::move(o)) << "\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef f) override { return std::make_unique<Cons>(CI, f); }
};

int main(int argc, const char **argv) {
  // sexport ROOT[,ROOT...] FILE -- clang args
  if (argc < 4) { llvm::errs() << "usage: sexport roots file -- args\n"; return 2; }
  StringRef rs(argv[1]); llvm::SmallVector<StringRef, 4> parts; rs.split(parts, ',');
  for (auto p : parts) Roots.push_back(p.str());
  std::string f = argv[2];
  std::vector<std::string> a; for (int i = 4; i < argc; i++) a.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", a);
  tooling::ClangTool T(DB, {f});
  T.clearArgumentsAdjusters();
  T.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
