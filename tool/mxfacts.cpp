// mxfacts: dumps a compact, type-resolved form of every function, record, enum and variable that is
// defined below a root directory, one JSON file per translation unit.  Nothing is executed: the tool
// is a clang front end action over the source text.
//
// usage: mxfacts ROOT LISTFILE -- <compiler args>
//   LISTFILE: lines "<source>\t<output>"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using namespace clang;

static std::string ROOT;

static void esc( std::string& o, llvm::StringRef s )
{
    o += '"';
    for( unsigned char c : s )
    {
        switch( c )
        {
            case '"': o += "\\\""; break;
            case '\\': o += "\\\\"; break;
            case '\n': o += "\\n"; break;
            case '\t': o += "\\t"; break;
            case '\r': o += "\\r"; break;
            default:
                if( c < 32 || c > 126 )
                {
                    char b[8];
                    snprintf( b, sizeof b, "\\u%04x", c );
                    o += b;
                }
                else
                    o += static_cast<char>( c );
        }
    }
    o += '"';
}

struct TU
{
    std::string functions, records, enums, globals, includes;
    std::vector<std::string> fnTable;
    std::map<std::string, uint64_t> fnIndex;
    std::set<std::string> emittedFns, emittedRecords, emittedEnums, emittedGlobals;
    std::set<std::string> deps;
};

class Dumper : public RecursiveASTVisitor<Dumper>
{
  public:
    Dumper( ASTContext& c, TU& t ) : C{ c }, SM{ c.getSourceManager() }, T{ t }, PP{ c.getLangOpts() }
    {
        PP.SuppressTagKeyword = true;
        PP.SuppressUnwrittenScope = true;
        PP.FullyQualifiedName = true;
        PP.Bool = true;
        PP.PrintCanonicalTypes = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool shouldVisitLambdaBody() const { return true; }

    std::string fileOf( SourceLocation l )
    {
        auto f = SM.getFilename( SM.getExpansionLoc( l ) );
        llvm::SmallString<256> p{ f };
        llvm::sys::path::remove_dots( p, true );
        return std::string{ p };
    }
    bool inRoot( SourceLocation l )
    {
        if( l.isInvalid() )
            return false;
        auto f = fileOf( l );
        return f.compare( 0, ROOT.size(), ROOT ) == 0;
    }
    std::string rel( SourceLocation l )
    {
        auto f = fileOf( l );
        if( f.compare( 0, ROOT.size(), ROOT ) == 0 )
            return f.substr( ROOT.size() );
        return f;
    }
    int line( SourceLocation l ) { return static_cast<int>( SM.getExpansionLineNumber( l ) ); }

    std::string ty( QualType q )
    {
        return q.getCanonicalType().getAsString( PP );
    }
    std::string qn( const NamedDecl* d )
    {
        std::string s;
        llvm::raw_string_ostream os{ s };
        d->printQualifiedName( os, PP );
        return os.str();
    }
    // record name including template arguments
    std::string rn( const CXXRecordDecl* r ) { return ty( C.getTypeDeclType( r ) ); }

    std::string usr( const Decl* d )
    {
        llvm::SmallString<256> b;
        if( index::generateUSRForDecl( d, b ) )
            return "?";
        return std::string{ b };
    }

    static uint64_t hash52( const std::string& s )
    {
        uint64_t h = 1469598103934665603ull;
        for( unsigned char c : s )
        {
            h ^= c;
            h *= 1099511628211ull;
        }
        return ( h ^ ( h >> 52 ) ) & 0xFFFFFFFFFFFFFull;
    }
    uint64_t fnId( const FunctionDecl* f )
    {
        const FunctionDecl* def = f;
        std::string u = usr( f );
        if( isa<CXXMethodDecl>( f ) && cast<CXXMethodDecl>( f )->getParent()->isLambda() )
            u += rel( f->getLocation() ) + std::to_string( line( f->getLocation() ) );
        if( f->getStorageClass() == SC_Static && !isa<CXXMethodDecl>( f ) || f->isInAnonymousNamespace() )
            u += "@" + fileOf( f->getLocation() );
        auto it = T.fnIndex.find( u );
        if( it != T.fnIndex.end() )
            return it->second;
        uint64_t id = hash52( u );
        T.fnIndex[u] = id;
        std::string o = "\"" + std::to_string( id ) + "\":[";
        esc( o, qn( def ) );
        o += ",";
        const auto* m = dyn_cast<CXXMethodDecl>( f );
        esc( o, m ? rn( m->getParent() ) : std::string{} );
        o += ",";
        esc( o, ty( f->getReturnType() ) );
        o += ",[";
        for( unsigned i = 0; i < f->getNumParams(); ++i )
        {
            if( i )
                o += ",";
            esc( o, ty( f->getParamDecl( i )->getType() ) );
        }
        o += "],\"";
        if( m )
        {
            if( m->isConst() )
                o += 'c';
            if( m->isVirtual() )
                o += 'v';
            if( m->isStatic() )
                o += 's';
            if( m->isPureVirtual() )
                o += 'p';
            if( m->getAccess() == AS_private || m->getAccess() == AS_protected )
                o += 'z';
        }
        SourceLocation fl = f->getLocation();
        if( const auto* pat = f->getTemplateInstantiationPattern() )
            fl = pat->getLocation();
        if( inRoot( fl ) )
            o += 'r';
        if( isa<CXXConstructorDecl>( f ) )
            o += 'k';
        if( isa<CXXDestructorDecl>( f ) )
            o += 'd';
        if( f->isImplicit() || f->isDefaulted() )
            o += 'i';
        if( f->isDeleted() )
            o += 'x';
        if( f->isNoReturn() )
            o += 'n';
        o += "\"]";
        T.fnTable.push_back( o );
        return id;
    }

    // ------------------------------------------------------------------ expressions
    std::map<const ValueDecl*, int> vars;
    int vid( const ValueDecl* v )
    {
        auto it = vars.find( v );
        if( it != vars.end() )
            return it->second;
        int id = static_cast<int>( vars.size() );
        vars[v] = id;
        return id;
    }

    void L( std::string& o, const char* k, SourceLocation l )
    {
        o += "[\"";
        o += k;
        o += "\",";
        o += std::to_string( l.isValid() ? line( l ) : 0 );
    }
    void X( std::string& o, const Stmt* s )
    {
        if( !s )
        {
            o += "null";
            return;
        }
        if( const auto* e = dyn_cast<Expr>( s ) )
            E( o, e );
        else
            S( o, s );
    }
    template <typename R> void args( std::string& o, R r, unsigned skip = 0 )
    {
        o += "[";
        bool first = true;
        unsigned i = 0;
        for( const auto* a : r )
        {
            if( i++ < skip )
                continue;
            if( !first )
                o += ",";
            first = false;
            X( o, a );
        }
        o += "]";
    }
    static bool numericKind( CastKind k )
    {
        return k == CK_FloatingToIntegral || k == CK_IntegralToFloating || k == CK_IntegralCast
               || k == CK_FloatingCast || k == CK_IntegralToBoolean || k == CK_FloatingToBoolean
               || k == CK_PointerToBoolean || k == CK_PointerToIntegral || k == CK_IntegralToPointer;
    }

    void E( std::string& o, const Expr* e )
    {
        SourceLocation l = e->getExprLoc();
        if( const auto* p = dyn_cast<ParenExpr>( e ) )
            return E( o, p->getSubExpr() );
        if( const auto* p = dyn_cast<FullExpr>( e ) )
        {
            return E( o, p->getSubExpr() );
        }
        if( const auto* p = dyn_cast<MaterializeTemporaryExpr>( e ) )
            return E( o, p->getSubExpr() );
        if( const auto* p = dyn_cast<CXXBindTemporaryExpr>( e ) )
            return E( o, p->getSubExpr() );
        if( const auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>( e ) )
            return E( o, p->getReplacement() );
        if( const auto* p = dyn_cast<CXXDefaultArgExpr>( e ) )
            return E( o, p->getExpr() );
        if( const auto* p = dyn_cast<CXXDefaultInitExpr>( e ) )
            return E( o, p->getExpr() );
        if( const auto* p = dyn_cast<CXXRewrittenBinaryOperator>( e ) )
            return E( o, p->getSemanticForm() );
        if( const auto* p = dyn_cast<CXXStdInitializerListExpr>( e ) )
            return E( o, p->getSubExpr() );
        if( const auto* p = dyn_cast<ImplicitCastExpr>( e ) )
        {
            if( numericKind( p->getCastKind() ) && !p->isPartOfExplicitCast() )
            {
                // fold constant integral conversions away
                Expr::EvalResult r;
                if( p->getType()->isIntegralOrEnumerationType() && !p->getType()->isBooleanType() && p->EvaluateAsInt( r, C )
                    && isa<IntegerLiteral>( p->getSubExpr()->IgnoreParenImpCasts() ) )
                {
                    return E( o, p->getSubExpr() );
                }
                L( o, "cast", l );
                o += ",\"i:";
                o += p->getCastKindName();
                o += "\",";
                esc( o, ty( p->getType() ) );
                o += ",";
                esc( o, ty( p->getSubExpr()->getType() ) );
                o += ",";
                E( o, p->getSubExpr() );
                o += "]";
                return;
            }
            return E( o, p->getSubExpr() );
        }
        if( const auto* p = dyn_cast<ExplicitCastExpr>( e ) )
        {
            // what an explicit conversion does to a number is recorded by the implicit one below it
            const CastExpr* w = p;
            if( const auto* in = dyn_cast<ImplicitCastExpr>( p->getSubExpr() ) )
                if( numericKind( in->getCastKind() ) && in->isPartOfExplicitCast() )
                    w = in;
            L( o, "cast", l );
            o += ",\"x:";
            o += w->getCastKindName();
            o += "\",";
            esc( o, ty( p->getType() ) );
            o += ",";
            esc( o, ty( w->getSubExpr()->getType() ) );
            o += ",";
            E( o, p->getSubExpr() );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<DeclRefExpr>( e ) )
        {
            const ValueDecl* d = p->getDecl();
            if( const auto* ec = dyn_cast<EnumConstantDecl>( d ) )
            {
                L( o, "e", l );
                o += ",";
                // name as Enum::constant
                std::string q;
                if( const auto* ed = dyn_cast<EnumDecl>( ec->getDeclContext() ) )
                    q = qn( ed ) + "::" + ec->getNameAsString();
                else
                    q = qn( ec );
                esc( o, q );
                o += ",";
                llvm::SmallString<32> v;
                ec->getInitVal().toString( v, 10 );
                o += std::string{ v };
                o += "]";
                return;
            }
            if( const auto* fd = dyn_cast<FunctionDecl>( d ) )
            {
                L( o, "fn", l );
                o += ",";
                o += std::to_string( fnId( fd ) );
                o += "]";
                return;
            }
            if( const auto* vd = dyn_cast<VarDecl>( d ) )
            {
                if( vd->hasGlobalStorage() && !vd->isStaticLocal() )
                {
                    L( o, "g", l );
                    o += ",";
                    esc( o, qn( vd ) );
                    o += "]";
                    return;
                }
            }
            L( o, "v", l );
            o += ",";
            o += std::to_string( vid( d ) );
            o += ",";
            esc( o, d->getNameAsString() );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<MemberExpr>( e ) )
        {
            const ValueDecl* d = p->getMemberDecl();
            if( const auto* fd = dyn_cast<FieldDecl>( d ) )
            {
                L( o, "m", l );
                o += ",";
                E( o, p->getBase() );
                o += ",";
                esc( o, fd->getNameAsString() );
                o += ",";
                const auto* rd = dyn_cast<CXXRecordDecl>( fd->getParent() );
                esc( o, rd ? rn( rd ) : std::string{ "?" } );
                o += p->isArrow() ? ",1]" : ",0]";
                return;
            }
            if( const auto* vd = dyn_cast<VarDecl>( d ) )
            {
                L( o, "g", l );
                o += ",";
                esc( o, qn( vd ) );
                o += "]";
                return;
            }
            if( const auto* md = dyn_cast<FunctionDecl>( d ) )
            {
                L( o, "mf", l );
                o += ",";
                o += std::to_string( fnId( md ) );
                o += ",";
                E( o, p->getBase() );
                o += "]";
                return;
            }
        }
        if( isa<CXXThisExpr>( e ) )
        {
            L( o, "this", l );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<CXXOperatorCallExpr>( e ) )
        {
            const auto* f = p->getDirectCallee();
            const auto* m = f ? dyn_cast<CXXMethodDecl>( f ) : nullptr;
            if( m && m->getParent()->isLambda() )
            {
                L( o, "cl", l );
                o += ",";
                E( o, p->getArg( 0 ) );
                o += ",";
                args( o, p->arguments(), 1 );
                o += "]";
                return;
            }
            if( f )
            {
                L( o, "c", l );
                o += ",";
                o += std::to_string( fnId( f ) );
                o += ",";
                if( m && !m->isStatic() )
                {
                    E( o, p->getArg( 0 ) );
                    o += ",";
                    args( o, p->arguments(), 1 );
                }
                else
                {
                    o += "null,";
                    args( o, p->arguments() );
                }
                o += "]";
                return;
            }
        }
        if( const auto* p = dyn_cast<CXXMemberCallExpr>( e ) )
        {
            if( const auto* m = p->getMethodDecl() )
            {
                L( o, "c", l );
                o += ",";
                o += std::to_string( fnId( m ) );
                o += ",";
                E( o, p->getImplicitObjectArgument() );
                o += ",";
                args( o, p->arguments() );
                // a qualified call (Base::f()) is not dispatched
                if( const auto* me = dyn_cast<MemberExpr>( p->getCallee()->IgnoreParens() ) )
                    if( me->hasQualifier() )
                        o += ",1";
                o += "]";
                return;
            }
        }
        if( const auto* p = dyn_cast<CallExpr>( e ) )
        {
            if( const auto* f = p->getDirectCallee() )
            {
                L( o, "c", l );
                o += ",";
                o += std::to_string( fnId( f ) );
                o += ",null,";
                args( o, p->arguments() );
                o += "]";
                return;
            }
            L( o, "ci", l );
            o += ",";
            E( o, p->getCallee() );
            o += ",";
            args( o, p->arguments() );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<CXXConstructExpr>( e ) )
        {
            const auto* k = p->getConstructor();
            L( o, "k", l );
            o += ",";
            esc( o, rn( k->getParent() ) );
            o += ",";
            o += std::to_string( fnId( k ) );
            o += ",";
            args( o, p->arguments() );
            o += ",\"";
            if( k->isCopyConstructor() )
                o += "copy";
            else if( k->isMoveConstructor() )
                o += "move";
            else if( k->isDefaultConstructor() )
                o += p->requiresZeroInitialization() ? "zdef" : "def";
            if( isa<CXXTemporaryObjectExpr>( p ) )
                o += ",tmp";
            o += "\"]";
            return;
        }
        if( const auto* p = dyn_cast<CXXInheritedCtorInitExpr>( e ) )
        {
            (void)p;
        }
        if( const auto* p = dyn_cast<BinaryOperator>( e ) )
        {
            L( o, "b", l );
            o += ",";
            esc( o, p->getOpcodeStr() );
            o += ",";
            E( o, p->getLHS() );
            o += ",";
            E( o, p->getRHS() );
            o += ",";
            esc( o, ty( p->getType() ) );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<UnaryOperator>( e ) )
        {
            std::string op{ UnaryOperator::getOpcodeStr( p->getOpcode() ) };
            if( p->isPostfix() )
                op += "post";
            L( o, "u", l );
            o += ",";
            esc( o, op );
            o += ",";
            E( o, p->getSubExpr() );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<ConditionalOperator>( e ) )
        {
            L( o, "cond", l );
            o += ",";
            E( o, p->getCond() );
            o += ",";
            E( o, p->getTrueExpr() );
            o += ",";
            E( o, p->getFalseExpr() );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<StringLiteral>( e ) )
        {
            L( o, "s", l );
            o += ",";
            esc( o, p->getCharByteWidth() == 1 ? p->getString() : llvm::StringRef{ "?wide" } );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<IntegerLiteral>( e ) )
        {
            L( o, "n", l );
            o += ",";
            llvm::SmallString<32> v;
            p->getValue().toString( v, 10, !p->getType()->isUnsignedIntegerType() );
            o += std::string{ v };
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<FloatingLiteral>( e ) )
        {
            L( o, "fl", l );
            o += ",";
            llvm::SmallString<32> v;
            p->getValue().toString( v );
            esc( o, v );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<CharacterLiteral>( e ) )
        {
            L( o, "ch", l );
            o += ",";
            o += std::to_string( p->getValue() );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<CXXBoolLiteralExpr>( e ) )
        {
            L( o, "bo", l );
            o += p->getValue() ? ",true]" : ",false]";
            return;
        }
        if( isa<CXXNullPtrLiteralExpr>( e ) || isa<GNUNullExpr>( e ) )
        {
            L( o, "null", l );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<LambdaExpr>( e ) )
        {
            L( o, "lam", l );
            o += ",[";
            bool first = true;
            for( const auto* pv : p->getCallOperator()->parameters() )
            {
                if( !first )
                    o += ",";
                first = false;
                o += "[" + std::to_string( vid( pv ) ) + ",";
                esc( o, pv->getNameAsString() );
                o += ",";
                esc( o, ty( pv->getType() ) );
                o += "]";
            }
            o += "],";
            S( o, p->getBody() );
            o += ",[";
            first = true;
            for( const auto& c : p->captures() )
            {
                if( !first )
                    o += ",";
                first = false;
                if( c.capturesThis() )
                    o += "[\"this\"]";
                else if( c.capturesVariable() )
                {
                    o += c.getCaptureKind() == LCK_ByRef ? "[\"&\"," : "[\"=\",";
                    o += std::to_string( vid( c.getCapturedVar() ) );
                    o += "]";
                }
                else
                    o += "[\"?\"]";
            }
            o += "],";
            esc( o, ty( p->getCallOperator()->getReturnType() ) );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<InitListExpr>( e ) )
        {
            const InitListExpr* il = p;
            L( o, "il", l );
            o += ",";
            esc( o, ty( il->getType() ) );
            o += ",";
            args( o, il->inits() );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<ArraySubscriptExpr>( e ) )
        {
            L( o, "sub", l );
            o += ",";
            E( o, p->getBase() );
            o += ",";
            E( o, p->getIdx() );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<CXXNewExpr>( e ) )
        {
            L( o, "new", l );
            o += ",";
            esc( o, ty( p->getAllocatedType() ) );
            o += ",";
            X( o, p->getInitializer() );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<CXXDeleteExpr>( e ) )
        {
            L( o, "del", l );
            o += ",";
            E( o, p->getArgument() );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<CXXThrowExpr>( e ) )
        {
            L( o, "throw", l );
            o += ",";
            X( o, p->getSubExpr() );
            o += ",";
            esc( o, p->getSubExpr() ? ty( p->getSubExpr()->getType() ) : std::string{} );
            o += "]";
            return;
        }
        if( isa<CXXScalarValueInitExpr>( e ) || isa<ImplicitValueInitExpr>( e ) )
        {
            L( o, "zero", l );
            o += ",";
            esc( o, ty( e->getType() ) );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<UnaryExprOrTypeTraitExpr>( e ) )
        {
            Expr::EvalResult r;
            if( p->EvaluateAsInt( r, C ) )
            {
                L( o, "n", l );
                o += ",";
                llvm::SmallString<32> v;
                r.Val.getInt().toString( v, 10 );
                o += std::string{ v };
                o += "]";
                return;
            }
        }
        L( o, "x", l );
        o += ",";
        esc( o, e->getStmtClassName() );
        o += ",[";
        bool first = true;
        for( const auto* ch : e->children() )
        {
            if( !first )
                o += ",";
            first = false;
            X( o, ch );
        }
        o += "]]";
    }

    void D( std::string& o, const Decl* d, bool& first )
    {
        const auto* v = dyn_cast<VarDecl>( d );
        if( !v )
            return;
        if( !first )
            o += ",";
        first = false;
        o += "[" + std::to_string( vid( v ) ) + ",";
        esc( o, v->getNameAsString() );
        o += ",";
        esc( o, ty( v->getType() ) );
        o += ",";
        X( o, v->getInit() );
        o += v->isStaticLocal() ? ",\"s\"]" : ",\"\"]";
    }

    void S( std::string& o, const Stmt* s )
    {
        if( !s )
        {
            o += "null";
            return;
        }
        SourceLocation l = s->getBeginLoc();
        if( const auto* e = dyn_cast<Expr>( s ) )
            return E( o, e );
        if( const auto* p = dyn_cast<CompoundStmt>( s ) )
        {
            L( o, "{", l );
            o += ",[";
            bool first = true;
            for( const auto* c : p->body() )
            {
                if( isa<NullStmt>( c ) )
                    continue;
                if( !first )
                    o += ",";
                first = false;
                S( o, c );
            }
            o += "]]";
            return;
        }
        if( const auto* p = dyn_cast<DeclStmt>( s ) )
        {
            L( o, "d", l );
            o += ",[";
            bool first = true;
            for( const auto* d : p->decls() )
                D( o, d, first );
            o += "]]";
            return;
        }
        if( const auto* p = dyn_cast<IfStmt>( s ) )
        {
            if( p->isConstexpr() )
            {
                if( auto nd = p->getNondiscardedCase( C ) )
                {
                    if( *nd )
                        return S( o, *nd );
                    L( o, "{", l );
                    o += ",[]]";
                    return;
                }
            }
            L( o, "if", l );
            o += ",";
            if( p->getConditionVariableDeclStmt() )
                S( o, p->getConditionVariableDeclStmt() );
            else
                S( o, p->getInit() );
            o += ",";
            E( o, p->getCond() );
            o += ",";
            S( o, p->getThen() );
            o += ",";
            S( o, p->getElse() );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<WhileStmt>( s ) )
        {
            L( o, "while", l );
            o += ",";
            E( o, p->getCond() );
            o += ",";
            S( o, p->getBody() );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<DoStmt>( s ) )
        {
            L( o, "do", l );
            o += ",";
            S( o, p->getBody() );
            o += ",";
            E( o, p->getCond() );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<ForStmt>( s ) )
        {
            L( o, "for", l );
            o += ",";
            S( o, p->getInit() );
            o += ",";
            X( o, p->getCond() );
            o += ",";
            X( o, p->getInc() );
            o += ",";
            S( o, p->getBody() );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<CXXForRangeStmt>( s ) )
        {
            const auto* v = p->getLoopVariable();
            L( o, "rf", l );
            o += "," + std::to_string( vid( v ) ) + ",";
            esc( o, v->getNameAsString() );
            o += ",";
            esc( o, ty( v->getType() ) );
            o += ",";
            E( o, p->getRangeInit() );
            o += ",";
            S( o, p->getBody() );
            if( const auto* dd = dyn_cast<DecompositionDecl>( v ) )
            {
                o += ",[";
                bool first = true;
                for( const auto* b : dd->bindings() )
                {
                    if( !first )
                        o += ",";
                    first = false;
                    o += "[" + std::to_string( vid( b ) ) + ",";
                    esc( o, b->getNameAsString() );
                    o += "]";
                }
                o += "]";
            }
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<SwitchStmt>( s ) )
        {
            L( o, "sw", l );
            o += ",";
            E( o, p->getCond() );
            o += ",";
            S( o, p->getBody() );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<CaseStmt>( s ) )
        {
            L( o, "case", l );
            o += ",";
            E( o, p->getLHS() );
            o += ",";
            S( o, p->getSubStmt() );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<DefaultStmt>( s ) )
        {
            L( o, "dflt", l );
            o += ",";
            S( o, p->getSubStmt() );
            o += "]";
            return;
        }
        if( const auto* p = dyn_cast<ReturnStmt>( s ) )
        {
            L( o, "ret", l );
            o += ",";
            X( o, p->getRetValue() );
            o += "]";
            return;
        }
        if( isa<BreakStmt>( s ) )
        {
            L( o, "brk", l );
            o += "]";
            return;
        }
        if( isa<ContinueStmt>( s ) )
        {
            L( o, "cnt", l );
            o += "]";
            return;
        }
        if( isa<NullStmt>( s ) )
        {
            L( o, "{", l );
            o += ",[]]";
            return;
        }
        if( const auto* p = dyn_cast<CXXTryStmt>( s ) )
        {
            L( o, "try", l );
            o += ",";
            S( o, p->getTryBlock() );
            o += ",[";
            for( unsigned i = 0; i < p->getNumHandlers(); ++i )
            {
                const auto* h = p->getHandler( i );
                if( i )
                    o += ",";
                o += "[";
                if( h->getExceptionDecl() )
                {
                    o += std::to_string( vid( h->getExceptionDecl() ) ) + ",";
                    esc( o, ty( h->getExceptionDecl()->getType() ) );
                }
                else
                    o += "null,\"...\"";
                o += ",";
                S( o, h->getHandlerBlock() );
                o += "]";
            }
            o += "]]";
            return;
        }
        L( o, "xs", l );
        o += ",";
        esc( o, s->getStmtClassName() );
        o += ",[";
        bool first = true;
        for( const auto* ch : s->children() )
        {
            if( !first )
                o += ",";
            first = false;
            X( o, ch );
        }
        o += "]]";
    }

    // ------------------------------------------------------------------ declarations
    bool TraverseLambdaExpr( LambdaExpr* ) { return true; } // bodies are dumped inline

    bool VisitFunctionDecl( FunctionDecl* f )
    {
        if( !f->doesThisDeclarationHaveABody() && !( f->isDefaulted() && f->isThisDeclarationADefinition() ) )
            return true;
        if( f->isDependentContext() || f->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate )
            return true;
        if( const auto* m = dyn_cast<CXXMethodDecl>( f ) )
            if( m->getParent()->isLambda() || m->getParent()->isDependentContext() )
                return true;
        SourceLocation loc = f->getLocation();
        if( const auto* pat = f->getTemplateInstantiationPattern() )
            loc = pat->getLocation();
        if( !inRoot( loc ) )
            return true;
        if( f->isDefaulted() && !f->doesThisDeclarationHaveABody() )
            return true;
        std::string u = usr( f );
        if( !T.emittedFns.insert( u ).second )
            return true;
        vars.clear();
        std::string o;
        if( !T.functions.empty() )
            o += ",\n";
        o += "{\"i\":" + std::to_string( fnId( f ) ) + ",\"file\":";
        esc( o, rel( f->getBeginLoc() ) );
        o += ",\"l\":" + std::to_string( line( f->getBeginLoc() ) );
        o += ",\"le\":" + std::to_string( line( f->getEndLoc() ) );
        o += ",\"p\":[";
        for( unsigned i = 0; i < f->getNumParams(); ++i )
        {
            if( i )
                o += ",";
            const auto* pv = f->getParamDecl( i );
            o += "[" + std::to_string( vid( pv ) ) + ",";
            esc( o, pv->getNameAsString() );
            o += ",";
            esc( o, ty( pv->getType() ) );
            o += "]";
        }
        o += "]";
        const char* acc = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_private ? "private" : f->getAccess() == AS_protected ? "protected" : "";
        o += ",\"acc\":\"";
        o += acc;
        o += "\"";
        if( f->getTemplateInstantiationPattern() )
            o += ",\"inst\":1";
        if( f->getStorageClass() == SC_Static || f->isInAnonymousNamespace() )
            o += ",\"loc\":1";
        if( const auto* m = dyn_cast<CXXMethodDecl>( f ) )
        {
            o += ",\"ov\":[";
            bool first = true;
            for( const auto* b : m->overridden_methods() )
            {
                if( !first )
                    o += ",";
                first = false;
                o += std::to_string( fnId( b ) );
            }
            o += "]";
        }
        if( const auto* k = dyn_cast<CXXConstructorDecl>( f ) )
        {
            o += ",\"in\":[";
            bool first = true;
            for( const auto* i : k->inits() )
            {
                if( !first )
                    o += ",";
                first = false;
                o += "[";
                if( i->isMemberInitializer() )
                {
                    esc( o, i->getMember()->getNameAsString() );
                }
                else if( i->isDelegatingInitializer() )
                    o += "\"<delegate>\"";
                else
                {
                    std::string b = "<base>";
                    if( i->getBaseClass() )
                        b += ty( QualType( i->getBaseClass(), 0 ) );
                    esc( o, b );
                }
                o += ",";
                X( o, i->getInit() );
                o += i->isWritten() ? ",1]" : ",0]";
            }
            o += "]";
        }
        o += ",\"b\":";
        S( o, f->getBody() );
        o += "}";
        T.functions += o;
        return true;
    }

    bool VisitCXXRecordDecl( CXXRecordDecl* r )
    {
        if( !r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda() )
            return true;
        if( !inRoot( r->getLocation() ) )
            return true;
        std::string name = rn( r );
        if( !T.emittedRecords.insert( name ).second )
            return true;
        vars.clear();
        std::string o;
        if( !T.records.empty() )
            o += ",\n";
        o += "{\"n\":";
        esc( o, name );
        o += ",\"file\":";
        esc( o, rel( r->getLocation() ) );
        o += ",\"l\":" + std::to_string( line( r->getLocation() ) );
        o += ",\"bases\":[";
        bool first = true;
        for( const auto& b : r->bases() )
        {
            if( !first )
                o += ",";
            first = false;
            esc( o, ty( b.getType() ) );
        }
        o += "],\"f\":[";
        first = true;
        for( const auto* fd : r->fields() )
        {
            if( !first )
                o += ",";
            first = false;
            o += "[";
            esc( o, fd->getNameAsString() );
            o += ",";
            esc( o, ty( fd->getType() ) );
            o += ",";
            if( fd->hasInClassInitializer() )
                X( o, fd->getInClassInitializer() );
            else
                o += "null";
            o += ",\"";
            if( fd->isMutable() )
                o += 'm';
            o += fd->getAccess() == AS_public ? 'P' : 'p';
            QualType ct = fd->getType().getCanonicalType();
            if( ct->isScalarType() )
                o += 's';
            if( ct->isReferenceType() )
                o += 'r';
            if( ct->isEnumeralType() )
                o += 'e';
            if( ct.isConstQualified() )
                o += 'c';
            o += "\"," + std::to_string( line( fd->getLocation() ) ) + "]";
        }
        o += "],\"m\":[";
        first = true;
        for( const auto* md : r->methods() )
        {
            if( md->isImplicit() )
                continue;
            if( !first )
                o += ",";
            first = false;
            o += "[" + std::to_string( fnId( md ) ) + ",\"";
            o += md->getAccess() == AS_public ? 'P' : md->getAccess() == AS_protected ? 'R' : 'p';
            if( md->isDefaulted() )
                o += 'D';
            if( md->isDeleted() )
                o += 'X';
            o += "\"]";
        }
        o += "],\"fl\":\"";
        if( r->hasUserDeclaredConstructor() )
            o += 'k';
        if( r->isAggregate() )
            o += 'a';
        if( r->isAbstract() )
            o += 'A';
        if( r->isUnion() )
            o += 'U';
        o += "\"}";
        T.records += o;
        return true;
    }

    bool VisitEnumDecl( EnumDecl* d )
    {
        if( !d->isThisDeclarationADefinition() || d->isDependentContext() || !inRoot( d->getLocation() ) )
            return true;
        std::string name = qn( d );
        if( !T.emittedEnums.insert( name ).second )
            return true;
        std::string o;
        if( !T.enums.empty() )
            o += ",\n";
        o += "{\"n\":";
        esc( o, name );
        o += ",\"file\":";
        esc( o, rel( d->getLocation() ) );
        o += ",\"l\":" + std::to_string( line( d->getLocation() ) ) + ",\"c\":[";
        bool first = true;
        for( const auto* c : d->enumerators() )
        {
            if( !first )
                o += ",";
            first = false;
            o += "[";
            esc( o, c->getNameAsString() );
            o += ",";
            llvm::SmallString<32> v;
            c->getInitVal().toString( v, 10 );
            o += std::string{ v };
            o += "]";
        }
        o += "]}";
        T.enums += o;
        return true;
    }

    bool VisitVarDecl( VarDecl* v )
    {
        if( isa<ParmVarDecl>( v ) || !v->hasGlobalStorage() || !inRoot( v->getLocation() ) )
            return true;
        if( v->getDeclContext()->isDependentContext() || v->getType()->isDependentType() )
            return true;
        std::string name = qn( v );
        std::string key = name + ":" + std::to_string( line( v->getLocation() ) ) + rel( v->getLocation() );
        if( !T.emittedGlobals.insert( key ).second )
            return true;
        vars.clear();
        std::string o;
        if( !T.globals.empty() )
            o += ",\n";
        o += "{\"n\":";
        esc( o, name );
        o += ",\"file\":";
        esc( o, rel( v->getLocation() ) );
        o += ",\"l\":" + std::to_string( line( v->getLocation() ) );
        o += ",\"t\":";
        esc( o, ty( v->getType() ) );
        o += ",\"fl\":\"";
        if( v->isStaticLocal() )
            o += 'L';
        if( v->isConstexpr() )
            o += 'x';
        if( v->getType().isConstQualified() || v->getType()->isReferenceType() )
            o += 'c';
        if( v->isThisDeclarationADefinition() == VarDecl::Definition )
            o += 'd';
        if( v->getTLSKind() != VarDecl::TLS_None )
            o += 't';
        o += "\",\"in\":";
        if( const auto* fn = dyn_cast<FunctionDecl>( v->getDeclContext() ) )
        {
            esc( o, qn( fn ) );
        }
        else
            o += "null";
        o += ",\"init\":";
        X( o, v->getInit() );
        o += "}";
        T.globals += o;
        return true;
    }

  private:
    ASTContext& C;
    SourceManager& SM;
    TU& T;
    PrintingPolicy PP;
};

class IncludeCB : public PPCallbacks
{
  public:
    IncludeCB( SourceManager& sm, TU& t ) : SM{ sm }, T{ t } {}
    void InclusionDirective( SourceLocation hash, const Token&, StringRef name, bool angled, CharSourceRange,
                             OptionalFileEntryRef file, StringRef, StringRef, const Module*, SrcMgr::CharacteristicKind ) override
    {
        auto f = SM.getFilename( SM.getExpansionLoc( hash ) );
        llvm::SmallString<256> p{ f };
        llvm::sys::path::remove_dots( p, true );
        std::string from{ p };
        if( from.compare( 0, ROOT.size(), ROOT ) != 0 )
            return;
        std::string to;
        if( file )
        {
            llvm::SmallString<256> q{ file->getName() };
            llvm::sys::path::remove_dots( q, true );
            to = std::string{ q };
        }
        std::string o;
        if( !T.includes.empty() )
            o += ",\n";
        o += "[";
        esc( o, from.substr( ROOT.size() ) );
        o += "," + std::to_string( SM.getExpansionLineNumber( hash ) ) + ",";
        esc( o, name );
        o += angled ? ",1," : ",0,";
        esc( o, to.compare( 0, ROOT.size(), ROOT ) == 0 ? to.substr( ROOT.size() ) : to );
        o += "]";
        T.includes += o;
    }
    void FileChanged( SourceLocation loc, FileChangeReason r, SrcMgr::CharacteristicKind, FileID ) override
    {
        if( r != EnterFile )
            return;
        auto f = SM.getFilename( loc );
        llvm::SmallString<256> p{ f };
        llvm::sys::path::remove_dots( p, true );
        std::string s{ p };
        if( s.compare( 0, ROOT.size(), ROOT ) == 0 )
            T.deps.insert( s.substr( ROOT.size() ) );
    }

  private:
    SourceManager& SM;
    TU& T;
};

class Consumer : public ASTConsumer
{
  public:
    Consumer( TU& t ) : T{ t } {}
    void HandleTranslationUnit( ASTContext& c ) override
    {
        if( c.getDiagnostics().hasErrorOccurred() )
            return;
        Dumper d{ c, T };
        d.TraverseDecl( c.getTranslationUnitDecl() );
    }

  private:
    TU& T;
};

class Action : public ASTFrontendAction
{
  public:
    Action( std::string out ) : Out{ std::move( out ) } {}
    std::unique_ptr<ASTConsumer> CreateASTConsumer( CompilerInstance& ci, StringRef ) override
    {
        ci.getPreprocessor().addPPCallbacks( std::make_unique<IncludeCB>( ci.getSourceManager(), T ) );
        return std::make_unique<Consumer>( T );
    }
    void EndSourceFileAction() override
    {
        bool err = getCompilerInstance().getDiagnostics().hasErrorOccurred();
        std::string o = "{\"ok\":";
        o += err ? "false" : "true";
        o += ",\"deps\":[";
        bool first = true;
        for( const auto& d : T.deps )
        {
            if( !first )
                o += ",";
            first = false;
            esc( o, d );
        }
        o += "],\"fns\":{";
        first = true;
        for( const auto& f : T.fnTable )
        {
            if( !first )
                o += ",\n";
            first = false;
            o += f;
        }
        o += "},\n\"functions\":[" + T.functions + "],\n\"records\":[" + T.records + "],\n\"enums\":[" + T.enums + "],\n\"globals\":["
             + T.globals + "],\n\"includes\":[" + T.includes + "]}\n";
        std::ofstream f{ Out + ".tmp" };
        f << o;
        f.close();
        rename( ( Out + ".tmp" ).c_str(), Out.c_str() );
    }

  private:
    std::string Out;
    TU T;
};

int main( int argc, const char** argv )
{
    if( argc < 4 )
        return 2;
    ROOT = argv[1];
    std::ifstream list{ argv[2] };
    std::vector<std::string> args;
    int i = 3;
    if( std::string{ argv[i] } == "--" )
        ++i;
    for( ; i < argc; ++i )
        args.push_back( argv[i] );
    int rc = 0;
    std::string ln;
    while( std::getline( list, ln ) )
    {
        auto tab = ln.find( '\t' );
        std::string src = ln.substr( 0, tab ), out = ln.substr( tab + 1 );
        std::vector<std::string> cmd{ "/usr/bin/clang++-18" };
        cmd.insert( cmd.end(), args.begin(), args.end() );
        cmd.push_back( "-fsyntax-only" );
        cmd.push_back( src );
        llvm::IntrusiveRefCntPtr<FileManager> fm{ new FileManager{ FileSystemOptions{} } };
        tooling::ToolInvocation inv{ cmd, std::make_unique<Action>( out ), fm.get() };
        if( !inv.run() )
            rc = 1;
    }
    return rc;
}
