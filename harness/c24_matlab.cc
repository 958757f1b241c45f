// C24: the MATLAB interface against a stand-in for MATLAB's matrix API (mex/mex.h).
#include "model.hh"
#include "quiet.hh"
#include "mex.h"
#include "GenericContainer/GenericContainerInterface_matlab.hh"
#include <memory>
#include <cstdlib>
using pt::fail; using namespace GC_namespace;
struct mxArray_tag {
  mxClassID cls{mxDOUBLE_CLASS}; std::string cname; std::vector<mwSize> dims; bool cplx{false}, sparse{false}; size_t esize{0};
  std::unique_ptr<char[]> re, im; std::unique_ptr<mwIndex[]> ir, jc; std::vector<mxArray*> sub; std::vector<std::string> fields;
  size_t n() const { size_t r = 1; for ( auto d : dims ) r *= d; return r; }
};
static std::vector<std::unique_ptr<mxArray_tag>> g_arrays; static std::vector<std::unique_ptr<char[]>> g_strings; static std::string g_out;
static size_t size_of( mxClassID c ) { switch ( c ) { case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1; case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; case mxDOUBLE_CLASS: case mxINT64_CLASS: case mxUINT64_CLASS: return 8; default: return 0; } }
static std::unique_ptr<char[]> zeros( size_t n ) { std::unique_ptr<char[]> p(new char[n]); memset(p.get(),0,n); return p; }
static mxArray * make( mxClassID c, std::vector<mwSize> d, bool cplx = false ) {
  while ( d.size() < 2 ) d.push_back(1); while ( d.size() > 2 && d.back() == 1 ) d.pop_back();
  g_arrays.emplace_back(new mxArray_tag); mxArray * m = g_arrays.back().get(); m->cls = c; m->dims = d; m->cplx = cplx; m->esize = size_of(c);
  if ( m->n() > (size_t(1)<<22) ) fail("an array of "+std::to_string(m->n())+" elements is asked for");
  if ( m->esize ) { m->re = zeros(m->n()*m->esize); if ( cplx ) m->im = zeros(m->n()*m->esize); }
  if ( c == mxCELL_CLASS ) m->sub.assign(m->n(),nullptr);
  return m;
}
static mxArray const * ok( mxArray const * m ) { if ( !m ) fail("a null array is handed to the matrix API"); return m; }
static std::string utf8( mxArray const * m ) { // column by column, as mxArrayToString
  std::string s; auto p = reinterpret_cast<char16_t const *>(m->re.get());
  for ( size_t i = 0; i < m->n(); ++i ) { uint32_t v = p[i]; if ( v >= 0xD800 && v < 0xDC00 && i+1 < m->n() ) { v = 0x10000+((v-0xD800)<<10)+(uint32_t(p[i+1])-0xDC00); ++i; }
    if ( v < 0x80 ) s += char(v); else if ( v < 0x800 ) { s += char(0xC0|v>>6); s += char(0x80|(v&63)); } else if ( v < 0x10000 ) { s += char(0xE0|v>>12); s += char(0x80|(v>>6&63)); s += char(0x80|(v&63)); } else { s += char(0xF0|v>>18); s += char(0x80|(v>>12&63)); s += char(0x80|(v>>6&63)); s += char(0x80|(v&63)); } }
  return s;
}
static mxArray * chars( std::string const & t ) {
  std::u16string u; for ( size_t i = 0; i < t.size(); ) { unsigned char c = (unsigned char)t[i]; int n = c < 0x80 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3; uint32_t v = n == 0 ? c : n == 1 ? c&31u : n == 2 ? c&15u : c&7u; ++i; for ( ; n > 0 && i < t.size(); --n, ++i ) v = v<<6 | ((unsigned char)t[i]&63u); if ( v < 0x10000 ) u += char16_t(v); else { u += char16_t(0xD800+((v-0x10000)>>10)); u += char16_t(0xDC00+((v-0x10000)&0x3FF)); } }
  mxArray * m = make(mxCHAR_CLASS,{ mwSize(u.empty() ? 0 : 1), mwSize(u.size()) }); memcpy(m->re.get(),u.data(),u.size()*2); return m;
}
extern "C" {
mxClassID mxGetClassID( mxArray const * m ) { return ok(m)->cls; }
char const * mxGetClassName( mxArray const * m ) { return ok(m)->cname.c_str(); }
bool mxIsClass( mxArray const * m, char const * n ) { return ok(m)->cname == n; }
bool mxIsSparse( mxArray const * m ) { return ok(m)->sparse; } bool mxIsComplex( mxArray const * m ) { return ok(m)->cplx; } bool mxIsLogical( mxArray const * m ) { return ok(m)->cls == mxLOGICAL_CLASS; } bool mxIsChar( mxArray const * m ) { return ok(m)->cls == mxCHAR_CLASS; } bool mxIsCell( mxArray const * m ) { return ok(m)->cls == mxCELL_CLASS; } bool mxIsStruct( mxArray const * m ) { return ok(m)->cls == mxSTRUCT_CLASS; }
bool mxIsNumeric( mxArray const * m ) { return ok(m)->cls >= mxDOUBLE_CLASS && m->cls <= mxUINT64_CLASS; } bool mxIsDouble( mxArray const * m ) { return ok(m)->cls == mxDOUBLE_CLASS; } bool mxIsEmpty( mxArray const * m ) { return ok(m)->n() == 0; }
bool mxIsLogicalScalar( mxArray const * m ) { return ok(m)->cls == mxLOGICAL_CLASS && m->n() == 1; } bool mxIsLogicalScalarTrue( mxArray const * m ) { return mxIsLogicalScalar(m) && m->re[0]; }
size_t mxGetNumberOfElements( mxArray const * m ) { return ok(m)->n(); } mwSize mxGetNumberOfDimensions( mxArray const * m ) { return ok(m)->dims.size(); } mwSize const * mxGetDimensions( mxArray const * m ) { return ok(m)->dims.data(); }
size_t mxGetM( mxArray const * m ) { return ok(m)->dims[0]; } size_t mxGetN( mxArray const * m ) { size_t r = 1; for ( size_t i = 1; i < ok(m)->dims.size(); ++i ) r *= m->dims[i]; return r; }
void * mxGetData( mxArray const * m ) { return ok(m)->re.get(); } void * mxGetImagData( mxArray const * m ) { return ok(m)->im.get(); }
double * mxGetPr( mxArray const * m ) { return reinterpret_cast<double*>(ok(m)->re.get()); } double * mxGetPi( mxArray const * m ) { return reinterpret_cast<double*>(ok(m)->im.get()); }
mxLogical * mxGetLogicals( mxArray const * m ) { if ( ok(m)->cls != mxLOGICAL_CLASS ) fail("mxGetLogicals of an array that is not logical"); return reinterpret_cast<mxLogical*>(m->re.get()); }
mxChar * mxGetChars( mxArray const * m ) { return reinterpret_cast<mxChar*>(ok(m)->re.get()); } size_t mxGetElementSize( mxArray const * m ) { return ok(m)->esize; } double mxGetScalar( mxArray const * ) { fail("mxGetScalar"); }
mxArray * mxGetCell( mxArray const * m, mwIndex i ) { if ( ok(m)->cls != mxCELL_CLASS || i >= m->sub.size() ) fail("mxGetCell out of range"); return m->sub[i]; }
int mxGetNumberOfFields( mxArray const * m ) { return int(ok(m)->fields.size()); }
char const * mxGetFieldNameByNumber( mxArray const * m, int i ) { if ( i < 0 || size_t(i) >= ok(m)->fields.size() ) fail("field number out of range"); return m->fields[size_t(i)].c_str(); }
mxArray * mxGetFieldByNumber( mxArray const * m, mwIndex i, int f ) { if ( i >= ok(m)->n() || f < 0 || size_t(f) >= m->fields.size() ) fail("mxGetFieldByNumber out of range"); return m->sub[i*m->fields.size()+size_t(f)]; }
mwIndex * mxGetIr( mxArray const * m ) { return ok(m)->ir.get(); } mwIndex * mxGetJc( mxArray const * m ) { return ok(m)->jc.get(); }
char * mxArrayToString( mxArray const * m ) { if ( ok(m)->cls != mxCHAR_CLASS ) return nullptr; std::string s = utf8(m); g_strings.emplace_back(new char[s.size()+1]); memcpy(g_strings.back().get(),s.c_str(),s.size()+1); return g_strings.back().get(); }
char * mxArrayToUTF8String( mxArray const * m ) { return mxArrayToString(m); }
int mxGetString( mxArray const * m, char * b, mwSize n ) { if ( ok(m)->cls != mxCHAR_CLASS || n == 0 ) return 1; std::string s = utf8(m); size_t k = std::min(s.size(),n-1); memcpy(b,s.data(),k); b[k] = 0; return k < s.size(); }
void mxFree( void * p ) { for ( auto & s : g_strings ) if ( s.get() == p ) { s.reset(); return; } if ( p ) fail("mxFree of a foreign pointer"); } void * mxMalloc( size_t n ) { g_strings.emplace_back(new char[n ? n : 1]); return g_strings.back().get(); }
void mxDestroyArray( mxArray * m ) { if ( !m ) return; for ( auto & a : g_arrays ) if ( a.get() == m ) { auto s = m->sub; a.reset(); for ( auto x : s ) mxDestroyArray(x); return; } fail("mxDestroyArray of something that is no array"); }
mxArray * mxCreateLogicalScalar( mxLogical v ) { mxArray * m = make(mxLOGICAL_CLASS,{1,1}); m->re[0] = v; return m; }
mxArray * mxCreateDoubleScalar( double v ) { mxArray * m = make(mxDOUBLE_CLASS,{1,1}); memcpy(m->re.get(),&v,8); return m; }
mxArray * mxCreateString( char const * s ) { if ( !s ) fail("mxCreateString of a null pointer"); return chars(std::string(s)); }
mxArray * mxCreateNumericArray( mwSize nd, mwSize const * d, mxClassID c, mxComplexity k ) { if ( !size_of(c) || c == mxCHAR_CLASS ) fail("mxCreateNumericArray of a class that is not numeric"); return make(c,std::vector<mwSize>(d,d+nd),k == mxCOMPLEX); }
mxArray * mxCreateLogicalArray( mwSize nd, mwSize const * d ) { return make(mxLOGICAL_CLASS,std::vector<mwSize>(d,d+nd)); } mxArray * mxCreateNumericMatrix( mwSize m, mwSize n, mxClassID c, mxComplexity k ) { mwSize d[2]{m,n}; return mxCreateNumericArray(2,d,c,k); } mxArray * mxCreateLogicalMatrix( mwSize m, mwSize n ) { return make(mxLOGICAL_CLASS,{m,n}); } mxArray * mxCreateCharArray( mwSize nd, mwSize const * d ) { return make(mxCHAR_CLASS,std::vector<mwSize>(d,d+nd)); }
mxArray * mxCreateDoubleMatrix( mwSize m, mwSize n, mxComplexity k ) { return make(mxDOUBLE_CLASS,{m,n},k == mxCOMPLEX); }
mxArray * mxCreateCellMatrix( mwSize m, mwSize n ) { return make(mxCELL_CLASS,{m,n}); }
mxArray * mxCreateStructMatrix( mwSize m, mwSize n, int nf, char const ** f ) { mxArray * a = make(mxSTRUCT_CLASS,{m,n}); if ( nf < 0 ) fail("mxCreateStructMatrix with a negative number of fields"); for ( int i = 0; i < nf; ++i ) a->fields.push_back(f[i]); a->sub.assign(a->n()*a->fields.size(),nullptr); return a; }
void mxSetCell( mxArray * m, mwIndex i, mxArray * v ) { if ( ok(m)->cls != mxCELL_CLASS || i >= m->sub.size() ) fail("mxSetCell out of range"); m->sub[i] = v; }
void mxSetFieldByNumber( mxArray * m, mwIndex i, int f, mxArray * v ) { if ( ok(m)->cls != mxSTRUCT_CLASS || i >= m->n() || f < 0 || size_t(f) >= m->fields.size() ) fail("mxSetFieldByNumber out of range"); m->sub[i*m->fields.size()+size_t(f)] = v; }
int mexPrintf( char const * f, ... ) { va_list a, b; va_start(a,f); va_copy(b,a); int n = vsnprintf(nullptr,0,f,a); std::string t(size_t(n)+1,0); vsnprintf(&t[0],t.size(),f,b); va_end(a); va_end(b); t.pop_back(); g_out += t; return n; }
int mexCallMATLAB( int nl, mxArray * l[], int nr, mxArray * r[], char const * what ) { if ( nl != 1 || nr != 1 || std::string(what) != "char" || ok(r[0])->cname != "string" ) fail("mexCallMATLAB of something else than char of a string"); l[0] = chars(r[0]->re.get() ? std::string(r[0]->re.get()) : ""); return 0; }
void mexErrMsgTxt( char const * s ) { throw std::runtime_error(s); } void mexWarnMsgTxt( char const * ) {}
}
namespace pt {
// ---- what an array says, as a value. Numbers of integer classes are K::Int/K::Long by their value, 1 x n vectors, m x n matrices
struct Num { bool any{false}; }; // values no kind holds
static std::string ident( Src & g ) { static char const h[] = "abcxyzABCXYZ", t[] = "abcxyz0189_"; std::string s(1,h[g.below(12)]); int n = g.few(0,6,40); for ( int i = 0; i < n; ++i ) s += t[g.below(11)]; return s; }
template <class I> static mxArray * ints( Src & g, mxClassID c, std::vector<mwSize> d, std::vector<int64_t> & v, bool & over, bool cx, std::vector<cplx> & z ) {
  mxArray * m = make(c,d,cx); auto p = reinterpret_cast<I*>(m->re.get()), q = reinterpret_cast<I*>(m->im.get());
  for ( size_t i = 0; i < m->n(); ++i ) { I x = I(g.chance(1,3) ? ( g.coin() ? std::numeric_limits<I>::max() : std::numeric_limits<I>::min() ) : I(g.coin() ? gen_i64(g) : int64_t(g.range(-3,9)))); p[i] = x; if ( sizeof(I) == 8 && !std::numeric_limits<I>::is_signed && uint64_t(x) > uint64_t(INT64_MAX) ) over = true; v.push_back(int64_t(x)); I y{}; if ( cx ) { y = I(gen_i32(g)); q[i] = y; } z.push_back({double(x),double(y)}); }
  return m;
}
static MV shaped( std::vector<mwSize> const & d, MV const & each, std::vector<MV> const & x ) { // scalar, vector or matrix of one kind
  if ( x.size() == 1 ) return x[0];
  bool row = d[0] == 1; MV r; r.nr = unsigned(d[0]); r.nc = unsigned(d.size() > 1 ? d[1] : 1);
  switch ( each.k ) {
  case K::Long: r.k = row ? K::VLong : K::MLong; for ( auto const & e : x ) r.vl.push_back(e.l); break;
  case K::Real: r.k = row ? K::VReal : K::MReal; for ( auto const & e : x ) r.vr.push_back(e.r); break;
  default: r.k = row ? K::VCplx : K::MCplx; for ( auto const & e : x ) r.vc.push_back(e.c); }
  if ( row ) r.nr = r.nc = 0;
  return r;
}
// integers of both sizes count the same, as do vectors of bool and lists of bool; what is empty has no kind
static MV loose( MV const & a ) {
  MV r = a;
  switch ( a.k ) {
  case K::Int: r = MV::Long(a.i); break;
  case K::VInt: r = MV(K::VLong); r.vl.assign(a.vi.begin(),a.vi.end()); break;
  case K::MInt: r = MV(K::MLong); r.nr = a.nr; r.nc = a.nc; r.vl.assign(a.vi.begin(),a.vi.end()); break;
  case K::VBool: r = MV(K::Vec); for ( bool b : a.vb ) r.v.push_back(MV::Bool(b)); break;
  case K::VStr: r = MV(K::Vec); for ( auto const & s : a.vs ) r.v.push_back(MV::Str(s)); break;
  case K::Vec: r.v.clear(); for ( auto const & e : a.v ) r.v.push_back(loose(e)); break;
  case K::Map: r.m.clear(); for ( auto const & e : a.m ) r.m[e.first] = loose(e.second); break;
  default: ; }
  if ( a.k != K::Map && a.k >= K::VPtr && r.count() == 0 ) return MV(K::Vec);
  return r;
}
static bool g_open; // the value holds something whose reading is left open
static mxArray * gen_mx( Src & g, MV & e, int d ) {
  std::vector<mwSize> dims{ 1, 1 };
  switch ( g.below(6) ) { case 0: case 1: break; case 2: dims[1] = mwSize(g.few(0,5,40)); break; case 3: dims[0] = mwSize(g.few(0,5,40)); break; case 4: dims = { mwSize(g.range(0,4)), mwSize(g.range(0,4)) }; break; default: if ( g.chance(1,4) ) dims = { mwSize(g.range(0,3)), mwSize(g.range(0,3)), mwSize(g.range(0,3)) }; else dims = { mwSize(g.range(2,4)), mwSize(g.range(2,4)) }; }
  GenOpt o; auto three = [&]( mxArray * m ) { if ( m->dims.size() > 2 && m->n() != 1 ) { g_open = true; e = MV(); } };
  switch ( g.below(d > 0 ? 14 : 9) ) {
  case 0: { mxArray * m = make(mxLOGICAL_CLASS,dims); e = MV(K::Vec); for ( size_t i = 0; i < m->n(); ++i ) { m->re[i] = char(g.coin()); e.v.push_back(MV::Bool(m->re[i])); } if ( m->n() == 1 ) { MV t = e.v[0]; e = t; } return m; }
  case 1: case 2: { static mxClassID const cs[] = { mxINT8_CLASS,mxUINT8_CLASS,mxINT16_CLASS,mxUINT16_CLASS,mxINT32_CLASS,mxUINT32_CLASS,mxINT64_CLASS,mxUINT64_CLASS }; mxClassID c = g.pick(cs); bool cx = g.chance(1,4), over = false; std::vector<int64_t> v; std::vector<cplx> z; mxArray * m = nullptr;
    switch ( c ) { case mxINT8_CLASS: m = ints<int8_t>(g,c,dims,v,over,cx,z); break; case mxUINT8_CLASS: m = ints<uint8_t>(g,c,dims,v,over,cx,z); break; case mxINT16_CLASS: m = ints<int16_t>(g,c,dims,v,over,cx,z); break; case mxUINT16_CLASS: m = ints<uint16_t>(g,c,dims,v,over,cx,z); break; case mxINT32_CLASS: m = ints<int32_t>(g,c,dims,v,over,cx,z); break; case mxUINT32_CLASS: m = ints<uint32_t>(g,c,dims,v,over,cx,z); break; case mxINT64_CLASS: m = ints<int64_t>(g,c,dims,v,over,cx,z); break; default: m = ints<uint64_t>(g,c,dims,v,over,cx,z); }
    std::vector<MV> x; for ( size_t i = 0; i < v.size(); ++i ) x.push_back( cx ? MV::Cplx(z[i]) : MV::Long(v[i]) ); e = shaped(dims, cx ? MV(K::Cplx) : MV(K::Long),x); if ( over && !cx ) { g_open = true; e = MV(); } three(m); return m; }
  case 3: case 4: case 5: { bool cx = g.chance(1,3), single = g.chance(1,4); mxArray * m = make(single ? mxSINGLE_CLASS : mxDOUBLE_CLASS,dims,cx); std::vector<MV> x;
    for ( size_t i = 0; i < m->n(); ++i ) { double a = gen_double(g,o), b = cx ? gen_double(g,o) : 0; if ( single ) { float fa = float(a), fb = float(b); memcpy(m->re.get()+4*i,&fa,4); if ( cx ) memcpy(m->im.get()+4*i,&fb,4); a = fa; b = fb; } else { memcpy(m->re.get()+8*i,&a,8); if ( cx ) memcpy(m->im.get()+8*i,&b,8); } x.push_back( cx ? MV::Cplx({a,b}) : MV::Real(a) ); }
    e = shaped(dims, cx ? MV(K::Cplx) : MV(K::Real),x); three(m); return m; }
  case 6: { std::string s = gen_string(g,GenOpt::Str::Text,g.chance(1,10) ? 60 : 12); for ( auto & ch : s ) if ( !ch ) ch = '0'; e = MV::Str(s); return chars(s); }
  case 7: { std::string s = gen_string(g,GenOpt::Str::Ascii,12); for ( auto & ch : s ) if ( !ch ) ch = '0'; mxArray * m = make(mxUNKNOWN_CLASS,{1,1}); m->cname = "string"; m->re = zeros(s.size()+1); memcpy(m->re.get(),s.data(),s.size()); e = MV::Str(s); return m; }
  case 8: if ( g.chance(1,3) ) { g_open = true; e = MV(); return make( g.coin() ? mxFUNCTION_CLASS : mxUNKNOWN_CLASS,{1,1}); } else { // sparse
    unsigned nr = unsigned(g.range(0,4)), nc = unsigned(g.range(0,4)); unsigned kind = unsigned(g.below(3)); mxArray * m = make( kind == 2 ? mxLOGICAL_CLASS : mxDOUBLE_CLASS,{nr,nc},kind == 1); m->sparse = true; std::vector<mwIndex> ir, jc{0}; for ( unsigned j = 0; j < nc; ++j ) { for ( unsigned i = 0; i < nr; ++i ) if ( g.coin() ) ir.push_back(i); jc.push_back(ir.size()); }
    m->ir.reset(new mwIndex[ir.size()]); m->jc.reset(new mwIndex[jc.size()]); std::copy(ir.begin(),ir.end(),m->ir.get()); std::copy(jc.begin(),jc.end(),m->jc.get()); size_t n = ir.size(); m->re = zeros(n*m->esize); if ( kind == 1 ) m->im = zeros(n*8);
    e = MV(K::Map); e.m["jc"] = MV(K::VLong); e.m["jc"].vl.assign(jc.begin(),jc.end()); e.m["ir"] = MV(K::VLong); e.m["ir"].vl.assign(ir.begin(),ir.end()); MV & v = e.m["values"]; v = MV( kind == 1 ? K::VCplx : K::VReal );
    for ( size_t i = 0; i < n; ++i ) { double a = gen_double(g,o), b = gen_double(g,o); if ( kind == 2 ) { m->re[i] = 1; v.vr.push_back(1); continue; } memcpy(m->re.get()+8*i,&a,8); if ( kind == 1 ) { memcpy(m->im.get()+8*i,&b,8); v.vc.push_back({a,b}); } else v.vr.push_back(a); }
    return m; }
  case 9: case 10: { if ( dims.size() > 2 ) dims.pop_back(); if ( dims[0]*dims[1] > 12 ) dims = {1,5}; mxArray * m = make(mxCELL_CLASS,dims); e = MV(K::Vec); for ( auto & s : m->sub ) { MV x; if ( g.chance(7,8) ) s = gen_mx(g,x,d-1); e.v.push_back(x); } return m; }
  default: { int nf = g.few(0,4,20); std::map<std::string,int> seen; mxArray * m = make(mxSTRUCT_CLASS, g.chance(3,4) ? std::vector<mwSize>{1,1} : std::vector<mwSize>{mwSize(g.range(0,3)),mwSize(g.range(0,2))}); for ( int i = 0; i < nf; ++i ) { std::string s = ident(g); if ( !seen[s]++ ) m->fields.push_back(s); }
    e = MV(K::Map); m->sub.assign(m->n()*m->fields.size(),nullptr);
    for ( size_t f = 0; f < m->fields.size(); ++f ) { MV all(K::Vec); for ( size_t i = 0; i < m->n(); ++i ) { MV x; if ( g.chance(7,8) ) m->sub[i*m->fields.size()+f] = gen_mx(g,x,d-1); all.v.push_back(x); } e.m[m->fields[f]] = m->n() == 1 ? all.v[0] : all; }
    return m; }
  }
}
static std::string open_diff( MV const & want, MV const & got, bool open, std::string const & at ) { // parts left open accept anything
  if ( !open ) return diff(want,got,at);
  return "";
}
static std::string shape( mxArray const * m ) { std::string s = "class "+std::to_string(m->cls)+( m->cplx ? " complex" : "" )+" "; for ( size_t i = 0; i < m->dims.size(); ++i ) s += ( i ? "x" : "" )+std::to_string(m->dims[i]); return s; }
static int64_t int_at( mxArray const * m, size_t i ) { switch ( m->cls ) { case mxINT8_CLASS: return reinterpret_cast<int8_t*>(m->re.get())[i]; case mxUINT8_CLASS: return reinterpret_cast<uint8_t*>(m->re.get())[i]; case mxINT16_CLASS: return reinterpret_cast<int16_t*>(m->re.get())[i]; case mxUINT16_CLASS: return reinterpret_cast<uint16_t*>(m->re.get())[i]; case mxINT32_CLASS: return reinterpret_cast<int32_t*>(m->re.get())[i]; case mxUINT32_CLASS: return reinterpret_cast<uint32_t*>(m->re.get())[i]; case mxINT64_CLASS: return reinterpret_cast<int64_t*>(m->re.get())[i]; default: fail("not an array of integers: "+shape(m)); } }
static double real_at( mxArray const * m, size_t i ) { if ( m->cls != mxDOUBLE_CLASS || m->cplx ) fail("not a real array: "+shape(m)); double d; memcpy(&d,m->re.get()+8*i,8); return d; }
static cplx cplx_at( mxArray const * m, size_t i ) { if ( m->cls != mxDOUBLE_CLASS || !m->cplx ) fail("not a complex array: "+shape(m)); double a, b; memcpy(&a,m->re.get()+8*i,8); memcpy(&b,m->im.get()+8*i,8); return {a,b}; }
static bool bool_at( mxArray const * m, size_t i ) { if ( m->cls != mxLOGICAL_CLASS ) fail("not a logical array: "+shape(m)); return m->re[i]; }
// the array must say what the value says; col: a vector may stand as a column
static void verify( Ctx & c, MV const & a, mxArray const * m, bool col, std::string const & at ) {
  c.check( m != nullptr, at+": no array" ); if ( !m ) return;
  auto dim = [&]( mwSize r, mwSize k ) { c.check( m->dims.size() == 2 && ( ( m->dims[0] == r && m->dims[1] == k ) || ( col && m->dims[0] == k && m->dims[1] == r ) ), at+": shape "+shape(m)+", expected "+std::to_string(r)+"x"+std::to_string(k) ); };
  auto eq = [&]( bool k, size_t i ) { c.check( k, at+": element "+std::to_string(i)+" differs" ); };
  size_t n = a.count();
  switch ( a.k ) {
  case K::None: case K::Ptr: case K::VPtr: c.check( m->n() == 0, at+": nothing becomes "+shape(m) ); break;
  case K::Bool: dim(1,1); eq(bool_at(m,0) == a.b,0); break;
  case K::Int: dim(1,1); eq(int_at(m,0) == a.i,0); break;
  case K::Long: dim(1,1); eq(int_at(m,0) == a.l,0); break;
  case K::Real: dim(1,1); eq(same_double(real_at(m,0),a.r),0); break;
  case K::Cplx: dim(1,1); { cplx z = cplx_at(m,0); eq(same_double(z.real(),a.c.real()) && same_double(z.imag(),a.c.imag()),0); } break;
  case K::Str: c.check( m->cls == mxCHAR_CLASS && utf8(m) == a.s, at+": the text differs" ); break;
  case K::VBool: dim(1,n); for ( size_t i = 0; i < n; ++i ) eq(bool_at(m,i) == a.vb[i],i); break;
  case K::VInt: dim(1,n); for ( size_t i = 0; i < n; ++i ) eq(int_at(m,i) == a.vi[i],i); break;
  case K::VLong: dim(1,n); for ( size_t i = 0; i < n; ++i ) eq(int_at(m,i) == a.vl[i],i); break;
  case K::VReal: dim(1,n); for ( size_t i = 0; i < n; ++i ) eq(same_double(real_at(m,i),a.vr[i]),i); break;
  case K::VCplx: dim(1,n); for ( size_t i = 0; i < n; ++i ) { cplx z = cplx_at(m,i); eq(same_double(z.real(),a.vc[i].real()) && same_double(z.imag(),a.vc[i].imag()),i); } break;
  case K::VStr: dim(1,n); c.check( m->cls == mxCELL_CLASS, at+": not a cell array" ); for ( size_t i = 0; i < n; ++i ) verify(c,MV::Str(a.vs[i]),m->sub[i],col,at+"{"+std::to_string(i)+"}"); break;
  case K::Vec: dim(1,n); c.check( m->cls == mxCELL_CLASS, at+": not a cell array" ); for ( size_t i = 0; i < n; ++i ) verify(c,a.v[i],m->sub[i],col,at+"{"+std::to_string(i)+"}"); break;
  case K::MInt: col = false; dim(a.nr,a.nc); for ( size_t i = 0; i < n; ++i ) eq(int_at(m,i) == a.vi[i],i); break;
  case K::MLong: col = false; dim(a.nr,a.nc); for ( size_t i = 0; i < n; ++i ) eq(int_at(m,i) == a.vl[i],i); break;
  case K::MReal: col = false; dim(a.nr,a.nc); for ( size_t i = 0; i < n; ++i ) eq(same_double(real_at(m,i),a.vr[i]),i); break;
  case K::MCplx: col = false; dim(a.nr,a.nc); for ( size_t i = 0; i < n; ++i ) { cplx z = cplx_at(m,i); eq(same_double(z.real(),a.vc[i].real()) && same_double(z.imag(),a.vc[i].imag()),i); } break;
  case K::Map: dim(1,1); c.check( m->cls == mxSTRUCT_CLASS && m->fields.size() == a.m.size(), at+": not a struct with "+std::to_string(a.m.size())+" fields" );
    for ( size_t f = 0; f < m->fields.size(); ++f ) { auto it = a.m.find(m->fields[f]); c.check( it != a.m.end(), at+": field "+quote(m->fields[f])+" is not in the map" ); verify(c,it->second,m->sub[f],col,at+"."+m->fields[f]); } break;
  }
}
// containers MATLAB can hold: keys are names, texts are UTF-8 without NUL
static MV fit( Src & g, MV a ) {
  auto txt = []( std::string & s ) { for ( auto & ch : s ) if ( !ch ) ch = '0'; };
  txt(a.s); for ( auto & s : a.vs ) txt(s); for ( auto & x : a.v ) x = fit(g,x);
  if ( a.k == K::Map ) { std::map<std::string,MV> m; for ( auto & x : a.m ) m[ident(g)] = fit(g,x.second); a.m = m; }
  return a;
}
// what comes back: vectors and matrices of one element are numbers, one row is a vector, nothing is an empty array
static MV back( MV const & a ) {
  MV r = a;
  switch ( a.k ) {
  case K::None: case K::Ptr: case K::VPtr: return MV(K::Vec);
  case K::VBool: if ( a.vb.size() == 1 ) return MV::Bool(a.vb[0]); break;
  case K::VInt: if ( a.vi.size() == 1 ) return MV::Int(a.vi[0]); break; case K::VLong: if ( a.vl.size() == 1 ) return MV::Long(a.vl[0]); break; case K::VReal: if ( a.vr.size() == 1 ) return MV::Real(a.vr[0]); break; case K::VCplx: if ( a.vc.size() == 1 ) return MV::Cplx(a.vc[0]); break;
  case K::MInt: if ( a.vi.size() == 1 ) return MV::Int(a.vi[0]); if ( a.nr == 1 ) { r.k = K::VInt; r.nr = r.nc = 0; } break; case K::MLong: if ( a.vl.size() == 1 ) return MV::Long(a.vl[0]); if ( a.nr == 1 ) { r.k = K::VLong; r.nr = r.nc = 0; } break;
  case K::MReal: if ( a.vr.size() == 1 ) return MV::Real(a.vr[0]); if ( a.nr == 1 ) { r.k = K::VReal; r.nr = r.nc = 0; } break; case K::MCplx: if ( a.vc.size() == 1 ) return MV::Cplx(a.vc[0]); if ( a.nr == 1 ) { r.k = K::VCplx; r.nr = r.nc = 0; } break;
  case K::Vec: for ( auto & x : r.v ) x = back(x); break; case K::Map: for ( auto & x : r.m ) x.second = back(x.second); break;
  default: ; }
  return r;
}
struct Counting : std::streambuf { size_t n{0}; int overflow( int c ) override { ++n; return c == EOF ? 0 : c; } std::streamsize xsputn( char const *, std::streamsize k ) override { n += size_t(k); return k; } };
static void one( Src & g, Ctx & c ) {
  g_arrays.clear(); g_strings.clear(); g_out.clear(); GenOpt o; o.max_depth = 3; o.max_len = 4; o.str = o.key = GenOpt::Str::Text; o.big_len = 300; o.big_depth = 30; o.huge = 0;
  struct End { ~End() { g_arrays.clear(); g_strings.clear(); } } end;
  if ( g.coin() ) { // from MATLAB
    MV e; g_open = false; mxArray * m = g.chance(1,40) ? nullptr : gen_mx(g,e,g.range(0,3)); GC x; if ( g.coin() ) build(x,gen(g,o)); c.log("array of value "+show(e)); c.label( m ? "from MATLAB, "+std::string( m->cls == mxCELL_CLASS ? "cell" : m->cls == mxSTRUCT_CLASS ? "struct" : m->sparse ? "sparse" : m->cls == mxCHAR_CLASS ? "text" : "numbers" ) : "no array" );
    try { mxArray_to_GenericContainer(m,x); } catch ( std::exception const & ex ) { c.check( g_open, std::string("mxArray_to_GenericContainer throws ")+ex.what() ); return; }
    MV got = read_checked(x,"mxArray_to_GenericContainer"); c.log("read "+show(got));
    c.check( open_diff(loose(e),loose(got),g_open,"$").empty(), "from MATLAB: "+diff(loose(e),loose(got)) );
    c.nontrivial = nodes(e) > 1 || e.count() > 1; if ( g_open ) { c.label("left open"); return; }
    g_out.clear(); mexPrint(x); std::ostringstream ss; x.print(ss); c.check( g_out == ss.str()+"\n", "mexPrint shows something else than print" ); return;
  }
  MV a = fit(g,gen(g,o)); GC x; build_varied(g,x,a); c.log("container "+show(a)); c.nontrivial = nodes(a) > 1 || a.count() > 1;
  Counting cb; struct Redirect { std::streambuf * b; ~Redirect() { std::cout.rdbuf(b); } } rd{std::cout.rdbuf(&cb)};
  mxArray * m = nullptr; bool col = false;
  if ( g.chance(1,3) ) { // the single conversions
    col = true; switch ( a.k ) {
    case K::Bool: to_mxArray(a.b,m); break; case K::Int: to_mxArray(GC_namespace::int_type(a.i),m); break; case K::Long: to_mxArray(GC_namespace::long_type(a.l),m); break; case K::Real: to_mxArray(a.r,m); break; case K::Cplx: to_mxArray(a.c,m); break;
    case K::Str: { if ( g.coin() ) to_mxArray(std::string_view(a.s),m); else { std::unique_ptr<char[]> p(new char[a.s.size()]); memcpy(p.get(),a.s.data(),a.s.size()); to_mxArray(std::string_view(p.get(),a.s.size()),m); } break; }
    case K::VBool: to_mxArray(x.get_vec_bool(),m); break; case K::VInt: to_mxArray(x.get_vec_int(),m); break; case K::VLong: to_mxArray(x.get_vec_long(),m); break; case K::VReal: to_mxArray(x.get_vec_real(),m); break; case K::VCplx: to_mxArray(x.get_vec_complex(),m); break; case K::VStr: to_mxArray(x.get_vec_string(),m); break;
    case K::MInt: to_mxArray(x.get_mat_int(),m); break; case K::MLong: to_mxArray(x.get_mat_long(),m); break; case K::MReal: to_mxArray(x.get_mat_real(),m); break; case K::MCplx: to_mxArray(x.get_mat_complex(),m); break;
    default: col = false; }
  }
  c.label( col ? "to_mxArray" : "GenericContainer_to_mxArray" );
  if ( !col ) GenericContainer_to_mxArray(x,m);
  c.check( same(a,read_checked(x,"container")), "the conversion changed the container" );
  verify(c,a,m,col,"$");
  c.check( cb.n == 0 && g_out.empty(), "the conversion prints" );
  if ( !col ) { // and back
    GC y; if ( g.coin() ) build(y,gen(g,o)); mxArray_to_GenericContainer(m,y); MV got = loose(read_checked(y,"back")), want = loose(back(a));
    c.check( diff(want,got).empty(), "to MATLAB and back: "+diff(want,got) );
  }
}
} // namespace pt

using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C24"; p.one = one; p.init = quiet;
  p.rule = "arrays of MATLAB's C matrix API, as a stand-in of ours implements it (logical, all integer classes, single and double, real and complex, scalars, rows, columns, matrices and empty ones, text, string objects, sparse real, complex and logical ones, nested cells and structs, arrays of structs, unset cells, no array), are read and compared with the value they were made of; containers (names as keys, text without NUL) are converted as a whole and by the functions for single kinds, the array is compared element by element through the API, and read back. The stand-in keeps every array in a memory block of its size, under ASan, and refuses indices and classes MATLAB would. Left open: arrays of three and more dimensions, unsigned 64-bit integers beyond the largest long, function handles. Non-trivial: more than one node or element.";
  return pt_main(argc,argv,p);
}
