// C20: printing shows every value and changes nothing.
#include "model.hh"
#include "quiet.hh"
namespace pt {
static std::string num( std::ios const & f, double x ) { std::ostringstream o; o.copyfmt(f); o.width(0); o << x; return o.str(); }
static std::string pad( std::string s, size_t w ) { return s.size() < w ? std::string(w-s.size(),' ')+s : s; }
static std::string ctext( cplx c ) {
  std::ostringstream o; o.precision(GC_namespace::stream_number_precision); o << c.real();
  if ( c.imag() < 0 ) o << '-' << -c.imag() << 'i'; else if ( c.imag() != 0 ) o << '+' << c.imag() << 'i';
  return o.str();
}
static std::string hexp( void * p ) { if ( !p ) return "0"; char b[40]; snprintf(b,sizeof b,"0x%llx",(unsigned long long)(uintptr_t)p); return b; }
// keys such as "12 #-Title" are ordered by the number and shown as a title
struct Title { bool on{false}, blank{false}; char under{0}; std::string text; };
static Title title( std::string const & k ) {
  Title t; t.text = k; size_t i = 0, n = k.size();
  auto sp = [&]{ while ( i < n && strchr(" \t\n\v\f\r",k[i]) && k[i] ) ++i; };
  sp(); size_t d = i; while ( i < n && k[i] >= '0' && k[i] <= '9' ) ++i; if ( i == d ) return t;
  sp(); if ( i >= n || k[i] != '#' ) return t;
  ++i; bool two = false; if ( i < n && k[i] == '#' ) { ++i; two = true; }
  char u = 0; if ( i < n && strchr("-=~_",k[i]) && k[i] ) u = k[i++];
  sp(); std::string rest = k.substr(i);
  if ( rest.find_first_of("\n\r") != std::string::npos ) return t;
  t.on = true; t.blank = two; t.under = u; t.text = rest; return t;
}
static bool simple( MV const & a ) { return a.k <= K::Str; }
static bool simple_vec( MV const & a ) { return a.k < K::VStr; }
template <class V, class F> static std::string matrix( MV const & a, V const & v, size_t w, F f ) {
  if ( a.nr == 0 || a.nc == 0 ) return std::to_string(a.nr)+" by "+std::to_string(a.nc)+" matrix\n";
  std::string o; for ( unsigned i = 0; i < a.nr; ++i ) { for ( unsigned j = 0; j < a.nc; ++j ) o += ( j ? " " : "" )+pad(f(v[i+size_t(j)*a.nr]),w); o += '\n'; } return o;
}
static std::string dump( MV const & a, std::ios const & f, std::string const & p, std::string const & ind ) {
  auto vec = [&]( auto const & v, auto t ) { std::string o = p+"["; for ( auto const & x : v ) o += " "+t(x); return o+" ]\n"; };
  auto in = []( auto x ) { return std::to_string(x); };
  auto re = [&]( double x ) { return num(f,x); };
  switch ( a.k ) {
  case K::None: return p+"null\n"; case K::Ptr: return p+hexp(a.p)+"\n"; case K::Bool: return p+(a.b ? "true" : "false")+"\n";
  case K::Int: return p+std::to_string(a.i)+"\n"; case K::Long: return p+std::to_string(a.l)+"\n"; case K::Real: return p+re(a.r)+"\n";
  case K::Cplx: return p+ctext(a.c)+"\n"; case K::Str: return p+"\""+a.s+"\"\n";
  case K::VPtr: { if ( a.vp.empty() ) return p+"[ ]\n"; std::string o; size_t i = 0; for ( auto x : a.vp ) o += p+"vec_pointer("+std::to_string(i++)+"): "+hexp(x)+"\n"; return o; }
  case K::VBool: return vec(a.vb,[]( bool b ){ return std::string(b ? "true" : "false"); });
  case K::VInt: return vec(a.vi,in); case K::VLong: return vec(a.vl,in); case K::VReal: return vec(a.vr,re); case K::VCplx: return vec(a.vc,ctext);
  case K::VStr: { std::string o; size_t i = 0; for ( auto const & x : a.vs ) o += p+std::to_string(i++)+": \""+x+"\"\n"; return o; }
  case K::MInt: return matrix(a,a.vi,8,in); case K::MLong: return matrix(a,a.vl,8,in); case K::MReal: return matrix(a,a.vr,8,re); case K::MCplx: return matrix(a,a.vc,12,ctext);
  case K::Vec: {
    std::string o; size_t i = 0;
    for ( auto const & x : a.v ) { bool one = simple(x) || ( simple_vec(x) && x.count() <= 10 ); o += p+std::to_string(i++)+( one ? ": "+dump(x,f,"",ind) : ":\n"+dump(x,f,p+ind,ind) ); }
    return o; }
  default: {
    std::string o;
    for ( auto const & x : a.m ) {
      Title t = title(x.first);
      if ( simple(x.second) ) { o += p+t.text+": "+dump(x.second,f,"",ind); continue; }
      if ( t.on && t.blank ) o += '\n';
      o += p+t.text;
      if ( t.on && t.under ) o += "\n"+p+std::string(t.text.size(),t.under); else o += ':';
      o += '\n'; o += dump(x.second,f,p+ind,ind);
    }
    return o; }
  }
}
static std::string types( MV const & a, std::string const & p, std::string const & ind ) {
  auto v = [&]( char const * n ) { return std::string("vector of ")+n+"["+std::to_string(a.count())+"]\n"; };
  auto m = [&]( char const * n ) { return std::string("matrix of ")+n+"["+std::to_string(a.nr)+","+std::to_string(a.nc)+"]\n"; };
  switch ( a.k ) {
  case K::None: return p+"Empty!\n"; case K::Ptr: return p+"(*void)\n"; case K::Bool: return p+"bool\n"; case K::Int: return p+"int\n"; case K::Long: return p+"long int\n"; case K::Real: return p+"double\n"; case K::Cplx: return p+"complex\n"; case K::Str: return p+"string\n";
  case K::VPtr: return v("pointer"); case K::VBool: return v("bool"); case K::VInt: return v("int"); case K::VLong: return v("long"); case K::VReal: return v("double"); case K::VCplx: return v("complex"); case K::VStr: return v("string");
  case K::MInt: return m("int"); case K::MLong: return m("long"); case K::MReal: return m("double"); case K::MCplx: return m("complex");
  case K::Vec: { std::string o; size_t i = 0; for ( auto const & x : a.v ) o += p+std::to_string(i++)+( simple_vec(x) ? ": "+types(x,"",ind) : ":\n"+types(x,p+ind,ind) ); return o; }
  default: {
    std::string o;
    for ( auto const & x : a.m ) {
      Title t = title(x.first);
      if ( simple_vec(x.second) ) { o += p+t.text+": "+types(x.second,"",ind); continue; }
      if ( t.on && t.blank ) o += '\n';
      o += p+t.text;
      if ( t.on && t.under ) o += "\n"+p+std::string(t.text.size(),t.under); else o += ':';
      o += '\n'; o += types(x.second,p+ind,ind);
    }
    return o; }
  }
}
static void retitle( Src & g, MV & a ) { // some keys become titles
  for ( auto & x : a.v ) retitle(g,x);
  std::map<std::string,MV> m;
  for ( auto & x : a.m ) {
    retitle(g,x.second); std::string k = x.first;
    static char const * const sp[] = {""," ","  ","\t"}; static char const * const un[] = {"","-","=","~","_","+"};
    if ( g.chance(1,3) ) k = std::string(g.pick(sp))+std::to_string(g.below(g.chance(1,4) ? 4000000000u : 30))+g.pick(sp)+( g.coin() ? "#" : g.chance(1,5) ? "###" : "##" )+g.pick(un)+g.pick(sp)+k;
    m[k] = x.second;
  }
  a.m = m;
}
static std::string first_diff( std::string const & w, std::string const & g ) {
  size_t i = 0; while ( i < w.size() && i < g.size() && w[i] == g[i] ) ++i;
  size_t b = i > 40 ? i-40 : 0;
  return "at byte "+std::to_string(i)+" expected "+quote(w.substr(b,100))+" got "+quote(g.substr(b,100));
}
static void one( Src & g, Ctx & c ) {
  GenOpt o; o.max_depth = g.range(0,3); o.max_len = g.chance(1,5) ? 14 : 5; o.key = GenOpt::Str::Bytes;
  MV a = gen(g,o); retitle(g,a);
  c.log("value "+show(a)); c.nontrivial = a.k >= K::VPtr && a.count() > 0;
  GC gc; build(gc,a); GC const & k = gc;
  static char const * const ps[] = {"","  ","> ","\t"}; static char const * const is[] = {"    ",""," ","--"};
  std::string p = g.pick(ps), ind = g.pick(is);
  std::ostringstream s; std::ostringstream ref;
  static int const pr[] = {6,12,17,1,0}; s.precision(g.pick(pr));
  if ( g.chance(1,4) ) s.setf( g.coin() ? std::ios::fixed : std::ios::scientific, std::ios::floatfield );
  if ( g.chance(1,5) ) s.setf( g.coin() ? std::ios::uppercase : std::ios::showpoint );
  if ( s.flags() & std::ios::fixed ) s.precision(2);
  ref.copyfmt(s);
  std::string want, got; char const * what = "";
  unsigned op = unsigned(g.below(7));
  switch ( op ) {
  case 0: what = "dump"; k.dump(s,p,ind); want = dump(a,ref,p,ind); got = s.str(); break;
  case 1: what = "print"; k.print(s,p,ind); want = dump(a,ref,p,ind); got = s.str(); break;
  case 2: what = "dump with defaults"; k.dump(s); want = dump(a,ref,"","    "); got = s.str(); break;
  case 3: { what = "print to a string"; got = k.print(p,ind); std::ostringstream r; r.precision(GC_namespace::stream_number_precision); want = dump(a,r,p,ind); break; }
  case 4: what = "print_content_types"; k.print_content_types(s,p,ind); want = types(a,p,ind); got = s.str(); break;
  case 5: { what = "info"; k.info(s); got = s.str(); c.check( k.info() == [&]{ std::ostringstream r; k.info(r); return r.str(); }(), "info() and info(stream) differ" );
    // the kind and the size, or the value of a scalar, in one line
    auto has = [&]( std::string const & x ) { c.check( got.find(x) != std::string::npos, "info does not show "+quote(x)+": "+quote(got) ); };
    c.check( !got.empty() && got.back() == '\n', "info does not end its line" );
    if ( a.k != K::Str ) c.check( std::count( got.begin(), got.end(), '\n' ) == 1, "info is not one line: "+quote(got) );
    switch ( a.k ) { case K::Int: has(" "+std::to_string(a.i)+"\n"); break; case K::Long: has(" "+std::to_string(a.l)+"\n"); break; case K::Real: has(" "+num(ref,a.r)+"\n"); break; case K::Cplx: has(" "+ctext(a.c)+"\n"); break; case K::Str: has(a.s+"\n"); break; case K::Bool: has(a.b ? "true" : "false"); break;
      case K::MInt: case K::MLong: case K::MReal: case K::MCplx: has(std::to_string(a.nr)+" x "+std::to_string(a.nc)+"\n"); break; case K::None: case K::Ptr: case K::Map: break; default: has("size "+std::to_string(a.count())+"\n"); }
    auto minfo = [&]( auto const & m ) { c.check( m.info().find(std::to_string(a.nr)+" x "+std::to_string(a.nc)) != std::string::npos, "info of the matrix: "+quote(m.info()) ); };
    switch ( a.k ) { case K::MInt: minfo(k.get_mat_int()); break; case K::MLong: minfo(k.get_mat_long()); break; case K::MReal: minfo(k.get_mat_real()); break; case K::MCplx: minfo(k.get_mat_complex()); break; default: break; }
    want = got; break; }
  default: { what = "operator <<"; using GC_namespace::operator<<;
    switch ( a.k ) { // the operators of vectors and matrices
    case K::VInt: s << k.get_vec_int(); break; case K::VLong: s << k.get_vec_long(); break; case K::VReal: s << k.get_vec_real(); break; case K::VCplx: s << k.get_vec_complex(); break; case K::VBool: s << k.get_vec_bool(); break;
    case K::MInt: s << k.get_mat_int(); break; case K::MLong: s << k.get_mat_long(); break; case K::MReal: s << k.get_mat_real(); break; case K::MCplx: s << k.get_mat_complex(); break; default: break; }
    if ( a.k >= K::VBool && a.k <= K::VCplx ) { want = dump(a,ref,"",""); want.pop_back(); } else if ( a.k >= K::MInt && a.k <= K::MCplx ) want = dump(a,ref,"","");
    got = s.str(); }
  }
  c.label(what);
  c.check( want == got, std::string(what)+" prefix "+quote(p)+" indent "+quote(ind)+": "+first_diff(want,got) );
  c.check( s.good() && s.flags() == ref.flags() && s.precision() == ref.precision() && s.fill() == ref.fill() && s.width() == 0, std::string(what)+" changed the format of the stream" );
  c.check( same(a,read_checked(k,"after printing")), std::string(what)+" changed the container" );
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C20"; p.one = one; p.init = quiet;
  p.rule = "random trees of all kinds, with title keys, printed by dump, print, print_content_types, info and the stream operators with random prefix, indent, precision and number format; the text is compared with a reference renderer, then the container and the state of the stream are compared with before. Non-trivial: a non-empty vector, matrix, list or map.";
  return pt_main(argc,argv,p);
}
