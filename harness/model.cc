#include "model.hh"
#include <limits>

namespace pt {

static T const TT[NKIND] = { T::NOTYPE,T::POINTER,T::BOOL,T::INTEGER,T::LONG,T::REAL,T::COMPLEX,T::STRING,T::VEC_POINTER,T::VEC_BOOL,T::VEC_INTEGER,T::VEC_LONG,T::VEC_REAL,T::VEC_COMPLEX,T::VEC_STRING,T::MAT_INTEGER,T::MAT_LONG,T::MAT_REAL,T::MAT_COMPLEX,T::VECTOR,T::MAP };
static char const * NN[NKIND] = { "none","ptr","bool","int","long","real","cplx","str","vptr","vbool","vint","vlong","vreal","vcplx","vstr","mint","mlong","mreal","mcplx","vec","map" };
T to_gct( K k ) { return TT[int(k)]; }
K from_gct( T t ) { for ( int i = 0; i < NKIND; ++i ) if ( TT[i] == t ) return K(i); fail("container reports a type outside the documented set"); }
char const * kname( K k ) { return NN[int(k)]; }

size_t MV::count() const {
  switch ( k ) {
  case K::None: return 0;
  case K::VPtr: return vp.size(); case K::VBool: return vb.size();
  case K::VInt: case K::MInt: return vi.size(); case K::VLong: case K::MLong: return vl.size();
  case K::VReal: case K::MReal: return vr.size(); case K::VCplx: case K::MCplx: return vc.size();
  case K::VStr: return vs.size(); case K::Vec: return v.size(); case K::Map: return m.size();
  default: return 1;
  }
}

bool same_double( double a, double b ) {
  if ( std::isnan(a) && std::isnan(b) ) return true;
  return memcmp(&a,&b,sizeof a) == 0;
}
static bool sc( cplx a, cplx b ) { return same_double(a.real(),b.real()) && same_double(a.imag(),b.imag()); }

static std::string sd( double d ) { return fmt_double(d); }
static std::string scx( cplx c ) { return "("+sd(c.real())+","+sd(c.imag())+")"; }

template <class V, class F> static std::string lst( V const & v, F f ) {
  std::string o = "["; size_t n = 0;
  for ( auto const & x : v ) { if ( n++ ) o += ','; if ( n > 40 ) { o += "...("+std::to_string(v.size())+")"; break; } o += f(x); }
  return o+"]";
}
std::string show( MV const & a ) {
  char b[40];
  auto sp = [&]( void * p ) { snprintf(b,sizeof b,"@%p",p); return std::string(b); };
  auto si = []( auto x ) { return std::to_string(x); };
  std::string sh = a.k >= K::MInt && a.k <= K::MCplx ? std::to_string(a.nr)+"x"+std::to_string(a.nc) : "";
  switch ( a.k ) {
  case K::None: return "none"; case K::Ptr: return sp(a.p); case K::Bool: return a.b ? "true":"false";
  case K::Int: return si(a.i)+"i"; case K::Long: return si(a.l)+"L"; case K::Real: return sd(a.r)+"r"; case K::Cplx: return scx(a.c);
  case K::Str: return quote(a.s);
  case K::VPtr: return "vptr"+lst(a.vp,sp); case K::VBool: return "vbool"+lst(a.vb,[]( bool x ){ return std::string(x?"1":"0"); });
  case K::VInt: return "vint"+lst(a.vi,si); case K::VLong: return "vlong"+lst(a.vl,si); case K::VReal: return "vreal"+lst(a.vr,sd);
  case K::VCplx: return "vcplx"+lst(a.vc,scx); case K::VStr: return "vstr"+lst(a.vs,quote);
  case K::MInt: return "mint"+sh+lst(a.vi,si); case K::MLong: return "mlong"+sh+lst(a.vl,si);
  case K::MReal: return "mreal"+sh+lst(a.vr,sd); case K::MCplx: return "mcplx"+sh+lst(a.vc,scx);
  case K::Vec: return "vec"+lst(a.v,show);
  case K::Map: { std::string o = "{"; size_t n = 0; for ( auto const & [k,x] : a.m ) { if ( n++ ) o += ", "; o += quote(k)+": "+show(x); } return o+"}"; }
  }
  return "?";
}

template <class V, class F> static std::string dl( V const & a, V const & b, F eq, std::string const & at ) {
  if ( a.size() != b.size() ) return at+": sizes "+std::to_string(a.size())+" and "+std::to_string(b.size());
  for ( size_t i = 0; i < a.size(); ++i ) if ( !eq(a[i],b[i]) ) return at+"["+std::to_string(i)+"] differs";
  return "";
}
std::string diff( MV const & a, MV const & b, std::string const & at ) {
  if ( a.k != b.k ) return at+": type "+kname(a.k)+" expected, "+kname(b.k)+" found";
  auto e = []( auto const & x, auto const & y ) { return x == y; };
  std::string r;
  switch ( a.k ) {
  case K::None: return "";
  case K::Ptr: return a.p == b.p ? "" : at+": pointers differ";
  case K::Bool: return a.b == b.b ? "" : at+": bools differ";
  case K::Int: return a.i == b.i ? "" : at+": expected "+std::to_string(a.i)+" found "+std::to_string(b.i);
  case K::Long: return a.l == b.l ? "" : at+": expected "+std::to_string(a.l)+" found "+std::to_string(b.l);
  case K::Real: return same_double(a.r,b.r) ? "" : at+": expected "+sd(a.r)+" found "+sd(b.r);
  case K::Cplx: return sc(a.c,b.c) ? "" : at+": expected "+scx(a.c)+" found "+scx(b.c);
  case K::Str: return a.s == b.s ? "" : at+": expected "+quote(a.s)+" found "+quote(b.s);
  case K::VPtr: r = dl(a.vp,b.vp,e,at); break;
  case K::VBool: r = dl(a.vb,b.vb,e,at); break;
  case K::VInt: case K::MInt: r = dl(a.vi,b.vi,e,at); break;
  case K::VLong: case K::MLong: r = dl(a.vl,b.vl,e,at); break;
  case K::VReal: case K::MReal: r = dl(a.vr,b.vr,same_double,at); break;
  case K::VCplx: case K::MCplx: r = dl(a.vc,b.vc,sc,at); break;
  case K::VStr: r = dl(a.vs,b.vs,e,at); break;
  case K::Vec:
    if ( a.v.size() != b.v.size() ) return at+": list sizes "+std::to_string(a.v.size())+" and "+std::to_string(b.v.size());
    for ( size_t i = 0; i < a.v.size(); ++i ) { r = diff(a.v[i],b.v[i],at+"["+std::to_string(i)+"]"); if ( !r.empty() ) return r; }
    return "";
  case K::Map:
    for ( auto const & [k,x] : a.m ) { auto it = b.m.find(k); if ( it == b.m.end() ) return at+": key "+quote(k)+" lost"; r = diff(x,it->second,at+"."+quote(k)); if ( !r.empty() ) return r; }
    for ( auto const & [k,x] : b.m ) if ( !a.m.count(k) ) return at+": unexpected key "+quote(k);
    return "";
  }
  if ( r.empty() && a.k >= K::MInt && a.k <= K::MCplx && (a.nr != b.nr || a.nc != b.nc) )
    return at+": shape "+std::to_string(a.nr)+"x"+std::to_string(a.nc)+" expected, "+std::to_string(b.nr)+"x"+std::to_string(b.nc)+" found";
  if ( !r.empty() ) r += "; expected "+show(a)+" found "+show(b);
  return r;
}
bool same( MV const & a, MV const & b ) { return diff(a,b).empty(); }
size_t nodes( MV const & a ) { size_t n = 1; for ( auto const & x : a.v ) n += nodes(x); for ( auto const & x : a.m ) n += nodes(x.second); return n; }
size_t depth( MV const & a ) { size_t n = 0; for ( auto const & x : a.v ) n = std::max(n,depth(x)); for ( auto const & x : a.m ) n = std::max(n,depth(x.second)); return n+1; }

// ---------------------------------------------------------------- generators
int32_t gen_i32( Src & g ) {
  switch ( g.weighted({6,3,3,2}) ) {
  case 0: { int32_t v = int32_t(g.below(12)); return g.coin() ? -v : v; }
  case 1: { int32_t v = int32_t(g.below(100000)); return g.coin() ? -v : v; }
  case 2: { static int32_t const e[] = { 0, INT32_MAX, INT32_MIN, INT32_MAX-1, INT32_MIN+1, 255, 256, 65535, 65536, -128, -129, -32768, 1<<24, (1<<24)+1, 0x7f00ff00, -0x01020305 }; return g.pick(e); }
  default: return int32_t(uint32_t(g.u64()));
  }
}
int64_t gen_i64( Src & g ) {
  switch ( g.weighted({4,3,4,2,2}) ) {
  case 0: return gen_i32(g);
  case 1: { int sh = int(g.below(63)); int64_t v = int64_t(1)<<sh; v += int64_t(g.below(3))-1; return g.coin() ? -v : v; }
  case 2: { static int64_t const e[] = { 0, INT64_MAX, INT64_MIN, INT64_MAX-1, INT64_MIN+1, int64_t(INT32_MAX)+1, int64_t(INT32_MIN)-1, int64_t(UINT32_MAX), int64_t(UINT32_MAX)+1,
              (int64_t(1)<<53)+1, -(int64_t(1)<<53)-1, (int64_t(1)<<53)-1, int64_t(1)<<53, int64_t(INT32_MAX), int64_t(INT32_MIN), 0x0102030405060708LL, -0x0102030405060708LL }; return g.pick(e); }
  case 3: { int64_t v = int64_t(g.below(1000000000000ULL)); return g.coin() ? -v : v; }
  default: return int64_t(g.u64());
  }
}
double gen_double( Src & g, GenOpt const & o ) {
  for (;;) {
    double v = 0;
    switch ( g.weighted({5,4,3,3,2,2}) ) {
    case 0: v = double(g.below(20)); if ( g.coin() ) v = -v; break;
    case 1: v = double(int64_t(g.below(2000001))-1000000)/ (g.coin() ? 1000.0 : 7.0); break;
    case 2: { static double const e[] = { 0.0, 1.0, -1.0, 0.5, 0.1, 1.0/3.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0, 9007199254740992.0, 9007199254740993.0,
                9223372036854775807.0, -9223372036854775808.0, 9223372036854774784.0, 18446744073709551615.0, 1e15, 1e16, 1e17, 1e21, 1e-5, 1e-4, 123456789.125, 1e100, 1e-100, 2147483647.5, -0.5, 0.30000000000000004 }; v = g.pick(e); break; }
    case 3: { static double const e[] = { 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 4.9406564584124654e-324, 1e300, 1e-300, 1.1, -0.0, INFINITY, -INFINITY, NAN, 5e-320 }; v = g.pick(e); break; }
    case 4: { uint64_t b = g.u64(); memcpy(&v,&b,8); break; }
    default: { int ex = g.range(-40,40); v = std::ldexp(double(g.below(1ull<<53)),ex); if ( g.coin() ) v = -v; }
    }
    if ( !o.nonfinite && !std::isfinite(v) ) v = 1.5;
    if ( !o.negzero && v == 0 ) v = 0.0;
    return v;
  }
}
std::string gen_string( Src & g, GenOpt::Str mode, int max_len ) {
  static char const * const utf[] = { "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc2\xa0", "\xe6\x97\xa5", "\xc3\x9f" };
  static char const * const words[] = { "a", "b", "key", "true", "false", "null", "nan", "inf", "12", "-3", "1.5", "1e5", "0x10", "~", "yes", "no", "on", "off", "x: y", "- z", "# c", "[1,2]", "{a: 1}", "(1,2)", "1+2i", "", " ", "  lead", "trail  ", "'q'", "\"q\"", "back\\slash", "/", "%", "&a", "*a", "!t", "|", ">", "@", "`", "?", ":", ",", "=", "0", "01", "1_000", "2020-01-01", ".5", "5.", "+1", "-", "--", "---", "...", ".nan", ".inf", "-.inf", "+.inf", "<<", "0o17", "0b1", "%YAML 1.2", "key:", "a #b", "a:b", ":a", "y", "n", "#", "a#", "nil", "undefined", "\xef\xbb\xbf", "a\n", "\n", "\nb", "$data", "$mat_real", "a.b", "1:30", "=1", "?a", "? a", "- ", "!!str a" };
  int n = 0;
  switch ( g.weighted({6,3,1}) ) { case 0: n = g.range(0,std::min(4,max_len)); break; case 1: n = g.range(0,max_len); break; default: n = g.range(0,max_len*(g.chance(1,4) ? 12 : 3)); }
  std::string s;
  if ( mode == GenOpt::Str::Plain ) {
    static char const al[] = "abcdefghijklmnopqrstuvwxyzABCXYZ_0123456789";
    if ( n == 0 ) n = 1;
    for ( int i = 0; i < n; ++i ) s += al[g.below(i == 0 ? 32 : sizeof(al)-1)];
    return s;
  }
  if ( mode != GenOpt::Str::Bytes && mode != GenOpt::Str::BytesNoNul && g.chance(1,4) ) {
    s = g.pick(words);
    switch ( g.below(8) ) { case 0: for ( auto & c : s ) c = char(toupper(static_cast<unsigned char>(c))); break; case 1: if ( !s.empty() ) s[0] = char(toupper(static_cast<unsigned char>(s[0]))); break; default: break; }
    return s;
  }
  for ( int i = 0; i < n; ++i ) {
    char c = 0;
    switch ( mode ) {
    case GenOpt::Str::Ascii: c = char(g.range(32,126)); s += g.chance(2,3) ? char('a'+(c%26)) : c; break;
    case GenOpt::Str::Text:
      switch ( g.weighted({6,4,2,2,2}) ) {
      case 0: s += char('a'+g.below(26)); break;
      case 1: s += char(g.range(32,126)); break;
      case 2: s += g.pick(utf); break;
      case 3: { static char const e[] = { '\n','\t','\r','"','\\','\'','/','\b','\f' }; s += g.pick(e); break; }
      default: s += char(1+g.below(31)); break;
      } break;
    default:
      switch ( g.weighted({5,3,2}) ) {
      case 0: s += char('a'+g.below(26)); break;
      case 1: s += char(g.range(32,126)); break;
      default: c = char(g.below(256)); if ( mode == GenOpt::Str::BytesNoNul && !c ) c = 'N'; s += c; break;
      }
    }
  }
  return s;
}
void * gen_ptr( Src & g ) {
  static uintptr_t const e[] = { 0, 1, 0x1000, 0xdeadbeef, 0x7fffffffffffULL, 0xffffffffffffffffULL, 0x8000000000000000ULL, 0x123456789abcdefULL };
  return reinterpret_cast<void*>( g.coin() ? g.pick(e) : uintptr_t(g.u64()) );
}

// now and then a value much larger than the others: a few draws decide its size and the rest follows from one of them
static MV gen_big( Src & g, K k, GenOpt const & o, int d ) {
  MV a(k); Src r(g.u64()); GenOpt e = o; e.big = 0; e.max_depth = d+2; e.max_len = 2; e.nonempty = o.nonempty;
  bool nest = k == K::Vec || k == K::Map;
  size_t n = size_t(g.chance(1,6) ? g.range(1,o.big_len) : g.range(1,std::min(o.big_len,80)));
  if ( nest ) n = std::min(n,size_t(150));
  bool huge = o.huge && g.chance(1,o.huge); // beyond 16 bits, lists and maps beyond 8
  if ( huge ) n = nest ? size_t(g.range(250,300)) : size_t(g.range(65530,65800));
  auto dim = [&]{
    a.nr = unsigned(g.range(1,40)); a.nc = unsigned(g.range(1,40));
    if ( huge ) { switch ( g.below(3) ) { case 0: a.nr = 256; a.nc = unsigned(g.range(256,258)); break; case 1: a.nc = unsigned(n); a.nr = 1; break; default: a.nr = unsigned(n); a.nc = 1; } }
    return size_t(a.nr)*a.nc;
  };
  auto cx = [&]{ double re = gen_double(r,o), im = gen_double(r,o); return cplx(re,im); };
  switch ( k ) {
  case K::Str: { std::string u; while ( u.empty() ) u = gen_string(r,o.str,20); while ( a.s.size() < n*( huge ? 1 : 4 ) ) a.s += u; break; }
  case K::VPtr: while ( n-- ) a.vp.push_back(gen_ptr(r)); break;
  case K::VBool: while ( n-- ) a.vb.push_back(r.coin()); break;
  case K::VInt: while ( n-- ) a.vi.push_back(gen_i32(r)); break;
  case K::VLong: while ( n-- ) a.vl.push_back(gen_i64(r)); break;
  case K::VReal: while ( n-- ) a.vr.push_back(gen_double(r,o)); break;
  case K::VCplx: while ( n-- ) a.vc.push_back(cx()); break;
  case K::VStr: n = std::min(n,size_t(300)); while ( n-- ) a.vs.push_back(gen_string(r,o.str)); break;
  case K::MInt: n = dim(); while ( n-- ) a.vi.push_back(gen_i32(r)); break;
  case K::MLong: n = dim(); while ( n-- ) a.vl.push_back(gen_i64(r)); break;
  case K::MReal: n = dim(); while ( n-- ) a.vr.push_back(gen_double(r,o)); break;
  case K::MCplx: n = dim(); while ( n-- ) a.vc.push_back(cx()); break;
  case K::Vec: while ( n-- ) a.v.push_back(gen(r,e,d+1)); break;
  case K::Map: while ( n-- ) { std::string q = gen_string(r,o.key,20); if ( huge && a.m.empty() && o.long_keys ) { if ( q.empty() ) q = "k"; std::string u = q; size_t m = g.coin() ? size_t(g.range(250,260)) : size_t(g.range(65530,65600)); while ( q.size() < m ) q += u; }
    a.m[q] = gen(r,e,d+1); } break;
  default: return gen_kind(g,k,e,d);
  }
  return a;
}
MV gen_kind( Src & g, K k, GenOpt const & o, int d ) {
  if ( o.big && k >= K::Str && g.chance(1,o.big) ) return gen_big(g,k,o,d);
  MV a(k);
  auto len = [&]() -> size_t {
    int lo = o.nonempty ? 1 : 0;
    switch ( g.weighted({5,4,1}) ) { case 0: return size_t(g.range(lo,std::min(3,o.max_len))); case 1: return size_t(g.range(lo,o.max_len)); default: return size_t(g.range(lo,o.max_len*(g.chance(1,5) ? 8 : 2))); }
  };
  auto dim = [&]{ int lo = (o.nonempty || !o.empty_mat) ? 1 : 0; a.nr = unsigned(g.range(lo,4)); a.nc = unsigned(g.range(lo,4)); return size_t(a.nr)*a.nc; };
  auto cx = [&]{ double re = gen_double(g,o), im = gen_double(g,o); return cplx(re,im); };
  switch ( k ) {
  case K::None: break;
  case K::Ptr: a.p = gen_ptr(g); break;
  case K::Bool: a.b = g.coin(); break;
  case K::Int: a.i = gen_i32(g); break;
  case K::Long: a.l = gen_i64(g); break;
  case K::Real: a.r = gen_double(g,o); break;
  case K::Cplx: a.c = cx(); break;
  case K::Str: a.s = gen_string(g,o.str); break;
  case K::VPtr: for ( size_t n = len(); n--; ) a.vp.push_back(gen_ptr(g)); break;
  case K::VBool: for ( size_t n = len(); n--; ) a.vb.push_back(g.coin()); break;
  case K::VInt: for ( size_t n = len(); n--; ) a.vi.push_back(gen_i32(g)); break;
  case K::VLong: for ( size_t n = len(); n--; ) a.vl.push_back(gen_i64(g)); break;
  case K::VReal: for ( size_t n = len(); n--; ) a.vr.push_back(gen_double(g,o)); break;
  case K::VCplx: for ( size_t n = len(); n--; ) a.vc.push_back(cx()); break;
  case K::VStr: for ( size_t n = len(); n--; ) a.vs.push_back(gen_string(g,o.str)); break;
  case K::MInt: for ( size_t n = dim(); n--; ) a.vi.push_back(gen_i32(g)); break;
  case K::MLong: for ( size_t n = dim(); n--; ) a.vl.push_back(gen_i64(g)); break;
  case K::MReal: for ( size_t n = dim(); n--; ) a.vr.push_back(gen_double(g,o)); break;
  case K::MCplx: for ( size_t n = dim(); n--; ) a.vc.push_back(cx()); break;
  case K::Vec: for ( size_t n = len(); n--; ) a.v.push_back(gen(g,o,d+1)); break;
  case K::Map: for ( size_t n = len(); n--; ) { std::string key = gen_string(g,o.key,8); a.m[key] = gen(g,o,d+1); } break;
  }
  return a;
}
MV gen( Src & g, GenOpt const & o, int d ) {
  std::vector<K> ks;
  bool leaf = d >= o.max_depth;
  for ( int i = 0; i < NKIND; ++i ) {
    K k = K(i);
    if ( !o.has(k) ) continue;
    if ( k == K::Vec || k == K::Map ) { if ( leaf ) continue; int w = d == 0 ? 8 : 4; for ( int q = 0; q < w; ++q ) ks.push_back(k); }
    else ks.push_back(k);
  }
  if ( ks.empty() ) return MV();
  if ( d == 0 && o.big && o.max_depth >= 2 && ( o.has(K::Vec) || o.has(K::Map) ) && g.chance(1,o.big) ) { // deep
    int n = g.range(1,o.big_depth); GenOpt e = o; e.big = 0; e.max_depth = 1; MV a = gen(g,e,0); Src r(g.u64());
    while ( n-- ) {
      if ( o.has(K::Vec) && ( !o.has(K::Map) || r.coin() ) ) { MV b(K::Vec); if ( r.chance(1,4) ) b.v.push_back(gen(r,e,1)); b.v.push_back(a); if ( r.chance(1,4) ) b.v.push_back(gen(r,e,1)); a = std::move(b); }
      else { MV b(K::Map); if ( r.chance(1,4) ) b.m[gen_string(r,o.key,8)] = gen(r,e,1); b.m[gen_string(r,o.key,8)] = a; a = std::move(b); }
    }
    return a;
  }
  return gen_kind(g,g.pick(ks),o,d);
}

MV twin( Src & g, MV const & a ) {
  MV b = a;
  auto i32 = [&]( auto & x ) { x = decltype(+x)( x ^ ( 1 << g.below(31) ) ); };
  auto i64 = [&]( auto & x ) { x = decltype(+x)( x ^ ( 1LL << g.below(63) ) ); };
  auto dbl = [&]( double & x ) {
    if ( x == 0 || g.chance(1,4) ) x = -x;
    else if ( g.coin() ) x = std::nextafter( x, g.coin() ? HUGE_VAL : -HUGE_VAL );
    else if ( x == x && std::fabs(x) < 1e300 ) x = x*(1+1e-12);
    if ( x != x ) x = 0.0;
  };
  auto cx = [&]( cplx & x ) { double p[2] = { x.real(), x.imag() }; dbl(p[g.below(2)]); x = cplx(p[0],p[1]); };
  auto str = [&]( std::string & s ) {
    switch ( s.empty() ? 0 : g.below(4) ) {
    case 0: s += char(g.coin() ? 0 : 'x'); break;
    case 1: s.pop_back(); break;
    case 2: s[g.coin() ? s.size()-1 : g.below(s.size())] ^= 0x20; break;
    default: s[g.below(s.size())] = 0; break;
    }
  };
  auto some = [&]( auto & v, auto f ) { if ( !v.empty() ) f( v[ g.coin() ? v.size()-1 : g.below(v.size()) ] ); };
  bool mat = a.k == K::MInt || a.k == K::MLong || a.k == K::MReal || a.k == K::MCplx;
  if ( mat && a.nr != a.nc && g.chance(1,4) ) { std::swap(b.nr,b.nc); return b; }
  switch ( a.k ) {
  case K::Bool: b.b = !a.b; break;
  case K::Int: i32(b.i); break;
  case K::Long: i64(b.l); break;
  case K::Real: dbl(b.r); break;
  case K::Cplx: cx(b.c); break;
  case K::Str: str(b.s); break;
  case K::VBool: if ( !b.vb.empty() ) { size_t i = g.below(b.vb.size()); b.vb[i] = !b.vb[i]; } break;
  case K::VInt: case K::MInt: some(b.vi,i32); break;
  case K::VLong: case K::MLong: some(b.vl,i64); break;
  case K::VReal: case K::MReal: some(b.vr,dbl); break;
  case K::VCplx: case K::MCplx: some(b.vc,cx); break;
  case K::VStr: some(b.vs,str); break;
  case K::Vec: some(b.v,[&]( MV & x ) { x = twin(g,x); }); break;
  case K::Map: if ( !b.m.empty() ) {
      auto it = b.m.begin(); std::advance(it,long(g.below(b.m.size())));
      if ( g.chance(3,4) ) it->second = twin(g,it->second);
      else { std::string k = it->first; MV x = it->second; b.m.erase(it); str(k); b.m[k] = x; }
    } break;
  default: break;
  }
  return b;
}
MV mutate( Src & g, MV const & a, GenOpt const & o ) {
  for ( int tries = 0; tries < 20; ++tries ) {
    MV b = a;
    auto fiddle = [&]( auto & v, auto make ) {
      switch ( v.empty() ? 1 : g.below(4) ) {
      case 0: v[g.below(v.size())] = make(); break;
      case 1: v.push_back(make()); break;
      case 2: v.pop_back(); break;
      default: std::swap(v[0],v[g.below(v.size())]); break;
      }
    };
    if ( g.chance(1,8) ) b = gen(g,o,1);
    else switch ( a.k ) {
    case K::Vec: if ( !a.v.empty() && g.chance(3,4) ) { size_t i = g.below(a.v.size()); b.v[i] = mutate(g,a.v[i],o); }
      else if ( g.coin() || a.v.empty() ) b.v.push_back(gen(g,o,2)); else b.v.erase(b.v.begin()+long(g.below(b.v.size()))); break;
    case K::Map: if ( !a.m.empty() && g.chance(3,4) ) { auto it = b.m.begin(); std::advance(it,long(g.below(b.m.size()))); it->second = mutate(g,it->second,o); }
      else if ( g.coin() || a.m.empty() ) b.m[gen_string(g,o.key,8)] = gen(g,o,2);
      else { auto it = b.m.begin(); std::advance(it,long(g.below(b.m.size()))); MV x = it->second; b.m.erase(it); if ( g.coin() ) b.m[gen_string(g,o.key,8)] = x; } break;
    case K::VPtr: fiddle(b.vp,[&]{ return gen_ptr(g); }); break;
    case K::VInt: fiddle(b.vi,[&]{ return gen_i32(g); }); break;
    case K::VLong: fiddle(b.vl,[&]{ return gen_i64(g); }); break;
    case K::VReal: fiddle(b.vr,[&]{ return gen_double(g,o); }); break;
    case K::VCplx: fiddle(b.vc,[&]{ double x = gen_double(g,o); return g.coin() ? cplx(x,0) : cplx(0,x); }); break;
    case K::VStr: fiddle(b.vs,[&]{ return gen_string(g,o.str); }); break;
    case K::VBool: if ( b.vb.empty() || g.chance(1,3) ) b.vb.push_back(g.coin()); else { size_t i = g.below(b.vb.size()); b.vb[i] = !b.vb[i]; } break;
    case K::Cplx: if ( g.coin() ) b.c = cplx(gen_double(g,o),a.c.imag()); else b.c = cplx(a.c.real(),gen_double(g,o)); break;
    case K::Bool: b.b = !a.b; break;
    case K::MInt: case K::MLong: case K::MReal: case K::MCplx:
      if ( a.nr != a.nc && g.coin() ) std::swap(b.nr,b.nc);
      else if ( a.count() ) {
        size_t i = g.below(a.count());
        if ( a.k == K::MInt ) b.vi[i] = gen_i32(g); else if ( a.k == K::MLong ) b.vl[i] = gen_i64(g); else if ( a.k == K::MReal ) b.vr[i] = gen_double(g,o);
        else b.vc[i] = g.coin() ? cplx(gen_double(g,o),a.vc[i].imag()) : cplx(a.vc[i].real(),gen_double(g,o));
      } else b = gen_kind(g,a.k,o,1);
      break;
    default: b = gen_kind(g,a.k,o,1);
    }
    if ( !same(a,b) ) return b;
  }
  return a.k == K::Int ? MV::Bool(true) : MV::Int(4711);
}

// ---------------------------------------------------------------- library side
template <class M, class V> static void fill( M & m, V const & v, unsigned nr, unsigned nc ) {
  for ( unsigned j = 0; j < nc; ++j ) for ( unsigned i = 0; i < nr; ++i ) m(i,j) = v[size_t(j)*nr+i];
}
void build( GC & gc, MV const & a ) {
  gc.clear();
  switch ( a.k ) {
  case K::None: break;
  case K::Ptr: gc.set_pointer(a.p); break;
  case K::Bool: gc.set_bool(a.b); break;
  case K::Int: gc.set_int(a.i); break;
  case K::Long: gc.set_long(a.l); break;
  case K::Real: gc.set_real(a.r); break;
  case K::Cplx: gc.set_complex(a.c.real(),a.c.imag()); break;
  case K::Str: gc.set_string(a.s); break;
  case K::VPtr: { auto & v = gc.set_vec_pointer(unsigned(a.vp.size())); for ( size_t i = 0; i < a.vp.size(); ++i ) v[i] = a.vp[i]; break; }
  case K::VBool: { auto & v = gc.set_vec_bool(unsigned(a.vb.size())); for ( size_t i = 0; i < a.vb.size(); ++i ) v[i] = a.vb[i]; break; }
  case K::VInt: { auto & v = gc.set_vec_int(unsigned(a.vi.size())); for ( size_t i = 0; i < a.vi.size(); ++i ) v[i] = a.vi[i]; break; }
  case K::VLong: { auto & v = gc.set_vec_long(unsigned(a.vl.size())); for ( size_t i = 0; i < a.vl.size(); ++i ) v[i] = a.vl[i]; break; }
  case K::VReal: { auto & v = gc.set_vec_real(unsigned(a.vr.size())); for ( size_t i = 0; i < a.vr.size(); ++i ) v[i] = a.vr[i]; break; }
  case K::VCplx: { auto & v = gc.set_vec_complex(unsigned(a.vc.size())); for ( size_t i = 0; i < a.vc.size(); ++i ) v[i] = a.vc[i]; break; }
  case K::VStr: { auto & v = gc.set_vec_string(unsigned(a.vs.size())); for ( size_t i = 0; i < a.vs.size(); ++i ) v[i] = a.vs[i]; break; }
  case K::MInt: fill(gc.set_mat_int(a.nr,a.nc),a.vi,a.nr,a.nc); break;
  case K::MLong: fill(gc.set_mat_long(a.nr,a.nc),a.vl,a.nr,a.nc); break;
  case K::MReal: fill(gc.set_mat_real(a.nr,a.nc),a.vr,a.nr,a.nc); break;
  case K::MCplx: fill(gc.set_mat_complex(a.nr,a.nc),a.vc,a.nr,a.nc); break;
  case K::Vec: { auto & v = gc.set_vector(unsigned(a.v.size())); for ( size_t i = 0; i < a.v.size(); ++i ) build(v[i],a.v[i]); break; }
  case K::Map: { auto & m = gc.set_map(); for ( auto const & [k,x] : a.m ) build(m[k],x); break; }
  }
}

MV read( GC const & gc ) {
  MV a(from_gct(gc.get_type()));
  auto mat = [&]( auto const & m, auto & v ) {
    a.nr = m.num_rows(); a.nc = m.num_cols();
    if ( m.size() != size_t(a.nr)*a.nc ) fail("matrix holds "+std::to_string(m.size())+" elements but reports shape "+std::to_string(a.nr)+"x"+std::to_string(a.nc));
    if ( a.nr ) for ( unsigned j = 0; j < a.nc; ++j ) for ( unsigned i = 0; i < a.nr; ++i ) v.push_back(m(i,j));
  };
  switch ( a.k ) {
  case K::None: break;
  case K::Ptr: a.p = gc.get_pointer<void*>(); break;
  case K::Bool: a.b = gc.get_bool(); break;
  case K::Int: a.i = gc.get_int(); break;
  case K::Long: a.l = gc.get_long(); break;
  case K::Real: a.r = gc.get_real(); break;
  case K::Cplx: a.c = gc.get_complex(); break;
  case K::Str: { std::string_view s = gc.get_string(); a.s.assign(s.data(),s.size()); break; }
  case K::VPtr: a.vp = gc.get_vec_pointer(); break;
  case K::VBool: a.vb = gc.get_vec_bool(); break;
  case K::VInt: a.vi = gc.get_vec_int(); break;
  case K::VLong: a.vl = gc.get_vec_long(); break;
  case K::VReal: a.vr = gc.get_vec_real(); break;
  case K::VCplx: a.vc = gc.get_vec_complex(); break;
  case K::VStr: a.vs = gc.get_vec_string(); break;
  case K::MInt: mat(gc.get_mat_int(),a.vi); break;
  case K::MLong: mat(gc.get_mat_long(),a.vl); break;
  case K::MReal: mat(gc.get_mat_real(),a.vr); break;
  case K::MCplx: mat(gc.get_mat_complex(),a.vc); break;
  case K::Vec: for ( auto const & x : gc.get_vector() ) a.v.push_back(read(x)); break;
  case K::Map: for ( auto const & [k,x] : gc.get_map() ) a.m.emplace(k,read(x)); break;
  }
  return a;
}
MV read_checked( GC const & gc, std::string const & what ) {
  try { return read(gc); }
  catch ( std::exception const & e ) { fail(what+": reading the container back throws: "+e.what()); }
}

} // namespace pt

// ---- the equivalent ways of storing a value ----
namespace pt {

template <class V> static V tovec( V const & v ) { return v; }

void build_varied( Src & g, GC & gc, MV const & a ) {
  using namespace GC_namespace;
  bool fresh = g.coin();
  switch ( a.k ) {
  case K::None: gc.clear(); break;
  case K::Ptr:
    switch ( g.below(4) ) { case 0: gc.set_pointer(a.p); break; case 1: gc.set(a.p); break; case 2: gc = a.p; break; default: { GC t(a.p); gc = t; } }
    break;
  case K::Bool:
    switch ( g.below(6) ) { case 0: gc.set_bool(a.b); break; case 1: gc.set(a.b); break; case 2: gc = a.b; break; case 3: { GC t(a.b); gc.load(t); break; }
      case 4: gc.clear(); gc.get_bool() = a.b; break; default: gc.set_bool(!a.b) = a.b; }
    break;
  case K::Int:
    switch ( g.below(7) ) { case 0: gc.set_int(a.i); break; case 1: gc.set(a.i); break; case 2: gc = a.i; break; case 3: { GC t(a.i); gc = t; break; }
      case 4: gc.clear(); gc.get_int() = a.i; break; case 5: gc.set_int(0) = a.i; break;
      default: if ( a.i >= 0 ) { if ( fresh ) gc = uint32_t(a.i); else { GC t(uint32_t(a.i)); t.to_gc(gc); } } else gc.set(a.i); }
    break;
  case K::Long:
    switch ( g.below(7) ) { case 0: gc.set_long(a.l); break; case 1: gc.set(a.l); break; case 2: gc = a.l; break; case 3: { GC t(a.l); gc = t; break; }
      case 4: gc.clear(); gc.get_long() = a.l; break; case 5: if ( a.l > 0x7FFFFFFFLL && a.l <= 0xFFFFFFFFLL ) { if ( fresh ) gc = uint32_t(a.l); else gc.set(uint32_t(a.l)); } else gc.set_long(7) = a.l; break;
      default: if ( a.l >= 0 ) { if ( fresh ) gc = uint64_t(a.l); else gc.set(uint64_t(a.l)); } else gc.set(a.l); }
    break;
  case K::Real:
    switch ( g.below(7) ) { case 0: gc.set_real(a.r); break; case 1: gc.set(a.r); break; case 2: gc = a.r; break; case 3: { GC t(a.r); t.to_gc(gc); break; }
      case 4: gc.clear(); gc.get_real() = a.r; break; case 5: gc.set_real(1) = a.r; break;
      default: if ( std::isfinite(a.r) && std::fabs(a.r) < 1e38 && double(float(a.r)) == a.r ) { if ( fresh ) gc = float(a.r); else gc.set(float(a.r)); } else gc = a.r; }
    break;
  case K::Cplx:
    switch ( g.below(7) ) { case 0: gc.set_complex(a.c); break; case 1: gc.set(a.c); break; case 2: gc = a.c; break; case 3: { GC t(a.c); gc = t; break; }
      case 4: gc.clear(); gc.get_complex() = a.c; break; case 5: gc.set_complex(a.c.real(),a.c.imag()); break;
      default: { auto ok = []( double x ) { return std::isfinite(x) && std::fabs(x) < 1e38 && double(float(x)) == x; };
        if ( ok(a.c.real()) && ok(a.c.imag()) ) { std::complex<float> f(float(a.c.real()),float(a.c.imag())); if ( fresh ) gc = f; else gc.set(f); } else gc.set_complex(1,2) = a.c; } }
    break;
  case K::Str:
    switch ( g.below(8) ) { case 0: gc.set_string(a.s); break; case 1: gc.set(std::string_view(a.s)); break; case 2: gc = a.s; break; case 3: { GC t(a.s); gc = t; break; }
      case 4: gc.clear(); gc.get_string() = a.s; break; case 5: gc = std::string_view(a.s); break; case 6: gc.set_string("x") = a.s; break;
      default: if ( a.s.find('\0') == std::string::npos ) { if ( fresh ) gc = a.s.c_str(); else gc.set(a.s.c_str()); }
               else { std::string pad = a.s+"tail"; gc.set_string(std::string_view(pad.data(),a.s.size())); } }
    break;
#define SIMPLE_VEC(KK,field,NAME,ATASSIGN,PUSH,ASSIGN,ATSET) \
  case KK: { auto const & src = a.field; \
    switch ( g.below(6) ) { \
    case 0: gc.set_vec_##NAME(src); break; \
    case 1: ASSIGN; break; \
    case 2: if ( fresh || src.empty() ) gc.clear(); { auto & d = gc.set_vec_##NAME(unsigned(src.size())); for ( size_t i = 0; i < src.size(); ++i ) d.at(i) = src[i]; } break; \
    case 5: if ( fresh || src.empty() ) gc.clear(); gc.set_vec_##NAME(unsigned(src.size())); for ( size_t i = 0; i < src.size(); ++i ) { ATSET; } break; \
    case 3: gc.clear(); gc.set_vec_##NAME(); for ( size_t i = 0; i < src.size(); ++i ) { ATASSIGN; } break; \
    default: gc.clear(); gc.set_vec_##NAME(); for ( size_t i = 0; i < src.size(); ++i ) { PUSH; } } \
    break; }
  SIMPLE_VEC(K::VPtr,vp,pointer, gc.get_vec_pointer().push_back(src[i]), gc.get_vec_pointer().push_back(src[i]), { GC t; t.set_vec_pointer(src); gc = t; }, gc.get_vec_pointer().at(i) = src[i] )
  SIMPLE_VEC(K::VBool,vb,bool, { (void)gc.get_bool_at(unsigned(i)); gc.get_vec_bool()[i] = src[i]; }, gc.push_bool(src[i]), gc = src, gc.get_vec_bool().at(i) = src[i] )
  SIMPLE_VEC(K::VInt,vi,int, gc.get_int_at(unsigned(i)) = src[i], gc.push_int(src[i]), gc = src, gc.get_int_at(unsigned(i)) = src[i] )
  SIMPLE_VEC(K::VLong,vl,long, gc.get_long_at(unsigned(i)) = src[i], gc.push_long(src[i]), gc = src, gc.get_long_at(unsigned(i)) = src[i] )
  SIMPLE_VEC(K::VReal,vr,real, gc.get_real_at(unsigned(i)) = src[i], gc.push_real(src[i]), gc = src, gc.get_real_at(unsigned(i)) = src[i] )
  SIMPLE_VEC(K::VCplx,vc,complex, gc.get_complex_at(unsigned(i)) = src[i], gc.push_complex(src[i].real(),src[i].imag()), gc = src, gc.get_complex_at(unsigned(i)) = src[i] )
  SIMPLE_VEC(K::VStr,vs,string, gc.get_string_at(unsigned(i)) = src[i], gc.push_string(src[i]), gc = src, gc.get_string_at(unsigned(i)) = src[i] )
#undef SIMPLE_VEC
#define SIMPLE_MAT(KK,field,NAME) \
  case KK: { auto const & src = a.field; \
    mat_##NAME##_type m(a.nr,a.nc); for ( unsigned j = 0; j < a.nc; ++j ) for ( unsigned i = 0; i < a.nr; ++i ) m(i,j) = src[size_t(j)*a.nr+i]; \
    switch ( g.below(4) ) { \
    case 0: gc.set_mat_##NAME(m); break; \
    case 1: gc = m; break; \
    case 2: { auto & d = gc.set_mat_##NAME(a.nr,a.nc); for ( unsigned i = 0; i < a.nr; ++i ) for ( unsigned j = 0; j < a.nc; ++j ) d(i,j) = m(i,j); break; } \
    default: if ( fresh ) gc.clear(); gc.set_mat_##NAME(a.nr,a.nc); for ( unsigned i = 0; i < a.nr; ++i ) for ( unsigned j = 0; j < a.nc; ++j ) gc.get_##NAME##_at(i,j) = m(i,j); } \
    break; }
  SIMPLE_MAT(K::MInt,vi,int)
  SIMPLE_MAT(K::MLong,vl,long)
  SIMPLE_MAT(K::MReal,vr,real)
  SIMPLE_MAT(K::MCplx,vc,complex)
#undef SIMPLE_MAT
  case K::Vec: {
    size_t n = a.v.size(), way = g.below(4);
    if ( fresh || n == 0 || way != 0 ) gc.clear(); // set_vector(n) sizes the list that is there
    switch ( way ) {
    case 0: gc.set_vector(unsigned(n)); for ( size_t i = 0; i < n; ++i ) build_varied(g,gc[unsigned(i)],a.v[i]); break;
    case 1: gc.set_vector(); for ( size_t i = n; i-- > 0; ) build_varied(g,gc[unsigned(i)],a.v[i]); break;
    case 2: { auto & v = gc.set_vector(); for ( auto const & x : a.v ) { v.emplace_back(); build_varied(g,v.back(),x); } break; }
    default: gc.set_vector();
      for ( size_t i = 0; i < n; ++i ) {
        MV const & x = a.v[i];
        switch ( x.k ) {
        case K::Bool: gc.push_bool(x.b); break; case K::Int: gc.push_int(x.i); break; case K::Long: gc.push_long(x.l); break;
        case K::Real: gc.push_real(x.r); break; case K::Cplx: gc.push_complex(x.c.real(),x.c.imag()); break; case K::Str: gc.push_string(x.s); break;
        default: { GC t; build_varied(g,t,x); gc.get_gc_at(unsigned(i)) = t; }
        }
      }
    }
    break; }
  case K::Map: {
    gc.clear();
    if ( fresh || a.m.empty() ) gc.set_map();
    if ( g.coin() ) for ( auto const & e : a.m ) build_varied(g,gc[e.first],e.second);
    else for ( auto it = a.m.rbegin(); it != a.m.rend(); ++it ) {
      if ( g.coin() ) build_varied(g,gc[it->first],it->second);
      else { if ( gc.get_type() != T::MAP ) gc.set_map(); build_varied(g,gc.get_map()[it->first],it->second); }
    }
    break; }
  }
}

} // namespace pt
