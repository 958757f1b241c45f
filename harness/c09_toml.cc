// C09: TOML output read back gives the stored value; TOML documents are read as they say, whatever their style.
#include "json_ref.hh"
#include "quiet.hh"
#include "GenericContainer/GenericContainerInterface_toml.hh"
#include <fstream>
#include <unistd.h>
namespace pt {
// empty arrays have no type in TOML: any empty list counts as an empty list
static void canon( MV & a ) {
  if ( a.k >= K::VPtr && a.k <= K::VStr && a.count() == 0 ) a = MV(K::Vec);
  for ( auto & x : a.v ) canon(x); for ( auto & x : a.m ) canon(x.second);
}
static MV in( int64_t v ) { return v >= INT32_MIN && v <= INT32_MAX ? MV::Int(int32_t(v)) : MV::Long(v); }
static MV ptr( void * p ) { std::ostringstream o; o << std::hex << p; return MV::Str(o.str()); }
static MV cx( cplx c ) { MV r(K::Vec); r.v.push_back(MV::Real(c.real())); r.v.push_back(MV::Real(c.imag())); return r; }
static MV re( double d ) { return MV::Real(d); }
static bool has_null( MV const & a ) { if ( a.k == K::Vec ) for ( auto const & x : a.v ) if ( x.k == K::None || has_null(x) ) return true; for ( auto const & x : a.m ) if ( has_null(x.second) ) return true; return false; }
static MV expected( MV const & a ) { // before unification
  auto list = []( auto const & v, auto f ) { MV r(K::Vec); for ( auto const & x : v ) r.v.push_back(f(x)); return r; };
  auto mat = [&]( char const * nm, std::initializer_list<std::pair<char const *,MV>> d ) { MV t(K::Map); t.m["$nrows"] = MV::Int(int(a.nr)); t.m["$ncols"] = MV::Int(int(a.nc)); for ( auto const & x : d ) t.m[x.first] = x.second; MV r(K::Map); r.m[nm] = t; return r; };
  auto st = []( std::string const & s ) { return MV::Str(s); };
  auto bo = []( bool b ) { return MV::Bool(b); };
  switch ( a.k ) {
  case K::None: case K::Bool: case K::Str: case K::Real: return a;
  case K::Ptr: return ptr(a.p); case K::Int: return in(a.i); case K::Long: return in(a.l); case K::Cplx: return cx(a.c);
  case K::VPtr: return list(a.vp,ptr); case K::VBool: return list(a.vb,bo); case K::VInt: return list(a.vi,in); case K::VLong: return list(a.vl,in);
  case K::VReal: return list(a.vr,re); case K::VCplx: return list(a.vc,cx); case K::VStr: return list(a.vs,st);
  case K::MInt: return mat("$mat_integer",{{"$data",list(a.vi,in)}}); case K::MLong: return mat("$mat_long",{{"$data",list(a.vl,in)}});
  case K::MReal: return mat("$mat_real",{{"$data",list(a.vr,re)}});
  case K::MCplx: return mat("$mat_complex",{{"$data_real",list(a.vc,[]( cplx c ){ return MV::Real(c.real()); })},{"$data_imag",list(a.vc,[]( cplx c ){ return MV::Real(c.imag()); })}});
  case K::Vec: return list(a.v,expected);
  default: { MV r(K::Map); for ( auto const & x : a.m ) if ( x.second.k != K::None ) r.m[x.first] = expected(x.second); return r; }
  }
}
static std::string cmp( MV const & raw, GC const & b ) {
  MV got = read_checked(b,"from_toml"); canon(got);
  MV w1 = collapse_model(raw,true), w2 = collapse_model(raw,false); canon(w1); canon(w2);
  std::string d = diff(w1,got); if ( d.empty() || same(w1,w2) ) return d;
  return diff(w2,got);
}
static void writer( Src & g, Ctx & c ) {
  GenOpt o; o.max_depth = g.range(0,3); o.str = o.key = GenOpt::Str::Text;
  if ( g.chance(7,8) ) o.without({K::None});
  MV a(K::Map); int n = g.range(0,4); for ( int i = 0; i < n; ++i ) a.m[gen_string(g,o.key,8)] = gen(g,o,1);
  if ( g.chance(1,6) ) a.m["nothing"] = MV();
  c.log("value "+show(a)); c.nontrivial = n > 0; c.label("write and read");
  GC gc; build(gc,a);
  std::ostringstream os; bool ok; 
  try { ok = gc.to_toml(os); } catch ( std::exception const & e ) { fail(std::string("to_toml throws ")+e.what()); }
  c.check( same(a,read_checked(gc,"after to_toml")), "to_toml changed the container" );
  if ( has_null(a) ) { c.label("list with an empty element"); c.check( !ok, "to_toml reports success on a list with an empty element, which TOML cannot hold" ); return; }
  c.check( ok, "to_toml fails" );
  std::string t = os.str(); c.log("text "+quote(t.substr(0,600)));
  if ( g.chance(1,4) ) { std::ostringstream o2; std::string r = "old"; GC_namespace::GC_to_TOML(gc,o2); GC_namespace::GC_to_TOML(gc,r); c.check( o2.str() == t && r == t, "GC_to_TOML and to_toml write different text" ); }
  GC b; if ( g.coin() ) b["old"] = 1;
  std::istringstream is(t);
  try { ok = b.from_toml(is); } catch ( std::exception const & e ) { fail(std::string("from_toml of the output of to_toml throws ")+e.what()); }
  c.check( ok, "from_toml refuses the output of to_toml "+quote(t.substr(0,300)) );
  std::string d = cmp(expected(a),b);
  c.check( d.empty(), "from_toml of the output of to_toml: "+d );
}
// ---- documents in any style
struct TM {
  Src & g; std::string t;
  explicit TM( Src & s ) : g(s) {}
  static bool bare( std::string const & s ) { if ( s.empty() ) return false; for ( unsigned char c : s ) if ( !isalnum(c) && c != '_' && c != '-' ) return false; return true; }
  static bool literal( std::string const & s ) { for ( unsigned char c : s ) if ( ( c < 32 && c != '\t' ) || c == 127 || c == '\'' ) return false; return true; }
  std::string basic( std::string const & s ) {
    std::string o = "\"";
    for ( unsigned char c : s ) switch ( c ) {
      case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '\n': o += "\\n"; break; case '\t': o += g.coin() ? "\\t" : "\t"; break; case '\r': o += "\\r"; break; case '\b': o += "\\b"; break; case '\f': o += "\\f"; break;
      default: if ( c < 32 || c == 127 || ( c < 127 && g.chance(1,20) ) ) { char b[16]; snprintf(b,sizeof b,g.coin() ? "\\u%04X" : "\\U%08x",c); o += b; } else o += char(c);
    }
    return o+"\"";
  }
  std::string str( std::string const & s, bool key ) {
    if ( key && bare(s) && g.coin() ) return s;
    if ( literal(s) && g.coin() ) return "'"+s+"'";
    if ( !key && g.chance(1,6) ) { std::string b = basic(s); return "\"\"\""+std::string(g.coin() ? "\n" : "")+b.substr(1,b.size()-2)+"\"\"\""; }
    if ( !key && g.chance(1,8) && literal(s) ) return "'''"+std::string(g.coin() ? "\n" : "")+s+"'''";
    return basic(s);
  }
  std::string num( int64_t v ) {
    char b[80]; std::string s;
    if ( v >= 0 ) switch ( g.below(8) ) { case 0: snprintf(b,sizeof b,g.coin() ? "0x%llx" : "0x%llX",(long long)v); return b; case 1: snprintf(b,sizeof b,"0o%llo",(long long)v); return b;
      case 2: if ( v < 1000 ) { s = "0b"; bool on = false; for ( int i = 9; i >= 0; --i ) { if ( v>>i&1 ) on = true; if ( on ) s += char('0'+(v>>i&1)); } return on ? s : "0b0"; } break; case 3: return "+"+std::to_string(v); }
    s = std::to_string(v);
    if ( g.chance(1,5) ) { size_t d = s[0] == '-'; if ( s.size()-d >= 2 ) s.insert(d+1+g.below(s.size()-d-1),"_"); }
    return s;
  }
  std::string ws() { return g.chance(1,4) ? g.coin() ? "  " : "\t" : ""; }
  std::string nl() { return g.chance(1,6) ? ( g.coin() ? "\n" : " # it's, [a] comment\n" ) : g.coin() ? " " : ""; }
  void val( MV const & a ) {
    char b[64];
    switch ( a.k ) {
    case K::Bool: t += a.b ? "true" : "false"; break;
    case K::Int: t += num(a.i); break; case K::Long: t += num(a.l); break;
    case K::Real: if ( std::isnan(a.r) ) t += "nan"; else if ( std::isinf(a.r) ) t += a.r > 0 ? ( g.coin() ? "inf" : "+inf" ) : "-inf"; else { snprintf(b,sizeof b,g.coin() ? "%.17g" : "%.17e",a.r); std::string s = b; if ( s.find_first_of(".e") == std::string::npos ) s += g.coin() ? ".0" : "e0"; t += s; } break;
    case K::Str: t += str(a.s,false); break;
    case K::Vec: t += '['; t += nl(); for ( size_t i = 0; i < a.v.size(); ++i ) { if ( i ) { t += ','; t += nl(); } val(a.v[i]); t += nl(); } if ( !a.v.empty() && g.chance(1,4) ) { t += ','; t += nl(); } t += ']'; break;
    default: { t += "{ "; bool first = true; for ( auto const & x : a.m ) { if ( !first ) t += ", "; first = false; t += str(x.first,true); t += ws(); t += '='; t += ws(); val(x.second); } t += " }"; }
    }
  }
  void eol() { if ( g.chance(1,6) ) t += "  # remark = [1, \"x"; t += g.chance(1,8) ? "\r\n" : "\n"; if ( g.chance(1,10) ) t += "\n"; }
  // the table of path p
  void table( MV const & a, std::string const & path ) {
    std::vector<std::pair<std::string,MV>> later;
    for ( auto const & x : a.m ) {
      bool tab = x.second.k == K::Map, aot = x.second.k == K::Vec && !x.second.v.empty();
      if ( aot ) for ( auto const & y : x.second.v ) if ( y.k != K::Map ) aot = false;
      if ( ( tab || aot ) && g.coin() ) { later.push_back(x); continue; }
      if ( tab && !x.second.m.empty() && g.chance(1,3) ) { // dotted keys
        bool flat = true; for ( auto const & y : x.second.m ) if ( y.second.k == K::Map ) flat = false;
        if ( flat ) { for ( auto const & y : x.second.m ) { t += str(x.first,true)+ws()+"."+ws()+str(y.first,true)+" = "; val(y.second); eol(); } continue; }
      }
      t += ws(); t += str(x.first,true); t += ws(); t += '='; t += ws(); val(x.second); eol();
    }
    for ( auto const & x : later ) {
      std::string p = path.empty() ? str(x.first,true) : path+ws()+"."+ws()+str(x.first,true);
      if ( x.second.k == K::Map ) { t += "["+ws()+p+ws()+"]"; eol(); table(x.second,p); }
      else for ( auto const & y : x.second.v ) { t += "[["+p+"]]"; eol(); table(y,p); }
    }
  }
};
static MV gval( Src & g, int d ) {
  GenOpt o;
  switch ( g.below(d > 0 ? 8 : 5) ) {
  case 0: return MV::Bool(g.coin()); case 1: return MV::Int(gen_i32(g)); case 2: return in(gen_i64(g)); case 3: return MV::Real(gen_double(g,o)); case 4: return MV::Str(gen_string(g,GenOpt::Str::Text));
  case 5: { MV r(K::Vec); int n = g.few(0,4); unsigned sh = unsigned(g.below(4)); for ( int i = 0; i < n; ++i ) r.v.push_back( sh == 0 ? in(gen_i64(g)) : sh == 1 ? MV::Real(gen_double(g,o)) : sh == 2 ? MV::Int(gen_i32(g)) : gval(g,d-1) ); return r; }
  case 6: { MV r(K::Vec); int n = g.few(1,3,20); for ( int i = 0; i < n; ++i ) { MV m(K::Map); int k = g.range(0,2); for ( int q = 0; q < k; ++q ) m.m[gen_string(g,GenOpt::Str::Plain,4)] = gval(g,d-1); r.v.push_back(m); } return r; }
  default: { MV r(K::Map); int n = g.few(0,4,30); for ( int i = 0; i < n; ++i ) r.m[gen_string(g,g.chance(1,3) ? GenOpt::Str::Text : GenOpt::Str::Plain,8)] = gval(g,d-1); return r; }
  }
}
static void reader( Src & g, Ctx & c ) {
  MV a(K::Map); int n = g.range(0,5); for ( int i = 0; i < n; ++i ) a.m[gen_string(g,g.chance(1,3) ? GenOpt::Str::Text : GenOpt::Str::Plain,8)] = gval(g,3);
  c.label("read"); c.nontrivial = n > 0;
  TM y(g);
  if ( g.chance(1,6) ) y.t += "# first line\n";
  static std::pair<char const *,std::pair<char const *,char const *>> const dates[] = { {"1979-05-27",{"$date","1979-05-27"}}, {"07:32:00",{"$time","07:32:00"}}, {"1979-05-27T07:32:00Z",{"$date_time","1979-05-27T07:32:00Z"}}, {"1979-05-27 00:32:00-07:00",{"$date_time","1979-05-27T00:32:00-07:00"}}, {"2001-12-31T23:59:59",{"$date_time","2001-12-31T23:59:59"}} };
  MV e = a;
  if ( g.chance(1,8) ) { auto const & d = g.pick(dates); y.t += std::string("\"the date\" = ")+d.first+"\n"; MV m(K::Map); m.m[d.second.first] = MV::Str(d.second.second); e.m["the date"] = m; c.label("date"); }
  y.table(a,"");
  if ( g.chance(1,8) && !y.t.empty() && y.t.back() == '\n' ) { y.t.pop_back(); if ( !y.t.empty() && y.t.back() == '\r' ) y.t.pop_back(); }
  c.log("value "+show(e)); c.log("text\n"+y.t);
  GC b; if ( g.coin() ) b["old"] = 2;
  std::string head; if ( g.chance(1,8) ) head = "header = 1\n";
  std::istringstream is(head+y.t); is.ignore(std::streamsize(head.size())); bool ok;
  try { switch ( g.chance(7,8) ? 0 : 1+g.below(3) ) { case 0: ok = b.from_toml(is); break; case 1: ok = GC_namespace::TOML_to_GC(is,b); break; case 2: ok = GC_namespace::TOML_to_GC(y.t,b); break;
    default: { std::string fn = "toml_"+std::to_string(getpid())+".txt"; { std::ofstream f(fn,std::ios::binary); f << y.t; } std::string more = fn+"x"; ok = GC_namespace::file_TOML_to_GC(g.coin() ? std::string_view(fn) : std::string_view(more).substr(0,fn.size()),b); unlink(fn.c_str()); c.label("file");
      GC z; bool no = true; try { no = GC_namespace::file_TOML_to_GC(fn,z); } catch ( ... ) { no = false; } c.check( !no, "a file that does not exist is reported as read" ); } } } catch ( std::exception const & x ) { fail(std::string("from_toml throws ")+x.what()); }
  c.check( ok, "from_toml refuses a valid document" );
  std::string d = cmp(e,b);
  c.check( d.empty(), "from_toml: "+d );
}
static void one( Src & g, Ctx & c ) {
  if ( g.coin() ) { reader(g,c); return; }
  if ( g.chance(3,4) ) { writer(g,c); return; }
  // malformed documents (toml++ itself assumes away some malformed keys, so the damage is drawn from a list)
  MV a(K::Map); int n = g.range(1,4); for ( int i = 0; i < n; ++i ) a.m[gen_string(g,GenOpt::Str::Plain,6)] = gval(g,2);
  TM y(g); y.table(a,""); std::string t = y.t;
  static char const * const bad[] = { "zz = \n", "= 1\n", "zz 1\n", "zz = \"x\n", "zz = 'x\n", "zz = [1, 2\n", "zz = {b = 1\n", "zz = 1 2\n", "zz = 0xg\n", "zz = tru\n", "zz = 1__0\n", "zz = 1979-13-45\n", "zz = \"\\q\"\n", "[zz\n", "[[zz]\n",
    "zz = 1\nzz = 2\n", "zz = 99999999999999999999\n", "zz = 01\n", "zz = 1.\n", "zz = \"\"\"x\n", "zz = [1,,2]\n", "zz = {b = 1, b = 2}\n", "zz = \"\\uD800\"\n", "zz = \"\x01\"\n", "[zz]\nzz = 1\n[zz.zz]\n", "[]\n", "zz = NaN\n", "zz\n" };
  std::string bl = g.pick(bad);
  t += bl;
  c.log("text "+quote(t.substr(0,600))); c.nontrivial = true;
  MV prev; { GenOpt o; o.max_depth = 1; o.max_len = 2; if ( g.coin() ) prev = gen(g,o); }
  GC b; build(b,prev); std::istringstream is(t); bool ok;
  try { ok = b.from_toml(is); } catch ( std::exception const & x ) { fail(std::string("from_toml throws ")+x.what()); }
  MV got = read_checked(b,"from_toml");
  c.label("malformed"); c.check( !ok, "from_toml accepts the malformed line "+quote(bl) );
  std::string d = diff(prev,got); c.check( d.empty(), "from_toml fails but changes the container: "+d );
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C09"; p.one = one; p.init = quiet;
  p.rule = "half of the cases: random trees written by our own TOML emitter in random styles (bare, quoted and dotted keys, all string and integer forms, tables, arrays of tables, inline tables, comments, dates) and read; three eighths: random maps of all kinds written with to_toml and read back; one eighth: such documents with a malformed line at the end, which must be refused and leave the container alone. Non-trivial: at least one key.";
  return pt_main(argc,argv,p);
}
