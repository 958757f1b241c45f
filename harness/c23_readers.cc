// C23: whatever bytes a reader is given, it comes back, with the contents or with a refusal, the same by every route.
#include "tree.hh"
#include "quiet.hh"
#include "GenericContainer/GenericContainerInterface_json.hh"
#include "GenericContainer/GenericContainerInterface_yaml.hh"
#include "GenericContainer/GenericContainerInterface_toml.hh"
#include <fstream>
#include <memory>
#include <new>
#include <cstdlib>
#include <unistd.h>
// requests no text of this size needs are refused, as on a machine with less memory
static void * take( std::size_t n ) { if ( n < (std::size_t(1)<<26) ) if ( void * p = std::malloc(n ? n : 1) ) return p; throw std::bad_alloc(); }
void * operator new( std::size_t n ) { return take(n); }
void * operator new[]( std::size_t n ) { return take(n); }
void operator delete( void * p ) noexcept { std::free(p); }
void operator delete[]( void * p ) noexcept { std::free(p); }
void operator delete( void * p, std::size_t ) noexcept { std::free(p); }
void operator delete[]( void * p, std::size_t ) noexcept { std::free(p); }
namespace pt {
enum Fmt { Json, Json2, Yaml, Toml, Table, Table2, Bin };
static char const * const fname[] = { "from_json", "from_json2", "from_yaml", "from_toml", "read_formatted_data", "read_formatted_data2", "de_serialize" };
static char const * const jtok[] = { "{","}","[","]",",",":","\"","\"a\"","\"\"","\"b\":","{\"a\":","[1,","],","},","1","-1","0","-0","01","1.5","1e5","1E+400","-1e-400","4294967296","9223372036854775808","-9223372036854775809","18446744073709551616","1.","1.e1",".5","+1","0x1F","NaN","Infinity","-Infinity","nan","inf","true","false","null","True","nul","tru","\\u0041","\\ud83d\\ude00","\\ud83d","\\uZZZZ","\"\\u12\"","\"\\x\"","\\","\\n","\\\"","\xc3\xa9","\xef\xbb\xbf","\xff","\x01"," ","\n","\t","\r\n","//c\n","/*c*/","/*","'a'","1,2,3","[[1,2],[3,4]]","[1,2.5,\"x\"]","[[]]","{}","[]","$x","_y","1+2i" };
static char const * const ytok[] = { "-","- ","? ",": ",":",", ",",","[","]","{","}","&a ","*a","&b ","*b ","&","*","!","!!","!!str ","!!int ","!!null ","!!binary ","!<tag:x> ","!%","|","|2","|-","|+\n",">",">1","> ","|9\n","\"","'","\"a\"","'b'","\"\\x4","\"\\u00e9\"","\"\\","#","# c\n"," #","---","---\n","--- ","...","...\n","%YAML 1.2\n","%TAG ! x\n","%","@","`","~","null","true","yes","0x1F","0o17","0b1",".inf","-.INF",".nan","1","-2","1.5","1e5","a","b","key","k: ","k: v\n","- x\n","  ","    ","\n","\n\n","\n  ","\n- ","\n? ","\n: ","\n    - ","\t","\r\n","\r","\xc3\xa9","\xe2\x80\xa8","\xef\xbb\xbf","\xff","\xc3","\xf0\x9f\x98\x80","<<: ","=","a b","a: b: c","[a, b]","{a: 1}","{a}","[a: b]","? [a]\n: b\n","&a [1, *a]","\x01" };
static char const * const ttok[] = { "a","b = ","a.b","=","= 1","[","]","[[","]]","[a]\n","[[a]]\n","[a.b]\n","{","}","{a = 1}","{}","[]","[1, 2]","[1, \"x\"]","[[1],[2.5]]",",",".","\"","'","\"\"\"","'''","\"\"\"\n","\"x\"","'y'","\"\\u00e9\"","\"\\U0001F600\"","\"\\uD800\"","\"\\x41\"","\\","1","-1","+1","0","-0","00","1_000","1__0","_1","0xff","0xFFFFFFFFFFFFFFFF","0o17","0b101","1.5","1e5","1.","inf","-inf","nan","+nan","9223372036854775807","9223372036854775808","-9223372036854775808","true","false","True","1979-05-27","07:32:00","1979-05-27T07:32:00Z","1979-05-27 07:32:00.999-07:00","1979-13-01","24:00:00","#c\n","#"," ","\n","\r\n","\r","\t","\xc3\xa9","\xef\xbb\xbf","\xff","\x01","a = [\n","\n]\n","x = ","x.y = 1\n","x = {y = 1}\n","\"k k\" = 2\n","'' = 3\n","a = 1\n" };
static char const * const btok[] = { "a","b","a b\n","1 2\n","1","2","-3.5","1e5","nan","inf","x","#","%","#!","#! ","#! p = 3\n","#! q = text\n","% c\n","# c\n","#!=","#! =\n","="," ","\t","\n","\r\n","\r",",",";","1,2\n","1e999","0x1F","\xc3\xa9","\xff","a\tb\n","1\t2\n"," 1 2 \n","1 2 3\n","\n\n" };
template <size_t N> static std::string soup( Src & g, char const * const (&t)[N] ) { std::string s; int n = g.chance(1,8) ? g.range(20,60) : g.range(0,14); for ( int i = 0; i < n; ++i ) { s += t[g.below(N)]; if ( g.chance(1,40) ) s += '\0'; } return s; }
static std::string tokens( Src & g, Fmt f ) { switch ( f ) { case Json: case Json2: return soup(g,jtok); case Yaml: return soup(g,ytok); case Toml: return soup(g,ttok); default: return soup(g,btok); } }
static std::string token( Src & g, Fmt f ) { switch ( f ) { case Json: case Json2: return g.pick(jtok); case Yaml: return g.pick(ytok); case Toml: return g.pick(ttok); default: return g.pick(btok); } }
static char const * const ydoc[] = {
  "a: &x\n  b: 1\n  c: [1, 2, {d: e}]\nf: *x\n", "- - 1\n  - 2\n- - 3\n  - 4\n", "? a\n: - b\n  - c\n? - k\n: v\n", "s: |\n  line\n   more\n\n  end\nt: >-\n  folded\n  text\n\n  para\n", "%YAML 1.2\n---\na: !!str 1\nb: !<tag:yaml.org,2002:int> 2\n...\n",
  "\"q\\n\\u00e9\": 'it''s'\nk: plain\n  text\n  goes on\n", "{a: [1, 2.5, .inf, ~], \"b c\": {d: 0x1F, e: 0o17}}\n", "&a [x, &b y, *b]\n", "a:\n- b\n- c:\n    d: e\n  f: g\n# end\n" };
static char const * const tdoc[] = {
  "a = 1\nb = \"x\"\n[t]\nc = [1, 2.5]\n[t.u]\nd = 1979-05-27T07:32:00Z\n[[v]]\ne = 1\n[[v]]\ne = 2\n", "s = \"\"\"\nlong\n  text \\\n  on\"\"\"\nl = '''\nraw\\'''\n", "p = { x = 1, y = { z = [ {a = 1}, {b = 2} ] } }\nq.r.s = 0xFF\n", "\"a b\".'c d' = +1_000\nf = -1e-5\ng = [ [1,2], [\"x\"], ] # c\n" };
static char const * const bdoc[] = { "a b c\n1 2 3\n# comment\n4 5 6\n", "#! p = 3\n#! name = some text\na\tb\n1\t2\n3\t4\n", "x,y\r\n1,2\r\n3,4\r\n", "% head\nt v\n0.1 -1e5\n\n1e300 nan\n" };
static std::string document( Src & g, Fmt f ) {
  if ( f == Table || f == Table2 ) return g.pick(bdoc);
  if ( f == Yaml && g.coin() ) return g.pick(ydoc);
  if ( f == Toml && g.coin() ) return g.pick(tdoc);
  GenOpt o; o.max_depth = g.range(0,3); o.max_len = 4; o.big = 0; if ( f != Bin ) { o.without({K::Ptr,K::VPtr}); o.str = o.key = GenOpt::Str::Text; }
  if ( f == Toml ) { MV m(K::Map); int n = g.range(1,4); for ( int i = 0; i < n; ++i ) m.m[gen_string(g,GenOpt::Str::Text,6)] = gen(g,o,1); GC t; build(t,m); std::ostringstream s; t.to_toml(s); return s.str(); }
  GC t; build(t,gen(g,o)); std::ostringstream s;
  switch ( f ) { case Json: case Json2: t.to_json(s); return s.str(); case Yaml: t.to_yaml(s); return s.str(); default: { std::vector<uint8_t> b; t.serialize(b); return std::string(b.begin(),b.end()); } }
}
static std::string nested( Src & g, Fmt f ) {
  static char const * const jo[] = { "[", "{\"a\":", "[1,", "[[],", "[{\"b\":" }; static char const * const yo[] = { "[", "{a: ", "- ", "k:\n ", "[[], ", "? ", "{? ", "!t ", "&a [", "[a: " }; static char const * const to[] = { "a = [", "[", "{b = ", "x.", "[[", "\"a\"." };
  int n = g.range(1,g.chance(1,10) ? 150 : 20); std::string s; bool mix = g.coin(); std::string o = f == Yaml ? g.pick(yo) : f == Toml ? g.pick(to) : g.pick(jo);
  for ( int i = 0; i < n; ++i ) { if ( f == Yaml && o[0] == 'k' ) { s += std::string(size_t(i),' ')+"k:\n"; continue; } s += o; if ( mix && n <= 20 ) o = f == Yaml ? g.pick(yo) : f == Toml ? g.pick(to) : g.pick(jo); }
  s += "1"; int m = g.coin() ? n : g.range(0,n); for ( int i = 0; i < m; ++i ) s += o.find('{') != std::string::npos ? "}" : "]";
  return s;
}
// pieces removed, repeated, exchanged, replaced, tokens and bytes put in, cut off
static std::string damage( Src & g, std::string s, Fmt f ) {
  int n = g.range(1,4);
  for ( int i = 0; i < n; ++i ) {
    size_t L = s.size(), a = g.below(L+1), w = g.below(std::min<size_t>(L-a,12)+1);
    switch ( g.below(10) ) {
    case 8: s += '\0'; s += token(g,f); break; // something after a NUL
    case 0: s.resize(a); break;
    case 1: s.erase(a,w); break;
    case 2: s.insert(g.below(L+1),s.substr(a,w)); break;
    case 3: { std::string p = s.substr(a,w); s.erase(a,w); s.insert(g.below(s.size()+1),p); break; }
    case 4: if ( a < L ) s[a] = char(g.below(256)); break;
    case 5: s.insert(a,token(g,f)); break;
    case 6: s.replace(a,w,token(g,f)); break;
    case 7: s.insert(a,s.substr(g.below(L+1))); break;
    default: if ( a < L ) s[a] = char(s[a]^(1<<g.below(8))); }
    if ( s.size() > 2000 ) s.resize(2000);
  }
  return s;
}
static std::string utf( Src & g, std::string const & t ) { // re-encoded byte by byte, with or without mark
  unsigned how = unsigned(g.below(5)); std::string o; auto put = [&]( uint32_t v ) { int b = how < 2 ? 2 : 4; for ( int k = 0; k < b; ++k ) o += char(v>>(8*( how%2 ? b-1-k : k ))&255u); };
  if ( how == 4 ) return "\xef\xbb\xbf"+t;
  if ( g.coin() ) put(0xFEFF); for ( unsigned char ch : t ) put(ch == 0xff ? 0xD83Du : ch == 0xc3 ? 0xDE00u : ch);
  return o;
}
// gives its bytes in pieces, as a pipe or a socket would
struct Pieces : std::streambuf {
  std::string s; size_t at = 0, step; std::unique_ptr<char[]> b;
  Pieces( std::string t, size_t n ) : s(std::move(t)), step(n), b(new char[n]) {}
  int underflow() override { if ( at >= s.size() ) return EOF; size_t n = std::min(step,s.size()-at); memcpy(b.get(),s.data()+at,n); at += n; setg(b.get(),b.get(),b.get()+n); return (unsigned char)b[0]; }
};
struct Out { int how; MV v, pars; std::string why; }; // how: 0 refused, 1 read, 2 refused by exception
static char const * const dl[] = { " \t", ",", "\t", ";, ", " " }; static char const * const cm[] = { "#%", "#", "%", "" };
struct Case { Fmt f; std::string t; char const * del, * com; bool twopars; };
static char const * route( Case const & k, int r, GC & x, Out & o ) {
  GC pars; GC * pp = k.twopars ? &pars : nullptr; char const * nm = "?";
  auto stream = [&]( std::istream & is ) {
    switch ( k.f ) { case Json: o.how = x.from_json(is); break; case Json2: o.how = x.from_json2(is); break; case Yaml: o.how = x.from_yaml(is); break; case Toml: o.how = x.from_toml(is); break;
    case Table: x.read_formatted_data(is,k.com,k.del); o.how = 1; break; case Table2: x.read_formatted_data2(is,k.com,k.del,pp); o.how = 1; break; default: ; }
  };
  try {
    if ( k.f == Bin ) {
      if ( r == 0 || r == 3 ) { nm = "vector of bytes"; std::vector<uint8_t> b(k.t.begin(),k.t.end()); b.shrink_to_fit(); int32_t n = x.de_serialize(b); o.how = 1; o.why = std::to_string(n); }
      else { nm = "buffer"; std::unique_ptr<uint8_t[]> b(new uint8_t[k.t.size()]); memcpy(b.get(),k.t.data(),k.t.size()); int32_t n = x.de_serialize(int32_t(k.t.size()),b.get()); o.how = 1; o.why = std::to_string(n); }
    } else switch ( r ) {
    case 0: { nm = "stream"; std::istringstream is(k.t); stream(is); break; }
    case 1: { nm = "stream in single bytes"; Pieces b(k.t,1); std::istream is(&b); stream(is); break; }
    case 2: { nm = "stream in pieces"; Pieces b(k.t,3+k.t.size()%7); std::istream is(&b); stream(is); break; }
    case 3: { nm = "stream read before"; std::istringstream is("{[\n\"x"+k.t); char ch; for ( int i = 0; i < 5; ++i ) is.get(ch); stream(is); break; }
    case 4: { nm = "string";
      switch ( k.f ) { case Json: o.how = GC_namespace::JSON_to_GC(k.t,x); break; case Yaml: o.how = GC_namespace::YAML_to_GC(k.t,x); break; case Toml: o.how = GC_namespace::TOML_to_GC(k.t,x); break; default: { std::istringstream is(k.t); stream(is); } } break; }
    case 5: { nm = "stream wrapper"; std::istringstream is(k.t);
      switch ( k.f ) { case Json: o.how = GC_namespace::JSON_to_GC(is,x); break; case Yaml: o.how = GC_namespace::YAML_to_GC(is,x); break; case Toml: o.how = GC_namespace::TOML_to_GC(is,x); break; default: stream(is); } break; }
    default: { nm = "file"; std::string fn = "rd_"+std::to_string(getpid())+".txt"; { std::ofstream w(fn,std::ios::binary); w << k.t; }
      struct Rm { std::string const & n; ~Rm() { unlink(n.c_str()); } } rm{fn};
      switch ( k.f ) { case Json: o.how = GC_namespace::file_JSON_to_GC(fn,x); break; case Yaml: o.how = GC_namespace::file_YAML_to_GC(fn,x); break; case Toml: o.how = GC_namespace::file_TOML_to_GC(fn,x); break;
      case Table: x.read_formatted_data(fn.c_str(),k.com,k.del); o.how = 1; break; case Table2: x.read_formatted_data2(fn.c_str(),k.com,k.del,pp); o.how = 1; break;
      default: { std::ifstream is(fn,std::ios::binary); stream(is); } } } }
  } catch ( std::exception const & e ) { o.how = 2; o.why = e.what(); }
  o.pars = o.how == 1 ? read_checked(pars,"parameters") : MV();
  return nm;
}
static void one( Src & g, Ctx & c ) {
  Case k; k.f = Fmt(g.below(7)); k.del = g.pick(dl); k.com = g.pick(cm); k.twopars = g.coin();
  char const * src = "tokens";
  switch ( g.below(8) ) {
  case 0: { src = "bytes"; int n = g.few(0,12,200); for ( int i = 0; i < n; ++i ) k.t += char(g.below(256)); break; }
  case 1: case 2: k.t = tokens(g,k.f); break;
  case 3: if ( k.f < Table ) { src = "nested"; k.t = nested(g,k.f); if ( g.coin() ) k.t = damage(g,k.t,k.f); break; } k.t = tokens(g,k.f); break;
  case 4: src = "document of another kind"; k.t = document(g,Fmt(g.below(7))); break;
  default: src = "damaged document"; k.t = document(g,k.f); if ( k.t.size() > 1500 ) k.t.resize(1500); if ( g.chance(15,16) ) k.t = damage(g,k.t,k.f); else src = "document"; }
  if ( k.f != Bin && g.chance(1,12) ) { k.t = utf(g,k.t); if ( g.coin() ) k.t.resize(g.below(k.t.size()+1)); c.label("re-encoded"); }
  c.log(std::string(fname[k.f])+" of "+src+" ("+std::to_string(k.t.size())+" bytes) "+quote(k.t));
  MV first, got; Out a; GenOpt o; o.max_depth = 2; o.max_len = 3; o.big = 0;
  int r0 = int(g.below(g.chance(1,6) ? 7 : 6)), n = 2; char const * na = "";
  for ( int i = 0; i < n; ++i ) {
    GC x; if ( i || g.coin() ) build(x,gen(g,o)); if ( ( k.f == Table || k.f == Table2 ) && x.get_type() == T::MAP ) { x.clear(); std::istringstream is("a b\n7 8\n"); x.read_formatted_data2(is); } // other entries of a map would stay
    MV before = read(x); int r = i ? int(g.below(6)) : r0; Out b{};
    char const * nm = route(k,r,x,b); std::string w = std::string(fname[k.f])+" from a "+nm;
    if ( k.f <= Toml ) c.check( b.how != 2, w+" throws "+b.why );
    b.v = read_checked(x,w);
    if ( b.how == 0 ) c.check( same(b.v,before) || ( r >= 4 && b.v.k == K::None ), w+" refuses, but the container changed: "+diff(before,b.v) );
    if ( i == 0 ) { a = b; na = nm; c.label(std::string(fname[k.f])+( b.how == 1 ? " reads" : " refuses" )); c.label(src); c.label(nm); }
    else {
      c.check( (a.how == 1) == (b.how == 1), w+( b.how == 1 ? " reads" : " refuses" )+" what from a "+na+" is"+( a.how == 1 ? " read" : " refused" ) );
      if ( b.how == 1 ) { c.check( same(a.v,b.v), w+" gives something else than from a "+na+": "+diff(a.v,b.v) ); if ( k.f == Table2 ) c.check( same(a.pars,b.pars), w+": other parameters than from a "+na+": "+diff(a.pars,b.pars) ); if ( k.f == Bin ) c.check( a.why == b.why, w+" used "+b.why+" bytes, from a "+na+" "+a.why ); }
    }
    if ( b.how == 1 && i == 0 ) { // what was read is a container like any other
      GC t(x); c.check( same(b.v,read_checked(t,"copy")), w+": the contents cannot be copied" );
      c.check( diff(b.v,read(x)).empty(), "copying changes what was read" );
      if ( vast(x) ) { c.label("vast"); return; }
      std::vector<uint8_t> bytes; x.serialize(bytes); GC u; u.de_serialize(bytes); c.check( same(b.v,read_checked(u,"de_serialize")), w+": the contents do not survive serialize: "+diff(b.v,read(u)) );
      std::ostringstream s; x.to_json(s); x.to_yaml(s); x.dump(s); x.print_content_types(s); x.info(s); t.to_toml(s); t.collapse(); (void)read_checked(t,"collapse");
    }
  }
  c.nontrivial = k.t.size() > 1;
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C23"; p.one = one; p.init = quiet; p.leak_check = true;
  p.rule = "texts for from_json, from_json2, from_yaml, from_toml, the two table readers and de_serialize: random bytes, random sequences of the tokens of the format, deep nestings, valid documents with pieces removed, repeated, exchanged or replaced, documents of another format, and re-encoded as UTF-16/32 or with a byte order mark and cut. Each text is read by two routes (a stream, a stream that gives single bytes or pieces, a stream read before, the string, stream and file functions) into empty and used containers. Oracle: every reader ends within the CPU limit; the format readers report failure and do not throw, and then the container is as before (or empty, by the functions that clear it); the two routes agree on acceptance and contents; what was read can be read, copied, serialized, written and collapsed; ASan, UBSan, allocation accounting. Non-trivial: more than one byte.";
  return pt_main(argc,argv,p);
}
