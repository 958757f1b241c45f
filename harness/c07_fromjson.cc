// C07: the JSON readers accept every JSON document with its value, and refuse the rest without effects.
#include "json_ref.hh"
#include "quiet.hh"
#include "GenericContainer/GenericContainerInterface_json.hh"
#include <fstream>
#include <unistd.h>
namespace pt {
static std::string ws( Src & g ) { static char const * const w[] = { "", "", "", " ", "\n", "\t", "\r\n", "  \n ", " \t" }; return g.pick(w); }
static void put_str( Src & g, std::string & t, std::string & val ) {
  t += '"';
  int n = g.chance(1,12) ? g.few(0,60,700,30) : g.range(0,6);
  for ( int i = 0; i < n; ++i ) {
    unsigned cp;
    switch ( g.below(6) ) {
    case 0: cp = unsigned('a'+g.below(26)); break;
    case 1: cp = unsigned(g.range(32,126)); break;
    case 2: cp = unsigned(g.below(32)); break;
    case 3: { static unsigned const e[] = { '"','\\','/','\b','\f','\n','\r','\t',0,0x7f,0x80,0x7ff,0x800,0xffff,0x10000,0x10ffff,0xd7ff,0xe000,0x20ac,0x1f600 }; cp = g.pick(e); break; }
    case 4: cp = unsigned(g.below(0x3000)); break;
    default: cp = unsigned(g.below(0x110000)); if ( cp >= 0xD800 && cp <= 0xDFFF ) cp = 'Q';
    }
    utf8_put(val,cp);
    static char const sh[] = "\"\\/\b\f\n\r\t", sl[] = "\"\\/bfnrt";
    char const * q = cp && cp < 0x80 ? strchr(sh,int(cp)) : nullptr;
    bool must = cp < 0x20 || cp == '"' || cp == '\\';
    unsigned how = unsigned(g.below(4));
    if ( q && ( how < 2 ? true : how == 2 && must ) && !( cp == '/' && how == 1 ) ) { t += '\\'; t += sl[q-sh]; }
    else if ( how == 3 || must ) {
      char b[16]; char const * f = g.coin() ? "\\u%04x" : "\\u%04X";
      if ( cp >= 0x10000 ) { snprintf(b,sizeof b,f,0xD800+((cp-0x10000)>>10)); t += b; snprintf(b,sizeof b,f,0xDC00+((cp-0x10000)&0x3FF)); t += b; }
      else { snprintf(b,sizeof b,f,cp); t += b; }
    } else utf8_put(t,cp);
  }
  t += '"';
}
static void put_num( Src & g, std::string & t ) {
  static char const * const e[] = { "0","-0","2147483647","2147483648","-2147483648","-2147483649","4294967295","4294967296","9223372036854775807","9223372036854775808","-9223372036854775808","-9223372036854775809",
    "18446744073709551615","18446744073709551616","0.1","1e5","1E+5","1.0","-0.0","1e-7","123456789012345678901234567890","0.30000000000000004","2.2250738585072014e-308","4.9e-324","9007199254740993","0e5","1.7976931348623157e308","5e-1" };
  if ( g.coin() ) { t += g.pick(e); return; }
  if ( g.coin() ) t += '-';
  auto digs = [&]( int n ) { for ( int i = 0; i < n; ++i ) t += char('0'+g.below(10)); };
  if ( g.chance(1,4) ) t += '0'; else { t += char('1'+g.below(9)); digs(g.chance(1,5) ? g.range(0,24) : g.range(0,5)); }
  if ( g.coin() ) { t += '.'; digs(g.chance(1,5) ? g.range(1,20) : g.range(1,4)); }
  if ( g.chance(1,3) ) { t += g.coin() ? 'e' : 'E'; switch ( g.below(3) ) { case 0: t += '+'; break; case 1: t += '-'; break; } t += std::to_string(g.below(g.chance(1,4) ? 290 : 12)); }
}
static void put_val( Src & g, std::string & t, int d ) {
  t += ws(g);
  std::string v;
  switch ( g.below(d > 0 ? 8 : 5) ) {
  case 0: t += "null"; break; case 1: t += g.coin() ? "true" : "false"; break;
  case 2: put_str(g,t,v); break; case 3: case 4: put_num(g,t); break;
  case 5: case 6: { t += '['; int n = g.few(0,4); unsigned sh = unsigned(g.below(3)); for ( int i = 0; i < n; ++i ) { if ( i ) t += ','; if ( sh == 0 ) put_val(g,t,d-1); else if ( sh == 1 ) { t += ws(g); put_num(g,t); } else { t += '['; for ( int k = 0; k < 2; ++k ) { if ( k ) t += ','; put_num(g,t); } t += ']'; } t += ws(g); } if ( !n ) t += ws(g); t += ']'; break; }
  default: { t += '{'; int n = g.few(0,4); for ( int i = 0; i < n; ++i ) { if ( i ) t += ','; t += ws(g); put_str(g,t,v); t += ws(g); t += ':'; put_val(g,t,d-1); } if ( !n ) t += ws(g); t += '}'; }
  }
  t += ws(g);
}
static void one( Src & g, Ctx & c ) {
  std::string t; 
  // a string alone is checked against the code points it was made of, independently of our parser
  if ( g.chance(1,8) ) { std::string v; put_str(g,t,v); J j; JParse P(t,false); if ( !P.run(j) || j.t != J::Str || j.s != v ) fail("harness: reference parser disagrees with the generator on "+quote(t)); }
  else put_val(g,t,g.range(0,4));
  if ( g.chance(1,25) ) { int n = g.range(1,80); for ( int i = 0; i < n; ++i ) t = g.coin() ? "["+t+"]" : "{\"a\":"+t+"}"; c.label("deep"); }
  unsigned mode = unsigned(g.below(3));
  if ( mode ) {
    int n = g.range(1,2);
    for ( int i = 0; i < n; ++i ) {
      size_t at = g.below(t.size()+1);
      static char const * const ins[] = { ",", "]", "[", "}", "{", "\"", ":", "\\", "0", "-", "+", ".", "e", "E5", "null", "t", "/", "//c\n", "'", " ", "\n", "\f", "1", "x", "\x01", "\\u12", "\\ud800", "\\q", "NaN", "Infinity", "[]", "{}", "\xff", "\xc3\xa9", "\v" };
      switch ( g.below(6) ) {
      case 5: { if ( g.coin() ) at = t.size(); t.insert(at,1,'\0'); if ( g.coin() ) t.insert(at+1,g.pick(ins)); break; }
      case 0: t.insert(at,g.pick(ins)); break;
      case 1: if ( at < t.size() ) t.erase(at,1); break;
      case 2: if ( at < t.size() ) t.replace(at,1,g.pick(ins)); break;
      case 3: t.resize(at); break;
      default: t += g.pick(ins);
      }
    }
  }
  c.log("text "+quote(t.substr(0,600)));
  J j; JParse P(t,false); bool valid = P.run(j);
  J jr; JParse R(t,true); bool relaxed = R.run(jr);
  bool fuzzy = P.fl.any() || R.fl.any() || t.find_first_not_of(" \t\r\n\v\f") == std::string::npos;
  c.label( fuzzy ? "unspecified" : valid ? "valid" : relaxed ? "nearly valid" : "invalid" );
  c.nontrivial = !fuzzy && t.size() > 4;
  MV prev; { GenOpt o; o.max_depth = 1; o.max_len = 2; if ( g.coin() ) prev = gen(g,o); }
  for ( int w = 0; w < 2; ++w ) {
    char const * nm = w ? "from_json2" : "from_json";
    GC b; build(b,prev);
    std::string head; if ( g.chance(1,8) ) head = "{\"x\":1}\n";
    std::istringstream is(head+t); is.ignore(std::streamsize(head.size())); bool ok; // reads from where the stream is
    unsigned wrap = w == 0 && g.chance(1,8) ? 1+unsigned(g.below(3)) : 0; if ( wrap ) nm = "JSON_to_GC";
    try { switch ( wrap ) { case 0: ok = w ? b.from_json2(is) : b.from_json(is); break; case 1: ok = GC_namespace::JSON_to_GC(is,b); break; case 2: ok = GC_namespace::JSON_to_GC(t,b); break;
      default: { std::string fn = "json_"+std::to_string(getpid())+".txt"; { std::ofstream f(fn,std::ios::binary); f << t; } ok = GC_namespace::file_JSON_to_GC(fn,b); unlink(fn.c_str()); GC z; bool no = true; try { no = GC_namespace::file_JSON_to_GC(fn,z); } catch ( ... ) { no = false; } c.check( !no, "a file that does not exist is reported as read" ); } } } catch ( std::exception const & e ) { fail(std::string(nm)+" throws "+e.what()); }
    MV got = read_checked(b,nm);
    if ( !ok ) { std::string d = wrap && got.k == K::None ? "" : diff(prev,got); c.check( d.empty(), std::string(nm)+" fails but changes the container: "+d ); }
    if ( fuzzy ) continue;
    if ( valid ) {
      c.check( ok, std::string(nm)+" refuses a valid document" );
      std::string d = unified_diff(json_value(j),got);
      c.check( d.empty(), std::string(nm)+": "+d );
    } else if ( w == 0 || !relaxed ) c.check( !ok, std::string(nm)+" accepts a text that is not JSON as "+show(got) );
  }
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C07"; p.one = one; p.init = quiet;
  p.rule = "JSON texts from a grammar with random white space, escapes (short, \\u, surrogate pairs), number forms (beyond int32, int64, 17 digits) and nesting, one third as they are and two thirds with one or two random edits, go through both readers into empty and non-empty containers; our own strict parser says which are documents and what they hold. Texts with repeated keys, lone surrogates, broken UTF-8 or numbers beyond double are only required not to crash and to leave the container alone when refused. Non-trivial: text longer than 4 bytes, in none of these groups.";
  return pt_main(argc,argv,p);
}
