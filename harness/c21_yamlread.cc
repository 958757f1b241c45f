// C21: the YAML reader stores what the document says, in whatever style it is written.
#include "json_ref.hh"
#include "quiet.hh"
#include "GenericContainer/GenericContainerInterface_yaml.hh"
#include <fstream>
#include <functional>
#include <unistd.h>
namespace pt {
static bool const BLANK = false;
struct Y {
  Src & g; std::string t; bool allow_comments{true};
  std::vector<std::pair<std::string,MV>> anchors; bool props{false}, kept{false}; unsigned aliases{0}, tags{0}, expl{0}, folds{0}, escapes{0};
  explicit Y( Src & s ) : g(s) {}
  // "*name" if the value may be written as an alias
  std::string alias( MV const & a ) {
    if ( props ) for ( auto const & x : anchors ) if ( x.second.k == a.k && same(x.second,a) && g.chance(3,4) ) { ++aliases; return "*"+x.first; }
    return "";
  }
  // the anchor and the tag of a value, with a space after each
  std::string prop( MV const & a ) {
    if ( !props ) return "";
    std::string n, t;
    if ( g.chance(1,3) ) {
      static char const * const names[] = { "a", "b", "node_1", "x-y" }; std::string nm = g.pick(names);
      bool found = false; for ( auto & x : anchors ) if ( x.first == nm ) { x.second = a; found = true; }
      if ( !found ) anchors.emplace_back(nm,a);
      n = "&"+nm+" ";
    }
    if ( g.chance(1,8) ) { ++tags; switch ( a.k ) { case K::None: t = "!!null "; break; case K::Bool: t = "!!bool "; break; case K::Int: case K::Long: t = "!!int "; break; case K::Real: t = "!!float "; break; case K::Vec: t = "!!seq "; break; case K::Map: t = "!!map "; break; default: t = "!!str "; } }
    return g.coin() ? n+t : t+n;
  }
  static bool printable( std::string const & s ) { for ( unsigned char c : s ) if ( c < 32 || c == 127 ) return false; return true; }
  static bool plain_ok( std::string const & s ) {
    if ( s.empty() || !isalpha((unsigned char)s[0]) || s.back() == ' ' || s.find(" -") != std::string::npos ) return false;
    for ( unsigned char c : s ) if ( !isalnum(c) && c != ' ' && c != '_' && c != '-' && c != '/' && c != '.' ) return false;
    std::string l; for ( char c : s ) l += char(tolower(c));
    static char const * const res[] = { "null","true","false","yes","no","on","off","y","n","nan","inf" };
    for ( auto r : res ) if ( l == r ) return false;
    return true;
  }
  std::string dq( std::string const & s ) {
    std::string o = "\"";
    for ( size_t i = 0; i < s.size(); ++i ) {
      unsigned char const c = (unsigned char)s[i]; char b[16];
      switch ( c ) {
      case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '\n': o += "\\n"; break; case '\r': o += "\\r"; break;
      case '\t': o += g.coin() ? "\\t" : "\\x09"; break; case '\b': o += "\\b"; break; case 27: o += "\\e"; break; case 7: o += "\\a"; break; case 0: o += "\\0"; break;
      case 11: o += "\\v"; break; case 12: o += "\\f"; break;
      default:
        if ( c < 32 || c == 127 || ( c < 128 && g.chance(1,30) ) ) { if ( c == '/' && g.coin() ) o += "\\/"; else if ( c == ' ' && g.coin() ) o += "\\ "; else { snprintf(b,sizeof b,g.coin() ? "\\x%02x" : g.coin() ? "\\u00%02X" : "\\U000000%02x",c); o += b; } }
        else if ( c >= 0xC2 && g.chance(1,6) ) { // a character that is not ASCII, by its number
          int n = c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3; uint32_t v = n == 1 ? c&31u : n == 2 ? c&15u : c&7u; for ( int k = 1; k <= n; ++k ) v = v<<6 | ((unsigned char)s[i+size_t(k)]&63u);
          i += size_t(n); ++escapes;
          if ( v == 0x85 && g.coin() ) o += "\\N"; else if ( v == 0xA0 && g.coin() ) o += "\\_"; else if ( v == 0x2028 && g.coin() ) o += "\\L"; else if ( v == 0x2029 && g.coin() ) o += "\\P";
          else { if ( v < 0x100 && g.coin() ) snprintf(b,sizeof b,"\\x%02X",v); else if ( v < 0x10000 && g.coin() ) snprintf(b,sizeof b,"\\u%04x",v); else snprintf(b,sizeof b,"\\U%08X",v); o += b; }
        }
        else o += char(c);
      }
    }
    return o+"\"";
  }
  std::string str( std::string const & s ) {
    unsigned how = unsigned(g.below(3));
    if ( how == 0 && plain_ok(s) ) return s;
    if ( how <= 1 && printable(s) ) { std::string o = "'"; for ( char c : s ) { o += c; if ( c == '\'' ) o += c; } return o+"'"; }
    return dq(s);
  }
  std::string scalar( MV const & a, bool may_be_blank ) {
    char b[64];
    switch ( a.k ) {
    case K::None: switch ( g.below(may_be_blank ? 5 : 4) ) { case 0: return "null"; case 1: return "~"; case 2: return "Null"; case 3: return "NULL"; default: return ""; }
    case K::Bool: { static char const * const f[] = { "false","False","FALSE" }, * const t[] = { "true","True","TRUE" }; return a.b ? g.pick(t) : g.pick(f); }
    case K::Int: if ( a.i >= 0 && g.chance(1,5) ) { snprintf(b,sizeof b,g.coin() ? "0x%X" : "0x%x",unsigned(a.i)); return b; } if ( a.i >= 0 && g.chance(1,8) ) { snprintf(b,sizeof b,"0o%o",unsigned(a.i)); return b; } return std::to_string(a.i);
    case K::Long: return std::to_string(a.l);
    case K::Real: if ( std::isnan(a.r) ) return g.coin() ? ".nan" : ".NaN"; if ( std::isinf(a.r) ) return a.r > 0 ? ( g.coin() ? ".inf" : ".Inf" ) : "-.inf";
      { snprintf(b,sizeof b,"%.17g",a.r); std::string s = b; if ( s.find_first_of(".e") == std::string::npos ) s += g.coin() ? ".0" : "e0"; return s; }
    default: return str(a.s);
    }
  }
  void noise( int ind ) { // a line that means nothing
    if ( kept ) { kept = false; return; } // blank lines would belong to the text above
    if ( !g.chance(1,8) ) return;
    switch ( g.below(3) ) { case 0: t += "\n"; break; case 1: t += std::string(size_t(std::max(ind,0)),' ')+"# remark: [a, \"b\n"; break; default: t += "\n\n"; }
  }
  void eol() { if ( g.chance(1,8) ) t += "  # note 'x"; else if ( g.chance(1,10) ) t += ' '; t += '\n'; }
  bool is_coll( MV const & a ) { return a.k == K::Vec || a.k == K::Map; }
  std::string sp() { return g.coin() ? " " : g.coin() ? "" : "  "; }
  void flow( MV const & a ) {
    if ( std::string s = alias(a); !s.empty() ) { t += s+" "; return; }
    t += prop(a); flow2(a);
  }
  void flow2( MV const & a ) {
    if ( a.k == K::Vec ) { t += '['; t += sp(); for ( size_t i = 0; i < a.v.size(); ++i ) { if ( i ) { t += sp(); t += ','; t += ' '; } flow(a.v[i]); } t += sp(); t += ']'; }
    else if ( a.k == K::Map ) { t += '{'; t += sp(); bool first = true; for ( auto const & x : a.m ) { if ( !first ) { t += sp(); t += ','; t += ' '; } first = false; t += str(x.first); t += ": "; flow(x.second); } t += sp(); t += '}'; }
    else t += scalar(a,false);
  }
  static bool literal_ok( std::string const & s ) { // lines of printable text, not starting with a blank, ending with one or no newline
    if ( s.empty() || s[0] == ' ' || s[0] == '\n' || s.find('\n') == std::string::npos ) return false;
    for ( size_t i = 0; i < s.size(); ++i ) { unsigned char c = (unsigned char)s[i]; if ( c != '\n' && ( c < 32 || c == 127 ) ) return false; if ( c == '\n' && i+1 < s.size() && ( s[i+1] == ' ' || s[i+1] == '\n' ) ) return false; if ( c == '\n' && s[i-1] == ' ' ) return false; }
    return s.back() != ' ';
  }
  // words that a line may be broken between
  static bool words_ok( std::string const & s ) {
    if ( s.empty() || s.find(' ') == std::string::npos || s.back() == ' ' || s[0] == ' ' || s.find("  ") != std::string::npos ) return false;
    for ( unsigned char c : s ) if ( c < 32 || c == 127 ) return false;
    return true;
  }
  std::string broken( std::string const & s, int ind ) { // some spaces become line breaks
    std::string o; for ( char ch : s ) if ( ch == ' ' && g.coin() ) { o += g.chance(1,8) ? " \n" : "\n"; o += std::string(size_t(ind),' '); } else o += ch;
    return o;
  }
  void folded( std::string const & s, int ind ) { t += ">-"; if ( g.chance(1,6) ) t += "  # folded"; t += "\n"; t += std::string(size_t(ind),' '); std::string o; for ( char ch : s ) if ( ch == ' ' && g.coin() ) { o += "\n"; o += std::string(size_t(ind),' '); } else o += ch; t += o; t += "\n"; }
  void literal( std::string const & s, int ind, int parent ) {
    t += '|'; bool deep = parent >= 0 && g.chance(1,6); 
    if ( s.back() != '\n' ) t += '-'; else if ( g.chance(1,5) ) { t += "+"; kept = true; }
    if ( deep ) t += std::to_string(ind-parent);
    if ( g.chance(1,6) ) t += "  # literal"; t += '\n';
    std::string pad(size_t(ind),' '); size_t b = 0;
    while ( b < s.size() ) { size_t e = s.find('\n',b); if ( e == std::string::npos ) e = s.size(); t += pad+s.substr(b,e-b)+"\n"; b = e+1; }
  }
  // after "key:" or "-"; the text of a child whose lines may start at column ind or more
  void value( MV const & a, int parent, bool in_map ) {
    if ( std::string s = alias(a); !s.empty() ) { t += " "+s; eol(); return; }
    std::string pr = prop(a);
    if ( !is_coll(a) ) {
      if ( a.k == K::Str && literal_ok(a.s) && g.coin() ) { t += ' '; t += pr; literal(a.s,parent+g.range(1,3),parent); return; }
      if ( a.k == K::Str && words_ok(a.s) && g.chance(1,3) ) { // a string over more lines
        t += ' '; t += pr; int ind = parent+g.range(1,3); ++folds;
        switch ( g.below(plain_ok(a.s) ? 3 : 2) ) {
        case 0: folded(a.s,ind); return;
        case 1: { std::string b = broken(a.s,ind), o = "'"; for ( char ch : b ) { o += ch; if ( ch == '\'' ) o += ch; } t += o+"'"; eol(); return; }
        default: t += broken(a.s,ind); eol(); return; }
      }
      std::string s = scalar(a,BLANK); if ( !s.empty() ) { t += g.chance(1,6) ? "   " : " "; t += pr;
        if ( !pr.empty() && g.chance(1,4) ) { t += g.chance(1,3) ? "# then\n" : "\n"; t += std::string(size_t(parent+g.range(1,3)),' '); }
        t += s; } eol(); return;
    }
    bool empty = a.k == K::Vec ? a.v.empty() : a.m.empty();
    if ( empty || g.chance(1,4) ) { t += ' '; t += pr; flow2(a); eol(); return; }
    if ( !in_map && pr.empty() && g.coin() ) { // compact: "- - x" and "- k: v"
      size_t n = size_t(g.range(1,3)); t += std::string(n,' '); block(a,parent+1+int(n),true); return;
    }
    if ( !pr.empty() ) { t += ' '; t += pr; }
    eol();
    int ind = parent + g.range(1,4);
    if ( in_map && a.k == K::Vec && g.chance(1,4) ) ind = parent; // a list may start in the column of its key
    block(a,ind,false);
  }
  void block( MV const & a, int ind, bool first_inline ) {
    bool first = first_inline; std::string pad(size_t(ind),' ');
    if ( a.k == K::Vec ) for ( auto const & x : a.v ) { if ( !first ) { noise(ind); t += pad; } first = false; t += '-'; value(x,ind,false); }
    else for ( auto const & x : a.m ) { if ( !first ) { noise(ind); t += pad; } first = false;
      if ( props && g.chance(1,8) ) { ++expl; t += "? "; t += str(x.first); t += g.chance(1,4) ? "  # key\n" : "\n"; noise(ind); t += pad; t += ':'; value(x.second,ind,true); }
      else { t += str(x.first); t += ':'; value(x.second,ind,true); } }
  }
};
// the same text in another encoding, with or without a byte order mark
static std::string encode( std::string const & t, unsigned how, bool bom ) {
  std::vector<uint32_t> u; if ( bom ) u.push_back(0xFEFF);
  for ( size_t i = 0; i < t.size(); ) {
    unsigned char c = (unsigned char)t[i]; int n = c < 0x80 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3; uint32_t v = n == 0 ? c : n == 1 ? c&31u : n == 2 ? c&15u : c&7u; ++i;
    for ( ; n > 0 && i < t.size(); --n, ++i ) v = v<<6 | ((unsigned char)t[i]&63u);
    u.push_back(v);
  }
  std::string o;
  auto put = [&]( uint32_t v, int bytes, bool big ) { for ( int k = 0; k < bytes; ++k ) o += char(v>>(8*(big ? bytes-1-k : k))&255u); };
  for ( uint32_t v : u ) switch ( how ) {
    case 0: if ( v < 0x80 ) o += char(v); else if ( v < 0x800 ) { o += char(0xC0|v>>6); o += char(0x80|(v&63)); } else if ( v < 0x10000 ) { o += char(0xE0|v>>12); o += char(0x80|(v>>6&63)); o += char(0x80|(v&63)); } else { o += char(0xF0|v>>18); o += char(0x80|(v>>12&63)); o += char(0x80|(v>>6&63)); o += char(0x80|(v&63)); } break;
    case 1: case 2: if ( v < 0x10000 ) put(v,2,how == 2); else { put(0xD800+((v-0x10000)>>10),2,how == 2); put(0xDC00+((v-0x10000)&0x3FF),2,how == 2); } break;
    default: put(v,4,how == 4); }
  return o;
}
static std::string key( Src & g ) {
  std::string s = gen_string(g,g.chance(1,3) ? GenOpt::Str::Text : GenOpt::Str::Plain,8);
  static char const * const odd[] = { "\xc2\x85", "\xc2\xa0", "\xe2\x80\xa8", "\xe2\x80\xa9", "\xef\xbb\xbf", "\xf0\x9f\x98\x80" };
  if ( g.chance(1,20) ) { size_t i = g.below(s.size()+1); while ( i < s.size() && ((unsigned char)s[i]&0xC0) == 0x80 ) ++i; if ( g.coin() ) s.insert(i,1,'\0'); else s.insert(i,g.pick(odd)); }
  return s;
}
static MV gval( Src & g, int d ) {
  GenOpt o; o.str = GenOpt::Str::Text; 
  switch ( g.below(d > 0 ? 9 : 6) ) {
  case 0: return MV(); case 1: return MV::Bool(g.coin()); case 2: return MV::Int(gen_i32(g));
  case 3: { int64_t v = gen_i64(g); return v >= INT32_MIN && v <= INT32_MAX ? MV::Int(int32_t(v)) : MV::Long(v); }
  case 4: return MV::Real(gen_double(g,o));
  case 5: { if ( g.chance(1,4) ) { std::string s; int n = g.range(1,3); for ( int i = 0; i < n; ++i ) { if ( i ) s += '\n'; s += gen_string(g,GenOpt::Str::Ascii,6); } if ( g.coin() ) s += '\n'; return MV::Str(s); } if ( g.chance(1,3) ) return MV::Str(key(g)); return MV::Str(gen_string(g,GenOpt::Str::Text)); }
  case 6: case 7: { MV r(K::Vec); int n = g.few(0,4); bool nums = g.chance(1,3); for ( int i = 0; i < n; ++i ) r.v.push_back( nums ? MV::Int(gen_i32(g)) : gval(g,d-1) ); return r; }
  default: { MV r(K::Map); int n = g.few(0,4,30); for ( int i = 0; i < n; ++i ) r.m[key(g)] = gval(g,d-1); return r; }
  }
}
static void one( Src & g, Ctx & c ) {
  MV a; if ( g.chance(1,8) ) a = gval(g,0); else { a = MV( g.coin() ? K::Vec : K::Map ); int n = g.range(1,4), dd = g.range(0,3); for ( int i = 0; i < n; ++i ) { if ( a.k == K::Vec ) a.v.push_back(gval(g,dd)); else a.m[key(g)] = gval(g,dd); } }
  Y y(g);
  if ( g.chance(1,3) ) { // values that come more than once, anchors and aliases
    y.props = true; int n = g.range(0,3);
    for ( int i = 0; i < n; ++i ) {
      std::vector<MV*> all; std::function<void(MV&)> walk = [&]( MV & x ) { all.push_back(&x); for ( auto & e : x.v ) walk(e); for ( auto & e : x.m ) walk(e.second); };
      walk(a); if ( all.size() > 60 ) break;
      MV src = *g.pick(all); MV * dst = g.pick(all); if ( dst != &a ) *dst = src;
    }
  }
  if ( g.chance(1,6) ) { y.t += "# first line\n"; }
  if ( g.chance(1,6) ) y.t += "---\n";
  bool coll = y.is_coll(a), empty = coll && ( a.k == K::Vec ? a.v.empty() : a.m.empty() );
  if ( !coll || empty || g.chance(1,5) ) { y.flow(a); y.eol(); c.label("flow"); }
  else { int ind = g.chance(1,6) ? g.range(1,3) : 0; y.block(a,ind,false); c.label("block"); }
  if ( g.chance(1,6) ) y.t += "# last line\n";
  if ( g.chance(1,8) && !y.t.empty() && y.t.back() == '\n' && y.t.find('|') == std::string::npos ) y.t.pop_back();
  c.log("value "+show(a)); c.log("text\n"+y.t); 
  if ( g.chance(1,12) && !y.t.empty() && (unsigned char)y.t[0] < 0x80 ) { unsigned how = unsigned(g.below(5)); bool bom = how == 0 || g.coin(); y.t = encode(y.t,how,bom); static char const * const nm[] = { "UTF-8 with mark", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE" }; c.label(nm[how]); c.log(std::string("written as ")+nm[how]+( bom ? " with mark" : "" )); }
  if ( y.aliases ) c.label("aliases"); if ( y.expl ) c.label("explicit keys"); if ( y.folds ) c.label("strings over more lines"); if ( y.tags ) c.label("tags"); if ( y.escapes ) c.label("characters by number");
  c.nontrivial = coll && !empty;
  GC b; if ( g.coin() ) b.set_vec_int(3);
  std::istringstream is(y.t); bool ok;
  try { if ( g.chance(1,16) ) { std::string fn = "yaml_"+std::to_string(getpid())+".txt"; { std::ofstream f(fn,std::ios::binary); f << y.t; } std::string more = fn+"x"; ok = GC_namespace::file_YAML_to_GC(g.coin() ? std::string_view(fn) : std::string_view(more).substr(0,fn.size()),b); unlink(fn.c_str()); c.label("file");
      GC z; bool no = true; try { no = GC_namespace::file_YAML_to_GC(fn,z); } catch ( ... ) { no = false; } c.check( !no, "a file that does not exist is reported as read" ); }
    else switch ( g.below(6) ) { case 0: ok = GC_namespace::YAML_to_GC(is,b); break; case 1: ok = GC_namespace::YAML_to_GC(y.t,b); break; default: ok = b.from_yaml(is); } } catch ( std::exception const & e ) { fail(std::string("from_yaml throws ")+e.what()); }
  c.check( ok, "from_yaml refuses a valid document" );
  std::string d = unified_diff(a,read_checked(b,"from_yaml"));
  c.check( d.empty(), "from_yaml: "+d );
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C21"; p.one = one; p.init = quiet;
  p.rule = "random trees are written by our own YAML emitter in random styles (block, compact and flow collections, random indentation, plain, single and double quoted, literal and folded strings, one or several lines long, anchors and aliases, tags, explicit keys, hex and octal integers, the spellings of null, booleans and non-finite numbers, comments and blank lines, UTF-8 with and without byte order mark, UTF-16 and UTF-32) and read. Non-trivial: a non-empty list or map.";
  return pt_main(argc,argv,p);
}
