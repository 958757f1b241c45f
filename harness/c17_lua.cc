// C17: values exchanged with Lua are the same on both sides, and the interpreter survives every history of exchanges.
#include "model.hh"
#include "quiet.hh"
#include "GenericContainer/GenericContainerInterface_lua.hh"
extern "C" {
#include "lua.h"
#include "lualib.h"
#include "lauxlib.h"
}
#include <unistd.h>
#include <fstream>
#include <memory>
namespace pt {
// Lua values are modelled with Bool, Long, Real, Str, Vec (list), Map and None
static MV norm( MV const & a, bool got = false ) { // empty values do not exist in Lua tables; empty tables are read as empty values
  auto list = []( auto const & v, auto f ) { MV r(K::Vec); for ( auto const & x : v ) r.v.push_back(f(x)); return r; };
  switch ( a.k ) {
  case K::Int: return MV::Long(a.i);
  case K::VBool: return list(a.vb,[]( bool b ){ return MV::Bool(b); });
  case K::VInt: return list(a.vi,[]( int32_t x ){ return MV::Long(x); });
  case K::VLong: return list(a.vl,[]( int64_t x ){ return MV::Long(x); });
  case K::VReal: return list(a.vr,[]( double x ){ return MV::Real(x); });
  case K::VStr: return list(a.vs,[]( std::string const & x ){ return MV::Str(x); });
  case K::Vec: return list(a.v,[&]( MV const & x ){ return norm(x,got); });
  case K::Map: { MV r(K::Map); for ( auto const & x : a.m ) if ( got || x.second.k != K::None ) r.m[x.first] = norm(x.second,got); return r; }
  default: return a;
  }
}
static bool numeq( MV const & w, MV const & g, bool rounded ) {
  if ( w.k == K::Long ) return g.k == K::Long ? g.l == w.l : g.k == K::Real && rounded && g.r == double(w.l);
  if ( g.k == K::Real ) return same_double(w.r,g.r) || ( w.r == 0 && g.r == 0 );
  // a real without fraction may become a long
  return g.k == K::Long && w.r >= -9223372036854775808.0 && w.r < 9223372036854775808.0 && w.r == std::floor(w.r) && int64_t(w.r) == g.l;
}
// want and got both normalised
static std::string cmp( MV const & w, MV const & g, bool rounded = false, std::string const & at = "$" ) {
  auto bad = [&]{ return at+": expected "+show(w)+" got "+show(g); };
  switch ( w.k ) {
  case K::None: return g.k == K::None ? "" : bad();
  case K::Bool: return g.k == K::Bool && g.b == w.b ? "" : bad();
  case K::Str: return g.k == K::Str && g.s == w.s ? "" : bad();
  case K::Long: case K::Real: return numeq(w,g,rounded) ? "" : bad();
  case K::Vec: {
    if ( w.v.empty() ) return g.count() == 0 && g.k != K::Str ? "" : bad();
    if ( g.k != K::Vec || g.v.size() != w.v.size() ) return bad();
    bool ro = false; for ( auto const & x : w.v ) if ( x.k == K::Real ) ro = true;
    for ( size_t i = 0; i < w.v.size(); ++i ) { auto d = cmp(w.v[i],g.v[i],ro,at+"["+std::to_string(i)+"]"); if ( !d.empty() ) return d; }
    return "";
  }
  default: {
    if ( w.m.empty() ) return g.count() == 0 ? "" : bad();
    if ( g.k != K::Map || g.m.size() != w.m.size() ) return bad();
    auto j = g.m.begin();
    for ( auto const & x : w.m ) { if ( j->first != x.first ) return at+": expected key "+quote(x.first)+" got "+quote(j->first); auto d = cmp(x.second,j->second,false,at+"."+quote(x.first)); if ( !d.empty() ) return d; ++j; }
    return "";
  }
  }
}
// what a Lua value holds, by the Lua API alone; the value is at the top of the stack
static MV peek( lua_State * L ) {
  luaL_checkstack(L,10,"peek");
  switch ( lua_type(L,-1) ) {
  case LUA_TNIL: return MV();
  case LUA_TBOOLEAN: return MV::Bool(lua_toboolean(L,-1));
  case LUA_TNUMBER: if ( lua_isinteger(L,-1) ) return MV::Long(lua_tointeger(L,-1)); return MV::Real(lua_tonumber(L,-1));
  case LUA_TSTRING: { size_t n; char const * p = lua_tolstring(L,-1,&n); return MV::Str(std::string(p,n)); }
  case LUA_TTABLE: {
    std::map<int64_t,MV> list; MV r(K::Map);
    lua_pushnil(L);
    while ( lua_next(L,-2) ) {
      MV v = peek(L); lua_pop(L,1);
      if ( lua_type(L,-1) == LUA_TSTRING ) { size_t n; char const * p = lua_tolstring(L,-1,&n); r.m[std::string(p,n)] = v; }
      else if ( lua_isinteger(L,-1) ) list[lua_tointeger(L,-1)] = v;
      else fail("a table has a key that is neither a string nor an integer");
    }
    if ( list.empty() ) return r;
    if ( !r.m.empty() ) fail("a table has keys and positions");
    MV l(K::Vec); int64_t k = 1; for ( auto & x : list ) { if ( x.first != k++ ) fail("a table has wrong positions"); l.v.push_back(x.second); }
    return l;
  }
  default: fail("a value of the wrong Lua type");
  }
}
static std::string exact( MV const & w, MV const & g ) { // numbers must have the same Lua type
  if ( w.k == K::Real && g.k == K::Long ) return "a real became an integer";
  if ( w.k == K::Vec && g.k == K::Vec && w.v.size() == g.v.size() ) for ( size_t i = 0; i < w.v.size(); ++i ) { auto d = exact(w.v[i],g.v[i]); if ( !d.empty() ) return d; }
  if ( w.k == K::Map && g.k == K::Map && w.m.size() == g.m.size() ) { auto j = g.m.begin(); for ( auto & x : w.m ) { auto d = exact(x.second,(j++)->second); if ( !d.empty() ) return d; } }
  return "";
}
// ---- Lua text
struct LT {
  Src & g; std::string t;
  void str( std::string const & s ) {
    t += '"';
    for ( unsigned char c : s ) if ( c == '"' || c == '\\' ) { t += '\\'; t += char(c); } else if ( c < 32 || c >= 127 ) { char b[8]; snprintf(b,sizeof b,g.coin() ? "\\%03d" : "\\x%02x",c); t += b; } else t += char(c);
    t += '"';
  }
  static bool name( std::string const & s ) {
    if ( s.empty() || isdigit((unsigned char)s[0]) ) return false;
    for ( unsigned char c : s ) if ( !( c < 128 && ( isalnum(c) || c == '_' ) ) ) return false;
    static std::set<std::string> const kw{"and","break","do","else","elseif","end","false","for","function","goto","if","in","local","nil","not","or","repeat","return","then","true","until","while"};
    return !kw.count(s);
  }
  void val( MV const & a ) {
    char b[64];
    switch ( a.k ) {
    case K::None: t += "nil"; break;
    case K::Bool: t += a.b ? "true" : "false"; break;
    case K::Long: if ( a.l == INT64_MIN ) t += "math.mininteger"; else { snprintf(b,sizeof b,a.l >= 0 && g.chance(1,4) ? "0x%llx" : "%lld",(long long)a.l); t += b; } break;
    case K::Real: if ( std::isnan(a.r) ) t += "(0/0)"; else if ( std::isinf(a.r) ) t += a.r > 0 ? "(1/0)" : "(-1/0)"; else { snprintf(b,sizeof b,g.coin() ? "%.17g" : "%a",a.r); std::string s = b; if ( s.find_first_of(".eExp") == std::string::npos ) s += ".0"; t += s; } break;
    case K::Str: str(a.s); break;
    case K::Vec: {
      t += '{';
      if ( g.chance(1,4) ) { // by position, in any order
        std::vector<size_t> p; for ( size_t i = 0; i < a.v.size(); ++i ) p.insert(p.begin()+long(g.below(p.size()+1)),i);
        for ( size_t i : p ) { t += '['; t += std::to_string(i+1); if ( g.chance(1,5) ) t += ".0"; t += "]="; val(a.v[i]); t += g.coin() ? "," : ";"; }
      } else for ( size_t i = 0; i < a.v.size(); ++i ) { if ( i ) t += ", "; val(a.v[i]); }
      t += '}'; break;
    }
    default:
      t += '{';
      for ( auto const & x : a.m ) { if ( name(x.first) && g.coin() ) t += x.first; else { t += '['; str(x.first); t += ']'; } t += " = "; val(x.second); t += ", "; }
      t += '}';
    }
  }
};
static MV glua( Src & g, int d ) {
  GenOpt o;
  switch ( g.below(d > 0 ? 8 : 5) ) {
  case 0: return MV::Long(g.coin() ? g.range(-9,9) : gen_i64(g));
  case 1: return MV::Bool(g.coin());
  case 2: return MV::Real(g.chance(1,3) ? double(gen_i64(g)) : gen_double(g,o));
  case 3: case 4: return MV::Str(gen_string(g,GenOpt::Str::Bytes));
  case 5: case 6: { MV r(K::Vec); int n = g.few(0,5,200), sh = g.range(0,4);
    for ( int i = 0; i < n; ++i ) r.v.push_back( sh == 0 ? MV::Long(gen_i64(g)) : sh == 1 ? ( g.coin() ? MV::Long(gen_i64(g)) : MV::Real(gen_double(g,o)) ) : sh == 2 ? MV::Bool(g.coin()) : glua(g,sh == 3 ? 0 : d-1) ); return r; }
  default: { MV r(K::Map); int n = g.few(0,4); for ( int i = 0; i < n; ++i ) r.m[gen_string(g,g.coin() ? GenOpt::Str::Plain : GenOpt::Str::Bytes,6)] = glua(g,d-1); return r; }
  }
}
static void nulls( Src & g, MV & a ) { // entries of maps that hold nothing
  for ( auto & x : a.v ) nulls(g,x);
  if ( a.k != K::Map ) return;
  for ( auto & x : a.m ) nulls(g,x.second);
  if ( g.chance(1,2) ) a.m.emplace(gen_string(g,GenOpt::Str::Bytes,4),MV());
}
static MV ggc( Src & g ) {
  GenOpt o; o.max_depth = g.range(0,3);
  o.only({K::Bool,K::Int,K::Long,K::Real,K::Str,K::VBool,K::VInt,K::VLong,K::VReal,K::VStr,K::Vec,K::Map});
  o.key = GenOpt::Str::Bytes;
  if ( g.chance(1,300) ) { // long lists
    int n = g.range(260,3000), sh = g.range(0,5); MV r( sh == 0 ? K::VBool : sh == 1 ? K::VInt : sh == 2 ? K::VLong : sh == 3 ? K::VReal : sh == 4 ? K::VStr : K::Vec );
    for ( int i = 0; i < n; ++i ) switch ( sh ) { case 0: r.vb.push_back(i%3 == 1); break; case 1: r.vi.push_back(i-7); break; case 2: r.vl.push_back(int64_t(i)<<40); break; case 3: r.vr.push_back(i+0.25); break; case 4: r.vs.push_back("s"+std::to_string(i)); break; default: r.v.push_back( i%2 ? MV::Str(std::to_string(i)) : MV::Long(i) ); }
    return r;
  }
  MV a = gen(g,o);
  if ( g.coin() ) nulls(g,a);
  return a;
}
static std::string tmpname() { return "/tmp/verif_c17_"+std::to_string(getpid())+".lua"; }
struct File { std::string n; File( std::string const & t ) : n(tmpname()) { std::ofstream f(n,std::ios::binary); f << t; } ~File() { unlink(n.c_str()); } };
static void one( Src & g, Ctx & c ) {
  bool raw = g.coin();                       // the caller's own Lua state, with his values on the stack
  std::unique_ptr<GC_namespace::LuaInterpreter> li; lua_State * L = nullptr;
  struct Close { lua_State * & L; ~Close() { if ( L ) lua_close(L); } } close{L};
  int base = 0;
  if ( raw ) { L = luaL_newstate(); luaL_openlibs(L); base = g.range(0,6); for ( int i = 0; i < base; ++i ) lua_pushinteger(L,1000+i); }
  else li.reset(new GC_namespace::LuaInterpreter);
  auto run = [&]( std::string const & s ) { if ( raw ) { if ( luaL_dostring(L,s.c_str()) ) fail(std::string("harness: ")+lua_tostring(L,-1)); } else li->execute(s.c_str()); };
  auto put = [&]( GC const & v, char const * n ) { if ( raw ) GC_namespace::Lua_GC_to_global(L,v,n); else li->GC_to_global(v,n); };
  auto get = [&]( char const * n, GC & v ) { if ( raw ) GC_namespace::Lua_global_to_GC(L,n,v); else li->global_to_GC(n,v); };
  auto stack = [&]{
    if ( !raw ) return;
    c.check( lua_gettop(L) == base, "the stack of the caller has "+std::to_string(lua_gettop(L))+" values instead of "+std::to_string(base) );
    for ( int i = 0; i < base; ++i ) c.check( lua_isinteger(L,i+1) && lua_tointeger(L,i+1) == 1000+i, "the values of the caller on the stack changed" );
  };
  std::map<std::string,MV> G; // global -> normalised value
  static char const * const names[] = {"x","alpha","_v2"};
  auto check_global = [&]( std::string const & n, char const * after ) {
    GC r; if ( g.chance(1,3) ) { GenOpt o; o.max_depth = 1; build(r,gen(g,o)); }
    try { get(n.c_str(),r); } catch ( std::exception const & e ) { fail(std::string("reading the global after ")+after+" throws "+e.what()); }
    std::string d = cmp(G[n],norm(read_checked(r,"from Lua"),true));
    c.check( d.empty(), std::string("read from Lua after ")+after+": "+d );
    MV const & w = G[n]; bool num = w.k == K::Vec && !w.v.empty(); for ( auto const & x : w.v ) num = num && ( x.k == K::Long || x.k == K::Real );
    if ( num ) c.check( r.get_type() == T::VEC_INTEGER || r.get_type() == T::VEC_LONG || r.get_type() == T::VEC_REAL, std::string("a list of numbers read from Lua after ")+after+" is not a vector of numbers but "+std::string(r.get_type_name()) );
    stack();
  };
  int steps = g.chance(1,40) ? g.range(40,300) : g.range(1,8);
  if ( steps >= 40 ) c.label("long history");
  bool many = steps >= 40; int cheap = g.range(0,5), rep = g.range(0,5);
  for ( int s = 0; s < steps; ++s ) {
    std::string n = g.pick(names);
    int op = many && !g.chance(1,12) ? cheap : int(g.below(10));
    switch ( op ) {
    case 0: case 6: { // container -> Lua
      MV a = many ? MV::Int(s) : ggc(g); GC v; build(v,a); c.log("GC_to_global "+n+" = "+show(a)); c.label("to Lua");
      if ( a.k >= K::VPtr ) c.nontrivial = true;
      try { put(v,n.c_str()); } catch ( std::exception const & e ) { fail(std::string("GC_to_global throws ")+e.what()); }
      c.check( same(a,read_checked(v,"")), "GC_to_global changed the container" );
      MV w = norm(a);
      stack();
      if ( raw ) { lua_getglobal(L,n.c_str()); MV p = peek(L); lua_pop(L,1); std::string d = cmp(w,p); c.check( d.empty(), "in Lua: "+d ); d = exact(w,p); c.check( d.empty(), "in Lua: "+d ); }
      if ( w.k == K::None ) G.erase(n); else { G[n] = w; check_global(n,"GC_to_global"); }
      break;
    }
    case 1: case 7: { // Lua text -> container
      MV a = many ? MV::Long(s) : glua(g,3); LT t{g,{}}; t.val(a); c.log("execute "+n+" = "+quote(t.t)); c.label("from Lua");
      if ( a.k == K::Vec || a.k == K::Map ) c.nontrivial = true;
      if ( !raw && g.chance(1,6) ) { File f("-- a file\n"+n+" = "+t.t+"\n"); try { li->do_file(f.n.c_str()); } catch ( std::exception const & e ) { fail(std::string("do_file throws ")+e.what()); } }
      else try { run(n+" = "+t.t); } catch ( std::exception const & e ) { fail(std::string("execute throws ")+e.what()); }
      G[n] = a; check_global(n,"execute");
      break;
    }
    case 2: { // read again
      if ( !G.count(n) ) { c.label("missing global"); GC r; c.check( throws([&]{ get(n.c_str(),r); }), "reading a missing global does not throw" ); stack(); break; }
      check_global(n,"other calls"); break;
    }
    case 3: { // function call
      if ( raw ) break;
      MV a = many ? MV::Int(s) : ggc(g); GC f, r; f["function"] = std::string("fun"); build(f["args"],a); MV w = norm(a), e = w; std::string body;
      switch ( g.below(4) ) {
      case 0: body = "return a"; break;
      case 1: body = "return { result = a, n = 12 }"; e = MV(K::Map); if ( w.k != K::None ) e.m["result"] = w; e.m["n"] = MV::Long(12); break;
      case 2: body = "return { \"first\", a }"; if ( w.k == K::None ) { e = MV(K::Vec); e.v.push_back(MV::Str("first")); break; } e = MV(K::Vec); e.v = { MV::Str("first"), w }; break;
      default: body = "if type(a) == 'table' then return #a end return type(a)"; e = w.k == K::Vec ? MV::Long(int64_t(w.v.size())) : w.k == K::Map ? MV::Long(0) : MV::Str(w.k == K::None ? "nil" : w.k == K::Bool ? "boolean" : w.k == K::Str ? "string" : "number");
      }
      c.log("call function(a) "+body+" end with "+show(a)); c.label("call"); c.nontrivial = true;
      run("function fun(a) "+body+" end");
      MV before = read_checked(f,"");
      bool stale = g.coin(); if ( stale ) { build(r,ggc(g)); c.label("call into a used container"); }
      try { li->call(f,r); } catch ( std::exception const & x ) { fail(std::string("call throws ")+x.what()); }
      std::string d = cmp(e,norm(read_checked(r,"call"),true)); c.check( d.empty(), "result of call: "+d );
      c.check( same(before,read_checked(f,"after call")), "call changed its arguments" );
      break;
    }
    case 4: { // things that must be refused
      static char const * const badtab[] = { "{[0]=1}", "{[-1]=\"a\"}", "{[1.5]=true}", "{1,2,[4294967297]=3}", "{[1e300]=1}", "{[math.mininteger]=1}", "{[9007199254740992]=1}", "{[-0.5]={}}", "{[1/0]=2}" };
      static char const * const badlua[] = { "x =", "error('no')", "error({})", "error()", "local a = nil; a.b = 1", "undefined_function()", "error(setmetatable({},{__tostring=function() return 'e' end}))", "return return" };
      GC r; 
      switch ( many ? rep%(raw ? 3 : 6) : int(g.below(raw ? 3 : 6)) ) {
      case 0: { std::string t = g.pick(badtab); c.log("bad table "+t); c.label("bad position"); run("bad = "+t); c.check( throws([&]{ get("bad",r); }), "the table "+t+" is accepted as list" ); break; }
      case 1: { static char const * const cyc[] = { "bad = {}; bad.a = bad", "bad = {1}; bad[2] = bad", "bad = {a={b={}}}; bad.a.b.c = bad.a", "bad = {{},{}}; bad[2][1] = {z=bad}" }; std::string t = g.pick(cyc); c.log(t); c.label("cycle"); run(t); c.check( throws([&]{ get("bad",r); }), "a table that contains itself is accepted" ); break; }
      case 2: { c.label("not a value"); run("bad = print"); c.check( throws([&]{ get("bad",r); }), "a function is accepted as value" ); break; }
      case 3: { std::string t = g.pick(badlua); c.log("execute "+t); c.label("failing code"); c.check( throws([&]{ li->execute(t.c_str()); }), "execute of failing code does not throw: "+t ); break; }
      case 4: { std::string t = g.pick(badlua); c.log("do_file "+t); c.label("failing file"); File f(t); if ( g.chance(1,4) ) unlink(f.n.c_str()); c.check( throws([&]{ li->do_file(f.n.c_str()); }), "do_file of failing code does not throw: "+t ); break; }
      default: { c.log("bad call"); c.label("failing call"); GC f; switch ( g.below(4) ) { case 0: f["function"] = std::string("no_such_function"); f["args"] = 1; break; case 1: f["args"] = 1; break; case 2: f["function"] = 2; f["args"] = 1; break; default: run("function fun(a) error('x') end"); f["function"] = std::string("fun"); f["args"] = 1; } c.check( throws([&]{ li->call(f,r); }), "a failing call does not throw" ); }
      }
      stack(); break;
    }
    case 5: { // shared and deep tables
      if ( many ) { GC r; run("d = "+std::to_string(s)); get("d",r); c.check( r.get_type() == T::LONG && r.get_long() == s, "a scalar global is read wrong" ); stack(); break; }
      if ( g.coin() ) { int dp = g.range(1,150); c.label("deep"); c.log("depth "+std::to_string(dp)); run("d = 7; for i = 1,"+std::to_string(dp)+" do if i % 3 == 0 then d = {a=d} else d = {d} end end");
        GC r; try { get("d",r); } catch ( std::exception const & e ) { fail(std::string("reading a deep table throws ")+e.what()); }
        GC back; put(r,"d2"); get("d2",back); c.check( r.compare_content(back).empty(), "a deep table changed in a round trip" );
        MV m = norm(read_checked(r,"deep"),true); int lv = 0; MV const * p = &m; while ( p->k == K::Vec || p->k == K::Map ) { p = p->k == K::Vec ? &p->v.at(0) : &p->m.at("a"); ++lv; }
        c.check( lv == dp && p->k == K::Long && p->l == 7, "a deep table is read wrong" ); c.nontrivial = true; }
      else { c.label("shared"); run("t = {1,2}; d = {a=t,b={t,t}}"); GC r; try { get("d",r); } catch ( std::exception const & e ) { fail(std::string("reading a table used twice throws ")+e.what()); }
        MV t(K::Vec); t.v = {MV::Long(1),MV::Long(2)}; MV w(K::Map); w.m["a"] = t; MV b(K::Vec); b.v = {t,t}; w.m["b"] = b; std::string d = cmp(w,norm(read_checked(r,"shared"),true)); c.check( d.empty(), "table used twice: "+d ); }
      stack(); break;
    }
    case 9: { // elements that hold nothing, positions that are not there
      if ( many ) break;
      MV a(K::Vec); int len = g.range(2,6), sh = g.range(0,3); c.label("holes"); c.nontrivial = true;
      for ( int i = 0; i < len; ++i ) { MV x; if ( !g.chance(2,5) || i+1 == len ) x = sh == 0 ? MV::Long(gen_i64(g)) : sh == 1 ? MV::Str(gen_string(g,GenOpt::Str::Bytes)) : glua(g,sh == 2 ? 0 : 1); a.v.push_back(x); }
      std::string t;
      if ( g.coin() ) { // from the container: every element at its own position
        GC v; build(v,a); c.log("GC_to_global "+n+" = "+show(a)); try { put(v,n.c_str()); } catch ( std::exception const & e ) { fail(std::string("GC_to_global throws ")+e.what()); }
        for ( int i = 0; i < len; ++i ) {
          run("e = "+n+"["+std::to_string(i+1)+"]; z = e == nil"); GC z, r; get("z",z);
          MV w = norm(a.v[size_t(i)]);
          c.check( z.get_type() == T::BOOL && z.get_bool() == ( w.k == K::None ), "position "+std::to_string(i+1)+" of the list is "+( w.k == K::None ? "not nil" : "nil" ) );
          if ( w.k == K::None ) continue;
          try { get("e",r); } catch ( std::exception const & e ) { fail(std::string("reading an element throws ")+e.what()); }
          std::string d = cmp(w,norm(read_checked(r,"element"),true),true); c.check( d.empty(), "element "+std::to_string(i+1)+": "+d );
        }
      } else { // from Lua: what is there is read at its position
        LT t{g,{}}; t.val(a); c.log("execute "+n+" = "+quote(t.t)); run(n+" = "+t.t);
        GC r; try { get(n.c_str(),r); } catch ( std::exception const & e ) { fail(std::string("reading a list with nil throws ")+e.what()); }
        MV m = norm(read_checked(r,"holes"),true);
        c.check( m.k == K::Vec && m.v.size() == a.v.size(), "a list of "+std::to_string(len)+" positions is read as "+show(m) );
        bool ro = false; for ( auto const & x : a.v ) if ( x.k == K::Real ) ro = true;
        for ( size_t i = 0; i < a.v.size(); ++i ) if ( a.v[i].k != K::None ) { std::string d = cmp(a.v[i],m.v[i],ro); c.check( d.empty(), "position "+std::to_string(i+1)+" of a list with nil: "+d ); }
      }
      G.erase(n); run(n+" = nil"); stack(); break;
    }
    default: { // Lua code that uses what the container stored
      if ( !G.count(n) || G[n].k != K::Vec || G[n].v.empty() ) break;
      c.label("computed in Lua"); c.nontrivial = true; c.log("reverse "+n);
      run("local r = {}; for i = #"+n+",1,-1 do r[#r+1] = "+n+"[i] end; "+n+" = r");
      std::reverse(G[n].v.begin(),G[n].v.end()); check_global(n,"reversing in Lua");
    }
    }
  }
  for ( auto const & x : std::map<std::string,MV>(G) ) check_global(x.first,"the whole history");
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C17"; p.one = one; p.init = quiet;
  p.rule = "histories (1-8 steps, one in 40 with 40-300) on a LuaInterpreter or on the caller's own Lua state with values on its stack: containers stored as globals and inspected through the Lua API, Lua tables written as text in random styles, executed or loaded from a file and read, functions called, values computed in Lua, deep, shared and cyclic tables, failing code and tables that are neither list nor map. The sanitizers and Lua's own API checks watch the stack. Non-trivial: a list, table, call or deep value was exchanged.";
  return pt_main(argc,argv,p);
}
