// C13: a map behaves like a map under any history of keyed operations.
#include "promo.hh"
#include "tree.hh"
namespace pt {
using namespace GC_namespace;
using VS = vec_string_type;

static std::vector<std::string> const & keys() {
  static std::vector<std::string> const k = { "a", "b", "ab", "abc", "", "a b", std::string("a\0b",3), std::string("a\0",2), std::string(1,'\0'), "\xc3\xa9", "\xff", "A", "key_with_a_rather_long_name_that_is_on_the_heap", "key_with_a_rather_long_name_that_is_on_the_heaP", "0", "," };
  return k;
}
static std::string gen_key( Src & g, MV const * m ) {
  if ( m && m->k == K::Map && !m->m.empty() && g.chance(2,3) ) return std::next(m->m.begin(),long(g.below(m->m.size())))->first;
  return g.chance(1,10) ? gen_string(g,GenOpt::Str::Bytes,6) : g.pick(keys());
}
static VS gen_keys( Src & g, MV const * m ) { VS v; int n = g.range(0,4); for ( int i = 0; i < n; ++i ) v.push_back(g.coin() ? g.pick(keys()) : gen_key(g,m)); return v; }
static std::string show_keys( VS const & v ) { std::string r = "("; for ( auto const & s : v ) r += quote(s)+" "; return r+")"; }

// a string_view that is followed by other characters, not by a terminator
struct View { std::string buf; size_t n; View( Src & g, std::string const & s ) : buf(s), n(s.size()) { int t = g.range(0,2); if ( t == 1 ) buf += "tail"; else if ( t == 2 ) buf += s; } string_view get() const { return string_view(buf.data(),n); } };

static MV const * find( MV const & m, std::string const & k ) { if ( m.k != K::Map ) return nullptr; auto it = m.m.find(k); return it == m.m.end() ? nullptr : &it->second; }
static MV const * first( MV const & m, VS const & ks ) { for ( auto const & k : ks ) if ( MV const * p = find(m,k) ) return p; return nullptr; }

static void merge_model( MV & a, MV const & b ) {
  for ( auto const & [k,x] : b.m ) { MV & t = a.m[k]; if ( t.k == K::Map && x.k == K::Map ) merge_model(t,x); else t = x; }
}

template <class X> static bool getx( MV const & a, X & v ) { return conv(a,v) == Cv::Yes; }
static bool getx( MV const & a, bool & v ) { if ( a.k != K::Bool ) return false; v = a.b; return true; }
static bool getx( MV const & a, std::string & v ) { if ( a.k != K::Str ) return false; v = a.s; return true; }
template <class X> static bool anyx( MV const & a, X const & ) { X t{}; return conv(a,t) == Cv::Any; }
static bool anyx( MV const &, bool const & ) { return false; }
static bool anyx( MV const &, std::string const & ) { return false; }
static bool eqx( std::string const & a, std::string const & b ) { return a == b; }
template <class X> static bool eqx( X a, X b ) { return eqv(a,b); }

// get_if_exists for a single key, a C string and a list of keys
template <class X> static void if_exists( Src & g, Ctx & c, GC const & gc, MV const & m, X mark, std::string const & tn ) {
  bool list = g.coin(); VS ks = list ? gen_keys(g,&m) : VS{gen_key(g,&m)};
  X want = mark; bool ok = false;
  for ( auto const & k : ks ) if ( MV const * p = find(m,k) ) { if ( anyx(*p,mark) ) return; if ( getx(*p,want) ) { ok = true; break; } }
  X got = mark; bool r;
  try {
    if ( list ) r = gc.get_if_exists(ks,got);
    else if ( g.coin() && ks[0].find('\0') == std::string::npos ) r = gc.get_if_exists(ks[0].c_str(),got);
    else { View v(g,ks[0]); r = gc.get_if_exists(v.get(),got); }
  } catch ( std::exception const & e ) { fail("get_if_exists<"+tn+"> throws "+e.what()); }
  c.log("get_if_exists<"+tn+">"+show_keys(ks)+(r?" found":" not found"));
  c.check( r == ok, "get_if_exists<"+tn+">"+show_keys(ks)+" returns "+(r?"true":"false")+" on "+show(m) );
  c.check( eqx(got,want), "get_if_exists<"+tn+">"+show_keys(ks)+" gives another value" );
}

// must return the value of the model node p by f, or throw when there is none or it is of another kind
template <class X, class F, class E> static void must( Ctx & c, std::string const & w, MV const * p, F && f, E && expect ) {
  X got{}; bool threw = false;
  try { got = f(); } catch ( std::exception const & ) { threw = true; }
  X want{}; int r = p ? expect(*p,want) : 0; // 1 value, 0 refused, 2 unspecified
  if ( r == 2 ) return;
  c.check( threw == ( r == 0 ), w+( threw ? " throws" : " does not throw" ) );
  if ( !threw ) c.check( got == want || ( got != got && want != want ), w+" gives another value" );
}
struct Q { std::vector<double> v; bool operator==( Q const & o ) const { if ( v.size() != o.v.size() ) return false; for ( size_t i = 0; i < v.size(); ++i ) if ( !same_double(v[i],o.v[i]) ) return false; return true; } bool operator!=( Q const & o ) const { return !( *this == o ); } };
static Q q( std::vector<double> const & v ) { return Q{v}; }
static Q q( std::vector<cplx> const & v ) { Q r; for ( auto x : v ) { r.v.push_back(x.real()); r.v.push_back(x.imag()); } return r; }

// reading an empty value, or a narrower vector, by its typed name may give it that type
static bool may_widen( MV const * p, unsigned which ) {
  if ( !p ) return false;
  if ( p->k == K::None ) return true;
  return ( which == 4 && vwidth(p->k) >= 0 && vwidth(p->k) < 3 ) || ( which == 5 && vwidth(p->k) >= 0 && vwidth(p->k) < 4 );
}
template <class A> static void map_getters( Ctx & c, std::string const & how, A && call, MV const * p, unsigned which ) {
  if ( may_widen(p,which) ) {
    MV w = *p; if ( w.k != K::None ) promote_vec(w,which == 4 ? 3 : 4);
    try {
      if ( which == 4 ) { Q r = call([]( GC const & x, auto const &... a ) { return q(x.get_map_vec_real(a...)); }); if ( w.k != K::None ) c.check( r == q(w.vr), "get_map_vec_real"+how+" of a narrower vector" ); }
      else if ( which == 5 ) { Q r = call([]( GC const & x, auto const &... a ) { return q(x.get_map_vec_complex(a...)); }); if ( w.k != K::None ) c.check( r == q(w.vc), "get_map_vec_complex"+how+" of a narrower vector" ); }
      else return;
    } catch ( std::exception const & ) { return; }
    return;
  }
  switch ( which ) {
  case 0: must<bool>(c,"get_map_bool"+how,p,[&]{ return call([]( GC const & x, auto const &... a ) { return x.get_map_bool(a...); }); },[]( MV const & a, bool & v ) { return int(getx(a,v)); }); break;
  case 1: must<int32_t>(c,"get_map_int"+how,p,[&]{ return call([]( GC const & x, auto const &... a ) { return x.get_map_int(a...); }); },[&]( MV const & a, int32_t & v ) { Cv r = conv(a,v); if ( how[1] == 'p' && a.k != K::Int ) return r == Cv::No ? 0 : 2; return r == Cv::Yes ? 1 : r == Cv::No ? 0 : 2; }); break;
  case 2: must<double>(c,"get_map_number"+how,p,[&]{ return call([]( GC const & x, auto const &... a ) { return x.get_map_number(a...); }); },[]( MV const & a, double & v ) { Cv r = conv(a,v); if ( a.k == K::Cplx ) return 2; return r == Cv::Yes ? 1 : r == Cv::No ? 0 : 2; }); break;
  case 3: must<std::string>(c,"get_map_string"+how,p,[&]{ return std::string(call([]( GC const & x, auto const &... a ) { return std::string(x.get_map_string(a...)); })); },[]( MV const & a, std::string & v ) { return int(getx(a,v)); }); break;
  case 4: must<Q>(c,"get_map_vec_real"+how,p,[&]{ return call([]( GC const & x, auto const &... a ) { return q(x.get_map_vec_real(a...)); }); },[]( MV const & a, Q & v ) { if ( a.k != K::VReal ) return 0; v = q(a.vr); return 1; }); break;
  case 5: must<Q>(c,"get_map_vec_complex"+how,p,[&]{ return call([]( GC const & x, auto const &... a ) { return q(x.get_map_vec_complex(a...)); }); },[]( MV const & a, Q & v ) { if ( a.k != K::VCplx ) return 0; v = q(a.vc); return 1; }); break;
  default: must<VS>(c,"get_map_vec_string"+how,p,[&]{ return call([]( GC const & x, auto const &... a ) { return VS(x.get_map_vec_string(a...)); }); },[]( MV const & a, VS & v ) { if ( a.k != K::VStr ) return 0; v = a.vs; return 1; }); break;
  }
}
static void widened( Ctx & c, MV & m, GC const & x, unsigned which ) {
  MV r = read_checked(x,"typed lookup"); if ( same(m,r) ) return;
  if ( m.k == K::None ) c.check( r.k == ( which == 4 ? K::VReal : K::VCplx ) && r.count() == 0, "a typed lookup of an empty value made it "+show(r) );
  else { MV w = m; promote_vec(w,which == 4 ? 3 : 4); std::string d = diff(w,r); c.check( d.empty(), "a typed lookup changed the vector: "+d ); }
  m = r;
}
using IL = std::initializer_list<std::string>;

static void one( Src & g, Ctx & c ) {
  GenOpt o; o.max_depth = g.range(1,3); o.max_len = 4; o.key = GenOpt::Str::Bytes;
  MV top = gen_kind(g,K::Map,o); 
  int extra = g.range(0,3); for ( int i = 0; i < extra; ++i ) top.m[g.pick(keys())] = g.chance(1,3) ? gen_kind(g,K::Map,o,1) : g.coin() ? gen_number(g) : gen(g,o,1);
  if ( g.chance(1,20) ) top = gen(g,o);
  GC gc; build_varied(g,gc,top); c.log("value "+show(top));
  int n = g.range(1,10);
  for ( int s = 0; s < n; ++s ) {
    Path p = gen_path(g,top,2);
    // prefer maps
    MV & m = at(top,p); GC & x = at(gc,p); GC const & cx = x;
    if ( m.k == K::Map && m.m.size() > 1 ) c.nontrivial = true;
    std::string w = show(p)+" ";
    switch ( g.weighted({5,3,4,3,3,4,5,5,3,2}) ) {
    case 0: { // store under a key (turns anything else into a map)
      std::string k = gen_key(g,&m); MV v = gen(g,o,2); GC t; build(t,v); View kv(g,k);
      if ( m.k != K::Map && m.k != K::None && !g.chance(1,6) ) break;
      c.log(w+"["+quote(k)+"] = "+show(v)); c.label("store");
      if ( m.k != K::Map ) m = MV(K::Map);
      m.m[k] = v; x[kv.get()] = t;
      break; }
    case 1: { std::string k = gen_key(g,&m); View kv(g,k); c.log(w+"erase "+quote(k)); c.label("erase");
      bool th = throws([&]{ x.erase(kv.get()); });
      c.check( th == ( m.k != K::Map ), w+"erase of "+quote(k)+( th ? " throws" : " does not throw" ) );
      if ( !th ) m.m.erase(k);
      break; }
    case 2: { // const lookups
      std::string k = gen_key(g,&m); View kv(g,k); MV const * f = find(m,k); c.log(w+"look up "+quote(k)); c.label( f ? "hit" : "miss" );
      c.check( cx.exists(kv.get()) == ( f != nullptr ), w+"exists("+quote(k)+") is "+( f ? "false" : "true" ) );
      auto rd = [&]( char const * nm, auto && get ) {
        GC const * r = nullptr; bool th = throws([&]{ r = &get(); });
        c.check( th == !f, w+nm+"("+quote(k)+")"+( th ? " throws" : " finds something" ) );
        if ( f ) { std::string d = diff(*f,read_checked(*r,nm)); c.check( d.empty(), w+nm+"("+quote(k)+"): "+d ); }
      };
      rd("operator() const",[&]() -> GC const & { return cx(kv.get(),"w"); });
      rd("operator()",[&]() -> GC const & { return x(kv.get(),"w"); });
      rd("operator[] const",[&]() -> GC const & { return cx[kv.get()]; });
      break; }
    case 3: { // several keys
      VS ks = gen_keys(g,&m); MV const * f = first(m,ks); c.log(w+"any of "+show_keys(ks)); c.label( f ? "hit" : "miss" );
      c.check( cx.exists(ks) == ( f != nullptr ), w+"exists"+show_keys(ks) );
      std::string who; bool th = throws([&]{ who = cx.must_exists(ks,"w"); });
      c.check( th == !f, w+"must_exists"+show_keys(ks)+( th ? " throws" : " does not throw" ) );
      if ( f ) c.check( find(m,who) == f, w+"must_exists"+show_keys(ks)+" names "+quote(who) );
      GC const * r = nullptr; th = throws([&]{ r = g.coin() ? &cx(ks,"w") : &x(ks,"w"); });
      c.check( th == !f, w+"operator()"+show_keys(ks)+( th ? " throws" : " does not throw" ) );
      if ( f ) { std::string d = diff(*f,read_checked(*r,"any of")); c.check( d.empty(), w+"operator()"+show_keys(ks)+": "+d ); }
      break; }
    case 4: { // the keys
      VS ks{"old"}; cx.get_keys(ks); VS want; std::string joined; if ( m.k == K::Map ) for ( auto const & e : m.m ) { want.push_back(e.first); if ( want.size() > 1 ) joined += ", "; joined += e.first; }
      c.log(w+"get_keys");
      c.check( ks == want, w+"get_keys gives "+show_keys(ks)+" for "+show(m) );
      c.check( cx.get_keys() == joined, w+"get_keys string" );
      break; }
    case 5: { // merge
      MV src = m; 
      unsigned how = unsigned(g.below(5));
      if ( how == 0 ) src = g.coin() ? twin(g,m) : mutate(g,m,o);
      else if ( how == 1 ) src = gen(g,o,1);
      else { src = MV(K::Map); int q = g.range(0,4); for ( int i = 0; i < q; ++i ) { std::string k = gen_key(g,&m); MV const * f = find(m,k); src.m[k] = f && f->k == K::Map && g.coin() ? mutate(g,*f,o) : f && g.chance(1,4) ? *f : gen(g,o,1); } }
      bool alias = false; Path ap;
      GC t; GC const * sp = &t;
      if ( g.chance(1,5) ) { ap = gen_path(g,m); src = at(m,ap); sp = &at(x,ap); alias = true; }
      else build(t,src);
      c.log(w+"merge "+( alias ? "its own "+show(ap)+" " : "" )+show(src)); c.label("merge");
      bool ok = src.k == K::None || ( src.k == K::Map && ( m.k == K::Map || m.k == K::None ) );
      bool th = throws([&]{ x.merge(*sp,"w"); });
      c.check( th == !ok, w+"merge of "+show(src)+" into "+show(m)+( th ? " throws" : " does not throw" ) );
      if ( ok && src.k == K::Map ) { MV keep = src; if ( m.k != K::Map ) m = MV(K::Map); merge_model(m,keep); }
      if ( !alias ) { std::string d = diff(src,read_checked(t,"merged source")); c.check( d.empty(), "merge changed its source: "+d ); }
      break; }
    case 6: { c.label("get_if_exists");
      switch ( g.below(8) ) {
      case 0: if_exists<bool>(g,c,cx,m,true,"bool"); break;
      case 1: if_exists<int32_t>(g,c,cx,m,-77,"int"); break;
      case 2: if_exists<uint32_t>(g,c,cx,m,77,"uint"); break;
      case 3: if_exists<int64_t>(g,c,cx,m,-77,"long"); break;
      case 4: if_exists<uint64_t>(g,c,cx,m,77,"ulong"); break;
      case 5: if_exists<double>(g,c,cx,m,7.5,"real"); break;
      case 6: if_exists<cplx>(g,c,cx,m,cplx(7,8),"complex"); break;
      default: if_exists<std::string>(g,c,cx,m,"mark","string");
      }
      break; }
    case 7: { // typed lookups by key, by alternative keys, by path
      unsigned which = unsigned(g.below(7)); c.label("get_map_*");
      switch ( g.below(3) ) {
      case 0: { std::string k = gen_key(g,&m); View kv(g,k); c.log(w+"get_map "+quote(k));
        map_getters(c,"("+quote(k)+")",[&]( auto && f ) { return f(cx,kv.get(),string_view("w")); },find(m,k),which);
        if ( may_widen(find(m,k),which) ) widened(c,m.m[k],cx(k),which);
        break; }
      case 1: { VS ks = gen_keys(g,&m); c.log(w+"get_map any of "+show_keys(ks));
        map_getters(c,show_keys(ks),[&]( auto && f ) { return f(cx,ks,string_view("w")); },first(m,ks),which);
        if ( may_widen(first(m,ks),which) ) widened(c,*const_cast<MV*>(first(m,ks)),cx(ks),which);
        break; }
      default: { // nested
        MV const * f = &m; VS ks; int d = g.range(1,3);
        for ( int i = 0; i < d; ++i ) { std::string k = gen_key(g,f); ks.push_back(k); f = f ? find(*f,k) : nullptr; }
        c.log(w+"get_map path "+show_keys(ks));
        map_getters(c," path "+show_keys(ks),[&]( auto && F ) {
          switch ( ks.size() ) { case 1: { IL l{ks[0]}; return F(cx,l); } case 2: { IL l{ks[0],ks[1]}; return F(cx,l); } default: { IL l{ks[0],ks[1],ks[2]}; return F(cx,l); } } },f,which);
      } }
      break; }
    case 8: { // read access through [] creates the key
      if ( m.k != K::Map ) break;
      std::string k = gen_key(g,&m); View kv(g,k); c.log(w+"touch "+quote(k)); c.label("touch");
      GC & e = x[kv.get()]; MV & me = m.m[k];
      std::string d = diff(me,read_checked(e,"touch")); c.check( d.empty(), w+"["+quote(k)+"]: "+d );
      break; }
    default: { c.log(w+"clear"); bool cl = g.coin(); if ( cl ) { x.clear(); m = MV(); } else { x.set_map(); if ( m.k != K::Map ) m = MV(K::Map); } }
    }
    std::string d = diff(top,read_checked(gc,"after a step"));
    c.check( d.empty(), d );
  }
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C13"; p.one = one;
  p.rule = "histories of up to 10 keyed operations (store, erase, touch, lookups by one key, alternative keys or path, typed lookups, conditional lookups, key listing, merge also with a part of itself) at random places of a random tree, with keys that are empty, contain NUL, prefix one another or are given as views into longer text, against a nested std::map model checked in full after every step. Non-trivial: some operation met a map with more than one key.";
  return pt_main(argc,argv,p);
}
