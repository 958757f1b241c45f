// C15: tables of numbers are written and read without losing, repeating, moving or inventing a number.
#include "model.hh"
#include "quiet.hh"
#include <fstream>
#include <sstream>
#include <unistd.h>
namespace pt {
static std::string word( Src & g, bool first, std::string const & avoid ) { // a header: no delimiter, no blank; the first one does not look like a comment
  static char const * const parts[] = { "a","x1","T","v_max","#","%","#2","50%","-","1.5","=","!","Position","very_long_header_name_of_a_column","\xc3\xa9","(m/s)","\"q\"" };
  std::string s; int n = g.range(1,2); for ( int i = 0; i < n; ++i ) for ( char c : std::string(g.pick(parts)) ) if ( avoid.find(c) == std::string::npos ) s += c;
  if ( s.empty() || ( first && ( s[0] == '#' || s[0] == '%' ) ) ) s = "h"+s;
  return s;
}
static std::vector<std::string> headers( Src & g, int n, std::string const & avoid ) {
  std::vector<std::string> h; for ( int i = 0; i < n; ++i ) { std::string s = word(g,i == 0,avoid); for ( auto const & x : h ) if ( x == s ) { s += std::to_string(i); break; } for ( auto const & x : h ) if ( x == s ) { s += "_"; s += std::to_string(i); } h.push_back(s); } 
  for ( size_t i = 0; i < h.size(); ++i ) for ( size_t j = 0; j < i; ++j ) if ( h[i] == h[j] ) h[i] = "c"+std::to_string(i)+h[i]+std::to_string(i);
  return h;
}
static std::vector<std::string> split( std::string const & s, char d ) { std::vector<std::string> r(1); for ( char c : s ) if ( c == d ) r.emplace_back(); else r.back() += c; return r; }
static std::vector<std::string> words( std::string const & s ) { std::istringstream i(s); std::vector<std::string> r; std::string w; while ( i >> w ) r.push_back(w); return r; }
static std::vector<std::string> lines( std::string const & s ) { auto r = split(s,'\n'); if ( !r.empty() && r.back().empty() ) r.pop_back(); return r; }
static bool num_is( std::string const & t, double v, std::ios const & f ) { // t is v in that format
  char * e = nullptr; double x = strtod(t.c_str(),&e); if ( t.empty() || *e ) return false;
  if ( std::isnan(v) ) return std::isnan(x);
  std::ostringstream o; o.precision(f.precision()); o.flags(f.flags()); o << v; double y = strtod(o.str().c_str(),nullptr);
  return x == y;
}
using Cols = std::vector<std::vector<double>>;
static void check_back( Ctx & c, GC const & gc, std::vector<std::string> const & h, Cols const & d, bool by_name, char const * who ) {
  std::string w = who; MV m = read_checked(gc,who);
  c.check( m.k == K::Map && m.m.count("headers") && m.m.count("data"), w+" does not give a map with headers and data" );
  MV const & hh = m.m.at("headers"); MV const & dd = m.m.at("data");
  c.check( hh.k == K::VStr && hh.vs == h, w+": headers "+show(hh) );
  auto col = [&]( MV const & x, size_t i ) { MV e(K::VReal); e.vr = d[i]; std::string df = diff(e,x); c.check( df.empty(), w+": column "+std::to_string(i)+" "+quote(h[i])+": "+df ); };
  if ( by_name ) {
    c.check( dd.k == K::Map && dd.m.size() == h.size(), w+": data is not a map of the columns: "+show(dd) );
    for ( size_t i = 0; i < h.size(); ++i ) { auto it = dd.m.find(h[i]); c.check( it != dd.m.end(), w+": no column "+quote(h[i]) ); col(it->second,i); }
  } else {
    c.check( dd.k == K::Vec && dd.v.size() == h.size(), w+": data is not a list of the columns: "+show(dd) );
    for ( size_t i = 0; i < h.size(); ++i ) col(dd.v[i],i);
  }
}
static void used( Src & g, GC & gc ) { // what the container held before
  switch ( g.below(5) ) {
  case 0: gc = 3; break;
  case 1: { std::istringstream is("p q\n1 2\n3 4\n"); gc.read_formatted_data(is); break; }
  case 2: { std::istringstream is("a x1\n1 2\n3 4\n"); gc.read_formatted_data2(is); break; }
  case 3: gc["data"].set_vec_int(3); gc["headers"].set_vec_string(9); break;
  default: break;
  }
}
static void reader( Src & g, Ctx & c ) {
  static char const * const ds[] = { " \t", "\t", ",", ";", " ,", " " }; std::string del = g.pick(ds);
  // lines that end in CR LF: the CR is a delimiter, or it follows one
  int crlf = g.chance(1,8) ? g.range(1,2) : 0; if ( crlf == 1 ) del += '\r';
  static char const * const cs[] = { "#%", "#", "%", "!", "#" }; std::string com = g.pick(cs);
  int ncol = g.few(1,5,25), nrow = g.few(0,6,150); GenOpt o; o.nonfinite = true;
  auto h = headers(g,ncol,del+"!"); 
  if ( com.find(h[0][0]) != std::string::npos ) h[0] = "h"+h[0];
  for ( int i = 1; i < ncol; ++i ) if ( h[size_t(i)] == h[0] ) h[size_t(i)] += "z";
  Cols d((size_t(ncol))); std::string t; std::map<std::string,MV> pars;
  bool p2 = g.coin(), want_pars = p2 && g.coin() && !crlf; if ( crlf ) c.label("CR LF");
  std::string const nl = crlf ? "\r\n" : "\n";
  size_t const nd = crlf == 1 ? del.size()-1 : del.size();
  auto sep = [&]() { std::string s; do s += del[g.below(nd)]; while ( g.chance(1,6) ); return s; };
  auto comment = [&]() {
    for ( int run = g.chance(1,300) ? g.range(20,300) : 0; run > 0 || g.chance(1,5); --run ) {
      std::string lead = g.chance(1,6) ? ( g.coin() ? "  " : g.coin() && com != "!" ? "\t" : " \t " ) : "";
      if ( want_pars && lead.empty() && g.coin() ) {
        static char const * const keys[] = { "n","solver type","x","max_iter","a.b","CPU","dt [s]","T:max","50%","a#b","k;1","x,y","!q","-" };
        std::string k = g.pick(keys), sp1(g.below(3),' '), sp2(g.below(3),' '), sp3(g.below(3),' ');
        MV v; std::string txt;
        if ( g.coin() ) { GenOpt f; double x = gen_double(g,f); if ( !std::isfinite(x) ) x = 1; char b[64]; snprintf(b,sizeof b,"%.17g",x); txt = b; v = MV::Real(x); }
        else { static char const * const w[] = { "YES","CyclicReduction+LU","two words","a, b # c","-","'q'","_1","a:b","C:\\dir\\f","x;y","%d","!","\xc3\xa9" }; txt = g.pick(w); v = MV::Str(txt); }
        t += com[g.below(com.size())]; t += "!"; t += sp1+k+sp2+"="+sp3+txt+( g.chance(1,6) ? "  " : "" )+"\n"; pars[k] = v; c.label("parameter");
      } else { static char const * const w[] = { "",""," a comment","1 2","=","---",",","!","!x","! no value","!=","!=3","!a=" }; t += lead+com[g.below(com.size())]+g.pick(w)+nl; }
      c.label("comment");
    }
  };
  comment();
  for ( int i = 0; i < ncol; ++i ) { if ( i ) t += sep(); t += h[size_t(i)]; }
  if ( crlf == 2 ) t += sep();
  bool wrong = g.chance(1,10) && nrow > 0; int wrow = wrong ? g.range(0,nrow-1) : -1, wn = ncol;
  if ( wrong ) { wn = g.range(1,ncol+2); if ( wn == ncol ) wn = ncol+1; }
  for ( int r = 0; r < nrow; ++r ) {
    t += nl; comment();
    if ( g.chance(1,12) ) t += sep();
    int nc = r == wrow ? wn : ncol;
    for ( int i = 0; i < nc; ++i ) {
      if ( i ) t += sep();
      double v = gen_double(g,o); char b[64];
      switch ( g.below(4) ) { case 0: v = double(g.range(-9,99)); snprintf(b,sizeof b,"%d",int(v)); break; case 1: snprintf(b,sizeof b,"%.16e",v); v = strtod(b,nullptr); break; case 2: snprintf(b,sizeof b,"%+.4g",v); v = strtod(b,nullptr); break; default: snprintf(b,sizeof b,"%.17g",v); }
      std::string s = b; if ( del.find_first_of(",") != std::string::npos ) {} t += s;
      if ( i < ncol && !wrong ) d[size_t(i)].push_back(v);
    }
    if ( crlf == 2 || g.chance(1,12) ) t += sep();
  }
  if ( !g.chance(1,3) ) { t += nl; comment(); if ( g.chance(1,4) ) t += nl; if ( g.chance(1,8) ) t += nl; } else c.label("no final newline");
  c.log("delimiters "+quote(del)+" comments "+quote(com)+(p2 ? " by name" : " by position")); c.log("text\n"+t);
  c.nontrivial = nrow > 0; c.label(p2 ? "read by name" : "read by position");
  GC gc, pp; used(g,gc); if ( want_pars && g.coin() ) pp["older"] = 7;
  bool file = g.chance(1,16), old = g.chance(1,16), threw = false; std::string msg;
  try {
    if ( file ) {
      c.label("file"); std::string fn = "table_"+std::to_string(getpid())+".txt";
      { std::ofstream f(fn); f << t; }
      try { GC & r = old ? ( p2 ? gc.readFormattedData2(fn.c_str(),com.c_str(),del.c_str(),want_pars ? &pp : nullptr) : gc.readFormattedData(fn.c_str(),com.c_str(),del.c_str()) ) : p2 ? gc.read_formatted_data2(fn.c_str(),com.c_str(),del.c_str(),want_pars ? &pp : nullptr) : gc.read_formatted_data(fn.c_str(),com.c_str(),del.c_str()); c.check( &r == &gc, "returns another container" ); } catch (...) { unlink(fn.c_str()); throw; }
      unlink(fn.c_str());
    } else {
      std::istringstream is(t);
      bool const dflt = del == " \t" && com == "#%";
      if ( old ) { if ( p2 ) gc.readFormattedData2(is,com.c_str(),del.c_str(),want_pars ? &pp : nullptr); else gc.readFormattedData(is,com.c_str(),del.c_str()); }
      else if ( p2 ) { if ( dflt && !want_pars ) gc.read_formatted_data2(is); else gc.read_formatted_data2(is,com.c_str(),del.c_str(),want_pars ? &pp : nullptr); }
      else { if ( dflt ) gc.read_formatted_data(is); else gc.read_formatted_data(is,com.c_str(),del.c_str()); }
    }
  } catch ( std::exception const & e ) { threw = true; msg = e.what(); }
  if ( wrong ) { c.label("wrong row"); c.check( threw, "a row of "+std::to_string(wn)+" values under "+std::to_string(ncol)+" headers is accepted" ); return; }
  c.check( !threw, "reading a valid table throws "+msg );
  check_back(c,gc,h,d,p2,p2 ? "read_formatted_data2" : "read_formatted_data");
  if ( want_pars ) {
    MV m = read_checked(pp,"parameters");
    for ( auto const & x : pars ) { auto it = m.m.find(x.first); c.check( m.k == K::Map && it != m.m.end(), "parameter "+quote(x.first)+" not found" ); std::string df = diff(x.second,it->second); c.check( df.empty(), "parameter "+quote(x.first)+": "+df ); }
    size_t extra = m.k == K::Map ? m.m.size() : 0; c.check( extra <= pars.size()+1, "invented parameters: "+show(m) );
  }
}
static void writer( Src & g, Ctx & c ) {
  static char const dl[] = { '\t','\t',' ',',',';','|',':' }; char del = dl[g.below(7)];
  int ncol = g.chance(1,20) ? 0 : g.few(1,5,25), nrow = g.few(0,6,150); GenOpt o; o.nonfinite = true;
  bool mat = g.coin();
  auto h = headers(g,ncol,std::string(1,del)); Cols d((size_t(ncol)));
  MV data( mat ? K::MReal : K::Vec ); data.nr = unsigned(nrow); data.nc = unsigned(ncol);
  for ( int i = 0; i < ncol; ++i ) {
    static K const ks[] = { K::VReal, K::VReal, K::VInt, K::VBool, K::VLong }; K k = mat ? K::VReal : g.pick(ks); MV col(k);
    for ( int r = 0; r < nrow; ++r ) {
      double v = 0;
      switch ( k ) { case K::VReal: v = gen_double(g,o); col.vr.push_back(v); break; case K::VInt: { int x = gen_i32(g); col.vi.push_back(x); v = x; break; }
        case K::VBool: { bool x = g.coin(); col.vb.push_back(x); v = x; break; } default: { int64_t x = gen_i64(g); if ( x > (1LL<<53) || x < -(1LL<<53) ) x >>= 11; col.vl.push_back(x); v = double(x); } }
      d[size_t(i)].push_back(v);
      if ( mat ) data.vr.push_back(v);
    }
    if ( !mat ) data.v.push_back(col);
  }
  static int const ps[] = { 17, 17, 17, 6, 3, 10 }; int prec = g.pick(ps);
  std::ios::fmtflags const ff = g.chance(3,4) ? std::ios::fmtflags() : g.coin() ? std::ios::scientific : g.coin() ? std::ios::scientific|std::ios::showpos|std::ios::uppercase : std::ios::fixed|std::ios::hex|std::ios::boolalpha;
  MV a(K::Map), hv(K::VStr); hv.vs = h; a.m["headers"] = hv; a.m["data"] = data; if ( g.coin() ) a.m["other"] = MV::Int(1);
  c.log("table "+show(a)+" delimiter "+quote(std::string(1,del))+" precision "+std::to_string(prec)); c.nontrivial = ncol > 0 && nrow > 0; c.label(mat ? "write matrix" : "write columns");
  if ( g.chance(1,12) ) { // headers and columns that do not match: refused or written, never out of bounds
    size_t n = g.below(h.size()+3); if ( g.coin() ) a.m["headers"].vs.resize(n);
    else if ( !mat && !d.empty() ) { // columns of different lengths
      size_t q = g.below(d.size()); MV col(K::VReal); size_t len = g.below(size_t(nrow)+3); for ( size_t i = 0; i < len; ++i ) col.vr.push_back(double(i)); a.m["data"].v[q] = col; c.label("columns of different lengths");
    }
    GC gc; build(gc,a); c.label("mismatch"); std::ostringstream os, o2;
    try { gc.write_formatted_data(os,del); } catch ( std::exception const & ) {}
    try { if ( mat ) write_table_formatted(a.m["headers"].vs,gc["data"].get_mat_real(),o2); else write_table_formatted(a.m["headers"].vs,gc["data"].get_vector(),o2); } catch ( std::exception const & ) {}
    return;
  }
  GC gc; build(gc,a);
  for ( int way = 0; way < 2; ++way ) {
    std::ostringstream os; os.precision(prec); if ( ff ) os.flags(ff); auto fl = os.flags(); char const * who = way ? "write_table" : "write_formatted_data";
    try {
      if ( !way ) { if ( g.chance(1,8) ) gc.writeFormattedData(os,del); else if ( del == '\t' && g.coin() ) gc.write_formatted_data(os); else gc.write_formatted_data(os,del); }
      else if ( g.chance(1,8) ) { if ( mat ) writeTable(h,gc["data"].get_mat_real(),os,del); else writeTable(h,gc["data"].get_vector(),os,del); }
      else if ( mat ) write_table(h,gc["data"].get_mat_real(),os,del); else write_table(h,gc["data"].get_vector(),os,del);
    } catch ( std::exception const & e ) { if ( ncol == 0 ) continue; fail(std::string(who)+" throws "+e.what()); }
    c.check( os.flags() == fl && os.precision() == prec, std::string(who)+" changed the stream flags" );
    c.check( same(a,read_checked(gc,who)), std::string(who)+" changed the container" );
    if ( ncol == 0 ) continue;
    std::string t = os.str(); c.log("text\n"+t.substr(0,600)); auto L = lines(t);
    c.check( L.size() == size_t(nrow)+1, std::string(who)+" writes "+std::to_string(L.size())+" lines" );
    c.check( split(L[0],del) == h, std::string(who)+" header line "+quote(L[0]) );
    for ( int r = 0; r < nrow; ++r ) {
      auto w = split(L[size_t(r)+1],del); c.check( w.size() == size_t(ncol), std::string(who)+" row "+quote(L[size_t(r)+1]) );
      for ( int i = 0; i < ncol; ++i ) c.check( num_is(w[size_t(i)],d[size_t(i)][size_t(r)],os), std::string(who)+" row "+std::to_string(r)+" column "+std::to_string(i)+" is "+quote(w[size_t(i)]) );
    }
    if ( prec == 17 && !( ff & std::ios::fixed ) && h[0][0] != '#' ) { // and read back
      std::string dd(1,del); std::istringstream i1(t), i2(t); GC b1, b2;
      try { used(g,b1); b1.read_formatted_data(i1,"#",dd.c_str()); used(g,b2); b2.read_formatted_data2(i2,"#",dd.c_str()); } catch ( std::exception const & e ) { fail(std::string("reading back what ")+who+" wrote throws "+e.what()); }
      check_back(c,b1,h,d,false,"read_formatted_data of the written table"); check_back(c,b2,h,d,true,"read_formatted_data2 of the written table"); c.label("read back");
    }
  }
  std::ostringstream os; os.precision(prec); if ( ff ) os.flags(ff); auto fl = os.flags();
  try { if ( g.chance(1,8) ) { if ( mat ) writeTableFormatted(h,gc["data"].get_mat_real(),os); else writeTableFormatted(h,gc["data"].get_vector(),os); } else if ( mat ) write_table_formatted(h,gc["data"].get_mat_real(),os); else write_table_formatted(h,gc["data"].get_vector(),os); } catch ( std::exception const & e ) { if ( ncol == 0 ) return; fail(std::string("write_table_formatted throws ")+e.what()); }
  c.check( os.flags() == fl && os.precision() == prec, "write_table_formatted changed the stream flags" );
  if ( ncol == 0 ) return;
  auto L = lines(os.str()); c.log("formatted\n"+os.str().substr(0,600));
  c.check( L.size() == size_t(nrow)+3, "write_table_formatted writes "+std::to_string(L.size())+" lines" );
  auto rule = []( std::string const & s ) { return !s.empty() && s.find_first_not_of('-') == std::string::npos; };
  c.check( rule(L[1]) && rule(L.back()), "write_table_formatted: no rules around the rows" );
  c.check( words(L[0]) == h, "write_table_formatted header line "+quote(L[0]) );
  for ( int r = 0; r < nrow; ++r ) {
    auto w = words(L[size_t(r)+2]); c.check( w.size() == size_t(ncol), "write_table_formatted row "+quote(L[size_t(r)+2]) );
    for ( int i = 0; i < ncol; ++i ) c.check( num_is(w[size_t(i)],d[size_t(i)][size_t(r)],os), "write_table_formatted row "+std::to_string(r)+" column "+std::to_string(i)+" is "+quote(w[size_t(i)]) );
  }
}
static void one( Src & g, Ctx & c ) {
  if ( g.chance(1,2) ) reader(g,c);
  else writer(g,c);
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C15"; p.one = one; p.init = quiet;
  p.rule = "half of the cases: random tables emitted as text (random delimiters and comment characters, comment lines and parameters anywhere, comment characters inside headers, with and without final newline, rows of the wrong length) read by position and by name, from a stream or a file, into empty and used containers; half: random tables (columns of bool, int, long, real or a real matrix, no rows, no columns, headers and columns that do not match) written in the three formats, parsed independently and read back. Non-trivial: at least one row and one column.";
  return pt_main(argc,argv,p);
}
