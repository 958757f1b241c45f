// C22: containers of different threads are independent, and one container may be read by many threads at once.
// Built with ThreadSanitizer: a pair of unordered accesses to the same memory is reported whatever the schedule was.
#include "ops.hh"
#include "views.hh"
#include "quiet.hh"
#include "GenericContainer/GenericContainerInterface_yaml.hh"
#include "GenericContainer/GenericContainerInterface_toml.hh"
#include <atomic>
#include <thread>
#include <new>
#include <cstdlib>
static void * take( std::size_t n ) { if ( n < (std::size_t(1)<<26) ) if ( void * p = std::malloc(n ? n : 1) ) return p; throw std::bad_alloc(); }
void * operator new( std::size_t n ) { return take(n); }
void * operator new[]( std::size_t n ) { return take(n); }
void operator delete( void * p ) noexcept { std::free(p); }
void operator delete[]( void * p ) noexcept { std::free(p); }
void operator delete( void * p, std::size_t ) noexcept { std::free(p); }
void operator delete[]( void * p, std::size_t ) noexcept { std::free(p); }

extern "C" {
int __tsan_get_report_data( void * report, char const ** description, int * count, int * stack_count, int * mop_count, int * loc_count, int * mutex_count, int * thread_count, int * unique_tid_count, void ** sleep_trace, unsigned long trace_size );
int __tsan_get_report_mop( void * report, unsigned long idx, int * tid, void ** addr, int * size, int * write, int * atomic, void ** trace, unsigned long trace_size );
void __sanitizer_symbolize_pc( void * pc, char const * fmt, char * out, size_t n );
char const * __tsan_default_options() { return "halt_on_error=0:exitcode=0:suppress_equal_stacks=0:suppress_equal_addresses=0:report_thread_leaks=0:report_signal_unsafe=0:report_destroy_locked=0:history_size=3:log_path=/dev/null"; }
}
static std::atomic<int> g_races{0};
static char g_race[4096];
extern "C" void __tsan_on_report( void * rep ) {
  if ( g_races.fetch_add(1) ) return;
  char const * d = ""; int n[7] = {}; void * sl[1];
  __tsan_get_report_data(rep,&d,&n[0],&n[1],&n[2],&n[3],&n[4],&n[5],&n[6],sl,1);
  size_t at = size_t(snprintf(g_race,sizeof g_race,"%s",d));
  for ( int i = 0; i < n[2] && i < 2; ++i ) {
    int tid, size, write, atomic; void * addr; void * tr[12] = {};
    __tsan_get_report_mop(rep,(unsigned long)i,&tid,&addr,&size,&write,&atomic,tr,12);
    at += size_t(snprintf(g_race+at,sizeof g_race-at,"; %s in",write ? "write" : "read"));
    int shown = 0;
    for ( int k = 0; k < 12 && tr[k] && shown < 6; ++k ) { char f[300]; __sanitizer_symbolize_pc(tr[k],"%f",f,sizeof f); if ( at < sizeof g_race-400 ) at += size_t(snprintf(g_race+at,sizeof g_race-at," < %.110s",f)); ++shown; }
  }
}

namespace pt {
// looks at a container that others may be looking at too; everything seen goes into the account
static std::string look( Src & g, GC const & x, std::string const & name ) {
  std::ostringstream s;
  switch ( g.below(16) ) {
  case 0: return "read "+show(read(x));
  case 1: x.print(s); return "print "+s.str();
  case 2: x.info(s); return "info "+s.str();
  case 3: x.dump(s); return "dump "+s.str();
  case 4: x.print_content_types(s); return "types "+s.str();
  case 5: x.to_json(s); return "json "+s.str();
  case 6: x.to_yaml(s); return "yaml "+s.str();
  case 7: { bool ok = x.to_toml(s); return "toml "+std::to_string(ok)+s.str(); }
  case 8: { std::vector<uint8_t> b; x.serialize(b); return "serialize "+std::string(b.begin(),b.end()); }
  case 9: { GC t(x); return "copy "+show(read(t)); }
  case 10: { MV m = read(x); MV n = mutate(g,m,GenOpt()); GC t; build(t,n); return "compare "+t.compare_content(x,"")+" "+x.compare_content(t,""); }
  case 11: { GC t; x.to_gc(t); t.collapse(); return "collapse "+show(read(t)); }
  case 12: { x.write_formatted_data(s,'\t'); return "table "+s.str(); }
  case 13: { MV m = read(x); Ctx c; views_const(c,x,m); return "views "+std::to_string(c.evals); }
  case 14: { std::string r = x.get_keys(); int i = -1; double d = -1; bool b = false; std::string t;
    static char const * const ks[] = { "a", "b", "key", "" };
    for ( auto k : ks ) { r += x.exists(k) ? "y" : "n"; r += x.get_if_exists(k,i) ? "y" : "n"; r += x.get_if_exists(k,d) ? "y" : "n"; r += x.get_if_exists(k,b) ? "y" : "n"; r += x.get_if_exists(k,t) ? "y" : "n"; }
    return "keys "+r+std::to_string(i)+fmt_double(d)+t; }
  default: { std::string r; std::vector<double> v; std::vector<cplx> w; std::vector<std::string> u; std::vector<int32_t> vi;
    switch ( g.below(6) ) { case 0: x.copyto_vec_real(v); break; case 1: x.copyto_vec_complex(w); break; case 2: x.copyto_vec_string(u); break; case 3: x.copyto_vec_int(vi); break; case 4: r = fmt_double(x.get_number()); break; default: r = std::to_string(x.get_as_int()); }
    for ( auto e : v ) r += fmt_double(e)+","; for ( auto e : w ) r += fmt_double(e.real())+","; for ( auto const & e : u ) r += e+","; for ( auto e : vi ) r += std::to_string(e)+",";
    return "convert "+r; }
  }
}
static std::string text( Src & g ) {
  GenOpt o; o.max_depth = 2; o.max_len = 4; o.big = 0; o.str = o.key = GenOpt::Str::Text; o.without({K::Ptr,K::VPtr});
  GC t, u; build(t,gen(g,o)); std::string s, r = "text ";
  switch ( g.below(4) ) {
  case 0: GC_namespace::GC_to_JSON(t,s); s = damage(g,s); r += std::to_string(GC_namespace::JSON_to_GC(s,u)); break;
  case 1: GC_namespace::GC_to_YAML(t,s); s = damage(g,s); r += std::to_string(GC_namespace::YAML_to_GC(s,u)); break;
  case 2: GC_namespace::GC_to_TOML(t,s); s = damage(g,s); r += std::to_string(GC_namespace::TOML_to_GC(s,u)); break;
  default: { std::istringstream i(damage(g,g.coin() ? "#! p = 3\n#! q = some text\na b\n1 2\n3 4\n# c\n5 6\n" : "a b\n1 2\n3 4\n# c\n5 6\n")); if ( g.coin() ) u.read_formatted_data(i); else { GC p; u.read_formatted_data2(i,"#"," \t",&p); r += show(read(p)); } } }
  return r+s+" -> "+show(read(u));
}
// what one thread does, with its own two containers and the shared one
static std::string body( Src & g, GC const & shared ) {
  std::string out; GC x, y; GenOpt o; o.max_depth = 2; o.max_len = 4; o.big = 0;
  int steps = g.range(1,8);
  for ( int i = 0; i < steps; ++i ) {
    try {
      switch ( g.below(8) ) {
      case 0: case 1: out += step(g,g.coin() ? x : y,g.coin() ? x : y,true); break;
      case 2: build_varied(g,x,gen(g,o)); out += "store"; break;
      case 3: case 4: { MV m = read(shared); Path p = gen_path(g,m); GC const * n = &shared; for ( auto const & s : p ) n = s.key ? &(*n)(s.k) : &(*n)(s.i); out += show(p)+" "+look(g,*n,"shared"); break; }
      case 5: out += look(g,x,"own"); break;
      case 6: out += text(g); break;
      default: x = shared; out += "copy of the shared one"; }
    } catch ( std::exception const & e ) { out += std::string("refused: ")+e.what(); }
    MV a = read(x), b = read(y); if ( nodes(a)+nodes(b) > 300 ) { x.clear(); y.clear(); }
    out += "\n x = "+show(a)+"\n y = "+show(b)+"\n";
  }
  return out;
}
static void one( Src & g, Ctx & c ) {
  GenOpt o; o.max_depth = 3; o.max_len = 4; o.big = 600; o.big_len = 200; o.big_depth = 30; o.huge = 0;
  MV m;
  if ( g.chance(2,3) ) { // several entries, some with the keys that print() shows as titles
    m.k = K::Map; int n = g.range(1,5); static char const * const ks[] = { "a", "b", "key", "1#-title", "2##=another title", "3##_x", "data", "headers" };
    for ( int i = 0; i < n; ++i ) m.m[g.pick(ks)] = gen(g,o,1);
  } else m = gen(g,o);
  GC shared; build_varied(g,shared,m); m = read(shared);
  int const N = g.range(2,4); std::vector<std::vector<uint64_t>> tape; 
  bool same_prog = g.coin(); // threads that all do the same thing meet everywhere
  std::vector<std::string> alone;
  for ( int i = 0; i < N; ++i ) {
    if ( i && same_prog ) { Src r(tape[0]); tape.push_back(tape[0]); alone.push_back(body(r,shared)); c.check( alone[0] == alone.back(), "the same program gives another result the second time:\n"+alone[0].substr(0,3000)+"\nthen:\n"+alone.back().substr(0,3000) ); continue; }
    size_t at = g.rec.size(); alone.push_back(body(g,shared)); tape.emplace_back(g.rec.begin()+long(at),g.rec.end());
  }
  for ( int i = 0; i < N; ++i ) c.log("thread "+std::to_string(i)+": "+alone[size_t(i)].substr(0,1500));
  c.log("shared = "+show(m).substr(0,1500));
  g_races = 0;
  std::vector<std::string> res( static_cast<size_t>(N) ); std::vector<std::thread> th; std::atomic<int> ready{0};
  for ( int i = 0; i < N; ++i ) th.emplace_back([&,i]{ // relaxed: the start must not order the threads' work
    ready.fetch_add(1,std::memory_order_relaxed); while ( ready.load(std::memory_order_relaxed) < N ) std::this_thread::yield();
    try { Src r(tape[size_t(i)]); res[size_t(i)] = body(r,shared); } catch ( Fail const & f ) { res[size_t(i)] = "FAIL "+f.msg; } });
  for ( auto & t : th ) t.join();
  c.check( g_races == 0, std::string("two threads touch the same memory: ")+g_race );
  for ( int i = 0; i < N; ++i ) c.check( res[size_t(i)] == alone[size_t(i)], "thread "+std::to_string(i)+" saw something else than when it ran alone:\n"+res[size_t(i)].substr(0,3000)+"\nalone:\n"+alone[size_t(i)].substr(0,3000) );
  c.check( same(read(shared),m), "the container the threads only looked at changed: "+diff(m,read(shared)) );
  c.label(same_prog ? "same program" : "different programs"); c.label(std::to_string(N)+" threads");
  c.nontrivial = nodes(m) > 1;
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C22"; p.one = one; p.init = quiet;
  p.rule = "2 to 4 threads, each with a generated program of up to 8 steps: operations from the whole interface on its own containers (as in C18), reading and writing JSON, YAML, TOML and tables, and looking at any node of one shared container through the const interface (accessors, printing, all output formats, serializing, copying, comparing, converting, lookups); half of the cases give all threads the same program. The programs are first run one after another, then at once under ThreadSanitizer, which reports any two unordered accesses to the same memory, one of them a write, whatever the actual schedule. Oracle: no report, every thread's complete account (results, texts, exceptions, contents) equals the one it gave alone, the shared container is unchanged. Non-trivial: the shared container has more than one node.";
  return pt_main(argc,argv,p);
}
