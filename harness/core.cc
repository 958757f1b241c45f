#include "core.hh"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <unordered_set>
#include <iostream>

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

namespace pt {

static uint64_t splitmix( uint64_t & x ) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static inline uint64_t rotl( uint64_t x, int k ) { return (x<<k)|(x>>(64-k)); }

Src::Src( uint64_t seed ) : m_random(true) { for ( auto & s : m_s ) s = splitmix(seed); }

uint64_t Src::raw() {
  uint64_t const result = rotl(m_s[1]*5,7)*9, t = m_s[1]<<17;
  m_s[2]^=m_s[0]; m_s[3]^=m_s[1]; m_s[1]^=m_s[2]; m_s[0]^=m_s[3]; m_s[2]^=t; m_s[3]=rotl(m_s[3],45);
  return result;
}
uint64_t Src::below( uint64_t n ) {
  if ( n <= 1 ) return 0;
  uint64_t v;
  if ( m_random ) v = raw() % n;
  else { v = m_pos < m_in.size() ? m_in[m_pos] : 0; ++m_pos; if ( v >= n ) v = n-1; }
  rec.push_back(v);
  return v;
}
uint64_t Src::u64() {
  uint64_t v;
  if ( m_random ) v = raw();
  else { v = m_pos < m_in.size() ? m_in[m_pos] : 0; ++m_pos; }
  rec.push_back(v);
  return v;
}
size_t Src::weighted( std::initializer_list<unsigned> w ) {
  uint64_t tot = 0; for ( auto x : w ) tot += x;
  uint64_t r = below(tot); size_t i = 0;
  for ( auto x : w ) { if ( r < x ) return i; r -= x; ++i; }
  return w.size()-1;
}

std::string quote( std::string const & s ) {
  std::string o = "\"";
  char b[8];
  for ( unsigned char c : s ) {
    if ( c == '"' || c == '\\' ) { o += '\\'; o += char(c); }
    else if ( c < 32 || c >= 127 ) { snprintf(b,sizeof b,"\\x%02x",c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}
std::string fmt_double( double d ) { char b[64]; snprintf(b,sizeof b,"%.17g",d); return b; }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return double(t.tv_sec)+double(t.tv_nsec)*1e-9; }

static std::string jstr( std::string const & s ) {
  std::string o = "\""; char b[8];
  for ( unsigned char c : s ) {
    if ( c == '"' || c == '\\' ) { o += '\\'; o += char(c); }
    else if ( c == '\n' ) o += "\\n";
    else if ( c < 32 || c >= 127 ) { snprintf(b,sizeof b,"\\u%04x",c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}

struct Shared {
  volatile uint64_t idx;
  volatile uint64_t done;
  volatile int      failed;
  char              msg[4096];
  char              trace[16384];
};

static Shared * g_live = nullptr; // when set, the account of the case survives a crash
void Ctx::log( std::string const & s ) {
  if ( trace.size() < 60000 ) { trace += s; trace += '\n'; if ( g_live ) snprintf(g_live->trace,sizeof g_live->trace,"%s",trace.c_str()); }
}

extern "C" void __gcov_dump( void ) __attribute__((weak));
static void on_prof( int ) { _exit(99); }
static void arm( double s ) {
  itimerval it{}; it.it_value.tv_sec = long(s); it.it_value.tv_usec = long((s-double(long(s)))*1e6);
  setitimer(ITIMER_PROF,&it,nullptr);
}

enum { RC_OK = 0, RC_FAIL = 77, RC_HANG = 99 };

// Runs one case in this process; returns true when it held.
static bool run_case( Property const & p, Src & g, Ctx & c, std::string & msg ) {
  auto once = [&]( Src & gg, Ctx & cc ) -> bool {
    try { p.one(gg,cc); }
    catch ( Fail const & f ) { msg = f.msg; return false; }
    catch ( std::exception const & e ) { msg = std::string("exception left the code under test: ")+e.what(); return false; }
    catch ( ... ) { msg = "non-standard exception left the code under test"; return false; }
    return true;
  };
  if ( !p.leak_check || !&__sanitizer_get_current_allocated_bytes ) return once(g,c);
  // Leak check: first execution may fill caches, so a suspect is repeated and has to grow every time.
  size_t a; 
  { a = __sanitizer_get_current_allocated_bytes(); }
  if ( !once(g,c) ) return false;
  size_t own = g.rec.capacity()*8 + c.trace.capacity() + c.labels.capacity()*sizeof(std::string);
  for ( auto const & l : c.labels ) own += l.capacity();
  size_t b = __sanitizer_get_current_allocated_bytes();
  if ( b <= a + own ) return true;
  std::vector<uint64_t> rec = g.rec;
  size_t growths = 0; size_t last = 0;
  for ( int k = 0; k < 4; ++k ) {
    size_t x = __sanitizer_get_current_allocated_bytes(), y;
    { Src g2(rec); Ctx c2; if ( !once(g2,c2) ) return false; }
    y = __sanitizer_get_current_allocated_bytes();
    if ( y > x ) { ++growths; last = y-x; }
  }
  if ( growths == 4 ) { msg = "memory not released: each execution of this case leaves "+std::to_string(last)+" more bytes allocated"; return false; }
  return true;
}

struct Verdict { int rc; std::string msg, trace; };

static std::string g_tmp;

static std::string slurp( std::string const & f ) { std::ifstream i(f,std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }

static long rss_kb( pid_t pid ) {
  std::ifstream f("/proc/"+std::to_string(pid)+"/statm"); long a=0,b=0; f >> a >> b; return b*4;
}

static std::string describe( int st, std::string const & errfile, std::string const & msg ) {
  if ( WIFEXITED(st) && WEXITSTATUS(st) == RC_FAIL ) return msg;
  if ( WIFEXITED(st) && WEXITSTATUS(st) == RC_HANG ) return "the call does not return (CPU limit for one case exceeded)";
  std::string e = slurp(errfile), line;
  for ( char const * key : { "SUMMARY: ", "runtime error: ", "terminate called", "ERROR: " } ) {
    size_t q = e.find(key);
    if ( q != std::string::npos ) { line = e.substr(q,e.find('\n',q)-q); break; }
  }
  std::string r = WIFSIGNALED(st) ? "killed by signal "+std::to_string(WTERMSIG(st)) : "process exit status "+std::to_string(WEXITSTATUS(st));
  return "crash in the code under test ("+r+") "+line;
}

// Forks, runs body, waits; kills on memory blow-up.
static int supervised( std::function<int()> const & body, std::string const & errfile, double wall_limit ) {
  fflush(nullptr);
  pid_t pid = fork();
  if ( pid == 0 ) {
    int fd = open(errfile.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); dup2(fd,2);
    int nul = open("/dev/null",O_WRONLY); dup2(nul,1);
    signal(SIGPROF,on_prof);
    rlimit rl{0,0}; setrlimit(RLIMIT_CORE,&rl);
    int rc = body();
    if ( &__gcov_dump ) __gcov_dump(); // coverage builds only
    _exit(rc);
  }
  int st = 0; double t0 = now(); useconds_t nap = 200;
  for (;;) {
    pid_t r = waitpid(pid,&st,WNOHANG);
    if ( r == pid ) return st;
    if ( rss_kb(pid) > 3500L*1024 ) { kill(pid,SIGKILL); waitpid(pid,&st,0); return RC_HANG<<8; }
    if ( wall_limit > 0 && now()-t0 > wall_limit ) { kill(pid,SIGKILL); waitpid(pid,&st,0); return RC_HANG<<8; }
    usleep(nap); if ( nap < 20000 ) nap = nap*3/2;
  }
}

static Verdict replay_choices( Property const & p, Shared * sh, std::vector<uint64_t> const & in, std::vector<uint64_t> * used = nullptr ) {
  sh->msg[0] = sh->trace[0] = 0;
  std::string err = g_tmp+"/replay.err", recf = g_tmp+"/replay.rec";
  unlink(recf.c_str());
  int st = supervised( [&]{
    if ( p.init ) p.init();
    Src g(in); Ctx c; std::string msg; g_live = sh;
    arm(p.case_cpu_s);
    bool ok = run_case(p,g,c,msg);
    arm(0);
    snprintf(sh->msg,sizeof sh->msg,"%s",msg.c_str());
    snprintf(sh->trace,sizeof sh->trace,"%s",c.trace.c_str());
    if ( !ok ) { FILE * f = fopen(recf.c_str(),"wb"); if (f) { fwrite(g.rec.data(),8,g.rec.size(),f); fclose(f); } }
    return ok ? RC_OK : RC_FAIL;
  }, err, p.case_cpu_s*6+30 );
  Verdict v;
  v.rc = (WIFEXITED(st) && WEXITSTATUS(st)==0) ? 0 : 1;
  if ( v.rc ) {
    v.msg = describe(st,err,sh->msg); v.trace = sh->trace;
    if ( used ) {
      std::string b = slurp(recf);
      used->assign(b.size()/8,0);
      memcpy(used->data(),b.data(),used->size()*8);
    }
  }
  return v;
}

static std::vector<uint64_t> shrink( Property const & p, Shared * sh, std::vector<uint64_t> cur, double budget, unsigned & execs ) {
  double t0 = now();
  auto bad = [&]( std::vector<uint64_t> const & v ) {
    if ( now()-t0 > budget ) return false;
    ++execs;
    std::vector<uint64_t> used;
    if ( replay_choices(p,sh,v,&used).rc == 0 ) return false;
    if ( !used.empty() && used.size() < v.size() ) cur = used; else cur = v;
    return true;
  };
  bool progress = true;
  while ( progress && now()-t0 < budget ) {
    progress = false;
    for ( size_t len = std::max<size_t>(cur.size()/2,1); ; len /= 2 ) {          // delete blocks
      for ( size_t i = 0; i + len <= cur.size() && now()-t0 < budget; ) {
        std::vector<uint64_t> v = cur; v.erase(v.begin()+long(i),v.begin()+long(i+len));
        if ( bad(v) ) progress = true; else i += len;
      }
      if ( len <= 1 ) break;
    }
    for ( size_t len = std::max<size_t>(cur.size()/4,1); ; len /= 2 ) {          // zero blocks
      for ( size_t i = 0; i + len <= cur.size() && now()-t0 < budget; i += len ) {
        std::vector<uint64_t> v = cur; bool ch = false;
        for ( size_t k = i; k < i+len; ++k ) if ( v[k] ) { v[k] = 0; ch = true; }
        if ( ch && bad(v) ) progress = true;
      }
      if ( len <= 1 ) break;
    }
    for ( size_t i = 0; i < cur.size() && now()-t0 < budget; ++i ) {             // minimise values
      uint64_t lo = 0;
      while ( i < cur.size() && cur[i] > lo && now()-t0 < budget ) {
        std::vector<uint64_t> v = cur; v[i] = lo + (cur[i]-lo)/2;
        if ( v[i] == cur[i] ) break;
        if ( bad(v) ) progress = true; else lo = v[i]+1;
      }
    }
  }
  return cur;
}

static uint64_t case_seed( uint64_t seed, uint64_t shard, uint64_t idx ) {
  uint64_t x = seed*0x100000001b3ULL ^ (shard<<48) ^ (idx+1);
  splitmix(x); return splitmix(x);
}

static uint64_t hash_rec( std::vector<uint64_t> const & r ) {
  uint64_t h = 1469598103934665603ULL;
  for ( uint64_t x : r ) { h ^= x; h *= 1099511628211ULL; h ^= h>>29; }
  return h;
}

static int worker( Property const & p, Shared * sh, uint64_t seed, uint64_t shard, uint64_t from, uint64_t cases, double budget, std::string const & out ) {
  if ( p.init ) p.init();
  std::map<std::string,uint64_t> labels;
  std::unordered_set<uint64_t> distinct;
  uint64_t nontrivial = 0, evals = 0, n = 0;
  std::vector<std::string> samples;
  double t0 = now();
  for ( uint64_t i = from; i < cases; ++i ) {
    if ( now()-t0 > budget ) break;
    sh->idx = i;
    Src g(case_seed(seed,shard,i)); Ctx c; std::string msg;
    arm(p.case_cpu_s);
    bool ok = run_case(p,g,c,msg);
    arm(0);
    ++n; sh->done = n;
    if ( !ok ) {
      snprintf(sh->msg,sizeof sh->msg,"%s",msg.c_str());
      sh->failed = 1;
      return RC_FAIL;
    }
    evals += c.evals;
    for ( auto & l : c.labels ) ++labels[l];
    if ( c.nontrivial ) {
      ++nontrivial; distinct.insert(hash_rec(g.rec));
      if ( (samples.size() < 2 && n > 30) || (samples.size() < 4 && n > 500 && c.trace.size() > 200) )
        samples.push_back(c.trace.substr(0,1500));
    }
  }
  std::ofstream o(out);
  o << "{\"cases\":" << n << ",\"evals\":" << evals << ",\"nontrivial\":" << nontrivial << ",\"distinct\":" << distinct.size() << ",\"labels\":{";
  bool first = true;
  for ( auto & [k,v] : labels ) { o << (first?"":",") << jstr(k) << ':' << v; first = false; }
  o << "},\"samples\":["; first = true;
  for ( auto & s : samples ) { o << (first?"":",") << jstr(s); first = false; }
  o << "],\"rule\":" << jstr(p.rule) << "}\n";
  return RC_OK;
}

static void write_replay( std::string const & path, Property const & p, std::string const & kind, std::vector<uint64_t> const & ch, uint64_t seed, uint64_t shard, uint64_t upto, Verdict const & v ) {
  std::ofstream o(path);
  o << "property " << p.id << "\nkind " << kind << "\n";
  if ( kind == "choices" ) { o << "choices " << ch.size(); for ( auto x : ch ) o << ' ' << x; o << '\n'; }
  else o << "range " << seed << ' ' << shard << ' ' << upto << '\n';
  o << "# what failed: " << v.msg << "\n# the case:\n";
  std::istringstream is(v.trace); std::string l;
  while ( std::getline(is,l) ) o << "#   " << l << '\n';
}

int pt_main( int argc, char ** argv, Property const & p ) {
  std::map<std::string,std::string> a;
  for ( int i = 1; i+1 < argc; i += 2 ) a[argv[i]] = argv[i+1];
  char tmpl[] = "/tmp/pt_XXXXXX"; g_tmp = mkdtemp(tmpl);
  auto cleanup = [&]{ unlink((g_tmp+"/replay.err").c_str()); unlink((g_tmp+"/replay.rec").c_str()); unlink((g_tmp+"/w.err").c_str()); rmdir(g_tmp.c_str()); };
  Shared * sh = static_cast<Shared*>(mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0));
  if ( a.count("--info") ) {
    std::cout << "{\"id\":" << jstr(p.id) << ",\"rule\":" << jstr(p.rule) << ",\"quick\":" << p.quick_cases << ",\"thorough\":" << p.thorough_cases << "}\n";
    cleanup(); return 0;
  }
  if ( a.count("--replay") ) {
    std::ifstream f(a["--replay"]); std::string w, kind; std::vector<uint64_t> ch; uint64_t seed=0,shard=0,upto=0;
    std::string l;
    while ( std::getline(f,l) ) {
      std::istringstream is(l); is >> w;
      if ( w == "kind" ) is >> kind;
      else if ( w == "choices" ) { size_t n; is >> n; ch.resize(n); for ( auto & x : ch ) is >> x; }
      else if ( w == "range" ) is >> seed >> shard >> upto;
    }
    Verdict v;
    if ( kind == "choices" ) v = replay_choices(p,sh,ch);
    else {
      std::string err = g_tmp+"/w.err";
      int st = supervised( [&]{ return worker(p,sh,seed,shard,0,upto+1,1e9,g_tmp+"/none"); }, err, 0 );
      v.rc = !(WIFEXITED(st) && WEXITSTATUS(st)==0); if ( v.rc ) v.msg = describe(st,err,sh->msg);
    }
    if ( v.rc ) std::cout << "REPRODUCED: " << v.msg << "\n" << v.trace; else std::cout << "holds\n";
    if ( a.count("--err") ) std::cout << slurp(g_tmp+"/replay.err");
    cleanup(); return v.rc;
  }
  uint64_t seed = strtoull(a["--seed"].c_str(),nullptr,10), shard = strtoull(a["--shard"].c_str(),nullptr,10);
  uint64_t cases = strtoull(a["--cases"].c_str(),nullptr,10);
  double budget = a.count("--budget") ? atof(a["--budget"].c_str()) : 600;
  std::string out = a["--out"], rep = a["--replayfile"];
  std::string err = g_tmp+"/w.err";
  int st = supervised( [&]{ return worker(p,sh,seed,shard,0,cases,budget,out); }, err, budget+120 );
  if ( WIFEXITED(st) && WEXITSTATUS(st) == RC_OK ) { cleanup(); return 0; }
  // A case failed: recover its choices and shrink.
  uint64_t idx = sh->idx;
  Verdict first; first.msg = describe(st,err,sh->msg);
  Src g(case_seed(seed,shard,idx));
  std::vector<uint64_t> ch;
  {
    // regenerate the choices in a child, streaming them out so that a crash does not lose them
    std::string recf = g_tmp+"/replay.rec";
    // draw a long random tape: replay semantics use value mod clamp, so we re-run with the same RNG in a child
    int st2 = supervised( [&]{
      if ( p.init ) p.init();
      static Src gg(case_seed(seed,shard,idx)); static std::string rf; rf = recf;
      gg.rec.reserve(1<<20);
      static auto dump = []{ FILE * f = fopen(rf.c_str(),"wb"); if (f) { fwrite(gg.rec.data(),8,gg.rec.size(),f); fclose(f); } };
      struct D { static void sig( int ) { dump(); _exit(99); } };
      signal(SIGPROF,D::sig); signal(SIGABRT,D::sig); signal(SIGSEGV,D::sig); signal(SIGBUS,D::sig); signal(SIGFPE,D::sig); signal(SIGILL,D::sig);
      extern void pt_set_death( void (*)() ); pt_set_death(+[]{ dump(); });
      Ctx c; std::string msg; arm(p.case_cpu_s);
      bool ok = run_case(p,gg,c,msg); arm(0);
      dump(); return ok ? RC_OK : RC_FAIL;
    }, g_tmp+"/replay.err", p.case_cpu_s*6+30 );
    (void)st2;
    std::string b = slurp(recf); ch.resize(b.size()/8); memcpy(ch.data(),b.data(),ch.size()*8);
  }
  Verdict v = replay_choices(p,sh,ch);
  std::string kind = "choices"; unsigned execs = 0;
  if ( v.rc ) {
    ch = shrink(p,sh,ch,a.count("--shrink") ? atof(a["--shrink"].c_str()) : 45,execs);
    unsigned again = 0; for ( int k = 0; k < 3; ++k ) { Verdict w = replay_choices(p,sh,ch); if ( w.rc ) { ++again; v = w; } }
    if ( again < 3 ) { std::cout << "UNREPRODUCED shrunk case reproduces " << again << "/3\n"; if ( again == 0 ) { cleanup(); return 3; } }
  } else {
    kind = "range"; unsigned again = 0;
    for ( int k = 0; k < 2; ++k ) {
      int s2 = supervised( [&]{ return worker(p,sh,seed,shard,0,idx+1,1e9,g_tmp+"/none"); }, err, budget*2+120 );
      if ( !(WIFEXITED(s2) && WEXITSTATUS(s2)==0) ) { ++again; first.msg = describe(s2,err,sh->msg); }
    }
    v = first;
    if ( again < 2 ) { std::cout << "UNREPRODUCED " << first.msg << "\n"; cleanup(); return 3; }
  }
  write_replay(rep,p,kind,ch,seed,shard,idx,v);
  { std::ofstream o(out); o << "{\"cases\":" << (idx+1) << ",\"evals\":0,\"nontrivial\":0,\"distinct\":0,\"labels\":{},\"samples\":[],\"rule\":" << jstr(p.rule)
      << ",\"failure\":" << jstr(v.msg) << ",\"shrink_execs\":" << execs << "}\n"; }
  std::cout << "FAILED " << v.msg << "\n" << v.trace << "\n";
  cleanup();
  return 1;
}

static void (*g_death)() = nullptr;
static void death_tramp() { if ( g_death ) g_death(); }
extern "C" void __sanitizer_set_death_callback( void (*)(void) ) __attribute__((weak));
void pt_set_death( void (*f)() ) { g_death = f; if ( &__sanitizer_set_death_callback ) __sanitizer_set_death_callback(death_tramp); }

} // namespace pt
