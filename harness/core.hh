// Property-testing core: recorded choice sequences, forked workers, shrinking, replay.
#pragma once
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <stdexcept>
#include <cstring>

namespace pt {

// Thrown by a check when the oracle rejects. Deliberately not a std::exception,
// so code under test that catches std::exception cannot swallow it.
struct Fail { std::string msg; };

// Source of random choices. Every decision of a generator is one draw, so a case is the list of
// draws and can be replayed and shrunk without knowing what it stands for. 0 is the simplest.
class Src {
  uint64_t m_s[4];
  bool m_random;
  std::vector<uint64_t> m_in;
  size_t m_pos{0};
public:
  std::vector<uint64_t> rec;
  explicit Src( uint64_t seed );
  explicit Src( std::vector<uint64_t> const & in ) : m_random(false), m_in(in) {}
  uint64_t raw();
  uint64_t below( uint64_t n );              // uniform in [0,n)
  uint64_t u64();                            // any 64-bit value
  int  range( int lo, int hi ) { return lo + int(below(uint64_t(hi-lo)+1)); }
  bool chance( unsigned num, unsigned den ) { return below(den) >= den-num; } // 0 => false
  int  few( int lo, int hi, int many = 60, unsigned rare = 60 ) { return chance(1,rare) ? range(lo, chance(1,12) ? 8*many : many) : range(lo,hi); }
  bool coin() { return below(2) == 1; }
  template <class T> T const & pick( std::vector<T> const & v ) { return v[below(v.size())]; }
  template <class T, size_t N> T const & pick( T const (&v)[N] ) { return v[below(N)]; }
  size_t weighted( std::initializer_list<unsigned> w );
  bool exhausted() const { return !m_random && m_pos >= m_in.size() + 64; }
};

struct Ctx {
  bool                           nontrivial{false};
  std::vector<std::string>       labels;
  std::string                    trace;      // human readable account of the case
  uint64_t                       evals{0};   // oracle comparisons made in this case
  bool                           verbose{false};
  void label( std::string const & s ) { labels.push_back(s); }
  void log( std::string const & s );
  void check( bool ok, std::string const & msg ) { ++evals; if ( !ok ) throw Fail{msg}; }
};

[[noreturn]] inline void fail( std::string const & m ) { throw Fail{m}; }

struct Property {
  std::string id;
  std::string rule;                          // how cases are made and when one is non-trivial
  std::function<void(Src&,Ctx&)> one;        // run one generated case
  std::function<void()> init;                // once per worker, may be empty
  unsigned quick_cases{20000};               // per run, over all shards
  unsigned thorough_cases{400000};
  double   case_cpu_s{20};                   // CPU seconds after which a case counts as a hang
  bool     leak_check{false};                // bytes allocated by a case must come back
};

int pt_main( int argc, char ** argv, Property const & p );

std::string quote( std::string const & s );  // printable form of arbitrary bytes
std::string fmt_double( double d );

} // namespace pt
