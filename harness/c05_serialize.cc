#include "model.hh"
#include <memory>
namespace pt {

static void one( Src & g, Ctx & c ) {
  GenOpt o; o.max_depth = g.range(0,3); o.key = GenOpt::Str::Bytes;
  MV a = gen(g,o);
  c.log("value "+show(a));
  c.label(std::string("kind ")+kname(a.k));
  GC gc; build(gc,a);
  int32_t n = gc.mem_size();
  c.check( n >= 4, "mem_size is "+std::to_string(n) );
  c.nontrivial = nodes(a) > 1 || a.count() > 1;
  // exact buffer (its own heap block, so one byte too many is caught)
  std::unique_ptr<uint8_t[]> buf(new uint8_t[size_t(n)]);
  int32_t w;
  try { w = gc.serialize(n,buf.get()); } catch ( std::exception const & e ) { fail(std::string("serialize into mem_size() bytes throws ")+e.what()); }
  c.check( w == n, "serialize wrote "+std::to_string(w)+" bytes, mem_size says "+std::to_string(n) );
  c.check( same(read_checked(gc,"after serialize"),a), "serialize changed the container" );
  // larger buffer: same bytes, nothing else touched
  {
    size_t extra = g.below(20); uint8_t fill = uint8_t(g.below(256));
    std::vector<uint8_t> big(size_t(n)+extra,fill);
    int32_t w2 = gc.serialize(big);
    c.check( w2 == n, "serialize into a larger buffer returns "+std::to_string(w2) );
    c.check( memcmp(big.data(),buf.get(),size_t(n)) == 0, "serialized bytes depend on the buffer size" );
    for ( size_t i = size_t(n); i < big.size(); ++i ) c.check( big[i] == fill, "serialize wrote past the bytes it reports" );
  }
  // a vector that is too small is enlarged
  {
    std::vector<uint8_t> v(g.below(size_t(n)),uint8_t(g.below(256))); size_t had = v.size();
    try { int32_t w3 = gc.serialize(v); c.check( w3 == n, "serialize into a vector of "+std::to_string(had)+" bytes returns "+std::to_string(w3) ); }
    catch ( std::exception const & e ) { fail("serialize into a vector of "+std::to_string(had)+" bytes throws "+e.what()); }
    c.check( v.size() >= size_t(n) && memcmp(v.data(),buf.get(),size_t(n)) == 0, "a vector of "+std::to_string(had)+" bytes does not get the same bytes" );
  }
  // back, into a container with or without earlier contents
  MV prev; GC out;
  if ( g.coin() ) { GenOpt p = o; p.max_depth = 1; prev = g.chance(1,3) ? mutate(g,a,p) : g.chance(1,4) ? twin(g,a) : gen(g,p); build(out,prev); c.log("into "+show(prev)); c.label("into non-empty"); }
  int32_t r;
  try { 
    if ( g.coin() ) r = out.de_serialize(n,buf.get());
    else { std::vector<uint8_t> v(buf.get(),buf.get()+n); size_t extra = g.below(8); for ( size_t i = 0; i < extra; ++i ) v.push_back(uint8_t(g.below(256))); r = out.de_serialize(v); }
  } catch ( std::exception const & e ) { fail(std::string("de_serialize of its own output throws ")+e.what()); }
  c.check( r == n, "de_serialize consumed "+std::to_string(r)+" of "+std::to_string(n)+" bytes" );
  std::string d = diff(a,read_checked(out,"after de_serialize"));
  c.check( d.empty(), "round trip: "+d );
  // two values one after the other in one buffer
  if ( g.chance(1,3) ) {
    MV b = gen(g,o); GC gb; build(gb,b);
    c.log("followed by "+show(b)); c.label("two in a buffer");
    int32_t nb = gb.mem_size();
    std::unique_ptr<uint8_t[]> two(new uint8_t[size_t(n)+size_t(nb)]);
    int32_t w1 = gc.serialize(n+nb,two.get());
    int32_t w2 = gb.serialize(n+nb-w1,two.get()+w1);
    c.check( w1+w2 == n+nb, "two values: written size" );
    GC x, y; int32_t r1 = x.de_serialize(n+nb,two.get()); int32_t r2 = y.de_serialize(n+nb-r1,two.get()+r1);
    c.check( r1 == w1 && r2 == w2, "two values: sizes read" );
    c.check( same(a,read_checked(x,"first")) && same(b,read_checked(y,"second")), "two values in one buffer come back different" );
  }
  // every smaller output buffer (a sample when large): refused, nothing written past it
  unsigned tries = n <= 24 ? unsigned(n) : 6;
  for ( unsigned t = 0; t < tries; ++t ) {
    int32_t k = n <= 24 ? int32_t(t) : ( t == 0 ? n-1 : t == 1 ? n-4 : int32_t(g.below(uint64_t(n))) );
    std::unique_ptr<uint8_t[]> small(new uint8_t[size_t(k)+1]); small[size_t(k)] = 0xA5;
    bool th = throws([&]{ (void)gc.serialize(k,small.get()); });
    c.check( th, "serialize into "+std::to_string(k)+" of "+std::to_string(n)+" bytes does not fail" );
    c.check( small[size_t(k)] == 0xA5, "serialize wrote past a buffer of "+std::to_string(k)+" bytes" );
    // truncated input
    std::unique_ptr<uint8_t[]> cut(new uint8_t[size_t(k)]); memcpy(cut.get(),buf.get(),size_t(k));
    GC x; if ( g.coin() ) x.set_string("old");
    th = throws([&]{ (void)x.de_serialize(k,cut.get()); });
    c.check( th, "de_serialize of the first "+std::to_string(k)+" of "+std::to_string(n)+" bytes is accepted" );
    (void)read_checked(x,"after a refused de_serialize");
  }
  // damaged input: refused or a valid value, never outside the buffer
  if ( g.coin() ) {
    std::unique_ptr<uint8_t[]> bad(new uint8_t[size_t(n)]); memcpy(bad.get(),buf.get(),size_t(n));
    int nb = g.range(1,3);
    for ( int q = 0; q < nb; ++q ) { size_t at = g.below(size_t(n)); static uint8_t const ev[] = {0,1,2,0xff,0x7f,0x80,19,20,21,18,14}; bad[at] = g.coin() ? g.pick(ev) : uint8_t(g.below(256)); }
    GC x; c.label("damaged");
    try { int32_t k = x.de_serialize(n,bad.get()); c.check( k >= 0 && k <= n, "de_serialize of damaged bytes reports "+std::to_string(k)+" of "+std::to_string(n) ); }
    catch ( std::exception const & ) { c.label("damaged refused"); }
    MV z = read_checked(x,"after damaged input"); (void)x.mem_size();
  }
}

} // namespace pt
using namespace pt;

int main( int argc, char ** argv ) {
  Property p; p.id = "C05"; p.one = one;
  p.rule = "a random value tree (all 21 kinds, depth<=3) is serialized into exact, larger, every smaller buffer (vectors of any size) and read back whole, truncated and damaged; non-trivial: more than one node or more than one element";
  return pt_main(argc,argv,p);
}
