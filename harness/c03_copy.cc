// C03: copies are complete and independent, whatever the source and target are, parts of each other included.
#include "tree.hh"
#include "views.hh"
#include <memory>
namespace pt {

// store the payload of `src` in `dst` by handing over references into `src`
static bool by_payload( Src & g, GC & dst, GC & src, MV const & a ) {
  GC const & s = src; bool v = g.coin();
  switch ( a.k ) {
  case K::Str: if ( v ) dst.set_string(s.get_string()); else dst = s.get_string(); return true;
  case K::Cplx: if ( v ) dst.set_complex(s.get_complex()); else dst = s.get_complex(); return true;
  case K::VPtr: dst.set_vec_pointer(s.get_vec_pointer()); return true;
  case K::VBool: if ( v ) dst.set_vec_bool(s.get_vec_bool()); else dst = s.get_vec_bool(); return true;
  case K::VInt: if ( v ) dst.set_vec_int(s.get_vec_int()); else dst = s.get_vec_int(); return true;
  case K::VLong: if ( v ) dst.set_vec_long(s.get_vec_long()); else dst = s.get_vec_long(); return true;
  case K::VReal: if ( v ) dst.set_vec_real(s.get_vec_real()); else dst = s.get_vec_real(); return true;
  case K::VCplx: if ( v ) dst.set_vec_complex(s.get_vec_complex()); else dst = s.get_vec_complex(); return true;
  case K::VStr: if ( v ) dst.set_vec_string(s.get_vec_string()); else dst = s.get_vec_string(); return true;
  case K::MInt: if ( v ) dst.set_mat_int(s.get_mat_int()); else dst = s.get_mat_int(); return true;
  case K::MLong: if ( v ) dst.set_mat_long(s.get_mat_long()); else dst = s.get_mat_long(); return true;
  case K::MReal: if ( v ) dst.set_mat_real(s.get_mat_real()); else dst = s.get_mat_real(); return true;
  case K::MCplx: if ( v ) dst.set_mat_complex(s.get_mat_complex()); else dst = s.get_mat_complex(); return true;
  default: return false;
  }
}

static void one( Src & g, Ctx & c ) {
  GenOpt o; o.max_depth = g.range(1,3); o.max_len = 4;
  int const N = 3;
  std::unique_ptr<GC> P[N]; MV M[N];
  for ( int i = 0; i < N; ++i ) {
    P[i].reset(new GC);
    if ( i && g.chance(1,4) ) M[i] = twin(g,M[0]);
    else if ( i == 0 || g.coin() ) M[i] = gen(g,o);
    build_varied(g,*P[i],M[i]);
    c.log("c"+std::to_string(i)+" = "+show(M[i]));
  }
  int steps = g.range(1,8);
  for ( int s = 0; s < steps; ++s ) {
    int i = int(g.below(N)), j = int(g.below(N));
    switch ( g.below(8) ) {
    case 0: case 1: case 2: { // node of one := node of the other
      Path p = gen_path(g,M[i]), q = gen_path(g,M[j]);
      MV val = at(M[j],q); bool alias = i == j;
      GC & dst = at(*P[i],p); GC & src = at(*P[j],q);
      unsigned how = unsigned(g.below(6));
      std::string w = "c"+std::to_string(i)+show(p)+" := c"+std::to_string(j)+show(q)+" by ";
      switch ( how ) {
      case 0: c.log(w+"="); dst = src; break;
      case 1: c.log(w+"load"); dst.load(src); break;
      case 2: c.log(w+"from_gc"); dst.from_gc(src); break;
      case 3: c.log(w+"to_gc"); src.to_gc(dst); break;
      case 4: { c.log(w+"copy constructor"); GC t(src); dst = t; break; }
      default: c.log(w+"payload"); if ( !by_payload(g,dst,src,val) ) dst = src; break;
      }
      at(M[i],p) = val;
      if ( alias ) c.label("within one container"); else c.label("between containers");
      c.nontrivial = true;
      break; }
    case 3: case 4: { // change one node
      Path p = gen_path(g,M[i]); GenOpt q = o; q.max_depth = 1;
      MV b = g.coin() ? gen(g,q) : g.coin() ? twin(g,at(M[i],p)) : mutate(g,at(M[i],p),q);
      c.log("c"+std::to_string(i)+show(p)+" changed to "+show(b));
      build_varied(g,at(*P[i],p),b); at(M[i],p) = b;
      break; }
    case 5: { // whole copy into a fresh container, the old one destroyed
      c.log("c"+std::to_string(i)+" replaced by a copy of c"+std::to_string(j));
      std::unique_ptr<GC> t(new GC(*P[j])); MV m = M[j]; P[i] = std::move(t); M[i] = m; c.nontrivial = true;
      break; }
    case 6: { // add a part made from another part
      Path p = gen_path(g,M[i]); MV & m = at(M[i],p); Path q = gen_path(g,M[j]); MV val = at(M[j],q);
      if ( m.k == K::Vec && m.v.size() < 8 ) {
        // the copy is taken first: growing a list may move its elements
        c.log("c"+std::to_string(i)+show(p)+" append c"+std::to_string(j)+show(q));
        GC t(at(*P[j],q)); at(*P[i],p)[unsigned(m.v.size())] = t; m.v.push_back(val);
      } else if ( m.k == K::Map && m.m.size() < 8 ) {
        std::string k = gen_string(g,GenOpt::Str::Bytes,4);
        c.log("c"+std::to_string(i)+show(p)+" key "+quote(k)+" := c"+std::to_string(j)+show(q));
        GC t(at(*P[j],q)); at(*P[i],p)[k] = t; m.m[k] = val;
      }
      break; }
    default:
      c.log("c"+std::to_string(i)+" cleared"); P[i]->clear(); M[i] = MV();
    }
    if ( nodes(M[0])+nodes(M[1])+nodes(M[2]) > 400 ) break;
    for ( int k = 0; k < N; ++k ) {
      std::string d = diff(M[k],read_checked(*P[k],"c"+std::to_string(k)));
      c.check( d.empty(), "c"+std::to_string(k)+": "+d );
    }
  }
}
} // namespace pt
using namespace pt;
int main( int argc, char ** argv ) {
  Property p; p.id = "C03"; p.one = one; p.leak_check = true;
  p.rule = "histories of up to 8 steps over three containers with random trees: copy any node onto any other (same or different container, ancestor onto descendant and back, onto itself) by every way of copying, change a node, replace a container by a copy, append or insert a copy, clear; after each step all three are compared with the model, so a copy that shares or loses anything shows. Non-trivial: at least one copy.";
  return pt_main(argc,argv,p);
}
