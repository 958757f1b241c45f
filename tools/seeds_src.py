SEEDS = []
def S(id, prop, edits, needs, what, demo, **k): SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, what=what, demo=demo, **k))
GC='src/GenericContainer.cc'; SE='src/GenericContainerSerialize.cc'; PR='src/GenericContainerPromote.cc'; CO='src/GenericContainerCollapse.cc'
CI='src/GenericContainerInterface_C.cc'; TA='src/GenericContainerTables.cc'; SU='src/GenericContainerSupport.cc'

S('c04-matrix-shape', 'C04', [(GC, '''    if ( A->num_rows() == B->num_rows() && A->num_cols() == B->num_cols() ) {
      for ( unsigned i{0}; i < A->num_rows(); ++i ) {
        for ( unsigned j{0}; j < A->num_cols(); ++j ) {
          TYPE const & Aij = (*A)(i,j);
          TYPE const & Bij = (*B)(i,j);
          if ( Aij != Bij ) {
            data << who << " at (" << i << "," << j << ") values "
                 << Aij << " <> " << Bij << '\\n';
            break;
          }
        }
      }
''', '''    if ( A->size() == B->size() ) {
      for ( size_t k{0}; k < A->size(); ++k ) {
        TYPE const & Ak = (*A)[k];
        TYPE const & Bk = (*B)[k];
        if ( Ak != Bk ) {
          data << who << " at (" << k % A->num_rows() << "," << k / A->num_rows() << ") values "
               << Ak << " <> " << Bk << '\\n';
          break;
        }
      }
''')], 'two matrices of different shape with the same number of elements and the same elements in column order',
 'compare_content reports matrices of different shape as equal', '''
  GenericContainer a, b; a.set_mat_real(2,3); b.set_mat_real(3,2);
  for ( unsigned i=0;i<6;++i ) { a.get_mat_real()[i]=i; b.get_mat_real()[i]=i; }
  OK( a.compare_content(a).empty() );
  OK( !a.compare_content(b).empty() );
''')

S('c05-sign-extension', 'C05', [(SE, '''    uint64_t const tmp0{ buffer[0] };
    uint64_t const tmp1{ buffer[1] };
    uint64_t const tmp2{ buffer[2] };
    uint64_t const tmp3{ buffer[3] };
    uint64_t const tmp4{ buffer[4] };
    uint64_t const tmp5{ buffer[5] };
    uint64_t const tmp6{ buffer[6] };
    uint64_t const tmp7{ buffer[7] };
    *out = tmp0|(tmp1<<8)|(tmp2<<16)|(tmp3<<24)|(tmp4<<32)|(tmp5<<40)|(tmp6<<48)|(tmp7<<56);
''', '''    uint64_t res{0};
    for ( int k{7}; k >= 4; --k ) res = (res<<8)|buffer[k];
    res <<= 32;
    res |= (buffer[3]<<24)|(buffer[2]<<16)|(buffer[1]<<8)|buffer[0];
    *out = res;
''')], 'a long, real, complex or pointer whose 31st bit is set and whose upper half is not all ones',
 'de_serialize sign-extends the lower half of 64-bit values: 0x80000000 becomes 0xFFFFFFFF80000000', '''
  GenericContainer a, b; a.set_long( 0x90000000LL );
  vector<uint8_t> buf( a.mem_size() ); a.serialize( buf ); b.de_serialize( buf );
  OK( b.get_long() == 0x90000000LL );
''')

S('c10-mat-long-lower-bound', 'C10', [(PR, '''        lval = (*m_data.m_l)[i];
        GC_ASSERT(
          static_cast<int_type>(lval) == lval,
          where << " copyto_vec_int: v[" << i << "] = " << lval''', '''        lval = (*m_data.m_l)[i];
        GC_ASSERT(
          lval <= std::numeric_limits<int_type>::max(),
          where << " copyto_vec_int: v[" << i << "] = " << lval''')],
 'a matrix of long with an element below the smallest int copied to a vector of int', 'copyto_vec_int wraps the large negative elements of a matrix of long instead of refusing', '''
  GenericContainer a; a.set_mat_long(1,2); a.get_mat_long()(0,0)=7; a.get_mat_long()(0,1)=-5000000000LL;
  vec_int_type v; bool thrown=false;
  try { a.copyto_vec_int( v, "demo" ); } catch ( exception const & ) { thrown = true; }
  OK( thrown );
''')

S('c12-empty-first-column', 'C12', [(CO, '''          if ( last_nelem >= 0 && can_collapse ) {''', '''          if ( last_nelem > 0 && can_collapse ) {''')],
 'a list whose first element is an empty vector of numbers and whose other elements all have the same positive length',
 'collapse makes a matrix from columns of different lengths and reads past the end of the empty ones', '''
  GenericContainer a; a.set_vector(2);
  a[0u].set_vec_int(0u); a[1u].set_vec_int(2u); a[1u].get_vec_int()[0]=1; a[1u].get_vec_int()[1]=2;
  a.collapse();
  OK( a.get_type() == GC_type::VECTOR );
''')

S('c13-key-preference', 'C13', [(GC, '''    for ( string_type const & s : vs ) {
      if ( auto iv{ m_data.m->find(s) }; iv != m_data.m->end() ) return s;
    }
    GC_DO_ERROR( where << " cant find keys: " << vs )''', '''    // one walk of the map instead of one search per alternative
    for ( const auto &[fst, snd] : *m_data.m ) {
      if ( std::find( vs.begin(), vs.end(), fst ) != vs.end() ) return fst;
    }
    GC_DO_ERROR( where << " cant find keys: " << vs )''')],
 'a map with two of the alternative keys, the preferred one after the other in alphabetical order', 'lookups by alternative keys return the first key in alphabetical order instead of the preferred one', '''
  GenericContainer a; a["alpha"].set_int(1); a["zeta"].set_int(2);
  vec_string_type k{ "zeta", "alpha" };
  OK( a.get_map_int( k, "demo" ) == 2 );
''')

S('c14-row-stride', 'C14', [(GC, '''    for ( unsigned j{0}; j < m_num_cols; ++j )
      *R++ = (*this)(nr,j);''', '''    TYPE const * ptr{ this->data() + nr };
    for ( unsigned j{0}; j < m_num_cols; ++j, ptr += m_num_cols )
      *R++ = *ptr;''')],
 'get_row with a pointer on a matrix that is not square', 'get_row copies elements of other rows, or beyond the data, when the matrix is not square', '''
  mat_real_type m(3,2); for ( unsigned i=0;i<3;++i ) for ( unsigned j=0;j<2;++j ) m(i,j)=10*i+j;
  real_type r[2]; m.get_row( 1u, r );
  OK( r[0] == 10 && r[1] == 11 );
''')

S('c03-merge-alias', 'C03', [(GC, '''      this->set_vec_string(*gc.m_data.v_s);
      break;

    case GC_type::VECTOR:''', '''      allocate_vec_string( 0 );
      m_data.v_s->assign( gc.m_data.v_s->begin(), gc.m_data.v_s->end() );
      break;

    case GC_type::VECTOR:''')],
 'assigning to a container a vector of strings that is one of its own parts', 'the source is destroyed before it is copied', '''
  GenericContainer a; vec_string_type v{ "a long enough string to be on the heap", "x" };
  a["k"].set_vec_string( v );
  a.from_gc( a["k"] );
  OK( a.get_type() == GC_type::VEC_STRING && a.get_vec_string() == v );
''')

TJ='src_json_interface/to_json.cc'; FJ='src_json_interface/from_json.cc'; TY='src_yaml_interface/to_yaml.cc'; FY='src_yaml_interface/from_yaml.cc'
TT='src_toml_interface/to_toml.cc'; FT='src_toml_interface/from_toml.cc'; LU='src_lua_interface/GenericContainerInterface_lua.cc'
NEWCOUNT='''#include <new>
#include <string.h>
static long live = 0;
void * operator new( size_t n ) { if ( n > (size_t(1)<<26) ) throw std::bad_alloc(); ++live; return malloc( n ); }
void operator delete( void * p ) noexcept { if ( p ) { --live; free( p ); } }
void operator delete( void * p, size_t ) noexcept { operator delete( p ); }
'''

S('c01-shorter-over-longer', 'C01', [(GC, '''    if ( sz > 0 ) m_data.v_c->resize( sz );
''', '''    if ( m_data.v_c->size() < sz ) m_data.v_c->resize( sz );
''')], 'a vector of complex stored by size or by an operation that sizes it, over a longer vector of complex',
 'the old tail stays behind the new elements', '''
  GenericContainer a; a.set_vec_complex( 5u ); a.set_vec_complex( 2u );
  OK( a.get_vec_complex().size() == 2 && a.get_num_elements() == 2 );
''')

S('c02-capacity', 'C02', [(GC, '''  GenericContainer const &
  GenericContainer::operator () ( unsigned const i, string_view const where ) const {
    ck(where,GC_type::VECTOR);
    GC_ASSERT(
      i < m_data.v->size(),
''', '''  GenericContainer const &
  GenericContainer::operator () ( unsigned const i, string_view const where ) const {
    ck(where,GC_type::VECTOR);
    GC_ASSERT(
      i < m_data.v->capacity(),
''')], 'a constant list that has shrunk or has grown by appending, read just past its end',
 'the element past the end is returned instead of an exception', '''
  GenericContainer a; a.set_vector(); for ( unsigned i=0;i<5;++i ) a.push_string("x"), a.promote_to_vector();
  a.get_vector().reserve( 100 );
  GenericContainer const & c = a; bool thrown = false;
  try { (void) c( 7u, "demo" ).get_type(); } catch ( exception const & ) { thrown = true; }
  OK( thrown );
''')

S('c06-backslash', 'C06', [(TJ, '''        for ( auto const & vi : v )
          { stream << pre; string_escape(stream,vi); pre = ", "; }
''', '''        for ( auto const & vi : v ) {
          stream << pre;
          // most of the strings have nothing to escape
          bool plain{true};
          for ( char const c : vi ) plain = plain && c != '"' && static_cast<unsigned char>(c) >= 0x20;
          if ( plain ) stream << '"' << vi << '"';
          else         string_escape(stream,vi);
          pre = ", ";
        }
''')], 'a vector of strings with a string that has a backslash and nothing else to escape', 'the backslash is written as it is: the text is not JSON or says something else', r'''
  GenericContainer a; a.set_vec_string( vec_string_type{ "C:\\dir", "x" } );
  ostringstream s; a.to_json( s );
  OK( s.str().find( "C:\\\\dir" ) != string::npos );
''')

S('c07-equal-neighbours', 'C07', [(FJ, '''        decode_json( V[i], value[i] );
''', '''        if ( i > 0 && value[i] == value[i-1] ) V[i] = V[i-1]; // decoded already
        else decode_json( V[i], value[i] );
''')], 'a list in which a number follows one that compares equal but is not the same (1 and 1.0, 0.0 and -0.0)', 'the second becomes the first', '''
  GenericContainer a; istringstream s( "[0.0,-0.0,2.5]" );
  OK( a.from_json( s ) ); OK( std::signbit( a.get_vec_real()[1] ) );
''', inc='#include <cmath>\n')

S('c08-plain-strings', 'C08', [(TY, '''        for ( auto const & vi : v )
          { stream << pre; string_escape(stream,vi); pre = ", "; }
''', '''        for ( auto const & vi : v ) {
          stream << pre;
          bool word{ !vi.empty() }; // a word needs no quotes
          for ( char const c : vi ) word = word && ( ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ) );
          if ( word ) stream << vi; else string_escape(stream,vi);
          pre = ", ";
        }
''')], 'a vector of strings with true, false, null or the like among them', 'strings that YAML reads as booleans or as nothing are written without quotes', '''
  GenericContainer a, b; a.set_vec_string( vec_string_type{ "yes", "true", "Null" } );
  stringstream s; a.to_yaml( s ); OK( b.from_yaml( s ) );
  OK( b.get_type() == GC_type::VEC_STRING && b.get_vec_string() == a.get_vec_string() );
''')

S('c09-zero-imaginary', 'C09', [(TT, '''      for ( auto vi : gc.get_vec_complex() )
        node->as_array()->push_back( toml::array{vi.real(),vi.imag()} );
''', '''      for ( auto vi : gc.get_vec_complex() ) {
        if ( vi.imag() != 0 ) node->as_array()->push_back( toml::array{vi.real(),vi.imag()} );
        else                  node->as_array()->push_back( vi.real() );
      }
''')], 'a vector of complex with some elements whose imaginary part is zero', 'these elements are written as reals, the others as pairs', '''
  GenericContainer a, b; a["v"].set_vec_complex( vec_complex_type{ {1,2}, {3,0} } );
  stringstream s; OK( a.to_toml( s ) ); OK( b.from_toml( s ) );
  OK( b["v"].get_type() == GC_type::MAT_REAL && b["v"].get_mat_real()(0,1) == 3 && b["v"].get_mat_real()(1,1) == 0 );
''')

S('c11-long-through-int', 'C11', [(PR, '''        set_vec_complex(v_l->size());
        for ( unsigned i{0}; i < v_l->size(); ++i )
          (*m_data.v_c)[i] = complex_type( static_cast<real_type>((*v_l)[i]), 0 );
''', '''        set_vec_complex(v_l->size());
        for ( unsigned i{0}; i < v_l->size(); ++i )
          (*m_data.v_c)[i] = complex_type( static_cast<int_type>((*v_l)[i]), 0 );
''')], 'a vector of long with an element beyond the range of int, widened to complex or appended a complex', 'the element is wrapped', '''
  GenericContainer a; a.set_vec_long( vec_long_type{ 1, 5000000000LL } );
  a.push_complex( 0, 1 );
  OK( a.get_vec_complex()[1] == complex_type( 5e9, 0 ) );
''')

S('c12-long-through-real', 'C12', [(CO, '''          vec_long_type C; v[j].copyto_vec_long(C);
          for ( unsigned i{0}; i < NR; ++i ) M(i,j) = C[i];
''', '''          vec_real_type C; v[j].copyto_vec_real(C);
          for ( unsigned i{0}; i < NR; ++i ) M(i,j) = static_cast<long_type>(C[i]);
''')], 'a list of vectors of long with an element beyond 2^53', 'the element is rounded', '''
  GenericContainer a; a.set_vector(2);
  a[0u].set_vec_long( vec_long_type{ 1, 9007199254740993LL } ); a[1u].set_vec_long( vec_long_type{ 2, 3 } );
  a.collapse();
  OK( a.get_type() == GC_type::MAT_LONG && a.get_mat_long()(1,0) == 9007199254740993LL );
''')

S('c15-crlf', 'C15', [(SU, '''      if ( tokens.back()[0] == '\\n' || tokens.back()[0] == '\\r' )
''', '''      if ( tokens.back()[0] == '\\n' )
''')], 'a table with CR LF line ends and a delimiter before them', 'the CR counts as one more column', r'''
  GenericContainer a; istringstream s( "a b \r\n1 2 \r\n3 4 \r\n" );
  a.read_formatted_data( s, "#", " \t" );
  OK( a["headers"].get_vec_string().size() == 2 && a["data"][1u].get_vec_real().size() == 2 );
''')

S('c16-push-on-empty', 'C16', [(CI, '''    if ( data_type == head.back()->get_type() ) {
      if ( head.back() == nullptr ) return GENERIC_CONTAINER_NO_DATA;
      return GENERIC_CONTAINER_OK;
    }
    return GENERIC_CONTAINER_BAD_TYPE;
''', '''    GC_type const stored{ head.back()->get_type() };
    if ( data_type == stored || GC_type::NOTYPE == stored ) return GENERIC_CONTAINER_OK;
    return GENERIC_CONTAINER_BAD_TYPE;
''')], 'a push by position or by key on an element that holds nothing yet', 'the element silently becomes a list or a map instead of GENERIC_CONTAINER_BAD_TYPE', '''
  GC_new( "demo" ); GC_set_empty_vector(); GC_push_vector_position( 0 );
  OK( GC_push_map_position( "k" ) == GENERIC_CONTAINER_BAD_TYPE );
  OK( GC_get_type() == 0 );
''', inc='#include "GenericContainer/GenericContainerInterface_C.h"\n')

S('c17-list-with-holes', 'C17', [(LU, '''      for ( unsigned i = 0; i < v.size(); ++i ) {
        GC_to_lua( L, v[i] );
        lua_rawseti( L, -2, int(i+1) );
      }
''', '''      for ( GenericContainer const & vi : v ) {
        GC_to_lua( L, vi );
        lua_rawseti( L, -2, lua_rawlen( L, -2 )+1 );
      }
''')], 'a list with an empty element before others', 'the elements after it move to other positions', '''
  GenericContainer a, b; a.set_vector(3); a[0u].set_int(1); a[2u].set_int(3);
  LuaInterpreter lua; lua.GC_to_global( a, "A" ); lua.execute( "R = A[3]; S = A[2] == nil" );
  lua.global_to_GC( "R", b ); OK( b.get_type() == GC_type::LONG && b.get_long() == 3 );
  lua.global_to_GC( "S", b ); OK( b.get_bool() );
''', inc='#include "GenericContainer/GenericContainerInterface_lua.hh"\n')

S('c18-simple-data', 'C18', [(GC, '''  GenericContainer::set_int( int_type const value ) {
    clear();
''', '''  GenericContainer::set_int( int_type const value ) {
    if ( !simple_data() ) clear(); // nothing to release otherwise
''')], 'an int stored over a complex or a string', 'what the string or the complex owned is never released', '''
  long const before = live;
  { GenericContainer a; a.set_string( "some text" ); a.set_int( 3 ); }
  OK( live == before );
''', pre=NEWCOUNT)

S('c19-resize-before-clear', 'C19', [(GC, '''    if ( m_data_type != GC_type::VEC_INTEGER ) {
      clear();
      m_data.v_i  = new vec_int_type();
''', '''    if ( m_data_type != GC_type::VEC_INTEGER ) {
      vec_int_type * const v{ new vec_int_type() };
      v->resize( sz );
      clear();
      m_data.v_i  = v;
''')], 'no memory for the elements of a vector of int stored over something else', 'the vector object is leaked', '''
  GenericContainer a; bool thrown = false; a.set_real( 1 );
  long const before = live;
  try { a.set_vec_int( 100000000u ); } catch ( exception const & ) { thrown = true; }
  a.clear();
  OK( thrown ); OK( live == before );
''', pre=NEWCOUNT)

S('c20-embedded-nul', 'C20', [(GC, '''        stream << prefix << i << ": \\"" << v[i] << "\\"\\n";
''', '''        stream << prefix << i << ": \\"" << v[i].data() << "\\"\\n";
''')], 'a vector of strings with a string that contains a NUL', 'the string is shown up to the NUL', r'''
  GenericContainer a; a.set_vec_string( vec_string_type{ string("a\0b",3) } );
  ostringstream s; a.dump( s );
  OK( s.str().find( string("a\0b",3) ) != string::npos );
''')

S('c21-unsigned-range', 'C21', [(FY, '''      if ( tmp >= numeric_limits<int32_t>::min() && tmp <= numeric_limits<int32_t>::max() ) {
''', '''      if ( tmp >= numeric_limits<int32_t>::min() && tmp <= numeric_limits<uint32_t>::max() ) {
''')], 'a YAML integer between 2^31 and 2^32-1', 'it is stored as a negative int', '''
  GenericContainer a; istringstream s( "a: 3000000000\\nb: 5\\n" );
  OK( a.from_yaml( s ) ); OK( a["a"].get_as_long() == 3000000000LL );
''')

S('c22-static-tokens', 'C22', [(SU, '''    unsigned nread;
    vec_string_type tokens;
    while ( (nread=get_line_and_skip_comments2''', '''    unsigned nread;
    static vec_string_type tokens; // keeps its memory from line to line and from table to table
    while ( (nread=get_line_and_skip_comments2''')], 'two threads that read tables at the same time', 'the tokens of one table turn up in the other, or freed memory is used', '''
  auto table = []( unsigned nc ) { ostringstream s; for ( unsigned i=0; i<nc; ++i ) s << " c" << i; s << '\\n'; for ( unsigned r=0; r<2000; ++r ) { for ( unsigned i=0; i<nc; ++i ) s << ' ' << nc; s << '\\n'; } return s.str(); };
  std::atomic<int> good{0}; std::vector<std::thread> th;
  for ( unsigned t=0; t<4; ++t ) th.emplace_back( [&,t]{
    unsigned const nc = 3+t; string const text = table(nc);
    try { for ( int k=0; k<40; ++k ) {
      GenericContainer a; istringstream s( text ); a.read_formatted_data2( s );
      for ( unsigned i=0; i<nc; ++i ) { vec_real_type const & c = a["data"]["c"+std::to_string(i)].get_vec_real(); if ( c.size() != 2000 ) return; for ( double v : c ) if ( v != nc ) return; }
    } ++good; } catch ( exception const & ) {} } );
  for ( auto & t : th ) t.join();
  OK( good == 4 );
''', inc='#include <atomic>\n#include <thread>\n#include <sstream>\n')

S('c23-rewound-stream', 'C23', [(FJ, '''    rapidjson::IStreamWrapper isw(stream);
''', '''    stream.seekg( 0, std::ios::end );
    std::string text( static_cast<size_t>(std::max<std::streamoff>( 0, stream.tellg() )), ' ' );
    stream.seekg( 0, std::ios::beg );
    stream.read( &text[0], static_cast<std::streamsize>(text.size()) ); // in one piece
    std::istringstream whole( text );
    rapidjson::IStreamWrapper isw(whole);
''')], 'a stream of which something was read before, or one that cannot be positioned (a pipe)', 'the text is read from its beginning, or not at all', '''
  GenericContainer a; istringstream s( "12 {\\"a\\":1}" ); int n = 0; s >> n;
  OK( n == 12 ); OK( a.from_json( s ) ); OK( a.exists("a") && a["a"].get_int() == 1 );
''')

S('c23-text-after-nul', 'C23', [('include/GenericContainer/GenericContainerInterface_json.hh', '''    istringstream stream(DATA);
    gc.clear();
    return gc.from_json(stream);
''', '''    istringstream stream(DATA.data());
    gc.clear();
    return gc.from_json(stream);
''')], 'a string that is a JSON document up to a NUL and goes on after it', 'it is accepted, the part after the NUL ignored; the same bytes from a stream or file are refused', '''
  GenericContainer a, b; string const text( "{\\"a\\":1}\\0,}", 11 ); istringstream s( text );
  OK( !b.from_json( s ) ); OK( !JSON_to_GC( text, a ) );
''', inc='#include "GenericContainer/GenericContainerInterface_json.hh"\n#include <sstream>\n')

S('c24-struct-array', 'C24', [('src_matlab_interface/GenericContainerInterface_matlab.cc', '''        gc1.set_vector(nr*nc);
        for ( unsigned i = 0; i < nr*nc; ++i ) {
''', '''        unsigned ne = nr > nc ? nr : nc; // a row or a column of structs
        gc1.set_vector(ne);
        for ( unsigned i = 0; i < ne; ++i ) {
''')], 'an array of structs with several rows and several columns, or an empty one that is not 0 x 0', 'elements are lost, or made up, when it is read', '''
  Arr v[6], s; s.cls = mxSTRUCT_CLASS; s.dims[0] = 2; s.dims[1] = 3; s.field = "x"; for ( int i = 0; i < 6; ++i ) { v[i].value = i; s.sub.push_back(&v[i]); }
  GenericContainer gc; mxArray_to_GenericContainer( reinterpret_cast<mxArray const *>(&s), gc );
  OK( gc["x"].get_num_elements() == 6 );
  for ( unsigned i = 0; i < 6; ++i ) OK( gc["x"][i].get_real() == i );
  s.dims[0] = 1; s.dims[1] = 1; s.sub.resize(1); mxArray_to_GenericContainer( reinterpret_cast<mxArray const *>(&s), gc );
  OK( gc["x"].get_real() == 0 );
''', inc='#include "/repo/src_matlab_interface/GenericContainerInterface_matlab.cc"\n#include <vector>\n', flags='-I"$d" ', ld='-Wl,--unresolved-symbols=ignore-all ', files={'mex.h': 'harness/mex/mex.h'}, pre='''
struct Arr { mxClassID cls{mxDOUBLE_CLASS}; mwSize dims[2]{1,1}; double value{0}; char const * field{nullptr}; vector<Arr*> sub; size_t n() const { return dims[0]*dims[1]; } };
static Arr * of( mxArray const * m ) { return reinterpret_cast<Arr *>(const_cast<mxArray *>(m)); }
extern "C" {
mxClassID mxGetClassID( mxArray const * m ) { return of(m)->cls; } bool mxIsSparse( mxArray const * ) { return false; } bool mxIsClass( mxArray const *, char const * ) { return false; } bool mxIsComplex( mxArray const * ) { return false; }
bool mxIsStruct( mxArray const * m ) { return of(m)->cls == mxSTRUCT_CLASS; }
size_t mxGetM( mxArray const * m ) { return of(m)->dims[0]; } size_t mxGetN( mxArray const * m ) { return of(m)->dims[1]; } mwSize const * mxGetDimensions( mxArray const * m ) { return of(m)->dims; } mwSize mxGetNumberOfDimensions( mxArray const * ) { return 2; }
size_t mxGetNumberOfElements( mxArray const * m ) { return of(m)->n(); } void * mxGetData( mxArray const * m ) { return &of(m)->value; } double * mxGetPr( mxArray const * m ) { return &of(m)->value; } double mxGetScalar( mxArray const * m ) { return of(m)->value; }
int mxGetNumberOfFields( mxArray const * ) { return 1; } char const * mxGetFieldNameByNumber( mxArray const * m, int ) { return of(m)->field; }
mxArray * mxGetFieldByNumber( mxArray const * m, mwIndex i, int ) { return i < of(m)->sub.size() ? reinterpret_cast<mxArray *>(of(m)->sub[i]) : nullptr; }
}
''')

S('c25-keys-in-turn', 'C25', [('src_ruby_interface/GenericContainer_ffi.rb', '''    keys = []
    ok = self.GC_init_map_key
    raise RuntimeError, @error_messages[ok] unless ok == 0
    while (key = self.GC_get_next_key) do keys << key end
    res = {}
    keys.each do |key|
''', '''    ok = self.GC_init_map_key
    raise RuntimeError, @error_messages[ok] unless ok == 0
    res = {}
    while (key = self.GC_get_next_key) do
''')], 'a map that holds a map and, after it, further keys', 'get_data loses the keys after the inner map', '', ruby='''
module GenericContainer; @libGenericContainer = "/repo/_build/lib/libGenericContainer.so"; end
require "/repo/src_ruby_interface/GenericContainer_ffi.rb"
a = { a: 1, b: { c: 2 }, d: 3.5, e: [ "x", "y" ] }
g = GenericContainer::GenericContainer.new
g.load a
got = g.get_data
unless got == a then warn "FAILED: #{got.inspect}"; exit 1 end
flat = { p: 1, q: [ 1, 2 ] }
f = GenericContainer::GenericContainer.new
f.load flat
exit 1 unless f.get_data == flat
''')
