From 657382556557ec14a57c0e3136bca2ea7db98f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:45 +0000
Subject: [PATCH 001/125] fix: serialization of complex matrices fell through
 into the string vector case

---
 src/GenericContainerSerialize.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index c8b0958..7781283 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -327,6 +327,7 @@ namespace GC_namespace {
         nb = double_to_buffer( c.imag(), buffer, available );
         buffer += nb; available -= nb;
       }
+      break;
     case GC_type::VEC_STRING:
       nb = int32_to_buffer( static_cast<int32_t>(m_data.v_s->size()), buffer, available );
       buffer += nb; available -= nb;
@@ -522,6 +523,7 @@ namespace GC_namespace {
         sz = buffer_to_double( buffer, &bf ); c.imag(bf);
         nb += sz; buffer += sz; nbyte += sz;
       }
+      break;
     case GC_type::VEC_STRING:
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
-- 
2.43.0


From bc6d2ce73a9856489996d31840077eb0ee7906c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:33 +0000
Subject: [PATCH 002/125] fix: de_serialize skipped the payload of pointers and
 shifted everything after them

---
 src/GenericContainerSerialize.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index 7781283..2065981 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -411,6 +411,13 @@ namespace GC_namespace {
       buffer += nb; nbyte += nb;
       break;
     case GC_type::POINTER:
+      {
+        int64_t p;
+        nb = buffer_to_int64( buffer, &p );
+        buffer += nb; nbyte += nb;
+        m_data_type = GC_type::POINTER;
+        m_data.p    = reinterpret_cast<pointer_type>(p);
+      }
       break;
     case GC_type::STRING:
       nb = buffer_to_int32( buffer, &i32 );
@@ -427,6 +434,15 @@ namespace GC_namespace {
       buffer += nb; nbyte += nb;
       break;
     case GC_type::VEC_POINTER:
+      nb = buffer_to_int32( buffer, &i32 );
+      buffer += nb; nbyte += nb;
+      allocate_vec_pointer(i32);
+      for ( auto & p : *m_data.v_p ) {
+        int64_t i64;
+        sz = buffer_to_int64( buffer, &i64 );
+        buffer += sz; nbyte += sz;
+        p = reinterpret_cast<pointer_type>(i64);
+      }
       break;
     case GC_type::VEC_BOOL:
       nb = buffer_to_int32( buffer, &i32 );
-- 
2.43.0


From ed9109f141b01ad618690e1535be771d0af2bfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:33 +0000
Subject: [PATCH 003/125] fix: de_serialize truncated strings and keys at an
 embedded NUL

---
 src/GenericContainerSerialize.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index 2065981..3e3d2f5 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -423,7 +423,7 @@ namespace GC_namespace {
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
       allocate_string();
-      *m_data.s = reinterpret_cast<char const*>(buffer);
+      m_data.s->assign( reinterpret_cast<char const*>(buffer), i32-1 );
       buffer += i32; nbyte += i32;
       break;
     case GC_type::COMPLEX:
@@ -547,7 +547,7 @@ namespace GC_namespace {
       for ( auto & s : *m_data.v_s ) {
         nb = buffer_to_int32( buffer, &i32 );
         buffer += nb; nbyte += nb;
-        s = reinterpret_cast<char const*>(buffer);
+        s.assign( reinterpret_cast<char const*>(buffer), i32-1 );
         buffer += i32; nbyte += i32;
       }
       break;
@@ -567,7 +567,7 @@ namespace GC_namespace {
       for ( int32_t i = 0; i < nr; ++i ) {
         nb = buffer_to_int32( buffer, &i32 );
         buffer += nb; nbyte += nb;
-        string_type key = reinterpret_cast<char const*>(buffer);
+        string_type const key( reinterpret_cast<char const*>(buffer), i32-1 );
         buffer += i32; nbyte += i32;
         //std::cout << "key[" << i << "] = " << key << '\n';
         sz = (*m_data.m)[key].de_serialize( buffer_dim-nbyte, buffer );
-- 
2.43.0


From f3414df4a1b6b1004283475296f8f4d3eac7d85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:44 +0000
Subject: [PATCH 004/125] fix: de_serialize read past the end of truncated or
 corrupted buffers

---
 src/GenericContainerSerialize.cc | 102 ++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 42 deletions(-)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index 3e3d2f5..67207f9 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -381,14 +381,40 @@ namespace GC_namespace {
     this->clear();
 
     int32_t nr, nc, i32;
-    nbyte = nb = buffer_to_int32( buffer, &i32 );
-    buffer += nb;
+
+    // check that other `num` items of (at least) `item_size` bytes are available in the buffer
+    nbyte = 0;
+    auto const need = [&]( int64_t const num, int64_t const item_size = 1 ) -> void {
+      GC_ASSERT(
+        num >= 0 && num <= (buffer_dim-nbyte)/item_size,
+        "GenericContainer::de_serialize, truncated or corrupted buffer"
+      );
+    };
+    auto const get_length = [&]() -> void {
+      need( sizeof(int32_t) );
+      nb = buffer_to_int32( buffer, &i32 );
+      buffer += nb; nbyte += nb;
+    };
+    auto const get_string_length = [&]() -> void {
+      get_length();
+      need( i32 );
+      GC_ASSERT( i32 > 0 && buffer[i32-1] == 0, "GenericContainer::de_serialize, corrupted buffer" );
+    };
+    auto const get_dimensions = [&]( int64_t const item_size ) -> void {
+      get_length(); nr = i32;
+      get_length(); nc = i32;
+      GC_ASSERT( nr >= 0 && nc >= 0, "GenericContainer::de_serialize, corrupted buffer" );
+      need( int64_t(nr)*int64_t(nc), item_size );
+    };
+
+    get_length();
 
     switch (static_cast<TypeAllowed>(i32)) {
     case GC_type::NOTYPE:
       m_data_type = GC_type::NOTYPE;
       break;
     case GC_type::BOOL:
+      need( 1 );
       m_data_type = GC_type::BOOL;
       uint8_t b;
       nb = buffer_to_uint8( buffer, &b );
@@ -396,16 +422,19 @@ namespace GC_namespace {
       m_data.b = b > 0;
       break;
     case GC_type::INTEGER:
+      need( sizeof(int_type) );
       m_data_type = GC_type::INTEGER;
       nb = buffer_to_int32( buffer, &m_data.i );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::LONG:
+      need( sizeof(long_type) );
       m_data_type = GC_type::LONG;
       nb = buffer_to_int64( buffer, &m_data.l );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::REAL:
+      need( sizeof(real_type) );
       m_data_type = GC_type::REAL;
       nb = buffer_to_double( buffer, &m_data.r );
       buffer += nb; nbyte += nb;
@@ -413,6 +442,7 @@ namespace GC_namespace {
     case GC_type::POINTER:
       {
         int64_t p;
+        need( sizeof(p) );
         nb = buffer_to_int64( buffer, &p );
         buffer += nb; nbyte += nb;
         m_data_type = GC_type::POINTER;
@@ -420,13 +450,13 @@ namespace GC_namespace {
       }
       break;
     case GC_type::STRING:
-      nb = buffer_to_int32( buffer, &i32 );
-      buffer += nb; nbyte += nb;
+      get_string_length();
       allocate_string();
       m_data.s->assign( reinterpret_cast<char const*>(buffer), i32-1 );
       buffer += i32; nbyte += i32;
       break;
     case GC_type::COMPLEX:
+      need( 2*sizeof(real_type) );
       allocate_complex();
       nb = buffer_to_double( buffer, &bf ); m_data.c->real(bf);
       buffer += nb; nbyte += nb;
@@ -434,8 +464,8 @@ namespace GC_namespace {
       buffer += nb; nbyte += nb;
       break;
     case GC_type::VEC_POINTER:
-      nb = buffer_to_int32( buffer, &i32 );
-      buffer += nb; nbyte += nb;
+      get_length();
+      need( i32, sizeof(int64_t) );
       allocate_vec_pointer(i32);
       for ( auto & p : *m_data.v_p ) {
         int64_t i64;
@@ -445,8 +475,8 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      nb = buffer_to_int32( buffer, &i32 );
-      buffer += nb; nbyte += nb;
+      get_length();
+      need( i32, 1 );
       allocate_vec_bool(0);
       m_data.v_b->reserve(i32);
       for ( int32_t i = 0; i < i32; ++i ) {
@@ -457,8 +487,8 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_INTEGER:
-      nb = buffer_to_int32( buffer, &i32 );
-      buffer += nb; nbyte += nb;
+      get_length();
+      need( i32, sizeof(int_type) );
       allocate_vec_int(i32);
       for ( auto & i : *m_data.v_i ) {
         sz = buffer_to_int32( buffer, &i );
@@ -466,8 +496,8 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_LONG:
-      nb = buffer_to_int32( buffer, &i32 );
-      buffer += nb; nbyte += nb;
+      get_length();
+      need( i32, sizeof(long_type) );
       allocate_vec_long(i32);
       for ( auto & i : *m_data.v_l ) {
         sz = buffer_to_int64( buffer, &i );
@@ -475,8 +505,8 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_REAL:
-      nb = buffer_to_int32( buffer, &i32 );
-      buffer += nb; nbyte += nb;
+      get_length();
+      need( i32, sizeof(real_type) );
       allocate_vec_real(i32);
       for ( auto & r : *m_data.v_r ) {
         sz = buffer_to_double( buffer, &r );
@@ -484,8 +514,8 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_COMPLEX:
-      nb = buffer_to_int32( buffer, &i32 );
-      buffer += nb; nbyte += nb;
+      get_length();
+      need( i32, 2*sizeof(real_type) );
       allocate_vec_complex(i32);
       for ( auto & c : *m_data.v_c ) {
         sz = buffer_to_double( buffer, &bf ); c.real(bf);
@@ -495,10 +525,7 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAT_INTEGER:
-      nb = buffer_to_int32( buffer, &nr );
-      buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
-      buffer += nb; nbyte += nb;
+      get_dimensions( sizeof(int_type) );
       allocate_mat_int( nr, nc );
       for ( auto & i : *m_data.m_i ) {
         sz = buffer_to_int32( buffer, &i );
@@ -506,10 +533,7 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAT_LONG:
-      nb = buffer_to_int32( buffer, &nr );
-      buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
-      buffer += nb; nbyte += nb;
+      get_dimensions( sizeof(long_type) );
       allocate_mat_long( nr, nc );
       for ( auto & i : *m_data.m_l ) {
         sz = buffer_to_int64( buffer, &i );
@@ -517,10 +541,7 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAT_REAL:
-      nb = buffer_to_int32( buffer, &nr );
-      buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
-      buffer += nb; nbyte += nb;
+      get_dimensions( sizeof(real_type) );
       allocate_mat_real( nr, nc );
       for ( auto & r : *m_data.m_r ) {
         sz = buffer_to_double( buffer, &r );
@@ -528,10 +549,7 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAT_COMPLEX:
-      nb = buffer_to_int32( buffer, &nr );
-      buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
-      buffer += nb; nbyte += nb;
+      get_dimensions( 2*sizeof(real_type) );
       allocate_mat_complex( nr, nc );
       for ( auto & c : *m_data.m_c ) {
         sz = buffer_to_double( buffer, &bf ); c.real(bf);
@@ -541,19 +559,18 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_STRING:
-      nb = buffer_to_int32( buffer, &i32 );
-      buffer += nb; nbyte += nb;
+      get_length();
+      need( i32, sizeof(int32_t) );
       allocate_vec_string(i32);
       for ( auto & s : *m_data.v_s ) {
-        nb = buffer_to_int32( buffer, &i32 );
-        buffer += nb; nbyte += nb;
+        get_string_length();
         s.assign( reinterpret_cast<char const*>(buffer), i32-1 );
         buffer += i32; nbyte += i32;
       }
       break;
     case GC_type::VECTOR:
-      nb = buffer_to_int32( buffer, &i32 );
-      buffer += nb; nbyte += nb;
+      get_length();
+      need( i32, sizeof(int32_t) );
       allocate_vector(i32);
       for ( auto & S : *m_data.v ) {
         sz = S.de_serialize( buffer_dim-nbyte, buffer );
@@ -561,12 +578,11 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAP:
-      nb = buffer_to_int32( buffer, &i32 ); nr = i32;
-      buffer += nb; nbyte += nb;
+      get_length(); nr = i32;
+      need( nr, sizeof(int32_t) );
       allocate_map();
       for ( int32_t i = 0; i < nr; ++i ) {
-        nb = buffer_to_int32( buffer, &i32 );
-        buffer += nb; nbyte += nb;
+        get_string_length();
         string_type const key( reinterpret_cast<char const*>(buffer), i32-1 );
         buffer += i32; nbyte += i32;
         //std::cout << "key[" << i << "] = " << key << '\n';
@@ -574,6 +590,8 @@ namespace GC_namespace {
         buffer += sz; nbyte += sz;
       }
       break;
+    default:
+      GC_DO_ERROR( "GenericContainer::de_serialize, corrupted buffer, unknown type: " << i32 )
     }
     GC_ASSERT(
       nbyte <= buffer_dim,
-- 
2.43.0


From a3d17bdcaa75592cbb1ff9e7050b522e35a886ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:00 +0000
Subject: [PATCH 005/125] fix: compare_content never ended on equal non-empty
 vectors

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 039ae28..2017f2a 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -417,7 +417,7 @@ namespace GC_namespace {
                << *it1 << " <> " << *it2 << '\n';
           break;
         }
-        ++i;
+        ++i; ++it1; ++it2;
       }
     } else {
       data << who << " size: " << A->size() << " <> " << B->size() << '\n';
-- 
2.43.0


From b43d13d1e11b7bea99852583708eadc9d8e1c1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:00 +0000
Subject: [PATCH 006/125] fix: compare_content compared reals also as pointers

---
 src/GenericContainer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 2017f2a..0e8d62c 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -478,6 +478,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         if ( m_data.r != gc.m_data.r )
           data << from << "real: " << m_data.r << " <> " << gc.m_data.r << '\n';
+        break;
       case GC_type::POINTER:
         if ( m_data.p != gc.m_data.p )
           data << from << "pointer: 0x" << std::hex << m_data.p << " <> 0x" <<  std::hex << gc.m_data.p << '\n';
-- 
2.43.0


From 6312d2cc5c7d23d29f01f1fe479a878d25c3d652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:00 +0000
Subject: [PATCH 007/125] fix: matrix element access accepted a row index past
 the last row

---
 src/GenericContainer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 0e8d62c..c5aaafb 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -135,7 +135,8 @@ namespace GC_namespace {
   TYPE const &
   mat_type<TYPE>::operator () ( unsigned i, unsigned j ) const {
     try {
-      return this->at(i+j*m_num_rows);
+      if ( i >= m_num_rows ) throw std::out_of_range("row index out of range");
+      return this->at(i+size_type(j)*m_num_rows);
     } catch ( std::exception const & exc ) {
       GC_DO_ERROR( "mat_type::operator() (" << i << ", " << j << "): " << exc.what() << '\n' );
     } catch ( ... ) {
@@ -147,7 +148,8 @@ namespace GC_namespace {
   TYPE &
   mat_type<TYPE>::operator () ( unsigned i, unsigned j ) {
     try {
-      return this->at(i+j*m_num_rows);
+      if ( i >= m_num_rows ) throw std::out_of_range("row index out of range");
+      return this->at(i+size_type(j)*m_num_rows);
     } catch ( std::exception const & exc ) {
       GC_DO_ERROR( "mat_type::operator() (" << i << ", " << j << "): " << exc.what() << '\n' );
     } catch ( ... ) {
-- 
2.43.0


From 5133edf3b59bdd21222252f3aee3102ed64049e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:43 +0000
Subject: [PATCH 008/125] fix: copies and assignments kept stale content and
 broke when the source is part of the target

---
 src/GenericContainer.cc | 156 +++++++++++++++-------------------------
 1 file changed, 57 insertions(+), 99 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index c5aaafb..f38753f 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -339,43 +339,37 @@ namespace GC_namespace {
 
   GenericContainer &
   GenericContainer::operator = ( vec_bool_type const & a ) {
-    set_vec_bool( static_cast<unsigned>(a.size()) );
-    std::copy( a.begin(), a.end(), m_data.v_b->begin() );
+    set_vec_bool( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_int_type const & a ) {
-    set_vec_int( static_cast<unsigned>(a.size()) );
-    std::copy( a.begin(), a.end(), m_data.v_i->begin() );
+    set_vec_int( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_long_type const & a ) {
-    set_vec_long( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_l->begin() );
+    set_vec_long( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_real_type const & a ) {
-    set_vec_real( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_r->begin() );
+    set_vec_real( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_complex_type const & a ) {
-    set_vec_complex( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_c->begin() );
+    set_vec_complex( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_string_type const & a ) {
-    set_vec_string( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_s->begin() );
+    set_vec_string( a );
     return *this;
   }
 
@@ -966,10 +960,7 @@ namespace GC_namespace {
 
   complex_type &
   GenericContainer::set_complex( complex_type const & value ) {
-    clear();
-    m_data_type = GC_type::COMPLEX;
-    m_data.c    = new complex_type;
-    return (*m_data.c=value);
+    return set_complex( value.real(), value.imag() );
   }
 
   complex_type &
@@ -982,8 +973,10 @@ namespace GC_namespace {
 
   string_type &
   GenericContainer::set_string( string_view const value ) {
+    string_type tmp{value}; // `value` may be a part of this container
     allocate_string();
-    return (*m_data.s = value);
+    m_data.s->swap( tmp );
+    return *m_data.s;
   }
 
   vec_pointer_type &
@@ -994,8 +987,9 @@ namespace GC_namespace {
 
   vec_pointer_type &
   GenericContainer::set_vec_pointer( vec_pointer_type const & v ) {
-    allocate_vec_pointer( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_p->begin() );
+    vec_pointer_type tmp{v}; // `v` may be a part of this container
+    allocate_vec_pointer( 0 );
+    m_data.v_p->swap( tmp );
     return *m_data.v_p;
   }
 
@@ -1006,8 +1000,9 @@ namespace GC_namespace {
 
   vec_bool_type &
   GenericContainer::set_vec_bool( vec_bool_type const & v ) {
-    allocate_vec_bool( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_b->begin() );
+    vec_bool_type tmp{v}; // `v` may be a part of this container
+    allocate_vec_bool( 0 );
+    m_data.v_b->swap( tmp );
     return *m_data.v_b;
   }
 
@@ -1019,8 +1014,9 @@ namespace GC_namespace {
 
   vec_int_type &
   GenericContainer::set_vec_int( vec_int_type const & v ) {
-    allocate_vec_int( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_i->begin() );
+    vec_int_type tmp{v}; // `v` may be a part of this container
+    allocate_vec_int( 0 );
+    m_data.v_i->swap( tmp );
     return *m_data.v_i;
   }
 
@@ -1032,8 +1028,9 @@ namespace GC_namespace {
 
   vec_long_type &
   GenericContainer::set_vec_long( vec_long_type const & v ) {
-    allocate_vec_long( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_l->begin() );
+    vec_long_type tmp{v}; // `v` may be a part of this container
+    allocate_vec_long( 0 );
+    m_data.v_l->swap( tmp );
     return *m_data.v_l;
   }
 
@@ -1045,8 +1042,9 @@ namespace GC_namespace {
 
   vec_real_type &
   GenericContainer::set_vec_real( vec_real_type const & v ) {
-    allocate_vec_real( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_r->begin() );
+    vec_real_type tmp{v}; // `v` may be a part of this container
+    allocate_vec_real( 0 );
+    m_data.v_r->swap( tmp );
     return *m_data.v_r;
   }
 
@@ -1058,8 +1056,9 @@ namespace GC_namespace {
 
   vec_complex_type &
   GenericContainer::set_vec_complex( vec_complex_type const & v ) {
-    allocate_vec_complex( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_c->begin() );
+    vec_complex_type tmp{v}; // `v` may be a part of this container
+    allocate_vec_complex( 0 );
+    m_data.v_c->swap( tmp );
     return *m_data.v_c;
   }
 
@@ -1071,8 +1070,9 @@ namespace GC_namespace {
 
   mat_int_type &
   GenericContainer::set_mat_int( mat_int_type const & m ) {
-    allocate_mat_int( m.num_rows(), m.num_cols() );
-    std::copy( m.begin(), m.end(), m_data.m_i->begin() );
+    mat_int_type const tmp{m}; // `m` may be a part of this container
+    allocate_mat_int( 0, 0 );
+    *m_data.m_i = tmp;
     return *m_data.m_i;
   }
 
@@ -1084,8 +1084,9 @@ namespace GC_namespace {
 
   mat_long_type &
   GenericContainer::set_mat_long( mat_long_type const & m ) {
-    allocate_mat_long( m.num_rows(), m.num_cols() );
-    std::copy( m.begin(), m.end(), m_data.m_l->begin() );
+    mat_long_type const tmp{m}; // `m` may be a part of this container
+    allocate_mat_long( 0, 0 );
+    *m_data.m_l = tmp;
     return *m_data.m_l;
   }
 
@@ -1097,8 +1098,9 @@ namespace GC_namespace {
 
   mat_real_type &
   GenericContainer::set_mat_real( mat_real_type const & m ) {
-    allocate_mat_real( m.num_rows(), m.num_cols() );
-    std::copy( m.begin(), m.end(), m_data.m_r->begin() );
+    mat_real_type const tmp{m}; // `m` may be a part of this container
+    allocate_mat_real( 0, 0 );
+    *m_data.m_r = tmp;
     return *m_data.m_r;
   }
 
@@ -1110,8 +1112,9 @@ namespace GC_namespace {
 
   mat_complex_type &
   GenericContainer::set_mat_complex( mat_complex_type const & m ) {
-    allocate_mat_complex( m.num_rows(), m.num_cols() );
-    std::copy( m.begin(), m.end(), m_data.m_c->begin() );
+    mat_complex_type const tmp{m}; // `m` may be a part of this container
+    allocate_mat_complex( 0, 0 );
+    *m_data.m_c = tmp;
     return *m_data.m_c;
   }
 
@@ -1123,8 +1126,9 @@ namespace GC_namespace {
 
   vec_string_type &
   GenericContainer::set_vec_string( vec_string_type const & v ) {
-    allocate_vec_string( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_s->begin() );
+    vec_string_type tmp{v}; // `v` may be a part of this container
+    allocate_vec_string( 0 );
+    m_data.v_s->swap( tmp );
     return *m_data.v_s;
   }
 
@@ -3720,49 +3724,7 @@ namespace GC_namespace {
 
   void
   GenericContainer::to_gc( GenericContainer & gc ) const {
-    switch (m_data_type) {
-    case GC_type::NOTYPE:      gc.clear();                break;
-    case GC_type::BOOL:        gc = m_data.b;    break;
-    case GC_type::INTEGER:     gc = m_data.i;    break;
-    case GC_type::LONG:        gc = m_data.l;    break;
-    case GC_type::REAL:        gc = m_data.r;    break;
-    case GC_type::COMPLEX:     gc = *m_data.c;   break;
-    case GC_type::STRING:      gc = *m_data.s;   break;
-    case GC_type::VEC_BOOL:    gc = *m_data.v_b; break;
-    case GC_type::VEC_INTEGER: gc = *m_data.v_i; break;
-    case GC_type::VEC_LONG:    gc = *m_data.v_l; break;
-    case GC_type::VEC_REAL:    gc = *m_data.v_r; break;
-    case GC_type::VEC_STRING:  gc = *m_data.v_s; break;
-
-    case GC_type::VECTOR:
-      gc.set_vector();
-      { vector_type const & v{*m_data.v};
-        vector_type       & vv = gc.set_vector(v.size());
-        for ( vector_type::size_type i{0}; i < v.size(); ++i )
-          v[i].to_gc(vv[i]);
-      }
-      break;
-    case GC_type::MAP:
-      gc.set_map();
-      { map_type const & m{*m_data.m};
-        for ( const auto &[fst, snd] : m )
-          snd.to_gc(gc[fst]);
-      }
-      break;
-    case GC_type::MAT_INTEGER: gc = *m_data.m_i; break;
-    case GC_type::MAT_LONG:    gc = *m_data.m_l; break;
-    case GC_type::MAT_REAL:    gc = *m_data.m_r; break;
-    case GC_type::VEC_COMPLEX: gc = *m_data.v_c; break;
-    case GC_type::MAT_COMPLEX: gc = *m_data.m_c; break;
-    case GC_type::POINTER:     gc = this->get_pointer<void *>(); break;
-    case GC_type::VEC_POINTER:
-      { vec_pointer_type const & v  = this->get_vec_pointer();
-        vec_pointer_type       & vv = gc.set_vec_pointer(v.size());
-        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
-          vv[i] = v[i];
-      }
-      break;
-    }
+    gc.from_gc( *this );
   }
 
   /*
@@ -3815,18 +3777,15 @@ namespace GC_namespace {
       break;
 
     case GC_type::VECTOR:
-      this->set_vector();
-      { vector_type const & v{*gc.m_data.v};
-        vector_type       & vv = this->set_vector(v.size());
-        for ( vector_type::size_type i{0}; i < v.size(); ++i )
-          vv[i].from_gc(v[i]);
+      { vector_type tmp( *gc.m_data.v ); // `gc` may be a part of this container
+        allocate_vector( 0 );
+        m_data.v->swap( tmp );
       }
       break;
     case GC_type::MAP:
-      this->set_map();
-      { map_type const & m{*gc.m_data.m};
-        for ( const auto &[fst, snd] : m )
-          (*this)[fst].from_gc(snd);
+      { map_type tmp( *gc.m_data.m ); // `gc` may be a part of this container
+        allocate_map();
+        m_data.m->swap( tmp );
       }
       break;
     case GC_type::MAT_INTEGER:
@@ -3848,11 +3807,7 @@ namespace GC_namespace {
       this->set_pointer( gc.get_pointer<void *>() );
       break;
     case GC_type::VEC_POINTER:
-      { vec_pointer_type const & v  = gc.get_vec_pointer();
-        vec_pointer_type       & vv = this->set_vec_pointer(v.size());
-        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
-          vv[i] = v[i];
-      }
+      this->set_vec_pointer(*gc.m_data.v_p);
       break;
     }
   }
@@ -3872,9 +3827,12 @@ namespace GC_namespace {
     )
     if ( m_data_type == GC_type::NOTYPE ) this->set_map();
     ck( where, GC_type::MAP );
-    { map_type const & m{gc.get_map()};
-      for ( const auto &[fst, snd] : m )
-        (*this)[fst].from_gc(snd);
+    { map_type const m( gc.get_map() ); // a copy, `gc` may be a part of this container
+      for ( const auto &[fst, snd] : m ) {
+        GenericContainer & child{ (*m_data.m)[fst] };
+        if ( child.m_data_type == GC_type::MAP && snd.m_data_type == GC_type::MAP ) child.merge( snd, where );
+        else                                                                        child.from_gc( snd );
+      }
     }
   }
 
-- 
2.43.0


From 9d608e524aafde863161aaa8280fb1e97dbdef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:34 +0000
Subject: [PATCH 009/125] fix: conversions to integer types accepted values out
 of the range of the target

---
 src/GenericContainer.cc        | 52 +++++++++++++++++++++---------
 src/GenericContainerPromote.cc | 58 ++++++++++++++++++++--------------
 2 files changed, 71 insertions(+), 39 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index f38753f..e023744 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -36,6 +36,8 @@
   #error This library needs at least a C++11 compliant compiler
 #endif
 
+#include <cmath>
+#include <limits>
 #include <regex>
 #include <fstream>
 
@@ -59,6 +61,13 @@ static bool isInteger( real_type const x )
 static bool isUnsigned( real_type const x )
 { return isInteger(x) && x >= 0; }
 
+// true if the integer part of x can be stored in the integer type T
+template <typename T>
+static bool isInRange( real_type const x ) {
+  using limits = std::numeric_limits<T>;
+  return x >= static_cast<real_type>(limits::min()) && x < std::ldexp( real_type(1), limits::digits );
+}
+
 #endif
 
 namespace GC_namespace {
@@ -1569,15 +1578,15 @@ namespace GC_namespace {
       break;
     case GC_type::LONG:
       GC_ASSERT(
-        m_data.l >= 0,
-        where << " in get_value(...) negative `long` value '" << m_data.l
+        m_data.l >= 0 && m_data.l <= std::numeric_limits<uint_type>::max(),
+        where << " in get_value(...) negative or too large `long` value '" << m_data.l
               << "' cannot be converted into `uint_type'"
       )
       v = static_cast<unsigned>(m_data.l);
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        m_data.r >= 0 && isUnsigned(m_data.r),
+        m_data.r >= 0 && isUnsigned(m_data.r) && isInRange<uint_type>(m_data.r),
         where << " in get_value(...) negative or fractional `real` value '" << m_data.r
               << "' cannot be converted into `uint_type'"
       )
@@ -1585,7 +1594,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()) && isInRange<uint_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `uint_type'"
       )
@@ -1625,11 +1634,17 @@ namespace GC_namespace {
       v = m_data.i;
       break;
     case GC_type::LONG:
+      GC_ASSERT(
+        m_data.l >= std::numeric_limits<int_type>::min() &&
+        m_data.l <= std::numeric_limits<int_type>::max(),
+        where << " in get_value(...) `long` value '" << m_data.l
+              << "' cannot be converted into `int_type'"
+      )
       v = static_cast<int>(m_data.l);
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        isInteger(m_data.r),
+        isInteger(m_data.r) && isInRange<int_type>(m_data.r),
         where << " in get_value(...) fractional `real` value '" << m_data.r
               << "' cannot be converted into `int_type'"
       )
@@ -1637,7 +1652,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()) && isInRange<int_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `int_type'"
       )
@@ -1691,7 +1706,7 @@ namespace GC_namespace {
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        m_data.r >= 0 && isUnsigned(m_data.r),
+        m_data.r >= 0 && isUnsigned(m_data.r) && isInRange<ulong_type>(m_data.r),
         where << " in get_value(...) negative or fractional `real` value '" << m_data.r
               << "' cannot be converted into `ulong_type'"
       )
@@ -1699,7 +1714,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()) && isInRange<ulong_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value "
               << to_string(*m_data.c) << " cannot be converted into `ulong_type'"
       )
@@ -1744,7 +1759,7 @@ namespace GC_namespace {
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        isInteger(m_data.r),
+        isInteger(m_data.r) && isInRange<long_type>(m_data.r),
         where << " in get_value(...) fractional `real` value '" << m_data.r
               << "' cannot be converted into `long_type'"
       )
@@ -1752,7 +1767,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()) && isInRange<long_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `long_type'"
       )
@@ -2626,14 +2641,17 @@ namespace GC_namespace {
       value = iv->second.m_data.i;
       break;
     case GC_type::LONG:
+      if ( iv->second.m_data.l < std::numeric_limits<int_type>::min() ||
+           iv->second.m_data.l > std::numeric_limits<int_type>::max() ) return false;
       value = static_cast<int_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( !isInteger(iv->second.m_data.r) ) return false;
+      if ( !( isInteger(iv->second.m_data.r) && isInRange<int_type>(iv->second.m_data.r) ) ) return false;
       value = static_cast<int_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
       if ( ! ( isInteger(iv->second.m_data.c->real()) &&
+               isInRange<int_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<int_type>(iv->second.m_data.c->real());
       break;
@@ -2677,15 +2695,17 @@ namespace GC_namespace {
       value = static_cast<uint_type>(iv->second.m_data.i);
       break;
     case GC_type::LONG:
-      if ( iv->second.m_data.l < 0 ) return false;
+      if ( iv->second.m_data.l < 0 ||
+           iv->second.m_data.l > std::numeric_limits<uint_type>::max() ) return false;
       value = static_cast<uint_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( ! isUnsigned(iv->second.m_data.r) ) return false;
+      if ( !( isUnsigned(iv->second.m_data.r) && isInRange<uint_type>(iv->second.m_data.r) ) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
       if ( ! ( isUnsigned(iv->second.m_data.c->real()) &&
+               isInRange<uint_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.c->real());
       break;
@@ -2731,11 +2751,12 @@ namespace GC_namespace {
       value = iv->second.m_data.l;
       break;
     case GC_type::REAL:
-      if ( ! isInteger(iv->second.m_data.r) ) return false;
+      if ( !( isInteger(iv->second.m_data.r) && isInRange<long_type>(iv->second.m_data.r) ) ) return false;
       value = static_cast<long_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
       if ( ! ( isInteger(iv->second.m_data.c->real()) &&
+               isInRange<long_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<long_type>(iv->second.m_data.c->real());
       break;
@@ -2783,11 +2804,12 @@ namespace GC_namespace {
       value = static_cast<ulong_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( ! isUnsigned(iv->second.m_data.r) ) return false;
+      if ( !( isUnsigned(iv->second.m_data.r) && isInRange<ulong_type>(iv->second.m_data.r) ) ) return false;
       value = static_cast<ulong_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
       if ( ! ( isUnsigned(iv->second.m_data.c->real()) &&
+               isInRange<ulong_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<ulong_type>(iv->second.m_data.c->real());
       break;
diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 4368a21..5f1b1c8 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -37,6 +37,9 @@
   #error This library needs at least a C++11 compliant compiler
 #endif
 
+#include <cmath>
+#include <limits>
+
 namespace GC_namespace {
 
   #ifndef DOXYGEN_SHOULD_SKIP_THIS
@@ -52,6 +55,13 @@ namespace GC_namespace {
   static bool isUnsigned( real_type const x )
   { return isInteger(x) && x >= 0; }
 
+  // true if the integer part of x can be stored in the integer type T
+  template <typename T>
+  static bool isInRange( real_type const x ) {
+    using limits = std::numeric_limits<T>;
+    return x >= static_cast<real_type>(limits::min()) && x < std::ldexp( real_type(1), limits::digits );
+  }
+
   #endif
 
   // ---------------------------------------------------------------------------
@@ -86,7 +96,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isInteger(rval),
+          isInteger(rval) && isInRange<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -110,7 +120,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isInteger(rval) && isInRange<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -119,7 +129,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger(cval.real()) && isInRange<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -128,7 +138,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger(cval.real()) && isInRange<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -149,7 +159,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isInteger(rval) && isInRange<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -158,7 +168,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger(cval.real()) && isInRange<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -221,7 +231,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned(rval) && isInRange<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -251,7 +261,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned(rval) && isInRange<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -260,7 +270,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned(cval.real()) && isInRange<uint_type>(cval.real()),
           where << " copyto_vec_uint: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         )
@@ -269,7 +279,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned(cval.real()) && isInRange<uint_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         );
@@ -296,7 +306,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned(rval) && isInRange<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -305,7 +315,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned(cval.real()) && isInRange<uint_type>(cval.real()),
           where << " copyto_vec_uint: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         )
@@ -354,7 +364,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isInteger(rval),
+          isInteger(rval) && isInRange<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -372,7 +382,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isInteger(rval) && isInRange<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -381,7 +391,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger(cval.real()) && isInRange<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -390,7 +400,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger(cval.real()) && isInRange<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -405,7 +415,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isInteger(rval) && isInRange<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -414,7 +424,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger(cval.real()) && isInRange<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -477,7 +487,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned(rval) && isInRange<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -507,7 +517,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned(rval) && isInRange<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -516,7 +526,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned(cval.real()) && isInRange<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         )
@@ -525,7 +535,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned(cval.real()) && isInRange<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         );
@@ -552,7 +562,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned(rval) && isInRange<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -561,7 +571,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned(cval.real()) && isInRange<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         )
-- 
2.43.0


From a02e1b2f1d497b323c5421b2d221e30dd88fd7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:34 +0000
Subject: [PATCH 010/125] fix: copyto_vec_complex refused real numbers in
 lists, copyto_vec_uint longs that fit

---
 src/GenericContainerPromote.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 5f1b1c8..4be9d26 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -222,7 +222,7 @@ namespace GC_namespace {
       case GC_type::LONG:
         lval = m_data.l;
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          static_cast<uint_type>(lval) == lval,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -252,7 +252,7 @@ namespace GC_namespace {
       case GC_type::VEC_LONG:
         lval = (*m_data.v_l)[i];
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          static_cast<uint_type>(lval) == lval,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -297,7 +297,7 @@ namespace GC_namespace {
       case GC_type::MAT_LONG:
         lval = (*m_data.m_l)[i];
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          static_cast<uint_type>(lval) == lval,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -690,7 +690,7 @@ namespace GC_namespace {
       case GC_type::MAT_LONG:    val = { static_cast<real_type>((*m_data.m_l)[i]),0 };         break;
       case GC_type::MAT_REAL:    val = {(*m_data.m_r)[i],0};                                   break;
       case GC_type::MAT_COMPLEX: val = (*m_data.m_c)[i];                                                 break;
-      case GC_type::VECTOR:      val = (*this)(i).get_complex();                                         break;
+      case GC_type::VECTOR:      val = (*this)(i).get_complex_number(where);                                         break;
 
       case GC_type::NOTYPE:
       case GC_type::POINTER:
-- 
2.43.0


From 573e1eaa97cc19faa64f60e9783d3f73b22fa49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:51 +0000
Subject: [PATCH 011/125] fix: promote_to_vector used the scalar after
 set_vector had overwritten it

---
 src/GenericContainerPromote.cc | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 4be9d26..e667906 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1900,25 +1900,16 @@ namespace GC_namespace {
       { set_vector(1); (*this)[0].clear(); } // set data to no type
       break;
     case GC_type::POINTER:
-      { set_vector(1); (*this)[0] = m_data.p; }
-      break;
     case GC_type::BOOL:
-      { set_vector(1); (*this)[0] = m_data.b; }
-      break;
     case GC_type::INTEGER:
-      { set_vector(1); (*this)[0] = m_data.i; }
-      break;
     case GC_type::LONG:
-      { set_vector(1); (*this)[0] = m_data.l; }
-      break;
     case GC_type::REAL:
-      { set_vector(1); (*this)[0] = m_data.r; }
-      break;
     case GC_type::COMPLEX:
-      { set_vector(1); (*this)[0] = *m_data.c; }
-      break;
     case GC_type::STRING:
-      { set_vector(1); (*this)[0] = *m_data.s; }
+      { GenericContainer const tmp(*this); // set_vector overwrites the stored value
+        set_vector(1);
+        (*m_data.v)[0].from_gc(tmp);
+      }
       break;
     case GC_type::VEC_POINTER:
       { vec_pointer_type const * v_p{m_data.v_p};
-- 
2.43.0


From 135561fff535c0a7f360ff24c516d0d9627a2847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:57 +0000
Subject: [PATCH 012/125] fix: promotions to matrices wrote through the wrong
 member

---
 src/GenericContainerPromote.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index e667906..38c433a 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1581,7 +1581,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_i)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1590,7 +1590,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
+          (*m_data.m_i)(i,0) = (*v_i)[i];
         delete v_i;
       }
       break;
@@ -1637,9 +1637,9 @@ namespace GC_namespace {
     case GC_type::VEC_BOOL:
       { vec_bool_type const * v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
-        set_mat_real(static_cast<unsigned>(v_b->size()),1);
+        set_mat_long(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_l)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1820,7 +1820,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_c)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1829,7 +1829,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
+          (*m_data.m_c)(i,0) = static_cast<real_type>((*v_i)[i]);
         delete v_i;
       }
       break;
@@ -1838,7 +1838,7 @@ namespace GC_namespace {
        m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_l)[i]);
+          (*m_data.m_c)(i,0) = static_cast<real_type>((*v_l)[i]);
         delete v_l;
       }
       break;
@@ -1847,7 +1847,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_r->size()),1);
         for ( unsigned i{0}; i < v_r->size(); ++i )
-          (*m_data.m_r)(i,0) = (*v_r)[i];
+          (*m_data.m_c)(i,0) = (*v_r)[i];
         delete v_r;
       }
       break;
-- 
2.43.0


From 1124c760713b61034157d783f2b247b178710a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:04 +0000
Subject: [PATCH 013/125] fix: promotions to matrices refused longs and complex
 numbers

---
 src/GenericContainerPromote.cc | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 38c433a..aa25b78 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1634,6 +1634,12 @@ namespace GC_namespace {
         get_long_at(0,0) = tmp;
       }
       break;
+    case GC_type::LONG:
+      { long_type const tmp{m_data.l};
+        set_mat_long(1,1);
+        get_long_at(0,0) = tmp;
+      }
+      break;
     case GC_type::VEC_BOOL:
       { vec_bool_type const * v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
@@ -1674,7 +1680,6 @@ namespace GC_namespace {
       break;
     case GC_type::POINTER:
     case GC_type::STRING:
-    case GC_type::LONG:
     case GC_type::REAL:
     case GC_type::COMPLEX:
     case GC_type::VEC_REAL:
@@ -1708,6 +1713,12 @@ namespace GC_namespace {
         get_real_at(0,0) = tmp;
       }
       break;
+    case GC_type::LONG:
+      { real_type const tmp{ static_cast<real_type>(m_data.l) };
+        set_mat_real(1,1);
+        get_real_at(0,0) = tmp;
+      }
+      break;
     case GC_type::REAL:
       { real_type const tmp{m_data.r};
         set_mat_real(1,1);
@@ -1772,7 +1783,6 @@ namespace GC_namespace {
       break;
     case GC_type::POINTER:
     case GC_type::STRING:
-    case GC_type::LONG:
     case GC_type::COMPLEX:
     case GC_type::VEC_COMPLEX:
     case GC_type::VEC_POINTER:
@@ -1815,6 +1825,12 @@ namespace GC_namespace {
         get_complex_at(0,0) = tmp;
       }
       break;
+    case GC_type::COMPLEX:
+      { complex_type const tmp{*m_data.c};
+        set_mat_complex(1,1);
+        get_complex_at(0,0) = tmp;
+      }
+      break;
     case GC_type::VEC_BOOL:
       { vec_bool_type const * v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
@@ -1851,6 +1867,15 @@ namespace GC_namespace {
         delete v_r;
       }
       break;
+    case GC_type::VEC_COMPLEX:
+      { vec_complex_type const * v_c{m_data.v_c};
+        m_data_type = GC_type::NOTYPE;
+        set_mat_complex(static_cast<unsigned>(v_c->size()),1);
+        for ( unsigned i{0}; i < v_c->size(); ++i )
+          (*m_data.m_c)(i,0) = (*v_c)[i];
+        delete v_c;
+      }
+      break;
     case GC_type::MAT_INTEGER:
       { mat_int_type const * m_i{m_data.m_i};
         m_data_type = GC_type::NOTYPE;
@@ -1881,10 +1906,8 @@ namespace GC_namespace {
     case GC_type::MAT_COMPLEX:
       break;
     case GC_type::POINTER:
-    case GC_type::COMPLEX:
     case GC_type::STRING:
     case GC_type::VEC_POINTER:
-    case GC_type::VEC_COMPLEX:
     case GC_type::VEC_STRING:
     case GC_type::VECTOR:
     case GC_type::MAP:
-- 
2.43.0


From e4e997e9987bcd950f0faeef7730e4122009640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:15 +0000
Subject: [PATCH 014/125] fix: map lookups ignored the length of the key and
 read past its end

---
 src/GenericContainer.cc | 42 ++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index e023744..f61c68f 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2379,7 +2379,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_as_int( where );
+    return this->m_data.m->at(string_type(key)).get_as_int( where );
   }
 
   int_type
@@ -2411,7 +2411,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_number( where );
+    return this->m_data.m->at(string_type(key)).get_number( where );
   }
 
   real_type
@@ -2443,7 +2443,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_string( where );
+    return this->m_data.m->at(string_type(key)).get_string( where );
   }
 
   string_view
@@ -2475,7 +2475,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_real( where );
+    return this->m_data.m->at(string_type(key)).get_vec_real( where );
   }
 
   vec_real_type const &
@@ -2507,7 +2507,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_complex( where );
+    return this->m_data.m->at(string_type(key)).get_vec_complex( where );
   }
 
   vec_complex_type const &
@@ -2539,7 +2539,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_string( where );
+    return this->m_data.m->at(string_type(key)).get_vec_string( where );
   }
 
   vec_string_type const &
@@ -2570,7 +2570,7 @@ namespace GC_namespace {
   bool
   GenericContainer::exists( string_view const s ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(s.data()) };
+    auto const iv{ m_data.m->find(string_type(s)) };
     return iv != m_data.m->end();
   }
 
@@ -2578,7 +2578,7 @@ namespace GC_namespace {
   GenericContainer::exists( vec_string_type const & vs ) const {
     if (m_data_type != GC_type::MAP) return false;
     return std::any_of(vs.begin(), vs.end(),
-      [this](string_type const & s) { return m_data.m->find(s.data()) != m_data.m->end(); }
+      [this](string_type const & s) { return m_data.m->find(s) != m_data.m->end(); }
     );
   }
   string
@@ -2600,7 +2600,7 @@ namespace GC_namespace {
   bool
   GenericContainer::get_if_exists( string_view const field, bool & value ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string_type(field)) };
     if ( iv == m_data.m->end() ) return false;
     if ( iv->second.m_data_type != GC_type::BOOL ) return false;
     value = iv->second.m_data.b;
@@ -2631,7 +2631,7 @@ namespace GC_namespace {
     int_type &        value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string_type(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2684,7 +2684,7 @@ namespace GC_namespace {
     uint_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string_type(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2738,7 +2738,7 @@ namespace GC_namespace {
     long_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string_type(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2789,7 +2789,7 @@ namespace GC_namespace {
     ulong_type &      value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string_type(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2842,7 +2842,7 @@ namespace GC_namespace {
     real_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string_type(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2890,7 +2890,7 @@ namespace GC_namespace {
     complex_type &    value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string_type(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2937,7 +2937,7 @@ namespace GC_namespace {
     string_type &     value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string_type(field)) };
     if ( iv == m_data.m->end() ) return false;
     if ( iv->second.m_data_type != GC_type::STRING ) return false;
     value = *iv->second.m_data.s;
@@ -3352,7 +3352,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    auto iv{ m_data.m->find(s.data()) };
+    auto iv{ m_data.m->find(string_type(s)) };
     if ( iv == m_data.m->end() ) {
       GC_DO_ERROR(
         where << " operator(): Cannot find key '" << s <<
@@ -3370,7 +3370,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    auto iv{ m_data.m->find(s.data()) };
+    auto iv{ m_data.m->find(string_type(s)) };
     if ( iv == m_data.m->end() ) {
       GC_DO_ERROR(
         where << "\noperator() const: Cannot find key '" << s <<
@@ -3426,7 +3426,7 @@ namespace GC_namespace {
   GenericContainer &
   GenericContainer::operator [] ( string_view const s ) {
     if ( ck( GC_type::MAP ) != 0 ) set_map(); // if not data present allocate!
-    return (*m_data.m)[s.data()];
+    return (*m_data.m)[string_type(s)];
   }
 
   GenericContainer const &
@@ -3437,7 +3437,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    return (*m_data.m)[s.data()];
+    return (*m_data.m)[string_type(s)];
   }
 
   /*
@@ -3860,7 +3860,7 @@ namespace GC_namespace {
 
   void
   GenericContainer::exception( string_view const where ) {
-    throw std::runtime_error(where.data());
+    throw std::runtime_error(string_type(where));
   }
 
   // instantate classes
-- 
2.43.0


From 1cb57fca9c199ae674bc95ef5bf70b2a2963597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:30 +0000
Subject: [PATCH 015/125] fix: const operator[] added the missing key to a
 const map

---
 src/GenericContainer.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index f61c68f..0f5665d 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3437,7 +3437,13 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    return (*m_data.m)[string_type(s)];
+    auto const iv{ m_data.m->find(string_type(s)) };
+    GC_ASSERT(
+      iv != m_data.m->end(),
+      "operator [] const: Cannot find key '" << s <<
+      "'!\npossibile keys: " << get_keys()
+    )
+    return iv->second;
   }
 
   /*
-- 
2.43.0


From 2c19e4c6744ed32b16111c797e94c9603f2b46a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:44 +0000
Subject: [PATCH 016/125] fix: typed access to an empty container returned an
 uninitialised value

---
 src/GenericContainer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 0f5665d..dd807b5 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -748,8 +748,12 @@ namespace GC_namespace {
 
   void
   GenericContainer::ck_or_set( string_view const where, TypeAllowed const tp ) {
-    if ( m_data_type == GC_type::NOTYPE ) m_data_type = tp;
-    else                                  ck(where,tp);
+    if ( m_data_type == GC_type::NOTYPE ) {
+      m_data.l    = 0; // b, i, l, r and p start as zero
+      m_data_type = tp;
+    } else {
+      ck(where,tp);
+    }
   }
 
   /*
-- 
2.43.0


From 5ae444dcfed32d8facd689e385f5df8ff2a0ae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:58 +0000
Subject: [PATCH 017/125] fix: get_*_at reset the elements of a vector that
 already had the right type

---
 src/GenericContainer.cc | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index dd807b5..1b2cb65 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2958,7 +2958,9 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_bool(false);
+    GenericContainer & gc{ (*m_data.v)[i] };
+    if ( gc.m_data_type != GC_type::BOOL ) gc.set_bool(false);
+    return gc.get_bool();
   }
 
   bool_type
@@ -2983,7 +2985,9 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_int(0);
+    GenericContainer & gc{ (*m_data.v)[i] };
+    if ( gc.m_data_type != GC_type::INTEGER ) gc.set_int(0);
+    return gc.get_int();
   }
 
   int_type const &
@@ -3034,7 +3038,9 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_long(0);
+    GenericContainer & gc{ (*m_data.v)[i] };
+    if ( gc.m_data_type != GC_type::LONG ) gc.set_long(0);
+    return gc.get_long();
   }
 
   long_type const &
@@ -3084,7 +3090,9 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_real(0);
+    GenericContainer & gc{ (*m_data.v)[i] };
+    if ( gc.m_data_type != GC_type::REAL ) gc.set_real(0);
+    return gc.get_real();
   }
 
   real_type const &
@@ -3136,7 +3144,9 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_complex(0,0);
+    GenericContainer & gc{ (*m_data.v)[i] };
+    if ( gc.m_data_type != GC_type::COMPLEX ) gc.set_complex(0,0);
+    return gc.get_complex();
   }
 
   complex_type const &
@@ -3181,7 +3191,9 @@ namespace GC_namespace {
       return (*m_data.v_s)[i];
     }
     promote_to_vector();
-    return (*this)[i].set_string("");
+    GenericContainer & gc{ (*this)[i] };
+    if ( gc.m_data_type != GC_type::STRING ) gc.set_string("");
+    return gc.get_string();
   }
 
   string_view
-- 
2.43.0


From 3ea8fc6ab7e357289b93a49b3570ce408a052fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:15 +0000
Subject: [PATCH 018/125] fix: get_number_at and get_complex_number_at did not
 check the index

---
 src/GenericContainer.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 1b2cb65..184de89 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -1966,6 +1966,10 @@ namespace GC_namespace {
 
   real_type
   GenericContainer::get_number_at( unsigned const i, string_view const where ) const {
+    GC_ASSERT(
+      i < get_num_elements(),
+      where << " get_number_at( " << i << " ) const, out of range"
+    )
     switch (m_data_type) {
     case GC_type::VEC_BOOL:    return (*m_data.v_b)[i] ? 1 : 0;
     case GC_type::VEC_INTEGER: return (*m_data.v_i)[i];
@@ -1998,6 +2002,10 @@ namespace GC_namespace {
 
   complex_type
   GenericContainer::get_complex_number_at( unsigned const i, string_view const where ) const {
+    GC_ASSERT(
+      i < get_num_elements(),
+      where << " get_complex_number_at( " << i << " ) const, out of range"
+    )
     switch (m_data_type) {
     case GC_type::VEC_BOOL:    return {static_cast<real_type>( (*m_data.v_b)[i]?1:0 ),0};
     case GC_type::VEC_INTEGER: return {static_cast<real_type>( (*m_data.v_i)[i] ),0};
-- 
2.43.0


From 3634b564dceeac4f63cdb668b0772abe372b1a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:28 +0000
Subject: [PATCH 019/125] fix: get_*_at(i,j) on an empty container made a
 matrix too small or of the wrong type

---
 src/GenericContainer.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 184de89..0058091 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3010,7 +3010,7 @@ namespace GC_namespace {
 
   int_type &
   GenericContainer::get_int_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_int(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ) promote_to_mat_int();
     GC_ASSERT(
@@ -3063,7 +3063,7 @@ namespace GC_namespace {
 
   long_type &
   GenericContainer::get_long_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_long(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG ) promote_to_mat_long();
@@ -3115,7 +3115,7 @@ namespace GC_namespace {
 
   real_type &
   GenericContainer::get_real_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG ||
@@ -3133,7 +3133,7 @@ namespace GC_namespace {
   GenericContainer::get_real_at( unsigned const i, unsigned const j, string_view const where ) const  {
     ck(where,GC_type::MAT_REAL);
     GC_ASSERT(
-      i < m_data.v_r->size(),
+      i < m_data.m_r->num_rows() && j < m_data.m_r->num_cols(),
       where << " get_real_at( " << i << ", " << j << " ) const, out of range"
     )
     return (*m_data.m_r)(i,j);
@@ -3169,7 +3169,7 @@ namespace GC_namespace {
 
   complex_type &
   GenericContainer::get_complex_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_complex(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_complex(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG    ||
-- 
2.43.0


From 93672025140f2ef543a345ab63bddfc4dc1d9152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:40 +0000
Subject: [PATCH 020/125] fix: get_if_exists read booleans from the keys that
 do not hold one

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 0058091..ac18758 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2627,7 +2627,7 @@ namespace GC_namespace {
     if ( m_data_type != GC_type::MAP ) return false;
     map_type & m = *m_data.m;
     for ( string_type const & field : fields ) {
-      if ( auto iv{ m.find(field) }; iv != m.end() && iv->second.m_data_type != GC_type::BOOL ) {
+      if ( auto iv{ m.find(field) }; iv != m.end() && iv->second.m_data_type == GC_type::BOOL ) {
         value = iv->second.m_data.b;
         return true;
       }
-- 
2.43.0


From 5f0310064eb056c9dcf00ae0217f6ff7ded1e554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:55 +0000
Subject: [PATCH 021/125] fix: push on an empty container added a spurious
 element

---
 src/GenericContainer.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index ac18758..4fd6048 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -1198,7 +1198,8 @@ namespace GC_namespace {
       m_data.v->resize(m_data.v->size()+1);
       m_data.v->back().set_int( i );
     } else {
-      if ( m_data_type != GC_type::VEC_INTEGER ) promote_to_vec_int();
+      if      ( m_data_type == GC_type::NOTYPE ) set_vec_int();
+      else if ( m_data_type != GC_type::VEC_INTEGER ) promote_to_vec_int();
       m_data.v_i->emplace_back( i );
     }
   }
@@ -1215,7 +1216,8 @@ namespace GC_namespace {
       m_data.v->resize(m_data.v->size()+1);
       m_data.v->back().set_long( l );
     } else {
-      if ( m_data_type != GC_type::VEC_LONG ) promote_to_vec_long();
+      if      ( m_data_type == GC_type::NOTYPE ) set_vec_long();
+      else if ( m_data_type != GC_type::VEC_LONG ) promote_to_vec_long();
       m_data.v_l->emplace_back( l );
     }
   }
@@ -1230,7 +1232,8 @@ namespace GC_namespace {
       m_data.v->resize(m_data.v->size()+1);
       m_data.v->back().set_real( r );
     } else {
-      if ( m_data_type != GC_type::VEC_REAL ) promote_to_vec_real();
+      if      ( m_data_type == GC_type::NOTYPE ) set_vec_real();
+      else if ( m_data_type != GC_type::VEC_REAL ) promote_to_vec_real();
       m_data.v_r->emplace_back( r );
     }
   }
@@ -1241,7 +1244,8 @@ namespace GC_namespace {
       m_data.v->resize(m_data.v->size()+1);
       m_data.v->back().set_complex( c );
     } else {
-      if ( m_data_type != GC_type::VEC_COMPLEX ) promote_to_vec_complex();
+      if      ( m_data_type == GC_type::NOTYPE ) set_vec_complex();
+      else if ( m_data_type != GC_type::VEC_COMPLEX ) promote_to_vec_complex();
       m_data.v_c->emplace_back( c );
     }
   }
@@ -1254,7 +1258,8 @@ namespace GC_namespace {
 
   void
   GenericContainer::push_string( string_view const s ) {
-    if ( m_data_type != GC_type::VEC_STRING ) promote_to_vector();
+    if      ( m_data_type == GC_type::NOTYPE     ) set_vec_string();
+    else if ( m_data_type != GC_type::VEC_STRING ) promote_to_vector();
     if ( m_data_type == GC_type::VEC_STRING ) {
       m_data.v_s->emplace_back( s );
     } else {
-- 
2.43.0


From 79ae486e446040cf255f438d76044166df29f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:49 +0000
Subject: [PATCH 022/125] fix: unsigned values that do not fit in an int were
 stored as negative

---
 include/GenericContainer/GenericContainer.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 4faee7d..17e5852 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -3357,7 +3357,11 @@ namespace GC_namespace {
     //! container.set(42u); // Store 42 as an unsigned integer in the container
     //! \endcode
     //!
-    void set( uint_type const & a ) { this->set_int(int_type(a)); }
+    void
+    set( uint_type const & a ) {
+      if ( a <= uint_type(0x7FFFFFFF) ) this->set_int(int_type(a));
+      else                              this->set_long(long_type(a)); // do not fit in int_type
+    }
 
     //!
     //! Assign an integer to the generic container.
@@ -3523,7 +3527,7 @@ namespace GC_namespace {
     //! \param[in] a integer to be stored
     //!
     GenericContainer & operator = ( uint_type const & a )
-    { this->set_int(int_type(a)); return * this; }
+    { this->set(a); return * this; }
 
     //!
     //! Assign an integer to the generic container.
-- 
2.43.0


From f14043dab03ab6d79956dcbe51d482aaef018e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:06 +0000
Subject: [PATCH 023/125] fix: mat_type::data on an empty matrix and the size
 of large matrices

---
 include/GenericContainer/GenericContainer.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 17e5852..bbfb438 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -189,7 +189,7 @@ namespace GC_namespace {
     mat_type( unsigned nr, unsigned nc )
     : m_num_rows(nr)
     , m_num_cols(nc)
-    { vector<TYPE>::resize(size_type(nr*nc)); }
+    { vector<TYPE>::resize(size_type(nr)*size_type(nc)); }
 
     //!
     //! Resizes the matrix to the specified dimensions.
@@ -207,7 +207,7 @@ namespace GC_namespace {
     resize( unsigned nr, unsigned nc ) {
       m_num_rows = nr;
       m_num_cols = nc;
-      vector<TYPE>::resize(size_type(nr*nc));
+      vector<TYPE>::resize(size_type(nr)*size_type(nc));
     }
 
     //!
@@ -406,7 +406,7 @@ namespace GC_namespace {
     //! int *dataPtr = matrix.data();  // Pointer to matrix data
     //! \endcode
     //!
-    TYPE * data() { return &vector<TYPE>::front(); }
+    TYPE * data() { return vector<TYPE>::data(); }
 
     //!
     //! Returns a constant pointer to the underlying data block of the matrix.
@@ -419,7 +419,7 @@ namespace GC_namespace {
     //! const int *dataPtr = matrix.data();  // Constant pointer to matrix data
     //! \endcode
     //!
-    TYPE const * data() const { return &vector<TYPE>::front(); }
+    TYPE const * data() const { return vector<TYPE>::data(); }
   };
 
   // ---------------------------------------------------------------------------
-- 
2.43.0


From ee2c4ab1f68b2123a7544ae84b54a74d30925719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:23 +0000
Subject: [PATCH 024/125] fix: get_mat_complex refused matrices of integers

---
 src/GenericContainer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 4fd6048..bd31709 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2319,6 +2319,8 @@ namespace GC_namespace {
          m_data_type == GC_type::VEC_INTEGER ||
          m_data_type == GC_type::VEC_LONG    ||
          m_data_type == GC_type::VEC_REAL    ||
+         m_data_type == GC_type::MAT_INTEGER ||
+         m_data_type == GC_type::MAT_LONG    ||
          m_data_type == GC_type::MAT_REAL    ||
          m_data_type == GC_type::VEC_COMPLEX ) promote_to_mat_complex();
     ck(where,GC_type::MAT_COMPLEX);
@@ -3180,6 +3182,8 @@ namespace GC_namespace {
               m_data_type == GC_type::VEC_LONG    ||
               m_data_type == GC_type::VEC_REAL    ||
               m_data_type == GC_type::VEC_COMPLEX ||
+              m_data_type == GC_type::MAT_INTEGER ||
+              m_data_type == GC_type::MAT_LONG    ||
               m_data_type == GC_type::MAT_REAL ) promote_to_mat_complex();
     GC_ASSERT(
       GC_type::MAT_COMPLEX == m_data_type,
-- 
2.43.0


From 61b348f89142e7300dde5ea094de48a89b628944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:58 +0000
Subject: [PATCH 025/125] fix: collapse threw on lists mixing numbers with
 other values or with vectors

---
 src/GenericContainerCollapse.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/GenericContainerCollapse.cc b/src/GenericContainerCollapse.cc
index 1238a24..fc52b06 100755
--- a/src/GenericContainerCollapse.cc
+++ b/src/GenericContainerCollapse.cc
@@ -57,12 +57,15 @@ namespace GC_namespace {
         auto max_sub_type{GC_type::NOTYPE};
         bool can_collapse{true};
         bool all_string{true};
+        bool all_numeric{true};
         int_type last_nelem{-1};
         for ( auto & vi : v ) {
           vi.collapse();
           // get type
           auto ti{vi.get_type()};
           if ( ti != GC_type::STRING ) all_string = false;
+          if ( ( ti < GC_type::BOOL     || ti > GC_type::COMPLEX     ) &&
+               ( ti < GC_type::VEC_BOOL || ti > GC_type::VEC_COMPLEX ) ) all_numeric = false;
           if ( max_sub_type < ti ) max_sub_type = ti;
           int_type ne{ static_cast<int_type>(vi.get_num_elements()) };
           if ( last_nelem >= 0 && can_collapse ) {
@@ -79,6 +82,20 @@ namespace GC_namespace {
           *this = tmp;
           break;
         }
+        if ( !all_numeric ) break; // leave as is lists with elements that are not numbers
+        if ( max_sub_type >= GC_type::VEC_BOOL ) {
+          // a scalar among vectors counts as a vector with one element
+          for ( auto const & vi : v ) {
+            auto ti{vi.get_type()};
+            if ( ti > GC_type::COMPLEX ) continue;
+            ti = static_cast<GC_type>(
+              static_cast<int_type>(ti) +
+              static_cast<int_type>(GC_type::VEC_BOOL) -
+              static_cast<int_type>(GC_type::BOOL)
+            );
+            if ( max_sub_type < ti ) max_sub_type = ti;
+          }
+        }
         switch ( max_sub_type ) {
           case GC_type::BOOL: {
             vec_bool_type tmp; tmp.reserve(v.size());
-- 
2.43.0


From 0c5d2293271a37ae71c324a6a868a584822ae345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:29 +0000
Subject: [PATCH 026/125] fix: copyto_mat_complex refused complex matrices

---
 src/GenericContainerPromote.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index aa25b78..4184a63 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1086,6 +1086,9 @@ namespace GC_namespace {
         std::copy_n( m_r->data(), m_r->num_rows()*m_r->num_cols(), m.data() );
       }
       break;
+    case GC_type::MAT_COMPLEX:
+      m = *m_data.m_c;
+      break;
     case GC_type::VECTOR:
       { vector_type const & v{*m_data.v};
         if ( auto nc{static_cast<unsigned>(v.size())}; nc > 0 ) {
@@ -1113,7 +1116,6 @@ namespace GC_namespace {
     case GC_type::STRING:
     case GC_type::VEC_POINTER:
     case GC_type::VEC_STRING:
-    case GC_type::MAT_COMPLEX:
     case GC_type::MAP:
       GC_DO_ERROR( where << "copyto_mat_complex() cannot promote " << get_type_name() << " to mat_complex_type" )
     }
-- 
2.43.0


From dc9597d32814091f63800dd95645fafa76834c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:35 +0000
Subject: [PATCH 027/125] fix: string_escape wrote control characters that JSON
 does not allow

---
 src/GenericContainer.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index bd31709..13696c7 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -97,11 +97,14 @@ namespace GC_namespace {
       else if ( c == '\n' ) { stream << "\\n"; }
       else if ( c == '\r' ) { stream << "\\r"; }
       else if ( c == '\t' ) { stream << "\\t"; }
-      else if ( c == '\v' ) { stream << "\\v"; }
       else if ( c == '\b' ) { stream << "\\b"; }
-      else if ( c == '\a' ) { stream << "\\a"; }
       else if ( c == '\\' ) { stream << "\\\\"; }
-      else                    stream << c;
+      else if ( static_cast<unsigned char>(c) < 0x20 ) {
+        // the other control characters are not allowed, \v and \a are not JSON escapes
+        char const hex[]{"0123456789abcdef"};
+        stream << "\\u00" << hex[(c>>4)&0x0F] << hex[c&0x0F];
+      }
+      else stream << c;
     }
     stream << '"';
   }
-- 
2.43.0


From 3208107b3faeb4b478d26f1867c997c076c3cad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:08 +0000
Subject: [PATCH 028/125] fix: to_json did not escape the keys of maps

---
 src_json_interface/to_json.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index c2ed0bf..d79758f 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -138,7 +138,9 @@ namespace GC_namespace {
           stream << '\n' << prefix;
           char const * pre{"{\n"};
           for ( auto const & im : m ) {
-            stream << pre << prefix << indent << '"' << im.first <<  '"' << ": ";
+            stream << pre << prefix << indent;
+            string_escape( stream, im.first );
+            stream << ": ";
             im.second.to_json(stream,prefix1);
             pre = ",\n";
           }
-- 
2.43.0


From 0386f7de68f4d922266c829c39d440b5c46c6a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:10 +0000
Subject: [PATCH 029/125] fix: to_json wrote complex matrices with single
 quotes

---
 src_json_interface/to_json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index d79758f..8bd038a 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -178,7 +178,7 @@ namespace GC_namespace {
       }
       case GC_type::MAT_COMPLEX: {
         mat_complex_type const & M{*m_data.m_c};
-        GC_PRINT_MATRIX("'" << to_string(M(i,j)) << "'");
+        GC_PRINT_MATRIX('"' << to_string(M(i,j)) << '"');
         break;
       }
       case GC_type::POINTER:
-- 
2.43.0


From 006856723f8cf109268e860573a9d53a37d26eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:13 +0000
Subject: [PATCH 030/125] fix: to_json wrote pointers as hexadecimal numbers
 and left the stream in hexadecimal

---
 src_json_interface/to_json.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index 8bd038a..c441af6 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -45,6 +45,15 @@ namespace GC_namespace {
   //         |_____|__/
   */
 
+  // hexadecimal numbers are not JSON, write the address as a string
+  static
+  void
+  print_pointer( ostream_type & stream, void const * p ) {
+    ostringstream ost;
+    ost << std::hex << std::showbase << reinterpret_cast<uintptr_t>(p);
+    stream << '"' << ost.str() << '"';
+  }
+
   void
   GenericContainer::to_json(
     ostream_type & stream,
@@ -182,13 +191,14 @@ namespace GC_namespace {
         break;
       }
       case GC_type::POINTER:
-        stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p);
+        print_pointer( stream, m_data.p );
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
         char const * pre{"[ "};
         for ( auto const & vi : V ) {
-          stream << pre << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi);
+          stream << pre;
+          print_pointer( stream, vi );
           pre = ", ";
         }
         stream << " ]";
-- 
2.43.0


From 36d4b2acd71fb0ac00834db51ca3d3bf477b4d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:15 +0000
Subject: [PATCH 031/125] fix: to_json of empty vectors, matrices, lists and
 maps was not valid JSON

---
 src_json_interface/to_json.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index c441af6..6fe5a23 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -85,6 +85,7 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_BOOL: {
         vec_bool_type const & v{*m_data.v_b};
+        if ( v.empty() ) { stream << "[]"; break; }
         string_view pre{"[ "};
         for ( bool vi : v ) {
           stream << pre << (vi?"true":"false");
@@ -94,7 +95,8 @@ namespace GC_namespace {
         break;
       }
       #define GC_PRINT_VECTOR(VDATA)              \
-      string_view pre = "[ ";                     \
+        if ( v.empty() ) { stream << "[]"; break; } \
+        string_view pre = "[ ";                   \
         for ( auto const & vi : v )               \
           { stream << pre << VDATA; pre = ", "; } \
         stream << " ]"
@@ -121,6 +123,7 @@ namespace GC_namespace {
       }
       case GC_type::VEC_STRING: {
         vec_string_type const & v{*m_data.v_s};
+        if ( v.empty() ) { stream << "[]"; break; }
         char const * pre = "[ ";
         for ( auto const & vi : v )
           { stream << pre; string_escape(stream,vi); pre = ", "; }
@@ -129,7 +132,9 @@ namespace GC_namespace {
       }
       case GC_type::VECTOR: {
         vector_type const & v{*m_data.v};
-        if ( !v.empty() ) {
+        if ( v.empty() ) {
+          stream << "[]";
+        } else {
           stream << '\n' << prefix;
           char const * pre{"[\n"};
           for ( auto const & vi : v ) {
@@ -143,7 +148,9 @@ namespace GC_namespace {
       }
       case GC_type::MAP: {
         map_type const & m{*m_data.m};
-        if ( !m.empty() ) {
+        if ( m.empty() ) {
+          stream << "{}";
+        } else {
           stream << '\n' << prefix;
           char const * pre{"{\n"};
           for ( auto const & im : m ) {
@@ -160,10 +167,12 @@ namespace GC_namespace {
       #define GC_PRINT_MATRIX(MDATA)                 \
         unsigned NR{M.num_rows()};                   \
         unsigned NC{M.num_cols()};                   \
+        if ( NC == 0 ) { stream << "[]"; break; }    \
         stream << "[\n";                             \
         string pre0 = prefix1+"[ ";                  \
         for ( unsigned j{0}; j < NC; ++j ) {         \
           string pre{pre0};                          \
+          if ( NR == 0 ) stream << pre;              \
           for ( unsigned i{0}; i < NR; ++i )         \
             { stream << pre << MDATA; pre = ", "; }  \
           pre0 = " ],\n"+prefix1+"[ ";               \
@@ -195,6 +204,7 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
+        if ( V.empty() ) { stream << "[]"; break; }
         char const * pre{"[ "};
         for ( auto const & vi : V ) {
           stream << pre;
-- 
2.43.0


From cc41ffdbcf0513315414d52cf03beabbba7c12e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:38 +0000
Subject: [PATCH 032/125] fix: from_json truncated strings and keys at an
 embedded NUL

---
 src_json_interface/from_json.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index 5c109e8..62ed7e6 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -73,7 +73,7 @@ namespace GC_namespace {
     } else if ( value.IsDouble() ) {
       gc = value.GetDouble();
     } else if ( value.IsString() ) {
-      gc = value.GetString();
+      gc.set_string( string( value.GetString(), value.GetStringLength() ) );
     } else if ( value.IsArray() ) {
       vector_type & V{ gc.set_vector( value.Size() ) };
       for ( rapidjson::SizeType i{0}; i < value.Size(); ++i )
@@ -82,7 +82,7 @@ namespace GC_namespace {
       map_type & M{ gc.set_map() };
       map<std::string, GenericContainer> object;
       for ( auto it = value.MemberBegin(); ok && it != value.MemberEnd(); ++it ) {
-        GenericContainer & gc1 = M[it->name.GetString()];
+        GenericContainer & gc1 = M[string( it->name.GetString(), it->name.GetStringLength() )];
         ok = decode_json(gc1,it->value);
       }
     } else {
-- 
2.43.0


From 561b09c62f54c328b67017dded57f5600b194b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:45 +0000
Subject: [PATCH 033/125] fix: from_json stored integers above the range of
 long as negative

---
 src_json_interface/from_json.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index 62ed7e6..c312c2d 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -68,9 +68,7 @@ namespace GC_namespace {
       gc = value.GetUint();
     } else if ( value.IsInt64() ) {
       gc = value.GetInt64();
-    } else if ( value.IsUint64() ) {
-      gc = value.GetUint64();
-    } else if ( value.IsDouble() ) {
+    } else if ( value.IsNumber() ) { // real or integer out of the range of long
       gc = value.GetDouble();
     } else if ( value.IsString() ) {
       gc.set_string( string( value.GetString(), value.GetStringLength() ) );
-- 
2.43.0


From db061af0aefdce0c46d0f3a956603f401de716ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:52 +0000
Subject: [PATCH 034/125] fix: from_json mixed the values read with the
 previous contents of the container

---
 src_json_interface/from_json.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index c312c2d..54a7b69 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -58,8 +58,9 @@ namespace GC_namespace {
     static regex complex_regex(R"(^([+-]?\d+(\.\d+)?)[+-](\d+(\.\d+)?)i$)");
 
     bool ok{true};
+    gc.clear(); // nothing of what was stored before must remain
     if ( value.IsNull() ) {
-      gc.clear();
+      // nothing to store
     } else if ( value.IsBool() ) {
       gc = value.GetBool();
     } else if ( value.IsInt() ) {
-- 
2.43.0


From 4ccd6efa8b3801fe4b4136565bf658de0752a120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:00 +0000
Subject: [PATCH 035/125] fix: from_json rounded real numbers inexactly

---
 src_json_interface/from_json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index 54a7b69..c2c37e2 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -100,7 +100,7 @@ namespace GC_namespace {
     rapidjson::Document document;
 
     // Parse del file
-    document.ParseStream(isw);
+    document.ParseStream<rapidjson::kParseFullPrecisionFlag>(isw);
 
     // Controllare eventuali errori di parsing
     if (document.HasParseError()) {
-- 
2.43.0


From 097d12462ddff54b3036abd9533d2d76ac5349af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:52 +0000
Subject: [PATCH 036/125] fix: from_json2 took the text it could not read as
 the end of the input

An unknown character, a bad number or an unterminated string made the lexer
return -1 or 0, which the parser takes as the end of the input: whatever
followed the first value was ignored. A number as the last thing in the
input was lost, and white space after the value read past the end.
---
 src_json_interface/jsonLexer.cc | 47 ++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/src_json_interface/jsonLexer.cc b/src_json_interface/jsonLexer.cc
index a4c38c8..e100663 100644
--- a/src_json_interface/jsonLexer.cc
+++ b/src_json_interface/jsonLexer.cc
@@ -23,15 +23,15 @@ namespace yy {
   int
   jsonLexer::yylex( std::string * yylval, yy::location * yylloc ) {
 
-    if ( m_cursor == m_input.end() ) return 0; // EOF
-
     // skip whitespace
-    do {
+    for ( ; m_cursor != m_input.end(); ++m_cursor ) {
       char const & ch{*m_cursor};
-      if      ( ch == '\n'  ) { ++m_lineno; m_colno = 1; }
-      else if ( isspace(ch) ) ++m_colno;
-      else                    break;
-    } while ( ++m_cursor != m_input.end() );
+      if      ( ch == '\n' ) { ++m_lineno; m_colno = 1; }
+      else if ( isspace(static_cast<unsigned char>(ch)) ) ++m_colno;
+      else                   break;
+    }
+
+    if ( m_cursor == m_input.end() ) return 0; // EOF
 
     auto res{yy::parser::token::ERROR};
 
@@ -72,7 +72,7 @@ namespace yy {
         // controllo che non sia unicode
         if ( unicode_1(ch0) ) {
           if ( ch0 == '\\' ) {
-            if ( ++m_cursor == m_input.end() ) return 0; // EOF
+            if ( ++m_cursor == m_input.end() ) return res; // string not terminated
             char const & ch1{*m_cursor};
             switch (ch1) {
             case 'n':  m_lexeme += '\n'; break;
@@ -91,17 +91,17 @@ namespace yy {
           }
         } else { // multibyte unicode
           m_lexeme += ch0;
-          if ( ++m_cursor == m_input.end() ) return 0; // EOF
+          if ( ++m_cursor == m_input.end() ) return res; // string not terminated
           char const & ch1{*m_cursor};
           if ( !ok_unicode(ch1) ) break; // Invalid UTF-8 continuation byte
           m_lexeme += ch1;
           if ( unicode_min_3(ch0) ) {
-            if ( ++m_cursor == m_input.end() ) return 0; // EOF
+            if ( ++m_cursor == m_input.end() ) return res; // string not terminated
             char const & ch2{*m_cursor};
             if ( !ok_unicode(ch2) ) break; // Invalid UTF-8 continuation byte
             m_lexeme += ch2;
             if ( unicode_min_4(ch0) ) {
-              if ( ++m_cursor == m_input.end() ) return 0; // EOF
+              if ( ++m_cursor == m_input.end() ) return res; // string not terminated
               char const & ch3{*m_cursor};
               if ( !ok_unicode(ch3) ) break; // Invalid UTF-8 continuation byte
               m_lexeme += ch3;
@@ -124,36 +124,35 @@ namespace yy {
     case '9': // Numeri o altri caratteri
       char const & ch0{*m_cursor};
       int state{ (ch0 == '+' || ch0 == '-') ? 0 : 1 };
+      // state: 0 sign, 1 digits, 2 after the dot, 3 after e, 4 digits of the exponent, 5 sign of the exponent
       while ( ++m_cursor != m_input.end() ) {
         char const & ch{*m_cursor};
-        m_lexeme += ch;
-        if ( isdigit(ch) ) {
-          if      ( state == 0 ) state = 1;
-          else if ( state == 3 ) state = 4;
+        if ( isdigit(static_cast<unsigned char>(ch)) ) {
+          if      ( state == 0               ) state = 1;
+          else if ( state == 3 || state == 5 ) state = 4;
         } else if ( ch == '.' ) {
-          if ( state > 1 ) break;
+          if ( state > 1 ) return res;
           state = 2;
         } else if ( ch == 'e' || ch == 'E' ) {
-          if ( state > 2 || state == 0 ) break;
+          if ( state > 2 || state == 0 ) return res;
           state = 3;
         } else if ( ch == '+' || ch == '-' ) {
-          if ( state != 3 ) return false;
-          state = 4;
+          if ( state != 3 ) return res;
+          state = 5;
         } else {
-          //std::cout << "STATE = " << state << '\n';
-          m_lexeme.pop_back();
-          if      ( state == 1               ) res = yy::parser::token::INTEGER;
-          else if ( state == 4 || state == 2 ) res = yy::parser::token::FLOAT;
           break;
         }
+        m_lexeme += ch;
       }
+      if      ( state == 1               ) res = yy::parser::token::INTEGER;
+      else if ( state == 4 || state == 2 ) res = yy::parser::token::FLOAT;
       break;
     }
     if ( res == yy::parser::token::ERROR ) {
       //std::cerr << "lexeme: " << m_lexeme << "\n";
       //std::cerr << "FAILED\n";
       m_cursor = start_pos;  // Ripristina la posizione iniziale
-      return -1;             // Se nessuna corrispondenza
+      return res;            // Se nessuna corrispondenza
     } else {
       m_colno += m_cursor-start_pos;
       //yylloc->begin.line   = m_lineno;
-- 
2.43.0


From 73d95186bd05e434919947a834ac713f2bca2b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:54 +0000
Subject: [PATCH 037/125] fix: from_json2 did not decode the escapes \u and \/

---
 src_json_interface/jsonLexer.cc | 53 +++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/src_json_interface/jsonLexer.cc b/src_json_interface/jsonLexer.cc
index e100663..764ff38 100644
--- a/src_json_interface/jsonLexer.cc
+++ b/src_json_interface/jsonLexer.cc
@@ -19,6 +19,43 @@ namespace yy {
 
   inline bool ok_unicode ( char c ) { return ( reinterpret_cast<unsigned char&>(c) & 0xC0 ) == 0x80; }
 
+  // read the 4 hexadecimal digits of a \u escape, false if they are not there
+  static
+  bool
+  read_hex4( std::string::const_iterator it, std::string::const_iterator end, unsigned & code ) {
+    code = 0;
+    for ( int i{0}; i < 4; ++i, ++it ) {
+      if ( it == end ) return false;
+      char const ch{*it};
+      code *= 16;
+      if      ( ch >= '0' && ch <= '9' ) code += unsigned(ch-'0');
+      else if ( ch >= 'a' && ch <= 'f' ) code += unsigned(ch-'a')+10;
+      else if ( ch >= 'A' && ch <= 'F' ) code += unsigned(ch-'A')+10;
+      else                               return false;
+    }
+    return true;
+  }
+
+  static
+  void
+  append_utf8( std::string & s, unsigned code ) {
+    if ( code < 0x80 ) {
+      s += char(code);
+    } else if ( code < 0x800 ) {
+      s += char(0xC0|(code>>6));
+      s += char(0x80|(code&0x3F));
+    } else if ( code < 0x10000 ) {
+      s += char(0xE0|(code>>12));
+      s += char(0x80|((code>>6)&0x3F));
+      s += char(0x80|(code&0x3F));
+    } else {
+      s += char(0xF0|(code>>18));
+      s += char(0x80|((code>>12)&0x3F));
+      s += char(0x80|((code>>6)&0x3F));
+      s += char(0x80|(code&0x3F));
+    }
+  }
+
   // Restituisce il prossimo token
   int
   jsonLexer::yylex( std::string * yylval, yy::location * yylloc ) {
@@ -79,9 +116,25 @@ namespace yy {
             case 't':  m_lexeme += '\t'; break;
             case '\\': m_lexeme += '\\'; break;
             case '"':  m_lexeme += '"';  break;
+            case '/':  m_lexeme += '/';  break;
             case 'r':  m_lexeme += '\r'; break;
             case 'b':  m_lexeme += '\b'; break;
             case 'f':  m_lexeme += '\f'; break;
+            case 'u': {
+              unsigned code, low;
+              if ( !read_hex4( m_cursor+1, m_input.end(), code ) ) return res;
+              m_cursor += 4; // on the last digit
+              if ( code >= 0xDC00 && code <= 0xDFFF ) return res; // low surrogate alone
+              if ( code >= 0xD800 && code <= 0xDBFF ) { // surrogate pair
+                if ( m_input.end()-m_cursor < 7 || m_cursor[1] != '\\' || m_cursor[2] != 'u' ||
+                     !read_hex4( m_cursor+3, m_input.end(), low ) ||
+                     low < 0xDC00 || low > 0xDFFF ) return res;
+                m_cursor += 6;
+                code = 0x10000 + ((code-0xD800)<<10) + (low-0xDC00);
+              }
+              append_utf8( m_lexeme, code );
+              break;
+            }
             default:
               m_lexeme += '\\';
               m_lexeme += ch1;
-- 
2.43.0


From 321dd0499ec88053a40f3e7ed77570be237f4586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:18 +0000
Subject: [PATCH 038/125] fix: from_json2 flattened nested arrays

---
 src_json_interface/jsonParser.tab.hh | 4 ++--
 src_json_interface/jsonParser.yy     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src_json_interface/jsonParser.tab.hh b/src_json_interface/jsonParser.tab.hh
index 7df0263..68d1e30 100644
--- a/src_json_interface/jsonParser.tab.hh
+++ b/src_json_interface/jsonParser.tab.hh
@@ -121,8 +121,8 @@
     void open_map()  { m_stack.push_back( get_gc() ); m_stack.back()->set_map(); }
     void close_map() { m_stack.pop_back(); }
 
-    void open_vector()  { get_gc()->set_vector(); }
-    void close_vector() { }
+    void open_vector()  { m_stack.push_back( get_gc() ); m_stack.back()->set_vector(); }
+    void close_vector() { m_stack.pop_back(); }
 
     void
     set_key( string const & s ) {
diff --git a/src_json_interface/jsonParser.yy b/src_json_interface/jsonParser.yy
index c9e16a1..0b67c5b 100644
--- a/src_json_interface/jsonParser.yy
+++ b/src_json_interface/jsonParser.yy
@@ -76,8 +76,8 @@
     void open_map()  { m_stack.push_back( get_gc() ); m_stack.back()->set_map(); }
     void close_map() { m_stack.pop_back(); }
 
-    void open_vector()  { get_gc()->set_vector(); }
-    void close_vector() { }
+    void open_vector()  { m_stack.push_back( get_gc() ); m_stack.back()->set_vector(); }
+    void close_vector() { m_stack.pop_back(); }
 
     void
     set_key( string const & s ) {
-- 
2.43.0


From 3bf03da5c25ccb0208d7bc6e83953f87b29cc2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:21 +0000
Subject: [PATCH 039/125] fix: from_json2 replaced the integers out of the
 range of long with the nearest long

---
 src_json_interface/jsonParser.tab.hh | 6 +++++-
 src_json_interface/jsonParser.yy     | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src_json_interface/jsonParser.tab.hh b/src_json_interface/jsonParser.tab.hh
index 68d1e30..bd96eed 100644
--- a/src_json_interface/jsonParser.tab.hh
+++ b/src_json_interface/jsonParser.tab.hh
@@ -47,6 +47,7 @@
 // "%code requires" blocks.
 #line 4 "jsonParser.yy"
 
+  #include <cerrno>
   #include <cstdlib>
   #include <sstream>
   #include "jsonLexer.hh"
@@ -104,8 +105,11 @@
     set_integer( string const & s ) {
       GenericContainer * gc{get_gc()};
       char * end{nullptr};
+      errno = 0;
       long long res = std::strtoll(s.c_str(), &end, 10);
-      if ( *end == '\0' ) {
+      if ( errno == ERANGE ) { // does not fit in a long
+        gc->set_real( std::strtod( s.c_str(), &end ) );
+      } else if ( *end == '\0' ) {
         if ( res <= std::numeric_limits<GC::int_type>::max() &&
              res >= std::numeric_limits<GC::int_type>::min() ) {
           gc->set_int(GC::int_type(res));
diff --git a/src_json_interface/jsonParser.yy b/src_json_interface/jsonParser.yy
index 0b67c5b..174e943 100644
--- a/src_json_interface/jsonParser.yy
+++ b/src_json_interface/jsonParser.yy
@@ -2,6 +2,7 @@
 %language "c++"
 
 %code requires {
+  #include <cerrno>
   #include <cstdlib>
   #include <sstream>
   #include "jsonLexer.hh"
@@ -59,8 +60,11 @@
     set_integer( string const & s ) {
       GenericContainer * gc{get_gc()};
       char * end{nullptr};
+      errno = 0;
       long long res = std::strtoll(s.c_str(), &end, 10);
-      if ( *end == '\0' ) {
+      if ( errno == ERANGE ) { // does not fit in a long
+        gc->set_real( std::strtod( s.c_str(), &end ) );
+      } else if ( *end == '\0' ) {
         if ( res <= std::numeric_limits<GC::int_type>::max() &&
              res >= std::numeric_limits<GC::int_type>::min() ) {
           gc->set_int(GC::int_type(res));
-- 
2.43.0


From c55f72fadf49b2621d754b43e8037cc0cce3c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:23 +0000
Subject: [PATCH 040/125] fix: from_json2 threw on bad input and mixed the
 values read with the previous contents

It is documented to return false when the conversion fails, as from_json does.
---
 src_json_interface/from_json2.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src_json_interface/from_json2.cc b/src_json_interface/from_json2.cc
index 59eaa5d..f2dacbb 100644
--- a/src_json_interface/from_json2.cc
+++ b/src_json_interface/from_json2.cc
@@ -1,4 +1,5 @@
 #include <fstream>
+#include <iostream>
 #include <string>
 
 #ifndef DOXYGEN_SHOULD_SKIP_THIS
@@ -20,12 +21,21 @@ namespace GC_namespace {
     lexer.set_stream(&stream);
 
     // Crea il parser e passa il lexer
-    GenericContainerWrapper gcw(this);
+    GenericContainer tmp; // do not mix what is read with the previous contents
+    GenericContainerWrapper gcw(&tmp);
     yy::parser parser(lexer,&gcw);
 
     // Esegui il parsing
-    bool ok{parser() == 0};
-    if ( ok ) this->collapse();
+    bool ok{false};
+    try {
+      ok = parser() == 0;
+    } catch ( std::exception const & exc ) { // syntax error
+      std::cerr << exc.what() << '\n';
+    }
+    if ( ok ) {
+      tmp.collapse();
+      *this = tmp;
+    }
     return ok;
   }
 
-- 
2.43.0


From c826a3acf71c4df114145e089fff98031b67694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:41 +0000
Subject: [PATCH 041/125] fix: from_json2 mixed the values of a repeated key

---
 src_json_interface/jsonParser.tab.hh | 1 +
 src_json_interface/jsonParser.yy     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src_json_interface/jsonParser.tab.hh b/src_json_interface/jsonParser.tab.hh
index bd96eed..bab86b3 100644
--- a/src_json_interface/jsonParser.tab.hh
+++ b/src_json_interface/jsonParser.tab.hh
@@ -131,6 +131,7 @@
     void
     set_key( string const & s ) {
       map_type & m{ get_gc()->set_map() };
+      m[s].clear(); // a repeated key replaces the previous value
       m_stack.push_back( &m[s] );
     }
 
diff --git a/src_json_interface/jsonParser.yy b/src_json_interface/jsonParser.yy
index 174e943..167347d 100644
--- a/src_json_interface/jsonParser.yy
+++ b/src_json_interface/jsonParser.yy
@@ -86,6 +86,7 @@
     void
     set_key( string const & s ) {
       map_type & m{ get_gc()->set_map() };
+      m[s].clear(); // a repeated key replaces the previous value
       m_stack.push_back( &m[s] );
     }
 
-- 
2.43.0


From 0cf5c424cff7c34c3712c4078324ba3ebec3636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 042/125] fix: from_json misread the numbers starting with the
 digits of 2^64-1

The rounding of the first digits overflowed the 64 bit significand.
---
 src_json_interface/rapidjson/internal/strtod.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_json_interface/rapidjson/internal/strtod.h b/src_json_interface/rapidjson/internal/strtod.h
index 55f0e38..7ff4672 100644
--- a/src_json_interface/rapidjson/internal/strtod.h
+++ b/src_json_interface/rapidjson/internal/strtod.h
@@ -131,10 +131,10 @@ inline bool StrtodFast(double d, int p, double* result) {
 template<typename Ch>
 inline bool StrtodDiyFp(const Ch* decimals, int dLen, int dExp, double* result) {
     uint64_t significand = 0;
-    int i = 0;   // 2^64 - 1 = 18446744073709551615, 1844674407370955161 = 0x1999999999999999    
+    int i = 0;   // 2^64 - 1 = 18446744073709551615, 1844674407370955161 = 0x1999999999999999, room is left for the rounding
     for (; i < dLen; i++) {
         if (significand  >  RAPIDJSON_UINT64_C2(0x19999999, 0x99999999) ||
-            (significand == RAPIDJSON_UINT64_C2(0x19999999, 0x99999999) && decimals[i] > Ch('5')))
+            (significand == RAPIDJSON_UINT64_C2(0x19999999, 0x99999999) && decimals[i] >= Ch('5')))
             break;
         significand = significand * 10u + static_cast<unsigned>(decimals[i] - Ch('0'));
     }
-- 
2.43.0


From 21879bae166fada33522fa4057dbcab08f90ec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:23 +0000
Subject: [PATCH 043/125] fix: to_yaml of empty vectors, matrices, lists and
 maps was not valid or lost their type

---
 src_yaml_interface/to_yaml.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 4e5dfcb..51835c0 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -75,6 +75,7 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_BOOL: {
         vec_bool_type const & v{*m_data.v_b};
+        if ( v.empty() ) { stream << "[]\n"; break; }
         char const * pre = "[ ";
         for ( bool vi : v ) {
           stream << pre << (vi?"true":"false");
@@ -84,6 +85,7 @@ namespace GC_namespace {
         break;
       }
       #define GC_PRINT_VECTOR                  \
+        if ( v.empty() ) { stream << "[]\n"; break; } \
         char const * pre = "[ ";               \
         for ( auto const & vi : v )            \
           { stream << pre << vi; pre = ", "; } \
@@ -110,6 +112,7 @@ namespace GC_namespace {
       }
       case GC_type::VEC_STRING: {
         vec_string_type const & v{*m_data.v_s};
+        if ( v.empty() ) { stream << "[]\n"; break; }
         char const * pre = "[ ";
         for ( auto const & vi : v )
           { stream << pre; string_escape(stream,vi); pre = ", "; }
@@ -120,7 +123,7 @@ namespace GC_namespace {
         vector_type const & v{*m_data.v};
         string prefix2{prefix}; prefix2 += "  ";
         if ( v.empty() ) {
-          stream << "null\n";
+          stream << "[]\n";
         } else {
           stream << '\n';
           for ( auto const & vi : v ) {
@@ -133,7 +136,7 @@ namespace GC_namespace {
       case GC_type::MAP: {
         map_type const & m{*m_data.m};
         if ( m.empty() ) {
-          stream << "null\n";
+          stream << "{}\n";
         } else {
           stream << '\n';
           string prefix2{prefix}; prefix2 += "  ";
@@ -147,9 +150,11 @@ namespace GC_namespace {
       #define GC_PRINT_MATRIX                        \
         unsigned NR{M.num_rows()};                   \
         unsigned NC{M.num_cols()};                   \
+        if ( NC == 0 ) { stream << "[]\n"; break; }  \
         stream << '\n';                              \
         for ( unsigned j{0}; j < NC; ++j ) {         \
           stream << prefix;                          \
+          if ( NR == 0 ) { stream << "- []\n"; continue; } \
           char const * pre = "- [ ";                 \
           for ( unsigned i{0}; i < NR; ++i )         \
             { stream << pre << M(i,j); pre = ", "; } \
@@ -193,6 +198,7 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
+        if ( V.empty() ) { stream << "[]\n"; break; }
         stream << '\n';
         for ( auto const & vi : V ) {
           stream << prefix << "- " << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi) << '\n';
-- 
2.43.0


From 7da81c2dc9dc51ed9ef0b11705701291332fb6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:26 +0000
Subject: [PATCH 044/125] fix: to_yaml left the stream in hexadecimal after a
 pointer

---
 src_yaml_interface/to_yaml.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 51835c0..0a1e042 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -45,6 +45,14 @@ namespace GC_namespace {
   //         |_____|___/
   */
 
+  static
+  void
+  print_pointer( ostream_type & stream, void const * p ) {
+    ostringstream ost; // do not change the format of the stream
+    ost << std::hex << std::showbase << reinterpret_cast<uintptr_t>(p);
+    stream << ost.str() << '\n';
+  }
+
   void
   GenericContainer::to_yaml(
     ostream_type & stream,
@@ -194,14 +202,15 @@ namespace GC_namespace {
         break;
       }
       case GC_type::POINTER:
-        stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '\n';
+        print_pointer( stream, m_data.p );
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
         if ( V.empty() ) { stream << "[]\n"; break; }
         stream << '\n';
         for ( auto const & vi : V ) {
-          stream << prefix << "- " << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi) << '\n';
+          stream << prefix << "- ";
+          print_pointer( stream, vi );
         }
         break;
       }
-- 
2.43.0


From 3e510227f50b5ab7beff71d65f87f55a96237e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:28 +0000
Subject: [PATCH 045/125] fix: to_yaml split the elements of complex vectors
 and matrices

---
 src_yaml_interface/to_yaml.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 0a1e042..cfd6874 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -92,30 +92,30 @@ namespace GC_namespace {
         stream << " ]\n";
         break;
       }
-      #define GC_PRINT_VECTOR                  \
+      #define GC_PRINT_VECTOR(VDATA)           \
         if ( v.empty() ) { stream << "[]\n"; break; } \
         char const * pre = "[ ";               \
         for ( auto const & vi : v )            \
-          { stream << pre << vi; pre = ", "; } \
+          { stream << pre << VDATA; pre = ", "; } \
         stream << " ]\n"
       case GC_type::VEC_INTEGER: {
         vec_int_type const & v{*m_data.v_i};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR(vi);
         break;
       }
       case GC_type::VEC_LONG: {
         vec_long_type const & v{*m_data.v_l};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR(vi);
         break;
       }
       case GC_type::VEC_REAL: {
         vec_real_type const & v{*m_data.v_r};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR(vi);
         break;
       }
       case GC_type::VEC_COMPLEX: {
         vec_complex_type const & v{*m_data.v_c};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR(to_string(vi));
         break;
       }
       case GC_type::VEC_STRING: {
@@ -155,7 +155,7 @@ namespace GC_namespace {
         }
         break;
       }
-      #define GC_PRINT_MATRIX                        \
+      #define GC_PRINT_MATRIX(MDATA)                 \
         unsigned NR{M.num_rows()};                   \
         unsigned NC{M.num_cols()};                   \
         if ( NC == 0 ) { stream << "[]\n"; break; }  \
@@ -165,7 +165,7 @@ namespace GC_namespace {
           if ( NR == 0 ) { stream << "- []\n"; continue; } \
           char const * pre = "- [ ";                 \
           for ( unsigned i{0}; i < NR; ++i )         \
-            { stream << pre << M(i,j); pre = ", "; } \
+            { stream << pre << MDATA; pre = ", "; }  \
           stream << " ]\n";                          \
         }
 
@@ -183,22 +183,22 @@ namespace GC_namespace {
 
       case GC_type::MAT_INTEGER: {
         mat_int_type const & M{*m_data.m_i};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX(M(i,j));
         break;
       }
       case GC_type::MAT_LONG: {
         mat_long_type const & M{*m_data.m_l};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX(M(i,j));
         break;
       }
       case GC_type::MAT_REAL: {
         mat_real_type const & M{*m_data.m_r};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX(M(i,j));
         break;
       }
       case GC_type::MAT_COMPLEX: {
         mat_complex_type const & M{*m_data.m_c};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX(to_string(M(i,j)));
         break;
       }
       case GC_type::POINTER:
-- 
2.43.0


From 1a37a11b26de33450aed7a3794c9236155732495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:31 +0000
Subject: [PATCH 046/125] fix: to_yaml wrote keys without quotes whatever they
 contain

---
 src_yaml_interface/to_yaml.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index cfd6874..1b91318 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -45,6 +45,22 @@ namespace GC_namespace {
   //         |_____|___/
   */
 
+  // a key that YAML would read as something else than that string must be quoted
+  static
+  void
+  print_key( ostream_type & stream, string const & key ) {
+    auto is_letter = []( char const c ) { return ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ) || c == '_'; };
+    bool plain{ !key.empty() && is_letter(key[0]) };
+    for ( char const c : key )
+      plain = plain && ( is_letter(c) || ( c >= '0' && c <= '9' ) || c == '-' || c == '.' );
+    for ( auto const w : { "null", "Null", "NULL", "true", "True", "TRUE", "false", "False", "FALSE",
+                           "y", "Y", "n", "N", "yes", "Yes", "YES", "no", "No", "NO",
+                           "on", "On", "ON", "off", "Off", "OFF" } )
+      if ( key == w ) plain = false;
+    if ( plain ) stream << key;
+    else         string_escape( stream, key );
+  }
+
   static
   void
   print_pointer( ostream_type & stream, void const * p ) {
@@ -149,7 +165,9 @@ namespace GC_namespace {
           stream << '\n';
           string prefix2{prefix}; prefix2 += "  ";
           for ( auto const & im : m ) {
-            stream << prefix << im.first << ": ";
+            stream << prefix;
+            print_key( stream, im.first );
+            stream << ": ";
             im.second.to_yaml(stream,prefix2);
           }
         }
-- 
2.43.0


From c4cc848aec666e9cc311daed089e5d8cba48b5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:33 +0000
Subject: [PATCH 047/125] fix: to_yaml wrote infinities and NaN as strings

---
 src_yaml_interface/to_yaml.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 1b91318..1bfde2c 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -61,6 +61,17 @@ namespace GC_namespace {
     else         string_escape( stream, key );
   }
 
+  static
+  string
+  real_text( ostream_type const & stream, real_type const r ) {
+    if ( std::isnan(r) ) return ".nan";
+    if ( std::isinf(r) ) return r > 0 ? ".inf" : "-.inf";
+    ostringstream ost;
+    ost.copyfmt( stream );
+    ost << r;
+    return ost.str();
+  }
+
   static
   void
   print_pointer( ostream_type & stream, void const * p ) {
@@ -88,7 +99,7 @@ namespace GC_namespace {
         stream << m_data.l << '\n';
         break;
       case GC_type::REAL:
-        stream << m_data.r << '\n';
+        stream << real_text( stream, m_data.r ) << '\n';
         break;
       case GC_type::COMPLEX:
         stream << to_string(*m_data.c) << '\n';
@@ -126,7 +137,7 @@ namespace GC_namespace {
       }
       case GC_type::VEC_REAL: {
         vec_real_type const & v{*m_data.v_r};
-        GC_PRINT_VECTOR(vi);
+        GC_PRINT_VECTOR(real_text( stream, vi ));
         break;
       }
       case GC_type::VEC_COMPLEX: {
@@ -211,7 +222,7 @@ namespace GC_namespace {
       }
       case GC_type::MAT_REAL: {
         mat_real_type const & M{*m_data.m_r};
-        GC_PRINT_MATRIX(M(i,j));
+        GC_PRINT_MATRIX(real_text( stream, M(i,j) ));
         break;
       }
       case GC_type::MAT_COMPLEX: {
-- 
2.43.0


From ebea9ee0365516c58ee9a1be85c17862160a373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:24 +0000
Subject: [PATCH 048/125] fix: from_yaml mixed the values read with the
 previous contents, also when it failed

---
 src_yaml_interface/from_yaml.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src_yaml_interface/from_yaml.cc b/src_yaml_interface/from_yaml.cc
index 6f15fc3..1bd59ad 100755
--- a/src_yaml_interface/from_yaml.cc
+++ b/src_yaml_interface/from_yaml.cc
@@ -117,8 +117,12 @@ namespace GC_namespace {
     try {
       // deserialize the loaded file contents.
       fkyaml::node root = fkyaml::node::deserialize(stream);
-      ok = YAML_to_GC( root, *this );
-      if ( ok ) this->collapse();
+      GenericContainer tmp; // do not mix what is read with the previous contents
+      ok = YAML_to_GC( root, tmp );
+      if ( ok ) {
+        tmp.collapse();
+        *this = tmp;
+      }
     }
     catch ( std::exception const & e ) {
       std::cerr << "GenericContainer::from_yaml: " << e.what() << '\n';
-- 
2.43.0


From 337c1262fe5a7e81e237b942db02083b38d6b4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:54 +0000
Subject: [PATCH 049/125] fix: from_yaml miscounted the backslashes at the
 beginning of a quoted string

---
 src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
index 130a9d3..eb27e86 100644
--- a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
@@ -813,11 +813,11 @@ private:
                 uint32_t backslash_counts = 0;
                 const char* p = m_token_begin_itr + (pos - 1);
                 do {
-                    if (*p-- != '\\') {
+                    if (*p != '\\') {
                         break;
                     }
                     ++backslash_counts;
-                } while (p != m_token_begin_itr);
+                } while (p-- != m_token_begin_itr);
                 is_closed = ((backslash_counts & 1u) == 0); // true: even, false: odd
             }
 
-- 
2.43.0


From ce4652e5b3c561aa58ea0665716edbfbd1df3c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:07 +0000
Subject: [PATCH 050/125] fix: from_yaml read the stream from its beginning and
 nothing from a pipe

---
 src_yaml_interface/from_yaml.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src_yaml_interface/from_yaml.cc b/src_yaml_interface/from_yaml.cc
index 1bd59ad..762cc53 100755
--- a/src_yaml_interface/from_yaml.cc
+++ b/src_yaml_interface/from_yaml.cc
@@ -116,7 +116,10 @@ namespace GC_namespace {
     bool ok{true};
     try {
       // deserialize the loaded file contents.
-      fkyaml::node root = fkyaml::node::deserialize(stream);
+      // fkyaml rewinds the streams, read the text here from where the stream is
+      string const text( ( istreambuf_iterator<char>(stream) ), istreambuf_iterator<char>() );
+      fkyaml::node root;
+      if ( !text.empty() ) root = fkyaml::node::deserialize(text);
       GenericContainer tmp; // do not mix what is read with the previous contents
       ok = YAML_to_GC( root, tmp );
       if ( ok ) {
-- 
2.43.0


From 794b3213302ce3c42a020f2864fa3d8d38b68587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:55 +0000
Subject: [PATCH 051/125] fix: from_yaml swallowed what follows a block scalar
 of one character

---
 src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
index eb27e86..ebfbe2d 100644
--- a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
@@ -1009,7 +1009,7 @@ private:
             emit_error("The first non-empty line in the block scalar is less indented.");
         }
 
-        std::size_t last_newline_pos = sv.find('\n', cur_itr - m_token_begin_itr + 1);
+        std::size_t last_newline_pos = sv.find('\n', cur_itr - m_token_begin_itr); // cur_itr is already past the first character
         if (last_newline_pos == str_view::npos) {
             last_newline_pos = remain_input_len;
         }
-- 
2.43.0


From 014cec876ba807e58593c608c6cce35e902dcab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:05 +0000
Subject: [PATCH 052/125] fix: to_toml wrote real and complex matrices as
 matrices of long

---
 src_toml_interface/to_toml.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_toml_interface/to_toml.cc b/src_toml_interface/to_toml.cc
index d8a1218..518d92b 100755
--- a/src_toml_interface/to_toml.cc
+++ b/src_toml_interface/to_toml.cc
@@ -151,7 +151,7 @@ namespace GC_namespace {
         mat_real.insert("$ncols",gc.num_cols());
         mat_real.insert("$data",data);
         DEF_UNIQUE( toml::table );
-        node->as_table()->insert( "$mat_long", std::move(mat_real) );
+        node->as_table()->insert( "$mat_real", std::move(mat_real) );
         return node;
       }
       case GC_type::MAT_COMPLEX: {
@@ -166,7 +166,7 @@ namespace GC_namespace {
         mat_complex.insert("$data_real",data_real);
         mat_complex.insert("$data_imag",data_imag);
         DEF_UNIQUE( toml::table );
-        node->as_table()->insert( "$mat_long", std::move(mat_complex) );
+        node->as_table()->insert( "$mat_complex", std::move(mat_complex) );
         return node;
       }
       case GC_type::POINTER: {
-- 
2.43.0


From 4feb50b3ce232091906d7d01162de4f98f78be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:11 +0000
Subject: [PATCH 053/125] fix: to_toml dereferenced a null pointer on empty
 containers

TOML has no null: keys without a value are not written, a list with an
empty element cannot be written.
---
 src_toml_interface/to_toml.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src_toml_interface/to_toml.cc b/src_toml_interface/to_toml.cc
index 518d92b..a367049 100755
--- a/src_toml_interface/to_toml.cc
+++ b/src_toml_interface/to_toml.cc
@@ -108,13 +108,18 @@ namespace GC_namespace {
       }
       case GC_type::VECTOR: {
         DEF_UNIQUE( toml::array );
-        for ( auto vi : gc.get_vector() ) node->as_array()->push_back( std::move(*GC_to_TOML( vi )) );
+        for ( auto vi : gc.get_vector() ) {
+          auto elem{ GC_to_TOML( vi ) };
+          if ( !elem ) GenericContainer::exception( "a list with an empty element cannot be written in TOML" );
+          node->as_array()->push_back( std::move(*elem) );
+        }
         return node;
       }
       case GC_type::MAP: {
         DEF_UNIQUE( toml::table );
         for ( auto const & im : gc.get_map() ) {
-          node->as_table()->insert( im.first, std::move(*GC_to_TOML( im.second )) );
+          auto elem{ GC_to_TOML( im.second ) };
+          if ( elem ) node->as_table()->insert( im.first, std::move(*elem) );
         }
         return node;
       }
@@ -194,7 +199,7 @@ namespace GC_namespace {
     try {
       // deserialize the loaded file contents.
       std::unique_ptr<toml::node> root{ GC_to_TOML( *this ) };
-      if ( ok ) stream << toml::toml_formatter(*root);
+      if ( root ) stream << toml::toml_formatter(*root);
     }
     catch ( std::exception const & e ) {
       std::cerr << "GenericContainer::to_toml: " << e.what() << '\n';
-- 
2.43.0


From 0abe478f2d3471def4a6d9c677049a9edfab30b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:19 +0000
Subject: [PATCH 054/125] fix: from_toml truncated the integers of an array to
 32 bits

---
 src_toml_interface/from_toml.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src_toml_interface/from_toml.cc b/src_toml_interface/from_toml.cc
index 70ab7cb..c678036 100755
--- a/src_toml_interface/from_toml.cc
+++ b/src_toml_interface/from_toml.cc
@@ -139,10 +139,15 @@ namespace GC_namespace {
 
       bool is_string_array  { true };
       bool is_integer_array { true };
+      bool is_int32_array   { true };
       bool is_float_array   { true };
       for ( const auto & value : *ary ) {
         if ( !value.is_string()         ) is_string_array  = false;
         if ( !value.is_integer()        ) is_integer_array = false;
+        else {
+          std::int64_t tmp{ value.as_integer()->get() };
+          if ( tmp < numeric_limits<int32_t>::min() || tmp > numeric_limits<int32_t>::max() ) is_int32_array = false;
+        }
         if ( !value.is_floating_point() ) is_float_array   = false;
       }
       size_t N{ ary->size() };
@@ -152,6 +157,12 @@ namespace GC_namespace {
         V.reserve( N );
         for ( const auto & value : *ary ) V.emplace_back( value.as_string()->get() );
 
+      } else if (is_integer_array && !is_int32_array) {
+
+        GC::vec_long_type & V{ gc.set_vec_long() };
+        V.reserve( N );
+        for ( const auto & value : *ary ) V.emplace_back( value.as_integer()->get() );
+
       } else if (is_integer_array) {
 
         GC::vec_int_type & V{ gc.set_vec_int() };
-- 
2.43.0


From ca5504c2e75cffcf0a9fc3f9d4f5c4bfaa06d0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:28 +0000
Subject: [PATCH 055/125] fix: from_toml mixed the values read with the
 previous contents, also when it failed

---
 src_toml_interface/from_toml.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src_toml_interface/from_toml.cc b/src_toml_interface/from_toml.cc
index c678036..5a3fab5 100755
--- a/src_toml_interface/from_toml.cc
+++ b/src_toml_interface/from_toml.cc
@@ -200,8 +200,12 @@ namespace GC_namespace {
     bool ok{true};
     try {
       // deserialize the loaded file contents.
-      ok = TOML_to_GC( toml::parse(stream), *this );
-      if ( ok ) this->collapse();
+      GenericContainer tmp; // do not mix what is read with the previous contents
+      ok = TOML_to_GC( toml::parse(stream), tmp );
+      if ( ok ) {
+        tmp.collapse();
+        *this = tmp;
+      }
     }
     catch ( std::exception const & e ) {
       std::cerr << "GenericContainer::from_toml: " << e.what() << '\n';
-- 
2.43.0


From d65d4b5784f4cfa79c31c85f4037315cd7614ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:03 +0000
Subject: [PATCH 056/125] fix: from_toml read nothing from a pipe

---
 src_toml_interface/from_toml.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src_toml_interface/from_toml.cc b/src_toml_interface/from_toml.cc
index 5a3fab5..b868a0f 100755
--- a/src_toml_interface/from_toml.cc
+++ b/src_toml_interface/from_toml.cc
@@ -201,7 +201,9 @@ namespace GC_namespace {
     try {
       // deserialize the loaded file contents.
       GenericContainer tmp; // do not mix what is read with the previous contents
-      ok = TOML_to_GC( toml::parse(stream), tmp );
+      // toml++ moves back in the stream, which pipes do not allow
+      string const text( ( istreambuf_iterator<char>(stream) ), istreambuf_iterator<char>() );
+      ok = TOML_to_GC( toml::parse(text), tmp );
       if ( ok ) {
         tmp.collapse();
         *this = tmp;
-- 
2.43.0


From 685157d7d71efbec59820dc99a6c6fc9b3371179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:58 +0000
Subject: [PATCH 057/125] fix: to_toml lost the newline at the beginning of
 strings

---
 src_toml_interface/to_toml.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src_toml_interface/to_toml.cc b/src_toml_interface/to_toml.cc
index a367049..e38e91d 100755
--- a/src_toml_interface/to_toml.cc
+++ b/src_toml_interface/to_toml.cc
@@ -199,7 +199,9 @@ namespace GC_namespace {
     try {
       // deserialize the loaded file contents.
       std::unique_ptr<toml::node> root{ GC_to_TOML( *this ) };
-      if ( root ) stream << toml::toml_formatter(*root);
+      // no multi-line strings: the reader drops the newline at the beginning of them
+      auto const flags{ toml::toml_formatter::default_flags & ~toml::format_flags::allow_multi_line_strings };
+      if ( root ) stream << toml::toml_formatter(*root,flags);
     }
     catch ( std::exception const & e ) {
       std::cerr << "GenericContainer::to_toml: " << e.what() << '\n';
-- 
2.43.0


From 72df84c7c04ef7db9af376060eb8f24ce10d9bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:37 +0000
Subject: [PATCH 058/125] fix: read_formatted_data read the last row twice when
 the text does not end with a newline

---
 src/GenericContainerSupport.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainerSupport.cc b/src/GenericContainerSupport.cc
index 9b51fdc..38e84ef 100755
--- a/src/GenericContainerSupport.cc
+++ b/src/GenericContainerSupport.cc
@@ -92,8 +92,7 @@ namespace GC_namespace {
   ) {
     unsigned nl = 0;
     do {
-      if ( stream.fail() ) return 0;
-      getline( stream, line );
+      if ( !getline( stream, line ) ) return 0;
       ++nl;
     } while ( line.find_first_of(commentchars) != string_type::npos ); // ????????????
     return nl;
@@ -110,8 +109,7 @@ namespace GC_namespace {
     unsigned nl      = 0;
     bool     comment = true;
     while ( comment ) {
-      if ( stream.fail() ) return 0;
-      getline( stream, line );
+      if ( !getline( stream, line ) ) return 0;
       comment = line.empty() ||
                 line.find_first_of(commentchars) != string_type::npos;
       if ( ptr_pars != nullptr && comment && line.length() > 2 && line[1] == '!' ) {
-- 
2.43.0


From f8bcbc39fea8ea1122cbbee719316dc9f2c2c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:39 +0000
Subject: [PATCH 059/125] fix: read_formatted_data dropped the lines that
 contain a comment character

---
 src/GenericContainerSupport.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainerSupport.cc b/src/GenericContainerSupport.cc
index 38e84ef..5a61585 100755
--- a/src/GenericContainerSupport.cc
+++ b/src/GenericContainerSupport.cc
@@ -83,6 +83,14 @@ namespace GC_namespace {
   //  |___/_/  \___/   \__,_|\__|_|_|___/
   */
 
+  // true if the first non blank character of the line is a comment character
+  static
+  bool
+  is_comment( string_view const line, string_view const commentchars ) {
+    string_view::size_type const pos { line.find_first_not_of(" \t") };
+    return pos != string_view::npos && commentchars.find(line[pos]) != string_view::npos;
+  }
+
   static
   unsigned
   get_line_and_skip_comments(
@@ -94,7 +102,7 @@ namespace GC_namespace {
     do {
       if ( !getline( stream, line ) ) return 0;
       ++nl;
-    } while ( line.find_first_of(commentchars) != string_type::npos ); // ????????????
+    } while ( is_comment( line, commentchars ) );
     return nl;
   }
 
@@ -110,8 +118,7 @@ namespace GC_namespace {
     bool     comment = true;
     while ( comment ) {
       if ( !getline( stream, line ) ) return 0;
-      comment = line.empty() ||
-                line.find_first_of(commentchars) != string_type::npos;
+      comment = line.empty() || is_comment( line, commentchars );
       if ( ptr_pars != nullptr && comment && line.length() > 2 && line[1] == '!' ) {
         vec_string_type a_eq_b;
         tokenizeString( line.substr(2), a_eq_b, "=" );
-- 
2.43.0


From 0f6aa92792dd6f895290c61276510b8b77db3277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:42 +0000
Subject: [PATCH 060/125] fix: read_formatted_data appended the rows to the
 ones of a previous reading

---
 src/GenericContainerSupport.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GenericContainerSupport.cc b/src/GenericContainerSupport.cc
index 5a61585..bf588aa 100755
--- a/src/GenericContainerSupport.cc
+++ b/src/GenericContainerSupport.cc
@@ -183,6 +183,7 @@ namespace GC_namespace {
     this->set_map();
     GenericContainer & tmp = (*this)["headers"];
     vec_string_type & headers = tmp.set_vec_string();
+    (*this)["data"].clear(); // forget the data of a previous reading
 
     // reading header line
     unsigned nline { get_line_and_skip_comments( stream, line, commentChars ) }; // read  line
@@ -230,6 +231,7 @@ namespace GC_namespace {
     this->set_map();
     GenericContainer & tmp = (*this)["headers"];
     vec_string_type & headers = tmp.set_vec_string();
+    (*this)["data"].clear(); // forget the data of a previous reading
 
     // reading header line
     auto nline{ get_line_and_skip_comments2( stream, line, commentChars, ptr_pars ) }; // read  line
-- 
2.43.0


From 6cf99e195956b5a0315c1bd5f3ec3f33b86cf8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:44 +0000
Subject: [PATCH 061/125] fix: write_table read headers and columns that do not
 exist

---
 src/GenericContainerTables.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainerTables.cc b/src/GenericContainerTables.cc
index 24a178e..4d3470a 100755
--- a/src/GenericContainerTables.cc
+++ b/src/GenericContainerTables.cc
@@ -39,6 +39,11 @@ namespace GC_namespace {
   ) {
 
     auto const ncol{ static_cast<unsigned>(headers.size()) };
+    GC_ASSERT(
+      data.size() >= ncol,
+      "write_table, found " << ncol << " headers and " << data.size() << " columns"
+    );
+    if ( ncol == 0 ) return;
     auto const nrow{ (data[0].get_num_elements()) };
 
     stream << headers[0];
@@ -64,6 +69,11 @@ namespace GC_namespace {
 
     auto const ncol{ (data.num_cols()) };
     auto const nrow{ (data.num_rows()) };
+    GC_ASSERT(
+      headers.size() >= ncol,
+      "write_table, found " << headers.size() << " headers and " << ncol << " columns"
+    );
+    if ( ncol == 0 ) return;
 
     stream << headers[0];
     for ( unsigned icol{1}; icol < ncol; ++icol )
@@ -86,9 +96,12 @@ namespace GC_namespace {
   ) {
 
     auto const ncol{ static_cast<unsigned>(headers.size()) };
-    auto const nrow{ (data[0].get_num_elements()) };
-
+    GC_ASSERT(
+      data.size() >= ncol,
+      "write_table_formatted, found " << ncol << " headers and " << data.size() << " columns"
+    );
     if ( ncol == 0 ) return;
+    auto const nrow{ (data[0].get_num_elements()) };
 
     // calcolo lunghezza massima stringhe headers
     unsigned ml { 0 };
@@ -126,6 +139,10 @@ namespace GC_namespace {
     auto const ncol{ (data.num_cols()) };
     auto const nrow{ (data.num_rows()) };
 
+    GC_ASSERT(
+      headers.size() >= ncol,
+      "write_table_formatted, found " << headers.size() << " headers and " << ncol << " columns"
+    );
     if ( ncol == 0 ) return;
 
     // calcolo lunghezza massima stringhe headers
-- 
2.43.0


From 83537dd488e05110f9aeab43f4128cdb0e1f1e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:38 +0000
Subject: [PATCH 062/125] fix: GC_delete leaked the container and left it
 selected

---
 src/GenericContainerInterface_C.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index bf24c5a..14f817b 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -242,7 +242,12 @@ GC_mem_ptr( char const id[] ) {
 
 int
 GC_delete( char const id[] ) {
-  gc_explorer.erase(id);
+  auto const pos{ gc_explorer.find(id) };
+  if ( pos != gc_explorer.end() ) {
+    if ( gc_active == pos->second ) gc_active = nullptr;
+    delete pos->second;
+    gc_explorer.erase(pos);
+  }
   return GENERIC_CONTAINER_OK;
 }
 
-- 
2.43.0


From 2605f273ae4bfbb30da19fa75e64e71568459225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:41 +0000
Subject: [PATCH 063/125] fix: functions of the C interface threw C++
 exceptions

---
 src/GenericContainerInterface_C.cc | 125 +++++++++++++++--------------
 1 file changed, 64 insertions(+), 61 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 14f817b..f7fb9e2 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -199,6 +199,15 @@ catch(std::runtime_error & err) {               \
   return GENERIC_CONTAINER_NO_DATA;             \
 }
 
+// evaluate `A` and return it, return `DEFAULT` if an exception is thrown
+#define GC_TRY_GET(A,DEFAULT)                   \
+try { return A; }                               \
+catch(std::exception & err) {                   \
+  std::cerr << "Error: " << err.what() << "\n"; \
+} catch (...) {                                 \
+}                                               \
+return DEFAULT
+
 using namespace ::GC_namespace;
 
 typedef std::map<string_type,GenericContainerExplorer*>  MAP;
@@ -346,14 +355,14 @@ GC_dump() {
 int
 GC_get_type() {
   if ( gc_active == nullptr ) return -1;
-  return static_cast<int>(gc_active->top()->get_type());
+  GC_TRY_GET( static_cast<int>(gc_active->top()->get_type()), -1 );
 }
 
 char const *
 GC_get_type_name() {
   static char const * empty{""};
   if ( gc_active == nullptr ) return empty;
-  return gc_active->top()->get_type_name().data();
+  GC_TRY_GET( gc_active->top()->get_type_name().data(), empty );
 }
 
 //..............................................................................
@@ -405,54 +414,51 @@ GC_set_string( char const a[] ) {
 int
 GC_get_bool() {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_bool() ? 1 : 0;
+  GC_TRY_GET( gc_active->top()->get_bool() ? 1 : 0, 0 );
 }
 
 int
 GC_get_int() {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_int();
+  GC_TRY_GET( gc_active->top()->get_int(), 0 );
 }
 
 long
 GC_get_long() {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_long();
+  GC_TRY_GET( gc_active->top()->get_long(), 0 );
 }
 
 double
 GC_get_real( ) {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_real();
+  GC_TRY_GET( gc_active->top()->get_real(), 0 );
 }
 
 c_complex_type
 GC_get_complex( ) {
   c_complex_type tmp{ 0, 0 };
-  if ( gc_active != nullptr ) {
-    complex_type const t = gc_active->top()->get_complex();
-    tmp.real = t.real();
-    tmp.imag = t.imag();
-  }
+  tmp.real = GC_get_complex_re();
+  tmp.imag = GC_get_complex_im();
   return tmp;
 }
 
 double
 GC_get_complex_re( ) {
-  if ( gc_active != nullptr ) return gc_active->top()->get_complex().real();
-  return 0;
+  if ( gc_active == nullptr ) return 0;
+  GC_TRY_GET( gc_active->top()->get_complex().real(), 0 );
 }
 
 double
 GC_get_complex_im( ) {
-  if ( gc_active != nullptr ) return gc_active->top()->get_complex().imag();
-  return 0;
+  if ( gc_active == nullptr ) return 0;
+  GC_TRY_GET( gc_active->top()->get_complex().imag(), 0 );
 }
 
 char const *
 GC_get_string( ) {
   if ( gc_active == nullptr ) return nullptr;
-  return gc_active->top()->get_string().data();
+  GC_TRY_GET( gc_active->top()->get_string().data(), nullptr );
 }
 
 //..............................................................................
@@ -504,48 +510,45 @@ GC_push_string( char const a[] ) {
 int
 GC_get_bool_at_pos( int const pos ) {
   if ( gc_active == nullptr ) return 0;
-  bool const val{ gc_active->top()->get_bool_at(pos) };
-  return val ? 1 : 0;
+  GC_TRY_GET( gc_active->top()->get_bool_at( static_cast<unsigned>(pos) ) ? 1 : 0, 0 );
 }
 
 int
 GC_get_int_at_pos( int const pos ) {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_int_at( static_cast<unsigned>(pos) );
+  GC_TRY_GET( gc_active->top()->get_int_at( static_cast<unsigned>(pos) ), 0 );
 }
 
 double
 GC_get_real_at_pos( int const pos ) {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_number_at( static_cast<unsigned>(pos) );
+  GC_TRY_GET( gc_active->top()->get_number_at( static_cast<unsigned>(pos) ), 0 );
 }
 
 c_complex_type
 GC_get_complex_at_pos( int const pos ) {
   c_complex_type tmp;
-  tmp.real = tmp.imag = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), tmp.real, tmp.imag );
+  tmp.real = GC_get_complex_real_at_pos( pos );
+  tmp.imag = GC_get_complex_imag_at_pos( pos );
   return tmp;
 }
 
 double
 GC_get_complex_real_at_pos( int const pos ) {
-  real_type re = 0, im = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im );
-  return re;
+  if ( gc_active == nullptr ) return 0;
+  GC_TRY_GET( gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos) ).real(), 0 );
 }
 
 double
 GC_get_complex_imag_at_pos( int const pos ) {
-  real_type re = 0, im = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im );
-  return im;
+  if ( gc_active == nullptr ) return 0;
+  GC_TRY_GET( gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos) ).imag(), 0 );
 }
 
 char const *
 GC_get_string_at_pos( int const pos ) {
   if ( gc_active == nullptr ) return nullptr;
-  return gc_active->top()->get_string_at(pos).data();
+  GC_TRY_GET( gc_active->top()->get_string_at( static_cast<unsigned>(pos) ).data(), nullptr );
 }
 
 //..............................................................................
@@ -553,37 +556,27 @@ GC_get_string_at_pos( int const pos ) {
 double
 GC_get_real_at_coor( int const i, int const j ) {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_real_at( static_cast<unsigned>(i), static_cast<unsigned>(j) );
+  GC_TRY_GET( gc_active->top()->get_real_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ), 0 );
 }
 
 c_complex_type
 GC_get_complex_at_coor( int const i, int const j ) {
   c_complex_type tmp;
-  tmp.real = tmp.imag = 0;
-  if ( gc_active != nullptr ) {
-    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
-    tmp.real = res.real();
-    tmp.imag = res.imag();
-  }
+  tmp.real = GC_get_complex_real_at_coor( i, j );
+  tmp.imag = GC_get_complex_imag_at_coor( i, j );
   return tmp;
 }
 
 double
 GC_get_complex_real_at_coor( int const i, int const j ) {
-  if ( gc_active != nullptr ) {
-    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
-    return res.real();
-  }
-  return 0;
+  if ( gc_active == nullptr ) return 0;
+  GC_TRY_GET( gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ).real(), 0 );
 }
 
 double
 GC_get_complex_imag_at_coor( int const i, int const j ) {
-  if ( gc_active != nullptr ) {
-    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
-    return res.imag();
-  }
-  return 0;
+  if ( gc_active == nullptr ) return 0;
+  GC_TRY_GET( gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ).imag(), 0 );
 }
 
 //..............................................................................
@@ -628,8 +621,10 @@ GC_set_empty_vector_of_string() {
 int
 GC_set_vector_of_bool( int const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_bool_type & v{ gc_active->top()->set_vec_bool( nelem ) };
-  for ( unsigned i{0}; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i] != 0;
+  GC_TRY(
+    vec_bool_type & v{ gc_active->top()->set_vec_bool( nelem ) };
+    for ( unsigned i{0}; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i] != 0;
+  )
   return GENERIC_CONTAINER_OK;
 }
 
@@ -638,32 +633,40 @@ GC_set_vector_of_bool( int const * a, int const nelem ) {
 int
 GC_set_vector_of_int( int const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_int_type & v{ gc_active->top()->set_vec_int( nelem ) };
-  std::copy_n( a, nelem, v.begin() );
+  GC_TRY(
+    vec_int_type & v{ gc_active->top()->set_vec_int( nelem ) };
+    std::copy_n( a, nelem, v.begin() );
+  )
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_vector_of_real( double const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_real_type & v{ gc_active->top()->set_vec_real(nelem) };
-  std::copy_n( a, nelem, v.begin() );
+  GC_TRY(
+    vec_real_type & v{ gc_active->top()->set_vec_real( nelem ) };
+    std::copy_n( a, nelem, v.begin() );
+  )
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_vector_of_complex( double const * re, double const * im, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_complex_type & v{gc_active->top()->set_vec_complex(nelem)};
-  for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = complex_type(re[i],im[i]);
+  GC_TRY(
+    vec_complex_type & v{ gc_active->top()->set_vec_complex( nelem ) };
+    for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = complex_type(re[i],im[i]);
+  )
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_vector_of_string( char const ** a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_string_type & v{ gc_active->top()->set_vec_string(nelem) };
-  for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i];
+  GC_TRY(
+    vec_string_type & v{ gc_active->top()->set_vec_string( nelem ) };
+    for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i];
+  )
   return GENERIC_CONTAINER_OK;
 }
 
@@ -686,25 +689,25 @@ GC_set_empty_vector() {
 int
 GC_get_vector_size() {
   if ( gc_active == nullptr ) return 0;
-  return static_cast<int>(gc_active->top()->get_num_elements());
+  GC_TRY_GET( static_cast<int>(gc_active->top()->get_num_elements()), 0 );
 }
 
 int
 GC_get_matrix_num_rows() {
   if ( gc_active == nullptr ) return 0;
-  return static_cast<int>(gc_active->top()->num_rows());
+  GC_TRY_GET( static_cast<int>(gc_active->top()->num_rows()), 0 );
 }
 
 int
 GC_get_matrix_num_cols() {
   if ( gc_active == nullptr ) return 0;
-  return static_cast<int>(gc_active->top()->num_cols());
+  GC_TRY_GET( static_cast<int>(gc_active->top()->num_cols()), 0 );
 }
 
 int
 GC_push_vector_position( int const pos ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  return gc_active->push_vector_position(pos);
+  GC_TRY_GET( gc_active->push_vector_position(pos), GENERIC_CONTAINER_NO_DATA );
 }
 
 //..............................................................................
@@ -724,7 +727,7 @@ GC_set_map() {
 int
 GC_push_map_position( char const pos[] ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  return gc_active->push_map_position( pos );
+  GC_TRY_GET( gc_active->push_map_position( pos ), GENERIC_CONTAINER_NO_DATA );
 }
 
 int
-- 
2.43.0


From d4f18583749bbdb6d68d8e8ba5c0623afb695467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:46 +0000
Subject: [PATCH 064/125] fix: reading functions of the C interface changed the
 container

---
 src/GenericContainerInterface_C.cc | 46 +++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index f7fb9e2..0197a6a 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -216,6 +216,26 @@ typedef std::pair<string_type,GenericContainerExplorer*> MAP_DATA;
 static MAP                        gc_explorer;
 static GenericContainerExplorer * gc_active = nullptr;
 
+// the element pointed by the head, for reading only
+static
+GenericContainer const &
+gc_top() {
+  return *gc_active->top();
+}
+
+// the element `pos` of a vector of `GenericContainer`
+static
+GenericContainer const &
+gc_top( int const pos ) {
+  return gc_top().get_gc_at( static_cast<unsigned>(pos), "GC_get_*_at_pos" );
+}
+
+static
+bool
+gc_top_is( GC_type const data_type ) {
+  return gc_top().get_type() == data_type;
+}
+
 extern "C" {
 
 int
@@ -414,25 +434,25 @@ GC_set_string( char const a[] ) {
 int
 GC_get_bool() {
   if ( gc_active == nullptr ) return 0;
-  GC_TRY_GET( gc_active->top()->get_bool() ? 1 : 0, 0 );
+  GC_TRY_GET( gc_top().get_bool() ? 1 : 0, 0 );
 }
 
 int
 GC_get_int() {
   if ( gc_active == nullptr ) return 0;
-  GC_TRY_GET( gc_active->top()->get_int(), 0 );
+  GC_TRY_GET( gc_top().get_int(), 0 );
 }
 
 long
 GC_get_long() {
   if ( gc_active == nullptr ) return 0;
-  GC_TRY_GET( gc_active->top()->get_long(), 0 );
+  GC_TRY_GET( gc_top().get_long(), 0 );
 }
 
 double
 GC_get_real( ) {
   if ( gc_active == nullptr ) return 0;
-  GC_TRY_GET( gc_active->top()->get_real(), 0 );
+  GC_TRY_GET( gc_top().get_real(), 0 );
 }
 
 c_complex_type
@@ -446,19 +466,19 @@ GC_get_complex( ) {
 double
 GC_get_complex_re( ) {
   if ( gc_active == nullptr ) return 0;
-  GC_TRY_GET( gc_active->top()->get_complex().real(), 0 );
+  GC_TRY_GET( gc_top().get_complex().real(), 0 );
 }
 
 double
 GC_get_complex_im( ) {
   if ( gc_active == nullptr ) return 0;
-  GC_TRY_GET( gc_active->top()->get_complex().imag(), 0 );
+  GC_TRY_GET( gc_top().get_complex().imag(), 0 );
 }
 
 char const *
 GC_get_string( ) {
   if ( gc_active == nullptr ) return nullptr;
-  GC_TRY_GET( gc_active->top()->get_string().data(), nullptr );
+  GC_TRY_GET( gc_top().get_string().data(), nullptr );
 }
 
 //..............................................................................
@@ -510,13 +530,13 @@ GC_push_string( char const a[] ) {
 int
 GC_get_bool_at_pos( int const pos ) {
   if ( gc_active == nullptr ) return 0;
-  GC_TRY_GET( gc_active->top()->get_bool_at( static_cast<unsigned>(pos) ) ? 1 : 0, 0 );
+  GC_TRY_GET( (gc_top_is( GC_type::VECTOR ) ? gc_top(pos).get_bool() : gc_top().get_bool_at( static_cast<unsigned>(pos), "GC_get_bool_at_pos" )) ? 1 : 0, 0 );
 }
 
 int
 GC_get_int_at_pos( int const pos ) {
   if ( gc_active == nullptr ) return 0;
-  GC_TRY_GET( gc_active->top()->get_int_at( static_cast<unsigned>(pos) ), 0 );
+  GC_TRY_GET( gc_top_is( GC_type::VECTOR ) ? gc_top(pos).get_int() : gc_top().get_int_at( static_cast<unsigned>(pos), "GC_get_int_at_pos" ), 0 );
 }
 
 double
@@ -548,7 +568,7 @@ GC_get_complex_imag_at_pos( int const pos ) {
 char const *
 GC_get_string_at_pos( int const pos ) {
   if ( gc_active == nullptr ) return nullptr;
-  GC_TRY_GET( gc_active->top()->get_string_at( static_cast<unsigned>(pos) ).data(), nullptr );
+  GC_TRY_GET( (gc_top_is( GC_type::VECTOR ) ? gc_top(pos).get_string() : gc_top().get_string_at( static_cast<unsigned>(pos), "GC_get_string_at_pos" )).data(), nullptr );
 }
 
 //..............................................................................
@@ -556,7 +576,7 @@ GC_get_string_at_pos( int const pos ) {
 double
 GC_get_real_at_coor( int const i, int const j ) {
   if ( gc_active == nullptr ) return 0;
-  GC_TRY_GET( gc_active->top()->get_real_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ), 0 );
+  GC_TRY_GET( gc_top().get_real_at( static_cast<unsigned>(i), static_cast<unsigned>(j), "GC_get_real_at_coor" ), 0 );
 }
 
 c_complex_type
@@ -570,13 +590,13 @@ GC_get_complex_at_coor( int const i, int const j ) {
 double
 GC_get_complex_real_at_coor( int const i, int const j ) {
   if ( gc_active == nullptr ) return 0;
-  GC_TRY_GET( gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ).real(), 0 );
+  GC_TRY_GET( gc_top().get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j), "GC_get_complex_real_at_coor" ).real(), 0 );
 }
 
 double
 GC_get_complex_imag_at_coor( int const i, int const j ) {
   if ( gc_active == nullptr ) return 0;
-  GC_TRY_GET( gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ).imag(), 0 );
+  GC_TRY_GET( gc_top().get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j), "GC_get_complex_imag_at_coor" ).imag(), 0 );
 }
 
 //..............................................................................
-- 
2.43.0


From b4bd77d746347710ecaefe7f6b6aea437991d9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:50 +0000
Subject: [PATCH 065/125] fix: GC_set_map and GC_set_*vector* kept the previous
 elements

---
 src/GenericContainerInterface_C.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 0197a6a..2a15969 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -604,35 +604,35 @@ GC_get_complex_imag_at_coor( int const i, int const j ) {
 int
 GC_set_empty_vector_of_bool() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_bool() );
+  GC_TRY( gc_active->top()->clear(); gc_active->top()->set_vec_bool() );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_int() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_int() );
+  GC_TRY( gc_active->top()->clear(); gc_active->top()->set_vec_int() );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_real() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_real() );
+  GC_TRY( gc_active->top()->clear(); gc_active->top()->set_vec_real() );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_complex() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_complex() );
+  GC_TRY( gc_active->top()->clear(); gc_active->top()->set_vec_complex() );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_string() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_string() );
+  GC_TRY( gc_active->top()->clear(); gc_active->top()->set_vec_string() );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -642,6 +642,7 @@ int
 GC_set_vector_of_bool( int const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
   GC_TRY(
+    gc_active->top()->clear();
     vec_bool_type & v{ gc_active->top()->set_vec_bool( nelem ) };
     for ( unsigned i{0}; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i] != 0;
   )
@@ -654,6 +655,7 @@ int
 GC_set_vector_of_int( int const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
   GC_TRY(
+    gc_active->top()->clear();
     vec_int_type & v{ gc_active->top()->set_vec_int( nelem ) };
     std::copy_n( a, nelem, v.begin() );
   )
@@ -664,6 +666,7 @@ int
 GC_set_vector_of_real( double const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
   GC_TRY(
+    gc_active->top()->clear();
     vec_real_type & v{ gc_active->top()->set_vec_real( nelem ) };
     std::copy_n( a, nelem, v.begin() );
   )
@@ -674,6 +677,7 @@ int
 GC_set_vector_of_complex( double const * re, double const * im, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
   GC_TRY(
+    gc_active->top()->clear();
     vec_complex_type & v{ gc_active->top()->set_vec_complex( nelem ) };
     for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = complex_type(re[i],im[i]);
   )
@@ -684,6 +688,7 @@ int
 GC_set_vector_of_string( char const ** a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
   GC_TRY(
+    gc_active->top()->clear();
     vec_string_type & v{ gc_active->top()->set_vec_string( nelem ) };
     for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i];
   )
@@ -695,14 +700,14 @@ GC_set_vector_of_string( char const ** a, int const nelem ) {
 int
 GC_set_vector( int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vector(nelem) );
+  GC_TRY( gc_active->top()->clear(); gc_active->top()->set_vector(nelem) );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vector() );
+  GC_TRY( gc_active->top()->clear(); gc_active->top()->set_vector() );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -735,7 +740,7 @@ GC_push_vector_position( int const pos ) {
 int
 GC_set_map() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_map() );
+  GC_TRY( gc_active->top()->clear(); gc_active->top()->set_map() );
   return GENERIC_CONTAINER_OK;
 }
 
-- 
2.43.0


From 219c1b4a0a0bb55f8a3123dbdfe600277c2fb048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:53 +0000
Subject: [PATCH 066/125] fix: GC_get_next_key returned an empty key after the
 last one and crashed before GC_init_map_key

---
 src/GenericContainerInterface_C.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 2a15969..c0ec064 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -177,8 +177,8 @@ namespace GC_namespace {
 
   string_view
   GenericContainerExplorer::next_map_key() {
-    if ( map_iterator != ptr_map->end() ) return map_iterator++->first;
-    return "";
+    if ( ptr_map != nullptr && map_iterator != ptr_map->end() ) return map_iterator++->first;
+    return {}; // no more keys, data() is nullptr
   }
 
   int
-- 
2.43.0


From bb3ab55bddf4fd3db1ff4074e1fd163b6d854649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:57 +0000
Subject: [PATCH 067/125] fix: GC_reset_head did not restore the head after its
 last level was removed

---
 src/GenericContainerInterface_C.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index c0ec064..3a9fc24 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -183,8 +183,8 @@ namespace GC_namespace {
 
   int
   GenericContainerExplorer::reset() {
-    if ( head.empty() ) return GENERIC_CONTAINER_NO_DATA;
-    while ( head.size() > 1 ) head.pop_back();
+    head.clear();
+    head.push_back(&data);
     return GENERIC_CONTAINER_OK;
   }
 
-- 
2.43.0


From 0aacf1a5697cc9d8c46bae8c2c7cd0f9af3df21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:01 +0000
Subject: [PATCH 068/125] fix: GC_fill_for_test left the head on destroyed
 elements

---
 src/GenericContainerInterface_C.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 3a9fc24..1f98ded 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -284,6 +284,7 @@ int
 GC_fill_for_test( char const id[] ) {
   // ckeck if exists
   GC_select( id );
+  gc_active->reset(); // the elements pointed by the head may be destroyed
   GenericContainer & gc =
      *static_cast<GenericContainer*>(gc_active->mem_ptr());
 
-- 
2.43.0


From 0c6bb3feea4a74ee343e33e5822db00507d1efef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:05 +0000
Subject: [PATCH 069/125] fix: negative sizes and positions in the C interface
 were taken as huge ones

---
 src/GenericContainerInterface_C.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 1f98ded..6b43a65 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -642,6 +642,7 @@ GC_set_empty_vector_of_string() {
 int
 GC_set_vector_of_bool( int const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
   GC_TRY(
     gc_active->top()->clear();
     vec_bool_type & v{ gc_active->top()->set_vec_bool( nelem ) };
@@ -655,6 +656,7 @@ GC_set_vector_of_bool( int const * a, int const nelem ) {
 int
 GC_set_vector_of_int( int const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
   GC_TRY(
     gc_active->top()->clear();
     vec_int_type & v{ gc_active->top()->set_vec_int( nelem ) };
@@ -666,6 +668,7 @@ GC_set_vector_of_int( int const * a, int const nelem ) {
 int
 GC_set_vector_of_real( double const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
   GC_TRY(
     gc_active->top()->clear();
     vec_real_type & v{ gc_active->top()->set_vec_real( nelem ) };
@@ -677,6 +680,7 @@ GC_set_vector_of_real( double const * a, int const nelem ) {
 int
 GC_set_vector_of_complex( double const * re, double const * im, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
   GC_TRY(
     gc_active->top()->clear();
     vec_complex_type & v{ gc_active->top()->set_vec_complex( nelem ) };
@@ -688,6 +692,7 @@ GC_set_vector_of_complex( double const * re, double const * im, int const nelem
 int
 GC_set_vector_of_string( char const ** a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
   GC_TRY(
     gc_active->top()->clear();
     vec_string_type & v{ gc_active->top()->set_vec_string( nelem ) };
@@ -701,6 +706,7 @@ GC_set_vector_of_string( char const ** a, int const nelem ) {
 int
 GC_set_vector( int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
   GC_TRY( gc_active->top()->clear(); gc_active->top()->set_vector(nelem) );
   return GENERIC_CONTAINER_OK;
 }
@@ -733,6 +739,7 @@ GC_get_matrix_num_cols() {
 int
 GC_push_vector_position( int const pos ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
+  if ( pos < 0 ) return GENERIC_CONTAINER_NO_DATA;
   GC_TRY_GET( gc_active->push_vector_position(pos), GENERIC_CONTAINER_NO_DATA );
 }
 
-- 
2.43.0


From d6b54b5af58bf5d621afc8b4d4daab895be91a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:37 +0000
Subject: [PATCH 070/125] fix: GC_get_next_key used the map after it was
 destroyed

---
 src/GenericContainerInterface_C.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 6b43a65..fe61b0f 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -59,8 +59,9 @@ namespace GC_namespace {
     GenericContainer         data;
     deque<GenericContainer*> head;
 
-    map_type         * ptr_map{nullptr};
-    map_type::iterator map_iterator;
+    // keys of the map being visited, still valid if the map changes
+    deque<string_type> map_keys;
+    size_t             map_next{0};
 
   public:
 
@@ -169,15 +170,16 @@ namespace GC_namespace {
   GenericContainerExplorer::init_map_key() {
     int const ok{ check( GC_type::MAP ) };
     if ( ok == GENERIC_CONTAINER_OK ) {
-      ptr_map = &head.back()->get_map();
-      map_iterator = ptr_map->begin();
+      map_keys.clear();
+      map_next = 0;
+      for ( auto const & m : head.back()->get_map() ) map_keys.push_back( m.first );
     }
     return ok;
   }
 
   string_view
   GenericContainerExplorer::next_map_key() {
-    if ( ptr_map != nullptr && map_iterator != ptr_map->end() ) return map_iterator++->first;
+    if ( map_next < map_keys.size() ) return map_keys[map_next++];
     return {}; // no more keys, data() is nullptr
   }
 
-- 
2.43.0


From 3fee7fb4e2cd218a880dac96e272cea265c32202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:41 +0000
Subject: [PATCH 071/125] fix: GC_get_complex_*_at_coor reads matrices of real
 and integer numbers without changing them

---
 src/GenericContainerInterface_C.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index fe61b0f..6c701c1 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -232,6 +232,22 @@ gc_top( int const pos ) {
   return gc_top().get_gc_at( static_cast<unsigned>(pos), "GC_get_*_at_pos" );
 }
 
+// the element (i,j) of a matrix of numbers
+static
+complex_type
+gc_top( int const i, int const j ) {
+  GenericContainer const & gc{ gc_top() };
+  unsigned const ii{ static_cast<unsigned>(i) };
+  unsigned const jj{ static_cast<unsigned>(j) };
+  string_view const where{ "GC_get_complex_*_at_coor" };
+  switch ( gc.get_type() ) {
+  case GC_type::MAT_INTEGER: return complex_type( gc.get_int_at( ii, jj, where ), 0 );
+  case GC_type::MAT_LONG:    return complex_type( static_cast<real_type>(gc.get_long_at( ii, jj, where )), 0 );
+  case GC_type::MAT_REAL:    return complex_type( gc.get_real_at( ii, jj, where ), 0 );
+  default:                   return gc.get_complex_at( ii, jj, where );
+  }
+}
+
 static
 bool
 gc_top_is( GC_type const data_type ) {
@@ -593,13 +609,13 @@ GC_get_complex_at_coor( int const i, int const j ) {
 double
 GC_get_complex_real_at_coor( int const i, int const j ) {
   if ( gc_active == nullptr ) return 0;
-  GC_TRY_GET( gc_top().get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j), "GC_get_complex_real_at_coor" ).real(), 0 );
+  GC_TRY_GET( gc_top( i, j ).real(), 0 );
 }
 
 double
 GC_get_complex_imag_at_coor( int const i, int const j ) {
   if ( gc_active == nullptr ) return 0;
-  GC_TRY_GET( gc_top().get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j), "GC_get_complex_imag_at_coor" ).imag(), 0 );
+  GC_TRY_GET( gc_top( i, j ).imag(), 0 );
 }
 
 //..............................................................................
-- 
2.43.0


From 8f3d6cf94ce4ab4ee9a9c16486b3bb261cc8faf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:39 +0000
Subject: [PATCH 072/125] fix: GC_to_global of a vector of bool left a nil on
 the Lua stack, taken as its value

---
 src_lua_interface/GenericContainerInterface_lua.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 4968a88..93ab127 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -261,7 +261,6 @@ namespace GC_namespace {
           lua_rawseti( L, -2, int(i+1) );
         }
       }
-      lua_pushnil(L);
       break;
     case GC_type::VEC_INTEGER:
       { vec_int_type const & vi = gc.get_vec_int();
-- 
2.43.0


From a82c7e26a9550b44d36efaff12f28ce38da4d605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:41 +0000
Subject: [PATCH 073/125] fix: integers above 2^53 were rounded in the exchange
 with Lua, large reals became wrong integers

---
 .../GenericContainerInterface_lua.cc          | 50 ++++++++++++-------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 93ab127..cab6da7 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -87,8 +87,23 @@ namespace GC_namespace {
   static
   inline
   bool
-  isInteger64( real_type x )
-  { return isZero( x-static_cast<int64_t>(floor(x)) ); }
+  isInteger64( real_type x ) {
+    // the comparisons are false for NaN; 2^63 does not fit
+    if ( !( x >= -9223372036854775808.0 && x < 9223372036854775808.0 ) ) return false;
+    return isZero( x-static_cast<int64_t>(floor(x)) );
+  }
+
+  // true if the number at position `pos` of the stack can be stored as long
+  static
+  inline
+  bool
+  getInteger64( lua_State * L, int pos, long_type & val ) {
+    if ( lua_isinteger( L, pos ) ) { val = long_type(lua_tointeger( L, pos )); return true; }
+    real_type const x = lua_tonumber( L, pos );
+    if ( !isInteger64(x) ) return false;
+    val = long_type(x);
+    return true;
+  }
 
   /*
   //   _                _           ____  ____
@@ -121,11 +136,12 @@ namespace GC_namespace {
     case LUA_TNUMBER:
       {
         real_type val = lua_tonumber(L, -1);
+        long_type ival;
         if ( gc.get_type() == GC_type::VEC_REAL ||
              gc.get_type() == GC_type::MAT_REAL ) {
           gc.get_real_at(idx) = val;
-        } else if ( isInteger64(val) ) {
-          gc.get_long_at(idx) = long_type(val);
+        } else if ( getInteger64(L, -1, ival) ) {
+          gc.get_long_at(idx) = ival;
         } else {
           gc.get_real_at(idx) = val;
         }
@@ -154,9 +170,9 @@ namespace GC_namespace {
         break;
       case LUA_TNUMBER:
         {
-          real_type val = lua_tonumber(L, -1);
-          if ( isInteger64(val) ) gc[key].set_long(long_type(val));
-          else                    gc[key].set_real(val);
+          long_type ival;
+          if ( getInteger64(L, -1, ival) ) gc[key].set_long(ival);
+          else                             gc[key].set_real(lua_tonumber(L, -1));
         }
         break;
       case LUA_TSTRING:
@@ -199,9 +215,9 @@ namespace GC_namespace {
         break;
       case LUA_TNUMBER:
         {
-        real_type val = lua_tonumber(L, -1);
-        if ( isInteger64(val) ) gc.set_long(long_type(val));
-        else                    gc.set_real(val);
+        long_type ival;
+        if ( getInteger64(L, -1, ival) ) gc.set_long(ival);
+        else                             gc.set_real(lua_tonumber(L, -1));
         }
         break;
       case LUA_TSTRING:
@@ -239,10 +255,10 @@ namespace GC_namespace {
       lua_pushboolean( L, gc.get_bool() ? 1 : 0 );
       break;
     case GC_type::INTEGER:
-      lua_pushnumber( L, gc.get_int() );
+      lua_pushinteger( L, gc.get_int() );
       break;
     case GC_type::LONG:
-      lua_pushnumber( L, lua_Number(gc.get_long()) );
+      lua_pushinteger( L, lua_Integer(gc.get_long()) );
       break;
     case GC_type::REAL:
       lua_pushnumber( L, gc.get_real() );
@@ -266,7 +282,7 @@ namespace GC_namespace {
       { vec_int_type const & vi = gc.get_vec_int();
         lua_createtable( L, int(vi.size()), 0);
         for ( unsigned i = 0; i < vi.size(); ++i ) {
-          lua_pushnumber( L, lua_Number(vi[i]) );
+          lua_pushinteger( L, lua_Integer(vi[i]) );
           lua_rawseti( L, -2, int(i+1) );
         }
       }
@@ -275,7 +291,7 @@ namespace GC_namespace {
       { vec_long_type const & vi = gc.get_vec_long();
         lua_createtable(L, int(vi.size()), 0);
         for ( unsigned i = 0; i < vi.size(); ++i ) {
-          lua_pushnumber( L, lua_Number(vi[i]) );
+          lua_pushinteger( L, lua_Integer(vi[i]) );
           lua_rawseti( L, -2, int(i+1) );
         }
       }
@@ -442,9 +458,9 @@ namespace GC_namespace {
       break;
     case LUA_TNUMBER:
       {
-        real_type val = lua_tonumber(L, -1);
-        if ( isInteger64(val) ) gc.set_long(long_type(val));
-        else                    gc.set_real(val);
+        long_type ival;
+        if ( getInteger64(L, -1, ival) ) gc.set_long(ival);
+        else                             gc.set_real(lua_tonumber(L, -1));
       }
       break;
     case LUA_TSTRING:
-- 
2.43.0


From 1827b24838c0be96e9a51fb99d8fc5cd860d89e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:44 +0000
Subject: [PATCH 074/125] fix: strings and keys exchanged with Lua were cut at
 an embedded NUL

---
 .../GenericContainerInterface_lua.cc          | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index cab6da7..af4f7fa 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -93,6 +93,16 @@ namespace GC_namespace {
     return isZero( x-static_cast<int64_t>(floor(x)) );
   }
 
+  // the whole string at position `pos` of the stack, it may contain NULs
+  static
+  inline
+  string
+  getString( lua_State * L, int pos ) {
+    size_t len;
+    char const * str = lua_tolstring( L, pos, &len );
+    return string( str, len );
+  }
+
   // true if the number at position `pos` of the stack can be stored as long
   static
   inline
@@ -148,7 +158,7 @@ namespace GC_namespace {
       }
       break;
     case LUA_TSTRING:
-      gc.get_string_at(idx) = lua_tostring(L, -1);
+      gc.get_string_at(idx) = getString(L, -1);
       break;
     case LUA_TTABLE:
       lua_table_to_GC( L, gc[idx] );
@@ -162,7 +172,7 @@ namespace GC_namespace {
   void
   push_hash_element( lua_State * L, GenericContainer & gc ) {
     // assegna il valore
-    string key  = lua_tostring(L, -2);
+    string key  = getString(L, -2);
     int    type = lua_type(L, -1);
     switch( type ) {
       case LUA_TBOOLEAN:
@@ -176,7 +186,7 @@ namespace GC_namespace {
         }
         break;
       case LUA_TSTRING:
-        gc[key].set_string(lua_tostring(L, -1));
+        gc[key].set_string(getString(L, -1));
         break;
       case LUA_TTABLE:
         lua_table_to_GC( L, gc[key] );
@@ -221,7 +231,7 @@ namespace GC_namespace {
         }
         break;
       case LUA_TSTRING:
-        gc.set_string(lua_tostring(L, -1));
+        gc.set_string(getString(L, -1));
         break;
       case LUA_TTABLE:
         lua_table_to_GC( L, gc );
@@ -264,7 +274,7 @@ namespace GC_namespace {
       lua_pushnumber( L, gc.get_real() );
       break;
     case GC_type::STRING:
-      lua_pushstring( L, gc.get_string().data() );
+      lua_pushlstring( L, gc.get_string().data(), gc.get_string().size() );
       break;
     case GC_type::VEC_POINTER:
       lua_pushnil(L);
@@ -309,7 +319,7 @@ namespace GC_namespace {
       { vec_string_type const & vs = gc.get_vec_string();
         lua_createtable( L, int(vs.size()), 0);
         for ( unsigned i = 0; i < vs.size(); ++i ) {
-          lua_pushstring( L, vs[i].c_str() );
+          lua_pushlstring( L, vs[i].data(), vs[i].size() );
           lua_rawseti( L, -2, int(i+1) );
         }
       }
@@ -327,7 +337,7 @@ namespace GC_namespace {
       { map_type const & m = gc.get_map();
         lua_createtable(L, int(m.size()), 0);
         for ( map_type::const_iterator it = m.begin(); it != m.end(); ++it ) {
-          lua_pushstring(L, it->first.c_str());
+          lua_pushlstring( L, it->first.data(), it->first.size() );
           GC_to_lua( L, it->second );
           lua_settable( L, -3 );
         }
@@ -464,7 +474,7 @@ namespace GC_namespace {
       }
       break;
     case LUA_TSTRING:
-      gc.set_string(lua_tostring(L, -1));
+      gc.set_string(getString(L, -1));
       break;
     case LUA_TTABLE:
       lua_table_to_GC( L, gc );
-- 
2.43.0


From 5d9dee9b0a17852e94a25b55ac9d937880c83de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:46 +0000
Subject: [PATCH 075/125] fix: keys of Lua tables that are not positions were
 used as positions

---
 src_lua_interface/GenericContainerInterface_lua.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index af4f7fa..45e4425 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -58,6 +58,7 @@
   #endif
 #endif
 
+#include <limits>
 #include <signal.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -133,7 +134,12 @@ namespace GC_namespace {
   push_vec_element( lua_State * L, GenericContainer & gc ) {
     // assegna il valore
     // index start from 1 in LUA
-    unsigned    idx  = unsigned(lua_tointeger(L, -2)-1);
+    lua_Integer key  = lua_isinteger(L, -2) ? lua_tointeger(L, -2) : 0;
+    GC_ASSERT(
+      key >= 1 && key <= lua_Integer(std::numeric_limits<unsigned>::max()),
+      "in the conversion of a Lua table: " << lua_tonumber(L, -2) << " is not a position"
+    )
+    unsigned    idx  = unsigned(key-1);
     lua_Integer type = lua_type(L, -1);
     switch( type ) {
     case LUA_TBOOLEAN:
-- 
2.43.0


From 56362b64e381a4b7577a26d254b9dc2841731349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:49 +0000
Subject: [PATCH 076/125] fix: Lua lists mixing booleans or tables with other
 values were refused or lost values

---
 src_lua_interface/GenericContainerInterface_lua.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 45e4425..5714af3 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -144,13 +144,16 @@ namespace GC_namespace {
     switch( type ) {
     case LUA_TBOOLEAN:
       {
-        gc.get_bool_at(idx);
-        vec_bool_type & bv = gc.get_vec_bool();
-        bv[idx] = lua_toboolean(L, -1) ? true : false;
+        bool const val = lua_toboolean(L, -1) ? true : false;
+        gc.get_bool_at(idx); // make room for the element
+        if ( gc.get_type() == GC_type::VEC_BOOL ) gc.get_vec_bool()[idx] = val;
+        else                                      gc[idx].set_bool( val );
       }
       break;
     case LUA_TNUMBER:
       {
+        // booleans stored so far are not numbers
+        if ( gc.get_type() == GC_type::VEC_BOOL ) gc.promote_to_vector();
         real_type val = lua_tonumber(L, -1);
         long_type ival;
         if ( gc.get_type() == GC_type::VEC_REAL ||
@@ -167,6 +170,8 @@ namespace GC_namespace {
       gc.get_string_at(idx) = getString(L, -1);
       break;
     case LUA_TTABLE:
+      // operator [] drops the elements stored so far if they are not in a generic vector
+      if ( gc.get_type() != GC_type::NOTYPE ) gc.promote_to_vector();
       lua_table_to_GC( L, gc[idx] );
       break;
     }
-- 
2.43.0


From 9b0ebe0b1d4edba0864c3f1c53e2518e107bc77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:36 +0000
Subject: [PATCH 077/125] fix: the exchange with Lua leaked, overflowed or
 emptied the Lua stack

---
 .../GenericContainerInterface_lua.cc          | 31 +++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 5714af3..cae4ce3 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -116,6 +116,25 @@ namespace GC_namespace {
     return true;
   }
 
+  // on exit, also by an exception, the stack is left as it was
+  class LuaStackGuard {
+    lua_State * m_L;
+    int         m_top;
+  public:
+    explicit LuaStackGuard( lua_State * L ) : m_L(L), m_top(lua_gettop(L)) {}
+    ~LuaStackGuard() { lua_settop( m_L, m_top ); }
+    LuaStackGuard( LuaStackGuard const & ) = delete;
+    LuaStackGuard & operator = ( LuaStackGuard const & ) = delete;
+  };
+
+  // room for the values used at one level of nesting
+  static
+  inline
+  void
+  checkStack( lua_State * L ) {
+    GC_ASSERT( lua_checkstack( L, LUA_MINSTACK ), "tables nested too deep for the Lua stack" )
+  }
+
   /*
   //   _                _           ____  ____
   //  | |_   _  __ _   | |_ ___    / ___|/ ___|
@@ -210,6 +229,7 @@ namespace GC_namespace {
   static
   void
   lua_table_to_GC( lua_State * L, GenericContainer & gc ) {
+    checkStack( L );
     // ---
     lua_pushnil(L); // first key
     // ---
@@ -247,7 +267,6 @@ namespace GC_namespace {
       case LUA_TTABLE:
         lua_table_to_GC( L, gc );
         //global_to_GC( gc );
-        lua_settop(L, 0);
         break;
     }
   }
@@ -265,6 +284,7 @@ namespace GC_namespace {
   void
   GC_to_lua( lua_State * L, GenericContainer const & gc ) {
     // inizializzazione
+    checkStack( L );
     switch ( gc.get_type() ) {
     case GC_type::NOTYPE:
       lua_pushnil(L);
@@ -404,6 +424,7 @@ namespace GC_namespace {
       "LuaInterpreter::do_file('" << filename <<
       "')\nlua_State invalid!"
     )
+    LuaStackGuard const guard( L );
     if ( luaL_loadfile(L, filename) || lua_pcall(L, 0, 0, 0)  ) {
       GC_ASSERT(
         lua_isnil(L,-1),
@@ -418,6 +439,7 @@ namespace GC_namespace {
   void
   LuaInterpreter::execute( char const cmd[] ) {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
+    LuaStackGuard const guard( L );
     GC_ASSERT(
       L != nullptr &&
       !luaL_loadbuffer(L, cmd, strlen(cmd), "line") &&
@@ -437,6 +459,9 @@ namespace GC_namespace {
     string_view            fname = fun_io("function").get_string();
     GenericContainer const & args = fun_io("args");
 
+    LuaStackGuard const guard( L );
+    checkStack( L );
+
     // push functions and arguments
     lua_getglobal( L, fname.data() );  // function to be called
     GC_to_lua( L, args );
@@ -465,6 +490,8 @@ namespace GC_namespace {
       L != nullptr, "LuaInterpreter::global_to_GC(...) lua_State invalid!"
     )
 
+    LuaStackGuard const guard( L );
+    checkStack( L );
     lua_getglobal( L, global_var );
     GC_ASSERT(
       !lua_isnil(L,-1),
@@ -490,7 +517,6 @@ namespace GC_namespace {
     case LUA_TTABLE:
       lua_table_to_GC( L, gc );
       //global_to_GC( gc );
-      lua_settop(L, 0);
       break;
     default:
       GC_DO_ERROR(
@@ -511,6 +537,7 @@ namespace GC_namespace {
     char             const * global_var
   ) {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
+    LuaStackGuard const guard( L );
     GC_to_lua( L, gc );
     lua_setglobal( L, global_var );
   }
-- 
2.43.0


From 5cec40b6a98f49e65421efb44f637ec291019297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:38 +0000
Subject: [PATCH 078/125] fix: reading a Lua table that contains itself
 overflowed the stack

---
 .../GenericContainerInterface_lua.cc          | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index cae4ce3..1d553df 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -144,13 +144,19 @@ namespace GC_namespace {
   //               |_____|    |_____|
   */
 
+  // the tables being converted, from the innermost
+  struct LuaOpenTable {
+    void         const * m_table;
+    LuaOpenTable const * m_up;
+  };
+
   static
   void
-  lua_table_to_GC( lua_State * L, GenericContainer & gc );
+  lua_table_to_GC( lua_State * L, GenericContainer & gc, LuaOpenTable const * up );
 
   static
   void
-  push_vec_element( lua_State * L, GenericContainer & gc ) {
+  push_vec_element( lua_State * L, GenericContainer & gc, LuaOpenTable const * up ) {
     // assegna il valore
     // index start from 1 in LUA
     lua_Integer key  = lua_isinteger(L, -2) ? lua_tointeger(L, -2) : 0;
@@ -191,7 +197,7 @@ namespace GC_namespace {
     case LUA_TTABLE:
       // operator [] drops the elements stored so far if they are not in a generic vector
       if ( gc.get_type() != GC_type::NOTYPE ) gc.promote_to_vector();
-      lua_table_to_GC( L, gc[idx] );
+      lua_table_to_GC( L, gc[idx], up );
       break;
     }
   }
@@ -200,7 +206,7 @@ namespace GC_namespace {
 
   static
   void
-  push_hash_element( lua_State * L, GenericContainer & gc ) {
+  push_hash_element( lua_State * L, GenericContainer & gc, LuaOpenTable const * up ) {
     // assegna il valore
     string key  = getString(L, -2);
     int    type = lua_type(L, -1);
@@ -219,7 +225,7 @@ namespace GC_namespace {
         gc[key].set_string(getString(L, -1));
         break;
       case LUA_TTABLE:
-        lua_table_to_GC( L, gc[key] );
+        lua_table_to_GC( L, gc[key], up );
         break;
     }
   }
@@ -228,18 +234,22 @@ namespace GC_namespace {
 
   static
   void
-  lua_table_to_GC( lua_State * L, GenericContainer & gc ) {
+  lua_table_to_GC( lua_State * L, GenericContainer & gc, LuaOpenTable const * up ) {
     checkStack( L );
+    LuaOpenTable const me{ lua_topointer( L, -1 ), up };
+    for ( ; up != nullptr; up = up->m_up ) {
+      GC_ASSERT( up->m_table != me.m_table, "a Lua table that contains itself cannot be converted" )
+    }
     // ---
     lua_pushnil(L); // first key
     // ---
     while ( lua_next(L,-2) != 0 ) {
       switch( lua_type(L, -2) ) {
         case LUA_TNUMBER:
-          push_vec_element( L, gc );
+          push_vec_element( L, gc, &me );
           break;
         case LUA_TSTRING:
-          push_hash_element( L, gc );
+          push_hash_element( L, gc, &me );
           break;
       }
       lua_pop(L, 1);  // removes `value'; keeps `key' for next iteration
@@ -265,7 +275,7 @@ namespace GC_namespace {
         gc.set_string(getString(L, -1));
         break;
       case LUA_TTABLE:
-        lua_table_to_GC( L, gc );
+        lua_table_to_GC( L, gc, nullptr );
         //global_to_GC( gc );
         break;
     }
@@ -515,7 +525,7 @@ namespace GC_namespace {
       gc.set_string(getString(L, -1));
       break;
     case LUA_TTABLE:
-      lua_table_to_GC( L, gc );
+      lua_table_to_GC( L, gc, nullptr );
       //global_to_GC( gc );
       break;
     default:
-- 
2.43.0


From 10367a266ad5ecc318b9fb73fdd7ddf59c3ca514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:40 +0000
Subject: [PATCH 079/125] fix: do_file ignored errors without a value and
 printed a null pointer for the ones without a message

---
 src_lua_interface/GenericContainerInterface_lua.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 1d553df..1a652de 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -436,10 +436,11 @@ namespace GC_namespace {
     )
     LuaStackGuard const guard( L );
     if ( luaL_loadfile(L, filename) || lua_pcall(L, 0, 0, 0)  ) {
-      GC_ASSERT(
-        lua_isnil(L,-1),
+      // the error can be any value, also nil
+      char const * msg = lua_tostring(L, -1);
+      GC_DO_ERROR(
         "In LuaInterpreter::do_file('" << filename <<
-        "')\n" << lua_tostring(L, -1)
+        "')\n" << ( msg == nullptr ? "error without a message" : msg )
       )
     }
   }
-- 
2.43.0


From 380085c0ac8c58cb336356325dd9227582a555e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:01 +0000
Subject: [PATCH 080/125] fix: an empty table in a Lua list kept the filler of
 its position

---
 src_lua_interface/GenericContainerInterface_lua.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 1a652de..a9bbfbe 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -197,6 +197,7 @@ namespace GC_namespace {
     case LUA_TTABLE:
       // operator [] drops the elements stored so far if they are not in a generic vector
       if ( gc.get_type() != GC_type::NOTYPE ) gc.promote_to_vector();
+      gc[idx].clear(); // it may hold the filler of a position that was skipped
       lua_table_to_GC( L, gc[idx], up );
       break;
     }
-- 
2.43.0


From 0f51f02d0957c9ebd415cc5a5e54fac018af715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:54 +0000
Subject: [PATCH 081/125] fix: dump left the stream in hexadecimal after a
 pointer

---
 src/GenericContainer.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 13696c7..2d9c6d9 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3491,6 +3491,14 @@ namespace GC_namespace {
   //  |_|
   */
 
+  static
+  void
+  print_pointer( ostream_type & stream, void const * p ) {
+    ostringstream ost; // do not change the format of the stream
+    ost << std::hex << std::showbase << reinterpret_cast<uintptr_t>(p);
+    stream << ost.str() << '\n';
+  }
+
   void
   GenericContainer::dump(
     ostream_type &    stream,
@@ -3503,7 +3511,8 @@ namespace GC_namespace {
       stream << prefix << "null\n";
       break;
     case GC_type::POINTER:
-      stream << prefix << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '\n';
+      stream << prefix;
+      print_pointer( stream, m_data.p );
       break;
     case GC_type::BOOL:
       stream << prefix << (m_data.b?"true":"false") << '\n';
@@ -3525,9 +3534,10 @@ namespace GC_namespace {
       break;
     case GC_type::VEC_POINTER:
       { vec_pointer_type const & v{*m_data.v_p};
-        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
-          stream << prefix << "vec_pointer(" << i << "): "
-                 << std::hex << std::showbase << reinterpret_cast<uintptr_t>(v[i]) << '\n';
+        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i ) {
+          stream << prefix << "vec_pointer(" << i << "): ";
+          print_pointer( stream, v[i] );
+        }
       }
       break;
     case GC_type::VEC_BOOL:
-- 
2.43.0


From 8ed6a5969a3d866912abfbbbf43c9b6a93c74178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:10 +0000
Subject: [PATCH 082/125] fix: dump used the indent of the caller only at the
 first level

---
 src/GenericContainer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 2d9c6d9..a1edcb2 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3594,7 +3594,7 @@ namespace GC_namespace {
             vi.dump(stream,"");
           } else {
             stream << prefix << i << ":\n";
-            vi.dump(stream,prefix2);
+            vi.dump(stream,prefix2,indent);
           }
         }
       }
@@ -3625,7 +3625,7 @@ namespace GC_namespace {
                 stream << ':';
               }
               stream << '\n';
-              snd.dump(stream,prefix2);
+              snd.dump(stream,prefix2,indent);
             }
           } else {
             string_type header = pcreExecRet == 3 ? matches[3] : fst;
@@ -3634,7 +3634,7 @@ namespace GC_namespace {
               snd.dump(stream,"");
             } else {
               stream << prefix << header << ":\n";
-              snd.dump(stream,prefix2);
+              snd.dump(stream,prefix2,indent);
             }
           }
         }
-- 
2.43.0


From 93b799f0595a659d244bbb2aafdc42ae19d61a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:24 +0000
Subject: [PATCH 083/125] fix: complex numbers were printed without a NaN
 imaginary part, in the first column of a matrix in another form

---
 src/GenericContainer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index a1edcb2..45c6bf1 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -84,8 +84,8 @@ namespace GC_namespace {
     ostringstream data;
     data.precision(stream_number_precision);
     data << v.real();
-    if ( v.imag() > 0 ) data << '+' << v.imag() << 'i';
-    if ( v.imag() < 0 ) data << '-' << -v.imag() << 'i';
+    if      ( v.imag() <  0 ) data << '-' << -v.imag() << 'i';
+    else if ( v.imag() != 0 ) data << '+' << v.imag() << 'i'; // also for NaN
     return data.str();
   }
 
@@ -248,7 +248,7 @@ namespace GC_namespace {
   operator << ( ostream_type & s, mat_complex_type const & m ) {
     if ( m.num_rows() > 0 && m.num_cols() ) {
       for ( unsigned i{0}; i < m.num_rows(); ++i ) {
-        s << std::setw(8) << m(i,0);
+        s << std::setw(12) << to_string(m(i,0));
         for ( unsigned j{1}; j < m.num_cols(); ++j )
           s << " " << std::setw(12) << to_string(m(i,j));
         s << '\n';
-- 
2.43.0


From 33ca7db85d19b846610e746e6fcec8c12efc8134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:40 +0000
Subject: [PATCH 084/125] fix: dump did not end the line of an empty vector of
 pointers

---
 src/GenericContainer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 45c6bf1..71bed29 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3534,6 +3534,7 @@ namespace GC_namespace {
       break;
     case GC_type::VEC_POINTER:
       { vec_pointer_type const & v{*m_data.v_p};
+        if ( v.empty() ) stream << prefix << "[ ]\n"; // as the other vectors
         for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i ) {
           stream << prefix << "vec_pointer(" << i << "): ";
           print_pointer( stream, v[i] );
-- 
2.43.0


From f51717530f7a1bcde2c05044e32678a259dc3dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:23 +0000
Subject: [PATCH 085/125] fix: info cut strings at an embedded NUL

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 71bed29..fb6a99f 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3268,7 +3268,7 @@ namespace GC_namespace {
       stream << "Complex Floating Point: " << to_string(*m_data.c) << '\n';
       break;
     case GC_type::STRING:
-      stream << "String: " << m_data.s->c_str() << '\n';
+      stream << "String: " << *m_data.s << '\n';
       break;
     case GC_type::VEC_POINTER:
       stream << "Vector of generic pointer of size " << m_data.v_p->size() << '\n';
-- 
2.43.0


From 21246b58a77945ae7849cbd330d1b3756db13671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:32 +0000
Subject: [PATCH 086/125] fix: a container whose allocation failed kept a type
 without data

---
 src/GenericContainer.cc | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index fb6a99f..bf80341 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -770,8 +770,8 @@ namespace GC_namespace {
   GenericContainer::allocate_string() {
     if ( m_data_type != GC_type::STRING ) {
       clear();
-      m_data_type = GC_type::STRING;
       m_data.s    = new string_type;
+      m_data_type = GC_type::STRING;
     }
   }
 
@@ -779,8 +779,8 @@ namespace GC_namespace {
   GenericContainer::allocate_complex() {
     if ( m_data_type != GC_type::COMPLEX ) {
       clear();
-      m_data_type = GC_type::COMPLEX;
       m_data.c    = new complex_type;
+      m_data_type = GC_type::COMPLEX;
     }
   }
 
@@ -788,8 +788,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_pointer( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_POINTER ) {
       clear();
-      m_data_type = GC_type::VEC_POINTER;
       m_data.v_p  = new vec_pointer_type();
+      m_data_type = GC_type::VEC_POINTER;
     }
     if ( sz > 0 ) m_data.v_p->resize( sz );
   }
@@ -812,8 +812,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_bool( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_BOOL ) {
       clear();
-      m_data_type = GC_type::VEC_BOOL;
       m_data.v_b  = new vec_bool_type();
+      m_data_type = GC_type::VEC_BOOL;
     }
     if ( sz > 0 ) m_data.v_b->resize( sz );
   }
@@ -822,8 +822,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_int( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_INTEGER ) {
       clear();
-      m_data_type = GC_type::VEC_INTEGER;
       m_data.v_i  = new vec_int_type();
+      m_data_type = GC_type::VEC_INTEGER;
     }
     if ( sz > 0 ) m_data.v_i->resize( sz );
   }
@@ -832,8 +832,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_long( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_LONG ) {
       clear();
-      m_data_type = GC_type::VEC_LONG;
       m_data.v_l  = new vec_long_type();
+      m_data_type = GC_type::VEC_LONG;
     }
     if ( sz > 0 ) m_data.v_l->resize( sz );
   }
@@ -842,8 +842,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_real( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_REAL ) {
       clear();
-      m_data_type = GC_type::VEC_REAL;
       m_data.v_r  = new vec_real_type();
+      m_data_type = GC_type::VEC_REAL;
     }
     if ( sz > 0 ) m_data.v_r->resize( sz );
   }
@@ -852,8 +852,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_complex( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_COMPLEX ) {
       clear();
-      m_data_type = GC_type::VEC_COMPLEX;
       m_data.v_c  = new vec_complex_type();
+      m_data_type = GC_type::VEC_COMPLEX;
     }
     if ( sz > 0 ) m_data.v_c->resize( sz );
   }
@@ -862,8 +862,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_int( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_INTEGER ) {
       clear();
-      m_data_type = GC_type::MAT_INTEGER;
       m_data.m_i  = new mat_int_type( nr, nc );
+      m_data_type = GC_type::MAT_INTEGER;
     } else {
       m_data.m_i->resize( nr, nc );
     }
@@ -873,8 +873,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_long( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_LONG ) {
       clear();
-      m_data_type = GC_type::MAT_LONG;
       m_data.m_l  = new mat_long_type( nr, nc );
+      m_data_type = GC_type::MAT_LONG;
     } else {
       m_data.m_l->resize( nr, nc );
     }
@@ -884,8 +884,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_real( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_REAL ) {
       clear();
-      m_data_type = GC_type::MAT_REAL;
       m_data.m_r  = new mat_real_type( nr, nc );
+      m_data_type = GC_type::MAT_REAL;
     } else {
       m_data.m_r->resize( nr, nc );
     }
@@ -895,8 +895,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_complex( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_COMPLEX ) {
       clear();
-      m_data_type = GC_type::MAT_COMPLEX;
       m_data.m_c  = new mat_complex_type( nr, nc );
+      m_data_type = GC_type::MAT_COMPLEX;
     } else {
       m_data.m_c->resize( nr, nc );
     }
@@ -906,8 +906,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_string( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_STRING ) {
       clear();
-      m_data_type = GC_type::VEC_STRING;
       m_data.v_s  = new vec_string_type();
+      m_data_type = GC_type::VEC_STRING;
     }
     if ( sz > 0 ) m_data.v_s->resize( sz );
   }
@@ -916,8 +916,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vector( unsigned const sz ) {
     if ( m_data_type != GC_type::VECTOR ) {
       clear();
-      m_data_type = GC_type::VECTOR;
       m_data.v    = new vector_type();
+      m_data_type = GC_type::VECTOR;
     }
     if ( sz > 0 ) m_data.v->resize( sz );
   }
@@ -926,8 +926,8 @@ namespace GC_namespace {
   GenericContainer::allocate_map() {
     if ( m_data_type != GC_type::MAP ) {
       clear();
-      m_data_type = GC_type::MAP;
       m_data.m    = new map_type();
+      m_data_type = GC_type::MAP;
     }
   }
 
@@ -2131,8 +2131,8 @@ namespace GC_namespace {
   GenericContainer::get_complex( string_view const where ) {
     if ( m_data_type == GC_type::NOTYPE ) {
       clear();
-      m_data_type = GC_type::COMPLEX;
       m_data.c    = new complex_type;
+      m_data_type = GC_type::COMPLEX;
     } else {
       ck(where,GC_type::COMPLEX);
     }
@@ -2149,8 +2149,8 @@ namespace GC_namespace {
   GenericContainer::get_string( string_view const where ) {
     if ( m_data_type == GC_type::NOTYPE ) {
       clear();
-      m_data_type = GC_type::STRING;
       m_data.s    = new string_type("");
+      m_data_type = GC_type::STRING;
     } else {
       ck(where,GC_type::STRING);
     }
-- 
2.43.0


From 71737683e2e275ce9bc95ace0ab5171e37f89ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:15 +0000
Subject: [PATCH 087/125] fix: promotions that ran out of memory lost the old
 vector

---
 src/GenericContainerPromote.cc | 112 +++++++++++----------------------
 1 file changed, 38 insertions(+), 74 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 4184a63..26f7c51 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -25,6 +25,7 @@
 #include <iomanip>
 #include <cmath>
 #include <algorithm>
+#include <memory>
 
 #ifdef __clang__
 #pragma clang diagnostic ignored "-Wc++98-compat"
@@ -1300,12 +1301,11 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_vec_int(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v_i)[i] = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
@@ -1357,21 +1357,19 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_vec_long(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v_l)[i] = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_vec_long(v_i->size());
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.v_l)[i] = static_cast<int_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG: // nothing to do
@@ -1426,30 +1424,27 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b}; // salva puntatore
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b}; // salva puntatore
         m_data_type = GC_type::NOTYPE;
         set_vec_real(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v_r)[i] = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i}; // salva puntatore
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i}; // salva puntatore
         m_data_type = GC_type::NOTYPE;
         set_vec_real(v_i->size());
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.v_r)[i] = static_cast<real_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l}; // salva puntatore
+      { std::unique_ptr<vec_long_type const> const v_l{m_data.v_l}; // salva puntatore
         m_data_type = GC_type::NOTYPE;
         set_vec_real(v_l->size());
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.v_r)[i] = static_cast<real_type>((*v_l)[i]);
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
@@ -1508,39 +1503,35 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_vec_complex(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v_c)[i] = complex_type( (*v_b)[i] ? 1: 0, 0 );
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_vec_complex(v_i->size());
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.v_c)[i] = complex_type( static_cast<real_type>((*v_i)[i]) , 0 );
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> const v_l{m_data.v_l};
         m_data_type = GC_type::NOTYPE;
         set_vec_complex(v_l->size());
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.v_c)[i] = complex_type( static_cast<real_type>((*v_l)[i]), 0 );
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
-      { vec_real_type const * v_r{m_data.v_r};
+      { std::unique_ptr<vec_real_type const> const v_r{m_data.v_r};
         m_data_type = GC_type::NOTYPE;
         set_vec_complex(v_r->size());
         for ( unsigned i{0}; i < v_r->size(); ++i )
           (*m_data.v_c)[i] = complex_type( (*v_r)[i], 0 );
-        delete v_r;
       }
       break;
     case GC_type::VEC_COMPLEX:
@@ -1579,21 +1570,19 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.m_i)(i,0) = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.m_i)(i,0) = (*v_i)[i];
-        delete v_i;
       }
       break;
     case GC_type::MAT_INTEGER:
@@ -1643,39 +1632,35 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_mat_long(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.m_l)(i,0) = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_long(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.m_l)(i,0) = static_cast<long_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> const v_l{m_data.v_l};
         m_data_type = GC_type::NOTYPE;
         set_mat_long(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.m_l)(i,0) = (*v_l)[i];
-        delete v_l;
       }
       break;
     case GC_type::MAT_INTEGER:
-      { mat_int_type const * m_i{m_data.m_i};
+      { std::unique_ptr<mat_int_type const> const m_i{m_data.m_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_long(m_i->num_rows(),m_i->num_cols());
         for ( unsigned i{0}; i < m_i->size(); ++i )
           (*m_data.m_l)[i] = static_cast<long_type>((*m_i)[i]);
-        delete m_i;
       }
       break;
     case GC_type::MAT_LONG:
@@ -1728,57 +1713,51 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> const v_l{m_data.v_l};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.m_r)(i,0) = static_cast<real_type>((*v_l)[i]);
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
-      { vec_real_type const * v_r{m_data.v_r};
+      { std::unique_ptr<vec_real_type const> const v_r{m_data.v_r};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(static_cast<unsigned>(v_r->size()),1);
         for ( unsigned i{0}; i < v_r->size(); ++i )
           (*m_data.m_r)(i,0) = (*v_r)[i];
-        delete v_r;
       }
       break;
     case GC_type::MAT_INTEGER:
-      { mat_int_type const * m_i{m_data.m_i};
+      { std::unique_ptr<mat_int_type const> const m_i{m_data.m_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(m_i->num_rows(),m_i->num_cols());
         for ( unsigned i{0}; i < m_i->size(); ++i )
           (*m_data.m_r)[i] = static_cast<real_type>((*m_i)[i]);
-        delete m_i;
       }
       break;
     case GC_type::MAT_LONG:
-      { mat_long_type const * m_l{m_data.m_l};
+      { std::unique_ptr<mat_long_type const> const m_l{m_data.m_l};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(m_l->num_rows(),m_l->num_cols());
         for ( unsigned i{0}; i < m_l->size(); ++i )
           (*m_data.m_r)[i] = static_cast<real_type>((*m_l)[i]);
-        delete m_l;
       }
       break;
     case GC_type::MAT_REAL:
@@ -1834,75 +1813,67 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.m_c)(i,0) = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.m_c)(i,0) = static_cast<real_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> const v_l{m_data.v_l};
        m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.m_c)(i,0) = static_cast<real_type>((*v_l)[i]);
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
-      { vec_real_type const * v_r{m_data.v_r};
+      { std::unique_ptr<vec_real_type const> const v_r{m_data.v_r};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_r->size()),1);
         for ( unsigned i{0}; i < v_r->size(); ++i )
           (*m_data.m_c)(i,0) = (*v_r)[i];
-        delete v_r;
       }
       break;
     case GC_type::VEC_COMPLEX:
-      { vec_complex_type const * v_c{m_data.v_c};
+      { std::unique_ptr<vec_complex_type const> const v_c{m_data.v_c};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_c->size()),1);
         for ( unsigned i{0}; i < v_c->size(); ++i )
           (*m_data.m_c)(i,0) = (*v_c)[i];
-        delete v_c;
       }
       break;
     case GC_type::MAT_INTEGER:
-      { mat_int_type const * m_i{m_data.m_i};
+      { std::unique_ptr<mat_int_type const> const m_i{m_data.m_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(m_i->num_rows(),m_i->num_cols());
         for ( unsigned i{0}; i < m_i->size(); ++i )
           (*m_data.m_c)[i] = complex_type( static_cast<real_type>((*m_i)[i]), 0 );
-        delete m_i;
       }
       break;
     case GC_type::MAT_LONG:
-      { mat_long_type const * m_l{m_data.m_l};
+      { std::unique_ptr<mat_long_type const> const m_l{m_data.m_l};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(m_l->num_rows(),m_l->num_cols());
         for ( unsigned i{0}; i < m_l->size(); ++i )
           (*m_data.m_c)[i] = complex_type( static_cast<real_type>((*m_l)[i]), 0 );
-        delete m_l;
       }
       break;
     case GC_type::MAT_REAL:
-      { mat_real_type const * m_r{m_data.m_r};
+      { std::unique_ptr<mat_real_type const> const m_r{m_data.m_r};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(m_r->num_rows(),m_r->num_cols());
         for ( unsigned i{0}; i < m_r->size(); ++i )
           (*m_data.m_c)[i] = complex_type((*m_r)[i],0);
-        delete m_r;
       }
       break;
     case GC_type::MAT_COMPLEX:
@@ -1937,66 +1908,59 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_POINTER:
-      { vec_pointer_type const * v_p{m_data.v_p};
+      { std::unique_ptr<vec_pointer_type const> const v_p{m_data.v_p};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_p->size());
         for ( unsigned i{0}; i < v_p->size(); ++i )
           (*m_data.v)[i] = (*v_p)[i];
-        delete v_p;
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v)[i] = (*v_b)[i];
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_vector(static_cast<unsigned>(v_i->size()));
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.v)[i] = (*v_i)[i];
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> const v_l{m_data.v_l};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_l->size());
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.v)[i] = (*v_l)[i];
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
-      { vec_real_type const * v_r{m_data.v_r};
+      { std::unique_ptr<vec_real_type const> const v_r{m_data.v_r};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_r->size());
         for ( unsigned i{0}; i < v_r->size(); ++i )
           (*m_data.v)[i] = (*v_r)[i];
-        delete v_r;
       }
       break;
     case GC_type::VEC_COMPLEX:
-      { vec_complex_type const * v_c{m_data.v_c};
+      { std::unique_ptr<vec_complex_type const> const v_c{m_data.v_c};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_c->size());
         for ( unsigned i{0}; i < v_c->size(); ++i )
           (*m_data.v)[i] = (*v_c)[i];
-        delete v_c;
       }
       break;
     case GC_type::VEC_STRING:
-      { vec_string_type const * v_s{m_data.v_s};
+      { std::unique_ptr<vec_string_type const> const v_s{m_data.v_s};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_s->size());
         for ( unsigned i{0}; i < v_s->size(); ++i )
           (*m_data.v)[i] = (*v_s)[i];
-        delete v_s;
       }
       break;
     case GC_type::VECTOR:
-- 
2.43.0


From f28367e85835708bb9255f0bb4e937bfcf44898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:05 +0000
Subject: [PATCH 088/125] fix: a complex number whose allocation failed kept
 its type without data

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index bf80341..c5e5d2c 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -982,8 +982,8 @@ namespace GC_namespace {
   complex_type &
   GenericContainer::set_complex( real_type const re, real_type const im ) {
     clear();
-    m_data_type = GC_type::COMPLEX;
     m_data.c    = new complex_type(re,im);
+    m_data_type = GC_type::COMPLEX;
     return *m_data.c;
   }
 
-- 
2.43.0


From d66e13d243ab9d8ae34aea41a157d2209f56a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:00 +0000
Subject: [PATCH 089/125] fix: constructors that ran out of memory leaked what
 they had allocated

---
 include/GenericContainer/GenericContainer.hh | 28 ++++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index bbfb438..757fee5 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -3792,98 +3792,98 @@ namespace GC_namespace {
     //! \param[in] a initializer data
     //!
     GenericContainer( bool const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing an integer
     //! \param[in] a initializer data
     //!
     GenericContainer( uint_type const & a )
-    : m_data_type(GC_type::NOTYPE) { *this = a; }
+    : GenericContainer() { *this = a; }
 
     //!
     //! Construct a generic container storing an integer
     //! \param[in] a initializer data
     //!
     GenericContainer( int_type const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing an integer
     //! \param[in] a initializer data
     //!
     GenericContainer( ulong_type const & a )
-    : m_data_type(GC_type::NOTYPE) { *this = a; }
+    : GenericContainer() { *this = a; }
 
     //!
     //! Construct a generic container storing an integer
     //! \param[in] a initializer data
     //!
     GenericContainer( long_type const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a floating point number
     //! \param[in] a initializer data
     //!
     GenericContainer( float const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a floating point number
     //! \param[in] a initializer data
     //!
     GenericContainer( double const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a complex floating point number
     //! \param[in] a initializer data
     //!
     GenericContainer( complex<float> const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a complex floating point number
     //! \param[in] a initializer data
     //!
     GenericContainer( complex<double> const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a string or pointer
     //! \param[in] a initializer data
     //!
     GenericContainer( char const * a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a string or pointer
     //! \param[in] a initializer data
     //!
     GenericContainer( string const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a string or pointer
     //! \param[in] a initializer data
     //!
     GenericContainer( string_view a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a pointer
     //! \param[in] a initializer data
     //!
     GenericContainer( pointer_type a )
-    : m_data_type(GC_type::NOTYPE) { this->set_pointer(a); }
+    : GenericContainer() { this->set_pointer(a); }
 
     //!
     //! Construct a generic container copying container `gc`
     //! \param[in] gc initializer data
     //!
     GenericContainer( GenericContainer const & gc )
-    : m_data_type(GC_type::NOTYPE) { this->from_gc(gc); }
+    : GenericContainer() { this->from_gc(gc); }
 
     ///@}
 
-- 
2.43.0


From b2442db92754efb8cba819f35d428e6c63ea5f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:03 +0000
Subject: [PATCH 090/125] fix: a matrix that could not be resized took the new
 shape

---
 include/GenericContainer/GenericContainer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 757fee5..517a37c 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -205,9 +205,9 @@ namespace GC_namespace {
     //!
     void
     resize( unsigned nr, unsigned nc ) {
+      vector<TYPE>::resize(size_type(nr)*size_type(nc));
       m_num_rows = nr;
       m_num_cols = nc;
-      vector<TYPE>::resize(size_type(nr)*size_type(nc));
     }
 
     //!
-- 
2.43.0


From e6090265fcfde7429369fd25b8a1f94e6155220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:10 +0000
Subject: [PATCH 091/125] fix: storing at the last index of an unsigned emptied
 the vector and wrote outside it

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index c5e5d2c..d753239 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -42,7 +42,7 @@
 #include <fstream>
 
 #ifndef DOXYGEN_SHOULD_SKIP_THIS
-#define CHECK_RESIZE(pV,I) if ( pV->size() <= (I) ) pV->resize((I)+1)
+#define CHECK_RESIZE(pV,I) if ( pV->size() <= (I) ) pV->resize(static_cast<std::size_t>(I)+1)
 
 using std::fpclassify;
 using GC_namespace::real_type;
-- 
2.43.0


From bd3338ce40e77c31830d0f25f07f930ba7ac36dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:00 +0000
Subject: [PATCH 092/125] fix: printing a map with a long title key overflowed
 the stack

---
 src/GenericContainer.cc | 44 ++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index d753239..7773ad0 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -38,7 +38,7 @@
 
 #include <cmath>
 #include <limits>
-#include <regex>
+#include <algorithm>
 #include <fstream>
 
 #ifndef DOXYGEN_SHOULD_SKIP_THIS
@@ -264,26 +264,38 @@ namespace GC_namespace {
   template ostream_type & operator << ( ostream_type & s, mat_type<real_type>    const & m );
   //template ostream_type & operator << ( ostream_type & s, mat_type<complex_type> const & m );
 
+  // keys of the form: number, # or ##, underline character (if any), header.
+  // Scanned by hand: std::regex recurses for each character and overflows
+  // the stack on long keys.
   class Pcre_for_GC {
 
-    std::regex  reCompiled;
-    std::smatch reMatches;
-
   public:
 
-    Pcre_for_GC()
-    : reCompiled(R"(^\s*\d+\s*(##?)(-|=|~|_|)\s*(.*)$)")
-    { }
-
-    ~Pcre_for_GC() = default;
-
     int
-    exec( string_view const str_in, string_type matches[4] ) {
-      if ( string const str(str_in); std::regex_match( str, reMatches, reCompiled ) ) {
-        for ( size_t i{0}; i < reMatches.size(); ++i ) matches[i] = reMatches[i].str();
-        return static_cast<int>(reMatches.size());
-      }
-      return 0;
+    exec( string_view const str, string_type matches[4] ) const {
+      auto const is_space = []( char const c ) { return c == ' ' || ( c >= '\t' && c <= '\r' ); };
+      auto const is_digit = []( char const c ) { return c >= '0' && c <= '9'; };
+      size_t const n{str.size()};
+      size_t       i{0};
+      while ( i < n && is_space(str[i]) ) ++i;
+      size_t const num{i};
+      while ( i < n && is_digit(str[i]) ) ++i;
+      if ( i == num ) return 0;
+      while ( i < n && is_space(str[i]) ) ++i;
+      if ( i == n || str[i] != '#' ) return 0;
+      size_t const mark{i};
+      ++i;
+      if ( i < n && str[i] == '#' ) ++i;
+      size_t const underline{i};
+      if ( i < n && string_view("-=~_").find(str[i]) != string_view::npos ) ++i;
+      size_t const end_underline{i};
+      while ( i < n && is_space(str[i]) ) ++i;
+      if ( str.find_first_of("\n\r",i) != string_view::npos ) return 0; // not a line
+      matches[0] = str;
+      matches[1] = str.substr( mark, underline-mark );
+      matches[2] = str.substr( underline, end_underline-underline );
+      matches[3] = str.substr( i );
+      return 4;
     }
   };
 
-- 
2.43.0


From 99ca157782b9e42e703697da7f7577f7095af33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:43 +0000
Subject: [PATCH 093/125] fix: file_YAML_to_GC and file_TOML_to_GC opened
 another file when the name was part of a longer text

---
 include/GenericContainer/GenericContainerInterface_toml.hh | 2 +-
 include/GenericContainer/GenericContainerInterface_yaml.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GenericContainer/GenericContainerInterface_toml.hh b/include/GenericContainer/GenericContainerInterface_toml.hh
index 2302031..fc39b6a 100644
--- a/include/GenericContainer/GenericContainerInterface_toml.hh
+++ b/include/GenericContainer/GenericContainerInterface_toml.hh
@@ -55,7 +55,7 @@ namespace GC_namespace {
     string_view        file_name,
     GenericContainer & gc
   ) {
-    ifstream stream(file_name.data());
+    ifstream stream{ string(file_name) }; // the view may not be NUL terminated
     gc.clear();
     return gc.from_toml( stream );
   }
diff --git a/include/GenericContainer/GenericContainerInterface_yaml.hh b/include/GenericContainer/GenericContainerInterface_yaml.hh
index 595d29e..ff5c724 100644
--- a/include/GenericContainer/GenericContainerInterface_yaml.hh
+++ b/include/GenericContainer/GenericContainerInterface_yaml.hh
@@ -55,7 +55,7 @@ namespace GC_namespace {
     string_view        file_name,
     GenericContainer & gc
   ) {
-    ifstream stream(file_name.data());
+    ifstream stream{ string(file_name) }; // the view may not be NUL terminated
     gc.clear();
     return gc.from_yaml( stream );
   }
-- 
2.43.0


From a7cd23808ed5404a13e3b86c8dcbc57d48e180a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:46 +0000
Subject: [PATCH 094/125] fix: from_yaml and from_toml reported success on a
 file that cannot be opened

---
 src_toml_interface/from_toml.cc | 4 ++++
 src_yaml_interface/from_yaml.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src_toml_interface/from_toml.cc b/src_toml_interface/from_toml.cc
index b868a0f..6553a38 100755
--- a/src_toml_interface/from_toml.cc
+++ b/src_toml_interface/from_toml.cc
@@ -197,6 +197,10 @@ namespace GC_namespace {
 
   bool
   GenericContainer::from_toml( istream_type & stream ) {
+    if ( stream.fail() ) { // a file that was not opened is not an empty document
+      std::cerr << "GenericContainer::from_toml: cannot read the stream\n";
+      return false;
+    }
     bool ok{true};
     try {
       // deserialize the loaded file contents.
diff --git a/src_yaml_interface/from_yaml.cc b/src_yaml_interface/from_yaml.cc
index 762cc53..4e93437 100755
--- a/src_yaml_interface/from_yaml.cc
+++ b/src_yaml_interface/from_yaml.cc
@@ -113,6 +113,10 @@ namespace GC_namespace {
 
   bool
   GenericContainer::from_yaml( istream_type & stream ) {
+    if ( stream.fail() ) { // a file that was not opened is not an empty document
+      std::cerr << "GenericContainer::from_yaml: cannot read the stream\n";
+      return false;
+    }
     bool ok{true};
     try {
       // deserialize the loaded file contents.
-- 
2.43.0


From bfe95f022bd540e11b3b37bf54dbd926757650df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:56 +0000
Subject: [PATCH 095/125] fix: push_string and push_complex of a value the
 container holds read it after it was freed

---
 src/GenericContainer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 7773ad0..cccd6b5 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -1254,7 +1254,8 @@ namespace GC_namespace {
   }
 
   void
-  GenericContainer::push_complex( complex_type & c ) {
+  GenericContainer::push_complex( complex_type & c_in ) {
+    complex_type const c{ c_in }; // c_in may be stored in this container
     if ( m_data_type == GC_type::VECTOR ) {
       m_data.v->resize(m_data.v->size()+1);
       m_data.v->back().set_complex( c );
@@ -1272,7 +1273,8 @@ namespace GC_namespace {
   }
 
   void
-  GenericContainer::push_string( string_view const s ) {
+  GenericContainer::push_string( string_view const s_in ) {
+    string_type const s{ s_in }; // s_in may be stored in this container
     if      ( m_data_type == GC_type::NOTYPE     ) set_vec_string();
     else if ( m_data_type != GC_type::VEC_STRING ) promote_to_vector();
     if ( m_data_type == GC_type::VEC_STRING ) {
-- 
2.43.0


From 69bb7143dc39d472c49c7a4ddab22691a22ff10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:05 +0000
Subject: [PATCH 096/125] fix: operator [] with the container's own text as key
 read it after it was freed

---
 src/GenericContainer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index cccd6b5..738ec6b 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3475,8 +3475,9 @@ namespace GC_namespace {
 
   GenericContainer &
   GenericContainer::operator [] ( string_view const s ) {
+    string_type const key{ s }; // s may be stored in this container
     if ( ck( GC_type::MAP ) != 0 ) set_map(); // if not data present allocate!
-    return (*m_data.m)[string_type(s)];
+    return (*m_data.m)[key];
   }
 
   GenericContainer const &
-- 
2.43.0


From e0b7d33a97adb46386d0570b2a00f9cf7c63c424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:09 +0000
Subject: [PATCH 097/125] fix: GC_set_vector_of_string with strings of the
 container itself read them after they were freed

---
 src/GenericContainerInterface_C.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 6c701c1..4c63f2c 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -712,9 +712,9 @@ GC_set_vector_of_string( char const ** a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
   if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
   GC_TRY(
+    vec_string_type const tmp( a, a+nelem ); // a[i] may be stored in the container
     gc_active->top()->clear();
-    vec_string_type & v{ gc_active->top()->set_vec_string( nelem ) };
-    for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i];
+    gc_active->top()->set_vec_string( tmp );
   )
   return GENERIC_CONTAINER_OK;
 }
-- 
2.43.0


From 1a1c86f48518675ac6bbf5ffb3594799d788142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:39 +0000
Subject: [PATCH 098/125] fix: from_yaml read past the end of a text cut in the
 middle of a character

A truncated UTF-16 text was read on beyond its end, without a bound, and so
were up to three bytes behind a truncated UTF-8 or UTF-32 text; a UTF-16 text
ending with half of a surrogate pair was decoded for ever. The bytes of UTF-32
texts are now taken as unsigned too: any above 0x7F was taken for an error.
---
 .../fkYAML/detail/input/input_adapter.hpp     | 35 ++++++++++++-------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp b/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp
index af74b16..3d8a6ec 100644
--- a/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp
@@ -87,6 +87,14 @@ public:
     }
 
 private:
+    /// @brief Get the next byte of a character, which the end of the input must not cut.
+    uint8_t next_byte(IterType& current) const {
+        if FK_YAML_UNLIKELY (current == m_end) {
+            throw fkyaml::exception("Invalid encoding: the last character is cut.");
+        }
+        return static_cast<uint8_t>(*current++);
+    }
+
     /// @brief The concrete implementation of get_buffer_view() for UTF-8 encoded inputs.
     /// @return View into the UTF-8 encoded input buffer contents.
     str_view get_buffer_view_utf8() {
@@ -105,7 +113,7 @@ private:
                 }
                 break;
             case 2: {
-                const auto second = static_cast<uint8_t>(*current++);
+                const auto second = next_byte(current);
                 const bool is_valid = utf8::validate(first, second);
                 if FK_YAML_UNLIKELY (!is_valid) {
                     throw fkyaml::invalid_encoding("Invalid UTF-8 encoding.", {first, second});
@@ -113,8 +121,8 @@ private:
                 break;
             }
             case 3: {
-                const auto second = static_cast<uint8_t>(*current++);
-                const auto third = static_cast<uint8_t>(*current++);
+                const auto second = next_byte(current);
+                const auto third = next_byte(current);
                 const bool is_valid = utf8::validate(first, second, third);
                 if FK_YAML_UNLIKELY (!is_valid) {
                     throw fkyaml::invalid_encoding("Invalid UTF-8 encoding.", {first, second, third});
@@ -122,9 +130,9 @@ private:
                 break;
             }
             case 4: {
-                const auto second = static_cast<uint8_t>(*current++);
-                const auto third = static_cast<uint8_t>(*current++);
-                const auto fourth = static_cast<uint8_t>(*current++);
+                const auto second = next_byte(current);
+                const auto third = next_byte(current);
+                const auto fourth = next_byte(current);
                 const bool is_valid = utf8::validate(first, second, third, fourth);
                 if FK_YAML_UNLIKELY (!is_valid) {
                     throw fkyaml::invalid_encoding("Invalid UTF-8 encoding.", {first, second, third, fourth});
@@ -180,8 +188,8 @@ private:
         IterType current = m_begin;
         while (current != m_end || encoded_buf_size != 0) {
             while (current != m_end && encoded_buf_size < 2) {
-                auto utf16 = static_cast<char16_t>(static_cast<uint8_t>(*current++) << shift_bits[0]);
-                utf16 |= static_cast<char16_t>(static_cast<uint8_t>(*current++) << shift_bits[1]);
+                auto utf16 = static_cast<char16_t>(next_byte(current) << shift_bits[0]);
+                utf16 |= static_cast<char16_t>(next_byte(current) << shift_bits[1]);
 
                 // skip appending CRs.
                 if FK_YAML_LIKELY (utf16 != char16_t(0x000Du)) {
@@ -193,6 +201,9 @@ private:
             uint32_t consumed_size = 0;
             utf8::from_utf16(encoded_buffer, utf8_buffer, consumed_size, utf8_buf_size);
 
+            if FK_YAML_UNLIKELY (consumed_size > encoded_buf_size) {
+                throw fkyaml::exception("Invalid encoding: the last character is cut.");
+            }
             if FK_YAML_LIKELY (consumed_size == 1) {
                 encoded_buffer[0] = encoded_buffer[1];
             }
@@ -231,10 +242,10 @@ private:
 
         IterType current = m_begin;
         while (current != m_end) {
-            auto utf32 = static_cast<char32_t>(*current++ << shift_bits[0]);
-            utf32 |= static_cast<char32_t>(*current++ << shift_bits[1]);
-            utf32 |= static_cast<char32_t>(*current++ << shift_bits[2]);
-            utf32 |= static_cast<char32_t>(*current++ << shift_bits[3]);
+            auto utf32 = static_cast<char32_t>(next_byte(current)) << shift_bits[0];
+            utf32 |= static_cast<char32_t>(next_byte(current)) << shift_bits[1];
+            utf32 |= static_cast<char32_t>(next_byte(current)) << shift_bits[2];
+            utf32 |= static_cast<char32_t>(next_byte(current)) << shift_bits[3];
 
             if FK_YAML_LIKELY (utf32 != char32_t(0x0000000Du)) {
                 utf8::from_utf32(utf32, utf8_buffer, utf8_buf_size);
-- 
2.43.0


From e3d9a51cc9c1b9f338813d2586118d733b9f8f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:34 +0000
Subject: [PATCH 099/125] fix: from_yaml crashed on a text shorter than a byte
 order mark and on escapes in tags

---
 src_yaml_interface/fkYAML/detail/encodings/uri_encoding.hpp     | 1 +
 .../fkYAML/detail/encodings/utf_encode_detector.hpp             | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src_yaml_interface/fkYAML/detail/encodings/uri_encoding.hpp b/src_yaml_interface/fkYAML/detail/encodings/uri_encoding.hpp
index 5509175..a7ab519 100644
--- a/src_yaml_interface/fkYAML/detail/encodings/uri_encoding.hpp
+++ b/src_yaml_interface/fkYAML/detail/encodings/uri_encoding.hpp
@@ -37,6 +37,7 @@ public:
                     return false;
                 }
 
+                --current; // back to the last octet, the loop moves on
                 continue;
             }
 
diff --git a/src_yaml_interface/fkYAML/detail/encodings/utf_encode_detector.hpp b/src_yaml_interface/fkYAML/detail/encodings/utf_encode_detector.hpp
index 9b91c71..9aaf999 100644
--- a/src_yaml_interface/fkYAML/detail/encodings/utf_encode_detector.hpp
+++ b/src_yaml_interface/fkYAML/detail/encodings/utf_encode_detector.hpp
@@ -102,7 +102,7 @@ struct utf_encode_detector<ItrType, enable_if_t<is_iterator_of<ItrType, char>::v
 
         // the inner curly braces are necessary for older compilers
         std::array<uint8_t, 4> bytes {{}};
-        bytes.fill(0xFFu);
+        bytes.fill(0x80u); // not part of any BOM
         for (int i = 0; i < 4 && begin + i != end; i++) {
             bytes[i] = static_cast<uint8_t>(begin[i]); // NOLINT(cppcoreguidelines-pro-bounds-constant-array-index)
         }
-- 
2.43.0


From 232c3d42f204a403fd0d09366d44345a3db48e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:34 +0000
Subject: [PATCH 100/125] fix: from_yaml read outside of the text with a block
 scalar header or a tag at its end

---
 .../fkYAML/detail/input/lexical_analyzer.hpp     | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
index ebfbe2d..eff2214 100644
--- a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
@@ -241,16 +241,16 @@ public:
         case '|':
         case '>': {
             const str_view sv {m_token_begin_itr, m_end_itr};
-            const std::size_t header_end_pos = sv.find('\n');
-            FK_YAML_ASSERT(header_end_pos != str_view::npos);
-            const uint32_t base_indent = get_current_indent_level(&sv[header_end_pos]);
+            // the header may be the last line of the input, with no newline
+            const std::size_t header_end_pos = std::min(sv.find('\n'), sv.size());
+            const uint32_t base_indent = get_current_indent_level(sv.begin() + header_end_pos);
 
             const lexical_token_t type = *m_token_begin_itr == '|' ? lexical_token_t::BLOCK_LITERAL_SCALAR
                                                                    : lexical_token_t::BLOCK_FOLDED_SCALAR;
             const str_view header_line = sv.substr(1, header_end_pos - 1);
             m_block_scalar_header = convert_to_block_scalar_header(header_line);
 
-            m_token_begin_itr = sv.begin() + (header_end_pos + 1);
+            m_token_begin_itr = sv.begin() + std::min(header_end_pos + 1, sv.size());
 
             return {
                 type,
@@ -320,6 +320,10 @@ public:
 
 private:
     uint32_t get_current_indent_level(const char* p_line_end) {
+        if FK_YAML_UNLIKELY (p_line_end == m_begin_itr) {
+            return 0; // the first line is empty
+        }
+
         // get the beginning position of the current line.
         std::size_t line_begin_pos = str_view(m_begin_itr, p_line_end - 1).find_last_of('\n');
         if (line_begin_pos == str_view::npos) {
@@ -680,7 +684,9 @@ private:
         case '<':
             // Verbatim tags (!<TAG>)
             is_verbatim = true;
-            ++m_cur_itr;
+            if FK_YAML_UNLIKELY (++m_cur_itr == m_end_itr) {
+                emit_error("verbatim tag (!<TAG>) must be ended with \'>\'.");
+            }
             break;
         default:
             // Either local tags (!suffix) or named handles (!tag!suffix)
-- 
2.43.0


From 362032dfa4b653692683980a4a0b32460f8e536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:34 +0000
Subject: [PATCH 101/125] fix: from_yaml crashed or leaked on texts with a
 structure that does not fit

---
 .../fkYAML/detail/input/deserializer.hpp      | 71 +++++++++++++------
 1 file changed, 48 insertions(+), 23 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
index 2e9c586..c07a296 100644
--- a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
@@ -11,6 +11,7 @@
 
 #include <algorithm>
 #include <deque>
+#include <memory>
 #include <vector>
 
 #include <fkYAML/detail/macros/define_macros.hpp>
@@ -85,18 +86,7 @@ class basic_deserializer {
         parse_context(parse_context&&) noexcept = default;
         parse_context& operator=(parse_context&&) noexcept = default;
 
-        ~parse_context() {
-            switch (state) {
-            case context_state_t::BLOCK_MAPPING_EXPLICIT_KEY:
-            case context_state_t::FLOW_SEQUENCE_KEY:
-            case context_state_t::FLOW_MAPPING_KEY:
-                delete p_node;
-                p_node = nullptr;
-                break;
-            default:
-                break;
-            }
-        }
+        ~parse_context() = default;
 
         /// The current line. (count from zero)
         uint32_t line {0};
@@ -108,6 +98,34 @@ class basic_deserializer {
         basic_node_type* p_node {nullptr};
     };
 
+    /// @brief A stack of contexts which malformed inputs cannot make reach below its bottom.
+    class context_stack : private std::deque<parse_context> {
+        using base = std::deque<parse_context>;
+
+    public:
+        using base::clear;
+        using base::emplace_back;
+        using base::empty;
+        using base::rbegin;
+        using base::rend;
+
+        parse_context& back() {
+            check();
+            return base::back();
+        }
+        void pop_back() {
+            check();
+            base::pop_back();
+        }
+
+    private:
+        void check() const {
+            if FK_YAML_UNLIKELY (empty()) {
+                throw fkyaml::exception("parse_error: the document has no structure here.");
+            }
+        }
+    };
+
     /// @brief Definitions of state types for expected flow token hints.
     enum class flow_token_state_t : std::uint8_t {
         NEEDS_VALUE_OR_SUFFIX,     //!< Either value or flow suffix (`]` or `}`)
@@ -288,6 +306,7 @@ private:
         m_flow_context_depth = 0;
         m_flow_token_state = flow_token_state_t::NEEDS_VALUE_OR_SUFFIX;
         m_context_stack.clear();
+        m_key_nodes.clear();
 
         return root;
     }
@@ -428,8 +447,8 @@ private:
 
                 token = lexer.get_next_token();
                 if (token.type == lexical_token_t::SEQUENCE_BLOCK_PREFIX) {
-                    // heap-allocated node will be freed in handling the corresponding KEY_SEPARATOR event
-                    auto* p_node = new basic_node_type(node_type::SEQUENCE);
+                    // the node is freed at the end of the document
+                    auto* p_node = new_key_node(node_type::SEQUENCE);
                     m_context_stack.emplace_back(line, indent, context_state_t::BLOCK_MAPPING_EXPLICIT_KEY, p_node);
 
                     apply_directive_set(*p_node);
@@ -450,9 +469,9 @@ private:
                     break;
                 }
 
-                // heap-allocated node will be freed in handling the corresponding KEY_SEPARATOR event
+                // the node is freed at the end of the document
                 m_context_stack.emplace_back(
-                    line, indent, context_state_t::BLOCK_MAPPING_EXPLICIT_KEY, new basic_node_type());
+                    line, indent, context_state_t::BLOCK_MAPPING_EXPLICIT_KEY, new_key_node(node_type::NULL_OBJECT));
                 mp_current_node = m_context_stack.back().p_node;
                 apply_directive_set(*mp_current_node);
                 indent = lexer.get_last_token_begin_pos();
@@ -707,9 +726,9 @@ private:
                     break;
                 case context_state_t::BLOCK_MAPPING:
                 case context_state_t::FLOW_MAPPING:
-                    // heap-allocated node will be freed in handling the corresponding SEQUENCE_FLOW_END event.
+                    // the node is freed at the end of the document
                     m_context_stack.emplace_back(
-                        line, indent, context_state_t::FLOW_SEQUENCE_KEY, new basic_node_type(node_type::SEQUENCE));
+                        line, indent, context_state_t::FLOW_SEQUENCE_KEY, new_key_node(node_type::SEQUENCE));
                     mp_current_node = m_context_stack.back().p_node;
                     break;
                 default: {
@@ -767,7 +786,6 @@ private:
 
                 if (!m_context_stack.empty() && state == context_state_t::FLOW_SEQUENCE_KEY) {
                     basic_node_type key_node = std::move(*mp_current_node);
-                    delete mp_current_node;
                     mp_current_node = m_context_stack.back().p_node;
                     m_flow_token_state = flow_token_state_t::NEEDS_VALUE_OR_SUFFIX;
 
@@ -830,9 +848,9 @@ private:
                     break;
                 case context_state_t::BLOCK_MAPPING:
                 case context_state_t::FLOW_MAPPING:
-                    // heap-allocated node will be freed in handling the corresponding MAPPING_FLOW_END event.
+                    // the node is freed at the end of the document
                     m_context_stack.emplace_back(
-                        line, indent, context_state_t::FLOW_MAPPING_KEY, new basic_node_type(node_type::MAPPING));
+                        line, indent, context_state_t::FLOW_MAPPING_KEY, new_key_node(node_type::MAPPING));
                     mp_current_node = m_context_stack.back().p_node;
                     break;
                 default: {
@@ -893,7 +911,6 @@ private:
 
                 if (!m_context_stack.empty() && state == context_state_t::FLOW_MAPPING_KEY) {
                     basic_node_type key_node = std::move(*mp_current_node);
-                    delete mp_current_node;
                     mp_current_node = m_context_stack.back().p_node;
                     m_flow_token_state = flow_token_state_t::NEEDS_VALUE_OR_SUFFIX;
 
@@ -1088,6 +1105,12 @@ private:
         return prop_specified;
     }
 
+    /// @brief Create a node for a key which is not a scalar.
+    basic_node_type* new_key_node(node_type type) {
+        m_key_nodes.emplace_back(new basic_node_type(type));
+        return m_key_nodes.back().get();
+    }
+
     /// @brief Add new key string to the current YAML node.
     /// @param key a key string to be added to the current YAML node.
     /// @param line The line where the key is found.
@@ -1316,7 +1339,9 @@ private:
     /// The currently focused YAML node.
     basic_node_type* mp_current_node {nullptr};
     /// The stack of parse contexts.
-    std::deque<parse_context> m_context_stack {};
+    context_stack m_context_stack {};
+    /// The nodes of the keys which are not scalars, alive as long as the document is parsed.
+    std::deque<std::unique_ptr<basic_node_type>> m_key_nodes {};
     /// The current depth of flow contexts.
     uint32_t m_flow_context_depth {0};
     /// The set of YAML directives.
-- 
2.43.0


From 68277c182c360ec88d1664359f69f92c470592d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:34 +0000
Subject: [PATCH 102/125] fix: from_yaml never came back from a list or map
 holding an alias of itself

---
 src_yaml_interface/from_yaml.cc | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src_yaml_interface/from_yaml.cc b/src_yaml_interface/from_yaml.cc
index 4e93437..a913f79 100755
--- a/src_yaml_interface/from_yaml.cc
+++ b/src_yaml_interface/from_yaml.cc
@@ -32,6 +32,7 @@
 
 #include "GenericContainer/GenericContainerInterface_yaml.hh"
 
+#include <algorithm>
 #include <iterator>
 #include <sstream>
 #include <fstream>
@@ -40,6 +41,7 @@
 #include <cstdint>
 #include <regex>
 #include <limits>
+#include <vector>
 #include <cstdlib>
 
 //#include "yaml-cpp/yaml.h"
@@ -59,9 +61,19 @@ namespace GC_namespace {
   using std::numeric_limits;
   using std::size_t;
 
+  // an alias inside of the list or map it refers to would have no end:
+  // true if the list or map is not one of those being read
   static
   bool
-  YAML_to_GC( fkyaml::node const & node, GenericContainer & gc ) {
+  enter( std::vector<void const *> & opened, void const * what ) {
+    if ( std::find( opened.begin(), opened.end(), what ) != opened.end() ) return false;
+    opened.push_back( what );
+    return true;
+  }
+
+  static
+  bool
+  YAML_to_GC( fkyaml::node const & node, GenericContainer & gc, std::vector<void const *> & opened ) {
     // Controlla il tipo di nodo
     bool ok{true};
     switch (node.get_type()) {
@@ -92,19 +104,23 @@ namespace GC_namespace {
       }
       case fkyaml::node_type::SEQUENCE: {
         size_t N{node.size()};
+        if ( !enter( opened, &node.get_value_ref<fkyaml::node::sequence_type const &>() ) ) return false;
         vector_type & V{ gc.set_vector( N ) };
         for ( size_t i{0}; ok && i < N; ++i )
-          ok = YAML_to_GC( node[i], V[i] );
+          ok = YAML_to_GC( node[i], V[i], opened );
+        opened.pop_back();
         break;
       }
       case fkyaml::node_type::MAPPING: {
         map_type & M{ gc.set_map() };
         auto & mapping = node.get_value_ref<const fkyaml::node::mapping_type&>();
+        if ( !enter( opened, &mapping ) ) return false;
         for ( auto & it : mapping ) {
           GenericContainer & gcm = M[it.first.get_value<string>()];
-          ok = YAML_to_GC( it.second, gcm );
+          ok = YAML_to_GC( it.second, gcm, opened );
           if ( !ok ) break;
         }
+        opened.pop_back();
         break;
       }
     }
@@ -125,7 +141,8 @@ namespace GC_namespace {
       fkyaml::node root;
       if ( !text.empty() ) root = fkyaml::node::deserialize(text);
       GenericContainer tmp; // do not mix what is read with the previous contents
-      ok = YAML_to_GC( root, tmp );
+      std::vector<void const *> opened;
+      ok = YAML_to_GC( root, tmp, opened );
       if ( ok ) {
         tmp.collapse();
         *this = tmp;
-- 
2.43.0


From ee23644fa79c685aa614c61ffb25ebbfeb028daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:12 +0000
Subject: [PATCH 103/125] fix: from_toml had undefined behaviour on letters
 beyond ASCII outside of strings

---
 src_toml_interface/toml++/impl/unicode_autogenerated.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_toml_interface/toml++/impl/unicode_autogenerated.hpp b/src_toml_interface/toml++/impl/unicode_autogenerated.hpp
index cadd9e7..5921711 100644
--- a/src_toml_interface/toml++/impl/unicode_autogenerated.hpp
+++ b/src_toml_interface/toml++/impl/unicode_autogenerated.hpp
@@ -41,7 +41,7 @@ TOML_IMPL_NAMESPACE_START
 			case 0x05: return c == U'\u1680' || c == U'\u180E';
 			case 0x07:
 				return (U'\u2000' <= c && c <= U'\u200B') || (U'\u205F' <= c && c <= U'\u2060') || c == U'\u202F';
-			default: TOML_UNREACHABLE;
+			default: return false;
 		}
 
 		TOML_UNREACHABLE;
-- 
2.43.0


From 5e456c751139f31745cc83e8f878562728047232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:38 +0000
Subject: [PATCH 104/125] fix: from_yaml never came back from a list or map
 holding an alias of itself (in the reader, also for keys)

---
 .../fkYAML/detail/input/deserializer.hpp      | 10 ++++++++
 src_yaml_interface/from_yaml.cc               | 25 +++----------------
 2 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
index c07a296..b5c544a 100644
--- a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
@@ -966,6 +966,16 @@ private:
                     throw parse_error("The given anchor name must appear prior to the alias node.", line, indent);
                 }
 
+                // a collection which contains an alias of itself would have no end.
+                for (auto itr = m_context_stack.rbegin(); itr != m_context_stack.rend(); ++itr) {
+                    const basic_node_type* p_node = itr->p_node;
+                    if FK_YAML_UNLIKELY (
+                        p_node && p_node->is_anchor() && p_node->m_prop.anchor == token_str &&
+                        node_attr_bits::get_anchor_offset(p_node->m_attrs) == anchor_counts - 1) {
+                        throw parse_error("An alias of a node cannot be a part of it.", line, indent);
+                    }
+                }
+
                 basic_node_type node {};
                 node.m_attrs |= detail::node_attr_bits::alias_bit;
                 node.m_prop.anchor = std::move(token_str);
diff --git a/src_yaml_interface/from_yaml.cc b/src_yaml_interface/from_yaml.cc
index a913f79..4e93437 100755
--- a/src_yaml_interface/from_yaml.cc
+++ b/src_yaml_interface/from_yaml.cc
@@ -32,7 +32,6 @@
 
 #include "GenericContainer/GenericContainerInterface_yaml.hh"
 
-#include <algorithm>
 #include <iterator>
 #include <sstream>
 #include <fstream>
@@ -41,7 +40,6 @@
 #include <cstdint>
 #include <regex>
 #include <limits>
-#include <vector>
 #include <cstdlib>
 
 //#include "yaml-cpp/yaml.h"
@@ -61,19 +59,9 @@ namespace GC_namespace {
   using std::numeric_limits;
   using std::size_t;
 
-  // an alias inside of the list or map it refers to would have no end:
-  // true if the list or map is not one of those being read
   static
   bool
-  enter( std::vector<void const *> & opened, void const * what ) {
-    if ( std::find( opened.begin(), opened.end(), what ) != opened.end() ) return false;
-    opened.push_back( what );
-    return true;
-  }
-
-  static
-  bool
-  YAML_to_GC( fkyaml::node const & node, GenericContainer & gc, std::vector<void const *> & opened ) {
+  YAML_to_GC( fkyaml::node const & node, GenericContainer & gc ) {
     // Controlla il tipo di nodo
     bool ok{true};
     switch (node.get_type()) {
@@ -104,23 +92,19 @@ namespace GC_namespace {
       }
       case fkyaml::node_type::SEQUENCE: {
         size_t N{node.size()};
-        if ( !enter( opened, &node.get_value_ref<fkyaml::node::sequence_type const &>() ) ) return false;
         vector_type & V{ gc.set_vector( N ) };
         for ( size_t i{0}; ok && i < N; ++i )
-          ok = YAML_to_GC( node[i], V[i], opened );
-        opened.pop_back();
+          ok = YAML_to_GC( node[i], V[i] );
         break;
       }
       case fkyaml::node_type::MAPPING: {
         map_type & M{ gc.set_map() };
         auto & mapping = node.get_value_ref<const fkyaml::node::mapping_type&>();
-        if ( !enter( opened, &mapping ) ) return false;
         for ( auto & it : mapping ) {
           GenericContainer & gcm = M[it.first.get_value<string>()];
-          ok = YAML_to_GC( it.second, gcm, opened );
+          ok = YAML_to_GC( it.second, gcm );
           if ( !ok ) break;
         }
-        opened.pop_back();
         break;
       }
     }
@@ -141,8 +125,7 @@ namespace GC_namespace {
       fkyaml::node root;
       if ( !text.empty() ) root = fkyaml::node::deserialize(text);
       GenericContainer tmp; // do not mix what is read with the previous contents
-      std::vector<void const *> opened;
-      ok = YAML_to_GC( root, tmp, opened );
+      ok = YAML_to_GC( root, tmp );
       if ( ok ) {
         tmp.collapse();
         *this = tmp;
-- 
2.43.0


From 1638be9d5a67174887006d01524088fa71660485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:09 +0000
Subject: [PATCH 105/125] fix: from_yaml gave the anchor of a block map to its
 first key

---
 .../fkYAML/detail/input/deserializer.hpp      | 103 ++++++++++++++++--
 1 file changed, 95 insertions(+), 8 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
index b5c544a..74f314b 100644
--- a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
@@ -573,17 +573,11 @@ private:
                                 continue;
                             }
 
-                            // if node properties and the followed node are on different lines (i.e., the properties are
-                            // for a container node), the application and the line advancement must happen here.
-                            // Otherwise, a false indent error will be emitted. See
+                            // the properties are for the entry, which starts on the next line. See
                             // https://github.com/fktn-k/fkYAML/issues/368 for more details.
                             line = line_after_props;
                             indent = lexer.get_last_token_begin_pos();
-                            *mp_current_node = basic_node_type::mapping();
-                            m_context_stack.emplace_back(
-                                line_after_props, indent, context_state_t::BLOCK_MAPPING, mp_current_node);
-                            apply_directive_set(*mp_current_node);
-                            apply_node_properties(*mp_current_node);
+                            apply_entry_properties(token, line, indent);
                         }
 
                         continue;
@@ -592,6 +586,10 @@ private:
                     if (indent <= m_context_stack.back().indent) {
                         FK_YAML_ASSERT(m_context_stack.back().state == context_state_t::MAPPING_VALUE);
 
+                        // node properties, if any, are those of the omitted value.
+                        apply_directive_set(*mp_current_node);
+                        apply_node_properties(*mp_current_node);
+
                         // Mapping values can be omitted and are considered to be null.
                         // ```yaml
                         // foo:
@@ -605,6 +603,10 @@ private:
                         });
                     }
 
+                    else {
+                        defer_anchor(token);
+                    }
+
                     // defer checking the existence of a key separator after the following scalar until the next
                     // deserialize_scalar() call.
                     continue;
@@ -640,6 +642,13 @@ private:
             case lexical_token_t::ANCHOR_PREFIX:
             case lexical_token_t::TAG_PREFIX:
                 deserialize_node_properties(lexer, token, line, indent);
+                if (m_flow_context_depth == 0 && line < lexer.get_lines_processed() && !m_context_stack.empty() &&
+                    m_context_stack.back().state == context_state_t::BLOCK_SEQUENCE_ENTRY) {
+                    // the properties of a block sequence entry which starts on the next line.
+                    line = lexer.get_lines_processed();
+                    indent = lexer.get_last_token_begin_pos();
+                    apply_entry_properties(token, line, indent);
+                }
                 // Skip updating the current indent to avoid stacking a wrong indentation.
                 // Note that node properties for block sequences as a mapping value are processed when a
                 // `lexical_token_t::KEY_SEPARATOR` token is processed.
@@ -1223,6 +1232,7 @@ private:
         }
         else if (token.type == lexical_token_t::KEY_SEPARATOR) {
             if FK_YAML_UNLIKELY (line != lexer.get_lines_processed()) {
+                apply_deferred_anchor(node);
                 // This path is for explicit mapping key separator like:
                 // ```yaml
                 //   ? foo
@@ -1262,6 +1272,7 @@ private:
 
                     *mp_current_node = basic_node_type::mapping();
                     apply_directive_set(*mp_current_node);
+                    apply_deferred_anchor(*mp_current_node);
                 }
                 else {
                     // root mapping node
@@ -1285,6 +1296,7 @@ private:
             add_new_key(std::move(node), line, indent);
         }
         else {
+            apply_deferred_anchor(node);
             assign_node_value(std::move(node), line, indent);
         }
 
@@ -1339,6 +1351,79 @@ private:
         }
     }
 
+    /// @brief Set the properties specified on the line above a block sequence entry.
+    /// @param token The token of the node after the properties.
+    /// @param line The line of the node after the properties.
+    /// @param indent The indentation width of the node after the properties.
+    void apply_entry_properties(const lexical_token& token, const uint32_t line, const uint32_t indent) {
+        if (indent <= m_context_stack.back().indent) {
+            // the entry is omitted.
+            apply_directive_set(*mp_current_node);
+            apply_node_properties(*mp_current_node);
+            return;
+        }
+
+        switch (token.type) {
+        case lexical_token_t::PLAIN_SCALAR:
+        case lexical_token_t::SINGLE_QUOTED_SCALAR:
+        case lexical_token_t::DOUBLE_QUOTED_SCALAR:
+            if (m_needs_tag_impl) {
+                const tag_t tag_type = tag_resolver_type::resolve_tag(m_tag_name, mp_meta);
+                if (tag_type == tag_t::MAPPING || tag_type == tag_t::CUSTOM_TAG) {
+                    *mp_current_node = basic_node_type::mapping();
+                    m_context_stack.emplace_back(line, indent, context_state_t::BLOCK_MAPPING, mp_current_node);
+                    apply_directive_set(*mp_current_node);
+                    apply_node_properties(*mp_current_node);
+                    return;
+                }
+            }
+            break;
+        default:
+            break;
+        }
+
+        defer_anchor(token);
+    }
+
+    /// @brief Keep an anchor specified on the line above a scalar until it is known if the scalar is the node or the
+    /// first key of a block mapping which is the node.
+    /// ```yaml
+    /// foo: &anchor
+    ///   bar: baz
+    /// # -> the anchor is for {bar: baz}
+    /// ```
+    /// @param token The token of the node after the anchor.
+    void defer_anchor(const lexical_token& token) noexcept {
+        switch (token.type) {
+        case lexical_token_t::PLAIN_SCALAR:
+        case lexical_token_t::SINGLE_QUOTED_SCALAR:
+        case lexical_token_t::DOUBLE_QUOTED_SCALAR:
+        case lexical_token_t::ALIAS_PREFIX:
+        case lexical_token_t::ANCHOR_PREFIX:
+        case lexical_token_t::TAG_PREFIX:
+            if (m_needs_anchor_impl) {
+                m_deferred_anchor_name = m_anchor_name;
+                m_needs_anchor_impl = false;
+                m_anchor_name = {};
+            }
+            break;
+        default:
+            break;
+        }
+    }
+
+    /// @brief Set the anchor kept by defer_anchor(), if any, to the given node.
+    /// @param node A node type object to be set the anchor.
+    void apply_deferred_anchor(basic_node_type& node) {
+        if (!m_deferred_anchor_name.empty()) {
+            if FK_YAML_UNLIKELY (node.is_anchor() || node.is_alias()) {
+                throw fkyaml::exception("parse_error: a node with two anchors or an alias with an anchor.");
+            }
+            node.add_anchor_name(std::string(m_deferred_anchor_name.begin(), m_deferred_anchor_name.end()));
+            m_deferred_anchor_name = {};
+        }
+    }
+
     /// @brief Update the target YAML version with an input string.
     /// @param version_str A YAML version string.
     yaml_version_type convert_yaml_version(str_view version_str) noexcept {
@@ -1368,6 +1453,8 @@ private:
     str_view m_tag_name;
     /// The root YAML anchor name. (maybe empty and unused)
     str_view m_root_anchor_name;
+    /// The anchor of a node which is a scalar or a mapping starting with it.
+    str_view m_deferred_anchor_name;
     /// The root tag name. (maybe empty and unused)
     str_view m_root_tag_name;
 };
-- 
2.43.0


From 1aa1e466cbbb9d2cff20a1a076826c8b62912ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:45 +0000
Subject: [PATCH 106/125] fix: from_yaml misread or refused maps with explicit
 keys

---
 .../fkYAML/detail/input/deserializer.hpp      | 76 ++++++++++++-------
 1 file changed, 50 insertions(+), 26 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
index 74f314b..b61db81 100644
--- a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
@@ -416,7 +416,7 @@ private:
         do {
             switch (token.type) {
             case lexical_token_t::EXPLICIT_KEY_PREFIX: {
-                const bool needs_to_move_back = indent == 0 || indent < m_context_stack.back().indent;
+                const bool needs_to_move_back = indent <= m_context_stack.back().indent;
                 if (needs_to_move_back) {
                     pop_to_parent_node(line, indent, [indent](const parse_context& c) {
                         return c.state == context_state_t::BLOCK_MAPPING && indent == c.indent;
@@ -439,6 +439,7 @@ private:
                     // ```
                     *mp_current_node = basic_node_type::mapping();
                     apply_directive_set(*mp_current_node);
+                    apply_node_properties(*mp_current_node);
                     m_context_stack.emplace_back(line, indent, context_state_t::BLOCK_MAPPING, mp_current_node);
                     break;
                 default:
@@ -501,6 +502,54 @@ private:
                 line = lexer.get_lines_processed();
                 indent = lexer.get_last_token_begin_pos();
 
+                // handle explicit mapping key separators.
+                if (m_context_stack.back().state == context_state_t::BLOCK_MAPPING_EXPLICIT_KEY) {
+                    basic_node_type key_node = std::move(*m_context_stack.back().p_node);
+                    m_context_stack.pop_back();
+                    m_context_stack.back().p_node->template get_value_ref<mapping_type&>().emplace(
+                        key_node, basic_node_type());
+                    mp_current_node = &(m_context_stack.back().p_node->operator[](std::move(key_node)));
+                    m_context_stack.emplace_back(
+                        old_line, old_indent, context_state_t::BLOCK_MAPPING_EXPLICIT_VALUE, mp_current_node);
+
+                    const bool has_props = deserialize_node_properties(lexer, token, line, indent);
+                    if (has_props && line == lexer.get_lines_processed()) {
+                        // defer applying node properties for the subsequent node on the same line.
+                        continue;
+                    }
+
+                    line = lexer.get_lines_processed();
+                    indent = lexer.get_last_token_begin_pos();
+
+                    if (token.type == lexical_token_t::SEQUENCE_BLOCK_PREFIX &&
+                        (line == old_line || indent >= old_indent)) {
+                        *mp_current_node = basic_node_type::sequence({basic_node_type()});
+                        apply_directive_set(*mp_current_node);
+                        apply_node_properties(*mp_current_node);
+                        m_context_stack.emplace_back(line, indent, context_state_t::BLOCK_SEQUENCE, mp_current_node);
+
+                        mp_current_node = &(mp_current_node->template get_value_ref<sequence_type&>().back());
+                        apply_directive_set(*mp_current_node);
+                        parse_context entry_context = m_context_stack.back();
+                        entry_context.state = context_state_t::BLOCK_SEQUENCE_ENTRY;
+                        entry_context.p_node = mp_current_node;
+                        m_context_stack.emplace_back(std::move(entry_context));
+                        break;
+                    }
+
+                    if (line > old_line) {
+                        apply_entry_properties(token, line, indent);
+                        if (indent <= old_indent && token.type != lexical_token_t::END_OF_BUFFER) {
+                            // the value is omitted.
+                            pop_to_parent_node(line, indent, [indent](const parse_context& c) {
+                                return (c.state == context_state_t::BLOCK_MAPPING) && (indent == c.indent);
+                            });
+                        }
+                    }
+
+                    continue;
+                }
+
                 const bool found_props = deserialize_node_properties(lexer, token, line, indent);
                 if (found_props && line == lexer.get_lines_processed()) {
                     // defer applying node properties for the subsequent node on the same line.
@@ -612,31 +661,6 @@ private:
                     continue;
                 }
 
-                // handle explicit mapping key separators.
-                FK_YAML_ASSERT(m_context_stack.back().state == context_state_t::BLOCK_MAPPING_EXPLICIT_KEY);
-
-                basic_node_type key_node = std::move(*m_context_stack.back().p_node);
-                m_context_stack.pop_back();
-                m_context_stack.back().p_node->template get_value_ref<mapping_type&>().emplace(
-                    key_node, basic_node_type());
-                mp_current_node = &(m_context_stack.back().p_node->operator[](std::move(key_node)));
-                m_context_stack.emplace_back(
-                    old_line, old_indent, context_state_t::BLOCK_MAPPING_EXPLICIT_VALUE, mp_current_node);
-
-                if (token.type == lexical_token_t::SEQUENCE_BLOCK_PREFIX) {
-                    *mp_current_node = basic_node_type::sequence({basic_node_type()});
-                    apply_directive_set(*mp_current_node);
-                    apply_node_properties(*mp_current_node);
-                    m_context_stack.emplace_back(line, indent, context_state_t::BLOCK_SEQUENCE, mp_current_node);
-
-                    mp_current_node = &(mp_current_node->template get_value_ref<sequence_type&>().back());
-                    parse_context entry_context = m_context_stack.back();
-                    entry_context.state = context_state_t::BLOCK_SEQUENCE_ENTRY;
-                    entry_context.p_node = mp_current_node;
-                    m_context_stack.emplace_back(std::move(entry_context));
-                    break;
-                }
-
                 continue;
             }
             case lexical_token_t::ANCHOR_PREFIX:
-- 
2.43.0


From ec744ab21f49d7dfb6a2527e85fde30e6c5881e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:36 +0000
Subject: [PATCH 107/125] fix: from_yaml crashed on nodes with two anchors

---
 .../fkYAML/detail/input/deserializer.hpp      | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
index b61db81..276d7e6 100644
--- a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
@@ -1000,13 +1000,17 @@ private:
                 }
 
                 // a collection which contains an alias of itself would have no end.
-                for (auto itr = m_context_stack.rbegin(); itr != m_context_stack.rend(); ++itr) {
-                    const basic_node_type* p_node = itr->p_node;
-                    if FK_YAML_UNLIKELY (
-                        p_node && p_node->is_anchor() && p_node->m_prop.anchor == token_str &&
-                        node_attr_bits::get_anchor_offset(p_node->m_attrs) == anchor_counts - 1) {
-                        throw parse_error("An alias of a node cannot be a part of it.", line, indent);
-                    }
+                const auto is_aliased = [&](const basic_node_type* p_node) {
+                    return p_node && p_node->is_anchor() && p_node->m_prop.anchor == token_str &&
+                           node_attr_bits::get_anchor_offset(p_node->m_attrs) == anchor_counts - 1;
+                };
+                const bool is_cyclic =
+                    is_aliased(mp_current_node) ||
+                    std::any_of(m_context_stack.rbegin(), m_context_stack.rend(), [&](const parse_context& c) {
+                        return is_aliased(c.p_node);
+                    });
+                if FK_YAML_UNLIKELY (is_cyclic) {
+                    throw parse_error("An alias of a node cannot be a part of it.", line, indent);
                 }
 
                 basic_node_type node {};
@@ -1363,6 +1367,9 @@ private:
     /// @param node A node type object to be set YAML node properties.
     void apply_node_properties(basic_node_type& node) {
         if (m_needs_anchor_impl) {
+            if FK_YAML_UNLIKELY (node.is_anchor()) {
+                throw fkyaml::exception("parse_error: a node with two anchors.");
+            }
             node.add_anchor_name(std::string(m_anchor_name.begin(), m_anchor_name.end()));
             m_needs_anchor_impl = false;
             m_anchor_name = {};
-- 
2.43.0


From 1225f41a03f5979888508680b2f9452510a1153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:18 +0000
Subject: [PATCH 108/125] fix: from_yaml split plain strings at several spaces
 and at spaces before a line break

---
 .../fkYAML/detail/input/lexical_analyzer.hpp  | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
index eff2214..10088e0 100644
--- a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
@@ -879,21 +879,29 @@ private:
                 pos = non_space_pos;
                 break;
             }
-            case ' ':
+            case ' ': {
                 if FK_YAML_UNLIKELY (pos == sv.size() - 1) {
                     // trim trailing space.
                     ends_loop = true;
                     break;
                 }
 
-                // Allow a space in a plain scalar only if the space is surrounded by non-space characters, but not
+                // Allow spaces in a plain scalar only if they are surrounded by non-space characters, but not
                 // followed by the comment prefix " #".
                 // Also, flow indicators are not allowed to be followed after a space in a flow context.
                 // See https://yaml.org/spec/1.2.2/#733-plain-style for more details.
+                const std::size_t next_pos = sv.find_first_not_of(" \t", pos);
+                if FK_YAML_UNLIKELY (next_pos == str_view::npos) {
+                    ends_loop = true;
+                    break;
+                }
+                if (sv[next_pos] != '#') {
+                    pos = next_pos - 1; // the last one before the next non-space character or newline.
+                }
+
                 switch (sv[pos + 1]) {
                 case ' ':
                 case '\t':
-                case '\n':
                 case '#':
                     ends_loop = true;
                     break;
@@ -912,6 +920,7 @@ private:
                     break;
                 }
                 break;
+            }
             case ':':
                 if FK_YAML_LIKELY (pos + 1 < sv.size()) {
                     switch (sv[pos + 1]) {
@@ -944,7 +953,13 @@ private:
             pos = sv.find_first_of(filter, pos + 1);
         } while (pos != str_view::npos);
 
-        str_view plain_scalar = sv.substr(0, pos);
+        // trim trailing spaces.
+        std::size_t len = std::min(pos, sv.size());
+        while (len > 0 && (sv[len - 1] == ' ' || sv[len - 1] == '\t')) {
+            --len;
+        }
+
+        str_view plain_scalar = sv.substr(0, len);
         check_scalar_content(plain_scalar);
         m_cur_itr = plain_scalar.end();
         return plain_scalar;
-- 
2.43.0


From c8f00a8a8841b1e49636a63b3786567e634ec5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:48 +0000
Subject: [PATCH 109/125] fix: serialize refused a vector that was too small
 instead of enlarging it

---
 src/GenericContainerSerialize.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index 67207f9..0529ebc 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -186,6 +186,8 @@ namespace GC_namespace {
 
   int32_t
   GenericContainer::serialize( std::vector<uint8_t> & buffer ) const {
+    if ( int32_t const needed{ this->mem_size() }; buffer.size() < static_cast<std::size_t>(needed) )
+      buffer.resize( static_cast<std::size_t>(needed) );
     int32_t const sz{ static_cast<int32_t>(buffer.size()) };
     return this->serialize( sz, buffer.data() );
   }
-- 
2.43.0


From 330287c0bc476bd9647061298619bae443bb01a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:48 +0000
Subject: [PATCH 110/125] fix: from_yaml crashed when an anchor was defined
 more than 64 times

---
 src_yaml_interface/fkYAML/detail/node_attrs.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/node_attrs.hpp b/src_yaml_interface/fkYAML/detail/node_attrs.hpp
index ddf84ed..e65c7cb 100644
--- a/src_yaml_interface/fkYAML/detail/node_attrs.hpp
+++ b/src_yaml_interface/fkYAML/detail/node_attrs.hpp
@@ -18,7 +18,7 @@
 FK_YAML_DETAIL_NAMESPACE_BEGIN
 
 /// @brief The type for node attribute bits.
-using node_attr_t = uint32_t;
+using node_attr_t = uint64_t;
 
 /// @brief The namespace to define bit masks for node attribute bits.
 namespace node_attr_mask {
@@ -28,11 +28,11 @@ constexpr node_attr_t value = 0x0000FFFFu;
 /// The bit mask for node style type bits. (bits are not yet defined.)
 constexpr node_attr_t style = 0x00FF0000u;
 /// The bit mask for node property related bits.
-constexpr node_attr_t props = 0xFF000000u;
+constexpr node_attr_t props = 0xFFFFFFFFFF000000u;
 /// The bit mask for anchor/alias node type bits.
 constexpr node_attr_t anchoring = 0x03000000u;
 /// The bit mask for anchor offset value bits.
-constexpr node_attr_t anchor_offset = 0xFC000000u;
+constexpr node_attr_t anchor_offset = 0xFFFFFFFF00000000u;
 /// The bit mask for all the bits for node attributes.
 constexpr node_attr_t all = std::numeric_limits<node_attr_t>::max();
 
@@ -119,7 +119,7 @@ inline node_type to_node_type(node_attr_t bits) noexcept {
 /// @param attrs node attribute bits
 /// @return An anchor offset value.
 inline uint32_t get_anchor_offset(node_attr_t attrs) noexcept {
-    return (attrs & node_attr_mask::anchor_offset) >> 26;
+    return static_cast<uint32_t>((attrs & node_attr_mask::anchor_offset) >> 32);
 }
 
 /// @brief Set an anchor offset value to the appropriate bits.
@@ -127,7 +127,7 @@ inline uint32_t get_anchor_offset(node_attr_t attrs) noexcept {
 /// @param attrs node attribute bit set into which the offset value is written.
 inline void set_anchor_offset(uint32_t offset, node_attr_t& attrs) noexcept {
     attrs &= ~node_attr_mask::anchor_offset;
-    attrs |= (offset & 0x3Fu) << 26;
+    attrs |= static_cast<node_attr_t>(offset) << 32;
 }
 
 } // namespace node_attr_bits
-- 
2.43.0


From 42c18863106c2c083ddd7d26397d027ab8236f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:49 +0000
Subject: [PATCH 111/125] fix: from_yaml read past the end of a TAG directive
 that ends with the text

---
 src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
index 10088e0..707ccdf 100644
--- a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
@@ -488,7 +488,7 @@ private:
         // extract a tag handle
         //
 
-        if FK_YAML_UNLIKELY (*m_cur_itr != '!') {
+        if FK_YAML_UNLIKELY (m_cur_itr == m_end_itr || *m_cur_itr != '!') {
             emit_error("Tag handle must start with \'!\'.");
         }
 
@@ -554,6 +554,10 @@ private:
         // extract a tag prefix.
         //
 
+        if FK_YAML_UNLIKELY (m_cur_itr == m_end_itr) {
+            emit_error("invalid TAG directive is found.");
+        }
+
         m_token_begin_itr = m_cur_itr;
         const char* p_tag_prefix_begin = m_cur_itr;
         switch (*m_cur_itr) {
-- 
2.43.0


From 79a6e81b50dcaa53f50ee9189ab6ab12e5aa62be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:55 +0000
Subject: [PATCH 112/125] fix: from_json accepted a text that went on after a
 NUL

---
 src_json_interface/from_json.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index c2c37e2..e20f480 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -108,6 +108,14 @@ namespace GC_namespace {
       return false;
     }
 
+    // to the parser a NUL in the text is its end; at the real end there is nothing to take
+    size_t const last{ isw.Tell() };
+    isw.Take();
+    if ( isw.Tell() != last ) {
+      std::cerr << "Errore di parsing in JSON_to_GC\n";
+      return false;
+    }
+
     //rapidjson::StringBuffer sb;
     //rapidjson::PrettyWriter<rapidjson::StringBuffer> writer(sb);
     //document.Accept(writer);    // Accept() traverses the DOM and generates Handler events.
-- 
2.43.0


From 2e4accf3b27263513a365080f5b3404876194fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:26 +0000
Subject: [PATCH 113/125] fix: to_mxArray of a vector of integers printed a
 debugging line

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index 4e6137c..f3810ba 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -381,7 +381,6 @@ namespace GC_namespace {
 
   void
   to_mxArray( vec_int_type const & val, mxArray * & mx ) {
-  cout << "in  to_mxArray( vec_int_type\n";
     mwSize dims[2] = { mwSize(val.size()), 1 };
     mx = mxCreateNumericArray(2,dims,mxINT32_CLASS,mxREAL);
     int32_t * ptr = static_cast<int32_t*>(mxGetData(mx));
-- 
2.43.0


From 7bcd6f378572b6bdb14d6d5537019a927013a28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:26 +0000
Subject: [PATCH 114/125] fix: GenericContainer_to_mxArray took the front of an
 empty vector for an empty map

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index f3810ba..e8611a4 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -638,7 +638,7 @@ namespace GC_namespace {
         for ( map_type::const_iterator im = mappa.begin(); im != mappa.end(); ++im )
           fieldnames.push_back(im->first.data());
 
-        mx = mxCreateStructMatrix(1,1,nfield,&fieldnames.front());
+        mx = mxCreateStructMatrix(1,1,nfield,fieldnames.data());
 
         int ifield = 0;
         for ( map_type::const_iterator im = mappa.begin(); im != mappa.end(); ++im, ++ifield ) {
-- 
2.43.0


From fb3c02ad40fb8345151551a1bc7589e671034501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:26 +0000
Subject: [PATCH 115/125] fix: to_mxArray read past the end of a string_view

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index e8611a4..3ad2a5e 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -368,7 +368,7 @@ namespace GC_namespace {
 
   void
   to_mxArray( string_view val, mxArray * & mx ) {
-    mx = mxCreateString( val.data() );
+    mx = mxCreateString( string(val).data() );
   }
 
   void
-- 
2.43.0


From 4444ac68fca29efb203b7826f600bafc95d5c10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:26 +0000
Subject: [PATCH 116/125] fix: mxArray_to_GenericContainer made large uint32
 values negative

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index 3ad2a5e..d8fc975 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -318,7 +318,7 @@ namespace GC_namespace {
           case mxINT16_CLASS:   mx_to_vec_int<int16_t>(mx,gc);   break;
           case mxUINT16_CLASS:  mx_to_vec_int<uint16_t>(mx,gc);  break;
           case mxINT32_CLASS:   mx_to_vec_int<int32_t>(mx,gc);   break;
-          case mxUINT32_CLASS:  mx_to_vec_int<uint32_t>(mx,gc);  break;
+          case mxUINT32_CLASS:  mx_to_vec_long<uint32_t>(mx,gc); break;
           case mxINT64_CLASS:   mx_to_vec_long<int64_t>(mx,gc);  break;
           case mxUINT64_CLASS:  mx_to_vec_long<uint64_t>(mx,gc); break;
           case mxSINGLE_CLASS:  mx_to_vec_real<float>(mx,gc);    break;
-- 
2.43.0


From 93219eed7dcf54cc653b38a86932454733e6e255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:26 +0000
Subject: [PATCH 117/125] fix: mxSparse_to_GenericContainer read sparse logical
 matrices as doubles

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index d8fc975..f6d87ee 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -251,6 +251,13 @@ namespace GC_namespace {
     for ( unsigned i = 0; i <= nc; ++i ) jc[i] = jcs[i];
     for ( unsigned i = 0; i < nnz; ++i ) ir[i] = irs[i];
 
+    if ( mxIsLogical( mx ) ) {
+      mxLogical const * sl = mxGetLogicals(mx);
+      vec_real_type & val = gc["values"].set_vec_real( nnz );
+      for ( unsigned i = 0; i < nnz; ++i ) val[i] = sl[i] ? 1 : 0;
+      return;
+    }
+
     real_type * sr = mxGetPr(mx);
     if ( mxIsComplex( mx ) ) {
       real_type * si = mxGetPi(mx);
-- 
2.43.0


From bdbb5820699f8ff39d32b9180c6fdf95dc4728a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:26 +0000
Subject: [PATCH 118/125] fix: mxArray_to_GenericContainer cut texts of class
 string with characters of three bytes

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index f6d87ee..c23d111 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -293,12 +293,7 @@ namespace GC_namespace {
       mxArray * char_array[1];
       string_class[0] = const_cast<mxArray*>(mx);
       mexCallMATLAB(1, char_array, 1, string_class, "char");
-      // Parse the char array to create an std::string
-      int buflen = mxGetN(char_array[0])*sizeof(mxChar)+1;
-      char* buf = new char[buflen];
-      mxGetString(char_array[0],buf,buflen);
-      gc = buf;
-      delete [] buf;
+      gc = mxArrayToString(char_array[0]);
     } else {
       if ( mxIsComplex(mx) ) {
         switch (category)  {
-- 
2.43.0


From cca7a0b6d0fc27781053f9fbee37f0bad6386f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:52 +0000
Subject: [PATCH 119/125] fix: the Ruby interface used Fixnum, which Ruby no
 longer has

---
 src_ruby_interface/GenericContainer_ffi.rb | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src_ruby_interface/GenericContainer_ffi.rb b/src_ruby_interface/GenericContainer_ffi.rb
index 649c829..fa36312 100644
--- a/src_ruby_interface/GenericContainer_ffi.rb
+++ b/src_ruby_interface/GenericContainer_ffi.rb
@@ -292,7 +292,7 @@ module GenericContainer
     if vec[0].kind_of?(TrueClass) or vec[0].kind_of?(FalseClass) then
       ok = self.GC_set_empty_vector_of_bool
       raise RuntimeError, @error_messages[ok] unless ok == 0
-    elsif vec[0].kind_of?(Fixnum) then
+    elsif vec[0].kind_of?(Integer) then
       ok = self.GC_set_empty_vector_of_int
       raise RuntimeError, @error_messages[ok] unless ok == 0
     elsif vec[0].kind_of?(Float) then
@@ -316,7 +316,7 @@ module GenericContainer
       elsif var.kind_of?(FalseClass) then
         ok = self.GC_push_bool 0
         raise RuntimeError, @error_messages[ok] unless ok == 0
-      elsif var.kind_of?(Fixnum) then
+      elsif var.kind_of?(Integer) then
         ok = self.GC_push_int var
         raise RuntimeError, @error_messages[ok] unless ok == 0
       elsif var.kind_of?(Float) then
@@ -365,7 +365,7 @@ module GenericContainer
     elsif var.kind_of?(FalseClass) then
       ok = self.GC_set_bool 0
       raise RuntimeError, @error_messages[ok] unless ok == 0
-    elsif var.kind_of?(Fixnum) then
+    elsif var.kind_of?(Integer) then
       ok = self.GC_set_int var
       raise RuntimeError, @error_messages[ok] unless ok == 0
     elsif var.kind_of?(Float) then
-- 
2.43.0


From 45440e1b3dbabbf570cd061583a94e925bbb4778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:52 +0000
Subject: [PATCH 120/125] fix: get_data of the Ruby interface gave booleans as
 the numbers 0 and 1, both true in Ruby

---
 src_ruby_interface/GenericContainer_ffi.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_ruby_interface/GenericContainer_ffi.rb b/src_ruby_interface/GenericContainer_ffi.rb
index fa36312..95dad4e 100644
--- a/src_ruby_interface/GenericContainer_ffi.rb
+++ b/src_ruby_interface/GenericContainer_ffi.rb
@@ -150,7 +150,7 @@ module GenericContainer
   def self.toBoolVector
     nelem = self.GC_get_vector_size
     res = []
-    (0..nelem-1).each { |i| res << self.GC_get_bool_at_pos(i) }
+    (0..nelem-1).each { |i| res << ( self.GC_get_bool_at_pos(i) != 0 ) }
     return res
   end
 
@@ -246,7 +246,7 @@ module GenericContainer
     #when /NOTYPE/
     #when /pointer/
     when /^bool_type$/
-      res = self.GC_get_bool
+      res = self.GC_get_bool != 0
     when /^int_type$/
       res = self.GC_get_int
     when /^long_type$/
-- 
2.43.0


From 18e19f4cc7864b45527f7fbaea43decf2c0a1dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:52 +0000
Subject: [PATCH 121/125] fix: load of the Ruby interface refused or changed
 lists of different kinds of values

---
 src_ruby_interface/GenericContainer_ffi.rb | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src_ruby_interface/GenericContainer_ffi.rb b/src_ruby_interface/GenericContainer_ffi.rb
index 95dad4e..e37e927 100644
--- a/src_ruby_interface/GenericContainer_ffi.rb
+++ b/src_ruby_interface/GenericContainer_ffi.rb
@@ -289,19 +289,16 @@ module GenericContainer
   #
   def self.addToVector(vec)
     # empty vectors
-    if vec[0].kind_of?(TrueClass) or vec[0].kind_of?(FalseClass) then
+    if vec.all? { |v| v.kind_of?(TrueClass) or v.kind_of?(FalseClass) } then
       ok = self.GC_set_empty_vector_of_bool
       raise RuntimeError, @error_messages[ok] unless ok == 0
-    elsif vec[0].kind_of?(Integer) then
+    elsif vec.all? { |v| v.kind_of?(Integer) } then
       ok = self.GC_set_empty_vector_of_int
       raise RuntimeError, @error_messages[ok] unless ok == 0
-    elsif vec[0].kind_of?(Float) then
+    elsif vec.all? { |v| v.kind_of?(Integer) or v.kind_of?(Float) } then
       ok = self.GC_set_empty_vector_of_real
       raise RuntimeError, @error_messages[ok] unless ok == 0
-    elsif vec[0].kind_of?(String) then
-      ok = self.GC_set_empty_vector_of_string
-      raise RuntimeError, @error_messages[ok] unless ok == 0
-    elsif vec[0].kind_of?(Symbol) then
+    elsif vec.all? { |v| v.kind_of?(String) or v.kind_of?(Symbol) } then
       ok = self.GC_set_empty_vector_of_string
       raise RuntimeError, @error_messages[ok] unless ok == 0
     else
-- 
2.43.0


From 2fbbf049f3cdc38f0336fe71fdfadda4e4bc923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:52 +0000
Subject: [PATCH 122/125] fix: get_data of the Ruby interface gave texts and
 keys that are not ASCII as binary

---
 src_ruby_interface/GenericContainer_ffi.rb | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src_ruby_interface/GenericContainer_ffi.rb b/src_ruby_interface/GenericContainer_ffi.rb
index e37e927..ab855a0 100644
--- a/src_ruby_interface/GenericContainer_ffi.rb
+++ b/src_ruby_interface/GenericContainer_ffi.rb
@@ -147,6 +147,12 @@ module GenericContainer
   #  \____|\____|___\__\___/___|_| |_|\__,_|___/_| |_|
   #            |_____|    |_____|
   #
+  # the texts of a container are UTF-8
+  def self.toText(str)
+    res = str.dup.force_encoding(Encoding::UTF_8)
+    return res.valid_encoding? ? res : str
+  end
+
   def self.toBoolVector
     nelem = self.GC_get_vector_size
     res = []
@@ -178,7 +184,7 @@ module GenericContainer
   def self.toStringVector
     nelem = self.GC_get_vector_size
     res = []
-    (0..nelem-1).each { |i| res << self.GC_get_string_at_pos(i) }
+    (0..nelem-1).each { |i| res << self.toText( self.GC_get_string_at_pos(i) ) }
     return res
   end
 
@@ -233,7 +239,7 @@ module GenericContainer
     keys.each do |key|
       ok = self.GC_push_map_position key
       raise RuntimeError, @error_messages[ok] unless ok == 0
-      res[key.to_sym] = self.GC_to_hash
+      res[self.toText(key).to_sym] = self.GC_to_hash
       ok = self.GC_pop_head
       raise RuntimeError, @error_messages[ok] unless ok == 0
     end
@@ -254,7 +260,7 @@ module GenericContainer
     when /^real_type$/
       res = self.GC_get_real
     when /^string_type$/
-      res = self.GC_get_string
+      res = self.toText( self.GC_get_string )
     when /^vec_bool_type$/
       res = self.toBoolVector
     when /^vec_int_type$/
-- 
2.43.0


From c7a7f729fca5aaec1a0efa4ff041333c89fbc5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:52 +0000
Subject: [PATCH 123/125] fix: after a load that failed the Ruby interface
 worked on a part of the container

---
 src_ruby_interface/GenericContainer_ffi.rb | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src_ruby_interface/GenericContainer_ffi.rb b/src_ruby_interface/GenericContainer_ffi.rb
index ab855a0..7e8e983 100644
--- a/src_ruby_interface/GenericContainer_ffi.rb
+++ b/src_ruby_interface/GenericContainer_ffi.rb
@@ -415,6 +415,7 @@ module GenericContainer
     def load(data)
       ok = ::GenericContainer.GC_select @id
       raise RuntimeError, @error_messages[ok] unless ok == 0
+      ::GenericContainer.GC_reset_head # a load that failed may have left it inside
       ::GenericContainer.GC_from_hash data
     end
 
@@ -425,12 +426,14 @@ module GenericContainer
     def get_data
       ok = ::GenericContainer.GC_select @id
       raise RuntimeError, @error_messages[ok] unless ok == 0
+      ::GenericContainer.GC_reset_head
       return ::GenericContainer.GC_to_hash
     end
 
     def dump
       ok = ::GenericContainer.GC_select @id
       raise RuntimeError, @error_messages[ok] unless ok == 0
+      ::GenericContainer.GC_reset_head
       ::GenericContainer.GC_dump
     end
 
-- 
2.43.0


From 0616066271235cfd36265e20f77a8d1da07f93de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:52 +0000
Subject: [PATCH 124/125] fix: containers of the Ruby interface were never
 collected

---
 src_ruby_interface/GenericContainer_ffi.rb | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src_ruby_interface/GenericContainer_ffi.rb b/src_ruby_interface/GenericContainer_ffi.rb
index 7e8e983..e8d2d5d 100644
--- a/src_ruby_interface/GenericContainer_ffi.rb
+++ b/src_ruby_interface/GenericContainer_ffi.rb
@@ -401,10 +401,15 @@ module GenericContainer
   class GenericContainer
     attr_reader :id
 
+    # does not refer to the object, which could never be collected then
+    def self.finalizer(id)
+      proc { ::GenericContainer.GC_delete id }
+    end
+
     def initialize
       @id = self.__id__.to_s
       ::GenericContainer.GC_new @id
-      ObjectSpace.define_finalizer(self, proc { ::GenericContainer.GC_delete @id })
+      ObjectSpace.define_finalizer(self, self.class.finalizer(@id))
       return @id
     end
 
-- 
2.43.0


From 91f28042fa48d811eab522c35a876cf6a2555918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 125/125] fix: from_yaml refused the escape \0 of double quoted
 texts

---
 src_yaml_interface/fkYAML/detail/encodings/yaml_escaper.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src_yaml_interface/fkYAML/detail/encodings/yaml_escaper.hpp b/src_yaml_interface/fkYAML/detail/encodings/yaml_escaper.hpp
index 464d272..3a57d9d 100644
--- a/src_yaml_interface/fkYAML/detail/encodings/yaml_escaper.hpp
+++ b/src_yaml_interface/fkYAML/detail/encodings/yaml_escaper.hpp
@@ -27,6 +27,9 @@ public:
         bool ret = true;
 
         switch (*++begin) {
+        case '0':
+            buff.push_back('\0');
+            break;
         case 'a':
             buff.push_back('\a');
             break;
-- 
2.43.0

