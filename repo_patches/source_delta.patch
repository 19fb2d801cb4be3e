From 049cd6644e56564d918a25587287f8e412978456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:21 +0000
Subject: [PATCH 01/58] fix: never hand out an automatic ID that an explicit ID
 already took

An element created with an explicit ID equal to the next automatic ID did
not advance the ID generator, so the next automatically numbered element
got the same ID.
---
 viennagrid/storage/id_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/storage/id_generator.hpp b/viennagrid/storage/id_generator.hpp
index e594fe4..5930e06 100644
--- a/viennagrid/storage/id_generator.hpp
+++ b/viennagrid/storage/id_generator.hpp
@@ -120,7 +120,7 @@ namespace viennagrid
       using base::set_max_id;
       void set_max_id( id_type last_id_ )
       {
-        if (last_id_ > last_id)
+        if (last_id_ >= last_id)
         {
           last_id = last_id_;
           ++last_id;
-- 
2.43.0


From 38b9c2bd25a14ac0910abb1d03d059e34144f95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:21 +0000
Subject: [PATCH 02/58] fix: edge e6 of a hexahedron connects v2 and v6

The reference orientation documents e6 as the vertical edge at v2, but the
generator created the body diagonal (v2, v5), so the edge (v2, v6) was
missing from every hexahedron and a diagonal that is no edge was stored.
---
 viennagrid/topology/hexahedron.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/topology/hexahedron.hpp b/viennagrid/topology/hexahedron.hpp
index a456043..fae8b53 100644
--- a/viennagrid/topology/hexahedron.hpp
+++ b/viennagrid/topology/hexahedron.hpp
@@ -111,7 +111,7 @@ namespace viennagrid
         element.set_boundary_element( boundary_element, inserter.template insert<true, true>(boundary_element), index++ );
 
         boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(2), 0 );
-        boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(5), 1 );
+        boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(6), 1 );
         element.set_boundary_element( boundary_element, inserter.template insert<true, true>(boundary_element), index++ );
 
         boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(3), 0 );
-- 
2.43.0


From 1116a86c672ba81d4828c399eb3977388fd9a27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:17 +0000
Subject: [PATCH 03/58] fix: erasing elements from a mesh compiles with C++11
 and later

The element iterators derive from the iterators of the underlying standard
container.  From C++11 on, erase() takes a const_iterator, to which the derived
iterators do not convert.
---
 viennagrid/storage/container.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/viennagrid/storage/container.hpp b/viennagrid/storage/container.hpp
index d934cbb..b25c5b7 100644
--- a/viennagrid/storage/container.hpp
+++ b/viennagrid/storage/container.hpp
@@ -507,6 +507,12 @@ namespace viennagrid
       const_iterator begin() const { return cbegin(); }
       const_iterator end() const { return cend(); }
 
+      iterator erase(iterator pos)
+      {
+        typename base_container::iterator base_pos = pos;
+        return iterator(base_container::erase(base_pos));
+      }
+
 
       handle_type handle_at(std::size_t pos)
       {
-- 
2.43.0


From 857abb78dcb29e4a660b3c1affb9d394b5df25d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:54 +0000
Subject: [PATCH 04/58] fix: erasing elements keeps uniquely stored elements at
 their keys

Lines and facets are stored in a map from their vertices.  erase_elements()
swapped the element to erase with the last one without touching the keys, so
that afterwards elements were found under the vertices of others, were created
twice or not at all.
---
 viennagrid/mesh/element_deletion.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/viennagrid/mesh/element_deletion.hpp b/viennagrid/mesh/element_deletion.hpp
index 0be50e1..718e4b8 100644
--- a/viennagrid/mesh/element_deletion.hpp
+++ b/viennagrid/mesh/element_deletion.hpp
@@ -15,6 +15,7 @@
 
 #include "viennagrid/forwards.hpp"
 #include "viennagrid/storage/container_collection.hpp"
+#include "viennagrid/storage/hidden_key_map.hpp"
 #include "viennagrid/mesh/mesh.hpp"
 #include "viennagrid/mesh/segmentation.hpp"
 #include "viennagrid/mesh/coboundary_iteration.hpp"
@@ -82,6 +83,18 @@ namespace viennagrid
     }
 
 
+    /** @brief Containers which store their elements under a key: elements have to stay at their position and erasing an element does not affect handles of other elements. For internal use only */
+    template<typename ContainerT>
+    struct is_keyed_container
+    { static const bool value = false; };
+
+    /** \cond */
+    template<typename KeyT, typename ElementT>
+    struct is_keyed_container< hidden_key_map<KeyT, ElementT> >
+    { static const bool value = true; };
+    /** \endcond */
+
+
     /** @brief For internal use only */
     template<typename MeshT, typename MeshViewT>
     struct erase_functor
@@ -100,6 +113,8 @@ namespace viennagrid
 
         typedef typename viennagrid::result_of::id<ElementT>::type id_type;
 
+        typedef typename viennagrid::result_of::container_of<typename viennagrid::result_of::element_collection<MeshT>::type, ElementT>::type::base_container BaseContainerType;
+
   //             std::vector< std::pair<element_range_iterator, element_range_iterator> > swtiching_map;
 
         std::deque<id_type> ids_to_erase;
@@ -113,6 +128,13 @@ namespace viennagrid
         for (typename std::deque<id_type>::iterator it = ids_to_erase.begin(); it != ids_to_erase.end(); ++it)
         {
           ElementRangeIterator to_erase_it = find( mesh_obj_, *it );
+
+          if (is_keyed_container<BaseContainerType>::value)
+          {
+            elements.erase( to_erase_it );
+            continue;
+          }
+
           ElementRangeIterator back_it = --elements.end();
 
           if (back_it != to_erase_it)
-- 
2.43.0


From d0e8e7350cbd2e7c6082d1b146a857793f893463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:45 +0000
Subject: [PATCH 05/58] fix: co-boundary information of a view that lacks some
 boundary elements

A view may hold cells without their vertices (see examples/tutorial/element_erase.cpp).
Creating the co-boundary information then threw std::out_of_range.
---
 viennagrid/mesh/coboundary_iteration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/mesh/coboundary_iteration.hpp b/viennagrid/mesh/coboundary_iteration.hpp
index 926dc6d..4a97ef7 100644
--- a/viennagrid/mesh/coboundary_iteration.hpp
+++ b/viennagrid/mesh/coboundary_iteration.hpp
@@ -242,7 +242,7 @@ namespace viennagrid
         {
 //           is this line needed??
 //           if ( viennagrid::find(mesh_obj, *jt) !=  viennagrid::elements<element_type_or_tag>(mesh_obj).end() )
-          accessor.at( *jt ).insert_handle( it.handle() );
+          accessor( *jt ).insert_handle( it.handle() );
         }
       }
     }
-- 
2.43.0


From 62d1e9f0d6bf5d9246adc9d331276f35d306d3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:18 +0000
Subject: [PATCH 06/58] fix: segment queries for elements which were never
 added to a segment

---
 viennagrid/mesh/segmentation.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index b24bc77..39642c2 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -1569,11 +1569,22 @@ namespace viennagrid
       return false;
     }
 
+    /** @brief Returns the segment information of an element, an element which was never added to any segment has an empty segment information. For internal use only */
+    template<typename accessor_type, typename element_type>
+    typename accessor_type::value_type const & find_segment_info( accessor_type const & accessor, element_type const & element )
+    {
+      typedef typename accessor_type::value_type segment_info_type;
+      static segment_info_type const no_segments = segment_info_type();
+
+      segment_info_type const * segment_info = accessor.find(element);
+      return segment_info ? *segment_info : no_segments;
+    }
+
     /** @brief For internal use only */
     template< typename segment_handle_type, typename accessor_type, typename element_type >
     bool is_in_segment( segment_handle_type const & segment, accessor_type const accessor, element_type const & element )
     {
-      return is_in_segment( segment, accessor(element) );
+      return is_in_segment( segment, find_segment_info(accessor, element) );
     }
   }
 
@@ -1715,7 +1726,7 @@ namespace viennagrid
   {
     typedef typename result_of::segment_id_range< SegmentationT, viennagrid::element<ElementTagT, WrappedConfigT> >::type SegmentIDRangeType;
     typedef viennagrid::element<ElementTagT, WrappedConfigT> ElementType;
-    return SegmentIDRangeType( viennagrid::make_field<ElementType>( viennagrid::detail::element_segment_mapping_collection(segmentation) )(element) );
+    return SegmentIDRangeType( viennagrid::detail::find_segment_info( viennagrid::make_accessor<ElementType>( viennagrid::detail::element_segment_mapping_collection(segmentation) ), element ) );
   }
 
 
@@ -1772,7 +1783,7 @@ namespace viennagrid
     typename accessor_type::value_type::segment_element_info_type const *
     segment_element_info( segment_handle_type const & segment, const accessor_type accessor, element_type const & element )
     {
-      return segment_element_info( segment, accessor(element) );
+      return segment_element_info( segment, find_segment_info(accessor, element) );
     }
   }
 
-- 
2.43.0


From a68622c7db79934d5a3f652f46eeae6ffa2a41e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:21 +0000
Subject: [PATCH 07/58] fix: clearing a segmentation also drops segment names
 and collected elements

---
 viennagrid/mesh/segmentation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 39642c2..c1d30aa 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -916,7 +916,9 @@ namespace viennagrid
     {
       highest_id = -1;
       segment_id_map.clear();
+      segment_name_map.clear();
       segments.clear();
+      all_elements_ = viennagrid::make_view(*mesh_);
       appendix_ = appendix_type();
     }
 
-- 
2.43.0


From 4bf524e24539f68857429a1ecf4b0e0720db3504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:33 +0000
Subject: [PATCH 08/58] fix: erasing an element from a segment removes the
 element itself

---
 viennagrid/mesh/segmentation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index c1d30aa..eb58e12 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -2169,8 +2169,10 @@ namespace viennagrid
   template<typename SegmentHandleT, typename ElementTagT, typename WrappedConfigT>
   void erase( SegmentHandleT & segment, viennagrid::element<ElementTagT, WrappedConfigT> & element )
   {
+    typedef viennagrid::element<ElementTagT, WrappedConfigT> ElementType;
     typedef typename viennagrid::result_of::mesh_view<SegmentHandleT>::type ToEraseViewT;
     ToEraseViewT elements_to_erase = viennagrid::make_view(segment);
+    viennagrid::elements<ElementType>( elements_to_erase ).insert_unique_handle( viennagrid::handle(segment, element) );
     viennagrid::mark_referencing_elements( segment, elements_to_erase, viennagrid::handle(segment, element) );
 
     detail::non_recursive_erase_functor<SegmentHandleT> functor( segment );
-- 
2.43.0


From 5a5e3216b32db83899af0c76a0031f5d41b37f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:14 +0000
Subject: [PATCH 09/58] fix: exception messages outlive the call of what()

---
 viennagrid/io/serialization.hpp  | 13 +++++++----
 viennagrid/mesh/segmentation.hpp | 39 ++++++++++++++++++++------------
 viennagrid/point.hpp             | 15 ++++++++----
 3 files changed, 42 insertions(+), 25 deletions(-)

diff --git a/viennagrid/io/serialization.hpp b/viennagrid/io/serialization.hpp
index 8a85fca..66c924a 100644
--- a/viennagrid/io/serialization.hpp
+++ b/viennagrid/io/serialization.hpp
@@ -44,17 +44,20 @@ namespace viennagrid
       public:
         virtual const char* what() const throw()
         {
-          std::stringstream ss;
-          ss << "* ViennaGrid: Bad serialization state: " << msg_ << "!";
-          return ss.str().c_str();
+          return message_.c_str();
         }
 
-        bad_serialization_state_exception(std::string msg) : msg_(msg) {}
+        bad_serialization_state_exception(std::string msg)
+        {
+          std::stringstream ss;
+          ss << "* ViennaGrid: Bad serialization state: " << msg << "!";
+          message_ = ss.str();
+        }
 
         virtual ~bad_serialization_state_exception() throw() {}
 
       private:
-        std::string msg_;
+        std::string message_;
     };
 
 
diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index eb58e12..a6ac5b0 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -36,17 +36,20 @@ namespace viennagrid
     public:
       virtual const char* what() const throw()
       {
-        std::stringstream ss;
-        ss << "* ViennaGrid: Collision with segment names: " << collision_name_ << "!";
-        return ss.str().c_str();
+        return message_.c_str();
       }
 
-      segment_name_collision_exception(std::string cn) : collision_name_(cn) {}
+      segment_name_collision_exception(std::string cn)
+      {
+        std::stringstream ss;
+        ss << "* ViennaGrid: Collision with segment names: " << cn << "!";
+        message_ = ss.str();
+      }
 
       virtual ~segment_name_collision_exception() throw() {}
 
     private:
-      std::string collision_name_;
+      std::string message_;
   };
 
   /** @brief A segment defines a submesh within a segmentation. The segment_handle is used to deal with segments, since segments are not represented by a dedicated class.
@@ -477,17 +480,20 @@ namespace viennagrid
     public:
       virtual const char* what() const throw()
       {
-        std::stringstream ss;
-        ss << "* ViennaGrid: Cannot find segment with ID " << id_ << "!";
-        return ss.str().c_str();
+        return message_.c_str();
       }
 
-      segment_id_not_found_exception(long id) : id_(id) {}
+      segment_id_not_found_exception(long id)
+      {
+        std::stringstream ss;
+        ss << "* ViennaGrid: Cannot find segment with ID " << id << "!";
+        message_ = ss.str();
+      }
 
       virtual ~segment_id_not_found_exception() throw() {}
 
     private:
-      long id_;
+      std::string message_;
   };
 
 
@@ -497,17 +503,20 @@ namespace viennagrid
     public:
       virtual const char* what() const throw()
       {
-        std::stringstream ss;
-        ss << "* ViennaGrid: Cannot find segment  " << name_ << "!";
-        return ss.str().c_str();
+        return message_.c_str();
       }
 
-      segment_name_not_found_exception(std::string const & name) : name_(name) {}
+      segment_name_not_found_exception(std::string const & name)
+      {
+        std::stringstream ss;
+        ss << "* ViennaGrid: Cannot find segment  " << name << "!";
+        message_ = ss.str();
+      }
 
       virtual ~segment_name_not_found_exception() throw() {}
 
     private:
-      std::string name_;
+      std::string message_;
   };
 
 
diff --git a/viennagrid/point.hpp b/viennagrid/point.hpp
index a2b7b88..81ac662 100644
--- a/viennagrid/point.hpp
+++ b/viennagrid/point.hpp
@@ -510,17 +510,22 @@ namespace viennagrid
   class point_index_out_of_bounds_exception : public std::exception
   {
   public:
-    point_index_out_of_bounds_exception(std::size_t i) : i_(i) {}
+    point_index_out_of_bounds_exception(std::size_t i)
+    {
+      std::stringstream ss;
+      ss << "Point index " << i << " out of bounds!";
+      message_ = ss.str();
+    }
+
+    virtual ~point_index_out_of_bounds_exception() throw() {}
 
     virtual const char* what() const throw()
     {
-      std::stringstream ss;
-      ss << "Point index " << i_ << " out of bounds!";
-      return ss.str().c_str();
+      return message_.c_str();
     }
 
   private:
-    std::size_t i_;
+    std::string message_;
   };
 
 
-- 
2.43.0


From 3bf8f043b56ff13e4ed6c02f3f50c5da76dea9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:14 +0000
Subject: [PATCH 10/58] fix: segmentation::at() by name returns the segment

---
 viennagrid/mesh/segmentation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index a6ac5b0..0640e52 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -807,7 +807,7 @@ namespace viennagrid
       typename segment_name_map_type::const_iterator it = segment_name_map.find(segment_name);
       if( it == segment_name_map.end() )
         throw viennagrid::segment_name_not_found_exception(segment_name);
-      return it->second;
+      return *(it->second);
     }
 
 
-- 
2.43.0


From dd4002f0a29ed88e556f13b723a85e40ee548016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:33 +0000
Subject: [PATCH 11/58] fix: a segment name collision leaves the segmentation
 unchanged

---
 viennagrid/mesh/segmentation.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 0640e52..6c95088 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -686,6 +686,12 @@ namespace viennagrid
       if (it != segment_id_map.end())
           return it->second; // segment already is present
 
+      std::stringstream ss;
+      ss << segment_id;
+
+      if (segment_name_map.find(ss.str()) != segment_name_map.end())
+        throw segment_name_collision_exception(ss.str());
+
       segments.push_back( segment(this, mesh(), segment_id) );
       segment & new_segment = segments.back();
 
@@ -694,12 +700,8 @@ namespace viennagrid
 
       it = segment_id_map.insert( std::make_pair(segment_id, segment_handle_type(new_segment)) ).first;
 
-      std::stringstream ss;
-      ss << segment_id;
       segments.back().name = ss.str();
-
-      if (!segment_name_map.insert(std::make_pair(ss.str(), &it->second)).second)
-        throw segment_name_collision_exception(ss.str());
+      segment_name_map.insert( std::make_pair(ss.str(), &it->second) );
 
       return it->second;
     }
-- 
2.43.0


From 420f3e45e5bc7eacc5179cabb950448d675f9f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:10 +0000
Subject: [PATCH 12/58] fix: clearing a segment removes its elements from the
 segment only

---
 viennagrid/mesh/segmentation.hpp | 46 +++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 6c95088..e19d905 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -150,15 +150,6 @@ namespace viennagrid
     segment_type * segment_;
   };
 
-  /** @brief Completely clears a segmentation
-    *
-    */
-  template<typename SegmentationT>
-  void clear( segment_handle<SegmentationT> & segment_ )
-  {
-    segment_.view().clear();
-  }
-
   namespace result_of
   {
     /** \cond */
@@ -2191,6 +2182,43 @@ namespace viennagrid
   }
 
 
+  namespace detail
+  {
+    /** @brief For internal use only */
+    template<typename ViewT, typename MeshT>
+    struct insert_handle_functor
+    {
+      insert_handle_functor(ViewT & view_, MeshT & mesh_) : view(view_), mesh(mesh_) {}
+
+      template<typename ElementT>
+      void operator() ( ElementT & element )
+      {
+        viennagrid::elements<ElementT>( view ).insert_handle( viennagrid::handle( mesh, element ) );
+      }
+
+      ViewT & view;
+      MeshT & mesh;
+    };
+  }
+
+  /** @brief Completely clears a segment, the elements remain in the mesh and in all other segments
+    *
+    */
+  template<typename SegmentationT>
+  void clear( segment_handle<SegmentationT> & segment_ )
+  {
+    typedef typename SegmentationT::mesh_type MeshT;
+    typedef typename viennagrid::result_of::mesh_view< segment_handle<SegmentationT> >::type ToEraseViewT;
+
+    ToEraseViewT elements_to_erase = viennagrid::make_view(segment_);
+    detail::insert_handle_functor<ToEraseViewT, MeshT> insert_functor( elements_to_erase, segment_.mesh() );
+    viennagrid::for_each( segment_.view(), insert_functor );
+
+    detail::non_recursive_erase_functor< segment_handle<SegmentationT> > functor( segment_ );
+    viennagrid::for_each(elements_to_erase, functor);
+  }
+
+
   namespace detail
   {
 
-- 
2.43.0


From a08fb42cd30ca751b352ea1c35b07a36e688b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:24 +0000
Subject: [PATCH 13/58] fix: self-assignment of a segmented mesh keeps its
 content

---
 viennagrid/mesh/segmented_mesh.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennagrid/mesh/segmented_mesh.hpp b/viennagrid/mesh/segmented_mesh.hpp
index ac09a28..5ff3d95 100644
--- a/viennagrid/mesh/segmented_mesh.hpp
+++ b/viennagrid/mesh/segmented_mesh.hpp
@@ -58,7 +58,8 @@ namespace viennagrid
 
     SelfType & operator=(SelfType const & other)
     {
-      copy( other.mesh, other.segmentation, mesh, segmentation, true_functor() );
+      if (this != &other)
+        copy( other.mesh, other.segmentation, mesh, segmentation, true_functor() );
       return *this;
     }
 
-- 
2.43.0


From 99bd2423a5769ad046ea53933b03c71c1835c329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:02 +0000
Subject: [PATCH 14/58] fix: boundary query between two elements iterates over
 the host element

---
 viennagrid/algorithm/boundary.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/boundary.hpp b/viennagrid/algorithm/boundary.hpp
index 40118d2..f55c3e8 100644
--- a/viennagrid/algorithm/boundary.hpp
+++ b/viennagrid/algorithm/boundary.hpp
@@ -282,7 +282,7 @@ namespace viennagrid
                    viennagrid::element<ElementTag2, WrappedConfigT2> const & element)
   {
 
-    typedef typename viennagrid::result_of::const_element_range<viennagrid::element<ElementTag2, WrappedConfigT2>, ElementTag1>::type   BoundaryRange;
+    typedef typename viennagrid::result_of::const_element_range<viennagrid::element<ElementTag1, WrappedConfigT1>, ElementTag2>::type   BoundaryRange;
     typedef typename viennagrid::result_of::iterator<BoundaryRange>::type               BoundaryIterator;
 
     BoundaryRange bnd_cells(host_element);
-- 
2.43.0


From 40bdb688bc5824e1647bd5116e5aea8ec73cb826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:02 +0000
Subject: [PATCH 15/58] fix: interface flags of previous detections do not
 survive a modification

---
 viennagrid/algorithm/interface.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viennagrid/algorithm/interface.hpp b/viennagrid/algorithm/interface.hpp
index 72a9d92..2f9a859 100644
--- a/viennagrid/algorithm/interface.hpp
+++ b/viennagrid/algorithm/interface.hpp
@@ -135,6 +135,7 @@ namespace viennagrid
                 >::type::segment_interface_information_wrapper_type dst_interface_information_container_wrapper_type;
 
         dst_interface_information_container_wrapper_type & dst_interface_information_container_wrapper = interface_information_collection<element_tag>( seg0, seg1 );
+        dst_interface_information_container_wrapper.container.clear();
         typename viennagrid::result_of::accessor< typename dst_interface_information_container_wrapper_type::container_type, element_type >::type dst_accessor( dst_interface_information_container_wrapper.container );
 
         transfer_boundary_information(seg0, viennagrid::make_field<facet_type>(src_interface_information_container_wrapper.container), dst_accessor);
@@ -228,6 +229,8 @@ namespace viennagrid
             >::type::segment_interface_information_wrapper_type interface_information_container_wrapper_type;
     interface_information_container_wrapper_type & interface_information_container_wrapper = detail::interface_information_collection<FacetTag>( seg0, seg1 );
 
+    // flags from previous detections must not survive
+    interface_information_container_wrapper.container.clear();
 
     detail::detect_interface( seg0, seg1, viennagrid::make_field<FacetType>(interface_information_container_wrapper.container) );
 
-- 
2.43.0


From 20df2cb16eaf06017cf11b32fdb6a6c86a429f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:32 +0000
Subject: [PATCH 16/58] fix: Voronoi interface areas of triangles are clipped
 at the mesh boundary

---
 viennagrid/algorithm/voronoi.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/voronoi.hpp b/viennagrid/algorithm/voronoi.hpp
index 49edba8..217e946 100644
--- a/viennagrid/algorithm/voronoi.hpp
+++ b/viennagrid/algorithm/voronoi.hpp
@@ -428,10 +428,12 @@ namespace viennagrid
 
               // contribution from other cell containing the circumcenter:
               interface_contribution = spanned_volume(edge_intersection, circ_center);
-              interface_area_accessor(*eocit) += interface_contribution;
               //if ( other_cell != NULL)
               if (!detail::is_handle_invalid( other_cells, other_cell ))
+              {
+                interface_area_accessor(*eocit) += interface_contribution;
                 voronoi_unique_quantity_update(interface_area_cell_contribution_accessor(*eocit), std::make_pair( other_cell, interface_contribution) );
+              }
 
 
               //
-- 
2.43.0


From c927cff195d0a9df9115bb9099f6203757030f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:32 +0000
Subject: [PATCH 17/58] fix: tetrahedral Voronoi quantities can be computed on
 segments

---
 viennagrid/mesh/mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/mesh/mesh.hpp b/viennagrid/mesh/mesh.hpp
index a825e32..523c52c 100644
--- a/viennagrid/mesh/mesh.hpp
+++ b/viennagrid/mesh/mesh.hpp
@@ -960,7 +960,7 @@ namespace viennagrid
       template<typename HandleT>
       bool operator() ( HandleT h1, HandleT h2 )
       {
-          return &viennagrid::dereference_handle( container, h1 ) < &viennagrid::dereference_handle( container, h2 );
+          return &dereference_handle( container, h1 ) < &dereference_handle( container, h2 ); // unqualified: also finds the overloads for segments
       }
 
     private:
-- 
2.43.0


From 422f3bd5f6556efa5c571fa7c36b93695da7caa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:22 +0000
Subject: [PATCH 18/58] fix: volumes of quadrilaterals and hexahedra follow the
 reference orientation

---
 viennagrid/algorithm/volume.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/viennagrid/algorithm/volume.hpp b/viennagrid/algorithm/volume.hpp
index 4f7d491..c82da5b 100644
--- a/viennagrid/algorithm/volume.hpp
+++ b/viennagrid/algorithm/volume.hpp
@@ -92,7 +92,7 @@ namespace viennagrid
       PointType const & p2 = accessor( vertices(cell)[2] );
       PointType const & p3 = accessor( vertices(cell)[3] );
 
-      return spanned_volume(p0, p1, p3) + spanned_volume(p1, p2, p3); //sum up the two triangular parts
+      return spanned_volume(p0, p1, p2) + spanned_volume(p1, p3, p2); //sum up the two triangular parts (reference orientation: p1 and p2 are opposite)
     }
 
 
@@ -161,12 +161,12 @@ namespace viennagrid
       PointType const & p7 = accessor( vertices(cell)[7] );
 
       //decompose hexahedron into six tetrahedra
-      return spanned_volume(p0, p1, p3, p4)
-             + spanned_volume(p4, p1, p3, p7)
-             + spanned_volume(p4, p1, p7, p5)
-             + spanned_volume(p1, p2, p3, p7)
-             + spanned_volume(p1, p2, p7, p5)
-             + spanned_volume(p5, p2, p7, p6);
+      return spanned_volume(p0, p1, p2, p4)
+             + spanned_volume(p4, p1, p2, p6)
+             + spanned_volume(p4, p1, p6, p5)
+             + spanned_volume(p1, p3, p2, p6)
+             + spanned_volume(p1, p3, p6, p5)
+             + spanned_volume(p5, p3, p6, p7);
     }
 
 
-- 
2.43.0


From ea7ca99607ec1278e2320513ca6b747dc5740db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:12 +0000
Subject: [PATCH 19/58] fix: polygon volumes use the point accessor and handle
 non-convex polygons in 3d

---
 viennagrid/algorithm/volume.hpp | 45 ++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/viennagrid/algorithm/volume.hpp b/viennagrid/algorithm/volume.hpp
index c82da5b..1b609c4 100644
--- a/viennagrid/algorithm/volume.hpp
+++ b/viennagrid/algorithm/volume.hpp
@@ -96,13 +96,46 @@ namespace viennagrid
     }
 
 
+    /** @brief Sums up the triangles (origin, p1, p2) along the boundary of a polygon, with sign. */
+    template <typename PointT, int DimV>
+    struct polygon_area_sum
+    {
+      typedef typename viennagrid::result_of::coord<PointT>::type    value_type;
+
+      polygon_area_sum() : area_(0) {}
+      void add(PointT const & origin, PointT const & p1, PointT const & p2) { area_ += signed_spanned_volume(origin, p1, p2); }
+      value_type area() const { return std::abs(area_); }
+
+    private:
+      value_type area_;
+    };
+
+    /** @brief Specialization for three dimensions, where the sign of a triangle is the direction of its normal vector. */
+    template <typename PointT>
+    struct polygon_area_sum<PointT, 3>
+    {
+      typedef typename viennagrid::result_of::coord<PointT>::type              value_type;
+      typedef typename viennagrid::result_of::cartesian_point<PointT>::type    cartesian_type;
+
+      polygon_area_sum() : normal_(0.0, 0.0, 0.0) {}
+      void add(PointT const & origin, PointT const & p1, PointT const & p2)
+      {
+        cartesian_type v1 = to_cartesian(p1) - to_cartesian(origin);
+        cartesian_type v2 = to_cartesian(p2) - to_cartesian(origin);
+        normal_ += cross_prod(v1, v2);
+      }
+      value_type area() const { return norm(normal_) / 2.0; }
+
+    private:
+      cartesian_type normal_;
+    };
+
     /** @brief Computes the two-dimensional volume of a polygon.*/
     template <typename PointAccessorT, typename ElementT>
     typename viennagrid::result_of::coord< typename PointAccessorT::value_type >::type
     volume_impl(PointAccessorT const accessor, ElementT const & cell, viennagrid::polygon_tag)
     {
       typedef typename PointAccessorT::value_type PointType;
-      typedef typename viennagrid::result_of::coord< PointType >::type NumericType;
       typedef typename viennagrid::result_of::const_element_range<ElementT, vertex_tag>::type       VertexOnCellContainer;
       typedef typename viennagrid::result_of::iterator<VertexOnCellContainer>::type                    VertexOnCellIterator;
 
@@ -112,18 +145,18 @@ namespace viennagrid
       VertexOnCellIterator it1 = range.begin();
       VertexOnCellIterator it2 = it1; ++it2;
 
-      PointType origin = it1->point();
+      PointType origin = accessor(*it1);
 
-      NumericType volume = 0;
+      polygon_area_sum<PointType, viennagrid::result_of::static_size<PointType>::value> volume;
 
       for (; it2 != range.end(); ++it1, ++it2)
-          volume += signed_spanned_volume(origin, accessor(*it1), accessor(*it2));
+          volume.add(origin, accessor(*it1), accessor(*it2));
 
 
       it1 = range.end(); --it1;
-      volume += signed_spanned_volume( origin, accessor(*it1), accessor(*range.begin()) );
+      volume.add( origin, accessor(*it1), accessor(*range.begin()) );
 
-      return std::abs(volume);
+      return volume.area();
     }
 
 
-- 
2.43.0


From fb5beec15905f63bfce7c09463af8c64a10087a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:12 +0000
Subject: [PATCH 20/58] fix: smallest and largest boundary volume obtain points
 through an accessor

---
 viennagrid/algorithm/surface.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/viennagrid/algorithm/surface.hpp b/viennagrid/algorithm/surface.hpp
index 671d008..c492046 100644
--- a/viennagrid/algorithm/surface.hpp
+++ b/viennagrid/algorithm/surface.hpp
@@ -134,11 +134,11 @@ namespace viennagrid
     boundary_element_range_iterator it = boundary_elements.begin();
 
     boundary_element_handle best_handle = it.handle();
-    numeric_type best_volume = viennagrid::volume( mesh_obj, *it );
+    numeric_type best_volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
 
     for (; it != boundary_elements.end(); ++it)
     {
-      numeric_type volume = viennagrid::volume( mesh_obj, *it );
+      numeric_type volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
       if (volume < best_volume)
       {
         best_handle = it.handle();
@@ -163,11 +163,11 @@ namespace viennagrid
     boundary_element_range_iterator it = boundary_elements.begin();
 
     boundary_element_handle best_handle = it.handle();
-    numeric_type best_volume = viennagrid::volume( mesh_obj, *it );
+    numeric_type best_volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
 
     for (; it != boundary_elements.end(); ++it)
     {
-      numeric_type volume = viennagrid::volume( mesh_obj, *it );
+      numeric_type volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
       if (volume < best_volume)
       {
         best_handle = it.handle();
@@ -191,11 +191,11 @@ namespace viennagrid
     boundary_element_range_iterator it = boundary_elements.begin();
 
     boundary_element_handle best_handle = it.handle();
-    numeric_type best_volume = viennagrid::volume( mesh_obj, *it );
+    numeric_type best_volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
 
     for (; it != boundary_elements.end(); ++it)
     {
-      numeric_type volume = viennagrid::volume( mesh_obj, *it );
+      numeric_type volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
       if (volume > best_volume)
       {
         best_handle = it.handle();
@@ -219,11 +219,11 @@ namespace viennagrid
     boundary_element_range_iterator it = boundary_elements.begin();
 
     boundary_element_handle best_handle = it.handle();
-    numeric_type best_volume = viennagrid::volume( mesh_obj, *it );
+    numeric_type best_volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
 
     for (; it != boundary_elements.end(); ++it)
     {
-      numeric_type volume = viennagrid::volume( mesh_obj, *it );
+      numeric_type volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
       if (volume > best_volume)
       {
         best_handle = it.handle();
-- 
2.43.0


From 6176663355949660b1032a1fee4b89718d2442fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 21/58] fix: centroid of a mesh or segment without explicit
 point accessor compiles

---
 viennagrid/algorithm/centroid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennagrid/algorithm/centroid.hpp b/viennagrid/algorithm/centroid.hpp
index c2ffa3e..3cf0b6a 100644
--- a/viennagrid/algorithm/centroid.hpp
+++ b/viennagrid/algorithm/centroid.hpp
@@ -210,7 +210,7 @@ namespace viennagrid
   typename viennagrid::result_of::point< mesh<WrappedConfigT> >::type
   centroid(mesh<WrappedConfigT> const & mesh_obj)
   {
-    return centroid<ElementTOrTagT>(mesh_obj, default_point_accessor(mesh_obj));
+    return detail::centroid_mesh<ElementTOrTagT>(mesh_obj, default_point_accessor(mesh_obj));
   }
 
   /** @brief The public interface function for the computation of a centroid of a mesh. Cells are used for centroid calculation, will fail if there is more than one cell type.
@@ -222,7 +222,7 @@ namespace viennagrid
   centroid(mesh<WrappedConfigT> const & mesh_obj)
   {
     typedef typename viennagrid::result_of::cell_tag< mesh<WrappedConfigT> >::type CellTag;
-    return centroid<CellTag>(mesh_obj, default_point_accessor(mesh_obj));
+    return detail::centroid_mesh<CellTag>(mesh_obj, default_point_accessor(mesh_obj));
   }
 
 
@@ -262,7 +262,7 @@ namespace viennagrid
   typename viennagrid::result_of::point< segment_handle<SegmentationT> >::type
   centroid(segment_handle<SegmentationT> const & segment)
   {
-    return centroid<ElementTOrTagT>(segment, default_point_accessor(segment));
+    return detail::centroid_mesh<ElementTOrTagT>(segment, default_point_accessor(segment));
   }
 
   /** @brief The public interface function for the computation of a centroid of a segment. Cells are used for centroid calculation, will fail if there is more than one cell type.
@@ -274,7 +274,7 @@ namespace viennagrid
   centroid(segment_handle<SegmentationT> const & segment)
   {
     typedef typename viennagrid::result_of::cell_tag< segment_handle<SegmentationT> >::type CellTag;
-    return centroid<CellTag>(segment, default_point_accessor(segment));
+    return detail::centroid_mesh<CellTag>(segment, default_point_accessor(segment));
   }
 } //namespace viennagrid
 #endif
-- 
2.43.0


From 43eee6d41dc17de3f18bafc7e16c3fb9ea880c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:39 +0000
Subject: [PATCH 22/58] fix: postfix increment and decrement of container and
 view iterators return the previous position

---
 viennagrid/storage/container.hpp | 32 ++++++++++++++++----------------
 viennagrid/storage/view.hpp      | 32 ++++++++++++++++----------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/viennagrid/storage/container.hpp b/viennagrid/storage/container.hpp
index b25c5b7..55225b7 100644
--- a/viennagrid/storage/container.hpp
+++ b/viennagrid/storage/container.hpp
@@ -95,10 +95,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -125,10 +125,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -159,10 +159,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -195,10 +195,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -233,10 +233,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const &  value() const { return base_const_iterator::operator*(); }
@@ -264,10 +264,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
@@ -299,10 +299,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
@@ -336,10 +336,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
diff --git a/viennagrid/storage/view.hpp b/viennagrid/storage/view.hpp
index 52fed04..2d289a7 100644
--- a/viennagrid/storage/view.hpp
+++ b/viennagrid/storage/view.hpp
@@ -89,10 +89,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       iterator & operator++() { base::operator++(); return *this; }
-      iterator operator++(int) { base::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base::operator--(); return *this; }
-      iterator operator--(int) { base::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -123,10 +123,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_iterator & operator++() { base::operator++(); return *this; }
-      const_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base::operator--(); return *this; }
-      const_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
@@ -156,10 +156,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       reverse_iterator & operator++() { base::operator++(); return *this; }
-      reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      reverse_iterator operator++(int) { reverse_iterator tmp(*this); ++*this; return tmp; }
 
       reverse_iterator & operator--() { base::operator--(); return *this; }
-      reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      reverse_iterator operator--(int) { reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -190,10 +190,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_reverse_iterator & operator++() { base::operator++(); return *this; }
-      const_reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_reverse_iterator operator++(int) { const_reverse_iterator tmp(*this); ++*this; return tmp; }
 
       const_reverse_iterator & operator--() { base::operator--(); return *this; }
-      const_reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_reverse_iterator operator--(int) { const_reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
@@ -353,10 +353,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       iterator & operator++() { base::operator++(); return *this; }
-      iterator operator++(int) { base::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base::operator--(); return *this; }
-      iterator operator--(int) { base::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -387,10 +387,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_iterator & operator++() { base::operator++(); return *this; }
-      const_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base::operator--(); return *this; }
-      const_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
@@ -420,10 +420,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       reverse_iterator & operator++() { base::operator++(); return *this; }
-      reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      reverse_iterator operator++(int) { reverse_iterator tmp(*this); ++*this; return tmp; }
 
       reverse_iterator & operator--() { base::operator--(); return *this; }
-      reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      reverse_iterator operator--(int) { reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -454,10 +454,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_reverse_iterator & operator++() { base::operator++(); return *this; }
-      const_reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_reverse_iterator operator++(int) { const_reverse_iterator tmp(*this); ++*this; return tmp; }
 
       const_reverse_iterator & operator--() { base::operator--(); return *this; }
-      const_reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_reverse_iterator operator--(int) { const_reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
-- 
2.43.0


From 21a9a9473ce244c82a88aeaf0e3ab5dd312a698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:39 +0000
Subject: [PATCH 23/58] fix: distances and closest points of vertices to other
 elements compile and use the given accessor

---
 viennagrid/algorithm/closest_points.hpp | 16 ++++++++--------
 viennagrid/algorithm/distance.hpp       | 24 ++++++++++++------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/viennagrid/algorithm/closest_points.hpp b/viennagrid/algorithm/closest_points.hpp
index 4f6bbb0..9bd2b92 100644
--- a/viennagrid/algorithm/closest_points.hpp
+++ b/viennagrid/algorithm/closest_points.hpp
@@ -176,7 +176,7 @@ namespace viennagrid
     }
 
     // Closest points between vertices:
-    template <typename PointAccessorT, typename PointT, typename WrappedConfigT>
+    template <typename PointAccessorT, typename WrappedConfigT>
     std::pair<typename viennagrid::result_of::point<viennagrid::element< vertex_tag,WrappedConfigT> >::type, typename viennagrid::result_of::point<viennagrid::element< vertex_tag,WrappedConfigT> >::type>
     closest_points_impl(PointAccessorT const accessor,
                         viennagrid::element<vertex_tag,WrappedConfigT> const & v1,
@@ -471,7 +471,7 @@ namespace viennagrid
                         viennagrid::element<vertex_tag,WrappedConfigT1> const & v,
                         viennagrid::element<simplex_tag<2>,WrappedConfigT2> const & el)
     {
-      return closest_points_impl( accessor(v), el );
+      return closest_points_impl( accessor, accessor(v), el );
     }
 
 
@@ -517,7 +517,7 @@ namespace viennagrid
                                 viennagrid::element<vertex_tag,WrappedConfigT1> const & v,
                                 viennagrid::element<hypercube_tag<2>,WrappedConfigT2> const & el)
     {
-      return closest_points_impl( accessor(v), el);
+      return closest_points_impl( accessor, accessor(v), el);
     }
 
 
@@ -633,7 +633,7 @@ namespace viennagrid
                                 viennagrid::element<vertex_tag,WrappedConfigT1> const & v,
                                 viennagrid::element<simplex_tag<3>,WrappedConfigT2> const & el)
     {
-      return closest_points_impl( accessor(v), el);
+      return closest_points_impl( accessor, accessor(v), el);
     }
 
 
@@ -689,7 +689,7 @@ namespace viennagrid
                         viennagrid::element<vertex_tag,WrappedConfigT1> const & v,
                         viennagrid::element<hypercube_tag<3>,WrappedConfigT2> const & el)
     {
-      return closest_points_impl( accessor(v), el);
+      return closest_points_impl( accessor, accessor(v), el);
     }
 
     //
@@ -737,7 +737,7 @@ namespace viennagrid
     }
 
     // Closest points between vertices:
-    template <typename PointAccessorT, typename PointT, typename WrappedConfigT>
+    template <typename PointAccessorT, typename WrappedConfigT>
     std::pair<typename viennagrid::result_of::point<viennagrid::element< vertex_tag,WrappedConfigT> >::type, typename viennagrid::result_of::point<viennagrid::element< vertex_tag,WrappedConfigT> >::type>
     closest_points_on_boundary_impl(PointAccessorT const accessor,
                                     viennagrid::element<vertex_tag,WrappedConfigT> const & v1,
@@ -823,7 +823,7 @@ namespace viennagrid
                                     viennagrid::element<vertex_tag,WrappedConfigT1> const & v,
                                     viennagrid::element<EA2,WrappedConfigT2> const & el)
     {
-      return closest_points_on_boundary_impl( accessor(v), el);
+      return closest_points_on_boundary_impl( accessor, accessor(v), el);
     }
 
     template <typename WrappedMeshConfigType, typename WrappedConfigT>
@@ -1027,7 +1027,7 @@ namespace viennagrid
   closest_points(SomethingT1 const & el1,
                  SomethingT2 const & el2)
   {
-    return closest_points_impl(default_point_accessor(el1),
+    return detail::closest_points_impl(default_point_accessor(el1),
                                        detail::ascending_topological_order<SomethingT1, SomethingT2>::first(el1, el2),
                                        detail::ascending_topological_order<SomethingT1, SomethingT2>::second(el1, el2));
   }
diff --git a/viennagrid/algorithm/distance.hpp b/viennagrid/algorithm/distance.hpp
index 943ddd0..87e84e6 100644
--- a/viennagrid/algorithm/distance.hpp
+++ b/viennagrid/algorithm/distance.hpp
@@ -64,26 +64,26 @@ namespace viennagrid
       return distance_impl(p1, p2);
     }
 
-    template <typename PointAccessorT, typename PointT, typename WrappedConfigT>
-    typename viennagrid::result_of::coord<PointT>::type
+    template <typename PointAccessorT, typename CoordT, typename CoordinateSystemT, typename WrappedConfigT>
+    CoordT
     distance_impl(PointAccessorT const accessor,
-                  PointT const & p1,
+                  spatial_point<CoordT, CoordinateSystemT> const & p1,
                   viennagrid::element<viennagrid::vertex_tag, WrappedConfigT> const & v2)
     {
       return distance_impl(p1, accessor(v2));
     }
 
-    template <typename PointAccessorT, typename PointT, typename WrappedConfigT>
+    template <typename PointAccessorT, typename CoordT, typename CoordinateSystemT, typename WrappedConfigT>
     typename viennagrid::result_of::coord<typename PointAccessorT::value_type>::type
     distance_impl(PointAccessorT const accessor,
                   viennagrid::element<viennagrid::vertex_tag, WrappedConfigT> const & v1,
-                  PointT const & p2)
+                  spatial_point<CoordT, CoordinateSystemT> const & p2)
     {
       return distance_impl(accessor(v1), p2);
     }
 
     // Distance between vertices: Use point distance
-    template <typename PointAccessorT, typename PointT, typename WrappedConfigT1, typename WrappedConfigT2>
+    template <typename PointAccessorT, typename WrappedConfigT1, typename WrappedConfigT2>
     typename viennagrid::result_of::coord<typename PointAccessorT::value_type>::type
     distance_impl(PointAccessorT const accessor,
                   viennagrid::element<viennagrid::vertex_tag, WrappedConfigT1> const & v1,
@@ -140,26 +140,26 @@ namespace viennagrid
       return boundary_distance_impl(p1, p2);
     }
 
-    template <typename PointAccessorT, typename PointT, typename WrappedConfigT>
-    typename viennagrid::result_of::coord<PointT>::type
+    template <typename PointAccessorT, typename CoordT, typename CoordinateSystemT, typename WrappedConfigT>
+    CoordT
     boundary_distance_impl(PointAccessorT const accessor,
-                  PointT const & p1,
+                  spatial_point<CoordT, CoordinateSystemT> const & p1,
                   viennagrid::element<viennagrid::vertex_tag, WrappedConfigT> const & v2)
     {
       return boundary_distance_impl(p1, accessor(v2));
     }
 
-    template <typename PointAccessorT, typename PointT, typename WrappedConfigT>
+    template <typename PointAccessorT, typename CoordT, typename CoordinateSystemT, typename WrappedConfigT>
     typename viennagrid::result_of::coord<typename PointAccessorT::value_type>::type
     boundary_distance_impl(PointAccessorT const accessor,
                   viennagrid::element<viennagrid::vertex_tag, WrappedConfigT> const & v1,
-                  PointT const & p2)
+                  spatial_point<CoordT, CoordinateSystemT> const & p2)
     {
       return boundary_distance_impl(accessor(v1), p2);
     }
 
     // Distance between vertices: Use point distance
-    template <typename PointAccessorT, typename PointT, typename WrappedConfigT1, typename WrappedConfigT2>
+    template <typename PointAccessorT, typename WrappedConfigT1, typename WrappedConfigT2>
     typename viennagrid::result_of::coord<typename PointAccessorT::value_type>::type
     boundary_distance_impl(PointAccessorT const accessor,
                   viennagrid::element<viennagrid::vertex_tag, WrappedConfigT1> const & v1,
-- 
2.43.0


From 16cb6647f009553f266a96b91b9d79337965e108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:39 +0000
Subject: [PATCH 24/58] fix: closest points of two lines are returned in the
 order of the lines

---
 viennagrid/algorithm/closest_points.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennagrid/algorithm/closest_points.hpp b/viennagrid/algorithm/closest_points.hpp
index 9bd2b92..cfbd71e 100644
--- a/viennagrid/algorithm/closest_points.hpp
+++ b/viennagrid/algorithm/closest_points.hpp
@@ -291,8 +291,8 @@ namespace viennagrid
 
       if (denominator < 1e-6 * v_in_v * w_in_w) //lines parallel (up to round-off)
       {
-        return point_pair_with_shortest_distance(closest_points_point_line(w0, v0, v1),
-                                                 closest_points_point_line(w1, v0, v1),
+        return point_pair_with_shortest_distance(std::make_pair(closest_points_point_line(w0, v0, v1).second, w0),
+                                                 std::make_pair(closest_points_point_line(w1, v0, v1).second, w1),
                                                  closest_points_point_line(v0, w0, w1),
                                                  closest_points_point_line(v1, w0, w1));
       }
@@ -313,8 +313,8 @@ namespace viennagrid
 
       //Check whether minimizing distance is within line segment, i.e. s,t \in [0,1]
       if ( (s < 0) || (s > 1) || (t < 0) || (t > 1) ) //Note: A more fine-grained check is possible for those looking for optimizations
-        return point_pair_with_shortest_distance(closest_points_point_line(w0, v0, v1),
-                                                 closest_points_point_line(w1, v0, v1),
+        return point_pair_with_shortest_distance(std::make_pair(closest_points_point_line(w0, v0, v1).second, w0),
+                                                 std::make_pair(closest_points_point_line(w1, v0, v1).second, w1),
                                                  closest_points_point_line(v0, w0, w1),
                                                  closest_points_point_line(v1, w0, w1));
 
-- 
2.43.0


From 91eab626b2ec8efccd2badfbb594e724428ed75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:18 +0000
Subject: [PATCH 25/58] fix: quantity_transfer to higher dimensions reads the
 source element, not the destination

---
 viennagrid/algorithm/quantity_transfer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/quantity_transfer.hpp b/viennagrid/algorithm/quantity_transfer.hpp
index 8956976..f63e720 100644
--- a/viennagrid/algorithm/quantity_transfer.hpp
+++ b/viennagrid/algorithm/quantity_transfer.hpp
@@ -136,7 +136,7 @@ namespace viennagrid
                                 ++sodit)
           {
             if (filter_src(*sodit))
-              destination_value_container.push_back(accessor_src(*dit));
+              destination_value_container.push_back(accessor_src(*sodit));
           }
 
           //
-- 
2.43.0


From 0bb68a380a230d76624c4054bbf6519af214aa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:10 +0000
Subject: [PATCH 26/58] fix: default-constructed fields are recognized as
 invalid

---
 viennagrid/accessor.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 0c7b53a..0081891 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -693,7 +693,7 @@ namespace viennagrid
 
     typedef typename access_type::id_type::base_id_type offset_type;
 
-    dense_container_field() : default_value() {}
+    dense_container_field() : container(0), default_value() {}
     dense_container_field( ContainerType & container_ ) : container(&container_), default_value() {}
     dense_container_field( ContainerType & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -768,7 +768,7 @@ namespace viennagrid
 
     typedef typename access_type::id_type::base_id_type offset_type;
 
-    dense_container_field() : default_value() {}
+    dense_container_field() : container(0), default_value() {}
     dense_container_field( ContainerType const & container_ ) : container(&container_), default_value() {}
     dense_container_field( ContainerType const & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -828,7 +828,7 @@ namespace viennagrid
     typedef value_type *         pointer;
     typedef value_type const *   const_pointer;
 
-    std_map_field() : default_value() {}
+    std_map_field() : container(0), default_value() {}
     std_map_field( ContainerType & container_ ) : container(&container_), default_value() {}
     std_map_field( ContainerType & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -897,7 +897,7 @@ namespace viennagrid
     typedef value_type const *         pointer;
     typedef value_type const *   const_pointer;
 
-    std_map_field() : default_value() {}
+    std_map_field() : container(0), default_value() {}
     std_map_field( ContainerType const & container_ ) : container(&container_), default_value() {}
     std_map_field( ContainerType const & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
-- 
2.43.0


From 43e5f94f253570508d2867e29990566ff3812bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:10 +0000
Subject: [PATCH 27/58] fix: dynamic accessor wrappers forward to the wrapped
 accessor

---
 viennagrid/accessor.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 0081891..1b23f22 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -622,11 +622,11 @@ namespace viennagrid
     virtual pointer find( access_type const & element ) { return accessor.find(element); }
     virtual const_pointer find( access_type const & element ) const { return accessor.find(element); }
 
-    virtual reference operator()( access_type const & element )       { return access(element); }
-    virtual const_reference operator()( access_type const & element ) const { return access(element); }
+    virtual reference operator()( access_type const & element )       { return accessor(element); }
+    virtual const_reference operator()( access_type const & element ) const { return accessor(element); }
 
-    virtual reference at( access_type const & element ) { return accessor.access(element); }
-    virtual const_reference at( access_type const & element ) const { return accessor.access(element); }
+    virtual reference at( access_type const & element ) { return accessor.at(element); }
+    virtual const_reference at( access_type const & element ) const { return accessor.at(element); }
 
   private:
     AccessorType accessor;
@@ -652,8 +652,8 @@ namespace viennagrid
     dynamic_accessor_wrapper(AccessorType accessor_) : accessor(accessor_) {}
 
     virtual const_pointer find( access_type const & element ) const { return accessor.find(element); }
-    virtual const_reference operator()( access_type const & element ) const { return access(element); }
-    virtual const_reference at( access_type const & element ) const { return accessor.access(element); }
+    virtual const_reference operator()( access_type const & element ) const { return accessor(element); }
+    virtual const_reference at( access_type const & element ) const { return accessor.at(element); }
 
   private:
     AccessorType accessor;
-- 
2.43.0


From 74ede74a3ceafe368e359f031119fee16a91362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:10 +0000
Subject: [PATCH 28/58] fix: at() of map accessors and fields throws if there
 is no data

---
 viennagrid/accessor.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 1b23f22..f47669b 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -369,7 +369,9 @@ namespace viennagrid
 
     reference at(AccessType const & element)
     {
-      return (*this)(element);
+      typename container_type::iterator it = (*container).find( unpack(element) );
+      if (it == (*container).end()) throw std::out_of_range("std_map_accessor::at() failed");
+      return it->second;
     }
 
     const_reference at(AccessType const & element) const
@@ -863,7 +865,9 @@ namespace viennagrid
 
     reference at(AccessType const & element)
     {
-      return (*this)(element);
+      typename container_type::iterator it = (*container).find( unpack(element) );
+      if (it == (*container).end()) throw std::out_of_range("std_map_field::at() failed");
+      return it->second;
     }
 
     const_reference at(AccessType const & element) const
-- 
2.43.0


From b7187d476c6ab3fba33aa41e625f3dcf7eec2960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:15 +0000
Subject: [PATCH 29/58] fix: VTK reader does not read past the end of vector
 data registered for a segment

---
 viennagrid/io/vtk_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 40a5776..9739659 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -542,7 +542,7 @@ namespace viennagrid
           }
           else if (current_registered_segment_vertex_vector_data.find(name) != current_registered_segment_vertex_vector_data.end())
           {
-            for (std::size_t i=0; i<container.second.size(); ++i)
+            for (std::size_t i=0; i<container.second.size()/3; ++i)
             {
               std::size_t global_vertex_id = local_to_global_map[seg_id][i];
               VertexType const & vertex = viennagrid::elements<viennagrid::vertex_tag>(mesh_obj)[global_vertex_id];
@@ -636,7 +636,7 @@ namespace viennagrid
           }
           else if (current_registered_segment_cell_vector_data.find(name) != current_registered_segment_cell_vector_data.end())
           {
-            for (std::size_t i=0; i<container.second.size(); ++i)
+            for (std::size_t i=0; i<container.second.size()/3; ++i)
             {
               CellType const & cell = viennagrid::dereference_handle( segment, local_cell_handle[seg_id][i] );
 
-- 
2.43.0


From 392a5aa5a80cc99ad77383ee2cf5117b4487883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:15 +0000
Subject: [PATCH 30/58] fix: VTK reader does not carry the number of components
 over to the next data array

---
 viennagrid/io/vtk_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 9739659..a71c932 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -351,7 +351,6 @@ namespace viennagrid
                              NameContainerType & data_names_vector)
       {
         std::string name;
-        std::size_t components = 1;
 
         xml_tag<> tag;
 
@@ -362,6 +361,7 @@ namespace viennagrid
           tag.check_attribute("name", "");
           name = tag.get_value("name");
 
+          std::size_t components = 1;
           if (tag.has_attribute("numberofcomponents"))
             components = static_cast<std::size_t>(atoi(tag.get_value("numberofcomponents").c_str()));
 
-- 
2.43.0


From f7b2cd95b78f5b239ceee872aea52f00dc921473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:00 +0000
Subject: [PATCH 31/58] fix: import_vtk and export_vtk compile

---
 viennagrid/io/vtk_reader.hpp | 7 +++++--
 viennagrid/io/vtk_writer.hpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index a71c932..90e099d 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -18,6 +18,7 @@
  *  @brief    This is a simple vtk-reader implementation. Refer to the vtk-standard (cf. http://www.vtk.org/pdf/file-formats.pdf) and make sure the same order of XML tags is preserved.
  */
 
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -1233,7 +1234,8 @@ namespace viennagrid
     int import_vtk(MeshType & mesh_obj, SegmentationType & segmentation, std::string const & filename)
     {
       vtk_reader<MeshType, SegmentationType> vtk_reader;
-      return vtk_reader(mesh_obj, segmentation, filename);
+      vtk_reader(mesh_obj, segmentation, filename);
+      return EXIT_SUCCESS;
     }
 
     /** @brief Convenience function for importing a mesh using a single line of code. */
@@ -1241,7 +1243,8 @@ namespace viennagrid
     int import_vtk(MeshType & mesh_obj, std::string const & filename)
     {
       vtk_reader<MeshType> vtk_reader;
-      return vtk_reader(mesh_obj, filename);
+      vtk_reader(mesh_obj, filename);
+      return EXIT_SUCCESS;
     }
 
 
diff --git a/viennagrid/io/vtk_writer.hpp b/viennagrid/io/vtk_writer.hpp
index c59dec9..b97c439 100644
--- a/viennagrid/io/vtk_writer.hpp
+++ b/viennagrid/io/vtk_writer.hpp
@@ -14,6 +14,7 @@
 ======================================================================= */
 
 
+#include <cstdlib>
 #include <fstream>
 #include <sstream>
 #include <iostream>
@@ -702,7 +703,8 @@ namespace viennagrid
     int export_vtk(MeshType const & mesh_obj, SegmentationType const & segmentation, std::string const & filename)
     {
       vtk_writer<MeshType> vtk_writer;
-      return vtk_writer(mesh_obj, segmentation, filename);
+      vtk_writer(mesh_obj, segmentation, filename);
+      return EXIT_SUCCESS;
     }
 
     /** @brief Convenience function that exports a mesh to file directly. Does not export quantities */
@@ -710,7 +712,8 @@ namespace viennagrid
     int export_vtk(MeshType const & mesh_obj, std::string const & filename)
     {
       vtk_writer<MeshType> vtk_writer;
-      return vtk_writer(mesh_obj, filename);
+      vtk_writer(mesh_obj, filename);
+      return EXIT_SUCCESS;
     }
 
 
-- 
2.43.0


From 22602feef83b8080b4af334a4ba1001b74590c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:00 +0000
Subject: [PATCH 32/58] fix: VTK reader reports problems with a .vtu file to
 the caller

---
 viennagrid/io/vtk_reader.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 90e099d..94dbdc6 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -190,6 +190,10 @@ namespace viennagrid
       /** @brief Opens a file */
       void openFile(std::string const & filename)
       {
+        if (reader.is_open())   // left open by a previous read which failed
+          reader.close();
+        reader.clear();
+
         reader.open(filename.c_str());
         if(!reader)
         {
@@ -790,6 +794,7 @@ namespace viennagrid
         catch (std::exception const & ex) {
           std::cerr << "Problems while reading file " << filename << std::endl;
           std::cerr << "what(): " << ex.what() << std::endl;
+          throw;
         }
 
       }
-- 
2.43.0


From c1d5415e67acf5f6eeb93d7bc81ab4c91431609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:00 +0000
Subject: [PATCH 33/58] fix: VTK reader stops at the end of a truncated file

---
 viennagrid/io/vtk_reader.hpp | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 94dbdc6..b546840 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -234,19 +234,26 @@ namespace viennagrid
         }
       }
 
+      /** @brief Reads the next token of a data array. Throws a bad_file_format_exception if there is none */
+      void readToken(std::string & token)
+      {
+        if ( !(reader >> token) )
+          throw bad_file_format_exception("* ViennaGrid: vtk_reader::readToken(): Unexpected end of file!");
+      }
+
       /** @brief Reads the coordinates of the points/vertices in the mesh */
       void readNodeCoordinates(std::size_t nodeNum, std::size_t numberOfComponents, segment_id_type seg_id)
       {
         double nodeCoord;
-        local_to_global_map[seg_id].resize(nodeNum);
-
         for(std::size_t i = 0; i < nodeNum; i++)
         {
           PointType p;
 
           for(std::size_t j = 0; j < numberOfComponents; j++)
           {
-            reader >> nodeCoord;
+            if ( !(reader >> nodeCoord) )
+              throw bad_file_format_exception("* ViennaGrid: vtk_reader::readNodeCoordinates(): Too few point coordinates!");
+
             if (j < static_cast<std::size_t>(geometric_dim))
               p[j] = nodeCoord;
           }
@@ -257,11 +264,11 @@ namespace viennagrid
             std::size_t new_global_id = global_points.size();
             global_points.insert( std::make_pair(p, new_global_id) );
             global_points_2.insert( std::make_pair(new_global_id, p) );
-            local_to_global_map[seg_id][i] = new_global_id;
+            local_to_global_map[seg_id].push_back(new_global_id);
           }
           else
           {
-            local_to_global_map[seg_id][i] = global_points[p];
+            local_to_global_map[seg_id].push_back(global_points[p]);
           }
         }
       }
@@ -271,7 +278,7 @@ namespace viennagrid
       {
         std::size_t cellNode = 0;
         std::string token;
-        reader >> token;
+        readToken(token);
 
         while (token != "</DataArray>")
         {
@@ -280,7 +287,7 @@ namespace viennagrid
           cellNode = static_cast<std::size_t>(atoi(token.c_str()));
           local_cell_vertices[seg_id].push_back(cellNode);
 
-          reader >> token;
+          readToken(token);
         }
       }
 
@@ -294,7 +301,7 @@ namespace viennagrid
 
           std::string token;
           std::size_t offset = 0;
-          reader >> token;
+          readToken(token);
 
           while(token != "</DataArray>")
           {
@@ -304,7 +311,7 @@ namespace viennagrid
             local_cell_offsets[seg_id].push_back(offset);
 
             //std::cout << "Vertex#: " << offset << std::endl;
-            reader >> token;
+            readToken(token);
           }
       }
 
@@ -320,7 +327,7 @@ namespace viennagrid
 #ifndef NDEBUG
           long type = 0;
 #endif
-          reader >> token;
+          readToken(token);
 
           while(token != "</DataArray>")
           {
@@ -330,7 +337,7 @@ namespace viennagrid
             assert(type == detail::ELEMENT_TAG_TO_VTK_TYPE<CellTag>::value && "Error in VTK reader: Type mismatch!");
 #endif
             //std::cout << "Vertex#: " << offset << std::endl;
-            reader >> token;
+            readToken(token);
           }
       }
 
@@ -338,12 +345,12 @@ namespace viennagrid
       void readData(std::deque<double> & container)
       {
         std::string token;
-        reader >> token;
+        readToken(token);
 
         while (string_to_lower(token) != "</dataarray>")
         {
           container.push_back( atof(token.c_str()) );
-          reader >> token;
+          readToken(token);
         }
       }
 
-- 
2.43.0


From 49b4074b08bbc867d5e2c6f29b552180773dcc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:00 +0000
Subject: [PATCH 34/58] fix: VTK reader reports invalid cell data by
 exceptions, also in release builds

---
 viennagrid/io/vtk_reader.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index b546840..ea52c9e 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -282,7 +282,8 @@ namespace viennagrid
 
         while (token != "</DataArray>")
         {
-          assert( strChecker::myIsNumber(token) && "Cell vertex index is not a number!" );
+          if ( !strChecker::myIsNumber(token) )
+            throw bad_file_format_exception("* ViennaGrid: vtk_reader: Cell vertex index is not a number!");
 
           cellNode = static_cast<std::size_t>(atoi(token.c_str()));
           local_cell_vertices[seg_id].push_back(cellNode);
@@ -305,7 +306,8 @@ namespace viennagrid
 
           while(token != "</DataArray>")
           {
-            assert( strChecker::myIsNumber(token) && "Cell offset is not a number!" );
+            if ( !strChecker::myIsNumber(token) )
+              throw bad_file_format_exception("* ViennaGrid: vtk_reader: Cell offset is not a number!");
 
             offset = static_cast<std::size_t>(atoi(token.c_str()));
             local_cell_offsets[seg_id].push_back(offset);
@@ -324,18 +326,16 @@ namespace viennagrid
           //****************************************************************************
 
           std::string token;
-#ifndef NDEBUG
           long type = 0;
-#endif
           readToken(token);
 
           while(token != "</DataArray>")
           {
-            assert( strChecker::myIsNumber(token) && "Cell type is not a number!" );
-#ifndef NDEBUG
+            if ( !strChecker::myIsNumber(token) )
+              throw bad_file_format_exception("* ViennaGrid: vtk_reader: Cell type is not a number!");
             type = atoi(token.c_str());
-            assert(type == detail::ELEMENT_TAG_TO_VTK_TYPE<CellTag>::value && "Error in VTK reader: Type mismatch!");
-#endif
+            if (type != detail::ELEMENT_TAG_TO_VTK_TYPE<CellTag>::value)
+              throw bad_file_format_exception("* ViennaGrid: vtk_reader: Type mismatch!");
             //std::cout << "Vertex#: " << offset << std::endl;
             readToken(token);
           }
@@ -874,7 +874,8 @@ namespace viennagrid
 
         closeFile();
 
-        assert(filenames.size() > 0 && "No segments in pvd-file specified!");
+        if (filenames.empty())
+          throw bad_file_format_exception("* ViennaGrid: vtk_reader::process_pvd(): No segments in pvd-file specified!");
 
         //
         // Step 2: Parse .vtu files:
-- 
2.43.0


From 92ac3c2edc95e96b2ab2157ff50145df5e6cb53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:00 +0000
Subject: [PATCH 35/58] fix: VTK reader checks indices, offsets and the amount
 of data

---
 viennagrid/io/vtk_reader.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index ea52c9e..f1579a3 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -428,6 +428,9 @@ namespace viennagrid
 
         std::deque<std::size_t> const & offsets = local_cell_offsets[seg_id];
 
+        if (offsets.size() < local_cell_num[seg_id])
+          throw bad_file_format_exception("* ViennaGrid: vtk_reader::setupCells(): Too few cell offsets!");
+
         for (std::size_t i = 0; i < local_cell_num[seg_id]; i++)
         {
           //*************************************************
@@ -446,6 +449,8 @@ namespace viennagrid
             numVertices = offsets[i]-offsets[i-1];
           }
 
+          if ( numVertices != static_cast<std::size_t>(boundary_elements<CellTag, vertex_tag>::num) || offsets[i] > local_cell_vertices[seg_id].size() )
+            throw bad_file_format_exception("* ViennaGrid: vtk_reader::setupCells(): Invalid cell offset!");
 
           //****************************************************
           // read out the node indices form the "cells"-vector
@@ -460,6 +465,9 @@ namespace viennagrid
           {
             std::size_t reordered_j = reorderer(j);
             std::size_t local_index = local_cell_vertices[seg_id][reordered_j + offsetIdx];
+            if (local_index >= local_to_global_map[seg_id].size())
+              throw bad_file_format_exception("* ViennaGrid: vtk_reader::setupCells(): Invalid vertex index!");
+
             std::size_t global_vertex_index = local_to_global_map[seg_id][local_index];
 
             cell_vertex_handles[j] = viennagrid::elements<viennagrid::vertex_tag>(mesh_obj).handle_at(global_vertex_index);
@@ -496,6 +504,9 @@ namespace viennagrid
       {
         std::string const & name = container.first;
 
+        if (container.second.size() != num_components * local_to_global_map[seg_id].size())
+          throw bad_file_format_exception("* ViennaGrid: vtk_reader::setupDataVertex(): Invalid number of values for quantity " + name + "!");
+
         if (num_components == 1)
         {
           VertexScalarOutputFieldContainer & current_registered_segment_vertex_scalar_data = registered_segment_vertex_scalar_data[seg_id];
@@ -594,6 +605,9 @@ namespace viennagrid
       {
         std::string const & name = container.first;
 
+        if (container.second.size() != num_components * local_cell_handle[seg_id].size())
+          throw bad_file_format_exception("* ViennaGrid: vtk_reader::setupDataCell(): Invalid number of values for quantity " + name + "!");
+
         if (num_components == 1)
         {
           CellScalarOutputFieldContainer & current_registered_segment_cell_scalar_data = registered_segment_cell_scalar_data[seg_id];
-- 
2.43.0


From 3ee4fe901647fd7d3272feeb0d35ddabd2e9ec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:14 +0000
Subject: [PATCH 36/58] fix: VTK reader accepts vector data for points without
 cells and for repeated cells

---
 viennagrid/io/vtk_reader.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index f1579a3..fd1915c 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -496,11 +496,7 @@ namespace viennagrid
 
       /** @brief Writes data for vertices to the ViennaGrid mesh using ViennaData */
       template <typename ContainerType>
-      void setupDataVertex(MeshType & mesh_obj, SegmentHandleType &
-#ifndef NDEBUG
-        segment
-#endif
-        , segment_id_type seg_id, ContainerType const & container, std::size_t num_components)
+      void setupDataVertex(MeshType & mesh_obj, SegmentHandleType &, segment_id_type seg_id, ContainerType const & container, std::size_t num_components)
       {
         std::string const & name = container.first;
 
@@ -582,7 +578,6 @@ namespace viennagrid
             std::cout << "* vtk_reader::operator(): Reading vector quantity "
                       << container.first << " to vertices." << std::endl;
             #endif
-            assert( 3 * viennagrid::elements<viennagrid::vertex_tag>(segment).size() == container.second.size());
             for (std::size_t i=0; i<container.second.size() / 3; ++i)
             {
               std::size_t global_vertex_id = local_to_global_map[seg_id][i];
@@ -678,7 +673,6 @@ namespace viennagrid
             std::cout << "* vtk_reader::operator(): Reading vector quantity "
                       << container.first << " to vertices." << std::endl;
             #endif
-            assert( 3 * viennagrid::elements<CellTag>(segment).size() == container.second.size());
             for (std::size_t i=0; i<container.second.size() / 3; ++i)
             {
               CellType const & cell = viennagrid::dereference_handle( segment, local_cell_handle[seg_id][i] );
-- 
2.43.0


From b903f0dc8b7fbb3448803c8550ae95ce690e222d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:44 +0000
Subject: [PATCH 37/58] fix: XML attributes may have an empty value

---
 viennagrid/io/xml_tag.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/io/xml_tag.hpp b/viennagrid/io/xml_tag.hpp
index 6539f17..16afb81 100644
--- a/viennagrid/io/xml_tag.hpp
+++ b/viennagrid/io/xml_tag.hpp
@@ -147,7 +147,7 @@ namespace viennagrid
             std::string value = token.substr(pos+2, token.size());
 
             pos = value.rfind('"');
-            if (pos == std::string::npos || pos == 0)
+            if (pos == std::string::npos)
               throw bad_file_format_exception("* ViennaGrid: xml_tag::parse(): Internal XML parse error: XML attribute string not terminated.");
 
             #ifdef VIENNAGRID_DEBUG_IO
-- 
2.43.0


From a2fc6c8f709a7de735017cdedadb9af17a1d84fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:48 +0000
Subject: [PATCH 38/58] fix: netgen reader reports truncated files and invalid
 indices

---
 viennagrid/io/netgen_reader.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/viennagrid/io/netgen_reader.hpp b/viennagrid/io/netgen_reader.hpp
index 0ba1eed..7f5c452 100644
--- a/viennagrid/io/netgen_reader.hpp
+++ b/viennagrid/io/netgen_reader.hpp
@@ -76,8 +76,8 @@ namespace viennagrid
         //
         // Read vertices:
         //
-        reader >> node_num;
-        assert(node_num > 0);
+        if (!(reader >> node_num) || node_num <= 0)
+          throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Positive number of vertices expected.");
 
         #if defined VIENNAGRID_DEBUG_STATUS || defined VIENNAGRID_DEBUG_IO
         std::cout << "* netgen_reader::operator(): Reading " << node_num << " vertices... " << std::endl;
@@ -93,7 +93,8 @@ namespace viennagrid
           PointType p;
 
           for (std::size_t j=0; j<static_cast<std::size_t>(point_dim); j++)
-            reader >> p[j];
+            if (!(reader >> p[j]))
+              throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Vertex coordinate expected.");
 
           viennagrid::make_vertex_with_id( mesh_obj, typename VertexType::id_type(i), p );
         }
@@ -105,7 +106,8 @@ namespace viennagrid
         //
         // Read cells:
         //
-        reader >> cell_num;
+        if (!(reader >> cell_num) || cell_num < 0)
+          throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Number of cells expected.");
 
         #if defined VIENNAGRID_DEBUG_STATUS || defined VIENNAGRID_DEBUG_IO
         std::cout << "* netgen_reader::operator(): Reading " << cell_num << " cells... " << std::endl;
@@ -120,14 +122,16 @@ namespace viennagrid
             throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": EOF encountered while reading cells (segment index expected).");
 
           int segment_index;
-          reader >> segment_index;
+          if (!(reader >> segment_index))
+            throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Segment index of a cell expected.");
 
           for (std::size_t j=0; j<static_cast<std::size_t>(boundary_elements<CellTag, vertex_tag>::num); ++j)
           {
             if (!reader.good())
               throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": EOF encountered while reading cells (cell ID expected).");
 
-            reader >> vertex_num;
+            if (!(reader >> vertex_num) || vertex_num < 1 || vertex_num > static_cast<std::size_t>(node_num))
+              throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Valid vertex index of a cell expected.");
             cell_vertex_handles[j] = viennagrid::vertices(mesh_obj).handle_at(vertex_num-1);
           }
 
-- 
2.43.0


From 07152e0a9699aa73a88fee6fee4374472bb7635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:13 +0000
Subject: [PATCH 39/58] fix: tetgen reader reports incomplete files and unknown
 vertices

---
 viennagrid/io/tetgen_poly_reader.hpp | 52 +++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/viennagrid/io/tetgen_poly_reader.hpp b/viennagrid/io/tetgen_poly_reader.hpp
index 7880e7d..d5b1848 100644
--- a/viennagrid/io/tetgen_poly_reader.hpp
+++ b/viennagrid/io/tetgen_poly_reader.hpp
@@ -127,6 +127,7 @@ namespace viennagrid
         typedef typename result_of::element<MeshT, vertex_tag>::type         VertexType;
         typedef typename result_of::handle<MeshT, vertex_tag>::type          VertexHandleType;
         typedef typename VertexType::id_type VertexIDType;
+        typedef typename result_of::iterator<typename result_of::vertex_range<MeshT>::type>::type  VertexIteratorType;
 
         typedef typename result_of::handle<MeshT, line_tag>::type            LineHandleType;
 
@@ -163,7 +164,9 @@ namespace viennagrid
           throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": EOF encountered when reading information");
 
         current_line.str(tmp); current_line.clear();
-        current_line >> node_num >> dim >> attribute_num >> boundary_marker_num;
+        if (!(current_line >> node_num >> dim))
+          throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Number of nodes and dimension expected");
+        current_line >> attribute_num >> boundary_marker_num;
 
         if (node_num < 0)
           throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY file has less than 0 nodes");
@@ -193,6 +196,9 @@ namespace viennagrid
           for (std::size_t j=0; j<point_dim; j++)
             current_line >> p[j];
 
+          if (!current_line)
+            throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Node ID and coordinates expected");
+
           viennagrid::make_vertex_with_id( mesh_obj, VertexIDType(id), p );
         }
 
@@ -209,7 +215,9 @@ namespace viennagrid
 
 
         current_line.str(tmp); current_line.clear();
-        current_line >> facet_num >> boundary_marker_num;
+        if (!(current_line >> facet_num))
+          throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Number of facets expected");
+        current_line >> boundary_marker_num;
 
         if (facet_num < 0)
           throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY file has less than 0 facets");
@@ -223,14 +231,16 @@ namespace viennagrid
         for (int i=0; i<facet_num; ++i)
         {
           long polygon_num;
-          long hole_num;
+          long hole_num = 0;
 
           if (!get_valid_line(reader, tmp))
             throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": EOF encountered when reading information");
 
 
           current_line.str(tmp); current_line.clear();
-          current_line >> polygon_num >> hole_num;
+          if (!(current_line >> polygon_num))
+            throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Number of polygons expected");
+          current_line >> hole_num;
 
           if (polygon_num < 0)
             throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY facet has less than 0 polygons");
@@ -249,18 +259,25 @@ namespace viennagrid
 
 
             current_line.str(tmp); current_line.clear();
-            current_line >> vertex_num;
+            if (!(current_line >> vertex_num))
+              throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Number of vertices of a polygon expected");
 
-            if (vertex_num < 0)
-              throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY polygon has less than 0 vertices");
+            if (vertex_num < 1)
+              throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY polygon has less than 1 vertex");
 
-            std::vector<VertexHandleType> vertex_handles(static_cast<std::size_t>(vertex_num));
+            std::vector<VertexHandleType> vertex_handles;
 
             for (std::size_t k = 0; k<static_cast<std::size_t>(vertex_num); ++k)
             {
               typename VertexIDType::base_id_type id;
-              current_line >> id;
-              vertex_handles[k] = viennagrid::find( mesh_obj, VertexIDType(id) ).handle();
+              if (!(current_line >> id))
+                throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Vertex ID of a polygon expected");
+
+              VertexIteratorType vit = viennagrid::find( mesh_obj, VertexIDType(id) );
+              if (vit == viennagrid::vertices(mesh_obj).end())
+                throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY polygon refers to an unknown vertex");
+
+              vertex_handles.push_back( vit.handle() );
             }
 
             if (vertex_num == 1)
@@ -298,6 +315,9 @@ namespace viennagrid
             for (std::size_t k=0; k<point_dim; k++)
               current_line >> p[k];
 
+            if (!current_line)
+              throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Number and coordinates of a hole in a facet expected");
+
             hole_points_read.push_back(p);
           }
 
@@ -323,7 +343,8 @@ namespace viennagrid
         }
 
         current_line.str(tmp); current_line.clear();
-        current_line >> hole_num;
+        if (!(current_line >> hole_num))
+          throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Number of holes expected");
 
         if (hole_num < 0)
           throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY file has less than 0 holes");
@@ -342,6 +363,9 @@ namespace viennagrid
           for (std::size_t j=0; j < point_dim; j++)
             current_line >> hole_point[j];
 
+          if (!current_line)
+            throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Number and coordinates of a hole expected");
+
           hole_points.push_back( hole_point );
         }
 
@@ -357,7 +381,8 @@ namespace viennagrid
         }
 
         current_line.str(tmp); current_line.clear();
-        current_line >> segment_num;
+        if (!(current_line >> segment_num))
+          throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Number of regions expected");
 
         if (segment_num < 0)
           throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY file has less than 0 segments");
@@ -377,7 +402,8 @@ namespace viennagrid
           for (std::size_t j=0; j < point_dim; j++)
             current_line >> seed_point[j];
 
-          current_line >> segment_id;
+          if (!(current_line >> segment_id))
+            throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Number, coordinates and ID of a region expected");
 
           seed_points.push_back( std::make_pair(seed_point, segment_id) );
         }
-- 
2.43.0


From 84944530496539f2424f7c32ca8fb16ce48ebcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:13 +0000
Subject: [PATCH 40/58] fix: neper_tess_reader without seed points compiles

---
 viennagrid/io/neper_tess_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/neper_tess_reader.hpp b/viennagrid/io/neper_tess_reader.hpp
index 31a8f3b..e89177f 100644
--- a/viennagrid/io/neper_tess_reader.hpp
+++ b/viennagrid/io/neper_tess_reader.hpp
@@ -44,11 +44,11 @@ namespace viennagrid
        * @param filename      Name of the file
        */
       template <typename MeshT>
-      int operator()(MeshT & mesh_obj, std::string const & filename) const
+      void operator()(MeshT & mesh_obj, std::string const & filename) const
       {
         std::vector< std::pair<typename viennagrid::result_of::point<MeshT>::type, int> > seed_points;
 
-        return (*this)(mesh_obj, filename, seed_points);
+        (*this)(mesh_obj, filename, seed_points);
       }
 
       /** @brief The functor interface triggering the read operation. Segmentations are not supported in this version.
-- 
2.43.0


From 6688b96714f687e1e3e683e4a2da5df33570d9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:13 +0000
Subject: [PATCH 41/58] fix: neper reader reports incomplete files and unknown
 vertices

---
 viennagrid/io/neper_tess_reader.hpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/viennagrid/io/neper_tess_reader.hpp b/viennagrid/io/neper_tess_reader.hpp
index e89177f..dc1dfbb 100644
--- a/viennagrid/io/neper_tess_reader.hpp
+++ b/viennagrid/io/neper_tess_reader.hpp
@@ -101,14 +101,15 @@ namespace viennagrid
 
             int num_vertices;
             current_line.str(tmp); current_line.clear();
-            current_line >> num_vertices;
+            if (!(current_line >> num_vertices))
+              throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Number of vertices expected.");
 
             for (int i = 0; i < num_vertices; ++i)
             {
               std::getline(reader, tmp);
               int vertex_id;
               current_line.str(tmp); current_line.clear();
-              current_line >> vertex_id;
+              bool vertex_id_valid = !(current_line >> vertex_id).fail();
 
               std::getline(reader, tmp);
               std::getline(reader, tmp);
@@ -118,6 +119,9 @@ namespace viennagrid
               for (int j = 0; j < std::min(point_dim,3); ++j)
                 current_line >> p[j];
 
+              if (!reader || !current_line || !vertex_id_valid)
+                throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": ID and coordinates of a vertex expected.");
+
               vertices[vertex_id] = viennagrid::make_vertex(mesh_obj, p);
             }
           }
@@ -130,7 +134,8 @@ namespace viennagrid
 
             int num_faces;
             current_line.str(tmp); current_line.clear();
-            current_line >> num_faces;
+            if (!(current_line >> num_faces))
+              throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Number of faces expected.");
 
             for (int i = 0; i < num_faces; ++i)
             {
@@ -142,11 +147,16 @@ namespace viennagrid
               int num_vertex_ids;
               std::vector<int> vertex_ids;
               current_line.str(tmp); current_line.clear();
-              current_line >> num_vertex_ids;
-              vertex_ids.resize(num_vertex_ids);
+              if (!reader || !(current_line >> num_vertex_ids) || num_vertex_ids < 1)
+                throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Number of vertices of a face expected.");
 
               for (int j = 0; j < num_vertex_ids; ++j)
-                current_line >> vertex_ids[j];
+              {
+                int vertex_id;
+                if (!(current_line >> vertex_id) || vertices.find(vertex_id) == vertices.end())
+                  throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": ID of a vertex expected.");
+                vertex_ids.push_back(vertex_id);
+              }
 
               std::vector<LineHandleType> plc_line_handles;
               for (int j = 1; j < num_vertex_ids; ++j)
@@ -200,7 +210,8 @@ namespace viennagrid
 
             int num_polyhedrons;
             current_line.str(tmp); current_line.clear();
-            current_line >> num_polyhedrons;
+            if (!(current_line >> num_polyhedrons))
+              throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Number of polyhedrons expected.");
 
             for (int i = 0; i < num_polyhedrons; ++i)
             {
@@ -213,6 +224,9 @@ namespace viennagrid
               for (int j = 0; j < std::min(point_dim,3); ++j)
                 current_line >> p[j];
 
+              if (!reader || !current_line)
+                throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": ID and seed point of a polyhedron expected.");
+
               seed_points.push_back( std::make_pair(p, polyherdon_id) );
               std::getline(reader, tmp);
               std::getline(reader, tmp);
-- 
2.43.0


From 9b447914faeef420444c576ee426bb075822c441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:28 +0000
Subject: [PATCH 42/58] fix: bnd reader reports unreadable files

---
 viennagrid/io/bnd_reader.hpp | 136 +++++++++++++++++++----------------
 1 file changed, 75 insertions(+), 61 deletions(-)

diff --git a/viennagrid/io/bnd_reader.hpp b/viennagrid/io/bnd_reader.hpp
index 023b9c0..e20782c 100644
--- a/viennagrid/io/bnd_reader.hpp
+++ b/viennagrid/io/bnd_reader.hpp
@@ -142,7 +142,8 @@ namespace viennagrid
         operator result_type()
         {
           result_type tmp;
-          ss >> tmp;
+          if (!(ss >> tmp))
+            throw std::runtime_error("lexical_cast: conversion failed");
           return tmp;
         }
 
@@ -165,7 +166,8 @@ namespace viennagrid
         operator result_type()
         {
           result_type tmp;
-          ss >> std::boolalpha >> tmp;
+          if (!(ss >> std::boolalpha >> tmp))
+            throw std::runtime_error("lexical_cast: conversion failed");
           return tmp;
         }
 
@@ -249,6 +251,8 @@ namespace viennagrid
 
         try{
 
+          clear();
+
           std::string token;
 
         #ifdef VIENNAGRID_DEBUG_IO
@@ -257,17 +261,19 @@ namespace viennagrid
           int DIMG;
           while(1)
           {
-            reader >> token;
+            read(reader, token);
             if(token == "dimension")
             {
-               reader >> token;
-               reader >> DIMG;
+               read(reader, token);
+               read(reader, DIMG);
                break;
             }
           }
         #ifdef VIENNAGRID_DEBUG_IO
           std::cout << "geometry dimension: " << DIMG << std::endl;
         #endif
+          if (DIMG != 2 && DIMG != 3)
+            throw std::runtime_error("BND-READER-Error: Geometric dimension has to be 2 or 3");
           dim_geometry = DIMG;
 
         #ifdef VIENNAGRID_DEBUG_IO
@@ -275,11 +281,11 @@ namespace viennagrid
         #endif
           while(1)
           {
-            reader >> token;
+            read(reader, token);
             if(token == "nb_regions")
             {
-               reader >> token;
-               reader >> number_of_regions;
+               read(reader, token);
+               read(reader, number_of_regions);
                break;
             }
           }
@@ -297,7 +303,7 @@ namespace viennagrid
 
           while(1)
           {
-            std::getline(reader, token);
+            read_line(reader, token);
 
             if(token.find("Vertices") != std::string::npos)
             {
@@ -313,17 +319,15 @@ namespace viennagrid
           std::cout << "vertices: " << vertices << std::endl;
         #endif
 
-          geometry.resize(vertices);
-
           point_type coords(DIMG);
 
           for(std::size_t vi = 0; vi < vertices; vi++)
           {
             for (int j=0; j < DIMG; j++)
             {
-              reader >> coords[j];
+              read(reader, coords[j]);
             }
-            geometry[vi] = coords;
+            geometry.push_back(coords);
           }
 
         #ifdef VIENNAGRID_DEBUG_IO
@@ -343,7 +347,7 @@ namespace viennagrid
 
           while(1)
           {
-            std::getline(reader, token);
+            read_line(reader, token);
 
             if(token.find("Edges") != std::string::npos)
             {
@@ -359,14 +363,17 @@ namespace viennagrid
           std::cout << "edges: " << edges << std::endl;
         #endif
 
-          edge_cont.resize(edges);
-
           edge_type edge(2);
           for(std::size_t i = 0; i < edges; i++)
           {
-            reader >> edge[0];
-            reader >> edge[1];
-            edge_cont[i] = edge;
+            read(reader, edge[0]);
+            read(reader, edge[1]);
+            for (std::size_t j = 0; j < 2; ++j)
+            {
+              if (edge[j] < 0 || static_cast<std::size_t>(edge[j]) >= vertices)
+                throw std::runtime_error("BND-READER-Error: Edge refers to an unknown vertex");
+            }
+            edge_cont.push_back(edge);
           }
 
         #ifdef VIENNAGRID_DEBUG_IO
@@ -379,7 +386,7 @@ namespace viennagrid
 
              while(1)
              {
-               std::getline(reader, token);
+               read_line(reader, token);
 
                if(token.find("Faces") != std::string::npos)
                {
@@ -395,21 +402,21 @@ namespace viennagrid
              std::cout << "faces: " << faces << std::endl;
            #endif
 
-             polygon_cont.resize(faces);
-
              std::size_t face_dim = 0;
 
              for(std::size_t fi = 0; fi < faces; fi++)
              {
-               reader >> face_dim; // number of vertices of this face
+               read(reader, face_dim); // number of vertices of this face
 
                //std::cout << "face dim: " << face_dim << std::endl;
 
-               polygon_cont[fi].resize(face_dim);
+               polygon_cont.push_back(polygon_type());
 
                for (std::size_t j=0; j < face_dim; j++)
                {
-                 reader >> polygon_cont[fi][j];
+                 index_type edge_index;
+                 read(reader, edge_index);
+                 polygon_cont.back().push_back(edge_index);
                }
              }
 
@@ -426,7 +433,7 @@ namespace viennagrid
 
           while(1)
           {
-            std::getline(reader, token);
+            read_line(reader, token);
 
             if(token.find("Elements") != std::string::npos)
             {
@@ -442,16 +449,15 @@ namespace viennagrid
           std::cout << "elements: " << elements << std::endl;
         #endif
 
-          domain.resize(elements);
-
           for(std::size_t i = 0; i < elements; i++)
           {
-            reader >> token; // element type, ie, 10 ... polyhedron
+            read(reader, token); // element type, ie, 10 ... polyhedron
 
             if(token == "10") // aka a 3d bnd file segment
             {
               std::size_t element_faces = 0;
-              reader >> element_faces;
+              read(reader, element_faces);
+              domain.push_back(polygon_container_type());
 
             #ifdef VIENNAGRID_DEBUG_IO
               std::cout << "  type: segment-polyhedron" << std::endl;
@@ -461,10 +467,10 @@ namespace viennagrid
               for(std::size_t f = 0; f < element_faces; f++)
               {
                 index_type face;
-                reader >> face;
+                read(reader, face);
                 index_type mapped_face = map(face);
 
-                polygon_type polygon = polygon_cont[mapped_face];
+                polygon_type polygon = polygon_cont.at(mapped_face);
 
                 polygon_type polygon_new;
                 std::map<index_type, bool>  uniquer;
@@ -474,7 +480,7 @@ namespace viennagrid
                   index_type vertex = polygon[vi];
                   index_type mapped_vertex = map(vertex);
 
-                  edge_type edge = edge_cont[mapped_vertex];
+                  edge_type edge = edge_cont.at(mapped_vertex);
 
                   if(vertex < 0) std::reverse(edge.begin(),edge.end());
 
@@ -490,13 +496,14 @@ namespace viennagrid
                   }
                 }
                 //std::cout << "adapt: " << polygon_new;
-                domain[i].push_back(polygon_new);
+                domain.back().push_back(polygon_new);
               }
             }
             else if(token == "4")  // aka a 2d bnd file segment
             {
               std::size_t element_faces = 0;
-              reader >> element_faces;
+              read(reader, element_faces);
+              domain.push_back(polygon_container_type());
 
             #ifdef VIENNAGRID_DEBUG_IO
               std::cout << "  type: segment-polygon" << std::endl;
@@ -506,14 +513,14 @@ namespace viennagrid
               for(std::size_t f = 0; f < element_faces; f++)
               {
                 index_type face;
-                reader >> face;
+                read(reader, face);
                 index_type mapped_face = map(face);
 
-                edge_type edge = edge_cont[mapped_face];
+                edge_type edge = edge_cont.at(mapped_face);
 
                 //std::cout << "adapt: " << polygon_new;
                 //std::cout << "adding edge: " << edge[0] << " " << edge[1] << std::endl;
-                domain[i].push_back(edge);
+                domain.back().push_back(edge);
               }
 
             }
@@ -527,14 +534,11 @@ namespace viennagrid
               std::cout << "  type: contact-triangle" << std::endl;
             #endif
               contact_face_type contact_face(3);
-              reader >> contact_face[0];
-              reader >> contact_face[1];
-              reader >> contact_face[2];
+              read(reader, contact_face[0]);
+              read(reader, contact_face[1]);
+              read(reader, contact_face[2]);
               //std::cout << contact_face[0] << " " << contact_face[1] << " " << contact_face[2] << std::endl;
               contact_face_cont.push_back(contact_face);
-
-              // we have to reduce the domain size, as this is not a valid segment
-              domain.resize(domain.size()-1);
             }
             else if(token == "1") // aka a 2d bnd file contact
             {
@@ -545,13 +549,10 @@ namespace viennagrid
               std::cout << "  type: contact-line" << std::endl;
             #endif
               contact_face_type contact_face(2);
-              reader >> contact_face[0];
-              reader >> contact_face[1];
+              read(reader, contact_face[0]);
+              read(reader, contact_face[1]);
               //std::cout << contact_face[0] << " " << contact_face[1] << std::endl;
               contact_face_cont.push_back(contact_face);
-
-              // we have to reduce the domain size, as this is not a valid segment
-              domain.resize(domain.size()-1);
             }
             else
             {
@@ -572,11 +573,9 @@ namespace viennagrid
           segment_id_cont.resize(domainsize);
           std::size_t region_cnt = 0;
 
-          contact_groups.resize(number_of_regions-domainsize);
-
           while(1)
           {
-            std::getline(reader, token);
+            read_line(reader, token);
 
             if(token.find("Region") != std::string::npos)
             {
@@ -590,7 +589,7 @@ namespace viennagrid
 
               while(1)
               {
-                std::getline(reader, token);
+                read_line(reader, token);
 
                 if(token.find("material") != std::string::npos)
                 {
@@ -604,7 +603,7 @@ namespace viennagrid
                  std::size_t elements = 0;
                   while(1)
                   {
-                    std::getline(reader, token);
+                    read_line(reader, token);
 
                     if(token.find("Elements") != std::string::npos)
                     {
@@ -620,20 +619,21 @@ namespace viennagrid
                   {
                     // store the contact name
                     contact_id_cont.push_back(name);
+                    contact_groups.push_back(contact_face_container_type());
 
                     for(std::size_t i = 0; i < elements; i++)
                     {
                       // read the elment id
-                      reader >> ei;
+                      read(reader, ei);
 
                       // determine the contact cells
                       if(DIMG == 2)
                       {
-                        contact_groups[contact_id_cont.size()-1].push_back(contact_face_cont[ei-domainsize]);
+                        contact_groups[contact_id_cont.size()-1].push_back(contact_face_cont.at(ei-domainsize));
                       }
                       else // 3D
                       {
-                        contact_face_type edge_index_cont = contact_face_cont[ei-domainsize];
+                        contact_face_type edge_index_cont = contact_face_cont.at(ei-domainsize);
 
                         std::map<index_type, bool>  uniquer;
                         contact_face_type contact_triangle;
@@ -642,7 +642,7 @@ namespace viennagrid
                         {
                           index_type edge_index = edge_index_cont[ei];
                           index_type mapped_edge_index = map(edge_index);
-                          edge_type edge = edge_cont[mapped_edge_index];
+                          edge_type edge = edge_cont.at(mapped_edge_index);
                           if(edge_index < 0) std::reverse(edge.begin(),edge.end());
 
                           if(!uniquer[edge[0]])
@@ -666,10 +666,10 @@ namespace viennagrid
                     for(std::size_t i = 0; i < elements; i++)
                     {
                       // read the elment id
-                      reader >> ei;
+                      read(reader, ei);
 
                       // store the name and material info on the related segment id
-                      segment_id_cont[ei] = std::pair<std::string, std::string>(name, material);
+                      segment_id_cont.at(ei) = std::pair<std::string, std::string>(name, material);
                     }
                   }
                   break;
@@ -681,6 +681,7 @@ namespace viennagrid
 
         } catch (...) {
           std::cerr << "Problems while reading file " << filename << std::endl;
+          return EXIT_FAILURE;
         }
 
         return EXIT_SUCCESS;
@@ -777,10 +778,23 @@ namespace viennagrid
       }
 
     private:
+      template<typename T>
+      void read(std::ifstream & reader, T & value)
+      {
+        if (!(reader >> value))
+          throw std::runtime_error("BND-READER-Error: Unexpected end of file or invalid value");
+      }
+
+      void read_line(std::ifstream & reader, std::string & line)
+      {
+        if (!std::getline(reader, line))
+          throw std::runtime_error("BND-READER-Error: Unexpected end of file");
+      }
+
       index_type map(index_type index)
       {
         if(index >= 0) return index;
-        else           return -(index)-1;  // this is the specific mapping for negativ face and element values
+        else           return -(index+1);  // this is the specific mapping for negativ face and element values
       }
 
       geometry_container_type       geometry;
-- 
2.43.0


From 8be2464d732cdadf0ee1bdfa444c8ed98dc355b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:31 +0000
Subject: [PATCH 43/58] fix: VTK reader does not truncate large indices

---
 viennagrid/io/vtk_reader.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index fd1915c..e7cc19f 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -285,7 +285,7 @@ namespace viennagrid
           if ( !strChecker::myIsNumber(token) )
             throw bad_file_format_exception("* ViennaGrid: vtk_reader: Cell vertex index is not a number!");
 
-          cellNode = static_cast<std::size_t>(atoi(token.c_str()));
+          cellNode = static_cast<std::size_t>(strtol(token.c_str(), NULL, 10));
           local_cell_vertices[seg_id].push_back(cellNode);
 
           readToken(token);
@@ -309,7 +309,7 @@ namespace viennagrid
             if ( !strChecker::myIsNumber(token) )
               throw bad_file_format_exception("* ViennaGrid: vtk_reader: Cell offset is not a number!");
 
-            offset = static_cast<std::size_t>(atoi(token.c_str()));
+            offset = static_cast<std::size_t>(strtol(token.c_str(), NULL, 10));
             local_cell_offsets[seg_id].push_back(offset);
 
             //std::cout << "Vertex#: " << offset << std::endl;
@@ -333,7 +333,7 @@ namespace viennagrid
           {
             if ( !strChecker::myIsNumber(token) )
               throw bad_file_format_exception("* ViennaGrid: vtk_reader: Cell type is not a number!");
-            type = atoi(token.c_str());
+            type = strtol(token.c_str(), NULL, 10);
             if (type != detail::ELEMENT_TAG_TO_VTK_TYPE<CellTag>::value)
               throw bad_file_format_exception("* ViennaGrid: vtk_reader: Type mismatch!");
             //std::cout << "Vertex#: " << offset << std::endl;
-- 
2.43.0


From 113c9bce40d3c3670165df72a52f325abfbe72e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:35 +0000
Subject: [PATCH 44/58] fix: OpenDX writer refers to vertices by their position
 in the file

---
 viennagrid/io/opendx_writer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/viennagrid/io/opendx_writer.hpp b/viennagrid/io/opendx_writer.hpp
index 3fd7723..a757434 100644
--- a/viennagrid/io/opendx_writer.hpp
+++ b/viennagrid/io/opendx_writer.hpp
@@ -127,11 +127,14 @@ namespace viennagrid
           writer << pointnum << " data follows" << std::endl;
 
           //Nodes:
+          std::map<typename VertexType::id_type, std::size_t> vertex_index_map;
+          std::size_t vertex_index = 0;
           VertexRange vertices = viennagrid::elements<vertex_tag>(mesh_obj);
           for (VertexIterator vit = vertices.begin();
               vit != vertices.end();
               ++vit)
           {
+            vertex_index_map[(*vit).id()] = vertex_index++;
             PointWriter<geometric_dim>::write(writer, viennagrid::point( mesh_obj, *vit ) );
             writer << std::endl;
           }
@@ -152,7 +155,7 @@ namespace viennagrid
                 ++vocit)
             {
               VertexType const & vertex = *vocit;
-              writer << vertex.id() << " ";
+              writer << vertex_index_map[vertex.id()] << " ";
             }
             writer << std::endl;
           }
-- 
2.43.0


From aaba9610cc85017fd4e6023845ff8827f85ce6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:35 +0000
Subject: [PATCH 45/58] fix: mphtxt writer handles tetrahedra without segment

---
 viennagrid/io/mphtxt_writer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/viennagrid/io/mphtxt_writer.hpp b/viennagrid/io/mphtxt_writer.hpp
index aba11b9..12b585a 100644
--- a/viennagrid/io/mphtxt_writer.hpp
+++ b/viennagrid/io/mphtxt_writer.hpp
@@ -402,7 +402,10 @@ namespace viennagrid
           typedef typename viennagrid::result_of::segment_id_range<SegmentationT, TetrahedronType>::type SegmentIDRange;
 
           SegmentIDRange segment_ids = viennagrid::segment_ids( segmentation, *tit );
-          writer << *(segment_ids.begin())+1 << "\n";
+          if (segment_ids.begin() == segment_ids.end())
+            writer << 0 << "\n";
+          else
+            writer << *(segment_ids.begin())+1 << "\n";
         }
 
         writer << "\n";
-- 
2.43.0


From c7c490fcc6ba9c311580b82d19b5de0ec0cfcb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:35 +0000
Subject: [PATCH 46/58] fix: mphtxt and vmesh writers report files which cannot
 be opened

---
 viennagrid/io/mphtxt_writer.hpp | 4 ++++
 viennagrid/io/vmesh_writer.hpp  | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/viennagrid/io/mphtxt_writer.hpp b/viennagrid/io/mphtxt_writer.hpp
index 12b585a..e959445 100644
--- a/viennagrid/io/mphtxt_writer.hpp
+++ b/viennagrid/io/mphtxt_writer.hpp
@@ -21,6 +21,8 @@
 #include "viennagrid/algorithm/boundary.hpp"
 #include "viennagrid/algorithm/geometry.hpp"
 
+#include "viennagrid/io/helper.hpp"
+
 #include "viennagrid/mesh/coboundary_iteration.hpp"
 #include "viennagrid/mesh/neighbor_iteration.hpp"
 
@@ -181,6 +183,8 @@ namespace viennagrid
         else
           ss << filename << ".mphtxt";
         std::ofstream writer(ss.str().c_str());
+        if (!writer.is_open())
+          throw cannot_open_file_exception("* ViennaGrid: mphtxt_writer::operator(): File " + ss.str() + ": Cannot open file!");
 
         // writing the file header
         writer << "# Created by ViennaGrid mphtxt writer\n";
diff --git a/viennagrid/io/vmesh_writer.hpp b/viennagrid/io/vmesh_writer.hpp
index 39ff3a3..f17038e 100644
--- a/viennagrid/io/vmesh_writer.hpp
+++ b/viennagrid/io/vmesh_writer.hpp
@@ -64,6 +64,8 @@ namespace viennagrid
         else
           ss << outputfile << ".vmesh";
         std::ofstream writer(ss.str().c_str());
+        if (!writer.is_open())
+          throw cannot_open_file_exception("* ViennaGrid: vmesh_writer::operator(): File " + ss.str() + ": Cannot open file!");
 
         writer << "<mesh>" << std::endl;
         writer << indent_ << "<file>" << inputfile << "</file>" << std::endl;
-- 
2.43.0


From 952c0968fb30a385b28c3379772f652803b40cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:08 +0000
Subject: [PATCH 47/58] fix: mesh_serializer compiles and refers to vertices by
 position

The header did not compile. Cells referred to vertex IDs, which are not
part of the archive, so meshes whose vertex IDs are not 0..n-1 could not
be restored.
---
 viennagrid/io/serialization.hpp | 38 +++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/viennagrid/io/serialization.hpp b/viennagrid/io/serialization.hpp
index 66c924a..7cf6202 100644
--- a/viennagrid/io/serialization.hpp
+++ b/viennagrid/io/serialization.hpp
@@ -19,11 +19,20 @@
 
 #include "viennagrid/forwards.hpp"
 #include "viennagrid/mesh/mesh.hpp"
+#include "viennagrid/mesh/element_creation.hpp"
 
+#include <cstddef>
+#include <exception>
+#include <map>
+#include <sstream>
+#include <string>
+#include <vector>
 
 #include <boost/archive/text_iarchive.hpp>
 #include <boost/archive/text_oarchive.hpp>
+#include <boost/serialization/access.hpp>
 #include <boost/serialization/base_object.hpp>
+#include <boost/serialization/split_member.hpp>
 #include <boost/serialization/utility.hpp>
 #include <boost/serialization/list.hpp>
 #include <boost/serialization/assume_abstract.hpp>
@@ -82,13 +91,13 @@ namespace viennagrid
       typedef typename viennagrid::result_of::const_vertex_range<CellType>::type           ConstVertexOnCellRange;
       typedef typename viennagrid::result_of::iterator<ConstVertexOnCellRange>::type       ConstVertexOnCellIterator;
 
-      static const int DIMG = PointType::dim;
+      static const int DIMG = viennagrid::result_of::static_size<PointType>::value;
 
       friend class boost::serialization::access;
 
       /** @brief Save function is used to 'read' the data from the mesh */
       template<class Archive>
-      void save(Archive & ar, const unsigned int version) const
+      void save(Archive & ar, const unsigned int /*version*/) const
       {
         if (!mesh_pointer)
           throw bad_serialization_state_exception( "Mesh not loaded into serialzer object" );
@@ -101,9 +110,12 @@ namespace viennagrid
         std::size_t point_size = viennagrid::vertices(mesh_obj).size();
         ar & point_size;
         ConstVertexRange vertices(mesh_obj);
+        std::map<VertexIDType, std::size_t> vertex_positions;
         for (ConstVertexIterator vit = vertices.begin();
              vit != vertices.end(); ++vit)
         {
+          std::size_t position = vertex_positions.size();
+          vertex_positions[vit->id()] = position;
           for(int d = 0; d < DIMG; d++)
             ar & viennagrid::point(*vit)[d];
         }
@@ -126,8 +138,9 @@ namespace viennagrid
           vocit != vertices_on_cell.end();
           ++vocit)
           {
-            std::size_t id = vocit->id().get();
-            ar & id;
+            // cells refer to their vertices by position, because vertex IDs are not preserved
+            std::size_t position = vertex_positions[vocit->id()];
+            ar & position;
           }
         }
         // -----------------------------------------------
@@ -135,7 +148,7 @@ namespace viennagrid
 
       /** @brief Load function is used to 'write' the data to the mesh */
       template<class Archive>
-      void load(Archive & ar, const unsigned int version)
+      void load(Archive & ar, const unsigned int /*version*/)
       {
         if (!mesh_pointer)
           throw bad_serialization_state_exception( "Mesh not loaded into serialzer object" );
@@ -148,13 +161,14 @@ namespace viennagrid
         std::size_t point_size;
         ar & point_size;
 
+        std::vector<VertexHandleType> vertex_handles;
         for(std::size_t i = 0; i < point_size; i++)
         {
           PointType p;
           for(int d = 0; d < DIMG; d++)
             ar & p[d];
 
-          viennagrid::make_vertex( *mesh_pointer, p );
+          vertex_handles.push_back( viennagrid::make_vertex( mesh_obj, p ) );
         }
         // -----------------------------------------------
 
@@ -172,9 +186,11 @@ namespace viennagrid
 
           for (int j=0; j< num_vertices; ++j)
           {
-            std::size_t id;
-            ar & id;
-            vertices[j] = viennagrid::find_by_id( mesh_obj, VertexIDType(id) ).handle();
+            std::size_t position;
+            ar & position;
+            if (position >= vertex_handles.size())
+              throw bad_serialization_state_exception( "Cell refers to a vertex which does not exist" );
+            vertices[j] = vertex_handles[position];
           }
 
           viennagrid::make_cell( mesh_obj, vertices, vertices + num_vertices);
@@ -193,11 +209,11 @@ namespace viennagrid
       mesh_serializer() : mesh_pointer(0) {}
 
       /** @brief The constructor expects a shared pointer on a mesh object and sets the state */
-      mesh_serializer(MeshT & mesh_obj) : mesh_pointer(mesh_obj) {}
+      mesh_serializer(MeshT & mesh_obj) : mesh_pointer(&mesh_obj) {}
 
       /** @brief The load function enables to associate a mesh with the serialzer after
       a serializer object has been constructed. */
-      inline void load(MeshT & mesh_obj) { mesh_pointer = &mesh;  }
+      inline void load(MeshT & mesh_obj) { mesh_pointer = &mesh_obj; }
 
       /** @brief The get function enables to retrieve the mesh pointer
       */
-- 
2.43.0


From bb938664c1f43852de88cbf2c4ec60f53792c307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:10 +0000
Subject: [PATCH 48/58] fix: copying elements

copy_element did not compile, its overload without tolerance returned
nothing, copy_elements_by_handle used handles of the input mesh for the
output mesh, and copies of PLCs lost loose vertices and hole points.
---
 viennagrid/forwards.hpp              |  4 +--
 viennagrid/mesh/element_creation.hpp | 52 +++++++++++++++++++++++-----
 2 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/viennagrid/forwards.hpp b/viennagrid/forwards.hpp
index 062613a..dcbf97b 100644
--- a/viennagrid/forwards.hpp
+++ b/viennagrid/forwards.hpp
@@ -1851,7 +1851,7 @@ namespace viennagrid
     * @param  tolerance                   An absolute tolerance of the 2-norm for checking if two points are equal. If tolerance is less of equal to zero, no quality check is performed.
     */
   template<typename InputMeshOrSegmentHandleT, typename ElementHandleIteratorT, typename OutputMeshOrSegmentHandleT>
-  void copy_element_by_handles(InputMeshOrSegmentHandleT const & input_mesh,
+  void copy_elements_by_handle(InputMeshOrSegmentHandleT const & input_mesh,
                             ElementHandleIteratorT const & begin, ElementHandleIteratorT const & end,
                             OutputMeshOrSegmentHandleT & output_mesh,
                             typename viennagrid::result_of::coord<OutputMeshOrSegmentHandleT>::type tolerance );
@@ -1867,7 +1867,7 @@ namespace viennagrid
     * @param  output_mesh                 The mesh or segment object where the elements are copied to
     */
   template<typename InputMeshOrSegmentHandleT, typename ElementHandleIteratorT, typename OutputMeshOrSegmentHandleT>
-  void copy_element_by_handles(InputMeshOrSegmentHandleT const & input_mesh,
+  void copy_elements_by_handle(InputMeshOrSegmentHandleT const & input_mesh,
                             ElementHandleIteratorT const & begin, ElementHandleIteratorT const & end,
                             OutputMeshOrSegmentHandleT & output_mesh );
 
diff --git a/viennagrid/mesh/element_creation.hpp b/viennagrid/mesh/element_creation.hpp
index 742e34e..bd47182 100644
--- a/viennagrid/mesh/element_creation.hpp
+++ b/viennagrid/mesh/element_creation.hpp
@@ -390,7 +390,7 @@ namespace viennagrid
 
     VertexRangeType vertices(element);
     for (VertexRangeIterator vit = vertices.begin(); vit != vertices.end(); ++vit)
-      vertex_handles.push_back( make_unique_vertex(mesh_segment, viennagrid::point(*vit)), tolerance );
+      vertex_handles.push_back( make_unique_vertex(mesh_segment, viennagrid::point(*vit), tolerance) );
 
     return make_element<ElementTag>( mesh_segment, vertex_handles.begin(), vertex_handles.end() );
   }
@@ -402,7 +402,7 @@ namespace viennagrid
       typename viennagrid::result_of::element_tag<ElementT>::type
     >::type copy_element( ElementT const & element, MeshOrSegmentHandleT & mesh_segment )
   {
-    copy_element(element, mesh_segment, -1.0);
+    return copy_element(element, mesh_segment, -1.0);
   }
 
   namespace detail
@@ -461,7 +461,7 @@ namespace viennagrid
         typedef typename viennagrid::result_of::element_tag<ElementType>::type ElementTagType;
 
         typedef typename viennagrid::result_of::vertex_id<ElementType>::type VertexIDType;
-        typedef typename viennagrid::result_of::vertex_handle<ElementType>::type VertexHandleType;
+        typedef typename viennagrid::result_of::vertex_handle<OutputMeshOrSegmentHandleT>::type VertexHandleType;
 
         typedef typename viennagrid::result_of::const_vertex_range<ElementType>::type ConstVertexOnElementRangeType;
         typedef typename viennagrid::result_of::iterator<ConstVertexOnElementRangeType>::type ConstVertexOnElementIteratorType;
@@ -503,14 +503,17 @@ namespace viennagrid
         typedef typename std::iterator_traits<ElementIteratorT>::value_type ElementType;
 
         typedef typename viennagrid::result_of::vertex_id<ElementType>::type VertexIDType;
-        typedef typename viennagrid::result_of::vertex_handle<ElementType>::type VertexHandleType;
+        typedef typename viennagrid::result_of::vertex_handle<OutputMeshOrSegmentHandleT>::type VertexHandleType;
 
         typedef typename viennagrid::result_of::line_id<ElementType>::type LineIDType;
-        typedef typename viennagrid::result_of::line_handle<ElementType>::type LineHandleType;
+        typedef typename viennagrid::result_of::line_handle<OutputMeshOrSegmentHandleT>::type LineHandleType;
 
         typedef typename viennagrid::result_of::const_line_range<ElementType>::type ConstLineOnElementRangeType;
         typedef typename viennagrid::result_of::iterator<ConstLineOnElementRangeType>::type ConstLineOnElementIteratorType;
 
+        typedef typename viennagrid::result_of::const_vertex_range<ElementType>::type ConstVertexOnElementRangeType;
+        typedef typename viennagrid::result_of::iterator<ConstVertexOnElementRangeType>::type ConstVertexOnElementIteratorType;
+
         std::map<VertexIDType, VertexHandleType> vertex_map;
         std::map<LineIDType, LineHandleType> line_map;
 
@@ -546,7 +549,21 @@ namespace viennagrid
               line_handles[line_index] = it1->second;
           }
 
-          viennagrid::make_plc( output_mesh, line_handles.begin(), line_handles.end() );
+          // the vertices include the loose vertices, which do not belong to any line
+          ConstVertexOnElementRangeType vertices_on_element( *eit );
+          std::vector<VertexHandleType> vertex_handles;
+          for (ConstVertexOnElementIteratorType vit = vertices_on_element.begin(); vit != vertices_on_element.end(); ++vit)
+          {
+            typename std::map<VertexIDType, VertexHandleType>::iterator it = vertex_map.find( vit->id() );
+            if (it == vertex_map.end())
+              it = vertex_map.insert( std::make_pair(vit->id(), viennagrid::make_unique_vertex( output_mesh, viennagrid::point(*vit), tolerance )) ).first;
+            vertex_handles.push_back( it->second );
+          }
+
+          viennagrid::make_plc( output_mesh,
+                                line_handles.begin(), line_handles.end(),
+                                vertex_handles.begin(), vertex_handles.end(),
+                                viennagrid::hole_points(*eit).begin(), viennagrid::hole_points(*eit).end() );
         }
       }
 
@@ -561,14 +578,17 @@ namespace viennagrid
         typedef typename viennagrid::detail::result_of::value_type<ElementHandleType>::type ElementType;
 
         typedef typename viennagrid::result_of::vertex_id<ElementType>::type VertexIDType;
-        typedef typename viennagrid::result_of::vertex_handle<ElementType>::type VertexHandleType;
+        typedef typename viennagrid::result_of::vertex_handle<OutputMeshOrSegmentHandleT>::type VertexHandleType;
 
         typedef typename viennagrid::result_of::line_id<ElementType>::type LineIDType;
-        typedef typename viennagrid::result_of::line_handle<ElementType>::type LineHandleType;
+        typedef typename viennagrid::result_of::line_handle<OutputMeshOrSegmentHandleT>::type LineHandleType;
 
         typedef typename viennagrid::result_of::const_line_range<ElementType>::type ConstLineOnElementRangeType;
         typedef typename viennagrid::result_of::iterator<ConstLineOnElementRangeType>::type ConstLineOnElementIteratorType;
 
+        typedef typename viennagrid::result_of::const_vertex_range<ElementType>::type ConstVertexOnElementRangeType;
+        typedef typename viennagrid::result_of::iterator<ConstVertexOnElementRangeType>::type ConstVertexOnElementIteratorType;
+
         std::map<VertexIDType, VertexHandleType> vertex_map;
         std::map<LineIDType, LineHandleType> line_map;
 
@@ -604,7 +624,21 @@ namespace viennagrid
               line_handles[line_index] = it1->second;
           }
 
-          viennagrid::make_plc( output_mesh, line_handles.begin(), line_handles.end() );
+          // the vertices include the loose vertices, which do not belong to any line
+          ConstVertexOnElementRangeType vertices_on_element( viennagrid::dereference_handle(input_mesh, *eit) );
+          std::vector<VertexHandleType> vertex_handles;
+          for (ConstVertexOnElementIteratorType vit = vertices_on_element.begin(); vit != vertices_on_element.end(); ++vit)
+          {
+            typename std::map<VertexIDType, VertexHandleType>::iterator it = vertex_map.find( vit->id() );
+            if (it == vertex_map.end())
+              it = vertex_map.insert( std::make_pair(vit->id(), viennagrid::make_unique_vertex( output_mesh, viennagrid::point(*vit), tolerance )) ).first;
+            vertex_handles.push_back( it->second );
+          }
+
+          viennagrid::make_plc( output_mesh,
+                                line_handles.begin(), line_handles.end(),
+                                vertex_handles.begin(), vertex_handles.end(),
+                                viennagrid::hole_points(viennagrid::dereference_handle(input_mesh, *eit)).begin(), viennagrid::hole_points(viennagrid::dereference_handle(input_mesh, *eit)).end() );
         }
 
       }
-- 
2.43.0


From 63208926b2599346a00872bd1ac112438e36d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:50 +0000
Subject: [PATCH 49/58] fix: const ranges over views can be iterated

The conversion from iterator to const_iterator of a view accessed a
private member, so that a const range of a mutable segment or boundary
container did not compile.
---
 viennagrid/storage/view.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viennagrid/storage/view.hpp b/viennagrid/storage/view.hpp
index 2d289a7..0ceb66a 100644
--- a/viennagrid/storage/view.hpp
+++ b/viennagrid/storage/view.hpp
@@ -64,9 +64,11 @@ namespace viennagrid
     typedef const value_type * const_pointer;
 
 
+    class const_iterator;
 
     class iterator : public handle_container_type::iterator
     {
+      friend class view::const_iterator;
       typedef typename handle_container_type::iterator base;
     public:
       iterator(view & view_obj, const base & foo) : base(foo), view_(&view_obj) {}
@@ -328,9 +330,11 @@ namespace viennagrid
     typedef const value_type * const_pointer;
 
 
+    class const_iterator;
 
     class iterator : public handle_container_type::iterator
     {
+      friend class view::const_iterator;
       typedef typename handle_container_type::iterator base;
     public:
       iterator(view & view_obj, const base & foo) : base(foo), view_(&view_obj) {}
-- 
2.43.0


From 42d6ef53f606e48fba771c6c42a4803aea75b02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:14 +0000
Subject: [PATCH 50/58] fix: hyperplane refinement keeps nearby cut points
 distinct

The cut points were created with make_unique_vertex, whose default tolerance
is relative to the distance from the origin: in meshes far away from the origin
(or with cuts close to a vertex) different cut points were merged and cells
collapsed.
---
 viennagrid/algorithm/refine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/refine.hpp b/viennagrid/algorithm/refine.hpp
index cab51ce..2031093 100644
--- a/viennagrid/algorithm/refine.hpp
+++ b/viennagrid/algorithm/refine.hpp
@@ -404,7 +404,7 @@ namespace viennagrid
         double pd = viennagrid::inner_prod( hyperplane_normal, pt1-hyperplane_point );
 
         PointT new_pt = pt1 - (pd / (pd-qd)) * (pt1 - pt0);
-        line_refinement_vertex_handle_accessor(*lit) = viennagrid::make_unique_vertex( dst_mesh, new_pt );
+        line_refinement_vertex_handle_accessor(*lit) = viennagrid::make_vertex( dst_mesh, new_pt );
       }
       else
         line_refinement_tag_accessor(*lit) = false;
-- 
2.43.0


From c430e278762317bd862040c3e77e666e1224970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:23 +0000
Subject: [PATCH 51/58] fix: handles can be erased from deque views with C++11

---
 viennagrid/storage/view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/storage/view.hpp b/viennagrid/storage/view.hpp
index 0ceb66a..e9d066f 100644
--- a/viennagrid/storage/view.hpp
+++ b/viennagrid/storage/view.hpp
@@ -274,7 +274,7 @@ namespace viennagrid
       for (iterator it = begin(); it != end(); ++it)
         if (it.handle() == handle)
         {
-          handle_container.erase( it );
+          handle_container.erase( static_cast<typename handle_container_type::iterator const &>(it) );
           return;
         }
     }
-- 
2.43.0


From df43e4f3f768ab2fe26356d2441b50ed9c5cd579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:23 +0000
Subject: [PATCH 52/58] fix: a segment may be given the name it already has

---
 viennagrid/mesh/segmentation.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index e19d905..48958fc 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -96,6 +96,10 @@ namespace viennagrid
       */
     void set_name( std::string const & new_name )
     {
+      // nothing to do
+      if (new_name == name())
+        return;
+
       // name is already present
       if (parent().segment_name_map.find(new_name) != parent().segment_name_map.end())
         throw segment_name_collision_exception(new_name);
-- 
2.43.0


From af32f189b5d575626d52a680b4b792e18fcdc0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:23 +0000
Subject: [PATCH 53/58] fix: information of an element in a segment starts with
 a defined value

---
 viennagrid/mesh/segmentation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 48958fc..c6514f1 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -1116,8 +1116,8 @@ namespace viennagrid
       typedef segment_id_type_ segment_id_type;
       typedef segment_element_info_type_ segment_element_info_type;
 
-      element_segment_mapping() {}
-      element_segment_mapping( segment_id_type const & segment_id_ ) : segment_id(segment_id_) {}
+      element_segment_mapping() : segment_element_info() {}
+      element_segment_mapping( segment_id_type const & segment_id_ ) : segment_id(segment_id_), segment_element_info() {}
 
       segment_id_type segment_id;
       segment_element_info_type segment_element_info;
-- 
2.43.0


From e6243ba4acfb1ca0d9029c965c76c916bcca2a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:06 +0000
Subject: [PATCH 54/58] fix: re-initializing a segmentation drops its former
 segments

---
 viennagrid/mesh/segmentation.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index c6514f1..fbe3b9b 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -579,9 +579,8 @@ namespace viennagrid
       */
     void init( mesh_type & mesh_x )
     {
-      highest_id = -1;
       mesh_ = &mesh_x;
-      all_elements_ = viennagrid::make_view(*mesh_);
+      clear();
     }
 
 
-- 
2.43.0


From 54118f14ec06aa13cae7b28e1ce6113849993c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:35 +0000
Subject: [PATCH 55/58] fix: readers accept lines ended by carriage return and
 blank lines with tabs

The .poly reader took a line holding only a tab or a carriage return for content,
the .bnd reader made the carriage return part of material names.
---
 viennagrid/io/bnd_reader.hpp         | 3 +++
 viennagrid/io/tetgen_poly_reader.hpp | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/viennagrid/io/bnd_reader.hpp b/viennagrid/io/bnd_reader.hpp
index e20782c..852187a 100644
--- a/viennagrid/io/bnd_reader.hpp
+++ b/viennagrid/io/bnd_reader.hpp
@@ -789,6 +789,9 @@ namespace viennagrid
       {
         if (!std::getline(reader, line))
           throw std::runtime_error("BND-READER-Error: Unexpected end of file");
+
+        if (!line.empty() && line[line.size()-1] == '\r')
+          line.erase(line.size()-1);
       }
 
       index_type map(index_type index)
diff --git a/viennagrid/io/tetgen_poly_reader.hpp b/viennagrid/io/tetgen_poly_reader.hpp
index d5b1848..751b89f 100644
--- a/viennagrid/io/tetgen_poly_reader.hpp
+++ b/viennagrid/io/tetgen_poly_reader.hpp
@@ -17,6 +17,7 @@
 #include <fstream>
 #include <iostream>
 #include <assert.h>
+#include <cctype>
 
 #include "viennagrid/forwards.hpp"
 #include "viennagrid/io/helper.hpp"
@@ -50,7 +51,7 @@ namespace viennagrid
 
         for (std::size_t i = 0; i != tmp.size(); ++i)
         {
-          if ( tmp[i] != ' ' )
+          if ( !std::isspace(static_cast<unsigned char>(tmp[i])) )
           {
             line = tmp.substr(i, std::string::npos);
             return true;
-- 
2.43.0


From bac21f093616ce7371b9a9c4452808fb920a3576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:10 +0000
Subject: [PATCH 56/58] fix: XML attributes may be separated by any white space

Tags with attributes on several lines or separated by tabs were rejected.
---
 viennagrid/io/xml_tag.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/xml_tag.hpp b/viennagrid/io/xml_tag.hpp
index 16afb81..d434f30 100644
--- a/viennagrid/io/xml_tag.hpp
+++ b/viennagrid/io/xml_tag.hpp
@@ -91,7 +91,7 @@ namespace viennagrid
           reader >> c;
 
         //read tag name:
-        while ( (c != ' ' && c != '>') && reader.good() )
+        while ( (!is_space(c) && c != '>') && reader.good() )
         {
           reader >> c;
           name_.append(1,  make_lower(c));
@@ -126,7 +126,7 @@ namespace viennagrid
 
           if (inside_string)
             token.append(1, c); //do not transform values to lower-case (e.g. filenames may get invalid)
-          else if (c != ' ')
+          else if (!is_space(c))
             token.append(1, make_lower(c));
 
 
@@ -236,6 +236,9 @@ namespace viennagrid
       }
     private:
 
+      /** @brief Returns true for the characters which separate the attributes of a tag */
+      static bool is_space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
+
       /** @brief transforms a character to lower-case */
       char make_lower(char c) const
       {
-- 
2.43.0


From 991dc4958b32694bfceaa339f556967952c58d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:44 +0000
Subject: [PATCH 57/58] fix: the OpenDX writer releases the data registered at
 it

---
 viennagrid/io/opendx_writer.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/viennagrid/io/opendx_writer.hpp b/viennagrid/io/opendx_writer.hpp
index a757434..be52e52 100644
--- a/viennagrid/io/opendx_writer.hpp
+++ b/viennagrid/io/opendx_writer.hpp
@@ -104,8 +104,28 @@ namespace viennagrid
         typedef base_dynamic_field<const double, CellType> CellScalarBaseAccessor;
         typedef std::map< std::string, CellScalarBaseAccessor * > CellScalarOutputAccessorContainer;
 
+        // the writer owns the wrappers of the registered data
+        opendx_writer(opendx_writer const &);
+        opendx_writer & operator=(opendx_writer const &);
+
+        template<typename MapType>
+        void clear_map(MapType & map)
+        {
+          for (typename MapType::iterator it = map.begin(); it != map.end(); ++it)
+            delete it->second;
+
+          map.clear();
+        }
 
       public:
+        opendx_writer() {}
+
+        ~opendx_writer()
+        {
+          clear_map(vertex_scalar_data);
+          clear_map(cell_scalar_data);
+        }
+
         /** @brief Triggers the writing of the mesh to a file
          *
          * @param mesh_obj  A ViennaGrid mesh
-- 
2.43.0


From 8e8c12ba7394311e29375f1240512e92a1b3d973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:49 +0000
Subject: [PATCH 58/58] fix: OpenDX output of large values converts without
 overflow

---
 viennagrid/io/opendx_writer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/viennagrid/io/opendx_writer.hpp b/viennagrid/io/opendx_writer.hpp
index be52e52..47ce4bb 100644
--- a/viennagrid/io/opendx_writer.hpp
+++ b/viennagrid/io/opendx_writer.hpp
@@ -15,6 +15,8 @@
 
 #include <fstream>
 #include <iostream>
+#include <cmath>
+#include <limits>
 #include "viennagrid/forwards.hpp"
 #include "viennagrid/mesh/mesh.hpp"
 #include "viennagrid/io/helper.hpp"
@@ -41,6 +43,10 @@ namespace viennagrid
     template <typename FloatingPointType>
     FloatingPointType DXfixer(FloatingPointType value)
     {
+      // values of this size cannot be converted to long (and are not written with a fractional part anyway)
+      if ( !(std::fabs(value * 10000) < FloatingPointType(std::numeric_limits<long>::max())) )
+        return value;
+
       if ( std::fabs(value * 10000 - static_cast<long>(value * 10000)) < FloatingPointType(1.0))
         return value + 0.00001;
 
-- 
2.43.0

