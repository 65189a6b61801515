From 6da57a5e8da7a29f660fdcd1554aacfe24d3d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:14 +0000
Subject: [PATCH 01/51] fix: hexahedron reference edge 6 joins vertices 2 and
 6, not 2 and 5

---
 viennagrid/topology/hexahedron.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/topology/hexahedron.hpp b/viennagrid/topology/hexahedron.hpp
index a456043..fae8b53 100644
--- a/viennagrid/topology/hexahedron.hpp
+++ b/viennagrid/topology/hexahedron.hpp
@@ -111,7 +111,7 @@ namespace viennagrid
         element.set_boundary_element( boundary_element, inserter.template insert<true, true>(boundary_element), index++ );
 
         boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(2), 0 );
-        boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(5), 1 );
+        boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(6), 1 );
         element.set_boundary_element( boundary_element, inserter.template insert<true, true>(boundary_element), index++ );
 
         boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(3), 0 );
-- 
2.43.0


From 3ce2350a0fb2e1d92c2d810efc83a239294c11aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:58 +0000
Subject: [PATCH 02/51] fix: is_in_segment and segment_element_info read past
 the mapping for elements never added to a segment

---
 viennagrid/mesh/segmentation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index b24bc77..a7b943a 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -1573,7 +1573,8 @@ namespace viennagrid
     template< typename segment_handle_type, typename accessor_type, typename element_type >
     bool is_in_segment( segment_handle_type const & segment, accessor_type const accessor, element_type const & element )
     {
-      return is_in_segment( segment, accessor(element) );
+      typename accessor_type::value_type const * segment_info = accessor.find(element);
+      return segment_info ? is_in_segment( segment, *segment_info ) : false;
     }
   }
 
@@ -1772,7 +1773,8 @@ namespace viennagrid
     typename accessor_type::value_type::segment_element_info_type const *
     segment_element_info( segment_handle_type const & segment, const accessor_type accessor, element_type const & element )
     {
-      return segment_element_info( segment, accessor(element) );
+      typename accessor_type::value_type const * segment_info = accessor.find(element);
+      return segment_info ? segment_element_info( segment, *segment_info ) : NULL;
     }
   }
 
-- 
2.43.0


From 5207a7ac9259b0124c4cd2a890b9ae1c525105dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:39 +0000
Subject: [PATCH 03/51] fix: segment_ids returned a dangling range for elements
 never added to a segment

---
 viennagrid/mesh/segmentation.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index a7b943a..86a891a 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -1603,6 +1603,7 @@ namespace viennagrid
   struct segment_id_range_t
   {
   public:
+    typedef SegmentInfoT segment_info_type;
 
     segment_id_range_t(SegmentInfoT & segment_info) : segment_info_(&segment_info) {}
 
@@ -1716,7 +1717,13 @@ namespace viennagrid
   {
     typedef typename result_of::segment_id_range< SegmentationT, viennagrid::element<ElementTagT, WrappedConfigT> >::type SegmentIDRangeType;
     typedef viennagrid::element<ElementTagT, WrappedConfigT> ElementType;
-    return SegmentIDRangeType( viennagrid::make_field<ElementType>( viennagrid::detail::element_segment_mapping_collection(segmentation) )(element) );
+    typedef typename SegmentIDRangeType::segment_info_type SegmentInfoType;
+
+    // elements which have never been added to a segment have no entry, the returned range must outlive this function
+    static SegmentInfoType no_segments = SegmentInfoType();
+    SegmentInfoType * segment_info = viennagrid::make_accessor<ElementType>( viennagrid::detail::element_segment_mapping_collection(segmentation) ).find(element);
+
+    return SegmentIDRangeType( segment_info ? *segment_info : no_segments );
   }
 
 
-- 
2.43.0


From b5b3c730e86eb524288b2b35c5f097d755cf7168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:52 +0000
Subject: [PATCH 04/51] fix: erase(segment, element) erased the referencing
 elements but not the element itself

---
 viennagrid/mesh/segmentation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 86a891a..36e694c 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -2171,6 +2171,7 @@ namespace viennagrid
 
     detail::non_recursive_erase_functor<SegmentHandleT> functor( segment );
     viennagrid::for_each(elements_to_erase, functor);
+    functor(element);
   }
 
 
-- 
2.43.0


From ed285887f9d5c4172b8bfc283269a325607484e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:24 +0000
Subject: [PATCH 05/51] fix: handle_mesh did not invalidate the cached boundary
 and co-boundary information of the view

---
 viennagrid/mesh/mesh.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennagrid/mesh/mesh.hpp b/viennagrid/mesh/mesh.hpp
index a825e32..c521e27 100644
--- a/viennagrid/mesh/mesh.hpp
+++ b/viennagrid/mesh/mesh.hpp
@@ -817,6 +817,7 @@ namespace viennagrid
   {
     detail::handle_mesh_functor< typename result_of::element_collection<MeshT>::type > functor( detail::element_collection(mesh_obj) );
     viennagrid::detail::for_each( detail::element_collection(view_obj), functor);
+    detail::increment_change_counter(view_obj);
   }
 
 
-- 
2.43.0


From fe0b8ed8de12de37e93577b03133c7e10cb62295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:24 +0000
Subject: [PATCH 06/51] fix: is_boundary kept stale flags for elements erased
 from a segment

---
 viennagrid/algorithm/boundary.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viennagrid/algorithm/boundary.hpp b/viennagrid/algorithm/boundary.hpp
index 40118d2..d403617 100644
--- a/viennagrid/algorithm/boundary.hpp
+++ b/viennagrid/algorithm/boundary.hpp
@@ -153,6 +153,7 @@ namespace viennagrid
 
         dst_boundary_information_container_wrapper_type & dst_boundary_information_container_wrapper = detail::boundary_information_collection<element_tag>( mesh_obj_ );
 
+        dst_boundary_information_container_wrapper.container.clear();
         transfer_boundary_information(mesh_obj_,
                                       viennagrid::make_field<facet_type>( src_boundary_information_container_wrapper.container ),
                                       viennagrid::make_field<element_type>( dst_boundary_information_container_wrapper.container ));
@@ -212,6 +213,7 @@ namespace viennagrid
                 facet_tag
               >::type boundary_information_container_wrapper_type;
       boundary_information_container_wrapper_type & boundary_information_container_wrapper = detail::boundary_information_collection<facet_tag>(mesh_obj);
+      boundary_information_container_wrapper.container.clear(); // elements might have been removed since the last detection
       detect_boundary( mesh_obj, viennagrid::make_field<facet_type>( boundary_information_container_wrapper.container ) );
 
       transfer_boundary_information(mesh_obj);
-- 
2.43.0


From 8da3ee480e191de59f226afdd852d85707aec600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:24 +0000
Subject: [PATCH 07/51] fix: interface facets have to be on the boundary of
 both segments

---
 viennagrid/algorithm/interface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/interface.hpp b/viennagrid/algorithm/interface.hpp
index 72a9d92..99ef9b2 100644
--- a/viennagrid/algorithm/interface.hpp
+++ b/viennagrid/algorithm/interface.hpp
@@ -86,7 +86,7 @@ namespace viennagrid
         {
           const FacetType & facet = *fit;
 
-          if (facets_ptrs_seg0.find( fit.handle() ) != facets_ptrs_seg0.end()) accessor(facet) = true;
+          if (facets_ptrs_seg0.find( fit.handle() ) != facets_ptrs_seg0.end() && is_boundary(seg1, facet)) accessor(facet) = true;
         }
 
       }
-- 
2.43.0


From cf41ee10521d7f85ee81a5f85222dfe1e0ce468d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:24 +0000
Subject: [PATCH 08/51] fix: is_interface kept stale flags after a segment
 changed

---
 viennagrid/algorithm/interface.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viennagrid/algorithm/interface.hpp b/viennagrid/algorithm/interface.hpp
index 99ef9b2..e241089 100644
--- a/viennagrid/algorithm/interface.hpp
+++ b/viennagrid/algorithm/interface.hpp
@@ -137,6 +137,7 @@ namespace viennagrid
         dst_interface_information_container_wrapper_type & dst_interface_information_container_wrapper = interface_information_collection<element_tag>( seg0, seg1 );
         typename viennagrid::result_of::accessor< typename dst_interface_information_container_wrapper_type::container_type, element_type >::type dst_accessor( dst_interface_information_container_wrapper.container );
 
+        dst_interface_information_container_wrapper.container.clear();
         transfer_boundary_information(seg0, viennagrid::make_field<facet_type>(src_interface_information_container_wrapper.container), dst_accessor);
         transfer_boundary_information(seg1, viennagrid::make_field<facet_type>(src_interface_information_container_wrapper.container), dst_accessor);
 
@@ -229,6 +230,7 @@ namespace viennagrid
     interface_information_container_wrapper_type & interface_information_container_wrapper = detail::interface_information_collection<FacetTag>( seg0, seg1 );
 
 
+    interface_information_container_wrapper.container.clear(); // drop flags of a previous detection
     detail::detect_interface( seg0, seg1, viennagrid::make_field<FacetType>(interface_information_container_wrapper.container) );
 
     transfer_interface_information( seg0, seg1 );
-- 
2.43.0


From 42b83309a52db6d99bb96f4ac72ba03b336d00cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:06 +0000
Subject: [PATCH 09/51] fix: id generator handed out an explicitly requested id
 again when it equalled the next id

---
 viennagrid/storage/id_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/storage/id_generator.hpp b/viennagrid/storage/id_generator.hpp
index e594fe4..5930e06 100644
--- a/viennagrid/storage/id_generator.hpp
+++ b/viennagrid/storage/id_generator.hpp
@@ -120,7 +120,7 @@ namespace viennagrid
       using base::set_max_id;
       void set_max_id( id_type last_id_ )
       {
-        if (last_id_ > last_id)
+        if (last_id_ >= last_id)
         {
           last_id = last_id_;
           ++last_id;
-- 
2.43.0


From a9e83a61565202bdca07b4189523684b471f79f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:48 +0000
Subject: [PATCH 10/51] fix: erasing mesh elements must not swap values between
 keys of a hidden_key_map

---
 viennagrid/mesh/element_deletion.hpp | 33 +++++++++++++++++++---------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/viennagrid/mesh/element_deletion.hpp b/viennagrid/mesh/element_deletion.hpp
index 0be50e1..6af3d1e 100644
--- a/viennagrid/mesh/element_deletion.hpp
+++ b/viennagrid/mesh/element_deletion.hpp
@@ -94,7 +94,6 @@ namespace viennagrid
         typedef typename viennagrid::result_of::element_range<MeshViewT, ElementT>::type ToEraseElementRangeType;
         typedef typename viennagrid::result_of::iterator<ToEraseElementRangeType>::type ToEraseElementRangeIterator;
 
-        typedef typename viennagrid::result_of::handle<MeshT, ElementT>::type ElementHandle;
         typedef typename viennagrid::result_of::element_range<MeshT, ElementT>::type ElementRangeType;
         typedef typename viennagrid::result_of::iterator<ElementRangeType>::type ElementRangeIterator;
 
@@ -113,19 +112,33 @@ namespace viennagrid
         for (typename std::deque<id_type>::iterator it = ids_to_erase.begin(); it != ids_to_erase.end(); ++it)
         {
           ElementRangeIterator to_erase_it = find( mesh_obj_, *it );
-          ElementRangeIterator back_it = --elements.end();
+          erase_from_container( elements, to_erase_it, elements.get_base_container() );
+        }
+      }
 
-          if (back_it != to_erase_it)
-          {
-            ElementHandle old_handle = back_it.handle();
-            std::swap( *back_it, *to_erase_it );
-            ElementHandle new_handle = to_erase_it.handle();
+      // random access containers: move the last element to the erased position
+      template<typename ElementRangeT, typename IteratorT, typename ContainerT>
+      void erase_from_container( ElementRangeT & elements, IteratorT to_erase_it, ContainerT * )
+      {
+        IteratorT back_it = --elements.end();
 
-            switch_handle( mesh_obj_, old_handle, new_handle );
-          }
+        if (back_it != to_erase_it)
+        {
+          typename ElementRangeT::handle_type old_handle = back_it.handle();
+          std::swap( *back_it, *to_erase_it );
+          typename ElementRangeT::handle_type new_handle = to_erase_it.handle();
 
-          elements.erase( back_it );
+          switch_handle( mesh_obj_, old_handle, new_handle );
         }
+
+        elements.erase( back_it );
+      }
+
+      // values in a hidden_key_map must stay at their key, erasing does not affect other elements
+      template<typename ElementRangeT, typename IteratorT, typename KeyT, typename ValueT, typename HandleTagT>
+      void erase_from_container( ElementRangeT & elements, IteratorT to_erase_it, container<hidden_key_map<KeyT, ValueT>, HandleTagT> * )
+      {
+        elements.erase( to_erase_it );
       }
 
       MeshT & mesh_obj_;
-- 
2.43.0


From d12d92dab6b787bfd28b5fbfcaedf200c7b65302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:22 +0000
Subject: [PATCH 11/51] fix: segmentation::at(name) returned a pointer as
 reference (did not compile)

---
 viennagrid/mesh/segmentation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 36e694c..6c49789 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -798,7 +798,7 @@ namespace viennagrid
       typename segment_name_map_type::const_iterator it = segment_name_map.find(segment_name);
       if( it == segment_name_map.end() )
         throw viennagrid::segment_name_not_found_exception(segment_name);
-      return it->second;
+      return *(it->second);
     }
 
 
-- 
2.43.0


From 53d10910d29e467777f35197bf68de140a42faae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:05 +0000
Subject: [PATCH 12/51] fix: exceptions returned pointers to temporary strings
 from what()

---
 viennagrid/io/serialization.hpp  |  6 ++----
 viennagrid/mesh/segmentation.hpp | 29 ++++++++++++++---------------
 viennagrid/point.hpp             | 15 ++++++++++-----
 3 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/viennagrid/io/serialization.hpp b/viennagrid/io/serialization.hpp
index 8a85fca..3d5e892 100644
--- a/viennagrid/io/serialization.hpp
+++ b/viennagrid/io/serialization.hpp
@@ -44,12 +44,10 @@ namespace viennagrid
       public:
         virtual const char* what() const throw()
         {
-          std::stringstream ss;
-          ss << "* ViennaGrid: Bad serialization state: " << msg_ << "!";
-          return ss.str().c_str();
+          return msg_.c_str();
         }
 
-        bad_serialization_state_exception(std::string msg) : msg_(msg) {}
+        bad_serialization_state_exception(std::string msg) : msg_("* ViennaGrid: Bad serialization state: " + msg + "!") {}
 
         virtual ~bad_serialization_state_exception() throw() {}
 
diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 6c49789..f590363 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -36,17 +36,15 @@ namespace viennagrid
     public:
       virtual const char* what() const throw()
       {
-        std::stringstream ss;
-        ss << "* ViennaGrid: Collision with segment names: " << collision_name_ << "!";
-        return ss.str().c_str();
+        return msg_.c_str();
       }
 
-      segment_name_collision_exception(std::string cn) : collision_name_(cn) {}
+      segment_name_collision_exception(std::string cn) : msg_("* ViennaGrid: Collision with segment names: " + cn + "!") {}
 
       virtual ~segment_name_collision_exception() throw() {}
 
     private:
-      std::string collision_name_;
+      std::string msg_;
   };
 
   /** @brief A segment defines a submesh within a segmentation. The segment_handle is used to deal with segments, since segments are not represented by a dedicated class.
@@ -477,17 +475,20 @@ namespace viennagrid
     public:
       virtual const char* what() const throw()
       {
-        std::stringstream ss;
-        ss << "* ViennaGrid: Cannot find segment with ID " << id_ << "!";
-        return ss.str().c_str();
+        return msg_.c_str();
       }
 
-      segment_id_not_found_exception(long id) : id_(id) {}
+      segment_id_not_found_exception(long id)
+      {
+        std::stringstream ss;
+        ss << "* ViennaGrid: Cannot find segment with ID " << id << "!";
+        msg_ = ss.str();
+      }
 
       virtual ~segment_id_not_found_exception() throw() {}
 
     private:
-      long id_;
+      std::string msg_;
   };
 
 
@@ -497,17 +498,15 @@ namespace viennagrid
     public:
       virtual const char* what() const throw()
       {
-        std::stringstream ss;
-        ss << "* ViennaGrid: Cannot find segment  " << name_ << "!";
-        return ss.str().c_str();
+        return msg_.c_str();
       }
 
-      segment_name_not_found_exception(std::string const & name) : name_(name) {}
+      segment_name_not_found_exception(std::string const & name) : msg_("* ViennaGrid: Cannot find segment  " + name + "!") {}
 
       virtual ~segment_name_not_found_exception() throw() {}
 
     private:
-      std::string name_;
+      std::string msg_;
   };
 
 
diff --git a/viennagrid/point.hpp b/viennagrid/point.hpp
index a2b7b88..732a126 100644
--- a/viennagrid/point.hpp
+++ b/viennagrid/point.hpp
@@ -510,17 +510,22 @@ namespace viennagrid
   class point_index_out_of_bounds_exception : public std::exception
   {
   public:
-    point_index_out_of_bounds_exception(std::size_t i) : i_(i) {}
+    point_index_out_of_bounds_exception(std::size_t i)
+    {
+      std::stringstream ss;
+      ss << "Point index " << i << " out of bounds!";
+      msg_ = ss.str();
+    }
+
+    virtual ~point_index_out_of_bounds_exception() throw() {}
 
     virtual const char* what() const throw()
     {
-      std::stringstream ss;
-      ss << "Point index " << i_ << " out of bounds!";
-      return ss.str().c_str();
+      return msg_.c_str();
     }
 
   private:
-    std::size_t i_;
+    std::string msg_;
   };
 
 
-- 
2.43.0


From b527af27efe0176ed30f3f7bc2199b8d89f2e517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:29 +0000
Subject: [PATCH 13/51] fix: segmentation::clear() kept segment names and the
 list of all elements

---
 viennagrid/mesh/segmentation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index f590363..1b3676a 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -915,8 +915,10 @@ namespace viennagrid
     {
       highest_id = -1;
       segment_id_map.clear();
+      segment_name_map.clear();
       segments.clear();
       appendix_ = appendix_type();
+      all_elements_ = viennagrid::make_view(*mesh_);
     }
 
 
-- 
2.43.0


From 194087431933a062084b5a7979be5a3355eaa085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:55 +0000
Subject: [PATCH 14/51] fix: setting the current name of a segment is not a
 name collision

---
 viennagrid/mesh/segmentation.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 1b3676a..ddd9e4d 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -91,6 +91,9 @@ namespace viennagrid
       */
     void set_name( std::string const & new_name )
     {
+      if (new_name == name())
+        return;
+
       // name is already present
       if (parent().segment_name_map.find(new_name) != parent().segment_name_map.end())
         throw segment_name_collision_exception(new_name);
-- 
2.43.0


From 60c24478b7c34478fc6d7b98179b15f8148efdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:56 +0000
Subject: [PATCH 15/51] fix: a segment name collision left a half-created
 segment behind

---
 viennagrid/mesh/segmentation.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index ddd9e4d..a56444e 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -679,6 +679,12 @@ namespace viennagrid
       if (it != segment_id_map.end())
           return it->second; // segment already is present
 
+      std::stringstream ss;
+      ss << segment_id;
+
+      if (segment_name_map.find(ss.str()) != segment_name_map.end())
+        throw segment_name_collision_exception(ss.str());
+
       segments.push_back( segment(this, mesh(), segment_id) );
       segment & new_segment = segments.back();
 
@@ -687,12 +693,8 @@ namespace viennagrid
 
       it = segment_id_map.insert( std::make_pair(segment_id, segment_handle_type(new_segment)) ).first;
 
-      std::stringstream ss;
-      ss << segment_id;
       segments.back().name = ss.str();
-
-      if (!segment_name_map.insert(std::make_pair(ss.str(), &it->second)).second)
-        throw segment_name_collision_exception(ss.str());
+      segment_name_map.insert(std::make_pair(ss.str(), &it->second));
 
       return it->second;
     }
@@ -720,7 +722,7 @@ namespace viennagrid
       *
       * @return             A reference to newly created segment
       */
-    segment_handle_type & make_segment() { return get_make_segment( ++highest_id ); }
+    segment_handle_type & make_segment() { return get_make_segment( highest_id + 1 ); }
 
 
 
-- 
2.43.0


From 9857b592a989d9a0c58b8b9957138055f41a0d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:12 +0000
Subject: [PATCH 16/51] fix: self-assignment of a segmented_mesh destroyed its
 content

---
 viennagrid/mesh/segmented_mesh.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennagrid/mesh/segmented_mesh.hpp b/viennagrid/mesh/segmented_mesh.hpp
index ac09a28..5ff3d95 100644
--- a/viennagrid/mesh/segmented_mesh.hpp
+++ b/viennagrid/mesh/segmented_mesh.hpp
@@ -58,7 +58,8 @@ namespace viennagrid
 
     SelfType & operator=(SelfType const & other)
     {
-      copy( other.mesh, other.segmentation, mesh, segmentation, true_functor() );
+      if (this != &other)
+        copy( other.mesh, other.segmentation, mesh, segmentation, true_functor() );
       return *this;
     }
 
-- 
2.43.0


From 32211feb8d6ee8c5b5f564c19959f3250f083f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:40 +0000
Subject: [PATCH 17/51] fix: elements of a copied mesh with id handles referred
 to the containers of the source mesh

---
 viennagrid/mesh/mesh.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viennagrid/mesh/mesh.hpp b/viennagrid/mesh/mesh.hpp
index c521e27..1cd334d 100644
--- a/viennagrid/mesh/mesh.hpp
+++ b/viennagrid/mesh/mesh.hpp
@@ -1639,6 +1639,9 @@ namespace viennagrid
         typedef typename viennagrid::result_of::element_range<SourceElementT, BoundaryElementT>::type           DestinationBoundaryElementRangeType;
         typedef typename viennagrid::result_of::iterator<DestinationBoundaryElementRangeType>::type             DestinationBoundaryElementRangeIterator;
 
+        typedef typename viennagrid::result_of::element_tag<BoundaryElementT>::type                             BoundaryElementTag;
+        destination_element_.container( BoundaryElementTag() ).set_base_container( viennagrid::get<BoundaryElementT>( mesh_obj_.element_collection() ) );
+
         SourceBoundaryElementRangeType      source_boundary_elements(source_element_);
         DestinationBoundaryElementRangeType destination_boundary_elements(destination_element_);
 
-- 
2.43.0


From 05cc2433d10469f5f55f096cd1f8c9bfe74fee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:43 +0000
Subject: [PATCH 18/51] fix: volume of quadrilaterals and hexahedra assumed a
 cyclic vertex numbering

Vertices are numbered lexicographically; non-parallelogram quadrilaterals and
non-parallelepiped hexahedra got a wrong volume. Polygon volumes did not
compile because the point accessor was bypassed.
---
 viennagrid/algorithm/volume.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/viennagrid/algorithm/volume.hpp b/viennagrid/algorithm/volume.hpp
index 4f7d491..0495189 100644
--- a/viennagrid/algorithm/volume.hpp
+++ b/viennagrid/algorithm/volume.hpp
@@ -92,7 +92,7 @@ namespace viennagrid
       PointType const & p2 = accessor( vertices(cell)[2] );
       PointType const & p3 = accessor( vertices(cell)[3] );
 
-      return spanned_volume(p0, p1, p3) + spanned_volume(p1, p2, p3); //sum up the two triangular parts
+      return spanned_volume(p0, p1, p3) + spanned_volume(p0, p3, p2); //sum up the two triangular parts on either side of the diagonal 0-3
     }
 
 
@@ -112,7 +112,7 @@ namespace viennagrid
       VertexOnCellIterator it1 = range.begin();
       VertexOnCellIterator it2 = it1; ++it2;
 
-      PointType origin = it1->point();
+      PointType origin = accessor(*it1);
 
       NumericType volume = 0;
 
@@ -161,12 +161,12 @@ namespace viennagrid
       PointType const & p7 = accessor( vertices(cell)[7] );
 
       //decompose hexahedron into six tetrahedra
-      return spanned_volume(p0, p1, p3, p4)
-             + spanned_volume(p4, p1, p3, p7)
-             + spanned_volume(p4, p1, p7, p5)
-             + spanned_volume(p1, p2, p3, p7)
-             + spanned_volume(p1, p2, p7, p5)
-             + spanned_volume(p5, p2, p7, p6);
+      return spanned_volume(p0, p1, p2, p4)
+             + spanned_volume(p4, p1, p2, p6)
+             + spanned_volume(p4, p1, p6, p5)
+             + spanned_volume(p1, p3, p2, p6)
+             + spanned_volume(p1, p3, p6, p5)
+             + spanned_volume(p5, p3, p6, p7);
     }
 
 
-- 
2.43.0


From 3ddf3df80f4907a5e7f5c9cbda6785c49485a106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:15 +0000
Subject: [PATCH 19/51] fix: post-increment and post-decrement of container and
 view iterators returned the moved iterator

---
 viennagrid/storage/container.hpp | 32 ++++++++++++++++----------------
 viennagrid/storage/view.hpp      | 32 ++++++++++++++++----------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/viennagrid/storage/container.hpp b/viennagrid/storage/container.hpp
index d934cbb..0dec7e0 100644
--- a/viennagrid/storage/container.hpp
+++ b/viennagrid/storage/container.hpp
@@ -95,10 +95,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); base_iterator::operator++(); return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); base_iterator::operator--(); return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -125,10 +125,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); base_iterator::operator++(); return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); base_iterator::operator--(); return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -159,10 +159,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); base_iterator::operator++(); return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); base_iterator::operator--(); return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -195,10 +195,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); base_iterator::operator++(); return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); base_iterator::operator--(); return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -233,10 +233,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); base_const_iterator::operator++(); return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); base_const_iterator::operator--(); return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const &  value() const { return base_const_iterator::operator*(); }
@@ -264,10 +264,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); base_const_iterator::operator++(); return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); base_const_iterator::operator--(); return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
@@ -299,10 +299,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); base_const_iterator::operator++(); return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); base_const_iterator::operator--(); return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
@@ -336,10 +336,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); base_const_iterator::operator++(); return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); base_const_iterator::operator--(); return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
diff --git a/viennagrid/storage/view.hpp b/viennagrid/storage/view.hpp
index 52fed04..fd5a251 100644
--- a/viennagrid/storage/view.hpp
+++ b/viennagrid/storage/view.hpp
@@ -89,10 +89,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       iterator & operator++() { base::operator++(); return *this; }
-      iterator operator++(int) { base::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); base::operator++(); return tmp; }
 
       iterator & operator--() { base::operator--(); return *this; }
-      iterator operator--(int) { base::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view * view_;
@@ -123,10 +123,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_iterator & operator++() { base::operator++(); return *this; }
-      const_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); base::operator++(); return tmp; }
 
       const_iterator & operator--() { base::operator--(); return *this; }
-      const_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view const * view_;
@@ -156,10 +156,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       reverse_iterator & operator++() { base::operator++(); return *this; }
-      reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      reverse_iterator operator++(int) { reverse_iterator tmp(*this); base::operator++(); return tmp; }
 
       reverse_iterator & operator--() { base::operator--(); return *this; }
-      reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      reverse_iterator operator--(int) { reverse_iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view * view_;
@@ -190,10 +190,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_reverse_iterator & operator++() { base::operator++(); return *this; }
-      const_reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_reverse_iterator operator++(int) { const_reverse_iterator tmp(*this); base::operator++(); return tmp; }
 
       const_reverse_iterator & operator--() { base::operator--(); return *this; }
-      const_reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_reverse_iterator operator--(int) { const_reverse_iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view const * view_;
@@ -353,10 +353,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       iterator & operator++() { base::operator++(); return *this; }
-      iterator operator++(int) { base::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); base::operator++(); return tmp; }
 
       iterator & operator--() { base::operator--(); return *this; }
-      iterator operator--(int) { base::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view * view_;
@@ -387,10 +387,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_iterator & operator++() { base::operator++(); return *this; }
-      const_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); base::operator++(); return tmp; }
 
       const_iterator & operator--() { base::operator--(); return *this; }
-      const_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view const * view_;
@@ -420,10 +420,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       reverse_iterator & operator++() { base::operator++(); return *this; }
-      reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      reverse_iterator operator++(int) { reverse_iterator tmp(*this); base::operator++(); return tmp; }
 
       reverse_iterator & operator--() { base::operator--(); return *this; }
-      reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      reverse_iterator operator--(int) { reverse_iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view * view_;
@@ -454,10 +454,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_reverse_iterator & operator++() { base::operator++(); return *this; }
-      const_reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_reverse_iterator operator++(int) { const_reverse_iterator tmp(*this); base::operator++(); return tmp; }
 
       const_reverse_iterator & operator--() { base::operator--(); return *this; }
-      const_reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_reverse_iterator operator--(int) { const_reverse_iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view const * view_;
-- 
2.43.0


From c1ff5fbf78ba033ff9c2981415a4e380bd999160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:26 +0000
Subject: [PATCH 20/51] fix: Voronoi interface areas of triangles counted a
 part outside the mesh

For a triangle whose circumcenter lies beyond a boundary edge the interface
area included the part outside of the mesh, while the box volumes and the
per-cell contributions did not.
---
 viennagrid/algorithm/voronoi.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/voronoi.hpp b/viennagrid/algorithm/voronoi.hpp
index 49edba8..217e946 100644
--- a/viennagrid/algorithm/voronoi.hpp
+++ b/viennagrid/algorithm/voronoi.hpp
@@ -428,10 +428,12 @@ namespace viennagrid
 
               // contribution from other cell containing the circumcenter:
               interface_contribution = spanned_volume(edge_intersection, circ_center);
-              interface_area_accessor(*eocit) += interface_contribution;
               //if ( other_cell != NULL)
               if (!detail::is_handle_invalid( other_cells, other_cell ))
+              {
+                interface_area_accessor(*eocit) += interface_contribution;
                 voronoi_unique_quantity_update(interface_area_cell_contribution_accessor(*eocit), std::make_pair( other_cell, interface_contribution) );
+              }
 
 
               //
-- 
2.43.0


From 5d59db8c7e530b99be3cd107c7922b3650fa862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:52 +0000
Subject: [PATCH 21/51] fix: vtk_reader read vector data registered for a
 segment out of bounds

---
 viennagrid/io/vtk_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 40a5776..9739659 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -542,7 +542,7 @@ namespace viennagrid
           }
           else if (current_registered_segment_vertex_vector_data.find(name) != current_registered_segment_vertex_vector_data.end())
           {
-            for (std::size_t i=0; i<container.second.size(); ++i)
+            for (std::size_t i=0; i<container.second.size()/3; ++i)
             {
               std::size_t global_vertex_id = local_to_global_map[seg_id][i];
               VertexType const & vertex = viennagrid::elements<viennagrid::vertex_tag>(mesh_obj)[global_vertex_id];
@@ -636,7 +636,7 @@ namespace viennagrid
           }
           else if (current_registered_segment_cell_vector_data.find(name) != current_registered_segment_cell_vector_data.end())
           {
-            for (std::size_t i=0; i<container.second.size(); ++i)
+            for (std::size_t i=0; i<container.second.size()/3; ++i)
             {
               CellType const & cell = viennagrid::dereference_handle( segment, local_cell_handle[seg_id][i] );
 
-- 
2.43.0


From 08180ea0d129e9708a30e481768d40d80c40ddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:52 +0000
Subject: [PATCH 22/51] fix: vtk_reader took the number of components of the
 previous data array if none was given

---
 viennagrid/io/vtk_reader.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 9739659..5dc53b9 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -362,6 +362,7 @@ namespace viennagrid
           tag.check_attribute("name", "");
           name = tag.get_value("name");
 
+          components = 1;
           if (tag.has_attribute("numberofcomponents"))
             components = static_cast<std::size_t>(atoi(tag.get_value("numberofcomponents").c_str()));
 
-- 
2.43.0


From 10251e9dba7b75eb47461a7faf90ea687311c1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:06 +0000
Subject: [PATCH 23/51] fix: vtk_reader hung on, crashed on or silently
 accepted incomplete files

---
 viennagrid/io/vtk_reader.hpp | 102 ++++++++++++++++++++++++++---------
 viennagrid/io/xml_tag.hpp    |   3 ++
 2 files changed, 81 insertions(+), 24 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 5dc53b9..64b0ef1 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -189,6 +189,8 @@ namespace viennagrid
       /** @brief Opens a file */
       void openFile(std::string const & filename)
       {
+        reader.close();  //may still be open if a previous read process failed
+        reader.clear();
         reader.open(filename.c_str());
         if(!reader)
         {
@@ -242,6 +244,8 @@ namespace viennagrid
           for(std::size_t j = 0; j < numberOfComponents; j++)
           {
             reader >> nodeCoord;
+            if (!reader)
+              throw bad_file_format_exception("* ViennaGrid: vtk_reader::readNodeCoordinates(): Point coordinate missing or not a number!");
             if (j < static_cast<std::size_t>(geometric_dim))
               p[j] = nodeCoord;
           }
@@ -259,6 +263,24 @@ namespace viennagrid
             local_to_global_map[seg_id][i] = global_points[p];
           }
         }
+
+        if ((reader >> std::ws).peek() != '<')
+          throw bad_file_format_exception("* ViennaGrid: vtk_reader::readNodeCoordinates(): More point coordinates than announced!");
+      }
+
+      /** @brief Reads the next token inside a data array. Throws a bad_file_format_exception if the file ends before the data array does. */
+      void readToken(std::string & token)
+      {
+        if ( !(reader >> token) )
+          throw bad_file_format_exception("* ViennaGrid: vtk_reader::readToken(): Unexpected end of file inside a data array!");
+      }
+
+      /** @brief Converts a token to an index. Throws a bad_file_format_exception if the token is not a number. */
+      std::size_t tokenToIndex(std::string & token)
+      {
+        if ( !strChecker::myIsNumber(token) )
+          throw bad_file_format_exception("* ViennaGrid: vtk_reader::tokenToIndex(): Expected a number, but got \"" + token + "\"");
+        return static_cast<std::size_t>(atoi(token.c_str()));
       }
 
       /** @brief Reads the vertex indices of the cells inside the mesh */
@@ -266,16 +288,14 @@ namespace viennagrid
       {
         std::size_t cellNode = 0;
         std::string token;
-        reader >> token;
+        readToken(token);
 
         while (token != "</DataArray>")
         {
-          assert( strChecker::myIsNumber(token) && "Cell vertex index is not a number!" );
-
-          cellNode = static_cast<std::size_t>(atoi(token.c_str()));
+          cellNode = tokenToIndex(token);
           local_cell_vertices[seg_id].push_back(cellNode);
 
-          reader >> token;
+          readToken(token);
         }
       }
 
@@ -289,17 +309,15 @@ namespace viennagrid
 
           std::string token;
           std::size_t offset = 0;
-          reader >> token;
+          readToken(token);
 
           while(token != "</DataArray>")
           {
-            assert( strChecker::myIsNumber(token) && "Cell offset is not a number!" );
-
-            offset = static_cast<std::size_t>(atoi(token.c_str()));
+            offset = tokenToIndex(token);
             local_cell_offsets[seg_id].push_back(offset);
 
             //std::cout << "Vertex#: " << offset << std::endl;
-            reader >> token;
+            readToken(token);
           }
       }
 
@@ -312,20 +330,14 @@ namespace viennagrid
           //****************************************************************************
 
           std::string token;
-#ifndef NDEBUG
-          long type = 0;
-#endif
-          reader >> token;
+          readToken(token);
 
           while(token != "</DataArray>")
           {
-            assert( strChecker::myIsNumber(token) && "Cell type is not a number!" );
-#ifndef NDEBUG
-            type = atoi(token.c_str());
-            assert(type == detail::ELEMENT_TAG_TO_VTK_TYPE<CellTag>::value && "Error in VTK reader: Type mismatch!");
-#endif
+            if (tokenToIndex(token) != static_cast<std::size_t>(detail::ELEMENT_TAG_TO_VTK_TYPE<CellTag>::value))
+              throw bad_file_format_exception("* ViennaGrid: vtk_reader::readTypes(): Cell type mismatch!");
             //std::cout << "Vertex#: " << offset << std::endl;
-            reader >> token;
+            readToken(token);
           }
       }
 
@@ -333,15 +345,53 @@ namespace viennagrid
       void readData(std::deque<double> & container)
       {
         std::string token;
-        reader >> token;
+        readToken(token);
 
         while (string_to_lower(token) != "</dataarray>")
         {
-          container.push_back( atof(token.c_str()) );
-          reader >> token;
+          char * end = NULL;
+          container.push_back( strtod(token.c_str(), &end) );
+          if (*end != '\0')
+            throw bad_file_format_exception("* ViennaGrid: vtk_reader::readData(): Expected a number, but got \"" + token + "\"");
+          readToken(token);
         }
       }
 
+      /** @brief Makes sure that the data read for one quantity consists of one entry per element. */
+      void checkData(std::deque<std::pair<std::string, std::deque<double> > > const & data, std::size_t expected_size)
+      {
+        for (std::size_t i=0; i<data.size(); ++i)
+          if (data[i].second.size() != expected_size)
+            throw bad_file_format_exception("* ViennaGrid: vtk_reader::checkData(): Wrong number of values for quantity " + data[i].first);
+      }
+
+      /** @brief Makes sure that the cells and the data read from a file fit to the number of points and cells of the file. */
+      void checkSegment(segment_id_type seg_id)
+      {
+        std::size_t const vertices_per_cell = static_cast<std::size_t>(boundary_elements<CellTag, vertex_tag>::num);
+        std::size_t const num_points = local_to_global_map[seg_id].size();
+        std::size_t const num_cells  = local_cell_num[seg_id];
+
+        std::deque<std::size_t> const & offsets  = local_cell_offsets[seg_id];
+        std::deque<std::size_t> const & vertices = local_cell_vertices[seg_id];
+
+        if (offsets.size() != num_cells || vertices.size() != num_cells * vertices_per_cell)
+          throw bad_file_format_exception("* ViennaGrid: vtk_reader::checkSegment(): Number of cell offsets or cell vertices does not match the number of cells!");
+
+        for (std::size_t i=0; i<offsets.size(); ++i)
+          if (offsets[i] != (i+1) * vertices_per_cell)
+            throw bad_file_format_exception("* ViennaGrid: vtk_reader::checkSegment(): Cell offset does not match the number of vertices of the cell type!");
+
+        for (std::size_t i=0; i<vertices.size(); ++i)
+          if (vertices[i] >= num_points)
+            throw bad_file_format_exception("* ViennaGrid: vtk_reader::checkSegment(): Vertex index of a cell out of range!");
+
+        checkData(local_scalar_vertex_data[seg_id], num_points);
+        checkData(local_vector_vertex_data[seg_id], 3*num_points);
+        checkData(local_scalar_cell_data[seg_id], num_cells);
+        checkData(local_vector_cell_data[seg_id], 3*num_cells);
+      }
+
       /** @brief Read point or cell data and fill the respective data containers */
       template <typename ContainerType, typename NameContainerType>
       void readPointCellData(segment_id_type seg_id,
@@ -785,11 +835,14 @@ namespace viennagrid
           tag.parse_and_check_name(reader, "/unstructuredgrid", filename);
           tag.parse_and_check_name(reader, "/vtkfile", filename);
 
+          checkSegment(seg_id);
+
           closeFile();
         }
         catch (std::exception const & ex) {
           std::cerr << "Problems while reading file " << filename << std::endl;
           std::cerr << "what(): " << ex.what() << std::endl;
+          throw;
         }
 
       }
@@ -862,7 +915,8 @@ namespace viennagrid
 
         closeFile();
 
-        assert(filenames.size() > 0 && "No segments in pvd-file specified!");
+        if (filenames.empty())
+          throw bad_file_format_exception("* ViennaGrid: vtk_reader::process_pvd(): No segments in pvd-file specified!");
 
         //
         // Step 2: Parse .vtu files:
diff --git a/viennagrid/io/xml_tag.hpp b/viennagrid/io/xml_tag.hpp
index 6539f17..ce2a5de 100644
--- a/viennagrid/io/xml_tag.hpp
+++ b/viennagrid/io/xml_tag.hpp
@@ -97,6 +97,9 @@ namespace viennagrid
           name_.append(1,  make_lower(c));
         }
 
+        if (name_.empty())
+          throw bad_file_format_exception("* ViennaGrid: xml_tag::parse(): Parse error: Unexpected end of file.");
+
         //strip whitespace or closing tag at the end
         name_.resize(name_.size()-1);
 
-- 
2.43.0


From b94829bd8109d44edc90768c233f5d7bc16f3a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:28 +0000
Subject: [PATCH 24/51] fix: opendx_writer used vertex ids as positions in the
 list of vertices

---
 viennagrid/io/opendx_writer.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/viennagrid/io/opendx_writer.hpp b/viennagrid/io/opendx_writer.hpp
index 3fd7723..0ed7d18 100644
--- a/viennagrid/io/opendx_writer.hpp
+++ b/viennagrid/io/opendx_writer.hpp
@@ -127,11 +127,16 @@ namespace viennagrid
           writer << pointnum << " data follows" << std::endl;
 
           //Nodes:
+          typedef typename viennagrid::result_of::id<VertexType>::type VertexIDType;
+          std::map<VertexIDType, std::size_t> vertex_index_map;  //vertex IDs are not necessarily consecutive
+
           VertexRange vertices = viennagrid::elements<vertex_tag>(mesh_obj);
           for (VertexIterator vit = vertices.begin();
               vit != vertices.end();
               ++vit)
           {
+            std::size_t vertex_index = vertex_index_map.size();
+            vertex_index_map[vit->id()] = vertex_index;
             PointWriter<geometric_dim>::write(writer, viennagrid::point( mesh_obj, *vit ) );
             writer << std::endl;
           }
@@ -152,7 +157,7 @@ namespace viennagrid
                 ++vocit)
             {
               VertexType const & vertex = *vocit;
-              writer << vertex.id() << " ";
+              writer << vertex_index_map[vertex.id()] << " ";
             }
             writer << std::endl;
           }
-- 
2.43.0


From 6ddd9121f4c4411a98c082a305abc8e86ce72d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:05 +0000
Subject: [PATCH 25/51] fix: mphtxt_writer dereferenced an empty list of
 segments for cells outside of all segments

---
 viennagrid/io/mphtxt_writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/io/mphtxt_writer.hpp b/viennagrid/io/mphtxt_writer.hpp
index aba11b9..52a9367 100644
--- a/viennagrid/io/mphtxt_writer.hpp
+++ b/viennagrid/io/mphtxt_writer.hpp
@@ -402,7 +402,7 @@ namespace viennagrid
           typedef typename viennagrid::result_of::segment_id_range<SegmentationT, TetrahedronType>::type SegmentIDRange;
 
           SegmentIDRange segment_ids = viennagrid::segment_ids( segmentation, *tit );
-          writer << *(segment_ids.begin())+1 << "\n";
+          writer << (segment_ids.empty() ? 0 : *(segment_ids.begin())+1) << "\n";
         }
 
         writer << "\n";
-- 
2.43.0


From 9b4c91ff5e929408fd1c2ff290874e886dbdf4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:05 +0000
Subject: [PATCH 26/51] fix: netgen_reader accessed vertices out of range when
 reading incomplete files

---
 viennagrid/io/netgen_reader.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/viennagrid/io/netgen_reader.hpp b/viennagrid/io/netgen_reader.hpp
index 0ba1eed..fc330f0 100644
--- a/viennagrid/io/netgen_reader.hpp
+++ b/viennagrid/io/netgen_reader.hpp
@@ -77,7 +77,8 @@ namespace viennagrid
         // Read vertices:
         //
         reader >> node_num;
-        assert(node_num > 0);
+        if (!reader || node_num <= 0)
+          throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Number of vertices missing or invalid.");
 
         #if defined VIENNAGRID_DEBUG_STATUS || defined VIENNAGRID_DEBUG_IO
         std::cout << "* netgen_reader::operator(): Reading " << node_num << " vertices... " << std::endl;
@@ -95,6 +96,9 @@ namespace viennagrid
           for (std::size_t j=0; j<static_cast<std::size_t>(point_dim); j++)
             reader >> p[j];
 
+          if (!reader)
+            throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Vertex coordinate missing or not a number.");
+
           viennagrid::make_vertex_with_id( mesh_obj, typename VertexType::id_type(i), p );
         }
 
@@ -106,6 +110,8 @@ namespace viennagrid
         // Read cells:
         //
         reader >> cell_num;
+        if (!reader || cell_num < 0)
+          throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Number of cells missing or invalid.");
 
         #if defined VIENNAGRID_DEBUG_STATUS || defined VIENNAGRID_DEBUG_IO
         std::cout << "* netgen_reader::operator(): Reading " << cell_num << " cells... " << std::endl;
@@ -121,6 +127,8 @@ namespace viennagrid
 
           int segment_index;
           reader >> segment_index;
+          if (!reader)
+            throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Segment index missing or not a number.");
 
           for (std::size_t j=0; j<static_cast<std::size_t>(boundary_elements<CellTag, vertex_tag>::num); ++j)
           {
@@ -128,6 +136,8 @@ namespace viennagrid
               throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": EOF encountered while reading cells (cell ID expected).");
 
             reader >> vertex_num;
+            if (!reader || vertex_num < 1 || vertex_num > static_cast<std::size_t>(node_num))
+              throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Vertex index of a cell missing or out of range.");
             cell_vertex_handles[j] = viennagrid::vertices(mesh_obj).handle_at(vertex_num-1);
           }
 
-- 
2.43.0


From 9252aa7d7116b073cbb33133b4ca20ea10a6bcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:19 +0000
Subject: [PATCH 27/51] fix: tetgen_poly_reader used uninitialised values for
 optional or missing entries

---
 viennagrid/io/tetgen_poly_reader.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/viennagrid/io/tetgen_poly_reader.hpp b/viennagrid/io/tetgen_poly_reader.hpp
index 7880e7d..74cf218 100644
--- a/viennagrid/io/tetgen_poly_reader.hpp
+++ b/viennagrid/io/tetgen_poly_reader.hpp
@@ -193,6 +193,9 @@ namespace viennagrid
           for (std::size_t j=0; j<point_dim; j++)
             current_line >> p[j];
 
+          if (!current_line)
+            throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY vertex ID or coordinate missing");
+
           viennagrid::make_vertex_with_id( mesh_obj, VertexIDType(id), p );
         }
 
@@ -222,8 +225,8 @@ namespace viennagrid
 
         for (int i=0; i<facet_num; ++i)
         {
-          long polygon_num;
-          long hole_num;
+          long polygon_num = 0;
+          long hole_num = 0;  //optional entry
 
           if (!get_valid_line(reader, tmp))
             throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": EOF encountered when reading information");
@@ -242,7 +245,7 @@ namespace viennagrid
 
           for (int j = 0; j<polygon_num; ++j)
           {
-            long vertex_num;
+            long vertex_num = -1;
 
             if (!get_valid_line(reader, tmp))
               throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": EOF encountered when reading information");
@@ -251,15 +254,16 @@ namespace viennagrid
             current_line.str(tmp); current_line.clear();
             current_line >> vertex_num;
 
-            if (vertex_num < 0)
-              throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY polygon has less than 0 vertices");
+            if (vertex_num <= 0)
+              throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY polygon has no vertices");
 
             std::vector<VertexHandleType> vertex_handles(static_cast<std::size_t>(vertex_num));
 
             for (std::size_t k = 0; k<static_cast<std::size_t>(vertex_num); ++k)
             {
               typename VertexIDType::base_id_type id;
-              current_line >> id;
+              if ( !(current_line >> id) || viennagrid::find(mesh_obj, VertexIDType(id)) == viennagrid::vertices(mesh_obj).end() )
+                throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY polygon refers to a missing vertex");
               vertex_handles[k] = viennagrid::find( mesh_obj, VertexIDType(id) ).handle();
             }
 
@@ -314,7 +318,7 @@ namespace viennagrid
 
 
 
-        long hole_num;
+        long hole_num = 0;
 
         if (!get_valid_line(reader, tmp))
         {
@@ -348,7 +352,7 @@ namespace viennagrid
 
 
 
-        long segment_num;
+        long segment_num = 0;
 
         if (!get_valid_line(reader, tmp))
         {
@@ -369,7 +373,7 @@ namespace viennagrid
 
           long segment_number;
           PointType seed_point;
-          int segment_id;
+          int segment_id = 0;  //optional entry
 
           current_line.str(tmp); current_line.clear();
           current_line >> segment_number;
-- 
2.43.0


From c141dfa69b3dca2ee0bd2280b29ae2cb2da4c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:04 +0000
Subject: [PATCH 28/51] fix: default constructed fields did not initialise
 their container pointer

---
 viennagrid/accessor.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 0c7b53a..0081891 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -693,7 +693,7 @@ namespace viennagrid
 
     typedef typename access_type::id_type::base_id_type offset_type;
 
-    dense_container_field() : default_value() {}
+    dense_container_field() : container(0), default_value() {}
     dense_container_field( ContainerType & container_ ) : container(&container_), default_value() {}
     dense_container_field( ContainerType & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -768,7 +768,7 @@ namespace viennagrid
 
     typedef typename access_type::id_type::base_id_type offset_type;
 
-    dense_container_field() : default_value() {}
+    dense_container_field() : container(0), default_value() {}
     dense_container_field( ContainerType const & container_ ) : container(&container_), default_value() {}
     dense_container_field( ContainerType const & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -828,7 +828,7 @@ namespace viennagrid
     typedef value_type *         pointer;
     typedef value_type const *   const_pointer;
 
-    std_map_field() : default_value() {}
+    std_map_field() : container(0), default_value() {}
     std_map_field( ContainerType & container_ ) : container(&container_), default_value() {}
     std_map_field( ContainerType & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -897,7 +897,7 @@ namespace viennagrid
     typedef value_type const *         pointer;
     typedef value_type const *   const_pointer;
 
-    std_map_field() : default_value() {}
+    std_map_field() : container(0), default_value() {}
     std_map_field( ContainerType const & container_ ) : container(&container_), default_value() {}
     std_map_field( ContainerType const & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
-- 
2.43.0


From 6c34a922982b2dc15796293ff5a4eca6876498cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:04 +0000
Subject: [PATCH 29/51] fix: dynamic_accessor_wrapper called members which do
 not exist

---
 viennagrid/accessor.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 0081891..1b23f22 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -622,11 +622,11 @@ namespace viennagrid
     virtual pointer find( access_type const & element ) { return accessor.find(element); }
     virtual const_pointer find( access_type const & element ) const { return accessor.find(element); }
 
-    virtual reference operator()( access_type const & element )       { return access(element); }
-    virtual const_reference operator()( access_type const & element ) const { return access(element); }
+    virtual reference operator()( access_type const & element )       { return accessor(element); }
+    virtual const_reference operator()( access_type const & element ) const { return accessor(element); }
 
-    virtual reference at( access_type const & element ) { return accessor.access(element); }
-    virtual const_reference at( access_type const & element ) const { return accessor.access(element); }
+    virtual reference at( access_type const & element ) { return accessor.at(element); }
+    virtual const_reference at( access_type const & element ) const { return accessor.at(element); }
 
   private:
     AccessorType accessor;
@@ -652,8 +652,8 @@ namespace viennagrid
     dynamic_accessor_wrapper(AccessorType accessor_) : accessor(accessor_) {}
 
     virtual const_pointer find( access_type const & element ) const { return accessor.find(element); }
-    virtual const_reference operator()( access_type const & element ) const { return access(element); }
-    virtual const_reference at( access_type const & element ) const { return accessor.access(element); }
+    virtual const_reference operator()( access_type const & element ) const { return accessor(element); }
+    virtual const_reference at( access_type const & element ) const { return accessor.at(element); }
 
   private:
     AccessorType accessor;
-- 
2.43.0


From f3003bfe5484fc8ae737f30a794bdc84cb5db5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:04 +0000
Subject: [PATCH 30/51] fix: non-const at() of std::map accessors and fields
 created missing data instead of throwing

---
 viennagrid/accessor.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 1b23f22..f47669b 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -369,7 +369,9 @@ namespace viennagrid
 
     reference at(AccessType const & element)
     {
-      return (*this)(element);
+      typename container_type::iterator it = (*container).find( unpack(element) );
+      if (it == (*container).end()) throw std::out_of_range("std_map_accessor::at() failed");
+      return it->second;
     }
 
     const_reference at(AccessType const & element) const
@@ -863,7 +865,9 @@ namespace viennagrid
 
     reference at(AccessType const & element)
     {
-      return (*this)(element);
+      typename container_type::iterator it = (*container).find( unpack(element) );
+      if (it == (*container).end()) throw std::out_of_range("std_map_field::at() failed");
+      return it->second;
     }
 
     const_reference at(AccessType const & element) const
-- 
2.43.0


From cd8937c9330eb626f2519184dbdbb44ba00520a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:04 +0000
Subject: [PATCH 31/51] fix: fields on dense containers lost their default
 value for elements skipped by a write

---
 viennagrid/accessor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index f47669b..0dc62c9 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -716,7 +716,7 @@ namespace viennagrid
     reference operator()(AccessType const & element)
     {
       offset_type offset = unpack(element);
-      if ( static_cast<offset_type>((*container).size()) <= offset) (*container).resize(static_cast<std::size_t>(offset+1));
+      if ( static_cast<offset_type>((*container).size()) <= offset) (*container).resize(static_cast<std::size_t>(offset+1), default_value);
       return (*container)[static_cast<std::size_t>(offset)];
     }
 
-- 
2.43.0


From 5c50889e58355d76a94e46fb38df64753863d1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:42 +0000
Subject: [PATCH 32/51] fix: copy_element did not compile with a tolerance and
 returned nothing without

---
 viennagrid/mesh/element_creation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/mesh/element_creation.hpp b/viennagrid/mesh/element_creation.hpp
index 742e34e..815fe19 100644
--- a/viennagrid/mesh/element_creation.hpp
+++ b/viennagrid/mesh/element_creation.hpp
@@ -390,7 +390,7 @@ namespace viennagrid
 
     VertexRangeType vertices(element);
     for (VertexRangeIterator vit = vertices.begin(); vit != vertices.end(); ++vit)
-      vertex_handles.push_back( make_unique_vertex(mesh_segment, viennagrid::point(*vit)), tolerance );
+      vertex_handles.push_back( make_unique_vertex(mesh_segment, viennagrid::point(*vit), tolerance) );
 
     return make_element<ElementTag>( mesh_segment, vertex_handles.begin(), vertex_handles.end() );
   }
@@ -402,7 +402,7 @@ namespace viennagrid
       typename viennagrid::result_of::element_tag<ElementT>::type
     >::type copy_element( ElementT const & element, MeshOrSegmentHandleT & mesh_segment )
   {
-    copy_element(element, mesh_segment, -1.0);
+    return copy_element(element, mesh_segment, -1.0);
   }
 
   namespace detail
-- 
2.43.0


From c364d7df7d189e99976b555b30d439eb14e4bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:42 +0000
Subject: [PATCH 33/51] fix: copying elements by handle and copying PLCs used
 vertex and line handles of the source for the destination

---
 viennagrid/mesh/element_creation.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/viennagrid/mesh/element_creation.hpp b/viennagrid/mesh/element_creation.hpp
index 815fe19..3111428 100644
--- a/viennagrid/mesh/element_creation.hpp
+++ b/viennagrid/mesh/element_creation.hpp
@@ -461,7 +461,7 @@ namespace viennagrid
         typedef typename viennagrid::result_of::element_tag<ElementType>::type ElementTagType;
 
         typedef typename viennagrid::result_of::vertex_id<ElementType>::type VertexIDType;
-        typedef typename viennagrid::result_of::vertex_handle<ElementType>::type VertexHandleType;
+        typedef typename viennagrid::result_of::vertex_handle<OutputMeshOrSegmentHandleT>::type VertexHandleType;
 
         typedef typename viennagrid::result_of::const_vertex_range<ElementType>::type ConstVertexOnElementRangeType;
         typedef typename viennagrid::result_of::iterator<ConstVertexOnElementRangeType>::type ConstVertexOnElementIteratorType;
@@ -503,10 +503,10 @@ namespace viennagrid
         typedef typename std::iterator_traits<ElementIteratorT>::value_type ElementType;
 
         typedef typename viennagrid::result_of::vertex_id<ElementType>::type VertexIDType;
-        typedef typename viennagrid::result_of::vertex_handle<ElementType>::type VertexHandleType;
+        typedef typename viennagrid::result_of::vertex_handle<OutputMeshOrSegmentHandleT>::type VertexHandleType;
 
         typedef typename viennagrid::result_of::line_id<ElementType>::type LineIDType;
-        typedef typename viennagrid::result_of::line_handle<ElementType>::type LineHandleType;
+        typedef typename viennagrid::result_of::line_handle<OutputMeshOrSegmentHandleT>::type LineHandleType;
 
         typedef typename viennagrid::result_of::const_line_range<ElementType>::type ConstLineOnElementRangeType;
         typedef typename viennagrid::result_of::iterator<ConstLineOnElementRangeType>::type ConstLineOnElementIteratorType;
@@ -561,10 +561,10 @@ namespace viennagrid
         typedef typename viennagrid::detail::result_of::value_type<ElementHandleType>::type ElementType;
 
         typedef typename viennagrid::result_of::vertex_id<ElementType>::type VertexIDType;
-        typedef typename viennagrid::result_of::vertex_handle<ElementType>::type VertexHandleType;
+        typedef typename viennagrid::result_of::vertex_handle<OutputMeshOrSegmentHandleT>::type VertexHandleType;
 
         typedef typename viennagrid::result_of::line_id<ElementType>::type LineIDType;
-        typedef typename viennagrid::result_of::line_handle<ElementType>::type LineHandleType;
+        typedef typename viennagrid::result_of::line_handle<OutputMeshOrSegmentHandleT>::type LineHandleType;
 
         typedef typename viennagrid::result_of::const_line_range<ElementType>::type ConstLineOnElementRangeType;
         typedef typename viennagrid::result_of::iterator<ConstLineOnElementRangeType>::type ConstLineOnElementIteratorType;
-- 
2.43.0


From df71185147f8bb29f8298486588e069838407721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:03 +0000
Subject: [PATCH 34/51] fix: copying PLCs dropped their loose vertices and hole
 points

---
 viennagrid/mesh/element_creation.hpp | 40 ++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/viennagrid/mesh/element_creation.hpp b/viennagrid/mesh/element_creation.hpp
index 3111428..291ab7b 100644
--- a/viennagrid/mesh/element_creation.hpp
+++ b/viennagrid/mesh/element_creation.hpp
@@ -511,6 +511,9 @@ namespace viennagrid
         typedef typename viennagrid::result_of::const_line_range<ElementType>::type ConstLineOnElementRangeType;
         typedef typename viennagrid::result_of::iterator<ConstLineOnElementRangeType>::type ConstLineOnElementIteratorType;
 
+        typedef typename viennagrid::result_of::const_vertex_range<ElementType>::type ConstVertexOnElementRangeType;
+        typedef typename viennagrid::result_of::iterator<ConstVertexOnElementRangeType>::type ConstVertexOnElementIteratorType;
+
         std::map<VertexIDType, VertexHandleType> vertex_map;
         std::map<LineIDType, LineHandleType> line_map;
 
@@ -546,7 +549,22 @@ namespace viennagrid
               line_handles[line_index] = it1->second;
           }
 
-          viennagrid::make_plc( output_mesh, line_handles.begin(), line_handles.end() );
+          ElementType const & plc = *eit;
+
+          ConstVertexOnElementRangeType loose_vertices( plc );
+          std::vector<VertexHandleType> loose_vertex_handles;
+          for (ConstVertexOnElementIteratorType vit = loose_vertices.begin(); vit != loose_vertices.end(); ++vit)
+          {
+            typename std::map<VertexIDType, VertexHandleType>::iterator it2 = vertex_map.find( vit->id() );
+            if (it2 == vertex_map.end())
+              it2 = vertex_map.insert( std::make_pair( vit->id(), viennagrid::make_unique_vertex( output_mesh, viennagrid::point(*vit), tolerance ) ) ).first;
+            loose_vertex_handles.push_back( it2->second );
+          }
+
+          viennagrid::make_plc( output_mesh,
+                                line_handles.begin(), line_handles.end(),
+                                loose_vertex_handles.begin(), loose_vertex_handles.end(),
+                                plc.appendix().begin(), plc.appendix().end() );
         }
       }
 
@@ -569,6 +587,9 @@ namespace viennagrid
         typedef typename viennagrid::result_of::const_line_range<ElementType>::type ConstLineOnElementRangeType;
         typedef typename viennagrid::result_of::iterator<ConstLineOnElementRangeType>::type ConstLineOnElementIteratorType;
 
+        typedef typename viennagrid::result_of::const_vertex_range<ElementType>::type ConstVertexOnElementRangeType;
+        typedef typename viennagrid::result_of::iterator<ConstVertexOnElementRangeType>::type ConstVertexOnElementIteratorType;
+
         std::map<VertexIDType, VertexHandleType> vertex_map;
         std::map<LineIDType, LineHandleType> line_map;
 
@@ -604,7 +625,22 @@ namespace viennagrid
               line_handles[line_index] = it1->second;
           }
 
-          viennagrid::make_plc( output_mesh, line_handles.begin(), line_handles.end() );
+          ElementType const & plc = viennagrid::dereference_handle(input_mesh, *eit);
+
+          ConstVertexOnElementRangeType loose_vertices( plc );
+          std::vector<VertexHandleType> loose_vertex_handles;
+          for (ConstVertexOnElementIteratorType vit = loose_vertices.begin(); vit != loose_vertices.end(); ++vit)
+          {
+            typename std::map<VertexIDType, VertexHandleType>::iterator it2 = vertex_map.find( vit->id() );
+            if (it2 == vertex_map.end())
+              it2 = vertex_map.insert( std::make_pair( vit->id(), viennagrid::make_unique_vertex( output_mesh, viennagrid::point(*vit), tolerance ) ) ).first;
+            loose_vertex_handles.push_back( it2->second );
+          }
+
+          viennagrid::make_plc( output_mesh,
+                                line_handles.begin(), line_handles.end(),
+                                loose_vertex_handles.begin(), loose_vertex_handles.end(),
+                                plc.appendix().begin(), plc.appendix().end() );
         }
 
       }
-- 
2.43.0


From 2a8976ff99170a264fbf171415658aa89927832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:14 +0000
Subject: [PATCH 35/51] fix: make_unique_vertex without tolerance duplicated
 vertices at the origin

---
 viennagrid/mesh/element_creation.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/viennagrid/mesh/element_creation.hpp b/viennagrid/mesh/element_creation.hpp
index 291ab7b..6c38823 100644
--- a/viennagrid/mesh/element_creation.hpp
+++ b/viennagrid/mesh/element_creation.hpp
@@ -13,6 +13,9 @@
    License:      MIT (X11), see file LICENSE in the base directory
 ======================================================================= */
 
+#include <algorithm>
+#include <limits>
+
 #include "viennagrid/mesh/mesh.hpp"
 #include "viennagrid/mesh/segmentation.hpp"
 #include "viennagrid/topology/plc.hpp"
@@ -224,7 +227,9 @@ namespace viennagrid
         MeshOrSegmentHandleTypeT & mesh_obj,
         typename result_of::point<MeshOrSegmentHandleTypeT>::type const & p)
   {
-    return make_unique_vertex( mesh_obj, p, viennagrid::norm_2(p) / 1e6 );
+    typedef typename result_of::coord<MeshOrSegmentHandleTypeT>::type NumericType;
+    // the tolerance has to be positive, otherwise a vertex located at the origin is never found
+    return make_unique_vertex( mesh_obj, p, std::max<NumericType>( viennagrid::norm_2(p) / 1e6, std::numeric_limits<NumericType>::min() ) );
   }
 
 
-- 
2.43.0


From 881d05e83c09c2784cf6a68ec18c5a0730b7bae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:14 +0000
Subject: [PATCH 36/51] fix: hyperplane_refine merged distinct new vertices of
 meshes located far from the origin

---
 viennagrid/algorithm/refine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/refine.hpp b/viennagrid/algorithm/refine.hpp
index cab51ce..2031093 100644
--- a/viennagrid/algorithm/refine.hpp
+++ b/viennagrid/algorithm/refine.hpp
@@ -404,7 +404,7 @@ namespace viennagrid
         double pd = viennagrid::inner_prod( hyperplane_normal, pt1-hyperplane_point );
 
         PointT new_pt = pt1 - (pd / (pd-qd)) * (pt1 - pt0);
-        line_refinement_vertex_handle_accessor(*lit) = viennagrid::make_unique_vertex( dst_mesh, new_pt );
+        line_refinement_vertex_handle_accessor(*lit) = viennagrid::make_vertex( dst_mesh, new_pt );
       }
       else
         line_refinement_tag_accessor(*lit) = false;
-- 
2.43.0


From af253f8c4032e9fd2d0fae2795bf9a4b4aed1a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:14 +0000
Subject: [PATCH 37/51] fix: quantity_transfer to elements of higher dimension
 read the source data from the destination element

---
 viennagrid/algorithm/quantity_transfer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/quantity_transfer.hpp b/viennagrid/algorithm/quantity_transfer.hpp
index 8956976..f63e720 100644
--- a/viennagrid/algorithm/quantity_transfer.hpp
+++ b/viennagrid/algorithm/quantity_transfer.hpp
@@ -136,7 +136,7 @@ namespace viennagrid
                                 ++sodit)
           {
             if (filter_src(*sodit))
-              destination_value_container.push_back(accessor_src(*dit));
+              destination_value_container.push_back(accessor_src(*sodit));
           }
 
           //
-- 
2.43.0


From 779fe01f7824d36123e212023d833ca42b7ebe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:40 +0000
Subject: [PATCH 38/51] fix: copying a mesh view overwrote boundary handles of
 the host mesh

---
 viennagrid/mesh/mesh.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/viennagrid/mesh/mesh.hpp b/viennagrid/mesh/mesh.hpp
index 1cd334d..9c34ddf 100644
--- a/viennagrid/mesh/mesh.hpp
+++ b/viennagrid/mesh/mesh.hpp
@@ -40,6 +40,11 @@ namespace viennagrid
     template<typename SourceWrappedConfigT, typename DestinationWrappedConfigT>
     void fix_handles( viennagrid::mesh<SourceWrappedConfigT> const & source_mesh_obj, viennagrid::mesh<DestinationWrappedConfigT> & destination_mesh );
 
+    /** @brief For internal use only. Views only reference the elements of their host mesh, there are no handles to be fixed. */
+    template<typename SourceWrappedConfigT, typename WrappedMeshConfigT, typename ElementTypelistT, typename ContainerConfigT>
+    void fix_handles( viennagrid::mesh<SourceWrappedConfigT> const &,
+                      viennagrid::mesh< viennagrid::detail::decorated_mesh_view_config<WrappedMeshConfigT, ElementTypelistT, ContainerConfigT> > & ) {}
+
     /** @brief For internal use only */
     template<typename container_collection_type>
     class view_mesh_setter
-- 
2.43.0


From 9e094f739e21886507ffc0e1132dd951f4bf2632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:44 +0000
Subject: [PATCH 39/51] fix: clearing a segment left its elements assigned to
 it and made the segment unusable

---
 viennagrid/mesh/segmentation.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index a56444e..814b472 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -148,15 +148,6 @@ namespace viennagrid
     segment_type * segment_;
   };
 
-  /** @brief Completely clears a segmentation
-    *
-    */
-  template<typename SegmentationT>
-  void clear( segment_handle<SegmentationT> & segment_ )
-  {
-    segment_.view().clear();
-  }
-
   namespace result_of
   {
     /** \cond */
@@ -2181,6 +2172,19 @@ namespace viennagrid
   }
 
 
+  /** @brief Completely clears a segment, the elements remain in the mesh and in all other segments
+    *
+    */
+  template<typename SegmentationT>
+  void clear( segment_handle<SegmentationT> & segment_ )
+  {
+    typename segment_handle<SegmentationT>::view_type elements_to_erase( segment_.view() );
+
+    detail::non_recursive_erase_functor< segment_handle<SegmentationT> > functor( segment_ );
+    viennagrid::for_each(elements_to_erase, functor);
+  }
+
+
   namespace detail
   {
 
-- 
2.43.0


From 0103af82df49c06d38c2267c9c89baf326b95686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:35 +0000
Subject: [PATCH 40/51] fix: erasing handles from views based on sequence
 containers did not compile with C++11

---
 viennagrid/storage/view.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/storage/view.hpp b/viennagrid/storage/view.hpp
index fd5a251..8914ccd 100644
--- a/viennagrid/storage/view.hpp
+++ b/viennagrid/storage/view.hpp
@@ -272,7 +272,7 @@ namespace viennagrid
       for (iterator it = begin(); it != end(); ++it)
         if (it.handle() == handle)
         {
-          handle_container.erase( it );
+          handle_container.erase( static_cast<typename handle_container_type::iterator const &>(it) );
           return;
         }
     }
@@ -533,7 +533,7 @@ namespace viennagrid
       for (iterator it = begin(); it != end(); ++it)
         if (it.handle() == handle)
         {
-          handle_container.erase( it );
+          handle_container.erase( static_cast<typename handle_container_type::iterator const &>(it) );
           return;
         }
     }
-- 
2.43.0


From 0c65b196752f38c33c1f7d6b979862c2c839342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:35 +0000
Subject: [PATCH 41/51] fix: erasing elements from a mesh did not compile with
 C++11

---
 viennagrid/storage/container.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viennagrid/storage/container.hpp b/viennagrid/storage/container.hpp
index 0dec7e0..bfb439e 100644
--- a/viennagrid/storage/container.hpp
+++ b/viennagrid/storage/container.hpp
@@ -507,6 +507,8 @@ namespace viennagrid
       const_iterator begin() const { return cbegin(); }
       const_iterator end() const { return cend(); }
 
+      iterator erase( iterator pos ) { return iterator( base_container::erase( static_cast<typename base_container::iterator const &>(pos) ) ); }
+
 
       handle_type handle_at(std::size_t pos)
       {
-- 
2.43.0


From 085ecd253b720b31461fd78c081eba26e0fc6619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:35 +0000
Subject: [PATCH 42/51] fix: comparing iterator handles of hidden_key_map by id
 was not const (did not compile with C++17)

---
 viennagrid/storage/hidden_key_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/storage/hidden_key_map.hpp b/viennagrid/storage/hidden_key_map.hpp
index 6f47117..141b0b9 100644
--- a/viennagrid/storage/hidden_key_map.hpp
+++ b/viennagrid/storage/hidden_key_map.hpp
@@ -266,7 +266,7 @@ namespace viennagrid
             viennagrid::hidden_key_map_iterator<HiddenKeyMapT>,
             viennagrid::hidden_key_map_const_iterator<HiddenKeyMapT>,
             HandleTagT
-          > const & rhs )
+          > const & rhs ) const
       {
         return lhs->second.id() < rhs->second.id();
       }
-- 
2.43.0


From 9c2a02143f9b250e6f77201ad5eb37ac8e69d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:35 +0000
Subject: [PATCH 43/51] fix: re-initialising a segmentation kept its segments,
 which referred to the old mesh

---
 viennagrid/mesh/segmentation.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 814b472..c1f3236 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -568,9 +568,8 @@ namespace viennagrid
       */
     void init( mesh_type & mesh_x )
     {
-      highest_id = -1;
       mesh_ = &mesh_x;
-      all_elements_ = viennagrid::make_view(*mesh_);
+      clear();
     }
 
 
-- 
2.43.0


From cc140dc6f49574c79e41a6be8470cea3ea460277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:35 +0000
Subject: [PATCH 44/51] fix: is_boundary for a pair of elements exchanged the
 two elements (did not compile)

---
 viennagrid/algorithm/boundary.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/boundary.hpp b/viennagrid/algorithm/boundary.hpp
index d403617..6602556 100644
--- a/viennagrid/algorithm/boundary.hpp
+++ b/viennagrid/algorithm/boundary.hpp
@@ -284,7 +284,7 @@ namespace viennagrid
                    viennagrid::element<ElementTag2, WrappedConfigT2> const & element)
   {
 
-    typedef typename viennagrid::result_of::const_element_range<viennagrid::element<ElementTag2, WrappedConfigT2>, ElementTag1>::type   BoundaryRange;
+    typedef typename viennagrid::result_of::const_element_range<viennagrid::element<ElementTag1, WrappedConfigT1>, ElementTag2>::type   BoundaryRange;
     typedef typename viennagrid::result_of::iterator<BoundaryRange>::type               BoundaryIterator;
 
     BoundaryRange bnd_cells(host_element);
-- 
2.43.0


From 6bd169395287d5d49f1eecd7b168b3e46b01a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:59 +0000
Subject: [PATCH 45/51] fix: neper_tess_reader without seed points did not
 compile

---
 viennagrid/io/neper_tess_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/neper_tess_reader.hpp b/viennagrid/io/neper_tess_reader.hpp
index 31a8f3b..e89177f 100644
--- a/viennagrid/io/neper_tess_reader.hpp
+++ b/viennagrid/io/neper_tess_reader.hpp
@@ -44,11 +44,11 @@ namespace viennagrid
        * @param filename      Name of the file
        */
       template <typename MeshT>
-      int operator()(MeshT & mesh_obj, std::string const & filename) const
+      void operator()(MeshT & mesh_obj, std::string const & filename) const
       {
         std::vector< std::pair<typename viennagrid::result_of::point<MeshT>::type, int> > seed_points;
 
-        return (*this)(mesh_obj, filename, seed_points);
+        (*this)(mesh_obj, filename, seed_points);
       }
 
       /** @brief The functor interface triggering the read operation. Segmentations are not supported in this version.
-- 
2.43.0


From 1409b1b9aa6243ddfc17f42506914654b4bf7103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:37 +0000
Subject: [PATCH 46/51] fix: neper_tess_reader used uninitialised values and
 unknown vertices of incomplete files

---
 viennagrid/io/neper_tess_reader.hpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/neper_tess_reader.hpp b/viennagrid/io/neper_tess_reader.hpp
index e89177f..d858f8c 100644
--- a/viennagrid/io/neper_tess_reader.hpp
+++ b/viennagrid/io/neper_tess_reader.hpp
@@ -102,6 +102,7 @@ namespace viennagrid
             int num_vertices;
             current_line.str(tmp); current_line.clear();
             current_line >> num_vertices;
+            check_stream(current_line, filename);
 
             for (int i = 0; i < num_vertices; ++i)
             {
@@ -109,6 +110,7 @@ namespace viennagrid
               int vertex_id;
               current_line.str(tmp); current_line.clear();
               current_line >> vertex_id;
+              check_stream(current_line, filename);
 
               std::getline(reader, tmp);
               std::getline(reader, tmp);
@@ -117,6 +119,7 @@ namespace viennagrid
               current_line.str(tmp); current_line.clear();
               for (int j = 0; j < std::min(point_dim,3); ++j)
                 current_line >> p[j];
+              check_stream(current_line, filename);
 
               vertices[vertex_id] = viennagrid::make_vertex(mesh_obj, p);
             }
@@ -131,6 +134,7 @@ namespace viennagrid
             int num_faces;
             current_line.str(tmp); current_line.clear();
             current_line >> num_faces;
+            check_stream(current_line, filename);
 
             for (int i = 0; i < num_faces; ++i)
             {
@@ -143,10 +147,20 @@ namespace viennagrid
               std::vector<int> vertex_ids;
               current_line.str(tmp); current_line.clear();
               current_line >> num_vertex_ids;
-              vertex_ids.resize(num_vertex_ids);
+              check_stream(current_line, filename);
 
               for (int j = 0; j < num_vertex_ids; ++j)
-                current_line >> vertex_ids[j];
+              {
+                int vertex_id;
+                current_line >> vertex_id;
+                check_stream(current_line, filename);
+                if (vertices.find(vertex_id) == vertices.end())
+                  throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Unknown vertex of a face.");
+                vertex_ids.push_back(vertex_id);
+              }
+
+              if (vertex_ids.empty())
+                throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Face without vertices.");
 
               std::vector<LineHandleType> plc_line_handles;
               for (int j = 1; j < num_vertex_ids; ++j)
@@ -201,6 +215,7 @@ namespace viennagrid
             int num_polyhedrons;
             current_line.str(tmp); current_line.clear();
             current_line >> num_polyhedrons;
+            check_stream(current_line, filename);
 
             for (int i = 0; i < num_polyhedrons; ++i)
             {
@@ -212,6 +227,7 @@ namespace viennagrid
               PointType p;
               for (int j = 0; j < std::min(point_dim,3); ++j)
                 current_line >> p[j];
+              check_stream(current_line, filename);
 
               seed_points.push_back( std::make_pair(p, polyherdon_id) );
               std::getline(reader, tmp);
@@ -222,6 +238,14 @@ namespace viennagrid
         }
       } //operator()
 
+    private:
+
+      static void check_stream(std::istream const & stream, std::string const & filename)
+      {
+        if (!stream)
+          throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Missing or malformed entry.");
+      }
+
     }; //class tetgen_poly_reader
 
   } //namespace io
-- 
2.43.0


From af5e358aa1af59bf118ed5dd355aec8d56bd9afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:49 +0000
Subject: [PATCH 47/51] fix: bnd_reader hung on, crashed on or silently
 accepted incomplete files

---
 viennagrid/io/bnd_reader.hpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/viennagrid/io/bnd_reader.hpp b/viennagrid/io/bnd_reader.hpp
index 023b9c0..4b271c4 100644
--- a/viennagrid/io/bnd_reader.hpp
+++ b/viennagrid/io/bnd_reader.hpp
@@ -141,7 +141,7 @@ namespace viennagrid
 
         operator result_type()
         {
-          result_type tmp;
+          result_type tmp = result_type();
           ss >> tmp;
           return tmp;
         }
@@ -248,6 +248,7 @@ namespace viennagrid
         }
 
         try{
+          reader.exceptions( std::ios::failbit | std::ios::badbit );   // incomplete files
 
           std::string token;
 
@@ -366,6 +367,8 @@ namespace viennagrid
           {
             reader >> edge[0];
             reader >> edge[1];
+            geometry.at(edge[0]);
+            geometry.at(edge[1]);
             edge_cont[i] = edge;
           }
 
@@ -464,7 +467,7 @@ namespace viennagrid
                 reader >> face;
                 index_type mapped_face = map(face);
 
-                polygon_type polygon = polygon_cont[mapped_face];
+                polygon_type polygon = polygon_cont.at(mapped_face);
 
                 polygon_type polygon_new;
                 std::map<index_type, bool>  uniquer;
@@ -474,7 +477,7 @@ namespace viennagrid
                   index_type vertex = polygon[vi];
                   index_type mapped_vertex = map(vertex);
 
-                  edge_type edge = edge_cont[mapped_vertex];
+                  edge_type edge = edge_cont.at(mapped_vertex);
 
                   if(vertex < 0) std::reverse(edge.begin(),edge.end());
 
@@ -490,7 +493,7 @@ namespace viennagrid
                   }
                 }
                 //std::cout << "adapt: " << polygon_new;
-                domain[i].push_back(polygon_new);
+                domain.at(i).push_back(polygon_new);
               }
             }
             else if(token == "4")  // aka a 2d bnd file segment
@@ -509,11 +512,11 @@ namespace viennagrid
                 reader >> face;
                 index_type mapped_face = map(face);
 
-                edge_type edge = edge_cont[mapped_face];
+                edge_type edge = edge_cont.at(mapped_face);
 
                 //std::cout << "adapt: " << polygon_new;
                 //std::cout << "adding edge: " << edge[0] << " " << edge[1] << std::endl;
-                domain[i].push_back(edge);
+                domain.at(i).push_back(edge);
               }
 
             }
@@ -629,11 +632,11 @@ namespace viennagrid
                       // determine the contact cells
                       if(DIMG == 2)
                       {
-                        contact_groups[contact_id_cont.size()-1].push_back(contact_face_cont[ei-domainsize]);
+                        contact_groups.at(contact_id_cont.size()-1).push_back(contact_face_cont.at(ei-domainsize));
                       }
                       else // 3D
                       {
-                        contact_face_type edge_index_cont = contact_face_cont[ei-domainsize];
+                        contact_face_type edge_index_cont = contact_face_cont.at(ei-domainsize);
 
                         std::map<index_type, bool>  uniquer;
                         contact_face_type contact_triangle;
@@ -642,7 +645,7 @@ namespace viennagrid
                         {
                           index_type edge_index = edge_index_cont[ei];
                           index_type mapped_edge_index = map(edge_index);
-                          edge_type edge = edge_cont[mapped_edge_index];
+                          edge_type edge = edge_cont.at(mapped_edge_index);
                           if(edge_index < 0) std::reverse(edge.begin(),edge.end());
 
                           if(!uniquer[edge[0]])
@@ -657,7 +660,7 @@ namespace viennagrid
                           }
                         }
                         //std::cout << contact_triangle << std::endl;
-                        contact_groups[contact_id_cont.size()-1].push_back(contact_triangle);
+                        contact_groups.at(contact_id_cont.size()-1).push_back(contact_triangle);
                       }
                     }
                   }
@@ -669,7 +672,7 @@ namespace viennagrid
                       reader >> ei;
 
                       // store the name and material info on the related segment id
-                      segment_id_cont[ei] = std::pair<std::string, std::string>(name, material);
+                      segment_id_cont.at(ei) = std::pair<std::string, std::string>(name, material);
                     }
                   }
                   break;
@@ -681,6 +684,7 @@ namespace viennagrid
 
         } catch (...) {
           std::cerr << "Problems while reading file " << filename << std::endl;
+          return EXIT_FAILURE;
         }
 
         return EXIT_SUCCESS;
-- 
2.43.0


From 40b6fdc4f46754ceb77e4f5b692c1713914cc536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:03 +0000
Subject: [PATCH 48/51] fix: mesh_serializer did not compile and stored a
 pointer to no mesh

---
 viennagrid/io/serialization.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/serialization.hpp b/viennagrid/io/serialization.hpp
index 3d5e892..bdbd38f 100644
--- a/viennagrid/io/serialization.hpp
+++ b/viennagrid/io/serialization.hpp
@@ -19,6 +19,7 @@
 
 #include "viennagrid/forwards.hpp"
 #include "viennagrid/mesh/mesh.hpp"
+#include "viennagrid/mesh/element_creation.hpp"
 
 
 #include <boost/archive/text_iarchive.hpp>
@@ -188,11 +189,11 @@ namespace viennagrid
       mesh_serializer() : mesh_pointer(0) {}
 
       /** @brief The constructor expects a shared pointer on a mesh object and sets the state */
-      mesh_serializer(MeshT & mesh_obj) : mesh_pointer(mesh_obj) {}
+      mesh_serializer(MeshT & mesh_obj) : mesh_pointer(&mesh_obj) {}
 
       /** @brief The load function enables to associate a mesh with the serialzer after
       a serializer object has been constructed. */
-      inline void load(MeshT & mesh_obj) { mesh_pointer = &mesh;  }
+      inline void load(MeshT & mesh_obj) { mesh_pointer = &mesh_obj;  }
 
       /** @brief The get function enables to retrieve the mesh pointer
       */
-- 
2.43.0


From f61e55a2567932c83ba275439c55113540d57fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:43 +0000
Subject: [PATCH 49/51] fix: mesh_serializer wrote vertex ids which do not
 survive reading

---
 viennagrid/io/serialization.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/viennagrid/io/serialization.hpp b/viennagrid/io/serialization.hpp
index bdbd38f..42ea947 100644
--- a/viennagrid/io/serialization.hpp
+++ b/viennagrid/io/serialization.hpp
@@ -22,6 +22,9 @@
 #include "viennagrid/mesh/element_creation.hpp"
 
 
+#include <map>
+#include <vector>
+
 #include <boost/archive/text_iarchive.hpp>
 #include <boost/archive/text_oarchive.hpp>
 #include <boost/serialization/base_object.hpp>
@@ -97,11 +100,15 @@ namespace viennagrid
         std::size_t point_size = viennagrid::vertices(mesh_obj).size();
         ar & point_size;
         ConstVertexRange vertices(mesh_obj);
+        std::map<VertexIDType, std::size_t> vertex_positions;   // cells refer to positions, ids are not preserved
         for (ConstVertexIterator vit = vertices.begin();
              vit != vertices.end(); ++vit)
         {
           for(int d = 0; d < DIMG; d++)
             ar & viennagrid::point(*vit)[d];
+
+          std::size_t position = vertex_positions.size();
+          vertex_positions[vit->id()] = position;
         }
 
 
@@ -122,8 +129,8 @@ namespace viennagrid
           vocit != vertices_on_cell.end();
           ++vocit)
           {
-            std::size_t id = vocit->id().get();
-            ar & id;
+            std::size_t position = vertex_positions[vocit->id()];
+            ar & position;
           }
         }
         // -----------------------------------------------
@@ -144,13 +151,14 @@ namespace viennagrid
         std::size_t point_size;
         ar & point_size;
 
+        std::vector<VertexHandleType> vertex_handles;
         for(std::size_t i = 0; i < point_size; i++)
         {
           PointType p;
           for(int d = 0; d < DIMG; d++)
             ar & p[d];
 
-          viennagrid::make_vertex( *mesh_pointer, p );
+          vertex_handles.push_back( viennagrid::make_vertex( *mesh_pointer, p ) );
         }
         // -----------------------------------------------
 
@@ -168,9 +176,11 @@ namespace viennagrid
 
           for (int j=0; j< num_vertices; ++j)
           {
-            std::size_t id;
-            ar & id;
-            vertices[j] = viennagrid::find_by_id( mesh_obj, VertexIDType(id) ).handle();
+            std::size_t position;
+            ar & position;
+            if (position >= vertex_handles.size())
+              throw bad_serialization_state_exception( "Vertex of a cell not found" );
+            vertices[j] = vertex_handles[position];
           }
 
           viennagrid::make_cell( mesh_obj, vertices, vertices + num_vertices);
-- 
2.43.0


From fccbba0ae508a68ca3adeeaa599c93f17b3b5aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:25 +0000
Subject: [PATCH 50/51] fix: smallest_boundary_volume and
 largest_boundary_volume did not compile

---
 viennagrid/algorithm/surface.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/viennagrid/algorithm/surface.hpp b/viennagrid/algorithm/surface.hpp
index 671d008..c492046 100644
--- a/viennagrid/algorithm/surface.hpp
+++ b/viennagrid/algorithm/surface.hpp
@@ -134,11 +134,11 @@ namespace viennagrid
     boundary_element_range_iterator it = boundary_elements.begin();
 
     boundary_element_handle best_handle = it.handle();
-    numeric_type best_volume = viennagrid::volume( mesh_obj, *it );
+    numeric_type best_volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
 
     for (; it != boundary_elements.end(); ++it)
     {
-      numeric_type volume = viennagrid::volume( mesh_obj, *it );
+      numeric_type volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
       if (volume < best_volume)
       {
         best_handle = it.handle();
@@ -163,11 +163,11 @@ namespace viennagrid
     boundary_element_range_iterator it = boundary_elements.begin();
 
     boundary_element_handle best_handle = it.handle();
-    numeric_type best_volume = viennagrid::volume( mesh_obj, *it );
+    numeric_type best_volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
 
     for (; it != boundary_elements.end(); ++it)
     {
-      numeric_type volume = viennagrid::volume( mesh_obj, *it );
+      numeric_type volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
       if (volume < best_volume)
       {
         best_handle = it.handle();
@@ -191,11 +191,11 @@ namespace viennagrid
     boundary_element_range_iterator it = boundary_elements.begin();
 
     boundary_element_handle best_handle = it.handle();
-    numeric_type best_volume = viennagrid::volume( mesh_obj, *it );
+    numeric_type best_volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
 
     for (; it != boundary_elements.end(); ++it)
     {
-      numeric_type volume = viennagrid::volume( mesh_obj, *it );
+      numeric_type volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
       if (volume > best_volume)
       {
         best_handle = it.handle();
@@ -219,11 +219,11 @@ namespace viennagrid
     boundary_element_range_iterator it = boundary_elements.begin();
 
     boundary_element_handle best_handle = it.handle();
-    numeric_type best_volume = viennagrid::volume( mesh_obj, *it );
+    numeric_type best_volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
 
     for (; it != boundary_elements.end(); ++it)
     {
-      numeric_type volume = viennagrid::volume( mesh_obj, *it );
+      numeric_type volume = viennagrid::volume( default_point_accessor(mesh_obj), *it );
       if (volume > best_volume)
       {
         best_handle = it.handle();
-- 
2.43.0


From 9e1f20fa0e53aade7ff1c577b86b70949d7dbaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:28 +0000
Subject: [PATCH 51/51] fix: opendx_writer wrote the wrong cell type and shape
 unless cells were simplices of the full dimension

---
 viennagrid/io/opendx_writer.hpp | 35 ++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/viennagrid/io/opendx_writer.hpp b/viennagrid/io/opendx_writer.hpp
index 0ed7d18..d1d1df0 100644
--- a/viennagrid/io/opendx_writer.hpp
+++ b/viennagrid/io/opendx_writer.hpp
@@ -47,31 +47,52 @@ namespace viennagrid
       return value;
     }
 
-    /** @brief A helper class returning dimension-dependent attribute strings. */
-    template <int DIM>
+    /** @brief A helper class returning cell-type-dependent attribute strings. */
+    template <typename CellTag>
     struct DXHelper {};
 
     template <>
-    struct DXHelper<1>
+    struct DXHelper< viennagrid::simplex_tag<1> >
     {
       static std::string getAttributes()
       { return "attribute \"element type\" string \"line\" "; }
     };
 
     template <>
-    struct DXHelper<2>
+    struct DXHelper< viennagrid::hypercube_tag<1> >
+    {
+      static std::string getAttributes()
+      { return "attribute \"element type\" string \"line\" "; }
+    };
+
+    template <>
+    struct DXHelper< viennagrid::simplex_tag<2> >
     {
       static std::string getAttributes()
       { return "attribute \"element type\" string \"triangles\" "; }
     };
 
     template <>
-    struct DXHelper<3>
+    struct DXHelper< viennagrid::hypercube_tag<2> >
+    {
+      static std::string getAttributes()
+      { return "attribute \"element type\" string \"quads\" "; }
+    };
+
+    template <>
+    struct DXHelper< viennagrid::simplex_tag<3> >
     {
       static std::string getAttributes()
       { return "attribute \"element type\" string \"tetrahedra\" "; }
     };
 
+    template <>
+    struct DXHelper< viennagrid::hypercube_tag<3> >
+    {
+      static std::string getAttributes()
+      { return "attribute \"element type\" string \"cubes\" "; }
+    };
+
     /** @brief The OpenDX writer object. Does not support segments - always the full mesh is written.
      *
      * @tparam MeshType   The ViennaGrid mesh.
@@ -113,7 +134,7 @@ namespace viennagrid
          */
         void operator()(MeshType const & mesh_obj, std::string const & filename)
         {
-          typedef DXHelper<geometric_dim>  DXHelper;
+          typedef DXHelper<CellTag>  DXHelper;
 
           std::ofstream writer(filename.c_str());
           if (!writer.is_open())
@@ -144,7 +165,7 @@ namespace viennagrid
 
           //Cells:
           std::size_t cellnum = viennagrid::elements<CellTag>(mesh_obj).size();
-          writer << "object \"grid_Line_One\" class array type int rank 1 shape " << (geometric_dim + 1) << " items " << cellnum << " data follows" << std::endl;
+          writer << "object \"grid_Line_One\" class array type int rank 1 shape " << static_cast<int>(viennagrid::boundary_elements<CellTag, vertex_tag>::num) << " items " << cellnum << " data follows" << std::endl;
 
           CellRange cells = viennagrid::elements<CellTag>(mesh_obj);
           for (CellIterator cit = cells.begin();
-- 
2.43.0

