From 723a93ac17c9c0155aa7444a5b9d1dc2f8bf6147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:17 +0000
Subject: [PATCH 01/43] fix: do not swap keyed elements when erasing from a
 mesh

Edges and facets are stored under a key made of their vertices. Swapping the
element to erase with the last one left both under the wrong key, so later
insertions created duplicates or picked up the wrong element.
---
 viennagrid/mesh/element_deletion.hpp | 44 ++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/viennagrid/mesh/element_deletion.hpp b/viennagrid/mesh/element_deletion.hpp
index 0be50e1..d62e981 100644
--- a/viennagrid/mesh/element_deletion.hpp
+++ b/viennagrid/mesh/element_deletion.hpp
@@ -82,6 +82,36 @@ namespace viennagrid
     }
 
 
+    /** @brief For internal use only. Moves the last element into the place of the element to erase, returns the now obsolete last position */
+    template<typename MeshT, typename ElementRangeT, typename ElementIteratorT>
+    ElementIteratorT prepare_erase( MeshT & mesh_obj, ElementRangeT & elements, ElementIteratorT to_erase_it )
+    {
+      typedef typename ElementRangeT::handle_type ElementHandle;
+
+      ElementIteratorT back_it = --elements.end();
+
+      if (back_it != to_erase_it)
+      {
+        ElementHandle old_handle = back_it.handle();
+        std::swap( *back_it, *to_erase_it );
+        ElementHandle new_handle = to_erase_it.handle();
+
+        switch_handle( mesh_obj, old_handle, new_handle );
+      }
+
+      return back_it;
+    }
+
+    /** @brief For internal use only. Elements in a hidden_key_map must not change places (each one is stored under its own key) and can be erased directly */
+    template<typename MeshT, typename ElementRangeT, typename HiddenKeyMapT, typename HandleTagT>
+    viennagrid::detail::iterator< hidden_key_map_iterator<HiddenKeyMapT>, hidden_key_map_const_iterator<HiddenKeyMapT>, HandleTagT >
+    prepare_erase( MeshT &, ElementRangeT &,
+                   viennagrid::detail::iterator< hidden_key_map_iterator<HiddenKeyMapT>, hidden_key_map_const_iterator<HiddenKeyMapT>, HandleTagT > to_erase_it )
+    {
+      return to_erase_it;
+    }
+
+
     /** @brief For internal use only */
     template<typename MeshT, typename MeshViewT>
     struct erase_functor
@@ -94,7 +124,6 @@ namespace viennagrid
         typedef typename viennagrid::result_of::element_range<MeshViewT, ElementT>::type ToEraseElementRangeType;
         typedef typename viennagrid::result_of::iterator<ToEraseElementRangeType>::type ToEraseElementRangeIterator;
 
-        typedef typename viennagrid::result_of::handle<MeshT, ElementT>::type ElementHandle;
         typedef typename viennagrid::result_of::element_range<MeshT, ElementT>::type ElementRangeType;
         typedef typename viennagrid::result_of::iterator<ElementRangeType>::type ElementRangeIterator;
 
@@ -113,18 +142,7 @@ namespace viennagrid
         for (typename std::deque<id_type>::iterator it = ids_to_erase.begin(); it != ids_to_erase.end(); ++it)
         {
           ElementRangeIterator to_erase_it = find( mesh_obj_, *it );
-          ElementRangeIterator back_it = --elements.end();
-
-          if (back_it != to_erase_it)
-          {
-            ElementHandle old_handle = back_it.handle();
-            std::swap( *back_it, *to_erase_it );
-            ElementHandle new_handle = to_erase_it.handle();
-
-            switch_handle( mesh_obj_, old_handle, new_handle );
-          }
-
-          elements.erase( back_it );
+          elements.erase( prepare_erase( mesh_obj_, elements, to_erase_it ) );
         }
       }
 
-- 
2.43.0


From 64b083753e7366737c25c872d6d65ad9f3956daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:17 +0000
Subject: [PATCH 02/43] fix: never hand out an ID again that was inserted
 explicitly

last_id is the next free ID, so an element inserted with exactly this ID has
to advance the generator as well.
---
 viennagrid/storage/id_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/storage/id_generator.hpp b/viennagrid/storage/id_generator.hpp
index e594fe4..5930e06 100644
--- a/viennagrid/storage/id_generator.hpp
+++ b/viennagrid/storage/id_generator.hpp
@@ -120,7 +120,7 @@ namespace viennagrid
       using base::set_max_id;
       void set_max_id( id_type last_id_ )
       {
-        if (last_id_ > last_id)
+        if (last_id_ >= last_id)
         {
           last_id = last_id_;
           ++last_id;
-- 
2.43.0


From e7f8906b50e84a81758fccc197329186f9cdb786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:17 +0000
Subject: [PATCH 03/43] fix: hexahedron edge 6 connects the vertices 2 and 6,
 not 2 and 5

---
 viennagrid/topology/hexahedron.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/topology/hexahedron.hpp b/viennagrid/topology/hexahedron.hpp
index a456043..fae8b53 100644
--- a/viennagrid/topology/hexahedron.hpp
+++ b/viennagrid/topology/hexahedron.hpp
@@ -111,7 +111,7 @@ namespace viennagrid
         element.set_boundary_element( boundary_element, inserter.template insert<true, true>(boundary_element), index++ );
 
         boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(2), 0 );
-        boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(5), 1 );
+        boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(6), 1 );
         element.set_boundary_element( boundary_element, inserter.template insert<true, true>(boundary_element), index++ );
 
         boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(3), 0 );
-- 
2.43.0


From 5bac3ab5765062d4a789dd6b413c5304d0e0120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:09 +0000
Subject: [PATCH 04/43] fix: clearing a segmentation also forgets segment names
 and elements

Stale entries of the name map pointed to destroyed segments, and the elements
of the old segments were still reported as elements of the segmentation.
---
 viennagrid/mesh/segmentation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index b24bc77..0e540f4 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -915,9 +915,11 @@ namespace viennagrid
     void clear()
     {
       highest_id = -1;
+      segment_name_map.clear();
       segment_id_map.clear();
       segments.clear();
       appendix_ = appendix_type();
+      all_elements_ = viennagrid::make_view(*mesh_);
     }
 
 
-- 
2.43.0


From 074ede54effce060cd8765f57fc40e9290e3359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:09 +0000
Subject: [PATCH 05/43] fix: a segment name collision no longer leaves a half
 created segment behind

---
 viennagrid/mesh/segmentation.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 0e540f4..cac233b 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -677,20 +677,22 @@ namespace viennagrid
       if (it != segment_id_map.end())
           return it->second; // segment already is present
 
+      std::stringstream ss;
+      ss << segment_id;
+
+      // check before anything is changed
+      if (segment_name_map.find(ss.str()) != segment_name_map.end())
+        throw segment_name_collision_exception(ss.str());
+
       segments.push_back( segment(this, mesh(), segment_id) );
       segment & new_segment = segments.back();
+      new_segment.name = ss.str();
 
       if ( highest_id < segment_id )
           highest_id = segment_id;
 
       it = segment_id_map.insert( std::make_pair(segment_id, segment_handle_type(new_segment)) ).first;
-
-      std::stringstream ss;
-      ss << segment_id;
-      segments.back().name = ss.str();
-
-      if (!segment_name_map.insert(std::make_pair(ss.str(), &it->second)).second)
-        throw segment_name_collision_exception(ss.str());
+      segment_name_map.insert( std::make_pair(ss.str(), &it->second) );
 
       return it->second;
     }
-- 
2.43.0


From 5e55c6aaf867a017f6bf005c65cb982fb7511355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:09 +0000
Subject: [PATCH 06/43] fix: segment queries for elements which have never been
 in any segment

is_in_segment() ran into an assertion (or read beyond the end of the container)
and segment_ids() returned a range pointing into a destroyed temporary.
---
 viennagrid/mesh/segmentation.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index cac233b..d799564 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -1577,7 +1577,9 @@ namespace viennagrid
     template< typename segment_handle_type, typename accessor_type, typename element_type >
     bool is_in_segment( segment_handle_type const & segment, accessor_type const accessor, element_type const & element )
     {
-      return is_in_segment( segment, accessor(element) );
+      // elements which have never been added to any segment might not have an entry
+      typename accessor_type::const_pointer segment_info = accessor.find(element);
+      return segment_info && is_in_segment( segment, *segment_info );
     }
   }
 
@@ -1607,6 +1609,9 @@ namespace viennagrid
   {
   public:
 
+    /** @brief For internal use only */
+    typedef SegmentInfoT segment_info_type;
+
     segment_id_range_t(SegmentInfoT & segment_info) : segment_info_(&segment_info) {}
 
     /** @brief An iterator for iterating over all segment IDs */
@@ -1719,7 +1724,11 @@ namespace viennagrid
   {
     typedef typename result_of::segment_id_range< SegmentationT, viennagrid::element<ElementTagT, WrappedConfigT> >::type SegmentIDRangeType;
     typedef viennagrid::element<ElementTagT, WrappedConfigT> ElementType;
-    return SegmentIDRangeType( viennagrid::make_field<ElementType>( viennagrid::detail::element_segment_mapping_collection(segmentation) )(element) );
+    typedef typename SegmentIDRangeType::segment_info_type SegmentInfoType;
+
+    static SegmentInfoType const no_segments = SegmentInfoType();
+    SegmentInfoType const * segment_info = viennagrid::make_accessor<ElementType>( viennagrid::detail::element_segment_mapping_collection(segmentation) ).find(element);
+    return SegmentIDRangeType( segment_info ? *segment_info : no_segments );
   }
 
 
@@ -1776,7 +1785,8 @@ namespace viennagrid
     typename accessor_type::value_type::segment_element_info_type const *
     segment_element_info( segment_handle_type const & segment, const accessor_type accessor, element_type const & element )
     {
-      return segment_element_info( segment, accessor(element) );
+      typename accessor_type::const_pointer segment_info = accessor.find(element);
+      return segment_info ? segment_element_info( segment, *segment_info ) : NULL;
     }
   }
 
-- 
2.43.0


From 66ff33aeb1179e3548ffe2a805652321c1cd9e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:09 +0000
Subject: [PATCH 07/43] fix: erasing an element from a segment also erases the
 element itself

Only the elements referencing it were removed.
---
 viennagrid/mesh/segmentation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index d799564..633d725 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -2172,6 +2172,7 @@ namespace viennagrid
   {
     typedef typename viennagrid::result_of::mesh_view<SegmentHandleT>::type ToEraseViewT;
     ToEraseViewT elements_to_erase = viennagrid::make_view(segment);
+    viennagrid::elements< viennagrid::element<ElementTagT, WrappedConfigT> >(elements_to_erase).insert_unique_handle( viennagrid::handle(segment, element) );
     viennagrid::mark_referencing_elements( segment, elements_to_erase, viennagrid::handle(segment, element) );
 
     detail::non_recursive_erase_functor<SegmentHandleT> functor( segment );
-- 
2.43.0


From 0d60e5da9318d5a0e914740dac127b0c314f5e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:09 +0000
Subject: [PATCH 08/43] fix: what() of the segmentation exceptions returned a
 dangling pointer

---
 viennagrid/mesh/segmentation.hpp | 36 ++++++++++++++++----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 633d725..dc277d3 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -34,19 +34,19 @@ namespace viennagrid
   class segment_name_collision_exception : public std::exception
   {
     public:
-      virtual const char* what() const throw()
+      virtual const char* what() const throw() { return message_.c_str(); }
+
+      segment_name_collision_exception(std::string cn)
       {
         std::stringstream ss;
-        ss << "* ViennaGrid: Collision with segment names: " << collision_name_ << "!";
-        return ss.str().c_str();
+        ss << "* ViennaGrid: Collision with segment names: " << cn << "!";
+        message_ = ss.str();
       }
 
-      segment_name_collision_exception(std::string cn) : collision_name_(cn) {}
-
       virtual ~segment_name_collision_exception() throw() {}
 
     private:
-      std::string collision_name_;
+      std::string message_;
   };
 
   /** @brief A segment defines a submesh within a segmentation. The segment_handle is used to deal with segments, since segments are not represented by a dedicated class.
@@ -475,19 +475,19 @@ namespace viennagrid
   class segment_id_not_found_exception : public std::exception
   {
     public:
-      virtual const char* what() const throw()
+      virtual const char* what() const throw() { return message_.c_str(); }
+
+      segment_id_not_found_exception(long id)
       {
         std::stringstream ss;
-        ss << "* ViennaGrid: Cannot find segment with ID " << id_ << "!";
-        return ss.str().c_str();
+        ss << "* ViennaGrid: Cannot find segment with ID " << id << "!";
+        message_ = ss.str();
       }
 
-      segment_id_not_found_exception(long id) : id_(id) {}
-
       virtual ~segment_id_not_found_exception() throw() {}
 
     private:
-      long id_;
+      std::string message_;
   };
 
 
@@ -495,19 +495,19 @@ namespace viennagrid
   class segment_name_not_found_exception : public std::exception
   {
     public:
-      virtual const char* what() const throw()
+      virtual const char* what() const throw() { return message_.c_str(); }
+
+      segment_name_not_found_exception(std::string const & name)
       {
         std::stringstream ss;
-        ss << "* ViennaGrid: Cannot find segment  " << name_ << "!";
-        return ss.str().c_str();
+        ss << "* ViennaGrid: Cannot find segment  " << name << "!";
+        message_ = ss.str();
       }
 
-      segment_name_not_found_exception(std::string const & name) : name_(name) {}
-
       virtual ~segment_name_not_found_exception() throw() {}
 
     private:
-      std::string name_;
+      std::string message_;
   };
 
 
-- 
2.43.0


From 31fdd9b4638809a9eae9d064f63aaf26e0fade37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:36 +0000
Subject: [PATCH 09/43] fix: interface queries do not depend on earlier queries

Flags of an earlier detection were never reset, the change counters of the two
segments were mixed up when asking for (seg1, seg0) after (seg0, seg1), and for
overlapping segments the answer depended on the order of the arguments of the
first query. A facet is at the interface if it is on the boundary of both.
---
 viennagrid/algorithm/interface.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/interface.hpp b/viennagrid/algorithm/interface.hpp
index 72a9d92..d4cb0bd 100644
--- a/viennagrid/algorithm/interface.hpp
+++ b/viennagrid/algorithm/interface.hpp
@@ -86,7 +86,7 @@ namespace viennagrid
         {
           const FacetType & facet = *fit;
 
-          if (facets_ptrs_seg0.find( fit.handle() ) != facets_ptrs_seg0.end()) accessor(facet) = true;
+          if (facets_ptrs_seg0.find( fit.handle() ) != facets_ptrs_seg0.end() && is_boundary(seg1, facet)) accessor(facet) = true;
         }
 
       }
@@ -137,6 +137,9 @@ namespace viennagrid
         dst_interface_information_container_wrapper_type & dst_interface_information_container_wrapper = interface_information_collection<element_tag>( seg0, seg1 );
         typename viennagrid::result_of::accessor< typename dst_interface_information_container_wrapper_type::container_type, element_type >::type dst_accessor( dst_interface_information_container_wrapper.container );
 
+        // forget flags of a previous detection
+        dst_interface_information_container_wrapper.container.clear();
+
         transfer_boundary_information(seg0, viennagrid::make_field<facet_type>(src_interface_information_container_wrapper.container), dst_accessor);
         transfer_boundary_information(seg1, viennagrid::make_field<facet_type>(src_interface_information_container_wrapper.container), dst_accessor);
 
@@ -215,6 +218,13 @@ namespace viennagrid
   {
     assert( &seg0.parent() == &seg1.parent() );
 
+    // the interface information is shared by (seg0, seg1) and (seg1, seg0)
+    if (seg1.id() < seg0.id())
+    {
+      detect_interface(seg1, seg0);
+      return;
+    }
+
     typedef typename result_of::cell_tag< segment_handle<SegmentationT> >::type CellTag;
     typedef typename result_of::facet_tag<CellTag>::type FacetTag;
     typedef typename result_of::element< segment_handle<SegmentationT>, FacetTag >::type FacetType;
@@ -229,6 +239,9 @@ namespace viennagrid
     interface_information_container_wrapper_type & interface_information_container_wrapper = detail::interface_information_collection<FacetTag>( seg0, seg1 );
 
 
+    // forget flags of a previous detection
+    interface_information_container_wrapper.container.clear();
+
     detail::detect_interface( seg0, seg1, viennagrid::make_field<FacetType>(interface_information_container_wrapper.container) );
 
     transfer_interface_information( seg0, seg1 );
@@ -251,6 +264,10 @@ namespace viennagrid
   {
     assert( &seg0.parent() == &seg1.parent() );
 
+    // the interface information is shared by (seg0, seg1) and (seg1, seg0)
+    if (seg1.id() < seg0.id())
+      return is_interface(seg1, seg0, element);
+
     typedef segment_handle<SegmentationT> SegmentHandleType;
 
     typedef typename viennagrid::result_of::element_tag<ElementT>::type element_tag;
-- 
2.43.0


From daab1c0cf90f275fd0d06a7d65c3a9e1044734a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:36 +0000
Subject: [PATCH 10/43] fix: default constructed fields are not valid

is_valid() returned an indeterminate value.
---
 viennagrid/accessor.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 0c7b53a..0081891 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -693,7 +693,7 @@ namespace viennagrid
 
     typedef typename access_type::id_type::base_id_type offset_type;
 
-    dense_container_field() : default_value() {}
+    dense_container_field() : container(0), default_value() {}
     dense_container_field( ContainerType & container_ ) : container(&container_), default_value() {}
     dense_container_field( ContainerType & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -768,7 +768,7 @@ namespace viennagrid
 
     typedef typename access_type::id_type::base_id_type offset_type;
 
-    dense_container_field() : default_value() {}
+    dense_container_field() : container(0), default_value() {}
     dense_container_field( ContainerType const & container_ ) : container(&container_), default_value() {}
     dense_container_field( ContainerType const & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -828,7 +828,7 @@ namespace viennagrid
     typedef value_type *         pointer;
     typedef value_type const *   const_pointer;
 
-    std_map_field() : default_value() {}
+    std_map_field() : container(0), default_value() {}
     std_map_field( ContainerType & container_ ) : container(&container_), default_value() {}
     std_map_field( ContainerType & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -897,7 +897,7 @@ namespace viennagrid
     typedef value_type const *         pointer;
     typedef value_type const *   const_pointer;
 
-    std_map_field() : default_value() {}
+    std_map_field() : container(0), default_value() {}
     std_map_field( ContainerType const & container_ ) : container(&container_), default_value() {}
     std_map_field( ContainerType const & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
-- 
2.43.0


From bdc65c637a60a2f38ca674003a5c4262531f5fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:34 +0000
Subject: [PATCH 11/43] fix: the XML tag parser reports the end of the file

Hitting the end of the file (or a read error) while looking for a tag resized an
empty name to a huge length, or accepted an unfinished tag. The skipws flag of
the stream was also left cleared whenever a tag had no attributes or was bad.
---
 viennagrid/io/xml_tag.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/viennagrid/io/xml_tag.hpp b/viennagrid/io/xml_tag.hpp
index 6539f17..08f6ae8 100644
--- a/viennagrid/io/xml_tag.hpp
+++ b/viennagrid/io/xml_tag.hpp
@@ -81,19 +81,18 @@ namespace viennagrid
       template <typename InputStream>
       void parse(InputStream & reader)
       {
-        reader.unsetf(std::ios_base::skipws);
         clear();
 
         char c = ' ';
 
         //go to start of tag:
-        while (c != '<' && reader.good())
-          reader >> c;
+        while (c != '<')
+          get_char(reader, c);
 
         //read tag name:
-        while ( (c != ' ' && c != '>') && reader.good() )
+        while (c != ' ' && c != '>')
         {
-          reader >> c;
+          get_char(reader, c);
           name_.append(1,  make_lower(c));
         }
 
@@ -111,9 +110,9 @@ namespace viennagrid
         bool end_of_attribute = false;
         bool inside_string = false;
         std::string token;
-        while (c != '>' && reader.good())
+        while (c != '>')
         {
-          reader >> c;
+          get_char(reader, c);
 
           if (inside_string && c == '"') //terminate string
           {
@@ -161,8 +160,6 @@ namespace viennagrid
             inside_string = false;
           }
         }
-
-        reader.setf(std::ios_base::skipws);
       }
 
       /** @brief Makes sure that the parsed XML tag has a certain name. Throws an bad_file_format_exception if not the case */
@@ -236,6 +233,14 @@ namespace viennagrid
       }
     private:
 
+      /** @brief Reads a single character (including whitespace). Throws a bad_file_format_exception if there is none left */
+      template <typename InputStream>
+      void get_char(InputStream & reader, char & c) const
+      {
+        if (!reader.get(c))
+          throw bad_file_format_exception("* ViennaGrid: xml_tag::parse(): Parse error: Unexpected end of file.");
+      }
+
       /** @brief transforms a character to lower-case */
       char make_lower(char c) const
       {
-- 
2.43.0


From a3695a549b32390c5e1b0654daf656af39d2e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:13 +0000
Subject: [PATCH 12/43] fix: the VTK reader reports damaged data arrays

A file that ends inside a data array (or that gives a read error there) was an
endless loop, entries which are not numbers or of another cell type ended the
program, and missing coordinates were silently replaced. All of these are now
reported as bad_file_format_exception.
---
 viennagrid/io/vtk_reader.hpp | 92 ++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 46 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 40a5776..d53207f 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -25,6 +25,7 @@
 #include <deque>
 #include <string>
 #include <algorithm>
+#include <cstdlib>
 
 #include "viennagrid/forwards.hpp"
 #include "viennagrid/point.hpp"
@@ -229,11 +230,31 @@ namespace viennagrid
         }
       }
 
+      /** @brief Reads the next entry of a data array. Returns false at the closing tag, throws a bad_file_format_exception if the file ends before */
+      bool readArrayEntry(std::string & token)
+      {
+        if (!(reader >> token))
+          throw bad_file_format_exception("* ViennaGrid: vtk_reader::readArrayEntry(): Unexpected end of file inside a data array!");
+
+        return string_to_lower(token) != "</dataarray>";
+      }
+
+      /** @brief Converts an entry of a data array (or an attribute) to a nonnegative integer. Throws a bad_file_format_exception if it is none */
+      std::size_t toIndex(std::string token) const
+      {
+        std::size_t value = 0;
+        std::istringstream stream(token);
+        if (token.empty() || !strChecker::myIsNumber(token) || !(stream >> value))
+          throw bad_file_format_exception("* ViennaGrid: vtk_reader::toIndex(): \"" + token + "\" is not a valid number!");
+
+        return value;
+      }
+
       /** @brief Reads the coordinates of the points/vertices in the mesh */
       void readNodeCoordinates(std::size_t nodeNum, std::size_t numberOfComponents, segment_id_type seg_id)
       {
         double nodeCoord;
-        local_to_global_map[seg_id].resize(nodeNum);
+        std::deque<std::size_t> & local_to_global = local_to_global_map[seg_id];
 
         for(std::size_t i = 0; i < nodeNum; i++)
         {
@@ -241,7 +262,9 @@ namespace viennagrid
 
           for(std::size_t j = 0; j < numberOfComponents; j++)
           {
-            reader >> nodeCoord;
+            if (!(reader >> nodeCoord))
+              throw bad_file_format_exception("* ViennaGrid: vtk_reader::readNodeCoordinates(): Cannot read point coordinates!");
+
             if (j < static_cast<std::size_t>(geometric_dim))
               p[j] = nodeCoord;
           }
@@ -252,11 +275,11 @@ namespace viennagrid
             std::size_t new_global_id = global_points.size();
             global_points.insert( std::make_pair(p, new_global_id) );
             global_points_2.insert( std::make_pair(new_global_id, p) );
-            local_to_global_map[seg_id][i] = new_global_id;
+            local_to_global.push_back(new_global_id);
           }
           else
           {
-            local_to_global_map[seg_id][i] = global_points[p];
+            local_to_global.push_back(global_points[p]);
           }
         }
       }
@@ -264,19 +287,10 @@ namespace viennagrid
       /** @brief Reads the vertex indices of the cells inside the mesh */
       void readCellIndices(segment_id_type seg_id)
       {
-        std::size_t cellNode = 0;
         std::string token;
-        reader >> token;
-
-        while (token != "</DataArray>")
-        {
-          assert( strChecker::myIsNumber(token) && "Cell vertex index is not a number!" );
-
-          cellNode = static_cast<std::size_t>(atoi(token.c_str()));
-          local_cell_vertices[seg_id].push_back(cellNode);
 
-          reader >> token;
-        }
+        while (readArrayEntry(token))
+          local_cell_vertices[seg_id].push_back(toIndex(token));
       }
 
       /** @brief Read the cell offsets for the vertex indices */
@@ -288,19 +302,9 @@ namespace viennagrid
           //****************************************************************************
 
           std::string token;
-          std::size_t offset = 0;
-          reader >> token;
-
-          while(token != "</DataArray>")
-          {
-            assert( strChecker::myIsNumber(token) && "Cell offset is not a number!" );
 
-            offset = static_cast<std::size_t>(atoi(token.c_str()));
-            local_cell_offsets[seg_id].push_back(offset);
-
-            //std::cout << "Vertex#: " << offset << std::endl;
-            reader >> token;
-          }
+          while (readArrayEntry(token))
+            local_cell_offsets[seg_id].push_back(toIndex(token));
       }
 
       /** @brief Read the types of each cell. */
@@ -312,20 +316,11 @@ namespace viennagrid
           //****************************************************************************
 
           std::string token;
-#ifndef NDEBUG
-          long type = 0;
-#endif
-          reader >> token;
 
-          while(token != "</DataArray>")
+          while (readArrayEntry(token))
           {
-            assert( strChecker::myIsNumber(token) && "Cell type is not a number!" );
-#ifndef NDEBUG
-            type = atoi(token.c_str());
-            assert(type == detail::ELEMENT_TAG_TO_VTK_TYPE<CellTag>::value && "Error in VTK reader: Type mismatch!");
-#endif
-            //std::cout << "Vertex#: " << offset << std::endl;
-            reader >> token;
+            if (toIndex(token) != static_cast<std::size_t>(detail::ELEMENT_TAG_TO_VTK_TYPE<CellTag>::value))
+              throw bad_file_format_exception("* ViennaGrid: vtk_reader::readTypes(): Type mismatch: Cell type " + token + " does not match the mesh!");
           }
       }
 
@@ -333,12 +328,14 @@ namespace viennagrid
       void readData(std::deque<double> & container)
       {
         std::string token;
-        reader >> token;
 
-        while (string_to_lower(token) != "</dataarray>")
+        while (readArrayEntry(token))
         {
-          container.push_back( atof(token.c_str()) );
-          reader >> token;
+          char * end = NULL;
+          container.push_back( std::strtod(token.c_str(), &end) );
+
+          if (*end != '\0')
+            throw bad_file_format_exception("* ViennaGrid: vtk_reader::readData(): \"" + token + "\" is not a number!");
         }
       }
 
@@ -718,14 +715,14 @@ namespace viennagrid
 
           tag.check_attribute("numberofpoints", filename);
 
-          nodeNum = static_cast<std::size_t>(atoi(tag.get_value("numberofpoints").c_str()));
+          nodeNum = toIndex(tag.get_value("numberofpoints"));
           #ifdef VIENNAGRID_DEBUG_IO
           std::cout << "#Nodes: " << nodeNum << std::endl;
           #endif
 
           tag.check_attribute("numberofcells", filename);
 
-          local_cell_num[seg_id] = static_cast<std::size_t>(atoi(tag.get_value("numberofcells").c_str()));
+          local_cell_num[seg_id] = toIndex(tag.get_value("numberofcells"));
           #ifdef VIENNAGRID_DEBUG_IO
           std::cout << "#Cells: " << local_cell_num[seg_id] << std::endl;
           #endif
@@ -735,7 +732,10 @@ namespace viennagrid
           tag.parse_and_check_name(reader, "dataarray", filename);
           tag.check_attribute("numberofcomponents", filename);
 
-          numberOfComponents = static_cast<std::size_t>(atoi(tag.get_value("numberofcomponents").c_str()));
+          numberOfComponents = toIndex(tag.get_value("numberofcomponents"));
+          if (numberOfComponents < static_cast<std::size_t>(geometric_dim))
+            throw bad_file_format_exception("* ViennaGrid: vtk_reader::parse_vtu_segment(): Parse error: Number of point components is too small!");
+
           readNodeCoordinates(nodeNum, numberOfComponents, seg_id);
 
           tag.parse_and_check_name(reader, "/dataarray", filename);
-- 
2.43.0


From 21933db3b76afdbf4f02a1a9b9c9b1c7f7ec4ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:13 +0000
Subject: [PATCH 13/43] fix: the VTK reader no longer carries the number of
 components over to the next quantity

---
 viennagrid/io/vtk_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index d53207f..57bde7b 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -348,7 +348,6 @@ namespace viennagrid
                              NameContainerType & data_names_vector)
       {
         std::string name;
-        std::size_t components = 1;
 
         xml_tag<> tag;
 
@@ -359,6 +358,7 @@ namespace viennagrid
           tag.check_attribute("name", "");
           name = tag.get_value("name");
 
+          std::size_t components = 1;
           if (tag.has_attribute("numberofcomponents"))
             components = static_cast<std::size_t>(atoi(tag.get_value("numberofcomponents").c_str()));
 
-- 
2.43.0


From 794abb6bcaa112a6fe86ed288061f20c31d566ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:13 +0000
Subject: [PATCH 14/43] fix: the VTK reader read past the end of vector
 quantities registered for a segment

---
 viennagrid/io/vtk_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 57bde7b..60c812c 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -539,7 +539,7 @@ namespace viennagrid
           }
           else if (current_registered_segment_vertex_vector_data.find(name) != current_registered_segment_vertex_vector_data.end())
           {
-            for (std::size_t i=0; i<container.second.size(); ++i)
+            for (std::size_t i=0; i<container.second.size()/3; ++i)
             {
               std::size_t global_vertex_id = local_to_global_map[seg_id][i];
               VertexType const & vertex = viennagrid::elements<viennagrid::vertex_tag>(mesh_obj)[global_vertex_id];
@@ -633,7 +633,7 @@ namespace viennagrid
           }
           else if (current_registered_segment_cell_vector_data.find(name) != current_registered_segment_cell_vector_data.end())
           {
-            for (std::size_t i=0; i<container.second.size(); ++i)
+            for (std::size_t i=0; i<container.second.size()/3; ++i)
             {
               CellType const & cell = viennagrid::dereference_handle( segment, local_cell_handle[seg_id][i] );
 
-- 
2.43.0


From 4ad200afd822688fd30ec2edb35e19992eba1f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:13 +0000
Subject: [PATCH 15/43] fix: the VTK reader checks the file contents before
 using them as indices

Cells referring to points that are not there, cell counts and offsets that do
not match the cells, and quantities with a wrong number of values led to
accesses out of bounds. Two assertions failed for valid files with points that
do not belong to a cell.
---
 viennagrid/io/vtk_reader.hpp | 54 ++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 60c812c..30ee922 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -473,11 +473,7 @@ namespace viennagrid
 
       /** @brief Writes data for vertices to the ViennaGrid mesh using ViennaData */
       template <typename ContainerType>
-      void setupDataVertex(MeshType & mesh_obj, SegmentHandleType &
-#ifndef NDEBUG
-        segment
-#endif
-        , segment_id_type seg_id, ContainerType const & container, std::size_t num_components)
+      void setupDataVertex(MeshType & mesh_obj, SegmentHandleType &, segment_id_type seg_id, ContainerType const & container, std::size_t num_components)
       {
         std::string const & name = container.first;
 
@@ -556,7 +552,6 @@ namespace viennagrid
             std::cout << "* vtk_reader::operator(): Reading vector quantity "
                       << container.first << " to vertices." << std::endl;
             #endif
-            assert( 3 * viennagrid::elements<viennagrid::vertex_tag>(segment).size() == container.second.size());
             for (std::size_t i=0; i<container.second.size() / 3; ++i)
             {
               std::size_t global_vertex_id = local_to_global_map[seg_id][i];
@@ -649,7 +644,6 @@ namespace viennagrid
             std::cout << "* vtk_reader::operator(): Reading vector quantity "
                       << container.first << " to vertices." << std::endl;
             #endif
-            assert( 3 * viennagrid::elements<CellTag>(segment).size() == container.second.size());
             for (std::size_t i=0; i<container.second.size() / 3; ++i)
             {
               CellType const & cell = viennagrid::dereference_handle( segment, local_cell_handle[seg_id][i] );
@@ -691,6 +685,47 @@ namespace viennagrid
 
       }
 
+      /** @brief Makes sure that all quantities read provide num_entries values with num_components components each. Throws a bad_file_format_exception if not the case */
+      void checkData(std::deque<std::pair<std::string, std::deque<double> > > const & data, std::size_t num_entries, std::size_t num_components) const
+      {
+        for (std::size_t i=0; i<data.size(); ++i)
+        {
+          if (data[i].second.size() != num_entries * num_components)
+            throw bad_file_format_exception("* ViennaGrid: vtk_reader::checkData(): Wrong number of values for quantity " + data[i].first + "!");
+        }
+      }
+
+      /** @brief Makes sure that the cells and quantities read for a segment are complete and only refer to points read. Throws a bad_file_format_exception if not the case */
+      void checkSegment(segment_id_type seg_id)
+      {
+        std::size_t const num_points = local_to_global_map[seg_id].size();
+        std::size_t const num_cells = local_cell_num[seg_id];
+        std::size_t const vertices_per_cell = boundary_elements<CellTag, vertex_tag>::num;
+
+        std::deque<std::size_t> const & offsets = local_cell_offsets[seg_id];
+        std::deque<std::size_t> const & vertices = local_cell_vertices[seg_id];
+
+        if (offsets.size() != num_cells || vertices.size() != num_cells * vertices_per_cell)
+          throw bad_file_format_exception("* ViennaGrid: vtk_reader::checkSegment(): Wrong number of cell offsets or cell vertices!");
+
+        for (std::size_t i=0; i<offsets.size(); ++i)
+        {
+          if (offsets[i] != (i+1) * vertices_per_cell)
+            throw bad_file_format_exception("* ViennaGrid: vtk_reader::checkSegment(): Cell with wrong number of vertices!");
+        }
+
+        for (std::size_t i=0; i<vertices.size(); ++i)
+        {
+          if (vertices[i] >= num_points)
+            throw bad_file_format_exception("* ViennaGrid: vtk_reader::checkSegment(): Cell refers to a point which does not exist!");
+        }
+
+        checkData(local_scalar_vertex_data[seg_id], num_points, 1);
+        checkData(local_vector_vertex_data[seg_id], num_points, 3);
+        checkData(local_scalar_cell_data[seg_id], num_cells, 1);
+        checkData(local_vector_cell_data[seg_id], num_cells, 3);
+      }
+
       /** @brief Parses a .vtu file referring to a segment of the mesh */
       void parse_vtu_segment(std::string filename, segment_id_type seg_id)
       {
@@ -784,6 +819,8 @@ namespace viennagrid
           tag.parse_and_check_name(reader, "/unstructuredgrid", filename);
           tag.parse_and_check_name(reader, "/vtkfile", filename);
 
+          checkSegment(seg_id);
+
           closeFile();
         }
         catch (std::exception const & ex) {
@@ -861,7 +898,8 @@ namespace viennagrid
 
         closeFile();
 
-        assert(filenames.size() > 0 && "No segments in pvd-file specified!");
+        if (filenames.empty())
+          throw bad_file_format_exception("* ViennaGrid: vtk_reader::process_pvd(): Parse error: No segments in pvd-file specified!");
 
         //
         // Step 2: Parse .vtu files:
-- 
2.43.0


From fd00e1199cd89bdcda58d5ba5c4f89263db1283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:22 +0000
Subject: [PATCH 16/43] fix: the VTK reader reports failures of .vtu files and
 stays usable

Failures while reading a .vtu file were printed and then ignored, so that the
caller got a partial or empty mesh as if all was well. The file stayed open after
a failure, and registered quantities of a failed read were used for the next one.
---
 viennagrid/io/vtk_reader.hpp | 49 +++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 30ee922..d0bc633 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -826,6 +826,7 @@ namespace viennagrid
         catch (std::exception const & ex) {
           std::cerr << "Problems while reading file " << filename << std::endl;
           std::cerr << "what(): " << ex.what() << std::endl;
+          throw;
         }
 
       }
@@ -915,22 +916,9 @@ namespace viennagrid
       }
 
 
-    public:
-
-
-      ~vtk_reader() { pre_clear(); post_clear(); }
-
-
-      /** @brief Triggers the read process.
-       *
-       * @param mesh_obj      The mesh to which the file content is read
-       * @param segmentation  The segmentation to which the file content is read
-       * @param filename      Name of the file containing the mesh. Either .pvd (multi-segment) or .vtu (single segment)
-       */
-      void operator()(MeshType & mesh_obj, SegmentationType & segmentation, std::string const & filename)
+      /** @brief Reads a file and pushes everything to the mesh. */
+      void read(MeshType & mesh_obj, SegmentationType & segmentation, std::string const & filename)
       {
-        pre_clear();
-
         std::string::size_type pos  = filename.rfind(".")+1;
         std::string extension = filename.substr(pos, filename.size());
 
@@ -970,6 +958,37 @@ namespace viennagrid
           setupCells(mesh_obj, segmentation, it->first);
           setupData(mesh_obj, segmentation, it->first);
         }
+      }
+
+
+    public:
+
+
+      ~vtk_reader() { pre_clear(); post_clear(); }
+
+
+      /** @brief Triggers the read process.
+       *
+       * @param mesh_obj      The mesh to which the file content is read
+       * @param segmentation  The segmentation to which the file content is read
+       * @param filename      Name of the file containing the mesh. Either .pvd (multi-segment) or .vtu (single segment)
+       */
+      void operator()(MeshType & mesh_obj, SegmentationType & segmentation, std::string const & filename)
+      {
+        pre_clear();
+
+        try
+        {
+          read(mesh_obj, segmentation, filename);
+        }
+        catch (...)
+        {
+          // do not leave anything behind for the next read
+          closeFile();
+          pre_clear();
+          post_clear();
+          throw;
+        }
 
         post_clear();
       } //operator()
-- 
2.43.0


From de44c4ba6256e7f5443f58b4fc57e7932b39f920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:19 +0000
Subject: [PATCH 17/43] fix: writers report files that could not be written
 completely

None of the writers looked at the result of writing or closing a file, so a full
disk or an I/O error went unnoticed. The VMesh and the MPHTXT writer did not even
notice that the file could not be created.
---
 viennagrid/io/helper.hpp        | 21 +++++++++++++++++++++
 viennagrid/io/mphtxt_writer.hpp |  6 ++++++
 viennagrid/io/opendx_writer.hpp |  1 +
 viennagrid/io/vmesh_writer.hpp  |  4 ++++
 viennagrid/io/vtk_writer.hpp    |  5 +++--
 5 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/helper.hpp b/viennagrid/io/helper.hpp
index 5c2f00f..63daf56 100644
--- a/viennagrid/io/helper.hpp
+++ b/viennagrid/io/helper.hpp
@@ -128,6 +128,15 @@ namespace viennagrid
       virtual ~cannot_open_file_exception() throw() {}
     };
 
+    /** @brief Provides an exception for the case a file cannot be written completely */
+    class cannot_write_file_exception : public std::runtime_error
+    {
+    public:
+      explicit cannot_write_file_exception(std::string message) : std::runtime_error(message) {}
+
+      virtual ~cannot_write_file_exception() throw() {}
+    };
+
     /** @brief Provides an exception for the case a parser problem occurs */
     class bad_file_format_exception : public std::runtime_error
     {
@@ -137,6 +146,18 @@ namespace viennagrid
       virtual ~bad_file_format_exception() throw() {}
     };
 
+    /** @brief Closes a file that has been written to. Throws a cannot_write_file_exception if not everything could be written
+     *
+     * @tparam FileStreamT    More a dummy template argument to disable external linkage of the function (for 'header-only' reasons)
+     */
+    template <typename FileStreamT>
+    void close_written_file(FileStreamT & writer, std::string const & filename)
+    {
+      writer.close();
+      if (!writer)
+        throw cannot_write_file_exception("* ViennaGrid: File " + filename + ": Cannot write file!");
+    }
+
   } //namespace io
 } //namespace  viennagrid
 
diff --git a/viennagrid/io/mphtxt_writer.hpp b/viennagrid/io/mphtxt_writer.hpp
index aba11b9..27170be 100644
--- a/viennagrid/io/mphtxt_writer.hpp
+++ b/viennagrid/io/mphtxt_writer.hpp
@@ -21,6 +21,8 @@
 #include "viennagrid/algorithm/boundary.hpp"
 #include "viennagrid/algorithm/geometry.hpp"
 
+#include "viennagrid/io/helper.hpp"
+
 #include "viennagrid/mesh/coboundary_iteration.hpp"
 #include "viennagrid/mesh/neighbor_iteration.hpp"
 
@@ -182,6 +184,9 @@ namespace viennagrid
           ss << filename << ".mphtxt";
         std::ofstream writer(ss.str().c_str());
 
+        if (!writer)
+          throw cannot_open_file_exception("* ViennaGrid: mphtxt_writer::operator(): File " + ss.str() + ": Cannot open file!");
+
         // writing the file header
         writer << "# Created by ViennaGrid mphtxt writer\n";
         writer << "\n";
@@ -407,6 +412,7 @@ namespace viennagrid
 
         writer << "\n";
         writer << "0\n";
+        close_written_file(writer, ss.str());
       }
 
 
diff --git a/viennagrid/io/opendx_writer.hpp b/viennagrid/io/opendx_writer.hpp
index 3fd7723..0f48fe3 100644
--- a/viennagrid/io/opendx_writer.hpp
+++ b/viennagrid/io/opendx_writer.hpp
@@ -201,6 +201,7 @@ namespace viennagrid
           writer << "component \"data\" \"VisData\" " << std::endl;
           writer << "component \"positions\" \"points\"" << std::endl;
           writer << "component \"connections\" \"grid_Line_One\"" << std::endl;
+          close_written_file(writer, filename);
         } // operator()
 
 
diff --git a/viennagrid/io/vmesh_writer.hpp b/viennagrid/io/vmesh_writer.hpp
index 39ff3a3..ff70a70 100644
--- a/viennagrid/io/vmesh_writer.hpp
+++ b/viennagrid/io/vmesh_writer.hpp
@@ -65,6 +65,9 @@ namespace viennagrid
           ss << outputfile << ".vmesh";
         std::ofstream writer(ss.str().c_str());
 
+        if (!writer)
+          throw cannot_open_file_exception("* ViennaGrid: vmesh_writer::operator(): File " + ss.str() + ": Cannot open file!");
+
         writer << "<mesh>" << std::endl;
         writer << indent_ << "<file>" << inputfile << "</file>" << std::endl;
         writer << indent_ << "<geomdim>" << typename viennagrid::result_of::point<MeshType>::type().size() << "</geomdim>" << std::endl;
@@ -84,6 +87,7 @@ namespace viennagrid
         }
         writer << indent_ << "</segmentation>" << std::endl;
         writer << "</mesh>" << std::endl;
+        close_written_file(writer, ss.str());
       }
 
       std::string empty_;
diff --git a/viennagrid/io/vtk_writer.hpp b/viennagrid/io/vtk_writer.hpp
index c59dec9..1b61328 100644
--- a/viennagrid/io/vtk_writer.hpp
+++ b/viennagrid/io/vtk_writer.hpp
@@ -446,6 +446,7 @@ namespace viennagrid
 
           writer << "  </Piece>" << std::endl;
           writeFooter(writer);
+          close_written_file(writer, ss.str());
 
         clear();
       }
@@ -493,7 +494,7 @@ namespace viennagrid
 
             writer << "  </Collection>" << std::endl;
             writer << "</VTKFile>" << std::endl;
-            writer.close();
+            close_written_file(writer, ss.str());
           }
 
           //
@@ -573,7 +574,7 @@ namespace viennagrid
 
             writer << "  </Piece>" << std::endl;
             writeFooter(writer);
-            writer.close();
+            close_written_file(writer, ss.str());
           }
 
         clear();
-- 
2.43.0


From 614d74c7c4ea1bd3f5480368309797b9686d9799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:39 +0000
Subject: [PATCH 18/43] fix: the VTK writer forgets registered quantities and
 indices also after a failure

After a failed write of a single file, the quantities and index maps of that write
were kept, and the next write with the same writer gave a wrong file.
---
 viennagrid/io/vtk_writer.hpp | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/viennagrid/io/vtk_writer.hpp b/viennagrid/io/vtk_writer.hpp
index 1b61328..28ab005 100644
--- a/viennagrid/io/vtk_writer.hpp
+++ b/viennagrid/io/vtk_writer.hpp
@@ -159,6 +159,20 @@ namespace viennagrid
         used_cell_map.clear();
       }
 
+      /** @brief Clears the writer at the end of a write, no matter whether it was successful */
+      class clear_at_exit
+      {
+      public:
+        explicit clear_at_exit(vtk_writer & writer) : writer_(writer) {}
+        ~clear_at_exit() { writer_.clear(); }
+
+      private:
+        clear_at_exit(clear_at_exit const &);
+        clear_at_exit & operator=(clear_at_exit const &);
+
+        vtk_writer & writer_;
+      };
+
       /** @brief Writes the XML file header */
       void writeHeader(std::ofstream & writer)
       {
@@ -397,6 +411,8 @@ namespace viennagrid
        */
       void operator()(MeshType const & mesh_obj, std::string const & filename)
       {
+          clear_at_exit clear_this_writer(*this);
+
           std::stringstream ss;
           ss << filename << ".vtu";
           std::ofstream writer(ss.str().c_str());
@@ -447,8 +463,6 @@ namespace viennagrid
           writer << "  </Piece>" << std::endl;
           writeFooter(writer);
           close_written_file(writer, ss.str());
-
-        clear();
       }
 
       /** @brief Triggers the write process to a XML file. Make sure that all data to be written to the file is already passed to the writer
@@ -459,6 +473,8 @@ namespace viennagrid
        */
       void operator()(MeshType const & mesh_obj, SegmentationType const & segmentation, std::string const & filename)
       {
+          clear_at_exit clear_this_writer(*this);
+
           if (segmentation.size() <= 1) return (*this)(mesh_obj, filename);
 
           //
@@ -477,10 +493,8 @@ namespace viennagrid
             if (pos != std::string::npos)
               short_filename = filename.substr(pos+1, filename.size());
 
-            if (!writer){
-              clear();
+            if (!writer)
               throw cannot_open_file_exception("* ViennaGrid: vtk_writer::operator(): File " + filename + ": Cannot open file!");
-            }
 
             writer << "<?xml version=\"1.0\"?>" << std::endl;
             writer << "<VTKFile type=\"Collection\" version=\"0.1\" byte_order=\"LittleEndian\" compressor=\"vtkZLibDataCompressor\">" << std::endl;
@@ -508,13 +522,11 @@ namespace viennagrid
             std::stringstream ss;
             ss << filename << "_" << seg.id() << ".vtu";
             std::ofstream writer(ss.str().c_str());
-            writeHeader(writer);
 
             if (!writer)
-            {
-              clear();
               throw cannot_open_file_exception("* ViennaGrid: vtk_writer::operator(): File " + ss.str() + ": Cannot open file!");
-            }
+
+            writeHeader(writer);
 
             std::size_t num_points = preparePoints(seg, seg.id());
             prepareCells(seg, seg.id());
@@ -576,8 +588,6 @@ namespace viennagrid
             writeFooter(writer);
             close_written_file(writer, ss.str());
           }
-
-        clear();
       }
 
 
-- 
2.43.0


From ba9ebd595dd8bae24a416681ca088ca941261578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:39 +0000
Subject: [PATCH 19/43] fix: the VTK writer completes the main file after the
 segments

When a set of files was written over an older one and the program ended in between,
the main file referred to a mixture of new and old segments that could be read
without any error. The main file now stays empty until all segments are stored.
---
 viennagrid/io/vtk_writer.hpp | 63 +++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/viennagrid/io/vtk_writer.hpp b/viennagrid/io/vtk_writer.hpp
index 28ab005..bc6cd85 100644
--- a/viennagrid/io/vtk_writer.hpp
+++ b/viennagrid/io/vtk_writer.hpp
@@ -478,38 +478,14 @@ namespace viennagrid
           if (segmentation.size() <= 1) return (*this)(mesh_obj, filename);
 
           //
-          // Step 1: Write meta information
+          // Step 1: Create the file with the meta information. It is left empty until all segments are written,
+          //         so that the segments of different writes are never taken as one mesh
           //
-          {
-            std::stringstream ss;
-            ss << filename << "_main.pvd";
-            std::ofstream writer(ss.str().c_str());
-
-            std::string short_filename = filename;
-            std::string::size_type pos = filename.rfind("/");
-            if (pos == std::string::npos)
-              pos = filename.rfind("\\");   //A tribute to Windows
-
-            if (pos != std::string::npos)
-              short_filename = filename.substr(pos+1, filename.size());
+          std::string main_filename = filename + "_main.pvd";
+          std::ofstream main_writer(main_filename.c_str());
 
-            if (!writer)
-              throw cannot_open_file_exception("* ViennaGrid: vtk_writer::operator(): File " + filename + ": Cannot open file!");
-
-            writer << "<?xml version=\"1.0\"?>" << std::endl;
-            writer << "<VTKFile type=\"Collection\" version=\"0.1\" byte_order=\"LittleEndian\" compressor=\"vtkZLibDataCompressor\">" << std::endl;
-            writer << "<Collection>" << std::endl;
-
-            for (typename SegmentationType::const_iterator it = segmentation.begin(); it != segmentation.end(); ++it)
-            {
-              SegmentHandleType const & seg = *it;
-              writer << "    <DataSet part=\"" << seg.id() << "\" file=\"" << short_filename << "_" << seg.id() << ".vtu\" name=\"Segment_" << seg.id() << "\"/>" << std::endl;
-            }
-
-            writer << "  </Collection>" << std::endl;
-            writer << "</VTKFile>" << std::endl;
-            close_written_file(writer, ss.str());
-          }
+          if (!main_writer)
+            throw cannot_open_file_exception("* ViennaGrid: vtk_writer::operator(): File " + filename + ": Cannot open file!");
 
           //
           // Step 2: Write segments to individual files
@@ -588,6 +564,33 @@ namespace viennagrid
             writeFooter(writer);
             close_written_file(writer, ss.str());
           }
+
+          //
+          // Step 3: Write meta information
+          //
+          {
+            std::string short_filename = filename;
+            std::string::size_type pos = filename.rfind("/");
+            if (pos == std::string::npos)
+              pos = filename.rfind("\\");   //A tribute to Windows
+
+            if (pos != std::string::npos)
+              short_filename = filename.substr(pos+1, filename.size());
+
+            main_writer << "<?xml version=\"1.0\"?>" << std::endl;
+            main_writer << "<VTKFile type=\"Collection\" version=\"0.1\" byte_order=\"LittleEndian\" compressor=\"vtkZLibDataCompressor\">" << std::endl;
+            main_writer << "<Collection>" << std::endl;
+
+            for (typename SegmentationType::const_iterator it = segmentation.begin(); it != segmentation.end(); ++it)
+            {
+              SegmentHandleType const & seg = *it;
+              main_writer << "    <DataSet part=\"" << seg.id() << "\" file=\"" << short_filename << "_" << seg.id() << ".vtu\" name=\"Segment_" << seg.id() << "\"/>" << std::endl;
+            }
+
+            main_writer << "  </Collection>" << std::endl;
+            main_writer << "</VTKFile>" << std::endl;
+            close_written_file(main_writer, main_filename);
+          }
       }
 
 
-- 
2.43.0


From 2451251eb7216c95c0e9c06540ba876402fa26ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:31 +0000
Subject: [PATCH 20/43] fix: the Netgen reader checks what it has read

Truncated or damaged numbers were used as coordinates, and cells referring to
vertices which do not exist led to accesses out of bounds.
---
 viennagrid/io/netgen_reader.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/viennagrid/io/netgen_reader.hpp b/viennagrid/io/netgen_reader.hpp
index 0ba1eed..a52c8f0 100644
--- a/viennagrid/io/netgen_reader.hpp
+++ b/viennagrid/io/netgen_reader.hpp
@@ -76,8 +76,8 @@ namespace viennagrid
         //
         // Read vertices:
         //
-        reader >> node_num;
-        assert(node_num > 0);
+        if (!(reader >> node_num) || node_num <= 0)
+          throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Cannot read number of vertices.");
 
         #if defined VIENNAGRID_DEBUG_STATUS || defined VIENNAGRID_DEBUG_IO
         std::cout << "* netgen_reader::operator(): Reading " << node_num << " vertices... " << std::endl;
@@ -95,6 +95,9 @@ namespace viennagrid
           for (std::size_t j=0; j<static_cast<std::size_t>(point_dim); j++)
             reader >> p[j];
 
+          if (!reader)
+            throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Cannot read vertex coordinates.");
+
           viennagrid::make_vertex_with_id( mesh_obj, typename VertexType::id_type(i), p );
         }
 
@@ -105,7 +108,8 @@ namespace viennagrid
         //
         // Read cells:
         //
-        reader >> cell_num;
+        if (!(reader >> cell_num) || cell_num < 0)
+          throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Cannot read number of cells.");
 
         #if defined VIENNAGRID_DEBUG_STATUS || defined VIENNAGRID_DEBUG_IO
         std::cout << "* netgen_reader::operator(): Reading " << cell_num << " cells... " << std::endl;
@@ -127,7 +131,9 @@ namespace viennagrid
             if (!reader.good())
               throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": EOF encountered while reading cells (cell ID expected).");
 
-            reader >> vertex_num;
+            if (!(reader >> vertex_num) || vertex_num < 1 || vertex_num > static_cast<std::size_t>(node_num))
+              throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Cell refers to a vertex which does not exist.");
+
             cell_vertex_handles[j] = viennagrid::vertices(mesh_obj).handle_at(vertex_num-1);
           }
 
-- 
2.43.0


From 5db2f874351f401e6faa8b9c75ca9671df12b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:10 +0000
Subject: [PATCH 21/43] fix: the Tetgen reader checks what it has read

Lines with missing numbers were used with undefined values, polygons without
vertices or with nodes which do not exist led to invalid memory accesses, and a
read error after the facets was taken for the end of the file.
---
 viennagrid/io/tetgen_poly_reader.hpp | 63 ++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 18 deletions(-)

diff --git a/viennagrid/io/tetgen_poly_reader.hpp b/viennagrid/io/tetgen_poly_reader.hpp
index 7880e7d..bcf2af3 100644
--- a/viennagrid/io/tetgen_poly_reader.hpp
+++ b/viennagrid/io/tetgen_poly_reader.hpp
@@ -128,6 +128,9 @@ namespace viennagrid
         typedef typename result_of::handle<MeshT, vertex_tag>::type          VertexHandleType;
         typedef typename VertexType::id_type VertexIDType;
 
+        typedef typename result_of::vertex_range<MeshT>::type                VertexRangeType;
+        typedef typename result_of::iterator<VertexRangeType>::type          VertexIteratorType;
+
         typedef typename result_of::handle<MeshT, line_tag>::type            LineHandleType;
 
         std::ifstream reader(filename.c_str());
@@ -163,7 +166,9 @@ namespace viennagrid
           throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": EOF encountered when reading information");
 
         current_line.str(tmp); current_line.clear();
-        current_line >> node_num >> dim >> attribute_num >> boundary_marker_num;
+        if (!(current_line >> node_num >> dim))
+          throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Cannot read number of nodes");
+        current_line >> attribute_num >> boundary_marker_num;
 
         if (node_num < 0)
           throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY file has less than 0 nodes");
@@ -193,6 +198,9 @@ namespace viennagrid
           for (std::size_t j=0; j<point_dim; j++)
             current_line >> p[j];
 
+          if (!current_line)
+            throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Cannot read node");
+
           viennagrid::make_vertex_with_id( mesh_obj, VertexIDType(id), p );
         }
 
@@ -209,7 +217,9 @@ namespace viennagrid
 
 
         current_line.str(tmp); current_line.clear();
-        current_line >> facet_num >> boundary_marker_num;
+        if (!(current_line >> facet_num))
+          throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Cannot read number of facets");
+        current_line >> boundary_marker_num;
 
         if (facet_num < 0)
           throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY file has less than 0 facets");
@@ -222,15 +232,17 @@ namespace viennagrid
 
         for (int i=0; i<facet_num; ++i)
         {
-          long polygon_num;
-          long hole_num;
+          long polygon_num = 0;
+          long hole_num = 0;
 
           if (!get_valid_line(reader, tmp))
             throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": EOF encountered when reading information");
 
 
           current_line.str(tmp); current_line.clear();
-          current_line >> polygon_num >> hole_num;
+          if (!(current_line >> polygon_num))
+            throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Cannot read number of polygons");
+          current_line >> hole_num;
 
           if (polygon_num < 0)
             throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY facet has less than 0 polygons");
@@ -249,18 +261,22 @@ namespace viennagrid
 
 
             current_line.str(tmp); current_line.clear();
-            current_line >> vertex_num;
-
-            if (vertex_num < 0)
-              throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY polygon has less than 0 vertices");
+            if (!(current_line >> vertex_num) || vertex_num < 1)
+              throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY polygon has less than 1 vertex");
 
-            std::vector<VertexHandleType> vertex_handles(static_cast<std::size_t>(vertex_num));
+            std::vector<VertexHandleType> vertex_handles;
 
             for (std::size_t k = 0; k<static_cast<std::size_t>(vertex_num); ++k)
             {
               typename VertexIDType::base_id_type id;
-              current_line >> id;
-              vertex_handles[k] = viennagrid::find( mesh_obj, VertexIDType(id) ).handle();
+              if (!(current_line >> id))
+                throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Cannot read polygon");
+
+              VertexIteratorType vit = viennagrid::find( mesh_obj, VertexIDType(id) );
+              if (vit == viennagrid::vertices(mesh_obj).end())
+                throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY polygon refers to a node which does not exist");
+
+              vertex_handles.push_back( vit.handle() );
             }
 
             if (vertex_num == 1)
@@ -298,6 +314,9 @@ namespace viennagrid
             for (std::size_t k=0; k<point_dim; k++)
               current_line >> p[k];
 
+            if (!current_line)
+              throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Cannot read hole of a facet");
+
             hole_points_read.push_back(p);
           }
 
@@ -318,14 +337,15 @@ namespace viennagrid
 
         if (!get_valid_line(reader, tmp))
         {
+          if (reader.bad())
+            throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Read error");
+
           // no holes -> Okay, SUCCESS xD
           return;
         }
 
         current_line.str(tmp); current_line.clear();
-        current_line >> hole_num;
-
-        if (hole_num < 0)
+        if (!(current_line >> hole_num) || hole_num < 0)
           throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY file has less than 0 holes");
 
         for (int i=0; i<hole_num; ++i)
@@ -342,6 +362,9 @@ namespace viennagrid
           for (std::size_t j=0; j < point_dim; j++)
             current_line >> hole_point[j];
 
+          if (!current_line)
+            throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Cannot read hole");
+
           hole_points.push_back( hole_point );
         }
 
@@ -352,14 +375,15 @@ namespace viennagrid
 
         if (!get_valid_line(reader, tmp))
         {
+          if (reader.bad())
+            throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Read error");
+
           // no region -> SUCCESS xD
           return;
         }
 
         current_line.str(tmp); current_line.clear();
-        current_line >> segment_num;
-
-        if (segment_num < 0)
+        if (!(current_line >> segment_num) || segment_num < 0)
           throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": POLY file has less than 0 segments");
 
         for (int i=0; i<segment_num; ++i)
@@ -379,6 +403,9 @@ namespace viennagrid
 
           current_line >> segment_id;
 
+          if (!current_line)
+            throw bad_file_format_exception("* ViennaGrid: tetgen_poly_reader::operator(): File " + filename + ": Cannot read region");
+
           seed_points.push_back( std::make_pair(seed_point, segment_id) );
         }
       } //operator()
-- 
2.43.0


From d8837345ce11644f54c377024d8f4625d4d481a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:57 +0000
Subject: [PATCH 22/43] fix: the Neper reader checks what it has read

The end of the file and missing numbers were ignored, faces without vertices or
with vertices which do not exist led to invalid memory accesses, and a read error
was taken for the end of the file.
---
 viennagrid/io/neper_tess_reader.hpp | 86 ++++++++++++++++++++++-------
 1 file changed, 66 insertions(+), 20 deletions(-)

diff --git a/viennagrid/io/neper_tess_reader.hpp b/viennagrid/io/neper_tess_reader.hpp
index 31a8f3b..fe8af91 100644
--- a/viennagrid/io/neper_tess_reader.hpp
+++ b/viennagrid/io/neper_tess_reader.hpp
@@ -38,6 +38,35 @@ namespace viennagrid
       */
     struct neper_tess_reader
     {
+    private:
+
+      /** @brief Reads a line. Throws a bad_file_format_exception if there is none left. */
+      static void read_line(std::ifstream & reader, std::string & line, std::string const & filename)
+      {
+        if (!std::getline(reader, line))
+          throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Unexpected end of file.");
+      }
+
+      /** @brief Throws a bad_file_format_exception if something could not be read from a line. */
+      static void check_line(std::istringstream const & line, std::string const & filename)
+      {
+        if (!line)
+          throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Cannot read number.");
+      }
+
+      /** @brief Returns the element with the given ID. Throws a bad_file_format_exception if there is none. */
+      template <typename HandleT>
+      static HandleT find_id(std::map<int, HandleT> const & handles, int id, std::string const & filename)
+      {
+        typename std::map<int, HandleT>::const_iterator it = handles.find(id);
+        if (it == handles.end())
+          throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Face refers to a vertex which does not exist.");
+
+        return it->second;
+      }
+
+    public:
+
       /** @brief The functor interface triggering the read operation. Segmentations are not supported in this version.
        *
        * @param mesh_obj      The mesh where the file content is written to
@@ -97,26 +126,29 @@ namespace viennagrid
 
           if (tmp.find("**vertex") != std::string::npos)
           {
-            std::getline(reader, tmp);
+            read_line(reader, tmp, filename);
 
             int num_vertices;
             current_line.str(tmp); current_line.clear();
             current_line >> num_vertices;
+            check_line(current_line, filename);
 
             for (int i = 0; i < num_vertices; ++i)
             {
-              std::getline(reader, tmp);
+              read_line(reader, tmp, filename);
               int vertex_id;
               current_line.str(tmp); current_line.clear();
               current_line >> vertex_id;
+              check_line(current_line, filename);
 
-              std::getline(reader, tmp);
-              std::getline(reader, tmp);
+              read_line(reader, tmp, filename);
+              read_line(reader, tmp, filename);
 
               PointType p;
               current_line.str(tmp); current_line.clear();
               for (int j = 0; j < std::min(point_dim,3); ++j)
                 current_line >> p[j];
+              check_line(current_line, filename);
 
               vertices[vertex_id] = viennagrid::make_vertex(mesh_obj, p);
             }
@@ -126,27 +158,36 @@ namespace viennagrid
 
           if (tmp.find("**face") != std::string::npos)
           {
-            std::getline(reader, tmp);
+            read_line(reader, tmp, filename);
 
             int num_faces;
             current_line.str(tmp); current_line.clear();
             current_line >> num_faces;
+            check_line(current_line, filename);
 
             for (int i = 0; i < num_faces; ++i)
             {
-              std::getline(reader, tmp);
-              std::getline(reader, tmp);
-              std::getline(reader, tmp);
-              std::getline(reader, tmp);
+              read_line(reader, tmp, filename);
+              read_line(reader, tmp, filename);
+              read_line(reader, tmp, filename);
+              read_line(reader, tmp, filename);
 
               int num_vertex_ids;
               std::vector<int> vertex_ids;
               current_line.str(tmp); current_line.clear();
               current_line >> num_vertex_ids;
-              vertex_ids.resize(num_vertex_ids);
+              check_line(current_line, filename);
+
+              if (num_vertex_ids < 1)
+                throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Face without vertices.");
 
               for (int j = 0; j < num_vertex_ids; ++j)
-                current_line >> vertex_ids[j];
+              {
+                int id;
+                current_line >> id;
+                check_line(current_line, filename);
+                vertex_ids.push_back(id);
+              }
 
               std::vector<LineHandleType> plc_line_handles;
               for (int j = 1; j < num_vertex_ids; ++j)
@@ -160,7 +201,7 @@ namespace viennagrid
                   plc_line_handles.push_back( lit->second );
                 else
                 {
-                  LineHandleType l = viennagrid::make_line( mesh_obj, vertices[line.first], vertices[line.second] );
+                  LineHandleType l = viennagrid::make_line( mesh_obj, find_id(vertices, line.first, filename), find_id(vertices, line.second, filename) );
                   lines[line] = l;
                   plc_line_handles.push_back(l);
                 }
@@ -176,7 +217,7 @@ namespace viennagrid
                   plc_line_handles.push_back( lit->second );
                 else
                 {
-                  LineHandleType l = viennagrid::make_line( mesh_obj, vertices[line.first], vertices[line.second] );
+                  LineHandleType l = viennagrid::make_line( mesh_obj, find_id(vertices, line.first, filename), find_id(vertices, line.second, filename) );
                   lines[line] = l;
                   plc_line_handles.push_back(l);
                 }
@@ -186,9 +227,9 @@ namespace viennagrid
 
               viennagrid::make_plc( mesh_obj, plc_line_handles.begin(), plc_line_handles.end() );
 
-              std::getline(reader, tmp);
-              std::getline(reader, tmp);
-              std::getline(reader, tmp);
+              read_line(reader, tmp, filename);
+              read_line(reader, tmp, filename);
+              read_line(reader, tmp, filename);
             }
           }
 
@@ -196,15 +237,16 @@ namespace viennagrid
 
           if (tmp.find("**polyhedron") != std::string::npos)
           {
-            std::getline(reader, tmp);
+            read_line(reader, tmp, filename);
 
             int num_polyhedrons;
             current_line.str(tmp); current_line.clear();
             current_line >> num_polyhedrons;
+            check_line(current_line, filename);
 
             for (int i = 0; i < num_polyhedrons; ++i)
             {
-              std::getline(reader, tmp);
+              read_line(reader, tmp, filename);
               int polyherdon_id;
               current_line.str(tmp); current_line.clear();
               current_line >> polyherdon_id;
@@ -212,14 +254,18 @@ namespace viennagrid
               PointType p;
               for (int j = 0; j < std::min(point_dim,3); ++j)
                 current_line >> p[j];
+              check_line(current_line, filename);
 
               seed_points.push_back( std::make_pair(p, polyherdon_id) );
-              std::getline(reader, tmp);
-              std::getline(reader, tmp);
+              read_line(reader, tmp, filename);
+              read_line(reader, tmp, filename);
             }
           }
 
         }
+
+        if (reader.bad())
+          throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + ": Read error.");
       } //operator()
 
     }; //class tetgen_poly_reader
-- 
2.43.0


From 07409f65345efc2c6f9d5565f444f714d179623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:56 +0000
Subject: [PATCH 23/43] fix: the BND reader reports damaged files

The end of the file was an endless loop, damaged indices and counts led to accesses
out of bounds or huge allocations, and everything that was noticed was printed and
then ignored. A second read with the same bnd_helper was appended to the first.
---
 viennagrid/io/bnd_reader.hpp | 167 +++++++++++++++++++++++------------
 1 file changed, 109 insertions(+), 58 deletions(-)

diff --git a/viennagrid/io/bnd_reader.hpp b/viennagrid/io/bnd_reader.hpp
index 023b9c0..ca8c4fe 100644
--- a/viennagrid/io/bnd_reader.hpp
+++ b/viennagrid/io/bnd_reader.hpp
@@ -240,6 +240,8 @@ namespace viennagrid
 
       int operator()(std::string const & filename)
       {
+        clear();
+
         std::ifstream reader(filename.c_str());
 
         if (!reader){
@@ -257,17 +259,20 @@ namespace viennagrid
           int DIMG;
           while(1)
           {
-            reader >> token;
+            read_value(reader, token);
             if(token == "dimension")
             {
-               reader >> token;
-               reader >> DIMG;
+               read_value(reader, token);
+               read_value(reader, DIMG);
                break;
             }
           }
         #ifdef VIENNAGRID_DEBUG_IO
           std::cout << "geometry dimension: " << DIMG << std::endl;
         #endif
+          if (DIMG != 2 && DIMG != 3)
+            throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): Geometric dimension is not supported.");
+
           dim_geometry = DIMG;
 
         #ifdef VIENNAGRID_DEBUG_IO
@@ -275,11 +280,11 @@ namespace viennagrid
         #endif
           while(1)
           {
-            reader >> token;
+            read_value(reader, token);
             if(token == "nb_regions")
             {
-               reader >> token;
-               reader >> number_of_regions;
+               read_value(reader, token);
+               read_value(reader, number_of_regions);
                break;
             }
           }
@@ -297,14 +302,14 @@ namespace viennagrid
 
           while(1)
           {
-            std::getline(reader, token);
+            read_line(reader, token);
 
             if(token.find("Vertices") != std::string::npos)
             {
               std::string::size_type delimiter_left = token.find("(")+1;
               std::string::size_type delimiter_right = token.find(")");
               std::string vertices_str = token.substr(delimiter_left, delimiter_right-delimiter_left);
-              vertices = lexical_cast<std::size_t>(vertices_str);
+              vertices = to_count(vertices_str);
               break;
             }
           }
@@ -313,17 +318,15 @@ namespace viennagrid
           std::cout << "vertices: " << vertices << std::endl;
         #endif
 
-          geometry.resize(vertices);
-
           point_type coords(DIMG);
 
           for(std::size_t vi = 0; vi < vertices; vi++)
           {
             for (int j=0; j < DIMG; j++)
             {
-              reader >> coords[j];
+              read_value(reader, coords[j]);
             }
-            geometry[vi] = coords;
+            geometry.push_back(coords);
           }
 
         #ifdef VIENNAGRID_DEBUG_IO
@@ -343,14 +346,14 @@ namespace viennagrid
 
           while(1)
           {
-            std::getline(reader, token);
+            read_line(reader, token);
 
             if(token.find("Edges") != std::string::npos)
             {
               std::string::size_type delimiter_left = token.find("(")+1;
               std::string::size_type delimiter_right = token.find(")");
               std::string edges_str = token.substr(delimiter_left, delimiter_right-delimiter_left);
-              edges = lexical_cast<std::size_t>(edges_str);
+              edges = to_count(edges_str);
               break;
             }
           }
@@ -359,14 +362,14 @@ namespace viennagrid
           std::cout << "edges: " << edges << std::endl;
         #endif
 
-          edge_cont.resize(edges);
-
           edge_type edge(2);
           for(std::size_t i = 0; i < edges; i++)
           {
-            reader >> edge[0];
-            reader >> edge[1];
-            edge_cont[i] = edge;
+            read_value(reader, edge[0]);
+            read_value(reader, edge[1]);
+            check_index(edge[0], geometry);
+            check_index(edge[1], geometry);
+            edge_cont.push_back(edge);
           }
 
         #ifdef VIENNAGRID_DEBUG_IO
@@ -379,14 +382,14 @@ namespace viennagrid
 
              while(1)
              {
-               std::getline(reader, token);
+               read_line(reader, token);
 
                if(token.find("Faces") != std::string::npos)
                {
                  std::string::size_type delimiter_left = token.find("(")+1;
                  std::string::size_type delimiter_right = token.find(")");
                  std::string faces_str = token.substr(delimiter_left, delimiter_right-delimiter_left);
-                 faces = lexical_cast<std::size_t>(faces_str);
+                 faces = to_count(faces_str);
                  break;
                }
              }
@@ -395,21 +398,22 @@ namespace viennagrid
              std::cout << "faces: " << faces << std::endl;
            #endif
 
-             polygon_cont.resize(faces);
-
              std::size_t face_dim = 0;
 
              for(std::size_t fi = 0; fi < faces; fi++)
              {
-               reader >> face_dim; // number of vertices of this face
+               read_value(reader, face_dim); // number of vertices of this face
 
                //std::cout << "face dim: " << face_dim << std::endl;
 
-               polygon_cont[fi].resize(face_dim);
+               polygon_cont.push_back(polygon_type());
 
                for (std::size_t j=0; j < face_dim; j++)
                {
-                 reader >> polygon_cont[fi][j];
+                 index_type edge_index;
+                 read_value(reader, edge_index);
+                 check_index(map(edge_index), edge_cont);
+                 polygon_cont.back().push_back(edge_index);
                }
              }
 
@@ -426,14 +430,14 @@ namespace viennagrid
 
           while(1)
           {
-            std::getline(reader, token);
+            read_line(reader, token);
 
             if(token.find("Elements") != std::string::npos)
             {
               std::string::size_type delimiter_left = token.find("(")+1;
               std::string::size_type delimiter_right = token.find(")");
               std::string elements_str = token.substr(delimiter_left, delimiter_right-delimiter_left);
-              elements = lexical_cast<std::size_t>(elements_str);
+              elements = to_count(elements_str);
               break;
             }
           }
@@ -442,16 +446,20 @@ namespace viennagrid
           std::cout << "elements: " << elements << std::endl;
         #endif
 
-          domain.resize(elements);
-
           for(std::size_t i = 0; i < elements; i++)
           {
-            reader >> token; // element type, ie, 10 ... polyhedron
+            read_value(reader, token); // element type, ie, 10 ... polyhedron
 
             if(token == "10") // aka a 3d bnd file segment
             {
+              // segments precede contacts, because contacts are numbered after the segments
+              if (!contact_face_cont.empty())
+                throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): Segment element after contact element.");
+
+              domain.push_back(polygon_container_type());
+
               std::size_t element_faces = 0;
-              reader >> element_faces;
+              read_value(reader, element_faces);
 
             #ifdef VIENNAGRID_DEBUG_IO
               std::cout << "  type: segment-polyhedron" << std::endl;
@@ -461,8 +469,9 @@ namespace viennagrid
               for(std::size_t f = 0; f < element_faces; f++)
               {
                 index_type face;
-                reader >> face;
+                read_value(reader, face);
                 index_type mapped_face = map(face);
+                check_index(mapped_face, polygon_cont);
 
                 polygon_type polygon = polygon_cont[mapped_face];
 
@@ -490,13 +499,19 @@ namespace viennagrid
                   }
                 }
                 //std::cout << "adapt: " << polygon_new;
-                domain[i].push_back(polygon_new);
+                domain.back().push_back(polygon_new);
               }
             }
             else if(token == "4")  // aka a 2d bnd file segment
             {
+              // segments precede contacts, because contacts are numbered after the segments
+              if (!contact_face_cont.empty())
+                throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): Segment element after contact element.");
+
+              domain.push_back(polygon_container_type());
+
               std::size_t element_faces = 0;
-              reader >> element_faces;
+              read_value(reader, element_faces);
 
             #ifdef VIENNAGRID_DEBUG_IO
               std::cout << "  type: segment-polygon" << std::endl;
@@ -506,14 +521,15 @@ namespace viennagrid
               for(std::size_t f = 0; f < element_faces; f++)
               {
                 index_type face;
-                reader >> face;
+                read_value(reader, face);
                 index_type mapped_face = map(face);
+                check_index(mapped_face, edge_cont);
 
                 edge_type edge = edge_cont[mapped_face];
 
                 //std::cout << "adapt: " << polygon_new;
                 //std::cout << "adding edge: " << edge[0] << " " << edge[1] << std::endl;
-                domain[i].push_back(edge);
+                domain.back().push_back(edge);
               }
 
             }
@@ -527,14 +543,13 @@ namespace viennagrid
               std::cout << "  type: contact-triangle" << std::endl;
             #endif
               contact_face_type contact_face(3);
-              reader >> contact_face[0];
-              reader >> contact_face[1];
-              reader >> contact_face[2];
+              read_value(reader, contact_face[0]);
+              read_value(reader, contact_face[1]);
+              read_value(reader, contact_face[2]);
+              for (std::size_t j = 0; j < contact_face.size(); ++j)
+                check_index(map(contact_face[j]), edge_cont);
               //std::cout << contact_face[0] << " " << contact_face[1] << " " << contact_face[2] << std::endl;
               contact_face_cont.push_back(contact_face);
-
-              // we have to reduce the domain size, as this is not a valid segment
-              domain.resize(domain.size()-1);
             }
             else if(token == "1") // aka a 2d bnd file contact
             {
@@ -545,13 +560,10 @@ namespace viennagrid
               std::cout << "  type: contact-line" << std::endl;
             #endif
               contact_face_type contact_face(2);
-              reader >> contact_face[0];
-              reader >> contact_face[1];
+              read_value(reader, contact_face[0]);
+              read_value(reader, contact_face[1]);
               //std::cout << contact_face[0] << " " << contact_face[1] << std::endl;
               contact_face_cont.push_back(contact_face);
-
-              // we have to reduce the domain size, as this is not a valid segment
-              domain.resize(domain.size()-1);
             }
             else
             {
@@ -572,11 +584,9 @@ namespace viennagrid
           segment_id_cont.resize(domainsize);
           std::size_t region_cnt = 0;
 
-          contact_groups.resize(number_of_regions-domainsize);
-
-          while(1)
+          while(region_cnt != number_of_regions)
           {
-            std::getline(reader, token);
+            read_line(reader, token);
 
             if(token.find("Region") != std::string::npos)
             {
@@ -590,7 +600,7 @@ namespace viennagrid
 
               while(1)
               {
-                std::getline(reader, token);
+                read_line(reader, token);
 
                 if(token.find("material") != std::string::npos)
                 {
@@ -604,14 +614,14 @@ namespace viennagrid
                  std::size_t elements = 0;
                   while(1)
                   {
-                    std::getline(reader, token);
+                    read_line(reader, token);
 
                     if(token.find("Elements") != std::string::npos)
                     {
                       std::string::size_type delimiter_left = token.find("(")+1;
                       std::string::size_type delimiter_right = token.find(")");
                       std::string elements_str = token.substr(delimiter_left, delimiter_right-delimiter_left);
-                      elements = lexical_cast<std::size_t>(elements_str);
+                      elements = to_count(elements_str);
                       break;
                     }
                   }
@@ -620,11 +630,16 @@ namespace viennagrid
                   {
                     // store the contact name
                     contact_id_cont.push_back(name);
+                    contact_groups.push_back(contact_face_container_type());
 
                     for(std::size_t i = 0; i < elements; i++)
                     {
                       // read the elment id
-                      reader >> ei;
+                      read_value(reader, ei);
+
+                      if (ei < domainsize)
+                        throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): Contact refers to a segment element.");
+                      check_index(ei-domainsize, contact_face_cont);
 
                       // determine the contact cells
                       if(DIMG == 2)
@@ -666,7 +681,9 @@ namespace viennagrid
                     for(std::size_t i = 0; i < elements; i++)
                     {
                       // read the elment id
-                      reader >> ei;
+                      read_value(reader, ei);
+
+                      check_index(ei, segment_id_cont);
 
                       // store the name and material info on the related segment id
                       segment_id_cont[ei] = std::pair<std::string, std::string>(name, material);
@@ -676,11 +693,11 @@ namespace viennagrid
                 }
               }
             }
-            if(region_cnt == number_of_regions) break;
           }
 
         } catch (...) {
           std::cerr << "Problems while reading file " << filename << std::endl;
+          throw;
         }
 
         return EXIT_SUCCESS;
@@ -777,6 +794,40 @@ namespace viennagrid
       }
 
     private:
+      /** @brief Reads a value. Throws a bad_file_format_exception if this is not possible. */
+      template <typename ValueT>
+      static void read_value(std::ifstream & reader, ValueT & value)
+      {
+        if (!(reader >> value))
+          throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): Unexpected end of file or bad number.");
+      }
+
+      /** @brief Reads a line. Throws a bad_file_format_exception if there is none left. */
+      static void read_line(std::ifstream & reader, std::string & line)
+      {
+        if (!std::getline(reader, line))
+          throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): Unexpected end of file.");
+      }
+
+      /** @brief Converts a string to a number. Throws a bad_file_format_exception if this is not possible. */
+      static std::size_t to_count(std::string const & str)
+      {
+        std::size_t count = 0;
+        std::istringstream stream(str);
+        if (!(stream >> count))
+          throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): Bad number.");
+
+        return count;
+      }
+
+      /** @brief Throws a bad_file_format_exception if there is no element with the given index. */
+      template <typename ContainerT>
+      static void check_index(index_type index, ContainerT const & container)
+      {
+        if (index < 0 || static_cast<std::size_t>(index) >= container.size())
+          throw bad_file_format_exception("* ViennaGrid: bnd_helper::operator(): Index out of range.");
+      }
+
       index_type map(index_type index)
       {
         if(index >= 0) return index;
-- 
2.43.0


From dabd59c69029df759a51e8eb60ab04fe8b0bde02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:46 +0000
Subject: [PATCH 24/43] fix: registering a quantity at a reader or writer
 neither leaks nor leaves a dangling entry when memory runs out

---
 viennagrid/io/opendx_writer.hpp | 16 ++++++++++------
 viennagrid/io/vtk_reader.hpp    | 16 ++++++++++------
 viennagrid/io/vtk_writer.hpp    | 16 ++++++++++------
 3 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/viennagrid/io/opendx_writer.hpp b/viennagrid/io/opendx_writer.hpp
index 0f48fe3..10c63f6 100644
--- a/viennagrid/io/opendx_writer.hpp
+++ b/viennagrid/io/opendx_writer.hpp
@@ -211,14 +211,18 @@ namespace viennagrid
       template<typename MapType, typename AccessorOrFieldType>
       void add_to_container(MapType & map, AccessorOrFieldType const accessor_or_field, std::string const & name)
       {
-          typename MapType::iterator it = map.find(name);
-          if (it != map.end())
+          typename MapType::mapped_type wrapper = new dynamic_field_wrapper<const AccessorOrFieldType>( accessor_or_field );
+          try
           {
-            delete it->second;
-            it->second = new dynamic_field_wrapper<const AccessorOrFieldType>( accessor_or_field );
+            typename MapType::mapped_type & entry = map[name];
+            delete entry;
+            entry = wrapper;
+          }
+          catch (...)
+          {
+            delete wrapper;
+            throw;
           }
-          else
-            map[name] = new dynamic_field_wrapper<const AccessorOrFieldType>( accessor_or_field );
       }
 
 
diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index d0bc633..d45be17 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -1101,14 +1101,18 @@ namespace viennagrid
       template<typename MapType, typename AccessorOrFieldType>
       void register_to_map(MapType & map, AccessorOrFieldType accessor_or_field, std::string const & name)
       {
-          typename MapType::iterator it = map.find(name);
-          if (it != map.end())
+          typename MapType::mapped_type wrapper = new dynamic_field_wrapper<AccessorOrFieldType>( accessor_or_field );
+          try
           {
-            delete it->second;
-            it->second = new dynamic_field_wrapper<AccessorOrFieldType>( accessor_or_field );
+            typename MapType::mapped_type & entry = map[name];
+            delete entry;
+            entry = wrapper;
+          }
+          catch (...)
+          {
+            delete wrapper;
+            throw;
           }
-          else
-            map[name] = new dynamic_field_wrapper<AccessorOrFieldType>( accessor_or_field );
       }
 
 
diff --git a/viennagrid/io/vtk_writer.hpp b/viennagrid/io/vtk_writer.hpp
index bc6cd85..37a341e 100644
--- a/viennagrid/io/vtk_writer.hpp
+++ b/viennagrid/io/vtk_writer.hpp
@@ -601,14 +601,18 @@ namespace viennagrid
     template<typename MapType, typename AccessorOrFieldType, typename AccessType>
     void add_to_container(MapType & map, AccessorOrFieldType const accessor_or_field, std::string const & quantity_name)
     {
-        typename MapType::iterator it = map.find(quantity_name);
-        if (it != map.end())
+        typename MapType::mapped_type wrapper = new dynamic_field_wrapper<const AccessorOrFieldType, AccessType>( accessor_or_field );
+        try
         {
-          delete it->second;
-          it->second = new dynamic_field_wrapper<const AccessorOrFieldType, AccessType>( accessor_or_field );
+          typename MapType::mapped_type & entry = map[quantity_name];
+          delete entry;
+          entry = wrapper;
+        }
+        catch (...)
+        {
+          delete wrapper;
+          throw;
         }
-        else
-          map[quantity_name] = new dynamic_field_wrapper<const AccessorOrFieldType, AccessType>( accessor_or_field );
     }
 
     template<typename MapType, typename AccessorOrFieldType>
-- 
2.43.0


From cd20a8faf96b2f06f3c2104119934fee59d51a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:46 +0000
Subject: [PATCH 25/43] fix: the OpenDX writer releases the registered data

---
 viennagrid/io/opendx_writer.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/viennagrid/io/opendx_writer.hpp b/viennagrid/io/opendx_writer.hpp
index 10c63f6..c2308cb 100644
--- a/viennagrid/io/opendx_writer.hpp
+++ b/viennagrid/io/opendx_writer.hpp
@@ -106,6 +106,17 @@ namespace viennagrid
 
 
       public:
+
+        opendx_writer() {}
+
+        ~opendx_writer()
+        {
+          for (typename VertexScalarOutputAccessorContainer::iterator it = vertex_scalar_data.begin(); it != vertex_scalar_data.end(); ++it)
+            delete it->second;
+          for (typename CellScalarOutputAccessorContainer::iterator it = cell_scalar_data.begin(); it != cell_scalar_data.end(); ++it)
+            delete it->second;
+        }
+
         /** @brief Triggers the writing of the mesh to a file
          *
          * @param mesh_obj  A ViennaGrid mesh
@@ -258,6 +269,10 @@ namespace viennagrid
 
       private:
 
+        // owns the registered data
+        opendx_writer(opendx_writer const &);
+        opendx_writer & operator=(opendx_writer const &);
+
         VertexScalarOutputAccessorContainer          vertex_scalar_data;
         CellScalarOutputAccessorContainer            cell_scalar_data;
 
-- 
2.43.0


From a6642984f2981f69e3a835596d2e8e20fce40fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:46 +0000
Subject: [PATCH 26/43] fix: OpenDX cells refer to the position of their
 vertices in the file

---
 viennagrid/io/opendx_writer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/viennagrid/io/opendx_writer.hpp b/viennagrid/io/opendx_writer.hpp
index c2308cb..56d53fd 100644
--- a/viennagrid/io/opendx_writer.hpp
+++ b/viennagrid/io/opendx_writer.hpp
@@ -139,10 +139,13 @@ namespace viennagrid
 
           //Nodes:
           VertexRange vertices = viennagrid::elements<vertex_tag>(mesh_obj);
+          std::map<typename VertexType::id_type, std::size_t> vertex_indices;
           for (VertexIterator vit = vertices.begin();
               vit != vertices.end();
               ++vit)
           {
+            std::size_t vertex_index = vertex_indices.size();
+            vertex_indices[vit->id()] = vertex_index;
             PointWriter<geometric_dim>::write(writer, viennagrid::point( mesh_obj, *vit ) );
             writer << std::endl;
           }
@@ -163,7 +166,7 @@ namespace viennagrid
                 ++vocit)
             {
               VertexType const & vertex = *vocit;
-              writer << vertex.id() << " ";
+              writer << vertex_indices[vertex.id()] << " ";
             }
             writer << std::endl;
           }
-- 
2.43.0


From 83f959a100c4db14e0795d60d27ee5d199b046e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:46 +0000
Subject: [PATCH 27/43] fix: the Comsol writer accepts tetrahedra which are in
 no segment

---
 viennagrid/io/mphtxt_writer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/viennagrid/io/mphtxt_writer.hpp b/viennagrid/io/mphtxt_writer.hpp
index 27170be..2db81f3 100644
--- a/viennagrid/io/mphtxt_writer.hpp
+++ b/viennagrid/io/mphtxt_writer.hpp
@@ -407,7 +407,10 @@ namespace viennagrid
           typedef typename viennagrid::result_of::segment_id_range<SegmentationT, TetrahedronType>::type SegmentIDRange;
 
           SegmentIDRange segment_ids = viennagrid::segment_ids( segmentation, *tit );
-          writer << *(segment_ids.begin())+1 << "\n";
+          if (segment_ids.begin() == segment_ids.end())
+            writer << 0 << "\n";
+          else
+            writer << *(segment_ids.begin())+1 << "\n";
         }
 
         writer << "\n";
-- 
2.43.0


From 0121faec880cfd3a7e8b92c1b6ccc9f17785ffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:59 +0000
Subject: [PATCH 28/43] fix: the VTK writer pads vector values with less than
 three entries

---
 viennagrid/io/vtk_writer.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/viennagrid/io/vtk_writer.hpp b/viennagrid/io/vtk_writer.hpp
index 37a341e..d046f09 100644
--- a/viennagrid/io/vtk_writer.hpp
+++ b/viennagrid/io/vtk_writer.hpp
@@ -55,12 +55,8 @@ namespace viennagrid
       static int num_components() { return 3; }
       static void write( std::ostream & os, value_type const & value )
       {
-        os << value[0] << " " << value[1] << " " << value[2];
-//         for (int i = 0; i < std::min(value.size(), std::size_t(3)); ++i)
-//           os << value[i] << " ";
-//
-//         for (int i = std::min(value.size(), std::size_t(3)); i < 3; ++i)
-//           os << "0 ";
+        for (std::size_t i = 0; i < 3; ++i)
+          os << (i > 0 ? " " : "") << (i < value.size() ? value[i] : 0.0);
       }
     };
 
-- 
2.43.0


From d15713e10df704a847f11712d33f993b2e9cdd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:03 +0000
Subject: [PATCH 29/43] fix: writers do not shorten the file name silently when
 memory runs out

---
 viennagrid/io/mphtxt_writer.hpp | 14 ++++++--------
 viennagrid/io/vmesh_writer.hpp  | 14 ++++++--------
 viennagrid/io/vtk_writer.hpp    | 16 ++++++++--------
 3 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/viennagrid/io/mphtxt_writer.hpp b/viennagrid/io/mphtxt_writer.hpp
index 2db81f3..385e290 100644
--- a/viennagrid/io/mphtxt_writer.hpp
+++ b/viennagrid/io/mphtxt_writer.hpp
@@ -177,15 +177,13 @@ namespace viennagrid
 
 
 
-        std::stringstream ss;
-        if(filename.substr( filename.rfind(".")+1 ) == "mphtxt")
-          ss << filename;
-        else
-          ss << filename << ".mphtxt";
-        std::ofstream writer(ss.str().c_str());
+        std::string full_filename = filename;
+        if(filename.substr( filename.rfind(".")+1 ) != "mphtxt")
+          full_filename += ".mphtxt";
+        std::ofstream writer(full_filename.c_str());
 
         if (!writer)
-          throw cannot_open_file_exception("* ViennaGrid: mphtxt_writer::operator(): File " + ss.str() + ": Cannot open file!");
+          throw cannot_open_file_exception("* ViennaGrid: mphtxt_writer::operator(): File " + full_filename + ": Cannot open file!");
 
         // writing the file header
         writer << "# Created by ViennaGrid mphtxt writer\n";
@@ -415,7 +413,7 @@ namespace viennagrid
 
         writer << "\n";
         writer << "0\n";
-        close_written_file(writer, ss.str());
+        close_written_file(writer, full_filename);
       }
 
 
diff --git a/viennagrid/io/vmesh_writer.hpp b/viennagrid/io/vmesh_writer.hpp
index ff70a70..e819bed 100644
--- a/viennagrid/io/vmesh_writer.hpp
+++ b/viennagrid/io/vmesh_writer.hpp
@@ -58,15 +58,13 @@ namespace viennagrid
        */
       void operator()(MeshType const & mesh_obj, SegmentationType const & segmentation, std::string const & inputfile, std::string const & outputfile)
       {
-        std::stringstream ss;
-        if(outputfile.substr( outputfile.rfind(".")+1 ) == "vmesh")
-          ss << outputfile;
-        else
-          ss << outputfile << ".vmesh";
-        std::ofstream writer(ss.str().c_str());
+        std::string full_filename = outputfile;
+        if(outputfile.substr( outputfile.rfind(".")+1 ) != "vmesh")
+          full_filename += ".vmesh";
+        std::ofstream writer(full_filename.c_str());
 
         if (!writer)
-          throw cannot_open_file_exception("* ViennaGrid: vmesh_writer::operator(): File " + ss.str() + ": Cannot open file!");
+          throw cannot_open_file_exception("* ViennaGrid: vmesh_writer::operator(): File " + full_filename + ": Cannot open file!");
 
         writer << "<mesh>" << std::endl;
         writer << indent_ << "<file>" << inputfile << "</file>" << std::endl;
@@ -87,7 +85,7 @@ namespace viennagrid
         }
         writer << indent_ << "</segmentation>" << std::endl;
         writer << "</mesh>" << std::endl;
-        close_written_file(writer, ss.str());
+        close_written_file(writer, full_filename);
       }
 
       std::string empty_;
diff --git a/viennagrid/io/vtk_writer.hpp b/viennagrid/io/vtk_writer.hpp
index d046f09..236714c 100644
--- a/viennagrid/io/vtk_writer.hpp
+++ b/viennagrid/io/vtk_writer.hpp
@@ -409,9 +409,8 @@ namespace viennagrid
       {
           clear_at_exit clear_this_writer(*this);
 
-          std::stringstream ss;
-          ss << filename << ".vtu";
-          std::ofstream writer(ss.str().c_str());
+          std::string const full_filename = filename + ".vtu";
+          std::ofstream writer(full_filename.c_str());
 
           if (!writer)
             throw cannot_open_file_exception("* ViennaGrid: vtk_writer::operator(): File " + filename + ": Cannot open file!");
@@ -458,7 +457,7 @@ namespace viennagrid
 
           writer << "  </Piece>" << std::endl;
           writeFooter(writer);
-          close_written_file(writer, ss.str());
+          close_written_file(writer, full_filename);
       }
 
       /** @brief Triggers the write process to a XML file. Make sure that all data to be written to the file is already passed to the writer
@@ -492,11 +491,12 @@ namespace viennagrid
             SegmentHandleType const & seg = *it;
 
             std::stringstream ss;
-            ss << filename << "_" << seg.id() << ".vtu";
-            std::ofstream writer(ss.str().c_str());
+            ss << seg.id();
+            std::string const full_filename = filename + "_" + ss.str() + ".vtu";
+            std::ofstream writer(full_filename.c_str());
 
             if (!writer)
-              throw cannot_open_file_exception("* ViennaGrid: vtk_writer::operator(): File " + ss.str() + ": Cannot open file!");
+              throw cannot_open_file_exception("* ViennaGrid: vtk_writer::operator(): File " + full_filename + ": Cannot open file!");
 
             writeHeader(writer);
 
@@ -558,7 +558,7 @@ namespace viennagrid
 
             writer << "  </Piece>" << std::endl;
             writeFooter(writer);
-            close_written_file(writer, ss.str());
+            close_written_file(writer, full_filename);
           }
 
           //
-- 
2.43.0


From 88f2ef6aada74c518b9524621e5f3fab49253ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:02 +0000
Subject: [PATCH 30/43] fix: the Neper reader rejects an empty file

---
 viennagrid/io/neper_tess_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/io/neper_tess_reader.hpp b/viennagrid/io/neper_tess_reader.hpp
index fe8af91..4d1a70e 100644
--- a/viennagrid/io/neper_tess_reader.hpp
+++ b/viennagrid/io/neper_tess_reader.hpp
@@ -114,7 +114,7 @@ namespace viennagrid
         std::istringstream current_line;
 
 
-        if (!reader.good())
+        if (reader.peek() == std::ifstream::traits_type::eof())
           throw bad_file_format_exception("* ViennaGrid: neper_tess_reader::operator(): File " + filename + " is empty.");
 
 
-- 
2.43.0


From 2a3fe9aa4c583d61bca29e98872545409895adbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:06 +0000
Subject: [PATCH 31/43] fix: quantity_transfer to higher-dimensional elements
 reads the source element's value

---
 viennagrid/algorithm/quantity_transfer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/quantity_transfer.hpp b/viennagrid/algorithm/quantity_transfer.hpp
index 8956976..f63e720 100644
--- a/viennagrid/algorithm/quantity_transfer.hpp
+++ b/viennagrid/algorithm/quantity_transfer.hpp
@@ -136,7 +136,7 @@ namespace viennagrid
                                 ++sodit)
           {
             if (filter_src(*sodit))
-              destination_value_container.push_back(accessor_src(*dit));
+              destination_value_container.push_back(accessor_src(*sodit));
           }
 
           //
-- 
2.43.0


From 1c39d2261f90099b9550a76e06ee4321888dc32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:06 +0000
Subject: [PATCH 32/43] fix: segmentation::at(name) returned a pointer where a
 reference is needed and did not compile

---
 viennagrid/mesh/segmentation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index dc277d3..99381ce 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -800,7 +800,7 @@ namespace viennagrid
       typename segment_name_map_type::const_iterator it = segment_name_map.find(segment_name);
       if( it == segment_name_map.end() )
         throw viennagrid::segment_name_not_found_exception(segment_name);
-      return it->second;
+      return *(it->second);
     }
 
 
-- 
2.43.0


From 394d10d5c9275c5d855b66310d7ddf8cc278190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:06 +0000
Subject: [PATCH 33/43] fix: volume of quadrilaterals and hexahedra that are no
 parallelograms used the wrong vertex order

---
 viennagrid/algorithm/volume.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/viennagrid/algorithm/volume.hpp b/viennagrid/algorithm/volume.hpp
index 4f7d491..2c23a69 100644
--- a/viennagrid/algorithm/volume.hpp
+++ b/viennagrid/algorithm/volume.hpp
@@ -92,7 +92,7 @@ namespace viennagrid
       PointType const & p2 = accessor( vertices(cell)[2] );
       PointType const & p3 = accessor( vertices(cell)[3] );
 
-      return spanned_volume(p0, p1, p3) + spanned_volume(p1, p2, p3); //sum up the two triangular parts
+      return spanned_volume(p0, p1, p3) + spanned_volume(p0, p2, p3); //sum up the two triangular parts (p0 and p3 are opposite to each other)
     }
 
 
@@ -153,14 +153,14 @@ namespace viennagrid
 
       PointType const & p0 = accessor( vertices(cell)[0] );
       PointType const & p1 = accessor( vertices(cell)[1] );
-      PointType const & p2 = accessor( vertices(cell)[2] );
-      PointType const & p3 = accessor( vertices(cell)[3] );
+      PointType const & p2 = accessor( vertices(cell)[3] );
+      PointType const & p3 = accessor( vertices(cell)[2] );
       PointType const & p4 = accessor( vertices(cell)[4] );
       PointType const & p5 = accessor( vertices(cell)[5] );
-      PointType const & p6 = accessor( vertices(cell)[6] );
-      PointType const & p7 = accessor( vertices(cell)[7] );
+      PointType const & p6 = accessor( vertices(cell)[7] );
+      PointType const & p7 = accessor( vertices(cell)[6] );
 
-      //decompose hexahedron into six tetrahedra
+      //decompose hexahedron into six tetrahedra (p0, p1, p2, p3 and p4, p5, p6, p7 run around the bottom and the top)
       return spanned_volume(p0, p1, p3, p4)
              + spanned_volume(p4, p1, p3, p7)
              + spanned_volume(p4, p1, p7, p5)
-- 
2.43.0


From 1b0793211e7267c3dd8ba2c9b71eb86dd2b863ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:06 +0000
Subject: [PATCH 34/43] fix: Voronoi quantities of tetrahedral meshes with
 facets or edges without cell

---
 viennagrid/algorithm/voronoi.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/viennagrid/algorithm/voronoi.hpp b/viennagrid/algorithm/voronoi.hpp
index 49edba8..1beb081 100644
--- a/viennagrid/algorithm/voronoi.hpp
+++ b/viennagrid/algorithm/voronoi.hpp
@@ -677,6 +677,9 @@ namespace viennagrid
                        ++fit)
       {
         CircumcenterContainer & circ_centers = circumcenters_on_facets[fit.handle()];
+        if (circ_centers.empty()) // facet without cell (e.g. cell has been erased)
+          continue;
+
         const FacetType & facet = *fit;
 
         EdgeOnFacetRange edges_on_facet = viennagrid::elements<EdgeType>( facet );
@@ -741,6 +744,8 @@ namespace viennagrid
         double edge_length = spanned_volume( viennagrid::point(mesh_obj, v0), viennagrid::point(mesh_obj, v1));
 
         std::vector< EdgePointsWithCellInfo > & interface_segments = interface_boundaries_on_edges[eit.handle()];
+        if (interface_segments.empty()) // edge without cell (e.g. cell has been erased)
+          continue;
 
         //
         // determine inner point of convex interface polygon:
-- 
2.43.0


From 7d7d97c96048cc39486f89d96fb1f874392078f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:56 +0000
Subject: [PATCH 35/43] fix: keep the content of a segmented mesh that is
 assigned to itself

---
 viennagrid/mesh/segmented_mesh.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennagrid/mesh/segmented_mesh.hpp b/viennagrid/mesh/segmented_mesh.hpp
index ac09a28..5ff3d95 100644
--- a/viennagrid/mesh/segmented_mesh.hpp
+++ b/viennagrid/mesh/segmented_mesh.hpp
@@ -58,7 +58,8 @@ namespace viennagrid
 
     SelfType & operator=(SelfType const & other)
     {
-      copy( other.mesh, other.segmentation, mesh, segmentation, true_functor() );
+      if (this != &other)
+        copy( other.mesh, other.segmentation, mesh, segmentation, true_functor() );
       return *this;
     }
 
-- 
2.43.0


From 76988294cbbafec98fde5c9d4c694b2f6654180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:26 +0000
Subject: [PATCH 36/43] fix: make copy_element compile, honour the tolerance
 and return the handle

---
 viennagrid/mesh/element_creation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/mesh/element_creation.hpp b/viennagrid/mesh/element_creation.hpp
index 742e34e..815fe19 100644
--- a/viennagrid/mesh/element_creation.hpp
+++ b/viennagrid/mesh/element_creation.hpp
@@ -390,7 +390,7 @@ namespace viennagrid
 
     VertexRangeType vertices(element);
     for (VertexRangeIterator vit = vertices.begin(); vit != vertices.end(); ++vit)
-      vertex_handles.push_back( make_unique_vertex(mesh_segment, viennagrid::point(*vit)), tolerance );
+      vertex_handles.push_back( make_unique_vertex(mesh_segment, viennagrid::point(*vit), tolerance) );
 
     return make_element<ElementTag>( mesh_segment, vertex_handles.begin(), vertex_handles.end() );
   }
@@ -402,7 +402,7 @@ namespace viennagrid
       typename viennagrid::result_of::element_tag<ElementT>::type
     >::type copy_element( ElementT const & element, MeshOrSegmentHandleT & mesh_segment )
   {
-    copy_element(element, mesh_segment, -1.0);
+    return copy_element(element, mesh_segment, -1.0);
   }
 
   namespace detail
-- 
2.43.0


From fe901921793137f4ef4612ccd345edd349841911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:23 +0000
Subject: [PATCH 37/43] fix: clearing a segment removes its elements and leaves
 it usable

---
 viennagrid/mesh/segmentation.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 99381ce..4200039 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -147,15 +147,6 @@ namespace viennagrid
     segment_type * segment_;
   };
 
-  /** @brief Completely clears a segmentation
-    *
-    */
-  template<typename SegmentationT>
-  void clear( segment_handle<SegmentationT> & segment_ )
-  {
-    segment_.view().clear();
-  }
-
   namespace result_of
   {
     /** \cond */
@@ -2179,6 +2170,21 @@ namespace viennagrid
     viennagrid::for_each(elements_to_erase, functor);
   }
 
+  /** @brief Removes all elements from a segment, the segment itself, its ID and its name remain
+    *
+    * @tparam SegmentationT   The segmentation type of the segment
+    * @param  segment         The segment object
+    */
+  template<typename SegmentationT>
+  void clear( segment_handle<SegmentationT> & segment )
+  {
+    typedef typename segment_handle<SegmentationT>::view_type ViewType;
+    ViewType elements_to_erase( segment.view() );
+
+    detail::non_recursive_erase_functor< segment_handle<SegmentationT> > functor( segment );
+    viennagrid::for_each(elements_to_erase, functor);
+  }
+
 
   namespace detail
   {
-- 
2.43.0


From cb638c297e3a010f5fc7aeeee438e2e005ac91e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:23 +0000
Subject: [PATCH 38/43] fix: initialize the information of an element in a
 segment

---
 viennagrid/mesh/segmentation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 4200039..17c987c 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -1103,8 +1103,8 @@ namespace viennagrid
       typedef segment_id_type_ segment_id_type;
       typedef segment_element_info_type_ segment_element_info_type;
 
-      element_segment_mapping() {}
-      element_segment_mapping( segment_id_type const & segment_id_ ) : segment_id(segment_id_) {}
+      element_segment_mapping() : segment_id(), segment_element_info() {}
+      element_segment_mapping( segment_id_type const & segment_id_ ) : segment_id(segment_id_), segment_element_info() {}
 
       segment_id_type segment_id;
       segment_element_info_type segment_element_info;
-- 
2.43.0


From b61352c915f7e420edaacdba3ff5535aaf17b6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:14 +0000
Subject: [PATCH 39/43] fix: copying PLCs keeps loose vertices and hole points

---
 viennagrid/mesh/element_creation.hpp | 40 ++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/viennagrid/mesh/element_creation.hpp b/viennagrid/mesh/element_creation.hpp
index 815fe19..57b3535 100644
--- a/viennagrid/mesh/element_creation.hpp
+++ b/viennagrid/mesh/element_creation.hpp
@@ -511,6 +511,9 @@ namespace viennagrid
         typedef typename viennagrid::result_of::const_line_range<ElementType>::type ConstLineOnElementRangeType;
         typedef typename viennagrid::result_of::iterator<ConstLineOnElementRangeType>::type ConstLineOnElementIteratorType;
 
+        typedef typename viennagrid::result_of::const_vertex_range<ElementType>::type ConstVertexOnElementRangeType;
+        typedef typename viennagrid::result_of::iterator<ConstVertexOnElementRangeType>::type ConstVertexOnElementIteratorType;
+
         std::map<VertexIDType, VertexHandleType> vertex_map;
         std::map<LineIDType, LineHandleType> line_map;
 
@@ -546,7 +549,22 @@ namespace viennagrid
               line_handles[line_index] = it1->second;
           }
 
-          viennagrid::make_plc( output_mesh, line_handles.begin(), line_handles.end() );
+          ConstVertexOnElementRangeType vertices_on_element( *eit );
+          std::vector<VertexHandleType> vertex_handles;
+
+          for (ConstVertexOnElementIteratorType vit = vertices_on_element.begin(); vit != vertices_on_element.end(); ++vit)
+          {
+            typename std::map<VertexIDType, VertexHandleType>::iterator it = vertex_map.find( (*vit).id() );
+            if (it == vertex_map.end())
+              it = vertex_map.insert( std::make_pair((*vit).id(), viennagrid::make_unique_vertex( output_mesh, viennagrid::point(*vit), tolerance )) ).first;
+
+            vertex_handles.push_back( it->second );
+          }
+
+          viennagrid::make_plc( output_mesh,
+                                line_handles.begin(), line_handles.end(),
+                                vertex_handles.begin(), vertex_handles.end(),
+                                (*eit).appendix().begin(), (*eit).appendix().end() );
         }
       }
 
@@ -569,6 +587,9 @@ namespace viennagrid
         typedef typename viennagrid::result_of::const_line_range<ElementType>::type ConstLineOnElementRangeType;
         typedef typename viennagrid::result_of::iterator<ConstLineOnElementRangeType>::type ConstLineOnElementIteratorType;
 
+        typedef typename viennagrid::result_of::const_vertex_range<ElementType>::type ConstVertexOnElementRangeType;
+        typedef typename viennagrid::result_of::iterator<ConstVertexOnElementRangeType>::type ConstVertexOnElementIteratorType;
+
         std::map<VertexIDType, VertexHandleType> vertex_map;
         std::map<LineIDType, LineHandleType> line_map;
 
@@ -604,7 +625,22 @@ namespace viennagrid
               line_handles[line_index] = it1->second;
           }
 
-          viennagrid::make_plc( output_mesh, line_handles.begin(), line_handles.end() );
+          ConstVertexOnElementRangeType vertices_on_element( viennagrid::dereference_handle(input_mesh, *eit) );
+          std::vector<VertexHandleType> vertex_handles;
+
+          for (ConstVertexOnElementIteratorType vit = vertices_on_element.begin(); vit != vertices_on_element.end(); ++vit)
+          {
+            typename std::map<VertexIDType, VertexHandleType>::iterator it = vertex_map.find( (*vit).id() );
+            if (it == vertex_map.end())
+              it = vertex_map.insert( std::make_pair((*vit).id(), viennagrid::make_unique_vertex( output_mesh, viennagrid::point(*vit), tolerance )) ).first;
+
+            vertex_handles.push_back( it->second );
+          }
+
+          viennagrid::make_plc( output_mesh,
+                                line_handles.begin(), line_handles.end(),
+                                vertex_handles.begin(), vertex_handles.end(),
+                                viennagrid::dereference_handle(input_mesh, *eit).appendix().begin(), viennagrid::dereference_handle(input_mesh, *eit).appendix().end() );
         }
 
       }
-- 
2.43.0


From 757722eb5125ab0909be54d23347f2a16b3d29f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:44 +0000
Subject: [PATCH 40/43] fix: post-increment and post-decrement return the
 previous position

---
 viennagrid/storage/container.hpp | 32 ++++++++++++++++----------------
 viennagrid/storage/view.hpp      | 32 ++++++++++++++++----------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/viennagrid/storage/container.hpp b/viennagrid/storage/container.hpp
index d934cbb..0dec7e0 100644
--- a/viennagrid/storage/container.hpp
+++ b/viennagrid/storage/container.hpp
@@ -95,10 +95,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); base_iterator::operator++(); return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); base_iterator::operator--(); return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -125,10 +125,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); base_iterator::operator++(); return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); base_iterator::operator--(); return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -159,10 +159,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); base_iterator::operator++(); return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); base_iterator::operator--(); return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -195,10 +195,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); base_iterator::operator++(); return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); base_iterator::operator--(); return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -233,10 +233,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); base_const_iterator::operator++(); return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); base_const_iterator::operator--(); return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const &  value() const { return base_const_iterator::operator*(); }
@@ -264,10 +264,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); base_const_iterator::operator++(); return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); base_const_iterator::operator--(); return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
@@ -299,10 +299,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); base_const_iterator::operator++(); return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); base_const_iterator::operator--(); return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
@@ -336,10 +336,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); base_const_iterator::operator++(); return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); base_const_iterator::operator--(); return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
diff --git a/viennagrid/storage/view.hpp b/viennagrid/storage/view.hpp
index 52fed04..fd5a251 100644
--- a/viennagrid/storage/view.hpp
+++ b/viennagrid/storage/view.hpp
@@ -89,10 +89,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       iterator & operator++() { base::operator++(); return *this; }
-      iterator operator++(int) { base::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); base::operator++(); return tmp; }
 
       iterator & operator--() { base::operator--(); return *this; }
-      iterator operator--(int) { base::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view * view_;
@@ -123,10 +123,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_iterator & operator++() { base::operator++(); return *this; }
-      const_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); base::operator++(); return tmp; }
 
       const_iterator & operator--() { base::operator--(); return *this; }
-      const_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view const * view_;
@@ -156,10 +156,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       reverse_iterator & operator++() { base::operator++(); return *this; }
-      reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      reverse_iterator operator++(int) { reverse_iterator tmp(*this); base::operator++(); return tmp; }
 
       reverse_iterator & operator--() { base::operator--(); return *this; }
-      reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      reverse_iterator operator--(int) { reverse_iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view * view_;
@@ -190,10 +190,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_reverse_iterator & operator++() { base::operator++(); return *this; }
-      const_reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_reverse_iterator operator++(int) { const_reverse_iterator tmp(*this); base::operator++(); return tmp; }
 
       const_reverse_iterator & operator--() { base::operator--(); return *this; }
-      const_reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_reverse_iterator operator--(int) { const_reverse_iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view const * view_;
@@ -353,10 +353,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       iterator & operator++() { base::operator++(); return *this; }
-      iterator operator++(int) { base::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); base::operator++(); return tmp; }
 
       iterator & operator--() { base::operator--(); return *this; }
-      iterator operator--(int) { base::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view * view_;
@@ -387,10 +387,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_iterator & operator++() { base::operator++(); return *this; }
-      const_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); base::operator++(); return tmp; }
 
       const_iterator & operator--() { base::operator--(); return *this; }
-      const_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view const * view_;
@@ -420,10 +420,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       reverse_iterator & operator++() { base::operator++(); return *this; }
-      reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      reverse_iterator operator++(int) { reverse_iterator tmp(*this); base::operator++(); return tmp; }
 
       reverse_iterator & operator--() { base::operator--(); return *this; }
-      reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      reverse_iterator operator--(int) { reverse_iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view * view_;
@@ -454,10 +454,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_reverse_iterator & operator++() { base::operator++(); return *this; }
-      const_reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_reverse_iterator operator++(int) { const_reverse_iterator tmp(*this); base::operator++(); return tmp; }
 
       const_reverse_iterator & operator--() { base::operator--(); return *this; }
-      const_reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_reverse_iterator operator--(int) { const_reverse_iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view const * view_;
-- 
2.43.0


From 6640833c3da57d05765dcfe55c8063dae50be3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:49 +0000
Subject: [PATCH 41/43] fix: the mesh serializer did not compile and numbered
 vertices by id

---
 viennagrid/io/serialization.hpp | 42 ++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/viennagrid/io/serialization.hpp b/viennagrid/io/serialization.hpp
index 8a85fca..bfb937c 100644
--- a/viennagrid/io/serialization.hpp
+++ b/viennagrid/io/serialization.hpp
@@ -19,13 +19,18 @@
 
 #include "viennagrid/forwards.hpp"
 #include "viennagrid/mesh/mesh.hpp"
+#include "viennagrid/mesh/element_creation.hpp"
 
+#include <map>
+#include <string>
+#include <vector>
 
 #include <boost/archive/text_iarchive.hpp>
 #include <boost/archive/text_oarchive.hpp>
 #include <boost/serialization/base_object.hpp>
 #include <boost/serialization/utility.hpp>
 #include <boost/serialization/list.hpp>
+#include <boost/serialization/split_member.hpp>
 #include <boost/serialization/assume_abstract.hpp>
 #include <boost/shared_ptr.hpp>
 
@@ -42,14 +47,9 @@ namespace viennagrid
     class bad_serialization_state_exception : public std::exception
     {
       public:
-        virtual const char* what() const throw()
-        {
-          std::stringstream ss;
-          ss << "* ViennaGrid: Bad serialization state: " << msg_ << "!";
-          return ss.str().c_str();
-        }
+        virtual const char* what() const throw() { return msg_.c_str(); }
 
-        bad_serialization_state_exception(std::string msg) : msg_(msg) {}
+        bad_serialization_state_exception(std::string msg) : msg_("* ViennaGrid: Bad serialization state: " + msg + "!") {}
 
         virtual ~bad_serialization_state_exception() throw() {}
 
@@ -85,7 +85,7 @@ namespace viennagrid
 
       /** @brief Save function is used to 'read' the data from the mesh */
       template<class Archive>
-      void save(Archive & ar, const unsigned int version) const
+      void save(Archive & ar, const unsigned int /*version*/) const
       {
         if (!mesh_pointer)
           throw bad_serialization_state_exception( "Mesh not loaded into serialzer object" );
@@ -97,10 +97,15 @@ namespace viennagrid
         //
         std::size_t point_size = viennagrid::vertices(mesh_obj).size();
         ar & point_size;
+        std::map<VertexIDType, std::size_t> vertex_positions;
         ConstVertexRange vertices(mesh_obj);
         for (ConstVertexIterator vit = vertices.begin();
              vit != vertices.end(); ++vit)
         {
+          // not equal to the ID if vertices have been erased
+          std::size_t position = vertex_positions.size();
+          vertex_positions[vit->id()] = position;
+
           for(int d = 0; d < DIMG; d++)
             ar & viennagrid::point(*vit)[d];
         }
@@ -123,8 +128,8 @@ namespace viennagrid
           vocit != vertices_on_cell.end();
           ++vocit)
           {
-            std::size_t id = vocit->id().get();
-            ar & id;
+            std::size_t position = vertex_positions[vocit->id()];
+            ar & position;
           }
         }
         // -----------------------------------------------
@@ -132,7 +137,7 @@ namespace viennagrid
 
       /** @brief Load function is used to 'write' the data to the mesh */
       template<class Archive>
-      void load(Archive & ar, const unsigned int version)
+      void load(Archive & ar, const unsigned int /*version*/)
       {
         if (!mesh_pointer)
           throw bad_serialization_state_exception( "Mesh not loaded into serialzer object" );
@@ -145,13 +150,14 @@ namespace viennagrid
         std::size_t point_size;
         ar & point_size;
 
+        std::vector<VertexHandleType> vertex_handles;
         for(std::size_t i = 0; i < point_size; i++)
         {
           PointType p;
           for(int d = 0; d < DIMG; d++)
             ar & p[d];
 
-          viennagrid::make_vertex( *mesh_pointer, p );
+          vertex_handles.push_back( viennagrid::make_vertex( mesh_obj, p ) );
         }
         // -----------------------------------------------
 
@@ -169,9 +175,11 @@ namespace viennagrid
 
           for (int j=0; j< num_vertices; ++j)
           {
-            std::size_t id;
-            ar & id;
-            vertices[j] = viennagrid::find_by_id( mesh_obj, VertexIDType(id) ).handle();
+            std::size_t position;
+            ar & position;
+            if (position >= vertex_handles.size())
+              throw bad_serialization_state_exception( "Cell refers to a vertex which does not exist" );
+            vertices[j] = vertex_handles[position];
           }
 
           viennagrid::make_cell( mesh_obj, vertices, vertices + num_vertices);
@@ -190,11 +198,11 @@ namespace viennagrid
       mesh_serializer() : mesh_pointer(0) {}
 
       /** @brief The constructor expects a shared pointer on a mesh object and sets the state */
-      mesh_serializer(MeshT & mesh_obj) : mesh_pointer(mesh_obj) {}
+      mesh_serializer(MeshT & mesh_obj) : mesh_pointer(&mesh_obj) {}
 
       /** @brief The load function enables to associate a mesh with the serialzer after
       a serializer object has been constructed. */
-      inline void load(MeshT & mesh_obj) { mesh_pointer = &mesh;  }
+      inline void load(MeshT & mesh_obj) { mesh_pointer = &mesh_obj;  }
 
       /** @brief The get function enables to retrieve the mesh pointer
       */
-- 
2.43.0


From 11865931cb3fcb158eac9a7292bc185a3733b25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:49 +0000
Subject: [PATCH 42/43] fix: at() of map accessors and fields throws when there
 is no data instead of creating it

---
 viennagrid/accessor.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 0081891..46eca41 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -369,7 +369,9 @@ namespace viennagrid
 
     reference at(AccessType const & element)
     {
-      return (*this)(element);
+      typename container_type::iterator it = (*container).find( unpack(element) );
+      if (it == (*container).end()) throw std::out_of_range("std_map_accessor::at() failed");
+      return it->second;
     }
 
     const_reference at(AccessType const & element) const
@@ -863,7 +865,9 @@ namespace viennagrid
 
     reference at(AccessType const & element)
     {
-      return (*this)(element);
+      typename container_type::iterator it = (*container).find( unpack(element) );
+      if (it == (*container).end()) throw std::out_of_range("std_map_field::at() failed");
+      return it->second;
     }
 
     const_reference at(AccessType const & element) const
-- 
2.43.0


From 523bb8820fb5469f2f30bc1aff017c9947d3e739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:49 +0000
Subject: [PATCH 43/43] fix: dynamic_accessor_wrapper called members that
 accessors do not have

---
 viennagrid/accessor.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 46eca41..f47669b 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -624,11 +624,11 @@ namespace viennagrid
     virtual pointer find( access_type const & element ) { return accessor.find(element); }
     virtual const_pointer find( access_type const & element ) const { return accessor.find(element); }
 
-    virtual reference operator()( access_type const & element )       { return access(element); }
-    virtual const_reference operator()( access_type const & element ) const { return access(element); }
+    virtual reference operator()( access_type const & element )       { return accessor(element); }
+    virtual const_reference operator()( access_type const & element ) const { return accessor(element); }
 
-    virtual reference at( access_type const & element ) { return accessor.access(element); }
-    virtual const_reference at( access_type const & element ) const { return accessor.access(element); }
+    virtual reference at( access_type const & element ) { return accessor.at(element); }
+    virtual const_reference at( access_type const & element ) const { return accessor.at(element); }
 
   private:
     AccessorType accessor;
@@ -654,8 +654,8 @@ namespace viennagrid
     dynamic_accessor_wrapper(AccessorType accessor_) : accessor(accessor_) {}
 
     virtual const_pointer find( access_type const & element ) const { return accessor.find(element); }
-    virtual const_reference operator()( access_type const & element ) const { return access(element); }
-    virtual const_reference at( access_type const & element ) const { return accessor.access(element); }
+    virtual const_reference operator()( access_type const & element ) const { return accessor(element); }
+    virtual const_reference at( access_type const & element ) const { return accessor.at(element); }
 
   private:
     AccessorType accessor;
-- 
2.43.0

