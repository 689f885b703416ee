From 2d5a5f3c511f1a8e797ca9d77cba8256eae08e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:31 +0000
Subject: [PATCH 1/5] fix: assigning from a variant whose content is in backup
 storage

After a failed assignment a variant without a fallback type keeps its old
content in a heap backup. Copy- or move-assigning such a variant to one that
holds another type copied the backup_holder itself, which asserts (or, with
NDEBUG, leaves a null content). Visit the content instead.
---
 include/boost/variant/variant.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 33bdcb7..ad61201 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -1797,6 +1797,13 @@ private: // helpers, for modifiers (below)
                 );
         }
 
+        template <typename RhsT>
+        void internal_visit(const detail::variant::backup_holder<RhsT>& rhs_content, long) const
+        {
+            // rhs's content is held in backup storage: assign the content, not its holder
+            internal_visit(rhs_content.get(), 1);
+        }
+
 #if BOOST_WORKAROUND(BOOST_MSVC, BOOST_TESTED_AT(1600))
     private:
         // silence MSVC warning C4512: assignment operator could not be generated
@@ -1915,6 +1922,13 @@ private: // helpers, for modifiers (below)
                 );
         }
 
+        template <typename RhsT>
+        void internal_visit(detail::variant::backup_holder<RhsT>& rhs_content, long) const
+        {
+            // rhs's content is held in backup storage: assign the content, not its holder
+            internal_visit(rhs_content.get(), 1);
+        }
+
 #if BOOST_WORKAROUND(BOOST_MSVC, BOOST_TESTED_AT(1600))
     private:
         // silence MSVC warning C4512: assignment operator could not be generated
-- 
2.43.0


From b391b77ffb92603c60105fc7597cbf7748e40ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:29 +0000
Subject: [PATCH 2/5] fix: keep content that is nothrow copyable but not
 nothrow movable on failed assignment

backup_assigner chose the heap backup from is_nothrow_move_constructible alone,
while visitation treats types with has_nothrow_copy as never using backup
storage. After a failed assignment to such content the variant indicated a
backup that visitation then read as in-place content. Back up such content in
place, by copy.
---
 include/boost/variant/variant.hpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index ad61201..ae33b61 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -718,7 +718,7 @@ private: // helpers, for visitor interface (below)
     template <typename LhsT>
     void backup_assign_impl(
           backup_holder<LhsT>& lhs_content
-        , mpl::false_ // is_nothrow_move_constructible
+        , mpl::false_ // nothrow_backup
         , long
         )
     {
@@ -755,13 +755,18 @@ private: // helpers, for visitor interface (below)
     template <typename LhsT>
     void backup_assign_impl(
           LhsT& lhs_content
-        , mpl::true_ // is_nothrow_move_constructible
+        , mpl::true_ // nothrow_backup
         , int
         )
     {
-        // Move lhs content to backup...
+        // Move (or copy, if only copying cannot throw) lhs content to backup...
+        typedef typename mpl::if_<
+              is_nothrow_move_constructible<LhsT>
+            , LhsT&&
+            , const LhsT&
+            >::type backup_source;
         LhsT backup_lhs_content(
-              ::boost::detail::variant::move(lhs_content)
+              static_cast<backup_source>(lhs_content)
             ); // nothrow
 
         // ...destroy lhs content...
@@ -777,7 +782,7 @@ private: // helpers, for visitor interface (below)
             // In case of failure, restore backup content to lhs storage...
             new(lhs_.storage_.address())
                 LhsT(
-                      ::boost::detail::variant::move(backup_lhs_content)
+                      static_cast<backup_source>(backup_lhs_content)
                     ); // nothrow
 
             // ...and rethrow:
@@ -792,7 +797,7 @@ private: // helpers, for visitor interface (below)
     template <typename LhsT>
     void backup_assign_impl(
           LhsT& lhs_content
-        , mpl::false_ // is_nothrow_move_constructible
+        , mpl::false_ // nothrow_backup
         , int
         )
     {
@@ -833,10 +838,14 @@ public: // visitor interface
     template <typename LhsT>
     void internal_visit(LhsT& lhs_content, int)
     {
-        typedef typename is_nothrow_move_constructible<LhsT>::type
-            nothrow_move;
+        // must agree with visitation_impl_invoke on which types never use
+        // backup storage
+        typedef typename mpl::or_<
+              is_nothrow_move_constructible<LhsT>
+            , has_nothrow_copy<LhsT>
+            >::type nothrow_backup;
 
-        backup_assign_impl( lhs_content, nothrow_move(), 1L);
+        backup_assign_impl( lhs_content, nothrow_backup(), 1L);
     }
 
 #if BOOST_WORKAROUND(BOOST_MSVC, BOOST_TESTED_AT(1600))
-- 
2.43.0


From cba8fa4942458e5a295cca21f51a04abb187a147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:51 +0000
Subject: [PATCH 3/5] fix: construct the fallback type, not an iterator to it,
 after a failed assignment

find_fallback_type returned the position of the nothrow-default-constructible
type it found, so construct_fallback() created an (empty) MPL iterator in the
storage: the variant then claimed to hold a value of the fallback type whose
constructor had never run.
---
 include/boost/variant/variant.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index ae33b61..80d94d2 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -176,6 +176,16 @@ struct find_fallback_type_pred
     };
 };
 
+// Turns the (index, iterator) of a found type into (index, type).
+template <typename Result>
+struct found_fallback_type
+{
+    typedef mpl::pair<
+          typename Result::first
+        , typename mpl::deref< typename Result::second >::type
+        > type;
+};
+
 template <typename Types>
 struct find_fallback_type
 {
@@ -209,12 +219,12 @@ public: // metafunction result
     // [...and return the results of the search:]
     typedef typename mpl::eval_if<
           is_same< second_result_it,end_it >
-        , mpl::if_<
+        , mpl::eval_if<
               is_same< first_result_it,end_it >
-            , mpl::pair< no_fallback_type,no_fallback_type >
-            , first_result_
+            , mpl::identity< mpl::pair< no_fallback_type,no_fallback_type > >
+            , found_fallback_type< first_result_ >
             >
-        , mpl::identity< second_result_ >
+        , found_fallback_type< second_result_ >
         >::type type;
 
 };
-- 
2.43.0


From b091eee98c8a6671e7f880c1211198112f85a359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:51 +0000
Subject: [PATCH 4/5] fix: prefer boost::blank as the fallback type wherever it
 is listed

The search for boost::blank compared iterators with the type, so it never
matched and the first nothrow-default-constructible type was used instead,
contrary to the documentation (design, "Implementation Note").
---
 include/boost/variant/variant.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 80d94d2..c28a438 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -176,6 +176,19 @@ struct find_fallback_type_pred
     };
 };
 
+struct find_blank_pred
+{
+    template <typename Iterator>
+    struct apply
+    {
+    private:
+        typedef typename mpl::deref<Iterator>::type t_;
+
+    public:
+        typedef mpl::not_< is_same< t_, boost::blank > > type;
+    };
+};
+
 // Turns the (index, iterator) of a found type into (index, type).
 template <typename Result>
 struct found_fallback_type
@@ -209,7 +222,7 @@ private: // helpers, for metafunction result (below)
     typedef typename mpl::iter_fold_if<
           mpl::iterator_range< first_result_it,end_it >
         , first_result_index, mpl::protect< mpl::next<> >
-        , mpl::protect< mpl::not_same_as<boost::blank> >
+        , mpl::protect< find_blank_pred >
         >::type second_result_;
 
     typedef typename second_result_::second second_result_it;
-- 
2.43.0


From 3daf4294e02b5c52e64210d25f18d230f4c4961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:48 +0000
Subject: [PATCH 5/5] fix: take the address of assigned content with addressof,
 not its operator&

---
 include/boost/variant/variant.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index c28a438..a54167c 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -53,6 +53,7 @@
 #include <boost/type_traits/is_constructible.hpp>
 #include <boost/type_traits/add_lvalue_reference.hpp>
 #include <boost/type_traits/declval.hpp>
+#include <boost/core/addressof.hpp>
 #include <boost/core/no_exceptions_support.hpp>
 #include <boost/core/enable_if.hpp>
 #include <boost/variant/recursive_wrapper_fwd.hpp>
@@ -725,7 +726,7 @@ public: // structors
     backup_assigner(Variant& lhs, int rhs_which, const RhsT& rhs_content)
         : lhs_(lhs)
         , rhs_which_(rhs_which)
-        , rhs_content_(&rhs_content)
+        , rhs_content_(boost::addressof(rhs_content))
         , copy_rhs_content_(&construct_impl<RhsT>)
     {
     }
-- 
2.43.0

