From 6b8ea89670d0a6c4da9238a52f6290a59406dd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 01/18] fix: allocator-extended initializer_list constructor of
 C++14 polymorphic must create a U, not a T

---
 polymorphic_cxx14.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 0849204..08a0964 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -237,7 +237,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
   polymorphic(std::allocator_arg_t, const A& alloc, in_place_type_t<U>,
               std::initializer_list<I> ilist, Ts&&... ts)
       : alloc_base(alloc) {
-    cb_ = create_control_block<T>(ilist, std::forward<Ts>(ts)...);
+    cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
   }
 
   template <
-- 
2.43.0


From a591410fa26fb17598da8368b64c1a3b84cea016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 02/18] fix: C++14 polymorphic allocator-extended move must
 only steal when allocators are always equal or compare equal

---
 polymorphic_cxx14.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 08a0964..73afc47 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -333,7 +333,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_arg_t, const A& alloc,
       polymorphic&& other) noexcept(allocator_traits::is_always_equal::value)
       : alloc_base(alloc) {
-    if (allocator_traits::propagate_on_container_copy_assignment::value) {
+    if (allocator_traits::is_always_equal::value) {
       cb_ = other.cb_;
       other.cb_ = nullptr;
     } else {
-- 
2.43.0


From 152441932fa1e9ebbb41fdbbf08966a532d9378b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 03/18] fix: copy the owned object of a const source through a
 const reference

---
 indirect.h          | 3 +--
 indirect_cxx14.h    | 3 +--
 polymorphic.h       | 3 ++-
 polymorphic_cxx14.h | 3 ++-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/indirect.h b/indirect.h
index 7869cc4..a431b9d 100644
--- a/indirect.h
+++ b/indirect.h
@@ -245,8 +245,7 @@ class indirect {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp =
-            construct_from(update_alloc ? other.alloc_ : alloc_, *other.p_);
+        auto tmp = construct_from(update_alloc ? other.alloc_ : alloc_, *other);
         reset();
         p_ = tmp;
       }
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index c45aeb7..3cb31aa 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -255,8 +255,7 @@ class indirect : private detail::empty_base_optimization<A> {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
         auto tmp = construct_from(
-            update_alloc ? other.alloc_base::get() : alloc_base::get(),
-            *other.p_);
+            update_alloc ? other.alloc_base::get() : alloc_base::get(), *other);
         reset();
         p_ = tmp;
       }
diff --git a/polymorphic.h b/polymorphic.h
index a32be6d..9937f7f 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -86,7 +86,8 @@ class polymorphic {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-        cb_alloc_traits::construct(cb_alloc, mem, alloc, storage_.u_);
+        cb_alloc_traits::construct(cb_alloc, mem, alloc,
+                                   static_cast<const U&>(storage_.u_));
         return mem;
       } catch (...) {
         cb_alloc_traits::deallocate(cb_alloc, mem, 1);
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 73afc47..dc1fe7d 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -141,7 +141,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-        cb_alloc_traits::construct(cb_alloc, mem, alloc, storage_.u_);
+        cb_alloc_traits::construct(cb_alloc, mem, alloc,
+                                   static_cast<const U&>(storage_.u_));
         return mem;
       } catch (...) {
         cb_alloc_traits::deallocate(cb_alloc, mem, 1);
-- 
2.43.0


From abf54e15460d9b53c7f85ac7b4b95014fffbddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 04/18] fix: C++14 indirect converting assignment must not
 hijack assignment from a non-const indirect lvalue

---
 indirect_cxx14.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 3cb31aa..f77462f 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -302,7 +302,10 @@ class indirect : private detail::empty_base_optimization<A> {
   template <class U, typename std::enable_if<
                          (std::is_constructible<T, U>::value &&
                           std::is_assignable<T&, U>::value &&
-                          !std::is_same<std::remove_cv_t<U>, indirect>::value),
+                          !std::is_same<typename std::remove_cv<
+                                            typename std::remove_reference<
+                                                U>::type>::type,
+                                        indirect>::value),
                          int>::type = 0>
   constexpr indirect& operator=(U&& u) {
     if (valueless_after_move()) {
-- 
2.43.0


From f00ac49eeb4829f3bd152276faafcffb31b26237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 05/18] fix: assignment and swap must compile with
 non-assignable allocators that do not propagate

---
 indirect.h          |  6 ++++--
 indirect_cxx14.h    | 35 ++++++++++++++++++++++++++++-------
 polymorphic.h       |  6 ++++--
 polymorphic_cxx14.h | 35 ++++++++++++++++++++++++++++-------
 4 files changed, 64 insertions(+), 18 deletions(-)

diff --git a/indirect.h b/indirect.h
index a431b9d..4748af0 100644
--- a/indirect.h
+++ b/indirect.h
@@ -250,7 +250,8 @@ class indirect {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
+    if constexpr (allocator_traits::propagate_on_container_copy_assignment::
+                      value) {
       alloc_ = other.alloc_;
     }
     return *this;
@@ -284,7 +285,8 @@ class indirect {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
+    if constexpr (allocator_traits::propagate_on_container_move_assignment::
+                      value) {
       alloc_ = other.alloc_;
     }
     return *this;
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index f77462f..d7989dc 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -260,9 +260,11 @@ class indirect : private detail::empty_base_optimization<A> {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
-    }
+    update_allocator(
+        other,
+        std::integral_constant<
+            bool,
+            allocator_traits::propagate_on_container_copy_assignment::value>{});
     return *this;
   }
 
@@ -293,9 +295,11 @@ class indirect : private detail::empty_base_optimization<A> {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
-    }
+    update_allocator(
+        other,
+        std::integral_constant<
+            bool,
+            allocator_traits::propagate_on_container_move_assignment::value>{});
     return *this;
   }
 
@@ -357,7 +361,10 @@ class indirect : private detail::empty_base_optimization<A> {
       std::allocator_traits<A>::is_always_equal::value) {
     if (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects we can swap both.
-      std::swap(alloc_base::get(), other.alloc_base::get());
+      swap_allocator(
+          other,
+          std::integral_constant<
+              bool, allocator_traits::propagate_on_container_swap::value>{});
       std::swap(p_, other.p_);
       return;
     } else /*  */ {
@@ -548,6 +555,20 @@ class indirect : private detail::empty_base_optimization<A> {
  private:
   pointer p_;
 
+  // Dispatched on the propagation traits: an allocator that does not propagate
+  // need not be assignable or swappable.
+  void update_allocator(const indirect& other, std::true_type) {
+    alloc_base::get() = other.alloc_base::get();
+  }
+
+  void update_allocator(const indirect&, std::false_type) {}
+
+  void swap_allocator(indirect& other, std::true_type) {
+    std::swap(alloc_base::get(), other.alloc_base::get());
+  }
+
+  void swap_allocator(indirect&, std::false_type) {}
+
   void reset() noexcept {
     if (p_ == nullptr) return;
     destroy_with(alloc_base::get(), p_);
diff --git a/polymorphic.h b/polymorphic.h
index 9937f7f..98a35e8 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -297,7 +297,8 @@ class polymorphic {
       reset();
       cb_ = tmp;
     }
-    if (update_alloc) {
+    if constexpr (allocator_traits::propagate_on_container_copy_assignment::
+                      value) {
       alloc_ = other.alloc_;
     }
     return *this;
@@ -331,7 +332,8 @@ class polymorphic {
       }
     }
 
-    if (update_alloc) {
+    if constexpr (allocator_traits::propagate_on_container_move_assignment::
+                      value) {
       alloc_ = other.alloc_;
     }
     return *this;
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index dc1fe7d..86f7a1a 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -376,9 +376,11 @@ class polymorphic : private detail::empty_base_optimization<A> {
       reset();
       cb_ = tmp;
     }
-    if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
-    }
+    update_allocator(
+        other,
+        std::integral_constant<
+            bool,
+            allocator_traits::propagate_on_container_copy_assignment::value>{});
     return *this;
   }
 
@@ -409,9 +411,11 @@ class polymorphic : private detail::empty_base_optimization<A> {
       }
     }
 
-    if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
-    }
+    update_allocator(
+        other,
+        std::integral_constant<
+            bool,
+            allocator_traits::propagate_on_container_move_assignment::value>{});
     return *this;
   }
 
@@ -446,7 +450,10 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_traits<A>::is_always_equal::value) {
     if (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects we can swap both.
-      std::swap(alloc_base::get(), other.alloc_base::get());
+      swap_allocator(
+          other,
+          std::integral_constant<
+              bool, allocator_traits::propagate_on_container_swap::value>{});
       std::swap(cb_, other.cb_);
       return;
     } else /*  */ {
@@ -464,6 +471,20 @@ class polymorphic : private detail::empty_base_optimization<A> {
   }
 
  private:
+  // Dispatched on the propagation traits: an allocator that does not propagate
+  // need not be assignable or swappable.
+  void update_allocator(const polymorphic& other, std::true_type) {
+    alloc_base::get() = other.alloc_base::get();
+  }
+
+  void update_allocator(const polymorphic&, std::false_type) {}
+
+  void swap_allocator(polymorphic& other, std::true_type) {
+    std::swap(alloc_base::get(), other.alloc_base::get());
+  }
+
+  void swap_allocator(polymorphic&, std::false_type) {}
+
   void reset() noexcept {
     if (cb_ != nullptr) {
       cb_->destroy(alloc_base::get());
-- 
2.43.0


From 7d806346ffb6bf0354b9672ba54094d2c03c4dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 06/18] fix: assignment must not use other, or tie it into a
 cycle, when the assigned-to object owns it

---
 indirect.h          | 25 +++++++++++++++++--------
 indirect_cxx14.h    | 25 +++++++++++++++++--------
 polymorphic.h       | 25 +++++++++++++++++--------
 polymorphic_cxx14.h | 25 +++++++++++++++++--------
 4 files changed, 68 insertions(+), 32 deletions(-)

diff --git a/indirect.h b/indirect.h
index 4748af0..ce752cb 100644
--- a/indirect.h
+++ b/indirect.h
@@ -236,8 +236,13 @@ class indirect {
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
+    // The owned object may itself own other, so the old object is destroyed
+    // last, using a copy of the allocator that allocated it.
+    A old_alloc = alloc_;
+    pointer old = nullptr;
+
     if (other.valueless_after_move()) {
-      reset();
+      old = std::exchange(p_, nullptr);
     } else {
       if (std::assignable_from<T&, T> && !valueless_after_move() &&
           alloc_ == other.alloc_) {
@@ -246,14 +251,14 @@ class indirect {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
         auto tmp = construct_from(update_alloc ? other.alloc_ : alloc_, *other);
-        reset();
-        p_ = tmp;
+        old = std::exchange(p_, tmp);
       }
     }
     if constexpr (allocator_traits::propagate_on_container_copy_assignment::
                       value) {
       alloc_ = other.alloc_;
     }
+    if (old != nullptr) destroy_with(old_alloc, old);
     return *this;
   }
 
@@ -270,25 +275,29 @@ class indirect {
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
+    // The owned object may itself own other, so the old object is destroyed
+    // last, using a copy of the allocator that allocated it.
+    A old_alloc = alloc_;
+    pointer old = nullptr;
+
     if (other.valueless_after_move()) {
-      reset();
+      old = std::exchange(p_, nullptr);
     } else {
       if (alloc_ == other.alloc_) {
-        std::swap(p_, other.p_);
-        other.reset();
+        old = std::exchange(p_, std::exchange(other.p_, nullptr));
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
         auto tmp = construct_from(update_alloc ? other.alloc_ : alloc_,
                                   std::move(*other.p_));
-        reset();
-        p_ = tmp;
+        old = std::exchange(p_, tmp);
       }
     }
     if constexpr (allocator_traits::propagate_on_container_move_assignment::
                       value) {
       alloc_ = other.alloc_;
     }
+    if (old != nullptr) destroy_with(old_alloc, old);
     return *this;
   }
 
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index d7989dc..6ce34ec 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -245,8 +245,13 @@ class indirect : private detail::empty_base_optimization<A> {
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
+    // The owned object may itself own other, so the old object is destroyed
+    // last, using a copy of the allocator that allocated it.
+    A old_alloc = alloc_base::get();
+    pointer old = nullptr;
+
     if (other.valueless_after_move()) {
-      reset();
+      old = std::exchange(p_, nullptr);
     } else {
       if (std::is_copy_assignable<T>::value && !valueless_after_move() &&
           alloc_base::get() == other.alloc_base::get()) {
@@ -256,8 +261,7 @@ class indirect : private detail::empty_base_optimization<A> {
         // or updating allocators until this is done.
         auto tmp = construct_from(
             update_alloc ? other.alloc_base::get() : alloc_base::get(), *other);
-        reset();
-        p_ = tmp;
+        old = std::exchange(p_, tmp);
       }
     }
     update_allocator(
@@ -265,6 +269,7 @@ class indirect : private detail::empty_base_optimization<A> {
         std::integral_constant<
             bool,
             allocator_traits::propagate_on_container_copy_assignment::value>{});
+    if (old != nullptr) destroy_with(old_alloc, old);
     return *this;
   }
 
@@ -279,20 +284,23 @@ class indirect : private detail::empty_base_optimization<A> {
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
+    // The owned object may itself own other, so the old object is destroyed
+    // last, using a copy of the allocator that allocated it.
+    A old_alloc = alloc_base::get();
+    pointer old = nullptr;
+
     if (other.valueless_after_move()) {
-      reset();
+      old = std::exchange(p_, nullptr);
     } else {
       if (alloc_base::get() == other.alloc_base::get()) {
-        std::swap(p_, other.p_);
-        other.reset();
+        old = std::exchange(p_, std::exchange(other.p_, nullptr));
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
         auto tmp = construct_from(
             update_alloc ? other.alloc_base::get() : alloc_base::get(),
             std::move(*other.p_));
-        reset();
-        p_ = tmp;
+        old = std::exchange(p_, tmp);
       }
     }
     update_allocator(
@@ -300,6 +308,7 @@ class indirect : private detail::empty_base_optimization<A> {
         std::integral_constant<
             bool,
             allocator_traits::propagate_on_container_move_assignment::value>{});
+    if (old != nullptr) destroy_with(old_alloc, old);
     return *this;
   }
 
diff --git a/polymorphic.h b/polymorphic.h
index 98a35e8..1744be8 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -286,21 +286,26 @@ class polymorphic {
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
+    // The owned object may itself own other, so the old object is destroyed
+    // last, using a copy of the allocator that allocated it.
+    A old_alloc = alloc_;
+    control_block* old = nullptr;
+
     if (other.valueless_after_move()) {
-      reset();
+      old = std::exchange(cb_, nullptr);
     } else {
       // Constructing a new control block could throw so we need to defer
       // resetting or updating allocators until this is done.
 
       // Inlining the allocator into the construct_from call confuses LCOV.
       auto tmp = other.cb_->clone(update_alloc ? other.alloc_ : alloc_);
-      reset();
-      cb_ = tmp;
+      old = std::exchange(cb_, tmp);
     }
     if constexpr (allocator_traits::propagate_on_container_copy_assignment::
                       value) {
       alloc_ = other.alloc_;
     }
+    if (old != nullptr) old->destroy(old_alloc);
     return *this;
   }
 
@@ -315,20 +320,23 @@ class polymorphic {
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
+    // The owned object may itself own other, so the old object is destroyed
+    // last, using a copy of the allocator that allocated it.
+    A old_alloc = alloc_;
+    control_block* old = nullptr;
+
     if (other.valueless_after_move()) {
-      reset();
+      old = std::exchange(cb_, nullptr);
     } else {
       if (alloc_ == other.alloc_) {
-        std::swap(cb_, other.cb_);
-        other.reset();
+        old = std::exchange(cb_, std::exchange(other.cb_, nullptr));
       } else {
         // Constructing a new control block could throw so we need to defer
         // resetting or updating allocators until this is done.
 
         // Inlining the allocator into the construct_from call confuses LCOV.
         auto tmp = other.cb_->move(update_alloc ? other.alloc_ : alloc_);
-        reset();
-        cb_ = tmp;
+        old = std::exchange(cb_, tmp);
       }
     }
 
@@ -336,6 +344,7 @@ class polymorphic {
                       value) {
       alloc_ = other.alloc_;
     }
+    if (old != nullptr) old->destroy(old_alloc);
     return *this;
   }
 
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 86f7a1a..728aa45 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -366,21 +366,26 @@ class polymorphic : private detail::empty_base_optimization<A> {
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
+    // The owned object may itself own other, so the old object is destroyed
+    // last, using a copy of the allocator that allocated it.
+    A old_alloc = alloc_base::get();
+    control_block* old = nullptr;
+
     if (other.valueless_after_move()) {
-      reset();
+      old = std::exchange(cb_, nullptr);
     } else {
       // Constructing a new control block could throw so we need to defer
       // resetting or updating allocators until this is done.
       auto tmp = other.cb_->clone(update_alloc ? other.alloc_base::get()
                                                : alloc_base::get());
-      reset();
-      cb_ = tmp;
+      old = std::exchange(cb_, tmp);
     }
     update_allocator(
         other,
         std::integral_constant<
             bool,
             allocator_traits::propagate_on_container_copy_assignment::value>{});
+    if (old != nullptr) old->destroy(old_alloc);
     return *this;
   }
 
@@ -395,19 +400,22 @@ class polymorphic : private detail::empty_base_optimization<A> {
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
+    // The owned object may itself own other, so the old object is destroyed
+    // last, using a copy of the allocator that allocated it.
+    A old_alloc = alloc_base::get();
+    control_block* old = nullptr;
+
     if (other.valueless_after_move()) {
-      reset();
+      old = std::exchange(cb_, nullptr);
     } else {
       if (alloc_base::get() == other.alloc_base::get()) {
-        std::swap(cb_, other.cb_);
-        other.reset();
+        old = std::exchange(cb_, std::exchange(other.cb_, nullptr));
       } else {
         // Constructing a new control block could throw so we need to defer
         // resetting or updating allocators until this is done.
         auto tmp = other.cb_->move(update_alloc ? other.alloc_base::get()
                                                 : alloc_base::get());
-        reset();
-        cb_ = tmp;
+        old = std::exchange(cb_, tmp);
       }
     }
 
@@ -416,6 +424,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
         std::integral_constant<
             bool,
             allocator_traits::propagate_on_container_move_assignment::value>{});
+    if (old != nullptr) old->destroy(old_alloc);
     return *this;
   }
 
-- 
2.43.0


From 5c3a987b448a55fcaf8564b3311be99195881c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 07/18] fix: polymorphic must compile with clang for allocators
 without a construct member

Constructing the control block through allocator_traits made clang
instantiate is_constructible for the block inside its own definition.
The block itself is never destroyed through the allocator either; only
the owned object goes through the allocator's construct and destroy.
---
 polymorphic.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/polymorphic.h b/polymorphic.h
index 1744be8..2ecb72d 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -86,8 +86,8 @@ class polymorphic {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-        cb_alloc_traits::construct(cb_alloc, mem, alloc,
-                                   static_cast<const U&>(storage_.u_));
+        std::construct_at(std::to_address(mem), alloc,
+                          static_cast<const U&>(storage_.u_));
         return mem;
       } catch (...) {
         cb_alloc_traits::deallocate(cb_alloc, mem, 1);
@@ -99,8 +99,7 @@ class polymorphic {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-        cb_alloc_traits::construct(cb_alloc, mem, alloc,
-                                   std::move(storage_.u_));
+        std::construct_at(std::to_address(mem), alloc, std::move(storage_.u_));
         return mem;
       } catch (...) {
         cb_alloc_traits::deallocate(cb_alloc, mem, 1);
@@ -135,8 +134,7 @@ class polymorphic {
     using cb_alloc_traits = std::allocator_traits<cb_allocator>;
     auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
     try {
-      cb_alloc_traits::construct(cb_alloc, mem, alloc_,
-                                 std::forward<Ts>(ts)...);
+      std::construct_at(std::to_address(mem), alloc_, std::forward<Ts>(ts)...);
       return mem;
     } catch (...) {
       cb_alloc_traits::deallocate(cb_alloc, mem, 1);
-- 
2.43.0


From 9d32f77b8b9952d391b333a3dd3e720e80facc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 08/18] fix: copy assignment of indirect read the allocator of
 an owner that the assignment had destroyed

Assigning to the owned object may destroy other when other is nested inside
it; with an allocator that propagates on copy assignment, the allocator of the
destroyed owner was then read. Copy it before the assignment.
---
 indirect.h       |  8 ++++++--
 indirect_cxx14.h | 17 ++++++++++-------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/indirect.h b/indirect.h
index ce752cb..927f140 100644
--- a/indirect.h
+++ b/indirect.h
@@ -241,6 +241,10 @@ class indirect {
     A old_alloc = alloc_;
     pointer old = nullptr;
 
+    // Assigning to the owned object may destroy other when other is nested
+    // inside it, so the allocator to be adopted is copied beforehand.
+    A new_alloc = update_alloc ? other.alloc_ : alloc_;
+
     if (other.valueless_after_move()) {
       old = std::exchange(p_, nullptr);
     } else {
@@ -250,13 +254,13 @@ class indirect {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(update_alloc ? other.alloc_ : alloc_, *other);
+        auto tmp = construct_from(new_alloc, *other);
         old = std::exchange(p_, tmp);
       }
     }
     if constexpr (allocator_traits::propagate_on_container_copy_assignment::
                       value) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     if (old != nullptr) destroy_with(old_alloc, old);
     return *this;
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 6ce34ec..ac880ea 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -250,6 +250,10 @@ class indirect : private detail::empty_base_optimization<A> {
     A old_alloc = alloc_base::get();
     pointer old = nullptr;
 
+    // Assigning to the owned object may destroy other when other is nested
+    // inside it, so the allocator to be adopted is copied beforehand.
+    A new_alloc = update_alloc ? other.alloc_base::get() : alloc_base::get();
+
     if (other.valueless_after_move()) {
       old = std::exchange(p_, nullptr);
     } else {
@@ -259,13 +263,12 @@ class indirect : private detail::empty_base_optimization<A> {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(
-            update_alloc ? other.alloc_base::get() : alloc_base::get(), *other);
+        auto tmp = construct_from(new_alloc, *other);
         old = std::exchange(p_, tmp);
       }
     }
     update_allocator(
-        other,
+        new_alloc,
         std::integral_constant<
             bool,
             allocator_traits::propagate_on_container_copy_assignment::value>{});
@@ -304,7 +307,7 @@ class indirect : private detail::empty_base_optimization<A> {
       }
     }
     update_allocator(
-        other,
+        other.alloc_base::get(),
         std::integral_constant<
             bool,
             allocator_traits::propagate_on_container_move_assignment::value>{});
@@ -566,11 +569,11 @@ class indirect : private detail::empty_base_optimization<A> {
 
   // Dispatched on the propagation traits: an allocator that does not propagate
   // need not be assignable or swappable.
-  void update_allocator(const indirect& other, std::true_type) {
-    alloc_base::get() = other.alloc_base::get();
+  void update_allocator(const A& alloc, std::true_type) {
+    alloc_base::get() = alloc;
   }
 
-  void update_allocator(const indirect&, std::false_type) {}
+  void update_allocator(const A&, std::false_type) {}
 
   void swap_allocator(indirect& other, std::true_type) {
     std::swap(alloc_base::get(), other.alloc_base::get());
-- 
2.43.0


From cd33745ccb8d384ca790b910655ed239d28e7bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 09/18] fix: TrackingAllocator must not count an allocation
 that failed

---
 tracking_allocator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tracking_allocator.h b/tracking_allocator.h
index 8d2aaa9..44067b0 100644
--- a/tracking_allocator.h
+++ b/tracking_allocator.h
@@ -44,9 +44,10 @@ struct TrackingAllocator {
   };
 
   T* allocate(std::size_t n) {
-    ++(*alloc_counter_);
     std::allocator<T> default_allocator{};
-    return default_allocator.allocate(n);
+    T* p = default_allocator.allocate(n);
+    ++(*alloc_counter_);
+    return p;
   }
 
   void deallocate(T* p, std::size_t n) {
-- 
2.43.0


From 23f6331a548c936e062eafce6c1bdc60bcf395d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 10/18] fix: C++20 indirect must assign to the owned object
 whatever its assignment operators return

---
 indirect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indirect.h b/indirect.h
index 927f140..c5249e5 100644
--- a/indirect.h
+++ b/indirect.h
@@ -248,7 +248,7 @@ class indirect {
     if (other.valueless_after_move()) {
       old = std::exchange(p_, nullptr);
     } else {
-      if (std::assignable_from<T&, T> && !valueless_after_move() &&
+      if (std::is_copy_assignable_v<T> && !valueless_after_move() &&
           alloc_ == other.alloc_) {
         *p_ = *other;
       } else {
@@ -308,7 +308,7 @@ class indirect {
   template <class U>
   constexpr indirect& operator=(U&& u)
     requires(!std::same_as<std::remove_cvref_t<U>, indirect> &&
-             std::constructible_from<T, U> && std::assignable_from<T&, U>)
+             std::constructible_from<T, U> && std::is_assignable_v<T&, U>)
   {
     if (valueless_after_move()) {
       p_ = construct_from(alloc_, std::forward<U>(u));
-- 
2.43.0


From fbc5c811d69907c2e28a5c49e35b01951e90a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 11/18] fix: C++14 indirect: value assignment's constraints
 required a complete element type in clang

The conditions were one conjunction, so declaring a class with a copy
constructor and a member indirect<N>, N incomplete, instantiated
is_constructible<N, ...>.  Separate conditions stop at the first that fails.
---
 indirect_cxx14.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index ac880ea..bffdff5 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -315,14 +315,15 @@ class indirect : private detail::empty_base_optimization<A> {
     return *this;
   }
 
-  template <class U, typename std::enable_if<
-                         (std::is_constructible<T, U>::value &&
-                          std::is_assignable<T&, U>::value &&
-                          !std::is_same<typename std::remove_cv<
-                                            typename std::remove_reference<
-                                                U>::type>::type,
-                                        indirect>::value),
-                         int>::type = 0>
+  template <
+      class U,
+      typename std::enable_if<
+          !std::is_same<typename std::remove_cv<
+                            typename std::remove_reference<U>::type>::type,
+                        indirect>::value,
+          int>::type = 0,
+      typename std::enable_if<std::is_constructible<T, U>::value, int>::type = 0,
+      typename std::enable_if<std::is_assignable<T&, U>::value, int>::type = 0>
   constexpr indirect& operator=(U&& u) {
     if (valueless_after_move()) {
       p_ = construct_from(get_allocator(), std::forward<U>(u));
-- 
2.43.0


From 3ac6e22e36965b06a2515b5c3e8929417ca140a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 12/18] fix: C++14 headers offered constructors that cannot be
 built

indirect: from a const T& of a T that cannot be copied, and without a default
constructible allocator.  polymorphic: from classes derived privately or
ambiguously, from cv-qualified classes in place, and without a default
constructible allocator.  is_constructible was true although using the
constructor did not compile; the C++20 headers reject them.
---
 indirect_cxx14.h    | 11 +++++++++--
 polymorphic_cxx14.h | 46 ++++++++++++++++++++++++++++++++++-----------
 2 files changed, 44 insertions(+), 13 deletions(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index bffdff5..a557379 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -133,7 +133,9 @@ class indirect : private detail::empty_base_optimization<A> {
           !std::is_same<typename std::remove_cv<
                             typename std::remove_reference<U>::type>::type,
                         xyz::in_place_t>::value,
-          int>::type = 0>
+          int>::type = 0,
+      typename std::enable_if<std::is_constructible<T, U&&>::value, int>::type =
+          0>
   explicit constexpr indirect(std::allocator_arg_t, const A& alloc, U&& u)
       : alloc_base(alloc) {
     p_ = construct_from(alloc_base::get(), std::forward<U>(u));
@@ -150,7 +152,12 @@ class indirect : private detail::empty_base_optimization<A> {
           !std::is_same<typename std::remove_cv<
                             typename std::remove_reference<U>::type>::type,
                         xyz::in_place_t>::value,
-          int>::type = 0>
+          int>::type = 0,
+      typename std::enable_if<std::is_constructible<T, U&&>::value, int>::type =
+          0,
+      typename AA = A,
+      typename std::enable_if<std::is_default_constructible<AA>::value,
+                              int>::type = 0>
   explicit constexpr indirect(U&& u)
       : indirect(std::allocator_arg, A{}, std::forward<U>(u)) {}
 
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 728aa45..76e44c1 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -102,6 +102,21 @@ class empty_base_optimization<T, true> : private T {
 
 namespace xyz {
 
+namespace detail {
+// An object type publicly and unambiguously derived from T, or T itself.
+template <class U, class T>
+struct is_derived_from
+    : std::integral_constant<
+          bool,
+          std::is_same<U, typename std::remove_cv<
+                              typename std::remove_reference<U>::type>::type>::
+                  value &&
+              std::is_base_of<T, U>::value &&
+              std::is_convertible<typename std::add_pointer<U>::type,
+                                  typename std::add_pointer<T>::type>::value> {
+};
+}  // namespace detail
+
 template <class T, class A = std::allocator<T>>
 class polymorphic : private detail::empty_base_optimization<A> {
   struct control_block {
@@ -220,7 +235,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
                               int>::type = 0,
       typename std::enable_if<std::is_copy_constructible<U>::value, int>::type =
           0,
-      typename std::enable_if<std::is_base_of<T, U>::value, int>::type = 0>
+      typename std::enable_if<detail::is_derived_from<U, T>::value, int>::type =
+          0>
   polymorphic(std::allocator_arg_t, const A& alloc, in_place_type_t<U>,
               Ts&&... ts)
       : alloc_base(alloc) {
@@ -234,7 +250,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
           int>::type = 0,
       typename std::enable_if<std::is_copy_constructible<U>::value, int>::type =
           0,
-      typename std::enable_if<std::is_base_of<T, U>::value, int>::type = 0>
+      typename std::enable_if<detail::is_derived_from<U, T>::value, int>::type =
+          0>
   polymorphic(std::allocator_arg_t, const A& alloc, in_place_type_t<U>,
               std::initializer_list<I> ilist, Ts&&... ts)
       : alloc_base(alloc) {
@@ -248,7 +265,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
           int>::type = 0,
       typename std::enable_if<std::is_copy_constructible<U>::value, int>::type =
           0,
-      typename std::enable_if<std::is_base_of<T, U>::value, int>::type = 0,
+      typename std::enable_if<detail::is_derived_from<U, T>::value, int>::type =
+          0,
       typename AA = A,
       typename std::enable_if<std::is_default_constructible<AA>::value,
                               int>::type = 0>
@@ -263,7 +281,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
                               int>::type = 0,
       typename std::enable_if<std::is_copy_constructible<U>::value, int>::type =
           0,
-      typename std::enable_if<std::is_base_of<T, U>::value, int>::type = 0,
+      typename std::enable_if<detail::is_derived_from<U, T>::value, int>::type =
+          0,
       typename AA = A,
       typename std::enable_if<std::is_default_constructible<AA>::value,
                               int>::type = 0>
@@ -283,9 +302,10 @@ class polymorphic : private detail::empty_base_optimization<A> {
               typename std::remove_reference<U>::type>::type>::value,
           int>::type = 0,
       typename std::enable_if<
-          std::is_base_of<
-              T, typename std::remove_cv<
-                     typename std::remove_reference<U>::type>::type>::value,
+          detail::is_derived_from<
+              typename std::remove_cv<
+                  typename std::remove_reference<U>::type>::type,
+              T>::value,
           int>::type = 0>
   explicit polymorphic(std::allocator_arg_t, const A& alloc, U&& u)
       : polymorphic(std::allocator_arg_t{}, alloc,
@@ -305,10 +325,14 @@ class polymorphic : private detail::empty_base_optimization<A> {
               typename std::remove_reference<U>::type>::type>::value,
           int>::type = 0,
       typename std::enable_if<
-          std::is_base_of<
-              T, typename std::remove_cv<
-                     typename std::remove_reference<U>::type>::type>::value,
-          int>::type = 0>
+          detail::is_derived_from<
+              typename std::remove_cv<
+                  typename std::remove_reference<U>::type>::type,
+              T>::value,
+          int>::type = 0,
+      typename AA = A,
+      typename std::enable_if<std::is_default_constructible<AA>::value,
+                              int>::type = 0>
   explicit polymorphic(U&& u)
       : polymorphic(std::allocator_arg_t{}, A{},
                     in_place_type_t<typename std::remove_cv<
-- 
2.43.0


From 63ecce45ce3019704b8e2d50a5508d799271a72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 13/18] fix: C++14 indirect: in-place constructor's constraint
 required a complete element type when copying (clang)

---
 indirect_cxx14.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index a557379..0b48bc4 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -169,13 +169,17 @@ class indirect : private detail::empty_base_optimization<A> {
     p_ = construct_from(alloc_base::get(), std::forward<Us>(us)...);
   }
 
-  template <class... Us,
+  // The tag is deduced so that copying an indirect of an incomplete type does
+  // not ask whether that type can be constructed.
+  template <class Tag, class... Us,
+            typename std::enable_if<std::is_same<Tag, xyz::in_place_t>::value,
+                                    int>::type = 0,
             typename std::enable_if<std::is_constructible<T, Us&&...>::value,
                                     int>::type = 0,
             class AA = A,
             typename std::enable_if<std::is_default_constructible<AA>::value,
                                     int>::type = 0>
-  explicit indirect(xyz::in_place_t, Us&&... us)
+  explicit indirect(Tag, Us&&... us)
       : indirect(std::allocator_arg, A(), xyz::in_place_t{},
                  std::forward<Us>(us)...) {}
 
-- 
2.43.0


From b2365304184ad2c296a8574bc617369932d13d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:10 +0000
Subject: [PATCH 14/18] fix: tagged_allocator.h and tracking_allocator.h must
 include what they use

---
 tagged_allocator.h   | 5 +++++
 tracking_allocator.h | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/tagged_allocator.h b/tagged_allocator.h
index 628dc6b..fcf33ca 100644
--- a/tagged_allocator.h
+++ b/tagged_allocator.h
@@ -24,6 +24,11 @@ CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #ifndef XYZ_TAGGED_ALLOCATOR_H
 #define XYZ_TAGGED_ALLOCATOR_H
 
+#include <cstddef>
+#include <memory>
+#include <new>
+#include <utility>
+
 namespace xyz {
 
 template <typename T>
diff --git a/tracking_allocator.h b/tracking_allocator.h
index 44067b0..16328fa 100644
--- a/tracking_allocator.h
+++ b/tracking_allocator.h
@@ -21,6 +21,9 @@ CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #ifndef XYZ_TRACKING_ALLOCATOR_H_
 #define XYZ_TRACKING_ALLOCATOR_H_
 
+#include <cstddef>
+#include <memory>
+
 namespace xyz {
 
 template <typename T>
-- 
2.43.0


From 5b1638830fec59b5eeaf5145f0185996fd04da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 15/18] fix: the installed package could not be found (its
 configuration included a file that is not installed)

---
 xyz_value_types-config.cmake.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xyz_value_types-config.cmake.in b/xyz_value_types-config.cmake.in
index 0c79f37..473dfb3 100644
--- a/xyz_value_types-config.cmake.in
+++ b/xyz_value_types-config.cmake.in
@@ -4,5 +4,5 @@ check_required_components(xyz_value_types)
 
 if(NOT TARGET xyz_value_types::xyz_value_types)
     list(APPEND CMAKE_MODULE_PATH "${CMAKE_CURRENT_LIST_DIR}")
-    include(${CMAKE_CURRENT_LIST_DIR}/xyz_value_types-target.cmake)
+    include(${CMAKE_CURRENT_LIST_DIR}/xyz_value_types-export-set.cmake)
 endif()
-- 
2.43.0


From 2291ff86ba2085e6df7d39975a979a6ff31255ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 16/18] fix: reduce_compile_commands.py must keep the first
 command of each file and exclude directories only

---
 scripts/reduce_compile_commands.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/reduce_compile_commands.py b/scripts/reduce_compile_commands.py
index 8f375a2..a7e8c23 100644
--- a/scripts/reduce_compile_commands.py
+++ b/scripts/reduce_compile_commands.py
@@ -34,7 +34,7 @@ def main(argv: list[str] | None = None) -> None:
 
     args = parser.parse_args(argv)
     args.exclude_dirs = args.exclude_dirs or []
-    args.exclude_dirs = [os.path.join(_ROOT, d) for d in args.exclude_dirs]
+    args.exclude_dirs = [os.path.join(_ROOT, d, "") for d in args.exclude_dirs]
 
     with open(args.input, "r") as f:
         compile_commands = json.load(f)
@@ -44,7 +44,7 @@ def main(argv: list[str] | None = None) -> None:
         file: str = compile_command["file"]
         if any(file.startswith(d) for d in args.exclude_dirs):
             continue
-        if file in compile_commands:
+        if file in compile_commands_by_file:
             continue
         compile_commands_by_file[file] = compile_command
 
-- 
2.43.0


From f8689d9b3a2e09e52c78dcab046eac4ab74eb352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 17/18] fix: exploration wrappers must copy on assignment and
 compare across element types

---
 exploration/wrapper.h | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/exploration/wrapper.h b/exploration/wrapper.h
index 51c4a85..0c20eb4 100644
--- a/exploration/wrapper.h
+++ b/exploration/wrapper.h
@@ -7,11 +7,23 @@ template <typename T>
 class wrapper {
   T* t_;
 
+  template <typename U>
+  friend class wrapper;
+
  public:
   wrapper() : t_(new T()) {}
 
   wrapper(const wrapper& other) : t_(new T(*other.t_)) {}
 
+  wrapper& operator=(const wrapper& other) {
+    if (this != &other) {
+      T* t = new T(*other.t_);
+      delete t_;
+      t_ = t;
+    }
+    return *this;
+  }
+
   ~wrapper() { delete t_; }
 
   template <typename U>
@@ -25,6 +37,9 @@ template <typename T>
 class constrained_wrapper {
   T* t_;
 
+  template <typename U>
+  friend class constrained_wrapper;
+
  public:
   template <typename TT = T>
   constrained_wrapper()
@@ -39,6 +54,21 @@ class constrained_wrapper {
     requires std::copy_constructible<TT>
       : t_(new T(*other.t_)) {}
 
+  constrained_wrapper& operator=(const constrained_wrapper& other)
+    requires false;
+
+  template <typename TT = T>
+  constrained_wrapper& operator=(const constrained_wrapper& other)
+    requires std::copy_constructible<TT>
+  {
+    if (this != &other) {
+      T* t = new T(*other.t_);
+      delete t_;
+      t_ = t;
+    }
+    return *this;
+  }
+
   ~constrained_wrapper() { delete t_; }
 
   template <typename U>
-- 
2.43.0


From 80c015bc2f4805a43f14b1baa9fb4d52dc599171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:17 +0000
Subject: [PATCH 18/18] fix: swap must exchange allocators that propagate on
 swap with their own swap

---
 indirect.h          | 3 ++-
 indirect_cxx14.h    | 3 ++-
 polymorphic.h       | 3 ++-
 polymorphic_cxx14.h | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/indirect.h b/indirect.h
index c5249e5..4186bfe 100644
--- a/indirect.h
+++ b/indirect.h
@@ -367,7 +367,8 @@ class indirect {
       std::allocator_traits<A>::is_always_equal::value) {
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects, we can swap both.
-      std::swap(alloc_, other.alloc_);
+      using std::swap;
+      swap(alloc_, other.alloc_);
       std::swap(p_, other.p_);
       return;
     } else /* constexpr */ {
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 0b48bc4..2f8e6bf 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -588,7 +588,8 @@ class indirect : private detail::empty_base_optimization<A> {
   void update_allocator(const A&, std::false_type) {}
 
   void swap_allocator(indirect& other, std::true_type) {
-    std::swap(alloc_base::get(), other.alloc_base::get());
+    using std::swap;
+    swap(alloc_base::get(), other.alloc_base::get());
   }
 
   void swap_allocator(indirect&, std::false_type) {}
diff --git a/polymorphic.h b/polymorphic.h
index 2ecb72d..fb0d802 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -385,7 +385,8 @@ class polymorphic {
       std::allocator_traits<A>::is_always_equal::value) {
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects, we can swap both.
-      std::swap(alloc_, other.alloc_);
+      using std::swap;
+      swap(alloc_, other.alloc_);
       std::swap(cb_, other.cb_);
       return;
     } else /* constexpr */ {
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 76e44c1..a5e3ae9 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -513,7 +513,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
   void update_allocator(const polymorphic&, std::false_type) {}
 
   void swap_allocator(polymorphic& other, std::true_type) {
-    std::swap(alloc_base::get(), other.alloc_base::get());
+    using std::swap;
+    swap(alloc_base::get(), other.alloc_base::get());
   }
 
   void swap_allocator(polymorphic&, std::false_type) {}
-- 
2.43.0

