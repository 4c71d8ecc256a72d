From a68f740158998d8bff04a855eda25de8dc567660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 01/13] fix: construct flyweight storage objects under the
 registry lock

The storage handed out by fw_fetch_storage() was constructed after the
registry lock had been released. A second caller (another shared library,
which has its own copy of the static in fw_holder_class::get()) could get a
reference to an object that was not fully constructed yet.
---
 include/obake/detail/fw_utils.hpp | 11 +++++++++++
 src/detail/fw_utils.cpp           |  7 ++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/obake/detail/fw_utils.hpp b/include/obake/detail/fw_utils.hpp
index fa312ae..3fbba3e 100644
--- a/include/obake/detail/fw_utils.hpp
+++ b/include/obake/detail/fw_utils.hpp
@@ -10,6 +10,7 @@
 #define OBAKE_DETAIL_FW_UTILS_HPP
 
 #include <cstddef>
+#include <mutex>
 #include <new>
 #include <typeinfo>
 #include <utility>
@@ -24,6 +25,11 @@ namespace obake::detail
 
 OBAKE_DLL_PUBLIC ::std::pair<void *, bool> fw_fetch_storage(const ::std::type_info &, ::std::size_t, void (*)(void *));
 
+// Lock the registry of the storages. This has to be kept while a newly-fetched storage
+// does not contain a fully-constructed object yet. The lock is recursive, thus
+// fw_fetch_storage() can be called while holding it.
+OBAKE_DLL_PUBLIC ::std::unique_lock<::std::recursive_mutex> fw_lock_storage();
+
 [[noreturn]] OBAKE_DLL_PUBLIC void fw_handle_fatal_error();
 
 // Implementation of a custom holder for flyweights. Largely lifted
@@ -45,6 +51,11 @@ struct fw_holder_class : ::boost::flyweights::holder_marker {
 
     static C &impl()
     {
+        // NOTE: the object must be constructed before any other
+        // caller (e.g., from another shared library, which has its own copy of the
+        // static variable in get()) can fetch the same storage.
+        const auto lock = detail::fw_lock_storage();
+
         // Try to fetch new or existing storage for an instance of type C.
         auto [storage, new_object]
             = detail::fw_fetch_storage(typeid(C), sizeof(C), [](void *ptr) { static_cast<C *>(ptr)->~C(); });
diff --git a/src/detail/fw_utils.cpp b/src/detail/fw_utils.cpp
index 353dfaa..e5edb68 100644
--- a/src/detail/fw_utils.cpp
+++ b/src/detail/fw_utils.cpp
@@ -52,7 +52,7 @@ auto fw_statics()
     // Need a storage dict and a mutex to synchronize the
     // access to it.
     static fw_storage_map fw_map;
-    static ::std::mutex fw_mutex;
+    static ::std::recursive_mutex fw_mutex;
 
     // NOTE: return a tuple of references.
     return ::std::make_tuple(::std::ref(fw_mutex), ::std::ref(fw_map));
@@ -60,6 +60,11 @@ auto fw_statics()
 
 } // namespace
 
+::std::unique_lock<::std::recursive_mutex> fw_lock_storage()
+{
+    return ::std::unique_lock<::std::recursive_mutex>(::std::get<0>(detail::fw_statics()));
+}
+
 // Fetch storage for an instance of type tp, whose size is s, and with a cleanup
 // function f. The returned pointer will point to a chunk of either new or existing
 // storage, the boolean flag indicates whether new storage was allocated or not.
-- 
2.43.0


From b3bcc5874f2d60af1eaafd4a25b4a511020e42e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 02/13] fix: truncate the result of a substitution into a power
 series

---
 include/obake/power_series/power_series.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/obake/power_series/power_series.hpp b/include/obake/power_series/power_series.hpp
index 2883568..8c74459 100644
--- a/include/obake/power_series/power_series.hpp
+++ b/include/obake/power_series/power_series.hpp
@@ -1397,7 +1397,15 @@ template <typename T, typename U>
     requires any_p_series<remove_cvref_t<T>> && (polynomials::detail::poly_subs_algo<T &&, U> != 0)
 inline polynomials::detail::poly_subs_ret_t<T &&, U> subs(T &&x, const symbol_map<U> &sm)
 {
-    return polynomials::detail::poly_subs_impl(::std::forward<T>(x), sm);
+    auto ret = polynomials::detail::poly_subs_impl(::std::forward<T>(x), sm);
+
+    // NOTE: replacing a symbol with a negative exponent increases
+    // the degree of the term.
+    if constexpr (any_p_series<decltype(ret)>) {
+        ::obake::truncate(ret);
+    }
+
+    return ret;
 }
 
 // Diff.
-- 
2.43.0


From 22d9e0f5c66d370bdd6fa61f25903241bc78664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:48 +0000
Subject: [PATCH 03/13] fix: do not allocate in series::clear()

---
 include/obake/series.hpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 6c3a890..bae6814 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -501,6 +501,21 @@ struct series_key_comparer {
     }
 };
 
+// Default-constructed instance of T, to be copied from.
+// NOTE: this is used for the tag and the symbol set of
+// empty series. These can be flyweights, whose default
+// construction may allocate memory (and throw), while
+// copying does not. Every series fetches these instances
+// upon construction, thus they can be later used in
+// noexcept functions.
+template <typename T>
+inline const T &series_default_instance()
+{
+    static const T retval{};
+
+    return retval;
+}
+
 // Small helper to clear() a nonconst
 // rvalue reference to a series. This is used in various places
 // where we might end up moving away individual coefficients from an input series,
@@ -656,7 +671,11 @@ public:
     // issues with serialization. Perhaps we can revisit
     // in the future if it turns our that this is a hot spot.
     // a47d39b81b1df9cd604fce910dc93ad043939c76
-    series() : m_s_table(1), m_log2_size(0) {}
+    series()
+        : m_s_table(1), m_log2_size(0), m_tag(detail::series_default_instance<Tag>()),
+          m_symbol_set(detail::series_default_instance<detail::ss_fw>())
+    {
+    }
     series(const series &) = default;
     series(series &&other) noexcept
         : m_s_table(::std::move(other.m_s_table)), m_log2_size(::std::move(other.m_log2_size)),
@@ -799,8 +818,10 @@ public:
     // Constructor from generic lower-rank object
     // and symbol set.
     template <typename T, ::std::enable_if_t<detail::series_generic_ctor_algorithm<T, K, C, Tag> == 1, int> = 0>
-    explicit series(T &&x, const symbol_set &s) : m_s_table(1), m_log2_size(0), m_symbol_set(s)
+    explicit series(T &&x, const symbol_set &s) : series()
     {
+        m_symbol_set = s;
+
         // NOTE: this is identical to the generic ctor code, not sure if it's worth it
         // to abstract it out in a separate function.
         // NOTE: disable key compat and table size checks: the key must be compatible
@@ -1321,8 +1342,8 @@ public:
     void clear() noexcept
     {
         clear_terms();
-        m_tag = Tag{};
-        m_symbol_set = detail::ss_fw{};
+        m_tag = detail::series_default_instance<Tag>();
+        m_symbol_set = detail::series_default_instance<detail::ss_fw>();
     }
 
 private:
-- 
2.43.0


From 66d41a33cba1181d7bceb399e55de71f6dc8cc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 04/13] fix: clear a power series whose in-place addition fails
 before truncation

---
 include/obake/power_series/power_series.hpp | 41 ++++++++++++++++-----
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/include/obake/power_series/power_series.hpp b/include/obake/power_series/power_series.hpp
index 8c74459..122b753 100644
--- a/include/obake/power_series/power_series.hpp
+++ b/include/obake/power_series/power_series.hpp
@@ -1149,12 +1149,23 @@ inline decltype(auto) ps_in_place_addsub_impl(T &&x, U &&y)
         // it would be slightly better for performance to avoid the insertion
         // altogether if it does not respect the truncation limit.
 
-        decltype(auto) ret = ::obake::detail::series_default_in_place_addsub_impl<AddOrSub>(::std::forward<T>(x),
-                                                                                            ::std::forward<U>(y));
+        try {
+            decltype(auto) ret = ::obake::detail::series_default_in_place_addsub_impl<AddOrSub>(::std::forward<T>(x),
+                                                                                                ::std::forward<U>(y));
 
-        ::obake::truncate(x);
+            ::obake::truncate(x);
 
-        return ret;
+            return ret;
+            // LCOV_EXCL_START
+        } catch (...) {
+            // NOTE: x may contain terms which do not respect
+            // the truncation, clear it up before rethrowing
+            // (see also set_truncation()).
+            x.clear();
+
+            throw;
+        }
+        // LCOV_EXCL_STOP
     } else {
         static_assert(algo == 2);
 
@@ -1201,13 +1212,25 @@ inline decltype(auto) ps_in_place_addsub_impl(T &&x, U &&y)
                     // and do an explicit truncation, as ret may contain terms that
                     // need to be discarded.
                     auto orig_tag = ::std::is_same_v<type1, detail::no_truncation> ? x.tag() : y.tag();
-                    decltype(auto) ret = ::obake::detail::series_default_in_place_addsub_impl<AddOrSub>(
-                        ::std::forward<T>(x), ::std::forward<U>(y));
-                    ret.tag() = ::std::move(orig_tag);
 
-                    ::obake::truncate(ret);
+                    try {
+                        decltype(auto) ret = ::obake::detail::series_default_in_place_addsub_impl<AddOrSub>(
+                            ::std::forward<T>(x), ::std::forward<U>(y));
+                        ret.tag() = ::std::move(orig_tag);
 
-                    return ret;
+                        ::obake::truncate(ret);
+
+                        return ret;
+                        // LCOV_EXCL_START
+                    } catch (...) {
+                        // NOTE: x may contain terms which do not respect
+                        // the truncation, clear it up before rethrowing
+                        // (see also set_truncation()).
+                        x.clear();
+
+                        throw;
+                    }
+                    // LCOV_EXCL_STOP
                 } else {
                     throw ::std::invalid_argument(
                         fmt::format("Unable to {} two power series in place if their truncation policies do not match",
-- 
2.43.0


From 5b219d9eefcf8b3d6e66967b2193148c35a729ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 05/13] fix: do not allocate in series move assignment and swap

---
 include/obake/series.hpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index bae6814..4834ac5 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -17,6 +17,7 @@
 #include <functional>
 #include <iterator>
 #include <mutex>
+#include <new>
 #include <numeric>
 #include <ostream>
 #include <sstream>
@@ -663,6 +664,19 @@ private:
     // this amount.
     static constexpr unsigned max_log2_size = static_cast<unsigned>(detail::limits_digits<s_size_type> - 1);
 
+    // Move src into dst.
+    // NOTE: this is used in place of small_vector's move assignment,
+    // which may need to allocate memory (and thus throw): after its
+    // dynamic storage has been moved away, a small vector does not go back
+    // to using the internal storage. Move construction never allocates here.
+    static void move_s_table(s_table_type &dst, s_table_type &src) noexcept
+    {
+        if (&dst != &src) {
+            dst.~s_table_type();
+            ::new (static_cast<void *>(&dst)) s_table_type(::std::move(src));
+        }
+    }
+
 public:
     using size_type = typename table_type::size_type;
 
@@ -838,7 +852,7 @@ public:
     {
         // NOTE: assuming self-assignment is handled
         // correctly by the members.
-        m_s_table = ::std::move(other.m_s_table);
+        move_s_table(m_s_table, other.m_s_table);
         m_log2_size = ::std::move(other.m_log2_size);
         m_tag = ::std::move(other.m_tag);
         m_symbol_set = ::std::move(other.m_symbol_set);
@@ -947,7 +961,17 @@ public:
     {
         using ::std::swap;
 
-        swap(m_s_table, other.m_s_table);
+        if (this == &other) {
+            return;
+        }
+
+        // NOTE: don't use swap() on the tables: swapping small vectors
+        // may need to allocate memory (and thus throw)
+        // when only one of the two is using the internal storage.
+        auto tmp_table(::std::move(m_s_table));
+        move_s_table(m_s_table, other.m_s_table);
+        move_s_table(other.m_s_table, tmp_table);
+
         swap(m_log2_size, other.m_log2_size);
         swap(m_tag, other.m_tag);
         swap(m_symbol_set, other.m_symbol_set);
-- 
2.43.0


From 3e6fcc299ab668b0211823a6044b3384ab71adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 06/13] fix: make the copy assignment of series exception safe

---
 include/obake/series.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 4834ac5..5def20a 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -847,7 +847,17 @@ public:
             *this, m_s_table[0], K(m_symbol_set.get()), ::std::forward<T>(x));
     }
 
-    series &operator=(const series &) = default;
+    series &operator=(const series &other)
+    {
+        if (this != &other) {
+            // NOTE: copy + move for exception safety: a memberwise
+            // copy assignment failing half-way would leave
+            // the members inconsistent with each other.
+            *this = series(other);
+        }
+
+        return *this;
+    }
     series &operator=(series &&other) noexcept
     {
         // NOTE: assuming self-assignment is handled
-- 
2.43.0


From b31f09fc9d16a8b1c0196c390e4bedc62444e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:42 +0000
Subject: [PATCH 07/13] fix: drop the zero coefficients which a symbol
 extension with a coefficient conversion produces

---
 include/obake/series.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 5def20a..f270f52 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -585,7 +585,7 @@ inline void series_sym_extender(To &to, From &&from, const symbol_idx_map<symbol
     // coincide (i.e., no cf conversion takes place),
     // otherwise the conversion might generate zeroes.
     constexpr auto check_zero
-        = static_cast<sat_check_zero>(::std::is_same_v<series_cf_t<To>, series_cf_t<remove_cvref_t<From>>>);
+        = static_cast<sat_check_zero>(!::std::is_same_v<series_cf_t<To>, series_cf_t<remove_cvref_t<From>>>);
 
     // Merge the terms, distinguishing the segmented vs non-segmented case.
     if (from_log2_size) {
-- 
2.43.0


From 8723d1049f4bca7aa2f47a10c57c1d5eb21c6c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 08/13] fix: do not execute unrelated tasks while the series
 pow cache is locked

The multiplications which fill the cache (and the destruction of the cached
series) may run in parallel, and a thread which waits for their completion may
pick up any other task of the arena. If such a task exponentiates or clears the
cache, it locks a mutex which the thread holds already: the program hangs.
---
 include/obake/series.hpp | 7 ++++++-
 src/series.cpp           | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index f270f52..b6e8ddf 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -45,6 +45,7 @@
 #include <tbb/blocked_range.h>
 #include <tbb/parallel_for.h>
 #include <tbb/parallel_reduce.h>
+#include <tbb/task_arena.h>
 
 #include <mp++/integer.hpp>
 
@@ -1873,7 +1874,11 @@ inline series_default_pow_ret_t<T &&, U &&> pow(pow_t, T &&b, U &&e_)
                         "multiplications: the exponent cannot be converted into a non-negative integral value");
         }
 
-        return internal::series_pow_from_cache(b, un);
+        // NOTE: the cache's mutex is locked during the multiplications. Prevent
+        // the current thread from executing unrelated tasks while it waits for
+        // the completion of a parallel multiplication, as these might attempt
+        // to lock the mutex again.
+        return ::tbb::this_task_arena::isolate([&]() { return internal::series_pow_from_cache(b, un); });
     } else {
         obake_throw(::std::invalid_argument,
                     fmt::format("Cannot compute the power of a series of type '{}': the series does not consist of a "
diff --git a/src/series.cpp b/src/series.cpp
index 4b053be..5d45493 100644
--- a/src/series.cpp
+++ b/src/series.cpp
@@ -74,10 +74,14 @@ void clear_series_pow_map()
     // Fetch the global data.
     auto [map, mutex] = internal::get_series_pow_map();
 
+    // NOTE: the destruction of the cached series may run in parallel,
+    // do it only after the mutex has been unlocked.
+    series_pow_map_t old;
+
     // Lock down before accessing the cache.
     ::std::lock_guard lock(mutex);
 
-    map.clear();
+    map.swap(old);
 }
 
 } // namespace customisation::internal
-- 
2.43.0


From 672876684c1cd88327f2690edc04598e8d4a53e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 09/13] fix: keep partial results out of the series pow cache

If pow() runs in a task whose group is being cancelled (e.g., because another
task of the group threw), the parallel multiplications which fill the cache
return early with partial results. These were stored in the cache and returned
by all subsequent exponentiations.
---
 include/obake/series.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index b6e8ddf..2fec672 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -46,6 +46,7 @@
 #include <tbb/parallel_for.h>
 #include <tbb/parallel_reduce.h>
 #include <tbb/task_arena.h>
+#include <tbb/task_group.h>
 
 #include <mp++/integer.hpp>
 
@@ -1761,9 +1762,16 @@ inline Base series_pow_from_cache(const Base &base, unsigned n)
     }
 
     // Fill in the missing powers as needed.
-    while (v.size() <= n) {
-        v.emplace_back(::std::any_cast<const Base &>(v.back()) * b);
-    }
+    // NOTE: this may be running in a task whose group is being cancelled, which
+    // would make the parallel multiplications below return early with partial
+    // results. Run them in a context which the cancellation does not reach, so
+    // that the cache contains only complete results.
+    ::tbb::task_group_context ctx(::tbb::task_group_context::isolated);
+    ::tbb::task_group(ctx).run_and_wait([&]() {
+        while (v.size() <= n) {
+            v.emplace_back(::std::any_cast<const Base &>(v.back()) * b);
+        }
+    });
 
     // Return a copy of the desired power.
     // NOTE: returnability is guaranteed because
-- 
2.43.0


From 55668368103f93c244db4d5707ab40fc899c9d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:22 +0000
Subject: [PATCH 10/13] fix: do not end the process if the tables of a series
 cannot be destroyed in parallel

TBB allocates memory for its tasks. If that fails, the exception escaped from
the destructor of segmented series and std::terminate() was called. Let the
destructor of the vector of tables do the work in such a case.
---
 include/obake/series.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 2fec672..1af769a 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -957,14 +957,20 @@ public:
 
         if (m_s_table.size() > 1u) {
             // Clear the tables in parallel if there's more than 1.
-            ::tbb::parallel_for(::tbb::blocked_range(m_s_table.begin(), m_s_table.end()), [](const auto &range) {
-                for (auto &t : range) {
-                    // NOTE: move assigning a new empty table
-                    // should ensure that the memory in t
-                    // is deallocated.
-                    t = table_type{};
-                }
-            });
+            try {
+                ::tbb::parallel_for(::tbb::blocked_range(m_s_table.begin(), m_s_table.end()), [](const auto &range) {
+                    for (auto &t : range) {
+                        // NOTE: move assigning a new empty table
+                        // should ensure that the memory in t
+                        // is deallocated.
+                        t = table_type{};
+                    }
+                });
+            } catch (...) {
+                // NOTE: TBB may fail to allocate memory for its tasks. In such a case,
+                // the remaining tables will be cleared sequentially by
+                // the destructor of m_s_table.
+            }
         }
     }
 
-- 
2.43.0


From 7ee6a5d7e9c2a56071535903899e6c171233ab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 11/13] fix: a symbol set is not loaded from an archive with
 unsorted or duplicate symbols

---
 include/obake/symbols.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/obake/symbols.hpp b/include/obake/symbols.hpp
index 8ccb914..2ccbdb5 100644
--- a/include/obake/symbols.hpp
+++ b/include/obake/symbols.hpp
@@ -185,6 +185,16 @@ inline void load(Archive &ar, ::obake::symbol_set &ss, unsigned)
         ar >> n;
     }
 
+    // NOTE: don't trust the archive. The reading of
+    // an incomplete string may not be detected by some archives,
+    // and unsorted symbols would break the invariants of ss.
+    if (obake_unlikely(
+            ::std::adjacent_find(seq.begin(), seq.end(), [](const auto &a, const auto &b) { return !(a < b); })
+            != seq.end())) {
+        obake_throw(::std::invalid_argument, "The deserialisation of a symbol set produced a sequence of symbols which "
+                                             "is not sorted, or which contains duplicates");
+    }
+
     // Move the sequence back into ss.
     ss.adopt_sequence(::boost::container::ordered_unique_range_t{}, ::std::move(seq));
 }
-- 
2.43.0


From 5a2b9f82a72d4a6b6ee37f7f7d0ee75bf8af3b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:06 +0000
Subject: [PATCH 12/13] fix: formatting via fmt reports a failed stream
 insertion instead of truncating the text

---
 include/obake/detail/fmt_compat.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/obake/detail/fmt_compat.hpp b/include/obake/detail/fmt_compat.hpp
index d33ac0e..16149ea 100644
--- a/include/obake/detail/fmt_compat.hpp
+++ b/include/obake/detail/fmt_compat.hpp
@@ -9,6 +9,7 @@
 #ifndef OBAKE_DETAIL_FMT_COMPAT_HPP
 #define OBAKE_DETAIL_FMT_COMPAT_HPP
 
+#include <ios>
 #include <sstream>
 #include <stdexcept>
 
@@ -35,6 +36,9 @@ struct ostream_formatter {
     auto format(const T &x, FormatContext &ctx) const
     {
         std::ostringstream oss;
+        // NOTE: without this, running out of memory
+        // would silently truncate the output.
+        oss.exceptions(std::ios_base::failbit | std::ios_base::badbit);
         oss << x;
 
         return fmt::format_to(ctx.out(), "{}", oss.str());
-- 
2.43.0


From cccb2cd3339bf53a592732bb5f4b1f13151058bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:36 +0000
Subject: [PATCH 13/13] fix: retry the creation of the libbacktrace state if it
 failed before

If the creation of the thread-local state of libbacktrace failed once (e.g., for
lack of memory), no stack trace could be generated any more in that thread.
---
 src/libbacktrace_stack_trace.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libbacktrace_stack_trace.cpp b/src/libbacktrace_stack_trace.cpp
index 1018309..38d330d 100644
--- a/src/libbacktrace_stack_trace.cpp
+++ b/src/libbacktrace_stack_trace.cpp
@@ -117,6 +117,11 @@ int backtrace_callback(void *data, ::std::uintptr_t, const char *filename, int l
     thread_local auto bt_state = ::backtrace_create_state(nullptr, 0, nullptr, nullptr);
     if (obake_unlikely(!bt_state)) {
         // LCOV_EXCL_START
+        // NOTE: the creation may have failed in a previous
+        // invocation, try again.
+        bt_state = ::backtrace_create_state(nullptr, 0, nullptr, nullptr);
+    }
+    if (obake_unlikely(!bt_state)) {
         return "The stack trace could not be generated because the backtrace_create_state() function failed to "
                "allocate the state structure.";
         // LCOV_EXCL_STOP
-- 
2.43.0

