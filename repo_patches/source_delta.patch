From 8425c397244cac74e60433544e72c5af9d0fc9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 001/107] fix: lists holding an unset element compare equal to
 themselves

The element-wise comparison of two lists returned false as soon as either
element was unset, even when both were: a list with an unset element was not
equal to its own copy.
---
 src/ossia/network/value/value.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/value/value.cpp b/src/ossia/network/value/value.cpp
index 3a2e64d..2d6d13a 100644
--- a/src/ossia/network/value/value.cpp
+++ b/src/ossia/network/value/value.cpp
@@ -389,7 +389,12 @@ struct value_comparison_visitor2
       {
         result &= ossia::apply(*this, val.v, tit->v);
       }
-      else // TODO handle case where !val && !tit
+      else if (!val.valid() && !tit->valid())
+      {
+        // Two unset elements are equal, as in value's own operators
+        result &= Comparator{}(0, 0);
+      }
+      else
       {
         result = false;
         break;
-- 
2.43.0


From 233ae3e394241bb2771087517ee84a0a3e8dd122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 002/107] fix: text form of strings and characters reads back
 unchanged

The parser skipped blanks at the start of a quoted string and between the
quotes of a character (lexeme and the character parser pre-skip), a quote
character could not be read back, and a string ending with a backslash ran
into its closing quote: do not skip inside quotes, accept any character
between the quotes of a char, and escape backslashes like quotes.
---
 src/ossia/network/value/detail/value_parse_impl.hpp | 6 +++---
 src/ossia/network/value/format_value.hpp            | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ossia/network/value/detail/value_parse_impl.hpp b/src/ossia/network/value/detail/value_parse_impl.hpp
index 8309351..01eb434 100644
--- a/src/ossia/network/value/detail/value_parse_impl.hpp
+++ b/src/ossia/network/value/detail/value_parse_impl.hpp
@@ -50,7 +50,7 @@ struct EscapedChar : x3::symbols<const char>
 {
   EscapedChar()
   {
-    add("\\\"", '\"');
+    add("\\\"", '\"')("\\\\", '\\');
   }
 };
 using float_p = real_parser<float, x3::real_policies<float>>;
@@ -58,7 +58,7 @@ using float_p = real_parser<float, x3::real_policies<float>>;
 const auto o_impulse__def
     = x3::lit("impulse")[([](auto&) { return ossia::impulse{}; })];
 const auto o_str__def
-    = "string: \"" >> (x3::lexeme[*(EscapedChar() | (char_ - '"'))]) >> '"';
+    = "string: \"" >> (x3::no_skip[*(EscapedChar() | (char_ - '"'))]) >> '"';
 const auto o_vec2__def = "vec2f: [" >> float_p() >> "," >> float_p() >> "]";
 const auto o_vec3__def
     = "vec3f: [" >> float_p() >> "," >> float_p() >> "," >> float_p() >> "]";
@@ -74,7 +74,7 @@ BOOST_SPIRIT_DEFINE(o_vec4_)
 BOOST_SPIRIT_DEFINE(o_list_)
 
 const auto value__def = ("float: " >> float_p())
-                        | ("char: '" >> (char_ - "'") >> "'")
+                        | ("char: '" >> x3::no_skip[char_] >> "'")
                         | ("int: " >> int_) | BoolParse_map{} | o_impulse_
                         | o_str_ | o_vec2_ | o_vec3_ | o_vec4_ | o_list_;
 
diff --git a/src/ossia/network/value/format_value.hpp b/src/ossia/network/value/format_value.hpp
index 648ee80..8a09ab5 100644
--- a/src/ossia/network/value/format_value.hpp
+++ b/src/ossia/network/value/format_value.hpp
@@ -32,6 +32,7 @@ struct value_prettyprint_visitor
   }
   auto operator()(std::string str) const
   {
+    boost::algorithm::replace_all(str, "\\", "\\\\");
     boost::algorithm::replace_all(str, "\"", "\\\"");
     return fmt::format_to(ctx.out(), "string: \"{}\"", str);
   }
-- 
2.43.0


From 85ca00b6d944fe60b78e38d57dc00b1715220949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 003/107] fix: free bounding leaves every value unchanged

apply_domain on a const value went through the domain even with
bounding_mode::FREE: a value whose type does not match the domain was
replaced by an unset value and a float in an integer domain was truncated,
while the overload taking a temporary returned the value as it is.
---
 src/ossia/network/domain/domain_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/domain/domain_base.cpp b/src/ossia/network/domain/domain_base.cpp
index 63a9bed..85213d5 100644
--- a/src/ossia/network/domain/domain_base.cpp
+++ b/src/ossia/network/domain/domain_base.cpp
@@ -235,7 +235,7 @@ ossia::domain make_domain_from_minmax(
 
 value apply_domain(const domain& dom, bounding_mode b, const ossia::value& val)
 {
-  if (bool(dom) && bool(val.v))
+  if (bool(dom) && bool(val.v) && b != ossia::bounding_mode::FREE)
   {
     return ossia::apply(apply_domain_visitor{b}, val.v, dom.v);
   }
-- 
2.43.0


From 488a7867d33a7f08753d81182d26d491e393cf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 004/107] fix: setting the allowed values of a list domain
 reaches every component

Only the first component got the values, the others were cleared.
---
 src/ossia/network/domain/detail/value_set_domain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/domain/detail/value_set_domain.hpp b/src/ossia/network/domain/detail/value_set_domain.hpp
index f35b672..c08344f 100644
--- a/src/ossia/network/domain/detail/value_set_domain.hpp
+++ b/src/ossia/network/domain/detail/value_set_domain.hpp
@@ -94,7 +94,7 @@ struct value_set_update_visitor
       set.clear();
       for (auto& value : values)
       {
-        dom.values[0].insert(value);
+        set.insert(value);
       }
     }
   }
-- 
2.43.0


From 203e692de2529ccde117b1be89d9fddae497fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 005/107] fix: unset bounds of a list domain stay unset for
 vectors

Converting a list domain to a vector domain turned a missing minimum or
maximum into 0, so that a vector was clamped to 0 where no bound was given.
---
 src/ossia/network/domain/domain_conversion.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/domain/domain_conversion.hpp b/src/ossia/network/domain/domain_conversion.hpp
index 434df4e..b3bb6ad 100644
--- a/src/ossia/network/domain/domain_conversion.hpp
+++ b/src/ossia/network/domain/domain_conversion.hpp
@@ -109,13 +109,15 @@ struct domain_conversion<vecf_domain<N>>
     const std::size_t min_size = std::min(N, t.min.size());
     for (std::size_t i = 0; i < min_size; i++)
     {
-      dom.min[i] = ossia::convert<float>(t.min[i]);
+      if (t.min[i].valid())
+        dom.min[i] = ossia::convert<float>(t.min[i]);
     }
 
     const std::size_t max_size = std::min(N, t.max.size());
     for (std::size_t i = 0; i < max_size; i++)
     {
-      dom.max[i] = ossia::convert<float>(t.max[i]);
+      if (t.max[i].valid())
+        dom.max[i] = ossia::convert<float>(t.max[i]);
     }
 
     const std::size_t vals_size = std::min(N, t.values.size());
-- 
2.43.0


From 9bc3a7585310a3760bd3c6b44a4e558b7dfd401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 006/107] fix: copying a generic domain keeps its list of
 allowed values

---
 src/ossia/network/domain/domain_base_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/domain/domain_base_impl.hpp b/src/ossia/network/domain/domain_base_impl.hpp
index 0976e19..be5967a 100644
--- a/src/ossia/network/domain/domain_base_impl.hpp
+++ b/src/ossia/network/domain/domain_base_impl.hpp
@@ -317,14 +317,14 @@ struct OSSIA_EXPORT domain_base<ossia::value>
   domain_base(const domain_base<value_type>& other) noexcept
       : min{std::move(other.min)}
       , max{std::move(other.max)}
-      , values{std::move(other.values)}
+      , values(other.values)
   {
   }
 
   domain_base(domain_base<value_type>&& other) noexcept
       : min{std::move(other.min)}
       , max{std::move(other.max)}
-      , values{std::move(other.values)}
+      , values(std::move(other.values))
   {
   }
 
-- 
2.43.0


From 79d53527b577101788324025765c72ec04ec13fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 007/107] fix: azimuth of polar, spherical and cylindrical
 positions converts back to itself

---
 src/ossia/network/dataspace/detail/dataspace_impl.cpp | 4 ++--
 src/ossia/network/dataspace/position.hpp              | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ossia/network/dataspace/detail/dataspace_impl.cpp b/src/ossia/network/dataspace/detail/dataspace_impl.cpp
index 8c70552..39f40e0 100644
--- a/src/ossia/network/dataspace/detail/dataspace_impl.cpp
+++ b/src/ossia/network/dataspace/detail/dataspace_impl.cpp
@@ -265,7 +265,7 @@ spherical_u::from_neutral(strong_value<spherical_u::neutral_unit> self)
 
   const auto temp = ipow(x, 2) + ipow(y, 2);
 
-  return {(float)(std::atan2(y, x) * rad_to_deg),
+  return {(float)(std::atan2(x, y) * rad_to_deg),
           (float)(std::atan2(z, std::sqrt(temp)) * rad_to_deg),
           (float)(std::sqrt(temp + ipow(z, 2)))};
 }
@@ -287,7 +287,7 @@ cylindrical_u::from_neutral(strong_value<cylindrical_u::neutral_unit> self)
   const auto y = self.dataspace_value[1];
   const auto z = self.dataspace_value[2];
 
-  return {(float)(ossia::norm(x, y)), (float)(std::atan2(y, x) * rad_to_deg),
+  return {(float)(ossia::norm(x, y)), (float)(std::atan2(x, y) * rad_to_deg),
           z};
 }
 }
diff --git a/src/ossia/network/dataspace/position.hpp b/src/ossia/network/dataspace/position.hpp
index d49944d..602af00 100644
--- a/src/ossia/network/dataspace/position.hpp
+++ b/src/ossia/network/dataspace/position.hpp
@@ -154,7 +154,7 @@ struct OSSIA_EXPORT polar_u : public position_unit<polar_u>
     const auto x = self.dataspace_value[0];
     const auto y = self.dataspace_value[1];
 
-    return {(float)(std::atan2(y, x) * float(rad_to_deg)),
+    return {(float)(std::atan2(x, y) * float(rad_to_deg)),
             (float)(ossia::norm(x, y))};
   }
 
-- 
2.43.0


From 786a7ad022ae26eefde4fcbb9bd5e6ea430230fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 008/107] fix: roll angle of an orientation converted from a
 quaternion

---
 src/ossia/network/dataspace/detail/dataspace_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/dataspace/detail/dataspace_impl.cpp b/src/ossia/network/dataspace/detail/dataspace_impl.cpp
index 39f40e0..0a1d4a0 100644
--- a/src/ossia/network/dataspace/detail/dataspace_impl.cpp
+++ b/src/ossia/network/dataspace/detail/dataspace_impl.cpp
@@ -195,7 +195,7 @@ euler_u::from_neutral(strong_value<euler_u::neutral_unit> self)
   return {
       (float)(rad_to_deg * std::atan2(-2. * (z * w - x * y), w * w - x * x + y * y - z * z)),
       (float)(rad_to_deg * std::asin(2. * (w * x + y * z))),
-      (float)(rad_to_deg * std::atan2(2. * (w * y + x * z), w * w - x * x - y * y + z * z))};
+      (float)(rad_to_deg * std::atan2(2. * (w * y - x * z), w * w - x * x - y * y + z * z))};
 }
 
 strong_value<axis_u::neutral_unit>
-- 
2.43.0


From 84adf2c53d12f29c0ab6d3342dabbfef1dd49178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 009/107] fix: merging a number past the last component of a
 value with unit is ignored

---
 src/ossia/network/dataspace/detail/dataspace_merge.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ossia/network/dataspace/detail/dataspace_merge.hpp b/src/ossia/network/dataspace/detail/dataspace_merge.hpp
index d789ed6..ea8ab48 100644
--- a/src/ossia/network/dataspace/detail/dataspace_merge.hpp
+++ b/src/ossia/network/dataspace/detail/dataspace_merge.hpp
@@ -164,9 +164,12 @@ struct partial_value_merger_helper<T, U, enable_if_first_iterable<T, U>>
   operator()(T value_unit, const U& value, const ossia::destination_index& idx)
   {
     auto i = idx[0];
-    value_unit.dataspace_value[i] = ossia::convert<
-        std::remove_reference_t<decltype(value_unit.dataspace_value[i])>>(
-        value);
+    if ((int64_t)value_unit.dataspace_value.size() > i)
+    {
+      value_unit.dataspace_value[i] = ossia::convert<
+          std::remove_reference_t<decltype(value_unit.dataspace_value[i])>>(
+          value);
+    }
     return value_unit;
   }
 
-- 
2.43.0


From 9fb9d07fffdacc3070c2e335366e23c7ea7f60ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 010/107] fix: the SLIP decoder finds the next message after a
 damaged one

---
 src/ossia/network/sockets/slip_framing.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/sockets/slip_framing.hpp b/src/ossia/network/sockets/slip_framing.hpp
index da3a4b3..3d87e21 100644
--- a/src/ossia/network/sockets/slip_framing.hpp
+++ b/src/ossia/network/sockets/slip_framing.hpp
@@ -90,9 +90,10 @@ struct slip_decoder
         {
           // End of a message, we can process it
           case slip::eot:
-            m_status = waiting;
+            // An empty message means that this is actually the start of one
             if(m_decoded.size() > 0)
             {
+              m_status = waiting;
               f(m_decoded.data(), m_decoded.size());
             }
             m_decoded.clear();
-- 
2.43.0


From 3ee794a809366d33f664f6eecfee732582fb059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 011/107] fix: size-prefixed streams survive a split size field
 and an empty message

---
 src/ossia/network/sockets/size_prefix_framing.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/sockets/size_prefix_framing.hpp b/src/ossia/network/sockets/size_prefix_framing.hpp
index 770ed4c..df415ab 100644
--- a/src/ossia/network/sockets/size_prefix_framing.hpp
+++ b/src/ossia/network/sockets/size_prefix_framing.hpp
@@ -28,8 +28,9 @@ struct size_prefix_decoder
   void receive(F f)
   {
     // Receive the size prefix
-    socket.async_read_some(
+    boost::asio::async_read(socket,
         boost::asio::buffer(&m_next_packet_size, sizeof(int32_t)),
+        boost::asio::transfer_exactly(sizeof(int32_t)),
         [this, f = std::move(f)] (boost::system::error_code ec, std::size_t sz) mutable {
           read_size(std::move(f), ec, sz);
         });
@@ -42,8 +43,10 @@ struct size_prefix_decoder
       return;
 
     boost::endian::big_to_native_inplace(m_next_packet_size);
-    if (m_next_packet_size <= 0)
+    if (m_next_packet_size < 0)
       return;
+    if (m_next_packet_size == 0)
+      return this->receive(std::move(f));
 
     m_data.resize(m_next_packet_size);
     boost::asio::async_read(socket,
-- 
2.43.0


From 113010005fa4ca90923363e356debaa9f61e9078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 012/107] fix: setting an attribute from a variable leaves the
 variable as it was

---
 src/ossia/detail/any_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/detail/any_map.hpp b/src/ossia/detail/any_map.hpp
index 5e5bd08..a859560 100644
--- a/src/ossia/detail/any_map.hpp
+++ b/src/ossia/detail/any_map.hpp
@@ -140,9 +140,9 @@ void set_attribute(any_map& e, ossia::string_view str, T&& val)
     // TODO insert_or_assign
     auto it = e.find(str);
     if (it != e.end())
-      it.value() = std::move(val);
+      it.value() = std::forward<T>(val);
     else
-      e.insert(std::make_pair(std::string(str), ossia::any{std::move(val)}));
+      e.insert(std::make_pair(std::string(str), ossia::any{std::forward<T>(val)}));
   }
   else
   {
-- 
2.43.0


From d4ffcce49b4f2a089926a57204dbca1732e6c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 013/107] fix: disabling a callback keeps the other callbacks
 and every saved position valid

---
 src/ossia/detail/callback_container.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/ossia/detail/callback_container.hpp b/src/ossia/detail/callback_container.hpp
index 3790d15..c3af067 100644
--- a/src/ossia/detail/callback_container.hpp
+++ b/src/ossia/detail/callback_container.hpp
@@ -129,31 +129,34 @@ public:
   class disabled_callback
   {
   public:
-    explicit disabled_callback(callback_container& self)
-      : self{self}, old_callbacks{self.m_callbacks}
+    disabled_callback(callback_container& self, iterator it)
+      : self{self}, it{it}, old_callback{std::move(*it)}
     {
-
+      // Empty callbacks are skipped when sending.
+      *it = T{};
     }
 
     ~disabled_callback()
     {
-      self.replace_callbacks(std::move(old_callbacks));
+      self.replace_callback(it, std::move(old_callback));
     }
 
+    disabled_callback(const disabled_callback&) = delete;
+    disabled_callback& operator=(const disabled_callback&) = delete;
+
   private:
     callback_container& self;
-    callback_container::impl old_callbacks;
+    iterator it;
+    T old_callback;
   };
 
   disabled_callback disable_callback(iterator it)
   {
     std::lock_guard<std::mutex> lck{m_mutx};
-    disabled_callback dis{*this};
 
     // TODO should we also call on_removing_last_blah ?
     // I don't think so : it's supposed to be a short operation
-    m_callbacks.erase(it);
-    return dis;
+    return disabled_callback{*this, it};
   }
 
   /**
-- 
2.43.0


From 20ce6b634b4c345bd49ba674f6bb9b679eca7871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 014/107] fix: sized pools hand out objects of the requested
 size

---
 src/ossia/detail/buffer_pool.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/ossia/detail/buffer_pool.hpp b/src/ossia/detail/buffer_pool.hpp
index 0ec4e4b..9095294 100644
--- a/src/ossia/detail/buffer_pool.hpp
+++ b/src/ossia/detail/buffer_pool.hpp
@@ -68,20 +68,18 @@ struct sized_object_pool
   Obj_T acquire_sized(std::size_t req_size = 1024) noexcept
   {
     Obj_T b;
-    if(!queues[find_bucket(req_size)].try_dequeue(b))
-    {
-      Alloc::resize(b, req_size);
-    }
+    // What comes from the queue can have any size of its bucket
+    queues[find_bucket(req_size)].try_dequeue(b);
+    Alloc::resize(b, req_size);
     return b;
   }
 
   Obj_T acquire_reserved(std::size_t req_size = 1024) noexcept
   {
     Obj_T b;
-    if(!queues[find_bucket(req_size)].try_dequeue(b))
-    {
-      Alloc::reserve(b, req_size);
-    }
+    // What comes from the queue can have any size of its bucket
+    queues[find_bucket(req_size)].try_dequeue(b);
+    Alloc::reserve(b, req_size);
     return b;
   }
 
-- 
2.43.0


From 693a94a0093fb9d86d105b26a7cb2659c43c5358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 015/107] fix: adding a negative duration larger than the first
 one is not infinite

---
 src/ossia/editor/scenario/time_value.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ossia/editor/scenario/time_value.hpp b/src/ossia/editor/scenario/time_value.hpp
index 80a297f..388c410 100644
--- a/src/ossia/editor/scenario/time_value.hpp
+++ b/src/ossia/editor/scenario/time_value.hpp
@@ -138,13 +138,12 @@ struct OSSIA_EXPORT time_value
     }
     else if(lhs.impl >= 0 && rhs.impl < 0)
     {
-      uint64_t l = lhs.impl;
-      return l + rhs.impl >= infinite_min;
+      // Opposite signs: the sum is smaller than either, and may be negative
+      return lhs.impl + rhs.impl >= infinite_min;
     }
     else if(lhs.impl < 0 && rhs.impl >= 0)
     {
-      uint64_t r = rhs.impl;
-      return lhs.impl + r >= infinite_min;
+      return lhs.impl + rhs.impl >= infinite_min;
     }
     else if(lhs.impl < 0 && rhs.impl < 0)
     {
-- 
2.43.0


From 58314e8ecd1a6a782755ab5948102b8c90e9e92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 016/107] fix: infinite durations stay infinite and equal, and
 negating a duration leaves it unchanged

---
 src/ossia/editor/scenario/time_value.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/ossia/editor/scenario/time_value.hpp b/src/ossia/editor/scenario/time_value.hpp
index 388c410..e875b1c 100644
--- a/src/ossia/editor/scenario/time_value.hpp
+++ b/src/ossia/editor/scenario/time_value.hpp
@@ -48,7 +48,7 @@ struct OSSIA_EXPORT time_value
   constexpr time_value& operator+=(int64_t d) noexcept
   {
     if (infinite())
-      impl = 0;
+      impl = infinity;
     else
       impl += d;
 
@@ -87,12 +87,9 @@ struct OSSIA_EXPORT time_value
     return *this;
   }
 
-  constexpr time_value& operator-() noexcept
+  constexpr time_value operator-() const noexcept
   {
-    if (!infinite())
-      impl = -impl;
-
-    return *this;
+    return infinite() ? *this : time_value{-impl};
   }
 
   /*! addition operator */
@@ -265,7 +262,7 @@ struct OSSIA_EXPORT time_value
   }
   constexpr bool operator!=(ossia::time_value rhs) const noexcept
   {
-    return (infinite() != rhs.infinite()) || (impl != rhs.impl);
+    return !(*this == rhs);
   }
   constexpr bool operator<(ossia::time_value rhs) const noexcept
   {
-- 
2.43.0


From 2172a59d407f758da37f00bb8106c1598a3460b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 017/107] fix: every callback receives the arguments that were
 sent

---
 src/ossia/detail/callback_container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/detail/callback_container.hpp b/src/ossia/detail/callback_container.hpp
index c3af067..4e26fef 100644
--- a/src/ossia/detail/callback_container.hpp
+++ b/src/ossia/detail/callback_container.hpp
@@ -190,7 +190,7 @@ public:
     for (auto& callback : m_callbacks)
     {
       if (callback)
-        callback(std::forward<Args>(args)...);
+        callback(args...);
     }
   }
 
-- 
2.43.0


From 045736a798fc295243be408fad8013b2fcf31ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 018/107] fix: a curve starts at zero by default and follows a
 new start destination

---
 src/ossia/editor/curve/curve.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ossia/editor/curve/curve.hpp b/src/ossia/editor/curve/curve.hpp
index 8f10e7e..7acee2a 100644
--- a/src/ossia/editor/curve/curve.hpp
+++ b/src/ossia/editor/curve/curve.hpp
@@ -181,13 +181,13 @@ public:
       const ossia::value& value, ossia::destination_index::const_iterator idx);
 
 private:
-  mutable X m_x0;
-  mutable Y m_y0;
+  mutable X m_x0{};
+  mutable Y m_y0{};
   mutable std::optional<ossia::destination> m_y0_destination;
 
   mutable map_type m_points;
 
-  mutable Y m_y0_cache;
+  mutable Y m_y0_cache{};
 
   mutable bool m_y0_cacheUsed = false;
 };
@@ -295,6 +295,7 @@ template <typename X, typename Y>
 inline void curve<X, Y>::set_y0_destination(const destination& destination)
 {
   m_y0_destination = destination;
+  m_y0_cacheUsed = false;
 }
 
 template <typename X, typename Y>
-- 
2.43.0


From ef635bf761d6d3fe48e2c1c6ae92ce4f7c8abb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 019/107] fix: resetting a behaviour that has an empty part
 does not throw

---
 src/ossia/editor/curve/curve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/editor/curve/curve.cpp b/src/ossia/editor/curve/curve.cpp
index b6a766d..14a18e6 100644
--- a/src/ossia/editor/curve/curve.cpp
+++ b/src/ossia/editor/curve/curve.cpp
@@ -30,7 +30,7 @@ void behavior::reset()
     void operator()(const std::vector<behavior>& p)
     {
       for (auto& b : p)
-        ossia::apply_nonnull(*this, b);
+        ossia::apply(*this, b);
     }
 
     void operator()()
-- 
2.43.0


From 5824aa3d30f4e8e5719dd05f0ad542d6d4a3143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:38 +0000
Subject: [PATCH 020/107] fix: a mapping converts the driver to the type of the
 abscissa of its curve

---
 .../editor/mapper/detail/mapper_visitor.hpp   | 82 +++++++------------
 1 file changed, 28 insertions(+), 54 deletions(-)

diff --git a/src/ossia/editor/mapper/detail/mapper_visitor.hpp b/src/ossia/editor/mapper/detail/mapper_visitor.hpp
index 4a79fb0..d9c848d 100644
--- a/src/ossia/editor/mapper/detail/mapper_visitor.hpp
+++ b/src/ossia/editor/mapper/detail/mapper_visitor.hpp
@@ -11,27 +11,24 @@ namespace detail
 {
 struct mapper_compute_visitor
 {
-  ossia::value
-  operator()(float driver, const std::shared_ptr<curve_abstract>& c)
+  template <typename X>
+  static ossia::value value_at(X driver, ossia::curve_abstract* base_curve)
   {
-    auto base_curve = c.get();
-    auto t = base_curve->get_type();
-
-    switch (t.second)
+    switch (base_curve->get_type().second)
     {
       case ossia::curve_segment_type::FLOAT:
       {
-        auto c = static_cast<curve<float, float>*>(base_curve);
+        auto c = static_cast<curve<X, float>*>(base_curve);
         return float{c->value_at(driver)};
       }
       case ossia::curve_segment_type::INT:
       {
-        auto c = static_cast<curve<float, int>*>(base_curve);
+        auto c = static_cast<curve<X, int>*>(base_curve);
         return int32_t{c->value_at(driver)};
       }
       case ossia::curve_segment_type::BOOL:
       {
-        auto c = static_cast<curve<float, bool>*>(base_curve);
+        auto c = static_cast<curve<X, bool>*>(base_curve);
         return bool{c->value_at(driver)};
       }
       case ossia::curve_segment_type::DOUBLE:
@@ -41,64 +38,41 @@ struct mapper_compute_visitor
     }
   }
 
-  ossia::value
-  operator()(int32_t driver, const std::shared_ptr<curve_abstract>& c)
+  // The abscissa of the curve may be of another type than the driver
+  template <typename T>
+  static ossia::value compute(T driver, ossia::curve_abstract* base_curve)
   {
-    auto base_curve = c.get();
-    auto t = base_curve->get_type();
-
-    switch (t.second)
+    switch (base_curve->get_type().first)
     {
       case ossia::curve_segment_type::FLOAT:
-      {
-        auto c = static_cast<curve<int, float>*>(base_curve);
-        return float{c->value_at(driver)};
-      }
+        return value_at<float>(driver, base_curve);
+      case ossia::curve_segment_type::DOUBLE:
+        return value_at<double>(driver, base_curve);
       case ossia::curve_segment_type::INT:
-      {
-        auto c = static_cast<curve<int, int>*>(base_curve);
-        return int32_t{c->value_at(driver)};
-      }
+        return value_at<int>(driver, base_curve);
       case ossia::curve_segment_type::BOOL:
-      {
-        auto c = static_cast<curve<int, bool>*>(base_curve);
-        return bool{c->value_at(driver)};
-      }
-      case ossia::curve_segment_type::DOUBLE:
-      case ossia::curve_segment_type::ANY:
+        return value_at<bool>(driver, base_curve);
       default:
         return {};
     }
   }
 
   ossia::value
-  operator()(bool driver, const std::shared_ptr<curve_abstract>& c)
+  operator()(float driver, const std::shared_ptr<curve_abstract>& c)
   {
-    auto base_curve = c.get();
-    auto t = base_curve->get_type();
+    return compute(driver, c.get());
+  }
 
-    switch (t.second)
-    {
-      case ossia::curve_segment_type::FLOAT:
-      {
-        auto c = static_cast<curve<bool, float>*>(base_curve);
-        return float{c->value_at(driver)};
-      }
-      case ossia::curve_segment_type::INT:
-      {
-        auto c = static_cast<curve<bool, int>*>(base_curve);
-        return int32_t{c->value_at(driver)};
-      }
-      case ossia::curve_segment_type::BOOL:
-      {
-        auto c = static_cast<curve<bool, bool>*>(base_curve);
-        return bool{c->value_at(driver)};
-      }
-      case ossia::curve_segment_type::DOUBLE:
-      case ossia::curve_segment_type::ANY:
-      default:
-        return {};
-    }
+  ossia::value
+  operator()(int32_t driver, const std::shared_ptr<curve_abstract>& c)
+  {
+    return compute(driver, c.get());
+  }
+
+  ossia::value
+  operator()(bool driver, const std::shared_ptr<curve_abstract>& c)
+  {
+    return compute(driver, c.get());
   }
 
   ossia::value operator()(
-- 
2.43.0


From 34074a3c5f9e9d67280196d5106019e8fd5a1bab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 021/107] fix: values written in a port keep their date

---
 src/ossia/dataflow/data.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ossia/dataflow/data.cpp b/src/ossia/dataflow/data.cpp
index 3daa45b..0db0ddd 100644
--- a/src/ossia/dataflow/data.cpp
+++ b/src/ossia/dataflow/data.cpp
@@ -175,13 +175,13 @@ void value_port::write_value(const value& v, int64_t timestamp)
     }
     else
     {
-      data.emplace_back(v);
+      data.emplace_back(v, timestamp);
     }
     break;
   }
   case data_mix_method::mix_append:
   {
-    this->data.emplace_back(v);
+    this->data.emplace_back(v, timestamp);
     break;
   }
   case data_mix_method::mix_merge:
@@ -207,13 +207,13 @@ void value_port::write_value(value&& v, int64_t timestamp)
     }
     else
     {
-      data.emplace_back(std::move(v));
+      data.emplace_back(std::move(v), timestamp);
     }
     break;
   }
   case data_mix_method::mix_append:
   {
-    this->data.emplace_back(std::move(v));
+    this->data.emplace_back(std::move(v), timestamp);
     break;
   }
   case data_mix_method::mix_merge:
-- 
2.43.0


From dc2cd17c176ecce98da5f814434878fd7dc9942b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 022/107] fix: OSC addresses with a device start with the
 device

---
 src/ossia/network/base/osc_address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/base/osc_address.cpp b/src/ossia/network/base/osc_address.cpp
index 1810e7f..8bfd96b 100644
--- a/src/ossia/network/base/osc_address.cpp
+++ b/src/ossia/network/base/osc_address.cpp
@@ -42,7 +42,7 @@ getOSCAddressFromNodeWithDevice_rec(const node_base& n, std::string& str)
 {
   if (auto p = n.get_parent())
   {
-    getOSCAddressFromNode_rec(*p, str);
+    getOSCAddressFromNodeWithDevice_rec(*p, str);
   }
 
   str += '/';
-- 
2.43.0


From 06bb1ef1883ab712b202aeb3deb31161d7a9520f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 023/107] fix: nodes added by several threads keep distinct
 names

---
 src/ossia/network/base/node.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/base/node.cpp b/src/ossia/network/base/node.cpp
index 5bf63db..56eab99 100644
--- a/src/ossia/network/base/node.cpp
+++ b/src/ossia/network/base/node.cpp
@@ -145,14 +145,22 @@ node_base* node_base::add_child(std::unique_ptr<node_base> n)
 
   if (n)
   {
-    const auto& name = n->get_name();
-    if (name == sanitize_name(name, children_names()))
+    ossia::net::node_base* ptr{};
     {
-      auto ptr = n.get();
+      // The name must stay available until the child is inserted
+      write_lock_t lock{m_mutex};
+
+      std::string name = n->get_name();
+      sanitize_name(name, m_children);
+      if (name == n->get_name())
       {
-        write_lock_t lock{m_mutex};
+        ptr = n.get();
         m_children.push_back(std::move(n));
       }
+    }
+
+    if (ptr)
+    {
       dev.on_node_created(*ptr);
       return ptr;
     }
-- 
2.43.0


From d04e6ddb272a43d64caa54c438cd8f8969c538b6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 024/107] fix: patterns and presets know all the characters
 that names can have

---
 src/ossia/network/base/name_validation.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ossia/network/base/name_validation.hpp b/src/ossia/network/base/name_validation.hpp
index 1e2488b..40ce176 100644
--- a/src/ossia/network/base/name_validation.hpp
+++ b/src/ossia/network/base/name_validation.hpp
@@ -42,7 +42,7 @@ bool is_valid_character_for_name(Char_T c)
  */
 constexpr ossia::string_view device_characters() noexcept
 {
-  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~() .-"));
+  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~() =.-"));
 }
 
 /**
@@ -50,7 +50,7 @@ constexpr ossia::string_view device_characters() noexcept
  */
 constexpr ossia::string_view name_characters() noexcept
 {
-  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): .-"));
+  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): =.-"));
 }
 
 /**
@@ -58,12 +58,12 @@ constexpr ossia::string_view name_characters() noexcept
  */
 constexpr ossia::string_view path_characters() noexcept
 {
-  constexpr_return(ossia::make_string_view("/a-zA-Z0-9_~(): .-"));
+  constexpr_return(ossia::make_string_view("/a-zA-Z0-9_~(): =.-"));
 }
 
 constexpr ossia::string_view name_characters_no_instance() noexcept
 {
-  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): -"));
+  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): =-"));
 }
 /**
  * @brief Characters valid in an OSSIA pattern-matching part.
@@ -74,7 +74,7 @@ constexpr ossia::string_view name_characters_no_instance() noexcept
  */
 constexpr ossia::string_view pattern_match_characters() noexcept
 {
-  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): .*?,{}\\[\\]-"));
+  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): =.*?,{}\\[\\]-"));
 }
 
 /**
-- 
2.43.0


From 7bc60947f07c62054b5bc5a6b167254d974c3598 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 025/107] fix: a dot in a pattern only matches a dot

---
 src/ossia/network/common/path.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ossia/network/common/path.cpp b/src/ossia/network/common/path.cpp
index 5cb23af..f20b147 100644
--- a/src/ossia/network/common/path.cpp
+++ b/src/ossia/network/common/path.cpp
@@ -173,6 +173,8 @@ std::string substitute_characters(const std::string& part)
       res.append("\\(");
     else if (part[i] == ')')
       res.append("\\)");
+    else if (part[i] == '.')
+      res.append("\\.");
     else if (part[i] == '{')
       res.append("(");
     else if (part[i] == '}')
-- 
2.43.0


From cb28a3d0f5c9b360b83610ed5b3f3a51b03a276b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 026/107] fix: ranges with a negative step terminate, ranges of
 one number have no braces

---
 src/ossia/network/base/node_functions.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ossia/network/base/node_functions.cpp b/src/ossia/network/base/node_functions.cpp
index 4a20c9c..8c34219 100644
--- a/src/ossia/network/base/node_functions.cpp
+++ b/src/ossia/network/base/node_functions.cpp
@@ -424,9 +424,10 @@ void expand_ranges(std::string& str)
     {
       std::string rep{"{"};
       rep.reserve(3 * std::abs((it->last - it->first) / it->increment));
+      std::size_t count = 0;
       if (it->increment > 0)
       {
-        for (int64_t v = it->first; v <= it->last; v += it->increment)
+        for (int64_t v = it->first; v <= it->last; v += it->increment, count++)
         {
           rep += std::to_string(v);
           rep += ',';
@@ -434,14 +435,19 @@ void expand_ranges(std::string& str)
       }
       else
       {
-        for (int64_t v = it->last; v <= it->first; v += it->increment)
+        for (int64_t v = it->last; v >= it->first; v += it->increment, count++)
         {
           rep += std::to_string(v);
           rep += ',';
         }
       }
 
-      if (rep.back() == ',')
+      if (count == 1)
+      {
+        // There is no alternative: braces would be taken literally
+        str.replace(it->start, it->length, rep.substr(1, rep.size() - 2));
+      }
+      else if (rep.back() == ',')
       {
         rep.back() = '}';
         str.replace(it->start, it->length, rep);
-- 
2.43.0


From 7d212a551cebf8961c4eefe7d7028cb33fa9eab6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 027/107] fix: creating nodes from a class of one character

---
 src/ossia/network/base/node_functions.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/base/node_functions.cpp b/src/ossia/network/base/node_functions.cpp
index 8c34219..ea26ede 100644
--- a/src/ossia/network/base/node_functions.cpp
+++ b/src/ossia/network/base/node_functions.cpp
@@ -567,7 +567,12 @@ std::string canonicalize_str(std::string str)
         }
       }
 
-      if (rep.back() == ',')
+      if (it->chars.count() == 1)
+      {
+        // There is no alternative: braces would be taken literally
+        str.replace(it->start, it->length, 1, rep[1]);
+      }
+      else if (rep.back() == ',')
       {
         rep.back() = '}';
         str.replace(it->start, it->length, rep);
-- 
2.43.0


From 96a081ae19fc895242a846bae777c54f44aba82c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 028/107] fix: parameters created from a pattern go to the
 nodes it names

---
 src/ossia/network/base/node_functions.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ossia/network/base/node_functions.cpp b/src/ossia/network/base/node_functions.cpp
index ea26ede..9f6cc6f 100644
--- a/src/ossia/network/base/node_functions.cpp
+++ b/src/ossia/network/base/node_functions.cpp
@@ -753,17 +753,23 @@ std::vector<parameter_base*> find_or_create_parameter(
   auto found_nodes = ossia::net::find_nodes(node, address);
   for (auto n : found_nodes)
   {
+    // this name must not be created again
+    if(pattern_matching)
+      ossia::remove_one_if(names, [&](auto& s) { return ossia::net::find_node(node, s) == n; });
+    else
+      ossia::remove_one_if(names, [&](auto& s) { return s == address; });
+
     if (n->get_parameter())
+    {
       // this will create a new node with the name incremented by one (e.g.
       // foo.1)
-      nodes.push_back(&ossia::net::create_node(node, address));
+      if (auto parent = n->get_parent())
+        nodes.push_back(&ossia::net::create_node(*parent, n->get_name()));
+      else
+        nodes.push_back(&ossia::net::create_node(node, address));
+    }
     else
       nodes.push_back(n);
-
-    if(pattern_matching)
-      ossia::remove_one_if(names, [&](auto& s) { return s == n->get_name(); });
-    else
-      ossia::remove_one_if(names, [&](auto& s) { return s == address; });
   }
 
   for (auto s : names)
-- 
2.43.0


From 865915af79906ce6c1a0f6cf837e02f62ab40085 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 029/107] fix: children are listed in a consistent order, also
 when there are many

---
 src/ossia/network/base/node_functions.cpp | 30 +++++++++++------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/ossia/network/base/node_functions.cpp b/src/ossia/network/base/node_functions.cpp
index 9f6cc6f..ab5c92c 100644
--- a/src/ossia/network/base/node_functions.cpp
+++ b/src/ossia/network/base/node_functions.cpp
@@ -648,25 +648,23 @@ std::vector<ossia::net::node_base*> list_all_children(ossia::net::node_base* nod
     boost::algorithm::to_lower(s1);
     boost::algorithm::to_lower(s2);
 
-    std::smatch asmatch, bsmatch;
-    if(std::regex_search(s1, asmatch, pattern) && std::regex_search(s2, bsmatch, pattern))
-    {
-      if(asmatch.prefix() == bsmatch.prefix())
-      {
-        int aidx = std::stoi(asmatch.str(0).substr(1));
-        int bidx = std::stoi(bsmatch.str(0).substr(1));
-        return aidx < bidx;
-      }
-      else
-      {
-        return asmatch.prefix() < bsmatch.prefix();
-      }
-    }
+    // The name before the instance number, or the whole name without one
+    const auto split = [&] (const std::string& s) {
+      std::smatch match;
+      if(std::regex_search(s, match, pattern))
+        return std::make_pair(match.prefix().str(), std::stoll(match.str(0).substr(1)));
+      return std::make_pair(s, -1LL);
+    };
+
+    const auto k1 = split(s1);
+    const auto k2 = split(s2);
+    if(k1 != k2)
+      return k1 < k2;
     return s1 < s2;
   });
 
-  // then sort by priority
-  ossia::sort(children, [](auto n1, auto n2) {
+  // then sort by priority, without losing the order by name
+  std::stable_sort(children.begin(), children.end(), [](auto n1, auto n2) {
     return ossia::net::get_priority(*n1) > ossia::net::get_priority(*n2);
   });
 
-- 
2.43.0


From f1e51b93529534ca749dedaf118a2cfab1b0eecc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:54:57 +0000
Subject: [PATCH 030/107] fix: full_parameter_data::get_disabled gives the
 disabled flag

---
 src/ossia/network/base/parameter_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/base/parameter_data.hpp b/src/ossia/network/base/parameter_data.hpp
index 6d047ba..4af41b0 100644
--- a/src/ossia/network/base/parameter_data.hpp
+++ b/src/ossia/network/base/parameter_data.hpp
@@ -158,7 +158,7 @@ public:
   }
   bool get_disabled() const
   {
-    return muted;
+    return disabled;
   }
   bool get_muted() const
   {
-- 
2.43.0


From 4546bd70588730d56f2e469a07f27311213530e8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:00:09 +0000
Subject: [PATCH 031/107] fix: a parameter can be created from the integerArray
 type

---
 src/ossia/network/common/complex_type.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ossia/network/common/complex_type.cpp b/src/ossia/network/common/complex_type.cpp
index ed70e32..0a4a8cb 100644
--- a/src/ossia/network/common/complex_type.cpp
+++ b/src/ossia/network/common/complex_type.cpp
@@ -229,6 +229,7 @@ static const ossia::string_map<net::parameter_data>& parameter_creation_map()
     add_ext_2("any", list_type());
     add_ext_2("floatarray", float_list_type());
     add_ext_2("intarray", integer_list_type());
+    add_ext_2("integerarray", integer_list_type());
     add_ext_2("stringarray", string_list_type());
     add_ext_2("floatlist", float_list_type());
     add_ext_2("intlist", integer_list_type());
-- 
2.43.0


From 2a2e6a50f1250b647e4d80003d6305b7eb18088b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 032/107] fix: OSC buffers are sent as well-formed blobs and
 received by string parameters

---
 src/ossia/network/osc/detail/bundle.hpp              |  5 ++++-
 src/ossia/network/osc/detail/osc.hpp                 |  2 ++
 src/ossia/network/osc/detail/osc_common_policy.hpp   | 12 ++++++++++--
 .../network/osc/detail/osc_value_write_visitor.hpp   |  6 ++++--
 4 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/ossia/network/osc/detail/bundle.hpp b/src/ossia/network/osc/detail/bundle.hpp
index f2122c3..8679f8a 100644
--- a/src/ossia/network/osc/detail/bundle.hpp
+++ b/src/ossia/network/osc/detail/bundle.hpp
@@ -22,7 +22,10 @@ struct bundle_common_policy
     if (val = filter_value(addr, addr.value()); val.valid())
     {
       str << oscpack::BeginMessageN(osc_address(addr));
-      val.apply(typename OscPolicy::dynamic_policy{{str, addr.get_unit()}});
+      if (auto blob = val.target<std::string>(); blob && is_blob(addr))
+        str << oscpack::Blob(blob->data(), blob->size());
+      else
+        val.apply(typename OscPolicy::dynamic_policy{{str, addr.get_unit()}});
       str << oscpack::EndMessage();
     }
   }
diff --git a/src/ossia/network/osc/detail/osc.hpp b/src/ossia/network/osc/detail/osc.hpp
index 52487c3..c8c3284 100644
--- a/src/ossia/network/osc/detail/osc.hpp
+++ b/src/ossia/network/osc/detail/osc.hpp
@@ -350,6 +350,8 @@ struct osc_inbound_visitor
         return std::string{cur_it->AsStringUnchecked()};
       case oscpack::SYMBOL_TYPE_TAG:
         return std::string{cur_it->AsSymbolUnchecked()};
+      case oscpack::BLOB_TYPE_TAG:
+        return osc_utilities::get_blob(cur_it);
       default:
         return str;
     }
diff --git a/src/ossia/network/osc/detail/osc_common_policy.hpp b/src/ossia/network/osc/detail/osc_common_policy.hpp
index b8c24ce..88c8074 100644
--- a/src/ossia/network/osc/detail/osc_common_policy.hpp
+++ b/src/ossia/network/osc/detail/osc_common_policy.hpp
@@ -103,8 +103,16 @@ struct osc_common_outbound_static_policy
     buffer[2] = '\0';
     buffer[3] = '\0';
 
-    std::size_t written = write_string(std::string_view((const char *)v.data, v.size), buffer + 4);
-    return 4 + written;
+    boost::endian::endian_store<int32_t, 4, boost::endian::order::big>((unsigned char*) buffer + 4, v.size);
+
+    // Unlike strings, blobs are not null-terminated
+    std::size_t written = 8;
+    const char* data = (const char*) v.data;
+    for (std::size_t i = 0; i < (std::size_t)v.size; i++)
+      buffer[written++] = data[i];
+    while (written % 4 != 0)
+      buffer[written++] = 0;
+    return written;
   }
 
   std::size_t operator()(char* buffer, vec2f v) const noexcept
diff --git a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
index 8947d96..9f74243 100644
--- a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
+++ b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
@@ -50,7 +50,8 @@ struct osc_value_send_visitor
 
   void operator()(const std::string& v) const noexcept try
   {
-    const std::size_t sz = pattern_size(address_pattern.size()) + 4 + pattern_size(v.size());
+    // 4 for the type tag, 4 for the size prefix of a blob
+    const std::size_t sz = pattern_size(address_pattern.size()) + 8 + pattern_size(v.size());
     if(sz < 16384) {
       char* buffer = (char*) alloca(sz);
       std::size_t i = write_string(address_pattern, buffer);
@@ -152,7 +153,8 @@ struct osc_value_write_visitor
 
   void operator()(const std::string& v) const noexcept
   {
-    const std::size_t sz = pattern_size(address_pattern.size()) + 4 + pattern_size(v.size());
+    // 4 for the type tag, 4 for the size prefix of a blob
+    const std::size_t sz = pattern_size(address_pattern.size()) + 8 + pattern_size(v.size());
     result.resize(sz);
     std::size_t i = write_string(address_pattern, result.data());
 
-- 
2.43.0


From 31d20e0165121c9573a598bfa787b784b141d01d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:07:35 +0000
Subject: [PATCH 033/107] fix: OSC messages of lists are sent up to the size
 limit

---
 src/ossia/network/osc/detail/osc_messages.hpp            | 9 +++++++++
 src/ossia/network/osc/detail/osc_value_write_visitor.hpp | 8 ++++----
 src/ossia/network/osc/detail/sender.hpp                  | 4 ++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ossia/network/osc/detail/osc_messages.hpp b/src/ossia/network/osc/detail/osc_messages.hpp
index 50d6dc5..4e2455a 100644
--- a/src/ossia/network/osc/detail/osc_messages.hpp
+++ b/src/ossia/network/osc/detail/osc_messages.hpp
@@ -17,6 +17,15 @@ namespace ossia::net
 
 constexpr int max_osc_message_size = 65507;
 
+// Size to try once a message did not fit in a buffer of size n.
+// The largest size is tried before going past it.
+constexpr std::size_t next_osc_buffer_size(std::size_t n) noexcept
+{
+  return n < max_osc_message_size && n * 2 + 1 > max_osc_message_size
+             ? max_osc_message_size
+             : n * 2 + 1;
+}
+
 struct buffer_packed_osc_stream
 {
   std::unique_ptr<char[]> buffer;
diff --git a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
index 9f74243..b67a55e 100644
--- a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
+++ b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
@@ -91,7 +91,7 @@ struct osc_value_send_visitor
   {
     auto& pool = buffer_pool::instance();
     auto buf = pool.acquire();
-    while (buf.size() < max_osc_message_size)
+    while (buf.size() <= max_osc_message_size)
     {
       try
       {
@@ -108,7 +108,7 @@ struct osc_value_send_visitor
       {
         auto n = buf.size();
         buf.clear();
-        buf.resize(n * 2 + 1);
+        buf.resize(next_osc_buffer_size(n));
       }
     }
 
@@ -169,7 +169,7 @@ struct osc_value_write_visitor
   void operator()(const std::vector<ossia::value>& v) const noexcept
   {
     // OPTIMIZEME
-    while (result.size() < max_osc_message_size)
+    while (result.size() <= max_osc_message_size)
     {
       try
       {
@@ -186,7 +186,7 @@ struct osc_value_write_visitor
       {
         auto n = result.size();
         result.clear();
-        result.resize(n * 2 + 1);
+        result.resize(next_osc_buffer_size(n));
       }
     }
   }
diff --git a/src/ossia/network/osc/detail/sender.hpp b/src/ossia/network/osc/detail/sender.hpp
index e146a92..d7bfb8b 100644
--- a/src/ossia/network/osc/detail/sender.hpp
+++ b/src/ossia/network/osc/detail/sender.hpp
@@ -91,7 +91,7 @@ private:
   void send_base(Args&&... args)
   {
     auto buf = m_pool.acquire();
-    while(buf.size() < ossia::net::max_osc_message_size) {
+    while(buf.size() <= ossia::net::max_osc_message_size) {
       try {
         oscpack::OutboundPacketStream p{buf.data(), buf.size()};
         oscpack::osc_message_generator<ossia::net::osc_1_0_outbound_stream_visitor> generate_message{p};
@@ -101,7 +101,7 @@ private:
       } catch(...) {
         auto n = buf.size();
         buf.clear();
-        buf.resize(n * 2 + 1);
+        buf.resize(ossia::net::next_osc_buffer_size(n));
       }
     }
 
-- 
2.43.0


From 5947317dae9564e5502d69956aa9d78cc4fc5acc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 034/107] fix: a quantized trigger happens on its grid whatever
 the tick in which it is enabled

---
 .../scenario/detail/scenario_sync_execution.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_sync_execution.cpp b/src/ossia/editor/scenario/detail/scenario_sync_execution.cpp
index da627d4..13b0d9c 100644
--- a/src/ossia/editor/scenario/detail/scenario_sync_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_sync_execution.cpp
@@ -21,12 +21,19 @@ sync_status scenario::quantify_time_sync(time_sync& sync, const ossia::token_req
     sync.set_trigger_date(*qdate);
     auto diff_date = *qdate - tk.prev_date - 1_tv;
 
+    // the date can be the one of the start of the tick
+    if (diff_date < 0_tv)
+      diff_date = 0_tv;
+
     for (const std::shared_ptr<time_event>& ev : sync.get_time_events())
     {
       for (const auto& cst : ev->previous_time_intervals())
       {
-        m_itv_end_map.insert(
-            std::make_pair(cst.get(), cst->get_date() + diff_date));
+        // diff_date is in the time of the scenario
+        const double speed = cst->get_speed(cst->get_date());
+        m_itv_end_map.insert(std::make_pair(
+            cst.get(),
+            cst->get_date() + (speed > 0. ? diff_date * speed : diff_date)));
       }
     }
     sync.observe_expression(false);
@@ -124,6 +131,12 @@ sync_status scenario::trigger_sync(
     }
     else if (sync.has_sync_rate())
     {
+      // The intervals that lead to it have already run for this tick: the date
+      // will be looked for from where they are when the next tick starts.
+      for (const auto& ev : sync.get_time_events())
+        if (!ev->previous_time_intervals().empty())
+          return sync_status::NOT_READY;
+
       return quantify_time_sync(sync, tk);
     }
   }
-- 
2.43.0


From 573220b1514564c00fac7a53179f04c10bfa3d3e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 035/107] fix: a stopped trigger stops listening and waits for
 its condition again

---
 src/ossia/editor/scenario/time_sync.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/time_sync.cpp b/src/ossia/editor/scenario/time_sync.cpp
index b625306..b135203 100644
--- a/src/ossia/editor/scenario/time_sync.cpp
+++ b/src/ossia/editor/scenario/time_sync.cpp
@@ -163,8 +163,9 @@ void time_sync::reset()
     timeEvent->reset();
   }
 
+  observe_expression(false);
   m_trigger_date = Infinite;
-  m_observe = false;
+  m_is_being_triggered = false;
   m_evaluating = false;
 }
 
-- 
2.43.0


From 4f50b1ed991addf5db564c67edb001e4f228ad4e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 036/107] fix: an event that cannot be reached anymore is
 disposed

---
 .../scenario/detail/scenario_execution.cpp    | 20 +++++++++++++++++--
 .../scenario_sync_musical_execution.cpp       | 11 ++++++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index cf3285b..f1293ec 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -26,6 +26,19 @@
 
 namespace ossia
 {
+// The FINISHED bit is added to the status once the event has been processed
+static constexpr bool is_happened(time_event::status st) noexcept
+{
+  return (uint8_t(st) & ~uint8_t(time_event::status::FINISHED))
+         == uint8_t(time_event::status::HAPPENED);
+}
+
+static constexpr bool is_disposed(time_event::status st) noexcept
+{
+  return (uint8_t(st) & ~uint8_t(time_event::status::FINISHED))
+         == uint8_t(time_event::status::DISPOSED);
+}
+
 small_sync_vec scenario::get_roots() const noexcept
 {
   small_sync_vec res;
@@ -78,6 +91,10 @@ void scenario::make_happen(
 
 void scenario::make_dispose(time_event& event, interval_set& stopped)
 {
+  // It can be reached through more than one interval
+  if (is_disposed(event.m_status))
+    return;
+
   if (event.m_status == time_event::status::HAPPENED)
   {
     throw execution_error(
@@ -104,8 +121,7 @@ void scenario::make_dispose(time_event& event, interval_set& stopped)
     for (auto& previousTimeInterval :
          nextTimeInterval->get_end_event().previous_time_intervals())
     {
-      if (previousTimeInterval->get_start_event().get_status()
-          != time_event::status::DISPOSED)
+      if (!is_disposed(previousTimeInterval->get_start_event().get_status()))
       {
         dispose = false;
         break;
diff --git a/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp b/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp
index 97990dd..9169d9e 100644
--- a/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp
@@ -83,6 +83,8 @@ int is_timesync_ready(time_sync& sync, small_event_vec& pendingEvents, bool& max
     if(is_finished(status) || status == time_event::status::NONE)
     {
       bool minimalDurationReached = true;
+      bool hasPrevious = false;
+      bool allDisposed = true;
 
       for (const std::shared_ptr<ossia::time_interval>& timeInterval :
            timeEvent->previous_time_intervals())
@@ -93,12 +95,14 @@ int is_timesync_ready(time_sync& sync, small_event_vec& pendingEvents, bool& max
 
         const auto& ev = timeInterval->get_start_event();
         const auto start_ev_status = ev.get_status();
+        hasPrevious = true;
 
         // previous TimeIntervals with a DISPOSED start event are ignored
         if (is_disposed(start_ev_status))
         {
           continue;
         }
+        allDisposed = false;
 
         // previous TimeInterval with a not yet HAPPENED start event
         // can't have reached its minimal duration
@@ -117,6 +121,13 @@ int is_timesync_ready(time_sync& sync, small_event_vec& pendingEvents, bool& max
         }
       }
 
+      // an event that nothing can reach does not take part
+      if (hasPrevious && allDisposed)
+      {
+        activeCount--;
+        continue;
+      }
+
       // access to PENDING status once all previous TimeIntervals allow it
       if (minimalDurationReached)
       {
-- 
2.43.0


From f461fb28a20b44ceed69afff2fb07f0989dfa1f9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 037/107] fix: triggering again a part of a scenario restarts
 it

---
 src/ossia/editor/scenario/detail/scenario_execution.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index f1293ec..8dfa299 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -309,8 +309,7 @@ void scenario::state_impl(const ossia::token_request& tk)
           for (auto& e : evs)
           {
             const auto st = e->get_status();
-            if (st == ossia::time_event::status::HAPPENED
-                || st == ossia::time_event::status::DISPOSED)
+            if (is_happened(st) || is_disposed(st))
             {
               m_sg.reset_component(*n);
               break;
-- 
2.43.0


From 391c4765ae923542f7753e245339f3e0aeeba708 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 038/107] fix: the rest of a tick is counted in the time of the
 scenario

---
 src/ossia/editor/scenario/detail/scenario_execution.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index 8dfa299..fb5552c 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -185,8 +185,9 @@ void scenario::run_interval(
           interval.tick_offset_speed_precomputed(max_tick, offset, tk);
         }
 
+        // What remains of the tick, in the time of the scenario
         const auto ot
-            = ossia::time_value{int64_t(diff)};
+            = ossia::time_value{int64_t(diff / s)};
         const auto node_it = m_overticks.lower_bound(end_node);
         if (node_it != m_overticks.end() && (end_node == node_it->first))
         {
-- 
2.43.0


From 12a567dd280c04d18ee08aaf794f40578ba8a803 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 039/107] fix: an interval with a negative speed stops at zero

---
 src/ossia/editor/scenario/detail/scenario_execution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index fb5552c..5ceff36 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -212,7 +212,7 @@ void scenario::run_interval(
     }
     else
     {
-      if (tick * s < cst_old_date)
+      if (-s * tick.impl <= cst_old_date.impl)
       {
         if (tick != 0_tv)
           interval.tick_offset(tick, offset, tk);
-- 
2.43.0


From 04b6a6b8e5cd7c1443a838241a9b10366263cabc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 040/107] fix: the rest of a tick is given once, to the
 intervals that still run

---
 .../scenario/detail/scenario_execution.cpp    | 36 +++++++++++--------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index 5ceff36..b24625c 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -380,27 +380,33 @@ void scenario::state_impl(const ossia::token_request& tk)
 
     do
     {
+      // What remains of the tick for each event; taken out of the overticks
+      // as their syncs can be reached again in the same tick
+      ossia::small_vector<std::pair<time_event*, time_value>, 8> remaining;
       for (const auto& timeEvent : m_maxReachedEvents)
       {
-        time_event& ev = *timeEvent;
-        auto& tn = ev.get_time_sync();
-        // Propagate the remaining tick to the next intervals
-        auto it = m_overticks.find(&tn);
-        if (it == m_overticks.end())
+        auto it = m_overticks.find(&timeEvent->get_time_sync());
+        if (it != m_overticks.end())
         {
-          continue;
+          remaining.emplace_back(
+              timeEvent,
+              (mode == PROGRESS_MAX) ? it->second.max : it->second.min);
         }
-        else
+      }
+      for (const auto& elt : remaining)
+        m_overticks.erase(&elt.first->get_time_sync());
+
+      for (const auto& [ev, remaining_tick] : remaining)
+      {
+        // Propagate the remaining tick to the next intervals
+        const auto offset = tk.offset + tick_ms - remaining_tick;
+        for (const auto& interval : ev->next_time_intervals())
         {
-          const time_value remaining_tick
-              = (mode == PROGRESS_MAX) ? it->second.max : it->second.min;
+          // Its end may have happened since
+          if (m_runningIntervals.find(interval.get()) == m_runningIntervals.end())
+            continue;
 
-          const auto offset = tk.offset + tick_ms - remaining_tick;
-          const_cast<overtick&>(it->second).offset = offset;
-          for (const auto& interval : ev.next_time_intervals())
-          {
-            run_interval(*interval, tk, tick_ms, remaining_tick, offset);
-          }
+          run_interval(*interval, tk, tick_ms, remaining_tick, offset);
         }
       }
 
-- 
2.43.0


From 290d0a3eba01ed9d218f65ab376085894ff2a76a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 041/107] fix: a sync that waits for another one reached in the
 same tick is evaluated after it

---
 .../editor/scenario/detail/scenario_execution.cpp  | 14 ++++++++++++++
 src/ossia/editor/scenario/scenario.cpp             |  2 ++
 src/ossia/editor/scenario/scenario.hpp             |  1 +
 3 files changed, 17 insertions(+)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index b24625c..93fc53a 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -262,6 +262,7 @@ void scenario::state_impl(const ossia::token_request& tk)
     m_overticks.clear();
     m_endNodes.clear();
     m_retry_syncs.clear();
+    m_not_ready_syncs.clear();
 
     m_retry_syncs.container.reserve(8);
     m_endNodes.container.reserve(m_nodes.size());
@@ -412,6 +413,7 @@ void scenario::state_impl(const ossia::token_request& tk)
 
       m_maxReachedEvents.clear();
 
+      bool progressed = false;
       for (auto node : m_endNodes)
       {
         auto it = m_overticks.find(node);
@@ -435,9 +437,13 @@ void scenario::state_impl(const ossia::token_request& tk)
           {
             node->set_is_being_triggered(false);
             m_retry_syncs.erase(node);
+            m_not_ready_syncs.erase(node);
+            progressed = true;
             break;
           }
           case sync_status::NOT_READY:
+            if (!node->is_evaluating())
+              m_not_ready_syncs.insert(node);
             break;
           case sync_status::RETRY:
             m_retry_syncs.insert(node);
@@ -445,6 +451,14 @@ void scenario::state_impl(const ossia::token_request& tk)
         }
       }
 
+      // What just happened or was disposed may be all that these were waiting for
+      if (progressed)
+      {
+        for (auto node : m_not_ready_syncs)
+          m_retry_syncs.insert(node);
+        m_not_ready_syncs.clear();
+      }
+
       m_endNodes.container.assign(m_retry_syncs.container.begin(), m_retry_syncs.container.end());
       m_retry_syncs.clear();
 
diff --git a/src/ossia/editor/scenario/scenario.cpp b/src/ossia/editor/scenario/scenario.cpp
index 49d59ac..1a11386 100644
--- a/src/ossia/editor/scenario/scenario.cpp
+++ b/src/ossia/editor/scenario/scenario.cpp
@@ -35,6 +35,7 @@ void scenario::start()
   m_itv_end_map.container.reserve(m_intervals.size());
   m_endNodes.container.reserve(m_nodes.size());
   m_retry_syncs.container.reserve(8);
+  m_not_ready_syncs.container.reserve(m_nodes.size());
   m_rootNodes = get_roots();
 
   for (auto node : m_rootNodes)
@@ -237,6 +238,7 @@ void scenario::remove_time_sync(const std::shared_ptr<time_sync>& timeSync)
     m_overticks.erase(timeSync.get());
     m_endNodes.erase(timeSync.get());
     m_retry_syncs.erase(timeSync.get());
+    m_not_ready_syncs.erase(timeSync.get());
 
     remove_one(m_nodes, timeSync);
   }
diff --git a/src/ossia/editor/scenario/scenario.hpp b/src/ossia/editor/scenario/scenario.hpp
index 1d69e0a..88c5db4 100644
--- a/src/ossia/editor/scenario/scenario.hpp
+++ b/src/ossia/editor/scenario/scenario.hpp
@@ -129,6 +129,7 @@ private:
   overtick_map m_overticks; // used as cache
   ossia::flat_map<time_interval*, time_value> m_itv_end_map;
   sync_set m_retry_syncs; // used as cache
+  sync_set m_not_ready_syncs; // used as cache
   sync_set m_endNodes; // used as cache
   scenario_graph m_sg; // used as cache
 
-- 
2.43.0


From eb3a3b0ee74840c8a6e3e98be62c703c1b62db0c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:26:47 +0000
Subject: [PATCH 042/107] fix: priorities of parameters are not truncated to
 integers on commit_priorized

---
 src/ossia/dataflow/execution_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/execution_state.cpp b/src/ossia/dataflow/execution_state.cpp
index 7372d58..95e7716 100644
--- a/src/ossia/dataflow/execution_state.cpp
+++ b/src/ossia/dataflow/execution_state.cpp
@@ -628,7 +628,7 @@ void execution_state::commit_priorized()
 
     int64_t cur_ts = 0; // timestamp
     int cur_ms = 0;     // message stamp
-    int cur_prio = 0;
+    ossia::net::priority cur_prio = 0;
     if (const auto& p = ossia::net::get_priority(it->first->get_node()))
       cur_prio = *p;
 
-- 
2.43.0


From c4e28cf856976b7dade0d4c41cda8d0e99381c68 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:27:37 +0000
Subject: [PATCH 043/107] fix: nodes without ports run after the nodes they
 depend on

---
 src/ossia/dataflow/graph/graph_static.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ossia/dataflow/graph/graph_static.hpp b/src/ossia/dataflow/graph/graph_static.hpp
index 53371a1..db523fc 100644
--- a/src/ossia/dataflow/graph/graph_static.hpp
+++ b/src/ossia/dataflow/graph/graph_static.hpp
@@ -43,12 +43,19 @@ public:
       m_topo_order_cache.reserve(m_nodes.size());
       boost::topological_sort(gr, std::back_inserter(m_topo_order_cache));
 
+      // A node without any I/O can still have dependencies which were
+      // explicitly set
+      const auto is_free = [&gr](graph_vertex_t vtx, const graph_node& node) {
+        return node.root_inputs().empty() && node.root_outputs().empty()
+               && boost::out_degree(vtx, gr) == 0;
+      };
+
       // First put the ones without any I/O (most likely states)
       for (auto vtx : m_topo_order_cache)
       {
         auto node = gr[vtx].get();
         assert(node);
-        if(node->root_inputs().empty() && node->root_outputs().empty())
+        if(is_free(vtx, *node))
         {
           m_all_nodes.push_back(node);
         }
@@ -59,7 +66,7 @@ public:
         auto node = gr[vtx].get();
         assert(node);
 
-        if(!(node->root_inputs().empty() && node->root_outputs().empty()))
+        if(!is_free(vtx, *node))
         {
           m_all_nodes.push_back(node);
         }
-- 
2.43.0


From aaf0f9afd3bc27ec054a81ee0ed8839c278e62bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 044/107] fix: the dynamic scheduler follows the dependency
 connections

---
 src/ossia/dataflow/graph/graph.hpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/ossia/dataflow/graph/graph.hpp b/src/ossia/dataflow/graph/graph.hpp
index 5549939..a5b5cf0 100644
--- a/src/ossia/dataflow/graph/graph.hpp
+++ b/src/ossia/dataflow/graph/graph.hpp
@@ -2,12 +2,34 @@
 #include <ossia/dataflow/graph/graph_interface.hpp>
 #include <ossia/dataflow/graph/graph_utils.hpp>
 
+#include <algorithm>
+
 namespace ossia
 {
 
 class OSSIA_EXPORT graph final : public graph_util, public graph_base
 {
 public:
+  // Connections of type dependency_connection are not visible from the ports
+  static bool dependencies_executed(const graph& g, graph_node& node)
+  {
+    const auto it = g.m_nodes.find(&node);
+    if (it == g.m_nodes.end())
+      return true;
+
+    const auto edges = boost::out_edges(it->second, g.m_graph);
+    return std::all_of(edges.first, edges.second, [&](const auto& edge) {
+      const graph_node& dep = *g.m_graph[boost::target(edge, g.m_graph)];
+      return dep.executed() || !dep.enabled();
+    });
+  }
+
+  static bool
+  can_execute(const graph& g, graph_node& node, const execution_state& e)
+  {
+    return graph_util::can_execute(node, e) && dependencies_executed(g, node);
+  }
+
   template <typename Comp_T>
   static void tick(
       graph& g, execution_state& e, std::vector<graph_node*>& active_nodes,
@@ -26,12 +48,12 @@ public:
         auto node = *it;
         if (cur_it != end)
         {
-          if (!comp(*cur_it, node) && can_execute(*node, e))
+          if (!comp(*cur_it, node) && can_execute(g, *node, e))
             cur_it = it;
         }
         else
         {
-          if (can_execute(*node, e))
+          if (can_execute(g, *node, e))
           {
             cur_it = it;
           }
@@ -70,12 +92,12 @@ public:
         auto node = *it;
         if (cur_it != end)
         {
-          if (!comp(*cur_it, node) && can_execute(*node, e))
+          if (!comp(*cur_it, node) && can_execute(g, *node, e))
             cur_it = it;
         }
         else
         {
-          if (can_execute(*node, e))
+          if (can_execute(g, *node, e))
           {
             cur_it = it;
           }
-- 
2.43.0


From 2fb94bfc420674227be30a71ce34769635da8f8a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:31:29 +0000
Subject: [PATCH 045/107] fix: an address listened to several times is still
 listened to when one inlet is removed

---
 src/ossia/dataflow/execution_state.cpp   | 2 +-
 src/ossia/network/base/message_queue.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/dataflow/execution_state.cpp b/src/ossia/dataflow/execution_state.cpp
index 95e7716..ae6cc7c 100644
--- a/src/ossia/dataflow/execution_state.cpp
+++ b/src/ossia/dataflow/execution_state.cpp
@@ -262,7 +262,7 @@ void execution_state::register_midi_parameter(net::midi::midi_protocol& p)
   auto it = m_receivedMidi.find(&p);
   if(it == m_receivedMidi.end())
   {
-    m_receivedMidi.insert({&p, {0, {}}});
+    m_receivedMidi.insert({&p, {1, {}}});
   }
   else
   {
diff --git a/src/ossia/network/base/message_queue.hpp b/src/ossia/network/base/message_queue.hpp
index 5710211..dc8670e 100644
--- a/src/ossia/network/base/message_queue.hpp
+++ b/src/ossia/network/base/message_queue.hpp
@@ -50,7 +50,7 @@ public:
       auto it = p.add_callback([this, ptr](const ossia::value& val) {
         m_queue.enqueue({ptr, val});
       });
-      m_reg.insert({&p, {0, it}});
+      m_reg.insert({&p, {1, it}});
     }
     else
     {
-- 
2.43.0


From b147fa8b526856b011947b6e0ad90664885337ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 046/107] fix: a state inserted in an execution state is locked
 once and its piecewise messages are kept

---
 src/ossia/dataflow/execution_state.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/ossia/dataflow/execution_state.cpp b/src/ossia/dataflow/execution_state.cpp
index ae6cc7c..b15fff4 100644
--- a/src/ossia/dataflow/execution_state.cpp
+++ b/src/ossia/dataflow/execution_state.cpp
@@ -872,26 +872,46 @@ struct state_exec_visitor
       ossia::apply(*this, msg);
   }
 
+  // The state is already locked by execution_state::insert
   void operator()(const ossia::message& msg)
   {
-    OSSIA_EXEC_STATE_LOCK_WRITE(e);
     e.m_valueState[&msg.dest.address()].emplace_back(
         ossia::typed_value{msg.message_value, msg.dest.index, msg.dest.unit},
         e.m_msgIndex++);
   }
 
   template <std::size_t N>
-  void operator()(const ossia::piecewise_vec_message<N>& st)
+  void operator()(const ossia::piecewise_vec_message<N>& msg)
   {
+    for (std::size_t i = 0; i < N; i++)
+    {
+      if (msg.used_values.test(i))
+        insert_element(msg.address.get(), msg.message_value[i], i, msg.unit);
+    }
   }
 
-  void operator()(const ossia::piecewise_message& st)
+  void operator()(const ossia::piecewise_message& msg)
   {
+    for (std::size_t i = 0; i < msg.message_value.size(); i++)
+    {
+      if (msg.message_value[i].valid())
+        insert_element(msg.address.get(), msg.message_value[i], i, msg.unit);
+    }
   }
 
   void operator()()
   {
   }
+
+private:
+  void insert_element(
+      ossia::net::parameter_base& p, const ossia::value& v, std::size_t i,
+      const ossia::unit_t& u)
+  {
+    e.m_valueState[&p].emplace_back(
+        ossia::typed_value{v, ossia::destination_index{(int32_t)i}, u},
+        e.m_msgIndex++);
+  }
 };
 
 void execution_state::insert(const ossia::state& v)
-- 
2.43.0


From 08ccb29ba4cbeb47352ccc06b1336eaf33bea81a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 047/107] fix: flattening keeps the messages which cannot be
 merged

---
 .../state/detail/state_flatten_visitor.hpp    | 86 ++++++++++++++-----
 src/ossia/editor/state/flat_vec_state.hpp     |  7 ++
 2 files changed, 70 insertions(+), 23 deletions(-)

diff --git a/src/ossia/editor/state/detail/state_flatten_visitor.hpp b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
index c4dafa7..ab7b626 100644
--- a/src/ossia/editor/state/detail/state_flatten_visitor.hpp
+++ b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <ossia/detail/algorithms.hpp>
 #include <ossia/detail/apply.hpp>
+#include <ossia/editor/state/flat_vec_state.hpp>
 #include <ossia/editor/state/state_element.hpp>
 #include <ossia/network/base/parameter.hpp>
 #include <ossia/network/dataspace/dataspace_visitors.hpp>
@@ -57,6 +58,13 @@ struct vec_merger
     return {};
   }
 
+  template <std::size_t N>
+  static void set_used(piecewise_vec_message<N>& mess, int64_t i)
+  {
+    if (i >= 0 && i < (int64_t)N)
+      mess.used_values.set(i);
+  }
+
   template <std::size_t N>
   auto make_piecewise_from_floats(float orig, float incoming) const
   {
@@ -132,8 +140,8 @@ struct vec_merger
         // for instance
         piecewise_vec_message<N> mess{
             existing_dest.value, orig, incoming_dest.unit, {}};
-        mess.used_values.set(existing_index[0]);
-        mess.used_values.set(i);
+        set_used(mess, existing_index[0]);
+        set_used(mess, i);
         return mess;
       }
       else
@@ -167,8 +175,8 @@ struct vec_merger
         // for instance
         piecewise_vec_message<N> mess{
             existing_dest.value, orig, incoming_dest.unit, {}};
-        mess.used_values.set(existing_index[0]);
-        mess.used_values.set(i);
+        set_used(mess, existing_index[0]);
+        set_used(mess, i);
         return mess;
       }
       else
@@ -193,7 +201,7 @@ struct vec_merger
     else
     {
       auto i = incoming_index[0];
-      if (i < (int64_t)N)
+      if (i < (int64_t)N && i < (int64_t)incoming.size())
       {
         value_merger<true>::write_float(incoming[i], orig[i]);
       }
@@ -205,8 +213,8 @@ struct vec_merger
         // for instance
         piecewise_vec_message<N> mess{
             existing_dest.value, orig, incoming_dest.unit, {}};
-        mess.used_values.set(existing_index[0]);
-        mess.used_values.set(i);
+        set_used(mess, existing_index[0]);
+        set_used(mess, i);
         return mess;
       }
       else
@@ -223,6 +231,31 @@ struct state_flatten_visitor_merger
   State_T& state;
   ExistingIt existing_it;
 
+  // Whether vec_merger is able to keep what both messages do
+  static bool can_merge_vec(const message& existing, const message& incoming)
+  {
+    const auto e = existing.message_value.get_type();
+    const auto i = incoming.message_value.get_type();
+    const bool existing_whole = existing.dest.index.empty();
+    if (incoming.dest.index.empty())
+      return existing_whole
+             && (is_vec(e) ? (i == e || i == ossia::val_type::LIST)
+                           : (e == ossia::val_type::FLOAT && i == e));
+    else if (is_vec(e))
+      return i == e || i == ossia::val_type::FLOAT;
+    else
+      return !existing_whole && e == ossia::val_type::FLOAT && i == e;
+  }
+
+  // The messages cannot be merged: send one after the other
+  template <typename T>
+  void keep_both(T&& incoming)
+  {
+    if constexpr (std::is_same_v<State_T, ossia::mono_state>)
+      state.flush();
+    state.add(std::forward<T>(incoming));
+  }
+
   //// Const reference overloads
   //// Message incoming
   void operator()(message& existing, const message& incoming)
@@ -237,6 +270,12 @@ struct state_flatten_visitor_merger
       // since it's very cheap, the value will contain the whole array data
       // and the index will be the relevant index in the array.
       // Hence we merge both indexes.
+      if (!can_merge_vec(existing, incoming))
+      {
+        keep_both(incoming);
+        return;
+      }
+
       auto res = ossia::apply(
           vec_merger{existing.dest, incoming.dest}, existing.message_value.v,
           incoming.message_value.v);
@@ -327,6 +366,10 @@ struct state_flatten_visitor_merger
             existing.used_values.set(i);
           }
         }
+        else
+        {
+          keep_both(incoming);
+        }
         break;
       }
       // incoming is a Vec<N, float> without index or with index
@@ -347,10 +390,12 @@ struct state_flatten_visitor_merger
         else
         {
           existing.message_value = incoming.message_value.get<vec_type>();
+          existing.used_values.set();
         }
         break;
       }
       default:
+        keep_both(incoming);
         break;
     }
   }
@@ -425,6 +470,12 @@ struct state_flatten_visitor_merger
       // since it's very cheap, the value will contain the whole array data
       // and the index will be the relevant index in the array.
       // Hence we merge both indexes.
+      if (!can_merge_vec(existing, incoming))
+      {
+        keep_both(std::move(incoming));
+        return;
+      }
+
       auto res = ossia::apply(
           vec_merger{existing.dest, incoming.dest}, existing.message_value.v,
           incoming.message_value.v);
@@ -547,35 +598,27 @@ struct state_flatten_visitor_merger
   template <std::size_t M>
   void operator()(message& existing, const piecewise_vec_message<M>& incoming)
   {
-    throw std::runtime_error(
-        "state_flatten_visitor_merger: "
-        "impossible case (message <- const piecewise_vec_message&");
+    keep_both(incoming);
   }
 
   template <std::size_t M>
   void operator()(
       piecewise_message& existing, const piecewise_vec_message<M>& incoming)
   {
-    throw std::runtime_error(
-        "state_flatten_visitor_merger: "
-        "impossible case (piecewise_message <- const piecewise_vec_message&");
+    keep_both(incoming);
   }
 
   template <std::size_t N>
   void operator()(
       piecewise_vec_message<N>& existing, const piecewise_message& incoming)
   {
-    throw std::runtime_error(
-        "state_flatten_visitor_merger: "
-        "impossible case (piecewise_vec_message <- const piecewise_message&");
+    keep_both(incoming);
   }
   template <std::size_t N>
   void
   operator()(piecewise_vec_message<N>& existing, piecewise_message&& incoming)
   {
-    throw std::runtime_error(
-        "state_flatten_visitor_merger: "
-        "impossible case (piecewise_vec_message <- piecewise_message&&");
+    keep_both(std::move(incoming));
   }
 
   template <std::size_t N, std::size_t M>
@@ -583,10 +626,7 @@ struct state_flatten_visitor_merger
       piecewise_vec_message<N>& existing,
       const piecewise_vec_message<M>& incoming)
   {
-    throw std::runtime_error(
-        "state_flatten_visitor_merger: "
-        "impossible case (piecewise_vec_message<N> <- "
-        "piecewise_vec_message<M>");
+    keep_both(incoming);
   }
 };
 
diff --git a/src/ossia/editor/state/flat_vec_state.hpp b/src/ossia/editor/state/flat_vec_state.hpp
index 49ca454..b40a788 100644
--- a/src/ossia/editor/state/flat_vec_state.hpp
+++ b/src/ossia/editor/state/flat_vec_state.hpp
@@ -99,6 +99,13 @@ struct mono_state
     return e ? &e : nullptr;
   }
 
+  void flush()
+  {
+    if (e)
+      ossia::launch(e);
+    e = ossia::state_element{};
+  }
+
   auto end() const
   {
     return nullptr;
-- 
2.43.0


From 5d1d8fffb86810078e3336157691d2d91b1c9c64 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 048/107] fix: flattening merges a message with the last one
 for the same parameter only

---
 .../state/detail/state_flatten_visitor.hpp    | 131 ++++++++----------
 1 file changed, 57 insertions(+), 74 deletions(-)

diff --git a/src/ossia/editor/state/detail/state_flatten_visitor.hpp b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
index ab7b626..c3e971a 100644
--- a/src/ossia/editor/state/detail/state_flatten_visitor.hpp
+++ b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
@@ -654,89 +654,72 @@ struct state_flatten_visitor
   }
 
 private:
+  // Only the last element sent to a parameter can be merged with a new one,
+  // else the order would change.
   template <typename T>
   static auto find_same_param(ossia::state& st, const T& incoming)
   {
-    if constexpr (AssumeSameAddresses)
+    const auto same_param = [&](ossia::net::parameter_base* other) {
+      return AssumeSameAddresses || other == param_ptr(incoming);
+    };
+
+    const auto begin = st.begin();
+    for (auto it = st.end(); it != begin;)
     {
-      return find_if(st, [&](const state_element& e) {
-        const auto tgt = e.target();
-        switch (e.which())
+      --it;
+
+      const auto& e = *it;
+      const auto tgt = e.target();
+      const auto check = [&](const auto* m) {
+        return same_param(param_ptr(*m));
+      };
+      const auto same_unit = [&](const auto* m) {
+        return incoming.get_unit() == m->get_unit() ? it : st.end();
+      };
+
+      switch (e.which())
+      {
+        case 0:
         {
-          case 0:
-          {
-            const auto m = static_cast<const message*>(tgt);
-            return incoming.get_unit() == m->get_unit();
-          }
-            // 1 is state
-          case 2:
-          {
-            const auto p = static_cast<const piecewise_message*>(tgt);
-            return incoming.get_unit() == p->get_unit();
-          }
-          case 3:
-          {
-            const auto p = static_cast<const piecewise_vec_message<2>*>(tgt);
-            return incoming.get_unit() == p->get_unit();
-          }
-          case 4:
-          {
-            const auto p = static_cast<const piecewise_vec_message<3>*>(tgt);
-            return incoming.get_unit() == p->get_unit();
-          }
-          case 5:
-          {
-            const auto p = static_cast<const piecewise_vec_message<4>*>(tgt);
-            return incoming.get_unit() == p->get_unit();
-          }
-          default:
-            return false;
+          const auto m = static_cast<const message*>(tgt);
+          if (check(m))
+            return same_unit(m);
+          break;
         }
-      });
-    }
-    else
-    {
-      return find_if(st, [&](const state_element& e) {
-        const auto address = param_ptr(incoming);
-        const auto tgt = e.target();
-        switch (e.which())
+          // 1 is state
+        case 2:
         {
-          case 0:
-          {
-            const auto m = static_cast<const message*>(tgt);
-            return &m->dest.value.get() == address
-                   && incoming.get_unit() == m->get_unit();
-          }
-            // 1 is state
-          case 2:
-          {
-            const auto p = static_cast<const piecewise_message*>(tgt);
-            return &p->address.get() == address
-                   && incoming.get_unit() == p->get_unit();
-          }
-          case 3:
-          {
-            const auto p = static_cast<const piecewise_vec_message<2>*>(tgt);
-            return &p->address.get() == address
-                   && incoming.get_unit() == p->get_unit();
-          }
-          case 4:
-          {
-            const auto p = static_cast<const piecewise_vec_message<3>*>(tgt);
-            return &p->address.get() == address
-                   && incoming.get_unit() == p->get_unit();
-          }
-          case 5:
-          {
-            const auto p = static_cast<const piecewise_vec_message<4>*>(tgt);
-            return &p->address.get() == address
-                   && incoming.get_unit() == p->get_unit();
-          }
-          default:
-            return false;
+          const auto m = static_cast<const piecewise_message*>(tgt);
+          if (check(m))
+            return same_unit(m);
+          break;
+        }
+        case 3:
+        {
+          const auto m = static_cast<const piecewise_vec_message<2>*>(tgt);
+          if (check(m))
+            return same_unit(m);
+          break;
         }
-      });
+        case 4:
+        {
+          const auto m = static_cast<const piecewise_vec_message<3>*>(tgt);
+          if (check(m))
+            return same_unit(m);
+          break;
+        }
+        case 5:
+        {
+          const auto m = static_cast<const piecewise_vec_message<4>*>(tgt);
+          if (check(m))
+            return same_unit(m);
+          break;
+        }
+        default:
+          break;
+      }
     }
+    return st.end();
   }
 
   template <typename State, typename T>
-- 
2.43.0


From d9b260c584bf5e4ce914300cd316cf81f8596a28 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:39:15 +0000
Subject: [PATCH 049/107] fix: commit keeps the order and the units of the
 values sent to a parameter

---
 src/ossia/dataflow/execution_state.cpp    | 29 ++++++++++++++++++++++-
 src/ossia/editor/state/flat_vec_state.hpp |  7 +++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/ossia/dataflow/execution_state.cpp b/src/ossia/dataflow/execution_state.cpp
index b15fff4..cf9ae1d 100644
--- a/src/ossia/dataflow/execution_state.cpp
+++ b/src/ossia/dataflow/execution_state.cpp
@@ -541,6 +541,27 @@ void execution_state::advance_tick(std::size_t t)
   }
 }
 
+namespace
+{
+struct has_unit
+{
+  const ossia::unit_t& unit;
+  template <typename T>
+  bool operator()(const T& mess) const noexcept
+  {
+    return mess.get_unit() == unit;
+  }
+  bool operator()(const ossia::state&) const noexcept
+  {
+    return true;
+  }
+  bool operator()() const noexcept
+  {
+    return true;
+  }
+};
+}
+
 void execution_state::commit_merged()
 {
   // int i = 0;
@@ -563,7 +584,13 @@ void execution_state::commit_merged()
         // i += it->second.size();
         for (auto& val : it->second)
         {
-          vis(to_state_element(*it->first, std::move(val.first)));
+          auto mess = to_state_element(*it->first, std::move(val.first));
+
+          // Values in different units cannot be merged
+          if (!ossia::apply(has_unit{mess.get_unit()}, m_monoState.e))
+            m_monoState.flush();
+
+          vis(std::move(mess));
         }
         ossia::launch(m_monoState.e);
       }
diff --git a/src/ossia/editor/state/flat_vec_state.hpp b/src/ossia/editor/state/flat_vec_state.hpp
index b40a788..4fab403 100644
--- a/src/ossia/editor/state/flat_vec_state.hpp
+++ b/src/ossia/editor/state/flat_vec_state.hpp
@@ -32,10 +32,15 @@ struct flat_vec_state
     ossia::remove_erase(m_children, e);
   }
 
+  // Only the last element can be merged with a new one, else the order of the
+  // messages would change.
   template <typename T>
   auto find(const T& val) noexcept
   {
-    return ossia::find(m_children, val);
+    auto it = m_children.end();
+    if (it != m_children.begin() && *(it - 1) == val)
+      --it;
+    return it;
   }
 
   void launch() noexcept
-- 
2.43.0


From 618363f7597fbea64020e8c1b0711528f3e48688 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 050/107] fix: destinations with different units are different

---
 src/ossia/network/value/value.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/value/value.cpp b/src/ossia/network/value/value.cpp
index 2d6d13a..b1eb0ff 100644
--- a/src/ossia/network/value/value.cpp
+++ b/src/ossia/network/value/value.cpp
@@ -178,12 +178,13 @@ bool destination::operator<=(const ossia::value& v) const noexcept
 
 bool operator==(const destination& lhs, const destination& rhs) noexcept
 {
-  return lhs.value == rhs.value && lhs.index == rhs.index;
+  return lhs.value == rhs.value && lhs.index == rhs.index
+         && lhs.unit == rhs.unit;
 }
 
 bool operator!=(const destination& lhs, const destination& rhs) noexcept
 {
-  return lhs.value != rhs.value || lhs.index != rhs.index;
+  return !(lhs == rhs);
 }
 
 bool operator==(
-- 
2.43.0


From 724d1fc0c0db86326ae83d13df29e5dd34f48102 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:57:04 +0000
Subject: [PATCH 051/107] fix: a graph with a cycle does not crash the
 breadth-first scheduler

---
 src/ossia/dataflow/graph/graph_static.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/graph/graph_static.hpp b/src/ossia/dataflow/graph/graph_static.hpp
index db523fc..a700a71 100644
--- a/src/ossia/dataflow/graph/graph_static.hpp
+++ b/src/ossia/dataflow/graph/graph_static.hpp
@@ -182,12 +182,13 @@ public:
     auto& m_graph = g.m_graph;
     auto& m_nodes = g.m_nodes;
     auto& m_all_nodes = g.m_all_nodes;
-    const auto N = boost::num_vertices(m_graph);
     // m_color.clear();
     // m_color.reserve(N);
     m_sub_graph = m_graph;
 
     g.sort_all_nodes(m_graph);
+    // There is no order, hence no node here, if the graph has a cycle
+    const auto N = m_all_nodes.size();
     // m_active_nodes is in topo order
 
     for (std::size_t i = 0; i < N; i++)
-- 
2.43.0


From 8e6676127ac32d7779b85a5698a8cb73f20b597b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:20:24 +0000
Subject: [PATCH 052/107] fix: the extended type is read from an OSCQuery
 description which also has a type

---
 src/ossia/network/oscquery/detail/json_reader_detail.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index 9ca055f..868b78f 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -775,6 +775,8 @@ void json_parser_impl::readParameter(
     else if (has_typetag)
     {
       addr = setup_parameter(val_type, node);
+      if (addr && ext_type)
+        ossia::net::set_extended_type(node, ext_type);
     }
     else if (ext_type)
     {
-- 
2.43.0


From 7d339de31f27adc44ca07bf8dba4cba1d2bdb7dc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:22:16 +0000
Subject: [PATCH 053/107] fix: an OSCQuery mirror follows the changes of unit

---
 src/ossia/network/oscquery/detail/json_reader_detail.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index 868b78f..6488c2d 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -356,6 +356,13 @@ bool json_parser_impl::ReadValue(
 
 bool json_parser_impl::ReadValue(const rapidjson::Value& val, unit_t& res)
 {
+  // When an unit changes its name is sent
+  if (val.IsString())
+  {
+    res = ossia::parse_pretty_unit(get_string_view(val));
+    return bool(res);
+  }
+
   bool b = val.IsArray();
   if (b)
   {
-- 
2.43.0


From fc8350b05a071ed01e2f113fcbba14b7dbea1aa1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:24:22 +0000
Subject: [PATCH 054/107] fix: an OSCQuery mirror follows the changes of
 default value

---
 .../network/oscquery/detail/json_reader_detail.cpp   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index 6488c2d..19e17c8 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -1257,6 +1257,18 @@ void json_parser::parse_attributes_changed(
             action.value()(it->value, *node);
           }
         }
+
+        // The default value is read according to the type of the parameter
+        auto default_it = dat.FindMember(detail::attribute_default_value());
+        if (default_it != memb_end && node->get_parameter())
+        {
+          bool ok = false;
+          const auto typetag = get_osc_typetag(*node);
+          auto res = detail::parse_oscquery_value(
+              *node, default_it->value, *typetag, ok);
+          if (ok)
+            ossia::net::set_default_value(*node, std::move(res));
+        }
       }
     }
   }
-- 
2.43.0


From 1d920da33042c6d95cd75eb8eab994a48769b4cc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:24:33 +0000
Subject: [PATCH 055/107] fix: an OSCQuery mirror removes the attributes which
 have been removed from the server

---
 .../network/oscquery/detail/json_reader_detail.cpp  | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index 19e17c8..8edb416 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -431,6 +431,19 @@ static auto make_setter_pair()
   return std::make_pair(
       metadata<Attr>::key(),
       [](const rapidjson::Value& val, ossia::net::node_base& node) {
+        using optional_type = std::optional<typename Attr::type>;
+        if constexpr (
+            !ossia::net::is_parameter_attribute<Attr>::value
+            && std::is_same_v<decltype(Attr::getter(node)), optional_type>)
+        {
+          // The attribute has been removed
+          if (val.IsNull())
+          {
+            Attr::setter(node, optional_type{});
+            return;
+          }
+        }
+
         typename Attr::type res;
         if (json_parser_impl::ReadValue(val, res))
           Attr::setter(node, std::move(res));
-- 
2.43.0


From 29b6a9256a5fb0c40b1c2313529cd8e60a9ea2f0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:24:33 +0000
Subject: [PATCH 056/107] fix: several vectors of the same size in a list are
 all read as vectors from OSCQuery

---
 src/ossia/network/oscquery/detail/value_to_json.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/value_to_json.hpp b/src/ossia/network/oscquery/detail/value_to_json.hpp
index b9d0171..9e1a4cb 100644
--- a/src/ossia/network/oscquery/detail/value_to_json.hpp
+++ b/src/ossia/network/oscquery/detail/value_to_json.hpp
@@ -386,15 +386,7 @@ struct json_to_value
 
   bool can_read(ossia::string_view sv) const noexcept
   {
-      const auto res = typetags.find(sv);
-      if(res == std::string_view::npos)
-      {
-        return false;
-      }
-      else
-      {
-        return int64_t(res) == typetag_cursor;
-      }
+      return typetags.substr(typetag_cursor, sv.size()) == sv;
   }
 
   bool operator()(std::vector<ossia::value>& res) const
-- 
2.43.0


From af2b97a2734dabc346a0e9003137280e3803ebda Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:29:07 +0000
Subject: [PATCH 057/107] fix: a list read from OSCQuery replaces the current
 list instead of extending it

---
 src/ossia/network/oscquery/detail/value_to_json.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ossia/network/oscquery/detail/value_to_json.hpp b/src/ossia/network/oscquery/detail/value_to_json.hpp
index 9e1a4cb..929b41c 100644
--- a/src/ossia/network/oscquery/detail/value_to_json.hpp
+++ b/src/ossia/network/oscquery/detail/value_to_json.hpp
@@ -396,6 +396,8 @@ struct json_to_value
     if (b)
     {
       auto arr = val.GetArray();
+      res.clear();
+      res.reserve(arr.Size());
 
       for (const auto& elt : arr)
       {
-- 
2.43.0


From 0da09a98543539b75a5ddfb4cc5a5c897b605941 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:57:37 +0000
Subject: [PATCH 058/107] fix: numbers which are integral, infinite or not
 numbers are read from OSCQuery descriptions

---
 src/ossia/network/oscquery/detail/json_reader_detail.cpp | 6 +++---
 src/ossia/network/oscquery/oscquery_mirror.cpp           | 2 +-
 src/ossia/network/oscquery/oscquery_server.cpp           | 2 +-
 src/ossia/protocols/oscquery/oscquery_server_asio.cpp    | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index 8edb416..e7db985 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -35,9 +35,9 @@ bool json_parser_impl::ReadValue(const rapidjson::Value& val, int32_t& res)
 
 bool json_parser_impl::ReadValue(const rapidjson::Value& val, float& res)
 {
-  bool b = val.IsFloat();
+  bool b = val.IsNumber();
   if (b)
-    res = val.GetFloat();
+    res = (float)val.GetDouble();
   return b;
 }
 
@@ -938,7 +938,7 @@ std::shared_ptr<rapidjson::Document>
 json_parser::parse(const std::string& message)
 {
   auto document = std::make_shared<rapidjson::Document>();
-  document->Parse(message);
+  document->Parse<rapidjson::kParseNanAndInfFlag>(message);
   return document;
 }
 
diff --git a/src/ossia/network/oscquery/oscquery_mirror.cpp b/src/ossia/network/oscquery/oscquery_mirror.cpp
index e61e2bf..91eb2e2 100644
--- a/src/ossia/network/oscquery/oscquery_mirror.cpp
+++ b/src/ossia/network/oscquery/oscquery_mirror.cpp
@@ -930,7 +930,7 @@ bool oscquery_mirror_protocol::on_BinaryWSMessage(
 void load_oscquery_device(net::device_base& dev, std::string json)
 {
   rapidjson::Document doc;
-  doc.Parse(json.c_str());
+  doc.Parse<rapidjson::kParseNanAndInfFlag>(json.c_str());
   if (!doc.HasParseError())
     json_parser::parse_namespace(dev.get_root_node(), doc);
 }
diff --git a/src/ossia/network/oscquery/oscquery_server.cpp b/src/ossia/network/oscquery/oscquery_server.cpp
index 578291d..6dda201 100644
--- a/src/ossia/network/oscquery/oscquery_server.cpp
+++ b/src/ossia/network/oscquery/oscquery_server.cpp
@@ -763,7 +763,7 @@ ossia::net::server_reply oscquery_server_protocol::on_WSrequest(
   else
   {
     rapidjson::Document doc;
-    doc.Parse(message); // TODO ParseInsitu
+    doc.Parse<rapidjson::kParseNanAndInfFlag>(message); // TODO ParseInsitu
 
     if (!doc.HasParseError())
     {
diff --git a/src/ossia/protocols/oscquery/oscquery_server_asio.cpp b/src/ossia/protocols/oscquery/oscquery_server_asio.cpp
index 7dab13c..2133363 100644
--- a/src/ossia/protocols/oscquery/oscquery_server_asio.cpp
+++ b/src/ossia/protocols/oscquery/oscquery_server_asio.cpp
@@ -768,7 +768,7 @@ ossia::net::server_reply oscquery_server_protocol::on_text_ws_message(
   else
   {
     rapidjson::Document doc;
-    doc.Parse(message); // TODO ParseInsitu
+    doc.Parse<rapidjson::kParseNanAndInfFlag>(message); // TODO ParseInsitu
 
     if (!doc.HasParseError())
     {
-- 
2.43.0


From 27d47d2a3105ada5966f9f49e4184f6e82b5d14c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:16:19 +0000
Subject: [PATCH 059/107] fix: the answer to a value request goes to the
 parameter it was asked for

---
 .../network/oscquery/oscquery_mirror.cpp      | 143 +++++++++++-------
 .../network/oscquery/oscquery_mirror.hpp      |   4 +-
 2 files changed, 88 insertions(+), 59 deletions(-)

diff --git a/src/ossia/network/oscquery/oscquery_mirror.cpp b/src/ossia/network/oscquery/oscquery_mirror.cpp
index 91eb2e2..ff5d6f6 100644
--- a/src/ossia/network/oscquery/oscquery_mirror.cpp
+++ b/src/ossia/network/oscquery/oscquery_mirror.cpp
@@ -27,10 +27,15 @@ struct http_answer
 {
   oscquery_mirror_protocol& self;
 
+  // When the value of an address was requested: there may be no answer at all,
+  // if it does not exist anymore.
+  std::shared_ptr<oscquery_mirror_protocol::get_ws_promise> value_request{};
+
   template <typename T, typename S>
   void operator()(T& req, const S& str)
   {
-    if (self.on_WSMessage({}, str))
+    if (value_request ? self.on_valueAnswer(*value_request, str)
+                      : self.on_WSMessage({}, str))
     {
       req.close();
     }
@@ -216,6 +221,66 @@ oscquery_mirror_protocol::~oscquery_mirror_protocol()
   stop();
 }
 
+void oscquery_mirror_protocol::http_request_value(
+    std::shared_ptr<get_ws_promise> p)
+{
+  auto text = p->address;
+  text += detail::query_value();
+  auto hrq = std::make_shared<http_request>(
+      http_answer{*this, std::move(p)}, http_error{}, m_http->context,
+      m_httpHost, text);
+  hrq->resolve(m_httpHost, m_queryPort);
+}
+
+bool oscquery_mirror_protocol::on_valueAnswer(
+    get_ws_promise& p, const std::string& message)
+{
+  try
+  {
+    auto data = json_parser::parse(message);
+    if (data->HasParseError())
+    {
+      if (m_logger.inbound_logger)
+        m_logger.inbound_logger->warn("Invalid value received: {}", message);
+      return false;
+    }
+
+    const rapidjson::Value* obj_value = data.get();
+    if (obj_value->IsObject())
+    {
+      if (auto it = obj_value->FindMember("VALUE");
+          it != obj_value->MemberEnd())
+      {
+        obj_value = &it->value;
+      }
+    }
+
+    auto node = ossia::net::find_node(m_device->get_root_node(), p.address);
+    auto addr = node ? node->get_parameter() : nullptr;
+    if (addr)
+    {
+      json_parser::parse_value(*addr, *obj_value);
+      m_device->on_message(*addr);
+    }
+    else
+    {
+      m_device->on_unhandled_message(p.address, detail::ReadValue(*obj_value));
+    }
+    p.promise.set_value();
+  }
+  catch (std::exception& e)
+  {
+    if (m_logger.inbound_logger)
+      m_logger.inbound_logger->warn(
+          "Error while parsing: {} ==> {}", e.what(), message);
+    return false;
+  }
+
+  if (m_logger.inbound_logger)
+    m_logger.inbound_logger->info("HTTP In: {}", message);
+  return true;
+}
+
 bool oscquery_mirror_protocol::pull(net::parameter_base& address)
 {
 #if defined(OSSIA_BENCHMARK)
@@ -223,6 +288,17 @@ bool oscquery_mirror_protocol::pull(net::parameter_base& address)
 #endif
   auto fut = pull_async(address);
   auto status = fut.wait_for(std::chrono::milliseconds(3000));
+  bool ok = status == std::future_status::ready;
+  try
+  {
+    if (ok)
+      fut.get();
+  }
+  catch (const std::future_error&)
+  {
+    // No value was received
+    ok = false;
+  }
 
 #if defined(OSSIA_BENCHMARK)
   auto t2 = std::chrono::high_resolution_clock::now();
@@ -230,32 +306,23 @@ bool oscquery_mirror_protocol::pull(net::parameter_base& address)
       "Time taken: {}",
       std::chrono::duration_cast<std::chrono::microseconds>(t2 - t1).count());
 #endif
-  return status == std::future_status::ready;
+  return ok;
 }
 
 std::future<void>
 oscquery_mirror_protocol::pull_async(net::parameter_base& address)
 {
-  std::promise<void> promise;
-  auto fut = promise.get_future();
-  auto text = address.get_node().osc_address();
-  m_getWSPromises.enqueue(get_ws_promise{std::move(promise), text});
-  /*
-  m_getOSCPromises.insert(
-        std::make_pair(
-          address.get_node().osc_address(),
-          get_promise{std::move(promise), &address}));
-  */
-  text += detail::query_value();
-  http_send_message(text);
+  auto p = std::make_shared<get_ws_promise>(
+      std::promise<void>{}, address.get_node().osc_address());
+  auto fut = p->promise.get_future();
+  http_request_value(std::move(p));
   return fut;
 }
 
 void oscquery_mirror_protocol::request(net::parameter_base& address)
 {
-  auto text = address.get_node().osc_address();
-  text += detail::query_value();
-  http_send_message(text);
+  http_request_value(std::make_shared<get_ws_promise>(
+      std::promise<void>{}, address.get_node().osc_address()));
 }
 
 bool oscquery_mirror_protocol::push(const net::parameter_base& addr, const ossia::value& v)
@@ -750,47 +817,7 @@ bool oscquery_mirror_protocol::on_WSMessage(
         }
         case message_type::Value:
         {
-          // TODO instead just put full path in reply ?
-          get_ws_promise p;
-          if (m_getWSPromises.try_dequeue(p))
-          {
-            auto node
-                = ossia::net::find_node(m_device->get_root_node(), p.address);
-
-            const rapidjson::Value* obj_value = data.get();
-            if(obj_value->IsObject())
-            {
-                if(auto it = obj_value->FindMember("VALUE");
-                        it != obj_value->MemberEnd())
-                {
-                    obj_value = &it->value;
-                }
-            }
-
-            if (node)
-            {
-              auto addr = node->get_parameter();
-              if (addr)
-              {
-                json_parser::parse_value(*addr, *obj_value);
-                m_device->on_message(*addr);
-              }
-              else
-              {
-                m_device->on_unhandled_message(
-                    p.address, detail::ReadValue(*obj_value));
-              }
-            }
-            else
-            {
-              m_device->on_unhandled_message(
-                  p.address, oscquery::detail::ReadValue(*obj_value));
-            }
-
-            p.promise.set_value();
-          }
-
-          else // if update from critical param
+          // Update from critical param
           {
             for (auto it = data->MemberBegin(), end = data->MemberEnd();
                  it != end; ++it)
diff --git a/src/ossia/network/oscquery/oscquery_mirror.hpp b/src/ossia/network/oscquery/oscquery_mirror.hpp
index adf1463..2dd9232 100644
--- a/src/ossia/network/oscquery/oscquery_mirror.hpp
+++ b/src/ossia/network/oscquery/oscquery_mirror.hpp
@@ -139,6 +139,9 @@ private:
 
   void http_send_message(const std::string& str);
   void http_send_message(const rapidjson::StringBuffer& str);
+  struct get_ws_promise;
+  void http_request_value(std::shared_ptr<get_ws_promise> p);
+  bool on_valueAnswer(get_ws_promise& p, const std::string& message);
 
   void ws_send_message(const std::string& str);
   void ws_send_binary_message(const std::string& str);
@@ -186,7 +189,6 @@ private:
   };
   using promises_map = locked_map<string_map<get_osc_promise>>;
 
-  ossia::spsc_queue<get_ws_promise> m_getWSPromises;
   ossia::spsc_queue<std::function<void()>> m_functionQueue;
   std::function<void()> m_commandCallback;
 
-- 
2.43.0


From ae8c0ec13e532282efc71ddb3eafbb46e180f5f1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:00:31 +0000
Subject: [PATCH 060/107] fix: OSCQuery messages with anything where something
 else is expected are refused

---
 src/ossia/detail/json.hpp                     |  8 +++++++
 .../oscquery/detail/json_reader_detail.cpp    | 24 ++++++++++++++-----
 .../network/oscquery/detail/value_to_json.hpp | 21 ++++++++++------
 .../network/oscquery/oscquery_mirror.cpp      | 13 +++++++++-
 4 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/src/ossia/detail/json.hpp b/src/ossia/detail/json.hpp
index 542a51d..5e3ef1a 100644
--- a/src/ossia/detail/json.hpp
+++ b/src/ossia/detail/json.hpp
@@ -14,6 +14,14 @@
 #undef uuid_t
 #endif
 
+#endif
+// The JSON which is read comes from the network: asking for something which
+// isn't there must be an error which can be handled.
+#if !defined(RAPIDJSON_ASSERT)
+#include <stdexcept>
+#define RAPIDJSON_ASSERT_THROWS 1
+#define RAPIDJSON_ASSERT(x) \
+  (static_cast<bool>(x) ? (void)0 : throw std::runtime_error("Unexpected JSON: " #x))
 #endif
 #include <rapidjson/document.h>
 #include <rapidjson/writer.h>
diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index e7db985..4eae33c 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -281,8 +281,11 @@ bool json_parser_impl::ReadValue(
   }
   else if (val.IsArray())
   {
-    auto t = node.get_parameter()->get_value_type();
-    switch (t)
+    auto param = node.get_parameter();
+    if (!param || val.Empty())
+      return false;
+
+    switch (param->get_value_type())
     {
       case ossia::val_type::VEC2F:
         res = parse_vecf<2>(val);
@@ -698,8 +701,15 @@ ossia::value parse_oscquery_value(
         std::string_view typetag,
         bool& ok)
 {
-  ossia::value res = node.get_parameter()->value();
-  const auto& u = node.get_parameter()->get_unit();
+  auto param = node.get_parameter();
+  if (!param)
+  {
+    ok = false;
+    return {};
+  }
+
+  ossia::value res = param->value();
+  const auto& u = param->get_unit();
   if (typetag.size() == 1)
   {
     if (v.IsArray())
@@ -1140,6 +1150,8 @@ void json_parser::parse_path_added(
   // TODO potential race condition there,
   // if the node is created in-between the if / else
   auto opt_str = splitParentChild(full_path);
+  if (!opt_str)
+    throw ossia::bad_request_error{"Invalid path: " + full_path};
   auto& s = *opt_str;
 
   if (auto parent = ossia::net::find_node(root, s.first))
@@ -1182,9 +1194,9 @@ void json_parser::parse_path_removed(
       {
         ossia::net::set_zombie(*node, true);
       }
-      else
+      else if (auto parent = node->get_parent())
       {
-        node->get_parent()->remove_child(*node);
+        parent->remove_child(*node);
       }
     }
   }
diff --git a/src/ossia/network/oscquery/detail/value_to_json.hpp b/src/ossia/network/oscquery/detail/value_to_json.hpp
index 929b41c..e95959f 100644
--- a/src/ossia/network/oscquery/detail/value_to_json.hpp
+++ b/src/ossia/network/oscquery/detail/value_to_json.hpp
@@ -126,7 +126,8 @@ static inline auto from_hex(char c)
     }
   };
   static constexpr Table t;
-  return t[c];
+  const auto idx = static_cast<unsigned char>(c);
+  return idx < 128 ? t[idx] : 0;
 }
 
 struct json_to_value
@@ -165,7 +166,10 @@ struct json_to_value
   {
     bool b = false;
 
-    switch(typetags[typetag_cursor])
+    const char tag = typetag_cursor < (int)typetags.size()
+                         ? typetags[typetag_cursor]
+                         : '\0';
+    switch(tag)
     {
       case 'F':
         res = false;
@@ -211,8 +215,9 @@ struct json_to_value
   {
     if constexpr (N == 4)
     {
-      if (typetags[typetag_cursor]
-          == oscpack::TypeTagValues::RGBA_COLOR_TYPE_TAG)
+      if (typetag_cursor < (int)typetags.size()
+          && typetags[typetag_cursor]
+                 == oscpack::TypeTagValues::RGBA_COLOR_TYPE_TAG)
       {
         typetag_cursor += 1;
         bool b = val.IsString();
@@ -386,7 +391,8 @@ struct json_to_value
 
   bool can_read(ossia::string_view sv) const noexcept
   {
-      return typetags.substr(typetag_cursor, sv.size()) == sv;
+      return typetag_cursor <= (int)typetags.size()
+             && typetags.substr(typetag_cursor, sv.size()) == sv;
   }
 
   bool operator()(std::vector<ossia::value>& res) const
@@ -458,7 +464,7 @@ struct json_to_single_value
       // weird case where the typetag is wrongly set
       // then we expect that the value is not null
       // This doesn't follow the OSCQuery specification
-      bool b = val.IsBool();
+      b = val.IsBool();
       if (b)
         res = val.GetBool();
     }
@@ -613,7 +619,8 @@ struct json_to_value_unchecked
       {
         for (int i = 0; i < (int)N; i++)
         {
-          res[i] = arr[i].GetDouble();
+          if (arr[i].IsNumber())
+            res[i] = arr[i].GetDouble();
         }
       }
     }
diff --git a/src/ossia/network/oscquery/oscquery_mirror.cpp b/src/ossia/network/oscquery/oscquery_mirror.cpp
index ff5d6f6..00d55d9 100644
--- a/src/ossia/network/oscquery/oscquery_mirror.cpp
+++ b/src/ossia/network/oscquery/oscquery_mirror.cpp
@@ -573,7 +573,18 @@ void oscquery_mirror_protocol::run_commands()
   {
     ok = m_functionQueue.try_dequeue(cmd);
     if (ok && cmd)
-      cmd();
+    {
+      try
+      {
+        cmd();
+      }
+      catch (const std::exception& e)
+      {
+        // A message of the server could not be applied
+        if (m_logger.inbound_logger)
+          m_logger.inbound_logger->warn("Error while parsing: {}", e.what());
+      }
+    }
   } while (ok);
 }
 
-- 
2.43.0


From 2810c307a5056c2f748709cc41366da7a402f5af Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:54:22 +0000
Subject: [PATCH 061/107] fix: the parameters under a renamed node are observed
 at their new address

---
 src/ossia/network/generic/generic_node.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/ossia/network/generic/generic_node.cpp b/src/ossia/network/generic/generic_node.cpp
index eb2dc19..b409a0d 100644
--- a/src/ossia/network/generic/generic_node.cpp
+++ b/src/ossia/network/generic/generic_node.cpp
@@ -50,8 +50,24 @@ void generic_node_base::on_address_change()
   }
 }
 
+static void
+observed_parameters(const node_base& n, std::vector<parameter_base*>& params)
+{
+  if (auto p = n.get_parameter(); p && p->callback_count() > 0)
+    params.push_back(p);
+  for (auto cld : n.children_copy())
+    observed_parameters(*cld, params);
+}
+
 node_base& generic_node_base::set_name(std::string name)
 {
+  // The protocols observe addresses, which are going to change for this node
+  // and everything below.
+  std::vector<parameter_base*> observed;
+  observed_parameters(*this, observed);
+  for (auto p : observed)
+    m_device.get_protocol().observe(*p, false);
+
   auto old_name = std::move(m_name);
   if (m_parent)
   {
@@ -66,6 +82,9 @@ node_base& generic_node_base::set_name(std::string name)
   }
   on_address_change();
 
+  for (auto p : observed)
+    m_device.get_protocol().observe(*p, true);
+
   // notify observers
   m_device.on_node_renamed(*this, old_name);
 
-- 
2.43.0


From 2a14c47514e542728555546113f8bf5e78a54faa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:20:46 +0000
Subject: [PATCH 062/107] fix: JSON presets with zeros in vectors or lists
 which start with a float are read

---
 src/ossia/preset/preset.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index c7c7f30..1faaaf2 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -434,7 +434,7 @@ ossia::value json_to_ossia_value(const rapidjson::Value& value)
       }
       break;
     case rapidjson::kStringType:
-      val = std::string(value.GetString());
+      val = std::string(value.GetString(), value.GetStringLength());
       break;
     case rapidjson::kArrayType:
     {
@@ -448,24 +448,26 @@ ossia::value json_to_ossia_value(const rapidjson::Value& value)
         }
         return list;
       };
+      const bool floats
+          = std::all_of(value.Begin(), value.End(), [](const auto& v) {
+              return v.IsDouble();
+            });
       switch (N)
       {
         case 2:
-          if (value[0].IsDouble() && value[1].GetDouble())
+          if (floats)
             return ossia::make_vec(value[0].GetDouble(), value[1].GetDouble());
           else
             return handle_vec(value);
         case 3:
-          if (value[0].IsDouble() && value[1].GetDouble()
-              && value[2].GetDouble())
+          if (floats)
             return ossia::make_vec(
                 value[0].GetDouble(), value[1].GetDouble(),
                 value[2].GetDouble());
           else
             return handle_vec(value);
         case 4:
-          if (value[0].IsDouble() && value[1].GetDouble()
-              && value[2].GetDouble() && value[3].GetDouble())
+          if (floats)
             return ossia::make_vec(
                 value[0].GetDouble(), value[1].GetDouble(),
                 value[2].GetDouble(), value[3].GetDouble());
-- 
2.43.0


From 7914fb5ce2fa9c4d11a22cb8d85518b62a35030c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:22:50 +0000
Subject: [PATCH 063/107] fix: JSON presets keep the values of the nodes which
 have children, and holes between instances are not values

---
 src/ossia/preset/preset.cpp | 45 +++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index 1faaaf2..d6cb753 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -519,7 +519,9 @@ void explore(
       {
         for (int i = 0; i < arrsize; ++i)
         {
-          explore(fmt::format("{}.{}", root, i), jsonval[i], preset);
+          // write_json fills with null the indices for which there is nothing
+          if (!jsonval[i].IsNull())
+            explore(fmt::format("{}.{}", root, i), jsonval[i], preset);
         }
       }
       else
@@ -706,7 +708,7 @@ void insert(
     std::vector<std::string> newkeys(keys);
     newkeys.erase(newkeys.begin());
 
-    if (recipient.IsNull())
+    if (!recipient.IsObject())
     {
       recipient.SetObject();
     }
@@ -735,32 +737,27 @@ void insert(
 
     else
     {
-      if (keys.size() == 1)
+      // A node can have both a value and children : as in make_json_preset,
+      // there is then a member for its value and another for its children.
+      const bool is_value = keys.size() == 1;
+      auto member = std::find_if(
+          recipient.MemberBegin(), recipient.MemberEnd(), [&](const auto& m) {
+            return m.name == currentkey.c_str()
+                   && m.value.IsObject() != is_value;
+          });
+      if (member == recipient.MemberEnd())
       {
-        rapidjson::Value v = ossia_to_json_value(val, alloc);
-        if (!recipient.HasMember(currentkey))
-        {
-          rapidjson::Value name(rapidjson::kStringType);
-          name.SetString(currentkey, alloc);
-          recipient.AddMember(name, v, alloc);
-        }
-        else
-        {
-          recipient[currentkey].Swap(v);
-        }
+        rapidjson::Value node(rapidjson::kObjectType);
+        rapidjson::Value name(rapidjson::kStringType);
+        name.SetString(currentkey, alloc);
+        recipient.AddMember(name, node, alloc);
+        member = recipient.MemberEnd() - 1;
       }
 
+      if (is_value)
+        member->value = ossia_to_json_value(val, alloc);
       else
-      {
-        if (!recipient.HasMember(currentkey))
-        {
-          rapidjson::Value node(rapidjson::kObjectType);
-          rapidjson::Value name(rapidjson::kStringType);
-          name.SetString(currentkey, alloc);
-          recipient.AddMember(name, node, alloc);
-        }
-        insert(recipient[currentkey], newkeys, val, alloc);
-      }
+        insert(member->value, newkeys, val, alloc);
     }
   }
 }
-- 
2.43.0


From f502ac2bd90be90e9bd7e1d893d0486d373fb55d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:22:50 +0000
Subject: [PATCH 064/107] fix: JSON presets keep the names with a dot which is
 not followed by an index

---
 src/ossia/preset/preset.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index d6cb753..0f18fa0 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -641,6 +641,16 @@ rapidjson::Value ossia_to_json_value(
   return val.apply(value_to_json_preset_value{docallocator});
 }
 
+// In foo.12 the array is foo and the index is 12. There is none in foo.bar,
+// foo., foo.-1...
+static bool is_array_index(const std::string& str)
+{
+  return !str.empty() && str.size() <= 5
+         && std::all_of(
+             str.begin(), str.end(), [](char c) { return c >= '0' && c <= '9'; })
+         && (str == "0" || str[0] != '0');
+}
+
 template <typename Alloc>
 void insert(
     rapidjson::Value& recipient, const std::vector<std::string>& keys,
@@ -714,10 +724,9 @@ void insert(
     }
 
     std::vector<std::string> arraykeys;
-    boost::split(
-        arraykeys, currentkey, [](char c) { return c == '.'; },
-        boost::token_compress_on);
-    if (arraykeys.size() > 1)
+    boost::split(arraykeys, currentkey, [](char c) { return c == '.'; });
+    if (arraykeys.size() > 1
+        && std::all_of(arraykeys.begin() + 1, arraykeys.end(), is_array_index))
     {
 
       rapidjson::Value arrname(rapidjson::kStringType);
-- 
2.43.0


From c43c9513fb96a1408a17341754ef5d4af525b0b7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:23:01 +0000
Subject: [PATCH 065/107] fix: presets applied to nodes without parameter, and
 instances matched by name rather than by length

---
 src/ossia/preset/preset.cpp | 58 +++++++++++++++----------------------
 1 file changed, 24 insertions(+), 34 deletions(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index 0f18fa0..01f1c64 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -1147,9 +1147,18 @@ void apply_preset_node(
       throw(ossia::ossiaException_InvalidAddress(
           __LINE__, __FILE__, details.c_str()));
     }
-    else
+    else if (auto param = root.get_parameter())
+    {
+      param->push_value(val);
+    }
+    else if (keeparch == ossia::presets::keep_arch_on)
     {
-      root.get_parameter()->push_value(val);
+      throw std::runtime_error(
+          "preset loading: can't change device architecture");
+    }
+    else if (auto param = root.create_parameter(val.get_type()))
+    {
+      param->push_value(val);
     }
   }
   else
@@ -1157,41 +1166,22 @@ void apply_preset_node(
     // TODO this is slow. Either use the last (fast) or use a list (less slow).
     std::string currentkey = preset_to_device_key(keys[0]);
     keys.erase(keys.begin());
-    bool child_exists = false;
 
-    for (auto& child : root.children())
+    auto child = root.find_child(currentkey);
+    if (!child)
     {
-      if (!child)
-      {
-        auto err = std::string("Null child of : ") + root.get_name();
-        ossia::logger().error("{}", err.c_str());
-      }
-      else
-      {
-        const std::string childName = child->get_name();
-        if (currentkey == childName)
-        {
-          child_exists = true;
-          apply_preset_node(
-              *child, keys, val, keeparch, created_nodes, allow_nonterminal);
-        }
-        else
-        {
-          // Case of the 'bar.0' / 'bar'.
-          const auto N = currentkey.size();
-          if ((childName.size() == (N - 2)) && currentkey[N - 2] == '.'
-              && currentkey[N - 1] == '0')
-          {
-            currentkey.resize(currentkey.size() - 2);
-            child_exists = true;
-            apply_preset_node(
-                *child, keys, val, keeparch, created_nodes, allow_nonterminal);
-          }
-        }
-      }
+      // Case of the 'bar.0' / 'bar'.
+      const auto N = currentkey.size();
+      if (N > 2 && currentkey.compare(N - 2, 2, ".0") == 0)
+        child = root.find_child(currentkey.substr(0, N - 2));
     }
 
-    if (!child_exists)
+    if (child)
+    {
+      apply_preset_node(
+          *child, keys, val, keeparch, created_nodes, allow_nonterminal);
+    }
+    else
     {
       if (keeparch == ossia::presets::keep_arch_on)
       {
@@ -1266,7 +1256,7 @@ void ossia::presets::apply_preset(
         keys.erase(keys.begin()); // then we have to remove the "initial" key
                                   // which is the device name
     }
-    if (node.get_parent())
+    if (node.get_parent() && !keys.empty())
       keys.erase(
           keys.begin()); // remove another one in case node is not a root
 
-- 
2.43.0


From 6952b8e8508c0d7b7d85ca84f98bfef98b5bc624 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:23:01 +0000
Subject: [PATCH 066/107] fix: presets::get_node looks for the same address in
 all the branches

---
 src/ossia/preset/preset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index 01f1c64..ac5c01d 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -1298,7 +1298,7 @@ ossia::presets::preset ossia::presets::make_preset(ossia::net::node_base& node)
 }
 
 ossia::net::node_base*
-get_node_node(ossia::net::node_base& root, std::vector<std::string>& keys)
+get_node_node(ossia::net::node_base& root, std::vector<std::string> keys)
 {
   ossia::net::node_base* res = nullptr;
 
-- 
2.43.0


From ba4e82d949a1c346d536becc7c88b2b3b96df4a6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:23:01 +0000
Subject: [PATCH 067/107] fix: the step size of integers is written in the
 description of a device

---
 src/ossia/preset/preset.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index ac5c01d..84fec47 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -922,9 +922,7 @@ export_nodes_to_json(const ossia::net::node_base& node, rapidjson::Document& d)
         }
 
         // append step size attribute
-        auto valueStepSize
-            = ossia::get_optional_attribute<ossia::net::value_step_size>(
-                node, "valueStepSize");
+        auto valueStepSize = ossia::net::get_value_step_size(node);
         if (valueStepSize)
         {
           v.AddMember("valueStepSize", *valueStepSize, alloc);
-- 
2.43.0


From 8ed02af6e1013c3830c1c7ac66fcba5d23b93c83 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:23:13 +0000
Subject: [PATCH 068/107] fix: JSON presets with infinities or NaN are written
 whole

---
 src/ossia/preset/preset.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index 84fec47..125dd46 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -25,6 +25,7 @@
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 
+#include <cmath>
 #include <cstdio>
 #include <iostream>
 #include <memory>
@@ -409,6 +410,23 @@ extern "C"
 #endif
 /// C++ Implementations: Presets ///
 
+// As with json_writer, what is not a finite number is written too
+struct json_pretty_writer
+    : public rapidjson::PrettyWriter<rapidjson::StringBuffer>
+{
+  using rapidjson::PrettyWriter<rapidjson::StringBuffer>::PrettyWriter;
+
+  bool Double(double d)
+  {
+    if (std::isnan(d))
+      return RawValue("NaN", 3, rapidjson::kNumberType);
+    if (std::isinf(d))
+      return d > 0 ? RawValue("Infinity", 8, rapidjson::kNumberType)
+                   : RawValue("-Infinity", 9, rapidjson::kNumberType);
+    return rapidjson::PrettyWriter<rapidjson::StringBuffer>::Double(d);
+  }
+};
+
 ossia::value json_to_ossia_value(const rapidjson::Value& value)
 {
 
@@ -798,7 +816,7 @@ ossia::presets::write_json(const std::string& devicename, const preset& prst)
   d.AddMember(k, std::move(obj), d.GetAllocator());
 
   rapidjson::StringBuffer buffer;
-  rapidjson::PrettyWriter<rapidjson::StringBuffer> writer(buffer);
+  json_pretty_writer writer(buffer);
   d.Accept(writer);
   return buffer.GetString();
 }
@@ -1064,7 +1082,7 @@ ossia::presets::write_json(const ossia::net::device_base& deviceBase)
 
   // return json string
   rapidjson::StringBuffer buffer;
-  rapidjson::PrettyWriter<rapidjson::StringBuffer> writer(buffer);
+  json_pretty_writer writer(buffer);
   d.Accept(writer);
   auto output = buffer.GetString();
 
@@ -1423,7 +1441,7 @@ ossia::presets::make_json_preset(const ossia::net::node_base& node)
   }
 
   rapidjson::StringBuffer buffer;
-  rapidjson::PrettyWriter<rapidjson::StringBuffer> writer(buffer);
+  json_pretty_writer writer(buffer);
   doc.Accept(writer);
 
   return buffer.GetString();
-- 
2.43.0


From 377c5ca36d301faad101b0f935133f8d97fa9922 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:53:00 +0000
Subject: [PATCH 069/107] fix: JSON presets with instances of instances are
 read

---
 src/ossia/preset/preset.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index 125dd46..31788f1 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -507,6 +507,14 @@ bool is_nested(const rapidjson::Value& v)
   return (v.IsArray() || v.IsObject());
 }
 
+// Objects are nodes : the arrays which contain some, even in other arrays as
+// for foo.1.2/bar, are not lists but instances
+static bool has_object(const rapidjson::Value& v)
+{
+  return v.IsObject()
+         || (v.IsArray() && std::any_of(v.Begin(), v.End(), has_object));
+}
+
 void explore(
     std::string root, const rapidjson::Value& jsonval,
     ossia::presets::preset* preset)
@@ -525,15 +533,7 @@ void explore(
     if (jsonval.IsArray())
     {
       int arrsize = jsonval.Size();
-      bool is_not_obj = true;
-      for (int i = 0; i < arrsize; ++i)
-      {
-        is_not_obj &= !jsonval[i].IsObject();
-        if (!is_not_obj)
-          break;
-      }
-
-      if (!is_not_obj)
+      if (has_object(jsonval))
       {
         for (int i = 0; i < arrsize; ++i)
         {
-- 
2.43.0


From de41fbb6c04f14021d5e6658459433d7c41691e0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:57:39 +0000
Subject: [PATCH 070/107] fix: MIDI notes shorter than a tick are stopped

---
 src/ossia/dataflow/nodes/midi.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/nodes/midi.hpp b/src/ossia/dataflow/nodes/midi.hpp
index da4b317..f7c3644 100644
--- a/src/ossia/dataflow/nodes/midi.hpp
+++ b/src/ossia/dataflow/nodes/midi.hpp
@@ -251,7 +251,20 @@ private:
             mp.messages.back().timestamp
                 = t.to_physical_time_in_tick(start_time, samplesratio);
 
-            m_playingnotes.insert(note);
+            const auto end_time = note.start + note.duration;
+            if (t.in_range(end_time))
+            {
+              // The note also ends in this tick
+              mp.messages.push_back(libremidi::message::note_off(
+                  m_channel, note.pitch, 0));
+              mp.messages.back().timestamp
+                  = t.to_physical_time_in_tick(end_time, samplesratio);
+            }
+            else
+            {
+              m_playingnotes.insert(note);
+            }
+
             it = m_notes.erase(it);
             max_it = std::lower_bound(
                 it, m_notes.end(), t.date.impl + 1, note_comparator{});
-- 
2.43.0


From ddf28aea7ea9a7f3ddd8d836d6953af7e30c0cfd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:57:39 +0000
Subject: [PATCH 071/107] fix: removing a MIDI note does not remove the other
 notes of a chord

---
 src/ossia/dataflow/nodes/midi.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/ossia/dataflow/nodes/midi.hpp b/src/ossia/dataflow/nodes/midi.hpp
index f7c3644..e8dcbc1 100644
--- a/src/ossia/dataflow/nodes/midi.hpp
+++ b/src/ossia/dataflow/nodes/midi.hpp
@@ -4,6 +4,8 @@
 #include <ossia/dataflow/port.hpp>
 #include <ossia/detail/flat_multiset.hpp>
 
+#include <algorithm>
+
 namespace ossia::nodes
 {
 
@@ -65,13 +67,11 @@ public:
 
   void remove_note(note_data nd)
   {
-    m_orig_notes.erase(nd);
-    m_notes.erase(nd);
-    auto it = m_playingnotes.find(nd);
-    if (it != m_playingnotes.end())
+    erase_note(m_orig_notes, nd);
+    erase_note(m_notes, nd);
+    if (erase_note(m_playingnotes, nd))
     {
       m_toStop.insert(nd);
-      m_playingnotes.erase(it);
     }
   }
 
@@ -149,6 +149,21 @@ public:
   bool doTransport{};
 
 private:
+  // The sets are ordered by date: the other notes which start at the same
+  // date are not to be removed.
+  static bool erase_note(note_set& notes, const note_data& nd)
+  {
+    auto [first, last] = notes.equal_range(nd);
+    auto it = std::find_if(first, last, [&](const note_data& n) {
+      return n.pitch == nd.pitch && n.velocity == nd.velocity
+             && n.duration == nd.duration;
+    });
+    if (it == last)
+      return false;
+    notes.erase(it);
+    return true;
+  }
+
   void
   run(const ossia::token_request& t, ossia::exec_state_facade e) noexcept override
   {
-- 
2.43.0


From 00d1a39b734b3be99765d34ff474d9504d793183 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:57:39 +0000
Subject: [PATCH 072/107] fix: MIDI notes added at the current date are played

---
 src/ossia/dataflow/nodes/midi.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/nodes/midi.hpp b/src/ossia/dataflow/nodes/midi.hpp
index e8dcbc1..2cc0de3 100644
--- a/src/ossia/dataflow/nodes/midi.hpp
+++ b/src/ossia/dataflow/nodes/midi.hpp
@@ -59,7 +59,7 @@ public:
   void add_note(note_data nd)
   {
     m_orig_notes.insert(nd);
-    if (nd.start > m_prev_date)
+    if (nd.start >= m_prev_date)
     {
       m_notes.insert(nd);
     }
-- 
2.43.0


From 9f3d1d2fee5fbdc5b6497f99a780d1876f4ef456 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:57:39 +0000
Subject: [PATCH 073/107] fix: the step process plays all the steps of a tick

---
 src/ossia/dataflow/nodes/step.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/nodes/step.hpp b/src/ossia/dataflow/nodes/step.hpp
index 0d5a75d..a5541ad 100644
--- a/src/ossia/dataflow/nodes/step.hpp
+++ b/src/ossia/dataflow/nodes/step.hpp
@@ -3,6 +3,8 @@
 #include <ossia/dataflow/port.hpp>
 #include <ossia/detail/pod_vector.hpp>
 
+#include <cmath>
+
 namespace ossia::nodes
 {
 class step final : public ossia::graph_node
@@ -26,7 +28,11 @@ public:
     {
       auto& port = *m_outlets[0]->target<ossia::value_port>();
       const int64_t d = dur.impl * e.samplesToModel();
-      int64_t quo = std::floor(double(t.date.impl) / d);
+      if (d <= 0 || values.empty())
+        return;
+
+      // First step at or after the beginning of the tick
+      int64_t quo = std::ceil(double(t.prev_date.impl) / d);
       int64_t prev_step = d * quo;
 
       while(t.in_range(time_value{prev_step}))
-- 
2.43.0


From 59bceeb9fc8262ebea35fa37ceab95ff2b9f8d51 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:57:39 +0000
Subject: [PATCH 074/107] fix: the metronome keeps its tempo across ticks

---
 src/ossia/dataflow/nodes/metronome.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ossia/dataflow/nodes/metronome.hpp b/src/ossia/dataflow/nodes/metronome.hpp
index ebd6aca..97bb8e1 100644
--- a/src/ossia/dataflow/nodes/metronome.hpp
+++ b/src/ossia/dataflow/nodes/metronome.hpp
@@ -64,7 +64,9 @@ private:
       }
       else
       {
-        m_metroPrevTick = elapsed - cur;
+        // What remains since the tick which just happened
+        m_metroPrevTick
+            = cur > 0_tv ? (m_metroPrevTick + elapsed) % cur : 0_tv;
         vp.write_value(
             ossia::impulse{}, t.physical_start(e.modelToSamples())); // TODO offset is wrong here
       }
@@ -80,7 +82,9 @@ private:
       }
       else
       {
-        m_metroPrevTick = elapsed - cur;
+        // What remains since the tick which just happened
+        m_metroPrevTick
+            = cur > 0_tv ? (m_metroPrevTick + elapsed) % cur : 0_tv;
         vp.write_value(
             ossia::impulse{}, t.physical_start(e.modelToSamples())); // TODO offset is wrong here
       }
-- 
2.43.0


From 73b7a14f330cd5092da33d806dd26ae206510756 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:57:39 +0000
Subject: [PATCH 075/107] fix: gradients tween from the current color to their
 first one

---
 src/ossia/dataflow/nodes/gradient.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/nodes/gradient.hpp b/src/ossia/dataflow/nodes/gradient.hpp
index 6fa96d3..24bcbea 100644
--- a/src/ossia/dataflow/nodes/gradient.hpp
+++ b/src/ossia/dataflow/nodes/gradient.hpp
@@ -42,7 +42,7 @@ public:
     auto& out = *m_outlets[0]->target<ossia::value_port>();
     auto beg = m_data.begin();
 
-    if (beg->first >= position)
+    if (beg->first <= position)
     {
       out.write_value(
           clamp_color(ossia::argb{beg->second}).dataspace_value, tick_start);
-- 
2.43.0


From bc55c8b03de9f0b37d15794b56dc5fd7b6779a28 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:57:39 +0000
Subject: [PATCH 076/107] fix: splines hold their last point past their end

---
 src/ossia/editor/automation/tinyspline_util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/editor/automation/tinyspline_util.hpp b/src/ossia/editor/automation/tinyspline_util.hpp
index 762d7bb..c13d63f 100644
--- a/src/ossia/editor/automation/tinyspline_util.hpp
+++ b/src/ossia/editor/automation/tinyspline_util.hpp
@@ -51,7 +51,8 @@ struct spline
 
   std::array<tsReal, N> evaluate(double pos) const noexcept
   {
-    std::array<tsReal, N> res;
+    std::array<tsReal, N> res{};
+    pos = pos < 0. ? 0. : pos > 1. ? 1. : pos;
 
     tsStatus status;
     if (ts_int_bspline_eval_woa(&m_spline, pos, &m_net, &status) != 0)
-- 
2.43.0


From 963476f721613dd0b5fe6d04b43c6c3d65e28582 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:57:50 +0000
Subject: [PATCH 077/107] fix: mappings and automations ignore what they cannot
 map instead of terminating

---
 src/ossia/dataflow/nodes/automation.hpp | 19 +++++++++++++------
 src/ossia/dataflow/nodes/mapping.hpp    | 13 ++++++++++---
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/ossia/dataflow/nodes/automation.hpp b/src/ossia/dataflow/nodes/automation.hpp
index 42e5a28..485ab8a 100644
--- a/src/ossia/dataflow/nodes/automation.hpp
+++ b/src/ossia/dataflow/nodes/automation.hpp
@@ -73,12 +73,19 @@ private:
     const auto tick_start = e.physical_start(t);
 
     ossia::value_port& vp = *value_out;
-    vp.write_value(
-        ossia::apply(
-            ossia::detail::compute_value_visitor{t.position(),
-                                                 ossia::val_type::FLOAT},
-            m_drive),
-        tick_start);
+    try
+    {
+      vp.write_value(
+          ossia::apply(
+              ossia::detail::compute_value_visitor{t.position(),
+                                                   ossia::val_type::FLOAT},
+              m_drive),
+          tick_start);
+    }
+    catch (const ossia::invalid_value_type_error&)
+    {
+      // There is no value for this kind of behavior
+    }
   }
 
   ossia::behavior m_drive;
diff --git a/src/ossia/dataflow/nodes/mapping.hpp b/src/ossia/dataflow/nodes/mapping.hpp
index cbc47f7..c65e2f4 100644
--- a/src/ossia/dataflow/nodes/mapping.hpp
+++ b/src/ossia/dataflow/nodes/mapping.hpp
@@ -58,10 +58,17 @@ private:
     {
       if (tv.value.valid())
       {
-        auto v = ossia::apply(
-            ossia::detail::mapper_compute_visitor{}, tv.value, m_drive.v);
+        try
+        {
+          auto v = ossia::apply(
+              ossia::detail::mapper_compute_visitor{}, tv.value, m_drive.v);
 
-        op.write_value(std::move(v), tv.timestamp);
+          op.write_value(std::move(v), tv.timestamp);
+        }
+        catch (const ossia::invalid_value_type_error&)
+        {
+          // There is no mapping for this kind of value
+        }
       }
     }
   }
-- 
2.43.0


From 439ef6ac809c089858156eeaff0461597b5d79fd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:58:48 +0000
Subject: [PATCH 078/107] fix: MIDI notes are not played twice after moving
 forward then back

---
 src/ossia/dataflow/nodes/midi.hpp | 40 +++++--------------------------
 1 file changed, 6 insertions(+), 34 deletions(-)

diff --git a/src/ossia/dataflow/nodes/midi.hpp b/src/ossia/dataflow/nodes/midi.hpp
index 2cc0de3..5f36a55 100644
--- a/src/ossia/dataflow/nodes/midi.hpp
+++ b/src/ossia/dataflow/nodes/midi.hpp
@@ -87,41 +87,13 @@ public:
     m_toStop.insert(m_playingnotes.begin(), m_playingnotes.end());
     m_playingnotes.clear();
 
-    // 2. Re-add following notes
-    if (date < m_prev_date)
+    // 2. What can still be played is what starts after this date, and what
+    // is being played at this date
+    m_notes.clear();
+    for (const note_data& note : m_orig_notes)
     {
-      if (date == 0_tv)
-      {
-        m_notes = m_orig_notes;
-      }
-      else
-      {
-        auto min_it = m_orig_notes.lower_bound({date});
-        auto max_it = m_orig_notes.lower_bound({m_prev_date});
-
-        if (min_it != m_orig_notes.end())
-          m_notes.insert(min_it, max_it);
-
-        // all of these will have it->start < date
-        for (auto it = m_orig_notes.begin(); it != min_it; ++it)
-        {
-          if ((it->start + it->duration) > date)
-          {
-            m_notes.insert(*it);
-          }
-        }
-      }
-    }
-    else if (date > m_prev_date)
-    {
-      // remove previous notes
-      auto min_it = m_notes.lower_bound({date});
-      if (min_it != m_notes.begin() && min_it != m_notes.end())
-      {
-        std::advance(min_it, -1);
-        m_notes.erase(m_notes.begin(), min_it);
-      }
-      // todo resume current notes
+      if (note.start >= date || note.start + note.duration > date)
+        m_notes.insert(note);
     }
 
     m_prev_date = date;
-- 
2.43.0


From c5be310b335867743801c9776295554746a2c649 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:59:01 +0000
Subject: [PATCH 079/107] fix: sounds fade over the whole part of the buffer
 they fill

---
 src/ossia/dataflow/nodes/sound_mmap.hpp | 2 +-
 src/ossia/dataflow/nodes/sound_ref.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/dataflow/nodes/sound_mmap.hpp b/src/ossia/dataflow/nodes/sound_mmap.hpp
index 57bea25..c82a671 100644
--- a/src/ossia/dataflow/nodes/sound_mmap.hpp
+++ b/src/ossia/dataflow/nodes/sound_mmap.hpp
@@ -312,7 +312,7 @@ public:
       {
         // fade
         snd::do_fade(t.start_discontinuous, t.end_discontinuous, ap.samples[chan],
-                     samples_offset, samples_to_write);
+                     samples_offset, samples_offset + samples_to_write);
       }
 
       ossia::snd::perform_upmix(this->upmix, channels, ap);
diff --git a/src/ossia/dataflow/nodes/sound_ref.hpp b/src/ossia/dataflow/nodes/sound_ref.hpp
index 1d5a2fb..356cd51 100644
--- a/src/ossia/dataflow/nodes/sound_ref.hpp
+++ b/src/ossia/dataflow/nodes/sound_ref.hpp
@@ -165,7 +165,7 @@ public:
       {
           ossia::snd::do_fade(
               t.start_discontinuous, t.end_discontinuous, ap.samples[i],
-              samples_offset, samples_to_write);
+              samples_offset, samples_offset + samples_to_write);
       }
 
       ossia::snd::perform_upmix(this->upmix, chan, ap);
-- 
2.43.0


From b2a959a110626b9ec13f7b27de88c5cd93a07b04 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:06:22 +0000
Subject: [PATCH 080/107] fix: splines with less than four points are ignored
 instead of crashing

---
 src/ossia/editor/automation/tinyspline_util.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ossia/editor/automation/tinyspline_util.hpp b/src/ossia/editor/automation/tinyspline_util.hpp
index c13d63f..3ead57a 100644
--- a/src/ossia/editor/automation/tinyspline_util.hpp
+++ b/src/ossia/editor/automation/tinyspline_util.hpp
@@ -38,14 +38,17 @@ struct spline
       ts_bspline_free(&m_spline);
 
     m_spline = ts_bspline_init();
-    ts_bspline_new(numPoints, N, 3, TS_CLAMPED, &m_spline, &status);
+    ts_int_deboornet_init(&m_net);
+
+    // There is no cubic spline with less than four points
+    if(ts_bspline_new(numPoints, N, 3, TS_CLAMPED, &m_spline, &status) != 0)
+      return;
 
     ts_bspline_set_control_points(
         &m_spline,
         points,
         &status);
 
-    ts_int_deboornet_init(&m_net);
     ts_int_deboornet_new(&m_spline, &m_net, &status);
   }
 
-- 
2.43.0


From a20abbddcdb4df197d33ef3652c65a7431ced481 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:29:59 +0000
Subject: [PATCH 081/107] fix: sounds with a start channel keep what was played
 earlier in the tick

---
 src/ossia/dataflow/nodes/sound.hpp      | 8 ++++++++
 src/ossia/dataflow/nodes/sound_mmap.hpp | 3 ++-
 src/ossia/dataflow/nodes/sound_ref.hpp  | 3 ++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ossia/dataflow/nodes/sound.hpp b/src/ossia/dataflow/nodes/sound.hpp
index 5568b13..e1bea6d 100644
--- a/src/ossia/dataflow/nodes/sound.hpp
+++ b/src/ossia/dataflow/nodes/sound.hpp
@@ -239,6 +239,14 @@ inline void perform_start_offset(const std::size_t start, ossia::audio_port& ap)
   }
 }
 
+// There may be multiple tokens in a tick: what was played by the previous ones
+// goes back to the first channel.
+inline void undo_start_offset(const std::size_t start, ossia::audio_port& ap)
+{
+  const auto n = std::min(start, (std::size_t)ap.samples.size());
+  ap.samples.erase(ap.samples.begin(), ap.samples.begin() + n);
+}
+
 OSSIA_EXPORT
 void do_fade(
     bool start_discontinuous, bool end_discontinuous,
diff --git a/src/ossia/dataflow/nodes/sound_mmap.hpp b/src/ossia/dataflow/nodes/sound_mmap.hpp
index c82a671..c398921 100644
--- a/src/ossia/dataflow/nodes/sound_mmap.hpp
+++ b/src/ossia/dataflow/nodes/sound_mmap.hpp
@@ -278,7 +278,6 @@ public:
     const auto len = m_handle.totalPCMFrameCount();
 
     ossia::audio_port& ap = *audio_out;
-    ap.samples.resize(channels);
 
     const auto [samples_to_read, samples_to_write] = snd::sample_info(e.bufferSize(), e.modelToSamples(), t);
     if(samples_to_write <= 0)
@@ -294,6 +293,8 @@ public:
         transport(t.prev_date);
       }
 
+      ossia::snd::undo_start_offset(this->start, ap);
+      ap.samples.resize(channels);
       for (std::size_t chan = 0; chan < channels; chan++)
       {
         ap.samples[chan].resize(e.bufferSize());
diff --git a/src/ossia/dataflow/nodes/sound_ref.hpp b/src/ossia/dataflow/nodes/sound_ref.hpp
index 356cd51..cc357b6 100644
--- a/src/ossia/dataflow/nodes/sound_ref.hpp
+++ b/src/ossia/dataflow/nodes/sound_ref.hpp
@@ -129,7 +129,6 @@ public:
     const std::size_t chan = m_data.size();
     const std::size_t len = m_data[0].size();
     ossia::audio_port& ap = *audio_out;
-    ap.samples.resize(chan);
 
     const auto [samples_to_read, samples_to_write] = snd::sample_info(e.bufferSize(), e.modelToSamples(), t);
     if(samples_to_read == 0)
@@ -147,6 +146,8 @@ public:
         transport(t.prev_date);
       }
 
+      ossia::snd::undo_start_offset(this->start, ap);
+      ap.samples.resize(chan);
       for (std::size_t i = 0; i < chan; ++i)
       {
         ap.samples[i].resize(e.bufferSize());
-- 
2.43.0


From f0288a2d5d58d07c3511bda5c3edaaed84a51c56 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:29:59 +0000
Subject: [PATCH 082/107] fix: copying an empty wav handle crashed, assigning
 one lost its acid information

---
 src/ossia/audio/drwav_handle.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ossia/audio/drwav_handle.hpp b/src/ossia/audio/drwav_handle.hpp
index ce0b710..10f2ef2 100644
--- a/src/ossia/audio/drwav_handle.hpp
+++ b/src/ossia/audio/drwav_handle.hpp
@@ -84,20 +84,26 @@ public:
     }
 
     impl = other.impl;
+    m_acid = other.m_acid;
     other.impl = nullptr;
+    other.m_acid = {};
     return *this;
   }
 
   drwav_handle& operator=(const drwav_handle& other) noexcept
   {
+    if(this == &other)
+      return *this;
+
     if(impl)
     {
       drwav_uninit(impl);
       delete impl;
       impl = nullptr;
     }
+    m_acid = {};
 
-    if(other.impl->memoryStream.data)
+    if(other.impl && other.impl->memoryStream.data)
     {
       impl = new drwav;
       drwav_init_memory_ex(impl, other.impl->memoryStream.data, other.impl->memoryStream.dataSize, on_chunk, this, 0, &drwav_allocs);
@@ -122,6 +128,7 @@ public:
       drwav_uninit(impl);
       delete impl;
     }
+    m_acid = {};
 
     impl = new drwav;
     drwav_init_memory_ex(impl, data, dataSize, on_chunk, this, 0, &drwav_allocs);
-- 
2.43.0


From 2b0f0fcc1fff930477f15088092ab394c71bb0e0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:29:59 +0000
Subject: [PATCH 083/107] fix: sounds with a loop of no duration do not divide
 by zero

---
 src/ossia/dataflow/nodes/sound_mmap.hpp | 4 ++--
 src/ossia/dataflow/nodes/sound_ref.hpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ossia/dataflow/nodes/sound_mmap.hpp b/src/ossia/dataflow/nodes/sound_mmap.hpp
index c398921..1affcc9 100644
--- a/src/ossia/dataflow/nodes/sound_mmap.hpp
+++ b/src/ossia/dataflow/nodes/sound_mmap.hpp
@@ -117,7 +117,7 @@ public:
       frame_data = (double*) alloca(sizeof(double) * samples_to_write * channels);
     }
 
-    if(m_loops)
+    if(m_loops && m_loop_duration_samples > 0)
     {
       for(int k = 0; k < samples_to_write; k++)
       {
@@ -204,7 +204,7 @@ public:
       frame_data = (double*) alloca(sizeof(double) * samples_to_write * channels);
     }
 
-    if(m_loops)
+    if(m_loops && m_loop_duration_samples > 0)
     {
       for(int k = 0; k < samples_to_write; k++)
       {
diff --git a/src/ossia/dataflow/nodes/sound_ref.hpp b/src/ossia/dataflow/nodes/sound_ref.hpp
index cc357b6..854b466 100644
--- a/src/ossia/dataflow/nodes/sound_ref.hpp
+++ b/src/ossia/dataflow/nodes/sound_ref.hpp
@@ -64,7 +64,7 @@ public:
   {
     const int channels = this->channels();
     const int file_duration = this->duration();
-    if(m_loops)
+    if(m_loops && m_loop_duration_samples > 0)
     {
       for(int i = 0; i < channels; i++)
       {
-- 
2.43.0


From 6d3fe2f221c7ccb149f3a1113bb21d32be7dcf88 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:47:25 +0000
Subject: [PATCH 084/107] fix: start a scenario from a date where an interval
 ends, or after a condition was false

---
 src/ossia/editor/scenario/detail/scenario_offset.cpp | 8 ++++----
 src/ossia/editor/scenario/scenario.cpp               | 8 +++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_offset.cpp b/src/ossia/editor/scenario/detail/scenario_offset.cpp
index 96ff1e3..954544b 100644
--- a/src/ossia/editor/scenario/detail/scenario_offset.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_offset.cpp
@@ -94,13 +94,13 @@ void process_offset(
       }
       else if (
           intervalOffset >= Zero
-          && intervalOffset <= timeInterval->get_max_duration())
+          && intervalOffset < timeInterval->get_max_duration())
       {
         eventStatus = intervalOffset > timeInterval->get_min_duration()
                           ? time_event::status::PENDING
                           : time_event::status::NONE;
       }
-      else if (intervalOffset > timeInterval->get_max_duration())
+      else
       {
         eventStatus = get_event_status(event);
       }
@@ -217,7 +217,7 @@ void scenario::transport_impl(ossia::time_value offset)
     // offset TimeInterval's Clock
     const time_value intervalOffset = offset - start_date;
 
-    if (intervalOffset >= Zero && intervalOffset <= cst.get_max_duration()
+    if (intervalOffset >= Zero && intervalOffset < cst.get_max_duration()
         && sev.get_status() == time_event::status::HAPPENED)
     {
       cst.transport(intervalOffset);
@@ -336,7 +336,7 @@ void scenario::offset_impl(ossia::time_value offset)
     // offset TimeInterval's Clock
     time_value intervalOffset = offset - start_date;
 
-    if (intervalOffset >= Zero && intervalOffset <= cst.get_max_duration()
+    if (intervalOffset >= Zero && intervalOffset < cst.get_max_duration()
         && sev.get_status() == time_event::status::HAPPENED)
     {
       cst.offset(intervalOffset);
diff --git a/src/ossia/editor/scenario/scenario.cpp b/src/ossia/editor/scenario/scenario.cpp
index 1a11386..3f09d3b 100644
--- a/src/ossia/editor/scenario/scenario.cpp
+++ b/src/ossia/editor/scenario/scenario.cpp
@@ -94,12 +94,14 @@ void scenario::start()
         && endStatus == time_event::status::NONE)
     {
     }
-    else if (
-        startStatus == time_event::status::DISPOSED
-        && endStatus == time_event::status::DISPOSED)
+    else if (startStatus == time_event::status::DISPOSED)
     {
         // the interval is started by a false condition
     }
+    else if (endStatus == time_event::status::DISPOSED)
+    {
+        // the interval is in the past and leads to a false condition
+    }
     // error
     else
     {
-- 
2.43.0


From fa16c71e35017340cf8582917f839eb12b25bd49 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:47:25 +0000
Subject: [PATCH 085/107] fix: offsetting a scenario: forget the previous run
 and do not play what follows false conditions

---
 .../scenario/detail/scenario_offset.cpp       | 77 ++++++++++++++-----
 1 file changed, 59 insertions(+), 18 deletions(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_offset.cpp b/src/ossia/editor/scenario/detail/scenario_offset.cpp
index 954544b..1f7abd6 100644
--- a/src/ossia/editor/scenario/detail/scenario_offset.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_offset.cpp
@@ -39,8 +39,27 @@ static void process_timesync_dates(time_sync& t, DateMap& map)
   }
 }
 
-void process_offset(
-    time_sync& timesync, ossia::time_value offset, past_events_map& pastEvents, ossia::flat_set<ossia::time_event*>& seen_events)
+// The time syncs that follow this one, each after those which precede it
+static void process_timesync_order(
+    time_sync& t, ossia::flat_set<time_sync*>& seen, std::vector<time_sync*>& order)
+{
+  if(seen.insert(&t).second == false)
+    return;
+
+  for (EventPtr& ev : t.get_time_events())
+  {
+    for (IntervalPtr& cst : ev->next_time_intervals())
+    {
+      if(!cst->graphal)
+        process_timesync_order(cst->get_end_event().get_time_sync(), seen, order);
+    }
+  }
+
+  order.insert(order.begin(), &t);
+}
+
+static void process_event_offset(
+    time_sync& timesync, ossia::time_value offset, past_events_map& pastEvents)
 {
   time_value date = timesync.get_date();
   auto get_event_status = [](const time_event& event) {
@@ -61,9 +80,6 @@ void process_offset(
 
   for (const std::shared_ptr<ossia::time_event>& ev_ptr : timesync.get_time_events())
   {
-    if(seen_events.insert(ev_ptr.get()).second == false)
-      continue;
-
     auto& event = *ev_ptr;
     time_event::status eventStatus;
 
@@ -106,6 +122,21 @@ void process_offset(
       }
     }
 
+    // an event which no interval reaches did not happen
+    bool reached = event.previous_time_intervals().empty();
+    bool disposed = !reached;
+    for (const auto& timeInterval : event.previous_time_intervals())
+    {
+      const auto status = timeInterval->get_start_event().get_status();
+      reached |= timeInterval->graphal || status == time_event::status::HAPPENED;
+      disposed &= !timeInterval->graphal && status == time_event::status::DISPOSED;
+    }
+    if (!reached)
+    {
+      eventStatus = disposed ? time_event::status::DISPOSED
+                             : time_event::status::NONE;
+    }
+
     // setup event status
     event.set_status(eventStatus);
 
@@ -116,16 +147,21 @@ void process_offset(
       {
         pastEvents.insert(std::make_pair(date, ev_ptr.get()));
       }
-
-      // propagate offset processing to setup all TimeEvents
-      for (const auto& timeInterval : event.next_time_intervals())
-      {
-        process_offset(
-            timeInterval->get_end_event().get_time_sync(), offset, pastEvents, seen_events);
-      }
     }
   }
 }
+
+void process_offset(
+    time_sync& root, ossia::time_value offset, past_events_map& pastEvents)
+{
+  ossia::flat_set<time_sync*> seen;
+  std::vector<time_sync*> order;
+  process_timesync_order(root, seen, order);
+
+  for (time_sync* timesync : order)
+    process_event_offset(*timesync, offset, pastEvents);
+}
+
 void scenario::transport_impl(ossia::time_value offset)
 {
   if(offset == 0_tv)
@@ -141,8 +177,6 @@ void scenario::transport_impl(ossia::time_value offset)
   // offset state
   past_events_map pastEvents;
   pastEvents.container.reserve(this->m_intervals.size() * 1.5);
-  ossia::flat_set<ossia::time_event*> seen_events;
-  seen_events.container.reserve(pastEvents.container.size());
 
   m_runningIntervals.clear();
 
@@ -196,7 +230,7 @@ void scenario::transport_impl(ossia::time_value offset)
   }
 
   // propagate offset from the first TimeSync
-  process_offset(*m_nodes[0], offset, pastEvents, seen_events);
+  process_offset(*m_nodes[0], offset, pastEvents);
 
   // offset all TimeIntervals
   for (const auto& timeInterval : m_intervals)
@@ -240,10 +274,13 @@ void scenario::offset_impl(ossia::time_value offset)
   // offset state
   past_events_map pastEvents;
   pastEvents.container.reserve(this->m_intervals.size() * 1.5);
-  ossia::flat_set<ossia::time_event*> seen_events;
-  seen_events.container.reserve(pastEvents.container.size());
 
   m_runningIntervals.clear();
+  m_waitingNodes.clear();
+
+  // What was played before has no effect anymore
+  for (const auto& node : m_nodes)
+    node->reset();
 
   // Precompute the default date of every timesync.
   ossia::ptr_map<time_sync*, ossia::time_value> time_map;
@@ -295,7 +332,7 @@ void scenario::offset_impl(ossia::time_value offset)
   }
 
   // propagate offset from the first TimeSync
-  process_offset(*m_nodes[0], offset, pastEvents, seen_events);
+  process_offset(*m_nodes[0], offset, pastEvents);
 
   // build offset state from all ordered past events
   if (unmuted())
@@ -342,6 +379,10 @@ void scenario::offset_impl(ossia::time_value offset)
       cst.offset(intervalOffset);
       m_runningIntervals.insert(&cst);
     }
+    else
+    {
+      cst.offset(Zero);
+    }
   }
 
   m_lastDate = offset;
-- 
2.43.0


From fd0dc071a547bd5280291e179e48e6b457c92782 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:50:49 +0000
Subject: [PATCH 086/107] fix: moving a scenario to another date starts and
 stops its intervals

---
 .../scenario/detail/scenario_offset.cpp       | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/ossia/editor/scenario/detail/scenario_offset.cpp b/src/ossia/editor/scenario/detail/scenario_offset.cpp
index 1f7abd6..3682643 100644
--- a/src/ossia/editor/scenario/detail/scenario_offset.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_offset.cpp
@@ -167,6 +167,8 @@ void scenario::transport_impl(ossia::time_value offset)
   if(offset == 0_tv)
   {
     stop();
+    for (const auto& timeInterval : m_intervals)
+      timeInterval->transport(Zero);
     start();
     return;
   }
@@ -179,6 +181,16 @@ void scenario::transport_impl(ossia::time_value offset)
   pastEvents.container.reserve(this->m_intervals.size() * 1.5);
 
   m_runningIntervals.clear();
+  m_waitingNodes.clear();
+  m_overticks.clear();
+  m_itv_end_map.clear();
+
+  // What was played before has no effect anymore
+  for (const auto& node : m_nodes)
+    node->reset();
+  for (auto node : m_rootNodes)
+    if (node != m_nodes[0].get())
+      m_waitingNodes.insert(node);
 
   // Precompute the default date of every timesync.
   ossia::ptr_map<time_sync*, ossia::time_value> time_map;
@@ -246,7 +258,11 @@ void scenario::transport_impl(ossia::time_value offset)
           });
 
     if (all_empty && &stn != m_nodes[0].get())
+    {
+      if (cst.running())
+        cst.stop();
       continue;
+    }
 
     // offset TimeInterval's Clock
     const time_value intervalOffset = offset - start_date;
@@ -255,10 +271,14 @@ void scenario::transport_impl(ossia::time_value offset)
         && sev.get_status() == time_event::status::HAPPENED)
     {
       cst.transport(intervalOffset);
+      if (!cst.running())
+        cst.start();
       m_runningIntervals.insert(&cst);
     }
     else
     {
+      if (cst.running())
+        cst.stop();
       cst.transport(Zero);
     }
   }
-- 
2.43.0


From ea02c370fb3fe1dc6c9a95c0b9758c0b904a03d7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:59:24 +0000
Subject: [PATCH 087/107] fix: Minuit: nodes without parameter and without
 children are mirrored as such

---
 src/ossia/network/minuit/detail/minuit_parser.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/minuit/detail/minuit_parser.hpp b/src/ossia/network/minuit/detail/minuit_parser.hpp
index 94afca2..5bec6f0 100644
--- a/src/ossia/network/minuit/detail/minuit_parser.hpp
+++ b/src/ossia/network/minuit/detail/minuit_parser.hpp
@@ -248,7 +248,7 @@ struct minuit_behavior<minuit_command::Request, minuit_operation::Namespace>
       if (!node)
         return;
 
-      if (node->children().empty())
+      if (node->children().empty() && node->get_parameter())
       {
         handle_data(proto, address);
       }
@@ -582,6 +582,9 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Namespace>
     auto sub_request
         = proto.name_table.get_action(minuit_action::NamespaceRequest);
 
+    // Create the actual node
+    ossia::net::find_or_create_node(dev.get_root_node(), address);
+
     // Get the sub-nodes
     std::string child_address{address};
     if (child_address.back() != '/')
@@ -595,9 +598,6 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Namespace>
       // Address of the node to create
       child_address.append(child.begin(), child.end());
 
-      // Create the actual node
-      ossia::net::find_or_create_node(dev.get_root_node(), address);
-
       // request children
       proto.namespace_refresh(sub_request, child_address);
     }
-- 
2.43.0


From 67943baed5a7e999c5e78dbc9a9fb22e68145e08 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:00:03 +0000
Subject: [PATCH 088/107] fix: Minuit: read the priority, a number of any type

---
 src/ossia/network/minuit/detail/minuit_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/minuit/detail/minuit_parser.hpp b/src/ossia/network/minuit/detail/minuit_parser.hpp
index 5bec6f0..8bd52a4 100644
--- a/src/ossia/network/minuit/detail/minuit_parser.hpp
+++ b/src/ossia/network/minuit/detail/minuit_parser.hpp
@@ -480,7 +480,7 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Listen>
             }
             case minuit_attribute::Priority:
             {
-              ossia::net::set_priority(*node, mess_it->AsInt32());
+              ossia::net::set_priority(*node, AsNumber(mess_it));
               break;
             }
             case minuit_attribute::ValueStepSize:
-- 
2.43.0


From bc461984f68dfd91752bd642759a3cf94c7767ac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:01:26 +0000
Subject: [PATCH 089/107] fix: Minuit: tell the children of the nodes with a
 parameter

---
 src/ossia/network/minuit/detail/minuit_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/minuit/detail/minuit_parser.hpp b/src/ossia/network/minuit/detail/minuit_parser.hpp
index 8bd52a4..c665933 100644
--- a/src/ossia/network/minuit/detail/minuit_parser.hpp
+++ b/src/ossia/network/minuit/detail/minuit_parser.hpp
@@ -216,7 +216,7 @@ struct minuit_behavior<minuit_command::Request, minuit_operation::Namespace>
   {
     proto.sender().send(
         proto.name_table.get_action(minuit_action::NamespaceReply), address,
-        "Data", "attributes={", "type", "dataspace", "repetitionsFilter",
+        "Data", "nodes={", c, "}", "attributes={", "type", "dataspace", "repetitionsFilter",
         "service", "priority", "value", "rangeBounds", "rangeClipmode",
         "dataspaceUnit", "}");
     std::this_thread::sleep_for(std::chrono::milliseconds(1));
-- 
2.43.0


From df0c1130c320e052e25de20365f4a997c3c96a9f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:02:12 +0000
Subject: [PATCH 090/107] fix: Minuit: receiving a type again does not reset
 the value

---
 src/ossia/network/minuit/detail/minuit_parser.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ossia/network/minuit/detail/minuit_parser.hpp b/src/ossia/network/minuit/detail/minuit_parser.hpp
index c665933..268cdba 100644
--- a/src/ossia/network/minuit/detail/minuit_parser.hpp
+++ b/src/ossia/network/minuit/detail/minuit_parser.hpp
@@ -431,9 +431,11 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Listen>
             }
             case minuit_attribute::Type:
             {
-              addr->set_value_type(ossia::minuit::type_from_minuit_type_text(
-                  mess_it->AsStringUnchecked()));
-
+              // The value received before is kept if this is already its type
+              const auto type = ossia::minuit::type_from_minuit_type_text(
+                  mess_it->AsStringUnchecked());
+              if (type != addr->get_value_type())
+                addr->set_value_type(type);
               break;
             }
             case minuit_attribute::RangeBounds:
-- 
2.43.0


From 1cac96deb8fa37eadb5f34b65939c9589815964f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:04:02 +0000
Subject: [PATCH 091/107] fix: Minuit: receiving a dataspace again does not
 reset the unit

---
 src/ossia/network/minuit/detail/minuit_parser.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/minuit/detail/minuit_parser.hpp b/src/ossia/network/minuit/detail/minuit_parser.hpp
index 268cdba..eb196cd 100644
--- a/src/ossia/network/minuit/detail/minuit_parser.hpp
+++ b/src/ossia/network/minuit/detail/minuit_parser.hpp
@@ -458,8 +458,12 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Listen>
             }
             case minuit_attribute::Dataspace:
             {
-              addr->set_unit(
-                  ossia::parse_dataspace(mess_it->AsStringUnchecked()));
+              // The unit received before is kept if it is in this dataspace
+              const auto unit
+                  = ossia::parse_dataspace(mess_it->AsStringUnchecked());
+              if (ossia::get_dataspace_text(unit)
+                  != ossia::get_dataspace_text(addr->get_unit()))
+                addr->set_unit(unit);
               break;
             }
             case minuit_attribute::DataspaceUnit:
-- 
2.43.0


From 553c829eac5ce8a1e66c2da19387e21ada35c4b1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:07:55 +0000
Subject: [PATCH 092/107] fix: Minuit: malformed messages are refused

---
 .../network/minuit/detail/minuit_common.hpp   |  8 ++---
 .../network/minuit/detail/minuit_parser.hpp   | 36 ++++++++++++-------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/ossia/network/minuit/detail/minuit_common.hpp b/src/ossia/network/minuit/detail/minuit_common.hpp
index 7024736..fcf10fa 100644
--- a/src/ossia/network/minuit/detail/minuit_common.hpp
+++ b/src/ossia/network/minuit/detail/minuit_common.hpp
@@ -110,7 +110,7 @@ inline ossia::value value_from_minuit_type_text(ossia::string_view str)
   // integer, decimal, string, generic, boolean, none, array.
   // we can differentiate them by the first character
 
-  switch (str[0])
+  switch (str.empty() ? char{} : str[0])
   {
     case 'i': // integer
       return int32_t{};
@@ -135,7 +135,7 @@ inline ossia::val_type type_from_minuit_type_text(ossia::string_view str)
   // integer, decimal, string, generic, boolean, none, array.
   // we can differentiate them by the first character
 
-  switch (str[0])
+  switch (str.empty() ? char{} : str[0])
   {
     case 'i': // integer
       return ossia::val_type::INT;
@@ -173,7 +173,7 @@ inline ossia::string_view to_minuit_service_text(ossia::access_mode acc)
 
 inline ossia::access_mode from_minuit_service_text(ossia::string_view str)
 {
-  switch (str[0])
+  switch (str.empty() ? char{} : str[0])
   {
     case 'p':
       return ossia::access_mode::BI;
@@ -211,7 +211,7 @@ inline ossia::string_view to_minuit_bounding_text(ossia::bounding_mode b)
 
 inline ossia::bounding_mode from_minuit_bounding_text(ossia::string_view str)
 {
-  switch (str[0])
+  switch (str.empty() ? char{} : str[0])
   {
     case 'n': // none
       return ossia::bounding_mode::FREE;
diff --git a/src/ossia/network/minuit/detail/minuit_parser.hpp b/src/ossia/network/minuit/detail/minuit_parser.hpp
index eb196cd..907d27a 100644
--- a/src/ossia/network/minuit/detail/minuit_parser.hpp
+++ b/src/ossia/network/minuit/detail/minuit_parser.hpp
@@ -383,7 +383,7 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Listen>
   {
     ossia::string_view full_address;
     auto mess_it = mess.ArgumentsBegin();
-    full_address = mess_it->AsStringUnchecked();
+    full_address = mess_it->AsString();
     auto idx = full_address.find_first_of(":");
 
     if (idx == std::string::npos)
@@ -417,6 +417,13 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Listen>
 
       if (auto node = ossia::net::find_node(dev.get_root_node(), address))
         if (auto addr = node->get_parameter())
+        {
+          // Only the bounds and the value can be empty
+          if (mess_it == mess.ArgumentsEnd()
+              && attr != minuit_attribute::Value
+              && attr != minuit_attribute::RangeBounds)
+            return full_address;
+
           switch (attr)
           {
             case minuit_attribute::Value:
@@ -433,7 +440,7 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Listen>
             {
               // The value received before is kept if this is already its type
               const auto type = ossia::minuit::type_from_minuit_type_text(
-                  mess_it->AsStringUnchecked());
+                  mess_it->AsString());
               if (type != addr->get_value_type())
                 addr->set_value_type(type);
               break;
@@ -447,20 +454,20 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Listen>
             case minuit_attribute::RangeClipMode:
             {
               addr->set_bounding(
-                  from_minuit_bounding_text(mess_it->AsStringUnchecked()));
+                  from_minuit_bounding_text(mess_it->AsString()));
               break;
             }
             case minuit_attribute::RepetitionFilter:
             {
               addr->set_repetition_filter(
-                  static_cast<repetition_filter>(mess_it->AsInt32Unchecked()));
+                  static_cast<repetition_filter>(mess_it->AsInt32()));
               break;
             }
             case minuit_attribute::Dataspace:
             {
               // The unit received before is kept if it is in this dataspace
               const auto unit
-                  = ossia::parse_dataspace(mess_it->AsStringUnchecked());
+                  = ossia::parse_dataspace(mess_it->AsString());
               if (ossia::get_dataspace_text(unit)
                   != ossia::get_dataspace_text(addr->get_unit()))
                 addr->set_unit(unit);
@@ -469,19 +476,19 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Listen>
             case minuit_attribute::DataspaceUnit:
             {
               addr->set_unit(ossia::parse_unit(
-                  mess_it->AsStringUnchecked(), addr->get_unit()));
+                  mess_it->AsString(), addr->get_unit()));
               break;
             }
             case minuit_attribute::Service:
             {
               addr->set_access(
-                  from_minuit_service_text(mess_it->AsStringUnchecked()));
+                  from_minuit_service_text(mess_it->AsString()));
               break;
             }
             case minuit_attribute::Description:
             {
               ossia::net::set_description(
-                  *node, std::string(mess_it->AsStringUnchecked()));
+                  *node, std::string(mess_it->AsString()));
               break;
             }
             case minuit_attribute::Priority:
@@ -497,6 +504,7 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Listen>
             default:
               break;
           }
+        }
     }
     return full_address;
   }
@@ -544,9 +552,10 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Namespace>
              && ossia::string_view(mess.AsStringUnchecked()) == s;
     });
 
-    ++nodes_beg_it; // It will point on the first past "nodes={".
     if (nodes_beg_it != end_it)
     {
+      ++nodes_beg_it; // It will point on the first past "nodes={".
+
       auto nodes_end_it = find_if(nodes_beg_it, end_it, [](const auto& mess) {
         return mess.IsString() && mess.AsStringUnchecked()[0] == '}'
                && mess.AsStringUnchecked()[1] == '\0';
@@ -556,7 +565,7 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Namespace>
       {
         for (auto it = nodes_beg_it; it != nodes_end_it; ++it)
         {
-          elements.push_back(it->AsStringUnchecked());
+          elements.push_back(it->AsString());
         }
       }
     }
@@ -593,7 +602,7 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Namespace>
 
     // Get the sub-nodes
     std::string child_address{address};
-    if (child_address.back() != '/')
+    if (child_address.empty() || child_address.back() != '/')
       child_address += '/';
     const auto child_parameter_size = child_address.size();
 
@@ -717,6 +726,8 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Namespace>
   {
     auto it = mess.ArgumentsBegin();
     ossia::string_view address = it->AsString();
+    if (mess.ArgumentCount() < 2)
+      return;
     auto type = get_type((++it)->AsString()[0]);
 
     handle_minuit(proto, dev, address, type, it, mess.ArgumentsEnd());
@@ -741,7 +752,8 @@ public:
     // Look for either ':' or '?'
     auto idx = address.find_first_of(":?!");
 
-    if (idx != std::string::npos)
+    // Every message carries at least the address it is about
+    if (idx != std::string::npos && m.ArgumentCount() > 0)
     {
       auto req = get_command(address[idx]);
       auto op = get_operation(*(address.data() + idx + 1));
-- 
2.43.0


From e10e01eda0e0e2f2e7f0e017ebb249f31f9365a8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:33:05 +0000
Subject: [PATCH 093/107] fix: C API: strings are allocated the way
 ossia_string_free frees them

---
 src/ossia-c/ossia/ossia_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia-c/ossia/ossia_utils.hpp b/src/ossia-c/ossia/ossia_utils.hpp
index eb30012..438bd22 100644
--- a/src/ossia-c/ossia/ossia_utils.hpp
+++ b/src/ossia-c/ossia/ossia_utils.hpp
@@ -148,7 +148,8 @@ catch (...)
 inline char* copy_string(const std::string& str)
 {
   const auto n = str.size();
-  auto mbuffer = new char[n + 1];
+  // freed with ossia_string_free, which uses free
+  auto mbuffer = (char*)std::malloc(sizeof(char) * (n + 1));
   std::memcpy(mbuffer, str.data(), n);
   mbuffer[n] = 0;
   return mbuffer;
-- 
2.43.0


From 45c2be732a08edbf9bb076b0ecd3d7bf5736230e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:33:05 +0000
Subject: [PATCH 094/107] fix: C API: ossia_value_convert_list writes in its
 own array

---
 src/ossia-c/ossia/ossia_value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia-c/ossia/ossia_value.cpp b/src/ossia-c/ossia/ossia_value.cpp
index 28a5638..aff8c37 100644
--- a/src/ossia-c/ossia/ossia_value.cpp
+++ b/src/ossia-c/ossia/ossia_value.cpp
@@ -341,7 +341,7 @@ void ossia_value_convert_list(ossia_value_t val, ossia_value_t** out, size_t* si
 
   for(size_t i = 0; i < N; i++)
   {
-    *out[i] = convert(v[i]);
+    (*out)[i] = convert(v[i]);
   }
 }
 
-- 
2.43.0


From 3fbed49c81da7f8a282bf1aba062815bdab24d78 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:33:05 +0000
Subject: [PATCH 095/107] fix: C API: ossia_domain_set_values sets the values

---
 src/ossia-c/ossia/ossia_domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia-c/ossia/ossia_domain.cpp b/src/ossia-c/ossia/ossia_domain.cpp
index 3916792..d44c9b9 100644
--- a/src/ossia-c/ossia/ossia_domain.cpp
+++ b/src/ossia-c/ossia/ossia_domain.cpp
@@ -157,7 +157,7 @@ void ossia_domain_set_values(
     v.resize(size);
     for(size_t i = 0; i < size; i++)
     {
-      v[i] = in[i];
+      v[i] = in[i]->value;
     }
     ossia::set_values(domain->domain, std::move(v));
   });
-- 
2.43.0


From cfd9559d5a8366648385f19eaef9cc5dc7996480 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:33:05 +0000
Subject: [PATCH 096/107] fix: C API: ossia_node_get_child past the last child
 gives no node

---
 src/ossia-c/ossia/ossia_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia-c/ossia/ossia_node.cpp b/src/ossia-c/ossia/ossia_node.cpp
index 81dff16..bdb7168 100644
--- a/src/ossia-c/ossia/ossia_node.cpp
+++ b/src/ossia-c/ossia/ossia_node.cpp
@@ -199,7 +199,7 @@ ossia_node_t ossia_node_get_child(ossia_node_t node, int child_n)
     }
 
     auto n = convert_node(node);
-    if (n->children().size() < (std::size_t)child_n)
+    if (child_n < 0 || n->children().size() <= (std::size_t)child_n)
       return nullptr;
 
     return convert(n->children()[child_n].get());
-- 
2.43.0


From fdc4f3574d51b12bf0f1eb5924bd7dbd01e36bb4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:33:05 +0000
Subject: [PATCH 097/107] fix: C API: ossia_node_set_default_value sets the
 value given

---
 src/ossia-c/ossia/ossia_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia-c/ossia/ossia_node.cpp b/src/ossia-c/ossia/ossia_node.cpp
index bdb7168..5ea540d 100644
--- a/src/ossia-c/ossia/ossia_node.cpp
+++ b/src/ossia-c/ossia/ossia_node.cpp
@@ -735,7 +735,7 @@ void ossia_node_set_default_value(
     if(!default_value)
       ossia::net::set_default_value(n, std::nullopt);
     else
-      ossia::net::set_default_value(n, convert(default_value->value));
+      ossia::net::set_default_value(n, default_value->value);
   });
 }
 ossia_value_t ossia_node_get_default_value(
-- 
2.43.0


From 13c623c918646e41c1b11450eeee2ae8d4565e05 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:33:05 +0000
Subject: [PATCH 098/107] fix: C API: ossia_node_get_tags gives the number of
 tags

---
 src/ossia-c/ossia/ossia_node.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ossia-c/ossia/ossia_node.cpp b/src/ossia-c/ossia/ossia_node.cpp
index 5ea540d..ef2897a 100644
--- a/src/ossia-c/ossia/ossia_node.cpp
+++ b/src/ossia-c/ossia/ossia_node.cpp
@@ -467,6 +467,7 @@ void ossia_node_get_tags(
         ptr[i] = copy_string(vtags[i]);
       }
       *tags = ptr;
+      *size = vtags.size();
       return;
     }
   }
-- 
2.43.0


From c6cbef538f42145e910ac7c92d23b8fe10db76a6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:33:05 +0000
Subject: [PATCH 099/107] fix: C API: reading a parameter as another type gives
 nothing

---
 src/ossia-c/ossia/ossia_parameter.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ossia-c/ossia/ossia_parameter.cpp b/src/ossia-c/ossia/ossia_parameter.cpp
index e89f658..9bc5396 100644
--- a/src/ossia-c/ossia/ossia_parameter.cpp
+++ b/src/ossia-c/ossia/ossia_parameter.cpp
@@ -244,8 +244,10 @@ void ossia_parameter_to_byte_array(ossia_parameter_t address, char** out, size_t
     {
       const auto& val = convert_parameter(address)->value();
       if (auto casted_val = val.target<std::string>())
-      copy_bytes(*casted_val, out, size);
-      return;
+      {
+        copy_bytes(*casted_val, out, size);
+        return;
+      }
     }
     *out = nullptr;
     *size = 0;
@@ -289,8 +291,8 @@ void ossia_parameter_to_list(ossia_parameter_t parameter, ossia_value_t** out, s
           ptr[i] = convert((*casted_val)[i]);
         }
         *out = ptr;
+        return;
       }
-      return;
     }
 
     *out = nullptr;
@@ -318,8 +320,8 @@ void ossia_parameter_to_fn(ossia_parameter_t parameter, float** out, size_t* siz
           ptr[i] = (*casted_val)[i].get<float>();
         }
         *out = ptr;
+        return;
       }
-      return;
     }
 
     *out = nullptr;
@@ -347,8 +349,8 @@ void ossia_parameter_to_in(ossia_parameter_t parameter, int** out, size_t* size)
           ptr[i] = (*casted_val)[i].get<int>();
         }
         *out = ptr;
+        return;
       }
-      return;
     }
 
     *out = nullptr;
-- 
2.43.0


From ee3413c52691352283204e1f2cdf0fbbedf4d159 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:33:16 +0000
Subject: [PATCH 100/107] fix: C API: ossia_parameter_set_listening follows its
 argument

---
 src/ossia-c/ossia/ossia_parameter.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/ossia-c/ossia/ossia_parameter.cpp b/src/ossia-c/ossia/ossia_parameter.cpp
index 9bc5396..7104fa5 100644
--- a/src/ossia-c/ossia/ossia_parameter.cpp
+++ b/src/ossia-c/ossia/ossia_parameter.cpp
@@ -599,22 +599,22 @@ void ossia_parameter_set_listening(
     }
 
     auto addr = convert_parameter(address);
+    auto& attributes = (ossia::extended_attributes&)addr->get_node();
+    const ossia::string_view key = "_impl_callback";
+    auto cb_it = addr->get_node().get_attribute(key);
+    auto cb_ptr = ossia::any_cast<ossia::net::parameter_base::callback_index>(&cb_it);
     if(listening)
     {
-      auto cb_it = addr->get_node().get_attribute(ossia::string_view("_impl_callback"));
-      auto cb_ptr = ossia::any_cast<ossia::net::parameter_base::callback_index>(&cb_it);
-      if(cb_ptr)
+      if(!cb_ptr)
       {
-        addr->remove_callback(*cb_ptr);
+        auto it = addr->add_callback([] (const ossia::value&) { });
+        ossia::set_attribute(attributes, key, it);
       }
     }
-    else
+    else if(cb_ptr)
     {
-      auto it = addr->add_callback([] (const ossia::value&) { });
-      ossia::set_attribute(
-            (ossia::extended_attributes&)addr->get_node(),
-            ossia::string_view("_impl_callback"),
-            it);
+      addr->remove_callback(*cb_ptr);
+      ossia::unset_attribute(attributes, key);
     }
   });
 }
-- 
2.43.0


From 5c21638dcee2c31e83b6f52f10b7841380409e27 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:57:26 +0000
Subject: [PATCH 101/107] fix: C++98 API: removing the root as a child does
 nothing

---
 src/ossia-cpp/ossia-cpp98.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia-cpp/ossia-cpp98.cpp b/src/ossia-cpp/ossia-cpp98.cpp
index 13d62d9..dfe5e66 100644
--- a/src/ossia-cpp/ossia-cpp98.cpp
+++ b/src/ossia-cpp/ossia-cpp98.cpp
@@ -625,7 +625,8 @@ void node::remove_child(std::string addr)
   if (m_node)
   {
     if(auto cld = ossia::net::find_node(*m_node, addr))
-      cld->get_parent()->remove_child(*cld);
+      if(auto p = cld->get_parent())
+        p->remove_child(*cld);
   }
 }
 
-- 
2.43.0


From b7ab7037d627556fcdd3184ef6c4caca7e116d69 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:57:50 +0000
Subject: [PATCH 102/107] fix: C++98 API: a node assigned to itself stays the
 same

---
 src/ossia-cpp/ossia-cpp98.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ossia-cpp/ossia-cpp98.cpp b/src/ossia-cpp/ossia-cpp98.cpp
index dfe5e66..e80e810 100644
--- a/src/ossia-cpp/ossia-cpp98.cpp
+++ b/src/ossia-cpp/ossia-cpp98.cpp
@@ -388,6 +388,9 @@ node::node(ossia::net::node_base* b, ossia::net::parameter_base* a)
 
 node& node::operator=(const node& other)
 {
+  if (this == &other)
+    return *this;
+
   if (m_node)
     cleanup(*m_node);
 
@@ -401,6 +404,9 @@ node& node::operator=(const node& other)
 
 node& node::operator=(node&& other)
 {
+  if (this == &other)
+    return *this;
+
   if (m_node)
     cleanup(*m_node);
 
-- 
2.43.0


From d9f65431daf036ec186cfe4d4a32d598aa560dc9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:58:38 +0000
Subject: [PATCH 103/107] fix: C++98 API: the accepted values are given one by
 one

---
 src/ossia-cpp/ossia-cpp98.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia-cpp/ossia-cpp98.cpp b/src/ossia-cpp/ossia-cpp98.cpp
index e80e810..f70b944 100644
--- a/src/ossia-cpp/ossia-cpp98.cpp
+++ b/src/ossia-cpp/ossia-cpp98.cpp
@@ -1553,7 +1553,7 @@ std::vector<value> node::get_accepted_values() const
     auto dom = m_param->get_domain();
     auto v = ossia::get_values(dom);
     for (const auto& val : v) {
-      out.push_back(opp::value(v));
+      out.push_back(opp::value(val));
     }
   }
   return out;
-- 
2.43.0


From 28c98774e03782f2e3e0533c4d7bacc24d10c11b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:59:34 +0000
Subject: [PATCH 104/107] fix: C++98 API: set_rgba8 keeps the parameter it
 creates

---
 src/ossia-cpp/ossia-cpp98.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia-cpp/ossia-cpp98.cpp b/src/ossia-cpp/ossia-cpp98.cpp
index f70b944..bb18f55 100644
--- a/src/ossia-cpp/ossia-cpp98.cpp
+++ b/src/ossia-cpp/ossia-cpp98.cpp
@@ -799,7 +799,7 @@ void node::set_rgba8()
   if (m_node)
   {
     m_node->remove_parameter();
-    ossia::setup_parameter(ossia::rgba8_u{}, *m_node);
+    m_param = ossia::setup_parameter(ossia::rgba8_u{}, *m_node);
   }
 }
 
-- 
2.43.0


From 98d995f073eaa6698ac0e9fe2a23daf4c425628b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 08:02:13 +0000
Subject: [PATCH 105/107] fix: C++98 API: copying an empty callback_index gives
 an empty one

---
 src/ossia-cpp/ossia-cpp98.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ossia-cpp/ossia-cpp98.cpp b/src/ossia-cpp/ossia-cpp98.cpp
index bb18f55..eeafe9a 100644
--- a/src/ossia-cpp/ossia-cpp98.cpp
+++ b/src/ossia-cpp/ossia-cpp98.cpp
@@ -326,6 +326,7 @@ callback_index::~callback_index()
 }
 
 callback_index::callback_index(const callback_index& other)
+  : index{}
 {
   if(other.index)
     index = new impl{*other.index};
-- 
2.43.0


From 9aad69cfa764dd1efd02d2e52cebbbcd5ecde4dc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 08:02:13 +0000
Subject: [PATCH 106/107] fix: C++98 API: a node keeps following the parameters
 created after the first removal

---
 src/ossia-cpp/ossia-cpp98.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ossia-cpp/ossia-cpp98.cpp b/src/ossia-cpp/ossia-cpp98.cpp
index eeafe9a..004c103 100644
--- a/src/ossia-cpp/ossia-cpp98.cpp
+++ b/src/ossia-cpp/ossia-cpp98.cpp
@@ -447,11 +447,8 @@ void node::cleanup(const ossia::net::node_base&)
 void node::cleanup_parameter(const ossia::net::parameter_base& param)
 {
   //make sure the cleaned up parameter belongs to this node
-  if (m_param && m_param == &param) {
-    if (m_node)
-      m_node->get_device().on_parameter_removing.disconnect<&node::cleanup_parameter>(*this);
+  if (m_param && m_param == &param)
     m_param = nullptr;
-  }
 }
 
 node::~node()
-- 
2.43.0


From 8422a548995692dc4ed36228c7f03bcf98ad7b48 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 08:02:13 +0000
Subject: [PATCH 107/107] fix: C++98 API: the remove-node callback gets its own
 context

---
 src/ossia-cpp/ossia-cpp98.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia-cpp/ossia-cpp98.cpp b/src/ossia-cpp/ossia-cpp98.cpp
index 004c103..d60f47d 100644
--- a/src/ossia-cpp/ossia-cpp98.cpp
+++ b/src/ossia-cpp/ossia-cpp98.cpp
@@ -2137,7 +2137,7 @@ void oscquery_server::on_remove_node_request(const std::string& parent, const st
 {
   if(m_remove_node_cb)
   {
-    if(m_remove_node_cb(m_add_node_ctx, parent))
+    if(m_remove_node_cb(m_remove_node_ctx, parent))
     {
       auto nodes = ossia::net::find_nodes(m_dev->get_root_node(), parent);
       for(auto n : nodes)
-- 
2.43.0

