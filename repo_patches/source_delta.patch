From d37234ee00dfed8816710f8c5286ff6dec54e500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:27 +0000
Subject: [PATCH 01/29] fix: order IPv6 addresses by scope id only when their
 bytes are equal (C++ < 20)

---
 include/ipaddress/ipv6-address.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index ed081ff..6e9414c 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -811,7 +811,7 @@ protected:
         return lhs._data.bytes < rhs._data.bytes 
         
         #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
-            ? true : lhs._data.scope_id.compare(rhs._data.scope_id) < 0;
+            || (lhs._data.bytes == rhs._data.bytes && lhs._data.scope_id.compare(rhs._data.scope_id) < 0)
         #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
             ;
     }
-- 
2.43.0


From c73af92805e73dc4d3edf7b8340e5023c6790620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:27 +0000
Subject: [PATCH 02/29] fix: ipv4_mapped requires the first 80 bits to be zero

---
 include/ipaddress/ipv6-address.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index 6e9414c..bd218de 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -721,6 +721,11 @@ public:
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE optional<ipv4_address> ipv4_mapped() const IPADDRESS_NOEXCEPT {
         const auto& b = bytes();
+        for (size_t i = 0; i < 10; ++i) {
+            if (b[i] != 0) {
+                return nullptr;
+            }
+        }
         if (b[10] != 0xFF || b[11] != 0xFF) {
             return nullptr;
         } 
-- 
2.43.0


From 419f32a170093f2ea9b9b0ce10e9838a7427a709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:48 +0000
Subject: [PATCH 03/29] fix: reject prefix lengths whose digits overflow size_t

---
 include/ipaddress/base-v4.hpp | 4 +++-
 include/ipaddress/base-v6.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index 3a225ee..2009743 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -191,7 +191,9 @@ protected:
                 return std::make_tuple(ip_address_base<Ext>(), 0);
             }
             if (c >= '0' && c <= '9') {
-                prefixlen = prefixlen * 10 + (c - '0');
+                if (prefixlen <= base_max_prefixlen) { // a larger value is already invalid; do not overflow
+                    prefixlen = prefixlen * 10 + (c - '0');
+                }
             } else {
                 is_value = false;
                 break;
diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 2f155cb..ae6c4dc 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -253,7 +253,9 @@ protected:
                 return std::make_tuple(ip_address_base<Ext>(), 0);
             }
             if (c >= '0' && c <= '9') {
-                prefixlen = prefixlen * 10 + (c - '0');
+                if (prefixlen <= base_max_prefixlen) { // a larger value is already invalid; do not overflow
+                    prefixlen = prefixlen * 10 + (c - '0');
+                }
             } else {
                 code = error_code::invalid_netmask;
                 return std::make_tuple(ip_address_base<Ext>(), 0);
-- 
2.43.0


From a7a02cad64eb1d6f7c350ed9b2ddc6ffcc92bf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:48 +0000
Subject: [PATCH 04/29] fix: treat the all-zeroes netmask as prefix length 0

---
 include/ipaddress/base-v4.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index 2009743..8a6c9d9 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -242,6 +242,9 @@ protected:
 
 private:
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE size_t prefix_from_ip_uint32(uint_type ip, error_code& code) IPADDRESS_NOEXCEPT {
+        if (ip == 0) {
+            return 0;
+        }
         auto trailing_zeroes = count_righthand_zero_bits(ip, base_max_prefixlen);
         auto prefixlen = base_max_prefixlen - trailing_zeroes;
         auto leading_ones = trailing_zeroes != 32 ? (ip >> trailing_zeroes) : 0;
-- 
2.43.0


From 6aaa9451b1e8105eb5664a8d6336ff3946aa6a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:40 +0000
Subject: [PATCH 05/29] fix: parse the whole address part of a network instead
 of a truncated copy

---
 include/ipaddress/ip-network-base.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 04a8136..7abd46e 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1260,9 +1260,10 @@ private:
         auto end = str.data() + str.size();
         auto has_slash = false;
         auto netmask = end;
-        auto symbol = 0;
-        char address[ip_address_type::base_max_string_len + 1] = {};
+        const auto address = it;
+        auto address_end = end;
         while (it < end) {
+            const auto symbol = it;
             const auto c = internal::next_char_or_error(it, end, code, code_value);
             if (code != error_code::no_error) {
                 return ip_network_base<Base>();
@@ -1276,15 +1277,10 @@ private:
                     code = error_code::empty_netmask;
                     return ip_network_base<Base>();
                 }
+                address_end = symbol;
                 netmask = it;
                 has_slash = true;
             }
-            if (!has_slash) {
-                address[symbol++] = c;
-            }
-            if (symbol > ip_address_type::base_max_string_len) {
-                break;
-            }
         }
 
         auto netmask_result = ip_address_type::parse_netmask(netmask, end, code, code_value);
@@ -1294,7 +1290,8 @@ private:
         }
 
         ip_network_base<Base> result;
-        result._network_address = ip_address_type::parse(address, code);
+        uint32_t address_value = 0;
+        result._network_address = ip_address_type::ip_from_string(address, address_end, code, address_value);
         result._netmask = std::get<0>(netmask_result);
         result._prefixlen = std::get<1>(netmask_result);
 
-- 
2.43.0


From 4b916be51cbcb3946c7794663ae8f65ff6083d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:40 +0000
Subject: [PATCH 06/29] fix: reject NUL characters inside IPv6 addresses and
 scope ids

---
 include/ipaddress/base-v6.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index ae6c4dc..029a954 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -20,7 +20,7 @@ namespace IPADDRESS_NAMESPACE {
 namespace internal {
 
 IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_invalid_scope_id_symbol(char c) IPADDRESS_NOEXCEPT {
-    return c == '%' || c == '/' 
+    return c == '\0' || c == '%' || c == '/' 
 #ifndef IPADDRESS_SCOPE_ID_SUPPORT_SPACES
     || c == ' ' || (c >= '\t' && c <= '\r')
 #endif // IPADDRESS_SCOPE_ID_SUPPORT_SPACES
@@ -373,6 +373,10 @@ private:
                     : error_code::most_8_colons_permitted;
                 return empty_parts;
             }
+            if (c == '\0') {
+                error = error_code::part_has_invalid_symbol;
+                return empty_parts;
+            }
             if (c != ':') {
                 if (symbol > 15) {
                     error = error_code::part_is_more_4_chars;
-- 
2.43.0


From 3e5f41ec85e3a2f8e706fc0154aab4f8ed9e9aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:26 +0000
Subject: [PATCH 07/29] fix: from_address reports a prefix length that exceeds
 the address width

---
 include/ipaddress/ip-network-base.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 7abd46e..af9068e 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -457,9 +457,15 @@ public:
     ) IPADDRESS_NOEXCEPT {
         code = error_code::no_error;
 
+        ip_network_base result;
+
+        if (prefixlen > ip_address_type::base_max_prefixlen) {
+            code = error_code::invalid_netmask;
+            return result;
+        }
+
         const auto netmask = ip_address_type::ip_from_prefix(prefixlen); 
 
-        ip_network_base result;
         result._network_address = ip_address_type::strict_netmask(address, netmask, strict, code);
 
         if (code != error_code::no_error) {
-- 
2.43.0


From 9032dd781aa20f8bd0230a1a4a17f0180d9cd6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:26 +0000
Subject: [PATCH 08/29] fix: supernet does not shift the netmask by the whole
 address width

---
 include/ipaddress/ip-network-base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index af9068e..d0d72b6 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1133,8 +1133,8 @@ public:
         }
 
         const auto new_prefix = prefixlen() - prefixlen_diff;
-        const auto address = ip_address_type::from_uint(network_address().to_uint() & (netmask().to_uint() << prefixlen_diff));
-        return ip_network_base<Base>::from_address(address, new_prefix);
+        const auto address = ip_address_type::from_uint(network_address().to_uint());
+        return ip_network_base<Base>::from_address(address, code, new_prefix, false);
     }
 
     /**
-- 
2.43.0


From 3d63c56d341e2a5b727888c5a4f405a3f28fa90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:26 +0000
Subject: [PATCH 09/29] fix: subnets does not overflow on a huge prefixlen_diff

---
 include/ipaddress/ip-network-base.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index d0d72b6..e496b4e 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1044,13 +1044,13 @@ public:
             prefixlen_diff = new_prefixlen.value() - prefixlen();
         }
 
-        auto new_prefix = prefixlen() + prefixlen_diff;
-
-        if (new_prefix > ip_address_type::base_max_prefixlen) {
+        if (prefixlen_diff > ip_address_type::base_max_prefixlen - prefixlen()) {
             code = error_code::invalid_prefixlen_diff;
             return subnets_sequence<ip_network_base<Base>>();
         }
 
+        auto new_prefix = prefixlen() + prefixlen_diff;
+
         return subnets_sequence<ip_network_base<Base>>(address, broadcast_address(), hostmask(), prefixlen_diff, new_prefix);
     }
 
-- 
2.43.0


From 15ea59bf3fe6c214c941332c481583f8f8c80ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:26 +0000
Subject: [PATCH 10/29] fix: address_exclude and subnets clear the error code
 on success

---
 include/ipaddress/ip-network-base.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index e496b4e..3e0ac0a 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -944,6 +944,8 @@ public:
      * @remark `exclude_network_sequence` uses lazy evaluation to iterate networks.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE exclude_network_sequence<ip_network_base<Base>> address_exclude(const ip_network_base& other, error_code& code) const IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
+
         auto lhs = Base::remove_scope_id(*this);
         auto rhs = Base::remove_scope_id(other);
 
@@ -1026,6 +1028,8 @@ public:
      * @remark `subnets_sequence` uses lazy evaluation to iterate over the subnets.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE subnets_sequence<ip_network_base<Base>> subnets(error_code& code, size_t prefixlen_diff = 1, optional<size_t> new_prefixlen = nullptr) const IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
+
         auto address = Base::remove_scope_id(network_address());
 
         if (prefixlen() == ip_address_type::base_max_prefixlen) {
-- 
2.43.0


From caed88b534d3d6e8789d3c264c30b08057644a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:41 +0000
Subject: [PATCH 11/29] fix: hosts and subnets that end at the last address
 have a reachable end

---
 include/ipaddress/ip-address-iterator.hpp | 4 ++--
 include/ipaddress/ip-network-iterator.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index dcbfc15..e2a4357 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -891,7 +891,7 @@ public:
             const auto begin = value_type::from_uint(network_address.to_uint());
             const auto end = value_type::from_uint(broadcast_address.to_uint() + 1);
             _begin = const_iterator(begin);
-            _end = const_iterator(end);
+            _end = const_iterator(end, end < begin ? 1 : 0);
         } else if (prefixlen == max_prefixlen) {
             const auto begin = value_type::from_uint(network_address.to_uint());
             const auto end = value_type::from_uint(network_address.to_uint() + 1);
@@ -901,7 +901,7 @@ public:
             const auto begin = value_type::from_uint(network_address.to_uint() + 1);
             const auto end = value_type::from_uint(broadcast_address.to_uint() + (std::is_same<value_type, ipv6_address>::value ? 1 : 0));
             _begin = const_iterator(begin);
-            _end = const_iterator(end);
+            _end = const_iterator(end, end < begin ? 1 : 0);
         }
     }
 
diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index a40e03c..5f3680c 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -736,7 +736,7 @@ public:
         const auto end = ip_address_type::from_uint(end_uint + 1);
         const auto step = (hostmask.to_uint() >> prefixlen_diff) + 1;
         _begin = const_iterator(begin, step, new_prefixlen);
-        _end = const_iterator(end, step, new_prefixlen, begin == end ? 1 : 0);
+        _end = const_iterator(end, step, new_prefixlen, end <= begin ? 1 : 0);
         _size = (end_uint - begin_uint) / step + 1;
     }
 
-- 
2.43.0


From d422f7a3979cb35c569470049f3cb21a4a762328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:04 +0000
Subject: [PATCH 12/29] fix: iterators moved below the first address compare
 less than the range

---
 include/ipaddress/ip-address-iterator.hpp | 8 ++++----
 include/ipaddress/ip-network-iterator.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index e2a4357..85ad37b 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -792,7 +792,7 @@ private:
         const auto old = result._offset;
         ++result._offset;
         if (result._offset < old) {
-            result._carry = 1 - result._carry;
+            ++result._carry;
         }
         result._current = value_type::from_uint(result._offset);
         return result;
@@ -803,7 +803,7 @@ private:
         const auto old = result._offset;
         --result._offset;
         if (result._offset > old) {
-            result._carry = 1 - result._carry;
+            --result._carry;
         }
         result._current = value_type::from_uint(result._offset);
         return result;
@@ -814,7 +814,7 @@ private:
             const auto old = _offset;
             _offset += n;
             if (_offset < old) {
-                _carry = 1 - _carry;
+                ++_carry;
             }
             _current = value_type::from_uint(_offset);
         }
@@ -825,7 +825,7 @@ private:
             const auto old = _offset;
             _offset -= n;
             if (_offset > old) {
-                _carry = 1 - _carry;
+                --_carry;
             }
             _current = value_type::from_uint(_offset);
         }
diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index 5f3680c..4ac1e28 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -406,7 +406,7 @@ private:
         const auto old = result._it._offset;
         result._it._offset += _step;
         if (result._it._offset < old) {
-            result._it._carry = 1 - result._it._carry;
+            ++result._it._carry;
         }
         result._it._current = ip_address_type::from_uint(result._it._offset);
         result._current = value_type::from_address(*result._it, result._prefixlen);
@@ -418,7 +418,7 @@ private:
         const auto old = result._it._offset;
         result._it._offset -= _step;
         if (result._it._offset > old) {
-        result._it._carry = 1 - result._it._carry;
+            --result._it._carry;
         }
         result._it._current = ip_address_type::from_uint(result._it._offset);
         result._current = value_type::from_address(*result._it, result._prefixlen);
-- 
2.43.0


From cdeadae148b5115fb034fd5d66ee17a876ef4983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:04 +0000
Subject: [PATCH 13/29] fix: moving an iterator by a negative offset keeps its
 carry consistent

---
 include/ipaddress/ip-address-iterator.hpp | 12 ++++++++++--
 include/ipaddress/ip-any-iterator.hpp     | 12 ++++++++++--
 include/ipaddress/ip-network-iterator.hpp | 12 ++++++++++--
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index 85ad37b..f8bd2db 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -555,7 +555,11 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        if (n < 0) {
+            sub(uint_type(uint64_t(0) - uint64_t(n)));
+        } else {
+            add(uint_type(n));
+        }
         return *this;
     }
 
@@ -581,7 +585,11 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        if (n < 0) {
+            add(uint_type(uint64_t(0) - uint64_t(n)));
+        } else {
+            sub(uint_type(n));
+        }
         return *this;
     }
 
diff --git a/include/ipaddress/ip-any-iterator.hpp b/include/ipaddress/ip-any-iterator.hpp
index a4fa14b..61278a0 100644
--- a/include/ipaddress/ip-any-iterator.hpp
+++ b/include/ipaddress/ip-any-iterator.hpp
@@ -177,7 +177,11 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_any_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        if (n < 0) {
+            sub(uint128_t(uint64_t(0) - uint64_t(n)));
+        } else {
+            add(uint128_t(n));
+        }
         return *this;
     }
 
@@ -203,7 +207,11 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_any_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        if (n < 0) {
+            add(uint128_t(uint64_t(0) - uint64_t(n)));
+        } else {
+            sub(uint128_t(n));
+        }
         return *this;
     }
 
diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index 4ac1e28..a2a2e04 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -169,7 +169,11 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        if (n < 0) {
+            sub(uint_type(uint64_t(0) - uint64_t(n)));
+        } else {
+            add(uint_type(n));
+        }
         return *this;
     }
 
@@ -195,7 +199,11 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        if (n < 0) {
+            add(uint_type(uint64_t(0) - uint64_t(n)));
+        } else {
+            sub(uint_type(n));
+        }
         return *this;
     }
 
-- 
2.43.0


From c7f172118d915eae64eb3eea5a76ed91d1e8e7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:04 +0000
Subject: [PATCH 14/29] fix: iterator differences are signed and counted in
 elements

---
 include/ipaddress/ip-address-iterator.hpp | 3 +++
 include/ipaddress/ip-any-iterator.hpp     | 2 +-
 include/ipaddress/ip-network-iterator.hpp | 5 ++++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index f8bd2db..41bcd04 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -697,6 +697,9 @@ public:
      * @return The number of elements between this and the other iterator.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type operator-(const ip_address_iterator& other) const IPADDRESS_NOEXCEPT {
+        if (_carry < other._carry || (_carry == other._carry && _offset < other._offset)) {
+            return difference_type(uint64_t(0) - uint64_t(other._offset - _offset));
+        }
         return difference_type(_offset - other._offset);
     }
 
diff --git a/include/ipaddress/ip-any-iterator.hpp b/include/ipaddress/ip-any-iterator.hpp
index 61278a0..d68e14d 100644
--- a/include/ipaddress/ip-any-iterator.hpp
+++ b/include/ipaddress/ip-any-iterator.hpp
@@ -382,7 +382,7 @@ public:
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator<(const ip_any_iterator& other) const IPADDRESS_NOEXCEPT {
         if (_version != other._version) {
-            return false;
+            return _version < other._version;
         }
         return _version == ip_version::V4 ? _iter.iter4 < other._iter.iter4 : _iter.iter6 < other._iter.iter6;
     }
diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index a2a2e04..9b26781 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -311,7 +311,10 @@ public:
      * @return The number of elements between this and the other iterator.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type operator-(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return difference_type(_it - other._it);
+        if (_it._carry < other._it._carry || (_it._carry == other._it._carry && _it._offset < other._it._offset)) {
+            return difference_type(uint64_t(0) - uint64_t(other.uint_diff(*this)));
+        }
+        return difference_type(uint_diff(other));
     }
 
     /**
-- 
2.43.0


From d737c66834224b7df54c937c219419f1278fb709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:23 +0000
Subject: [PATCH 15/29] fix: iterate subnets whose step or range spans the
 whole address space

---
 include/ipaddress/ip-network-iterator.hpp | 28 +++++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index 9b26781..125c508 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -67,7 +67,11 @@ public:
      *         which can correctly represent all addresses using the integer number uint128_t
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE uint_type uint_diff(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return _it.uint_diff(other._it) / _step;
+        const auto diff = _it.uint_diff(other._it);
+        if (diff == 0 && _it._carry != other._it._carry) { // all addresses lie between the iterators
+            return _step != 0 ? (uint_type(0) - _step) / _step + 1 : uint_type(1);
+        }
+        return _step != 0 ? diff / _step : uint_type(0);
     }
 
     /**
@@ -416,7 +420,7 @@ private:
         auto result = *this;
         const auto old = result._it._offset;
         result._it._offset += _step;
-        if (result._it._offset < old) {
+        if (result._it._offset <= old) {
             ++result._it._carry;
         }
         result._it._current = ip_address_type::from_uint(result._it._offset);
@@ -428,7 +432,7 @@ private:
         auto result = *this;
         const auto old = result._it._offset;
         result._it._offset -= _step;
-        if (result._it._offset > old) {
+        if (result._it._offset >= old) {
             --result._it._carry;
         }
         result._it._current = ip_address_type::from_uint(result._it._offset);
@@ -437,12 +441,20 @@ private:
     }
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void add(const uint_type& n) IPADDRESS_NOEXCEPT {
-        _it += _step * n;
+        const auto offset = _step * n;
+        if (offset == 0 && n != 0) { // over all addresses
+            ++_it._carry;
+        }
+        _it += offset;
         _current = value_type::from_address(*_it, _prefixlen);
     }
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void sub(const uint_type& n) IPADDRESS_NOEXCEPT {
-        _it -= _step * n;
+        const auto offset = _step * n;
+        if (offset == 0 && n != 0) { // over all addresses
+            --_it._carry;
+        }
+        _it -= offset;
         _current = value_type::from_address(*_it, _prefixlen);
     }
 
@@ -745,10 +757,12 @@ public:
         const auto end_uint = broadcast_address.to_uint();
         const auto begin = ip_address_type::from_uint(begin_uint);
         const auto end = ip_address_type::from_uint(end_uint + 1);
-        const auto step = (hostmask.to_uint() >> prefixlen_diff) + 1;
+        const auto step = prefixlen_diff < ip_address_type::base_max_prefixlen
+            ? (hostmask.to_uint() >> prefixlen_diff) + 1
+            : difference_type(1);
         _begin = const_iterator(begin, step, new_prefixlen);
         _end = const_iterator(end, step, new_prefixlen, end <= begin ? 1 : 0);
-        _size = (end_uint - begin_uint) / step + 1;
+        _size = step != 0 ? (end_uint - begin_uint) / step + 1 : difference_type(1); // a step of 0 spans all addresses
     }
 
     /**
-- 
2.43.0


From 6db916f0bfd5c9c10d75613c964eb35f07fc902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:47 +0000
Subject: [PATCH 16/29] fix: shifting uint128_t by its whole width gives zero

---
 include/ipaddress/uint128.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index e4dfa96..71b0462 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -950,7 +950,7 @@ public:
         if (!shift) {
             return *this;
         }
-        if (shift >= 64 && shift <= 128) {
+        if (shift >= 64 && shift < 128) {
             return { _lower << (shift - 64), 0 };
         }
         if (shift < 64 && shift > 0) {
@@ -973,7 +973,7 @@ public:
         if (!shift) {
             return *this;
         }
-        if (shift >= 64 && shift <= 128) {
+        if (shift >= 64 && shift < 128) {
             return { 0, _upper >> (shift - 64) };
         }
         if (shift < 64 && shift > 0) {
-- 
2.43.0


From fca21792aeef9292cd487405a201e1716eb19db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:47 +0000
Subject: [PATCH 17/29] fix: fixed_string::back returns the last character of a
 short string

---
 include/ipaddress/fixed-string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/fixed-string.hpp b/include/ipaddress/fixed-string.hpp
index 21d2020..b7ef722 100644
--- a/include/ipaddress/fixed-string.hpp
+++ b/include/ipaddress/fixed-string.hpp
@@ -285,7 +285,7 @@ struct fixed_string {
      * @sa     front()
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference back() const IPADDRESS_NOEXCEPT {
-        return _data[N - 1];
+        return _data[length > 0 ? length - 1 : 0];
     }
 
     /**
-- 
2.43.0


From 3b93d6d6a4dcd69db6a0a12f6f88d4aa97ca53b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:47 +0000
Subject: [PATCH 18/29] fix: address_exclude no longer mistakes the first
 address for the end of the sequence

---
 include/ipaddress/ip-network-iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index 125c508..1df25df 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -598,7 +598,7 @@ public:
      * @return `true` if the iterators are equal, `false` otherwise.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator==(const ip_exclude_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return _current == other._current;
+        return _current == other._current && _other == other._other;
     }
 
     /**
-- 
2.43.0


From f0430add70211a57805c777ae613b1404389a56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:12 +0000
Subject: [PATCH 19/29] fix: a numeric scope id that does not fit uint32_t has
 no uint32 value

---
 include/ipaddress/ipv6-address.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index bd218de..5180a0b 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -242,18 +242,21 @@ private:
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void parse_value() IPADDRESS_NOEXCEPT {
         if (!_scope_id.empty()) {
             _has_value = true;
-            uint32_t value = 0;
+            uint64_t value = 0;
             const auto scope_id_size = _scope_id.size();
             for (size_t i = 0; i < scope_id_size; ++i) {
                 const auto c = _scope_id[i];
-                if (c >= '0' && c <= '9') {
+                if (c >= '0' && c <= '9' && value <= 0xFFFFFFFF) {
                     value = value * 10 + (c - '0');
                 } else {
                     _has_value = false;
                     break;
                 }
             }
-            _scope_id_value = _has_value ? value : 0;
+            if (value > 0xFFFFFFFF) {
+                _has_value = false;
+            }
+            _scope_id_value = _has_value ? uint32_t(value) : 0;
         }
     }
 
-- 
2.43.0


From d51e4916f011a20c3d31b88e86f0c55d6e98295c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:12 +0000
Subject: [PATCH 20/29] fix: reject malformed and overlong UTF-8 sequences

---
 include/ipaddress/unicode.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ipaddress/unicode.hpp b/include/ipaddress/unicode.hpp
index 2caa68e..a707699 100644
--- a/include/ipaddress/unicode.hpp
+++ b/include/ipaddress/unicode.hpp
@@ -80,7 +80,7 @@ struct utf8_reader {
             }
         }
         ++it;
-        if (!correct) {
+        if (!correct || (symbol.length > 1 && symbol.value <= 127)) {
             error = error_code::wrong_encoding_sequence;
             return '\0';
         } else if (symbol.value > 127) {
@@ -114,7 +114,6 @@ struct utf8_reader {
             return 0;
         } 
         if ((uint8_t(*it) & 0b11000000) == 0b10000000) {
-            correct = true;
             return uint8_t(*it) & 0b00111111;
         } 
         correct = false;
-- 
2.43.0


From df58f402562b40c27e7387d4ede7e07ca323d83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:37 +0000
Subject: [PATCH 21/29] fix: make the default prefix length of from_address
 compile

---
 include/ipaddress/ip-network-base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 3e0ac0a..eb0f0bd 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -424,7 +424,7 @@ public:
      */
     IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_base from_address(
         const ip_address_type& address, 
-        size_t prefixlen = ip_address_type::max_prefixlen, 
+        size_t prefixlen = ip_address_type::base_max_prefixlen, 
         bool strict = true
     ) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         auto code = error_code::no_error;
@@ -452,7 +452,7 @@ public:
     static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_base from_address(
         const ip_address_type& address, 
         error_code& code, 
-        size_t prefixlen = ip_address_type::max_prefixlen, 
+        size_t prefixlen = ip_address_type::base_max_prefixlen, 
         bool strict = true
     ) IPADDRESS_NOEXCEPT {
         code = error_code::no_error;
-- 
2.43.0


From cfa86c8fb16703caa096dcad39801d80d5558c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:38 +0000
Subject: [PATCH 22/29] fix: include <limits>, which uint128.hpp uses

---
 include/ipaddress/config.hpp | 1 +
 src/ipaddress.ixx            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ipaddress/config.hpp b/include/ipaddress/config.hpp
index f0e52a7..3a8e20b 100644
--- a/include/ipaddress/config.hpp
+++ b/include/ipaddress/config.hpp
@@ -23,6 +23,7 @@
 #  include <array>
 #  include <tuple>
 #  include <cmath>
+#  include <limits>
 #  include <cassert>
 #  include <sstream>
 #  include <iomanip>
diff --git a/src/ipaddress.ixx b/src/ipaddress.ixx
index 05b074d..c0c5662 100644
--- a/src/ipaddress.ixx
+++ b/src/ipaddress.ixx
@@ -5,6 +5,7 @@ module;
 #include <array>
 #include <tuple>
 #include <cmath>
+#include <limits>
 #include <cassert>
 #include <sstream>
 #include <iomanip>
-- 
2.43.0


From 927590b5b797d5a96422fef810f9dd7b9e7c4f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:11 +0000
Subject: [PATCH 23/29] fix: a literal that is too long yields the default
 value without exceptions

---
 include/ipaddress/ip-address-base.hpp | 1 +
 include/ipaddress/ip-any-address.hpp  | 4 ++++
 include/ipaddress/ip-any-network.hpp  | 4 ++++
 include/ipaddress/ip-network-base.hpp | 1 +
 4 files changed, 10 insertions(+)

diff --git a/include/ipaddress/ip-address-base.hpp b/include/ipaddress/ip-address-base.hpp
index cc2af04..ea2b142 100644
--- a/include/ipaddress/ip-address-base.hpp
+++ b/include/ipaddress/ip-address-base.hpp
@@ -786,6 +786,7 @@ template <typename Base, typename TChar, size_t MaxLen>
 IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_base<Base> parse_ip_from_literal(const TChar* address, size_t size) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
     if (size > MaxLen) {
         raise_error(error_code::string_is_too_long, 0, address, size);
+        return {};
     }
     TChar str[MaxLen + 1] = {};
     for (size_t i = 0; i < size && i < MaxLen; ++i) {
diff --git a/include/ipaddress/ip-any-address.hpp b/include/ipaddress/ip-any-address.hpp
index 32179d6..f55f491 100644
--- a/include/ipaddress/ip-any-address.hpp
+++ b/include/ipaddress/ip-any-address.hpp
@@ -1387,6 +1387,7 @@ private:
     IPADDRESS_EXPORT IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address operator""_ip(const char* address, size_t size) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         if (size > ipv6_address::base_max_string_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return {};
         }
         char str[ipv6_address::base_max_string_len + 1] = {};
         for (size_t i = 0; i < size && i < ipv6_address::base_max_string_len; ++i) {
@@ -1405,6 +1406,7 @@ private:
     IPADDRESS_EXPORT IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address operator""_ip(const wchar_t* address, size_t size) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         if (size > ipv6_address::base_max_string_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return {};
         }
         wchar_t str[ipv6_address::base_max_string_len + 1] = {};
         for (size_t i = 0; i < size && i < ipv6_address::base_max_string_len; ++i) {
@@ -1423,6 +1425,7 @@ private:
     IPADDRESS_EXPORT IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address operator""_ip(const char16_t* address, size_t size) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         if (size > ipv6_address::base_max_string_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return {};
         }
         char16_t str[ipv6_address::base_max_string_len + 1] = {};
         for (size_t i = 0; i < size && i < ipv6_address::base_max_string_len; ++i) {
@@ -1441,6 +1444,7 @@ private:
     IPADDRESS_EXPORT IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address operator""_ip(const char32_t* address, size_t size) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         if (size > ipv6_address::base_max_string_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return {};
         }
         char32_t str[ipv6_address::base_max_string_len + 1] = {};
         for (size_t i = 0; i < size && i < ipv6_address::base_max_string_len; ++i) {
diff --git a/include/ipaddress/ip-any-network.hpp b/include/ipaddress/ip-any-network.hpp
index a28289c..33e3508 100644
--- a/include/ipaddress/ip-any-network.hpp
+++ b/include/ipaddress/ip-any-network.hpp
@@ -1362,6 +1362,7 @@ private:
         const auto max_len = ipv6_address::base_max_string_len * 2 + 1;
         if (size > max_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return {};
         }
         char str[max_len + 1] = {};
         for (size_t i = 0; i < size && i < max_len; ++i) {
@@ -1384,6 +1385,7 @@ private:
         const auto max_len = ipv6_address::base_max_string_len * 2 + 1;
         if (size > max_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return {};
         }
         wchar_t str[max_len + 1] = {};
         for (size_t i = 0; i < size && i < max_len; ++i) {
@@ -1406,6 +1408,7 @@ private:
         const auto max_len = ipv6_address::base_max_string_len * 2 + 1;
         if (size > max_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return {};
         }
         char16_t str[max_len + 1] = {};
         for (size_t i = 0; i < size && i < max_len; ++i) {
@@ -1428,6 +1431,7 @@ private:
         const auto max_len = ipv6_address::base_max_string_len * 2 + 1;
         if (size > max_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return {};
         }
         char32_t str[max_len + 1] = {};
         for (size_t i = 0; i < size && i < max_len; ++i) {
diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index eb0f0bd..53b4231 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1335,6 +1335,7 @@ template <typename Base, typename TChar, size_t MaxLen>
 IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_base<Base> parse_net_from_literal(const TChar* address, size_t size) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
     if (size > MaxLen) {
         raise_error(error_code::string_is_too_long, 0, address, size);
+        return {};
     }
     TChar str[MaxLen + 1] = {};
     for (size_t i = 0; i < size && i < MaxLen; ++i) {
-- 
2.43.0


From 2e2c1a8175cd58e419c85a027f7273996f46eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:02 +0000
Subject: [PATCH 24/29] fix: accept '::' standing for one group before a
 dotted-decimal tail

---
 include/ipaddress/base-v6.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 029a954..e45ab99 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -423,7 +423,7 @@ private:
         }
 
         if (has_ipv4) {
-            if (parts_count + 1 >= _max_parts) {
+            if (parts_count + (has_double_colon ? 1 : 2) > _max_parts) {
                 error = error_code::most_8_colons_permitted;
                 return empty_parts;
             }
-- 
2.43.0


From 1dc688d03ae7572734ad84f9f85a3dfb5d025629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:03 +0000
Subject: [PATCH 25/29] fix: without exceptions parse of any version returns
 the default address or network on error

---
 include/ipaddress/ip-any-address.hpp | 4 ++++
 include/ipaddress/ip-any-network.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/ipaddress/ip-any-address.hpp b/include/ipaddress/ip-any-address.hpp
index f55f491..c0df3a7 100644
--- a/include/ipaddress/ip-any-address.hpp
+++ b/include/ipaddress/ip-any-address.hpp
@@ -36,7 +36,11 @@ struct ip_any_parser {
         if (code == error_code::no_error) {
             return T(ipv4);
         }
+    #ifdef IPADDRESS_NO_EXCEPTIONS
+        return parse(address, code);
+    #else
         return T(ipv6_address::parse(address));
+    #endif
     }
 
     template <typename Str>
diff --git a/include/ipaddress/ip-any-network.hpp b/include/ipaddress/ip-any-network.hpp
index 33e3508..7749ef3 100644
--- a/include/ipaddress/ip-any-network.hpp
+++ b/include/ipaddress/ip-any-network.hpp
@@ -38,7 +38,11 @@ struct net_any_parser {
         if (code == error_code::no_error) {
             return T(net4);
         }
+    #ifdef IPADDRESS_NO_EXCEPTIONS
+        return parse(address, code, strict);
+    #else
         return T(ipv6_network::parse(address, strict));
+    #endif
     }
 
     template <typename Str>
-- 
2.43.0


From 48a2c2d97bb43380482652616ee0ec62fd763aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:23 +0000
Subject: [PATCH 26/29] fix: subnet and supernet relations do not depend on
 scope ids

contains() and overlaps() look at the address bits only, while subnet_of() ordered
the network addresses by scope id as well, so that fe80::/64 was not a subnet of
fe80::%eth0/64 although every one of its addresses is contained in it.
---
 include/ipaddress/ip-network-base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 53b4231..9d81f1b 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1319,7 +1319,7 @@ private:
     }
 
     static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_subnet_of(const ip_network_base& lhs, const ip_network_base& rhs) IPADDRESS_NOEXCEPT {
-        return rhs.network_address() <= lhs.network_address() && rhs.broadcast_address() >= lhs.broadcast_address();
+        return rhs.prefixlen() <= lhs.prefixlen() && rhs.contains(lhs.network_address());
     }
 
     ip_address_type _network_address;
-- 
2.43.0


From bfcfbdf20c45a1a45bb4c2ae803fcb71f86eb885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:35 +0000
Subject: [PATCH 27/29] fix: uint128 values between 2^88 and 2^104 convert to
 the nearest double

---
 include/ipaddress/uint128.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index 71b0462..d1b8e5b 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -1461,7 +1461,7 @@ private:
             return double(value._lower);
         }     
 
-        if ((value._upper >> 24) == 0) {
+        if ((value._upper >> 40) == 0) {
             double lower = uint64_bits_to_double(two_pow_52_bits | ((value._lower << 12) >> 12)) - two_pow_52;
             double upper = uint64_bits_to_double(two_pow_104_bits | (uint64_t)(value >> 52)) - two_pow_104;
             return double(lower + upper);
-- 
2.43.0


From 87192044ad0e7685d24bab72563347d80a955cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:20 +0000
Subject: [PATCH 28/29] fix: text of uint128 values and of errors does not
 depend on the global locale

---
 include/ipaddress/config.hpp  | 1 +
 include/ipaddress/errors.hpp  | 1 +
 include/ipaddress/uint128.hpp | 1 +
 src/ipaddress.ixx             | 1 +
 4 files changed, 4 insertions(+)

diff --git a/include/ipaddress/config.hpp b/include/ipaddress/config.hpp
index 3a8e20b..43a8a40 100644
--- a/include/ipaddress/config.hpp
+++ b/include/ipaddress/config.hpp
@@ -24,6 +24,7 @@
 #  include <tuple>
 #  include <cmath>
 #  include <limits>
+#  include <locale>
 #  include <cassert>
 #  include <sstream>
 #  include <iomanip>
diff --git a/include/ipaddress/errors.hpp b/include/ipaddress/errors.hpp
index e5e3bdc..fd62929 100644
--- a/include/ipaddress/errors.hpp
+++ b/include/ipaddress/errors.hpp
@@ -161,6 +161,7 @@ private:
     template <typename... Args>
     static std::string concatenate(const Args&... args) {
         std::ostringstream ss;
+        ss.imbue(std::locale::classic());
         concat(ss, args...);
         return ss.str();
     }
diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index d1b8e5b..df6ad99 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -325,6 +325,7 @@ public:
     IPADDRESS_NODISCARD IPADDRESS_FORCE_INLINE std::string to_string(format fmt = format::decimal) const {
         if (_upper == 0) {
             std::ostringstream ss;
+            ss.imbue(std::locale::classic());
             switch (fmt) {
                 case format::octal:
                     ss << std::oct;
diff --git a/src/ipaddress.ixx b/src/ipaddress.ixx
index c0c5662..b4aa314 100644
--- a/src/ipaddress.ixx
+++ b/src/ipaddress.ixx
@@ -6,6 +6,7 @@ module;
 #include <tuple>
 #include <cmath>
 #include <limits>
+#include <locale>
 #include <cassert>
 #include <sstream>
 #include <iomanip>
-- 
2.43.0


From 1c40be146c06b5d8196337e708800339dc7aaeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:58 +0000
Subject: [PATCH 29/29] fix: element access of byte arrays and fixed strings is
 bounds-checked as documented

---
 include/ipaddress/byte-array.hpp   | 18 ++++++++++++++----
 include/ipaddress/fixed-string.hpp |  9 +++++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/ipaddress/byte-array.hpp b/include/ipaddress/byte-array.hpp
index 2156e3b..70bc12a 100644
--- a/include/ipaddress/byte-array.hpp
+++ b/include/ipaddress/byte-array.hpp
@@ -153,7 +153,7 @@ struct byte_array {
      * @return A reference to the element at the specified index.
      * @throw std::out_of_range When going beyond the bounds of the array.
      */
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference operator[](size_t n) IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference operator[](size_t n) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         return at(n);
     }
 
@@ -164,7 +164,7 @@ struct byte_array {
      * @return A const reference to the element at the specified index.
      * @throw std::out_of_range When going beyond the bounds of the array.
      */
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference operator[](size_t n) const IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference operator[](size_t n) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         return at(n);
     }
 
@@ -175,7 +175,12 @@ struct byte_array {
      * @return A reference to the element at the specified index.
      * @throw std::out_of_range When going beyond the bounds of the array.
      */
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference at(size_t n) IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference at(size_t n) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
+    #ifndef IPADDRESS_NO_EXCEPTIONS
+        if (n >= N) {
+            throw std::out_of_range("index out of range");
+        }
+    #endif
         return _data[n];
     }
 
@@ -186,7 +191,12 @@ struct byte_array {
      * @return A const reference to the element at the specified index.
      * @throw std::out_of_range When going beyond the bounds of the array.
      */
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t n) const IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t n) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
+    #ifndef IPADDRESS_NO_EXCEPTIONS
+        if (n >= N) {
+            throw std::out_of_range("index out of range");
+        }
+    #endif
         return _data[n];
     }
 
diff --git a/include/ipaddress/fixed-string.hpp b/include/ipaddress/fixed-string.hpp
index b7ef722..4e08c85 100644
--- a/include/ipaddress/fixed-string.hpp
+++ b/include/ipaddress/fixed-string.hpp
@@ -243,7 +243,7 @@ struct fixed_string {
      * @throw std::out_of_range When going beyond the bounds of the character array.
      * @sa at(size_t) const
      */
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference operator[](size_t n) const IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference operator[](size_t n) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         return at(n);
     }
 
@@ -258,7 +258,12 @@ struct fixed_string {
      * @throw std::out_of_range When going beyond the bounds of the character array.
      * @sa operator[](size_t) const
      */
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t n) const IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t n) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
+    #ifndef IPADDRESS_NO_EXCEPTIONS
+        if (n >= max_length) {
+            throw std::out_of_range("index out of range");
+        }
+    #endif
         return _data[n];
     }
 
-- 
2.43.0

