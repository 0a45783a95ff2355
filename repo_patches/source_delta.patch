From b1c450fa88ab175500e3a205cdec8f089bb7f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 01/22] fix: aead one-call decrypt without error parameter must
 be able to throw

The noexcept condition was inverted: a forged tag ended the process.
---
 src/milo/primitive/aead/apie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index d92a702..6755cbc 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -1159,7 +1159,7 @@ namespace milo::primitive::aead
         t_error& ...a_error
     ) noexcept(
     (
-        sizeof...(t_error) == 0
+        sizeof...(t_error) == 1
     )
     ) -> size_t
     requires
@@ -1252,7 +1252,7 @@ namespace milo::primitive::aead
         t_error& ...a_error
     ) noexcept(
     (
-        sizeof...(t_error) == 0 &&
+        sizeof...(t_error) == 1 &&
         meta::container_static<t_plaintext>
     )
     ) -> size_t
-- 
2.43.0


From d6af5880071c8834dd9c5b8a219d208833fedc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 02/22] fix: aead digest without encrypt or decrypt must pad
 the associated data

---
 src/milo/primitive/aead/apie.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index 6755cbc..29db4e0 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -149,6 +149,8 @@ namespace milo::primitive::aead
                 return;
             }
             
+            do_finalize_aad();
+            
             m_impl.finalize();
             m_finalized = true;
         }
-- 
2.43.0


From 5a26f0c249fe56128fbc9c7768947b770df37e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 03/22] fix: aead one-call encrypt into caller's buffers did
 not compile

---
 src/milo/primitive/aead/apie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index 29db4e0..3b860c1 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -937,7 +937,7 @@ namespace milo::primitive::aead
             a_digest_ptr
         );
         
-        return container::tuple{
+        return container::tuple<size_t, size_t>{
             ciphertext_size,
             digest_size
         };
@@ -1017,7 +1017,7 @@ namespace milo::primitive::aead
             a_digest
         );
         
-        return container::tuple{
+        return container::tuple<size_t, size_t>{
             ciphertext_size,
             digest_size
         };
-- 
2.43.0


From c50f16738b49a8d75c08a49aae8feb6ff9718e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 04/22] fix: base_16 decode of odd sizes and size reported on
 error

Odd sizes skipped a byte and left the last pair undecoded; after an error the
number of consumed characters was reported instead of the decoded bytes.
---
 src/milo/primitive/detail/codec/base_16.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index 24f16ce..7e450f8 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -143,7 +143,7 @@ namespace milo::primitive::detail
                 from_ptr += 1;
             }
             
-            for (size_t i = last_size; i < full_size; i += 1)
+            for (size_t i = 0; i < full_size; i += 1)
             {
                 auto c_0 = char(from_ptr[0]);
                 auto c_1 = char(from_ptr[1]);
@@ -154,7 +154,7 @@ namespace milo::primitive::detail
                 if (c_0 == b_0 || c_1 == b_1)
                 {
                     a_error = error::codec_base_16_decode;
-                    return from_ptr - a_from_ptr;
+                    return i + last_size;
                 }
                 
                 to_ptr[i] = t_to(b_0 << 4 | b_1);
-- 
2.43.0


From 7181717016a04ec5817458bf6f40cb3e22ae49cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 05/22] fix: base_16 and base_64 decode must reject bytes above
 0x7f

The comparison of a signed char with an unsigned byte never matched for them.
---
 src/milo/primitive/detail/codec/base_16.h |  4 ++--
 src/milo/primitive/detail/codec/base_64.h | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index 7e450f8..7a1bdd2 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -131,7 +131,7 @@ namespace milo::primitive::detail
                 auto b_0 = decode(c_0);
                 
                 [[unlikely]]
-                if (c_0 == b_0)
+                if (uint8_t(c_0) == b_0)
                 {
                     a_error = error::codec_base_16_decode;
                     return 0;
@@ -151,7 +151,7 @@ namespace milo::primitive::detail
                 auto b_1 = decode(c_1);
                 
                 [[unlikely]]
-                if (c_0 == b_0 || c_1 == b_1)
+                if (uint8_t(c_0) == b_0 || uint8_t(c_1) == b_1)
                 {
                     a_error = error::codec_base_16_decode;
                     return i + last_size;
diff --git a/src/milo/primitive/detail/codec/base_64.h b/src/milo/primitive/detail/codec/base_64.h
index 93d3446..7ee8007 100644
--- a/src/milo/primitive/detail/codec/base_64.h
+++ b/src/milo/primitive/detail/codec/base_64.h
@@ -188,10 +188,10 @@ namespace milo::primitive::detail
                 
                 [[unlikely]]
                 if (
-                    c_0 == b_0 ||
-                    c_1 == b_1 ||
-                    c_2 == b_2 ||
-                    c_3 == b_3)
+                    uint8_t(c_0) == b_0 ||
+                    uint8_t(c_1) == b_1 ||
+                    uint8_t(c_2) == b_2 ||
+                    uint8_t(c_3) == b_3)
                 {
                     a_error = error::codec_base_64_decode;
                     return to_ptr - a_to_ptr;
@@ -220,11 +220,11 @@ namespace milo::primitive::detail
                 
                 [[unlikely]]
                 if (
-                    c_0 == b_0 ||
-                    c_1 == b_1 ||
+                    uint8_t(c_0) == b_0 ||
+                    uint8_t(c_1) == b_1 ||
                     (p_0 && !p_1) ||
-                    (c_2 == b_2 && !p_0) ||
-                    (c_3 == b_3 && !p_1))
+                    (uint8_t(c_2) == b_2 && !p_0) ||
+                    (uint8_t(c_3) == b_3 && !p_1))
                 {
                     a_error = error::codec_base_64_decode;
                     return to_ptr - a_to_ptr;
-- 
2.43.0


From a8b23df4bc289fcd5a10e68234959fbd81e15654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 06/22] fix: functions defined in headers must be inline

Using the library from two translation units did not link.
---
 src/milo/internal/arch/x86_64.h | 1 +
 src/milo/literal.h              | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/milo/internal/arch/x86_64.h b/src/milo/internal/arch/x86_64.h
index 1122314..a84eed5 100644
--- a/src/milo/internal/arch/x86_64.h
+++ b/src/milo/internal/arch/x86_64.h
@@ -37,6 +37,7 @@ namespace milo::internal
     
     #if MILO_INTERNAL_ARCH_X86_64
     
+    inline
     auto
     arch_x86_64_cpuid(
         uint32_t* a_info_ptr,
diff --git a/src/milo/literal.h b/src/milo/literal.h
index 71d4b71..153e89f 100644
--- a/src/milo/literal.h
+++ b/src/milo/literal.h
@@ -11,6 +11,7 @@
 
 namespace milo::literal
 {
+    inline
     auto
     operator "" _b(
         const char* a_ptr,
@@ -23,6 +24,7 @@ namespace milo::literal
         };
     }
     
+    inline
     auto
     operator "" _bv(
         const char* a_ptr,
-- 
2.43.0


From 750eb4ed53700aa1641d2f4125396a7c40d81f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 07/22] fix: cipher one-call functions with pointers did not
 compile

---
 src/milo/primitive/cipher/apie.h | 36 ++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/milo/primitive/cipher/apie.h b/src/milo/primitive/cipher/apie.h
index 77a4dbd..ea0c4fc 100644
--- a/src/milo/primitive/cipher/apie.h
+++ b/src/milo/primitive/cipher/apie.h
@@ -84,6 +84,42 @@ namespace milo::primitive::cipher
                 a_iv
             );
         }
+        
+        /**
+         * Constructs the object.
+         *
+         * @tparam t_key
+         * Key type.
+         * @tparam t_iv
+         * Iv type.
+         * @param a_key_ptr
+         * Key pointer.
+         * @param a_key_size
+         * Key size.
+         * @param a_iv_ptr
+         * Iv pointer.
+         * @param a_iv_size
+         * Iv size.
+         */
+        template<
+            meta::byte t_key,
+            meta::byte t_iv
+        >
+        constexpr
+        apie(
+            const t_key* a_key_ptr,
+            size_t a_key_size,
+            const t_iv* a_iv_ptr,
+            size_t a_iv_size
+        ) noexcept(true)
+        {
+            initialize(
+                a_key_ptr,
+                a_key_size,
+                a_iv_ptr,
+                a_iv_size
+            );
+        }
     
     public:
         
-- 
2.43.0


From 1247d8e34ff1ae3f315189016ddb1a2234b61a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 08/22] fix: digest into a container must not finalize before
 the container grew

A failed allocation left the instance finalized, so the stream could not be
continued.  The pointer overload called afterwards finalizes anyway.
---
 src/milo/primitive/aead/apie.h | 2 --
 src/milo/primitive/hash/apie.h | 2 --
 src/milo/primitive/mac/apie.h  | 2 --
 3 files changed, 6 deletions(-)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index 3b860c1..748aed4 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -655,8 +655,6 @@ namespace milo::primitive::aead
             size_t a_digest_size = digest_size
         ) noexcept(meta::container_static<t_digest>) -> size_t
         {
-            do_finalize();
-            
             a_digest_size = internal::min(
                 a_digest_size,
                 digest_size
diff --git a/src/milo/primitive/hash/apie.h b/src/milo/primitive/hash/apie.h
index c776888..91512d5 100644
--- a/src/milo/primitive/hash/apie.h
+++ b/src/milo/primitive/hash/apie.h
@@ -183,8 +183,6 @@ namespace milo::primitive::hash
             size_t a_digest_size = digest_size
         ) noexcept(meta::container_static<t_digest>) -> size_t
         {
-            do_finalize();
-            
             a_digest_size = internal::min(
                 a_digest_size,
                 digest_size
diff --git a/src/milo/primitive/mac/apie.h b/src/milo/primitive/mac/apie.h
index 1bb6355..4e358c4 100644
--- a/src/milo/primitive/mac/apie.h
+++ b/src/milo/primitive/mac/apie.h
@@ -265,8 +265,6 @@ namespace milo::primitive::mac
             size_t a_digest_size = digest_size
         ) noexcept(meta::container_static<t_digest>) -> size_t
         {
-            do_finalize();
-            
             a_digest_size = internal::min(
                 a_digest_size,
                 digest_size
-- 
2.43.0


From 0d20c13bed9029c0774d65615890d274c4d7c169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 09/22] fix: AVX back ends must not be chosen when the
 operating system does not preserve AVX state

CPUID feature bits alone are not enough: OSXSAVE and XCR0 must be checked, or the
first AVX instruction ends the process with SIGILL.
---
 src/milo/internal/arch/x86_64.h         | 41 +++++++++++++++++++++++--
 src/milo/internal/arch/x86_64/cpuid.asm | 17 ++++++++++
 2 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/src/milo/internal/arch/x86_64.h b/src/milo/internal/arch/x86_64.h
index a84eed5..6704bb1 100644
--- a/src/milo/internal/arch/x86_64.h
+++ b/src/milo/internal/arch/x86_64.h
@@ -29,6 +29,12 @@ namespace milo::internal
         uint32_t a_ecx
     ) noexcept(true) -> void;
     
+    extern "C"
+    auto
+    milo_internal_arch_x86_64_xgetbv(
+        uint32_t a_ecx
+    ) noexcept(true) -> uint64_t;
+    
     #endif
     
     /*
@@ -63,6 +69,26 @@ namespace milo::internal
         #endif
     }
     
+    inline
+    auto
+    arch_x86_64_xgetbv(
+        [[maybe_unused]]
+        uint32_t a_ecx = 0
+    ) noexcept(true) -> uint64_t
+    {
+        #if MILO_INTERNAL_ASM && MILO_INTERNAL_ARCH_X86_64
+        
+        return milo_internal_arch_x86_64_xgetbv(
+            a_ecx
+        );
+        
+        #else
+        
+        return 0;
+        
+        #endif
+    }
+    
     inline
     const
     class arch_x86_64_info_basic
@@ -80,6 +106,8 @@ namespace milo::internal
     private:
         
         registers m_features[2]{};
+        
+        bool m_avx_state{};
     
     public:
         
@@ -114,6 +142,15 @@ namespace milo::internal
                 
                 m_features[1] = {info[0], info[1], info[2], info[3]};
             }
+            
+            /*
+             * Wide registers are usable only if the operating system
+             * preserves them (OSXSAVE, XCR0: SSE and AVX state).
+             */
+            if (m_features[0].ecx & (1 << 27))
+            {
+                m_avx_state = (arch_x86_64_xgetbv() & 0b110) == 0b110;
+            }
         }
         
         arch_x86_64_info_basic(arch_x86_64_info_basic&& a_object) noexcept(true) = default;
@@ -175,14 +212,14 @@ namespace milo::internal
         avx_1(
         ) const noexcept(true) -> bool
         {
-            return m_features[0].ecx & (1 << 28);
+            return m_avx_state && (m_features[0].ecx & (1 << 28));
         }
         
         auto
         avx_2(
         ) const noexcept(true) -> bool
         {
-            return m_features[1].ebx & (1 << 5);
+            return avx_1() && (m_features[1].ebx & (1 << 5));
         }
         
         auto
diff --git a/src/milo/internal/arch/x86_64/cpuid.asm b/src/milo/internal/arch/x86_64/cpuid.asm
index d82a319..ddb369a 100644
--- a/src/milo/internal/arch/x86_64/cpuid.asm
+++ b/src/milo/internal/arch/x86_64/cpuid.asm
@@ -5,6 +5,7 @@ bits 64
 %include "abi.asm"
 
 global milo_internal_arch_x86_64_cpuid
+global milo_internal_arch_x86_64_xgetbv
 
 ; BEG arch_x86_64_cpuid
 
@@ -27,3 +28,19 @@ milo_internal_arch_x86_64_cpuid:
     ret
 
 ; BEG arch_x86_64_cpuid
+
+; BEG arch_x86_64_xgetbv
+
+section .text
+milo_internal_arch_x86_64_xgetbv:
+; Args:
+;   0 -> register index
+; Return:
+;   register value
+    mov     rcx,    abi_arg_0
+    xgetbv
+    shl     rdx,    32
+    or      rax,    rdx
+    ret
+
+; BEG arch_x86_64_xgetbv
-- 
2.43.0


From 3ea9508a9c798fdac8742bb56354db884b857f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 10/22] fix: the application must not abort when it is started
 without arguments

---
 app/include/milo/app/app.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/include/milo/app/app.h b/app/include/milo/app/app.h
index 1fd466f..dc9870c 100644
--- a/app/include/milo/app/app.h
+++ b/app/include/milo/app/app.h
@@ -88,7 +88,10 @@ namespace milo::app
                     }
                 );
                 
-                str.pop_back();
+                if (!str.empty())
+                {
+                    str.pop_back();
+                }
                 
                 return str;
             }
-- 
2.43.0


From 520f6537cb10455860852085679b7dbcf25d8e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 11/22] fix: an application parameter must not be taken from an
 argument that only starts with its name

---
 app/include/milo/app/app.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/include/milo/app/app.h b/app/include/milo/app/app.h
index dc9870c..bd58af0 100644
--- a/app/include/milo/app/app.h
+++ b/app/include/milo/app/app.h
@@ -214,7 +214,7 @@ namespace milo::app
                 {
                     if (it->starts_with("--"))
                     {
-                        if (it->substr(2).starts_with(a_name))
+                        if (it->substr(2, it->substr(2).find('=')) == a_name)
                         {
                             break;
                         }
-- 
2.43.0


From ebc7e09f6685770e595b6043903dc112c3ec106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 12/22] fix: application parameters with trailing garbage must
 be rejected

---
 app/include/milo/app/app.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/include/milo/app/app.h b/app/include/milo/app/app.h
index bd58af0..398d6ee 100644
--- a/app/include/milo/app/app.h
+++ b/app/include/milo/app/app.h
@@ -277,7 +277,7 @@ namespace milo::app
                             value
                         );
                         
-                        if (result.ec != decltype(result.ec)())
+                        if (result.ec != decltype(result.ec)() || result.ptr != value_end)
                         {
                             throw std::logic_error(
                                 std::string("Error. Value conversion failure for --") +
-- 
2.43.0


From 85ffa6a816afdb59d97c584cf5dbf124aaafb754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 13/22] fix: kdf benchmarks read past the end of an empty key

---
 app/include/milo/app/command/benchmark.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/include/milo/app/command/benchmark.h b/app/include/milo/app/command/benchmark.h
index 3e7118e..733f0b8 100644
--- a/app/include/milo/app/command/benchmark.h
+++ b/app/include/milo/app/command/benchmark.h
@@ -481,7 +481,7 @@ namespace milo::app::command::benchmark
             a_key_size
         );
         
-        return a_key_ptr[0];
+        return a_key_size > 0 ? a_key_ptr[0] : char(0);
     }
     
     template<
@@ -542,7 +542,7 @@ namespace milo::app::command::benchmark
             a_key_size
         );
         
-        return a_key_ptr[0];
+        return a_key_size > 0 ? a_key_ptr[0] : char(0);
     }
     
     template<
-- 
2.43.0


From 8f833b0753da7b8e17918f41ce600dbf8e6f4f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 14/22] fix: throughput is undefined when the clock did not
 advance

The result contained inf, which is not valid JSON.
---
 app/include/milo/app/command/benchmark.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/include/milo/app/command/benchmark.h b/app/include/milo/app/command/benchmark.h
index 733f0b8..367e052 100644
--- a/app/include/milo/app/command/benchmark.h
+++ b/app/include/milo/app/command/benchmark.h
@@ -219,10 +219,10 @@ namespace milo::app::command::benchmark
                 {"nanoseconds_per_call", duration_nanoseconds_per_call}
             };
             
-            if (processed != 0)
+            if (processed != 0 && nanoseconds != 0)
             {
                 auto throughput_gigabytes_per_second = double(processed) / double(nanoseconds);
-                auto throughput_megabytes_per_second = double(processed * 1000) / double(nanoseconds);
+                auto throughput_megabytes_per_second = double(processed) * 1000 / double(nanoseconds);
                 
                 result["metrics"]["throughput"] = {
                     {"gigabytes_per_second", throughput_gigabytes_per_second},
-- 
2.43.0


From 3614fe434ab54f393669c036103a9329e9dac2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 15/22] fix: cpu cycle metrics overflowed for runs longer than
 a few seconds

---
 app/include/milo/app/command/benchmark.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/app/include/milo/app/command/benchmark.h b/app/include/milo/app/command/benchmark.h
index 367e052..74fa102 100644
--- a/app/include/milo/app/command/benchmark.h
+++ b/app/include/milo/app/command/benchmark.h
@@ -232,9 +232,10 @@ namespace milo::app::command::benchmark
             
             if (processed != 0 && cpu_clock != 0)
             {
-                auto billion = 1000 * 1000 * 1000;
-                auto cpu_cycles_per_call = double(cpu_clock * nanoseconds) / double(billion * repeats_time);
-                auto cpu_cycles_per_byte = double(cpu_clock * nanoseconds) / double(billion * processed);
+                auto billion = double(1000 * 1000 * 1000);
+                auto cpu_cycles = double(cpu_clock) * double(nanoseconds) / billion;
+                auto cpu_cycles_per_call = cpu_cycles / double(repeats_time);
+                auto cpu_cycles_per_byte = cpu_cycles / double(processed);
                 
                 result["metrics"]["cpu"] = {
                     {"cycles_per_call", cpu_cycles_per_call},
-- 
2.43.0


From 8e482734c54de42b66e45d74cc3a38e74fac1a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 16/22] fix: the application must fail when its output cannot
 be written

---
 app/include/milo/app/run.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/include/milo/app/run.h b/app/include/milo/app/run.h
index 7ab54d8..1de58c0 100644
--- a/app/include/milo/app/run.h
+++ b/app/include/milo/app/run.h
@@ -59,6 +59,11 @@ namespace milo::app
         try
         {
             commands.at(app::args.command())();
+            
+            if (!std::cout.flush())
+            {
+                throw std::runtime_error("Error. Failed to write the output.");
+            }
         }
         catch (const std::exception& error)
         {
-- 
2.43.0


From 450fab9d51e550f79fb8d39b82c2d6bf799a9299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 17/22] fix: strings in the JSON result must be escaped

---
 app/include/milo/app/type.h | 48 ++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/app/include/milo/app/type.h b/app/include/milo/app/type.h
index 6ed3931..599b715 100644
--- a/app/include/milo/app/type.h
+++ b/app/include/milo/app/type.h
@@ -829,6 +829,37 @@ namespace milo::app::type
         const object& a_object
     ) -> void;
     
+    auto
+    to_json_string(
+        std::stringstream& a_stream,
+        const var& a_var
+    ) -> void
+    {
+        std::stringstream string;
+        
+        string << a_var;
+        
+        a_stream << '\"';
+        
+        for (auto c: string.str())
+        {
+            if (c == '\"' || c == '\\')
+            {
+                a_stream << '\\' << c;
+            }
+            else if (static_cast<unsigned char>(c) < 0x20)
+            {
+                a_stream << "\\u00" << (c < 0x10 ? '0' : '1') << "0123456789abcdef"[c & 0xf];
+            }
+            else
+            {
+                a_stream << c;
+            }
+        }
+        
+        a_stream << '\"';
+    }
+    
     auto
     to_json(
         std::stringstream& a_stream,
@@ -849,7 +880,12 @@ namespace milo::app::type
                 throw std::logic_error("Attempt to use json-serializable type as key.");
             }
             
-            a_stream << '\"' << key << "\":";
+            to_json_string(
+                a_stream,
+                key
+            );
+            
+            a_stream << ':';
             
             if (item.is<object>())
             {
@@ -867,7 +903,10 @@ namespace milo::app::type
             }
             else if (item.is<std::string_view>() || item.is<std::string>())
             {
-                a_stream << '\"' << item << "\"";
+                to_json_string(
+                    a_stream,
+                    item
+                );
             }
             else
             {
@@ -914,7 +953,10 @@ namespace milo::app::type
             }
             else if (item.is<std::string_view>() || item.is<std::string>())
             {
-                a_stream << '\"' << item << "\"";
+                to_json_string(
+                    a_stream,
+                    item
+                );
             }
             else
             {
-- 
2.43.0


From fd560d884ae545e8bc57485326de0f6cc807d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 18/22] fix: hkdf must not start over when the block counter
 wraps

After 255 blocks the counter reached 1 again and a following derive call handed
out the first key bytes a second time.
---
 src/milo/primitive/detail/kdf/hkdf.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/milo/primitive/detail/kdf/hkdf.h b/src/milo/primitive/detail/kdf/hkdf.h
index f9c1b8f..fc0929c 100644
--- a/src/milo/primitive/detail/kdf/hkdf.h
+++ b/src/milo/primitive/detail/kdf/hkdf.h
@@ -38,7 +38,7 @@ namespace milo::primitive::detail
         
         internal::memory_bytes_const_view m_info;
         
-        uint8_t m_counter = 1;
+        size_t m_counter = 1;
         
         uint8_t m_prk[expand_size]{};
         
@@ -76,11 +76,13 @@ namespace milo::primitive::detail
         constexpr auto
         expand(
             t_key* a_key,
-            uint8_t a_counter,
+            size_t a_counter,
             const t_previous* a_previous_ptr,
             size_t a_previous_size
         ) noexcept(true) -> void
         {
+            auto counter = uint8_t(a_counter);
+            
             m_hmac.initialize(
                 m_prk,
                 sizeof(m_prk)
@@ -94,8 +96,8 @@ namespace milo::primitive::detail
                 m_info.size()
             );
             m_hmac.update(
-                &a_counter,
-                sizeof(a_counter)
+                &counter,
+                sizeof(counter)
             );
             m_hmac.finalize();
             m_hmac.digest(
-- 
2.43.0


From 5f643a817e735100e077ed8a985f10d0541138d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 19/22] fix: implementations must be usable while global
 objects are initialized

---
 src/milo/internal/arch/x86_64.h | 89 +++++++++++++++------------------
 src/milo/internal/impl.h        | 58 ++++++++++++++++++---
 2 files changed, 92 insertions(+), 55 deletions(-)

diff --git a/src/milo/internal/arch/x86_64.h b/src/milo/internal/arch/x86_64.h
index 6704bb1..b8dd7b5 100644
--- a/src/milo/internal/arch/x86_64.h
+++ b/src/milo/internal/arch/x86_64.h
@@ -89,8 +89,6 @@ namespace milo::internal
         #endif
     }
     
-    inline
-    const
     class arch_x86_64_info_basic
     {
     private:
@@ -235,62 +233,57 @@ namespace milo::internal
         {
             return m_features[1].ebx & (1 << 29);
         }
-    } arch_x86_64_info;
+    };
     
     struct arch_x86_64_ise
     {
-        inline
-        static
-        const bool sse_1 = arch_x86_64_info.sse_1();
-        
-        inline
-        static
-        const bool sse_2 = arch_x86_64_info.sse_2();
-        
-        inline
-        static
-        const bool sse_3 = arch_x86_64_info.sse_3();
-        
-        inline
-        static
-        const bool ssse_3 = arch_x86_64_info.ssse_3();
-        
-        inline
-        static
-        const bool sse_4_1 = arch_x86_64_info.sse_4_1();
-        
-        inline
-        static
-        const bool sse_4_2 = arch_x86_64_info.sse_4_2();
-        
-        inline
-        static
-        const bool sse_4 = arch_x86_64_info.sse_4_1() && arch_x86_64_info.sse_4_2();
-        
-        inline
-        static
-        const bool avx_1 = arch_x86_64_info.avx_1();
-        
-        inline
-        static
-        const bool avx_2 = arch_x86_64_info.avx_2();
-        
-        inline
-        static
-        const bool sha_1 = arch_x86_64_info.sha_1();
-        
-        inline
-        static
-        const bool sha_2 = arch_x86_64_info.sha_2();
-        
         template<
             typename t_impl
         >
         static
-        constexpr auto
+        auto
         check(
         ) noexcept(true) -> bool
         {
+            /*
+             * Not global: implementations are chosen at any time, also
+             * while global objects are initialized.
+             */
+            const arch_x86_64_info_basic info;
+            
+            [[maybe_unused]]
+            const bool sse_1 = info.sse_1();
+            
+            [[maybe_unused]]
+            const bool sse_2 = info.sse_2();
+            
+            [[maybe_unused]]
+            const bool sse_3 = info.sse_3();
+            
+            [[maybe_unused]]
+            const bool ssse_3 = info.ssse_3();
+            
+            [[maybe_unused]]
+            const bool sse_4_1 = info.sse_4_1();
+            
+            [[maybe_unused]]
+            const bool sse_4_2 = info.sse_4_2();
+            
+            [[maybe_unused]]
+            const bool sse_4 = info.sse_4_1() && info.sse_4_2();
+            
+            [[maybe_unused]]
+            const bool avx_1 = info.avx_1();
+            
+            [[maybe_unused]]
+            const bool avx_2 = info.avx_2();
+            
+            [[maybe_unused]]
+            const bool sha_1 = info.sha_1();
+            
+            [[maybe_unused]]
+            const bool sha_2 = info.sha_2();
+            
             if constexpr (requires{
                 typename t_impl::requirements::arch::x86_64;
             })
diff --git a/src/milo/internal/impl.h b/src/milo/internal/impl.h
index f9d3b7b..392e276 100644
--- a/src/milo/internal/impl.h
+++ b/src/milo/internal/impl.h
@@ -3,6 +3,8 @@
 #pragma once
 
 
+#include <atomic>
+
 #include <milo/meta.h>
 
 #include <milo/internal/arch.h>
@@ -39,6 +41,13 @@ namespace milo::internal
         return true;
     }
     
+    template<
+        typename t_chooser,
+        typename t_impl
+    >
+    inline
+    constexpr auto impl_entry = t_chooser::template hook<t_impl>();
+    
     template<
         typename t_chooser,
         typename t_impl,
@@ -58,13 +67,13 @@ namespace milo::internal
                 }
             ))
             {
-                return t_chooser::template hook<t_impl>();
+                return &impl_entry<t_chooser, t_impl>;
             }
             else
             {
                 if (arch_active::ise::check<t_impl>())
                 {
-                    return t_chooser::template hook<t_impl>();
+                    return &impl_entry<t_chooser, t_impl>;
                 }
             }
         }
@@ -155,12 +164,47 @@ namespace milo::internal
     }
     struct impl_runtime_reader
     {
+    private:
+        
+        using entry_type = decltype(
+            impl_choose_hook<
+                t_chooser,
+                t_impls...
+            >()
+        );
+        
+        /*
+         * Constant initialized and filled on the first use: global objects
+         * of any translation unit, threads and signal handlers may be first.
+         */
         inline
         static
-        const auto impl = impl_choose_hook<
-            t_chooser,
-            t_impls...
-        >();
+        std::atomic<entry_type> entry{};
+    
+    public:
+        
+        static
+        auto
+        impl(
+        ) noexcept(true) -> decltype(auto)
+        {
+            auto impl = entry.load(std::memory_order_relaxed);
+            
+            if (impl == nullptr)
+            {
+                impl = impl_choose_hook<
+                    t_chooser,
+                    t_impls...
+                >();
+                
+                entry.store(
+                    impl,
+                    std::memory_order_relaxed
+                );
+            }
+            
+            return *impl;
+        }
     };
     
     template<
@@ -260,7 +304,7 @@ namespace milo::internal
                     return invoker::template hook<
                         t_id
                     >(
-                        runtime_selected::impl,
+                        runtime_selected::impl(),
                         forward<
                             t_args
                         >(
-- 
2.43.0


From 517c4922c5ad1a14caa294fdad9252b7276ff07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 20/22] fix: a JSON result that does not fit into memory must
 not be cut silently

---
 app/include/milo/app/type.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/app/include/milo/app/type.h b/app/include/milo/app/type.h
index 599b715..f23f707 100644
--- a/app/include/milo/app/type.h
+++ b/app/include/milo/app/type.h
@@ -837,6 +837,8 @@ namespace milo::app::type
     {
         std::stringstream string;
         
+        string.exceptions(std::ios::badbit);
+        
         string << a_var;
         
         a_stream << '\"';
@@ -979,6 +981,8 @@ namespace milo::app::type
     {
         std::stringstream json;
         
+        json.exceptions(std::ios::badbit);
+        
         to_json(
             json,
             a_array
@@ -994,6 +998,8 @@ namespace milo::app::type
     {
         std::stringstream json;
         
+        json.exceptions(std::ios::badbit);
+        
         to_json(
             json,
             a_object
-- 
2.43.0


From 741d468547cdea24f895b55442b685a77f31dd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 21/22] fix: a clock speed that does not fit must be rejected

---
 app/include/milo/app/command/benchmark.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/app/include/milo/app/command/benchmark.h b/app/include/milo/app/command/benchmark.h
index 74fa102..51eb8d6 100644
--- a/app/include/milo/app/command/benchmark.h
+++ b/app/include/milo/app/command/benchmark.h
@@ -1233,11 +1233,20 @@ namespace milo::app::command::benchmark
     run(
     ) -> void
     {
+        auto cpu_clock = app::args.parameter<uint64_t>(
+            "cpu-clock",
+            0
+        );
+        
+        if (cpu_clock > uint64_t(-1) / 1000000)
+        {
+            throw std::logic_error(
+                "Error. Value of --cpu-clock parameter is too large."
+            );
+        }
+        
         options = {
-            .cpu_clock = app::args.parameter<uint64_t>(
-                "cpu-clock",
-                0
-            ) * 1000000,
+            .cpu_clock = cpu_clock * 1000000,
             .repeats_warm = app::args.parameter<uint64_t>(
                 "repeats-warm",
                 128
-- 
2.43.0


From 3d9c8843d41057bcc960cf3b346d042151fca6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 22/22] fix: a benchmark pattern must match the whole name

---
 app/include/milo/app/pattern.h | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/app/include/milo/app/pattern.h b/app/include/milo/app/pattern.h
index fac4d9e..a075b01 100644
--- a/app/include/milo/app/pattern.h
+++ b/app/include/milo/app/pattern.h
@@ -74,6 +74,8 @@ namespace milo::app
             auto pattern = a_pattern.data() + pattern_pos_beg;
             auto pattern_size = pattern_pos_end - pattern_pos_beg;
             
+            auto message_pos_min = message_pos;
+            
             pattern_pos = pattern_pos_beg;
             message_pos = a_message.find(
                 pattern,
@@ -81,8 +83,33 @@ namespace milo::app
                 pattern_size
             );
             
-            if (message_pos == t_message::npos)
+            if (pattern_pos_end == a_pattern.size() && message_pos != t_message::npos)
+            {
+                /*
+                 * Nothing follows, must be at the end.
+                 */
+                message_pos = a_message.rfind(
+                    pattern,
+                    t_message::npos,
+                    pattern_size
+                );
+                
+                if (message_pos + pattern_size != a_message.size())
+                {
+                    return false;
+                }
+            }
+            
+            if (message_pos == t_message::npos || message_pos < message_pos_min)
+            {
+                return false;
+            }
+            
+            if (pattern_pos_beg == 0 && message_pos != 0)
             {
+                /*
+                 * Nothing precedes, must be at the beginning.
+                 */
                 return false;
             }
             
-- 
2.43.0

