From 6d204791568f1d3010673695e544967651a24c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:45 +0000
Subject: [PATCH 01/14] verif: add verification hooks guarded by
 cfg(graviola_verif)/cfg(kani)

---
 graviola/src/high/asn1.rs             |  2 ++
 graviola/src/high/asn1/pkix.rs        |  2 ++
 graviola/src/high/curve.rs            |  2 ++
 graviola/src/high/ecdsa.rs            |  2 ++
 graviola/src/high/ed25519.rs          |  2 ++
 graviola/src/high/hash.rs             |  2 ++
 graviola/src/high/hmac.rs             |  2 ++
 graviola/src/high/hmac_drbg.rs        |  2 ++
 graviola/src/high/pkcs1.rs            |  2 ++
 graviola/src/high/pkcs8.rs            |  2 ++
 graviola/src/high/rsa.rs              |  2 ++
 graviola/src/lib.rs                   | 32 +++++++++++++++++++++++++++
 graviola/src/low/generic/blockwise.rs |  2 ++
 graviola/src/low/generic/ct_copy.rs   |  2 ++
 graviola/src/low/generic/ct_equal.rs  |  2 ++
 graviola/src/low/generic/poly1305.rs  |  2 ++
 graviola/src/low/generic/sha256.rs    |  2 ++
 graviola/src/low/generic/sha512.rs    |  2 ++
 graviola/src/low/generic/zeroise.rs   |  2 ++
 graviola/src/low/mod.rs               |  2 ++
 graviola/src/low/posint.rs            |  2 ++
 graviola/src/low/x86_64/aes.rs        |  2 ++
 graviola/src/low/x86_64/aes_gcm.rs    |  2 ++
 graviola/src/low/x86_64/chacha20.rs   |  2 ++
 graviola/src/low/x86_64/cpu.rs        |  2 ++
 graviola/src/low/x86_64/ghash.rs      |  2 ++
 graviola/src/low/x86_64/mlkem.rs      |  2 ++
 graviola/src/low/x86_64/sha256.rs     |  2 ++
 graviola/src/low/x86_64/sha512.rs     |  2 ++
 graviola/src/mid/aes_gcm.rs           |  2 ++
 graviola/src/mid/chacha20poly1305.rs  |  2 ++
 graviola/src/mid/ed25519.rs           |  2 ++
 graviola/src/mid/mlkem768.rs          |  2 ++
 graviola/src/mid/p256.rs              |  2 ++
 graviola/src/mid/p384.rs              |  2 ++
 graviola/src/mid/rng.rs               |  2 ++
 graviola/src/mid/rsa_priv.rs          |  2 ++
 graviola/src/mid/rsa_priv/generate.rs |  2 ++
 graviola/src/mid/rsa_pub.rs           |  2 ++
 graviola/src/mid/sha2.rs              |  2 ++
 graviola/src/mid/sha3.rs              |  2 ++
 graviola/src/mid/util.rs              |  2 ++
 graviola/src/mid/x25519.rs            |  2 ++
 graviola/src/mid/xchacha20poly1305.rs |  2 ++
 rustls-graviola/src/aead.rs           |  2 ++
 rustls-graviola/src/kx/hybrid.rs      |  2 ++
 rustls-graviola/src/kx/mlkem.rs       |  2 ++
 rustls-graviola/src/lib.rs            | 18 +++++++++++++++
 rustls-graviola/src/sign.rs           |  2 ++
 rustls-graviola/src/ticketer.rs       |  2 ++
 rustls-graviola/src/verify.rs         |  2 ++
 51 files changed, 148 insertions(+)

diff --git a/graviola/src/high/asn1.rs b/graviola/src/high/asn1.rs
index bba1828..6d93769 100644
--- a/graviola/src/high/asn1.rs
+++ b/graviola/src/high/asn1.rs
@@ -1282,3 +1282,5 @@ mod tests {
         );
     }
 }
+
+verif_hook!("high_asn1.rs");
diff --git a/graviola/src/high/asn1/pkix.rs b/graviola/src/high/asn1/pkix.rs
index f3c4d8c..a306a2e 100644
--- a/graviola/src/high/asn1/pkix.rs
+++ b/graviola/src/high/asn1/pkix.rs
@@ -225,3 +225,5 @@ mod tests {
         assert_eq!(len, bytes.len());
     }
 }
+
+verif_hook!("high_asn1_pkix.rs");
diff --git a/graviola/src/high/curve.rs b/graviola/src/high/curve.rs
index 205cecb..1fe48d3 100644
--- a/graviola/src/high/curve.rs
+++ b/graviola/src/high/curve.rs
@@ -459,3 +459,5 @@ mod tests {
         }
     }
 }
+
+verif_hook!("high_curve.rs");
diff --git a/graviola/src/high/ecdsa.rs b/graviola/src/high/ecdsa.rs
index 2a6e056..62c826d 100644
--- a/graviola/src/high/ecdsa.rs
+++ b/graviola/src/high/ecdsa.rs
@@ -781,3 +781,5 @@ mod tests {
         }
     }
 }
+
+verif_hook!("high_ecdsa.rs");
diff --git a/graviola/src/high/ed25519.rs b/graviola/src/high/ed25519.rs
index 1a094c8..2ec7369 100644
--- a/graviola/src/high/ed25519.rs
+++ b/graviola/src/high/ed25519.rs
@@ -278,3 +278,5 @@ mod tests {
         );
     }
 }
+
+verif_hook!("high_ed25519.rs");
diff --git a/graviola/src/high/hash.rs b/graviola/src/high/hash.rs
index 8d1340d..7e9a959 100644
--- a/graviola/src/high/hash.rs
+++ b/graviola/src/high/hash.rs
@@ -451,3 +451,5 @@ mod tests {
         }
     }
 }
+
+verif_hook!("high_hash.rs");
diff --git a/graviola/src/high/hmac.rs b/graviola/src/high/hmac.rs
index 8f7c637..1b4d4a9 100644
--- a/graviola/src/high/hmac.rs
+++ b/graviola/src/high/hmac.rs
@@ -199,3 +199,5 @@ mod tests {
         process_cavp("../thirdparty/cavp/hmac/HMAC.rsp", &mut Cavp::default());
     }
 }
+
+verif_hook!("high_hmac.rs");
diff --git a/graviola/src/high/hmac_drbg.rs b/graviola/src/high/hmac_drbg.rs
index 28a42f1..5a338c7 100644
--- a/graviola/src/high/hmac_drbg.rs
+++ b/graviola/src/high/hmac_drbg.rs
@@ -140,3 +140,5 @@ mod tests {
         assert_eq!(&t2, b"\xC7\x0C\x78\x60\x8A\x3B\x5B\xE9\x28\x9B\xE9\x0E\xF6\xE8\x1A\x9E\x2C\x15\x16\xD5\x75\x1D\x2F\x75\xF5\x00\x33\xE4\x5F\x73\xBD\xEB");
     }
 }
+
+verif_hook!("high_hmac_drbg.rs");
diff --git a/graviola/src/high/pkcs1.rs b/graviola/src/high/pkcs1.rs
index ae9d4ee..bf75c8d 100644
--- a/graviola/src/high/pkcs1.rs
+++ b/graviola/src/high/pkcs1.rs
@@ -369,3 +369,5 @@ mod tests {
         verify_pss_sig::<hash::Sha256>(&mut buf, hash).unwrap();
     }
 }
+
+verif_hook!("high_pkcs1.rs");
diff --git a/graviola/src/high/pkcs8.rs b/graviola/src/high/pkcs8.rs
index 66d5bbf..7a9dca9 100644
--- a/graviola/src/high/pkcs8.rs
+++ b/graviola/src/high/pkcs8.rs
@@ -163,3 +163,5 @@ mod tests {
         );
     }
 }
+
+verif_hook!("high_pkcs8.rs");
diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 0519f9e..8afaecd 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -660,3 +660,5 @@ mod tests {
         }
     }
 }
+
+verif_hook!("high_rsa.rs");
diff --git a/graviola/src/lib.rs b/graviola/src/lib.rs
index c6564ae..e73c002 100644
--- a/graviola/src/lib.rs
+++ b/graviola/src/lib.rs
@@ -25,6 +25,31 @@
     unused_qualifications
 )]
 #![cfg_attr(coverage_nightly, feature(coverage_attribute))]
+#![allow(unexpected_cfgs)] // cfg(graviola_verif), see `verif_hook!`
+
+// Verification hook: expands to nothing unless built with `--cfg graviola_verif` (or by Kani).
+// Contract harnesses live outside this repository, in `$GRAVIOLA_VERIF_DIR`.
+#[cfg(any(kani, graviola_verif))]
+macro_rules! verif_hook {
+    ($file:literal) => {
+        #[allow(
+            missing_docs,
+            dead_code,
+            unused_imports,
+            unused_macros,
+            unreachable_pub,
+            clippy::all
+        )]
+        pub(crate) mod verif {
+            use super::*;
+            include!(concat!(env!("GRAVIOLA_VERIF_DIR"), "/", $file));
+        }
+    };
+}
+#[cfg(not(any(kani, graviola_verif)))]
+macro_rules! verif_hook {
+    ($file:literal) => {};
+}
 
 /// Low level operations.
 ///
@@ -187,3 +212,10 @@ pub mod random {
         SystemRandom.fill(out)
     }
 }
+
+/// Verification harness entry points; absent unless built with `--cfg graviola_verif` (or by Kani).
+#[cfg(any(kani, graviola_verif))]
+#[allow(missing_docs)]
+pub mod verif_root {
+    include!(concat!(env!("GRAVIOLA_VERIF_DIR"), "/root.rs"));
+}
diff --git a/graviola/src/low/generic/blockwise.rs b/graviola/src/low/generic/blockwise.rs
index 0a4b9bd..dc43e84 100644
--- a/graviola/src/low/generic/blockwise.rs
+++ b/graviola/src/low/generic/blockwise.rs
@@ -102,3 +102,5 @@ impl<const N: usize> AsRef<[u8]> for FinalBlocks<N> {
         }
     }
 }
+
+verif_hook!("low_generic_blockwise.rs");
diff --git a/graviola/src/low/generic/ct_copy.rs b/graviola/src/low/generic/ct_copy.rs
index 81e787a..86a5ed5 100644
--- a/graviola/src/low/generic/ct_copy.rs
+++ b/graviola/src/low/generic/ct_copy.rs
@@ -153,3 +153,5 @@ mod tests {
         assert_eq!(ct_select_i16(0, set, unset), unset);
     }
 }
+
+verif_hook!("low_generic_ct_copy.rs");
diff --git a/graviola/src/low/generic/ct_equal.rs b/graviola/src/low/generic/ct_equal.rs
index 38f0019..3689c82 100644
--- a/graviola/src/low/generic/ct_equal.rs
+++ b/graviola/src/low/generic/ct_equal.rs
@@ -12,3 +12,5 @@ pub(crate) fn ct_equal(a: &[u8], b: &[u8]) -> bool {
     let diff = unsafe { ct_compare_bytes(a.as_ptr(), b.as_ptr(), a.len()) };
     diff == 0
 }
+
+verif_hook!("low_generic_ct_equal.rs");
diff --git a/graviola/src/low/generic/poly1305.rs b/graviola/src/low/generic/poly1305.rs
index 69b5019..d7c56c0 100644
--- a/graviola/src/low/generic/poly1305.rs
+++ b/graviola/src/low/generic/poly1305.rs
@@ -294,3 +294,5 @@ mod tests {
         );
     }
 }
+
+verif_hook!("low_generic_poly1305.rs");
diff --git a/graviola/src/low/generic/sha256.rs b/graviola/src/low/generic/sha256.rs
index dfc5d5c..01873bf 100644
--- a/graviola/src/low/generic/sha256.rs
+++ b/graviola/src/low/generic/sha256.rs
@@ -114,3 +114,5 @@ static K: [u32; 64] = [
     0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
     0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
 ];
+
+verif_hook!("low_generic_sha256.rs");
diff --git a/graviola/src/low/generic/sha512.rs b/graviola/src/low/generic/sha512.rs
index 5827a65..9e3f6c6 100644
--- a/graviola/src/low/generic/sha512.rs
+++ b/graviola/src/low/generic/sha512.rs
@@ -186,3 +186,5 @@ static K: [u64; 80] = [
     0x5fcb6fab3ad6faec,
     0x6c44198c4a475817,
 ];
+
+verif_hook!("low_generic_sha512.rs");
diff --git a/graviola/src/low/generic/zeroise.rs b/graviola/src/low/generic/zeroise.rs
index 68eea39..651569f 100644
--- a/graviola/src/low/generic/zeroise.rs
+++ b/graviola/src/low/generic/zeroise.rs
@@ -33,3 +33,5 @@ impl Zeroable for core::arch::x86_64::__m512i {}
 impl Zeroable for core::arch::aarch64::uint8x16_t {}
 #[cfg(target_arch = "aarch64")]
 impl Zeroable for core::arch::aarch64::uint64x2_t {}
+
+verif_hook!("low_generic_zeroise.rs");
diff --git a/graviola/src/low/mod.rs b/graviola/src/low/mod.rs
index 843df17..9ddad11 100644
--- a/graviola/src/low/mod.rs
+++ b/graviola/src/low/mod.rs
@@ -210,3 +210,5 @@ cfg_if::cfg_if! {
         compile_error!("This crate only supports x86_64 or aarch64");
     }
 }
+
+verif_hook!("low.rs");
diff --git a/graviola/src/low/posint.rs b/graviola/src/low/posint.rs
index cfbdaff..59ddd48 100644
--- a/graviola/src/low/posint.rs
+++ b/graviola/src/low/posint.rs
@@ -1180,3 +1180,5 @@ mod tests {
         assert_eq!(c.as_words(), &[0x4210_c210_c210_c221]);
     }
 }
+
+verif_hook!("low_posint.rs");
diff --git a/graviola/src/low/x86_64/aes.rs b/graviola/src/low/x86_64/aes.rs
index 6fcca0b..aee66f0 100644
--- a/graviola/src/low/x86_64/aes.rs
+++ b/graviola/src/low/x86_64/aes.rs
@@ -454,3 +454,5 @@ mod tests {
         );
     }
 }
+
+verif_hook!("low_x86_64_aes.rs");
diff --git a/graviola/src/low/x86_64/aes_gcm.rs b/graviola/src/low/x86_64/aes_gcm.rs
index d23c05f..ef99380 100644
--- a/graviola/src/low/x86_64/aes_gcm.rs
+++ b/graviola/src/low/x86_64/aes_gcm.rs
@@ -527,3 +527,5 @@ mod tests {
         }
     }
 }
+
+verif_hook!("low_x86_64_aes_gcm.rs");
diff --git a/graviola/src/low/x86_64/chacha20.rs b/graviola/src/low/x86_64/chacha20.rs
index 6460891..a8bf230 100644
--- a/graviola/src/low/x86_64/chacha20.rs
+++ b/graviola/src/low/x86_64/chacha20.rs
@@ -713,3 +713,5 @@ mod tests {
         assert_eq!(buffer, expected);
     }
 }
+
+verif_hook!("low_x86_64_chacha20.rs");
diff --git a/graviola/src/low/x86_64/cpu.rs b/graviola/src/low/x86_64/cpu.rs
index c8ad5e3..eb8ef74 100644
--- a/graviola/src/low/x86_64/cpu.rs
+++ b/graviola/src/low/x86_64/cpu.rs
@@ -279,3 +279,5 @@ pub(crate) fn prefetch<T>(table: &[T], stride: usize) {
         _mm_prefetch(table.as_ptr().add(stride).cast(), _MM_HINT_T0);
     }
 }
+
+verif_hook!("low_x86_64_cpu.rs");
diff --git a/graviola/src/low/x86_64/ghash.rs b/graviola/src/low/x86_64/ghash.rs
index ab0e1bf..494ace0 100644
--- a/graviola/src/low/x86_64/ghash.rs
+++ b/graviola/src/low/x86_64/ghash.rs
@@ -491,3 +491,5 @@ mod tests {
         }
     }
 }
+
+verif_hook!("low_x86_64_ghash.rs");
diff --git a/graviola/src/low/x86_64/mlkem.rs b/graviola/src/low/x86_64/mlkem.rs
index 2a55b89..8715dcb 100644
--- a/graviola/src/low/x86_64/mlkem.rs
+++ b/graviola/src/low/x86_64/mlkem.rs
@@ -333,3 +333,5 @@ const MLKEM_REJ_UNIFORM_TABLE: [i8; 4096] = [
     2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, -1, -1, // 254
     0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, // 255
 ];
+
+verif_hook!("low_x86_64_mlkem.rs");
diff --git a/graviola/src/low/x86_64/sha256.rs b/graviola/src/low/x86_64/sha256.rs
index d4bc3dc..43522f8 100644
--- a/graviola/src/low/x86_64/sha256.rs
+++ b/graviola/src/low/x86_64/sha256.rs
@@ -149,3 +149,5 @@ static K: Aligned = Aligned([
     0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
     0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
 ]);
+
+verif_hook!("low_x86_64_sha256.rs");
diff --git a/graviola/src/low/x86_64/sha512.rs b/graviola/src/low/x86_64/sha512.rs
index 7e24efb..8b36217 100644
--- a/graviola/src/low/x86_64/sha512.rs
+++ b/graviola/src/low/x86_64/sha512.rs
@@ -570,3 +570,5 @@ static K: [u64; 80] = [
     0x5fcb6fab3ad6faec,
     0x6c44198c4a475817,
 ];
+
+verif_hook!("low_x86_64_sha512.rs");
diff --git a/graviola/src/mid/aes_gcm.rs b/graviola/src/mid/aes_gcm.rs
index ceaac92..835f955 100644
--- a/graviola/src/mid/aes_gcm.rs
+++ b/graviola/src/mid/aes_gcm.rs
@@ -279,3 +279,5 @@ mod tests {
         process_cavp("../thirdparty/cavp/gcm/gcmEncryptExtIV256.rsp", &mut state);
     }
 }
+
+verif_hook!("mid_aes_gcm.rs");
diff --git a/graviola/src/mid/chacha20poly1305.rs b/graviola/src/mid/chacha20poly1305.rs
index 1d350e9..03fd093 100644
--- a/graviola/src/mid/chacha20poly1305.rs
+++ b/graviola/src/mid/chacha20poly1305.rs
@@ -172,3 +172,5 @@ mod tests {
         );
     }
 }
+
+verif_hook!("mid_chacha20poly1305.rs");
diff --git a/graviola/src/mid/ed25519.rs b/graviola/src/mid/ed25519.rs
index aa0c2c4..f527cfe 100644
--- a/graviola/src/mid/ed25519.rs
+++ b/graviola/src/mid/ed25519.rs
@@ -460,3 +460,5 @@ mod test {
         }
     }
 }
+
+verif_hook!("mid_ed25519.rs");
diff --git a/graviola/src/mid/mlkem768.rs b/graviola/src/mid/mlkem768.rs
index d3f1b85..ee024ed 100644
--- a/graviola/src/mid/mlkem768.rs
+++ b/graviola/src/mid/mlkem768.rs
@@ -1052,3 +1052,5 @@ mod tests {
         );
     }
 }
+
+verif_hook!("mid_mlkem768.rs");
diff --git a/graviola/src/mid/p256.rs b/graviola/src/mid/p256.rs
index b48b4af..f46c9ee 100644
--- a/graviola/src/mid/p256.rs
+++ b/graviola/src/mid/p256.rs
@@ -1280,3 +1280,5 @@ mod tests {
         println!("table size is {} bytes", size_of_val(&precomp));
     }
 }
+
+verif_hook!("mid_p256.rs");
diff --git a/graviola/src/mid/p384.rs b/graviola/src/mid/p384.rs
index 35ac6e8..a023ef0 100644
--- a/graviola/src/mid/p384.rs
+++ b/graviola/src/mid/p384.rs
@@ -1142,3 +1142,5 @@ mod tests {
         println!("table size is {} bytes", size_of_val(&precomp));
     }
 }
+
+verif_hook!("mid_p384.rs");
diff --git a/graviola/src/mid/rng.rs b/graviola/src/mid/rng.rs
index 9c922ed..673b5ec 100644
--- a/graviola/src/mid/rng.rs
+++ b/graviola/src/mid/rng.rs
@@ -78,3 +78,5 @@ impl RandomSource for ChainRandomSource<'_> {
         Ok(())
     }
 }
+
+verif_hook!("mid_rng.rs");
diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 209eb77..39bc31e 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -238,3 +238,5 @@ type SecretRsaPosIntD = low::SecretPosInt<{ MAX_PRIVATE_MODULUS_WORDS * 2 }>;
 type RsaPosIntModP = low::PosInt<MAX_PRIVATE_MODULUS_WORDS>;
 type RsaPosIntD = low::PosInt<{ MAX_PRIVATE_MODULUS_WORDS * 2 }>;
 type RsaPosIntModN = low::PosInt<{ MAX_PRIVATE_MODULUS_WORDS * 2 }>;
+
+verif_hook!("mid_rsa_priv.rs");
diff --git a/graviola/src/mid/rsa_priv/generate.rs b/graviola/src/mid/rsa_priv/generate.rs
index 37185fc..d3c18b3 100644
--- a/graviola/src/mid/rsa_priv/generate.rs
+++ b/graviola/src/mid/rsa_priv/generate.rs
@@ -502,3 +502,5 @@ mod tests {
         }
     }
 }
+
+verif_hook!("mid_rsa_priv_generate.rs");
diff --git a/graviola/src/mid/rsa_pub.rs b/graviola/src/mid/rsa_pub.rs
index f734e0a..571916f 100644
--- a/graviola/src/mid/rsa_pub.rs
+++ b/graviola/src/mid/rsa_pub.rs
@@ -110,3 +110,5 @@ mod tests {
         println!("m = {mb:02x?}");
     }
 }
+
+verif_hook!("mid_rsa_pub.rs");
diff --git a/graviola/src/mid/sha2.rs b/graviola/src/mid/sha2.rs
index 575c8cb..df51a93 100644
--- a/graviola/src/mid/sha2.rs
+++ b/graviola/src/mid/sha2.rs
@@ -294,3 +294,5 @@ mod tests {
                    b"\x61\x20\x81\x2e\xd5\x0c\xc3\x11\x67\x04\x3f\x1f\x06\x9d\xcd\x4a\xd8\x83\x23\xd9\x96\x53\xd9\x67\x38\x2c\xc3\x44\x25\x69\x53\x1c\xd0\x3d\xe4\x79\x0a\x71\xde\x88\x45\x44\x66\x80\xb8\xc5\x90\xb3\x07\xc8\xae\x52\x57\x67\xf9\x28\xf8\xda\x9e\x9e\x80\xc9\x35\x5e");
     }
 }
+
+verif_hook!("mid_sha2.rs");
diff --git a/graviola/src/mid/sha3.rs b/graviola/src/mid/sha3.rs
index e375ac1..dd5d120 100644
--- a/graviola/src/mid/sha3.rs
+++ b/graviola/src/mid/sha3.rs
@@ -806,3 +806,5 @@ mod tests {
         );
     }
 }
+
+verif_hook!("mid_sha3.rs");
diff --git a/graviola/src/mid/util.rs b/graviola/src/mid/util.rs
index f606639..4c1323f 100644
--- a/graviola/src/mid/util.rs
+++ b/graviola/src/mid/util.rs
@@ -117,3 +117,5 @@ big_endian!(
     big_endian_slice_any_size_to_u64x6,
     u64x6_to_big_endian
 );
+
+verif_hook!("mid_util.rs");
diff --git a/graviola/src/mid/x25519.rs b/graviola/src/mid/x25519.rs
index b6b67e2..afb013f 100644
--- a/graviola/src/mid/x25519.rs
+++ b/graviola/src/mid/x25519.rs
@@ -279,3 +279,5 @@ mod tests {
         );
     }
 }
+
+verif_hook!("mid_x25519.rs");
diff --git a/graviola/src/mid/xchacha20poly1305.rs b/graviola/src/mid/xchacha20poly1305.rs
index 87886d7..393afbd 100644
--- a/graviola/src/mid/xchacha20poly1305.rs
+++ b/graviola/src/mid/xchacha20poly1305.rs
@@ -167,3 +167,5 @@ mod tests {
         );
     }
 }
+
+verif_hook!("mid_xchacha20poly1305.rs");
diff --git a/rustls-graviola/src/aead.rs b/rustls-graviola/src/aead.rs
index 52d4d49..913cc70 100644
--- a/rustls-graviola/src/aead.rs
+++ b/rustls-graviola/src/aead.rs
@@ -537,3 +537,5 @@ mod tests {
         test_aes_gcm_tls12(256);
     }
 }
+
+verif_hook!("rustls_aead.rs");
diff --git a/rustls-graviola/src/kx/hybrid.rs b/rustls-graviola/src/kx/hybrid.rs
index 13b58ca..71d1409 100644
--- a/rustls-graviola/src/kx/hybrid.rs
+++ b/rustls-graviola/src/kx/hybrid.rs
@@ -189,3 +189,5 @@ impl Layout {
 }
 
 const INVALID_KEY_SHARE: Error = Error::PeerMisbehaved(PeerMisbehaved::InvalidKeyShare);
+
+verif_hook!("rustls_kx_hybrid.rs");
diff --git a/rustls-graviola/src/kx/mlkem.rs b/rustls-graviola/src/kx/mlkem.rs
index c8eebb7..22fa044 100644
--- a/rustls-graviola/src/kx/mlkem.rs
+++ b/rustls-graviola/src/kx/mlkem.rs
@@ -109,3 +109,5 @@ mod tests {
         assert!(key.start_and_complete(peer_public_key).is_ok());
     }
 }
+
+verif_hook!("rustls_kx_mlkem.rs");
diff --git a/rustls-graviola/src/lib.rs b/rustls-graviola/src/lib.rs
index e8a59fe..3abfee2 100644
--- a/rustls-graviola/src/lib.rs
+++ b/rustls-graviola/src/lib.rs
@@ -13,8 +13,26 @@
 //!
 //! And then use rustls as normal.
 
+#![allow(unexpected_cfgs)] // cfg(graviola_verif), see `verif_hook!`
+
 use rustls::crypto::CryptoProvider;
 
+// Verification hook: expands to nothing unless built with `--cfg graviola_verif` (or by Kani).
+#[cfg(any(kani, graviola_verif))]
+macro_rules! verif_hook {
+    ($file:literal) => {
+        #[allow(dead_code, unused_imports, unused_macros, clippy::all)]
+        pub(crate) mod verif {
+            use super::*;
+            include!(concat!(env!("GRAVIOLA_VERIF_DIR"), "/", $file));
+        }
+    };
+}
+#[cfg(not(any(kani, graviola_verif)))]
+macro_rules! verif_hook {
+    ($file:literal) => {};
+}
+
 mod aead;
 mod hash;
 mod hmac;
diff --git a/rustls-graviola/src/sign.rs b/rustls-graviola/src/sign.rs
index ba4d0b5..0f84ac3 100644
--- a/rustls-graviola/src/sign.rs
+++ b/rustls-graviola/src/sign.rs
@@ -589,3 +589,5 @@ mod tests {
         assert_eq!(format!("{ed25519:?}"), "Ed25519 { .. }");
     }
 }
+
+verif_hook!("rustls_sign.rs");
diff --git a/rustls-graviola/src/ticketer.rs b/rustls-graviola/src/ticketer.rs
index 4653153..0d5925d 100644
--- a/rustls-graviola/src/ticketer.rs
+++ b/rustls-graviola/src/ticketer.rs
@@ -184,3 +184,5 @@ mod tests {
         }
     }
 }
+
+verif_hook!("rustls_ticketer.rs");
diff --git a/rustls-graviola/src/verify.rs b/rustls-graviola/src/verify.rs
index 22d698b..43f54a5 100644
--- a/rustls-graviola/src/verify.rs
+++ b/rustls-graviola/src/verify.rs
@@ -344,3 +344,5 @@ mod tests {
         );
     }
 }
+
+verif_hook!("rustls_verify.rs");
-- 
2.43.0


From d0ad084a25ceaeee8b085384ee7ef57eb1ffe265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:49 +0000
Subject: [PATCH 02/14] fix: reject P-256/P-384 public points with coordinates
 not less than p

---
 graviola/src/mid/p256.rs | 27 +++++++++++++++++++++++----
 graviola/src/mid/p384.rs | 29 +++++++++++++++++++++++++----
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/graviola/src/mid/p256.rs b/graviola/src/mid/p256.rs
index f46c9ee..1c93638 100644
--- a/graviola/src/mid/p256.rs
+++ b/graviola/src/mid/p256.rs
@@ -261,10 +261,16 @@ impl AffineMontPoint {
         let (_, xy) = bytes.split_at(1);
         let (x, y) = xy.split_at(FieldElement::BYTES);
 
-        let point = Self::from_xy(
-            FieldElement(util::big_endian_slice_to_u64x4(x).unwrap()).as_mont(),
-            FieldElement(util::big_endian_slice_to_u64x4(y).unwrap()).as_mont(),
-        );
+        let x = FieldElement(util::big_endian_slice_to_u64x4(x).unwrap());
+        let y = FieldElement(util::big_endian_slice_to_u64x4(y).unwrap());
+
+        // field elements must be canonical; ie less than p.
+        // see SEC1 section 2.3.6
+        if !x.public_is_canonical() || !y.public_is_canonical() {
+            return Err(Error::NotOnCurve);
+        }
+
+        let point = Self::from_xy(x.as_mont(), y.as_mont());
 
         if !point.on_curve() {
             return Err(Error::NotOnCurve);
@@ -763,6 +769,11 @@ impl FieldElement {
         self.0 == other.0
     }
 
+    /// Public check that this is a fully-reduced field element.
+    fn public_is_canonical(&self) -> bool {
+        low::bignum_cmp_lt(&self.0, &CURVE_P) != 0
+    }
+
     /// Return p0 if select == 0, p1 otherwise
     fn select(p0: &Self, p1: &Self, select: u8) -> Self {
         let mut r = Self::default();
@@ -1066,6 +1077,14 @@ type AffineMontPointTableW7 = [[u64; 512]; 37];
 
 type JacobianMontPointTableW5 = [u64; 192];
 
+/// The field prime p.
+const CURVE_P: [u64; 4] = [
+    0xffff_ffff_ffff_ffff,
+    0x0000_0000_ffff_ffff,
+    0x0000_0000_0000_0000,
+    0xffff_ffff_0000_0001,
+];
+
 const CURVE_A_MONT: FieldElement = FieldElement([
     0xffff_ffff_ffff_fffc,
     0x0000_0003_ffff_ffff,
diff --git a/graviola/src/mid/p384.rs b/graviola/src/mid/p384.rs
index a023ef0..323818a 100644
--- a/graviola/src/mid/p384.rs
+++ b/graviola/src/mid/p384.rs
@@ -261,10 +261,16 @@ impl AffineMontPoint {
         let (_, xy) = bytes.split_at(1);
         let (x, y) = xy.split_at(FieldElement::BYTES);
 
-        let point = Self::from_xy(
-            FieldElement(util::big_endian_slice_to_u64x6(x).unwrap()).as_mont(),
-            FieldElement(util::big_endian_slice_to_u64x6(y).unwrap()).as_mont(),
-        );
+        let x = FieldElement(util::big_endian_slice_to_u64x6(x).unwrap());
+        let y = FieldElement(util::big_endian_slice_to_u64x6(y).unwrap());
+
+        // field elements must be canonical; ie less than p.
+        // see SEC1 section 2.3.6
+        if !x.public_is_canonical() || !y.public_is_canonical() {
+            return Err(Error::NotOnCurve);
+        }
+
+        let point = Self::from_xy(x.as_mont(), y.as_mont());
 
         if !point.on_curve() {
             return Err(Error::NotOnCurve);
@@ -644,6 +650,11 @@ impl FieldElement {
         self.0 == other.0
     }
 
+    /// Public check that this is a fully-reduced field element.
+    fn public_is_canonical(&self) -> bool {
+        low::bignum_cmp_lt(&self.0, &CURVE_P) != 0
+    }
+
     /// Return p0 if select == 0, p1 otherwise
     fn select(p0: &Self, p1: &Self, select: u8) -> Self {
         let mut r = Self::default();
@@ -896,6 +907,16 @@ impl Iterator for BoothRecodeW5 {
 /// 16 jacobian points
 type JacobianMontPointTableW5 = [u64; 288];
 
+/// The field prime p.
+const CURVE_P: [u64; 6] = [
+    0x0000_0000_ffff_ffff,
+    0xffff_ffff_0000_0000,
+    0xffff_ffff_ffff_fffe,
+    0xffff_ffff_ffff_ffff,
+    0xffff_ffff_ffff_ffff,
+    0xffff_ffff_ffff_ffff,
+];
+
 const CURVE_A_MONT: FieldElement = FieldElement([
     0x0000_0003_ffff_fffc,
     0xffff_fffc_0000_0000,
-- 
2.43.0


From 0a795ff9353c189a4f17e9ee8840a6adc184e7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:51 +0000
Subject: [PATCH 03/14] fix: reject trailing data after PKCS#8 private key

---
 graviola/src/high/pkcs8.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graviola/src/high/pkcs8.rs b/graviola/src/high/pkcs8.rs
index 7a9dca9..debbe7f 100644
--- a/graviola/src/high/pkcs8.rs
+++ b/graviola/src/high/pkcs8.rs
@@ -26,8 +26,7 @@ impl<'a> Key<'a> {
         algorithm: &asn1::ObjectId,
         parameters: Option<asn1::Any<'_>>,
     ) -> Result<Self, Error> {
-        let oak = pkix::OneAsymmetricKey::parse(&mut asn1::Parser::new(slice))
-            .map_err(Error::Asn1Error)?;
+        let oak = pkix::OneAsymmetricKey::from_bytes(slice).map_err(Error::Asn1Error)?;
 
         match (oak.version, oak.publicKey.inner()) {
             (pkix::Pkcs8Version::Pkcs8v1, None) => {}
-- 
2.43.0


From 73f45918cac0e95c329d4579ebfa812ea7367dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:53 +0000
Subject: [PATCH 04/14] fix: require RSA signatures to be exactly the modulus
 length

---
 graviola/src/high/rsa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 8afaecd..97ed746 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -139,6 +139,9 @@ impl VerifyingKey {
         digest_info: &[u8],
         hash: &[u8],
     ) -> Result<(), Error> {
+        if signature.len() != self.0.modulus_len_bytes() {
+            return Err(Error::BadSignature);
+        }
         let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
@@ -212,7 +215,7 @@ impl VerifyingKey {
     fn _verify_pss<H: Hash>(&self, signature: &[u8], message: &[u8]) -> Result<(), Error> {
         let hash = H::hash(message);
 
-        if signature.len() > self.0.modulus_len_bytes() {
+        if signature.len() != self.0.modulus_len_bytes() {
             return Err(Error::BadSignature);
         }
         let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
-- 
2.43.0


From 1be983f1504176f4448337be4859e67e34318eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:57 +0000
Subject: [PATCH 05/14] fix: RSA private operation failed for some messages
 when p < q

---
 graviola/src/mid/rsa_priv.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 39bc31e..a531786 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -164,8 +164,12 @@ impl RsaPrivateKey {
         // (we don't support multiprime rsa)
 
         // iii. Let h = (m_1 - m_2) * qInv mod p.
+        // (nb. m_2 is less than q, which may be larger than p: reduce it first)
+        let m_2_mod_p = m_2
+            .to_montgomery(&self.p_montifier, &self.p)
+            .from_montgomery(&self.p);
         let h = m_1
-            .sub_mod(&m_2, &self.p)
+            .sub_mod(&m_2_mod_p, &self.p)
             .mont_mul(&self.iqmp_mont, &self.p, self.p0);
 
         // iv.  Let m = m_2 + q * h.
-- 
2.43.0


From 6427c562f77a49ef84c54b902f861789222bc46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 06/14] fix: reject RSA private keys which would panic on use

---
 graviola/src/mid/rsa_priv.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index a531786..8e0cbeb 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -41,6 +41,10 @@ impl RsaPrivateKey {
         if p.is_even()
             || q.is_even()
             || !(MIN_PRIVATE_MODULUS_BYTES..=MAX_PRIVATE_MODULUS_BYTES).contains(&p_len)
+            // `private_op` needs p and q at the same word width, and non-zero exponents
+            || p_len.div_ceil(8) != q.len_bytes().div_ceil(8)
+            || dp.is_zero()
+            || dq.is_zero()
         {
             return Err(Error::OutOfRange);
         }
-- 
2.43.0


From aeaa69e3a87a5899177686bb6f655c8bc98cb3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:01 +0000
Subject: [PATCH 07/14] fix: RSA public exponents of 2^31 and above were
 exported as negative

---
 graviola/src/high/rsa.rs     | 4 +++-
 graviola/src/mid/rsa_priv.rs | 9 +++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 97ed746..2876751 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -85,7 +85,9 @@ impl VerifyingKey {
 
         let mut buffer = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES + 1];
         let public_modulus = self.0.n.to_bytes_asn1(&mut buffer)?;
-        let public_exponent = self.0.e.to_be_bytes();
+        // (with a zero prefix, so the ASN.1 encoding is positive)
+        let mut public_exponent = [0u8; 1 + 4];
+        public_exponent[1..].copy_from_slice(&self.0.e.to_be_bytes());
 
         let pub_key = pkix::RSAPublicKey {
             modulus: asn1::Integer::new(public_modulus),
diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 8e0cbeb..fc431d8 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -100,7 +100,7 @@ impl RsaPrivateKey {
         buffer: &'a mut RsaComponentsBuffer,
     ) -> Result<RsaComponents<'a>, Error> {
         let (public_modulus, buffer) = buffer.0.split_at_mut(MAX_PUBLIC_MODULUS_BYTES + 1);
-        let (public_exponent, buffer) = buffer.split_at_mut(4);
+        let (public_exponent, buffer) = buffer.split_at_mut(1 + 4);
         let (p, buffer) = buffer.split_at_mut(MAX_PRIVATE_MODULUS_BYTES + 1);
         let (q, buffer) = buffer.split_at_mut(MAX_PRIVATE_MODULUS_BYTES + 1);
         let (d, buffer) = buffer.split_at_mut(MAX_PUBLIC_MODULUS_BYTES + 1);
@@ -109,7 +109,8 @@ impl RsaPrivateKey {
         let (iqmp, _) = buffer.split_at_mut(MAX_PRIVATE_MODULUS_BYTES + 1);
 
         let public_modulus = self.public.n.to_bytes_asn1(public_modulus)?;
-        public_exponent.copy_from_slice(&self.public.e.to_be_bytes());
+        // (with a zero prefix, so the ASN.1 encoding is positive)
+        public_exponent[1..].copy_from_slice(&self.public.e.to_be_bytes());
 
         let p = self.p.to_bytes_asn1(p)?;
         let q = self.q.to_bytes_asn1(q)?;
@@ -217,7 +218,7 @@ impl RsaComponentsBuffer {
         // public modulus and private exponent
         (MAX_PUBLIC_MODULUS_BYTES + 1) * 2 +
             // public exponent
-            4 +
+            1 + 4 +
             // private moduli and crt components
             (MAX_PRIVATE_MODULUS_BYTES + 1) * 5;
 }
@@ -230,7 +231,7 @@ impl Drop for RsaComponentsBuffer {
 
 impl Default for RsaComponentsBuffer {
     fn default() -> Self {
-        Self([0u8; 4619])
+        Self([0u8; Self::LEN])
     }
 }
 
-- 
2.43.0


From 95caa134b78f8487a993e33335d929e26de95828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:16 +0000
Subject: [PATCH 08/14] fix: reject oversized TLS1.2 ChaCha20-Poly1305 records

---
 rustls-graviola/src/aead.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rustls-graviola/src/aead.rs b/rustls-graviola/src/aead.rs
index 913cc70..442ad8b 100644
--- a/rustls-graviola/src/aead.rs
+++ b/rustls-graviola/src/aead.rs
@@ -177,6 +177,10 @@ impl MessageDecrypter for ChaChaTls12Cipher {
             .decrypt(&nonce.0, &aad, payload, tag)
             .map_err(|_| rustls::Error::DecryptError)?;
 
+        if cipher_len > MAX_FRAGMENT_LEN {
+            return Err(rustls::Error::PeerSentOversizedRecord);
+        }
+
         m.payload.truncate(cipher_len);
         Ok(m.into_plain_message())
     }
-- 
2.43.0


From 59e945cd2b406d29783998dd43b93430c50bc703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:18 +0000
Subject: [PATCH 09/14] fix: montgomery reduction could return n instead of
 zero

---
 graviola/src/low/posint.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graviola/src/low/posint.rs b/graviola/src/low/posint.rs
index 59ddd48..c0b8cf1 100644
--- a/graviola/src/low/posint.rs
+++ b/graviola/src/low/posint.rs
@@ -479,7 +479,8 @@ impl<const N: usize> PosInt<N> {
     fn mont_reduce8(product: &mut [u64], n: &Self, n0: u64) -> Self {
         let carry = low::bignum_emontredc_8n(product, n.as_words(), n0);
         let (_, reduced) = product.split_at(product.len() / 2);
-        let carry = carry | low::bignum_cmp_lt(n.as_words(), reduced);
+        // nb. the subtraction is also needed if `reduced == n`.
+        let carry = carry | (low::bignum_cmp_lt(reduced, n.as_words()) ^ 1);
 
         let mut result = Self::zero();
         result.used = n.used;
@@ -493,7 +494,8 @@ impl<const N: usize> PosInt<N> {
     fn mont_reduce8_in_place(&mut self, product: &mut [u64], n: &Self, n0: u64) {
         let carry = low::bignum_emontredc_8n(product, n.as_words(), n0);
         let (_, reduced) = product.split_at(product.len() / 2);
-        let carry = carry | low::bignum_cmp_lt(n.as_words(), reduced);
+        // nb. the subtraction is also needed if `reduced == n`.
+        let carry = carry | (low::bignum_cmp_lt(reduced, n.as_words()) ^ 1);
 
         self.used = n.used;
         low::bignum_optsub(self.as_mut_words(), reduced, n.as_words(), carry);
-- 
2.43.0


From eca9dd07f15b12771e867f362592926675146323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:51 +0000
Subject: [PATCH 10/14] fix: reject RSA private keys with negative components

These were previously treated as if they were positive, so each key
had several accepted encodings.
---
 graviola/src/high/rsa.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 2876751..7c2bc00 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -284,7 +284,16 @@ impl SigningKey {
             return Err(Error::OutOfRange);
         }
 
-        if decoded.modulus.is_negative() {
+        let integers = [
+            &decoded.modulus,
+            &decoded.privateExponent,
+            &decoded.prime1,
+            &decoded.prime2,
+            &decoded.exponent1,
+            &decoded.exponent2,
+            &decoded.coefficient,
+        ];
+        if integers.iter().any(|i| i.is_negative()) {
             return Err(Error::OutOfRange);
         }
 
-- 
2.43.0


From d46508ca6b283a66ccdd81fd6000b2296ee786f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:14 +0000
Subject: [PATCH 11/14] fix: reject Ed25519 SPKI with algorithm parameters

---
 graviola/src/high/ed25519.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graviola/src/high/ed25519.rs b/graviola/src/high/ed25519.rs
index 2ec7369..9f6c836 100644
--- a/graviola/src/high/ed25519.rs
+++ b/graviola/src/high/ed25519.rs
@@ -23,6 +23,11 @@ impl Ed25519VerifyingKey {
             return Err(KeyFormatError::MismatchedSpkiAlgorithm.into());
         }
 
+        // RFC8410 section 3: "the parameters MUST be absent"
+        if decoded.algorithm.parameters.is_some() {
+            return Err(KeyFormatError::MismatchedSpkiAlgorithm.into());
+        }
+
         Self::from_bytes(decoded.subjectPublicKey.as_octets())
     }
 
-- 
2.43.0


From 356e9516320e4c07386691974679795bbddc1bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:33 +0000
Subject: [PATCH 12/14] fix: check the public key in PKCS#8 v2 EC and RSA
 private keys

It was ignored, so a key with any embedded public key was accepted.
---
 graviola/src/high/ecdsa.rs | 18 +++++++++++++++---
 graviola/src/high/rsa.rs   | 17 +++++++++++++----
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/graviola/src/high/ecdsa.rs b/graviola/src/high/ecdsa.rs
index 62c826d..3e11a95 100644
--- a/graviola/src/high/ecdsa.rs
+++ b/graviola/src/high/ecdsa.rs
@@ -33,12 +33,24 @@ impl<C: Curve> SigningKey<C> {
     /// Load an ECDSA private key in PKCS#8 format.
     pub fn from_pkcs8_der(bytes: &[u8]) -> Result<Self, Error> {
         let _entry = Entry::new_secret();
-        pkcs8::Key::decode(
+        let p8 = pkcs8::Key::decode(
             bytes,
             &asn1::oid::id_ecPublicKey,
             Some(asn1::Any::ObjectId(C::oid())),
-        )
-        .and_then(|k| Self::from_sec1_der(k.private_key()))
+        )?;
+        let key = Self::from_sec1_der(p8.private_key())?;
+
+        if let Some(alleged_pub_key) = p8.public_key() {
+            let mut pub_key_buf = [0u8; MAX_UNCOMPRESSED_PUBLIC_KEY_LEN];
+            let actual_pub_key = key
+                .private_key
+                .public_key_encode_uncompressed(&mut pub_key_buf)?;
+            if alleged_pub_key != actual_pub_key {
+                return Err(KeyFormatError::MismatchedPkcs8PublicKey.into());
+            }
+        }
+
+        Ok(key)
     }
 
     /// Encode this private key in PKCS#8 DER format.
diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 7c2bc00..a866f81 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -3,7 +3,7 @@
 
 pub use rsa_priv::KeySize;
 
-use crate::Error;
+use crate::error::{Error, KeyFormatError};
 use crate::high::asn1::{self, Type, pkix};
 use crate::high::hash::{self, Hash};
 use crate::high::{pkcs1, pkcs8};
@@ -380,12 +380,21 @@ impl SigningKey {
     /// `privateKeyAlgorithm` inside this encoding must be `rsaEncryption`.
     pub fn from_pkcs8_der(bytes: &[u8]) -> Result<Self, Error> {
         let _entry = Entry::new_secret();
-        pkcs8::Key::decode(
+        let p8 = pkcs8::Key::decode(
             bytes,
             &asn1::oid::rsaEncryption,
             Some(asn1::Any::Null(asn1::Null)),
-        )
-        .and_then(|k| Self::from_pkcs1_der(k.private_key()))
+        )?;
+        let key = Self::from_pkcs1_der(p8.private_key())?;
+
+        if let Some(alleged_pub_key) = p8.public_key() {
+            let mut pub_key_buf = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES + 64];
+            if alleged_pub_key != key.public_key().to_pkcs1_der(&mut pub_key_buf)? {
+                return Err(KeyFormatError::MismatchedPkcs8PublicKey.into());
+            }
+        }
+
+        Ok(key)
     }
 
     /// Returns the matching public key.
-- 
2.43.0


From 76297cf56efa4cab47418428612ce0a9672afd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:49 +0000
Subject: [PATCH 13/14] fix: RSA moduli which are not a multiple of 64 bits
 long

Signatures were produced with the wrong length, and no signature was
accepted, because integers were encoded at their word width.
---
 graviola/src/high/rsa.rs   | 16 +++++++++++-----
 graviola/src/low/posint.rs | 14 ++++++++++++++
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index a866f81..c39e0a3 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -148,7 +148,8 @@ impl VerifyingKey {
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
         let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m_bytes = m.to_bytes(&mut m_bytes)?;
+        let m_bytes = &mut m_bytes[..self.0.modulus_len_bytes()];
+        m.to_bytes_fixed(m_bytes)?;
 
         let mut actual_m = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
         let actual_m = &mut actual_m[..self.0.modulus_len_bytes()];
@@ -224,9 +225,10 @@ impl VerifyingKey {
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
         let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m_bytes_len = m.to_bytes(&mut m_bytes)?.len();
+        let m_bytes = &mut m_bytes[..self.0.modulus_len_bytes()];
+        m.to_bytes_fixed(m_bytes)?;
 
-        pkcs1::verify_pss_sig::<H>(&mut m_bytes[..m_bytes_len], hash.as_ref())
+        pkcs1::verify_pss_sig::<H>(m_bytes, hash.as_ref())
     }
 }
 
@@ -545,7 +547,9 @@ impl SigningKey {
 
         let m = PosInt::from_bytes(m)?;
         let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
-        c.to_bytes(signature)
+        let signature = &mut signature[..self.0.modulus_len_bytes()];
+        c.to_bytes_fixed(signature)?;
+        Ok(signature)
     }
 
     fn _sign_pss<'a, H: Hash>(
@@ -565,7 +569,9 @@ impl SigningKey {
         pkcs1::encode_pss_sig::<H>(m, &mut SystemRandom, hash.as_ref())?;
         let m = PosInt::from_bytes(m)?;
         let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
-        c.to_bytes(signature)
+        let signature = &mut signature[..self.0.modulus_len_bytes()];
+        c.to_bytes_fixed(signature)?;
+        Ok(signature)
     }
 }
 
diff --git a/graviola/src/low/posint.rs b/graviola/src/low/posint.rs
index c0b8cf1..c8f94fc 100644
--- a/graviola/src/low/posint.rs
+++ b/graviola/src/low/posint.rs
@@ -125,6 +125,20 @@ impl<const N: usize> PosInt<N> {
         Ok(out)
     }
 
+    /// Like `to_bytes`, but fills `out` irrespective of the word-width of `self`.
+    pub(crate) fn to_bytes_fixed(&self, out: &mut [u8]) -> Result<(), Error> {
+        if self.len_bytes() > out.len() {
+            return Err(Error::OutOfRange);
+        }
+
+        out.fill(0x00);
+        for (chunk, word) in out.rchunks_mut(8).zip(self.as_words().iter()) {
+            chunk.copy_from_slice(&word.to_be_bytes()[8 - chunk.len()..]);
+        }
+
+        Ok(())
+    }
+
     #[allow(dead_code)]
     pub(crate) fn debug(&self, why: &str) {
         let mut bytes = [0u8; 1024];
-- 
2.43.0


From 800aa64b4ab87da25d48ee168b983e3aa6523c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:01 +0000
Subject: [PATCH 14/14] fix: PosInt::add_shift_right_1 misplaced the carry

This happened if the N-word sum wrapped to a value with zero top words.
---
 graviola/src/low/posint.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graviola/src/low/posint.rs b/graviola/src/low/posint.rs
index c8f94fc..dcd78b4 100644
--- a/graviola/src/low/posint.rs
+++ b/graviola/src/low/posint.rs
@@ -779,7 +779,11 @@ impl<const N: usize> PosInt<N> {
     pub(crate) fn add_shift_right_1(&self, b: &Self) -> Self {
         let mut tmp = Self::zero();
         let carry = low::bignum_add(&mut tmp.words, self.as_words(), b.as_words());
-        tmp.used = low::bignum_digitsize(&tmp.words);
+        // (a carry means the sum is wider than `N` words)
+        tmp.used = match carry {
+            0 => low::bignum_digitsize(&tmp.words),
+            _ => N,
+        };
 
         let mut r = Self::zero();
         low::bignum_shr_small(&mut r.words, tmp.as_words(), 1);
-- 
2.43.0

