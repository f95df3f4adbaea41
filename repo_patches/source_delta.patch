From 1f1fcf699b34e1b5afa2660de3dddfb19a68de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:12 +0000
Subject: [PATCH 01/22] fix: range bit operations no longer overflow on huge or
 zero lengths

`offset + length` overflowed u32 (panic, or a wrapped value that passed the
range check), and a length of 0 shifted an integer by its full width (panic, or
a mask covering every bit).
---
 .../bitfield/features/set_get_bit_ops_feature.rs      | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
index 4d4badc..dd119b3 100644
--- a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
@@ -130,7 +130,8 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_tokens
                     #check_offset_and_length_bitfield_range_tokens
-                    let range_mask = (#bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length)) << offset;
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
+                    let range_mask = mask << offset;
                     #protected_mask
                     let writable_mask = range_mask & !protected_mask;
                     #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !writable_mask) | ((value << offset) & writable_mask);
@@ -145,7 +146,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #check_offset_and_length_bitfield_range_error_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
@@ -326,7 +327,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_return_zero_tokens
                     #check_offset_and_length_bitfield_range_return_zero_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
                     #protected_mask
                     let shifted_protected_mask = (protected_mask >> offset) & mask;
                     let readable_mask = mask & !shifted_protected_mask;
@@ -341,7 +342,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #check_offset_and_length_bitfield_range_error_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
@@ -475,7 +476,7 @@ impl SetGetBitOpsFeature {
         let guard_return_tokens = Self::get_guard_return_tokens(bitfield, guard_return_type);
 
         quote! {
-            if offset + length > #bitfield_data_type_bits_tokens {
+            if length > #bitfield_data_type_bits_tokens - offset {
                 #guard_return_tokens
             }
         }
-- 
2.43.0


From cc3b58283c62a0e52067b17ead78b1ce1661b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:12 +0000
Subject: [PATCH 02/22] fix: default values above 32 bits are no longer
 truncated to i32

The default was passed to the setter as `<literal> as _`, so an unsuffixed
literal was typed i32 and lost its upper bits.
---
 .../generating/bitfield/features/common/generator_helper.rs   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 18456b3..3560fdd 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -592,8 +592,10 @@ fn generate_field_setter_call_tokens(
                     #bitfield_variable_reference.#field_setter_ident_tokens(#value_tokens);
                 }
             } else {
+                // Name the type instead of `as _`, which leaves an unsuffixed literal an `i32`.
+                let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
                 quote! {
-                    #bitfield_variable_reference.#field_setter_ident_tokens(#value_tokens as _);
+                    #bitfield_variable_reference.#field_setter_ident_tokens((#value_tokens) as #field_data_type_tokens);
                 }
             }
         },
-- 
2.43.0


From e525e88e08cddaa9cf2694f50ec8d01f48a5dc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:43 +0000
Subject: [PATCH 03/22] fix: the write_bit_ops argument controls the write
 operations

---
 .../src/generating/bitfield/features/write_bit_ops_feature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
index 3421538..bedad8c 100644
--- a/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
@@ -23,8 +23,8 @@ impl Feature for WriteBitOpsFeature {
     fn enabled(&self, bitfield: &Bitfield) -> bool {
         is_bit_ops_feature_enabled(
             bitfield,
-            bitfield.arguments().generate_bit_ops(),
-            bitfield.arguments().generate_set_get_bit_ops(),
+            bitfield.arguments().generate_write_bit_ops(),
+            bitfield.arguments().user_set_generate_write_bit_ops(),
         )
     }
 
-- 
2.43.0


From f9ed798bffffb133142b7d1a5b1599c1be11ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:43 +0000
Subject: [PATCH 04/22] fix: derive Copy through core so no_std crates compile

---
 .../generating/bitfield/features/bitfield_struct_feature.rs   | 4 ++--
 bitfields_impl/src/generating/bitflag/bitflag_generator.rs    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
index 1a99875..24fd9e8 100644
--- a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
@@ -83,11 +83,11 @@ impl BitfieldStructFeatureGenerator {
             let is_heap_array = bitfield.arguments().array_heap() && !bitfield.is_integer_backed();
             if is_heap_array {
                 attributes_tokens.push(quote! {
-                    #[derive(core::clone::Clone)]
+                    #[derive(::core::clone::Clone)]
                 });
             } else {
                 attributes_tokens.push(quote! {
-                    #[derive(std::marker::Copy, core::clone::Clone)]
+                    #[derive(::core::marker::Copy, ::core::clone::Clone)]
                 });
             }
         }
diff --git a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
index 90afbd9..26d70b6 100644
--- a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
+++ b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
@@ -40,7 +40,7 @@ fn generate_repr_tokens(bitflag: &Bitflag) -> TokenStream {
 fn generate_copy_derive_tokens(bitflag: &Bitflag) -> TokenStream {
     if bitflag.arguments().derive_copy() {
         quote! {
-            #[derive(std::marker::Copy, core::clone::Clone)]
+            #[derive(::core::marker::Copy, ::core::clone::Clone)]
         }
     } else {
         quote! {}
-- 
2.43.0


From 02045c37116effdfd76e3b9a400cb9e60c259ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:43 +0000
Subject: [PATCH 05/22] fix: ignored fields keep their declared visibility

---
 bitfields_impl/src/parsing/bitfields/bitfield.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield.rs b/bitfields_impl/src/parsing/bitfields/bitfield.rs
index cabf078..b6f69a9 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield.rs
@@ -144,8 +144,8 @@ impl Field {
 
     /// Returns the visibility of the field.
     pub fn visibility(&self) -> Visibility {
-        let has_public_access =
-            matches!(self.access, FieldAccess::ReadWrite | FieldAccess::ReadOnly);
+        let has_public_access = self.ignored
+            || matches!(self.access, FieldAccess::ReadWrite | FieldAccess::ReadOnly);
         if !has_public_access {
             return Visibility::Private;
         }
-- 
2.43.0


From 4616357268e35bc095d70adc2b39d3410dc0354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:43 +0000
Subject: [PATCH 06/22] fix: inverted getters sign-extend signed fields

---
 .../generating/bitfield/features/invert_bit_ops_feature.rs  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index 1d087d4..b570a1b 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -6,8 +6,8 @@ use crate::generating::bitfield::features::common::generator_helper::{
     BitsSource, ProtectionType,
     generate_extract_all_field_bits_from_variable_into_variable_tokens_and_set_fields_tokens,
     generate_extract_field_bits_from_source_into_variable_tokens,
-    generate_protected_bits_mask_tokens, get_bits_or_bytes_term, get_field_unit_terms,
-    get_function_modifier_tokens,
+    generate_protected_bits_mask_tokens, generate_sign_extend_bit_operation_tokens,
+    get_bits_or_bytes_term, get_field_unit_terms, get_function_modifier_tokens,
 };
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitOrder;
@@ -167,11 +167,13 @@ impl InvertBitOpsFeature {
                         /* invert_bits= */ true,
                         /* builder_caller= */ false,
                     );
+                let sign_extend_tokens = generate_sign_extend_bit_operation_tokens(field);
                 quote! {
                     #[doc = #documentation]
                     #visibility_tokens #function_modifier_tokens fn #field_inverted_ident_tokens(&self) -> #field_data_type_tokens {
                         let this = self;
                         #extract_field_bits_from_source_into_variable_tokens
+                        #sign_extend_tokens
                         #value_to_field_tokens
                     }
                 }
-- 
2.43.0


From 5316c5a1996f0ea8ba1ec122fe7d0a81c28ca123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:42 +0000
Subject: [PATCH 07/22] fix: defaults of fields without a setter are evaluated
 as the field type

---
 .../features/common/generator_helper.rs       | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 3560fdd..dcc2aa4 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -155,11 +155,35 @@ pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Fie
     generate_setting_field_without_setter_tokens(
         bitfield,
         field,
-        field_default_value_tokens,
+        generate_default_value_bits_tokens(bitfield, field, field_default_value_tokens),
         /* builder_caller= */ false,
     )
 }
 
+/// Generates tokens evaluating a default value as its field type, so negative
+/// values and constants of the field type can be set bitwise.
+fn generate_default_value_bits_tokens(
+    bitfield: &Bitfield,
+    field: &Field,
+    default_value_tokens: TokenStream,
+) -> TokenStream {
+    let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
+    let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
+
+    match field.spanned_data_type_token().data_type() {
+        DataType::Integer(IntegerType::Bool) | DataType::Custom => default_value_tokens,
+        DataType::Integer(_) if bitfield.is_integer_backed() => quote! {
+            ((#default_value_tokens) as #field_data_type_tokens) as #bitfield_data_type_tokens
+        },
+        DataType::Integer(_) => quote! {
+            ((#default_value_tokens) as #field_data_type_tokens)
+        },
+        DataType::Array {
+            ..
+        } => default_value_tokens,
+    }
+}
+
 /// Generates tokens for setting fields to zero list.
 ///
 /// # Example
-- 
2.43.0


From 81fc779aa119a514a5c83e007deb28b284d9f846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:42 +0000
Subject: [PATCH 08/22] fix: checked setters reject every value that does not
 fit

---
 .../features/common/generator_helper.rs       | 86 ++++++++++++++++---
 1 file changed, 75 insertions(+), 11 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index dcc2aa4..8ec7022 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -262,21 +262,28 @@ pub fn generate_setting_field_from_variable_tokens(
     let is_array_field =
         matches!(field.spanned_data_type_token().data_type(), DataType::Array { .. });
 
+    let is_custom_field = matches!(field.spanned_data_type_token().data_type(), DataType::Custom);
+
     let using_setter = field.has_setter() && use_setter;
 
     if builder_caller && using_setter {
         return generate_builder_direct_setter_call_tokens(field, check_bit_size);
     }
 
-    let pre_extract_check_tokens = (!using_setter && check_bit_size && is_signed_integer)
-        .then(|| generate_signed_bit_size_check_tokens(field));
+    let pre_extract_check_tokens = (!using_setter && check_bit_size).then(|| {
+        if is_signed_integer {
+            generate_signed_bit_size_check_tokens(field)
+        } else if is_array_field {
+            generate_array_bit_size_check_tokens(field)
+        } else if !is_bool_field && !is_custom_field {
+            generate_unsigned_bit_size_check_tokens(field)
+        } else {
+            quote! {}
+        }
+    });
 
-    let post_extract_check_tokens = (!using_setter
-        && check_bit_size
-        && !is_signed_integer
-        && !is_bool_field
-        && !is_array_field)
-        .then(generate_bit_size_check_tokens);
+    let post_extract_check_tokens = (!using_setter && check_bit_size && is_custom_field)
+        .then(|| generate_custom_bit_size_check_tokens(bitfield));
 
     let extract_field_bits_into_variable_tokens =
         generate_extract_field_bits_from_source_into_variable_tokens(
@@ -359,15 +366,71 @@ fn get_value_variable_tokens(field: &Field) -> TokenStream {
     }
 }
 
-/// Generates an overflow check for unsigned/custom fields.
-fn generate_bit_size_check_tokens() -> TokenStream {
+/// Generates an overflow check for unsigned integer fields.
+/// Must run before `bits` is cast to the bitfield type, which can truncate it.
+/// Skipped when the field's bit-width equals the full type width.
+fn generate_unsigned_bit_size_check_tokens(field: &Field) -> TokenStream {
+    let field_bits = field.bits();
+    let type_bits = field.spanned_data_type_token().data_type().bit_size();
+
+    if field_bits >= type_bits {
+        return quote! {};
+    }
+
+    let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
+    let unused_bits = type_bits - field_bits;
+
+    quote! {
+        if bits > #field_data_type_tokens::MAX >> #unused_bits {
+            return Err("Value is too big to fit within the field bits.");
+        }
+    }
+}
+
+/// Generates an overflow check for custom fields.
+fn generate_custom_bit_size_check_tokens(bitfield: &Bitfield) -> TokenStream {
+    // The custom type's bits can be wider than the integer backing the bitfield, in
+    // which case casting them truncated the value.
+    let truncated_check_tokens = bitfield.is_integer_backed().then(|| {
+        quote! {
+            let round_trip_bits = [custom_bits, bits as _];
+            if round_trip_bits[0] != round_trip_bits[1] {
+                return Err("Value is too big to fit within the field bits.");
+            }
+        }
+    });
+
     quote! {
+        #truncated_check_tokens
         if bits > mask {
             return Err("Value is too big to fit within the field bits.");
         }
     }
 }
 
+/// Generates an overflow check for array fields.
+/// Skipped when the field's bit-width equals the full array width.
+fn generate_array_bit_size_check_tokens(field: &Field) -> TokenStream {
+    let field_bits = field.bits();
+    let type_bits = field.spanned_data_type_token().data_type().bit_size();
+
+    if field_bits >= type_bits {
+        return quote! {};
+    }
+
+    quote! {
+        {
+            let mut __i: u32 = #field_bits;
+            while __i < #type_bits {
+                if (bits[(__i / 8) as usize] >> (__i % 8)) & 1 == 1 {
+                    return Err("Value is too big to fit within the field bits.");
+                }
+                __i += 1;
+            }
+        }
+    }
+}
+
 /// Generates an overflow check for signed integer fields.
 /// Must run before `bits` is reinterpreted as unsigned.
 /// Skipped when the field's bit-width equals the full type width.
@@ -443,8 +506,9 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                     (bits_source == BitsSource::IntegerVariable && cast_bits).then(|| {
                         if matches!(field.spanned_data_type_token().data_type(), DataType::Custom) {
                             quote! {
+                                let custom_bits = bits.into_bits();
                                 #[allow(clippy::unnecessary_cast)]
-                                let bits = bits.into_bits() as #bitfield_data_type_tokens;
+                                let bits = custom_bits as #bitfield_data_type_tokens;
                             }
                         } else if let DataType::Array {
                             length,
-- 
2.43.0


From 3a0c01c48c3296f53dd800fdb934dc974ae68d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:43 +0000
Subject: [PATCH 09/22] fix: array fields ending mid-byte keep their last bits

---
 .../src/generating/bitfield/features/common/generator_helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 8ec7022..bd6a064 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -515,7 +515,7 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                         } = field.spanned_data_type_token().data_type()
                         {
                             let len = length as usize;
-                            let pack_len = (field.bits() as usize / 8).min(len);
+                            let pack_len = (field.bits() as usize).div_ceil(8).min(len);
                             quote! {
                                 let bits = {
                                     let __arr = bits;
-- 
2.43.0


From 9574a380794d754d31931907efcd0d812f0e37c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:43 +0000
Subject: [PATCH 10/22] fix: array fields cannot be given more bits than they
 hold

---
 .../src/parsing/bitfields/bitfield_parser.rs         | 10 ++++++----
 .../src/parsing/common/spanned_data_type.rs          | 12 ------------
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index e2a82b1..529523c 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -122,8 +122,7 @@ fn parse_field_helper(
 
     check_bits(bits_attribute.as_ref(), bits)?;
 
-    if matches!(spanned_data_type_token.data_type(), DataType::Integer(..)) {
-        check_default_value_fit_in_field(bits_attribute.as_ref(), bits, &spanned_data_type_token)?;
+    if !matches!(spanned_data_type_token.data_type(), DataType::Custom) {
         check_field_data_type_can_hold_bits(
             bits_attribute.as_ref(),
             bits,
@@ -131,6 +130,10 @@ fn parse_field_helper(
         )?;
     }
 
+    if matches!(spanned_data_type_token.data_type(), DataType::Integer(..)) {
+        check_default_value_fit_in_field(bits_attribute.as_ref(), bits, &spanned_data_type_token)?;
+    }
+
     let offset = calculate_field_offset(bitfield_attribute, field_tokens, bits, prev_fields)?;
     let access = get_field_access(bits_attribute.as_ref(), reserved)?;
     let name_ident = field_tokens.ident.as_ref().expect("Expected field identifier").clone();
@@ -361,12 +364,11 @@ fn check_field_data_type_can_hold_bits(
     };
 
     let field_max_bits = spanned_data_type_token.data_type().bit_size();
-    let spanned_data_type_tokens = spanned_data_type_token.get_data_type_tokens();
     if bits > field_max_bits {
         return Err(create_user_parsing_compiler_error(
             bits_attr.span().expect("Expected bits attribute for bits checking"),
             format!(
-                "The field type '{spanned_data_type_tokens}' is too small to hold the specified \
+                "The field type '{spanned_data_type_token}' is too small to hold the specified \
                  '{bits} bits'."
             ),
         ));
diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index e64e509..b97b4fa 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -124,18 +124,6 @@ impl SpannedDataTypeToken {
             _ => None,
         }
     }
-
-    /// Returns the token representation of the data type.
-    /// For array-backed types, returns `u128` as the internal backing type.
-    pub fn get_data_type_tokens(&self) -> TokenStream {
-        if matches!(self.data_type, DataType::Array { .. }) {
-            return quote! {
-                u128
-            };
-        }
-
-        self.original_type_tokens.clone()
-    }
 }
 
 impl ToTokens for SpannedDataTypeToken {
-- 
2.43.0


From c32fc114c2b415838ee51f1fad7ca93bc2c621c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:32 +0000
Subject: [PATCH 11/22] fix: default expressions and i128::MIN no longer panic
 the macro

---
 .../src/parsing/bitfields/bitfield_parser.rs      |  5 +----
 bitfields_impl/src/parsing/common/const_expr.rs   | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 529523c..22ddedf 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -326,10 +326,7 @@ fn check_default_value_fit_in_field(
     let (negative_bits_min_value, positive_bits_max_value) = min_max_for_bits(bits);
 
     if *negative_sign {
-        let negative_default_value = (*number as i128)
-            .checked_neg()
-            .ok_or_else(|| unreachable!("The compiler won't allow a number less than -i128 exist"))
-            .expect("Expected a negative default value for negative default value checking");
+        let negative_default_value = (*number as i128).wrapping_neg();
 
         if negative_default_value < negative_bits_min_value {
             return Err(create_user_parsing_compiler_error(
diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 0ab1eed..75aa659 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -154,7 +154,10 @@ impl ConstExpr {
                 IntegerPrefix::Hex.radix(),
             ) {
                 Ok(num) => Ok(num),
-                Err(err) => unreachable!("Hex parsing should succeed: {:?}", err),
+                Err(err) => Err(create_user_parsing_compiler_error(
+                    spanned_token.span(),
+                    format!("Failed to parse integer literal: {err}"),
+                )),
             };
         }
 
@@ -164,7 +167,10 @@ impl ConstExpr {
                 IntegerPrefix::Binary.radix(),
             ) {
                 Ok(num) => Ok(num),
-                Err(err) => unreachable!("Binary parsing should succeed: {:?}", err),
+                Err(err) => Err(create_user_parsing_compiler_error(
+                    spanned_token.span(),
+                    format!("Failed to parse integer literal: {err}"),
+                )),
             };
         }
 
@@ -174,7 +180,10 @@ impl ConstExpr {
                 IntegerPrefix::Octal.radix(),
             ) {
                 Ok(num) => Ok(num),
-                Err(err) => unreachable!("Octal parsing should succeed: {:?}", err),
+                Err(err) => Err(create_user_parsing_compiler_error(
+                    spanned_token.span(),
+                    format!("Failed to parse integer literal: {err}"),
+                )),
             };
         }
 
-- 
2.43.0


From cddeb0cac9d265fe39c7a03a07f6f17c858feef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:32 +0000
Subject: [PATCH 12/22] fix: ignored fields can be of any type implementing
 Default

---
 .../bitfield/features/common/generator_helper.rs     |  8 +-------
 .../src/parsing/bitfields/bitfield_parser.rs         |  3 +--
 .../src/parsing/common/spanned_data_type.rs          | 12 ++++++++++++
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index bd6a064..7a35085 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -100,14 +100,8 @@ fn generate_ignored_fields_default_calls_token_list(bitfield: &Bitfield) -> Vec<
             let field_name_tokens = field.name_tokens();
             let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
 
-            if matches!(field.spanned_data_type_token().data_type(), DataType::Integer(..)) {
-                return quote! {
-                    #field_name_tokens: <#field_data_type_tokens>::default()
-                };
-            }
-
             quote! {
-                #field_name_tokens: #field_data_type_tokens::default()
+                #field_name_tokens: <#field_data_type_tokens>::default()
             }
         })
         .collect()
diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 22ddedf..cfb2d66 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -152,8 +152,7 @@ fn parse_field_helper(
 }
 
 fn parse_ignored_field(field_tokens: &syn::Field) -> Field {
-    let spanned_data_type_token = SpannedDataTypeToken::new(&field_tokens.ty)
-        .expect("Expected field type kind for ignored field");
+    let spanned_data_type_token = SpannedDataTypeToken::new_ignored(&field_tokens.ty);
     let name_ident = field_tokens.ident.as_ref().expect("Expected field identifier").clone();
     Field::new(
         Visibility::new(&field_tokens.vis),
diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index b97b4fa..2b92e15 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -33,6 +33,18 @@ impl SpannedDataTypeToken {
         })
     }
 
+    /// Creates a type kind for an ignored field, which can be of any type.
+    pub fn new_ignored(syn_type: &Type) -> Self {
+        Self {
+            data_type: DataType::Custom,
+            spanned_token: SpannedToken::new(
+                Self::get_syn_type_string(syn_type),
+                syn_type.span(),
+            ),
+            original_type_tokens: quote! { #syn_type },
+        }
+    }
+
     /// Returns a compact string representation of a `syn::Type` (e.g.
     /// `[u8;32]`).
     fn get_syn_type_string(syn_type: &Type) -> String {
-- 
2.43.0


From de99394b376ed5b5bb7f96534bfd933275e562a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:47 +0000
Subject: [PATCH 13/22] fix: pub(in path) visibilities are kept instead of
 mangled

---
 bitfields_impl/src/parsing/common/visibility.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/visibility.rs b/bitfields_impl/src/parsing/common/visibility.rs
index 25a220a..f13638f 100644
--- a/bitfields_impl/src/parsing/common/visibility.rs
+++ b/bitfields_impl/src/parsing/common/visibility.rs
@@ -1,5 +1,5 @@
 use proc_macro2::TokenStream;
-use quote::{format_ident, quote};
+use quote::quote;
 
 use crate::parsing::common::to_tokens::ToTokens;
 
@@ -22,13 +22,7 @@ impl Visibility {
         match vis {
             syn::Visibility::Public(_) => Self::Public,
             syn::Visibility::Restricted(r) => {
-                let path = r
-                    .path
-                    .segments
-                    .iter()
-                    .map(|segment| segment.ident.to_string())
-                    .collect::<String>();
-                Self::Restricted(path)
+                Self::Restricted(quote! { #r }.to_string())
             },
             syn::Visibility::Inherited => Self::Private,
         }
@@ -43,11 +37,8 @@ impl ToTokens for Visibility {
                     pub
                 }
             },
-            Self::Restricted(path) => {
-                let path_ident = format_ident!("{}", path);
-                quote! {
-                    pub(#path_ident)
-                }
+            Self::Restricted(restriction) => {
+                restriction.parse().expect("Failed to parse previously accepted visibility")
             },
             Self::Private => {
                 quote! {}
-- 
2.43.0


From 909a005142473b08b34a02bc0ba401c6a6c03089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:27 +0000
Subject: [PATCH 14/22] fix: builders compile when new is disabled and a field
 has no setter

The builder inlines the initialisation code when the bitfield has no new
function, and that code named the field constants through Self, which is
the builder there.
---
 .../bitfield/features/common/generator_helper.rs          | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 7a35085..8c53577 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -722,8 +722,12 @@ fn generate_setting_field_without_setter_tokens(
     let bitfield_internal_value_ident_tokens =
         bitfield.bitfield_internal_value_ident_tokens(builder_caller);
     let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
-    let field_bits_tokens = get_field_bits_tokens(bitfield, field, builder_caller);
-    let field_offset_tokens = get_field_offset_tokens(bitfield, field, builder_caller);
+    // These tokens are also inlined in the builder, where `Self` isn't the bitfield,
+    // so the constants are always reached through the bitfield's name.
+    let field_bits_tokens =
+        get_field_bits_tokens(bitfield, field, /* builder_caller= */ true);
+    let field_offset_tokens =
+        get_field_offset_tokens(bitfield, field, /* builder_caller= */ true);
 
     if !bitfield.is_integer_backed() {
         if let DataType::Array {
-- 
2.43.0


From 7ff0bf53bb5ee718ce7674d47e1ee4817321c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:46 +0000
Subject: [PATCH 15/22] fix: raw identifiers as field and bitfield names no
 longer panic the macro

---
 bitfields_impl/src/parsing/bitfields/bitfield.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield.rs b/bitfields_impl/src/parsing/bitfields/bitfield.rs
index b6f69a9..f96f076 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield.rs
@@ -1,6 +1,7 @@
 use getset::{CloneGetters, Getters};
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
+use syn::ext::IdentExt;
 
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitfieldArguments;
 use crate::parsing::bitfields::bits_attribute::bits_arguments::{BitsArguments, FieldAccess};
@@ -48,7 +49,7 @@ impl Bitfield {
         ignored_fields: Vec<Field>,
         arguments: BitfieldArguments,
     ) -> Self {
-        let name = name_ident.to_string();
+        let name = name_ident.unraw().to_string();
         Self {
             user_attributes_tokens,
             visibility,
@@ -127,7 +128,7 @@ impl Field {
         arguments: Option<BitsArguments>,
         ignored: bool,
     ) -> Self {
-        let name = name_ident.to_string();
+        let name = name_ident.unraw().to_string();
         Self {
             visibility,
             name,
-- 
2.43.0


From 88879c4f59872a51f2839bd58eb5b1d74e4cce8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 16/22] fix: defaults whose text merely ends in f32/f64 or
 contains a dot were rejected as floats

---
 bitfields_impl/src/parsing/common/const_expr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 75aa659..cbae766 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -78,7 +78,10 @@ impl ConstExpr {
     }
 
     fn check_float(number_str: &str, span: Span) -> syn::Result<()> {
-        if !number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
+        let unsigned_number_str = Self::strip_negative_sign(number_str);
+        let is_number_literal = unsigned_number_str.starts_with(|c: char| c.is_ascii_digit());
+
+        if is_number_literal && !unsigned_number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
             let contains_float_identifier =
                 FLOAT_IDENTIFIERS.iter().any(|&identifier| number_str.ends_with(identifier));
             if number_str.contains(FLOAT_DOT) || contains_float_identifier {
-- 
2.43.0


From 921d8d40a1514044d4254fee685c7efe52807f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:18 +0000
Subject: [PATCH 17/22] fix: negative literal defaults below i128::MIN were
 accepted and wrapped

---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index cfb2d66..01ab6ca 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -325,9 +325,7 @@ fn check_default_value_fit_in_field(
     let (negative_bits_min_value, positive_bits_max_value) = min_max_for_bits(bits);
 
     if *negative_sign {
-        let negative_default_value = (*number as i128).wrapping_neg();
-
-        if negative_default_value < negative_bits_min_value {
+        if bits < 128 && *number > negative_bits_min_value.unsigned_abs() {
             return Err(create_user_parsing_compiler_error(
                 default_value_expr.span(),
                 format!(
-- 
2.43.0


From b4ba66faba516d474832be2761dca4c5d631188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:01 +0000
Subject: [PATCH 18/22] fix: literal defaults of array fields in integer
 bitfields were not checked against their bits

---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 01ab6ca..678646a 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -130,7 +130,9 @@ fn parse_field_helper(
         )?;
     }
 
-    if matches!(spanned_data_type_token.data_type(), DataType::Integer(..)) {
+    // Array fields take integer literals as defaults in integer bitfields, which hold
+    // at most 128 bits.
+    if !matches!(spanned_data_type_token.data_type(), DataType::Custom) && bits <= 128 {
         check_default_value_fit_in_field(bits_attribute.as_ref(), bits, &spanned_data_type_token)?;
     }
 
-- 
2.43.0


From 9632c38c0cd853d1bad32ec7f94bd9bee4142102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:59 +0000
Subject: [PATCH 19/22] fix: field bits adding up past u32 overflowed instead
 of being rejected

---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 678646a..8cd5e99 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -387,7 +387,7 @@ fn calculate_field_offset(
     bits: u32,
     prev_fields: &[Field],
 ) -> syn::Result<u32> {
-    let offset = prev_fields.iter().map(Field::bits).sum::<u32>();
+    let offset = prev_fields.iter().map(Field::bits).fold(0, u32::saturating_add);
 
     match bitfield_attribute.arguments().order() {
         BitOrder::Lsb => Ok(offset),
@@ -398,7 +398,7 @@ fn calculate_field_offset(
             // the total bits of all fields is greater than the number of bits
             // of the bitfield type. We will catch it later so
             // we can ignore for now.
-            let total_bits = offset + bits;
+            let total_bits = offset.saturating_add(bits);
             if total_bits <= bitfield_bit_size {
                 Ok(bitfield_bit_size - bits - offset)
             } else {
@@ -466,7 +466,7 @@ fn check_fields_fit_in_bitfield_type(
     bitfield_attribute: &BitfieldAttribute,
     fields: &[Field],
 ) -> syn::Result<()> {
-    let total_field_bits = fields.iter().map(Field::bits).sum::<u32>();
+    let total_field_bits = fields.iter().map(Field::bits).fold(0, u32::saturating_add);
     let bitfield_bit_size = bitfield_attribute.spanned_data_type_token().data_type().bit_size();
 
     match total_field_bits.cmp(&bitfield_bit_size) {
-- 
2.43.0


From 39c2e8ca255efdd1f5ca720cb34f2f820a66d4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:21 +0000
Subject: [PATCH 20/22] fix: exponent float defaults were accepted and
 expressions starting with a digit taken for floats

---
 .../src/parsing/common/const_expr.rs          | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index cbae766..075b82a 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -1,13 +1,12 @@
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
-use syn::Expr;
+use syn::{Expr, Lit};
 
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::spanned_token::SpannedToken;
 use crate::parsing::common::to_tokens::ToTokens;
 
 const FLOAT_IDENTIFIERS: [&str; 2] = ["f32", "f64"];
-const FLOAT_DOT: &str = ".";
 
 const INTEGER_IDENTIFIERS: [&str; 12] =
     ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];
@@ -78,18 +77,17 @@ impl ConstExpr {
     }
 
     fn check_float(number_str: &str, span: Span) -> syn::Result<()> {
-        let unsigned_number_str = Self::strip_negative_sign(number_str);
-        let is_number_literal = unsigned_number_str.starts_with(|c: char| c.is_ascii_digit());
-
-        if is_number_literal && !unsigned_number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
-            let contains_float_identifier =
-                FLOAT_IDENTIFIERS.iter().any(|&identifier| number_str.ends_with(identifier));
-            if number_str.contains(FLOAT_DOT) || contains_float_identifier {
-                return Err(create_user_parsing_compiler_error(
-                    span,
-                    "Float are not supported.".to_string(),
-                ));
-            }
+        let is_float_literal = match syn::parse_str(&Self::strip_negative_sign(number_str)) {
+            Ok(Lit::Float(_)) => true,
+            Ok(Lit::Int(literal)) => FLOAT_IDENTIFIERS.contains(&literal.suffix()),
+            _ => false,
+        };
+
+        if is_float_literal {
+            return Err(create_user_parsing_compiler_error(
+                span,
+                "Float are not supported.".to_string(),
+            ));
         }
 
         Ok(())
-- 
2.43.0


From 07376944b7bff233b8924d1c64bf7c3e80f1fc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:51 +0000
Subject: [PATCH 21/22] fix: generated code resolved core and Default through
 the user's scope

---
 .../src/generating/bitfield/features/builder_feature.rs       | 2 +-
 .../generating/bitfield/features/common/generator_helper.rs   | 2 +-
 .../src/generating/bitfield/features/debug_trait_feature.rs   | 4 ++--
 .../src/generating/bitfield/features/default_trait_feature.rs | 2 +-
 .../src/generating/bitfield/features/from_traits_feature.rs   | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
index 3370677..b4199fb 100644
--- a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
@@ -61,7 +61,7 @@ impl BuilderFeature {
                 this: #bitfield_name_tokens,
             }
 
-            impl Default for #builder_ident_tokens {
+            impl ::core::default::Default for #builder_ident_tokens {
                 fn default() -> Self {
                     Self::new()
                 }
diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 8c53577..a053e71 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -101,7 +101,7 @@ fn generate_ignored_fields_default_calls_token_list(bitfield: &Bitfield) -> Vec<
             let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
 
             quote! {
-                #field_name_tokens: <#field_data_type_tokens>::default()
+                #field_name_tokens: <#field_data_type_tokens as ::core::default::Default>::default()
             }
         })
         .collect()
diff --git a/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs b/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
index ca46d0d..67766c8 100644
--- a/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
@@ -36,8 +36,8 @@ impl DebugTraitFeature {
         let set_debug_fields = Self::generate_debug_set_field_tokens(bitfield);
 
         quote! {
-            impl core::fmt::Debug for #bitfield_name_tokens {
-                fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+            impl ::core::fmt::Debug for #bitfield_name_tokens {
+                fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                     let this = self;
                     let mut debug = f.debug_struct(#bitfield_name);
                     #set_debug_fields
diff --git a/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs b/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
index 3efd4bd..45fdc89 100644
--- a/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
@@ -36,7 +36,7 @@ impl DefaultTraitFeature {
             Self::generate_default_trait_feature_implementation_tokens(bitfield);
 
         quote! {
-            impl core::default::Default for #bitfield_name_tokens {
+            impl ::core::default::Default for #bitfield_name_tokens {
                 fn default() -> #bitfield_name_tokens {
                     #default_trait_feature_implementation_tokens
                 }
diff --git a/bitfields_impl/src/generating/bitfield/features/from_traits_feature.rs b/bitfields_impl/src/generating/bitfield/features/from_traits_feature.rs
index e1616cf..c3b618b 100644
--- a/bitfields_impl/src/generating/bitfield/features/from_traits_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/from_traits_feature.rs
@@ -69,7 +69,7 @@ impl FromTraitsFeature {
         let source_param = generate_backing_data_param_ident(bitfield);
 
         quote! {
-            impl core::convert::From<#bitfield_data_type_tokens> for #bitfield_name_tokens {
+            impl ::core::convert::From<#bitfield_data_type_tokens> for #bitfield_name_tokens {
                 fn from(#source_param: #bitfield_data_type_tokens) -> Self {
                     let mut this = #initialize_struct_initialization_tokens;
                     let bits = #bits_return_endian_conversion_tokens;
@@ -89,7 +89,7 @@ impl FromTraitsFeature {
             );
 
         quote! {
-            impl core::convert::From<#bitfield_name_tokens> for #bitfield_data_type_tokens {
+            impl ::core::convert::From<#bitfield_name_tokens> for #bitfield_data_type_tokens {
                 fn from(val: #bitfield_name_tokens) -> Self {
                     let mut this = val;
                     #bits_return_endian_conversion_tokens
-- 
2.43.0


From 1cd8449b1f240f58704e0df37213f7e96d355c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:47 +0000
Subject: [PATCH 22/22] fix: array fields longer than 16 bytes made integer
 bitfields panic

A field type [u8; 20] with #[bits(16)] in an integer bitfield is accepted, but its
getters shifted a u128 by up to (len - 1) * 8 bits, which overflows past 16 bytes.
Only the bytes the field's bits reach are unpacked now.
---
 .../generating/bitfield/features/common/generator_helper.rs   | 3 ++-
 .../src/generating/bitfield/features/field_getters_feature.rs | 4 +++-
 .../generating/bitfield/features/invert_bit_ops_feature.rs    | 4 +++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index a053e71..2f49e9d 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -691,12 +691,13 @@ fn generate_field_setter_call_tokens(
         } => {
             let len = length as usize;
             if bitfield.is_integer_backed() {
+                let unpack_len = (field.bits() as usize).div_ceil(8).min(len);
                 quote! {
                     #bitfield_variable_reference.#field_setter_ident_tokens({
                         let __int_val = (#value_tokens) as u128;
                         let mut __arr = [0u8; #len];
                         let mut __i: usize = 0;
-                        while __i < #len {
+                        while __i < #unpack_len {
                             __arr[__i] = ((__int_val >> (__i * 8)) & 0xFF) as u8;
                             __i += 1;
                         }
diff --git a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
index 4051c24..f51e482 100644
--- a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
@@ -95,12 +95,14 @@ impl FieldGettersFeature {
             } => {
                 let len = length as usize;
                 if bitfield.is_integer_backed() {
+                    // The array can be longer than the field, and than any integer.
+                    let unpack_len = (field.bits() as usize).div_ceil(8).min(len);
                     quote! {
                         {
                             let __val = value as u128;
                             let mut __arr = [0u8; #len];
                             let mut __i: usize = 0;
-                            while __i < #len {
+                            while __i < #unpack_len {
                                 __arr[__i] = ((__val >> (__i * 8)) & 0xFF) as u8;
                                 __i += 1;
                             }
diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index b570a1b..92a5663 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -197,12 +197,14 @@ impl InvertBitOpsFeature {
             } => {
                 let len = length as usize;
                 if bitfield.is_integer_backed() {
+                    // The array can be longer than the field, and than any integer.
+                    let unpack_len = (field.bits() as usize).div_ceil(8).min(len);
                     quote! {
                         {
                             let __val = value as u128;
                             let mut __arr = [0u8; #len];
                             let mut __i: usize = 0;
-                            while __i < #len {
+                            while __i < #unpack_len {
                                 __arr[__i] = ((__val >> (__i * 8)) & 0xFF) as u8;
                                 __i += 1;
                             }
-- 
2.43.0

