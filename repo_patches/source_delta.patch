From 2e6801b0b1f8b9528ff844bd835e4119d81d6eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 1/7] Expose the metadata bytes to verification harnesses (cfg
 rlibphonenumber_verif)

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6223688..50b014b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -39,4 +39,8 @@ pub use generated::proto::phonemetadata;
 pub use generated::proto::phonenumber::PhoneNumber;
 pub use generated::proto::phonenumber::phone_number::CountryCodeSource;
 pub use regexp_cache::InvalidRegexError;
+/// The serialized metadata the library runs on, exposed to external verification
+/// harnesses only (`RUSTFLAGS="--cfg rlibphonenumber_verif"`).
+#[cfg(rlibphonenumber_verif)]
+pub use generated::metadata::METADATA;
 mod tests;
-- 
2.43.0


From 2f6a3afeecf880ecf954a094131886a464f9c93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:30 +0000
Subject: [PATCH 2/7] fix: match whole national numbers against the whole
 pattern

The leftmost-first search stopped at the first alternative that matched a
prefix, so numbers of a later, longer alternative (for example 11-digit
premium rate numbers in Hong Kong) were reported invalid.
---
 src/regex_based_matcher.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/regex_based_matcher.rs b/src/regex_based_matcher.rs
index 8af26f2..7119a76 100644
--- a/src/regex_based_matcher.rs
+++ b/src/regex_based_matcher.rs
@@ -33,12 +33,14 @@ impl RegexBasedMatcher {
         number_pattern: &str,
         allow_prefix_match: bool
     ) -> Result<bool, InvalidRegexError> {
-        let regexp = self.cache.get_regex(number_pattern)?;
-
         // find first occurrence
         if allow_prefix_match {
+            let regexp = self.cache.get_regex(number_pattern)?;
             Ok(regexp.matches_start(phone_number))
         } else {
+            // The search prefers earlier alternatives to longer ones, so whether the
+            // whole number matches can only be told from the anchored pattern.
+            let regexp = self.cache.get_regex(&format!("^(?:{number_pattern})$"))?;
             Ok(regexp.full_match(phone_number))
         }
     }
-- 
2.43.0


From 22304e0e291c8320ff0aeaa4e7ec1cc0eb1302f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 3/7] fix: international format for vanity numbers dialled from
 regions with several international prefixes

---
 src/phonenumberutil/phonenumberutil_internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index adfdd40..99fd59e 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1566,7 +1566,7 @@ impl PhoneNumberUtilInternal {
             } else {
                 metadata.preferred_international_prefix()
             }
-        });
+        }).filter(|international_prefix| !international_prefix.is_empty());
         let formatted_number = if let Some(international_prefix_for_formatting) =
             international_prefix_for_formatting
         {
-- 
2.43.0


From 41536e5396c20bb7fe9950bf0814ff25cfe687c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 4/7] fix: keep raw input of numbers without digits when
 formatting for mobile dialing

---
 src/phonenumberutil/phonenumberutil_internal.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 99fd59e..eff4134 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -860,9 +860,7 @@ impl PhoneNumberUtilInternal {
                 } else {
                     PhoneNumberFormat::National
                 };
-                if let Cow::Owned(s) = self.format(&number_no_extension, format)? {
-                    formatted_number = s;
-                }
+                formatted_number = self.format(&number_no_extension, format)?.into_owned();
             } else {
                 // For non-geographical countries, and Mexican, Chilean and Uzbek fixed
                 // line and mobile numbers, we output international format for numbers
@@ -895,9 +893,7 @@ impl PhoneNumberUtilInternal {
                 } else {
                     PhoneNumberFormat::National
                 };
-                if let Cow::Owned(s) = self.format(&number_no_extension, format)? {
-                    formatted_number = s;
-                }
+                formatted_number = self.format(&number_no_extension, format)?.into_owned();
             }
         } else if is_valid_number && self.can_be_internationally_dialled(&number_no_extension)? {
             // We assume that short numbers are not diallable from outside their
-- 
2.43.0


From 0979f279f9d763b5239553eb3d5e2f82b51606eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 5/7] fix: strip the national prefix behind the country code of
 the default region

The stripped number was only traced: a number written with the country code but
without '+', followed by the national prefix (RU "7 8 9123456789"), kept the
prefix as part of the national number, or was not recognised at all.
---
 src/phonenumberutil/phonenumberutil_internal.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index eff4134..ae5dcb2 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -2176,7 +2176,7 @@ impl PhoneNumberUtilInternal {
                 "Possible country calling code for number '{}': {}",
                 national_number, default_country_code_string
             );
-            if let Some(potential_national_number) =
+            if let Some(mut potential_national_number) =
                 strip_cow_prefix(national_number.clone(), default_country_code_string)
             {
                 let general_num_desc = &default_region_metadata.general_desc;
@@ -2190,6 +2190,11 @@ impl PhoneNumberUtilInternal {
                     "Number without country calling code prefix: {:?}",
                     phone_number_and_carrier_code
                 );
+                let (stripped_national_number, _) = phone_number_and_carrier_code;
+                if potential_national_number != stripped_national_number {
+                    potential_national_number =
+                        Cow::Owned(stripped_national_number.into_owned());
+                }
                 // If the number was not valid before but is valid now, or if it was too
                 // long before, we consider the number with the country code stripped to
                 // be a better result and keep that instead.
-- 
2.43.0


From 4ef373c656121620cb1db8fa3a131a44f6ee8011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 6/7] fix: look for "tel:" only in front of the phone-context

With ";phone-context=+1;tel:2345678" the slice of the national number started
behind its end and parsing panicked.
---
 src/phonenumberutil/phonenumberutil_internal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index ae5dcb2..93503be 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1666,7 +1666,9 @@ impl PhoneNumberUtilInternal {
             // isdn-subaddress component. Note we also handle the case when "tel:" is
             // missing, as we have seen in some of the phone number inputs. In that
             // case, we append everything from the beginning.
-            let index_of_rfc_prefix = number_to_parse.find(RFC3966_PREFIX);
+            // A "tel:" behind the phone-context is not the prefix of the number.
+            let index_of_rfc_prefix =
+                number_to_parse[..index_of_phone_context].find(RFC3966_PREFIX);
             let index_of_national_number = index_of_rfc_prefix.map_or(0, |index_of_rfc_prefix| {
                 index_of_rfc_prefix + RFC3966_PREFIX.len()
             });
-- 
2.43.0


From 4bd4ffec5dba1e040e5c9c716988bf835b45473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 7/7] Expose crate-private operations to verification harnesses
 (cfg rlibphonenumber_verif)

---
 src/phonenumberutil/phonenumberutil.rs | 104 +++++++++++++++++++++++++
 1 file changed, 104 insertions(+)

diff --git a/src/phonenumberutil/phonenumberutil.rs b/src/phonenumberutil/phonenumberutil.rs
index 7dce612..239aac1 100644
--- a/src/phonenumberutil/phonenumberutil.rs
+++ b/src/phonenumberutil/phonenumberutil.rs
@@ -618,3 +618,107 @@ impl PhoneNumberUtil {
     }
 }
 
+
+/// Operations of the crate that are not public yet, for external verification
+/// harnesses only (`RUSTFLAGS="--cfg rlibphonenumber_verif"`).
+#[cfg(rlibphonenumber_verif)]
+#[doc(hidden)]
+impl PhoneNumberUtil {
+    pub fn verif_is_possible_number_for_type_with_reason(
+        &self,
+        phone_number: &PhoneNumber,
+        number_type: PhoneNumberType,
+    ) -> Result<NumberLengthType, ValidationError> {
+        self.util_internal
+            .is_possible_number_for_type_with_reason(phone_number, number_type)
+    }
+
+    pub fn verif_is_possible_number_for_type(
+        &self,
+        phone_number: &PhoneNumber,
+        number_type: PhoneNumberType,
+    ) -> bool {
+        self.util_internal.is_possible_number_for_type(phone_number, number_type)
+    }
+
+    pub fn verif_is_possible_number_for_string(&self, number: &str, region: &str) -> bool {
+        self.util_internal.is_possible_number_for_string(number, region)
+    }
+
+    pub fn verif_is_number_match_with_two_strings(&self, first: &str, second: &str) -> Option<MatchType> {
+        self.util_internal.is_number_match_with_two_strings(first, second).ok()
+    }
+
+    pub fn verif_is_number_match_with_one_string(&self, first: &PhoneNumber, second: &str) -> Option<MatchType> {
+        self.util_internal.is_number_match_with_one_string(first, second).ok()
+    }
+
+    pub fn verif_format_by_pattern(
+        &self,
+        phone_number: &PhoneNumber,
+        number_format: PhoneNumberFormat,
+        formats: &[crate::phonemetadata::NumberFormat],
+    ) -> Option<String> {
+        self.util_internal.format_by_pattern(phone_number, number_format, formats).ok()
+    }
+
+    pub fn verif_format_national_number_with_preferred_carrier_code(
+        &self,
+        phone_number: &PhoneNumber,
+        fallback: &str,
+    ) -> Option<String> {
+        self.util_internal
+            .format_national_number_with_preferred_carrier_code(phone_number, fallback)
+            .ok()
+    }
+
+    pub fn verif_get_ndd_prefix_for_region(&self, region: &str, strip_non_digits: bool) -> Option<String> {
+        self.util_internal.get_ndd_prefix_for_region(region, strip_non_digits)
+    }
+
+    pub fn verif_get_supported_types_for_region(&self, region: &str) -> Option<Vec<PhoneNumberType>> {
+        self.util_internal
+            .get_supported_types_for_region(region)
+            .map(|types| types.into_iter().collect())
+    }
+
+    pub fn verif_get_supported_types_for_non_geo_entity(&self, country_code: i32) -> Option<Vec<PhoneNumberType>> {
+        self.util_internal
+            .get_supported_types_for_non_geo_entity(country_code)
+            .map(|types| types.into_iter().collect())
+    }
+
+    pub fn verif_get_example_number_for_type_and_region_code(
+        &self,
+        region: &str,
+        number_type: PhoneNumberType,
+    ) -> Option<PhoneNumber> {
+        self.util_internal
+            .get_example_number_for_type_and_region_code(region, number_type)
+            .ok()
+    }
+
+    pub fn verif_get_example_number_for_non_geo_entity(&self, country_code: i32) -> Option<PhoneNumber> {
+        self.util_internal.get_example_number_for_non_geo_entity(country_code).ok()
+    }
+
+    pub fn verif_get_supported_calling_codes(&self) -> Vec<i32> {
+        self.util_internal.get_supported_calling_codes().collect()
+    }
+
+    pub fn verif_get_supported_global_network_calling_codes(&self) -> Vec<i32> {
+        self.util_internal.get_supported_global_network_calling_codes().collect()
+    }
+
+    pub fn verif_get_country_mobile_token(&self, country_code: i32) -> Option<char> {
+        self.util_internal.get_country_mobile_token(country_code)
+    }
+
+    pub fn verif_normalize_digits_only(&self, number: &str) -> String {
+        self.util_internal.normalize_digits_only(number)
+    }
+
+    pub fn verif_normalize_diallable_chars_only(&self, number: &str) -> String {
+        self.util_internal.normalize_diallable_chars_only(number)
+    }
+}
-- 
2.43.0

