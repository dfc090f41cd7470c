From ccde7c3658e2c2b79c149d8994ac93dfa6cf7245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:47 +0000
Subject: [PATCH 01/12] fix: accept a zero length in the long form at the end
 of BER-TLV data

A tag with a long-form length of 0 was rejected as non-compliant when nothing
followed it, though it was accepted anywhere else.
---
 src/emv/tlv_parsing/ber_tlv.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/emv/tlv_parsing/ber_tlv.rs b/src/emv/tlv_parsing/ber_tlv.rs
index a546893..b955c9e 100644
--- a/src/emv/tlv_parsing/ber_tlv.rs
+++ b/src/emv/tlv_parsing/ber_tlv.rs
@@ -48,7 +48,9 @@ pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, P
 			}
 			let start_index = index;
 			index += 1 + subsequent_length_byte_count;
-			if index >= bytes_len {
+			// The length bytes must be present, but there may not be anything after them if
+			// the length is 0
+			if index > bytes_len {
 				return Err(ParseError::NonCompliant);
 			}
 			byte_slice_to_u32(
-- 
2.43.0


From 52f061128592905f48aa97bb2055a1023b452171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:00 +0000
Subject: [PATCH 02/12] fix: reject the indefinite length form in BER-TLV data

It was treated as a length of 0, so the contents of the tag were shown as its
siblings. The EMV specifications don't allow it.
---
 src/emv/tlv_parsing/ber_tlv.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emv/tlv_parsing/ber_tlv.rs b/src/emv/tlv_parsing/ber_tlv.rs
index b955c9e..b26d2c1 100644
--- a/src/emv/tlv_parsing/ber_tlv.rs
+++ b/src/emv/tlv_parsing/ber_tlv.rs
@@ -41,6 +41,11 @@ pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, P
 		let length_byte_0 = bytes[index];
 		let length = if 0b1000_0000 & length_byte_0 > 0 {
 			let subsequent_length_byte_count = (0b0111_1111 & length_byte_0) as usize;
+			// The indefinite form isn't a length of 0, and isn't allowed by the EMV
+			// specifications
+			if subsequent_length_byte_count == 0 {
+				return Err(ParseError::Unsupported);
+			}
 			// Tag lengths greater than the maximum unsigned 32-bit integer value are
 			// unsupported
 			if subsequent_length_byte_count > BYTES_PER_32_BITS {
-- 
2.43.0


From 3dd925d2168b91911d3504b48a4b30afd688daef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:00 +0000
Subject: [PATCH 03/12] fix: reject Ingenico fields with an odd number of hex
 digits

The last digit was silently dropped, so that a length of `1` was read as 0 and
the data was misread.
---
 src/util.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 6cc12df..0cfdb77 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -34,9 +34,11 @@ pub fn parse_hex_str(hex_asm: &str) -> Vec<u8> {
 	bytes
 }
 /// Does the exact same thing as [`parse_hex_str`], but it throws an error if
-/// there are any non-hex ASCII characters in the string.
+/// there are any non-hex ASCII characters in the string, or if the last byte is
+/// missing a digit.
 pub fn parse_hex_str_strict(hex_asm: &str) -> Result<Vec<u8>, ParseError> {
 	if !hex_asm.is_ascii()
+		|| hex_asm.len() % 2 != 0
 		|| hex_asm.contains(|c| !matches!(c as u8, b'0'..=b'9' | b'a'..=b'f' | b'A'..=b'F'))
 	{
 		Err(ParseError::InvalidBytes)
-- 
2.43.0


From 1bb846b3914ac9e53f04583fb390b4d8e39200b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:23 +0000
Subject: [PATCH 04/12] fix: don't recognise input without any hex digits as
 empty BER-TLV data

Automatic TLV parsing only refused the empty string, so anything without a whole
byte in it was reported as BER-TLV with no tags.
---
 src/emv/tlv_parsing/auto_tlv.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/emv/tlv_parsing/auto_tlv.rs b/src/emv/tlv_parsing/auto_tlv.rs
index 814f174..65ab78f 100644
--- a/src/emv/tlv_parsing/auto_tlv.rs
+++ b/src/emv/tlv_parsing/auto_tlv.rs
@@ -17,8 +17,10 @@ pub fn parse(
 	tlv_str: &str,
 	masking_characters: &[char],
 ) -> Result<(TlvFormat, RawEmvBlock), ParseError> {
-	// Don't accept empty input because it'll match to anything
-	if tlv_str.is_empty() {
+	// Don't accept empty input because it'll match to anything, and input without
+	// any bytes in it isn't in either format
+	let bytes = parse_hex_str(tlv_str);
+	if bytes.is_empty() {
 		return Err(ParseError::Unrecognised);
 	}
 
@@ -27,9 +29,7 @@ pub fn parse(
 		Ok((TlvFormat::Ingenico, raw_emv_block))
 	}
 	// BER-TLV
-	else if let Ok(raw_emv_block) =
-		parse_ber_tlv(parse_hex_str(tlv_str).as_slice(), masking_characters)
-	{
+	else if let Ok(raw_emv_block) = parse_ber_tlv(bytes.as_slice(), masking_characters) {
 		Ok((TlvFormat::BerTlv, raw_emv_block))
 	}
 	// Error
-- 
2.43.0


From 4ec649930f3fef771ab1df58b355a481ebb471c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:05 +0000
Subject: [PATCH 05/12] fix: report an incomplete last byte instead of leaving
 it out

Hex input with an odd number of digits was processed as if its last digit
weren't there, e.g. `--identify 0x9F10` identified the tag 09F1 and BER-TLV data
that lost a digit was shown as complete.
---
 src/emv/tlv_parsing/auto_tlv.rs | 12 ++++++---
 src/main.rs                     | 47 ++++++++++++++++++---------------
 src/util.rs                     | 10 +++++++
 3 files changed, 44 insertions(+), 25 deletions(-)

diff --git a/src/emv/tlv_parsing/auto_tlv.rs b/src/emv/tlv_parsing/auto_tlv.rs
index 65ab78f..63a3454 100644
--- a/src/emv/tlv_parsing/auto_tlv.rs
+++ b/src/emv/tlv_parsing/auto_tlv.rs
@@ -10,7 +10,10 @@ use super::{
 	RawEmvBlock,
 	TlvFormat,
 };
-use crate::{error::ParseError, parse_hex_str};
+use crate::{
+	error::ParseError,
+	util::{parse_hex_str, parse_hex_str_whole},
+};
 
 /// Parses a block of TLV data, attempting to find the format automatically.
 pub fn parse(
@@ -19,8 +22,7 @@ pub fn parse(
 ) -> Result<(TlvFormat, RawEmvBlock), ParseError> {
 	// Don't accept empty input because it'll match to anything, and input without
 	// any bytes in it isn't in either format
-	let bytes = parse_hex_str(tlv_str);
-	if bytes.is_empty() {
+	if parse_hex_str(tlv_str).is_empty() {
 		return Err(ParseError::Unrecognised);
 	}
 
@@ -29,7 +31,9 @@ pub fn parse(
 		Ok((TlvFormat::Ingenico, raw_emv_block))
 	}
 	// BER-TLV
-	else if let Ok(raw_emv_block) = parse_ber_tlv(bytes.as_slice(), masking_characters) {
+	else if let Ok(raw_emv_block) = parse_hex_str_whole(tlv_str)
+		.and_then(|bytes| parse_ber_tlv(bytes.as_slice(), masking_characters))
+	{
 		Ok((TlvFormat::BerTlv, raw_emv_block))
 	}
 	// Error
diff --git a/src/main.rs b/src/main.rs
index 9166379..4b33f0b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -70,7 +70,7 @@ use crate::{
 	},
 	non_emv::ServiceCode,
 	output_colours::header_colour_spec,
-	util::{parse_hex_str, parse_str_to_u16},
+	util::{parse_hex_str_whole, parse_str_to_u16},
 };
 
 // Constants
@@ -123,33 +123,40 @@ fn main() {
 	let parse_error = {
 		// EMV Tags
 		if let Some(tvr_str) = matches.get_one::<String>("tvr") {
-			TerminalVerificationResults::try_from(parse_hex_str(tvr_str).as_slice())
+			parse_hex_str_whole(tvr_str)
+				.and_then(|bytes| TerminalVerificationResults::try_from(bytes.as_slice()))
 				.map(|v| v.display_breakdown(&mut stdout, 0, true))
 				.err()
 		} else if let Some(iad_str) = matches.get_one::<String>("ccd-iad") {
-			IssuerApplicationData::try_from(parse_hex_str(iad_str).as_slice())
+			parse_hex_str_whole(iad_str)
+				.and_then(|bytes| IssuerApplicationData::try_from(bytes.as_slice()))
 				.map(|v| v.display_breakdown(&mut stdout, 0, true))
 				.err()
 		} else if let Some(cvr_str) = matches.get_one::<String>("ccd-cvr") {
-			CardVerificationResults::try_from(parse_hex_str(cvr_str).as_slice())
+			parse_hex_str_whole(cvr_str)
+				.and_then(|bytes| CardVerificationResults::try_from(bytes.as_slice()))
 				.map(|v| v.display_breakdown(&mut stdout, 0, true))
 				.err()
 		} else if let Some(tsi_str) = matches.get_one::<String>("tsi") {
-			TransactionStatusInformation::try_from(parse_hex_str(tsi_str).as_slice())
+			parse_hex_str_whole(tsi_str)
+				.and_then(|bytes| TransactionStatusInformation::try_from(bytes.as_slice()))
 				.map(|v| v.display_breakdown(&mut stdout, 0, true))
 				.err()
 		} else if let Some(cvm_results_str) = matches.get_one::<String>("cvm-results") {
-			CardholderVerificationMethodResults::try_from(parse_hex_str(cvm_results_str).as_slice())
+			parse_hex_str_whole(cvm_results_str)
+				.and_then(|bytes| CardholderVerificationMethodResults::try_from(bytes.as_slice()))
 				.map(|v| v.display_breakdown(&mut stdout, 0, true))
 				.err()
 		} else if let Some(cvm_list_str) = matches.get_one::<String>("cvm-list") {
-			CardholderVerificationMethodList::try_from(parse_hex_str(cvm_list_str).as_slice())
+			parse_hex_str_whole(cvm_list_str)
+				.and_then(|bytes| CardholderVerificationMethodList::try_from(bytes.as_slice()))
 				.map(|v| v.display_breakdown(&mut stdout, 0, true))
 				.err()
 		}
 		// EMV Utilities
 		else if let Some(tag_str) = matches.get_one::<String>("identify") {
-			TagBasicInfo::try_from(parse_hex_str(tag_str).as_slice())
+			parse_hex_str_whole(tag_str)
+				.and_then(|bytes| TagBasicInfo::try_from(bytes.as_slice()))
 				.map(|v| v.display_breakdown(&mut stdout, 0, true))
 				.err()
 		} else if let Some(tlv_str) = matches.get_one::<String>("auto-tlv") {
@@ -174,19 +181,17 @@ fn main() {
 				.map(|v| v.display_breakdown(&mut stdout, 0, true))
 				.err()
 		} else if let Some(ber_tlv_str) = matches.get_one::<String>("ber-tlv") {
-			parse_ber_tlv(
-				parse_hex_str(ber_tlv_str).as_slice(),
-				masking_characters.as_slice(),
-			)
-			.and_then(ProcessedEmvBlock::try_from)
-			.map(|mut v| {
-				if sort_parsed_tags {
-					v.sort_nodes();
-				}
-				v
-			})
-			.map(|v| v.display_breakdown(&mut stdout, 0, true))
-			.err()
+			parse_hex_str_whole(ber_tlv_str)
+				.and_then(|bytes| parse_ber_tlv(bytes.as_slice(), masking_characters.as_slice()))
+				.and_then(ProcessedEmvBlock::try_from)
+				.map(|mut v| {
+					if sort_parsed_tags {
+						v.sort_nodes();
+					}
+					v
+				})
+				.map(|v| v.display_breakdown(&mut stdout, 0, true))
+				.err()
 		} else if let Some(ingenico_tlv_str) = matches.get_one::<String>("ingenico-tlv") {
 			parse_ingenico_tlv(ingenico_tlv_str, masking_characters.as_slice())
 				.and_then(ProcessedEmvBlock::try_from)
diff --git a/src/util.rs b/src/util.rs
index 0cfdb77..8ee5d34 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -33,6 +33,16 @@ pub fn parse_hex_str(hex_asm: &str) -> Vec<u8> {
 	}
 	bytes
 }
+/// Does the exact same thing as [`parse_hex_str`], but it throws an error if the
+/// last byte is missing a digit instead of leaving that byte out.
+pub fn parse_hex_str_whole(hex_asm: &str) -> Result<Vec<u8>, ParseError> {
+	let digit_count = hex_asm.bytes().filter(u8::is_ascii_hexdigit).count();
+	if digit_count % 2 == 0 {
+		Ok(parse_hex_str(hex_asm))
+	} else {
+		Err(ParseError::InvalidBytes)
+	}
+}
 /// Does the exact same thing as [`parse_hex_str`], but it throws an error if
 /// there are any non-hex ASCII characters in the string, or if the last byte is
 /// missing a digit.
-- 
2.43.0


From 8ce55ad778e525eb63b134511221280bb0355dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:52 +0000
Subject: [PATCH 06/12] fix: limit how deeply constructed data objects are
 descended into

With more than 256 levels the indentation overflowed (a panic in debug builds),
and with thousands of levels the stack overflowed and aborted the program. Data
nested deeper than the limit is shown like other data that can't be parsed.
---
 src/emv/tlv_parsing/ber_tlv.rs      | 32 +++++++++++++++++++++++++----
 src/emv/tlv_parsing/ingenico_tlv.rs |  2 +-
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/emv/tlv_parsing/ber_tlv.rs b/src/emv/tlv_parsing/ber_tlv.rs
index b26d2c1..9bbc5be 100644
--- a/src/emv/tlv_parsing/ber_tlv.rs
+++ b/src/emv/tlv_parsing/ber_tlv.rs
@@ -9,8 +9,28 @@ use crate::{
 	util::{byte_slice_to_u32, BYTES_PER_32_BITS},
 };
 
+// Constants
+/// The number of constructed data objects that can be nested within each other.
+/// The data of anything nested deeper than this isn't parsed any further.
+///
+/// This is far more than any genuine data should need, and it prevents
+/// maliciously-nested data from exhausting the stack. It also has to be low
+/// enough that the indentation of the innermost tag's breakdown fits in a
+/// [`u8`].
+const MAX_NESTING_DEPTH: u8 = 250;
+
 /// Parses a block of BER-TLV encoded data.
 pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, ParseError> {
+	parse_at_depth(bytes, masking_characters, 0)
+}
+
+/// Parses a block of BER-TLV encoded data that's nested within `depth`
+/// constructed data objects.
+fn parse_at_depth(
+	bytes: &[u8],
+	masking_characters: &[char],
+	depth: u8,
+) -> Result<RawEmvBlock, ParseError> {
 	let bytes_len = bytes.len();
 	let mut nodes = Vec::new();
 	let mut index = 0;
@@ -75,7 +95,7 @@ pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, P
 		// Push the resulting tag to the list
 		let tag_data = EmvData::from_u8_check_for_masked(data.to_vec(), masking_characters);
 		nodes.push(RawEmvNode {
-			child_block: get_child_block(data_object_type, &tag_data, masking_characters),
+			child_block: get_child_block(data_object_type, &tag_data, masking_characters, depth),
 			tag:         RawEmvTag {
 				tag: bytes[tag_start_index..=tag_end_index].to_vec(),
 				class,
@@ -108,19 +128,23 @@ pub fn parse_tag_metadata(tag_byte_0: u8) -> (TagClass, DataObjectType) {
 }
 
 /// Descends into the tag data to try to parse it as a constructed data object,
-/// if `data_object_type` is [`DataObjectType::Constructed`].
+/// if `data_object_type` is [`DataObjectType::Constructed`] and `depth` (the
+/// number of constructed data objects the tag is nested within) allows it.
 ///
 /// Otherwise, it returns [`RawEmvBlock::default`].
 pub fn get_child_block(
 	data_object_type: DataObjectType,
 	tag_data: &EmvData,
 	masking_characters: &[char],
+	depth: u8,
 ) -> RawEmvBlock {
 	match data_object_type {
 		DataObjectType::Primitive => RawEmvBlock::default(),
 		DataObjectType::Constructed => match tag_data {
-			EmvData::Normal(data) => parse(data, masking_characters).unwrap_or_default(),
-			EmvData::Masked => RawEmvBlock::default(),
+			EmvData::Normal(data) if depth < MAX_NESTING_DEPTH => {
+				parse_at_depth(data, masking_characters, depth + 1).unwrap_or_default()
+			}
+			EmvData::Normal(_) | EmvData::Masked => RawEmvBlock::default(),
 		},
 	}
 }
diff --git a/src/emv/tlv_parsing/ingenico_tlv.rs b/src/emv/tlv_parsing/ingenico_tlv.rs
index 948c4e8..e41e2f1 100644
--- a/src/emv/tlv_parsing/ingenico_tlv.rs
+++ b/src/emv/tlv_parsing/ingenico_tlv.rs
@@ -125,7 +125,7 @@ pub fn parse(data: &str, masking_characters: &[char]) -> Result<RawEmvBlock, Par
 			continue;
 		}
 		nodes.push(RawEmvNode {
-			child_block: get_child_block(data_object_type, &tag_data, masking_characters),
+			child_block: get_child_block(data_object_type, &tag_data, masking_characters, 0),
 			tag:         RawEmvTag {
 				tag: tag_id_bytes,
 				class,
-- 
2.43.0


From deff052604b4d34d15a5385510686f6021c3ef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:25 +0000
Subject: [PATCH 07/12] fix: report an invalid configuration instead of
 panicking

An invalid configuration file or environment variable value made every command
panic, without saying which one it was in a readable way.
---
 src/main.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 4b33f0b..d16ee96 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -51,6 +51,8 @@ mod util;
 // Uses
 use std::fmt::Debug;
 
+use clap::{error::ErrorKind, Command};
+use figment::Error as FigmentError;
 use termcolor::{StandardStream, WriteColor};
 
 use crate::{
@@ -98,6 +100,17 @@ pub trait DisplayBreakdown: Debug {
 	);
 }
 
+/// Reports a problem with the configuration, then exits.
+#[cfg(not(tarpaulin_include))]
+fn exit_on_config_error(cli_definition: &mut Command, error: &FigmentError) -> ! {
+	cli_definition
+		.error(
+			ErrorKind::InvalidValue,
+			format!("The configuration is invalid: {error}"),
+		)
+		.exit()
+}
+
 // Entry Point
 #[cfg(not(tarpaulin_include))]
 fn main() {
@@ -108,15 +121,15 @@ fn main() {
 
 	let colour_choice = config_figment
 		.extract_inner::<ColourChoice>(Config::CLI_COLOUR)
-		.unwrap()
+		.unwrap_or_else(|error| exit_on_config_error(&mut cli_definition, &error))
 		.change_based_on_tty()
 		.into();
 	let masking_characters = config_figment
 		.extract_inner::<Vec<char>>(Config::MASKING_CHARACTERS)
-		.unwrap();
+		.unwrap_or_else(|error| exit_on_config_error(&mut cli_definition, &error));
 	let sort_parsed_tags = config_figment
 		.extract_inner::<bool>(Config::SORT_PARSED_TAGS)
-		.unwrap();
+		.unwrap_or_else(|error| exit_on_config_error(&mut cli_definition, &error));
 
 	let mut stdout = StandardStream::stdout(colour_choice);
 
-- 
2.43.0


From 024bbe87fb04187c58015b1d9f880d3a23491b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:38 +0000
Subject: [PATCH 08/12] fix: show the actual bits of unknown CVM methods and
 conditions

The binary representation of CVM Results showed values without a known meaning
as all zeroes, which have a meaning of their own.
---
 src/emv/cv_rule/cv_method.rs     | 21 +++++++++++++++++----
 src/emv/cv_rule/cvm_condition.rs | 21 +++++++++++++++++----
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/emv/cv_rule/cv_method.rs b/src/emv/cv_rule/cv_method.rs
index 9c266a5..9388893 100644
--- a/src/emv/cv_rule/cv_method.rs
+++ b/src/emv/cv_rule/cv_method.rs
@@ -5,6 +5,8 @@
 // Uses
 use std::fmt::{Debug, Display, Formatter, Result as FmtResult};
 
+use derivative::Derivative;
+
 use crate::{enum_repr_fallible, error::ParseError};
 
 enum_repr_fallible! {
@@ -26,15 +28,25 @@ pub enum CvMethod: u8, ParseError, { |_| ParseError::NonCompliant } {
 }
 
 /// A somewhat dumb workaround to have custom impls on [`Option<CvMethod>`].
-#[derive(Copy, Clone, Eq, PartialEq, Hash)]
+///
+/// The raw value is kept so that values without a known meaning can still be
+/// represented accurately.
+#[derive(Copy, Clone, Eq, Derivative)]
+#[derivative(PartialEq, Hash)]
 pub struct OptionalCvMethod {
 	pub internal: Option<CvMethod>,
+	#[derivative(PartialEq = "ignore")]
+	#[derivative(Hash = "ignore")]
+	raw_value:    u8,
 }
 
 #[cfg(not(tarpaulin_include))]
 impl From<Option<CvMethod>> for OptionalCvMethod {
 	fn from(value: Option<CvMethod>) -> Self {
-		Self { internal: value }
+		Self {
+			internal:  value,
+			raw_value: value.map_or(0, Into::into),
+		}
 	}
 }
 
@@ -49,7 +61,8 @@ impl From<OptionalCvMethod> for Option<CvMethod> {
 impl From<u8> for OptionalCvMethod {
 	fn from(value: u8) -> Self {
 		Self {
-			internal: CvMethod::try_from(value).ok(),
+			internal:  CvMethod::try_from(value).ok(),
+			raw_value: value,
 		}
 	}
 }
@@ -57,7 +70,7 @@ impl From<u8> for OptionalCvMethod {
 #[cfg(not(tarpaulin_include))]
 impl From<OptionalCvMethod> for u8 {
 	fn from(value: OptionalCvMethod) -> Self {
-		value.internal.map_or(0, Into::into)
+		value.raw_value
 	}
 }
 
diff --git a/src/emv/cv_rule/cvm_condition.rs b/src/emv/cv_rule/cvm_condition.rs
index 27db84d..2ec7b9b 100644
--- a/src/emv/cv_rule/cvm_condition.rs
+++ b/src/emv/cv_rule/cvm_condition.rs
@@ -5,6 +5,8 @@
 // Uses
 use std::fmt::{Debug, Display, Formatter, Result as FmtResult};
 
+use derivative::Derivative;
+
 use crate::{enum_repr_fallible, error::ParseError};
 
 enum_repr_fallible! {
@@ -45,15 +47,25 @@ impl CvmCondition {
 
 /// A somewhat dumb workaround to have a [`Display`] impl on
 /// [`Option<CvmCondition>`].
-#[derive(Copy, Clone, Eq, PartialEq, Hash)]
+///
+/// The raw value is kept so that values without a known meaning can still be
+/// represented accurately.
+#[derive(Copy, Clone, Eq, Derivative)]
+#[derivative(PartialEq, Hash)]
 pub struct OptionalCvmCondition {
 	pub internal: Option<CvmCondition>,
+	#[derivative(PartialEq = "ignore")]
+	#[derivative(Hash = "ignore")]
+	raw_value:    u8,
 }
 
 #[cfg(not(tarpaulin_include))]
 impl From<Option<CvmCondition>> for OptionalCvmCondition {
 	fn from(value: Option<CvmCondition>) -> Self {
-		Self { internal: value }
+		Self {
+			internal:  value,
+			raw_value: value.map_or(0, Into::into),
+		}
 	}
 }
 
@@ -68,7 +80,8 @@ impl From<OptionalCvmCondition> for Option<CvmCondition> {
 impl From<u8> for OptionalCvmCondition {
 	fn from(value: u8) -> Self {
 		Self {
-			internal: CvmCondition::try_from(value).ok(),
+			internal:  CvmCondition::try_from(value).ok(),
+			raw_value: value,
 		}
 	}
 }
@@ -76,7 +89,7 @@ impl From<u8> for OptionalCvmCondition {
 #[cfg(not(tarpaulin_include))]
 impl From<OptionalCvmCondition> for u8 {
 	fn from(value: OptionalCvmCondition) -> Self {
-		value.internal.map_or(0, Into::into)
+		value.raw_value
 	}
 }
 
-- 
2.43.0


From a8dfde0f0d59c51c4bd9bc90dc362593bc72f272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:17 +0000
Subject: [PATCH 09/12] fix: refuse environment variables that are nested too
 deeply to be parsed

---
 src/config/mod.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index da84b82..8c0ec66 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -23,6 +23,10 @@ const ENV_PREFIX: &str = "PEMV_";
 // TODO: Test this
 const ENV_FILE_NAME_OVERRIDE: &str = "CONFIG";
 const ENV_PROFILE: &str = "PROFILE";
+/// The number of nested values an environment variable may contain.
+///
+/// The values are parsed recursively, so there has to be some limit.
+const ENV_MAX_NESTED_VALUES: usize = 64;
 
 /// The app configuration.
 #[non_exhaustive]
@@ -75,11 +79,11 @@ impl Config {
 				))
 				.nested(),
 			)
-			.merge(
+			.merge(LimitedEnv(
 				Env::prefixed(ENV_PREFIX)
 					.ignore(&[ENV_FILE_NAME_OVERRIDE, ENV_PROFILE])
 					.global(),
-			)
+			))
 			.select(Profile::from_env_or(
 				format!("{ENV_PREFIX}{ENV_PROFILE}").as_str(),
 				Self::DEFAULT_PROFILE,
@@ -101,6 +105,25 @@ impl Provider for Config {
 	}
 }
 
+/// Wraps [`Env`], refusing values that are nested too deeply to be parsed.
+struct LimitedEnv(Env);
+
+impl Provider for LimitedEnv {
+	fn metadata(&self) -> Metadata {
+		self.0.metadata()
+	}
+
+	fn data(&self) -> Result<Map<Profile, Dict>, FigmentError> {
+		for (key, value) in self.0.iter() {
+			if value.matches(['[', '{']).count() > ENV_MAX_NESTED_VALUES {
+				return Err(format!("the value for `{key}` is nested too deeply").into());
+			}
+		}
+
+		self.0.data()
+	}
+}
+
 /// Applies values provided via CLI to the `figment`, overriding anything from
 /// the configuration or environment variables.
 ///
-- 
2.43.0


From 978787b57070e1612ad78c4a93a2ff3627b56d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:59 +0000
Subject: [PATCH 10/12] fix: report arguments that aren't valid UTF-8 instead
 of panicking

---
 src/main.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index d16ee96..78babbe 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -49,7 +49,7 @@ mod testing_macros;
 mod util;
 
 // Uses
-use std::fmt::Debug;
+use std::{env::args_os, fmt::Debug};
 
 use clap::{error::ErrorKind, Command};
 use figment::Error as FigmentError;
@@ -115,6 +115,17 @@ fn exit_on_config_error(cli_definition: &mut Command, error: &FigmentError) -> !
 #[cfg(not(tarpaulin_include))]
 fn main() {
 	let mut cli_definition = build_cli();
+
+	// `clap` can't handle this in all cases, and none of the arguments support it
+	if args_os().skip(1).any(|arg| arg.to_str().is_none()) {
+		cli_definition
+			.error(
+				ErrorKind::InvalidUtf8,
+				"The arguments provided are not valid UTF-8.",
+			)
+			.exit();
+	}
+
 	let matches = cli_definition.clone().get_matches();
 
 	let config_figment = apply_cli_arguments(Config::figment(), &matches);
-- 
2.43.0


From 5379cda2c3f10fe14d44e0d3dab461cdad3c7159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:45 +0000
Subject: [PATCH 11/12] fix: trim leading zero bytes in a single pass instead
 of one at a time

---
 src/util.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 8ee5d34..19c0e8e 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -112,13 +112,8 @@ pub fn bytes_to_str(bytes: &[u8]) -> String {
 /// Trims the leading `0x00` bytes, never removing the last byte. (even if it's
 /// also `0x00`)
 pub fn trim_leading_0_bytes(bytes: &mut Vec<u8>) {
-	while bytes.len() > 1 {
-		if bytes[0] == 0x00 {
-			bytes.remove(0);
-		} else {
-			break;
-		}
-	}
+	let leading_0_bytes = bytes.iter().take_while(|&&byte| byte == 0x00).count();
+	bytes.drain(..leading_0_bytes.min(bytes.len().saturating_sub(1)));
 }
 
 /// Sourced from <https://stackoverflow.com/a/69302957>.
-- 
2.43.0


From fbea471004f9c74268d5f6035f6b4436cefcce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:39 +0000
Subject: [PATCH 12/12] fix: notice when the end of the help shown without an
 operation can't be written

---
 src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 78babbe..f866110 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -49,7 +49,7 @@ mod testing_macros;
 mod util;
 
 // Uses
-use std::{env::args_os, fmt::Debug};
+use std::{env::args_os, fmt::Debug, io::Write};
 
 use clap::{error::ErrorKind, Command};
 use figment::Error as FigmentError;
@@ -237,7 +237,10 @@ fn main() {
 		}
 		// Default behaviour when no options are provided
 		else {
-			cli_definition.print_help().expect("unable to print help");
+			cli_definition
+				.print_help()
+				.and_then(|()| stdout.flush())
+				.expect("unable to print help");
 			return;
 		}
 	};
-- 
2.43.0

