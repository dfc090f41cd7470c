//! The data the model knows: names, bit meanings and code tables (EMV Books 3 and 4, ISO 7813, ISO 8583).

use super::Sty::{self, E, P, W};

/// Tag, name.
pub const DICTIONARY: &[(&str, &str)] = &[
	("42", "Issuer Identification Number (IIN)"),
	("4F", "Application Dedicated File (ADF) Name"),
	("50", "Application Label"),
	("57", "Track 2 Equivalent Data"),
	("5A", "Application Primary Account Number (PAN)"),
	("5F20", "Cardholder Name"),
	("5F24", "Application Expiration Date"),
	("5F25", "Application Effective Date"),
	("5F28", "Issuer Country Code"),
	("5F2A", "Transaction Currency Code"),
	("5F2D", "Language Preference"),
	("5F30", "Service Code"),
	("5F34", "Application Primary Account Number (PAN) Sequence Number"),
	("5F36", "Transaction Currency Exponent"),
	("5F50", "Issuer URL"),
	("5F53", "International Bank Account Number (IBAN)"),
	("5F54", "Bank Identifier Code (BIC)"),
	("5F55", "Issuer Country Code (alpha2 format)"),
	("5F56", "Issuer Country Code (alpha3 format)"),
	("5F57", "Account Type"),
	("61", "Application Template"),
	("6F", "File Control Information (FCI) Template"),
	("70", "READ RECORD Response Message Template"),
	("71", "Issuer Script Template 1"),
	("72", "Issuer Script Template 2"),
	("73", "Directory Discretionary Template"),
	("77", "Response Message Template Format 2"),
	("80", "Response Message Template Format 1"),
	("81", "Amount, Authorised (Binary)"),
	("82", "Application Interchange Profile"),
	("83", "Command Template"),
	("84", "Dedicated File (DF) Name"),
	("86", "Issuer Script Command"),
	("87", "Application Priority Indicator"),
	("88", "Short File Identifier (SFI)"),
	("89", "Authorisation Code"),
	("8A", "Authorisation Response Code"),
	("8C", "Card Risk Management Data Object List 1 (CDOL1)"),
	("8D", "Card Risk Management Data Object List 2 (CDOL2)"),
	("8E", "CVM List"),
	("8F", "Certification Authority Public Key Index (ICC)"),
	("90", "Issuer Public Key Certificate"),
	("91", "Issuer Authentication Data"),
	("92", "Issuer Public Key Remainder"),
	("93", "Signed Static Application Data"),
	("94", "Application File Locator (AFL)"),
	("95", "Terminal Verification Results (TVR)"),
	("97", "Transaction Certificate Data Object List (TDOL)"),
	("98", "Transaction Certificate (TC) Hash Value"),
	("99", "Transaction PIN Data"),
	("9A", "Transaction Date"),
	("9B", "Transaction Status Information (TSI)"),
	("9C", "Transaction Type"),
	("9D", "Directory Definition File (DDF) Name"),
	("9F01", "Acquirer Identifier"),
	("9F02", "Amount, Authorised (Numeric)"),
	("9F03", "Amount, Other (Numeric)"),
	("9F04", "Amount, Other (Binary)"),
	("9F05", "Application Discretionary Data"),
	("9F06", "Application Identifier (AID)"),
	("9F07", "Application Usage Control"),
	("9F08", "Application Version Number (ICC)"),
	("9F09", "Application Version Number (Terminal)"),
	("9F0B", "Cardholder Name Extended"),
	("9F0D", "Issuer Action Code - Default"),
	("9F0E", "Issuer Action Code - Denial"),
	("9F0F", "Issuer Action Code - Online"),
	("9F10", "Issuer Application Data (CCD-Compliant)"),
	("9F11", "Issuer Code Table Index"),
	("9F12", "Application Preferred Name"),
	("9F13", "Last Online Application Transaction Counter (ATC) Register"),
	("9F14", "Lower Consecutive Offline Limit"),
	("9F15", "Merchant Category Code"),
	("9F16", "Merchant Identifier"),
	("9F17", "PIN Try Counter"),
	("9F18", "Issuer Script Identifier"),
	("9F1A", "Terminal Country Code"),
	("9F1B", "Terminal Floor Limit"),
	("9F1C", "Terminal Identification"),
	("9F1D", "Terminal Risk Management Data"),
	("9F1E", "Interface Device (IFD/Terminal) Serial Number"),
	("9F1F", "Track 1 Discretionary Data"),
	("9F20", "Track 2 Discretionary Data"),
	("9F21", "Transaction Time"),
	("9F22", "Certification Authority Public Key Index (Terminal)"),
	("9F23", "Upper Consecutive Offline Limit"),
	("9F26", "Application Cryptogram"),
	("9F27", "Cryptogram Information Data (CID)"),
	("9F2D", "ICC PIN Encipherment Public Key Certificate"),
	("9F2E", "ICC PIN Encipherment Public Key Exponent"),
	("9F2F", "ICC PIN Encipherment Public Key Remainder"),
	("9F32", "Issuer Public Key Exponent"),
	("9F33", "Terminal Capabilities"),
	("9F34", "CVM Results"),
	("9F35", "Terminal Type"),
	("9F36", "Application Transaction Counter (ATC)"),
	("9F37", "Unpredictable Number"),
	("9F38", "Processing Options Data Object List (PDOL)"),
	("9F39", "POS Entry Mode"),
	("9F3A", "Amount, Reference Currency (Binary)"),
	("9F3B", "Application Reference Currency"),
	("9F3C", "Transaction Reference Currency Code"),
	("9F3D", "Transaction Reference Currency Exponent"),
	("9F40", "Additional Terminal Capabilities"),
	("9F41", "Transaction Sequence Counter"),
	("9F42", "Application Currency Code"),
	("9F43", "Application Reference Currency Exponent"),
	("9F44", "Application Currency Exponent"),
	("9F45", "Data Authentication Code"),
	("9F46", "ICC Public Key Certificate"),
	("9F47", "ICC Public Key Exponent"),
	("9F48", "ICC Public Key Remainder"),
	("9F49", "Dynamic Data Authentication Data Object List (DDOL)"),
	("9F4A", "Static Data Authentication Tag List"),
	("9F4B", "Signed Dynamic Application Data"),
	("9F4C", "ICC Dynamic Number"),
	("9F4D", "Log Entry"),
	("9F4E", "Merchant Name and Location"),
	("9F4F", "Log Format"),
	("A5", "File Control Information (FCI) Proprietary Template"),
	("BF0C", "File Control Information (FCI) Issuer Discretionary Data"),
];

pub const RESPONSE_CODES: &[(&str, &str)] = &[
	("00", "Approval"),
	("01", "Call"),
	("02", "Call - Special Conditions"),
	("03", "Terminal ID Error"),
	("04", "Hold Card - Call"),
	("05", "Decline - Do Not Honour"),
	("06", "Error"),
	("07", "Hold Card - Call - Special Conditions"),
	("08", "Honour With Identification"),
	("09", "No Original Transaction"),
	("10", "Partial Approval"),
	("11", "Approved (VIP)"),
	("12", "Invalid Transaction"),
	("13", "Invalid Amount"),
	("14", "Invalid Card Number"),
	("15", "No Such Issuer"),
	("16", "Approved - Update Track 3"),
	("17", "Customer Cancellation"),
	("18", "Customer Dispute"),
	("19", "Retry Transaction"),
	("20", "Invalid Response"),
	("21", "No Action Taken"),
	("22", "Suspected Malfunction"),
	("23", "Invalid Minimum Amount"),
	("24", "File Update Not Supported"),
	("25", "Invalid ICC Data"),
	("26", "Duplicate File Update Record"),
	("27", "File Update Field Edit Error"),
	("28", "File Update File Locked Out"),
	("29", "File Update Not Successful"),
	("30", "Format Error"),
	("31", "Bank Not Supported By Switch"),
	("32", "Completed Partially"),
	("33", "Expired Card"),
	("54", "Expired Card"),
	("34", "Suspected Fraud"),
	("59", "Suspected Fraud"),
	("35", "Card Acceptor, Contact Acquirer"),
	("60", "Card Acceptor, Contact Acquirer"),
	("36", "Restricted Card"),
	("62", "Restricted Card"),
	("37", "Card Acceptor, Call Acquirer Security"),
	("66", "Card Acceptor, Call Acquirer Security"),
	("38", "Allowable PIN Retries Exceeded"),
	("75", "Allowable PIN Retries Exceeded"),
	("39", "No Credit Account"),
	("40", "Requested Function Not Supported"),
	("41", "Lost Card"),
	("42", "No Universal Account"),
	("43", "Stolen Card"),
	("44", "No Investment Account"),
	("51", "Insufficient Funds"),
	("52", "No Chequing Account"),
	("53", "No Savings Account"),
	("55", "Incorrect PIN"),
	("56", "No Card Record"),
	("57", "Transaction Not Allowed For Cardholder"),
	("58", "Transaction Not Allowed For Terminal"),
	("61", "Debit Cashback Withdrawal Limit Decline"),
	("63", "Security Violation"),
	("64", "Original Amount Incorrect"),
	("65", "Decline - Insert Card (often due to too many contactless transactions)"),
	("67", "ATM Hard Card Capture"),
	("68", "Response Received Too Late"),
	("91", "Issuer Timeout"),
	("92", "Issuer Routing Problem"),
	("93", "Transaction Not Completed - Law Violation"),
	("94", "Duplicate Transmission"),
	("95", "Reconciliation Error"),
	("96", "System Malfunction"),
];

pub const TRANSACTION_TYPES: &[(u8, &str)] = &[
	(0x00, "Purchase"),
	(0x01, "Cash Advance"),
	(0x02, "Void"),
	(0x09, "Purchase With Cashback"),
	(0x20, "Refund"),
	(0x31, "Balance Inquiry"),
	(0x38, "Mini Statement"),
	(0x40, "Fund Transfer"),
];

pub const TERMINAL_TYPES: &[(u8, &str)] = &[
	(0x11, "Attended, Online-Only, Controlled by a Financial Institution"),
	(0x12, "Attended, Offline With Online Capabilities, Controlled by a Financial Institution"),
	(0x13, "Attended, Offline-Only, Controlled by a Financial Institution"),
	(0x14, "Unattended, Online-Only, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)"),
	(0x15, "Unattended, Offline With Online Capabilities, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)"),
	(0x16, "Unattended, Offline-Only, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)"),
	(0x21, "Attended, Online-Only, Controlled by a Merchant"),
	(0x22, "Attended, Offline With Online Capabilities, Controlled by a Merchant"),
	(0x23, "Attended, Offline-Only, Controlled by a Merchant"),
	(0x24, "Unattended, Online-Only, Controlled by a Merchant"),
	(0x25, "Unattended, Offline With Online Capabilities, Controlled by a Merchant"),
	(0x26, "Unattended, Offline-Only, Controlled by a Merchant"),
	(0x34, "Unattended, Online-Only, Controlled by the Cardholder (self-attended, home PC, etc.)"),
	(0x35, "Unattended, Offline With Online Capabilities, Controlled by the Cardholder (self-attended, home PC, etc.)"),
	(0x36, "Unattended, Offline-Only, Controlled by the Cardholder (self-attended, home PC, etc.)"),
];

pub const POS_ENTRY_MODES: &[(u8, &str)] = &[
	(0x00, "Unknown"),
	(0x01, "Manual (keyed entry)"),
	(0x02, "Magnetic Stripe Reader (MSR)"),
	(0x03, "Barcode"),
	(0x04, "Optical Character Recognition (OCR)"),
	(0x05, "Integrated Circuit Chip (ICC) - Data Reliable (contact/insert transaction) (CVV can be checked)"),
	(0x06, "Magnetic Stripe Track 1"),
	(0x07, "Contactless Chip (contactless/tap transaction)"),
	(0x83, "Contactless Chip (contactless/tap transaction)"),
	(0x08, "Contactless Chip (contactless/tap transaction) - Contactless Mapping Service Applied"),
	(0x92, "Contactless Chip (contactless/tap transaction) - Contactless Mapping Service Applied"),
	(0x09, "E-Commerce - Including Remote Chip"),
	(0x10, "Merchant Has Cardholder Credentials On File (token, recurring payment, etc.)"),
	(0x80, "ICC Could Not Process - Fallback to MSR"),
	(0x81, "E-Commerce - Including Chip"),
	(0x82, "Via a Server (issuer, acquirer, third-party vendor)"),
	(0x90, "Magnetic Stripe Reader (MSR) - Full Track Data - Data Reliable (CVV can be checked)"),
	(0x91, "Contactless Magnetic Stripe Data (MSD)"),
	(0x95, "Integrated Circuit Chip (ICC) - Data Unreliable (contact/insert transaction) (CVV cannot be checked)"),
];

pub const TVR: &[(usize, u8, Sty, &str)] = &[
	(0, 0x80, P, "Offline data authentication was not performed"),
	(0, 0x40, E, "SDA (Static Data Authentication) failed"),
	(0, 0x20, E, "ICC data missing"),
	(0, 0x10, E, "Card appears on terminal exception file"),
	(0, 0x08, E, "DDA (Dynamic Data Authentication) failed"),
	(0, 0x04, E, "CDA (Combined Data Authentication) failed"),
	(1, 0x80, W, "ICC and terminal have different application versions"),
	(1, 0x40, E, "Expired application"),
	(1, 0x20, E, "Application not yet effective"),
	(1, 0x10, E, "Requested service not allowed for card product"),
	(1, 0x08, W, "New card"),
	(2, 0x80, W, "Cardholder verification was not successful"),
	(2, 0x40, W, "Unrecognised CVM (Cardholder Verification Method)"),
	(2, 0x20, E, "PIN try limit exceeded"),
	(2, 0x10, E, "PIN entry required and PIN pad not present or not working"),
	(2, 0x08, W, "PIN entry required, PIN pad present, but PIN was not entered (PIN bypass)"),
	(2, 0x04, P, "Online PIN entered"),
	(3, 0x80, P, "Transaction exceeds floor limit"),
	(3, 0x40, P, "Lower consecutive offline limit exceeded"),
	(3, 0x20, P, "Upper consecutive offline limit exceeded"),
	(3, 0x10, P, "Transaction selected randomly for online processing"),
	(3, 0x08, P, "Merchant forced transaction online"),
	(4, 0x80, P, "Default TDOL (Transaction Certificate Data Object List) used"),
	(4, 0x40, E, "Issuer authentication failed"),
	(4, 0x20, E, "Script processing failed before final GENERATE AC"),
	(4, 0x10, E, "Script processing failed after final GENERATE AC"),
];

pub const TSI: &[(usize, u8, Sty, &str)] = &[
	(0, 0x80, P, "Offline data authentication was performed"),
	(0, 0x40, P, "Cardholder verification was performed"),
	(0, 0x20, P, "Card risk management was performed"),
	(0, 0x10, P, "Issuer authentication was performed"),
	(0, 0x08, P, "Terminal risk management was performed"),
	(0, 0x04, P, "Script processing was performed"),
];

pub const TERM_CAPS: &[(usize, u8, Sty, &str)] = &[
	(0, 0x80, P, "Manual key entry"),
	(0, 0x40, P, "Magnetic stripe (MSR)"),
	(0, 0x20, P, "IC with contacts (ICC)"),
	(1, 0x80, P, "Plaintext PIN for ICC verification"),
	(1, 0x40, P, "Enciphered PIN for online verification"),
	(1, 0x20, P, "Signature (paper)"),
	(1, 0x10, P, "Enciphered PIN for offline verification"),
	(1, 0x08, P, "No CVM Required"),
	(2, 0x80, P, "SDA (Static Data Authentication)"),
	(2, 0x40, P, "DDA (Dynamic Data Authentication)"),
	(2, 0x20, P, "Card capture (ATM retaining the card)"),
	(2, 0x08, P, "CDA (Combined Data Authentication)"),
];

pub const ADD_TERM_CAPS: &[(usize, u8, Sty, &str)] = &[
	(0, 0x80, P, "Cash"),
	(0, 0x40, P, "Goods"),
	(0, 0x20, P, "Services"),
	(0, 0x10, P, "Cashback"),
	(0, 0x08, P, "Inquiry (request for information about one of the cardholder's accounts)"),
	(0, 0x04, P, "Transfer (between cardholder accounts at the same financial institution)"),
	(0, 0x02, P, "Payment (from a cardholder account to another party)"),
	(0, 0x01, P, "Administrative"),
	(1, 0x80, P, "Cash Deposit (into a bank account related to an application on the card used)"),
	(2, 0x80, P, "Numeric keys"),
	(2, 0x40, P, "Alphabetic and special characters keys"),
	(2, 0x20, P, "Command keys"),
	(2, 0x10, P, "Function keys"),
	(3, 0x80, P, "Print, attendant"),
	(3, 0x40, P, "Print, cardholder"),
	(3, 0x20, P, "Display, attendant"),
	(3, 0x10, P, "Display, cardholder"),
	(3, 0x02, P, "ISO/IEC 8859 Code Table 10"),
	(3, 0x01, P, "ISO/IEC 8859 Code Table 9"),
	(4, 0x80, P, "ISO/IEC 8859 Code Table 8"),
	(4, 0x40, P, "ISO/IEC 8859 Code Table 7"),
	(4, 0x20, P, "ISO/IEC 8859 Code Table 6"),
	(4, 0x10, P, "ISO/IEC 8859 Code Table 5"),
	(4, 0x08, P, "ISO/IEC 8859 Code Table 4"),
	(4, 0x04, P, "ISO/IEC 8859 Code Table 3"),
	(4, 0x02, P, "ISO/IEC 8859 Code Table 2"),
	(4, 0x01, P, "ISO/IEC 8859 Code Table 1"),
];

pub const CVR_FLAGS: &[(usize, u8, Sty, &str)] = &[
	(0, 0x08, P, "CDA (Combined Data Authentication) performed"),
	(0, 0x04, P, "Offline DDA (Dynamic Data Authentication) performed"),
	(0, 0x02, W, "Issuer authentication not performed"),
	(0, 0x01, E, "Issuer authentication failed"),
	(1, 0x08, P, "Offline PIN verification performed"),
	(1, 0x04, E, "Offline PIN verification performed and PIN not successfully verified"),
	(1, 0x02, E, "PIN try limit exceeded"),
	(1, 0x01, W, "Last online transaction not completed"),
	(2, 0x80, P, "Lower offline transaction count limit exceeded"),
	(2, 0x40, P, "Upper offline transaction count limit exceeded"),
	(2, 0x20, P, "Lower cumulative offline amount limit exceeded"),
	(2, 0x10, P, "Upper cumulative offline amount limit exceeded"),
	(2, 0x08, P, "Issuer-discretionary bit 1"),
	(2, 0x04, P, "Issuer-discretionary bit 2"),
	(2, 0x02, P, "Issuer-discretionary bit 3"),
	(2, 0x01, P, "Issuer-discretionary bit 4"),
	(3, 0x08, E, "Issuer script processing failed"),
	(3, 0x04, W, "Offline data authentication failed on previous transaction"),
	(3, 0x02, P, "Go online on next transaction"),
	(3, 0x01, W, "Unable to go online"),
];
