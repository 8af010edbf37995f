From de6639432dff26135d3061df922fc7ef9d97a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 01/88] fix: base64 decoder wrote and read outside its buffers
 on unpadded and empty input

---
 core/encoding/base64.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/encoding/base64.cpp b/core/encoding/base64.cpp
index 7b50fad..6345914 100644
--- a/core/encoding/base64.cpp
+++ b/core/encoding/base64.cpp
@@ -45,7 +45,7 @@ std::vector<uint8_t> Encoding::fromBase64(const std::string& data) {
 
 	//	check base64 string validity real quick
 	for (size_t i = 0; i < data.size(); i++) {
-		auto symbol = data[i];
+		auto symbol = static_cast<uint8_t>(data[i]);
 		if (!isalnum(symbol) && symbol != '+' && symbol != '/' && symbol != '=')
 			throw std::runtime_error("Invalid symbol in base64 sequence at position " + std::to_string(i));
 	}
@@ -66,14 +66,13 @@ std::vector<uint8_t> Encoding::fromBase64(const std::string& data) {
 
 	if (incompleteBlockSize > 0) {
 
-		result.resize(result.size() + 1);
+		result.resize(result.size() + (incompleteBlockSize == 3 ? 2 : 1));
 
 		if (incompleteBlockSize == 3) {
 			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], data[encodedCompleteBlocks + 1]);
 			decB2(result, outputCompleteBlocks, data[encodedCompleteBlocks + 1], data[encodedCompleteBlocks + 2]);
 		} else if (incompleteBlockSize == 2) {
 			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], data[encodedCompleteBlocks + 1]);
-			decB2(result, outputCompleteBlocks, data[encodedCompleteBlocks + 1], 0);
 		} else {
 			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], 0);
 		}
@@ -81,6 +80,8 @@ std::vector<uint8_t> Encoding::fromBase64(const std::string& data) {
 		return result;
 	}
 
+	if (data.empty()) return result;
+
 	uint8_t paddLength = 0;
 	for (uint8_t i = 1; i <= 2; i++) {
 		if (data[data.size() - i] == '=')
-- 
2.43.0


From 11afbda1f75d035928955c1ded0ce331307da243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 02/88] fix: hex decoder accepted characters that are not hex
 digits

---
 core/encoding/hex.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/encoding/hex.cpp b/core/encoding/hex.cpp
index 800fda2..a6a32fa 100644
--- a/core/encoding/hex.cpp
+++ b/core/encoding/hex.cpp
@@ -32,7 +32,7 @@ std::string Encoding::toHex(const std::vector<uint8_t>& input) {
 
 const uint8_t hex_decode_table[] = {
 	0,1,2,3,4,5,6,7,8,9,
-	0,0,0,0,0,0,0,
+	0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,
 	10,11,12,13,14,15
 };
 
@@ -44,6 +44,8 @@ uint8_t Encoding::hexToByte(HexByte hexbyte) {
 		int charcode = hexbyte.string[i] - (hexbyte.string[i] > 0x5a ? 0x50 : 0x30);
 		if (charcode >= (int)sizeof(hex_decode_table) || charcode < 0)
 			throw std::runtime_error("Invalid character in hex string" + std::string(hexbyte.string));
+		if (hex_decode_table[charcode] > 0x0F)
+			throw std::runtime_error("Invalid character in hex string" + std::string(hexbyte.string));
 		temp.string[i] = hex_decode_table[charcode];
 	}
 
-- 
2.43.0


From c8caea982c2b4d36b44c18b152e993a7defbdbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 03/88] fix: Strings::endsWith looked at the first occurrence
 of the suffix only

---
 core/polyfill/strings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index a9cd738..7d68419 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -58,7 +58,7 @@ bool Strings::includes(const std::string& str, const std::vector <std::string>&
 }
 
 bool Strings::endsWith(const std::string& str, const std::string& substr) {
-	return str.find(substr) == (str.size() - substr.size());
+	return str.ends_with(substr);
 }
 bool Strings::startsWith(const std::string& str, const std::string& substr) {
 	return str.find(substr) == 0;
-- 
2.43.0


From 86fc173fb0326a20657820f0511d005673ab5eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 04/88] fix: Strings::trim read outside of an empty string

---
 core/polyfill/strings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index 7d68419..051c3be 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -69,6 +69,8 @@ void Strings::trim(std::string& str) {
 	//	list of characters to remove
 	static const std::set<char> whitespaceChars = { '\r', '\n', '\t', ' ' };
 
+	if (!str.size()) return;
+
 	//	forward pass
 	size_t pos_from = 0;
 	while (pos_from < str.size()) {
-- 
2.43.0


From 8e1a3324a2016e80894cb8f36d41f95c4b3f656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 05/88] fix: Strings::join dropped separators after leading
 empty pieces

---
 core/polyfill/strings.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index 051c3be..db438ad 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -151,9 +151,9 @@ std::string Strings::join(const std::vector<std::string>& strs, const char* toke
 
 	std::string result;
 
-	for(auto& str : strs) {
-		if (result.size() > 0) result += token;
-		result += str;
+	for (size_t i = 0; i < strs.size(); i++) {
+		if (i > 0) result += token;
+		result += strs[i];
 	}
 
 	return result;
-- 
2.43.0


From 2c931cb617a9c12cedbce9c454990e2d913d03ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 06/88] fix: Strings::replaceAll never returned when replacing
 an empty string

---
 core/polyfill/strings.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index db438ad..fa96a69 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -172,6 +172,7 @@ std::string Strings::replace(const std::string& base, const std::string& sub, co
 }
 
 void Strings::replaceAll(std::string& base, const std::string& sub, const std::string& replacement) {
+	if (!sub.size()) return;
 	size_t index = base.find(sub);
 	while (index != std::string::npos) {
 		base.replace(index, sub.size(), replacement);
-- 
2.43.0


From 6e66045c5ef99179b08f50c5ebbe95bf00e114a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 07/88] fix: cookies received with capital letters in their
 names could not be found

---
 core/http/cookies.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/http/cookies.cpp b/core/http/cookies.cpp
index e588f68..658a096 100644
--- a/core/http/cookies.cpp
+++ b/core/http/cookies.cpp
@@ -14,7 +14,7 @@ Cookies::Cookies(const std::string& cookiestring) {
 		auto kvSeparatorIdx = entry.find('=');
 		if (kvSeparatorIdx == std::string::npos || kvSeparatorIdx == 0 || kvSeparatorIdx == entry.size() - 1) continue;
 
-		auto key = Strings::trim(entry.substr(0, kvSeparatorIdx));
+		auto key = Strings::toLowerCase(Strings::trim(entry.substr(0, kvSeparatorIdx)));
 		auto value = Strings::trim(entry.substr(kvSeparatorIdx + 1));
 
 		if (!key.size() || !value.size()) continue;
-- 
2.43.0


From d030b691b560eecfb91315e267f06d5adf86782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 08/88] fix: copying or moving cookies lost their pending
 Set-Cookie values

---
 core/http/cookies.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/http/cookies.cpp b/core/http/cookies.cpp
index 658a096..640f923 100644
--- a/core/http/cookies.cpp
+++ b/core/http/cookies.cpp
@@ -25,19 +25,23 @@ Cookies::Cookies(const std::string& cookiestring) {
 
 Cookies::Cookies(const Cookies& other) {
 	this->m_data = other.m_data;
+	this->m_set_queue = other.m_set_queue;
 }
 
 Cookies::Cookies(Cookies&& other) {
 	this->m_data = std::move(other.m_data);
+	this->m_set_queue = std::move(other.m_set_queue);
 }
 
 Cookies& Cookies::operator=(const Cookies& other) noexcept {
 	this->m_data = other.m_data;
+	this->m_set_queue = other.m_set_queue;
 	return *this;
 }
 
 Cookies& Cookies::operator=(Cookies&& other) noexcept {
 	this->m_data = std::move(other.m_data);
+	this->m_set_queue = std::move(other.m_set_queue);
 	return *this;
 }
 
-- 
2.43.0


From c6e156d0d17b780630463836cab54b260b7c806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 09/88] fix: deleting a cookie wrote no expiry attribute

---
 core/http/cookies.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/http/cookies.cpp b/core/http/cookies.cpp
index 640f923..37b49d7 100644
--- a/core/http/cookies.cpp
+++ b/core/http/cookies.cpp
@@ -73,7 +73,7 @@ void Cookies::del(const std::string& key) {
 	const auto keyNormalized = Strings::toLowerCase(key);
 	if (!this->m_data.contains(keyNormalized)) return;
 	this->m_data.erase(keyNormalized);
-	this->m_set_queue[keyNormalized] = { "", { "expires", "Thu, Jan 01 1970 00:00:00 UTC" } };
+	this->m_set_queue[keyNormalized] = { "", { { "expires", "Thu, Jan 01 1970 00:00:00 UTC" } } };
 }
 
 std::vector<KVpair> Cookies::entries() const {
-- 
2.43.0


From 7a913139e0f8711b60385d6d4b8f05a54b4968ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 10/88] fix: deleting a cookie that was not received in the
 same request did nothing

---
 core/http/cookies.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/http/cookies.cpp b/core/http/cookies.cpp
index 37b49d7..a136c45 100644
--- a/core/http/cookies.cpp
+++ b/core/http/cookies.cpp
@@ -71,7 +71,6 @@ void Cookies::set(const std::string& key, const std::string& value, const std::i
 
 void Cookies::del(const std::string& key) {
 	const auto keyNormalized = Strings::toLowerCase(key);
-	if (!this->m_data.contains(keyNormalized)) return;
 	this->m_data.erase(keyNormalized);
 	this->m_set_queue[keyNormalized] = { "", { { "expires", "Thu, Jan 01 1970 00:00:00 UTC" } } };
 }
-- 
2.43.0


From e300318cbc83fd5eff8582f8fadae222a39f3ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 11/88] fix: query parameters with capital letters in their
 keys could not be found

---
 core/http/urlsearchparams.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/http/urlsearchparams.cpp b/core/http/urlsearchparams.cpp
index 67baeb4..efdfa81 100644
--- a/core/http/urlsearchparams.cpp
+++ b/core/http/urlsearchparams.cpp
@@ -13,7 +13,7 @@ URLSearchParams::URLSearchParams(const std::string& queries) {
 		auto kvSeparatorIdx = entry.find('=');
 		if (kvSeparatorIdx == std::string::npos || kvSeparatorIdx == 0 || kvSeparatorIdx == entry.size() - 1) continue;
 
-		auto key = Strings::trim(entry.substr(0, kvSeparatorIdx));
+		auto key = Strings::toLowerCase(Strings::trim(entry.substr(0, kvSeparatorIdx)));
 		auto value = Strings::trim(entry.substr(kvSeparatorIdx + 1));
 
 		if (!key.size() || !value.size()) continue;
-- 
2.43.0


From ad05aa41ebf0db2fbe668bb2b469edfdee3a1c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 12/88] fix: query parameters were dropped when a value
 contained a question mark

---
 core/http/urlsearchparams.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/http/urlsearchparams.cpp b/core/http/urlsearchparams.cpp
index efdfa81..73b0e03 100644
--- a/core/http/urlsearchparams.cpp
+++ b/core/http/urlsearchparams.cpp
@@ -5,8 +5,9 @@ using namespace Lambda::HTTP;
 
 URLSearchParams::URLSearchParams(const std::string& queries) {
 
-	auto qmark = queries.find_last_of('?');
-	auto entries = Strings::split(qmark != std::string::npos ? queries.substr(qmark + 1) : queries, '&');
+	//	a question mark that comes after a key or a separator is a part of the query itself
+	auto qmark = queries.find_first_of("?=&");
+	auto entries = Strings::split(qmark != std::string::npos && queries[qmark] == '?' ? queries.substr(qmark + 1) : queries, '&');
 	
 	for (const auto& entry : entries) {
 
-- 
2.43.0


From 477c4669c6b464752efca6d3dca9727f3c9f3bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 13/88] fix: URL parser dropped a user name given without a
 password

---
 core/http/url.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/http/url.cpp b/core/http/url.cpp
index 102c389..e862bb8 100644
--- a/core/http/url.cpp
+++ b/core/http/url.cpp
@@ -56,6 +56,8 @@ void URL::parse(const std::string& href) {
 				if (credSep != std::string::npos) {
 					this->username = credentails.substr(0, credSep);
 					this->password = credentails.substr(credSep + 1);
+				} else {
+					this->username = credentails;
 				}
 
 				addrString = addrString.substr(cursor + 1);
-- 
2.43.0


From c6ca695afc919532df1890ec3b8784bc34d36999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 14/88] fix: serialized URL lost a user name without a password

---
 core/http/url.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/http/url.cpp b/core/http/url.cpp
index e862bb8..64e49b7 100644
--- a/core/http/url.cpp
+++ b/core/http/url.cpp
@@ -122,8 +122,10 @@ std::string URL::href() const {
 		}
 
 		//	add http auth
-		if (this->username.size() && this->password.size()) {
-			temp += this->username + ":" + this->password + "@";
+		if (this->username.size()) {
+			temp += this->username;
+			if (this->password.size()) temp += ":" + this->password;
+			temp += "@";
 		}
 
 		//	add host name
-- 
2.43.0


From ae168ab7b352c5193da7fea83f2fa3365f287648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 15/88] fix: basic credentials were taken from other
 authorization schemes

---
 core/http/auth.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/core/http/auth.cpp b/core/http/auth.cpp
index fe1e612..aa62287 100644
--- a/core/http/auth.cpp
+++ b/core/http/auth.cpp
@@ -8,16 +8,12 @@ using namespace Lambda::HTTP::Auth;
 
 std::optional<BasicCredentials> Auth::parseBasicAuth(const std::string& header) {
 
-	if (!Strings::includes(Strings::toLowerCase(header), "basic")) {
+	const auto schemeEnd = header.find(' ');
+	if (schemeEnd == std::string::npos || Strings::toLowerCase(header.substr(0, schemeEnd)) != "basic") {
 		return std::nullopt;
 	}
 
-	const auto authStringStart = header.find_last_of(' ');
-	if (authStringStart == std::string::npos) {
-		return std::nullopt;
-	}
-
-	const auto authString = header.substr(authStringStart + 1);
+	const auto authString = Strings::trim(header.substr(schemeEnd + 1));
 	if (!authString.size()) {
 		return std::nullopt;
 	}
-- 
2.43.0


From faff3d0a35e4e2f20e865dd58956ec3563ee0df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 16/88] fix: basic credentials were cut at a colon in the
 password and refused with an empty one

---
 core/http/auth.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/http/auth.cpp b/core/http/auth.cpp
index aa62287..a5f0197 100644
--- a/core/http/auth.cpp
+++ b/core/http/auth.cpp
@@ -19,13 +19,14 @@ std::optional<BasicCredentials> Auth::parseBasicAuth(const std::string& header)
 	}
 
 	const auto authStringDecoded = Encoding::fromBase64(authString);
-	const auto authComponents = Strings::split(std::string(authStringDecoded.begin(), authStringDecoded.end()), ":");
-	if (authComponents.size() < 2) {
+	const auto authComponents = std::string(authStringDecoded.begin(), authStringDecoded.end());
+	const auto separator = authComponents.find(':');
+	if (separator == std::string::npos) {
 		return std::nullopt;
 	}
 
 	return BasicCredentials {
-		authComponents[0],
-		authComponents[1]
+		authComponents.substr(0, separator),
+		authComponents.substr(separator + 1)
 	};
 }
-- 
2.43.0


From 001471746fe84591e64e55ef602da23a1b003695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 17/88] fix: malformed basic credentials made the parser throw

---
 core/http/auth.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/http/auth.cpp b/core/http/auth.cpp
index a5f0197..ec09a0c 100644
--- a/core/http/auth.cpp
+++ b/core/http/auth.cpp
@@ -18,7 +18,13 @@ std::optional<BasicCredentials> Auth::parseBasicAuth(const std::string& header)
 		return std::nullopt;
 	}
 
-	const auto authStringDecoded = Encoding::fromBase64(authString);
+	std::vector<uint8_t> authStringDecoded;
+	try {
+		authStringDecoded = Encoding::fromBase64(authString);
+	} catch(...) {
+		return std::nullopt;
+	}
+
 	const auto authComponents = std::string(authStringDecoded.begin(), authStringDecoded.end());
 	const auto separator = authComponents.find(':');
 	if (separator == std::string::npos) {
-- 
2.43.0


From af01af3d2ab7b723d32685acfc2160182b0509d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 18/88] fix: JSON strings and keys were not escaped by the JSON
 rules

---
 core/json/stringify.cpp | 63 +++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/core/json/stringify.cpp b/core/json/stringify.cpp
index 3049991..7cdbf6c 100644
--- a/core/json/stringify.cpp
+++ b/core/json/stringify.cpp
@@ -7,12 +7,44 @@ using namespace Lambda;
 using namespace Lambda::JSON;
 
 static const std::map<char, std::string> stringEscapeTable = {
-	{ '\n', "\\\\n" },
-	{ '\r', "\\\\r" },
-	{ '\t', "\\\\t" },
-	{ '\"', "\\\"" }
+	{ '\n', "\\n" },
+	{ '\r', "\\r" },
+	{ '\t', "\\t" },
+	{ '\"', "\\\"" },
+	{ '\\', "\\\\" }
 };
 
+static std::string stringifyString(const std::string& textcontent) {
+
+	static const char hexdigits[] = "0123456789abcdef";
+
+	std::string temp;
+	temp.reserve(textcontent.size() + 2);
+	temp.push_back('\"');
+
+	for (auto symbol : textcontent) {
+
+		auto escaped = stringEscapeTable.find(symbol);
+		if (escaped != stringEscapeTable.end()) {
+			temp.append(escaped->second);
+			continue;
+		}
+
+		//	other control characters are not allowed inside of json strings
+		if (symbol >= 0 && symbol < ' ') {
+			temp.append("\\u00");
+			temp.push_back(hexdigits[symbol >> 4]);
+			temp.push_back(hexdigits[symbol & 0x0f]);
+			continue;
+		}
+
+		temp.push_back(symbol);
+	}
+
+	temp.push_back('\"');
+	return temp;
+}
+
 std::string JSON::stringify(const Property& data) {
 
 	switch (data.type()) {
@@ -26,25 +58,8 @@ std::string JSON::stringify(const Property& data) {
 		case JSTypes::Boolean:
 			return data.asBool() ? "true" : "false";
 
-		case JSTypes::String: {
-
-			auto textcontent = data.asString();
-			std::string temp;
-			temp.reserve(textcontent.size());
-
-			for (auto symbol : textcontent) {
-
-				auto escaped = stringEscapeTable.find(symbol);
-				if (escaped != stringEscapeTable.end()) {
-					temp.append(escaped->second);
-					continue;
-				}
-
-				temp.push_back(symbol);
-			}
-
-			return '\"' + temp + '\"';
-		}
+		case JSTypes::String:
+			return stringifyString(data.asString());
 
 		case JSTypes::Null:
 			return "null";
@@ -67,7 +82,7 @@ std::string JSON::stringify(const Property& data) {
 
 			for (const auto& entry : data.asMap()) {
 				if (temp.size()) temp.push_back(',');
-				temp.append('\"' + entry.first + "\":");
+				temp.append(stringifyString(entry.first) + ':');
 				temp.append(stringify(entry.second));
 			}
 
-- 
2.43.0


From fa7bdfb44ab2e5f7b721ab56e700daaf8b01dcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 19/88] fix: JSON string escape sequences were not decoded by
 the JSON rules

---
 core/json/parse.cpp | 94 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 82 insertions(+), 12 deletions(-)

diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index 52593b5..5346fc0 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -1,18 +1,91 @@
 #include "./json.hpp"
 #include "../../core/polyfill/polyfill.hpp"
 
-#include <array>
 #include <stdexcept>
 
 using namespace Lambda;
 using namespace Lambda::JSON;
 
-static const std::array<std::pair<std::string, std::string>, 4> stringUnescapeTable = {
-	std::make_pair("\\\\n", "\n"),
-	std::make_pair("\\\\r", "\r"),
-	std::make_pair("\\\\t", "\t"),
-	std::make_pair("\\\"", "\"")
-};
+static void appendCodepoint(std::string& dest, uint32_t code) {
+	if (code < 0x80) {
+		dest.push_back(static_cast<char>(code));
+	} else if (code < 0x800) {
+		dest.push_back(static_cast<char>(0xc0 | (code >> 6)));
+		dest.push_back(static_cast<char>(0x80 | (code & 0x3f)));
+	} else if (code < 0x10000) {
+		dest.push_back(static_cast<char>(0xe0 | (code >> 12)));
+		dest.push_back(static_cast<char>(0x80 | ((code >> 6) & 0x3f)));
+		dest.push_back(static_cast<char>(0x80 | (code & 0x3f)));
+	} else {
+		dest.push_back(static_cast<char>(0xf0 | (code >> 18)));
+		dest.push_back(static_cast<char>(0x80 | ((code >> 12) & 0x3f)));
+		dest.push_back(static_cast<char>(0x80 | ((code >> 6) & 0x3f)));
+		dest.push_back(static_cast<char>(0x80 | (code & 0x3f)));
+	}
+}
+
+//	reads the four digits of a \uXXXX sequence
+static uint32_t readHexCodeUnit(const std::string& text, size_t pos) {
+
+	if (pos + 4 > text.size()) throw std::runtime_error("Invalid JSON: incomplete unicode escape sequence");
+
+	uint32_t result = 0;
+	for (size_t i = pos; i < pos + 4; i++) {
+		const auto symbol = text[i];
+		if (symbol >= '0' && symbol <= '9') result = (result << 4) | (symbol - '0');
+		else if (symbol >= 'a' && symbol <= 'f') result = (result << 4) | (symbol - 'a' + 10);
+		else if (symbol >= 'A' && symbol <= 'F') result = (result << 4) | (symbol - 'A' + 10);
+		else throw std::runtime_error("Invalid JSON: invalid unicode escape sequence");
+	}
+
+	return result;
+}
+
+static std::string unescapeString(const std::string& text) {
+
+	std::string result;
+	result.reserve(text.size());
+
+	for (size_t i = 0; i < text.size(); i++) {
+
+		if (text[i] != '\\' || i + 1 >= text.size()) {
+			result.push_back(text[i]);
+			continue;
+		}
+
+		i++;
+
+		switch (text[i]) {
+
+			case 'n': result.push_back('\n'); break;
+			case 'r': result.push_back('\r'); break;
+			case 't': result.push_back('\t'); break;
+			case 'b': result.push_back('\b'); break;
+			case 'f': result.push_back('\f'); break;
+
+			case 'u': {
+
+				auto code = readHexCodeUnit(text, i + 1);
+				i += 4;
+
+				//	surrogate pairs
+				if (code >= 0xd800 && code < 0xdc00 && text.compare(i + 1, 2, "\\u") == 0) {
+					const auto low = readHexCodeUnit(text, i + 3);
+					if (low >= 0xdc00 && low < 0xe000) {
+						code = 0x10000 + ((code - 0xd800) << 10) + (low - 0xdc00);
+						i += 6;
+					}
+				}
+
+				appendCodepoint(result, code);
+			} break;
+
+			default: result.push_back(text[i]); break;
+		}
+	}
+
+	return result;
+}
 
 Property JSON::parse(const std::string& text) {
 
@@ -32,10 +105,7 @@ Property JSON::parse(const std::string& text) {
 			if (illegalQuotePos != std::string::npos && (illegalQuotePos == 0 || textcontent.at(illegalQuotePos - 1) != '\\'))
 				throw std::runtime_error("Invalid JSON: unescaped double quote");
 
-			for (const auto& symbol : stringUnescapeTable)
-				Strings::replaceAll(textcontent, symbol.first, symbol.second);
-
-			return Property(textcontent);
+			return Property(unescapeString(textcontent));
 
 		} else if (isdigit(objectText.at(0))) {
 			return objectText.find('.') == std::string::npos ? Property(std::stoi(objectText)) : Property(std::stold(objectText));
@@ -121,7 +191,7 @@ Property JSON::parse(const std::string& text) {
 
 			auto key = Strings::trim(entryTrimmed.substr(0, keyEnded));
 			auto value = Strings::trim(entryTrimmed.substr(keyEnded + 1));
-			auto useKey = key.starts_with('\"') ? key.substr(1, key.size() - 2) : key;
+			auto useKey = key.starts_with('\"') ? unescapeString(key.substr(1, key.size() - 2)) : key;
 
 			temp[useKey] = parse(value);
 		}
-- 
2.43.0


From b4e81a68f0c7ec92b6c03bf7d2d7147bc0584cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 20/88] fix: JSON parser took brackets, commas and quotes
 inside of strings for structure

---
 core/json/parse.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index 5346fc0..6500918 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -87,6 +87,17 @@ static std::string unescapeString(const std::string& text) {
 	return result;
 }
 
+//	finds the quote that ends the string started at the given position
+static size_t findStringEnd(const std::string& text, size_t start) {
+
+	for (size_t i = start + 1; i < text.size(); i++) {
+		if (text[i] == '\\') i++;
+		else if (text[i] == '\"') return i;
+	}
+
+	return text.size();
+}
+
 Property JSON::parse(const std::string& text) {
 
 	auto objectText = Strings::trim(text);
@@ -100,9 +111,9 @@ Property JSON::parse(const std::string& text) {
 
 			auto textcontent = objectText.substr(1, objectText.size() - 2);
 
-			auto illegalQuotePos = textcontent.find('\"');
+			auto illegalQuotePos = findStringEnd(objectText, 0) - 1;
 
-			if (illegalQuotePos != std::string::npos && (illegalQuotePos == 0 || textcontent.at(illegalQuotePos - 1) != '\\'))
+			if (illegalQuotePos < textcontent.size() && (illegalQuotePos == 0 || textcontent.at(illegalQuotePos - 1) != '\\'))
 				throw std::runtime_error("Invalid JSON: unescaped double quote");
 
 			return Property(unescapeString(textcontent));
@@ -121,7 +132,6 @@ Property JSON::parse(const std::string& text) {
 	//	split this shit into segments between commas
 	size_t ptnss_object = 0;
 	size_t ptnss_array = 0;
-	bool ptnss_string = 0;
 
 	size_t segmentStart = 1;
 
@@ -141,12 +151,12 @@ Property JSON::parse(const std::string& text) {
 				ptnss_array--;
 				break;
 			case '\"':
-				ptnss_string = !ptnss_string;
+				i = findStringEnd(objectText, i);
 				break;
 			default: break;
 		}
 
-		if (!ptnss_object && !ptnss_array && !ptnss_string && objectText[i] == ',') {
+		if (!ptnss_object && !ptnss_array && objectText[i] == ',') {
 			entries.push_back(objectText.substr(segmentStart, i - segmentStart));
 			segmentStart = i + 1;
 		}
@@ -176,12 +186,11 @@ Property JSON::parse(const std::string& text) {
 			if (!entryTrimmed.size()) throw std::runtime_error("Invalid JSON: trailing comma has been found");
 
 			auto keyEnded = std::string::npos;
-			bool insideString = false;
 
 			for (size_t i = 0; i < entryTrimmed.size(); i++) {
 				if (entryTrimmed[i] == '\"') {
-					insideString = !insideString;
-				} else if (!insideString && entryTrimmed[i] == ':') {
+					i = findStringEnd(entryTrimmed, i);
+				} else if (entryTrimmed[i] == ':') {
 					keyEnded = i;
 					break;
 				}
-- 
2.43.0


From 4b870db37bbedae1c1057a041bb2d390f516484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 21/88] fix: negative JSON numbers were parsed as undefined

---
 core/json/parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index 6500918..3ec24f1 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -118,7 +118,7 @@ Property JSON::parse(const std::string& text) {
 
 			return Property(unescapeString(textcontent));
 
-		} else if (isdigit(objectText.at(0))) {
+		} else if (isdigit(objectText.at(0)) || objectText.starts_with('-')) {
 			return objectText.find('.') == std::string::npos ? Property(std::stoi(objectText)) : Property(std::stold(objectText));
 		} else if ((objectText.starts_with('t') || objectText.starts_with('f')) && objectText.ends_with('e')) {
 			return Property(objectText == "true");
-- 
2.43.0


From 44795e591d690f8cacfbd0cb84eeebaf0e8501e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 22/88] fix: empty JSON arrays and objects could not be parsed

---
 core/json/parse.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index 3ec24f1..0476775 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -127,6 +127,13 @@ Property JSON::parse(const std::string& text) {
 		}
 	}
 
+	if (objectText.size() < 2 || !objectText.ends_with(isArray ? ']' : '}'))
+		throw std::runtime_error("Invalid JSON: closing bracket is missing");
+
+	//	empty array or object
+	if (!Strings::trim(objectText.substr(1, objectText.size() - 2)).size())
+		return isArray ? Property(Array()) : Property(Map());
+
 	std::vector<std::string> entries;
 
 	//	split this shit into segments between commas
-- 
2.43.0


From c2bd3d4b42b1ceb9257c8e202119ecdc3ccaa390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 23/88] fix: deeply nested JSON text overflowed the stack

---
 core/json/parse.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index 0476775..30b298d 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -98,7 +98,12 @@ static size_t findStringEnd(const std::string& text, size_t start) {
 	return text.size();
 }
 
-Property JSON::parse(const std::string& text) {
+//	every nested array or object takes some stack space
+static const size_t maxNestingDepth = 512;
+
+static Property parseValue(const std::string& text, size_t depth) {
+
+	if (depth > maxNestingDepth) throw std::runtime_error("Invalid JSON: too many nested values");
 
 	auto objectText = Strings::trim(text);
 	if (!objectText.size()) throw std::runtime_error("Invalid JSON: empty text");
@@ -178,7 +183,7 @@ Property JSON::parse(const std::string& text) {
 		for (const auto& entry : entries) {
 			auto entryTrimmed = Strings::trim(entry);
 			if (!entryTrimmed.size()) throw std::runtime_error("Invalid JSON: trailing comma has been found");
-			temp.push_back(parse(entryTrimmed));
+			temp.push_back(parseValue(entryTrimmed, depth + 1));
 		}
 
 		return Property(temp);
@@ -209,9 +214,13 @@ Property JSON::parse(const std::string& text) {
 			auto value = Strings::trim(entryTrimmed.substr(keyEnded + 1));
 			auto useKey = key.starts_with('\"') ? unescapeString(key.substr(1, key.size() - 2)) : key;
 
-			temp[useKey] = parse(value);
+			temp[useKey] = parseValue(value, depth + 1);
 		}
 
 		return Property(temp);
 	}
 }
+
+Property JSON::parse(const std::string& text) {
+	return parseValue(text, 0);
+}
-- 
2.43.0


From c4e19a5ebd2316a72fd2d530e45bc8340e392d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 24/88] fix: assigning a JSON value leaked the previous one

---
 core/json/property.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/json/property.cpp b/core/json/property.cpp
index ea9bcce..7377d68 100644
--- a/core/json/property.cpp
+++ b/core/json/property.cpp
@@ -1,6 +1,7 @@
 #include "./json.hpp"
 
 #include <stdexcept>
+#include <utility>
 
 using namespace Lambda;
 using namespace Lambda::JSON;
@@ -92,7 +93,17 @@ Property::Property(Property&& other) {
 }
 
 Property Property::operator=(const Property& other) {
-	this->clone(other);
+
+	Property copy(other);
+
+	std::swap(this->internalType, copy.internalType);
+	std::swap(this->internalDataFloat, copy.internalDataFloat);
+	std::swap(this->internalDataInt, copy.internalDataInt);
+	std::swap(this->internalDataBool, copy.internalDataBool);
+	std::swap(this->internalDataStr, copy.internalDataStr);
+	std::swap(this->internalDataArray, copy.internalDataArray);
+	std::swap(this->internalDataMap, copy.internalDataMap);
+
 	return *this;
 }
 
-- 
2.43.0


From 1da3b4c10c598b6d493b8e6eb77abd370a1f55ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 25/88] fix: template renderer skipped a placeholder that
 follows unrelated double braces

---
 core/html/renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/html/renderer.cpp b/core/html/renderer.cpp
index 5fe5613..e9989b2 100644
--- a/core/html/renderer.cpp
+++ b/core/html/renderer.cpp
@@ -21,7 +21,7 @@ std::string HTML::renderTemplate(const std::string& templateSource, const Templa
 
 		auto templateVar = getTemplateVariableFromSlice(result, templateOpen + 2, templateClose);
 		if (!templateVar.has_value()) {
-			searchStart = templateClose + 2;
+			searchStart = templateOpen + 1;
 			continue;
 		}
 
-- 
2.43.0


From 71b7ff77c0aaf2ad33ba7807d5ee4a02ae17ed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 26/88] fix: a pipelined request already received was not
 served until more bytes arrived

---
 core/http/transport_v1.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 28b5d39..17bfc40 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -42,7 +42,9 @@ bool TransportContextV1::awaitNext() {
 	}
 
 	static const std::string patternEndHeader = "\r\n\r\n";
-	auto headerEnded = this->m_readbuff.end();
+
+	//	a pipelined request may already be waiting in the buffer
+	auto headerEnded = std::search(this->m_readbuff.begin(), this->m_readbuff.end(), patternEndHeader.begin(), patternEndHeader.end());
 
 	while (this->m_conn.isOpen() && headerEnded == this->m_readbuff.end()) {
 
-- 
2.43.0


From d410a17c78d2d6f9143456e3f11f23bf5b688c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 27/88] fix: request size limit used an invalid iterator, could
 overflow and counted bytes of other requests

---
 core/http/transport_v1.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 17bfc40..f02553e 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -54,7 +54,7 @@ bool TransportContextV1::awaitNext() {
 		this->m_readbuff.insert(this->m_readbuff.end(), newBytes.begin(), newBytes.end());
 		headerEnded = std::search(this->m_readbuff.begin(), this->m_readbuff.end(), patternEndHeader.begin(), patternEndHeader.end());
 
-		if (this->m_readbuff.size() > this->m_topts.maxRequestSize) {
+		if (headerEnded == this->m_readbuff.end() && this->m_readbuff.size() > this->m_topts.maxRequestSize) {
 			throw ProtocolError("Request header too large", 413);
 		}
 	}
@@ -63,6 +63,11 @@ bool TransportContextV1::awaitNext() {
 		return false;
 	}
 
+	const size_t headerSize = std::distance(this->m_readbuff.begin(), headerEnded) + patternEndHeader.size();
+	if (headerSize > this->m_topts.maxRequestSize) {
+		throw ProtocolError("Request header too large", 413);
+	}
+
 	auto headerFields = Strings::split(std::string(this->m_readbuff.begin(), headerEnded), "\r\n");
 	this->m_readbuff.erase(this->m_readbuff.begin(), headerEnded + patternEndHeader.size());
 
@@ -182,9 +187,7 @@ bool TransportContextV1::awaitNext() {
 
 	if (bodySize) {
 
-		const auto totalRequestSize = std::distance(this->m_readbuff.begin(), headerEnded) + bodySize;
-
-		if (totalRequestSize > this->m_topts.maxRequestSize) {
+		if (bodySize > this->m_topts.maxRequestSize - headerSize) {
 			throw ProtocolError("Total request size is too large", 413);
 		}
 
-- 
2.43.0


From 49355b219c0f273747bf13c5cb3a5ddcc973d71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 28/88] fix: request bodies arriving in several pieces or
 together with the next request were not read

---
 core/http/transport_v1.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index f02553e..bb3d3a2 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -191,11 +191,10 @@ bool TransportContextV1::awaitNext() {
 			throw ProtocolError("Total request size is too large", 413);
 		}
 
-		auto bodyRemaining = bodySize - this->m_readbuff.size();
-		if (bodyRemaining) {
+		while (this->m_readbuff.size() < bodySize) {
 	
-			auto temp = this->m_conn.read(bodyRemaining);
-			if (temp.size() != bodyRemaining) {
+			auto temp = this->m_conn.isOpen() ? this->m_conn.read(bodySize - this->m_readbuff.size()) : std::vector<uint8_t>();
+			if (!temp.size()) {
 				throw NetworkError("Incomplete request body");
 			}
 
-- 
2.43.0


From 0f39696b477d53933638ab043021499cb06f3ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 29/88] fix: content length accepted signs, blanks and trailing
 garbage

---
 core/http/transport_v1.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index bb3d3a2..fc6c240 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -183,7 +183,20 @@ bool TransportContextV1::awaitNext() {
 	}
 
 	auto bodySizeHeader = next.headers.get("content-length");
-	size_t bodySize = bodySizeHeader.size() ? std::stoull(bodySizeHeader) : 0;
+	size_t bodySize = 0;
+
+	for (const auto digit : bodySizeHeader) {
+
+		if (digit < '0' || digit > '9') {
+			throw ProtocolError("Invalid content length", 400);
+		}
+
+		if (bodySize > (this->m_topts.maxRequestSize - (digit - '0')) / 10) {
+			throw ProtocolError("Total request size is too large", 413);
+		}
+
+		bodySize = bodySize * 10 + (digit - '0');
+	}
 
 	if (bodySize) {
 
-- 
2.43.0


From 774ef3f69c9b24eebe068fada2e8ba8ecc1bf3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 30/88] fix: connections were kept open after announcing to
 close them when connection reuse is disabled

---
 core/http/transport_v1.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index fc6c240..8b8dd8e 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -148,7 +148,11 @@ bool TransportContextV1::awaitNext() {
 		}
 	}
 
-	if (this->m_topts.reuseConnections) {
+	if (!this->m_topts.reuseConnections) {
+
+		this->m_keepalive = KeepAliveStatus::Close;
+
+	} else {
 
 		const auto connectionHeader = next.headers.get("connection");
 
-- 
2.43.0


From 5e52c5bcc0dd3dcc03f1dbf92e065ebde62f45d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 31/88] fix: connection header options were compared
 case-sensitively

---
 core/http/transport_v1.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 8b8dd8e..4c686da 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -154,12 +154,13 @@ bool TransportContextV1::awaitNext() {
 
 	} else {
 
-		const auto connectionHeader = next.headers.get("connection");
+		const auto connectionHeader = Strings::toLowerCase(next.headers.get("connection"));
 
 		switch (this->m_keepalive) {
 
 			case KeepAliveStatus::Unknown: {
-				this->m_keepalive = (!connectionHeader.size() || Strings::includes(connectionHeader, "keep-alive")) ?
+				const auto wantsKeepAlive = !connectionHeader.size() || Strings::includes(connectionHeader, "keep-alive");
+				this->m_keepalive = (wantsKeepAlive && !Strings::includes(connectionHeader, "close")) ?
 					KeepAliveStatus::KeepAlive : KeepAliveStatus::Close;
 			} break;
 
@@ -323,7 +324,7 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	//	set connection header to acknowledge keep-alive mode
 	const auto responseConnectionHeader = responseHeaders.get("connection");
 	if (responseConnectionHeader.size()) {
-		this->m_keepalive = Strings::includes(responseConnectionHeader, "close") ?
+		this->m_keepalive = Strings::includes(Strings::toLowerCase(responseConnectionHeader), "close") ?
 			KeepAliveStatus::Close : KeepAliveStatus::KeepAlive;
 	} else {
 		const auto isKeepAlive = this->m_keepalive == KeepAliveStatus::KeepAlive;
-- 
2.43.0


From c617880888325a39026abc7b1ebe3d96a164079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 32/88] fix: responses were compressed by what an earlier
 request on the connection accepted

---
 core/http/transport_v1.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 4c686da..80b54bd 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -173,6 +173,8 @@ bool TransportContextV1::awaitNext() {
 		}
 	}
 
+	this->m_compress = ContentEncodings::None;
+
 	auto acceptEncodingHeader = next.headers.get("accept-encoding");
 	if (this->m_topts.useCompression && acceptEncodingHeader.size()) {
 
-- 
2.43.0


From 294463cf14cc90de10e084f5af29fd8b2dc987f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 33/88] fix: chunked request bodies were taken for further
 requests

---
 core/http/transport_v1.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 80b54bd..7cd780f 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -189,6 +189,11 @@ bool TransportContextV1::awaitNext() {
 		}
 	}
 
+	//	such a body has no content length, and would be taken for the next request
+	if (next.headers.has("transfer-encoding")) {
+		throw ProtocolError("Request transfer encodings are not supported", 501);
+	}
+
 	auto bodySizeHeader = next.headers.get("content-length");
 	size_t bodySize = 0;
 
-- 
2.43.0


From 6e13263318d6b0f8132968ef6d580a7dd05d8a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 34/88] fix: requests with conflicting content lengths were
 accepted

---
 core/http/transport_v1.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 7cd780f..f378677 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -197,6 +197,12 @@ bool TransportContextV1::awaitNext() {
 	auto bodySizeHeader = next.headers.get("content-length");
 	size_t bodySize = 0;
 
+	for (const auto& value : next.headers.getAll("content-length")) {
+		if (value != bodySizeHeader) {
+			throw ProtocolError("Conflicting content lengths", 400);
+		}
+	}
+
 	for (const auto digit : bodySizeHeader) {
 
 		if (digit < '0' || digit > '9') {
-- 
2.43.0


From 057e1631e9bc243f35a977c738adb93d301ee01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 35/88] fix: requests with an empty target were delivered

---
 core/http/transport_v1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index f378677..2bf3f26 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -72,7 +72,7 @@ bool TransportContextV1::awaitNext() {
 	this->m_readbuff.erase(this->m_readbuff.begin(), headerEnded + patternEndHeader.size());
 
 	auto headerStartLine = Strings::split(headerFields.at(0), ' ');
-	if (headerStartLine.size() < 2) {
+	if (headerStartLine.size() < 2 || !headerStartLine.at(1).size()) {
 		throw ProtocolError("Invalid HTTP request");
 	}
 
-- 
2.43.0


From ec17ecfda8d489095b3f93af7069c4fffb054332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 36/88] fix: assigning a connection leaked the socket it held
 before

---
 core/network/tcp/connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 16e45de..8da7b6e 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -28,6 +28,11 @@ Connection::Connection(
 ) : hSocket(handleInit), m_info(infoInit) {}
 
 Connection& Connection::operator= (Connection&& other) noexcept {
+	if (this == &other) return *this;
+
+	//	the socket held before would never be closed otherwise
+	this->end();
+
 	this->hSocket = other.hSocket;
 	this->m_info = other.m_info;
 	other.hSocket = INVALID_SOCKET;
-- 
2.43.0


From 3e50c67ffd27c1ae7bbcc93f2a14f447a3c3c4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 37/88] fix: connection timeouts lost their milliseconds

---
 core/network/tcp/connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 8da7b6e..d897541 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -145,7 +145,7 @@ void Connection::setTimeouts(uint32_t valueMs, SetTimeoutsDirection direction) {
 	#else
 		timeval timeoutValue;
 		timeoutValue.tv_sec = valueMs / 1000;
-		timeoutValue.tv_usec = 0;
+		timeoutValue.tv_usec = (valueMs % 1000) * 1000;
 	#endif
 
 	const auto timeouValuePtr = reinterpret_cast<const char*>(&timeoutValue);
-- 
2.43.0


From e706966c1720876c22f4305a73e7c08f966eaf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 38/88] fix: writing to a connection closed by the peer killed
 the process

---
 core/network/sysnetw.hpp        | 1 +
 core/network/tcp/connection.cpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/network/sysnetw.hpp b/core/network/sysnetw.hpp
index 00e1a83..83a8cd8 100644
--- a/core/network/sysnetw.hpp
+++ b/core/network/sysnetw.hpp
@@ -17,6 +17,7 @@
 		#include <stdexcept>
 
 		#define GetOSErrorCode() (static_cast<int32_t>(GetLastError()))
+		#define MSG_NOSIGNAL	(0)
 
 		inline bool wsaWakeUp() {
 
diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index d897541..1f9c529 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -79,7 +79,7 @@ void Connection::write(const std::vector<uint8_t>& data) {
 
 	std::lock_guard<std::mutex> lock(this->m_write_mtx);
 
-	const auto bytesSent = send(this->hSocket, (const char*)data.data(), data.size(), 0);
+	const auto bytesSent = send(this->hSocket, (const char*)data.data(), data.size(), MSG_NOSIGNAL);
 
 	if (static_cast<size_t>(bytesSent) != data.size())
 		throw NetworkError("Network error while writing data");
-- 
2.43.0


From 6bd29d241522f4470b5dce563192c67bde583551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 39/88] fix: a write that the system accepted only in part was
 reported as failed

---
 core/network/tcp/connection.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 1f9c529..699b278 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -79,10 +79,17 @@ void Connection::write(const std::vector<uint8_t>& data) {
 
 	std::lock_guard<std::mutex> lock(this->m_write_mtx);
 
-	const auto bytesSent = send(this->hSocket, (const char*)data.data(), data.size(), MSG_NOSIGNAL);
+	size_t bytesDone = 0;
 
-	if (static_cast<size_t>(bytesSent) != data.size())
-		throw NetworkError("Network error while writing data");
+	while (bytesDone < data.size()) {
+
+		const auto bytesSent = send(this->hSocket, (const char*)data.data() + bytesDone, data.size() - bytesDone, MSG_NOSIGNAL);
+
+		if (bytesSent <= 0)
+			throw NetworkError("Network error while writing data");
+
+		bytesDone += bytesSent;
+	}
 }
 
 std::vector<uint8_t> Connection::read() {
-- 
2.43.0


From 5736604c12dd188c2533cc16522c1dbed9568ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 40/88] fix: assigning a listening socket leaked the one it
 held before

---
 core/network/tcp/listener.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/network/tcp/listener.cpp b/core/network/tcp/listener.cpp
index 03cd221..a6af39e 100644
--- a/core/network/tcp/listener.cpp
+++ b/core/network/tcp/listener.cpp
@@ -60,6 +60,10 @@ ListenSocket::ListenSocket(ListenSocket&& other) noexcept {
 }
 
 ListenSocket& ListenSocket::operator= (ListenSocket&& other) noexcept {
+	if (this == &other) return *this;
+
+	this->stop();
+
 	this->hSocket = other.hSocket;
 	this->config = other.config;
 	other.hSocket = INVALID_SOCKET;
-- 
2.43.0


From 83191a0555123ca36e01c5eb7418cc698c8999b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 41/88] fix: no response was sent when a handler recovered from
 a refused protocol switch

---
 core/server/worker.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/core/server/worker.cpp b/core/server/worker.cpp
index 17aad3d..6ec0b10 100644
--- a/core/server/worker.cpp
+++ b/core/server/worker.cpp
@@ -100,15 +100,27 @@ void Server::connectionWorker(
 			};
 
 			const std::function<SSE::Writer()> upgradeCallbackSSE = [&]() {
+				const auto previousMode = handlerMode;
 				handlerMode = HandlerMode::SSE;
 				logConnectionUpgrade("SSE stream");
-				return SSE::Writer({ workerctx, transport, next });
+				try {
+					return SSE::Writer({ workerctx, transport, next });
+				} catch (const UpgradeError&) {
+					handlerMode = previousMode;
+					throw;
+				}
 			};
 
 			const std::function<WebsocketContext()> upgradeCallbackWS = [&]() {
+				const auto previousMode = handlerMode;
 				handlerMode = HandlerMode::WS;
 				logConnectionUpgrade("Websocket");
-				return WebsocketContext({ workerctx, transport, next });
+				try {
+					return WebsocketContext({ workerctx, transport, next });
+				} catch (const UpgradeError&) {
+					handlerMode = previousMode;
+					throw;
+				}
 			};
 
 			const RequestContext requestCTX = {
@@ -139,9 +151,7 @@ void Server::connectionWorker(
 				return Pages::renderErrorPage(500, error.what(), config.errorResponseType);
 			};
 
-			const auto handleUpgradeError = [&](const UpgradeError& error) -> HTTP::Response {
-
-				handlerMode = HandlerMode::HTTP;
+			const auto handleUpgradeError = [&](const UpgradeError& error) -> FunctionResponse {
 
 				if (config.loglevel.requests) {
 					syncout.error({
@@ -151,6 +161,10 @@ void Server::connectionWorker(
 					});
 				}
 
+				if (handlerMode != HandlerMode::HTTP) {
+					return std::nullopt;
+				}
+
 				auto response = Pages::renderErrorPage(error.status(), error.what(), config.errorResponseType);
 				response.headers.set("connection", "close");
 
@@ -160,7 +174,6 @@ void Server::connectionWorker(
 			try {
 				functionResponse = handlerCallback(request, requestCTX).response;
 			} catch (const UpgradeError& err) {
-				handlerMode = HandlerMode::HTTP;
 				functionResponse = handleUpgradeError(err);
 			} catch (const std::exception& err) {
 				functionResponse = handleFunctionError(err);
-- 
2.43.0


From 3230375022c01960d757666f1be224f6ae6d388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 42/88] fix: a refused request announced keep-alive on a
 connection that is then closed

---
 core/server/worker.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/server/worker.cpp b/core/server/worker.cpp
index 6ec0b10..012d7a6 100644
--- a/core/server/worker.cpp
+++ b/core/server/worker.cpp
@@ -43,12 +43,14 @@ void Server::connectionWorker(
 			return;
 		}
 
-		const auto errorResponse = Pages::renderErrorPage(
+		auto errorResponse = Pages::renderErrorPage(
 			error.respondStatus.value(),
 			error.message(),
 			config.errorResponseType
 		);
 
+		errorResponse.headers.set("connection", "close");
+
 		try {
 
 			//	Request ID is generated here.
-- 
2.43.0


From 9b5e8add343f59bc809006dbe5b7b359011877ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 43/88] fix: 64 bit websocket frame lengths were shifted as int

---
 core/websocket/transport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index f65bfc2..f84629a 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -47,7 +47,7 @@ FrameHeader Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
 		header.size += 8;
 		header.payloadSize = 0;
 		for (int i = 0; i < 8; i++) {
-			header.payloadSize |= (buffer.at(2 + i) << ((7 - i) * 8));
+			header.payloadSize |= (static_cast<size_t>(buffer.at(2 + i)) << ((7 - i) * 8));
 		}
 	}
 
-- 
2.43.0


From effbfddb67afd0d1f56cbaa8e59b81a9ee03ffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 44/88] fix: final websocket frames were marked as partial and
 the others were not

---
 core/websocket/transport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index f84629a..04359bd 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -258,7 +258,7 @@ void WebsocketContext::asyncWorker() {
 				this->m_queue.push({
 					payloadBuff,
 					isBinary,
-					frameHeader.finbit == FrameControlBits::BitFinal
+					frameHeader.finbit != FrameControlBits::BitFinal
 				});
 			}
 		}
-- 
2.43.0


From cf3b5d92f0706fe7744fd44070f4ff864dfd469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 45/88] fix: fragments of a websocket message were unmasked
 with the mask of the first one

---
 core/websocket/transport.cpp | 5 +----
 core/websocket/transport.hpp | 1 -
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index 04359bd..d0a8d77 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -190,7 +190,7 @@ void WebsocketContext::asyncWorker() {
 			payloadBuff.insert(payloadBuff.end(), payloadChunk.begin(), payloadChunk.end());
 		}
 
-		if (!(frameHeader.mask.has_value() || multipartCtx.has_value())) {
+		if (!frameHeader.mask.has_value()) {
 			this->close(CloseReason::ProtocolError);
 			throw std::runtime_error("received unmasked data from the client");
 		}
@@ -200,12 +200,9 @@ void WebsocketContext::asyncWorker() {
 			if (!multipartCtx.has_value()) {
 
 				multipartCtx = MultipartMessageContext({
-					frameHeader.mask.value(),
 					frameHeader.opcode == OpCode::Binary
 				});
 
-			} else {
-				frameHeader.mask = multipartCtx.value().mask;
 			}
 		}
 
diff --git a/core/websocket/transport.hpp b/core/websocket/transport.hpp
index f9e300f..27dcac7 100644
--- a/core/websocket/transport.hpp
+++ b/core/websocket/transport.hpp
@@ -36,7 +36,6 @@ namespace Lambda::Websocket::Transport {
 	};
 
 	struct MultipartMessageContext {
-		std::array<uint8_t, FrameHeader::mask_size> mask;
 		bool binary = false;
 	};
 
-- 
2.43.0


From 80b6bc8ebf38402115c267c5e1be1e3b07afd093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 46/88] fix: control frames between the fragments of a
 websocket message ended it, stray continuations read an empty optional

---
 core/websocket/transport.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index d0a8d77..a17e0df 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -195,7 +195,17 @@ void WebsocketContext::asyncWorker() {
 			throw std::runtime_error("received unmasked data from the client");
 		}
 
-		if (frameHeader.finbit != FrameControlBits::BitFinal) {
+		//	control frames may come between the fragments of a message
+		const auto isDataFrame = frameHeader.opcode == OpCode::Text ||
+			frameHeader.opcode == OpCode::Binary ||
+			frameHeader.opcode == OpCode::Continue;
+
+		if (frameHeader.opcode == OpCode::Continue && !multipartCtx.has_value()) {
+			this->close(CloseReason::ProtocolError);
+			throw std::runtime_error("received a continuation of no message");
+		}
+
+		if (isDataFrame && frameHeader.finbit != FrameControlBits::BitFinal) {
 
 			if (!multipartCtx.has_value()) {
 
@@ -260,7 +270,7 @@ void WebsocketContext::asyncWorker() {
 			}
 		}
 
-		if (frameHeader.finbit == FrameControlBits::BitFinal && multipartCtx.has_value()) {
+		if (isDataFrame && frameHeader.finbit == FrameControlBits::BitFinal && multipartCtx.has_value()) {
 			multipartCtx = std::nullopt;
 		}
 
-- 
2.43.0


From fc2c0c85f21392eb2163e910683a97212647c4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 47/88] fix: websocket frames split over or sharing network
 chunks were read out of bounds, refused or delayed

---
 core/websocket/transport.cpp | 50 ++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index a17e0df..7788fb9 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -31,6 +31,13 @@ void WebsocketContext::sendMessage(const Websocket::Message& msg) {
 	this->m_transport.writeRaw(writeBuff);
 }
 
+static size_t frameHeaderSize(const std::vector<uint8_t>& buffer) {
+	const auto sizeCode = buffer.at(1) & 0x7F;
+	return FrameHeader::min_size +
+		(sizeCode == 126 ? 2 : (sizeCode == 127 ? 8 : 0)) +
+		((buffer.at(1) & 0x80) ? FrameHeader::mask_size : 0);
+}
+
 FrameHeader Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
 
 	FrameHeader header {
@@ -116,6 +123,7 @@ void WebsocketContext::asyncWorker() {
 
 	std::vector<uint8_t> downloadBuff;
 	std::optional<MultipartMessageContext> multipartCtx;
+	bool frameComplete = true;
 
 	auto lastPing = std::chrono::steady_clock::now();
 	auto lastPingResponse = std::chrono::steady_clock::now();
@@ -143,15 +151,17 @@ void WebsocketContext::asyncWorker() {
 			lastPing = std::chrono::steady_clock::now();
 		}
 
-		const auto nextChunk = this->m_transport.readRaw(wsReadChunk);
-		if (!nextChunk.size()) continue;
+		//	a chunk may hold several frames, and a frame may take several chunks
+		const auto frameAvailable = downloadBuff.size() >= FrameHeader::min_size &&
+			downloadBuff.size() >= frameHeaderSize(downloadBuff);
 
-		downloadBuff.insert(downloadBuff.end(), nextChunk.begin(), nextChunk.end());
-		if (downloadBuff.size() < FrameHeader::min_size) continue;
+		if (!frameAvailable || !frameComplete) {
 
-		if (downloadBuff.size() > this->m_topts.maxRequestSize) {
-			this->close(CloseReason::MessageTooBig);
-			throw std::runtime_error("Expected frame size too large");
+			const auto nextChunk = this->m_transport.readRaw(wsReadChunk);
+			if (!nextChunk.size()) continue;
+
+			downloadBuff.insert(downloadBuff.end(), nextChunk.begin(), nextChunk.end());
+			if (downloadBuff.size() < FrameHeader::min_size || downloadBuff.size() < frameHeaderSize(downloadBuff)) continue;
 		}
 
 		auto frameHeader = parseFrameHeader(downloadBuff);
@@ -169,32 +179,22 @@ void WebsocketContext::asyncWorker() {
 			throw std::runtime_error("received an invalid opcode (" + std::to_string(opcodeInt) + ")");
 		}
 
-		const auto frameSize = frameHeader.size + frameHeader.payloadSize;
-		auto payloadBuff = std::vector<uint8_t>(downloadBuff.begin() + frameHeader.size, downloadBuff.begin() + frameSize);
-
-		if (frameSize > this->m_topts.maxRequestSize) {
+		if (frameHeader.payloadSize > this->m_topts.maxRequestSize || frameHeader.size + frameHeader.payloadSize > this->m_topts.maxRequestSize) {
 			this->close(CloseReason::MessageTooBig);
 			throw std::runtime_error("frame size too large");
 		}
 
-		if (frameHeader.payloadSize + frameHeader.payloadSize < downloadBuff.size()) {
-
-			auto expectedSize = frameHeader.payloadSize - payloadBuff.size();
-			auto payloadChunk = this->m_transport.readRaw(expectedSize);
-
-			if (payloadChunk.size() < expectedSize) {
-				this->close(CloseReason::ProtocolError);
-				throw std::runtime_error("failed to read websocket frame: not enough data");
-			}
-
-			payloadBuff.insert(payloadBuff.end(), payloadChunk.begin(), payloadChunk.end());
-		}
-
 		if (!frameHeader.mask.has_value()) {
 			this->close(CloseReason::ProtocolError);
 			throw std::runtime_error("received unmasked data from the client");
 		}
 
+		const auto frameSize = frameHeader.size + frameHeader.payloadSize;
+		frameComplete = downloadBuff.size() >= frameSize;
+		if (!frameComplete) continue;
+
+		auto payloadBuff = std::vector<uint8_t>(downloadBuff.begin() + frameHeader.size, downloadBuff.begin() + frameSize);
+
 		//	control frames may come between the fragments of a message
 		const auto isDataFrame = frameHeader.opcode == OpCode::Text ||
 			frameHeader.opcode == OpCode::Binary ||
@@ -274,6 +274,6 @@ void WebsocketContext::asyncWorker() {
 			multipartCtx = std::nullopt;
 		}
 
-		downloadBuff.erase(downloadBuff.begin(), downloadBuff.begin() + frameHeader.size + frameHeader.payloadSize);
+		downloadBuff.erase(downloadBuff.begin(), downloadBuff.begin() + frameSize);
 	}
 }
-- 
2.43.0


From 4fb1d8830ee158b249c9656fbd136597ce5920a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 48/88] fix: websocket frames with reserved bits set were taken
 for partial ones

---
 core/websocket/transport.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index 7788fb9..a94ec03 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -41,7 +41,7 @@ static size_t frameHeaderSize(const std::vector<uint8_t>& buffer) {
 FrameHeader Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
 
 	FrameHeader header {
-		static_cast<FrameControlBits>(buffer.at(0) & 0xF0),
+		static_cast<FrameControlBits>(buffer.at(0) & 0x80),
 		static_cast<OpCode>(buffer.at(0) & 0x0F),
 		static_cast<size_t>(2),
 		static_cast<size_t>(buffer.at(1) & 0x7F)
@@ -166,6 +166,12 @@ void WebsocketContext::asyncWorker() {
 
 		auto frameHeader = parseFrameHeader(downloadBuff);
 
+		//	no extensions are ever negotiated
+		if (downloadBuff.at(0) & 0x70) {
+			this->close(CloseReason::ProtocolError);
+			throw std::runtime_error("received a frame with reserved bits set");
+		}
+
 		bool opcodeValid = false;
 		for (const auto& item : supportedWsOpcodes) {
 			if (frameHeader.opcode != item) continue;
-- 
2.43.0


From ac37361631f03617d2ba9af80e845f554d6fd347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 49/88] fix: websocket frames of two threads could be mixed on
 the wire, sent after a close frame, or closed twice

---
 core/websocket/transport.cpp | 28 +++++++++++++++++++---------
 core/websocket/websocket.cpp | 17 ++++++++++++++---
 core/websocket/websocket.hpp |  5 ++++-
 3 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index a94ec03..5913d70 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -27,8 +27,19 @@ void WebsocketContext::sendMessage(const Websocket::Message& msg) {
 		throw Lambda::Error("Cannot send websocket message: connection was closed");
 	}
 
-	auto writeBuff = serializeMessage(msg);
-	this->m_transport.writeRaw(writeBuff);
+	this->sendFrame(serializeMessage(msg));
+}
+
+void WebsocketContext::sendFrame(const std::vector<uint8_t>& frame) {
+
+	//	frames are written whole, and never after a close frame
+	std::lock_guard<std::mutex> lock(this->m_write_mtx);
+
+	if (this->m_stopped) {
+		throw Lambda::Error("Cannot send websocket frame: connection was closed");
+	}
+
+	this->m_transport.writeRaw(frame);
 }
 
 static size_t frameHeaderSize(const std::vector<uint8_t>& buffer) {
@@ -138,15 +149,15 @@ void WebsocketContext::asyncWorker() {
 
 		} else if ((std::chrono::steady_clock::now() - lastPing) > std::chrono::milliseconds(wsActTimeout)) {
 
-			auto pingHeader = serializeFrameHeader({
+			auto pingFrame = serializeFrameHeader({
 				FrameControlBits::BitFinal,
 				OpCode::Ping,
 				static_cast<size_t>(0),
 				wsPingString.size()
 			});
 
-			this->m_transport.writeRaw(pingHeader);
-			this->m_transport.writeRaw(std::vector<uint8_t>(wsPingString.begin(), wsPingString.end()));
+			pingFrame.insert(pingFrame.end(), wsPingString.begin(), wsPingString.end());
+			this->sendFrame(pingFrame);
 
 			lastPing = std::chrono::steady_clock::now();
 		}
@@ -231,21 +242,20 @@ void WebsocketContext::asyncWorker() {
 		switch (frameHeader.opcode) {
 
 			case OpCode::Close: {
-				this->m_stopped = true;
 				this->close(CloseReason::Normal);
 			} break;
 
 			case OpCode::Ping: {
 
-				const auto pongHeader = serializeFrameHeader({
+				auto pongFrame = serializeFrameHeader({
 					FrameControlBits::BitFinal,
 					OpCode::Pong,
 					static_cast<size_t>(0),
 					frameHeader.payloadSize
 				});
 
-				this->m_transport.writeRaw(pongHeader);
-				this->m_transport.writeRaw(payloadBuff);
+				pongFrame.insert(pongFrame.end(), payloadBuff.begin(), payloadBuff.end());
+				this->sendFrame(pongFrame);
 
 			} break;
 
diff --git a/core/websocket/websocket.cpp b/core/websocket/websocket.cpp
index c110519..d82d68d 100644
--- a/core/websocket/websocket.cpp
+++ b/core/websocket/websocket.cpp
@@ -80,8 +80,6 @@ WebsocketContext::~WebsocketContext() {
 
 void WebsocketContext::close(Websocket::CloseReason reason) {
 
-	this->m_stopped = true;
-
 	const auto closeReasonCode = Bits::netwnormx(static_cast<std::underlying_type_t<CloseReason>>(reason));
 
 	auto closeMessageBuff = serializeFrameHeader({
@@ -96,7 +94,20 @@ void WebsocketContext::close(Websocket::CloseReason reason) {
 
 	closeMessageBuff.insert(closeMessageBuff.end(), closeReasonBuff.begin(), closeReasonBuff.end());	
 
-	this->m_transport.writeRaw(closeMessageBuff);
+	std::lock_guard<std::mutex> lock(this->m_write_mtx);
+
+	//	only the first one gets to say why
+	if (this->m_stopped.exchange(true)) {
+		return;
+	}
+
+	try {
+		this->m_transport.writeRaw(closeMessageBuff);
+	} catch (...) {
+		this->m_transport.close();
+		throw;
+	}
+
 	this->m_transport.close();
 }
 
diff --git a/core/websocket/websocket.hpp b/core/websocket/websocket.hpp
index 28f2439..1f9f197 100644
--- a/core/websocket/websocket.hpp
+++ b/core/websocket/websocket.hpp
@@ -4,6 +4,7 @@
 #include "../http/transport.hpp"
 #include "../server/worker.hpp"
 
+#include <atomic>
 #include <cstdint>
 #include <string>
 #include <vector>
@@ -58,8 +59,10 @@ namespace Lambda::Websocket {
 			std::future<void> m_reader;
 			std::queue<Websocket::Message> m_queue;
 			std::mutex m_read_mtx;
-			bool m_stopped = false;
+			std::mutex m_write_mtx;
+			std::atomic<bool> m_stopped = false;
 			void asyncWorker();
+			void sendFrame(const std::vector<uint8_t>& frame);
 
 		public:
 			WebsocketContext(WebsocketInit init);
-- 
2.43.0


From 3d8983c59d38753f859a4eab66e77d3f55baf997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 50/88] fix: destroying a websocket whose client is gone
 terminated the process

---
 core/websocket/websocket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/websocket/websocket.cpp b/core/websocket/websocket.cpp
index d82d68d..9f524e6 100644
--- a/core/websocket/websocket.cpp
+++ b/core/websocket/websocket.cpp
@@ -67,7 +67,8 @@ WebsocketContext::WebsocketContext(WebsocketInit init) :
 WebsocketContext::~WebsocketContext() {
 
 	if (!this->m_stopped && this->m_transport.isConnected()) {
-		this->close(CloseReason::GoingAway);
+		try { this->close(CloseReason::GoingAway); }
+			catch (...) {}
 	}
 
 	this->m_stopped = true;
-- 
2.43.0


From f358c996405c4c9b6542b00a2d2a644e54c66713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 51/88] fix: the websocket message queue was read while being
 written to

---
 core/websocket/websocket.cpp | 11 ++++++-----
 core/websocket/websocket.hpp |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/core/websocket/websocket.cpp b/core/websocket/websocket.cpp
index 9f524e6..dcd5d78 100644
--- a/core/websocket/websocket.cpp
+++ b/core/websocket/websocket.cpp
@@ -113,17 +113,18 @@ void WebsocketContext::close(Websocket::CloseReason reason) {
 }
 
 bool WebsocketContext::hasMessage() const noexcept {
+	std::lock_guard<std::mutex> lock(this->m_read_mtx);
 	return this->m_queue.size() > 0;
 }
 
 Message WebsocketContext::nextMessage() {
 
+	std::lock_guard<std::mutex>lock(this->m_read_mtx);
+
 	if (!this->m_queue.size()) {
 		throw std::runtime_error("Message queue is empty");
 	}
 
-	std::lock_guard<std::mutex>lock(this->m_read_mtx);
-
 	Message temp = this->m_queue.front();
 	this->m_queue.pop();
 
@@ -133,11 +134,11 @@ Message WebsocketContext::nextMessage() {
 bool WebsocketContext::awaitMessage() {
 
 	if (!this->m_reader.valid() || this->m_worker.shutdownFlag) {
-		return this->m_queue.size();
+		return this->hasMessage();
 	}
 
 	auto readerDone = false;
-	while (!readerDone && !this->m_queue.size() && !this->m_worker.shutdownFlag) {
+	while (!readerDone && !this->hasMessage() && !this->m_worker.shutdownFlag) {
 		readerDone = this->m_reader.wait_for(std::chrono::milliseconds(1)) == std::future_status::ready;
 	}
 
@@ -145,7 +146,7 @@ bool WebsocketContext::awaitMessage() {
 		this->m_reader.get();
 	}
 
-	return this->m_queue.size();
+	return this->hasMessage();
 }
 
 
diff --git a/core/websocket/websocket.hpp b/core/websocket/websocket.hpp
index 1f9f197..79517fa 100644
--- a/core/websocket/websocket.hpp
+++ b/core/websocket/websocket.hpp
@@ -58,7 +58,7 @@ namespace Lambda::Websocket {
 
 			std::future<void> m_reader;
 			std::queue<Websocket::Message> m_queue;
-			std::mutex m_read_mtx;
+			mutable std::mutex m_read_mtx;
 			std::mutex m_write_mtx;
 			std::atomic<bool> m_stopped = false;
 			void asyncWorker();
-- 
2.43.0


From ae6dc258d093036ac5de6d8181c4c8e823fee056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 52/88] fix: websocket messages received just before an error
 were lost

---
 core/websocket/websocket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/websocket/websocket.cpp b/core/websocket/websocket.cpp
index dcd5d78..29ef856 100644
--- a/core/websocket/websocket.cpp
+++ b/core/websocket/websocket.cpp
@@ -142,7 +142,8 @@ bool WebsocketContext::awaitMessage() {
 		readerDone = this->m_reader.wait_for(std::chrono::milliseconds(1)) == std::future_status::ready;
 	}
 
-	if (readerDone) {
+	//	messages received before an error are delivered first
+	if (readerDone && !this->hasMessage()) {
 		this->m_reader.get();
 	}
 
-- 
2.43.0


From d91d4158a239e4653f7565f936ca82567f506c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 53/88] fix: websocket handshake answers to clients that accept
 compressed content carried a compressed body

---
 core/websocket/websocket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/websocket/websocket.cpp b/core/websocket/websocket.cpp
index 29ef856..63506f4 100644
--- a/core/websocket/websocket.cpp
+++ b/core/websocket/websocket.cpp
@@ -49,6 +49,10 @@ WebsocketContext::WebsocketContext(WebsocketInit init) :
 	const auto combinedKey = headerWsKey + wsMagicString;
 	const auto keyHash = Crypto::SHA1().update(combinedKey).digest();
 
+	//	anything sent after the headers would be taken for a frame
+	this->m_transport.flags.autocompress = false;
+	this->m_transport.flags.forceContentLength = false;
+
 	auto handshakeReponse = HTTP::Response(101, {
 		{ "Upgrade", "websocket" },
 		{ "Connection", "Upgrade" },
-- 
2.43.0


From 8a4cb8d674966bd5257bef58826e2c45cedbd4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 54/88] fix: line breaks in the data of a server-sent event
 ended it

---
 core/sse/writer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/sse/writer.cpp b/core/sse/writer.cpp
index fa8033f..ae49f39 100644
--- a/core/sse/writer.cpp
+++ b/core/sse/writer.cpp
@@ -1,6 +1,8 @@
 #include "./sse.hpp"
 #include "../polyfill/polyfill.hpp"
 
+#include <algorithm>
+
 using namespace Lambda;
 using namespace Lambda::Network;
 using namespace Lambda::SSE;
@@ -44,7 +46,12 @@ void Writer::push(const EventMessage& event) {
 		messageFields.push_back({ "id", event.id.value() });
 	}
 
-	messageFields.push_back({ "data", event.data });
+	//	a line break within the data would end the field
+	for (size_t lineStart = 0; lineStart <= event.data.size();) {
+		const auto lineEnd = std::min(event.data.find_first_of("\r\n", lineStart), event.data.size());
+		messageFields.push_back({ "data", event.data.substr(lineStart, lineEnd - lineStart) });
+		lineStart = lineEnd + (event.data.compare(lineEnd, 2, "\r\n") == 0 ? 2 : 1);
+	}
 
 	if (event.retry.has_value()) {
 		messageFields.push_back({ "retry", std::to_string(event.retry.value()) });
-- 
2.43.0


From a1e87f7e816c8c95ac5870dea8b240c27dde7146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 55/88] fix: ending a connection from two threads could close
 its socket twice

---
 core/network/tcp/connection.cpp | 12 ++++--------
 core/network/tcp/connection.hpp |  3 ++-
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 699b278..382757f 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -33,16 +33,14 @@ Connection& Connection::operator= (Connection&& other) noexcept {
 	//	the socket held before would never be closed otherwise
 	this->end();
 
-	this->hSocket = other.hSocket;
+	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->m_info = other.m_info;
-	other.hSocket = INVALID_SOCKET;
 	return *this;
 }
 
 Connection::Connection(Connection&& other) noexcept {
-	this->hSocket = other.hSocket;
+	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->m_info = other.m_info;
-	other.hSocket = INVALID_SOCKET;
 }
 
 Connection::~Connection() {
@@ -53,12 +51,10 @@ Connection::~Connection() {
 
 void Connection::end() noexcept {
 
-	if (this->hSocket == INVALID_SOCKET) return;
-
 	//	swapping handle to a temp variable so that
 	//	no race condition can occur further down the chain
-	const auto tempHandle = this->hSocket;
-	this->hSocket = INVALID_SOCKET;
+	const auto tempHandle = this->hSocket.exchange(INVALID_SOCKET);
+	if (tempHandle == INVALID_SOCKET) return;
 
 	shutdown(tempHandle, SD_BOTH);
 	closesocket(tempHandle);
diff --git a/core/network/tcp/connection.hpp b/core/network/tcp/connection.hpp
index 5abac63..6029d4e 100644
--- a/core/network/tcp/connection.hpp
+++ b/core/network/tcp/connection.hpp
@@ -6,6 +6,7 @@
 #include <vector>
 #include <string>
 #include <mutex>
+#include <atomic>
 
 namespace Lambda::Network::TCP {
 
@@ -24,7 +25,7 @@ namespace Lambda::Network::TCP {
 
 	class Connection {
 		protected:
-			SockHandle hSocket;
+			std::atomic<SockHandle> hSocket;
 			ConnectionInfo m_info;
 			std::mutex m_read_mtx;
 			std::mutex m_write_mtx;
-- 
2.43.0


From 6e32bedad186548adc6209e6d4629d72943cd6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:05 +0000
Subject: [PATCH 56/88] fix: a connection ended by one thread could be closed
 while another was using its socket

---
 core/network/tcp/connection.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 382757f..ecd94ba 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -57,6 +57,10 @@ void Connection::end() noexcept {
 	if (tempHandle == INVALID_SOCKET) return;
 
 	shutdown(tempHandle, SD_BOTH);
+
+	//	the system may give the handle to the next connection as soon as it's closed,
+	//	so wait until no other thread is using it. They are woken by the shutdown
+	std::scoped_lock lock(this->m_read_mtx, this->m_write_mtx);
 	closesocket(tempHandle);
 }
 
@@ -75,11 +79,15 @@ void Connection::write(const std::vector<uint8_t>& data) {
 
 	std::lock_guard<std::mutex> lock(this->m_write_mtx);
 
+	const SockHandle handle = this->hSocket;
+	if (handle == INVALID_SOCKET)
+		throw Lambda::Error("Cann't write to a closed connection");
+
 	size_t bytesDone = 0;
 
 	while (bytesDone < data.size()) {
 
-		const auto bytesSent = send(this->hSocket, (const char*)data.data() + bytesDone, data.size() - bytesDone, MSG_NOSIGNAL);
+		const auto bytesSent = send(handle, (const char*)data.data() + bytesDone, data.size() - bytesDone, MSG_NOSIGNAL);
 
 		if (bytesSent <= 0)
 			throw NetworkError("Network error while writing data");
@@ -97,11 +105,19 @@ std::vector<uint8_t> Connection::read(size_t expectedSize) {
 	if (this->hSocket == INVALID_SOCKET)
 		throw Lambda::Error("Can't read from a closed connection");
 
-	std::lock_guard<std::mutex> lock(this->m_read_mtx);
+	std::unique_lock<std::mutex> lock(this->m_read_mtx);
+
+	const SockHandle handle = this->hSocket;
+	if (handle == INVALID_SOCKET)
+		throw Lambda::Error("Can't read from a closed connection");
 
 	auto chunk = std::vector<uint8_t>(expectedSize);
 
-	const auto bytesReceived = recv(this->hSocket, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
+	const auto bytesReceived = recv(handle, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
+	const auto osError = GetOSErrorCode();
+
+	//	ending the connection waits for this lock
+	lock.unlock();
 
 	if (bytesReceived == 0) {
 
@@ -110,8 +126,6 @@ std::vector<uint8_t> Connection::read(size_t expectedSize) {
 
 	} else if (bytesReceived < 0) {
 
-		const auto osError = GetOSErrorCode();
-
 		if (blockingEndedCodes.contains(osError)) {
 
 			if (this->flags.closeOnTimeout) {
-- 
2.43.0


From 4012118a74bdb29974a5e3ff217b6f45a96fade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 57/88] fix: later fragments of a sent websocket message were
 not marked as continuations

---
 core/websocket/transport.cpp | 16 +++++++++++++++-
 core/websocket/websocket.hpp |  1 +
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index 5913d70..67aca53 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -27,7 +27,21 @@ void WebsocketContext::sendMessage(const Websocket::Message& msg) {
 		throw Lambda::Error("Cannot send websocket message: connection was closed");
 	}
 
-	this->sendFrame(serializeMessage(msg));
+	auto frame = serializeMessage(msg);
+
+	std::lock_guard<std::mutex> lock(this->m_write_mtx);
+
+	if (this->m_stopped) {
+		throw Lambda::Error("Cannot send websocket message: connection was closed");
+	}
+
+	//	only the first fragment of a message tells its type
+	if (this->m_fragmented) {
+		frame.at(0) &= static_cast<std::underlying_type_t<FrameControlBits>>(FrameControlBits::BitFinal);
+	}
+
+	this->m_transport.writeRaw(frame);
+	this->m_fragmented = msg.partial;
 }
 
 void WebsocketContext::sendFrame(const std::vector<uint8_t>& frame) {
diff --git a/core/websocket/websocket.hpp b/core/websocket/websocket.hpp
index 79517fa..44730df 100644
--- a/core/websocket/websocket.hpp
+++ b/core/websocket/websocket.hpp
@@ -61,6 +61,7 @@ namespace Lambda::Websocket {
 			mutable std::mutex m_read_mtx;
 			std::mutex m_write_mtx;
 			std::atomic<bool> m_stopped = false;
+			bool m_fragmented = false;
 			void asyncWorker();
 			void sendFrame(const std::vector<uint8_t>& frame);
 
-- 
2.43.0


From 5acf50cea4a43f52c225c505c67f036ca468b4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:56 +0000
Subject: [PATCH 58/88] fix: a listening socket was stopped by one thread while
 another was reading its handle

---
 core/network/tcp/listener.cpp | 12 ++++--------
 core/network/tcp/listener.hpp |  2 +-
 core/server/server.hpp        |  3 ++-
 3 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/core/network/tcp/listener.cpp b/core/network/tcp/listener.cpp
index a6af39e..5b531a2 100644
--- a/core/network/tcp/listener.cpp
+++ b/core/network/tcp/listener.cpp
@@ -54,9 +54,8 @@ ListenSocket::~ListenSocket() {
 }
 
 ListenSocket::ListenSocket(ListenSocket&& other) noexcept {
-	this->hSocket = other.hSocket;
+	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->config = other.config;
-	other.hSocket = INVALID_SOCKET;
 }
 
 ListenSocket& ListenSocket::operator= (ListenSocket&& other) noexcept {
@@ -64,9 +63,8 @@ ListenSocket& ListenSocket::operator= (ListenSocket&& other) noexcept {
 
 	this->stop();
 
-	this->hSocket = other.hSocket;
+	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->config = other.config;
-	other.hSocket = INVALID_SOCKET;
 	return *this;
 }
 
@@ -125,10 +123,8 @@ const ListenConfig& ListenSocket::getConfig() const noexcept {
 
 void ListenSocket::stop() noexcept {
 
-	if (this->hSocket == INVALID_SOCKET) return;
-
-	const auto tempHandle = this->hSocket;
-	this->hSocket = INVALID_SOCKET;
+	const auto tempHandle = this->hSocket.exchange(INVALID_SOCKET);
+	if (tempHandle == INVALID_SOCKET) return;
 
 	shutdown(tempHandle, SD_BOTH);
 	closesocket(tempHandle);
diff --git a/core/network/tcp/listener.hpp b/core/network/tcp/listener.hpp
index 361881a..5deff4a 100644
--- a/core/network/tcp/listener.hpp
+++ b/core/network/tcp/listener.hpp
@@ -16,7 +16,7 @@ namespace Lambda::Network::TCP {
 
 	class ListenSocket {
 		protected:
-			SockHandle hSocket;
+			std::atomic<SockHandle> hSocket;
 			ListenConfig config;
 
 		public:
diff --git a/core/server/server.hpp b/core/server/server.hpp
index 4bd0509..50631b4 100644
--- a/core/server/server.hpp
+++ b/core/server/server.hpp
@@ -7,6 +7,7 @@
 
 #include "../network/tcp/listener.hpp"
 
+#include <atomic>
 #include <forward_list>
 
 namespace Lambda {
@@ -21,7 +22,7 @@ namespace Lambda {
 			RequestCallback httpHandler;
 
 			std::future<void> serviceWorker;
-			bool m_terminated = false;
+			std::atomic<bool> m_terminated = false;
 
 			std::forward_list<WorkerContext> m_connections;
 			size_t m_connections_count = 0;
-- 
2.43.0


From d9771ac59ea83a654ea5f66277e291ddf05388d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 59/88] fix: a connection that failed while being accepted
 ended the service

---
 core/server/instance.cpp | 54 +++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index 8f65942..94e5c19 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -33,6 +33,22 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 
 	this->serviceWorker = std::async([&]() {
 
+		//	a connection that failed while being accepted must not end the service
+		const auto acceptNext = [&]() -> std::optional<Network::TCP::Connection> {
+			try {
+				return this->listener.acceptConnection();
+			} catch (const std::exception& error) {
+
+				if (!this->m_terminated && this->listener.active()) {
+					syncout.error({ "[Service] Failed to accept a connection:", error.what() });
+					//	when the system is out of resources it will fail the same way again
+					std::this_thread::sleep_for(10ms);
+				}
+
+				return std::nullopt;
+			}
+		};
+
 		if (this->config.service.useThreadList) {
 
 			const auto workerJoinFilter = [&](WorkerContext& node) -> bool {
@@ -53,8 +69,8 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 
 			while (!this->m_terminated && this->listener.active()) {
 
-				auto nextConn = this->listener.acceptConnection();
-				if (!nextConn.has_value()) break;
+				auto nextConn = acceptNext();
+				if (!nextConn.has_value()) continue;
 
 				if (svcmaxconn && (this->m_connections_count > svcmaxconn)) {
 					nextConn.value().end();
@@ -68,10 +84,16 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 				this->m_connections_count++;
 
 				auto& nextWorker = this->m_connections.front();
-				nextWorker.worker = std::thread([&](WorkerContext& worker) {
-					connectionWorker(worker, this->config, this->httpHandler);
-					worker.finished = true;
-				}, std::ref(nextWorker));
+				try {
+					nextWorker.worker = std::thread([&](WorkerContext& worker) {
+						connectionWorker(worker, this->config, this->httpHandler);
+						worker.finished = true;
+					}, std::ref(nextWorker));
+				} catch (const std::exception& error) {
+					syncout.error({ "[Service] Failed to start a connection worker:", error.what() });
+					this->m_connections.pop_front();
+					this->m_connections_count--;
+				}
 
 				if (!svcmaxconn || this->m_connections_count > gcThreshold) {
 					this->m_connections.remove_if(workerJoinFilter);
@@ -82,14 +104,18 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 
 			while (!this->m_terminated && this->listener.active()) {
 
-				auto nextConn = this->listener.acceptConnection();
-				if (!nextConn.has_value()) break;
-
-				std::thread([&](WorkerContext&& worker) {
-					connectionWorker(worker, this->config, this->httpHandler);
-				}, WorkerContext {
-					std::move(nextConn.value())
-				}).detach();
+				auto nextConn = acceptNext();
+				if (!nextConn.has_value()) continue;
+
+				try {
+					std::thread([&](WorkerContext&& worker) {
+						connectionWorker(worker, this->config, this->httpHandler);
+					}, WorkerContext {
+						std::move(nextConn.value())
+					}).detach();
+				} catch (const std::exception& error) {
+					syncout.error({ "[Service] Failed to start a connection worker:", error.what() });
+				}
 			}
 		}
 	});
-- 
2.43.0


From e2855e705d2677b682199f1106f2cb4a24ad2ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 60/88] fix: one connection more than the limit was served,
 finished ones counted against it, and no limit could not be configured

---
 core/server/instance.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index 94e5c19..4255d06 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -27,7 +27,7 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 		syncout.log("[Service] Warning: fast port reuse enabled");
 	}
 
-	if (init.service.maxConnections < ServiceOptions::minConnections) {
+	if (init.service.maxConnections && init.service.maxConnections < ServiceOptions::minConnections) {
 		throw Lambda::Error("ServiceOptions::maxConnections value is lower than allowed by minConnections");
 	}
 
@@ -72,9 +72,12 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 				auto nextConn = acceptNext();
 				if (!nextConn.has_value()) continue;
 
-				if (svcmaxconn && (this->m_connections_count > svcmaxconn)) {
-					nextConn.value().end();
+				if (svcmaxconn && (this->m_connections_count >= svcmaxconn)) {
 					this->m_connections.remove_if(workerJoinFilter);
+				}
+
+				if (svcmaxconn && (this->m_connections_count >= svcmaxconn)) {
+					nextConn.value().end();
 					continue;
 				}
 
-- 
2.43.0


From b40c41e6fc8aafe98453482aa39a253840599361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 61/88] fix: stopping a service walked its list of connections
 while it was being changed

---
 core/server/instance.cpp | 6 ++++++
 core/server/server.hpp   | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index 4255d06..11455b5 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -73,6 +73,7 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 				if (!nextConn.has_value()) continue;
 
 				if (svcmaxconn && (this->m_connections_count >= svcmaxconn)) {
+					std::lock_guard<std::mutex> lock(this->m_connections_mtx);
 					this->m_connections.remove_if(workerJoinFilter);
 				}
 
@@ -81,12 +82,16 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 					continue;
 				}
 
+				std::lock_guard<std::mutex> lock(this->m_connections_mtx);
+
 				this->m_connections.push_front({
 					std::move(nextConn.value())
 				});
 				this->m_connections_count++;
 
 				auto& nextWorker = this->m_connections.front();
+				nextWorker.shutdownFlag = this->m_terminated;
+
 				try {
 					nextWorker.worker = std::thread([&](WorkerContext& worker) {
 						connectionWorker(worker, this->config, this->httpHandler);
@@ -143,6 +148,7 @@ void LambdaInstance::terminate() {
 
 	//	Request all connection workers to exit
 	if (this->config.service.useThreadList) {
+		std::lock_guard<std::mutex> lock(this->m_connections_mtx);
 		for (auto& worker : this->m_connections) {
 			worker.shutdownFlag = true;
 		}
diff --git a/core/server/server.hpp b/core/server/server.hpp
index 50631b4..0b65247 100644
--- a/core/server/server.hpp
+++ b/core/server/server.hpp
@@ -9,6 +9,7 @@
 
 #include <atomic>
 #include <forward_list>
+#include <mutex>
 
 namespace Lambda {
 
@@ -26,6 +27,7 @@ namespace Lambda {
 
 			std::forward_list<WorkerContext> m_connections;
 			size_t m_connections_count = 0;
+			std::mutex m_connections_mtx;
 
 			/**
 			 * Internal call that signals all workers to exit
-- 
2.43.0


From db02882e86cd7ef2eee54b38dd7c6d5ecbec61b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:20 +0000
Subject: [PATCH 62/88] fix: static server: a file system error while looking
 up a path must not terminate the process

---
 extra/staticserver/staticserver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index 34deef5..f5577d8 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -75,7 +75,8 @@ std::optional<std::string> StaticServer::resolvePath(const std::string& pathname
 	auto basePath = this->m_root + (pathname.starts_with('/') ? pathname : ('/' + pathname));
 
 	auto checkAvailability = [](const std::string& fspath) {
-		return std::filesystem::exists(fspath) && std::filesystem::is_regular_file(fspath);
+		std::error_code fserror;
+		return std::filesystem::is_regular_file(fspath, fserror);
 	};
 
 	if (checkAvailability(basePath)) {
@@ -128,7 +129,7 @@ HTTP::Response StaticServer::serve(const std::string& pathname) const noexcept {
 	}
 
 	auto& resolvedFilePath = resolvedFile.value();
-	auto extension = std::filesystem::relative(resolvedFilePath).extension();
+	auto extension = std::filesystem::path(resolvedFilePath).extension();
 	auto mimetype = Content::getExtMimetype(extension.generic_string());
 
 	auto fileContent = readBinaryFileSync(resolvedFilePath);
-- 
2.43.0


From 6a9bff00a70f3ded9c71c251fd78b8baeadef3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:20 +0000
Subject: [PATCH 63/88] fix: static server: a file that cannot be read is not
 an empty one, and a read error must not terminate the process

---
 extra/staticserver/staticserver.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index f5577d8..fda8d2b 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -12,10 +12,16 @@ using namespace Lambda;
 using namespace Lambda::HTTP;
 using namespace Lambda::HTML;
 
-std::vector<uint8_t> readBinaryFileSync(const std::string& filepath) {
+std::optional<std::vector<uint8_t>> readBinaryFileSync(const std::string& filepath) {
+
 	auto readablefile = std::fstream(filepath, std::ios::in | std::ios::binary);
-	if (!readablefile.is_open()) return {};
-	return std::vector<uint8_t>(std::istreambuf_iterator<char>(readablefile), {});
+	if (!readablefile.is_open()) return std::nullopt;
+
+	try {
+		return std::vector<uint8_t>(std::istreambuf_iterator<char>(readablefile), {});
+	} catch (const std::ios_base::failure& _) {
+		return std::nullopt;
+	}
 }
 
 std::string StaticServer::flattenPathName(std::string urlpath) const noexcept {
@@ -119,8 +125,10 @@ HTTP::Response StaticServer::serve(const std::string& pathname) const noexcept {
 	auto normalizedPathname = flattenPathName(pathname);
 	auto resolvedFile = this->resolvePath(normalizedPathname);
 
+	const auto fileContent = resolvedFile.has_value() ? readBinaryFileSync(resolvedFile.value()) : std::nullopt;
+
 	//	return 404
-	if (!resolvedFile.has_value()) {
+	if (!fileContent.has_value()) {
 		return Response(404, renderTemplate(Templates::servicePage, {
 			{ "svcpage_statuscode", "404" },
 			{ "svcpage_statustext", "Resource not found" },
@@ -132,9 +140,7 @@ HTTP::Response StaticServer::serve(const std::string& pathname) const noexcept {
 	auto extension = std::filesystem::path(resolvedFilePath).extension();
 	auto mimetype = Content::getExtMimetype(extension.generic_string());
 
-	auto fileContent = readBinaryFileSync(resolvedFilePath);
-
 	return Response(200, {
 		{ "content-type", mimetype }
-	}, fileContent);
+	}, fileContent.value());
 }
-- 
2.43.0


From e42d71459cf84b189c324f6d2ed4f936af58360f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:20 +0000
Subject: [PATCH 64/88] fix: static server: "." and ".." are path segments,
 names that merely end with dots are not to be cut

---
 extra/staticserver/staticserver.cpp | 43 +++++++++++++++--------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index fda8d2b..185c8af 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -26,37 +26,38 @@ std::optional<std::vector<uint8_t>> readBinaryFileSync(const std::string& filepa
 
 std::string StaticServer::flattenPathName(std::string urlpath) const noexcept {
 
-	auto segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("\\")) != std::string::npos)	{
-		urlpath.replace(segmentPos, 1, "/");
+	for (auto& chr : urlpath) {
+		if (chr == '\\') chr = '/';
 	}
 
-	segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("../")) != std::string::npos)	{
+	std::vector<std::string> segments;
+	bool isDirectory = true;
 
-		size_t segmentPrevStart = 0;
-		size_t searchStart = segmentPos > 2 ? segmentPos - 2 : 0;
-		for (size_t i = searchStart; i > 0; i--) {
-			if (urlpath[i] == '/') {
-				segmentPrevStart = i;
-				break;
-			}
-		}
+	for (size_t start = 0; start <= urlpath.size();) {
+
+		const auto end = std::min(urlpath.find('/', start), urlpath.size());
+		const auto segment = urlpath.substr(start, end - start);
+		start = end + 1;
 
-		urlpath.replace(segmentPrevStart, (segmentPos + 3) - segmentPrevStart, "/");
+		isDirectory = segment.empty() || segment == "." || segment == "..";
+
+		if (!isDirectory) {
+			segments.push_back(segment);
+		} else if (segment == ".." && !segments.empty()) {
+			segments.pop_back();
+		}
 	}
 
-	segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("./")) != std::string::npos)	{
-		urlpath.replace(segmentPos, 1, "/");
+	std::string flatpath;
+	for (const auto& segment : segments) {
+		flatpath += '/' + segment;
 	}
 
-	segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("//")) != std::string::npos)	{
-		urlpath.replace(segmentPos, 2, "/");
+	if (isDirectory) {
+		flatpath.push_back('/');
 	}
 
-	return urlpath;
+	return flatpath;
 }
 
 StaticServer::StaticServer(const std::string& rootDir) {
-- 
2.43.0


From 57eb5b5447567d8809a4f5d2fd472d935b12feba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:20 +0000
Subject: [PATCH 65/88] fix: static server: a path with a null byte names no
 file

---
 extra/staticserver/staticserver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index 185c8af..9e09f21 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -4,6 +4,7 @@
 
 #include <filesystem>
 #include <functional>
+#include <algorithm>
 #include <fstream>
 #include <vector>
 #include <cstdint>
@@ -79,6 +80,11 @@ StaticServer::StaticServer(const std::string& rootDir) {
 
 std::optional<std::string> StaticServer::resolvePath(const std::string& pathname) const noexcept {
 
+	//	file names can't contain null bytes, and the file system would ignore everything that follows one
+	if (pathname.find('\0') != std::string::npos) {
+		return std::nullopt;
+	}
+
 	auto basePath = this->m_root + (pathname.starts_with('/') ? pathname : ('/' + pathname));
 
 	auto checkAvailability = [](const std::string& fspath) {
-- 
2.43.0


From a1a0aa75cc271819e1d378fd8c695a5959f72a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:51 +0000
Subject: [PATCH 66/88] fix: kv storage: a database file name without a
 directory part must be usable

---
 extra/kvstorage/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index d157c41..f1474e2 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -120,7 +120,7 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 	}
 
 	auto dbfileParentDir = std::filesystem::path(this->m_filename).remove_filename();
-	if (!std::filesystem::exists(dbfileParentDir)) {
+	if (!dbfileParentDir.empty() && !std::filesystem::exists(dbfileParentDir)) {
 		std::filesystem::create_directories(dbfileParentDir);
 	}
 
-- 
2.43.0


From c961d7e8bf84e9302ae144a3c510510ac018f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:51 +0000
Subject: [PATCH 67/88] fix: kv storage: check that the header was read before
 using it, and record sizes before allocating memory for them

---
 extra/kvstorage/driver.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index f1474e2..db5fdb6 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -3,6 +3,7 @@
 #include "./kvstorage.hpp"
 #include "../../core/utils/utils.hpp"
 
+#include <algorithm>
 #include <filesystem>
 #include <vector>
 #include <iterator>
@@ -22,6 +23,11 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 
 		DBBasicHeader dbHeader;
 		this->m_stream.read((char*)&dbHeader, sizeof(dbHeader));
+
+		if (this->m_stream.gcount() != sizeof(dbHeader)) {
+			throw std::runtime_error("Corrupt db file: cound not read db version");
+		}
+
 		dbHeader.version = Bits::storenormx(dbHeader.version);
 
 		//	check if a file is even our db
@@ -29,15 +35,14 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 			throw std::runtime_error("File \"" + this->m_filename + "\" is not recognized as a db file");
 		}
 
-		if (this->m_stream.gcount() != sizeof(dbHeader)) {
-			throw std::runtime_error("Corrupt db file: cound not read db version");
-		}
-
 		//	replace it later with proper version handling
 		if (dbHeader.version != this->version) {
 			throw std::runtime_error("Unsupported db version");
 		}
 
+		auto bytesRemaining = std::filesystem::file_size(this->m_filename);
+		bytesRemaining -= std::min<uintmax_t>(bytesRemaining, sizeof(dbHeader));
+
 		this->m_init_data = new Container();
 
 		while (this->m_stream.is_open() && !this->m_stream.eof()) {
@@ -55,6 +60,14 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 			recordHeader.keySize = Bits::storenormx(recordHeader.keySize);
 			recordHeader.valueSize = Bits::storenormx(recordHeader.valueSize);
 
+			//	don't allocate memory for data that can't be there
+			const auto recordSize = sizeof(recordHeader) + static_cast<uintmax_t>(recordHeader.keySize) + recordHeader.valueSize;
+			if (recordSize > bytesRemaining) {
+				throw std::runtime_error("Corrupt db file: incomplete record data");
+			}
+
+			bytesRemaining -= recordSize;
+
 			switch (opationType) {
 
 				case TransactionType::Put: {
-- 
2.43.0


From 2de1bf1731c3e7361cc4a69d4a32f01b01afb24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:51 +0000
Subject: [PATCH 68/88] fix: kv storage: opening a database must not destroy
 its data if interrupted

---
 extra/kvstorage/driver.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index db5fdb6..fbd0a69 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -137,9 +137,13 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 		std::filesystem::create_directories(dbfileParentDir);
 	}
 
-	this->m_stream = std::fstream(this->m_filename, std::ios::out | std::ios::binary);
+	//	write the new file aside and replace the existing one when it's complete,
+	//	so that the data doesn't get lost if the process ends or the disk fills up halfway
+	const auto tempFilename = this->m_filename + ".tmp";
+
+	this->m_stream = std::fstream(tempFilename, std::ios::out | std::ios::binary);
 	if (!this->m_stream.is_open()) {
-		throw std::runtime_error("Failed to open db file for write: " + this->m_filename);
+		throw std::runtime_error("Failed to open db file for write: " + tempFilename);
 	}
 
 	DBBasicHeader dbHeader;
@@ -153,6 +157,18 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 			this->handleTransaction({ TransactionType::Put, &entry.first, &entry.second });
 		}
 	}
+
+	this->m_stream.close();
+	if (!this->m_stream.good()) {
+		throw std::runtime_error("Failed to write db file: " + tempFilename);
+	}
+
+	std::filesystem::rename(tempFilename, this->m_filename);
+
+	this->m_stream = std::fstream(this->m_filename, std::ios::out | std::ios::app | std::ios::binary);
+	if (!this->m_stream.is_open()) {
+		throw std::runtime_error("Failed to open db file for write: " + this->m_filename);
+	}
 }
 
 Driver::~Driver() {
-- 
2.43.0


From d76e3717c38ab41ca3b9488d66bda98a02685f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:51 +0000
Subject: [PATCH 69/88] fix: kv storage: refuse records that do not fit or
 could not be written instead of losing them

---
 extra/kvstorage/driver.cpp    | 14 ++++++++++++++
 extra/kvstorage/interface.cpp |  7 ++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index fbd0a69..a9c16a5 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -7,6 +7,8 @@
 #include <filesystem>
 #include <vector>
 #include <iterator>
+#include <limits>
+#include <stdexcept>
 #include <memory.h>
 
 using namespace Lambda::Storage;
@@ -197,6 +199,14 @@ std::optional<Container> Driver::sync() {
 
 void Driver::handleTransaction(const Transaction& tractx) {
 
+	if (tractx.key != nullptr && tractx.key->size() > std::numeric_limits<uint16_t>::max()) {
+		throw std::length_error("KVStorage key is too long");
+	}
+
+	if (tractx.value != nullptr && tractx.value->size() > std::numeric_limits<uint32_t>::max()) {
+		throw std::length_error("KVStorage value is too long");
+	}
+
 	Driver::RecordHeader recordHeader {
 		Bits::storenormx(static_cast<std::underlying_type_t<TransactionType>>(tractx.type)),
 		Bits::storenormx(static_cast<uint16_t>(tractx.key ? tractx.key->size() : 0)),
@@ -224,4 +234,8 @@ void Driver::handleTransaction(const Transaction& tractx) {
 	}
 
 	this->m_stream.flush();
+
+	if (!this->m_stream.good()) {
+		throw std::runtime_error("Failed to write db file: " + this->m_filename);
+	}
 }
diff --git a/extra/kvstorage/interface.cpp b/extra/kvstorage/interface.cpp
index 9f4ecd4..2cff243 100644
--- a/extra/kvstorage/interface.cpp
+++ b/extra/kvstorage/interface.cpp
@@ -56,22 +56,23 @@ void StorageInterface::removeItem(const std::string& key) {
 	std::lock_guard <std::mutex> lock(this->mtlock);
 
 	if (!this->data.contains(key)) return;
-	this->data.erase(key);
 
 	if (this->driver != nullptr) {
 		this->driver->handleTransaction({ TransactionType::Remove, &key });
 	}
+
+	this->data.erase(key);
 }
 
 void StorageInterface::clear() {
 
 	std::lock_guard <std::mutex> lock(this->mtlock);
 
-	this->data.clear();
-
 	if (this->driver != nullptr) {
 		this->driver->handleTransaction({ TransactionType::Clear });
 	}
+
+	this->data.clear();
 }
 
 size_t StorageInterface::size() const noexcept {
-- 
2.43.0


From 500ec1b46427567eecab6e62c69f32c140785fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:51 +0000
Subject: [PATCH 70/88] fix: kv storage: hasItem and size read data other
 threads may be changing

---
 extra/kvstorage/interface.cpp | 2 ++
 extra/kvstorage/kvstorage.hpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/extra/kvstorage/interface.cpp b/extra/kvstorage/interface.cpp
index 2cff243..61322c5 100644
--- a/extra/kvstorage/interface.cpp
+++ b/extra/kvstorage/interface.cpp
@@ -30,6 +30,7 @@ StorageInterface::~StorageInterface() {
 }
 
 bool StorageInterface::hasItem(const std::string& key) const noexcept {
+	std::lock_guard <std::mutex> lock(this->mtlock);
 	return this->data.contains(key);
 }
 
@@ -76,5 +77,6 @@ void StorageInterface::clear() {
 }
 
 size_t StorageInterface::size() const noexcept {
+	std::lock_guard <std::mutex> lock(this->mtlock);
 	return this->data.size();
 }
diff --git a/extra/kvstorage/kvstorage.hpp b/extra/kvstorage/kvstorage.hpp
index 56e18b7..b971b76 100644
--- a/extra/kvstorage/kvstorage.hpp
+++ b/extra/kvstorage/kvstorage.hpp
@@ -27,7 +27,7 @@ namespace Lambda::Storage {
 		class StorageInterface {
 			protected:
 				Container data;
-				std::mutex mtlock;
+				mutable std::mutex mtlock;
 				Driver* driver = nullptr;
 
 			public:
-- 
2.43.0


From 8e4186deeabed898e9141f9c1a7702b8e9e85bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 71/88] fix: vfs: renaming a file to its own name, onto another
 one or a missing one keeps data and statistics right

---
 extra/vfs/interface.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index c1161d5..3a3459c 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -84,8 +84,6 @@ void Interface::move(const std::string& oldPath, const std::string& newPath) {
 	const auto pathNormalized = Strings::toLowerCase(oldPath);
 	const auto newPathNormalized = Strings::toLowerCase(newPath);
 
-	this->m_info.totalSize += (newPath.size() - oldPath.size());
-	
 	std::lock_guard <std::mutex> lock(this->m_mtx);
 
 	const auto itrOld = this->m_data.find(pathNormalized);
@@ -93,8 +91,20 @@ void Interface::move(const std::string& oldPath, const std::string& newPath) {
 		throw std::filesystem::filesystem_error("Virtual file not found", oldPath, std::error_code(2L, std::generic_category()));
 	}
 
-	this->m_data[newPathNormalized] = itrOld->second;
+	if (pathNormalized == newPathNormalized) return;
+
+	auto moved = std::move(itrOld->second);
 	this->m_data.erase(itrOld);
+
+	//	a file that the moved one replaces no longer counts
+	const auto itrNew = this->m_data.find(newPathNormalized);
+	if (itrNew != this->m_data.end()) {
+		this->m_info.totalSize -= (itrNew->first.size() + itrNew->second.buffer.size());
+		this->m_info.totalFiles--;
+	}
+
+	this->m_info.totalSize += (newPathNormalized.size() - pathNormalized.size());
+	this->m_data[newPathNormalized] = std::move(moved);
 }
 
 std::vector<VirtualFileInfo> Interface::listAll() noexcept {
-- 
2.43.0


From f4e92436b13cab5358d43f7d40581c417daf9506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 72/88] fix: vfs: file info had creation and modification times
 swapped

---
 extra/vfs/interface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index 3a3459c..e88c86c 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -116,8 +116,8 @@ std::vector<VirtualFileInfo> Interface::listAll() noexcept {
 	for (const auto& entry : this->m_data) {
 		result.push_back({
 			entry.first,
-			entry.second.created,
 			entry.second.modified,
+			entry.second.created,
 			entry.second.buffer.size()
 		});
 	}
@@ -138,8 +138,8 @@ std::optional<VirtualFileInfo> Interface::fileInfo(const std::string& path) noex
 
 	VirtualFileInfo info {
 		itr->first,
-		itr->second.created,
 		itr->second.modified,
+		itr->second.created,
 		itr->second.buffer.size()
 	};
 
-- 
2.43.0


From 721419a997ec8ae9d7c6697aca18e7f2a7778edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 73/88] fix: vfs: snapshots with an extension that is not
 supported are refused

---
 extra/vfs/interface.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index e88c86c..7bcfc4d 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -150,10 +150,9 @@ template <std::size_t N>
 bool isSupportedFileExtension(const std::string& filepath, const std::array<std::string, N>& extensions) {
 
 	const auto pathNormalized = Strings::toLowerCase(filepath);
-	const auto pathExtension = std::filesystem::path(pathNormalized).extension();
 
-	for (const auto& item : pathExtension) {
-		if (item == pathExtension) return true;
+	for (const auto& item : extensions) {
+		if (pathNormalized.ends_with(item)) return true;
 	}
 
 	return false;
-- 
2.43.0


From 65751d82d586712e1073f290e3a1feb47f5dcbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 74/88] fix: vfs: files loaded from a snapshot are counted in
 the statistics

---
 extra/vfs/interface.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index 7bcfc4d..a4cd136 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -180,6 +180,15 @@ void Interface::loadSnapshot(const std::string& path) {
 			};
 
 			std::lock_guard<std::mutex> lock(this->m_mtx);
+
+			const auto itr = this->m_data.find(pathNormalized);
+			if (itr != this->m_data.end()) {
+				this->m_info.totalSize -= (itr->first.size() + itr->second.buffer.size());
+				this->m_info.totalFiles--;
+			}
+
+			this->m_info.totalSize += pathNormalized.size() + vfsentry.buffer.size();
+			this->m_info.totalFiles++;
 			this->m_data[pathNormalized] = vfsentry;
 		}
 
-- 
2.43.0


From 48964e6937421f5a353059e093952cdce9b33f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 75/88] fix: vfs: the snapshot queue accessed its data without
 holding its lock

---
 extra/vfs/formats.hpp   |  4 +++-
 extra/vfs/syncqueue.cpp | 32 ++++++++++++++++++++------------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/extra/vfs/formats.hpp b/extra/vfs/formats.hpp
index 75708fa..8edcc02 100644
--- a/extra/vfs/formats.hpp
+++ b/extra/vfs/formats.hpp
@@ -14,11 +14,13 @@ namespace Lambda::VFS::Formats {
 	class SyncQueue {
 		private:
 			std::vector<VirtualFile> m_queue;
-			std::mutex m_queue_mtx;
+			mutable std::mutex m_queue_mtx;
 			std::shared_mutex m_future_mtx;
 			bool m_done = false;
 			std::future<void>* m_watch_future = nullptr;
 
+			std::future<void>* watcher() noexcept;
+
 		public:
 			SyncQueue& operator=(const SyncQueue& other) = delete;
 			SyncQueue& operator=(SyncQueue&& other) noexcept;
diff --git a/extra/vfs/syncqueue.cpp b/extra/vfs/syncqueue.cpp
index c2dd5af..3e0aabf 100644
--- a/extra/vfs/syncqueue.cpp
+++ b/extra/vfs/syncqueue.cpp
@@ -19,12 +19,12 @@ void SyncQueue::push(VirtualFile&& item) {
 
 VirtualFile SyncQueue::next() {
 
+	std::lock_guard lock(this->m_queue_mtx);
+
 	if (!this->m_queue.size()) {
 		throw std::runtime_error("cannot get next item from an empty FSQueue");
 	}
 
-	std::lock_guard lock(this->m_queue_mtx);
-
 	VirtualFile temp = this->m_queue.front();
 	this->m_queue.erase(this->m_queue.begin());
 
@@ -33,45 +33,48 @@ VirtualFile SyncQueue::next() {
 
 bool SyncQueue::await() {
 
-	std::shared_lock lock(this->m_future_mtx);
+	while (!this->done() && this->empty()) {
 
-	while (!this->m_done && !this->m_queue.size()) {
+		const auto watch = this->watcher();
 
-		if (this->m_watch_future != nullptr) {
-			if (m_watch_future->wait_for(std::chrono::milliseconds(1)) == std::future_status::ready) break;
+		if (watch != nullptr) {
+			if (watch->wait_for(std::chrono::milliseconds(1)) == std::future_status::ready) break;
 		} else {
 			std::this_thread::sleep_for(std::chrono::milliseconds(1));
 		}
 	}
 
-	return this->m_queue.size();
+	return !this->empty();
 }
 
 bool SyncQueue::awaitEmpty() {
 
-	std::shared_lock lock(this->m_future_mtx);
+	while (!this->done() && !this->empty()) {
 
-	while (!this->m_done && this->m_queue.size()) {
+		const auto watch = this->watcher();
 
-		if (this->m_watch_future != nullptr) {
-			if (m_watch_future->wait_for(std::chrono::milliseconds(1)) == std::future_status::ready) break;
+		if (watch != nullptr) {
+			if (watch->wait_for(std::chrono::milliseconds(1)) == std::future_status::ready) break;
 		} else {
 			std::this_thread::sleep_for(std::chrono::milliseconds(1));
 		}
 	}
 
-	return !this->m_queue.size();
+	return this->empty();
 }
 
 void SyncQueue::close() noexcept {
+	std::lock_guard lock(this->m_queue_mtx);
 	this->m_done = true;
 }
 
 bool SyncQueue::done() const noexcept {
+	std::lock_guard lock(this->m_queue_mtx);
 	return this->m_done;
 }
 
 bool SyncQueue::empty() const noexcept {
+	std::lock_guard lock(this->m_queue_mtx);
 	return this->m_queue.size() == 0;
 }
 
@@ -79,3 +82,8 @@ void SyncQueue::setPromiseExitWatcher(std::future<void>* watch) noexcept {
 	std::unique_lock lock(this->m_future_mtx);
 	this->m_watch_future = watch;
 }
+
+std::future<void>* SyncQueue::watcher() noexcept {
+	std::shared_lock lock(this->m_future_mtx);
+	return this->m_watch_future;
+}
-- 
2.43.0


From 3596c52d30af2c0dfcdbc7fba5034cf05a9c60d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 76/88] fix: vfs: the snapshot task looked at its future while
 that was being assigned

---
 extra/vfs/interface.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index a4cd136..74463bb 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -162,11 +162,11 @@ void Interface::loadSnapshot(const std::string& path) {
 
 	Formats::SyncQueue readerQueue;
 	std::future<void> readerPromise;
-	readerQueue.setPromiseExitWatcher(&readerPromise);
 
 	if (isSupportedFileExtension(path, Formats::Tar::Extensions)) {
 
-		readerPromise = std::async(Formats::Tar::importArchive, path, std::ref(readerQueue));
+		readerPromise = std::async(std::launch::async, Formats::Tar::importArchive, path, std::ref(readerQueue));
+		readerQueue.setPromiseExitWatcher(&readerPromise);
 
 		while (readerQueue.await()) {
 			
@@ -209,11 +209,11 @@ void Interface::saveSnapshot(const std::string& path) {
 
 	Formats::SyncQueue writerQueue;
 	std::future<void> writerPromise;
-	writerQueue.setPromiseExitWatcher(&writerPromise);
 
 	if (isSupportedFileExtension(path, Formats::Tar::Extensions)) {
 
-		writerPromise = std::async(Formats::Tar::exportArchive, path, std::ref(writerQueue));
+		writerPromise = std::async(std::launch::async, Formats::Tar::exportArchive, path, std::ref(writerQueue));
+		writerQueue.setPromiseExitWatcher(&writerPromise);
 
 		std::lock_guard<std::mutex> lock(this->m_mtx);
 
-- 
2.43.0


From c617aa8b9a80abaeae4e66d890995f8cfda2d1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 77/88] fix: tar: contents of a multiple of the block size were
 padded with an extra block

---
 extra/vfs/format_tar.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 704e7a6..cb8dcaf 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -41,8 +41,7 @@ static const uint16_t tarBlockSize = 512;
 static_assert(sizeof(TarPosixHeader) == tarBlockSize);
 
 size_t getPaddingSize(size_t contentSize) {
-	if (contentSize == 0 || contentSize == tarBlockSize) return 0;
-	return (tarBlockSize * ((contentSize / tarBlockSize) + 1)) - contentSize;
+	return (tarBlockSize - (contentSize % tarBlockSize)) % tarBlockSize;
 }
 
 enum struct EntryType : char {
-- 
2.43.0


From 47e2118186c291bb4d15dd2dbbf0bbc69599af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 78/88] fix: tar: header checksum of names with bytes above
 127, version field written past its end

---
 extra/vfs/format_tar.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index cb8dcaf..d945ed2 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -337,7 +337,7 @@ std::vector<uint8_t> serializeHeader(const TarBasicHeader& header) {
 	memset(&posixHeader, 0, sizeof(posixHeader));
 
 	strcpy(posixHeader.magic, "ustar");
-	strcpy(posixHeader.version, "00");
+	memcpy(posixHeader.version, "00", sizeof(posixHeader.version));
 	posixHeader.typeflag = static_cast<std::underlying_type_t<EntryType>>(header.typeflag);
 
 	strncpy(posixHeader.mode, "0100777", sizeof(posixHeader.mode));
@@ -350,19 +350,19 @@ std::vector<uint8_t> serializeHeader(const TarBasicHeader& header) {
 	encodeTarInt(posixHeader.mtime, sizeof(posixHeader.mtime), header.modified);
 
 	//	calculate header checksum
-	int64_t checksumSigned = 0;
+	size_t checksum = 0;
 
 	for (size_t i = 0; i < tarBlockSize; i++) {
 
 		if (i >= 148 && i < 156) {
-			checksumSigned += 32;
+			checksum += 32;
 			continue;
 		}
 
-		checksumSigned += *((int8_t*)(&posixHeader) + i);
+		checksum += *((uint8_t*)(&posixHeader) + i);
 	}
 
-	encodeTarInt(posixHeader.chksum, sizeof(posixHeader.chksum), checksumSigned);
+	encodeTarInt(posixHeader.chksum, sizeof(posixHeader.chksum), checksum);
 
 	const auto headerDataPtr = reinterpret_cast<uint8_t*>(&posixHeader);
 	return std::vector<uint8_t>(headerDataPtr, headerDataPtr + sizeof(posixHeader));
-- 
2.43.0


From f591ed9edec069da3b27cb98594828c5ad45fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 79/88] fix: tar: an archive cut short was loaded as a complete
 one, an entry with an empty name ended it

---
 extra/vfs/format_tar.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index d945ed2..d6f893a 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -6,7 +6,7 @@
 	#include "../../core/compression/compression.hpp"
 #endif
 
-#include <cassert>
+#include <algorithm>
 #include <array>
 #include <cstring>
 #include <fstream>
@@ -370,12 +370,6 @@ std::vector<uint8_t> serializeHeader(const TarBasicHeader& header) {
 
 TarBasicHeader parseHeader(const std::vector<uint8_t>& headerBuff) {
 
-	//	check for empty block
-	assert(headerBuff[0] != 0);
-
-	//	check available space
-	assert(headerBuff.size() >= sizeof(TarPosixHeader));
-
 	const auto posixHeader = reinterpret_cast<const TarPosixHeader*>(headerBuff.data());
 
 	//	ensure ustar format
@@ -485,10 +479,15 @@ void Tar::importArchive(const std::string& path, SyncQueue& queue) {
 
 	std::optional<std::string> nextLongLink;
 
-	while (!reader.isEof()) {
+	while (true) {
 
 		const auto rawHeader = reader.readChunk(sizeof(TarPosixHeader));
-		if (rawHeader.size() < sizeof(TarPosixHeader) || !rawHeader[0]) break;
+		if (rawHeader.size() < sizeof(TarPosixHeader)) {
+			throw std::runtime_error("Unexpected end of tar archive");
+		}
+
+		//	an empty block marks the end of the archive
+		if (std::all_of(rawHeader.begin(), rawHeader.end(), [](uint8_t byte) { return byte == 0; })) break;
 
 		const auto nextHeader = parseHeader(rawHeader);
 
-- 
2.43.0


From b0e70d1fbcc40a96f165726f968bd20742d09323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 80/88] fix: tar: the size field of an entry was allocated
 before any of its data was read

---
 extra/vfs/format_tar.cpp | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index d6f893a..b6a3432 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -50,6 +50,31 @@ enum struct EntryType : char {
 	Directory = '5'
 };
 
+/**
+ * Read up to expectedSize bytes. The size usually comes from the archive itself
+ * so memory is only allocated for the data that is really there
+*/
+std::vector<uint8_t> readFileChunk(std::ifstream& stream, size_t expectedSize) {
+
+	static const size_t blockSize = 2 * 1024 * 1024;
+	std::vector<uint8_t> result;
+
+	while (result.size() < expectedSize) {
+
+		const auto offset = result.size();
+		const auto nextSize = std::min(expectedSize - offset, blockSize);
+
+		result.resize(offset + nextSize);
+		stream.read(reinterpret_cast<char*>(result.data() + offset), nextSize);
+
+		const size_t bytesRead = stream.gcount();
+		result.resize(offset + bytesRead);
+		if (bytesRead < nextSize) break;
+	}
+
+	return result;
+}
+
 struct TarBasicHeader {
 	std::string name;
 	EntryType typeflag = EntryType::Normal;
@@ -128,11 +153,7 @@ class InflatableReader {
 						return {};
 					}
 
-					std::vector<uint8_t> tempBuff(expectedSize);
-					this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
-
-					const auto bytesRead = this->m_readstream.gcount();
-					return std::vector<uint8_t>(tempBuff.begin(), tempBuff.begin() + bytesRead);
+					return readFileChunk(this->m_readstream, expectedSize);
 				};
 			}
 		}
@@ -263,11 +284,7 @@ class PlainFSReader {
 				return {};
 			}
 
-			std::vector<uint8_t> tempBuff(expectedSize);
-			this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
-
-			const auto bytesRead = this->m_readstream.gcount();
-			return std::vector<uint8_t>(tempBuff.begin(), tempBuff.begin() + bytesRead);
+			return readFileChunk(this->m_readstream, expectedSize);
 		}
 
 		std::string readTextChunk(size_t expectedSize) {
-- 
2.43.0


From c310a253c13de84bfcfa130de2fbc5dbd68cc1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 81/88] fix: tar.gz: reading stopped after one portion of
 compressed data, skipping ran past the end of the buffer

---
 extra/vfs/format_tar.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index b6a3432..b1fa546 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -96,7 +96,7 @@ class InflatableReader {
 
 		Compress::GzipStreamDecompressor* m_gz_strm = nullptr;
 
-		static const size_t bufferSize = 2 * 1024 * 1024;
+		static constexpr size_t bufferSize = 2 * 1024 * 1024;
 
 		/**
 		 * Read end decompress enough data to contain expectedSize
@@ -107,16 +107,14 @@ class InflatableReader {
 				throw std::runtime_error("InflatableReader::m_gz_strm is null");
 			}
 
-			if (this->m_buff.size() >= expectedSize || this->m_readstream.eof() || this->m_gz_strm->isDone()) {
-				return;
-			}
+			while (this->m_buff.size() < expectedSize && !this->m_gz_strm->isDone()) {
 
-			std::vector<uint8_t> tempBuff(expectedSize);
-			this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
-			tempBuff.resize(this->m_readstream.gcount());
+				auto tempBuff = readFileChunk(this->m_readstream, std::min(expectedSize - this->m_buff.size(), bufferSize));
+				if (!tempBuff.size()) break;
 
-			auto nextDecompressed = this->m_gz_strm->nextChunk(tempBuff);
-			this->m_buff.insert(this->m_buff.end(), nextDecompressed.begin(), nextDecompressed.end());
+				auto nextDecompressed = this->m_gz_strm->nextChunk(tempBuff);
+				this->m_buff.insert(this->m_buff.end(), nextDecompressed.begin(), nextDecompressed.end());
+			}
 		}
 
 	public:
@@ -170,7 +168,7 @@ class InflatableReader {
 				case TarCompression::Gzip: {
 
 					this->m_decompressToContain(skipSize);
-					this->m_buff.erase(this->m_buff.begin(), this->m_buff.begin() + skipSize);
+					this->m_buff.erase(this->m_buff.begin(), this->m_buff.begin() + std::min(skipSize, this->m_buff.size()));
 
 				} break;
 				
-- 
2.43.0


From 7bbe6f4b0de5316f5990f546af5829940c61cbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 82/88] fix: tar: a failed write was not reported

---
 extra/vfs/format_tar.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index b1fa546..6396e65 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -475,6 +475,11 @@ void Tar::exportArchive(const std::string& path, SyncQueue& queue) {
 	}
 
 	writer.endStream();
+
+	outfile.close();
+	if (!outfile.good()) {
+		throw std::filesystem::filesystem_error("Could not write file", path, std::error_code(5L, std::generic_category()));
+	}
 }
 
 void Tar::importArchive(const std::string& path, SyncQueue& queue) {
-- 
2.43.0


From badebaf732fb2a67b961d85e0c865362ed8047fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 83/88] fix: compression: data that ends exactly at a chunk
 boundary was refused with a buffer error

---
 core/compression/zlib_oneshot.cpp           | 6 ++++--
 core/compression/zlib_stream_compress.cpp   | 2 +-
 core/compression/zlib_stream_decompress.cpp | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/compression/zlib_oneshot.cpp b/core/compression/zlib_oneshot.cpp
index 5d6e453..9877204 100644
--- a/core/compression/zlib_oneshot.cpp
+++ b/core/compression/zlib_oneshot.cpp
@@ -77,7 +77,8 @@ std::vector<uint8_t> Compress::zlibCompressBuffer(const std::vector<uint8_t>& in
 				zlib.stream.next_out = compressed.data() + cursor_out;
 
 				opres = deflate(&zlib.stream, eob ? Z_FINISH : Z_NO_FLUSH);
-				if (opres < 0) throw std::runtime_error("deflate stream error: code " + std::to_string(opres));
+				//	Z_BUF_ERROR only tells that nothing was left to do
+				if (opres < 0 && opres != Z_BUF_ERROR) throw std::runtime_error("deflate stream error: code " + std::to_string(opres));
 
 				cursor_out += zlib.chunk - zlib.stream.avail_out;
 
@@ -126,7 +127,8 @@ std::vector<uint8_t> Compress::zlibDecompressBuffer(const std::vector<uint8_t>&
 				zlib.stream.next_out = decompressed.data() + cursor_out;
 
 				opres = inflate(&zlib.stream, Z_NO_FLUSH);
-				if (opres < Z_OK || opres > Z_STREAM_END) throw std::runtime_error("inflate stream error: code " + std::to_string(opres));
+				//	Z_BUF_ERROR only tells that nothing was left to do
+				if ((opres < Z_OK || opres > Z_STREAM_END) && opres != Z_BUF_ERROR) throw std::runtime_error("inflate stream error: code " + std::to_string(opres));
 
 				cursor_out += zlib.chunk - zlib.stream.avail_out;
 
diff --git a/core/compression/zlib_stream_compress.cpp b/core/compression/zlib_stream_compress.cpp
index c05e567..17dc2cb 100644
--- a/core/compression/zlib_stream_compress.cpp
+++ b/core/compression/zlib_stream_compress.cpp
@@ -64,13 +64,13 @@ std::vector<uint8_t> GzipStreamCompressor::nextChunk(std::vector<uint8_t>& next,
 
 		const auto resultStat = deflate(castedctx, flush == StreamFlush::Finish ? Z_FINISH : Z_NO_FLUSH);
 
+		//	Z_BUF_ERROR only tells that nothing was left to do
 		switch (resultStat) {
 
 			case Z_ERRNO: throw std::runtime_error("inflate error: os error " + std::to_string(errno));
 			case Z_STREAM_ERROR: throw std::runtime_error("inflate error: stream error");
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
-			case Z_BUF_ERROR: throw std::runtime_error("inflate error: buffer error");
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
 
 			case Z_STREAM_END: {
diff --git a/core/compression/zlib_stream_decompress.cpp b/core/compression/zlib_stream_decompress.cpp
index f3ba8c8..cd6f996 100644
--- a/core/compression/zlib_stream_decompress.cpp
+++ b/core/compression/zlib_stream_decompress.cpp
@@ -62,13 +62,13 @@ std::vector<uint8_t> GzipStreamDecompressor::nextChunk(std::vector<uint8_t>& nex
 
 		auto resultStat = inflate(castedctx, Z_NO_FLUSH);
 
+		//	Z_BUF_ERROR only tells that nothing was left to do
 		switch (resultStat) {
 
 			case Z_ERRNO: throw std::runtime_error("inflate error: os error " + std::to_string(errno));
 			case Z_STREAM_ERROR: throw std::runtime_error("inflate error: stream error");
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
-			case Z_BUF_ERROR: throw std::runtime_error("inflate error: buffer error");
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
 
 			case Z_STREAM_END: {
-- 
2.43.0


From a1f5206ad6e62c439b270ab3124195e213ae5b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 84/88] fix: compression: zlib streams were not released after
 a failure, by the compressor and when assigned over

---
 core/compression/zlib_stream_compress.cpp   | 8 ++++----
 core/compression/zlib_stream_decompress.cpp | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/compression/zlib_stream_compress.cpp b/core/compression/zlib_stream_compress.cpp
index 17dc2cb..5c727b5 100644
--- a/core/compression/zlib_stream_compress.cpp
+++ b/core/compression/zlib_stream_compress.cpp
@@ -15,9 +15,8 @@ GzipStreamCompressor::GzipStreamCompressor(GzipStreamCompressor&& other) {
 }
 
 GzipStreamCompressor& GzipStreamCompressor::operator=(GzipStreamCompressor&& other) {
-	this->m_stage = other.m_stage;
-	this->m_stream = other.m_stream;
-	other.m_stream = nullptr;
+	std::swap(this->m_stage, other.m_stage);
+	std::swap(this->m_stream, other.m_stream);
 	return *this;
 }
 
@@ -31,13 +30,14 @@ GzipStreamCompressor::GzipStreamCompressor(Quality quality) {
 	auto initResult = deflateInit2(reinterpret_cast<z_stream*>(this->m_stream), qualityAsInt, Z_DEFLATED, winbitsAsInt, 8, Z_DEFAULT_STRATEGY);
 	
 	if (initResult != Z_OK) {
+		delete reinterpret_cast<z_stream*>(this->m_stream);
 		throw std::runtime_error("Could not initialize deflate (zlib error code " + std::to_string(initResult) + ')');
 	}
 }
 
 GzipStreamCompressor::~GzipStreamCompressor() {
 	if (this->m_stream == nullptr) return;
-	(void)inflateEnd(reinterpret_cast<z_stream*>(this->m_stream));
+	(void)deflateEnd(reinterpret_cast<z_stream*>(this->m_stream));
 	delete reinterpret_cast<z_stream*>(this->m_stream);
 }
 
diff --git a/core/compression/zlib_stream_decompress.cpp b/core/compression/zlib_stream_decompress.cpp
index cd6f996..5afc297 100644
--- a/core/compression/zlib_stream_decompress.cpp
+++ b/core/compression/zlib_stream_decompress.cpp
@@ -15,9 +15,8 @@ GzipStreamDecompressor::GzipStreamDecompressor(GzipStreamDecompressor&& other) {
 }
 
 GzipStreamDecompressor& GzipStreamDecompressor::operator=(GzipStreamDecompressor&& other) noexcept {
-	this->m_stage = other.m_stage;
-	this->m_stream = other.m_stream;
-	other.m_stream = nullptr;
+	std::swap(this->m_stage, other.m_stage);
+	std::swap(this->m_stream, other.m_stream);
 	return *this;
 }
 
@@ -29,6 +28,7 @@ GzipStreamDecompressor::GzipStreamDecompressor() {
 	auto initResult = inflateInit2(reinterpret_cast<z_stream*>(this->m_stream), 32);
 	
 	if (initResult != Z_OK) {
+		delete reinterpret_cast<z_stream*>(this->m_stream);
 		throw std::runtime_error("Could not initialize deflate (zlib error code " + std::to_string(initResult) + ')');
 	}
 }
-- 
2.43.0


From 8abe9ffc2af4234193bbc859a368629080fff2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 85/88] fix: compression: data after the end of a compressed
 stream was dropped without an error

---
 core/compression/brotli.cpp                 | 5 +----
 core/compression/zlib_oneshot.cpp           | 1 +
 core/compression/zlib_stream_decompress.cpp | 1 +
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/compression/brotli.cpp b/core/compression/brotli.cpp
index 83b9ead..5c1bdb3 100644
--- a/core/compression/brotli.cpp
+++ b/core/compression/brotli.cpp
@@ -152,10 +152,7 @@ std::vector<uint8_t> Compress::brotliDecompressBuffer(const std::vector<uint8_t>
 					decompressed.resize(cursor_out - available_out);
 					decompressed.shrink_to_fit();
 
-					available_in = 0;
-					available_out = 0;
-
-					if (cursor_in < input.size()) {
+					if (available_in > 0 || cursor_in < input.size()) {
 						throw std::runtime_error("Unused data after brotli stream");
 					}
 
diff --git a/core/compression/zlib_oneshot.cpp b/core/compression/zlib_oneshot.cpp
index 9877204..831c3b0 100644
--- a/core/compression/zlib_oneshot.cpp
+++ b/core/compression/zlib_oneshot.cpp
@@ -137,6 +137,7 @@ std::vector<uint8_t> Compress::zlibDecompressBuffer(const std::vector<uint8_t>&
 		} while (!eob && opres != Z_STREAM_END);
 
 		if (opres != Z_STREAM_END) throw std::runtime_error("inflate stream failed to properly finish");
+		if (zlib.stream.avail_in > 0 || cursor_in < input.size()) throw std::runtime_error("unused data after the end of stream");
 
 		decompressed.resize(cursor_out);
 		decompressed.shrink_to_fit();
diff --git a/core/compression/zlib_stream_decompress.cpp b/core/compression/zlib_stream_decompress.cpp
index 5afc297..d4fbc62 100644
--- a/core/compression/zlib_stream_decompress.cpp
+++ b/core/compression/zlib_stream_decompress.cpp
@@ -69,6 +69,7 @@ std::vector<uint8_t> GzipStreamDecompressor::nextChunk(std::vector<uint8_t>& nex
 			case Z_STREAM_ERROR: throw std::runtime_error("inflate error: stream error");
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
+			case Z_NEED_DICT: throw std::runtime_error("inflate error: preset dictionary required");
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
 
 			case Z_STREAM_END: {
-- 
2.43.0


From 79659723dc8abac170b7a880d797768c1fc7c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 86/88] fix: compression: a brotli instance that could not be
 created was used

---
 core/compression/brotli.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/compression/brotli.cpp b/core/compression/brotli.cpp
index 5c1bdb3..89d337a 100644
--- a/core/compression/brotli.cpp
+++ b/core/compression/brotli.cpp
@@ -14,6 +14,7 @@ struct BrotliCompressStream {
 
 	BrotliCompressStream() {
 		this->stream = BrotliEncoderCreateInstance(nullptr, nullptr, nullptr);
+		if (this->stream == nullptr) throw std::runtime_error("Could not initialize brotli encoder");
 	}
 
 	~BrotliCompressStream() {
@@ -27,6 +28,7 @@ struct BrotliDecompressStream {
 
 	BrotliDecompressStream() {
 		this->stream = BrotliDecoderCreateInstance(nullptr, nullptr, nullptr);
+		if (this->stream == nullptr) throw std::runtime_error("Could not initialize brotli decoder");
 	}
 
 	~BrotliDecompressStream() {
-- 
2.43.0


From cc1d347ce78cd1eba576709b08c03b57a53e842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:04 +0000
Subject: [PATCH 87/88] fix: generating an id was not safe to do in two threads
 at once

---
 core/crypto/uid.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/crypto/uid.cpp b/core/crypto/uid.cpp
index 02511de..d04e785 100644
--- a/core/crypto/uid.cpp
+++ b/core/crypto/uid.cpp
@@ -2,6 +2,7 @@
 #include "../encoding/encoding.hpp"
 #include "../polyfill/polyfill.hpp"
 
+#include <mutex>
 #include <random>
 
 using namespace Lambda;
@@ -9,6 +10,7 @@ using namespace Lambda::Crypto;
 
 static auto rng_gen = std::mt19937(std::random_device{}());
 static auto rng_dist = std::uniform_int_distribution<int32_t>(1, std::numeric_limits<int32_t>::max());
+static std::mutex rng_mtx;
 
 ShortID::ShortID() {
 	this->update();
@@ -35,7 +37,11 @@ ShortID& ShortID::operator=(const ShortID& other) noexcept {
 }
 
 void ShortID::update() noexcept {
-	this->m_id.u32 = rng_dist(rng_gen);
+	{
+		//	connections are served by different threads
+		std::lock_guard<std::mutex> lock(rng_mtx);
+		this->m_id.u32 = rng_dist(rng_gen);
+	}
 	this->m_serialize();
 }
 
-- 
2.43.0


From 571aa55eddf3738321252e08913a6625196807b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:39 +0000
Subject: [PATCH 88/88] fix: connection workers were told to stop through
 unsynchronised flags

---
 core/server/instance.cpp |  2 +-
 core/server/worker.hpp   | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index 11455b5..793f28c 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -90,7 +90,7 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 				this->m_connections_count++;
 
 				auto& nextWorker = this->m_connections.front();
-				nextWorker.shutdownFlag = this->m_terminated;
+				nextWorker.shutdownFlag = this->m_terminated.load();
 
 				try {
 					nextWorker.worker = std::thread([&](WorkerContext& worker) {
diff --git a/core/server/worker.hpp b/core/server/worker.hpp
index 1c8c86b..097a2a9 100644
--- a/core/server/worker.hpp
+++ b/core/server/worker.hpp
@@ -3,6 +3,7 @@
 
 #include "../network/tcp/connection.hpp"
 
+#include <atomic>
 #include <thread>
 
 namespace Lambda {
@@ -10,8 +11,16 @@ namespace Lambda {
 	struct WorkerContext {
 		Network::TCP::Connection conn;
 		std::thread worker;
-		bool shutdownFlag = false;
-		bool finished = false;
+		//	these are set by one thread and read by another
+		std::atomic<bool> shutdownFlag { false };
+		std::atomic<bool> finished { false };
+
+		WorkerContext(Network::TCP::Connection&& init) noexcept : conn(std::move(init)) {}
+		WorkerContext(WorkerContext&& other) noexcept :
+			conn(std::move(other.conn)),
+			worker(std::move(other.worker)),
+			shutdownFlag(other.shutdownFlag.load()),
+			finished(other.finished.load()) {}
 	};
 };
 
-- 
2.43.0

