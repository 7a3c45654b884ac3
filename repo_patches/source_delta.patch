From 2b79e19901b5d808e4977d97a274595911907e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 01/97] fix: do not write past the end of a full fixed-size
 buffer when appending a character

---
 bomba_core.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index dd55d41..9d8ac26 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -421,6 +421,9 @@ public:
 	GeneralisedBuffer(const BufferType& buffer) : _buffer(buffer) {}
 
 	GeneralisedBuffer& operator+=(char added) {
+		if (_buffer.empty()) [[unlikely]] {
+			return *this; // Full and not able to make more space
+		}
 		*_buffer.begin() = added;
 		_buffer = BufferType(_buffer.begin() + 1, _buffer.end());
 		_size++;
-- 
2.43.0


From f69c516a73e6d808c1e7aa50952f2b845eea65bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 02/97] fix: report size 0 of a buffer after it was cleared

---
 bomba_core.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 9d8ac26..aebd09a 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -468,6 +468,10 @@ protected:
 	int remainingSpace() const {
 		return _buffer.size();
 	}
+	void restart(const BufferType& newBuffer) {
+		_buffer = newBuffer;
+		_size = 0;
+	}
 };
 
 template <int StaticSize = 1024>
@@ -524,7 +528,7 @@ public:
 	}
 
 	void clear() {
-		moveBuffer({_basic.data(), _basic.size()});
+		restart({_basic.data(), _basic.size()});
 	}
 };
 
@@ -575,7 +579,7 @@ public:
 
 	void clear() {
 		_extended.resize(0);
-		moveBuffer({_basic.data(), _basic.size()});
+		restart({_basic.data(), _basic.size()});
 	}
 };
 
-- 
2.43.0


From c3a6af561b79e1e5a4f80699da79cdbbef144dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 03/97] fix: do not send data again after an explicit flush of
 a streaming buffer

---
 bomba_core.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index aebd09a..d90e1f4 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -500,6 +500,7 @@ struct NonOwningStreamingBuffer : StreamingBuffer<StaticSize> {
 		if (this->size() > this->_sizeAtLastFlush) {
 			writer({this->_basic.data(), size_t(this->size() - this->_sizeAtLastFlush)});
 			this->_sizeAtLastFlush = this->size();
+			this->moveBuffer({this->_basic.data(), StaticSize});
 		}
 	}
 	NonOwningStreamingBuffer(Callback<void(std::span<const char>)> writer) : writer(writer) {}
-- 
2.43.0


From 0fdab4430bbbb99b5f59b10c268d4c33ae113535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 04/97] fix: do not read past the end of malformed first lines
 of HTTP messages or throw because of them

---
 bomba_http.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 1cb847a..f6db7a0 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -631,7 +631,7 @@ public:
 
 			virtual bool firstLineReader(std::string_view firstLine) override {
 				int separator1 = 0;
-				while (firstLine[separator1] != ' ' && separator1 < std::ssize(firstLine))
+				while (separator1 < std::ssize(firstLine) && firstLine[separator1] != ' ')
 					separator1++;
 				std::string_view methodName = firstLine.substr(0, separator1);
 				if (methodName == "GET")
@@ -643,8 +643,10 @@ public:
 
 				separator1++;
 				int separator2 = separator1;
-				while (firstLine[separator2] != ' ' && separator2 < std::ssize(firstLine))
+				while (separator2 < std::ssize(firstLine) && firstLine[separator2] != ' ')
 					separator2++;
+				if (separator2 >= std::ssize(firstLine))
+					return false; // No protocol
 				path = std::pair<int, int>(separator1, separator2 - separator1);
 				separator2++;
 				std::string_view protocol = firstLine.substr(separator2, firstLine.size() - separator2);
@@ -844,13 +846,15 @@ class HttpClient : public IRpcResponder {
 
 		virtual bool firstLineReader(std::string_view firstLine) override {
 			int separator1 = 0;
-			while (firstLine[separator1] != ' ' && separator1 < std::ssize(firstLine))
+			while (separator1 < std::ssize(firstLine) && firstLine[separator1] != ' ')
 				separator1++;
 			separator1++;
+			if (separator1 >= std::ssize(firstLine))
+				return false; // No status code
 			int separator2 = separator1 + 1;
-			while (firstLine[separator2] != ' ' && separator2 < std::ssize(firstLine))
+			while (separator2 < std::ssize(firstLine) && firstLine[separator2] != ' ')
 				separator2++;
-			std::from_chars(&firstLine[separator1], &firstLine[separator2], resultCode);
+			std::from_chars(firstLine.data() + separator1, firstLine.data() + separator2, resultCode);
 			return true;
 		}
 		virtual void headerReader(std::string_view, std::string_view, std::pair<int, int>) override { }
-- 
2.43.0


From eec0619322bf71a860fad81f29beaaa347ccf3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 05/97] fix: refuse negative, overflowing and garbled HTTP
 content lengths

---
 bomba_http.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index f6db7a0..0294e24 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -117,7 +117,14 @@ struct HttpParseState {
 
 			// Use the data
 			if (attributeName == "content-length") {
-				std::from_chars(&*attributeValue.begin(), &*attributeValue.end(), bodySize);
+				const char* end = attributeValue.data() + attributeValue.size();
+				auto parsed = std::from_chars(attributeValue.data(), end, bodySize);
+				while (parsed.ptr != end && (*parsed.ptr == ' ' || *parsed.ptr == '\t'))
+					parsed.ptr++;
+				if (parsed.ec != std::errc() || parsed.ptr != end || bodySize < 0) {
+					bodySize = -1;
+					return {ServerReaction::DISCONNECT, 0};
+				}
 			} else
 				headerReader(attributeName, attributeValue, std::pair<int, int>(attributeValueStart, attributeValue.size()));
 
@@ -687,12 +694,12 @@ public:
 					return { ServerReaction::DISCONNECT, 0}; // The size was not in the header
 				}
 			} else _state.bodySize = 0;
-			int consuming = _state.parsePosition + _state.bodySize;
+			int64_t consuming = int64_t(_state.parsePosition) + _state.bodySize;
 			
 			// All body has beed read
 			if (_state.requestType == ParseState::GET_REQUEST || _state.requestType == ParseState::POST_REQUEST) [[likely]] {
 				if (_state.requestType == ParseState::POST_REQUEST) {
-					if (_state.bodySize == -1 || std::ssize(input) < _state.parsePosition + _state.bodySize) {
+					if (_state.bodySize == -1 || std::ssize(input) < consuming) {
 						return {ServerReaction::READ_ON, input.size()};
 					}
 				}
@@ -918,7 +925,7 @@ public:
 					}
 				}
 
-				if (state.bodySize > 0 && std::ssize(input) < state.parsePosition + state.bodySize) {
+				if (state.bodySize > 0 && std::ssize(input) < int64_t(state.parsePosition) + state.bodySize) {
 					return {ServerReaction::READ_ON, RequestToken{}, input.size()};
 				}
 			
-- 
2.43.0


From 15aceea33390a4f0d7a163eb3e4e54ce48bb02bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 06/97] fix: skip the body of HTTP requests other than POST
 instead of taking it for the next request

---
 bomba_http.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 0294e24..d4f91c4 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -693,17 +693,17 @@ public:
 				if (_state.bodySize == -1) {
 					return { ServerReaction::DISCONNECT, 0}; // The size was not in the header
 				}
-			} else _state.bodySize = 0;
+			} else if (_state.bodySize == -1) {
+				_state.bodySize = 0;
+			}
 			int64_t consuming = int64_t(_state.parsePosition) + _state.bodySize;
 			
+			if (std::ssize(input) < consuming) {
+				return {ServerReaction::READ_ON, input.size()};
+			}
+
 			// All body has beed read
 			if (_state.requestType == ParseState::GET_REQUEST || _state.requestType == ParseState::POST_REQUEST) [[likely]] {
-				if (_state.requestType == ParseState::POST_REQUEST) {
-					if (_state.bodySize == -1 || std::ssize(input) < consuming) {
-						return {ServerReaction::READ_ON, input.size()};
-					}
-				}
-
 				bool success = false;
 				constexpr static char correctIntro[] = "HTTP/1.1 200 OK\r\nContent-Length:";
 				constexpr static char unsetSize[] = " 0         ";
-- 
2.43.0


From 5b1a1bcf77591c573a0569523c113945e729b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 07/97] fix: do not apply the content type of an earlier HTTP
 request to later ones of the connection

---
 bomba_http.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index d4f91c4..e8214ff 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -678,6 +678,9 @@ public:
 			auto restore = [this] () {
 				_state.reset();
 				_state.requestType = ParseState::UNINVESTIGATED_REQUEST;
+				_state.path = {};
+				_state.contentType = {};
+				_state.ending = ServerReaction::OK;
 			};
 
 			// Locate the header's span
@@ -795,8 +798,9 @@ public:
 									"<!doctype html><html lang=en><title>Error 501: Method not implemented</title>";
 				writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
 			}
+			ServerReaction ending = _state.ending;
 			restore();
-			return {_state.ending, consuming};
+			return {ending, consuming};
 		}
 		
 	
-- 
2.43.0


From 7cb810f6454faa98530c6c2bdbc364fb63aea423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 08/97] fix: end the status line of the HTTP 501 response
 correctly

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index e8214ff..3b3050c 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -793,7 +793,7 @@ public:
 				}
 			} else {
 				constexpr std::string_view errorMessage =
-									"HTTP/1.1 501 Method Not Implemented\n\r"
+									"HTTP/1.1 501 Method Not Implemented\r\n"
 									"Content-Length: 77\r\n\r\n"
 									"<!doctype html><html lang=en><title>Error 501: Method not implemented</title>";
 				writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
-- 
2.43.0


From d30f904801c54049873cdfb894637e513514491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 09/97] fix: do not send a second HTTP response if the request
 fails after its response was started

---
 bomba_http.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 3b3050c..7ded2b3 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -753,12 +753,17 @@ public:
 					}
 				};
 
-				WriteStarter correctResponseWriter = {writer};
+				bool sentSomething = false;
+				auto trackedWriter = [&] (std::span<const char> data) {
+					sentSomething = true;
+					writer(data);
+				};
+				WriteStarter correctResponseWriter = {trackedWriter};
 				std::string_view path{input.data() + _state.path.first, size_t(_state.path.second)};
 				try {
 					if (_state.requestType == ParseState::GET_REQUEST) {
 						success = _responders.getResponder.get(path, correctResponseWriter);
-						if (!success) [[unlikely]] {
+						if (!success && !sentSomething) [[unlikely]] {
 							constexpr std::string_view errorMessage =
 									"HTTP/1.1 404 Not Found\r\n"
 									"Content-Length: 73\r\n\r\n"
@@ -769,7 +774,7 @@ public:
 						std::span<char> body = {input.begin() + _state.parsePosition, input.begin() + _state.parsePosition + _state.bodySize};
 						std::string_view contentType = {input.data() + _state.contentType.first, size_t(_state.contentType.second)};
 						success = _responders.postResponder.post(path, contentType, body, correctResponseWriter);
-						if (!success) [[unlikely]] {
+						if (!success && !sentSomething) [[unlikely]] {
 							constexpr std::string_view errorMessage =
 									"HTTP/1.1 400 Bad Request\r\n"
 									"Content-Length: 66\r\n\r\n"
@@ -778,11 +783,16 @@ public:
 						}
 					}
 				} catch (...) {
-					constexpr std::string_view errorMessage =
-							"HTTP/1.1 500 Internal Server Error\r\n"
-							"Content-Length: 76\r\n\r\n"
-							"<!doctype html><html lang=en><title>Error 500: Internal server error</title>";
-					writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
+					success = false;
+					if (sentSomething) {
+						_state.ending = ServerReaction::DISCONNECT; // Too late for reporting the error
+					} else {
+						constexpr std::string_view errorMessage =
+								"HTTP/1.1 500 Internal Server Error\r\n"
+								"Content-Length: 76\r\n\r\n"
+								"<!doctype html><html lang=en><title>Error 500: Internal server error</title>";
+						writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
+					}
 				}
 				if (success) {
 					if (correctResponseWriter.startedResponse) {
-- 
2.43.0


From afd2458034ce31edd3d7586a523194f0d108e3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 10/97] fix: do not truncate the announced size of HTTP
 responses to 32 bits

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 7ded2b3..60aa7c5 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -719,7 +719,7 @@ public:
 
 					WriteStarter(decltype(writer) writer) : writer(writer) {}
 
-					void startCorrectResponse(GeneralisedBuffer& target, std::string_view contentType, std::optional<int> size = std::nullopt) {
+					void startCorrectResponse(GeneralisedBuffer& target, std::string_view contentType, std::optional<int64_t> size = std::nullopt) {
 						startedResponse = true;
 						target += correctIntro;
 						if (!size.has_value()) {
-- 
2.43.0


From b17875258e9ec20a021e9ff6cf3223f85164e1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 11/97] fix: use the right key when updating a map that is not
 empty

---
 bomba_core.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index d90e1f4..ffc1014 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1122,12 +1122,11 @@ struct TypedSerialiser<Map> {
 			// Manipulating a set of names that were already used would be annoying
 			Map result;
 			in.readObject(flags, [&] (std::optional<std::string_view> elementName, int) {
-				auto found = value.find(typename Map::key_type(*elementName));
-				if (found != value.end()) {
-					TypedSerialiser<ValueType>::deserialiseMember(in, found->second, flags);
-					result[typename Map::key_type(*elementName)] = std::move(found->second);
-				} else
-					TypedSerialiser<ValueType>::deserialiseMember(in, result[typename Map::key_type(*elementName)], flags);
+				typename Map::key_type key(*elementName); // The name is overwritten when the value is read
+				auto found = value.find(key);
+				if (found != value.end() && result.find(key) == result.end())
+					result[key] = std::move(found->second);
+				TypedSerialiser<ValueType>::deserialiseMember(in, result[key], flags);
 				return true;
 			});
 			std::swap(result, value);
-- 
2.43.0


From 8af63854f10168e9058dbdb7eda4a3d7ddcd9b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 12/97] fix: write and read the keys of maps that are members
 or arguments in formats that omit known names

---
 bomba_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index ffc1014..2441ce9 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1101,6 +1101,7 @@ template <SerialisableMap Map>
 struct TypedSerialiser<Map> {
 	using ValueType = std::decay_t<decltype(std::declval<Map>().begin()->second)>;
 	static void serialiseMember(IStructuredOutput& out, const Map& value, SerialisationFlags::Flags flags) {
+		flags = SerialisationFlags::Flags(flags & ~SerialisationFlags::OBJECT_LAYOUT_KNOWN); // Keys are never known
 		out.startWritingObject(flags, value.size());
 		int index = 0;
 		for (auto& it : value) {
@@ -1112,6 +1113,7 @@ struct TypedSerialiser<Map> {
 	}
 
 	static void deserialiseMember(IStructuredInput& in, Map& value, SerialisationFlags::Flags flags) {
+		flags = SerialisationFlags::Flags(flags & ~SerialisationFlags::OBJECT_LAYOUT_KNOWN); // Keys are never known
 		if (value.empty()) {
 			in.readObject(flags, [&] (std::optional<std::string_view> elementName, int) { // Yes, there is an assignment
 				TypedSerialiser<ValueType>::deserialiseMember(in, value[typename Map::key_type(*elementName)], flags);
-- 
2.43.0


From 72f9b08a1403238719c2dbc1e3da90e49610bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 13/97] fix: skip the elements of an array that do not fit into
 std::array

---
 bomba_core.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 2441ce9..5ebe684 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1022,8 +1022,11 @@ struct TypedSerialiser<std::array<T, size>> {
 
 	static void deserialiseMember(IStructuredInput& in, std::array<T, size>& value, SerialisationFlags::Flags flags) {
 		in.startReadingArray(flags);
-		for (int i = 0; i < int(size) && in.nextArrayElement(flags); i++) {
-			TypedSerialiser<T>::deserialiseMember(in, value[i], flags);
+		for (int i = 0; in.nextArrayElement(flags); i++) {
+			if (i < int(size))
+				TypedSerialiser<T>::deserialiseMember(in, value[i], flags);
+			else
+				in.skipObjectElement(flags);
 		}
 		in.endReadingArray(flags);
 	}
-- 
2.43.0


From 9aefa56a4a55c91be211acfe3e8fb6556efa28b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 14/97] fix: read objects that have more members than the class

---
 bomba_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index 4e6bbdc..9bb7c66 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -440,7 +440,7 @@ protected:
 			}
 #else
 			ObjectInfo<Child>::deserialise(format, this, flags, name, index);
-			return (index < ObjectInfo<Child>::size - 1); // True if not the last one
+			return (name.has_value() || index < ObjectInfo<Child>::size - 1); // True if not the last one
 #endif
 		});
 		return format.good;
-- 
2.43.0


From 63c35e4fb3d0e82dd831a2557df106603a6dc941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 15/97] fix: escape control characters in JSON strings
 correctly

---
 bomba_json.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 8761feb..dae1643 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -292,9 +292,18 @@ struct BasicJson {
 		void writeString(Flags flags, std::string_view value) final override {
 			_contents += '"';
 			for (const char it : value) {
-				if (it == '\\' || it == '\n' || it == '"') [[unlikely]]
+				if (it == '\\' || it == '"') [[unlikely]] {
 					_contents += '\\';
-				_contents += it;
+					_contents += it;
+				} else if (it == '\n') [[unlikely]] {
+					_contents += "\\n";
+				} else if (it >= 0 && it < ' ') [[unlikely]] { // Other control characters
+					constexpr static char digits[] = "0123456789abcdef";
+					_contents += "\\u00";
+					_contents += digits[it >> 4];
+					_contents += digits[it & 0xf];
+				} else
+					_contents += it;
 			}
 			_contents += '"';
 		}
-- 
2.43.0


From bb2e7b348a926b9ae442c63cd129be39cc222487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 16/97] fix: read all escape sequences of JSON strings

---
 bomba_json.hpp | 75 ++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 66 insertions(+), 9 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index dae1643..1675076 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -57,6 +57,69 @@ struct BasicJson {
 			return '\0';
 		}
 		
+		int readHex() {
+			int result = 0;
+			for (int i = 0; i < 4; i++) {
+				char digit = getChar();
+				result <<= 4;
+				if (digit >= '0' && digit <= '9')
+					result += digit - '0';
+				else if (digit >= 'a' && digit <= 'f')
+					result += digit - 'a' + 10;
+				else if (digit >= 'A' && digit <= 'F')
+					result += digit - 'A' + 10;
+				else [[unlikely]]
+					fail("Invalid escape sequence in JSON string");
+			}
+			return result;
+		}
+
+		// Reads what follows after the backslash
+		void readEscaped() {
+			char readingChar = getChar();
+			if (readingChar == '\\' || readingChar == '"' || readingChar == '/')
+				_resultBuffer += readingChar;
+			else if (readingChar == 'n')
+				_resultBuffer += '\n';
+			else if (readingChar == 't')
+				_resultBuffer += '\t';
+			else if (readingChar == 'r')
+				_resultBuffer += '\r';
+			else if (readingChar == 'b')
+				_resultBuffer += '\b';
+			else if (readingChar == 'f')
+				_resultBuffer += '\f';
+			else if (readingChar == 'u') {
+				int code = readHex();
+				if (code >= 0xd800 && code < 0xdc00 && _contents.substr(_position, 2) == "\\u") { // Surrogate pair
+					int start = _position;
+					_position += 2;
+					int low = readHex();
+					if (low >= 0xdc00 && low < 0xe000)
+						code = 0x10000 + ((code - 0xd800) << 10) + (low - 0xdc00);
+					else
+						_position = start;
+				}
+				if (code < 0x80) {
+					_resultBuffer += char(code);
+				} else {
+					if (code < 0x800) {
+						_resultBuffer += char(0b11000000 + (code >> 6));
+					} else {
+						if (code < 0x10000) {
+							_resultBuffer += char(0b11100000 + (code >> 12));
+						} else {
+							_resultBuffer += char(0b11110000 + (code >> 18));
+							_resultBuffer += char(0b10000000 + ((code >> 12) & 0b00111111));
+						}
+						_resultBuffer += char(0b10000000 + ((code >> 6) & 0b00111111));
+					}
+					_resultBuffer += char(0b10000000 + (code & 0b00111111));
+				}
+			} else [[unlikely]]
+				fail("Invalid escape sequence in JSON string");
+		}
+
 		void eatWhitespace() {
 			char nextChar = peekChar<false>();
 			while (nextChar == ' ' || nextChar == '\t' || nextChar == '\n' || nextChar == '\r'
@@ -134,15 +197,9 @@ struct BasicJson {
 			_resultBuffer.clear();
 			readingChar = getChar();
 			while (readingChar != '"') {
-				if (readingChar == '\\') [[unlikely]] {
-					readingChar = getChar();
-					if (readingChar == '\\')
-						_resultBuffer += '\\';
-					else if (readingChar == '"')
-						_resultBuffer += '"';
-					else if (readingChar == 'n')
-						_resultBuffer += '\n';
-				} else _resultBuffer += readingChar;
+				if (readingChar == '\\') [[unlikely]]
+					readEscaped();
+				else _resultBuffer += readingChar;
 				readingChar = getChar();
 			}
 			return _resultBuffer;
-- 
2.43.0


From 54005e88ce08b69a16f7da2220aaca3b6bcdcb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 17/97] fix: do not write garbage instead of long numbers into
 JSON

---
 bomba_json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 1675076..651284b 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -322,7 +322,7 @@ struct BasicJson {
 		
 		template <typename Num>
 		void writeValue(Num value) {
-			constexpr int SIZE = 20;
+			constexpr int SIZE = 32; // Doubles need up to 24 characters
 			std::array<char, SIZE> bytes = {};
 			std::to_chars(bytes.data(), bytes.data() + SIZE, value);
 			_contents += &bytes[0];
-- 
2.43.0


From 5e1636fac24a0ef9984e6a99cfe99fda80c6185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 18/97] fix: skip exactly one element when skipping unknown
 members of JSON objects

---
 bomba_json.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 651284b..7f3abda 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -279,18 +279,23 @@ struct BasicJson {
 					depth++;
 					getChar();
 				} else if (readingChar == '}' || readingChar == ']') {
+					if (depth == 0)
+						break; // Belongs to the object or array that contains the skipped element
 					depth--;
 					getChar();
-					if (depth <= 0)
+					if (depth == 0)
 						break;
 				} else if (depth == 0 && (readingChar == ' ' || readingChar == '\t'
 						|| readingChar == '\r' || readingChar == '\n' || readingChar == ',')) {
 					break; // eatWhitespace() was called before
 				} else if (readingChar == '"') {
 					getChar();
-					do {
+					readingChar = getChar();
+					while (readingChar != '"') {
+						if (readingChar == '\\')
+							getChar();
 						readingChar = getChar();
-					} while (readingChar != '"' && _contents[_position - 1] != '\\');
+					}
 				} else { // Numbers, bool, null...
 					getChar();
 				}
-- 
2.43.0


From 0f9077120a74bbb1a3d9927c1a7401f39eb3a367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 19/97] fix: recognise negative floating point numbers in JSON

---
 bomba_json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 7f3abda..e6d412a 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -142,7 +142,7 @@ struct BasicJson {
 			if (nextChar == '"')
 				return TYPE_STRING;
 			if (nextChar == '-' || (nextChar >= '0' && nextChar <= '9')) {
-				for (int i = _position; _contents.begin() + i < _contents.end(); i++) {
+				for (int i = _position + 1; _contents.begin() + i < _contents.end(); i++) {
 					if (_contents[i] == '.' || _contents[i] == 'e' || _contents[i] == 'E')
 						return TYPE_FLOAT;
 					if (_contents[i] < '0' || _contents[i] > '9')
-- 
2.43.0


From f73df593474ce80368cef614dd83dd0d87847129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 20/97] fix: read integers at the end of JSON input

---
 bomba_json.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index e6d412a..b8c3712 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -170,10 +170,10 @@ struct BasicJson {
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected JSON integer");
 			// Deal with floats sent instead of integers
-			char next = peekChar();
-			while ((next >= '0' && next <= '9') || next == '.' || next == 'e' || next == 'E' || next == '-') {
+			char next = peekChar<false>();
+			while ((next >= '0' && next <= '9') || next == '.' || next == 'e' || next == 'E' || next == '-' || next == '+') {
 				_position++;
-				next = peekChar();
+				next = peekChar<false>();
 			}
 			return result;
 		}
-- 
2.43.0


From b70dfdc0ed7aa688d6b3dc0f123f052b44c483f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 21/97] fix: read also the last elements of arrays in binary
 messages

---
 bomba_binary_protocol.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index b970424..fa8430d 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -67,6 +67,7 @@ struct BinaryFormat {
 		std::span<const char> _contents;
 		int _position = 0;
 		std::array<int, MaxDepth> _sizes;
+		std::array<int, MaxDepth> _starts; // Positions of first elements if not read yet, -1 otherwise
 		int _depth = -1;
 
 		template <typename T>
@@ -134,9 +135,12 @@ struct BinaryFormat {
 			if (_depth == MaxDepth)
 				throw std::logic_error("Maximal depth of nested arrays exceeded, increase it in the template arguments!");
 			_sizes[_depth] = readSize(flags);
+			_starts[_depth] = _position;
 		}
 		bool nextArrayElement(Flags) final override {
-			_sizes[_depth]--;
+			if (_starts[_depth] != _position) // If nothing was read yet, the first element is the next one
+				_sizes[_depth]--;
+			_starts[_depth] = -1;
 			return (_sizes[_depth] > 0);
 		}
 		void endReadingArray(Flags) final override {
-- 
2.43.0


From 6b3131f572165e931677a26fff77c9c444c7875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 22/97] fix: write sizes in binary messages once and with the
 right type if the type of elements is set

---
 bomba_binary_protocol.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index fa8430d..93c18f4 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -83,9 +83,8 @@ struct BinaryFormat {
 			return value;
 		}
 		int64_t readSize(Flags flags) {
-			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				readInt(flags);
-			return readInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())));
+			return readInt(SerialisationFlags::Flags((flags & ~SerialisationFlags::DETERMINED_NUMERIC_TYPE)
+					| SerialisationFlags::typeToFlags(SizeType())));
 		}
 	public:
 		Input(std::string_view contents) : _contents(contents.data(), contents.size()) {}
@@ -187,9 +186,8 @@ struct BinaryFormat {
 		OutputStringType& _contents;
 		
 		void writeSize(SerialisationFlags::Flags flags, int64_t size) {
-			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				writeInt(flags, size);
-			return writeInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())), size);
+			return writeInt(SerialisationFlags::Flags((flags & ~SerialisationFlags::DETERMINED_NUMERIC_TYPE)
+					| SerialisationFlags::typeToFlags(SizeType())), size);
 		}
 	public:
 		Output(OutputStringType& contents) : _contents(contents) {}
-- 
2.43.0


From bb79e24a130c8500b7df25dab972d1aee1844d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 23/97] fix: refuse to write strings and arrays whose size does
 not fit into the binary format

---
 bomba_binary_protocol.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 93c18f4..f112869 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -11,6 +11,7 @@
 #include <cstring>
 #include <cmath>
 #include <bit>
+#include <limits>
 
 namespace Bomba {
 
@@ -186,6 +187,8 @@ struct BinaryFormat {
 		OutputStringType& _contents;
 		
 		void writeSize(SerialisationFlags::Flags flags, int64_t size) {
+			if (uint64_t(size) > uint64_t(std::numeric_limits<SizeType>::max())) [[unlikely]]
+				logicError("Too large for the type of sizes of the binary protocol");
 			return writeInt(SerialisationFlags::Flags((flags & ~SerialisationFlags::DETERMINED_NUMERIC_TYPE)
 					| SerialisationFlags::typeToFlags(SizeType())), size);
 		}
-- 
2.43.0


From 902ef0dc85b1b4e9672232e09c675e5a7a3164af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 24/97] fix: encode U+0800 in UTF-8 correctly when reading HTTP
 forms

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 60aa7c5..689dd85 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -178,7 +178,7 @@ void demangleHttpResponse(std::string_view input, StringType& output) {
 				if (value < 0x80)
 					output += value;
 				else {
-					if (value > 0x800) {
+					if (value >= 0x800) {
 						if (value >= 0x10000) {
 							output += 0b11110000 + (value >> 18);
 							output += 0b10000000 + ((value >> 12) & 0b00111111);
-- 
2.43.0


From 1128d25d7fb6f0fdce2bf8116b7ea24575017403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 25/97] fix: write and read long and escaped numbers in HTTP
 forms correctly

---
 bomba_http.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 689dd85..fda75e1 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -352,10 +352,9 @@ struct HtmlMessageEncoding {
 		}
 
 		int64_t readInt(Flags) final override {
-			int end = getEnd();
+			std::string_view demangled = demangleTillEnd();
 			int64_t result = 0;
-			std::from_chars_result got = std::from_chars(&_contents[_position], &_contents[end], result);
-			_position = end;
+			std::from_chars_result got = std::from_chars(demangled.data(), demangled.data() + demangled.size(), result);
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected integer");
 			return result;
@@ -364,7 +363,6 @@ struct HtmlMessageEncoding {
 			std::string_view demangled = demangleTillEnd();
 			double result = 0;
 			std::from_chars_result got = std::from_chars(demangled.data(), demangled.data() + demangled.size(), result);
-			_position += got.ptr - &_contents[_position];
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected double");
 			return result;
@@ -438,10 +436,10 @@ struct HtmlMessageEncoding {
 
 		template <typename Num>
 		void writeValue(Num value) {
-			constexpr int SIZE = 20;
+			constexpr int SIZE = 32; // Doubles need up to 24 characters
 			std::array<char, SIZE> bytes = {};
 			std::to_chars(bytes.data(), bytes.data() + SIZE, value);
-			_contents += &bytes[0];
+			mangleHttpResponse(&bytes[0], _contents); // The exponent can contain a plus
 		}
 	public:
 		Output(OutputStringType& contents) : _contents(contents) {}
-- 
2.43.0


From 0c92aa00e8fd0d7ddf0ca0c389882cd3eff62650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 26/97] fix: skip only one element when skipping an empty
 element of a HTTP form

---
 bomba_http.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index fda75e1..0a655fa 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -410,8 +410,6 @@ struct HtmlMessageEncoding {
 			_objectStarted = false;
 		}
 		void skipObjectElement(Flags) final override {
-			if (_contents[_position] == '&')
-				_position++;
 			while (_position < std::ssize(_contents) && _contents[_position] != '&')
 				_position++;
 		}
-- 
2.43.0


From cd0bc717cd3115e55845e8cb7fca653571a207d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 27/97] fix: identify types of elements of HTTP forms correctly

---
 bomba_http.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 0a655fa..27bb748 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -329,23 +329,25 @@ struct HtmlMessageEncoding {
 			bool exponentWasUsed = false;
 			bool decimalWasUsed = false;
 			bool canBeInt = true;
+			if (demangledPos >= std::ssize(demangled))
+				return TYPE_STRING; // Only a minus sign
 			for (; demangledPos < std::ssize(demangled); demangledPos++) {
 				if (demangled[demangledPos] == 'e' || demangled[demangledPos] == 'E') {
 					if (exponentWasUsed) [[unlikely]]
 						return TYPE_STRING;
 					exponentWasUsed = true;
-					if (demangledPos >= std::ssize(demangled)) [[unlikely]]
-						return TYPE_STRING;
-					if (demangled[demangledPos] == '-')
+					if (demangledPos + 1 < std::ssize(demangled)
+							&& (demangled[demangledPos + 1] == '-' || demangled[demangledPos + 1] == '+'))
 						demangledPos++;
+					if (demangledPos + 1 >= std::ssize(demangled)) [[unlikely]]
+						return TYPE_STRING;
 					canBeInt = false;
 				} else if (demangled[demangledPos] == '.') {
 					if (decimalWasUsed || exponentWasUsed) [[unlikely]]
 						return TYPE_STRING;
 					decimalWasUsed = true;
 					canBeInt = false;
-				}
-				if (demangled[_position] < '0' || demangled[_position] > '9')
+				} else if (demangled[demangledPos] < '0' || demangled[demangledPos] > '9')
 					return TYPE_STRING;
 			}
 			return canBeInt ? TYPE_INTEGER : TYPE_FLOAT;
-- 
2.43.0


From 74dd33f995aeaa7af7f53c146fcf078c5590e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 28/97] fix: escape names of elements of HTTP forms

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 27bb748..831e527 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -482,7 +482,7 @@ struct HtmlMessageEncoding {
 		void introduceObjectMember(Flags, std::string_view name, int) final override {
 			if (_objectIndex != 0)
 				_contents += '&';
-			_contents += name.data();
+			mangleHttpResponse(name, _contents);
 			_contents += '=';
 			_objectIndex++;
 		}
-- 
2.43.0


From 2b44616722ddb09dfc6aec66842961c768b9887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 29/97] fix: do not let texts that look like escaped characters
 change when sent in HTTP forms

---
 bomba_http.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 831e527..12e9d98 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -244,6 +244,8 @@ void mangleHttpResponse(std::string_view input, StringType& output) {
 		unsigned char letter = *reinterpret_cast<const unsigned char*>(&input[i]);
 		if (letter == ' ')
 			output += '+';
+		else if (letter == '&' && i + 1 < std::ssize(input) && input[i + 1] == '#')
+			output += "%26%2338%3b"; // Would be understood as a start of an escaped character
 		else if (letter <= 0x7f) [[likely]]
 			encodeOne(letter);
 		else {
-- 
2.43.0


From a4d916f60b073bc0c132475fd639c96bab3463b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 30/97] fix: read empty optional elements of HTTP forms that
 were written as empty

---
 bomba_http.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 12e9d98..dc76cd1 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -418,7 +418,9 @@ struct HtmlMessageEncoding {
 				_position++;
 		}
 
-		bool readOptional(Flags, Callback<> readValue) override {
+		bool readOptional(Flags flags, Callback<> readValue) override {
+			if ((flags & SerialisationFlags::EMPTY_IS_NULL) && getEnd() == _position)
+				return false;
 			readValue(); // HTTP has no null, so if the value is present, it exists
 			return true;
 		}
-- 
2.43.0


From 2547279791d7729e5cf330e1e9a870be337bafcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 31/97] fix: do not take a name without value in a HTTP form
 for a part of the next name

---
 bomba_http.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index dc76cd1..c2775c9 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -403,11 +403,12 @@ struct HtmlMessageEncoding {
 				if (_contents[_position] == '&')
 					_position++;
 				int start = _position;
-				while (_position < std::ssize(_contents) && _contents[_position] != '=')
+				while (_position < std::ssize(_contents) && _contents[_position] != '=' && _contents[_position] != '&')
 					_position++;
 				_demangled.clear();
 				demangleHttpResponse(_contents.substr(start, _position - start), _demangled);
-				_position++;
+				if (_position < std::ssize(_contents) && _contents[_position] == '=')
+					_position++;
 				onEach(_demangled, index);
 				index++;
 			}
-- 
2.43.0


From 25420060dc1d269a739d371d97b16d2e254b2a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 32/97] fix: convert 16 bit floating point numbers by value

---
 bomba_core.hpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 5ebe684..2ffb345 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -93,12 +93,30 @@ auto makeRaiiContainer(Resource&& resource, Destruction&& destruction) {
 struct Float16Placeholder {
 	uint16_t data;
 	Float16Placeholder& operator=(float value) {
-		uint32_t asInt = reinterpret_cast<uint32_t&>(value);
-		data = ((asInt >> 16) & 0x8000) | ((((asInt & 0x7f800000) - 0x38000000) >> 13 ) & 0x7c00) | ((asInt >> 13) & 0x03ff);
+		uint32_t asInt;
+		memcpy(&asInt, &value, sizeof(asInt));
+		uint32_t sign = (asInt >> 16) & 0x8000;
+		uint32_t absolute = asInt & 0x7fffffff;
+		if (absolute >= 0x7f800000) // Infinity or NaN
+			data = sign | 0x7c00 | ((absolute > 0x7f800000) ? 0x0200 : 0);
+		else if (absolute >= 0x47800000) // Too large
+			data = sign | 0x7c00;
+		else if (absolute >= 0x38800000) // Normal number
+			data = sign | ((absolute - 0x38000000) >> 13);
+		else // Subnormal number or zero
+			data = sign | uint32_t((value < 0 ? -value : value) * 16777216.0f);
 		return *this;
 	}
 	operator float() const {
-		return ((data & 0x8000) << 16) | (((data & 0x7c00) + 0x1C000) << 13) | ((data & 0x03ff) << 13);
+		float result;
+		if ((data & 0x7c00) == 0) { // Subnormal number or zero
+			result = (data & 0x03ff) / 16777216.0f;
+			return (data & 0x8000) ? -result : result;
+		}
+		uint32_t exponent = (data & 0x7c00) == 0x7c00 ? 0x7f800000 : (((data & 0x7c00) + 0x1C000) << 13);
+		uint32_t asInt = ((data & 0x8000) << 16) | exponent | ((data & 0x03ff) << 13);
+		memcpy(&result, &asInt, sizeof(result));
+		return result;
 	}
 };
 
-- 
2.43.0


From a728c7c38fad2878d5e80828f301e92a69e71b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 33/97] fix: do not take large sizes in binary messages for
 negative ones

---
 bomba_binary_protocol.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index f112869..0528344 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -67,7 +67,7 @@ struct BinaryFormat {
 	class Input : public IStructuredInput {
 		std::span<const char> _contents;
 		int _position = 0;
-		std::array<int, MaxDepth> _sizes;
+		std::array<int64_t, MaxDepth> _sizes;
 		std::array<int, MaxDepth> _starts; // Positions of first elements if not read yet, -1 otherwise
 		int _depth = -1;
 
@@ -84,8 +84,14 @@ struct BinaryFormat {
 			return value;
 		}
 		int64_t readSize(Flags flags) {
-			return readInt(SerialisationFlags::Flags((flags & ~SerialisationFlags::DETERMINED_NUMERIC_TYPE)
+			int64_t size = readInt(SerialisationFlags::Flags((flags & ~SerialisationFlags::DETERMINED_NUMERIC_TYPE)
 					| SerialisationFlags::typeToFlags(SizeType())));
+			if (size < 0) [[unlikely]] {
+				parseError("Incomplete request");
+				good = false;
+				return 0;
+			}
+			return size;
 		}
 	public:
 		Input(std::string_view contents) : _contents(contents.data(), contents.size()) {}
-- 
2.43.0


From 8015f733897ad2398779ba9aae434d2afc740771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 34/97] fix: find the positions of empty optional members of
 objects correctly

---
 bomba_object.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index 9bb7c66..ae1b96a 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -319,10 +319,9 @@ class Serialisable : public IDescribableSerialisable {
 				return value;
 			} else if constexpr(SerialisableOptionalBase<T> && SerialisableOptionalOrSmartPointer<T>) {
 				if (_setupInstance) [[unlikely]] {
-					// Can't assure here that the instance part of std::optional won't be left uninitialised if started as blank
+					// The instance part of std::optional would be left uninitialised if it was blank, even if only moved
 					T value;
 					value = std::decay_t<decltype(*value)>();
-					value = T(std::get<Enumeration>(_args)...);
 					return value;
 				} else {
 					return T(std::get<Enumeration>(_args)...);
-- 
2.43.0


From 18b6d1a4157e110b84f2a5ca86b0398b46d21e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 35/97] fix: read binary requests within the size they announce

---
 bomba_binary_protocol.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 0528344..f1c1bd4 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -266,16 +266,22 @@ public:
 	public:
 		std::pair<ServerReaction, int64_t> respond(
 				std::span<char> input, Callback<void(std::span<const char>)> writer) override {
-			if (input.size() < sizeof(int) + sizeof(SizeType))
+			constexpr size_t headerSize = sizeof(uint32_t) + sizeof(SizeType);
+			if (input.size() < headerSize)
 				return {ServerReaction::READ_ON, 0};
 
 			ExpandingBufferType outputBuffer;
-			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Input in(std::string_view(input.data(), input.size()));
+			using Input = typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter, MaxDepth>::Input;
 
-			int messageId = in.readInt(SerialisationFlags::UINT_32);
-			int inputSize = in.readInt(SerialisationFlags::typeToFlags(SizeType())); // We don't need the size
+			Input header(std::string_view(input.data(), headerSize));
+			uint32_t messageId = header.readInt(SerialisationFlags::UINT_32);
+			uint64_t inputSize = header.readInt(SerialisationFlags::typeToFlags(SizeType()));
+			if (inputSize < headerSize) [[unlikely]]
+				return {ServerReaction::DISCONNECT, 0};
 			if (input.size() < inputSize)
 				return {ServerReaction::READ_ON, 0};
+			// What follows after the announced size is another message
+			Input in(std::string_view(input.data() + headerSize, inputSize - headerSize));
 
 			const IRemoteCallable* target = &parent.callable;
 			while (target->getChild(0)) {
@@ -299,7 +305,7 @@ public:
 			std::string_view response = outputBuffer;
 			writer({response.data(), response.size()});
 
-			return {ServerReaction::OK, in.position()};
+			return {ServerReaction::OK, int64_t(inputSize)};
 		}
 	};
 
-- 
2.43.0


From f836f71cb6e4d988bd30b0ab92a066ab6a87c944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 36/97] fix: close the connection if a binary request fails
 instead of letting the exception escape or sending an error as a result

---
 bomba_binary_protocol.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index f1c1bd4..42b640c 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -266,6 +266,16 @@ public:
 	public:
 		std::pair<ServerReaction, int64_t> respond(
 				std::span<char> input, Callback<void(std::span<const char>)> writer) override {
+			try {
+				return respondInternal(input, writer);
+			} catch (...) { // There is no way to report an error to the client
+				return {ServerReaction::DISCONNECT, 0};
+			}
+		}
+
+	private:
+		std::pair<ServerReaction, int64_t> respondInternal(
+				std::span<char> input, Callback<void(std::span<const char>)>& writer) {
 			constexpr size_t headerSize = sizeof(uint32_t) + sizeof(SizeType);
 			if (input.size() < headerSize)
 				return {ServerReaction::READ_ON, 0};
@@ -296,9 +306,9 @@ public:
 			auto sizePosition = outputBuffer.size();
 			out.writeInt(SerialisationFlags::typeToFlags(SizeType()), 0);
 
-			target->call(&in, out, [&] {}, [&] (std::string_view problem) {
-				out.writeString(SerialisationFlags::typeToFlags(SizeType()), problem);
-			});
+			bool failed = false;
+			if (!target->call(&in, out, [&] {}, [&] (std::string_view) { failed = true; }) || failed) [[unlikely]]
+				return {ServerReaction::DISCONNECT, 0};
 			SizeType outputSize = outputBuffer.size();
 			memcpy(&std::span<char>(outputBuffer)[sizePosition], &outputSize, sizeof(outputSize));
 
-- 
2.43.0


From 7e36ee2e9e7fa6ce52c190281d5ea3607ebd2480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 37/97] fix: announce the sizes of binary responses in the
 right number format and only if they can be expressed

---
 bomba_binary_protocol.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 42b640c..623b173 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -309,8 +309,10 @@ public:
 			bool failed = false;
 			if (!target->call(&in, out, [&] {}, [&] (std::string_view) { failed = true; }) || failed) [[unlikely]]
 				return {ServerReaction::DISCONNECT, 0};
-			SizeType outputSize = outputBuffer.size();
-			memcpy(&std::span<char>(outputBuffer)[sizePosition], &outputSize, sizeof(outputSize));
+			if (uint64_t(outputBuffer.size()) > uint64_t(std::numeric_limits<SizeType>::max())) [[unlikely]]
+				return {ServerReaction::DISCONNECT, 0};
+			auto writtenSize = NumWriter::prepareNumber(SizeType(outputBuffer.size()));
+			memcpy(&std::span<char>(outputBuffer)[sizePosition], writtenSize.data(), writtenSize.size());
 
 			std::string_view response = outputBuffer;
 			writer({response.data(), response.size()});
-- 
2.43.0


From 25b7e9452089aeeb764f6b1ec194c0281d4ffe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 38/97] fix: call the lambda locally if there is no client
 instead of failing

---
 bomba_core.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 2ffb345..c856226 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -776,11 +776,9 @@ protected:
 		reparented->_responder = nullptr;
 	}
 	IRpcResponder* getResponder() const {
-		if (!_responder && _parent) [[unlikely]]
-			const_cast<IRpcResponder*&>(_responder) = _parent->getResponder(); // Lazy loading
-		if (!_responder) [[unlikely]]
-			logicError("Calling a remote procedure while not being a client");
-		return _responder;
+		if (!_responder && _parent)
+			return _parent->getResponder();
+		return _responder; // Nullptr if it's not a client
 	}
 
 public:
-- 
2.43.0


From ff80707e061274a8d815aeab9399fa99b50d2b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 39/97] fix: do not let nested callables use a client that was
 replaced in their parent

---
 bomba_core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index c856226..b821519 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -769,7 +769,7 @@ class IRemoteCallable {
 protected:
 	void setSelfAsParent(IRemoteCallable* reparented) {
 		reparented->_parent = this;
-		reparented->_responder = _responder;
+		reparented->_responder = nullptr; // Obtained from the parent, it may change
 	}
 	void unsetParent(IRemoteCallable* reparented) {
 		reparented->_parent = nullptr;
-- 
2.43.0


From ca80cdcac7c929025f1939a676ea3611256fc0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 40/97] fix: split paths by separators of any length

---
 bomba_core.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index b821519..6334cc9 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -836,10 +836,8 @@ struct PathWithSeparator {
 			auto end = start;
 			while (end != path.end()) {
 				for (int i = 0; (end + i) != path.end() && *(end + i) == Separator[i]; i++) {
-					if (i + 1 == Separator.size()) {
-						end += i;
+					if (i + 1 == Separator.size())
 						goto foundSeparator;
-					}
 				}
 				end++;
 			}
@@ -848,8 +846,9 @@ struct PathWithSeparator {
 			current = current->getChild(std::string_view(start, end));
 			if (!current)
 				return nullptr;
-			end++;
-			start = end;
+			if (end == path.end())
+				break;
+			start = end + Separator.size();
 		}
 		return current;
 	}
-- 
2.43.0


From 1858b4e237ab602f86b851a37707a5121d611829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 41/97] fix: make methods of copied and assigned RPC objects
 belong to the copy

---
 bomba_core.hpp       |  7 +++++++
 bomba_rpc_object.hpp | 20 ++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 6334cc9..4803e93 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -771,6 +771,9 @@ protected:
 		reparented->_parent = this;
 		reparented->_responder = nullptr; // Obtained from the parent, it may change
 	}
+	IRpcResponder* ownResponder() const {
+		return _responder;
+	}
 	void unsetParent(IRemoteCallable* reparented) {
 		reparented->_parent = nullptr;
 		reparented->_responder = nullptr;
@@ -784,6 +787,10 @@ protected:
 public:
 	IRemoteCallable(IRemoteCallable* parent = nullptr, IRpcResponder* responder = nullptr)
 			: _parent(parent), _responder(responder) {}
+	IRemoteCallable(const IRemoteCallable&) = default;
+	IRemoteCallable& operator=(const IRemoteCallable&) { // The place in the structure belongs to the instance
+		return *this;
+	}
 
 	IRemoteCallable* parent() const {
 		return _parent;
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 13dc257..91b7297 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -677,10 +677,26 @@ namespace Detail {
 	class RpcObjectCommon : public IRemoteCallable {
 	protected:
 
+		// The last object that was being created as a copy
+		inline static thread_local RpcObjectCommon* copyInProgress = nullptr;
+
 		RpcObjectCommon(RpcObjectCommon*& setup) {
 			setup = this;
 		}
+		RpcObjectCommon(const RpcObjectCommon& other) : IRemoteCallable(nullptr, other.ownResponder()) {
+			copyInProgress = this;
+		}
+		RpcObjectCommon& operator=(const RpcObjectCommon&) = default;
 	public:
+		// Makes the copy of the original a child of a copy of the original's parent if it's in the same place in it
+		template <auto Func, SerialisationFlags::Flags Flags>
+		static void adoptCopy(RpcStatelessLambda<Func, Flags>* copy, const IRemoteCallable* original) {
+			IRemoteCallable* newParent = copyInProgress;
+			if (newParent && original->parent() &&
+					reinterpret_cast<intptr_t>(static_cast<IRemoteCallable*>(copy)) - reinterpret_cast<intptr_t>(newParent)
+					== reinterpret_cast<intptr_t>(original) - reinterpret_cast<intptr_t>(original->parent()))
+				copyInProgress->addChild(copy);
+		}
 		template <auto Func, SerialisationFlags::Flags Flags>
 		void addChild(RpcStatelessLambda<Func, Flags>* added) {
 			setSelfAsParent(added);
@@ -806,6 +822,10 @@ struct RpcMember : public RpcStatelessLambda<Func, Flags> {
 		auto parent = reinterpret_cast<Detail::RpcObjectCommon*>(reinterpret_cast<intptr_t>(this) - offset);
 		parent->addChild(this);
 	}
+	RpcMember(const RpcMember& other) : RpcStatelessLambda<Func, Flags>(other) {
+		Detail::RpcObjectCommon::adoptCopy(this, &other);
+	}
+	RpcMember& operator=(const RpcMember&) = default;
 private:
 
 	constexpr static Detail::ChildGettingFunction childGetter = [] (const IRemoteCallable* parent, int offset) {
-- 
2.43.0


From eb6b3305c70fa98fe7c1fcf5a186b7525dd7ff8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 42/97] fix: allow storing nested objects in dynamic RPC
 objects

---
 bomba_dynamic_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index db04d7b..05d51dd 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -62,7 +62,7 @@ public:
 		: _isLocal(false)
 		, _owning(true)
 	{
-		_content.held = new T(std::move<T>(instance));
+		_content.held = new T(std::move(instance));
 	}
 
 	RpcLambdaHolder(RpcLambdaHolder&& other) {
-- 
2.43.0


From 12164336758f4dba1aa6772f2c146194173afc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 43/97] fix: destroy lambdas that were copied into
 RpcLambdaHolder

---
 bomba_dynamic_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index 05d51dd..275cf06 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -43,7 +43,7 @@ public:
 	template <IsAFunctor LambdaType>
 	RpcLambdaHolder(LambdaType&& from)
 		: _isLocal(sizeof(std::decay_t<RpcLambda<std::decay_t<LambdaType>>>) <= sizeof(_content.local) &&
-				std::is_trivially_destructible_v<LambdaType>)
+				std::is_trivially_destructible_v<std::decay_t<LambdaType>>)
 		, _owning(true)
 	{
 		//_descriptionFiller = RpcLambda<std::decay_t<LambdaType>>;
-- 
2.43.0


From b16f9d1629b43d7af05222b5d83ad30f2169a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 44/97] fix: do not look for children with negative indexes in
 dynamic RPC objects

---
 bomba_dynamic_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index 275cf06..151dbd3 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -164,7 +164,7 @@ public:
 		return nullptr;
 	}
 	const IRemoteCallable* getChild(int index) const override {
-		if (index < std::ssize(_contents))
+		if (index >= 0 && index < std::ssize(_contents))
 			return _contents[index].second.operator->();
 		else
 			return nullptr;
-- 
2.43.0


From ad382f6da319c8864b50d478722077beef4f534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 45/97] fix: describe nested and borrowed parts of dynamic RPC
 objects

---
 bomba_core.hpp           |  4 ++++
 bomba_dynamic_object.hpp | 13 ++++---------
 bomba_rpc_object.hpp     |  7 +++++++
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 4803e93..f58bebc 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -831,6 +831,10 @@ public:
 	virtual void generateDescription([[maybe_unused]] IRemoteCallableDescriptionFiller& filler) const {
 		// Not supported if not overloaded, does nothing
 	}
+	// Use the supplied interface to describe the function or object as a part of another object
+	virtual void addToDescription(std::string_view name, IRemoteCallableDescriptionFiller& filler) const {
+		filler.addSubobject(name, [&] (IRemoteCallableDescriptionFiller& nestedFiller) { generateDescription(nestedFiller); });
+	}
 	virtual ~IRemoteCallable() = default;
 };
 
diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index 151dbd3..6f22881 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -23,7 +23,6 @@ class RpcLambdaHolder {
 		IRemoteCallable* held = nullptr;
 		std::array<char, sizeof(RpcStatelessLambda<[] {}>) + 3 * sizeof(void*)> local;
 	} _content;
-	const Detail::RpcLambdaInformationHolder* _info = nullptr; // Not nullptr if it's leaf
 	bool _isLocal = {};
 	bool _owning = {};
 
@@ -48,12 +47,9 @@ public:
 	{
 		//_descriptionFiller = RpcLambda<std::decay_t<LambdaType>>;
 		if (_isLocal) {
-			auto made = new (&_content.local) RpcLambda<std::decay_t<LambdaType>>(std::forward<LambdaType>(from));
-			_info = &made->info;
+			new (&_content.local) RpcLambda<std::decay_t<LambdaType>>(std::forward<LambdaType>(from));
 		} else {
-			auto made = new RpcLambda<std::decay_t<LambdaType>>(std::forward<LambdaType>(from));
-			_info = &made->info;
-			_content.held = made;
+			_content.held = new RpcLambda<std::decay_t<LambdaType>>(std::forward<LambdaType>(from));
 		}
 	}
 
@@ -76,7 +72,6 @@ public:
 	RpcLambdaHolder& operator=(RpcLambdaHolder&& other) {
 		reset();
 		_isLocal = other._isLocal;
-		_info = other._info;
 		_owning = other._owning;
 		if (_isLocal) {
 			memcpy(&_content.local, &other._content.local, sizeof(_content.local));
@@ -101,11 +96,11 @@ public:
 	}
 
 	void listTypes(ISerialisableDescriptionFiller& filler) const {
-		_info->subtypesAdder(filler);
+		operator*().listTypes(filler);
 	}
 
 	void addToDescription(std::string_view name, IRemoteCallableDescriptionFiller& filler) const {
-		_info->unnamedChildAdder(name, filler);
+		operator*().addToDescription(name, filler);
 	}
 
 	static RpcLambdaHolder nonOwning(IRemoteCallable& referree) {
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 91b7297..e9be017 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -544,6 +544,13 @@ struct RpcLambdaInformationHolder {
 			}
 		});
 
+		void listTypes(ISerialisableDescriptionFiller& filler) const override {
+			info.subtypesAdder(filler);
+		}
+		void addToDescription(std::string_view name, IRemoteCallableDescriptionFiller& filler) const override {
+			info.unnamedChildAdder(name, filler);
+		}
+
 		template <StringLiteral Name>
 		constexpr static Detail::ChildDescribingFunction childAdder = [] (IRemoteCallableDescriptionFiller& filler) {
 			info.unnamedChildAdder(Name, filler);
-- 
2.43.0


From 1fb223aa57a2d4511ad9b673552f3318b417018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:49 +0000
Subject: [PATCH 46/97] fix: skip the values of arguments that the method does
 not have

---
 bomba_rpc_object.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index e9be017..d25bfbe 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -414,7 +414,8 @@ struct RpcLambdaInformationHolder {
 						IStructuredInput& in, int index, SerialisationFlags::Flags flags) {
 			constexpr int Index = usesParent() ? ArgIndex - 1 : ArgIndex;
 			if constexpr(ArgIndex >= argsSize) {
-				return;
+				if (name.has_value())
+					in.skipObjectElement(flags);
 			} else {
 				if ((name.has_value() && *name == argumentInfo[Index].name) || (!name.has_value() && Index == index))
 					TypedSerialiser<std::decay_t<decltype(std::get<ArgIndex>(args))>>::deserialiseMember(
-- 
2.43.0


From 1641fad8fed9636042e13fc050b0a3edce14ac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 47/97] fix: list also types that are used in members of other
 types or in arrays, maps and optional members

---
 bomba_core.hpp   | 7 +++++++
 bomba_object.hpp | 7 +------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index f58bebc..23230ba 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -998,6 +998,13 @@ struct TypedSerialiser<Serialisable> {
 		});
 	}
 	static void listTypes(ISerialisableDescriptionFiller& filler) {
+		static thread_local bool inProgress = false;
+		if (inProgress) // The type contains itself
+			return;
+		struct Guard {
+			Guard() { inProgress = true; }
+			~Guard() { inProgress = false; }
+		} guard;
 		Serialisable instance;
 		instance.listTypes(filler);
 		filler.fillMembers(instance.getTypeName(), [&instance] (IPropertyDescriptionFiller& propertyFiller) {
diff --git a/bomba_object.hpp b/bomba_object.hpp
index ae1b96a..826f4c4 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -54,12 +54,7 @@ void describeMember(IPropertyDescriptionFiller& filler) {
 
 template <typename T>
 void addMemberType(ISerialisableDescriptionFiller& filler) {
-	if constexpr(std::is_base_of_v<IDescribableSerialisable, T>) {
-		T instance;
-		filler.fillMembers(instance.getTypeName(), [&instance] (IPropertyDescriptionFiller& filler) {
-			instance.describe(filler);
-		});
-	}
+	TypedSerialiser<T>::listTypes(filler);
 }
 
 #ifndef NO_DEFECT_REPORT_2118
-- 
2.43.0


From 4e98bf423638971341ec722fc1bc7efc69b3d9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 48/97] fix: list every type only once in JSON-WSP descriptions

---
 bomba_json_wsp_description.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bomba_json_wsp_description.hpp b/bomba_json_wsp_description.hpp
index fdad666..fb39e30 100644
--- a/bomba_json_wsp_description.hpp
+++ b/bomba_json_wsp_description.hpp
@@ -8,6 +8,10 @@
 #include "bomba_json.hpp"
 #endif
 
+#include <algorithm>
+#include <string>
+#include <vector>
+
 // Most information gathered from: https://zims-en.kiwix.campusafrica.gos.orange.com/wikipedia_en_all_nopic/A/JSON-WSP
 
 namespace Bomba {
@@ -70,6 +74,7 @@ public:
 
 class JsonWspTypeDescription : public ISerialisableDescriptionFiller {
 	IStructuredOutput::ObjectFiller& _output;
+	std::vector<std::string> _listed;
 	static constexpr SerialisationFlags::Flags noFlags = SerialisationFlags::NONE;
 
 public:
@@ -80,6 +85,9 @@ public:
 	}
 
 	void fillMembers(std::string_view name, Callback<void(IPropertyDescriptionFiller&)> filler) override {
+		if (std::find(_listed.begin(), _listed.end(), name) != _listed.end())
+			return; // Several methods or types can use it
+		_listed.emplace_back(name);
 		auto object = _output.writeObject(name);
 		JsonWspMembersDescription descriptor(object);
 		filler(descriptor);
-- 
2.43.0


From 93e108db1b749fc151bec9f0b1afc008f8bad22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 49/97] fix: put only one separator between names in JSON-WSP
 descriptions

---
 bomba_json_wsp_description.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bomba_json_wsp_description.hpp b/bomba_json_wsp_description.hpp
index fb39e30..8318ea4 100644
--- a/bomba_json_wsp_description.hpp
+++ b/bomba_json_wsp_description.hpp
@@ -189,7 +189,10 @@ public:
 		returnFiller(returnDescriptor);
 	}
 	void addSubobject(std::string_view name, Callback<void(IRemoteCallableDescriptionFiller&)> nestedFiller) override {
-		JsonWspDescription<StringType> subobjectFiller(_output, name, _path);
+		std::string_view prefix = _path;
+		if (!prefix.empty())
+			prefix.remove_suffix(1); // The separator
+		JsonWspDescription<StringType> subobjectFiller(_output, name, prefix);
 		nestedFiller(subobjectFiller);
 	}
 };
-- 
2.43.0


From 70910a6029ae56673a253c23046a418888965dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 50/97] fix: do not describe all parameters after an optional
 one as optional

---
 bomba_json_wsp_description.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bomba_json_wsp_description.hpp b/bomba_json_wsp_description.hpp
index 8318ea4..b888d8c 100644
--- a/bomba_json_wsp_description.hpp
+++ b/bomba_json_wsp_description.hpp
@@ -118,10 +118,17 @@ public:
 		result.writeInt("def_order", _argCount);
 		writeJsonWspDocumentation(result, description);
 		result.introduceMember("type");
+		_optional = false;
 		writer();
 		result.writeBool("optional", _optional);
 	}
 
+	void addArray(Callback<void(IPropertyDescriptionFiller&)> filler) override {
+		bool optional = _optional;
+		Detail::JsonWspTypicalDescriptions::addArray(filler);
+		_optional = optional; // Optional elements don't make the array optional
+	}
+
 	void addOptional(Callback<void(IPropertyDescriptionFiller&)> filler) override {
 		_optional = true;
 		filler(*this);
-- 
2.43.0


From 5b48d0b531bdadf77ed7371c374a1dc04522dac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 51/97] fix: find the positions of optional members whose
 contents start with padding

---
 bomba_object.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index 826f4c4..494fe9f 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -305,19 +305,29 @@ class Serialisable : public IDescribableSerialisable {
 			_args(std::make_tuple(args...)) {
 		}
 		
+		template <typename T>
+		static T makeFilled() {
+			// The instance part of std::optional would be left uninitialised if it was blank, even if only moved
+			T value; // Has to be constructed in place of the member
+			if constexpr(requires { value.emplace(); })
+				value.emplace();
+			else
+				value = std::decay_t<decltype(*value)>();
+			return value;
+		}
+
 		template <typename T, size_t... Enumeration>
 		T makeType(std::index_sequence<Enumeration...>) const {
 			if constexpr(SerialisableOptionalBase<T> && SerialisableOptionalOrSmartPointer<T>
 							&& !std::is_constructible_v<T, decltype(std::get<Enumeration>(_args))...>) {
+				if (_setupInstance) [[unlikely]]
+					return makeFilled<T>();
 				T value;
 				value = std::decay_t<decltype(*value)>(std::get<Enumeration>(_args)...);
 				return value;
 			} else if constexpr(SerialisableOptionalBase<T> && SerialisableOptionalOrSmartPointer<T>) {
 				if (_setupInstance) [[unlikely]] {
-					// The instance part of std::optional would be left uninitialised if it was blank, even if only moved
-					T value;
-					value = std::decay_t<decltype(*value)>();
-					return value;
+					return makeFilled<T>();
 				} else {
 					return T(std::get<Enumeration>(_args)...);
 				}
-- 
2.43.0


From 241c7788252d5252a15379ab7262a1334783f72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 52/97] fix: do not loop endlessly if a JSON array is closed as
 an object

---
 bomba_json.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index b8c3712..506a229 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -242,9 +242,10 @@ struct BasicJson {
 		}
 		bool nextArrayElement(Flags flags) final override {
 			eatWhitespace();
-			if (peekChar() != ']')
-				return true;
-			return false;
+			char next = peekChar();
+			if (next == '}') [[unlikely]]
+				fail("Expected the end of JSON array"); // Nothing would be read from there
+			return next != ']';
 		}
 		void endReadingArray(Flags flags) final override {
 			eatWhitespace();
-- 
2.43.0


From f364f209c7fdb7698beaeed432d7bece90b383f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 53/97] fix: read the whole JSON-RPC request before calling the
 method so that all errors are reported

---
 bomba_json_rpc.hpp | 170 +++++++++++++++++++++------------------------
 1 file changed, 81 insertions(+), 89 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index e3a0951..be1f7df 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -35,39 +35,65 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 
 	bool respondInternal(IStructuredInput& input, IStructuredOutput& output, Callback<> onResponseStarted) {
 		constexpr auto noFlags = Json::Output::Flags::NONE;
+		using Location = IStructuredInput::Location;
 		bool failed = false;
 		bool responding = false;
-		IStructuredInput::Location paramsPosition;
-		bool idWritten = false;
+		bool answered = false;
+		bool understood = false;
+		bool correctVersion = true;
+		bool methodNamed = false;
+		const IRemoteCallable* method = nullptr;
+		Location idPosition;
+		Location paramsPosition;
 
-		auto writeId = [&] {
-			responding = true;
-			onResponseStarted();
-			output.startWritingObject(noFlags, 3);
-			output.introduceObjectMember(noFlags, "jsonrpc", 0);
-			output.writeString(noFlags, "2.0");
-			output.introduceObjectMember(noFlags, "id", 1);
-
-			auto identified = input.identifyType(noFlags);
-			if (identified == IStructuredInput::TYPE_INTEGER)
-				output.writeInt(noFlags, input.readInt(noFlags));
-			else if (identified == IStructuredInput::TYPE_STRING)
-				output.writeString(noFlags, input.readString(noFlags));
-			else if (identified == IStructuredInput::TYPE_FLOAT)
-				output.writeFloat(noFlags, input.readFloat(noFlags));
-			else if (identified == IStructuredInput::TYPE_NULL) {
-				input.readNull(noFlags);
-				output.writeNull(noFlags);
+		auto startResponse = [&] {
+			auto introduceId = [&] {
+				responding = true;
+				onResponseStarted();
+				output.startWritingObject(noFlags, 3);
+				output.introduceObjectMember(noFlags, "jsonrpc", 0);
+				output.writeString(noFlags, "2.0");
+				output.introduceObjectMember(noFlags, "id", 1);
+			};
+			auto identified = IStructuredInput::TYPE_NULL;
+			if (idPosition) {
+				input.restorePosition(noFlags, idPosition);
+				identified = input.identifyType(noFlags);
+			}
+			// Reading can fail, so it has to be done before writing anything
+			if (identified == IStructuredInput::TYPE_INTEGER) {
+				int64_t id = input.readInt(noFlags);
+				introduceId();
+				output.writeInt(noFlags, id);
+			} else if (identified == IStructuredInput::TYPE_STRING) {
+				std::string_view id = input.readString(noFlags);
+				introduceId();
+				output.writeString(noFlags, id);
+			} else if (identified == IStructuredInput::TYPE_FLOAT) {
+				double id = input.readFloat(noFlags);
+				introduceId();
+				output.writeFloat(noFlags, id);
 			} else {
-				input.skipObjectElement(noFlags);
+				introduceId();
 				output.writeNull(noFlags);
 			}
 		};
+		auto introduceResult = [&] {
+			if (!responding)
+				return;
+			answered = true;
+			output.introduceObjectMember(noFlags, "result", 2);
+		};
 		auto introduceError = [&] (std::string_view message, JsonRpcError errorType = JsonRpcError::INTERNAL_ERROR) {
 			failed = true;
-			if (!responding)
+			if (!responding && !understood) { // It's not known if it was supposed to be answered
+				idPosition = Location();
+				startResponse();
+			}
+			if (!responding || answered)
 				return;
 
+			answered = true;
 			output.introduceObjectMember(noFlags, "error", 2);
 			auto errorWritten = output.writeObject(2);
 			errorWritten.writeInt("code",  int(errorType));
@@ -75,79 +101,45 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 		};
 
 		try {
-			const IRemoteCallable* method = nullptr;
-			bool called = false;
-			auto call = [&] () {
-				auto introduceResult = [&] () {
-					if (responding)
-						output.introduceObjectMember(noFlags, "result", 2);
-				};
-				auto formerPosition = input.storePosition(noFlags);
-				if (method) [[likely]] {
-					called = true; // If it throws, it's still considered called
-					if (paramsPosition) {
-						input.restorePosition(noFlags, paramsPosition);
-					}
-					if (responding)
-						method->call(paramsPosition ? &input : nullptr, output, introduceResult, introduceError);
-					else {
-						NullStructredOutput nullOutput;
-						method->call(paramsPosition ? &input : nullptr, nullOutput, introduceResult, introduceError);
-					}
-				}
-				return formerPosition;
-			};
-
-			// The logic that must be upheld:
-			// * every loop advances by 1 entry (if position is modified, it must be restored)
-			// * finding id starts the response, finding params stores their position and finding method causes its lookup
-			// * it's called immediately when method, params and id are all known
-			// * if something is missing, it's called after the loop
+			// The members can be in any order, so nothing can be done before having seen all of them
 			input.readObject(noFlags, [&] (std::optional<std::string_view> nextName, int) {
 				if (*nextName == "jsonrpc") {
-					if (input.readString(noFlags) != "2.0") [[unlikely]] {
-						introduceError("Unknown JSON-RPC version", JsonRpcError::INVALID_REQUEST);
-						return false;
-					}
-				} else if (*nextName == "id") {
-					if (!called) {
-						writeId();
-						if (method && paramsPosition) {
-							input.restorePosition(noFlags, call());
-						}
-					} else
-						input.skipObjectElement(noFlags);
+					correctVersion = (input.readString(noFlags) == "2.0");
 				} else if (*nextName == "method") {
-					if (!method) {
-						auto path = input.readString(noFlags);
-						method = PathWithSeparator<".", LocalStringType>::findCallable(path, &_callable);
-						if (!method) [[unlikely]] {
-							introduceError("Method not known", JsonRpcError::METHOD_NOT_FOUND);
-						}
-						if (responding && paramsPosition) {
-							input.restorePosition(noFlags, call());
-						}
-					} else
-						input.skipObjectElement(noFlags);
-				} else if (*nextName == "params") {
-					paramsPosition = input.storePosition(noFlags);
-					if (method && responding) {
-						call();
-					} else {
-						input.skipObjectElement(noFlags);
-					}
-				} else [[unlikely]] {
-					introduceError("Unexpected member in request", JsonRpcError::INVALID_REQUEST);
-					return false;
+					methodNamed = true;
+					auto path = input.readString(noFlags);
+					method = PathWithSeparator<".", LocalStringType>::findCallable(path, &_callable);
+				} else {
+					if (*nextName == "id")
+						idPosition = input.storePosition(noFlags);
+					else if (*nextName == "params")
+						paramsPosition = input.storePosition(noFlags);
+					input.skipObjectElement(noFlags);
 				}
-				return !failed;
+				return true;
 			});
-			if (!failed && !called) {
-				if (!method) [[unlikely]] {
-					introduceError("Method name not found in request", JsonRpcError::METHOD_NOT_FOUND);
-				}
-				input.restorePosition(noFlags, call());
+			auto endPosition = input.storePosition(noFlags);
+
+			if (idPosition)
+				startResponse();
+			understood = (idPosition || methodNamed);
+
+			if (!correctVersion) [[unlikely]] {
+				introduceError("Unknown JSON-RPC version", JsonRpcError::INVALID_REQUEST);
+			} else if (!methodNamed) [[unlikely]] {
+				introduceError("Method name not found in request", JsonRpcError::INVALID_REQUEST);
+			} else if (!method) [[unlikely]] {
+				introduceError("Method not known", JsonRpcError::METHOD_NOT_FOUND);
+			} else {
+				if (paramsPosition)
+					input.restorePosition(noFlags, paramsPosition);
+				IStructuredInput* params = paramsPosition ? &input : nullptr;
+				NullStructredOutput nullOutput;
+				IStructuredOutput& usedOutput = responding ? output : nullOutput;
+				if (!method->call(params, usedOutput, introduceResult, introduceError)) [[unlikely]]
+					introduceError("Method not callable", JsonRpcError::METHOD_NOT_FOUND);
 			}
+			input.restorePosition(noFlags, endPosition);
 		} catch (ParseError& e) {
 			introduceError(e.what(), JsonRpcError::PARSE_ERROR);
 		} catch (RemoteError& e) {
-- 
2.43.0


From 20a8414a19078932ef4f16a7228d6a171caa58db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 54/97] fix: respond with an error to JSON-RPC requests that
 are neither objects nor arrays

---
 bomba_json_rpc.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index be1f7df..aef1553 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -164,7 +164,6 @@ public:
 			return false;
 		}
 
-		bool result = false;
 		writeStarter.writeUnknownSize("application/json", [&] (GeneralisedBuffer& response) {
 			constexpr auto noFlags = Json::Output::Flags::NONE;
 
@@ -190,13 +189,11 @@ public:
 				}
 				input.endReadingArray(noFlags);
 				output.endWritingArray(noFlags);
-				result = true; // Http should not report an error here
-			} else if (inputType == IStructuredInput::TYPE_OBJECT) {
-				respondInternal(input, output, {});
-				result = true;
+			} else {
+				respondInternal(input, output, {}); // Responds with an error if it's not an object
 			}
 		});
-		return result; // The request was total nonsense
+		return true; // Http should not report an error here
 	}
 };
 
-- 
2.43.0


From 7989da01f43ac85967c1e310cfb5da336cd888d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 55/97] fix: answer incomplete arrays of JSON-RPC requests with
 an error without calling anything

---
 bomba_json_rpc.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index aef1553..d396e5b 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -171,7 +171,19 @@ public:
 			typename Json::Output output(response);
 
 			auto inputType = input.identifyType(noFlags);
+			bool completeArray = false;
 			if (inputType == IStructuredInput::TYPE_ARRAY) {
+				// Check that it's complete before doing anything
+				auto startPosition = input.storePosition(noFlags);
+				try {
+					input.startReadingArray(noFlags);
+					while (input.nextArrayElement(noFlags))
+						input.skipObjectElement(noFlags);
+					input.restorePosition(noFlags, startPosition);
+					completeArray = true;
+				} catch (std::exception&) {} // What could not be read isn't an object either
+			}
+			if (completeArray) {
 				// Handle an array of requests
 				input.startReadingArray(noFlags);
 				output.startWritingArray(noFlags, IStructuredOutput::UNKNOWN_SIZE);
-- 
2.43.0


From dfe2bd58967737ff66c56e40565a9dd23665f23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 56/97] fix: answer JSON-RPC requests also if the method throws
 something else than std::exception

---
 bomba_json_rpc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index d396e5b..368b687 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -146,6 +146,8 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 			introduceError(e.what(), JsonRpcError::INVALID_PARAMS);
 		} catch (std::exception& e) {
 			introduceError(e.what(), JsonRpcError::INTERNAL_ERROR);
+		} catch (...) {
+			introduceError("Unknown error", JsonRpcError::INTERNAL_ERROR);
 		}
 
 		if (responding) {
-- 
2.43.0


From c3d23c5cc4f5fb4f94506d21d72d8f9fe1c9097d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 57/97] fix: do not fail after calling a method without return
 value through HTTP GET

---
 bomba_rpc_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index d25bfbe..71056b8 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -456,7 +456,7 @@ struct RpcLambdaInformationHolder {
 			if constexpr(std::is_same_v<Returned, void>) {
 				callInternal(std::make_index_sequence<argsSize>(), nullptr, input);
 				introduceResult();
-				result.writeNull(Flags);
+				result.writeNull(SerialisationFlags::Flags(Flags | SerialisationFlags::EMPTY_IS_NULL)); // There is nothing to write
 			} else {
 				Returned returned;
 				callInternal(std::make_index_sequence<argsSize>(), &returned, input);
-- 
2.43.0


From d0f74bd4031ed60d88d35ff74a1438570887cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 58/97] fix: refuse HTTP header lines that have no colon or do
 not end properly instead of joining them with the next line

---
 bomba_http.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index c2775c9..669e015 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -77,6 +77,8 @@ struct HttpParseState {
 					attributeName = std::string_view(input.data() + attributeNameStart, position - attributeNameStart);
 					break;
 				}
+				if (input[position] == '\r' || input[position] == '\n') [[unlikely]]
+					return {ServerReaction::DISCONNECT, 0};
 				if (input[position] <= 'Z' && input[position] >= 'A')
 					input[position] += 'a' - 'A';
 				position++;
@@ -111,9 +113,11 @@ struct HttpParseState {
 				}
 				position++;
 			}
-			if (position >= std::ssize(input)) {
+			if (position + 1 >= std::ssize(input)) {
 				return {ServerReaction::READ_ON, position - 1};
 			}
+			if (input[position + 1] != '\n') [[unlikely]]
+				return {ServerReaction::DISCONNECT, 0};
 
 			// Use the data
 			if (attributeName == "content-length") {
-- 
2.43.0


From 8e553d3678194ec241623d728a2e4561a808a23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 59/97] fix: do not take text that resembles an escaped
 character for one when reading HTTP forms

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 669e015..60f53dc 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -205,7 +205,7 @@ void demangleHttpResponse(std::string_view input, StringType& output) {
 			};
 			int decoded = urlDecode(i);
 			if (decoded == '&' && i + 8 < std::ssize(input)) [[unlikely]] {
-				if (urlDecode(i + 3) == '#' && input[i + 6] >= '0' && input[i + 6] <= '9') {
+				if (input[i + 3] == '%' && urlDecode(i + 3) == '#' && input[i + 6] >= '0' && input[i + 6] <= '9') {
 					int numberEnd = i + 7;
 					while (numberEnd < std::ssize(input) && input[numberEnd] >= '0' && input[numberEnd] <= '9')
 						numberEnd++;
-- 
2.43.0


From 15f2c88bbd2a1bdf90fda9901fe7c16d276e94a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 60/97] fix: refuse request paths that the file system would
 resolve outside the root folder

---
 bomba_download_server.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 5ba471b..34976b3 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -109,7 +109,8 @@ public:
 		if (editedPath.empty() || editedPath.back() == '/') {
 			editedPath = "/index.html";
 		} else {
-			if (editedPath[0] == '.' || editedPath.find("../") != std::string_view::npos || editedPath.find("/.") != std::string_view::npos) {
+			if (editedPath[0] != '/' || editedPath.starts_with("//") || editedPath.find('\0') != std::string::npos
+					|| editedPath.find("../") != std::string::npos || editedPath.find("/.") != std::string::npos) {
 				std::cout << "Forbidden path" << std::endl;
 				return false; // Exclude paths out of the folder, hidden files or empty paths
 			}
-- 
2.43.0


From dac405a38bfd98b28bc87b1f94d44ca54d38edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 61/97] fix: serve files and pages without extension, find the
 type of upper case ones

---
 bomba_download_server.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 34976b3..5d72646 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -44,12 +44,17 @@ protected:
 		_extensions[".xml"] = "application/xml";
 	}
 
-	std::string extensionDescription(std::string_view extension) {
-		auto foundExtension = _extensions.find(std::string(extension));
+	std::string extensionDescription(const std::filesystem::path& path) {
+		std::string extension = path.extension().string();
+		for (char& c : extension)
+			c = std::tolower(static_cast<unsigned char>(c));
+		auto foundExtension = _extensions.find(extension);
 		if (foundExtension != _extensions.end()) {
 			return foundExtension->second;
+		} else if (extension.size() <= 1) {
+			return "application/octet-stream"; // No extension
 		} else {
-			return "application/" + std::string(extension.substr(1)); // Improvise if unknown
+			return "application/" + extension.substr(1); // Improvise if unknown
 		}
 	}
 
@@ -88,15 +93,14 @@ public:
 	bool get(std::string_view path, IWriteStarter& outputProvider) {
 		auto foundGenerated = _generatedFiles.find(std::string(path));
 		if (foundGenerated != _generatedFiles.end()) {
-			std::string_view extension = path.substr(path.find_last_of('.'));
 			if (foundGenerated->second.allKnownAtOnce) {
 				foundGenerated->second.provider([&] (std::span<const char> chunk) {
-					outputProvider.writeKnownSize(extensionDescription(extension), chunk.size(), [&] (GeneralisedBuffer& buffer) {
+					outputProvider.writeKnownSize(extensionDescription(path), chunk.size(), [&] (GeneralisedBuffer& buffer) {
 						buffer += chunk;
 					});
 				});
 			} else {
-				outputProvider.writeUnknownSize(extensionDescription(extension), [&] (GeneralisedBuffer& buffer) {
+				outputProvider.writeUnknownSize(extensionDescription(path), [&] (GeneralisedBuffer& buffer) {
 					foundGenerated->second.provider([&] (std::span<const char> chunk) {
 						buffer += chunk;
 					});
@@ -126,7 +130,7 @@ public:
 		uintmax_t size = std::filesystem::file_size(fullPath);
 
 		std::ifstream file(fullPath);
-		outputProvider.writeKnownSize(extensionDescription(fullPath.extension().string()), size, [&] (GeneralisedBuffer& output) {
+		outputProvider.writeKnownSize(extensionDescription(fullPath), size, [&] (GeneralisedBuffer& output) {
 			uintmax_t position = 0;
 			while (position < size) {
 				std::array<char, 4096> buffer;
@@ -147,10 +151,7 @@ class CachingFileServer : public FileServerBase {
 		std::vector<char> contents;
 
 		CachedFile(const std::filesystem::path& path, CachingFileServer* parent) {
-			std::string extension = path.extension().string();
-			for (char& c : extension)
-				c = std::tolower(c);
-			type = parent->extensionDescription(extension);
+			type = parent->extensionDescription(path);
 		}
 	};
 	std::unordered_map<std::string, CachedFile> _cache;
-- 
2.43.0


From 539d23f560d9a6f831a06953bdb6fee0f4a9954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 62/97] fix: refuse paths that cannot be looked up instead of
 failing

---
 bomba_download_server.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 5d72646..024e40f 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -123,7 +123,8 @@ public:
 		std::filesystem::path fullPath = _root;
 		fullPath.append(editedPath.substr(1));
 
-		if (!std::filesystem::exists(fullPath) || !std::filesystem::is_regular_file(fullPath)) {
+		std::error_code error; // For example if the name is too long
+		if (!std::filesystem::is_regular_file(fullPath, error)) {
 			std::cout << "Can't send " << fullPath << std::endl;
 			return false;
 		}
-- 
2.43.0


From 198e4c0b5a006d5ca4aed24ee7ccc2c0ae0d9389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 63/97] fix: do not send uninitialised memory if a file gets
 shorter

---
 bomba_download_server.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 024e40f..552bd72 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -136,7 +136,8 @@ public:
 			while (position < size) {
 				std::array<char, 4096> buffer;
 				int amount = std::min<int>(buffer.size(), size - position);
-				file.read(buffer.data(), amount);
+				if (!file.read(buffer.data(), amount))
+					throw std::runtime_error("File shortened while being sent"); // Cannot send the announced amount
 				output += std::span<const char>(buffer.data(), amount);
 				position += amount;
 			}
-- 
2.43.0


From 848584ebd42d3781bcf0a2ce59fd00ef9166503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 64/97] fix: cache only regular files

---
 bomba_download_server.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 552bd72..b9a2196 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -166,7 +166,7 @@ class CachingFileServer : public FileServerBase {
 			std::string localPath = std::string(prefix) + '/' + file.path().filename().string();
 			if (file.is_directory()) {
 				cacheFolder(file.path(), localPath);
-			} else {
+			} else if (file.is_regular_file()) {
 				cacheFile(file.path(), localPath);
 			}
 		}
-- 
2.43.0


From 8f7c275eabcdcb00ed14ce78be4bbb3077e384ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 65/97] fix: a page added later replaces the earlier file or
 page of that name

---
 bomba_download_server.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index b9a2196..8bdfee6 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -223,7 +223,7 @@ public:
 		addModifier([this, name = '/' + std::string(name), contents = std::move(contents)] {
 			CachedFile entry(name, this);
 			entry.contents = contents;
-			_cache.insert(std::make_pair(name, std::move(entry)));
+			_cache.insert_or_assign(name, std::move(entry));
 		});
 	}
 	void addGeneratedFile(std::string_view name, const std::string& contents) {
-- 
2.43.0


From e53af8ab58448d566f62daec7208806bd75004ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 66/97] fix: do not add pages while they are being looked up by
 other threads

---
 bomba_download_server.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 8bdfee6..8f6d598 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -220,6 +220,7 @@ public:
 		reloadInternal();
 	}
 	void addGeneratedFile(std::string_view name, std::vector<char>&& contents) {
+		std::lock_guard lock(_mutex);
 		addModifier([this, name = '/' + std::string(name), contents = std::move(contents)] {
 			CachedFile entry(name, this);
 			entry.contents = contents;
-- 
2.43.0


From 140ca435561f7be9a323f5d3e22377c464c14d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 67/97] fix: a call whose result did not arrive is an error,
 not an uninitialised value

---
 bomba_rpc_object.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 71056b8..804322d 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -487,14 +487,22 @@ struct RpcLambdaInformationHolder {
 
 		Returned readResponse(IRpcResponder* responder, RequestToken token) const override {
 			if constexpr(std::is_void_v<Returned>) {
+				bool received = false;
 				responder->getResponse(token, [&](IStructuredInput& in) {
+					received = true;
 					in.readNull(Flags);
 				});
+				if (!received)
+					remoteError("No result received");
 			} else {
-				Returned result;
+				Returned result{};
+				bool received = false;
 				responder->getResponse(token, [&](IStructuredInput& in) {
+					received = true;
 					TypedSerialiser<Returned>::deserialiseMember(in, result, Flags);
 				});
+				if (!received)
+					remoteError("No result received");
 				return result;
 			}
 		}
-- 
2.43.0


From 467656c1d8659f5fe152265920eb79b21383ca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 68/97] fix: futures of calls returning nothing report failures
 also after polling, and can be moved

---
 bomba_rpc_object.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 804322d..b00fcb7 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -6,6 +6,8 @@
 #endif
 
 #include <csetjmp>
+#include <exception>
+#include <utility>
 
 #if (_MSC_VER && !__INTEL_COMPILER) || __clang__
 #define NO_DEFECT_REPORT_2118
@@ -263,7 +265,12 @@ struct IResponseReader {
 			other._reader = nullptr;
 			other._responder = nullptr;
 		}
-		FutureBase& operator=(FutureBase&&) {}
+		FutureBase& operator=(FutureBase&& other) {
+			_reader = std::exchange(other._reader, nullptr);
+			_responder = std::exchange(other._responder, nullptr);
+			_token = other._token;
+			return *this;
+		}
 		FutureBase() = default;
 	};
 } // namespace Detail
@@ -314,21 +321,29 @@ template <>
 class Future<void> : Detail::FutureBase<void> {
 	using Base = Detail::FutureBase<void>;
 	mutable bool _done = false;
+	mutable std::exception_ptr _error;
 public:
 	using Base::FutureBase;
-	Future() = default;
+	Future() : _done(true) {} // The call is over
 
 	void get() const {
 		if (_done)
 			return;
-		Base::_reader->readResponse(Base::_responder, Base::_token);
+		if (_error)
+			std::rethrow_exception(_error);
+		try {
+			Base::_reader->readResponse(Base::_responder, Base::_token);
+		} catch (...) {
+			_error = std::current_exception();
+			throw;
+		}
 		_done = true;
 	}
 
 	bool is_ready() const {
-		if (_done)
+		if (_done || _error)
 			return true;
-		return (_done = Base::_responder->hasResponse(Base::_token));
+		return Base::_responder->hasResponse(Base::_token);
 	}
 };
 
-- 
2.43.0


From 4ed418cf0d09c676aa79356ec8e7754e66638a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 69/97] fix: futures whose call failed can be asked again,
 dropped and overwritten, and futures can be overwritten while pending

---
 bomba_rpc_object.hpp | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index b00fcb7..067add9 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -279,35 +279,56 @@ struct IResponseReader {
 template <typename Returned>
 class Future : Detail::FutureBase<Returned> {
 	mutable std::optional<Returned> _value = std::nullopt;
+	mutable std::exception_ptr _error;
 	using Base = Detail::FutureBase<Returned>;
 
+	// Collects the response if nobody did, so that it would not pile up
 	void cleanup() {
-		if (Base::_responder && !_value) {
-			get();
-			Base::_reader = nullptr;
-			_value = std::nullopt;
+		if (Base::_responder && !_value && !_error) {
+			try {
+				get();
+			} catch (...) {
+				// Nobody asked for the result
+			}
 		}
+		Base::_reader = nullptr;
+		Base::_responder = nullptr;
+		_value.reset();
+		_error = nullptr;
 	}
 public:
 	using Base::FutureBase;
-	Future(Returned&& value) : _value(value) {}
+	Future(Returned&& value) : _value(std::move(value)) {}
+	Future(Future&& other) : Base(std::move(other)), _value(std::exchange(other._value, std::nullopt)),
+			_error(std::exchange(other._error, nullptr)) {}
 	Future& operator=(Future&& other) {
+		if (this == &other)
+			return *this;
 		cleanup();
 		std::swap(Base::_reader, other._reader);
 		std::swap(Base::_responder, other._responder);
 		std::swap(Base::_token, other._token);
 		std::swap(_value, other._value);
+		std::swap(_error, other._error);
 		return *this;
 	}
 
 	Returned get() const {
-		if (!_value)
-			_value = Base::_reader->readResponse(Base::_responder, Base::_token);
+		if (_error)
+			std::rethrow_exception(_error);
+		if (!_value) {
+			try {
+				_value = Base::_reader->readResponse(Base::_responder, Base::_token);
+			} catch (...) {
+				_error = std::current_exception();
+				throw;
+			}
+		}
 		return *_value;
 	}
 
 	bool is_ready() const {
-		if (_value)
+		if (_value || _error)
 			return true;
 		return Base::_responder->hasResponse(Base::_token);
 	}
-- 
2.43.0


From 37ab82aa225640872cf7e7acb5b37afef25801ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 70/97] fix: the HTTP client sends the path of the method it
 calls

---
 bomba_http.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 60f53dc..8bb6f47 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -841,11 +841,13 @@ class HttpClient : public IRpcResponder {
 			Callback<void(IStructuredOutput&, RequestToken)> request) override {
 		auto methodName = PathWithSeparator<"/", LocalStringType>::constructPath(method);
 
+		LocalStringType path = "/";
+		path += methodName;
 		return post("application/x-www-form-urlencoded",
-					[methodName, &request] (GeneralisedBuffer& output, RequestToken token) {
+					[&request] (GeneralisedBuffer& output, RequestToken token) {
 			typename HtmlMessageEncoding<LocalStringType>::Output writer = output;
 			request(writer, token);
-		});
+		}, path);
 	}
 	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override {
 		getResponse(token, [&] (std::span<char> data, bool success) {
@@ -892,12 +894,14 @@ public:
 	HttpClient(ITcpClient& client, std::string_view virtualHost) : _client(client), _virtualHost(virtualHost) {}
 
 	RequestToken post(std::string_view contentType,
-			Callback<void(ExpandingBufferType&, RequestToken token)> request) {
+			Callback<void(ExpandingBufferType&, RequestToken token)> request, std::string_view path = "/") {
 		_lastTokenWritten.id++;
 		ExpandingBufferType written;
-		constexpr char correctIntro[] = "POST / HTTP/1.1\r\nContent-Length: ";
 		constexpr char unsetSize[] = "0         ";
-		written += correctIntro;
+		written += "POST ";
+		written += path;
+		written += " HTTP/1.1\r\nContent-Length: ";
+		int sizePosition = written.size();
 		written += unsetSize;
 		written += "\r\nHost: ";
 		written += _virtualHost;
@@ -907,8 +911,8 @@ public:
 		int sizeBefore = written.size();
 		request(written, RequestToken{_lastTokenWritten});
 		std::string_view reqView = written;
-		std::to_chars(const_cast<char*>(&reqView[sizeof(correctIntro) - 1]),
-				const_cast<char*>(&reqView[sizeof(correctIntro) + sizeof(unsetSize)]),
+		std::to_chars(const_cast<char*>(reqView.data() + sizePosition),
+				const_cast<char*>(reqView.data() + sizePosition + sizeof(unsetSize) - 1),
 				written.size() - sizeBefore);
 		_client.writeRequest(written);
 		return _lastTokenWritten;
-- 
2.43.0


From b1beaf97347621e34efbd5eee65eb783cc554cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 71/97] fix: a response without body is not a body of negative
 size

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 8bb6f47..b2c244d 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -962,7 +962,7 @@ public:
 				}					
 				done = true;
 
-				reader(std::span<char>(input.begin() + state.parsePosition, input.begin() + state.parsePosition + state.bodySize),
+				reader(std::span<char>(input.begin() + state.parsePosition, input.begin() + state.parsePosition + std::max(0, state.bodySize)),
 						(state.resultCode >= 200 && state.resultCode < 300));
 				if (!identified)
 					_lastTokenRead.id++;
-- 
2.43.0


From 79c4fa9b77b38a7a9c4a906996c94210dd286546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 72/97] fix: the client reads the rest of a response's header
 that is received in parts

---
 bomba_http.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index b2c244d..3e214b7 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -937,10 +937,11 @@ public:
 		bool done = false;
 		while (!done) {
 			ParseState state;
+			bool headerRead = false;
 			_client.getResponse(token, [&, this] (std::span<char> input, bool identified)
 						-> std::tuple<ServerReaction, RequestToken, int64_t> {
 				// Locate the header's span
-				if (state.bodySize == -1) {
+				if (!headerRead) {
 					auto [reaction, position] = state.parse(input);
 					if (reaction == ServerReaction::DISCONNECT) {
 						done = true;
@@ -948,6 +949,7 @@ public:
 					if (reaction != ServerReaction::OK) {
 						return {reaction, RequestToken{}, position};
 					}
+					headerRead = true;
 				}
 
 				if (state.bodySize > 0 && std::ssize(input) < int64_t(state.parsePosition) + state.bodySize) {
@@ -957,6 +959,7 @@ public:
 				if (!identified && token != RequestToken{ _lastTokenRead.id + 1}) {
 					int offset = state.parsePosition + std::max(0, state.bodySize);
 					state = ParseState{};
+					headerRead = false;
 					_lastTokenRead.id++;
 					return {ServerReaction::WRONG_REPLY, _lastTokenRead, offset};
 				}					
-- 
2.43.0


From 4e38f5ab1e9023953d1f84bd507d500bc98d6456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 73/97] fix: the HTTP client reports responses it cannot
 understand

---
 bomba_http.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 3e214b7..74efcb5 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -935,6 +935,7 @@ public:
 
 	void getResponse(RequestToken token, Callback<bool(std::span<char> message, bool success)> reader) {
 		bool done = false;
+		bool malformed = false;
 		while (!done) {
 			ParseState state;
 			bool headerRead = false;
@@ -945,6 +946,7 @@ public:
 					auto [reaction, position] = state.parse(input);
 					if (reaction == ServerReaction::DISCONNECT) {
 						done = true;
+						malformed = true;
 					}
 					if (reaction != ServerReaction::OK) {
 						return {reaction, RequestToken{}, position};
@@ -972,6 +974,8 @@ public:
 				return {ServerReaction::OK, _lastTokenRead, state.parsePosition + std::max(0, state.bodySize)};
 			});
 		}
+		if (malformed)
+			remoteError("Malformed HTTP response");
 	}
 };
 
-- 
2.43.0


From 6edb980ae5d17e57fcb4fbf5fb461aa1b15df514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 74/97] fix: polling the HTTP client for a response does not
 wait for it

---
 bomba_http.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 74efcb5..81dde41 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -864,7 +864,7 @@ class HttpClient : public IRpcResponder {
 
 	bool hasResponse(RequestToken token) override {
 		bool has = false;
-		getResponse(token, [&] (std::span<char>, bool) {
+		accessResponse<false>(token, [&] (std::span<char>, bool) {
 			has = true;
 			return true;
 		});
@@ -934,12 +934,18 @@ public:
 	}
 
 	void getResponse(RequestToken token, Callback<bool(std::span<char> message, bool success)> reader) {
+		accessResponse<true>(token, reader);
+	}
+
+private:
+	template <bool doWait>
+	void accessResponse(RequestToken token, Callback<bool(std::span<char> message, bool success)> reader) {
 		bool done = false;
 		bool malformed = false;
 		while (!done) {
 			ParseState state;
 			bool headerRead = false;
-			_client.getResponse(token, [&, this] (std::span<char> input, bool identified)
+			auto readResponse = [&, this] (std::span<char> input, bool identified)
 						-> std::tuple<ServerReaction, RequestToken, int64_t> {
 				// Locate the header's span
 				if (!headerRead) {
@@ -972,7 +978,13 @@ public:
 				if (!identified)
 					_lastTokenRead.id++;
 				return {ServerReaction::OK, _lastTokenRead, state.parsePosition + std::max(0, state.bodySize)};
-			});
+			};
+			if constexpr(doWait) {
+				_client.getResponse(token, readResponse);
+			} else {
+				_client.tryToGetResponse(token, readResponse);
+				return;
+			}
 		}
 		if (malformed)
 			remoteError("Malformed HTTP response");
-- 
2.43.0


From 44dd3bdd73595d62c25899720dabc373bc34b7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 75/97] fix: the binary client reads responses only when they
 are complete, and not past their end

---
 bomba_binary_protocol.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 623b173..959e6a1 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -335,20 +335,24 @@ class BinaryProtocolClient : public IRpcResponder {
 	auto getResponseReader(RequestToken token, Callback<void(IStructuredInput&)> operation) {
 		return [=] (std::span<char> data, bool identified)
 						-> std::tuple<ServerReaction, RequestToken, int64_t> {
-			typename BinaryFormat<ExpandingBufferType, SizeType, NumWriter, MaxDepth>::Input in(std::string_view(data.data(), data.size()));
-			if (!identified) {
-				if (data.size() < sizeof(int) + sizeof(SizeType))
-					return {ServerReaction::READ_ON, RequestToken(), 0};
-			}
-			RequestToken receivedToken = { uint32_t(in.readInt(SerialisationFlags::UINT_32)) };
-			SizeType size = in.readInt(SerialisationFlags::typeToFlags(SizeType()));
+			using Input = typename BinaryFormat<ExpandingBufferType, SizeType, NumWriter, MaxDepth>::Input;
+			constexpr size_t headerSize = sizeof(uint32_t) + sizeof(SizeType);
+			if (data.size() < headerSize)
+				return {ServerReaction::READ_ON, RequestToken(), 0};
+			Input header(std::string_view(data.data(), headerSize));
+			RequestToken receivedToken = { uint32_t(header.readInt(SerialisationFlags::UINT_32)) };
+			uint64_t size = SizeType(header.readInt(SerialisationFlags::typeToFlags(SizeType())));
+			if (size < headerSize) [[unlikely]]
+				return {ServerReaction::DISCONNECT, receivedToken, 0};
 			if (data.size() < size)
 				return {ServerReaction::READ_ON, receivedToken, 0};
+			// What follows after the announced size is another response
+			Input in(std::string_view(data.data() + headerSize, size - headerSize));
 			if (!identified && receivedToken != token)
-				return {ServerReaction::WRONG_REPLY, receivedToken, size};
+				return {ServerReaction::WRONG_REPLY, receivedToken, int64_t(size)};
 
 			operation(in);
-			return {ServerReaction::OK, token, size};
+			return {ServerReaction::OK, token, int64_t(size)};
 		};
 	}
 
-- 
2.43.0


From 0720b7ead7d7acaa3da3cb0ae0c2e733b270e293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 76/97] fix: the binary client does not send requests whose
 size does not fit in the header

---
 bomba_binary_protocol.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 959e6a1..9baf998 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -383,6 +383,8 @@ public:
 			out.writeInt(SerialisationFlags::UINT_8, path[i]);
 		request(out, token);
 
+		if (uint64_t(outputBuffer.size()) > uint64_t(std::numeric_limits<SizeType>::max())) [[unlikely]]
+			logicError("Request too large for the type of sizes of the binary protocol");
 		// FIXME: Use the NumWriter to deal with endianness, also in the copy above
 		std::array<char, sizeof(SizeType)> writtenSize = NumWriter::prepareNumber(SizeType(outputBuffer.size()));
 		std::span<char> writing = outputBuffer;
-- 
2.43.0


From ff0d574a66cd8baee10e60b6db0f70abb926753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 77/97] fix: the network clients look at what they read before,
 read on if it's incomplete and keep responses found by polling

---
 bomba_sync_client.hpp   | 40 +++++++++++++++++++++-------------------
 tls/tls_sync_client.hpp | 40 +++++++++++++++++++++-------------------
 2 files changed, 42 insertions(+), 38 deletions(-)

diff --git a/bomba_sync_client.hpp b/bomba_sync_client.hpp
index 6356128..7d4abc8 100644
--- a/bomba_sync_client.hpp
+++ b/bomba_sync_client.hpp
@@ -32,17 +32,30 @@ class SyncNetworkClient : public ITcpClient {
 		// See if some response was already received
 		auto found = _responses.find(tokenSought);
 		if (found != _responses.end()) {
-			auto [reaction, token, position] = reader(found->second, true);
-			if (reaction == ServerReaction::OK || reaction == ServerReaction::DISCONNECT)
-				return;
-			if (reaction == ServerReaction::READ_ON)
-				logicError("First it was WRONG_REPLY, now it is READ_ON?");
+			if constexpr(doWait) {
+				auto response = _responses.extract(found); // It won't be needed again
+				reader(response.mapped(), true);
+			} else
+				reader(found->second, true);
+			return;
 		}
 
-		// Wait for a reply if none was received before
+		// See what was already read, wait for a reply if there's none
 		std::array<char, 2048> responseBuffer;
-		bool wasReceived = false;
-		while (!wasReceived) {
+		while (true) {
+			while (!_leftovers.empty()) {
+				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
+				if (reaction == ServerReaction::DISCONNECT)
+					return;
+				if (reaction == ServerReaction::READ_ON)
+					break;
+				if (reaction == ServerReaction::WRONG_REPLY || !doWait) // If it was just checked if it's there, it will be needed
+					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
+				_leftovers.erase(_leftovers.begin(), _leftovers.begin() + position);
+				if (reaction == ServerReaction::OK)
+					return;
+			}
+
 			std::error_code error;
 			if constexpr(!doWait) {
 				if (_socket.available() == 0)
@@ -54,17 +67,6 @@ class SyncNetworkClient : public ITcpClient {
 				break;
 			}
 			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
-			while (!_leftovers.empty()) {
-				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
-				if (reaction == ServerReaction::OK)
-					wasReceived = true;
-				else if (reaction == ServerReaction::DISCONNECT || reaction == ServerReaction::READ_ON) {
-					return;
-				} else if (reaction == ServerReaction::WRONG_REPLY) {
-					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
-				} // else read on
-				_leftovers = std::vector<char>(_leftovers.begin() + position, _leftovers.end());
-			}
 		}
 	}
 
diff --git a/tls/tls_sync_client.hpp b/tls/tls_sync_client.hpp
index 5a40884..9b2fa87 100644
--- a/tls/tls_sync_client.hpp
+++ b/tls/tls_sync_client.hpp
@@ -38,17 +38,30 @@ class TlsSyncClient : public ITcpClient {
 		// See if some response was already received
 		auto found = _responses.find(tokenSought);
 		if (found != _responses.end()) {
-			auto [reaction, token, position] = reader(found->second, true);
-			if (reaction == ServerReaction::OK || reaction == ServerReaction::DISCONNECT)
-				return;
-			if (reaction == ServerReaction::READ_ON)
-				logicError("First it was WRONG_REPLY, now it is READ_ON?");
+			if constexpr(doWait) {
+				auto response = _responses.extract(found); // It won't be needed again
+				reader(response.mapped(), true);
+			} else
+				reader(found->second, true);
+			return;
 		}
 
-		// Wait for a reply if none was received before
+		// See what was already read, wait for a reply if there's none
 		std::array<char, 2048> responseBuffer;
-		bool wasReceived = false;
-		while (!wasReceived) {
+		while (true) {
+			while (!_leftovers.empty()) {
+				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
+				if (reaction == ServerReaction::DISCONNECT)
+					return;
+				if (reaction == ServerReaction::READ_ON)
+					break;
+				if (reaction == ServerReaction::WRONG_REPLY || !doWait) // If it was just checked if it's there, it will be needed
+					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
+				_leftovers.erase(_leftovers.begin(), _leftovers.begin() + position);
+				if (reaction == ServerReaction::OK)
+					return;
+			}
+
 			std::error_code error;
 			if constexpr(!doWait) {
 				if (_socket.next_layer().available() == 0)
@@ -60,17 +73,6 @@ class TlsSyncClient : public ITcpClient {
 				break;
 			}
 			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
-			while (!_leftovers.empty()) {
-				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
-				if (reaction == ServerReaction::OK)
-					wasReceived = true;
-				else if (reaction == ServerReaction::DISCONNECT || reaction == ServerReaction::READ_ON) {
-					return;
-				} else if (reaction == ServerReaction::WRONG_REPLY) {
-					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
-				} // else read on
-				_leftovers = std::vector<char>(_leftovers.begin() + position, _leftovers.end());
-			}
 		}
 	}
 
-- 
2.43.0


From 283181fcee32ccad1e9ee0c62651effd62484316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:13 +0000
Subject: [PATCH 78/97] fix: waiting for a response ends when the server closes
 the connection

---
 bomba_sync_client.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bomba_sync_client.hpp b/bomba_sync_client.hpp
index 7d4abc8..6d8e76c 100644
--- a/bomba_sync_client.hpp
+++ b/bomba_sync_client.hpp
@@ -66,6 +66,10 @@ class SyncNetworkClient : public ITcpClient {
 				remoteError(error.message().c_str());
 				break;
 			}
+			if (received == 0) {
+				remoteError("The server has closed the connection");
+				break;
+			}
 			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
 		}
 	}
-- 
2.43.0


From 6c581ca3a22e11a26186651ff6b5b0c6f6f3309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:14 +0000
Subject: [PATCH 79/97] fix: HTTP clients don't count requests that could not
 be created as sent

---
 bomba_http.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 81dde41..d8b539c 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -895,7 +895,7 @@ public:
 
 	RequestToken post(std::string_view contentType,
 			Callback<void(ExpandingBufferType&, RequestToken token)> request, std::string_view path = "/") {
-		_lastTokenWritten.id++;
+		RequestToken token = {_lastTokenWritten.id + 1};
 		ExpandingBufferType written;
 		constexpr char unsetSize[] = "0         ";
 		written += "POST ";
@@ -909,13 +909,14 @@ public:
 		written += contentType;
 		written += "\r\n\r\n";
 		int sizeBefore = written.size();
-		request(written, RequestToken{_lastTokenWritten});
+		request(written, token);
 		std::string_view reqView = written;
 		std::to_chars(const_cast<char*>(reqView.data() + sizePosition),
 				const_cast<char*>(reqView.data() + sizePosition + sizeof(unsetSize) - 1),
 				written.size() - sizeBefore);
+		_lastTokenWritten = token; // Not earlier, it is not sent if creating it fails
 		_client.writeRequest(written);
-		return _lastTokenWritten;
+		return token;
 	}
 
 	RequestToken get(std::string_view resource = "/") {
-- 
2.43.0


From 595bd418661549debe66dcfb3d00446eb0754c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:14 +0000
Subject: [PATCH 80/97] fix: false arguments are not omitted in binary messages

---
 bomba_binary_protocol.hpp | 4 ++++
 bomba_core.hpp            | 3 +++
 bomba_rpc_object.hpp      | 2 +-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 9baf998..4d570de 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -247,6 +247,10 @@ struct BinaryFormat {
 			if (present)
 				writeValue();
 		}
+
+		bool canOmitMembers() const final override {
+			return false; // They are recognised only by their order
+		}
 	};
 };
 
diff --git a/bomba_core.hpp b/bomba_core.hpp
index 23230ba..89194bf 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -220,6 +220,9 @@ struct IStructuredOutput {
 	// Should write an optional value, empty if it's absent and calling the callback to write the value if present
 	virtual void writeOptional(Flags flags, bool present, Callback<> writeValue) = 0;
 
+	// Whether the members with default values can be skipped when writing an object with known layout
+	virtual bool canOmitMembers() const { return true; }
+
 	virtual ~IStructuredOutput() = default;
 
 	// Convenience classes and methods for using this interface in a less error prone way
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 067add9..9d1015e 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -511,7 +511,7 @@ struct RpcLambdaInformationHolder {
 				TypedSerialiser<First>::serialiseMember(out, first, flags);
 			};
 			if constexpr(std::is_same_v<bool, First>) {
-				if (first || !(flags & SerialisationFlags::OMIT_FALSE))
+				if (first || !(flags & SerialisationFlags::OMIT_FALSE) || !out.canOmitMembers())
 					write();
 			} else {
 				write();
-- 
2.43.0


From 1744c98ba8b58b42bb57e0018482e38dd0e2f114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:30 +0000
Subject: [PATCH 81/97] fix: a client that disconnects while it is being
 replied to does not stop the server, and replies are sent whole

---
 bomba_tcp_server.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 31f5ec5..26d0317 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -150,6 +150,12 @@ class TcpServer {
 	std::chrono::nanoseconds _totalResponseTime = std::chrono::nanoseconds(0);
 	int64_t _totalResponses = 0;
 
+#ifdef MSG_NOSIGNAL
+	static inline const Net::socket_base::message_flags noSignals{MSG_NOSIGNAL};
+#else
+	static inline const Net::socket_base::message_flags noSignals{};
+#endif
+
 	struct Session : ITcpServerSession {
 		Net::ip::tcp::socket _socket;
 		typename Responder::Session _responder;
@@ -191,9 +197,19 @@ class TcpServer {
 		}
 
 		std::pair<ServerReaction, int> feedToResponder(std::span<char> data) override {
-			return _responder.respond(data, [this] (std::span<const char> output) {
-				_socket.send(Net::buffer(output.data(), output.size()));
+			bool connected = true;
+			std::pair<ServerReaction, int> result = _responder.respond(data, [&] (std::span<const char> output) {
+				while (connected && !output.empty()) {
+					std::error_code error;
+					int sent = _socket.send(Net::buffer(output.data(), output.size()), noSignals, error);
+					if (error && error != std::errc::interrupted)
+						connected = false; // The client has disconnected
+					output = output.subspan(sent);
+				}
 			});
+			if (!connected)
+				return {ServerReaction::DISCONNECT, 0};
+			return result;
 		}
 
 		void notifyMessageWasParsed() override {
-- 
2.43.0


From 9563f7eaad8100bfcaf27a1aadf9a9b17b7fa19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:30 +0000
Subject: [PATCH 82/97] fix: an exception thrown when responding closes that
 connection instead of stopping the server

---
 bomba_tcp_server.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 26d0317..fea5dbd 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -175,7 +175,10 @@ class TcpServer {
 			_socket.async_receive(_space, [this] (std::error_code error, int length = 0) {
 				auto startTime = std::chrono::steady_clock::now();
 
-				bool expectingMore = _buffer.receive(*this, error, length);
+				bool expectingMore = false;
+				try {
+					expectingMore = _buffer.receive(*this, error, length);
+				} catch (...) {} // It concerns only this connection
 
 				if (expectingMore) {
 					readSome();
-- 
2.43.0


From b85e9c575626e6ac284f59a2ff046f309f157fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:30 +0000
Subject: [PATCH 83/97] fix: the server keeps accepting connections after it
 could not accept one

---
 bomba_tcp_server.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index fea5dbd..b799e3e 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -147,6 +147,7 @@ class TcpServer {
 	Net::io_context _context;
 	Net::ip::tcp::endpoint _endpoint;
 	Net::ip::tcp::acceptor _acceptor = {_context, _endpoint};
+	Net::steady_timer _acceptTimer{_context};
 	std::chrono::nanoseconds _totalResponseTime = std::chrono::nanoseconds(0);
 	int64_t _totalResponses = 0;
 
@@ -228,8 +229,16 @@ class TcpServer {
 
 	void startSession() {
 		_acceptor.async_accept(_context, [&] (std::error_code error, Net::ip::tcp::socket socket) {
+			if (error == std::errc::operation_canceled)
+				return;
 			if (error) {
-//				std::cout << "Error: " << error.message() << std::endl;
+				// It can lack some resources, they may be available a bit later
+				_acceptor.cancel(); // Don't be interested in the waiting connections until then
+				_acceptTimer.expires_after(std::chrono::milliseconds(10));
+				_acceptTimer.async_wait([&] (std::error_code error) {
+					if (!error)
+						startSession();
+				});
 				return;
 			}
 			{
-- 
2.43.0


From db93a03615efbacb6109fd8481f836002b165bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:30 +0000
Subject: [PATCH 84/97] fix: the average response time can be obtained before
 the first response

---
 bomba_tcp_server.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index b799e3e..d46ad49 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -282,7 +282,7 @@ public:
 	}
 
 	std::chrono::nanoseconds averageResponseTime() {
-		return _totalResponseTime / _totalResponses;
+		return _totalResponses ? _totalResponseTime / _totalResponses : std::chrono::nanoseconds(0);
 	}
 };
 
-- 
2.43.0


From 7dc1ebb906f41af31f6de2bed886fc039e0c58ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:57 +0000
Subject: [PATCH 85/97] fix: sending a request to a server that has closed the
 connection is an error and does not end the process

---
 bomba_sync_client.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bomba_sync_client.hpp b/bomba_sync_client.hpp
index 6d8e76c..64d467e 100644
--- a/bomba_sync_client.hpp
+++ b/bomba_sync_client.hpp
@@ -20,6 +20,11 @@ class SyncNetworkClient : public ITcpClient {
 	Net::ip::tcp::socket _socket = Net::ip::tcp::socket{_ioContext};
 	Net::ip::tcp::resolver _resolver = Net::ip::tcp::resolver{_ioContext};
 	Net::ip::basic_endpoint<Net::ip::tcp> _server;
+#ifdef MSG_NOSIGNAL
+	static inline const Net::socket_base::message_flags noSignals{MSG_NOSIGNAL};
+#else
+	static inline const Net::socket_base::message_flags noSignals{};
+#endif
 	std::unordered_map<RequestToken, std::vector<char>> _responses;
 	std::vector<char> _leftovers;
 	
@@ -83,7 +88,14 @@ public:
 		if (!_socket.is_open())
 			connect();
 		while (written.size() > 0) {
-			auto inSocket = _socket.write_some(Net::buffer(NetStringView(written.data(), written.size())));
+			std::error_code error;
+			auto inSocket = _socket.send(Net::buffer(written.data(), written.size()), noSignals, error);
+			if (error == std::errc::interrupted)
+				continue;
+			if (error) {
+				remoteError(error.message().c_str());
+				return;
+			}
 			written = std::span<char>(written.begin() + inSocket, written.end());
 		}
 	}
-- 
2.43.0


From c416eaa88338ec1c05677702c704e26c173080cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 86/97] fix: the JavaScript client accepts arrays

---
 public_html/bomba.js | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index b90439a..1f7d136 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -108,16 +108,18 @@ function makeGuiForArg(name, type, identifier, types) {
 
 }
 	
-function makeCheckIfExpectedType(name, described) {
+function makeCheckIfExpectedType(name, described, depth = 0) {
 	if (described === "number") {
 		return `if (typeof ${name} != "number") { throw "${name} must be a number" }`;
 	} else if (described === "string") {
 		return `if (typeof ${name} != "string") { throw "${name} must be a string" }`;
 	} else if (described === "boolean") {
 		return `if (typeof ${name} != "boolean") { throw "${name} must be a boolean" }`;
-	} else if (typeof type === "object" && Array.isArray(type)) {
-		let result = `if (typeof ${name} != "object" || Array.isArray(${name})) { throw "${name} must be an array" } `;
-		result += `for (let i = 0; i < ${name}.length; i++) { ${ makeCheckIfExpectedType(name + "[i]", described[0]) } }`;
+	} else if (Array.isArray(described)) {
+		const index = `i${depth}`;
+		let result = `if (!Array.isArray(${name})) { throw "${name} must be an array" } `;
+		result += `for (let ${index} = 0; ${index} < ${name}.length; ${index}++) { ${ makeCheckIfExpectedType(`${name}[${index}]`, described[0], depth + 1) } }`;
+		return result;
 	} else {
 		return `if (${name}.constructor.name != "${described}") { throw "${name} must be a an object of type ${described}" }`;
 	}
-- 
2.43.0


From 1b79725ad6c3ae00ed7d92efa7646bb8818c3088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 87/97] fix: the JavaScript client accepts objects with any
 keys

---
 public_html/bomba.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index 1f7d136..98ef05d 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -120,6 +120,8 @@ function makeCheckIfExpectedType(name, described, depth = 0) {
 		let result = `if (!Array.isArray(${name})) { throw "${name} must be an array" } `;
 		result += `for (let ${index} = 0; ${index} < ${name}.length; ${index}++) { ${ makeCheckIfExpectedType(`${name}[${index}]`, described[0], depth + 1) } }`;
 		return result;
+	} else if (described === "object") {
+		return `if (typeof ${name} != "object" || ${name} === null || Array.isArray(${name})) { throw "${name} must be an object" }`;
 	} else {
 		return `if (${name}.constructor.name != "${described}") { throw "${name} must be a an object of type ${described}" }`;
 	}
-- 
2.43.0


From 37c818ae61b10305d431fce7f3a1220bbd9cb07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 88/97] fix: the JavaScript client sends the members the
 classes declare, checks also those of nested objects

---
 public_html/bomba.js | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index 98ef05d..597b453 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -127,6 +127,16 @@ function makeCheckIfExpectedType(name, described, depth = 0) {
 	}
 }
 
+function makeConversion(name, described) {
+	if (described === "number" || described === "string" || described === "boolean" || described === "object") {
+		return name;
+	} else if (Array.isArray(described)) {
+		return `${name}.map((element) => ${ makeConversion("element", described[0]) })`;
+	} else {
+		return `${name}.toJson()`;
+	}
+}
+
 function generateApiClass(name, definition, types) {
 	let code = `(class ${name} {\n/**\n`;
 	code += ` * Creates a new instance of class ${name}\n`;
@@ -155,7 +165,7 @@ function generateApiClass(name, definition, types) {
 	
 	for (const [name, type] of Object.entries(definition)) {
 		code += `\t\t${ makeCheckIfExpectedType(`this.${name}`, type) }\n`;
-		code += `\t\tresult.${name} = this.${name}\n`;
+		code += `\t\tresult.${name} = ${ makeConversion(`this.${name}`, type) }\n`;
 	}
 	code += "\t\treturn result;\n";
 	code += "\t}\n";
@@ -212,9 +222,7 @@ function generateApiCall(name, argNames, argDefinitions, docLines, returnInfo, p
 			code += `\tif (arg_${argNames[i]} != undefined) `;
 		}
 		code += `\t{\n\t\t${ makeCheckIfExpectedType(`arg_${argNames[i]}`, argDefinitions[i].type) }\n`;
-		code += `\t\tif (typeof arg_${argNames[i]} === "object" && typeof arg_${argNames[i]}.constructor.name === "string")\n`;
-		code += `\t\t\trequest.params.${argNames[i]} = arg_${argNames[i]}.toJson()\n`;
-		code += `\t\trequest.params.${argNames[i]} = arg_${argNames[i]}\n`;
+		code += `\t\trequest.params.${argNames[i]} = ${ makeConversion(`arg_${argNames[i]}`, argDefinitions[i].type) }\n`;
 		code += "\t}\n";
 	}
 	code += "\tconst stringified = JSON.stringify(request)\n";
-- 
2.43.0


From b48ef407dc9c3cf4bce5cba66c6ebd69b30b575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 89/97] fix: the JavaScript client obtains the description from
 the server it's told to use

---
 public_html/bomba.js | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index 597b453..c3adc48 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -3,6 +3,10 @@ async function getJson(target, basePath = "", extraParams) {
 		if (!basePath) {
 			basePath = 'http://0.0.0.0:8080/';
 		}
+		if (!basePath.includes("://"))
+			basePath = 'http://' + basePath;
+		if (!basePath.endsWith("/"))
+			basePath += "/";
 		if (getJson.fetch === undefined) {
 			getJson.fetch = (...args) => import("node-fetch").then(({default: fetch}) => fetch(...args));
 		}
@@ -281,7 +285,7 @@ function generateApiCallGui(callee, name, argNames, argDefinitions, types) {
 }
 
 export async function loadApi(path) {
-	const description = await getJson("api_description.json");
+	const description = await getJson("api_description.json", path);
 	const api = {};
 	const types = {};
 	
-- 
2.43.0


From 8f33191525a1e19245539efd70350bc44d2ac63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 90/97] fix: documentation can contain ends of comments

---
 public_html/bomba.js | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index c3adc48..d277585 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -51,6 +51,10 @@ function humanise(source) {
 	return result;
 }
 	
+function makeComment(lines) {
+	return lines.join(" ").replace(/\*\//g, "* /");
+}
+
 function extractType(type) {
 	if (Array.isArray(type) && type.length > 0 ) {
 		const extracted = extractType(type[0]);
@@ -200,15 +204,15 @@ function generateApiCall(name, argNames, argDefinitions, docLines, returnInfo, p
 	let code = "/**\n";
 	if (docLines.length > 0) {
 		for (const line of returnInfo.doc_lines) {
-			code += ` * ${line}\n`;
+			code += ` * ${ makeComment([line]) }\n`;
 		}
 		code += " *\n";
 	}
 	for (let i = 0; i < argNames.length; i++) {
 		const type = extractType(argDefinitions[i].type);
-		code += ` * @param {${type}} arg_${ argNames[i] } ${ argDefinitions[i].doc_lines.join(" ") } \n`;
+		code += ` * @param {${type}} arg_${ argNames[i] } ${ makeComment(argDefinitions[i].doc_lines) } \n`;
 	}
-	code += ` * @return {${extractType(returnInfo.type)}} ${ returnInfo.doc_lines.join(" ") } \n`;
+	code += ` * @return {${extractType(returnInfo.type)}} ${ makeComment(returnInfo.doc_lines) } \n`;
 	
 	code += " */\nasync (";
 	for (let i = 0; i < argNames.length; i++) {
-- 
2.43.0


From 3b7391c1b58434a974fa5525c2eaf29e60c054b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 91/97] fix: groups of methods can be named like members of all
 JavaScript objects

---
 public_html/bomba.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index d277585..03b09db 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -319,7 +319,7 @@ export async function loadApi(path) {
 			if (index === nameParts.length - 1) {
 				subApi[part] = made;
 			} else {
-				if (subApi[part] === undefined) {
+				if (!Object.hasOwn(subApi, part)) {
 					subApi[part] = {};
 				}
 				subApi = subApi[part];
-- 
2.43.0


From db8db2dcaa4af2cd133fcf6a9da2ab73352d0f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 92/97] fix: the GUI of classes with arrays as members does not
 offer a field for one element

---
 public_html/bomba.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index 03b09db..5c49577 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -183,7 +183,7 @@ function generateApiClass(name, definition, types) {
 	code += "\t\tcontainer.className = 'bombaObjectBox'\n";
 	code += "\t\tlet valueGetters = []\n";
 	for (const [name, type] of Object.entries(definition)) {
-		code += `\t\tlet [elem_${name}, getter_${name}] = makeGuiForArg("${ humanise(name) }", "${type}", undefined, types)\n`;
+		code += `\t\tlet [elem_${name}, getter_${name}] = makeGuiForArg("${ humanise(name) }", ${ JSON.stringify(type) }, undefined, types)\n`;
 		code += `\t\tcontainer.appendChild(elem_${name})\n`;
 		code += `\t\tvalueGetters.push(() => this.${name} = getter_${name}())\n`;
 	}
-- 
2.43.0


From b9760aed00af70d5fd03f80f945466a906a3a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 93/97] fix: the GUI can be created if there are arguments with
 any keys

---
 public_html/bomba.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index 5c49577..3df5393 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -102,6 +102,9 @@ function makeGuiForArg(name, type, identifier, types) {
 	} else if (Array.isArray(typeObtained)) {
 		const space = document.createElement("div");
 		return [space, () => { return []; }];
+	} else if (typeObtained === "object") {
+		const space = document.createElement("div");
+		return [space, () => { return {}; }];
 	} else {
 		const space = document.createElement("fieldset");
 		space.className = "bombaFrame";
-- 
2.43.0


From 7dd519f811cf1aafdb678ea324a2537da3efc605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 94/97] fix: the GUI of a group of methods shows its name
 instead of creating an element of that name

---
 public_html/bomba.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index 3df5393..076e13a 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -343,7 +343,9 @@ export async function loadApi(path) {
 			if (name) {
 				container = document.createElement("details");
 				container.open = true;
-				container.appendChild(document.createElement(name));
+				const summary = document.createElement("summary");
+				summary.textContent = humanise(name);
+				container.appendChild(summary);
 			} else {
 				container = document.createElement("div");
 			}
-- 
2.43.0


From 28d01d9d4d3b04585f3bd5bd3b33ca49c4406798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 95/97] fix: the GUI of services with groups of methods can be
 created

---
 public_html/bomba.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index 076e13a..c2f06c4 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -334,7 +334,7 @@ export async function loadApi(path) {
 		let elementMakers = [];
 		for (const [subName, value] of Object.entries(api)) {
 			if (typeof value != "function") {
-				value.gui = makeApiGuiGenerator(value, subName);
+				makeApiGuiGenerator(value, subName);
 			}
 			elementMakers.push(value.gui);
 		}
-- 
2.43.0


From 54b1018be4a2772c308c022c0346b7d329905a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:21 +0000
Subject: [PATCH 96/97] fix: HTTP connections are closed also if it's asked for
 with capital letters or among other options

---
 bomba_http.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index d8b539c..b2617e6 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -4,6 +4,7 @@
 #ifndef BOMBA_CORE // Needed to run in godbolt
 #include "bomba_core.hpp"
 #endif
+#include <algorithm>
 #include <charconv>
 
 // Good HTTP protocol description: https://www3.ntu.edu.sg/home/ehchua/programming/webprogramming/HTTP_Basics.html
@@ -668,11 +669,29 @@ public:
 					requestType = WEIRD_REQUEST;
 				return true;
 			}
+			// If a list of options separated by commas contains the option, regardless of letter case
+			static bool hasOption(std::string_view list, std::string_view option) {
+				while (true) {
+					size_t end = std::min(list.find(','), list.size());
+					std::string_view part = list.substr(0, end);
+					while (!part.empty() && (part.front() == ' ' || part.front() == '\t'))
+						part.remove_prefix(1);
+					while (!part.empty() && (part.back() == ' ' || part.back() == '\t'))
+						part.remove_suffix(1);
+					if (std::equal(part.begin(), part.end(), option.begin(), option.end(), [] (char given, char sought) {
+						return given == sought || (given >= 'A' && given <= 'Z' && given + 'a' - 'A' == sought);
+					}))
+						return true;
+					if (end == list.size())
+						return false;
+					list.remove_prefix(end + 1);
+				}
+			}
 			virtual void headerReader(std::string_view name, std::string_view value, std::pair<int, int> location) override {
 				if (name == "content-type") {
 					contentType = location;
 				} else if (name == "connection") {
-					if (value == "close")
+					if (hasOption(value, "close"))
 						ending = ServerReaction::DISCONNECT;
 				} // Ignore others
 			}
-- 
2.43.0


From c494ce4b7aa15021fe007590b55dd22e1b01d7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:50 +0000
Subject: [PATCH 97/97] fix: polling the TLS client for a response does not
 wait for it and finds those that were decrypted already

---
 tls/tls_sync_client.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tls/tls_sync_client.hpp b/tls/tls_sync_client.hpp
index 9b2fa87..b8bebdd 100644
--- a/tls/tls_sync_client.hpp
+++ b/tls/tls_sync_client.hpp
@@ -62,12 +62,15 @@ class TlsSyncClient : public ITcpClient {
 					return;
 			}
 
-			std::error_code error;
+			boost::system::error_code error;
+			if constexpr(!doWait)
+				_socket.next_layer().non_blocking(true); // Bytes that arrived don't have to contain any data
+			auto received = _socket.read_some(boost::asio::buffer(responseBuffer), error);
 			if constexpr(!doWait) {
-				if (_socket.next_layer().available() == 0)
+				_socket.next_layer().non_blocking(false);
+				if (error)
 					break;
 			}
-			auto received = _socket.read_some(boost::asio::buffer(responseBuffer));
 			if (error) {
 				remoteError(error.message().c_str());
 				break;
-- 
2.43.0

