From 3a22851f181089d80c8e6b1697eb8c680e35604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:17 +0000
Subject: [PATCH 01/38] fix: Buffer reads past its end must not touch memory
 outside of the buffer

---
 src/utils/Buffer.cpp | 48 ++++++++++++++++++++++++++------------------
 src/utils/Buffer.h   |  2 ++
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/utils/Buffer.cpp b/src/utils/Buffer.cpp
index 0e3ed2a..bffe53b 100644
--- a/src/utils/Buffer.cpp
+++ b/src/utils/Buffer.cpp
@@ -18,6 +18,13 @@ namespace utils {
 	Buffer::Buffer() : _buffer(0), _position{0} {
 	}
 
+	uint8_t Buffer::nextByte() {
+		// Past the end there is nothing to read, isValid() reports it by the position
+		uint8_t val = _position < _buffer.size() ? _buffer[_position] : 0;
+		++_position;
+		return val;
+	}
+
 	Buffer &Buffer::operator<<(uint8_t val) {
 		_buffer.push_back(val);
 		return *this;
@@ -25,7 +32,7 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint8_t &val) {
-		val = _buffer[_position++];
+		val = nextByte();
 		return *this;
 
 	}
@@ -37,7 +44,7 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(int8_t &val) {
-		val = static_cast<uint8_t>(_buffer[_position++]);
+		val = static_cast<uint8_t>(nextByte());
 		return *this;
 	}
 
@@ -48,8 +55,8 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint16_t &val) {
-		val = static_cast<uint16_t>(_buffer[_position++]);
-		val += static_cast<uint16_t>(_buffer[_position++] << 8);
+		val = static_cast<uint16_t>(nextByte());
+		val += static_cast<uint16_t>(nextByte() << 8);
 		return *this;
 	}
 
@@ -71,10 +78,10 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint32_t &val) {
-		val = static_cast<uint32_t>(_buffer[_position++]);
-		val += static_cast<uint32_t>(_buffer[_position++] << 8);
-		val += static_cast<uint32_t>(_buffer[_position++] << 16);
-		val += static_cast<uint32_t>(_buffer[_position++] << 24);
+		val = static_cast<uint32_t>(nextByte());
+		val += static_cast<uint32_t>(nextByte() << 8);
+		val += static_cast<uint32_t>(nextByte() << 16);
+		val += static_cast<uint32_t>(nextByte() << 24);
 
 		return *this;
 	}
@@ -101,14 +108,14 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint64_t &val) {
-		val = static_cast<uint64_t>(_buffer[_position++]);
-		val += static_cast<uint64_t>(_buffer[_position++]) << 8;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 16;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 24;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 32;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 40;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 48;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 56;
+		val = static_cast<uint64_t>(nextByte());
+		val += static_cast<uint64_t>(nextByte()) << 8;
+		val += static_cast<uint64_t>(nextByte()) << 16;
+		val += static_cast<uint64_t>(nextByte()) << 24;
+		val += static_cast<uint64_t>(nextByte()) << 32;
+		val += static_cast<uint64_t>(nextByte()) << 40;
+		val += static_cast<uint64_t>(nextByte()) << 48;
+		val += static_cast<uint64_t>(nextByte()) << 56;
 
 		return *this;
 	}
@@ -143,8 +150,9 @@ Buffer &Buffer::operator<<(float val) {
 	}
 
 	Buffer &Buffer::operator>>(std::vector<uint8_t> &val) {
-		std::copy(_buffer.begin() + _position, _buffer.begin() + _position + val.size(), val.begin());
-		_position += val.size();
+		for (auto& v : val) {
+			v = nextByte();
+		}
 		return *this;
 	}
 
@@ -159,8 +167,8 @@ Buffer &Buffer::operator<<(float val) {
 
 	Buffer &Buffer::operator>>(std::vector<uint16_t> &val) {
 		for (auto& v : val) {
-			v = static_cast<int16_t>(_buffer[_position++]);
-			v += static_cast<int16_t>(_buffer[_position++] << 8);
+			v = static_cast<int16_t>(nextByte());
+			v += static_cast<int16_t>(nextByte() << 8);
 		}
 
 		return *this;
diff --git a/src/utils/Buffer.h b/src/utils/Buffer.h
index 32c1409..f340d7c 100644
--- a/src/utils/Buffer.h
+++ b/src/utils/Buffer.h
@@ -114,6 +114,8 @@ namespace utils {
 		bool isValid() const { return _position <= _buffer.size(); }
 		bool empty() const  { return  _position >= _buffer.size(); }
 	private:
+		uint8_t nextByte();
+
 		std::vector<uint8_t> _buffer;
 		size_t _position;
 	};
-- 
2.43.0


From a5a1515059f36c14fb742113905ad3a63a642c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 02/38] fix: IdentityObject must read the instance it is asked
 for

---
 src/IdentityObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IdentityObject.cpp b/src/IdentityObject.cpp
index 0e771c9..7e0e1c3 100644
--- a/src/IdentityObject.cpp
+++ b/src/IdentityObject.cpp
@@ -37,7 +37,7 @@ namespace eipScanner {
 		auto response = messageRouter->sendRequest(
 				si,
 				ServiceCodes::GET_ATTRIBUTE_ALL,
-				EPath(CLASS_ID, 1),
+				EPath(CLASS_ID, instanceId),
 				{});
 
 		if (response.getGeneralStatusCode() == GeneralStatusCodes::SUCCESS) {
-- 
2.43.0


From 1b6b3df290b7332a7ba9c1218178627273a32db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 03/38] fix: IdentityObject must reject a reply without all the
 attributes

---
 src/IdentityObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IdentityObject.cpp b/src/IdentityObject.cpp
index 7e0e1c3..cebc3d9 100644
--- a/src/IdentityObject.cpp
+++ b/src/IdentityObject.cpp
@@ -48,7 +48,7 @@ namespace eipScanner {
 				>> _productName;
 
 			if (!buffer.isValid()) {
-				std::runtime_error("Not enough data in the response");
+				throw std::runtime_error("Not enough data in the response");
 			}
 
 		} else {
-- 
2.43.0


From e1634b9bf803d482331a886db01571b6576fb629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 04/38] fix: ParameterObject must reject replies without all
 the attributes

---
 src/ParameterObject.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index adc702b..142111c 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -94,6 +94,10 @@ namespace eipScanner {
 			Buffer buffer(response.getData());
 			buffer >> dataSize;
 
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
 			_value.resize(dataSize);
 			_minValue.resize(dataSize);
 			_maxValue.resize(dataSize);
@@ -157,7 +161,15 @@ namespace eipScanner {
 							throw std::runtime_error("Failed to read value of attribute=" + std::to_string(attrId));
 						}
 
-						data.insert(data.end(), response.getData().begin(), response.getData().end());
+						if (response.getData().size() < sizeof(CipUint)) {
+							throw std::runtime_error("Not enough data in the response");
+						}
+
+						data.insert(data.end(), response.getData().begin(), response.getData().begin() + sizeof(CipUint));
+					}
+
+					if (!buffer.isValid()) {
+						throw std::runtime_error("Not enough data in the response");
 					}
 
 					buffer = Buffer(data);
@@ -167,7 +179,7 @@ namespace eipScanner {
 			}
 
 			if (!buffer.isValid()) {
-				std::runtime_error("Not enough data in the response");
+				throw std::runtime_error("Not enough data in the response");
 			}
 
 			Logger(LogLevel::DEBUG) << "Read Parameter Object"
@@ -189,7 +201,14 @@ namespace eipScanner {
 
 		if (response.getGeneralStatusCode() == GeneralStatusCodes::SUCCESS) {
 			Buffer buffer(response.getData());
-			buffer >> _value;
+			std::vector<uint8_t> value(_value.size());
+			buffer >> value;
+
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
+			_value = value;
 		} else {
 			cip::logGeneralAndAdditionalStatus(response);
 			throw std::runtime_error("Failed to read value");
-- 
2.43.0


From 1a1fa5b22736bdc328e41ed1231405f5828fca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 05/38] fix: a truncated Forward Open reply must be rejected

---
 src/ConnectionManager.cpp                         | 3 +++
 src/cip/connectionManager/ForwardOpenResponse.cpp | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index a4c76a2..ad29ad3 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -136,6 +136,9 @@ namespace eipScanner {
 				Buffer sockAddrBuffer(o2tSockAddrInfo->getData());
 				sockets::EndPoint endPoint("",0);
 				sockAddrBuffer >> endPoint;
+				if (!sockAddrBuffer.isValid()) {
+					throw std::runtime_error("Wrong socket address info in the Forward Open response");
+				}
 
 				if (endPoint.getHost() == "0.0.0.0") {
 					ioConnection->_socket = std::make_unique<UDPSocket>(
diff --git a/src/cip/connectionManager/ForwardOpenResponse.cpp b/src/cip/connectionManager/ForwardOpenResponse.cpp
index 622c1d1..d1282c1 100644
--- a/src/cip/connectionManager/ForwardOpenResponse.cpp
+++ b/src/cip/connectionManager/ForwardOpenResponse.cpp
@@ -2,6 +2,7 @@
 // Created by Aleksey Timin on 11/18/19.
 //
 
+#include <stdexcept>
 #include "ForwardOpenResponse.h"
 #include "utils/Buffer.h"
 
@@ -41,6 +42,10 @@ namespace connectionManager {
 
 		_applicationReplay.resize(_applicationReplaySize*2);
 		buffer >> _applicationReplay;
+
+		if (!buffer.isValid()) {
+			throw std::runtime_error("Not enough data in the Forward Open response");
+		}
 	}
 
 	CipUdint ForwardOpenResponse::getO2TNetworkConnectionId() const {
-- 
2.43.0


From 051240294835ab552b79b118e5b0a875bde856e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 06/38] fix: truncated File Object replies must not be taken as
 the file content

---
 src/fileObject/FileObjectLoadedState.cpp       |  6 ++++++
 src/fileObject/FileObjectState.cpp             |  4 ++++
 .../FileObjectUploadInProgressState.cpp        | 18 ++++++++++++++++++
 3 files changed, 28 insertions(+)

diff --git a/src/fileObject/FileObjectLoadedState.cpp b/src/fileObject/FileObjectLoadedState.cpp
index f078943..a1a90ea 100644
--- a/src/fileObject/FileObjectLoadedState.cpp
+++ b/src/fileObject/FileObjectLoadedState.cpp
@@ -31,6 +31,12 @@ namespace fileObject {
 			cip::CipUsint transferSize = 0;
 
 			buffer >> fileSize >> transferSize;
+			if (!buffer.isValid()) {
+				logWithStateName(LogLevel::ERROR, "Not enough data in the response");
+				handler(cip::GeneralStatusCodes::INVALID_REPLY_RECEIVED, std::vector<uint8_t>(0));
+				return;
+			}
+
 			setState<FileObjectUploadInProgressState>(fileSize, transferSize, handler);
 
 		} else {
diff --git a/src/fileObject/FileObjectState.cpp b/src/fileObject/FileObjectState.cpp
index 84d4bc2..5a13a89 100644
--- a/src/fileObject/FileObjectState.cpp
+++ b/src/fileObject/FileObjectState.cpp
@@ -64,6 +64,10 @@ namespace fileObject {
 			cip::CipUsint stateCode;
 			buffer >> stateCode;
 
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
 			switch (static_cast<FileObjectStateCodes>(stateCode)) {
 				case FileObjectStateCodes::NONEXISTENT:
 					setState<FileObjectNonExistentState>();
diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index 0054a26..fba4d46 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -51,6 +51,12 @@ namespace fileObject {
 					"Receive transfer packet type=" + std::to_string(
 							static_cast<cip::CipUsint>(transferPacketType)));
 
+			if (!buffer.isValid()) {
+				logWithStateName(LogLevel::ERROR, "Not enough data in the response");
+				_handler(cip::GeneralStatusCodes::INVALID_REPLY_RECEIVED, std::vector<uint8_t>());
+				return false;
+			}
+
 			if (transferNumber != _transferNumber) {
 				logWithStateName(LogLevel::ERROR, "Wrong transfer number");
 				_handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
@@ -74,6 +80,12 @@ namespace fileObject {
 				}
 				case TransferPacketTypeCodes::LAST:
 				case TransferPacketTypeCodes::FIRST_AND_LAST: {
+					if (response.getData().size() < 4) {
+						logWithStateName(LogLevel::ERROR, "Not enough data in the response");
+						_handler(cip::GeneralStatusCodes::INVALID_REPLY_RECEIVED, std::vector<uint8_t>());
+						return false;
+					}
+
 					std::vector<uint8_t> fileData(response.getData().size() - 4);	//TODO: Check CRC
 					buffer >> fileData;
 
@@ -90,6 +102,12 @@ namespace fileObject {
 					throw std::runtime_error("Received unexpected transfer type");
 			};
 
+			if (!buffer.isValid()) {
+				logWithStateName(LogLevel::ERROR, "Not enough data in the response");
+				_handler(cip::GeneralStatusCodes::INVALID_REPLY_RECEIVED, std::vector<uint8_t>());
+				return false;
+			}
+
 			_transferNumber++;
 		} else {
 			logGeneralAndAdditionalStatus(response);
-- 
2.43.0


From d1ec439d4216580856a030b23500ca58c90ddbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 07/38] fix: the upload is over when the device refuses a
 transfer

---
 src/fileObject/FileObjectUploadInProgressState.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index fba4d46..a4d86cb 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -112,6 +112,7 @@ namespace fileObject {
 		} else {
 			logGeneralAndAdditionalStatus(response);
 			_handler(response.getGeneralStatusCode(), std::vector<uint8_t>());
+			return false;
 		}
 
 		return true;
-- 
2.43.0


From 7127f89f634067a4f56b2ef43b310db9256cfa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 08/38] fix: DPI fault objects must reject truncated replies

---
 src/vendor/ra/powerFlex525/DPIFaultObject.cpp    | 5 +++++
 src/vendor/ra/powerFlex525/DPIFaultParameter.cpp | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/vendor/ra/powerFlex525/DPIFaultObject.cpp b/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
index e3f99cb..33266fc 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
+++ b/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
@@ -54,6 +54,11 @@ namespace powerFlex525 {
 
             cip::CipUint flags;
             buffer >> flags;
+
+            if (!buffer.isValid()) {
+                throw std::runtime_error("Not enough data in the response");
+            }
+
             _fullInformation.isValidData = flags & VALID_DATA;
             _fullInformation.isRealTime = flags & REAL_TIME;
         } else {
diff --git a/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp b/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
index db43afb..94b75bc 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
+++ b/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
@@ -169,6 +169,10 @@ namespace powerFlex525 {
 			CipUint value;
 			buffer >> value;
 
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
 			return value;
 
 		} else {
-- 
2.43.0


From 531402203c9fb0919f7cd958d781076983f06ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 09/38] fix: a reply without the interface handle or the item
 count must be rejected

---
 src/MessageRouter.cpp                                  | 4 ++++
 src/eip/CommonPacket.cpp                               | 4 ++++
 src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/MessageRouter.cpp b/src/MessageRouter.cpp
index 16f2232..d1a5c55 100644
--- a/src/MessageRouter.cpp
+++ b/src/MessageRouter.cpp
@@ -59,6 +59,10 @@ namespace eipScanner {
 
 		auto receivedPacket = si->sendAndReceive(packetToSend);
 
+		if (receivedPacket.getData().size() < 6) {
+			throw std::runtime_error("Not enough data in the SendRRData response");
+		}
+
 		Buffer buffer(receivedPacket.getData());
 		cip::CipUdint interfaceHandle = 0;
 		cip::CipUint timeout = 0;
diff --git a/src/eip/CommonPacket.cpp b/src/eip/CommonPacket.cpp
index c51a176..3da3208 100644
--- a/src/eip/CommonPacket.cpp
+++ b/src/eip/CommonPacket.cpp
@@ -38,6 +38,10 @@ namespace eip {
 		Buffer buffer(data);
 		cip::CipUint count;
 		buffer >> count;
+		if (!buffer.isValid()) {
+			throw std::runtime_error("Wrong Common Packet format");
+		}
+
 		for (int i = 0; i < count && !buffer.empty(); ++i) {
 			cip::CipUint typeId;
 			cip::CipUint length;
diff --git a/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp b/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp
index f966901..a698fe7 100644
--- a/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp
+++ b/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp
@@ -54,6 +54,10 @@ namespace eipScanner {
 
 		auto receivedPacket = si->sendAndReceive(packetToSend);
 
+		if (receivedPacket.getData().size() < 6) {
+			throw std::runtime_error("Not enough data in the SendRRData response");
+		}
+
 		Buffer buffer(receivedPacket.getData());
 		cip::CipUdint interfaceHandle = 0;
 		cip::CipUint timeout = 0;
-- 
2.43.0


From f72f162445b8279c683fd371f4dc0276339b303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 10/38] fix: a decoded EPATH must keep the segments with zero
 IDs

---
 src/cip/EPath.cpp                              | 13 ++++++++++---
 src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/cip/EPath.cpp b/src/cip/EPath.cpp
index 447ef30..885c13b 100644
--- a/src/cip/EPath.cpp
+++ b/src/cip/EPath.cpp
@@ -131,6 +131,7 @@ namespace cip {
 		_objectId = 0;
 		_attributeId = 0;
 		_size = 0;
+		bool hasClass = false, hasInstance = false, hasAttribute = false;
 
 		for (int i = 0; i < data.size() && !buffer.empty(); ++i) {
 			EPathSegmentTypes segmentType;
@@ -142,26 +143,32 @@ namespace cip {
 				case EPathSegmentTypes::CLASS_8_BITS:
 					buffer >> byte;
 					_classId = byte;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::CLASS_16_BITS:
 					buffer >> ignore >> word;
 					_classId = word;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_8_BITS:
 					buffer >> byte;
 					_objectId = byte;
+					hasInstance = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_16_BITS:
 					buffer >> ignore >> word;
 					_objectId = word;
+					hasInstance = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_8_BITS:
 					buffer >> byte;
 					_attributeId = byte;
+					hasAttribute = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_16_BITS:
 					buffer >> ignore >> word;
 					_attributeId = word;
+					hasAttribute = true;
 					break;
 				default:
 					throw std::runtime_error("Unknown EPATH segment =" + std::to_string(static_cast<int>(segmentType)));
@@ -172,13 +179,13 @@ namespace cip {
 			throw std::runtime_error("Wrong EPATH format");
 		}
 
-		if (_classId > 0) {
+		if (hasClass) {
 			_size++;
 
-			if (_objectId > 0) {
+			if (hasInstance) {
 				_size++;
 
-				if (_attributeId > 0) {
+				if (hasAttribute) {
 					_size++;
 				}
 			}
diff --git a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
index db26946..1732f9d 100644
--- a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
+++ b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
@@ -101,6 +101,7 @@ namespace cip {
 		_objectId = 0;
 		_attributeId = 0;
 		_size = 0;
+		bool hasClass = false, hasInstance = false, hasAttribute = false;
 
 		for (int i = 0; i < data.size() && !buffer.empty(); ++i) {
 			EPathSegmentTypes segmentType;
@@ -112,26 +113,32 @@ namespace cip {
 				case EPathSegmentTypes::CLASS_8_BITS:
 					buffer >> byte;
 					_classId = byte;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::CLASS_16_BITS:
 					buffer >> ignore >> word;
 					_classId = word;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_8_BITS:
 					buffer >> byte;
 					_objectId = byte;
+					hasInstance = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_16_BITS:
 					buffer >> ignore >> word;
 					_objectId = word;
+					hasInstance = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_8_BITS:
 					buffer >> byte;
 					_attributeId = byte;
+					hasAttribute = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_16_BITS:
 					buffer >> ignore >> word;
 					_attributeId = word;
+					hasAttribute = true;
 					break;
 				default:
 					throw std::runtime_error("Unknown EPATH segment =" + std::to_string(static_cast<int>(segmentType)));
@@ -142,13 +149,13 @@ namespace cip {
 			throw std::runtime_error("Wrong EPATH format");
 		}
 
-		if (_classId > 0) {
+		if (hasClass) {
 			_size++;
 
-			if (_objectId > 0) {
+			if (hasInstance) {
 				_size++;
 
-				if (_attributeId > 0) {
+				if (hasAttribute) {
 					_size++;
 				}
 			}
-- 
2.43.0


From 922de6e97c8da89e5d36739bbfd316e929464380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 11/38] fix: NetworkConnectionParametersBuilder setters must
 replace the field they set

---
 .../NetworkConnectionParametersBuilder.cpp    | 20 +++++++++----------
 .../NetworkConnectionParametersBuilder.h      |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
index 219a191..8b733a7 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
@@ -19,38 +19,38 @@ namespace connectionManager {
 
 	}
 
-	NetworkConnectionParametersBuilder NetworkConnectionParametersBuilder::setRedundantOwner(RedundantOwner val) {
+	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setRedundantOwner(RedundantOwner val) {
 		if (_lfo) {
-			_value |= (val << 31);
+			_value = (_value & ~(static_cast<CipUdint>(1) << 31)) | (static_cast<CipUdint>(val) << 31);
 		} else {
-			_value |= (val << 15);
+			_value = (_value & ~(static_cast<CipUdint>(1) << 15)) | (static_cast<CipUdint>(val) << 15);
 		}
 		return *this;
 	}
 
 	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setConnectionType(ConnectionType val) {
 		if (_lfo) {
-			_value |= (val << 29);
+			_value = (_value & ~(static_cast<CipUdint>(3) << 29)) | (static_cast<CipUdint>(val) << 29);
 		} else {
-			_value |= (val << 13);
+			_value = (_value & ~(static_cast<CipUdint>(3) << 13)) | (static_cast<CipUdint>(val) << 13);
 		}
 		return *this;
 	}
 
 	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setPriority(Priority val) {
 		if (_lfo) {
-			_value |= (val << 26);
+			_value = (_value & ~(static_cast<CipUdint>(3) << 26)) | (static_cast<CipUdint>(val) << 26);
 		}else {
-			_value |= (val << 10);
+			_value = (_value & ~(static_cast<CipUdint>(3) << 10)) | (static_cast<CipUdint>(val) << 10);
 		}
 		return *this;
 	}
 
 	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setType(Type val) {
 		if (_lfo) {
-			_value |= (val << 25);
+			_value = (_value & ~(static_cast<CipUdint>(1) << 25)) | (static_cast<CipUdint>(val) << 25);
 		} else {
-			_value |= (val << 9);
+			_value = (_value & ~(static_cast<CipUdint>(1) << 9)) | (static_cast<CipUdint>(val) << 9);
 		}
 		return *this;
 	}
@@ -60,7 +60,7 @@ namespace connectionManager {
 		if (_lfo) {
 			mask = 0x0000FFFF;
 		}
-		_value |= val & mask;
+		_value = (_value & ~mask) | (val & mask);
 		return *this;
 	}
 
diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.h b/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
index ba091fa..203bb1a 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
@@ -41,7 +41,7 @@ namespace connectionManager {
 		NetworkConnectionParametersBuilder(CipUdint val = 0, bool lfo = false);
 		virtual ~NetworkConnectionParametersBuilder() = default;
 
-		NetworkConnectionParametersBuilder setRedundantOwner(RedundantOwner val);
+		NetworkConnectionParametersBuilder& setRedundantOwner(RedundantOwner val);
 		NetworkConnectionParametersBuilder& setConnectionType(ConnectionType val);
 		NetworkConnectionParametersBuilder& setPriority(Priority val);
 		NetworkConnectionParametersBuilder& setType(Type val);
-- 
2.43.0


From e9ec2e3d9fde965bdc7e6ef9a7c963de8faaa8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 12/38] fix: data that does not fit the 16 bit length must not
 be sent as a malformed packet

---
 src/eip/CommonPacketItem.cpp | 5 +++++
 src/eip/EncapsPacket.cpp     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/eip/CommonPacketItem.cpp b/src/eip/CommonPacketItem.cpp
index b716caf..e1cdcd1 100644
--- a/src/eip/CommonPacketItem.cpp
+++ b/src/eip/CommonPacketItem.cpp
@@ -2,6 +2,8 @@
 // Created by Aleksey Timin on 11/16/19.
 //
 
+#include <limits>
+#include <stdexcept>
 #include "utils/Buffer.h"
 #include "CommonPacketItem.h"
 
@@ -21,6 +23,9 @@ namespace eip {
 		, _length(data.size())
 		, _data(data) {
 
+		if (data.size() > std::numeric_limits<cip::CipUint>::max()) {
+			throw std::length_error("Common Packet item is too long");
+		}
 	}
 
 	CommonPacketItem::~CommonPacketItem() = default;
diff --git a/src/eip/EncapsPacket.cpp b/src/eip/EncapsPacket.cpp
index 64d2ed3..1954d21 100644
--- a/src/eip/EncapsPacket.cpp
+++ b/src/eip/EncapsPacket.cpp
@@ -3,6 +3,7 @@
 //
 
 #include <string>
+#include <limits>
 #include <stdexcept>
 #include "EncapsPacket.h"
 #include "utils/Buffer.h"
@@ -94,6 +95,10 @@ namespace eip {
 	}
 
 	void EncapsPacket::setData(const std::vector<uint8_t> &data) {
+		if (data.size() > std::numeric_limits<cip::CipUint>::max()) {
+			throw std::length_error("EncapsPacket data is too long");
+		}
+
 		_data = data;
 		_length = data.size();
 	}
-- 
2.43.0


From 43b479d32b88e652f36dd084b31f5e8c195a42aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 13/38] fix: EndPoint must have a strict weak ordering

---
 src/ConnectionManager.cpp | 3 ++-
 src/sockets/EndPoint.cpp  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index ad29ad3..76efe24 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -154,7 +154,8 @@ namespace eipScanner {
 			Logger(LogLevel::INFO) << "Open UDP socket to send data to "
 					<< ioConnection->_socket->getRemoteEndPoint().toString();
 
-			findOrCreateSocket(sockets::EndPoint(si->getRemoteEndPoint().getHost(), EIP_DEFAULT_IMPLICIT_PORT));
+			// The socket is bound to any address, so that one is enough for all the adapters
+			findOrCreateSocket(sockets::EndPoint("0.0.0.0", EIP_DEFAULT_IMPLICIT_PORT));
 
 			auto result = _connectionMap
 					.insert(std::make_pair(response.getT2ONetworkConnectionId(), ioConnection));
diff --git a/src/sockets/EndPoint.cpp b/src/sockets/EndPoint.cpp
index b6de7ad..e1b4c8b 100644
--- a/src/sockets/EndPoint.cpp
+++ b/src/sockets/EndPoint.cpp
@@ -67,7 +67,7 @@ namespace sockets {
 
 	bool EndPoint::operator< (const EndPoint& rhs) const {
 		return _host < rhs._host
-			   && _port < rhs._port;
+			   || (_host == rhs._host && _port < rhs._port);
 	}
 
 	std::string EndPoint::toString() const {
-- 
2.43.0


From eddf0eff3afd735520f95e0e645831ba69b5ac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 14/38] fix: engineering values must be rounded to the nearest
 actual value

---
 src/ParameterObject.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ParameterObject.h b/src/ParameterObject.h
index c338f24..db2bd97 100644
--- a/src/ParameterObject.h
+++ b/src/ParameterObject.h
@@ -7,6 +7,7 @@
 
 #include <cmath>
 #include <stdexcept>
+#include <type_traits>
 #include "MessageRouter.h"
 #include "utils/Buffer.h"
 #include "BaseObject.h"
@@ -148,7 +149,7 @@ public:
 	 */
 	template <typename T>
 	void setEngMinValue(cip::CipLreal value) {
-		T actualValue = static_cast<T>(engToActualValue(value));
+		T actualValue = roundValue<T>(engToActualValue(value));
 		_minValue = decodeValue<T>(actualValue);
 	}
 
@@ -182,7 +183,7 @@ public:
 	 */
 	template <typename T>
 	void setEngMaxValue(cip::CipLreal value) {
-		T actualValue = static_cast<T>(engToActualValue(value));
+		T actualValue = roundValue<T>(engToActualValue(value));
 		_maxValue = decodeValue<T>(actualValue);
 	}
 
@@ -216,7 +217,7 @@ public:
 	 */
 	template <typename T>
 	void setEngDefaultValue(cip::CipLreal value) {
-		T actualValue = static_cast<T>(engToActualValue(value));
+		T actualValue = roundValue<T>(engToActualValue(value));
 		_defaultValue = decodeValue<T>(actualValue);
 	}
 
@@ -352,6 +353,11 @@ private:
 		return v;
 	}
 
+	template <typename T>
+	static T roundValue(cip::CipLreal v) {
+		return static_cast<T>(std::is_integral<T>::value ? std::round(v) : v);
+	}
+
 	template <typename T>
 	std::vector<uint8_t> decodeValue(T v) const{
 		utils::Buffer buffer(sizeof(T));
-- 
2.43.0


From 871d0cbcf70073dc7f5672c48eb2b7cc1946587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 15/38] fix: TCPSocket must send the whole packet or report an
 error

---
 src/SessionInfo.cpp       | 10 +++++++---
 src/sockets/TCPSocket.cpp | 14 +++++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/SessionInfo.cpp b/src/SessionInfo.cpp
index cbfb179..0498331 100644
--- a/src/SessionInfo.cpp
+++ b/src/SessionInfo.cpp
@@ -39,9 +39,13 @@ namespace eipScanner {
 	}
 
 	SessionInfo::~SessionInfo() {
-		EncapsPacket packet = EncapsPacketFactory().createUnRegisterSessionPacket(_sessionHandle);
-		_socket.Send(packet.pack());
-		Logger(LogLevel::INFO) << "Unregistered session " << _sessionHandle;
+		try {
+			EncapsPacket packet = EncapsPacketFactory().createUnRegisterSessionPacket(_sessionHandle);
+			_socket.Send(packet.pack());
+			Logger(LogLevel::INFO) << "Unregistered session " << _sessionHandle;
+		} catch (const std::exception& e) {
+			Logger(LogLevel::WARNING) << "Failed to unregister session " << _sessionHandle << ": " << e.what();
+		}
 	}
 
 	EncapsPacket SessionInfo::sendAndReceive(const EncapsPacket& packet) const {
diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index bbceaac..c6f1baf 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -132,9 +132,17 @@ namespace eipScanner {
 			// Do not generate SIGPIPE when calling send() on closed socket
 			flags |= MSG_NOSIGNAL;
 #endif
-			int count = send(_sockedFd, (char*)data.data(), data.size(), flags);
-			if (count < data.size()) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+			size_t count = 0;
+			while (count < data.size()) {
+				auto len = send(_sockedFd, (char*)(data.data() + count), data.size() - count, flags);
+				if (len < 0) {
+					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+						continue;
+					}
+					throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				}
+
+				count += len;
 			}
 		}
 
-- 
2.43.0


From 29252b583b31972af4eda1b983f578d97e39e797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 16/38] fix: a packet cut by the peer closing the connection
 must not be taken as received

---
 src/sockets/TCPSocket.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index c6f1baf..1b392da 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -171,6 +171,7 @@ namespace eipScanner {
 			if (size != count) {
 				Logger(LogLevel::WARNING) << "Received from " << _remoteEndPoint.toString()
 										  << " " << count << " of " << size;
+				throw std::system_error(EIPSCANNER_SOCKET_ERROR(ECONNRESET), BaseSocket::getErrorCategory());
 			}
 
 			return recvBuffer;
-- 
2.43.0


From 3aa389c9add9bea387b80b218657d5c05815daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 17/38] fix: an interrupted wait for the TCP connection is not
 a timeout

---
 src/sockets/TCPSocket.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 1b392da..075b8fe 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -64,15 +64,21 @@ namespace eipScanner {
 				auto res = connect(_sockedFd, (struct sockaddr *) &addr, sizeof(addr));
 				if (res < 0) {
 					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINPROGRESS)) {
+						auto now = std::chrono::steady_clock::now();
+						const auto stopTime = now + connTimeout;
 						do {
 							fd_set myset;
-							auto tv = makePortableInterval(connTimeout);
+							auto tv = makePortableInterval(std::chrono::duration_cast<std::chrono::milliseconds>(stopTime - now));
 
 							FD_ZERO(&myset);
 							FD_SET(_sockedFd, &myset);
 							res = ::select(_sockedFd + 1, NULL, &myset, NULL, &tv);
 
-							if (res < 0 && BaseSocket::getLastError() != EIPSCANNER_SOCKET_ERROR(EINTR)) {
+							if (res < 0) {
+								if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+									now = std::chrono::steady_clock::now();
+									continue;
+								}
 								throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 							} else if (res > 0) {
 								// Socket selected for write
-- 
2.43.0


From ad4604d96bba35e4d02f64da1acdde3b8bdd6bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 18/38] fix: TCPSocket must close the descriptor if it fails to
 set it up

---
 src/sockets/TCPSocket.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 075b8fe..5a5a8ff 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -36,30 +36,30 @@ namespace eipScanner {
 				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 			}
 
+			try {
 #ifdef SO_NOSIGPIPE
-			// Do not generate SIGPIPE for this socket
-			if (setsockopt(_sockedFd, SOL_SOCKET, SO_NOSIGPIPE, &(int){ 1 }, sizeof(int)) < 0) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
-			}
+				// Do not generate SIGPIPE for this socket
+				if (setsockopt(_sockedFd, SOL_SOCKET, SO_NOSIGPIPE, &(int){ 1 }, sizeof(int)) < 0) {
+					throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				}
 #endif
 
-			// Set non-blocking
+				// Set non-blocking
 #if defined(__unix__) || defined(__APPLE__)
-			auto arg = fcntl(_sockedFd, F_GETFL, NULL);
-			if (arg < 0) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
-			}
+				auto arg = fcntl(_sockedFd, F_GETFL, NULL);
+				if (arg < 0) {
+					throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				}
 
-			arg |= O_NONBLOCK;
-			if (fcntl(_sockedFd, F_SETFL, arg) < 0) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
-			}
+				arg |= O_NONBLOCK;
+				if (fcntl(_sockedFd, F_SETFL, arg) < 0) {
+					throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				}
 #endif
 
-			Logger(LogLevel::DEBUG) << "Opened TCP socket fd=" << _sockedFd;
+				Logger(LogLevel::DEBUG) << "Opened TCP socket fd=" << _sockedFd;
 
-			Logger(LogLevel::DEBUG) << "Connecting to " << _remoteEndPoint.toString();
-			try {
+				Logger(LogLevel::DEBUG) << "Connecting to " << _remoteEndPoint.toString();
 				auto addr = _remoteEndPoint.getAddr();
 				auto res = connect(_sockedFd, (struct sockaddr *) &addr, sizeof(addr));
 				if (res < 0) {
-- 
2.43.0


From 23d3f0a2f3d150530e956b39a30a572b3fb38b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 19/38] fix: UDPSocket must report a failed sending

---
 src/IOConnection.cpp      | 9 +++++++--
 src/sockets/UDPSocket.cpp | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 5571496..08294fb 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -132,9 +132,14 @@ namespace eipScanner {
 										  << " bytes are to send. Don't send this data.";
 			} else {
 				buffer << _outputData;
-				commonPacket << factory.createConnectedDataItem(buffer.data());
 
-				_socket->Send(commonPacket.pack());
+				try {
+					commonPacket << factory.createConnectedDataItem(buffer.data());
+					_socket->Send(commonPacket.pack());
+				} catch (const std::exception& e) {
+					Logger(LogLevel::WARNING) << "Connection O2T_ID=" << _o2tNetworkConnectionId
+											  << " failed to send data: " << e.what();
+				}
 			}
 		}
 
diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 04f1ddb..22c8e42 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -61,7 +61,7 @@ namespace sockets {
 		auto addr = _remoteEndPoint.getAddr();
 		int count = sendto(_sockedFd, (char*)data.data(), data.size(), flags,
 				(struct sockaddr *)&addr, sizeof(addr));
-		if (count < data.size()) {
+		if (count < 0 || static_cast<size_t>(count) < data.size()) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 	}
-- 
2.43.0


From ad33d5ece2c699d23007435707f66b6b3068a567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 20/38] fix: UDPSocket must return only the received bytes and
 discovery must ignore malformed responses

---
 src/DiscoveryManager.cpp  | 20 +++++++++++++++++++-
 src/sockets/UDPSocket.cpp |  2 ++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/DiscoveryManager.cpp b/src/DiscoveryManager.cpp
index f8a118a..10ceb7a 100644
--- a/src/DiscoveryManager.cpp
+++ b/src/DiscoveryManager.cpp
@@ -44,11 +44,24 @@ namespace eipScanner {
 			for(;;) {
 				const size_t EIP_MAX_PACKET_SIZE = 504;
 				auto data = socket->Receive(EIP_MAX_PACKET_SIZE);
+				if (data.size() < EncapsPacket::HEADER_SIZE) {
+					Logger(LogLevel::WARNING) << "Received a malformed response to List Identity request. Ignore it.";
+					continue;
+				}
 
 				CommonPacket commonPacket;
-				commonPacket.expand(std::vector<uint8_t>(data.begin()+EncapsPacket::HEADER_SIZE, data.end()));
+				try {
+					commonPacket.expand(std::vector<uint8_t>(data.begin()+EncapsPacket::HEADER_SIZE, data.end()));
+				} catch (const std::runtime_error& e) {
+					Logger(LogLevel::WARNING) << "Received a malformed response to List Identity request: " << e.what();
+					continue;
+				}
 
 				for (int i=0; i < commonPacket.getItems().size(); ++i) {
+					if (commonPacket.getItems()[i].getTypeId() != eip::CommonPacketItemIds::LIST_IDENTITY) {
+						continue;
+					}
+
 					Buffer buffer(commonPacket.getItems()[i].getData());
 					CipUint ignore;
 					sockets::EndPoint socketAddr("", 0);
@@ -65,6 +78,11 @@ namespace eipScanner {
 						   >> revision >> status
 						   >> serialNumber >> productName;
 
+					if (!buffer.isValid()) {
+						Logger(LogLevel::WARNING) << "Received a malformed identity item. Ignore it.";
+						continue;
+					}
+
 					IdentityObject identityObject(i);
 					identityObject.setVendorId(vendorId);
 					identityObject.setDeviceType(deviceType);
diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 22c8e42..b8c35cf 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -75,6 +75,7 @@ namespace sockets {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 
+		recvBuffer.resize(len);
 		return recvBuffer;
 	}
 
@@ -88,6 +89,7 @@ namespace sockets {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 
+		recvBuffer.resize(len);
 		endPoint = EndPoint(addr);
 		return recvBuffer;
 	}
-- 
2.43.0


From b6e197840f95d95008f9c6b3f5c92473397f6427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 21/38] fix: an interrupted call or an empty set of sockets is
 not an error to wait for data

---
 src/sockets/BaseSocket.cpp | 15 ++++++++++-----
 src/sockets/UDPSocket.cpp  | 11 +++++++++--
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index efb71db..ba0ad8b 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -118,9 +118,10 @@ namespace sockets {
 	}
 
 	void BaseSocket::select(std::vector<BaseSocket::SPtr> sockets, std::chrono::milliseconds timeout) {
-		BaseSocket::SPtr socketWithMaxFd = *std::max_element(sockets.begin(), sockets.end(), [](auto sock1, auto sock2) {
-			return sock1->getSocketFd() < sock2->getSocketFd();
-		});
+		int maxFd = -1;
+		for (auto& sock : sockets) {
+			maxFd = std::max(maxFd, sock->getSocketFd());
+		}
 
 		auto startTime = std::chrono::steady_clock::now();
 		auto stopTime = startTime + timeout;
@@ -134,8 +135,12 @@ namespace sockets {
 				FD_SET(sock->getSocketFd(), &recvSet);
 			}
 
-			ready = ::select(socketWithMaxFd->getSocketFd() + 1, &recvSet, NULL, NULL, &tv);
+			ready = ::select(maxFd + 1, &recvSet, NULL, NULL, &tv);
 			if (ready < 0) {
+				if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+					startTime = std::chrono::steady_clock::now();
+					continue;
+				}
 				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 			}
 
@@ -147,7 +152,7 @@ namespace sockets {
 			}
 
 			startTime = std::chrono::steady_clock::now();
-		} while(ready > 0);
+		} while(ready != 0);
 	}
 
 	const EndPoint &BaseSocket::getRemoteEndPoint() const {
diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index b8c35cf..6d83498 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -12,6 +12,7 @@
 #include <ws2tcpip.h>
 #endif
 
+#include <cstddef>
 #include "utils/Logger.h"
 #include "UDPSocket.h"
 #include "Platform.h"
@@ -69,7 +70,10 @@ namespace sockets {
 	std::vector<uint8_t> UDPSocket::Receive(size_t size) const {
 		std::vector<uint8_t> recvBuffer(size);
 
-		auto len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, NULL, NULL);
+		std::ptrdiff_t len;
+		do {
+			len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, NULL, NULL);
+		} while (len < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR));
 		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
@@ -83,7 +87,10 @@ namespace sockets {
 		std::vector<uint8_t> recvBuffer(size);
 		struct sockaddr_in addr;
 		socklen_t addrFromLength = sizeof(addr);
-		auto len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, (struct sockaddr*)&addr, &addrFromLength);
+		std::ptrdiff_t len;
+		do {
+			len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, (struct sockaddr*)&addr, &addrFromLength);
+		} while (len < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR));
 		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
-- 
2.43.0


From b966c31db2d1d0307fdfcb865dbe3a22f15dfcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 22/38] fix: connections must be distinguished by the whole 32
 bit connection ID

---
 src/ConnectionManager.cpp | 2 +-
 src/ConnectionManager.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 76efe24..21773a6 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -58,7 +58,7 @@ namespace eipScanner {
 		NetworkConnectionParametersBuilder t2oNCP(connectionParameters.t2oNetworkConnectionParams, isLarge);
 
 		if (o2tNCP.getConnectionType() == NetworkConnectionParametersBuilder::MULTICAST) {
-			static cip::CipUint idCount = _incarnationId << 16;
+			static cip::CipUdint idCount = _incarnationId << 16;
 			connectionParameters.o2tNetworkConnectionId = ++idCount;
 		}
 
diff --git a/src/ConnectionManager.h b/src/ConnectionManager.h
index a317067..ab54392 100644
--- a/src/ConnectionManager.h
+++ b/src/ConnectionManager.h
@@ -75,7 +75,7 @@ namespace eipScanner {
 		bool hasOpenConnections() const;
 	private:
 		MessageRouter::SPtr _messageRouter;
-		std::map<cip::CipUint, IOConnection::SPtr> _connectionMap;
+		std::map<cip::CipUdint, IOConnection::SPtr> _connectionMap;
 		std::map<sockets::EndPoint, std::shared_ptr<sockets::UDPBoundSocket>> _socketMap;
 
 		sockets::UDPBoundSocket::SPtr  findOrCreateSocket(const sockets::EndPoint& endPoint);
-- 
2.43.0


From 3cbeff1e0644d7b39120ce5ba35f90068c7e11c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 23/38] fix: closing a connection which is already closed by
 timeout must be harmless

---
 src/ConnectionManager.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 21773a6..b035872 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -200,9 +200,11 @@ namespace eipScanner {
 					<< ". But the connection is removed from ConnectionManager anyway";
 			}
 
-			auto rc = _connectionMap.erase(ptr->_t2oNetworkConnectionId);
-			(void) rc;
-			assert(rc);
+			// The connection might be already closed by timeout
+			auto io = _connectionMap.find(ptr->_t2oNetworkConnectionId);
+			if (io != _connectionMap.end() && io->second == ptr) {
+				_connectionMap.erase(io);
+			}
 		} else {
 			Logger(LogLevel::WARNING) << "Attempt to close an already closed connection";
 		}
-- 
2.43.0


From 06799e940d606d4ff9199a02174f4761f3f3e5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 24/38] fix: listeners may open and close connections

---
 src/ConnectionManager.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index b035872..99e2c82 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -220,16 +220,18 @@ namespace eipScanner {
 
 		BaseSocket::select(sockets, timeout);
 
-		std::vector<cip::CipUdint> connectionsToClose;
-		for (auto& entry : _connectionMap) {
-			if (!entry.second->notifyTick()) {
-				connectionsToClose.push_back(entry.first);
+		// The listeners may open and close connections
+		const auto connections = _connectionMap;
+		const auto isOpen = [this](auto& entry) {
+			auto io = _connectionMap.find(entry.first);
+			return io != _connectionMap.end() && io->second == entry.second;
+		};
+
+		for (auto& entry : connections) {
+			if (isOpen(entry) && !entry.second->notifyTick() && isOpen(entry)) {
+				_connectionMap.erase(entry.first);
 			}
 		}
-
-		for (auto& id : connectionsToClose) {
-			_connectionMap.erase(id);
-		}
 	}
 
 	UDPBoundSocket::SPtr ConnectionManager::findOrCreateSocket(const sockets::EndPoint& endPoint) {
@@ -255,7 +257,8 @@ namespace eipScanner {
 
 				auto io = _connectionMap.find(connectionId);
 				if (io != _connectionMap.end()) {
-					io->second->notifyReceiveData(commonPacket.getItems().at(1).getData());
+					auto connection = io->second; // The listener may close it
+					connection->notifyReceiveData(commonPacket.getItems().at(1).getData());
 				} else {
 					Logger(LogLevel::ERROR) << "Received data from unknown connection T2O_ID=" << connectionId;
 				}
-- 
2.43.0


From 4b7be49107ac0e693ea67f070e5a85741f34ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 25/38] fix: malformed implicit messages must be ignored

---
 src/ConnectionManager.cpp | 17 ++++++++++++++++-
 src/IOConnection.cpp      |  6 ++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 99e2c82..2c826bb 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -247,12 +247,27 @@ namespace eipScanner {
 			newSocket->setBeginReceiveHandler([this](BaseSocket& sock) {
 				auto recvData = sock.Receive(8192);
 				CommonPacket commonPacket;
-				commonPacket.expand(recvData);
+				try {
+					commonPacket.expand(recvData);
+				} catch (const std::runtime_error& e) {
+					Logger(LogLevel::WARNING) << "Received malformed data: " << e.what();
+					return;
+				}
+
+				if (commonPacket.getItems().size() < 2) {
+					Logger(LogLevel::WARNING) << "Received malformed data without address or data item";
+					return;
+				}
 
 				// TODO: Check TypeIDs and sequence of the packages
 				Buffer buffer(commonPacket.getItems().at(0).getData());
 				cip::CipUdint connectionId;
 				buffer >> connectionId;
+				if (!buffer.isValid()) {
+					Logger(LogLevel::WARNING) << "Received malformed data without connection ID";
+					return;
+				}
+
 				Logger(LogLevel::DEBUG) << "Received data from connection T2O_ID=" << connectionId;
 
 				auto io = _connectionMap.find(connectionId);
diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 08294fb..3252dda 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -79,6 +79,12 @@ namespace eipScanner {
 			buffer >> sequenceValueCount;
 		}
 
+		if (!buffer.isValid()) {
+			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
+				<< " received " << data.size() << " bytes without the whole header. Ignore this data.";
+			return;
+		}
+
 		std::vector<uint8_t> ioData(data.begin() + buffer.pos(), data.end());
 		if (_t2oFixedSize && ioData.size() != _t2oDataSize) {
 			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
-- 
2.43.0


From 7ef99500d5c8a02bc37ce8ee06bbeb2d02e9c65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 26/38] fix: implicit messages of large connections must be
 received whole

---
 src/ConnectionManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 2c826bb..6b74884 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -245,7 +245,7 @@ namespace eipScanner {
 			});
 
 			newSocket->setBeginReceiveHandler([this](BaseSocket& sock) {
-				auto recvData = sock.Receive(8192);
+				auto recvData = sock.Receive(65535);
 				CommonPacket commonPacket;
 				try {
 					commonPacket.expand(recvData);
-- 
2.43.0


From 09b1174f32ce17cc2e186b168fc6b91c226921fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 27/38] fix: the timeout multiplier and the connection timeout
 must not overflow

---
 src/IOConnection.cpp | 2 +-
 src/IOConnection.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 3252dda..84090f9 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -104,7 +104,7 @@ namespace eipScanner {
 
 		auto periodInMicroS = sinceLastHandle.count() * 1000;
 		_connectionTimeoutCount += periodInMicroS;
-		if (_connectionTimeoutCount > _connectionTimeoutMultiplier * _t2oAPI) {
+		if (_connectionTimeoutCount > static_cast<uint64_t>(_connectionTimeoutMultiplier) * _t2oAPI) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
 			_closeHandle();
 			return false;
diff --git a/src/IOConnection.h b/src/IOConnection.h
index 9058d89..f89e818 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -83,7 +83,7 @@ namespace eipScanner {
 		cip::CipUdint _o2tTimer;
 		cip::CipUdint _t2o_timer;
 
-		cip::CipUsint _connectionTimeoutMultiplier;
+		cip::CipUint _connectionTimeoutMultiplier;
 		cip::CipUdint _connectionTimeoutCount;
 
 		cip::CipUdint _o2tSequenceNumber;
-- 
2.43.0


From 2b18dbed29ec1d09e00fe7e55400eb11cc3c0403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 28/38] fix: connection timers must count from the actual
 events with microsecond precision

---
 src/IOConnection.cpp | 16 ++++++++--------
 src/IOConnection.h   |  5 ++---
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 84090f9..98f0c45 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -29,7 +29,6 @@ namespace eipScanner {
 			, _o2tTimer{0}
 			, _t2o_timer{0}
 			, _connectionTimeoutMultiplier{0}
-			, _connectionTimeoutCount{0}
 			, _o2tSequenceNumber{0}
 			, _t2oSequenceNumber{0}
 			, _serialNumber{0}
@@ -44,7 +43,8 @@ namespace eipScanner {
 			, _receiveDataHandle([](auto, auto, auto) {})
 			, _closeHandle([]() {})
 			, _sendDataHandle([](auto) {})
-			, _lastHandleTime(std::chrono::steady_clock::now()) {
+			, _lastHandleTime(std::chrono::steady_clock::now())
+			, _lastReceiveTime(_lastHandleTime) {
 	}
 
 	IOConnection::~IOConnection() = default;
@@ -91,7 +91,7 @@ namespace eipScanner {
 				<< " has fixed size " << _t2oDataSize << " bytes but " << ioData.size()
 				<< " bytes were received. Ignore this data.";
 		} else {
-			_connectionTimeoutCount = 0;
+			_lastReceiveTime = std::chrono::steady_clock::now();
 			_receiveDataHandle(runtimeHeader, sequenceValueCount,
 							   ioData);
 		}
@@ -100,17 +100,17 @@ namespace eipScanner {
 	bool IOConnection::notifyTick() {
 		auto now = std::chrono::steady_clock::now();
 		auto sinceLastHandle =
-			std::chrono::duration_cast<std::chrono::milliseconds>(now - _lastHandleTime);
+			std::chrono::duration_cast<std::chrono::microseconds>(now - _lastHandleTime);
 
-		auto periodInMicroS = sinceLastHandle.count() * 1000;
-		_connectionTimeoutCount += periodInMicroS;
-		if (_connectionTimeoutCount > static_cast<uint64_t>(_connectionTimeoutMultiplier) * _t2oAPI) {
+		auto periodInMicroS = sinceLastHandle.count();
+		const std::chrono::microseconds connectionTimeout(static_cast<uint64_t>(_connectionTimeoutMultiplier) * _t2oAPI);
+		if (now - _lastReceiveTime > connectionTimeout) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
 			_closeHandle();
 			return false;
 		}
 
-		_lastHandleTime = now;
+		_lastHandleTime += sinceLastHandle;
 
 		_o2tTimer += periodInMicroS;
 		if (_o2tTimer >= _o2tAPI) {
diff --git a/src/IOConnection.h b/src/IOConnection.h
index f89e818..bf2d9cc 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -80,12 +80,10 @@ namespace eipScanner {
 		bool _o2tFixedSize;
 		bool _t2oFixedSize;
 
-		cip::CipUdint _o2tTimer;
+		uint64_t _o2tTimer;
 		cip::CipUdint _t2o_timer;
 
 		cip::CipUint _connectionTimeoutMultiplier;
-		cip::CipUdint _connectionTimeoutCount;
-
 		cip::CipUdint _o2tSequenceNumber;
 		cip::CipUdint _t2oSequenceNumber;
 		cip::CipUdint _serialNumber;
@@ -107,6 +105,7 @@ namespace eipScanner {
 		SendDataHandle _sendDataHandle;
 
 		std::chrono::steady_clock::time_point _lastHandleTime;
+		std::chrono::steady_clock::time_point _lastReceiveTime;
 	};
 }
 
-- 
2.43.0


From d3c405860e9d445afeda6b6c0d97211966e417c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 29/38] fix: a finished upload must leave the upload state, so
 that the file can be uploaded again

---
 .../FileObjectUploadInProgressState.cpp       | 33 ++++++++++---------
 .../FileObjectUploadInProgressState.h         |  2 ++
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index a4d86cb..58fb1a0 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -3,6 +3,7 @@
 //
 
 #include "FileObjectUploadInProgressState.h"
+#include "FileObjectLoadedState.h"
 #include "utils/Buffer.h"
 
 namespace eipScanner {
@@ -53,14 +54,12 @@ namespace fileObject {
 
 			if (!buffer.isValid()) {
 				logWithStateName(LogLevel::ERROR, "Not enough data in the response");
-				_handler(cip::GeneralStatusCodes::INVALID_REPLY_RECEIVED, std::vector<uint8_t>());
-				return false;
+				return finish(cip::GeneralStatusCodes::INVALID_REPLY_RECEIVED, std::vector<uint8_t>());
 			}
 
 			if (transferNumber != _transferNumber) {
 				logWithStateName(LogLevel::ERROR, "Wrong transfer number");
-				_handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
-				return false;
+				return finish(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
 			}
 
 			switch (transferPacketType) {
@@ -82,8 +81,7 @@ namespace fileObject {
 				case TransferPacketTypeCodes::FIRST_AND_LAST: {
 					if (response.getData().size() < 4) {
 						logWithStateName(LogLevel::ERROR, "Not enough data in the response");
-						_handler(cip::GeneralStatusCodes::INVALID_REPLY_RECEIVED, std::vector<uint8_t>());
-						return false;
+						return finish(cip::GeneralStatusCodes::INVALID_REPLY_RECEIVED, std::vector<uint8_t>());
 					}
 
 					std::vector<uint8_t> fileData(response.getData().size() - 4);	//TODO: Check CRC
@@ -91,31 +89,36 @@ namespace fileObject {
 
 					_fileContent.insert(_fileContent.end(), fileData.begin(), fileData.end());
 					if (_fileContent.size() == _fileSize) {
-						_handler(cip::GeneralStatusCodes::SUCCESS, _fileContent);
-					} else {
-						logWithStateName(LogLevel::ERROR, "Wrong size of the uploaded file");
-						_handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
+						return finish(cip::GeneralStatusCodes::SUCCESS, std::move(_fileContent));
 					}
-					return false;
+
+					logWithStateName(LogLevel::ERROR, "Wrong size of the uploaded file");
+					return finish(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
 				}
 				default:
+					setState<FileObjectLoadedState>(); // Destroys this state
 					throw std::runtime_error("Received unexpected transfer type");
 			};
 
 			if (!buffer.isValid()) {
 				logWithStateName(LogLevel::ERROR, "Not enough data in the response");
-				_handler(cip::GeneralStatusCodes::INVALID_REPLY_RECEIVED, std::vector<uint8_t>());
-				return false;
+				return finish(cip::GeneralStatusCodes::INVALID_REPLY_RECEIVED, std::vector<uint8_t>());
 			}
 
 			_transferNumber++;
 		} else {
 			logGeneralAndAdditionalStatus(response);
-			_handler(response.getGeneralStatusCode(), std::vector<uint8_t>());
-			return false;
+			return finish(response.getGeneralStatusCode(), std::vector<uint8_t>());
 		}
 
 		return true;
 	}
+
+	bool FileObjectUploadInProgressState::finish(cip::GeneralStatusCodes status, std::vector<uint8_t> fileContent) {
+		auto handler = std::move(_handler);
+		setState<FileObjectLoadedState>(); // Destroys this state, the handler may begin the next upload
+		handler(status, fileContent);
+		return false;
+	}
 }
 }
diff --git a/src/fileObject/FileObjectUploadInProgressState.h b/src/fileObject/FileObjectUploadInProgressState.h
index 8a8b25f..66f4549 100644
--- a/src/fileObject/FileObjectUploadInProgressState.h
+++ b/src/fileObject/FileObjectUploadInProgressState.h
@@ -21,6 +21,8 @@ namespace fileObject {
 		bool transfer(SessionInfoIf::SPtr si) override;
 
 	private:
+		bool finish(cip::GeneralStatusCodes status, std::vector<uint8_t> fileContent);
+
 		cip::CipUdint _fileSize;
 		cip::CipUsint _transferSize;
 		std::vector<uint8_t>_fileContent;
-- 
2.43.0


From 26963b4052e2b30a7681c6bd7c2866a9fc89e2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:41 +0000
Subject: [PATCH 30/38] fix: an upload of an empty or nonexistent file must be
 reported as failed

---
 src/fileObject/FileObjectEmptyState.cpp       | 2 +-
 src/fileObject/FileObjectNonExistentState.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fileObject/FileObjectEmptyState.cpp b/src/fileObject/FileObjectEmptyState.cpp
index a234485..8db0779 100644
--- a/src/fileObject/FileObjectEmptyState.cpp
+++ b/src/fileObject/FileObjectEmptyState.cpp
@@ -14,8 +14,8 @@ namespace fileObject {
 
 	void FileObjectEmptyState::initiateUpload(SessionInfoIf::SPtr si, EndUploadHandler handle) {
 	  (void) si;
-	  (void) handle;
 		logWithStateName(LogLevel::WARNING, "File cannot be uploaded");
+		handle(cip::GeneralStatusCodes::OBJECT_STATE_CONFLICT, std::vector<uint8_t>());
 	}
 
 	bool FileObjectEmptyState::transfer(SessionInfoIf::SPtr si) {
diff --git a/src/fileObject/FileObjectNonExistentState.cpp b/src/fileObject/FileObjectNonExistentState.cpp
index 6215269..a033eb3 100644
--- a/src/fileObject/FileObjectNonExistentState.cpp
+++ b/src/fileObject/FileObjectNonExistentState.cpp
@@ -15,9 +15,9 @@ namespace fileObject {
 
 	void FileObjectNonExistentState::initiateUpload(SessionInfoIf::SPtr si, EndUploadHandler handle) {
     (void) si;
-    (void) handle;
 		logWithStateName(LogLevel::WARNING,
 						 "File cannot be uploaded");
+		handle(cip::GeneralStatusCodes::OBJECT_STATE_CONFLICT, std::vector<uint8_t>());
 	}
 
 	bool FileObjectNonExistentState::transfer(SessionInfoIf::SPtr si) {
-- 
2.43.0


From 6c9cae98dc60a4e0a706a3ad0d0d1e0274f98981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:47 +0000
Subject: [PATCH 31/38] fix: a file fragment longer than the transfer size must
 not be cut silently

---
 src/fileObject/FileObjectUploadInProgressState.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index 58fb1a0..42f22ea 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -100,8 +100,8 @@ namespace fileObject {
 					throw std::runtime_error("Received unexpected transfer type");
 			};
 
-			if (!buffer.isValid()) {
-				logWithStateName(LogLevel::ERROR, "Not enough data in the response");
+			if (!buffer.isValid() || buffer.pos() != buffer.size()) {
+				logWithStateName(LogLevel::ERROR, "Wrong size of the data in the response");
 				return finish(cip::GeneralStatusCodes::INVALID_REPLY_RECEIVED, std::vector<uint8_t>());
 			}
 
-- 
2.43.0


From b70f747b9253a4b55b0dc9c72aff2f90394ff9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:03 +0000
Subject: [PATCH 32/38] fix: the product of the scaling multiplier and base
 must not overflow

---
 src/ParameterObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index 142111c..a0fff56 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -325,7 +325,7 @@ namespace eipScanner {
 	cip::CipLreal ParameterObject::engToActualValue(cip::CipLreal engValue) const {
 		if (_isScalable) {
 			return (engValue * _scalingDivisor * std::pow(10, _precision))
-				   / (_scalingMultiplier * _scalingBase) - _scalingOffset;
+				   / (static_cast<CipLreal>(_scalingMultiplier) * _scalingBase) - _scalingOffset;
 		} else {
 			return engValue;
 		}
-- 
2.43.0


From 25681dea3a7da744a4d2413e2ec47d8740658896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:20 +0000
Subject: [PATCH 33/38] fix: a connection closed by timeout must be removed
 before its close listener is called

---
 src/ConnectionManager.cpp | 4 +++-
 src/IOConnection.cpp      | 1 -
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 6b74884..d83ef53 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -228,8 +228,10 @@ namespace eipScanner {
 		};
 
 		for (auto& entry : connections) {
-			if (isOpen(entry) && !entry.second->notifyTick() && isOpen(entry)) {
+			if (isOpen(entry) && !entry.second->notifyTick()) {
+				// The close listener may open a connection with the same ID
 				_connectionMap.erase(entry.first);
+				entry.second->_closeHandle();
 			}
 		}
 	}
diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 98f0c45..4d86b31 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -106,7 +106,6 @@ namespace eipScanner {
 		const std::chrono::microseconds connectionTimeout(static_cast<uint64_t>(_connectionTimeoutMultiplier) * _t2oAPI);
 		if (now - _lastReceiveTime > connectionTimeout) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
-			_closeHandle();
 			return false;
 		}
 
-- 
2.43.0


From 9f55546bd540185f06099e79366c3747276ceb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 34/38] fix: the error of a failed datagram reception must not
 be overwritten by logging

---
 src/sockets/UDPSocket.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 6d83498..4d0a54a 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -74,11 +74,12 @@ namespace sockets {
 		do {
 			len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, NULL, NULL);
 		} while (len < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR));
-		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 
+		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
+
 		recvBuffer.resize(len);
 		return recvBuffer;
 	}
@@ -91,11 +92,12 @@ namespace sockets {
 		do {
 			len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, (struct sockaddr*)&addr, &addrFromLength);
 		} while (len < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR));
-		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 
+		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
+
 		recvBuffer.resize(len);
 		endPoint = EndPoint(addr);
 		return recvBuffer;
-- 
2.43.0


From b7426c0b9096162b118c72590c4e361f22691829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 35/38] fix: an empty ParameterObject must have the number it
 is created with

---
 src/ParameterObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index a0fff56..c1d5e30 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -45,7 +45,7 @@ namespace eipScanner {
             , _hasFullAttributes(fullAttributes)
             , _isScalable(false)
             , _isReadOnly(false)
-            , _parameter(0)
+            , _parameter(instanceId)
             , _value(typeSize)
             , _type(CipDataTypes::ANY)
             , _name{""}
-- 
2.43.0


From 56c38efd30cd5f295bc63757443ad053ef896686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 36/38] fix: updating the value of an empty ParameterObject
 must not dereference a null pointer

---
 src/ParameterObject.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index c1d5e30..5711836 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -56,7 +56,8 @@ namespace eipScanner {
             , _scalingDivisor(1)
             , _scalingBase(1)
             , _scalingOffset(0)
-            , _precision(0) {
+            , _precision(0)
+            , _messageRouter{std::make_shared<MessageRouter>()} {
     }
 
     ParameterObject::ParameterObject(cip::CipUint instanceId, bool fullAttributes,
-- 
2.43.0


From c54a42b7799bf807677101f0c1e1c416f7a81f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 37/38] fix: the length of an empty CIP string must not be
 indeterminate

---
 src/cip/CipString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cip/CipString.h b/src/cip/CipString.h
index 1cdc713..2c76fc4 100644
--- a/src/cip/CipString.h
+++ b/src/cip/CipString.h
@@ -42,7 +42,7 @@ namespace cip {
 		}
 
 	private:
-		T _length;
+		T _length = 0;
 		std::vector<uint8_t> _data;
 	};
 
-- 
2.43.0


From 3f3a19c808e64b6bed2f5a07763ec491e27b6a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 38/38] fix: status codes of responses must be logged as
 numbers, not as characters

---
 src/ConnectionManager.cpp         | 2 +-
 src/cip/MessageRouterResponse.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index d83ef53..adad574 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -196,7 +196,7 @@ namespace eipScanner {
 				Logger(LogLevel::WARNING)
 					<< "Failed to close the connection in target with error=0x"
 					<< std::hex
-					<< messageRouterResponse.getGeneralStatusCode()
+					<< static_cast<int>(messageRouterResponse.getGeneralStatusCode())
 					<< ". But the connection is removed from ConnectionManager anyway";
 			}
 
diff --git a/src/cip/MessageRouterResponse.cpp b/src/cip/MessageRouterResponse.cpp
index 5b56cc8..1adf53c 100644
--- a/src/cip/MessageRouterResponse.cpp
+++ b/src/cip/MessageRouterResponse.cpp
@@ -81,7 +81,7 @@ namespace cip {
 	void logGeneralAndAdditionalStatus(const MessageRouterResponse &response) {
 		Logger logger(LogLevel::ERROR);
 		logger << "Message Router error=0x"
-			   << std::hex << response.getGeneralStatusCode()
+			   << std::hex << static_cast<int>(response.getGeneralStatusCode())
 			   << " additional statuses ";
 		for (auto& additionalStatus : response.getAdditionalStatus()) {
 			logger << "[0x"
-- 
2.43.0

