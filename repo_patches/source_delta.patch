From 614eb52de892e8e3b2395dd49ea1d374ae1c7231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 01/35] fix: hand over the decoded SLIP frame of a server, not
 the escaped data

---
 libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index 81e9e35..9d08a8d 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -83,7 +83,7 @@ QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
                     qCWarning(dcTunnelProxyServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
                 } else {
                     qCDebug(dcTunnelProxyServerTraffic()) << "Frame received";
-                    packets.append(m_dataBuffer);
+                    packets.append(frame);
                     m_dataBuffer.clear();
                 }
             } else {
-- 
2.43.0


From 7f9ce8652d387ae354e243139734831b81e2c2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 02/35] fix: drop a malformed SLIP frame instead of prepending
 it to the next frame

---
 libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index 9d08a8d..561fd05 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -84,8 +84,8 @@ QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
                 } else {
                     qCDebug(dcTunnelProxyServerTraffic()) << "Frame received";
                     packets.append(frame);
-                    m_dataBuffer.clear();
                 }
+                m_dataBuffer.clear();
             } else {
                 m_dataBuffer.append(data.at(i));
             }
-- 
2.43.0


From f3edf496b6ae928f0bb2d72616360d35d17f925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 03/35] fix: treat a SLIP frame ending within an escape
 sequence as malformed

---
 common/slipdataprocessor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/slipdataprocessor.cpp b/common/slipdataprocessor.cpp
index a2ab18a..352a17f 100644
--- a/common/slipdataprocessor.cpp
+++ b/common/slipdataprocessor.cpp
@@ -62,6 +62,11 @@ QByteArray SlipDataProcessor::deserializeData(const QByteArray &data)
         }
     }
 
+    if (escaped) {
+        qWarning() << "Error while deserializing data. The data ends within an escape sequence.";
+        return QByteArray();
+    }
+
     return deserializedData;
 }
 
-- 
2.43.0


From 0d58ad2d804fd8b961121852137d2ad6b58b06c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 04/35] fix: drop SLIP frames which are too short to contain a
 socket address

---
 libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index 561fd05..7de88dc 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -79,7 +79,8 @@ QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
                     continue;
 
                 QByteArray frame = SlipDataProcessor::deserializeData(m_dataBuffer);
-                if (frame.isNull()) {
+                if (frame.size() < static_cast<int>(sizeof(quint16))) {
+                    // Either not decodable or too short to contain the socket address
                     qCWarning(dcTunnelProxyServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
                 } else {
                     qCDebug(dcTunnelProxyServerTraffic()) << "Frame received";
-- 
2.43.0


From 281f8bac326228a92936dc71998b099f91f640cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 05/35] fix: don't truncate the socket address of a
 DisconnectClient request to 16 bit

---
 libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp b/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
index beea4c9..5b35094 100644
--- a/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
+++ b/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
@@ -121,7 +121,13 @@ JsonReply *TunnelProxyHandler::RegisterServer(const QVariantMap &params, Transpo
 JsonReply *TunnelProxyHandler::DisconnectClient(const QVariantMap &params, TransportClient *transportClient)
 {
     qCDebug(dcJsonRpc()) << name() << "disconnect client requested" << params << transportClient;
-    quint16 socketAddress = static_cast<quint16>(params.value("socketAddress").toUInt());
+    // Only whole numbers in the 16 bit range can be a socket address, anything else must not be truncated to the
+    // address of some client. Note: 0x0000 is reserved and will never be assigned to a client.
+    quint16 socketAddress = 0x0000;
+    double requestedAddress = params.value("socketAddress").toDouble();
+    if (requestedAddress > 0x0000 && requestedAddress <= 0xFFFF && requestedAddress == static_cast<quint16>(requestedAddress))
+        socketAddress = static_cast<quint16>(requestedAddress);
+
     TunnelProxyServer::TunnelProxyError error = Engine::instance()->tunnelProxyServer()->disconnectClient(transportClient->clientId(), socketAddress);
 
     QVariantMap response;
-- 
2.43.0


From edfde89c40c4829e6e4df500a2588dc111e5f86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 06/35] fix: never assign a reserved or used socket address to
 a client

---
 .../tunnelproxy/tunnelproxyserver.cpp         |  5 ++++
 .../tunnelproxyserverconnection.cpp           | 25 ++++++++++---------
 .../tunnelproxy/tunnelproxyserverconnection.h |  3 ++-
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
index 22737aa..fd67642 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
@@ -168,6 +168,11 @@ TunnelProxyServer::TunnelProxyError TunnelProxyServer::registerClient(const QUui
         return TunnelProxyServer::TunnelProxyErrorServerNotFound;
     }
 
+    if (!serverConnection->hasFreeAddress()) {
+        qCWarning(dcTunnelProxyServer()) << "There is no free socket address left on" << serverConnection;
+        tunnelProxyClient->killConnectionAfterResponse("No free socket address");
+        return TunnelProxyServer::TunnelProxyErrorInternalServerError;
+    }
 
     // Not registered yet, we have a connected server for the requested server uuid
     tunnelProxyClient->setType(TunnelProxyClient::TypeClient);
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
index 0eb8690..3fd495a 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
@@ -82,20 +82,21 @@ TunnelProxyClientConnection *TunnelProxyServerConnection::getClientConnection(qu
     return m_clientConnectionsAddresses.value(socketAddress);
 }
 
+bool TunnelProxyServerConnection::hasFreeAddress() const
+{
+    return m_clientConnectionsAddresses.count() < m_connectionLimit;
+}
+
 quint16 TunnelProxyServerConnection::getFreeAddress()
 {
-    m_currentAddressCounter += 1;
-    quint16 address = m_currentAddressCounter;
-    for (int i = 0; i < m_connectionLimit; i++) {
-        if (m_clientConnectionsAddresses.contains(address) || address == 0x0000 || address == 0xFFFF) {
-            address++;
-        } else {
-            break;
-        }
-    }
-
-    Q_ASSERT_X(!m_clientConnectionsAddresses.contains(address), "TunnelProxyServerConnection", "no free address but the maximum of connections has been reached.");
-    return address;
+    // Search the whole address space, any number of the following addresses could still be in use after a wrap around
+    do {
+        m_currentAddressCounter += 1;
+    } while (m_currentAddressCounter == 0x0000 || m_currentAddressCounter == 0xFFFF
+             || (m_clientConnectionsAddresses.contains(m_currentAddressCounter) && hasFreeAddress()));
+
+    Q_ASSERT_X(!m_clientConnectionsAddresses.contains(m_currentAddressCounter), "TunnelProxyServerConnection", "no free address but the maximum of connections has been reached.");
+    return m_currentAddressCounter;
 }
 
 QDebug operator<<(QDebug debug, TunnelProxyServerConnection *serverConnection)
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
index 17f62cc..6355b44 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
@@ -54,12 +54,13 @@ public:
     void unregisterClientConnection(TunnelProxyClientConnection *clientConnection);
 
     TunnelProxyClientConnection *getClientConnection(quint16 socketAddress);
+    bool hasFreeAddress() const;
 
 private:
     TransportClient *m_transportClient = nullptr;
     QUuid m_serverUuid;
     QString m_serverName;
-    quint16 m_connectionLimit = 100;
+    int m_connectionLimit = 0xFFFE; // All addresses except 0x0000 and 0xFFFF
 
     quint16 m_currentAddressCounter = 0;
 
-- 
2.43.0


From 86f1d11eb2aa8b3856af614217144a1a6b386cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 07/35] fix: delete the socket of a disconnected unix socket
 client

---
 libnymea-remoteproxy/server/unixsocketserver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libnymea-remoteproxy/server/unixsocketserver.cpp b/libnymea-remoteproxy/server/unixsocketserver.cpp
index 7eb959a..abb46e7 100644
--- a/libnymea-remoteproxy/server/unixsocketserver.cpp
+++ b/libnymea-remoteproxy/server/unixsocketserver.cpp
@@ -140,6 +140,7 @@ void UnixSocketServer::onClientConnected()
         if (m_clientList.take(clientId)) {
             emit clientDisconnected(clientId);
         }
+        client->deleteLater();
     });
     connect(client, &QLocalSocket::readyRead, this, [this, client, clientId](){
         QByteArray data = client->readAll();
-- 
2.43.0


From 5fa51cc77640fa4d2fcc71974a7952280b8a82d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 08/35] fix: refuse integer parameters whose value can not be
 converted to a number

---
 libnymea-remoteproxy/jsonrpc/jsontypes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libnymea-remoteproxy/jsonrpc/jsontypes.cpp b/libnymea-remoteproxy/jsonrpc/jsontypes.cpp
index fb23236..633af29 100644
--- a/libnymea-remoteproxy/jsonrpc/jsontypes.cpp
+++ b/libnymea-remoteproxy/jsonrpc/jsontypes.cpp
@@ -196,11 +196,11 @@ QPair<bool, QString> JsonTypes::validateProperty(const QVariant &templateValue,
     }
     if (strippedTemplateValue == JsonTypes::basicTypeToString(QVariant::Int)) {
         QString errorString = QString("Param %1 is not a int.").arg(value.toString());
-        return report(value.canConvert(QVariant::Int), errorString);
+        return report(QVariant(value).convert(QVariant::Int), errorString);
     }
     if (strippedTemplateValue == JsonTypes::basicTypeToString(QVariant::UInt)) {
         QString errorString = QString("Param %1 is not a int.").arg(value.toString());
-        return report(value.canConvert(QVariant::UInt), errorString);
+        return report(QVariant(value).convert(QVariant::UInt), errorString);
     }
     qCWarning(dcJsonRpc()) << QString("Unhandled property type: %1 (expected: %2)").arg(value.toString()).arg(strippedTemplateValue);
     QString errorString = QString("Unhandled property type: %1 (expected: %2)").arg(value.toString()).arg(strippedTemplateValue);
-- 
2.43.0


From 9130a8ab20dc37b3a01b20adc0d673c8d70a4b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 09/35] fix: don't process requests received after the one the
 connection has been killed for

---
 libnymea-remoteproxy/server/jsonrpcserver.cpp          | 3 +++
 libnymea-remoteproxy/server/transportclient.cpp        | 7 +++++++
 libnymea-remoteproxy/server/transportclient.h          | 4 ++++
 libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp | 2 +-
 libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp | 7 +++++++
 5 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/server/jsonrpcserver.cpp b/libnymea-remoteproxy/server/jsonrpcserver.cpp
index fa46c44..2424300 100644
--- a/libnymea-remoteproxy/server/jsonrpcserver.cpp
+++ b/libnymea-remoteproxy/server/jsonrpcserver.cpp
@@ -403,6 +403,9 @@ void JsonRpcServer::processData(TransportClient *transportClient, const QByteArr
     }
 
     foreach (const QByteArray &packet, packets) {
+        if (transportClient->connectionKilled())
+            return;
+
         processDataPacket(transportClient, packet);
     }
 }
diff --git a/libnymea-remoteproxy/server/transportclient.cpp b/libnymea-remoteproxy/server/transportclient.cpp
index 3736f9d..b26a3c6 100644
--- a/libnymea-remoteproxy/server/transportclient.cpp
+++ b/libnymea-remoteproxy/server/transportclient.cpp
@@ -170,10 +170,17 @@ void TransportClient::sendData(const QByteArray &data)
 
 void TransportClient::killConnection(const QString &reason)
 {
+    m_connectionKilled = true;
+
     if (!m_interface)
         return;
 
     m_interface->killClientConnection(m_clientId, reason);
 }
 
+bool TransportClient::connectionKilled() const
+{
+    return m_connectionKilled;
+}
+
 }
diff --git a/libnymea-remoteproxy/server/transportclient.h b/libnymea-remoteproxy/server/transportclient.h
index 4bd6ef7..b9fa83a 100644
--- a/libnymea-remoteproxy/server/transportclient.h
+++ b/libnymea-remoteproxy/server/transportclient.h
@@ -84,6 +84,9 @@ public:
     virtual void sendData(const QByteArray &data);
     virtual void killConnection(const QString &reason);
 
+    // True once the connection has been killed, from then on nothing received on this connection takes effect any more
+    bool connectionKilled() const;
+
     virtual QList<QByteArray> processData(const QByteArray &data) = 0;
 
 signals:
@@ -105,6 +108,7 @@ protected:
 
     bool m_killConnectionRequested = false;
     QString m_killConnectionReason;
+    bool m_connectionKilled = false;
 
     bool m_slipAfterResponseEnabled = false;
     bool m_slipEnabled = false;
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index 7de88dc..c4062a3 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -44,7 +44,7 @@ TunnelProxyClient::TunnelProxyClient(TransportInterface *interface, const QUuid
     m_inactiveTimer->setSingleShot(true);
 
     connect(m_inactiveTimer, &QTimer::timeout, this, [this](){
-        m_interface->killClientConnection(m_clientId, "Tunnelproxy client timeout occurred. The socket was inactive.");
+        killConnection("Tunnelproxy client timeout occurred. The socket was inactive.");
     });
 
     m_inactiveTimer->start();
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
index fd67642..67b913e 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
@@ -380,6 +380,10 @@ void TunnelProxyServer::onClientDataAvailable(const QUuid &clientId, const QByte
         return;
     }
 
+    // The connection is about to be closed, ignore anything which still arrives
+    if (tunnelProxyClient->connectionKilled())
+        return;
+
     qCDebug(dcTunnelProxyServerTraffic()) << "Client data available" << tunnelProxyClient << qUtf8Printable(data);
     tunnelProxyClient->addRxDataCount(data.count());
 
@@ -413,6 +417,9 @@ void TunnelProxyServer::onClientDataAvailable(const QUuid &clientId, const QByte
             // Handle packet fragmentation
             QList<QByteArray> frames = tunnelProxyClient->processData(data);
             foreach (const QByteArray &frameData, frames) {
+                if (tunnelProxyClient->connectionKilled())
+                    return;
+
                 SlipDataProcessor::Frame frame = SlipDataProcessor::parseFrame(frameData);
 
                 if (frame.socketAddress == 0x0000) {
-- 
2.43.0


From cfe1a80c8138940dd8bc6f72d9ec97fc2c49f334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:43 +0000
Subject: [PATCH 10/35] fix: make request and tunnel data processing
 independent of the stream fragmentation

- The end of a request is the bracket closing the JSON object, not just any
  closing bracket at the end of a read.
- Data following a successful registration request in the same read, or the
  new line of that request in the next read, is handled as such.
- The limit for the size of a request does not depend on the number of reads.
---
 libnymea-remoteproxy/server/jsonrpcserver.cpp | 31 +++++--
 .../server/transportclient.cpp                |  7 ++
 libnymea-remoteproxy/server/transportclient.h |  8 ++
 .../server/transportinterface.cpp             |  5 ++
 .../server/transportinterface.h               |  3 +
 .../server/websocketserver.cpp                |  5 ++
 libnymea-remoteproxy/server/websocketserver.h |  1 +
 .../tunnelproxy/tunnelproxyclient.cpp         | 81 ++++++++++++++++---
 .../tunnelproxy/tunnelproxyclient.h           |  9 +++
 .../tunnelproxy/tunnelproxyserver.cpp         | 17 ++++
 .../tunnelproxy/tunnelproxyserver.h           |  2 +
 11 files changed, 151 insertions(+), 18 deletions(-)

diff --git a/libnymea-remoteproxy/server/jsonrpcserver.cpp b/libnymea-remoteproxy/server/jsonrpcserver.cpp
index 2424300..575cc5e 100644
--- a/libnymea-remoteproxy/server/jsonrpcserver.cpp
+++ b/libnymea-remoteproxy/server/jsonrpcserver.cpp
@@ -396,17 +396,32 @@ void JsonRpcServer::processData(TransportClient *transportClient, const QByteArr
     QList<QByteArray> packets = transportClient->processData(data);
 
     // Make sure the buffer size is in range
-    if (transportClient->bufferSize() > 1024 * 10) {
-        qCWarning(dcJsonRpc()) << "Data buffer size violation from" << transportClient;
-        transportClient->killConnection("Data buffer size violation.");
-        return;
-    }
+    const int maxPacketSize = 1024 * 10;
+    while (!packets.isEmpty()) {
+        foreach (const QByteArray &packet, packets) {
+            if (packet.size() > maxPacketSize) {
+                qCWarning(dcJsonRpc()) << "Packet size violation from" << transportClient;
+                transportClient->killConnection("Packet size violation.");
+                return;
+            }
+
+            processDataPacket(transportClient, packet);
+
+            if (transportClient->connectionKilled())
+                return;
+        }
 
-    foreach (const QByteArray &packet, packets) {
-        if (transportClient->connectionKilled())
+        // Data following a successful registration is not for the JSON RPC server any more
+        if (transportClient->registered())
             return;
 
-        processDataPacket(transportClient, packet);
+        packets = transportClient->processData(QByteArray());
+    }
+
+    if (transportClient->bufferSize() > maxPacketSize) {
+        qCWarning(dcJsonRpc()) << "Data buffer size violation from" << transportClient;
+        transportClient->killConnection("Data buffer size violation.");
+        return;
     }
 }
 
diff --git a/libnymea-remoteproxy/server/transportclient.cpp b/libnymea-remoteproxy/server/transportclient.cpp
index b26a3c6..ac04604 100644
--- a/libnymea-remoteproxy/server/transportclient.cpp
+++ b/libnymea-remoteproxy/server/transportclient.cpp
@@ -153,6 +153,13 @@ int TransportClient::bufferSize() const
     return m_dataBuffer.size();
 }
 
+QByteArray TransportClient::takeBuffer()
+{
+    QByteArray data = m_dataBuffer;
+    m_dataBuffer.clear();
+    return data;
+}
+
 int TransportClient::generateMessageId()
 {
     m_messageId++;
diff --git a/libnymea-remoteproxy/server/transportclient.h b/libnymea-remoteproxy/server/transportclient.h
index b9fa83a..ebc8fa9 100644
--- a/libnymea-remoteproxy/server/transportclient.h
+++ b/libnymea-remoteproxy/server/transportclient.h
@@ -87,8 +87,16 @@ public:
     // True once the connection has been killed, from then on nothing received on this connection takes effect any more
     bool connectionKilled() const;
 
+    // Returns the packets which have been completed by the given data. As long as SLIP is not enabled this is not more
+    // than one, since the meaning of the following data depends on the outcome of that request. Call it again
+    // with no additional data to get the next one, or get the remaining data using takeBuffer().
     virtual QList<QByteArray> processData(const QByteArray &data) = 0;
 
+    QByteArray takeBuffer();
+
+    // True once the connection has been registered successfully as server or client
+    virtual bool registered() const = 0;
+
 signals:
     void rxDataCountChanged();
     void txDataCountChanged();
diff --git a/libnymea-remoteproxy/server/transportinterface.cpp b/libnymea-remoteproxy/server/transportinterface.cpp
index a9c3767..658cd38 100644
--- a/libnymea-remoteproxy/server/transportinterface.cpp
+++ b/libnymea-remoteproxy/server/transportinterface.cpp
@@ -55,4 +55,9 @@ void TransportInterface::setServerUrl(const QUrl &serverUrl)
     m_serverUrl = serverUrl;
 }
 
+bool TransportInterface::messageBased() const
+{
+    return false;
+}
+
 }
diff --git a/libnymea-remoteproxy/server/transportinterface.h b/libnymea-remoteproxy/server/transportinterface.h
index d024d99..5474e62 100644
--- a/libnymea-remoteproxy/server/transportinterface.h
+++ b/libnymea-remoteproxy/server/transportinterface.h
@@ -53,6 +53,9 @@ public:
 
     virtual bool running() const = 0;
 
+    // True if the transport delivers entire messages, false if the received data is a stream of bytes
+    virtual bool messageBased() const;
+
 signals:
     void clientConnected(const QUuid &clientId, const QHostAddress &address);
     void clientDisconnected(const QUuid &clientId);
diff --git a/libnymea-remoteproxy/server/websocketserver.cpp b/libnymea-remoteproxy/server/websocketserver.cpp
index c7eefa5..0f4aaeb 100644
--- a/libnymea-remoteproxy/server/websocketserver.cpp
+++ b/libnymea-remoteproxy/server/websocketserver.cpp
@@ -53,6 +53,11 @@ bool WebSocketServer::running() const
     return m_server->isListening();
 }
 
+bool WebSocketServer::messageBased() const
+{
+    return true;
+}
+
 QSslConfiguration WebSocketServer::sslConfiguration() const
 {
     return m_sslConfiguration;
diff --git a/libnymea-remoteproxy/server/websocketserver.h b/libnymea-remoteproxy/server/websocketserver.h
index 96dfd70..d6b09db 100644
--- a/libnymea-remoteproxy/server/websocketserver.h
+++ b/libnymea-remoteproxy/server/websocketserver.h
@@ -47,6 +47,7 @@ public:
     ~WebSocketServer() override;
 
     bool running() const override;
+    bool messageBased() const override;
 
     QSslConfiguration sslConfiguration() const;
 
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index c4062a3..6ee3dd2 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -55,6 +55,11 @@ TunnelProxyClient::Type TunnelProxyClient::type() const
     return m_type;
 }
 
+bool TunnelProxyClient::registered() const
+{
+    return m_type != TypeNone;
+}
+
 void TunnelProxyClient::setType(Type type)
 {
     if (m_type == type)
@@ -94,21 +99,77 @@ QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
     } else {
         // Handle json packet fragmentation
         m_dataBuffer.append(data);
-        int splitIndex = m_dataBuffer.indexOf("}\n{");
-        while (splitIndex > -1) {
-            packets.append(m_dataBuffer.left(splitIndex + 1));
-            m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
-            splitIndex = m_dataBuffer.indexOf("}\n{");
-        }
-        if (m_dataBuffer.endsWith("}\n") || m_dataBuffer.endsWith("}")) {
-            packets.append(m_dataBuffer);
-            m_dataBuffer.clear();
-        }
+        QByteArray packet = takeJsonPacket();
+        if (!packet.isEmpty())
+            packets.append(packet);
     }
 
     return packets;
 }
 
+QByteArray TunnelProxyClient::skipLineFeed(const QByteArray &data)
+{
+    if (!m_lineFeedPending || data.isEmpty())
+        return data;
+
+    m_lineFeedPending = false;
+    return data.startsWith('\n') ? data.mid(1) : data;
+}
+
+QByteArray TunnelProxyClient::takeJsonPacket()
+{
+    // Skip any white space in front of the packet, like the new line terminating the previous packet
+    int start = 0;
+    while (start < m_dataBuffer.length() && QByteArray(" \t\r\n").contains(m_dataBuffer.at(start)))
+        start++;
+
+    m_dataBuffer.remove(0, start);
+
+    // The packet ends with the bracket closing the outermost object, no matter how the data has been fragmented.
+    // Data which can not be a JSON object ends with the line.
+    int depth = 0;
+    bool insideString = false;
+    int length = -1;
+    for (int i = 0; i < m_dataBuffer.length() && length < 0; i++) {
+        char character = m_dataBuffer.at(i);
+        if (character == '\n' && (insideString || depth == 0)) {
+            length = i;
+        } else if (insideString) {
+            if (character == '\\') {
+                i++;
+            } else if (character == '"') {
+                insideString = false;
+            }
+        } else if (character == '"') {
+            insideString = depth > 0;
+        } else if (character == '{' || character == '[') {
+            depth++;
+        } else if ((character == '}' || character == ']') && depth > 0) {
+            depth--;
+            if (depth == 0) {
+                length = i + 1;
+            }
+        }
+    }
+
+    // There is nothing to wait for if the entire message has been received
+    if (length < 0 && m_interface->messageBased() && m_dataBuffer.endsWith('}'))
+        length = m_dataBuffer.length();
+
+    if (length < 0)
+        return QByteArray();
+
+    QByteArray packet = m_dataBuffer.left(length);
+    m_dataBuffer.remove(0, length);
+
+    // The new line terminating a request is not part of the data following the request, but it might not be here yet
+    m_lineFeedPending = m_dataBuffer.isEmpty() && !m_interface->messageBased();
+    if (m_dataBuffer.startsWith('\n'))
+        m_dataBuffer.remove(0, 1);
+
+    return packet;
+}
+
 void TunnelProxyClient::activateClient()
 {
     // This connection has been registered as TypeServer or TypeClient
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h
index c1decfc..b1cf478 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h
@@ -49,11 +49,15 @@ public:
     explicit TunnelProxyClient(TransportInterface *interface, const QUuid &clientId, const QHostAddress &address, QObject *parent = nullptr);
 
     Type type() const;
+    bool registered() const override;
     void setType(Type type);
 
     // Json server methods
     QList<QByteArray> processData(const QByteArray &data) override;
 
+    // Returns the data without the new line which terminates the previous request, if that is what the data starts with
+    QByteArray skipLineFeed(const QByteArray &data);
+
     // This method will be called from the proxy server once the client is
     // registered correctly as server or client connection and is now active
     void activateClient();
@@ -65,6 +69,11 @@ private:
     QTimer *m_inactiveTimer = nullptr;
     Type m_type = TypeNone;
 
+    // The new line terminating the last request has not been received yet
+    bool m_lineFeedPending = false;
+
+    QByteArray takeJsonPacket();
+
 };
 
 QDebug operator<< (QDebug debug, TunnelProxyClient *tunnelProxyClient);
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
index 67b913e..e4cc4d8 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
@@ -387,6 +387,15 @@ void TunnelProxyServer::onClientDataAvailable(const QUuid &clientId, const QByte
     qCDebug(dcTunnelProxyServerTraffic()) << "Client data available" << tunnelProxyClient << qUtf8Printable(data);
     tunnelProxyClient->addRxDataCount(data.count());
 
+    QByteArray remainingData = tunnelProxyClient->skipLineFeed(data);
+    if (remainingData.isEmpty() && !data.isEmpty())
+        return;
+
+    processClientData(tunnelProxyClient, remainingData);
+}
+
+void TunnelProxyServer::processClientData(TunnelProxyClient *tunnelProxyClient, const QByteArray &data)
+{
     if (tunnelProxyClient->type() == TunnelProxyClient::TypeClient) {
         // Send the data to the server using slip encoded frame
         TunnelProxyClientConnection *clientConnection = m_tunnelProxyClientConnections.value(tunnelProxyClient->uuid());
@@ -452,6 +461,14 @@ void TunnelProxyServer::onClientDataAvailable(const QUuid &clientId, const QByte
     } else {
         // Not registered yet or doing other stuff...let the JSON RPC server handle this data
         m_jsonRpcServer->processData(tunnelProxyClient, data);
+
+        // If the client has been registered, any data received after the request belongs to the tunnel
+        if (tunnelProxyClient->registered() && !tunnelProxyClient->connectionKilled()) {
+            QByteArray remainingData = tunnelProxyClient->takeBuffer();
+            if (!remainingData.isEmpty()) {
+                processClientData(tunnelProxyClient, remainingData);
+            }
+        }
     }
 }
 
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.h b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.h
index 15ec820..5fa1d05 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.h
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.h
@@ -98,6 +98,8 @@ private:
     // Statistic measurments
     int m_troughput = 0;
     int m_troughputCounter = 0;
+
+    void processClientData(TunnelProxyClient *tunnelProxyClient, const QByteArray &data);
 };
 
 }
-- 
2.43.0


From 543a1c4b4d754217090d0f899b13e7061707f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 11/35] fix: close a killed connection even if the peer does
 not read the pending data

---
 libnymea-remoteproxy/server/tcpsocketserver.cpp  | 4 ++++
 libnymea-remoteproxy/server/transportinterface.h | 3 +++
 libnymea-remoteproxy/server/unixsocketserver.cpp | 5 +++++
 libnymea-remoteproxy/server/websocketserver.cpp  | 5 +++++
 4 files changed, 17 insertions(+)

diff --git a/libnymea-remoteproxy/server/tcpsocketserver.cpp b/libnymea-remoteproxy/server/tcpsocketserver.cpp
index b130586..581a334 100644
--- a/libnymea-remoteproxy/server/tcpsocketserver.cpp
+++ b/libnymea-remoteproxy/server/tcpsocketserver.cpp
@@ -68,6 +68,10 @@ void TcpSocketServer::killClientConnection(const QUuid &clientId, const QString
     qCDebug(dcTcpSocketServer()) << "Killing client connection" << clientId.toString() << "Reason:" << killReason;
     client->flush();
     client->close();
+
+    // The connection gets closed once the pending data has been sent. Don't wait forever for a peer which does not read.
+    if (client->state() != QAbstractSocket::UnconnectedState)
+        QTimer::singleShot(m_killTimeout, client, [client](){ client->abort(); });
 }
 
 uint TcpSocketServer::connectionsCount() const
diff --git a/libnymea-remoteproxy/server/transportinterface.h b/libnymea-remoteproxy/server/transportinterface.h
index 5474e62..8b0a00a 100644
--- a/libnymea-remoteproxy/server/transportinterface.h
+++ b/libnymea-remoteproxy/server/transportinterface.h
@@ -65,6 +65,9 @@ protected:
     QUrl m_serverUrl;
     QString m_serverName;
 
+    // How long [ms] a killed connection may take to fetch the data which is still pending
+    const int m_killTimeout = 5000;
+
 public slots:
     virtual bool startServer() = 0;
     virtual bool stopServer() = 0;
diff --git a/libnymea-remoteproxy/server/unixsocketserver.cpp b/libnymea-remoteproxy/server/unixsocketserver.cpp
index abb46e7..0aa051e 100644
--- a/libnymea-remoteproxy/server/unixsocketserver.cpp
+++ b/libnymea-remoteproxy/server/unixsocketserver.cpp
@@ -28,6 +28,7 @@
 #include "unixsocketserver.h"
 
 #include <QFile>
+#include <QTimer>
 
 #include "loggingcategories.h"
 
@@ -70,6 +71,10 @@ void UnixSocketServer::killClientConnection(const QUuid &clientId, const QString
     if (client->state() == QLocalSocket::ConnectedState) {
         qCWarning(dcUnixSocketServer()) << "Killing client connection" << clientId.toString() << "Reason:" << killReason;
         client->close();
+
+        // The connection gets closed once the pending data has been sent. Don't wait forever for a peer which does not read.
+        if (client->state() != QLocalSocket::UnconnectedState)
+            QTimer::singleShot(m_killTimeout, client, [client](){ client->abort(); });
     }
 }
 
diff --git a/libnymea-remoteproxy/server/websocketserver.cpp b/libnymea-remoteproxy/server/websocketserver.cpp
index 0f4aaeb..5ebbe59 100644
--- a/libnymea-remoteproxy/server/websocketserver.cpp
+++ b/libnymea-remoteproxy/server/websocketserver.cpp
@@ -29,6 +29,7 @@
 #include "loggingcategories.h"
 
 #include <QCoreApplication>
+#include <QTimer>
 
 namespace remoteproxy {
 
@@ -84,6 +85,10 @@ void WebSocketServer::killClientConnection(const QUuid &clientId, const QString
     qCWarning(dcWebSocketServer()) << "Killing client connection" << clientId.toString() << "Reason:" << killReason;
     client->flush();
     client->close(QWebSocketProtocol::CloseCodeBadOperation, killReason);
+
+    // The connection gets closed once the pending data has been sent. Don't wait forever for a peer which does not read.
+    if (client->state() != QAbstractSocket::UnconnectedState)
+        QTimer::singleShot(m_killTimeout, client, [client](){ client->abort(); });
 }
 
 uint WebSocketServer::connectionsCount() const
-- 
2.43.0


From 6e679e327c6fe561efd43645863256e56d2404d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:00 +0000
Subject: [PATCH 12/35] fix: shut down from the event loop instead of from
 within the signal handler

---
 server/remoteproxyserverapplication.cpp | 74 +++++++++++++++++--------
 server/remoteproxyserverapplication.h   |  6 +-
 2 files changed, 55 insertions(+), 25 deletions(-)

diff --git a/server/remoteproxyserverapplication.cpp b/server/remoteproxyserverapplication.cpp
index 2370cb5..e888780 100644
--- a/server/remoteproxyserverapplication.cpp
+++ b/server/remoteproxyserverapplication.cpp
@@ -30,38 +30,27 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <errno.h>
+#include <sys/socket.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #include <cxxabi.h>
 
 using namespace remoteproxy;
 
+// The write end is used in the signal handler, the read end in the event loop
+static int s_signalSockets[2] = { -1, -1 };
+
 static void catchUnixSignals(const std::vector<int>& quitSignals, const std::vector<int>& ignoreSignals = std::vector<int>())
 {
     auto handler = [](int sig) ->void {
-        switch (sig) {
-        case SIGQUIT:
-            qCDebug(dcApplication()) << "Cought SIGQUIT quit signal...";
-            break;
-        case SIGINT:
-            qCDebug(dcApplication()) << "Cought SIGINT quit signal...";
-            break;
-        case SIGTERM:
-            qCDebug(dcApplication()) << "Cought SIGTERM quit signal...";
-            break;
-        case SIGHUP:
-            qCDebug(dcApplication()) << "Cought SIGHUP quit signal...";
-            break;
-        default:
-            break;
-        }
-
-        qCDebug(dcApplication()) << "==========================================================";
-        qCDebug(dcApplication) << "Shutting down nymea-remoteproxy";
-        qCDebug(dcApplication()) << "==========================================================";
-
-        Engine::instance()->destroy();
-        RemoteProxyServerApplication::quit();
+        // Note: only async-signal-safe functions are allowed in here. The signal can interrupt anything,
+        // let the event loop do the actual shut down.
+        int savedErrno = errno;
+        char signalNumber = static_cast<char>(sig);
+        ssize_t ret = ::write(s_signalSockets[0], &signalNumber, sizeof(signalNumber));
+        Q_UNUSED(ret)
+        errno = savedErrno;
     };
 
     // all these signals will be ignored.
@@ -75,5 +64,44 @@ static void catchUnixSignals(const std::vector<int>& quitSignals, const std::vec
 RemoteProxyServerApplication::RemoteProxyServerApplication(int &argc, char **argv) :
     QCoreApplication(argc, argv)
 {
+    if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, s_signalSockets) != 0)
+        qFatal("Could not create the socket pair for the signal handling.");
+
+    m_signalNotifier = new QSocketNotifier(s_signalSockets[1], QSocketNotifier::Read, this);
+    connect(m_signalNotifier, &QSocketNotifier::activated, this, &RemoteProxyServerApplication::onSignalReceived);
+
     catchUnixSignals({SIGQUIT, SIGINT, SIGTERM, SIGHUP});
 }
+
+void RemoteProxyServerApplication::onSignalReceived()
+{
+    char signalNumber = 0;
+    if (::read(s_signalSockets[1], &signalNumber, sizeof(signalNumber)) != sizeof(signalNumber))
+        return;
+
+    m_signalNotifier->setEnabled(false);
+
+    switch (signalNumber) {
+    case SIGQUIT:
+        qCDebug(dcApplication()) << "Cought SIGQUIT quit signal...";
+        break;
+    case SIGINT:
+        qCDebug(dcApplication()) << "Cought SIGINT quit signal...";
+        break;
+    case SIGTERM:
+        qCDebug(dcApplication()) << "Cought SIGTERM quit signal...";
+        break;
+    case SIGHUP:
+        qCDebug(dcApplication()) << "Cought SIGHUP quit signal...";
+        break;
+    default:
+        break;
+    }
+
+    qCDebug(dcApplication()) << "==========================================================";
+    qCDebug(dcApplication) << "Shutting down nymea-remoteproxy";
+    qCDebug(dcApplication()) << "==========================================================";
+
+    Engine::instance()->destroy();
+    RemoteProxyServerApplication::quit();
+}
diff --git a/server/remoteproxyserverapplication.h b/server/remoteproxyserverapplication.h
index 9c53d20..b55a0c8 100644
--- a/server/remoteproxyserverapplication.h
+++ b/server/remoteproxyserverapplication.h
@@ -35,9 +35,11 @@ class RemoteProxyServerApplication : public QCoreApplication
 public:
     explicit RemoteProxyServerApplication(int &argc, char **argv);
 
-signals:
+private slots:
+    void onSignalReceived();
 
-public slots:
+private:
+    QSocketNotifier *m_signalNotifier = nullptr;
 };
 
 #endif // REMOTEPROXYSERVERAPPLICATION_H
-- 
2.43.0


From 7d88848e66af111e0b9f7207a03a3e27162bd5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:00 +0000
Subject: [PATCH 13/35] fix: print the data counters of the client in the
 client line of the monitor

---
 monitor/noninteractivemonitor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monitor/noninteractivemonitor.cpp b/monitor/noninteractivemonitor.cpp
index f149bc7..cf41d42 100644
--- a/monitor/noninteractivemonitor.cpp
+++ b/monitor/noninteractivemonitor.cpp
@@ -97,8 +97,8 @@ void NonInteractiveMonitor::onConnected()
                         .arg(QDateTime::fromMSecsSinceEpoch(clientMap.value("timestamp").toLongLong() * 1000).toString("dd.MM.yyyy hh:mm:ss"))
                         .arg(clientMap.value("clientUuid").toString())
                         .arg(clientMap.value("address").toString(), - 15)
-                        .arg(Utils::humanReadableTraffic(serverMap.value("rxDataCount").toInt()), - 9)
-                        .arg(Utils::humanReadableTraffic(serverMap.value("txDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toInt()), - 9)
                         .arg(clientMap.value("name").toString(), -30);
 
                 qStdOut() << clientLinePrint << "\n";
-- 
2.43.0


From 5ee04b03bf73aaf7c05eee2941008542e219f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:00 +0000
Subject: [PATCH 14/35] fix: find the end of the monitor data no matter how it
 has been fragmented

---
 monitor/monitorclient.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index c1ec45b..c828e28 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -87,16 +87,15 @@ void MonitorClient::onReadyRead()
     // Note: the server sends the data compact with "\n" at the end
     QByteArray data = m_socket->readAll();
 
-    int index = data.indexOf("}\n");
-    if (index < 0) {
-        // Append the entire data and continue
-        m_dataBuffer.append(data);
-        return;
-    } else {
-        m_dataBuffer.append(data.left(index + 1));
+    m_dataBuffer.append(data);
+
+    int index = m_dataBuffer.indexOf("}\n");
+    while (index >= 0) {
+        QByteArray remainingData = m_dataBuffer.mid(index + 2);
+        m_dataBuffer.truncate(index + 1);
         processBufferData();
-        m_dataBuffer.clear();
-        m_dataBuffer.append(data.right(data.length() - index - 2));
+        m_dataBuffer = remainingData;
+        index = m_dataBuffer.indexOf("}\n");
     }
 }
 
-- 
2.43.0


From 0e7ec08e80047a3bcb24b08fd78719dc489e8942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 15/35] fix: use a unique id for each request of the client
 library and never take a notification for a response

---
 libnymea-remoteproxyclient/jsonreply.cpp      |  1 -
 .../proxyjsonrpcclient.cpp                    | 55 ++++++++++---------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/libnymea-remoteproxyclient/jsonreply.cpp b/libnymea-remoteproxyclient/jsonreply.cpp
index 34dbddd..956b8a3 100644
--- a/libnymea-remoteproxyclient/jsonreply.cpp
+++ b/libnymea-remoteproxyclient/jsonreply.cpp
@@ -67,7 +67,6 @@ QVariantMap JsonReply::requestMap()
     if (!m_params.isEmpty())
         request.insert("params", params());
 
-    m_commandId++;
     return request;
 }
 
diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index 84ec7f8..4d45733 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -45,10 +45,10 @@ JsonRpcClient::JsonRpcClient(ProxyConnection *connection, QObject *parent) :
 
 JsonReply *JsonRpcClient::callHello()
 {
-    JsonReply *reply = new JsonReply(m_commandId, "RemoteProxy", "Hello", QVariantMap(), this);
+    JsonReply *reply = new JsonReply(m_commandId++, "RemoteProxy", "Hello", QVariantMap(), this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(reply->commandId(), reply);
     return reply;
 }
 
@@ -58,10 +58,10 @@ JsonReply *JsonRpcClient::callRegisterServer(const QUuid &serverUuid, const QStr
     params.insert("serverName", serverName);
     params.insert("serverUuid", serverUuid.toString());
 
-    JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "RegisterServer", params, this);
+    JsonReply *reply = new JsonReply(m_commandId++, "TunnelProxy", "RegisterServer", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(reply->commandId(), reply);
     return reply;
 }
 
@@ -72,10 +72,10 @@ JsonReply *JsonRpcClient::callRegisterClient(const QUuid &clientUuid, const QStr
     params.insert("clientName", clientName);
     params.insert("serverUuid", serverUuid.toString());
 
-    JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "RegisterClient", params, this);
+    JsonReply *reply = new JsonReply(m_commandId++, "TunnelProxy", "RegisterClient", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(reply->commandId(), reply);
     return reply;
 }
 
@@ -84,10 +84,10 @@ JsonReply *JsonRpcClient::callDisconnectClient(quint16 socketAddress)
     QVariantMap params;
     params.insert("socketAddress", socketAddress);
 
-    JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "DisconnectClient", params, this);
+    JsonReply *reply = new JsonReply(m_commandId++, "TunnelProxy", "DisconnectClient", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap(), true);
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(reply->commandId(), reply);
     return reply;
 }
 
@@ -96,10 +96,10 @@ JsonReply *JsonRpcClient::callPing(uint timestamp)
     QVariantMap params;
     params.insert("timestamp", timestamp);
 
-    JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "Ping", params, this);
+    JsonReply *reply = new JsonReply(m_commandId++, "TunnelProxy", "Ping", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap(), true);
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(reply->commandId(), reply);
     return reply;
 }
 
@@ -131,23 +131,7 @@ void JsonRpcClient::processDataPacket(const QByteArray &data)
 
     qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << "Data received" << qUtf8Printable(data);
 
-    // check if this is a reply to a request
-    int commandId = dataMap.value("id").toInt();
-    JsonReply *reply = m_replies.take(commandId);
-    if (reply) {
-        qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << QString("Got response for %1.%2: %3").arg(reply->nameSpace(), reply->method(), QString::fromUtf8(jsonDoc.toJson(QJsonDocument::Indented)));
-
-        if (dataMap.value("status").toString() == "error") {
-            qCWarning(dcRemoteProxyClientJsonRpc()) << "Api error happend" << dataMap.value("error").toString();
-            // FIMXME: handle json layer errors
-        }
-
-        reply->setResponse(dataMap);
-        emit reply->finished();
-        return;
-    }
-
-    // check if this is a notification
+    // check if this is a notification, the id of a notification is not related to the id of any request
     if (dataMap.contains("notification")) {
         QStringList notification = dataMap.value("notification").toString().split(".");
         QString nameSpace = notification.first();
@@ -170,6 +154,23 @@ void JsonRpcClient::processDataPacket(const QByteArray &data)
             quint16 socketAddress = static_cast<quint16>(notificationParams.value("socketAddress").toUInt());
             emit tunnelProxyClientDisonnected(socketAddress);
         }
+        return;
+    }
+
+    // check if this is a reply to a request
+    int commandId = dataMap.value("id").toInt();
+    JsonReply *reply = m_replies.take(commandId);
+    if (reply) {
+        qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << QString("Got response for %1.%2: %3").arg(reply->nameSpace(), reply->method(), QString::fromUtf8(jsonDoc.toJson(QJsonDocument::Indented)));
+
+        if (dataMap.value("status").toString() == "error") {
+            qCWarning(dcRemoteProxyClientJsonRpc()) << "Api error happend" << dataMap.value("error").toString();
+            // FIMXME: handle json layer errors
+        }
+
+        reply->setResponse(dataMap);
+        emit reply->finished();
+        return;
     }
 }
 
-- 
2.43.0


From f280a4d55c6589435b9e900f53f4d5d0dfb84a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 16/35] fix: send the keep alive ping also while data is
 received

The proxy only considers data it receives from the server.
---
 .../tunnelproxy/tunnelproxysocketserver.cpp                    | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 8cda6e7..4340f90 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -189,9 +189,6 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
 {
     qCDebug(dcTunnelProxySocketServerTraffic()) << "Data received" << qUtf8Printable(data);
 
-    // We recived data, let's reset the keep alive timer
-    m_keepAliveTimer.start();
-
     if (m_state != StateRunning) {
         m_jsonClient->processData(data);
         m_dataBuffer.clear();
-- 
2.43.0


From 513df8f45ca97ad38e4d7b8c727831d98c17d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 17/35] fix: don't let the replaced connection of the client
 library tear down the new one

---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp                 | 2 ++
 .../tunnelproxy/tunnelproxysocketserver.cpp                     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index 43274af..096b5a9 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -301,6 +301,8 @@ void TunnelProxyRemoteConnection::cleanUp()
     }
 
     if (m_connection) {
+        // Whatever happens to this connection from now on, it must not affect the next one
+        m_connection->disconnect(this);
         m_connection->deleteLater();
         m_connection = nullptr;
     }
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 4340f90..cfd461c 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -454,6 +454,8 @@ void TunnelProxySocketServer::cleanUp()
     }
 
     if (m_connection) {
+        // Whatever happens to this connection from now on, it must not affect the next one
+        m_connection->disconnect(this);
         m_connection->deleteLater();
         m_connection = nullptr;
     }
-- 
2.43.0


From c54b567c8651b559556a633d7aef0006e00e0606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 18/35] fix: retry also if the first connection attempt of the
 tunnel proxy socket server fails immediately

---
 .../tunnelproxy/tunnelproxysocketserver.cpp                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index cfd461c..cb289dc 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -148,8 +148,8 @@ bool TunnelProxySocketServer::startServer(const QUrl &serverUrl)
     connect(m_jsonClient, &JsonRpcClient::tunnelProxyClientDisonnected, this, &TunnelProxySocketServer::onTunnelProxyClientDisconnected);
 
     qCDebug(dcTunnelProxySocketServer()) << "Connecting to" << m_serverUrl.toString();
-    m_connection->connectServer(m_serverUrl);
     m_enabled = true;
+    m_connection->connectServer(m_serverUrl);
 
     return true;
 }
-- 
2.43.0


From 7acb8f0506149cee7a59d7b501b319e70158e24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 19/35] fix: handle data received together with the
 registration response in the client library as tunnel data

---
 .../tunnelproxyremoteconnection.cpp           | 23 ++++++++++++--
 .../tunnelproxy/tunnelproxyremoteconnection.h |  1 +
 .../tunnelproxy/tunnelproxysocketserver.cpp   | 30 ++++++++++++++-----
 3 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index 096b5a9..b0817b4 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -176,12 +176,27 @@ void TunnelProxyRemoteConnection::onConnectionChanged(bool connected)
 
 void TunnelProxyRemoteConnection::onConnectionDataAvailable(const QByteArray &data)
 {
-    if (m_state != StateRemoteConnected) {
-        m_jsonClient->processData(data);
+    if (m_state == StateRemoteConnected) {
+        emit dataReady(data);
         return;
     }
 
-    emit dataReady(data);
+    // Process line by line. Anything following the registration response is already data from the remote server.
+    m_dataBuffer.append(data);
+    while (m_jsonClient && m_state != StateRemoteConnected) {
+        int lineEnd = m_dataBuffer.indexOf('\n');
+        if (lineEnd < 0)
+            return;
+
+        QByteArray line = m_dataBuffer.left(lineEnd + 1);
+        m_dataBuffer.remove(0, lineEnd + 1);
+        m_jsonClient->processData(line);
+    }
+
+    QByteArray tunnelData = m_dataBuffer;
+    m_dataBuffer.clear();
+    if (m_state == StateRemoteConnected && !tunnelData.isEmpty())
+        emit dataReady(tunnelData);
 }
 
 void TunnelProxyRemoteConnection::onConnectionSocketError(QAbstractSocket::SocketError error)
@@ -307,6 +322,8 @@ void TunnelProxyRemoteConnection::cleanUp()
         m_connection = nullptr;
     }
 
+    m_dataBuffer.clear();
+
     m_remoteProxyServer.clear();
     m_remoteProxyServerName.clear();
     m_remoteProxyServerVersion.clear();
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.h b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.h
index 6a86534..131b17f 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.h
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.h
@@ -130,6 +130,7 @@ private:
 
     ProxyConnection *m_connection = nullptr;
     JsonRpcClient *m_jsonClient = nullptr;
+    QByteArray m_dataBuffer;
 
     void setState(State state);
     void setRemoteConnected(bool remoteConnected);
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index cb289dc..d56271f 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -189,25 +189,37 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
 {
     qCDebug(dcTunnelProxySocketServerTraffic()) << "Data received" << qUtf8Printable(data);
 
+    QByteArray frameData = data;
     if (m_state != StateRunning) {
-        m_jsonClient->processData(data);
+        // Process line by line. Anything following the registration response is already SLIP encoded.
+        m_dataBuffer.append(data);
+        while (m_jsonClient && m_state != StateRunning) {
+            int lineEnd = m_dataBuffer.indexOf('\n');
+            if (lineEnd < 0)
+                return;
+
+            QByteArray line = m_dataBuffer.left(lineEnd + 1);
+            m_dataBuffer.remove(0, lineEnd + 1);
+            m_jsonClient->processData(line);
+        }
+
+        frameData = m_dataBuffer;
         m_dataBuffer.clear();
-        return;
     }
 
     // Parse SLIP frame
-    for (int i = 0; i < data.length(); i++) {
-        quint8 byte = static_cast<quint8>(data.at(i));
+    for (int i = 0; i < frameData.length(); i++) {
+        quint8 byte = static_cast<quint8>(frameData.at(i));
         if (byte == SlipDataProcessor::ProtocolByteEnd) {
             // If there is no data...continue since it might be a starting END byte
             if (m_dataBuffer.isEmpty())
                 continue;
 
-            QByteArray frameData = SlipDataProcessor::deserializeData(m_dataBuffer);
-            if (frameData.isNull()) {
+            QByteArray frameContent = SlipDataProcessor::deserializeData(m_dataBuffer);
+            if (frameContent.isNull()) {
                 qCWarning(dcTunnelProxySocketServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
             } else {
-                SlipDataProcessor::Frame frame = SlipDataProcessor::parseFrame(frameData);
+                SlipDataProcessor::Frame frame = SlipDataProcessor::parseFrame(frameContent);
                 qCDebug(dcTunnelProxySocketServerTraffic()) << "Frame received" << frame.socketAddress << qUtf8Printable(frame.data);
                 if (frame.socketAddress == 0x0000) {
                     m_jsonClient->processData(frame.data);
@@ -224,7 +236,7 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
 
             m_dataBuffer.clear();
         } else {
-            m_dataBuffer.append(data.at(i));
+            m_dataBuffer.append(frameData.at(i));
         }
     }
 }
@@ -460,6 +472,8 @@ void TunnelProxySocketServer::cleanUp()
         m_connection = nullptr;
     }
 
+    m_dataBuffer.clear();
+
     m_remoteProxyServer.clear();
     m_remoteProxyServerName.clear();
     m_remoteProxyServerVersion.clear();
-- 
2.43.0


From c2fc3a4c708d4625fa568540cb67a85f68589e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 20/35] fix: stop processing frames once the tunnel proxy
 socket server has been stopped

---
 .../tunnelproxy/tunnelproxysocketserver.cpp                   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index d56271f..fb1c626 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -235,6 +235,10 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
             }
 
             m_dataBuffer.clear();
+
+            // The server might have been stopped while handling the frame
+            if (m_state != StateRunning)
+                return;
         } else {
             m_dataBuffer.append(frameData.at(i));
         }
-- 
2.43.0


From bdbd2a21c5f30a990ed02e55bad2883e38f3cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:08 +0000
Subject: [PATCH 21/35] fix: do not cut web socket text messages at the first
 NUL character

Tunnel data for a WebSocket client was converted implicitly from QByteArray
to QString, which stops at the first NUL byte, and the rest was lost.
---
 libnymea-remoteproxy/server/websocketserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/server/websocketserver.cpp b/libnymea-remoteproxy/server/websocketserver.cpp
index 5ebbe59..4eff0a8 100644
--- a/libnymea-remoteproxy/server/websocketserver.cpp
+++ b/libnymea-remoteproxy/server/websocketserver.cpp
@@ -70,7 +70,7 @@ void WebSocketServer::sendData(const QUuid &clientId, const QByteArray &data)
     client = m_clientList.value(clientId);
     if (client) {
         qCDebug(dcWebSocketServerTraffic()) << "--> Sending data to client:" << data;
-        client->sendTextMessage(data);
+        client->sendTextMessage(QString::fromUtf8(data.constData(), data.size()));
     } else {
         qCWarning(dcWebSocketServer()) << "Client" << clientId << "unknown to this transport";
     }
-- 
2.43.0


From c27a863c3fb489f279fe0917074b106433f31602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 22/35] fix: print the monitor data as UTF-8 in JSON mode

---
 monitor/monitorclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index c828e28..75c8ff0 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -60,7 +60,7 @@ void MonitorClient::processBufferData()
     }
 
     if (m_jsonMode) {
-        qStdOut() << qUtf8Printable(jsonDoc.toJson(QJsonDocument::Indented)) << "\n";
+        qStdOut() << jsonDoc.toJson(QJsonDocument::Indented) << "\n";
         QTextStream out(stdout);
         out.flush();
         exit(EXIT_FAILURE);
-- 
2.43.0


From 4b04ba9d6e79bacc423456d2ddbd03396360fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 23/35] fix: do not truncate byte counts beyond 2 GiB in the
 monitor

---
 monitor/noninteractivemonitor.cpp | 10 +++++-----
 monitor/terminalwindow.cpp        | 16 ++++++++--------
 monitor/utils.h                   |  2 +-
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/monitor/noninteractivemonitor.cpp b/monitor/noninteractivemonitor.cpp
index cf41d42..8748448 100644
--- a/monitor/noninteractivemonitor.cpp
+++ b/monitor/noninteractivemonitor.cpp
@@ -53,7 +53,7 @@ void NonInteractiveMonitor::onConnected()
         qStdOut() << "Total client count:" << tunnelProxyMap.value("totalClientCount", 0).toInt() << "\n";
         qStdOut() << "Server connections:" << tunnelProxyMap.value("serverConnectionsCount", 0).toInt() << "\n";
         qStdOut() << "Client connections:" << tunnelProxyMap.value("clientConnectionsCount", 0).toInt() << "\n";
-        qStdOut() << "Data troughput:" << Utils::humanReadableTraffic(tunnelProxyMap.value("troughput", 0).toInt()) + " / s" << "\n";
+        qStdOut() << "Data troughput:" << Utils::humanReadableTraffic(tunnelProxyMap.value("troughput", 0).toLongLong()) + " / s" << "\n";
         qStdOut() << "---------------------------------------------------------------------" << "\n";
         QVariantMap transportsMap = tunnelProxyMap.value("transports").toMap();
         foreach(const QString &transportInterface, transportsMap.keys()) {
@@ -78,8 +78,8 @@ void NonInteractiveMonitor::onConnected()
                     .arg(serverConnectionTime)
                     .arg(serverMap.value("serverUuid").toString())
                     .arg(serverMap.value("address").toString(), - 15)
-                    .arg(Utils::humanReadableTraffic(serverMap.value("rxDataCount").toInt()), - 9)
-                    .arg(Utils::humanReadableTraffic(serverMap.value("txDataCount").toInt()), - 9)
+                    .arg(Utils::humanReadableTraffic(serverMap.value("rxDataCount").toLongLong()), - 9)
+                    .arg(Utils::humanReadableTraffic(serverMap.value("txDataCount").toLongLong()), - 9)
                     .arg(serverMap.value("name").toString());
 
             qStdOut() << serverLinePrint << "\n";
@@ -97,8 +97,8 @@ void NonInteractiveMonitor::onConnected()
                         .arg(QDateTime::fromMSecsSinceEpoch(clientMap.value("timestamp").toLongLong() * 1000).toString("dd.MM.yyyy hh:mm:ss"))
                         .arg(clientMap.value("clientUuid").toString())
                         .arg(clientMap.value("address").toString(), - 15)
-                        .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toInt()), - 9)
-                        .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toLongLong()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toLongLong()), - 9)
                         .arg(clientMap.value("name").toString(), -30);
 
                 qStdOut() << clientLinePrint << "\n";
diff --git a/monitor/terminalwindow.cpp b/monitor/terminalwindow.cpp
index 182c988..b7f8789 100644
--- a/monitor/terminalwindow.cpp
+++ b/monitor/terminalwindow.cpp
@@ -166,7 +166,7 @@ void TerminalWindow::paintHeader()
                 .arg(m_dataMap.value("tunnelProxyStatistic").toMap().value("totalClientCount", 0).toInt())
                 .arg(m_dataMap.value("tunnelProxyStatistic").toMap().value("serverConnectionsCount", 0).toInt())
                 .arg(m_dataMap.value("tunnelProxyStatistic").toMap().value("clientConnectionsCount", 0).toInt())
-                .arg(Utils::humanReadableTraffic(m_dataMap.value("tunnelProxyStatistic").toMap().value("troughput", 0).toInt()) + " / s", - 13)
+                .arg(Utils::humanReadableTraffic(m_dataMap.value("tunnelProxyStatistic").toMap().value("troughput", 0).toLongLong()) + " / s", - 13)
                 .arg(windowName);
         break;
     }
@@ -194,8 +194,8 @@ void TerminalWindow::paintContentClients()
         uint timeStamp = clientMap.value("timestamp").toUInt();
         QString clientConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
 
-        int rxDataCountBytes = clientMap.value("rxDataCount").toInt();
-        int txDataCountBytes = clientMap.value("txDataCount").toInt();
+        qint64 rxDataCountBytes = clientMap.value("rxDataCount").toLongLong();
+        qint64 txDataCountBytes = clientMap.value("txDataCount").toLongLong();
 
         QString clientPrint = QString("%1 | %2 | %3 | RX: %4 | TX: %5 | %6 | %7 | %8")
                 .arg(clientConnectionTime)
@@ -228,7 +228,7 @@ void TerminalWindow::paintContentTunnels()
         QString tunnelPrint = QString("%1 | %2 | %3 | %4 | %5 (%6) <---> %7 (%8)")
                 .arg(tunnelConnectionTime)
                 .arg(Utils::getDurationString(timeStamp))
-                .arg(Utils::humanReadableTraffic(clientOne.value("rxDataCount").toInt() + clientOne.value("txDataCount").toInt()), - 10)
+                .arg(Utils::humanReadableTraffic(clientOne.value("rxDataCount").toLongLong() + clientOne.value("txDataCount").toLongLong()), - 10)
                 .arg(clientOne.value("userName").toString())
                 .arg(clientOne.value("name").toString())
                 .arg(clientOne.value("address").toString())
@@ -250,8 +250,8 @@ void TerminalWindow::paintContentTunnelProxy()
         QVariantMap serverMap = serverVariant.toMap();
         uint timeStamp = serverMap.value("timestamp").toUInt();
         QString serverConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
-        int rxDataCountBytes = serverMap.value("rxDataCount").toInt();
-        int txDataCountBytes = serverMap.value("txDataCount").toInt();
+        qint64 rxDataCountBytes = serverMap.value("rxDataCount").toLongLong();
+        qint64 txDataCountBytes = serverMap.value("txDataCount").toLongLong();
         QString serverLinePrint = QString("%1 | %2 | RX: %3 | TX: %4 | %5")
                 .arg(serverConnectionTime)
                 .arg(serverMap.value("address").toString(), - 16)
@@ -286,8 +286,8 @@ void TerminalWindow::paintContentTunnelProxy()
             QString clientLinePrint = QString("%1 | %2 | RX: %3 | TX: %4 | %5")
                     .arg(QDateTime::fromMSecsSinceEpoch(clientMap.value("timestamp").toULongLong() * 1000).toString("dd.MM.yyyy hh:mm:ss"))
                     .arg(clientMap.value("address").toString(), - 16)
-                    .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toInt()), - 10)
-                    .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toInt()), - 10)
+                    .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toLongLong()), - 10)
+                    .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toLongLong()), - 10)
                     .arg(clientMap.value("name").toString(), -30);
 
             mvwprintw(m_contentWindow, i, 6, "%s", clientLinePrint.trimmed().toLatin1().constData());
diff --git a/monitor/utils.h b/monitor/utils.h
index 5a121c4..3009154 100644
--- a/monitor/utils.h
+++ b/monitor/utils.h
@@ -49,7 +49,7 @@ public:
         return QString::asprintf("%02d:%02d:%02d", hours, minutes, seconds);
     }
 
-    inline static QString humanReadableTraffic(int bytes) {
+    inline static QString humanReadableTraffic(qint64 bytes) {
         double dataCount = bytes;
         QStringList list;
         list << "KB" << "MB" << "GB" << "TB";
-- 
2.43.0


From 248fdec1519630d1abf41047ca3727fcdaaa09f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 24/35] fix: show the real connection time of servers in the
 monitor

---
 monitor/terminalwindow.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monitor/terminalwindow.cpp b/monitor/terminalwindow.cpp
index b7f8789..6f86519 100644
--- a/monitor/terminalwindow.cpp
+++ b/monitor/terminalwindow.cpp
@@ -192,7 +192,7 @@ void TerminalWindow::paintContentClients()
         QVariantMap clientMap = clientVariant.toMap();
 
         uint timeStamp = clientMap.value("timestamp").toUInt();
-        QString clientConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
+        QString clientConnectionTime = QDateTime::fromMSecsSinceEpoch(static_cast<qint64>(timeStamp) * 1000).toString("dd.MM.yyyy hh:mm:ss");
 
         qint64 rxDataCountBytes = clientMap.value("rxDataCount").toLongLong();
         qint64 txDataCountBytes = clientMap.value("txDataCount").toLongLong();
@@ -223,7 +223,7 @@ void TerminalWindow::paintContentTunnels()
 
         // Tunnel time
         uint timeStamp = tunnelMap.value("timestamp").toUInt();
-        QString tunnelConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
+        QString tunnelConnectionTime = QDateTime::fromMSecsSinceEpoch(static_cast<qint64>(timeStamp) * 1000).toString("dd.MM.yyyy hh:mm:ss");
 
         QString tunnelPrint = QString("%1 | %2 | %3 | %4 | %5 (%6) <---> %7 (%8)")
                 .arg(tunnelConnectionTime)
@@ -249,7 +249,7 @@ void TerminalWindow::paintContentTunnelProxy()
     foreach (const QVariant &serverVariant, tunnelProxyMap.value("tunnelConnections").toList()) {
         QVariantMap serverMap = serverVariant.toMap();
         uint timeStamp = serverMap.value("timestamp").toUInt();
-        QString serverConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
+        QString serverConnectionTime = QDateTime::fromMSecsSinceEpoch(static_cast<qint64>(timeStamp) * 1000).toString("dd.MM.yyyy hh:mm:ss");
         qint64 rxDataCountBytes = serverMap.value("rxDataCount").toLongLong();
         qint64 txDataCountBytes = serverMap.value("txDataCount").toLongLong();
         QString serverLinePrint = QString("%1 | %2 | RX: %3 | TX: %4 | %5")
-- 
2.43.0


From 380e7af1cfd6731a0eaee8d93209c9365bded8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:43 +0000
Subject: [PATCH 25/35] fix: do not interpret percent signs of the server name
 in the monitor header

---
 monitor/terminalwindow.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/monitor/terminalwindow.cpp b/monitor/terminalwindow.cpp
index 6f86519..590f74b 100644
--- a/monitor/terminalwindow.cpp
+++ b/monitor/terminalwindow.cpp
@@ -160,14 +160,14 @@ void TerminalWindow::paintHeader()
     case ViewTunnelProxy:
         windowName = "-- TunnelProxy --";
         headerString = QString(" Server: %1 (%2) | API: %3 | Total: %4 | Servers: %5 | Clients: %6 | %7 | %8")
-                .arg(m_dataMap.value("serverName", "-").toString())
-                .arg(m_dataMap.value("serverVersion", "-").toString())
-                .arg(m_dataMap.value("apiVersion", "-").toString())
-                .arg(m_dataMap.value("tunnelProxyStatistic").toMap().value("totalClientCount", 0).toInt())
-                .arg(m_dataMap.value("tunnelProxyStatistic").toMap().value("serverConnectionsCount", 0).toInt())
-                .arg(m_dataMap.value("tunnelProxyStatistic").toMap().value("clientConnectionsCount", 0).toInt())
-                .arg(Utils::humanReadableTraffic(m_dataMap.value("tunnelProxyStatistic").toMap().value("troughput", 0).toLongLong()) + " / s", - 13)
-                .arg(windowName);
+                .arg(m_dataMap.value("serverName", "-").toString(),
+                     m_dataMap.value("serverVersion", "-").toString(),
+                     m_dataMap.value("apiVersion", "-").toString(),
+                     QString::number(m_dataMap.value("tunnelProxyStatistic").toMap().value("totalClientCount", 0).toInt()),
+                     QString::number(m_dataMap.value("tunnelProxyStatistic").toMap().value("serverConnectionsCount", 0).toInt()),
+                     QString::number(m_dataMap.value("tunnelProxyStatistic").toMap().value("clientConnectionsCount", 0).toInt()),
+                     QString(Utils::humanReadableTraffic(m_dataMap.value("tunnelProxyStatistic").toMap().value("troughput", 0).toLongLong()) + " / s").leftJustified(13),
+                     windowName);
         break;
     }
 
-- 
2.43.0


From 2310d2861fbbb178c8ce71b627b596275d69993e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:15 +0000
Subject: [PATCH 26/35] fix: read the configuration file as UTF-8

---
 libnymea-remoteproxy/proxyconfiguration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libnymea-remoteproxy/proxyconfiguration.cpp b/libnymea-remoteproxy/proxyconfiguration.cpp
index 015cc63..cc853ff 100644
--- a/libnymea-remoteproxy/proxyconfiguration.cpp
+++ b/libnymea-remoteproxy/proxyconfiguration.cpp
@@ -51,6 +51,7 @@ bool ProxyConfiguration::loadConfiguration(const QString &fileName)
     }
 
     QSettings settings(m_fileName, QSettings::IniFormat);
+    settings.setIniCodec("UTF-8");
 
     settings.beginGroup("ProxyServer");
     setServerName(settings.value("name", "nymea-remoteproxy").toString());
-- 
2.43.0


From 897ebb3fd99c71479fc5b5c11be4ff9a15463ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:11 +0000
Subject: [PATCH 27/35] fix: use all certificates of the certificate chain file

---
 libnymea-remoteproxy/proxyconfiguration.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libnymea-remoteproxy/proxyconfiguration.cpp b/libnymea-remoteproxy/proxyconfiguration.cpp
index cc853ff..1aee7ab 100644
--- a/libnymea-remoteproxy/proxyconfiguration.cpp
+++ b/libnymea-remoteproxy/proxyconfiguration.cpp
@@ -118,8 +118,7 @@ bool ProxyConfiguration::loadConfiguration(const QString &fileName)
             qCWarning(dcApplication()) << "Could not open certificate chain file:" << sslCertificateChainFileName() << certChainFile.errorString();
             return false;
         }
-        QSslCertificate certificate(&certChainFile, QSsl::Pem);
-        sslConfiguration.setCaCertificates( QList<QSslCertificate>() << certificate );
+        sslConfiguration.setCaCertificates(QSslCertificate::fromDevice(&certChainFile, QSsl::Pem));
         certChainFile.close();
         qCDebug(dcApplication()) << "Loaded successfully certificate chain" << sslCertificateKeyFileName();
     }
-- 
2.43.0


From 21e4f53c6af75c466fa3d9e62a0ee27bf906b24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:26 +0000
Subject: [PATCH 28/35] fix: do not cut web socket text messages of the client
 library at the first NUL character

---
 libnymea-remoteproxyclient/websocketconnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/websocketconnection.cpp b/libnymea-remoteproxyclient/websocketconnection.cpp
index 91a4165..421f3c5 100644
--- a/libnymea-remoteproxyclient/websocketconnection.cpp
+++ b/libnymea-remoteproxyclient/websocketconnection.cpp
@@ -51,7 +51,7 @@ WebSocketConnection::~WebSocketConnection()
 
 void WebSocketConnection::sendData(const QByteArray &data)
 {
-    m_webSocket->sendTextMessage(QString::fromUtf8(data));
+    m_webSocket->sendTextMessage(QString::fromUtf8(data.constData(), data.size()));
 }
 
 void WebSocketConnection::ignoreSslErrors()
-- 
2.43.0


From 46196b46c9c97ebc173d942cf546aa3cd9a6b3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:24 +0000
Subject: [PATCH 29/35] fix: don't continue connecting if the application
 disconnects while handling a state change

---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp      | 12 +++++++++++-
 .../tunnelproxy/tunnelproxysocketserver.cpp          | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index b0817b4..e6d4d46 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -164,7 +164,13 @@ void TunnelProxyRemoteConnection::onConnectionChanged(bool connected)
     if (connected) {
         qCDebug(dcTunnelProxyRemoteConnection()) << "Connected to remote proxy server.";
         setState(StateConnected);
-        setState(StateInitializing);
+        if (m_state == StateConnected)
+            setState(StateInitializing);
+
+        // The connection might have been closed while handling the state change
+        if (m_state != StateInitializing)
+            return;
+
         JsonReply *reply = m_jsonClient->callHello();
         connect(reply, &JsonReply::finished, this, &TunnelProxyRemoteConnection::onHelloFinished);
     } else {
@@ -251,6 +257,10 @@ void TunnelProxyRemoteConnection::onHelloFinished()
 
     setState(StateRegister);
 
+    // The connection might have been closed while handling the state change
+    if (m_state != StateRegister)
+        return;
+
     JsonReply *registerReply = m_jsonClient->callRegisterClient(m_clientUuid, m_clientName, m_serverUuid);
     connect(registerReply, &JsonReply::finished, this, &TunnelProxyRemoteConnection::onClientRegistrationFinished);
 }
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index fb1c626..b782e26 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -174,7 +174,13 @@ void TunnelProxySocketServer::onConnectionChanged(bool connected)
         setState(StateConnected);
         m_serverError = TunnelProxySocketServer::ErrorNoError;
 
-        setState(StateInitializing);
+        if (m_state == StateConnected)
+            setState(StateInitializing);
+
+        // The server might have been stopped while handling the state change
+        if (m_state != StateInitializing)
+            return;
+
         JsonReply *reply = m_jsonClient->callHello();
         connect(reply, &JsonReply::finished, this, &TunnelProxySocketServer::onHelloFinished);
     } else {
@@ -300,6 +306,10 @@ void TunnelProxySocketServer::onHelloFinished()
 
     setState(StateRegister);
 
+    // The server might have been stopped while handling the state change
+    if (m_state != StateRegister)
+        return;
+
     JsonReply *registerReply = m_jsonClient->callRegisterServer(m_serverUuid, m_serverName);
     connect(registerReply, &JsonReply::finished, this, &TunnelProxySocketServer::onServerRegistrationFinished);
 }
-- 
2.43.0


From 2f6260d56b420503c3d97f50741077651f022447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:24 +0000
Subject: [PATCH 30/35] fix: don't report the end of a remote connection which
 has not been reported as connected

---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp        | 10 +++++-----
 .../tunnelproxy/tunnelproxyremoteconnection.h          |  1 +
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index e6d4d46..575776f 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -295,15 +295,15 @@ void TunnelProxyRemoteConnection::setState(State state)
     if (m_state == state)
         return;
 
-    bool remoteConnected = m_state == StateRemoteConnected;
-
     m_state = state;
     qCDebug(dcTunnelProxyRemoteConnection()) << "State changed" << m_state;
     emit stateChanged(m_state);
 
-    bool stillRemoteConnected = m_state == StateRemoteConnected;
-    if (remoteConnected != stillRemoteConnected) {
-        emit remoteConnectedChanged(m_state == StateRemoteConnected);
+    // Note: the state might have changed again while handling the state change
+    bool remoteConnected = m_state == StateRemoteConnected;
+    if (m_remoteConnected != remoteConnected) {
+        m_remoteConnected = remoteConnected;
+        emit remoteConnectedChanged(m_remoteConnected);
     }
 }
 
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.h b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.h
index 131b17f..c84df01 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.h
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.h
@@ -127,6 +127,7 @@ private:
     QUrl m_serverUrl;
     QAbstractSocket::SocketError m_error = QAbstractSocket::UnknownSocketError;
     State m_state = StateDisconnected;
+    bool m_remoteConnected = false;
 
     ProxyConnection *m_connection = nullptr;
     JsonRpcClient *m_jsonClient = nullptr;
-- 
2.43.0


From 6d10a7a031bd7c34058510e623eb3dcb82688a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:01 +0000
Subject: [PATCH 31/35] fix: don't request the disconnect of a tunnel proxy
 socket which is already disconnected

---
 libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocket.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocket.cpp
index 2bd5ae3..503520b 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocket.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocket.cpp
@@ -79,6 +79,10 @@ void TunnelProxySocket::writeData(const QByteArray &data)
 
 void TunnelProxySocket::disconnectSocket()
 {
+    // Nothing to do if the client is already gone
+    if (!m_connected)
+        return;
+
     m_socketServer->requestSocketDisconnect(m_socketAddress);
 }
 
-- 
2.43.0


From bb35d9b50a42763e5f92c895cb605905b3275de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:42 +0000
Subject: [PATCH 32/35] fix: don't send random data as tunnel client without
 --random

---
 tunnelclient/clientconnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tunnelclient/clientconnection.cpp b/tunnelclient/clientconnection.cpp
index 8d0bb16..71f0a47 100644
--- a/tunnelclient/clientconnection.cpp
+++ b/tunnelclient/clientconnection.cpp
@@ -55,7 +55,7 @@ ClientConnection::ClientConnection(const QUrl &serverUrl, const QString &name, c
 
     connect(m_remoteConnection, &TunnelProxyRemoteConnection::remoteConnectedChanged, this, [this](bool remoteConnected){
         qDebug() << "Remote connection" << (remoteConnected ? "established successfully" : "disconnected");
-        if (remoteConnected) {
+        if (remoteConnected && m_sendRandomData) {
             m_timer.start(1000);
         }
     });
-- 
2.43.0


From d6c99c793f840ab523498136750d198dad09be6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:23 +0000
Subject: [PATCH 33/35] fix: don't become running if the engine has been
 stopped before the event loop runs

---
 libnymea-remoteproxy/engine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libnymea-remoteproxy/engine.cpp b/libnymea-remoteproxy/engine.cpp
index 8777293..4f662ae 100644
--- a/libnymea-remoteproxy/engine.cpp
+++ b/libnymea-remoteproxy/engine.cpp
@@ -250,6 +250,10 @@ void Engine::setRunning(bool running)
     if (m_running == running)
         return;
 
+    // This is invoked queued when starting, the engine might have been stopped again meanwhile
+    if (running && !m_tunnelProxyServer)
+        return;
+
     if (m_tunnelProxyServer)
         m_tunnelProxyServer->setRunning(running);
 
-- 
2.43.0


From 74491b36cddbf57bf84add07a9e0a6d9dfe47dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:46 +0000
Subject: [PATCH 34/35] fix: don't crash if SSL errors should be ignored while
 there is no connection

---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp           | 8 ++++++--
 .../tunnelproxy/tunnelproxysocketserver.cpp               | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index 575776f..662986a 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -74,12 +74,16 @@ QAbstractSocket::SocketError TunnelProxyRemoteConnection::error() const
 
 void TunnelProxyRemoteConnection::ignoreSslErrors()
 {
-    m_connection->ignoreSslErrors();
+    // There is no connection before the first and after a finished attempt
+    if (m_connection)
+        m_connection->ignoreSslErrors();
 }
 
 void TunnelProxyRemoteConnection::ignoreSslErrors(const QList<QSslError> &errors)
 {
-    m_connection->ignoreSslErrors(errors);
+    // There is no connection before the first and after a finished attempt
+    if (m_connection)
+        m_connection->ignoreSslErrors(errors);
 }
 
 QUrl TunnelProxyRemoteConnection::serverUrl() const
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index b782e26..bff9c71 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -81,12 +81,16 @@ TunnelProxySocketServer::State TunnelProxySocketServer::state() const
 
 void TunnelProxySocketServer::ignoreSslErrors()
 {
-    m_connection->ignoreSslErrors();
+    // There is no connection before the first and after a finished attempt
+    if (m_connection)
+        m_connection->ignoreSslErrors();
 }
 
 void TunnelProxySocketServer::ignoreSslErrors(const QList<QSslError> &errors)
 {
-    m_connection->ignoreSslErrors(errors);
+    // There is no connection before the first and after a finished attempt
+    if (m_connection)
+        m_connection->ignoreSslErrors(errors);
 }
 
 QUrl TunnelProxySocketServer::serverUrl() const
-- 
2.43.0


From 7741792d1ca2a3dd4dda05303ce04c72e9e6bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:10 +0000
Subject: [PATCH 35/35] fix: look up host names given in tcp:// URLs

---
 libnymea-remoteproxyclient/tcpsocketconnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/tcpsocketconnection.cpp b/libnymea-remoteproxyclient/tcpsocketconnection.cpp
index 4107a5e..4e34edf 100644
--- a/libnymea-remoteproxyclient/tcpsocketconnection.cpp
+++ b/libnymea-remoteproxyclient/tcpsocketconnection.cpp
@@ -123,7 +123,7 @@ void TcpSocketConnection::connectServer(const QUrl &serverUrl)
 
     if (m_serverUrl.scheme() == "tcp") {
         qCDebug(dcRemoteProxyClientTcpSocket()) << "Connecting to" << m_serverUrl.toString();
-        m_tcpSocket->connectToHost(QHostAddress(m_serverUrl.host()), static_cast<quint16>(m_serverUrl.port()));
+        m_tcpSocket->connectToHost(m_serverUrl.host(), static_cast<quint16>(m_serverUrl.port()));
     } else {
         m_ssl = true;
         qCDebug(dcRemoteProxyClientTcpSocket()) << "Connecting encrypted to" << m_serverUrl.host() + ":" + QString::number(m_serverUrl.port());
-- 
2.43.0

