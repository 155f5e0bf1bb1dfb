From 06c04f20174b6ffaca9844178ff31e9b75272ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:36 +0000
Subject: [PATCH 01/23] fix: unescape SLIP frames of tunnel servers and drop
 malformed ones entirely

The proxy forwarded the raw, still escaped frame, so every 0xC0 and 0xDB byte a
tunnel server sent arrived altered, and a malformed frame stayed in the buffer
and swallowed the frame following it.
---
 libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index 81e9e35..561fd05 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -83,9 +83,9 @@ QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
                     qCWarning(dcTunnelProxyServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
                 } else {
                     qCDebug(dcTunnelProxyServerTraffic()) << "Frame received";
-                    packets.append(m_dataBuffer);
-                    m_dataBuffer.clear();
+                    packets.append(frame);
                 }
+                m_dataBuffer.clear();
             } else {
                 m_dataBuffer.append(data.at(i));
             }
-- 
2.43.0


From 602b17bb40435c45377108898a476a5f5832c352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:12 +0000
Subject: [PATCH 02/23] fix: reject SLIP frames which end within an escape
 sequence

Such a frame was delivered with the incomplete escape sequence cut off instead
of being dropped.
---
 common/slipdataprocessor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/slipdataprocessor.cpp b/common/slipdataprocessor.cpp
index a2ab18a..a46ba31 100644
--- a/common/slipdataprocessor.cpp
+++ b/common/slipdataprocessor.cpp
@@ -62,6 +62,11 @@ QByteArray SlipDataProcessor::deserializeData(const QByteArray &data)
         }
     }
 
+    if (escaped) {
+        qWarning() << "Error while deserializing data. The frame ends with an incomplete escape sequence.";
+        return QByteArray();
+    }
+
     return deserializedData;
 }
 
-- 
2.43.0


From e4211496e8350600aae496570cd727eea457d9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:41 +0000
Subject: [PATCH 03/23] fix: assign tunnel client socket addresses round robin
 from the whole range

The counter was not advanced past skipped addresses and the search gave up after
100 addresses, so once it had wrapped around an address which is still in use
could be assigned twice and a just released one was assigned again immediately.
---
 .../tunnelproxy/tunnelproxyserverconnection.cpp     | 13 +++++++------
 .../tunnelproxy/tunnelproxyserverconnection.h       |  1 -
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
index 0eb8690..ce3e9cb 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
@@ -84,16 +84,17 @@ TunnelProxyClientConnection *TunnelProxyServerConnection::getClientConnection(qu
 
 quint16 TunnelProxyServerConnection::getFreeAddress()
 {
-    m_currentAddressCounter += 1;
+    // Continue with the next free address of the entire range, so a released address will
+    // not be reused before all the others have been assigned.
     quint16 address = m_currentAddressCounter;
-    for (int i = 0; i < m_connectionLimit; i++) {
-        if (m_clientConnectionsAddresses.contains(address) || address == 0x0000 || address == 0xFFFF) {
-            address++;
-        } else {
+    for (int i = 0; i <= 0xFFFF; i++) {
+        address++;
+        if (address != 0x0000 && address != 0xFFFF && !m_clientConnectionsAddresses.contains(address))
             break;
-        }
     }
 
+    m_currentAddressCounter = address;
+
     Q_ASSERT_X(!m_clientConnectionsAddresses.contains(address), "TunnelProxyServerConnection", "no free address but the maximum of connections has been reached.");
     return address;
 }
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
index 17f62cc..17e9c54 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
@@ -59,7 +59,6 @@ private:
     TransportClient *m_transportClient = nullptr;
     QUuid m_serverUuid;
     QString m_serverName;
-    quint16 m_connectionLimit = 100;
 
     quint16 m_currentAddressCounter = 0;
 
-- 
2.43.0


From b9b2128a55ea3aa91cf3b732854d8f11f1f3b51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:41 +0000
Subject: [PATCH 04/23] fix: do not truncate the socket address of a disconnect
 request

An address outside of the 16 bit range was truncated and disconnected the client
which holds the remaining lower 16 bits instead of being rejected.
---
 libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp b/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
index beea4c9..fbe9c24 100644
--- a/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
+++ b/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
@@ -121,7 +121,14 @@ JsonReply *TunnelProxyHandler::RegisterServer(const QVariantMap &params, Transpo
 JsonReply *TunnelProxyHandler::DisconnectClient(const QVariantMap &params, TransportClient *transportClient)
 {
     qCDebug(dcJsonRpc()) << name() << "disconnect client requested" << params << transportClient;
-    quint16 socketAddress = static_cast<quint16>(params.value("socketAddress").toUInt());
+    // Note: the socket address is a 16 bit number, anything else can not be the address of a client. The address 0x0000 is
+    // reserved for the JSON RPC server and will never be assigned to a client.
+    bool validNumber = false;
+    qint64 requestedAddress = params.value("socketAddress").toLongLong(&validNumber);
+    quint16 socketAddress = 0x0000;
+    if (validNumber && requestedAddress >= 0 && requestedAddress <= 0xFFFF)
+        socketAddress = static_cast<quint16>(requestedAddress);
+
     TunnelProxyServer::TunnelProxyError error = Engine::instance()->tunnelProxyServer()->disconnectClient(transportClient->clientId(), socketAddress);
 
     QVariantMap response;
-- 
2.43.0


From 8a7d2e802af728135f59766ae395dff34fae58c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:30 +0000
Subject: [PATCH 05/23] fix: do not take the end of a nested JSON object for
 the end of the request

If the data received so far ended with the closing brace of the params object,
the incomplete request was parsed, answered with an error and the connection
closed, depending only on how the data had been fragmented.
---
 .../tunnelproxy/tunnelproxyclient.cpp         | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index 561fd05..6fff3a3 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -33,6 +33,32 @@
 
 namespace remoteproxy {
 
+// Returns true if the data ends within a JSON object, i.e. the closing brace at the end
+// of the data belongs to a nested object and the rest of the request has not arrived yet.
+static bool hasOpenJsonObject(const QByteArray &data)
+{
+    int depth = 0;
+    bool inString = false;
+    for (int i = 0; i < data.length(); i++) {
+        const char character = data.at(i);
+        if (inString) {
+            if (character == '\\') {
+                i++;
+            } else if (character == '"') {
+                inString = false;
+            }
+        } else if (character == '"') {
+            inString = true;
+        } else if (character == '{') {
+            depth++;
+        } else if (character == '}') {
+            depth--;
+        }
+    }
+
+    return !inString && depth > 0;
+}
+
 TunnelProxyClient::TunnelProxyClient(TransportInterface *interface, const QUuid &clientId, const QHostAddress &address, QObject *parent) :
     TransportClient(interface, clientId, address, parent)
 {
@@ -99,7 +125,7 @@ QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
             m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
             splitIndex = m_dataBuffer.indexOf("}\n{");
         }
-        if (m_dataBuffer.endsWith("}\n") || m_dataBuffer.endsWith("}")) {
+        if ((m_dataBuffer.endsWith("}\n") || m_dataBuffer.endsWith("}")) && !hasOpenJsonObject(m_dataBuffer)) {
             packets.append(m_dataBuffer);
             m_dataBuffer.clear();
         }
-- 
2.43.0


From 321c41677d6834430a480b715aba84621dc99141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:54 +0000
Subject: [PATCH 06/23] fix: give every request of the client library its own
 id

---
 libnymea-remoteproxyclient/jsonreply.cpp          |  1 -
 libnymea-remoteproxyclient/proxyjsonrpcclient.cpp | 10 +++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/libnymea-remoteproxyclient/jsonreply.cpp b/libnymea-remoteproxyclient/jsonreply.cpp
index 34dbddd..956b8a3 100644
--- a/libnymea-remoteproxyclient/jsonreply.cpp
+++ b/libnymea-remoteproxyclient/jsonreply.cpp
@@ -67,7 +67,6 @@ QVariantMap JsonReply::requestMap()
     if (!m_params.isEmpty())
         request.insert("params", params());
 
-    m_commandId++;
     return request;
 }
 
diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index 84ec7f8..8ed1923 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -48,7 +48,7 @@ JsonReply *JsonRpcClient::callHello()
     JsonReply *reply = new JsonReply(m_commandId, "RemoteProxy", "Hello", QVariantMap(), this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -61,7 +61,7 @@ JsonReply *JsonRpcClient::callRegisterServer(const QUuid &serverUuid, const QStr
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "RegisterServer", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -75,7 +75,7 @@ JsonReply *JsonRpcClient::callRegisterClient(const QUuid &clientUuid, const QStr
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "RegisterClient", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -87,7 +87,7 @@ JsonReply *JsonRpcClient::callDisconnectClient(quint16 socketAddress)
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "DisconnectClient", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap(), true);
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -99,7 +99,7 @@ JsonReply *JsonRpcClient::callPing(uint timestamp)
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "Ping", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap(), true);
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
-- 
2.43.0


From 0d971a9bcbd21b7631449d12a78b1168244e8d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:54 +0000
Subject: [PATCH 07/23] fix: do not take a notification for the response to a
 request

---
 .../proxyjsonrpcclient.cpp                    | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index 8ed1923..bc61aa1 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -131,22 +131,6 @@ void JsonRpcClient::processDataPacket(const QByteArray &data)
 
     qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << "Data received" << qUtf8Printable(data);
 
-    // check if this is a reply to a request
-    int commandId = dataMap.value("id").toInt();
-    JsonReply *reply = m_replies.take(commandId);
-    if (reply) {
-        qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << QString("Got response for %1.%2: %3").arg(reply->nameSpace(), reply->method(), QString::fromUtf8(jsonDoc.toJson(QJsonDocument::Indented)));
-
-        if (dataMap.value("status").toString() == "error") {
-            qCWarning(dcRemoteProxyClientJsonRpc()) << "Api error happend" << dataMap.value("error").toString();
-            // FIMXME: handle json layer errors
-        }
-
-        reply->setResponse(dataMap);
-        emit reply->finished();
-        return;
-    }
-
     // check if this is a notification
     if (dataMap.contains("notification")) {
         QStringList notification = dataMap.value("notification").toString().split(".");
@@ -170,6 +154,22 @@ void JsonRpcClient::processDataPacket(const QByteArray &data)
             quint16 socketAddress = static_cast<quint16>(notificationParams.value("socketAddress").toUInt());
             emit tunnelProxyClientDisonnected(socketAddress);
         }
+        return;
+    }
+
+    // check if this is a reply to a request
+    int commandId = dataMap.value("id").toInt();
+    JsonReply *reply = m_replies.take(commandId);
+    if (reply) {
+        qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << QString("Got response for %1.%2: %3").arg(reply->nameSpace(), reply->method(), QString::fromUtf8(jsonDoc.toJson(QJsonDocument::Indented)));
+
+        if (dataMap.value("status").toString() == "error") {
+            qCWarning(dcRemoteProxyClientJsonRpc()) << "Api error happend" << dataMap.value("error").toString();
+            // FIMXME: handle json layer errors
+        }
+
+        reply->setResponse(dataMap);
+        emit reply->finished();
     }
 }
 
-- 
2.43.0


From 9dac8e8134581aeb4f33c006514ecd0fe645c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:54 +0000
Subject: [PATCH 08/23] fix: reassemble fragmented messages of the proxy at
 their end of line

---
 .../proxyjsonrpcclient.cpp                      | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index bc61aa1..23ee19a 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -177,17 +177,16 @@ void JsonRpcClient::processData(const QByteArray &data)
 {
     qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << "Received data:" << data;
 
-    // Handle packet fragmentation
+    // Handle packet fragmentation, the messages are compact and each of them ends with a new line
     m_dataBuffer.append(data);
-    int splitIndex = m_dataBuffer.indexOf("}\n{");
+    int splitIndex = m_dataBuffer.indexOf('\n');
     while (splitIndex > -1) {
-        processDataPacket(m_dataBuffer.left(splitIndex + 1));
-        m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
-        splitIndex = m_dataBuffer.indexOf("}\n{");
-    }
-    if (m_dataBuffer.endsWith("}\n") || m_dataBuffer.endsWith("}")) {
-        processDataPacket(m_dataBuffer);
-        m_dataBuffer.clear();
+        QByteArray packet = m_dataBuffer.left(splitIndex);
+        m_dataBuffer.remove(0, splitIndex + 1);
+        if (!packet.trimmed().isEmpty())
+            processDataPacket(packet);
+
+        splitIndex = m_dataBuffer.indexOf('\n');
     }
 }
 
-- 
2.43.0


From 7c66ccbc6beccd37594e1dc24e8a4249ef078fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:54 +0000
Subject: [PATCH 09/23] fix: do not lose data received together with the
 registration response

---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp    | 14 ++++++++++----
 .../tunnelproxy/tunnelproxysocketserver.cpp        | 13 +++++++++----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index 43274af..ed31487 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -176,12 +176,18 @@ void TunnelProxyRemoteConnection::onConnectionChanged(bool connected)
 
 void TunnelProxyRemoteConnection::onConnectionDataAvailable(const QByteArray &data)
 {
-    if (m_state != StateRemoteConnected) {
-        m_jsonClient->processData(data);
-        return;
+    // Until the client has been registered there are only JSON messages, each on its own line.
+    // Anything following the registration response is already tunnel data.
+    int position = 0;
+    while (m_state != StateRemoteConnected && m_jsonClient && position < data.length()) {
+        int lineEnd = data.indexOf('\n', position);
+        int length = (lineEnd < 0 ? data.length() : lineEnd + 1) - position;
+        m_jsonClient->processData(data.mid(position, length));
+        position += length;
     }
 
-    emit dataReady(data);
+    if (m_state == StateRemoteConnected && position < data.length())
+        emit dataReady(data.mid(position));
 }
 
 void TunnelProxyRemoteConnection::onConnectionSocketError(QAbstractSocket::SocketError error)
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 8cda6e7..ae5c223 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -192,14 +192,19 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
     // We recived data, let's reset the keep alive timer
     m_keepAliveTimer.start();
 
-    if (m_state != StateRunning) {
-        m_jsonClient->processData(data);
+    // Until the server has been registered there are only JSON messages, each on its own line.
+    // Anything following the registration response is already SLIP encoded.
+    int position = 0;
+    while (m_state != StateRunning && m_jsonClient && position < data.length()) {
+        int lineEnd = data.indexOf('\n', position);
+        int length = (lineEnd < 0 ? data.length() : lineEnd + 1) - position;
+        m_jsonClient->processData(data.mid(position, length));
         m_dataBuffer.clear();
-        return;
+        position += length;
     }
 
     // Parse SLIP frame
-    for (int i = 0; i < data.length(); i++) {
+    for (int i = position; i < data.length(); i++) {
         quint8 byte = static_cast<quint8>(data.at(i));
         if (byte == SlipDataProcessor::ProtocolByteEnd) {
             // If there is no data...continue since it might be a starting END byte
-- 
2.43.0


From 019d5c6a8ca24d18d96694fbb164e0323e7b9330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:54 +0000
Subject: [PATCH 10/23] fix: do not let the end of an old connection break the
 new one

---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp              | 3 ++-
 .../tunnelproxy/tunnelproxysocketserver.cpp                  | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index ed31487..530520f 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -169,7 +169,6 @@ void TunnelProxyRemoteConnection::onConnectionChanged(bool connected)
         connect(reply, &JsonReply::finished, this, &TunnelProxyRemoteConnection::onHelloFinished);
     } else {
         qCDebug(dcTunnelProxyRemoteConnection()) << "Disconnected from remote proxy server.";
-        setState(StateDisconnected);
         cleanUp();
     }
 }
@@ -307,6 +306,8 @@ void TunnelProxyRemoteConnection::cleanUp()
     }
 
     if (m_connection) {
+        // This connection must not influence the following one any more
+        disconnect(m_connection, nullptr, this, nullptr);
         m_connection->deleteLater();
         m_connection = nullptr;
     }
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index ae5c223..c2779ae 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -179,9 +179,8 @@ void TunnelProxySocketServer::onConnectionChanged(bool connected)
         connect(reply, &JsonReply::finished, this, &TunnelProxySocketServer::onHelloFinished);
     } else {
         qCDebug(dcTunnelProxySocketServer()) << "Disconnected from remote proxy server.";
-        setState(StateDisconnected);
-        setServerError(ErrorNotConnected);
         cleanUp();
+        setServerError(ErrorNotConnected);
     }
 }
 
@@ -462,6 +461,8 @@ void TunnelProxySocketServer::cleanUp()
     }
 
     if (m_connection) {
+        // This connection must not influence the following one any more
+        disconnect(m_connection, nullptr, this, nullptr);
         m_connection->deleteLater();
         m_connection = nullptr;
     }
-- 
2.43.0


From 0bdfa633bf9cba6f63674c247f0893aa403df7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:50 +0000
Subject: [PATCH 11/23] fix: do not use the RPC client of a tunnel server
 connection which has ended

---
 .../tunnelproxy/tunnelproxysocketserver.cpp              | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index c2779ae..8bc5ab6 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -217,7 +217,9 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
                 SlipDataProcessor::Frame frame = SlipDataProcessor::parseFrame(frameData);
                 qCDebug(dcTunnelProxySocketServerTraffic()) << "Frame received" << frame.socketAddress << qUtf8Printable(frame.data);
                 if (frame.socketAddress == 0x0000) {
-                    m_jsonClient->processData(frame.data);
+                    // The server might have been stopped while handling the previous frame
+                    if (m_jsonClient)
+                        m_jsonClient->processData(frame.data);
                 } else {
                     // Find the socket and emit the data received signal
                     TunnelProxySocket *tunnlProxySocket = m_tunnelProxySockets.value(frame.socketAddress);
@@ -348,6 +350,11 @@ void TunnelProxySocketServer::onTunnelProxyClientDisconnected(quint16 socketAddr
 void TunnelProxySocketServer::requestSocketDisconnect(quint16 socketAddress)
 {
     TunnelProxySocket *socket = m_tunnelProxySockets.value(socketAddress);
+    if (!socket || !m_jsonClient) {
+        qCWarning(dcTunnelProxySocketServer()) << "The socket with address" << socketAddress << "is not connected any more. Ignoring the request to disconnect it.";
+        return;
+    }
+
     qCDebug(dcTunnelProxySocketServer()) << "Request to disconnect socket" << socket;
 
     JsonReply *reply = m_jsonClient->callDisconnectClient(socketAddress);
-- 
2.43.0


From 8fe4715fa4ee96c71cf4faf687e63b6f3f4c13dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 12/23] fix: answer monitor requests which are received
 together

---
 libnymea-remoteproxy/server/monitorserver.cpp | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/libnymea-remoteproxy/server/monitorserver.cpp b/libnymea-remoteproxy/server/monitorserver.cpp
index 8f4b003..ca86d2a 100644
--- a/libnymea-remoteproxy/server/monitorserver.cpp
+++ b/libnymea-remoteproxy/server/monitorserver.cpp
@@ -85,13 +85,28 @@ void MonitorServer::onMonitorReadyRead()
     QByteArray data = clientConnection->readAll();
     QJsonParseError error;
     QJsonDocument jsonDoc = QJsonDocument::fromJson(data, &error);
-    if(error.error != QJsonParseError::NoError) {
-        qCWarning(dcMonitorServer()) << "Failed to parse JSON data from monitor:" << error.errorString();
-        clientConnection->close();
+    if (error.error == QJsonParseError::NoError) {
+        processRequest(clientConnection, jsonDoc.toVariant().toMap());
         return;
     }
 
-    processRequest(clientConnection, jsonDoc.toVariant().toMap());
+    // Several requests, one per line, may have been received at once
+    foreach (const QByteArray &line, data.split('\n')) {
+        if (line.trimmed().isEmpty())
+            continue;
+
+        jsonDoc = QJsonDocument::fromJson(line, &error);
+        if (error.error != QJsonParseError::NoError) {
+            qCWarning(dcMonitorServer()) << "Failed to parse JSON data from monitor:" << error.errorString();
+            clientConnection->close();
+            return;
+        }
+
+        processRequest(clientConnection, jsonDoc.toVariant().toMap());
+        if (clientConnection->state() != QLocalSocket::ConnectedState) {
+            return;
+        }
+    }
 }
 
 void MonitorServer::processRequest(QLocalSocket *clientConnection, const QVariantMap &request)
-- 
2.43.0


From fb6294229b8fcdcc9c2931ca172296eb5db96ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 13/23] fix: reassemble fragmented monitor data at the end of
 line

---
 monitor/monitorclient.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index c1ec45b..883a1df 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -84,19 +84,16 @@ void MonitorClient::onDisconnected()
 
 void MonitorClient::onReadyRead()
 {
-    // Note: the server sends the data compact with "\n" at the end
-    QByteArray data = m_socket->readAll();
+    // Note: the server sends the data compact with "\n" at the end, the line might be fragmented
+    m_dataBuffer.append(m_socket->readAll());
 
-    int index = data.indexOf("}\n");
-    if (index < 0) {
-        // Append the entire data and continue
-        m_dataBuffer.append(data);
-        return;
-    } else {
-        m_dataBuffer.append(data.left(index + 1));
+    int index = m_dataBuffer.indexOf('\n');
+    while (index >= 0) {
+        QByteArray remainingData = m_dataBuffer.mid(index + 1);
+        m_dataBuffer.truncate(index);
         processBufferData();
-        m_dataBuffer.clear();
-        m_dataBuffer.append(data.right(data.length() - index - 2));
+        m_dataBuffer = remainingData;
+        index = m_dataBuffer.indexOf('\n');
     }
 }
 
-- 
2.43.0


From b7902343aedb7f85f55080edaa2b704c18b6e2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:02 +0000
Subject: [PATCH 14/23] fix: print the traffic of the client on its line of the
 monitor

---
 monitor/noninteractivemonitor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monitor/noninteractivemonitor.cpp b/monitor/noninteractivemonitor.cpp
index f149bc7..cf41d42 100644
--- a/monitor/noninteractivemonitor.cpp
+++ b/monitor/noninteractivemonitor.cpp
@@ -97,8 +97,8 @@ void NonInteractiveMonitor::onConnected()
                         .arg(QDateTime::fromMSecsSinceEpoch(clientMap.value("timestamp").toLongLong() * 1000).toString("dd.MM.yyyy hh:mm:ss"))
                         .arg(clientMap.value("clientUuid").toString())
                         .arg(clientMap.value("address").toString(), - 15)
-                        .arg(Utils::humanReadableTraffic(serverMap.value("rxDataCount").toInt()), - 9)
-                        .arg(Utils::humanReadableTraffic(serverMap.value("txDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toInt()), - 9)
                         .arg(clientMap.value("name").toString(), -30);
 
                 qStdOut() << clientLinePrint << "\n";
-- 
2.43.0


From f3261262848f74b311340e248d66e97b6344eaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:16 +0000
Subject: [PATCH 15/23] fix: read the configuration file as UTF-8

---
 libnymea-remoteproxy/proxyconfiguration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libnymea-remoteproxy/proxyconfiguration.cpp b/libnymea-remoteproxy/proxyconfiguration.cpp
index 015cc63..4ff1698 100644
--- a/libnymea-remoteproxy/proxyconfiguration.cpp
+++ b/libnymea-remoteproxy/proxyconfiguration.cpp
@@ -51,6 +51,9 @@ bool ProxyConfiguration::loadConfiguration(const QString &fileName)
     }
 
     QSettings settings(m_fileName, QSettings::IniFormat);
+#if QT_VERSION < QT_VERSION_CHECK(6, 0, 0)
+    settings.setIniCodec("UTF-8");
+#endif
 
     settings.beginGroup("ProxyServer");
     setServerName(settings.value("name", "nymea-remoteproxy").toString());
-- 
2.43.0


From 5b834004b09163a641bb644b5d8e9f75913a8794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:38 +0000
Subject: [PATCH 16/23] fix: keep pinging the proxy while data is received

The keep alive timer was restarted whenever data arrived, but the proxy
only counts what it hears from the tunnel server. A tunnel server whose
clients keep sending without getting an answer never pinged and was
disconnected by the proxy after 60 seconds.
---
 .../tunnelproxy/tunnelproxysocketserver.cpp                    | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 8bc5ab6..21afbb8 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -188,9 +188,6 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
 {
     qCDebug(dcTunnelProxySocketServerTraffic()) << "Data received" << qUtf8Printable(data);
 
-    // We recived data, let's reset the keep alive timer
-    m_keepAliveTimer.start();
-
     // Until the server has been registered there are only JSON messages, each on its own line.
     // Anything following the registration response is already SLIP encoded.
     int position = 0;
-- 
2.43.0


From d890e25f5babd4b2e7f72a6873e6f403463333d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:15 +0000
Subject: [PATCH 17/23] fix: print the JSON of the monitor with its encoding

---
 monitor/monitorclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index 883a1df..7340f87 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -60,7 +60,7 @@ void MonitorClient::processBufferData()
     }
 
     if (m_jsonMode) {
-        qStdOut() << qUtf8Printable(jsonDoc.toJson(QJsonDocument::Indented)) << "\n";
+        qStdOut() << QString::fromUtf8(jsonDoc.toJson(QJsonDocument::Indented)) << "\n";
         QTextStream out(stdout);
         out.flush();
         exit(EXIT_FAILURE);
-- 
2.43.0


From bf45cf1fff877551f614cabbb135e65cfdf9d8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:39 +0000
Subject: [PATCH 18/23] fix: take the proxy down from the event loop, not
 within the signal handler

---
 server/remoteproxyserverapplication.cpp | 29 ++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/server/remoteproxyserverapplication.cpp b/server/remoteproxyserverapplication.cpp
index 2370cb5..10249bb 100644
--- a/server/remoteproxyserverapplication.cpp
+++ b/server/remoteproxyserverapplication.cpp
@@ -26,6 +26,8 @@
 #include "loggingcategories.h"
 #include "engine.h"
 
+#include <errno.h>
+#include <fcntl.h>
 #include <signal.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -36,9 +38,30 @@
 
 using namespace remoteproxy;
 
+static int s_signalPipe[2] = { -1, -1 };
+
+// A signal interrupts the process anywhere, only the event loop may take the engine down.
+static void forwardSignal(int sig)
+{
+    int savedErrno = errno;
+    char signalNumber = static_cast<char>(sig);
+    if (write(s_signalPipe[1], &signalNumber, 1) < 0) {
+        // The pipe is full, so the shutdown has been requested already
+    }
+    errno = savedErrno;
+}
+
 static void catchUnixSignals(const std::vector<int>& quitSignals, const std::vector<int>& ignoreSignals = std::vector<int>())
 {
-    auto handler = [](int sig) ->void {
+    if (pipe2(s_signalPipe, O_CLOEXEC | O_NONBLOCK) != 0)
+        qFatal("Could not create the pipe for the unix signals.");
+
+    QSocketNotifier *notifier = new QSocketNotifier(s_signalPipe[0], QSocketNotifier::Read, QCoreApplication::instance());
+    QObject::connect(notifier, &QSocketNotifier::activated, notifier, []() {
+        char sig = 0;
+        if (read(s_signalPipe[0], &sig, 1) != 1)
+            return;
+
         switch (sig) {
         case SIGQUIT:
             qCDebug(dcApplication()) << "Cought SIGQUIT quit signal...";
@@ -62,14 +85,14 @@ static void catchUnixSignals(const std::vector<int>& quitSignals, const std::vec
 
         Engine::instance()->destroy();
         RemoteProxyServerApplication::quit();
-    };
+    });
 
     // all these signals will be ignored.
     for (int sig : ignoreSignals)
         signal(sig, SIG_IGN);
 
     for (int sig : quitSignals)
-        signal(sig, handler);
+        signal(sig, forwardSignal);
 }
 
 RemoteProxyServerApplication::RemoteProxyServerApplication(int &argc, char **argv) :
-- 
2.43.0


From 2ab6be80f06a85f690aa95fbeda557d39c835c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:43 +0000
Subject: [PATCH 19/23] fix: registering after the connection has ended
 dereferenced a null client in the log output

---
 libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
index 22737aa..173c75a 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
@@ -83,8 +83,6 @@ void TunnelProxyServer::registerTransportInterface(TransportInterface *interface
 
 TunnelProxyServer::TunnelProxyError TunnelProxyServer::registerServer(const QUuid &clientId, const QUuid &serverUuid, const QString &serverName)
 {
-    qCDebug(dcTunnelProxyServer()) << "Register new server" << m_proxyClients.value(clientId) << serverName << serverUuid.toString();
-
     // Make sure we have a proxy client for this id
     TunnelProxyClient *tunnelProxyClient = m_proxyClients.value(clientId);
     if (!tunnelProxyClient) {
@@ -92,6 +90,8 @@ TunnelProxyServer::TunnelProxyError TunnelProxyServer::registerServer(const QUui
         return TunnelProxyServer::TunnelProxyErrorInternalServerError;
     }
 
+    qCDebug(dcTunnelProxyServer()) << "Register new server" << tunnelProxyClient << serverName << serverUuid.toString();
+
     // Make sure this client has not been registered as client or re-registration has been called...
     if (tunnelProxyClient->type() != TunnelProxyClient::TypeNone) {
         qCWarning(dcTunnelProxyServer()) << "Client tried to register as server but has already been registerd as" << tunnelProxyClient->type();
-- 
2.43.0


From 7c7fa01713e0bd5ba9de7c437658a6c877125faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:59 +0000
Subject: [PATCH 20/23] fix: the library's plain TCP connection only accepted
 addresses, not host names

---
 libnymea-remoteproxyclient/tcpsocketconnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/tcpsocketconnection.cpp b/libnymea-remoteproxyclient/tcpsocketconnection.cpp
index 4107a5e..4e34edf 100644
--- a/libnymea-remoteproxyclient/tcpsocketconnection.cpp
+++ b/libnymea-remoteproxyclient/tcpsocketconnection.cpp
@@ -123,7 +123,7 @@ void TcpSocketConnection::connectServer(const QUrl &serverUrl)
 
     if (m_serverUrl.scheme() == "tcp") {
         qCDebug(dcRemoteProxyClientTcpSocket()) << "Connecting to" << m_serverUrl.toString();
-        m_tcpSocket->connectToHost(QHostAddress(m_serverUrl.host()), static_cast<quint16>(m_serverUrl.port()));
+        m_tcpSocket->connectToHost(m_serverUrl.host(), static_cast<quint16>(m_serverUrl.port()));
     } else {
         m_ssl = true;
         qCDebug(dcRemoteProxyClientTcpSocket()) << "Connecting encrypted to" << m_serverUrl.host() + ":" + QString::number(m_serverUrl.port());
-- 
2.43.0


From 12c9815345dd378eb6d2bbe08ad84208a4680fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:57 +0000
Subject: [PATCH 21/23] fix: clients with pending data stayed registered when
 the unix socket server stopped

---
 libnymea-remoteproxy/server/unixsocketserver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libnymea-remoteproxy/server/unixsocketserver.cpp b/libnymea-remoteproxy/server/unixsocketserver.cpp
index 7eb959a..233fd4a 100644
--- a/libnymea-remoteproxy/server/unixsocketserver.cpp
+++ b/libnymea-remoteproxy/server/unixsocketserver.cpp
@@ -118,6 +118,11 @@ bool UnixSocketServer::stopServer()
     qCDebug(dcUnixSocketServer()) << "Stopping server" << m_socketFileName;
     foreach (QLocalSocket *clientConnection, m_clientList) {
         clientConnection->close();
+
+        // Do not wait for a client which does not read the pending data, the socket will be deleted with the server
+        if (clientConnection->state() != QLocalSocket::UnconnectedState) {
+            clientConnection->abort();
+        }
     }
 
     m_server->close();
-- 
2.43.0


From 37217ccde47dffe2ad0d7cb232366e3e4641da2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:57 +0000
Subject: [PATCH 22/23] fix: a peer which does not read its pending data could
 not be disconnected any more

---
 libnymea-remoteproxy/server/tcpsocketserver.cpp  | 10 ++++++++++
 libnymea-remoteproxy/server/unixsocketserver.cpp | 10 ++++++++++
 libnymea-remoteproxy/server/websocketserver.cpp  | 10 ++++++++++
 3 files changed, 30 insertions(+)

diff --git a/libnymea-remoteproxy/server/tcpsocketserver.cpp b/libnymea-remoteproxy/server/tcpsocketserver.cpp
index b130586..741c6d5 100644
--- a/libnymea-remoteproxy/server/tcpsocketserver.cpp
+++ b/libnymea-remoteproxy/server/tcpsocketserver.cpp
@@ -68,6 +68,16 @@ void TcpSocketServer::killClientConnection(const QUuid &clientId, const QString
     qCDebug(dcTcpSocketServer()) << "Killing client connection" << clientId.toString() << "Reason:" << killReason;
     client->flush();
     client->close();
+
+    // The pending data will still be sent, but a client which does not read them any more must not keep the connection open
+    if (client->state() != QAbstractSocket::UnconnectedState) {
+        QTimer *closingTimer = new QTimer(client);
+        closingTimer->setSingleShot(true);
+        connect(closingTimer, &QTimer::timeout, client, &QSslSocket::abort);
+        connect(client, &QSslSocket::bytesWritten, closingTimer, [closingTimer](){ closingTimer->start(); });
+        connect(client, &QSslSocket::encryptedBytesWritten, closingTimer, [closingTimer](){ closingTimer->start(); });
+        closingTimer->start(10000);
+    }
 }
 
 uint TcpSocketServer::connectionsCount() const
diff --git a/libnymea-remoteproxy/server/unixsocketserver.cpp b/libnymea-remoteproxy/server/unixsocketserver.cpp
index 233fd4a..bdc3c71 100644
--- a/libnymea-remoteproxy/server/unixsocketserver.cpp
+++ b/libnymea-remoteproxy/server/unixsocketserver.cpp
@@ -28,6 +28,7 @@
 #include "unixsocketserver.h"
 
 #include <QFile>
+#include <QTimer>
 
 #include "loggingcategories.h"
 
@@ -70,6 +71,15 @@ void UnixSocketServer::killClientConnection(const QUuid &clientId, const QString
     if (client->state() == QLocalSocket::ConnectedState) {
         qCWarning(dcUnixSocketServer()) << "Killing client connection" << clientId.toString() << "Reason:" << killReason;
         client->close();
+
+        // The pending data will still be sent, but a client which does not read them any more must not keep the connection open
+        if (client->state() != QLocalSocket::UnconnectedState) {
+            QTimer *closingTimer = new QTimer(client);
+            closingTimer->setSingleShot(true);
+            connect(closingTimer, &QTimer::timeout, client, &QLocalSocket::abort);
+            connect(client, &QLocalSocket::bytesWritten, closingTimer, [closingTimer](){ closingTimer->start(); });
+            closingTimer->start(10000);
+        }
     }
 }
 
diff --git a/libnymea-remoteproxy/server/websocketserver.cpp b/libnymea-remoteproxy/server/websocketserver.cpp
index c7eefa5..bbbb44a 100644
--- a/libnymea-remoteproxy/server/websocketserver.cpp
+++ b/libnymea-remoteproxy/server/websocketserver.cpp
@@ -28,6 +28,7 @@
 #include "websocketserver.h"
 #include "loggingcategories.h"
 
+#include <QTimer>
 #include <QCoreApplication>
 
 namespace remoteproxy {
@@ -79,6 +80,15 @@ void WebSocketServer::killClientConnection(const QUuid &clientId, const QString
     qCWarning(dcWebSocketServer()) << "Killing client connection" << clientId.toString() << "Reason:" << killReason;
     client->flush();
     client->close(QWebSocketProtocol::CloseCodeBadOperation, killReason);
+
+    // The pending data will still be sent, but a client which does not read them any more must not keep the connection open
+    if (client->state() != QAbstractSocket::UnconnectedState) {
+        QTimer *closingTimer = new QTimer(client);
+        closingTimer->setSingleShot(true);
+        connect(closingTimer, &QTimer::timeout, client, &QWebSocket::abort);
+        connect(client, &QWebSocket::bytesWritten, closingTimer, [closingTimer](){ closingTimer->start(); });
+        closingTimer->start(10000);
+    }
 }
 
 uint WebSocketServer::connectionsCount() const
-- 
2.43.0


From 2ea30603e71094e51e9f12535d97f487aae73734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:18 +0000
Subject: [PATCH 23/23] fix: the sockets of ended unix connections were never
 deleted

---
 libnymea-remoteproxy/server/unixsocketserver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libnymea-remoteproxy/server/unixsocketserver.cpp b/libnymea-remoteproxy/server/unixsocketserver.cpp
index bdc3c71..10a8c1a 100644
--- a/libnymea-remoteproxy/server/unixsocketserver.cpp
+++ b/libnymea-remoteproxy/server/unixsocketserver.cpp
@@ -155,6 +155,8 @@ void UnixSocketServer::onClientConnected()
         if (m_clientList.take(clientId)) {
             emit clientDisconnected(clientId);
         }
+
+        client->deleteLater();
     });
     connect(client, &QLocalSocket::readyRead, this, [this, client, clientId](){
         QByteArray data = client->readAll();
-- 
2.43.0

