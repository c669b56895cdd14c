From 9a23d47571a96589b25713a1a2d9ab4905ff87f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 01/38] fix: Packet::receive: replace the previous contents and
 rewind when receiving into a used packet

---
 include/frnetlib/Packet.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 67d1db0..2e852ff 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -771,9 +771,9 @@ namespace fr
             if(socket->get_max_receive_size() && packet_length > socket->get_max_receive_size())
                 return fr::Socket::Status::MaxPacketSizeExceeded;
 
-            //Now we've got the length, read the rest of the data in
-            if(packet_length + PACKET_HEADER_LENGTH > buffer.size())
-                buffer.resize(packet_length + PACKET_HEADER_LENGTH);
+            //Now we've got the length, read the rest of the data in. Anything left over from a previous packet is replaced
+            buffer.resize(packet_length + PACKET_HEADER_LENGTH);
+            buffer_read_index = PACKET_HEADER_LENGTH;
 
             do
             {
-- 
2.43.0


From 06baffe635ab0780bf39d0aa2ed0a10c821e38b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 02/38] fix: HTTP parsing: end the header at the first empty
 line, whichever line ending it uses

---
 src/HttpRequest.cpp  | 5 +++--
 src/HttpResponse.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 696df9c..9c8b766 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -28,9 +28,10 @@ namespace fr
             //Check to see if this request data contains the end of the header
             uint16_t header_end_size = 4;
             auto header_end = body.find("\r\n\r\n");
-            if(header_end == std::string::npos)
+            auto short_header_end = body.find("\n\n");
+            if(short_header_end < header_end) //Whichever comes first, the other one might be a part of the body
             {
-                header_end = body.find("\n\n");
+                header_end = short_header_end;
                 header_end_size = 2;
             }
             header_ended = header_end != std::string::npos;
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index cda31b6..cccbba9 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -21,9 +21,10 @@ namespace fr
             //Check to see if this request data contains the end of the header
             uint16_t header_end_size = 4;
             auto header_end = body.find("\r\n\r\n");
-            if(header_end == std::string::npos)
+            auto short_header_end = body.find("\n\n");
+            if(short_header_end < header_end) //Whichever comes first, the other one might be a part of the body
             {
-                header_end = body.find("\n\n");
+                header_end = short_header_end;
                 header_end_size = 2;
             }
             header_ended = header_end != std::string::npos;
-- 
2.43.0


From a67e8d13e0e5afaf891caf15baa35437aafbeb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 03/38] fix: HttpRequest::parse: the body ends at its content
 length, also when more data follows

---
 src/HttpRequest.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 9c8b766..a62cee0 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -54,6 +54,10 @@ namespace fr
             body.erase(0, header_end + header_end_size);
         }
 
+        //Cut off any data if it exceeds content length, provided that a content length is specified
+        if(header_data.find("content-length") != header_data.end() && body.size() > content_length)
+            body.resize(content_length);
+
         //Ensure that body doesn't exceed maximum length
         if(body.size() > MAX_HTTP_BODY_SIZE)
         {
-- 
2.43.0


From 28e23bb4285bc327dde0508f7c3a8ed1f41eb97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 04/38] fix: HttpResponse::parse: a chunked body ends at the
 last chunk, also when more data follows

---
 src/HttpResponse.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index cccbba9..f84516b 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -74,9 +74,12 @@ namespace fr
                 chunk_offset += chunk_len;
             }
 
-            //If this chunk is 0, we have everything!
+            //If this chunk is 0, we have everything! Anything behind it isn't a part of the body
             if(chunk_len == 0)
+            {
+                body.resize(chunk_offset);
                 return fr::Socket::Status::Success;
+            }
             return fr::Socket::Status::NotEnoughData;
         }
 
-- 
2.43.0


From f24a084690b4cf91b261cc19356c18f52711523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 05/38] fix: HttpRequest::construct: declare the length of a
 body that only holds form arguments

---
 src/HttpRequest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index a62cee0..f915f14 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -139,7 +139,7 @@ namespace fr
         for(auto iter = post_data.begin(); iter != post_data.end();)
         {
             post_string += iter->first + "=" + iter->second;
-            if(++iter != get_data.end())
+            if(++iter != post_data.end())
                 post_string += "&";
         }
         if(!post_string.empty())
@@ -152,7 +152,7 @@ namespace fr
             request += "Connection: keep-alive\r\n";
         if(header_data.find("host") == header_data.end())
             request += "Host: " + host + "\r\n";
-        if(!body.empty())
+        if(!body.empty() || !post_string.empty())
             request += "Content-Length: " + std::to_string(body.size() + post_string.size()) + "\r\n";
 
         //Add in space
-- 
2.43.0


From 27aa4735eca9691e53845b26df9e00799f20f6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 06/38] fix: HttpResponse::parse: cut the body at a content
 length of zero too, and before judging its size

---
 src/HttpResponse.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index f84516b..64b61e3 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -47,12 +47,17 @@ namespace fr
             body.erase(0, header_end + header_end_size);
         }
 
+        //Cut off any data if it exceeds content length, provided that a content length is specified
+        const bool chunked = transfer_encodings.find(TransferEncoding::Chunked) != transfer_encodings.end();
+        if(!chunked && header_data.find("content-length") != header_data.end() && body.size() > content_length)
+            body.resize(content_length);
+
         //Ensure that body doesn't exceed maximum length
         if(body.size() > MAX_HTTP_BODY_SIZE)
             return fr::Socket::Status::HttpBodyTooBig;
 
         //Check if chunked encoding
-        if(transfer_encodings.find(TransferEncoding::Chunked) != transfer_encodings.end())
+        if(chunked)
         {
             //It's chunked, find the length of the chunk in hex!
             unsigned int chunk_len = 1;
@@ -83,10 +88,7 @@ namespace fr
             return fr::Socket::Status::NotEnoughData;
         }
 
-        //Cut off any data if it exceeds content length, provided that a content length is specified
-        if(content_length > 0 && body.size() > content_length)
-            body.resize(content_length);
-        else if(body.size() < content_length)
+        if(body.size() < content_length)
             return fr::Socket::Status::NotEnoughData;
         return fr::Socket::Status::Success;
 
-- 
2.43.0


From 15637d7c27b1169aed6cb65c7a70ff1e3f336242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 07/38] fix: HttpResponse::parse: refuse chunk lengths which
 are malformed or larger than a body may be

---
 src/HttpResponse.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index 64b61e3..2710450 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -60,14 +60,25 @@ namespace fr
         if(chunked)
         {
             //It's chunked, find the length of the chunk in hex!
-            unsigned int chunk_len = 1;
+            size_t chunk_len = 1;
             while(chunk_len > 0 && chunk_offset < body.size())
             {
                 auto length_end = body.find("\r\n", chunk_offset);
                 if(length_end == std::string::npos)
                     return fr::Socket::Status::NotEnoughData;
                 std::string hex_length = body.substr(chunk_offset, length_end - chunk_offset);
-                chunk_len = std::stoul(hex_length, nullptr, 16);
+                try
+                {
+                    chunk_len = std::stoull(hex_length, nullptr, 16);
+                }
+                catch(const std::exception &e)
+                {
+                    return fr::Socket::Status::ParseError;
+                }
+
+                //Refuse a chunk which could never fit, rather than waiting for it
+                if(chunk_len > MAX_HTTP_BODY_SIZE)
+                    return fr::Socket::Status::HttpBodyTooBig;
 
                 //If the current chunk hasn't fully been received yet then ask for more data
                 if(body.size() - length_end < chunk_len + 4) //+4 because of the \r\n after the hex value and the chunk end
-- 
2.43.0


From 35164ab9c841f3c45940e8cf1c108684dc2fd0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:28 +0000
Subject: [PATCH 08/38] fix: WebSocket::connect: don't stay connected when the
 handshake can't be exchanged

---
 include/frnetlib/WebSocket.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 20f8187..dbab1ed 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -59,13 +59,19 @@ namespace fr
 
             status = SocketType::send(request);
             if(status != Socket::Status::Success)
+            {
+                SocketType::close_socket();
                 return status;
+            }
 
             //Receive the response
             HttpResponse response;
             status = SocketType::receive(response);
             if(status != Socket::Status::Success)
+            {
+                SocketType::close_socket();
                 return status;
+            }
             if(response.get_status() != Http::RequestStatus::SwitchingProtocols)
             {
                 disconnect();
-- 
2.43.0


From 707f9c418af647c1534d2feed5c1677131881f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 09/38] fix: WebSocket: don't take in frames which directly
 follow the handshake message

---
 include/frnetlib/WebSocket.h | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index dbab1ed..13b3d22 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -66,7 +66,7 @@ namespace fr
 
             //Receive the response
             HttpResponse response;
-            status = SocketType::receive(response);
+            status = receive_handshake(response);
             if(status != Socket::Status::Success)
             {
                 SocketType::close_socket();
@@ -133,7 +133,7 @@ namespace fr
 
             //Initialise connection, receive the handshake
             HttpRequest request;
-            if(SocketType::receive(request) != Socket::Status::Success)
+            if(receive_handshake(request) != Socket::Status::Success)
                 throw std::runtime_error("Failed to receive WebSock handshake");
 
             if(request.header("Upgrade") != "websocket" || request.get_type() != Http::RequestType::Get)
@@ -148,6 +148,38 @@ namespace fr
             response.header("Sec-WebSocket-Accept") = derived_key;
             SocketType::send(response);
         }
+
+    private:
+        /*!
+         * Receives a handshake message without taking in anything which
+         * follows it, as that would be the beginning of the first frame.
+         *
+         * @param message The message to receive into
+         * @return The status, as returned by Socket::receive()
+         */
+        Socket::Status receive_handshake(Http &message)
+        {
+            Socket::Status status = Socket::Status::NotEnoughData;
+            bool begun = false;
+            while(status == Socket::Status::NotEnoughData)
+            {
+                char c = 0;
+                size_t received = 0;
+                Socket::Status received_status = SocketType::receive_raw(&c, sizeof(c), received);
+                if(received_status != Socket::Status::Success)
+                {
+                    if(!begun)
+                        return received_status;
+                    if(received_status == Socket::Status::WouldBlock)
+                        continue;
+                    return Socket::Status::Disconnected;
+                }
+
+                begun = true;
+                status = message.parse(&c, received);
+            }
+            return status;
+        }
     };
 }
 
-- 
2.43.0


From 9baf4fa44aff6a67e9bc5e838ef6d3dd74b30ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 10/38] fix: TcpSocket::connect: close the sockets of failed
 attempts and of a previous connection, start out blocking

---
 src/TcpSocket.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index f37abda..a8cdd02 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -123,6 +123,9 @@ namespace fr
         hints.ai_socktype = SOCK_STREAM; //TCP
         hints.ai_flags = AI_PASSIVE; //Have the IP filled in for us
 
+        //A previous connection is replaced
+        close_socket();
+
         //Query remote address information
         if((ret = getaddrinfo(address.c_str(), port.c_str(), &hints, &info)) != 0)
         {
@@ -134,6 +137,9 @@ namespace fr
         addrinfo *c;
         for(c = info; c != nullptr; c = c->ai_next)
         {
+            //Drop the socket of the entry before this one
+            close_socket();
+
             //Get the socket for this entry
             socket_descriptor = ::socket(c->ai_family, c->ai_socktype, c->ai_protocol);
             if(socket_descriptor == INVALID_SOCKET)
@@ -183,11 +189,18 @@ namespace fr
         //We're done with this now, cleanup
         freeaddrinfo(info);
         if(c == nullptr)
+        {
+            close_socket();
             return Socket::Status::NoRouteToHost;
+        }
 
         //Turn back to blocking mode
         if(!set_unix_socket_blocking(socket_descriptor, false, true))
+        {
+            close_socket();
             return Socket::Status::Error;
+        }
+        is_blocking = true;
 
         //Update state now we've got a valid socket descriptor
         set_remote_address(address + ":" + port);
-- 
2.43.0


From 8ef56df27d7d9996ae178cbb8115fd045167355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 11/38] fix: TcpSocket::connect: keep waiting when interrupted,
 allow descriptors which don't fit in an fd_set

---
 src/TcpSocket.cpp | 50 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index a8cdd02..cea8945 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -2,13 +2,54 @@
 // Created by fred on 06/12/16.
 //
 
+#include <algorithm>
+#include <chrono>
 #include <iostream>
+#ifndef _WIN32
+#include <poll.h>
+#endif
 #include <frnetlib/SocketSelector.h>
 #include <frnetlib/TcpSocket.h>
 #define DEFAULT_SOCKET_TIMEOUT 20
 
 namespace fr
 {
+    /*!
+     * Waits for a connection attempt to conclude, however often the wait is interrupted
+     *
+     * @return True if it concluded. False if it didn't within the timeout, or on failure.
+     */
+    static bool wait_for_connect(int32_t descriptor, std::chrono::seconds timeout)
+    {
+        const auto deadline = std::chrono::steady_clock::now() + std::min<std::chrono::seconds>(timeout, std::chrono::hours(24 * 365));
+        while(true)
+        {
+            auto remaining = std::chrono::duration_cast<std::chrono::milliseconds>(deadline - std::chrono::steady_clock::now() + std::chrono::microseconds(999));
+            auto wait_time = std::max<int64_t>(0, std::min<int64_t>(remaining.count(), 1000 * 60 * 60));
+#ifdef _WIN32
+            timeval tv = {};
+            tv.tv_sec = static_cast<long>(wait_time / 1000);
+            tv.tv_usec = static_cast<long>((wait_time % 1000) * 1000);
+            fd_set set = {};
+            FD_ZERO(&set);
+            FD_SET(descriptor, &set);
+            int ret = select(descriptor + 1, nullptr, &set, nullptr, &tv);
+            bool interrupted = false;
+#else
+            pollfd event = {};
+            event.fd = descriptor;
+            event.events = POLLOUT;
+            int ret = poll(&event, 1, static_cast<int>(wait_time));
+            bool interrupted = ret < 0 && errno == EINTR;
+#endif
+            if(ret > 0)
+                return true;
+            if(ret < 0 && !interrupted)
+                return false;
+            if(std::chrono::steady_clock::now() >= deadline)
+                return false;
+        }
+    }
 
     TcpSocket::TcpSocket() noexcept
     : socket_descriptor(-1),
@@ -166,14 +207,7 @@ namespace fr
             }
 
             //Wait for the socket to do something/expire
-            timeval tv = {};
-            tv.tv_sec = timeout.count() == 0 ? DEFAULT_SOCKET_TIMEOUT : timeout.count();
-            tv.tv_usec = 0;
-            fd_set set = {};
-            FD_ZERO(&set);
-            FD_SET(socket_descriptor, &set);
-            ret = select(socket_descriptor + 1, nullptr, &set, nullptr, &tv);
-            if(ret <= 0)
+            if(!wait_for_connect(socket_descriptor, timeout.count() == 0 ? std::chrono::seconds(DEFAULT_SOCKET_TIMEOUT) : timeout))
                 continue;
 
             //Verify that we're connected
-- 
2.43.0


From 58d738509b5385cf1eb7c42811c8bd8b9eb36af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 12/38] fix: TcpSocket::set_descriptor: close the connection
 being replaced, don't keep its blocking mode

---
 src/TcpSocket.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index cea8945..760352e 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -146,7 +146,20 @@ namespace fr
             socket_descriptor = -1;
             return;
         }
-        socket_descriptor = *static_cast<int32_t*>(descriptor);
+
+        //A previous connection is replaced
+        int32_t new_descriptor = *static_cast<int32_t*>(descriptor);
+        if(new_descriptor != socket_descriptor)
+            close_socket();
+        socket_descriptor = new_descriptor;
+
+        //Find out which mode the new one is in
+        is_blocking = true;
+#ifndef _WIN32
+        int flags = fcntl(socket_descriptor, F_GETFL, 0);
+        if(flags >= 0 && (flags & O_NONBLOCK))
+            is_blocking = false;
+#endif
         reconfigure_socket();
     }
 
-- 
2.43.0


From c28921dced5f76e1c3bb962a9104af112baeabc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 13/38] fix: TcpListener::listen: close each socket that isn't
 listened on, exactly once

---
 src/TcpListener.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/TcpListener.cpp b/src/TcpListener.cpp
index fb0226c..85a20db 100644
--- a/src/TcpListener.cpp
+++ b/src/TcpListener.cpp
@@ -34,6 +34,9 @@ namespace fr
         hints.ai_socktype = SOCK_STREAM; //TCP
         hints.ai_flags = AI_PASSIVE; //Have the IP filled in for us
 
+        //Stop listening on whatever we've been listening on so far
+        close_socket();
+
         if(getaddrinfo(nullptr, port.c_str(), &hints, &info) != 0)
         {
             return Socket::Status::AddressLookupFailure;
@@ -43,6 +46,9 @@ namespace fr
         addrinfo *c = nullptr;
         for(c = info; c != nullptr; c = c->ai_next)
         {
+            //Drop the socket of the entry before this one
+            close_socket();
+
             //Attempt to connect
             if((socket_descriptor = socket(c->ai_family, c->ai_socktype, c->ai_protocol)) == INVALID_SOCKET)
             {
@@ -72,7 +78,6 @@ namespace fr
             //Attempt to bind
             if(bind(socket_descriptor, c->ai_addr, c->ai_addrlen) == SOCKET_ERROR)
             {
-                closesocket(socket_descriptor);
                 continue;
             }
             break;
@@ -84,6 +89,7 @@ namespace fr
         //Check that we've actually bound
         if(c == nullptr)
         {
+            close_socket();
             return Socket::Status::BindFailed;
         }
 
@@ -91,6 +97,7 @@ namespace fr
         //Listen to socket
         if(::listen(socket_descriptor, LISTEN_QUEUE_SIZE) == SOCKET_ERROR)
         {
+            close_socket();
             return Socket::Status::ListenFailed;
         }
         return Socket::Status::Success;
-- 
2.43.0


From 358a8e4d07956667a29009966b38aeef7397d4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 14/38] fix: TcpListener: moving hands over the descriptor
 instead of sharing it

---
 include/frnetlib/TcpListener.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/TcpListener.h b/include/frnetlib/TcpListener.h
index 1e0c29a..0b3a955 100644
--- a/include/frnetlib/TcpListener.h
+++ b/include/frnetlib/TcpListener.h
@@ -19,7 +19,12 @@ public:
     TcpListener();
 
     ~TcpListener() override;
-    TcpListener(TcpListener &&o) = default;
+    TcpListener(TcpListener &&o) noexcept
+    : Listener(std::move(o)),
+      socket_descriptor(o.socket_descriptor)
+    {
+        o.socket_descriptor = -1;
+    }
 
     /*!
      * Listens to the given port for connections
-- 
2.43.0


From 9aac390afa867beb724d7b05b922b8e37abf3d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:10 +0000
Subject: [PATCH 15/38] fix: SocketSelector::remove: allow for sockets which
 have been closed since they were added

---
 src/SocketSelector.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index f32dd84..14368a7 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -83,7 +83,19 @@ namespace fr
             return nullptr;
         }
 
-        if(epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0)
+        //If the socket has been closed since, then its descriptor may have gone to another one that was added: leave that be
+        bool reused = false;
+        if(socket->get_socket_descriptor() != iter->second.descriptor)
+        {
+            for(auto &other : added_sockets)
+            {
+                if(other.first != iter->first && other.second.descriptor == iter->second.descriptor && other.second.socket->get_socket_descriptor() == iter->second.descriptor)
+                    reused = true;
+            }
+        }
+
+        //A closed socket isn't known to epoll any more
+        if(!reused && epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0 && errno != ENOENT && errno != EBADF)
         {
             throw std::runtime_error("Failed to remove socket: " + std::to_string(iter->second.descriptor) + ". Errno: " + std::to_string(errno));
         }
-- 
2.43.0


From 8f3cc99c51b47e5caf5880b64fc351331433607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 16/38] fix: WebFrame::send: use the 16 bit length form for a
 payload of 65535 bytes too

---
 src/WebFrame.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 7abe6c8..bf5e9cb 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -37,14 +37,14 @@ namespace fr
         if(payload.size() <= 125)
             first_2bytes |= payload.size();
         else
-            first_2bytes |= (payload.size() < std::numeric_limits<uint16_t>::max()) ? 126 : 127;
+            first_2bytes |= (payload.size() <= std::numeric_limits<uint16_t>::max()) ? 126 : 127;
         first_2bytes = htons(first_2bytes);
         buffer.append((char*)&first_2bytes, sizeof(first_2bytes));
 
         //Set additional payload bits if large enough
         if(payload.size() > 125)
         {
-            if(payload.size() < std::numeric_limits<uint16_t>::max()) //16bit length
+            if(payload.size() <= std::numeric_limits<uint16_t>::max()) //16bit length
             {
                 auto len = htons(static_cast<uint16_t>(payload.size()));
                 buffer.append((char*)&len, sizeof(len));
-- 
2.43.0


From fe1b2026476fb0a84b4c02e585fe05b6dce46729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 17/38] fix: WebFrame::send: leave the payload of the frame as
 it is when masking

---
 src/WebFrame.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index bf5e9cb..69a804d 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -68,14 +68,19 @@ namespace fr
             mask_union.mask_key = ++current_mask_key;
             buffer.append((char*)&mask_union.mask_key, sizeof(mask_union.mask_key));
 
-            //Encode the payload using the mask key
+            //Encode a copy of the payload using the mask key
+            size_t payload_start = buffer.size();
+            buffer.append(payload);
             for(size_t a = 0; a < payload.size(); ++a)
             {
-                payload[a] = payload[a] ^ mask_union.str_mask_key[a % 4];
+                buffer[payload_start + a] = payload[a] ^ mask_union.str_mask_key[a % 4];
             }
         }
+        else
+        {
+            buffer.append(payload);
+        }
 
-        buffer.append(payload);
         size_t sent = 0;
         fr::Socket::Status state;
         do
-- 
2.43.0


From e2cb62ca3046da384d922f8a7bcb876d80f24c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:12 +0000
Subject: [PATCH 18/38] fix: WebSocket::disconnect: don't mask the close frame
 on the server side

---
 include/frnetlib/WebSocket.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 13b3d22..b4e6cca 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -20,6 +20,7 @@ namespace fr
     {
     public:
         WebSocket()
+        : is_server(false)
         {}
 
         /*!
@@ -36,6 +37,7 @@ namespace fr
         Socket::Status connect(const std::string &address, const std::string &port, const std::string &path,  const std::vector<std::string> &ws_protocols, std::chrono::seconds timeout)
         {
             //Establish a connection using the parent class
+            is_server = false;
             Socket::Status status = SocketType::connect(address, port, timeout);
             if(status != Socket::Status::Success)
                 return status;
@@ -111,7 +113,9 @@ namespace fr
          */
         void disconnect() override
         {
-            ClientWebFrame frame;
+            ClientWebFrame client_frame;
+            ServerWebFrame server_frame;
+            WebFrame &frame = is_server ? static_cast<WebFrame&>(server_frame) : static_cast<WebFrame&>(client_frame);
             frame.set_opcode(WebFrame::Opcode::Disconnect);
             if(SocketType::connected())
                 SocketType::send(frame);
@@ -132,6 +136,7 @@ namespace fr
                 return;
 
             //Initialise connection, receive the handshake
+            is_server = true;
             HttpRequest request;
             if(receive_handshake(request) != Socket::Status::Success)
                 throw std::runtime_error("Failed to receive WebSock handshake");
@@ -180,6 +185,8 @@ namespace fr
             }
             return status;
         }
+
+        bool is_server; //Frames are only masked by clients
     };
 }
 
-- 
2.43.0


From a2cb039bf3b1d432fcfb750f87dfa3877fcb64f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 19/38] fix: WebSocket: don't accept a connection on which the
 handshake couldn't be answered

---
 include/frnetlib/WebSocket.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index b4e6cca..3a30f34 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -151,7 +151,8 @@ namespace fr
             response.header("Upgrade") = "websocket";
             response.header("Connection") = "Upgrade";
             response.header("Sec-WebSocket-Accept") = derived_key;
-            SocketType::send(response);
+            if(SocketType::send(response) != Socket::Status::Success)
+                throw std::runtime_error("Failed to send WebSock handshake");
         }
 
     private:
-- 
2.43.0


From 9ed1f7dabac9dec0a9d89e415803a87de905ce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:15 +0000
Subject: [PATCH 20/38] fix: SocketSelector::wait: allow for timeouts which
 don't fit in an int

---
 src/SocketSelector.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index 14368a7..60dfb71 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -2,6 +2,8 @@
 // Created by fred on 09/12/16.
 //
 
+#include <algorithm>
+#include <limits>
 #include <thread>
 #include <mutex>
 #include "frnetlib/SocketSelector.h"
@@ -56,7 +58,16 @@ namespace fr
     SocketSelector::wait(std::chrono::milliseconds timeout)
     {
         static thread_local epoll_event events[100];
-        int event_count = epoll_wait(epoll_fd, events, 100, timeout.count());
+        int event_count = 0;
+        int64_t remaining = timeout.count();
+        do
+        {
+            //epoll only takes an int
+            int wait_time = static_cast<int>(std::max<int64_t>(-1, std::min<int64_t>(remaining, std::numeric_limits<int>::max())));
+            event_count = epoll_wait(epoll_fd, events, 100, wait_time);
+            remaining -= wait_time;
+        } while(event_count == 0 && remaining > 0);
+
         if(event_count < 0)
         {
             if(errno == EINTR)
-- 
2.43.0


From b7f68f5acffd568fa62a55d779773ecd489d7e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:19 +0000
Subject: [PATCH 21/38] fix: SSLSocket: receive and send timeouts, interrupted
 calls and non-blocking mode as with TcpSocket

---
 include/frnetlib/SSLSocket.h |   1 -
 src/SSLSocket.cpp            | 123 ++++++++++++++++++++---------------
 2 files changed, 72 insertions(+), 52 deletions(-)

diff --git a/include/frnetlib/SSLSocket.h b/include/frnetlib/SSLSocket.h
index 322d205..5452e57 100644
--- a/include/frnetlib/SSLSocket.h
+++ b/include/frnetlib/SSLSocket.h
@@ -146,7 +146,6 @@ namespace fr
         std::unique_ptr<mbedtls_ssl_context, decltype(&mbedtls_ssl_free)> ssl;
         mbedtls_ssl_config conf;
         bool should_verify;
-        uint32_t receive_timeout;
         bool is_blocking;
     };
 }
diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index faf3890..ba28448 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -35,6 +35,49 @@ void web_free(mbedtls_net_context *ctx)
     delete ctx;
 }
 
+namespace
+{
+    //mbedtls' own functions report an interrupted call like one which would block, and don't allow for
+    //timeouts on a blocking descriptor.
+    int ssl_send(void *ctx, const unsigned char *data, size_t size)
+    {
+#ifdef _WIN32
+        return mbedtls_net_send(ctx, data, size);
+#else
+        while(true)
+        {
+            ssize_t status = ::send(static_cast<mbedtls_net_context*>(ctx)->fd, data, size, 0);
+            if(status >= 0)
+                return static_cast<int>(status);
+            if(errno == EINTR)
+                continue; //try again, interrupted before anything could be sent
+            if(errno == EWOULDBLOCK)
+                return MBEDTLS_ERR_SSL_WANT_WRITE;
+            return errno == EPIPE || errno == ECONNRESET ? MBEDTLS_ERR_NET_CONN_RESET : MBEDTLS_ERR_NET_SEND_FAILED;
+        }
+#endif
+    }
+
+    int ssl_receive(void *ctx, unsigned char *data, size_t size)
+    {
+#ifdef _WIN32
+        return mbedtls_net_recv(ctx, data, size);
+#else
+        while(true)
+        {
+            ssize_t status = ::recv(static_cast<mbedtls_net_context*>(ctx)->fd, data, size, 0);
+            if(status >= 0)
+                return static_cast<int>(status);
+            if(errno == EINTR)
+                continue; //try again, interrupted before anything could be received
+            if(errno == EWOULDBLOCK)
+                return MBEDTLS_ERR_SSL_WANT_READ;
+            return errno == EPIPE || errno == ECONNRESET ? MBEDTLS_ERR_NET_CONN_RESET : MBEDTLS_ERR_NET_RECV_FAILED;
+        }
+#endif
+    }
+}
+
 namespace fr
 {
     SSLSocket::SSLSocket(std::shared_ptr<SSLContext> ssl_context_) noexcept
@@ -42,7 +85,6 @@ namespace fr
        ssl_socket_descriptor(nullptr, web_free),
        ssl(nullptr, ssl_free),
        should_verify(true),
-       receive_timeout(0),
        is_blocking(true)
     {
         //Initialise mbedtls structures
@@ -95,66 +137,30 @@ namespace fr
 
     Socket::Status SSLSocket::receive_raw(void *data, size_t data_size, size_t &received)
     {
-        ssize_t status = 0;
-        if(receive_timeout == 0)
+        received = 0;
+        int status = mbedtls_ssl_read(ssl.get(), (unsigned char *)data, data_size);
+        if(status == 0 || status == MBEDTLS_ERR_SSL_PEER_CLOSE_NOTIFY)
         {
-            do
-            {
-                status = mbedtls_ssl_read(ssl.get(), (unsigned char *) data, data_size);
-                if(status == 0)
-                {
-                    return Socket::Status::Disconnected;
-                }
-                if(status < 0)
-                {
-                    if(status == MBEDTLS_ERR_SSL_WANT_READ || status == MBEDTLS_ERR_SSL_WANT_WRITE)
-                    {
-                        if(is_blocking)
-                        {
-                            return Socket::Status::Timeout;
-                        }
-                        continue;
-                    }
-
-                    errno = static_cast<int>(status);
-                    return Socket::Status::SSLError;
-                }
-                break;
-            } while(true);
+            return Socket::Status::Disconnected;
         }
-        else
+
+        if(status < 0)
         {
-            do
+            if(status == MBEDTLS_ERR_SSL_WANT_READ || status == MBEDTLS_ERR_SSL_WANT_WRITE)
             {
-                status = mbedtls_net_recv_timeout(ssl.get(), (unsigned char *)data, data_size, receive_timeout);
-                if(status == 0)
+                if(is_blocking)
                 {
-                    return Socket::Status::Disconnected;
+                    return Socket::Status::Timeout;
                 }
+                return Socket::Status::WouldBlock;
+            }
 
-                if(status < 0)
-                {
-                    if(status == MBEDTLS_ERR_SSL_TIMEOUT)
-                    {
-                        return Socket::Status::WouldBlock;
-                    }
-
-                    if(status == MBEDTLS_ERR_SSL_WANT_READ)
-                    {
-                        continue; //try again, interrupted before anything could be received
-                    }
-
-                    errno = static_cast<int>(status);
-                    return Socket::Status::SSLError;
-                }
-                break;
-            } while(true);
+            errno = status;
+            return Socket::Status::SSLError;
         }
 
-
         received = static_cast<size_t>(status);
         return Socket::Status::Success;
-
     }
 
     Socket::Status SSLSocket::connect(const std::string &address, const std::string &port, std::chrono::seconds timeout)
@@ -199,7 +205,7 @@ namespace fr
             return Socket::Status::SSLError;
         }
 
-        mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), mbedtls_net_send, mbedtls_net_recv, nullptr);
+        mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), ssl_send, ssl_receive, nullptr);
 
         //Do SSL handshake
         while((error = mbedtls_ssl_handshake(ssl.get())) != 0)
@@ -235,7 +241,11 @@ namespace fr
     {
         ssl_socket_descriptor.reset(static_cast<mbedtls_net_context*>(descriptor));
         if(descriptor)
+        {
+            if(ssl)
+                mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), ssl_send, ssl_receive, nullptr);
             reconfigure_socket();
+        }
     }
 
     void SSLSocket::verify_certificates(bool should_verify_)
@@ -267,6 +277,17 @@ namespace fr
 #ifndef _WIN32
         //Disable Nagle's algorithm
         setsockopt(get_socket_descriptor(), SOL_TCP, TCP_NODELAY, (char*)&one, sizeof(one));
+
+        //Apply receive timeout
+        struct timeval tv = {};
+        tv.tv_sec = get_receive_timeout() / 1000;
+        tv.tv_usec = (get_receive_timeout() % 1000) * 1000;
+        setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_RCVTIMEO, (const char*)&tv, sizeof tv);
+
+        //Apply send timeout
+        tv.tv_sec = get_send_timeout() / 1000;
+        tv.tv_usec = (get_send_timeout() % 1000) * 1000;
+        setsockopt(get_socket_descriptor(), SOL_SOCKET, SO_SNDTIMEO, (const char*)&tv, sizeof tv);
 #else
         //Disable Nagle's algorithm
         setsockopt(get_socket_descriptor(), IPPROTO_TCP, TCP_NODELAY, (char*)&one, sizeof(one));
-- 
2.43.0


From 5fbac021c4ba14ca0bab2f033a499797e1e9e10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:19 +0000
Subject: [PATCH 22/38] fix: SSLSocket::send_raw: resume after what has been
 sent already, as TcpSocket does

---
 src/SSLSocket.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index ba28448..8d78ff1 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -108,7 +108,6 @@ namespace fr
 
     Socket::Status SSLSocket::send_raw(const char *data, size_t size, size_t &sent)
     {
-        sent = 0;
         ssize_t status = 0;
 
         while(sent < size)
-- 
2.43.0


From 30d3c79fb7dc003b6ef072b7a50c6cbc7427bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:16 +0000
Subject: [PATCH 23/38] fix: SSLSocket::set_blocking: make it non-blocking when
 asked to, allow for no connection, start out blocking

---
 src/SSLSocket.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 8d78ff1..141a6d3 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -167,6 +167,7 @@ namespace fr
         //Initialise mbedtls stuff
         ssl.reset(ssl_create());
         ssl_socket_descriptor.reset(net_create());
+        is_blocking = true;
 
         //Due to mbedtls not supporting connect timeouts, we have to use an fr::TcpSocket to
         //Open the descriptor, and then steal it. This is a hack.
@@ -243,6 +244,7 @@ namespace fr
         {
             if(ssl)
                 mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), ssl_send, ssl_receive, nullptr);
+            is_blocking = true;
             reconfigure_socket();
         }
     }
@@ -254,13 +256,8 @@ namespace fr
 
     fr::Socket::Status SSLSocket::set_blocking(bool should_block)
     {
-        int ret = mbedtls_net_set_block(ssl_socket_descriptor.get());
-        if(ret != 0)
-        {
-            errno = ret;
+        if(!set_unix_socket_blocking(get_socket_descriptor(), is_blocking, should_block))
             return fr::Socket::Status::SSLError;
-        }
-
         is_blocking = should_block;
         return fr::Socket::Status::Success;
     }
-- 
2.43.0


From dd145d9a212603d9fa37d005ebb6451891d98606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:18 +0000
Subject: [PATCH 24/38] fix: SSLSocket::connect: don't stay connected when the
 handshake fails, apply the timeouts to it

---
 src/SSLSocket.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 141a6d3..4d4a4da 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -185,6 +185,7 @@ namespace fr
         int error = 0;
         if((error = mbedtls_ssl_config_defaults(&conf, MBEDTLS_SSL_IS_CLIENT, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT)) != 0)
         {
+            close_socket();
             errno = error;
             return Socket::Status::SSLError;
         }
@@ -195,26 +196,29 @@ namespace fr
 
         if((error = mbedtls_ssl_setup(ssl.get(), &conf)) != 0)
         {
+            close_socket();
             errno = error;
             return Socket::Status::SSLError;
         }
 
         if((error = mbedtls_ssl_set_hostname(ssl.get(), address.c_str())) != 0)
         {
+            close_socket();
             errno = error;
             return Socket::Status::SSLError;
         }
 
         mbedtls_ssl_set_bio(ssl.get(), ssl_socket_descriptor.get(), ssl_send, ssl_receive, nullptr);
 
-        //Do SSL handshake
-        while((error = mbedtls_ssl_handshake(ssl.get())) != 0)
+        //Do SSL handshake, within the timeouts that have been set
+        reconfigure_socket();
+        if((error = mbedtls_ssl_handshake(ssl.get())) != 0)
         {
-            if(error != MBEDTLS_ERR_SSL_WANT_READ && error != MBEDTLS_ERR_SSL_WANT_WRITE)
-            {
-                errno = error;
-                return Socket::Status::SSLError;
-            }
+            close_socket();
+            if(error == MBEDTLS_ERR_SSL_WANT_READ || error == MBEDTLS_ERR_SSL_WANT_WRITE)
+                return Socket::Status::Timeout;
+            errno = error;
+            return Socket::Status::SSLError;
         }
 
         //Verify server certificate
@@ -222,13 +226,11 @@ namespace fr
         {
             if(mbedtls_ssl_get_verify_result(ssl.get()) != 0)
             {
+                close_socket();
                 return Socket::Status::VerificationFailed;
             }
         }
 
-        //Update state
-        reconfigure_socket();
-
         return Socket::Status::Success;
     }
 
-- 
2.43.0


From d97605e66c4faf557863bea9e935437b2fadfd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:18 +0000
Subject: [PATCH 25/38] fix: SSLSocket::connect: use the IP version that has
 been asked for

---
 src/SSLSocket.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 4d4a4da..d2e7ea4 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -173,6 +173,7 @@ namespace fr
         //Open the descriptor, and then steal it. This is a hack.
         {
             fr::TcpSocket socket;
+            socket.set_inet_version(ai_family == AF_INET ? IP::v4 : ai_family == AF_INET6 ? IP::v6 : IP::any);
             auto ret = socket.connect(address, port, timeout);
             if(ret != fr::Socket::Status::Success)
                 return ret;
-- 
2.43.0


From 60b696e7ace9c9dfbddc4984ee885a4dd3d0cf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:57 +0000
Subject: [PATCH 26/38] fix: SSLListener: accepted sockets keep alive the
 configuration they refer to

---
 include/frnetlib/SSLListener.h | 18 ++++++++++++-----
 include/frnetlib/SSLSocket.h   |  4 +++-
 src/SSLListener.cpp            | 37 +++++++++++++++++++++-------------
 src/SSLSocket.cpp              |  4 +++-
 4 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/include/frnetlib/SSLListener.h b/include/frnetlib/SSLListener.h
index 1a428b6..54a49a1 100644
--- a/include/frnetlib/SSLListener.h
+++ b/include/frnetlib/SSLListener.h
@@ -82,12 +82,20 @@ namespace fr
         int32_t get_socket_descriptor() const override;
 
     private:
-        mbedtls_net_context listen_fd;
-        mbedtls_ssl_config conf;
-        mbedtls_x509_crt srvcert;
-        mbedtls_pk_context pkey;
+        //What accepted sockets refer to. Kept alive by each of them, as they may outlive the listener.
+        struct Config
+        {
+            explicit Config(std::shared_ptr<SSLContext> ssl_context);
+            ~Config();
+
+            mbedtls_ssl_config conf;
+            mbedtls_x509_crt srvcert;
+            mbedtls_pk_context pkey;
+            std::shared_ptr<SSLContext> ssl_context;
+        };
 
-        std::shared_ptr<SSLContext> ssl_context;
+        mbedtls_net_context listen_fd;
+        std::shared_ptr<Config> config;
     };
 
 }
diff --git a/include/frnetlib/SSLSocket.h b/include/frnetlib/SSLSocket.h
index 5452e57..15b2ee8 100644
--- a/include/frnetlib/SSLSocket.h
+++ b/include/frnetlib/SSLSocket.h
@@ -79,8 +79,9 @@ namespace fr
          * Set the SSL context
          *
          * @param context The SSL context to use
+         * @param owner Keeps alive what the context refers to (its configuration), if it isn't kept alive otherwise
          */
-        void set_ssl_context(std::unique_ptr<mbedtls_ssl_context> context);
+        void set_ssl_context(std::unique_ptr<mbedtls_ssl_context> context, std::shared_ptr<void> owner = nullptr);
 
         /*!
          * Sets if the socket should verify the endpoints
@@ -143,6 +144,7 @@ namespace fr
 
         std::shared_ptr<SSLContext> ssl_context;
         std::unique_ptr<mbedtls_net_context, decltype(&mbedtls_net_free)> ssl_socket_descriptor;
+        std::shared_ptr<void> ssl_owner;
         std::unique_ptr<mbedtls_ssl_context, decltype(&mbedtls_ssl_free)> ssl;
         mbedtls_ssl_config conf;
         bool should_verify;
diff --git a/src/SSLListener.cpp b/src/SSLListener.cpp
index 51796b0..9cd22d4 100644
--- a/src/SSLListener.cpp
+++ b/src/SSLListener.cpp
@@ -15,42 +15,54 @@
 
 namespace fr
 {
-    SSLListener::SSLListener(std::shared_ptr<SSLContext> ssl_context_, const std::string &pem_path, const std::string &private_key_path)
+    SSLListener::Config::Config(std::shared_ptr<SSLContext> ssl_context_)
             : ssl_context(std::move(ssl_context_))
     {
-        //Initialise SSL objects required
-        listen_fd.fd = -1;
         mbedtls_ssl_config_init(&conf);
         mbedtls_x509_crt_init(&srvcert);
         mbedtls_pk_init(&pkey);
+    }
+
+    SSLListener::Config::~Config()
+    {
+        mbedtls_x509_crt_free(&srvcert);
+        mbedtls_pk_free(&pkey);
+        mbedtls_ssl_config_free(&conf);
+    }
+
+    SSLListener::SSLListener(std::shared_ptr<SSLContext> ssl_context_, const std::string &pem_path, const std::string &private_key_path)
+            : config(std::make_shared<Config>(std::move(ssl_context_)))
+    {
+        //Initialise SSL objects required
+        listen_fd.fd = -1;
 
         int error = 0;
 
         //Load public key
-        error = mbedtls_x509_crt_parse_file(&srvcert, pem_path.c_str());
+        error = mbedtls_x509_crt_parse_file(&config->srvcert, pem_path.c_str());
         if(error != 0)
         {
             throw std::runtime_error("Error parsing '" + pem_path + "': mbedtls_x509_crt_parse_file() returned " + std::to_string(error));
         }
 
         //Load private key
-        error = mbedtls_pk_parse_keyfile(&pkey, private_key_path.c_str(), 0);
+        error = mbedtls_pk_parse_keyfile(&config->pkey, private_key_path.c_str(), 0);
         if(error != 0)
         {
             throw std::runtime_error("Error parsing '" + private_key_path + "': mbedtls_pk_parse_keyfile() returned " + std::to_string(error));
         }
 
         //Setup data structures and apply settings
-        error = mbedtls_ssl_config_defaults(&conf, MBEDTLS_SSL_IS_SERVER, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT);
+        error = mbedtls_ssl_config_defaults(&config->conf, MBEDTLS_SSL_IS_SERVER, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT);
         if(error != 0)
         {
             throw std::runtime_error("mbedtls_ssl_config_defaults() returned: " + std::to_string(error));
         }
-        mbedtls_ssl_conf_rng(&conf, mbedtls_ctr_drbg_random, &ssl_context->ctr_drbg);
-        mbedtls_ssl_conf_ca_chain(&conf, srvcert.next, nullptr);
+        mbedtls_ssl_conf_rng(&config->conf, mbedtls_ctr_drbg_random, &config->ssl_context->ctr_drbg);
+        mbedtls_ssl_conf_ca_chain(&config->conf, config->srvcert.next, nullptr);
 
         //Apply loaded certs
-        error = mbedtls_ssl_conf_own_cert(&conf, &srvcert, &pkey);
+        error = mbedtls_ssl_conf_own_cert(&config->conf, &config->srvcert, &config->pkey);
         if(error != 0)
         {
             std::cout << "Failed to set certificate: " << error << std::endl;
@@ -61,9 +73,6 @@ namespace fr
     SSLListener::~SSLListener()
     {
         close_socket();
-        mbedtls_x509_crt_free(&srvcert);
-        mbedtls_pk_free(&pkey);
-        mbedtls_ssl_config_free(&conf);
         mbedtls_net_free(&listen_fd);
     }
 
@@ -97,7 +106,7 @@ namespace fr
         mbedtls_ssl_init(ssl.get());
         mbedtls_net_init(client_fd.get());
         auto free_contexts = [&](){mbedtls_ssl_free(ssl.get()); mbedtls_net_free(client_fd.get());};
-        if((error = mbedtls_ssl_setup(ssl.get(), &conf)) != 0)
+        if((error = mbedtls_ssl_setup(ssl.get(), &config->conf)) != 0)
         {
             free_contexts();
             return Socket::Status::Error;
@@ -141,7 +150,7 @@ namespace fr
             strcpy(client_printable_addr, "unknown");
         }
 
-        client.set_ssl_context(std::move(ssl));
+        client.set_ssl_context(std::move(ssl), config);
         client.set_descriptor(client_fd.release());
         client.set_remote_address(client_printable_addr);
         return Socket::Status::Success;
diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index d2e7ea4..ad0acc9 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -103,6 +103,7 @@ namespace fr
     void SSLSocket::close_socket()
     {
         ssl = nullptr;
+        ssl_owner = nullptr;
         ssl_socket_descriptor = nullptr;
     }
 
@@ -235,9 +236,10 @@ namespace fr
         return Socket::Status::Success;
     }
 
-    void SSLSocket::set_ssl_context(std::unique_ptr<mbedtls_ssl_context> context)
+    void SSLSocket::set_ssl_context(std::unique_ptr<mbedtls_ssl_context> context, std::shared_ptr<void> owner)
     {
         ssl.reset(context.release());
+        ssl_owner = std::move(owner);
     }
 
     void SSLSocket::set_descriptor(void *descriptor)
-- 
2.43.0


From 4344bf81d5ffcaa83a56d9e2bcff4ffee680e0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 27/38] fix: SocketSelector::remove: leave other sockets on a
 reused descriptor registered, even if they have let go of it

---
 include/frnetlib/SocketSelector.h |  1 +
 src/SocketSelector.cpp            | 18 ++++++++----------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/frnetlib/SocketSelector.h b/include/frnetlib/SocketSelector.h
index 1b11fb6..ade7c97 100644
--- a/include/frnetlib/SocketSelector.h
+++ b/include/frnetlib/SocketSelector.h
@@ -69,6 +69,7 @@ namespace fr
         };
         int epoll_fd;
         std::unordered_map<uintptr_t, Opaque> added_sockets;
+        std::unordered_map<int32_t, uintptr_t> descriptor_owners;
 #endif
     };
 }
diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index 60dfb71..9509bd2 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -52,6 +52,7 @@ namespace fr
             added_sockets.erase(added_iter.first);
             throw std::runtime_error("Failed to add socket: " + std::to_string(errno));
         }
+        descriptor_owners[descriptor] = added_iter.first->first;
     }
 
     std::vector<std::pair<std::shared_ptr<fr::SocketDescriptor>, void *>>
@@ -95,23 +96,20 @@ namespace fr
         }
 
         //If the socket has been closed since, then its descriptor may have gone to another one that was added: leave that be
-        bool reused = false;
-        if(socket->get_socket_descriptor() != iter->second.descriptor)
-        {
-            for(auto &other : added_sockets)
-            {
-                if(other.first != iter->first && other.second.descriptor == iter->second.descriptor && other.second.socket->get_socket_descriptor() == iter->second.descriptor)
-                    reused = true;
-            }
-        }
+        auto owner = descriptor_owners.find(iter->second.descriptor);
+        bool owned = owner != descriptor_owners.end() && owner->second == iter->first;
 
         //A closed socket isn't known to epoll any more
-        if(!reused && epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0 && errno != ENOENT && errno != EBADF)
+        if(owned && epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0 && errno != ENOENT && errno != EBADF)
         {
             throw std::runtime_error("Failed to remove socket: " + std::to_string(iter->second.descriptor) + ". Errno: " + std::to_string(errno));
         }
 
         void *opaque = iter->second.opaque;
+        if(owned)
+        {
+            descriptor_owners.erase(owner);
+        }
         added_sockets.erase(iter);
         return opaque;
     }
-- 
2.43.0


From 615affcc8b9113c17702591ce0b88016bc002c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 28/38] fix: Packet, WebFrame: without a receive limit, grow
 with what arrives instead of trusting the declared length

---
 include/frnetlib/Packet.h | 26 ++++++++++++++++++--------
 src/WebFrame.cpp          | 25 ++++++++++++++++---------
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 2e852ff..a6bf91e 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -4,6 +4,7 @@
 
 #ifndef FRNETLIB_PACKET_H
 #define FRNETLIB_PACKET_H
+#include <algorithm>
 #include <string>
 #include <cstring>
 #include <iostream>
@@ -22,6 +23,7 @@
 namespace fr
 {
 #define PACKET_HEADER_LENGTH sizeof(uint32_t)
+#define PACKET_RECEIVE_STEP 0x10000
     class Packet : public Sendable
     {
     public:
@@ -771,16 +773,24 @@ namespace fr
             if(socket->get_max_receive_size() && packet_length > socket->get_max_receive_size())
                 return fr::Socket::Status::MaxPacketSizeExceeded;
 
-            //Now we've got the length, read the rest of the data in. Anything left over from a previous packet is replaced
-            buffer.resize(packet_length + PACKET_HEADER_LENGTH);
+            //Now we've got the length, read the rest of the data in. Anything left over from a previous packet is replaced.
+            //Without a limit, only make room for it as it arrives: the length is merely what the peer says it is
+            const size_t step = socket->get_max_receive_size() ? packet_length : PACKET_RECEIVE_STEP;
+            buffer.resize(PACKET_HEADER_LENGTH);
             buffer_read_index = PACKET_HEADER_LENGTH;
-
-            do
+            while(size() < packet_length)
             {
-                status = socket->receive_all(&buffer[PACKET_HEADER_LENGTH], packet_length);
-            } while(status == fr::Socket::Status::WouldBlock);
-            if(status == fr::Socket::Status::Timeout)
-                status = fr::Socket::Status::Disconnected;
+                size_t offset = buffer.size();
+                buffer.resize(offset + std::min(packet_length - size(), step));
+                do
+                {
+                    status = socket->receive_all(&buffer[offset], buffer.size() - offset);
+                } while(status == fr::Socket::Status::WouldBlock);
+                if(status == fr::Socket::Status::Timeout)
+                    status = fr::Socket::Status::Disconnected;
+                if(status != fr::Socket::Status::Success)
+                    return status;
+            }
             return status;
         }
 
diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 69a804d..179eef5 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -2,8 +2,10 @@
 // Created by fred on 01/03/18.
 //
 
+#include <algorithm>
 #include "frnetlib/WebFrame.h"
 #include "frnetlib/WebSocket.h"
+#define FRAME_RECEIVE_STEP 0x10000
 
 namespace fr
 {
@@ -169,16 +171,21 @@ namespace fr
                 return status;
         }
 
-        //Read payload
-        payload.resize(payload_length, '\0');
-        do
+        //Read payload. Without a limit, only make room for it as it arrives: the length is merely what the peer says it is
+        const uint64_t step = socket->get_max_receive_size() ? payload_length : FRAME_RECEIVE_STEP;
+        while(payload.size() < payload_length)
         {
-            status = socket->receive_all(&payload[0], payload_length);
-        } while(status == fr::Socket::Status::WouldBlock);
-        if(status == fr::Socket::Status::Timeout)
-            status = fr::Socket::Status::Disconnected;
-        if(status != fr::Socket::Status::Success)
-            return status;
+            size_t offset = payload.size();
+            payload.resize(offset + std::min(payload_length - offset, step), '\0');
+            do
+            {
+                status = socket->receive_all(&payload[offset], payload.size() - offset);
+            } while(status == fr::Socket::Status::WouldBlock);
+            if(status == fr::Socket::Status::Timeout)
+                status = fr::Socket::Status::Disconnected;
+            if(status != fr::Socket::Status::Success)
+                return status;
+        }
 
         //Decode the payload if the mask bit is set
         if(mask)
-- 
2.43.0


From 8ad65a1e446ca07a43b9d694a56cfa3dda2d581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 29/38] fix: SocketSelector: report sockets which hold
 decrypted data that hasn't been received yet

---
 include/frnetlib/SSLSocket.h        | 14 ++++++++++++++
 include/frnetlib/SocketDescriptor.h | 22 ++++++++++++++++++++++
 include/frnetlib/SocketSelector.h   |  1 +
 src/SSLSocket.cpp                   | 10 ++++++++++
 src/SocketSelector.cpp              | 24 ++++++++++++++++++++++--
 5 files changed, 69 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/SSLSocket.h b/include/frnetlib/SSLSocket.h
index 15b2ee8..0745328 100644
--- a/include/frnetlib/SSLSocket.h
+++ b/include/frnetlib/SSLSocket.h
@@ -134,6 +134,20 @@ namespace fr
          */
         bool connected() const final;
 
+        /*!
+         * A whole record is decrypted at a time, and is then held until it has been received.
+         *
+         * @return True
+         */
+        bool buffers_data() const override;
+
+        /*!
+         * Checks if there's decrypted data which hasn't been received yet.
+         *
+         * @return True if there is, false otherwise
+         */
+        bool has_buffered_data() const override;
+
 
     private:
 
diff --git a/include/frnetlib/SocketDescriptor.h b/include/frnetlib/SocketDescriptor.h
index 4c903fb..3f4c6be 100644
--- a/include/frnetlib/SocketDescriptor.h
+++ b/include/frnetlib/SocketDescriptor.h
@@ -27,6 +27,28 @@ public:
      * @return The socket descriptor.
      */
     virtual int32_t get_socket_descriptor() const = 0;
+
+    /*!
+     * Checks if the socket is one which may take more off its descriptor
+     * than it has been asked for.
+     *
+     * @return True if it is, false otherwise
+     */
+    virtual bool buffers_data() const
+    {
+        return false;
+    }
+
+    /*!
+     * Checks if there's data which has been taken off the descriptor,
+     * but hasn't been received by the application yet.
+     *
+     * @return True if there is, false otherwise
+     */
+    virtual bool has_buffered_data() const
+    {
+        return false;
+    }
 };
 }
 
diff --git a/include/frnetlib/SocketSelector.h b/include/frnetlib/SocketSelector.h
index ade7c97..2924a0e 100644
--- a/include/frnetlib/SocketSelector.h
+++ b/include/frnetlib/SocketSelector.h
@@ -70,6 +70,7 @@ namespace fr
         int epoll_fd;
         std::unordered_map<uintptr_t, Opaque> added_sockets;
         std::unordered_map<int32_t, uintptr_t> descriptor_owners;
+        std::unordered_map<uintptr_t, Opaque*> buffering_sockets; //Those which may hold data that epoll can't see
 #endif
     };
 }
diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index ad0acc9..370dcd6 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -311,4 +311,14 @@ namespace fr
     {
         return ssl_socket_descriptor && ssl_socket_descriptor->fd > -1;
     }
+
+    bool SSLSocket::buffers_data() const
+    {
+        return true;
+    }
+
+    bool SSLSocket::has_buffered_data() const
+    {
+        return connected() && ssl && mbedtls_ssl_get_bytes_avail(ssl.get()) > 0;
+    }
 }
\ No newline at end of file
diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index 9509bd2..ced0d35 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -53,6 +53,10 @@ namespace fr
             throw std::runtime_error("Failed to add socket: " + std::to_string(errno));
         }
         descriptor_owners[descriptor] = added_iter.first->first;
+        if(socket->buffers_data())
+        {
+            buffering_sockets.emplace(added_iter.first->first, &added_iter.first->second);
+        }
     }
 
     std::vector<std::pair<std::shared_ptr<fr::SocketDescriptor>, void *>>
@@ -61,6 +65,18 @@ namespace fr
         static thread_local epoll_event events[100];
         int event_count = 0;
         int64_t remaining = timeout.count();
+
+        //Data which a socket already holds doesn't have to be waited for
+        std::vector<std::pair<std::shared_ptr<fr::SocketDescriptor>, void *>> ret;
+        for(const auto &buffering : buffering_sockets)
+        {
+            if(buffering.second->socket->has_buffered_data())
+            {
+                ret.emplace_back(buffering.second->socket, buffering.second->opaque);
+                remaining = 0;
+            }
+        }
+
         do
         {
             //epoll only takes an int
@@ -73,15 +89,18 @@ namespace fr
         {
             if(errno == EINTR)
             {
-                return {};
+                return ret;
             }
             throw std::runtime_error("epoll_wait returned: " + std::to_string(errno));
         }
 
-        std::vector<std::pair<std::shared_ptr<fr::SocketDescriptor>, void *>> ret;
         for(int a = 0; a < event_count; ++a)
         {
             auto *opaque = static_cast<Opaque *>(events[a].data.ptr);
+            if(opaque->socket->has_buffered_data())
+            {
+                continue; //It's in the list already
+            }
             ret.emplace_back(opaque->socket, opaque->opaque);
         }
         return ret;
@@ -110,6 +129,7 @@ namespace fr
         {
             descriptor_owners.erase(owner);
         }
+        buffering_sockets.erase(iter->first);
         added_sockets.erase(iter);
         return opaque;
     }
-- 
2.43.0


From 079a16314a1826d1ceed0bd8559c4bc853c5cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 30/38] fix: Packet, WebFrame, Http: don't report a message
 that has been sent in part as merely timed out

---
 include/frnetlib/Packet.h | 2 ++
 src/Http.cpp              | 2 ++
 src/WebFrame.cpp          | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index a6bf91e..00f6e81 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -745,6 +745,8 @@ namespace fr
             {
                 state = socket->send_raw(&buffer[0], buffer.size(), sent);
             } while(state == fr::Socket::Status::WouldBlock);
+            if(state == fr::Socket::Status::Timeout && sent > 0)
+                state = fr::Socket::Status::Disconnected; //Partly sent: another attempt would start in the middle of this one
             return state;
         }
 
diff --git a/src/Http.cpp b/src/Http.cpp
index be924c9..ff65560 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -987,6 +987,8 @@ namespace fr
         {
             state = socket->send_raw(&data[0], data.size(), sent);
         } while(state == fr::Socket::Status::WouldBlock);
+        if(state == fr::Socket::Status::Timeout && sent > 0)
+            state = fr::Socket::Status::Disconnected; //Partly sent: another attempt would start in the middle of this one
         return state;
     }
 
diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 179eef5..d6e6df6 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -89,6 +89,8 @@ namespace fr
         {
             state = socket->send_raw(buffer.c_str(), buffer.size(), sent);
         } while(state == fr::Socket::Status::WouldBlock);
+        if(state == fr::Socket::Status::Timeout && sent > 0)
+            state = fr::Socket::Status::Disconnected; //Partly sent: another attempt would start in the middle of this one
         return state;
     }
 
-- 
2.43.0


From d98d6c237dd58515594499e1784a2c86be22345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 31/38] fix: WebSocket::connect: send a random 16 byte key, as
 the protocol asks for and servers verify

---
 include/frnetlib/WebSocket.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 3a30f34..1c920bd 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -5,7 +5,7 @@
 #ifndef FRNETLIB_WEBSOCKET_H
 #define FRNETLIB_WEBSOCKET_H
 
-#include <ctime>
+#include <random>
 #include "frnetlib/Socket.h"
 #include "frnetlib/HttpRequest.h"
 #include "frnetlib/HttpResponse.h"
@@ -43,7 +43,11 @@ namespace fr
                 return status;
 
             //Send an upgrade request header
-            std::string websocket_key = Base64::encode(std::to_string(std::time(nullptr)));
+            std::string websocket_nonce(16, '\0');
+            std::random_device random;
+            for(auto &c : websocket_nonce)
+                c = static_cast<char>(random());
+            std::string websocket_key = Base64::encode(websocket_nonce);
             HttpRequest request;
             request.header("sec-websocket-key") = websocket_key;
             request.header("sec-websocket-version") = "13";
-- 
2.43.0


From b00f182623bf908d25fbf4bcf29d784da97344bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 32/38] fix: SSLSocket::connect: don't share the descriptor
 with the temporary socket while something can still throw

---
 src/SSLSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 370dcd6..a33d19c 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -178,8 +178,8 @@ namespace fr
             auto ret = socket.connect(address, port, timeout);
             if(ret != fr::Socket::Status::Success)
                 return ret;
-            ssl_socket_descriptor->fd = socket.get_socket_descriptor();
             set_remote_address(socket.get_remote_address());
+            ssl_socket_descriptor->fd = socket.get_socket_descriptor();
             socket.set_descriptor(nullptr);
         }
 
-- 
2.43.0


From 744405c4fc3b26a1536a16bf3b96c61c2603b1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 33/38] fix: SocketSelector::add: leave nothing behind when
 memory runs out

---
 src/SocketSelector.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index ced0d35..55425f2 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -6,6 +6,7 @@
 #include <limits>
 #include <thread>
 #include <mutex>
+#include <tuple>
 #include "frnetlib/SocketSelector.h"
 
 //Linux EPOLL implementation
@@ -47,16 +48,34 @@ namespace fr
         event.events = EPOLLIN | EPOLLHUP | EPOLLERR | EPOLLRDHUP;
         event.data.ptr = &added_iter.first->second;
 
-        if(epoll_ctl(epoll_fd, EPOLL_CTL_ADD, descriptor, &event) < 0)
+        //Registering it comes last, so that there's nothing left to fail (such as for a lack of memory) once it's registered
+        const auto key = added_iter.first->first;
+        auto owner = descriptor_owners.end();
+        bool new_owner = false;
+        try
         {
-            added_sockets.erase(added_iter.first);
-            throw std::runtime_error("Failed to add socket: " + std::to_string(errno));
+            if(socket->buffers_data())
+            {
+                buffering_sockets.emplace(key, &added_iter.first->second);
+            }
+            std::tie(owner, new_owner) = descriptor_owners.emplace(descriptor, key);
+
+            if(epoll_ctl(epoll_fd, EPOLL_CTL_ADD, descriptor, &event) < 0)
+            {
+                throw std::runtime_error("Failed to add socket: " + std::to_string(errno));
+            }
         }
-        descriptor_owners[descriptor] = added_iter.first->first;
-        if(socket->buffers_data())
+        catch(...)
         {
-            buffering_sockets.emplace(added_iter.first->first, &added_iter.first->second);
+            if(new_owner)
+            {
+                descriptor_owners.erase(owner);
+            }
+            buffering_sockets.erase(key);
+            added_sockets.erase(added_iter.first);
+            throw;
         }
+        owner->second = key;
     }
 
     std::vector<std::pair<std::shared_ptr<fr::SocketDescriptor>, void *>>
-- 
2.43.0


From 66d1a96f7df31a43472b9b2462dcd2341c068015 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 34/38] fix: SSLListener::accept: don't let a silent client
 hold up the handshake beyond the timeouts set

---
 src/SSLListener.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/SSLListener.cpp b/src/SSLListener.cpp
index 9cd22d4..59a5558 100644
--- a/src/SSLListener.cpp
+++ b/src/SSLListener.cpp
@@ -121,6 +121,19 @@ namespace fr
             return Socket::Status::AcceptError;
         }
 
+        //A client which doesn't answer mustn't hold up the handshake for longer than the timeouts that have been set
+#ifndef _WIN32
+        struct timeval tv = {};
+        tv.tv_sec = client.get_receive_timeout() / 1000;
+        tv.tv_usec = (client.get_receive_timeout() % 1000) * 1000;
+        setsockopt(client_fd->fd, SOL_SOCKET, SO_RCVTIMEO, (const char*)&tv, sizeof tv);
+        tv.tv_sec = client.get_send_timeout() / 1000;
+        tv.tv_usec = (client.get_send_timeout() % 1000) * 1000;
+        setsockopt(client_fd->fd, SOL_SOCKET, SO_SNDTIMEO, (const char*)&tv, sizeof tv);
+#else
+        DWORD timeout_dword = static_cast<DWORD>(client.get_receive_timeout());
+        setsockopt(client_fd->fd, SOL_SOCKET, SO_RCVTIMEO, (const char*)&timeout_dword, sizeof timeout_dword);
+#endif
 
         //SSL Handshake
         mbedtls_ssl_set_bio(ssl.get(), client_fd.get(), mbedtls_net_send, mbedtls_net_recv, nullptr);
-- 
2.43.0


From 423ce6b82982af33474f5becc42b20d235138a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:50 +0000
Subject: [PATCH 35/38] fix: URL: look for the port within the host part only,
 and end the host, path and query at the first delimiter

A ':' in a path or query was taken for the port's, a '/' or '?' in a query or
fragment for the path's or query's, and '?' or '#' right behind the host or
port ended up in the path or port.
---
 src/URL.cpp | 67 +++++++++++++++++++----------------------------------
 1 file changed, 24 insertions(+), 43 deletions(-)

diff --git a/src/URL.cpp b/src/URL.cpp
index 0642060..8efe692 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -32,40 +32,33 @@ namespace fr
         size_t parse_offset = 0;
         size_t pos = 0;
 
-        //Check to see if a scheme exists
+        //Check to see if a scheme exists. Past the host, "://" is just text.
         pos = url.find("://");
-        if(pos != std::string::npos)
+        if(pos != std::string::npos && url.find_first_of("/?#") == pos + 1)
         {
             auto scheme_pos = scheme_string_map.find(to_lower(url.substr(0, pos)));
             scheme = (scheme_pos == scheme_string_map.end()) ? URL::Unknown : scheme_pos->second;
             parse_offset = pos + 3; // skip the ://
         }
 
+        //Find the end of the host and port. Whatever follows may contain any of the delimiters.
+        const size_t authority_end = std::min(url.find_first_of("/?#", parse_offset), url.size());
+
         //Check to see if there's a port
         pos = url.find(':', parse_offset);
-        if(pos != std::string::npos) //A port is provided
+        if(pos < authority_end) //A port is provided
         {
-            //Store host
             host = url.substr(parse_offset, pos - parse_offset);
-            parse_offset += host.size();
-
-            //Find end of port
-            size_t port_end = url.find('/', parse_offset);
-            port_end = (port_end == std::string::npos) ? url.size() : port_end;
-            port = url.substr(pos + 1, port_end - pos - 1);
-            parse_offset = port_end + 1;
+            port = url.substr(pos + 1, authority_end - pos - 1);
+            parse_offset = authority_end;
         }
         else //There's no port
         {
             //Store host
-            pos = url.find('/', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('?', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('#', parse_offset);
-            if(pos != std::string::npos || parse_offset != 0)
+            if(authority_end != url.size() || parse_offset != 0)
             {
-                pos = (pos != std::string::npos) ? pos : url.size();
-                host = url.substr(parse_offset, pos - parse_offset);
-                parse_offset = pos + 1;
+                host = url.substr(parse_offset, authority_end - parse_offset);
+                parse_offset = authority_end;
             }
 
             //Guess port based on scheme, if it's not explicitly provided.
@@ -91,41 +84,29 @@ namespace fr
             }
         }
 
+        //The path's leading slash is added below
+        if(parse_offset < url.size() && url[parse_offset] == '/')
+            ++parse_offset;
+
         //Exit if done
         if(parse_offset >= url.size())
             return;
 
         //Extract the path
-        pos = url.find('?', parse_offset);
-        if(pos != std::string::npos)
-        {
-            path.append("/").append(url.substr(parse_offset, pos - parse_offset));
-            parse_offset = pos + 1;
-        }
-        else
-        {
-            pos = url.find('#', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('?', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.size();
-            path.append("/").append(url.substr(parse_offset, pos - parse_offset));
-            parse_offset = pos + 1;
-        }
+        pos = std::min(url.find_first_of("?#", parse_offset), url.size());
+        path.append("/").append(url.substr(parse_offset, pos - parse_offset));
 
         //Extract the query
-        pos = url.find('#', parse_offset - 1);
-        if(pos != std::string::npos)
+        if(pos < url.size() && url[pos] == '?')
         {
-            if(pos + 1 != parse_offset)
-                query = url.substr(parse_offset, pos - parse_offset);
-            fragment = url.substr(pos + 1, url.size() - pos - 1);
-        }
-        else
-        {
-            if(parse_offset >= url.size())
-                return;
-            query = url.substr(parse_offset, url.size() - parse_offset);
+            parse_offset = pos + 1;
+            pos = std::min(url.find('#', parse_offset), url.size());
+            query = url.substr(parse_offset, pos - parse_offset);
         }
 
+        //Extract the fragment
+        if(pos < url.size())
+            fragment = url.substr(pos + 1);
     }
 
     URL::Scheme URL::string_to_scheme(const std::string &scheme)
-- 
2.43.0


From 17881230cbc2f65d3e183ef4fcb2354280443ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:50 +0000
Subject: [PATCH 36/38] fix: URL: know ftp, and tell sftp from it

---
 src/URL.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/URL.cpp b/src/URL.cpp
index 8efe692..7956065 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -13,7 +13,7 @@ namespace fr
     std::unordered_map<std::string, URL::Scheme> URL::scheme_string_map = {
             {"http",    URL::HTTP},
             {"https",   URL::HTTPS},
-            {"sftp",    URL::FTP},
+            {"ftp",     URL::FTP},
             {"mailto",  URL::MAILTO},
             {"irc",     URL::IRC},
             {"sftp",    URL::SFTP},
@@ -77,7 +77,7 @@ namespace fr
                     port = "21";
                     break;
                 case URL::SFTP:
-                    port = "25";
+                    port = "22";
                     break;
                 default:
                     break;
-- 
2.43.0


From f25da6e4bb03e8dd885598d2c3eb006415029fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:50 +0000
Subject: [PATCH 37/38] fix: URL: start from nothing, also when a URL parses
 another one

---
 include/frnetlib/URL.h | 2 +-
 src/URL.cpp            | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/URL.h b/include/frnetlib/URL.h
index ebae4a7..eafdf46 100644
--- a/include/frnetlib/URL.h
+++ b/include/frnetlib/URL.h
@@ -218,7 +218,7 @@ namespace fr
         }
 
         //State
-        Scheme scheme;
+        Scheme scheme = Scheme::Unknown;
         std::string host;
         std::string port;
         std::string path;
diff --git a/src/URL.cpp b/src/URL.cpp
index 7956065..3db1e33 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -29,6 +29,11 @@ namespace fr
     void URL::parse(const std::string &url)
     {
         scheme = Scheme::Unknown;
+        host.clear();
+        port.clear();
+        path.clear();
+        query.clear();
+        fragment.clear();
         size_t parse_offset = 0;
         size_t pos = 0;
 
-- 
2.43.0


From 3388fb26d7b11e6c52497d5f243dfd4fc5074ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 38/38] fix: HttpRequest: a URI may contain "HTTP"

---
 src/HttpRequest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index f915f14..969e9e6 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -205,7 +205,7 @@ namespace fr
     void HttpRequest::parse_header_uri(const std::string &str)
     {
         auto uri_begin = str.find('/');
-        auto uri_end = str.find("HTTP");
+        auto uri_end = str.rfind("HTTP"); //The version is the last thing in the line, the URI may mention it too
         if(uri_begin == std::string::npos || uri_end == std::string::npos)
         {
             throw std::invalid_argument("No URI found in: " + str);
-- 
2.43.0

