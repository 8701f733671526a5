From b436cecbc137be076d01b588aa4a5e084dc327ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:26 +0000
Subject: [PATCH 01/46] fix: read packet headers exactly, also when split
 across network reads

---
 mysql_mimic/stream.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index ed8c280..05a5a18 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -27,10 +27,12 @@ class MysqlStream:
     async def read(self) -> bytes:
         data = b""
         while True:
-            header = await self.reader.read(4)
-
-            if not header:
-                raise ConnectionClosed()
+            try:
+                header = await self.reader.readexactly(4)
+            except asyncio.IncompleteReadError as e:
+                if e.partial:
+                    raise
+                raise ConnectionClosed() from e
 
             i = struct.unpack("<I", header)[0]
             payload_length = i & 0x00FFFFFF
-- 
2.43.0


From 11cd1b37c9dda24e607c0b609520d37cca029a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:37 +0000
Subject: [PATCH 02/46] fix: don't hand the reused write buffer to the
 transport

---
 mysql_mimic/stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index 05a5a18..e2556b4 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -73,7 +73,8 @@ class MysqlStream:
 
     async def drain(self) -> None:
         if self._buffer:
-            self.writer.write(self._buffer)
+            # The transport may keep a reference to the data, so it can't be the reused buffer
+            self.writer.write(bytes(self._buffer))
             self._buffer.clear()
         await self.writer.drain()
 
-- 
2.43.0


From 9fe0c3e6aee636d7ee267113e0a8910a73363a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:19 +0000
Subject: [PATCH 03/46] fix: keep TLS handshake bytes that arrive together with
 the SSL request

---
 mysql_mimic/stream.py | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index e2556b4..3344d35 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -11,6 +11,19 @@ class ConnectionClosed(Exception):
     pass
 
 
+def _feed_data(protocol: asyncio.BaseProtocol, data: bytes) -> None:
+    """Hand already received data to a protocol, as if a transport had just read it"""
+    if isinstance(protocol, asyncio.BufferedProtocol):
+        while data:
+            buf = protocol.get_buffer(len(data))
+            n = min(len(buf), len(data))
+            buf[:n] = data[:n]
+            protocol.buffer_updated(n)
+            data = data[n:]
+    else:
+        protocol.data_received(data)  # type: ignore
+
+
 class MysqlStream:
     def __init__(
         self,
@@ -85,12 +98,28 @@ class MysqlStream:
         transport = self.writer.transport
         protocol = transport.get_protocol()
         loop = asyncio.get_event_loop()
-        new_transport = await loop.start_tls(
-            transport=transport,
-            protocol=protocol,
-            sslcontext=ssl,
-            server_side=True,
+
+        # The beginning of the TLS handshake may have been read together with the SSL request
+        # pylint: disable=protected-access
+        buffered = bytes(self.reader._buffer)  # type: ignore
+        self.reader._buffer.clear()  # type: ignore
+
+        upgrade = asyncio.ensure_future(
+            loop.start_tls(
+                transport=transport,
+                protocol=protocol,
+                sslcontext=ssl,
+                server_side=True,
+            )
         )
+        try:
+            if buffered:
+                # Let `start_tls` install its protocol and schedule `connection_made`
+                await asyncio.sleep(0)
+                loop.call_soon(_feed_data, transport.get_protocol(), buffered)
+            new_transport = await upgrade
+        finally:
+            upgrade.cancel()
 
         # This seems to be the easiest way to wrap the socket created by asyncio
         self.writer._transport = new_transport  # type: ignore # pylint: disable=protected-access
-- 
2.43.0


From 161361af782343ac76edbeda863e5ed698a489e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:49 +0000
Subject: [PATCH 04/46] fix: reject unterminated strings instead of looping
 forever

---
 mysql_mimic/types.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/types.py b/mysql_mimic/types.py
index 81b2e67..454db77 100644
--- a/mysql_mimic/types.py
+++ b/mysql_mimic/types.py
@@ -4,6 +4,8 @@ import struct
 
 from enum import IntEnum, IntFlag, auto
 
+from mysql_mimic.errors import ErrorCode, MysqlError
+
 
 class ColumnType(IntEnum):
     DECIMAL = 0x00
@@ -312,12 +314,13 @@ def read_str_fixed(reader: io.BytesIO, l: int) -> bytes:
 
 
 def read_str_null(reader: io.BytesIO) -> bytes:
-    data = b""
-    while True:
-        b = reader.read(1)
-        if b == b"\x00":
-            return data
-        data += b
+    pos = reader.tell()
+    rest = reader.read()
+    end = rest.find(b"\x00")
+    if end < 0:
+        raise MysqlError("Missing string terminator", ErrorCode.MALFORMED_PACKET)
+    reader.seek(pos + end + 1)
+    return rest[:end]
 
 
 def read_str_len(reader: io.BytesIO) -> bytes:
-- 
2.43.0


From 717264452498e042acdb3bfda8f9db41bfdc7eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:01 +0000
Subject: [PATCH 05/46] fix: reject truncated fixed-length and length-encoded
 strings

---
 mysql_mimic/types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/types.py b/mysql_mimic/types.py
index 454db77..4eaea34 100644
--- a/mysql_mimic/types.py
+++ b/mysql_mimic/types.py
@@ -310,7 +310,10 @@ def read_uint_len(reader: io.BytesIO) -> int:
 
 
 def read_str_fixed(reader: io.BytesIO, l: int) -> bytes:
-    return reader.read(l)
+    data = reader.read(l)
+    if len(data) != l:
+        raise MysqlError("Truncated string", ErrorCode.MALFORMED_PACKET)
+    return data
 
 
 def read_str_null(reader: io.BytesIO) -> bytes:
-- 
2.43.0


From da56995db27acb3d1783a1a8b5bec5f881e36d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 06/46] fix: stop serving a connection whose authentication
 failed

---
 mysql_mimic/connection.py | 67 +++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 23 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 5160192..b6b1d9c 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -71,6 +71,9 @@ class Connection:
         self.prepared_stmt_seq = seq(self._MAX_PREPARED_STMT_ID)
         self.prepared_stmts: Dict[int, PreparedStatement] = {}
 
+        # True once the client has completed a successful authentication exchange.
+        self.authenticated = False
+
         self.connection_id: int = 0
         self._kill: Optional[KillKind] = None
         self._task: Optional[asyncio.Task] = None
@@ -95,6 +98,8 @@ class Connection:
         logger.info("Started new connection: %s", self.connection_id)
         try:
             await self.connection_phase()
+            if not self.authenticated:
+                return
             await self.session.init(self)
         except Exception as e:
             await self.stream.write(self.error(msg=e, code=ErrorCode.HANDSHAKE_ERROR))
@@ -159,7 +164,7 @@ class Connection:
         self.zstd_compression_level = response.zstd_compression_level
         self.session.variables.set("external_user", response.username, force=True)
 
-        await self.authenticate(
+        self.authenticated = await self.authenticate(
             auth_state=auth_state,
             server_plugin=default_auth_plugin,
             username=response.username,
@@ -167,15 +172,28 @@ class Connection:
             auth_response=response.auth_response,
             connect_attrs=response.connect_attrs,
         )
+        if self.authenticated:
+            await self.stream.write(self.ok())
         self.stream.reset_seq()
 
     async def handle_change_user(self, data: bytes) -> None:
+        # Whatever goes wrong from here on, the connection must not be served any longer
+        self.authenticated = False
+
         com_change_user = packets.parse_com_change_user(
             capabilities=self.capabilities,
             client_charset=self.client_charset,
             data=data,
         )
 
+        if not await self.authenticate(
+            username=com_change_user.username,
+            auth_response=com_change_user.auth_response,
+            client_plugin_name=com_change_user.client_plugin,
+            connect_attrs=com_change_user.connect_attrs,
+        ):
+            return
+
         self.session.database = com_change_user.database
         self.session.variables.set(
             "external_user", com_change_user.username, force=True
@@ -187,14 +205,9 @@ class Connection:
         if com_change_user.connect_attrs:
             self.client_connect_attrs = com_change_user.connect_attrs
 
-        await self.authenticate(
-            username=com_change_user.username,
-            auth_response=com_change_user.auth_response,
-            client_plugin_name=com_change_user.client_plugin,
-            connect_attrs=com_change_user.connect_attrs,
-        )
-
         await self.session.reset()
+        self.authenticated = True
+        await self.stream.write(self.ok())
 
     async def authenticate(
         self,
@@ -204,7 +217,14 @@ class Connection:
         connect_attrs: Dict[str, str],
         auth_state: Optional[AuthState] = None,
         server_plugin: Optional[AuthPlugin] = None,
-    ) -> None:
+    ) -> bool:
+        """
+        Drive an authentication exchange.
+
+        Returns:
+            True if the client is authenticated, in which case the caller sends the final OK.
+            Otherwise, an error has been sent to the client.
+        """
         user = await self.identity_provider.get_user(username)
 
         if not user:
@@ -214,7 +234,7 @@ class Connection:
                     code=ErrorCode.USER_DOES_NOT_EXIST,
                 )
             )
-            return
+            return False
 
         user_plugin = (
             self.identity_provider.get_plugin(user.auth_plugin or "")
@@ -271,23 +291,24 @@ class Connection:
 
         if isinstance(decision, Success):
             self.session.username = decision.authenticated_as
-            await self.stream.write(self.ok())
-        else:
-            logger.info(
-                "Access denied for user '%s' with plugin '%s'",
-                auth_info.user.name,
-                user_plugin.name,
-            )
-            await self.stream.write(
-                self.error(
-                    msg=decision.msg or f"Access denied for user {auth_info.user.name}",
-                    code=ErrorCode.ACCESS_DENIED_ERROR,
-                )
+            return True
+
+        logger.info(
+            "Access denied for user '%s' with plugin '%s'",
+            auth_info.user.name,
+            user_plugin.name,
+        )
+        await self.stream.write(
+            self.error(
+                msg=decision.msg or f"Access denied for user {auth_info.user.name}",
+                code=ErrorCode.ACCESS_DENIED_ERROR,
             )
+        )
+        return False
 
     async def command_phase(self) -> None:
         """https://dev.mysql.com/doc/internals/en/command-phase.html"""
-        while True:
+        while self.authenticated:
             try:
                 data = await self.stream.read()
             except ConnectionClosed:
-- 
2.43.0


From db1b67fcc8dd85ac1cb2fdf36059a555aa351ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 07/46] fix: send errors whose message the results character
 set can't represent

---
 mysql_mimic/packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 19604d0..d165ed4 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -165,7 +165,8 @@ def make_error(
         parts.append(str_fixed(1, b"#"))
         parts.append(str_fixed(5, get_sqlstate(code)))
 
-    parts.append(str_rest(server_charset.encode(str(msg))))
+    # A message that isn't representable in the character set must not prevent the error itself
+    parts.append(str_rest(str(msg).encode(server_charset.codec, "replace")))
 
     return _concat(*parts)
 
-- 
2.43.0


From b5dc18fcd90dd9e46eb27db83c0cc0c36c27c977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 08/46] fix: encode COM_FIELD_LIST defaults as one
 length-encoded string

---
 mysql_mimic/packets.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index d165ed4..9793269 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -378,8 +378,7 @@ def make_column_definition_41(
         if default is None:
             parts.append(uint_len(0))
         else:
-            default_values = server_charset.encode(default)
-            parts.extend([uint_len(len(default_values)), str_len(default_values)])
+            parts.append(str_len(server_charset.encode(default)))
     return _concat(*parts)
 
 
-- 
2.43.0


From 1a4d83a3c5ae7fdadc045ce7b7c8efb4b34025e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 09/46] fix: omit the EOF after parameter definitions under
 CLIENT_DEPRECATE_EOF

---
 mysql_mimic/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index b6b1d9c..be55f5d 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -681,4 +681,5 @@ class Connection:
                 yield packets.make_column_definition_41(
                     server_charset=self.server_charset, name="?"
                 )
-            yield self.eof()
+            if not self.deprecate_eof():
+                yield self.eof()
-- 
2.43.0


From d29888ee3a3cc770a5a4d3338da71c978a7d0ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:51 +0000
Subject: [PATCH 10/46] fix: send one packet per column in response to
 COM_FIELD_LIST

---
 mysql_mimic/connection.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index be55f5d..17027ca 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -414,19 +414,17 @@ class Connection:
         com_field_list = parse_com_field_list(self.client_charset, data)
         sql = com_field_list_to_show_statement(com_field_list)
         result = await self.query(sql=sql, query_attrs={})
-        columns = b"".join(
-            [
+        async for row in aiterate(result.rows):
+            await self.stream.write(
                 make_column_definition_41(
                     server_charset=self.server_charset,
                     table=com_field_list.table,
                     name=row[0],
                     is_com_field_list=True,
                     default=row[4],
-                )
-                async for row in aiterate(result.rows)
-            ]
-        )
-        await self.stream.write(columns)
+                ),
+                drain=False,
+            )
         await self.stream.write(self.ok_or_eof())
 
     async def handle_query(self, data: bytes) -> None:
-- 
2.43.0


From 82395b0b3841395f67de8d35c1e05ea296a85f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 11/46] fix: never respond to COM_STMT_SEND_LONG_DATA

---
 mysql_mimic/connection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 17027ca..a942106 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -479,7 +479,10 @@ class Connection:
         COM_STMT_SEND_LONG_DATA sends the data for a column.
         """
         com_stmt_send_long_data = packets.parse_com_stmt_send_long_data(data)
-        stmt = self.get_stmt(com_stmt_send_long_data.stmt_id)
+        stmt = self.prepared_stmts.get(com_stmt_send_long_data.stmt_id)
+        if stmt is None or com_stmt_send_long_data.param_id >= stmt.num_params:
+            # There is no response to this command, not even an error
+            return
         if stmt.param_buffers is None:
             stmt.param_buffers = {}
         buffer = stmt.param_buffers.setdefault(
-- 
2.43.0


From e29dda7fa2aee29ef0dfc8558b4cbb1ddd6a7360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:12 +0000
Subject: [PATCH 12/46] fix: send the resultset metadata flag in
 COM_STMT_EXECUTE responses too

---
 mysql_mimic/connection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index a942106..ce5f5e4 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -513,7 +513,11 @@ class Connection:
             await self.stream.write(self.ok())
             return
 
-        await self.stream.write(types.uint_len(len(result_set.columns)))
+        await self.stream.write(
+            packets.make_column_count(
+                capabilities=self.capabilities, column_count=len(result_set.columns)
+            )
+        )
 
         for column in result_set.columns:
             await self.stream.write(
-- 
2.43.0


From d2a7bc02b5673027fe530aaaa49c2bbbde270c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 13/46] fix: never interrupt a packet between its frames

---
 mysql_mimic/stream.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index 3344d35..b61b2fa 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -67,6 +67,22 @@ class MysqlStream:
                 return data
 
     async def write(self, data: bytes, drain: bool = True) -> None:
+        if len(self._buffer) >= self._buffer_size:
+            await self.drain()
+
+        # There is nothing to wait for until all frames are buffered,
+        # so that a cancelled task can't leave half a packet behind.
+        self._enqueue(data)
+
+        if drain:
+            await self.drain()
+
+    def write_nowait(self, data: bytes) -> None:
+        """Hand a packet to the transport without waiting for the client to read"""
+        self._enqueue(data)
+        self._flush()
+
+    def _enqueue(self, data: bytes) -> None:
         while True:
             # Grab first 0xFFFFFF bytes to send
             payload = data[:0xFFFFFF]
@@ -77,19 +93,20 @@ class MysqlStream:
             packet = payload_length + sequence_id + payload
 
             self._buffer.extend(packet)
-            if drain or len(self._buffer) >= self._buffer_size:
-                await self.drain()
 
             # We are done unless len(send) == 0xFFFFFF
             if len(payload) != 0xFFFFFF:
                 return
 
     async def drain(self) -> None:
+        self._flush()
+        await self.writer.drain()
+
+    def _flush(self) -> None:
         if self._buffer:
             # The transport may keep a reference to the data, so it can't be the reused buffer
             self.writer.write(bytes(self._buffer))
             self._buffer.clear()
-        await self.writer.drain()
 
     def reset_seq(self) -> None:
         self.seq.reset()
-- 
2.43.0


From d431a9083d474cb6b2ccf0d957dcf35aadb5bd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:57 +0000
Subject: [PATCH 14/46] fix: KILL QUERY aborts at most the executing statement,
 KILL CONNECTION never waits for the client

---
 mysql_mimic/connection.py | 81 ++++++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 23 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index ce5f5e4..d230cd6 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -33,6 +33,13 @@ from mysql_mimic.utils import seq, aiterate, cooperative_iterate
 logger = logging.getLogger(__name__)
 
 
+def _current_task() -> Optional[asyncio.Task]:
+    try:
+        return asyncio.current_task()
+    except RuntimeError:  # not called from the event loop
+        return None
+
+
 class Connection:
     _MAX_PREPARED_STMT_ID = 2**32
 
@@ -77,6 +84,9 @@ class Connection:
         self.connection_id: int = 0
         self._kill: Optional[KillKind] = None
         self._task: Optional[asyncio.Task] = None
+        # Command whose response isn't complete yet
+        self._executing: Optional[int] = None
+        self._closing = False
 
     @property
     def server_charset(self) -> CharacterSet:
@@ -110,20 +120,34 @@ class Connection:
         except asyncio.CancelledError:
             if self._kill == KillKind.CONNECTION:
                 logger.info("Connection %s killed", self.connection_id)
-                await self.stream.write(
-                    self.error(
-                        msg="Session was killed", code=ErrorCode.SESSION_WAS_KILLED
+                if self._executing is not None:
+                    # Don't wait for a client that possibly never reads
+                    self.stream.write_nowait(
+                        self.error(
+                            msg="Session was killed", code=ErrorCode.SESSION_WAS_KILLED
+                        )
                     )
-                )
-                self._kill = None
             else:
                 raise
         finally:
+            self._closing = True
             await self.session.close()
 
     def kill(self, kind: KillKind = KillKind.CONNECTION) -> None:
-        if self._task:
-            self._kill = kind
+        if not self._task or self._closing or self._kill == KillKind.CONNECTION:
+            return
+
+        if kind == KillKind.QUERY and (
+            self._kill
+            or self._executing in (None, types.Commands.COM_CHANGE_USER)
+            or self._task is _current_task()
+        ):
+            # There is no statement to abort, it's being aborted already,
+            # or it's the KILL statement itself
+            return
+
+        self._kill = kind
+        if self._task is not _current_task():
             self._task.cancel()
 
     async def connection_phase(self) -> None:
@@ -207,7 +231,7 @@ class Connection:
 
         await self.session.reset()
         self.authenticated = True
-        await self.stream.write(self.ok())
+        await self.stream.write(self.ok(), drain=False)
 
     async def authenticate(
         self,
@@ -308,7 +332,7 @@ class Connection:
 
     async def command_phase(self) -> None:
         """https://dev.mysql.com/doc/internals/en/command-phase.html"""
-        while self.authenticated:
+        while self.authenticated and not self._kill:
             try:
                 data = await self.stream.read()
             except ConnectionClosed:
@@ -317,6 +341,7 @@ class Connection:
             try:
                 command = data[0]
                 rest = data[1:]
+                self._executing = command
 
                 if command == types.Commands.COM_QUERY:
                     await self.handle_query(rest)
@@ -353,10 +378,13 @@ class Connection:
                     )
 
             except MysqlError as e:
+                self._executing = None
                 logger.error(e)
                 await self.stream.write(self.error(msg=e.msg, code=e.code))
             except asyncio.CancelledError:
                 if self._kill == KillKind.QUERY:
+                    self._executing = None
+                    self._kill = None
                     logger.info("Query killed on connection %s", self.connection_id)
                     if self._task and hasattr(self._task, "uncancel"):  # python >=3.11
                         self._task.uncancel()
@@ -365,13 +393,20 @@ class Connection:
                             msg="Query was killed", code=ErrorCode.SESSION_WAS_KILLED
                         )
                     )
-                    self._kill = None
                 else:
                     raise
             except Exception as e:  # pylint: disable=broad-except
+                self._executing = None
                 logger.exception(e)
                 await self.stream.write(self.error(msg=e))
+            else:
+                # The response is complete, only the client still has to take it
+                self._executing = None
+                await self.stream.drain()
             finally:
+                if self._kill == KillKind.QUERY:
+                    # The statement ended without noticing that it was killed
+                    self._kill = None
                 self.stream.reset_seq()
 
     async def handle_ping(self, data: bytes) -> None:  # pylint: disable=unused-argument
@@ -380,7 +415,7 @@ class Connection:
 
         COM_PING check if the server is alive.
         """
-        await self.stream.write(self.ok())
+        await self.stream.write(self.ok(), drain=False)
 
     async def handle_reset_connection(
         self, data: bytes
@@ -392,7 +427,7 @@ class Connection:
 
         For now, we're just treating this like a no-op.
         """
-        await self.stream.write(self.ok())
+        await self.stream.write(self.ok(), drain=False)
 
     async def handle_debug(
         self, data: bytes
@@ -404,11 +439,11 @@ class Connection:
 
         For now, we're just treating this like a no-op.
         """
-        await self.stream.write(self.ok())
+        await self.stream.write(self.ok(), drain=False)
 
     async def handle_init_db(self, data: bytes) -> None:
         await self.session.use(parse_com_init_db(self.client_charset, data))
-        await self.stream.write(self.ok())
+        await self.stream.write(self.ok(), drain=False)
 
     async def handle_field_list(self, data: bytes) -> None:
         com_field_list = parse_com_field_list(self.client_charset, data)
@@ -425,7 +460,7 @@ class Connection:
                 ),
                 drain=False,
             )
-        await self.stream.write(self.ok_or_eof())
+        await self.stream.write(self.ok_or_eof(), drain=False)
 
     async def handle_query(self, data: bytes) -> None:
         """
@@ -443,12 +478,11 @@ class Connection:
         result_set = await self.query(com_query.sql, com_query.query_attrs)
 
         if not result_set:
-            await self.stream.write(self.ok())
+            await self.stream.write(self.ok(), drain=False)
             return
 
         async for packet in self.text_resultset(result_set):
             await self.stream.write(packet, drain=False)
-        await self.stream.drain()
 
     async def handle_stmt_prepare(self, data: bytes) -> None:
         """
@@ -470,7 +504,6 @@ class Connection:
 
         for packet in self.com_stmt_prepare_response(stmt):
             await self.stream.write(packet, drain=False)
-        await self.stream.drain()
 
     async def handle_stmt_send_long_data(self, data: bytes) -> None:
         """
@@ -510,7 +543,7 @@ class Connection:
         )
 
         if not result_set:
-            await self.stream.write(self.ok())
+            await self.stream.write(self.ok(), drain=False)
             return
 
         await self.stream.write(
@@ -538,14 +571,15 @@ class Connection:
         if com_stmt_execute.use_cursor:
             com_stmt_execute.stmt.cursor = rows
             await self.stream.write(
-                self.ok_or_eof(flags=types.ServerStatus.SERVER_STATUS_CURSOR_EXISTS)
+                self.ok_or_eof(flags=types.ServerStatus.SERVER_STATUS_CURSOR_EXISTS),
+                drain=False,
             )
         else:
             if not self.deprecate_eof():
                 await self.stream.write(self.eof())
             async for row in rows:
                 await self.stream.write(row)
-            await self.stream.write(self.ok_or_eof())
+            await self.stream.write(self.ok_or_eof(), drain=False)
 
     async def handle_stmt_fetch(self, data: bytes) -> None:
         """
@@ -575,7 +609,8 @@ class Connection:
                     if done
                     else types.ServerStatus.SERVER_STATUS_CURSOR_EXISTS
                 )
-            )
+            ),
+            drain=False,
         )
 
     async def handle_stmt_reset(self, data: bytes) -> None:
@@ -590,7 +625,7 @@ class Connection:
         stmt.param_buffers = None
         stmt.cursor = None
         await self.session.reset()
-        await self.stream.write(self.ok())
+        await self.stream.write(self.ok(), drain=False)
 
     async def handle_stmt_close(self, data: bytes) -> None:
         """
-- 
2.43.0


From 1132f319bd11f677673437374881027590702a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:38 +0000
Subject: [PATCH 15/46] fix: close the socket of refused connections

---
 mysql_mimic/server.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/server.py b/mysql_mimic/server.py
index 6410a1e..2656a53 100644
--- a/mysql_mimic/server.py
+++ b/mysql_mimic/server.py
@@ -63,6 +63,12 @@ class MysqlServer:
     ) -> None:
         stream = MysqlStream(reader, writer)
 
+        try:
+            await self._serve(stream)
+        finally:
+            writer.close()
+
+    async def _serve(self, stream: MysqlStream) -> None:
         try:
             if inspect.iscoroutinefunction(self.session_factory):
                 session = await self.session_factory()
@@ -105,7 +111,6 @@ class MysqlServer:
         try:
             return await connection.start()
         finally:
-            writer.close()
             await self.control.remove(connection_id)
 
     async def start_server(self, **kwargs: Any) -> None:
-- 
2.43.0


From 393ed1ee15fa82c3f02a55b44b2c6e68e02d793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:38 +0000
Subject: [PATCH 16/46] fix: accept 0 as server id

---
 mysql_mimic/control.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/control.py b/mysql_mimic/control.py
index 8ef037c..81527bb 100644
--- a/mysql_mimic/control.py
+++ b/mysql_mimic/control.py
@@ -59,7 +59,9 @@ class LocalControl(Control):
     def __init__(self, server_id: Optional[int] = None):
         self._connection_seq = seq(self._MAX_CONNECTION_SEQ)
         self._connections: Dict[int, Connection] = {}
-        self.server_id = server_id or random.randint(0, self._MAX_SERVER_ID - 1)
+        if server_id is None:
+            server_id = random.randint(0, self._MAX_SERVER_ID - 1)
+        self.server_id = server_id
 
     async def add(self, connection: Connection) -> int:
         connection_id = self._new_connection_id()
-- 
2.43.0


From 81ee3e72f5ddd521f21bf96011014cedb1c72f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 17/46] fix: cursors neither skip rows between fetches nor
 survive a re-execution or failure

---
 mysql_mimic/connection.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index d230cd6..da5448d 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -529,11 +529,18 @@ class Connection:
 
         COM_STMT_EXECUTE asks the server to execute a prepared statement as identified by stmt-id.
         """
+
+        def get_stmt(stmt_id: int) -> PreparedStatement:
+            stmt = self.get_stmt(stmt_id)
+            # Executing a statement again discards its cursor, even if the execution fails
+            stmt.cursor = None
+            return stmt
+
         com_stmt_execute = packets.parse_com_stmt_execute(
             capabilities=self.capabilities,
             client_charset=self.client_charset,
             data=data,
-            get_stmt=self.get_stmt,
+            get_stmt=get_stmt,
         )
 
         com_stmt_execute.stmt.param_buffers = None
@@ -591,16 +598,23 @@ class Connection:
 
         stmt = self.get_stmt(com_stmt_fetch.stmt_id)
         assert stmt.cursor is not None
+        cursor = stmt.cursor.__aiter__()
+        # There is no way to resume a cursor that fails, or whose fetch is killed
+        stmt.cursor = None
         count = 0
+        done = False
 
-        async for packet in cooperative_iterate(stmt.cursor):
-            if count >= com_stmt_fetch.num_rows:
+        # Never take a row from the cursor that isn't part of this response
+        while count < com_stmt_fetch.num_rows:
+            try:
+                packet = await cursor.__anext__()
+            except StopAsyncIteration:
+                done = True
                 break
             await self.stream.write(packet, drain=False)
             count += 1
         await self.stream.drain()
-
-        done = count < com_stmt_fetch.num_rows
+        stmt.cursor = cursor
 
         await self.stream.write(
             self.ok_or_eof(
-- 
2.43.0


From 6b9d1c586d83909ebb9399daff1f683663da9f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 18/46] fix: infer the types of result columns that share a
 name

---
 mysql_mimic/results.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 9716207..5204da5 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -104,8 +104,9 @@ async def _ensure_result_cols(
     columns: Sequence[AllowedColumn],
 ) -> ResultSet:
     # Which columns need to be inferred?
+    # Names aren't unique, so columns are identified by their position
     remaining = {
-        col: i for i, col in enumerate(columns) if not isinstance(col, ResultColumn)
+        i: col for i, col in enumerate(columns) if not isinstance(col, ResultColumn)
     }
 
     if not remaining:
@@ -132,7 +133,7 @@ async def _ensure_result_cols(
         peeks.append(peek)
 
         inferred = []
-        for name, i in remaining.items():
+        for i, name in remaining.items():
             value = peek[i]
             if value is not None:
                 type_ = infer_type(value)
@@ -140,13 +141,13 @@ async def _ensure_result_cols(
                     name=str(name),
                     type=type_,
                 )
-                inferred.append(name)
+                inferred.append(i)
 
-        for name in inferred:
-            remaining.pop(name)
+        for i in inferred:
+            remaining.pop(i)
 
     # If we failed to find a non-null value, set the type to NULL
-    for name, i in remaining.items():
+    for i, name in remaining.items():
         columns[i] = ResultColumn(
             name=str(name),
             type=ColumnType.NULL,
-- 
2.43.0


From d0c0b78fd3b081b12c67af3cf6a52ee030bce698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:20 +0000
Subject: [PATCH 19/46] fix: encode the value of TINY columns, not its truth
 value

---
 mysql_mimic/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 5204da5..d980360 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -166,7 +166,7 @@ async def _ensure_result_cols(
 
 
 def _binary_encode_tiny(col: ResultColumn, val: Any) -> bytes:
-    return uint_1(int(bool(val)))
+    return struct.pack("<b", int(val))
 
 
 def _binary_encode_str(col: ResultColumn, val: Any) -> bytes:
@@ -342,7 +342,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.TIME2: _unsupported,
     ColumnType.TYPED_ARRAY: _unsupported,
     ColumnType.INVALID: _unsupported,
-    ColumnType.BOOL: _binary_encode_tiny,
+    ColumnType.BOOL: _text_encode_tiny,
     ColumnType.JSON: _text_encode_str,
     ColumnType.NEWDECIMAL: _text_encode_str,
     ColumnType.ENUM: _text_encode_str,
-- 
2.43.0


From 272fed286f9b3725b0db92870e5654c68af86002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 20/46] fix: encode booleans in numeric columns as numbers

---
 mysql_mimic/results.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index d980360..e25d3c3 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -292,6 +292,12 @@ def _text_encode_str(col: ResultColumn, val: Any) -> bytes:
     return val
 
 
+def _text_encode_number(col: ResultColumn, val: Any) -> bytes:
+    if isinstance(val, bool):
+        val = int(val)
+    return _text_encode_str(col, val)
+
+
 def _text_encode_tiny(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, int(val))
 
@@ -320,20 +326,20 @@ _PY_TO_MYSQL_TYPE = {
 
 
 _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
-    ColumnType.DECIMAL: _text_encode_str,
+    ColumnType.DECIMAL: _text_encode_number,
     ColumnType.TINY: _text_encode_tiny,
-    ColumnType.SHORT: _text_encode_str,
-    ColumnType.LONG: _text_encode_str,
-    ColumnType.FLOAT: _text_encode_str,
-    ColumnType.DOUBLE: _text_encode_str,
+    ColumnType.SHORT: _text_encode_number,
+    ColumnType.LONG: _text_encode_number,
+    ColumnType.FLOAT: _text_encode_number,
+    ColumnType.DOUBLE: _text_encode_number,
     ColumnType.NULL: _unsupported,
     ColumnType.TIMESTAMP: _text_encode_str,
-    ColumnType.LONGLONG: _text_encode_str,
-    ColumnType.INT24: _text_encode_str,
+    ColumnType.LONGLONG: _text_encode_number,
+    ColumnType.INT24: _text_encode_number,
     ColumnType.DATE: _text_encode_str,
     ColumnType.TIME: _text_encode_str,
     ColumnType.DATETIME: _text_encode_str,
-    ColumnType.YEAR: _text_encode_str,
+    ColumnType.YEAR: _text_encode_number,
     ColumnType.NEWDATE: _text_encode_str,
     ColumnType.VARCHAR: _text_encode_str,
     ColumnType.BIT: _text_encode_str,
@@ -344,7 +350,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.INVALID: _unsupported,
     ColumnType.BOOL: _text_encode_tiny,
     ColumnType.JSON: _text_encode_str,
-    ColumnType.NEWDECIMAL: _text_encode_str,
+    ColumnType.NEWDECIMAL: _text_encode_number,
     ColumnType.ENUM: _text_encode_str,
     ColumnType.SET: _text_encode_str,
     ColumnType.TINY_BLOB: _text_encode_str,
-- 
2.43.0


From 38dc36096dc2fceff108be3c9b68105a87674ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 21/46] fix: encode negative durations and those of a day or
 more

---
 mysql_mimic/results.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index e25d3c3..19c1680 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -250,11 +250,13 @@ def _binary_encode_double(col: ResultColumn, val: Any) -> bytes:
 
 
 def _binary_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
-    days = abs(val.days)
-    hours, remainder = divmod(abs(val.seconds), 3600)
+    is_negative = val < timedelta(0)
+    # A negative timedelta has negative days, but positive seconds and microseconds
+    val = abs(val)
+    days = val.days
+    hours, remainder = divmod(val.seconds, 3600)
     minutes, seconds = divmod(remainder, 60)
     microseconds = val.microseconds
-    is_negative = val.total_seconds() < 0
 
     if microseconds == 0:
         if days == hours == minutes == seconds == 0:
@@ -292,6 +294,19 @@ def _text_encode_str(col: ResultColumn, val: Any) -> bytes:
     return val
 
 
+def _text_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
+    if isinstance(val, timedelta):
+        sign = "-" if val < timedelta(0) else ""
+        val = abs(val)
+        minutes, seconds = divmod(val.seconds, 60)
+        hours, minutes = divmod(minutes, 60)
+        text = f"{sign}{val.days * 24 + hours:02}:{minutes:02}:{seconds:02}"
+        if val.microseconds:
+            text += f".{val.microseconds:06}"
+        val = text
+    return _text_encode_str(col, val)
+
+
 def _text_encode_number(col: ResultColumn, val: Any) -> bytes:
     if isinstance(val, bool):
         val = int(val)
@@ -337,7 +352,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.LONGLONG: _text_encode_number,
     ColumnType.INT24: _text_encode_number,
     ColumnType.DATE: _text_encode_str,
-    ColumnType.TIME: _text_encode_str,
+    ColumnType.TIME: _text_encode_timedelta,
     ColumnType.DATETIME: _text_encode_str,
     ColumnType.YEAR: _text_encode_number,
     ColumnType.NEWDATE: _text_encode_str,
-- 
2.43.0


From f70cc3787a0a5a8797338b486841b75ad6f73f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 22/46] fix: don't append the UTC offset to datetimes in the
 text protocol

---
 mysql_mimic/results.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 19c1680..ac1eb8e 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -307,6 +307,13 @@ def _text_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, val)
 
 
+def _text_encode_datetime(col: ResultColumn, val: Any) -> bytes:
+    if isinstance(val, datetime):
+        # MySQL has no notation for the UTC offset of a result
+        val = val.replace(tzinfo=None)
+    return _text_encode_str(col, val)
+
+
 def _text_encode_number(col: ResultColumn, val: Any) -> bytes:
     if isinstance(val, bool):
         val = int(val)
@@ -348,12 +355,12 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.FLOAT: _text_encode_number,
     ColumnType.DOUBLE: _text_encode_number,
     ColumnType.NULL: _unsupported,
-    ColumnType.TIMESTAMP: _text_encode_str,
+    ColumnType.TIMESTAMP: _text_encode_datetime,
     ColumnType.LONGLONG: _text_encode_number,
     ColumnType.INT24: _text_encode_number,
     ColumnType.DATE: _text_encode_str,
     ColumnType.TIME: _text_encode_timedelta,
-    ColumnType.DATETIME: _text_encode_str,
+    ColumnType.DATETIME: _text_encode_datetime,
     ColumnType.YEAR: _text_encode_number,
     ColumnType.NEWDATE: _text_encode_str,
     ColumnType.VARCHAR: _text_encode_str,
-- 
2.43.0


From 970dbdaa8de64559afefda8f1ae7c5a5acb01484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 23/46] fix: accept any async iterable as row source

---
 mysql_mimic/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index e1444af..228fab3 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -1,9 +1,8 @@
 from __future__ import annotations
 
 import asyncio
-import inspect
 import sys
-from collections.abc import Iterator
+from collections.abc import AsyncIterable as AsyncIterableABC, Iterator
 import random
 from typing import List, TypeVar, AsyncIterable, Iterable, AsyncIterator, cast
 import string
@@ -103,7 +102,7 @@ def dict_depth(d: dict) -> int:
 
 async def aiterate(iterable: AsyncIterable[T] | Iterable[T]) -> AsyncIterator[T]:
     """Iterate either an async iterable or a regular iterable"""
-    if inspect.isasyncgen(iterable):
+    if isinstance(iterable, AsyncIterableABC):
         async for item in iterable:
             yield item
     else:
-- 
2.43.0


From 09db69f46177aaf70e31b6682b4d8d2e6d7f5dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 24/46] fix: yield to other connections while peeking rows for
 type inference

---
 mysql_mimic/results.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index ac1eb8e..3643526 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -20,7 +20,7 @@ from typing import (
 from mysql_mimic.errors import MysqlError
 from mysql_mimic.types import ColumnType, str_len, uint_1, uint_2, uint_4
 from mysql_mimic.charset import CharacterSet
-from mysql_mimic.utils import aiterate
+from mysql_mimic.utils import aiterate, cooperative_iterate
 
 Encoder = Callable[[Any, "ResultColumn"], bytes]
 
@@ -118,7 +118,8 @@ async def _ensure_result_cols(
     # Copy the columns
     columns = list(columns)
 
-    arows = aiterate(rows)
+    # Many rows may have to be peeked, so let other connections proceed meanwhile
+    arows = cooperative_iterate(aiterate(rows))
 
     # Keep track of rows we've consumed from the iterator so we can add them back
     peeks = []
-- 
2.43.0


From 26e35487c38a2d237399a68a7170474c60a1859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 25/46] fix: bind statement parameters as literals, never as
 SQL

---
 mysql_mimic/connection.py |  4 ++--
 mysql_mimic/packets.py    | 43 ++++++++++++++++++++++++++++++++----
 mysql_mimic/prepared.py   | 46 ++++++++++++++++++++++++++++++++++-----
 3 files changed, 82 insertions(+), 11 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index da5448d..c3d31fb 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -21,7 +21,7 @@ from mysql_mimic.packets import (
     parse_com_field_list,
     make_column_definition_41,
 )
-from mysql_mimic.prepared import PreparedStatement, REGEX_PARAM
+from mysql_mimic.prepared import PreparedStatement, find_params
 from mysql_mimic.results import ensure_result_set, ResultSet
 from mysql_mimic import types, packets, context
 from mysql_mimic.schema import com_field_list_to_show_statement
@@ -493,7 +493,7 @@ class Connection:
         sql = self.client_charset.decode(data)
 
         stmt_id = next(self.prepared_stmt_seq)
-        num_params = len(REGEX_PARAM.findall(sql))
+        num_params = len(find_params(sql))
 
         stmt = PreparedStatement(
             stmt_id=stmt_id,
diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 9793269..5e5194b 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -1,11 +1,12 @@
 import io
+import math
 from dataclasses import dataclass, field
 from typing import Optional, Dict, Any, Sequence, Callable, Tuple, List, Union
 
 from mysql_mimic.charset import Collation, CharacterSet
 from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES
 from mysql_mimic.errors import ErrorCode, get_sqlstate, MysqlError
-from mysql_mimic.prepared import PreparedStatement, REGEX_PARAM
+from mysql_mimic.prepared import PreparedStatement, find_params
 from mysql_mimic.results import NullBitmap, ResultColumn
 from mysql_mimic.types import (
     Capabilities,
@@ -522,6 +523,11 @@ def _interpolate_params(
         if Capabilities.CLIENT_QUERY_ATTRIBUTES in capabilities:
             parameter_count = read_uint_len(reader)
 
+    if parameter_count < stmt.num_params:
+        raise MysqlError(
+            "Fewer parameters than placeholders", ErrorCode.MALFORMED_PACKET
+        )
+
     if parameter_count > 0:
         # When there are query attributes, they are combined with statement parameters.
         # The statement parameters will be first, query attributes second.
@@ -529,17 +535,46 @@ def _interpolate_params(
             capabilities, client_charset, reader, parameter_count, stmt.param_buffers
         )
 
-        for _, value in params[: stmt.num_params]:
-            sql = REGEX_PARAM.sub(_encode_param_as_sql(value), sql, 1)
+        sql = _replace_params(sql, [value for _, value in params[: stmt.num_params]])
 
         query_attrs = {k: v for k, v in params[stmt.num_params :] if k is not None}
 
     return sql, query_attrs
 
 
+def _replace_params(sql: str, values: Sequence[Any]) -> str:
+    parts: List[str] = []
+    end = 0
+    for position, value in zip(find_params(sql), values):
+        before, after = sql[end:position], sql[position + 1 : position + 2]
+        literal = _encode_param_as_sql(value)
+
+        # Don't let the literal become part of an adjacent token, e.g. of "x'" or "--"
+        previous = before[-1:] or (parts[-1][-1:] if parts else "")
+        if _is_token_char(previous) or (previous == "-" and literal[0] == "-"):
+            literal = " " + literal
+        if _is_token_char(after):
+            literal = literal + " "
+
+        parts.append(before)
+        parts.append(literal)
+        end = position + 1
+    parts.append(sql[end:])
+    return "".join(parts)
+
+
+def _is_token_char(char: str) -> bool:
+    return char.isalnum() or (char != "" and char in "_$@.'\"`")
+
+
 def _encode_param_as_sql(param: Any) -> str:
     if isinstance(param, str):
-        return f"'{param}'"
+        escaped = param.replace("\\", "\\\\").replace("'", "''")
+        return f"'{escaped}'"
+    if isinstance(param, float) and not math.isfinite(param):
+        raise MysqlError(
+            f"Unsupported parameter value: {param}", ErrorCode.NOT_SUPPORTED_YET
+        )
     if param is None:
         return "NULL"
     if param is True:
diff --git a/mysql_mimic/prepared.py b/mysql_mimic/prepared.py
index 925efba..0541c90 100644
--- a/mysql_mimic/prepared.py
+++ b/mysql_mimic/prepared.py
@@ -1,9 +1,5 @@
-import re
 from dataclasses import dataclass
-from typing import Optional, Dict, AsyncIterable
-
-# Borrowed from mysql-connector-python
-REGEX_PARAM = re.compile(r"""\?(?=(?:[^"'`]*["'`][^"'`]*["'`])*[^"'`]*$)""")
+from typing import Optional, Dict, AsyncIterable, List
 
 
 @dataclass
@@ -13,3 +9,43 @@ class PreparedStatement:
     num_params: int
     param_buffers: Optional[Dict[int, bytearray]] = None
     cursor: Optional[AsyncIterable[bytes]] = None
+
+
+def find_params(sql: str) -> List[int]:
+    """
+    Find the parameter placeholders of a statement.
+
+    Question marks within quoted strings, quoted identifiers and comments are not placeholders.
+
+    Returns:
+        Positions of the placeholders in `sql`, in order
+    """
+    positions = []
+    i = 0
+    while i < len(sql):
+        char = sql[i]
+        if char in "'\"`":
+            i = _skip_quoted(sql, i)
+        elif char == "#" or sql.startswith("--", i):
+            i = _skip_past(sql, "\n", i)
+        elif sql.startswith("/*", i):
+            i = _skip_past(sql, "*/", i + 2)
+        else:
+            if char == "?":
+                positions.append(i)
+            i += 1
+    return positions
+
+
+def _skip_quoted(sql: str, start: int) -> int:
+    quote = sql[start]
+    i = start + 1
+    while i < len(sql) and sql[i] != quote:
+        # Backslash is not an escape character in identifiers
+        i += 2 if sql[i] == "\\" and quote != "`" else 1
+    return i + 1
+
+
+def _skip_past(sql: str, end: str, start: int) -> int:
+    i = sql.find(end, start)
+    return len(sql) if i < 0 else i + len(end)
-- 
2.43.0


From 6c2c585ffcc75a801088f0f9d32b6654a7c6f597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 26/46] fix: use the codecs that encode what MySQL's character
 sets encode

---
 mysql_mimic/charset.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/charset.py b/mysql_mimic/charset.py
index 5e971a8..58a5eaf 100644
--- a/mysql_mimic/charset.py
+++ b/mysql_mimic/charset.py
@@ -2,6 +2,26 @@ from __future__ import annotations
 from enum import IntEnum
 
 
+# Python codecs of the character sets whose name isn't the name of the same codec in Python
+CODECS = {
+    "utf8mb4": "utf8",
+    "ucs2": "utf-16-be",
+    # In Python, "utf16" and "utf32" stand for native byte order with a byte order mark
+    "utf16": "utf-16-be",
+    "utf16le": "utf-16-le",
+    "utf32": "utf-32-be",
+    "hp8": "hp-roman8",
+    "koi8r": "koi8-r",
+    "koi8u": "koi8-u",
+    "macce": "mac-latin2",
+    "macroman": "mac-roman",
+    "ujis": "euc-jp",
+    "eucjpms": "euc-jp",
+    # No conversion, i.e. the encoding that the server uses internally
+    "binary": "utf8",
+}
+
+
 class CharacterSet(IntEnum):
     big5 = 1
     dec8 = 3
@@ -47,9 +67,7 @@ class CharacterSet(IntEnum):
 
     @property
     def codec(self) -> str:
-        if self.name == "utf8mb4":
-            return "utf8"
-        return self.name
+        return CODECS.get(self.name, self.name)
 
     @property
     def default_collation(self) -> Collation:
-- 
2.43.0


From c093f77962662d8efc3cdc31492e8a117feec81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 27/46] fix: match LIKE patterns as SQL does, in linear space
 and without backtracking blow-up

---
 mysql_mimic/schema.py  | 64 +++++++++++++++++++++++++++++++++++++-----
 mysql_mimic/session.py |  4 +--
 2 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 5d7f587..adb9624 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -1,12 +1,16 @@
 from __future__ import annotations
 
-import re
 from collections import defaultdict
 from itertools import chain
 from dataclasses import dataclass
 from typing import Any, Optional, List, Dict, Iterable
 
-from sqlglot.executor import Table, execute
+from sqlglot.executor import Table
+from sqlglot.executor.python import PythonExecutor
+from sqlglot.executor.table import ensure_tables
+from sqlglot.optimizer import optimize
+from sqlglot.planner import Plan
+from sqlglot.schema import ensure_schema
 from sqlglot import expressions as exp
 
 from mysql_mimic.constants import INFO_SCHEMA
@@ -264,10 +268,39 @@ def com_field_list_to_show_statement(com_field_list: ComFieldList) -> str:
     return show.sql(dialect="mysql")
 
 
-def like_to_regex(like: str) -> re.Pattern:
-    like = like.replace("%", ".*?")
-    like = like.replace("_", ".")
-    return re.compile(like)
+def like_match(value: str, pattern: str) -> bool:
+    """
+    Match a whole string against a SQL LIKE pattern.
+
+    `%` matches any number of characters and `_` matches exactly one. Backslash escapes them.
+    """
+    # (character, is_wildcard) pairs
+    tokens = []
+    i = 0
+    while i < len(pattern):
+        if pattern[i] == "\\" and i + 1 < len(pattern):
+            i += 1
+            tokens.append((pattern[i], False))
+        else:
+            tokens.append((pattern[i], pattern[i] in "%_"))
+        i += 1
+
+    v = t = 0
+    # Where to resume if the characters after the last `%` don't match
+    resume_v, resume_t = 0, -1
+    while v < len(value):
+        if t < len(tokens) and tokens[t] == ("%", True):
+            resume_v, resume_t = v, t + 1
+            t += 1
+        elif t < len(tokens) and tokens[t] in (("_", True), (value[v], False)):
+            v += 1
+            t += 1
+        elif resume_t >= 0:
+            resume_v += 1
+            v, t = resume_v, resume_t
+        else:
+            return False
+    return all(token == ("%", True) for token in tokens[t:])
 
 
 class BaseInfoSchema:
@@ -288,7 +321,7 @@ class InfoSchema(BaseInfoSchema):
 
     async def query(self, expression: exp.Expression) -> AllowedResult:
         expression = self._preprocess(expression)
-        result = execute(expression, schema=INFO_SCHEMA, tables=self.tables)
+        result = _execute(expression, self.tables)
         return result.rows, result.columns
 
     @classmethod
@@ -306,6 +339,23 @@ def ensure_info_schema(schema: dict | BaseInfoSchema) -> BaseInfoSchema:
     return InfoSchema.from_mapping(schema)
 
 
+def _execute(
+    expression: exp.Expression, tables: Dict[str, Dict[str, Table]]
+) -> Table:
+    """Same as `sqlglot.executor.execute`, but with the LIKE semantics of SQL"""
+    optimized = optimize(
+        expression, ensure_schema(INFO_SCHEMA), leave_tables_isolated=True
+    )
+    executor = PythonExecutor(env={"LIKE": _like}, tables=ensure_tables(tables))
+    return executor.execute(Plan(optimized))
+
+
+def _like(value: Any, pattern: Any) -> Optional[bool]:
+    if value is None or pattern is None:
+        return None
+    return like_match(str(value), str(pattern))
+
+
 def _remove_collate(node: exp.Expression) -> exp.Expression:
     """
     SQLGlot's executor doesn't support collation specifiers.
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 0fdb119..b485e90 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -28,7 +28,7 @@ from mysql_mimic.intercept import (
 )
 from mysql_mimic.schema import (
     show_statement_to_info_schema_query,
-    like_to_regex,
+    like_match,
     BaseInfoSchema,
     ensure_info_schema,
 )
@@ -580,7 +580,7 @@ class Session(BaseSession):
         rows = [(k, None if v is None else str(v)) for k, v in self.variables.list()]
         like = show.text("like")
         if like:
-            rows = [(k, v) for k, v in rows if like_to_regex(like).match(k)]
+            rows = [(k, v) for k, v in rows if like_match(k, like)]
         return rows, ["Variable_name", "Value"]
 
     def _show_status(self, show: exp.Show) -> AllowedResult:
-- 
2.43.0


From 8d9ea44c5f2dcefb892560dd1cc99129203cde57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 28/46] fix: list databases without tables and tables without
 columns

---
 mysql_mimic/schema.py | 27 +++++++++++++++++++++------
 mysql_mimic/utils.py  |  5 +----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index adb9624..2674155 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -32,11 +32,11 @@ class Column:
     catalog: Optional[str] = "def"
 
 
-def mapping_to_columns(schema: dict) -> List[Column]:
-    """Convert a schema mapping into a list of Column instances"""
+def _normalize_mapping(schema: dict) -> dict:
+    """Convert a schema mapping into {catalog: {db: {table: {col: type}}}}"""
     depth = dict_depth(schema)
     if depth < 2:
-        return []
+        return {}
     if depth == 2:
         # {table: {col: type}}
         schema = {"": schema}
@@ -47,9 +47,13 @@ def mapping_to_columns(schema: dict) -> List[Column]:
         depth += 1
     if depth != 4:
         raise MysqlError("Invalid schema mapping")
+    return schema
 
+
+def mapping_to_columns(schema: dict) -> List[Column]:
+    """Convert a schema mapping into a list of Column instances"""
     result = []
-    for catalog, dbs in schema.items():
+    for catalog, dbs in _normalize_mapping(schema).items():
         for db, tables in dbs.items():
             for table, cols in tables.items():
                 for column, coltype in cols.items():
@@ -66,11 +70,17 @@ def mapping_to_columns(schema: dict) -> List[Column]:
     return result
 
 
-def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]:
+def info_schema_tables(
+    columns: Iterable[Column], mapping: Optional[dict] = None
+) -> Dict[str, Dict[str, Table]]:
     """
     Convert a list of Column instances into a mapping of SQLGlot Tables.
 
     These Tables are used by SQLGlot to execute INFORMATION_SCHEMA queries.
+
+    Args:
+        columns: columns of the schema
+        mapping: schema mapping, which may declare databases without tables and tables without columns
     """
     ordinal_positions: dict[Any, int] = defaultdict(lambda: 0)
 
@@ -83,6 +93,11 @@ def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]
     dbs = set()
     catalogs = set()
 
+    for catalog, catalog_dbs in _normalize_mapping(mapping or {}).items():
+        for db, db_tables in catalog_dbs.items():
+            dbs.add((catalog, db))
+            tables.update((catalog, db, table) for table in db_tables)
+
     info_schema_cols = mapping_to_columns(INFO_SCHEMA)
 
     for column in chain(columns, info_schema_cols):
@@ -327,7 +342,7 @@ class InfoSchema(BaseInfoSchema):
     @classmethod
     def from_mapping(cls, mapping: dict) -> InfoSchema:
         columns = mapping_to_columns(mapping)
-        return cls(info_schema_tables(columns))
+        return cls(info_schema_tables(columns, mapping))
 
     def _preprocess(self, expression: exp.Expression) -> exp.Expression:
         return expression.transform(_remove_collate)
diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index 228fab3..b995250 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -91,13 +91,10 @@ def dict_depth(d: dict) -> int:
         int: depth
     """
     try:
-        return 1 + dict_depth(next(iter(d.values())))
+        return 1 + max((dict_depth(value) for value in d.values()), default=0)
     except AttributeError:
         # d doesn't have attribute "values"
         return 0
-    except StopIteration:
-        # d.values() returns an empty sequence
-        return 1
 
 
 async def aiterate(iterable: AsyncIterable[T] | Iterable[T]) -> AsyncIterator[T]:
-- 
2.43.0


From f32685cf4d4bb6a2d0c0be4fa1cbfab62f2245cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 29/46] fix: select the rows of SHOW statements by exactly the
 names and patterns given

---
 mysql_mimic/schema.py  | 30 +++++++++++++++++++-----------
 mysql_mimic/session.py |  4 ++--
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 2674155..37d7ba8 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -205,14 +205,14 @@ def show_statement_to_info_schema_query(
         select = (
             exp.select(*outputs)
             .from_("information_schema.columns")
-            .where(f"table_name = '{table}'")
+            .where(_equals("table_name", table))
         )
         db = show.text("db") or database
         if db:
-            select = select.where(f"table_schema = '{db}'")
-        like = show.text("like")
+            select = select.where(_equals("table_schema", db))
+        like = show.args.get("like")
         if like:
-            select = select.where(f"column_name LIKE '{like}'")
+            select = select.where(_matches("column_name", like.name))
     elif kind == "TABLES":
         outputs = ['table_name AS "Table_name"']
         if show.args.get("full"):
@@ -222,17 +222,17 @@ def show_statement_to_info_schema_query(
         db = show.text("db") or database
         if not db:
             raise MysqlError("No database selected.", code=ErrorCode.NO_DB_ERROR)
-        select = select.where(f"table_schema = '{db}'")
-        like = show.text("like")
+        select = select.where(_equals("table_schema", db))
+        like = show.args.get("like")
         if like:
-            select = select.where(f"table_name LIKE '{like}'")
+            select = select.where(_matches("table_name", like.name))
     elif kind == "DATABASES":
         select = exp.select('schema_name AS "Database"').from_(
             "information_schema.schemata"
         )
-        like = show.text("like")
+        like = show.args.get("like")
         if like:
-            select = select.where(f"schema_name LIKE '{like}'")
+            select = select.where(_matches("schema_name", like.name))
     elif kind == "INDEX":
         outputs = [
             '"table_name" AS Table',
@@ -260,11 +260,11 @@ def show_statement_to_info_schema_query(
         select = (
             exp.select(*outputs)
             .from_("information_schema.statistics")
-            .where(f"table_name = '{table}'")
+            .where(_equals("table_name", table))
         )
         db = show.text("db") or database
         if db:
-            select = select.where(f"table_schema = '{db}'")
+            select = select.where(_equals("table_schema", db))
     else:
         raise MysqlError(
             f"Unsupported SHOW command: {kind}", code=ErrorCode.NOT_SUPPORTED_YET
@@ -273,6 +273,14 @@ def show_statement_to_info_schema_query(
     return select
 
 
+def _equals(column: str, value: str) -> exp.Expression:
+    return exp.EQ(this=exp.column(column), expression=exp.Literal.string(value))
+
+
+def _matches(column: str, pattern: str) -> exp.Expression:
+    return exp.Like(this=exp.column(column), expression=exp.Literal.string(pattern))
+
+
 def com_field_list_to_show_statement(com_field_list: ComFieldList) -> str:
     show = exp.Show(
         this="COLUMNS",
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index b485e90..079f61c 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -578,9 +578,9 @@ class Session(BaseSession):
 
     def _show_variables(self, show: exp.Show) -> AllowedResult:
         rows = [(k, None if v is None else str(v)) for k, v in self.variables.list()]
-        like = show.text("like")
+        like = show.args.get("like")
         if like:
-            rows = [(k, v) for k, v in rows if like_match(k, like)]
+            rows = [(k, v) for k, v in rows if like_match(k, like.name)]
         return rows, ["Variable_name", "Value"]
 
     def _show_status(self, show: exp.Show) -> AllowedResult:
-- 
2.43.0


From 132baea7db75bfe7c7139d86598f023aa70c5f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 30/46] fix: support IN as a synonym of FROM in SHOW statements

---
 mysql_mimic/intercept.py | 30 ++++++++++++++++++++++++++++++
 mysql_mimic/session.py   |  5 ++++-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/intercept.py b/mysql_mimic/intercept.py
index 26e77c0..5aad98a 100644
--- a/mysql_mimic/intercept.py
+++ b/mysql_mimic/intercept.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from typing import Any
 
 from sqlglot import expressions as exp
+from sqlglot.tokens import Token, TokenType
 
 from mysql_mimic.errors import MysqlError, ErrorCode
 from mysql_mimic.variables import DEFAULT
@@ -19,6 +20,35 @@ TRANSACTION_CHARACTERISTICS = {
 }
 
 
+def replace_show_in(tokens: list[Token]) -> list[Token]:
+    """
+    Replace IN with its synonym FROM in SHOW statements.
+
+    SQLGlot only knows about the latter.
+    """
+    result = []
+    is_show = False
+    previous = TokenType.SEMICOLON
+    for token in tokens:
+        if previous == TokenType.SEMICOLON:
+            is_show = token.token_type == TokenType.SHOW
+        elif token.token_type in {TokenType.LIKE, TokenType.WHERE}:
+            is_show = False
+        previous = token.token_type
+        if is_show and token.token_type == TokenType.IN:
+            token = Token(
+                TokenType.FROM,
+                "FROM",
+                token.line,
+                token.col,
+                token.start,
+                token.end,
+                token.comments,
+            )
+        result.append(token)
+    return result
+
+
 def setitem_kind(setitem: exp.SetItem) -> str:
     kind = setitem.text("kind")
     if not kind:
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 079f61c..38d0597 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -21,6 +21,7 @@ from sqlglot.executor import execute
 from mysql_mimic.charset import CharacterSet
 from mysql_mimic.errors import ErrorCode, MysqlError
 from mysql_mimic.intercept import (
+    replace_show_in,
     setitem_kind,
     value_to_expression,
     expression_to_value,
@@ -305,7 +306,9 @@ class Session(BaseSession):
         self.database = database
 
     def _parse(self, sql: str) -> List[exp.Expression]:
-        return [e for e in self.dialect().parse(sql) if e]
+        dialect = self.dialect()
+        tokens = replace_show_in(dialect.tokenize(sql))
+        return [e for e in dialect.parser().parse(tokens, sql) if e]
 
     async def _query_info_schema(self, expression: exp.Expression) -> AllowedResult:
         return await ensure_info_schema(await self.schema()).query(expression)
-- 
2.43.0


From a11e723c8e52c4f0a15c6f54d52c5a28360c74ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 31/46] fix: DESCRIBE exactly the named table, also of another
 database

---
 mysql_mimic/session.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 38d0597..5747ec2 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -396,12 +396,14 @@ class Session(BaseSession):
     async def _describe_middleware(self, q: Query) -> AllowedResult:
         """Intercept DESCRIBE statements"""
         if isinstance(q.expression, exp.Describe):
-            if isinstance(q.expression.this, exp.Select):
+            table = q.expression.this
+            if not isinstance(table, exp.Table):
                 # Mysql parse treats EXPLAIN SELECT as a DESCRIBE SELECT statement
                 return await q.next()
-            name = q.expression.this.name
-            show = self.dialect().parse(f"SHOW COLUMNS FROM {name}")[0]
-            return await self._show(show) if isinstance(show, exp.Show) else None
+            show = exp.Show(
+                this="COLUMNS", target=table.this, db=table.args.get("db")
+            )
+            return await self._show(show)
         return await q.next()
 
     async def _rollback_middleware(self, q: Query) -> AllowedResult:
-- 
2.43.0


From 6704c036de8bf4dd23360f6e463e9b9b285783b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 32/46] fix: don't hand comments after the last statement to
 the application

---
 mysql_mimic/session.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 5747ec2..ad2bb94 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -308,7 +308,12 @@ class Session(BaseSession):
     def _parse(self, sql: str) -> List[exp.Expression]:
         dialect = self.dialect()
         tokens = replace_show_in(dialect.tokenize(sql))
-        return [e for e in dialect.parser().parse(tokens, sql) if e]
+        return [
+            e
+            for e in dialect.parser().parse(tokens, sql)
+            # A trailing comment isn't a statement
+            if e and e.key != "semicolon"
+        ]
 
     async def _query_info_schema(self, expression: exp.Expression) -> AllowedResult:
         return await ensure_info_schema(await self.schema()).query(expression)
-- 
2.43.0


From 5d9f833cad2f90b5dca6942babcdcf4de6902790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:06 +0000
Subject: [PATCH 33/46] fix: answer SET and SHOW statements that SQLGlot can't
 parse instead of handing them to the application

---
 mysql_mimic/session.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index ad2bb94..9184543 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -381,6 +381,11 @@ class Session(BaseSession):
 
     async def _show_middleware(self, q: Query) -> AllowedResult:
         """Intercept SHOW statements"""
+        if _is_command(q.expression, "SHOW"):
+            raise MysqlError(
+                f"Unsupported SHOW command: {q.expression.text('expression')}",
+                code=ErrorCode.NOT_SUPPORTED_YET,
+            )
         if isinstance(q.expression, exp.Show):
             return await self._show(q.expression)
         return await q.next()
@@ -490,6 +495,11 @@ class Session(BaseSession):
 
     async def _set_middleware(self, q: Query) -> AllowedResult:
         """Intercept SET statements"""
+        if _is_command(q.expression, "SET"):
+            raise MysqlError(
+                f"Unsupported SET statement: {q.expression.text('expression')}",
+                code=ErrorCode.NOT_SUPPORTED_YET,
+            )
         if isinstance(q.expression, exp.Set):
             expressions = q.expression.expressions
             for item in expressions:
@@ -605,3 +615,8 @@ class Session(BaseSession):
     def timezone(self) -> timezone_:
         tz = self.variables.get("time_zone")
         return parse_timezone(tz)
+
+
+def _is_command(expression: exp.Expression, name: str) -> bool:
+    # SQLGlot parses statements with syntax it doesn't know as commands
+    return isinstance(expression, exp.Command) and expression.name.upper() == name
-- 
2.43.0


From 8d11b9580cba9ab3c13c64068aabd5bac85ce84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 34/46] fix: answer all FROM-less SELECTs, but not those with
 subqueries on tables

---
 mysql_mimic/session.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 9184543..f5e0f2c 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -485,11 +485,13 @@ class Session(BaseSession):
 
         These very common, as many clients execute commands like SELECT DATABASE() when connecting.
         """
-        if isinstance(q.expression, exp.Select) and not any(
-            q.expression.args.get(a)
-            for a in set(exp.Select.arg_types) - {"expressions", "limit", "hint"}
+        if (
+            isinstance(q.expression, exp.Select)
+            and not any(q.expression.args.get(a) for a in ("from", "into", "locks"))
+            and not q.expression.find(exp.Table)
         ):
-            result = execute(q.expression)
+            # SQLGlot can't execute all clauses without a table
+            result = execute(q.expression.from_("_dual"), tables={"_dual": [{"_": 0}]})
             return result.rows, result.columns
         return await q.next()
 
-- 
2.43.0


From c41b3777619a8516ded714e3e70049d9fbbe6d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 35/46] fix: intercept exactly the queries that only read
 catalog databases

---
 mysql_mimic/session.py | 16 +++++++++++-----
 mysql_mimic/utils.py   | 39 ++++++++++++++++++++++-----------------
 2 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index f5e0f2c..7f5483e 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -34,7 +34,7 @@ from mysql_mimic.schema import (
     ensure_info_schema,
 )
 from mysql_mimic.constants import INFO_SCHEMA, KillKind
-from mysql_mimic.utils import find_dbs
+from mysql_mimic.utils import find_tables
 from mysql_mimic.variables import (
     Variables,
     SessionVariables,
@@ -528,11 +528,17 @@ class Session(BaseSession):
 
     async def _info_schema_middleware(self, q: Query) -> AllowedResult:
         """Intercept queries to INFORMATION_SCHEMA tables"""
-        dbs = find_dbs(q.expression)
-        if (self.database and self.database.lower() in INFO_SCHEMA) or (
-            dbs and all(db.lower() in INFO_SCHEMA for db in dbs)
+        if isinstance(
+            q.expression,
+            (exp.Select, exp.Subquery, exp.Union, exp.Except, exp.Intersect),
         ):
-            return await self._query_info_schema(q.expression)
+            tables = find_tables(q.expression)
+            dbs = {table.text("db") or self.database or "" for table in tables}
+            if dbs and all(db.lower() in INFO_SCHEMA for db in dbs):
+                for table in tables:
+                    if not table.text("db"):
+                        table.set("db", exp.to_identifier(self.database))
+                return await self._query_info_schema(q.expression)
         return await q.next()
 
     def _set_variable(self, setitem: exp.SetItem) -> None:
diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index b995250..dfd84bd 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -8,7 +8,6 @@ from typing import List, TypeVar, AsyncIterable, Iterable, AsyncIterator, cast
 import string
 
 from sqlglot import expressions as exp
-from sqlglot.optimizer.scope import traverse_scope
 
 
 T = TypeVar("T")
@@ -53,22 +52,28 @@ def nonce(nbytes: int) -> bytes:
 
 
 def find_tables(expression: exp.Expression) -> List[exp.Table]:
-    """Find all tables in an expression"""
-    if isinstance(
-        expression, (exp.Select, exp.Subquery, exp.Union, exp.Except, exp.Intersect)
-    ):
-        return [
-            source
-            for scope in traverse_scope(expression)
-            for source in scope.sources.values()
-            if isinstance(source, exp.Table)
-        ]
-    return []
-
-
-def find_dbs(expression: exp.Expression) -> List[str]:
-    """Find all database names in an expression"""
-    return [table.text("db") for table in find_tables(expression)]
+    """Find all tables in an expression, i.e. not the references to its CTEs"""
+    return [
+        table for table in expression.find_all(exp.Table) if not _is_cte_name(table)
+    ]
+
+
+def _is_cte_name(table: exp.Table) -> bool:
+    if table.text("db"):
+        return False
+    node: exp.Expression = table
+    while node.parent:
+        parent = node.parent
+        with_ = parent if isinstance(parent, exp.With) else parent.args.get("with")
+        if with_ and node is not with_:
+            ctes = with_.expressions
+            if parent is with_ and not with_.args.get("recursive"):
+                # Only the preceding CTEs are visible in a CTE
+                ctes = ctes[: next(i for i, cte in enumerate(ctes) if cte is node)]
+            if any(cte.alias.lower() == table.name.lower() for cte in ctes):
+                return True
+        node = parent
+    return False
 
 
 def dict_depth(d: dict) -> int:
-- 
2.43.0


From 0fb56a01dbd14adcb338a882c207ad574d661326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 36/46] fix: restore every variable of a SET_VAR hint, and
 don't leave hints behind

---
 mysql_mimic/session.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 7f5483e..4fa9f82 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -328,15 +328,16 @@ class Session(BaseSession):
 
         # Iterate in reverse order so higher SET_VAR hints get priority
         for hint in reversed(list(hints)):
-            set_var_hint = None
-
-            for e in hint.expressions:
-                if isinstance(e, exp.Func) and e.name == "SET_VAR":
-                    set_var_hint = e
-                    for eq in e.expressions:
-                        assignments[eq.left.name] = expression_to_value(eq.right)
-
-            if set_var_hint:
+            set_var_hints = [
+                e
+                for e in hint.expressions
+                if isinstance(e, exp.Func) and e.name.upper() == "SET_VAR"
+            ]
+
+            for set_var_hint in set_var_hints:
+                for eq in set_var_hint.expressions:
+                    name = eq.left.name.lower()
+                    assignments[name] = expression_to_value(eq.right)
                 set_var_hint.pop()
 
             # Remove the hint entirely if SET_VAR was the only expression
@@ -350,7 +351,8 @@ class Session(BaseSession):
             return await q.next()
         finally:
             for k, v in orig.items():
-                self.variables.set(k, v)
+                # Read-only variables, too: the assignment failed, but others have to be restored
+                self.variables.set(k, v, force=True)
 
     async def _use_middleware(self, q: Query) -> AllowedResult:
         """Intercept USE statements"""
-- 
2.43.0


From ae76b615f1a1f710bc87fa414b64184d46176d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:59 +0000
Subject: [PATCH 37/46] fix: apply the current time zone to NOW(), CURDATE()
 and CURTIME()

---
 mysql_mimic/session.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 4fa9f82..cf63b33 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -192,9 +192,9 @@ class Session(BaseSession):
             "CURRENT_USER": lambda: self.username,
             "VERSION": lambda: self.variables.get("version"),
             "DATABASE": lambda: self.database,
-            "NOW": lambda: self.timestamp.strftime("%Y-%m-%d %H:%M:%S"),
-            "CURDATE": lambda: self.timestamp.strftime("%Y-%m-%d"),
-            "CURTIME": lambda: self.timestamp.strftime("%H:%M:%S"),
+            "NOW": lambda: self._now().strftime("%Y-%m-%d %H:%M:%S"),
+            "CURDATE": lambda: self._now().strftime("%Y-%m-%d"),
+            "CURTIME": lambda: self._now().strftime("%H:%M:%S"),
         }
         # Synonyms
         self._functions.update(
@@ -622,6 +622,10 @@ class Session(BaseSession):
     def _show_errors(self, show: exp.Show) -> AllowedResult:
         return [], ["Level", "Code", "Message"]
 
+    def _now(self) -> datetime:
+        # The time zone may have changed since the query started
+        return self.timestamp.astimezone(self.timezone())
+
     def timezone(self) -> timezone_:
         tz = self.variables.get("time_zone")
         return parse_timezone(tz)
-- 
2.43.0


From 3d5e38c420c435e840981584aaafc859bdb9bdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 38/46] fix: treat the keywords DEFAULT, ON and OFF of SET
 statements as case-insensitive

---
 mysql_mimic/intercept.py | 7 ++++---
 mysql_mimic/session.py   | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/intercept.py b/mysql_mimic/intercept.py
index 5aad98a..b0e60d8 100644
--- a/mysql_mimic/intercept.py
+++ b/mysql_mimic/intercept.py
@@ -86,11 +86,12 @@ def expression_to_value(expression: exp.Expression) -> Any:
             return float(expression.this)
     if isinstance(expression, exp.Literal):
         return expression.name
-    if expression.name == "DEFAULT":
+    name = expression.name.upper()
+    if name == "DEFAULT":
         return DEFAULT
-    if expression.name == "ON":
+    if name == "ON":
         return True
-    if expression.name == "OFF":
+    if name == "OFF":
         return False
     raise MysqlError(
         "Complex expressions in variables not supported yet",
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index cf63b33..25a10c0 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -573,7 +573,7 @@ class Session(BaseSession):
     def _set_charset(self, item: exp.SetItem) -> None:
         charset_name: Any
         charset_conn: Any
-        if item.name == "DEFAULT":
+        if item.name.upper() == "DEFAULT":
             charset_name = DEFAULT
             charset_conn = DEFAULT
         else:
@@ -586,7 +586,7 @@ class Session(BaseSession):
     def _set_names(self, item: exp.SetItem) -> None:
         charset_name: Any
         collation_name: Any
-        if item.name == "DEFAULT":
+        if item.name.upper() == "DEFAULT":
             charset_name = DEFAULT
             collation_name = DEFAULT
         else:
-- 
2.43.0


From 0e0cb186bf5ca484d2b953646c6a39d059489618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 39/46] fix: coerce ON and OFF to the type of the assigned
 variable

---
 mysql_mimic/variables.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/variables.py b/mysql_mimic/variables.py
index e5a0d8a..4cd40e4 100644
--- a/mysql_mimic/variables.py
+++ b/mysql_mimic/variables.py
@@ -57,6 +57,22 @@ SYSTEM_VARIABLES: dict[str, VariableSchema] = {
 }
 
 
+def coerce(type_: VariableType, value: Any) -> Any:
+    """Convert an assigned value to the type of a variable"""
+    if type_ is bool and isinstance(value, str):
+        # "OFF" and "0" are truthy in Python
+        if value.upper() in {"ON", "TRUE", "1"}:
+            return True
+        if value.upper() in {"OFF", "FALSE", "0"}:
+            return False
+        raise MysqlError(
+            f"Invalid boolean value: {value}", code=ErrorCode.WRONG_VALUE_FOR_VAR
+        )
+    if type_ is str and isinstance(value, bool):
+        return "ON" if value else "OFF"
+    return type_(value)
+
+
 class Variables(abc.ABC):
     """
     Abstract class for MySQL system variables.
@@ -86,7 +102,7 @@ class Variables(abc.ABC):
         if value is DEFAULT or value is None:
             self.values[name] = default
         else:
-            self.values[name] = type_(value)
+            self.values[name] = coerce(type_, value)
 
     def get(self, name: str) -> Any:
         name = name.lower()
-- 
2.43.0


From 7261fa4979db3a5796a55472ae9a19a891cb5b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 40/46] fix: reject time zones and character sets that would
 break the session

---
 mysql_mimic/errors.py    |  2 ++
 mysql_mimic/session.py   |  2 +-
 mysql_mimic/variables.py | 38 ++++++++++++++++++++++++++++++--------
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/mysql_mimic/errors.py b/mysql_mimic/errors.py
index beffc0c..fd5a3b2 100644
--- a/mysql_mimic/errors.py
+++ b/mysql_mimic/errors.py
@@ -11,6 +11,7 @@ class ErrorCode(IntEnum):
     PARSE_ERROR = 1064
     EMPTY_QUERY = 1065
     UNKNOWN_PROCEDURE = 1106
+    UNKNOWN_CHARACTER_SET = 1115
     UNKNOWN_SYSTEM_VARIABLE = 1193
     UNKNOWN_COM_ERROR = 1047
     UNKNOWN_ERROR = 1105
@@ -31,6 +32,7 @@ SQLSTATES = {
     ErrorCode.PARSE_ERROR: b"42000",
     ErrorCode.EMPTY_QUERY: b"42000",
     ErrorCode.UNKNOWN_PROCEDURE: b"42000",
+    ErrorCode.UNKNOWN_CHARACTER_SET: b"42000",
     ErrorCode.UNKNOWN_COM_ERROR: b"08S01",
     ErrorCode.WRONG_VALUE_FOR_VAR: b"42000",
     ErrorCode.NOT_SUPPORTED_YET: b"42000",
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 25a10c0..f55ea8a 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -590,7 +590,7 @@ class Session(BaseSession):
             charset_name = DEFAULT
             collation_name = DEFAULT
         else:
-            charset_name = item.name
+            charset_name = item.name.lower()
             collation_name = (
                 item.text("collate")
                 or CharacterSet[charset_name].default_collation.name
diff --git a/mysql_mimic/variables.py b/mysql_mimic/variables.py
index 4cd40e4..2652333 100644
--- a/mysql_mimic/variables.py
+++ b/mysql_mimic/variables.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import abc
+import codecs
 import re
 from datetime import timezone, timedelta
 from functools import lru_cache
@@ -19,15 +20,34 @@ VariableSchema = Tuple[VariableType, Any, bool]
 
 DEFAULT = Default()
 
+def timezone_name(value: Any) -> str:
+    """Type of variables whose value is a time zone"""
+    name = str(value)
+    parse_timezone(name)
+    return name
+
+
+def charset_name(value: Any) -> str:
+    """Type of variables whose value is a character set"""
+    name = str(value).lower()
+    try:
+        codecs.lookup(CharacterSet[name].codec)
+    except LookupError as e:
+        raise MysqlError(
+            f"Unknown character set: {value}", code=ErrorCode.UNKNOWN_CHARACTER_SET
+        ) from e
+    return name
+
+
 SYSTEM_VARIABLES: dict[str, VariableSchema] = {
     # name: (type, default, dynamic)
     "auto_increment_increment": (int, 1, True),
     "autocommit": (bool, True, True),
-    "character_set_client": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_connection": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_database": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_results": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_server": (str, CharacterSet.utf8mb4.name, True),
+    "character_set_client": (charset_name, CharacterSet.utf8mb4.name, True),
+    "character_set_connection": (charset_name, CharacterSet.utf8mb4.name, True),
+    "character_set_database": (charset_name, CharacterSet.utf8mb4.name, True),
+    "character_set_results": (charset_name, CharacterSet.utf8mb4.name, True),
+    "character_set_server": (charset_name, CharacterSet.utf8mb4.name, True),
     "collation_connection": (str, Collation.utf8mb4_general_ci.name, True),
     "collation_database": (str, Collation.utf8mb4_general_ci.name, True),
     "collation_server": (str, Collation.utf8mb4_general_ci.name, True),
@@ -45,7 +65,7 @@ SYSTEM_VARIABLES: dict[str, VariableSchema] = {
     "sql_mode": (str, "ANSI", True),
     "sql_select_limit": (int, None, True),
     "system_time_zone": (str, "UTC", False),
-    "time_zone": (str, "UTC", True),
+    "time_zone": (timezone_name, "UTC", True),
     "transaction_read_only": (bool, False, True),
     "transaction_isolation": (str, "READ-COMMITTED", True),
     "version": (str, "8.0.29", False),
@@ -140,14 +160,16 @@ class SessionVariables(Variables):
         return self.global_variables.schema
 
 
-RE_TIMEZONE = re.compile(r"^(?P<sign>[+-])(?P<hours>\d\d):(?P<minutes>\d\d)")
+RE_TIMEZONE = re.compile(
+    r"(?P<sign>[+-])(?P<hours>[0-1]\d|2[0-3]):(?P<minutes>[0-5]\d)", re.ASCII
+)
 
 
 @lru_cache(maxsize=48)
 def parse_timezone(tz: str) -> timezone:
     if tz.lower() == "utc":
         return timezone.utc
-    match = RE_TIMEZONE.match(tz)
+    match = RE_TIMEZONE.fullmatch(tz)
     if not match:
         raise MysqlError(msg=f"Invalid timezone: {tz}")
     offset = timedelta(
-- 
2.43.0


From db6146f8a718f515f6832c6d113ec0757548e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 41/46] fix: encode the integers of BIT columns as bits

---
 mysql_mimic/results.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 3643526..9fef562 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -325,6 +325,20 @@ def _text_encode_tiny(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, int(val))
 
 
+def _encode_bit(val: Any) -> Any:
+    if isinstance(val, int):
+        return val.to_bytes((val.bit_length() + 7) // 8 or 1, "big")
+    return val
+
+
+def _text_encode_bit(col: ResultColumn, val: Any) -> bytes:
+    return _text_encode_str(col, _encode_bit(val))
+
+
+def _binary_encode_bit(col: ResultColumn, val: Any) -> bytes:
+    return _binary_encode_str(col, _encode_bit(val))
+
+
 def _unsupported(col: ResultColumn, val: Any) -> bytes:
     raise MysqlError(f"Unsupported column type: {col.type}")
 
@@ -365,7 +379,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.YEAR: _text_encode_number,
     ColumnType.NEWDATE: _text_encode_str,
     ColumnType.VARCHAR: _text_encode_str,
-    ColumnType.BIT: _text_encode_str,
+    ColumnType.BIT: _text_encode_bit,
     ColumnType.TIMESTAMP2: _unsupported,
     ColumnType.DATETIME2: _unsupported,
     ColumnType.TIME2: _unsupported,
@@ -402,7 +416,7 @@ _BINARY_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.YEAR: _binary_encode_short,
     ColumnType.NEWDATE: _unsupported,
     ColumnType.VARCHAR: _binary_encode_str,
-    ColumnType.BIT: _binary_encode_str,
+    ColumnType.BIT: _binary_encode_bit,
     ColumnType.TIMESTAMP2: _unsupported,
     ColumnType.DATETIME2: _unsupported,
     ColumnType.TIME2: _unsupported,
-- 
2.43.0


From ee73b72d77f369eae6857c4b8b55f788198e34f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 42/46] fix: run the first middleware once per statement

---
 mysql_mimic/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index f55ea8a..b585f3d 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -94,7 +94,7 @@ class Query:
 
         This should only be called by the framework code
         """
-        return await self._middlewares[0](self)
+        return await self.next()
 
 
 class BaseSession:
-- 
2.43.0


From b03a1db5e066d17ed011115ea1c77fea983af41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 43/46] fix: keep bound literals apart from any identifier
 character

---
 mysql_mimic/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 5e5194b..9d9cba0 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -564,7 +564,7 @@ def _replace_params(sql: str, values: Sequence[Any]) -> str:
 
 
 def _is_token_char(char: str) -> bool:
-    return char.isalnum() or (char != "" and char in "_$@.'\"`")
+    return char.isalnum() or char > "\x7f" or (char != "" and char in "_$@.'\"`")
 
 
 def _encode_param_as_sql(param: Any) -> str:
-- 
2.43.0


From 0308fb4f295e6d4f3c9d8a01a700fe49d1816da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:00 +0000
Subject: [PATCH 44/46] fix: discard long data when an execution fails

---
 mysql_mimic/connection.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index c3d31fb..9d4cb81 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -530,20 +530,26 @@ class Connection:
         COM_STMT_EXECUTE asks the server to execute a prepared statement as identified by stmt-id.
         """
 
+        stmts = []
+
         def get_stmt(stmt_id: int) -> PreparedStatement:
             stmt = self.get_stmt(stmt_id)
             # Executing a statement again discards its cursor, even if the execution fails
             stmt.cursor = None
+            stmts.append(stmt)
             return stmt
 
-        com_stmt_execute = packets.parse_com_stmt_execute(
-            capabilities=self.capabilities,
-            client_charset=self.client_charset,
-            data=data,
-            get_stmt=get_stmt,
-        )
-
-        com_stmt_execute.stmt.param_buffers = None
+        try:
+            com_stmt_execute = packets.parse_com_stmt_execute(
+                capabilities=self.capabilities,
+                client_charset=self.client_charset,
+                data=data,
+                get_stmt=get_stmt,
+            )
+        finally:
+            # Long data is for a single execution, even if that fails
+            for stmt in stmts:
+                stmt.param_buffers = None
 
         result_set = await self.query(
             com_stmt_execute.sql, com_stmt_execute.query_attrs
-- 
2.43.0


From 52d88af996f20bc0423bbd90d58f6518d96e9766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 45/46] fix: number the ERR that ends a killed statement
 consecutively

---
 mysql_mimic/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 9d4cb81..4505843 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -333,6 +333,7 @@ class Connection:
     async def command_phase(self) -> None:
         """https://dev.mysql.com/doc/internals/en/command-phase.html"""
         while self.authenticated and not self._kill:
+            self.stream.reset_seq()
             try:
                 data = await self.stream.read()
             except ConnectionClosed:
@@ -407,7 +408,6 @@ class Connection:
                 if self._kill == KillKind.QUERY:
                     # The statement ended without noticing that it was killed
                     self._kill = None
-                self.stream.reset_seq()
 
     async def handle_ping(self, data: bytes) -> None:  # pylint: disable=unused-argument
         """
-- 
2.43.0


From c01025a603eeb1d47c19e639a4281ad2c951d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 46/46] fix: no second ERR if a connection is killed while the
 client takes the one that refuses COM_CHANGE_USER

---
 mysql_mimic/connection.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 4505843..6b79262 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -197,7 +197,8 @@ class Connection:
             connect_attrs=response.connect_attrs,
         )
         if self.authenticated:
-            await self.stream.write(self.ok())
+            await self.stream.write(self.ok(), drain=False)
+        await self.stream.drain()
         self.stream.reset_seq()
 
     async def handle_change_user(self, data: bytes) -> None:
@@ -247,7 +248,7 @@ class Connection:
 
         Returns:
             True if the client is authenticated, in which case the caller sends the final OK.
-            Otherwise, an error has been sent to the client.
+            Otherwise, an error has been written to the stream, for the caller to drain.
         """
         user = await self.identity_provider.get_user(username)
 
@@ -256,7 +257,8 @@ class Connection:
                 self.error(
                     msg=f"User {username} does not exist",
                     code=ErrorCode.USER_DOES_NOT_EXIST,
-                )
+                ),
+                drain=False,
             )
             return False
 
@@ -326,7 +328,8 @@ class Connection:
             self.error(
                 msg=decision.msg or f"Access denied for user {auth_info.user.name}",
                 code=ErrorCode.ACCESS_DENIED_ERROR,
-            )
+            ),
+            drain=False,
         )
         return False
 
-- 
2.43.0

