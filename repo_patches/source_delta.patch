From c81b9591ba7148fa42089a127b02bc29d865dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 01/48] fix: hand the transport its own copy of the write
 buffer

On a partial send asyncio keeps a memoryview of the buffer, so clearing the
bytearray raised BufferError and broke off large results.
---
 mysql_mimic/stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index ed8c280..df218e1 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -71,7 +71,8 @@ class MysqlStream:
 
     async def drain(self) -> None:
         if self._buffer:
-            self.writer.write(self._buffer)
+            # The transport may keep a reference to what it could not send yet
+            self.writer.write(bytes(self._buffer))
             self._buffer.clear()
         await self.writer.drain()
 
-- 
2.43.0


From 73c1f9e58e6977e8939479ea725592a03227c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 02/48] fix: read packet headers that arrive split across
 network reads

---
 mysql_mimic/stream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index df218e1..d1c99eb 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -27,7 +27,10 @@ class MysqlStream:
     async def read(self) -> bytes:
         data = b""
         while True:
-            header = await self.reader.read(4)
+            try:
+                header = await self.reader.readexactly(4)
+            except asyncio.IncompleteReadError as e:
+                raise ConnectionClosed() from e
 
             if not header:
                 raise ConnectionClosed()
-- 
2.43.0


From c6be8b4b948f738ff222c7e525643b9777c603e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 03/48] fix: keep TLS handshake bytes that arrive in the same
 read as the SSL request

---
 mysql_mimic/stream.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index d1c99eb..e547631 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -86,6 +86,28 @@ class MysqlStream:
         transport = self.writer.transport
         protocol = transport.get_protocol()
         loop = asyncio.get_event_loop()
+
+        # Bytes of the TLS handshake may have arrived together with the SSL request.
+        # Hand them over once the TLS protocol is connected, before anything else is read.
+        buffered = bytes(self.reader._buffer)  # type: ignore # pylint: disable=protected-access
+        self.reader._buffer.clear()  # type: ignore # pylint: disable=protected-access
+
+        def feed_buffered() -> None:
+            data = buffered
+            ssl_protocol = transport.get_protocol()
+            if not isinstance(ssl_protocol, asyncio.BufferedProtocol):
+                ssl_protocol.data_received(data)  # python <3.11
+                return
+            while data:
+                buf = ssl_protocol.get_buffer(len(data))
+                n = min(len(buf), len(data))
+                buf[:n] = data[:n]
+                ssl_protocol.buffer_updated(n)
+                data = data[n:]
+
+        if buffered:
+            loop.call_soon(loop.call_soon, feed_buffered)
+
         new_transport = await loop.start_tls(
             transport=transport,
             protocol=protocol,
-- 
2.43.0


From 94115828cd1fe8fd755c7bcce12b495a8b6fca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:14 +0000
Subject: [PATCH 04/48] fix: serve no command after a failed authentication

The server sent ERR for unknown users and rejected passwords but went on to
serve commands, at the handshake and after COM_CHANGE_USER.
---
 mysql_mimic/connection.py | 40 +++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 5160192..74f5735 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -72,6 +72,7 @@ class Connection:
         self.prepared_stmts: Dict[int, PreparedStatement] = {}
 
         self.connection_id: int = 0
+        self._authenticated = False
         self._kill: Optional[KillKind] = None
         self._task: Optional[asyncio.Task] = None
 
@@ -95,6 +96,8 @@ class Connection:
         logger.info("Started new connection: %s", self.connection_id)
         try:
             await self.connection_phase()
+            if not self._authenticated:
+                return
             await self.session.init(self)
         except Exception as e:
             await self.stream.write(self.error(msg=e, code=ErrorCode.HANDSHAKE_ERROR))
@@ -159,7 +162,7 @@ class Connection:
         self.zstd_compression_level = response.zstd_compression_level
         self.session.variables.set("external_user", response.username, force=True)
 
-        await self.authenticate(
+        self._authenticated = await self.authenticate(
             auth_state=auth_state,
             server_plugin=default_auth_plugin,
             username=response.username,
@@ -170,6 +173,9 @@ class Connection:
         self.stream.reset_seq()
 
     async def handle_change_user(self, data: bytes) -> None:
+        # No further command is served unless this exchange succeeds
+        self._authenticated = False
+
         com_change_user = packets.parse_com_change_user(
             capabilities=self.capabilities,
             client_charset=self.client_charset,
@@ -187,7 +193,7 @@ class Connection:
         if com_change_user.connect_attrs:
             self.client_connect_attrs = com_change_user.connect_attrs
 
-        await self.authenticate(
+        self._authenticated = await self.authenticate(
             username=com_change_user.username,
             auth_response=com_change_user.auth_response,
             client_plugin_name=com_change_user.client_plugin,
@@ -204,7 +210,7 @@ class Connection:
         connect_attrs: Dict[str, str],
         auth_state: Optional[AuthState] = None,
         server_plugin: Optional[AuthPlugin] = None,
-    ) -> None:
+    ) -> bool:
         user = await self.identity_provider.get_user(username)
 
         if not user:
@@ -214,7 +220,7 @@ class Connection:
                     code=ErrorCode.USER_DOES_NOT_EXIST,
                 )
             )
-            return
+            return False
 
         user_plugin = (
             self.identity_provider.get_plugin(user.auth_plugin or "")
@@ -272,22 +278,24 @@ class Connection:
         if isinstance(decision, Success):
             self.session.username = decision.authenticated_as
             await self.stream.write(self.ok())
-        else:
-            logger.info(
-                "Access denied for user '%s' with plugin '%s'",
-                auth_info.user.name,
-                user_plugin.name,
-            )
-            await self.stream.write(
-                self.error(
-                    msg=decision.msg or f"Access denied for user {auth_info.user.name}",
-                    code=ErrorCode.ACCESS_DENIED_ERROR,
-                )
+            return True
+
+        logger.info(
+            "Access denied for user '%s' with plugin '%s'",
+            auth_info.user.name,
+            user_plugin.name,
+        )
+        await self.stream.write(
+            self.error(
+                msg=decision.msg or f"Access denied for user {auth_info.user.name}",
+                code=ErrorCode.ACCESS_DENIED_ERROR,
             )
+        )
+        return False
 
     async def command_phase(self) -> None:
         """https://dev.mysql.com/doc/internals/en/command-phase.html"""
-        while True:
+        while self._authenticated:
             try:
                 data = await self.stream.read()
             except ConnectionClosed:
-- 
2.43.0


From 6355f4d189cc40bd324b7811383e14a9f5c807ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:02 +0000
Subject: [PATCH 05/48] fix: answer COM_CHANGE_USER once when resetting the
 session fails

OK was sent before session.reset(), so a failing reset produced OK and ERR.
---
 mysql_mimic/connection.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 74f5735..5cfd8a4 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -170,6 +170,8 @@ class Connection:
             auth_response=response.auth_response,
             connect_attrs=response.connect_attrs,
         )
+        if self._authenticated:
+            await self.stream.write(self.ok())
         self.stream.reset_seq()
 
     async def handle_change_user(self, data: bytes) -> None:
@@ -193,14 +195,17 @@ class Connection:
         if com_change_user.connect_attrs:
             self.client_connect_attrs = com_change_user.connect_attrs
 
-        self._authenticated = await self.authenticate(
+        authenticated = await self.authenticate(
             username=com_change_user.username,
             auth_response=com_change_user.auth_response,
             client_plugin_name=com_change_user.client_plugin,
             connect_attrs=com_change_user.connect_attrs,
         )
 
-        await self.session.reset()
+        if authenticated:
+            await self.session.reset()
+            self._authenticated = True
+            await self.stream.write(self.ok())
 
     async def authenticate(
         self,
@@ -277,7 +282,6 @@ class Connection:
 
         if isinstance(decision, Success):
             self.session.username = decision.authenticated_as
-            await self.stream.write(self.ok())
             return True
 
         logger.info(
-- 
2.43.0


From 9826f2bbccdab2e11862c659488ad234d383e4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 06/48] fix: omit the EOF after prepare-OK parameters when
 CLIENT_DEPRECATE_EOF is negotiated

---
 mysql_mimic/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 5cfd8a4..0c6f0a6 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -672,4 +672,5 @@ class Connection:
                 yield packets.make_column_definition_41(
                     server_charset=self.server_charset, name="?"
                 )
-            yield self.eof()
+            if not self.deprecate_eof():
+                yield self.eof()
-- 
2.43.0


From c90a5822a5e2d1d8931e1131ac5eee015a1f4a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 07/48] fix: send each COM_FIELD_LIST column definition in its
 own packet

---
 mysql_mimic/connection.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 0c6f0a6..5b443ac 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -405,19 +405,18 @@ class Connection:
         com_field_list = parse_com_field_list(self.client_charset, data)
         sql = com_field_list_to_show_statement(com_field_list)
         result = await self.query(sql=sql, query_attrs={})
-        columns = b"".join(
-            [
-                make_column_definition_41(
-                    server_charset=self.server_charset,
-                    table=com_field_list.table,
-                    name=row[0],
-                    is_com_field_list=True,
-                    default=row[4],
-                )
-                async for row in aiterate(result.rows)
-            ]
-        )
-        await self.stream.write(columns)
+        columns = [
+            make_column_definition_41(
+                server_charset=self.server_charset,
+                table=com_field_list.table,
+                name=row[0],
+                is_com_field_list=True,
+                default=row[4],
+            )
+            async for row in aiterate(result.rows)
+        ]
+        for column in columns:
+            await self.stream.write(column, drain=False)
         await self.stream.write(self.ok_or_eof())
 
     async def handle_query(self, data: bytes) -> None:
-- 
2.43.0


From ca6c9767e886a190a78552a677e78e07bb7ebe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 08/48] fix: COM_STMT_SEND_LONG_DATA sends no response for
 unknown statements either

---
 mysql_mimic/connection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 5b443ac..f6f8445 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -471,7 +471,10 @@ class Connection:
         COM_STMT_SEND_LONG_DATA sends the data for a column.
         """
         com_stmt_send_long_data = packets.parse_com_stmt_send_long_data(data)
-        stmt = self.get_stmt(com_stmt_send_long_data.stmt_id)
+        stmt = self.prepared_stmts.get(com_stmt_send_long_data.stmt_id)
+        if stmt is None:
+            # This command has no response, not even an error
+            return
         if stmt.param_buffers is None:
             stmt.param_buffers = {}
         buffer = stmt.param_buffers.setdefault(
-- 
2.43.0


From 5bfac4a35e5b5bad52bbaa95d6a2fc5bb7e870d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 09/48] fix: send ERR also when its message is not
 representable in the results charset

---
 mysql_mimic/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 19604d0..1180561 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -165,7 +165,7 @@ def make_error(
         parts.append(str_fixed(1, b"#"))
         parts.append(str_fixed(5, get_sqlstate(code)))
 
-    parts.append(str_rest(server_charset.encode(str(msg))))
+    parts.append(str_rest(str(msg).encode(server_charset.codec, errors="replace")))
 
     return _concat(*parts)
 
-- 
2.43.0


From fdc336989936179550df9b2243b4836b95c14b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 10/48] fix: encode TINY values in the binary protocol instead
 of their truth value

---
 mysql_mimic/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 9716207..424a94c 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -165,7 +165,7 @@ async def _ensure_result_cols(
 
 
 def _binary_encode_tiny(col: ResultColumn, val: Any) -> bytes:
-    return uint_1(int(bool(val)))
+    return struct.pack("<b", int(val))
 
 
 def _binary_encode_str(col: ResultColumn, val: Any) -> bytes:
-- 
2.43.0


From ac8928ecf6a3bafb2148e994f1d5d7dbef1191a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 11/48] fix: encode BOOL columns as digits in the text protocol

---
 mysql_mimic/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 424a94c..9a3a442 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -341,7 +341,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.TIME2: _unsupported,
     ColumnType.TYPED_ARRAY: _unsupported,
     ColumnType.INVALID: _unsupported,
-    ColumnType.BOOL: _binary_encode_tiny,
+    ColumnType.BOOL: _text_encode_tiny,
     ColumnType.JSON: _text_encode_str,
     ColumnType.NEWDECIMAL: _text_encode_str,
     ColumnType.ENUM: _text_encode_str,
-- 
2.43.0


From c767312a0f0cdbb8d041d3d8aa31869c2fa386a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 12/48] fix: encode negative and multi-day durations as MySQL
 TIME values

---
 mysql_mimic/results.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 9a3a442..67697d6 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -249,11 +249,12 @@ def _binary_encode_double(col: ResultColumn, val: Any) -> bytes:
 
 
 def _binary_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
-    days = abs(val.days)
-    hours, remainder = divmod(abs(val.seconds), 3600)
+    is_negative = val.days < 0
+    val = abs(val)
+    days = val.days
+    hours, remainder = divmod(val.seconds, 3600)
     minutes, seconds = divmod(remainder, 60)
     microseconds = val.microseconds
-    is_negative = val.total_seconds() < 0
 
     if microseconds == 0:
         if days == hours == minutes == seconds == 0:
@@ -295,6 +296,19 @@ def _text_encode_tiny(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, int(val))
 
 
+def _text_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
+    if not isinstance(val, timedelta):
+        return _text_encode_str(col, val)
+    sign = "-" if val.days < 0 else ""
+    val = abs(val)
+    minutes, seconds = divmod(val.days * 86400 + val.seconds, 60)
+    hours, minutes = divmod(minutes, 60)
+    text = f"{sign}{hours:02}:{minutes:02}:{seconds:02}"
+    if val.microseconds:
+        text += f".{val.microseconds:06}"
+    return _text_encode_str(col, text)
+
+
 def _unsupported(col: ResultColumn, val: Any) -> bytes:
     raise MysqlError(f"Unsupported column type: {col.type}")
 
@@ -330,7 +344,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.LONGLONG: _text_encode_str,
     ColumnType.INT24: _text_encode_str,
     ColumnType.DATE: _text_encode_str,
-    ColumnType.TIME: _text_encode_str,
+    ColumnType.TIME: _text_encode_timedelta,
     ColumnType.DATETIME: _text_encode_str,
     ColumnType.YEAR: _text_encode_str,
     ColumnType.NEWDATE: _text_encode_str,
-- 
2.43.0


From 7d95965d80fa8379091cdc6af53a5c73d218acb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 13/48] fix: infer the type of every column when result column
 names repeat

---
 mysql_mimic/results.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 67697d6..513577a 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -105,7 +105,7 @@ async def _ensure_result_cols(
 ) -> ResultSet:
     # Which columns need to be inferred?
     remaining = {
-        col: i for i, col in enumerate(columns) if not isinstance(col, ResultColumn)
+        i: col for i, col in enumerate(columns) if not isinstance(col, ResultColumn)
     }
 
     if not remaining:
@@ -132,7 +132,7 @@ async def _ensure_result_cols(
         peeks.append(peek)
 
         inferred = []
-        for name, i in remaining.items():
+        for i, name in remaining.items():
             value = peek[i]
             if value is not None:
                 type_ = infer_type(value)
@@ -140,13 +140,13 @@ async def _ensure_result_cols(
                     name=str(name),
                     type=type_,
                 )
-                inferred.append(name)
+                inferred.append(i)
 
-        for name in inferred:
-            remaining.pop(name)
+        for i in inferred:
+            remaining.pop(i)
 
     # If we failed to find a non-null value, set the type to NULL
-    for name, i in remaining.items():
+    for i, name in remaining.items():
         columns[i] = ResultColumn(
             name=str(name),
             type=ColumnType.NULL,
-- 
2.43.0


From b74b64cc2de5a554f709fd090b8fe251b9634ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 14/48] fix: accept any AsyncIterable as a row source, not only
 async generators

---
 mysql_mimic/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index e1444af..676f045 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 import asyncio
-import inspect
 import sys
 from collections.abc import Iterator
 import random
@@ -103,7 +102,7 @@ def dict_depth(d: dict) -> int:
 
 async def aiterate(iterable: AsyncIterable[T] | Iterable[T]) -> AsyncIterator[T]:
     """Iterate either an async iterable or a regular iterable"""
-    if inspect.isasyncgen(iterable):
+    if isinstance(iterable, AsyncIterable):
         async for item in iterable:
             yield item
     else:
-- 
2.43.0


From 6868b27112ab4f7ca40701e16bb8c2a20d27e511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 15/48] fix: reject null-terminated strings without a
 terminator

Reading one looped forever and blocked the event loop.
---
 mysql_mimic/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mysql_mimic/types.py b/mysql_mimic/types.py
index 81b2e67..ebb66dd 100644
--- a/mysql_mimic/types.py
+++ b/mysql_mimic/types.py
@@ -317,6 +317,8 @@ def read_str_null(reader: io.BytesIO) -> bytes:
         b = reader.read(1)
         if b == b"\x00":
             return data
+        if not b:
+            raise ValueError("Malformed packet: string is not null-terminated")
         data += b
 
 
-- 
2.43.0


From 24f3cb9b2025d74c61ffc57712199ba20e2eedfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 16/48] fix: reject strings shorter than their declared length

---
 mysql_mimic/types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/types.py b/mysql_mimic/types.py
index ebb66dd..25e042c 100644
--- a/mysql_mimic/types.py
+++ b/mysql_mimic/types.py
@@ -308,7 +308,10 @@ def read_uint_len(reader: io.BytesIO) -> int:
 
 
 def read_str_fixed(reader: io.BytesIO, l: int) -> bytes:
-    return reader.read(l)
+    data = reader.read(l)
+    if len(data) != l:
+        raise ValueError("Malformed packet: string is truncated")
+    return data
 
 
 def read_str_null(reader: io.BytesIO) -> bytes:
-- 
2.43.0


From 0ef90328f55691a2ca9ca5624833cb0c9bd5ec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 17/48] fix: honour server_id=0

---
 mysql_mimic/control.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/control.py b/mysql_mimic/control.py
index 8ef037c..81527bb 100644
--- a/mysql_mimic/control.py
+++ b/mysql_mimic/control.py
@@ -59,7 +59,9 @@ class LocalControl(Control):
     def __init__(self, server_id: Optional[int] = None):
         self._connection_seq = seq(self._MAX_CONNECTION_SEQ)
         self._connections: Dict[int, Connection] = {}
-        self.server_id = server_id or random.randint(0, self._MAX_SERVER_ID - 1)
+        if server_id is None:
+            server_id = random.randint(0, self._MAX_SERVER_ID - 1)
+        self.server_id = server_id
 
     async def add(self, connection: Connection) -> int:
         connection_id = self._new_connection_id()
-- 
2.43.0


From e061baad01019c38462a085bf1f019eacee321f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 18/48] fix: close the socket of clients that are refused

When the session could not be created or the connection not registered, the
client got its ERR but the socket was never closed.
---
 mysql_mimic/server.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/server.py b/mysql_mimic/server.py
index 6410a1e..e6d29e9 100644
--- a/mysql_mimic/server.py
+++ b/mysql_mimic/server.py
@@ -60,6 +60,14 @@ class MysqlServer:
 
     async def _client_connected_cb(
         self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter
+    ) -> None:
+        try:
+            await self._serve_client(reader, writer)
+        finally:
+            writer.close()
+
+    async def _serve_client(
+        self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter
     ) -> None:
         stream = MysqlStream(reader, writer)
 
@@ -105,7 +113,6 @@ class MysqlServer:
         try:
             return await connection.start()
         finally:
-            writer.close()
             await self.control.remove(connection_id)
 
     async def start_server(self, **kwargs: Any) -> None:
-- 
2.43.0


From c27287bf1eefb31ee04bfbbcc6e5b693d36df874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 19/48] fix: do not lose a row at the end of every
 COM_STMT_FETCH

---
 mysql_mimic/connection.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index f6f8445..b27ec3e 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -547,11 +547,12 @@ class Connection:
         assert stmt.cursor is not None
         count = 0
 
-        async for packet in cooperative_iterate(stmt.cursor):
-            if count >= com_stmt_fetch.num_rows:
-                break
-            await self.stream.write(packet, drain=False)
-            count += 1
+        if com_stmt_fetch.num_rows > 0:
+            async for packet in cooperative_iterate(stmt.cursor):
+                await self.stream.write(packet, drain=False)
+                count += 1
+                if count >= com_stmt_fetch.num_rows:
+                    break
         await self.stream.drain()
 
         done = count < com_stmt_fetch.num_rows
-- 
2.43.0


From 72e1bfd52a5af8027d306b23e478809cd1be2c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 20/48] fix: discard the previous cursor whenever a statement
 is executed again

---
 mysql_mimic/connection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index b27ec3e..313eb6f 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -496,6 +496,7 @@ class Connection:
         )
 
         com_stmt_execute.stmt.param_buffers = None
+        com_stmt_execute.stmt.cursor = None
 
         result_set = await self.query(
             com_stmt_execute.sql, com_stmt_execute.query_attrs
-- 
2.43.0


From 8f7be60f2281f8bf123f07f58e91b04134f1cef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 21/48] fix: do not starve other connections while peeking at
 rows to infer types

---
 mysql_mimic/results.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 513577a..db16cb6 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -20,7 +20,7 @@ from typing import (
 from mysql_mimic.errors import MysqlError
 from mysql_mimic.types import ColumnType, str_len, uint_1, uint_2, uint_4
 from mysql_mimic.charset import CharacterSet
-from mysql_mimic.utils import aiterate
+from mysql_mimic.utils import aiterate, cooperative_iterate
 
 Encoder = Callable[[Any, "ResultColumn"], bytes]
 
@@ -117,7 +117,8 @@ async def _ensure_result_cols(
     # Copy the columns
     columns = list(columns)
 
-    arows = aiterate(rows)
+    # Cooperative, because a column that stays NULL makes us peek at many rows
+    arows = cooperative_iterate(aiterate(rows))
 
     # Keep track of rows we've consumed from the iterator so we can add them back
     peeks = []
-- 
2.43.0


From 8510cf2bac70390554cdee5f89acf2242e9bd2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 22/48] fix: never break off between the packets of one payload

A kill while a payload of more than 16 MiB drained left the client waiting for
its remaining packets, with the ERR packet taken for one of them.
---
 mysql_mimic/stream.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index e547631..251736e 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -65,19 +65,24 @@ class MysqlStream:
             packet = payload_length + sequence_id + payload
 
             self._buffer.extend(packet)
-            if drain or len(self._buffer) >= self._buffer_size:
-                await self.drain()
 
             # We are done unless len(send) == 0xFFFFFF
             if len(payload) != 0xFFFFFF:
-                return
+                break
+
+        # Only drain after the last packet, as nothing can be sent in between
+        if drain or len(self._buffer) >= self._buffer_size:
+            await self.drain()
 
     async def drain(self) -> None:
+        self.flush()
+        await self.writer.drain()
+
+    def flush(self) -> None:
         if self._buffer:
             # The transport may keep a reference to what it could not send yet
             self.writer.write(bytes(self._buffer))
             self._buffer.clear()
-        await self.writer.drain()
 
     def reset_seq(self) -> None:
         self.seq.reset()
-- 
2.43.0


From eb273991d8e53841cad5e4cadf42418b6b305fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:29 +0000
Subject: [PATCH 23/48] fix: let KILL QUERY interrupt nothing but a running
 statement

A KILL QUERY that arrived while the target was idle, in the handshake or done
with its response ended the connection or sent a second response, and one that
followed KILL CONNECTION revoked it. KILL CONNECTION never ended a target whose
client doesn't read, and a connection killing itself got a response with a wrong
sequence number or none.
---
 mysql_mimic/connection.py | 62 +++++++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 12 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 313eb6f..9c5db15 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -32,6 +32,16 @@ from mysql_mimic.utils import seq, aiterate, cooperative_iterate
 
 logger = logging.getLogger(__name__)
 
+# Commands that KILL QUERY doesn't interrupt, because they have no response
+# or because they must not fail halfway
+UNINTERRUPTIBLE_COMMANDS = {
+    types.Commands.COM_STMT_PREPARE,
+    types.Commands.COM_STMT_SEND_LONG_DATA,
+    types.Commands.COM_STMT_CLOSE,
+    types.Commands.COM_CHANGE_USER,
+    types.Commands.COM_QUIT,
+}
+
 
 class Connection:
     _MAX_PREPARED_STMT_ID = 2**32
@@ -73,6 +83,10 @@ class Connection:
 
         self.connection_id: int = 0
         self._authenticated = False
+
+        # True while a command is executed whose response isn't complete.
+        # This is what KILL QUERY may interrupt.
+        self._executing = False
         self._kill: Optional[KillKind] = None
         self._task: Optional[asyncio.Task] = None
 
@@ -108,21 +122,28 @@ class Connection:
         except asyncio.CancelledError:
             if self._kill == KillKind.CONNECTION:
                 logger.info("Connection %s killed", self.connection_id)
+                # Don't wait for the client to read this
+                self.stream.flush()
                 await self.stream.write(
                     self.error(
                         msg="Session was killed", code=ErrorCode.SESSION_WAS_KILLED
-                    )
+                    ),
+                    drain=False,
                 )
-                self._kill = None
+                self.stream.flush()
             else:
                 raise
         finally:
+            self._task = None  # Too late for a kill
             await self.session.close()
 
     def kill(self, kind: KillKind = KillKind.CONNECTION) -> None:
-        if self._task:
-            self._kill = kind
-            self._task.cancel()
+        if not self._task or self._kill == KillKind.CONNECTION:
+            return
+        if kind == KillKind.QUERY and (self._kill or not self._executing):
+            return
+        self._kill = kind
+        self._task.cancel()
 
     async def connection_phase(self) -> None:
         default_auth_plugin = self.identity_provider.get_default_plugin()
@@ -299,7 +320,8 @@ class Connection:
 
     async def command_phase(self) -> None:
         """https://dev.mysql.com/doc/internals/en/command-phase.html"""
-        while self._authenticated:
+        while self._authenticated and self._kill != KillKind.CONNECTION:
+            self.stream.reset_seq()
             try:
                 data = await self.stream.read()
             except ConnectionClosed:
@@ -308,6 +330,7 @@ class Connection:
             try:
                 command = data[0]
                 rest = data[1:]
+                self._executing = command not in UNINTERRUPTIBLE_COMMANDS
 
                 if command == types.Commands.COM_QUERY:
                     await self.handle_query(rest)
@@ -343,6 +366,8 @@ class Connection:
                         ErrorCode.UNKNOWN_COM_ERROR,
                     )
 
+                await self._check_killed()
+
             except MysqlError as e:
                 logger.error(e)
                 await self.stream.write(self.error(msg=e.msg, code=e.code))
@@ -351,19 +376,28 @@ class Connection:
                     logger.info("Query killed on connection %s", self.connection_id)
                     if self._task and hasattr(self._task, "uncancel"):  # python >=3.11
                         self._task.uncancel()
-                    await self.stream.write(
-                        self.error(
-                            msg="Query was killed", code=ErrorCode.SESSION_WAS_KILLED
-                        )
-                    )
                     self._kill = None
+                    if self._executing:
+                        await self.stream.write(
+                            self.error(
+                                msg="Query was killed",
+                                code=ErrorCode.SESSION_WAS_KILLED,
+                            )
+                        )
                 else:
                     raise
             except Exception as e:  # pylint: disable=broad-except
                 logger.exception(e)
                 await self.stream.write(self.error(msg=e))
             finally:
-                self.stream.reset_seq()
+                self._executing = False
+                if self._kill == KillKind.QUERY:
+                    self._kill = None
+
+    async def _check_killed(self) -> None:
+        """Let a kill take effect that was issued by the running command itself"""
+        if self._kill:
+            await asyncio.sleep(0)
 
     async def handle_ping(self, data: bytes) -> None:  # pylint: disable=unused-argument
         """
@@ -602,9 +636,11 @@ class Connection:
         result_set = await ensure_result_set(
             await self.session.handle_query(sql, query_attrs)
         )
+        await self._check_killed()
         return result_set
 
     def ok(self, **kwargs: Any) -> bytes:
+        self._executing = False
         return packets.make_ok(
             capabilities=self.capabilities,
             status_flags=self.status_flags,
@@ -625,6 +661,7 @@ class Connection:
         warnings: int = 0,
         flags: int = 0,
     ) -> bytes:
+        self._executing = False
         if self.deprecate_eof():
             return self.ok(
                 eof=True,
@@ -636,6 +673,7 @@ class Connection:
         return self.eof(warnings=warnings, flags=flags)
 
     def error(self, **kwargs: Any) -> bytes:
+        self._executing = False
         return packets.make_error(
             capabilities=self.capabilities, server_charset=self.server_charset, **kwargs
         )
-- 
2.43.0


From 83e0c7ae07bbecafd9592bd7b774b40ed14deb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:29 +0000
Subject: [PATCH 24/48] fix: do not report an interrupted cursor as exhausted

---
 mysql_mimic/connection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 9c5db15..3946814 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -580,14 +580,18 @@ class Connection:
 
         stmt = self.get_stmt(com_stmt_fetch.stmt_id)
         assert stmt.cursor is not None
+        cursor = stmt.cursor
         count = 0
 
+        # If this fails or is killed, the remaining rows are unavailable
+        stmt.cursor = None
         if com_stmt_fetch.num_rows > 0:
-            async for packet in cooperative_iterate(stmt.cursor):
+            async for packet in cooperative_iterate(cursor):
                 await self.stream.write(packet, drain=False)
                 count += 1
                 if count >= com_stmt_fetch.num_rows:
                     break
+        stmt.cursor = cursor
         await self.stream.drain()
 
         done = count < com_stmt_fetch.num_rows
-- 
2.43.0


From e7e013d3cf67d140c15222fc16da9a89120af12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 25/48] fix: bind prepared statement parameters as literals

String values were neither escaped nor protected against being scanned again:
quotes ended the literal, backslashes were processed as escapes and question
marks taken for the next placeholders, which were themselves recognised by a
regex that miscounted quotes and took quadratic time.
---
 mysql_mimic/connection.py |  4 ++--
 mysql_mimic/packets.py    | 27 ++++++++++++++++++++++++---
 mysql_mimic/prepared.py   | 22 +++++++++++++++++++---
 3 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 3946814..2bf2c42 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -21,7 +21,7 @@ from mysql_mimic.packets import (
     parse_com_field_list,
     make_column_definition_41,
 )
-from mysql_mimic.prepared import PreparedStatement, REGEX_PARAM
+from mysql_mimic.prepared import PreparedStatement, find_params
 from mysql_mimic.results import ensure_result_set, ResultSet
 from mysql_mimic import types, packets, context
 from mysql_mimic.schema import com_field_list_to_show_statement
@@ -485,7 +485,7 @@ class Connection:
         sql = self.client_charset.decode(data)
 
         stmt_id = next(self.prepared_stmt_seq)
-        num_params = len(REGEX_PARAM.findall(sql))
+        num_params = len(find_params(sql))
 
         stmt = PreparedStatement(
             stmt_id=stmt_id,
diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 1180561..bd9a724 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -1,11 +1,13 @@
 import io
+import math
+import re
 from dataclasses import dataclass, field
 from typing import Optional, Dict, Any, Sequence, Callable, Tuple, List, Union
 
 from mysql_mimic.charset import Collation, CharacterSet
 from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES
 from mysql_mimic.errors import ErrorCode, get_sqlstate, MysqlError
-from mysql_mimic.prepared import PreparedStatement, REGEX_PARAM
+from mysql_mimic.prepared import PreparedStatement, find_params
 from mysql_mimic.results import NullBitmap, ResultColumn
 from mysql_mimic.types import (
     Capabilities,
@@ -40,6 +42,9 @@ from mysql_mimic.types import (
     read_str_rest,
 )
 
+# Characters that could form a token together with an adjacent literal
+RE_MERGES = re.compile(r"""[\w$@.'"`-]""")
+
 
 @dataclass
 class SSLRequest:
@@ -529,8 +534,19 @@ def _interpolate_params(
             capabilities, client_charset, reader, parameter_count, stmt.param_buffers
         )
 
-        for _, value in params[: stmt.num_params]:
-            sql = REGEX_PARAM.sub(_encode_param_as_sql(value), sql, 1)
+        parts = []
+        end = 0
+        for pos, (_, value) in zip(find_params(sql), params[: stmt.num_params]):
+            parts.append(sql[end:pos])
+            end = pos + 1
+            literal = _encode_param_as_sql(value)
+            # Don't let the literal merge with its neighbours, e.g. to a comment (--1)
+            if RE_MERGES.match(sql[pos - 1 : pos]):
+                literal = " " + literal
+            if RE_MERGES.match(sql[end : end + 1]):
+                literal = literal + " "
+            parts.append(literal)
+        sql = "".join(parts) + sql[end:]
 
         query_attrs = {k: v for k, v in params[stmt.num_params :] if k is not None}
 
@@ -539,7 +555,12 @@ def _interpolate_params(
 
 def _encode_param_as_sql(param: Any) -> str:
     if isinstance(param, str):
+        param = param.replace("\\", "\\\\").replace("'", "''")
         return f"'{param}'"
+    if isinstance(param, float) and not math.isfinite(param):
+        raise MysqlError(
+            f"Unsupported parameter value: {param}", ErrorCode.NOT_SUPPORTED_YET
+        )
     if param is None:
         return "NULL"
     if param is True:
diff --git a/mysql_mimic/prepared.py b/mysql_mimic/prepared.py
index 925efba..f14a9fc 100644
--- a/mysql_mimic/prepared.py
+++ b/mysql_mimic/prepared.py
@@ -1,9 +1,25 @@
 import re
 from dataclasses import dataclass
-from typing import Optional, Dict, AsyncIterable
+from typing import Optional, Dict, AsyncIterable, List
 
-# Borrowed from mysql-connector-python
-REGEX_PARAM = re.compile(r"""\?(?=(?:[^"'`]*["'`][^"'`]*["'`])*[^"'`]*$)""")
+# Matches placeholders (as group "param"), and everything that can contain a question mark
+# that isn't a placeholder: strings, quoted identifiers and comments.
+REGEX_PARAM = re.compile(
+    r"""
+    '[^'\\]*(?:\\.[^'\\]*)*'?
+    | "[^"\\]*(?:\\.[^"\\]*)*"?
+    | `[^`]*`?
+    | /\*.*?(?:\*/|\Z)
+    | (?:\#|--(?=\s|\Z))[^\n]*
+    | (?P<param>\?)
+    """,
+    re.DOTALL | re.VERBOSE,
+)
+
+
+def find_params(sql: str) -> List[int]:
+    """Find the positions of the parameter placeholders in a SQL statement"""
+    return [m.start() for m in REGEX_PARAM.finditer(sql) if m.group("param")]
 
 
 @dataclass
-- 
2.43.0


From 4c391f45d4c8b9f2773af4b7a65c20c293c99a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 26/48] fix: answer every FROM-less SELECT in the session

---
 mysql_mimic/session.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 0fdb119..58f429e 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -470,11 +470,19 @@ class Session(BaseSession):
 
         These very common, as many clients execute commands like SELECT DATABASE() when connecting.
         """
-        if isinstance(q.expression, exp.Select) and not any(
-            q.expression.args.get(a)
-            for a in set(exp.Select.arg_types) - {"expressions", "limit", "hint"}
+        if isinstance(q.expression, exp.Select) and not (
+            q.expression.args.get("joins")
+            or q.expression.args.get("laterals")
+            or q.expression.find(exp.From)
         ):
-            result = execute(q.expression)
+            select = q.expression.copy()
+            # There is one row at most, which leaves nothing to order
+            select.set("order", None)
+            offset = select.args.get("offset")
+            if offset and offset.expression.name != "0":
+                select.set("offset", None)
+                select.limit(0, copy=False)
+            result = execute(select)
             return result.rows, result.columns
         return await q.next()
 
-- 
2.43.0


From f8aee45a660ac22e3d423f0b1a64979c686e859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 27/48] fix: route queries to the catalog by the database of
 each table

---
 mysql_mimic/session.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 58f429e..00475f5 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -33,7 +33,7 @@ from mysql_mimic.schema import (
     ensure_info_schema,
 )
 from mysql_mimic.constants import INFO_SCHEMA, KillKind
-from mysql_mimic.utils import find_dbs
+from mysql_mimic.utils import find_tables
 from mysql_mimic.variables import (
     Variables,
     SessionVariables,
@@ -514,10 +514,11 @@ class Session(BaseSession):
 
     async def _info_schema_middleware(self, q: Query) -> AllowedResult:
         """Intercept queries to INFORMATION_SCHEMA tables"""
-        dbs = find_dbs(q.expression)
-        if (self.database and self.database.lower() in INFO_SCHEMA) or (
-            dbs and all(db.lower() in INFO_SCHEMA for db in dbs)
-        ):
+        tables = find_tables(q.expression)
+        dbs = [table.text("db") or self.database or "" for table in tables]
+        if dbs and all(db.lower() in INFO_SCHEMA for db in dbs):
+            for table, db in zip(tables, dbs):
+                table.set("db", exp.to_identifier(db))
             return await self._query_info_schema(q.expression)
         return await q.next()
 
-- 
2.43.0


From 0cea51145516b19068ca53be9fbb945e24d83cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 28/48] fix: keep SET and SHOW statements without a SQLGlot
 node from the application

---
 mysql_mimic/session.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 00475f5..bc93561 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -50,6 +50,11 @@ if TYPE_CHECKING:
 Middleware = Callable[["Query"], Awaitable[AllowedResult]]
 
 
+def _is_command(expression: exp.Expression, keyword: str) -> bool:
+    """True for a `keyword` statement in a form that SQLGlot has no dedicated node for"""
+    return isinstance(expression, exp.Command) and expression.name.upper() == keyword
+
+
 @dataclass
 class Query:
     """
@@ -375,6 +380,11 @@ class Session(BaseSession):
         """Intercept SHOW statements"""
         if isinstance(q.expression, exp.Show):
             return await self._show(q.expression)
+        if _is_command(q.expression, "SHOW"):
+            raise MysqlError(
+                f"Unsupported SHOW command: {q.expression.text('expression').strip()}",
+                code=ErrorCode.NOT_SUPPORTED_YET,
+            )
         return await q.next()
 
     async def _show(self, expression: exp.Show) -> AllowedResult:
@@ -510,6 +520,11 @@ class Session(BaseSession):
                     )
 
             return [], []
+        if _is_command(q.expression, "SET"):
+            raise MysqlError(
+                f"Unsupported SET statement: {q.expression.text('expression').strip()}",
+                code=ErrorCode.NOT_SUPPORTED_YET,
+            )
         return await q.next()
 
     async def _info_schema_middleware(self, q: Query) -> AllowedResult:
-- 
2.43.0


From d3111d172d08dbe404ffa7749fb9570e2579f836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 29/48] fix: list declared databases and tables that are empty

---
 mysql_mimic/schema.py | 48 ++++++++++++++++++++++++++++++++-----------
 mysql_mimic/utils.py  |  5 +----
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 5d7f587..8bc3328 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -4,7 +4,7 @@ import re
 from collections import defaultdict
 from itertools import chain
 from dataclasses import dataclass
-from typing import Any, Optional, List, Dict, Iterable
+from typing import Any, Optional, List, Dict, Iterable, Set, Tuple
 
 from sqlglot.executor import Table, execute
 from sqlglot import expressions as exp
@@ -28,11 +28,11 @@ class Column:
     catalog: Optional[str] = "def"
 
 
-def mapping_to_columns(schema: dict) -> List[Column]:
-    """Convert a schema mapping into a list of Column instances"""
+def normalize_mapping(schema: dict) -> Dict[str, Dict[str, Dict[str, Dict[str, str]]]]:
+    """Add the missing levels to a schema mapping: {catalog: {db: {table: {col: type}}}}"""
     depth = dict_depth(schema)
     if depth < 2:
-        return []
+        return {}
     if depth == 2:
         # {table: {col: type}}
         schema = {"": schema}
@@ -43,9 +43,13 @@ def mapping_to_columns(schema: dict) -> List[Column]:
         depth += 1
     if depth != 4:
         raise MysqlError("Invalid schema mapping")
+    return schema
 
+
+def mapping_to_columns(schema: dict) -> List[Column]:
+    """Convert a schema mapping into a list of Column instances"""
     result = []
-    for catalog, dbs in schema.items():
+    for catalog, dbs in normalize_mapping(schema).items():
         for db, tables in dbs.items():
             for table, cols in tables.items():
                 for column, coltype in cols.items():
@@ -62,11 +66,20 @@ def mapping_to_columns(schema: dict) -> List[Column]:
     return result
 
 
-def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]:
+def info_schema_tables(
+    columns: Iterable[Column],
+    extra_tables: Iterable[Tuple[str, str, str]] = (),
+    extra_dbs: Iterable[Tuple[str, str]] = (),
+) -> Dict[str, Dict[str, Table]]:
     """
     Convert a list of Column instances into a mapping of SQLGlot Tables.
 
     These Tables are used by SQLGlot to execute INFORMATION_SCHEMA queries.
+
+    Args:
+        columns: all columns
+        extra_tables: (catalog, db, table) of tables that may have no columns
+        extra_dbs: (catalog, db) of databases that may have no tables
     """
     ordinal_positions: dict[Any, int] = defaultdict(lambda: 0)
 
@@ -75,16 +88,14 @@ def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]
         for db, tables in INFO_SCHEMA.items()
     }
 
-    tables = set()
-    dbs = set()
-    catalogs = set()
+    tables: Set[Any] = set(extra_tables)
+    dbs: Set[Any] = set(extra_dbs)
 
     info_schema_cols = mapping_to_columns(INFO_SCHEMA)
 
     for column in chain(columns, info_schema_cols):
         tables.add((column.catalog, column.schema, column.table))
         dbs.add((column.catalog, column.schema))
-        catalogs.add(column.catalog)
         key = (column.catalog, column.schema, column.table)
         ordinal_position = ordinal_positions[key]
         ordinal_positions[key] += 1
@@ -293,8 +304,21 @@ class InfoSchema(BaseInfoSchema):
 
     @classmethod
     def from_mapping(cls, mapping: dict) -> InfoSchema:
-        columns = mapping_to_columns(mapping)
-        return cls(info_schema_tables(columns))
+        catalogs = normalize_mapping(mapping)
+        return cls(
+            info_schema_tables(
+                columns=mapping_to_columns(mapping),
+                extra_tables=[
+                    (catalog, db, table)
+                    for catalog, dbs in catalogs.items()
+                    for db, tables in dbs.items()
+                    for table in tables
+                ],
+                extra_dbs=[
+                    (catalog, db) for catalog, dbs in catalogs.items() for db in dbs
+                ],
+            )
+        )
 
     def _preprocess(self, expression: exp.Expression) -> exp.Expression:
         return expression.transform(_remove_collate)
diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index 676f045..28f9c80 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -91,13 +91,10 @@ def dict_depth(d: dict) -> int:
         int: depth
     """
     try:
-        return 1 + dict_depth(next(iter(d.values())))
+        return 1 + max((dict_depth(v) for v in d.values()), default=0)
     except AttributeError:
         # d doesn't have attribute "values"
         return 0
-    except StopIteration:
-        # d.values() returns an empty sequence
-        return 1
 
 
 async def aiterate(iterable: AsyncIterable[T] | Iterable[T]) -> AsyncIterator[T]:
-- 
2.43.0


From 866c495929a311945863f7868d702508808112c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 30/48] fix: take any declared name literally in SHOW and
 DESCRIBE

---
 mysql_mimic/schema.py  | 26 +++++++++++++++++---------
 mysql_mimic/session.py | 10 ++++++----
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 8bc3328..a1267e1 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -167,6 +167,14 @@ def info_schema_tables(
     return data
 
 
+def _equals(column: str, value: str) -> exp.Expression:
+    return exp.column(column).eq(exp.Literal.string(value))
+
+
+def _like(column: str, pattern: str) -> exp.Expression:
+    return exp.column(column).like(exp.Literal.string(pattern))
+
+
 def show_statement_to_info_schema_query(
     show: exp.Show, database: Optional[str] = None
 ) -> exp.Select:
@@ -197,14 +205,14 @@ def show_statement_to_info_schema_query(
         select = (
             exp.select(*outputs)
             .from_("information_schema.columns")
-            .where(f"table_name = '{table}'")
+            .where(_equals("table_name", table))
         )
         db = show.text("db") or database
         if db:
-            select = select.where(f"table_schema = '{db}'")
+            select = select.where(_equals("table_schema", db))
         like = show.text("like")
         if like:
-            select = select.where(f"column_name LIKE '{like}'")
+            select = select.where(_like("column_name", like))
     elif kind == "TABLES":
         outputs = ['table_name AS "Table_name"']
         if show.args.get("full"):
@@ -214,17 +222,17 @@ def show_statement_to_info_schema_query(
         db = show.text("db") or database
         if not db:
             raise MysqlError("No database selected.", code=ErrorCode.NO_DB_ERROR)
-        select = select.where(f"table_schema = '{db}'")
+        select = select.where(_equals("table_schema", db))
         like = show.text("like")
         if like:
-            select = select.where(f"table_name LIKE '{like}'")
+            select = select.where(_like("table_name", like))
     elif kind == "DATABASES":
         select = exp.select('schema_name AS "Database"').from_(
             "information_schema.schemata"
         )
         like = show.text("like")
         if like:
-            select = select.where(f"schema_name LIKE '{like}'")
+            select = select.where(_like("schema_name", like))
     elif kind == "INDEX":
         outputs = [
             '"table_name" AS Table',
@@ -252,11 +260,11 @@ def show_statement_to_info_schema_query(
         select = (
             exp.select(*outputs)
             .from_("information_schema.statistics")
-            .where(f"table_name = '{table}'")
+            .where(_equals("table_name", table))
         )
         db = show.text("db") or database
         if db:
-            select = select.where(f"table_schema = '{db}'")
+            select = select.where(_equals("table_schema", db))
     else:
         raise MysqlError(
             f"Unsupported SHOW command: {kind}", code=ErrorCode.NOT_SUPPORTED_YET
@@ -268,7 +276,7 @@ def show_statement_to_info_schema_query(
 def com_field_list_to_show_statement(com_field_list: ComFieldList) -> str:
     show = exp.Show(
         this="COLUMNS",
-        target=exp.to_identifier(com_field_list.table),
+        target=exp.to_identifier(com_field_list.table, quoted=True),
     )
     if com_field_list.wildcard:
         show.set("like", exp.Literal.string(com_field_list.wildcard))
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index bc93561..590897a 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -403,12 +403,14 @@ class Session(BaseSession):
     async def _describe_middleware(self, q: Query) -> AllowedResult:
         """Intercept DESCRIBE statements"""
         if isinstance(q.expression, exp.Describe):
-            if isinstance(q.expression.this, exp.Select):
+            table = q.expression.this
+            if not isinstance(table, exp.Table):
                 # Mysql parse treats EXPLAIN SELECT as a DESCRIBE SELECT statement
                 return await q.next()
-            name = q.expression.this.name
-            show = self.dialect().parse(f"SHOW COLUMNS FROM {name}")[0]
-            return await self._show(show) if isinstance(show, exp.Show) else None
+            show = exp.Show(
+                this="COLUMNS", target=table.this, db=table.args.get("db")
+            )
+            return await self._show(show)
         return await q.next()
 
     async def _rollback_middleware(self, q: Query) -> AllowedResult:
-- 
2.43.0


From ad5b07193a5df6cc0221339df472e27438e57648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 31/48] fix: match LIKE patterns against the whole string

---
 mysql_mimic/schema.py  | 59 ++++++++++++++++++++++++++++++++----------
 mysql_mimic/session.py |  6 ++---
 2 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index a1267e1..8a7b6b6 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -7,6 +7,7 @@ from dataclasses import dataclass
 from typing import Any, Optional, List, Dict, Iterable, Set, Tuple
 
 from sqlglot.executor import Table, execute
+from sqlglot.executor.env import ENV
 from sqlglot import expressions as exp
 
 from mysql_mimic.constants import INFO_SCHEMA
@@ -210,9 +211,8 @@ def show_statement_to_info_schema_query(
         db = show.text("db") or database
         if db:
             select = select.where(_equals("table_schema", db))
-        like = show.text("like")
-        if like:
-            select = select.where(_like("column_name", like))
+        if show.args.get("like"):
+            select = select.where(_like("column_name", show.text("like")))
     elif kind == "TABLES":
         outputs = ['table_name AS "Table_name"']
         if show.args.get("full"):
@@ -223,16 +223,14 @@ def show_statement_to_info_schema_query(
         if not db:
             raise MysqlError("No database selected.", code=ErrorCode.NO_DB_ERROR)
         select = select.where(_equals("table_schema", db))
-        like = show.text("like")
-        if like:
-            select = select.where(_like("table_name", like))
+        if show.args.get("like"):
+            select = select.where(_like("table_name", show.text("like")))
     elif kind == "DATABASES":
         select = exp.select('schema_name AS "Database"').from_(
             "information_schema.schemata"
         )
-        like = show.text("like")
-        if like:
-            select = select.where(_like("schema_name", like))
+        if show.args.get("like"):
+            select = select.where(_like("schema_name", show.text("like")))
     elif kind == "INDEX":
         outputs = [
             '"table_name" AS Table',
@@ -283,10 +281,30 @@ def com_field_list_to_show_statement(com_field_list: ComFieldList) -> str:
     return show.sql(dialect="mysql")
 
 
-def like_to_regex(like: str) -> re.Pattern:
-    like = like.replace("%", ".*?")
-    like = like.replace("_", ".")
-    return re.compile(like)
+def like_to_regex(like: str, escape: str = "\\") -> re.Pattern:
+    """Convert a LIKE pattern into a regex that matches exactly the same strings"""
+    regex = ""
+    chars = iter(like)
+    for char in chars:
+        if char == escape:
+            regex += re.escape(next(chars, char))
+        elif char == "%":
+            regex += ".*"
+        elif char == "_":
+            regex += "."
+        else:
+            regex += re.escape(char)
+    return re.compile(rf"{regex}\Z", re.DOTALL)
+
+
+def _mysql_like(this: Any, pattern: Any, escape: str = "\\") -> Optional[bool]:
+    if this is None or pattern is None:
+        return None
+    return bool(like_to_regex(str(pattern), escape).match(str(this)))
+
+
+# SQLGlot's executor implements LIKE as a regex that matches a prefix
+ENV["MYSQL_LIKE"] = _mysql_like
 
 
 class BaseInfoSchema:
@@ -329,7 +347,7 @@ class InfoSchema(BaseInfoSchema):
         )
 
     def _preprocess(self, expression: exp.Expression) -> exp.Expression:
-        return expression.transform(_remove_collate)
+        return expression.transform(_remove_collate).transform(_replace_like)
 
 
 def ensure_info_schema(schema: dict | BaseInfoSchema) -> BaseInfoSchema:
@@ -347,3 +365,16 @@ def _remove_collate(node: exp.Expression) -> exp.Expression:
     if isinstance(node, exp.Collate):
         return node.left
     return node
+
+
+def _replace_like(node: exp.Expression) -> exp.Expression:
+    """
+    Replace LIKE by a function with the semantics of MySQL.
+    """
+    if isinstance(node, exp.Escape) and isinstance(node.this, exp.Like):
+        return exp.func(
+            "MYSQL_LIKE", node.this.this, node.this.expression, node.expression
+        )
+    if isinstance(node, exp.Like):
+        return exp.func("MYSQL_LIKE", node.this, node.expression)
+    return node
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 590897a..869529d 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -604,9 +604,9 @@ class Session(BaseSession):
 
     def _show_variables(self, show: exp.Show) -> AllowedResult:
         rows = [(k, None if v is None else str(v)) for k, v in self.variables.list()]
-        like = show.text("like")
-        if like:
-            rows = [(k, v) for k, v in rows if like_to_regex(like).match(k)]
+        if show.args.get("like"):
+            regex = like_to_regex(show.text("like"))
+            rows = [(k, v) for k, v in rows if regex.match(k)]
         return rows, ["Variable_name", "Value"]
 
     def _show_status(self, show: exp.Show) -> AllowedResult:
-- 
2.43.0


From 4393cb3e7407133cfcaaa41c3dc0c9a7ca8dc300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 32/48] fix: send the default value of a COM_FIELD_LIST column
 with one length

---
 mysql_mimic/packets.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index bd9a724..8d6b8f6 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -382,8 +382,7 @@ def make_column_definition_41(
         if default is None:
             parts.append(uint_len(0))
         else:
-            default_values = server_charset.encode(default)
-            parts.extend([uint_len(len(default_values)), str_len(default_values)])
+            parts.append(str_len(server_charset.encode(default)))
     return _concat(*parts)
 
 
-- 
2.43.0


From 369bdbaf58a5aaf0e9566ab05aada0474bb488dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 33/48] fix: find the tables of a schema without databases in
 the current database

---
 mysql_mimic/session.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 869529d..862e14e 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -33,7 +33,7 @@ from mysql_mimic.schema import (
     ensure_info_schema,
 )
 from mysql_mimic.constants import INFO_SCHEMA, KillKind
-from mysql_mimic.utils import find_tables
+from mysql_mimic.utils import dict_depth, find_tables
 from mysql_mimic.variables import (
     Variables,
     SessionVariables,
@@ -313,7 +313,12 @@ class Session(BaseSession):
         return [e for e in self.dialect().parse(sql) if e]
 
     async def _query_info_schema(self, expression: exp.Expression) -> AllowedResult:
-        return await ensure_info_schema(await self.schema()).query(expression)
+        schema = await self.schema()
+        if isinstance(schema, dict) and dict_depth(schema) == 2:
+            # {table: {col: type}} declares the tables of the current database
+            if self.database and self.database.lower() not in INFO_SCHEMA:
+                schema = {self.database: schema}
+        return await ensure_info_schema(schema).query(expression)
 
     async def _set_var_middleware(self, q: Query) -> AllowedResult:
         """Handles any SET_VAR hints, which set system variables for a single statement"""
-- 
2.43.0


From 6e5156e60d2f70dc043f87ef4f1bfed1a8df9038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 34/48] fix: accept IN where SHOW accepts FROM

---
 mysql_mimic/schema.py  |  2 +-
 mysql_mimic/session.py | 22 +++++++++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 8a7b6b6..4c91542 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -225,7 +225,7 @@ def show_statement_to_info_schema_query(
         select = select.where(_equals("table_schema", db))
         if show.args.get("like"):
             select = select.where(_like("table_name", show.text("like")))
-    elif kind == "DATABASES":
+    elif kind in ("DATABASES", "SCHEMAS"):
         select = exp.select('schema_name AS "Database"').from_(
             "information_schema.schemata"
         )
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 862e14e..2153f52 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -17,6 +17,7 @@ from sqlglot import Dialect
 from sqlglot.dialects import MySQL
 from sqlglot import expressions as exp
 from sqlglot.executor import execute
+from sqlglot.tokens import Token, TokenType
 
 from mysql_mimic.charset import CharacterSet
 from mysql_mimic.errors import ErrorCode, MysqlError
@@ -55,6 +56,23 @@ def _is_command(expression: exp.Expression, keyword: str) -> bool:
     return isinstance(expression, exp.Command) and expression.name.upper() == keyword
 
 
+def _show_from(tokens: List[Token]) -> List[Token]:
+    """Spell SHOW ... IN as SHOW ... FROM, which is the only form SQLGlot parses"""
+    start = True
+    show = False
+    for i, token in enumerate(tokens):
+        if start:
+            show = token.token_type == TokenType.SHOW
+        elif token.token_type in (TokenType.LIKE, TokenType.WHERE):
+            show = False
+        elif show and token.token_type == TokenType.IN:
+            tokens[i] = Token(
+                TokenType.FROM, "FROM", token.line, token.col, token.start, token.end
+            )
+        start = token.token_type == TokenType.SEMICOLON
+    return tokens
+
+
 @dataclass
 class Query:
     """
@@ -310,7 +328,9 @@ class Session(BaseSession):
         self.database = database
 
     def _parse(self, sql: str) -> List[exp.Expression]:
-        return [e for e in self.dialect().parse(sql) if e]
+        dialect = self.dialect()
+        tokens = _show_from(dialect.tokenize(sql))
+        return [e for e in dialect.parser().parse(tokens, sql) if e]
 
     async def _query_info_schema(self, expression: exp.Expression) -> AllowedResult:
         schema = await self.schema()
-- 
2.43.0


From f2f886c609d939f56c2218dce4df2a74b94eab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 35/48] fix: map MySQL character set names to Python codecs

---
 mysql_mimic/charset.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/charset.py b/mysql_mimic/charset.py
index 5e971a8..af40dae 100644
--- a/mysql_mimic/charset.py
+++ b/mysql_mimic/charset.py
@@ -2,6 +2,21 @@ from __future__ import annotations
 from enum import IntEnum
 
 
+# Python codecs of the character sets that Python knows by another name
+CODECS = {
+    "hp8": "hp_roman8",
+    "koi8r": "koi8_r",
+    "koi8u": "koi8_u",
+    "macce": "mac_latin2",
+    "ucs2": "utf_16_be",
+    # Without a byte order mark, as opposed to Python's utf_16 and utf_32
+    "utf16": "utf_16_be",
+    "utf16le": "utf_16_le",
+    "utf32": "utf_32_be",
+    "utf8mb4": "utf8",
+}
+
+
 class CharacterSet(IntEnum):
     big5 = 1
     dec8 = 3
@@ -47,9 +62,8 @@ class CharacterSet(IntEnum):
 
     @property
     def codec(self) -> str:
-        if self.name == "utf8mb4":
-            return "utf8"
-        return self.name
+        """Name of the Python codec"""
+        return CODECS.get(self.name, self.name)
 
     @property
     def default_collation(self) -> Collation:
-- 
2.43.0


From 725e08aaa75f9fe6bdb6d104b08c036b1c658831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 36/48] fix: reject variable assignments that cannot take
 effect

---
 mysql_mimic/session.py   |  2 +-
 mysql_mimic/variables.py | 48 +++++++++++++++++++++++++++++++++-------
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 2153f52..4b6c3a8 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -611,7 +611,7 @@ class Session(BaseSession):
             charset_name = DEFAULT
             collation_name = DEFAULT
         else:
-            charset_name = item.name
+            charset_name = item.name.lower()
             collation_name = (
                 item.text("collate")
                 or CharacterSet[charset_name].default_collation.name
diff --git a/mysql_mimic/variables.py b/mysql_mimic/variables.py
index e5a0d8a..ad53f36 100644
--- a/mysql_mimic/variables.py
+++ b/mysql_mimic/variables.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import abc
+import codecs
 import re
 from datetime import timezone, timedelta
 from functools import lru_cache
@@ -19,15 +20,40 @@ VariableSchema = Tuple[VariableType, Any, bool]
 
 DEFAULT = Default()
 
+BOOLEANS = {"on": True, "true": True, "1": True, "off": False, "false": False, "0": False}
+
+
+def character_set(value: Any) -> str:
+    """Type of the variables that name a character set"""
+    name = str(value).lower()
+    codecs.lookup(CharacterSet[name].codec)
+    return name
+
+
+def time_zone(value: Any) -> str:
+    """Type of the variables that name a time zone"""
+    parse_timezone(str(value))
+    return str(value)
+
+
+def coerce(type_: VariableType, value: Any) -> Any:
+    """Convert a value to the type of a variable"""
+    if type_ is bool and isinstance(value, str):
+        return BOOLEANS[value.lower()]
+    if type_ is str and isinstance(value, bool):
+        return "ON" if value else "OFF"
+    return type_(value)
+
+
 SYSTEM_VARIABLES: dict[str, VariableSchema] = {
     # name: (type, default, dynamic)
     "auto_increment_increment": (int, 1, True),
     "autocommit": (bool, True, True),
-    "character_set_client": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_connection": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_database": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_results": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_server": (str, CharacterSet.utf8mb4.name, True),
+    "character_set_client": (character_set, CharacterSet.utf8mb4.name, True),
+    "character_set_connection": (character_set, CharacterSet.utf8mb4.name, True),
+    "character_set_database": (character_set, CharacterSet.utf8mb4.name, True),
+    "character_set_results": (character_set, CharacterSet.utf8mb4.name, True),
+    "character_set_server": (character_set, CharacterSet.utf8mb4.name, True),
     "collation_connection": (str, Collation.utf8mb4_general_ci.name, True),
     "collation_database": (str, Collation.utf8mb4_general_ci.name, True),
     "collation_server": (str, Collation.utf8mb4_general_ci.name, True),
@@ -45,7 +71,7 @@ SYSTEM_VARIABLES: dict[str, VariableSchema] = {
     "sql_mode": (str, "ANSI", True),
     "sql_select_limit": (int, None, True),
     "system_time_zone": (str, "UTC", False),
-    "time_zone": (str, "UTC", True),
+    "time_zone": (time_zone, "UTC", True),
     "transaction_read_only": (bool, False, True),
     "transaction_isolation": (str, "READ-COMMITTED", True),
     "version": (str, "8.0.29", False),
@@ -86,7 +112,13 @@ class Variables(abc.ABC):
         if value is DEFAULT or value is None:
             self.values[name] = default
         else:
-            self.values[name] = type_(value)
+            try:
+                self.values[name] = coerce(type_, value)
+            except (LookupError, TypeError, ValueError, OverflowError, MysqlError) as e:
+                raise MysqlError(
+                    f"Variable '{name}' can't be set to the value of '{value}'",
+                    code=ErrorCode.WRONG_VALUE_FOR_VAR,
+                ) from e
 
     def get(self, name: str) -> Any:
         name = name.lower()
@@ -124,7 +156,7 @@ class SessionVariables(Variables):
         return self.global_variables.schema
 
 
-RE_TIMEZONE = re.compile(r"^(?P<sign>[+-])(?P<hours>\d\d):(?P<minutes>\d\d)")
+RE_TIMEZONE = re.compile(r"^(?P<sign>[+-])(?P<hours>\d\d):(?P<minutes>[0-5]\d)\Z")
 
 
 @lru_cache(maxsize=48)
-- 
2.43.0


From 943e87d270de77f7419f4f5775e84480d991b719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 37/48] fix: infer a type that holds integers of more than 64
 bits

---
 mysql_mimic/results.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index db16cb6..e85491a 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -409,6 +409,9 @@ _BINARY_ENCODERS: Dict[ColumnType, Encoder] = {
 
 
 def infer_type(val: Any) -> ColumnType:
+    if isinstance(val, int) and not -(2**63) <= val < 2**63:
+        # Too big for the binary encoding of LONGLONG
+        return ColumnType.NEWDECIMAL
     for py_type, my_type in _PY_TO_MYSQL_TYPE.items():
         if isinstance(val, py_type):
             return my_type
-- 
2.43.0


From e0d06c31689ecd998322aa146a44bc9679ee2503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 38/48] fix: accept DEFAULT, ON and OFF in any case

---
 mysql_mimic/intercept.py | 7 ++++---
 mysql_mimic/session.py   | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/intercept.py b/mysql_mimic/intercept.py
index 26e77c0..c3ff68a 100644
--- a/mysql_mimic/intercept.py
+++ b/mysql_mimic/intercept.py
@@ -56,11 +56,12 @@ def expression_to_value(expression: exp.Expression) -> Any:
             return float(expression.this)
     if isinstance(expression, exp.Literal):
         return expression.name
-    if expression.name == "DEFAULT":
+    name = expression.name.upper()
+    if name == "DEFAULT":
         return DEFAULT
-    if expression.name == "ON":
+    if name == "ON":
         return True
-    if expression.name == "OFF":
+    if name == "OFF":
         return False
     raise MysqlError(
         "Complex expressions in variables not supported yet",
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 4b6c3a8..98ab131 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -594,7 +594,7 @@ class Session(BaseSession):
     def _set_charset(self, item: exp.SetItem) -> None:
         charset_name: Any
         charset_conn: Any
-        if item.name == "DEFAULT":
+        if item.name.upper() == "DEFAULT":
             charset_name = DEFAULT
             charset_conn = DEFAULT
         else:
@@ -607,7 +607,7 @@ class Session(BaseSession):
     def _set_names(self, item: exp.SetItem) -> None:
         charset_name: Any
         collation_name: Any
-        if item.name == "DEFAULT":
+        if item.name.upper() == "DEFAULT":
             charset_name = DEFAULT
             collation_name = DEFAULT
         else:
-- 
2.43.0


From 643fae84b9319dd5ccd5312966df62f6b65d492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 39/48] fix: evaluate NOW() in the time zone that applies to
 its statement

---
 mysql_mimic/session.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 98ab131..6e9a464 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -214,9 +214,9 @@ class Session(BaseSession):
             "CURRENT_USER": lambda: self.username,
             "VERSION": lambda: self.variables.get("version"),
             "DATABASE": lambda: self.database,
-            "NOW": lambda: self.timestamp.strftime("%Y-%m-%d %H:%M:%S"),
-            "CURDATE": lambda: self.timestamp.strftime("%Y-%m-%d"),
-            "CURTIME": lambda: self.timestamp.strftime("%H:%M:%S"),
+            "NOW": lambda: self._local_time().strftime("%Y-%m-%d %H:%M:%S"),
+            "CURDATE": lambda: self._local_time().strftime("%Y-%m-%d"),
+            "CURTIME": lambda: self._local_time().strftime("%H:%M:%S"),
         }
         # Synonyms
         self._functions.update(
@@ -643,6 +643,10 @@ class Session(BaseSession):
     def _show_errors(self, show: exp.Show) -> AllowedResult:
         return [], ["Level", "Code", "Message"]
 
+    def _local_time(self) -> datetime:
+        # The time zone may have changed since the query started
+        return self.timestamp.astimezone(self.timezone())
+
     def timezone(self) -> timezone_:
         tz = self.variables.get("time_zone")
         return parse_timezone(tz)
-- 
2.43.0


From 2c14fabfb3b48fc9f1156d1367385b53bfbef0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 40/48] fix: do not apply SET GLOBAL TRANSACTION to the session

---
 mysql_mimic/session.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 6e9a464..b070c4c 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -622,6 +622,11 @@ class Session(BaseSession):
         self.variables.set("collation_connection", collation_name)
 
     def _set_transaction(self, item: exp.SetItem) -> None:
+        if item.args.get("global"):
+            raise MysqlError(
+                "Cannot SET TRANSACTION with scope GLOBAL",
+                code=ErrorCode.NOT_SUPPORTED_YET,
+            )
         characteristics = [e.name.upper() for e in item.expressions]
         for characteristic in characteristics:
             variable, value = TRANSACTION_CHARACTERISTICS[characteristic]
-- 
2.43.0


From be78d7568cd7e22f14db89d6f4ebab8d37367430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:17 +0000
Subject: [PATCH 41/48] fix: keep the literals of adjacent placeholders apart

---
 mysql_mimic/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 8d6b8f6..f1b6083 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -43,7 +43,7 @@ from mysql_mimic.types import (
 )
 
 # Characters that could form a token together with an adjacent literal
-RE_MERGES = re.compile(r"""[\w$@.'"`-]""")
+RE_MERGES = re.compile(r"""[\w$@.?'"`-]""")
 
 
 @dataclass
-- 
2.43.0


From 697dd8f68e01b791762f1ca1e6fc66a77ed2d604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 42/48] fix: read null-terminated strings in linear time

---
 mysql_mimic/types.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/mysql_mimic/types.py b/mysql_mimic/types.py
index 25e042c..807eaec 100644
--- a/mysql_mimic/types.py
+++ b/mysql_mimic/types.py
@@ -315,14 +315,13 @@ def read_str_fixed(reader: io.BytesIO, l: int) -> bytes:
 
 
 def read_str_null(reader: io.BytesIO) -> bytes:
-    data = b""
-    while True:
-        b = reader.read(1)
-        if b == b"\x00":
-            return data
-        if not b:
-            raise ValueError("Malformed packet: string is not null-terminated")
-        data += b
+    pos = reader.tell()
+    end = reader.getvalue().find(b"\x00", pos)
+    if end < 0:
+        raise ValueError("Malformed packet: string is not null-terminated")
+    data = reader.read(end - pos)
+    reader.read(1)
+    return data
 
 
 def read_str_len(reader: io.BytesIO) -> bytes:
-- 
2.43.0


From 78d707992cd774b7965de8e3eeb7288288d2de03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 43/48] fix: match LIKE patterns without exponential
 backtracking

---
 mysql_mimic/schema.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 4c91542..2035c89 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -283,18 +283,30 @@ def com_field_list_to_show_statement(com_field_list: ComFieldList) -> str:
 
 def like_to_regex(like: str, escape: str = "\\") -> re.Pattern:
     """Convert a LIKE pattern into a regex that matches exactly the same strings"""
-    regex = ""
+    part: List[str] = []
+    parts = [part]  # what's between the % wildcards
     chars = iter(like)
     for char in chars:
         if char == escape:
-            regex += re.escape(next(chars, char))
+            part.append(re.escape(next(chars, char)))
         elif char == "%":
-            regex += ".*"
+            part = []
+            parts.append(part)
         elif char == "_":
-            regex += "."
+            part.append(".")
         else:
-            regex += re.escape(char)
-    return re.compile(rf"{regex}\Z", re.DOTALL)
+            part.append(re.escape(char))
+
+    first, *rest = ["".join(part) for part in parts]
+    regex = [first]
+    for i, text in enumerate(rest):
+        if i == len(rest) - 1:
+            regex.append(f".*{text}")
+        elif text:
+            # Stick to the first occurrence of this part. There's no need to backtrack,
+            # which would take exponential time.
+            regex.append(f"(?=(?P<part{i}>.*?{text}))(?P=part{i})")
+    return re.compile(rf"{''.join(regex)}\Z", re.DOTALL)
 
 
 def _mysql_like(this: Any, pattern: Any, escape: str = "\\") -> Optional[bool]:
-- 
2.43.0


From 2bf8e5bc1aeaa125a4fecc973db8d0106d6339cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 44/48] fix: run no statement for a comment after the last
 semicolon

---
 mysql_mimic/session.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index b070c4c..85db97b 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -330,7 +330,12 @@ class Session(BaseSession):
     def _parse(self, sql: str) -> List[exp.Expression]:
         dialect = self.dialect()
         tokens = _show_from(dialect.tokenize(sql))
-        return [e for e in dialect.parser().parse(tokens, sql) if e]
+        # A comment after the last semicolon is no statement, though SQLGlot may return one for it
+        return [
+            e
+            for e in dialect.parser().parse(tokens, sql)
+            if e and e.key != "semicolon"
+        ]
 
     async def _query_info_schema(self, expression: exp.Expression) -> AllowedResult:
         schema = await self.schema()
-- 
2.43.0


From 6759f518178ff1db657f52633820114ba61d7ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 45/48] fix: DUAL is no table of the current catalog database

---
 mysql_mimic/session.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 85db97b..21b6dae 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -562,7 +562,13 @@ class Session(BaseSession):
     async def _info_schema_middleware(self, q: Query) -> AllowedResult:
         """Intercept queries to INFORMATION_SCHEMA tables"""
         tables = find_tables(q.expression)
-        dbs = [table.text("db") or self.database or "" for table in tables]
+        dbs = [
+            # DUAL belongs to no database, not even the current one
+            table.text("db")
+            or (self.database if table.name.upper() != "DUAL" else None)
+            or ""
+            for table in tables
+        ]
         if dbs and all(db.lower() in INFO_SCHEMA for db in dbs):
             for table, db in zip(tables, dbs):
                 table.set("db", exp.to_identifier(db))
-- 
2.43.0


From 30b44f7cec8037fca0b73a6b37e38aed14fd357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 46/48] fix: drop the long data of an execution that is refused

---
 mysql_mimic/packets.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index f1b6083..fad9b45 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -430,11 +430,16 @@ def parse_com_stmt_execute(
     r = io.BytesIO(data)
     stmt_id = read_uint_4(r)
     stmt = get_stmt(stmt_id)
-    use_cursor, param_count_available = _read_cursor_flags(r)
-    read_uint_4(r)  # iteration count. Always 1.
-    sql, query_attrs = _interpolate_params(
-        capabilities, client_charset, r, stmt, param_count_available
-    )
+    try:
+        use_cursor, param_count_available = _read_cursor_flags(r)
+        read_uint_4(r)  # iteration count. Always 1.
+        sql, query_attrs = _interpolate_params(
+            capabilities, client_charset, r, stmt, param_count_available
+        )
+    except Exception:
+        # The long data were sent for this execution only
+        stmt.param_buffers = None
+        raise
     return ComStmtExecute(
         sql=sql,
         query_attrs=query_attrs,
-- 
2.43.0


From 7b6b01fb4f2160e8cddb5a6d953017936b56216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 47/48] fix: a KILL QUERY that a failing command issues itself
 doesn't end the connection

---
 mysql_mimic/connection.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 2bf2c42..caaf3b4 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -369,6 +369,7 @@ class Connection:
                 await self._check_killed()
 
             except MysqlError as e:
+                await self._settle_kill()
                 logger.error(e)
                 await self.stream.write(self.error(msg=e.msg, code=e.code))
             except asyncio.CancelledError:
@@ -387,6 +388,7 @@ class Connection:
                 else:
                     raise
             except Exception as e:  # pylint: disable=broad-except
+                await self._settle_kill()
                 logger.exception(e)
                 await self.stream.write(self.error(msg=e))
             finally:
@@ -399,6 +401,17 @@ class Connection:
         if self._kill:
             await asyncio.sleep(0)
 
+    async def _settle_kill(self) -> None:
+        """Drop a KILL QUERY of a command that has failed, lest it hits what follows"""
+        try:
+            await self._check_killed()
+        except asyncio.CancelledError:
+            if self._kill != KillKind.QUERY:
+                raise
+            if self._task and hasattr(self._task, "uncancel"):  # python >=3.11
+                self._task.uncancel()
+            self._kill = None
+
     async def handle_ping(self, data: bytes) -> None:  # pylint: disable=unused-argument
         """
         https://dev.mysql.com/doc/internals/en/com-ping.html
-- 
2.43.0


From f7cd526561255b4b55e585d60631c587ca5e58bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:25 +0000
Subject: [PATCH 48/48] fix: truth values in integer columns are numbers in the
 text protocol, too

---
 mysql_mimic/results.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index e85491a..d5d7e93 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -297,6 +297,11 @@ def _text_encode_tiny(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, int(val))
 
 
+def _text_encode_number(col: ResultColumn, val: Any) -> bytes:
+    # bool is a subclass of int
+    return _text_encode_str(col, int(val) if isinstance(val, bool) else val)
+
+
 def _text_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
     if not isinstance(val, timedelta):
         return _text_encode_str(col, val)
@@ -336,18 +341,18 @@ _PY_TO_MYSQL_TYPE = {
 _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.DECIMAL: _text_encode_str,
     ColumnType.TINY: _text_encode_tiny,
-    ColumnType.SHORT: _text_encode_str,
-    ColumnType.LONG: _text_encode_str,
-    ColumnType.FLOAT: _text_encode_str,
-    ColumnType.DOUBLE: _text_encode_str,
+    ColumnType.SHORT: _text_encode_number,
+    ColumnType.LONG: _text_encode_number,
+    ColumnType.FLOAT: _text_encode_number,
+    ColumnType.DOUBLE: _text_encode_number,
     ColumnType.NULL: _unsupported,
     ColumnType.TIMESTAMP: _text_encode_str,
-    ColumnType.LONGLONG: _text_encode_str,
-    ColumnType.INT24: _text_encode_str,
+    ColumnType.LONGLONG: _text_encode_number,
+    ColumnType.INT24: _text_encode_number,
     ColumnType.DATE: _text_encode_str,
     ColumnType.TIME: _text_encode_timedelta,
     ColumnType.DATETIME: _text_encode_str,
-    ColumnType.YEAR: _text_encode_str,
+    ColumnType.YEAR: _text_encode_number,
     ColumnType.NEWDATE: _text_encode_str,
     ColumnType.VARCHAR: _text_encode_str,
     ColumnType.BIT: _text_encode_str,
-- 
2.43.0

