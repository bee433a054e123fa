From 1b867d3f6cf1334cdd6730c280d5c1f8b0d3da39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 01/45] fix: keep special permission bits when uploading a file
 with an owner or group

---
 src/fora/connectors/tunnel_dispatcher.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index b35d694..71cda8e 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -581,10 +581,11 @@ class PacketUpload(NamedTuple):
 
         with open(self.file, 'wb') as f:
             f.write(self.content)
-        if mode_oct is not None:
-            os.chmod(self.file, mode_oct)
+        # The mode must be set last, as changing the owner clears the set-user-id and set-group-id bits.
         if uid is not None or gid is not None:
             os.chown(self.file, uid or 0, gid or 0)
+        if mode_oct is not None:
+            os.chmod(self.file, mode_oct)
 
         conn.write_packet(PacketOk())
 
-- 
2.43.0


From 66721ca9bdbeb95d6fded3eaa1997be9926a5291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 02/45] fix: don't let remote commands read from or write to
 the packet stream

---
 src/fora/connectors/tunnel_dispatcher.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 71cda8e..a118480 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -408,9 +408,11 @@ class PacketProcessRun(NamedTuple):
 
         # Execute command with desired parameters
         try:
+            # The command must never inherit our stdin and stdout, as these carry the packets.
             result = subprocess.run(self.command,
-                input=self.stdin,
-                capture_output=self.capture_output,
+                input=self.stdin if self.stdin is not None else b"",
+                stdout=subprocess.PIPE if self.capture_output else sys.stderr,
+                stderr=subprocess.PIPE if self.capture_output else None,
                 cwd=self.cwd,
                 preexec_fn=child_preexec,
                 check=False)
-- 
2.43.0


From 1990ce25aaf47c78a45e1ec2f54eac62202012b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 03/45] fix: support files with timestamps before the epoch

---
 src/fora/connectors/tunnel_dispatcher.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index a118480..cb11cab 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -431,8 +431,8 @@ class PacketStatResult(NamedTuple):
     owner: str
     group: str
     size: u64
-    mtime: u64
-    ctime: u64
+    mtime: i64
+    ctime: i64
     sha512sum: Optional[bytes]
 
 @Packet(type='request')
@@ -485,8 +485,8 @@ class PacketStat(NamedTuple):
             owner=owner,
             group=group,
             size=u64(s.st_size),
-            mtime=u64(s.st_mtime_ns),
-            ctime=u64(s.st_ctime_ns),
+            mtime=i64(s.st_mtime_ns),
+            ctime=i64(s.st_ctime_ns),
             sha512sum=sha512sum))
 
 @Packet(type='response')
-- 
2.43.0


From f927cb37bb51f5bd36f2ed5f1d5c54fda93b48ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 04/45] fix: never accept truncated packets

---
 src/fora/connectors/tunnel_dispatcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index cb11cab..6a9b564 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -168,7 +168,10 @@ class Connection:
 
     def read(self, count: int) -> bytes:
         """Reads exactly the given amount of bytes."""
-        return self.buffer_in.read(count)
+        data = self.buffer_in.read(count)
+        if len(data) != count:
+            raise IOError("Unexpected EOF in data stream")
+        return data
 
     def write(self, data: bytes, count: int) -> None:
         """Writes exactly the given amount of bytes from data."""
-- 
2.43.0


From 215b378bd0a16414e6270262c60b7ebd58ad849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 05/45] fix: transmit text from the system that isn't valid
 utf-8

---
 src/fora/connectors/tunnel_dispatcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 6a9b564..ebbbe41 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -203,7 +203,7 @@ _serializers[u32]   = lambda conn, v: conn.write(pack(">I", v), 4)
 _serializers[i64]   = lambda conn, v: conn.write(pack(">q", v), 8)
 _serializers[u64]   = lambda conn, v: conn.write(pack(">Q", v), 8)
 _serializers[bytes] = lambda conn, v: (_serializers[u64](conn, len(v)), conn.write(v, len(v))) # type: ignore[func-returns-value]
-_serializers[str]   = lambda conn, v: _serializers[bytes](conn, v.encode('utf-8'))
+_serializers[str]   = lambda conn, v: _serializers[bytes](conn, v.encode('utf-8', 'surrogateescape'))
 
 def _serialize(conn: Connection, vtype: Type[Any], v: Any) -> None:
     """Serializes v based on the underlying type 'vtype' and writes it to the given connection."""
@@ -229,7 +229,7 @@ _deserializers[u32]   = lambda conn: unpack(">I", conn.read(4))[0]
 _deserializers[i64]   = lambda conn: unpack(">q", conn.read(8))[0]
 _deserializers[u64]   = lambda conn: unpack(">Q", conn.read(8))[0]
 _deserializers[bytes] = lambda conn: conn.read(_deserializers[u64](conn))
-_deserializers[str]   = lambda conn: _deserializers[bytes](conn).decode('utf-8')
+_deserializers[str]   = lambda conn: _deserializers[bytes](conn).decode('utf-8', 'surrogateescape')
 
 def _deserialize(conn: Connection, vtype: Type[Any]) -> Any:
     """Deserializes an object from the given connection based on the underlying type 'vtype' and returns it."""
-- 
2.43.0


From 446afe38bab3c8a02ff1bcae80570bbc8958b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 06/45] fix: don't send partial packets when a value cannot be
 serialized

---
 src/fora/connectors/tunnel_dispatcher.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index ebbbe41..192f3c3 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -9,6 +9,7 @@ needed remote system related utilities.
 
 import errno as sys_errno
 import hashlib
+import io
 import os
 import stat
 import struct
@@ -183,7 +184,12 @@ class Connection:
             raise ValueError("Invalid argument: Must be a packet!")
         # We don't expose write directly, as the type checker currently is unable
         # to determine whether this function exists, as it is added by the @Packet decorator.
-        packet._write(self) # pylint: disable=protected-access
+        # The packet is assembled in a buffer first, so no partial packet will be sent if any value cannot be serialized.
+        buffer = io.BytesIO()
+        packet._write(Connection(self.buffer_in, buffer)) # pylint: disable=protected-access
+        data = buffer.getvalue()
+        self.write(data, len(data))
+        self.flush()
 
 # Primary serialization and deserialization
 # ----------------------------------------------------------------
-- 
2.43.0


From 5f403a72be8bf9ec842ea75b57d7205deb0bafcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 07/45] fix: don't report a path that cannot be transmitted as
 missing

---
 src/fora/connectors/tunnel_connector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_connector.py b/src/fora/connectors/tunnel_connector.py
index 68407c1..29e4cdc 100644
--- a/src/fora/connectors/tunnel_connector.py
+++ b/src/fora/connectors/tunnel_connector.py
@@ -132,8 +132,9 @@ class TunnelConnector(Connector):
             follow_links=follow_links,
             sha512sum=sha512sum)
 
+        self.conn.write_packet(request)
         try:
-            response = self._request(request)
+            response = td.receive_packet(self.conn, request=request)
         except ValueError:
             # File was not found, return None
             return None
-- 
2.43.0


From 3667ac5d7d2e130b51c796d38300b3ca0a89b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 08/45] fix: report every failed request instead of ending the
 dispatcher

---
 src/fora/connectors/tunnel_dispatcher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 192f3c3..137ded9 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -807,7 +807,11 @@ def _main() -> None:
         try:
             packet.handle(conn)
         except OSError as e:
-            conn.write_packet(PacketOSError(errno=i64(e.errno), strerror=e.strerror, msg=str(e)))
+            errno = sys_errno.EIO if e.errno is None else e.errno
+            conn.write_packet(PacketOSError(errno=i64(errno), strerror=e.strerror or os.strerror(errno), msg=str(e)))
+        except Exception as e: # pylint: disable=broad-except
+            # Any other failure (e.g. a path with an embedded null byte) must also be reported.
+            conn.write_packet(PacketOSError(errno=i64(sys_errno.EINVAL), strerror=os.strerror(sys_errno.EINVAL), msg=f"{type(e).__name__}: {str(e)}"))
 
 if __name__ == '__main__':
     _main()
-- 
2.43.0


From 01fcc4ff930eccabe15c153646d9156aebe79f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 09/45] fix: refuse modes and umasks that are out of range

---
 src/fora/connectors/tunnel_dispatcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 137ded9..cab9f13 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -87,9 +87,12 @@ def _resolve_oct(value: str) -> int:
         The numeric representation of the octal value
     """
     try:
-        return int(value, 8)
+        oct_value = int(value, 8)
     except ValueError:
         raise ValueError(f"Invalid value '{value}': Must be in octal format.") # pylint: disable=raise-missing-from
+    if not 0 <= oct_value <= 0o7777:
+        raise ValueError(f"Invalid value '{value}': Must be between 0 and 7777.")
+    return oct_value
 
 def _resolve_user(user: str) -> tuple[int, int]:
     """
-- 
2.43.0


From ff8bc8c962caac5290176439fcdd631bd8250c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:59 +0000
Subject: [PATCH 10/45] fix: drop the dispatcher's supplementary groups when
 running as another user

---
 src/fora/connectors/tunnel_dispatcher.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index cab9f13..4b494c0 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -94,9 +94,9 @@ def _resolve_oct(value: str) -> int:
         raise ValueError(f"Invalid value '{value}': Must be between 0 and 7777.")
     return oct_value
 
-def _resolve_user(user: str) -> tuple[int, int]:
+def _resolve_user(user: str) -> tuple[int, int, str]:
     """
-    Resolves the given user string to a uid and gid.
+    Resolves the given user string to a uid, gid and name.
     The string may be either a username or a uid.
     Raises a ValueError if the user/uid does not exist.
 
@@ -107,8 +107,8 @@ def _resolve_user(user: str) -> tuple[int, int]:
 
     Returns
     -------
-    tuple[int, int]
-        A tuple (uid, gid) with the numeric ids of the user and its primary group
+    tuple[int, int, str]
+        A tuple (uid, gid, name) with the numeric ids of the user and its primary group, and the user's name
     """
     try:
         pw = getpwnam(user)
@@ -122,7 +122,7 @@ def _resolve_user(user: str) -> tuple[int, int]:
         except ValueError:
             raise ValueError(f"The user with the name '{user}' does not exist.") # pylint: disable=raise-missing-from
 
-    return (pw.pw_uid, pw.pw_gid)
+    return (pw.pw_uid, pw.pw_gid, pw.pw_name)
 
 def _resolve_group(group: str) -> int:
     """
@@ -377,7 +377,7 @@ class PacketProcessRun(NamedTuple):
     def handle(self, conn: Connection) -> None:
         """Runs the requested command."""
         # By default we will run commands as the current user.
-        uid, gid = (None, None)
+        uid, gid, user_name = (None, None, None)
         umask_oct = 0o077
 
         if self.umask is not None:
@@ -389,7 +389,7 @@ class PacketProcessRun(NamedTuple):
 
         if self.user is not None:
             try:
-                (uid, gid) = _resolve_user(self.user)
+                (uid, gid, user_name) = _resolve_user(self.user)
             except ValueError as e:
                 conn.write_packet(PacketInvalidField("user", str(e)))
                 return
@@ -414,6 +414,9 @@ class PacketProcessRun(NamedTuple):
             if gid is not None:
                 os.setresgid(gid, gid, gid)
             if uid is not None:
+                if os.geteuid() == 0:
+                    # Don't keep the supplementary groups of the dispatcher
+                    os.initgroups(user_name, gid)
                 os.setresuid(uid, uid, uid)
             if self.cwd is not None:
                 os.chdir(self.cwd)
@@ -581,7 +584,7 @@ class PacketUpload(NamedTuple):
 
         if self.owner is not None:
             try:
-                (uid, gid) = _resolve_user(self.owner)
+                (uid, gid, _) = _resolve_user(self.owner)
             except ValueError as e:
                 conn.write_packet(PacketInvalidField("owner", str(e)))
                 return
-- 
2.43.0


From 556cd885caa786dabd5a291091bf57c800965f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:21 +0000
Subject: [PATCH 11/45] fix: always reap the dispatcher process when closing a
 connection

---
 src/fora/connectors/tunnel_connector.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fora/connectors/tunnel_connector.py b/src/fora/connectors/tunnel_connector.py
index 29e4cdc..20df35b 100644
--- a/src/fora/connectors/tunnel_connector.py
+++ b/src/fora/connectors/tunnel_connector.py
@@ -71,12 +71,20 @@ class TunnelConnector(Connector):
         logger.connection_established()
 
     def close(self) -> None:
-        if self.is_open:
-            self.conn.write_packet(td.PacketExit())
+        try:
+            if self.is_open:
+                self.conn.write_packet(td.PacketExit())
+        except OSError:
+            # The remote end is already gone, but we still need to clean up.
+            pass
+        self.is_open = False
 
         if self.process is not None:
             if self.process.stdin is not None:
-                self.process.stdin.close()
+                try:
+                    self.process.stdin.close()
+                except OSError:
+                    pass
             self.process.wait()
             if self.process.stdout is not None:
                 self.process.stdout.close()
-- 
2.43.0


From 6c01db0eef519cc7172e009c9b8e39a20f9c5ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:21 +0000
Subject: [PATCH 12/45] fix: close the connection if the remote identity cannot
 be resolved

---
 src/fora/connection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fora/connection.py b/src/fora/connection.py
index ec98372..45989a4 100644
--- a/src/fora/connection.py
+++ b/src/fora/connection.py
@@ -30,8 +30,13 @@ class Connection:
 
     def __enter__(self) -> Connection:
         self.connector.open()
-        self.host.connection = self
-        self._resolve_identity()
+        try:
+            self.host.connection = self
+            self._resolve_identity()
+        except BaseException:
+            self.host.connection = cast(Connection, None)
+            self.connector.close()
+            raise
         return self
 
     def __exit__(self, exc_type: Optional[Type[BaseException]], exc: Optional[BaseException], traceback: Optional[TracebackType]) -> None:
-- 
2.43.0


From 17e242ee5065ac14e0a1dc223c8c5c15374bf655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:26 +0000
Subject: [PATCH 13/45] fix: clear special permission bits of directories that
 weren't requested

---
 src/fora/operations/files.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 59659c8..d4d0efa 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -125,14 +125,15 @@ def directory(path: str,
                 if op.changed("exists"):
                     conn.run(["mkdir", "--", path])
 
-                # Set correct mode, if needed
-                if op.changed("mode"):
-                    conn.run(["chmod", attr.dir_mode, "--", path])
-
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", path])
 
+                # Set correct mode, if needed. At least five digits are required for chmod
+                # to also clear the set-user-ID and set-group-ID bits of a directory.
+                if op.changed("mode"):
+                    conn.run(["chmod", attr.dir_mode.zfill(5), "--", path])
+
                 # Touch directory if requested
                 if not op.changed("exists") and op.changed("touched"):
                     conn.run(["touch", "--", path])
-- 
2.43.0


From 12eda961618a808c4e3065ddea292029e9ec0460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:26 +0000
Subject: [PATCH 14/45] fix: keep requested special permission bits of files
 when changing the owner or group

---
 src/fora/operations/files.py | 8 ++++----
 src/fora/operations/utils.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index d4d0efa..b55bf77 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -216,13 +216,13 @@ def file(path: str,
                 if op.changed("exists") or op.changed("touched"):
                     conn.run(["touch", "--", path])
 
-                # Set correct mode, if needed
-                if op.changed("mode"):
-                    conn.run(["chmod", attr.file_mode, "--", path])
-
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", path])
+
+                # Set correct mode, if needed. Changing the ownership may have cleared special bits.
+                if op.changed("mode") or op.changed("owner") or op.changed("group"):
+                    conn.run(["chmod", attr.file_mode, "--", path])
             else:
                 # Remove file if it should not be present
                 if op.changed("exists"):
diff --git a/src/fora/operations/utils.py b/src/fora/operations/utils.py
index 3bceae8..46d16a5 100644
--- a/src/fora/operations/utils.py
+++ b/src/fora/operations/utils.py
@@ -168,14 +168,14 @@ def save_content(op: Operation,
                         owner=attr.owner,
                         group=attr.group)
             else:
-                # Set correct mode, if needed
-                if op.changed("mode"):
-                    conn.run(["chmod", attr.file_mode, "--", dest])
-
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", dest])
 
+                # Set correct mode, if needed. Changing the ownership may have cleared special bits.
+                if op.changed("mode") or op.changed("owner") or op.changed("group"):
+                    conn.run(["chmod", attr.file_mode, "--", dest])
+
         return op.success()
 
 def check_absolute_path(path: str, path_desc: str) -> None:
-- 
2.43.0


From 1a9303cef4d7eeaf3a086c3e69efa0e76c08df55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:26 +0000
Subject: [PATCH 15/45] fix: replace links to directories and keep the owner of
 links when changing the target

---
 src/fora/operations/files.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index b55bf77..7d75f24 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -303,10 +303,10 @@ def link(path: str,
             if present:
                 # Create link if it doesn't exist
                 if op.changed("target"):
-                    conn.run(["ln", "-sf", "--", target, path])
+                    conn.run(["ln", "-sfn", "--", target, path])
 
-                # Set correct owner and group, if needed
-                if op.changed("owner") or op.changed("group"):
+                # Set correct owner and group, if needed. Changing the target recreates the link.
+                if op.changed("target") or op.changed("owner") or op.changed("group"):
                     conn.run(["chown", "--no-dereference", f"{attr.owner}:{attr.group}", "--", path])
 
                 # Touch link if requested
-- 
2.43.0


From 90b9b62cb77d53ab4905bb32d3ddcc0f53c2227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:37 +0000
Subject: [PATCH 16/45] fix: consider the same lines when searching and
 removing lines and keep all others unmodified

---
 src/fora/operations/files.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 7d75f24..be67595 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -655,6 +655,11 @@ def line(path: str,
     check_absolute_path(path, f"{path=}")
     op.desc(path)
 
+    def is_match(l: str) -> bool:
+        if regex is not None:
+            return bool(re.search(regex, l))
+        return line.strip() == l.strip() if ignore_whitespace else line == l
+
     conn = fora.host.connection
     with op.defaults() as attr:
         op.final_state(line_present=present)
@@ -674,13 +679,7 @@ def line(path: str,
             orig_content = orig_bytes.decode("utf-8", errors="surrogateescape")
 
             # Check whether the line is already contained
-            if regex is None:
-                if ignore_whitespace:
-                    line_present = line.strip() in [l.strip() for l in (orig_content or "").splitlines()]
-                else:
-                    line_present = line in (orig_content or "").splitlines()
-            else:
-                line_present = bool(re.search(regex, orig_content, re.MULTILINE))
+            line_present = any(is_match(l) for l in orig_content.splitlines())
 
         op.initial_state(line_present=line_present)
 
@@ -688,21 +687,15 @@ def line(path: str,
         if op.unchanged():
             return op.success()
 
-        lines = (orig_content or "").splitlines()
+        new_content = orig_content or ""
         if present:
-            lines.append(line)
+            # Append the line, but don't continue an unterminated last line
+            if new_content and not new_content.endswith("\n"):
+                new_content += "\n"
+            new_content += line + "\n"
         else:
-            # Remove matching lines
-            if regex is None:
-                if ignore_whitespace:
-                    lines = list(filter(lambda l: line != l.strip(), lines))
-                else:
-                    lines = list(filter(lambda l: line != l, lines))
-            else:
-                # mypy false positive here, ignore type warning
-                lines = list(filter(lambda l: not re.search(regex, l), lines)) # type: ignore[type-var]
-
-        new_content = "\n".join(lines) + "\n"
+            # Remove matching lines, all other lines must be kept as they are (including line endings)
+            new_content = "".join(l for l in new_content.splitlines(keepends=True) if not is_match(l.splitlines()[0]))
         new_bytes = new_content.encode("utf-8", errors="surrogateescape")
 
         # Add diff if desired
-- 
2.43.0


From 0db911d01eb778645428f4642f35dede4dced6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:37 +0000
Subject: [PATCH 17/45] fix: name backups after the original file

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index be67595..589e989 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -709,7 +709,7 @@ def line(path: str,
             else:
                 if backup:
                     if isinstance(backup, bool):
-                        backup = f".{datetime.now(timezone.utc).strftime('%Y-%m-%dT%H:%M:%SZ')}.bak"
+                        backup = f"{os.path.basename(path)}.{datetime.now(timezone.utc).strftime('%Y-%m-%dT%H:%M:%SZ')}.bak"
                     conn.run(["cp", "-a", "--", path, os.path.join(os.path.dirname(path), backup)])
                 conn.upload(file=path, content=new_bytes)
 
-- 
2.43.0


From ff7a466d7e51471ab5bb94153f7f75bbcab1bf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:49 +0000
Subject: [PATCH 18/45] fix: respect name and check when they are passed as
 positional arguments

---
 src/fora/operations/api.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/api.py b/src/fora/operations/api.py
index ed55cce..74d515a 100644
--- a/src/fora/operations/api.py
+++ b/src/fora/operations/api.py
@@ -1,6 +1,7 @@
 """Provides API to define operations."""
 
 from dataclasses import dataclass
+import inspect
 import subprocess
 import sys
 
@@ -250,12 +251,16 @@ def operation(op_name: str): # type: ignore[no-untyped-def]
                              tb_lineno=back_frame.f_lineno)
 
     def operation_wrapper(function: _TFunc) -> _TFunc:
+        signature = inspect.signature(function)
+
         @wraps(function)
         def wrapper(*args: Any, **kwargs: Any) -> Any:
             check_host_active()
 
-            op = Operation(op_name=op_name, name=kwargs.get("name", None))
-            check = kwargs.get("check", True)
+            # The name and check parameters may also be given as positional arguments.
+            arguments = signature.bind_partial(*args, **kwargs).arguments
+            op = Operation(op_name=op_name, name=arguments.get("name", None))
+            check = arguments.get("check", True)
 
             try:
                 ret = function(*args, **kwargs, op=op)
-- 
2.43.0


From 6cc5a2fa9682035368ad54ae9c79e34d774c3842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:49 +0000
Subject: [PATCH 19/45] fix: return a failed result for raised operation errors
 if check is disabled

---
 src/fora/operations/api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fora/operations/api.py b/src/fora/operations/api.py
index 74d515a..fee7158 100644
--- a/src/fora/operations/api.py
+++ b/src/fora/operations/api.py
@@ -266,11 +266,12 @@ def operation(op_name: str): # type: ignore[no-untyped-def]
                 ret = function(*args, **kwargs, op=op)
             except OperationError as e:
                 ret = op.failure(str(e))
-                # If we are not in debug mode, we modify the traceback such that the exception
-                # seems to originate at the calling site where the operation is called.
-                if fora.args.debug:
-                    raise
-                raise e.with_traceback(_calling_site_traceback())
+                if check:
+                    # If we are not in debug mode, we modify the traceback such that the exception
+                    # seems to originate at the calling site where the operation is called.
+                    if fora.args.debug:
+                        raise
+                    raise e.with_traceback(_calling_site_traceback())
             except subprocess.CalledProcessError as e:
                 ret = op.failure(str(e))
                 if not hasattr(e, "__fora_already_printed"):
-- 
2.43.0


From 6d6731264afb0767325ee09360f43143eb9b9038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:49 +0000
Subject: [PATCH 20/45] fix: ignore none values instead of none keys in
 unchanged()

---
 src/fora/operations/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/api.py b/src/fora/operations/api.py
index fee7158..3c61670 100644
--- a/src/fora/operations/api.py
+++ b/src/fora/operations/api.py
@@ -138,7 +138,7 @@ class Operation:
         if not ignore_none:
             return self.initial_state_dict == self.final_state_dict
 
-        keys_not_none = (k for k in self.final_state_dict if k is not None)
+        keys_not_none = (k for k, v in self.final_state_dict.items() if v is not None)
         for k in keys_not_none:
             if self.initial_state_dict[k] != self.final_state_dict[k]:
                 return False
-- 
2.43.0


From 087d466ed4ebddce1e198c09b4809bcabbad079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:49 +0000
Subject: [PATCH 21/45] fix: query the state of user units in user mode

---
 src/fora/operations/systemd.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fora/operations/systemd.py b/src/fora/operations/systemd.py
index 1afbcf7..d85bb4e 100644
--- a/src/fora/operations/systemd.py
+++ b/src/fora/operations/systemd.py
@@ -89,14 +89,16 @@ def service(service: str, # pylint: disable=redefined-outer-name
     if state is not None and state not in state_actions:
         raise ValueError(f"Invalid target state '{state}'")
 
+    base_command = ["systemctl", "--user"] if user_mode else ["systemctl"]
+
     # Examine current state
-    systemd_active_state = conn.run(["systemctl", "show", "--value", "--property", "ActiveState", "--", service]).stdout
+    systemd_active_state = conn.run(base_command + ["show", "--value", "--property", "ActiveState", "--", service]).stdout
     if (systemd_active_state or b"").decode('utf-8', errors='ignore').strip() in ["active", "activating"]:
         cur_state = "started"
     else:
         cur_state = "stopped"
 
-    systemd_unit_file_state = conn.run(["systemctl", "show", "--value", "--property", "UnitFileState", "--", service]).stdout
+    systemd_unit_file_state = conn.run(base_command + ["show", "--value", "--property", "UnitFileState", "--", service]).stdout
     cur_enabled = (systemd_unit_file_state or b"").decode('utf-8', errors='ignore').strip() == "enabled"
 
     op.initial_state(state=cur_state, enabled=cur_enabled)
@@ -108,7 +110,6 @@ def service(service: str, # pylint: disable=redefined-outer-name
 
     # Apply actions to reach desired state, but only if we are not doing a dry run
     if not fora.args.dry:
-        base_command = ["systemctl", "--user"] if user_mode else ["systemctl"]
         if op.changed("state") and state is not None:
             conn.run(base_command + [state_actions[state], "--", service])
 
-- 
2.43.0


From 8986371faeafa7081cd88edaff774c77f8105fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:49 +0000
Subject: [PATCH 22/45] fix: don't report a change for service properties that
 are not managed

---
 src/fora/operations/systemd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/systemd.py b/src/fora/operations/systemd.py
index d85bb4e..861df9b 100644
--- a/src/fora/operations/systemd.py
+++ b/src/fora/operations/systemd.py
@@ -93,7 +93,7 @@ def service(service: str, # pylint: disable=redefined-outer-name
 
     # Examine current state
     systemd_active_state = conn.run(base_command + ["show", "--value", "--property", "ActiveState", "--", service]).stdout
-    if (systemd_active_state or b"").decode('utf-8', errors='ignore').strip() in ["active", "activating"]:
+    if (systemd_active_state or b"").decode('utf-8', errors='ignore').strip() in ["active", "activating", "reloading"]:
         cur_state = "started"
     else:
         cur_state = "stopped"
@@ -102,7 +102,7 @@ def service(service: str, # pylint: disable=redefined-outer-name
     cur_enabled = (systemd_unit_file_state or b"").decode('utf-8', errors='ignore').strip() == "enabled"
 
     op.initial_state(state=cur_state, enabled=cur_enabled)
-    op.final_state(state=state, enabled=enabled)
+    op.final_state(state=cur_state if state is None else state, enabled=cur_enabled if enabled is None else enabled)
 
     # Return success if nothing needs to be changed
     if op.unchanged(ignore_none=True):
-- 
2.43.0


From 8846d1c707e45f7992326bb4acda7bcb2dfd68b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:49 +0000
Subject: [PATCH 23/45] fix: respect zero and empty values in user and group
 operations

---
 src/fora/operations/system.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/fora/operations/system.py b/src/fora/operations/system.py
index 1766e20..23524b8 100644
--- a/src/fora/operations/system.py
+++ b/src/fora/operations/system.py
@@ -121,17 +121,17 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
         op.initial_state(exists=True, uid=current.uid, group=current.group, groups=sorted(current.groups), comment=current.gecos, home=current.home, shell=current.shell, password_hash=current.password_hash)
 
     # Calculate target state. None means no-desired-value (i.e. keep as-is or use default on creation)
-    target_uid = uid or (current.uid if current else None)
-    target_group = group or (current.group if current else None)
-    if append_groups:
+    target_uid = uid if uid is not None else (current.uid if current else None)
+    target_group = group if group is not None else (current.group if current else None)
+    if append_groups or groups is None:
         target_groups = set((groups or []) + (current.groups if current else []))
     else:
-        target_groups = groups or (current.groups if current else [])
+        target_groups = set(groups)
     target_groups = sorted(list(target_groups))
-    target_password_hash = password_hash or (current.password_hash if current else None)
-    target_comment = comment or (current.gecos if current else None)
-    target_home = home or (current.home if current else '/dev/null')
-    target_shell = shell or (current.shell if current else '/sbin/nologin')
+    target_password_hash = password_hash if password_hash is not None else (current.password_hash if current else None)
+    target_comment = comment if comment is not None else (current.gecos if current else None)
+    target_home = home if home is not None else (current.home if current else '/dev/null')
+    target_shell = shell if shell is not None else (current.shell if current else '/sbin/nologin')
 
     if present:
         op.final_state(exists=True, uid=target_uid, group=target_group, groups=target_groups, comment=target_comment, home=target_home, shell=target_shell, password_hash=target_password_hash)
@@ -173,7 +173,7 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
                 create_command.extend(["--shell", target_shell])
 
                 # Password hash
-                if target_password_hash:
+                if target_password_hash is not None:
                     create_command.extend(["--password", target_password_hash])
 
                 # User's name
@@ -192,7 +192,7 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
             if op.changed("group") and target_group is not None:
                 conn.run(["usermod", "--gid", target_group, "--", user])
 
-            if op.changed("groups") and len(target_groups) > 0:
+            if op.changed("groups"):
                 # Empty param for --groups is OK and does the expected thing.
                 conn.run(["usermod", "--groups", ','.join(target_groups), "--", user])
 
@@ -261,7 +261,7 @@ def group(group: str, # pylint: disable=redefined-outer-name,too-many-statements
         op.initial_state(exists=True, gid=current.gid)
 
     # Calculate target state. None means no-desired-value (i.e. keep as-is or use default on creation)
-    target_gid = gid or (current.gid if current else None)
+    target_gid = gid if gid is not None else (current.gid if current else None)
 
     if present:
         op.final_state(exists=True, gid=target_gid)
-- 
2.43.0


From 3b4fbdc1b744c9e5279128877795dccf61e06349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:49 +0000
Subject: [PATCH 24/45] fix: don't report a change if the primary group of a
 user is given as a gid

---
 src/fora/operations/system.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fora/operations/system.py b/src/fora/operations/system.py
index 23524b8..0e936aa 100644
--- a/src/fora/operations/system.py
+++ b/src/fora/operations/system.py
@@ -120,6 +120,11 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
     else:
         op.initial_state(exists=True, uid=current.uid, group=current.group, groups=sorted(current.groups), comment=current.gecos, home=current.home, shell=current.shell, password_hash=current.password_hash)
 
+    # The primary group may be given as a gid, but the state always refers to it by name.
+    if group is not None:
+        group_entry = conn.query_group(group=group)
+        group = group if group_entry is None else group_entry.name
+
     # Calculate target state. None means no-desired-value (i.e. keep as-is or use default on creation)
     target_uid = uid if uid is not None else (current.uid if current else None)
     target_group = group if group is not None else (current.group if current else None)
-- 
2.43.0


From 5df8de5317660b73fd3090be7ce2cb390fbaded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:49 +0000
Subject: [PATCH 25/45] fix: ignore duplicate packages

---
 src/fora/operations/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/utils.py b/src/fora/operations/utils.py
index 46d16a5..110eff5 100644
--- a/src/fora/operations/utils.py
+++ b/src/fora/operations/utils.py
@@ -87,7 +87,7 @@ def generic_package(op: Operation,
 
     # Set initial and target state.
     op.initial_state(installed=sorted(list(installed)))
-    op.final_state(installed=sorted(list(packages)) if present else [])
+    op.final_state(installed=sorted(list(set(packages))) if present else [])
 
     # Return success if nothing needs to be changed
     if op.unchanged():
-- 
2.43.0


From 13e0253fd338d4d764c978cbb73eae3ea1f8aed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:49 +0000
Subject: [PATCH 26/45] fix: make the apt package operation work

---
 src/fora/operations/apt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fora/operations/apt.py b/src/fora/operations/apt.py
index 3bdb985..9729db5 100644
--- a/src/fora/operations/apt.py
+++ b/src/fora/operations/apt.py
@@ -9,18 +9,18 @@ from fora.operations.utils import generic_package, package_manager
 def _is_installed(package: str, opts: Optional[list[str]] = None) -> bool: # pylint: disable=redefined-outer-name
     """Checks whether a package is installed with dpkg-query on the remote host."""
     opts = opts or []
-    ret = fora.host.connection.run(["dpgk-query", "--show", "--showformat=${Status}"] + opts + ["--", package])
+    ret = fora.host.connection.run(["dpkg-query", "--show", "--showformat=${Status}"] + opts + ["--", package], check=False)
     return ret.stdout is not None and b"ok installed" in ret.stdout
 
 def _install(package: str, opts: Optional[list[str]] = None) -> None: # pylint: disable=redefined-outer-name
     """Installs a package with apt-get on the remote host."""
     opts = opts or []
-    fora.host.connection.run(["apt-get", "install"] + opts + ["--", package])
+    fora.host.connection.run(["apt-get", "--yes", "install"] + opts + ["--", package])
 
 def _uninstall(package: str, opts: Optional[list[str]] = None) -> None: # pylint: disable=redefined-outer-name
     """Uninstalls a package with apt-get on the remote host."""
     opts = opts or []
-    fora.host.connection.run(["apt-get", "remove"] + opts + ["--", package])
+    fora.host.connection.run(["apt-get", "--yes", "remove"] + opts + ["--", package])
 
 @package_manager(command="apt-get")
 @operation("package")
-- 
2.43.0


From fa4ae917c0a86e3748c0ec726e0d797e8cfe854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:49 +0000
Subject: [PATCH 27/45] fix: always refuse to update a repository with a
 different remote url

---
 src/fora/operations/git.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fora/operations/git.py b/src/fora/operations/git.py
index f0135d0..a53e17e 100644
--- a/src/fora/operations/git.py
+++ b/src/fora/operations/git.py
@@ -78,6 +78,13 @@ def repo(url: str,
         remote_commit = conn.run(["git", "-C", path, "rev-parse", "HEAD"])
         cur_commit = (remote_commit.stdout or b"").decode("utf-8", errors="backslashreplace").strip()
         op.initial_state(initialized=True, commit=cur_commit)
+
+        if update:
+            # Assert that the existing repository's remote url matches the given url to prevent pulling an unrelated repo
+            ret_current_remote = conn.run(["git", "-C", path, "config", "--get", "remote.origin.url"])
+            current_remote = (ret_current_remote.stdout or b"").decode("utf-8", errors="backslashreplace").strip()
+            if current_remote != url:
+                return op.failure(f"refusing to update existing git repository with different remote url '{current_remote}'")
     else:
         return op.failure(f"path '{path}' exists but is not a directory!")
 
@@ -118,12 +125,6 @@ def repo(url: str,
                     submodule_cmd.extend(["--recursive"])
                 conn.run(submodule_cmd)
         elif update:
-            # Assert that the existing repository's remote url matches the given url to prevent pulling an unrelated repo
-            ret_current_remote = conn.run(["git", "-C", path, "config", "--get", "remote.origin.url"])
-            current_remote = (ret_current_remote.stdout or b"").decode("utf-8", errors="backslashreplace").strip()
-            if current_remote != url:
-                return op.failure(f"refusing to update existing git repository with different remote url '{current_remote}'")
-
             # Update the existing repository
             update_cmd = ["git", "-C", path, "pull"]
             if depth is not None:
-- 
2.43.0


From 50bad94d03fe9c64935baadccaae7eaea2150fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:49 +0000
Subject: [PATCH 28/45] fix: only consider the requested branch or tag to
 determine the newest commit

---
 src/fora/operations/git.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/git.py b/src/fora/operations/git.py
index a53e17e..1e07603 100644
--- a/src/fora/operations/git.py
+++ b/src/fora/operations/git.py
@@ -95,8 +95,17 @@ def repo(url: str,
         return op.success()
 
     # Check the newest available commit
-    remote_newest_commit = conn.run(["git", "ls-remote", "--exit-code", "--", url, branch_or_tag or "HEAD"])
-    newest_commit = (remote_newest_commit.stdout or b"").decode("utf-8", errors="backslashreplace").strip().split()[0]
+    if branch_or_tag is None:
+        refs = ["HEAD"]
+    else:
+        # The given patterns also match refs that only end in the given name, and annotated tags must be peeled.
+        refs = [f"refs/heads/{branch_or_tag}", f"refs/tags/{branch_or_tag}^{{}}", f"refs/tags/{branch_or_tag}"]
+    ret_remote_refs = conn.run(["git", "ls-remote", "--exit-code", "--", url] + refs)
+    remote_refs = (ret_remote_refs.stdout or b"").decode("utf-8", errors="backslashreplace").splitlines()
+    commits = {ref: commit for commit, ref in (line.split("\t", maxsplit=1) for line in remote_refs)}
+    newest_commit = next((commits[ref] for ref in refs if ref in commits), None)
+    if newest_commit is None:
+        return op.failure(f"no branch or tag '{branch_or_tag}' in remote repository '{url}'")
 
     op.final_state(initialized=True, commit=newest_commit)
 
-- 
2.43.0


From 2d3af1f5ad6f051699d8739ff05bb745ba66605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:49 +0000
Subject: [PATCH 29/45] fix: don't report users without a shadow entry or
 primary group as missing

---
 src/fora/connectors/tunnel_dispatcher.py | 28 ++++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 4b494c0..709e0e8 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -678,24 +678,24 @@ class PacketQueryUser(NamedTuple):
             try:
                 pw_hash = getspnam(pw.pw_name).sp_pwdp
             except KeyError:
-                conn.write_packet(PacketInvalidField("user", "The user has no shadow entry, or it is inaccessible."))
-                return
+                # The user has no shadow entry, and therefore no password hash.
+                pass
 
         groups = [g.gr_name for g in getgrall() if pw.pw_name in g.gr_mem]
         try:
-            conn.write_packet(PacketUserEntry(
-                name=pw.pw_name,
-                uid=i64(pw.pw_uid),
-                group=getgrgid(pw.pw_gid).gr_name,
-                gid=i64(pw.pw_gid),
-                groups=groups,
-                password_hash=pw_hash,
-                gecos=pw.pw_gecos,
-                home=pw.pw_dir,
-                shell=pw.pw_shell))
+            group = getgrgid(pw.pw_gid).gr_name
         except KeyError:
-            conn.write_packet(PacketInvalidField("user", "The user's primary group doesn't exist"))
-            return
+            group = str(pw.pw_gid)
+        conn.write_packet(PacketUserEntry(
+            name=pw.pw_name,
+            uid=i64(pw.pw_uid),
+            group=group,
+            gid=i64(pw.pw_gid),
+            groups=groups,
+            password_hash=pw_hash,
+            gecos=pw.pw_gecos,
+            home=pw.pw_dir,
+            shell=pw.pw_shell))
 
 @Packet(type='response')
 class PacketGroupEntry(NamedTuple):
-- 
2.43.0


From e436385ab1e01ddb387f69ab9620cc8b04612950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:53 +0000
Subject: [PATCH 30/45] fix: provide the inventory instead of the host as
 inventory in templates

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 589e989..22a2539 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -49,7 +49,7 @@ def _render_template(templ: Template, context: Optional[dict]) -> bytes:
     if context is not None:
         dvars.update(context)
     dvars["host"] = fora.host
-    dvars["inventory"] = fora.host
+    dvars["inventory"] = fora.inventory
     return templ.render(dvars).encode("utf-8")
 
 @operation("dir")
-- 
2.43.0


From 7ff8779a0b0a644bc9510741ce6112e319088a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:53 +0000
Subject: [PATCH 31/45] fix: respect the source name in upload_dir if the
 source path ends with a slash

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 22a2539..af46a90 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -469,7 +469,7 @@ def upload_dir(src: str,
     # If the destination denotes a directory, the actual directory is a
     # child directory thereof with similar name to the source.
     if dest[-1] == "/":
-        dest = os.path.join(dest, os.path.basename(src))
+        dest = os.path.join(dest, os.path.basename(os.path.abspath(src)))
 
     op.desc(dest)
     with logger.indent():
-- 
2.43.0


From 7c51287bd5d5ac52ab7d614a3d93d27933cb01df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:09 +0000
Subject: [PATCH 32/45] fix: report the file of a module as its definition file

definition_file() returned the containing directory, so the recursion check
of local.script never recognised a script that was already running.
---
 src/fora/types.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fora/types.py b/src/fora/types.py
index 0c4483b..fff27ce 100644
--- a/src/fora/types.py
+++ b/src/fora/types.py
@@ -167,9 +167,8 @@ class ModuleWrapper:
         str
             The file.
         """
-        if self.module is None or getattr(self.module, "__path__", None) is None:
-            return "<internal>"
-        return self.module.__path__
+        file: Optional[str] = getattr(self.module, "__file__", None)
+        return "<internal>" if file is None else file
 
 @dataclass
 class GroupWrapper(ModuleWrapper):
-- 
2.43.0


From c92d6ba097cff71cfb1f3131322b5b2845192f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:09 +0000
Subject: [PATCH 33/45] fix: restore the current script even if the old working
 directory is gone

---
 src/fora/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/loader.py b/src/fora/loader.py
index 6118122..5515db4 100644
--- a/src/fora/loader.py
+++ b/src/fora/loader.py
@@ -131,8 +131,8 @@ def run_script(script: str,
                         setattr(module, '_params', params or {})
                     load_py_module(canonical_script, pre_exec=_pre_exec)
             finally:
-                os.chdir(previous_working_directory)
                 fora.script = previous_script
+                os.chdir(previous_working_directory)
         except Exception as e:
             if isinstance(e, subprocess.CalledProcessError) and not hasattr(e, "__fora_already_printed"):
                 print_process_error(e)
-- 
2.43.0


From f5b138e5001624573cca5d88c72eeeabe34b6176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:09 +0000
Subject: [PATCH 34/45] fix: accept a working directory that is given as a link
 to a directory

---
 src/fora/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/connection.py b/src/fora/connection.py
index 45989a4..47795cb 100644
--- a/src/fora/connection.py
+++ b/src/fora/connection.py
@@ -97,7 +97,7 @@ class Connection:
         check_mask(settings.dir_mode, "dir_mode")
         check_mask(settings.umask, "umask")
         if settings.cwd:
-            s = self.stat(settings.cwd)
+            s = self.stat(settings.cwd, follow_links=True)
             if not s:
                 raise ValueError(f"The selected working directory '{settings.cwd}' doesn't exist!")
             if s.type != "dir":
-- 
2.43.0


From 8ace3077cfb3fed53574a940c934312a88581480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:58 +0000
Subject: [PATCH 35/45] fix: don't report requests that cannot be sent as
 missing objects

Connection.query_user, query_group and download_or return their default on
ValueError, which was also raised for unencodable text and closed streams.
---
 src/fora/connectors/tunnel_connector.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_connector.py b/src/fora/connectors/tunnel_connector.py
index 20df35b..ff130ab 100644
--- a/src/fora/connectors/tunnel_connector.py
+++ b/src/fora/connectors/tunnel_connector.py
@@ -93,9 +93,17 @@ class TunnelConnector(Connector):
     def _request(self, packet: Any) -> Any:
         """Sends the request packet and returns the response.
         Propagates exceptions from raised from td.receive_packet."""
-        self.conn.write_packet(packet)
+        self._send(packet)
         return td.receive_packet(self.conn, request=packet)
 
+    def _send(self, packet: Any) -> None:
+        """Sends the request packet. A value that cannot be sent is reported as an IOError,
+        as a ValueError means that the remote host couldn't find the requested object."""
+        try:
+            self.conn.write_packet(packet)
+        except ValueError as e:
+            raise IOError(f"Failed to send request: {str(e)}") from e
+
     def run(self,
             command: list[str],
             input: Optional[bytes] = None, # pylint: disable=redefined-builtin
@@ -140,7 +148,7 @@ class TunnelConnector(Connector):
             follow_links=follow_links,
             sha512sum=sha512sum)
 
-        self.conn.write_packet(request)
+        self._send(request)
         try:
             response = td.receive_packet(self.conn, request=request)
         except ValueError:
-- 
2.43.0


From e115123778ae6fb0de165d5e41e05886c20fc80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:58 +0000
Subject: [PATCH 36/45] fix: extract the hostname of ssh:host urls and of IPv6
 addresses

---
 src/fora/connectors/ssh.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fora/connectors/ssh.py b/src/fora/connectors/ssh.py
index 0b72278..5f7674c 100644
--- a/src/fora/connectors/ssh.py
+++ b/src/fora/connectors/ssh.py
@@ -56,17 +56,19 @@ class SshConnector(TunnelConnector):
         if not url.startswith(f"{cls.schema}:"):
             raise ValueError(f"Cannot extract hostname from url without matching schema (expected '{cls.schema}', got '{url}').")
 
-        # strip ssh://
+        # strip ssh: or ssh://
         # remaining: [user@]hostname[:port]
-        hostname = url[len(cls.schema) + 3:]
+        hostname = url[len(cls.schema) + 1:]
+        if hostname.startswith("//"):
+            hostname = hostname[2:]
 
         # Remove user
         pos = hostname.find("@")
         if pos >= 0:
             hostname = hostname[pos + 1:]
 
-        # Remove port
-        pos = hostname.find(":")
+        # Remove port, but not the colons of a bracketed IPv6 address
+        pos = hostname.find(":", hostname.find("]") + 1)
         if pos >= 0:
             hostname = hostname[:pos]
 
-- 
2.43.0


From f3e241fec1b175321cbe035e2de0ffb9179de76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:58 +0000
Subject: [PATCH 37/45] fix: order the all group after the host's own variables
 if it is declared

---
 src/fora/inventory_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index c42b722..c6c941d 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -427,7 +427,7 @@ class InventoryWrapper(ModuleWrapper):
 
             # Deduplicate before and after
             decl.before = list(set(decl.before))
-            decl.after = list(set(decl.after) | set(["all"] if decl.name != "all" else []))
+            decl.after = list(set(decl.after) | set(["all"] if decl.name != "all" else ["early-explicits"]))
 
             self._group_decls[decl.name] = decl
 
-- 
2.43.0


From 023c1f84dbf0a66d8ea3e5cd3c26405c090a2f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:59 +0000
Subject: [PATCH 38/45] fix: detect conflicting variables by group dependencies

The ranks of two groups can overlap although one depends on the other, and
can be disjoint although they are unordered.
---
 src/fora/inventory_wrapper.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index c6c941d..4d2204a 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -544,6 +544,24 @@ class InventoryWrapper(ModuleWrapper):
         group_names.sort(key=lambda g: self._group_ranks_min[g])
         self._topological_order = group_names
 
+    def _depends_on_group(self, group: str, dependency: str) -> bool:
+        """
+        Returns True if the given group (transitively) depends on the given dependency.
+
+        Parameters
+        ----------
+        group
+            The name of the group.
+        dependency
+            The name of the group that might be a dependency.
+
+        Returns
+        -------
+        bool
+            Whether group is always loaded after dependency.
+        """
+        return any(after == dependency or self._depends_on_group(after, dependency) for after in self._group_decls[group].after)
+
     def load(self) -> None:
         """
         This function preprocesses the declared hosts and groups, calculates
@@ -762,15 +780,12 @@ class InventoryWrapper(ModuleWrapper):
                 # was allowed to overwrite it. Otherwise, we record that this is a variable
                 # conflict and raise an exception later, once we found all offending variables.
                 if record_conflicts_group is not None and initializer is not None and attr in variable_action_history:
-                    # Determine if the ranks of this group and any previous defining module overlap
-                    # (which means they would share a common possible rank). If that is the case,
-                    # they don't have any dependency on each other and overwriting is forbidden
-                    # as their relative order is arbitrary. We already know that the current group
-                    # is ordered after the previous group, as we are iterating in topological order,
-                    # so a problem would only arise if the previous group's maximum possible rank
-                    # overlaps with our minimum required rank.
+                    # Determine if this group has a (transitive) dependency on any previous defining module.
+                    # If it hasn't, overwriting is forbidden as their relative order is arbitrary. We already
+                    # know that the current group is ordered after the previous group, as we are iterating
+                    # in topological order.
                     for prev in variable_action_history[attr]:
-                        if self._group_ranks_max[prev.actor.name] >= self._group_ranks_min[record_conflicts_group.name]:
+                        if not self._depends_on_group(record_conflicts_group.name, prev.actor.name):
                             if prev.action == "modification" and cur_action == "modification":
                                 # Ambiguous modification order is explicitly allowed.
                                 # While this could in theory also create ambiguities,
-- 
2.43.0


From 142dc7bab82b84ebc5014663a9ebe8ab6c7f4933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:40 +0000
Subject: [PATCH 39/45] fix: track variables that are defined as None

---
 src/fora/inventory_wrapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index 4d2204a..de342ac 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -770,8 +770,7 @@ class InventoryWrapper(ModuleWrapper):
             # it was overwritten (or it was newly defined). We want to record this in our
             # definition history. We also compare against a snapshot of the value to detect
             # modification instead of redefinition.
-            previous_value = None if attr not in variable_action_history else variable_action_history[attr][-1].value
-            was_modified = previous_value != value
+            was_modified = attr not in variable_action_history or variable_action_history[attr][-1].value != value
             was_overwritten = hasattr(initializer, attr) and getattr(initializer, attr) is not value
             cur_action: Literal["definition", "modification"] = "modification" if was_modified and not was_overwritten else "definition"
 
-- 
2.43.0


From 2b62f5f8347a7d94c4c0d2364d844235f983e343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:40 +0000
Subject: [PATCH 40/45] fix: don't share modifiable inventory variables between
 hosts

---
 src/fora/inventory_wrapper.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index de342ac..8eb09f7 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -2,7 +2,7 @@
 from __future__ import annotations
 
 import os
-from copy import copy
+from copy import copy, deepcopy
 from dataclasses import dataclass, field
 from glob import glob
 from types import SimpleNamespace
@@ -12,6 +12,20 @@ from fora.remote_settings import RemoteSettings
 from fora.types import GroupWrapper, HostWrapper, ModuleWrapper, VariableActionSnapshot
 from fora.utils import CycleError, load_py_module, print_error, rank_sort
 
+def _private_copy(variables: dict[str, Any]) -> dict[str, Any]:
+    """
+    Returns a deep copy of the given variables, so that the group and host modules of one host can
+    modify them without affecting other hosts. Objects that cannot be copied are shared.
+    """
+    memo: dict[int, Any] = {}
+    copies = {}
+    for attr, value in variables.items():
+        try:
+            copies[attr] = deepcopy(value, memo)
+        except Exception: # pylint: disable=broad-except
+            copies[attr] = value
+    return copies
+
 @dataclass
 class HostDeclaration:
     """A declaration of a host in an inventory."""
@@ -625,7 +639,7 @@ class InventoryWrapper(ModuleWrapper):
             if wrapper.name == "all":
                 # Add predefined global variables before the "all" group module is instanciated
                 setattr(module, "fora_managed", "This file is managed by fora.")
-                for attr, value in self.exported_variables().items():
+                for attr, value in _private_copy(self.exported_variables()).items():
                     setattr(module, attr, value)
 
             # Initialize global namespace if an initializer was provided.
@@ -804,7 +818,7 @@ class InventoryWrapper(ModuleWrapper):
         early_explicits.host = self._host_decls[host]
         record_variable_change(early_explicits, initializer, "host", early_explicits.host, record_conflicts_group=early_explicits)
         # Expose explicitly configured variables from the host
-        for attr, value in self._host_decls[host].vars.items():
+        for attr, value in _private_copy(self._host_decls[host].vars).items():
             setattr(explicits, attr, value)
             record_variable_change(early_explicits, initializer, attr, value, record_conflicts_group=early_explicits)
 
-- 
2.43.0


From 0f9c62544e0a76f22dda8c9fcf62241bf62023ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:40 +0000
Subject: [PATCH 41/45] fix: escape all non-printable characters in printed
 changes

---
 src/fora/logger.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/fora/logger.py b/src/fora/logger.py
index f7357e7..0aa22f7 100644
--- a/src/fora/logger.py
+++ b/src/fora/logger.py
@@ -160,16 +160,32 @@ def decode_escape(data: bytes, encoding: str = 'utf-8') -> str:
     str
         The decoded and escaped string.
     """
+    return escape(data.decode(encoding, 'backslashreplace'))
+
+def escape(text: str) -> str:
+    """
+    Replaces all non-printable characters in the given text with backslash escape sequences.
+
+    Parameters
+    ----------
+    text
+        The text that should be escaped.
+
+    Returns
+    -------
+    str
+        The escaped text.
+    """
     def escape_char(c: str) -> str:
         special = {'\x00': '\\0', '\n': '\\n', '\r': '\\r', '\t': '\\t'}
         if c in special:
             return special[c]
 
         num = ord(c)
-        if not c.isprintable() and num <= 0xff:
-            return f"\\x{num:02x}"
+        if not c.isprintable():
+            return f"\\x{num:02x}" if num <= 0xff else f"\\u{num:04x}" if num <= 0xffff else f"\\U{num:08x}"
         return c
-    return ''.join([escape_char(c) for c in data.decode(encoding, 'backslashreplace')])
+    return ''.join([escape_char(c) for c in text])
 
 def diff(filename: str, old: Optional[bytes], new: Optional[bytes], color: bool = True) -> list[str]:
     """
@@ -244,7 +260,7 @@ def diff(filename: str, old: Optional[bytes], new: Optional[bytes], color: bool
 # TODO: move functions to operation api. cleaner and has type access.
 def _operation_state_infos(result: Any) -> list[str]:
     def to_str(v: Any) -> str:
-        return v.hex() if isinstance(v, bytes) else str(v)
+        return v.hex() if isinstance(v, bytes) else escape(str(v))
 
     # Print "key: value" pairs with changes
     state_infos: list[str] = []
-- 
2.43.0


From 4320e2c167486c64623b9850abba84fd70a985bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:40 +0000
Subject: [PATCH 42/45] fix: escape special characters in the output of failed
 commands

Also don't fail if the output wasn't captured.
---
 src/fora/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fora/utils.py b/src/fora/utils.py
index 7fb407f..699697d 100644
--- a/src/fora/utils.py
+++ b/src/fora/utils.py
@@ -19,7 +19,7 @@ from types import ModuleType, TracebackType
 from typing import Any, Collection, NoReturn, Type, TypeVar, Callable, Iterable, Optional, Union
 
 import fora
-from fora.logger import col
+from fora.logger import col, decode_escape
 
 class FatalError(Exception):
     """An exception type for fatal errors, optionally including a file location."""
@@ -329,6 +329,11 @@ def print_process_error(err: subprocess.CalledProcessError) -> None:
     err
         The error
     """
+    def print_output(output: Optional[bytes]) -> None:
+        # There is no output if it wasn't captured
+        for line in (output or b"").split(b"\n"):
+            print(decode_escape(line), file=sys.stderr)
+
     # Print output of failed command for debugging
     col_red    = col("\033[1;31m")
     col_yellow = col("\033[1;33m")
@@ -340,7 +345,7 @@ def print_process_error(err: subprocess.CalledProcessError) -> None:
         col_red, "failed", col_reset, " ",
         f"with code {err.returncode} ]"], file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "stdout", col_reset, col_darker, " (special characters escaped) ", col_reset], file=sys.stderr)
-    print(err.stdout.decode("utf-8", errors="backslashreplace"), file=sys.stderr)
+    print_output(err.stdout)
     print_fullwith(["──────── ", col_yellow, "stderr", col_reset, col_darker, " (special characters escaped) ", col_reset], file=sys.stderr)
-    print(err.stderr.decode("utf-8", errors="backslashreplace"), file=sys.stderr)
+    print_output(err.stderr)
     print_fullwith(["──────── ", col_yellow, "end", col_reset, col_darker, " ", col_reset], file=sys.stderr)
-- 
2.43.0


From 1b70976c0f8a457869e3dadf348e5cb1783588a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:50 +0000
Subject: [PATCH 43/45] fix: detect nested in-place modifications when looking
 for variable conflicts

The snapshot was a shallow copy, so a group that modified a list inside of
a variable was not recorded, and another unordered group could silently
replace the variable.
---
 src/fora/inventory_wrapper.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index 8eb09f7..6505810 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -26,6 +26,16 @@ def _private_copy(variables: dict[str, Any]) -> dict[str, Any]:
             copies[attr] = value
     return copies
 
+def _snapshot(value: Any) -> Any:
+    """
+    Returns a copy of the given value that can later be compared to the value to find out
+    whether it was modified in the meantime, at any depth.
+    """
+    try:
+        return deepcopy(value)
+    except Exception: # pylint: disable=broad-except
+        return copy(value)
+
 @dataclass
 class HostDeclaration:
     """A declaration of a host in an inventory."""
@@ -807,7 +817,7 @@ class InventoryWrapper(ModuleWrapper):
                             conflicts.append((prev.action, prev.actor, cur_action, actor, attr))
 
                 # Record this change for later analyses
-                variable_action_history.setdefault(attr, []).append(VariableActionSnapshot(cur_action, actor, copy(value)))
+                variable_action_history.setdefault(attr, []).append(VariableActionSnapshot(cur_action, actor, _snapshot(value)))
 
         # Create a transient group reflecting the already known variables of the host:
         # Aggregate any variables explicitly defined by the inventory for this host (HostDeclaration.vars).
-- 
2.43.0


From ea3e7d5903fe8a3d11117c3685bca5df739d8bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:50 +0000
Subject: [PATCH 44/45] fix: don't regard objects without equality as modified
 by every group

A copy of such an object never compares equal to the original, so each
group was recorded as having modified the variable, and a legitimate
redefinition in one group was refused as ambiguous.
---
 src/fora/inventory_wrapper.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index 6505810..dfc7ed0 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -29,12 +29,14 @@ def _private_copy(variables: dict[str, Any]) -> dict[str, Any]:
 def _snapshot(value: Any) -> Any:
     """
     Returns a copy of the given value that can later be compared to the value to find out
-    whether it was modified in the meantime, at any depth.
+    whether it was modified in the meantime, at any depth. If the value has no notion of equality,
+    a copy would always differ. In this case the value itself is returned.
     """
     try:
-        return deepcopy(value)
+        snapshot = deepcopy(value)
     except Exception: # pylint: disable=broad-except
-        return copy(value)
+        snapshot = copy(value)
+    return snapshot if snapshot == value else value
 
 @dataclass
 class HostDeclaration:
-- 
2.43.0


From dcb1a1f31ac12a7a023842c5fb9db77a965034a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:37 +0000
Subject: [PATCH 45/45] fix: escape control characters in failure messages

---
 src/fora/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/logger.py b/src/fora/logger.py
index 0aa22f7..847dde3 100644
--- a/src/fora/logger.py
+++ b/src/fora/logger.py
@@ -303,7 +303,7 @@ def print_operation(op: Any, result: Any) -> None:
     print_operation_title(op, title_color)
 
     if not result.success:
-        print_indented(f" {col('[90m')}└{col('[m')} " + f"{col('[31m')}{result.failure_message}{col('[m')}")
+        print_indented(f" {col('[90m')}└{col('[m')} " + f"{col('[31m')}{escape(str(result.failure_message))}{col('[m')}")
         return
 
     if not fora.args.changes:
-- 
2.43.0

