From cd929ef5f33af1b60a0feae5f4140ec572f5c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 01/57] fix: make the keyring lock exclude other processes and
 recover stale locks

Linking over an existing lock file raised an error instead of waiting,
release() left the lock file behind or removed somebody else's, signals
were sent to the processes holding a lock, and two processes could use
the same template name.
---
 pgp/db/gpg.py | 175 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 140 insertions(+), 35 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 3c7bc67..5f35a19 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -16,6 +16,11 @@
 
 import atexit
 from collections import OrderedDict
+import errno
+try:
+    import fcntl
+except ImportError:
+    fcntl = None
 try:
     from dbm import gnu as gdbm
     HAVE_GDBM = True
@@ -27,7 +32,6 @@ except ImportError:
         HAVE_GDBM = False
 import os
 import platform
-import signal
 import threading
 import time
 
@@ -58,36 +62,55 @@ DEFAULT_RESOURCES = (
 )
 
 
+LOCK_POLL_INTERVAL = 0.01
+
+
 _locks = []
+_process_locks = {}
 
 
 @atexit.register
 def _clean_up_locks():
     for l in _locks:
-        l.release()
         try:
-            os.unlink(l.name)
+            if l.locked and l.read() == (os.getpid(), True):
+                os.unlink(l.name)
         except:
             pass
         try:
-            os.unlink(l.lock_template_name)
+            os.unlink(l.template_name)
         except:
             pass
 
 
+class ProcessLock(object):
+    """What all the locks of this process on the same file share. A thread
+    must own it before it may compete with other processes for the lock
+    file.
+    """
+
+    def __init__(self):
+        self.thread_lock = threading.RLock()
+        self.owner = None
+        self.depth = 0
+
+
 class Lock(object):
 
     name = None
     template_name = None
-    locked = False
+    _depth = 0
 
     def __init__(self, filename):
         node_name = platform.node()
         dirpart = os.path.dirname(filename)
-        self.template_name = '{0}{1}.#lk{2:x}.'.format(
+        # Other processes may use the same object ids.
+        self.template_name = '{0}{1}.#lk{2:x}.{3}.{4}'.format(
             dirpart,
             os.path.sep,
-            id(self)
+            id(self),
+            node_name,
+            os.getpid()
             )
         with open(self.template_name, 'w') as lock_fh:
             lock_fh.write('{0:010d}'.format(os.getpid()))
@@ -96,41 +119,113 @@ class Lock(object):
         self.name = '{0}{1}lock'.format(
             filename,
             os.path.extsep)
-        self._lock = threading.RLock()
+        self._lock = _process_locks.setdefault(
+            os.path.realpath(self.name), ProcessLock())
         _locks.append(self)
 
     def __del__(self):
         try:
-            self.release()
-            os.unlink(self.lock_template_name)
+            while self._depth:
+                depth = self._depth
+                self.release()
+                if self._depth == depth:
+                    break
+            os.unlink(self.template_name)
         except:
             # TODO: log an error
             pass
 
+    @property
+    def locked(self):
+        return bool(self._depth)
+
     def read(self):
-        with open(self.name, 'r') as fh:
-            pid = int(fh.read(10))
-            node = fh.read().strip()
+        with open(self.name, 'rb') as fh:
+            return self._parse(fh.read())
 
-        return pid, node == platform.node()
+    def _parse(self, data):
+        data = data.decode('utf8', 'replace')
+        try:
+            pid = int(data[:10])
+        except ValueError:
+            pid = None
+        if pid is None or pid <= 0 or data[-1:] != '\n':
+            # Lock files are complete before they get their name, so this
+            # one was damaged after its holder was gone.
+            return None, False
+        return pid, data[10:].strip() == platform.node()
+
+    def _is_stale(self, data):
+        pid, same_node = self._parse(data)
+        if pid is None:
+            return True
+        if not same_node:
+            return False
+        if pid == os.getpid():
+            # No thread of this process holds the lock, or we would not be
+            # here: this is left over from another process with our pid.
+            return True
+        try:
+            os.kill(pid, 0)
+        except OSError as e:
+            return e.errno == errno.ESRCH
+        return False
+
+    def _remove_stale(self):
+        """Remove the lock file if its holder is dead. Returns whether it is
+        worth trying to get the lock again immediately.
+        """
+        try:
+            with open(self.name, 'rb') as fh:
+                if fcntl is not None:
+                    # Only one process at a time may decide on this file.
+                    try:
+                        fcntl.flock(fh, fcntl.LOCK_EX | fcntl.LOCK_NB)
+                    except (IOError, OSError) as e:
+                        if e.errno in (errno.EWOULDBLOCK, errno.EACCES):
+                            return False
+                        raise
+                if os.fstat(fh.fileno()).st_ino != os.stat(self.name).st_ino:
+                    # Somebody else was faster.
+                    return True
+                if not self._is_stale(fh.read()):
+                    return False
+                os.unlink(self.name)
+        except (IOError, OSError) as e:
+            if e.errno != errno.ENOENT:
+                raise
+        return True
+
+    def _link(self):
+        while 1:
+            try:
+                os.link(self.template_name, self.name)
+                return True
+            except OSError as e:
+                if e.errno != errno.EEXIST:
+                    raise
+            if not self._remove_stale():
+                return False
 
     def acquire(self, timeout=None):
-        start = time.time()
-        while not self.locked:
-            if timeout is not None and (time.time() - start) > timeout:
+        clock = getattr(time, 'monotonic', time.time)
+        start = clock()
+        while not self._lock.thread_lock.acquire(False):
+            if timeout is not None and (clock() - start) > timeout:
                 return False
-            self._lock.acquire()
-            os.link(self.template_name, self.name)
-            pid, same_node = self.read()
-            if pid == os.getpid() and same_node:
-                # OK
-                pass
-            elif same_node:
-                # attempt to kill the interloper
-                os.kill(pid, signal.SIG_DFL)
-                os.unlink(self.name)
-                continue
-            self.locked = True
+            time.sleep(LOCK_POLL_INTERVAL)
+        try:
+            while not self._lock.depth and not self._link():
+                if timeout is not None and (clock() - start) > timeout:
+                    self._lock.thread_lock.release()
+                    return False
+                time.sleep(LOCK_POLL_INTERVAL)
+        except:
+            self._lock.thread_lock.release()
+            raise
+        self._lock.owner = threading.current_thread().ident
+        self._lock.depth += 1
+        self._depth += 1
 
         return True
 
@@ -138,15 +233,25 @@ class Lock(object):
         if not self.locked:
             return
 
-        pid, same_node = self.read()
-        if pid == os.getpid() and same_node:
-            os.unlink(self.name)
-            self.locked = False
-            self._lock.release()
-        else:
+        if self._lock.owner != threading.current_thread().ident:
             # TODO: error?
             return
 
+        self._depth -= 1
+        self._lock.depth -= 1
+        try:
+            if not self._lock.depth:
+                self._lock.owner = None
+                try:
+                    ours = self.read() == (os.getpid(), True)
+                except (IOError, OSError) as e:
+                    # It is still ours if it merely cannot be read.
+                    ours = e.errno != errno.ENOENT
+                if ours:
+                    os.unlink(self.name)
+        finally:
+            self._lock.thread_lock.release()
+
 
 class ResourceTypes:
 
-- 
2.43.0


From c8bd93e16ea237b616753f0a2c22d07e3f20ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 02/57] fix: create missing keyrings

create_db() does not take a file name, and it emptied a keyring that
appeared after the test for its existence.
---
 pgp/db/gpg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 5f35a19..e181b4e 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -294,7 +294,7 @@ class BaseResource(object):
     def _maybe_create(self, force):
         if not os.path.exists(self.filename):
             if force:
-                self.create_db(self.filename)
+                self.create_db()
             else:
                 raise RuntimeError(
                     'Database {0} does not exist.'.format(self.filename))
@@ -470,7 +470,8 @@ class Keyring(BaseResource):
     def create_db(self):
         self.lock_db()
         try:
-            with open(self.filename, 'wb'):
+            # Another process may have created and filled it meanwhile.
+            with open(self.filename, 'ab'):
                 os.chmod(self.filename, 0o600)
         finally:
             self.unlock_db()
-- 
2.43.0


From 809b86750a5d21d5c22a05bded9ddde29c801c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 03/57] fix: recognise empty keyrings and resource prefixes

An empty file was taken for a GDBM database, and the gnupg-keyring: and
gnupg-kbx: prefixes were cut off at the wrong place.
---
 pgp/db/gpg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index e181b4e..2dfa854 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -43,8 +43,8 @@ from pgp.transferrable_keys import TransferableSecretKey
 
 
 GDBM_MAGIC = (
-    b'\x13\x57\x9a\xce'
-    b'\xce\x9a\x57\x13'
+    b'\x13\x57\x9a\xce',
+    b'\xce\x9a\x57\x13',
 )
 
 
@@ -577,10 +577,10 @@ def get_resource(filename, force=False, secret=False, read_only=False,
     type_ = ResourceTypes.NONE
     if filename.startswith('gnupg-keyring:'):
         type_ = ResourceTypes.KEYRING
-        filename = filename[12:]
+        filename = filename[14:]
     elif filename.startswith('gnupg-kbx:'):
         type_ = ResourceTypes.KEYBOX
-        filename = filename[11:]
+        filename = filename[10:]
     filename = os.path.abspath(filename)
 
     if type_ == ResourceTypes.NONE:
-- 
2.43.0


From b065a83de6734fc844f0aff35c0770c17cc476bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 04/57] fix: keep the keys after an updated or deleted key

The end of the replaced key was never found, so everything up to the end
of the keyring was dropped.
---
 pgp/db/gpg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 2dfa854..e2fc642 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -527,6 +527,7 @@ class Keyring(BaseResource):
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
                         break
+                    packets.append(packet)
                     last_offset = fh.tell()
                 fh.seek(last_offset)
                 data += fh.read()
@@ -561,6 +562,7 @@ class Keyring(BaseResource):
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
                         break
+                    packets.append(packet)
                     last_offset = fh.tell()
                 fh.seek(last_offset)
                 data += fh.read()
-- 
2.43.0


From f3b3cb8130379dc2569db14c64873242255ecda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 05/57] fix: keep keyring handles up to date and apart by
 fingerprint

Offsets read when the keyring was opened were used after other handles
and processes had changed it, keys whose key IDs end alike replaced each
other, and adding a key twice was not noticed.
---
 pgp/db/gpg.py | 65 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index e2fc642..64bbd32 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -273,14 +273,19 @@ class BaseResource(object):
 
     def items(self):
         for k in self.keys():
-            yield k, self.get_transferrable_key(k)
+            try:
+                key = self.get_transferrable_key(k)
+            except KeyError:
+                # Deleted since we asked for the keys.
+                continue
+            yield k, key
 
     def values(self):
-        for k in self.keys():
-            yield self.get_transferrable_key(k)
+        for _, key in self.items():
+            yield key
 
     def __iter__(self):
-        return self.keys()
+        return iter(self.keys())
 
     def __contains__(self, fingerprint):
         return fingerprint in self.keys()
@@ -412,8 +417,20 @@ class Keyring(BaseResource):
         self._update_offset_table()
 
     def keys(self):
+        self._update_offset_table()
         return self._offset_table.keys()
 
+    def __contains__(self, fingerprint):
+        self.lock_db()
+        try:
+            self._update_offset_table()
+            self._get_offset(fingerprint)
+        except KeyError:
+            return False
+        finally:
+            self.unlock_db()
+        return True
+
     def _update_offset_table(self):
         offset_table = {}
         self.lock_db()
@@ -428,18 +445,29 @@ class Keyring(BaseResource):
                             constants.PUBLIC_KEY_PACKET_TYPE,
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
-                        offset_table[packet.key_id[-8:]] = last_offset
+                        offset_table[packet.fingerprint] = last_offset
                     last_offset = fh.tell()
+            self._offset_table = offset_table
         finally:
             self.unlock_db()
 
-        self._offset_table = offset_table
+    def _get_offset(self, fingerprint):
+        # May be a long or short key ID.
+        if fingerprint not in self._offset_table and \
+                len(fingerprint) in (8, 16):
+            for candidate in self._offset_table:
+                if candidate.endswith(fingerprint):
+                    fingerprint = candidate
+                    break
+        return self._offset_table[fingerprint]
 
-    def _get_key(self, offset):
+    def _get_key(self, fingerprint):
         self.lock_db()
         try:
+            # The keyring may have been changed since the last time.
+            self._update_offset_table()
             with open(self.filename, 'rb') as fh:
-                fh.seek(offset)
+                fh.seek(self._get_offset(fingerprint))
                 packets = []
                 packet_iter = parse_binary_packet_stream(fh)
                 for packet in packet_iter:
@@ -477,18 +505,17 @@ class Keyring(BaseResource):
             self.unlock_db()
 
     def get_transferrable_key(self, fingerprint):
-        offset = self._offset_table[fingerprint[-8:]]
-        return self._get_key(offset)
+        return self._get_key(fingerprint)
 
     def add_transferrable_key(self, key):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint in self._offset_table:
-            raise KeyError
-
         self.lock_db()
         try:
+            self._update_offset_table()
+            if key.fingerprint in self._offset_table:
+                raise KeyError(key.fingerprint)
             data = b''
             with open(self.filename, 'rb') as fh:
                 data = fh.read()
@@ -507,12 +534,10 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint[-8:] not in self._offset_table:
-            raise KeyError
-
-        offset = self._offset_table[key.fingerprint[-8:]]
         self.lock_db()
         try:
+            self._update_offset_table()
+            offset = self._offset_table[key.fingerprint]
             data = b''
             with open(self.filename, 'rb') as fh:
                 data = fh.read(offset)
@@ -542,12 +567,10 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint[-8:] not in self._offset_table:
-            raise KeyError
-
-        offset = self._offset_table[key.fingerprint[-8:]]
         self.lock_db()
         try:
+            self._update_offset_table()
+            offset = self._offset_table[key.fingerprint]
             data = b''
             with open(self.filename, 'rb') as fh:
                 data = fh.read(offset)
-- 
2.43.0


From c1155a6ea2eaa3cd27b61523a31ed7fb97debda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 06/57] fix: never leave a keyring half written

Keyrings were truncated and rewritten in place: a crash or a full disk
lost all of their keys.
---
 pgp/db/gpg.py | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 64bbd32..a9c605c 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -32,6 +32,7 @@ except ImportError:
         HAVE_GDBM = False
 import os
 import platform
+import stat
 import threading
 import time
 
@@ -406,6 +407,14 @@ class GDBM(BaseResource):
             self.unlock_db()
 
 
+def _sync_directory(name):
+    fd = os.open(name, os.O_RDONLY)
+    try:
+        os.fsync(fd)
+    finally:
+        os.close(fd)
+
+
 class Keyring(BaseResource):
 
     _offset_table = None
@@ -501,9 +510,33 @@ class Keyring(BaseResource):
             # Another process may have created and filled it meanwhile.
             with open(self.filename, 'ab'):
                 os.chmod(self.filename, 0o600)
+            _sync_directory(os.path.dirname(self.filename))
         finally:
             self.unlock_db()
 
+    def _replace(self, data):
+        # The old contents must stay readable until the new contents are
+        # safely on the disk.
+        filename = os.path.realpath(self.filename)
+        temp_name = '{0}{1}tmp'.format(filename, os.path.extsep)
+        mode = stat.S_IMODE(os.stat(filename).st_mode)
+        try:
+            fd = os.open(temp_name, os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
+                         0o600)
+            with os.fdopen(fd, 'wb') as fh:
+                os.chmod(temp_name, mode)
+                fh.write(data)
+                fh.flush()
+                os.fsync(fh.fileno())
+            os.rename(temp_name, filename)
+        except:
+            try:
+                os.unlink(temp_name)
+            except OSError:
+                pass
+            raise
+        _sync_directory(os.path.dirname(filename))
+
     def get_transferrable_key(self, fingerprint):
         return self._get_key(fingerprint)
 
@@ -522,8 +555,7 @@ class Keyring(BaseResource):
 
             data += b''.join(map(bytes, key.to_packets(
                 self._preferred_header_format)))
-            with open(self.filename, 'wb') as fh:
-                fh.write(data)
+            self._replace(data)
             self._update_offset_table()
         finally:
             self.unlock_db()
@@ -557,8 +589,7 @@ class Keyring(BaseResource):
                 fh.seek(last_offset)
                 data += fh.read()
             data += b''.join(map(bytes, key.to_packets(header_format)))
-            with open(self.filename, 'wb') as fh:
-                fh.write(data)
+            self._replace(data)
             self._update_offset_table()
         finally:
             self.unlock_db()
@@ -589,8 +620,7 @@ class Keyring(BaseResource):
                     last_offset = fh.tell()
                 fh.seek(last_offset)
                 data += fh.read()
-            with open(self.filename, 'wb') as fh:
-                fh.write(data)
+            self._replace(data)
             self._update_offset_table()
         finally:
             self.unlock_db()
-- 
2.43.0


From 8c0279a8262204f64b8d78efb0efe03e9484fc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 07/57] fix: keep what follows a trust packet in a key

Everything after the first trust packet (as GnuPG writes after each
signature) was dropped.
---
 pgp/transferrable_keys.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 5d9b372..b0feeb7 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -970,6 +970,7 @@ class TransferablePublicKey(BasePublicKey):
         # TODO: HANDLE TRUST PACKETS
         packets = list(packets)
         validate_transferrable_key(packets, cls._secret)
+        packets = [p for p in packets if p.type != C.TRUST_PACKET_TYPE]
         i = 0
         primary_public_key = cls.from_packet(packets[i])
         primary_public_key_signatures = []
-- 
2.43.0


From 6195b304f560161b83dbff24229d0bf3f3015b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 08/57] fix: write valid headers for empty packets and for high
 packet types

New format packets without contents had no length, and packets whose
type does not fit an old format header were given another type.
---
 pgp/packets/packets.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 6fe02af..08b48f6 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -124,11 +124,16 @@ class Packet(object):
         packet_type = self.type
         tag = 0x80
         result = bytearray()
-        if self.header_format == constants.NEW_PACKET_HEADER_TYPE:
+        # Old format headers have room for four bits of the type only.
+        if (
+                self.header_format == constants.NEW_PACKET_HEADER_TYPE
+                or packet_type > 15):
             remaining = data_length
             offset = 0
             tag += 0x40 + packet_type
             result = bytearray([tag])
+            if not data_length:
+                result.append(0)
             while remaining:
                 # "An implementation MAY use Partial Body Lengths for data
                 #  packets, be they literal, compressed, or encrypted."
-- 
2.43.0


From 068ad73b7540438960387101a572dca8eac095a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 09/57] fix: parse streams like memory and notice truncated
 packets

Packets in several partial bodies could not be read from a stream,
short reads shortened packets, and packets whose data ended early were
returned as if they were complete.
---
 pgp/packets/packets.py | 33 +++++++++++++--------------------
 pgp/utils.py           | 36 ++++++++++++++++++++++++++++--------
 2 files changed, 41 insertions(+), 28 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 08b48f6..b18e78a 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1627,25 +1627,16 @@ def packet_from_packet_stream(fh):
 
     packet_data = bytearray()
     incomplete = True
-    previous_tag = None
-    previous_header_type = None
+    tag = None
     while incomplete:
-        first = ord(fh.read(1))
-        tag = first & 0x3f
-        if previous_tag is not None:
-            if tag != previous_tag:
-                # TODO: complete message
-                raise ValueError()
-        previous_tag = tag
-        header_type = (
-                constants.NEW_PACKET_HEADER_TYPE
-                if bool(first & 0x40)
-                else constants.OLD_PACKET_HEADER_TYPE
-            )
-        if previous_header_type is not None:
-            if header_type != previous_header_type:
-                # TODO: complete message
-                raise ValueError()
+        if tag is None:
+            first = ord(utils.read_exactly(fh, 1))
+            tag = first & 0x3f
+            header_type = (
+                    constants.NEW_PACKET_HEADER_TYPE
+                    if bool(first & 0x40)
+                    else constants.OLD_PACKET_HEADER_TYPE
+                )
         if header_type == constants.NEW_PACKET_HEADER_TYPE:
             data_length, incomplete = \
                 utils.new_packet_length_from_stream(fh)
@@ -1655,7 +1646,7 @@ def packet_from_packet_stream(fh):
             data_length = utils.old_packet_length_from_stream(fh)
             incomplete = False
 
-        packet_data.extend(fh.read(data_length))
+        packet_data.extend(utils.read_exactly(fh, data_length))
 
     cls = PACKET_TYPES.get(tag, Packet)
 
@@ -1673,7 +1664,7 @@ def packet_from_packet_data(data, offset=0):
     incomplete = True
     tag = None
     while incomplete:
-        if not tag:
+        if tag is None:
             tag = data[offset] & 0x3f
             header_type = (
                     constants.NEW_PACKET_HEADER_TYPE
@@ -1692,6 +1683,8 @@ def packet_from_packet_data(data, offset=0):
             offset, data_length = utils.old_packet_length(data, offset)
             incomplete = False
 
+        if offset + data_length > len(data):
+            raise ValueError('Unexpected end of packet data.')
         packet_data.extend(data[offset:offset + data_length])
         offset += data_length
 
diff --git a/pgp/utils.py b/pgp/utils.py
index 8378b9e..78ae0e6 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -655,17 +655,37 @@ def int_to_mpi(i):
 MAX_PACKET_LENGTH = 4294967295
 
 
+def read_exactly(fh, length):
+    """Read all of the given number of bytes, or to the end of the stream if
+    it is None, however few of them the stream hands out at a time.
+    """
+
+    result = bytearray()
+    while length is None or len(result) < length:
+        if length is None:
+            data = fh.read(65536)
+        else:
+            data = fh.read(length - len(result))
+        if not data:
+            if length is None:
+                break
+            raise ValueError('Unexpected end of packet data.')
+        result.extend(data)
+    return result
+
+
 def old_packet_length_from_stream(fh):
-    length_type = ord(fh.read(1)) & 0x03
+    length_type = ord(read_exactly(fh, 1)) & 0x03
     if length_type == 0:
-        length = ord(fh.read(1))
+        length = ord(read_exactly(fh, 1))
     elif length_type == 1:
-        length = short_to_int(bytearray(fh.read(2)), 0)
+        length = short_to_int(bytearray(read_exactly(fh, 2)), 0)
     elif length_type == 2:
-        length = long_to_int(bytearray(fh.read(4)), 0)
+        length = long_to_int(bytearray(read_exactly(fh, 4)), 0)
     else:
         # with & 3 and the other cases, this has to be 3.
-        raise ValueError
+        # The packet extends to the end of the stream.
+        length = None
     return length
 
 
@@ -688,14 +708,14 @@ def old_packet_length(data, offset):
 
 
 def new_packet_length_from_stream(fh):
-    length = ord(fh.read(1))
+    length = ord(read_exactly(fh, 1))
     partial = False
     if length < 192:
         pass
     elif length < 224:
-        length = ((length - 192) << 8) + ord(fh.read(1)) + 192
+        length = ((length - 192) << 8) + ord(read_exactly(fh, 1)) + 192
     elif length == 255:
-        length = long_to_int(bytearray(fh.read(4)), 0)
+        length = long_to_int(bytearray(read_exactly(fh, 4)), 0)
     else:
         partial = True
         length = 1 << (length & 0x1f)
-- 
2.43.0


From f13781c509de032179e36502bd2f24d14a88e9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 10/57] fix: compute the sizes of big integers exactly

Floating point logarithms are wrong for numbers close to a power of two,
which gave them malformed MPIs.
---
 pgp/packets/packets.py    | 2 +-
 pgp/transferrable_keys.py | 3 +--
 pgp/utils.py              | 8 ++++----
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index b18e78a..ea68367 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -973,7 +973,7 @@ class SecretKeyPacket(PublicKeyPacket):
         elif version in (2, 3):
             encrypted_data = bytearray()
             for i in values:
-                bits_required = int(math.floor(float(math.log(i, 2)))) + 1
+                bits_required = i.bit_length()
                 bytes_required = int(math.ceil(bits_required / 8.0))
                 encrypted_data.extend(utils.int_to_2byte(bytes_required))
                 cipher.sync()
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index b0feeb7..f30669b 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -16,7 +16,6 @@
 
 import datetime
 import email.utils
-import math
 import time
 import weakref
 
@@ -323,7 +322,7 @@ class BasePublicKey(SignedMixin):
         elif self.public_key_algorithm in (16, 20):
             n = self.prime_p
 
-        return int(math.ceil(float(math.log(n, 2))))
+        return n.bit_length()
 
     @property
     def key_id(self):
diff --git a/pgp/utils.py b/pgp/utils.py
index 78ae0e6..01498a4 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -113,7 +113,7 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
         return secret_key.sign(sig_string, k)
     elif pub_algorithm_type == 17:
         q = secret_key.q
-        qbits = int(math.floor(float(math.log(q, 2)))) + 1
+        qbits = q.bit_length()
         qbytes = int(math.ceil(qbits / 8.0))
         if k is None:
             k = random.StrongRandom().randint(1, q - 1)
@@ -139,7 +139,7 @@ def verify_hash(pub_algorithm_type, public_key, hash_, values):
     elif pub_algorithm_type == 17:
         # DSA
         q = public_key.q
-        qbits = int(math.floor(float(math.log(q, 2)))) + 1
+        qbits = q.bit_length()
         qbytes = int(math.ceil(qbits / 8.0))
 
         digest = hash_.digest()
@@ -560,7 +560,7 @@ def mpi_to_int(bytes_, offset):
 
 
 def int_to_bytes(i):
-    bits_required = int(math.floor(float(math.log(i, 2)))) + 1
+    bits_required = i.bit_length()
     bytes_required = int(math.ceil(bits_required / 8.0))
     result = bytearray(
         [(i >> (j * 8)) & 0xff
@@ -644,7 +644,7 @@ def int_to_mpi(i):
         raise ValueError(i)
     elif i == 0:
         return bytearray([0, 0])
-    bits_required = int(math.floor(float(math.log(i, 2)))) + 1
+    bits_required = i.bit_length()
     bytes_required = int(math.ceil(bits_required / 8.0))
     result = bytearray() + int_to_2byte(bits_required)
     for b in range(bytes_required - 1, -1, -1):
-- 
2.43.0


From faee0fd553c3545a651aa195ddea95562d8145ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 11/57] fix: tell secret keys from public keys

Secret keys are public keys as well, so they were stored in the public
keyring and armoured as public keys.
---
 pgp/db/gpg.py    | 24 ++++++++++++------------
 pgp/shortcuts.py |  6 +++---
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index a9c605c..51563c7 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -687,42 +687,42 @@ class GPGDatabase(object):
         return resource
 
     def add_key(self, key):
-        if isinstance(key, TransferablePublicKey):
+        if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if resource.secret:
                     resource.add_transferrable_key(key)
                     break
-        elif isinstance(key, TransferableSecretKey):
+        elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if not resource.secret:
                     resource.add_transferrable_key(key)
                     break
         else:
             raise TypeError
 
     def delete_key(self, key):
-        if isinstance(key, TransferablePublicKey):
+        if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if resource.secret:
                     resource.delete_transferrable_key(key)
                     break
-        elif isinstance(key, TransferableSecretKey):
+        elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if not resource.secret:
                     resource.delete_transferrable_key(key)
                     break
         else:
             raise TypeError
 
     def update_key(self, key):
-        if isinstance(key, TransferablePublicKey):
+        if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if resource.secret:
                     resource.update_transferrable_key(key)
                     break
-        elif isinstance(key, TransferableSecretKey):
+        elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if not resource.secret:
                     resource.update_transferrable_key(key)
                     break
         else:
diff --git a/pgp/shortcuts.py b/pgp/shortcuts.py
index 5f968f2..f9f1e39 100644
--- a/pgp/shortcuts.py
+++ b/pgp/shortcuts.py
@@ -74,10 +74,10 @@ def serialize_key(key, armored=False, header_format=None):
         header_format = constants.OLD_PACKET_HEADER_TYPE
     data = b''.join(map(bytes, key.to_packets(header_format)))
     if armored:
-        if isinstance(key, TransferablePublicKey):
-            data_type = armor.PGP_PUBLIC_KEY_BLOCK
-        elif isinstance(key, TransferableSecretKey):
+        if isinstance(key, TransferableSecretKey):
             data_type = armor.PGP_PRIVATE_KEY_BLOCK
+        elif isinstance(key, TransferablePublicKey):
+            data_type = armor.PGP_PUBLIC_KEY_BLOCK
 
         data = str(armor.ASCIIArmor(
                 data_type, data,
-- 
2.43.0


From af406f4d207dab9fe6f8924384ef2ef649107405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 12/57] fix: find all the keys that match a search

Of several keys with the same key ID only one was found, and the key ID
was ignored when a fingerprint was given.
---
 pgp/db/gpg.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 51563c7..1cea787 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -254,6 +254,12 @@ class Lock(object):
             self._lock.thread_lock.release()
 
 
+def _is_same_key(fingerprint, wanted):
+    # May be a long or short key ID.
+    return wanted == fingerprint or (
+        len(wanted) in (8, 16) and fingerprint.endswith(wanted))
+
+
 class ResourceTypes:
 
     NONE = 0
@@ -461,14 +467,10 @@ class Keyring(BaseResource):
             self.unlock_db()
 
     def _get_offset(self, fingerprint):
-        # May be a long or short key ID.
-        if fingerprint not in self._offset_table and \
-                len(fingerprint) in (8, 16):
-            for candidate in self._offset_table:
-                if candidate.endswith(fingerprint):
-                    fingerprint = candidate
-                    break
-        return self._offset_table[fingerprint]
+        for candidate, offset in self._offset_table.items():
+            if _is_same_key(candidate, fingerprint):
+                return offset
+        raise KeyError(fingerprint)
 
     def _get_key(self, fingerprint):
         self.lock_db()
@@ -752,19 +754,15 @@ class GPGDatabase(object):
         if fingerprint is None and key_id is None and user_id is None:
             return results
         for resource in self._resources.values():
-            if fingerprint or key_id:
+            # Several keys may have the same key ID. Be really dumb and iterate.
+            for stored in resource.keys():
+                if not all(_is_same_key(stored, wanted)
+                           for wanted in (fingerprint, key_id) if wanted):
+                    continue
                 try:
-                    key = resource.get_transferrable_key(fingerprint or key_id)
+                    key = resource.get_transferrable_key(stored)
                 except KeyError:
                     continue
-                if user_id is not None:
-                    if self._matches_user_id(key, user_id):
-                        results.append(key)
-                else:
+                if user_id is None or self._matches_user_id(key, user_id):
                     results.append(key)
-            else:
-                # User ID only. Be really dumb and iterate.
-                for key in resource.values():
-                    if self._matches_user_id(key, user_id):
-                        results.append(key)
         return results
-- 
2.43.0


From 5cc05efda36b860cf0b7a59f2dae5d6494ef9acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 13/57] fix: parse marker packets

---
 pgp/packets/packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index ea68367..3e19141 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1225,9 +1225,9 @@ class MarkerPacket(Packet):
         return result
 
     def __init__(self, header_format, content, old_literal=False):
-        Packet.__init__(self, header_format, constants.MARKER_PACKET_TYPE)
+        Packet.__init__(self, header_format, constants.MARKER_PACKET_TYPE,
+                        content)
         self.old_literal = old_literal
-        self.content = content
 
     def __eq__(self, other):
         return (
-- 
2.43.0


From c902a416133eade7996febf4de0c6f0385c7a068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 14/57] fix: write literal packets that were parsed, in any
 time zone and with any file name

---
 pgp/packets/packets.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 3e19141..204e823 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -16,7 +16,6 @@
 
 import math
 import os
-import time
 import warnings
 
 from Crypto import Random
@@ -1299,11 +1298,14 @@ class LiteralDataPacket(Packet):
         elif self.data_format not in (b'b', b't', b'u'):
             raise ValueError
         data = bytearray(self.data_format)
-        data.append(int(len(self.filename)))
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
-        data.extend(self.filename.encode('utf8', 'replace'))
-        timestamp = int(time.mktime(self.time.timetuple()))
+        filename = self.filename.encode('utf8', 'replace')
+        data.append(int(len(filename)))
+        data.extend(filename)
+        timestamp = self.time
+        if not isinstance(timestamp, int):
+            timestamp = int(timestamp.timestamp())
         data.extend(utils.int_to_4byte(timestamp))
         content = self.data
         if self.data_format in (b't', b'u'):
-- 
2.43.0


From 99b306c8de9c4dd9ae155d4e0108d35126eba17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 15/57] fix: keep signature subpackets as they were read

---
 pgp/packets/signature_subpackets.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 6c26b6c..505591c 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -23,6 +23,10 @@ from pgp.packets import constants
 
 class SignatureSubpacket(object):
 
+    # The bytes this was read from and the content they were read as
+    _raw = None
+    _raw_content = None
+
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         return cls(type_, critical)
@@ -46,6 +50,9 @@ class SignatureSubpacket(object):
 
     def __bytes__(self):
         data = self.content
+        if self._raw is not None and self._raw_content == (
+                self.type, self.critical, bytes(data)):
+            return self._raw
         data_len = len(data) + 1  # For the type
         result = bytearray()
         packet_length_bytes, _ = \
@@ -640,6 +647,7 @@ SIGNATURE_SUBPACKET_TYPES = {
 
 
 def signature_subpacket_from_data(data, offset=0):
+    start = offset
     offset, length, partial = utils.new_packet_length(data, offset)
     # TODO: smarter error
     assert not partial
@@ -651,7 +659,10 @@ def signature_subpacket_from_data(data, offset=0):
     sub_data = data[offset:offset + length]
     offset += length
     cls = SIGNATURE_SUBPACKET_TYPES.get(subpacket_type, SignatureSubpacket)
-    return (
-        cls.from_subpacket_content(subpacket_type, critical, sub_data),
-        offset
-        )
+    subpacket = cls.from_subpacket_content(subpacket_type, critical, sub_data)
+    # Not everything that can be read is kept in attributes, but all of it
+    # must be there when a signature is verified or written.
+    subpacket._raw = bytes(data[start:offset])
+    subpacket._raw_content = (subpacket.type, subpacket.critical,
+                              bytes(subpacket.content))
+    return subpacket, offset
-- 
2.43.0


From 58a43b9ca6fcaf2731af08bdffcc4328ea578124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 16/57] fix: read and write the rarer signature subpackets

---
 pgp/packets/signature_subpackets.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 505591c..be5d811 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -148,7 +148,7 @@ class RegularExpressionSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.pattern.encode('ascii', 'replace'))
+        return bytearray(self.pattern.encode('ascii', 'replace') + b'\x00')
 
 
 class RevocableSubpacket(SignatureSubpacket):
@@ -194,7 +194,7 @@ class AdditionalRecipientRequestSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         strong_request = bool(sub_data[0] & 0x80)
         public_key_algorithm = sub_data[1]
-        fingerprint = utils.bytearray_to_hex(sub_data, 2, 20)
+        fingerprint = utils.bytearray_to_hex(sub_data, 2, 40)
         return cls(critical, strong_request, public_key_algorithm,
                    fingerprint)
 
@@ -245,11 +245,11 @@ class RevocationKeySubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) == 22
-        tag = sub_data
+        tag = sub_data[0]
         assert tag & 0x80
         sensitive = bool(tag & 0x40)
         public_key_algorithm = int(sub_data[1])
-        fingerprint = utils.bytearray_to_hex(sub_data, 2, 20)
+        fingerprint = utils.bytearray_to_hex(sub_data, 2, 40)
         return cls(critical, fingerprint, public_key_algorithm,
                    sensitive=sensitive)
 
@@ -258,7 +258,7 @@ class RevocationKeySubpacket(SignatureSubpacket):
 
         if isinstance(fingerprint, (bytes, bytearray)):
             assert len(fingerprint) == 20
-            fingerprint = utils.bytearray_to_hex(fingerprint, 0, 20)
+            fingerprint = utils.bytearray_to_hex(fingerprint, 0, 40)
         else:
             assert len(fingerprint) == 40
         SignatureSubpacket.__init__(
@@ -270,10 +270,8 @@ class RevocationKeySubpacket(SignatureSubpacket):
     @property
     def content(self):
         tag = 0x80 + (0x40 if self.sensitive else 0x00)
-        data = bytearray(
-                        [tag, int(self.public_key_algorithm)] +
-                        utils.bytearray_to_hex(self.fingerprint, 20)
-                    )
+        data = bytearray([tag, int(self.public_key_algorithm)])
+        data.extend(utils.hex_to_bytes(self.fingerprint, 20))
         return data
 
 
@@ -556,7 +554,7 @@ class TargetSubpacket(SignatureSubpacket):
             hash_length = len(sub_data) - 2
         else:
             assert hash_length == len(sub_data) - 2
-        hash_ = utils.bytearray_to_hex(sub_data, 2, len(sub_data) - 2)
+        hash_ = utils.bytearray_to_hex(sub_data, 2)
         return cls(critical, public_key_algorithm, hash_algorithm, hash_,
                    hash_length=hash_length)
 
@@ -579,11 +577,12 @@ class TargetSubpacket(SignatureSubpacket):
         if hash_length is None:
             hash_length = self.hash_length
 
-        return bytearray([
+        data = bytearray([
                             int(self.public_key_algorithm),
                             int(self.hash_algorithm),
-                        ] + utils.hex_to_bytes(self.hash, hash_length)
-                    )
+                        ])
+        data.extend(utils.hex_to_bytes(self.hash, hash_length))
+        return data
 
 
 class EmbeddedSignatureSubpacket(SignatureSubpacket):
-- 
2.43.0


From 62a95d40b7e0cdcadaf440bf1aa43e30d93d55e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 17/57] fix: read, write, make and verify version 3 signatures

---
 pgp/packets/packets.py    | 12 +++++++++---
 pgp/signature.py          |  8 ++++----
 pgp/transferrable_keys.py |  2 +-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 204e823..96499f6 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -333,7 +333,7 @@ class SignaturePacket(Packet):
             creation_time = utils.long_to_int(data, offset)
             offset += 4
 
-            key_id = utils.bytearray_to_hex(data, offset, 8)
+            key_id = utils.bytearray_to_hex(data, offset, 16)
             offset += 8
 
             public_key_algorithm = data[offset]
@@ -429,6 +429,8 @@ class SignaturePacket(Packet):
         if version in (2, 3):
             self.creation_time = creation_time
             self.key_id = key_id
+            self.hashed_subpackets = []
+            self.unhashed_subpackets = []
         elif version >= 4:
             if hashed_subpackets is None:
                 hashed_subpackets = []
@@ -449,6 +451,10 @@ class SignaturePacket(Packet):
             and self.hash_algorithm == other.hash_algorithm
             and self.hash2 == other.hash2
             and self.signature_values == other.signature_values
+            and getattr(self, 'creation_time', None) == \
+                getattr(other, 'creation_time', None)
+            and getattr(self, 'key_id', None) == \
+                getattr(other, 'key_id', None)
             and set(self.hashed_subpackets) == set(other.hashed_subpackets)
             and set(self.unhashed_subpackets) == set(other.unhashed_subpackets)
             )
@@ -478,7 +484,7 @@ class SignaturePacket(Packet):
             data.append(0x05)
             data.append(self.signature_type)
             data.extend(utils.int_to_4byte(self.creation_time))
-            data.extend(self.key_id)
+            data.extend(utils.hex_to_bytes(self.key_id, 8))
             data.append(self.public_key_algorithm)
             data.append(self.hash_algorithm)
         else:
@@ -645,7 +651,7 @@ class OnePassSignaturePacket(Packet):
         offset += 1
         public_key_algorithm = int(data[offset])
         offset += 1
-        key_id = utils.bytearray_to_hex(data, offset, 8)
+        key_id = utils.bytearray_to_hex(data, offset, 16)
         offset += 8
         nested = data[offset]
         offset += 1
diff --git a/pgp/signature.py b/pgp/signature.py
index 827a31f..e92a56a 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -171,7 +171,7 @@ class BaseSignature(object):
                         hashed_subpackets=hashed_subpackets,
                         unhashed_subpackets=unhashed_subpackets)
         elif self.version in (2, 3):
-            creation_time = int(time.mktime(self.creation_time.timetuple()))
+            creation_time = int(self.creation_time.timestamp())
             packet = packets.SignaturePacket(
                         header_format, self.version, self.signature_type,
                         self.public_key_algorithm, self.hash_algorithm,
@@ -186,7 +186,7 @@ class BaseSignature(object):
         result.append(self.signature_type)
         if self.version < 4:
             result.extend(utils.int_to_4byte(
-                time.mktime(self.creation_time.timetuple())
+                int(self.creation_time.timestamp())
             ))
         else:
             result.append(self.public_key_algorithm)
@@ -300,7 +300,7 @@ class BaseSignature(object):
 
     def _get_creation_time(self):
         if self.version in (2, 3):
-            value = self._creation_time
+            return self._creation_time
         elif self.version >= 4:
             value = self._get_subpacket_values(
                 C.CREATION_TIME_SUBPACKET_TYPE,
@@ -324,7 +324,7 @@ class BaseSignature(object):
 
     def _get_issuer_key_ids(self):
         if self.version in (2, 3):
-            return [self._issuer_key_ids]
+            return [self._issuer_key_id]
         elif self.version >= 4:
             return self._get_subpacket_values(
                 C.ISSUER_KEY_ID_SUBPACKET_TYPE,
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index f30669b..e624115 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -538,7 +538,7 @@ class BaseSecretKey(BasePublicKey):
         creation_time_arg = None
         issuer_key_id_arg = None
         if version in (2, 3):
-            creation_time_arg = creation_time
+            creation_time_arg = datetime.datetime.fromtimestamp(creation_time)
             issuer_key_id_arg = issuer_key_id
         elif version == 4:
             creation_time_subpacket = \
-- 
2.43.0


From eebc3710c71c6bedc2e7abaec95258141479e3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 18/57] fix: verify RSA signatures with leading zeros

---
 pgp/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 01498a4..78651d3 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -128,7 +128,8 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
 def verify_hash(pub_algorithm_type, public_key, hash_, values):
     if pub_algorithm_type in (1, 3):
         # RSA
-        s = long_to_bytes(values[0])
+        # Leading zeros are not stored.
+        s = long_to_bytes(values[0], (public_key.size() + 8) // 8)
         return PKCS1_v1_5.new(public_key).verify(hash_, s)
     elif pub_algorithm_type == 20:
         # ELG
-- 
2.43.0


From c7b6485b450ce326a7d929f8ea84a9e806f1ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 19/57] fix: keep all characters of canonical text

---
 pgp/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/message.py b/pgp/message.py
index 0ad1295..88a3e06 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -30,7 +30,7 @@ from pgp.signature import BaseSignature
 from pgp import utils
 
 
-INCOMPLETE_CRLF = re.compile(b'(\r[^\n]|[^\r]\n)', re.M)
+INCOMPLETE_CRLF = re.compile(b'\r\n|\r|\n')
 
 
 class MessageSignature(BaseSignature):
-- 
2.43.0


From 59c928e705f40d73602bc274cd9f939cf4f3a832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 20/57] fix: leave the subpackets given to sign() alone

---
 pgp/transferrable_keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index e624115..a34ed0b 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -533,7 +533,7 @@ class BaseSecretKey(BasePublicKey):
             SigClass = BaseSignature
         creation_time = int(time.time())
         issuer_key_id = self.key_id
-        hashed_subpackets = hashed_subpackets or []
+        hashed_subpackets = list(hashed_subpackets or [])
         unhashed_subpackets = []
         creation_time_arg = None
         issuer_key_id_arg = None
-- 
2.43.0


From f741ecfd92d2e5b1bd7512e82868732683d00cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 21/57] fix: sign secret subkeys as the public subkeys

---
 pgp/transferrable_keys.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index a34ed0b..2ba4209 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -651,6 +651,10 @@ class SecretSubkey(PublicSubkey, BaseSecretKey):
         self._primary_public_key_ref = weakref.ref(primary_public_key)
         BaseSecretKey.__init__(self, *args, **kwargs)
 
+    def to_signable_data(self, signature_type, signature_version=3):
+        return self.to_public_key().to_signable_data(signature_type,
+                                                     signature_version)
+
     def to_public_key(self):
         key = self._PublicClass(
             self.primary_public_key, self.version, self.public_key_algorithm,
-- 
2.43.0


From ee1cb0e223b1afc2529acde51881e4949730ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 22/57] fix: lock the whole key again if a subkey cannot be
 unlocked

---
 pgp/transferrable_keys.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 2ba4209..e6595fa 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -1099,9 +1099,14 @@ class TransferableSecretKey(BaseSecretKey, TransferablePublicKey):
         return key
 
     def unlock(self, passphrase):
-        super(TransferableSecretKey, self).unlock(passphrase)
-        for sk in self.subkeys:
-            sk.unlock(passphrase)
+        try:
+            super(TransferableSecretKey, self).unlock(passphrase)
+            for sk in self.subkeys:
+                sk.unlock(passphrase)
+        except BaseException:
+            # All or nothing
+            self.lock()
+            raise
 
     def lock(self):
         super(TransferableSecretKey, self).lock()
-- 
2.43.0


From b9282acafbfc37cb8ef7677a8dae3f8d14a17b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 23/57] fix: keep a secret prime out of public keys and packets

---
 pgp/transferrable_keys.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index e6595fa..409750b 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -463,13 +463,22 @@ class BaseSecretKey(BasePublicKey):
         key = self._PublicClass(
             self.version, self.public_key_algorithm, self.creation_time,
             self.expiration_time, self.modulus_n, self.exponent_e,
-            self.prime_p, self.group_generator_g, self.group_order_q,
+            self._public_prime_p, self.group_generator_g, self.group_order_q,
             self.key_value_y, self.signatures)
         key.packet_header_type = self.packet_header_type
         return key
 
+    @property
+    def _public_prime_p(self):
+        # A part of the secret with RSA, not with the other algorithms
+        if self.public_key_algorithm in (1, 2, 3):
+            return None
+        return self.prime_p
+
     def _to_packet_args(self, header_format=None):
-        args = BasePublicKey._to_packet_args(self, header_format)
+        args = list(BasePublicKey._to_packet_args(self, header_format))
+        args[7] = self._public_prime_p
+        args = tuple(args)
         args += (self.s2k_specification, self.symmetric_algorithm, self.iv,
                  self.encrypted_portion, self.checksum, self.hash)
         return args
@@ -659,7 +668,7 @@ class SecretSubkey(PublicSubkey, BaseSecretKey):
         key = self._PublicClass(
             self.primary_public_key, self.version, self.public_key_algorithm,
             self.creation_time, self.expiration_time, self.modulus_n,
-            self.exponent_e, self.prime_p, self.group_generator_g,
+            self.exponent_e, self._public_prime_p, self.group_generator_g,
             self.group_order_q, self.key_value_y, self.signatures)
         key.packet_header_type = self.packet_header_type
         return key
-- 
2.43.0


From 94d43ede29dc83b4746962c261210178038afbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 24/57] fix: compute creation and expiry times in any time zone
 and from the right key

---
 pgp/signature.py          | 37 +++++++++++++++++++++++++------------
 pgp/transferrable_keys.py | 11 ++++++++---
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index e92a56a..fc60ce4 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -16,7 +16,6 @@
 
 import datetime
 import re
-import time
 import weakref
 
 from zope.interface import implementer
@@ -310,15 +309,16 @@ class BaseSignature(object):
     def _set_creation_time(self, dt):
         # expiration time is relative to creation time, make sure it's kept in
         # sync with creation time.
-        exp_time = self.signature__expiration_time
-        value = time.mktime(dt.timetuple())
+        exp_time = self.signature_expiration_time
+        value = int(dt.timestamp())
         if self.version in (2, 3):
-            self._creation_time = value
+            self._creation_time = dt
         elif self.version >= 4:
             self._update_subpacket_values(
                 C.CREATION_TIME_SUBPACKET_TYPE,
                 'time', value)
-        self.signature__expiration_time = exp_time
+        if exp_time is not None:
+            self.signature_expiration_time = exp_time
 
     creation_time = property(_get_creation_time, _set_creation_time)
 
@@ -361,7 +361,8 @@ class BaseSignature(object):
         #  expires."
         if not seconds:
             return None
-        return self.creation_time + datetime.timedelta(seconds=seconds)
+        return datetime.datetime.fromtimestamp(
+            self.creation_time.timestamp() + seconds)
 
     def _set_signature_expiration_time(self, dt):
         if dt is None:
@@ -369,8 +370,7 @@ class BaseSignature(object):
         elif dt < self.creation_time:
             raise ValueError
         else:
-            td = dt - self.creation_time
-            value = td.seconds + td.days * 86400
+            value = int(dt.timestamp() - self.creation_time.timestamp())
             self._update_subpacket_values(
                 C.EXPIRATION_SECONDS_SUBPACKET_TYPE,
                 'time', value)
@@ -547,6 +547,17 @@ class BaseSignature(object):
     embedded_signatures = property(_get_embedded_signatures,
                                    _set_embedded_signatures)
 
+    @property
+    def _expiring_key(self):
+        if self.signature_type in (
+                C.GENERIC_CERTIFICATION,
+                C.CASUAL_CERTIFICATION,
+                C.PERSONA_CERTIFICATION,
+                C.POSITIVE_CERTIFICATION,
+                ):
+            return self.parent.primary_public_key
+        return self.parent
+
     def _get_key_expiration_time(self):
         seconds = self._get_subpacket_values(
             C.KEY_EXPIRATION_TIME_SUBPACKET_TYPE,
@@ -555,11 +566,12 @@ class BaseSignature(object):
         #  expires."
         if not seconds:  # 0 or None
             return seconds
-        return self.target.creation_time + datetime.timedelta(seconds=seconds)
+        return datetime.datetime.fromtimestamp(
+            self._expiring_key.creation_time.timestamp() + seconds)
 
     def _set_key_expiration_time(self, value):
-        delta = value - self.target.creation_time
-        seconds = delta.days * 86400 + delta.seconds
+        seconds = int(value.timestamp() -
+                      self._expiring_key.creation_time.timestamp())
         self._update_subpacket_values(
             C.KEY_EXPIRATION_TIME_SUBPACKET_TYPE,
             'time', seconds)
@@ -835,7 +847,8 @@ class BaseSignature(object):
     @property
     def expired(self):
         if self.signature_expiration_time:
-            return self.get_current_time() > self.signature_expiration_time
+            return (self.get_current_time().timestamp() >
+                    self.signature_expiration_time.timestamp())
         return False
 
     @property
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 409750b..fbfde6e 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -91,7 +91,7 @@ class SignedMixin(object):
         return bool(self.revocation_signatures)
 
     def get_most_recent_selfsig(self, revocation=False):
-        last_signature_created = datetime.datetime(1900, 1, 1)
+        last_signature_created = None
         most_recent_selfsig = None
         for signature in self.signatures:
             if not signature.is_self_signature():
@@ -107,7 +107,12 @@ class SignedMixin(object):
                     self._revocation_sig_types
                     ):
                 continue
-            if last_signature_created < signature.creation_time:
+            created = signature.creation_time.timestamp()
+            if (
+                    last_signature_created is None
+                    or last_signature_created < created
+                    ):
+                last_signature_created = created
                 most_recent_selfsig = signature
 
         return most_recent_selfsig
@@ -220,7 +225,7 @@ class BasePublicKey(SignedMixin):
         return result
 
     def _to_packet_args(self, header_format=None):
-        creation_time = int(time.mktime(self.creation_time.timetuple()))
+        creation_time = int(self.creation_time.timestamp())
         expiration_days = None
         if self.version < 4:
             expiration_time = self.expiration_time
-- 
2.43.0


From 49ac8eeb6dac915b297f2f5b7740a13430288ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 25/57] fix: decrypt session keys with leading zeros or the
 wrong length

---
 pgp/packets/packets.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 96499f6..0bdec16 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -169,7 +169,7 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
         #  card" or "speculative" Key ID.  In this case, the receiving
         #  implementation would try all available private keys, checking for a
         #  valid decrypted session key."
-        if key_id == b'0' * 16:
+        if key_id == '0' * 16:
             key_id = None
         offset += 8
         public_key_algorithm = int(data[offset])
@@ -221,8 +221,8 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
             ems.append(bytes(em))
 
         if len(ems) == 1:
-            # RSA takes a single argument.
-            em = ems[0]
+            # RSA takes a single argument. Leading zeros are not stored.
+            em = ems[0].rjust((secret_key_obj.size() + 8) // 8, b'\x00')
         else:
             # ElGamal takes a 2-tuple.
             em = tuple(ems)
@@ -243,6 +243,9 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
             raise NotImplementedError()
             m = decrypted_values[1]
 
+        if len(m) < 3:
+            raise ValueError
+
         symmetric_algorithm = int(m[0])
         expected_checksum = (
                 (m[-2] << 8) +
-- 
2.43.0


From 0647577320db741677cb8971ba920d1b5a5b2977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 26/57] fix: encrypt with a random ElGamal exponent

---
 pgp/packets/packets.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 0bdec16..fe7ee17 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -21,6 +21,8 @@ import warnings
 from Crypto import Random
 from Crypto.Cipher.PKCS1_v1_5 import PKCS115_Cipher
 from Crypto.Hash import SHA
+from Crypto.Random import random
+from Crypto.Util.number import GCD
 
 from pgp.packets import constants
 from pgp.packets.signature_subpackets import signature_subpacket_from_data
@@ -61,7 +63,13 @@ class PKCS115_ElGamal_Cipher(PKCS115_Cipher):
         # Step 2b
         em = b'\x00\x02' + ps + b'\x00' + message
         # Step 3a (OS2IP), step 3b (RSAEP), part of step 3c (I2OSP)
-        m = self._key.encrypt(em, 0)
+        # The ephemeral exponent has to be random and coprime to p - 1.
+        p = int(self._key.p)
+        while 1:
+            exponent = random.StrongRandom().randint(2, p - 2)
+            if GCD(exponent, p - 1) == 1:
+                break
+        m = self._key.encrypt(em, exponent)
         # Skip step 3c (I2OSP)
         # ...
         return m
@@ -278,7 +286,7 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
             # RSA / ElGamal
             values = cipher.encrypt(session_key)
         else:
-            k = Random.random.randint(1, cipher.p - 2)
+            k = random.StrongRandom().randint(1, cipher.p - 2)
             values = cipher.encrypt(utils.bytes_to_int(session_key, 0,
                                                        len(session_key)), k)
             values = map(utils.int_to_bytes, values)
-- 
2.43.0


From 2312c3eeb534c7391c01e980df7a516eaff09771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 27/57] fix: hide the key ids of hidden recipients

---
 pgp/message.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/message.py b/pgp/message.py
index 88a3e06..1f9b923 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -67,6 +67,8 @@ class BaseMessage(object):
                 '`public_keys`.')
         elif public_key is not None:
             public_keys = [public_key]
+        if public_keys is None:
+            public_keys = []
         if hidden_public_keys is None:
             hidden_public_keys = []
         if session_key is None:
@@ -340,6 +342,8 @@ class PublicKeySessionKey(object):
         if public_key:
             self.public_key_algorithm = public_key.public_key_algorithm
             self.key_id = public_key.key_id
+        if hide_key_id:
+            self.key_id = None
         if encrypted_key:
             self.encrypted_key = encrypted_key
         if session_key:
-- 
2.43.0


From c85e1bae09ed7641acd0811bb50e807f92a6c3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 28/57] fix: encrypt and decrypt messages without integrity
 protection

The body of a message without a modification detection code was neither
written nor read in OpenPGP's CFB mode, so it could not be decrypted.
---
 pgp/message.py | 18 +++++++++++-------
 pgp/utils.py   |  4 ++++
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 1f9b923..2cb2afc 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -405,8 +405,11 @@ class SymmetricallyEncryptedMessageData(object):
         version = None
         if integrity_protected:
             version = packet.version
+            encrypted_data = packet.encrypted_data
+        else:
+            encrypted_data = packet.data
         return cls(
-            encrypted_data=packet.encrypted_data,
+            encrypted_data=encrypted_data,
             integrity_protected=integrity_protected,
             version=version
             )
@@ -431,15 +434,13 @@ class SymmetricallyEncryptedMessageData(object):
             )
         padding = 0
         if not self.integrity_protected:
-            padding = block_len - len(message) % block_len
-            message = message + b'\x00' * padding
-            data.extend(cipher.encrypt(iv + iv[-2:]))
             cipher = utils.get_symmetric_cipher(
                 symmetric_algo,
                 key,
-                utils.CFB,
+                utils.OPENPGP,
                 iv
                 )
+            # Starts with the encrypted IV
             data.extend(cipher.encrypt(message))
         else:
             padding = block_len - (len(message) + 2 + 22) % block_len
@@ -489,14 +490,17 @@ class SymmetricallyEncryptedMessageData(object):
                 key,
                 utils.OPENPGP,
                 encrypted_iv)
+            offset += block_len + 2
 
         decrypted_data.extend(cipher.decrypt(encrypted_data[offset:]))
-        decrypted_data = decrypted_data[:-padding]
+        if padding:
+            decrypted_data = decrypted_data[:-padding]
         # We run into trouble here with partial body lengths and the MDC.
         # Let's make pretend.
         mdc_data = bytearray()
         main_data = decrypted_data
-        if decrypted_data[-22:-20] == b'\xd3\x14':
+        if (self.integrity_protected
+                and decrypted_data[-22:-20] == b'\xd3\x14'):
             # It's there. Hold it back.
             mdc_data = decrypted_data[-22:]
             main_data = decrypted_data[:-22]
diff --git a/pgp/utils.py b/pgp/utils.py
index 78651d3..0175b00 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -278,6 +278,10 @@ def get_symmetric_cipher(type_, key, mode, iv=None, segment_size=None,
     if segment_size is None and mode == blockalgo.MODE_CFB:
         segment_size = cipher.block_size * 8
 
+    if mode == blockalgo.MODE_OPENPGP:
+        # PyCrypto knows the IV by its lower-case name only in this mode.
+        return cipher.new(bytes(key), mode, iv=bytes(iv))
+
     if syncable and cipher not in (aidea, twofish, camellia):
         # We need to wrap the PyCrypto implementation so we can re-sync
         # for OpenPGP's weird CFB mode.
-- 
2.43.0


From b5033480be6f1e7795203902b6b9d14d3dc18ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 29/57] fix: use 256 bit keys with Twofish

OpenPGP's algorithm 10 is Twofish with a 256 bit key.
---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 0175b00..c2cd57b 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -85,7 +85,7 @@ symmetric_cipher_key_lengths = {
     7: 16,  # AES-128
     8: 24,  # AES-192
     9: 32,  # AES-256
-    10: 16,  # Twofish-256
+    10: 32,  # Twofish-256
     11: 16,  # Camellia-128
     12: 24,  # Camellia-192
     13: 32,  # Camellia-256
-- 
2.43.0


From 1e04a83fb57706dd96a53617d62234193b1f3613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 30/57] fix: find the session key meant for the recipient

A message to several recipients could only be read by some of them: a
session key for somebody else made decryption fail before the right one
was tried.
---
 pgp/message.py | 57 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 2cb2afc..28497a4 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -257,6 +257,9 @@ class SymmetricSessionKey(object):
         if passphrase is not None:
             self.set_session_key(passphrase, session_key)
 
+    def is_for(self, secret_key_or_passphrase):
+        return isinstance(secret_key_or_passphrase, (str, bytes, bytearray))
+
     def get_algorithm_and_session_key(self, passphrase):
         PacketCls = packets.SymmetricKeyEncryptedSessionKeyPacket
         if isinstance(passphrase, str):
@@ -351,6 +354,18 @@ class PublicKeySessionKey(object):
                                                symmetric_algorithm,
                                                session_key)
 
+    def is_for(self, secret_key_or_passphrase):
+        algorithm = getattr(secret_key_or_passphrase, 'public_key_algorithm',
+                            None)
+        if self.public_key_algorithm in (1, 2, 3):
+            if algorithm not in (1, 2, 3):
+                return False
+        elif algorithm is None or algorithm != self.public_key_algorithm:
+            return False
+        # Hidden recipients have to try.
+        return (self.key_id is None
+                or self.key_id == secret_key_or_passphrase.key_id)
+
     def get_algorithm_and_session_key(self, secret_key):
         if secret_key.is_locked():
             raise RuntimeError('Key must be unlocked.')
@@ -378,7 +393,12 @@ class DefaultSessionKey(object):
     symmetric_algorithm = 1  # IDEA
     key_hash_algorithm = 1  # MD5
 
+    def is_for(self, secret_key_or_passphrase):
+        return isinstance(secret_key_or_passphrase, (str, bytes, bytearray))
+
     def get_algorithm_and_session_key(self, passphrase):
+        if isinstance(passphrase, str):
+            passphrase = passphrase.encode('utf8')
         hash_ = utils.get_hash_instance(self.key_hash_algorithm)
         hash_.update(passphrase)
         key = hash_.digest()
@@ -597,31 +617,28 @@ class EncryptedMessageWrapper(BaseMessage):
         #  Symmetrically Encrypted Integrity Protected Data packet as well as
         #  decompressing a Compressed Data packet must yield a valid OpenPGP
         #  Message."
-        sym_algo = None
-        sess_key = None
+        # TODO: raise a better error
+        error = ValueError()
         for sess_key_obj in self.session_keys:
-            if isinstance(sess_key_obj, PublicKeySessionKey):
-                try:
-                    sym_algo, sess_key = \
-                        sess_key_obj.get_algorithm_and_session_key(
-                            secret_key_or_passphrase)
-                except ValueError:
-                    continue
-            elif isinstance(sess_key_obj, SymmetricSessionKey):
-                sym_algo, sess_key = \
-                    sess_key_obj.get_algorithm_and_session_key(
-                        secret_key_or_passphrase)
-            elif isinstance(sess_key_obj, DefaultSessionKey):
+            if not sess_key_obj.is_for(secret_key_or_passphrase):
+                # For another recipient
+                continue
+            try:
                 sym_algo, sess_key = \
                     sess_key_obj.get_algorithm_and_session_key(
                         secret_key_or_passphrase)
-            else:
-                # TODO: consider raising an error
+            except ValueError as e:
+                error = e
                 continue
-            return self.message_data_obj.decrypt(sym_algo, sess_key)
-
-        # TODO: raise a better error
-        raise ValueError()
+            try:
+                return self.message_data_obj.decrypt(sym_algo, sess_key)
+            except Exception as e:
+                # This session key may have been meant for somebody else,
+                # who has another passphrase or whose key ID is hidden. Then
+                # anything may be wrong with what it decrypts to.
+                error = e
+
+        raise error
 
     def to_packets(self, header_format=None):
         packets = []
-- 
2.43.0


From 5546e283e556d6b8932b71fadef41bd2e63425fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 31/57] fix: protect a session key with another cipher than the
 message

symmetric_encrypt() with an s2k_symmetric_algorithm wrote a session key
packet which nobody could decrypt.
---
 pgp/message.py         | 2 +-
 pgp/packets/packets.py | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 28497a4..222b1f3 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -298,7 +298,7 @@ class SymmetricSessionKey(object):
         return packets.SymmetricKeyEncryptedSessionKeyPacket(
             header_format,
             4,  # "The only currently defined version is 4."
-            self.symmetric_algorithm,
+            self.s2k_specification.symmetric_algorithm,
             self.s2k_specification,
             self.encrypted_key
             )
diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index fe7ee17..ace5c67 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -555,11 +555,9 @@ class SymmetricKeyEncryptedSessionKeyPacket(Packet):
         s2k_specification, offset = s2k.parse_s2k_bytes(symmetric_algorithm,
                                                         data,
                                                         offset)
-        encrypted_session_key_length = \
-            utils.symmetric_cipher_key_lengths.get(symmetric_algorithm)
-        # + 1 for the symmetric algorithm
-        encrypted_session_key = \
-            data[offset:offset + encrypted_session_key_length + 1]
+        # The session key may be for another algorithm, so that its length
+        # does not follow from this one.
+        encrypted_session_key = data[offset:]
         result = cls(header_format, version, symmetric_algorithm,
                      s2k_specification, encrypted_session_key)
         result._content = data
@@ -608,6 +606,7 @@ class SymmetricKeyEncryptedSessionKeyPacket(Packet):
         #  used to encrypt the following Symmetrically Encrypted Data packet,
         #  followed by the session key octets themselves."
         if encrypted_session_key:
+            symmetric_algorithm = s2k_specification.symmetric_algorithm
             block_size = utils.symmetric_cipher_block_lengths.get(
                                 symmetric_algorithm)
             iv = bytearray([0] * block_size)
-- 
2.43.0


From 7577655c43a637f6eb28092ce6120f0984a584f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:32 +0000
Subject: [PATCH 32/57] fix: derive keys from the whole of long passphrases

With a small octet count, passphrases which share their first characters
were equivalent.
---
 pgp/s2k.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pgp/s2k.py b/pgp/s2k.py
index 9624abd..e4be0c6 100644
--- a/pgp/s2k.py
+++ b/pgp/s2k.py
@@ -47,10 +47,11 @@ class SimpleS2K(object):
         pass_ = 0
         result = bytearray()
         # Length of content hashed on each iteration
-        len2 = len(passphrase) + 8
-        count = self.count
-        if count is None:
-            count = len2
+        len2 = len(passphrase) + len(self.salt)
+        # "[...] if the octet count is less than the size of the salt plus
+        #  passphrase, the full salt plus passphrase will be hashed even
+        #  though that is greater than the octet count."
+        count = max(self.count or 0, len2)
 
         while (pass_ * hash_length) < required_length:
             # "If the hash size is less than the key size, multiple instances
@@ -66,7 +67,7 @@ class SimpleS2K(object):
 
             # Spec is actually pretty vague here - had to determine when the
             # salt really should be hashed from gcrypt/gnupg source.
-            for i in range(math.ceil(count / float(len2))):
+            for i in range(math.ceil(count / float(len2 or 1))):
                 to_write = min(len2, count - (len2 * i))
                 hash_.update((bytes(self.salt) + bytes(passphrase))[:to_write])
 
-- 
2.43.0


From 67dc6bac3309ce6fdf1d87245077c5d4afab228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 33/57] fix: read messages compressed with BZip2, compress
 everything with ZLIB

Reading used a BZip2 compressor, and a second piece of data given to the
ZLIB compressor was lost. A compression level may be left out.
---
 pgp/utils.py | 49 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index c2cd57b..9fe1485 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -331,7 +331,7 @@ class ZlibCompression(object):
         if self._obj is None:
             self._compress = True
             self._obj = zlib.compressobj(self.level)
-            self._result += self._obj.compress(data)
+        self._result += self._obj.compress(data)
         return b''
 
     def decompress(self, data):
@@ -407,8 +407,53 @@ class DeflateCompression(object):
         return result
 
 
+class Bz2Compression(object):
+
+    def __init__(self, level):
+        self._obj = None
+        self._compress = None
+        self._result = b''
+        self.level = level
+
+    def compress(self, data):
+        if self._result is None:
+            # already flushed
+            raise ValueError
+        if self._compress is False:
+            raise ValueError
+        if self._obj is None:
+            self._compress = True
+            self._obj = bz2.BZ2Compressor(self.level)
+        self._result += self._obj.compress(data)
+        return b''
+
+    def decompress(self, data):
+        if self._result is None:
+            # already flushed
+            raise ValueError
+        if self._compress is True:
+            raise ValueError
+        if self._obj is None:
+            self._compress = False
+            self._obj = bz2.BZ2Decompressor()
+        self._result += self._obj.decompress(bytes(data))
+        return b''
+
+    def flush(self):
+        if self._result is None:
+            # already flushed
+            raise ValueError
+        result = self._result
+        if self._compress:
+            result += self._obj.flush()
+        self._result = None
+        return result
+
+
 def get_compression_instance(type_, level=None):
 
+    if level is None:
+        level = 9 if type_ == 3 else -1
     instance = None
     if type_ == 0:
         instance = NoopCompression()
@@ -419,7 +464,7 @@ def get_compression_instance(type_, level=None):
         # ZLIB - RFC 1950
         instance = ZlibCompression(level)
     elif type_ == 3:
-        instance = bz2.BZ2Compressor(level)
+        instance = Bz2Compression(level)
 
     return instance
 
-- 
2.43.0


From e482b0a538be5a01e7ec0de40398f65fc4a0e628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:46 +0000
Subject: [PATCH 34/57] fix: put signatures before the message unless it is
 signed in one pass

Such messages were written like one-pass signed ones and could not be read.
---
 pgp/message.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 222b1f3..f117102 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -664,22 +664,25 @@ class SignedMessageWrapper(BaseMessage):
     @classmethod
     def from_packets(cls, packets):
         one_pass = False
-        signatures = []
+        signature_packets = []
         message = None
         for packet in packets:
             if packet.type == C.ONE_PASS_SIGNATURE_PACKET_TYPE:
                 one_pass = True
             elif packet.type == C.SIGNATURE_PACKET_TYPE:
-                if message:
-                    signature = parse_signature_from_packet(packet, message,
-                                                            one_pass=one_pass)
-                    signatures.append(signature)
-                else:
-                    raise TypeError()
+                # Follows the message if it was announced by a one-pass
+                # signature packet, otherwise precedes it.
+                signature_packets.append(packet)
             elif message is None:
                 message = open_pgp_message_from_packets([packet])
             else:
                 raise TypeError()
+        if message is None:
+            raise TypeError()
+        signatures = [
+            parse_signature_from_packet(packet, message, one_pass=one_pass)
+            for packet in signature_packets
+            ]
         return cls(signatures, message, one_pass)
 
     def __init__(self, signatures, message, one_pass=True):
@@ -709,9 +712,13 @@ class SignedMessageWrapper(BaseMessage):
                         sig.issuer_key_ids[0],
                         nested=(i != len(self.signatures))
                     ))
+        signature_packets = [sig.to_packet(header_format)
+                             for sig in self.signatures]
+        if not self.one_pass:
+            pkts.extend(signature_packets)
         pkts.extend(self.message.to_packets(header_format))
-        for sig in self.signatures:
-            pkts.append(sig.to_packet(header_format))
+        if self.one_pass:
+            pkts.extend(signature_packets)
         return pkts
 
 
-- 
2.43.0


From 2593c4579290b8f5a5ae3028ec7024a36ac8c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:15 +0000
Subject: [PATCH 35/57] fix: unlock secret keys protected with a checksum
 instead of a hash

---
 pgp/packets/packets.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index ace5c67..512e199 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1055,12 +1055,10 @@ class SecretKeyPacket(PublicKeyPacket):
         data_length = len(decrypted_data)
         if checksum:
             data_length -= 2
-            if version >= 4:
-                # With V4 keys, the checksum is encrypted like the
-                # algorithm-specific data.
-                expected_checksum = utils.short_to_int(
-                        cipher.decrypt(utils.int_to_2byte(decrypted_data[-2:]))
-                    )
+            # With V4 keys, the checksum is encrypted like the
+            # algorithm-specific data.
+            expected_checksum = utils.short_to_int(decrypted_data,
+                                                   data_length)
             actual_checksum = sum(decrypted_data[:-2]) & 0xffff
             if actual_checksum != expected_checksum:
                 raise ValueError
-- 
2.43.0


From e0397bdcaada6850034f86a63a23cfa16bd60dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:19 +0000
Subject: [PATCH 36/57] fix: read keys with revoked subkeys

A subkey revocation was only accepted after another one, so that a keyring
with a revoked subkey could not be read.
---
 pgp/transferrable_keys.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index fbfde6e..c6dc403 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -902,8 +902,9 @@ def validate_transferrable_key(packets, secret=False):
                         ).format(previous))
                 if (
                         previous == C.SIGNATURE_PACKET_TYPE
-                        and packets[j].signature_type !=
-                            C.SUBKEY_BINDING_SIGNATURE
+                        and packets[j].signature_type not in (
+                            C.SUBKEY_BINDING_SIGNATURE,
+                            C.SUBKEY_REVOCATION_SIGNATURE)
                         ):
                     raise exceptions.InvalidKeyPacketOrder((
                         "Subkey Binding Signature may only appear "
@@ -920,9 +921,8 @@ def validate_transferrable_key(packets, secret=False):
                                     "Packet and other Signatures Directly On "
                                     "Key")
             elif sig_type == C.SUBKEY_REVOCATION_SIGNATURE:
-                if (previous != C.SIGNATURE_PACKET_TYPE
-                        or packets[j].signature_type !=
-                        C.SUBKEY_REVOCATION_SIGNATURE):
+                # GnuPG puts it in front of the Subkey Binding Signature.
+                if previous_non_sig != subkey_packet_type:
                     raise exceptions.InvalidKeyPacketOrder(
                                 "Subkey Revocation Signature may only appear "
                                 "after a Subkey Binding Signature")
@@ -961,9 +961,11 @@ def validate_transferrable_key(packets, secret=False):
             if pubkey_version < 4:
                 raise exceptions.InvalidKeyPacketType(
                             "V3 keys may not contain subkeys")
-            if (type_order[i + 1] != C.SIGNATURE_PACKET_TYPE
-                    or packets[i + 1].signature_type !=
-                        C.SUBKEY_BINDING_SIGNATURE):
+            if (i + 1 >= len(type_order)
+                    or type_order[i + 1] != C.SIGNATURE_PACKET_TYPE
+                    or packets[i + 1].signature_type not in (
+                        C.SUBKEY_BINDING_SIGNATURE,
+                        C.SUBKEY_REVOCATION_SIGNATURE)):
 
                 raise exceptions.InvalidKeyPacketOrder(
                             "Subkeys must be followed by a binding signature")
-- 
2.43.0


From 106c0e86de32bf798280f3e07585e603a85da125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 37/57] fix: read the gpg-agent's replies completely

Only the first line of a reply was taken for the passphrase, characters
outside ASCII were garbled, a closed connection was read for ever, a request
could be sent in part, the reply to CLEAR_PASSPHRASE was ignored and the
connection was left open after an error.
---
 pgp/pinentry/gpg_agent.py | 51 +++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index 7ba9639..23ae814 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -17,7 +17,7 @@
 import os
 import socket
 from urllib.parse import quote
-from urllib.parse import unquote
+from urllib.parse import unquote_to_bytes
 
 
 class GPGAgentPinentry(object):
@@ -32,29 +32,41 @@ class GPGAgentPinentry(object):
 
     def connect(self):
         self._sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
-        self._sock.connect(self.socket_path)
-        # Get welcome line
-        self.get_response()
+        try:
+            self._sock.connect(self.socket_path)
+            # Get welcome line
+            self.get_response()
+        except BaseException:
+            self.disconnect()
+            raise
 
     def disconnect(self):
-        self._sock.close()
+        sock, self._sock = self._sock, None
+        if sock is not None:
+            sock.close()
 
     def send(self, data):
         if isinstance(data, str):
             data = data.encode('latin-1')
-        self._sock.send(data + b'\n')
+        self._sock.sendall(data + b'\n')
 
     def get_response(self):
         buf = b''
         lines = []
         while 1:
             byte = self._sock.recv(1)
+            if not byte:
+                raise EOFError('The agent closed the connection.')
             if byte == b'\n':
                 lines.append(buf)
-                if buf[:2] == b'OK':
+                keyword = buf.split(b' ', 1)[0]
+                if keyword == b'OK':
                     break
-                elif buf[:3] == b'ERR':
+                elif keyword == b'ERR':
                     raise ValueError(buf[4:].decode('latin-1'))
+                elif keyword == b'INQUIRE':
+                    # The agent would wait for an answer.
+                    raise ValueError('Unexpected inquiry.')
                 buf = b''
             else:
                 buf += byte
@@ -63,7 +75,6 @@ class GPGAgentPinentry(object):
     def get_passphrase(self, prompt=None, error_message=None,
                        description=None, cache_id=None, use_cache=True,
                        no_ask=False, qualitybar=False, repeat=0):
-        self.connect()
         params = '--data'
         if no_ask:
             params += ' --no-ask'
@@ -89,12 +100,22 @@ class GPGAgentPinentry(object):
             params += ' {0}'.format(quote(description))
         else:
             params += ' X'
-        self.send('GET_PASSPHRASE {0}'.format(params))
-        response = self.get_response()
-        self.disconnect()
-        return unquote(response[0][2:].decode('latin-1'))
+        self.connect()
+        try:
+            self.send('GET_PASSPHRASE {0}'.format(params))
+            response = self.get_response()
+        finally:
+            self.disconnect()
+        # Among comments and status information, the agent sends the
+        # passphrase in any number of data lines.
+        data = b''.join(line[2:] for line in response
+                        if line.startswith(b'D '))
+        return unquote_to_bytes(data).decode('utf8')
 
     def clear_passphrase(self, cache_id):
         self.connect()
-        self.send('CLEAR_PASSPHRASE {0}'.format(quote(cache_id)))
-        self.disconnect()
+        try:
+            self.send('CLEAR_PASSPHRASE {0}'.format(quote(cache_id)))
+            self.get_response()
+        finally:
+            self.disconnect()
-- 
2.43.0


From 329c65465dcb23c32dc75ade0f90aa10601325c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 38/57] fix: reject invalid characters in ASCII armor, keep
 extra headers

Skipping them shifted the data after them, and a dictionary of extra headers
could not be written.
---
 pgp/armor.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pgp/armor.py b/pgp/armor.py
index 3ae3616..46841ed 100644
--- a/pgp/armor.py
+++ b/pgp/armor.py
@@ -140,11 +140,13 @@ class ASCIIArmor(object):
         data_lines = []
 
         while lines[line_no][:1] != '=':
-            data_lines.append(lines[line_no])
+            data_lines.append(lines[line_no].strip())
             line_no += 1
 
-        data = b64decode(''.join(data_lines))
-        checksum_data = b64decode(lines[line_no][1:])
+        # Skipping damaged characters would shift all the data after them,
+        # which the checksum is not made to detect.
+        data = b64decode(''.join(data_lines), validate=True)
+        checksum_data = b64decode(lines[line_no][1:].strip(), validate=True)
         expected_checksum = (
             ((checksum_data[0] << 16)) +
             ((checksum_data[1] << 8)) +
@@ -168,7 +170,8 @@ class ASCIIArmor(object):
                 repr(header_line), repr(tail_line)))
 
         return cls(data_type, data, part, total_parts, version, comment,
-                   message_id, hash_algorithms, charset)
+                   message_id, hash_algorithms, charset,
+                   extra_headers or None)
 
     def __init__(self, data_type, data, part=None, total_parts=None,
                  version=None, comment=None, message_id=None,
@@ -232,7 +235,7 @@ class ASCIIArmor(object):
             result_lines.append(
                 'Charset: {charset}'.format(charset=self.charset))
         if self.extra_headers is not None:
-            for k, v in self.extra_headers:
+            for k, v in dict(self.extra_headers).items():
                 result_lines.append('{0}: {1}'.format(k, v))
 
         result_lines.append('')
-- 
2.43.0


From 76aabab2ecf0a187d4c08c9d6164ca1b0a8cd6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 39/57] fix: check what a keyserver returns

A key other than the requested one was returned as if it matched, empty
indexes and fields raised errors, missing index entries went unnoticed, and
a redirected submission counted as accepted.
---
 pgp/keyserver/hkp.py | 69 +++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 24 deletions(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 23e3d87..d8f0a1e 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -35,6 +35,17 @@ def _add_colons(line, number):
     return line
 
 
+def _optional_int(field):
+    # Any field may be empty.
+    return int(field) if field else None
+
+
+def _optional_time(field):
+    if not field:
+        return None
+    return datetime.datetime.fromtimestamp(int(field))
+
+
 class HKPUserIdResult(object):
 
     def __repr__(self):
@@ -53,11 +64,8 @@ class HKPUserIdResult(object):
         l = _add_colons(l, 4)
         _uid, uid, created, expires, flags = l.split(':')
         self.user_id = unquote(uid)
-        self.created = datetime.datetime.fromtimestamp(int(created))
-        if expires:
-            self.expires = datetime.datetime.fromtimestamp(int(expires))
-        else:
-            self.expires = None
+        self.created = _optional_time(created)
+        self.expires = _optional_time(expires)
         self.revoked = 'r' in flags
         self.disabled = 'd' in flags
         self.expired = 'e' in flags
@@ -87,13 +95,10 @@ class HKPResult(object):
         (_pub, key_id, public_key_algorithm, bit_length,
             created, expires, flags) = l.split(':')
         self.key_id = key_id
-        self.public_key_algorithm = int(public_key_algorithm)
-        self.bit_length = int(bit_length)
-        self.created = datetime.datetime.fromtimestamp(int(created))
-        if expires:
-            self.expires = datetime.datetime.fromtimestamp(int(expires))
-        else:
-            self.expires = None
+        self.public_key_algorithm = _optional_int(public_key_algorithm)
+        self.bit_length = _optional_int(bit_length)
+        self.created = _optional_time(created)
+        self.expires = _optional_time(expires)
         self.revoked = 'r' in flags
         self.disabled = 'd' in flags
         self.expired = 'e' in flags
@@ -127,14 +132,9 @@ class HKPKeyserverClient(object):
 
     def _read_mr(self, data):
         data = data.splitlines()
-        info_line = data[0]
-        if info_line.startswith('info:'):
-            _info, version, count = info_line.split(':')
-        else:
-            version = 1
-            count = None
-
-        del version, count  # unused
+        count = None
+        if data and data[0].startswith('info:'):
+            _info, _version, count = data[0].split(':')
 
         results = []
         pub_key = None
@@ -152,8 +152,19 @@ class HKPKeyserverClient(object):
         if pub_key:
             results.append(HKPResult(self, pub_key, user_ids))
 
+        if count and int(count) != len(results):
+            raise ValueError('Expected {0} keys, not {1}.'.format(
+                count, len(results)))
+
         return results
 
+    def _raise_for_status(self, response):
+        response.raise_for_status()
+        if response.status_code // 100 != 2:
+            raise requests.HTTPError(
+                'Unexpected status {0}.'.format(response.status_code),
+                response=response)
+
     def get(self, key_id, exact=False):
         response = requests.get(self.get_url, params={
             'op': 'get',
@@ -161,8 +172,14 @@ class HKPKeyserverClient(object):
             'options': 'mr',
             'exact': 'yes' if exact else 'no',
             })
-        response.raise_for_status()
-        return read_key(response.content, True)
+        self._raise_for_status(response)
+        key = read_key(response.content, True)
+        key_id = key_id.upper()
+        for k in [key] + key.subkeys:
+            if k.fingerprint.endswith(key_id) or k.key_id.endswith(key_id):
+                return key
+        raise ValueError('Key {0} does not match {1}.'.format(
+            key.fingerprint, key_id))
 
     def search(self, terms, exact=False):
         response = requests.get(self.get_url, params={
@@ -171,7 +188,7 @@ class HKPKeyserverClient(object):
             'search': terms,
             'exact': 'yes' if exact else 'no'
             })
-        response.raise_for_status()
+        self._raise_for_status(response)
         return self._read_mr(response.text)
 
     def submit(self, key, no_modify=False):
@@ -181,4 +198,8 @@ class HKPKeyserverClient(object):
             'keytext': str(a),
             'options': 'mr,nm' if no_modify else 'mr',
             })
-        response.raise_for_status()
+        self._raise_for_status(response)
+        if response.request.method != 'POST':
+            # Redirected and sent again without the key
+            raise requests.HTTPError('The key was not submitted.',
+                                     response=response)
-- 
2.43.0


From c960964faac7b9c37b109be42a707c948fd88fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 40/57] fix: check that a stale lock is still the same file
 once its holder is dead

---
 pgp/db/gpg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 1cea787..1414192 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -186,11 +186,13 @@ class Lock(object):
                         if e.errno in (errno.EWOULDBLOCK, errno.EACCES):
                             return False
                         raise
+                if not self._is_stale(fh.read()):
+                    return False
+                # Only now that its holder is known to be dead can nobody
+                # else replace this file any more.
                 if os.fstat(fh.fileno()).st_ino != os.stat(self.name).st_ino:
                     # Somebody else was faster.
                     return True
-                if not self._is_stale(fh.read()):
-                    return False
                 os.unlink(self.name)
         except (IOError, OSError) as e:
             if e.errno != errno.ENOENT:
-- 
2.43.0


From 548a1ae34ac617fbcaec8e8482c3a32b3d979c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 41/57] fix: keep bytes that are not UTF-8 in user IDs, file
 names and subpackets

---
 pgp/packets/packets.py              |  8 ++++----
 pgp/packets/signature_subpackets.py | 24 ++++++++++++------------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 512e199..b57d1df 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1262,7 +1262,7 @@ class LiteralDataPacket(Packet):
         filename = data[offset:offset + filename_length]
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
-        filename = filename.decode('utf8', 'replace')
+        filename = filename.decode('utf8', 'surrogateescape')
         offset += filename_length
         time = utils.long_to_int(data, offset)
         offset += 4
@@ -1314,7 +1314,7 @@ class LiteralDataPacket(Packet):
         data = bytearray(self.data_format)
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
-        filename = self.filename.encode('utf8', 'replace')
+        filename = self.filename.encode('utf8', 'surrogateescape')
         data.append(int(len(filename)))
         data.extend(filename)
         timestamp = self.time
@@ -1382,7 +1382,7 @@ class UserIDPacket(Packet):
 
     @classmethod
     def from_packet_content(cls, header_format, type_, data):
-        result = cls(header_format, data.decode('utf8', 'replace'))
+        result = cls(header_format, data.decode('utf8', 'surrogateescape'))
         result._content = data
         return result
 
@@ -1403,7 +1403,7 @@ class UserIDPacket(Packet):
 
     @property
     def content(self):
-        return self.user_id.encode('utf8', 'replace')
+        return self.user_id.encode('utf8', 'surrogateescape')
 
     def get_content_for_signature_hash(self, signature_version):
         result = bytearray()
diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index be5d811..62a8abb 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -138,7 +138,7 @@ class RegularExpressionSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
         assert sub_data[-1] == 0
-        pattern = sub_data[:-1].decode('ascii', 'replace')
+        pattern = sub_data[:-1].decode('ascii', 'surrogateescape')
         return cls(critical, pattern)
 
     def __init__(self, critical, pattern):
@@ -148,7 +148,7 @@ class RegularExpressionSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.pattern.encode('ascii', 'replace') + b'\x00')
+        return bytearray(self.pattern.encode('ascii', 'surrogateescape') + b'\x00')
 
 
 class RevocableSubpacket(SignatureSubpacket):
@@ -317,11 +317,11 @@ class NotationSubpacket(SignatureSubpacket):
         offset += value_length
         assert offset == len(sub_data)
 
-        name_and_namespace = raw_name.decode('utf8', 'replace')
+        name_and_namespace = raw_name.decode('utf8', 'surrogateescape')
         name, namespace = (name_and_namespace.split('@', 1) + [None])[:2]
 
         if human_readable:
-            value = value.decode('utf8', 'replace')
+            value = value.decode('utf8', 'surrogateescape')
 
         return cls(critical, name, namespace, human_readable, value)
 
@@ -335,12 +335,12 @@ class NotationSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        raw_name = self.name.encode('utf8', 'replace')
+        raw_name = self.name.encode('utf8', 'surrogateescape')
         if self.namespace:
-            raw_name += b'@' + self.namespace.encode('utf8', 'replace')
+            raw_name += b'@' + self.namespace.encode('utf8', 'surrogateescape')
         raw_value = self.value
         if self.human_readable:
-            raw_value = raw_value.encode('utf8', 'replace')
+            raw_value = raw_value.encode('utf8', 'surrogateescape')
         data = bytearray([0x80 if self.human_readable else 0, 0, 0, 0])
         data.extend(utils.int_to_2byte(len(raw_name)))
         data.extend(utils.int_to_2byte(len(raw_value)))
@@ -395,7 +395,7 @@ class PreferredKeyServerSubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
-        uri = sub_data.decode('utf8', 'replace')
+        uri = sub_data.decode('utf8', 'surrogateescape')
         return cls(critical, uri)
 
     def __init__(self, critical, uri):
@@ -405,7 +405,7 @@ class PreferredKeyServerSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.uri.encode('utf8', 'replace'))
+        return bytearray(self.uri.encode('utf8', 'surrogateescape'))
 
 
 class PrimaryUserIDSubpacket(SignatureSubpacket):
@@ -494,7 +494,7 @@ class UserIDSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.user_id.encode('utf8', 'replace'))
+        return bytearray(self.user_id.encode('utf8', 'surrogateescape'))
 
 
 class RevocationReasonSubpacket(SignatureSubpacket):
@@ -502,7 +502,7 @@ class RevocationReasonSubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         revocation_code = sub_data[0]
-        revocation_reason = sub_data[1:].decode('utf8', 'replace')
+        revocation_reason = sub_data[1:].decode('utf8', 'surrogateescape')
         return cls(critical, revocation_code, revocation_reason)
 
     def __init__(self, critical, revocation_code, revocation_reason):
@@ -516,7 +516,7 @@ class RevocationReasonSubpacket(SignatureSubpacket):
     def content(self):
         data = bytearray([self.revocation_code])
         data += bytearray(
-                        self.revocation_reason.encode('utf8', 'replace')
+                        self.revocation_reason.encode('utf8', 'surrogateescape')
                     )
         return data
 
-- 
2.43.0


From 895d0e34719db9b4ba115fd802b1e2c5b3d1bcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 42/57] fix: never draw the DSA nonce PyCrypto refuses

---
 pgp/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 9fe1485..792c244 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -116,7 +116,8 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
         qbits = q.bit_length()
         qbytes = int(math.ceil(qbits / 8.0))
         if k is None:
-            k = random.StrongRandom().randint(1, q - 1)
+            # PyCrypto refuses k = 1
+            k = random.StrongRandom().randint(2, q - 1)
 
         digest = hash_.digest()[:qbytes]
         return secret_key.sign(bytes_to_long(digest), k)
-- 
2.43.0


From 9c4e332b9c02bd9d365d793fa7c739b5c7a17a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:12 +0000
Subject: [PATCH 43/57] fix: refuse RSA signature values which are not below
 the modulus

---
 pgp/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/utils.py b/pgp/utils.py
index 792c244..802bb65 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -129,6 +129,8 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
 def verify_hash(pub_algorithm_type, public_key, hash_, values):
     if pub_algorithm_type in (1, 3):
         # RSA
+        if values[0] >= public_key.n:
+            return False
         # Leading zeros are not stored.
         s = long_to_bytes(values[0], (public_key.size() + 8) // 8)
         return PKCS1_v1_5.new(public_key).verify(hash_, s)
-- 
2.43.0


From 7e73fb9d2ab9dcdc7f2fe92873a0fd767d3faf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 44/57] fix: refuse signature subpackets which exceed their
 area

---
 pgp/packets/packets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index b57d1df..0420979 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -382,6 +382,9 @@ class SignaturePacket(Packet):
                 hashed_subpacket, offset = \
                     signature_subpacket_from_data(data, offset)
                 hashed_subpackets.append(hashed_subpacket)
+            if offset != subpacket_end:
+                # TODO: message
+                raise ValueError("Signature subpacket exceeds its area")
 
             # followed by subpackets
             length = utils.short_to_int(data, offset)
@@ -392,6 +395,9 @@ class SignaturePacket(Packet):
                 unhashed_subpacket, offset = \
                     signature_subpacket_from_data(data, offset)
                 unhashed_subpackets.append(unhashed_subpacket)
+            if offset != subpacket_end:
+                # TODO: message
+                raise ValueError("Signature subpacket exceeds its area")
 
             hash2 = data[offset:offset + 2]
             offset += 2
-- 
2.43.0


From a0975d1e056aba329827d11d7f2b9aa482973331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:00 +0000
Subject: [PATCH 45/57] fix: read ASCII armor given as bytes after blank lines

A keyserver's answer that starts with a blank line raised TypeError.
---
 pgp/shortcuts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgp/shortcuts.py b/pgp/shortcuts.py
index f9f1e39..f33988b 100644
--- a/pgp/shortcuts.py
+++ b/pgp/shortcuts.py
@@ -16,10 +16,10 @@ VERSION = pkg_resources.get_distribution('pgp').version
 def read_message(data, armored=False):
     if armor.is_armor(data):
         # Assume the user made a mistake
-        if isinstance(data, bytes):
-            data = data.decode('us-ascii')
         armored = True
     if armored:
+        if isinstance(data, bytes):
+            data = data.decode('us-ascii')
         fn = parse_ascii_packet_data
     else:
         fn = parse_binary_packet_data
@@ -41,10 +41,10 @@ def read_message_file(filename, armored=False):
 def read_key(data, armored=False):
     if armor.is_armor(data):
         # Assume the user made a mistake
-        if isinstance(data, bytes):
-            data = data.decode('us-ascii')
         armored = True
     if armored:
+        if isinstance(data, bytes):
+            data = data.decode('us-ascii')
         fn = parse_ascii_packet_data
     else:
         fn = parse_binary_packet_data
-- 
2.43.0


From c184439eb95341abaec5d13f27b4f9bd94b8ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:58 +0000
Subject: [PATCH 46/57] fix: identify, write and expire version 3 keys

Fingerprints of version 3 keys raised an AttributeError, so that a keyring
with one in it could not be opened, their key ids were those of version 4
and their validity period was lost.
---
 pgp/packets/packets.py    |  3 +++
 pgp/transferrable_keys.py | 10 ++++++----
 pgp/utils.py              |  8 ++++----
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 0420979..66ceb2b 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -840,6 +840,9 @@ class PublicKeyPacket(Packet):
 
     @property
     def key_id(self):
+        if self.version < 4:
+            n = self.modulus if self.modulus is not None else self.prime
+            return utils.int_to_hex(n, 16)
         return self.fingerprint[-16:]
 
     @property
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index c6dc403..f065a50 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -200,11 +200,11 @@ class BasePublicKey(SignedMixin):
         creation_time = datetime.datetime.fromtimestamp(packet.creation_time)
         public_key_algorithm = packet.public_key_algorithm
         expiration_days = packet.expiration_days
-        if version < 4 or expiration_days in (None, 0):
+        if version >= 4 or expiration_days in (None, 0):
             expiration_time = None
         else:
-            expiration_time = \
-                creation_time + datetime.timedelta(days=expiration_days)
+            expiration_time = datetime.datetime.fromtimestamp(
+                packet.creation_time + expiration_days * 86400)
         modulus_n = packet.modulus
         exponent_e = packet.exponent
         prime_p = packet.prime
@@ -228,9 +228,11 @@ class BasePublicKey(SignedMixin):
         creation_time = int(self.creation_time.timestamp())
         expiration_days = None
         if self.version < 4:
+            expiration_days = 0
             expiration_time = self.expiration_time
             if expiration_time is not None:
-                expiration_days = (expiration_time - creation_time).days
+                expiration_days = \
+                    (int(expiration_time.timestamp()) - creation_time) // 86400
 
         return (
             header_format, self.version, creation_time,
diff --git a/pgp/utils.py b/pgp/utils.py
index 802bb65..8fe0a7e 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -965,11 +965,11 @@ def key_packet_fingerprint(packet):
         md5 = MD5.new()
         # Key type must be RSA for v2 and v3 public keys
         if packet.public_key_algorithm in (1, 2, 3):
-            md5.update(int_to_bytes(packet.modulus_n))
-            md5.update(int_to_bytes(packet.exponent_e))
+            md5.update(int_to_bytes(packet.modulus))
+            md5.update(int_to_bytes(packet.exponent))
         elif packet.public_key_algorithm in (16, 20):
-            md5.update(int_to_bytes(packet.prime_p))
-            md5.update(int_to_bytes(packet.group_generator_g))
+            md5.update(int_to_bytes(packet.prime))
+            md5.update(int_to_bytes(packet.group_generator))
         fingerprint = md5.hexdigest().upper()
     elif packet.version >= 4:
         sha1 = SHA.new()
-- 
2.43.0


From f3b1e43c43ff03a90ee1c21c9b2cd998e10a50ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:52 +0000
Subject: [PATCH 47/57] fix: set and clear expiry times of keys and signatures

Clearing a signature's expiry time did nothing, the comparison with the
creation time went wrong when daylight saving ended between the two, and a
key's expiry time could not be set.
---
 pgp/signature.py          | 10 +++++-----
 pgp/transferrable_keys.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index fc60ce4..d3ef0bd 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -367,13 +367,13 @@ class BaseSignature(object):
     def _set_signature_expiration_time(self, dt):
         if dt is None:
             value = 0
-        elif dt < self.creation_time:
-            raise ValueError
         else:
             value = int(dt.timestamp() - self.creation_time.timestamp())
-            self._update_subpacket_values(
-                C.EXPIRATION_SECONDS_SUBPACKET_TYPE,
-                'time', value)
+            if value < 0:
+                raise ValueError
+        self._update_subpacket_values(
+            C.EXPIRATION_SECONDS_SUBPACKET_TYPE,
+            'time', value)
 
     signature_expiration_time = property(
         _get_signature_expiration_time,
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index f065a50..b4fd967 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -302,7 +302,7 @@ class BasePublicKey(SignedMixin):
         if self.version in (2, 3):
             self._expiration_time = value
         elif self.version >= 4:
-            super(BasePublicKey, self).expiration_time = value
+            SignedMixin.expiration_time.fset(self, value)
 
     expiration_time = property(_get_expiration_time, _set_expiration_time)
 
-- 
2.43.0


From 59a2ec23ec50c3200670b0c84e63776f62f9ae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:35 +0000
Subject: [PATCH 48/57] fix: list current signatures beside a revocation of
 unknown target

The current self-signatures and revocations of a key or user ID with a
revocation and several other signatures raised an AttributeError.
---
 pgp/signature.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index d3ef0bd..555d2a6 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -864,7 +864,10 @@ class BaseSignature(object):
             if not self.parent:
                 return None
             for s in self.parent.signatures:
-                if s.revocation and s.target == self:
+                if not s.revocation:
+                    continue
+                target = s.target
+                if target is not None and target == self:
                     return True
         return False
 
-- 
2.43.0


From 61c8f2eadf9acbeddce8ad3325bf4c0eb00cb507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:11 +0000
Subject: [PATCH 49/57] fix: never complete a secret number from the checksum
 or hash

---
 pgp/packets/packets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 66ceb2b..86f4000 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1079,6 +1079,8 @@ class SecretKeyPacket(PublicKeyPacket):
             if bytes(expected_hash) != actual_hash:
                 raise ValueError
 
+        # The checksum or hash is not a part of the numbers.
+        decrypted_data = decrypted_data[:data_length]
         values = []
         offset = 0
         while offset < data_length:
-- 
2.43.0


From e816ff73750aec4ee40d0e29873a089ad9cd5697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:04 +0000
Subject: [PATCH 50/57] fix: accept a direct-key signature after a trust packet

---
 pgp/transferrable_keys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index b4fd967..ad5e8b8 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -891,7 +891,8 @@ def validate_transferrable_key(packets, secret=False):
             if sig_type == C.SIGNATURE_DIRECTLY_ON_A_KEY:
                 for t in type_order[:i]:
                     if t not in (key_packet_type,
-                                 C.SIGNATURE_PACKET_TYPE):
+                                 C.SIGNATURE_PACKET_TYPE,
+                                 C.TRUST_PACKET_TYPE):
                         raise exceptions.InvalidKeyPacketOrder(
                                     "Signature Directly On Key may only "
                                     "appear immediately after the Public Key "
-- 
2.43.0


From 2fdeca09eb7e377055f3f3861b6004319ac40340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:04 +0000
Subject: [PATCH 51/57] fix: unlock version 3 secret keys

---
 pgp/packets/packets.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 86f4000..3259f01 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1042,22 +1042,26 @@ class SecretKeyPacket(PublicKeyPacket):
             #  beginning of each new MPI value, so that the CFB block boundary
             #  is aligned with the start of the MPI data."
 
-            cipher = utils.get_symmetric_cipher(
-                        symmetric_algorithm, key, utils.CFB, iv,
-                        syncable=True)
+            end = len(encrypted_data) - (
+                20 if hash_ else 2 if checksum else 0)
             offset = 0
             decrypted_data = bytearray()
-            while offset < len(encrypted_data):
-                cipher.sync()
-                decrypted_data.extend(
-                        encrypted_data[offset:offset + 2])
+            while offset < end:
+                decrypted_data.extend(encrypted_data[offset:offset + 2])
                 mpi_length = utils.mpi_length(encrypted_data, offset)
                 offset += 2
-                encrypted_mpi_content = \
-                    encrypted_data[offset:offset + mpi_length]
+                mpi_content = encrypted_data[offset:offset + mpi_length]
                 offset += mpi_length
-                mpi_content = cipher.decrypt(encrypted_mpi_content)
-                decrypted_data.extend(mpi_content)
+                cipher = utils.get_symmetric_cipher(
+                            symmetric_algorithm, key, utils.CFB, iv)
+                padding = bytearray([0x00] * (
+                    sym_block_size - (len(mpi_content) % sym_block_size)))
+                decrypted_data.extend(
+                    cipher.decrypt(bytes(mpi_content + padding)
+                                   )[:-len(padding)])
+                iv = (iv + mpi_content)[-sym_block_size:]
+            # The checksum is not encrypted.
+            decrypted_data.extend(encrypted_data[offset:])
         else:
             raise ValueError
 
-- 
2.43.0


From 94d105d706108b2764a345b44b48b8ea36406847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:04 +0000
Subject: [PATCH 52/57] fix: read and write secret keys that are unprotected,
 stubs or protected the old way

---
 pgp/packets/packets.py    | 23 ++++++++++-------------
 pgp/s2k.py                | 11 +++++------
 pgp/transferrable_keys.py | 12 +++++++-----
 3 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 3259f01..edd3907 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -878,6 +878,7 @@ class SecretKeyPacket(PublicKeyPacket):
         s2k_usage = int(data[offset])
         offset += 1
         s2k_specification = None
+        iv = bytearray()
         if s2k_usage == 0:
             # not encrypted
             symmetric_algorithm = 0
@@ -899,15 +900,8 @@ class SecretKeyPacket(PublicKeyPacket):
             offset += block_length
 
         encrypted_portion = data[offset:]
-        if s2k_usage in (0, 255):
-            checksum = True
-            hash_ = False
-        elif s2k_usage == 254:
-            hash_ = True
-            checksum = False
-        else:
-            checksum = False
-            hash_ = False
+        hash_ = s2k_usage == 254
+        checksum = not hash_
 
         values += (s2k_specification, symmetric_algorithm, iv,
                    encrypted_portion, checksum, hash_)
@@ -922,7 +916,7 @@ class SecretKeyPacket(PublicKeyPacket):
                  prime_p=None, prime_q=None, multiplicative_inverse_u=None,
                  exponent_x=None):
 
-        if None in (s2k_specification, iv, encrypted_portion):
+        if None in (iv, encrypted_portion):
             raise ValueError
         Packet.__init__(self, header_type, constants.SECRET_KEY_PACKET_TYPE)
         self.version = version
@@ -1027,7 +1021,10 @@ class SecretKeyPacket(PublicKeyPacket):
 
         sym_block_size = utils.symmetric_cipher_block_lengths.get(
             symmetric_algorithm, 8)
-        if version >= 4:
+        if symmetric_algorithm == 0:
+            # not encrypted
+            decrypted_data = encrypted_data
+        elif version >= 4:
             cipher = utils.get_symmetric_cipher(
                         symmetric_algorithm, key, utils.CFB, iv)
             padding = bytearray([0x00] * (
@@ -1107,7 +1104,7 @@ class SecretKeyPacket(PublicKeyPacket):
             data.extend(bytes(self.s2k_specification))
         if self.symmetric_algorithm != 0:
             data.extend(self.iv)
-        if self.encrypted_portion:
+        if self.encrypted_portion is not None:
             data.extend(self.encrypted_portion)
         else:
             if self.public_key_algorithm in (1, 2, 3):
@@ -1145,7 +1142,7 @@ class SecretSubkeyPacket(SecretKeyPacket):
                  prime_p=None, prime_q=None, multiplicative_inverse_u=None,
                  exponent_x=None):
 
-        if None in (s2k_specification, iv, encrypted_portion):
+        if None in (iv, encrypted_portion):
             raise ValueError
         Packet.__init__(self, header_type,
                         constants.SECRET_SUBKEY_PACKET_TYPE)
diff --git a/pgp/s2k.py b/pgp/s2k.py
index e4be0c6..5834a7d 100644
--- a/pgp/s2k.py
+++ b/pgp/s2k.py
@@ -162,7 +162,8 @@ class GnuPGS2K(SimpleS2K):
                         "Unexpected serial number length: %d" %
                         serial_len)
 
-            serial_number = utils.bytearray_to_hex(data, offset, serial_len)
+            serial_number = utils.bytearray_to_hex(data, offset,
+                                                   serial_len * 2)
             offset += serial_len
         else:
             raise ValueError(
@@ -192,11 +193,9 @@ class GnuPGS2K(SimpleS2K):
         pass
 
     def __bytes__(self):
-        result = bytearray(
-                [self.hash_algorithm] +
-                b'GNU' +
-                [self.mode - 1000]
-                )
+        result = bytearray([101, self.hash_algorithm])
+        result.extend(b'GNU')
+        result.append(self.mode - 1000)
         if self.mode == 1002 and self.serial_number is not None:
             result.append(self.serial_number_length)
             result.extend(utils.hex_to_bytes(self.serial_number,
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index ad5e8b8..fd00127 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -31,6 +31,7 @@ from pgp.packets import packets
 from pgp.packets import signature_subpackets
 from pgp.packets import user_attribute_subpackets
 from pgp.signature import BaseSignature
+from pgp import s2k
 from pgp.user_id import parse_user_id
 from pgp import utils
 
@@ -583,11 +584,12 @@ class BaseSecretKey(BasePublicKey):
         return sig
 
     def unlock(self, passphrase):
-        if self.s2k_specification is not None:
-            # TODO: Check encoding
-            key = self.s2k_specification.to_key(passphrase.encode('utf8'))
-        else:
-            key = passphrase
+        s2k_specification = self.s2k_specification
+        if s2k_specification is None:
+            # "[...] a simple MD5 hash of the passphrase is used"
+            s2k_specification = s2k.SimpleS2K(1, self.symmetric_algorithm)
+        # TODO: Check encoding
+        key = s2k_specification.to_key(passphrase.encode('utf8'))
 
         values = packets.SecretKeyPacket.decrypt_encrypted_key_portion(
                     self.version, key, self.symmetric_algorithm, self.iv,
-- 
2.43.0


From 3a5901955b891fd9b247e2526f718408ca56d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:53 +0000
Subject: [PATCH 53/57] fix: write old-format packets of 16 MiB and more with
 their length

---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 8fe0a7e..b2984f8 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -838,7 +838,7 @@ def old_packet_length_to_bytes(data_length):
         length_type = 1
         length_bytes = [data_length >> 8,
                         data_length & 0xff]
-    elif data_length < 16777216:
+    elif data_length <= MAX_PACKET_LENGTH:
         length_type = 2
         length_bytes = [data_length >> 24,
                         (data_length >> 16) & 0xff,
-- 
2.43.0


From bcd895e6311d3aee9c77874e29f165122deaa3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:53 +0000
Subject: [PATCH 54/57] fix: read signer's user IDs that are not UTF-8

---
 pgp/packets/signature_subpackets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 62a8abb..87715a4 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -484,7 +484,7 @@ class UserIDSubpacket(SignatureSubpacket):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        user_id = sub_data.decode('utf8')
+        user_id = sub_data.decode('utf8', 'surrogateescape')
         return cls(critical, user_id)
 
     def __init__(self, critical, user_id):
-- 
2.43.0


From e05181974291d64645f8c66441ab27cbeb4bff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:53 +0000
Subject: [PATCH 55/57] fix: make a dead lock holder's changes durable before
 taking its lock

---
 pgp/db/gpg.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 1414192..21e8400 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -193,6 +193,11 @@ class Lock(object):
                 if os.fstat(fh.fileno()).st_ino != os.stat(self.name).st_ino:
                     # Somebody else was faster.
                     return True
+                try:
+                    # It may have died before what it did was on the disk.
+                    _sync_directory(os.path.dirname(self.name))
+                except OSError:
+                    pass
                 os.unlink(self.name)
         except (IOError, OSError) as e:
             if e.errno != errno.ENOENT:
-- 
2.43.0


From 217d9dfcff3e43cb46aecde2abfd80b661328fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:47 +0000
Subject: [PATCH 56/57] fix: encrypt to RSA encrypt-only keys and decrypt with
 them

---
 pgp/transferrable_keys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index fd00127..1e7a03a 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -382,7 +382,7 @@ class BasePublicKey(SignedMixin):
                                        long(self.group_generator_g),
                                        long(self.key_value_y)
                                        ))
-        elif self.public_key_algorithm in (1, 3):
+        elif self.public_key_algorithm in (1, 2, 3):
             key_obj = key_constructor((long(self.modulus_n),
                                        long(self.exponent_e)
                                        ))
@@ -510,7 +510,7 @@ class BaseSecretKey(BasePublicKey):
                                        long(self.key_value_y),
                                        long(self.exponent_x)
                                        ))
-        elif self.public_key_algorithm in (1, 3):
+        elif self.public_key_algorithm in (1, 2, 3):
             key_obj = key_constructor((long(self.modulus_n),
                                        long(self.exponent_e),
                                        long(self.exponent_d),
-- 
2.43.0


From 8f73ae62cbcde097a973bd44365a0d744616a0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:04 +0000
Subject: [PATCH 57/57] fix: recover a lock whose damaged pid is beyond any
 process number

---
 pgp/db/gpg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 21e8400..96a0e36 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -170,6 +170,9 @@ class Lock(object):
             os.kill(pid, 0)
         except OSError as e:
             return e.errno == errno.ESRCH
+        except OverflowError:
+            # The lock file was damaged: no process has such a number.
+            return True
         return False
 
     def _remove_stale(self):
-- 
2.43.0

