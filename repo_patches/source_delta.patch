From 661ad57bc5be65c3f497d7672a823a70086b949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 01/55] fix: MessageParser raises KatcpSyntaxError for
 non-UTF-8 type or name bytes

Formatting the error message decoded the offending bytes as UTF-8, so a line
such as b'\xff' or b'?\xff' escaped as UnicodeDecodeError instead of the
documented KatcpSyntaxError.
---
 katcp/core.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/katcp/core.py b/katcp/core.py
index c34423c..63f575f 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -565,6 +565,13 @@ class MessageParser(object):
             raise KatcpSyntaxError("Un-escaped special %r." % (match.group(),))
         return self.UNESCAPE_RE.sub(self._unescape_match, arg)
 
+    def _native_repr(self, value):
+        """Readable form of some received bytes (which may be arbitrary)."""
+        try:
+            return repr(ensure_native_str(value))
+        except UnicodeDecodeError:
+            return repr(value)
+
     def parse(self, line):
         """Parse a line, return a Message.
 
@@ -590,7 +597,7 @@ class MessageParser(object):
         type_char = line[:1]
         if type_char not in self.TYPE_SYMBOL_LOOKUP:
             raise KatcpSyntaxError(
-                "Bad type character %r." % (ensure_native_str(type_char),))
+                "Bad type character %s." % (self._native_repr(type_char),))
 
         mtype = self.TYPE_SYMBOL_LOOKUP[type_char]
 
@@ -610,8 +617,8 @@ class MessageParser(object):
             name = match.group('name')
             mid = match.group('id')
         else:
-            raise KatcpSyntaxError("Bad message name (and possibly id) %r." %
-                                   (ensure_native_str(name),))
+            raise KatcpSyntaxError("Bad message name (and possibly id) %s." %
+                                   (self._native_repr(name),))
 
         name = ensure_native_str(name)
 
-- 
2.43.0


From c5804f10dda0490fbe1255983d40067198495ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 02/55] fix: reject non-ASCII message names when a Message is
 created

str.isalnum() accepts non-ASCII letters and digits, so a Message with a name
that can never be transmitted was accepted and failed on serialisation.
---
 katcp/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index 63f575f..2d0d937 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -288,7 +288,7 @@ class Message(object):
 
         if not name:
             raise KatcpSyntaxError("Command missing command name.")
-        if not name.replace("-", "").isalnum():
+        if not self._is_ascii(name) or not name.replace("-", "").isalnum():
             raise KatcpSyntaxError("Command name should consist only of "
                                    "alphanumeric characters and dashes (got %r)."
                                    % (name,))
@@ -297,6 +297,15 @@ class Message(object):
                                    "alphabetic character (got %r)."
                                    % (name,))
 
+    @staticmethod
+    def _is_ascii(name):
+        """Return True if name can be encoded for transmission."""
+        try:
+            name.encode('ascii')
+        except UnicodeError:
+            return False
+        return True
+
     def format_argument(self, arg):
         """Format a Message argument to a byte string"""
         if isinstance(arg, bool):
-- 
2.43.0


From 12a041aaffe984599b5d53505df865a143fe1f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 03/55] fix: Message.copy keeps the message id

The documented shallow copy silently dropped the message identifier, so a
copied reply no longer matched its request.
---
 katcp/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index 2d0d937..7946d44 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -339,7 +339,7 @@ class Message(object):
             A copy of the message object.
 
         """
-        return Message(self.mtype, self.name, self.arguments)
+        return Message(self.mtype, self.name, self.arguments, self.mid)
 
     def __bytes__(self):
         """Return Message serialized for transmission.
-- 
2.43.0


From 9be1712fe424fdc99386f2582794269afc42ec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 04/55] fix: round KATCP v4 timestamps to the nearest
 millisecond instead of truncating

---
 katcp/kattypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index b05e82f..d72c288 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -418,7 +418,7 @@ class Timestamp(KatcpType):
             return b"%.6f" % float(value)
         else:
             # In milliseconds please!
-            return b"%i" % int(float(value) * SEC_TO_MS_FAC)
+            return b"%i" % int(round(float(value) * SEC_TO_MS_FAC))
 
     def decode(self, value, major):
         try:
-- 
2.43.0


From ce69db10c4dfe1989d1d3529220994bda5df2c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 05/55] fix: Parameter.pack checks the value and uses the
 parameter's major version

---
 katcp/kattypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index d72c288..45aaee8 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -627,7 +627,7 @@ class Parameter(object):
             The unescaped KATCP string representing the value.
 
         """
-        return self._kattype.pack(value, self.major)
+        return self._kattype.pack(value, major=self.major)
 
     def unpack(self, value):
         """Unpack the parameter using its kattype.
-- 
2.43.0


From dcb1054506e1ffc3bccb78f810fdb37a98e8eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 06/55] fix: sampling strategies attach to the sensor before
 reading it, so no update is lost

---
 katcp/sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 14fed93..dffe177 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -230,8 +230,10 @@ class SampleStrategy(object):
     def attach(self):
         """Attach strategy to its sensor and send initial update."""
         s = self._sensor
+        # Attach before reading, so that an update made by another thread in
+        # between is not missed
+        s.attach(self)
         self.update(s, s.read())
-        self._sensor.attach(self)
 
     def detach(self):
         """Detach strategy from its sensor."""
-- 
2.43.0


From 0f711e9aa5b5c4c9973659bef738bcc6e3fb6c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 07/55] fix: event-rate strategies do not drop a change pending
 when an update is sent meanwhile

---
 katcp/sampling.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index dffe177..43ebd9b 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -459,6 +459,11 @@ class SampleEventRate(SampleStrategy):
         self._short_timeout_handle = None
         if (self.ioloop.time() >= self._not_before):
             self.inform(self._sensor.read())
+        elif self._sensor_changed(self._sensor.read()):
+            # An update was sent since this timeout was scheduled, and the
+            # sensor changed again after that
+            self._short_timeout_handle = self.ioloop.call_at(
+                self._not_before, self._short_timeout_handler)
 
     def _sensor_changed(self, reading):
         _, status, value = reading
-- 
2.43.0


From 132869feae1608ed552d326114bf2508e527e624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 08/55] fix: a cancelled sampling strategy sends no more
 updates and stays detached

---
 katcp/sampling.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 43ebd9b..f7f9885 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -109,6 +109,7 @@ class SampleStrategy(object):
         self._inform_callback = inform_callback
         self._sensor = sensor
         self._params = params
+        self._cancelled = False
 
     @classmethod
     def get_strategy(cls, strategyName, inform_callback, sensor,
@@ -241,9 +242,15 @@ class SampleStrategy(object):
 
     def cancel(self):
         """Detach strategy from its sensor and cancel ioloop callbacks."""
+        self._cancelled = True
+        def finish_cancel():
+            if self.OBSERVE_UPDATES:
+                # start() may only have attached after the detach() below
+                self.detach()
+            self.cancel_timeouts()
         if self.OBSERVE_UPDATES:
             self.detach()
-        self.ioloop.add_callback(self.cancel_timeouts)
+        self.ioloop.add_callback(finish_cancel)
 
     def start(self):
         """Start operating the strategy.
@@ -254,6 +261,8 @@ class SampleStrategy(object):
         :attr:`_ioloop_thread_id` using `thread.get_ident()`.
 
         """
+        self._cancelled = False
+
         def first_run():
             self._ioloop_thread_id = get_thread_ident()
             if self.OBSERVE_UPDATES:
@@ -262,6 +271,8 @@ class SampleStrategy(object):
 
     def inform(self, reading):
         """Inform strategy creator of the sensor status."""
+        if self._cancelled:
+            return
         try:
             self._inform_callback(self._sensor, reading)
         except Exception:
-- 
2.43.0


From 5dc194b6bd6191549d7b33730a475fc26bab2df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:23 +0000
Subject: [PATCH 09/55] fix: non-UTF-8 arguments no longer break request
 handling (log messages with repr)

---
 katcp/server.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index f9190e2..c99464b 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -554,7 +554,7 @@ class KATCPServer(object):
                     if msg:  # Ignore empty messages (i.e empty lines)
                         yield self._device.on_message(client_conn, msg)
                 except Exception:
-                    self._logger.error('Error handling message {0!s}'
+                    self._logger.error('Error handling message {0!r}'
                                        .format(msg), exc_info=True)
                 # Allow the ioloop to run since we may be starving it if
                 # there is buffered data in the stream, resulting in yield
@@ -648,7 +648,7 @@ class KATCPServer(object):
         except Exception:
             addr = self.get_address(stream)
             self._logger.warn('Could not send message {0!r} to {1}'
-                              .format(str(msg), addr), exc_info=True)
+                              .format(msg, addr), exc_info=True)
             stream.close(exc_info=True)
 
     def flush_on_close(self, stream):
@@ -858,7 +858,7 @@ class MessageHandlerThread(object):
                             ready_future.set_result(res)
                     except Exception as e:
                         err_msg = ('Error calling message '
-                                   'handler for msg:\n {0!s}'.format(msg))
+                                   'handler for msg:\n {0!r}'.format(msg))
                         self._logger.error(err_msg, exc_info=True)
                         client_conn.inform(self.log_inform_formatter(
                             'error', 'See device logs:\n' + err_msg, 'root'))
@@ -1024,7 +1024,7 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
 
         """
         # log messages received so that no one else has to
-        self._logger.debug('received: {0!s}'.format(msg))
+        self._logger.debug('received: {0!r}'.format(msg))
 
         if msg.mtype == msg.REQUEST:
             return self.handle_request(client_conn, msg)
@@ -1033,7 +1033,7 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
         elif msg.mtype == msg.REPLY:
             return self.handle_reply(client_conn, msg)
         else:
-            reason = "Unexpected message type received by server ['%s']." \
+            reason = "Unexpected message type received by server ['%r']." \
                      % (msg,)
             client_conn.inform(self.create_log_inform("error", reason, "root"))
 
-- 
2.43.0


From 04c134dfa3582e06141abb74bb6fa3f0fdcf0606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 10/55] fix: do not process the previous line again after a
 failed read from a client

---
 katcp/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/katcp/server.py b/katcp/server.py
index c99464b..608f7b0 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -537,6 +537,9 @@ class KATCPServer(object):
                         self._logger.warn('Unhandled Exception '
                                           'while reading from client {0}:'
                                           .format(client_address), exc_info=True)
+                        # There is no new line to process
+                        yield gen.moment
+                        continue
                 try:
                     line = line.replace(b"\r", b"\n").split(b"\n")[0]
                     msg = self._parser.parse(line) if line else None
-- 
2.43.0


From 81f3b76311363ce6bdaff6ff09fb02dadd059470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:10 +0000
Subject: [PATCH 11/55] fix: round KATCP v4 log timestamps and reported periods
 to the nearest millisecond

---
 katcp/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index 608f7b0..658afba 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -1001,7 +1001,7 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
         katcp_version = self.PROTOCOL_INFO.major
         timestamp_msg = ('%.6f' % timestamp
                          if katcp_version >= SEC_TS_KATCP_MAJOR
-                         else str(int(timestamp*1000)))
+                         else str(int(round(timestamp*1000))))
         return Message.inform("log", level_name, timestamp_msg, name, msg)
 
     def on_message(self, client_conn, msg):
@@ -2372,7 +2372,7 @@ class DeviceServer(DeviceServerBase):
         if katcp_version < SEC_TS_KATCP_MAJOR and strategy == b'period':
             # Another slightly nasty hack, but since period is the only
             # v4 strategy involving timestamps it's not _too_ nasty :)
-            params = [int(float(params[0]) * SEC_TO_MS_FAC)] + params[1:]
+            params = [int(round(float(params[0]) * SEC_TO_MS_FAC))] + params[1:]
 
         # Let the ioloop run so that the #sensor-status inform is sent before
         # the reply. Not strictly necessary, but a number of tests depend on
-- 
2.43.0


From 044bb7b1a9e1745978ce1156638639b2a2794467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:34 +0000
Subject: [PATCH 12/55] fix: ?log-level all is accepted when a Python logger is
 attached

---
 katcp/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/katcp/server.py b/katcp/server.py
index 658afba..d32b42d 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2539,6 +2539,7 @@ class DeviceLogger(object):
 
     ## @brief Map of Python logging level to corresponding to KATCP levels
     PYTHON_LEVEL = {
+        ALL: 0,
         TRACE: 0,
         DEBUG: logging.DEBUG,
         INFO: logging.INFO,
-- 
2.43.0


From 4b9b2f1453de1c97f6d7e9446150d3628da5fd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 13/55] fix: a reply or inform without message id belongs to
 the first request sent without one

---
 katcp/client.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index a34191e..0ed4f13 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1234,13 +1234,15 @@ class AsyncClient(DeviceClient):
             return None, None, None, None, None
 
     def _msg_id_for_name(self, msg_name):
-        """Find the msg_id for a given request name.
+        """Find the msg_id of the first pending request with a given name.
 
-        Return None if no message id exists.
+        Only requests that were sent without a message id are considered.
+        Return None if no such request exists.
 
         """
-        if msg_name in self._async_id_stack and self._async_id_stack[msg_name]:
-            return self._async_id_stack[msg_name][0]
+        for msg_id in self._async_id_stack.get(msg_name, ()):
+            if self._async_queue[msg_id][0].mid is None:
+                return msg_id
 
     @make_threadsafe
     def callback_request(self, msg, reply_cb=None, inform_cb=None,
-- 
2.43.0


From 33ea2bf0866505af17655935bb91f4511750dd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:01 +0000
Subject: [PATCH 14/55] fix: the reply callback of an unsent request gets a
 reply, not a request message

---
 katcp/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/client.py b/katcp/client.py
index 0ed4f13..98b5415 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1287,7 +1287,7 @@ class AsyncClient(DeviceClient):
         try:
             self.send_request(msg)
         except KatcpClientError as e:
-            error_reply = Message.request(msg.name, "fail", str(e))
+            error_reply = Message.reply(msg.name, "fail", str(e))
             error_reply.mid = mid
             self.handle_reply(error_reply)
 
-- 
2.43.0


From 5484af5d326979a5002b592ca3da1f2389f0674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:48 +0000
Subject: [PATCH 15/55] fix: non-UTF-8 arguments no longer break the client
 (log messages with repr)

---
 katcp/client.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 98b5415..2767243 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -327,7 +327,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                     'server indicating a katcp protocol revision inconsistent '
                     'with the static configuration. Static configuration: %r.'
                     'Inform received: %r' % (
-                        str(self.protocol_flags), str(inform)))
+                        str(self.protocol_flags), inform))
                 return
             else:
                 # Log an error and disconnect if we are in auto-detection mode
@@ -336,7 +336,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                     'server indicating a katcp protocol revision inconsistent '
                     'with the previously detected version. Disconnecting in '
                     'disgust. Previous version: %r. Inform received: %r' % (
-                        str(self.protocol_flags), str(inform)))
+                        str(self.protocol_flags), inform))
                 # Prevent an infinite loop
                 self._auto_reconnect = False
                 self._disconnect()
@@ -438,7 +438,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
             return self._stream.write(data)
         except Exception:
             self._logger.warn('Could not send message {0!r} to {1!r}'
-                              .format(str(msg), self._bindaddr), exc_info=True)
+                              .format(msg, self._bindaddr), exc_info=True)
             self._disconnect(exc_info=True)
 
     @gen.coroutine
@@ -545,7 +545,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         if self._logger.isEnabledFor(logging.DEBUG):
             self._logger.debug(
                 "received from {}: {}"
-                .format(self.bind_address_string, repr(str(msg))))
+                .format(self.bind_address_string, repr(msg)))
 
         if msg.mtype == Message.INFORM:
             return self.handle_inform(msg)
@@ -554,7 +554,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         elif msg.mtype == Message.REQUEST:
             return self.handle_request(msg)
         else:
-            self._logger.error("Unexpected message type from server ['%s']."
+            self._logger.error("Unexpected message type from server ['%r']."
                                % (msg,))
 
     def handle_inform(self, msg):
@@ -760,7 +760,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                 except Exception:
                     self._logger.exception(
                         'Unhandled exception in handle_message() from {0} for '
-                        'message {1!r}'.format(self.bind_address_string, str(msg)))
+                        'message {1!r}'.format(self.bind_address_string, msg))
 
         self._disconnect()
 
-- 
2.43.0


From 0deb008ccd12ad35fb6c7fa6deafaa97c5f308d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 16/55] fix: notify_connected(False) is not called when there
 was no connection

---
 katcp/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/client.py b/katcp/client.py
index 2767243..931b7ba 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -516,6 +516,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         try:
             assert stream is self._stream
             self._stream = None
+            was_connected = self._connected.isSet()
             self._connected.clear()
             self._disconnected.set()
             error_repr = '{0!r}'.format(stream.error) if stream.error else ''
@@ -524,7 +525,8 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                                   '{0} closed with error {1}'
                                   .format(self.bind_address_string, error_repr))
             try:
-                self.notify_connected(False)
+                if was_connected:
+                    self.notify_connected(False)
             except Exception:
                 self._logger.exception("Notify connect failed")
         except Exception:
-- 
2.43.0


From 37fc3cf58fd246c68f375e70adc9d050e39ba102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 17/55] fix: a client stopped while connecting does not keep
 the connection open

---
 katcp/client.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/katcp/client.py b/katcp/client.py
index 931b7ba..2ac0c0e 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -456,6 +456,11 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
             host, port = self._bindaddr
             stream = self._stream = yield self._tcp_client.connect(
                 host, port, max_buffer_size=self.MAX_MSG_SIZE)
+            if not self._running.isSet():
+                # We were stopped while the connection was being made
+                stream.close()
+                stream = self._stream = None
+                return
             stream.set_close_callback(partial(self._stream_closed_callback,
                                               stream))
             # our message packets are small, don't delay sending them.
@@ -680,7 +685,8 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
             self._tcp_client = tornado.tcpclient.TCPClient()
             self._running.set()
             yield self._connect()
-            if self._stream is None and not self._auto_reconnect:
+            if (self._stream is None and not self._auto_reconnect
+                    and self.running()):
                 raise KatcpClientError("Failed to connect to {0!r}"
                                        .format(self._bindaddr))
             try:
-- 
2.43.0


From bb6d41d659c55a437d1a1f123d76a17a35dbcb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:17 +0000
Subject: [PATCH 18/55] fix: until_any does not make other callbacks of the
 resolving future be skipped

---
 katcp/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/katcp/core.py b/katcp/core.py
index 7946d44..3b4073f 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -1924,12 +1924,12 @@ def until_any(*futures, **kwargs):
             # memory leak where one of the futures resolves quickly, particularly when
             # used together with AsyncState.until_state(). Also addresses Jira issue
             # CM-593
+            # Note that a future that is busy resolving is iterating over its list
+            # of callbacks, which must hence not be modified in place.
             for f in futures:
                 if f._callbacks:
-                    try:
-                        f._callbacks.remove(handle_done)
-                    except ValueError:
-                        pass
+                    f._callbacks = [cb for cb in f._callbacks
+                                    if cb is not handle_done]
 
     for f in futures:
         f.add_done_callback(handle_done)
-- 
2.43.0


From 530f666bf19fb4c3ac43d80da295462c0729152d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:04 +0000
Subject: [PATCH 19/55] fix: the callback of an AsyncCallbackEvent gets False
 when the event is cleared

---
 katcp/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index 3b4073f..d79c828 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -1734,7 +1734,7 @@ class AsyncCallbackEvent(AsyncEvent):
     def clear(self):
         super(AsyncCallbackEvent, self).clear()
         try:
-            self._callback(True)
+            self._callback(False)
         except Exception:
             logger.exception('Unhandled exception calling event change callback')
 
-- 
2.43.0


From b01b2359a022dd06dd2b1f18e28eb6228da3e6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:24 +0000
Subject: [PATCH 20/55] fix: BooleanSensorTree.remove ignores links that do not
 exist

---
 katcp/sensortree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/katcp/sensortree.py b/katcp/sensortree.py
index aa08f4f..4cc7e03 100644
--- a/katcp/sensortree.py
+++ b/katcp/sensortree.py
@@ -282,6 +282,9 @@ class BooleanSensorTree(GenericSensorTree):
             The sensor parent used to depend on.
 
         """
+        if parent not in self or child not in self.children(parent):
+            # There is no such link
+            return
         self.remove_links(parent, (child,))
         if parent not in self and parent in self._parent_to_not_ok:
             del self._parent_to_not_ok[parent]
-- 
2.43.0


From 4a57b1b6ef0f57e450ab803452aea34b6a360f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:05 +0000
Subject: [PATCH 21/55] fix: AggregateSensorTree.deregister_sensor handles
 single children, tuples and waiting aggregates

---
 katcp/sensortree.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/katcp/sensortree.py b/katcp/sensortree.py
index 4cc7e03..3b4f743 100644
--- a/katcp/sensortree.py
+++ b/katcp/sensortree.py
@@ -453,24 +453,22 @@ class AggregateSensorTree(GenericSensorTree):
                              " tree" % child_name)
         child = self._registered_sensors[child_name]
         del self._registered_sensors[child_name]
-        try:
-            parents = self.parents(child)
-            for parent in parents:
-                if parent in self._incomplete_aggregates:
-                    (rule, names, sensors) = self._incomplete_aggregates[parent]
-                    names.add(child_name)
-                else:
-                    (rule, sensors) = self._aggregates[parent]
-                    names = set()
-                    names.add(child_name)
-                sensors.discard(child)
-                self._incomplete_aggregates[parent] = (rule, names, sensors)
-                self.remove_links(parent, [child])
-                self.remove(parent)
-                if parent.stype == 'bool':
-                    parent.set_value(False)
-        except ValueError:
-            pass
+        # aggregates that still wait for other sensors
+        for _rule, names, sensors in self._incomplete_aggregates.values():
+            if child in sensors:
+                sensors.remove(child)
+                names.add(child_name)
+        parents = self.parents(child) if child in self else set()
+        for parent in parents:
+            (rule, sensors) = self._aggregates[parent]
+            sensors = set(sensors)
+            sensors.discard(child)
+            self._aggregates[parent] = (rule, sensors)
+            self.remove(parent)
+            self._incomplete_aggregates[parent] = (rule, set([child_name]),
+                                                   sensors)
+            if parent.stype == 'bool':
+                parent.set_value(False)
 
     def _child_from_reference(self, reference):
         """Returns the child sensor from its reference.
-- 
2.43.0


From 10404d4183631e1a785a9007b3017f0693da17fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:33 +0000
Subject: [PATCH 22/55] fix: inspecting client lost changes and kept stale
 objects of changed items

A request or sensor that changed on the device had its index entry modified in
place: objects made from the old description were kept, request_factory() was
called with an unexpected _changed argument, and a failed inspect() could not
restore the entry, so that the change was never reported.
---
 katcp/inspecting_client.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 4de6faa..bb3f697 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -553,10 +553,10 @@ class InspectingClientAsync(object):
             index[name] = data
         else:
             orig_data = index[name]
-            for key, value in data.items():
-                if orig_data.get(key) != value:
-                    orig_data[key] = value
-                    orig_data['_changed'] = True
+            if any(orig_data.get(key) != value for key, value in data.items()):
+                # Use a new entry: inspect() restores the old one if it fails, and
+                # an 'obj' made from the old description should not be kept
+                index[name] = dict(data, _changed=True)
 
     def handle_sensor_value(self):
         """Handle #sensor-value informs just like #sensor-status informs"""
@@ -1083,8 +1083,7 @@ class InspectingClientAsync(object):
         # Check the keys that was not added now or not lined up for removal,
         # and see if they changed.
         for key in updated_keys.difference(added_keys.union(removed_keys)):
-            if item_index[key].get('_changed'):
-                item_index[key]['_changed'] = False
+            if item_index[key].pop('_changed', False):
                 removed_keys.add(key)
                 added_keys.add(key)
 
-- 
2.43.0


From 4dbe0ba0d1abfaab7df1550030a2b152555060d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:11 +0000
Subject: [PATCH 23/55] fix: inspecting an unknown request failed on servers
 with timeout hints

---
 katcp/inspecting_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index bb3f697..bd7e754 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -668,7 +668,7 @@ class InspectingClientAsync(object):
         # provides them
         timeout_hints_available = (
             self.katcp_client.protocol_flags.request_timeout_hints)
-        if timeout_hints_available:
+        if timeout_hints_available and reply.reply_ok():
             timeout_hints = yield self._get_request_timeout_hints(
                 name, timeout=maybe_timeout.remaining())
         else:
-- 
2.43.0


From 00b206a4f0672e4033809871901d58e00bbec84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:22 +0000
Subject: [PATCH 24/55] fix: inspecting client missed a disconnection during a
 state callback

If the client was connected again by the time the callback completed, the
device was declared synced although it might have changed in the meantime.
---
 katcp/inspecting_client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index bd7e754..75ace15 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -411,6 +411,8 @@ class InspectingClientAsync(object):
                                        model_changed=False, data_synced=False)
                 yield until_any(self.katcp_client.until_protocol(),
                                 self._disconnected.until_set())
+                # Changes from here on need another inspection
+                self._interface_changed.clear()
                 # TODO NM 2016-10-21 The naming of this attribute is incredibly
                 # confusing, we need to think about what "initial_inspection" is
                 # and how it is supposed to be handled
@@ -452,7 +454,6 @@ class InspectingClientAsync(object):
                 self._logger.debug('in _state_loop: interface_changed=%s,'
                         ' is_connected=%s', self._interface_changed.is_set(),
                         self._disconnected.is_set())
-                self._interface_changed.clear()
                 continue
                 # Next loop through should cause re-inspection and handle state updates
             except SyncError as e:
@@ -980,6 +981,9 @@ class InspectingClientAsync(object):
         else:
             self._connected.clear()
             self._disconnected.set()
+            # The device could change before we are connected again, which might
+            # happen before _state_loop() gets to see the disconnection
+            self._interface_changed.set()
 
     def _cb_inform_sensor_status(self, msg):
         """Update received for an sensor."""
-- 
2.43.0


From a6c174a5073bf76bb5cc06512d65e297c07e9d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:51 +0000
Subject: [PATCH 25/55] fix: inspecting client never reset its resync delay
 after a success

---
 katcp/inspecting_client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 75ace15..cabcd4e 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -444,6 +444,7 @@ class InspectingClientAsync(object):
                                    .format(self.bind_address_string))
                 yield self._send_state(connected=True, synced=True,
                                        model_changed=False, data_synced=True)
+                self.resync_delay.success()
                 if last_sync_failed:
                     self._logger.warn(
                         'Succesfully resynced with {} after failure'
@@ -481,8 +482,6 @@ class InspectingClientAsync(object):
                 self.katcp_client.disconnect()
                 yield katcp.core.until_later(retry_wait_time)
                 continue
-            else:
-                self.resync_delay.success()
         try:
             self._logger.debug('{}: Sending final state - loop ended'
                                .format(self.bind_address_string))
-- 
2.43.0


From d740797563af76306edf52aec8d92ae9f46d514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 26/55] fix: an update that waited for its sensor overwrote a
 newer one

While the first updates of a sensor wait for it to be looked up, later ones
must not be applied before them.
---
 katcp/inspecting_client.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index cabcd4e..95d069f 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -221,6 +221,8 @@ class InspectingClientAsync(object):
         self._requests_index = {}
         self._sensors_index = {}
         self._sensor_object_cache = {}
+        # Sensor name -> updates waiting, in order, for the sensor to be looked up
+        self._waiting_updates = {}
         self._connected = katcp.core.AsyncEvent()
         self._disconnected = katcp.core.AsyncEvent()
         self._interface_changed = katcp.core.AsyncEvent()
@@ -962,13 +964,27 @@ class InspectingClientAsync(object):
         # that only handles the cached sensor object case (should be the common
         # case). If cached sensor is not found, kick off a coroutine that
         # handles the future_get_sensor case.
+        updates = self._waiting_updates.get(name)
+        if updates is not None:
+            # Don't overtake the updates that are still waiting for the sensor
+            updates.append((timestamp, status, value))
+            return
+        updates = [(timestamp, status, value)]
         if not sensor:
-            sensor = yield self.future_get_sensor(name)
+            self._waiting_updates[name] = updates
+            try:
+                sensor = yield self.future_get_sensor(name)
+            finally:
+                del self._waiting_updates[name]
         if sensor:
             # TODO (NM) Performance idea: probably we can cache katcp_major at
             # sync time?
             katcp_major = self.katcp_client.protocol_flags.major
-            sensor.set_formatted(timestamp, status, value, katcp_major)
+            for update in updates:
+                try:
+                    sensor.set_formatted(*update, major=katcp_major)
+                except Exception:
+                    self._logger.exception('Error updating sensor "%s"' % name)
         else:
             self._logger.error('Received update for "%s", but could not create'
                                ' sensor object.' % name)
-- 
2.43.0


From dd75b336d6ca99f3ef868803f910ecd6847c9b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:40 +0000
Subject: [PATCH 27/55] fix: a failing inform hook kept other hooks and
 handlers from the inform

---
 katcp/inspecting_client.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 95d069f..1d3bdf7 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -161,12 +161,12 @@ class _InformHookDeviceClient(katcp.AsyncClient):
 
     def handle_inform(self, msg):
         """Call callbacks on hooked informs followed by normal processing"""
-        try:
-            for func in self._inform_hooks.get(msg.name, []):
+        for func in list(self._inform_hooks.get(msg.name, [])):
+            try:
                 func(msg)
-        except Exception:
-            self._logger.warning('Call to function "{0}" with message "{1}".'
-                                 .format(func, msg), exc_info=True)
+            except Exception:
+                self._logger.warning('Call to function "{0}" with message "{1!r}".'
+                                     .format(func, msg), exc_info=True)
         super(_InformHookDeviceClient, self).handle_inform(msg)
 
 
-- 
2.43.0


From cd967bcd9d9cc20e49c3a6f307eca3542db2bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:19 +0000
Subject: [PATCH 28/55] fix: changes found by looking up a single sensor or
 request were never reported

The next inspection found the model up to date, so that for instance
KATCPClientResource never got such a sensor.
---
 katcp/inspecting_client.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 1d3bdf7..98a0ce1 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -220,6 +220,9 @@ class InspectingClientAsync(object):
         self.initial_inspection = bool(initial_inspection)
         self._requests_index = {}
         self._sensors_index = {}
+        # The indices at the last successful inspect()
+        self._reported_requests = {}
+        self._reported_sensors = {}
         self._sensor_object_cache = {}
         # Sensor name -> updates waiting, in order, for the sensor to be looked up
         self._waiting_updates = {}
@@ -560,6 +563,15 @@ class InspectingClientAsync(object):
                 # an 'obj' made from the old description should not be kept
                 index[name] = dict(data, _changed=True)
 
+    def _index_changes(self, before, after):
+        # Entries are replaced when they change, see _update_index()
+        added = set(name for name, data in after.items()
+                    if before.get(name) is not data)
+        removed = set(name for name, data in before.items()
+                      if after.get(name) is not data)
+        if added or removed:
+            return AttrDict(added=added, removed=removed)
+
     def handle_sensor_value(self):
         """Handle #sensor-value informs just like #sensor-status informs"""
         self.katcp_client.hook_inform('sensor-value',
@@ -602,9 +614,9 @@ class InspectingClientAsync(object):
         sensor_index_before = copy.copy(self._sensors_index)
         request_index_before = copy.copy(self._requests_index)
         try:
-            request_changes = yield self.inspect_requests(
+            yield self.inspect_requests(
                 timeout=timeout_manager.remaining())
-            sensor_changes = yield self.inspect_sensors(
+            yield self.inspect_sensors(
                 timeout=timeout_manager.remaining())
         except Exception:
             # Ensure atomicity of sensor and request updates ; if the one
@@ -613,6 +625,15 @@ class InspectingClientAsync(object):
             self._requests_index = request_index_before
             raise
 
+        # Not just the changes found now, but also those found by looking up single
+        # requests or sensors since the previous inspection
+        request_changes = self._index_changes(
+            self._reported_requests, self._requests_index)
+        sensor_changes = self._index_changes(
+            self._reported_sensors, self._sensors_index)
+        self._reported_requests = copy.copy(self._requests_index)
+        self._reported_sensors = copy.copy(self._sensors_index)
+
         model_changes = AttrDict()
         if request_changes:
             model_changes.requests = request_changes
-- 
2.43.0


From 6da46a5b9b96416e2be5301da5dca8a6cc2b3044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:16 +0000
Subject: [PATCH 29/55] fix: a preset sampling strategy overrode a newer one
 set on the sensor

When the sensor changed or came back, the strategy once given to the resource
replaced the one that was set on the sensor object afterwards.
---
 katcp/resource_client.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 7c046ec..1fb7fae 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -508,11 +508,15 @@ class KATCPClientResource(resource.KATCPResource):
         """
         sensor_name = resource.escape_name(sensor_name)
         sensor_obj = dict.get(self._sensor, sensor_name)
-        self._sensor_strategy_cache[sensor_name] = strategy_and_parms
         sensor_dict = {}
-        self._logger.debug(
-                'Cached strategy {} for sensor {}'
-                .format(strategy_and_parms, sensor_name))
+        if sensor_obj:
+            # From here on the strategy is remembered by the sensor manager
+            self._sensor_strategy_cache.pop(sensor_name, None)
+        else:
+            self._sensor_strategy_cache[sensor_name] = strategy_and_parms
+            self._logger.debug(
+                    'Cached strategy {} for sensor {}'
+                    .format(strategy_and_parms, sensor_name))
         if sensor_obj:
             # The sensor exists, so set the strategy and continue. Log errors,
             # but don't raise anything
@@ -702,7 +706,9 @@ class KATCPClientResource(resource.KATCPResource):
         for s_name, s_obj in list(sensor_instances.items()):
             s_name_escaped = resource.escape_name(s_name)
             self._sensor[s_name_escaped] = s_obj
-            preset_strategy = self._sensor_strategy_cache.get(s_name_escaped)
+            # From here on the strategy is remembered by the sensor manager, which may
+            # be given a newer one
+            preset_strategy = self._sensor_strategy_cache.pop(s_name_escaped, None)
             if preset_strategy:
                 self._logger.debug('Setting preset strategy for sensor {} to {!r}'
                                    .format(s_name, preset_strategy))
-- 
2.43.0


From cd62c1360ec535fbc2443113a5e22c28276103e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 30/55] fix: reapplying sampling strategies undid a strategy
 set in the meantime

---
 katcp/resource_client.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 1fb7fae..53c85a4 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -906,15 +906,17 @@ class KATCPClientResourceSensorsManager(object):
     def reapply_sampling_strategies(self):
         """Reapply all sensor strategies using cached values"""
         check_sensor = self._inspecting_client.future_check_sensor
-        for sensor_name, strategy in list(self._strategy_cache.items()):
+        for sensor_name in list(self._strategy_cache):
             try:
                 sensor_exists = yield check_sensor(sensor_name)
                 if not sensor_exists:
                     self._logger.warn('Did not set strategy for non-existing sensor {}'
                                       .format(sensor_name))
                     continue
-
-                result = yield self.set_sampling_strategy(sensor_name, strategy)
+                # The strategy may have been changed or dropped in the meantime
+                strategy = self._strategy_cache.get(sensor_name)
+                if strategy:
+                    yield self.set_sampling_strategy(sensor_name, strategy)
             except KATCPSensorError as e:
                 self._logger.error('Error reapplying strategy for sensor {0}: {1!s}'
                                    .format(sensor_name, e))
-- 
2.43.0


From fab37a503adf05b28a938836d1ec853d9c58b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:15 +0000
Subject: [PATCH 31/55] fix: container sensors were missing or stale once its
 requests had been used

Both were guarded by the same flag.
---
 katcp/resource_client.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 53c85a4..9b4b854 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1279,18 +1279,12 @@ class KATCPClientResourceContainer(resource.KATCPResource):
     """
     @property
     def req(self):
-        if self._children_dirty:
-            self._req = self._create_attrdict_from_children('req')
-            self._children_dirty = False
-
+        self._update_from_children()
         return self._req
 
     @property
     def sensor(self):
-        if self._children_dirty:
-            self._sensor = self._create_attrdict_from_children('sensor')
-            self._children_dirty = False
-
+        self._update_from_children()
         return self._sensor
 
     @property
@@ -1532,6 +1526,12 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         res.start()
         return res
 
+    def _update_from_children(self):
+        if self._children_dirty:
+            self._req = self._create_attrdict_from_children('req')
+            self._sensor = self._create_attrdict_from_children('sensor')
+            self._children_dirty = False
+
     def _create_attrdict_from_children(self, attr):
         attrdict = AttrDict()
         for child_name, child_resource in dict.items(self.children):
-- 
2.43.0


From 313cf393e871353a516e3e8a3942bb0db21a413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:12 +0000
Subject: [PATCH 32/55] fix: clients of a container with a group never synced
 if its name is escaped

A group name with - or . raised KeyError when the requests of a client changed,
and groups were not told if the client was given by its escaped name.
---
 katcp/resource_client.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 9b4b854..267a71a 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1590,9 +1590,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         self._children_dirty = True
 
     def _dirty_groups(self, child):
-        groups_spec = self._resources_spec.get('groups', {})
-        for group_name, group in dict.items(self.groups):
-            if child.name in groups_spec[group_name]:
+        for group in dict.values(self.groups):
+            if child in group.clients:
                 group.client_updated(child)
 
     def __repr__(self):
-- 
2.43.0


From 2ef63c02f1e9488d0481c20252d0f0469b3079ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:44 +0000
Subject: [PATCH 33/55] fix: a group request called dict methods of clients
 without that request

---
 katcp/resource_client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 267a71a..3b05ea8 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1040,8 +1040,9 @@ class GroupRequest(object):
         none_future = Future()
         none_future.set_result(None)
         for client in self.group.clients:
-            request_method = getattr(client.req, self.name, None)
-            if request_method:
+            # getattr() would find the methods of dict, too
+            if self.name in client.req or client.dummy_unknown_requests:
+                request_method = client.req[self.name]
                 result_futures[client.name] = request_method(*args, **kwargs)
             else:
                 result_futures[client.name] = none_future
-- 
2.43.0


From 3ef348265b2f8b5e42e51803a0fd4420fa722d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:12 +0000
Subject: [PATCH 34/55] fix: container could not set strategies or listeners of
 clients with - in their name

---
 katcp/resource_client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 3b05ea8..95371c2 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1454,7 +1454,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sampling_strategy(sensor_name, strategy_and_parms)
                 sensor_dict[resource_name][sensor_name] = strategy_and_parms
                 self._logger.debug(
@@ -1478,7 +1478,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sampling_strategy(sensor_name, strategy_and_parms)
                 sensor_dict[resource_name][sensor_name] = strategy_and_parms
                 self._logger.debug(
@@ -1502,7 +1502,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sensor_listener(sensor_name, listener)
                 sensor_dict[resource_name][sensor_name] = listener
                 self._logger.debug(
-- 
2.43.0


From 08c6e2b7e24ff53414de0090f4b32199eff6199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:59 +0000
Subject: [PATCH 35/55] fix: waiting for a sensor could set its result twice

---
 katcp/resource.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/katcp/resource.py b/katcp/resource.py
index 1a2ee2c..4a73fdd 100644
--- a/katcp/resource.py
+++ b/katcp/resource.py
@@ -939,20 +939,22 @@ class KATCPSensor(with_metaclass(abc.ABCMeta, object)):
             raise KATCPSensorError(
                 'Cannot wait on a sensor that does not have a strategy set')
 
+        def set_done():
+            # The condition can be matched more than once before this is called, e.g.
+            # by an update as well as by the reading at the time of this call
+            if not f.done():
+                f.set_result(True)
+
         def handle_update(sensor, reading):
             # This handler is called whenever a sensor update is received
             try:
                 assert sensor is self
                 if condition_test(reading):
                     self.unregister_listener(handle_update)
-                    # Try and be idempotent if called multiple times after the
-                    # condition is matched. This should not happen unless the
-                    # sensor object is being updated in a thread outside of the
-                    # ioloop.
-                    if not f.done():
-                        ioloop.add_callback(f.set_result, True)
+                    ioloop.add_callback(set_done)
             except Exception:
-                f.set_exc_info(sys.exc_info())
+                if not f.done():
+                    f.set_exc_info(sys.exc_info())
                 self.unregister_listener(handle_update)
 
         self.register_listener(handle_update, reading=True)
-- 
2.43.0


From b06751dd759641e872472a3067fcfc9a53728b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:46 +0000
Subject: [PATCH 36/55] fix: a message for a closing connection closed it
 before its #disconnect was sent

---
 katcp/server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index d32b42d..7865da9 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -652,7 +652,9 @@ class KATCPServer(object):
             addr = self.get_address(stream)
             self._logger.warn('Could not send message {0!r} to {1}'
                               .format(msg, addr), exc_info=True)
-            stream.close(exc_info=True)
+            # A closing stream must still be flushed, and is then closed
+            if not stream.KATCPServer_closing:
+                stream.close(exc_info=True)
 
     def flush_on_close(self, stream):
         """Flush tornado iostream write buffer and prevent further writes.
-- 
2.43.0


From e535a0fbc7327ace85a677eab5a0f885f5f1c9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:11 +0000
Subject: [PATCH 37/55] fix: disconnecting a client twice, or stopping
 meanwhile, dropped its #disconnect

---
 katcp/server.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/katcp/server.py b/katcp/server.py
index 7865da9..30044b5 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -589,6 +589,12 @@ class KATCPServer(object):
         assert get_thread_ident() == self.ioloop_thread_id
         stream_open = not stream.closed()
         address = self.get_address(stream)
+        disconnected = getattr(stream, 'KATCPServer_disconnected', None)
+        if disconnected is not None:
+            # Already busy, wait for what is left to be sent
+            yield disconnected
+            return
+        stream.KATCPServer_disconnected = tornado_Future()
         try:
             if not conn.client_disconnect_called:
                 try:
@@ -604,6 +610,7 @@ class KATCPServer(object):
         finally:
             # Make sure stream is closed.
             stream.close()
+            stream.KATCPServer_disconnected.set_result(None)
 
     def get_address(self, stream):
         """Text representation of the network address of a connection stream.
-- 
2.43.0


From 39b8633ec3a79723b53037598a76770b47195419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 38/55] fix: a container used from another thread could lose a
 concurrent change

---
 katcp/resource_client.py | 56 ++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 95371c2..6b3dc64 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -10,6 +10,7 @@ import logging
 import math
 import re
 import sys
+import threading
 
 from builtins import object
 from concurrent.futures import Future
@@ -1096,6 +1097,7 @@ class ClientGroup(object):
     def __init__(self, name, clients):
         self.name = name
         self._clients_dirty = True
+        self._req_lock = threading.Lock()
         self.clients = tuple(clients)
 
     def __iter__(self):
@@ -1112,24 +1114,30 @@ class ClientGroup(object):
 
     @property
     def req(self):
-        if self._clients_dirty:
-            if any(client.dummy_unknown_requests for client in self.clients):
-                DummyRequest = partial(
-                    resource.KATCPDummyRequest,
-                    {'name':'dummy', 'description': 'No help for dummies',
-                     'timeout_hint': None})
-                self._req = DefaultAttrDict(DummyRequest)
-            else:
-                self._req = AttrDict()
+        # May be used from other threads, see ThreadSafeKATCPClientGroupWrapper
+        with self._req_lock:
+            if self._clients_dirty:
+                # Changes from here on need another update
+                self._clients_dirty = False
+                self._req = self._create_req()
 
-            for client in self.clients:
-                for name, request in dict.items(client.req):
-                    if name not in self._req:
-                        self._req[name] = GroupRequest(self, name,
-                                                       request.description)
-            self._clients_dirty = False
+            return self._req
 
-        return self._req
+    def _create_req(self):
+        if any(client.dummy_unknown_requests for client in self.clients):
+            DummyRequest = partial(
+                resource.KATCPDummyRequest,
+                {'name':'dummy', 'description': 'No help for dummies',
+                 'timeout_hint': None})
+            req = DefaultAttrDict(DummyRequest)
+        else:
+            req = AttrDict()
+
+        for client in self.clients:
+            for name, request in list(dict.items(client.req)):
+                if name not in req:
+                    req[name] = GroupRequest(self, name, request.description)
+        return req
 
     def client_updated(self, client):
         """Called to notify this group that a client has been updated."""
@@ -1344,6 +1352,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         self._name = resources_spec['name']
         self._description = resources_spec.get('description', '')
         self._children_dirty = True   # Are we out of sync with the children?
+        self._update_lock = threading.Lock()
         self._init_resources()
         self._init_groups()
         self.set_ioloop()
@@ -1528,16 +1537,19 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         return res
 
     def _update_from_children(self):
-        if self._children_dirty:
-            self._req = self._create_attrdict_from_children('req')
-            self._sensor = self._create_attrdict_from_children('sensor')
-            self._children_dirty = False
+        # May be used from other threads, see ThreadSafeKATCPClientResourceWrapper
+        with self._update_lock:
+            if self._children_dirty:
+                # Changes from here on need another update
+                self._children_dirty = False
+                self._req = self._create_attrdict_from_children('req')
+                self._sensor = self._create_attrdict_from_children('sensor')
 
     def _create_attrdict_from_children(self, attr):
         attrdict = AttrDict()
-        for child_name, child_resource in dict.items(self.children):
+        for child_name, child_resource in list(dict.items(self.children)):
             prefix = resource.escape_name(child_name) + '_'
-            for item_name, item in dict.items(getattr(child_resource, attr)):
+            for item_name, item in list(dict.items(getattr(child_resource, attr))):
                 # Do not prefix aggregate sensors with "parent_name_"
                 if item_name.startswith("agg_"):
                     full_item_name = item_name
-- 
2.43.0


From c2ed6a7850e6affbf505b7c269d3a8dccf77419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:46 +0000
Subject: [PATCH 39/55] fix: integer strategy parameters were sent in a form
 the server refuses

---
 katcp/resource.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/katcp/resource.py b/katcp/resource.py
index 4a73fdd..0c6642b 100644
--- a/katcp/resource.py
+++ b/katcp/resource.py
@@ -79,6 +79,12 @@ def normalize_strategy_parameters(params):
 
     """
     def fixup_numbers(val):
+        try:
+            # Integers are kept as they are: a KATCP server does not accept
+            # e.g. "2.0" as a parameter for an integer sensor
+            return str(int(str(val)))
+        except ValueError:
+            pass
         try:
             # See if it is a number
             return str(float(val))
-- 
2.43.0


From c32a41bbdd544df48da1ca842d882b8a208a3553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 40/55] fix: Waiting with a timeout or grace period of zero
 could wait for ever

---
 katcp/resource.py        | 4 ++--
 katcp/resource_client.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/katcp/resource.py b/katcp/resource.py
index 0c6642b..b41f92f 100644
--- a/katcp/resource.py
+++ b/katcp/resource.py
@@ -965,9 +965,9 @@ class KATCPSensor(with_metaclass(abc.ABCMeta, object)):
 
         self.register_listener(handle_update, reading=True)
         # Handle case where sensor is already at the desired value
-        ioloop.add_callback(handle_update, self, self._reading)
+        handle_update(self, self._reading)
 
-        if timeout:
+        if timeout is not None:
             to = ioloop.time() + timeout
             timeout_f = with_timeout(to, f)
             # Make sure we stop listening if the wait times out to prevent a
diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 6b3dc64..60bf3fe 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1247,7 +1247,8 @@ class ClientGroup(object):
             grace_period = min(max_grace_period, timeout / 2.)
             initial_timeout = timeout - grace_period
         else:
-            grace_period = max_grace_period
+            # Nothing may be waited for beyond the timeout, if there is one
+            grace_period = max_grace_period if timeout is None else 0
             initial_timeout = timeout
         # Build dict of futures instead of list as this will be easier to debug
         futures = {}
-- 
2.43.0


From c60c882ce20807aceb88bf491615b175baab664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:49 +0000
Subject: [PATCH 41/55] fix: ?client-list failed or miscounted while clients
 came or went

---
 katcp/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index 30044b5..2bd3a7f 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2014,7 +2014,8 @@ class DeviceServer(DeviceServerBase):
         """
         # TODO Get list of ClientConnection* instances and implement a standard
         # 'address-print' method in the ClientConnection class
-        clients = self._client_conns
+        # A copy, since this may run in the handler thread
+        clients = list(self._client_conns)
         num_clients = len(clients)
         for conn in clients:
             addr = conn.address
-- 
2.43.0


From 1b08de04a22cd516acb28d3f16711a4664eac325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:44 +0000
Subject: [PATCH 42/55] fix: a managed ioloop could be started twice
 (Thread.isAlive is gone), which broke it

---
 katcp/ioloop_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/ioloop_manager.py b/katcp/ioloop_manager.py
index 8f87cdc..ad8f42b 100644
--- a/katcp/ioloop_manager.py
+++ b/katcp/ioloop_manager.py
@@ -91,7 +91,7 @@ class IOLoopManager(object):
             t = threading.Thread(target=run_ioloop)
             t.setDaemon(self._daemonize)
             try:
-                if self._ioloop_thread.isAlive():
+                if self._ioloop_thread.is_alive():
                     raise RuntimeError('Seems that managed ioloop has already been '
                                        'started, can only restart after stop()')
             except AttributeError:
-- 
2.43.0


From 5fa1406375b4802b78213ac7ff420538ed41a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:11 +0000
Subject: [PATCH 43/55] fix: stopping a managed ioloop that has stopped, or is
 being stopped, returned a future that never resolved

---
 katcp/ioloop_manager.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/katcp/ioloop_manager.py b/katcp/ioloop_manager.py
index ad8f42b..5e58943 100644
--- a/katcp/ioloop_manager.py
+++ b/katcp/ioloop_manager.py
@@ -46,6 +46,8 @@ class IOLoopManager(object):
         # Event that indicates that the ioloop is running.
         self._running = threading.Event()
         self._start_lock = threading.Lock()
+        # Futures of stop() calls on a managed ioloop that is to be stopped
+        self._stopped_futures = []
         self._daemonize = False
 
     @property
@@ -81,9 +83,16 @@ class IOLoopManager(object):
                 self._logger.error('Error running tornado IOloop: ',
                                    exc_info=True)
             finally:
-                ioloop = self._ioloop
-                self._ioloop = None
-                self._running.clear()
+                with self._start_lock:
+                    ioloop = self._ioloop
+                    self._ioloop = None
+                    self._running.clear()
+                    stopped_futures = self._stopped_futures
+                    self._stopped_futures = []
+                for stopped_future in stopped_futures:
+                    # Stopped by another stop() before its turn
+                    if not stopped_future.done():
+                        stopped_future.set_result(None)
                 self._logger.info('Managed tornado IOloop {0} stopped'
                                   .format(ioloop))
 
@@ -161,12 +170,21 @@ class IOLoopManager(object):
                 self._ioloop.stop()
             self._running.clear()
 
+        with self._start_lock:
+            ioloop = self._ioloop
+            if ioloop and self._ioloop_managed:
+                self._stopped_futures.append(stopped_future)
+        if not ioloop:
+            # Probably we have been shut-down already
+            stopped_future.set_result(None)
+            return stopped_future
         try:
-            self._ioloop.add_callback(
+            ioloop.add_callback(
                 lambda: gen.chain_future(_stop(), stopped_future))
-        except AttributeError:
-            # Probably we have been shut-down already
-            pass
+        except RuntimeError:
+            # A managed ioloop that is closing resolves the future when done
+            if not self._ioloop_managed:
+                raise
 
         return stopped_future
 
-- 
2.43.0


From 9c1e4d837952d8f71e5b9b5a30743fcabe21e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:32 +0000
Subject: [PATCH 44/55] fix: let an AsyncClient be stopped again, and before
 start(), like a DeviceClient

AsyncClient.stop() raised a RuntimeError if the managed ioloop was stopped
already (and an AttributeError before start()).
---
 katcp/client.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 2ac0c0e..5e29ce5 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1540,8 +1540,14 @@ class AsyncClient(DeviceClient):
                                (msg.name, reason))
 
     def stop(self, *args, **kwargs):
-        self.ioloop.add_callback(self._fail_waiting_requests,
-                                 'Client stopped before reply was received')
+        if self.ioloop:
+            try:
+                self.ioloop.add_callback(
+                    self._fail_waiting_requests,
+                    'Client stopped before reply was received')
+            except RuntimeError:
+                # Already stopped, with the (managed) ioloop, and no requests
+                self._logger.debug('Ioloop was stopped already')
         super(AsyncClient, self).stop(*args, **kwargs)
 
     def _fail_waiting_requests(self, reason):
-- 
2.43.0


From e07b2636cd6df19f22636d192cadbe061c9bab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:29 +0000
Subject: [PATCH 45/55] fix: let a sensor be removed from a server that is not
 started

remove_sensor() removed the sensor and then raised an AttributeError.
---
 katcp/server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index 2bd3a7f..892c918 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -1687,7 +1687,11 @@ class DeviceServer(DeviceServerBase):
                 strategy = conn_strategies.pop(sensor, None)
                 if strategy:
                     strategy.cancel()
-        self.ioloop.add_callback(cancel_sensor_strategies)
+
+        # There are no strategies while the server is not started
+        ioloop = self._server.ioloop
+        if ioloop:
+            ioloop.add_callback(cancel_sensor_strategies)
 
     def get_sensor(self, sensor_name):
         """Fetch the sensor with the given name.
-- 
2.43.0


From ee6923fe0b6d53d249f13cbd22fb7aaebf333442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:11 +0000
Subject: [PATCH 46/55] fix: keep ids given by the user apart from those a
 client assigns

A request with an id given by the user (or the same Message sent again) could
replace another pending request that the client knew by the same id, which
then never got its reply. Assign ids that are not in use, refuse ids that are,
and keep requests sent without an id apart.
---
 katcp/client.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index 5e29ce5..cb69317 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1241,6 +1241,13 @@ class AsyncClient(DeviceClient):
         else:
             return None, None, None, None, None
 
+    def _next_id(self):
+        mid = super(AsyncClient, self)._next_id()
+        while mid in self._async_queue:
+            # In use by a request with an id given by the user
+            mid = super(AsyncClient, self)._next_id()
+        return mid
+
     def _msg_id_for_name(self, msg_name):
         """Find the msg_id of the first pending request with a given name.
 
@@ -1282,6 +1289,16 @@ class AsyncClient(DeviceClient):
             timeout = self._request_timeout
 
         mid = self._get_mid_and_update_msg(msg, use_mid)
+        if msg.mid is None:
+            # Known to us only, so don't confuse it with an id that is sent
+            mid = b"untagged-" + mid
+        elif mid in self._async_queue:
+            self._dispatch_reply(
+                Message.reply(msg.name, "fail",
+                              "Message id %s is in use by a pending request"
+                              % ensure_native_str(mid), mid=mid),
+                reply_cb, user_data, None)
+            return
 
         if timeout is None:  # deal with 'no timeout', i.e. None
             timeout_handle = None
@@ -1295,9 +1312,11 @@ class AsyncClient(DeviceClient):
         try:
             self.send_request(msg)
         except KatcpClientError as e:
-            error_reply = Message.reply(msg.name, "fail", str(e))
-            error_reply.mid = mid
-            self.handle_reply(error_reply)
+            _request, reply_cb, _inform_cb, user_data, timeout_handle = \
+                self._pop_async_request(mid, None)
+            self._dispatch_reply(
+                Message.reply(msg.name, "fail", str(e), mid=msg.mid),
+                reply_cb, user_data, timeout_handle)
 
     def future_request(self, msg, timeout=None, use_mid=None):
         """Send a request message, with future replies.
@@ -1519,6 +1538,10 @@ class AsyncClient(DeviceClient):
             else:
                 reply_cb, user_data = None, None
 
+        self._dispatch_reply(msg, reply_cb, user_data, timeout_handle)
+
+    def _dispatch_reply(self, msg, reply_cb, user_data, timeout_handle):
+        # Pass a reply to the callback of its request, if there is one
         if timeout_handle is not None:
             self.ioloop.remove_timeout(timeout_handle)
 
-- 
2.43.0


From 5314d77514ce47bd523e47afafb8148e0b44df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:08 +0000
Subject: [PATCH 47/55] fix: keep the groups of a container when another is
 added

---
 katcp/resource_client.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 60bf3fe..8e19fea 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1383,13 +1383,16 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         group_configs = self._resources_spec.get('groups', {})
         groups = AttrDict()
         for group_name, group_client_names in list(group_configs.items()):
-            group_clients = tuple(self.children[resource.escape_name(cn)]
-                                  for cn in group_client_names)
-            group = ClientGroup(group_name, group_clients)
-            groups[resource.escape_name(group_name)] = group
+            groups[resource.escape_name(group_name)] = self._create_group(
+                group_name, group_client_names)
 
         self._groups = groups
 
+    def _create_group(self, group_name, group_client_names):
+        group_clients = tuple(self.children[resource.escape_name(cn)]
+                              for cn in group_client_names)
+        return ClientGroup(group_name, group_clients)
+
     def add_group(self, group_name, group_client_names):
         """Add a new :class:`ClientGroup` to container groups member.
 
@@ -1397,10 +1400,14 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         container groups member. From there it will be wrapped appropriately
         in the higher-level thread-safe container.
         """
+        group = self._create_group(group_name, group_client_names)
         group_configs = self._resources_spec.get('groups', {})
         group_configs[group_name] = group_client_names
         self._resources_spec['groups'] = group_configs
-        self._init_groups()
+        # Keep the other groups, since they may be in use
+        groups = AttrDict(self._groups)
+        groups[resource.escape_name(group_name)] = group
+        self._groups = groups
 
     def set_ioloop(self, ioloop=None):
         """Set the tornado ioloop to use
-- 
2.43.0


From b99f275935db79006e3fdbf2769e180430471d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:31 +0000
Subject: [PATCH 48/55] fix: let containers find a sensor by its exact name

---
 katcp/resource_client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 8e19fea..35f601b 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1487,7 +1487,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
     @tornado.gen.coroutine
     def set_sampling_strategy(self, sensor_name, strategy_and_parms):
         """Set sampling strategies for the specific sensor - this sensor has to exist"""
-        result_list = yield self.list_sensors(filter="^"+sensor_name+"$") #exact match
+        result_list = yield self.list_sensors(
+            filter="^"+re.escape(resource.escape_name(sensor_name))+"$") #exact match
         sensor_dict = {}
         for result in result_list:
             sensor_name = result.object.normalised_name
@@ -1511,7 +1512,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
     @tornado.gen.coroutine
     def set_sensor_listener(self, sensor_name, listener):
         """Set listener for the specific sensor - this sensor has to exists."""
-        result_list = yield self.list_sensors(filter="^"+sensor_name+"$") #exact match
+        result_list = yield self.list_sensors(
+            filter="^"+re.escape(resource.escape_name(sensor_name))+"$") #exact match
         sensor_dict = {}
         for result in result_list:
             sensor_name = result.object.normalised_name
-- 
2.43.0


From f73f55ef25ba616a83b680af2b421af9be5c3b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:54 +0000
Subject: [PATCH 49/55] fix: raise KATCPSensorError when waiting on a sensor
 that is not there

---
 katcp/resource.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/katcp/resource.py b/katcp/resource.py
index b41f92f..c1ffd87 100644
--- a/katcp/resource.py
+++ b/katcp/resource.py
@@ -226,7 +226,11 @@ class KATCPResource(with_metaclass(abc.ABCMeta, object)):
 
         """
         sensor_name = escape_name(sensor_name)
-        sensor = self.sensor[sensor_name]
+        try:
+            sensor = self.sensor[sensor_name]
+        except KeyError:
+            raise KATCPSensorError('Cannot wait on unknown sensor {0!r}'
+                                   .format(sensor_name))
         try:
             yield sensor.wait(condition_or_value, timeout)
         except tornado.gen.TimeoutError:
-- 
2.43.0


From ef736e93584a49f52c3d4ba84618f7d00acb573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:17 +0000
Subject: [PATCH 50/55] fix: keep synchronising when the state callback of the
 user fails

---
 katcp/inspecting_client.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 98a0ce1..7d199e1 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -406,9 +406,9 @@ class InspectingClientAsync(object):
         while self._running:
             self._logger.debug('{}: Sending initial state'
                                .format(self.bind_address_string))
-            yield self._send_state(connected=is_connected(), synced=False,
-                                   model_changed=False, data_synced=False)
             try:
+                yield self._send_state(connected=is_connected(), synced=False,
+                                       model_changed=False, data_synced=False)
                 yield self.katcp_client.until_connected()
                 self._logger.debug('{}: Sending post-connected state'
                                    .format(self.bind_address_string))
@@ -485,6 +485,10 @@ class InspectingClientAsync(object):
                     'Retrying in {}s.'
                     .format(retry_wait_time))
                 self.katcp_client.disconnect()
+                # Not synced any more, wherever the loop was
+                self._state.set_state(InspectingClientStateType(
+                    connected=is_connected(), synced=False,
+                    model_changed=False, data_synced=False))
                 yield katcp.core.until_later(retry_wait_time)
                 continue
         try:
-- 
2.43.0


From c1bcf5ec1540b49d4baeb9fcdba37ac4b9123d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:39 +0000
Subject: [PATCH 51/55] fix: let only one state loop run after an inspecting
 client is restarted

---
 katcp/inspecting_client.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 7d199e1..1f65116 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -403,13 +403,22 @@ class InspectingClientAsync(object):
 
         is_connected = self.katcp_client.is_connected
         last_sync_failed = False
-        while self._running:
+        # This loop may still be waiting for something when the client is stopped and
+        # started again, with a new loop
+        loop_id = self._state_loop_id = object()
+
+        def is_running():
+            return self._running and self._state_loop_id is loop_id
+
+        while is_running():
             self._logger.debug('{}: Sending initial state'
                                .format(self.bind_address_string))
             try:
                 yield self._send_state(connected=is_connected(), synced=False,
                                        model_changed=False, data_synced=False)
                 yield self.katcp_client.until_connected()
+                if not is_running():
+                    continue
                 self._logger.debug('{}: Sending post-connected state'
                                    .format(self.bind_address_string))
                 yield self._send_state(connected=is_connected(), synced=False,
@@ -422,7 +431,7 @@ class InspectingClientAsync(object):
                 # confusing, we need to think about what "initial_inspection" is
                 # and how it is supposed to be handled
                 if self.initial_inspection:
-                    if not is_connected():
+                    if not (is_connected() and is_running()):
                         continue
                     model_changes = yield self.inspect()
                     model_changed = bool(model_changes)
@@ -434,7 +443,7 @@ class InspectingClientAsync(object):
                         model_changes=model_changes)
                 else:
                     self.initial_inspection = True
-                if not is_connected():
+                if not (is_connected() and is_running()):
                     continue
 
                 # TODO NM 2017-07-21 for CB-1466 (async dev handler) we need to
@@ -491,6 +500,8 @@ class InspectingClientAsync(object):
                     model_changed=False, data_synced=False))
                 yield katcp.core.until_later(retry_wait_time)
                 continue
+        if self._state_loop_id is not loop_id:
+            return
         try:
             self._logger.debug('{}: Sending final state - loop ended'
                                .format(self.bind_address_string))
-- 
2.43.0


From 884bd70339508be11673cdd47937b561f91881a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:48 +0000
Subject: [PATCH 52/55] fix: NaN is neither a sampling period nor a
 differential threshold

A timeout at time NaN stays at the top of the ioloop's queue, so that
'?sensor-sampling s period nan' stopped the sampling of all other clients.
---
 katcp/sampling.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index f7f9885..71856ee 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -344,7 +344,8 @@ class SampleDifferential(SampleStrategy):
                 raise ValueError("The diff amount must be a positive integer.")
         elif sensor._sensor_type == Sensor.FLOAT:
             self._threshold = float(params[0])
-            if self._threshold <= 0:
+            # NaN is not positive either
+            if not self._threshold > 0:
                 raise ValueError("The diff amount must be a positive float.")
         else:
             # _sensor_type must be Sensor.TIMESTAMP
@@ -353,7 +354,7 @@ class SampleDifferential(SampleStrategy):
             # the timestamp sensor type should be in milliseconds. For now, just
             # ignore this eventuality, and fix if anyone actually needs this
             self._threshold = float(params[0])
-            if self._threshold <= 0:
+            if not self._threshold > 0:
                 raise ValueError("The diff amount must be a positive number "
                                  "of seconds.")
         self._lastStatus = None
@@ -382,7 +383,8 @@ class SamplePeriod(SampleStrategy):
                              "Parameters passed: %r, in pid : %s"
                              % (params, os.getpid()))
         period = float(params[0])
-        if period <= 0:
+        if not period > 0:
+            # Also if it is NaN
             raise ValueError("The period must be a positive float in seconds. "
                              "Parameters passed: %r, in pid : %s"
                              % (params, os.getpid()))
-- 
2.43.0


From a83eb19aca75c1f545eb6e728cc283a17a58f46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:15 +0000
Subject: [PATCH 53/55] fix: differential-rate refuses a difference that is not
 positive

As the differential strategy does: with a negative one every update
counted as a change, and with NaN none did.
---
 katcp/sampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 71856ee..84b4993 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -562,6 +562,8 @@ class SampleDifferentialRate(SampleEventRate):
         else:
             raise ValueError('The differential-rate strategy can only be '
                              'defined for integer or float sensors')
+        if not difference > 0:
+            raise ValueError('The difference must be a positive number.')
         self.difference = difference
         # Initial value that should not cause errors in _sensor_changed(),
         # but should let it return True
-- 
2.43.0


From 38a236d8c638e883f7bbd496e869ba09b4f343e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:50 +0000
Subject: [PATCH 54/55] fix: NaN is not within the limits of a Float or a
 strict timestamp

---
 katcp/kattypes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index 45aaee8..b7f8ebb 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -224,10 +224,11 @@ class Float(KatcpType):
 
         Raise a ValueError if it is not.
         """
-        if self._min is not None and value < self._min:
+        # NaN is not within any limits
+        if self._min is not None and not value >= self._min:
             raise ValueError("Float %g is lower than minimum %g."
                              % (value, self._min))
-        if self._max is not None and value > self._max:
+        if self._max is not None and not value <= self._max:
             raise ValueError("Float %g is higher than maximum %g."
                              % (value, self._max))
 
@@ -484,7 +485,7 @@ class StrictTimestamp(KatcpType):
         Raise a ValueError if it is not.
 
         """
-        if float(value) < 0:
+        if not float(value) >= 0:
             raise ValueError("Strict timestamps may not be negative.")
 
 
-- 
2.43.0


From dd73ac6977210c619879339d54d8eaf7cf1e4b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:07 +0000
Subject: [PATCH 55/55] fix: differential strategies report a value that
 becomes NaN or a number again

Any comparison with NaN is false, so after a NaN was sent no value was
different enough from it to be reported.
---
 katcp/sampling.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 84b4993..29d73ae 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -64,6 +64,16 @@ def update_in_ioloop(update):
     return wrapped_update
 
 
+def has_moved(value, last_value, difference):
+    """Whether a value is more than a difference away from the last one.
+
+    That includes becoming NaN, or a number again.
+
+    """
+    return (abs(value - last_value) > difference or
+            (value != value) != (last_value != last_value))
+
+
 class SampleStrategy(object):
     """Base class for strategies for sampling sensors.
 
@@ -364,7 +374,7 @@ class SampleDifferential(SampleStrategy):
     def update(self, sensor, reading):
         _timestamp, status, value = reading
         if (status != self._lastStatus or
-                abs(value - self._lastValue) > self._threshold):
+                has_moved(value, self._lastValue, self._threshold)):
             self._lastStatus = status
             self._lastValue = value
             self.inform(reading)
@@ -575,4 +585,4 @@ class SampleDifferentialRate(SampleEventRate):
     def _sensor_changed(self, reading):
         _, status, value = reading
         _, last_s, last_v = self._last_reading_sent
-        return (abs(value - last_v) > self.difference or status != last_s)
+        return (has_moved(value, last_v, self.difference) or status != last_s)
-- 
2.43.0

