From 3d63ef8857e60fbc1a8f032a07e04cb9e65a149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 01/51] fix: report undecodable message type or name as a KATCP
 syntax error

MessageParser.parse() decoded the offending bytes while building the error
message, so a line such as b'\xff' raised UnicodeDecodeError instead of
KatcpSyntaxError.
---
 katcp/compat.py | 5 +++++
 katcp/core.py   | 7 ++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/katcp/compat.py b/katcp/compat.py
index bb9dbb2..2e1240e 100644
--- a/katcp/compat.py
+++ b/katcp/compat.py
@@ -36,6 +36,11 @@ else:
                 "Invalid type for string conversion: {}".format(type(value)))
 
 
+def printable_str(value):
+    """Coerce bytes to native string type, replacing whatever is not UTF-8."""
+    return ensure_native_str(value.decode('utf-8', 'replace').encode('utf-8'))
+
+
 def byte_chars(byte_string):
     """Return list of characters from a byte string (PY3-compatible).
 
diff --git a/katcp/core.py b/katcp/core.py
index c34423c..c4430d2 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -30,7 +30,8 @@ from tornado import gen
 from tornado.concurrent import Future as tornado_Future
 from tornado.gen import with_timeout
 
-from .compat import byte_chars, ensure_native_str, is_bytes, is_text
+from .compat import (byte_chars, ensure_native_str, is_bytes, is_text,
+                     printable_str)
 
 SEC_TO_MS_FAC = 1000
 MS_TO_SEC_FAC = 1./1000
@@ -590,7 +591,7 @@ class MessageParser(object):
         type_char = line[:1]
         if type_char not in self.TYPE_SYMBOL_LOOKUP:
             raise KatcpSyntaxError(
-                "Bad type character %r." % (ensure_native_str(type_char),))
+                "Bad type character %r." % (printable_str(type_char),))
 
         mtype = self.TYPE_SYMBOL_LOOKUP[type_char]
 
@@ -611,7 +612,7 @@ class MessageParser(object):
             mid = match.group('id')
         else:
             raise KatcpSyntaxError("Bad message name (and possibly id) %r." %
-                                   (ensure_native_str(name),))
+                                   (printable_str(name),))
 
         name = ensure_native_str(name)
 
-- 
2.43.0


From f4f5342ceec8a10259d23cd69f51e020aef6e1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 02/51] fix: refuse a newline after the message name when
 parsing

The name pattern ended in $, which also matches before a trailing newline, so
the unescaped special byte in b'?foo\n' was silently accepted.
---
 katcp/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index c4430d2..cbb4613 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -547,7 +547,7 @@ class MessageParser(object):
 
     ## @brief Regular expression matching name and ID
     NAME_RE = re.compile(
-        br"^(?P<name>[a-zA-Z][a-zA-Z0-9\-]*)(\[(?P<id>[0-9]+)\])?$")
+        br"^(?P<name>[a-zA-Z][a-zA-Z0-9\-]*)(\[(?P<id>[0-9]+)\])?\Z")
 
     def _unescape_match(self, match):
         """Given an re.Match, unescape the escape code it represents."""
-- 
2.43.0


From 548853f7996d8412c0a0b6f76059a9d16275e933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 03/51] fix: keep handling requests whose arguments are not
 UTF-8

Logging a message formatted it as text, which raises UnicodeDecodeError for
an argument that is not UTF-8. The request was never replied to, and the
handler thread (or the connection's read loop) died.
---
 katcp/server.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index f9190e2..fea5659 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -41,6 +41,7 @@ from tornado.util import ObjectDict
 # does not exist at this stage
 import katcp
 
+from .compat import printable_str
 from .core import (DEFAULT_KATCP_MAJOR, MS_TO_SEC_FAC, SEC_TO_MS_FAC,
                    SEC_TS_KATCP_MAJOR, VERSION_CONNECT_KATCP_MAJOR, AsyncReply,
                    DeviceServerMetaclass, FailReply, Message, MessageParser,
@@ -554,7 +555,7 @@ class KATCPServer(object):
                     if msg:  # Ignore empty messages (i.e empty lines)
                         yield self._device.on_message(client_conn, msg)
                 except Exception:
-                    self._logger.error('Error handling message {0!s}'
+                    self._logger.error('Error handling message {0!r}'
                                        .format(msg), exc_info=True)
                 # Allow the ioloop to run since we may be starving it if
                 # there is buffered data in the stream, resulting in yield
@@ -648,7 +649,7 @@ class KATCPServer(object):
         except Exception:
             addr = self.get_address(stream)
             self._logger.warn('Could not send message {0!r} to {1}'
-                              .format(str(msg), addr), exc_info=True)
+                              .format(msg, addr), exc_info=True)
             stream.close(exc_info=True)
 
     def flush_on_close(self, stream):
@@ -858,7 +859,7 @@ class MessageHandlerThread(object):
                             ready_future.set_result(res)
                     except Exception as e:
                         err_msg = ('Error calling message '
-                                   'handler for msg:\n {0!s}'.format(msg))
+                                   'handler for msg:\n {0!r}'.format(msg))
                         self._logger.error(err_msg, exc_info=True)
                         client_conn.inform(self.log_inform_formatter(
                             'error', 'See device logs:\n' + err_msg, 'root'))
@@ -1024,7 +1025,7 @@ class DeviceServerBase(with_metaclass(DeviceServerMetaclass, object)):
 
         """
         # log messages received so that no one else has to
-        self._logger.debug('received: {0!s}'.format(msg))
+        self._logger.debug('received: {0}'.format(printable_str(bytes(msg))))
 
         if msg.mtype == msg.REQUEST:
             return self.handle_request(client_conn, msg)
-- 
2.43.0


From ca20aeb5f742177bc67b8e9ef40349b6d5b9a387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 04/51] fix: deliver messages whose arguments are not UTF-8
 while debug logging

With debug logging on, logging a received message decoded it as UTF-8; a
reply or inform with other bytes was dropped and its request timed out.
---
 katcp/client.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/katcp/client.py b/katcp/client.py
index a34191e..ac12f62 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -28,6 +28,7 @@ from tornado import gen
 from tornado.concurrent import Future as tornado_Future
 from tornado.util import ObjectDict
 
+from .compat import printable_str
 from .core import (FLOAT_TS_KATCP_MAJOR, SEC_TO_MS_FAC, SEC_TS_KATCP_MAJOR,
                    AsyncEvent, DeviceMetaclass, KatcpClientDisconnected,
                    KatcpClientError, KatcpVersionError, LatencyTimer, Message,
@@ -327,7 +328,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                     'server indicating a katcp protocol revision inconsistent '
                     'with the static configuration. Static configuration: %r.'
                     'Inform received: %r' % (
-                        str(self.protocol_flags), str(inform)))
+                        str(self.protocol_flags), inform))
                 return
             else:
                 # Log an error and disconnect if we are in auto-detection mode
@@ -336,7 +337,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                     'server indicating a katcp protocol revision inconsistent '
                     'with the previously detected version. Disconnecting in '
                     'disgust. Previous version: %r. Inform received: %r' % (
-                        str(self.protocol_flags), str(inform)))
+                        str(self.protocol_flags), inform))
                 # Prevent an infinite loop
                 self._auto_reconnect = False
                 self._disconnect()
@@ -438,7 +439,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
             return self._stream.write(data)
         except Exception:
             self._logger.warn('Could not send message {0!r} to {1!r}'
-                              .format(str(msg), self._bindaddr), exc_info=True)
+                              .format(msg, self._bindaddr), exc_info=True)
             self._disconnect(exc_info=True)
 
     @gen.coroutine
@@ -545,7 +546,8 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
         if self._logger.isEnabledFor(logging.DEBUG):
             self._logger.debug(
                 "received from {}: {}"
-                .format(self.bind_address_string, repr(str(msg))))
+                .format(self.bind_address_string,
+                        repr(printable_str(bytes(msg)))))
 
         if msg.mtype == Message.INFORM:
             return self.handle_inform(msg)
@@ -760,7 +762,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                 except Exception:
                     self._logger.exception(
                         'Unhandled exception in handle_message() from {0} for '
-                        'message {1!r}'.format(self.bind_address_string, str(msg)))
+                        'message {1!r}'.format(self.bind_address_string, msg))
 
         self._disconnect()
 
-- 
2.43.0


From 3aa9e520aa92e27fa80b0dada49f2ba6e39a58cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 05/51] fix: close the connection when reading from a client
 fails

After an exception from the stream, e.g. for an over-long line, the read loop
handled the previous line again: the last request was executed twice.
---
 katcp/server.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index fea5659..a7263be 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -535,9 +535,12 @@ class KATCPServer(object):
                     # Assume that _stream_closed_callback() will handle this
                     break
                 except Exception:
-                        self._logger.warn('Unhandled Exception '
-                                          'while reading from client {0}:'
-                                          .format(client_address), exc_info=True)
+                    self._logger.warn('Unhandled Exception '
+                                      'while reading from client {0}:'
+                                      .format(client_address), exc_info=True)
+                    # There is no new line to handle
+                    stream.close(exc_info=True)
+                    break
                 try:
                     line = line.replace(b"\r", b"\n").split(b"\n")[0]
                     msg = self._parser.parse(line) if line else None
-- 
2.43.0


From 7e4bf65f8bc64d186aabc1b595ddc4305351b560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 06/51] fix: accept ?log-level all

DeviceLogger had no Python level for ALL, so the request failed with a
TypeError after the KATCP level had already been changed.
---
 katcp/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/katcp/server.py b/katcp/server.py
index a7263be..e7a28f3 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2540,6 +2540,7 @@ class DeviceLogger(object):
 
     ## @brief Map of Python logging level to corresponding to KATCP levels
     PYTHON_LEVEL = {
+        ALL: 0,
         TRACE: 0,
         DEBUG: logging.DEBUG,
         INFO: logging.INFO,
-- 
2.43.0


From 6ea2edfaec74f615634fb90b855a5b4cea3834f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 07/51] fix: send log informs for messages that contain a bare
 percent sign

DeviceLogger.log() raised ValueError for a message such as "at 100%".
---
 katcp/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/katcp/server.py b/katcp/server.py
index e7a28f3..0a7d244 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2660,8 +2660,9 @@ class DeviceLogger(object):
                 name = self._root_logger_name
             try:
                 inform_msg = msg % args
-            except TypeError:
-                # Catch the "not enough arguments for format string" exception.
+            except (TypeError, ValueError):
+                # Catch the "not enough arguments for format string" and
+                # "incomplete format" exceptions.
                 inform_msg = "{} {}".format(
                     msg,
                     args if args else '').strip()
-- 
2.43.0


From 35513582bf9560d2b3d88e2634a81b47001a9f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 08/51] fix: list clients from a copy of the set of connections

The request handler thread iterated the set that the ioloop thread changes
when clients come and go: the request failed, or reported a wrong count.
---
 katcp/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index 0a7d244..e533f00 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2006,7 +2006,7 @@ class DeviceServer(DeviceServerBase):
         """
         # TODO Get list of ClientConnection* instances and implement a standard
         # 'address-print' method in the ClientConnection class
-        clients = self._client_conns
+        clients = list(self._client_conns)
         num_clients = len(clients)
         for conn in clients:
             addr = conn.address
-- 
2.43.0


From ad13347acd0404b3b97404605b88bd0a5cf3d08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 09/51] fix: send a well-formed #log inform when
 on_client_connect fails

The inform only had the message, without level, timestamp and name.
---
 katcp/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index e533f00..375cb5e 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -508,7 +508,8 @@ class KATCPServer(object):
                     e_type, e_value, trace, self._tb_limit))
                 log_msg = 'Device error initialising connection {0}'.format(reason)
                 self._logger.error(log_msg)
-                data = bytes(Message.inform('log', log_msg)) + b"\n"
+                data = bytes(self._device.create_log_inform(
+                    'error', log_msg, 'root')) + b"\n"
                 stream.write(data)
                 stream.close(exc_info=True)
             else:
-- 
2.43.0


From 4fddda547205b323527ec8ad3a48d3f2a919d29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 10/51] fix: resolve the future of call_from_thread() after the
 server stopped

Without an ioloop the call could not be scheduled; the error was dropped and
whoever waited for the future hung.
---
 katcp/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/katcp/server.py b/katcp/server.py
index 375cb5e..86fea74 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -701,6 +701,9 @@ class KATCPServer(object):
                             'Error executing wrapped async callback')
 
                 self.ioloop.add_callback(send_message_callback)
+            except Exception as e:
+                # E.g. the server was stopped and has no ioloop any more
+                f.set_exception(e)
             finally:
                 return f
 
-- 
2.43.0


From 5ed3e095e6a74349395810cbf0813dbb18774697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 11/51] fix: keep the timeout of a request when a reply without
 its mid arrives

A reply without message id is not for a pending request that was sent with
one, but it cancelled that request's timeout: without a proper reply the
request never completed.
---
 katcp/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/client.py b/katcp/client.py
index ac12f62..678210d 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1509,7 +1509,8 @@ class AsyncClient(DeviceClient):
                 _request, reply_cb, _inform_cb, user_data, timeout_handle = \
                     self._pop_async_request(None, msg.name)
             else:
-                reply_cb, user_data = None, None
+                # no request pending, or one that was sent with a mid
+                reply_cb, user_data, timeout_handle = None, None, None
 
         if timeout_handle is not None:
             self.ioloop.remove_timeout(timeout_handle)
-- 
2.43.0


From 5ea70c76d7c1557cddb78c56e55cabe2c2b6c1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 12/51] fix: report an unsendable request with a reply message

The failure passed to the reply callback was a request message.
---
 katcp/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/client.py b/katcp/client.py
index 678210d..03edc57 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -1287,7 +1287,7 @@ class AsyncClient(DeviceClient):
         try:
             self.send_request(msg)
         except KatcpClientError as e:
-            error_reply = Message.request(msg.name, "fail", str(e))
+            error_reply = Message.reply(msg.name, "fail", str(e))
             error_reply.mid = mid
             self.handle_reply(error_reply)
 
-- 
2.43.0


From 16d2420a876eff7fb401fce8061e921d2ca23a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 13/51] fix: do not claim to be running when the only attempt
 to connect failed

Without auto_reconnect the main coroutine ended and signalled stopped, but
the client was still marked as running.
---
 katcp/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/katcp/client.py b/katcp/client.py
index 03edc57..f362351 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -699,6 +699,7 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                 self._logger.info("Client connect loop for {0!r} finished."
                                   .format(self._bindaddr))
         finally:
+            self._running.clear()
             self._stopped.set()
 
     @gen.coroutine
-- 
2.43.0


From b3c76261b32f8f87901912d907b3c9428cb3ad76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 14/51] fix: refuse to start a managed ioloop that is already
 running

Thread.isAlive() no longer exists; the AttributeError was taken to mean that
there is no thread yet, so the check never fired.
---
 katcp/ioloop_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/ioloop_manager.py b/katcp/ioloop_manager.py
index 8f87cdc..ad8f42b 100644
--- a/katcp/ioloop_manager.py
+++ b/katcp/ioloop_manager.py
@@ -91,7 +91,7 @@ class IOLoopManager(object):
             t = threading.Thread(target=run_ioloop)
             t.setDaemon(self._daemonize)
             try:
-                if self._ioloop_thread.isAlive():
+                if self._ioloop_thread.is_alive():
                     raise RuntimeError('Seems that managed ioloop has already been '
                                        'started, can only restart after stop()')
             except AttributeError:
-- 
2.43.0


From 076526921b2dd08a9965f9c95e37df33d81ba984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 15/51] fix: resolve the future of IOLoopManager.stop() when
 already stopped

---
 katcp/ioloop_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/ioloop_manager.py b/katcp/ioloop_manager.py
index ad8f42b..c5ca471 100644
--- a/katcp/ioloop_manager.py
+++ b/katcp/ioloop_manager.py
@@ -166,7 +166,7 @@ class IOLoopManager(object):
                 lambda: gen.chain_future(_stop(), stopped_future))
         except AttributeError:
             # Probably we have been shut-down already
-            pass
+            stopped_future.set_result(None)
 
         return stopped_future
 
-- 
2.43.0


From 6aa2b8757bf0dcbda75f89657e341ebfd4a0e20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 16/51] fix: do not start sampling when cancelled before the
 first run

---
 katcp/sampling.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 14fed93..b7aa911 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -109,6 +109,8 @@ class SampleStrategy(object):
         self._inform_callback = inform_callback
         self._sensor = sensor
         self._params = params
+        # True from cancel() until start(), even if cancelled before first_run()
+        self._cancelled = False
 
     @classmethod
     def get_strategy(cls, strategyName, inform_callback, sensor,
@@ -239,6 +241,7 @@ class SampleStrategy(object):
 
     def cancel(self):
         """Detach strategy from its sensor and cancel ioloop callbacks."""
+        self._cancelled = True
         if self.OBSERVE_UPDATES:
             self.detach()
         self.ioloop.add_callback(self.cancel_timeouts)
@@ -252,14 +255,19 @@ class SampleStrategy(object):
         :attr:`_ioloop_thread_id` using `thread.get_ident()`.
 
         """
+        self._cancelled = False
+
         def first_run():
             self._ioloop_thread_id = get_thread_ident()
-            if self.OBSERVE_UPDATES:
+            if self.OBSERVE_UPDATES and not self._cancelled:
                 self.attach()
         self.ioloop.add_callback(first_run)
 
     def inform(self, reading):
         """Inform strategy creator of the sensor status."""
+        if self._cancelled:
+            # E.g. an update that was queued on the ioloop before cancel()
+            return
         try:
             self._inform_callback(self._sensor, reading)
         except Exception:
@@ -374,10 +382,13 @@ class SamplePeriod(SampleStrategy):
                              "Parameters passed: %r, in pid : %s"
                              % (params, os.getpid()))
         self._period = period
+        self.next_timeout_handle = None
 
     def start(self):
         super(SamplePeriod, self).start()
         def start_periodic_sampling():
+            if self._cancelled:
+                return
             self.next_time = self.ioloop.time()
             self._run_once()
         self.ioloop.add_callback(start_periodic_sampling)
@@ -397,7 +408,8 @@ class SamplePeriod(SampleStrategy):
         return SampleStrategy.PERIOD
 
     def cancel_timeouts(self):
-        self.ioloop.remove_timeout(self.next_timeout_handle)
+        if self.next_timeout_handle:
+            self.ioloop.remove_timeout(self.next_timeout_handle)
 
 
 class SampleEventRate(SampleStrategy):
@@ -426,6 +438,7 @@ class SampleEventRate(SampleStrategy):
                              "satisfy 0 <= shortest_period <= longest_period")
         self._shortest_period = shortest_period
         self._short_timeout_handle = None
+        self._periodic_timeout_handle = None
         self._longest_period = longest_period
         # don't send updates until timestamp _not_before
         self._not_before = 0
@@ -443,6 +456,8 @@ class SampleEventRate(SampleStrategy):
         self.ioloop.add_callback(self._periodic_sampling)
 
     def _periodic_sampling(self):
+        if self._cancelled:
+            return
         if self._not_after >= AGE_OF_UNIVERSE:
             # Ignore stupidly long periods
             self._periodic_timeout_handle = None
-- 
2.43.0


From 91900807e5adc3bc696a50f921efaf0dafab569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 17/51] fix: start a bulk sampling strategy once if a name is
 repeated

---
 katcp/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index 86fea74..ca7e974 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2434,7 +2434,8 @@ class DeviceServer(DeviceServerBase):
                 )
             )
 
-        for name in names:
+        # A name may have been given more than once
+        for name in requested_strategies:
             sensor = self._sensors[name]
 
             # Remove and cancel old strategy
-- 
2.43.0


From 3c64ce964302dceb7f8a6d33457d1f63c853a934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 18/51] fix: call the callback of AsyncCallbackEvent with False
 on clear

---
 katcp/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index cbb4613..396dc02 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -1719,7 +1719,7 @@ class AsyncCallbackEvent(AsyncEvent):
     def clear(self):
         super(AsyncCallbackEvent, self).clear()
         try:
-            self._callback(True)
+            self._callback(False)
         except Exception:
             logger.exception('Unhandled exception calling event change callback')
 
-- 
2.43.0


From fa9320689011bdd2f872641d2efed0789ef62b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 19/51] fix: keep the message id when copying a message

---
 katcp/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index 396dc02..507b5f4 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -331,7 +331,7 @@ class Message(object):
             A copy of the message object.
 
         """
-        return Message(self.mtype, self.name, self.arguments)
+        return Message(self.mtype, self.name, self.arguments, self.mid)
 
     def __bytes__(self):
         """Return Message serialized for transmission.
-- 
2.43.0


From e23c1e07d74a64ad578aa058e316d19e4f1a0a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 20/51] fix: check values and use the right version in
 Parameter.pack

---
 katcp/kattypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index b05e82f..3b55c7d 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -627,7 +627,7 @@ class Parameter(object):
             The unescaped KATCP string representing the value.
 
         """
-        return self._kattype.pack(value, self.major)
+        return self._kattype.pack(value, major=self.major)
 
     def unpack(self, value):
         """Unpack the parameter using its kattype.
-- 
2.43.0


From 39bf7096de57ff71060f3fc116ab8ba361183bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 21/51] fix: refuse a difference that is not positive for
 differential-rate

---
 katcp/sampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index b7aa911..3c8bad1 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -557,6 +557,8 @@ class SampleDifferentialRate(SampleEventRate):
         else:
             raise ValueError('The differential-rate strategy can only be '
                              'defined for integer or float sensors')
+        if not difference > 0:
+            raise ValueError('The difference must be positive.')
         self.difference = difference
         # Initial value that should not cause errors in _sensor_changed(),
         # but should let it return True
-- 
2.43.0


From 00bb37e9df6ff42d9fed8c88733fac945b289edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 22/51] fix: refuse NaN as sampling period or difference

---
 katcp/sampling.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 3c8bad1..90ff0e5 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -339,7 +339,7 @@ class SampleDifferential(SampleStrategy):
                 raise ValueError("The diff amount must be a positive integer.")
         elif sensor._sensor_type == Sensor.FLOAT:
             self._threshold = float(params[0])
-            if self._threshold <= 0:
+            if not self._threshold > 0:
                 raise ValueError("The diff amount must be a positive float.")
         else:
             # _sensor_type must be Sensor.TIMESTAMP
@@ -348,7 +348,7 @@ class SampleDifferential(SampleStrategy):
             # the timestamp sensor type should be in milliseconds. For now, just
             # ignore this eventuality, and fix if anyone actually needs this
             self._threshold = float(params[0])
-            if self._threshold <= 0:
+            if not self._threshold > 0:
                 raise ValueError("The diff amount must be a positive number "
                                  "of seconds.")
         self._lastStatus = None
@@ -377,7 +377,8 @@ class SamplePeriod(SampleStrategy):
                              "Parameters passed: %r, in pid : %s"
                              % (params, os.getpid()))
         period = float(params[0])
-        if period <= 0:
+        # Written so that NaN is refused
+        if not period > 0:
             raise ValueError("The period must be a positive float in seconds. "
                              "Parameters passed: %r, in pid : %s"
                              % (params, os.getpid()))
-- 
2.43.0


From d31ea1d65d1f15bdbd32d7bd0d2180a6e3c772a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 23/51] fix: make every aggregate wait for a sensor that is
 deregistered

---
 katcp/sensortree.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/katcp/sensortree.py b/katcp/sensortree.py
index aa08f4f..226bc4a 100644
--- a/katcp/sensortree.py
+++ b/katcp/sensortree.py
@@ -450,24 +450,20 @@ class AggregateSensorTree(GenericSensorTree):
                              " tree" % child_name)
         child = self._registered_sensors[child_name]
         del self._registered_sensors[child_name]
-        try:
-            parents = self.parents(child)
-            for parent in parents:
-                if parent in self._incomplete_aggregates:
-                    (rule, names, sensors) = self._incomplete_aggregates[parent]
-                    names.add(child_name)
-                else:
-                    (rule, sensors) = self._aggregates[parent]
-                    names = set()
-                    names.add(child_name)
-                sensors.discard(child)
-                self._incomplete_aggregates[parent] = (rule, names, sensors)
-                self.remove_links(parent, [child])
-                self.remove(parent)
-                if parent.stype == 'bool':
-                    parent.set_value(False)
-        except ValueError:
-            pass
+        # Aggregates that were still waiting for other sensors
+        for _rule, names, sensors in self._incomplete_aggregates.values():
+            if child in sensors:
+                sensors.remove(child)
+                names.add(child_name)
+        # Complete aggregates wait for the sensor to be registered again
+        for parent in (self.parents(child) if child in self else ()):
+            rule, sensors = self._aggregates[parent]
+            sensors = set(sensors)
+            sensors.discard(child)
+            self._aggregates[parent] = (rule, sensors)
+            self.remove(parent)
+            self._incomplete_aggregates[parent] = (
+                rule, set([child_name]), sensors)
 
     def _child_from_reference(self, reference):
         """Returns the child sensor from its reference.
-- 
2.43.0


From f0032431e3c0bb0adee11e8e6b87d7ddc66ae10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 24/51] fix: find children whose name is not an identifier when
 setting strategies

---
 katcp/resource_client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 7c046ec..a9de20a 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1451,7 +1451,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sampling_strategy(sensor_name, strategy_and_parms)
                 sensor_dict[resource_name][sensor_name] = strategy_and_parms
                 self._logger.debug(
@@ -1475,7 +1475,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sampling_strategy(sensor_name, strategy_and_parms)
                 sensor_dict[resource_name][sensor_name] = strategy_and_parms
                 self._logger.debug(
@@ -1499,7 +1499,7 @@ class KATCPClientResourceContainer(resource.KATCPResource):
             if resource_name not in sensor_dict:
                 sensor_dict[resource_name] = {}
             try:
-                resource_obj = self.children[resource_name]
+                resource_obj = self.children[resource.escape_name(resource_name)]
                 yield resource_obj.set_sensor_listener(sensor_name, listener)
                 sensor_dict[resource_name][sensor_name] = listener
                 self._logger.debug(
-- 
2.43.0


From cc6432e3c3949251546dc6eca21886e8a8494a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 25/51] fix: update groups whose name is not an identifier

---
 katcp/resource_client.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index a9de20a..f551073 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1582,9 +1582,8 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         self._children_dirty = True
 
     def _dirty_groups(self, child):
-        groups_spec = self._resources_spec.get('groups', {})
-        for group_name, group in dict.items(self.groups):
-            if child.name in groups_spec[group_name]:
+        for group in dict.values(self.groups):
+            if child in group.clients:
                 group.client_updated(child)
 
     def __repr__(self):
-- 
2.43.0


From 9c2d494db4c0f897638f5c7eecf2f6a9e15217ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 26/51] fix: do not call dict methods of clients that lack a
 group request

---
 katcp/resource_client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index f551073..468350f 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1032,7 +1032,11 @@ class GroupRequest(object):
         none_future = Future()
         none_future.set_result(None)
         for client in self.group.clients:
-            request_method = getattr(client.req, self.name, None)
+            # Not getattr(), which finds dict methods such as clear() as well
+            try:
+                request_method = client.req[self.name]
+            except KeyError:
+                request_method = None
             if request_method:
                 result_futures[client.name] = request_method(*args, **kwargs)
             else:
-- 
2.43.0


From a9b33793f2c915d476a959adc020501f28066f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 27/51] fix: reset the resync backoff after a successful sync

---
 katcp/inspecting_client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 4de6faa..5a695d7 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -447,6 +447,7 @@ class InspectingClientAsync(object):
                         'Succesfully resynced with {} after failure'
                         .format(self.bind_address_string))
                     last_sync_failed = False
+                self.resync_delay.success()
                 yield until_any(self._interface_changed.until_set(),
                                 self._disconnected.until_set())
                 self._logger.debug('in _state_loop: interface_changed=%s,'
@@ -480,8 +481,6 @@ class InspectingClientAsync(object):
                 self.katcp_client.disconnect()
                 yield katcp.core.until_later(retry_wait_time)
                 continue
-            else:
-                self.resync_delay.success()
         try:
             self._logger.debug('{}: Sending final state - loop ended'
                                .format(self.bind_address_string))
-- 
2.43.0


From c7464eb532f0d27555e9792ad4ba44024500cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 28/51] fix: restore changed items when an inspection fails

---
 katcp/inspecting_client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 5a695d7..bbefeb8 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -596,8 +596,11 @@ class InspectingClientAsync(object):
 
         """
         timeout_manager = future_timeout_manager(self.sync_timeout)
-        sensor_index_before = copy.copy(self._sensors_index)
-        request_index_before = copy.copy(self._requests_index)
+        # The items are updated in place, so they need to be copied too
+        sensor_index_before = {
+            name: copy.copy(info) for name, info in self._sensors_index.items()}
+        request_index_before = {
+            name: copy.copy(info) for name, info in self._requests_index.items()}
         try:
             request_changes = yield self.inspect_requests(
                 timeout=timeout_manager.remaining())
-- 
2.43.0


From 47f276852de58e2e8677198d5e4fa3774da58a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 29/51] fix: do not keep the objects of sensors and requests
 that changed

---
 katcp/inspecting_client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index bbefeb8..5e01eb9 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -1085,8 +1085,9 @@ class InspectingClientAsync(object):
         # Check the keys that was not added now or not lined up for removal,
         # and see if they changed.
         for key in updated_keys.difference(added_keys.union(removed_keys)):
-            if item_index[key].get('_changed'):
-                item_index[key]['_changed'] = False
+            if item_index[key].pop('_changed', False):
+                # The object was made from the old description of the item
+                item_index[key].pop('obj', None)
                 removed_keys.add(key)
                 added_keys.add(key)
 
-- 
2.43.0


From b4c0d44feda24ee903c42a38ada2451fbaeb4e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 30/51] fix: report the sampling period that was set to KATCP
 v4 clients

---
 katcp/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/katcp/server.py b/katcp/server.py
index ca7e974..ec11a26 100644
--- a/katcp/server.py
+++ b/katcp/server.py
@@ -2377,7 +2377,7 @@ class DeviceServer(DeviceServerBase):
         if katcp_version < SEC_TS_KATCP_MAJOR and strategy == b'period':
             # Another slightly nasty hack, but since period is the only
             # v4 strategy involving timestamps it's not _too_ nasty :)
-            params = [int(float(params[0]) * SEC_TO_MS_FAC)] + params[1:]
+            params = [int(round(float(params[0]) * SEC_TO_MS_FAC))] + params[1:]
 
         # Let the ioloop run so that the #sensor-status inform is sent before
         # the reply. Not strictly necessary, but a number of tests depend on
-- 
2.43.0


From 4257b19e036720181f4e743d9c6daa4ab1a381b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 31/51] fix: close the connection if the client was stopped
 while connecting

---
 katcp/client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/katcp/client.py b/katcp/client.py
index f362351..5d8f37c 100644
--- a/katcp/client.py
+++ b/katcp/client.py
@@ -700,7 +700,12 @@ class DeviceClient(with_metaclass(DeviceMetaclass, object)):
                                   .format(self._bindaddr))
         finally:
             self._running.clear()
-            self._stopped.set()
+            try:
+                # If stop() was called while we were still connecting it had no
+                # stream to close
+                self._disconnect()
+            finally:
+                self._stopped.set()
 
     @gen.coroutine
     def _connect_loop(self):
-- 
2.43.0


From 64101ee2262857a4071521ee41328b2d450e3fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 32/51] fix: do not lose a sensor update made while a sampling
 strategy is being attached

---
 katcp/sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 90ff0e5..f8a1573 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -232,8 +232,10 @@ class SampleStrategy(object):
     def attach(self):
         """Attach strategy to its sensor and send initial update."""
         s = self._sensor
+        # Attach before reading, otherwise an update made by another thread
+        # between the reading and the attaching would be lost.
+        s.attach(self)
         self.update(s, s.read())
-        self._sensor.attach(self)
 
     def detach(self):
         """Detach strategy from its sensor."""
-- 
2.43.0


From 1fe41d9dfd8f59d7ad3bf1c44b3dc734551efdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 33/51] fix: do not schedule a timeout for a sampling strategy
 that was cancelled

---
 katcp/sampling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index f8a1573..20b1a2f 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -483,6 +483,9 @@ class SampleEventRate(SampleStrategy):
 
     @update_in_ioloop
     def update(self, sensor, reading):
+        if self._cancelled:
+            # Could have been handed over to the ioloop before cancelling
+            return
         sensor_changed = self._sensor_changed(reading)
         if not sensor_changed:
             # Ignore update if sensor value/status is unchanged
-- 
2.43.0


From c2b3975da3c5d59e689f2cdc6641e2c95d80731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 34/51] fix: do not lose a change that follows an update sent
 while the short timeout was due

---
 katcp/sampling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/katcp/sampling.py b/katcp/sampling.py
index 20b1a2f..042e7e4 100644
--- a/katcp/sampling.py
+++ b/katcp/sampling.py
@@ -475,6 +475,10 @@ class SampleEventRate(SampleStrategy):
         self._short_timeout_handle = None
         if (self.ioloop.time() >= self._not_before):
             self.inform(self._sensor.read())
+        else:
+            # An update was sent after this timeout was scheduled. Do not lose
+            # a change that was made since then.
+            self.update(self._sensor, self._sensor.read())
 
     def _sensor_changed(self, reading):
         _, status, value = reading
-- 
2.43.0


From aeae02c384784e87255a6f8078fa477c75960849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:48 +0000
Subject: [PATCH 35/51] fix: do not make until_any skip other waiters of the
 future that resolved

---
 katcp/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/katcp/core.py b/katcp/core.py
index 507b5f4..9650076 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -1908,9 +1908,10 @@ def until_any(*futures, **kwargs):
             # (NM) Nasty hack to remove handle_done from the callback list to prevent a
             # memory leak where one of the futures resolves quickly, particularly when
             # used together with AsyncState.until_state(). Also addresses Jira issue
-            # CM-593
+            # CM-593. A future that is done is not touched, since it may be busy
+            # iterating through its callbacks and would skip someone else's.
             for f in futures:
-                if f._callbacks:
+                if not f.done() and f._callbacks:
                     try:
                         f._callbacks.remove(handle_done)
                     except ValueError:
-- 
2.43.0


From 93a73d951af0518a6031d23e9e2436ea457eba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:03 +0000
Subject: [PATCH 36/51] fix: encode every real number as a float literal

The repr of other real types (fractions.Fraction, float subclasses with their
own repr such as numpy 2's float64) is not a KATCP float and cannot be decoded.
---
 katcp/kattypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index 3b55c7d..be4bd52 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -200,11 +200,11 @@ class Float(KatcpType):
     def encode(self, value, major):
         # Note:  order chosen for performance - Integral and Real checks are slower
         if isinstance(value, float):
-            return b"%r" % (value,)
+            return b"%r" % (float(value),)
         elif isinstance(value, int) or isinstance(value, numbers.Integral):
             return b"%r" % (float(value),)
         elif isinstance(value, numbers.Real):
-            return b"%r" % (value,)
+            return b"%r" % (float(value),)
         else:
             raise ValueError("Could not encode value '%r' as float." % value)
 
-- 
2.43.0


From a79325f7c465e3240584dbe1e56c5f0e1ca93964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:03 +0000
Subject: [PATCH 37/51] fix: never encode a strict timestamp that cannot be
 decoded

Values whose repr has an exponent, booleans, fractions, infinities and NaN were
encoded as text that StrictTimestamp itself refuses to decode.
---
 katcp/kattypes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index be4bd52..d20980c 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -13,11 +13,13 @@ standard_library.install_aliases()  # noqa: E402
 import inspect
 import itertools
 import logging
+import math
 import numbers
 import re
 import struct
 
 from builtins import object
+from decimal import Decimal
 from functools import partial, update_wrapper, wraps
 try:
     from inspect import getfullargspec as get_args
@@ -462,8 +464,10 @@ class StrictTimestamp(KatcpType):
     name = "strict_timestamp"
 
     def encode(self, value, major):
-        if isinstance(value, numbers.Real):
-            return b"%r" % value
+        if isinstance(value, numbers.Real) and not (math.isnan(value) or
+                                                    math.isinf(value)):
+            # No exponent for very large or small values: decode() refuses it
+            return format(Decimal(repr(float(value))), 'f').encode('ascii')
         else:
             raise ValueError("Could not encode value '%r' as strict timestamp." %
                              value)
-- 
2.43.0


From 5a2e8667fb9a2914e0dfdf38a44be57499438f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:03 +0000
Subject: [PATCH 38/51] fix: decode the encoded form of an empty discrete-multi
 value

---
 katcp/kattypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/katcp/kattypes.py b/katcp/kattypes.py
index d20980c..522d4b8 100644
--- a/katcp/kattypes.py
+++ b/katcp/kattypes.py
@@ -582,6 +582,8 @@ class DiscreteMulti(Discrete):
         joined_values = super(DiscreteMulti, self).decode(value, major)
         if self.all_keyword and joined_values == self.all_keyword:
             return sorted(list(self._valid_values), key=str.lower)
+        if not joined_values and '' not in self._valid_values:
+            return []
         return sorted([v.strip() for v in joined_values.split(self.separator)],
                       key=str.lower)
 
-- 
2.43.0


From c2c2e869888c4bdbf44105529ab2566d0f2aeb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:36 +0000
Subject: [PATCH 39/51] fix: inspect again if the connection was replaced while
 a state callback ran

---
 katcp/inspecting_client.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index 5e01eb9..a0447fe 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -405,17 +405,18 @@ class InspectingClientAsync(object):
                                    model_changed=False, data_synced=False)
             try:
                 yield self.katcp_client.until_connected()
+                # Stays resolved if a new connection is made before it is looked at
+                connection_lost = self._disconnected.until_set()
                 self._logger.debug('{}: Sending post-connected state'
                                    .format(self.bind_address_string))
                 yield self._send_state(connected=is_connected(), synced=False,
                                        model_changed=False, data_synced=False)
-                yield until_any(self.katcp_client.until_protocol(),
-                                self._disconnected.until_set())
+                yield until_any(self.katcp_client.until_protocol(), connection_lost)
                 # TODO NM 2016-10-21 The naming of this attribute is incredibly
                 # confusing, we need to think about what "initial_inspection" is
                 # and how it is supposed to be handled
                 if self.initial_inspection:
-                    if not is_connected():
+                    if connection_lost.done():
                         continue
                     model_changes = yield self.inspect()
                     model_changed = bool(model_changes)
@@ -427,7 +428,7 @@ class InspectingClientAsync(object):
                         model_changes=model_changes)
                 else:
                     self.initial_inspection = True
-                if not is_connected():
+                if connection_lost.done():
                     continue
 
                 # TODO NM 2017-07-21 for CB-1466 (async dev handler) we need to
@@ -448,8 +449,7 @@ class InspectingClientAsync(object):
                         .format(self.bind_address_string))
                     last_sync_failed = False
                 self.resync_delay.success()
-                yield until_any(self._interface_changed.until_set(),
-                                self._disconnected.until_set())
+                yield until_any(self._interface_changed.until_set(), connection_lost)
                 self._logger.debug('in _state_loop: interface_changed=%s,'
                         ' is_connected=%s', self._interface_changed.is_set(),
                         self._disconnected.is_set())
-- 
2.43.0


From 86d1b22bde857ab6545d13950129e7088fc4f00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:06 +0000
Subject: [PATCH 40/51] fix: refresh both the sensors and the requests of a
 container

The two share one dirty flag, so that the one read second stayed out of
date (or did not exist at all).
---
 katcp/resource_client.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 468350f..b1a0d99 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1275,18 +1275,12 @@ class KATCPClientResourceContainer(resource.KATCPResource):
     """
     @property
     def req(self):
-        if self._children_dirty:
-            self._req = self._create_attrdict_from_children('req')
-            self._children_dirty = False
-
+        self._sync_with_children()
         return self._req
 
     @property
     def sensor(self):
-        if self._children_dirty:
-            self._sensor = self._create_attrdict_from_children('sensor')
-            self._children_dirty = False
-
+        self._sync_with_children()
         return self._sensor
 
     @property
@@ -1528,6 +1522,13 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         res.start()
         return res
 
+    def _sync_with_children(self):
+        # One flag marks both, so that both have to be made again
+        if self._children_dirty:
+            self._req = self._create_attrdict_from_children('req')
+            self._sensor = self._create_attrdict_from_children('sensor')
+            self._children_dirty = False
+
     def _create_attrdict_from_children(self, attr):
         attrdict = AttrDict()
         for child_name, child_resource in dict.items(self.children):
-- 
2.43.0


From c8958794a9496d5e81d7eb1a3f2f8177ea933e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:07 +0000
Subject: [PATCH 41/51] fix: let a resource use its other sensors if one cannot
 be made

A sensor whose description cannot be handled (e.g. of an unknown type) kept
out every sensor reported along with it.
---
 katcp/resource_client.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index b1a0d99..c362a86 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -696,10 +696,16 @@ class KATCPClientResource(resource.KATCPResource):
             if latency_timer.time_to_yield():
                 yield tornado.gen.moment
 
-        sensor_instances = yield sensor_instance_fut
         # Store KATCPSensor instances in self.sensor
         added_names = []
-        for s_name, s_obj in list(sensor_instances.items()):
+        for s_name, s_obj_fut in list(sensor_instance_fut.items()):
+            try:
+                s_obj = yield s_obj_fut
+            except Exception:
+                # The other sensors can still be used
+                self._logger.exception(
+                    'Exception trying to make sensor {}'.format(s_name))
+                continue
             s_name_escaped = resource.escape_name(s_name)
             self._sensor[s_name_escaped] = s_obj
             preset_strategy = self._sensor_strategy_cache.get(s_name_escaped)
-- 
2.43.0


From e45fe1d43352d72875b20e6d4e57ea9abc7277d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:07 +0000
Subject: [PATCH 42/51] fix: allow strategies to be dropped before a resource
 is started

---
 katcp/resource_client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index c362a86..317a586 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -339,6 +339,7 @@ class KATCPClientResource(resource.KATCPResource):
         self.auto_reconnect = resource_spec.get('auto_reconnect', True)
         self.auto_reconnect_delay = resource_spec.get('auto_reconnect_delay', 0.5)
         self._sensor_strategy_cache = {}
+        self._sensor_manager = None
         self._sensor_listener_cache = collections.defaultdict(list)
         self._logger = logger
         self._parent = parent
@@ -545,7 +546,8 @@ class KATCPClientResource(resource.KATCPResource):
         sensor_name = resource.escape_name(sensor_name)
         # drop from both the internal cache, and the sensor manager's cache
         self._sensor_strategy_cache.pop(sensor_name, None)
-        self._sensor_manager.drop_sampling_strategy(sensor_name)
+        if self._sensor_manager is not None:
+            self._sensor_manager.drop_sampling_strategy(sensor_name)
 
     @tornado.gen.coroutine
     def set_sensor_listener(self, sensor_name, listener):
-- 
2.43.0


From 6f4e269eec201dea61caab4b4b0392aec030b469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:07 +0000
Subject: [PATCH 43/51] fix: do not bring back a replaced or dropped strategy
 with its sensor

A strategy set through the resource was set again whenever the sensor
reappeared, even if another one was since set through the sensor itself or
the sensor's strategy was dropped.
---
 katcp/resource_client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 317a586..7ed1432 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -420,6 +420,7 @@ class KATCPClientResource(resource.KATCPResource):
         ic.request_factory = self._request_factory
         self._sensor_manager = KATCPClientResourceSensorsManager(
             ic, self.name, logger=self._logger)
+        self._sensor_manager.preset_strategies = self._sensor_strategy_cache
         ic.handle_sensor_value()
         ic.sensor_factory = self._sensor_manager.sensor_factory
 
@@ -776,6 +777,8 @@ class KATCPClientResourceSensorsManager(object):
         self._inspecting_client = inspecting_client
         self.time = inspecting_client.ioloop.time
         self._strategy_cache = {}
+        # Strategies that the resource sets when a sensor appears, by escaped name
+        self.preset_strategies = {}
         self._resource_name = resource_name
         self._logger = logger
 
@@ -873,6 +876,9 @@ class KATCPClientResourceSensorsManager(object):
             strategy_and_params = resource.normalize_strategy_parameters(
                 strategy_and_params)
             self._strategy_cache[sensor_name] = strategy_and_params
+            escaped_name = resource.escape_name(sensor_name)
+            if escaped_name in self.preset_strategies:
+                self.preset_strategies[escaped_name] = strategy_and_params
             reply = yield self._inspecting_client.wrapped_request(
                 'sensor-sampling', sensor_name, *strategy_and_params)
             if not reply.succeeded:
@@ -903,6 +909,7 @@ class KATCPClientResourceSensorsManager(object):
         """
         cache_key = self._get_strategy_cache_key(sensor_name)
         self._strategy_cache.pop(cache_key, None)
+        self.preset_strategies.pop(resource.escape_name(sensor_name), None)
 
     @tornado.gen.coroutine
     def reapply_sampling_strategies(self):
-- 
2.43.0


From f1044bfcbef704d4bbc6c1e2566cac59be27db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:53 +0000
Subject: [PATCH 44/51] fix: do not reapply a strategy that was replaced in the
 meantime

A strategy set or dropped while the strategies of other sensors were being
reapplied was overwritten with the earlier one.
---
 katcp/resource_client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 7ed1432..8c095ef 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -915,7 +915,7 @@ class KATCPClientResourceSensorsManager(object):
     def reapply_sampling_strategies(self):
         """Reapply all sensor strategies using cached values"""
         check_sensor = self._inspecting_client.future_check_sensor
-        for sensor_name, strategy in list(self._strategy_cache.items()):
+        for sensor_name in list(self._strategy_cache):
             try:
                 sensor_exists = yield check_sensor(sensor_name)
                 if not sensor_exists:
@@ -923,6 +923,10 @@ class KATCPClientResourceSensorsManager(object):
                                       .format(sensor_name))
                     continue
 
+                # May have been changed or dropped while waiting for other sensors
+                strategy = self._strategy_cache.get(sensor_name)
+                if strategy is None:
+                    continue
                 result = yield self.set_sampling_strategy(sensor_name, strategy)
             except KATCPSensorError as e:
                 self._logger.error('Error reapplying strategy for sensor {0}: {1!s}'
-- 
2.43.0


From c799d46a64f9cc4056c363522649e94b17822113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:18 +0000
Subject: [PATCH 45/51] fix: report model changes again if the state callback
 failed

After a failed state callback the next inspection finds no difference, so
that the client became synced although the changes were never handled.
---
 katcp/inspecting_client.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/katcp/inspecting_client.py b/katcp/inspecting_client.py
index a0447fe..782e523 100644
--- a/katcp/inspecting_client.py
+++ b/katcp/inspecting_client.py
@@ -170,6 +170,22 @@ class _InformHookDeviceClient(katcp.AsyncClient):
         super(_InformHookDeviceClient, self).handle_inform(msg)
 
 
+def _merge_model_changes(first, then):
+    """Return model changes that amount to *first* followed by *then*"""
+    if not first or not then:
+        return first or then
+    merged = AttrDict()
+    for kind in set(first) | set(then):
+        before, after = first.get(kind), then.get(kind)
+        if before and after:
+            merged[kind] = AttrDict(
+                added=(before['added'] - after['removed']) | after['added'],
+                removed=before['removed'] | after['removed'])
+        else:
+            merged[kind] = before or after
+    return merged
+
+
 class InspectingClientAsync(object):
     """Higher-level client that inspects a KATCP interface.
 
@@ -398,6 +414,7 @@ class InspectingClientAsync(object):
 
         is_connected = self.katcp_client.is_connected
         last_sync_failed = False
+        unreported_changes = None    # Those for which the state callback failed
         while self._running:
             self._logger.debug('{}: Sending initial state'
                                .format(self.bind_address_string))
@@ -419,6 +436,8 @@ class InspectingClientAsync(object):
                     if connection_lost.done():
                         continue
                     model_changes = yield self.inspect()
+                    model_changes = unreported_changes = _merge_model_changes(
+                        unreported_changes, model_changes)
                     model_changed = bool(model_changes)
                     self._logger.debug('{}: Sending data-synced state'
                                        .format(self.bind_address_string))
@@ -426,6 +445,7 @@ class InspectingClientAsync(object):
                         connected=True, synced=False,
                         model_changed=model_changed, data_synced=True,
                         model_changes=model_changes)
+                    unreported_changes = None
                 else:
                     self.initial_inspection = True
                 if connection_lost.done():
-- 
2.43.0


From 1425cabd2bc7f8995c4049e6a5a0eb6fdc06efe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:53 +0000
Subject: [PATCH 46/51] fix: group wait without a grace period does not wait
 forever for stragglers

---
 katcp/resource_client.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index 8c095ef..cf878c9 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1253,7 +1253,8 @@ class ClientGroup(object):
             grace_period = min(max_grace_period, timeout / 2.)
             initial_timeout = timeout - grace_period
         else:
-            grace_period = max_grace_period
+            # The total timeout leaves no time for a grace period
+            grace_period = 0 if timeout else max_grace_period
             initial_timeout = timeout
         # Build dict of futures instead of list as this will be easier to debug
         futures = {}
@@ -1266,9 +1267,14 @@ class ClientGroup(object):
         # Identify stragglers and let them all respond within grace period
         stragglers = {}
         for client in self.clients:
-            if not results.get(client.name, False):
-                f = client.wait(sensor_name, condition_or_value, grace_period)
-                stragglers[client.name] = f
+            if results.get(client.name, False):
+                continue
+            if grace_period == 0:
+                # A timeout of 0 would wait forever
+                results[client.name] = False
+                continue
+            f = client.wait(sensor_name, condition_or_value, grace_period)
+            stragglers[client.name] = f
         rest_of_results = yield until_some(**stragglers)
         results.update(dict(rest_of_results))
 
-- 
2.43.0


From 3b40afb28966ee6211a321bd59928eedef1bd7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:53 +0000
Subject: [PATCH 47/51] fix: group request reaches the other clients when one
 of them refuses it

---
 katcp/resource_client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index cf878c9..f1b5676 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1057,7 +1057,12 @@ class GroupRequest(object):
             except KeyError:
                 request_method = None
             if request_method:
-                result_futures[client.name] = request_method(*args, **kwargs)
+                try:
+                    result_futures[client.name] = request_method(*args, **kwargs)
+                except Exception:
+                    # E.g. an inactive client; the others still get the request
+                    result_futures[client.name] = tornado_Future()
+                    result_futures[client.name].set_exc_info(sys.exc_info())
             else:
                 result_futures[client.name] = none_future
 
-- 
2.43.0


From b21d9e8db8b61803171a6e099882cb8c50161fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:53 +0000
Subject: [PATCH 48/51] fix: waiting on an unknown sensor raises the documented
 error

---
 katcp/resource.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/katcp/resource.py b/katcp/resource.py
index 1a2ee2c..f783dd9 100644
--- a/katcp/resource.py
+++ b/katcp/resource.py
@@ -220,7 +220,10 @@ class KATCPResource(with_metaclass(abc.ABCMeta, object)):
 
         """
         sensor_name = escape_name(sensor_name)
-        sensor = self.sensor[sensor_name]
+        try:
+            sensor = self.sensor[sensor_name]
+        except KeyError:
+            raise KATCPSensorError('Cannot wait on unknown sensor {!r}'.format(sensor_name))
         try:
             yield sensor.wait(condition_or_value, timeout)
         except tornado.gen.TimeoutError:
-- 
2.43.0


From 6976cd013c866ab6e1aa8439fcb0ad12caa625c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:02 +0000
Subject: [PATCH 49/51] fix: adding a group no longer disconnects the existing
 groups

add_group() made all groups of the container anew, so that a group a user
already held was no longer told about changes of its clients and kept
offering outdated requests. A group with an unknown client also stayed in
the specification and made every later add_group() fail.
---
 katcp/resource_client.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/katcp/resource_client.py b/katcp/resource_client.py
index f1b5676..b079068 100644
--- a/katcp/resource_client.py
+++ b/katcp/resource_client.py
@@ -1398,13 +1398,16 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         group_configs = self._resources_spec.get('groups', {})
         groups = AttrDict()
         for group_name, group_client_names in list(group_configs.items()):
-            group_clients = tuple(self.children[resource.escape_name(cn)]
-                                  for cn in group_client_names)
-            group = ClientGroup(group_name, group_clients)
+            group = self._make_group(group_name, group_client_names)
             groups[resource.escape_name(group_name)] = group
 
         self._groups = groups
 
+    def _make_group(self, group_name, group_client_names):
+        group_clients = tuple(self.children[resource.escape_name(cn)]
+                              for cn in group_client_names)
+        return ClientGroup(group_name, group_clients)
+
     def add_group(self, group_name, group_client_names):
         """Add a new :class:`ClientGroup` to container groups member.
 
@@ -1412,10 +1415,12 @@ class KATCPClientResourceContainer(resource.KATCPResource):
         container groups member. From there it will be wrapped appropriately
         in the higher-level thread-safe container.
         """
+        # The other groups stay as they are, their users keep hold of them
+        group = self._make_group(group_name, group_client_names)
         group_configs = self._resources_spec.get('groups', {})
         group_configs[group_name] = group_client_names
         self._resources_spec['groups'] = group_configs
-        self._init_groups()
+        self._groups[resource.escape_name(group_name)] = group
 
     def set_ioloop(self, ioloop=None):
         """Set the tornado ioloop to use
-- 
2.43.0


From faa6fb7c4006e8ecd0fbcaf53deaa8f90ac68102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:30 +0000
Subject: [PATCH 50/51] fix: release everyone who waits for an ioloop manager
 to stop

When stop() was called while an earlier stop() was still running its
callback, the ioloop stopped before the earlier one was done and its
future was never resolved. The same happened to a stop() that came
between the ioloop being stopped and being closed, and one that came
while it was being closed raised RuntimeError.
---
 katcp/ioloop_manager.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/katcp/ioloop_manager.py b/katcp/ioloop_manager.py
index c5ca471..45f4fa6 100644
--- a/katcp/ioloop_manager.py
+++ b/katcp/ioloop_manager.py
@@ -47,6 +47,8 @@ class IOLoopManager(object):
         self._running = threading.Event()
         self._start_lock = threading.Lock()
         self._daemonize = False
+        # Futures of the calls of stop() that are not done yet
+        self._stopping = set()
 
     @property
     def managed(self):
@@ -84,6 +86,10 @@ class IOLoopManager(object):
                 ioloop = self._ioloop
                 self._ioloop = None
                 self._running.clear()
+                # Whoever still waits for a stop() that this ioloop did not get
+                # round to would wait forever
+                for stopped_future in list(self._stopping):
+                    self._release(stopped_future)
                 self._logger.info('Managed tornado IOloop {0} stopped'
                                   .format(ioloop))
 
@@ -145,6 +151,8 @@ class IOLoopManager(object):
             self._running.wait(timeout)
 
         stopped_future = Future()
+        self._stopping.add(stopped_future)
+        stopped_future.add_done_callback(self._stopping.discard)
 
         @gen.coroutine
         def _stop():
@@ -164,12 +172,20 @@ class IOLoopManager(object):
         try:
             self._ioloop.add_callback(
                 lambda: gen.chain_future(_stop(), stopped_future))
-        except AttributeError:
-            # Probably we have been shut-down already
-            stopped_future.set_result(None)
+        except (AttributeError, RuntimeError):
+            # Probably we have been shut-down already, or are about to be
+            self._release(stopped_future)
 
         return stopped_future
 
+    @staticmethod
+    def _release(stopped_future):
+        try:
+            stopped_future.set_result(None)
+        except Exception:
+            # Done already
+            pass
+
     def join(self, timeout=None):
         """Join managed ioloop thread, or do nothing if not managed."""
         if not self._ioloop_managed:
-- 
2.43.0


From a9b45c335e2c055a070656624b9b07d40cd0851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:18 +0000
Subject: [PATCH 51/51] fix: a message name may only have ASCII letters and
 digits

---
 katcp/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/katcp/core.py b/katcp/core.py
index 9650076..faf20c0 100644
--- a/katcp/core.py
+++ b/katcp/core.py
@@ -289,7 +289,8 @@ class Message(object):
 
         if not name:
             raise KatcpSyntaxError("Command missing command name.")
-        if not name.replace("-", "").isalnum():
+        # isalnum() also accepts letters that cannot be sent
+        if not name.replace("-", "").isalnum() or max(name) > '\x7f':
             raise KatcpSyntaxError("Command name should consist only of "
                                    "alphanumeric characters and dashes (got %r)."
                                    % (name,))
-- 
2.43.0

