From 491f97168f3592d85375a71edb464aee7a9f8bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:06 +0000
Subject: [PATCH 01/55] fix: report elapsed HTTP request timeouts as
 TimeoutError

The builtin TimeoutError raised by aiohttp when the total timeout elapses
was not caught, as the name is shadowed by kasa.exceptions.TimeoutError.
Such timeouts surfaced as plain KasaException and were never retried.
---
 kasa/httpclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/httpclient.py b/kasa/httpclient.py
index 31d8dfb..5834444 100644
--- a/kasa/httpclient.py
+++ b/kasa/httpclient.py
@@ -144,7 +144,7 @@ class HttpClient:
             raise _ConnectionError(
                 f"Device connection error: {self._config.host}: {ex}", ex
             ) from ex
-        except (aiohttp.ServerTimeoutError, TimeoutError) as ex:
+        except (aiohttp.ServerTimeoutError, asyncio.TimeoutError) as ex:  # noqa: UP041
             raise TimeoutError(
                 "Unable to query the device, "
                 + f"timed out: {self._config.host}: {ex}",
-- 
2.43.0


From 01a7b9ea6e988749c6c759b17eac20aba2299158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 02/55] fix: report timeouts of the linkie transport as
 TimeoutError

---
 kasa/transports/linkietransport.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kasa/transports/linkietransport.py b/kasa/transports/linkietransport.py
index b817373..5f91d90 100644
--- a/kasa/transports/linkietransport.py
+++ b/kasa/transports/linkietransport.py
@@ -13,7 +13,7 @@ from yarl import URL
 
 from kasa.credentials import DEFAULT_CREDENTIALS, get_default_credentials
 from kasa.deviceconfig import DeviceConfig
-from kasa.exceptions import KasaException, _RetryableError
+from kasa.exceptions import KasaException, TimeoutError, _RetryableError
 from kasa.httpclient import HttpClient
 from kasa.json import loads as json_loads
 from kasa.transports.xortransport import XorEncryption
@@ -123,6 +123,9 @@ class LinkieTransportV2(BaseTransport):
         """Send a message to the device and return a response."""
         try:
             return await self._execute_send(request)
+        except TimeoutError:
+            await self.reset()
+            raise
         except Exception as ex:
             await self.reset()
             raise _RetryableError(
-- 
2.43.0


From c79b9327be967a1b4bb9c7058b119ea3dbd4af30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 03/55] fix: report unknown error codes in the ssl transport as
 DeviceError

---
 kasa/transports/ssltransport.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kasa/transports/ssltransport.py b/kasa/transports/ssltransport.py
index e4fef9a..8c1c9b7 100644
--- a/kasa/transports/ssltransport.py
+++ b/kasa/transports/ssltransport.py
@@ -117,7 +117,14 @@ class SslTransport(BaseTransport):
 
     async def _handle_response_error_code(self, resp_dict: Any, msg: str) -> None:
         """Handle response errors to request reauth etc."""
-        error_code = SmartErrorCode(resp_dict.get("error_code"))  # type: ignore[arg-type]
+        error_code_raw = resp_dict.get("error_code")
+        try:
+            error_code = SmartErrorCode.from_int(error_code_raw)
+        except ValueError:
+            _LOGGER.warning(
+                "Device %s received unknown error code: %s", self._host, error_code_raw
+            )
+            error_code = SmartErrorCode.INTERNAL_UNKNOWN_ERROR
         if error_code == SmartErrorCode.SUCCESS:
             return
 
-- 
2.43.0


From 55927106d04191149665fc06ea6101c6789eefa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:29 +0000
Subject: [PATCH 04/55] fix: keep the error class of a failing login with
 default credentials

---
 kasa/transports/aestransport.py | 4 +---
 kasa/transports/ssltransport.py | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/kasa/transports/aestransport.py b/kasa/transports/aestransport.py
index 45b963f..f29b8f5 100644
--- a/kasa/transports/aestransport.py
+++ b/kasa/transports/aestransport.py
@@ -29,8 +29,6 @@ from kasa.exceptions import (
     DeviceError,
     KasaException,
     SmartErrorCode,
-    TimeoutError,
-    _ConnectionError,
     _RetryableError,
 )
 from kasa.httpclient import HttpClient
@@ -248,7 +246,7 @@ class AesTransport(BaseTransport):
                     "%s: logged in with default TAPO credentials",
                     self._host,
                 )
-            except (AuthenticationError, _ConnectionError, TimeoutError):
+            except KasaException:
                 raise
             except Exception as ex:
                 raise KasaException(
diff --git a/kasa/transports/ssltransport.py b/kasa/transports/ssltransport.py
index 8c1c9b7..1035a6d 100644
--- a/kasa/transports/ssltransport.py
+++ b/kasa/transports/ssltransport.py
@@ -187,7 +187,7 @@ class SslTransport(BaseTransport):
                     "%s: logged in with default credentials",
                     self._host,
                 )
-            except AuthenticationError:
+            except KasaException:
                 raise
             except Exception as ex:
                 raise KasaException(
-- 
2.43.0


From 93561bd06054c9c8fd543cc6de7e37a3ca0b88b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:07 +0000
Subject: [PATCH 05/55] fix: raise KasaException for malformed responses

---
 kasa/protocols/iotprotocol.py   | 11 +++++++++++
 kasa/protocols/smartprotocol.py | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/kasa/protocols/iotprotocol.py b/kasa/protocols/iotprotocol.py
index 7ca02e0..08c0870 100755
--- a/kasa/protocols/iotprotocol.py
+++ b/kasa/protocols/iotprotocol.py
@@ -132,6 +132,17 @@ class IotProtocol(BaseProtocol):
                     ex,
                 )
                 raise ex
+            except Exception as ex:
+                # Malformed or unexpected response from the device
+                await self._transport.reset()
+                _LOGGER.debug(
+                    "Unexpected response from the device: %s, not retrying: %s",
+                    self._host,
+                    ex,
+                )
+                raise KasaException(
+                    f"Unexpected response from the device: {self._host}: {ex!r}", ex
+                ) from ex
 
         # make mypy happy, this should never be reached..
         raise KasaException("Query reached somehow to unreachable")
diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 5539de7..b312a29 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -194,6 +194,17 @@ class SmartProtocol(BaseProtocol):
                     ex,
                 )
                 raise ex
+            except Exception as ex:
+                # Malformed or unexpected response from the device
+                await self._transport.reset()
+                _LOGGER.debug(
+                    "Unexpected response from the device: %s, not retrying: %s",
+                    self._host,
+                    ex,
+                )
+                raise KasaException(
+                    f"Unexpected response from the device: {self._host}: {ex!r}", ex
+                ) from ex
 
         # make mypy happy, this should never be reached..
         raise KasaException("Query reached somehow to unreachable")
-- 
2.43.0


From 300a075caaebe74c4b5363a53d7b72e3bf293cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:23 +0000
Subject: [PATCH 06/55] fix: raise KasaException for malformed child responses

---
 kasa/protocols/smartcamprotocol.py | 10 +++++++++-
 kasa/protocols/smartprotocol.py    | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/kasa/protocols/smartcamprotocol.py b/kasa/protocols/smartcamprotocol.py
index 9bf40f7..0ba9e6d 100644
--- a/kasa/protocols/smartcamprotocol.py
+++ b/kasa/protocols/smartcamprotocol.py
@@ -217,7 +217,15 @@ class _ChildCameraProtocolWrapper(SmartProtocol):
 
     async def query(self, request: str | dict, retry_count: int = 3) -> dict:
         """Wrap request inside controlChild envelope."""
-        return await self._query(request, retry_count)
+        try:
+            return await self._query(request, retry_count)
+        except KasaException:
+            raise
+        except Exception as ex:
+            # Malformed or unexpected response from the device
+            raise KasaException(
+                f"Unexpected response from the device: {self._host}: {ex!r}", ex
+            ) from ex
 
     async def _query(self, request: str | dict, retry_count: int = 3) -> dict:
         """Wrap request inside controlChild envelope."""
diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index b312a29..0079121 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -493,7 +493,15 @@ class _ChildProtocolWrapper(SmartProtocol):
 
     async def query(self, request: str | dict, retry_count: int = 3) -> dict:
         """Wrap request inside control_child envelope."""
-        return await self._query(request, retry_count)
+        try:
+            return await self._query(request, retry_count)
+        except KasaException:
+            raise
+        except Exception as ex:
+            # Malformed or unexpected response from the device
+            raise KasaException(
+                f"Unexpected response from the device: {self._host}: {ex!r}", ex
+            ) from ex
 
     async def _query(self, request: str | dict, retry_count: int = 3) -> dict:
         """Wrap request inside control_child envelope."""
-- 
2.43.0


From f39c250156f5150d47bf11db84c1fb7d063d391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:23 +0000
Subject: [PATCH 07/55] fix: report errors of the hub itself for camera hub
 children

---
 kasa/protocols/smartcamprotocol.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kasa/protocols/smartcamprotocol.py b/kasa/protocols/smartcamprotocol.py
index 0ba9e6d..d6e3148 100644
--- a/kasa/protocols/smartcamprotocol.py
+++ b/kasa/protocols/smartcamprotocol.py
@@ -257,8 +257,15 @@ class _ChildCameraProtocolWrapper(SmartProtocol):
         raise_on_error = len(requests) == 1
 
         for index_id, response in enumerate(responses):
-            response_data = response["result"]["response_data"]
             method = methods[index_id]
+            if response.get("error_code"):
+                # The hub was not able to forward the request to the child
+                self._handle_response_error_code(
+                    response, method, raise_on_error=raise_on_error
+                )
+                response_dict[method] = response["result"]
+                continue
+            response_data = response["result"]["response_data"]
             self._handle_response_error_code(
                 response_data, method, raise_on_error=raise_on_error
             )
-- 
2.43.0


From b4e2bc55e7b1e406df58931b50b205c2c706a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:56 +0000
Subject: [PATCH 08/55] fix: do not send a stale token with the login request
 of the ssl transport

---
 kasa/transports/ssltransport.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kasa/transports/ssltransport.py b/kasa/transports/ssltransport.py
index 1035a6d..0e46908 100644
--- a/kasa/transports/ssltransport.py
+++ b/kasa/transports/ssltransport.py
@@ -227,6 +227,8 @@ class SslTransport(BaseTransport):
         _LOGGER.debug("Going to send %s", request)
         if self._state is not TransportState.ESTABLISHED or self._session_expired():
             _LOGGER.debug("Transport not established or session expired, logging in")
+            # Make sure not to send a stale token with the login request
+            await self.reset()
             await self.perform_login()
 
         return await self.send_request(request)
-- 
2.43.0


From 65d8657cb6cd4aba07467c8b9141eb5bc197ac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:54 +0000
Subject: [PATCH 09/55] fix: keep the gap between requests after cancelled and
 failed requests

---
 kasa/httpclient.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kasa/httpclient.py b/kasa/httpclient.py
index 5834444..bef0a61 100644
--- a/kasa/httpclient.py
+++ b/kasa/httpclient.py
@@ -140,7 +140,6 @@ class HttpClient:
                     ex,
                 )
                 self._wait_between_requests = self.WAIT_BETWEEN_REQUESTS_ON_OSERROR
-            self._last_request_time = time.monotonic()
             raise _ConnectionError(
                 f"Device connection error: {self._config.host}: {ex}", ex
             ) from ex
@@ -154,10 +153,10 @@ class HttpClient:
             raise KasaException(
                 f"Unable to query the device: {self._config.host}: {ex}", ex
             ) from ex
-
-        # For performance only request system time if waiting is enabled
-        if self._wait_between_requests:
-            self._last_request_time = time.monotonic()
+        finally:
+            # For performance only request system time if waiting is enabled
+            if self._wait_between_requests:
+                self._last_request_time = time.monotonic()
 
         return resp.status, response_data
 
-- 
2.43.0


From 515a7d2185e02b891c787a28590e234f59be3b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:05 +0000
Subject: [PATCH 10/55] fix: do not let packets from other ports block
 discovery responses

---
 kasa/discover.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index 8e2b981..591ce61 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -345,6 +345,9 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
             assert _AesDiscoveryQuery.keypair
 
         ip, port = addr
+        # Ignore packets that are not discovery responses
+        if port not in {self.discovery_port, Discover.DISCOVERY_PORT_2}:
+            return
         # Prevent multiple entries due multiple broadcasts
         if ip in self.seen_hosts:
             return
@@ -361,11 +364,9 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
             if port == self.discovery_port:
                 json_func = Discover._get_discovery_json_legacy
                 device_func = Discover._get_device_instance_legacy
-            elif port == Discover.DISCOVERY_PORT_2:
+            else:
                 json_func = Discover._get_discovery_json
                 device_func = Discover._get_device_instance
-            else:
-                return
             info = json_func(data, ip)
             if self.on_discovered_raw is not None:
                 self.on_discovered_raw(
-- 
2.43.0


From 00e3199a97d1866a9c1d8affde10422d130bd360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:55 +0000
Subject: [PATCH 11/55] fix: report malformed and camera discovery responses as
 errors

---
 kasa/device_factory.py | 7 ++++++-
 kasa/discover.py       | 9 ++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/kasa/device_factory.py b/kasa/device_factory.py
index ecb0d0a..3d0c343 100644
--- a/kasa/device_factory.py
+++ b/kasa/device_factory.py
@@ -142,7 +142,12 @@ def get_device_class_from_sys_info(sysinfo: dict[str, Any]) -> type[IotDevice]:
         # Disabled until properly implemented
         # DeviceType.Camera: IotCamera,
     }
-    return TYPE_TO_CLASS[IotDevice._get_device_type_from_sys_info(sysinfo)]
+    device_type = IotDevice._get_device_type_from_sys_info(sysinfo)
+    if (cls := TYPE_TO_CLASS.get(device_type)) is None:
+        raise UnsupportedDeviceError(
+            f"Unsupported device type: {device_type.name}", discovery_result=sysinfo
+        )
+    return cls
 
 
 def get_device_class_from_family(
diff --git a/kasa/discover.py b/kasa/discover.py
index 591ce61..eaa5171 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -375,7 +375,14 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
                         "meta": {"ip": ip, "port": port},
                     }
                 )
-            device = device_func(info, config)
+            try:
+                device = device_func(info, config)
+            except KasaException:
+                raise
+            except Exception as ex:
+                raise KasaException(
+                    f"Unable to read response from device: {ip}: {ex}"
+                ) from ex
         except UnsupportedDeviceError as udex:
             _LOGGER.debug("Unsupported device found at %s << %s", ip, udex)
             self.unsupported_device_exceptions[ip] = udex
-- 
2.43.0


From 8cdcf0e500ca326c922bf9945c9f7ff76b4bd276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:55 +0000
Subject: [PATCH 12/55] fix: clean up and honour cancellation when discovery
 fails or is cancelled

---
 kasa/discover.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index eaa5171..10cb735 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -288,18 +288,26 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
         # Give some time for connection_made event to be received
         async with asyncio_timeout(self.DISCOVERY_START_TIMEOUT):
             await self._started_event.wait()
-        try:
-            if TYPE_CHECKING:
-                assert isinstance(self.discover_task, asyncio.Task)
-
+        if TYPE_CHECKING:
+            assert isinstance(self.discover_task, asyncio.Task)
+        await asyncio.wait([self.discover_task])
+        # if target_discovered then cancel was called internally
+        if not self.target_discovered:
             await self.discover_task
-        except asyncio.CancelledError:
-            # if target_discovered then cancel was called internally
-            if not self.target_discovered:
-                raise
         # Wait for any pending callbacks to complete
         await asyncio.gather(*self.callback_tasks)
 
+    async def cancel(self) -> None:
+        """Cancel the discovery and close all devices found so far."""
+        tasks = [*self.callback_tasks]
+        if self.discover_task:
+            tasks.append(self.discover_task)
+        for task in tasks:
+            task.cancel()
+        await asyncio.gather(*tasks, return_exceptions=True)
+        for device in self.discovered_devices.values():
+            await device.protocol.close()
+
     def connection_made(self, transport: DatagramTransport) -> None:  # type: ignore[override]
         """Set socket options for broadcasting."""
         self.transport = cast(DatagramTransport, transport)
@@ -507,10 +515,10 @@ class Discover:
         try:
             _LOGGER.debug("Waiting %s seconds for responses...", discovery_timeout)
             await protocol.wait_for_discovery_to_complete()
-        except (KasaException, asyncio.CancelledError) as ex:
-            for device in protocol.discovered_devices.values():
-                await device.protocol.close()
-            raise ex
+        except BaseException:
+            transport.close()
+            await protocol.cancel()
+            raise
         finally:
             transport.close()
 
@@ -596,6 +604,10 @@ class Discover:
                 "Waiting a total of %s seconds for responses...", discovery_timeout
             )
             await protocol.wait_for_discovery_to_complete()
+        except BaseException:
+            transport.close()
+            await protocol.cancel()
+            raise
         finally:
             transport.close()
 
-- 
2.43.0


From 29113e6985dade8b740bc2db09a979542b2e8267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:59 +0000
Subject: [PATCH 13/55] fix: do not return from discovery before the callbacks
 of all devices completed

---
 kasa/discover.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kasa/discover.py b/kasa/discover.py
index 10cb735..5328572 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -356,6 +356,9 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
         # Ignore packets that are not discovery responses
         if port not in {self.discovery_port, Discover.DISCOVERY_PORT_2}:
             return
+        # Ignore late responses while waiting for the callbacks to complete
+        if self.discover_task and self.discover_task.done():
+            return
         # Prevent multiple entries due multiple broadcasts
         if ip in self.seen_hosts:
             return
-- 
2.43.0


From a4abb3db9074133ffdcac177c3e9de48269f8447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:57 +0000
Subject: [PATCH 14/55] fix: return every part of multi-part queries complete

Lists of individually sent requests are paged, methods that cannot be
batched are sent with batching disabled, an error on a later page or of an
individually sent method only concerns that method, and methods following
a failing one are requested for child devices, too.
---
 kasa/protocols/smartprotocol.py | 129 ++++++++++++++++++++++----------
 1 file changed, 90 insertions(+), 39 deletions(-)

diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 0079121..a7f7d3b 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -216,11 +216,10 @@ class SmartProtocol(BaseProtocol):
         multi_result: dict[str, Any] = {}
         smart_method = "multipleRequest"
 
-        end = len(requests)
         # The SmartCamProtocol sends requests with a length 1 as a
         # multipleRequest. The SmartProtocol doesn't so will never
         # raise_on_error
-        raise_on_error = end == 1
+        raise_on_error = len(requests) == 1
 
         multi_requests = [
             {"method": method, "params": params} if params else {"method": method}
@@ -231,16 +230,10 @@ class SmartProtocol(BaseProtocol):
         # Break the requests down as there can be a size limit
         step = self._multi_request_batch_size
         if step == 1:
-            # If step is 1 do not send request batches
-            for request in multi_requests:
-                method = request["method"]
-                req = self.get_smart_request(method, request.get("params"))
-                resp = await self._transport.send(req)
-                self._handle_response_error_code(
-                    resp, method, raise_on_error=raise_on_error
-                )
-                multi_result[method] = resp["result"]
-            return multi_result
+            # If step is 1 do not send request batches, all requests will be
+            # queried individually
+            multi_requests = []
+        end = len(multi_requests)
 
         for batch_num, i in enumerate(range(0, end, step)):
             requests_step = multi_requests[i : i + step]
@@ -255,19 +248,19 @@ class SmartProtocol(BaseProtocol):
                     batch_name,
                     pf(smart_request),
                 )
-            response_step = await self._transport.send(smart_request)
-            if debug_enabled:
-                if self._redact_data:
-                    data = redact_data(response_step, REDACTORS)
-                else:
-                    data = response_step
-                _LOGGER.debug(
-                    "%s %s << %s",
-                    self._host,
-                    batch_name,
-                    pf(data),
-                )
             try:
+                response_step = await self._transport.send(smart_request)
+                if debug_enabled:
+                    if self._redact_data:
+                        data = redact_data(response_step, REDACTORS)
+                    else:
+                        data = response_step
+                    _LOGGER.debug(
+                        "%s %s << %s",
+                        self._host,
+                        batch_name,
+                        pf(data),
+                    )
                 self._handle_response_error_code(response_step, batch_name)
             except DeviceError as ex:
                 # P100 sometimes raises JSON_DECODE_FAIL_ERROR or INTERNAL_UNKNOWN_ERROR
@@ -302,30 +295,71 @@ class SmartProtocol(BaseProtocol):
                     # These will end up being queried individually
                     continue
 
-                self._handle_response_error_code(
-                    response, method, raise_on_error=raise_on_error
-                )
-                result = response.get("result", None)
                 request_params = rp if (rp := requests.get(method)) else None
-                if iterate_list_pages and result:
-                    await self._handle_response_lists(
-                        result, method, request_params, retry_count=retry_count
-                    )
-                multi_result[method] = result
+                multi_result[method] = await self._get_multi_result(
+                    response,
+                    method,
+                    request_params,
+                    retry_count=retry_count,
+                    iterate_list_pages=iterate_list_pages,
+                    raise_on_error=raise_on_error,
+                )
 
         # Multi requests don't continue after errors so requery any missing.
         # Will also query individually any DO_NOT_SEND_AS_MULTI_REQUEST.
         for method, params in requests.items():
             if method not in multi_result:
-                resp = await self._transport.send(
-                    self.get_smart_request(method, params)
-                )
-                self._handle_response_error_code(
-                    resp, method, raise_on_error=raise_on_error
+                try:
+                    resp = await self._transport.send(
+                        self.get_smart_request(method, params)
+                    )
+                except (_RetryableError, AuthenticationError):
+                    raise
+                except DeviceError as ex:
+                    # Transports without an outer envelope raise errors of methods
+                    if raise_on_error or ex.error_code is None:
+                        raise
+                    multi_result[method] = ex.error_code
+                    continue
+                multi_result[method] = await self._get_multi_result(
+                    resp,
+                    method,
+                    params,
+                    retry_count=retry_count,
+                    iterate_list_pages=iterate_list_pages,
+                    raise_on_error=raise_on_error,
                 )
-                multi_result[method] = resp.get("result")
         return multi_result
 
+    async def _get_multi_result(
+        self,
+        response: dict,
+        method: str,
+        params: dict | None,
+        *,
+        retry_count: int,
+        iterate_list_pages: bool,
+        raise_on_error: bool,
+    ) -> Any:
+        """Return the complete result, or the error code, of one of many requests."""
+        self._handle_response_error_code(
+            response, method, raise_on_error=raise_on_error
+        )
+        result = response.get("result")
+        if iterate_list_pages and result:
+            try:
+                await self._handle_response_lists(
+                    result, method, params, retry_count=retry_count
+                )
+            except (_RetryableError, AuthenticationError):
+                raise
+            except DeviceError as ex:
+                # An error on a later page only concerns this request
+                if raise_on_error or ex.error_code is None:
+                    raise
+                return ex.error_code
+        return result
+
     async def _execute_query(
         self, request: str | dict, *, retry_count: int, iterate_list_pages: bool = True
     ) -> dict:
@@ -530,11 +564,28 @@ class _ChildProtocolWrapper(SmartProtocol):
                         multi_response, method, raise_on_error=False
                     )
                     ret_val[method] = multi_response.get("result")
+                await self._query_missing(request, ret_val, retry_count)
                 return ret_val
 
             self._handle_response_error_code(response_data, "control_child")
 
         return {method: result}
 
+    async def _query_missing(
+        self, request: str | dict, ret_val: dict[str, Any], retry_count: int
+    ) -> None:
+        """Query methods not answered as multi requests don't continue after errors."""
+        if not isinstance(request, dict) or len(request) == 1:
+            return
+        for method, params in request.items():
+            if method in ret_val:
+                continue
+            try:
+                ret_val.update(await self._query({method: params}, retry_count))
+            except DeviceError as ex:
+                if ex.error_code is None:
+                    raise
+                ret_val[method] = ex.error_code
+
     async def close(self) -> None:
         """Do nothing as the parent owns the protocol."""
-- 
2.43.0


From eaeb31dc06439e3370b74ff16456b78394d39b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:04 +0000
Subject: [PATCH 15/55] fix: probe both login versions when trying all
 connection variants

---
 kasa/discover.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index 5328572..99f683f 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -131,7 +131,11 @@ from kasa.json import dumps as json_dumps
 from kasa.json import loads as json_loads
 from kasa.protocols.iotprotocol import REDACTORS as IOT_REDACTORS
 from kasa.protocols.protocol import mask_mac, redact_data
-from kasa.transports.aestransport import AesEncyptionSession, KeyPair
+from kasa.transports.aestransport import (
+    AesEncyptionSession,
+    AesTransport,
+    KeyPair,
+)
 from kasa.transports.xortransport import XorEncryption
 
 _LOGGER = logging.getLogger(__name__)
@@ -662,10 +666,19 @@ class Discover:
             Device.Family.IotIpCamera,
         }
         candidates: dict[
-            tuple[type[BaseProtocol], type[BaseTransport], type[Device], bool],
+            tuple[
+                type[BaseProtocol], type[BaseTransport], type[Device], bool, int | None
+            ],
             tuple[BaseProtocol, DeviceConfig],
         ] = {
-            (type(protocol), type(protocol._transport), device_class, https): (
+            (
+                type(protocol),
+                type(protocol._transport),
+                device_class,
+                https,
+                # Only the login of the AesTransport depends on the login version
+                login_version if type(protocol._transport) is AesTransport else None,
+            ): (
                 protocol,
                 config,
             )
@@ -710,11 +723,11 @@ class Discover:
                     ex,
                 )
                 if on_attempt:
-                    ca = tuple.__new__(ConnectAttempt, key)
+                    ca = tuple.__new__(ConnectAttempt, key[:4])
                     on_attempt(ca, False)
             else:
                 if on_attempt:
-                    ca = tuple.__new__(ConnectAttempt, key)
+                    ca = tuple.__new__(ConnectAttempt, key[:4])
                     on_attempt(ca, True)
                 _LOGGER.debug("Found working protocol %s", prot.__class__.__name__)
                 return dev
-- 
2.43.0


From 226c08bdf7b03a2b60eab87c1e461b7b62c72896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:51 +0000
Subject: [PATCH 16/55] fix: end active queries when the connection is closed

---
 kasa/exceptions.py                 |  4 ++++
 kasa/protocols/iotprotocol.py      |  5 ++--
 kasa/protocols/protocol.py         | 38 +++++++++++++++++++++++++++++-
 kasa/protocols/smartcamprotocol.py |  2 +-
 kasa/protocols/smartprotocol.py    |  5 ++--
 kasa/smart/smartchilddevice.py     |  3 +++
 kasa/smart/smartdevice.py          | 12 +++++++++-
 7 files changed, 60 insertions(+), 9 deletions(-)

diff --git a/kasa/exceptions.py b/kasa/exceptions.py
index 1c764ad..4ab0f4a 100644
--- a/kasa/exceptions.py
+++ b/kasa/exceptions.py
@@ -26,6 +26,10 @@ class _ConnectionError(KasaException):
     """Connection exception for device errors."""
 
 
+class _ClosedError(KasaException):
+    """Exception for queries ended by closing the connection."""
+
+
 class UnsupportedDeviceError(KasaException):
     """Exception for trying to connect to unsupported devices."""
 
diff --git a/kasa/protocols/iotprotocol.py b/kasa/protocols/iotprotocol.py
index 08c0870..3869751 100755
--- a/kasa/protocols/iotprotocol.py
+++ b/kasa/protocols/iotprotocol.py
@@ -70,7 +70,6 @@ class IotProtocol(BaseProtocol):
         """Create a protocol object."""
         super().__init__(transport=transport)
 
-        self._query_lock = asyncio.Lock()
         self._redact_data = True
 
     async def query(self, request: str | dict, retry_count: int = 3) -> dict:
@@ -79,7 +78,7 @@ class IotProtocol(BaseProtocol):
             request = json_dumps(request)
             assert isinstance(request, str)  # noqa: S101
 
-        async with self._query_lock:
+        async with self._query_context():
             return await self._query(request, retry_count)
 
     async def _query(self, request: str, retry_count: int = 3) -> dict:
@@ -169,7 +168,7 @@ class IotProtocol(BaseProtocol):
 
     async def close(self) -> None:
         """Close the underlying transport."""
-        await self._transport.close()
+        await self._close()
 
 
 class _deprecated_TPLinkSmartHomeProtocol(IotProtocol):
diff --git a/kasa/protocols/protocol.py b/kasa/protocols/protocol.py
index fb09b88..cb3a67c 100755
--- a/kasa/protocols/protocol.py
+++ b/kasa/protocols/protocol.py
@@ -12,15 +12,18 @@ http://www.apache.org/licenses/LICENSE-2.0
 
 from __future__ import annotations
 
+import asyncio
 import errno
 import hashlib
 import logging
 import struct
 from abc import ABC, abstractmethod
-from collections.abc import Callable
+from collections.abc import AsyncIterator, Callable
+from contextlib import asynccontextmanager
 from typing import TYPE_CHECKING, Any, TypeVar, cast
 
 from ..deviceconfig import DeviceConfig
+from ..exceptions import _ClosedError
 
 _LOGGER = logging.getLogger(__name__)
 _NO_RETRY_ERRORS = {errno.EHOSTDOWN, errno.EHOSTUNREACH, errno.ECONNREFUSED}
@@ -88,6 +91,39 @@ class BaseProtocol(ABC):
     ) -> None:
         """Create a protocol object."""
         self._transport = transport
+        self._query_lock = asyncio.Lock()
+        self._active_queries: set[asyncio.Timeout] = set()
+
+    @asynccontextmanager
+    async def _query_context(self) -> AsyncIterator[None]:
+        """Serialize the queries and end them when the protocol gets closed."""
+        try:
+            async with asyncio.timeout(None) as active:
+                self._active_queries.add(active)
+                try:
+                    async with self._query_lock:
+                        yield
+                finally:
+                    self._active_queries.discard(active)
+        except asyncio.TimeoutError as ex:  # noqa: UP041
+            if not active.expired():
+                raise
+            raise _ClosedError(f"Connection to {self._host} was closed") from ex
+
+    async def _close(self) -> None:
+        """End all active queries and close the transport."""
+        self._end_active_queries()
+        try:
+            # Wait until the active queries ended
+            async with self._query_lock:
+                # Calls whose query completed meanwhile may have started the next one
+                self._end_active_queries()
+        finally:
+            await self._transport.close()
+
+    def _end_active_queries(self) -> None:
+        while self._active_queries:
+            self._active_queries.pop().reschedule(0)
 
     @property
     def _host(self) -> str:
diff --git a/kasa/protocols/smartcamprotocol.py b/kasa/protocols/smartcamprotocol.py
index d6e3148..7ef69cd 100644
--- a/kasa/protocols/smartcamprotocol.py
+++ b/kasa/protocols/smartcamprotocol.py
@@ -89,7 +89,7 @@ class SmartCamProtocol(SmartProtocol):
 
     async def close(self) -> None:
         """Close the underlying transport."""
-        await self._transport.close()
+        await self._close()
 
     @staticmethod
     def _get_smart_camera_single_request(
diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index a7f7d3b..11ca146 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -111,7 +111,6 @@ class SmartProtocol(BaseProtocol):
         """Create a protocol object."""
         super().__init__(transport=transport)
         self._terminal_uuid: str = base64.b64encode(md5(uuid.uuid4().bytes)).decode()
-        self._query_lock = asyncio.Lock()
         self._multi_request_batch_size = (
             self._transport._config.batch_size or self.DEFAULT_MULTI_REQUEST_BATCH_SIZE
         )
@@ -131,7 +130,7 @@ class SmartProtocol(BaseProtocol):
 
     async def query(self, request: str | dict, retry_count: int = 3) -> dict:
         """Query the device retrying for retry_count on failure."""
-        async with self._query_lock:
+        async with self._query_context():
             return await self._query(request, retry_count)
 
     async def _query(self, request: str | dict, retry_count: int = 3) -> dict:
@@ -482,7 +481,7 @@ class SmartProtocol(BaseProtocol):
 
     async def close(self) -> None:
         """Close the underlying transport."""
-        await self._transport.close()
+        await self._close()
 
 
 class _ChildProtocolWrapper(SmartProtocol):
diff --git a/kasa/smart/smartchilddevice.py b/kasa/smart/smartchilddevice.py
index 3f730f0..a1b3def 100644
--- a/kasa/smart/smartchilddevice.py
+++ b/kasa/smart/smartchilddevice.py
@@ -9,6 +9,7 @@ from typing import Any
 from ..device import DeviceInfo
 from ..device_type import DeviceType
 from ..deviceconfig import DeviceConfig
+from ..exceptions import _ClosedError
 from ..protocols.smartprotocol import SmartProtocol, _ChildProtocolWrapper
 from .smartdevice import ComponentsRaw, SmartDevice
 from .smartmodule import SmartModule
@@ -97,6 +98,8 @@ class SmartChildDevice(SmartDevice):
             first_update = self._last_update != {}
             try:
                 resp = await self.protocol.query(req)
+            except _ClosedError:
+                raise
             except Exception as ex:
                 resp = await self._handle_modular_update_error(
                     ex, first_update, ", ".join(mod.name for mod in module_queries), req
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 2e2dc7c..d124af6 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -13,7 +13,13 @@ from typing import TYPE_CHECKING, Any, TypeAlias, cast
 from ..device import Device, DeviceInfo, WifiNetwork
 from ..device_type import DeviceType
 from ..deviceconfig import DeviceConfig
-from ..exceptions import AuthenticationError, DeviceError, KasaException, SmartErrorCode
+from ..exceptions import (
+    AuthenticationError,
+    DeviceError,
+    KasaException,
+    SmartErrorCode,
+    _ClosedError,
+)
 from ..feature import Feature
 from ..module import Module
 from ..modulemapping import ModuleMapping, ModuleName
@@ -347,6 +353,8 @@ class SmartDevice(Device):
 
         try:
             resp = await self.protocol.query(req)
+        except _ClosedError:
+            raise
         except Exception as ex:
             resp = await self._handle_modular_update_error(
                 ex, first_update, ", ".join(mod.name for mod in module_queries), req
@@ -390,6 +398,8 @@ class SmartDevice(Device):
             try:
                 resp = await self.protocol.query({meth: params})
                 responses[meth] = resp[meth]
+            except _ClosedError:
+                raise
             except Exception as iex:
                 _LOGGER.error(
                     "Error querying %s individually for module query '%s' %s: %s",
-- 
2.43.0


From 973ef1626b36fa42887f5a86b11c1f4bb8d77864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:09 +0000
Subject: [PATCH 17/55] fix: keep module data of strip sockets apart

---
 kasa/iot/iotdevice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index d1de7f9..fcf7611 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -430,7 +430,9 @@ class IotDevice(Device):
                 # {'err_code': -1, 'err_msg': 'module not support'}
                 # become top level key/values of the response so check for dict
                 if isinstance(v, dict):
-                    update.setdefault(k, {}).update(**v)
+                    # Create a new dict as the existing one may be shared with
+                    # the parent or child devices.
+                    update[k] = {**update.get(k, {}), **v}
         self._last_update = update
 
         # IOT modules are added as default but could be unsupported post first update
-- 
2.43.0


From 548e7742637192e167a1995572980e49bb31f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:22 +0000
Subject: [PATCH 18/55] fix: derive the charging state of cameras from the
 charging field

---
 kasa/smartcam/modules/battery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smartcam/modules/battery.py b/kasa/smartcam/modules/battery.py
index d6bd97f..083cfdc 100644
--- a/kasa/smartcam/modules/battery.py
+++ b/kasa/smartcam/modules/battery.py
@@ -110,4 +110,4 @@ class Battery(SmartCamModule):
     @property
     def battery_charging(self) -> bool:
         """Return True if battery is charging."""
-        return self._device.sys_info["battery_voltage"] != "NO"
+        return self._device.sys_info["battery_charging"] != "NO"
-- 
2.43.0


From 6638f8de5346fd40e84a27c00e2b6b08a15bfc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 19/55] fix: report the model of child devices without own
 queries

---
 kasa/smart/smartchilddevice.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kasa/smart/smartchilddevice.py b/kasa/smart/smartchilddevice.py
index a1b3def..adbdb48 100644
--- a/kasa/smart/smartchilddevice.py
+++ b/kasa/smart/smartchilddevice.py
@@ -69,6 +69,14 @@ class SmartChildDevice(SmartDevice):
             None,
         )
 
+    @property
+    def model(self) -> str:
+        """Returns the device model.
+
+        Child devices without module queries do not have _last_update set.
+        """
+        return str(self._info.get("model"))
+
     async def update(self, update_children: bool = True) -> None:
         """Update child module info.
 
-- 
2.43.0


From fd673cc50b92b3ffe2b8985bc232cc53efd2e462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:57 +0000
Subject: [PATCH 20/55] fix: end active queries in the order they began

---
 kasa/protocols/protocol.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/kasa/protocols/protocol.py b/kasa/protocols/protocol.py
index cb3a67c..d727624 100755
--- a/kasa/protocols/protocol.py
+++ b/kasa/protocols/protocol.py
@@ -92,19 +92,19 @@ class BaseProtocol(ABC):
         """Create a protocol object."""
         self._transport = transport
         self._query_lock = asyncio.Lock()
-        self._active_queries: set[asyncio.Timeout] = set()
+        self._active_queries: dict[asyncio.Timeout, None] = {}
 
     @asynccontextmanager
     async def _query_context(self) -> AsyncIterator[None]:
         """Serialize the queries and end them when the protocol gets closed."""
         try:
             async with asyncio.timeout(None) as active:
-                self._active_queries.add(active)
+                self._active_queries[active] = None
                 try:
                     async with self._query_lock:
                         yield
                 finally:
-                    self._active_queries.discard(active)
+                    self._active_queries.pop(active, None)
         except asyncio.TimeoutError as ex:  # noqa: UP041
             if not active.expired():
                 raise
@@ -122,8 +122,9 @@ class BaseProtocol(ABC):
             await self._transport.close()
 
     def _end_active_queries(self) -> None:
-        while self._active_queries:
-            self._active_queries.pop().reschedule(0)
+        for active in self._active_queries:
+            active.reschedule(0)
+        self._active_queries.clear()
 
     @property
     def _host(self) -> str:
-- 
2.43.0


From 20d91a60c1c5c61701106a497a7ef2702f8a39c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:26 +0000
Subject: [PATCH 21/55] fix: convert numeric alarm volume levels for the device

---
 kasa/smart/modules/alarm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kasa/smart/modules/alarm.py b/kasa/smart/modules/alarm.py
index cd60218..267df59 100644
--- a/kasa/smart/modules/alarm.py
+++ b/kasa/smart/modules/alarm.py
@@ -171,9 +171,8 @@ class Alarm(SmartModule, AlarmInterface):
         self, volume: AlarmVolume | int
     ) -> Annotated[dict, FeatureAttribute()]:
         """Set alarm volume."""
-        self._check_and_convert_volume(volume)
         payload = self.data["get_alarm_configure"].copy()
-        payload["volume"] = volume
+        payload["volume"] = self._check_and_convert_volume(volume)
         return await self.call("set_alarm_configure", payload)
 
     @property
-- 
2.43.0


From 73dc06026f182bd62aa6a148ffe38b6ed2300db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:38 +0000
Subject: [PATCH 22/55] fix: take the active light effect of bulbs from sysinfo

---
 kasa/smart/modules/lighteffect.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/lighteffect.py b/kasa/smart/modules/lighteffect.py
index 96135de..ee9f634 100644
--- a/kasa/smart/modules/lighteffect.py
+++ b/kasa/smart/modules/lighteffect.py
@@ -120,7 +120,11 @@ class LightEffect(SmartModule, SmartLightEffect):
         If *effect_id* is None, return the data for active effect.
         """
         if effect_id is None:
-            effect_id = self.data["current_rule_id"]
+            # The rules are queried rarely so prefer the always up to date sysinfo
+            effect_id = (
+                self._device._info.get("dynamic_light_effect_id")
+                or self.data["current_rule_id"]
+            )
 
         return self._effect_state_list[effect_id]
 
-- 
2.43.0


From f0341ca41af87097e37628cf39c9074bc8c18db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:38 +0000
Subject: [PATCH 23/55] fix: keep the stored name of a light effect when
 setting its brightness

---
 kasa/smart/modules/lighteffect.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kasa/smart/modules/lighteffect.py b/kasa/smart/modules/lighteffect.py
index ee9f634..8c6b3d5 100644
--- a/kasa/smart/modules/lighteffect.py
+++ b/kasa/smart/modules/lighteffect.py
@@ -160,6 +160,12 @@ class LightEffect(SmartModule, SmartLightEffect):
             for state in new_effect["color_status_list"]
         ]
         new_effect["color_status_list"] = new_color_status_list
+        # Send the scene name unchanged, i.e. as encoded by the device
+        new_effect["scene_name"] = next(
+            effect["scene_name"]
+            for effect in self.data["rule_list"]
+            if effect["id"] == new_effect["id"]
+        )
 
         return await self.call("edit_dynamic_light_effect_rule", new_effect)
 
-- 
2.43.0


From 146ed901002112f26aed458eee820550547e8d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:45 +0000
Subject: [PATCH 24/55] fix: refresh the system information of strip sockets on
 update

---
 kasa/iot/iotstrip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index a63b3e1..47eb6ea 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -142,6 +142,9 @@ class IotStrip(IotDevice):
             }
             for child in self._children.values():
                 await child._initialize_modules()
+        else:
+            for plug in self._children.values():
+                plug._set_sys_info(self.sys_info)
 
         if update_children:
             for plug in self.children:
-- 
2.43.0


From 6177ca627751f9a89ecf357c009b7c781f8689de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:04 +0000
Subject: [PATCH 25/55] fix: switch all sockets of a strip irrespective of
 their last known state

---
 kasa/iot/iotstrip.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index 47eb6ea..c28742b 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -164,16 +164,15 @@ class IotStrip(IotDevice):
 
     async def turn_on(self, **kwargs) -> dict:
         """Turn the strip on."""
+        # The state of the plugs may have changed since the last update
         for plug in self.children:
-            if plug.is_off:
-                await plug.turn_on()
+            await plug.turn_on()
         return {}
 
     async def turn_off(self, **kwargs) -> dict:
         """Turn the strip off."""
         for plug in self.children:
-            if plug.is_on:
-                await plug.turn_off()
+            await plug.turn_off()
         return {}
 
     @property  # type: ignore
-- 
2.43.0


From fd0b8fd5e987304a09d3536d4613aab865cb76a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:29 +0000
Subject: [PATCH 26/55] fix: save light presets at their position on the device

---
 kasa/iot/modules/lightpreset.py   |  3 ++-
 kasa/smart/modules/lightpreset.py | 13 ++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/kasa/iot/modules/lightpreset.py b/kasa/iot/modules/lightpreset.py
index 3330af6..add6ee1 100644
--- a/kasa/iot/modules/lightpreset.py
+++ b/kasa/iot/modules/lightpreset.py
@@ -134,7 +134,8 @@ class LightPreset(IotModule, LightPresetInterface):
         if preset_name not in self._presets:
             raise ValueError(f"{preset_name} is not a valid preset: {self.preset_list}")
 
-        index = list(self._presets.keys()).index(preset_name)
+        # Not the position in _presets as that excludes the presets with light effects
+        index = self._presets[preset_name].index
         state = asdict(preset_state)
         state = {k: v for k, v in state.items() if v is not None}
         state["index"] = index
diff --git a/kasa/smart/modules/lightpreset.py b/kasa/smart/modules/lightpreset.py
index 87e96ea..fa10479 100644
--- a/kasa/smart/modules/lightpreset.py
+++ b/kasa/smart/modules/lightpreset.py
@@ -27,6 +27,7 @@ class LightPreset(SmartModule, LightPresetInterface):
     SYS_INFO_STATE_KEY = "preset_state"
 
     _presets: dict[str, LightState]
+    _preset_indices: dict[str, int]
     _preset_list: list[str]
 
     def __init__(self, device: SmartDevice, module: str) -> None:
@@ -38,10 +39,12 @@ class LightPreset(SmartModule, LightPresetInterface):
         """Update the internal presets."""
         index = 0
         self._presets = {}
+        self._preset_indices = {}
+        self._brightness_only = False
 
         state_key = "states" if not self._state_in_sysinfo else self.SYS_INFO_STATE_KEY
         if preset_states := self.data.get(state_key):
-            for preset_state in preset_states:
+            for device_index, preset_state in enumerate(preset_states):
                 if "brightness" not in preset_state:
                     # Some devices can store effects as a preset. These will be ignored
                     # and handled in the effects module
@@ -53,7 +56,9 @@ class LightPreset(SmartModule, LightPresetInterface):
                 color_temp = preset_state.get("color_temp")
                 hue = preset_state.get("hue")
                 saturation = preset_state.get("saturation")
-                self._presets[f"Light preset {index + 1}"] = LightState(
+                preset_name = f"Light preset {index + 1}"
+                self._preset_indices[preset_name] = device_index
+                self._presets[preset_name] = LightState(
                     brightness=preset_state["brightness"],
                     color_temp=color_temp,
                     hue=hue,
@@ -139,14 +144,16 @@ class LightPreset(SmartModule, LightPresetInterface):
         """Update the preset with preset_name with the new preset_info."""
         if preset_name not in self._presets:
             raise ValueError(f"{preset_name} is not a valid preset: {self.preset_list}")
-        index = list(self._presets.keys()).index(preset_name)
         if self._brightness_only:
+            index = list(self._presets.keys()).index(preset_name)
             bright_list = [state.brightness for state in self._presets.values()]
             bright_list[index] = preset_state.brightness
             return await self.call("set_preset_rules", {"brightness": bright_list})
         else:
             state_params = asdict(preset_state)
             new_info = {k: v for k, v in state_params.items() if v is not None}
+            # The device also counts the presets with light effects
+            index = self._preset_indices[preset_name]
             return await self.call(
                 "edit_preset_rules", {"index": index, "state": new_info}
             )
-- 
2.43.0


From c0cf63fb672428de3607c2629220a0c6078390ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:29 +0000
Subject: [PATCH 27/55] fix: keep module data of child devices that is not
 queried again

---
 kasa/smart/smartchilddevice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/smartchilddevice.py b/kasa/smart/smartchilddevice.py
index adbdb48..f0216fd 100644
--- a/kasa/smart/smartchilddevice.py
+++ b/kasa/smart/smartchilddevice.py
@@ -112,7 +112,8 @@ class SmartChildDevice(SmartDevice):
                 resp = await self._handle_modular_update_error(
                     ex, first_update, ", ".join(mod.name for mod in module_queries), req
                 )
-            self._last_update = resp
+            # Modules that are not due keep the data of their last query
+            self._last_update = {**self._last_update, **resp}
 
         for module in self.modules.values():
             await self._handle_module_post_update(
-- 
2.43.0


From fdf64aa4ea989cc6d65405a26e4cb795d773004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:43 +0000
Subject: [PATCH 28/55] fix: use the time zone of the hub for water leak
 sensors without clock

---
 kasa/smart/modules/waterleaksensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/waterleaksensor.py b/kasa/smart/modules/waterleaksensor.py
index b6f0101..a3b643a 100644
--- a/kasa/smart/modules/waterleaksensor.py
+++ b/kasa/smart/modules/waterleaksensor.py
@@ -84,5 +84,7 @@ class WaterleakSensor(SmartModule):
             return None
 
         ts = self._device.sys_info["trigger_timestamp"]
-        tz = self._device.modules[Module.Time].timezone
+        # Sensors of camera hubs have no time of their own
+        time_module = self._device.modules.get(Module.Time)
+        tz = time_module.timezone if time_module else self._device.timezone
         return datetime.fromtimestamp(ts, tz=tz)
-- 
2.43.0


From 7932eba17fadfddc916ff670b26f6fdbf34ceb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:54 +0000
Subject: [PATCH 29/55] fix: do not let a child that cannot be initialised
 disturb its hub

---
 kasa/smart/smartdevice.py       | 17 ++++++++++++++++-
 kasa/smartcam/smartcamdevice.py |  7 +------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index d124af6..2659508 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -132,7 +132,22 @@ class SmartDevice(Device):
                 if child_id in existing_child_ids:
                     continue
 
-                child = await self._try_create_child(info, child_components)
+                try:
+                    child = await self._try_create_child(info, child_components)
+                except _ClosedError:
+                    raise
+                except Exception as ex:
+                    # Must not disturb the others, it is tried again on next update
+                    if child_id not in self._logged_missing_child_ids:
+                        self._logged_missing_child_ids.add(child_id)
+                        _LOGGER.error(
+                            "Error initialising child %s of %s: %s",
+                            child_id,
+                            self.host,
+                            ex,
+                        )
+                    continue
+
                 if child:
                     _LOGGER.debug("Created child device %s for %s", child, self.host)
                     changed = True
diff --git a/kasa/smartcam/smartcamdevice.py b/kasa/smartcam/smartcamdevice.py
index 3beda36..fe0d23a 100644
--- a/kasa/smartcam/smartcamdevice.py
+++ b/kasa/smartcam/smartcamdevice.py
@@ -105,12 +105,7 @@ class SmartCamDevice(SmartDevice):
         """Initialize a smart child device attached to a smartcam device."""
         child_id = info["device_id"]
         child_protocol = _ChildCameraProtocolWrapper(child_id, self.protocol)
-        try:
-            initial_response = await child_protocol.query(
-                {"get_connect_cloud_state": None}
-            )
-        except Exception as ex:
-            _LOGGER.exception("Error initialising child %s: %s", child_id, ex)
+        initial_response = await child_protocol.query({"get_connect_cloud_state": None})
 
         return await SmartChildDevice.create(
             parent=self,
-- 
2.43.0


From b00bfd3455c5146d5012eff95b407ddd06ea0c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:54 +0000
Subject: [PATCH 30/55] fix: keep the children when their component listing
 fails

---
 kasa/smart/smartdevice.py       | 7 ++++---
 kasa/smartcam/smartcamdevice.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 2659508..a1e00da 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -261,9 +261,10 @@ class SmartDevice(Device):
         if child_info := self._try_get_response(
             self._last_update, "get_child_device_list", {}
         ):
-            changed = await self._create_delete_children(
-                child_info, self._last_update["get_child_device_component_list"]
-            )
+            if components := self._try_get_response(
+                self._last_update, "get_child_device_component_list", {}
+            ):
+                changed = await self._create_delete_children(child_info, components)
 
             for info in child_info["child_device_list"]:
                 child_id = info.get("device_id")
diff --git a/kasa/smartcam/smartcamdevice.py b/kasa/smartcam/smartcamdevice.py
index fe0d23a..9eb490a 100644
--- a/kasa/smartcam/smartcamdevice.py
+++ b/kasa/smartcam/smartcamdevice.py
@@ -85,9 +85,10 @@ class SmartCamDevice(SmartDevice):
         if child_info := self._try_get_response(
             self._last_update, "getChildDeviceList", {}
         ):
-            changed = await self._create_delete_children(
-                child_info, self._last_update["getChildDeviceComponentList"]
-            )
+            if components := self._try_get_response(
+                self._last_update, "getChildDeviceComponentList", {}
+            ):
+                changed = await self._create_delete_children(child_info, components)
 
             for info in child_info["child_device_list"]:
                 child_id = info.get("device_id")
-- 
2.43.0


From 0d11b976dc549ed5811d3a1ac2aedf8067afffae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:28 +0000
Subject: [PATCH 31/55] fix: keep asking failing functions of IOT devices and
 do not show their old data

A module answering with an error was never queried again, its old data was
shown as current and the post update hooks made the update itself fail.
---
 kasa/iot/iotdevice.py            | 28 ++++++++++++++++++++++++----
 kasa/iot/iotmodule.py            | 24 ++++++++++++++++++++++--
 kasa/iot/iotstrip.py             |  3 +--
 kasa/iot/modules/ambientlight.py |  4 ++--
 kasa/iot/modules/cloud.py        |  2 +-
 kasa/iot/modules/dimmer.py       |  2 +-
 kasa/iot/modules/emeter.py       | 13 ++++---------
 kasa/iot/modules/motion.py       |  6 +++---
 kasa/iot/modules/rulemodule.py   |  5 ++---
 kasa/iot/modules/time.py         |  7 +++++--
 kasa/iot/modules/usage.py        |  4 ++--
 11 files changed, 67 insertions(+), 31 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index fcf7611..903cb10 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -322,8 +322,7 @@ class IotDevice(Device):
         await self._modular_update(req)
 
         self._set_sys_info(_extract_sys_info(self._last_update))
-        for module in self._modules.values():
-            await module._post_update_hook()
+        await self._handle_modules_post_update()
 
         if not self._features:
             await self._initialize_features()
@@ -392,12 +391,30 @@ class IotDevice(Device):
             for module_feat in module._module_features.values():
                 self._add_feature(module_feat)
 
+    async def _handle_modules_post_update(self) -> None:
+        """Call the post update hooks of the modules."""
+        for name, module in self._modules.items():
+            try:
+                await module._post_update_hook()
+            except Exception as ex:
+                # Failing functions should not prevent the use of the other ones
+                if self._supported_modules and name in self._supported_modules:
+                    _LOGGER.warning(
+                        "Error processing %s for device %s: %r", name, self.host, ex
+                    )
+
     async def _modular_update(self, req: dict) -> None:
         """Execute an update query."""
         request_list = []
         est_response_size = 1024 if "system" in req else 0
-        for module in self._modules.values():
-            if not module.is_supported:
+        for name, module in self._modules.items():
+            # A supported module may fail to respond, only the first update
+            # tells which modules are not supported.
+            if (
+                not module.is_supported
+                if self._supported_modules is None
+                else name not in self._supported_modules
+            ):
                 _LOGGER.debug("Module %s not supported, skipping", module)
                 continue
 
@@ -433,6 +450,9 @@ class IotDevice(Device):
                     # Create a new dict as the existing one may be shared with
                     # the parent or child devices.
                     update[k] = {**update.get(k, {}), **v}
+                    if "err_code" not in v:
+                        # The module may have failed in an earlier update
+                        update[k].pop("err_code", None)
         self._last_update = update
 
         # IOT modules are added as default but could be unsupported post first update
diff --git a/kasa/iot/iotmodule.py b/kasa/iot/iotmodule.py
index 115e9e8..47cbec1 100644
--- a/kasa/iot/iotmodule.py
+++ b/kasa/iot/iotmodule.py
@@ -64,7 +64,24 @@ class IotModule(Module):
                 f" for '{self._module}'"
             )
 
-        return dev._last_update[self._module]
+        data = dev._last_update[self._module]
+        self._raise_for_error("query", data)
+
+        return data
+
+    def _response_for(self, cmd: str) -> dict[str, Any]:
+        """Return the response to the given command from the last update."""
+        response = self.data[cmd]
+        self._raise_for_error(cmd, response)
+
+        return response
+
+    def _raise_for_error(self, name: str, response: dict[str, Any]) -> None:
+        """Raise an exception if the device responded with an error."""
+        if err_code := response.get("err_code"):
+            raise KasaException(
+                f"{name} for {self._module} failed with error code {err_code}"
+            )
 
     @property
     def is_supported(self) -> bool:
@@ -73,4 +90,7 @@ class IotModule(Module):
             _LOGGER.debug("Initial update, so consider supported: %s", self._module)
             return True
 
-        return "err_code" not in self.data
+        if not self.query():
+            return "err_code" not in self._device.sys_info
+
+        return "err_code" not in self._device._last_update[self._module]
diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index c28742b..54271e4 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -385,8 +385,7 @@ class IotStripPlug(IotPlug):
         or test framework.
         """
         await self._modular_update({})
-        for module in self._modules.values():
-            await module._post_update_hook()
+        await self._handle_modules_post_update()
 
         if not self._features:
             await self._initialize_features()
diff --git a/kasa/iot/modules/ambientlight.py b/kasa/iot/modules/ambientlight.py
index ac5c348..7c732a7 100644
--- a/kasa/iot/modules/ambientlight.py
+++ b/kasa/iot/modules/ambientlight.py
@@ -52,7 +52,7 @@ class AmbientLight(IotModule):
     @property
     def config(self) -> dict:
         """Return current ambient light config."""
-        config = self.data["get_config"]
+        config = self._response_for("get_config")
         devs = config["devs"]
         if len(devs) != 1:
             _LOGGER.error("Unexpected number of devs in config: %s", config)
@@ -72,7 +72,7 @@ class AmbientLight(IotModule):
     @property
     def ambientlight_brightness(self) -> int:
         """Return True if the module is enabled."""
-        return int(self.data["get_current_brt"]["value"])
+        return int(self._response_for("get_current_brt")["value"])
 
     async def set_enabled(self, state: bool) -> dict:
         """Enable/disable LAS."""
diff --git a/kasa/iot/modules/cloud.py b/kasa/iot/modules/cloud.py
index d4e91a0..87ed9d4 100644
--- a/kasa/iot/modules/cloud.py
+++ b/kasa/iot/modules/cloud.py
@@ -56,7 +56,7 @@ class Cloud(IotModule):
     @property
     def info(self) -> CloudInfo:
         """Return information about the cloud connectivity."""
-        return CloudInfo.from_dict(self.data["get_info"])
+        return CloudInfo.from_dict(self._response_for("get_info"))
 
     def get_available_firmwares(self) -> dict:
         """Return list of available firmwares."""
diff --git a/kasa/iot/modules/dimmer.py b/kasa/iot/modules/dimmer.py
index 42a93ce..e64726a 100644
--- a/kasa/iot/modules/dimmer.py
+++ b/kasa/iot/modules/dimmer.py
@@ -155,7 +155,7 @@ class Dimmer(IotModule):
     @property
     def config(self) -> dict[str, Any]:
         """Return current configuration."""
-        return self.data["get_dimmer_parameters"]
+        return self._response_for("get_dimmer_parameters")
 
     @property
     def threshold_min(self) -> int:
diff --git a/kasa/iot/modules/emeter.py b/kasa/iot/modules/emeter.py
index 012bda0..248d87c 100644
--- a/kasa/iot/modules/emeter.py
+++ b/kasa/iot/modules/emeter.py
@@ -13,18 +13,13 @@ class Emeter(Usage, EnergyInterface):
     """Emeter module."""
 
     async def _post_update_hook(self) -> None:
+        realtime = self._response_for("get_realtime")
         self._supported = EnergyInterface.ModuleFeature.PERIODIC_STATS
-        if (
-            "voltage_mv" in self.data["get_realtime"]
-            or "voltage" in self.data["get_realtime"]
-        ):
+        if "voltage_mv" in realtime or "voltage" in realtime:
             self._supported = (
                 self._supported | EnergyInterface.ModuleFeature.VOLTAGE_CURRENT
             )
-        if (
-            "total_wh" in self.data["get_realtime"]
-            or "total" in self.data["get_realtime"]
-        ):
+        if "total_wh" in realtime or "total" in realtime:
             self._supported = (
                 self._supported | EnergyInterface.ModuleFeature.CONSUMPTION_TOTAL
             )
@@ -32,7 +27,7 @@ class Emeter(Usage, EnergyInterface):
     @property  # type: ignore
     def status(self) -> EmeterStatus:
         """Return current energy readings."""
-        return EmeterStatus(self.data["get_realtime"])
+        return EmeterStatus(self._response_for("get_realtime"))
 
     @property
     def consumption_today(self) -> float | None:
diff --git a/kasa/iot/modules/motion.py b/kasa/iot/modules/motion.py
index a795b44..47a34b1 100644
--- a/kasa/iot/modules/motion.py
+++ b/kasa/iot/modules/motion.py
@@ -102,7 +102,7 @@ class Motion(IotModule):
             _LOGGER.warning("%r initialized, but no get_adc_value in response")
             return
 
-        if "enable" not in self.config:
+        if "enable" not in self.data["get_config"]:
             _LOGGER.warning("%r initialized, but no enable in response")
             return
 
@@ -261,7 +261,7 @@ class Motion(IotModule):
     @property
     def config(self) -> dict:
         """Return current configuration."""
-        return self.data["get_config"]
+        return self._response_for("get_config")
 
     @property
     def pir_config(self) -> PIRConfig:
@@ -379,7 +379,7 @@ class Motion(IotModule):
     @property
     def pir_state(self) -> PIRStatus:
         """Return cached PIR status."""
-        return PIRStatus(self.pir_config, self.data["get_adc_value"]["value"])
+        return PIRStatus(self.pir_config, self._response_for("get_adc_value")["value"])
 
     async def get_pir_state(self) -> PIRStatus:
         """Return real-time PIR status."""
diff --git a/kasa/iot/modules/rulemodule.py b/kasa/iot/modules/rulemodule.py
index ba08b36..15e3975 100644
--- a/kasa/iot/modules/rulemodule.py
+++ b/kasa/iot/modules/rulemodule.py
@@ -66,10 +66,9 @@ class RuleModule(IotModule):
     @property
     def rules(self) -> list[Rule]:
         """Return the list of rules for the service."""
+        response = self._response_for("get_rules")
         try:
-            return [
-                Rule.from_dict(rule) for rule in self.data["get_rules"]["rule_list"]
-            ]
+            return [Rule.from_dict(rule) for rule in response["rule_list"]]
         except Exception as ex:
             _LOGGER.error("Unable to read rule list: %s (data: %s)", ex, self.data)
             return []
diff --git a/kasa/iot/modules/time.py b/kasa/iot/modules/time.py
index 896172d..3b4951a 100644
--- a/kasa/iot/modules/time.py
+++ b/kasa/iot/modules/time.py
@@ -24,13 +24,14 @@ class Time(IotModule, TimeInterface):
 
     async def _post_update_hook(self) -> None:
         """Perform actions after a device update."""
-        if res := self.data.get("get_timezone"):
+        if "get_timezone" in self.data:
+            res = self._response_for("get_timezone")
             self._timezone = await get_timezone(res.get("index"))
 
     @property
     def time(self) -> datetime:
         """Return current device time."""
-        res = self.data["get_time"]
+        res = self._response_for("get_time")
         time = datetime(
             res["year"],
             res["month"],
@@ -45,6 +46,8 @@ class Time(IotModule, TimeInterface):
     @property
     def timezone(self) -> tzinfo:
         """Return current timezone."""
+        if "get_timezone" in self.data:
+            self._response_for("get_timezone")
         return self._timezone
 
     async def get_time(self) -> datetime | None:
diff --git a/kasa/iot/modules/usage.py b/kasa/iot/modules/usage.py
index 89d8cca..e1f5da5 100644
--- a/kasa/iot/modules/usage.py
+++ b/kasa/iot/modules/usage.py
@@ -32,12 +32,12 @@ class Usage(IotModule):
     @property
     def daily_data(self) -> list[dict]:
         """Return statistics on daily basis."""
-        return self.data["get_daystat"]["day_list"]
+        return self._response_for("get_daystat")["day_list"]
 
     @property
     def monthly_data(self) -> list[dict]:
         """Return statistics on monthly basis."""
-        return self.data["get_monthstat"]["month_list"]
+        return self._response_for("get_monthstat")["month_list"]
 
     @property
     def usage_today(self) -> int | None:
-- 
2.43.0


From 500d0c59c601e704bc7290ffe3d04d949d2e6b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:28 +0000
Subject: [PATCH 32/55] fix: keep consumables per device and tolerate their
 failure on the first update

---
 kasa/smart/modules/consumables.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/kasa/smart/modules/consumables.py b/kasa/smart/modules/consumables.py
index 10de583..99e9cee 100644
--- a/kasa/smart/modules/consumables.py
+++ b/kasa/smart/modules/consumables.py
@@ -6,9 +6,13 @@ import logging
 from collections.abc import Mapping
 from dataclasses import dataclass
 from datetime import timedelta
+from typing import TYPE_CHECKING
 
 from ...feature import Feature
-from ..smartmodule import SmartModule
+from ..smartmodule import SmartModule, raise_if_update_error
+
+if TYPE_CHECKING:
+    from ..smartdevice import SmartDevice
 
 _LOGGER = logging.getLogger(__name__)
 
@@ -86,12 +90,14 @@ class Consumables(SmartModule):
     REQUIRED_COMPONENT = "consumables"
     QUERY_GETTER_NAME = "getConsumablesInfo"
 
-    _consumables: dict[str, Consumable] = {}
+    def __init__(self, device: SmartDevice, module: str) -> None:
+        super().__init__(device, module)
+        self._consumables: dict[str, Consumable] = {}
 
     def _initialize_features(self) -> None:
         """Initialize features."""
         for c_meta in CONSUMABLE_METAS:
-            if c_meta.data_key not in self.data:
+            if c_meta.id not in self._consumables:
                 continue
 
             self._add_feature(
@@ -100,9 +106,9 @@ class Consumables(SmartModule):
                     id=f"{c_meta.id}_used",
                     name=f"{c_meta.name} used",
                     container=self,
-                    attribute_getter=lambda _, c_id=c_meta.id: self._consumables[
-                        c_id
-                    ].used,
+                    attribute_getter=lambda _, c_id=c_meta.id: (
+                        self.consumables[c_id].used
+                    ),
                     category=Feature.Category.Debug,
                     type=Feature.Type.Sensor,
                 )
@@ -114,9 +120,9 @@ class Consumables(SmartModule):
                     id=f"{c_meta.id}_remaining",
                     name=f"{c_meta.name} remaining",
                     container=self,
-                    attribute_getter=lambda _, c_id=c_meta.id: self._consumables[
-                        c_id
-                    ].remaining,
+                    attribute_getter=lambda _, c_id=c_meta.id: (
+                        self.consumables[c_id].remaining
+                    ),
                     category=Feature.Category.Info,
                     type=Feature.Type.Sensor,
                 )
@@ -165,6 +171,7 @@ class Consumables(SmartModule):
         )
 
     @property
+    @raise_if_update_error
     def consumables(self) -> Mapping[str, Consumable]:
         """Get list of consumables on the device."""
         return self._consumables
-- 
2.43.0


From b5c96ba0f13920445c10fbf7b7084b5753f55005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:28 +0000
Subject: [PATCH 33/55] fix: do not show values of a failing module from an
 earlier update

The values parsed after an update were still returned when the module failed
to update later on.
---
 kasa/smart/modules/childsetup.py      | 3 ++-
 kasa/smart/modules/clean.py           | 5 +++--
 kasa/smart/modules/cleanrecords.py    | 9 ++++++++-
 kasa/smart/modules/lighteffect.py     | 5 ++++-
 kasa/smart/modules/lightpreset.py     | 5 ++++-
 kasa/smart/modules/lighttransition.py | 5 ++++-
 kasa/smartcam/modules/childsetup.py   | 2 ++
 kasa/smartcam/modules/time.py         | 4 +++-
 8 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/kasa/smart/modules/childsetup.py b/kasa/smart/modules/childsetup.py
index f3bf88c..873a18c 100644
--- a/kasa/smart/modules/childsetup.py
+++ b/kasa/smart/modules/childsetup.py
@@ -10,7 +10,7 @@ import logging
 
 from ...feature import Feature
 from ...interfaces.childsetup import ChildSetup as ChildSetupInterface
-from ..smartmodule import SmartModule
+from ..smartmodule import SmartModule, raise_if_update_error
 
 _LOGGER = logging.getLogger(__name__)
 
@@ -45,6 +45,7 @@ class ChildSetup(SmartModule, ChildSetupInterface):
         ]
 
     @property
+    @raise_if_update_error
     def supported_categories(self) -> list[str]:
         """Supported child device categories."""
         return self._categories
diff --git a/kasa/smart/modules/clean.py b/kasa/smart/modules/clean.py
index 376e0d3..95cd016 100644
--- a/kasa/smart/modules/clean.py
+++ b/kasa/smart/modules/clean.py
@@ -9,7 +9,7 @@ from typing import Annotated, Literal
 
 from ...feature import Feature
 from ...module import FeatureAttribute
-from ..smartmodule import SmartModule
+from ..smartmodule import SmartModule, raise_if_update_error
 
 _LOGGER = logging.getLogger(__name__)
 
@@ -306,6 +306,7 @@ class Clean(SmartModule):
         return await self.call("setSwitchCharge", {"switch_charge": enabled})
 
     @property
+    @raise_if_update_error
     def error(self) -> ErrorCode:
         """Return error."""
         return self._error_code
@@ -357,7 +358,7 @@ class Clean(SmartModule):
     @property
     def status(self) -> Status:
         """Return current status."""
-        if self._error_code is not ErrorCode.Ok:
+        if self.error is not ErrorCode.Ok:
             return Status.Error
 
         status_code = self._vac_status["status"]
diff --git a/kasa/smart/modules/cleanrecords.py b/kasa/smart/modules/cleanrecords.py
index fdd0dae..f243065 100644
--- a/kasa/smart/modules/cleanrecords.py
+++ b/kasa/smart/modules/cleanrecords.py
@@ -14,7 +14,7 @@ from mashumaro.types import SerializationStrategy
 
 from ...feature import Feature
 from ...module import FeatureAttribute
-from ..smartmodule import Module, SmartModule
+from ..smartmodule import Module, SmartModule, raise_if_update_error
 from .clean import AreaUnit, Clean
 
 _LOGGER = logging.getLogger(__name__)
@@ -164,31 +164,37 @@ class CleanRecords(SmartModule):
         }
 
     @property
+    @raise_if_update_error
     def total_clean_area(self) -> Annotated[int, FeatureAttribute()]:
         """Return total cleaning area."""
         return self._parsed_data.total_area
 
     @property
+    @raise_if_update_error
     def total_clean_time(self) -> timedelta:
         """Return total cleaning time."""
         return self._parsed_data.total_time
 
     @property
+    @raise_if_update_error
     def total_clean_count(self) -> int:
         """Return total clean count."""
         return self._parsed_data.total_count
 
     @property
+    @raise_if_update_error
     def last_clean_area(self) -> Annotated[int, FeatureAttribute()]:
         """Return latest cleaning area."""
         return self._parsed_data.last_clean.clean_area
 
     @property
+    @raise_if_update_error
     def last_clean_time(self) -> timedelta:
         """Return total cleaning time."""
         return self._parsed_data.last_clean.clean_time
 
     @property
+    @raise_if_update_error
     def last_clean_timestamp(self) -> datetime:
         """Return latest cleaning timestamp."""
         return self._parsed_data.last_clean.timestamp
@@ -200,6 +206,7 @@ class CleanRecords(SmartModule):
         return clean.area_unit
 
     @property
+    @raise_if_update_error
     def parsed_data(self) -> Records:
         """Return parsed records data."""
         return self._parsed_data
diff --git a/kasa/smart/modules/lighteffect.py b/kasa/smart/modules/lighteffect.py
index 8c6b3d5..c6ff594 100644
--- a/kasa/smart/modules/lighteffect.py
+++ b/kasa/smart/modules/lighteffect.py
@@ -9,7 +9,7 @@ import copy
 from typing import Any
 
 from ..effects import SmartLightEffect
-from ..smartmodule import Module, SmartModule, allow_update_after
+from ..smartmodule import Module, SmartModule, allow_update_after, raise_if_update_error
 
 
 class LightEffect(SmartModule, SmartLightEffect):
@@ -61,6 +61,7 @@ class LightEffect(SmartModule, SmartLightEffect):
             self._effect = self.LIGHT_EFFECTS_OFF
 
     @property
+    @raise_if_update_error
     def effect_list(self) -> list[str]:
         """Return built-in effects list.
 
@@ -70,6 +71,7 @@ class LightEffect(SmartModule, SmartLightEffect):
         return self._effect_list
 
     @property
+    @raise_if_update_error
     def effect(self) -> str:
         """Return effect name."""
         return self._effect
@@ -129,6 +131,7 @@ class LightEffect(SmartModule, SmartLightEffect):
         return self._effect_state_list[effect_id]
 
     @property
+    @raise_if_update_error
     def brightness(self) -> int:
         """Return effect brightness."""
         first_color_status = self._get_effect_data()["color_status_list"][0]
diff --git a/kasa/smart/modules/lightpreset.py b/kasa/smart/modules/lightpreset.py
index fa10479..0b3a457 100644
--- a/kasa/smart/modules/lightpreset.py
+++ b/kasa/smart/modules/lightpreset.py
@@ -9,7 +9,7 @@ from typing import TYPE_CHECKING
 
 from ...interfaces import LightPreset as LightPresetInterface
 from ...interfaces import LightState
-from ..smartmodule import SmartModule, allow_update_after
+from ..smartmodule import SmartModule, allow_update_after, raise_if_update_error
 
 if TYPE_CHECKING:
     from ..smartdevice import SmartDevice
@@ -79,6 +79,7 @@ class LightPreset(SmartModule, LightPresetInterface):
         self._preset_list.extend(self._presets.keys())
 
     @property
+    @raise_if_update_error
     def preset_list(self) -> list[str]:
         """Return built-in effects list.
 
@@ -88,6 +89,7 @@ class LightPreset(SmartModule, LightPresetInterface):
         return self._preset_list
 
     @property
+    @raise_if_update_error
     def preset_states_list(self) -> Sequence[LightState]:
         """Return built-in effects list.
 
@@ -97,6 +99,7 @@ class LightPreset(SmartModule, LightPresetInterface):
         return list(self._presets.values())
 
     @property
+    @raise_if_update_error
     def preset(self) -> str:
         """Return current preset name."""
         light = self._device.modules[SmartModule.Light]
diff --git a/kasa/smart/modules/lighttransition.py b/kasa/smart/modules/lighttransition.py
index e623108..526f476 100644
--- a/kasa/smart/modules/lighttransition.py
+++ b/kasa/smart/modules/lighttransition.py
@@ -6,7 +6,7 @@ from typing import TYPE_CHECKING, TypedDict
 
 from ...exceptions import KasaException
 from ...feature import Feature
-from ..smartmodule import SmartModule, allow_update_after
+from ..smartmodule import SmartModule, allow_update_after, raise_if_update_error
 
 if TYPE_CHECKING:
     from ..smartdevice import SmartDevice
@@ -165,11 +165,13 @@ class LightTransition(SmartModule):
             return {**on, **off}
 
     @property
+    @raise_if_update_error
     def enabled(self) -> bool:
         """Return True if gradual on/off is enabled."""
         return self._enabled
 
     @property
+    @raise_if_update_error
     def turn_on_transition(self) -> int:
         """Return transition time for turning the light on.
 
@@ -205,6 +207,7 @@ class LightTransition(SmartModule):
         )
 
     @property
+    @raise_if_update_error
     def turn_off_transition(self) -> int:
         """Return transition time for turning the light off.
 
diff --git a/kasa/smartcam/modules/childsetup.py b/kasa/smartcam/modules/childsetup.py
index 676bd63..c3aedab 100644
--- a/kasa/smartcam/modules/childsetup.py
+++ b/kasa/smartcam/modules/childsetup.py
@@ -10,6 +10,7 @@ import logging
 
 from ...feature import Feature
 from ...interfaces.childsetup import ChildSetup as ChildSetupInterface
+from ...smart.smartmodule import raise_if_update_error
 from ..smartcammodule import SmartCamModule
 
 _LOGGER = logging.getLogger(__name__)
@@ -47,6 +48,7 @@ class ChildSetup(SmartCamModule, ChildSetupInterface):
         ]
 
     @property
+    @raise_if_update_error
     def supported_categories(self) -> list[str]:
         """Supported child device categories."""
         return self._categories
diff --git a/kasa/smartcam/modules/time.py b/kasa/smartcam/modules/time.py
index 54ee30e..74ef55c 100644
--- a/kasa/smartcam/modules/time.py
+++ b/kasa/smartcam/modules/time.py
@@ -9,7 +9,7 @@ from zoneinfo import ZoneInfo, ZoneInfoNotFoundError
 from ...cachedzoneinfo import CachedZoneInfo
 from ...feature import Feature
 from ...interfaces import Time as TimeInterface
-from ...smart.smartmodule import allow_update_after
+from ...smart.smartmodule import allow_update_after, raise_if_update_error
 from ..smartcammodule import SmartCamModule
 
 
@@ -65,11 +65,13 @@ class Time(SmartCamModule, TimeInterface):
         )
 
     @property
+    @raise_if_update_error
     def timezone(self) -> tzinfo:
         """Return current timezone."""
         return self._timezone
 
     @property
+    @raise_if_update_error
     def time(self) -> datetime:
         """Return device's current datetime."""
         return self._time
-- 
2.43.0


From 8836d563d374304503e0fb0ce374bf2fbbbbf435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:35 +0000
Subject: [PATCH 34/55] fix: query a module again when it was changed during an
 update

---
 kasa/smart/smartdevice.py | 7 ++++++-
 kasa/smart/smartmodule.py | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index a1e00da..ad88277 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -325,7 +325,12 @@ class SmartDevice(Device):
         if module.disabled:
             return  # pragma: no cover
         if had_query:
-            module._last_update_time = update_time
+            # A change made while the update was in progress may not be part of
+            # the response, so the module needs to be queried again.
+            changed = module._last_change_time
+            module._last_update_time = (
+                None if changed is not None and changed >= update_time else update_time
+            )
         try:
             await module._post_update_hook()
             module._set_error(None)
diff --git a/kasa/smart/smartmodule.py b/kasa/smart/smartmodule.py
index 91efa33..ffd0a8e 100644
--- a/kasa/smart/smartmodule.py
+++ b/kasa/smart/smartmodule.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import logging
+import time
 from collections.abc import Callable, Coroutine
 from functools import wraps
 from typing import TYPE_CHECKING, Any, Concatenate, ParamSpec, TypeVar
@@ -35,6 +36,7 @@ def allow_update_after(
             return await func(self, *args, **kwargs)
         finally:
             self._last_update_time = None
+            self._last_change_time = time.monotonic()
 
     return _async_wrap
 
@@ -75,6 +77,7 @@ class SmartModule(Module):
         self._device: SmartDevice
         super().__init__(device, module)
         self._last_update_time: float | None = None
+        self._last_change_time: float | None = None
         self._last_update_error: KasaException | None = None
         self._error_count = 0
         self._logged_remove_keys: list[str] = []
-- 
2.43.0


From 7a3af8f442ef4fe8b2a3539bc5845b48f5ed1d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:35 +0000
Subject: [PATCH 35/55] fix: report the right switch-on time after clock
 changes and child updates

---
 kasa/iot/iotdevice.py     | 14 +++++++++-----
 kasa/iot/iotstrip.py      | 13 ++++++++-----
 kasa/smart/smartdevice.py | 13 +++++++++----
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index 903cb10..075cef7 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -18,7 +18,7 @@ import functools
 import inspect
 import logging
 from collections.abc import Callable, Mapping, Sequence
-from datetime import datetime, timedelta, tzinfo
+from datetime import UTC, datetime, timedelta, tzinfo
 from typing import TYPE_CHECKING, Any, cast
 from warnings import warn
 
@@ -663,10 +663,14 @@ class IotDevice(Device):
 
         on_time = self._sys_info["on_time"]
 
-        on_since = self.time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
+        time = self.time
+        on_since = time.astimezone(UTC) - timedelta(seconds=on_time)
+        on_since = on_since.astimezone(time.tzinfo)
+        # Timestamps are compared as they do not depend on daylight saving time
+        if (
+            not self._on_since
+            or abs(on_since.timestamp() - self._on_since.timestamp()) > 5
+        ):
             self._on_since = on_since
         return self._on_since
 
diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index 54271e4..9739b34 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 import logging
 from collections import defaultdict
-from datetime import datetime, timedelta
+from datetime import UTC, datetime, timedelta
 from typing import TYPE_CHECKING, Any
 
 from ..device_type import DeviceType
@@ -467,10 +467,13 @@ class IotStripPlug(IotPlug):
 
         time = self._parent.time
 
-        on_since = time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
+        on_since = time.astimezone(UTC) - timedelta(seconds=on_time)
+        on_since = on_since.astimezone(time.tzinfo)
+        # Timestamps are compared as they do not depend on daylight saving time
+        if (
+            not self._on_since
+            or abs(on_since.timestamp() - self._on_since.timestamp()) > 5
+        ):
             self._on_since = on_since
         return self._on_since
 
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index ad88277..2c6aca6 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -658,10 +658,15 @@ class SmartDevice(Device):
             return None
 
         on_time = cast(float, on_time)
-        on_since = self.time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
+        # The on time of a child is reported by the parent
+        time = self._parent.time if self._parent else self.time
+        on_since = time.astimezone(UTC) - timedelta(seconds=on_time)
+        on_since = on_since.astimezone(time.tzinfo)
+        # Timestamps are compared as they do not depend on daylight saving time
+        if (
+            not self._on_since
+            or abs(on_since.timestamp() - self._on_since.timestamp()) > 5
+        ):
             self._on_since = on_since
         return self._on_since
 
-- 
2.43.0


From d860be1314b1f7859f17dade991b3e8cc74a9d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:50 +0000
Subject: [PATCH 36/55] fix: raise the library's timeout error for firmware
 updates

---
 kasa/smart/modules/firmware.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/modules/firmware.py b/kasa/smart/modules/firmware.py
index 8dd3a6b..9df301f 100644
--- a/kasa/smart/modules/firmware.py
+++ b/kasa/smart/modules/firmware.py
@@ -5,7 +5,8 @@ from __future__ import annotations
 import asyncio
 import logging
 from asyncio import timeout as asyncio_timeout
-from collections.abc import Callable, Coroutine
+from collections.abc import AsyncIterator, Callable, Coroutine
+from contextlib import asynccontextmanager
 from dataclasses import dataclass, field
 from datetime import date
 from typing import TYPE_CHECKING, Annotated
@@ -14,6 +15,7 @@ from mashumaro import DataClassDictMixin, field_options
 from mashumaro.types import Alias
 
 from ...exceptions import KasaException
+from ...exceptions import TimeoutError as KasaTimeoutError
 from ...feature import Feature
 from ..smartmodule import SmartModule, allow_update_after
 
@@ -24,6 +26,18 @@ if TYPE_CHECKING:
 _LOGGER = logging.getLogger(__name__)
 
 
+@asynccontextmanager
+async def _update_timeout(seconds: float) -> AsyncIterator[None]:
+    """Raise the timeout error of the library if the update takes too long."""
+    try:
+        async with asyncio_timeout(seconds):
+            yield
+    except TimeoutError as ex:
+        raise KasaTimeoutError(
+            f"The firmware update did not finish in {seconds} seconds"
+        ) from ex
+
+
 @dataclass
 class DownloadState(DataClassDictMixin):
     """Download state."""
@@ -198,7 +212,7 @@ class Firmware(SmartModule):
         await self.call("fw_download")
 
         # TODO: read timeout from get_auto_update_info or from get_fw_download_state?
-        async with asyncio_timeout(60 * 5):
+        async with _update_timeout(60 * 5):
             while True:
                 await asyncio.sleep(0.5)
                 try:
-- 
2.43.0


From a2122f9fedc7deab556f208d57cfbd9bf30dbd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:50 +0000
Subject: [PATCH 37/55] fix: report usage and energy of the current day of the
 device

---
 kasa/iot/iotdevice.py      | 43 +++++++++++++++++++++++++++++++++++---
 kasa/iot/iotstrip.py       |  4 ++++
 kasa/iot/modules/emeter.py | 17 +++++++--------
 kasa/iot/modules/usage.py  | 41 ++++++++++++++++++++++++++++++------
 4 files changed, 86 insertions(+), 19 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index 075cef7..5c84a86 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -17,7 +17,9 @@ from __future__ import annotations
 import functools
 import inspect
 import logging
+import time
 from collections.abc import Callable, Mapping, Sequence
+from contextlib import suppress
 from datetime import UTC, datetime, timedelta, tzinfo
 from typing import TYPE_CHECKING, Any, cast
 from warnings import warn
@@ -198,6 +200,10 @@ class IotDevice(Device):
         self._children: Mapping[str, IotDevice] = {}
         self._modules: dict[str | ModuleName[Module], IotModule] = {}
         self._on_since: datetime | None = None
+        # Device time of the last update, and when it was received
+        self._device_time: tuple[datetime, float] | None = None
+        # Estimated device time at the start of the last update
+        self._query_time: datetime | None = None
 
     @property
     def children(self) -> Sequence[IotDevice]:
@@ -403,8 +409,30 @@ class IotDevice(Device):
                         "Error processing %s for device %s: %r", name, self.host, ex
                     )
 
+    def _estimate_time(self) -> datetime:
+        """Return the estimated current device time.
+
+        The device may be in another time zone, or its clock may be off.
+        """
+        if self._device_time is None:
+            return datetime.now()
+        device_time, received = self._device_time
+        with suppress(Exception):
+            # On the first update, the time zone is known later than the time
+            device_time = device_time.replace(tzinfo=self.timezone)
+        elapsed = timedelta(seconds=time.monotonic() - received)
+        return (device_time.astimezone(UTC) + elapsed).astimezone(device_time.tzinfo)
+
+    def _set_device_time(self, received: float) -> None:
+        """Set the device time from the last update."""
+        try:
+            self._device_time = (self._modules[Module.Time].time, received)
+        except Exception as ex:
+            _LOGGER.debug("No time for device %s: %r", self.host, ex)
+
     async def _modular_update(self, req: dict) -> None:
         """Execute an update query."""
+        self._query_time = self._estimate_time()
         request_list = []
         est_response_size = 1024 if "system" in req else 0
         for name, module in self._modules.items():
@@ -429,9 +457,15 @@ class IotDevice(Device):
             req = merge(req, q)
         request_list.append(req)
 
-        responses = [
-            await self.protocol.query(request) for request in request_list if request
-        ]
+        responses = []
+        time_received = None
+        time_module = self._modules.get(Module.Time)
+        for request in request_list:
+            if not request:
+                continue
+            responses.append(response := await self.protocol.query(request))
+            if time_module and time_module._module in response:
+                time_received = time.monotonic()
 
         # Preserve the last update and merge
         # responses on top of it so we remember
@@ -464,6 +498,9 @@ class IotDevice(Device):
 
             self._supported_modules = supported
 
+        if time_received is not None:
+            self._set_device_time(time_received)
+
     def update_from_discover_info(self, info: dict[str, Any]) -> None:
         """Update state from info from the discover call."""
         self._discovery_info = info
diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index 9739b34..8b6d802 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -390,6 +390,10 @@ class IotStripPlug(IotPlug):
         if not self._features:
             await self._initialize_features()
 
+    def _estimate_time(self) -> datetime:
+        """Return the estimated current device time."""
+        return self._parent._estimate_time()
+
     def _create_request(
         self,
         target: str,
diff --git a/kasa/iot/modules/emeter.py b/kasa/iot/modules/emeter.py
index 248d87c..a8f884f 100644
--- a/kasa/iot/modules/emeter.py
+++ b/kasa/iot/modules/emeter.py
@@ -2,8 +2,6 @@
 
 from __future__ import annotations
 
-from datetime import datetime
-
 from ...emeterstatus import EmeterStatus
 from ...interfaces.energy import Energy as EnergyInterface
 from .usage import Usage
@@ -23,6 +21,7 @@ class Emeter(Usage, EnergyInterface):
             self._supported = (
                 self._supported | EnergyInterface.ModuleFeature.CONSUMPTION_TOTAL
             )
+        await super()._post_update_hook()
 
     @property  # type: ignore
     def status(self) -> EmeterStatus:
@@ -32,18 +31,16 @@ class Emeter(Usage, EnergyInterface):
     @property
     def consumption_today(self) -> float | None:
         """Return today's energy consumption in kWh."""
-        raw_data = self.daily_data
-        today = datetime.now().day
-        data = self._convert_stat_data(raw_data, entry_key="day", key=today)
-        return data.get(today, 0.0)
+        raw_data = [entry for entry in self.daily_data if self._is_today(entry)]
+        data = self._convert_stat_data(raw_data, entry_key="day")
+        return next(iter(data.values()), 0.0)
 
     @property
     def consumption_this_month(self) -> float | None:
         """Return this month's energy consumption in kWh."""
-        raw_data = self.monthly_data
-        current_month = datetime.now().month
-        data = self._convert_stat_data(raw_data, entry_key="month", key=current_month)
-        return data.get(current_month, 0.0)
+        raw_data = [entry for entry in self.monthly_data if self._is_this_month(entry)]
+        data = self._convert_stat_data(raw_data, entry_key="month")
+        return next(iter(data.values()), 0.0)
 
     @property
     def current_consumption(self) -> float | None:
diff --git a/kasa/iot/modules/usage.py b/kasa/iot/modules/usage.py
index e1f5da5..4b25dd7 100644
--- a/kasa/iot/modules/usage.py
+++ b/kasa/iot/modules/usage.py
@@ -2,7 +2,7 @@
 
 from __future__ import annotations
 
-from datetime import datetime
+from datetime import date, datetime
 
 from ..iotmodule import IotModule, merge
 
@@ -10,9 +10,12 @@ from ..iotmodule import IotModule, merge
 class Usage(IotModule):
     """Baseclass for emeter/usage interfaces."""
 
+    # Device date of the last update
+    _date: date | None = None
+
     def query(self) -> dict:
         """Return the base query."""
-        now = datetime.now()
+        now = self._device._query_time or datetime.now()
         year = now.year
         month = now.month
 
@@ -24,6 +27,34 @@ class Usage(IotModule):
 
         return req
 
+    async def _post_update_hook(self) -> None:
+        """Make sure the statistics are the ones of the current device date."""
+        queried = self._device._query_time
+        now = self._device._estimate_time()
+        self._date = now.date()
+        if queried is None or (queried.year, queried.month) == (now.year, now.month):
+            return
+
+        # The month changed, or the device time was not known on querying
+        update = {
+            "get_daystat": await self.get_raw_daystat(year=now.year, month=now.month)
+        }
+        if queried.year != now.year:
+            update["get_monthstat"] = await self.get_raw_monthstat(year=now.year)
+        # Create a new dict as the existing one may be shared
+        last_update = self._device._last_update
+        last_update[self._module] = {**last_update[self._module], **update}
+
+    def _is_today(self, entry: dict) -> bool:
+        """Return true if the entry is the one of the current day."""
+        today = self._date or datetime.now().date()
+        return entry["day"] == today.day and self._is_this_month(entry)
+
+    def _is_this_month(self, entry: dict) -> bool:
+        """Return true if the entry is from the current month."""
+        today = self._date or datetime.now().date()
+        return entry["month"] == today.month and entry["year"] == today.year
+
     @property
     def estimated_query_response_size(self) -> int:
         """Estimated maximum query response size."""
@@ -42,20 +73,18 @@ class Usage(IotModule):
     @property
     def usage_today(self) -> int | None:
         """Return today's usage in minutes."""
-        today = datetime.now().day
         # Traverse the list in reverse order to find the latest entry.
         for entry in reversed(self.daily_data):
-            if entry["day"] == today:
+            if self._is_today(entry):
                 return entry["time"]
         return None
 
     @property
     def usage_this_month(self) -> int | None:
         """Return usage in this month in minutes."""
-        this_month = datetime.now().month
         # Traverse the list in reverse order to find the latest entry.
         for entry in reversed(self.monthly_data):
-            if entry["month"] == this_month:
+            if self._is_this_month(entry):
                 return entry["time"]
         return None
 
-- 
2.43.0


From 4faf744e87b4e6ab8184d496d628a4b37b4ca8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:50 +0000
Subject: [PATCH 38/55] fix: log to standard error instead of mixing logs with
 the results

---
 kasa/cli/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kasa/cli/main.py b/kasa/cli/main.py
index 4f1eccd..c7243b8 100755
--- a/kasa/cli/main.py
+++ b/kasa/cli/main.py
@@ -259,9 +259,12 @@ async def cli(
         "level": logging.DEBUG if debug > 0 else logging.INFO
     }
     try:
+        from rich.console import Console
         from rich.logging import RichHandler
 
+        # Standard output is for the results.
         rich_config = {
+            "console": Console(stderr=True),
             "show_time": False,
         }
         logging_config["handlers"] = [RichHandler(**rich_config)]
-- 
2.43.0


From 4c6743c2456d34ef3079846f62b7b7341b23160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:50 +0000
Subject: [PATCH 39/55] fix: exit with an error if no device has the given
 alias

---
 kasa/cli/main.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kasa/cli/main.py b/kasa/cli/main.py
index c7243b8..3af1a45 100755
--- a/kasa/cli/main.py
+++ b/kasa/cli/main.py
@@ -354,8 +354,7 @@ async def cli(
             alias=alias, target=target, credentials=credentials
         )
         if not dev:
-            echo(f"No device with name {alias} found")
-            return
+            error(f"No device with name {alias} found")
         echo(f"Found hostname by alias: {dev.host}")
         device_updated = True
     else:  # host will be set
-- 
2.43.0


From ce338ca0fea40a641dfdcc193a045c6ba2b86457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:50 +0000
Subject: [PATCH 40/55] fix: close the connections if the initial update of a
 command fails

---
 kasa/cli/main.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kasa/cli/main.py b/kasa/cli/main.py
index 3af1a45..5d349f7 100755
--- a/kasa/cli/main.py
+++ b/kasa/cli/main.py
@@ -366,11 +366,6 @@ async def cli(
         dev = discovered[host]
         device_discovered = True
 
-    # Skip update on specific commands, or if device factory,
-    # that performs an update was used for the device.
-    if ctx.invoked_subcommand not in SKIP_UPDATE_COMMANDS and not device_updated:
-        await dev.update()
-
     @asynccontextmanager
     async def async_wrapped_device(device: Device):
         try:
@@ -380,6 +375,11 @@ async def cli(
 
     ctx.obj = await ctx.with_async_resource(async_wrapped_device(dev))
 
+    # Skip update on specific commands, or if device factory,
+    # that performs an update was used for the device.
+    if ctx.invoked_subcommand not in SKIP_UPDATE_COMMANDS and not device_updated:
+        await dev.update()
+
     # discover command has already invoked state
     if ctx.invoked_subcommand is None and not device_discovered:
         from .device import state
-- 
2.43.0


From 0844876b9c6b57416f0595442dd7034d77eb4f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:51 +0000
Subject: [PATCH 41/55] fix: make the schedule commands work

---
 kasa/cli/schedule.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kasa/cli/schedule.py b/kasa/cli/schedule.py
index 7c9c738..d480985 100644
--- a/kasa/cli/schedule.py
+++ b/kasa/cli/schedule.py
@@ -19,22 +19,22 @@ async def schedule(dev) -> None:
 
 
 @schedule.command(name="list")
-@pass_dev_or_child
 @click.argument("type", default="schedule")
+@pass_dev_or_child
 async def _schedule_list(dev, type):
     """Return the list of schedule actions for the given type."""
     sched = dev.modules[type]
-    for rule in sched.rules:
-        print(rule)
-    else:
+    if not sched.rules:
         error(f"No rules of type {type}")
+    for rule in sched.rules:
+        echo(rule)
 
     return sched.rules
 
 
 @schedule.command(name="delete")
-@pass_dev_or_child
 @click.option("--id", type=str, required=True)
+@pass_dev_or_child
 async def delete_rule(dev, id):
     """Delete rule from device."""
     schedule = dev.modules["schedule"]
-- 
2.43.0


From 658a03adcd0cd3b59716393581f7c1ebc2879a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:51 +0000
Subject: [PATCH 42/55] fix: make the turn-on-behavior command work

---
 kasa/cli/light.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kasa/cli/light.py b/kasa/cli/light.py
index a778556..12d6372 100644
--- a/kasa/cli/light.py
+++ b/kasa/cli/light.py
@@ -188,10 +188,10 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
 
 
 @light.command()
-@pass_dev_or_child
 @click.option("--type", type=click.Choice(["soft", "hard"], case_sensitive=False))
 @click.option("--last", is_flag=True)
 @click.option("--preset", type=int)
+@pass_dev_or_child
 async def turn_on_behavior(dev: Device, type, last, preset):
     """Modify bulb turn-on behavior."""
     if dev.device_type is not Device.Type.Bulb or not isinstance(dev, IotBulb):
@@ -201,13 +201,12 @@ async def turn_on_behavior(dev: Device, type, last, preset):
     echo(f"Current turn on behavior: {settings}")
 
     # Return if we are not setting the value
-    if not type and not last and not preset:
+    if not type and not last and preset is None:
         return settings
 
     # If we are setting the value, the type has to be specified
-    if (last or preset) and type is None:
-        echo("To set the behavior, you need to define --type")
-        return
+    if type is None:
+        error("To set the behavior, you need to define --type")
 
     behavior = getattr(settings, type)
 
-- 
2.43.0


From 08e39b9e91c03f73c91231323886ad220fac6dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:51 +0000
Subject: [PATCH 43/55] fix: report unsupported preset values instead of
 ignoring or crashing

---
 kasa/cli/light.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/kasa/cli/light.py b/kasa/cli/light.py
index 12d6372..0187101 100644
--- a/kasa/cli/light.py
+++ b/kasa/cli/light.py
@@ -173,14 +173,18 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
 
     echo(f"Preset {preset_name} currently: {preset}")
 
-    if brightness is not None and preset.brightness is not None:
-        preset.brightness = brightness
-    if hue is not None and preset.hue is not None:
-        preset.hue = hue
-    if saturation is not None and preset.saturation is not None:
-        preset.saturation = saturation
-    if temperature is not None and preset.temperature is not None:
-        preset.color_temp = temperature
+    values = {
+        "brightness": brightness,
+        "hue": hue,
+        "saturation": saturation,
+        "color_temp": temperature,
+    }
+    for name, value in values.items():
+        if value is None:
+            continue
+        if getattr(preset, name) is None:
+            error(f"Preset {preset_name} does not support {name}")
+        setattr(preset, name, value)
 
     echo(f"Updating preset {preset_name} to: {preset}")
 
-- 
2.43.0


From d5f3a06dc61bf3b154cdc8f40a3f11983407c9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:51 +0000
Subject: [PATCH 44/55] fix: use the time and timezone of the strip for its
 outlets

---
 kasa/iot/iotstrip.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index 8b6d802..2700b6d 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 import logging
 from collections import defaultdict
-from datetime import UTC, datetime, timedelta
+from datetime import UTC, datetime, timedelta, tzinfo
 from typing import TYPE_CHECKING, Any
 
 from ..device_type import DeviceType
@@ -332,6 +332,18 @@ class IotStripPlug(IotPlug):
         self.protocol = parent.protocol  # Must use the same connection as the parent
         self._on_since: datetime | None = None
 
+    @property
+    @requires_update
+    def time(self) -> datetime:
+        """Return current time from the parent device."""
+        return self._parent.time
+
+    @property
+    @requires_update
+    def timezone(self) -> tzinfo:
+        """Return the current timezone of the parent device."""
+        return self._parent.timezone
+
     async def _initialize_modules(self) -> None:
         """Initialize modules not added in init."""
         if self.has_emeter:
-- 
2.43.0


From 37542b58e7dcf55573ad927bb88347e42fb9716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:51 +0000
Subject: [PATCH 45/55] fix: do not print outside of the JSON document

---
 kasa/cli/device.py |  2 +-
 kasa/cli/vacuum.py | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/kasa/cli/device.py b/kasa/cli/device.py
index 7610a7c..0084c1d 100644
--- a/kasa/cli/device.py
+++ b/kasa/cli/device.py
@@ -211,4 +211,4 @@ async def child_logs(dev):
     if logs := dev.modules.get(Module.TriggerLogs):
         await dev.update(update_children=True)
         for entry in logs.logs:
-            print(entry)
+            echo(entry)
diff --git a/kasa/cli/vacuum.py b/kasa/cli/vacuum.py
index d0ccc55..2e6edb2 100644
--- a/kasa/cli/vacuum.py
+++ b/kasa/cli/vacuum.py
@@ -10,6 +10,7 @@ from kasa import (
 )
 
 from .common import (
+    echo,
     error,
     pass_dev_or_child,
 )
@@ -30,12 +31,12 @@ async def records_group(dev: Device) -> None:
 
     data = rec.parsed_data
     latest = data.last_clean
-    click.echo(
+    echo(
         f"Totals: {rec.total_clean_area} {rec.area_unit} in {rec.total_clean_time} "
         f"(cleaned {rec.total_clean_count} times)"
     )
-    click.echo(f"Last clean: {latest.clean_area} {rec.area_unit} @ {latest.clean_time}")
-    click.echo("Execute `kasa vacuum records list` to list all records.")
+    echo(f"Last clean: {latest.clean_area} {rec.area_unit} @ {latest.clean_time}")
+    echo("Execute `kasa vacuum records list` to list all records.")
 
 
 @records_group.command(name="list")
@@ -47,7 +48,7 @@ async def records_list(dev: Device) -> None:
 
     data = rec.parsed_data
     for record in data.records:
-        click.echo(
+        echo(
             f"* {record.timestamp}: cleaned {record.clean_area} {rec.area_unit}"
             f" in {record.clean_time}"
         )
@@ -63,7 +64,7 @@ async def consumables(ctx: click.Context, dev: Device) -> None:
 
     if not ctx.invoked_subcommand:
         for c in cons.consumables.values():
-            click.echo(f"{c.name} ({c.id}): {c.used} used, {c.remaining} remaining")
+            echo(f"{c.name} ({c.id}): {c.used} used, {c.remaining} remaining")
 
 
 @consumables.command(name="reset")
@@ -81,4 +82,4 @@ async def reset_consumable(dev: Device, consumable_id: str) -> None:
 
     await cons.reset_consumable(consumable_id)
 
-    click.echo(f"Consumable {consumable_id} reset")
+    echo(f"Consumable {consumable_id} reset")
-- 
2.43.0


From 04bd75250bf953e743f27b269a5bf27463aca4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:51 +0000
Subject: [PATCH 46/55] fix: show the other devices if one fails in the
 discovery

---
 kasa/cli/discover.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/kasa/cli/discover.py b/kasa/cli/discover.py
index af367e3..a6f55b0 100644
--- a/kasa/cli/discover.py
+++ b/kasa/cli/discover.py
@@ -94,6 +94,13 @@ async def detail(ctx: click.Context) -> DeviceDict:
                 echo("== Authentication failed for device ==")
                 _echo_discovery_info(dev._discovery_info)
                 echo()
+            except Exception as ex:
+                # One device must not keep the others from being shown.
+                if ctx.find_root().params["host"]:
+                    raise
+                echo(f"== Error updating device {dev.host} ==")
+                echo(f"\t{ex}")
+                echo()
             else:
                 ctx.parent.obj = dev
                 await ctx.parent.invoke(state)
@@ -218,7 +225,11 @@ async def _discover(
         )
         if dev:
             if print_discovered:
-                await print_discovered(dev)
+                try:
+                    await print_discovered(dev)
+                except BaseException:
+                    await dev.disconnect()
+                    raise
             return {host: dev}
         else:
             return {}
-- 
2.43.0


From 9797d3cdc3bf91e21c2d891cd11257670013f5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:51 +0000
Subject: [PATCH 47/55] fix: do not wait forever if the discovery for an alias
 fails

---
 kasa/cli/discover.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/kasa/cli/discover.py b/kasa/cli/discover.py
index a6f55b0..cf5d9f4 100644
--- a/kasa/cli/discover.py
+++ b/kasa/cli/discover.py
@@ -380,17 +380,23 @@ async def find_dev_from_alias(
             found_event.set()
 
     async def do_discover():
-        for _ in range(1, attempts):
-            await Discover.discover(
-                target=target,
-                timeout=timeout,
-                credentials=credentials,
-                on_discovered=on_discovered,
-            )
-            if found_event.is_set():
-                break
-        found_event.set()
+        try:
+            for _ in range(1, attempts):
+                await Discover.discover(
+                    target=target,
+                    timeout=timeout,
+                    credentials=credentials,
+                    on_discovered=on_discovered,
+                )
+                if found_event.is_set():
+                    break
+        finally:
+            found_event.set()
 
-    asyncio.create_task(do_discover())
+    discover_task = asyncio.create_task(do_discover())
     await found_event.wait()
-    return found_device[0] if found_device else None
+    if not found_device:
+        # Raises if the discovery failed
+        await discover_task
+        return None
+    return found_device[0]
-- 
2.43.0


From cdb311414cff1b6e9378687993c9e05ce877cbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:51 +0000
Subject: [PATCH 48/55] fix: close all discovered devices if interrupted

---
 kasa/cli/discover.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kasa/cli/discover.py b/kasa/cli/discover.py
index cf5d9f4..d6febe3 100644
--- a/kasa/cli/discover.py
+++ b/kasa/cli/discover.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import asyncio
+from contextlib import AsyncExitStack
 from pprint import pformat as pf
 from typing import TYPE_CHECKING, cast
 
@@ -46,8 +47,10 @@ async def discover(ctx: click.Context):
 async def _close_protocols(ctx: click.Context, discovered: DeviceDict):
     """Close all the device protocols if discover was invoked directly by the user."""
     if _discover_is_root_cmd(ctx):
-        for dev in discovered.values():
-            await dev.disconnect()
+        # Closes all of them also if interrupted
+        async with AsyncExitStack() as stack:
+            for dev in discovered.values():
+                stack.push_async_callback(dev.disconnect)
     return discovered
 
 
-- 
2.43.0


From 03297225d961d2aec4a2491f5ba556e283db7695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:51 +0000
Subject: [PATCH 49/55] fix: report missing time module and return the time as
 JSON

---
 kasa/cli/time.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/kasa/cli/time.py b/kasa/cli/time.py
index e2cb4c1..2168c5e 100644
--- a/kasa/cli/time.py
+++ b/kasa/cli/time.py
@@ -23,10 +23,10 @@ from .common import (
 
 @click.group(invoke_without_command=True)
 @click.pass_context
-async def time(ctx: click.Context) -> None:
+async def time(ctx: click.Context):
     """Get and set time."""
     if ctx.invoked_subcommand is None:
-        await ctx.invoke(time_get)
+        return await ctx.invoke(time_get)
 
 
 @time.command(name="get")
@@ -58,8 +58,7 @@ async def time_get(dev: Device):
 async def time_sync(dev: Device, timezone: str | None, skip_confirm: bool):
     """Set the device time to current time."""
     if (time := dev.modules.get(Module.Time)) is None:
-        echo("Device does not have time module")
-        return
+        error("Device does not have time module")
 
     now = datetime.now()
 
@@ -117,8 +116,7 @@ async def time_set(
 ):
     """Set the device time to the provided time."""
     if (time := dev.modules.get(Module.Time)) is None:
-        echo("Device does not have time module")
-        return
+        error("Device does not have time module")
 
     tzinfo: zoneinfo.ZoneInfo | None = None
     if timezone:
-- 
2.43.0


From 5e98fa7082f477ece09595f6b42f9e5619b7232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:51 +0000
Subject: [PATCH 50/55] fix: send the turn-on behavior the way the bulb expects
 it

---
 kasa/iot/iotbulb.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/kasa/iot/iotbulb.py b/kasa/iot/iotbulb.py
index cb2e858..54ba73a 100644
--- a/kasa/iot/iotbulb.py
+++ b/kasa/iot/iotbulb.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 import logging
 import re
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from enum import Enum
 from typing import Annotated, cast
 
@@ -69,11 +69,25 @@ class TurnOnBehavior(DataClassDictMixin):
     hue: int | None = None
     saturation: int | None = None
 
+    def __pre_serialize__(self) -> TurnOnBehavior:
+        """Return the behavior with the mode based on the preset."""
+        mode = self.mode
+        if self.preset is not None:
+            mode = BehaviorMode.Preset
+        elif mode is BehaviorMode.Preset:
+            mode = BehaviorMode.Last
+        return replace(self, mode=mode)
+
 
 @dataclass
 class TurnOnBehaviors(DataClassDictMixin):
     """Model to contain turn on behaviors."""
 
+    class Config(BaseConfig):
+        """Serialization config."""
+
+        serialize_by_alias = True
+
     #: The behavior when the bulb is turned on programmatically.
     soft: Annotated[TurnOnBehavior, Alias("soft_on")]
     #: The behavior when the bulb has been off from mains power.
-- 
2.43.0


From f48d75f092b934c8573762b9c8a30c2d76153e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:51 +0000
Subject: [PATCH 51/55] fix: report if the system information of an iot device
 is missing

---
 kasa/iot/iotdevice.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index 5c84a86..f65142b 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -319,6 +319,7 @@ class IotDevice(Device):
         if not self._last_update:
             _LOGGER.debug("Performing the initial update to obtain sysinfo")
             response = await self.protocol.query(req)
+            self._raise_for_sys_info(response)
             self._last_update = response
             self._set_sys_info(_extract_sys_info(response))
 
@@ -464,6 +465,8 @@ class IotDevice(Device):
             if not request:
                 continue
             responses.append(response := await self.protocol.query(request))
+            if "system" in request:
+                self._raise_for_sys_info(response)
             if time_module and time_module._module in response:
                 time_received = time.monotonic()
 
@@ -515,6 +518,15 @@ class IotDevice(Device):
             no_region_model, _, _ = discovery_model.partition("(")
             self._set_sys_info({**info, "model": no_region_model})
 
+    def _raise_for_sys_info(self, response: dict[str, Any]) -> None:
+        """Raise if the response does not contain the system information."""
+        system = response.get("system")
+        sys_info = system.get("get_sysinfo") if isinstance(system, dict) else None
+        if not isinstance(sys_info, dict) or sys_info.get("err_code"):
+            raise KasaException(
+                f"Unable to read system information of {self.host}: {system}"
+            )
+
     def _set_sys_info(self, sys_info: dict[str, Any]) -> None:
         """Set sys_info."""
         self._sys_info = sys_info
-- 
2.43.0


From 4d93c81cf7e957224ac9532d60c5b949c2047289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:51 +0000
Subject: [PATCH 52/55] fix: repeat the first update if it failed

---
 kasa/smart/smartdevice.py       | 7 +++++--
 kasa/smartcam/smartcamdevice.py | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 2c6aca6..f759626 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -245,7 +245,9 @@ class SmartDevice(Device):
         self._info = self._try_get_response(resp, "get_device_info")
 
         # Create our internal presentation of available components
-        self._components_raw = cast(ComponentsRaw, resp["component_nego"])
+        self._components_raw = cast(
+            ComponentsRaw, self._try_get_response(resp, "component_nego")
+        )
 
         self._components = self._parse_components(self._components_raw)
 
@@ -287,7 +289,6 @@ class SmartDevice(Device):
 
         first_update = self._last_update_time is None
         now = time.monotonic()
-        self._last_update_time = now
 
         if first_update:
             await self._negotiate()
@@ -297,6 +298,8 @@ class SmartDevice(Device):
                 await self._handle_module_post_update(cloud_mod, now, had_query=True)
 
         resp = await self._modular_update(first_update, now)
+        # A failed first update is repeated in full
+        self._last_update_time = now
 
         children_changed = await self._update_children_info()
         # Call child update which will only update module calls, info is updated
diff --git a/kasa/smartcam/smartcamdevice.py b/kasa/smartcam/smartcamdevice.py
index 9eb490a..b2f197a 100644
--- a/kasa/smartcam/smartcamdevice.py
+++ b/kasa/smartcam/smartcamdevice.py
@@ -210,7 +210,8 @@ class SmartCamDevice(SmartDevice):
         self._update_internal_info(resp)
 
         self._components_raw = cast(
-            ComponentsRaw, resp["getAppComponentList"]["app_component"]
+            ComponentsRaw,
+            self._try_get_response(resp, "getAppComponentList")["app_component"],
         )
         self._components = self._parse_components(self._components_raw)
 
-- 
2.43.0


From d0b4043a7420fa09c1866bea5beee6dffa65ab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:51 +0000
Subject: [PATCH 53/55] fix: initialize the features of a device completely or
 not at all

---
 kasa/smart/smartchilddevice.py |  2 +-
 kasa/smart/smartdevice.py      | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/smartchilddevice.py b/kasa/smart/smartchilddevice.py
index f0216fd..6e08652 100644
--- a/kasa/smart/smartchilddevice.py
+++ b/kasa/smart/smartchilddevice.py
@@ -124,7 +124,7 @@ class SmartChildDevice(SmartDevice):
         # We can first initialize the features after the first update.
         # We make here an assumption that every device has at least a single feature.
         if not self._features:
-            await self._initialize_features()
+            await self._initialize_all_features()
 
     @classmethod
     async def create(
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index f759626..a2ff37f 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -316,7 +316,7 @@ class SmartDevice(Device):
         # We can first initialize the features after the first update.
         # We make here an assumption that every device has at least a single feature.
         if not self._features:
-            await self._initialize_features()
+            await self._initialize_all_features()
 
         if _LOGGER.isEnabledFor(logging.DEBUG):
             updated = self._last_update if first_update else resp
@@ -487,6 +487,17 @@ class SmartDevice(Device):
         if Time.__name__ in self._modules:
             self._modules.move_to_end(Time.__name__, last=False)
 
+    async def _initialize_all_features(self) -> None:
+        """Initialize the features, either all of them or none."""
+        try:
+            await self._initialize_features()
+        except BaseException:
+            # To be initialized by the next update
+            self._features.clear()
+            for module in self._modules.values():
+                module._module_features.clear()
+            raise
+
     async def _initialize_features(self) -> None:
         """Initialize device features."""
         self._add_feature(
-- 
2.43.0


From d59e8f851e9dbaf6941864ab21bf12ac5fdfa876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:51 +0000
Subject: [PATCH 54/55] fix: ask for child components again if the initial
 query failed

---
 kasa/smart/modules/childdevice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/childdevice.py b/kasa/smart/modules/childdevice.py
index e816e3f..8bc5eff 100644
--- a/kasa/smart/modules/childdevice.py
+++ b/kasa/smart/modules/childdevice.py
@@ -51,6 +51,7 @@ class ChildDevice(SmartModule):
     def query(self) -> dict:
         """Query to execute during the update cycle."""
         q = super().query()
-        if self._device.device_type is DeviceType.Hub:
+        # The components are also needed if the initial query for them has failed
+        if self._device.device_type is DeviceType.Hub or not self._device.children:
             q["get_child_device_component_list"] = None
         return q
-- 
2.43.0


From 936d229e70aa820c16f45d094f859b46d776e924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:51 +0000
Subject: [PATCH 55/55] fix: show networks lacking optional details in the wifi
 scan

---
 kasa/smart/smartdevice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index a2ff37f..a546926 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -790,11 +790,11 @@ class SmartDevice(Device):
         def _net_for_scan_info(res: dict) -> WifiNetwork:
             return WifiNetwork(
                 ssid=base64.b64decode(res["ssid"]).decode(),
-                cipher_type=res["cipher_type"],
+                cipher_type=res.get("cipher_type"),
                 key_type=res["key_type"],
-                channel=res["channel"],
+                channel=res.get("channel"),
                 signal_level=res["signal_level"],
-                bssid=res["bssid"],
+                bssid=res.get("bssid"),
             )
 
         _LOGGER.debug("Querying networks")
-- 
2.43.0

