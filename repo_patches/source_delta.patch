From 9d89577f7df1733960af033b0dcf7afb9fb36421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:47 +0000
Subject: [PATCH 01/77] fix: BaseHTTPMiddleware must not re-raise an exception
 that dispatch() has already handled

---
 starlette/middleware/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 2a59337..2386b62 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -104,6 +104,7 @@ class BaseHTTPMiddleware:
         wrapped_receive = request.wrapped_receive
         response_sent = anyio.Event()
         app_exc: Exception | None = None
+        exception_already_raised = False
 
         async def call_next(request: Request) -> Response:
             async def receive_or_disconnect() -> Message:
@@ -150,6 +151,8 @@ class BaseHTTPMiddleware:
                     message = await recv_stream.receive()
             except anyio.EndOfStream:
                 if app_exc is not None:
+                    nonlocal exception_already_raised
+                    exception_already_raised = True
                     raise app_exc
                 raise RuntimeError("No response returned.")
 
@@ -177,7 +180,7 @@ class BaseHTTPMiddleware:
                 response_sent.set()
                 recv_stream.close()
 
-        if app_exc is not None:
+        if app_exc is not None and not exception_already_raised:
             raise app_exc
 
     async def dispatch(self, request: Request, call_next: RequestResponseEndpoint) -> Response:
-- 
2.43.0


From 579c93d2b3cd5e8a467d15146b85b070e1e2c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:47 +0000
Subject: [PATCH 02/77] fix: StaticFiles ignores If-Modified-Since when
 If-None-Match is present

---
 starlette/staticfiles.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index 637da64..fc10de2 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -201,13 +201,11 @@ class StaticFiles:
         Given the request and response headers, return `True` if an HTTP
         "Not Modified" response could be returned instead.
         """
-        try:
+        if "if-none-match" in request_headers:
+            # If-Modified-Since must be ignored when If-None-Match is present (RFC 9110, 13.1.3).
             if_none_match = request_headers["if-none-match"]
             etag = response_headers["etag"]
-            if etag in [tag.strip(" W/") for tag in if_none_match.split(",")]:
-                return True
-        except KeyError:
-            pass
+            return etag in [tag.strip(" W/") for tag in if_none_match.split(",")]
 
         try:
             if_modified_since = parsedate(request_headers["if-modified-since"])
-- 
2.43.0


From 723a70bcc8f724d05f28940d207fdf1973f27d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:47 +0000
Subject: [PATCH 03/77] fix: StaticFiles responds 404 to a path that cannot
 name a file, instead of 500

---
 starlette/staticfiles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index fc10de2..18bd379 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -123,6 +123,9 @@ class StaticFiles:
                 raise HTTPException(status_code=404)
 
             raise exc
+        except ValueError:
+            # The path can't name a file, eg. it includes a NUL character.
+            raise HTTPException(status_code=404)
 
         if stat_result and stat.S_ISREG(stat_result.st_mode):
             # We have a static file to serve.
-- 
2.43.0


From da17b561db5569dde3e7c4895a03638bdfae2ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 04/77] fix: reject a byte range whose end is the position
 before its start, instead of sending an empty 206

---
 starlette/responses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 81e89fa..27ccc02 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -471,7 +471,7 @@ class FileResponse(Response):
         if any(not (0 <= start < file_size) for start, _ in ranges):
             raise RangeNotSatisfiable(file_size)
 
-        if any(start > end for start, end in ranges):
+        if any(start >= end for start, end in ranges):
             raise MalformedRangeHeader("Range header: start must be less than end")
 
         if len(ranges) == 1:
-- 
2.43.0


From fe386a93bb511cdf2e1c26de501587d1fb4a80ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 05/77] fix: merge every overlapping byte range, in linear time
 after sorting

---
 starlette/responses.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 27ccc02..50072e8 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -478,18 +478,12 @@ class FileResponse(Response):
             return ranges
 
         # Merge ranges
-        result: list[tuple[int, int]] = []
-        for start, end in ranges:
-            for p in range(len(result)):
-                p_start, p_end = result[p]
-                if start > p_end:
-                    continue
-                elif end < p_start:
-                    result.insert(p, (start, end))  # THIS IS NOT REACHED!
-                    break
-                else:
-                    result[p] = (min(start, p_start), max(end, p_end))
-                    break
+        ranges.sort()
+        result: list[tuple[int, int]] = [ranges[0]]
+        for start, end in ranges[1:]:
+            last_start, last_end = result[-1]
+            if start <= last_end:
+                result[-1] = (last_start, max(last_end, end))
             else:
                 result.append((start, end))
 
-- 
2.43.0


From 4756b3ca2d68cb25271df1d356765be946026805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 06/77] fix: a suffix byte range longer than the file selects
 the whole file, instead of 416

---
 starlette/responses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 50072e8..27168fb 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -458,7 +458,7 @@ class FileResponse(Response):
 
         ranges = [
             (
-                int(_[0]) if _[0] else file_size - int(_[1]),
+                int(_[0]) if _[0] else max(file_size - int(_[1]), 0),
                 int(_[1]) + 1 if _[0] and _[1] and int(_[1]) < file_size else file_size,
             )
             for _ in _RANGE_PATTERN.findall(range_)
-- 
2.43.0


From cfb1fa3c81ae1bad790fcd46f68c3c2f129f7fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 07/77] fix: respond 400 to a Range header with an oversized
 number, instead of 500

---
 starlette/responses.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 27168fb..829c816 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -456,14 +456,18 @@ class FileResponse(Response):
         if units != "bytes":
             raise MalformedRangeHeader("Only support bytes range")
 
-        ranges = [
-            (
-                int(_[0]) if _[0] else max(file_size - int(_[1]), 0),
-                int(_[1]) + 1 if _[0] and _[1] and int(_[1]) < file_size else file_size,
-            )
-            for _ in _RANGE_PATTERN.findall(range_)
-            if _ != ("", "")
-        ]
+        try:
+            ranges = [
+                (
+                    int(_[0]) if _[0] else max(file_size - int(_[1]), 0),
+                    int(_[1]) + 1 if _[0] and _[1] and int(_[1]) < file_size else file_size,
+                )
+                for _ in _RANGE_PATTERN.findall(range_)
+                if _ != ("", "")
+            ]
+        except ValueError:
+            # Python limits the number of digits `int()` accepts.
+            raise MalformedRangeHeader()
 
         if len(ranges) == 0:
             raise MalformedRangeHeader("Range header: range must be requested")
-- 
2.43.0


From 9ac0462a233c3c6b109615b02eb2084fc7d08d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 08/77] fix: UploadFile.write() rolls a spooled file over to
 disk in the threadpool, not in the event loop

---
 starlette/datastructures.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index f5d74d2..d93fa22 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -434,11 +434,16 @@ class UploadFile:
         rolled_to_disk = getattr(self.file, "_rolled", True)
         return not rolled_to_disk
 
+    def _will_roll(self, size_to_add: int) -> bool:
+        # Writing past SpooledTemporaryFile._max_size rolls the file over to disk
+        max_size = getattr(self.file, "_max_size", 0)
+        return bool(max_size) and self.file.tell() + size_to_add > max_size
+
     async def write(self, data: bytes) -> None:
         if self.size is not None:
             self.size += len(data)
 
-        if self._in_memory:
+        if self._in_memory and not self._will_roll(len(data)):
             self.file.write(data)
         else:
             await run_in_threadpool(self.file.write, data)
-- 
2.43.0


From f6643b8ac9e1a19e0e70d290c192261602704feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 09/77] fix: GZipMiddleware accepts a response body message
 without the optional body key

---
 starlette/middleware/gzip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index c7fd5b7..f8756a6 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -73,7 +73,7 @@ class IdentityResponder:
 
                 headers = MutableHeaders(raw=self.initial_message["headers"])
                 headers.add_vary_header("Accept-Encoding")
-                if body != message["body"]:
+                if body != message.get("body", b""):
                     headers["Content-Encoding"] = self.content_encoding
                     headers["Content-Length"] = str(len(body))
                     message["body"] = body
@@ -86,7 +86,7 @@ class IdentityResponder:
 
                 headers = MutableHeaders(raw=self.initial_message["headers"])
                 headers.add_vary_header("Accept-Encoding")
-                if body != message["body"]:
+                if body != message.get("body", b""):
                     headers["Content-Encoding"] = self.content_encoding
                     del headers["Content-Length"]
                     message["body"] = body
-- 
2.43.0


From 7f7828238d8686ea736a704cfb7143c766bc005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 10/77] fix: URL reversing must not expand a parameter value
 that looks like another parameter

---
 starlette/routing.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/starlette/routing.py b/starlette/routing.py
index add7df0..02d23d9 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -106,12 +106,20 @@ def replace_params(
     param_convertors: dict[str, Convertor[typing.Any]],
     path_params: dict[str, str],
 ) -> tuple[str, dict[str, str]]:
-    for key, value in list(path_params.items()):
-        if "{" + key + "}" in path:
-            convertor = param_convertors[key]
-            value = convertor.to_string(value)
-            path = path.replace("{" + key + "}", value)
-            path_params.pop(key)
+    # Every parameter is substituted in a single pass over the template, so that
+    # a value that itself looks like "{param}" is not expanded again.
+    replaced = set()
+
+    def replace(match: re.Match[str]) -> str:
+        key = match.group(1)
+        if key not in path_params:
+            return match.group(0)
+        replaced.add(key)
+        return param_convertors[key].to_string(path_params[key])
+
+    path = re.sub("{([a-zA-Z_][a-zA-Z0-9_]*)}", replace, path)
+    for key in replaced:
+        path_params.pop(key)
     return path, path_params
 
 
-- 
2.43.0


From d8aa883405e6977955ab3232e36145cc4298264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 11/77] fix: a route must not match a path with an extra
 trailing newline

---
 starlette/routing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/routing.py b/starlette/routing.py
index 02d23d9..f81f791 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -174,9 +174,9 @@ def compile_path(
     if is_host:
         # Align with `Host.matches()` behavior, which ignores port.
         hostname = path[idx:].split(":")[0]
-        path_regex += re.escape(hostname) + "$"
+        path_regex += re.escape(hostname) + r"\Z"
     else:
-        path_regex += re.escape(path[idx:]) + "$"
+        path_regex += re.escape(path[idx:]) + r"\Z"
 
     path_format += path[idx:]
 
-- 
2.43.0


From 88fad7ecc1b627c7d17fae74cfc5b062a5da9dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 12/77] fix: the path convertor matches the rest of the path,
 newlines included

---
 starlette/convertors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/convertors.py b/starlette/convertors.py
index 84df87a..1879f05 100644
--- a/starlette/convertors.py
+++ b/starlette/convertors.py
@@ -31,7 +31,7 @@ class StringConvertor(Convertor[str]):
 
 
 class PathConvertor(Convertor[str]):
-    regex = ".*"
+    regex = "(?s:.*)"
 
     def convert(self, value: str) -> str:
         return str(value)
-- 
2.43.0


From 5ed704530583814a718972faef29734b40b99915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 13/77] fix: fall back to latin-1 for any multipart charset
 that cannot be used, instead of 500

---
 starlette/formparsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/formparsers.py b/starlette/formparsers.py
index 4551d68..d14fdeb 100644
--- a/starlette/formparsers.py
+++ b/starlette/formparsers.py
@@ -44,7 +44,7 @@ class MultipartPart:
 def _user_safe_decode(src: bytes | bytearray, codec: str) -> str:
     try:
         return src.decode(codec)
-    except (UnicodeDecodeError, LookupError):
+    except (ValueError, LookupError):
         return src.decode("latin-1")
 
 
-- 
2.43.0


From 4279c99178b0391d6df928aeeecd61d53f22ba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:33 +0000
Subject: [PATCH 14/77] fix: malformed multipart data is a client error (400),
 and closes the files already received

---
 starlette/formparsers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/starlette/formparsers.py b/starlette/formparsers.py
index d14fdeb..5b0c6cb 100644
--- a/starlette/formparsers.py
+++ b/starlette/formparsers.py
@@ -246,9 +246,9 @@ class MultiPartParser:
             "on_end": self.on_end,
         }
 
-        # Create the parser.
-        parser = multipart.MultipartParser(boundary, callbacks)
         try:
+            # Create the parser.
+            parser = multipart.MultipartParser(boundary, callbacks)
             # Feed the parser with data from the request.
             async for chunk in self.stream:
                 parser.write(chunk)
@@ -270,6 +270,11 @@ class MultiPartParser:
             for file in self._files_to_close_on_error:
                 file.close()
             raise exc
+        except multipart.exceptions.FormParserError as exc:
+            # The boundary or the body isn't valid multipart data.
+            for file in self._files_to_close_on_error:
+                file.close()
+            raise MultiPartException(str(exc)) from exc
 
         parser.finalize()
         return FormData(self.items)
-- 
2.43.0


From 271f9a59fa073b3cf56dec890ceb7ad8ae15632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:33 +0000
Subject: [PATCH 15/77] fix: close the files already received when multipart
 parsing is aborted for any reason

---
 starlette/formparsers.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/starlette/formparsers.py b/starlette/formparsers.py
index 5b0c6cb..b6977ef 100644
--- a/starlette/formparsers.py
+++ b/starlette/formparsers.py
@@ -265,16 +265,14 @@ class MultiPartParser:
                     await part.file.seek(0)
                 self._file_parts_to_write.clear()
                 self._file_parts_to_finish.clear()
-        except MultiPartException as exc:
-            # Close all the files if there was an error.
+        except BaseException as exc:
+            # Close all the files if there was an error, a client disconnect or a cancellation.
             for file in self._files_to_close_on_error:
                 file.close()
+            if isinstance(exc, multipart.exceptions.FormParserError):
+                # The boundary or the body isn't valid multipart data.
+                raise MultiPartException(str(exc)) from exc
             raise exc
-        except multipart.exceptions.FormParserError as exc:
-            # The boundary or the body isn't valid multipart data.
-            for file in self._files_to_close_on_error:
-                file.close()
-            raise MultiPartException(str(exc)) from exc
 
         parser.finalize()
         return FormData(self.items)
-- 
2.43.0


From 8207287ad7ef869e8f2942187f1906de62e491d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:08 +0000
Subject: [PATCH 16/77] fix: HTTPSRedirectMiddleware keeps the brackets of an
 IPv6 host when it removes the port

---
 starlette/middleware/httpsredirect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starlette/middleware/httpsredirect.py b/starlette/middleware/httpsredirect.py
index a835906..19e5ef8 100644
--- a/starlette/middleware/httpsredirect.py
+++ b/starlette/middleware/httpsredirect.py
@@ -12,6 +12,9 @@ class HTTPSRedirectMiddleware:
             url = URL(scope=scope)
             redirect_scheme = {"http": "https", "ws": "wss"}[url.scheme]
             netloc = url.hostname if url.port in (80, 443) else url.netloc
+            if netloc is not None and netloc.count(":") > 1 and "[" not in netloc:
+                # `hostname` is an IPv6 address, without its brackets.
+                netloc = f"[{netloc}]"
             url = url.replace(scheme=redirect_scheme, netloc=netloc)
             response = RedirectResponse(url, status_code=307)
             await response(scope, receive, send)
-- 
2.43.0


From 8b5cca34a125a42c6422ef59aa3cd1b532be8fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:08 +0000
Subject: [PATCH 17/77] fix: WSGIMiddleware closes the iterable the application
 returned, as PEP 3333 requires

---
 starlette/middleware/wsgi.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index 6e0a3fa..e7acdf0 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -143,10 +143,16 @@ class WSGIResponder:
         environ: dict[str, typing.Any],
         start_response: typing.Callable[..., typing.Any],
     ) -> None:
-        for chunk in self.app(environ, start_response):
-            anyio.from_thread.run(
-                self.stream_send.send,
-                {"type": "http.response.body", "body": chunk, "more_body": True},
-            )
+        iterable = self.app(environ, start_response)
+        try:
+            for chunk in iterable:
+                anyio.from_thread.run(
+                    self.stream_send.send,
+                    {"type": "http.response.body", "body": chunk, "more_body": True},
+                )
+        finally:
+            # PEP 3333: the iterable must be closed, whether or not it was exhausted.
+            if hasattr(iterable, "close"):
+                iterable.close()
 
         anyio.from_thread.run(self.stream_send.send, {"type": "http.response.body", "body": b""})
-- 
2.43.0


From fa877fe9be67c71115a4b303e4fd828eb1138ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:08 +0000
Subject: [PATCH 18/77] fix: GZipMiddleware forwards http.response.debug
 messages instead of dropping them

---
 starlette/middleware/gzip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index f8756a6..8bdb858 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -93,6 +93,8 @@ class IdentityResponder:
 
                 await self.send(self.initial_message)
                 await self.send(message)
+        elif message_type == "http.response.debug":
+            await self.send(message)
         elif message_type == "http.response.body":  # pragma: no branch
             # Remaining body in streaming response.
             body = message.get("body", b"")
-- 
2.43.0


From 0adbac0bfb143dc29d264a192348f8213f554d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:08 +0000
Subject: [PATCH 19/77] fix: a multi-range response must not loop forever when
 the file is truncated while it is sent

---
 starlette/responses.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starlette/responses.py b/starlette/responses.py
index 829c816..b3627ec 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -429,6 +429,8 @@ class FileResponse(Response):
                     await file.seek(start)
                     while start < end:
                         chunk = await file.read(min(self.chunk_size, end - start))
+                        if not chunk:
+                            break  # The file was truncated.
                         start += len(chunk)
                         await send({"type": "http.response.body", "body": chunk, "more_body": True})
                     await send({"type": "http.response.body", "body": b"\n", "more_body": True})
-- 
2.43.0


From 4b2b88ab918483b39500a503a24f78b7a6adeec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:21 +0000
Subject: [PATCH 20/77] fix: BaseHTTPMiddleware must not complete a response
 body that the app failed to finish

---
 starlette/middleware/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 2386b62..5e63f79 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -166,6 +166,10 @@ class BaseHTTPMiddleware:
                         yield body
                     if not message.get("more_body", False):
                         break
+                else:
+                    # The app stopped half-way: don't let the truncated body be marked as complete.
+                    if app_exc is not None:
+                        raise app_exc
 
             response = _StreamingResponse(status_code=message["status"], content=body_stream(), info=info)
             response.raw_headers = message["headers"]
-- 
2.43.0


From 45c7c3a121877a3d0c56a1a3823ad406968374c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 21/77] fix: URL reversing must not leave a missing mount or
 host parameter as a literal {name}

---
 starlette/routing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starlette/routing.py b/starlette/routing.py
index f81f791..8ea817a 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -438,6 +438,8 @@ class Mount(BaseRoute):
         return Match.NONE, {}
 
     def url_path_for(self, name: str, /, **path_params: typing.Any) -> URLPath:
+        if not self.param_convertors.keys() - {"path"} <= path_params.keys():
+            raise NoMatchFound(name, path_params)
         if self.name is not None and name == self.name and "path" in path_params:
             # 'name' matches "<mount_name>".
             path_params["path"] = path_params["path"].lstrip("/")
@@ -504,6 +506,8 @@ class Host(BaseRoute):
         return Match.NONE, {}
 
     def url_path_for(self, name: str, /, **path_params: typing.Any) -> URLPath:
+        if not self.param_convertors.keys() <= path_params.keys():
+            raise NoMatchFound(name, path_params)
         if self.name is not None and name == self.name and "path" in path_params:
             # 'name' matches "<mount_name>".
             path = path_params.pop("path")
-- 
2.43.0


From 93dabb2d8455bbedbeb1c1269e1515f0c2d7c171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 22/77] fix: the float convertor reverses every float to a path
 that converts back to it

---
 starlette/convertors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starlette/convertors.py b/starlette/convertors.py
index 1879f05..b0273df 100644
--- a/starlette/convertors.py
+++ b/starlette/convertors.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import math
 import typing
 import uuid
+from decimal import Decimal
 
 T = typing.TypeVar("T")
 
@@ -63,7 +64,9 @@ class FloatConvertor(Convertor[float]):
         assert value >= 0.0, "Negative floats are not supported"
         assert not math.isnan(value), "NaN values are not supported"
         assert not math.isinf(value), "Infinite values are not supported"
-        return ("%0.20f" % value).rstrip("0").rstrip(".")
+        # The shortest positional notation that converts back to the same float.
+        text = format(Decimal(repr(value)), "f")
+        return text.rstrip("0").rstrip(".") if "." in text else text
 
 
 class UUIDConvertor(Convertor[uuid.UUID]):
-- 
2.43.0


From 29d13c7f660250c6cbec67ba432e30e2e7c9edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 23/77] fix: reversing a URL through a mount keeps the host of
 a Host route inside it

---
 starlette/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/routing.py b/starlette/routing.py
index 8ea817a..7272ad2 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -461,7 +461,7 @@ class Mount(BaseRoute):
             for route in self.routes or []:
                 try:
                     url = route.url_path_for(remaining_name, **remaining_params)
-                    return URLPath(path=path_prefix.rstrip("/") + str(url), protocol=url.protocol)
+                    return URLPath(path=path_prefix.rstrip("/") + str(url), protocol=url.protocol, host=url.host)
                 except NoMatchFound:
                     pass
         raise NoMatchFound(name, path_params)
-- 
2.43.0


From d7a46015cb0a4e41dfae4917b81babfe7734a161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 24/77] fix: a Range header must not turn a file sent with
 another status (eg. a 404 page) into a 206

---
 starlette/responses.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index b3627ec..66e7b40 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -355,7 +355,12 @@ class FileResponse(Response):
         http_range = headers.get("range")
         http_if_range = headers.get("if-range")
 
-        if http_range is None or (http_if_range is not None and not self._should_use_range(http_if_range)):
+        # A range only applies to a file that would otherwise be sent with 200 (RFC 9110, 14.2), not eg. to a 404 page.
+        if (
+            http_range is None
+            or self.status_code != 200
+            or (http_if_range is not None and not self._should_use_range(http_if_range))
+        ):
             await self._handle_simple(send, send_header_only)
         else:
             try:
-- 
2.43.0


From 212c092a5e33a480094f1d83bfe16d5c7dc6aff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 25/77] fix: add_vary_header keeps the values of every existing
 Vary header

---
 starlette/datastructures.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index d93fa22..5a83ee8 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -645,10 +645,7 @@ class MutableHeaders(Headers):
         self._list.append((append_key, append_value))
 
     def add_vary_header(self, vary: str) -> None:
-        existing = self.get("vary")
-        if existing is not None:
-            vary = ", ".join([existing, vary])
-        self["vary"] = vary
+        self["vary"] = ", ".join([*self.getlist("vary"), vary])
 
 
 class State:
-- 
2.43.0


From 956f09c2e236e319128e0b754ced40c7536e19b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:38 +0000
Subject: [PATCH 26/77] fix: GZipMiddleware must not edit the header list of
 the wrapped response in place

---
 starlette/middleware/gzip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index 8bdb858..08c650e 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -71,7 +71,7 @@ class IdentityResponder:
                 # Standard response.
                 body = self.apply_compression(body, more_body=False)
 
-                headers = MutableHeaders(raw=self.initial_message["headers"])
+                headers = MutableHeaders(scope=self.initial_message)
                 headers.add_vary_header("Accept-Encoding")
                 if body != message.get("body", b""):
                     headers["Content-Encoding"] = self.content_encoding
@@ -84,7 +84,7 @@ class IdentityResponder:
                 # Initial body in streaming response.
                 body = self.apply_compression(body, more_body=True)
 
-                headers = MutableHeaders(raw=self.initial_message["headers"])
+                headers = MutableHeaders(scope=self.initial_message)
                 headers.add_vary_header("Accept-Encoding")
                 if body != message.get("body", b""):
                     headers["Content-Encoding"] = self.content_encoding
-- 
2.43.0


From d8ba28c6b19634c00f629c8524d275b844235545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 27/77] fix: editing the headers of call_next's response must
 not edit the wrapped response in place

---
 starlette/middleware/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 5e63f79..edbf330 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -172,7 +172,7 @@ class BaseHTTPMiddleware:
                         raise app_exc
 
             response = _StreamingResponse(status_code=message["status"], content=body_stream(), info=info)
-            response.raw_headers = message["headers"]
+            response.raw_headers = list(message["headers"])
             return response
 
         streams: anyio.create_memory_object_stream[Message] = anyio.create_memory_object_stream()
-- 
2.43.0


From 011a0a65b3d496afec0d533d5346261db5f72378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:32 +0000
Subject: [PATCH 28/77] fix: TrustedHostMiddleware can allow an IPv6 address as
 the host

---
 starlette/middleware/trustedhost.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/trustedhost.py b/starlette/middleware/trustedhost.py
index 2d1c999..a7cc31e 100644
--- a/starlette/middleware/trustedhost.py
+++ b/starlette/middleware/trustedhost.py
@@ -37,7 +37,13 @@ class TrustedHostMiddleware:
             return
 
         headers = Headers(scope=scope)
-        host = headers.get("host", "").split(":")[0]
+        host = headers.get("host", "")
+        ipv6_host, bracket, port = host.rpartition("]")
+        if host.startswith("[") and bracket and (not port or port.startswith(":")):
+            # The colons of an IPv6 address don't introduce the port.
+            host = ipv6_host + bracket
+        else:
+            host = host.split(":")[0]
         is_valid_host = False
         found_www_redirect = False
         for pattern in self.allowed_hosts:
-- 
2.43.0


From f9746f71bbaddd5425fef9b6b4d747db80a91285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:31 +0000
Subject: [PATCH 29/77] fix: BaseHTTPMiddleware forwards server push promises
 instead of failing

---
 starlette/middleware/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index edbf330..8d071ad 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -127,6 +127,10 @@ class BaseHTTPMiddleware:
                 return message
 
             async def send_no_error(message: Message) -> None:
+                if message["type"] == "http.response.push":
+                    # Not a part of the response.
+                    await send(message)
+                    return
                 try:
                     await send_stream.send(message)
                 except anyio.BrokenResourceError:
-- 
2.43.0


From 67390694b0a16ef2cc1ae83c29f54f09de87e5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:31 +0000
Subject: [PATCH 30/77] fix: GZipMiddleware forwards every message that is not
 a part of the response

---
 starlette/middleware/gzip.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index 08c650e..7d12c2a 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -93,9 +93,7 @@ class IdentityResponder:
 
                 await self.send(self.initial_message)
                 await self.send(message)
-        elif message_type == "http.response.debug":
-            await self.send(message)
-        elif message_type == "http.response.body":  # pragma: no branch
+        elif message_type == "http.response.body":
             # Remaining body in streaming response.
             body = message.get("body", b"")
             more_body = message.get("more_body", False)
@@ -103,6 +101,9 @@ class IdentityResponder:
             message["body"] = self.apply_compression(body, more_body=more_body)
 
             await self.send(message)
+        else:
+            # Not a part of the response: eg. "http.response.debug" or "http.response.push".
+            await self.send(message)
 
     def apply_compression(self, body: bytes, *, more_body: bool) -> bytes:
         """Apply compression on the response body.
-- 
2.43.0


From 7fbc31a56efd77ba3eaf5ccc6ee7821188047063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:41 +0000
Subject: [PATCH 31/77] fix: gzip, session and base HTTP middleware accept a
 response start without the optional headers key

---
 starlette/middleware/base.py     | 2 +-
 starlette/middleware/gzip.py     | 1 +
 starlette/middleware/sessions.py | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 8d071ad..6436d82 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -176,7 +176,7 @@ class BaseHTTPMiddleware:
                         raise app_exc
 
             response = _StreamingResponse(status_code=message["status"], content=body_stream(), info=info)
-            response.raw_headers = list(message["headers"])
+            response.raw_headers = list(message.get("headers", []))
             return response
 
         streams: anyio.create_memory_object_stream[Message] = anyio.create_memory_object_stream()
diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index 7d12c2a..b02cc23 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -50,6 +50,7 @@ class IdentityResponder:
         if message_type == "http.response.start":
             # Don't send the initial message until we've determined how to
             # modify the outgoing headers correctly.
+            message.setdefault("headers", [])
             self.initial_message = message
             headers = Headers(raw=self.initial_message["headers"])
             self.content_encoding_set = "content-encoding" in headers
diff --git a/starlette/middleware/sessions.py b/starlette/middleware/sessions.py
index 5f9fcd8..11f9ffe 100644
--- a/starlette/middleware/sessions.py
+++ b/starlette/middleware/sessions.py
@@ -56,6 +56,7 @@ class SessionMiddleware:
 
         async def send_wrapper(message: Message) -> None:
             if message["type"] == "http.response.start":
+                message.setdefault("headers", [])
                 if scope["session"]:
                     # We have session data to persist.
                     data = b64encode(json.dumps(scope["session"]).encode("utf-8"))
-- 
2.43.0


From daecd573bdf3951452145e61a2fa764b4cd83b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:57 +0000
Subject: [PATCH 32/77] fix: GZipMiddleware must not compress for a client that
 refuses gzip, or only names another coding

---
 starlette/middleware/gzip.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index b02cc23..f9647e1 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -1,5 +1,6 @@
 import gzip
 import io
+import re
 import typing
 
 from starlette.datastructures import Headers, MutableHeaders
@@ -8,6 +9,15 @@ from starlette.types import ASGIApp, Message, Receive, Scope, Send
 DEFAULT_EXCLUDED_CONTENT_TYPES = ("text/event-stream",)
 
 
+def accepts_gzip(accept_encoding: str) -> bool:
+    for item in accept_encoding.lower().split(","):
+        coding, _, weight = item.partition(";")
+        if coding.strip() in ("gzip", "x-gzip"):
+            # "gzip;q=0" means that gzip is not acceptable.
+            return re.fullmatch(r"q=0(\.0*)?", weight.replace(" ", "")) is None
+    return False
+
+
 class GZipMiddleware:
     def __init__(self, app: ASGIApp, minimum_size: int = 500, compresslevel: int = 9) -> None:
         self.app = app
@@ -21,7 +31,7 @@ class GZipMiddleware:
 
         headers = Headers(scope=scope)
         responder: ASGIApp
-        if "gzip" in headers.get("Accept-Encoding", ""):
+        if accepts_gzip(headers.get("Accept-Encoding", "")):
             responder = GZipResponder(self.app, self.minimum_size, compresslevel=self.compresslevel)
         else:
             responder = IdentityResponder(self.app, self.minimum_size)
-- 
2.43.0


From ad38efee4fa5525451075804ca234618cce98ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:10 +0000
Subject: [PATCH 33/77] fix: the debug error page can show an exception whose
 message holds surrogates

---
 starlette/middleware/errors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/starlette/middleware/errors.py b/starlette/middleware/errors.py
index 76ad776..8c48c79 100644
--- a/starlette/middleware/errors.py
+++ b/starlette/middleware/errors.py
@@ -252,9 +252,10 @@ class ServerErrorMiddleware:
 
         if "text/html" in accept:
             content = self.generate_html(exc)
-            return HTMLResponse(content, status_code=500)
+            # The message may hold surrogates, which can't be encoded.
+            return HTMLResponse(content.encode("utf-8", "backslashreplace"), status_code=500)
         content = self.generate_plain_text(exc)
-        return PlainTextResponse(content, status_code=500)
+        return PlainTextResponse(content.encode("utf-8", "backslashreplace"), status_code=500)
 
     def error_response(self, request: Request, exc: Exception) -> Response:
         return PlainTextResponse("Internal Server Error", status_code=500)
-- 
2.43.0


From 5be4546e9139e4fe90b3c2a2b6cf0fb8c5d23c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:12 +0000
Subject: [PATCH 34/77] fix: a streaming or file response can be sent as a
 WebSocket denial response

---
 starlette/responses.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 66e7b40..363f9ac 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -23,7 +23,7 @@ from starlette.background import BackgroundTask
 from starlette.concurrency import iterate_in_threadpool
 from starlette.datastructures import URL, Headers, MutableHeaders
 from starlette.requests import ClientDisconnect
-from starlette.types import Receive, Scope, Send
+from starlette.types import Message, Receive, Scope, Send
 
 
 class Response:
@@ -209,6 +209,17 @@ AsyncContentStream = typing.AsyncIterable[Content]
 ContentStream = typing.Union[AsyncContentStream, SyncContentStream]
 
 
+def _denial_sender(send: Send) -> Send:
+    """
+    Send a response in place of accepting a WebSocket, see the "Websocket Denial Response" ASGI extension.
+    """
+
+    async def sender(message: Message) -> None:
+        await send({**message, "type": f"websocket.{message['type']}"})
+
+    return sender
+
+
 class StreamingResponse(Response):
     body_iterator: AsyncContentStream
 
@@ -253,7 +264,9 @@ class StreamingResponse(Response):
     async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:
         spec_version = tuple(map(int, scope.get("asgi", {}).get("spec_version", "2.0").split(".")))
 
-        if spec_version >= (2, 4):
+        if scope.get("type") == "websocket":
+            await self.stream_response(_denial_sender(send))
+        elif spec_version >= (2, 4):
             try:
                 await self.stream_response(send)
             except OSError:
@@ -337,7 +350,7 @@ class FileResponse(Response):
         self.headers.setdefault("etag", etag)
 
     async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:
-        send_header_only: bool = scope["method"].upper() == "HEAD"
+        send_header_only: bool = scope["type"] == "http" and scope["method"].upper() == "HEAD"
         if self.stat_result is None:
             try:
                 stat_result = await anyio.to_thread.run_sync(os.stat, self.path)
@@ -355,8 +368,10 @@ class FileResponse(Response):
         http_range = headers.get("range")
         http_if_range = headers.get("if-range")
 
+        if scope["type"] == "websocket":
+            await self._handle_simple(_denial_sender(send), send_header_only)
         # A range only applies to a file that would otherwise be sent with 200 (RFC 9110, 14.2), not eg. to a 404 page.
-        if (
+        elif (
             http_range is None
             or self.status_code != 200
             or (http_if_range is not None and not self._should_use_range(http_if_range))
-- 
2.43.0


From 8412b56742f2e83f183a28995f177c98820f267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:48 +0000
Subject: [PATCH 35/77] fix: the response to an exception is only sent in place
 of accepting a WebSocket

---
 starlette/_exception_handler.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/starlette/_exception_handler.py b/starlette/_exception_handler.py
index 72bc89d..c68ad87 100644
--- a/starlette/_exception_handler.py
+++ b/starlette/_exception_handler.py
@@ -6,8 +6,9 @@ from starlette._utils import is_async_callable
 from starlette.concurrency import run_in_threadpool
 from starlette.exceptions import HTTPException
 from starlette.requests import Request
+from starlette.responses import Response
 from starlette.types import ASGIApp, ExceptionHandler, Message, Receive, Scope, Send
-from starlette.websockets import WebSocket
+from starlette.websockets import WebSocket, WebSocketClose, WebSocketState
 
 ExceptionHandlers = dict[typing.Any, ExceptionHandler]
 StatusHandlers = dict[int, ExceptionHandler]
@@ -30,12 +31,15 @@ def wrap_app_handling_exceptions(app: ASGIApp, conn: Request | WebSocket) -> ASG
 
     async def wrapped_app(scope: Scope, receive: Receive, send: Send) -> None:
         response_started = False
+        websocket_started = False
 
         async def sender(message: Message) -> None:
-            nonlocal response_started
+            nonlocal response_started, websocket_started
 
             if message["type"] == "http.response.start":
                 response_started = True
+            elif scope["type"] == "websocket":
+                websocket_started = True
             await send(message)
 
         try:
@@ -59,6 +63,13 @@ def wrap_app_handling_exceptions(app: ASGIApp, conn: Request | WebSocket) -> ASG
                 response = await handler(conn, exc)
             else:
                 response = await run_in_threadpool(handler, conn, exc)  # type: ignore
+            if isinstance(conn, WebSocket) and isinstance(response, Response):
+                # The response can only take the place of accepting the WebSocket.
+                if websocket_started or conn.application_state is not WebSocketState.CONNECTING:
+                    raise RuntimeError("Caught handled exception, but websocket already accepted or closed.") from exc
+                if "websocket.http.response" not in scope.get("extensions", {}):
+                    # The server can not send it, closing makes it send a 403.
+                    response = WebSocketClose()
             if response is not None:
                 await response(scope, receive, sender)
 
-- 
2.43.0


From de9dd611de1098ed0b01a655261ec741c41f4aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:45 +0000
Subject: [PATCH 36/77] fix: WebSocketEndpoint receives empty text messages,
 and messages with the other kind of data set to None

---
 starlette/endpoints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index 1076902..43aca27 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -85,13 +85,13 @@ class WebSocketEndpoint:
 
     async def decode(self, websocket: WebSocket, message: Message) -> typing.Any:
         if self.encoding == "text":
-            if "text" not in message:
+            if message.get("text") is None:
                 await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                 raise RuntimeError("Expected text websocket messages, but got bytes")
             return message["text"]
 
         elif self.encoding == "bytes":
-            if "bytes" not in message:
+            if message.get("bytes") is None:
                 await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                 raise RuntimeError("Expected bytes websocket messages, but got text")
             return message["bytes"]
@@ -109,7 +109,7 @@ class WebSocketEndpoint:
                 raise RuntimeError("Malformed JSON data received.")
 
         assert self.encoding is None, f"Unsupported 'encoding' attribute {self.encoding}"
-        return message["text"] if message.get("text") else message["bytes"]
+        return message["text"] if message.get("text") is not None else message["bytes"]
 
     async def on_connect(self, websocket: WebSocket) -> None:
         """Override to handle an incoming websocket connection"""
-- 
2.43.0


From fb3ba078d01e743ddddca090f6c6a24a185e04be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:56 +0000
Subject: [PATCH 37/77] fix: WebSocketEndpoint closes with 1003 for JSON data
 that is not UTF-8, like for other malformed JSON

---
 starlette/endpoints.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index 43aca27..fe7e783 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -97,14 +97,13 @@ class WebSocketEndpoint:
             return message["bytes"]
 
         elif self.encoding == "json":
-            if message.get("text") is not None:
-                text = message["text"]
-            else:
-                text = message["bytes"].decode("utf-8")
-
             try:
+                if message.get("text") is not None:
+                    text = message["text"]
+                else:
+                    text = message["bytes"].decode("utf-8")
                 return json.loads(text)
-            except json.decoder.JSONDecodeError:
+            except (json.decoder.JSONDecodeError, UnicodeDecodeError):
                 await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                 raise RuntimeError("Malformed JSON data received.")
 
-- 
2.43.0


From 7f2cbb81deeee5a349a1f131f2f180192b37eb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:27 +0000
Subject: [PATCH 38/77] fix: a URL with a user but no host can be shown and
 edited

---
 starlette/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 5a83ee8..45821ff 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -118,7 +118,7 @@ class URL:
                 netloc = self.netloc
                 _, _, hostname = netloc.rpartition("@")
 
-                if hostname[-1] != "]":
+                if not hostname.endswith("]"):
                     hostname = hostname.rsplit(":", 1)[0]
 
             netloc = hostname
-- 
2.43.0


From fe9ba738b626392a4dfceee8d056363354609f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 39/77] fix: CommaSeparatedStrings keeps what follows a "#"
 instead of dropping it as a comment

---
 starlette/datastructures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 45821ff..4297145 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -223,6 +223,7 @@ class CommaSeparatedStrings(typing.Sequence[str]):
             splitter = shlex(value, posix=True)
             splitter.whitespace = ","
             splitter.whitespace_split = True
+            splitter.commenters = ""
             self._items = [item.strip() for item in splitter]
         else:
             self._items = list(value)
-- 
2.43.0


From ba2184876275dd168f162d58193d2e767f1169da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:42 +0000
Subject: [PATCH 40/77] fix: a config value that a cast without a name refuses
 is reported as a ValueError

---
 starlette/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starlette/config.py b/starlette/config.py
index ca15c56..fedebb5 100644
--- a/starlette/config.py
+++ b/starlette/config.py
@@ -135,4 +135,5 @@ class Config:
         try:
             return cast(value)
         except (TypeError, ValueError):
-            raise ValueError(f"Config '{key}' has value '{value}'. Not a valid {cast.__name__}.")
+            cast_name = getattr(cast, "__name__", repr(cast))
+            raise ValueError(f"Config '{key}' has value '{value}'. Not a valid {cast_name}.")
-- 
2.43.0


From 54d33f1489dcb8792df4b96b6ee09bfff6899fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:00 +0000
Subject: [PATCH 41/77] fix: Close the file of a multipart part which the body
 doesn't complete

---
 starlette/formparsers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starlette/formparsers.py b/starlette/formparsers.py
index b6977ef..a54f64f 100644
--- a/starlette/formparsers.py
+++ b/starlette/formparsers.py
@@ -275,4 +275,8 @@ class MultiPartParser:
             raise exc
 
         parser.finalize()
+        current_file = self._current_part.file
+        if current_file is not None and not any(value is current_file for _, value in self.items):
+            # The body ended within this part: its file isn't in the form, which would close it.
+            current_file.file.close()
         return FormData(self.items)
-- 
2.43.0


From a8294b53b9b27163213017867815b119648b6f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:24 +0000
Subject: [PATCH 42/77] fix: TestClient passes the path to the app decoded
 once, as a server does

---
 starlette/testclient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index d54025e..7158d99 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -10,7 +10,7 @@ import typing
 import warnings
 from concurrent.futures import Future
 from types import GeneratorType
-from urllib.parse import unquote, urljoin
+from urllib.parse import urljoin
 
 import anyio
 import anyio.abc
@@ -243,7 +243,7 @@ class _TestClientTransport(httpx.BaseTransport):
                 subprotocols = [value.strip() for value in subprotocol.split(",")]
             scope = {
                 "type": "websocket",
-                "path": unquote(path),
+                "path": path,
                 "raw_path": raw_path.split(b"?", 1)[0],
                 "root_path": self.root_path,
                 "scheme": scheme,
@@ -262,7 +262,7 @@ class _TestClientTransport(httpx.BaseTransport):
             "type": "http",
             "http_version": "1.1",
             "method": request.method,
-            "path": unquote(path),
+            "path": path,
             "raw_path": raw_path.split(b"?", 1)[0],
             "root_path": self.root_path,
             "scheme": scheme,
-- 
2.43.0


From 4e5f630f52a6372ab839ae05ed581a1f901d89c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:32 +0000
Subject: [PATCH 43/77] fix: TestClient does not modify the headers that the
 caller passed, nor send two of them

---
 starlette/testclient.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 7158d99..4055207 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -391,12 +391,11 @@ class TestClient(httpx.Client):
             app_state=self.app_state,
             client=client,
         )
-        if headers is None:
-            headers = {}
-        headers.setdefault("user-agent", "testclient")
+        client_headers = httpx.Headers(headers)
+        client_headers.setdefault("user-agent", "testclient")
         super().__init__(
             base_url=base_url,
-            headers=headers,
+            headers=client_headers,
             transport=transport,
             follow_redirects=follow_redirects,
             cookies=cookies,
@@ -642,7 +641,7 @@ class TestClient(httpx.Client):
         **kwargs: typing.Any,
     ) -> WebSocketTestSession:
         url = urljoin("ws://testserver", url)
-        headers = kwargs.get("headers", {})
+        headers = httpx.Headers(kwargs.get("headers"))
         headers.setdefault("connection", "upgrade")
         headers.setdefault("sec-websocket-key", "testserver==")
         headers.setdefault("sec-websocket-version", "13")
-- 
2.43.0


From dc5ebf0fc72d526f8897a7c9fd7a978be0f69e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:41 +0000
Subject: [PATCH 44/77] fix: TestClient accepts an IPv6 address as the host of
 its base URL

---
 starlette/testclient.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 4055207..67969d1 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -208,27 +208,20 @@ class _TestClientTransport(httpx.BaseTransport):
 
     def handle_request(self, request: httpx.Request) -> httpx.Response:
         scheme = request.url.scheme
-        netloc = request.url.netloc.decode(encoding="ascii")
         path = request.url.path
         raw_path = request.url.raw_path
         query = request.url.query.decode(encoding="ascii")
 
         default_port = {"http": 80, "ws": 80, "https": 443, "wss": 443}[scheme]
 
-        if ":" in netloc:
-            host, port_string = netloc.split(":", 1)
-            port = int(port_string)
-        else:
-            host = netloc
-            port = default_port
+        host = request.url.raw_host.decode(encoding="ascii")
+        port = request.url.port or default_port
 
         # Include the 'host' header.
         if "host" in request.headers:
             headers: list[tuple[bytes, bytes]] = []
-        elif port == default_port:  # pragma: no cover
-            headers = [(b"host", host.encode())]
         else:  # pragma: no cover
-            headers = [(b"host", (f"{host}:{port}").encode())]
+            headers = [(b"host", request.url.netloc)]
 
         # Include other request headers.
         headers += [(key.lower().encode(), value.encode()) for key, value in request.headers.multi_items()]
-- 
2.43.0


From 2ef7b15b8078ce81260279af98485d0377a12c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:50 +0000
Subject: [PATCH 45/77] fix: TestClient keeps the bytes of header values, in
 either direction

---
 starlette/testclient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 67969d1..a621c6e 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -224,7 +224,7 @@ class _TestClientTransport(httpx.BaseTransport):
             headers = [(b"host", request.url.netloc)]
 
         # Include other request headers.
-        headers += [(key.lower().encode(), value.encode()) for key, value in request.headers.multi_items()]
+        headers += [(key.lower(), value) for key, value in request.headers.raw]
 
         scope: dict[str, typing.Any]
 
@@ -308,7 +308,7 @@ class _TestClientTransport(httpx.BaseTransport):
             if message["type"] == "http.response.start":
                 assert not response_started, 'Received multiple "http.response.start" messages.'
                 raw_kwargs["status_code"] = message["status"]
-                raw_kwargs["headers"] = [(key.decode(), value.decode()) for key, value in message.get("headers", [])]
+                raw_kwargs["headers"] = [(bytes(key), bytes(value)) for key, value in message.get("headers", [])]
                 response_started = True
             elif message["type"] == "http.response.body":
                 assert response_started, 'Received "http.response.body" without "http.response.start".'
-- 
2.43.0


From 59c2a736a922f78a6e0712ab2afa2489da768487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:00 +0000
Subject: [PATCH 46/77] fix: TestClient accepts a denial response without the
 optional headers and body keys

---
 starlette/testclient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index a621c6e..995a3c6 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -136,12 +136,12 @@ class WebSocketTestSession:
             raise WebSocketDisconnect(code=message.get("code", 1000), reason=message.get("reason", ""))
         elif message["type"] == "websocket.http.response.start":
             status_code: int = message["status"]
-            headers: list[tuple[bytes, bytes]] = message["headers"]
+            headers: list[tuple[bytes, bytes]] = message.get("headers", [])
             body: list[bytes] = []
             while True:
                 message = self.receive()
                 assert message["type"] == "websocket.http.response.body"
-                body.append(message["body"])
+                body.append(message.get("body", b""))
                 if not message.get("more_body", False):
                     break
             raise WebSocketDenialResponse(status_code=status_code, headers=headers, content=b"".join(body))
-- 
2.43.0


From ba4dfb7f7849904ded069a45d49d5aff0a7593a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:27 +0000
Subject: [PATCH 47/77] fix: TestClient raises when the app reports a failed
 startup or shutdown without raising

---
 starlette/testclient.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 995a3c6..e532a20 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -705,6 +705,8 @@ class TestClient(httpx.Client):
         )
         if message["type"] == "lifespan.startup.failed":
             await receive()
+            # The application reported the failure without raising an exception.
+            raise RuntimeError(f"Application startup failed. {message.get('message', '')}")
 
     async def wait_shutdown(self) -> None:
         async def receive() -> typing.Any:
@@ -721,3 +723,5 @@ class TestClient(httpx.Client):
         )
         if message["type"] == "lifespan.shutdown.failed":
             await receive()
+            # The application reported the failure without raising an exception.
+            raise RuntimeError(f"Application shutdown failed. {message.get('message', '')}")
-- 
2.43.0


From f72dd3dcec3cc079611096be5b67a5e87617697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:13 +0000
Subject: [PATCH 48/77] fix: SchemaGenerator does not modify the base schema

---
 starlette/schemas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starlette/schemas.py b/starlette/schemas.py
index bfc40e2..eaef77e 100644
--- a/starlette/schemas.py
+++ b/starlette/schemas.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import inspect
 import re
 import typing
@@ -129,7 +130,7 @@ class SchemaGenerator(BaseSchemaGenerator):
         self.base_schema = base_schema
 
     def get_schema(self, routes: list[BaseRoute]) -> dict[str, typing.Any]:
-        schema = dict(self.base_schema)
+        schema = copy.deepcopy(self.base_schema)
         schema.setdefault("paths", {})
         endpoints_info = self.get_endpoints(routes)
 
-- 
2.43.0


From 325a7f8989a5d4d18219f58918a7f849c4ffc77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:34 +0000
Subject: [PATCH 49/77] fix: WSGIMiddleware sends header values as latin-1, as
 PEP 3333 defines them

---
 starlette/middleware/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index e7acdf0..4ed2e43 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -126,7 +126,7 @@ class WSGIResponder:
             status_code_string, _ = status.split(" ", 1)
             status_code = int(status_code_string)
             headers = [
-                (name.strip().encode("ascii").lower(), value.strip().encode("ascii"))
+                (name.strip().encode("ascii").lower(), value.strip().encode("latin-1"))
                 for name, value in response_headers
             ]
             anyio.from_thread.run(
-- 
2.43.0


From 58c2b6aaf4254836bd55aa4ed9e5f2a8649509dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:42 +0000
Subject: [PATCH 50/77] fix: WSGIMiddleware does not run an application on an
 upload that the client aborted

---
 starlette/middleware/wsgi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index 4ed2e43..f44c2da 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -9,6 +9,7 @@ import warnings
 import anyio
 from anyio.abc import ObjectReceiveStream, ObjectSendStream
 
+from starlette.requests import ClientDisconnect
 from starlette.types import Receive, Scope, Send
 
 warnings.warn(
@@ -98,6 +99,8 @@ class WSGIResponder:
         more_body = True
         while more_body:
             message = await receive()
+            if message["type"] == "http.disconnect":
+                raise ClientDisconnect()
             body += message.get("body", b"")
             more_body = message.get("more_body", False)
         environ = build_environ(self.scope, body)
-- 
2.43.0


From fb7e9610d56dbb5759d920cc03f338d0eac482b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 51/77] fix: TemplateResponse does not store the request in the
 caller's context, where a later request would find it

---
 starlette/templating.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starlette/templating.py b/starlette/templating.py
index f764858..f34b06a 100644
--- a/starlette/templating.py
+++ b/starlette/templating.py
@@ -201,6 +201,8 @@ class Jinja2Templates:
             media_type = kwargs.get("media_type")
             background = kwargs.get("background")
 
+        # The context might be shared between requests: don't modify it.
+        context = dict(context or {})
         context.setdefault("request", request)
         for context_processor in self.context_processors:
             context.update(context_processor(request))
-- 
2.43.0


From c610fdf0bf5c0140f2748154faab5daf86208138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 52/77] fix: HTTPEndpoint answers 405 to a request method that
 names one of its own attributes

---
 starlette/endpoints.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index fe7e783..2870aac 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -33,6 +33,9 @@ class HTTPEndpoint:
         handler_name = "get" if request.method == "HEAD" and not hasattr(self, "head") else request.method.lower()
 
         handler: typing.Callable[[Request], typing.Any] = getattr(self, handler_name, self.method_not_allowed)
+        if hasattr(HTTPEndpoint, handler_name) or handler_name in ("scope", "receive", "send", "_allowed_methods"):
+            # The endpoint's own attributes are not handlers, whatever method the client names.
+            handler = self.method_not_allowed
         is_async = is_async_callable(handler)
         if is_async:
             response = await handler(request)
-- 
2.43.0


From 8b1083814bfb5744e33101ad70679f69c83b6b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 53/77] fix: a range request does not change the headers of a
 FileResponse that is used again

---
 starlette/responses.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 363f9ac..d49421d 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -410,9 +410,10 @@ class FileResponse(Response):
     async def _handle_single_range(
         self, send: Send, start: int, end: int, file_size: int, send_header_only: bool
     ) -> None:
-        self.headers["content-range"] = f"bytes {start}-{end - 1}/{file_size}"
-        self.headers["content-length"] = str(end - start)
-        await send({"type": "http.response.start", "status": 206, "headers": self.raw_headers})
+        headers = MutableHeaders(raw=list(self.raw_headers))
+        headers["content-range"] = f"bytes {start}-{end - 1}/{file_size}"
+        headers["content-length"] = str(end - start)
+        await send({"type": "http.response.start", "status": 206, "headers": headers.raw})
         if send_header_only:
             await send({"type": "http.response.body", "body": b"", "more_body": False})
         else:
@@ -437,9 +438,10 @@ class FileResponse(Response):
         content_length, header_generator = self.generate_multipart(
             ranges, boundary, file_size, self.headers["content-type"]
         )
-        self.headers["content-range"] = f"multipart/byteranges; boundary={boundary}"
-        self.headers["content-length"] = str(content_length)
-        await send({"type": "http.response.start", "status": 206, "headers": self.raw_headers})
+        headers = MutableHeaders(raw=list(self.raw_headers))
+        headers["content-range"] = f"multipart/byteranges; boundary={boundary}"
+        headers["content-length"] = str(content_length)
+        await send({"type": "http.response.start", "status": 206, "headers": headers.raw})
         if send_header_only:
             await send({"type": "http.response.body", "body": b"", "more_body": False})
         else:
-- 
2.43.0


From d1ec80dd872291206e678c7e6a675029d97667b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 54/77] fix: TemplateResponse(request=..., name=...,
 context=None) uses the request it was given

---
 starlette/templating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/templating.py b/starlette/templating.py
index f34b06a..4254868 100644
--- a/starlette/templating.py
+++ b/starlette/templating.py
@@ -193,7 +193,7 @@ class Jinja2Templates:
                 if "request" not in kwargs.get("context", {}):
                     raise ValueError('context must include a "request" key')
 
-            context = kwargs.get("context", {})
+            context = kwargs.get("context") or {}
             request = kwargs.get("request", context.get("request"))
             name = typing.cast(str, kwargs["name"])
             status_code = kwargs.get("status_code", 200)
-- 
2.43.0


From 7595f5978e929cfbdeaae947d7442f18dac98a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 55/77] fix: the URL of a WebSocket whose server left out the
 scheme is a ws:// URL

---
 starlette/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 4297145..449e0e9 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -30,7 +30,7 @@ class URL:
         if scope is not None:
             assert not url, 'Cannot set both "url" and "scope".'
             assert not components, 'Cannot set both "scope" and "**components".'
-            scheme = scope.get("scheme", "http")
+            scheme = scope.get("scheme", "ws" if scope.get("type") == "websocket" else "http")
             server = scope.get("server", None)
             path = scope["path"]
             query_string = scope.get("query_string", b"")
-- 
2.43.0


From ca90152eb0305c624e0526650c5d0617b62c17d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 56/77] fix: HTTPSRedirectMiddleware accepts a scope without
 the optional scheme

---
 starlette/middleware/httpsredirect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/httpsredirect.py b/starlette/middleware/httpsredirect.py
index 19e5ef8..c632448 100644
--- a/starlette/middleware/httpsredirect.py
+++ b/starlette/middleware/httpsredirect.py
@@ -8,7 +8,7 @@ class HTTPSRedirectMiddleware:
         self.app = app
 
     async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:
-        if scope["type"] in ("http", "websocket") and scope["scheme"] in ("http", "ws"):
+        if scope["type"] in ("http", "websocket") and scope.get("scheme", "http") in ("http", "ws"):
             url = URL(scope=scope)
             redirect_scheme = {"http": "https", "ws": "wss"}[url.scheme]
             netloc = url.hostname if url.port in (80, 443) else url.netloc
-- 
2.43.0


From 002814abeed908c5cf9c3d64371510f5829f954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 57/77] fix: query_params of a WebSocket whose server left out
 the optional query_string

---
 starlette/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/requests.py b/starlette/requests.py
index 7dc04a7..600c35a 100644
--- a/starlette/requests.py
+++ b/starlette/requests.py
@@ -128,7 +128,7 @@ class HTTPConnection(typing.Mapping[str, typing.Any]):
     @property
     def query_params(self) -> QueryParams:
         if not hasattr(self, "_query_params"):  # pragma: no branch
-            self._query_params = QueryParams(self.scope["query_string"])
+            self._query_params = QueryParams(self.scope.get("query_string", b""))
         return self._query_params
 
     @property
-- 
2.43.0


From a394f6aa048d8004448d2a48496a69af95a501c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 58/77] fix: a request to a WSGI application that disconnects
 mid-body leaves no stream unclosed

---
 starlette/middleware/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index f44c2da..85b4848 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -90,7 +90,6 @@ class WSGIResponder:
         self.scope = scope
         self.status = None
         self.response_headers = None
-        self.stream_send, self.stream_receive = anyio.create_memory_object_stream(math.inf)
         self.response_started = False
         self.exc_info: typing.Any = None
 
@@ -105,6 +104,7 @@ class WSGIResponder:
             more_body = message.get("more_body", False)
         environ = build_environ(self.scope, body)
 
+        self.stream_send, self.stream_receive = anyio.create_memory_object_stream(math.inf)
         async with anyio.create_task_group() as task_group:
             task_group.start_soon(self.sender, send)
             async with self.stream_send:
-- 
2.43.0


From 13b5c285e7ed249cfd79dbe91b021b72309d6c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 59/77] fix: form parsing that fails closes the request stream
 it was reading

---
 starlette/requests.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starlette/requests.py b/starlette/requests.py
index 600c35a..9728c39 100644
--- a/starlette/requests.py
+++ b/starlette/requests.py
@@ -264,10 +264,11 @@ class Request(HTTPConnection):
             content_type: bytes
             content_type, _ = parse_options_header(content_type_header)
             if content_type == b"multipart/form-data":
+                stream = self.stream()
                 try:
                     multipart_parser = MultiPartParser(
                         self.headers,
-                        self.stream(),
+                        stream,
                         max_files=max_files,
                         max_fields=max_fields,
                         max_part_size=max_part_size,
@@ -277,6 +278,8 @@ class Request(HTTPConnection):
                     if "app" in self.scope:
                         raise HTTPException(status_code=400, detail=exc.message)
                     raise exc
+                finally:
+                    await stream.aclose()
             elif content_type == b"application/x-www-form-urlencoded":
                 form_parser = FormParser(self.headers, self.stream())
                 self._form = await form_parser.parse()
-- 
2.43.0


From 11e2ef6d8287f5d4601ab41feaa5a518e1f0ca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 60/77] fix: the debug page shows semicolons that follow a
 space in the source

---
 starlette/middleware/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/errors.py b/starlette/middleware/errors.py
index 8c48c79..043e534 100644
--- a/starlette/middleware/errors.py
+++ b/starlette/middleware/errors.py
@@ -189,7 +189,7 @@ class ServerErrorMiddleware:
     def format_line(self, index: int, line: str, frame_lineno: int, frame_index: int) -> str:
         values = {
             # HTML escape - line could contain < or >
-            "line": html.escape(line).replace(" ", "&nbsp"),
+            "line": html.escape(line).replace(" ", "&nbsp;"),
             "lineno": (frame_lineno - frame_index) + index,
         }
 
-- 
2.43.0


From b63b598eb0c8557a652cb282a833c75c2953d6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 61/77] fix: parsing a Range header takes time in proportion to
 its length

---
 starlette/responses.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index d49421d..e1e4505 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -296,7 +296,8 @@ class RangeNotSatisfiable(Exception):
         self.max_size = max_size
 
 
-_RANGE_PATTERN = re.compile(r"(\d*)-(\d*)")
+# The lookbehind makes digits that no dash follows be scanned once only, instead of from each of them on.
+_RANGE_PATTERN = re.compile(r"(?:(?<!\d)(\d+))?-(\d*)")
 
 
 class FileResponse(Response):
-- 
2.43.0


From 5a14ae178054be485db3886e014fe736eed4e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 62/77] fix: a form field received in many pieces is collected
 in linear time

---
 starlette/formparsers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/starlette/formparsers.py b/starlette/formparsers.py
index a54f64f..cbf5b72 100644
--- a/starlette/formparsers.py
+++ b/starlette/formparsers.py
@@ -92,8 +92,8 @@ class FormParser:
 
         # Create the parser.
         parser = multipart.QuerystringParser(callbacks)
-        field_name = b""
-        field_value = b""
+        field_name = bytearray()
+        field_value = bytearray()
 
         items: list[tuple[str, str | UploadFile]] = []
 
@@ -107,8 +107,8 @@ class FormParser:
             self.messages.clear()
             for message_type, message_bytes in messages:
                 if message_type == FormMessage.FIELD_START:
-                    field_name = b""
-                    field_value = b""
+                    field_name = bytearray()
+                    field_value = bytearray()
                 elif message_type == FormMessage.FIELD_NAME:
                     field_name += message_bytes
                 elif message_type == FormMessage.FIELD_DATA:
-- 
2.43.0


From 1b03c725ddc6143007d02549f360d1def714d594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 63/77] fix: the body of a request to a WSGI application is
 collected in linear time

---
 starlette/middleware/wsgi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index 85b4848..14a23f4 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -94,15 +94,15 @@ class WSGIResponder:
         self.exc_info: typing.Any = None
 
     async def __call__(self, receive: Receive, send: Send) -> None:
-        body = b""
+        chunks: list[bytes] = []
         more_body = True
         while more_body:
             message = await receive()
             if message["type"] == "http.disconnect":
                 raise ClientDisconnect()
-            body += message.get("body", b"")
+            chunks.append(message.get("body", b""))
             more_body = message.get("more_body", False)
-        environ = build_environ(self.scope, body)
+        environ = build_environ(self.scope, b"".join(chunks))
 
         self.stream_send, self.stream_receive = anyio.create_memory_object_stream(math.inf)
         async with anyio.create_task_group() as task_group:
-- 
2.43.0


From d0c4b49a3128a5f242bd1a25c14b77e077240679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 64/77] fix: Use the environment given to Jinja2Templates with
 an empty directory

---
 starlette/templating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/templating.py b/starlette/templating.py
index 4254868..8b4c4eb 100644
--- a/starlette/templating.py
+++ b/starlette/templating.py
@@ -96,7 +96,7 @@ class Jinja2Templates:
         assert jinja2 is not None, "jinja2 must be installed to use Jinja2Templates"
         assert bool(directory) ^ bool(env), "either 'directory' or 'env' arguments must be passed"
         self.context_processors = context_processors or []
-        if directory is not None:
+        if directory:
             self.env = self._create_env(directory, **env_options)
         elif env is not None:  # pragma: no branch
             self.env = env
-- 
2.43.0


From c72173402a944eff1bcdda7b81b5f96dd96dbc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 65/77] fix: Don't report an OSError of the content of a
 StreamingResponse as a client disconnect

---
 starlette/responses.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index e1e4505..3f725e2 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -267,10 +267,14 @@ class StreamingResponse(Response):
         if scope.get("type") == "websocket":
             await self.stream_response(_denial_sender(send))
         elif spec_version >= (2, 4):
-            try:
-                await self.stream_response(send)
-            except OSError:
-                raise ClientDisconnect()
+
+            async def send_or_disconnect(message: Message) -> None:
+                try:
+                    await send(message)
+                except OSError:
+                    raise ClientDisconnect()
+
+            await self.stream_response(send_or_disconnect)
         else:
             with collapse_excgroups():
                 async with anyio.create_task_group() as task_group:
-- 
2.43.0


From d65a38cacd2006488b19e7cc24ab86ca4177a260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 66/77] fix: Don't wrap an exception of receive in a group
 behind BaseHTTPMiddleware

---
 starlette/middleware/base.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 6436d82..7bd6910 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -111,15 +111,16 @@ class BaseHTTPMiddleware:
                 if response_sent.is_set():
                     return {"type": "http.disconnect"}
 
-                async with anyio.create_task_group() as task_group:
+                with collapse_excgroups():
+                    async with anyio.create_task_group() as task_group:
 
-                    async def wrap(func: typing.Callable[[], typing.Awaitable[T]]) -> T:
-                        result = await func()
-                        task_group.cancel_scope.cancel()
-                        return result
+                        async def wrap(func: typing.Callable[[], typing.Awaitable[T]]) -> T:
+                            result = await func()
+                            task_group.cancel_scope.cancel()
+                            return result
 
-                    task_group.start_soon(wrap, response_sent.wait)
-                    message = await wrap(wrapped_receive)
+                        task_group.start_soon(wrap, response_sent.wait)
+                        message = await wrap(wrapped_receive)
 
                 if response_sent.is_set():
                     return {"type": "http.disconnect"}
-- 
2.43.0


From e9a60fa550b5bf22878928f5f65064ac57e0b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 67/77] fix: WSGIMiddleware failed on a query string with bytes
 outside ASCII

---
 starlette/middleware/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index 14a23f4..87db384 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -33,7 +33,7 @@ def build_environ(scope: Scope, body: bytes) -> dict[str, typing.Any]:
         "REQUEST_METHOD": scope["method"],
         "SCRIPT_NAME": script_name,
         "PATH_INFO": path_info,
-        "QUERY_STRING": scope["query_string"].decode("ascii"),
+        "QUERY_STRING": scope["query_string"].decode("latin-1"),
         "SERVER_PROTOCOL": f"HTTP/{scope['http_version']}",
         "wsgi.version": (1, 0),
         "wsgi.url_scheme": scope.get("scheme", "http"),
-- 
2.43.0


From 7145553dd7d28d5ffaf0f432c5bff80144ab074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:27 +0000
Subject: [PATCH 68/77] fix: the URL of a request with a query that is not
 UTF-8 raised UnicodeDecodeError

---
 starlette/datastructures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 449e0e9..01927ef 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import typing
 from shlex import shlex
-from urllib.parse import SplitResult, parse_qsl, urlencode, urlsplit
+from urllib.parse import SplitResult, parse_qsl, quote, urlencode, urlsplit
 
 from starlette.concurrency import run_in_threadpool
 from starlette.types import Scope
@@ -54,7 +54,8 @@ class URL:
                     url = f"{scheme}://{host}:{port}{path}"
 
             if query_string:
-                url += "?" + query_string.decode()
+                # Clients may send bytes outside ASCII, in any encoding, without percent-encoding them.
+                url += "?" + quote(query_string, safe=bytes(range(128)))
         elif components:
             assert not url, 'Cannot set both "url" and "**components".'
             url = URL("").replace(**components).components.geturl()
-- 
2.43.0


From 70b78d8d92defea15cb2f9add51543e30e111403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 69/77] fix: a Host header that is not a host with an optional
 port made the URL of a request raise, or show another host, path or query

---
 starlette/datastructures.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 01927ef..53f637e 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -20,6 +20,19 @@ _KeyType = typing.TypeVar("_KeyType")
 _CovariantValueType = typing.TypeVar("_CovariantValueType", covariant=True)
 
 
+def is_host_header(value: str) -> bool:
+    """
+    Whether the value of a `Host` header is a host with an optional port, and
+    holds nothing that would become another component of a URL.
+    """
+    try:
+        components = urlsplit("//" + value)
+        components.port  # Raises if it is not a port.
+    except ValueError:
+        return False
+    return bool(components.hostname) and components.netloc == value and not set("@\\ ") & set(value)
+
+
 class URL:
     def __init__(
         self,
@@ -41,7 +54,7 @@ class URL:
                     host_header = value.decode("latin-1")
                     break
 
-            if host_header is not None:
+            if host_header is not None and is_host_header(host_header):
                 url = f"{scheme}://{host_header}{path}"
             elif server is None:
                 url = path
-- 
2.43.0


From 700f3795370ee291858c48123a51933c56e17d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 70/77] fix: the URL of a request without a Host header on a
 unix socket held the socket's path as its host

---
 starlette/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 53f637e..c88193e 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -56,7 +56,8 @@ class URL:
 
             if host_header is not None and is_host_header(host_header):
                 url = f"{scheme}://{host_header}{path}"
-            elif server is None:
+            elif server is None or server[1] is None:
+                # Unknown, or a unix socket.
                 url = path
             else:
                 host, port = server
-- 
2.43.0


From f797c20b594af6ec7a3aa4bb6252487178f61d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 71/77] fix: TrustedHostMiddleware let a Host header pass that
 only begins or ends like an allowed host

---
 starlette/middleware/trustedhost.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/starlette/middleware/trustedhost.py b/starlette/middleware/trustedhost.py
index a7cc31e..b6064b7 100644
--- a/starlette/middleware/trustedhost.py
+++ b/starlette/middleware/trustedhost.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import typing
 
-from starlette.datastructures import URL, Headers
+from starlette.datastructures import URL, Headers, is_host_header
 from starlette.responses import PlainTextResponse, RedirectResponse, Response
 from starlette.types import ASGIApp, Receive, Scope, Send
 
@@ -38,6 +38,12 @@ class TrustedHostMiddleware:
 
         headers = Headers(scope=scope)
         host = headers.get("host", "")
+        response: Response
+        if host and not is_host_header(host):
+            response = PlainTextResponse("Invalid host header", status_code=400)
+            await response(scope, receive, send)
+            return
+
         ipv6_host, bracket, port = host.rpartition("]")
         if host.startswith("[") and bracket and (not port or port.startswith(":")):
             # The colons of an IPv6 address don't introduce the port.
@@ -56,7 +62,6 @@ class TrustedHostMiddleware:
         if is_valid_host:
             await self.app(scope, receive, send)
         else:
-            response: Response
             if found_www_redirect and self.www_redirect:
                 url = URL(scope=scope)
                 redirect_url = url.replace(netloc="www." + url.netloc)
-- 
2.43.0


From dd57cc9c33dee7ce822aafdc83b8a3ed14c35b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 72/77] fix: HTTPSRedirectMiddleware raised KeyError for a
 request without a host

---
 starlette/middleware/httpsredirect.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/httpsredirect.py b/starlette/middleware/httpsredirect.py
index c632448..409822e 100644
--- a/starlette/middleware/httpsredirect.py
+++ b/starlette/middleware/httpsredirect.py
@@ -1,5 +1,5 @@
 from starlette.datastructures import URL
-from starlette.responses import RedirectResponse
+from starlette.responses import PlainTextResponse, RedirectResponse, Response
 from starlette.types import ASGIApp, Receive, Scope, Send
 
 
@@ -10,6 +10,12 @@ class HTTPSRedirectMiddleware:
     async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:
         if scope["type"] in ("http", "websocket") and scope.get("scheme", "http") in ("http", "ws"):
             url = URL(scope=scope)
+            response: Response
+            if not url.netloc:
+                # There is nowhere to redirect to.
+                response = PlainTextResponse("Invalid host header", status_code=400)
+                await response(scope, receive, send)
+                return
             redirect_scheme = {"http": "https", "ws": "wss"}[url.scheme]
             netloc = url.hostname if url.port in (80, 443) else url.netloc
             if netloc is not None and netloc.count(":") > 1 and "[" not in netloc:
-- 
2.43.0


From 624383f136005646d655f99fa63cb2cf79d0d793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 73/77] fix: GZipMiddleware lost the start of a response sent
 by path (http.response.pathsend)

---
 starlette/middleware/gzip.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index f9647e1..1f1dfa2 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -112,6 +112,12 @@ class IdentityResponder:
             message["body"] = self.apply_compression(body, more_body=more_body)
 
             await self.send(message)
+        elif message_type in ("http.response.pathsend", "http.response.zerocopysend"):
+            # The server reads the content itself, so there's nothing to compress.
+            if not self.started:
+                self.started = True
+                await self.send(self.initial_message)
+            await self.send(message)
         else:
             # Not a part of the response: eg. "http.response.debug" or "http.response.push".
             await self.send(message)
-- 
2.43.0


From 2c7c45c29e24aa394a603e547694ce04a9b7f072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:43 +0000
Subject: [PATCH 74/77] fix: StaticFiles answered 500 for a symbolic link that
 leads to itself

---
 starlette/staticfiles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index 18bd379..7703de0 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -167,6 +167,10 @@ class StaticFiles:
                 return full_path, os.stat(full_path)
             except (FileNotFoundError, NotADirectoryError):
                 continue
+            except OSError as exc:
+                # A symbolic link that leads to itself names no file either.
+                if exc.errno != errno.ELOOP:
+                    raise exc
         return "", None
 
     def file_response(
-- 
2.43.0


From 81beab548d9abad9e1212065010bc4e15ab5b49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:51 +0000
Subject: [PATCH 75/77] fix: StaticFiles in html mode answered 500 instead of
 401 for an unreadable directory

---
 starlette/staticfiles.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index 7703de0..f9833d8 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -135,7 +135,10 @@ class StaticFiles:
             # We're in HTML mode, and have got a directory URL.
             # Check if we have 'index.html' file to serve.
             index_path = os.path.join(path, "index.html")
-            full_path, stat_result = await anyio.to_thread.run_sync(self.lookup_path, index_path)
+            try:
+                full_path, stat_result = await anyio.to_thread.run_sync(self.lookup_path, index_path)
+            except PermissionError:
+                raise HTTPException(status_code=401)
             if stat_result is not None and stat.S_ISREG(stat_result.st_mode):
                 if not scope["path"].endswith("/"):
                     # Directory URLs should redirect to always end in "/".
-- 
2.43.0


From c4ad69eb5ce31e096ae6f06c52f57d6d9d1001ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 76/77] fix: compare multi-dicts whose values can't be sorted

---
 starlette/datastructures.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index c88193e..d4833a6 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -322,7 +322,14 @@ class ImmutableMultiDict(typing.Mapping[_KeyType, _CovariantValueType]):
     def __eq__(self, other: typing.Any) -> bool:
         if not isinstance(other, self.__class__):
             return False
-        return sorted(self._list) == sorted(other._list)
+        # The items can't always be sorted, eg. files can't.
+        other_items = list(other._list)
+        for item in self._list:
+            try:
+                other_items.remove(item)
+            except ValueError:
+                return False
+        return not other_items
 
     def __repr__(self) -> str:
         class_name = self.__class__.__name__
-- 
2.43.0


From b2913996f8201dc23f775660a34c0ee3cdf281e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 77/77] fix: don't count bytes an UploadFile failed to write

---
 starlette/datastructures.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index d4833a6..1a8209e 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -463,14 +463,15 @@ class UploadFile:
         return bool(max_size) and self.file.tell() + size_to_add > max_size
 
     async def write(self, data: bytes) -> None:
-        if self.size is not None:
-            self.size += len(data)
-
         if self._in_memory and not self._will_roll(len(data)):
             self.file.write(data)
         else:
             await run_in_threadpool(self.file.write, data)
 
+        # What could not be written doesn't count.
+        if self.size is not None:
+            self.size += len(data)
+
     async def read(self, size: int = -1) -> bytes:
         if self._in_memory:
             return self.file.read(size)
-- 
2.43.0

