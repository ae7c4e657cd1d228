NOTES = {
"C01": """*Specified:* the ASGI response automaton - one start, then bodies, a final body exactly once, nothing after, debug/push messages only where the server offers them, HEAD and 204/304 without content, Content-Length equal to the bytes of a completed response - on the outermost boundary of an application composed at random from every built-in middleware, hand-written pure ones, mounts, hosts, routes and every response class, including endpoints that fail before, between and after chunks. *Oracle:* the automaton plus "an exception that reaches nobody reaches the server".""",
"C02": """*Specified:* status, raw headers and body of Response, HTML, PlainText, JSON and Redirect responses. *Oracle:* an independent encoder (RFC 8259 with the documented compact form, RFC 3986 quoting of redirect targets, charset rules) fed with the same arguments.""",
"C03": """*Specified:* conservation and order of chunks between the producer's yields and the server's sends, laziness (no chunk is pulled before the previous was taken), and promptness of stopping on disconnect, on a failing send and on a failing iterator, for sync and async producers under every spec_version the code distinguishes. *Oracle:* an online monitor holding the pull/send positions; endless producers make a missed stop visible as no progress.""",
"C04": """*Specified:* content, Content-Length, Last-Modified, ETag (equal for equal files, different after a change), media type and Content-Disposition (decoded by an independent RFC 6266/5987 reader), and descriptors closed after every outcome. *Oracle:* the file itself, read by the harness.""",
"C05": """*Specified:* 200/206/400/416 decision, Content-Range, exact bytes, multipart framing. *Oracle:* an interval-set reference of RFC 9110 ranges; multipart bodies are parsed by an independent reader. Files from 0 bytes to several chunks, up to many ranges, If-Range by tag and date, file truncated while being sent.""",
"C06": """*Specified:* every task of a response that reaches its end runs once, in order, after the last body message, a failing one stops the rest and surfaces; varied over response classes, status codes, media types, HEAD, chunk counts, middleware. *Oracle:* the event log (task events against server messages).""",
"C07": """*Specified:* messages and exceptions through 1-4 BaseHTTPMiddleware layers. *Oracle:* an executable model of the stack run on the same script; incremental delivery is checked by letting the application wait for the server to have received its previous chunk.""",
"C08": """*Specified:* what a downstream application receives after a layer above read all, part or none of the body. *Oracle:* reading rules over messages: bytes seen at each layer, and disconnect visible only after the body.""",
"C09": """*Specified:* body(), stream(), json(), form() in any sequence over any division into messages. *Oracle:* a reference reader with the same call history.""",
"C10": """*Specified:* the multi-items of request.form() equal the submitted ones (names, values, file names, content types, headers, contents, order). *Oracle:* the item list the workload encoded itself; open-file tracking for close().""",
"C11": """*Specified:* limits decide exactly at their boundary; every malformed, truncated or aborted upload ends in a client error (or the abort) with all temporary files closed and without reading on. *Oracle:* a counting model plus tracked files, with body mutation, disconnect and cancellation injected.""",
"C12": """*Specified:* every sync callable of the user (endpoint, task, handler, dependency, iterator) runs in a worker thread, every async one in the loop, and disk operations of FileResponse, StaticFiles and rolled uploads are never in the loop. *Oracle:* thread identity recorded in the callable or in the audit hook; barriers show that sync endpoints really overlap.""",
"C13": """*Specified:* which endpoint runs for a request, with which parameters. *Oracle:* `vp/routemodel.py`, an independent matcher over the description of the tree (it never uses starlette's regexes), over trees with overlapping literals, all convertors, nested mounts, hosts and websocket routes; paths include newlines, percent-decoded text and near misses.""",
"C14": """*Specified:* url_path_for / url_for / request.url_for. *Oracle:* the model's expansion, and the round trip: the URL is requested and must reach the named endpoint with the same parameters.""",
"C15": """*Specified:* url, base_url, url_for, root_path, path at every layer. *Oracle:* composition rules of the ASGI spec (root_path prefix) evaluated from the mount chain.""",
"C16": """*Specified:* a redirect is sent iff the path has no match and the path with the slash toggled has. *Oracle:* the routing model; the redirect is followed and must not redirect again.""",
"C17": """*Specified:* no byte of a file outside the directories is sent or even opened. *Oracle:* secret marker files next to the served directory, an audit hook on opens, realpath. Paths: dot segments, encoded separators, absolute paths, NUL, symlinks out (with follow_symlink both ways), prefix-sibling directories. All files live in the worker's scratch directory.""",
"C18": """*Specified:* responses follow the present state of the directories over histories of writes, deletes and replacements. *Oracle:* an in-memory map of the directories.""",
"C19": """*Specified:* 304 exactly when the validators of the current version match. *Oracle:* RFC 9110 precondition rules over the versions of the file, with clock-controlled mtimes.""",
"C20": """*Specified:* grants (Allow-Origin, Credentials, Expose, Vary) for simple requests. *Oracle:* the policy, and the response of the same application without the middleware; look-alike origins; concurrent requests with different origins through one instance.""",
"C21": """*Specified:* preflight decisions and headers. *Oracle:* an independent policy evaluation; sequences on one instance so that one answer cannot influence the next.""",
"C22": """*Specified:* the application runs only for allowed hosts. *Oracle:* independent host matching (ports, wildcards, IPv6), executions counted.""",
"C23": """*Specified:* the redirect target differs only in scheme and default port. *Oracle:* composed from the components the request was made from.""",
"C24": """*Specified:* sessions read back exactly, expire, and any cookie not issued by this configuration is an empty session. *Oracle:* a browser model and the set of issued sessions, under a controlled clock; 17 kinds of forgery.""",
"C25": """*Specified:* decoded content and headers equal those without the middleware; compression only when accepted, big enough and not already encoded. *Oracle:* the unwrapped application, zlib used independently; incremental decodability of streams.""",
"C26": """*Specified:* an endpoint behind requires() runs only with all scopes; refusals use the declared status/redirect. *Oracle:* credentials handed out per request, execution counts, interleaved requests.""",
"C27": """*Specified:* which handler (status, class by MRO, default) runs and what is sent. *Oracle:* an independent dispatch over the handler set; nested applications and mounts; websocket and after-start cases.""",
"C28": """*Specified:* one 500 response, debug page escaped, no leak without debug, the exception re-raised to the server. *Oracle:* an HTML parser over the page looking for live markers, hostile exception texts, locals and source lines.""",
"C29": """*Specified:* the order of lifespan steps, messages and serving, exactly once, with failures and cancellations at each step. *Oracle:* the event log against the required order.""",
"C30": """*Specified:* the WebSocket session automaton in both directions. *Oracle:* a reference state machine predicting every call's outcome, plus the automaton over server messages.""",
"C31": """*Specified:* frames equal, in order, same kind; endpoint decoding; close codes. *Oracle:* the frames the harness sent, resp. received.""",
"C32": """*Specified:* Headers and MutableHeaders. *Oracle:* an ordered list of pairs in lockstep; every view compared after every operation.""",
"C33": """*Specified:* MultiDict, ImmutableMultiDict, QueryParams, FormData. *Oracle:* list of pairs in lockstep, encode/parse round trips.""",
"C34": """*Specified:* URL construction and edits. *Oracle:* the components it was built from, one of them replaced.""",
"C35": """*Specified:* Set-Cookie / Cookie round trip. *Oracle:* an independent client jar.""",
"C36": """*Specified:* no representation shows a secret. *Oracle:* a random marker searched for in repr, tracebacks, debug pages, formatting.""",
"C37": """*Specified:* Config precedence and Environ immutability after read. *Oracle:* a three-layer reference model over histories.""",
"C38": """*Specified:* isolation of concurrent requests. *Oracle:* taint tokens in every channel, and the same request served alone.""",
"C39": """*Specified:* TestClient is a truthful server and client. *Oracle:* the recorded scope/messages against the arguments given, and the response object against the messages sent.""",
"C40": """*Specified:* SchemaGenerator output. *Oracle:* schema computed from the description of the tree.""",
"C41": """*Specified:* environ, response, iterable and error handling of WSGIMiddleware. *Oracle:* PEP 3333 model with counters on the iterable.""",
"C42": """*Specified:* rendering with exactly the given context. *Oracle:* independent rendering of the page descriptions, taint tokens, shared contexts, environment globals.""",
"C43": """*Specified:* order and multiplicity of middleware at application, router, mount and route level. *Oracle:* a nesting model giving the ordered enter/leave log.""",
"C44": """*Specified:* handler selection of HTTPEndpoint. *Oracle:* lookup over the description of the class hierarchy.""",
"C45": """*Specified:* UploadFile operations. *Oracle:* an in-memory file in lockstep.""",
"C46": """*Specified:* Request/WebSocket accessors and State. *Oracle:* the scope built by the harness and a reference dict.""",
"C47": """*Specified:* decorators, add_* methods and constructor arguments are interchangeable. *Oracle:* the constructor-built twin (differential).""",
"C48": """*Specified:* what a cancellation by the server leaves: the outcome, the messages, tasks, files, tokens and other requests. *Oracle:* the uncancelled run of the same request (what was sent is a beginning of it), the loop's tasks, /proc/self/fd, tracked temporary files, the threadpool's limiter, siblings and a request afterwards. The cancellation point is swept step by step until the request completes first. Two things belong to anyio and are not judged: a native cancellation while anyio.open_file's thread opens the file (anyio drops the thread's result), and which of several tasks of a group takes the cancellation (a completed response may then return normally).""",
"C49": """*Specified:* an argument, scope key or message key left out means its documented default. *Oracle:* differential - the same callable with the documented default given explicitly (SPECS in the module holds the defaults as documented, not as read from signatures), observed through responses, WebSocket transcripts, schemas, parsed forms, cookies, test-client echoes. Every subset and position order is generated over varied values of the other arguments. It decides nothing about what a default does: the other properties pass the values explicitly. Scope keys: those ASGI calls optional (scheme, root_path, client, server, state, extensions, subprotocols, a WebSocket's query_string, asgi.spec_version). Reading request.stream() inside a StreamingResponse's generator is not in the workload: before ASGI 2.4 the response listens for the disconnect on the same channel, and documented use reads the body first.""",
"C50": """*Specified:* what a connection, an application, and a test client leave behind: nothing. *Monitors, after every connection of a history:* weak references to the scope's token and to each request, response, form, upload, endpoint, exception and background task the endpoints saw; asyncio.all_tasks, threadpool tokens, /proc/self/fd, started against finished generators, the request stream (asyncgen hooks), RuntimeWarning/ResourceWarning, sys.unraisablehook, threading.excepthook, the loop's exception handler. *Floods:* thousands of differing connections of one kind; allocated blocks are compared over three windows after a warm-up of 1400 or more (bounded caches up to lru_cache(1024) fill before), and only growth in every window of one block per two connections counts. *Test clients:* threads, portals, lifespans, sessions. *Not judged:* what only a reference cycle keeps until the next collection; a file whose reading is cancelled (anyio's AsyncFile.aclose is not shielded, so reference counting closes it); forms the application chose not to close; user generators on trio, which are finalised by trio.""",
"C51": """*Specified:* growth of work with size. *Measured:* the same exchange through the real application at a size and a multiple of it: (1) lines of /repo/starlette executed, counted by sys.monitoring, at n and 4n: at most 1.3 times as many as in proportion, plus 300; (2) thread CPU time at n and 8n: at most three times as much as in proportion, plus 0.12 s (this is what shows work hidden in one line: a regular expression that backtracks, `bytes +=`, `list.pop(0)`); what exceeds is measured again and the best times taken. *Dimensions:* header values, paths, queries and bodies of repeated hostile pieces (about 140 pieces, and products of them), and about 70 counts (headers, cookies, fields, parts, ranges, messages of any size, chunks, background tasks, routes, ...), bare and through a stack of six middleware. *Not judged:* code of libraries: httpx's own header handling (quadratic in the number of response headers), http.cookies' unquoting of backslashes and email's scanning of quotes in a media type. *Found:* three defects, repaired: a Range header of digits took quadratic time (CVE-2025-62727), a form field received in many pieces and a WSGI request body were collected by `bytes +=`.""",
"C52": """*Specified:* nothing is buffered but a constant number of pieces. *Monitors:* counters at both ends of every stream: chunks the producer was asked for against body messages the server accepted (a slow server yields to the scheduler several times for each message), messages the application's receive was asked for against chunks it consumed (a slow application likewise), WebSocket messages in both directions; the bound is two pieces and two for each middleware that relays. tracemalloc's peak for 3 and 18 MiB (uploads, forms discarded, streams, files, ranges, static files, WebSockets): the second no more than 2 MiB above the first, and a body read whole no more than twice its size. *Not judged:* chunks that make no message (BaseHTTPMiddleware drops empty ones, compression makes empty ones of small ones); WSGI, whose bodies are read whole by design.""",
"C53": """*Specified:* which declarations are right. *Oracle:* a parser of path and host templates written by hand (names, convertors, duplicates), and a table of what is wrong for every other kind of declaration; each declaration is made for real (14 ways of declaring a route, 3 for hosts, constructor arguments in every combination, decorators, patterns, keys of handlers, ...), and what it raises, warns and registers is compared: the routes before it stay as they were and go on serving, the new one serves the request that the template describes, with its parameters. Late middleware is tried after an application has served nothing, a request, a WebSocket, a lifespan, or a request that failed. *Not judged:* the wording of messages, except that duplicated names and unknown convertors are named. *Found:* Jinja2Templates(directory="", env=env) accepted the environment and ignored it (repaired).""",
"C54": """*Specified:* what a failure looks like from outside. *Fault injection:* the n-th call of send, of receive, step of the application's code (endpoint, generator, dispatch, backend, handler, background task, WSGI application; on the loop and in threads), or operation on a served or uploaded file (open, stat, read, seek, write) raises; n is swept from 0 until the request completes without reaching it. Six kinds of exceptions (one of them with a handler), 29 endpoint kinds, up to four of 13 middleware, asyncio and trio, ASGI 2.0 to 3.0, with and without another request at the same time. *Oracle:* the faultless run of the same composition; identity of the exception the application's own try/except saw and of the one the server got; messages sent, attempted after a failed send, completions; tasks, tokens, descriptors, temporary files; siblings and the next request. *Not judged:* two failures at once (a generator that fails when the send of its last chunk does), which come out as a group. *Found:* behind BaseHTTPMiddleware an exception of receive reached the endpoint as an ExceptionGroup; an OSError of a stream's content was reported as a ClientDisconnect (both repaired).""",
"C55": """*Specified:* no request can make the framework itself fail. *Workload:* for each of some 40 headers the pieces of its own grammar and its usual malformations (dates with impossible fields, ranges and q-values with non-numbers, signed cookies cut apart, RFC 2231 parameters, codecs that are no charsets, ...), mutated and combined with hostile paths, queries, methods, hosts, form and JSON bodies in any message division and WebSocket frames of either kind; 24 kinds of endpoints that read every property of the request, behind any stack of ten shipped middleware. *Monitors:* exceptions that reach the server, server errors, unfinished or missing answers, 1011 closes; the URL the endpoint and middleware saw against host, path and query of the scope (an independent judgement of what a Host header may hold), its hostname against the allowed hosts, where redirects lead. *Not judged:* integers of over 4300 digits (known finding of C13), JSON nested deeper than Python parses, hosts that are neither plainly valid nor plainly malformed (only that nothing fails), paths without any host that read as one. *Found:* malformed Host headers broke or redirected the URL and passed TrustedHostMiddleware, HTTPSRedirectMiddleware failed without a host (repaired).""",
"C56": """*Specified:* an answer depends on the request alone, not on what was served before; and what the application handed over is only read. *Workload:* an application with about 50 routes of every kind (class and shared responses, re-used exceptions, contexts and header dicts, hosts, mounts, static files, WSGI, schemas, templates, sessions, WebSockets) under up to four of ten middleware; a pool of requests that differ in single respects (method, host, scheme, path, query, one header, preflight, body, cuts, root path, HTTP or WebSocket); a history of up to 100 over the pool, ended in every way (completed, disconnected, cancelled, failing send, body longer than read); endpoints change everything a request gives them (cookies, path parameters, credentials, state, session, headers). *Oracle:* each completed answer against that of an application just built, for part of the cases in a forked process (which shows caches of modules); an absolute echo of the request; snapshots of every object handed over (lists, dicts, headers, contexts, schemas, responses, the server's scope) around every request. Boundaries, timestamps in session cookies, and the text of debug pages are masked.""",
"C57": """*Specified:* between server and application, what Starlette does not interpret is neither lost, changed, doubled, reordered nor invented, in both directions. *Workload:* up to five layers out of all shipped middleware, routers, mounts (with and without parameters), hosts, applications and routes, around an application that plays a script: the response or WebSocket protocol with extra keys, server push, early hints, debug, trailers, path and zero-copy send, messages of unknown types at every place, refusals of WebSockets, other connections (lifespan, unknown). The scope holds extension parameters and vendor keys, some of them opaque objects. *Oracle:* a log at either end, compared one to one, with the documented edits (CORS and session headers, compression, its delayed start) as the only differences; values compared by type, opaque ones by identity; the server is asked for as many messages as the application received. BaseHTTPMiddleware is not required to relay HTTP extensions: it answers itself, from a response object.""",
}
