#!/usr/bin/env python3
# Regenerates properties.jsonl from the table below (kept as the single source).
import json,sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Routing gives the same result as trying the routes one after another",
  "For every list of routes and every request, the handler that runs is the one a naive router would pick by trying each route in registration order, skipping only routes whose advertised prefix is not a prefix of the path.",
  ["programs","inputs"],"every route list (any prefixes, methods, patterns) and every request path and method",
  "One nine-route table and seven paths are sampled; the compiled automaton is different for every route list.",
  ["web/bytecode_compiler.go","web/bytecode_runner.go","web/router.go"],
  [("prefix trie built from the sorted list","web/bytecode_compiler.go buildTrie"),("lowering to bytecode","web/bytecode_compiler.go encode"),("matching loop","web/bytecode_runner.go route")],["which handler is called"])
p("C02","Registration keeps routes that can match the same path in the order added",
  "When a route is added, it is never placed in front of an already registered route whose prefix overlaps its own (equal, or one a prefix of the other), no existing route is dropped, duplicated or reordered, and exactly one new entry appears.",
  ["programs","inputs"],"every existing route table and every new route prefix",
  "A single table of nine routes is registered in the tests; the insertion point depends on all pairs of prefixes.",
  ["web/router.go"],[("sorted insertion","web/router.go handle")],["order in which patterns are tried"])
p("C03","A handler is selected only if its route's pattern and method both matched",
  "A registered handler is chosen only after its own route's pattern accepted the request and its route's method set contains the request's method; that pattern is then run exactly once, no other route's pattern is run, and the pattern and handler reported together belong to the same route.",
  ["inputs","programs"],"every route table, pattern outcome and request method",
  "Tests sample a few method/pattern combinations and never observe how often, or for which route, a pattern is run.",
  ["web/bytecode_runner.go","web/router.go"],[("match, method test, run","web/bytecode_runner.go matchRoute, route")],["Pattern.Match / Pattern.Run calls and the selected handler"])
p("C04","Testing whether a route matches never changes the request or the context",
  "Asking a string or regular expression pattern whether it matches changes neither the request nor the context it is given, so a route that is considered but not selected leaves no trace (no URL parameter, no environment entry) for the handler that finally runs.",
  ["inputs"],"every pattern, request and context",
  "The tests match and then run the same pattern on the same context, so writes made by matching are invisible to them.",
  ["web/regexp_pattern.go","web/string_pattern.go"],[("dry-run matching","web/string_pattern.go match, web/regexp_pattern.go match")],["C.URLParams and C.Env after Match"])
p("C05","Running a pattern binds parameters only on a full match and keeps earlier ones",
  "A built-in pattern that does not match the request binds nothing at all, not even for the part that did match; one that matches adds its own parameters and keeps every parameter already present under another name, and matching decides exactly what running decides.",
  ["inputs"],"every pattern, path and pre-existing parameter map",
  "Tests always start from an empty context and few paths, so partial bindings and merging are never seen.",
  ["web/regexp_pattern.go","web/string_pattern.go"],[("bind after the last comparison","web/string_pattern.go match"),("merge into an existing map","web/string_pattern.go match, web/regexp_pattern.go match")],["C.URLParams after Run"])
p("C06","A pattern's advertised prefix starts every path the pattern matches",
  "The prefix a built-in pattern reports is a prefix of every path it matches (the router skips the pattern for all other paths), and a regular expression pattern matches only at the start of the path, whichever alternative of the expression matches. (An expression that is not valid Perl syntax is logged, advertises the empty prefix and is left as it is.)",
  ["inputs","programs"],"every string pattern, every regular expression and every path",
  "Five expressions are sampled; none has a top-level alternation, case folding, or an optional head.",
  ["web/regexp_pattern.go","web/string_pattern.go"],[("literal prefix extraction and anchoring","web/regexp_pattern.go sketchOnRegex"),("first literal","web/string_pattern.go Prefix")],["Pattern.Prefix and Pattern.Match"])
p("C07","A route change is never missed and never disturbs a request being routed",
  "A request that starts after a route was added is routed with that route; requests that run while routes are being added see a complete earlier or later table, never a mixture, because a published table and the automaton compiled from it are never modified and are replaced together under a lock.",
  ["schedules","histories"],"every interleaving of registrations, compilations and requests",
  "No test registers routes concurrently with requests or after the first request.",
  ["web/router.go","web/atomic.go","web/bytecode_runner.go"],[("copy-on-write route table","web/router.go handle"),("invalidate on change","web/router.go handle"),("atomic publication","web/atomic.go")],["routing of requests concurrent with or after a registration"])
p("C08","Each registration call accepts exactly the HTTP methods it documents",
  "A route added with Connect, Delete, Head, Options, Patch, Post, Put or Trace accepts exactly the request method of that name, one added with Get accepts exactly GET and HEAD, and one added with Handle accepts every method including unknown ones; unknown methods are accepted by nothing else.",
  ["inputs"],"every request method string and every registration call",
  "The tests try the ten method names on one mux in an order in which several wrong masks go unnoticed.",
  ["web/mux.go","web/router.go"],[("method masks","web/mux.go"),("method name table","web/router.go validMethodsMap, httpMethod")],["which requests reach a handler"])
p("C09","When no route is selected the not-found handler runs with the right method list",
  "If no route is selected the mux's not-found handler runs; the environment then carries, under the valid-methods key, the sorted names of exactly those HTTP methods accepted by routes whose pattern matched, and carries no such list if no pattern matched.",
  ["inputs","programs"],"every route table and request",
  "One table and one bogus method are sampled.",
  ["web/router.go","web/bytecode_runner.go"],[("method accumulation","web/bytecode_runner.go matchRoute"),("list construction","web/router.go getMatch")],["C.Env[ValidMethodsKey] and the handler called"])
p("C10","An explicit routing decision in the environment is honoured",
  "If the environment holds a routing match with a handler when the middleware stack ends, that handler runs and no routing is done, otherwise the mux routes; the Router middleware stores the outcome of routing (pattern and handler, or the not-found handler) in the environment before the next layer runs.",
  ["inputs","histories"],"every environment content and every middleware that may change it",
  "One test with one middleware; absent, foreign-typed and empty values are not tried.",
  ["web/match.go","web/mux.go","web/router.go"],[("lookup","web/match.go GetMatch"),("dispatch","web/router.go route"),("Router middleware","web/mux.go routerMiddleware")],["handler called; C.Env[MatchKey]"])
p("C11","Every accepted handler, pattern or middleware form is called as given",
  "Every documented form of handler is called exactly once with the request's own writer, request and (if it takes one) context, one implementing both interfaces being called through the context-aware one; a value of any other type is rejected fatally; and a match reports back the very handler or pattern that was registered.",
  ["inputs","programs"],"every value passed as handler, pattern or middleware",
  "The tests use one value of each form and never the rejected ones.",
  ["web/handler.go","web/pattern.go","web/middleware.go","web/match.go"],[("adaptation","web/handler.go parseHandler, web/pattern.go ParsePattern, web/middleware.go appendLayer"),("inverse","web/match.go RawHandler, RawPattern")],["calls received by the user's function; Match.RawHandler/RawPattern"])
p("C12","Middleware wraps the router outermost-first around one shared context",
  "Every request passes through each layer of the middleware stack exactly once, outermost (first added) first, and then reaches the router; every layer and the router share one and the same context, so a change made by any layer is seen by the layers inside it and by the handler.",
  ["programs","inputs"],"every stack depth and composition",
  "Tests build stacks of up to four layers.",
  ["web/middleware.go","web/mux.go"],[("stack construction","web/middleware.go newStack")],["order of middleware calls"])
p("C13","Use, Insert and Abandon edit exactly one layer and fail without effect",
  "Use adds the layer innermost; Insert puts it directly outside the first layer equal to the reference; Abandon removes the first layer equal to the reference; all other layers keep their order, and when the reference is not found an error is returned and the stack is unchanged.",
  ["histories","inputs"],"every stack and every sequence of edits",
  "Tests check a handful of edits on stacks of at most three layers.",
  ["web/middleware.go"],[("edits","web/middleware.go appendLayer, findLayer, Insert, Abandon")],["order of middleware calls after an edit"])
p("C14","A request never runs through a middleware stack that has been changed since",
  "Once Use, Insert or Abandon has returned successfully, no later request runs through a stack instance built before the change: cached instances are discarded with the change, and an instance still in use at that moment never gets back into the cache.",
  ["histories","schedules"],"every sequence of edits and requests, including edits made by a handler",
  "The only tests of this are not compiled with current Go releases.",
  ["web/middleware.go","web/cpool.go"],[("pool replacement","web/middleware.go invalidate"),("release check","web/middleware.go release")],["which layers a request passes"])
p("C15","Request contexts are isolated although stack instances are reused",
  "Every request served through a mux starts with an empty context, or exactly the context it was given, whatever earlier requests did; while a request is being served its stack instance is not available to another one, and an instance put up for reuse holds no data of the request before.",
  ["histories","schedules"],"every sequence and overlap of requests, including handlers that panic",
  "The cache gives no control over reuse, so tests do not provoke it.",
  ["web/middleware.go","web/mux.go"],[("reset on entry","web/middleware.go cStack.ServeHTTP, ServeHTTPC"),("alloc / release","web/mux.go ServeHTTP, ServeHTTPC; web/middleware.go alloc, release")],["C seen by the first layer"])
p("C16","No bundled component ever writes into a nil context map",
  "Whatever the incoming context and whatever the inner handlers do to it, neither the mux nor any bundled middleware or built-in pattern writes an entry into a context map that is nil (which would panic).",
  ["inputs","histories"],"every incoming context, and every change to it by inner layers",
  "Most middleware have no test at all; none is tested with a context whose map was reset by an inner layer.",
  ["web/router.go","web/mux.go","web/regexp_pattern.go","web/string_pattern.go","web/middleware/envinit.go","web/middleware/request_id.go","web/middleware/urlquery.go","web/middleware/subrouter.go"],[("nil checks before map writes","all listed files")],["panics"])
p("C17","Every bundled middleware passes each request on exactly once",
  "EnvInit, Logger, NoCache, AutomaticOptions, RealIP, Recoverer, RequestID, SubRouter, URLQuery and the Router middleware call the next handler exactly once for every request, with that request and with the writer they were given or a proxy of it.",
  ["inputs"],"every request and context",
  "Six of the ten have no tests, the others one or two requests.",
  ["web/middleware/envinit.go","web/middleware/logger.go","web/middleware/nocache.go","web/middleware/options.go","web/middleware/realip.go","web/middleware/recoverer.go","web/middleware/request_id.go","web/middleware/subrouter.go","web/middleware/urlquery.go","web/mux.go"],[("ServeHTTP of each middleware","web/middleware/*.go")],["calls of the wrapped handler"])
p("C18","SubRouter strips the prefix for inner layers and always undoes it",
  "If the context binds the wildcard tail (\"*\", or else \"_\"), inner layers see that tail as the request path and no explicit routing match; when they return or panic, the original path and the original match (or its absence) are restored; without such a binding nothing is changed.",
  ["inputs","histories"],"every context and every behaviour of inner layers, including panics",
  "One test checks one path; restoration and panics are never observed.",
  ["web/middleware/subrouter.go"],[("deferred restoration","web/middleware/subrouter.go ServeHTTP")],["r.URL.Path and C.Env[MatchKey] inside and after"])
p("C19","Recoverer turns a panic of an inner layer into a logged 500 response",
  "If an inner layer panics, the Recoverer middleware stops the panic, logs its value with a backtrace and the request's ID (if it has one) and replies with status 500; if none panics it neither writes to the response nor logs anything.",
  ["inputs","histories"],"every inner handler and panic value",
  "The middleware has no tests.",
  ["web/middleware/recoverer.go"],[("deferred recover","web/middleware/recoverer.go Recoverer")],["panics escaping; response status"])
p("C20","Request IDs are unique within a process",
  "No two requests passing the RequestID middleware in one process get the same ID, however they overlap; the ID is in the environment before the next layer runs and is what the accessor returns, and the accessor returns the empty string for a context without one.",
  ["schedules","inputs"],"every overlap of requests, every context",
  "The middleware has no tests.",
  ["web/middleware/request_id.go"],[("atomic counter","web/middleware/request_id.go RequestID")],["C.Env[RequestIDKey]; GetReqID"])
p("C21","AutomaticOptions answers OPTIONS only in place of a 404 with known methods",
  "The response is replaced by status 200 with an Allow header listing the valid methods plus OPTIONS, and the body is suppressed, exactly when the method is OPTIONS, the first status written is 404 and the context carries a valid-methods list; every other response passes through unchanged.",
  ["inputs","histories"],"every request method, context, and sequence of header and body writes",
  "Four write sequences are sampled.",
  ["web/middleware/options.go"],[("state machine of the proxy","web/middleware/options.go autoOptionsProxy")],["status, Allow header and body received by the underlying writer"])
p("C22","The response proxy reports what was really sent and sends one final status",
  "For every sequence of header, body, copy and flush operations on the proxy used by Logger, the underlying writer receives at most one final (non-informational) status, the proxy's status is exactly that one, and its byte count is exactly the number of body bytes the underlying writer accepted.",
  ["histories","inputs"],"every sequence of operations on the proxy and every short write or error of the underlying writer",
  "The package has no tests.",
  ["web/mutil/writer_proxy_go1_8.go","web/mutil/writer_proxy.go"],[("header latch and counters","web/mutil/writer_proxy_go1_8.go basicWriter, fancyWriter")],["WriteHeader calls on the wrapped writer; Status; BytesWritten"])
p("C23","A tee sees exactly the body bytes the client was sent",
  "While a tee is set on the response proxy, every body byte accepted by the underlying writer, and only those, is written to the tee, after it was written to the underlying writer, whichever operation sent it; an error of the underlying writer takes precedence over one of the tee.",
  ["histories","inputs"],"every sequence of operations and every short write or error",
  "The package has no tests.",
  ["web/mutil/writer_proxy_go1_8.go","web/mutil/writer_proxy.go"],[("tee in Write, slow path in ReadFrom","web/mutil/writer_proxy_go1_8.go basicWriter.Write, fancyWriter.ReadFrom")],["writes to the tee"])
p("C24","The response proxy never offers more, nor hides Flush, than it wraps",
  "Wrapping any response writer and calling any method of the proxy never panics because the wrapped writer lacks a capability (an unsupported push reports an error), each call is forwarded to the wrapped writer's method of the same name, and a proxy of a writer that can flush can itself flush.",
  ["inputs","configurations"],"every combination of optional interfaces of the wrapped writer",
  "The package has no tests.",
  ["web/mutil/writer_proxy_go1_8.go","web/mutil/writer_proxy.go"],[("capability checks","web/mutil/writer_proxy_go1_8.go WrapWriter"),("forwarding methods","web/mutil/writer_proxy_go1_8.go fancyWriter, flushWriter")],["panics; interfaces of the returned proxy"])
p("C25","NoCache always sends the documented headers and hides validators",
  "Before the next layer runs, NoCache has set Expires, Cache-Control, Pragma and X-Accel-Expires to the documented values, whatever the time zone of the host, and no conditional request header (If-Modified-Since, If-None-Match, If-Match, If-Range, If-Unmodified-Since, ETag) is visible any more in the request the next layer sees.",
  ["inputs","configurations"],"every request and host configuration",
  "One request in one time zone is tried, compared with the middleware's own table.",
  ["web/middleware/nocache.go"],[("header tables and loops","web/middleware/nocache.go")],["response headers and request headers seen by the next layer"])
p("C26","RealIP prefers X-Forwarded-For and leaves the address alone without headers",
  "RealIP sets the remote address to the first entry of a non-empty X-Forwarded-For header, otherwise to a non-empty X-Real-IP header, otherwise leaves it unchanged; it has done so before the next layer runs and changes nothing else of the request.",
  ["inputs"],"every combination of the two headers",
  "The middleware has no tests.",
  ["web/middleware/realip.go"],[("header precedence","web/middleware/realip.go realIP")],["r.RemoteAddr seen by the next layer"])
p("C27","Every accepted connection is counted out of a drain exactly once",
  "From the moment it is accepted, a connection holds up a drain until it is closed or disowned, and it is released exactly once, whatever sequence of close, disown, mark, read and shutdown calls it sees: a drain never returns while a managed connection is open, never blocks on one that is gone, and neither closing nor draining panics.",
  ["histories","schedules"],"every sequence and interleaving of connection and listener operations",
  "Tests exercise single operations; a closed connection that is then hijacked, for example, is never tried.",
  ["graceful/listener/conn.go","graceful/listener/shard.go","graceful/listener/listener.go"],[("wait group add/done on state transitions","graceful/listener/conn.go init, Close, markIdle, closeIfIdle, disown")],["return of Drain / DrainAll; panics"])
p("C28","Shedding idle connections never closes a busy or disowned connection",
  "CloseIdle and Drain never close a connection while it is marked in use, even if it was idle when they started, and no listener operation ever closes a disowned connection or touches it again; only its owner's Close does, and that closes the real connection.",
  ["schedules","histories"],"every interleaving of reads, marks, disowning and shutdown",
  "One randomised race test; disowned and closed connections are not part of it.",
  ["graceful/listener/conn.go","graceful/listener/shard.go"],[("re-check under the connection lock","graceful/listener/conn.go closeIfIdle")],["Close calls on the underlying connection"])
p("C29","No connection escapes a drain",
  "Once a drain has begun, every idle connection is closed at once, every connection that becomes idle later is closed at that moment, and every newly accepted connection is closed and reported as an ordinary closed-listener accept error; DrainAll also closes every connection in use; no drain waits for any connection before all parts of the listener were told to drain.",
  ["schedules","histories"],"every interleaving of accepts, marks and drains, on every shard",
  "Tests drain one connection that is settled in one state beforehand.",
  ["graceful/listener/conn.go","graceful/listener/shard.go","graceful/listener/listener.go"],[("drain flag tested and set in one critical section with the sets","graceful/listener/shard.go track, markIdle, closeConns"),("two passes over all shards","graceful/listener/listener.go Drain, DrainAll")],["connections closed by a drain; Accept's error"])
p("C30","The listener's locking is complete and cannot deadlock",
  "All mutable connection and tracking state is accessed only under its lock, locks are always released on every path and always taken in one global order, no lock is taken twice, and no lock is held while blocking on the network read, on accepting, or on a drain.",
  ["schedules"],"every interleaving of all listener and connection operations",
  "The race test samples schedules without the race detector.",
  ["graceful/listener/conn.go","graceful/listener/shard.go","graceful/listener/listener.go"],[("conn.mu before shard.mu","graceful/listener/conn.go, graceful/listener/shard.go")],["deadlocks and data races"])
p("C31","Reads, deadlines and marks move a connection between idle and busy as promised",
  "A successful read makes a managed connection busy except in manual mode; setting a read deadline makes it idle only in deadline mode; the mark calls make it busy or idle in every mode; every operation still performs and reports the underlying operation, and marks or disowning on a foreign connection return an error.",
  ["histories","configurations"],"every mode and every sequence of operations",
  "Each test performs one or two operations.",
  ["graceful/listener/conn.go","graceful/listener/listener.go"],[("mode tests","graceful/listener/conn.go Read, SetReadDeadline"),("exported mark functions","graceful/listener/listener.go")],["which connections CloseIdle closes; results returned"])
p("C32","A read that races with shutdown never hands out data of a closed connection",
  "If a managed connection has been closed by the time a read on it returns, that read reports an error and no data; a second close reports an error without touching the real connection; reads and closes of a disowned connection behave exactly like those of the real one.",
  ["schedules","histories"],"every interleaving of read and close",
  "No test closes a connection during a read.",
  ["graceful/listener/conn.go"],[("check after the read","graceful/listener/conn.go Read"),("closed check","graceful/listener/conn.go Close")],["results of Read and Close"])
p("C33","Graceful shutdown runs its phases in order and at most once",
  "However many shutdowns are requested and however they overlap, the pre-hooks run once and before any listener is closed, every registered listener is closed and then drained, the post-hooks run once after that, and only then are waiters released, once; hooks run in the order they were added and get the signal.",
  ["schedules","histories"],"every number, kind and overlap of shutdown requests, hooks and listeners",
  "The package has no test that compiles with current Go.",
  ["graceful/signal.go","graceful/graceful.go"],[("once-guarded phases","graceful/signal.go shutdown"),("close and drain every listener","graceful/signal.go closeListeners")],["order of hooks, listener closes and Wait's return"])
p("C34","A forced shutdown always closes busy connections and is never blocked",
  "ShutdownNow, a second signal within the double-kick window and an expired timeout close every connection including busy ones, while a plain Shutdown or single signal does not; a force request is not held up by a graceful shutdown that is waiting, a zero window or timeout disables the feature, and negative settings are ignored. The standard signals are the interrupt and, exactly when the process runs under Einhorn, SIGUSR2; adding signals takes none of the others away.",
  ["schedules","histories"],"every sequence and timing of signals and calls",
  "The package has no test that compiles with current Go.",
  ["graceful/signal.go","graceful/einhorn.go"],[("separate onces, wait outside the lock","graceful/signal.go shutdown, closeListeners"),("signal loop","graceful/signal.go sigLoop")],["DrainAll versus Drain; progress of a forced shutdown"])
p("C35","Serving reports no error for, and only for, the closing of its listener",
  "After shutdown has begun, the accept error caused by the closed listener is swallowed, and any other error is reported unchanged; before shutdown has begun every error is reported; and shutdown is marked as begun before the first listener is closed.",
  ["schedules","inputs"],"every error and every moment at which it occurs",
  "The package has no test that compiles with current Go.",
  ["graceful/graceful.go","graceful/serve13.go","graceful/signal.go"],[("error filter","graceful/graceful.go peacefulError"),("closing flag","graceful/signal.go closeListeners")],["return value of Serve"])
p("C36","Serving a listener hooks it into shutdown without changing the caller's server",
  "Serve registers the wrapped listener for shutdown before it serves, wraps it in the mode in which reads mark connections busy, marks connections idle and disowns hijacked ones exactly on those state changes, always also calls the caller's own state callback, disables keep-alives when the listener is closed, and modifies neither the caller's server nor its settings.",
  ["inputs","histories"],"every server configuration and connection state change",
  "The package has no test that compiles with current Go.",
  ["graceful/serve13.go","graceful/server.go","graceful/graceful.go"],[("shadow server","graceful/serve13.go Serve"),("state callback chain","graceful/serve13.go connState.Wrap"),("keep-alive shim","graceful/serve13.go gracefulServer")],["ConnState callbacks; fields of the http.Server passed in"])
p("C37","Serving TLS keeps every setting of the caller's TLS configuration",
  "ListenAndServeTLS serves with a copy of the caller's TLS configuration that carries over every setting, changes only the certificates and a missing protocol list, never modifies the caller's own configuration, and requires at least TLS 1.0 if no configuration was given; errors of key loading and listening are returned.",
  ["inputs","configurations"],"every TLS configuration",
  "The package has no test that compiles with current Go.",
  ["graceful/server.go","graceful/clone16.go"],[("clone","graceful/clone16.go cloneTLSConfig"),("defaults","graceful/server.go ListenAndServeTLS")],["the configuration passed to the TLS listener"])
p("C38","A bind address yields a listener or an error, by the documented rules",
  "An address with a colon is a TCP address, one starting with \".\" or \"/\" a UNIX socket, \"fd@N\" the inherited descriptor N, \"einhorn@N\" the N-th Einhorn socket if there is one, anything else an error; on every platform the result is a listener or a non-nil error, never neither, and temporary descriptors are closed on every path.",
  ["inputs","configurations","fault_sequences"],"every address string, environment, platform and failing system call",
  "The package has no tests.",
  ["bind/bind.go","bind/einhorn.go","bind/einhorn_stub.go"],[("dispatch","bind/bind.go listenTo"),("range check","bind/einhorn.go einhornBind")],["result of Socket"])
p("C39","Inherited sockets are used only if meant for this process, in the right order",
  "Einhorn's and systemd's variables are honoured only if the process IDs in them match and the counts parse, in which case every inherited descriptor is marked close-on-exec; the default address is taken from the first available of GOJI_BIND, Einhorn, systemd, PORT and the built-in default, in that order.",
  ["configurations","inputs"],"every environment",
  "The package has no tests.",
  ["bind/bind.go","bind/einhorn.go","bind/systemd.go"],[("environment checks","bind/einhorn.go einhornInit, bind/systemd.go systemdInit"),("precedence","bind/bind.go Sniff, WithFlag")],["default of the bind flag; descriptor flags"])
p("C40","Startup announces readiness once, when everything is in place",
  "Serving the default mux compiles and installs it, then installs the signal handlers, then reports readiness, then serves, and on a clean end waits for the shutdown to complete; a serving error is fatal; readiness is reported to the parent at most once and only under Einhorn.",
  ["histories","schedules"],"every startup and every serving outcome",
  "The package has no tests.",
  ["serve.go","bind/bind.go","bind/einhorn.go"],[("startup sequence","serve.go ServeListener"),("once","bind/bind.go Ready")],["order of these effects"])
p("C41","The package-level functions act on the default mux as their names say",
  "Every package-level registration or middleware function performs the mux operation of the same name on the default mux with its own arguments and returns its result; the default mux starts with RequestID, Logger, Recoverer and AutomaticOptions, outermost first.",
  ["inputs"],"every package-level function",
  "The package has no tests.",
  ["default.go"],[("delegation","default.go")],["calls on the default mux"])
p("C42","Shared counters and flags are only ever accessed atomically, on every platform",
  "Every variable that is updated without a lock from several goroutines (request counter, connection counter, shutdown flag, published routing automaton) is read and written only through atomic operations, and those of 64 bits are aligned for them on 32-bit platforms too; an accepted connection is assigned to an existing shard whatever the counter's value.",
  ["schedules","configurations","histories"],"every schedule, platform and counter value",
  "Tests run on one 64-bit platform without the race detector.",
  ["graceful/listener/listener.go","graceful/signal.go","graceful/graceful.go","web/atomic.go","web/middleware/request_id.go"],[("sync/atomic calls","all listed files"),("field order","graceful/listener/listener.go T")],["crashes on 32-bit platforms; data races"])
p("C43","Logger logs one truthful line before and one after every request",
  "Logger logs exactly one line before it passes a request on and exactly one when the inner layers have returned. The first names the method, the URL (only ever in quoted form) and the remote address, the last the status the client was really sent (a response to which nothing was sent is sent as 200 first) and the time the inner layers took; both carry the request's ID if it has one.",
  ["inputs","histories"],"every request, context and inner handler",
  "Logger has no tests, and its output depends on what inner layers do to the response.",
  ["web/middleware/logger.go","web/mutil/writer_proxy.go"],[("the two lines","web/middleware/logger.go printStart, printEnd"),("missing status","web/middleware/logger.go Logger")],["log output"])
p("C44","Bundled middleware adds only its own environment entry and keeps the rest",
  "EnvInit, RequestID and URLQuery make sure inner layers find an environment; RequestID and URLQuery store the documented value (a request ID; the parsed query of the request's URL) under their own key for every request. No bundled middleware replaces an existing environment, touches entries other than its own or the URL parameters, or changes the context once the inner layers have returned (SubRouter's restoring of the match excepted).",
  ["inputs","programs"],"every context, request and middleware order",
  "Tests use an empty or missing environment, and look at single keys only.",
  ["web/middleware/envinit.go","web/middleware/request_id.go","web/middleware/urlquery.go","web/middleware/subrouter.go","web/middleware/options.go","web/middleware/logger.go"],[("lazy creation","web/middleware/envinit.go ServeHTTP, request_id.go RequestID, urlquery.go URLQuery")],["C.Env and C.URLParams seen by inner and outer layers"])
p("C45","Each parameter is bound to exactly the part of the path its place matches",
  "A string pattern is cut at its names (a colon after one of / . ; , up to the next such character); it matches a path exactly if the path consists of its literal parts with, for each name, the longest non-empty run of characters other than '/' and the character that follows the name in the pattern, and, for a pattern ending in /*, any rest. Running it binds every name to its run and * to the rest from its slash on; running a regular expression binds every group's name (or $n for an unnamed one) to what that group matched. Nothing else is bound.",
  ["inputs","programs"],"every pattern and every request path",
  "Tests try a handful of patterns and paths; off-by-one cuts and wrong ends show only for particular combinations of names, literals and separators.",
  ["web/string_pattern.go","web/regexp_pattern.go","web/pattern.go"],[("scan","web/string_pattern.go match"),("cuts","web/string_pattern.go parseStringPattern, patternRe"),("groups","web/regexp_pattern.go match, parseRegexpPattern")],["C.URLParams, result of Match"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
