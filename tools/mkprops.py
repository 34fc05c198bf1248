#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=list(files),
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))

p("C01","The first registered route that matches a request handles it",
 "For every sequence of route registrations on a Mux and every request, the handler that runs is the handler of the earliest-registered route whose method set contains the request method and whose pattern matches the request; if there is none, the Mux's NotFound handler runs. The order of registration is the only tie-break: route prefixes, the number of routes and when the table is compiled never change the choice. (Patterns are assumed to be side-effect free and to match only paths that start with the prefix they declare.)",
 ["programs","inputs"],"all registration sequences (patterns, methods, prefixes), all request methods and paths",
 "TestRouteSelection tries one nine-route table and seven paths; the routing bytecode is generated for arbitrary prefix sets, so the equivalence with trying the routes one by one has to hold for every table and path.",
 ["web/router.go","web/bytecode_compiler.go","web/bytecode_runner.go"],
 [("sorted insertion that never moves a route past one that may match the same path","web/router.go handle"),("prefix trie and bytecode generation","web/bytecode_compiler.go buildTrie, buildTrieSegment, encode, compile"),("bytecode interpreter","web/bytecode_runner.go route, matchRoute"),("method name to method bit","web/router.go httpMethod")],
 [("routes","registered routes, in matching order","web/router.go router"),("machine","compiled routing program for routes","web/router.go router")],
 ["handler invoked by Mux.ServeHTTP/ServeHTTPC","Match stored by Mux.Router"])
p("C02","String patterns match and bind exactly as documented",
 "For every string pattern and every path, the pattern matches if and only if the path is the concatenation of the pattern's literal parts and, for each ':name', the longest run of bytes containing neither '/' nor the break character that follows the name in the pattern, where that run is not empty; with a trailing '/*' only a prefix has to match. When the route is selected, URLParams binds each name to its run (the last one when a name repeats) and '*' to the unmatched tail including its leading '/', and every other entry of URLParams is left as it was. The prefix the pattern reports is the literal text before the first ':name'.",
 ["inputs","programs"],"all pattern strings and all request paths (including empty and non-UTF-8 ones)",
 "TestPatterns lists six patterns and a few paths each; the matching and binding loops must be right for every number of names, every break character and every path.",
 ["web/string_pattern.go"],
 [("pattern parser","web/string_pattern.go parseStringPattern"),("matching/binding loop","web/string_pattern.go match")],
 [("literals, breaks, pats, wildcard","parsed form of the pattern","web/string_pattern.go stringPattern")],
 ["Pattern.Match result","C.URLParams after Pattern.Run","Pattern.Prefix"])
p("C03","Regexp patterns are left-anchored, and bind every capture group",
 "For every Perl-syntax regular expression used as a pattern, the route matches exactly the paths that the expression matches starting at the first byte of the path, whatever alternations or flags it contains. When the route is selected, every capture group is bound in URLParams under its name, or under '$n' (n = its index) if it has no name, and no other entry changes. The prefix reported for the expression is a prefix of every path the pattern matches.",
 ["inputs","programs"],"all regular expressions and all paths",
 "TestPatterns uses five expressions, all without top-level alternation; anchoring and prefix extraction work on the compiled program and must be sound for every expression.",
 ["web/regexp_pattern.go"],
 [("anchoring and literal-prefix extraction","web/regexp_pattern.go sketchOnRegex"),("names","web/regexp_pattern.go parseRegexpPattern"),("binding","web/regexp_pattern.go match")],
 [("re, prefix, names","anchored expression, literal prefix, parameter names","web/regexp_pattern.go regexpPattern")],
 ["Pattern.Match result","C.URLParams after Pattern.Run","Pattern.Prefix"])
p("C04","Only the selected route's pattern changes the request context",
 "Testing whether a built-in pattern matches a request never changes the request or its context. So the handler of the selected route sees the URLParams that were there before routing plus the bindings of the selected route's own pattern, and nothing from routes that were tried and not selected (for example because their method differs).",
 ["inputs","programs","histories"],"all route tables, all requests, all contexts",
 "No test looks at URLParams after a route whose pattern matched was passed over; the property quantifies over all tables and requests.",
 ["web/string_pattern.go","web/regexp_pattern.go","web/bytecode_runner.go"],
 [("dry-run matching","web/string_pattern.go Match, web/regexp_pattern.go Match"),("Run only on the selected route","web/bytecode_runner.go matchRoute")],
 [("C.URLParams","bound parameters","web/web.go C")],
 ["C.URLParams seen by the handler"])
p("C05","NotFound learns exactly the methods that would have been routed",
 "When no route is selected, the context environment key ValidMethodsKey holds the sorted, duplicate-free list of exactly those known HTTP methods for which some route's pattern matches the request; when no route's pattern matches at all, routing does not touch the environment. Either way the Mux's current NotFound handler is the one that runs, other environment entries are preserved, and when a route is selected the environment is not touched.",
 ["inputs","programs"],"all route tables, requests and initial environments",
 "TestValidMethods checks five paths against one table; map iteration order and arbitrary tables are not sampled.",
 ["web/router.go","web/bytecode_runner.go"],
 [("method accumulation","web/bytecode_runner.go matchRoute, route"),("method list construction","web/router.go getMatch")],
 [("C.Env[ValidMethodsKey]","methods that would have matched","web/router.go")],
 ["C.Env in the NotFound handler"])
p("C06","Middleware runs in stack order; Use, Insert, Abandon edit exactly one layer",
 "Every request passes through the configured middleware from the first added (outermost) to the last, and then through the router. Use appends its middleware; Insert puts it immediately before the first occurrence of the given one; Abandon removes the first occurrence of the given one; all other layers keep their relative order. When the named middleware is not in the stack, Insert and Abandon return an error and change nothing.",
 ["programs","histories"],"all sequences of Use/Insert/Abandon, all stack sizes and positions, both middleware function types",
 "The tests edit stacks of two or three layers at a few positions.",
 ["web/middleware.go","web/mux.go","web/func_equal.go"],
 [("stack edits","web/middleware.go appendLayer, findLayer, Use, Insert, Abandon"),("stack construction","web/middleware.go newStack")],
 [("stack","layers, outermost first","web/middleware.go mStack")],
 ["order of middleware invocations","returned errors"])
p("C07","Every request runs in its own clean context on the current stack",
 "A request served through the net/http interface starts with an empty context; one served through the context interface starts with exactly the context it was given; in both cases every middleware layer and the router share that one context. A prebuilt stack is used by at most one request at a time, keeps nothing of a finished request's context, and is never used again once the middleware configuration has changed.",
 ["histories","schedules"],"all interleavings of requests and configuration changes allowed by the documentation",
 "TestContext checks one request on a fresh stack and the cache tests are not compiled for this Go version; leaks need a particular reuse history.",
 ["web/middleware.go","web/cpool.go","web/mux.go"],
 [("context reset","web/middleware.go cStack.ServeHTTP, ServeHTTPC, release"),("cache invalidation","web/middleware.go invalidate, alloc, release"),("pool","web/cpool.go")],
 [("pool","cache of prebuilt stacks for the current configuration","web/middleware.go mStack"),("cStack.C","context of the request being served","web/middleware.go cStack")],
 ["context seen by the outermost middleware"])
p("C08","An explicit routing Match is honoured instead of routing again",
 "If the context environment holds a Match with a handler under MatchKey when the request reaches the end of the middleware stack, that handler runs (with the same context) and no routing is done; otherwise the Mux routes. The Router middleware stores under MatchKey exactly the Match that the Mux's routing yields, keeps every other entry, and then calls the next layer; GetMatch returns the stored Match, or an empty one if there is none or it is of another type; RawPattern and RawHandler give back the values originally registered.",
 ["inputs","programs"],"all contexts, including a nil environment and foreign values under the key; all pattern and handler kinds",
 "Three small tests cover one route table and three pattern kinds.",
 ["web/router.go","web/match.go","web/mux.go"],
 [("explicit match lookup","web/router.go route, web/match.go GetMatch"),("Router middleware","web/mux.go routerMiddleware.ServeHTTP"),("unwrapping","web/match.go RawPattern, RawHandler")],
 [("C.Env[MatchKey]","explicit routing decision","web/match.go")],
 ["handler invoked","C.Env seen by later middleware","RawPattern/RawHandler results"])
p("C09","Adding a route is atomic with respect to concurrent requests",
 "Once a route registration has returned, every request that starts afterwards is routed with that route in place, however registrations, compilations and requests interleave. A request being routed while routes are added uses one consistent earlier or later table: a published table is never modified in place, and all updates are serialised.",
 ["schedules","histories"],"all interleavings of registration, Compile and request routing",
 "No test registers routes while requests are served; the race needs a specific interleaving of compile and handle.",
 ["web/router.go","web/atomic.go"],
 [("copy-on-write insertion under the lock","web/router.go handle"),("compile under the lock","web/router.go compile"),("atomic publication","web/atomic.go getMachine, setMachine")],
 [("routes","route table, protected by lock","web/router.go router"),("machine","published compiled table or nil","web/router.go router")],
 ["route selected for a request"])
p("C10","Every accepted handler and pattern type is adapted faithfully",
 "Registering a value of any documented handler type and routing to it calls that value exactly once with the request's response writer and request, and, if the type takes a context, with the request's context; a value that implements both the context-aware and the plain handler interface is called through the context-aware one. ParsePattern returns values that already implement Pattern unchanged and interprets strings and regular expressions with the corresponding pattern kind; any other type ends the program with a fatal log message instead of being registered.",
 ["inputs","programs"],"all values of all documented types, including types that satisfy several of them",
 "TestHandlerTypes tries one value per type and does not check the arguments that reach the handler.",
 ["web/handler.go","web/pattern.go","web/web.go"],
 [("type dispatch","web/handler.go parseHandler, web/pattern.go ParsePattern"),("adapters","web/handler.go ServeHTTPC methods, web/web.go HandlerFunc")],
 [],["handler invocation and its arguments"])
p("C11","Each verb function registers for exactly its documented methods",
 "Each of Connect, Delete, Head, Options, Patch, Post, Put and Trace registers its route for exactly the method of its name, Get for GET and HEAD, and Handle for every method including ones Goji does not know; a request method Goji does not know (methods are case-sensitive) only matches Handle routes. The functions of the top-level package do the same thing to the default Mux as the Mux method of the same name.",
 ["inputs","programs"],"all request method strings, all verb functions",
 "TestMethods tests ten method names with one route each in one particular order; the package-level functions have no tests.",
 ["web/mux.go","web/router.go","default.go"],
 [("verb methods","web/mux.go Handle, Connect, ... Trace"),("method lookup","web/router.go httpMethod, validMethodsMap"),("package-level wrappers","default.go")],
 [],["which requests reach a route"])
p("C12","SubRouter rewrites the path for the inner handler and always restores it",
 "When URLParams has the key '*' (or, failing that, '_'), the inner handler runs with the request path set to that value and with no explicit routing Match in the environment; when it finishes, normally or by panicking, the original path is back and the environment's Match entry is what it was before (an entry without a handler counts as none; provided the environment map is still there). When neither key is bound, the request and the environment reach the inner handler unchanged; the inner handler is called exactly once in every case.",
 ["inputs","fault_sequences"],"all contexts and paths, all inner-handler behaviours including panics and further rewrites",
 "One test checks that one nested route does not recurse for ever; restoration, panics and '_' are untested.",
 ["web/middleware/subrouter.go"],
 [("path rewrite with deferred restore","web/middleware/subrouter.go ServeHTTP")],
 [("r.URL.Path","path seen by inner and outer layers","net/http"),("C.Env[MatchKey]","explicit routing decision","web/match.go")],
 ["path and environment during and after the inner handler"])
p("C13","AutomaticOptions answers OPTIONS exactly when it would have been a 404",
 "Only OPTIONS requests are affected, and the inner handler always runs exactly once. For an OPTIONS request whose first response action is a 404 header while routing has recorded valid methods, the client gets status 200 with an Allow header listing exactly those methods plus OPTIONS (once), and the body bytes written by the handler are swallowed while reported as written. In every other case all headers, status codes and bytes pass through unchanged.",
 ["inputs","histories"],"all sequences of Header/Write/WriteHeader calls by the handler, all recorded method lists",
 "TestAutomaticOptions runs four fixed handlers.",
 ["web/middleware/options.go"],
 [("response proxy state machine","web/middleware/options.go autoOptionsProxy"),("method list","web/middleware/options.go getValidMethods, addMethod")],
 [("state","what the handler has written so far","web/middleware/options.go autoOptionsProxy")],
 ["status, Allow header and body received by the client"])
p("C14","The response proxy reports exactly what was sent, and sends it once",
 "For every sequence of calls, the writer proxy forwards at most one header to the wrapped writer (200 if the body starts without one), always before the first body byte; Status is that status (0 if none was sent) and BytesWritten is the total of body bytes the wrapped writer accepted, whichever way they were written. A tee'd writer receives exactly the accepted bytes after they went to the wrapped writer, and errors of the wrapped writer take precedence over errors of the tee; Unwrap returns the wrapped writer, and optional interfaces are forwarded to it.",
 ["histories","inputs"],"all call sequences, short writes and errors of the wrapped and tee'd writer",
 "Package mutil has no tests at all.",
 ["web/mutil/writer_proxy_go1_8.go"],
 [("accounting","web/mutil/writer_proxy_go1_8.go basicWriter"),("optional interfaces","web/mutil/writer_proxy_go1_8.go fancyWriter, WrapWriter")],
 [("wroteHeader, code, bytes, tee","what was sent so far","web/mutil basicWriter")],
 ["Status, BytesWritten, calls on the wrapped writer, bytes tee'd"])
p("C15","EnvInit, URLQuery and RequestID only add their own environment entry",
 "Each of these middlewares makes the environment non-nil, adds its documented entry (the parsed query; a request ID; nothing for EnvInit) before calling the next handler exactly once with the same arguments, and leaves every other environment entry alone. No two requests of a process get the same request ID, however requests interleave, and GetReqID returns the stored string ID or the empty string.",
 ["inputs","schedules"],"all contexts (nil and non-nil environments), all numbers and interleavings of requests",
 "Only URLQuery has a test, with an empty context; uniqueness quantifies over interleavings.",
 ["web/middleware/envinit.go","web/middleware/urlquery.go","web/middleware/request_id.go"],
 [("environment initialisation","web/middleware/envinit.go, urlquery.go, request_id.go"),("atomic counter","web/middleware/request_id.go RequestID")],
 [("C.Env","request environment","web/web.go C"),("reqid","request counter","web/middleware/request_id.go")],
 ["C.Env seen by the next handler","GetReqID"])
p("C16","Recoverer turns every handler panic into a logged 500 response",
 "If the inner handler panics with any non-nil value, Recoverer stops the panic, logs it (with the request ID if there is one) and answers with status 500 on the same response writer; if the handler returns normally, Recoverer adds nothing to the response and logs nothing. The inner handler is called exactly once with the same writer and request.",
 ["inputs","fault_sequences"],"all handler behaviours: return or panic at any point with any value",
 "Recoverer has no tests.",
 ["web/middleware/recoverer.go"],
 [("deferred recover","web/middleware/recoverer.go Recoverer")],[],["response of a panicking handler","absence of an escaping panic"])
p("C17","The request logger is transparent and reports what was sent",
 "Logger calls the next handler exactly once with the same request and a writer that forwards to the original one, logs the start before and the end after it, and reports the status that was really sent; if the handler sent nothing, a 200 header is sent on its behalf. It changes nothing else about the request or response, and prints the request ID when one is present.",
 ["inputs","histories"],"all requests, contexts and handler behaviours",
 "Logger has no tests.",
 ["web/middleware/logger.go"],
 [("wrapping and logging","web/middleware/logger.go Logger, printStart, printEnd"),("response proxy","web/mutil WrapWriter")],[],["response status, log lines"])
p("C18","NoCache and RealIP rewrite exactly the documented request and response data",
 "NoCache removes the conditional-request headers from the request and sets its four anti-caching response headers before it calls the next handler exactly once, and touches no other header. RealIP sets RemoteAddr to the first comma-separated entry of X-Forwarded-For if that header is not empty (an empty first entry leaves RemoteAddr alone), else to X-Real-IP if that is not empty, else leaves it alone; then it calls the next handler exactly once.",
 ["inputs"],"all header contents",
 "TestNoCache only checks the four headers of one response; RealIP has no tests.",
 ["web/middleware/nocache.go","web/middleware/realip.go"],
 [("header rewriting","web/middleware/nocache.go NoCache"),("address selection","web/middleware/realip.go realIP, RealIP")],[],["headers and RemoteAddr seen by the next handler"])
p("C19","Graceful draining never closes a connection that is in use",
 "For every interleaving of reads, idle/in-use marks, closes, disowns and drains, a connection is closed by CloseIdle or Drain only if it is idle at that moment, is closed by DrainAll whatever its state, and is never closed or affected by the listener after it was disowned. A connection becomes in use by MarkInUse, or by Read unless the mode is Manual, and idle by MarkIdle, or by SetReadDeadline in Deadline mode; once draining has started, a connection that becomes idle is closed at once, and a Read that completes after its connection was closed by the listener returns an error and no data.",
 ["schedules","histories"],"all interleavings of operations on connections of a listener, all three modes",
 "The tests drive one connection through single-step scenarios plus one randomised run; lost updates between the connection and shard locks need a particular interleaving.",
 ["graceful/listener/conn.go","graceful/listener/shard.go","graceful/listener/listener.go"],
 [("connection state machine under its lock","graceful/listener/conn.go"),("idle/all sets and drain flag under the shard lock","graceful/listener/shard.go"),("mode semantics","graceful/listener/conn.go Read, SetReadDeadline")],
 [("busy, closed, disowned","connection state","graceful/listener/conn.go conn"),("idle, all, drain","tracked connections","graceful/listener/shard.go shard")],
 ["Close calls on the wrapped connection","Read results"])
p("C20","Every accepted connection is tracked and released exactly once",
 "Every connection a wrapped listener hands out is tracked until it is closed or disowned, and is then forgotten and released exactly once whatever the order and number of Close, Disown, mark and drain operations, so that no sequence of operations panics, leaks a tracked connection, or makes Drain return early or wait for a finished connection. Drain and DrainAll return only when no tracked connection is left; after either has started, no new connection is handed out. A second Close or Disown of a connection returns an error and has no other effect; operations on connections that are not the listener's return an error and do nothing.",
 ["schedules","histories"],"all sequences and interleavings of operations",
 "The tests never disown a closed connection, mark a closed one or accept while draining.",
 ["graceful/listener/conn.go","graceful/listener/shard.go","graceful/listener/listener.go"],
 [("wait-group accounting","graceful/listener/conn.go init, Close, disown, markIdle, closeIfIdle"),("tracking","graceful/listener/shard.go track, disown, closeConns"),("drain","graceful/listener/listener.go Drain, DrainAll, Accept")],
 [("wg","connections not yet released","graceful/listener/shard.go shard"),("all","tracked connections","graceful/listener/shard.go shard")],
 ["return of Drain","errors of Close/Disown","panics"])
p("C21","Shutdown runs its phases once each, in order, before Wait returns",
 "On shutdown, however many times and from however many goroutines it is requested, every pre-hook runs once, in the order added and with the triggering signal, before any listener is closed; then every registered listener is closed and drained (including in-use connections if and only if the shutdown is forced); then every post-hook runs once, in order; and only then does Wait return. A forced shutdown requested while a graceful one is waiting still takes effect.",
 ["schedules","histories"],"all numbers of hooks and listeners, all interleavings of shutdown requests",
 "Package graceful has no tests that compile here.",
 ["graceful/signal.go","graceful/graceful.go"],
 [("once-guarded phases","graceful/signal.go shutdown"),("parallel close and drain","graceful/signal.go closeListeners"),("hook registration","graceful/signal.go PreHook..., PostHook...")],
 [("prehooks, posthooks, listeners","registered work, protected by mu","graceful/signal.go"),("closing","shutdown has begun","graceful/signal.go")],
 ["order of hook, Close, Drain and Wait"])
p("C22","Signals trigger graceful shutdown; double kick and timeout make it forced",
 "Every signal received starts a shutdown carrying that signal, forced if and only if a double-kick window is set and the previous signal arrived less than the window before; if a timeout is set and the shutdown is not forced, a forced shutdown follows after the timeout, and never otherwise. Negative durations passed to DoubleKickWindow or Timeout are ignored, any other value replaces the setting and zero disables the feature.",
 ["histories","inputs"],"all signal sequences and arrival times, all settings",
 "There are no tests of signal handling that compile here.",
 ["graceful/signal.go"],
 [("signal loop","graceful/signal.go sigLoop"),("settings","graceful/signal.go DoubleKickWindow, Timeout")],
 [("doubleKick, timeout","settings, protected by mu","graceful/signal.go")],
 ["shutdown requests issued"])
p("C23","A gracefully stopped server reports no error, and only then",
 "After shutdown has begun, serving ends without an error when the only reason is that the listener was closed or is draining; before shutdown, and for every other error, the error is returned unchanged. Serving never modifies the caller's server value; connections that the HTTP server reports idle become idle for draining, hijacked ones are disowned, and the caller's own connection-state callback still sees every state change exactly once; closing the listener for shutdown first disables keep-alives.",
 ["inputs","schedules"],"all errors, all connection state sequences, all server configurations",
 "There are no tests of package graceful that compile here.",
 ["graceful/graceful.go","graceful/serve13.go","graceful/server.go"],
 [("error filter","graceful/graceful.go peacefulError"),("connection state hook","graceful/serve13.go connState.Wrap"),("shadow server","graceful/serve13.go Serve")],
 [("closing","shutdown has begun","graceful/signal.go")],
 ["error returned by Serve","ConnState callbacks"])
p("C24","TLS serving keeps the caller's TLS settings and is secure by default",
 "When the caller supplies a TLS configuration, the one used for serving has every setting of it except the certificate loaded from the given files and a default protocol list when none was set, and the caller's value is never modified; without one, TLS 1.0 is the minimum version. If the certificate cannot be loaded or the address cannot be bound, an error is returned and nothing is served; empty addresses default to the http and https ports.",
 ["inputs","configurations"],"all TLS configurations and server addresses",
 "There are no tests of package graceful that compile here.",
 ["graceful/server.go","graceful/clone16.go"],
 [("configuration cloning","graceful/clone16.go cloneTLSConfig"),("listener set-up","graceful/server.go ListenAndServe, ListenAndServeTLS")],
 [],["configuration passed to the TLS listener"])
p("C25","Bind strings and the environment select the documented socket",
 "A bind string containing a colon is a TCP address; otherwise one starting with '/' or '.' is a UNIX socket path, 'fd@N' is file descriptor N and 'einhorn@N' the N-th einhorn socket (0 <= N < the number einhorn passed); anything else, a malformed number or an invalid descriptor is an error, never a crash. The default is the first available of $GOJI_BIND, einhorn@0 (only under the einhorn master), fd@3 (only when systemd passed sockets to this process), ':' followed by $PORT, and the program's fallback; readiness is acknowledged to einhorn at most once.",
 ["inputs","configurations"],"all bind strings, all environments",
 "Package bind has no tests.",
 ["bind/bind.go","bind/einhorn.go","bind/systemd.go"],
 [("bind string dispatch","bind/bind.go listenTo"),("environment sniffing","bind/bind.go Sniff, bind/einhorn.go einhornInit, bind/systemd.go systemdInit"),("einhorn sockets","bind/einhorn.go einhornBind, einhornAck")],
 [("einhornNumFds, systemdNumFds","sockets passed by the parent","bind")],
 ["listener or error returned","default of the -bind flag"])
p("C26","The default server is assembled and started in the documented order",
 "The default Mux starts with exactly the middleware RequestID, Logger, Recoverer and AutomaticOptions, outermost first. Serving on a listener compiles the default routes and installs the default Mux at the root of net/http's default mux, installs signal handlers, only then signals readiness, serves, ends the program if serving failed, and otherwise returns only after the graceful shutdown has completed.",
 ["programs"],"every start-up of a program using package goji",
 "The top-level package has no tests.",
 ["default.go","serve.go"],
 [("default middleware","default.go init"),("start-up sequence","serve.go ServeListener")],
 [("DefaultMux","the default Mux","default.go")],["order of start-up actions"])
p("C27","Routing never panics and always terminates",
 "For every route table built through the public API from built-in patterns and every request path, including empty paths and arbitrary bytes, routing finishes without a run-time panic such as an index out of range, and examines each route at most once.",
 ["inputs","programs"],"all route tables, all paths",
 "The tests use a handful of well-formed paths; the bytecode interpreter indexes the path and the program with computed values.",
 ["web/bytecode_runner.go","web/bytecode_compiler.go","web/string_pattern.go","web/regexp_pattern.go","web/router.go"],
 [("bytecode interpreter","web/bytecode_runner.go route"),("pattern matching","web/string_pattern.go match, web/regexp_pattern.go match")],
 [],["absence of panics and hangs"])
p("C28","Requests already in flight complete before a graceful stop finishes",
 "Once a graceful shutdown has been requested, every HTTP request that the server had begun to read is answered in full before the process is told that shutdown is complete, and every idle keep-alive connection is eventually closed.",
 ["schedules","histories"],"all client behaviours and interleavings of net/http's connection goroutines with shutdown",
 "It is an end-to-end liveness and whole-history property of net/http's goroutines together with the listener.",
 ["graceful/serve13.go","graceful/listener/conn.go"],
 [("idle tracking through ConnState and Read","graceful/serve13.go, graceful/listener/conn.go")],[],["client-visible responses during shutdown"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
